package cli

import (
	"strings"

	"github.com/edwingeng/hotswap/internal/hutils"
	"github.com/edwingeng/hotswap/zzverif/sym"
	"github.com/edwingeng/hotswap/zzverif/vfs"
)

var keywords = map[string]bool{"break": true, "case": true, "chan": true, "const": true, "continue": true, "default": true, "defer": true, "else": true,
	"fallthrough": true, "for": true, "func": true, "go": true, "goto": true, "if": true, "import": true, "interface": true, "map": true, "package": true,
	"range": true, "return": true, "select": true, "struct": true, "switch": true, "type": true, "var": true}

func alnum(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' }

// core is what letters and digits of ASCII there are in s.
func core(s string) string {
	var b []byte
	for i := 0; i < len(s); i++ {
		if alnum(s[i]) {
			b = append(b, s[i])
		}
	}
	return string(b)
}

func legal(s string) bool {
	if s == "" || s == "_" || keywords[s] || s[0] >= '0' && s[0] <= '9' {
		return false
	}
	for i := 0; i < len(s); i++ {
		if !alnum(s[i]) && s[i] != '_' {
			return false
		}
	}
	return true
}

// PkgPath: a directory at any depth, modules at any level.
func PkgPath() { pkgFromDir(sym.Choice("depth", 4), 1, 3, 2, 6, 0) }

// PkgDeep: directories far below their module.
func PkgDeep() { pkgFromDir(4+sym.Choice("depth", 4), 1, 2, 1, 1, 0) }

// PkgName: a directory of any name with any files.
func PkgName() { pkgFromDir(sym.Choice("depth", 2), 7, 0, 10, 1, 4) }

func pkgFromDir(depth, names, inner, files, ends, free int) {
	base := vfs.Root() + "/m"
	vfs.Mkdir(base)
	vfs.SetCwd(base)
	mods := []struct {
		text, path string
	}{
		{"", ""}, // no file
		{"module ex.org/a\n\ngo 1.18\n", "ex.org/a"},
		{"// c\nmodule \"ex.org/b\" // d\n", "ex.org/b"},
		{"module (\n\tc\n)\n", "c"},
		{"go 1.18\n", "!"},
		{"modul x\n", "!"},
	}
	comps := []string{"zz", "a-b", "3c", "y", "x.x", "w_", "vv"}
	dir, rel := base, ""
	path, fails := "", true
	for i := 0; i <= depth; i++ {
		if i > 0 {
			c := comps[i-1]
			if i == depth && free > 0 && sym.Choice("leaf", 2) == 1 {
				c = sym.Concrete(sym.String("name", sym.Choice("name length", free)+1, "a1-_"))
			} else if i == depth {
				c = []string{"go", "func", "Typ\u00e9", "\u00e9", "a.b", "default", "int"}[sym.Choice("name", names)]
			}
			dir += "/" + c
			rel = strings.TrimPrefix(rel+"/"+c, "/")
		}
		vfs.Mkdir(dir)
		n := inner
		if i == 0 || i == depth {
			n = ends
		}
		m := mods[sym.Choice("go.mod", n)]
		if ends == 1 && i == 0 {
			m = mods[1]
		}
		if m.text != "" {
			vfs.Put(dir+"/go.mod", []byte(m.text))
			path, fails, rel = m.path, m.path == "!", ""
		}
	}
	want := path
	if rel != "" {
		want = path + "/" + rel
	}
	// its files
	name := ""
	switch []int{2, 0, 1, 3, 4, 5, 6, 7, 8, 9}[sym.Choice("files", files)] {
	case 0:
	case 1:
		vfs.Put(dir+"/x.txt", []byte("package x\n"))
		vfs.Put(dir+"/sub/x.go", []byte("package x\n"))
	case 2:
		vfs.Put(dir+"/x.go", []byte("package x\n"))
		name = "x"
	case 3:
		vfs.Put(dir+"/x.go", []byte("package x\n"))
		vfs.Put(dir+"/y.go", []byte("// Package y\n\npackage x\n\nfunc f() {\n"))
		name = "x"
	case 4:
		vfs.Put(dir+"/x.go", []byte("package x\n"))
		vfs.Put(dir+"/y.go", []byte("package y\n"))
		fails = true
	case 5:
		vfs.Put(dir+"/x.go", []byte("package x\n"))
		vfs.Put(dir+"/x_test.go", []byte("package x\n"))
		vfs.Put(dir+"/y_test.go", []byte("package x_test\n"))
		name = "x"
	case 6:
		vfs.Put(dir+"/y_test.go", []byte("package x_test\n"))
	case 7:
		vfs.Put(dir+"/x.go", []byte("packag x\n"))
		fails = true
	case 8:
		vfs.Put(dir+"/x.go", []byte("package x_test\n"))
		name = "x_test"
	case 9: // what go build leaves out
		vfs.Put(dir+"/x.go", []byte("package x\n"))
		switch sym.Choice("left out", 4) {
		case 0:
			vfs.Put(dir+"/gen.go", []byte("// A generator.\n\n//go:build ignore\n\npackage main\n"))
		case 1:
			vfs.Put(dir+"/_old.go", []byte("package old\n"))
		case 2:
			vfs.Put(dir+"/x_plan9.go", []byte("package y\n"))
		case 3:
			vfs.Put(dir+"/.#y.go", []byte("package y\n"))
		}
		name = "x"
	}
	leaf := dir[strings.LastIndexByte(dir, '/')+1:]
	if name == "" && core(leaf) == "" {
		fails = true
	}
	arg := dir
	if sym.Choice("relative", 2) == 1 {
		arg = "." + dir[len(base):]
		if arg == "." && name == "" {
			return // "." has no name to derive one from
		}
	}
	gotName, gotPath, err := hutils.PackageFromDirectory(arg)
	sym.Assert((err != nil) == fails, "C37:it fails exactly if there is no module, no usable name or more than one package")
	if err != nil || fails {
		sym.Cover("fails")
		return
	}
	sym.Cover("succeeds")
	sym.Assert(gotPath == want, "C37:the path is the module's path and the relative path")
	if name != "" {
		sym.Assert(gotName == name, "C37:the name is that of the Go files")
	} else {
		sym.Cover("derived")
		sym.Assert(legal(gotName) && core(gotName) == core(leaf), "C37:a name made from a directory is a legal one")
	}
}
