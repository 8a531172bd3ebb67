package cli

import (
	"fmt"
	"path"
	"strings"

	"github.com/edwingeng/hotswap/zzverif/sym"
	"github.com/edwingeng/hotswap/zzverif/vfs"
)

// underPlugin tells whether an import path is the plugin's or below it.
func underPlugin(p, pkg string) bool {
	if len(p) < len(pkg) {
		return false
	}
	c := sym.EqStr(p[:len(pkg)], pkg)
	if len(p) > len(pkg) {
		c = sym.And(c, sym.EqStr(p[len(pkg):len(pkg)+1], "/"))
	}
	return c
}

// Rewrite: one import path that looks more or less like the plugin's own, in
// either kind of quotes, in a file of the root package or of a package below.
func Rewrite() {
	w := newWorld()
	pkg := w.pkgPath()
	// the path: an optional prefix, the plugin's path with its last letter open, a tail
	pre := []string{"", "v/", "v"}[sym.Choice("prefix", 3)]
	tail := sym.String("tail", sym.Choice("tail length", 3), "/ox-")
	p := pre + pkg[:len(pkg)-1] + sym.String("last", 1, "oOx") + tail
	q := []string{`"`, "`"}[sym.Choice("quote", 2)]
	name := []string{"", "foo ", "_ ", ". "}[sym.Choice("import name", 4)]
	root := sym.Choice("file", 2) == 0
	first := "import \"fmt\"\n\nimport (\n\t" + name + q
	rest := q + "\n\tb " + `"` + w.mod + `/plugin/foobar"` + "\n)\n\nconst s = \"hello\\n\"\n" + "var _ = `x`\n"
	put := func(rel, clause string) { w.src(rel, "package "+clause+"\n"+first+p+rest) }
	if root {
		put("imp.go", "foo")
	} else {
		put("sub/imp.go", "sub")
	}
	w.src("main.go", "package foo\n"+required)
	// not Go: stays as it is
	data := "package foo\n\nimport \"" + pkg + "\"\nimport _ \"" + p + "\"\n"
	other := []string{"data.txt", "sub/x.go.txt", "x.gob.txt"}[sym.Choice("other file", 3)]
	w.src(other, data)
	before := tree(w.base)
	code := w.build("--include", `\.txt$`, "plugin/foo", "bin")
	sym.Assert(code == 0, "C30:a good plugin builds")
	bs := w.builds()
	if code != 0 || len(bs) != 1 {
		return
	}
	tmp := w.mod + "/plugin/" + path.Base(bs[0].dir)
	got, ok := "", false
	clause := ""
	if root {
		got, ok = bs[0].snap["imp.go"]
		clause = "main"
	} else {
		got, ok = bs[0].snap["sub/imp.go"]
		clause = "sub"
	}
	sym.Assert(ok, "C31:every Go file is taken")
	same := "package " + clause + "\n" + first + p + rest
	own := underPlugin(p, pkg)
	sym.CoverIf(own, "own")
	sym.CoverIf(sym.Not(own), "foreign")
	sym.Assert(sym.Implies(sym.Not(own), sym.EqStr(got, same)), "C30:other import paths are left alone")
	if len(p) >= len(pkg) {
		moved := "package " + clause + "\n" + first + tmp + p[len(pkg):] + rest
		sym.Assert(sym.Implies(own, sym.EqStr(got, moved)), "C30:own import paths refer to the temporary package")
	}
	sym.Assert(sym.EqStr(bs[0].snap[other], data), "C30:other files are copied as they are")
	m, ok := bs[0].snap["main.go"]
	sym.Assert(ok && m == "package main\n"+required, "C30:a root file is the same but for its package clause")
	after := tree(w.base)
	for _, k := range keys(before) {
		x, ok := after[k]
		sym.Assert(ok && sym.EqStr(x, before[k]), "C31:the plugin's directory is not changed")
	}
}

// Clause: the package clause in all kinds of surroundings.
func Clause() {
	w := newWorld()
	type t struct{ pre, post string }
	all := []t{
		{"package ", "\n"},
		{"package\t", " // package foo\n"},
		{"// Package foo\npackage ", "// x\n"},
		{"/*\npackage foo is\npackage bar\n*/\npackage ", "\n"},
		{"/* c */ package ", "\n"},
		{"package ", ";import \"fmt\"\n"},
		{"package /* foo */ ", "/* foo */\n"},
		{"\n\n\tpackage ", "\nconst s = `\npackage foo\n\"ex.org/mo/other\"\n`\n"},
		{"package ", "\nvar s = `package x\npackage y`\n"},
		{"package\n\n", "\n"},
		{"//line x.go:10\npackage ", "\n"},
		{"// c\r\npackage ", "\r\n\r\nconst t = `a\r\nb`\r\n"},
	}
	k := sym.Choice("text", len(all))
	below := sym.Choice("in a package below", 4)
	sub := below > 0
	name := "f" + sym.String("name", 2, "oxm")
	text := func(n string) string { return all[k].pre + n + all[k].post + "\nvar _ = 1\n" }
	rel := "x.go"
	w.src("main.go", "package "+name+"\n"+required)
	if sub {
		rel = []string{"", "sub/x.go", "sub/deep/x.go", "sub/deep/er/x.go"}[below]
		w.src(rel, text(name))
	} else {
		w.src(rel, text(name))
	}
	code := w.build("plugin/foo", "bin")
	sym.Assert(code == 0, "C30:a good plugin builds")
	bs := w.builds()
	if code != 0 || len(bs) != 1 {
		return
	}
	sym.Cover("built")
	if sub {
		sym.Assert(sym.EqStr(bs[0].snap[rel], text(name)), "C30:a file of another package keeps its package clause")
		return
	}
	sym.Assert(sym.EqStr(bs[0].snap[rel], text("main")), "C30:a root file is the same but for its package clause")
}

// TakeFiles: a file of any name somewhere in the plugin, any include and exclude.
func TakeFiles() {
	w := newWorld()
	w.src("main.go", "package foo\n"+required)
	w.src("sub/s.go", "package sub\n")
	w.src("empty/deep/n.txt", "nothing")
	dir := []string{"", "sub/", "sub/deep/", ".hid/", "_x/testdata/", "vendor/", "hotswapbureau/", "internal/tmp/", "bin/"}[sym.Choice("directory", 9)]
	pkg := map[string]string{"": "foo", "sub/": "sub", "sub/deep/": "deep", ".hid/": "hid", "_x/testdata/": "td", "vendor/": "vn", "hotswapbureau/": "hotswapbureau", "internal/tmp/": "tmp", "bin/": "bin"}[dir]
	stem := sym.Choice("stem", 4)
	base := ""
	generated := false
	switch stem {
	case 0:
		base = sym.String("stem", 2, "abBt_") + []string{".go", "_test.go", ".txt", ".go.txt", "", ".GO", "test.go", "_test.txt"}[sym.Choice("suffix", 8)]
	case 1:
		base = []string{"hotswap.main.go", "hotswap.live.go", "hotswap.bureau.go"}[sym.Choice("generated", 3)]
		generated = true
	case 2:
		base = []string{"xhotswap.main.go", "hotswap.main.txt", "hotswap.staticPluginInit.foo.go", "hotswap.mainx.go"}[sym.Choice("near miss", 4)]
	case 3:
		base = "d" + sym.String("stem", 1, "ab") + ".go/n" + []string{".go", ".txt"}[sym.Choice("in a directory", 2)]
		pkg = "other"
	}
	base = sym.Concrete(base)
	leaf := path.Base(base)
	isGo := strings.HasSuffix(leaf, ".go")
	test := strings.HasSuffix(leaf, "_test.go")
	rel := dir + base
	root := !strings.Contains(rel, "/")
	text := "package " + pkg + "\n\nvar z = 1\n"
	w.src(rel, text)
	var args []string
	inc := []string{"", `\.txt$`, `.`, `^[ab]`, `(?i)^B`}[sym.Choice("include", 5)]
	exc := []string{"", `b`, `\.go$`, `sub`}[sym.Choice("exclude", 4)]
	if inc != "" {
		args = append(args, "--include="+inc)
	}
	if exc != "" {
		args = append(args, "--exclude="+exc)
	}
	matches := func(f string) bool {
		in := false
		switch inc {
		case `\.txt$`:
			in = strings.HasSuffix(f, ".txt")
		case `.`:
			in = true
		case `^[ab]`:
			in = f[0] == 'a' || f[0] == 'b'
		case `(?i)^B`:
			in = f[0] == 'b' || f[0] == 'B'
		}
		switch exc {
		case `b`:
			in = in && !strings.Contains(f, "b")
		case `\.go$`:
			in = in && !strings.HasSuffix(f, ".go")
		case `sub`:
			in = in && !strings.Contains(f, "sub")
		}
		return in
	}
	before := tree(w.base)
	code := w.build(append(args, "plugin/foo", "bin")...)
	sym.Assert(code == 0, "C31:a good plugin builds")
	bs := w.builds()
	if code != 0 || len(bs) != 1 {
		return
	}
	snap := bs[0].snap
	got, has := snap[rel]
	switch {
	case generated && isGo && !test:
		sym.Cover("generated")
		sym.Assert(!has || !strings.Contains(got, "var z = 1"), "C31:generated files are not taken")
	case test:
		sym.Cover("test")
		sym.Assert(!has, "C31:tests are not taken")
	case isGo:
		sym.Cover("go")
		want := text
		if root {
			want = strings.Replace(text, "package foo", "package main", 1)
		}
		sym.Assert(has && got == want, "C31:every Go file is taken")
	default:
		if matches(leaf) {
			sym.Cover("included")
			sym.Assert(has && got == text, "C31:included files are taken")
		} else {
			sym.Cover("not included")
			sym.Assert(!has, "C31:no other file is taken")
		}
	}
	sym.Assert(snap["main.go"] != "" && snap["sub/s.go"] == "package sub\n", "C31:every Go file is taken")
	_, has = snap["empty/deep/n.txt"]
	sym.Assert(has == matches("n.txt"), "C31:included files are taken")
	for _, f := range keys(snap) {
		b := path.Base(f)
		sym.Assert(f == rel || f == "main.go" || f == "sub/s.go" || f == "empty/deep/n.txt" || b == "hotswap.main.go" || b == "hotswap.live.go" || b == "hotswap.bureau.go",
			"C31:no other file is taken")
	}
	after := tree(w.base)
	delete(after, w.out+"/foo.so")
	sym.Assert(sameTree(before, after), "C31:the plugin's directory is not changed")
}

// ManyFiles: more files than there are copying workers, large ones among them.
func ManyFiles() {
	w := newWorld()
	w.src("main.go", "package foo\n"+required)
	n := []int{1, 12, 90}[sym.Choice("files", 3)]
	size := []int{0, 5000, 70000}[sym.Choice("size", 3)]
	end := []string{"", "\n", "\n\n"}[sym.Choice("end", 3)]
	bad := sym.Choice("unreadable", 4) // none, first, middle, last
	want := map[string]string{"main.go": "package main\n" + required}
	for i := 0; i < n; i++ {
		d := []string{"", "sub/", "sub/deep/"}[i%3]
		f := fmt.Sprintf("%sf%d", d, i)
		size := size
		if i > 4 {
			size = 0
		}
		if i%2 == 0 {
			f += ".go"
			imp := fmt.Sprintf("import (\n\t\"ex.org/mo/plugin/foo/sub\"\n\t_ \"ex.org/mo/plugin/foo/sub/deep\"\n\tx%d \"ex.org/mo/plugin/food\"\n)\n", i)
			text := imp + fmt.Sprint("// file ", i, " ", strings.Repeat("long line ", size/10)) + "\nvar a = `x`" + end
			w.src(f, "package "+[]string{"foo", "sub", "deep"}[i%3]+"\n"+text)
			want[f] = "package " + []string{"main", "sub", "deep"}[i%3] + "\n" + text
		} else {
			f += ".txt"
			text := fmt.Sprint("\"ex.org/mo/plugin/foo\"\r\n\x00 file ", i, strings.Repeat("\xff ", size/10)) + end
			w.src(f, text)
			want[f] = text
		}
	}
	if bad > 0 {
		f := []string{"a.go", "f50.txt", "sub/z.txt"}[bad-1]
		vfs.Del(w.plug + "/" + f)
		vfs.PutBad(w.plug + "/" + f)
	}
	before := tree(w.base)
	dirs := vfs.Dirs(w.base)
	code := w.build("--include=txt", "plugin/foo", "bin")
	sym.Assert((code != 0) == (bad > 0), "C36:the exit status tells whether a step failed")
	sym.Assert((code != 0) == (bad > 0), "C31:the files that are there are taken")
	sym.Assert(len(w.temps(dirs)) == 0, "C36:the temporary directory is gone")
	after := tree(w.base)
	delete(after, w.out+"/foo.so")
	sym.Assert(sameTree(before, after), "C31:the plugin directory is not changed")
	bs := w.builds()
	sym.Assert((len(bs) == 1) == (bad == 0), "C36:nothing incomplete is built")
	if len(bs) != 1 {
		return
	}
	sym.Cover("built")
	tmp := "ex.org/mo/plugin/" + path.Base(bs[0].dir)
	for f, text := range want {
		got, ok := bs[0].snap[f]
		sym.Assert(ok, "C31:every file is taken")
		if strings.HasSuffix(f, ".go") {
			text = strings.Replace(strings.Replace(text, "ex.org/mo/plugin/foo/", tmp+"/", -1), "ex.org/mo/plugin/foo\"", tmp+"\"", -1)
		}
		if ok {
			sym.Assert(got == text, "C30:a file equals its source but for the plugin's own import paths")
		}
	}
	for f := range bs[0].snap {
		leaf := path.Base(f)
		_, ok := want[f]
		sym.Assert(ok || strings.HasPrefix(leaf, "hotswap."), "C31:no other file is taken")
	}
}

// BuildArgs: any arguments after --, any way of naming the directories.
func BuildArgs() {
	w := newWorld()
	names := []string{"foo", "Foo-1", "a.b"}
	name := names[sym.Choice("plugin", len(names))]
	w.plug = w.base + "/plugin/" + name
	w.src("main.go", "package foo\n"+required)
	outs := []string{"bin", "./bin/", w.base + "/bin", "plugin/../new/out", "plugin/" + name}
	k := sym.Choice("output", len(outs))
	w.out = []string{w.base + "/bin", w.base + "/bin", w.base + "/bin", w.base + "/new/out", w.plug}[k]
	var flags []string
	switch sym.Choice("go build", 4) {
	case 1:
		flags = append(flags, "--goBuild=false")
	case 2:
		flags = append(flags, "--goBuild=true")
	case 3:
		flags = append(flags, "-v")
	}
	run := len(flags) == 0 || flags[0] != "--goBuild=false"
	var user []string
	n := sym.Choice("arguments", 4)
	for i := 0; i < n; i++ {
		user = append(user, sym.String(fmt.Sprint("argument ", i), sym.Choice(fmt.Sprint("length ", i), 3), "-r= "))
	}
	args := append(append([]string{}, flags...), "plugin/"+name, outs[k])
	if n > 0 || sym.Choice("dashes", 2) == 1 {
		args = append(args, "--")
	}
	code := w.build(append(args, user...)...)
	sym.Assert(code == 0, "C35:a good plugin builds")
	bs := w.builds()
	if !run {
		sym.Cover("no build")
		sym.Assert(len(bs) == 0, "C35:--goBuild=false runs no go build")
		return
	}
	sym.Assert(len(bs) == 1, "C35:exactly one go build is run")
	if len(bs) != 1 {
		return
	}
	b := bs[0]
	sym.Cover("build")
	sym.Assert(path.Dir(b.dir) == w.base+"/plugin" && b.dir != w.plug && b.snap["main.go"] != "", "C35:go build runs in the temporary package")
	sym.Assert(len(b.argv) == 5+n, "C35:the arguments are those wanted and those given")
	if len(b.argv) != 5+n {
		return
	}
	for i, u := range user {
		sym.Assert(sym.EqStr(b.argv[5+i], u), "C35:the arguments after -- follow in order")
	}
	sym.Assert(b.argv[0] == "build", "C35:go build is run")
	tp, bm, o := 0, 0, 0
	for i := 1; i < 5; i++ {
		switch b.argv[i] {
		case "-trimpath":
			tp++
		case "-buildmode=plugin":
			bm++
		case "-o":
			if i < 4 && b.argv[i+1] == w.out+"/"+name+".so" {
				o++
			}
		}
	}
	sym.Assert(tp == 1 && bm == 1 && o == 1, "C35:the arguments are those wanted and those given")
}

// Temps: any step fails, any of the flags that matter.
func Temps() {
	w := newWorld()
	w.src("sub/s.go", "package sub\n\ntype Live_T struct{}\n")
	vfs.Put(w.base+"/plugin/foo-1/x.go", []byte("package x\n"))
	vfs.Put(w.base+"/plugin/other.txt", []byte("x"))
	main := "package foo\n" + required
	fail := sym.Choice("failing step", 13)
	bad := fail != 0
	buildArgs := []string{"plugin/foo", "bin"}
	switch fail {
	case 1:
		w.failN["git"] = 1
	case 2:
		w.failN["git"] = 2
	case 3:
		w.failN["list"] = 1
	case 4:
		w.failN["go"] = 1
	case 5:
		main = strings.Replace(main, "func OnFree() {}", "", 1)
	case 6:
		main += "\nfunc live_a() {}\nfunc live_b() {}\ntype live_a struct{}\n"
	case 7:
		main += "\ntype live_a int\n"
	case 8:
		vfs.PutBad(w.plug + "/sub/bad.go")
	case 9:
		w.noProg["go"] = true
	case 10:
		w.noProg["git"] = true
	case 11:
		vfs.Put(w.base+"/file", []byte("x"))
		buildArgs[1] = "file"
	case 12:
		main += "\nfunc {\n"
	}
	w.src("main.go", main)
	leave, build := false, true
	var args []string
	switch sym.Choice("flags", 4) {
	case 1:
		leave = true
		args = append(args, "--leaveTemps")
	case 2:
		leave, build = true, false
		args = append(args, "--goBuild=false")
	case 3:
		args = append(args, "-v", "--debug")
	}
	if !build && fail == 4 {
		bad = false
	}
	before := tree(w.base)
	dirs := vfs.Dirs(w.base)
	code := w.build(append(args, buildArgs...)...)
	sym.Assert((code != 0) == bad, "C36:the exit status tells whether a step failed")
	temps := w.temps(dirs)
	if !leave {
		sym.Assert(len(temps) == 0, "C36:the temporary directory is gone")
	} else {
		if code == 0 {
			sym.Assert(len(temps) == 1, "C36:the temporary directory stays if it is to stay")
		}
		sym.Assert(len(temps) <= 1, "C36:there is one temporary directory")
		sym.Cover("left")
	}
	if bad {
		sym.Cover("fails")
	} else {
		sym.Cover("succeeds")
	}
	after := tree(w.base)
	for _, t := range temps {
		for _, f := range keys(after) {
			if strings.HasPrefix(f, t+"/") {
				delete(after, f)
			}
		}
	}
	if !bad && build {
		sym.Assert(after[w.out+"/foo.so"] != "", "C36:the plugin is there")
	}
	delete(after, w.out+"/foo.so")
	sym.Assert(sameTree(before, after), "C36:nothing outside the temporary directory is removed or changed")
}

// Headers: what a Go file begins and ends with does not matter.
func Headers() {
	w := newWorld()
	head := []string{"", "// Code generated by hand. DO NOT EDIT.\n\n", "// Code generated by hotswap. DO NOT EDIT.\n", "//go:build linux\n\n", "//go:build !windows\n// +build !windows\n\n", "\ufeff",
		"// Copyright\n\n// Package doc.\n//\n//\timport \"fmt\"\n", "/* a\nb */\n\n\n"}[sym.Choice("head", 8)]
	eol := []string{"\n", "\r\n"}[sym.Choice("line ends", 2)]
	tail := []string{"", "\n", "\n\n\n", "\n// end", "\n\t \n"}[sym.Choice("tail", 5)]
	place := sym.Choice("place", 4)
	dir := []string{"", "sub/", "sub/internal/deep/", "cmd/main/"}[place]
	clause := []string{"foo", "sub", "deep", "main"}[place]
	leaf := []string{"x.go", "zz_generated.go", "doc.go", "x_linux.go", "main_x.go", "mock_x.go", "x.pb.go", "test.go"}[sym.Choice("file", 8)]
	own := []string{"ex.org/mo/plugin/foo/lib", "ex.org/mo/plugin/foo/lib/internal/x"}[sym.Choice("import", 2)]
	body := func(clause, lib string) string {
		return head + strings.Replace("package "+clause+"\n\nimport (\n\t_ \""+lib+"\"\n\t\"ex.org/mo/plugin/foolish\"\n)\n\nimport _ \""+lib+"\"\nimport x `"+lib+"`\n\nvar _, _ = foolish.X, x.X", "\n", eol, -1) + tail
	}
	w.src("main.go", "package foo\n"+required)
	w.src("lib/l.go", "package lib\n\nvar X int\n")
	w.src("lib/internal/x/l.go", "package x\n\nvar X int\n")
	vfs.Put(w.base+"/plugin/foolish/f.go", []byte("package foolish\n\nvar X int\n"))
	w.src(dir+leaf, body(clause, own))
	code := w.build("plugin/foo", "bin")
	sym.Assert(code == 0, "C30:a good plugin builds")
	bs := w.builds()
	if code != 0 || len(bs) != 1 {
		return
	}
	sym.Cover("built")
	if place == 0 {
		clause = "main"
	}
	tmp := w.mod + "/plugin/" + path.Base(bs[0].dir)
	got, ok := bs[0].snap[dir+leaf]
	sym.Assert(ok, "C31:every Go file is taken")
	sym.Assert(got == body(clause, tmp+strings.TrimPrefix(own, "ex.org/mo/plugin/foo")), "C30:a file equals its source but for the plugin's own import paths")
}

// LinkedFiles: files of the plugin may be symbolic links to files elsewhere, and
// directories of it to other directories, which are no part of the plugin.
func LinkedFiles() {
	w := newWorld()
	w.src("main.go", "package foo\n"+required)
	store := vfs.Root() + "/store"
	text := "package %s\n\nimport _ \"ex.org/mo/plugin/foo/sub\"\n\nvar z = 1\n"
	vfs.Put(store+"/d/deep/x.go", []byte("package deep\n"))
	vfs.Put(store+"/d/x.go", []byte("package d\n"))
	dir := []string{"", "sub/"}[sym.Choice("directory", 2)]
	pkg := []string{"foo", "sub"}[len(dir)/4]
	w.src("sub/s.go", "package sub\n")
	leaf := []string{"a.go", "a_test.go", "a.txt", "hotswap.live.go", "a.GO"}[sym.Choice("name", 5)]
	target := store + []string{"/b.go", "/b.txt", "/b_test.go"}[sym.Choice("target", 3)]
	src := fmt.Sprintf(text, pkg)
	vfs.Put(target, []byte(src))
	rel := dir + leaf
	if sym.Choice("relative", 2) == 1 {
		vfs.PutLink(w.plug+"/"+rel, strings.Repeat("../", 3+len(dir)/4)+strings.TrimPrefix(target, vfs.Root()+"/"))
	} else {
		vfs.PutLink(w.plug+"/"+rel, target)
	}
	other := []string{"", "ld", "sub/ld", "broken.txt"}[sym.Choice("another link", 4)]
	switch other {
	case "":
	case "broken.txt":
		vfs.PutLink(w.plug+"/"+other, "nowhere")
	default:
		vfs.PutLink(w.plug+"/"+other, store+"/d")
	}
	var args []string
	inc := sym.Choice("include", 2) == 1
	if inc {
		args = append(args, `--include=^a\.txt$`)
	}
	before, beforeStore := tree(w.base), tree(store)
	dirs := vfs.Dirs(w.base)
	code := w.build(append(args, "plugin/foo", "bin")...)
	sym.Assert(code == 0, "C31:a good plugin builds")
	sym.Assert(len(w.temps(dirs)) == 0, "C36:the temporary directory is gone")
	after := tree(w.base)
	delete(after, w.out+"/foo.so")
	sym.Assert(sameTree(before, after), "C31:the plugin's directory is not changed")
	sym.Assert(sameTree(beforeStore, tree(store)), "C36:nothing outside the temporary directory is changed")
	bs := w.builds()
	if code != 0 || len(bs) != 1 {
		return
	}
	snap := bs[0].snap
	got, has := snap[rel]
	switch {
	case leaf == "a.go":
		sym.Cover("linked file")
		tmp := "ex.org/mo/plugin/" + path.Base(bs[0].dir)
		p := pkg
		if dir == "" {
			p = "main"
		}
		sym.Assert(has, "C31:every Go file is taken")
		sym.Assert(got == strings.Replace(fmt.Sprintf(text, p), "ex.org/mo/plugin/foo", tmp, 1), "C30:a file equals its source but for the plugin's own import paths")
	case leaf == "a.txt" && inc:
		sym.Cover("included")
		sym.Assert(has && got == src, "C31:included files are taken")
	case leaf == "hotswap.live.go":
		sym.Assert(!has || !strings.Contains(got, "var z = 1"), "C31:generated files are not taken")
	default:
		sym.Cover("not taken")
		sym.Assert(!has, "C31:no other file is taken")
	}
	for _, f := range keys(snap) {
		b := path.Base(f)
		sym.Assert(f == rel || f == "main.go" || f == "sub/s.go" || strings.HasPrefix(b, "hotswap."), "C31:no other file is taken")
	}
}
