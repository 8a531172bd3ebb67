package cli

import (
	"bytes"
	"errors"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"

	"github.com/edwingeng/hotswap/zzverif/sym"
	"github.com/edwingeng/hotswap/zzverif/vfs"
	"github.com/spf13/cobra"
	"golang.org/x/tools/go/packages"
)

const gitHash = "0123456789abcdef0123456789abcdef01234567"

var curWorld *world

// run executes the command's main function.
func (w *world) run(args []string) int {
	curWorld, sigCh, sigSet = w, nil, nil
	vfs.SetCwd(w.base)
	vfs.SetEnv(extraEnv...)
	vfs.NoProg = w.noProg
	n := map[string]int{}
	vfs.Exec = func(dir string, argv, env []string) ([]byte, error) {
		prog := argv[0]
		w.cmds = append(w.cmds, cmdRec{prog: prog, dir: dir, argv: argv[1:]})
		rec := &w.cmds[len(w.cmds)-1]
		n[prog]++
		switch prog {
		case "git":
			if w.failN[prog] == n[prog] {
				return nil, vfs.Exit(128)
			}
			for _, a := range argv {
				if strings.Contains(a, "%ct") {
					return []byte("1700000000\n"), nil
				}
			}
			return []byte(gitHash + "\n"), nil
		case "go":
			if len(argv) > 1 && argv[1] == "build" {
				if w.onBuild != nil {
					w.onBuild()
				}
				if !vfs.IsDir(dir) {
					return nil, errors.New("chdir: no such directory")
				}
				rec.snap = map[string]string{}
				for f, s := range tree(dir) {
					rel, _ := filepath.Rel(dir, f)
					rec.snap[rel] = s
				}
				if w.failN[prog] == n[prog] {
					return nil, vfs.Exit(1)
				}
				for k, a := range argv {
					if a == "-o" && k+1 < len(argv) {
						vfs.Put(argv[k+1], []byte("built"))
					}
				}
			}
			return nil, nil
		case "gofmt":
			if w.failN[prog] == n[prog] {
				return nil, vfs.Exit(2)
			}
			return nil, nil
		}
		return nil, errors.New("no such command")
	}
	os.Args = append([]string{"hotswap"}, args...)
	code := sym.CatchExit(func() { sym.CallMain() })
	vfs.Exec = nil
	w.stdout, w.stderr = string(vfs.Stdout), string(vfs.Stderr)
	vfs.Stdout, vfs.Stderr = nil, nil
	if code < 0 {
		code = 0
	}
	return code
}

//verif:replace (*github.com/spf13/cobra.Command).UsageString
func usageString(c *cobra.Command) string { return "Usage: " + c.Use + "\n" }

// ---- signals

var (
	sigCh  chan<- os.Signal
	sigSet []os.Signal
)

//verif:replace os/signal.Notify
func notify(c chan<- os.Signal, sigs ...os.Signal) { sigCh, sigSet = c, append(sigSet, sigs...) }

//verif:replace os/signal.Reset
func reset(sigs ...os.Signal) { sigCh, sigSet = nil, nil }

// deliver sends a signal to the command. It tells whether the command handles it;
// otherwise it would be killed.
func deliver(s os.Signal) bool {
	for _, x := range sigSet {
		if x == s && sigCh != nil {
			select {
			case sigCh <- s:
			default:
			}
			return true
		}
	}
	return false
}

var errList = errors.New("go list: exit status 1")

// load stands in for the package loader, which asks "go list".
//
//verif:replace golang.org/x/tools/go/packages.Load
func load(cfg *packages.Config, patterns ...string) ([]*packages.Package, error) {
	if curWorld != nil {
		if curWorld.failN["list"] == 1 {
			return nil, errList
		}
	}
	if cfg == nil {
		cfg = &packages.Config{}
	}
	dir := cfg.Dir
	if dir == "" {
		dir, _ = os.Getwd()
	}
	root := dir
	for {
		if _, err := os.Stat(root + "/go.mod"); err == nil {
			break
		}
		p := filepath.Dir(root)
		if p == root {
			return nil, errors.New("go: go.mod file not found in current directory or any parent directory")
		}
		root = p
	}
	mod := curWorld.mod
	fset := cfg.Fset
	if fset == nil {
		fset = token.NewFileSet()
	}
	var out []*packages.Package
	for _, pat := range patterns {
		rec := strings.HasSuffix(pat, "/...")
		imp := strings.TrimSuffix(pat, "/...")
		d := ""
		switch {
		case imp == "." || strings.HasPrefix(imp, "./"):
			d = filepath.Join(dir, imp)
		case imp == mod:
			d = root
		case strings.HasPrefix(imp, mod+"/"):
			d = root + "/" + imp[len(mod)+1:]
		default:
			return nil, errors.New("unsupported pattern: " + pat)
		}
		var dirs []string
		if rec {
			dirs = vfs.Dirs(d)
		} else {
			dirs = []string{d}
		}
	next:
		for _, x := range dirs {
			rel, _ := filepath.Rel(d, x)
			if rel != "." {
				p := d
				for _, e := range strings.Split(rel, "/") {
					p += "/" + e
					if e[0] == '.' || e[0] == '_' || e == "testdata" || e == "vendor" || vfs.Exists(p+"/go.mod") {
						continue next
					}
				}
			}
			relRoot, _ := filepath.Rel(root, x)
			pkg, err := loadDir(fset, x, path.Join(mod, relRoot), cfg.Mode)
			if err != nil {
				return nil, err
			}
			if pkg != nil {
				out = append(out, pkg)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].PkgPath < out[j].PkgPath })
	return out, nil
}

func loadDir(fset *token.FileSet, dir, imp string, mode packages.LoadMode) (*packages.Package, error) {
	var files []string
	for _, f := range vfs.Files(dir) {
		b := filepath.Base(f)
		if filepath.Dir(f) != dir || !strings.HasSuffix(b, ".go") || strings.HasSuffix(b, "_test.go") || b[0] == '.' || b[0] == '_' {
			continue
		}
		files = append(files, f)
	}
	if len(files) == 0 {
		return nil, nil
	}
	pkg := &packages.Package{ID: imp}
	if mode&packages.NeedName != 0 {
		pkg.PkgPath = imp
	}
	var syntax []*ast.File
	for _, f := range files {
		data, _ := vfs.Get(f)
		if bytes.HasPrefix(data, []byte("//go:build ignore\n")) {
			continue
		}
		af, err := parser.ParseFile(fset, f, data, parser.AllErrors|parser.ParseComments)
		if err != nil {
			pkg.Errors = append(pkg.Errors, packages.Error{Msg: err.Error()})
		}
		if af == nil {
			continue
		}
		syntax = append(syntax, af)
		if mode&packages.NeedFiles != 0 {
			pkg.GoFiles = append(pkg.GoFiles, f)
		}
		if mode&packages.NeedName != 0 && pkg.Name == "" {
			pkg.Name = af.Name.Name
		}
	}
	if len(syntax) == 0 {
		return nil, nil
	}
	if mode&packages.NeedSyntax != 0 {
		pkg.Syntax = syntax
	}
	return pkg, nil
}
