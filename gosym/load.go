package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/edwingeng/hotswap"

// overlayFiles maps virtual files under /repo/zzverif to the harness sources in /verif/harness.
func overlayFiles(repo, harness string, native bool, gen map[string]string) (map[string]string, error) {
	out := map[string]string{}
	err := filepath.Walk(harness, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(path, ".go") {
			return nil
		}
		b := filepath.Base(path)
		if strings.HasSuffix(b, "_engine.go") && native || strings.HasSuffix(b, "_native.go") && !native {
			return nil
		}
		rel, _ := filepath.Rel(harness, path)
		if strings.HasPrefix(rel, "std/") || strings.HasPrefix(rel, "genplug/") {
			return nil
		}
		out[filepath.Join(repo, "zzverif", rel)] = path
		return nil
	})
	for k, v := range gen {
		out[k] = v
	}
	return out, err
}

func loadProgram(repo, harness, tmp string, pats []string, cfg *config) (*program, error) {
	files, err := overlayFiles(repo, harness, false, cfg.gen)
	if err != nil {
		return nil, err
	}
	ov := map[string][]byte{}
	for k, v := range files {
		b, err := os.ReadFile(v)
		if err != nil {
			return nil, err
		}
		ov[k] = b
	}
	pc := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:        repo,
		Env:        append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off"),
		BuildFlags: []string{"-modfile=" + filepath.Join(tmp, "go.mod")},
		Overlay:    ov,
	}
	pkgs, err := packages.Load(pc, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return nil, fmt.Errorf("loading: %s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p := &program{prog: prog, repoRoot: repo, byPath: map[string]*ssa.Package{}, globIdx: map[*ssa.Global]int{},
		replaced: map[string]*ssa.Function{}, models: map[string]bool{}, isEager: map[*ssa.Package]bool{}, isRepo: map[*ssa.Package]bool{},
		noInit: map[string]bool{}, cfg: cfg, embeds: map[string]string{}}
	for _, sp := range prog.AllPackages() {
		p.byPath[sp.Pkg.Path()] = sp
	}
	var order []*packages.Package
	packages.Visit(pkgs, nil, func(pk *packages.Package) { order = append(order, pk) })
	for _, pk := range order {
		sp := p.byPath[pk.PkgPath]
		if sp == nil {
			continue
		}
		inMod := pk.PkgPath == modPath || strings.HasPrefix(pk.PkgPath, modPath+"/")
		isModel := strings.HasPrefix(pk.PkgPath, modPath+"/zzverif/")
		if isModel {
			p.models[pk.PkgPath] = true
		} else if inMod {
			p.isRepo[sp] = true
		}
		if inMod {
			p.eager = append(p.eager, sp)
			p.isEager[sp] = true
		}
		if inMod && !isModel {
			p.scanEmbeds(pk, sp)
		}
		if !isModel {
			continue
		}
		for _, f := range pk.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil || fd.Recv != nil {
					continue
				}
				for _, c := range fd.Doc.List {
					if n, ok := strings.CutPrefix(c.Text, "//verif:replace "); ok {
						for _, x := range strings.Fields(n) {
							p.replaced[strings.ReplaceAll(x, "~", " ")] = sp.Func(fd.Name.Name)
						}
					}
				}
			}
		}
	}
	for _, n := range []string{"runtime", "internal/cpu", "internal/godebug", "internal/syscall/unix", "internal/runtime/sys", "internal/poll",
		"golang.org/x/sys/cpu", "internal/godebugs", "crypto/internal/fips140", "internal/goos", "net"} {
		p.noInit[n] = true
	}
	if rt := p.byPath["runtime"]; rt != nil {
		p.rtErrString = canon(p.typ("runtime", "errorString"))
	}
	return p, nil
}

// copyMod puts the module's go.mod and go.sum where -modfile finds them.
func copyMod(repo, tmp string) error {
	for _, f := range []string{"go.mod", "go.sum"} {
		if err := copyFile(filepath.Join(tmp, f), filepath.Join(repo, f)); err != nil {
			return err
		}
	}
	return nil
}

// prepare makes what the harnesses need before the tree can be loaded.
func prepare(repo, verif, tmp string, hs []string, cfg *config) error {
	if err := copyMod(repo, tmp); err != nil {
		return err
	}
	for _, h := range hs {
		if isGen(h) {
			g, err := prepareGen(repo, filepath.Join(verif, "harness"), tmp)
			if err != nil {
				return err
			}
			cfg.gen = g
			break
		}
	}
	return nil
}

func (p *program) scanEmbeds(pk *packages.Package, sp *ssa.Package) {
	for i, f := range pk.Syntax {
		if i >= len(pk.CompiledGoFiles) {
			break
		}
		dir := filepath.Dir(pk.CompiledGoFiles[i])
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok {
				continue
			}
			for _, s := range gd.Specs {
				vs, ok := s.(*ast.ValueSpec)
				if !ok || len(vs.Names) != 1 {
					continue
				}
				for _, doc := range []*ast.CommentGroup{vs.Doc, gd.Doc} {
					if doc == nil {
						continue
					}
					for _, c := range doc.List {
						if n, ok := strings.CutPrefix(c.Text, "//go:embed "); ok {
							b, err := os.ReadFile(filepath.Join(dir, strings.Trim(strings.TrimSpace(n), "\"`")))
							if err == nil {
								if g, ok := sp.Members[vs.Names[0].Name].(*ssa.Global); ok {
									p.embeds[g.String()] = string(b)
								}
							}
						}
					}
				}
			}
		}
	}
}

func (p *program) harnessFunc(name string) *ssa.Function {
	i := strings.LastIndexByte(name, '.')
	sp := p.byPath[modPath+"/zzverif/"+name[:i]]
	if sp == nil {
		return nil
	}
	return sp.Func(name[i+1:])
}

var _ = types.Typ
