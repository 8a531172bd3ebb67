package cli

import (
	"go/ast"
	"go/parser"
	"go/token"
	"path"
	"strings"

	"github.com/edwingeng/hotswap/zzverif/sym"
	"github.com/edwingeng/hotswap/zzverif/vfs"
)

// decl kinds
const (
	kFunc = iota
	kStruct
	kGrouped // a struct type in a group
	kMethod
	kNamed // a type that is not a struct
	kIface
	kOfStruct // a type defined by naming a struct type
	kVar
	kConst
	kLocal // a type within a function
	kAlias // another name of a type that is not a struct
	nKinds
	kInit      // an init function
	kBlankFunc // functions and types without a name
	kBlankType
)

type decl struct {
	kind int
	name string
	file string // relative to the plugin's directory
}

func (d decl) text() string {
	n := d.name
	switch d.kind {
	case kFunc:
		return "\nfunc " + n + "(a int) error { return nil }\n"
	case kStruct:
		return "\n// " + n + " is\ntype " + n + " struct {\n\tA int\n}\n"
	case kGrouped:
		return "\ntype (\n\tzA int\n\t" + n + " struct{}\n\tzB struct{ live_x int }\n)\n"
	case kMethod:
		return "\ntype zT struct{}\n\nfunc (zT) " + n + "() {}\n"
	case kNamed:
		return "\ntype " + n + " int\n"
	case kIface:
		return "\ntype " + n + " interface{ live_m() }\n"
	case kOfStruct:
		return "\ntype zS struct{}\n\ntype " + n + " zS\n"
	case kVar:
		return "\nvar " + n + " = func() {}\n"
	case kConst:
		return "\nconst " + n + " = 1\n"
	case kAlias:
		return "\ntype " + n + " = string\n"
	case kInit:
		return "\nfunc init() {}\n"
	case kBlankFunc:
		return "\nfunc _(a int) error { return nil }\n"
	case kBlankType:
		return "\ntype _ struct{ A int }\n"
	case kLocal:
		return "\nfunc zF() {\n\ttype " + n + " struct{}\n\tvar live_v " + n + "\n\t_ = live_v\n}\n"
	}
	return ""
}

func (d decl) test() bool { return strings.HasSuffix(d.file, "_test.go") }
func (d decl) dir() string {
	if !strings.Contains(d.file, "/") {
		return ""
	}
	return path.Dir(d.file)
}

// isType tells whether it declares a type of the package that is no plain struct.
func (d decl) badType() bool {
	return !d.test() && (d.kind == kNamed || d.kind == kAlias || d.kind == kIface || d.kind == kOfStruct)
}

// registers tells whether it is to be registered if its name is live.
func (d decl) registers() bool {
	return !d.test() && (d.kind == kFunc || d.kind == kStruct || d.kind == kGrouped)
}

// reg is a registration in generated code.
type reg struct {
	dir  string
	typ  bool
	name string // as registered
	id   string // what is registered
}

// registrations reads the calls in hotswap.live.go. Code of another shape is
// left to the harnesses that run generated code (package gen).
func registrations(dir, text string) []reg {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", text, 0)
	sym.Assert(err == nil, "C32:the generated code is well formed")
	if err != nil {
		return nil
	}
	var a []reg
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok {
			continue
		}
		if fd.Name.Name != "init" || fd.Recv != nil || fd.Body == nil {
			sym.Undecided("generated code of an unknown shape")
		}
		for _, st := range fd.Body.List {
			es, ok := st.(*ast.ExprStmt)
			if !ok {
				sym.Undecided("generated code of an unknown shape")
			}
			c, ok := es.X.(*ast.CallExpr)
			if !ok || len(c.Args) != 2 {
				sym.Undecided("generated code of an unknown shape")
			}
			lit, ok := c.Args[0].(*ast.BasicLit)
			name := ""
			switch fn := c.Fun.(type) {
			case *ast.SelectorExpr:
				name = fn.Sel.Name
			case *ast.Ident:
				name = fn.Name
			}
			if !ok || name != "RegisterFunc" && name != "RegisterType" {
				sym.Undecided("generated code of an unknown shape")
			}
			r := reg{dir: dir, typ: name == "RegisterType", name: lit.Value[1 : len(lit.Value)-1]}
			ids := idents(c.Args[1])
			if len(ids) == 0 {
				sym.Undecided("generated code of an unknown shape")
			}
			r.id = ids[0]
			for _, x := range ids[1:] {
				if !sym.EqStr(x, r.id) {
					sym.Undecided("generated code of an unknown shape")
				}
			}
			a = append(a, r)
		}
	}
	return a
}

// idents lists the names an expression uses, predeclared ones and local variables aside.
func idents(e ast.Expr) []string {
	var a []string
	local := map[string]bool{}
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			if n.Tok == token.DEFINE {
				for _, l := range n.Lhs {
					if id, ok := l.(*ast.Ident); ok {
						local[id.Name] = true
					}
				}
			}
		case *ast.ValueSpec:
			for _, id := range n.Names {
				local[id.Name] = true
			}
		case *ast.Ident:
			switch n.Name {
			case "any", "new", "nil", "error", "string", "int", "bool", "_":
				return true
			}
			if !local[n.Name] {
				a = append(a, n.Name)
			}
		}
		return true
	})
	return a
}

func imports(text string) []string {
	f, err := parser.ParseFile(token.NewFileSet(), "x.go", text, parser.ImportsOnly)
	if err != nil {
		return nil
	}
	var a []string
	for _, s := range f.Imports {
		a = append(a, s.Path.Value[1:len(s.Path.Value)-1])
	}
	return a
}

// generatedIn reads the code generated for the plugin, by relative path.
func (w *world) generatedIn(dir string) map[string]string {
	m := map[string]string{}
	for f, s := range tree(dir) {
		switch path.Base(f) {
		case "hotswap.main.go", "hotswap.live.go", "hotswap.bureau.go":
			m[f[len(dir)+1:]] = s
		}
	}
	return m
}

// live builds the plugin with the given declarations and checks what is registered.
func (w *world) live(ds []decl, isLive func(name string) bool, static bool, flags ...string) {
	files := map[string]string{
		"main.go":      "package foo\n" + required,
		"second.go":    "package foo\n",
		"x_test.go":    "package foo\n",
		"sub/s.go":     "package sub\n",
		"deep/er/d.go": "package er\n",
	}
	for _, d := range ds {
		files[d.file] += d.text()
	}
	for _, f := range keys(files) {
		w.src(f, files[f])
	}
	args := append([]string{}, flags...)
	if static {
		args = append(args, "--staticLinking")
	} else {
		args = append(args, "--leaveTemps")
	}
	before := tree(w.base)
	dirs := vfs.Dirs(w.base)
	code := w.build(append(args, "plugin/foo", "bin")...)
	fails := false
	for i, d := range ds {
		if d.badType() {
			fails = sym.Or(fails, isLive(d.name))
		}
		for _, e := range ds[:i] {
			if d.registers() && e.registers() {
				fails = sym.Or(fails, sym.And(isLive(d.name), sym.EqStr(d.name, e.name)))
			}
		}
	}
	sym.Assert(sym.Iff(code != 0, fails), "C32:only a name used twice or a type that is no struct makes the build fail")
	if code != 0 {
		sym.Cover("fails")
		sym.Assert(len(w.builds()) == 0, "C32:a failing build makes no plugin")
		for f := range tree(w.base) {
			_, old := before[f]
			sym.Assert(old || !strings.HasPrefix(path.Base(f), "hotswap."), "C32:a failing build generates no code")
		}
		return
	}
	sym.Cover("succeeds")
	dir, pkg := w.plug, w.pkgPath()
	if !static {
		ts := w.temps(dirs)
		sym.Assert(len(ts) == 1, "C36:the temporary directory stays if it is to stay")
		if len(ts) != 1 {
			return
		}
		dir, pkg = ts[0], w.mod+"/plugin/"+path.Base(ts[0])
	}
	gen := w.generatedIn(dir)
	var rs []reg
	for _, f := range keys(gen) {
		if path.Base(f) == "hotswap.live.go" {
			d := path.Dir(f)
			if d == "." {
				d = ""
			}
			rs = append(rs, registrations(d, gen[f])...)
		}
	}
	for i, d := range ds {
		if !d.registers() {
			continue
		}
		here, n := false, false
		for _, r := range rs {
			m := sym.And(r.dir == d.dir(), r.typ == (d.kind != kFunc), sym.EqStr(r.name, d.name), sym.EqStr(r.id, d.name))
			n = sym.Or(n, sym.And(here, m))
			here = sym.Or(here, m)
		}
		want := isLive(d.name)
		sym.CoverIf(want, "live")
		sym.CoverIf(sym.Not(want), "not live")
		sym.Assert(sym.Implies(want, here), "C32:every live function and type is registered under its name in its package")
		sym.Assert(sym.Not(n), "C32:a live function or type is registered once")
		if d.dir() != "" {
			imp := false
			for _, p := range imports(gen["hotswap.main.go"]) {
				imp = sym.Or(imp, p == pkg+"/"+d.dir())
			}
			sym.Assert(sym.Implies(want, imp), "C32:the plugin imports the package that registers")
		}
		_ = i
	}
	for _, r := range rs {
		known := false
		for _, d := range ds {
			if d.registers() && d.dir() == r.dir && (d.kind != kFunc) == r.typ {
				known = sym.Or(known, sym.And(isLive(d.name), sym.EqStr(r.name, d.name), sym.EqStr(r.id, d.name)))
			}
		}
		sym.Assert(known, "C32:nothing else is registered")
	}
}

// liveName is a name like live_a: any letter case, with and without the
// underscore, and names that merely contain the prefix.
func liveName(tag string) string {
	pre := []string{"", "_", "o"}[sym.Choice(tag+" begins", 3)]
	return pre + sym.String(tag+" l", 1, "lL") + "ive" + sym.String(tag+" _", 1, "_x") + "Aa"
}

func prefixed(p string) func(string) bool {
	return func(name string) bool {
		if len(name) < len(p) {
			return false
		}
		ok := true
		for i := 0; i < len(p); i++ {
			c := name[i : i+1]
			ok = sym.And(ok, sym.Or(sym.EqStr(c, strings.ToLower(p[i:i+1])), sym.EqStr(c, strings.ToUpper(p[i:i+1]))))
		}
		return ok
	}
}

// LiveOne: one declaration of any kind anywhere, any prefix option.
func LiveOne() {
	w := newWorld()
	d := decl{kind: sym.Choice("kind", nKinds)}
	d.file = []string{"main.go", "second.go", "x_test.go", "sub/s.go", "deep/er/d.go"}[sym.Choice("file", 5)]
	d.name = liveName("name")
	opt := []string{"live_", "LIVE_", " Livex ", "l", "_", "livexaa"}
	k := sym.Choice("prefix", len(opt)+1)
	var flags []string
	p := "live_"
	if k < len(opt) {
		flags = []string{"--livePrefix=" + opt[k]}
		p = strings.TrimSpace(opt[k])
	}
	static := sym.Choice("static", 2) == 1
	w.live([]decl{d}, prefixed(p), static, flags...)
}

// LiveBlank: declarations nothing can refer to, beside one that is live.
func LiveBlank() {
	w := newWorld()
	files := []string{"main.go", "second.go", "sub/s.go"}
	blank := func(file string, k int) decl {
		return decl{kind: kInit + k, name: []string{"init", "_", "_"}[k], file: file}
	}
	k := sym.Choice("blank", 3)
	ds := []decl{blank(files[1+sym.Choice("file", 2)], k)}
	if n := sym.Choice("another", 4); n < 3 {
		ds = append(ds, blank(files[n], k))
	}
	d := decl{kind: []int{kFunc, kStruct}[sym.Choice("kind", 2)], file: files[0]}
	d.name = []string{"ini", "_", "in"}[sym.Choice("begins", 3)] + sym.String("end", 1, "tT_x")
	ds = append(ds, d)
	p := []string{"init", "_", "ini"}[sym.Choice("prefix", 3)]
	sym.Assume(sym.Not(sym.EqStr(d.name, "init")))
	static := sym.Choice("static", 2) == 1
	w.live(ds, func(name string) bool {
		return sym.And(prefixed(p)(name), sym.Not(sym.Or(sym.EqStr(name, "_"), sym.EqStr(name, "init"))))
	}, static, "--livePrefix="+p)
}

// LiveTwo: two declarations with the same or different names.
func LiveTwo() {
	w := newWorld()
	kinds := []int{kFunc, kStruct, kGrouped, kMethod, kOfStruct}
	files := []string{"main.go", "second.go", "x_test.go", "sub/s.go"}
	var ds []decl
	for i, t := range []string{"first", "second"} {
		d := decl{kind: kinds[sym.Choice(t+" kind", len(kinds)-i)], file: files[sym.Choice(t+" file", len(files))]}
		d.name = sym.String(t+" l", 1, "lL") + "ive_" + sym.String(t+" end", 1, "aA")
		ds = append(ds, d)
	}
	if ds[0].dir() == ds[1].dir() && ds[0].kind != kMethod && ds[1].kind != kMethod && !(ds[0].registers() && ds[1].registers()) {
		sym.Assume(sym.Not(sym.EqStr(ds[0].name, ds[1].name))) // would not compile
	}
	static := sym.Choice("static", 2) == 1
	w.live(ds, prefixed("live_"), static)
}
