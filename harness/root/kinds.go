package root

import (
	"fmt"
	"plugin"

	"github.com/edwingeng/hotswap"
	"github.com/edwingeng/hotswap/vault"
	"github.com/edwingeng/hotswap/zzverif/sym"
)

type other struct{ x int }

func (o *other) Who() *inst { return nil }

type text string

// exportKinds are values a plugin may export.
const nExports = 8

func exportOf(i *inst, k int) any {
	switch k {
	case 0:
		return &api{i}
	case 1:
		return nil
	case 2:
		return (*api)(nil)
	case 3:
		return api{i}
	case 4:
		return &other{7}
	case 5:
		return text("hello")
	case 6:
		return func() *inst { return i }
	default:
		return map[string]int(nil)
	}
}

func exportNil(k int) bool { return k == 1 || k == 2 || k == 7 }

// fieldTypes are types a field of an import object may have.
const nFields = 8

func fieldType(k int) any {
	switch k {
	case 0:
		return new(*api)
	case 1:
		return new(apiI)
	case 2:
		return new(any)
	case 3:
		return new(api)
	case 4:
		return new(*other)
	case 5:
		return new(text)
	case 6:
		return new(func() *inst)
	default:
		return new(string)
	}
}

// canHold[e] are the field types that can hold export e.
var canHold = map[int][]int{0: {0, 1, 2}, 3: {3, 2}, 4: {4, 1, 2}, 5: {5, 2}, 6: {6, 2}}

func holds(e, f int) bool {
	for _, x := range canHold[e] {
		if x == f {
			return true
		}
	}
	return false
}

// sameValue tells whether what a field holds is what export e returned.
func sameValue(got, exp any, e int) bool {
	switch e {
	case 0, 4:
		return got == exp
	case 3:
		a, ok1 := got.(api)
		b, ok2 := exp.(api)
		return ok1 && ok2 && a.i == b.i
	case 5:
		return got == exp
	case 6:
		g, ok1 := got.(func() *inst)
		x, ok2 := exp.(func() *inst)
		return ok1 && ok2 && g != nil && g() == x()
	}
	return false
}

func untouched(got any, f int) bool {
	switch f {
	case 0:
		return got == (*api)(nil)
	case 1, 2:
		return got == nil
	case 3:
		a, ok := got.(api)
		return ok && a.i == nil
	case 4:
		return got == (*other)(nil)
	case 5:
		return got == text("")
	case 6:
		x, ok := got.(func() *inst)
		return ok && x == nil
	default:
		return got == ""
	}
}

type notStruct int

type lowerEmbed struct{ x int }

// ImportWiring: one plugin imports another through one field of any name, tag,
// type and embedding; both reloadable or not.
func ImportWiring() {
	sym.MapOrders(1, 0)
	w := newWorld()
	ek := sym.Choice("export", nExports)
	fk := sym.Choice("field type", nFields)
	if exportNil(ek) && fk > 2 {
		return // as with any other type
	}
	name := sym.String("field", 2, "aAbB_")
	if sym.Choice("non-ASCII", 2) == 1 {
		name = []string{"ж", "Жa", "éb", "ñ"}[sym.Choice("rune", 4)]
	}
	tagMode := sym.Choice("tag kind", 5)
	tag := ""
	switch tagMode {
	case 1:
		tag = `hotswap:"` + sym.String("tag", 1, "-x+") + `"`
	case 2:
		tag = `json:"-"`
	case 3:
		tag = `hotswap:"` + sym.String("tag", 2, "-x,") + `"`
	case 4:
		tag = `json:"a,omitempty" hotswap:"` + sym.String("tag", 1, "-x") + `" yaml:"-"`
	}
	r1, r2 := sym.Bool("importer reloadable"), sym.Bool("exporter reloadable")
	var obj any
	imp := &build{name: "importer", ver: "1", imports: func(*inst) any { return obj }}
	exp := &build{name: "aB", ver: "1", exports: func(i *inst) any { return exportOf(i, ek) }}
	obj = sym.ImportObj([]sym.Field{{Name: name, Tag: tag, Type: fieldType(fk)}})
	w.act = func(fn string, i *inst) int {
		if fn == "Reloadable" {
			if i.b == imp {
				i.b.reloadable = r1
			} else {
				i.b.reloadable = r2
			}
		}
		return ok0
	}
	w.swapper(hotswap.WithStaticPlugins(w.statics(imp, exp)))
	r := w.load(1)
	// what should have happened
	ignored := true
	named := false
	switch name {
	case "Жa":
		ignored = false
	case "ж", "éb", "ñ":
	default:
		ignored = sym.Or(sym.EqInt(int64(name[0]), 'a'), sym.EqInt(int64(name[0]), 'b'), sym.EqInt(int64(name[0]), '_'))
		named = foldEq(name, "ab")
		named = sym.And(named, sym.Not(sym.EqInt(int64(name[1]), '_')), sym.Not(sym.EqInt(int64(name[0]), '_')))
	}
	if tagMode == 1 {
		ignored = sym.Or(ignored, sym.EqStr(tag, `hotswap:"-"`))
	}
	if tagMode == 4 {
		ignored = sym.Or(ignored, sym.EqStr(tag, `json:"a,omitempty" hotswap:"-" yaml:"-"`))
	}
	typeOK := exportNil(ek) || holds(ek, fk)
	bad := sym.And(sym.Not(ignored), sym.Or(sym.Not(named), sym.Not(typeOK), sym.And(sym.Not(r1), r2)))
	sym.Assert(sym.Implies(bad, r.err != nil), "C08:an invalid import is rejected")
	sym.Assert(sym.Or(bad, r.err == nil), "C08:a valid import is accepted")
	sym.Assert(sym.Implies(ignored, r.err == nil), "C07:an ignored field is left alone")
	if r.err != nil {
		sym.Cover("rejected")
		sym.Assert(w.count("OnLoad", 0) == 0, "C08:no OnLoad before imports are rejected")
		return
	}
	sym.Cover("accepted")
	m := w.sw.Current()
	got := sym.FieldOf(obj, 0)
	p := m.FindPlugin("importer")
	ei := byName(running(m), "aB")
	wired := sym.And(sym.Not(ignored), !exportNil(ek))
	sym.Assert(sym.Implies(wired, sameValue(got, ei.exp, ek)), "C07:an imported field holds the plugin's export")
	sym.Assert(sym.Or(wired, got == "nonzero" == false && untouched(got, fk)), "C07:an ignored field is left alone")
	sym.Assert(sym.Iff(len(p.Deps) == 1, sym.Not(ignored)), "C07:Deps lists exactly the imported plugins")
	sym.Assert(len(p.Deps) <= 1, "C07:Deps lists exactly the imported plugins")
	if len(p.Deps) == 1 {
		sym.Assert(p.Deps[0] == "aB", "C07:Deps lists exactly the imported plugins")
		a := running(m)
		sym.Assert(find(a, ei) == 0, "C01:dependencies are listed first")
	}
}

// ImportKinds: what Import may return at all.
func ImportKinds() {
	sym.MapOrders(1, 0)
	w := newWorld()
	k := sym.Choice("import", 14)
	var str = "s"
	bad := false
	var deps []string
	var obj any
	one := func(anon bool, tag string) any {
		return sym.ImportObj([]sym.Field{{Name: "AB", Tag: tag, Anonymous: anon, Type: new(*api)}})
	}
	switch k {
	case 0: // nothing
	case 1:
		obj = (*struct{ AB *api })(nil)
	case 2:
		obj, bad = &str, true
	case 3:
		obj, bad = struct{ AB *api }{}, true
	case 4:
		obj, bad = notStruct(1), true
	case 5:
		x := &struct{ AB *api }{}
		obj, bad = &x, true
	case 6:
		obj, bad = []int{1}, true
	case 7:
		obj, bad = func() {}, true
	case 8:
		obj = &struct{}{}
	case 9: // embedded
		obj, bad = one(true, ""), true
	case 10: // embedded, but told to ignore it
		obj = one(true, `hotswap:"-"`)
	case 11: // embedded, unexported
		obj = &struct {
			lowerEmbed
			AB *api
		}{}
		deps = []string{"aB"}
	case 12: // a map
		obj, bad = map[string]*api{"AB": nil}, true
	case 13: // two fields for the same plugin
		obj = &struct {
			AB  *api
			Ab  *api
			aB  *api
			N   int `hotswap:"-"`
			two string
		}{two: "two", N: 3}
		deps = []string{"aB"}
	}
	imp := &build{name: "importer", ver: "1", reloadable: true, imports: func(*inst) any { return obj }}
	exp := &build{name: "aB", ver: "1", reloadable: true}
	dynamic := sym.Choice("files", 2) == 1
	if dynamic {
		w.put(imp)
		w.put(exp)
		w.swapper()
	} else {
		w.swapper(hotswap.WithStaticPlugins(w.statics(imp, exp)))
	}
	r := w.load(1)
	sym.Assert(!r.panicked, "C03:no panic escapes")
	if bad {
		sym.Assert(r.err != nil, "C08:an invalid import is rejected")
		sym.Assert(w.count("OnLoad", 0) == 0, "C08:no OnLoad before imports are rejected")
		return
	}
	sym.Assert(r.err == nil, "C08:a valid import is accepted")
	if r.err != nil {
		return
	}
	m := w.sw.Current()
	p := m.FindPlugin("importer")
	ei := byName(running(m), "aB")
	for _, d := range p.Deps {
		sym.Assert(d == "aB" && len(deps) > 0, "C07:Deps lists exactly the imported plugins")
	}
	sym.Assert(len(deps) == 0 || len(p.Deps) > 0, "C07:Deps lists exactly the imported plugins")
	switch x := obj.(type) {
	case *struct {
		lowerEmbed
		AB *api
	}:
		sym.Assert(x.AB == ei.exp.(*api), "C07:an imported field holds the plugin's export")
	case *struct {
		AB  *api
		Ab  *api
		aB  *api
		N   int `hotswap:"-"`
		two string
	}:
		sym.Assert(x.AB == ei.exp.(*api) && x.Ab == ei.exp.(*api), "C07:an imported field holds the plugin's export")
		sym.Assert(x.aB == nil && x.N == 3 && x.two == "two", "C07:an ignored field is left alone")
	}
	if k == 10 {
		sym.Assert(sym.FieldOf(obj, 0) == (*api)(nil), "C07:an ignored field is left alone")
	}
}

var nine = []string{"OnLoad", "OnInit", "OnFree", "Export", "Import", "InvokeFunc", "Reloadable", "HotswapLiveFuncs", "HotswapLiveTypes"}

// RequiredFiles: a plugin file lacking any subset of the nine functions.
func RequiredFiles() {
	sym.MapOrders(1, 0)
	w := newWorld()
	good := &build{name: "zulu", ver: "1", reloadable: true}
	b := &build{name: letter(sym.Choice("which", 2)), ver: "1", reloadable: true, drop: map[string]bool{}}
	w.put(good)
	anyMissing := false
	miss := map[string]bool{}
	for _, fn := range nine {
		miss[fn] = sym.Bool("missing " + fn)
		anyMissing = sym.Or(anyMissing, miss[fn])
	}
	w.dropFn = func(i *inst, fn string) bool { return i.b == b && miss[fn] }
	w.put(b)
	w.swapper()
	r := w.load(1)
	sym.Assert(!r.panicked, "C03:no panic escapes")
	sym.Assert(sym.Iff(r.err != nil, anyMissing), "C21:a plugin is rejected exactly if it lacks a function")
	if r.err == nil {
		sym.Cover("complete")
		return
	}
	sym.Cover("lacking")
	sym.Assert(w.sw.Current() == nil, "C21:a plugin that lacks a function is not loaded")
	for _, i := range w.insts {
		if i.b == b {
			sym.Assert(len(i.n) == 1 && i.n["open"] == 1, "C21:no function of a plugin that lacks one is called")
		}
	}
	msg := r.err.Error()
	for _, fn := range nine {
		sym.Assert(sym.Implies(miss[fn], contains(msg, fn)), "C21:the error names every missing function")
	}
}

func contains(s, x string) bool {
	for k := 0; k+len(x) <= len(s); k++ {
		if s[k:k+len(x)] == x {
			return true
		}
	}
	return false
}

// RequiredTypes: one of the nine symbols is something else.
func RequiredTypes() {
	sym.MapOrders(1, 0)
	w := newWorld()
	fn := nine[sym.Choice("symbol", 9)]
	var v any
	n := 7
	str := "text"
	switch sym.Choice("type", 7) {
	case 0:
		v = func() {}
		if fn == "OnFree" {
			v = func() int { return 0 }
		}
	case 1:
		v = &n
	case 2:
		v = &str
	case 3:
		v = func(...any) (any, error) { return nil, nil }
	case 4:
		v = func(data string) error { return nil }
	case 5:
		v = func(v vault.Vault) error { return nil }
	case 6:
		x := func(a, b, c int) {}
		v = &x
	}
	b := &build{name: "alpha", ver: "1", reloadable: true, replace: map[string]any{fn: v}}
	w.put(b)
	w.put(&build{name: "zulu", ver: "1", reloadable: true})
	w.swapper()
	r := w.load(1)
	sym.Assert(!r.panicked, "C03:no panic escapes")
	sym.Assert(r.err != nil, "C21:a plugin with a function of another type is rejected")
	sym.Assert(w.sw.Current() == nil, "C21:a plugin that lacks a function is not loaded")
	for _, i := range w.insts {
		if i.b == b {
			sym.Assert(len(i.n) == 1 && i.n["open"] == 1, "C21:no function of a plugin that lacks one is called")
		}
	}
}

// RequiredStatic: a static plugin lacking any subset of the nine functions.
func RequiredStatic() {
	sym.MapOrders(1, 0)
	w := newWorld()
	b := &build{name: "alpha", ver: "1", reloadable: true}
	i := w.newInst(b)
	anyMissing := false
	miss := map[string]bool{}
	for _, fn := range nine {
		miss[fn] = sym.Bool("missing " + fn)
		anyMissing = sym.Or(anyMissing, miss[fn])
	}
	export, lf, lt, imp, inv, free, init, load, rel := i.export, i.liveFuncs, i.liveTypes, i.doImport, i.invoke, i.onFree, i.onInit, i.onLoad, i.isReloadable
	if miss["Export"] {
		export = nil
	}
	if miss["HotswapLiveFuncs"] {
		lf = nil
	}
	if miss["HotswapLiveTypes"] {
		lt = nil
	}
	if miss["Import"] {
		imp = nil
	}
	if miss["InvokeFunc"] {
		inv = nil
	}
	if miss["OnFree"] {
		free = nil
	}
	if miss["OnInit"] {
		init = nil
	}
	if miss["OnLoad"] {
		load = nil
	}
	if miss["Reloadable"] {
		rel = nil
	}
	sp := map[string]*hotswap.StaticPlugin{"alpha": {Name: "alpha", PluginFuncs: hotswap.NewPluginFuncs(export, lf, lt, imp, inv, free, init, load, rel)}}
	g := w.static(&build{name: "zulu", ver: "1", reloadable: true})
	sp["zulu"] = g
	w.swapper(hotswap.WithStaticPlugins(sp))
	r := w.load("data")
	sym.Assert(!r.panicked, "C03:no panic escapes")
	sym.Assert(sym.Iff(r.err != nil, anyMissing), "C20:a static plugin is rejected exactly if it lacks a function")
	if r.err != nil {
		sym.Cover("lacking")
		sym.Assert(w.sw.Current() == nil && len(i.n) == 0, "C20:a static plugin that lacks a function is not used")
		return
	}
	sym.Cover("complete")
	w.checkPhases(w.sw.Current(), w.insts, 0, "data", nil)
	for _, fn := range []string{"Reloadable", "Export", "Import", "OnLoad", "OnInit", "LiveFuncs", "LiveTypes"} {
		sym.Assert(i.n[fn] >= 1, "C20:each function is called in its own role")
	}
	sym.Assert(i.n["OnFree"] == 0, "C20:each function is called in its own role")
	sym.Assert(i.data == "data" && i.v == &w.sw.Current().Vault, "C20:each function is called in its own role")
}

// LookupAll: every kind of symbol into every kind of target.
func LookupAll() {
	sym.MapOrders(1, 0)
	w := newWorld()
	num, str := 41, "str"
	var iface apiI = &other{1}
	var empty any
	fnv := func() int { return 5 }
	fn := func() int { return 6 }
	syms := map[string]any{"A": &num, "B": &str, "C": &iface, "D": &fnv, "E": fn, "F": &empty}
	b := &build{name: "alpha", ver: "1", reloadable: true, replace: syms}
	static := sym.Choice("static", 2) == 1
	if static {
		w.swapper(hotswap.WithStaticPlugins(w.statics(b)))
	} else {
		w.put(b)
		w.swapper()
	}
	r := w.load(1)
	if r.err != nil {
		return
	}
	p := w.sw.Current().FindPlugin("alpha")
	name := sym.String("symbol", 1, "ABCDEFGx")
	switch sym.Choice("name", 3) {
	case 1:
		name = ""
	case 2:
		name += "x"
	}
	// targets
	tNum, tStr, tIface, tFn, tAny := 1, "s", apiI(nil), (func() int)(nil), any(nil)
	tPNum, tPStr, tOther, tPFn := (*int)(nil), (*string)(nil), int8(3), (*func() int)(nil)
	var tPlugSym plugin.Symbol
	outs := []any{nil, (*int)(nil), 3, "text", map[string]int(nil), struct{}{}, &tNum, &tStr, &tIface, &tFn, &tAny, &tPNum, &tPStr, &tOther, &tPFn, &tPlugSym, []int{1}, (func())(nil)}
	k := sym.Choice("target", len(outs))
	panicked := false
	var err error
	func() {
		defer func() {
			if x := recover(); x != nil {
				w.rethrow(x)
				panicked = true
			}
		}()
		err = p.Lookup(name, outs[k])
	}()
	sym.Assert(!panicked, "C19:Lookup does not panic")
	if panicked {
		return
	}
	name = sym.Concrete(name)
	_, known := syms[name]
	known = known && !static
	isPtr := k >= 6 && k <= 15
	assigned := false
	is := func(a, b bool) { assigned = a; sym.Assert(!a || b, "C19:Lookup stores the symbol") }
	if known && isPtr {
		switch k {
		case 6: // *int
			is(name == "A", tNum == 41)
		case 7:
			is(name == "B", tStr == "str")
		case 8:
			is(name == "C", tIface == iface)
		case 9:
			is(name == "D" || name == "E", tFn != nil && (name == "D" && tFn() == 5 || name == "E" && tFn() == 6))
		case 10:
			is(true, name == "E" && tAny != nil || name != "E" && tAny == syms[name])
		case 15:
			is(true, name == "E" && tPlugSym != nil || name != "E" && tPlugSym == syms[name])
		case 11:
			is(name == "A", tPNum == &num)
		case 12:
			is(name == "B", tPStr == &str)
		case 14:
			is(name == "D", tPFn == &fnv)
		}
	}
	sym.Assert((err == nil) == assigned, "C19:Lookup returns nil exactly if it stored the symbol")
	if !assigned {
		sym.Cover("fails")
		sym.Assert(tNum == 1 && tStr == "s" && tIface == nil && tFn == nil && tAny == nil && tPNum == nil && tPStr == nil && tOther == 3 && tPFn == nil && tPlugSym == nil,
			"C19:a failing Lookup leaves the target alone")
		want := name != "" && isPtr && !known
		sym.Assert((err == hotswap.ErrNotExist) == want, "C19:Lookup returns ErrNotExist exactly if the symbol does not exist")
	} else {
		sym.Cover("stores")
	}
}

var _ = fmt.Sprint
