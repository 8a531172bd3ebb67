package root

import (
	"strings"

	"github.com/edwingeng/hotswap"
	"github.com/edwingeng/hotswap/zzverif/sym"
)

// graph is a symbolic import graph over n plugins: tag[i][j] is the byte of the
// tag of plugin i's field for plugin j; '-' means not imported.
type graph struct {
	n   int
	tag [][]byte
}

func newGraph(prefix string, n int, free func(i, j int) bool) *graph {
	g := &graph{n: n}
	for i := 0; i < n; i++ {
		row := make([]byte, n)
		for j := range row {
			if free(i, j) {
				row[j] = sym.Byte(prefix+letter(i)+"->"+letter(j), "-x")
			} else {
				row[j] = '-'
			}
		}
		g.tag = append(g.tag, row)
	}
	return g
}

func (g *graph) edge(i, j int) bool { return sym.Not(sym.EqInt(int64(g.tag[i][j]), '-')) }

// acyclic is the property of the graph as one formula: no plugin reaches itself.
func (g *graph) acyclic() bool {
	n := g.n
	r := make([][]bool, n)
	for i := range r {
		r[i] = make([]bool, n)
		for j := range r[i] {
			r[i][j] = g.edge(i, j)
		}
	}
	for k := 0; k < n; k++ {
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				r[i][j] = sym.Or(r[i][j], sym.And(r[i][k], r[k][j]))
			}
		}
	}
	ok := true
	for i := 0; i < n; i++ {
		ok = sym.And(ok, sym.Not(r[i][i]))
	}
	return ok
}

// importObj is what plugin i returns from Import.
func (g *graph) importObj(i int) any {
	var fs []sym.Field
	var t *api
	for j := 0; j < g.n; j++ {
		fs = append(fs, sym.Field{Name: fieldName(j), Tag: `hotswap:"` + string([]byte{g.tag[i][j]}) + `"`, Type: &t})
	}
	return sym.ImportObj(fs)
}

// deps are the indexes plugin i imports; only for graphs the path has decided.
func (g *graph) deps(i int) []int {
	var a []int
	for j := 0; j < g.n; j++ {
		if g.tag[i][j] != '-' {
			a = append(a, j)
		}
	}
	return a
}

func (g *graph) builds() []*build {
	var bs []*build
	for i := 0; i < g.n; i++ {
		i := i
		bs = append(bs, &build{name: letter(i), ver: "1", reloadable: true, imports: func(*inst) any { return g.importObj(i) }})
	}
	return bs
}

func index(i *inst) int {
	for k := 0; k < len(letters); k++ {
		if letter(k) == i.b.name {
			return k
		}
	}
	return -1
}

func any3(i, j int) bool { return true }

// Graph loads every import graph over n plugins once.
func graphStatic(n int, free func(i, j int) bool, orders, dev int) {
	sym.MapOrders(orders, dev)
	w := newWorld()
	g := newGraph("", n, free)
	w.swapper(hotswap.WithStaticPlugins(w.statics(g.builds()...)))
	data := "data"
	w.before = func(fn string, i *inst) { w.midChecks(fn, i, 0) }
	r := w.load(data)
	w.afterGraphLoad(g, r, data)
}

func notSelf(i, j int) bool { return i != j }

func GraphStatic3()  { graphStatic(3, any3, 2, 1) }
func GraphStatic4()  { graphStatic(4, notSelf, 1, 0) }
func GraphStatic4M() { graphStatic(4, notSelf, 2, 1) }

// GraphStatic5: any imports that follow the alphabet, and one that goes against it or none.
func GraphStatic5() {
	back := sym.Choice("back edge", 11) - 1
	x := 0
	var from, to int
	for i := 0; i < 5; i++ {
		for j := 0; j < i; j++ {
			if x == back {
				from, to = i, j
			}
			x++
		}
	}
	graphStatic(5, func(i, j int) bool { return j > i || back >= 0 && i == from && j == to }, 1, 0)
}

// GraphChain: imports along a chain through all plugins in any order of their
// names, closed to a cycle or not, or closed without its first link.
func graphChain(n int) {
	left := make([]int, n)
	for i := range left {
		left[i] = i
	}
	var p []int
	for len(left) > 0 {
		k := 0
		if len(left) > 1 {
			k = sym.Choice("chain", len(left))
		}
		p = append(p, left[k])
		left = append(append([]int{}, left[:k]...), left[k+1:]...)
	}
	kind := sym.Choice("closed", 3)
	sym.MapOrders(1, 0)
	w := newWorld()
	g := newGraph("", n, func(i, j int) bool { return false })
	for k := 0; k+1 < n; k++ {
		if kind != 2 || k > 0 {
			g.tag[p[k]][p[k+1]] = 'x'
		}
	}
	if kind > 0 {
		g.tag[p[n-1]][p[0]] = 'x'
	}
	w.swapper(hotswap.WithStaticPlugins(w.statics(g.builds()...)))
	data := "data"
	w.before = func(fn string, i *inst) { w.midChecks(fn, i, 0) }
	r := w.load(data)
	w.afterGraphLoad(g, r, data)
}

func GraphChain6() { graphChain(6) }
func GraphChain7() { graphChain(7) }

func (w *world) afterGraphLoad(g *graph, r result, data any) {
	sym.Assert(!r.panicked, "C03:a load does not panic")
	sym.Assert(sym.Iff(r.err == nil, g.acyclic()), "C06:a load fails exactly if the imports are cyclic")
	if r.err != nil {
		sym.Cover("cyclic")
		sym.Assert(w.count("OnLoad", 0) == 0, "C06:no OnLoad before a cycle is rejected")
		sym.Assert(w.sw.Current() == nil, "C03:a failed first load leaves no manager")
		for _, i := range w.insts {
			sym.Assert(i.n["OnFree"] == i.n["Export"], "C05:every loaded plugin is freed once")
		}
		return
	}
	sym.Cover("acyclic")
	m := w.sw.Current()
	sym.Assert(m != nil, "C01:a successful load publishes a manager")
	deps := map[*inst][]*inst{}
	for _, i := range w.insts {
		for _, j := range g.deps(index(i)) {
			deps[i] = append(deps[i], byName(w.insts, letter(j)))
		}
	}
	w.checkOrder(m, w.insts, deps)
	w.checkPhases(m, w.insts, 0, data, deps)
	w.checkWiring(m, g)
	for _, i := range w.insts {
		sym.Assert(i.n["OnFree"] == 0, "C04:a running plugin is not freed")
	}
}

// checkOrder: C01.
func (w *world) checkOrder(m *hotswap.PluginManager, want []*inst, deps map[*inst][]*inst) {
	ps := m.Plugins()
	sym.Assert(len(ps) == len(want), "C01:as many plugins listed as loaded")
	a := running(m)
	for _, i := range want {
		k := find(a, i)
		sym.Assert(k >= 0, "C01:every loaded plugin is listed")
		if k >= 0 {
			sym.Assert(find(a[k+1:], i) < 0, "C01:no plugin is listed twice")
		}
	}
	for k, i := range a {
		for _, d := range deps[i] {
			x := find(a, d)
			sym.Assert(x >= 0 && x < k, "C01:dependencies are listed first")
		}
	}
	checkLookup(m)
	from := len(w.log)
	m.InvokeEach("f", 1, "x")
	w.checkInvoked(a, from, false)
	from = len(w.log)
	m.InvokeEachBackward("f", 1, "x")
	w.checkInvoked(a, from, true)
}

// checkLookup: FindPlugin for the listed plugins' names in several spellings.
func checkLookup(m *hotswap.PluginManager) {
	ps := m.Plugins()
	for _, p := range ps {
		for _, n := range []string{p.Name, strings.ToLower(p.Name), strings.ToUpper(p.Name), strings.ToUpper(p.Name[:1]) + p.Name[1:]} {
			sym.Assert(m.FindPlugin(n) == p, "C11:FindPlugin returns the plugin of that name")
		}
		for _, n := range []string{p.Name + "x", p.Name[1:], p.Name[:len(p.Name)-1], p.Name + " ", p.Name + ".so", p.File} {
			if n == p.Name {
				continue
			}
			sym.Assert(m.FindPlugin(n) == nil, "C11:FindPlugin returns nil for a name that is not loaded")
		}
	}
	sym.Assert(m.FindPlugin("") == nil, "C11:FindPlugin returns nil for a name that is not loaded")
}

func (w *world) checkInvoked(a []*inst, from int, back bool) {
	var got []*inst
	for _, e := range w.log[from:] {
		sym.Assert(e.fn == "Invoke:f", "C01:InvokeEach calls nothing but the function")
		got = append(got, e.i)
	}
	if back {
		for x, y := 0, len(got)-1; x < y; x, y = x+1, y-1 {
			got[x], got[y] = got[y], got[x]
		}
		sym.Assert(sameInsts(a, got), "C01:InvokeEachBackward calls each plugin once in the reverse order")
	} else {
		sym.Assert(sameInsts(a, got), "C01:InvokeEach calls each plugin once in order")
	}
}

// midChecks looks at the state a lifecycle function sees when it is called.
// Plugins opened since insts[from] belong to the current load.
func (w *world) midChecks(fn string, i *inst, from int) {
	switch fn {
	case "Import":
		for _, o := range w.insts[from:] {
			sym.Assert(o.n["Export"] == 1, "C02:no Import before every Export")
		}
	case "OnLoad":
		for _, o := range w.insts[from:] {
			sym.Assert(o.n["Import"] == 1, "C02:no OnLoad before every Import")
		}
	case "OnInit":
		for _, o := range w.insts[from:] {
			sym.Assert(o.n["OnLoad"] == 1, "C02:no OnInit before every OnLoad")
		}
	}
}

// checkPhases: C02 for a load that started at log position from and made the given new instances.
func (w *world) checkPhases(m *hotswap.PluginManager, fresh []*inst, from int, data any, deps map[*inst][]*inst) {
	a := running(m)
	for _, i := range fresh {
		for _, fn := range []string{"Reloadable", "Export", "Import", "OnLoad", "OnInit"} {
			sym.Assert(i.n[fn] == 1, "C02:each lifecycle function runs once")
		}
		sym.Assert(i.at["Reloadable"] < i.at["Export"] && i.at["Export"] < i.at["Import"] && i.at["Import"] < i.at["OnLoad"] &&
			i.at["OnLoad"] < i.at["OnInit"], "C02:lifecycle functions run in their order")
		sym.Assert(i.data == data, "C02:OnLoad receives the caller's data")
		sym.Assert(i.v == &m.Vault, "C02:OnInit receives the new manager's Vault")
		for _, d := range deps[i] {
			if find(fresh, d) >= 0 {
				sym.Assert(d.at["OnLoad"] < i.at["OnLoad"], "C02:OnLoad runs in dependency order")
				sym.Assert(d.at["OnInit"] < i.at["OnInit"], "C02:OnInit runs in dependency order")
			}
		}
	}
	for _, e := range w.log[from:] {
		switch e.fn {
		case "Reloadable", "Export", "Import", "OnLoad", "OnInit":
			sym.Assert(find(fresh, e.i) >= 0, "C02:no lifecycle function runs on a retained plugin")
		}
	}
	_ = a
}

// checkWiring: C07 for plugins importing each other through graph g.
func (w *world) checkWiring(m *hotswap.PluginManager, g *graph) {
	for _, p := range m.Plugins() {
		i := who(p)
		k := index(i)
		n := 0
		for j := 0; j < g.n; j++ {
			dep := who(m.FindPlugin(letter(j)))
			got := sym.FieldOf(i.imp, j)
			if g.tag[k][j] != '-' {
				n++
				sym.Assert(got == dep.exp, "C07:an imported field holds the plugin's export")
				ok := false
				for _, d := range p.Deps {
					ok = ok || d == letter(j)
				}
				sym.Assert(ok, "C07:Deps lists every imported plugin")
			} else {
				sym.Assert(got == (*api)(nil), "C07:a field tagged - is left alone")
			}
		}
		sym.Assert(len(p.Deps) == n, "C07:Deps lists nothing but the imported plugins")
	}
}
