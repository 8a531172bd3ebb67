package root

import (
	"fmt"

	"github.com/edwingeng/hotswap"
	"github.com/edwingeng/hotswap/zzverif/sym"
)

// GraphLong: many plugins in a few shapes.
func GraphLong() {
	n := []int{9, 17, 34}[sym.Choice("plugins", 3)]
	shape := sym.Choice("shape", 8)
	order := sym.Choice("names", 3)
	closed := sym.Choice("closed", 2) == 1
	dynamic := sym.Choice("files", 2) == 1
	sym.MapOrders(1, 0)
	w := newWorld()
	// place k in the shape is taken by plugin at(k)
	at := func(k int) int {
		switch order {
		case 1:
			return n - 1 - k
		case 2:
			return k * 5 % n
		}
		return k
	}
	var edges [][2]int
	cyclic := closed
	switch shape {
	case 0: // a chain
		for k := 1; k < n; k++ {
			edges = append(edges, [2]int{k - 1, k})
		}
		if closed {
			edges = append(edges, [2]int{n - 1, 0})
		}
	case 1: // one imports all
		for k := 1; k < n; k++ {
			edges = append(edges, [2]int{0, k})
		}
		if closed {
			edges = append(edges, [2]int{n - 1, 0})
		}
	case 2: // all import one
		for k := 0; k < n-1; k++ {
			edges = append(edges, [2]int{k, n - 1})
		}
		if closed {
			edges = append(edges, [2]int{n - 1, 1})
		}
	case 3: // a ladder, whose first six steps are fully connected
		for k := 0; k+2 < n; k++ {
			edges = append(edges, [2]int{k, k + 2})
			if k < 12 && k+3 < n && k%2 == 0 {
				edges = append(edges, [2]int{k, k + 3})
			}
			if k < 12 && k%2 == 1 {
				edges = append(edges, [2]int{k, k + 1})
			}
		}
		if closed {
			edges = append(edges, [2]int{n - 1, 0}, [2]int{n - 1, 1})
		}
	case 4: // a tree
		for k := 1; k < n; k++ {
			edges = append(edges, [2]int{(k - 1) / 2, k})
		}
		if closed {
			edges = append(edges, [2]int{n - 1, 0})
		}
	case 6: // a chain whose first imports all the others too, far ones first
		for k := n - 1; k > 0; k-- {
			edges = append(edges, [2]int{0, k})
		}
		for k := 2; k < n; k++ {
			edges = append(edges, [2]int{k - 1, k})
		}
		if closed {
			edges = append(edges, [2]int{n - 1, 1})
		}
	case 7: // three layers, every plugin imports all those of the next layer
		l := n / 3
		for k := 0; k < 2*l; k++ {
			for j := 0; j < l; j++ {
				edges = append(edges, [2]int{k, (k/l+1)*l + (j+k)%l})
			}
		}
		if closed {
			edges = append(edges, [2]int{n - n%3 - 1, 0})
		}
	case 5: // chains of two, the last one closed to a small circle
		for k := 0; k+1 < n; k += 2 {
			edges = append(edges, [2]int{k, k + 1})
		}
		if closed {
			edges = append(edges, [2]int{n - 2, n - 1}, [2]int{n - 1, n - 2})
			if n%2 == 1 {
				edges = edges[:len(edges)-1]
				edges = append(edges, [2]int{n - 1, n - 3}, [2]int{n - 3, n - 2})
			}
		}
	}
	imports := make([][]int, n)
	for _, e := range edges {
		i, j := at(e[0]), at(e[1])
		dup := false
		for _, x := range imports[i] {
			dup = dup || x == j
		}
		if !dup {
			imports[i] = append(imports[i], j)
		}
	}
	name := func(k int) string { return fmt.Sprintf("p%02d", k) }
	var builds []*build
	for k := 0; k < n; k++ {
		k := k
		builds = append(builds, &build{name: name(k), ver: "1", reloadable: true, imports: func(*inst) any {
			var fs []sym.Field
			var t *api
			for _, j := range imports[k] {
				fs = append(fs, sym.Field{Name: fmt.Sprintf("P%02d", j), Type: &t})
			}
			return sym.ImportObj(fs)
		}})
	}
	if dynamic {
		for _, b := range builds {
			w.put(b)
		}
		w.swapper()
	} else {
		w.swapper(hotswap.WithStaticPlugins(w.statics(builds...)))
	}
	w.before = func(fn string, i *inst) { w.midChecks(fn, i, 0) }
	r := w.load("data")
	w.before = nil
	sym.Assert(!r.panicked, "C03:a load does not panic")
	sym.Assert((r.err != nil) == cyclic, "C06:a load fails exactly if the imports are cyclic")
	if r.err != nil {
		sym.Cover("cyclic")
		sym.Assert(w.count("OnLoad", 0) == 0, "C06:no OnLoad before a cycle is rejected")
		for _, i := range w.insts {
			sym.Assert(i.n["OnFree"] == i.n["Export"], "C05:every loaded plugin is freed once")
		}
		return
	}
	sym.Cover("acyclic")
	deps := map[*inst][]*inst{}
	byName := map[string]*inst{}
	for _, i := range w.insts {
		byName[i.b.name] = i
	}
	m := w.sw.Current()
	for k := 0; k < n; k++ {
		i := byName[name(k)]
		p := m.FindPlugin(name(k))
		sym.Assert(p != nil && len(p.Deps) == len(imports[k]), "C07:Deps lists exactly the imported plugins")
		for x, j := range imports[k] {
			deps[i] = append(deps[i], byName[name(j)])
			sym.Assert(sym.FieldOf(i.imp, x) == byName[name(j)].exp, "C07:an imported field holds the plugin's export")
			sym.Assert(p != nil && p.Deps[x] == name(j), "C07:Deps lists every imported plugin")
		}
	}
	w.checkOrder(m, w.insts, deps)
	w.checkPhases(m, w.insts, 0, "data", deps)
	sym.Assert(len(r.d) == n, "C14:details have one entry per plugin")
	for _, i := range w.insts {
		sym.Assert(i.n["OnFree"] == 0, "C04:a running plugin is not freed")
	}
}
