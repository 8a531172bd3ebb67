package root

import (
	"fmt"
	"strings"
	"time"

	"github.com/edwingeng/hotswap"
	"github.com/edwingeng/hotswap/zzverif/plug"
	"github.com/edwingeng/hotswap/zzverif/sym"
	"github.com/edwingeng/hotswap/zzverif/vfs"
)

const nameChars = "aAbB"

func lowerByte(c byte) int64 {
	return int64(c | 0x20)
}

func foldEq(a, b string) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for k := 0; k < len(a); k++ {
		ok = sym.And(ok, sym.EqInt(lowerByte(a[k]), lowerByte(b[k])))
	}
	return ok
}

// entry is one directory entry whose name is symbolic.
type entry struct {
	base, full string
	isDir      bool
	plugin     bool // a regular file ending in .so
	b          *build
}

// Names2, Names3: a plugin directory with any entries, any whitelist.
func Names2() { names(2, 1, false) }
func Names3() { names(3, 1, false) }
func NamesW() { names(2, 2, true) }

func names(n, wl int, must bool) {
	sym.MapOrders(1, 0)
	w := newWorld()
	var es []*entry
	for k := 0; k < n; k++ {
		e := &entry{base: "pq" + sym.String(fmt.Sprint("name", k), 1, nameChars)}
		ext := ".so"
		switch sym.Choice(fmt.Sprint("kind", k), 5) {
		case 0:
		case 1:
			e.isDir = true
		case 2: // not quite the extension
			ext = ".s" + sym.String(fmt.Sprint("ext", k), 1, "oOx")
		case 3:
			ext = ".so.bak"
		case 4:
			ext = ".so.so"
		}
		e.full = e.base + ext
		for _, x := range es {
			sym.Assume(sym.Not(sym.EqStr(x.full, e.full)))
		}
		es = append(es, e)
	}
	for k, e := range es {
		// the rest of the scenario is about decided names
		e.full = sym.Concrete(e.full)
		e.plugin = !e.isDir && strings.HasSuffix(e.full, ".so")
		e.base = strings.TrimSuffix(e.full, ".so")
		p := w.dir + "/" + e.full
		if e.isDir {
			vfs.Mkdir(p)
			continue
		}
		e.b = &build{name: e.base, ver: fmt.Sprint(k), reloadable: true}
		c := "build " + e.full
		w.builds[c] = e.b
		vfs.Put(p, []byte(c))
	}
	// and a directory that looks promising inside
	vfs.Put(w.dir+"/sub/pqa.so", []byte("nothing"))
	var white []string
	nw := sym.Choice("whitelist", wl+1)
	if must {
		nw = wl
	}
	for k := 0; k < nw; k++ {
		white = append(white, sym.Concrete("pq"+sym.String(fmt.Sprint("white", k), 1, nameChars)))
	}
	var opts []hotswap.Option
	if nw > 0 {
		opts = append(opts, hotswap.WithWhitelist(white...))
	}
	w.swapper(opts...)
	listed := func(name string) bool {
		if nw == 0 {
			return true
		}
		for _, x := range white {
			if x == name {
				return true
			}
		}
		return false
	}
	var want []*entry
	for _, e := range es {
		if e.plugin && listed(e.base) {
			want = append(want, e)
		}
	}
	var missing []string
	for _, x := range white {
		ok := false
		for _, e := range want {
			ok = ok || e.base == x
		}
		if !ok {
			missing = append(missing, x)
		}
	}
	dup := false
	for a, x := range want {
		for _, y := range want[:a] {
			dup = dup || strings.EqualFold(x.base, y.base)
		}
	}
	var r result
	if sym.Choice("reload", 2) == 1 {
		r = w.reload(1)
	} else {
		r = w.load(1)
	}
	sym.Assert(!r.panicked, "C03:no panic escapes")
	m := w.sw.Current()
	switch {
	case len(missing) > 0:
		sym.Cover("missing")
		sym.Assert(r.err != nil, "C15:a load without a whitelisted plugin fails")
		if r.err != nil {
			for _, x := range missing {
				sym.Assert(strings.Contains(r.err.Error(), x), "C15:the error names every missing plugin")
			}
		}
		sym.Assert(m == nil && len(w.insts) == 0, "C15:nothing is loaded without a whitelisted plugin")
		return
	case dup:
		sym.Cover("duplicate")
		sym.Assert(r.err != nil, "C11:plugins whose names differ only in case are rejected")
		sym.Assert(len(plug.Opened) == 0, "C11:they are rejected before any is opened")
		sym.Assert(m == nil, "C11:they are never loaded together")
		return
	case len(want) == 0:
		sym.Cover("empty")
		sym.Assert(m == nil, "C15:nothing is loaded from a directory without plugins")
		sym.Assert(len(plug.Opened) == 0, "C15:nothing but plugin files is opened")
		return
	}
	sym.Cover("loaded")
	sym.Assert(r.err == nil, "C15:exactly the wanted files are loaded")
	sym.Assert(r.err == nil, "C11:plugins with different names are accepted")
	if r.err != nil || m == nil {
		return
	}
	a := running(m)
	sym.Assert(len(a) == len(want), "C15:exactly the wanted files are loaded")
	sym.Assert(len(r.d) == len(want), "C14:details have one entry per plugin")
	for _, e := range want {
		k := -1
		for x, i := range a {
			if i.b == e.b {
				k = x
			}
		}
		sym.Assert(k >= 0, "C15:exactly the wanted files are loaded")
		if k >= 0 {
			sym.Assert(m.Plugins()[k].Name == e.base, "C15:a plugin has the name of its file")
		}
		sym.Assert(r.d[w.dir+"/"+e.full] == "ok", "C14:details say ok for a fresh plugin")
	}
	checkFind(m)
}

// Whitelist: whitelists in any order, with repetitions and with names that are
// no plugins, on a load and on a reload that finds other files.
func Whitelist() {
	sym.MapOrders(1, 0)
	w := newWorld()
	all := []string{"pqa", "pqb", "pqc", "pqz"}
	put := func(name, ver string) *build {
		b := &build{name: name, ver: ver, reloadable: true}
		w.put(b)
		return b
	}
	have := map[string]*build{}
	for _, x := range all[:3] {
		have[x] = put(x, "1")
	}
	vfs.Put(w.dir+"/pqz.txt", []byte("no plugin"))
	var white []string
	listed := map[string]bool{}
	for k, n := 0, 1+sym.Choice("whitelist", 3); k < n; k++ {
		x := "pq" + sym.Concrete(sym.String(fmt.Sprint("white", k), 1, "abcz"))
		white = append(white, x)
		listed[x] = true
	}
	w.swapper(hotswap.WithWhitelist(append([]string(nil), white...)...))
	var m *hotswap.PluginManager
	for step := 0; step < 2; step++ {
		if step == 1 {
			sym.Advance(time.Second)
			switch sym.Choice("change", 4) {
			case 0: // a listed plugin may go
				w.del("pqa")
				delete(have, "pqa")
			case 1: // a missing one may come
				have["pqz"] = put("pqz", "1")
			case 2:
				have["pqa"] = put("pqa", "2")
			}
		}
		var want, missing []string
		for _, x := range all {
			if listed[x] && have[x] != nil {
				want = append(want, x)
			} else if listed[x] {
				missing = append(missing, x)
			}
		}
		opened := len(plug.Opened)
		var r result
		if step == 0 {
			r = w.load(1)
		} else {
			r = w.reload(2)
		}
		sym.Assert(!r.panicked, "C03:no panic escapes")
		if len(missing) > 0 {
			sym.Cover("missing")
			sym.Assert(r.err != nil, "C15:a load without a whitelisted plugin fails")
			if r.err != nil {
				for _, x := range missing {
					sym.Assert(strings.Contains(r.err.Error(), x), "C15:the error names every missing plugin")
				}
			}
			sym.Assert(w.sw.Current() == m && len(plug.Opened) == opened, "C15:nothing is loaded without a whitelisted plugin")
			sym.Assert(w.sw.Current() == m, "C03:Current stays after a failed load")
			continue
		}
		sym.Cover("loaded")
		sym.Assert(r.err == nil, "C15:exactly the wanted files are loaded")
		if r.err != nil {
			return
		}
		m = w.sw.Current()
		a := running(m)
		sym.Assert(len(a) == len(want) && len(r.d) == len(want), "C15:exactly the wanted files are loaded")
		for _, x := range want {
			i := byName(a, x)
			sym.Assert(i != nil && i.b == have[x], "C15:exactly the wanted files are loaded")
			p := m.FindPlugin(x)
			sym.Assert(p != nil && p.Name == x, "C15:a plugin has the name of its file")
		}
	}
}

// checkFind: FindPlugin for every argument.
func checkFind(m *hotswap.PluginManager) {
	arg := "pq" + sym.String("arg", 1, nameChars+"c")
	if sym.Choice("short", 2) == 1 {
		arg = arg[:2]
	}
	p := m.FindPlugin(arg)
	hit := false
	for _, x := range m.Plugins() {
		hit = sym.Or(hit, foldEq(x.Name, arg))
	}
	sym.Assert(sym.Iff(p != nil, hit), "C11:FindPlugin finds a plugin exactly if there is one of that name")
	if p != nil {
		sym.Assert(foldEq(p.Name, arg), "C11:FindPlugin returns the plugin of that name")
		k := false
		for _, x := range m.Plugins() {
			k = k || x == p
		}
		sym.Assert(k, "C11:FindPlugin returns a loaded plugin")
		sym.Cover("found")
	} else {
		sym.Cover("not found")
	}
}

// NamesReload: a plugin file appears next to the running one, under any name.
func NamesReload() {
	sym.MapOrders(1, 0)
	w := newWorld()
	w.swapper()
	mk := func(name, ver string) *build {
		b := &build{name: name, ver: ver, reloadable: true}
		w.put(b)
		return b
	}
	n0 := sym.Concrete("pq" + sym.String("first", 1, nameChars))
	b0 := mk(n0, "1")
	r := w.load(1)
	sym.Assert(r.err == nil, "C15:exactly the wanted files are loaded")
	if r.err != nil {
		return
	}
	old := w.sw.Current()
	from := len(plug.Opened)
	sym.Advance(time.Second)
	n1 := sym.Concrete("pq" + sym.String("second", 1, nameChars))
	gone := sym.Choice("first goes", 2) == 1
	if gone {
		w.del(n0)
	}
	b1 := mk(n1, "2")
	r = w.reload(2)
	m := w.sw.Current()
	if !gone && n0 != n1 && strings.EqualFold(n0, n1) {
		sym.Cover("duplicate")
		sym.Assert(r.err != nil && m == old, "C11:plugins whose names differ only in case are rejected")
		sym.Assert(len(plug.Opened) == from, "C11:they are rejected before any is opened")
		return
	}
	sym.Assert(r.err == nil, "C15:exactly the wanted files are loaded")
	if r.err != nil {
		return
	}
	sym.Cover("loaded")
	i := byName(running(m), n1)
	sym.Assert(i != nil && i.b == b1, "C09:any other plugin is a fresh instance")
	if p := m.FindPlugin(n1); p != nil {
		sym.Assert(p.Name == n1, "C15:a plugin has the name of its file")
	}
	if n0 != n1 && !gone {
		j := byName(running(m), n0)
		sym.Assert(j != nil && j.b == b0 && len(running(m)) == 2, "C15:exactly the wanted files are loaded")
	} else {
		sym.Assert(len(running(m)) == 1, "C15:exactly the wanted files are loaded")
	}
	checkFind(m)
	sym.Assert(w.sw.ReloadCounter() == 1, "C14:ReloadCounter counts successful reloads")
	// a directory that has become empty
	w.del(n0)
	w.del(n1)
	from = len(w.log)
	r = w.reload(3)
	if r.err == nil {
		sym.Assert(w.sw.ReloadCounter() == 2, "C14:ReloadCounter counts successful reloads")
	} else {
		sym.Assert(w.sw.ReloadCounter() == 1, "C14:a failed reload does not count")
		sym.Assert(w.sw.Current() == m, "C03:Current stays after a failed load")
	}
	sym.Assert(w.count("OnLoad", from)+w.count("open", from) == 0, "C15:nothing is loaded from a directory without plugins")
}

// StaticEmpty: no static plugins at all, or an empty set of them.
func StaticEmpty() {
	w := newWorld()
	w.put(&build{name: "alpha", ver: "1", reloadable: true})
	var opts []hotswap.Option
	k := sym.Choice("static plugins", 3)
	switch k {
	case 1:
		opts = append(opts, hotswap.WithStaticPlugins(nil))
	case 2:
		opts = append(opts, hotswap.WithStaticPlugins(map[string]*hotswap.StaticPlugin{}))
	}
	w.swapper(opts...)
	static := k == 2
	sym.Assert(w.sw.StaticLinkingMode() == static, "C20:StaticLinkingMode tells whether static plugins are configured")
	r := w.load(1)
	sym.Assert(!r.panicked && r.err == nil, "C20:the configured static plugins are loaded")
	m := w.sw.Current()
	if static {
		sym.Cover("empty")
		sym.Assert(len(w.log) == 0 && len(r.d) == 0 && len(running(m)) == 0, "C20:exactly the configured static plugins are loaded")
	} else {
		sym.Cover("dynamic")
		sym.Assert(len(running(m)) == 1 && len(r.d) == 1, "C20:plugin files are loaded without static plugins")
	}
	sym.Advance(time.Second)
	w.put(&build{name: "alpha", ver: "2", reloadable: true})
	from := len(w.log)
	r = w.reload(2)
	sym.Assert((r.err != nil) == static && !r.panicked, "C20:Reload fails without effect in static mode")
	if static {
		sym.Assert(w.sw.Current() == m && len(w.log) == from && w.sw.ReloadCounter() == 0, "C20:Reload fails without effect in static mode")
	}
}

// StaticNames: static plugins with any names, any whitelist.
func StaticNames2() { staticNames(2, 2) }
func StaticNames3() { staticNames(3, 1) }

func staticNames(n, wl int) {
	sym.MapOrders(1, 0)
	w := newWorld()
	var bs []*build
	for k := 0; k < n; k++ {
		b := &build{name: "pq" + sym.String(fmt.Sprint("name", k), 1, nameChars), ver: "1", reloadable: true}
		for _, x := range bs {
			sym.Assume(sym.Not(sym.EqStr(x.name, b.name)))
		}
		bs = append(bs, b)
	}
	for _, b := range bs {
		b.name = sym.Concrete(b.name)
	}
	statics := w.statics(bs...)
	opts := []hotswap.Option{hotswap.WithStaticPlugins(statics)}
	var white []string
	nw := sym.Choice("whitelist", wl+1)
	for k := 0; k < nw; k++ {
		white = append(white, sym.Concrete("pq"+sym.String(fmt.Sprint("white", k), 1, nameChars)))
	}
	if nw > 0 {
		opts = append(opts, hotswap.WithWhitelist(white...))
	}
	nCb := 0
	opts = append(opts, hotswap.WithReloadCallback(func(newM, oldM *hotswap.PluginManager) error {
		nCb++
		sym.Assert(newM != nil && oldM == nil, "C18:callbacks receive the managers")
		sym.Assert(newM != w.sw.Current(), "C18:callbacks run before publication")
		return nil
	}))
	w.swapper(opts...)
	sym.Assert(w.sw.StaticLinkingMode(), "C20:StaticLinkingMode is true with static plugins")
	listed := func(x string) bool {
		for _, y := range white {
			if x == y {
				return true
			}
		}
		return nw == 0
	}
	var want []*build
	for _, b := range bs {
		if listed(b.name) {
			want = append(want, b)
		}
	}
	missing := false
	for _, x := range white {
		ok := false
		for _, b := range bs {
			ok = ok || b.name == x
		}
		missing = missing || !ok
	}
	dup := false
	for a, x := range want {
		for _, y := range want[:a] {
			dup = dup || strings.EqualFold(x.name, y.name)
		}
	}
	before := sym.Choice("reload first", 2) == 1
	if before {
		rr := w.reload(1)
		sym.Assert(rr.err != nil && w.sw.Current() == nil && len(w.log) == 0, "C20:Reload fails without effect in static mode")
	}
	t0 := time.Now()
	r := w.load("data")
	t1 := time.Now()
	m := w.sw.Current()
	sym.Assert(!r.panicked, "C03:no panic escapes")
	if missing {
		sym.Cover("missing")
		sym.Assert(r.err != nil && m == nil, "C20:a load without a whitelisted static plugin fails")
		return
	}
	if dup {
		sym.Cover("duplicate")
		sym.Assert(r.err != nil && m == nil, "C11:static plugins whose names differ only in case are rejected")
		return
	}
	sym.Assert(r.err == nil && m != nil, "C20:the configured static plugins are loaded")
	sym.Assert(r.err == nil && m != nil, "C11:static plugins with different names are accepted")
	if r.err != nil || m == nil {
		return
	}
	sym.Cover("loaded")
	var insts []*inst
	for _, i := range w.insts {
		if listed(i.b.name) {
			insts = append(insts, i)
		} else {
			sym.Assert(len(i.n) == 0, "C20:a plugin that is not whitelisted is left alone")
		}
	}
	for _, p := range m.Plugins() {
		i := who(p)
		sym.Assert(i != nil && p.Name == i.b.name, "C23:Name is the name of the static plugin")
		sym.Assert(!p.When.Before(t0) && !p.When.After(t1), "C23:When is the time of the load that made it")
	}
	a := running(m)
	sym.Assert(len(a) == len(want) && len(r.d) == len(want), "C20:exactly the configured static plugins are loaded")
	sym.Assert(len(a) == len(want), "C15:exactly the wanted files are loaded")
	for _, i := range insts {
		sym.Assert(find(a, i) >= 0, "C20:exactly the configured static plugins are loaded")
		sym.Assert(r.d[i.b.name] == "ok", "C20:details say ok for every static plugin")
		sym.Assert(r.d[i.b.name] == "ok", "C14:details say ok for a fresh plugin")
	}
	sym.Assert(nCb == 1, "C18:every callback runs")
	w.checkPhases(m, insts, 0, "data", nil)
	w.checkOrder(m, insts, nil)
	checkFind(m)
	from := len(w.log)
	rr := w.reload(2)
	sym.Assert(rr.err != nil && !rr.panicked && w.sw.Current() == m && len(w.log) == from && w.sw.ReloadCounter() == 0,
		"C20:Reload fails without effect in static mode")
	rr = w.reload(2, func(a, b *hotswap.PluginManager) error { nCb++; return nil })
	sym.Assert(rr.err != nil && !rr.panicked && w.sw.Current() == m && len(w.log) == from && w.sw.ReloadCounter() == 0 && nCb == 1,
		"C20:Reload fails without effect in static mode")
	sym.Advance(10 * time.Minute)
	for _, i := range insts {
		sym.Assert(i.n["OnFree"] == 0, "C04:a running plugin is not freed")
	}
}
