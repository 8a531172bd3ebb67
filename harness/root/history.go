package root

import (
	"errors"
	"fmt"
	"time"

	"github.com/edwingeng/hotswap"
	"github.com/edwingeng/hotswap/zzverif/sym"
)

// ReloadHistory: four reloads in a row of one plugin that comes, goes, changes
// or stays the same, beside one that always stays and one that imports it.
func ReloadHistory() {
	sym.MapOrders(0, 0)
	w := newWorld()
	o := newModel(w)
	w.swapper()
	w.setAct(o)
	was := o.install(0, 3, nil) // what the file held before the last change
	o.install(1, 3, nil)
	if !o.step(false, 0) {
		return
	}
	for s := 1; s <= 4; s++ {
		now := o.files[letter(0)]
		c := 3
		if now == nil {
			c = 2
		} else if now != was {
			c = 4
		}
		switch sym.Choice(fmt.Sprint("file", s), c) {
		case 1:
			if now == nil && sym.Choice(fmt.Sprint("as before", s), 2) == 1 {
				o.restore(was)
			} else {
				o.install(0, 3, nil)
			}
		case 2:
			o.remove(0)
		case 3:
			o.restore(was)
		}
		if now != nil {
			was = now
		}
		sym.Advance(time.Second)
		if !o.step(true, s) {
			return
		}
	}
	sym.Cover("four reloads")
	o.settle()
}

// CallbackHistory: a load and three reloads, each with or without a callback of
// its own, any of them vetoing.
func CallbackHistory() {
	sym.MapOrders(0, 0)
	w := newWorld()
	var calls []string
	veto := ""
	errVeto := errors.New("no")
	cb := func(name string) hotswap.ReloadCallback {
		return func(newM, oldM *hotswap.PluginManager) error {
			calls = append(calls, name)
			sym.Assert(oldM == w.sw.Current(), "C18:callbacks receive the replaced manager")
			sym.Assert(newM != nil && newM != oldM, "C18:callbacks receive the new manager")
			if name == veto {
				return errVeto
			}
			return nil
		}
	}
	configured := sym.Choice("configured", 2) == 1
	var opts []hotswap.Option
	if configured {
		opts = append(opts, hotswap.WithReloadCallback(cb("configured")))
	}
	w.swapper(opts...)
	put := func(k, ver int) {
		w.put(&build{name: letter(k), ver: fmt.Sprint(ver), reloadable: true})
	}
	put(0, 0)
	cnt := int64(0)
	for s := 0; s <= 3; s++ {
		put(0, s)
		calls, veto = nil, ""
		var want []string
		if configured {
			want = append(want, "configured")
		}
		old := w.sw.Current()
		var r result
		kind := 0 // load, or reload without a callback
		if s > 0 {
			kind = sym.Choice(fmt.Sprint("reload", s), 4)
		}
		own := fmt.Sprint("own", s)
		vetoed := false
		switch {
		case s == 0:
			r = w.load(s)
		case kind == 0:
			r = w.reload(s)
		case kind == 1:
			r = w.reload(s, cb(own))
			want = append(want, own)
		case kind == 2:
			veto, vetoed = own, true
			r = w.reload(s, cb(own))
			want = append(want, own)
		case kind == 3: // no callback, but through ReloadWithCallback
			r = w.reload(s, nil)
		}
		sym.Assert(fmt.Sprint(calls) == fmt.Sprint(want), "C18:every callback of this reload runs once, and no other")
		sym.Assert((r.err != nil) == vetoed && (!vetoed || r.err == errVeto), "C18:the load fails with the callback's error")
		if vetoed {
			sym.Cover("veto")
			sym.Assert(w.sw.Current() == old, "C18:the old manager stays after a veto")
		} else {
			sym.Assert(w.sw.Current() != old, "C18:a reload nobody vetoes is published")
			if s > 0 {
				cnt++
			}
		}
		sym.Assert(w.sw.ReloadCounter() == cnt, "C14:ReloadCounter counts successful reloads")
		sym.Advance(time.Second)
	}
}

// VaultRetained: live names of three plugins across a reload that keeps some of
// them, whose imports decide where they stand in the order.
func VaultRetained() {
	sym.MapOrders(1, 0)
	w := newWorld()
	type live struct{ fn, ty string }
	lives := map[*build]live{}
	n := 3
	up := sym.Choice("direction", 2) == 1
	chained := make([]bool, n) // imports its neighbour
	nb := func(k int) int {
		d := k - 1
		if up {
			d = k + 1
		}
		if d < 0 || d >= n {
			return -1
		}
		return d
	}
	for k := range chained {
		if nb(k) >= 0 {
			chained[k] = sym.Choice("imports:"+letter(k), 2) == 1
		}
	}
	cur := make([]*build, n)
	mk := func(k int, ver, fn, ty string) {
		b := &build{name: letter(k), ver: ver, reloadable: true, funcs: map[string]any{}, types: map[string]func() any{}}
		if chained[k] {
			d := nb(k)
			b.imports = func(*inst) any {
				return sym.ImportObj([]sym.Field{{Name: fieldName(d), Type: new(*api)}})
			}
		}
		l := live{fn, ty}
		if fn != "" {
			b.funcs[fn] = &lives
		}
		if ty != "" {
			b.types[ty] = func() any { return b }
		}
		lives[b] = l
		cur[k] = b
		w.put(b)
	}
	check := func(m *hotswap.PluginManager, bs []*build, when string) {
		nf, nt := 0, 0
		for _, b := range bs {
			l := lives[b]
			if l.fn != "" {
				nf++
				sym.Assert(m.Vault.LiveFuncs[l.fn] == any(&lives), "C12:LiveFuncs holds every live function"+when)
			}
			if l.ty != "" {
				nt++
				f := m.Vault.LiveTypes[l.ty]
				sym.Assert(f != nil && f() == any(b), "C12:LiveTypes holds every live type"+when)
			}
		}
		sym.Assert(len(m.Vault.LiveFuncs) == nf && len(m.Vault.LiveTypes) == nt, "C12:the Vault holds nothing else"+when)
	}
	for k := 0; k < n; k++ {
		mk(k, "1", "fn"+letter(k), "ty"+letter(k))
	}
	w.swapper()
	r := w.load(0)
	sym.Assert(r.err == nil, "C12:a load fails exactly if a name is provided twice or a table is nil")
	if r.err != nil {
		return
	}
	oldM := w.sw.Current()
	oldBs := append([]*build{}, cur...)
	sym.Advance(time.Second)
	// one or two plugins change, and all that import them; the first that changes may take any names
	changed := make([]bool, n)
	for k := range changed {
		changed[k] = sym.Choice("changes:"+letter(k), 2) == 1
	}
	for x := 0; x < n; x++ {
		k := x
		if up {
			k = n - 1 - x
		}
		if chained[k] && changed[nb(k)] {
			changed[k] = true
		}
	}
	nameOf := func(what string) string {
		c := sym.Choice(what, n+2)
		switch c {
		case n:
			return ""
		case n + 1:
			return "new"
		}
		return letter(c)
	}
	free := true
	for k := range changed {
		if !changed[k] {
			continue
		}
		fn, ty := letter(k), letter(k)
		if free {
			fn, ty = nameOf("function"), nameOf("type")
			free = false
		}
		if fn != "" {
			fn = "fn" + fn
		}
		if ty != "" {
			ty = "ty" + ty
		}
		mk(k, "2", fn, ty)
	}
	bad := false
	for a := range cur {
		for b := 0; b < a; b++ {
			x, y := lives[cur[a]], lives[cur[b]]
			bad = bad || x.fn != "" && x.fn == y.fn || x.ty != "" && x.ty == y.ty
		}
	}
	from := len(w.log)
	r = w.reload(1)
	sym.Assert((r.err != nil) == bad, "C12:a load fails exactly if a name is provided twice or a table is nil")
	m := w.sw.Current()
	if r.err != nil {
		sym.Cover("rejected")
		sym.Assert(w.count("OnInit", from) == 0, "C12:no OnInit before duplicates are rejected")
		sym.Assert(m == oldM, "C03:Current stays after a failed load")
	} else {
		sym.Cover("accepted")
		check(m, cur, "")
	}
	check(oldM, oldBs, " of the old manager")
}
