package root

import (
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/edwingeng/hotswap"
	"github.com/edwingeng/hotswap/zzverif/sym"
	"github.com/edwingeng/hotswap/zzverif/vfs"
)

// cbCall is one invocation of a reload callback.
type cbCall struct {
	which      int
	newM, oldM *hotswap.PluginManager
	at         int
}

var (
	errCb1 = errors.New("callback 1 says no")
	errCb2 = errors.New("callback 2 says no")
)

// chain makes builds 0..n-1, each importing the one before it (or after it, if up).
func (w *world) chainBuild(k, n int, up bool, ver string) *build {
	b := &build{name: letter(k), ver: ver, reloadable: true}
	v := &api{}
	b.funcs = map[string]any{"live" + b.name: v}
	b.types = map[string]func() any{"live" + b.name: func() any { return v }}
	dep := k - 1
	if up {
		dep = k + 1
	}
	b.imports = func(*inst) any {
		if dep < 0 || dep >= n {
			return nil
		}
		var t *api
		return sym.ImportObj([]sym.Field{{Name: fieldName(dep), Type: &t}})
	}
	return b
}

func chainDep(k, n int, up bool) int {
	if up {
		if k+1 < n {
			return k + 1
		}
		return -1
	}
	return k - 1
}

// FaultsFirst, FaultsReload: every plugin function, the loader, the file system
// and the callbacks may fail during a first load or a reload.
func FaultsFirst2()  { faults(2, false) }
func FaultsFirst3()  { faults(3, false) }
func FaultsReload2() { faults(2, true) }
func FaultsReload3() { faults(3, true) }

func faults(n int, reload bool) {
	sym.MapOrders(1, 0)
	w := newWorld()
	up := sym.Choice("direction", 2) == 1
	var cbs []cbCall
	armed := false
	anyFault := false // as a formula over everything that may fail
	inPlugin := false
	fault := func(c int) {
		anyFault = sym.Or(anyFault, c != 0)
	}
	cb := func(which int) hotswap.ReloadCallback {
		return func(newM, oldM *hotswap.PluginManager) error {
			cbs = append(cbs, cbCall{which, newM, oldM, len(w.log)})
			w.log = append(w.log, event{fmt.Sprint("callback", which), nil})
			if !armed {
				return nil
			}
			c := sym.Int(fmt.Sprint("fault:callback", which), 3)
			fault(c)
			switch c {
			case 1:
				if which == 1 {
					return errCb1
				}
				return errCb2
			case 2:
				panic("callback panics")
			}
			return nil
		}
	}
	w.swapper(hotswap.WithReloadCallback(cb(1)))
	var all []*build
	for k := 0; k < n; k++ {
		b := w.chainBuild(k, n, up, "1")
		all = append(all, b)
		w.put(b)
	}
	changed := map[string]bool{}
	var oldM *hotswap.PluginManager
	if reload {
		r := w.load("d0")
		sym.Assert(r.err == nil, "C18:a good load succeeds")
		if r.err != nil {
			return
		}
		oldM = w.sw.Current()
		sym.Advance(time.Second)
		nc := 0
		// a plugin may stay the same only if all it imports stay the same
		for x := 0; x < n; x++ {
			k := x
			if up {
				k = n - 1 - x
			}
			d := chainDep(k, n, up)
			if d >= 0 && changed[letter(d)] || sym.Choice("changed:"+letter(k), 2) == 1 {
				b := w.chainBuild(k, n, up, "2")
				all[k] = b
				w.put(b)
				changed[letter(k)] = true
				nc++
			}
		}
		if nc == 0 {
			return
		}
	}
	if oldM != nil {
		oldM.DataBag["mine"] = 1
	}
	oldRun, oldSnap := running(oldM), snap(oldM)
	exportDone := map[*inst]bool{}
	w.act = func(fn string, i *inst) int {
		if strings.HasPrefix(fn, "Invoke") || !armed {
			return ok0
		}
		var c int // 0, or how it fails
		switch fn {
		case "OnLoad", "OnInit":
			c = sym.Int("fault:"+fn+":"+i.b.name, 3)
		default:
			c = sym.Int("fault:"+fn+":"+i.b.name, 2)
		}
		if fn != "OnFree" {
			fault(c)
			inPlugin = sym.Or(inPlugin, c != 0)
		}
		if fn == "Export" {
			exportDone[i] = c == 0
		}
		return c
	}
	// environment faults
	env := sym.Choice("environment", 5)
	var undo func()
	tmp := w.dir + "/tmp"
	victim := w.file(all[n-1])
	switch env {
	case 1: // the directory is gone
		vfs.Del(w.dir)
		undo = func() {
			vfs.Mkdir(w.dir)
			for _, b := range all {
				w.put(b)
			}
		}
		anyFault = true
	case 2: // a file cannot be read
		vfs.Del(victim)
		vfs.PutBad(victim)
		undo = func() { vfs.Del(victim); w.put(all[n-1]) }
		anyFault = true
	case 3: // no copy can be made
		vfs.Del(tmp)
		vfs.Put(tmp, []byte("a file"))
		undo = func() { vfs.Del(tmp) }
		anyFault = true
	case 4: // the plugin directory is a file
		vfs.Del(w.dir)
		vfs.Put(w.dir, []byte("a file"))
		undo = func() {
			vfs.Del(w.dir)
			for _, b := range all {
				w.put(b)
			}
		}
		anyFault = true
	}
	insts0, from := len(w.insts), len(w.log)
	cbs = nil
	cnt0 := w.sw.ReloadCounter()
	w.before = func(fn string, i *inst) {
		sym.Assert(w.sw.Current() == oldM, "C03:Current stays while loading")
		if fn == "OnFree" {
			sym.Assert(find(oldRun, i) < 0, "C05:a failing load frees no retained plugin")
			sym.Assert(find(oldRun, i) < 0, "C03:no running plugin is freed")
		}
	}
	armed = true
	var r result
	if reload {
		r = w.reload("d1", cb(2))
	} else {
		r = w.load("d1")
	}
	armed = false
	w.before = nil
	fresh := append([]*inst{}, w.insts[insts0:]...)
	sym.Assert(!r.panicked, "C03:no panic escapes")
	sym.Assert(sym.Iff(r.err != nil, anyFault), "C03:a load fails exactly if something went wrong")
	m := w.sw.Current()

	// callbacks
	nInit := 0
	for _, i := range fresh {
		nInit += i.n["OnInit"]
	}
	for k, c := range cbs {
		sym.Assert(c.which == k+1, "C18:callbacks run in order, once each")
		sym.Assert(c.oldM == oldM, "C18:callbacks receive the replaced manager")
		sym.Assert(c.newM != nil && c.newM != oldM, "C18:callbacks receive the new manager")
		if r.err == nil {
			sym.Assert(c.newM == m, "C18:callbacks receive the manager that is published")
		}
		sym.Assert(sym.Not(inPlugin), "C18:no callback after a failed load")
		for _, i := range fresh {
			sym.Assert(i.n["OnInit"] == 1 && i.at["OnInit"] < c.at, "C18:callbacks run after every OnInit")
			if i.n["OnFree"] > 0 {
				sym.Assert(i.at["OnFree"] > c.at, "C18:callbacks run before anything is freed")
			}
		}
	}
	want := 1
	if reload {
		want = 2
	}
	if r.err == nil {
		sym.Assert(len(cbs) == want, "C18:every callback runs")
		sym.Cover("succeeds")
	} else {
		sym.Cover("fails")
		if env == 0 && len(cbs) > 0 {
			sym.Cover("veto")
			s := r.err.Error()
			last := cbs[len(cbs)-1].which
			sym.Assert(r.err == errCb1 && last == 1 || r.err == errCb2 && last == 2 || strings.Contains(s, "callback panics"),
				"C18:the load fails with the callback's error")
		}
	}

	if r.err != nil {
		sym.Assert(m == oldM, "C03:Current stays after a failed load")
		sym.Assert(m == oldM, "C18:the old manager stays after a veto")
		sym.Assert(sameInsts(running(m), oldRun), "C03:the running plugins stay")
		diff := oldSnap.unchanged()
		sym.Assert(diff == "", "C03:a failed load leaves the running manager as it was")
		sym.Assert(diff != "live functions" && diff != "live types" && diff != "DataBag" && diff != "Extension", "C12:a failed load leaves the running Vault alone")
		sym.Assert(w.sw.ReloadCounter() == cnt0, "C03:ReloadCounter stays after a failed reload")
		sym.Assert(w.sw.ReloadCounter() == cnt0, "C14:a failed reload does not count")
		sym.Assert(r.d == nil, "C14:a failing load returns no details")
		ordered := false
		for _, i := range fresh {
			if i.n["OnLoad"] > 0 {
				ordered = true
			}
		}
		for _, i := range fresh {
			want := sym.Or(sym.And(exportDone[i], i.n["OnFree"] == 1), sym.And(sym.Not(exportDone[i]), i.n["OnFree"] == 0))
			sym.Assert(want, "C05:a failed load frees what it loaded once")
			sym.Assert(want, "C18:a veto frees the new plugins")
			if ordered && i.n["OnFree"] == 1 {
				if d := chainDep(index(i), n, up); d >= 0 {
					if x := byName(fresh, letter(d)); x != nil && x.n["OnFree"] == 1 {
						sym.Assert(i.at["OnFree"] < x.at["OnFree"], "C05:dependents are freed before dependencies")
						sym.Cover("freed in order")
					}
				}
			}
			for _, fn := range []string{"Reloadable", "Export", "Import", "OnLoad", "OnInit"} {
				sym.Assert(i.n[fn] <= 1, "C02:each lifecycle function runs at most once")
			}
		}
	} else {
		sym.Assert(len(running(m)) == n, "C09:every plugin is there")
		if reload {
			sym.Assert(w.sw.ReloadCounter() == cnt0+1, "C14:a successful reload counts")
		}
	}
	for _, i := range oldRun {
		sym.Assert(i.n["OnFree"] == 0, "C03:the running plugins are not freed")
	}
	_ = from

	// put everything right: the next load has to succeed
	if undo != nil {
		undo()
	}
	sym.Advance(time.Second)
	if r.err != nil {
		before := running(w.sw.Current())
		insts1 := len(w.insts)
		r2 := w.reload("d2")
		sym.Assert(r2.err == nil && !r2.panicked, "C03:a later good reload succeeds")
		if r2.err != nil {
			return
		}
		sym.Cover("recovers")
		a := running(w.sw.Current())
		sym.Assert(len(a) == n, "C09:every plugin is there after recovery")
		for _, i := range a {
			if !changed[i.b.name] && reload {
				sym.Assert(find(before, i) >= 0, "C09:an unchanged plugin is retained")
			} else {
				k := find(w.insts, i)
				sym.Assert(k >= insts1, "C09:a plugin of a failed load is not reused")
			}
		}
		sym.Assert(w.sw.ReloadCounter() == cnt0+1, "C14:a successful reload counts")
	}
	// let the delayed frees run, with panics
	cur := running(w.sw.Current())
	frees := map[*inst]int{}
	for _, i := range w.insts {
		frees[i] = i.n["OnFree"]
	}
	armed = true
	sym.Advance(5*time.Minute + time.Second)
	armed = false
	for _, i := range w.insts {
		switch {
		case find(cur, i) >= 0:
			sym.Assert(i.n["OnFree"] == 0, "C04:a running plugin is not freed")
		case find(oldRun, i) >= 0:
			sym.Assert(i.n["OnFree"] == 1, "C04:a replaced plugin is freed exactly once, whoever panics")
			sym.Cover("freed")
		default:
			sym.Assert(i.n["OnFree"] == frees[i], "C05:what a failed load freed is not freed again")
			sym.Assert(i.n["OnFree"] <= 1, "C04:nothing is freed twice")
		}
	}
}
