package root

import (
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/edwingeng/hotswap"
	"github.com/edwingeng/hotswap/zzverif/sym"
	"github.com/edwingeng/hotswap/zzverif/vfs"
)

var errSays = errors.New("somebody says no")

// FaultHistory: reload attempts in a row, good and failing ones, of a plugin, one
// that imports it and one that stays.
func FaultHistory()  { faultHistory(2) }
func FaultHistory3() { faultHistory(3) }

func faultHistory(steps int) {
	sym.MapOrders(0, 0)
	w := newWorld()
	veto := false
	w.swapper(hotswap.WithReloadCallback(func(newM, oldM *hotswap.PluginManager) error {
		if veto {
			return errSays
		}
		return nil
	}))
	vers := 0
	files := map[string]*build{}
	install := func(k int) {
		vers++
		b := &build{name: letter(k), ver: fmt.Sprint(vers), reloadable: k != 1}
		b.funcs = map[string]any{"live" + b.name: b}
		if k == 2 {
			b.imports = func(*inst) any {
				var t *api
				return sym.ImportObj([]sym.Field{{Name: fieldName(0), Type: &t}})
			}
		}
		w.put(b)
		files[b.name] = b
	}
	for k := 0; k < 3; k++ {
		install(k)
	}
	run := map[string]*inst{}
	var held []held
	delay := 5 * time.Minute
	holds := func(i *inst) bool {
		for _, x := range run {
			if x == i {
				return true
			}
		}
		for _, h := range held {
			if find(h.insts, i) >= 0 && sym.Now() < h.at+int64(delay) {
				return true
			}
		}
		return false
	}
	freed := func(when string) {
		for _, i := range w.insts {
			if holds(i) {
				sym.Assert(i.n["OnFree"] == 0, "C04:a plugin in use is not freed")
			} else if i.n["Export"] > 0 {
				sym.Assert(i.n["OnFree"] == 1, "C04:a replaced plugin is freed exactly once")
				sym.Cover("freed")
			}
		}
	}
	cnt := int64(0)
	attempt := func(s, fault int) {
		old := w.sw.Current()
		oldSnap, oldRun := snap(old), running(old)
		insts0 := len(w.insts)
		keep := map[string]*inst{}
		for n, b := range files {
			if i := run[n]; i != nil && (i.b == b || !i.b.reloadable) {
				keep[n] = i
			}
		}
		stale := keep[letter(2)] != nil && keep[letter(0)] == nil
		fresh := len(files) - len(keep)
		bad := stale || fault == 3 || fault != 0 && fresh > 0
		veto = fault == 3
		w.act = func(fn string, i *inst) int {
			switch {
			case fault == 1 && fn == "OnLoad":
				return err1
			case fault == 2 && fn == "OnInit":
				return panic2
			case fault == 4 && fn == "Export" && i.b.name == letter(0):
				return panic2
			}
			return ok0
		}
		if fault == 4 {
			bad = stale || keep[letter(0)] == nil
		}
		w.before = func(fn string, i *inst) {
			if fn == "OnFree" {
				sym.Assert(!holds(i), "C04:a plugin in use is not freed")
			}
			sym.Assert(w.sw.Current() == old, "C17:no unfinished manager is published")
		}
		var r result
		if s == 0 {
			r = w.load(s)
		} else {
			r = w.reload(s)
		}
		w.act = nil
		w.before = func(fn string, i *inst) {
			if fn == "OnFree" {
				sym.Assert(!holds(i), "C04:a plugin in use is not freed")
			}
		}
		made := append([]*inst{}, w.insts[insts0:]...)
		sym.Assert(!r.panicked, "C03:no panic escapes")
		sym.Assert(oldSnap.unchanged() == "", "C23:the entries of a manager stay as they were")
		m := w.sw.Current()
		if bad {
			sym.Cover("failed")
			sym.Assert(r.err != nil, "C03:a load in which something fails returns an error")
			sym.Assert(m == old && sameInsts(running(m), oldRun), "C03:Current stays after a failed load")
			sym.Assert(r.d == nil, "C14:a failing load returns no details")
			for _, i := range made {
				want := 0
				if i.n["Export"] > 0 && (fault != 4 || i.b.name != letter(0)) {
					want = 1
				}
				sym.Assert(i.n["OnFree"] == want, "C05:a failed load frees what it loaded once")
			}
			sym.Assert(w.sw.ReloadCounter() == cnt, "C03:ReloadCounter stays after a failed reload")
			// what failed in Export was never loaded
			for _, i := range made {
				if fault == 4 && i.b.name == letter(0) {
					i.n["Export"] = 0
				}
			}
			return
		}
		sym.Cover("good")
		sym.Assert(r.err == nil, "C03:a later reload of good plugins still succeeds")
		if r.err != nil {
			return
		}
		sym.Assert(m != old && m != nil, "C17:a successful load publishes its manager")
		if s > 0 {
			cnt++
			held = append(held, heldOf(oldRun))
		}
		sym.Assert(w.sw.ReloadCounter() == cnt, "C14:ReloadCounter counts successful reloads")
		sym.Assert(len(made) == fresh, "C22:retained plugins are not opened again")
		sym.Assert(len(running(m)) == len(files), "C09:the manager holds exactly the plugins of the directory")
		run = map[string]*inst{}
		for _, n := range []string{letter(0), letter(1), letter(2)} {
			b := files[n]
			i := who(m.FindPlugin(n))
			if b == nil {
				sym.Assert(i == nil, "C09:the manager holds exactly the plugins of the directory")
				continue
			}
			sym.Assert(i != nil, "C09:the manager holds exactly the plugins of the directory")
			if i == nil {
				return
			}
			run[n] = i
			want := "ok"
			if keep[n] != nil {
				sym.Assert(i == keep[n], "C09:an unchanged or non-reloadable plugin keeps its instance")
				want = "unchanged"
				if !i.b.reloadable {
					want = "not reloadable"
				}
			} else {
				sym.Assert(find(made, i) >= 0 && i.b == b, "C09:any other plugin is a fresh instance")
			}
			sym.Assert(r.d[w.dir+"/"+n+".so"] == want, "C14:details say what happened to each plugin")
			sym.Assert(m.LiveFuncs["live"+n] == any(i.b), "C12:LiveFuncs holds every live function")
			checkOpened(i)
		}
		sym.Assert(len(m.LiveFuncs) == len(files), "C12:the Vault holds nothing else")
		if i := run[letter(2)]; i != nil {
			sym.Assert(sym.FieldOf(i.imp, 0) == run[letter(0)].exp, "C10:every import is the instance in the new manager")
		}
	}
	attempt(0, 0)
	for s := 1; s <= steps; s++ {
		switch sym.Choice(fmt.Sprint("alpha", s), 2) {
		case 1:
			install(0)
		}
		n := 3
		if files[letter(2)] == nil {
			n = 2
		}
		switch sym.Choice(fmt.Sprint("charlie", s), n) {
		case 1:
			install(2)
		case 2:
			w.del(letter(2))
			delete(files, letter(2))
		}
		if s == 1 && sym.Choice("bravo changes", 2) == 1 {
			install(1)
		}
		attempt(s, sym.Choice(fmt.Sprint("fault", s), 5))
		freed(" after an attempt")
		if sym.Choice(fmt.Sprint("pause", s), 2) == 0 {
			sym.Advance(time.Second)
		} else {
			sym.Advance(delay + time.Second)
		}
		freed(" after a pause")
	}
	// good again
	install(0)
	install(2)
	attempt(steps+1, 0)
	sym.Advance(delay + time.Second)
	freed(" in the end")
}

func heldOf(a []*inst) held { return held{a, sym.Now()} }

// checkOpened: the copy a plugin was opened from.
func checkOpened(i *inst) {
	d, ok := vfs.Get(i.path)
	sym.Assert(ok && string(d) == i.b.content() && strings.HasPrefix(i.path, i.w.dir+"/tmp/"), "C22:the copy holds the bytes of the file")
}
