package root

import (
	"fmt"
	"sync"
	"time"

	"github.com/edwingeng/hotswap"
	"github.com/edwingeng/hotswap/zzverif/sym"
)

// Concurrent2, Concurrent3: loads and reloads from several goroutines, and a
// reader, under every schedule with a bounded number of preemptions.
func ConcurrentLoads()   { concurrent(2, 0, true, 1) }
func ConcurrentReader()  { concurrent(1, 2, true, 1) }
func ConcurrentMixed()   { concurrent(2, 1, true, 1) }
func ConcurrentFirst()   { concurrent(2, 1, false, 1) }
func ConcurrentLoads2()  { concurrent(2, 0, true, 2) }
func ConcurrentReader2() { concurrent(1, 2, true, 2) }
func ConcurrentMixed2()  { concurrent(2, 1, true, 2) }
func ConcurrentThree()   { concurrent(3, 0, true, 1) }

type loadInfo struct {
	id    int
	newM  *hotswap.PluginManager
	oldM  *hotswap.PluginManager
	at    int // position of the callback in the log
	veto  bool
	done  bool // the callback has returned nil
	order int
}

func concurrent(loaders, readers int, preloaded bool, preempt int) {
	sym.MapOrders(0, 0)
	w := newWorld()
	var infos []*loadInfo
	byM := map[*hotswap.PluginManager]*loadInfo{}
	armed := false
	var vetoes []bool
	mkCb := func(id int) hotswap.ReloadCallback {
		return func(newM, oldM *hotswap.PluginManager) error {
			li := &loadInfo{id: id, newM: newM, oldM: oldM, at: len(w.log), order: len(infos)}
			infos = append(infos, li)
			byM[newM] = li
			w.log = append(w.log, event{"callback", nil})
			sym.Point()
			if id >= 0 && vetoes[id] {
				li.veto = true
				return errCb1
			}
			li.done = true
			return nil
		}
	}
	w.before = func(fn string, i *inst) {
		if armed {
			if fn == "open" {
				time.Sleep(time.Second) // loads happen at different times, or hotswap reopens the copy of a failed one
			}
			sym.Point()
		}
	}
	w.swapper(hotswap.WithReloadCallback(mkCb(-1)))
	ver := 0
	put := func() {
		ver++
		w.put(&build{name: "alpha", ver: fmt.Sprint(ver), reloadable: true})
	}
	put()
	if preloaded && readers > 0 && loaders == 1 {
		w.put(&build{name: "Charlie", ver: "1", reloadable: true})
		w.put(&build{name: "Bravo", ver: "1", reloadable: true, imports: func(*inst) any { return &struct{ CHARLIE any }{} }})
	} else {
		w.put(&build{name: "Bravo", ver: "1", reloadable: true})
	}
	var first *hotswap.PluginManager
	if preloaded {
		r := w.load(0)
		sym.Assert(r.err == nil, "C17:a good load succeeds")
		if r.err != nil {
			return
		}
		first = w.sw.Current()
		if li := byM[first]; li == nil {
			return
		}
		sym.Advance(time.Second)
		put()
	}
	for k := 0; k < loaders; k++ {
		vetoes = append(vetoes, sym.Choice(fmt.Sprint("veto", k), 2) == 1)
	}
	isLoad := sym.Choice("first one is LoadPlugins", 2) == 1
	armed = true
	sym.Preempt(preempt)
	sym.Races("C17:no data race")
	insts0, log0, infos0 := len(w.insts), len(w.log), len(infos)
	cnt0 := w.sw.ReloadCounter()
	var wg sync.WaitGroup
	seen := func(m *hotswap.PluginManager, least int) int {
		if m == nil {
			sym.Assert(least < 0, "C17:once a load has succeeded Current is its manager or a later one")
			return -1
		}
		li := byM[m]
		sym.Assert(li != nil && li.done, "C17:Current never returns an unfinished manager")
		if li == nil {
			return least
		}
		sym.Assert(li.order >= least, "C17:Current never goes back to an earlier manager")
		for _, i := range running(m) {
			sym.Assert(i.n["OnInit"] == 1, "C17:Current never returns an unfinished manager")
		}
		return li.order
	}
	results := make([]result, loaders)
	wg.Add(loaders + readers)
	nOK := int64(0)
	for k := 0; k < loaders; k++ {
		k := k // the module's language version shares loop variables
		go func() {
			defer wg.Done()
			var own *hotswap.PluginManager
			if k == 0 && isLoad {
				results[k] = w.load(k)
			} else {
				results[k] = w.reload(k, func(newM, oldM *hotswap.PluginManager) error {
					own = newM
					li := byM[newM]
					if li != nil {
						li.done = false
						sym.Assert(li.oldM == oldM, "C17:each load sees the previous one's result")
					}
					sym.Point()
					if vetoes[k] {
						if li != nil {
							li.veto = true
						}
						return errCb2
					}
					if li != nil {
						li.done = true
					}
					return nil
				})
				sym.Assert((results[k].err != nil) == vetoes[k], "C17:a reload fails exactly if it is vetoed")
				if results[k].err == nil {
					nOK++
				}
			}
			m := w.sw.Current()
			if results[k].err == nil {
				least := 0
				if li := byM[own]; li != nil {
					least = li.order
				}
				seen(m, least)
			} else {
				sym.Assert(own == nil || m != own, "C17:a vetoed manager is never published")
			}
		}()
	}
	for k := 0; k < readers; k++ {
		go func() {
			defer wg.Done()
			last := -1
			if preloaded {
				last = 0
			}
			for x := 0; x < 2; x++ {
				m := w.sw.Current()
				last = seen(m, last)
				if m != nil && x == 0 {
					use(w.sw, m)
				}
				sym.Point()
			}
		}()
	}
	wg.Wait()
	sym.Preempt(-1)
	armed = false
	w.before = nil
	// loads are carried out one after another: the spans of their events do not overlap
	spanLo, spanHi := map[*loadInfo]int{}, map[*loadInfo]int{}
	load := map[*inst]*loadInfo{}
	for _, li := range infos[infos0:] {
		spanLo[li], spanHi[li] = li.at, li.at
		for _, i := range running(li.newM) {
			if find(w.insts[insts0:], i) >= 0 && load[i] == nil {
				load[i] = li
			}
		}
	}
	for k := log0; k < len(w.log); k++ {
		e := w.log[k]
		li := load[e.i]
		if li == nil || e.fn == "OnFree" && !li.veto {
			continue
		}
		if (e.fn == "LiveFuncs" || e.fn == "LiveTypes") && k > e.i.at["OnInit"] {
			// a later load fills its Vault: that of the next callback
			li = nil
			for _, x := range infos[infos0:] {
				if x.at > k && (li == nil || x.at < li.at) {
					li = x
				}
			}
			if li == nil {
				continue
			}
		}
		if k < spanLo[li] {
			spanLo[li] = k
		}
		if k > spanHi[li] {
			spanHi[li] = k
		}
	}
	for a, x := range infos[infos0:] {
		for _, y := range infos[infos0:][:a] {
			sym.Assert(spanHi[y] < spanLo[x] || spanHi[x] < spanLo[y], "C17:plugin functions of two loads never interleave")
		}
	}
	cur := first
	last := -1
	for _, li := range infos[infos0:] {
		sym.Assert(li.oldM == cur, "C17:each load sees the previous one's result")
		if !li.veto {
			cur = li.newM
			last = li.order
			sym.Cover("published")
		} else {
			sym.Cover("vetoed")
		}
	}
	_ = last
	sym.Assert(w.sw.Current() == cur, "C17:the last successful load is current")
	sym.Assert(w.sw.ReloadCounter() == cnt0+nOK, "C14:ReloadCounter counts successful reloads")
	for _, r := range results {
		sym.Assert(!r.panicked, "C03:no panic escapes")
	}
	sym.Advance(6 * time.Minute)
	now := running(w.sw.Current())
	for _, i := range w.insts {
		if find(now, i) >= 0 {
			sym.Assert(i.n["OnFree"] == 0, "C04:a running plugin is not freed")
		} else if i.n["Export"] > 0 {
			sym.Assert(i.n["OnFree"] == 1, "C04:a replaced plugin is freed exactly once")
		}
	}
}

// use does what readers of a manager do.
func use(sw *hotswap.PluginManagerSwapper, m *hotswap.PluginManager) {
	for _, p := range m.Plugins() {
		_ = p.Name + p.Note
		for _, d := range p.Deps {
			_ = m.FindPlugin(d)
		}
	}
	if p := m.FindPlugin("ALPHA"); p != nil {
		_ = p.File
	}
	_ = len(m.Vault.LiveFuncs)
	m.InvokeEach("use")
	_ = sw.ReloadCounter()
	_ = sw.StaticLinkingMode()
}

// ConcurrentFree: the delayed free of a replaced manager falls into a later
// reload, or into the delayed free of the next one.
func ConcurrentFree()  { concurrentFree(1) }
func ConcurrentFree2() { concurrentFree(2) }

func concurrentFree(preempt int) {
	sym.MapOrders(0, 0)
	w := newWorld()
	veto := false
	w.swapper(hotswap.WithFreeDelay(15*time.Second), hotswap.WithReloadCallback(func(newM, oldM *hotswap.PluginManager) error {
		if w.before != nil {
			w.before("callback", nil)
		}
		if veto {
			return errCb1
		}
		return nil
	}))
	bravo := func(ver string) {
		w.put(&build{name: "Bravo", ver: ver, reloadable: true})
	}
	alpha := func(ver string) {
		w.put(&build{name: "alpha", ver: ver, reloadable: true, imports: func(*inst) any { return &struct{ BRAVO any }{} }})
	}
	alpha("1")
	bravo("1")
	if r := w.load(0); r.err != nil {
		return
	}
	m0 := w.sw.Current()
	a1, b1 := who(m0.FindPlugin("alpha")), who(m0.FindPlugin("bravo"))
	sym.Advance(time.Second)
	alpha("2")
	if r := w.reload(0); r.err != nil {
		return
	}
	m1 := w.sw.Current()
	a2 := who(m1.FindPlugin("alpha"))
	// 15 s later a1 and what else is left of m0 is freed
	sym.Advance(time.Second)
	alpha("3")
	keptB := false
	switch sym.Choice("Bravo", 3) {
	case 0:
		keptB = true
	case 1:
		bravo("2")
	case 2:
		w.del("Bravo")
		w.put(&build{name: "alpha", ver: "3b", reloadable: true})
	}
	veto = sym.Choice("veto", 2) == 1
	wait := sym.Choice("when", 5)   // what lasts until m0 is freed
	long := sym.Choice("OnFree", 2) // does the first OnFree last until m1 is freed?
	slow := []string{"", "open", "OnInit", "callback", "before"}[wait]
	inLoad := false
	next := make(chan bool)
	cur := func() []*inst { return running(w.sw.Current()) }
	w.before = func(fn string, i *inst) {
		if fn == "OnFree" {
			sym.Assert(find(cur(), i) < 0, "C04:a running plugin is not freed")
			sym.Assert(i.n["OnFree"] == 1, "C04:nothing is freed twice")
			if i == a1 && long == 1 {
				if veto {
					time.Sleep(16 * time.Second)
				} else {
					<-next
				}
			}
			if i == a2 && long == 1 {
				close(next)
			}
		} else if fn == slow && inLoad {
			slow = ""
			time.Sleep(14 * time.Second)
		}
		sym.Point()
	}
	sym.Preempt(preempt)
	sym.Races("C17:no data race")
	if slow == "before" {
		time.Sleep(14 * time.Second)
	}
	inLoad = true
	r := w.reload(1)
	inLoad = false
	sym.Assert(!r.panicked && (r.err != nil) == veto, "C17:a reload fails exactly if it is vetoed")
	m2 := w.sw.Current()
	if veto {
		sym.Assert(m2 == m1, "C03:Current stays after a failed load")
		sym.Cover("vetoed")
	} else {
		sym.Cover("published")
	}
	time.Sleep(14500 * time.Millisecond) // all of m0 is freed, if its OnFree lets it, but not yet m1
	if !veto {
		sym.Assert(a2.n["OnFree"] == 0, "C04:a replaced plugin is not freed before its time")
	}
	time.Sleep(time.Minute)
	sym.Preempt(-1)
	w.before = nil
	sym.Assert(b1.n["OnFree"] == 0 || !keptB, "C04:a running plugin is not freed")
	sym.Assert(a1.n["OnFree"] == 1, "C04:a replaced plugin is freed exactly once")
	wantA2, wantB1 := 0, 0
	if !veto {
		wantA2 = 1
		if !keptB {
			wantB1 = 1
			sym.Cover("freed")
		}
	}
	sym.Assert(a2.n["OnFree"] == wantA2, "C04:a replaced plugin is freed exactly once")
	sym.Assert(b1.n["OnFree"] == wantB1, "C04:a replaced plugin is freed exactly once")
	now := cur()
	for _, i := range w.insts {
		if find(now, i) >= 0 {
			sym.Assert(i.n["OnFree"] == 0, "C04:a running plugin is not freed")
		} else if i.n["Export"] > 0 {
			sym.Assert(i.n["OnFree"] == 1, "C04:a replaced plugin is freed exactly once")
			sym.Assert(i.n["OnFree"] == 1, "C05:a failed load frees what it loaded once")
		}
	}
	// nobody has lost count: replace everything
	veto = false
	w.put(&build{name: "alpha", ver: "9", reloadable: true})
	w.put(&build{name: "Bravo", ver: "9", reloadable: true})
	r = w.reload(2)
	sym.Assert(r.err == nil, "C03:a later good reload succeeds")
	if r.err != nil {
		return
	}
	sym.Advance(time.Minute)
	now = cur()
	for _, i := range w.insts {
		if find(now, i) >= 0 {
			sym.Assert(i.n["OnFree"] == 0, "C04:a running plugin is not freed")
		} else if i.n["Export"] > 0 {
			sym.Assert(i.n["OnFree"] == 1, "C04:a replaced plugin is freed exactly once")
		}
	}
}
