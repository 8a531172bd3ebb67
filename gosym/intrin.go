package main

import (
	"crypto/sha1"
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"path"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type intrFn = func(fr *frame, args []value) value

var intrinsics map[string]intrFn

// fastpaths run natively when their arguments are concrete; otherwise the real body is interpreted.
var fastpaths map[string]func(fr *frame, args []value) (value, bool)

var globalInit map[string]func(m *machine) value

func asInt(v value) int64 { return v.(int64) }

func conc(v value) (string, bool) {
	s, ok := v.(string)
	return s, ok
}

func concBytes(v value) ([]byte, bool) {
	s, ok := v.([]value)
	if !ok {
		return nil, false
	}
	out := make([]byte, len(s))
	for i, x := range s {
		n, ok := x.(int64)
		if !ok {
			return nil, false
		}
		out[i] = byte(n)
	}
	return out, true
}

func bytesVal(b []byte) value {
	if b == nil {
		return []value(nil)
	}
	s := make([]value, len(b))
	for i, c := range b {
		s[i] = byteVals[c]
	}
	return s
}

func strsVal(a []string) value {
	if a == nil {
		return []value(nil)
	}
	s := make([]value, len(a))
	for i, x := range a {
		s[i] = x
	}
	return s
}

func (m *machine) errorVal(msg string) value {
	// *errors.errorString
	t := m.p.typ("errors", "errorString")
	p := new(value)
	*p = structure{msg}
	return iface{canon(types.NewPointer(t)), p}
}

func (p *program) typ(pkg, name string) types.Type {
	sp := p.byPath[pkg]
	if sp == nil {
		panic(&abort{"internal", "package not loaded: " + pkg})
	}
	o := sp.Pkg.Scope().Lookup(name)
	if o == nil {
		panic(&abort{"internal", "no type " + pkg + "." + name})
	}
	return o.Type()
}

func nop(fr *frame, a []value) value { return nil }

func ret(v value) intrFn { return func(*frame, []value) value { return v } }

// seqOf gives the elements of a string or byte slice.
func seqOf(v value) []value {
	if s, ok := v.([]value); ok {
		return s
	}
	return strBytes(v)
}

func (m *machine) seqEqTerm(a, b []value) *Term {
	if len(a) != len(b) {
		return m.tt.tF
	}
	r := m.tt.tT
	for i := range a {
		r = m.tt.and(r, m.eq(nil, a[i], b[i]))
		if r == m.tt.tF {
			return r
		}
	}
	return m.foldDomain(r)
}

func (m *machine) seqIndex(s, sub []value) int {
	for i := 0; i+len(sub) <= len(s); i++ {
		if m.branch(fromBoolT(m.seqEqTerm(s[i:i+len(sub)], sub))) {
			return i
		}
	}
	return -1
}

func (m *machine) seqContains(s, sub []value) value {
	r := m.tt.tF
	for i := 0; i+len(sub) <= len(s); i++ {
		r = m.tt.or(r, m.seqEqTerm(s[i:i+len(sub)], sub))
		if r == m.tt.tT {
			break
		}
	}
	return fromBoolT(r)
}

func (m *machine) isASCII(b []value) bool {
	for _, x := range b {
		switch x := x.(type) {
		case int64:
			if x >= 0x80 {
				return false
			}
		case *Term:
			if !m.branch(fromBoolT(m.tt.cmp(tUlt, x, m.tt.bv(8, 0x80)))) {
				return false
			}
		}
	}
	return true
}

func (m *machine) lowerByte(x value, lo, hi byte, delta int) value {
	switch x := x.(type) {
	case int64:
		if byte(x) >= lo && byte(x) <= hi {
			return int64(int(x) + delta)
		}
		return x
	case *Term:
		in := m.foldDomain(m.tt.and(m.tt.cmp(tUle, m.tt.bv(8, uint64(lo)), x), m.tt.cmp(tUle, x, m.tt.bv(8, uint64(hi)))))
		return fromBVT(m.tt.ite(in, m.tt.bin(tAdd, x, m.tt.bv(8, uint64(delta))), x), ikind{8, false})
	}
	panic("lowerByte")
}

func (m *machine) caseMap(v value, upper bool) (value, bool) {
	b := strBytes(v)
	if !m.isASCII(b) {
		return nil, false
	}
	out := make([]value, len(b))
	for i, x := range b {
		if upper {
			out[i] = m.lowerByte(x, 'a', 'z', -32)
		} else {
			out[i] = m.lowerByte(x, 'A', 'Z', 32)
		}
	}
	return mkString(out), true
}

// atomicInt builds the add/load/store/cas/swap family.
func regAtomic(name string, k ikind) {
	pre := "sync/atomic."
	intrinsics[pre+"Add"+name] = func(fr *frame, a []value) value {
		m := fr.m
		m.schedPoint()
		p := m.ptr(a[0])
		if p == nil {
			panic(m.nilDeref())
		}
		m.raceAtomic(p, true)
		n := m.addInt(*p, a[1], k)
		m.store(p, n)
		return n
	}
	for _, op := range []string{"And", "Or"} {
		op := op
		intrinsics[pre+op+name] = func(fr *frame, a []value) value {
			m := fr.m
			m.schedPoint()
			p := m.ptr(a[0])
			m.raceAtomic(p, true)
			old := *p
			if op == "And" {
				m.store(p, old.(int64)&a[1].(int64))
			} else {
				m.store(p, old.(int64)|a[1].(int64))
			}
			return old
		}
	}
}

func atomicLoad(fr *frame, a []value) value {
	m := fr.m
	m.schedPoint()
	p := m.ptr(a[0])
	if p == nil {
		panic(m.nilDeref())
	}
	m.raceAtomic(p, false)
	return *p
}

func atomicStore(fr *frame, a []value) value {
	m := fr.m
	m.schedPoint()
	p := m.ptr(a[0])
	if p == nil {
		panic(m.nilDeref())
	}
	m.raceAtomic(p, true)
	m.store(p, a[1])
	return nil
}

func atomicSwap(fr *frame, a []value) value {
	m := fr.m
	m.schedPoint()
	p := m.ptr(a[0])
	m.raceAtomic(p, true)
	old := *p
	m.store(p, a[1])
	return old
}

func atomicCAS(fr *frame, a []value) value {
	m := fr.m
	m.schedPoint()
	p := m.ptr(a[0])
	m.raceAtomic(p, true)
	if m.branch(fromBoolT(m.eq(nil, *p, a[1]))) {
		m.store(p, a[2])
		return true
	}
	return false
}

type mutexState struct {
	locked  bool
	readers int
}

func (m *machine) mutex(p value) *mutexState {
	k := muKey{m.ptr(p)}
	if k.p == nil {
		panic(m.nilDeref())
	}
	s, ok := m.side[k].(*mutexState)
	if !ok {
		s = &mutexState{}
		m.side[k] = s
	}
	return s
}

type muKey struct{ p *value }
type wgKey struct{ p *value }
type wgState struct{ n int64 }
type smKey struct{ p *value }
type poolKey struct{ p *value }
type onceKey struct{ p *value }

func regSync() {
	I := intrinsics
	lock := func(fr *frame, a []value) value {
		m := fr.m
		if m.initing > 0 {
			return nil
		}
		m.schedPoint()
		s := m.mutex(a[0])
		if s.locked || s.readers > 0 {
			m.blockUntil(func() bool { return !s.locked && s.readers == 0 })
		}
		s.locked = true
		m.acquire(s)
		return nil
	}
	unlock := func(fr *frame, a []value) value {
		m := fr.m
		if m.initing > 0 {
			return nil
		}
		s := m.mutex(a[0])
		if !s.locked {
			panic(m.abortf("crash", "sync: unlock of unlocked mutex"))
		}
		s.locked = false
		m.release(s)
		m.schedPoint()
		return nil
	}
	try := func(fr *frame, a []value) value {
		m := fr.m
		m.schedPoint()
		s := m.mutex(a[0])
		if s.locked || s.readers > 0 {
			return false
		}
		s.locked = true
		m.acquire(s)
		return true
	}
	for _, t := range []string{"(*sync.Mutex)", "(*internal/sync.Mutex)", "(*sync.RWMutex)"} {
		I[t+".Lock"], I[t+".Unlock"], I[t+".TryLock"] = lock, unlock, try
	}
	I["(*sync.RWMutex).RLock"] = func(fr *frame, a []value) value {
		m := fr.m
		if m.initing > 0 {
			return nil
		}
		m.schedPoint()
		s := m.mutex(a[0])
		if s.locked {
			m.blockUntil(func() bool { return !s.locked })
		}
		s.readers++
		m.acquire(s)
		return nil
	}
	I["(*sync.RWMutex).TryRLock"] = func(fr *frame, a []value) value {
		m := fr.m
		m.schedPoint()
		s := m.mutex(a[0])
		if s.locked {
			return false
		}
		s.readers++
		m.acquire(s)
		return true
	}
	I["(*sync.RWMutex).RUnlock"] = func(fr *frame, a []value) value {
		m := fr.m
		if m.initing > 0 {
			return nil
		}
		s := m.mutex(a[0])
		if s.readers <= 0 {
			panic(m.abortf("crash", "sync: RUnlock of unlocked RWMutex"))
		}
		s.readers--
		m.release(s)
		m.schedPoint()
		return nil
	}
	wg := func(m *machine, p value) *wgState {
		k := wgKey{m.ptr(p)}
		s, ok := m.side[k].(*wgState)
		if !ok {
			s = &wgState{}
			m.side[k] = s
		}
		return s
	}
	I["(*sync.WaitGroup).Add"] = func(fr *frame, a []value) value {
		s := wg(fr.m, a[0])
		s.n += asInt(a[1])
		if s.n < 0 {
			panic(fr.m.targetPanicf("sync: negative WaitGroup counter"))
		}
		fr.m.release(s)
		fr.m.schedPoint()
		return nil
	}
	I["(*sync.WaitGroup).Done"] = func(fr *frame, a []value) value {
		return I["(*sync.WaitGroup).Add"](fr, []value{a[0], int64(-1)})
	}
	I["(*sync.WaitGroup).Wait"] = func(fr *frame, a []value) value {
		s := wg(fr.m, a[0])
		fr.m.schedPoint()
		fr.m.blockUntil(func() bool { return s.n == 0 })
		fr.m.acquire(s)
		return nil
	}
	I["(*sync.WaitGroup).Go"] = func(fr *frame, a []value) value {
		s := wg(fr.m, a[0])
		s.n++
		f := a[1].(*closure)
		p := a[0]
		fr.m.spawn(&closure{nam: "wg.Go", nat: func(fr *frame, _ []value) value {
			fr.m.callClosure(fr, f, nil)
			return I["(*sync.WaitGroup).Add"](fr, []value{p, int64(-1)})
		}}, nil)
		return nil
	}
	I["(*sync.Pool).Get"] = func(fr *frame, a []value) value {
		m := fr.m
		s := (*m.ptr(a[0])).(structure)
		nw := s[len(s)-1].(*closure) // New is the last field
		if nw == nil {
			return iface{}
		}
		return m.callClosure(fr, nw, nil)
	}
	I["(*sync.Pool).Put"] = nop
	sm := func(m *machine, p value) *gomap {
		k := smKey{m.ptr(p)}
		m.sync(k)
		g, ok := m.side[k].(*gomap)
		if !ok {
			if m.initing > 0 {
				g, ok = m.baseMaps[k.p]
				if !ok {
					g = m.newMap()
					m.baseMaps[k.p] = g
				}
			} else if b, okb := m.baseMaps[k.p]; okb {
				g = b
			} else {
				g = m.newMap()
			}
			m.side[k] = g
		}
		return g
	}
	I["(*sync.Map).Load"] = func(fr *frame, a []value) value {
		v, ok := fr.m.mapGet(sm(fr.m, a[0]), nil, a[1])
		if !ok {
			v = iface{}
		}
		return tuple{v, ok}
	}
	I["(*sync.Map).Store"] = func(fr *frame, a []value) value {
		fr.m.mapSet(sm(fr.m, a[0]), nil, a[1], a[2])
		return nil
	}
	I["(*sync.Map).LoadOrStore"] = func(fr *frame, a []value) value {
		g := sm(fr.m, a[0])
		if v, ok := fr.m.mapGet(g, nil, a[1]); ok {
			return tuple{v, true}
		}
		fr.m.mapSet(g, nil, a[1], a[2])
		return tuple{a[2], false}
	}
	I["(*sync.Map).LoadAndDelete"] = func(fr *frame, a []value) value {
		g := sm(fr.m, a[0])
		v, ok := fr.m.mapGet(g, nil, a[1])
		if !ok {
			return tuple{iface{}, false}
		}
		fr.m.mapDelete(g, nil, a[1])
		return tuple{v, true}
	}
	I["(*sync.Map).Delete"] = func(fr *frame, a []value) value {
		fr.m.mapDelete(sm(fr.m, a[0]), nil, a[1])
		return nil
	}
	I["(*sync.Map).Range"] = func(fr *frame, a []value) value {
		it := fr.m.newMapIter(sm(fr.m, a[0]), false)
		for {
			k, v, ok := it.next(fr.m)
			if !ok {
				return nil
			}
			if !fr.m.branch(fr.m.callClosure(fr, a[1].(*closure), []value{k, v})) {
				return nil
			}
		}
	}
	// sync.Cond
	I["(*sync.Cond).Wait"] = func(fr *frame, a []value) value {
		m := fr.m
		s := (*m.ptr(a[0])).(structure)
		var l iface
		for _, f := range s {
			if i, ok := f.(iface); ok {
				l = i
			}
		}
		k := muKey{m.ptr(a[0])}
		q, _ := m.side[k].(*[]*bool)
		if q == nil {
			q = new([]*bool)
			m.side[k] = q
		}
		flag := new(bool)
		*q = append(*q, flag)
		m.callClosure(fr, m.methodByName(l.t, nil, "Unlock"), []value{l.v})
		m.blockUntil(func() bool { return *flag })
		m.sync(k)
		m.callClosure(fr, m.methodByName(l.t, nil, "Lock"), []value{l.v})
		return nil
	}
	sig := func(all bool) intrFn {
		return func(fr *frame, a []value) value {
			q, _ := fr.m.side[muKey{fr.m.ptr(a[0])}].(*[]*bool)
			fr.m.sync(muKey{fr.m.ptr(a[0])})
			if q == nil {
				return nil
			}
			for len(*q) > 0 {
				*(*q)[0] = true
				*q = (*q)[1:]
				if !all {
					break
				}
			}
			fr.m.schedPoint()
			return nil
		}
	}
	I["(*sync.Cond).Signal"], I["(*sync.Cond).Broadcast"] = sig(false), sig(true)
	for _, x := range []struct {
		n string
		k ikind
	}{{"Int32", ikind{32, true}}, {"Int64", ikind{64, true}}, {"Uint32", ikind{32, false}}, {"Uint64", ikind{64, false}}, {"Uintptr", ikind{64, false}}} {
		regAtomic(x.n, x.k)
		I["sync/atomic.Load"+x.n] = atomicLoad
		I["sync/atomic.Store"+x.n] = atomicStore
		I["sync/atomic.Swap"+x.n] = atomicSwap
		I["sync/atomic.CompareAndSwap"+x.n] = atomicCAS
	}
	I["sync/atomic.LoadPointer"] = atomicLoad
	I["sync/atomic.StorePointer"] = atomicStore
	I["sync/atomic.SwapPointer"] = atomicSwap
	I["sync/atomic.CompareAndSwapPointer"] = atomicCAS
	// atomic.Value: the only field holds the interface
	I["(*sync/atomic.Value).Load"] = func(fr *frame, a []value) value {
		fr.m.schedPoint()
		f := &(*fr.m.ptr(a[0])).(structure)[0]
		fr.m.raceAtomic(f, false)
		return *f
	}
	I["(*sync/atomic.Value).Store"] = func(fr *frame, a []value) value {
		m := fr.m
		m.schedPoint()
		f := &(*m.ptr(a[0])).(structure)[0]
		m.raceAtomic(f, true)
		n := a[1].(iface)
		if n.t == nil {
			panic(m.targetPanicf("sync/atomic: store of nil value into Value"))
		}
		if o := (*f).(iface); o.t != nil && o.t != n.t {
			panic(m.targetPanicf("sync/atomic: store of inconsistently typed value into Value"))
		}
		m.store(f, n)
		return nil
	}
	I["(*sync/atomic.Value).Swap"] = func(fr *frame, a []value) value {
		m := fr.m
		m.schedPoint()
		f := &(*m.ptr(a[0])).(structure)[0]
		m.raceAtomic(f, true)
		old := *f
		m.store(f, a[1])
		return old
	}
	I["(*sync/atomic.Value).CompareAndSwap"] = func(fr *frame, a []value) value {
		m := fr.m
		m.schedPoint()
		f := &(*m.ptr(a[0])).(structure)[0]
		m.raceAtomic(f, true)
		if m.branch(fromBoolT(m.eq(nil, *f, a[1]))) {
			m.store(f, a[2])
			return true
		}
		return false
	}
	// atomic.Pointer[T]: last field holds an unsafe.Pointer; keep the typed pointer in it
	last := func(m *machine, p value) *value {
		q := m.ptr(p)
		if q == nil {
			panic(m.nilDeref())
		}
		s := (*q).(structure)
		return &s[len(s)-1]
	}
	unw := func(v value) value {
		if u, ok := v.(unsafePtr); ok {
			if u.v == nil {
				return (*value)(nil)
			}
			return u.v
		}
		return v
	}
	I["(*sync/atomic.Pointer[T]).Load"] = func(fr *frame, a []value) value {
		fr.m.schedPoint()
		fr.m.raceAtomic(last(fr.m, a[0]), false)
		return unw(*last(fr.m, a[0]))
	}
	I["(*sync/atomic.Pointer[T]).Store"] = func(fr *frame, a []value) value {
		fr.m.schedPoint()
		fr.m.raceAtomic(last(fr.m, a[0]), true)
		fr.m.store(last(fr.m, a[0]), unsafePtr{a[1]})
		return nil
	}
	I["(*sync/atomic.Pointer[T]).Swap"] = func(fr *frame, a []value) value {
		fr.m.schedPoint()
		f := last(fr.m, a[0])
		fr.m.raceAtomic(f, true)
		old := unw(*f)
		fr.m.store(f, unsafePtr{a[1]})
		return old
	}
	I["(*sync/atomic.Pointer[T]).CompareAndSwap"] = func(fr *frame, a []value) value {
		fr.m.schedPoint()
		f := last(fr.m, a[0])
		fr.m.raceAtomic(f, true)
		if unw(*f) == a[1] {
			fr.m.store(f, unsafePtr{a[2]})
			return true
		}
		return false
	}
	for _, n := range []string{"sync.runtime_registerPoolCleanup", "sync.runtime_notifyListCheck", "sync.throw", "sync.fatal"} {
		I[n] = nop
	}
}

const baseUnix = 1700000000

func regMisc() {
	I := intrinsics
	// time
	I["time.Now"] = func(fr *frame, a []value) value {
		m := fr.m
		m.ticks++
		ns := m.ticks * 1000003
		if n, ok := m.now.(int64); ok {
			ns += n
		}
		// as the runtime does it: wall seconds since 1885 and a monotonic reading
		sec := int64(baseUnix) + ns/1e9 + 62135596800 - 59453308800
		return structure{int64(uint64(1)<<63 | uint64(sec)<<30 | uint64(ns%1e9)), m.now, (*value)(nil)}
	}
	monoDiff := func(swap bool) func(fr *frame, a []value) value {
		return func(fr *frame, a []value) value {
			m := fr.m
			x := m.now
			t := a[0].(structure)
			if w, ok := t[0].(int64); !ok || w >= 0 { // no monotonic reading
				panic(m.abortf("unsupported", "time.Since of a time without a monotonic reading"))
			}
			y := t[1]
			if swap {
				x, y = y, x
			}
			if p, ok := x.(int64); ok {
				if q, ok := y.(int64); ok {
					return p - q
				}
			}
			return fromBVT(m.tt.bin(tSub, m.toBV(x, 64), m.toBV(y, 64)), ikind{64, true})
		}
	}
	I["time.Since"] = monoDiff(false)
	I["time.Until"] = monoDiff(true)
	I["time.runtimeNano"] = func(fr *frame, a []value) value { fr.m.ticks++; return fr.m.ticks * 1000003 }
	I["time.runtimeNow"] = func(fr *frame, a []value) value {
		fr.m.ticks++
		return tuple{int64(baseUnix), int64(0), fr.m.ticks * 1000003}
	}
	I["time.Sleep"] = func(fr *frame, a []value) value {
		fr.m.sleep(a[0])
		return nil
	}
	type timerState struct {
		gen  int
		live bool
	}
	tkey := func(m *machine, p value) any { return muKey{m.ptr(p)} }
	start := func(fr *frame, t *value, d value, fire func(fr *frame)) {
		m := fr.m
		k := tkey(m, t)
		st, _ := m.side[k].(*timerState)
		if st == nil {
			st = &timerState{}
			m.side[k] = st
		}
		st.gen++
		st.live = true
		gen := st.gen
		m.spawn(&closure{nam: "timer", nat: func(fr *frame, _ []value) value {
			fr.m.sleep(d)
			if st.live && st.gen == gen {
				st.live = false
				fire(fr)
			}
			return nil
		}}, nil)
	}
	type timerFire struct{ p *value }
	mk := func(fr *frame, d value, c *gochan, f *closure) *value {
		t := new(value)
		*t = zero(fr.m.p.typ("time", "Timer"))
		if c != nil {
			(*t).(structure)[0] = c
		}
		fire := func(fr *frame) {
			if f != nil {
				fr.m.callClosure(fr, f, nil)
			} else {
				fr.m.trySend(c, I["time.Now"](fr, nil))
			}
		}
		fr.m.side[timerFire{t}] = fire
		start(fr, t, d, fire)
		return t
	}
	I["time.AfterFunc"] = func(fr *frame, a []value) value { return mk(fr, a[0], nil, a[1].(*closure)) }
	tch := func(fr *frame) *gochan {
		z := fr.m.p.typ("time", "Time")
		return &gochan{cap: 1, zero: func() value { return zero(z) }}
	}
	I["time.NewTimer"] = func(fr *frame, a []value) value { return mk(fr, a[0], tch(fr), nil) }
	I["time.After"] = func(fr *frame, a []value) value {
		c := tch(fr)
		mk(fr, a[0], c, nil)
		return c
	}
	I["(*time.Timer).Stop"] = func(fr *frame, a []value) value {
		st, _ := fr.m.side[tkey(fr.m, a[0])].(*timerState)
		if st == nil {
			return false
		}
		was := st.live
		st.live = false
		return was
	}
	I["(*time.Timer).Reset"] = func(fr *frame, a []value) value {
		st, _ := fr.m.side[tkey(fr.m, a[0])].(*timerState)
		was := st != nil && st.live
		fire := fr.m.side[timerFire{fr.m.ptr(a[0])}].(func(fr *frame))
		start(fr, fr.m.ptr(a[0]), a[1], fire)
		return was
	}

	// runtime
	I["runtime.GC"], I["runtime.KeepAlive"], I["runtime.SetFinalizer"] = nop, nop, nop
	I["runtime.Gosched"] = func(fr *frame, a []value) value {
		if fr.m.initing == 0 {
			fr.m.schedPoint()
			for _, g := range fr.m.runnable(fr.m.cur) {
				if !fr.m.sched {
					fr.m.switchTo(g)
					break
				}
			}
		}
		return nil
	}
	I["runtime.NumCPU"] = ret(int64(1))
	I["runtime.GOROOT"] = ret("/usr/local/go")
	I["runtime.GOMAXPROCS"] = ret(int64(8))
	I["runtime.NumGoroutine"] = func(fr *frame, a []value) value { return int64(len(fr.m.gs)) }
	I["runtime.Caller"] = ret(tuple{int64(0), "file.go", int64(1), true})
	I["runtime.Callers"] = ret(int64(0))
	I["runtime.Version"] = ret("go1.27")
	I["runtime/debug.Stack"] = func(fr *frame, a []value) value { return bytesVal([]byte("<stack>")) }
	I["runtime/debug.PrintStack"] = nop
	I["runtime/debug.SetGCPercent"] = ret(int64(100))
	I["runtime/debug.ReadBuildInfo"] = ret(tuple{(*value)(nil), false})
	I["(runtime.errorString).Error"] = func(fr *frame, a []value) value {
		return strConcat("runtime error: ", a[0])
	}
	I["(runtime.errorString).RuntimeError"] = nop
	I["runtime.SetFinalizer"] = nop
	I["internal/godebug.New"] = func(fr *frame, a []value) value {
		p := new(value)
		*p = zero(fr.m.p.typ("internal/godebug", "Setting"))
		return p
	}
	I["(*internal/godebug.Setting).Value"] = ret("")
	I["(*internal/godebug.Setting).Name"] = ret("")
	I["(*internal/godebug.Setting).IncNonDefault"] = nop
	I["internal/godebug.setUpdate"] = nop
	I["internal/godebug.registerMetric"] = nop
	I["internal/godebug.setNewIncNonDefault"] = nop
	I["internal/abi.NoEscape"] = func(fr *frame, a []value) value { return a[0] }
	I["internal/abi.Escape[T]"] = func(fr *frame, a []value) value { return a[0] }
	I["internal/abi.FuncPCABI0"] = ret(int64(0))
	I["internal/abi.FuncPCABIInternal"] = ret(int64(0))
	I["internal/race.Acquire"], I["internal/race.Release"], I["internal/race.ReleaseMerge"] = nop, nop, nop
	I["(*strings.Builder).copyCheck"] = nop
	I["strings.Clone"] = func(fr *frame, a []value) value { return a[0] }
	I["internal/stringslite.Clone"] = func(fr *frame, a []value) value { return a[0] }
	I["(*os.File).checkValid"] = nop

	// math
	f1 := func(f func(float64) float64) intrFn {
		return func(fr *frame, a []value) value { return f(a[0].(float64)) }
	}
	I["math.Sqrt"], I["math.Floor"], I["math.Ceil"], I["math.Trunc"] = f1(math.Sqrt), f1(math.Floor), f1(math.Ceil), f1(math.Trunc)
	I["math.Abs"], I["math.Log"], I["math.Log2"], I["math.Exp"], I["math.Log10"] = f1(math.Abs), f1(math.Log), f1(math.Log2), f1(math.Exp), f1(math.Log10)
	I["math.Float64bits"] = func(fr *frame, a []value) value { return int64(math.Float64bits(a[0].(float64))) }
	I["math.Float64frombits"] = func(fr *frame, a []value) value { return math.Float64frombits(uint64(asInt(a[0]))) }
	I["math.Float32bits"] = func(fr *frame, a []value) value { return int64(math.Float32bits(float32(a[0].(float64)))) }
	I["math.Float32frombits"] = func(fr *frame, a []value) value {
		return float64(math.Float32frombits(uint32(asInt(a[0]))))
	}
	I["math/bits.Len64"] = func(fr *frame, a []value) value {
		return int64(bits.Len64(uint64(fr.m.concretize(a[0], ikind{64, false}))))
	}

	// bytealg
	I["internal/bytealg.IndexByte"] = func(fr *frame, a []value) value {
		return int64(fr.m.seqIndex(seqOf(a[0]), []value{a[1]}))
	}
	I["internal/bytealg.IndexByteString"] = I["internal/bytealg.IndexByte"]
	I["internal/bytealg.Index"] = func(fr *frame, a []value) value {
		return int64(fr.m.seqIndex(seqOf(a[0]), seqOf(a[1])))
	}
	I["internal/bytealg.IndexString"] = I["internal/bytealg.Index"]
	I["strings.Index"], I["bytes.Index"], I["internal/stringslite.Index"] = I["internal/bytealg.Index"], I["internal/bytealg.Index"], I["internal/bytealg.Index"]
	I["strings.IndexByte"], I["bytes.IndexByte"], I["internal/stringslite.IndexByte"] = I["internal/bytealg.IndexByte"], I["internal/bytealg.IndexByte"], I["internal/bytealg.IndexByte"]
	lastIdx := func(fr *frame, a []value) value {
		s, sub := seqOf(a[0]), []value(nil)
		if n, ok := a[1].(int64); ok {
			sub = []value{n}
		} else if t, ok := a[1].(*Term); ok {
			sub = []value{t}
		} else {
			sub = seqOf(a[1])
		}
		for i := len(s) - len(sub); i >= 0; i-- {
			if fr.m.branch(fromBoolT(fr.m.seqEqTerm(s[i:i+len(sub)], sub))) {
				return int64(i)
			}
		}
		return int64(-1)
	}
	for _, n := range []string{"internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString", "strings.LastIndex", "bytes.LastIndex", "strings.LastIndexByte", "bytes.LastIndexByte"} {
		I[n] = lastIdx
	}
	cnt := func(fr *frame, a []value) value {
		n := int64(0)
		for _, x := range seqOf(a[0]) {
			if fr.m.branch(fromBoolT(fr.m.eq(nil, x, a[1]))) {
				n++
			}
		}
		return n
	}
	I["internal/bytealg.Count"], I["internal/bytealg.CountString"] = cnt, cnt
	I["internal/bytealg.Equal"] = func(fr *frame, a []value) value { return fromBoolT(fr.m.seqEqTerm(seqOf(a[0]), seqOf(a[1]))) }
	I["bytes.Equal"] = I["internal/bytealg.Equal"]
	cmp := func(fr *frame, a []value) value {
		m := fr.m
		x, y := mkString(seqOf(a[0])), mkString(seqOf(a[1]))
		if m.branch(fromBoolT(m.strEq(x, y))) {
			return int64(0)
		}
		if m.branch(fromBoolT(m.strLess(x, y, false))) {
			return int64(-1)
		}
		return int64(1)
	}
	for _, n := range []string{"internal/bytealg.Compare", "internal/bytealg.CompareString", "bytes.Compare", "strings.Compare", "internal/bytealg.abigen_runtime_cmpstring", "runtime.cmpstring"} {
		I[n] = cmp
	}
	I["internal/bytealg.MakeNoZero"] = func(fr *frame, a []value) value {
		n := fr.m.concretize(a[0], ikind{64, true})
		s := make([]value, n)
		for i := range s {
			s[i] = int64(0)
		}
		return s
	}
	contains := func(fr *frame, a []value) value { return fr.m.seqContains(seqOf(a[0]), seqOf(a[1])) }
	I["strings.Contains"], I["bytes.Contains"] = contains, contains
	I["hash/maphash.MakeSeed"] = ret(structure{int64(1)})

	// path condition free string comparison helpers
	I["strings.EqualFold"] = func(fr *frame, a []value) value {
		x, ok1 := conc(a[0])
		y, ok2 := conc(a[1])
		if ok1 && ok2 {
			return strings.EqualFold(x, y)
		}
		m := fr.m
		lx, ok1 := m.caseMap(a[0], false)
		ly, ok2 := m.caseMap(a[1], false)
		if !ok1 || !ok2 {
			panic(m.abortf("unsupported", "EqualFold of symbolic non-ASCII strings"))
		}
		return fromBoolT(m.strEq(lx, ly))
	}

	// crypto
	I["crypto/sha1.Sum"] = func(fr *frame, a []value) value {
		b, ok := concBytes(a[0])
		if ok {
			s := sha1.Sum(b)
			return array(bytesVal(s[:]).([]value))
		}
		return fr.m.opaqueHash("sha1", a[0].([]value), 20)
	}
	I["github.com/pierrec/xxHash/xxHash32.Checksum"] = func(fr *frame, a []value) value {
		return fr.m.xx32(a[0].([]value), a[1])
	}
	I["os.Getpid"] = ret(int64(4242))
	I["os.runtime_beforeExit"] = nop
	I["os.Exit"] = func(fr *frame, a []value) value {
		panic(&exitSignal{int(fr.m.concretize(a[0], ikind{64, true}))})
	}
	I["runtime.Goexit"] = func(fr *frame, a []value) value {
		panic(fr.m.abortf("unsupported", "runtime.Goexit"))
	}
	I["os/signal.Notify"], I["os/signal.Reset"], I["os/signal.Stop"], I["os/signal.Ignore"] = nop, nop, nop, nop // cli_engine.go replaces two of them
	I["syscall.prlimit1"], I["syscall.prlimit"], I["syscall.Getrlimit"], I["syscall.Setrlimit"] = ret(iface{}), ret(iface{}), ret(iface{}), ret(iface{})
	I["syscall.Getpagesize"] = ret(int64(4096))
	I["syscall.runtime_envs"] = ret([]value(nil))
	I["os.runtime_args"] = ret([]value{})
	I["os.NewFile"] = func(fr *frame, a []value) value {
		p := new(value)
		*p = zero(fr.m.p.typ("os", "File"))
		return p
	}
	I["golang.org/x/sys/unix.init"] = nop
	I["internal/testlog.Getenv"], I["internal/testlog.Open"], I["internal/testlog.Stat"] = nop, nop, nop
	I["internal/syscall/unix.fcntl"] = ret(tuple{int64(0), int64(0)})
	I["internal/poll.runtime_Semrelease"], I["internal/poll.runtime_Semacquire"] = nop, nop

	I["math/rand.Intn"], I["math/rand.Int63"], I["math/rand.Int"] = ret(int64(0)), ret(int64(0)), ret(int64(0))

	// sort with closures
	sortSlice := func(fr *frame, a []value) value {
		m := fr.m
		s := a[0].(iface).v.([]value)
		less := a[1].(*closure)
		// insertion sort driven by the caller's less(i, j) on the live slice
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				if !m.branch(m.callClosure(fr, less, []value{int64(j), int64(j - 1)})) {
					break
				}
				x, y := copyVal(s[j]), copyVal(s[j-1])
				m.storeAgg(&s[j], y)
				m.storeAgg(&s[j-1], x)
			}
		}
		return nil
	}
	I["sort.Slice"], I["sort.SliceStable"] = sortSlice, sortSlice

	I["errors.New"] = func(fr *frame, a []value) value {
		t := canon(types.NewPointer(fr.m.p.typ("errors", "errorString")))
		p := new(value)
		*p = structure{a[0]}
		return iface{t, p}
	}
	I["unicode/utf8.ValidString"] = func(fr *frame, a []value) value {
		if s, ok := conc(a[0]); ok {
			return utf8.ValidString(s)
		}
		b := strBytes(a[0])
		if fr.m.isASCII(b) {
			return true
		}
		for len(b) > 0 {
			r, n := fr.m.decodeRune(b)
			if r == value(int64(utf8.RuneError)) && n == 1 {
				return false
			}
			b = b[n:]
		}
		return true
	}
	I["unicode/utf8.DecodeRuneInString"] = func(fr *frame, a []value) value {
		b := seqOf(a[0])
		if len(b) == 0 {
			return tuple{int64(utf8.RuneError), int64(0)}
		}
		r, n := fr.m.decodeRune(b)
		return tuple{r, int64(n)}
	}
	I["unicode/utf8.DecodeRune"] = I["unicode/utf8.DecodeRuneInString"]
	I["slices.overlaps[E]"] = ret(false)
	I["strings.overlaps"] = ret(false)
}

type hashRec struct {
	in  []value
	out array
}

// opaqueHash models a cryptographic hash injectively: equal inputs give equal
// outputs, different inputs different ones.
func (m *machine) opaqueHash(name string, in []value, n int) value {
	key := "hash:" + name
	recs, _ := m.side[key].([]hashRec)
	for _, r := range recs {
		if m.branch(fromBoolT(m.seqEqTerm(r.in, in))) {
			return copyVal(r.out)
		}
	}
	out := make(array, n)
	id := len(recs) + 1
	for i := range out {
		out[i] = int64(0)
	}
	out[0], out[1], out[n-1] = int64(0xEE), int64(id), int64(id)
	m.side[key] = append(recs, hashRec{append([]value(nil), in...), out})
	return copyVal(out)
}

func (m *machine) xx32(in []value, seed value) value {
	b, ok := concBytes(in)
	if ok {
		// model: injective on the inputs of this path
		key := "xx32"
		recs, _ := m.side[key].(map[string]int64)
		if recs == nil {
			recs = map[string]int64{}
			m.side[key] = recs
		}
		k := string(b)
		if v, ok := recs[k]; ok {
			return v
		}
		v := int64(0xA0000000 + len(recs))
		recs[k] = v
		return v
	}
	panic(m.abortf("unsupported", "xxHash32 of symbolic bytes"))
}

func regFast() {
	F := fastpaths
	s1 := func(f func(string) value) func(fr *frame, a []value) (value, bool) {
		return func(fr *frame, a []value) (value, bool) {
			if s, ok := conc(a[0]); ok {
				return f(s), true
			}
			return nil, false
		}
	}
	s2 := func(f func(a, b string) value) func(fr *frame, a []value) (value, bool) {
		return func(fr *frame, a []value) (value, bool) {
			if s, ok := conc(a[0]); ok {
				if t, ok := conc(a[1]); ok {
					return f(s, t), true
				}
			}
			return nil, false
		}
	}
	F["strings.ToLower"] = func(fr *frame, a []value) (value, bool) {
		if s, ok := conc(a[0]); ok {
			return strings.ToLower(s), true
		}
		return fr.m.caseMap(a[0], false)
	}
	F["strings.ToUpper"] = func(fr *frame, a []value) (value, bool) {
		if s, ok := conc(a[0]); ok {
			return strings.ToUpper(s), true
		}
		return fr.m.caseMap(a[0], true)
	}
	F["strings.TrimSpace"] = s1(func(s string) value { return strings.TrimSpace(s) })
	F["strings.Fields"] = s1(func(s string) value { return strsVal(strings.Fields(s)) })
	F["path/filepath.Clean"] = s1(func(s string) value { return filepath.Clean(s) })
	F["internal/filepathlite.Clean"] = F["path/filepath.Clean"]
	F["path/filepath.Base"] = s1(func(s string) value { return filepath.Base(s) })
	F["path/filepath.Dir"] = s1(func(s string) value { return filepath.Dir(s) })
	F["path/filepath.Ext"] = s1(func(s string) value { return filepath.Ext(s) })
	F["path.Base"] = s1(func(s string) value { return path.Base(s) })
	F["path.Dir"] = s1(func(s string) value { return path.Dir(s) })
	F["path.Clean"] = s1(func(s string) value { return path.Clean(s) })
	F["strconv.Quote"] = s1(func(s string) value { return strconv.Quote(s) })
	F["strings.Split"] = s2(func(s, t string) value { return strsVal(strings.Split(s, t)) })
	F["strings.TrimSuffix"] = s2(func(s, t string) value { return strings.TrimSuffix(s, t) })
	F["strings.TrimPrefix"] = s2(func(s, t string) value { return strings.TrimPrefix(s, t) })
	F["strings.HasPrefix"] = s2(func(s, t string) value { return strings.HasPrefix(s, t) })
	F["strings.HasSuffix"] = s2(func(s, t string) value { return strings.HasSuffix(s, t) })
	F["strings.Trim"] = s2(func(s, t string) value { return strings.Trim(s, t) })
	F["strings.TrimLeft"] = s2(func(s, t string) value { return strings.TrimLeft(s, t) })
	F["strings.TrimRight"] = s2(func(s, t string) value { return strings.TrimRight(s, t) })
	F["strings.Count"] = s2(func(s, t string) value { return int64(strings.Count(s, t)) })
	F["strings.Index"] = s2(func(s, t string) value { return int64(strings.Index(s, t)) })
	F["strings.LastIndex"] = s2(func(s, t string) value { return int64(strings.LastIndex(s, t)) })
	F["strings.Contains"] = s2(func(s, t string) value { return strings.Contains(s, t) })
	F["strings.IndexAny"] = s2(func(s, t string) value { return int64(strings.IndexAny(s, t)) })
	F["strings.ContainsAny"] = s2(func(s, t string) value { return strings.ContainsAny(s, t) })
	F["internal/bytealg.IndexString"] = F["strings.Index"]
	F["internal/stringslite.Index"] = F["strings.Index"]
	F["strings.ReplaceAll"] = func(fr *frame, a []value) (value, bool) {
		x, ok1 := conc(a[0])
		y, ok2 := conc(a[1])
		z, ok3 := conc(a[2])
		if ok1 && ok2 && ok3 {
			return strings.ReplaceAll(x, y, z), true
		}
		return nil, false
	}
	F["strings.Repeat"] = func(fr *frame, a []value) (value, bool) {
		x, ok1 := conc(a[0])
		n, ok2 := a[1].(int64)
		if ok1 && ok2 && n >= 0 {
			return strings.Repeat(x, int(n)), true
		}
		return nil, false
	}
	F["strings.Join"] = func(fr *frame, a []value) (value, bool) {
		var out value = ""
		for i, x := range a[0].([]value) {
			if i > 0 {
				out = strConcat(out, a[1])
			}
			out = strConcat(out, x)
		}
		return out, true
	}
	join := func(sep func(...string) string) func(fr *frame, a []value) (value, bool) {
		return func(fr *frame, a []value) (value, bool) {
			var parts []string
			for _, x := range a[0].([]value) {
				s, ok := conc(x)
				if !ok {
					return nil, false
				}
				parts = append(parts, s)
			}
			return sep(parts...), true
		}
	}
	F["path/filepath.Join"] = join(filepath.Join)
	F["path.Join"] = join(path.Join)
	F["sort.Strings"] = func(fr *frame, a []value) (value, bool) {
		s := a[0].([]value)
		var h []string
		for _, x := range s {
			c, ok := conc(x)
			if !ok {
				return nil, false
			}
			h = append(h, c)
		}
		sort.Strings(h)
		for i := range h {
			fr.m.store(&s[i], h[i])
		}
		return nil, true
	}
	F["unicode.IsUpper"] = func(fr *frame, a []value) (value, bool) {
		if n, ok := a[0].(int64); ok {
			return unicode.IsUpper(rune(n)), true
		}
		return nil, false
	}
	F["unicode.IsLetter"] = func(fr *frame, a []value) (value, bool) {
		if n, ok := a[0].(int64); ok {
			return unicode.IsLetter(rune(n)), true
		}
		return nil, false
	}
	F["unicode.IsDigit"] = func(fr *frame, a []value) (value, bool) {
		if n, ok := a[0].(int64); ok {
			return unicode.IsDigit(rune(n)), true
		}
		return nil, false
	}
	F["unicode.IsSpace"] = func(fr *frame, a []value) (value, bool) {
		if n, ok := a[0].(int64); ok {
			return unicode.IsSpace(rune(n)), true
		}
		return nil, false
	}
	F["strconv.Itoa"] = func(fr *frame, a []value) (value, bool) {
		if n, ok := a[0].(int64); ok {
			return strconv.FormatInt(n, 10), true
		}
		return nil, false
	}
}

func setupIntrinsics() {
	intrinsics = map[string]intrFn{}
	fastpaths = map[string]func(fr *frame, args []value) (value, bool){}
	globalInit = map[string]func(m *machine) value{}
	regSync()
	regMisc()
	regFast()
	regFmt()
	regReflect()
	regSym()
	regRegexp()
	regTemplate()
	for n, f := range fastpaths { // symbolic-aware versions win when the fast path declines
		if in, ok := intrinsics[n]; ok {
			f := f
			intrinsics[n] = func(fr *frame, a []value) value {
				if v, ok := f(fr, a); ok {
					return v
				}
				return in(fr, a)
			}
			delete(fastpaths, n)
		}
	}
	globalInit["os.Stdin"] = newFileCell
	globalInit["os.Stdout"] = newFileCell
	globalInit["os.Stderr"] = newFileCell
	globalInit["os.Args"] = func(*machine) value { return []value{"prog"} }
	for _, n := range []string{"internal/cpu.X86", "internal/cpu.CacheLineSize"} {
		_ = n
	}
	globalInit["golang.org/x/sys/cpu.X86"] = nil
	delete(globalInit, "golang.org/x/sys/cpu.X86")
}

func newFileCell(m *machine) value {
	p := new(value)
	*p = zero(m.p.typ("os", "File"))
	return p
}

var _ = ssa.NaiveForm
var _ = fmt.Sprint
