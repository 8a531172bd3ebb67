package main

import (
	"fmt"
	"go/types"
	"sync"
)

type implKey struct {
	t types.Type
	i *types.Interface
}

var (
	implMu    sync.Mutex
	implCache = map[implKey]bool{}
)

// gomap is an insertion-ordered map; keys may be symbolic.
type gomap struct {
	gomapState
	epoch int
}

type gomapState struct {
	keys, vals []value // deleted entries have key tomb
	idx        map[any]int
	syms       int // number of symbolic keys
	n          int
}

type tombT struct{}

var tomb = tombT{}

func (m *machine) newMap() *gomap { return &gomap{epoch: m.epoch} }

func (g *gomap) length() int {
	if g == nil {
		return 0
	}
	return g.n
}

func (g *gomap) clear() { g.gomapState = gomapState{} }

func (g *gomap) restore(s gomapState) { g.gomapState = s; g.epoch = 0 }

// mapTouch saves the map's state before its first modification on this path.
func (m *machine) mapTouch(g *gomap) {
	if g.epoch == m.epoch || m.noUndo > 0 {
		return
	}
	m.undoM = append(m.undoM, undoMap{g, g.gomapState})
	s := g.gomapState
	s.keys = append([]value(nil), s.keys...)
	s.vals = append([]value(nil), s.vals...)
	if s.idx != nil {
		ni := make(map[any]int, len(s.idx))
		for k, v := range s.idx {
			ni[k] = v
		}
		s.idx = ni
	}
	g.gomapState = s
	g.epoch = m.epoch
}

type ifaceKey struct {
	t types.Type
	v any
}

type aggKey string

// hashKey gives a host-comparable key for concrete keys.
func (m *machine) hashKey(v value) (any, bool) {
	switch v := v.(type) {
	case int64, string, bool, float64, complex128, *value, *gochan, unsafePtr, native:
		return v, true
	case *Term, *symstr, *pendSel, *symptr:
		return nil, false
	case rtypeV:
		return v, true
	case iface:
		if v.t == nil {
			return ifaceKey{}, true
		}
		if !comparableT(v.t) {
			panic(m.runtimeError("hash of unhashable type " + v.t.String()))
		}
		k, ok := m.hashKey(v.v)
		if !ok {
			return nil, false
		}
		return ifaceKey{v.t, k}, true
	case structure:
		return m.aggHash(v)
	case array:
		return m.aggHash(v)
	}
	panic(m.abortf("unsupported", "map key %T", v))
}

type pairKey struct{ a, b any }

func (m *machine) aggHash(vs []value) (any, bool) {
	var k any = len(vs)
	for _, x := range vs {
		h, ok := m.hashKey(x)
		if !ok {
			return nil, false
		}
		k = pairKey{k, h}
	}
	return k, true
}

func (m *machine) mapFind(g *gomap, kt types.Type, k value) int {
	if g == nil {
		return -1
	}
	h, conc := m.hashKey(k)
	if conc {
		if i, ok := g.idx[h]; ok {
			return i
		}
		if g.syms == 0 {
			return -1
		}
	}
	for i, x := range g.keys {
		if x == value(tomb) {
			continue
		}
		if conc {
			if _, c := m.hashKey(x); c {
				continue
			}
		}
		if m.branch(fromBoolT(m.eq(kt, x, k))) {
			return i
		}
	}
	return -1
}

func (m *machine) mapGet(g *gomap, kt types.Type, k value) (value, bool) {
	i := m.mapFind(g, kt, k)
	if i < 0 {
		return nil, false
	}
	return g.vals[i], true
}

func (m *machine) mapSet(g *gomap, kt types.Type, k, v value) {
	i := m.mapFind(g, kt, k)
	m.mapTouch(g)
	if i >= 0 {
		g.vals[i] = v
		return
	}
	h, conc := m.hashKey(k)
	if conc {
		if g.idx == nil {
			g.idx = make(map[any]int)
		}
		g.idx[h] = len(g.keys)
	} else {
		g.syms++
	}
	g.keys = append(g.keys, k)
	g.vals = append(g.vals, v)
	g.n++
}

func (m *machine) mapDelete(g *gomap, kt types.Type, k value) {
	i := m.mapFind(g, kt, k)
	if i < 0 {
		return
	}
	m.mapTouch(g)
	h, conc := m.hashKey(g.keys[i])
	if conc {
		delete(g.idx, h)
	} else {
		g.syms--
	}
	g.keys[i] = tomb
	g.vals[i] = nil
	g.n--
}

type mapIter struct {
	g     *gomap
	order []int
	pos   int
	seen  int // entries known when the iteration started
}

func (m *machine) newMapIter(g *gomap, shuffle bool) *mapIter {
	it := &mapIter{g: g}
	if g == nil {
		return it
	}
	for i, k := range g.keys {
		if k != value(tomb) {
			it.order = append(it.order, i)
		}
	}
	it.seen = len(g.keys)
	if shuffle && len(it.order) > 1 {
		m.permute(it.order)
	}
	return it
}

// permute reorders o according to the map-order mode.
//
//	0: insertion order
//	1: one choice per path, {insertion, reverse} for all loops
//	2: as 1, plus per-loop deviations (any rotation, or reverse) within the budget
//	3: per-loop deviations to any permutation within the budget
func (m *machine) permute(o []int) {
	n := len(o)
	if m.mapMode == 0 {
		return
	}
	if m.mapMode == 1 || m.mapMode == 2 {
		if m.mapRev < 0 {
			m.mapRev = m.choose("maporder", 2)
		}
		if m.mapRev == 1 {
			for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
				o[i], o[j] = o[j], o[i]
			}
		}
	}
	if m.mapMode == 1 || m.mapDev <= 0 {
		return
	}
	if m.mapMode == 2 {
		k := m.choose("maporder", n+1)
		if k == 0 {
			return
		}
		m.mapDev--
		if k == n {
			for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
				o[i], o[j] = o[j], o[i]
			}
			return
		}
		r := append(append([]int(nil), o[k:]...), o[:k]...)
		copy(o, r)
		return
	}
	total := 1
	for i := 2; i <= n && total < 1000; i++ {
		total *= i
	}
	if total > 120 {
		panic(m.abortf("limit", "too many map orders (%d entries)", n))
	}
	k := m.choose("maporder", total)
	if k == 0 {
		return
	}
	m.mapDev--
	rest := append([]int(nil), o...)
	for i := 0; i < n; i++ {
		f := 1
		for j := 2; j <= n-1-i; j++ {
			f *= j
		}
		d := k / f
		k %= f
		o[i] = rest[d]
		rest = append(rest[:d:d], rest[d+1:]...)
	}
}

func (it *mapIter) next(m *machine) (value, value, bool) {
	if it.g == nil {
		return nil, nil, false
	}
	for {
		for it.pos < len(it.order) {
			i := it.order[it.pos]
			it.pos++
			if i < len(it.g.keys) && it.g.keys[i] != value(tomb) {
				return it.g.keys[i], it.g.vals[i], true
			}
		}
		// entries added during the iteration may or may not be visited: visit none
		return nil, nil, false
	}
}

var _ = fmt.Sprint
