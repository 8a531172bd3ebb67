package main

import (
	"fmt"
)

// Data races: vector clocks over the synchronisation the engine carries out,
// and the accesses of the repository's own code.

type vclock []int32

func (a *vclock) join(b vclock) {
	for len(*a) < len(b) {
		*a = append(*a, 0)
	}
	for i, x := range b {
		if x > (*a)[i] {
			(*a)[i] = x
		}
	}
}

func (a vclock) at(i int) int32 {
	if i < len(a) {
		return a[i]
	}
	return 0
}

type access struct {
	g   int
	at  int32
	pos string
}

type shadow struct{ r, w, ar, aw []access } // plain and atomic reads and writes

type raceState struct {
	label string
	cells map[any]*shadow
	syncs map[any]*vclock
	found map[string]bool
}

// startRaces begins to look for races; what went before happens before everything else.
func (m *machine) startRaces(label string) {
	m.race = &raceState{label: label, cells: map[any]*shadow{}, syncs: map[any]*vclock{}, found: map[string]bool{}}
	for _, g := range m.gs {
		g.vc = nil
	}
	m.assertProp(true, label)
}

func (m *machine) clock(g *gor) vclock {
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	if g.vc[g.id] == 0 {
		g.vc[g.id] = 1
	}
	return g.vc
}

func (m *machine) acquire(k any) {
	if m.race == nil {
		return
	}
	m.clock(m.cur)
	if s := m.race.syncs[k]; s != nil {
		m.cur.vc.join(*s)
	}
}

func (m *machine) release(k any) {
	if m.race == nil {
		return
	}
	c := m.clock(m.cur)
	s := m.race.syncs[k]
	if s == nil {
		s = new(vclock)
		m.race.syncs[k] = s
	}
	s.join(c)
	m.cur.vc[m.cur.id]++
}

func (m *machine) sync(k any) {
	if m.race != nil {
		m.acquire(k)
		m.release(k)
	}
}

func (m *machine) raceSpawn(parent, child *gor) {
	if m.race == nil || parent == nil {
		return
	}
	child.vc = append(vclock(nil), m.clock(parent)...)
	parent.vc[parent.id]++
}

func (m *machine) raceAccess(fr *frame, a value, write bool) {
	p, ok := a.(*value)
	if !ok || p == nil {
		return
	}
	m.raceCell(fr, p, write)
}

func (m *machine) raceCell(fr *frame, p *value, write bool) {
	var parts []value
	switch x := (*p).(type) {
	case structure:
		parts = x
	case array:
		parts = x
	default:
		m.raceKey(fr, p, write)
		return
	}
	for i := range parts {
		m.raceCell(fr, &parts[i], write)
	}
}

func (m *machine) raceKey(fr *frame, k any, write bool) {
	if g, ok := k.(*gomap); ok && g == nil {
		return
	}
	s := m.race.shadow(k)
	pos := fr.code.name
	m.conflict(s.w, pos, write)
	m.conflict(s.aw, pos, write)
	if write {
		m.conflict(s.r, pos, write)
		m.conflict(s.ar, pos, write)
		s.w = m.note(s.w, pos)
	} else {
		s.r = m.note(s.r, pos)
	}
}

// raceAtomic is an atomic access: it synchronises, and conflicts with plain ones.
func (m *machine) raceAtomic(p *value, write bool) {
	if m.race == nil || p == nil {
		return
	}
	s := m.race.shadow(p)
	m.acquire(p)
	m.conflict(s.w, "an atomic operation", write)
	if write {
		m.conflict(s.r, "an atomic operation", write)
		s.aw = m.note(s.aw, "an atomic operation")
		m.release(p)
	} else {
		s.ar = m.note(s.ar, "an atomic operation")
	}
}

func (r *raceState) shadow(k any) *shadow {
	s := r.cells[k]
	if s == nil {
		s = &shadow{}
		r.cells[k] = s
	}
	return s
}

func (m *machine) note(l []access, pos string) []access {
	c := m.clock(m.cur)
	for i := range l {
		if l[i].g == m.cur.id {
			l[i].at, l[i].pos = c[m.cur.id], pos
			return l
		}
	}
	return append(l, access{m.cur.id, c[m.cur.id], pos})
}

func (m *machine) conflict(l []access, pos string, write bool) {
	c := m.clock(m.cur)
	for _, x := range l {
		if x.g == m.cur.id || x.at <= c.at(x.g) {
			continue
		}
		a, b := x.pos, pos
		if a > b {
			a, b = b, a
		}
		t := fmt.Sprintf("%s and %s", a, b)
		if !m.race.found[t] {
			m.race.found[t] = true
			if m.ex.wants(m.race.label) {
				m.stats.asserts++
				m.ex.violation(m, m.race.label, m.md, t)
				panic(&abort{"stop", m.race.label})
			}
		}
	}
}
