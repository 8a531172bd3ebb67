package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The sym package: what harnesses use to talk to the engine.

const symPath = "github.com/edwingeng/hotswap/zzverif/sym"

func fullDom(w int) dom {
	var d dom
	n := uint64(2)
	if w > 0 {
		n = 1 << uint(w)
	}
	for i := uint64(0); i < n; i++ {
		d.set(i)
	}
	return d
}

func (m *machine) needName(v value) string {
	s, ok := conc(v)
	if !ok {
		panic(m.abortf("internal", "symbolic variable name"))
	}
	return s
}

func (m *machine) freshByte(name string, charset string) value {
	var d dom
	for i := 0; i < len(charset); i++ {
		d.set(uint64(charset[i]))
	}
	if len(charset) == 1 {
		m.record(name, uint64(charset[0]))
		return int64(charset[0])
	}
	return m.newVar(name, 8, d)
}

func regSym() {
	S := func(n string, f intrFn) { intrinsics[symPath+"."+n] = f }
	S("Bool", func(fr *frame, a []value) value {
		m := fr.m
		return m.newVar(m.uniq(m.needName(a[0])), 0, fullDom(0))
	})
	S("Int", func(fr *frame, a []value) value { // Int(name, n): 0 <= x < n, n <= 256
		m := fr.m
		n := asInt(a[1])
		name := m.uniq(m.needName(a[0]))
		if n <= 1 {
			m.record(name, 0)
			return int64(0)
		}
		if n > 256 {
			panic(m.abortf("internal", "sym.Int range"))
		}
		var d dom
		for i := int64(0); i < n; i++ {
			d.set(uint64(i))
		}
		t := m.newVar(name, 8, d)
		return fromBVT(m.tt.resize(t, 64, false), ikind{64, true})
	})
	S("Int64", func(fr *frame, a []value) value { // Int64(name, lo, hi)
		m := fr.m
		name := m.uniq(m.needName(a[0]))
		lo, hi := asInt(a[1]), asInt(a[2])
		if fx := m.p.cfg.fixed; fx != nil {
			if x, ok := fx[name]; ok && int64(x) >= lo && int64(x) <= hi {
				return int64(x)
			}
			return lo
		}
		t := m.tt.v(name, 64)
		m.varByI[t.id] = t
		if _, ok := m.md[name]; !ok {
			m.md[name] = uint64(lo)
		}
		c := m.tt.and(m.tt.cmp(tSle, m.tt.bv(64, uint64(lo)), t), m.tt.cmp(tSle, t, m.tt.bv(64, uint64(hi))))
		m.assertPC(c)
		return t
	})
	S("Choice", func(fr *frame, a []value) value { // concretised at once: one path per value
		return int64(fr.m.choose(fr.m.needName(a[0]), int(asInt(a[1]))))
	})
	S("Byte", func(fr *frame, a []value) value {
		m := fr.m
		return m.freshByte(m.uniq(m.needName(a[0])), m.needName(a[1]))
	})
	S("String", func(fr *frame, a []value) value { // String(name, n, charset): exactly n bytes
		m := fr.m
		name := m.uniq(m.needName(a[0]))
		n := int(asInt(a[1]))
		cs := m.needName(a[2])
		b := make([]value, n)
		for i := range b {
			b[i] = m.freshByte(m.uniq(fmt.Sprintf("%s[%d]", name, i)), cs)
		}
		return mkString(b)
	})
	S("Assume", func(fr *frame, a []value) value { fr.m.assume(a[0]); return nil })
	S("Undecided", func(fr *frame, a []value) value {
		panic(fr.m.abortf("unsupported", "%s", fr.m.needName(a[0])))
	})
	S("Assert", func(fr *frame, a []value) value {
		fr.m.assertProp(a[0], fr.m.needName(a[1]))
		return nil
	})
	S("Cover", func(fr *frame, a []value) value { fr.m.covers[fr.m.needName(a[0])] = true; return nil })
	S("CoverIf", func(fr *frame, a []value) value {
		// marks the cover if the condition can hold on this path
		m := fr.m
		t := m.foldDomain(m.toBoolT(a[0]))
		if t == m.tt.tF {
			return nil
		}
		if t != m.tt.tT && m.evalMD(t) == 0 {
			if res, _ := m.query(t); res != "sat" {
				return nil
			}
		}
		m.covers[m.needName(a[1])] = true
		return nil
	})
	S("And", func(fr *frame, a []value) value {
		r := fr.m.tt.tT
		for _, x := range varargs(a[0]) {
			r = fr.m.tt.and(r, fr.m.toBoolT(x))
		}
		return fromBoolT(r)
	})
	S("Or", func(fr *frame, a []value) value {
		r := fr.m.tt.tF
		for _, x := range varargs(a[0]) {
			r = fr.m.tt.or(r, fr.m.toBoolT(x))
		}
		return fromBoolT(r)
	})
	S("Not", func(fr *frame, a []value) value { return fromBoolT(fr.m.tt.not(fr.m.toBoolT(a[0]))) })
	S("Implies", func(fr *frame, a []value) value {
		return fromBoolT(fr.m.tt.or(fr.m.tt.not(fr.m.toBoolT(a[0])), fr.m.toBoolT(a[1])))
	})
	S("Iff", func(fr *frame, a []value) value {
		return fromBoolT(fr.m.tt.eq(fr.m.toBoolT(a[0]), fr.m.toBoolT(a[1])))
	})
	S("EqStr", func(fr *frame, a []value) value { return fromBoolT(fr.m.strEq(a[0], a[1])) })
	S("EqInt", func(fr *frame, a []value) value {
		return fromBoolT(fr.m.tt.eq(fr.m.toBV(a[0], 64), fr.m.toBV(a[1], 64)))
	})
	S("MapOrders", func(fr *frame, a []value) value { // MapOrders(mode, deviations)
		fr.m.mapMode, fr.m.mapDev = int(asInt(a[0])), int(asInt(a[1]))
		return nil
	})
	S("Preempt", func(fr *frame, a []value) value { // explore schedules with at most n preemptions
		n := int(asInt(a[0]))
		fr.m.sched, fr.m.preempt = n >= 0, n
		return nil
	})
	S("Races", func(fr *frame, a []value) value { fr.m.startRaces(fr.m.needName(a[0])); return nil })
	S("Yield", func(fr *frame, a []value) value { fr.m.yieldAll(); return nil })
	S("Advance", func(fr *frame, a []value) value { // let virtual time pass, running whatever becomes due
		m := fr.m
		m.yieldAll()
		m.sleep(a[0])
		m.yieldAll()
		return nil
	})
	S("Now", func(fr *frame, a []value) value { return fr.m.now })
	S("Point", func(fr *frame, a []value) value { fr.m.schedPoint(); return nil })
	S("Native", ret(false))
	S("Tier", func(fr *frame, a []value) value { return int64(fr.m.p.cfg.tier) })
	S("Prop", func(fr *frame, a []value) value { return fr.m.p.cfg.prop })
	S("IsSymbolic", func(fr *frame, a []value) value {
		switch v := a[0].(iface).v.(type) {
		case *Term, *symstr:
			return true
		case *value, int64, string, bool:
			_ = v
		}
		return false
	})
	S("Concrete", func(fr *frame, a []value) value { // forks until the string is concrete
		b := strBytes(a[0])
		out := make([]value, len(b))
		for i, x := range b {
			out[i] = fr.m.concretize(x, ikind{8, false})
		}
		return mkString(out)
	})
	S("ConcreteInt", func(fr *frame, a []value) value { return fr.m.concretize(a[0], ikind{64, true}) })
	S("Log", func(fr *frame, a []value) value {
		if fr.m.p.cfg.verbose {
			f := &fmtState{fr: fr, m: fr.m}
			f.print(varargs(a[0]), true)
			s, ok := conc(mkString(f.out))
			if !ok {
				s = "(symbolic)\n"
			}
			fmt.Print("LOG ", s)
		}
		return nil
	})
	// CatchExit(f): runs f; os.Exit inside it ends f with its code (-1: returned normally).
	S("CatchExit", func(fr *frame, a []value) (res value) {
		m := fr.m
		cl := a[0].(*closure)
		top := fr.g.top
		g := fr.g
		m.side[exitScope] = true
		defer func() {
			if r := recover(); r != nil {
				code := 2
				switch r := r.(type) {
				case *exitSignal:
					code = r.code
				case *crashSignal, *targetPanic:
				case *abort:
					if r.kind != "deadlock" {
						panic(r)
					}
				default:
					panic(r)
				}
				// every other goroutine dies with the process
				g.top = top
				m.killOthersOf(g)
				res = int64(code)
			}
		}()
		m.callClosure(fr, cl, nil)
		return int64(-1)
	})
	S("CallMain", func(fr *frame, a []value) value { // the main function of the hotswap command
		sp := fr.m.p.byPath[modPath+"/cli/hotswap"]
		if sp == nil || sp.Func("main") == nil {
			panic(fr.m.abortf("unsupported", "the hotswap command has no main function"))
		}
		m := fr.m
		if m.side["main"] != nil {
			m.freshGlobals(fr, modPath+"/cli/hotswap") // a new process
		}
		m.side["main"] = true
		m.callFunction(fr, sp.Func("main"), nil, nil)
		return nil
	})
	S("KillOthers", func(fr *frame, a []value) value { fr.m.killOthersOf(fr.g); return nil })
	S("ImportObj", func(fr *frame, a []value) value {
		// ImportObj(fields []Field) any; Field{Name, Tag string; Anonymous bool; Type any}
		m := fr.m
		fs := a[0].([]value)
		key := ""
		var ts []types.Type
		var sy []synthField
		for _, f := range fs {
			s := f.(structure)
			ti := s[3].(iface)
			// Type is a pointer to a variable of the wanted type
			pt, ok := ti.t.Underlying().(*types.Pointer)
			if !ok {
				panic(m.abortf("internal", "ImportObj: Type must be a pointer"))
			}
			t := canon(pt.Elem())
			ts = append(ts, t)
			canonMu.RLock()
			key += fmt.Sprintf("%d,", typeIDs[t])
			canonMu.RUnlock()
			sy = append(sy, synthField{s[0], s[1], s[2]})
		}
		nth, _ := m.side["synth:"+key].(int)
		m.side["synth:"+key] = nth + 1
		st := m.p.synthType(fmt.Sprintf("%s#%d", key, nth), ts)
		m.side[synthKey{st}] = sy
		p := new(value)
		*p = zero(st)
		return iface{canon(types.NewPointer(st)), p}
	})
	S("SetFailure", func(fr *frame, a []value) value { return nil })
	S("FieldOf", func(fr *frame, a []value) value { // FieldOf(obj any, i int) any
		i := a[0].(iface)
		st := i.t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		n := int(asInt(a[1]))
		v := (*i.v.(*value)).(structure)[n]
		ft := canon(st.Field(n).Type())
		if _, ok := ft.Underlying().(*types.Interface); ok {
			return v
		}
		return iface{ft, copyVal(v)}
	})
}

var exitScope = new(int)

func (m *machine) killOthersOf(self *gor) {
	var keep []*gor
	for _, g := range m.gs {
		if g != self && g != m.g0 && !g.done {
			g.wake <- 1
			<-g.gone
			continue
		}
		keep = append(keep, g)
	}
	m.gs = keep
	m.cur = self
	m.side[sleepersKey] = []*sleeper(nil)
}

func (p *program) synthType(key string, ts []types.Type) *types.Struct {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.synths == nil {
		p.synths = map[string]*types.Struct{}
	}
	if s, ok := p.synths[key]; ok {
		return s
	}
	var vars []*types.Var
	for i, t := range ts {
		vars = append(vars, types.NewField(token.NoPos, nil, fmt.Sprintf("F%d_%d", len(p.synths), i), t, false))
	}
	s := types.NewStruct(vars, nil)
	p.synths[key] = s
	return s
}

var _ = sort.Strings
var _ = strings.Contains

// freshGlobals initialises the packages at or below path anew.
func (m *machine) freshGlobals(fr *frame, path string) {
	under := func(p *ssa.Package) bool {
		return p != nil && (p.Pkg.Path() == path || strings.HasPrefix(p.Pkg.Path(), path+"/"))
	}
	m.p.mu.Lock()
	globs := append([]*ssa.Global(nil), m.p.globs...)
	m.p.mu.Unlock()
	for i, g := range globs {
		if i < len(m.globals) && m.globals[i] != nil && under(g.Pkg) {
			i, old := i, m.globals[i]
			m.undoF = append(m.undoF, func() { m.globals[i] = old })
			m.globals[i] = nil
		}
	}
	for _, p := range m.p.eager {
		if under(p) {
			if fn := p.Func("init"); fn != nil {
				m.callFunction(fr, fn, nil, nil)
			}
		}
	}
}
