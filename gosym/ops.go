package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// ---- memory

func (m *machine) ptr(v value) *value {
	switch v := v.(type) {
	case *value:
		return v
	case *symptr:
		return m.resolvePtr(v)
	case unsafePtr:
		if v.v == nil {
			return nil
		}
		return m.ptr(v.v)
	}
	panic(m.abortf("unsupported", "pointer of kind %T\n%s", v, m.where()))
}

func (m *machine) resolvePtr(p *symptr) *value {
	i := m.concretize(p.idx, ikind{64, true})
	return &p.s[i]
}

func (m *machine) load(a value) value {
	switch p := a.(type) {
	case *value:
		if p == nil {
			panic(m.nilDeref())
		}
		return copyVal(*p)
	case *symptr:
		return m.loadSym(p)
	}
	p := m.ptr(a)
	if p == nil {
		panic(m.nilDeref())
	}
	return copyVal(*p)
}

func (m *machine) storeTo(a, v value) {
	p := m.ptr(a)
	if p == nil {
		panic(m.nilDeref())
	}
	m.storeAgg(p, v)
}

// storeAgg writes through p; a struct or array keeps its place, so that
// pointers to its parts stay valid.
func (m *machine) storeAgg(p *value, v value) {
	var dst, src []value
	switch x := v.(type) {
	case structure:
		if o, ok := (*p).(structure); ok && len(o) == len(x) {
			dst, src = o, x
		}
	case array:
		if o, ok := (*p).(array); ok && len(o) == len(x) {
			dst, src = o, x
		}
	default:
		m.store(p, v)
		return
	}
	if dst == nil {
		m.store(p, copyVal(v))
		return
	}
	for i, x := range src {
		m.storeAgg(&dst[i], x)
	}
}

// index checks bounds; it returns a concrete index or a symbolic one known to be in range.
func (m *machine) index(iv value, k ikind, n int) (int, *Term) {
	switch i := iv.(type) {
	case int64:
		if i < 0 && k.signed || uint64(i) >= uint64(n) {
			panic(m.runtimeError(fmt.Sprintf("index out of range [%d] with length %d", i, n)))
		}
		return int(i), nil
	case *Term:
		t := m.tt.resize(i, 64, k.signed)
		if !m.branch(fromBoolT(m.tt.cmp(tUlt, t, m.tt.bv(64, uint64(n))))) {
			panic(m.runtimeError(fmt.Sprintf("index out of range with length %d", n)))
		}
		if t.op == tConst {
			return int(t.n), nil
		}
		return 0, t
	}
	panic(fmt.Sprintf("index: %T", iv))
}

func (m *machine) loadSym(p *symptr) value {
	if v, ok := m.trySelect(p.s, p.idx); ok {
		return v
	}
	return copyVal(*m.resolvePtr(p))
}

func (m *machine) selectAt(s []value, idx *Term) value {
	if v, ok := m.trySelect(s, idx); ok {
		return v
	}
	return s[m.concretize(idx, ikind{64, true})]
}

// trySelect builds an ite over scalar elements.
func (m *machine) trySelect(s []value, idx *Term) (value, bool) {
	if len(s) == 0 || len(s) > 512 {
		return nil, false
	}
	// possible indexes
	var cand []int
	if v := m.smallVar(idx); v != nil {
		d := m.doms[v.id]
		seen := map[uint64]bool{}
		memo := map[int]uint64{}
		for i := uint64(0); i < 256; i++ {
			if d.has(i) {
				clear(memo)
				n := model{v.name: i}.eval(idx, memo)
				if n < uint64(len(s)) && !seen[n] {
					seen[n] = true
					cand = append(cand, int(n))
				}
			}
		}
	} else {
		for i := range s {
			cand = append(cand, i)
		}
	}
	if len(cand) == 0 {
		return nil, false
	}
	w := -1
	for _, i := range cand {
		switch x := s[i].(type) {
		case int64:
			if w == 0 {
				return nil, false
			}
			if w < 0 {
				w = 64
			}
		case bool:
			if w > 0 {
				return nil, false
			}
			w = 0
		case *Term:
			if w >= 0 && w != x.w && !(w == 64 && x.w > 0) {
				return nil, false
			}
			if x.w == 0 {
				w = 0
			} else {
				w = x.w
			}
		default:
			return nil, false
		}
	}
	for _, i := range cand { // terms decide the width; constants adapt
		if x, ok := s[i].(*Term); ok && x.w > 0 {
			w = x.w
		}
	}
	conv := func(v value) *Term {
		if w == 0 {
			return m.toBoolT(v)
		}
		return m.toBV(v, w)
	}
	allConst := true
	for _, i := range cand {
		if _, ok := s[i].(*Term); ok {
			allConst = false
		}
	}
	if w == 64 && allConst {
		// element width unknown: constants of a narrower type are represented
		// extended, so a narrow term is needed; find the smallest standard width
		// is not possible without the type. Use typed selection instead.
		return m.selectConst(s, cand, idx)
	}
	r := conv(s[cand[len(cand)-1]])
	for j := len(cand) - 2; j >= 0; j-- {
		i := cand[j]
		r = m.tt.ite(m.tt.eq(idx, m.tt.bv(idx.w, uint64(i))), conv(s[i]), r)
	}
	if w == 0 {
		return fromBoolT(r), true
	}
	return r, true
}

// selectConst returns a pending selection whose width is fixed by the consumer.
func (m *machine) selectConst(s []value, cand []int, idx *Term) (value, bool) {
	same := true
	for _, i := range cand {
		if s[i] != s[cand[0]] {
			same = false
		}
	}
	if same {
		return s[cand[0]], true
	}
	return &pendSel{s, cand, idx}, true
}

// pendSel is a table lookup with a symbolic index whose element width is not known yet.
type pendSel struct {
	s    []value
	cand []int
	idx  *Term
}

func (m *machine) fixSel(v value, k ikind) value {
	p, ok := v.(*pendSel)
	if !ok {
		return v
	}
	r := m.tt.bv(k.w, uint64(p.s[p.cand[len(p.cand)-1]].(int64)))
	for j := len(p.cand) - 2; j >= 0; j-- {
		i := p.cand[j]
		r = m.tt.ite(m.tt.eq(p.idx, m.tt.bv(p.idx.w, uint64(i))), m.tt.bv(k.w, uint64(p.s[i].(int64))), r)
	}
	return fromBVT(r, k)
}

// ---- binary operators

func (c *compiler) binop(in *ssa.BinOp) opd {
	x, y := c.opd(in.X), c.opd(in.Y)
	t := in.X.Type()
	op := in.Op
	if op == token.EQL || op == token.NEQ {
		return c.eqop(in, x, y)
	}
	if ik, ok := intKind(t); ok {
		return c.intop(in, ik, x, y)
	}
	if isString(t) {
		switch op {
		case token.ADD:
			return func(fr *frame) value { return strConcat(x(fr), y(fr)) }
		case token.LSS:
			return func(fr *frame) value { return fromBoolT(fr.m.strLess(x(fr), y(fr), false)) }
		case token.LEQ:
			return func(fr *frame) value { return fromBoolT(fr.m.strLess(x(fr), y(fr), true)) }
		case token.GTR:
			return func(fr *frame) value { return fromBoolT(fr.m.strLess(y(fr), x(fr), false)) }
		case token.GEQ:
			return func(fr *frame) value { return fromBoolT(fr.m.strLess(y(fr), x(fr), true)) }
		}
	}
	if isFloat(t) {
		return func(fr *frame) value {
			a, b := x(fr).(float64), y(fr).(float64)
			switch op {
			case token.ADD:
				return roundFloat(t, a+b)
			case token.SUB:
				return roundFloat(t, a-b)
			case token.MUL:
				return roundFloat(t, a*b)
			case token.QUO:
				return roundFloat(t, a/b)
			case token.LSS:
				return a < b
			case token.LEQ:
				return a <= b
			case token.GTR:
				return a > b
			case token.GEQ:
				return a >= b
			}
			panic("float op")
		}
	}
	if isComplex(t) {
		return func(fr *frame) value {
			a, b := x(fr).(complex128), y(fr).(complex128)
			switch op {
			case token.ADD:
				return a + b
			case token.SUB:
				return a - b
			case token.MUL:
				return a * b
			case token.QUO:
				return a / b
			}
			panic("complex op")
		}
	}
	if isBool(t) {
		return func(fr *frame) value {
			a, b := fr.m.toBoolT(x(fr)), fr.m.toBoolT(y(fr))
			switch op {
			case token.AND, token.LAND:
				return fromBoolT(fr.m.tt.and(a, b))
			case token.OR, token.LOR:
				return fromBoolT(fr.m.tt.or(a, b))
			}
			panic("bool op")
		}
	}
	panic(fmt.Sprintf("binop %s on %s in %s", op, t, c.fn))
}

func (c *compiler) eqop(in *ssa.BinOp, x, y opd) opd {
	neg := in.Op == token.NEQ
	tx, ty := in.X.Type(), in.Y.Type()
	_, xi := tx.Underlying().(*types.Interface)
	_, yi := ty.Underlying().(*types.Interface)
	ik, isInt := intKind(tx)
	ctx, cty := canon(tx), canon(ty)
	return func(fr *frame) value {
		m := fr.m
		a, b := x(fr), y(fr)
		if isInt {
			if ai, ok := a.(int64); ok {
				if bi, ok := b.(int64); ok {
					return (ai == bi) != neg
				}
			}
			a, b = m.fixSel(a, ik), m.fixSel(b, ik)
		}
		if xi != yi { // mixed interface/concrete comparison
			if xi {
				b = iface{cty, b}
			} else {
				a = iface{ctx, a}
			}
		}
		// nil slices, maps and functions
		r := m.eq(tx, a, b)
		if neg {
			r = m.tt.not(r)
		}
		return fromBoolT(r)
	}
}

func (c *compiler) intop(in *ssa.BinOp, ik ikind, x, y opd) opd {
	op := in.Op
	fast := func(f func(a, b int64) value, slow func(m *machine, a, b value) value) opd {
		return func(fr *frame) value {
			av, bv := x(fr), y(fr)
			if a, ok := av.(int64); ok {
				if b, ok := bv.(int64); ok {
					return f(a, b)
				}
			}
			return slow(fr.m, fr.m.fixSel(av, ik), fr.m.fixSel(bv, ik))
		}
	}
	bvop := func(o top) func(m *machine, a, b value) value {
		return func(m *machine, a, b value) value {
			return fromBVT(m.tt.bin(o, m.toBV(a, ik.w), m.toBV(b, ik.w)), ik)
		}
	}
	cmpop := func(us, sg top, swap bool) func(m *machine, a, b value) value {
		o := us
		if ik.signed {
			o = sg
		}
		return func(m *machine, a, b value) value {
			if swap {
				a, b = b, a
			}
			return fromBoolT(m.foldDomain(m.tt.cmp(o, m.toBV(a, ik.w), m.toBV(b, ik.w))))
		}
	}
	sg := ik.signed
	switch op {
	case token.ADD:
		if ik.w == 64 {
			return fast(func(a, b int64) value { return a + b }, bvop(tAdd))
		}
		return fast(func(a, b int64) value { return ik.norm(a + b) }, bvop(tAdd))
	case token.SUB:
		return fast(func(a, b int64) value { return ik.norm(a - b) }, bvop(tSub))
	case token.MUL:
		return fast(func(a, b int64) value { return ik.norm(a * b) }, bvop(tMul))
	case token.QUO, token.REM:
		o := tUdiv
		switch {
		case op == token.QUO && sg:
			o = tSdiv
		case op == token.REM && sg:
			o = tSrem
		case op == token.REM:
			o = tUrem
		}
		slow := bvop(o)
		return func(fr *frame) value {
			av, bv := fr.m.fixSel(x(fr), ik), fr.m.fixSel(y(fr), ik)
			b, bc := bv.(int64)
			if bc && b == 0 {
				panic(fr.m.runtimeError("integer divide by zero"))
			}
			a, ac := av.(int64)
			if ac && bc {
				if sg {
					if b == -1 {
						if op == token.QUO {
							return ik.norm(-a)
						}
						return int64(0)
					}
					if op == token.QUO {
						return ik.norm(a / b)
					}
					return ik.norm(a % b)
				}
				if op == token.QUO {
					return ik.norm(int64(uint64(a) / uint64(b)))
				}
				return ik.norm(int64(uint64(a) % uint64(b)))
			}
			if !bc {
				bt := bv.(*Term)
				if fr.m.branch(fromBoolT(fr.m.tt.eq(bt, fr.m.tt.bv(bt.w, 0)))) {
					panic(fr.m.runtimeError("integer divide by zero"))
				}
			}
			return slow(fr.m, av, bv)
		}
	case token.AND:
		return fast(func(a, b int64) value { return a & b }, bvop(tBand))
	case token.OR:
		return fast(func(a, b int64) value { return a | b }, bvop(tBor))
	case token.XOR:
		return fast(func(a, b int64) value { return ik.norm(a ^ b) }, bvop(tBxor))
	case token.AND_NOT:
		return fast(func(a, b int64) value { return a &^ b }, func(m *machine, a, b value) value {
			nb := m.tt.bin(tBxor, m.toBV(b, ik.w), m.tt.bv(ik.w, mask(ik.w)))
			return fromBVT(m.tt.bin(tBand, m.toBV(a, ik.w), nb), ik)
		})
	case token.SHL, token.SHR:
		sk, _ := intKind(in.Y.Type())
		return func(fr *frame) value {
			av, bv := fr.m.fixSel(x(fr), ik), fr.m.fixSel(y(fr), sk)
			b, bc := bv.(int64)
			a, ac := av.(int64)
			if bc && sk.signed && b < 0 {
				panic(fr.m.runtimeError("negative shift amount"))
			}
			if bc && ac {
				n := uint64(b)
				if op == token.SHL {
					if n >= 64 {
						return int64(0)
					}
					return ik.norm(a << n)
				}
				if sg {
					if n >= 64 {
						n = 63
					}
					return a >> n
				}
				if n >= 64 {
					return int64(0)
				}
				return int64(uint64(a) >> n)
			}
			m := fr.m
			at := m.toBV(av, ik.w)
			var bt *Term
			if bc {
				n := uint64(b)
				if n > uint64(ik.w) {
					n = uint64(ik.w)
				}
				bt = m.tt.bv(ik.w, n)
			} else {
				bt0 := bv.(*Term)
				if sk.signed && m.branch(fromBoolT(m.tt.cmp(tSlt, bt0, m.tt.bv(bt0.w, 0)))) {
					panic(m.runtimeError("negative shift amount"))
				}
				if bt0.w > ik.w {
					big := m.tt.cmp(tUle, m.tt.bv(bt0.w, uint64(ik.w)), bt0)
					bt = m.tt.ite(big, m.tt.bv(ik.w, uint64(ik.w)), m.tt.resize(bt0, ik.w, false))
				} else {
					bt = m.tt.resize(bt0, ik.w, false)
				}
			}
			o := tShl
			if op == token.SHR {
				o = tLshr
				if sg {
					o = tAshr
				}
			}
			return fromBVT(m.tt.bin(o, at, bt), ik)
		}
	case token.LSS:
		if sg {
			return fast(func(a, b int64) value { return a < b }, cmpop(tUlt, tSlt, false))
		}
		return fast(func(a, b int64) value { return uint64(a) < uint64(b) }, cmpop(tUlt, tSlt, false))
	case token.LEQ:
		if sg {
			return fast(func(a, b int64) value { return a <= b }, cmpop(tUle, tSle, false))
		}
		return fast(func(a, b int64) value { return uint64(a) <= uint64(b) }, cmpop(tUle, tSle, false))
	case token.GTR:
		if sg {
			return fast(func(a, b int64) value { return a > b }, cmpop(tUlt, tSlt, true))
		}
		return fast(func(a, b int64) value { return uint64(a) > uint64(b) }, cmpop(tUlt, tSlt, true))
	case token.GEQ:
		if sg {
			return fast(func(a, b int64) value { return a >= b }, cmpop(tUle, tSle, true))
		}
		return fast(func(a, b int64) value { return uint64(a) >= uint64(b) }, cmpop(tUle, tSle, true))
	}
	panic("intop " + op.String())
}

// ---- conversions

func (c *compiler) convert(from, to types.Type, x opd) opd {
	return func(fr *frame) value { return fr.m.convert(from, to, x(fr)) }
}

func elemKind(t types.Type) (types.BasicKind, bool) {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return 0, false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	return b.Kind(), true
}

func (m *machine) convert(from, to types.Type, v value) value {
	if fk, ok := intKind(from); ok {
		v = m.fixSel(v, fk)
		if tk, ok := intKind(to); ok {
			switch v := v.(type) {
			case int64:
				return tk.norm(v)
			case *Term:
				return fromBVT(m.tt.resize(v, tk.w, fk.signed), tk)
			}
		}
		if isFloat(to) {
			n := m.concretize(v, fk)
			if fk.signed {
				return roundFloat(to, float64(n))
			}
			return roundFloat(to, float64(uint64(n)))
		}
		if isString(to) {
			if t, ok := v.(*Term); ok {
				ascii := m.tt.cmp(tUlt, m.tt.resize(t, 64, fk.signed), m.tt.bv(64, 0x80))
				if m.branch(fromBoolT(ascii)) {
					return mkString([]value{fromBVT(m.tt.resize(t, 8, false), ikind{8, false})})
				}
			}
			n := m.concretize(v, fk)
			if n < 0 || n > utf8.MaxRune {
				n = utf8.RuneError
			}
			return string(rune(n))
		}
		if b, ok := to.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			return unsafePtr{v}
		}
	}
	if isFloat(from) {
		f := v.(float64)
		if tk, ok := intKind(to); ok {
			if tk.signed {
				return tk.norm(int64(f))
			}
			if f >= 0 {
				return tk.norm(int64(uint64(f)))
			}
			return tk.norm(int64(f))
		}
		if isFloat(to) {
			return roundFloat(to, f)
		}
	}
	if isComplex(from) && isComplex(to) {
		return v
	}
	if isString(from) {
		if k, ok := elemKind(to); ok {
			if k == types.Uint8 {
				b := strBytes(v)
				if _, sym := v.(*symstr); sym {
					b = append([]value(nil), b...)
				}
				if b == nil {
					b = []value{}
				}
				return b
			}
			if k == types.Int32 {
				out := []value{}
				it := &strIter{s: v}
				for {
					r, n := it.rune(m)
					if n == 0 {
						return out
					}
					out = append(out, r)
				}
			}
		}
		if isString(to) {
			return v
		}
	}
	if k, ok := elemKind(from); ok && isString(to) {
		s := v.([]value)
		if k == types.Uint8 {
			return mkString(s)
		}
		if k == types.Int32 {
			var out value = ""
			for _, r := range s {
				out = strConcat(out, m.convert(types.Typ[types.Int32], types.Typ[types.String], r))
			}
			return out
		}
	}
	if b, ok := to.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return unsafePtr{v}
	}
	if b, ok := from.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		u := v.(unsafePtr)
		if tk, ok := intKind(to); ok {
			_ = tk
			if u.v == nil {
				return int64(0)
			}
			return int64(0x1000)
		}
		if u.v == nil {
			return zero(to)
		}
		if i, ok := u.v.(int64); ok && i == 0 {
			return zero(to)
		}
		return u.v
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	if _, ok := to.Underlying().(*types.Slice); ok {
		return v
	}
	if a, ok := to.Underlying().(*types.Array); ok {
		if s, ok := v.([]value); ok {
			if int64(len(s)) < a.Len() {
				panic(m.runtimeError("cannot convert slice to array: length too short"))
			}
			return copyVal(array(s[:a.Len()]))
		}
	}
	if _, ok := to.Underlying().(*types.Pointer); ok {
		return v
	}
	panic(m.abortf("unsupported", "conversion %s -> %s (%T)", from, to, v))
}

// ---- slicing

func (c *compiler) slice(in *ssa.Slice) opd {
	x := c.opd(in.X)
	var lo, hi, mx opd
	if in.Low != nil {
		lo = c.opd(in.Low)
	}
	if in.High != nil {
		hi = c.opd(in.High)
	}
	if in.Max != nil {
		mx = c.opd(in.Max)
	}
	k := ikind{64, true}
	return func(fr *frame) value {
		m := fr.m
		v := x(fr)
		var n, cp int
		var s []value
		str := false
		switch v := v.(type) {
		case string, *symstr:
			n = strLen(v)
			cp = n
			str = true
		case []value:
			s = v
			n, cp = len(v), cap(v)
		case *value:
			if v == nil {
				panic(m.nilDeref())
			}
			s = (*v).(array)
			n, cp = len(s), len(s)
			s = s[:n:n]
		default:
			panic(m.abortf("unsupported", "slice of %T", v))
		}
		l, h, mm := 0, n, cp
		if lo != nil {
			l = int(m.concretize(lo(fr), k))
		}
		if hi != nil {
			h = int(m.concretize(hi(fr), k))
		}
		if mx != nil {
			mm = int(m.concretize(mx(fr), k))
		}
		if l < 0 || h < l || h > mm || mm > cp {
			panic(m.runtimeError(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", l, h, cp)))
		}
		if str {
			return strSlice(v, l, h)
		}
		if s == nil {
			return []value(nil)
		}
		return s[l:h:mm]
	}
}

// ---- type assertions

func (m *machine) implements(t types.Type, it *types.Interface) bool {
	if it.NumMethods() == 0 {
		return true
	}
	k := implKey{t, it}
	implMu.Lock()
	b, ok := implCache[k]
	implMu.Unlock()
	if ok {
		return b
	}
	b = types.Implements(t, it)
	implMu.Lock()
	implCache[k] = b
	implMu.Unlock()
	return b
}

func (c *compiler) typeAssert(in *ssa.TypeAssert) opd {
	x := c.opd(in.X)
	to := canon(in.AssertedType)
	it, isI := to.Underlying().(*types.Interface)
	commaOk := in.CommaOk
	z := zeroFn(in.AssertedType)
	return func(fr *frame) value {
		m := fr.m
		i := x(fr).(iface)
		var v value
		ok := false
		if i.t != nil {
			if isI {
				if m.implements(i.t, it) {
					ok = true
					v = i
				}
			} else if i.t == to {
				ok = true
				v = copyVal(i.v)
			}
		}
		if commaOk {
			if !ok {
				v = z()
			}
			return tuple{v, ok}
		}
		if !ok {
			if i.t == nil {
				panic(m.runtimeError(fmt.Sprintf("interface conversion: interface is nil, not %s", to)))
			}
			panic(m.runtimeError(fmt.Sprintf("interface conversion: interface is %s, not %s", i.t, to)))
		}
		return v
	}
}

// ---- strings iteration

type strIter struct {
	s value
	i int
}

// rune decodes the next rune; size 0 at the end.
func (it *strIter) rune(m *machine) (value, int) {
	n := strLen(it.s)
	if it.i >= n {
		return nil, 0
	}
	if s, ok := it.s.(string); ok {
		r, w := utf8.DecodeRuneInString(s[it.i:])
		it.i += w
		return int64(r), w
	}
	r, w := m.decodeRune(it.s.(*symstr).b[it.i:])
	it.i += w
	return r, w
}

// decodeRune decodes the first rune of a non-empty byte sequence.
func (m *machine) decodeRune(b []value) (value, int) {
	if t, ok := b[0].(*Term); ok {
		if m.branch(fromBoolT(m.tt.cmp(tUlt, t, m.tt.bv(8, 0x80)))) {
			return fromBVT(m.tt.resize(t, 32, false), ikind{32, true}), 1
		}
	} else if n := b[0].(int64); n < 0x80 {
		return n, 1
	}
	var buf []byte
	for i := 0; i < len(b) && i < 4; i++ {
		buf = append(buf, byte(m.concretize(b[i], ikind{8, false})))
		if utf8.FullRune(buf) {
			break
		}
	}
	r, w := utf8.DecodeRune(buf)
	return int64(r), w
}

func (it *strIter) next(m *machine) value {
	i := it.i
	r, w := it.rune(m)
	if w == 0 {
		return tuple{false, int64(0), int64(0)}
	}
	return tuple{true, int64(i), r}
}

// ---- channels

type gochan struct {
	cap    int
	buf    []value
	closed bool
	zero   func() value
	// receivers waiting for an unbuffered send
	recvq []*chanWait
	sendq []*chanWait
}

type chanWait struct {
	g    *gor
	v    value
	ok   bool
	done bool
	sel  *selState
	idx  int
}

type selState struct {
	done bool
	idx  int
	v    value
	ok   bool
}

func (m *machine) chUndo(c *gochan) {
	if m.noUndo > 0 {
		return
	}
	k := chKey{c, m.epoch}
	if _, ok := m.side[k]; ok {
		return
	}
	m.side[k] = true
	buf := append([]value(nil), c.buf...)
	closed := c.closed
	m.undoF = append(m.undoF, func() { c.buf, c.closed, c.recvq, c.sendq = buf, closed, nil, nil })
}

type chKey struct {
	c *gochan
	e int
}

func popWait(q *[]*chanWait) *chanWait {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.done || (w.sel != nil && w.sel.done) {
			continue
		}
		return w
	}
	return nil
}

func hasWait(q []*chanWait) bool {
	for _, w := range q {
		if !w.done && (w.sel == nil || !w.sel.done) {
			return true
		}
	}
	return false
}

func (w *chanWait) complete(v value, ok bool) {
	w.done = true
	if w.sel != nil {
		w.sel.done, w.sel.idx, w.sel.v, w.sel.ok = true, w.idx, v, ok
		return
	}
	w.v, w.ok = v, ok
}

func (m *machine) trySend(c *gochan, v value) bool {
	if c.closed {
		panic(m.runtimeError("send on closed channel"))
	}
	if w := popWait(&c.recvq); w != nil {
		w.complete(v, true)
		return true
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		return true
	}
	return false
}

func (m *machine) tryRecv(c *gochan) (value, bool, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = append([]value(nil), c.buf[1:]...)
		if w := popWait(&c.sendq); w != nil {
			v2 := w.v
			if w.sel != nil {
				w.complete(nil, true)
			} else {
				w.done, w.ok = true, true
			}
			c.buf = append(c.buf, v2)
		}
		return v, true, true
	}
	if w := popWait(&c.sendq); w != nil {
		v := w.v
		if w.sel != nil {
			w.complete(nil, true)
		} else {
			w.done, w.ok = true, true
		}
		return v, true, true
	}
	if c.closed {
		return c.zero(), false, true
	}
	return nil, false, false
}

func (m *machine) chanSend(c *gochan, v value) {
	if c == nil {
		m.blockUntil(func() bool { return false })
	}
	m.schedPoint()
	m.sync(c)
	defer m.sync(c)
	m.chUndo(c)
	if m.trySend(c, v) {
		return
	}
	w := &chanWait{g: m.cur, v: v}
	c.sendq = append(c.sendq, w)
	m.blockUntil(func() bool { return w.done || c.closed })
	if !w.done {
		w.done = true
		panic(m.runtimeError("send on closed channel"))
	}
}

func (m *machine) chanRecv(c *gochan) (value, bool) {
	if c == nil {
		m.blockUntil(func() bool { return false })
	}
	m.schedPoint()
	m.sync(c)
	defer m.sync(c)
	m.chUndo(c)
	if v, ok, done := m.tryRecv(c); done {
		return v, ok
	}
	w := &chanWait{g: m.cur}
	c.recvq = append(c.recvq, w)
	m.blockUntil(func() bool { return w.done || c.closed })
	if !w.done {
		w.done = true
		return c.zero(), false
	}
	return w.v, w.ok
}

func (m *machine) chanClose(c *gochan) {
	if c == nil {
		panic(m.runtimeError("close of nil channel"))
	}
	m.schedPoint()
	m.sync(c)
	m.chUndo(c)
	if c.closed {
		panic(m.runtimeError("close of closed channel"))
	}
	c.closed = true
	for {
		w := popWait(&c.recvq)
		if w == nil {
			break
		}
		w.complete(c.zero(), false)
	}
}

func (c *compiler) selectStmt(in *ssa.Select) opd {
	type st struct {
		ch, send opd
		dir      types.ChanDir
	}
	var states []st
	for _, s := range in.States {
		x := st{ch: c.opd(s.Chan), dir: s.Dir}
		if s.Send != nil {
			x.send = c.opd(s.Send)
		}
		states = append(states, x)
	}
	blocking := in.Blocking
	var recvZero []func() value
	var recvIdx []int
	tup := in.Type().(*types.Tuple)
	n := 2
	for i, s := range in.States {
		if s.Dir == types.RecvOnly {
			recvIdx = append(recvIdx, i)
			recvZero = append(recvZero, zeroFn(tup.At(n).Type()))
			n++
		}
	}
	return func(fr *frame) value {
		m := fr.m
		m.schedPoint()
		chs := make([]*gochan, len(states))
		vals := make([]value, len(states))
		for i, s := range states {
			chs[i] = s.ch(fr).(*gochan)
			if chs[i] != nil {
				m.chUndo(chs[i])
			}
			if s.send != nil {
				vals[i] = copyVal(s.send(fr))
			}
		}
		result := func(idx int, v value, ok bool) value {
			t := tuple{int64(idx), ok}
			for j, i := range recvIdx {
				if i == idx && v != nil {
					t = append(t, v)
				} else {
					t = append(t, recvZero[j]())
				}
			}
			return t
		}
		var ready []int
		for i, s := range states {
			c := chs[i]
			if c == nil {
				continue
			}
			if s.dir == types.SendOnly {
				if c.closed || hasWait(c.recvq) || len(c.buf) < c.cap {
					ready = append(ready, i)
				}
			} else if len(c.buf) > 0 || hasWait(c.sendq) || c.closed {
				ready = append(ready, i)
			}
		}
		if len(ready) > 0 {
			i := ready[0]
			if m.sched && len(ready) > 1 {
				i = ready[m.choose("select", len(ready))]
			}
			m.sync(chs[i])
			if states[i].dir == types.SendOnly {
				m.trySend(chs[i], vals[i])
				return result(i, nil, false)
			}
			v, ok, _ := m.tryRecv(chs[i])
			return result(i, v, ok)
		}
		if !blocking {
			return result(-1, nil, false)
		}
		sel := &selState{}
		for i, s := range states {
			c := chs[i]
			if c == nil {
				continue
			}
			w := &chanWait{g: m.cur, sel: sel, idx: i}
			if s.dir == types.SendOnly {
				w.v = vals[i]
				c.sendq = append(c.sendq, w)
			} else {
				c.recvq = append(c.recvq, w)
			}
		}
		for _, c := range chs {
			if c != nil {
				m.release(c)
			}
		}
		m.blockUntil(func() bool { return sel.done })
		m.sync(chs[sel.idx])
		return result(sel.idx, sel.v, sel.ok)
	}
}

// ---- builtins

func (m *machine) builtin(fr *frame, b *ssa.Builtin, a []value, call *ssa.CallCommon) value {
	switch b.Name() {
	case "append":
		if len(a) == 1 {
			return a[0]
		}
		s := a[0].([]value)
		var add []value
		switch y := a[1].(type) {
		case []value:
			add = y
		case string, *symstr:
			add = strBytes(y)
		}
		if len(add) == 0 {
			return s
		}
		n := len(s)
		if n+len(add) <= cap(s) {
			full := s[: n+len(add) : cap(s)]
			tmp := add
			if len(add) > 1 { // may overlap
				tmp = copyVals(add)
			}
			for i, x := range tmp {
				if m.race != nil && fr.code != nil && fr.code.raced {
					m.raceCell(fr, &full[n+i], true)
				}
				m.storeAgg(&full[n+i], x)
			}
			return full
		}
		out := make([]value, n, growCap(cap(s), n+len(add)))
		copy(out, s)
		if n > 0 {
			switch s[0].(type) {
			case structure, array:
				copy(out, copyVals(s))
			}
		}
		for _, x := range add {
			out = append(out, copyVal(x))
		}
		// elements beyond len must be valid zero-like values when resliced
		full := out[:cap(out)]
		if cap(out) > len(out) {
			var z value
			switch e := out[0].(type) {
			case structure, array:
				for i := len(out); i < cap(out); i++ {
					full[i] = zeroLike(e)
				}
			default:
				z = zeroLike(e)
				for i := len(out); i < cap(out); i++ {
					full[i] = z
				}
			}
		}
		return out
	case "copy":
		d := a[0].([]value)
		var s []value
		switch y := a[1].(type) {
		case []value:
			s = y
		default:
			s = strBytes(y)
		}
		n := min(len(d), len(s))
		for i, x := range copyVals(s[:n]) {
			if m.race != nil && fr.code != nil && fr.code.raced {
				m.raceCell(fr, &d[i], true)
			}
			m.storeAgg(&d[i], x)
		}
		return int64(n)
	case "len":
		switch x := a[0].(type) {
		case string, *symstr:
			return int64(strLen(x))
		case []value:
			return int64(len(x))
		case array:
			return int64(len(x))
		case *value:
			return int64(len((*x).(array)))
		case *gomap:
			return int64(x.length())
		case *gochan:
			if x == nil {
				return int64(0)
			}
			return int64(len(x.buf))
		}
	case "cap":
		switch x := a[0].(type) {
		case []value:
			return int64(cap(x))
		case array:
			return int64(len(x))
		case *value:
			return int64(len((*x).(array)))
		case *gochan:
			if x == nil {
				return int64(0)
			}
			return int64(x.cap)
		}
	case "delete":
		gm := a[0].(*gomap)
		if gm != nil {
			var kt types.Type
			if call != nil {
				kt = call.Args[0].Type().Underlying().(*types.Map).Key()
			}
			if m.race != nil && fr.code != nil && fr.code.raced {
				m.raceKey(fr, gm, true)
			}
			m.mapDelete(gm, kt, a[1])
		}
		return nil
	case "clear":
		switch x := a[0].(type) {
		case *gomap:
			if x != nil {
				m.mapTouch(x)
				x.clear()
			}
		case []value:
			for i := range x {
				m.storeAgg(&x[i], zeroLike(x[i]))
			}
		}
		return nil
	case "close":
		m.chanClose(a[0].(*gochan))
		return nil
	case "panic":
		panic(&targetPanic{v: a[0], g: fr.g, st: m.where()})
	case "recover":
		return m.doRecover(fr)
	case "print", "println":
		return nil
	case "min", "max":
		r := a[0]
		for _, x := range a[1:] {
			r = m.minmax(b.Name() == "min", r, x, call)
		}
		return r
	case "complex":
		return complex(a[0].(float64), a[1].(float64))
	case "real":
		return real(a[0].(complex128))
	case "imag":
		return imag(a[0].(complex128))
	case "ssa:wrapnilchk":
		p := m.ptr(a[0])
		if p == nil {
			panic(m.nilDeref())
		}
		return a[0]
	case "ssa:deferstack":
		return native{&fr.defers}
	case "String": // unsafe.String
		n := int(m.concretize(a[1], ikind{64, true}))
		if n == 0 {
			return ""
		}
		s := m.unsafeElems(a[0], n)
		return mkString(s)
	case "StringData":
		return &symData{strBytes(a[0])}
	case "SliceData":
		s := a[0].([]value)
		if s == nil {
			return (*value)(nil)
		}
		return &symData{s[:cap(s)]}
	case "Slice": // unsafe.Slice
		n := int(m.concretize(a[1], ikind{64, true}))
		return m.unsafeElems(a[0], n)
	}
	panic(m.abortf("unsupported", "builtin %s(%T)\n%s", b.Name(), a[0], m.where()))
}

// symData is the pointer made by unsafe.StringData/SliceData.
type symData struct{ b []value }

func (m *machine) unsafeElems(p value, n int) []value {
	switch p := p.(type) {
	case *symData:
		return p.b[:n:n]
	case *value:
		if p == nil && n == 0 {
			return nil
		}
		if n == 1 {
			return []value{*p}
		}
	case unsafePtr:
		return m.unsafeElems(p.v, n)
	}
	panic(m.abortf("unsupported", "unsafe data of %T\n%s", p, m.where()))
}

func (m *machine) minmax(isMin bool, x, y value, call *ssa.CallCommon) value {
	switch a := x.(type) {
	case float64:
		if isMin {
			return math.Min(a, y.(float64))
		}
		return math.Max(a, y.(float64))
	case string, *symstr:
		less := m.branch(fromBoolT(m.strLess(y, x, false)))
		if less == isMin {
			return y
		}
		return x
	}
	k := ikind{64, true}
	if call != nil {
		k, _ = intKind(call.Args[0].Type())
	}
	if a, ok := x.(int64); ok {
		if b, ok := y.(int64); ok {
			less := b < a
			if !k.signed {
				less = uint64(b) < uint64(a)
			}
			if less == isMin {
				return y
			}
			return x
		}
	}
	o := tUlt
	if k.signed {
		o = tSlt
	}
	a, b := m.toBV(x, k.w), m.toBV(y, k.w)
	less := m.tt.cmp(o, b, a)
	if isMin {
		return fromBVT(m.tt.ite(less, b, a), k)
	}
	return fromBVT(m.tt.ite(less, a, b), k)
}

func growCap(old, need int) int {
	n := old
	if n == 0 {
		n = need
		if n < 8 && n != 1 {
			return n
		}
		return n
	}
	for n < need {
		if n < 256 {
			n *= 2
		} else {
			n += (n + 768) / 4
		}
	}
	return n
}

func zeroLike(v value) value {
	switch v := v.(type) {
	case bool:
		return false
	case *Term:
		if v.w == 0 {
			return false
		}
		return int64(0)
	case int64, *pendSel:
		return int64(0)
	case float64:
		return float64(0)
	case complex128:
		return complex128(0)
	case string, *symstr:
		return ""
	case *value, *symptr, *symData:
		return (*value)(nil)
	case structure:
		a := make(structure, len(v))
		for i := range v {
			a[i] = zeroLike(v[i])
		}
		return a
	case array:
		a := make(array, len(v))
		for i := range v {
			a[i] = zeroLike(v[i])
		}
		return a
	case []value:
		return []value(nil)
	case *gomap:
		return (*gomap)(nil)
	case *gochan:
		return (*gochan)(nil)
	case *closure:
		return (*closure)(nil)
	case iface:
		return iface{}
	case rvalue:
		return rvalue{}
	case unsafePtr:
		return unsafePtr{}
	}
	return v
}
