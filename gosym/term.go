package main

import (
	"fmt"
	"strconv"
	"strings"
)

// SMT terms: booleans (w == 0) and bit-vectors (1 <= w <= 64), hash-consed per machine.

type top uint8

const (
	tConst top = iota
	tVar
	tNot
	tAnd
	tOr
	tEq
	tIte
	tAdd
	tSub
	tMul
	tUdiv
	tSdiv
	tUrem
	tSrem
	tBand
	tBor
	tBxor
	tShl
	tLshr
	tAshr
	tUlt
	tUle
	tSlt
	tSle
	tExtract // low bits only: extract [w-1:0]
	tZext
	tSext
)

var topNames = map[top]string{
	tNot: "not", tAnd: "and", tOr: "or", tEq: "=", tIte: "ite", tAdd: "bvadd", tSub: "bvsub", tMul: "bvmul",
	tUdiv: "bvudiv", tSdiv: "bvsdiv", tUrem: "bvurem", tSrem: "bvsrem", tBand: "bvand", tBor: "bvor", tBxor: "bvxor",
	tShl: "bvshl", tLshr: "bvlshr", tAshr: "bvashr", tUlt: "bvult", tUle: "bvule", tSlt: "bvslt", tSle: "bvsle",
}

// Term is a hash-consed SMT term.
type Term struct {
	op   top
	w    int // 0 = Bool
	n    uint64
	name string
	a    []*Term
	id   int
}

type termKey struct {
	op         top
	w          int
	n          uint64
	name       string
	a0, a1, a2 int
}

type termTable struct {
	m    map[termKey]*Term
	all  int
	tT   *Term
	tF   *Term
	vars []*Term
}

func newTermTable() *termTable {
	tt := &termTable{m: make(map[termKey]*Term)}
	tt.tT = tt.mk(tConst, 0, 1, "")
	tt.tF = tt.mk(tConst, 0, 0, "")
	return tt
}

func (tt *termTable) mk(op top, w int, n uint64, name string, a ...*Term) *Term {
	k := termKey{op: op, w: w, n: n, name: name, a0: -1, a1: -1, a2: -1}
	if len(a) > 3 {
		panic("mk: arity")
	}
	for i, x := range a {
		switch i {
		case 0:
			k.a0 = x.id
		case 1:
			k.a1 = x.id
		case 2:
			k.a2 = x.id
		}
	}
	if t, ok := tt.m[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, n: n, name: name, a: append([]*Term(nil), a...), id: tt.all}
	tt.all++
	tt.m[k] = t
	if op == tVar {
		tt.vars = append(tt.vars, t)
	}
	return t
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func sext64(n uint64, w int) int64 {
	if w >= 64 {
		return int64(n)
	}
	s := uint(64 - w)
	return int64(n<<s) >> s
}

func (tt *termTable) bool(b bool) *Term {
	if b {
		return tt.tT
	}
	return tt.tF
}

func (tt *termTable) bv(w int, n uint64) *Term { return tt.mk(tConst, w, n&mask(w), "") }
func (tt *termTable) v(name string, w int) *Term {
	return tt.mk(tVar, w, 0, name)
}

func (t *Term) isConst() bool { return t.op == tConst }

func (tt *termTable) not(x *Term) *Term {
	if x.isConst() {
		return tt.bool(x.n == 0)
	}
	if x.op == tNot {
		return x.a[0]
	}
	return tt.mk(tNot, 0, 0, "", x)
}

func (tt *termTable) and(x, y *Term) *Term {
	switch {
	case x == tt.tF || y == tt.tF:
		return tt.tF
	case x == tt.tT:
		return y
	case y == tt.tT || x == y:
		return x
	case x.op == tNot && x.a[0] == y, y.op == tNot && y.a[0] == x:
		return tt.tF
	}
	if x.id > y.id {
		x, y = y, x
	}
	return tt.mk(tAnd, 0, 0, "", x, y)
}

func (tt *termTable) or(x, y *Term) *Term {
	return tt.not(tt.and(tt.not(x), tt.not(y)))
}

func (tt *termTable) eq(x, y *Term) *Term {
	if x == y {
		return tt.tT
	}
	if x.w != y.w {
		panic(fmt.Sprintf("eq: widths %d %d", x.w, y.w))
	}
	if x.isConst() && y.isConst() {
		return tt.bool(x.n == y.n)
	}
	if x.w == 0 {
		switch {
		case x == tt.tT:
			return y
		case y == tt.tT:
			return x
		case x == tt.tF:
			return tt.not(y)
		case y == tt.tF:
			return tt.not(x)
		}
	}
	if x.isConst() {
		x, y = y, x
	}
	if y.isConst() {
		switch x.op {
		case tZext, tSext:
			in := x.a[0]
			lo := y.n & mask(in.w)
			var back uint64
			if x.op == tZext {
				back = lo
			} else {
				back = uint64(sext64(lo, in.w)) & mask(x.w)
			}
			if back != y.n {
				return tt.tF
			}
			return tt.eq(in, tt.bv(in.w, lo))
		case tIte:
			if x.a[1].isConst() || x.a[2].isConst() {
				return tt.ite(x.a[0], tt.eq(x.a[1], y), tt.eq(x.a[2], y))
			}
		case tAdd:
			if x.a[1].isConst() {
				return tt.eq(x.a[0], tt.bv(x.w, y.n-x.a[1].n))
			}
		}
	} else if x.id > y.id {
		x, y = y, x
	}
	return tt.mk(tEq, 0, 0, "", x, y)
}

func (tt *termTable) ite(c, x, y *Term) *Term {
	if c.isConst() {
		if c.n != 0 {
			return x
		}
		return y
	}
	if x == y {
		return x
	}
	if x.w == 0 {
		switch {
		case x == tt.tT && y == tt.tF:
			return c
		case x == tt.tF && y == tt.tT:
			return tt.not(c)
		case x == tt.tT:
			return tt.or(c, y)
		case x == tt.tF:
			return tt.and(tt.not(c), y)
		case y == tt.tT:
			return tt.or(tt.not(c), x)
		case y == tt.tF:
			return tt.and(c, x)
		}
	}
	if c.op == tNot {
		c, x, y = c.a[0], y, x
	}
	return tt.mk(tIte, x.w, 0, "", c, x, y)
}

func evalBin(op top, w int, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case tAdd:
		return (x + y) & m
	case tSub:
		return (x - y) & m
	case tMul:
		return (x * y) & m
	case tUdiv:
		if y == 0 {
			return m
		}
		return x / y
	case tUrem:
		if y == 0 {
			return x
		}
		return x % y
	case tSdiv:
		sx, sy := sext64(x, w), sext64(y, w)
		if sy == 0 {
			if sx < 0 {
				return 1
			}
			return m
		}
		if sy == -1 {
			return uint64(-sx) & m
		}
		return uint64(sx/sy) & m
	case tSrem:
		sx, sy := sext64(x, w), sext64(y, w)
		if sy == 0 {
			return x
		}
		if sy == -1 {
			return 0
		}
		return uint64(sx%sy) & m
	case tBand:
		return x & y
	case tBor:
		return x | y
	case tBxor:
		return x ^ y
	case tShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case tLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case tAshr:
		s := sext64(x, w)
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(s>>y) & m
	}
	panic("evalBin")
}

func evalCmp(op top, w int, x, y uint64) bool {
	switch op {
	case tUlt:
		return x < y
	case tUle:
		return x <= y
	case tSlt:
		return sext64(x, w) < sext64(y, w)
	case tSle:
		return sext64(x, w) <= sext64(y, w)
	}
	panic("evalCmp")
}

func (tt *termTable) bin(op top, x, y *Term) *Term {
	if x.w != y.w {
		panic(fmt.Sprintf("bin: widths %d %d", x.w, y.w))
	}
	if x.isConst() && y.isConst() {
		return tt.bv(x.w, evalBin(op, x.w, x.n, y.n))
	}
	switch op {
	case tAdd, tMul, tBand, tBor, tBxor:
		if x.isConst() {
			x, y = y, x
		}
	}
	if y.isConst() {
		switch {
		case y.n == 0 && (op == tAdd || op == tSub || op == tBor || op == tBxor || op == tShl || op == tLshr || op == tAshr):
			return x
		case y.n == 0 && (op == tBand || op == tMul):
			return y
		case y.n == 1 && (op == tMul || op == tUdiv || op == tSdiv):
			return x
		case y.n == mask(x.w) && op == tBand:
			return x
		case op == tSub:
			return tt.bin(tAdd, x, tt.bv(x.w, -y.n))
		case op == tAdd && x.op == tAdd && x.a[1].isConst():
			return tt.bin(tAdd, x.a[0], tt.bv(x.w, x.a[1].n+y.n))
		}
		if x.op == tIte && x.a[1].isConst() && x.a[2].isConst() {
			return tt.ite(x.a[0], tt.bin(op, x.a[1], y), tt.bin(op, x.a[2], y))
		}
	}
	if op == tSub && x == y {
		return tt.bv(x.w, 0)
	}
	return tt.mk(op, x.w, 0, "", x, y)
}

func (tt *termTable) cmp(op top, x, y *Term) *Term {
	if x.isConst() && y.isConst() {
		return tt.bool(evalCmp(op, x.w, x.n, y.n))
	}
	if x == y {
		return tt.bool(op == tUle || op == tSle)
	}
	// Comparisons of zero-extended terms with constants shrink to the narrow width.
	if x.op == tZext && y.isConst() {
		in := x.a[0]
		big := y.n > mask(in.w)
		if op == tSlt || op == tSle {
			if sext64(y.n, y.w) < 0 {
				return tt.tF
			}
		}
		if big {
			return tt.tT
		}
		o := op
		if op == tSlt {
			o = tUlt
		} else if op == tSle {
			o = tUle
		}
		return tt.cmp(o, in, tt.bv(in.w, y.n))
	}
	if y.op == tZext && x.isConst() {
		in := y.a[0]
		if op == tSlt || op == tSle {
			if sext64(x.n, x.w) < 0 {
				return tt.tT
			}
		}
		if x.n > mask(in.w) {
			return tt.tF
		}
		o := op
		if op == tSlt {
			o = tUlt
		} else if op == tSle {
			o = tUle
		}
		return tt.cmp(o, tt.bv(in.w, x.n), in)
	}
	if (x.op == tZext || x.op == tSext) && y.op == x.op && x.a[0].w == y.a[0].w {
		o := op
		if x.op == tZext {
			if op == tSlt {
				o = tUlt
			} else if op == tSle {
				o = tUle
			}
			return tt.cmp(o, x.a[0], y.a[0])
		}
		if op == tSlt || op == tSle {
			return tt.cmp(o, x.a[0], y.a[0])
		}
	}
	if y.isConst() {
		switch op {
		case tUlt:
			if y.n == 0 {
				return tt.tF
			}
		case tUle:
			if y.n == mask(y.w) {
				return tt.tT
			}
		}
		if x.op == tIte && (x.a[1].isConst() || x.a[2].isConst()) {
			return tt.ite(x.a[0], tt.cmp(op, x.a[1], y), tt.cmp(op, x.a[2], y))
		}
	}
	// Normalise a <= b to !(b < a).
	if op == tUle {
		return tt.not(tt.cmp(tUlt, y, x))
	}
	if op == tSle {
		return tt.not(tt.cmp(tSlt, y, x))
	}
	return tt.mk(op, 0, 0, "", x, y)
}

// resize converts x to width w; signed tells how to extend.
func (tt *termTable) resize(x *Term, w int, signed bool) *Term {
	switch {
	case x.w == w:
		return x
	case x.isConst():
		if w > x.w && signed {
			return tt.bv(w, uint64(sext64(x.n, x.w)))
		}
		return tt.bv(w, x.n)
	case w < x.w:
		if (x.op == tZext || x.op == tSext) && x.a[0].w >= w {
			return tt.resize(x.a[0], w, signed)
		}
		if x.op == tZext && x.a[0].w < w {
			return tt.resize(x.a[0], w, false)
		}
		if x.op == tSext && x.a[0].w < w {
			return tt.resize(x.a[0], w, true)
		}
		if x.op == tIte {
			return tt.ite(x.a[0], tt.resize(x.a[1], w, signed), tt.resize(x.a[2], w, signed))
		}
		if x.op == tAdd || x.op == tBand || x.op == tBor || x.op == tBxor || x.op == tSub {
			return tt.bin(x.op, tt.resize(x.a[0], w, signed), tt.resize(x.a[1], w, signed))
		}
		return tt.mk(tExtract, w, 0, "", x)
	default:
		if x.op == tIte && (x.a[1].isConst() || x.a[2].isConst()) {
			return tt.ite(x.a[0], tt.resize(x.a[1], w, signed), tt.resize(x.a[2], w, signed))
		}
		if signed {
			if x.op == tZext {
				return tt.mk(tZext, w, 0, "", x.a[0])
			}
			return tt.mk(tSext, w, 0, "", x)
		}
		if x.op == tZext {
			return tt.mk(tZext, w, 0, "", x.a[0])
		}
		return tt.mk(tZext, w, 0, "", x)
	}
}

// ---- models

type model map[string]uint64

func (md model) eval(t *Term, memo map[int]uint64) uint64 {
	switch t.op {
	case tConst:
		return t.n
	case tVar:
		return md[t.name] & maskB(t.w)
	}
	if v, ok := memo[t.id]; ok {
		return v
	}
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	var r uint64
	switch t.op {
	case tNot:
		r = 1 - md.eval(t.a[0], memo)
	case tAnd:
		r = md.eval(t.a[0], memo) & md.eval(t.a[1], memo)
	case tOr:
		r = md.eval(t.a[0], memo) | md.eval(t.a[1], memo)
	case tEq:
		r = b2u(md.eval(t.a[0], memo) == md.eval(t.a[1], memo))
	case tIte:
		if md.eval(t.a[0], memo) != 0 {
			r = md.eval(t.a[1], memo)
		} else {
			r = md.eval(t.a[2], memo)
		}
	case tUlt, tUle, tSlt, tSle:
		r = b2u(evalCmp(t.op, t.a[0].w, md.eval(t.a[0], memo), md.eval(t.a[1], memo)))
	case tExtract:
		r = md.eval(t.a[0], memo) & mask(t.w)
	case tZext:
		r = md.eval(t.a[0], memo)
	case tSext:
		r = uint64(sext64(md.eval(t.a[0], memo), t.a[0].w)) & mask(t.w)
	default:
		r = evalBin(t.op, t.w, md.eval(t.a[0], memo), md.eval(t.a[1], memo))
	}
	memo[t.id] = r
	return r
}

func maskB(w int) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

func sortName(w int) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(w) + ")"
}

func (t *Term) leafString() string {
	switch t.op {
	case tConst:
		if t.w == 0 {
			if t.n != 0 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.n, t.w)
	case tVar:
		return "|" + t.name + "|"
	}
	return "t" + strconv.Itoa(t.id)
}

// define returns the body of t in terms of its children's names.
func (t *Term) body() string {
	var sb strings.Builder
	switch t.op {
	case tExtract:
		fmt.Fprintf(&sb, "((_ extract %d 0) %s)", t.w-1, t.a[0].leafString())
	case tZext:
		fmt.Fprintf(&sb, "((_ zero_extend %d) %s)", t.w-t.a[0].w, t.a[0].leafString())
	case tSext:
		fmt.Fprintf(&sb, "((_ sign_extend %d) %s)", t.w-t.a[0].w, t.a[0].leafString())
	default:
		sb.WriteByte('(')
		sb.WriteString(topNames[t.op])
		for _, x := range t.a {
			sb.WriteByte(' ')
			sb.WriteString(x.leafString())
		}
		sb.WriteByte(')')
	}
	return sb.String()
}

func (t *Term) String() string {
	if t.op == tConst || t.op == tVar {
		return t.leafString()
	}
	var parts []string
	for _, x := range t.a {
		parts = append(parts, x.String())
	}
	n := topNames[t.op]
	if n == "" {
		n = fmt.Sprintf("resize%d", t.w)
	}
	return "(" + n + " " + strings.Join(parts, " ") + ")"
}
