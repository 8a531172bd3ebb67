package main

import (
	"fmt"
	"go/types"
	"math"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// value is one of:
//
//	bool | *Term(Bool)             booleans
//	int64 | *Term(BV)              all integer kinds, sign/zero-extended according to their type
//	float64, complex128
//	string | *symstr
//	*value                         pointers to variables, fields and elements (nil pointer: (*value)(nil))
//	*symptr                        pointer to an element with a symbolic index
//	structure, array               aggregates (copied on load/store)
//	[]value                        slices
//	*gomap, *gochan, *closure, iface, tuple
//	rvalue, rtypeV                 reflect.Value and the dynamic value behind reflect.Type
//	native                         opaque host objects
type value = any

type structure []value
type array []value
type tuple []value

type iface struct {
	t types.Type // canonical; nil for the nil interface
	v value
}

type symstr struct{ b []value }

type symptr struct {
	s   []value
	idx *Term
}

type native struct{ v any }

type unsafePtr struct {
	v value // the pointer it was made from
}

type closure struct {
	fn  *ssa.Function
	env []value
	nat func(fr *frame, args []value) value
	nam string
}

func (c *closure) String() string {
	if c.fn != nil {
		return c.fn.String()
	}
	return c.nam
}

// ---- canonical types

var (
	canonMu  sync.RWMutex
	canonPtr = map[types.Type]types.Type{}
	canonMap typeutil.Map
	typeIDs  = map[types.Type]int{}
)

func canon(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	canonMu.RLock()
	c, ok := canonPtr[t]
	canonMu.RUnlock()
	if ok {
		return c
	}
	canonMu.Lock()
	defer canonMu.Unlock()
	if c, ok := canonPtr[t]; ok {
		return c
	}
	u := types.Unalias(t)
	if x := canonMap.At(u); x != nil {
		canonPtr[t] = x.(types.Type)
		return x.(types.Type)
	}
	canonMap.Set(u, u)
	canonPtr[u] = u
	canonPtr[t] = u
	typeIDs[u] = len(typeIDs) + 1
	return u
}

// ---- integer kinds

type ikind struct {
	w      int
	signed bool
}

func (k ikind) norm(x int64) int64 {
	if k.w == 64 {
		return x
	}
	s := uint(64 - k.w)
	if k.signed {
		return x << s >> s
	}
	return int64(uint64(x) << s >> s)
}

func intKind(t types.Type) (ikind, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return ikind{}, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return ikind{64, true}, true
	case types.Int32, types.UntypedRune:
		return ikind{32, true}, true
	case types.Int16:
		return ikind{16, true}, true
	case types.Int8:
		return ikind{8, true}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return ikind{64, false}, true
	case types.Uint32:
		return ikind{32, false}, true
	case types.Uint16:
		return ikind{16, false}, true
	case types.Uint8:
		return ikind{8, false}, true
	}
	return ikind{}, false
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isFloat32(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Float32
}

func isComplex(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsComplex != 0
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isReflectValue(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	return o.Name() == "Value" && o.Pkg() != nil && o.Pkg().Path() == "reflect"
}

// zero returns the zero value of t.
func zero(t types.Type) value {
	if isReflectValue(t) {
		return rvalue{}
	}
	switch t := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case t.Kind() == types.UnsafePointer:
			return unsafePtr{}
		case t.Kind() == types.UntypedNil:
			return iface{}
		case t.Info()&types.IsBoolean != 0:
			return false
		case t.Info()&types.IsInteger != 0:
			return int64(0)
		case t.Info()&types.IsFloat != 0:
			return float64(0)
		case t.Info()&types.IsComplex != 0:
			return complex128(0)
		case t.Info()&types.IsString != 0:
			return ""
		}
	case *types.Pointer:
		return (*value)(nil)
	case *types.Slice:
		return []value(nil)
	case *types.Array:
		n := int(t.Len())
		a := make(array, n)
		if n > 0 {
			switch t.Elem().Underlying().(type) {
			case *types.Struct, *types.Array:
				for i := range a {
					a[i] = zero(t.Elem())
				}
			default:
				z := zero(t.Elem())
				for i := range a {
					a[i] = z
				}
			}
		}
		return a
	case *types.Struct:
		s := make(structure, t.NumFields())
		for i := range s {
			s[i] = zero(t.Field(i).Type())
		}
		return s
	case *types.Interface:
		return iface{}
	case *types.Signature:
		return (*closure)(nil)
	case *types.Map:
		return (*gomap)(nil)
	case *types.Chan:
		return (*gochan)(nil)
	case *types.Tuple:
		if t.Len() == 1 {
			return zero(t.At(0).Type())
		}
		s := make(tuple, t.Len())
		for i := range s {
			s[i] = zero(t.At(i).Type())
		}
		return s
	}
	panic(fmt.Sprintf("zero: %s", t))
}

// zeroFn returns a function making zero values of t, fast for scalar types.
func zeroFn(t types.Type) func() value {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array, *types.Tuple:
		return func() value { return zero(t) }
	}
	z := zero(t)
	return func() value { return z }
}

// copyVal copies aggregates.
func copyVal(v value) value {
	switch v := v.(type) {
	case structure:
		a := make(structure, len(v))
		for i, x := range v {
			switch x.(type) {
			case structure, array:
				a[i] = copyVal(x)
			default:
				a[i] = x
			}
		}
		return a
	case array:
		a := make(array, len(v))
		if len(v) > 0 {
			switch v[0].(type) {
			case structure, array:
				for i, x := range v {
					a[i] = copyVal(x)
				}
			default:
				copy(a, v)
			}
		}
		return a
	}
	return v
}

// ---- strings

func mkString(b []value) value {
	buf := make([]byte, len(b))
	for i, x := range b {
		n, ok := x.(int64)
		if !ok {
			return &symstr{b: append([]value(nil), b...)}
		}
		buf[i] = byte(n)
	}
	return string(buf)
}

var byteVals [256]value

func init() {
	for i := range byteVals {
		byteVals[i] = int64(i)
	}
}

func strBytes(v value) []value {
	switch v := v.(type) {
	case string:
		b := make([]value, len(v))
		for i := 0; i < len(v); i++ {
			b[i] = byteVals[v[i]]
		}
		return b
	case *symstr:
		return v.b
	}
	panic(fmt.Sprintf("strBytes: %T", v))
}

func strLen(v value) int {
	switch v := v.(type) {
	case string:
		return len(v)
	case *symstr:
		return len(v.b)
	}
	panic(fmt.Sprintf("strLen: %T", v))
}

func strSlice(v value, i, j int) value {
	switch v := v.(type) {
	case string:
		return v[i:j]
	case *symstr:
		if i == 0 && j == len(v.b) {
			return v
		}
		return mkString(v.b[i:j])
	}
	panic(fmt.Sprintf("strSlice: %T", v))
}

func strConcat(x, y value) value {
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			return a + b
		}
		if a == "" {
			return y
		}
	}
	if b, ok := y.(string); ok && b == "" {
		return x
	}
	xb, yb := strBytes(x), strBytes(y)
	out := make([]value, 0, len(xb)+len(yb))
	out = append(out, xb...)
	out = append(out, yb...)
	return &symstr{b: out}
}

func bytesOf(s string) []value { return strBytes(s) }

// ---- terms from values

func (m *machine) toBV(v value, w int) *Term {
	switch v := v.(type) {
	case int64:
		return m.tt.bv(w, uint64(v))
	case *Term:
		if v.w != w {
			panic(fmt.Sprintf("toBV: width %d, want %d", v.w, w))
		}
		return v
	}
	panic(fmt.Sprintf("toBV: %T", v))
}

func (m *machine) toBoolT(v value) *Term {
	switch v := v.(type) {
	case bool:
		return m.tt.bool(v)
	case *Term:
		return v
	}
	panic(fmt.Sprintf("toBoolT: %T", v))
}

func fromBoolT(t *Term) value {
	if t.op == tConst {
		return t.n != 0
	}
	return t
}

func fromBVT(t *Term, k ikind) value {
	if t.op == tConst {
		if k.signed {
			return sext64(t.n, t.w)
		}
		return int64(t.n)
	}
	return t
}

// eq compares two values of type t, giving a Bool term (possibly constant).
func (m *machine) eq(t types.Type, x, y value) *Term {
	tt := m.tt
	switch x := x.(type) {
	case bool:
		if yb, ok := y.(bool); ok {
			return tt.bool(x == yb)
		}
		return tt.eq(tt.bool(x), y.(*Term))
	case *Term:
		if x.w == 0 {
			return tt.eq(x, m.toBoolT(y))
		}
		return tt.eq(x, m.toBV(y, x.w))
	case int64:
		switch y := y.(type) {
		case int64:
			return tt.bool(x == y)
		case *Term:
			return tt.eq(tt.bv(y.w, uint64(x)), y)
		}
	case float64:
		return tt.bool(x == y.(float64))
	case complex128:
		return tt.bool(x == y.(complex128))
	case string:
		if ys, ok := y.(string); ok {
			return tt.bool(x == ys)
		}
		return m.strEq(x, y)
	case *symstr:
		return m.strEq(x, y)
	case *value:
		if yp, ok := y.(*value); ok {
			return tt.bool(x == yp)
		}
		return tt.tF
	case *symptr:
		return m.eq(t, m.resolvePtr(x), y)
	case unsafePtr:
		return tt.bool(x == y.(unsafePtr))
	case *gomap:
		return tt.bool(x == y.(*gomap))
	case *gochan:
		return tt.bool(x == y.(*gochan))
	case *closure:
		return tt.bool(x == y.(*closure))
	case []value:
		if ys := y.([]value); ys == nil || x == nil {
			return tt.bool(ys == nil && x == nil)
		}
		panic("slice comparison")
	case iface:
		return m.ifaceEq(x, y.(iface))
	case structure:
		y := y.(structure)
		var st *types.Struct
		if t != nil {
			st, _ = t.Underlying().(*types.Struct)
		}
		r := tt.tT
		for i := range x {
			var ft types.Type
			if st != nil {
				if st.Field(i).Name() == "_" {
					continue
				}
				ft = st.Field(i).Type()
			}
			r = tt.and(r, m.eq(ft, x[i], y[i]))
			if r == tt.tF {
				break
			}
		}
		return r
	case array:
		y := y.(array)
		var et types.Type
		if t != nil {
			if at, ok := t.Underlying().(*types.Array); ok {
				et = at.Elem()
			}
		}
		r := tt.tT
		for i := range x {
			r = tt.and(r, m.eq(et, x[i], y[i]))
			if r == tt.tF {
				break
			}
		}
		return r
	case rtypeV:
		y, ok := y.(rtypeV)
		return tt.bool(ok && x.t == y.t)
	case native:
		y, ok := y.(native)
		return tt.bool(ok && x.v == y.v)
	case rvalue:
		panic(m.targetPanicf("comparing reflect.Value"))
	}
	panic(fmt.Sprintf("eq: %T %T (%v)", x, y, t))
}

func comparableT(t types.Type) bool { return types.Comparable(t) }

func (m *machine) ifaceEq(x, y iface) *Term {
	if x.t == nil || y.t == nil {
		return m.tt.bool(x.t == nil && y.t == nil)
	}
	if x.t != y.t {
		return m.tt.tF
	}
	if !comparableT(x.t) {
		panic(m.runtimeError("comparing uncomparable type " + x.t.String()))
	}
	return m.eq(x.t, x.v, y.v)
}

func (m *machine) strEq(x, y value) *Term {
	if strLen(x) != strLen(y) {
		return m.tt.tF
	}
	r := m.tt.tT
	n := strLen(x)
	for i := 0; i < n; i++ {
		r = m.tt.and(r, m.eq(nil, strAt(x, i), strAt(y, i)))
		if r == m.tt.tF {
			return r
		}
	}
	return m.foldDomain(r)
}

func strAt(v value, i int) value {
	switch v := v.(type) {
	case string:
		return byteVals[v[i]]
	case *symstr:
		return v.b[i]
	}
	panic("strAt")
}

// strLess gives x < y (or x <= y) as a term without forking.
func (m *machine) strLess(x, y value, orEq bool) *Term {
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			if orEq {
				return m.tt.bool(a <= b)
			}
			return m.tt.bool(a < b)
		}
	}
	nx, ny := strLen(x), strLen(y)
	n := nx
	if ny < n {
		n = ny
	}
	var r *Term
	if orEq {
		r = m.tt.bool(nx <= ny)
	} else {
		r = m.tt.bool(nx < ny)
	}
	for i := n - 1; i >= 0; i-- {
		a, b := m.toBV(strAt(x, i), 8), m.toBV(strAt(y, i), 8)
		r = m.tt.ite(m.tt.eq(a, b), r, m.tt.cmp(tUlt, a, b))
	}
	return m.foldDomain(r)
}

func roundFloat(t types.Type, f float64) float64 {
	if isFloat32(t) {
		return float64(float32(f))
	}
	return f
}

var _ = math.Abs

func copyVals(s []value) []value {
	t := make([]value, len(s))
	for i, x := range s {
		t[i] = copyVal(x)
	}
	return t
}
