package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"
)

// rvalue is reflect.Value: the zero rvalue is the invalid Value.
type rvalue struct {
	t    types.Type // canonical; nil when invalid
	v    value      // used when addr is nil
	addr *value     // set for addressable values
	ro   bool       // obtained through an unexported field
	m    *machine
	mapE *mapElem
}

type mapElem struct{}

// rtypeV is the dynamic value behind reflect.Type (and internal/reflectlite.Type).
type rtypeV struct{ t types.Type }

func (r rvalue) valid() bool { return r.t != nil }

func (r rvalue) get() value {
	if r.addr != nil {
		return copyVal(*r.addr)
	}
	return r.v
}

// synthetic struct types made by sym.ImportObj: names, tags and embedding may be symbolic.
type synthField struct {
	name, tag, anon value
}

type synthKey struct{ t *types.Struct }

func (m *machine) synth(st *types.Struct) []synthField {
	f, _ := m.side[synthKey{st}].([]synthField)
	return f
}

func (m *machine) rtypeIface(t types.Type) value {
	if t == nil {
		return iface{}
	}
	return iface{canon(types.NewPointer(m.p.typ("reflect", "rtype"))), rtypeV{canon(t)}}
}

func (m *machine) rtypeIfaceLite(t types.Type) value {
	if t == nil {
		return iface{}
	}
	return iface{canon(m.p.typ("internal/reflectlite", "rtype")), rtypeV{canon(t)}}
}

func (m *machine) ifaceToR(i iface) rvalue {
	if i.t == nil {
		return rvalue{}
	}
	return rvalue{t: i.t, v: i.v, m: m}
}

func (m *machine) rToIface(r rvalue) value {
	if !r.valid() {
		panic(m.reflectPanic("reflect: call of reflect.Value.Interface on zero Value"))
	}
	v := r.get()
	if _, ok := r.t.Underlying().(*types.Interface); ok {
		return v
	}
	return iface{r.t, v}
}

func (m *machine) reflectPanic(msg string) *targetPanic {
	return &targetPanic{v: iface{canon(types.Typ[types.String]), msg}, g: m.cur, st: m.where()}
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return reflect.Bool
		case types.Int, types.UntypedInt:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32, types.UntypedRune:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64, types.UntypedFloat:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128, types.UntypedComplex:
			return reflect.Complex128
		case types.String, types.UntypedString:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Ptr
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Struct:
		return reflect.Struct
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	case *types.Map:
		return reflect.Map
	case *types.Chan:
		return reflect.Chan
	}
	return reflect.Invalid
}

func elemOf(m *machine, t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return canon(u.Elem())
	case *types.Slice:
		return canon(u.Elem())
	case *types.Array:
		return canon(u.Elem())
	case *types.Map:
		return canon(u.Elem())
	case *types.Chan:
		return canon(u.Elem())
	}
	panic(m.reflectPanic("reflect: Elem of invalid type " + typeStr(t)))
}

func isNilVal(m *machine, r rvalue, what string) bool {
	switch v := r.get().(type) {
	case *value:
		return v == nil
	case *gomap:
		return v == nil
	case *gochan:
		return v == nil
	case *closure:
		return v == nil
	case []value:
		return v == nil
	case iface:
		return v.t == nil
	case unsafePtr:
		return v.v == nil
	}
	if !r.valid() {
		panic(m.reflectPanic("reflect: call of reflect.Value." + what + " on zero Value"))
	}
	panic(m.reflectPanic("reflect: call of reflect.Value." + what + " on " + kindOf(r.t).String() + " Value"))
}

// unexportedTerm tells whether a (possibly symbolic) field name is not exported.
func (m *machine) nameExported(name value) value {
	b := strBytes(name)
	if len(b) == 0 {
		return false
	}
	if s, ok := conc(name); ok {
		for _, r := range s {
			return r >= 'A' && r <= 'Z' || r > 127 && strings.ToUpper(string(r)) == string(r) && strings.ToLower(string(r)) != string(r)
		}
	}
	x := m.toBV(b[0], 8)
	return fromBoolT(m.foldDomain(m.tt.and(m.tt.cmp(tUle, m.tt.bv(8, 'A'), x), m.tt.cmp(tUle, x, m.tt.bv(8, 'Z')))))
}

func (m *machine) structField(st *types.Struct, i int) value {
	f := st.Field(i)
	sf := zero(m.p.typ("reflect", "StructField")).(structure)
	var name, tag, anon value = f.Name(), st.Tag(i), f.Anonymous()
	if sy := m.synth(st); sy != nil {
		name, tag, anon = sy[i].name, sy[i].tag, sy[i].anon
	}
	u := m.p.typ("reflect", "StructField").Underlying().(*types.Struct)
	for j := 0; j < u.NumFields(); j++ {
		switch u.Field(j).Name() {
		case "Name":
			sf[j] = name
		case "PkgPath":
			if !m.branch(m.nameExported(name)) {
				sf[j] = "pkg"
			}
		case "Type":
			sf[j] = m.rtypeIface(f.Type())
		case "Tag":
			sf[j] = tag
		case "Index":
			sf[j] = []value{int64(i)}
		case "Anonymous":
			sf[j] = anon
		}
	}
	return sf
}

// methodList gives the exported methods of t in reflect's order.
func (m *machine) methodList(t types.Type) []*types.Func {
	var out []*types.Func
	if it, ok := t.Underlying().(*types.Interface); ok {
		for i := 0; i < it.NumMethods(); i++ {
			out = append(out, it.Method(i))
		}
		return out
	}
	methMu.Lock()
	ms := m.p.prog.MethodSets.MethodSet(t)
	methMu.Unlock()
	for i := 0; i < ms.Len(); i++ {
		if f := ms.At(i).Obj().(*types.Func); f.Exported() {
			out = append(out, f)
		}
	}
	return out
}

func typeQual(t types.Type) string { return typeStr(t) }

func rtypeMethod(fr *frame, name string, a []value) value {
	m := fr.m
	t := a[0].(rtypeV).t
	other := func(i int) types.Type {
		x := a[i].(iface)
		if x.t == nil {
			panic(m.reflectPanic("reflect: nil type passed to Type." + name))
		}
		return x.v.(rtypeV).t
	}
	switch name {
	case "Kind":
		return int64(kindOf(t))
	case "String":
		return typeQual(t)
	case "Name":
		switch x := t.(type) {
		case *types.Named:
			return x.Obj().Name()
		case *types.Basic:
			return x.Name()
		}
		return ""
	case "PkgPath":
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
		return ""
	case "Elem":
		return m.rtypeIface(elemOf(m, t))
	case "Key":
		if mt, ok := t.Underlying().(*types.Map); ok {
			return m.rtypeIface(mt.Key())
		}
		panic(m.reflectPanic("reflect: Key of non-map type " + typeStr(t)))
	case "Len":
		if at, ok := t.Underlying().(*types.Array); ok {
			return at.Len()
		}
		panic(m.reflectPanic("reflect: Len of non-array type " + typeStr(t)))
	case "NumField":
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			panic(m.reflectPanic("reflect: NumField of non-struct type " + typeStr(t)))
		}
		return int64(st.NumFields())
	case "Field":
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			panic(m.reflectPanic("reflect: Field of non-struct type " + typeStr(t)))
		}
		i := fr.m.concretize(a[1], ikind{64, true})
		if i < 0 || int(i) >= st.NumFields() {
			panic(m.reflectPanic("reflect: Field index out of bounds"))
		}
		return m.structField(st, int(i))
	case "FieldByName":
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			panic(m.reflectPanic("reflect: FieldByName of non-struct type " + typeStr(t)))
		}
		for i := 0; i < st.NumFields(); i++ {
			sf := m.structField(st, i).(structure)
			if m.branch(fromBoolT(m.strEq(sf[0], a[1]))) {
				return tuple{sf, true}
			}
		}
		return tuple{zero(m.p.typ("reflect", "StructField")), false}
	case "AssignableTo":
		return types.AssignableTo(t, other(1))
	case "ConvertibleTo":
		return types.ConvertibleTo(t, other(1))
	case "Implements":
		it, ok := other(1).Underlying().(*types.Interface)
		if !ok {
			panic(m.reflectPanic("reflect: non-interface type passed to Type.Implements"))
		}
		return m.implements(t, it)
	case "Comparable":
		return types.Comparable(t)
	case "NumMethod":
		return int64(len(m.methodList(t)))
	case "NumIn":
		return int64(t.Underlying().(*types.Signature).Params().Len())
	case "NumOut":
		return int64(t.Underlying().(*types.Signature).Results().Len())
	case "In":
		return m.rtypeIface(t.Underlying().(*types.Signature).Params().At(int(asInt(a[1]))).Type())
	case "Out":
		return m.rtypeIface(t.Underlying().(*types.Signature).Results().At(int(asInt(a[1]))).Type())
	case "IsVariadic":
		return t.Underlying().(*types.Signature).Variadic()
	case "Size":
		return int64(8)
	}
	panic(m.abortf("unsupported", "reflect.Type.%s\n%s", name, m.where()))
}

func regReflect() {
	I := intrinsics
	R := func(v value) rvalue { return v.(rvalue) }
	I["reflect.TypeOf"] = func(fr *frame, a []value) value { return fr.m.rtypeIface(a[0].(iface).t) }
	I["internal/reflectlite.TypeOf"] = func(fr *frame, a []value) value { return fr.m.rtypeIfaceLite(a[0].(iface).t) }
	I["reflect.TypeFor[T]"] = nil
	delete(I, "reflect.TypeFor[T]")
	I["reflect.ValueOf"] = func(fr *frame, a []value) value { return fr.m.ifaceToR(a[0].(iface)) }
	I["reflect.Zero"] = func(fr *frame, a []value) value {
		t := a[0].(iface).v.(rtypeV).t
		return rvalue{t: t, v: zero(t), m: fr.m}
	}
	I["reflect.New"] = func(fr *frame, a []value) value {
		t := a[0].(iface).v.(rtypeV).t
		p := new(value)
		*p = zero(t)
		return rvalue{t: canon(types.NewPointer(t)), v: p, m: fr.m}
	}
	ptrTo := func(fr *frame, a []value) value {
		return fr.m.rtypeIface(types.NewPointer(a[0].(iface).v.(rtypeV).t))
	}
	I["reflect.PointerTo"], I["reflect.PtrTo"] = ptrTo, ptrTo
	I["reflect.Indirect"] = func(fr *frame, a []value) value {
		r := R(a[0])
		if r.valid() && kindOf(r.t) == reflect.Ptr {
			return relem(fr.m, r)
		}
		return r
	}
	I["reflect.DeepEqual"] = func(fr *frame, a []value) value {
		return fromBoolT(fr.m.deepEq(a[0], a[1], 0))
	}
	I["reflect.Copy"] = nil
	delete(I, "reflect.Copy")
	I["reflect.MakeMap"] = func(fr *frame, a []value) value {
		return rvalue{t: a[0].(iface).v.(rtypeV).t, v: fr.m.newMap(), m: fr.m}
	}
	I["reflect.Append"] = func(fr *frame, a []value) value {
		r := R(a[0])
		s := append([]value(nil), r.get().([]value)...)
		for _, x := range a[1].([]value) {
			s = append(s, fr.m.assignTo(R(x), elemOf(fr.m, r.t)))
		}
		return rvalue{t: r.t, v: s, m: fr.m}
	}
	V := func(n string, f func(fr *frame, r rvalue, a []value) value) {
		I["(reflect.Value)."+n] = func(fr *frame, a []value) value {
			r, ok := a[0].(rvalue)
			if !ok {
				panic(fr.m.abortf("internal", "reflect.Value.%s on %T", n, a[0]))
			}
			return f(fr, r, a[1:])
		}
	}
	need := func(m *machine, r rvalue, n string, ks ...reflect.Kind) {
		if !r.valid() {
			panic(m.reflectPanic("reflect: call of reflect.Value." + n + " on zero Value"))
		}
		k := kindOf(r.t)
		for _, x := range ks {
			if x == k {
				return
			}
		}
		panic(m.reflectPanic("reflect: call of reflect.Value." + n + " on " + k.String() + " Value"))
	}
	V("IsValid", func(fr *frame, r rvalue, a []value) value { return r.valid() })
	V("Kind", func(fr *frame, r rvalue, a []value) value {
		if !r.valid() {
			return int64(0)
		}
		return int64(kindOf(r.t))
	})
	V("Type", func(fr *frame, r rvalue, a []value) value {
		if !r.valid() {
			panic(fr.m.reflectPanic("reflect: call of reflect.Value.Type on zero Value"))
		}
		return fr.m.rtypeIface(r.t)
	})
	V("IsNil", func(fr *frame, r rvalue, a []value) value { return isNilVal(fr.m, r, "IsNil") })
	V("IsZero", func(fr *frame, r rvalue, a []value) value {
		if !r.valid() {
			panic(fr.m.reflectPanic("reflect: call of reflect.Value.IsZero on zero Value"))
		}
		switch kindOf(r.t) {
		case reflect.Ptr, reflect.Map, reflect.Slice, reflect.Func, reflect.Chan, reflect.Interface, reflect.UnsafePointer:
			return isNilVal(fr.m, r, "IsZero")
		}
		return fromBoolT(fr.m.eq(r.t, r.get(), zero(r.t)))
	})
	V("Elem", func(fr *frame, r rvalue, a []value) value {
		need(fr.m, r, "Elem", reflect.Ptr, reflect.Interface)
		return relem(fr.m, r)
	})
	V("Interface", func(fr *frame, r rvalue, a []value) value {
		if r.ro {
			panic(fr.m.reflectPanic("reflect.Value.Interface: cannot return value obtained from unexported field or method"))
		}
		return fr.m.rToIface(r)
	})
	V("CanInterface", func(fr *frame, r rvalue, a []value) value {
		if !r.valid() {
			panic(fr.m.reflectPanic("reflect: call of reflect.Value.CanInterface on zero Value"))
		}
		return !r.ro
	})
	V("CanAddr", func(fr *frame, r rvalue, a []value) value { return r.addr != nil })
	V("CanSet", func(fr *frame, r rvalue, a []value) value { return r.addr != nil && !r.ro })
	V("Addr", func(fr *frame, r rvalue, a []value) value {
		if r.addr == nil {
			panic(fr.m.reflectPanic("reflect.Value.Addr of unaddressable value"))
		}
		return rvalue{t: canon(types.NewPointer(r.t)), v: r.addr, ro: r.ro, m: fr.m}
	})
	canSet := func(m *machine, r rvalue, n string) {
		if !r.valid() {
			panic(m.reflectPanic("reflect: call of reflect.Value." + n + " on zero Value"))
		}
		if r.ro {
			panic(m.reflectPanic("reflect: reflect.Value." + n + " using value obtained using unexported field"))
		}
		if r.addr == nil {
			panic(m.reflectPanic("reflect: reflect.Value." + n + " using unaddressable value"))
		}
	}
	V("Set", func(fr *frame, r rvalue, a []value) value {
		m := fr.m
		canSet(m, r, "Set")
		x := R(a[0])
		if x.ro {
			panic(m.reflectPanic("reflect: reflect.Set using value obtained using unexported field"))
		}
		m.storeAgg(r.addr, copyVal(m.assignTo(x, r.t)))
		return nil
	})
	for _, s := range []string{"SetString", "SetInt", "SetUint", "SetBool", "SetFloat"} {
		s := s
		V(s, func(fr *frame, r rvalue, a []value) value {
			canSet(fr.m, r, s)
			v := a[0]
			if k, ok := intKind(r.t); ok {
				v = fr.m.convert(types.Typ[types.Int64], r.t, v)
				_ = k
			}
			fr.m.storeAgg(r.addr, copyVal(v))
			return nil
		})
	}
	V("String", func(fr *frame, r rvalue, a []value) value {
		if !r.valid() {
			return "<invalid Value>"
		}
		if isString(r.t) {
			return r.get()
		}
		return "<" + typeStr(r.t) + " Value>"
	})
	V("Int", func(fr *frame, r rvalue, a []value) value {
		need(fr.m, r, "Int", reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64)
		return fr.m.convert(r.t, types.Typ[types.Int64], r.get())
	})
	V("Uint", func(fr *frame, r rvalue, a []value) value {
		need(fr.m, r, "Uint", reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr)
		return fr.m.convert(r.t, types.Typ[types.Uint64], r.get())
	})
	V("Bool", func(fr *frame, r rvalue, a []value) value { need(fr.m, r, "Bool", reflect.Bool); return r.get() })
	V("Float", func(fr *frame, r rvalue, a []value) value {
		need(fr.m, r, "Float", reflect.Float32, reflect.Float64)
		return r.get()
	})
	ptr := func(fr *frame, r rvalue, a []value) value {
		v := r.get()
		switch v := v.(type) {
		case *value:
			if v == nil {
				return int64(0)
			}
			return fr.m.addrOf(v)
		case *closure:
			if v == nil {
				return int64(0)
			}
			return fr.m.addrOf(v)
		case *gomap:
			if v == nil {
				return int64(0)
			}
			return fr.m.addrOf(v)
		case *gochan:
			if v == nil {
				return int64(0)
			}
			return fr.m.addrOf(v)
		case []value:
			if cap(v) == 0 {
				return int64(0)
			}
			return fr.m.addrOf(&v[:1][0])
		}
		panic(fr.m.reflectPanic("reflect: call of reflect.Value.Pointer on " + kindOf(r.t).String() + " Value"))
	}
	V("Pointer", ptr)
	V("UnsafePointer", func(fr *frame, r rvalue, a []value) value {
		if p, ok := r.get().(*value); ok {
			if p == nil {
				return unsafePtr{}
			}
			return unsafePtr{p}
		}
		panic(fr.m.abortf("unsupported", "reflect.Value.UnsafePointer"))
	})
	V("NumField", func(fr *frame, r rvalue, a []value) value {
		need(fr.m, r, "NumField", reflect.Struct)
		return int64(r.t.Underlying().(*types.Struct).NumFields())
	})
	field := func(fr *frame, r rvalue, i int) value {
		m := fr.m
		st := r.t.Underlying().(*types.Struct)
		if i < 0 || i >= st.NumFields() {
			panic(m.reflectPanic("reflect: Field index out of range"))
		}
		f := st.Field(i)
		var name value = f.Name()
		if sy := m.synth(st); sy != nil {
			name = sy[i].name
		}
		ro := r.ro || !m.branch(m.nameExported(name))
		if r.addr != nil {
			s, ok := (*r.addr).(structure)
			if !ok {
				panic(m.abortf("internal", "reflect field of %T", *r.addr))
			}
			return rvalue{t: canon(f.Type()), addr: &s[i], ro: ro, m: m}
		}
		return rvalue{t: canon(f.Type()), v: r.v.(structure)[i], ro: ro, m: m}
	}
	V("Field", func(fr *frame, r rvalue, a []value) value {
		need(fr.m, r, "Field", reflect.Struct)
		return field(fr, r, int(fr.m.concretize(a[0], ikind{64, true})))
	})
	V("FieldByName", func(fr *frame, r rvalue, a []value) value {
		need(fr.m, r, "FieldByName", reflect.Struct)
		st := r.t.Underlying().(*types.Struct)
		sy := fr.m.synth(st)
		for i := 0; i < st.NumFields(); i++ {
			var name value = st.Field(i).Name()
			if sy != nil {
				name = sy[i].name
			}
			if fr.m.branch(fromBoolT(fr.m.strEq(name, a[0]))) {
				return field(fr, r, i)
			}
		}
		return rvalue{}
	})
	V("Len", func(fr *frame, r rvalue, a []value) value {
		switch v := r.get().(type) {
		case []value:
			return int64(len(v))
		case array:
			return int64(len(v))
		case *gomap:
			if v == nil {
				return int64(0)
			}
			return int64(v.length())
		case string, *symstr:
			return int64(strLen(v))
		}
		panic(fr.m.reflectPanic("reflect: call of reflect.Value.Len on " + kindOf(r.t).String() + " Value"))
	})
	V("Index", func(fr *frame, r rvalue, a []value) value {
		m := fr.m
		i := int(m.concretize(a[0], ikind{64, true}))
		var s []value
		addr := true
		switch v := r.get().(type) {
		case []value:
			s = v
		case array:
			s = v
			addr = r.addr != nil
			if addr {
				s = (*r.addr).(array)
			}
		default:
			panic(m.abortf("unsupported", "reflect.Value.Index of %T", v))
		}
		if i < 0 || i >= len(s) {
			panic(m.reflectPanic("reflect: slice index out of range"))
		}
		if addr {
			return rvalue{t: elemOf(m, r.t), addr: &s[i], ro: r.ro, m: m}
		}
		return rvalue{t: elemOf(m, r.t), v: s[i], ro: r.ro, m: m}
	})
	V("MapKeys", func(fr *frame, r rvalue, a []value) value {
		m := fr.m
		g := r.get().(*gomap)
		kt := canon(r.t.Underlying().(*types.Map).Key())
		it := m.newMapIter(g, true)
		var out []value
		for {
			k, _, ok := it.next(m)
			if !ok {
				break
			}
			out = append(out, rvalue{t: kt, v: k, m: m})
		}
		return out
	})
	V("MapIndex", func(fr *frame, r rvalue, a []value) value {
		m := fr.m
		mt := r.t.Underlying().(*types.Map)
		v, ok := m.mapGet(r.get().(*gomap), mt.Key(), m.assignTo(R(a[0]), mt.Key()))
		if !ok {
			return rvalue{}
		}
		return rvalue{t: canon(mt.Elem()), v: v, m: m}
	})
	V("SetMapIndex", func(fr *frame, r rvalue, a []value) value {
		m := fr.m
		mt := r.t.Underlying().(*types.Map)
		k := m.assignTo(R(a[0]), mt.Key())
		if x := R(a[1]); x.valid() {
			m.mapSet(r.get().(*gomap), mt.Key(), k, m.assignTo(x, mt.Elem()))
		} else {
			m.mapDelete(r.get().(*gomap), mt.Key(), k)
		}
		return nil
	})
	V("NumMethod", func(fr *frame, r rvalue, a []value) value { return int64(len(fr.m.methodList(r.t))) })
	V("MethodByName", func(fr *frame, r rvalue, a []value) value {
		m := fr.m
		n, ok := conc(a[0])
		if !ok {
			panic(m.abortf("unsupported", "MethodByName of a symbolic name"))
		}
		if !m.hasMethod(r.t, n) {
			return rvalue{}
		}
		sg := methodSig(m, r.t, n)
		c := m.methodByName(r.t, nil, n)
		recv := r.get()
		t := canon(types.NewSignatureType(nil, nil, nil, sg.Params(), sg.Results(), sg.Variadic()))
		return rvalue{t: t, v: &closure{nam: "method value", nat: func(fr *frame, b []value) value {
			return fr.m.callClosure(fr, c, append([]value{recv}, b...))
		}}, m: m}
	})
	V("Call", func(fr *frame, r rvalue, a []value) value {
		m := fr.m
		need(m, r, "Call", reflect.Func)
		sg := r.t.Underlying().(*types.Signature)
		cl := r.get().(*closure)
		if cl == nil {
			panic(m.reflectPanic("reflect: call of nil function"))
		}
		in := a[0].([]value)
		n := sg.Params().Len()
		var args []value
		if sg.Variadic() {
			n--
		}
		if len(in) < n || (!sg.Variadic() && len(in) > n) {
			panic(m.reflectPanic("reflect: Call with wrong number of input arguments"))
		}
		for i := 0; i < n; i++ {
			args = append(args, m.assignTo(R(in[i]), canon(sg.Params().At(i).Type())))
		}
		if sg.Variadic() {
			et := sg.Params().At(n).Type().(*types.Slice).Elem()
			var rest []value
			for _, x := range in[n:] {
				rest = append(rest, m.assignTo(R(x), canon(et)))
			}
			args = append(args, rest)
		}
		res := m.callClosure(fr, cl, args)
		var out []value
		switch sg.Results().Len() {
		case 0:
		case 1:
			out = append(out, rvalue{t: canon(sg.Results().At(0).Type()), v: res, m: m})
		default:
			for i, x := range res.(tuple) {
				out = append(out, rvalue{t: canon(sg.Results().At(i).Type()), v: x, m: m})
			}
		}
		return out
	})
	V("Convert", func(fr *frame, r rvalue, a []value) value {
		m := fr.m
		to := a[0].(iface).v.(rtypeV).t
		if _, ok := to.Underlying().(*types.Interface); ok {
			return rvalue{t: to, v: m.assignTo(r, to), m: m}
		}
		if !types.ConvertibleTo(r.t, to) {
			panic(m.reflectPanic("reflect.Value.Convert: value of type " + typeStr(r.t) + " cannot be converted to type " + typeStr(to)))
		}
		if kindOf(r.t) == kindOf(to) && kindOf(r.t) >= reflect.Array && kindOf(r.t) != reflect.String {
			return rvalue{t: to, v: r.get(), m: m}
		}
		return rvalue{t: to, v: m.convert(r.t, to, r.get()), m: m}
	})
	I["reflect.Swapper"] = func(fr *frame, a []value) value {
		s := a[0].(iface).v.([]value)
		return &closure{nam: "swapper", nat: func(fr *frame, b []value) value {
			i, j := asInt(b[0]), asInt(b[1])
			x, y := copyVal(s[i]), copyVal(s[j])
			fr.m.storeAgg(&s[i], y)
			fr.m.storeAgg(&s[j], x)
			return nil
		}}
	}
	I["internal/reflectlite.Swapper"] = I["reflect.Swapper"]
	I["internal/reflectlite.ValueOf"] = func(fr *frame, a []value) value {
		panic(fr.m.abortf("unsupported", "reflectlite.ValueOf\n%s", fr.m.where()))
	}
	I["errors.As"] = func(fr *frame, a []value) value {
		m := fr.m
		tgt := a[1].(iface)
		if tgt.t == nil {
			panic(m.targetPanicf("errors: target cannot be nil"))
		}
		p, ok := tgt.v.(*value)
		if !ok || p == nil {
			panic(m.targetPanicf("errors: target must be a non-nil pointer"))
		}
		et := elemOf(m, tgt.t)
		var walk func(e iface) bool
		walk = func(e iface) bool {
			for e.t != nil {
				if it, ok := et.Underlying().(*types.Interface); ok {
					if m.implements(e.t, it) {
						m.storeAgg(p, copyVal(e))
						return true
					}
				} else if e.t == et {
					m.storeAgg(p, copyVal(e.v))
					return true
				}
				if m.hasMethod(e.t, "As") {
					if m.branch(m.callClosure(fr, m.methodByName(e.t, nil, "As"), []value{e.v, tgt})) {
						return true
					}
				}
				if !m.hasMethod(e.t, "Unwrap") {
					return false
				}
				r := m.callClosure(fr, m.methodByName(e.t, nil, "Unwrap"), []value{e.v})
				if l, ok := r.([]value); ok {
					for _, x := range l {
						if walk(x.(iface)) {
							return true
						}
					}
					return false
				}
				e = r.(iface)
			}
			return false
		}
		return walk(a[0].(iface))
	}
	I["errors.Is"] = func(fr *frame, a []value) value {
		m := fr.m
		tgt := a[1].(iface)
		if tgt.t == nil {
			return a[0].(iface).t == nil
		}
		cmp := types.Comparable(tgt.t)
		var walk func(e iface) bool
		walk = func(e iface) bool {
			for e.t != nil {
				if cmp && e.t == tgt.t && m.branch(fromBoolT(m.eq(e.t, e.v, tgt.v))) {
					return true
				}
				if m.hasMethod(e.t, "Is") {
					if m.branch(m.callClosure(fr, m.methodByName(e.t, nil, "Is"), []value{e.v, tgt})) {
						return true
					}
				}
				if !m.hasMethod(e.t, "Unwrap") {
					return false
				}
				r := m.callClosure(fr, m.methodByName(e.t, nil, "Unwrap"), []value{e.v})
				if l, ok := r.([]value); ok {
					for _, x := range l {
						if walk(x.(iface)) {
							return true
						}
					}
					return false
				}
				e = r.(iface)
			}
			return false
		}
		return walk(a[0].(iface))
	}
}

func relem(m *machine, r rvalue) rvalue {
	v := r.get()
	if _, ok := r.t.Underlying().(*types.Interface); ok {
		i := v.(iface)
		x := m.ifaceToR(i)
		x.ro = r.ro
		return x
	}
	p := m.ptr(v)
	if p == nil {
		return rvalue{}
	}
	return rvalue{t: elemOf(m, r.t), addr: p, ro: r.ro, m: m}
}

// assignTo gives the representation of r as a value of type t.
func (m *machine) assignTo(r rvalue, t types.Type) value {
	if !r.valid() {
		panic(m.reflectPanic("reflect: call of reflect.Value.Set on zero Value"))
	}
	if !types.AssignableTo(r.t, t) {
		panic(m.reflectPanic("reflect.Set: value of type " + typeStr(r.t) + " is not assignable to type " + typeStr(t)))
	}
	v := r.get()
	if _, ok := t.Underlying().(*types.Interface); ok {
		if _, ok := r.t.Underlying().(*types.Interface); ok {
			return v
		}
		return iface{r.t, copyVal(v)}
	}
	return copyVal(v)
}

var addrKey = new(int)

// addrOf gives an object a distinct non-zero address, fixed within the path.
func (m *machine) addrOf(o any) value {
	tab, _ := m.side[addrKey].(map[any]int64)
	if tab == nil {
		tab = map[any]int64{}
		m.side[addrKey] = tab
	}
	if n, ok := tab[o]; ok {
		return n
	}
	n := int64(0xc000010000 + 64*len(tab))
	tab[o] = n
	return n
}

func (m *machine) deepEq(x, y value, depth int) *Term {
	tt := m.tt
	if depth > 40 {
		panic(m.abortf("unsupported", "DeepEqual too deep"))
	}
	switch a := x.(type) {
	case iface:
		b := y.(iface)
		if a.t == nil || b.t == nil {
			return tt.bool(a.t == nil && b.t == nil)
		}
		if a.t != b.t {
			return tt.tF
		}
		return m.deepEq(a.v, b.v, depth+1)
	case *value:
		b := y.(*value)
		if a == b {
			return tt.tT
		}
		if a == nil || b == nil {
			return tt.tF
		}
		return m.deepEq(*a, *b, depth+1)
	case []value:
		b := y.([]value)
		if (a == nil) != (b == nil) || len(a) != len(b) {
			return tt.tF
		}
		r := tt.tT
		for i := range a {
			r = tt.and(r, m.deepEq(a[i], b[i], depth+1))
		}
		return r
	case array:
		return m.deepEq([]value(a), []value(y.(array)), depth)
	case structure:
		return m.deepEq([]value(a), []value(y.(structure)), depth)
	case *gomap:
		b := y.(*gomap)
		if (a == nil) != (b == nil) {
			return tt.tF
		}
		if a == nil || a == b {
			return tt.tT
		}
		if a.length() != b.length() {
			return tt.tF
		}
		r := tt.tT
		for i, k := range a.keys {
			if k == value(tomb) {
				continue
			}
			v, ok := m.mapGet(b, nil, k)
			if !ok {
				return tt.tF
			}
			r = tt.and(r, m.deepEq(a.vals[i], v, depth+1))
		}
		return r
	case *closure:
		return tt.bool(a == nil && y.(*closure) == nil)
	}
	return m.eq(nil, x, y)
}

var _ = fmt.Sprint
