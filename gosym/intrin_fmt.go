package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A compact re-implementation of package fmt over engine values.

type fmtState struct {
	fr    *frame
	m     *machine
	out   []value
	wraps []int
}

func (f *fmtState) str(s string) { f.out = append(f.out, strBytes(s)...) }
func (f *fmtState) val(v value)  { f.out = append(f.out, strBytes(v)...) }

type verbSpec struct {
	verb                            rune
	plus, minus, sharp, space, zero bool
	wid, prec                       int
	hasWid, hasPrec                 bool
}

func (s verbSpec) host() string {
	var sb strings.Builder
	sb.WriteByte('%')
	if s.plus {
		sb.WriteByte('+')
	}
	if s.minus {
		sb.WriteByte('-')
	}
	if s.sharp {
		sb.WriteByte('#')
	}
	if s.space {
		sb.WriteByte(' ')
	}
	if s.zero {
		sb.WriteByte('0')
	}
	if s.hasWid {
		sb.WriteString(strconv.Itoa(s.wid))
	}
	if s.hasPrec {
		sb.WriteByte('.')
		sb.WriteString(strconv.Itoa(s.prec))
	}
	sb.WriteRune(s.verb)
	return sb.String()
}

func (f *fmtState) printf(format value, args []value) {
	fb := strBytes(format)
	arg := 0
	isByte := func(i int, c byte) bool {
		if i >= len(fb) {
			return false
		}
		if n, ok := fb[i].(int64); ok {
			return byte(n) == c
		}
		return f.m.branch(fromBoolT(f.m.eq(nil, fb[i], int64(c))))
	}
	for i := 0; i < len(fb); {
		if !isByte(i, '%') {
			f.out = append(f.out, fb[i])
			i++
			continue
		}
		i++
		var sp verbSpec
	flags:
		for i < len(fb) {
			switch {
			case isByte(i, '+'):
				sp.plus = true
			case isByte(i, '-'):
				sp.minus = true
			case isByte(i, '#'):
				sp.sharp = true
			case isByte(i, ' '):
				sp.space = true
			case isByte(i, '0'):
				sp.zero = true
			default:
				break flags
			}
			i++
		}
		num := func() (int, bool) {
			n, ok := 0, false
			for i < len(fb) {
				c := f.m.concretize(fb[i], ikind{8, false})
				if c < '0' || c > '9' {
					break
				}
				n, ok = n*10+int(c-'0'), true
				i++
			}
			return n, ok
		}
		if isByte(i, '*') {
			i++
			if arg < len(args) {
				sp.wid, sp.hasWid = int(args[arg].(iface).v.(int64)), true
				arg++
			}
		} else {
			sp.wid, sp.hasWid = num()
		}
		if isByte(i, '.') {
			i++
			if isByte(i, '*') {
				i++
				if arg < len(args) {
					sp.prec, sp.hasPrec = int(args[arg].(iface).v.(int64)), true
					arg++
				}
			} else {
				sp.prec, _ = num()
				sp.hasPrec = true
			}
		}
		if isByte(i, '[') {
			i++
			n, _ := num()
			i++ // ]
			arg = n - 1
		}
		if i >= len(fb) {
			f.str("%!(NOVERB)")
			break
		}
		r, n := f.m.decodeRune(fb[i:])
		i += n
		sp.verb = rune(f.m.concretize(r, ikind{32, true}))
		if sp.verb == '%' {
			f.str("%")
			continue
		}
		if arg >= len(args) {
			f.str("%!" + string(sp.verb) + "(MISSING)")
			continue
		}
		if sp.verb == 'w' {
			f.wraps = append(f.wraps, arg)
		}
		f.arg(args[arg].(iface), sp)
		arg++
	}
	if arg < len(args) && arg >= 0 {
		f.str("%!(EXTRA ")
		for j := arg; j < len(args); j++ {
			if j > arg {
				f.str(", ")
			}
			a := args[j].(iface)
			if a.t == nil {
				f.str("<nil>")
				continue
			}
			f.str(typeStr(a.t) + "=")
			f.arg(a, verbSpec{verb: 'v'})
		}
		f.str(")")
	}
}

func typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (f *fmtState) pad(v value, sp verbSpec) {
	if sp.hasPrec && (sp.verb == 's' || sp.verb == 'v') {
		if sp.prec < strLen(v) {
			v = strSlice(v, 0, sp.prec)
		}
	}
	n := strLen(v)
	if sp.hasWid && n < sp.wid {
		p := strings.Repeat(" ", sp.wid-n)
		if sp.minus {
			f.val(v)
			f.str(p)
		} else {
			f.str(p)
			f.val(v)
		}
		return
	}
	f.val(v)
}

func (f *fmtState) arg(a iface, sp verbSpec) {
	if a.t == nil {
		switch sp.verb {
		case 'v', 'T':
			f.pad("<nil>", sp)
		default:
			f.str("%!" + string(sp.verb) + "(<nil>)")
		}
		return
	}
	switch sp.verb {
	case 'T':
		f.pad(typeStr(a.t), sp)
		return
	case 'p':
		f.str("0xc000012345")
		return
	case 'w':
		sp.verb = 'v'
	}
	f.value(a.t, a.v, sp, 0)
}

// method tries Error() and String(); it reports whether it handled the operand.
func (f *fmtState) method(t types.Type, v value, sp verbSpec) bool {
	if sp.verb == 'v' && sp.sharp {
		return false
	}
	switch sp.verb {
	case 'v', 's', 'x', 'X', 'q':
	default:
		return false
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		return false
	}
	if _, ok := v.(rtypeV); ok {
		f.pad(typeStr(v.(rtypeV).t), sp)
		return true
	}
	if r, ok := v.(rvalue); ok {
		if !r.valid() {
			f.str("<invalid reflect.Value>")
			return true
		}
		f.value(r.t, r.get(), sp, 0)
		return true
	}
	name := ""
	for _, n := range []string{"Error", "String"} {
		if f.m.hasMethod(t, n) {
			if sg := methodSig(f.m, t, n); sg != nil && sg.Params().Len() == 0 && sg.Results().Len() == 1 && isString(sg.Results().At(0).Type()) {
				name = n
				break
			}
		}
	}
	if name == "" {
		return false
	}
	s, pan := f.callString(t, v, name)
	if pan != nil {
		if p, ok := v.(*value); ok && p == nil {
			f.str("<nil>")
			return true
		}
		f.str("%!" + string(sp.verb) + "(PANIC=" + name + " method: ")
		f.arg(pan.v.(iface), verbSpec{verb: 'v'})
		f.str(")")
		return true
	}
	f.text(s, sp)
	return true
}

func methodSig(m *machine, t types.Type, name string) *types.Signature {
	sel := m.p.prog.MethodSets.MethodSet(t).Lookup(nil, name)
	if sel == nil {
		return nil
	}
	return sel.Type().(*types.Signature)
}

func (f *fmtState) callString(t types.Type, v value, name string) (s value, pan *targetPanic) {
	top := f.fr.g.top
	defer func() {
		if r := recover(); r != nil {
			tp, ok := r.(*targetPanic)
			if !ok {
				panic(r)
			}
			f.fr.g.top = top
			pan = tp
		}
	}()
	s = f.m.callClosure(&frame{m: f.m, g: f.fr.g, caller: nil, depth: f.fr.depth}, f.m.methodByName(t, nil, name), []value{copyVal(v)})
	return
}

func (f *fmtState) text(s value, sp verbSpec) {
	switch sp.verb {
	case 'q':
		f.pad(f.quote(s), verbSpec{verb: 'v', hasWid: sp.hasWid, wid: sp.wid, minus: sp.minus})
	case 'x', 'X':
		c, ok := conc(s)
		if !ok {
			panic(f.m.abortf("unsupported", "%%x of a symbolic string"))
		}
		f.str(fmt.Sprintf(sp.host(), c))
	case 's', 'v':
		if sp.sharp && sp.verb == 'v' {
			f.val(f.quote(s))
			return
		}
		f.pad(s, sp)
	default:
		f.str("%!" + string(sp.verb) + "(string=")
		f.val(s)
		f.str(")")
	}
}

func (f *fmtState) quote(s value) value {
	if c, ok := conc(s); ok {
		return strconv.Quote(c)
	}
	m := f.m
	out := []value{int64('"')}
	for _, b := range strBytes(s) {
		if t, ok := b.(*Term); ok {
			plain := m.tt.and(m.tt.and(m.tt.cmp(tUle, m.tt.bv(8, 0x20), t), m.tt.cmp(tUlt, t, m.tt.bv(8, 0x7f))),
				m.tt.and(m.tt.not(m.tt.eq(t, m.tt.bv(8, '"'))), m.tt.not(m.tt.eq(t, m.tt.bv(8, '\\')))))
			if m.branch(fromBoolT(plain)) {
				out = append(out, t)
				continue
			}
		}
		c := m.concretize(b, ikind{8, false})
		q := strconv.Quote(string([]byte{byte(c)}))
		out = append(out, strBytes(q[1:len(q)-1])...)
	}
	out = append(out, int64('"'))
	return mkString(out)
}

func (f *fmtState) value(t types.Type, v value, sp verbSpec, depth int) {
	if depth > 12 {
		f.str("...")
		return
	}
	if f.method(t, v, sp) {
		return
	}
	if sp.sharp && sp.verb == 'v' && depth == 0 {
		switch t.Underlying().(type) {
		case *types.Struct, *types.Pointer, *types.Map, *types.Slice:
			f.str(typeStr(t))
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			b := f.m.branch(v)
			f.pad(fmt.Sprintf(sp.hostAs("tv", "t"), b), verbSpec{verb: 'v'})
		case u.Info()&types.IsInteger != 0:
			k, _ := intKind(t)
			n := f.m.concretize(f.m.fixSel(v, k), k)
			if k.signed {
				f.str(fmt.Sprintf(sp.host(), n))
			} else if sp.verb == 'v' && sp.sharp {
				f.str(fmt.Sprintf("%#x", uint64(n)))
			} else {
				f.str(fmt.Sprintf(sp.host(), uint64(n)))
			}
		case u.Info()&types.IsFloat != 0:
			f.str(fmt.Sprintf(sp.host(), v.(float64)))
		case u.Info()&types.IsString != 0:
			f.text(v, sp)
		default:
			f.str("?")
		}
	case *types.Interface:
		i := v.(iface)
		if i.t == nil {
			f.str("<nil>")
			return
		}
		f.value(i.t, i.v, sp, depth+1)
	case *types.Pointer:
		p, _ := v.(*value)
		if p == nil {
			f.str("<nil>")
			return
		}
		if depth == 0 {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Slice, *types.Array, *types.Map:
				f.str("&")
				f.value(u.Elem(), *p, sp, depth+1)
				return
			}
		}
		f.str("0xc000012345")
	case *types.Struct:
		s, ok := v.(structure)
		if !ok {
			f.str("{?}")
			return
		}
		f.str("{")
		for i := range s {
			if i > 0 {
				f.str(" ")
			}
			if sp.plus || sp.sharp {
				f.str(u.Field(i).Name() + ":")
			}
			f.value(u.Field(i).Type(), s[i], sp, depth+1)
		}
		f.str("}")
	case *types.Slice, *types.Array:
		var elem types.Type
		var s []value
		if sl, ok := u.(*types.Slice); ok {
			elem = sl.Elem()
			s, _ = v.([]value)
		} else {
			elem = u.(*types.Array).Elem()
			s = v.(array)
		}
		if b, ok := elem.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			switch sp.verb {
			case 's', 'q':
				f.text(mkString(s), sp)
				return
			case 'x', 'X':
				c, ok := conc(mkString(s))
				if !ok {
					panic(f.m.abortf("unsupported", "%%x of symbolic bytes"))
				}
				f.str(fmt.Sprintf(sp.host(), []byte(c)))
				return
			}
		}
		f.str("[")
		for i, x := range s {
			if i > 0 {
				f.str(" ")
			}
			f.value(elem, x, sp, depth+1)
		}
		f.str("]")
	case *types.Map:
		g, _ := v.(*gomap)
		f.str("map[")
		if g != nil {
			type ent struct {
				s string
				i int
			}
			var es []ent
			for i, k := range g.keys {
				if k == value(tomb) {
					continue
				}
				sub := &fmtState{fr: f.fr, m: f.m}
				sub.value(u.Key(), k, sp, depth+1)
				c, _ := conc(mkString(sub.out))
				es = append(es, ent{c, i})
			}
			sort.SliceStable(es, func(a, b int) bool { return es[a].s < es[b].s })
			for n, e := range es {
				if n > 0 {
					f.str(" ")
				}
				f.value(u.Key(), g.keys[e.i], sp, depth+1)
				f.str(":")
				f.value(u.Elem(), g.vals[e.i], sp, depth+1)
			}
		}
		f.str("]")
	case *types.Signature, *types.Chan:
		f.str("0x47b0a0")
	default:
		f.str("?")
	}
}

func (s verbSpec) hostAs(ok, def string) string {
	if !strings.ContainsRune(ok, s.verb) {
		return s.host()
	}
	return "%" + def
}

func (f *fmtState) print(args []value, ln bool) {
	prevStr := false
	for i, x := range args {
		a := x.(iface)
		isS := a.t != nil && isString(a.t)
		if i > 0 && (ln || (!isS && !prevStr)) {
			f.str(" ")
		}
		f.arg(a, verbSpec{verb: 'v'})
		prevStr = isS
	}
	if ln {
		f.str("\n")
	}
}

func varargs(v value) []value {
	s, _ := v.([]value)
	return s
}

func (m *machine) sprintf(fr *frame, format value, args []value) *fmtState {
	f := &fmtState{fr: fr, m: m}
	f.printf(format, args)
	return f
}

func (m *machine) write(fr *frame, w value, data []value) value {
	i := w.(iface)
	if i.t == nil {
		panic(m.nilDeref())
	}
	return m.callClosure(fr, m.methodByName(i.t, nil, "Write"), []value{i.v, append([]value(nil), data...)})
}

func regFmt() {
	I := intrinsics
	I["fmt.Sprintf"] = func(fr *frame, a []value) value {
		return mkString(fr.m.sprintf(fr, a[0], varargs(a[1])).out)
	}
	I["fmt.Sprint"] = func(fr *frame, a []value) value {
		f := &fmtState{fr: fr, m: fr.m}
		f.print(varargs(a[0]), false)
		return mkString(f.out)
	}
	I["fmt.Sprintln"] = func(fr *frame, a []value) value {
		f := &fmtState{fr: fr, m: fr.m}
		f.print(varargs(a[0]), true)
		return mkString(f.out)
	}
	I["fmt.Errorf"] = func(fr *frame, a []value) value {
		m := fr.m
		args := varargs(a[1])
		f := m.sprintf(fr, a[0], args)
		msg := mkString(f.out)
		switch len(f.wraps) {
		case 0:
			t := canon(types.NewPointer(m.p.typ("errors", "errorString")))
			p := new(value)
			*p = structure{msg}
			return iface{t, p}
		case 1:
			t := canon(types.NewPointer(m.p.typ("fmt", "wrapError")))
			p := new(value)
			*p = structure{msg, asError(m, args[f.wraps[0]])}
			return iface{t, p}
		default:
			t := canon(types.NewPointer(m.p.typ("fmt", "wrapErrors")))
			var errs []value
			for _, w := range f.wraps {
				errs = append(errs, asError(m, args[w]))
			}
			p := new(value)
			*p = structure{msg, errs}
			return iface{t, p}
		}
	}
	I["fmt.Fprintf"] = func(fr *frame, a []value) value {
		return fr.m.write(fr, a[0], fr.m.sprintf(fr, a[1], varargs(a[2])).out)
	}
	fpr := func(ln bool) intrFn {
		return func(fr *frame, a []value) value {
			f := &fmtState{fr: fr, m: fr.m}
			f.print(varargs(a[1]), ln)
			return fr.m.write(fr, a[0], f.out)
		}
	}
	I["fmt.Fprint"], I["fmt.Fprintln"] = fpr(false), fpr(true)
	stdout := func(fr *frame) value {
		m := fr.m
		g := m.p.byPath["os"].Members["Stdout"]
		c := m.global(m.p.globalIndex(g.(*ssa.Global)))
		return iface{canon(types.NewPointer(m.p.typ("os", "File"))), *c}
	}
	I["fmt.Printf"] = func(fr *frame, a []value) value {
		return fr.m.write(fr, stdout(fr), fr.m.sprintf(fr, a[0], varargs(a[1])).out)
	}
	pr := func(ln bool) intrFn {
		return func(fr *frame, a []value) value {
			f := &fmtState{fr: fr, m: fr.m}
			f.print(varargs(a[0]), ln)
			return fr.m.write(fr, stdout(fr), f.out)
		}
	}
	I["fmt.Print"], I["fmt.Println"] = pr(false), pr(true)
	I["fmt.Appendf"] = func(fr *frame, a []value) value {
		f := fr.m.sprintf(fr, a[1], varargs(a[2]))
		return append(append([]value(nil), a[0].([]value)...), f.out...)
	}
	app := func(ln bool) intrFn {
		return func(fr *frame, a []value) value {
			f := &fmtState{fr: fr, m: fr.m}
			f.print(varargs(a[1]), ln)
			return append(append([]value(nil), a[0].([]value)...), f.out...)
		}
	}
	I["fmt.Append"], I["fmt.Appendln"] = app(false), app(true)
}

func asError(m *machine, v value) value {
	i := v.(iface)
	if i.t != nil && m.hasMethod(i.t, "Error") {
		return i
	}
	return iface{}
}
