package main

import (
	"bytes"
	"errors"
	"fmt"
	"go/types"
	"reflect"
	"regexp"
	"regexp/syntax"
	"strings"
	"sync"
	"text/template"
	"unicode/utf8"
)

// ---- regular expressions: the host's regexp on concrete text, a backtracking
// matcher over the host's compiled program on text with symbolic (ASCII) bytes.

type rex struct {
	src  string
	re   *regexp.Regexp
	prog *syntax.Prog
	ncap int
}

var rexCache sync.Map

func getRex(src string) (*rex, error) {
	if r, ok := rexCache.Load(src); ok {
		return r.(*rex), nil
	}
	re, err := regexp.Compile(src)
	if err != nil {
		return nil, err
	}
	ast, err := syntax.Parse(src, syntax.Perl)
	if err != nil {
		return nil, err
	}
	n := ast.MaxCap()
	prog, err := syntax.Compile(ast.Simplify())
	if err != nil {
		return nil, err
	}
	r := &rex{src, re, prog, 2 * (n + 1)}
	rexCache.Store(src, r)
	return r, nil
}

func (m *machine) newRegexp(src string) value {
	t := m.p.typ("regexp", "Regexp")
	p := new(value)
	*p = zero(t)
	(*p).(structure)[0] = src // expr is the first field
	return p
}

func (m *machine) rexOf(v value) *rex {
	p := m.ptr(v)
	if p == nil {
		panic(m.nilDeref())
	}
	src, ok := conc((*p).(structure)[0])
	if !ok {
		panic(m.abortf("unsupported", "symbolic regular expression"))
	}
	r, err := getRex(src)
	if err != nil {
		panic(m.abortf("internal", "regexp: %v", err))
	}
	return r
}

type btState struct {
	m    *machine
	r    *rex
	s    []value
	seen map[[2]int]bool
	caps []int
}

func (b *btState) isByte(i int, f func(c byte) bool) bool {
	if i < 0 || i >= len(b.s) {
		return false
	}
	switch x := b.s[i].(type) {
	case int64:
		return f(byte(x))
	case *Term:
		t := b.m.tt.tF
		for c := 0; c < 256; {
			if !f(byte(c)) {
				c++
				continue
			}
			j := c
			for j+1 < 256 && f(byte(j+1)) {
				j++
			}
			lo, hi := b.m.tt.bv(8, uint64(c)), b.m.tt.bv(8, uint64(j))
			t = b.m.tt.or(t, b.m.tt.and(b.m.tt.cmp(tUle, lo, x), b.m.tt.cmp(tUle, x, hi)))
			c = j + 1
		}
		return b.m.branch(fromBoolT(b.m.foldDomain(t)))
	}
	panic("isByte")
}

// runeAt decodes a rune for matching; symbolic bytes are single-byte runes.
func (b *btState) step(i int, f func(r rune) bool) (bool, int) {
	if i >= len(b.s) {
		return false, 0
	}
	if x, ok := b.s[i].(int64); ok {
		if x < utf8.RuneSelf {
			return f(rune(x)), 1
		}
		var buf []byte
		for j := i; j < len(b.s) && j < i+4; j++ {
			c, ok := b.s[j].(int64)
			if !ok {
				break
			}
			buf = append(buf, byte(c))
		}
		r, n := utf8.DecodeRune(buf)
		return f(r), n
	}
	return b.isByte(i, func(c byte) bool { return c < utf8.RuneSelf && f(rune(c)) }), 1
}

func isWord(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

func (b *btState) empty(op syntax.EmptyOp, i int) bool {
	n := len(b.s)
	if op&syntax.EmptyBeginText != 0 && i != 0 {
		return false
	}
	if op&syntax.EmptyEndText != 0 && i != n {
		return false
	}
	nl := func(c byte) bool { return c == '\n' }
	if op&syntax.EmptyBeginLine != 0 && i != 0 && !b.isByte(i-1, nl) {
		return false
	}
	if op&syntax.EmptyEndLine != 0 && i != n && !b.isByte(i, nl) {
		return false
	}
	if op&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
		w := b.isByte(i-1, isWord) != b.isByte(i, isWord)
		if op&syntax.EmptyWordBoundary != 0 && !w {
			return false
		}
		if op&syntax.EmptyNoWordBoundary != 0 && w {
			return false
		}
	}
	return true
}

func (b *btState) match(pc uint32, i int) bool {
	k := [2]int{int(pc), i}
	if b.seen[k] {
		return false
	}
	b.seen[k] = true
	in := &b.r.prog.Inst[pc]
	switch in.Op {
	case syntax.InstAlt, syntax.InstAltMatch:
		return b.match(in.Out, i) || b.match(in.Arg, i)
	case syntax.InstCapture:
		if int(in.Arg) < len(b.caps) {
			old := b.caps[in.Arg]
			b.caps[in.Arg] = i
			if b.match(in.Out, i) {
				return true
			}
			b.caps[in.Arg] = old
			return false
		}
		return b.match(in.Out, i)
	case syntax.InstEmptyWidth:
		return b.empty(syntax.EmptyOp(in.Arg), i) && b.match(in.Out, i)
	case syntax.InstMatch:
		b.caps[1] = i
		return true
	case syntax.InstFail:
		return false
	case syntax.InstNop:
		return b.match(in.Out, i)
	case syntax.InstRune, syntax.InstRune1:
		ok, n := b.step(i, in.MatchRune)
		return ok && b.match(in.Out, i+n)
	case syntax.InstRuneAny:
		ok, n := b.step(i, func(rune) bool { return true })
		return ok && b.match(in.Out, i+n)
	case syntax.InstRuneAnyNotNL:
		ok, n := b.step(i, func(r rune) bool { return r != '\n' })
		return ok && b.match(in.Out, i+n)
	}
	panic("regexp instruction")
}

// find gives the leftmost-first match at or after pos.
func (m *machine) rexFind(r *rex, s []value, pos int) []int {
	for i := pos; i <= len(s); i++ {
		b := &btState{m: m, r: r, s: s, seen: map[[2]int]bool{}, caps: make([]int, r.ncap)}
		for j := range b.caps {
			b.caps[j] = -1
		}
		b.caps[0] = i
		if b.match(uint32(r.prog.Start), i) {
			b.caps[0] = i
			return b.caps
		}
	}
	return nil
}

func (m *machine) rexAll(r *rex, s []value, n int) [][]int {
	if c, ok := conc(mkString(s)); ok {
		return r.re.FindAllStringSubmatchIndex(c, n)
	}
	var out [][]int
	pos, prevEnd := 0, -1
	for pos <= len(s) && (n < 0 || len(out) < n) {
		c := m.rexFind(r, s, pos)
		if c == nil {
			break
		}
		accept := true
		if c[1] == c[0] && c[0] == prevEnd {
			accept = false
		}
		if c[1] > pos {
			pos = c[1]
		} else {
			pos++
		}
		if c[1] == c[0] && pos <= c[1] {
			pos = c[1] + 1
		}
		prevEnd = c[1]
		if accept {
			out = append(out, c)
		}
	}
	return out
}

func intsVal(a []int) value {
	if a == nil {
		return []value(nil)
	}
	s := make([]value, len(a))
	for i, x := range a {
		s[i] = int64(x)
	}
	return s
}

func regRegexp() {
	I := intrinsics
	comp := func(fr *frame, a []value) (value, error) {
		s, ok := conc(a[0])
		if !ok {
			b := strBytes(a[0])
			out := make([]value, len(b))
			for i := range b {
				out[i] = fr.m.concretize(b[i], ikind{8, false})
			}
			s = mkString(out).(string)
		}
		if _, err := getRex(s); err != nil {
			return nil, err
		}
		return fr.m.newRegexp(s), nil
	}
	I["regexp.Compile"] = func(fr *frame, a []value) value {
		v, err := comp(fr, a)
		if err != nil {
			return tuple{(*value)(nil), fr.m.errorVal(err.Error())}
		}
		return tuple{v, iface{}}
	}
	I["regexp.MustCompile"] = func(fr *frame, a []value) value {
		v, err := comp(fr, a)
		if err != nil {
			panic(fr.m.targetPanicf("regexp: Compile(%v): %v", a[0], err))
		}
		return v
	}
	I["regexp.QuoteMeta"] = func(fr *frame, a []value) value {
		if s, ok := conc(a[0]); ok {
			return regexp.QuoteMeta(s)
		}
		var out []value
		for _, x := range strBytes(a[0]) {
			b := &btState{m: fr.m, s: []value{x}}
			if b.isByte(0, func(c byte) bool { return strings.IndexByte(`\.+*?()|[]{}^$`, c) >= 0 }) {
				out = append(out, int64('\\'))
			}
			out = append(out, x)
		}
		return mkString(out)
	}
	I["regexp.MatchString"] = func(fr *frame, a []value) value {
		v, err := comp(fr, a)
		if err != nil {
			return tuple{false, fr.m.errorVal(err.Error())}
		}
		return tuple{fr.m.rexMatch(fr.m.rexOf(v), seqOf(a[1])), iface{}}
	}
	M := func(n string, f func(m *machine, fr *frame, r *rex, a []value) value) {
		I["(*regexp.Regexp)."+n] = func(fr *frame, a []value) value { return f(fr.m, fr, fr.m.rexOf(a[0]), a[1:]) }
	}
	M("String", func(m *machine, fr *frame, r *rex, a []value) value { return r.src })
	M("MatchString", func(m *machine, fr *frame, r *rex, a []value) value { return m.rexMatch(r, seqOf(a[0])) })
	M("Match", func(m *machine, fr *frame, r *rex, a []value) value { return m.rexMatch(r, seqOf(a[0])) })
	M("NumSubexp", func(m *machine, fr *frame, r *rex, a []value) value { return int64(r.ncap/2 - 1) })
	M("FindStringIndex", func(m *machine, fr *frame, r *rex, a []value) value {
		c := m.rexAll(r, seqOf(a[0]), 1)
		if len(c) == 0 {
			return []value(nil)
		}
		return intsVal(c[0][:2])
	})
	I["(*regexp.Regexp).FindIndex"] = I["(*regexp.Regexp).FindStringIndex"]
	M("FindAllIndex", func(m *machine, fr *frame, r *rex, a []value) value {
		var out []value
		for _, c := range m.rexAll(r, seqOf(a[0]), int(asInt(a[1]))) {
			out = append(out, intsVal(c[:2]))
		}
		return out
	})
	I["(*regexp.Regexp).FindAllStringIndex"] = I["(*regexp.Regexp).FindAllIndex"]
	M("FindSubmatchIndex", func(m *machine, fr *frame, r *rex, a []value) value {
		c := m.rexAll(r, seqOf(a[0]), 1)
		if len(c) == 0 {
			return []value(nil)
		}
		return intsVal(c[0])
	})
	I["(*regexp.Regexp).FindStringSubmatchIndex"] = I["(*regexp.Regexp).FindSubmatchIndex"]
	M("FindString", func(m *machine, fr *frame, r *rex, a []value) value {
		s := seqOf(a[0])
		c := m.rexAll(r, s, 1)
		if len(c) == 0 {
			return ""
		}
		return mkString(s[c[0][0]:c[0][1]])
	})
	M("Find", func(m *machine, fr *frame, r *rex, a []value) value {
		s := seqOf(a[0])
		c := m.rexAll(r, s, 1)
		if len(c) == 0 {
			return []value(nil)
		}
		return s[c[0][0]:c[0][1]]
	})
	M("FindStringSubmatch", func(m *machine, fr *frame, r *rex, a []value) value {
		s := seqOf(a[0])
		c := m.rexAll(r, s, 1)
		if len(c) == 0 {
			return []value(nil)
		}
		var out []value
		for i := 0; i+1 < len(c[0]); i += 2 {
			if c[0][i] < 0 {
				out = append(out, "")
			} else {
				out = append(out, mkString(s[c[0][i]:c[0][i+1]]))
			}
		}
		return out
	})
	repl := func(m *machine, r *rex, s []value, f func(c []int) []value) []value {
		var out []value
		last := 0
		for _, c := range m.rexAll(r, s, -1) {
			out = append(out, s[last:c[0]]...)
			out = append(out, f(c)...)
			last = c[1]
		}
		return append(out, s[last:]...)
	}
	expand := func(m *machine, r *rex, s, tpl []value) func(c []int) []value {
		return func(c []int) []value {
			t, ok := conc(mkString(tpl))
			if !ok {
				panic(m.abortf("unsupported", "symbolic regexp replacement"))
			}
			if !strings.Contains(t, "$") {
				return tpl
			}
			// expand on placeholders
			var out []value
			for i := 0; i < len(t); {
				if t[i] != '$' {
					out = append(out, int64(t[i]))
					i++
					continue
				}
				if strings.HasPrefix(t[i:], "$$") {
					out = append(out, int64('$'))
					i += 2
					continue
				}
				j := i + 1
				name := ""
				if j < len(t) && t[j] == '{' {
					k := strings.IndexByte(t[j:], '}')
					if k < 0 {
						out = append(out, int64('$'))
						i++
						continue
					}
					name = t[j+1 : j+k]
					j += k + 1
				} else {
					k := j
					for k < len(t) && isWord(t[k]) {
						k++
					}
					name = t[j:k]
					j = k
				}
				idx := -1
				if _, err := fmt.Sscanf(name, "%d", &idx); err != nil {
					idx = r.re.SubexpIndex(name)
				}
				if idx >= 0 && 2*idx+1 < len(c) && c[2*idx] >= 0 {
					out = append(out, s[c[2*idx]:c[2*idx+1]]...)
				}
				i = j
			}
			return out
		}
	}
	M("ReplaceAll", func(m *machine, fr *frame, r *rex, a []value) value {
		s := seqOf(a[0])
		return repl(m, r, s, expand(m, r, s, seqOf(a[1])))
	})
	M("ReplaceAllString", func(m *machine, fr *frame, r *rex, a []value) value {
		s := seqOf(a[0])
		return mkString(repl(m, r, s, expand(m, r, s, seqOf(a[1]))))
	})
	M("ReplaceAllLiteral", func(m *machine, fr *frame, r *rex, a []value) value {
		return repl(m, r, seqOf(a[0]), func([]int) []value { return seqOf(a[1]) })
	})
	M("ReplaceAllLiteralString", func(m *machine, fr *frame, r *rex, a []value) value {
		return mkString(repl(m, r, seqOf(a[0]), func([]int) []value { return seqOf(a[1]) }))
	})
	M("ReplaceAllFunc", func(m *machine, fr *frame, r *rex, a []value) value {
		s := seqOf(a[0])
		return repl(m, r, s, func(c []int) []value {
			return m.callClosure(fr, a[1].(*closure), []value{append([]value(nil), s[c[0]:c[1]]...)}).([]value)
		})
	})
	M("ReplaceAllStringFunc", func(m *machine, fr *frame, r *rex, a []value) value {
		s := seqOf(a[0])
		return mkString(repl(m, r, s, func(c []int) []value {
			return strBytes(m.callClosure(fr, a[1].(*closure), []value{mkString(s[c[0]:c[1]])}))
		}))
	})
}

func (m *machine) rexMatch(r *rex, s []value) value {
	if c, ok := conc(mkString(s)); ok {
		return r.re.MatchString(c)
	}
	return m.rexFind(r, s, 0) != nil
}

// ---- text/template: the host's implementation over converted data; symbolic
// strings travel as placeholders.

type tplKey struct{ p *value }

type hostConv struct {
	m    *machine
	subs map[string]value
	pan  any
}

// hole stands for a string with symbolic bytes while the host runs a template.
func (h *hostConv) hole(v value) string {
	k := fmt.Sprintf("\x01S%d\x02", len(h.subs))
	h.subs[k] = v
	return k
}

func hasHole(args ...any) bool {
	for _, a := range args {
		if s, ok := a.(string); ok && strings.Contains(s, "\x01S") {
			return true
		}
	}
	return false
}

// funcs replaces the template functions whose result depends on the bytes of
// a string. A panic is kept: text/template would turn it into an error.
func (h *hostConv) funcs(fr *frame, own map[string]iface) template.FuncMap {
	m := h.m
	guard := func(f func()) {
		defer func() {
			if r := recover(); r != nil {
				h.pan = r
				panic(r)
			}
		}()
		f()
	}
	engine := func(a any) iface {
		switch x := a.(type) {
		case nil:
			return iface{}
		case string:
			return iface{canon(types.Typ[types.String]), mkString(h.back(x))}
		case bool:
			return iface{canon(types.Typ[types.Bool]), x}
		case int:
			return iface{canon(types.Typ[types.Int]), int64(x)}
		case int64:
			return iface{canon(types.Typ[types.Int]), x}
		}
		panic(m.abortf("unsupported", "template function on a %T", a))
	}
	text := func(s value) string {
		if c, ok := conc(s); ok {
			return c
		}
		return h.hole(s)
	}
	same := func(a, b any) (out bool) {
		x, ok1 := a.(string)
		y, ok2 := b.(string)
		if ok1 && ok2 && hasHole(a, b) {
			return m.branch(fromBoolT(m.strEq(mkString(h.back(x)), mkString(h.back(y)))))
		}
		if i, ok := a.(int); ok {
			a = int64(i)
		}
		if i, ok := b.(int); ok {
			b = int64(i)
		}
		return a == b
	}
	opaque := func(name string, f func(...any) string) func(...any) string {
		return func(args ...any) string {
			if hasHole(args...) {
				guard(func() { panic(m.abortf("unsupported", "template function %s on a symbolic string", name)) })
			}
			return f(args...)
		}
	}
	fm := template.FuncMap{
		"printf": func(format string, args ...any) (out string) {
			if !hasHole(args...) && !hasHole(format) {
				return fmt.Sprintf(format, args...)
			}
			guard(func() {
				var vs []value
				for _, a := range args {
					vs = append(vs, engine(a))
				}
				out = text(mkString(m.sprintf(fr, mkString(h.back(format)), vs).out))
			})
			return
		},
		"eq": func(a any, bs ...any) (out bool) {
			guard(func() {
				for _, b := range bs {
					if out = same(a, b); out {
						return
					}
				}
			})
			return
		},
		"ne":       func(a, b any) (out bool) { guard(func() { out = !same(a, b) }); return },
		"html":     opaque("html", template.HTMLEscaper),
		"js":       opaque("js", template.JSEscaper),
		"urlquery": opaque("urlquery", template.URLQueryEscaper),
		"len": func(a any) (n int, err error) {
			if s, ok := a.(string); ok {
				return len(h.back(s)), nil
			}
			v := reflect.ValueOf(a)
			switch v.Kind() {
			case reflect.Map, reflect.Slice:
				return v.Len(), nil
			}
			return 0, fmt.Errorf("len of type %T", a)
		},
	}
	for name, f := range own {
		cl, _ := f.v.(*closure)
		sig, ok := f.t.Underlying().(*types.Signature)
		if cl == nil || !ok {
			continue
		}
		fm[name] = func(args ...any) (out any, err error) {
			guard(func() {
				if len(args) != sig.Params().Len() || sig.Variadic() {
					panic(m.abortf("unsupported", "template function %s with %d arguments", name, len(args)))
				}
				var vs []value
				for i, a := range args {
					t := sig.Params().At(i).Type()
					e := engine(a)
					if _, ok := t.Underlying().(*types.Interface); !ok {
						if e.t == nil || e.t.Underlying() != t.Underlying() {
							panic(m.abortf("unsupported", "template function %s: a %T for a %s", name, a, t))
						}
						vs = append(vs, e.v)
						continue
					}
					vs = append(vs, e)
				}
				r := m.callClosure(fr, cl, vs)
				switch sig.Results().Len() {
				case 1:
					out = h.conv(sig.Results().At(0).Type(), r, 0)
				case 2:
					out = h.conv(sig.Results().At(0).Type(), r.(tuple)[0], 0)
					if e := r.(tuple)[1].(iface); e.t != nil {
						err = errors.New("error calling " + name)
					}
				}
			})
			return
		}
	}
	return fm
}

func (h *hostConv) conv(t types.Type, v value, depth int) any {
	if depth > 20 {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch x := v.(type) {
		case string, float64, bool:
			return x
		case int64:
			return x
		case *symstr:
			return h.hole(x)
		case *Term:
			if isBool(t) {
				return h.m.branch(x)
			}
			k, _ := intKind(t)
			return h.m.concretize(x, k)
		}
	case *types.Pointer:
		p, _ := v.(*value)
		if p == nil {
			return nil
		}
		return h.conv(u.Elem(), *p, depth+1)
	case *types.Struct:
		mp := map[string]any{}
		for i, x := range v.(structure) {
			if u.Field(i).Exported() {
				mp[u.Field(i).Name()] = h.conv(u.Field(i).Type(), x, depth+1)
			}
		}
		return mp
	case *types.Slice:
		var out []any
		for _, x := range v.([]value) {
			out = append(out, h.conv(u.Elem(), x, depth+1))
		}
		return out
	case *types.Array:
		var out []any
		for _, x := range v.(array) {
			out = append(out, h.conv(u.Elem(), x, depth+1))
		}
		return out
	case *types.Map:
		g := v.(*gomap)
		out := map[string]any{}
		if g != nil {
			for i, k := range g.keys {
				if k == value(tomb) {
					continue
				}
				s, ok := conc(k)
				if !ok {
					panic(h.m.abortf("unsupported", "template over a map with key %T", k))
				}
				out[s] = h.conv(u.Elem(), g.vals[i], depth+1)
			}
		}
		return out
	case *types.Interface:
		i := v.(iface)
		if i.t == nil {
			return nil
		}
		return h.conv(i.t, i.v, depth+1)
	}
	panic(h.m.abortf("unsupported", "template data of type %s", t))
}

func (h *hostConv) back(s string) []value {
	var out []value
	for i := 0; i < len(s); {
		if s[i] == 1 {
			if j := strings.IndexByte(s[i:], 2); j > 0 {
				if v, ok := h.subs[s[i:i+j+1]]; ok {
					out = append(out, strBytes(v)...)
					i += j + 1
					continue
				}
			}
		}
		out = append(out, byteVals[s[i]])
		i++
	}
	return out
}

type tplFnKey struct{ t *template.Template }

func fnsOf(m *machine, t *template.Template) map[string]iface {
	if f, ok := m.side[tplFnKey{t}].(map[string]iface); ok {
		return f
	}
	return m.baseFns[t]
}

func regTemplate() {
	I := intrinsics
	get := func(m *machine, v value) *template.Template {
		p := m.ptr(v)
		if p == nil {
			panic(m.nilDeref())
		}
		t, _ := m.side[tplKey{p}].(*template.Template)
		if t == nil {
			if b, ok := m.baseTpl[p]; ok {
				return b
			}
			panic(m.abortf("unsupported", "template without text"))
		}
		return t
	}
	put := func(m *machine, t *template.Template) value {
		p := new(value)
		*p = zero(m.p.typ("text/template", "Template"))
		if m.initing > 0 {
			m.baseTpl[p] = t
		} else {
			m.side[tplKey{p}] = t
		}
		return p
	}
	I["text/template.New"] = func(fr *frame, a []value) value {
		n, _ := conc(a[0])
		return put(fr.m, template.New(n).Option("missingkey=error"))
	}
	I["text/template.Must"] = func(fr *frame, a []value) value {
		if e := a[1].(iface); e.t != nil {
			panic(&targetPanic{v: e, g: fr.g, st: fr.m.where()})
		}
		return a[0]
	}
	I["(*text/template.Template).Parse"] = func(fr *frame, a []value) value {
		m := fr.m
		s, ok := conc(a[1])
		if !ok {
			panic(m.abortf("unsupported", "symbolic template"))
		}
		t, err := get(m, a[0]).Parse(s)
		if err != nil {
			return tuple{(*value)(nil), m.errorVal(err.Error())}
		}
		_ = t
		return tuple{a[0], iface{}}
	}
	I["(*text/template.Template).Option"] = func(fr *frame, a []value) value { return a[0] }
	I["(*text/template.Template).Name"] = func(fr *frame, a []value) value { return get(fr.m, a[0]).Name() }
	I["(*text/template.Template).Execute"] = func(fr *frame, a []value) value {
		m := fr.m
		h := &hostConv{m: m, subs: map[string]value{}}
		var data any
		if i := a[2].(iface); i.t != nil {
			data = h.conv(i.t, i.v, 0)
		}
		var buf bytes.Buffer
		own := fnsOf(m, get(m, a[0]))
		t, err := get(m, a[0]).Clone()
		if err == nil {
			err = t.Funcs(h.funcs(fr, own)).Execute(&buf, data)
		}
		if h.pan != nil {
			panic(h.pan)
		}
		m.write(fr, a[1], h.back(buf.String()))
		if err != nil {
			return m.errorVal(err.Error())
		}
		return iface{}
	}
	bad := func(fr *frame, a []value) value { panic(fr.m.abortf("unsupported", "template functions")) }
	I["(*text/template.Template).Funcs"] = func(fr *frame, a []value) value {
		m := fr.m
		t := get(m, a[0])
		own := map[string]iface{}
		for k, f := range fnsOf(m, t) {
			own[k] = f
		}
		stubs := template.FuncMap{}
		if g, _ := a[1].(*gomap); g != nil {
			for i, k := range g.keys {
				if k == value(tomb) {
					continue
				}
				name, ok := conc(k)
				if !ok {
					panic(m.abortf("unsupported", "template function with a symbolic name"))
				}
				own[name] = g.vals[i].(iface)
				stubs[name] = func(...any) (any, error) { return nil, nil }
			}
		}
		t.Funcs(stubs)
		if m.initing > 0 {
			m.baseFns[t] = own
		} else {
			m.side[tplFnKey{t}] = own
		}
		return a[0]
	}
	I["(*text/template.Template).ExecuteTemplate"] = bad
}
