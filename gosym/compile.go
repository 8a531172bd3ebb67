package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type opd func(fr *frame) value
type iop func(fr *frame)

type edge struct {
	to    int
	moves []move
}

type move struct {
	dst int
	src opd
}

type bcode struct {
	ops  []iop
	term func(fr *frame) int // next block, or -1 to return
}

type fcode struct {
	fn      *ssa.Function
	name    string
	intr    func(fr *frame, args []value) value
	fast    func(fr *frame, args []value) (value, bool)
	nregs   int
	blocks  []*bcode
	defers  bool
	recover int
	repo    bool
	raced   bool // its accesses count for data races
	harness bool
	once    sync.Once
	ready   atomic.Bool
	err     string
	alias   *fcode
	method  bool
}

func (p *program) code(fn *ssa.Function) *fcode {
	c, ok := p.codes.Load(fn)
	if !ok {
		fc := &fcode{fn: fn, name: fn.String()}
		c, _ = p.codes.LoadOrStore(fn, fc)
	}
	fc := c.(*fcode)
	if !fc.ready.Load() {
		fc.once.Do(func() {
			p.compile(fc)
			fc.ready.Store(true)
		})
	}
	if fc.alias != nil {
		return fc.alias
	}
	return fc
}

func originName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func fnPackage(fn *ssa.Function) *ssa.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg
		}
	}
	return nil
}

type compiler struct {
	p    *program
	fc   *fcode
	fn   *ssa.Function
	reg  map[ssa.Value]int
	free map[*ssa.FreeVar]int
}

func (p *program) compile(fc *fcode) {
	fn := fc.fn
	pkg := fnPackage(fn)
	name := originName(fn)
	if pkg != nil && p.isRepo[pkg] {
		fc.repo, fc.raced = true, true
	}
	if pkg != nil && p.models[pkg.Pkg.Path()] && fn.Name() == "use" {
		fc.raced = true
	}
	if pkg != nil && p.models[pkg.Pkg.Path()] {
		fc.harness = true
	}
	if pkg == nil || !p.models[pkg.Pkg.Path()] {
		if r, ok := p.replaced[name]; ok {
			fc.alias = p.code(r)
			return
		}
	}
	if in, ok := intrinsics[name]; ok {
		fc.intr = in
		return
	}
	fc.fast = fastpaths[name]
	if pkg != nil {
		pkg.Build()
	}
	if fn.Blocks == nil {
		fc.err = "no body: " + name
		return
	}
	c := &compiler{p: p, fc: fc, fn: fn, reg: map[ssa.Value]int{}, free: map[*ssa.FreeVar]int{}}
	for _, x := range fn.Params {
		c.reg[x] = len(c.reg)
	}
	for i, x := range fn.FreeVars {
		c.free[x] = i
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				c.reg[v] = len(c.reg)
			}
			switch in.(type) {
			case *ssa.Defer:
				fc.defers = true
			}
		}
	}
	if fn.Recover != nil {
		fc.defers = true
		fc.recover = fn.Recover.Index
	} else {
		fc.recover = -1
	}
	fc.nregs = len(c.reg)
	fc.blocks = make([]*bcode, len(fn.Blocks))
	for i, b := range fn.Blocks {
		fc.blocks[i] = c.block(b)
	}
}

func (c *compiler) edge(from *ssa.BasicBlock, succ int) edge {
	to := from.Succs[succ]
	// which predecessor index are we? A block may appear twice among the preds.
	n := 0
	for i := 0; i < succ; i++ {
		if from.Succs[i] == to {
			n++
		}
	}
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			if n == 0 {
				pi = i
				break
			}
			n--
		}
	}
	e := edge{to: to.Index}
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		e.moves = append(e.moves, move{c.reg[phi], c.opd(phi.Edges[pi])})
	}
	return e
}

func (e *edge) take(fr *frame) int {
	switch len(e.moves) {
	case 0:
	case 1:
		fr.regs[e.moves[0].dst] = e.moves[0].src(fr)
	case 2:
		a, b := e.moves[0].src(fr), e.moves[1].src(fr)
		fr.regs[e.moves[0].dst], fr.regs[e.moves[1].dst] = a, b
	default:
		tmp := make([]value, len(e.moves))
		for i := range e.moves {
			tmp[i] = e.moves[i].src(fr)
		}
		for i := range e.moves {
			fr.regs[e.moves[i].dst] = tmp[i]
		}
	}
	return e.to
}

func constValue(k *ssa.Const) value {
	if k.Value == nil {
		return zero(k.Type())
	}
	t := k.Type()
	if _, ok := t.Underlying().(*types.Interface); ok {
		panic("constant of interface type")
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok { // type parameter already instantiated
		panic(fmt.Sprintf("constValue: %s", k))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(k.Value)
	case b.Info()&types.IsInteger != 0:
		ik, _ := intKind(t)
		x := constant.ToInt(k.Value)
		if ik.signed {
			n, _ := constant.Int64Val(x)
			return n
		}
		n, _ := constant.Uint64Val(x)
		return int64(n)
	case b.Info()&types.IsFloat != 0:
		return roundFloat(t, k.Float64())
	case b.Info()&types.IsComplex != 0:
		return k.Complex128()
	case b.Info()&types.IsString != 0:
		if k.Value.Kind() == constant.String {
			return constant.StringVal(k.Value)
		}
		return string(rune(k.Int64()))
	}
	panic(fmt.Sprintf("constValue: %s", k))
}

func (p *program) globalIndex(g *ssa.Global) int {
	p.mu.Lock()
	defer p.mu.Unlock()
	i, ok := p.globIdx[g]
	if !ok {
		i = len(p.globs)
		p.globIdx[g] = i
		p.globs = append(p.globs, g)
	}
	return i
}

func (m *machine) global(i int) *value {
	if i < len(m.globals) {
		if v := m.globals[i]; v != nil {
			return v
		}
	}
	m.p.mu.Lock()
	g := m.p.globs[i]
	n := len(m.p.globs)
	m.p.mu.Unlock()
	for len(m.globals) < n {
		m.globals = append(m.globals, nil)
	}
	elem := g.Type().Underlying().(*types.Pointer).Elem()
	v := zero(elem)
	cell := &v
	m.globals[i] = cell
	if f, ok := globalInit[g.String()]; ok {
		*cell = f(m)
	} else if e, ok := m.p.embeds[g.String()]; ok {
		if isString(elem) {
			*cell = e
		} else {
			*cell = bytesVal([]byte(e))
		}
	} else if g.Pkg != nil && !m.inited[g.Pkg] && !m.p.isEager[g.Pkg] {
		m.initPackage(g.Pkg)
	}
	return cell
}

func (c *compiler) opd(v ssa.Value) opd {
	switch v := v.(type) {
	case *ssa.Const:
		k := constValue(v)
		switch k.(type) {
		case structure, array:
			return func(*frame) value { return copyVal(k) }
		}
		return func(*frame) value { return k }
	case *ssa.Global:
		i := c.p.globalIndex(v)
		return func(fr *frame) value {
			m := fr.m
			if i < len(m.globals) {
				if g := m.globals[i]; g != nil {
					return g
				}
			}
			return m.global(i)
		}
	case *ssa.Function:
		cl := &closure{fn: v}
		return func(*frame) value { return cl }
	case *ssa.Builtin:
		return func(*frame) value { return v }
	case *ssa.FreeVar:
		i := c.free[v]
		return func(fr *frame) value { return fr.env[i] }
	}
	i, ok := c.reg[v]
	if !ok {
		panic(fmt.Sprintf("opd: %s %T in %s", v, v, c.fn))
	}
	return func(fr *frame) value { return fr.regs[i] }
}

func (c *compiler) opds(vs []ssa.Value) []opd {
	a := make([]opd, len(vs))
	for i, v := range vs {
		a[i] = c.opd(v)
	}
	return a
}

func (c *compiler) block(b *ssa.BasicBlock) *bcode {
	bc := &bcode{}
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			cond := c.opd(in.Cond)
			e0, e1 := c.edge(b, 0), c.edge(b, 1)
			bc.term = func(fr *frame) int {
				v := cond(fr)
				t, ok := v.(bool)
				if !ok {
					t = fr.m.branch(v)
				}
				if t {
					return e0.take(fr)
				}
				return e1.take(fr)
			}
		case *ssa.Jump:
			e := c.edge(b, 0)
			if len(e.moves) == 0 {
				to := e.to
				bc.term = func(*frame) int { return to }
			} else {
				bc.term = func(fr *frame) int { return e.take(fr) }
			}
		case *ssa.Return:
			switch len(in.Results) {
			case 0:
				bc.term = func(fr *frame) int { fr.result = nil; return -1 }
			case 1:
				r := c.opd(in.Results[0])
				bc.term = func(fr *frame) int { fr.result = r(fr); return -1 }
			default:
				rs := c.opds(in.Results)
				bc.term = func(fr *frame) int {
					t := make(tuple, len(rs))
					for i, r := range rs {
						t[i] = r(fr)
					}
					fr.result = t
					return -1
				}
			}
		case *ssa.Panic:
			x := c.opd(in.X)
			bc.term = func(fr *frame) int {
				v := x(fr)
				if i, ok := v.(iface); ok && i.t == nil {
					panic(fr.m.runtimeError("panic called with nil argument (use GODEBUG=panicnil=1 to disable)"))
				}
				panic(&targetPanic{v: v, g: fr.g, st: fr.m.where()})
			}
		default:
			if op := c.instr(in); op != nil {
				bc.ops = append(bc.ops, op)
			}
		}
	}
	return bc
}

func (c *compiler) set(v ssa.Value, f opd) iop {
	i := c.reg[v]
	return func(fr *frame) { fr.regs[i] = f(fr) }
}

func (c *compiler) instr(in ssa.Instruction) iop {
	switch in := in.(type) {
	case *ssa.Alloc:
		z := zeroFn(in.Type().Underlying().(*types.Pointer).Elem())
		r := c.reg[in]
		return func(fr *frame) {
			p := new(value)
			*p = z()
			fr.regs[r] = p
		}
	case *ssa.BinOp:
		return c.set(in, c.binop(in))
	case *ssa.UnOp:
		return c.unop(in)
	case *ssa.Call:
		return c.set(in, c.call(&in.Call, in.Pos()))
	case *ssa.ChangeInterface:
		return c.set(in, c.opd(in.X))
	case *ssa.ChangeType:
		return c.set(in, c.opd(in.X))
	case *ssa.Convert:
		return c.set(in, c.convert(in.X.Type(), in.Type(), c.opd(in.X)))
	case *ssa.MultiConvert:
		return c.set(in, c.convert(in.X.Type(), in.Type(), c.opd(in.X)))
	case *ssa.SliceToArrayPointer:
		x := c.opd(in.X)
		n := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		return c.set(in, func(fr *frame) value {
			s := x(fr).([]value)
			if int64(len(s)) < n {
				panic(fr.m.runtimeError("cannot convert slice to array pointer"))
			}
			if s == nil {
				return (*value)(nil)
			}
			p := new(value)
			*p = array(s[:n:n])
			return p
		})
	case *ssa.MakeInterface:
		t := canon(in.X.Type())
		x := c.opd(in.X)
		switch t.Underlying().(type) {
		case *types.Struct, *types.Array:
			return c.set(in, func(fr *frame) value { return iface{t, copyVal(x(fr))} })
		}
		return c.set(in, func(fr *frame) value { return iface{t, x(fr)} })
	case *ssa.Extract:
		x := c.opd(in.Tuple)
		i := in.Index
		return c.set(in, func(fr *frame) value { return x(fr).(tuple)[i] })
	case *ssa.Field:
		x := c.opd(in.X)
		i := in.Field
		return c.set(in, func(fr *frame) value { return copyVal(x(fr).(structure)[i]) })
	case *ssa.FieldAddr:
		x := c.opd(in.X)
		i := in.Field
		r := c.reg[in]
		return func(fr *frame) {
			p, ok := x(fr).(*value)
			if !ok {
				p = fr.m.ptr(x(fr))
			}
			if p == nil {
				panic(fr.m.nilDeref())
			}
			s, ok := (*p).(structure)
			if !ok {
				panic(fr.m.abortf("unsupported", "field address of %T in %s", *p, c.fn))
			}
			fr.regs[r] = &s[i]
		}
	case *ssa.Index:
		x, idx := c.opd(in.X), c.opd(in.Index)
		ik, _ := intKind(in.Index.Type())
		isStr := isString(in.X.Type())
		eik, _ := intKind(in.Type())
		return c.set(in, func(fr *frame) value {
			xv := x(fr)
			iv := idx(fr)
			if isStr {
				n := strLen(xv)
				i, sym := fr.m.index(iv, ik, n)
				if sym != nil {
					return fr.m.fixSel(fr.m.selectAt(strBytes(xv), sym), ikind{8, false})
				}
				return strAt(xv, i)
			}
			a := xv.(array)
			i, sym := fr.m.index(iv, ik, len(a))
			if sym != nil {
				return fr.m.fixSel(fr.m.loadSym(&symptr{a, sym}), eik)
			}
			return copyVal(a[i])
		})
	case *ssa.IndexAddr:
		x, idx := c.opd(in.X), c.opd(in.Index)
		ik, _ := intKind(in.Index.Type())
		r := c.reg[in]
		return func(fr *frame) {
			var a []value
			switch v := x(fr).(type) {
			case []value:
				a = v
			case *value:
				if v == nil {
					panic(fr.m.nilDeref())
				}
				a = (*v).(array)
			default:
				panic(fr.m.abortf("unsupported", "IndexAddr of %T", v))
			}
			iv := idx(fr)
			if i, ok := iv.(int64); ok {
				if uint64(i) >= uint64(len(a)) {
					panic(fr.m.runtimeError(fmt.Sprintf("index out of range [%d] with length %d", i, len(a))))
				}
				fr.regs[r] = &a[i]
				return
			}
			i, sym := fr.m.index(iv, ik, len(a))
			if sym != nil {
				fr.regs[r] = &symptr{a, sym}
				return
			}
			fr.regs[r] = &a[i]
		}
	case *ssa.Lookup:
		x, idx := c.opd(in.X), c.opd(in.Index)
		ik, _ := intKind(in.Index.Type())
		if mt, ok := in.X.Type().Underlying().(*types.Map); ok {
			z := zeroFn(mt.Elem())
			commaOk := in.CommaOk
			kt := mt.Key()
			raced := c.fc.raced
			return c.set(in, func(fr *frame) value {
				if raced && fr.m.race != nil {
					fr.m.raceKey(fr, x(fr), false)
				}
				v, ok := fr.m.mapGet(x(fr).(*gomap), kt, idx(fr))
				if !ok {
					v = z()
				} else {
					v = copyVal(v)
				}
				if commaOk {
					return tuple{v, ok}
				}
				return v
			})
		}
		return c.set(in, func(fr *frame) value {
			xv := x(fr)
			i, sym := fr.m.index(idx(fr), ik, strLen(xv))
			if sym != nil {
				return fr.m.fixSel(fr.m.selectAt(strBytes(xv), sym), ikind{8, false})
			}
			return strAt(xv, i)
		})
	case *ssa.MapUpdate:
		mm, k, v := c.opd(in.Map), c.opd(in.Key), c.opd(in.Value)
		kt := in.Map.Type().Underlying().(*types.Map).Key()
		return func(fr *frame) {
			gm := mm(fr).(*gomap)
			if gm == nil {
				panic(fr.m.runtimeError("assignment to entry in nil map"))
			}
			if fr.code.raced && fr.m.race != nil {
				fr.m.raceKey(fr, gm, true)
			}
			fr.m.mapSet(gm, kt, copyVal(k(fr)), copyVal(v(fr)))
		}
	case *ssa.MakeMap:
		return c.set(in, func(fr *frame) value { return fr.m.newMap() })
	case *ssa.MakeChan:
		sz := c.opd(in.Size)
		z := zeroFn(in.Type().Underlying().(*types.Chan).Elem())
		return c.set(in, func(fr *frame) value {
			n := fr.m.concretize(sz(fr), ikind{64, true})
			return &gochan{cap: int(n), zero: z}
		})
	case *ssa.MakeSlice:
		ln, cp := c.opd(in.Len), c.opd(in.Cap)
		z := zeroFn(in.Type().Underlying().(*types.Slice).Elem())
		return c.set(in, func(fr *frame) value {
			l := fr.m.concretize(ln(fr), ikind{64, true})
			n := fr.m.concretize(cp(fr), ikind{64, true})
			if l < 0 || n < l || n > 1<<26 {
				panic(fr.m.runtimeError("makeslice: len out of range"))
			}
			s := make([]value, n)
			for i := range s {
				s[i] = z()
			}
			return s[:l]
		})
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		bs := c.opds(in.Bindings)
		return c.set(in, func(fr *frame) value {
			env := make([]value, len(bs))
			for i, b := range bs {
				env[i] = b(fr)
			}
			return &closure{fn: fn, env: env}
		})
	case *ssa.Slice:
		return c.set(in, c.slice(in))
	case *ssa.Store:
		addr, val := c.opd(in.Addr), c.opd(in.Val)
		switch in.Val.Type().Underlying().(type) {
		case *types.Struct, *types.Array:
			raced := c.fc.raced
			return func(fr *frame) {
				a := addr(fr)
				if raced && fr.m.race != nil {
					fr.m.raceAccess(fr, a, true)
				}
				fr.m.storeTo(a, copyVal(val(fr)))
			}
		}
		if c.fc.raced {
			return func(fr *frame) {
				a := addr(fr)
				if fr.m.race != nil {
					fr.m.raceAccess(fr, a, true)
				}
				fr.m.storeTo(a, val(fr))
			}
		}
		return func(fr *frame) {
			a := addr(fr)
			v := val(fr)
			if p, ok := a.(*value); ok && p != nil {
				m := fr.m
				if m.noUndo == 0 {
					m.undo = append(m.undo, undoEnt{p, *p})
				}
				*p = v
				return
			}
			fr.m.storeTo(a, v)
		}
	case *ssa.TypeAssert:
		return c.set(in, c.typeAssert(in))
	case *ssa.Range:
		x := c.opd(in.X)
		if _, ok := in.X.Type().Underlying().(*types.Map); ok {
			shuffle, raced := c.fc.repo, c.fc.raced
			return c.set(in, func(fr *frame) value {
				if raced && fr.m.race != nil {
					fr.m.raceKey(fr, x(fr), false)
				}
				return fr.m.newMapIter(x(fr).(*gomap), shuffle)
			})
		}
		return c.set(in, func(fr *frame) value { return &strIter{s: x(fr)} })
	case *ssa.Next:
		it := c.opd(in.Iter)
		if in.IsString {
			return c.set(in, func(fr *frame) value { return it(fr).(*strIter).next(fr.m) })
		}
		tt := in.Type().(*types.Tuple)
		var zk, zv value
		if b, ok := tt.At(1).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
			zk = zero(tt.At(1).Type())
		}
		if b, ok := tt.At(2).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
			zv = zero(tt.At(2).Type())
		}
		return c.set(in, func(fr *frame) value {
			k, v, ok := it(fr).(*mapIter).next(fr.m)
			if !ok {
				return tuple{false, zk, zv}
			}
			return tuple{true, k, copyVal(v)}
		})
	case *ssa.Send:
		ch, x := c.opd(in.Chan), c.opd(in.X)
		return func(fr *frame) { fr.m.chanSend(ch(fr).(*gochan), copyVal(x(fr))) }
	case *ssa.Select:
		return c.set(in, c.selectStmt(in))
	case *ssa.Go:
		prep := c.prepCall(&in.Call)
		return func(fr *frame) {
			fn, args := prep(fr)
			cl, ok := fn.(*closure)
			if !ok {
				b := fn.(*ssa.Builtin)
				cl = &closure{nat: func(fr *frame, a []value) value { return fr.m.builtin(fr, b, a, nil) }, nam: b.Name()}
			}
			fr.m.spawn(cl, args)
		}
	case *ssa.Defer:
		prep := c.prepCall(&in.Call)
		var ds opd
		if in.DeferStack != nil {
			ds = c.opd(in.DeferStack)
		}
		return func(fr *frame) {
			fn, args := prep(fr)
			d := &deferred{fn: fn, args: args}
			into := &fr.defers
			if ds != nil {
				into = ds(fr).(native).v.(**deferred)
			}
			d.next = *into
			*into = d
		}
	case *ssa.RunDefers:
		return func(fr *frame) { fr.runDefers() }
	}
	panic(fmt.Sprintf("instr: %T in %s", in, c.fn))
}

func (c *compiler) unop(in *ssa.UnOp) iop {
	x := c.opd(in.X)
	r := c.reg[in]
	switch in.Op {
	case token.MUL:
		var agg bool
		eik, _ := intKind(in.Type())
		switch in.Type().Underlying().(type) {
		case *types.Struct, *types.Array:
			agg = true
		}
		raced := c.fc.raced
		return func(fr *frame) {
			a := x(fr)
			if raced && fr.m.race != nil {
				fr.m.raceAccess(fr, a, false)
			}
			p, ok := a.(*value)
			if !ok {
				fr.regs[r] = fr.m.fixSel(fr.m.load(a), eik)
				return
			}
			if p == nil {
				panic(fr.m.nilDeref())
			}
			if agg {
				fr.regs[r] = copyVal(*p)
			} else {
				fr.regs[r] = *p
			}
		}
	case token.NOT:
		return func(fr *frame) {
			switch v := x(fr).(type) {
			case bool:
				fr.regs[r] = !v
			case *Term:
				fr.regs[r] = fromBoolT(fr.m.tt.not(v))
			}
		}
	case token.SUB:
		t := in.X.Type()
		if ik, ok := intKind(t); ok {
			return func(fr *frame) {
				switch v := x(fr).(type) {
				case int64:
					fr.regs[r] = ik.norm(-v)
				case *Term:
					fr.regs[r] = fromBVT(fr.m.tt.bin(tSub, fr.m.tt.bv(ik.w, 0), v), ik)
				}
			}
		}
		return func(fr *frame) {
			switch v := x(fr).(type) {
			case float64:
				fr.regs[r] = -v
			case complex128:
				fr.regs[r] = -v
			}
		}
	case token.XOR:
		ik, _ := intKind(in.X.Type())
		return func(fr *frame) {
			switch v := x(fr).(type) {
			case int64:
				fr.regs[r] = ik.norm(^v)
			case *Term:
				fr.regs[r] = fromBVT(fr.m.tt.bin(tBxor, v, fr.m.tt.bv(ik.w, mask(ik.w))), ik)
			}
		}
	case token.ARROW:
		commaOk := in.CommaOk
		return func(fr *frame) {
			v, ok := fr.m.chanRecv(x(fr).(*gochan))
			if commaOk {
				fr.regs[r] = tuple{v, ok}
			} else {
				fr.regs[r] = v
			}
		}
	}
	panic("unop " + in.Op.String())
}

// ---- calls

func (c *compiler) prepCall(call *ssa.CallCommon) func(fr *frame) (value, []value) {
	args := c.opds(call.Args)
	if call.IsInvoke() {
		recv := c.opd(call.Value)
		meth := call.Method
		return func(fr *frame) (value, []value) {
			i := recv(fr).(iface)
			if i.t == nil {
				panic(fr.m.nilDeref())
			}
			a := make([]value, 1+len(args))
			a[0] = i.v
			for j, x := range args {
				a[j+1] = copyVal(x(fr))
			}
			return fr.m.method(i, meth), a
		}
	}
	fn := c.opd(call.Value)
	return func(fr *frame) (value, []value) {
		f := fn(fr)
		a := make([]value, len(args))
		for j, x := range args {
			a[j] = copyVal(x(fr))
		}
		return f, a
	}
}

func (c *compiler) call(call *ssa.CallCommon, pos token.Pos) opd {
	if b, ok := call.Value.(*ssa.Builtin); ok {
		args := c.opds(call.Args)
		if b.Name() == "len" && len(args) == 1 {
			x := args[0]
			return func(fr *frame) value {
				v := x(fr)
				if s, ok := v.([]value); ok {
					return int64(len(s))
				}
				return fr.m.builtin(fr, b, []value{v}, call)
			}
		}
		return func(fr *frame) value {
			a := make([]value, len(args))
			for i, x := range args {
				a[i] = x(fr)
			}
			return fr.m.builtin(fr, b, a, call)
		}
	}
	if fn, ok := call.Value.(*ssa.Function); ok {
		args := c.opds(call.Args)
		aggs := make([]bool, len(args))
		for i, a := range call.Args {
			switch a.Type().Underlying().(type) {
			case *types.Struct, *types.Array:
				aggs[i] = true
			}
		}
		var fc *fcode
		return func(fr *frame) value {
			f := fc
			if f == nil {
				f = c.p.code(fn)
				fc = f
			}
			a := make([]value, len(args))
			for i, x := range args {
				if aggs[i] {
					a[i] = copyVal(x(fr))
				} else {
					a[i] = x(fr)
				}
			}
			return fr.m.invoke(fr, f, a, nil)
		}
	}
	prep := c.prepCall(call)
	return func(fr *frame) value {
		fn, args := prep(fr)
		cl, ok := fn.(*closure)
		if !ok {
			panic(fr.m.abortf("internal", "call of %T", fn))
		}
		return fr.m.callClosure(fr, cl, args)
	}
}

func (m *machine) callClosure(fr *frame, cl *closure, args []value) value {
	if cl == nil {
		panic(m.nilDeref())
	}
	if cl.nat != nil {
		return cl.nat(fr, args)
	}
	return m.invoke(fr, m.p.code(cl.fn), args, cl.env)
}

func (m *machine) callFunction(fr *frame, fn *ssa.Function, args, env []value) value {
	return m.invoke(fr, m.p.code(fn), args, env)
}

func (m *machine) invoke(caller *frame, fc *fcode, args []value, env []value) value {
	if fc.intr != nil {
		return fc.intr(caller, args)
	}
	if fc.fast != nil {
		if v, ok := fc.fast(caller, args); ok {
			return v
		}
	}
	if fc.blocks == nil {
		panic(m.abortf("unsupported", "%s\n%s", fc.err, m.where()))
	}
	if fc.fn.Synthetic == "package initializer" {
		// Imports' initialisers are run lazily, on first use of one of their globals.
		if caller.code != nil && caller.code.fn.Synthetic == "package initializer" {
			return nil
		}
	}
	fr := &frame{m: m, g: caller.g, code: fc, caller: caller, env: env, depth: caller.depth + 1}
	if fr.depth > m.p.cfg.maxDepth {
		panic(m.abortf("limit", "call depth exceeds %d in %s", m.p.cfg.maxDepth, fc.name))
	}
	if fc.repo && !m.funcs[fc] {
		m.funcs[fc] = true
	}
	fr.regs = make([]value, fc.nregs)
	copy(fr.regs, args)
	save := fr.g.top
	fr.g.top = fr
	if fc.defers {
		fr.runProtected()
	} else {
		fr.run(0)
	}
	fr.g.top = save
	return fr.result
}

func (fr *frame) run(b int) {
	m := fr.m
	blocks := fr.code.blocks
	for b >= 0 {
		m.steps++
		if m.steps > m.p.cfg.maxSteps {
			panic(m.abortf("limit", "more than %d steps in %s", m.p.cfg.maxSteps, fr.code.name))
		}
		bc := blocks[b]
		for _, op := range bc.ops {
			op(fr)
		}
		b = bc.term(fr)
	}
}

// runProtected runs a function that has defers.
func (fr *frame) runProtected() {
	normal := false
	func() {
		defer func() {
			if normal {
				return
			}
			r := recover()
			tp, ok := r.(*targetPanic)
			if !ok {
				if r == nil { // Goexit of the host: cannot happen
					panic("host goexit")
				}
				panic(r)
			}
			fr.g.top = fr
			fr.panicking = true
			fr.panicV = tp
			fr.runDefers() // panics again if not recovered
			fr.g.top = fr
		}()
		fr.run(0)
		normal = true
	}()
	if !normal {
		// recovered
		if fr.code.recover >= 0 {
			fr.run(fr.code.recover)
		} else {
			fr.result = zero(fr.code.fn.Signature.Results())
			if fr.code.fn.Signature.Results().Len() == 0 {
				fr.result = nil
			}
		}
	}
}

// runDefers runs the deferred calls and then re-panics if still panicking.
func (fr *frame) runDefers() {
	for d := fr.defers; d != nil; d = fr.defers {
		fr.defers = d.next
		fr.runDefer(d)
	}
	if fr.panicking {
		panic(fr.panicV)
	}
}

func (fr *frame) runDefer(d *deferred) {
	ok := false
	defer func() {
		if !ok {
			r := recover()
			tp, is := r.(*targetPanic)
			if !is {
				panic(r)
			}
			// a new panic replaces the old one
			fr.g.top = fr
			fr.panicking = true
			fr.panicV = tp
		}
	}()
	switch f := d.fn.(type) {
	case *closure:
		fr.m.callClosure(fr, f, d.args)
	case *ssa.Builtin:
		fr.m.builtin(fr, f, d.args, nil)
	}
	ok = true
}

// doRecover implements recover(); caller is the frame that calls it.
func (m *machine) doRecover(caller *frame) value {
	if caller != nil && !caller.panicking && caller.caller != nil && caller.caller.panicking {
		caller.caller.panicking = false
		p := caller.caller.panicV
		caller.caller.panicV = nil
		if tp, ok := p.(*targetPanic); ok {
			return tp.v
		}
		panic(m.abortf("internal", "recover of %T", p))
	}
	return iface{}
}

// method finds the implementation of meth for the dynamic type of i.
type methKey struct {
	t  types.Type
	id string
}

var methCache sync.Map

func (m *machine) method(i iface, meth *types.Func) *closure {
	switch i.v.(type) {
	case rtypeV:
		name := meth.Name()
		return &closure{nat: func(fr *frame, a []value) value { return rtypeMethod(fr, name, a) }, nam: "reflect.Type." + name}
	}
	return m.methodByName(i.t, meth.Pkg(), meth.Name())
}

func (m *machine) methodByName(t types.Type, pkg *types.Package, name string) *closure {
	k := methKey{t, name}
	if !token.IsExported(name) && pkg != nil {
		k.id = pkg.Path() + "." + name
	}
	if c, ok := methCache.Load(k); ok {
		return c.(*closure)
	}
	fn := m.lookupMethod(t, pkg, name)
	if fn == nil {
		panic(m.abortf("internal", "no method %s on %s", name, t))
	}
	c := &closure{fn: fn}
	methCache.Store(k, c)
	return c
}

func (m *machine) lookupMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	ms := m.p.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return m.p.prog.MethodValue(sel)
}

func (m *machine) hasMethod(t types.Type, name string) bool {
	if t == nil {
		return false
	}
	k := methKey{t, "has:" + name}
	if c, ok := methCache.Load(k); ok {
		return c.(bool)
	}
	methMu.Lock()
	sel := m.p.prog.MethodSets.MethodSet(t).Lookup(nil, name)
	methMu.Unlock()
	methCache.Store(k, sel != nil)
	return sel != nil
}

var methMu sync.Mutex
