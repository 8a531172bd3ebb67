package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"text/template"
	"time"

	"golang.org/x/tools/go/ssa"
)

// manySamples (GOSYM_SAMPLES=n) validates every nth path natively, for testing the translation.
var manySamples, _ = strconv.ParseInt(os.Getenv("GOSYM_SAMPLES"), 10, 64)

// ---- shared program state

type program struct {
	prog     *ssa.Program
	repoRoot string
	byPath   map[string]*ssa.Package

	mu       sync.Mutex
	codes    sync.Map // *ssa.Function -> *fcode
	globIdx  map[*ssa.Global]int
	globs    []*ssa.Global
	replaced map[string]*ssa.Function
	models   map[string]bool // package paths whose functions are models (never replaced themselves)
	eager    []*ssa.Package  // packages initialised before every run, dependency order
	isEager  map[*ssa.Package]bool
	isRepo   map[*ssa.Package]bool
	noInit   map[string]bool

	rtErrString types.Type
	cfg         *config
	synths      map[string]*types.Struct
	embeds      map[string]string
}

type config struct {
	maxSteps  int64
	maxDepth  int
	mapOrder  int
	solverBin string
	tier      int
	prop      string
	verbose   bool
	fixed     map[string]uint64
	gen       map[string]string // generated files (path in the tree -> file)
}

// ---- control-flow signals (host panics)

type targetPanic struct {
	v  value // iface
	g  *gor
	st string
}

type abort struct {
	kind string // infeasible, limit, unsupported, internal, kill, stop, unknown
	msg  string
}

type exitSignal struct{ code int }

type crashSignal struct {
	v  value
	st string
}

func (m *machine) abortf(kind, f string, a ...any) *abort {
	return &abort{kind, fmt.Sprintf(f, a...)}
}

// ---- decisions

type decision struct {
	kind uint8 // 0 branch, 1 choice, 2 pick
	val  uint64
}

type workItem struct {
	trail []decision
	md    model
}

type undoEnt struct {
	p   *value
	old value
}

type undoMap struct {
	m *gomap
	s gomapState
}

type dom [4]uint64

func (d *dom) has(n uint64) bool { return d[n>>6]&(1<<(n&63)) != 0 }
func (d *dom) set(n uint64)      { d[n>>6] |= 1 << (n & 63) }
func (d dom) and(e dom) dom {
	return dom{d[0] & e[0], d[1] & e[1], d[2] & e[2], d[3] & e[3]}
}
func (d dom) empty() bool { return d[0]|d[1]|d[2]|d[3] == 0 }
func (d dom) first() uint64 {
	for i := uint64(0); i < 256; i++ {
		if d.has(i) {
			return i
		}
	}
	return 0
}

type machine struct {
	pending []obligation
	race    *raceState
	p       *program
	tt      *termTable
	sol     *solver
	ex      *explorer

	globals []*value
	inited  map[*ssa.Package]bool
	noUndo  int
	undo    []undoEnt
	undoM   []undoMap
	undoF   []func()
	epoch   int
	initing int

	// path state
	prefix   []decision
	pos      int
	trail    []decision
	pc       []*Term
	pcDone   int // pc[:pcDone] already asserted in the solver
	lits     map[int]bool
	doms     map[int]dom
	md       model
	memo     map[int]uint64
	names    map[string]int
	assign   map[string]uint64
	order    []string
	strs     map[string]string // printable notes for strings
	steps    int64
	gs       []*gor
	cur      *gor
	g0       *gor
	sched    bool
	preempt  int
	mapDev   int
	mapMode  int
	mapRev   int
	now      value // int64 or *Term: virtual nanoseconds slept/advanced
	ticks    int64
	side     map[any]any // per-path side tables (mutexes, ...)
	covers   map[string]bool
	baseMaps map[*value]*gomap
	baseTpl  map[*value]*template.Template
	baseFns  map[*template.Template]map[string]iface

	sup    map[int]int // term id -> -1 none, -2 many, else var id
	truth  map[int]*dom
	varByI map[int]*Term

	curCode *fcode
	funcs   map[*fcode]bool // repo functions executed
	stats   pathStats
}

type pathStats struct {
	asserts, trivially, branches int
}

func newMachine(p *program, ex *explorer) (*machine, error) {
	sol, err := newSolver(p.cfg.solverBin)
	if err != nil {
		return nil, err
	}
	m := &machine{p: p, tt: newTermTable(), sol: sol, ex: ex, inited: map[*ssa.Package]bool{},
		sup: map[int]int{}, truth: map[int]*dom{}, varByI: map[int]*Term{}, funcs: map[*fcode]bool{}, baseMaps: map[*value]*gomap{}, baseTpl: map[*value]*template.Template{}, baseFns: map[*template.Template]map[string]iface{}}
	m.resetPath(workItem{})
	return m, nil
}

func (m *machine) resetPath(w workItem) {
	m.pending = nil
	m.race = nil
	m.prefix, m.pos = w.trail, 0
	m.trail = append([]decision(nil), w.trail...)
	m.pc, m.pcDone = m.pc[:0], 0
	m.lits = map[int]bool{}
	m.doms = map[int]dom{}
	m.md = model{}
	for k, v := range w.md {
		m.md[k] = v
	}
	m.memo = map[int]uint64{}
	m.names = map[string]int{}
	m.assign = map[string]uint64{}
	m.order = nil
	m.strs = map[string]string{}
	m.steps = 0
	m.gs = nil
	m.sched, m.preempt = false, 0
	m.mapMode, m.mapDev, m.mapRev = m.p.cfg.mapOrder, 0, -1
	m.now = int64(0)
	m.ticks = 0
	m.side = map[any]any{}
	m.covers = map[string]bool{}
	m.epoch++
	m.stats = pathStats{}
}

func (m *machine) undoAll() {
	for i := len(m.undo) - 1; i >= 0; i-- {
		*m.undo[i].p = m.undo[i].old
	}
	for i := range m.undo {
		m.undo[i] = undoEnt{}
	}
	m.undo = m.undo[:0]
	for i := len(m.undoM) - 1; i >= 0; i-- {
		m.undoM[i].m.restore(m.undoM[i].s)
	}
	m.undoM = m.undoM[:0]
	for i := len(m.undoF) - 1; i >= 0; i-- {
		m.undoF[i]()
	}
	m.undoF = m.undoF[:0]
}

// store writes through p, remembering the old contents.
func (m *machine) store(p *value, v value) {
	if m.noUndo == 0 {
		m.undo = append(m.undo, undoEnt{p, *p})
	}
	*p = v
}

// ---- frames and goroutines

type deferred struct {
	fn   value // *closure or *ssa.Builtin
	args []value
	next *deferred
}

type frame struct {
	m         *machine
	g         *gor
	code      *fcode
	caller    *frame
	regs      []value
	env       []value
	defers    *deferred
	result    value
	panicking bool
	panicV    any
	block     int
	depth     int
	done      bool
}

type gor struct {
	id     int
	wake   chan int // 0 run, 1 die
	gone   chan struct{}
	ready  func() bool
	done   bool
	top    *frame
	scope  int
	yields bool
	vc     vclock
	fn     *closure // until it starts
	args   []value
}

// twins tells whether two goroutines have not started and will do the same.
func twins(a, b *gor) bool {
	if a.fn == nil || b.fn == nil || a.fn.fn == nil || a.fn.fn != b.fn.fn || a.scope != b.scope {
		return false
	}
	return samePointers(a.fn.env, b.fn.env) && samePointers(a.args, b.args)
}

func samePointers(a, b []value) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		switch x := a[i].(type) {
		case *value:
			if y, ok := b[i].(*value); !ok || x != y {
				return false
			}
		case int64, string, bool:
			if a[i] != b[i] {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// distinct leaves one of every set of interchangeable goroutines.
func distinct(a []*gor) []*gor {
	var out []*gor
next:
	for _, g := range a {
		for _, h := range out {
			if twins(g, h) {
				continue next
			}
		}
		out = append(out, g)
	}
	return out
}

func (m *machine) spawn(fn *closure, args []value) {
	g := &gor{id: len(m.gs), wake: make(chan int), gone: make(chan struct{}), fn: fn, args: args}
	if m.cur != nil {
		g.scope = m.cur.scope
	}
	m.gs = append(m.gs, g)
	m.raceSpawn(m.cur, g)
	go func() {
		defer close(g.gone)
		if <-g.wake == 1 {
			g.done = true
			return
		}
		defer func() {
			r := recover()
			g.done = true
			switch r := r.(type) {
			case nil:
			case *abort:
				if r.kind == "kill" {
					return
				}
				m.raiseInMain(r)
				return
			case *targetPanic:
				m.raiseInMain(&crashSignal{r.v, r.st})
				return
			case *exitSignal:
				m.raiseInMain(r)
				return
			default:
				m.raiseInMain(m.abortf("internal", "%v\n%s", r, debug.Stack()))
				return
			}
			m.pickNext(g)
		}()
		root := &frame{m: m, g: g}
		g.fn, g.args = nil, nil
		m.callClosure(root, fn, args)
	}()
	m.schedPoint()
}

var pendingKey = new(int)

// raiseInMain hands control to the main goroutine and makes it panic with sig.
func (m *machine) raiseInMain(sig any) {
	m.side[pendingKey] = sig
	m.cur = m.g0
	m.g0.ready = nil
	m.g0.wake <- 0
}

func (m *machine) checkPending() {
	if m.cur == m.g0 {
		if s, ok := m.side[pendingKey]; ok {
			delete(m.side, pendingKey)
			panic(s)
		}
	}
}

func (m *machine) runnable(except *gor) []*gor {
	var a []*gor
	for _, g := range m.gs {
		if g == except || g.done || g.yields {
			continue
		}
		if g.ready == nil || g.ready() {
			a = append(a, g)
		}
	}
	if len(a) == 0 { // those that wait for all others
		for _, g := range m.gs {
			if g != except && !g.done && g.yields {
				return []*gor{g}
			}
		}
	}
	if m.sched && len(a) > 1 {
		a = distinct(a)
	}
	return a
}

// pickNext is called by a finished goroutine.
func (m *machine) pickNext(self *gor) {
	defer func() {
		if r := recover(); r != nil { // an abort while choosing
			m.raiseInMain(r)
		}
	}()
	for {
		a := m.runnable(self)
		if len(a) == 0 {
			if m.autoAdvance() {
				continue
			}
			m.raiseInMain(m.abortf("deadlock", "all goroutines are blocked"))
			return
		}
		g := a[0]
		if m.sched && len(a) > 1 {
			g = a[m.choose("sched", len(a))]
		}
		m.cur = g
		g.wake <- 0
		return
	}
}

func (m *machine) switchTo(g *gor) {
	self := m.cur
	if g == self {
		return
	}
	m.cur = g
	g.wake <- 0
	if <-self.wake == 1 {
		panic(&abort{"kill", ""})
	}
	m.checkPending()
}

// blockUntil parks the current goroutine until cond holds.
func (m *machine) blockUntil(cond func() bool) {
	for !cond() {
		self := m.cur
		self.ready = cond
		a := m.runnable(self)
		if len(a) == 0 {
			if m.autoAdvance() {
				continue
			}
			self.ready = nil
			panic(m.abortf("deadlock", "all goroutines are blocked"))
		}
		g := a[0]
		if m.sched && len(a) > 1 {
			g = a[m.choose("sched", len(a))]
		}
		m.switchTo(g)
		self.ready = nil
	}
	m.cur.ready = nil
}

// schedPoint may preempt the current goroutine.
func (m *machine) schedPoint() {
	if !m.sched || m.preempt <= 0 {
		return
	}
	a := m.runnable(m.cur)
	if len(a) == 0 {
		return
	}
	k := m.choose("sched", len(a)+1)
	if k == 0 {
		return
	}
	m.preempt--
	m.switchTo(a[k-1])
}

// yieldAll lets every other goroutine run until it blocks or ends.
func (m *machine) yieldAll() {
	self := m.cur
	for {
		a := m.runnable(self)
		if len(a) == 0 || a[0].yields {
			return
		}
		self.yields = true // continues when nothing else can run
		g := a[0]
		if m.sched && len(a) > 1 {
			g = a[m.choose("sched", len(a))]
		}
		m.switchTo(g)
		self.yields = false
	}
}

func (m *machine) killOthers() {
	for _, g := range m.gs {
		if g != m.g0 && !g.done {
			g.wake <- 1
			<-g.gone
		}
	}
	m.gs = m.gs[:1]
	m.cur = m.g0
}

type sleeper struct{ at value }

var sleepersKey = new(int)

func (m *machine) sleepers() []*sleeper {
	s, _ := m.side[sleepersKey].([]*sleeper)
	return s
}

func (m *machine) sleep(d value) {
	k := ikind{64, true}
	at := m.addInt(m.now, d, k)
	s := &sleeper{at}
	m.side[sleepersKey] = append(m.sleepers(), s)
	woken := false
	m.blockUntil(func() bool {
		if woken {
			return true
		}
		if m.branch(fromBoolT(m.tt.cmp(tSle, m.toBV(s.at, 64), m.toBV(m.now, 64)))) {
			woken = true
			a := m.sleepers()
			for i, x := range a {
				if x == s {
					m.side[sleepersKey] = append(append([]*sleeper(nil), a[:i]...), a[i+1:]...)
					break
				}
			}
		}
		return woken
	})
}

// autoAdvance moves the virtual clock to the earliest sleeper when nothing else can run.
func (m *machine) autoAdvance() bool {
	a := m.sleepers()
	if len(a) == 0 {
		return false
	}
	min := a[0].at
	for _, s := range a[1:] {
		if m.branch(fromBoolT(m.tt.cmp(tSlt, m.toBV(s.at, 64), m.toBV(min, 64)))) {
			min = s.at
		}
	}
	m.now = min
	return true
}

func (m *machine) addInt(x, y value, k ikind) value {
	if a, ok := x.(int64); ok {
		if b, ok := y.(int64); ok {
			return k.norm(a + b)
		}
	}
	return fromBVT(m.tt.bin(tAdd, m.toBV(x, k.w), m.toBV(y, k.w)), k)
}

// ---- panics

func (m *machine) runtimeError(msg string) *targetPanic {
	if m.p.cfg.verbose {
		fmt.Printf("PANIC %s\n%s", msg, m.where())
	}
	return &targetPanic{v: iface{m.p.rtErrString, msg}, g: m.cur}
}

func (m *machine) targetPanicf(f string, a ...any) *targetPanic {
	return &targetPanic{v: iface{canon(types.Typ[types.String]), fmt.Sprintf(f, a...)}, g: m.cur}
}

func (m *machine) nilDeref() *targetPanic {
	return m.runtimeError("invalid memory address or nil pointer dereference")
}

// ---- path condition

func (m *machine) support(t *Term) int {
	switch t.op {
	case tConst:
		return -1
	case tVar:
		return t.id
	}
	if s, ok := m.sup[t.id]; ok {
		return s
	}
	s := -1
	for _, x := range t.a {
		y := m.support(x)
		switch {
		case y == -1 || y == s:
		case s == -1:
			s = y
		default:
			s = -2
		}
		if s == -2 {
			break
		}
	}
	m.sup[t.id] = s
	return s
}

// truthSet returns the set of values of the single (small) variable v for which t is true.
func (m *machine) truthSet(t *Term, v *Term) dom {
	if d, ok := m.truth[t.id]; ok {
		return *d
	}
	var d dom
	n := uint64(2)
	if v.w > 0 {
		n = 1 << uint(v.w)
	}
	memo := make(map[int]uint64)
	for i := uint64(0); i < n; i++ {
		clear(memo)
		md := model{v.name: i}
		if md.eval(t, memo) != 0 {
			d.set(i)
		}
	}
	m.truth[t.id] = &d
	return d
}

func (m *machine) smallVar(t *Term) *Term {
	s := m.support(t)
	if s < 0 {
		return nil
	}
	v := m.varByI[s]
	if v == nil || v.w > 8 {
		return nil
	}
	return v
}

// foldDomain decides t when the domain of its only variable already does.
func (m *machine) foldDomain(t *Term) *Term {
	if t.op == tConst {
		return t
	}
	if t.op == tAnd && m.smallVar(t) == nil {
		return m.tt.and(m.foldDomain(t.a[0]), m.foldDomain(t.a[1]))
	}
	if t.op == tNot {
		return m.tt.not(m.foldDomain(t.a[0]))
	}
	v := m.smallVar(t)
	if v == nil {
		return t
	}
	d := m.doms[v.id]
	ts := m.truthSet(t, v)
	x := d.and(ts)
	switch {
	case x.empty():
		return m.tt.tF
	case x == d:
		return m.tt.tT
	}
	return t
}

func (m *machine) newVar(name string, w int, d dom) *Term {
	if fx := m.p.cfg.fixed; fx != nil && w <= 8 {
		x, ok := fx[name]
		if !ok || !d.has(x) {
			x = d.first()
		}
		d = dom{}
		d.set(x)
	}
	t := m.tt.v(name, w)
	m.varByI[t.id] = t
	if w <= 8 {
		m.doms[t.id] = d
	}
	if x, ok := m.md[name]; w <= 8 && (!ok || !d.has(x)) {
		m.md[name] = d.first()
	}
	if w <= 8 {
		// assert the domain for the solver
		if c := m.domTerm(t, d); c != m.tt.tT {
			m.pc = append(m.pc, c)
		}
	}
	return t
}

// domTerm expresses membership of v in d as a term.
func (m *machine) domTerm(v *Term, d dom) *Term {
	tt := m.tt
	if v.w == 0 {
		return tt.tT
	}
	n := uint64(1) << uint(v.w)
	r := tt.tF
	for i := uint64(0); i < n; {
		if !d.has(i) {
			i++
			continue
		}
		j := i
		for j+1 < n && d.has(j+1) {
			j++
		}
		var c *Term
		switch {
		case i == 0 && j == n-1:
			return tt.tT
		case i == j:
			c = tt.eq(v, tt.bv(v.w, i))
		default:
			c = tt.tT
			if i > 0 {
				c = tt.and(c, tt.cmp(tUle, tt.bv(v.w, i), v))
			}
			if j < n-1 {
				c = tt.and(c, tt.cmp(tUle, v, tt.bv(v.w, j)))
			}
		}
		r = tt.or(r, c)
		i = j + 1
	}
	return r
}

func (m *machine) uniq(name string) string {
	n := m.names[name]
	m.names[name] = n + 1
	if n == 0 {
		return name
	}
	return fmt.Sprintf("%s#%d", name, n)
}

func (m *machine) assertPC(t *Term) {
	if t.op == tAnd {
		m.assertPC(t.a[0])
		m.assertPC(t.a[1])
		return
	}
	if t == m.tt.tT {
		return
	}
	m.pc = append(m.pc, t)
	if t.op == tNot {
		m.lits[t.a[0].id] = false
	} else {
		m.lits[t.id] = true
	}
	if v := m.smallVar(t); v != nil {
		m.doms[v.id] = m.doms[v.id].and(m.truthSet(t, v))
	}
}

func (m *machine) lit(t *Term) (bool, bool) {
	if t.op == tNot {
		b, ok := m.lits[t.a[0].id]
		return !b, ok
	}
	b, ok := m.lits[t.id]
	return b, ok
}

// query asks the solver whether pc and t is satisfiable.
func (m *machine) query(t *Term) (string, model) {
	if m.pcDone == 0 {
		m.sol.beginPath()
	}
	for ; m.pcDone < len(m.pc); m.pcDone++ {
		m.sol.assert(m.pc[m.pcDone])
	}
	if m.pcDone == 0 {
		m.pcDone = 0
	}
	res, md := m.sol.check(t, true)
	if res == "sat" {
		// variables the solver has not seen keep their current values
		out := model{}
		for k, v := range m.md {
			out[k] = v
		}
		for k, v := range md {
			out[k] = v
		}
		md = out
	}
	if len(m.pc) == 0 {
		// beginPath will be called again; harmless
		m.pcDone = 0
	}
	return res, md
}

func (m *machine) evalMD(t *Term) uint64 { return m.md.eval(t, m.memo) }

func (m *machine) setMD(md model) {
	m.md = md
	m.memo = map[int]uint64{}
}

// forkSites, if set, counts where paths fork.
var (
	forkSites map[string]int
	forkMu    sync.Mutex
)

// branch decides a boolean, forking the path if both sides are feasible.
func (m *machine) branch(v value) bool {
	if b, ok := v.(bool); ok {
		return b
	}
	t := m.foldDomain(v.(*Term))
	if t.op == tConst {
		return t.n != 0
	}
	if b, ok := m.lit(t); ok {
		return b
	}
	if m.initing > 0 {
		panic(m.abortf("internal", "symbolic branch during initialisation"))
	}
	m.stats.branches++
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		if d.kind != 0 {
			panic(m.abortf("internal", "replay diverged (branch)"))
		}
		m.pos++
		side := d.val != 0
		if side {
			m.assertPC(t)
		} else {
			m.assertPC(m.tt.not(t))
		}
		return side
	}
	side := m.evalMD(t) != 0
	mine, other := t, m.tt.not(t)
	if !side {
		mine, other = other, mine
	}
	res, md := m.query(other)
	if res == "sat" {
		if forkSites != nil {
			forkMu.Lock()
			forkSites[m.where()]++
			forkMu.Unlock()
		}
		tr := append(append([]decision(nil), m.trail...), decision{0, b2n(!side)})
		m.ex.push(workItem{tr, md})
	} else if res == "unknown" {
		m.ex.note("solver-unknown")
	}
	m.trail = append(m.trail, decision{0, b2n(side)})
	m.pos = len(m.trail)
	m.prefix = m.trail
	m.assertPC(mine)
	return side
}

func b2n(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// choose picks one of n alternatives, exploring all of them.
func (m *machine) choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	if n > 256 {
		panic(m.abortf("internal", "choose of %d", n))
	}
	var d dom
	for i := 0; i < n; i++ {
		d.set(uint64(i))
	}
	t := m.newVar(m.uniq(name), 8, d)
	return int(m.concretize(t, ikind{8, false}))
}

func (m *machine) record(name string, v uint64) {
	m.assign[name] = v
	m.order = append(m.order, name)
}

// concretize forks over the feasible values of t.
func (m *machine) concretize(v value, k ikind) int64 {
	if n, ok := v.(int64); ok {
		return n
	}
	t := v.(*Term)
	for i := 0; ; i++ {
		if i > 600 {
			panic(m.abortf("limit", "too many values to concretise"))
		}
		var pick uint64
		if m.pos < len(m.prefix) {
			d := m.prefix[m.pos]
			if d.kind != 2 {
				panic(m.abortf("internal", "replay diverged (pick)"))
			}
			m.pos++
			pick = d.val
		} else {
			pick = m.evalMD(t)
			m.trail = append(m.trail, decision{2, pick})
			m.pos = len(m.trail)
			m.prefix = m.trail
		}
		if m.branch(fromBoolT(m.tt.eq(t, m.tt.bv(t.w, pick)))) {
			if k.signed {
				return sext64(pick, t.w)
			}
			return int64(pick)
		}
	}
}

// assume restricts the path.
func (m *machine) assume(v value) {
	t := m.foldDomain(m.toBoolT(v))
	if t == m.tt.tF {
		panic(&abort{"infeasible", ""})
	}
	if t == m.tt.tT {
		return
	}
	if b, ok := m.lit(t); ok {
		if !b {
			panic(&abort{"infeasible", ""})
		}
		return
	}
	if m.evalMD(t) == 0 {
		res, md := m.query(t)
		if res == "unknown" {
			m.ex.note("solver-unknown")
		}
		if res != "sat" {
			panic(&abort{"infeasible", ""})
		}
		m.setMD(md)
	}
	m.assertPC(t)
}

// assertProp checks an assertion on this path. Assertions that are not
// constant are collected and put to the solver together when the path ends:
// every way the path continues is explored, so nothing is lost by waiting.
func (m *machine) assertProp(v value, label string) {
	m.stats.asserts++
	if !m.ex.wants(label) {
		return
	}
	full := m.toBoolT(v)
	switch {
	case full == m.tt.tT:
		m.stats.trivially++
		m.ex.discharged(label, false)
		return
	case m.foldDomain(full) == m.tt.tF:
		m.ex.violation(m, label, m.md, "")
		panic(&abort{"stop", label})
	}
	m.pending = append(m.pending, obligation{full, label})
}

type obligation struct {
	t     *Term
	label string
}

// flushAssertions discharges what assertProp collected.
func (m *machine) flushAssertions() {
	if len(m.pending) == 0 {
		return
	}
	ps := m.pending
	m.pending = nil
	all := m.tt.tT
	for _, p := range ps {
		all = m.tt.and(all, p.t)
	}
	res, _ := m.query(m.tt.not(all))
	if res == "unsat" {
		for _, p := range ps {
			m.ex.discharged(p.label, true)
		}
		return
	}
	seen := map[string]bool{}
	for _, p := range ps {
		if seen[p.label] {
			continue
		}
		res, md := m.query(m.tt.not(p.t))
		switch res {
		case "unsat":
			m.ex.discharged(p.label, true)
		case "sat":
			seen[p.label] = true
			m.ex.violation(m, p.label, md, "")
		default:
			m.ex.note("solver-unknown")
		}
	}
}

// ---- running one path

func (m *machine) initBase(harness *ssa.Function) (err error) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case *targetPanic:
				err = fmt.Errorf("initialisation panicked: %s", m.describe(r.v))
			case *abort:
				err = fmt.Errorf("initialisation: %s: %s", r.kind, r.msg)
			default:
				err = fmt.Errorf("initialisation: %v\n%s", r, debug.Stack())
			}
		}
	}()
	m.g0 = &gor{wake: make(chan int)}
	m.cur = m.g0
	m.gs = []*gor{m.g0}
	m.noUndo++
	for _, p := range m.p.eager {
		m.initPackage(p)
	}
	m.noUndo--
	return nil
}

func (m *machine) initPackage(p *ssa.Package) {
	if m.inited[p] {
		return
	}
	m.inited[p] = true
	if m.p.noInit[p.Pkg.Path()] {
		return
	}
	fn := p.Func("init")
	if fn == nil {
		return
	}
	saveSteps := m.steps
	m.noUndo++
	m.initing++
	saveEpoch := m.epoch
	m.epoch = 0
	defer func() {
		m.epoch = saveEpoch
		m.initing--
		m.noUndo--
		m.steps = saveSteps
	}()
	root := &frame{m: m, g: m.cur}
	m.callFunction(root, fn, nil, nil)
}

func (m *machine) runPath(w workItem, harness *ssa.Function) (out outcome) {
	m.resetPath(w)
	m.g0 = &gor{wake: make(chan int)}
	m.cur = m.g0
	m.gs = []*gor{m.g0}
	defer func() {
		r := recover()
		switch r := r.(type) {
		case nil:
			out.kind = "ok"
		case *abort:
			out.kind, out.msg = r.kind, r.msg
		case *targetPanic:
			out.kind, out.msg = "crash", m.describe(r.v)+"\n"+r.st
		case *crashSignal:
			out.kind, out.msg = "crash", m.describe(r.v)+"\n"+r.st
		case *exitSignal:
			out.kind, out.msg = "exit", fmt.Sprint(r.code)
		case solverError:
			out.kind, out.msg = "internal", r.msg
		default:
			out.kind, out.msg = "internal", fmt.Sprintf("%v\n%s\n%s", r, m.where(), debug.Stack())
		}
		m.killOthers()
		m.noUndo, m.initing = 0, 0
		func() {
			defer func() {
				if r := recover(); r != nil {
					out.kind, out.msg = "internal", fmt.Sprint(r)
				}
			}()
			if out.kind != "infeasible" {
				m.flushAssertions()
			}
		}()
		m.undoAll()
	}()
	root := &frame{m: m, g: m.g0}
	m.callFunction(root, harness, nil, nil)
	return
}

func (m *machine) where() string {
	if m.cur == nil || m.cur.top == nil {
		return ""
	}
	var sb strings.Builder
	for fr, n := m.cur.top, 0; fr != nil && n < 25; fr, n = fr.caller, n+1 {
		if fr.code != nil {
			fmt.Fprintf(&sb, "  at %s\n", fr.code.fn)
		}
	}
	return sb.String()
}

type outcome struct {
	kind, msg string
}

// ---- explorer

type violation struct {
	Label  string            `json:"label"`
	Assign map[string]uint64 `json:"assign"`
	Note   string            `json:"note,omitempty"`
	Trail  []decision        `json:"-"`
	Where  string            `json:"where,omitempty"`
}

type explorer struct {
	mu      sync.Mutex
	cond    *sync.Cond
	queue   []workItem
	busy    int
	stopped bool

	maxPaths  int64
	maxViol   int
	violSeed  uint64
	deadline  time.Time
	paths     atomic.Int64
	outcomes  map[string]int
	msgs      map[string]string
	notes     map[string]int
	viol      []violation
	violN     map[string]int
	labels    map[string]*labelStat
	covers    map[string]int
	want      func(string) bool
	crashOK   bool
	asserts   int64
	branches  int64
	steps     int64
	trace     bool
	implicit  string
	truncated bool
	samples   []sample
}

type sample struct {
	Assign map[string]uint64 `json:"assign"`
	Kind   string            `json:"outcome"`
	Steps  int64             `json:"ssa_blocks"`
}

type labelStat struct {
	Checks   int `json:"checks"`
	BySolver int `json:"by_solver"`
}

func newExplorer() *explorer {
	ex := &explorer{outcomes: map[string]int{}, msgs: map[string]string{}, notes: map[string]int{}, violN: map[string]int{},
		labels: map[string]*labelStat{}, covers: map[string]int{}}
	ex.cond = sync.NewCond(&ex.mu)
	return ex
}

func (ex *explorer) wants(label string) bool {
	return ex.want == nil || ex.want(label)
}

func (ex *explorer) discharged(label string, bySolver bool) {
	ex.mu.Lock()
	s := ex.labels[label]
	if s == nil {
		s = &labelStat{}
		ex.labels[label] = s
	}
	s.Checks++
	if bySolver {
		s.BySolver++
	}
	ex.mu.Unlock()
}

func (ex *explorer) note(s string) {
	ex.mu.Lock()
	ex.notes[s]++
	ex.mu.Unlock()
}

func (ex *explorer) push(w workItem) {
	ex.mu.Lock()
	ex.queue = append(ex.queue, w)
	ex.mu.Unlock()
	ex.cond.Signal()
}

func (ex *explorer) pop() (workItem, bool) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if ex.stopped {
			return workItem{}, false
		}
		if n := len(ex.queue); n > 0 {
			w := ex.queue[n-1]
			ex.queue = ex.queue[:n-1]
			ex.busy++
			return w, true
		}
		if ex.busy == 0 {
			ex.cond.Broadcast()
			return workItem{}, false
		}
		ex.cond.Wait()
	}
}

func (ex *explorer) finish() {
	ex.mu.Lock()
	ex.busy--
	if ex.busy == 0 && len(ex.queue) == 0 {
		ex.cond.Broadcast()
	}
	ex.mu.Unlock()
}

func (ex *explorer) stop() {
	ex.mu.Lock()
	ex.stopped = true
	ex.cond.Broadcast()
	ex.mu.Unlock()
}

func (ex *explorer) violation(m *machine, label string, md model, note string) {
	a := map[string]uint64{}
	for k, v := range m.assign {
		a[k] = v
	}
	for _, k := range m.order {
		if v, ok := md[k]; ok {
			a[k] = v
		}
	}
	for _, v := range m.tt.vars {
		if x, ok := md[v.name]; ok {
			if _, used := m.names[baseName(v.name)]; used {
				a[v.name] = x
			}
		}
	}
	ex.mu.Lock()
	ex.violN[label]++
	v := violation{Label: label, Assign: a, Note: note, Where: m.where(), Trail: append([]decision(nil), m.trail...)}
	if ex.violN[label] <= ex.maxViol {
		ex.viol = append(ex.viol, v)
	} else {
		// keep a spread of them: any one found later takes the place of an
		// earlier one with falling probability
		ex.violSeed = ex.violSeed*6364136223846793005 + 1442695040888963407
		if k := int((ex.violSeed >> 33) % uint64(ex.violN[label])); k < ex.maxViol/2 {
			n := 0
			for i := range ex.viol {
				if ex.viol[i].Label == label {
					if n == ex.maxViol-1-k {
						ex.viol[i] = v
						break
					}
					n++
				}
			}
		}
	}
	ex.mu.Unlock()
}

func baseName(s string) string {
	if i := strings.LastIndexByte(s, '#'); i >= 0 {
		return s[:i]
	}
	return s
}

func (ex *explorer) worker(m *machine, harness *ssa.Function) {
	for {
		w, ok := ex.pop()
		if !ok {
			return
		}
		out := m.runPath(w, harness)
		n := ex.paths.Add(1)
		ex.mu.Lock()
		ex.outcomes[out.kind]++
		if out.msg != "" {
			if _, ok := ex.msgs[out.kind]; !ok || out.kind == "internal" || out.kind == "unsupported" {
				ex.msgs[out.kind] = out.msg
			}
		}
		for c := range m.covers {
			ex.covers[c]++
		}
		ex.asserts += int64(m.stats.asserts)
		ex.branches += int64(m.stats.branches)
		ex.steps += m.steps
		if len(ex.samples) < 3 || (n%97 == 0 && len(ex.samples) < 8) || manySamples > 0 && n%manySamples == 0 {
			a := map[string]uint64{}
			for k, v := range m.md {
				if _, ok := m.names[baseName(k)]; ok {
					a[k] = v
				}
			}
			for k, v := range m.assign {
				a[k] = v
			}
			ex.samples = append(ex.samples, sample{a, out.kind, m.steps})
		}
		trace := ex.trace
		ex.mu.Unlock()
		if trace {
			fmt.Fprintf(os.Stderr, "path %d: %s %s steps=%d trail=%d assign=%v\n", n, out.kind, firstLine(out.msg), m.steps, len(m.trail), m.assign)
		}
		switch out.kind {
		case "crash", "deadlock", "limit", "exit":
			if ex.implicit != "" && ex.wants(ex.implicit) && !(out.kind == "limit" && strings.HasPrefix(out.msg, "too many")) {
				ex.violation(m, ex.implicit, m.md, out.kind+": "+out.msg)
			}
		}
		ex.finish()
		if (ex.maxPaths > 0 && n >= ex.maxPaths) || (!ex.deadline.IsZero() && time.Now().After(ex.deadline)) {
			ex.mu.Lock()
			if len(ex.queue) > 0 || ex.busy > 0 {
				ex.truncated = true
			}
			ex.mu.Unlock()
			ex.stop()
			return
		}
	}
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// describe renders a panic value for messages.
func (m *machine) describe(v value) string {
	i, ok := v.(iface)
	if !ok || i.t == nil {
		return "nil"
	}
	switch x := i.v.(type) {
	case string:
		return typeStr(i.t) + ": " + x
	case int64:
		return fmt.Sprintf("%s: %d", typeStr(i.t), x)
	}
	if p, ok := i.v.(*value); ok && p != nil {
		if s, ok := (*p).(structure); ok && len(s) > 0 {
			if msg, ok := s[0].(string); ok {
				return typeStr(i.t) + ": " + msg
			}
		}
	}
	return typeStr(i.t)
}
