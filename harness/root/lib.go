// Package root drives hotswap's public API with plugins whose behaviour is
// symbolic, and states the properties of the plugin manager as assertions.
package root

import (
	"errors"
	"fmt"
	"plugin"
	"strings"

	"github.com/edwingeng/hotswap"
	"github.com/edwingeng/hotswap/vault"
	_ "github.com/edwingeng/hotswap/zzverif/mlog"
	"github.com/edwingeng/hotswap/zzverif/plug"
	"github.com/edwingeng/hotswap/zzverif/sym"
	"github.com/edwingeng/hotswap/zzverif/vfs"
	"github.com/edwingeng/slog"
)

// ---- logging

type logger struct {
	errs []string
	w    *world
}

func (l *logger) NewLoggerWith(keyVals ...any) slog.Logger { return l }
func (l *logger) Debug(args ...any)                        {}
func (l *logger) Info(args ...any)                         {}
func (l *logger) Warn(args ...any)                         {}
func (l *logger) Error(args ...any) {
	if len(args) == 1 {
		if e, ok := args[0].(error); ok && e != nil {
			l.errs = append(l.errs, e.Error())
			return
		}
	}
	l.errs = append(l.errs, fmt.Sprint(args...))
}
func (l *logger) Debugf(format string, args ...any) {}
func (l *logger) Infof(format string, args ...any)  {}
func (l *logger) Warnf(format string, args ...any)  {}
func (l *logger) Errorf(format string, args ...any) {
	s := format
	for _, a := range args {
		switch x := a.(type) {
		case string:
			s += " " + x
		case error:
			s += " " + x.Error()
		}
	}
	l.errs = append(l.errs, s)
}
func (l *logger) Debugw(msg string, keyVals ...any) {}
func (l *logger) Infow(msg string, keyVals ...any)  {}
func (l *logger) Warnw(msg string, keyVals ...any)  {}
func (l *logger) Errorw(msg string, keyVals ...any) { l.errs = append(l.errs, msg) }
func (l *logger) FlushLogger() error                { return nil }

// ---- plugins

// build is one compiled version of a plugin.
type build struct {
	name       string // as in the file name
	ver        string
	pre, post  string // what surrounds name and version in the file
	reloadable bool
	imports    func(i *inst) any // what Import returns
	exports    func(i *inst) any // what Export returns
	funcs      map[string]any
	types      map[string]func() any
	nilFuncs   bool
	nilTypes   bool
	drop       map[string]bool // symbols it lacks
	replace    map[string]any  // symbols that are something else
}

// inst is one opened plugin: its own functions, its own state.
type inst struct {
	b        *build
	w        *world
	n        map[string]int // calls
	at       map[string]int // position of the last call in the log
	exp      any
	imp      any
	path     string
	data     any
	v        *vault.Vault
	vOK      bool
	freeTime int64
	params   []any
}

type event struct {
	fn string
	i  *inst
}

type api struct{ i *inst }

func (a *api) Who() *inst { return a.i }

type apiI interface{ Who() *inst }

type world struct {
	dir    string
	lg     *logger
	log    []event
	insts  []*inst
	builds map[string]*build // by file content
	sw     *hotswap.PluginManagerSwapper
	// act decides what a call does: 0 normal, 1 error, 2 panic
	panicVal any
	act      func(fn string, i *inst) int
	// before is told of every call
	before func(fn string, i *inst)
	opened map[string]*inst
	// dropFn tells which of the nine functions an instance lacks
	dropFn func(i *inst, fn string) bool
}

const (
	ok0    = 0
	err1   = 1
	panic2 = 2
)

var errAct = errors.New("plugin error")

func newWorld() *world {
	w := &world{dir: vfs.Root() + "/plugins", lg: &logger{}, builds: map[string]*build{}, opened: map[string]*inst{}}
	w.lg.w = w
	vfs.Mkdir(w.dir)
	plug.Hook = w.open
	return w
}

func (w *world) newInst(b *build) *inst {
	i := &inst{b: b, w: w, n: map[string]int{}, at: map[string]int{}}
	w.insts = append(w.insts, i)
	return i
}

// enter logs a call and does what act says.
func (i *inst) enter(fn string) int {
	w := i.w
	i.n[fn]++
	i.at[fn] = len(w.log)
	w.log = append(w.log, event{fn, i})
	if w.before != nil {
		w.before(fn, i)
	}
	a := ok0
	if w.act != nil {
		a = w.act(fn, i)
	}
	switch fn {
	case "open", "OnLoad", "OnInit":
		if a == panic2 {
			panic("boom in " + fn)
		}
	default: // has no error to return
		if strings.HasPrefix(fn, "Invoke:") {
			if a == panic2 {
				panic(i.w.panicVal)
			}
			return a
		}
		if a != ok0 {
			panic("boom in " + fn)
		}
	}
	return a
}

func (i *inst) name() string { return i.b.name }

func (i *inst) onLoad(data any) error {
	i.data = data
	if i.enter("OnLoad") == err1 {
		return errAct
	}
	return nil
}

func (i *inst) onInit(v *vault.Vault) error {
	i.v = v
	if i.enter("OnInit") == err1 {
		return errAct
	}
	return nil
}

func (i *inst) onFree() {
	i.freeTime = sym.Now()
	i.enter("OnFree")
}

func (i *inst) export() any {
	i.enter("Export")
	if i.b.exports != nil {
		i.exp = i.b.exports(i)
	} else {
		i.exp = &api{i}
	}
	return i.exp
}

func (i *inst) doImport() any {
	i.enter("Import")
	if i.b.imports != nil {
		i.imp = i.b.imports(i)
	}
	return i.imp
}

type whoT struct{ i *inst }

func (i *inst) invoke(name string, params ...any) (any, error) {
	if name == "who" {
		return i, nil
	}
	i.params = params
	a := i.enter("Invoke:" + name)
	if a == err1 {
		if letter(1) == i.b.name || letter(2) == i.b.name {
			return name, errAct // a result and an error
		}
		return nil, errAct
	}
	return name, nil
}

func (i *inst) isReloadable() bool {
	i.enter("Reloadable")
	return i.b.reloadable
}

func (i *inst) liveFuncs() map[string]any {
	i.enter("LiveFuncs")
	if i.b.nilFuncs {
		return nil
	}
	if i.b.funcs == nil {
		return map[string]any{}
	}
	return i.b.funcs
}

func (i *inst) liveTypes() map[string]func() any {
	i.enter("LiveTypes")
	if i.b.nilTypes {
		return nil
	}
	if i.b.types == nil {
		return map[string]func() any{}
	}
	return i.b.types
}

func (i *inst) symbols() map[string]plugin.Symbol {
	m := map[string]plugin.Symbol{
		"OnLoad":           i.onLoad,
		"OnInit":           i.onInit,
		"OnFree":           i.onFree,
		"Export":           i.export,
		"Import":           i.doImport,
		"InvokeFunc":       i.invoke,
		"Reloadable":       i.isReloadable,
		"HotswapLiveFuncs": i.liveFuncs,
		"HotswapLiveTypes": i.liveTypes,
	}
	if i.w.dropFn != nil {
		for _, k := range nine {
			if i.w.dropFn(i, k) {
				delete(m, k)
			}
		}
	}
	for k, v := range i.b.replace {
		m[k] = v
	}
	return m
}

var errOpen = errors.New("plugin.Open failed")

// open is what the plugin loader finds in a file.
func (w *world) open(path string, data []byte) (map[string]plugin.Symbol, error) {
	b := w.builds[string(data)]
	if b == nil {
		return nil, errOpen
	}
	i := w.newInst(b)
	i.path = path
	w.opened[path] = i
	if i.enter("open") == err1 {
		return nil, errOpen
	}
	return i.symbols(), nil
}

func (i *inst) funcsOf() hotswap.PluginFuncs {
	return hotswap.NewPluginFuncs(i.export, i.liveFuncs, i.liveTypes, i.doImport, i.invoke, i.onFree, i.onInit, i.onLoad, i.isReloadable)
}

// content is what the plugin file of a build holds.
func (b *build) content() string { return b.pre + "build " + b.name + " " + b.ver + b.post }

// put installs a build as a plugin file.
func (w *world) put(b *build) {
	c := b.content()
	w.builds[c] = b
	vfs.Put(w.dir+"/"+b.name+".so", []byte(c))
}

func (w *world) file(b *build) string { return w.dir + "/" + b.name + ".so" }

func (w *world) del(name string) { vfs.Del(w.dir + "/" + name + ".so") }

// static makes a static plugin of a build.
func (w *world) static(b *build) *hotswap.StaticPlugin {
	return &hotswap.StaticPlugin{Name: b.name, PluginFuncs: w.newInst(b).funcsOf()}
}

func (w *world) statics(bs ...*build) map[string]*hotswap.StaticPlugin {
	m := map[string]*hotswap.StaticPlugin{}
	for _, b := range bs {
		m[b.name] = w.static(b)
	}
	return m
}

func (w *world) swapper(opts ...hotswap.Option) *hotswap.PluginManagerSwapper {
	w.sw = hotswap.NewPluginManagerSwapper(w.dir, append([]hotswap.Option{hotswap.WithLogger(w.lg)}, opts...)...)
	return w.sw
}

// result of a load or reload
type result struct {
	d        hotswap.Details
	err      error
	panicked bool
}

func (w *world) load(data any) (r result) {
	defer func() {
		if x := recover(); x != nil {
			w.rethrow(x)
			r.panicked = true
			r.err = errors.New("panicked")
		}
	}()
	r.d, r.err = w.sw.LoadPlugins(data)
	return
}

func (w *world) reload(data any, extra ...hotswap.ReloadCallback) (r result) {
	defer func() {
		if x := recover(); x != nil {
			w.rethrow(x)
			r.panicked = true
			r.err = errors.New("panicked")
		}
	}()
	if len(extra) > 0 {
		r.d, r.err = w.sw.ReloadWithCallback(data, extra[0])
	} else {
		r.d, r.err = w.sw.Reload(data)
	}
	return
}

func (w *world) rethrow(x any) {
	if r, ok := x.(sym.Rejection); ok {
		panic(r)
	}
}

// who finds the instance behind a listed plugin.
func who(p *hotswap.Plugin) *inst {
	if p == nil {
		return nil
	}
	r, _ := p.InvokeFunc("who")
	i, _ := r.(*inst)
	return i
}

// running lists the instances of a manager in listed order.
func running(m *hotswap.PluginManager) []*inst {
	if m == nil {
		return nil
	}
	var a []*inst
	for _, p := range m.Plugins() {
		a = append(a, who(p))
	}
	return a
}

func find(a []*inst, i *inst) int {
	for k, x := range a {
		if x == i {
			return k
		}
	}
	return -1
}

func byName(a []*inst, name string) *inst {
	for _, x := range a {
		if strings.EqualFold(x.b.name, name) {
			return x
		}
	}
	return nil
}

// count tells how often fn was called on anyone since position from.
func (w *world) count(fn string, from int) int {
	n := 0
	for _, e := range w.log[from:] {
		if e.fn == fn {
			n++
		}
	}
	return n
}

func sameInsts(a, b []*inst) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if a[k] != b[k] {
			return false
		}
	}
	return true
}

var (
	letters = []string{"alpha", "Bravo", "charlie", "Delta", "echo", "foxtrot", "Golf"}
	fields  = []string{"Alpha", "Bravo", "Charlie", "Delta", "Echo", "Foxtrot", "Golf"}
)

// letter makes a plugin name out of an index.
func letter(k int) string { return letters[k] }

// fieldName is how others import plugin k.
func fieldName(k int) string { return fields[k] }

// snapshot is what a manager looks like to its users.
type snapshot struct {
	m       *hotswap.PluginManager
	plugins []hotswap.Plugin
	deps    [][]string
	funcs   map[string]any
	types   map[string]any
	bag     map[string]any
	ext     any
}

func snap(m *hotswap.PluginManager) *snapshot {
	s := &snapshot{m: m, funcs: map[string]any{}, types: map[string]any{}, bag: map[string]any{}}
	if m == nil {
		return s
	}
	for _, p := range m.Plugins() {
		s.plugins = append(s.plugins, *p)
		s.deps = append(s.deps, append([]string{}, p.Deps...))
	}
	for k, v := range m.LiveFuncs {
		s.funcs[k] = v
	}
	for k, f := range m.LiveTypes {
		s.types[k] = f()
	}
	for k, v := range m.DataBag {
		s.bag[k] = v
	}
	s.ext = m.Extension
	return s
}

func sameMap(a, b map[string]any) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if x, ok := b[k]; !ok || x != v {
			return false
		}
	}
	return true
}

// unchanged tells whether the manager still looks as it did, and why not.
func (s *snapshot) unchanged() string {
	if s.m == nil {
		return ""
	}
	n := snap(s.m)
	if len(n.plugins) != len(s.plugins) {
		return "plugins"
	}
	for k := range n.plugins {
		a, b := &n.plugins[k], &s.plugins[k]
		if a.Name != b.Name || a.File != b.File || a.FileSha1 != b.FileSha1 || a.Note != b.Note || !a.When.Equal(b.When) || a.P != b.P {
			return "plugin data"
		}
		if len(n.deps[k]) != len(s.deps[k]) {
			return "Deps"
		}
		for x := range n.deps[k] {
			if n.deps[k][x] != s.deps[k][x] {
				return "Deps"
			}
		}
		if s.m.FindPlugin(b.Name) != s.m.Plugins()[k] {
			return "FindPlugin"
		}
	}
	switch {
	case !sameMap(n.funcs, s.funcs):
		return "live functions"
	case !sameMap(n.types, s.types):
		return "live types"
	case !sameMap(n.bag, s.bag):
		return "DataBag"
	case n.ext != s.ext:
		return "Extension"
	}
	return ""
}
