// Package gen runs code that the hotswap command has generated for the plugins
// of genplug, together with the plugins and the plugin manager.
package gen

import (
	"errors"
	"plugin"
	"strings"

	"github.com/edwingeng/hotswap"
	alphadyn "github.com/edwingeng/hotswap/zzverif/gendyn/alpha"
	"github.com/edwingeng/hotswap/zzverif/genout"
	"github.com/edwingeng/hotswap/zzverif/genplug/alpha"
	"github.com/edwingeng/hotswap/zzverif/genplug/alpha/hotswapbureau"
	"github.com/edwingeng/hotswap/zzverif/genplug/alpha/sub"
	deeper "github.com/edwingeng/hotswap/zzverif/genplug/alpha/sub/deep"
	"github.com/edwingeng/hotswap/zzverif/genplug/omega"
	_ "github.com/edwingeng/hotswap/zzverif/mlog"
	"github.com/edwingeng/hotswap/zzverif/plug"
	"github.com/edwingeng/hotswap/zzverif/rec"
	"github.com/edwingeng/hotswap/zzverif/sym"
	"github.com/edwingeng/hotswap/zzverif/vfs"
	"github.com/edwingeng/slog"
)

type nolog struct{}

func (nolog) NewLoggerWith(keyVals ...any) slog.Logger { return nolog{} }
func (nolog) Debug(args ...any)                        {}
func (nolog) Info(args ...any)                         {}
func (nolog) Warn(args ...any)                         {}
func (nolog) Error(args ...any)                        {}
func (nolog) Debugf(format string, args ...any)        {}
func (nolog) Infof(format string, args ...any)         {}
func (nolog) Warnf(format string, args ...any)         {}
func (nolog) Errorf(format string, args ...any)        {}
func (nolog) Debugw(msg string, keyVals ...any)        {}
func (nolog) Infow(msg string, keyVals ...any)         {}
func (nolog) Warnw(msg string, keyVals ...any)         {}
func (nolog) Errorw(msg string, keyVals ...any)        {}
func (nolog) FlushLogger() error                       { return nil }

var (
	names = []string{"alpha", "Beta-2", "hotswap", "omega"}

	// what each plugin declares
	funcs = map[string][]string{
		"alpha":   {"live_Alpha", "LIVE_alphaOther", "live_second", "Live_sub", "live_deep"},
		"hotswap": {"live_hotswap"},
		"omega":   {"HOTly"},
	}
	types = map[string][]string{
		"alpha": {"Live_T", "live_u", "Live_S", "Live_Deep"},
		"omega": {"hoT"},
	}
	errStop = errors.New("stop")
)

// what function f gives
func callFunc(f any, name string) bool {
	switch name {
	case "LIVE_alphaOther":
		g, ok := f.(func(int) int)
		return ok && g(7) == 7
	}
	g, ok := f.(func() string)
	if !ok {
		return false
	}
	want := map[string]string{"live_Alpha": "alpha", "live_second": "second", "Live_sub": "sub", "live_deep": "deep", "live_hotswap": "hotswap", "HOTly": "hot"}[name]
	return g() == want
}

func isType(x any, name string) bool {
	ok := false
	switch name {
	case "Live_T":
		_, ok = x.(*alpha.Live_T)
	case "live_u":
		return x != nil && x != any(struct{}{}) // not exported
	case "Live_S":
		_, ok = x.(*sub.Live_S)
	case "Live_Deep":
		_, ok = x.(*deeper.Live_Deep)
	case "hoT":
		ok = omega.IsHoT(x)
	}
	return ok
}

func calls(p, fn string) int {
	n := 0
	for _, c := range rec.Calls {
		if c.Plugin == p && c.Fn == fn {
			n++
		}
	}
	return n
}

func last(p, fn string) []interface{} {
	for i := len(rec.Calls) - 1; i >= 0; i-- {
		if rec.Calls[i].Plugin == p && rec.Calls[i].Fn == fn {
			return rec.Calls[i].Args
		}
	}
	return nil
}

// Static loads any of the plugins the way a statically linked program does.
func Static() {
	sym.MapOrders(1, 0)
	rec.Calls, rec.Fail = nil, map[string]error{}
	all := genout.HotswapStaticPlugins
	sym.Assert(len(all) == len(names), "C34:every plugin registers itself under its own name")
	for _, n := range names {
		p := all[n]
		sym.Assert(p != nil && p.Name == n, "C34:every plugin registers itself under its own name")
		if p == nil {
			return
		}
	}
	opts := []hotswap.Option{hotswap.WithLogger(nolog{}), hotswap.WithStaticPlugins(all)}
	white := sym.Choice("whitelist", 3)
	in := map[string]bool{}
	switch white {
	case 0:
		for _, n := range names {
			in[n] = true
		}
	case 1:
		opts = append(opts, hotswap.WithWhitelist("alpha", "Beta-2"))
		in["alpha"], in["Beta-2"] = true, true
	case 2:
		opts = append(opts, hotswap.WithWhitelist("hotswap"))
		in["hotswap"] = true
	}
	var m *hotswap.PluginManager
	veto := false
	opts = append(opts, hotswap.WithReloadCallback(func(newM, _ *hotswap.PluginManager) error {
		m = newM
		if veto {
			return errStop
		}
		return nil
	}))
	sw := hotswap.NewPluginManagerSwapper("", opts...)
	end := sym.Choice("outcome", 4)
	victim := names[sym.Choice("victim", len(names))]
	fails := in[victim] && (end == 1 || end == 2) || end == 3
	switch end {
	case 1:
		rec.Fail[victim+".OnLoad"] = errStop
	case 2:
		rec.Fail[victim+".OnInit"] = errStop
	case 3:
		veto = true
	}
	data := new(int)
	_, err := sw.LoadPlugins(data)
	sym.Assert((err != nil) == fails, "C41:the plugins load unless one of them or a callback objects")
	rec.Fail = map[string]error{}
	for _, n := range names {
		want := 0
		if in[n] {
			want = 1
		}
		for _, fn := range []string{"Export", "Import", "Reloadable"} {
			sym.Assert(calls(n, fn) == want, "C34:each function is called in its own role")
		}
		for _, fn := range []string{"OnLoad", "OnInit"} {
			sym.Assert(calls(n, fn) <= want && (fails || calls(n, fn) == want), "C34:each function is called in its own role")
		}
		if a := last(n, "OnLoad"); a != nil {
			sym.Assert(len(a) == 1 && a[0] == any(data), "C34:each function is called in its own role")
		}
		freed := 0
		if fails {
			freed = want
		}
		sym.Assert(calls(n, "OnFree") == freed, "C34:each function is called in its own role")
		sym.Assert(calls(n, "InvokeFunc") == 0, "C34:each function is called in its own role")
	}
	if fails {
		sym.Cover("fails")
		return
	}
	sym.Cover("loaded")
	sym.Assert(len(m.Plugins()) == len(in), "C41:the plugins load unless one of them or a callback objects")
	sym.Assert(sw.Current() == m, "C34:the plugins load unless one of them or a callback objects")
	checkVault(m, in)
	// each InvokeFunc gets exactly what is passed
	fn := sym.String("function", 2, "fG_")
	par := sym.Int64("parameter", -3, 3)
	for _, p := range m.Plugins() {
		sym.Assert(in[p.Name], "C34:every plugin registers itself under its own name")
		x, err := p.InvokeFunc(fn, par, data)
		s, _ := x.(string)
		sym.Assert(err == nil && s == p.Name, "C34:each function is called in its own role")
		a := last(p.Name, "InvokeFunc")
		ok := len(a) == 3
		if ok {
			f, ok1 := a[0].(string)
			v, ok2 := a[1].(int64)
			ok = ok1 && ok2 && a[2] == any(data)
			sym.Assert(sym.And(sym.EqStr(f, fn), v == par), "C34:each function is called in its own role")
		}
		sym.Assert(ok, "C34:each function is called in its own role")
	}
	if in["Beta-2"] {
		p := m.FindPlugin("beta-2")
		sym.Assert(p != nil && len(p.Deps) == 1 && p.Deps[0] == "alpha", "C34:each function is called in its own role")
	}
}

// checkVault: the live things of the plugins that are in.
func checkVault(m *hotswap.PluginManager, in map[string]bool) {
	nf, nt := 0, 0
	isFunc, isTyp := map[string]bool{}, map[string]bool{}
	for _, n := range names {
		if !in[n] {
			continue
		}
		for _, f := range funcs[n] {
			nf++
			isFunc[f] = true
			sym.Assert(callFunc(m.Vault.LiveFuncs[f], f), "C32:every live function is there under its own name")
		}
		for _, t := range types[n] {
			nt++
			isTyp[t] = true
			mk := m.Vault.LiveTypes[t]
			sym.Assert(mk != nil, "C32:every live type is there under its own name")
			if mk != nil {
				sym.Assert(isType(mk(), t), "C32:a live type's function makes a pointer to it")
			}
		}
	}
	if in["alpha"] {
		if mk := m.Vault.LiveTypes["Live_T"]; mk != nil {
			x, ok1 := mk().(*alpha.Live_T)
			y, ok2 := mk().(*alpha.Live_T)
			sym.Assert(ok1 && ok2 && x != y && x.A == 0 && y.A == 0, "C32:a live type's function makes a new zero value each time")
		}
	}
	sym.Assert(len(m.Vault.LiveFuncs) == nf && len(m.Vault.LiveTypes) == nt, "C32:nothing else is live")
	// any other spelling of a name finds nothing
	name := sym.String("l", 1, "lL") + "ive_" + []string{"Alph", "u", "T", "secon", "su", "dee"}[sym.Choice("stem", 6)]
	if sym.Choice("tail", 2) == 1 {
		name += sym.String("end", 1, "adDxpb")
	}
	hit := false
	for f := range isFunc {
		hit = sym.Or(hit, sym.EqStr(f, name))
	}
	_, ok := m.Vault.LiveFuncs[name]
	sym.Assert(sym.Iff(ok, hit), "C32:live functions are found by their exact names only")
	hit = false
	for t := range isTyp {
		hit = sym.Or(hit, sym.EqStr(t, name))
	}
	_, ok = m.Vault.LiveTypes[name]
	sym.Assert(sym.Iff(ok, hit), "C32:live types are found by their exact names only")
}

// Dynamic loads the code made for "go build" as a plugin file.
func Dynamic() {
	sym.MapOrders(1, 0)
	rec.Calls, rec.Fail = nil, map[string]error{}
	plug.Hook = func(path string, data []byte) (map[string]plugin.Symbol, error) {
		return map[string]plugin.Symbol{
			"OnLoad": alphadyn.OnLoad, "OnInit": alphadyn.OnInit, "OnFree": alphadyn.OnFree, "Export": alphadyn.Export,
			"Import": alphadyn.Import, "InvokeFunc": alphadyn.InvokeFunc, "Reloadable": alphadyn.Reloadable,
			"HotswapLiveFuncs": alphadyn.HotswapLiveFuncs, "HotswapLiveTypes": alphadyn.HotswapLiveTypes,
		}, nil
	}
	dir := vfs.Root() + "/plugins"
	vfs.Mkdir(dir)
	vfs.Put(dir+"/alpha.so", []byte("alpha"))
	sw := hotswap.NewPluginManagerSwapper(dir, hotswap.WithLogger(nolog{}))
	_, err := sw.LoadPlugins(1)
	sym.Assert(err == nil, "C41:a plugin made of the generated code loads")
	if err != nil {
		return
	}
	m := sw.Current()
	nf, nt := funcs["alpha"], types["alpha"]
	for _, f := range nf {
		sym.Assert(callFunc(m.Vault.LiveFuncs[f], f), "C32:every live function is there under its own name")
	}
	for _, t := range nt {
		mk := m.Vault.LiveTypes[t]
		sym.Assert(mk != nil && mk() != nil, "C32:every live type is there under its own name")
	}
	sym.Assert(len(m.Vault.LiveFuncs) == len(nf) && len(m.Vault.LiveTypes) == len(nt), "C32:nothing else is live")
	sym.Cover("loaded")
}

// Bureau registers any names with the generated registry.
func Bureau() {
	type reg struct {
		name string
		typ  bool
		v    *int
	}
	f0, t0 := len(hotswapbureau.LiveFuncs), len(hotswapbureau.LiveTypes)
	var done []reg
	defer func() { // the maps outlive this run
		for _, d := range done {
			delete(hotswapbureau.LiveFuncs, d.name)
			delete(hotswapbureau.LiveTypes, d.name)
		}
	}()
	for k := 0; k < 3; k++ {
		r := reg{"live_" + sym.String([]string{"a", "b", "c"}[k], 1, "xXy") + []string{"", "z"}[sym.Choice("tail", 2)], sym.Choice("type", 2) == 1, new(int)}
		*r.v = k
		dup := false
		for _, d := range done {
			dup = sym.Or(dup, sym.And(d.typ == r.typ, sym.EqStr(d.name, r.name)))
		}
		panicked := false
		func() {
			defer func() {
				if x := recover(); x != nil {
					if _, ok := x.(sym.Rejection); ok {
						panic(x)
					}
					panicked = true
				}
			}()
			if r.typ {
				hotswapbureau.RegisterType(r.name, func() interface{} { return r.v })
			} else {
				hotswapbureau.RegisterFunc(r.name, r.v)
			}
		}()
		sym.Assert(sym.Iff(panicked, dup), "C32:a name is registered once")
		if panicked {
			sym.Cover("twice")
			break
		}
		done = append(done, r)
	}
	nf, nt := f0, t0
	for _, d := range done {
		if d.typ {
			nt++
			f := hotswapbureau.LiveTypes[d.name]
			sym.Assert(f != nil && f() == any(d.v), "C32:what is registered is found under its exact name")
		} else {
			nf++
			sym.Assert(hotswapbureau.LiveFuncs[d.name] == any(d.v), "C32:what is registered is found under its exact name")
		}
	}
	sym.Assert(len(hotswapbureau.LiveFuncs) == nf && len(hotswapbureau.LiveTypes) == nt, "C32:what is registered is found under its exact name")
	sym.Cover("registered")
}

var _ = strings.Contains
