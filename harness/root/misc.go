package root

import (
	"crypto/sha1"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/edwingeng/hotswap"
	"github.com/edwingeng/hotswap/zzverif/plug"
	"github.com/edwingeng/hotswap/zzverif/sym"
	"github.com/edwingeng/hotswap/zzverif/vfs"
)

// InvokeFaults: any of the plugins returns an error or panics.
func InvokeFaults() {
	sym.MapOrders(1, 0)
	const n = 4
	w := newWorld()
	var bs []*build
	for k := 0; k < n; k++ {
		bs = append(bs, w.chainBuild(k, n, false, "1"))
	}
	w.swapper(hotswap.WithStaticPlugins(w.statics(bs...)))
	r := w.load(1)
	sym.Assert(r.err == nil, "C13:a good load succeeds")
	if r.err != nil {
		return
	}
	m := w.sw.Current()
	a := running(m)
	name := sym.String("name", 2*sym.Choice("name length", 2), "fgh")
	p1 := sym.Int64("parameter", -5, 5)
	p2 := &name
	var params []any
	np := sym.Choice("parameters", 3)
	if np > 0 {
		params = append(params, p1)
	}
	if np > 1 {
		params = append(params, p2)
	}
	w.panicVal = []any{"boom", errors.New("boom"), 7, []string{"boom"}, runtimeError(0), runtimeError(1)}[sym.Choice("panic value", 6)]
	bad := map[*inst]int{}
	for k, i := range a {
		bad[i] = sym.Int(fmt.Sprint("outcome ", k), 3)
	}
	w.act = func(fn string, i *inst) int {
		if strings.HasPrefix(fn, "Invoke:") {
			return bad[i]
		}
		return ok0
	}
	back := sym.Choice("backward", 2) == 1
	from := len(w.log)
	errs0 := len(w.lg.errs)
	panicked := false
	func() {
		defer func() {
			if x := recover(); x != nil {
				w.rethrow(x)
				panicked = true
			}
		}()
		if back {
			m.InvokeEachBackward(name, params...)
		} else {
			m.InvokeEach(name, params...)
		}
	}()
	sym.Assert(!panicked, "C13:InvokeEach does not panic")
	var got []*inst
	for _, e := range w.log[from:] {
		sym.Assert(sym.EqStr(e.fn, "Invoke:"+name), "C13:every plugin gets the given name")
		got = append(got, e.i)
	}
	sym.Assert(len(got) == n, "C13:every plugin is reached once")
	if len(got) != n {
		return
	}
	for k, i := range a {
		if back {
			k = n - 1 - k
		}
		sym.Assert(got[k] == i, "C13:every plugin is reached once")
		sym.Assert(got[k] == i, "C01:InvokeEach calls each plugin once in order")
		sym.Assert(len(i.params) == np, "C13:every plugin gets the given parameters")
		if np > 0 && len(i.params) > 0 {
			x, ok := i.params[0].(int64)
			sym.Assert(ok && x == p1, "C13:every plugin gets the given parameters")
		}
		if np > 1 && len(i.params) > 1 {
			x, ok := i.params[1].(*string)
			sym.Assert(ok && x == p2, "C13:every plugin gets the given parameters")
		}
	}
	// as many errors are logged as plugins misbehaved
	logged := len(w.lg.errs) - errs0
	for k := 0; k <= n; k++ {
		if logged == k {
			sym.Cover(fmt.Sprint("failing: ", k))
		}
	}
	cnt := int64(0)
	for _, i := range a {
		if bad[i] != 0 {
			cnt++
		}
	}
	sym.Assert(int64(logged) == cnt, "C13:each error and panic is logged as an error")
}

// runtimeError is what the Go runtime panics with.
func runtimeError(k int) (x any) {
	defer func() { x = recover() }()
	var p *extension
	var a []int
	if k == 0 {
		p.n++
	} else {
		a[k]++
	}
	return nil
}

// liveName is the name of a live thing: one symbolic letter.
func liveMap(prefix string, n int) (map[string]any, []string, []any) {
	m := map[string]any{}
	var names []string
	var vals []any
	for k := 0; k < n; k++ {
		name := "live" + sym.Concrete(sym.String(fmt.Sprint(prefix, k), 1, "xyz"))
		v := new(int)
		if _, ok := m[name]; ok {
			continue
		}
		m[name] = v
		names = append(names, name)
		vals = append(vals, v)
	}
	return m, names, vals
}

// VaultStatic, VaultReload: the live things of two plugins.
func VaultFirst()  { vaultOf(false) }
func VaultReload() { vaultOf(true) }

type extension struct{ n int }

func vaultOf(reload bool) {
	sym.MapOrders(1, 0)
	w := newWorld()
	exts := []*extension{}
	var opts []hotswap.Option
	withExt := sym.Choice("extension", 2) == 1
	if withExt {
		opts = append(opts, hotswap.WithExtensionNewer(func() any {
			e := &extension{len(exts)}
			exts = append(exts, e)
			return e
		}))
	}
	type live struct {
		fnNames, tyNames []string
		fnVals           []any
		tyVals           []func() any
		nilF, nilT       bool
		nilVals          bool // what is live is nil itself
	}
	lives := map[*build]*live{}
	nils := 0
	mk := func(k int, ver string) *build {
		b := &build{name: letter(k), ver: ver, reloadable: true}
		if k == 1 { // the second plugin depends on the first
			b.imports = func(*inst) any {
				return sym.ImportObj([]sym.Field{{Name: fieldName(0), Type: new(*api)}})
			}
		}
		l := &live{}
		pre := letter(k) + ver
		nf := 1
		if !reload && k == 0 {
			nf = 1 + sym.Choice(pre+" more functions", 2)
		}
		var tn []string
		var tv []any
		if reload && ver == "1" { // fixed, and not in the way of each other
			f, t := "live"+"xy"[k:k+1], "live"+"zx"[k:k+1]
			b.funcs, l.fnNames, l.fnVals = map[string]any{f: &nils}, []string{f}, []any{&nils}
			tn, tv = []string{t}, []any{new(int)}
		} else {
			b.funcs, l.fnNames, l.fnVals = liveMap(pre+".func", nf)
			_, tn, tv = liveMap(pre+".type", 1)
		}
		b.types = map[string]func() any{}
		for x, name := range tn {
			v := tv[x]
			b.types[name] = func() any { return v }
		}
		l.tyNames = tn
		for _, name := range tn {
			l.tyVals = append(l.tyVals, b.types[name])
		}
		if nils < 1 && !(reload && ver == "1") {
			n := 3
			if !reload {
				n = 4
			}
			switch sym.Choice(pre+" nil table", n) {
			case 1:
				b.nilFuncs = true
				nils++
			case 2:
				b.nilTypes = true
				nils++
			case 3:
				l.nilVals = true
				for x, name := range l.fnNames {
					b.funcs[name], l.fnVals[x] = nil, nil
				}
				for _, name := range tn {
					b.types[name] = nil
				}
				nils++
			}
		}
		l.nilF, l.nilT = b.nilFuncs, b.nilTypes
		lives[b] = l
		w.put(b)
		return b
	}
	check := func(m *hotswap.PluginManager, bs []*build, when string) {
		nf, nt := 0, 0
		for _, b := range bs {
			l := lives[b]
			for x, name := range l.fnNames {
				v, ok := m.Vault.LiveFuncs[name]
				sym.Assert(ok && v == l.fnVals[x], "C12:LiveFuncs holds every live function"+when)
			}
			nf += len(l.fnNames)
			for x, name := range l.tyNames {
				f, ok := m.Vault.LiveTypes[name]
				sym.Assert(ok && (l.nilVals && f == nil || !l.nilVals && f != nil && f() == l.tyVals[x]()), "C12:LiveTypes holds every live type"+when)
			}
			nt += len(l.tyNames)
		}
		sym.Assert(len(m.Vault.LiveFuncs) == nf && len(m.Vault.LiveTypes) == nt, "C12:the Vault holds nothing else"+when)
	}
	bad := func(bs []*build) bool {
		fs, ts := map[string]bool{}, map[string]bool{}
		for _, b := range bs {
			l := lives[b]
			if l.nilF || l.nilT {
				return true
			}
			for _, x := range l.fnNames {
				if fs[x] {
					return true
				}
				fs[x] = true
			}
			for _, x := range l.tyNames {
				if ts[x] {
					return true
				}
				ts[x] = true
			}
		}
		return false
	}
	step := func(bs []*build, reload bool) bool {
		old := w.sw.Current()
		from := len(w.log)
		seen := false
		ne := len(exts)
		var inited []*inst
		w.before = func(fn string, i *inst) {
			if fn != "OnInit" {
				return
			}
			nf, nt := 0, 0
			for _, b := range bs {
				nf += len(lives[b].fnNames)
				nt += len(lives[b].tyNames)
			}
			sym.Assert(len(i.v.LiveFuncs) == nf && len(i.v.LiveTypes) == nt, "C02:no OnInit before the Vault is complete")
			sym.Assert(seen || i.v.DataBag != nil && len(i.v.DataBag) == 0, "C12:DataBag starts empty")
			sym.Assert(!withExt || len(exts) == ne+1 && i.v.Extension == any(exts[ne]), "C12:OnInit sees the Extension of its manager")
			inited = append(inited, i)
			if i.v.DataBag != nil {
				i.v.DataBag["x"] = i
			}
			seen = true
		}
		var r result
		if reload {
			r = w.reload(1)
		} else {
			r = w.load(1)
		}
		w.before = nil
		sym.Assert(!r.panicked, "C03:no panic escapes")
		sym.Assert((r.err != nil) == bad(bs), "C12:a load fails exactly if a name is provided twice or a table is nil")
		m := w.sw.Current()
		if r.err != nil {
			sym.Cover("rejected")
			sym.Assert(w.count("OnInit", from) == 0, "C12:no OnInit before duplicates are rejected")
			sym.Assert(m == old, "C03:Current stays after a failed load")
			return false
		}
		sym.Cover("accepted")
		check(m, bs, "")
		for _, i := range inited {
			sym.Assert(i.v == &m.Vault, "C02:OnInit receives the new manager's Vault")
			sym.Assert(m.Vault.DataBag["x"] == any(inited[len(inited)-1]), "C12:what OnInit puts into the Vault stays there")
		}
		sym.Assert(m.Vault.DataBag != nil, "C12:DataBag is not nil")
		if withExt {
			sym.Assert(len(exts) == ne+1 && m.Vault.Extension == any(exts[ne]), "C12:Extension is the value made for this manager")
		} else {
			sym.Assert(m.Vault.Extension == nil, "C12:Extension is nil without a newer")
		}
		return true
	}
	w.swapper(opts...)
	bs := []*build{mk(0, "1"), mk(1, "1")}
	if !step(bs, false) || !reload {
		return
	}
	oldM := w.sw.Current()
	oldBs := []*build{bs[0], bs[1]}
	oldM.Vault.DataBag["mine"] = 1
	nBag := len(oldM.Vault.DataBag)
	sym.Advance(time.Second)
	switch sym.Choice("changed", 3) {
	case 0:
		bs[1] = mk(1, "2")
	case 1:
		bs[0], bs[1] = mk(0, "2"), mk(1, "2")
	case 2: // the second plugin goes
		w.del(letter(1))
		bs = bs[:1]
	}
	ok := step(bs, true)
	check(oldM, oldBs, " of the old manager")
	sym.Assert(len(oldM.Vault.DataBag) == nBag, "C12:a reload does not touch the old manager's Vault")
	if withExt {
		sym.Assert(oldM.Vault.Extension == any(exts[0]), "C12:a reload does not touch the old manager's Vault")
	}
	if ok {
		_, shared := w.sw.Current().Vault.DataBag["mine"]
		sym.Assert(!shared, "C12:each manager has a Vault of its own")
		sym.Cover("reloaded")
	}
}

// FreeDelay: any delay, any amount of time passing after a reload.
func FreeDelay() {
	sym.MapOrders(1, 0)
	w := newWorld()
	var opts []hotswap.Option
	want := int64(5 * time.Minute)
	if sym.Choice("configured", 2) == 1 {
		d := sym.Int64("delay", -int64(time.Hour), int64(48*time.Hour))
		opts = append(opts, hotswap.WithFreeDelay(time.Duration(d)))
		want = d
		if d < int64(15*time.Second) {
			want = int64(15 * time.Second)
			sym.Cover("minimum")
		} else {
			sym.Cover("as configured")
		}
	}
	b1 := &build{name: "alpha", ver: "1", reloadable: true}
	keep := &build{name: "Bravo", ver: "1", reloadable: true}
	w.put(b1)
	w.put(keep)
	w.swapper(opts...)
	if r := w.load(1); r.err != nil {
		return
	}
	one := byName(running(w.sw.Current()), "alpha")
	kept := byName(running(w.sw.Current()), "Bravo")
	sym.Advance(time.Duration(sym.Int64("uptime", int64(time.Second), int64(time.Hour))))
	sym.Assert(one.n["OnFree"] == 0, "C04:a running plugin is not freed")
	w.put(&build{name: "alpha", ver: "2", reloadable: true})
	t0 := sym.Now()
	took := int64(0)
	if sym.Choice("the load takes", 2) == 1 {
		took = int64(time.Minute)
		w.before = func(fn string, i *inst) {
			if fn == "OnInit" {
				sym.Advance(time.Duration(took))
			}
		}
	}
	r := w.reload(2)
	w.before = nil
	sym.Assert(r.err == nil, "C16:a good reload succeeds")
	if r.err != nil {
		return
	}
	sym.Assert(sym.Now() == t0+took, "C16:the reload does not wait for the free")
	t0 = sym.Now() // the delay counts from the replacement
	x := sym.Int64("passed", 0, int64(72*time.Hour))
	sym.Advance(time.Duration(x))
	sym.Assert(kept.n["OnFree"] == 0, "C04:a running plugin is not freed")
	if one.n["OnFree"] == 0 {
		sym.Assert(x <= want, "C16:a replaced plugin is freed once the delay is over")
		sym.Cover("not yet")
		sym.Advance(time.Duration(want))
	} else {
		sym.Assert(x >= want, "C16:no replaced plugin is freed before the delay")
		sym.Cover("freed")
	}
	sym.Assert(one.n["OnFree"] == 1, "C16:a replaced plugin is freed once the delay is over")
	sym.Assert(one.freeTime-t0 >= want, "C16:no replaced plugin is freed before the delay")
	sym.Assert(one.freeTime-t0 >= int64(15*time.Second), "C16:no replaced plugin is freed before the minimum")
	sym.Assert(kept.n["OnFree"] == 0, "C04:a running plugin is not freed")
}

// FreeOverlap: two reloads any time apart; the first manager's and the second's
// plugins are freed each in its own time.
func FreeOverlap() {
	sym.MapOrders(1, 0)
	w := newWorld()
	d := sym.Int64("delay", int64(15*time.Second), int64(48*time.Hour))
	put := func(name, ver string) { w.put(&build{name: name, ver: ver, reloadable: true}) }
	put("alpha", "1")
	put("Bravo", "1")
	w.swapper(hotswap.WithFreeDelay(time.Duration(d)))
	if r := w.load(1); r.err != nil {
		return
	}
	a1 := byName(running(w.sw.Current()), "alpha")
	b1 := byName(running(w.sw.Current()), "Bravo")
	sym.Advance(time.Second)
	put("alpha", "2")
	t1 := sym.Now()
	if r := w.reload(2); r.err != nil {
		return
	}
	a2 := byName(running(w.sw.Current()), "alpha")
	gap := sym.Int64("gap", int64(time.Second), int64(72*time.Hour))
	sym.Advance(time.Duration(gap))
	t2 := sym.Now()
	alphaToo := sym.Choice("second reload changes alpha", 2) == 1
	if alphaToo {
		put("alpha", "3")
	}
	gone := sym.Choice("Bravo", 3) // rebuilt, gone or as it was
	switch gone {
	case 0:
		put("Bravo", "2")
	case 1:
		w.del("Bravo")
	}
	if r := w.reload(3); r.err != nil {
		return
	}
	cur := running(w.sw.Current())
	sym.Advance(time.Duration(2*d + 1))
	check := func(i *inst, t int64) {
		if find(cur, i) >= 0 {
			sym.Assert(i.n["OnFree"] == 0, "C04:a running plugin is not freed")
			return
		}
		sym.Assert(i.n["OnFree"] == 1, "C04:a replaced plugin is freed exactly once")
		if i.n["OnFree"] == 1 {
			sym.Assert(i.freeTime-t >= d, "C16:no replaced plugin is freed before the delay")
			sym.Assert(i.freeTime-t >= d, "C04:a plugin is not freed while a replaced manager in its free delay holds it")
			sym.Assert(i.freeTime-t <= d, "C16:a replaced plugin is freed once the delay is over")
			sym.Cover("freed")
		}
	}
	check(a1, t1)
	check(a2, t2)
	check(b1, t2)
}

// DetailsText: Details.String for any names.
func DetailsText2() { detailsText(2, 4) }
func DetailsText3() { detailsText(3, 2) }

func detailsText(max, exts int) {
	n := 1 + sym.Choice("entries", max)
	d := hotswap.Details{}
	type kv struct{ key, base, val string }
	var all []kv
	for k := 0; k < n; k++ {
		dir := []string{"", "/p/", "/p/q.so/"}[sym.Choice(fmt.Sprint("dir", k), 3)]
		base := sym.Concrete(sym.String(fmt.Sprint("name", k), 1, "aB-"))
		ext := []string{".so", "", ".so.so", "x.s"}[sym.Choice(fmt.Sprint("ext", k), exts)]
		val := []string{"ok", "unchanged"}[sym.Choice(fmt.Sprint("value", k), 2)]
		key := dir + base + ext
		if _, ok := d[key]; ok {
			return
		}
		d[key] = val
		want := base
		switch ext {
		case ".so.so":
			want = base + ".so"
		case "x.s":
			want = base + "x.s"
		}
		all = append(all, kv{key, want, val})
	}
	sym.MapOrders(3, 0)
	for a := range all {
		for b := a + 1; b < n; b++ {
			if all[b].key < all[a].key {
				all[a], all[b] = all[b], all[a]
			}
		}
	}
	want := ""
	for k, x := range all {
		if k > 0 {
			want += ", "
		}
		want += x.base + ": " + x.val
	}
	got := d.String()
	sym.Assert(got == want, "C14:Details.String lists names and values in order")
	sym.Assert(len(d) == n, "C14:Details.String changes nothing")
	var none hotswap.Details
	sym.Assert(none.String() == "", "C14:no details, no text")
}

// FileRace: plugin files change while a load or reload is under way.
func FileRace() {
	sym.MapOrders(1, 0)
	w := newWorld()
	const n = 3
	put := func(k int, ver string) *build {
		b := &build{name: letter(k), ver: ver, reloadable: true}
		w.put(b)
		return b
	}
	for k := 0; k < n; k++ {
		put(k, "1")
	}
	w.swapper()
	reload := sym.Choice("reload", 2) == 1
	if reload {
		if r := w.load(0); r.err != nil {
			return
		}
		sym.Advance(time.Second)
		for k := 0; k < n; k++ {
			if sym.Choice("new "+letter(k), 2) == 1 {
				put(k, "2")
			}
		}
	}
	insts0 := len(w.insts)
	at := sym.Choice("writes at call", 9)
	victim := sym.Choice("victim", n)
	gone := sym.Choice("gone", 2) == 1
	calls := 0
	done := false
	w.before = func(fn string, i *inst) {
		if calls == at && !done {
			done = true
			if gone {
				w.del(letter(victim))
			} else {
				put(victim, "racing")
			}
		}
		calls++
	}
	var r result
	if reload {
		r = w.reload(1)
	} else {
		r = w.load(1)
	}
	w.before = nil
	sym.Assert(!r.panicked && (r.err == nil || gone), "C22:what is loaded is what was read")
	if r.err != nil {
		return
	}
	if done {
		sym.Cover("raced")
	}
	seen := map[string]bool{}
	for _, p := range plug.Opened {
		sym.Assert(strings.HasPrefix(p, w.dir+"/tmp/"), "C22:what is opened lies below tmp beside the file")
		sym.Assert(!seen[p], "C22:no path is opened twice")
		seen[p] = true
	}
	for _, p := range w.sw.Current().Plugins() {
		i := who(p)
		if find(w.insts[insts0:], i) < 0 {
			continue
		}
		data, ok := vfs.Get(i.path)
		sym.Assert(ok && sha1.Sum(data) == p.FileSha1, "C22:the copy has the recorded fingerprint")
	}
	// what is recorded is what the next reload compares with
	was := map[string]string{}
	for _, i := range running(w.sw.Current()) {
		was[i.b.name] = i.b.ver
	}
	left := 0
	for k := 0; k < n; k++ {
		if vfs.Exists(w.dir + "/" + letter(k) + ".so") {
			left++
		}
	}
	if left == 0 {
		return
	}
	sym.Advance(time.Second)
	before := running(w.sw.Current())
	r = w.reload(2)
	sym.Assert(r.err == nil, "C09:a later reload succeeds")
	for _, i := range running(w.sw.Current()) {
		data, _ := vfs.Get(w.file(i.b))
		sym.Assert(w.builds[string(data)] == i.b, "C09:every plugin is what its file holds")
		if was[i.b.name] == i.b.ver {
			sym.Assert(find(before, i) >= 0, "C09:an unchanged plugin keeps its instance")
		}
	}
}

// FileRaceOps: as FileRace, but the file changes before any one of the
// file system operations of the load.
func FileRaceOps() {
	sym.MapOrders(1, 0)
	w := newWorld()
	b1 := &build{name: "alpha", ver: "1", reloadable: true}
	b2 := &build{name: "alpha", ver: "racing", reloadable: true}
	w.put(&build{name: "Bravo", ver: "1", reloadable: true})
	w.put(b1)
	w.swapper()
	reload := sym.Choice("reload", 2) == 1
	if reload {
		if r := w.load(0); r.err != nil {
			return
		}
		sym.Advance(time.Second)
		b1 = &build{name: "alpha", ver: "2", reloadable: true}
		w.put(b1)
	}
	insts0 := len(w.insts)
	at := sym.Choice("writes at operation", 24)
	ops := 0
	vfs.Fault = func(op, path string) error {
		if ops == at {
			w.put(b2)
			sym.Cover("raced")
		}
		ops++
		return nil
	}
	var r result
	if reload {
		r = w.reload(1)
	} else {
		r = w.load(1)
	}
	vfs.Fault = nil
	sym.Assert(!r.panicked, "C03:no panic escapes")
	if r.err != nil {
		return
	}
	for _, p := range w.sw.Current().Plugins() {
		i := who(p)
		if find(w.insts[insts0:], i) < 0 {
			continue
		}
		data, ok := vfs.Get(i.path)
		sym.Assert(ok && sha1.Sum(data) == p.FileSha1, "C22:the copy has the recorded fingerprint")
		sym.Assert(w.builds[string(data)] == i.b, "C22:the copy has the recorded fingerprint")
	}
	sym.Advance(time.Second)
	r = w.reload(2)
	sym.Assert(r.err == nil, "C09:a later reload succeeds")
	for _, i := range running(w.sw.Current()) {
		data, _ := vfs.Get(w.file(i.b))
		sym.Assert(w.builds[string(data)] == i.b, "C09:every plugin is what its file holds")
	}
}
