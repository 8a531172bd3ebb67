package root

import (
	"crypto/sha1"
	"fmt"
	"strings"
	"time"

	"github.com/edwingeng/hotswap"
	"github.com/edwingeng/hotswap/zzverif/plug"
	"github.com/edwingeng/hotswap/zzverif/sym"
	"github.com/edwingeng/hotswap/zzverif/vfs"
)

// lazy is a build whose imports and reloadability are symbolic variables that
// come into being when the manager asks for them.
type lazy struct {
	b     *build
	idx   int
	n     int
	cand  []int // plugins it may import
	tags  map[int]byte
	relOn bool
	rel   bool
	fixed bool // always reloadable
}

func (z *lazy) tag(j int) byte {
	if t, ok := z.tags[j]; ok {
		return t
	}
	t := byte('-')
	for _, c := range z.cand {
		if c == j {
			t = sym.Byte(z.b.name+z.b.ver+"->"+letter(j), "-x")
		}
	}
	z.tags[j] = t
	return t
}

func (z *lazy) importObj() any {
	var fs []sym.Field
	var t *api
	for j := 0; j < z.n; j++ {
		fs = append(fs, sym.Field{Name: fieldName(j), Tag: `hotswap:"` + string([]byte{z.tag(j)}) + `"`, Type: &t})
	}
	return sym.ImportObj(fs)
}

func (z *lazy) deps() []string {
	var a []string
	for j := 0; j < z.n; j++ {
		if z.tag(j) != '-' {
			a = append(a, letter(j))
		}
	}
	return a
}

func (z *lazy) reloadable() bool {
	if !z.relOn {
		z.relOn = true
		if z.fixed {
			z.rel = true
		} else {
			z.rel = sym.Bool(z.b.name + z.b.ver + ".reloadable")
		}
	}
	return z.rel
}

// model is the oracle's idea of what is running.
type model struct {
	w     *world
	lz    map[*build]*lazy
	files map[string]*build // plugin directory
	run   map[string]*inst  // current manager
	note  map[string]string
	vers  int
	cnt   int64
	held  []held
	delay time.Duration
	noRel bool
	born  map[*inst][2]time.Time // when the load that made it began and ended
}

// held is a replaced manager waiting to be freed.
type held struct {
	insts []*inst
	at    int64
}

func newModel(w *world) *model {
	return &model{w: w, lz: map[*build]*lazy{}, files: map[string]*build{}, run: map[string]*inst{}, delay: 5 * time.Minute, born: map[*inst][2]time.Time{}}
}

// install writes a new version of plugin k.
func (o *model) install(k, n int, cand []int) *build {
	o.vers++
	b := &build{name: letter(k), ver: fmt.Sprint(o.vers)}
	z := &lazy{b: b, idx: k, n: n, cand: cand, tags: map[int]byte{}, fixed: o.noRel}
	o.lz[b] = z
	b.imports = func(*inst) any { return z.importObj() }
	o.w.put(b)
	o.files[b.name] = b
	return b
}

// restore puts an earlier version back.
func (o *model) restore(b *build) {
	o.w.put(b)
	o.files[b.name] = b
}

func (o *model) remove(k int) {
	o.w.del(letter(k))
	delete(o.files, letter(k))
}

func (o *model) names() []string {
	var a []string
	for k := 0; k < len(letters); k++ {
		if o.files[letter(k)] != nil {
			a = append(a, letter(k))
		}
	}
	return a
}

// expect works out what a load of the directory should do.
func (o *model) expect() (keep map[string]*inst, note map[string]string, fail string) {
	keep = map[string]*inst{}
	note = map[string]string{}
	for _, name := range o.names() {
		old := o.run[name]
		switch {
		case old == nil:
		case !o.lz[old.b].reloadable():
			keep[name], note[name] = old, "not reloadable"
		case old.b == o.files[name]:
			keep[name], note[name] = old, "unchanged"
		}
	}
	return
}

// faults lists why the set of plugins to run is not acceptable; retained plugins are keep.
func (o *model) faults(keep map[string]*inst) (imports, cycle, stale bool) {
	names := o.names()
	zs := map[string]*lazy{}
	for _, name := range names {
		if i := keep[name]; i != nil {
			zs[name] = o.lz[i.b]
		} else {
			zs[name] = o.lz[o.files[name]]
		}
	}
	for _, name := range names {
		z := zs[name]
		for _, d := range z.deps() {
			dz := zs[d]
			if keep[name] != nil {
				if dz == nil || keep[d] == nil {
					stale = true
				}
				continue
			}
			if dz == nil {
				imports = true
				continue
			}
			if !z.reloadable() && dz.reloadable() {
				imports = true
			}
		}
	}
	// is there a cycle among the plugins that are there?
	left := map[string]bool{}
	for _, x := range names {
		left[x] = true
	}
	for again := true; again; {
		again = false
		for _, x := range names {
			if !left[x] {
				continue
			}
			free := true
			for _, d := range zs[x].deps() {
				if left[d] {
					free = false
				}
			}
			if free {
				delete(left, x)
				again = true
			}
		}
	}
	cycle = len(left) > 0
	return
}

// step does one load or reload and checks everything about its outcome.
func (o *model) step(reload bool, data any) bool {
	w := o.w
	oldM := w.sw.Current()
	oldRun := running(oldM)
	oldNotes := ""
	if oldM != nil {
		oldNotes = managerState(oldM)
	}
	oldSnap := snap(oldM)
	from := len(w.log)
	insts0 := len(w.insts)
	opened0 := len(plug.Opened)
	keep, note, _ := o.expect()
	content := map[string]string{}
	for _, f := range vfs.Files(w.dir) {
		d, _ := vfs.Get(f)
		content[f] = string(d)
	}
	t0 := time.Now()
	w.before = func(fn string, i *inst) {
		w.midChecks(fn, i, insts0)
		if fn == "OnFree" {
			sym.Assert(find(oldRun, i) < 0, "C05:a failing load frees no retained plugin")
			sym.Assert(find(oldRun, i) < 0, "C03:no running plugin is freed")
			sym.Assert(find(oldRun, i) < 0, "C04:no plugin of the current manager is freed")
		}
		sym.Assert(w.sw.Current() == oldM, "C03:Current stays while loading")
		sym.Assert(w.sw.Current() == oldM, "C17:no unfinished manager is published")
	}
	var r result
	if reload {
		r = w.reload(data)
	} else {
		r = w.load(data)
	}
	w.before = nil
	t1 := time.Now()
	fresh := append([]*inst{}, w.insts[insts0:]...)
	sym.Assert(!r.panicked, "C03:no panic escapes")
	sym.Assert(oldSnap.unchanged() == "", "C23:the entries of a manager stay as they were")
	for _, i := range fresh {
		o.born[i] = [2]time.Time{t0, t1}
	}
	if r.err != nil {
		sym.Log(r.err.Error())
	}
	fImports, fCycle, fStale := o.faults(keep)
	bad := fImports || fCycle || fStale
	if r.err == nil {
		if fImports && !fCycle && !fStale {
			sym.Assert(false, "C08:an invalid import is rejected")
		}
		if fCycle && !fImports && !fStale {
			sym.Assert(false, "C06:a cycle is rejected")
		}
		sym.Assert(!fStale, "C10:a retained plugin with a replaced or missing import is rejected")
		if bad {
			return false
		}
	} else {
		sym.Assert(bad, "C06:plugins without a cycle are accepted")
		sym.Assert(bad, "C08:plugins without an invalid import are accepted")
		sym.Assert(bad, "C10:a reload that keeps all imports is accepted")
	}
	if r.err != nil {
		sym.Cover("rejected")
		sym.Assert(r.d == nil, "C14:a failing load returns no details")
		sym.Assert(w.sw.Current() == oldM, "C03:Current stays after a failed load")
		sym.Assert(sameInsts(running(oldM), oldRun), "C03:the running plugins stay after a failed load")
		sym.Assert(fStale == false || w.sw.Current() == oldM, "C10:the running manager stays")
		sym.Assert(oldM == nil || managerState(oldM) == oldNotes, "C03:the running manager is untouched by a failed load")
		sym.Assert(w.sw.ReloadCounter() == o.cnt, "C14:a failed reload does not count")
		sym.Assert(w.sw.ReloadCounter() == o.cnt, "C03:ReloadCounter stays after a failed reload")
		for _, i := range fresh {
			want := 0
			if i.n["Export"] > 0 {
				want = 1
			}
			sym.Assert(i.n["OnFree"] == want, "C05:a failed load frees what it loaded once")
			sym.Assert(i.n["OnLoad"] == 0, "C08:no OnLoad before imports are rejected")
			sym.Assert(i.n["OnLoad"] == 0, "C06:no OnLoad before a cycle is rejected")
		}
		o.checkCopies(fresh, content, opened0)
		return false
	}
	sym.Cover("accepted")
	if reload {
		o.cnt++
	}
	m := w.sw.Current()
	sym.Assert(m != nil && m != oldM, "C17:a successful load publishes its manager")
	if oldM != nil {
		sym.Assert(managerState(oldM) == oldNotes, "C12:a reload does not touch the old manager")
	}
	names := o.names()
	deps := map[*inst][]*inst{}
	var want []*inst
	for _, name := range names {
		p := m.FindPlugin(name)
		sym.Assert(p != nil, "C09:the manager holds every plugin of the directory")
		if p == nil {
			return false
		}
		i := who(p)
		want = append(want, i)
		sym.Assert(p.Name == name, "C15:a plugin has the name of its file")
		checkRecord(p, i, name, w.file(i.b), o.born[i])
		if keep[name] != nil {
			sym.Assert(i == keep[name], "C09:an unchanged or non-reloadable plugin keeps its instance")
			sym.Assert(p.Note == note[name], "C09:a retained plugin's note tells why")
			sym.Assert(r.d[p.File] == note[name], "C14:details tell why a plugin was retained")
			sym.Cover(note[name])
		} else {
			sym.Assert(find(fresh, i) >= 0, "C09:any other plugin is a fresh instance")
			sym.Assert(i.b == o.files[name], "C09:a fresh instance has the new content")
			sym.Assert(p.Note == "", "C09:a fresh instance has no note")
			sym.Assert(r.d[w.file(i.b)] == "ok", "C14:details say ok for a fresh plugin")
		}
	}
	sym.Assert(len(running(m)) == len(names), "C09:the manager holds nothing else")
	sym.Assert(len(r.d) == len(names), "C14:details have one entry per plugin")
	sym.Assert(w.sw.ReloadCounter() == o.cnt, "C14:ReloadCounter counts successful reloads")
	nFresh := 0
	for _, name := range names {
		if keep[name] == nil {
			nFresh++
		}
	}
	sym.Assert(len(fresh) == nFresh, "C22:retained plugins are not opened again")
	for _, i := range want {
		for _, d := range o.lz[i.b].deps() {
			x := who(m.FindPlugin(d))
			deps[i] = append(deps[i], x)
			sym.Assert(sym.FieldOf(i.imp, fieldIndex(d)) == x.exp, "C10:every import is the instance in the new manager")
			sym.Assert(sym.FieldOf(i.imp, fieldIndex(d)) == x.exp, "C07:an imported field holds the plugin's export")
		}
		p := m.FindPlugin(i.b.name)
		sym.Assert(len(p.Deps) == len(deps[i]), "C07:Deps lists exactly the imported plugins")
	}
	w.checkOrder(m, want, deps)
	w.checkPhases(m, fresh, from, data, deps)
	o.checkCopies(fresh, content, opened0)
	for _, i := range want {
		sym.Assert(i.n["OnFree"] == 0, "C04:a running plugin is not freed")
	}
	if oldM != nil {
		o.held = append(o.held, held{oldRun, sym.Now()})
	}
	o.run = map[string]*inst{}
	for _, i := range want {
		o.run[i.b.name] = i
	}
	return true
}

// checkRecord compares what a listed plugin says about itself with the load that made it.
func checkRecord(p *hotswap.Plugin, i *inst, name, file string, born [2]time.Time) {
	sym.Assert(p.Name == name, "C23:Name is the name of the file")
	sym.Assert(p.File == file, "C23:File is the file it was loaded from")
	sym.Assert(p.FileSha1 == sha1.Sum([]byte(i.b.content())), "C23:FileSha1 is that of the file it was loaded from")
	sym.Assert(!p.When.Before(born[0]) && !p.When.After(born[1]), "C23:When is the time of the load that made it")
	var fn func(string, ...any) (any, error)
	err := p.Lookup("InvokeFunc", &fn)
	sym.Assert(err == nil && fn != nil, "C23:Lookup finds the symbols of its file")
	if err == nil && fn != nil {
		x, _ := fn("who")
		sym.Assert(x == any(i), "C23:Lookup finds the symbols of its file")
	}
}

func fieldIndex(name string) int {
	for k := 0; k < len(letters); k++ {
		if letter(k) == name {
			return k
		}
	}
	return -1
}

// managerState renders what a manager holds.
func managerState(m *hotswap.PluginManager) string {
	var sb strings.Builder
	for _, p := range m.Plugins() {
		sb.WriteString(p.Name + "/" + p.Note + "/" + strings.Join(p.Deps, ",") + ";")
	}
	fmt.Fprintf(&sb, "%d %d %d", len(m.LiveFuncs), len(m.LiveTypes), len(m.DataBag))
	return sb.String()
}

// checkCopies: C22 for what the last load opened.
func (o *model) checkCopies(fresh []*inst, snap map[string]string, opened0 int) {
	w := o.w
	for f, d := range snap {
		if strings.HasPrefix(f, w.dir+"/tmp/") {
			continue
		}
		got, ok := vfs.Get(f)
		sym.Assert(ok && string(got) == d, "C22:plugin files are not modified")
	}
	for _, f := range vfs.Files(w.dir) {
		if _, ok := snap[f]; !ok {
			sym.Assert(strings.HasPrefix(f, w.dir+"/tmp/"), "C22:a load adds files nowhere but below tmp")
		}
	}
	for k, p := range plug.Opened {
		sym.Assert(strings.HasPrefix(p, w.dir+"/tmp/"), "C22:what is opened lies below tmp beside the file")
		if k >= opened0 {
			for _, q := range plug.Opened[:k] {
				sym.Assert(p != q, "C22:no path is opened twice")
			}
		}
	}
	for _, i := range fresh {
		data, _ := vfs.Get(i.path)
		want, _ := vfs.Get(w.file(i.b))
		sym.Assert(string(data) == string(want), "C22:the copy holds the bytes of the file")
	}
}

// settle lets every delayed free run and checks who was freed.
func (o *model) settle() {
	w := o.w
	cur := running(w.sw.Current())
	w.before = func(fn string, i *inst) {
		if fn == "OnFree" {
			sym.Assert(find(cur, i) < 0, "C04:a running plugin is not freed")
		}
	}
	sym.Advance(o.delay + time.Second)
	w.before = nil
	o.held = nil
	for _, i := range w.insts {
		if find(cur, i) >= 0 {
			sym.Assert(i.n["OnFree"] == 0, "C04:a running plugin is not freed")
		} else if i.n["Export"] > 0 {
			sym.Assert(i.n["OnFree"] == 1, "C04:a replaced plugin is freed exactly once")
			sym.Cover("freed")
		}
	}
}

// Reload3: three plugins with any acyclic imports in either direction, then one
// reload after which each file is the same, another version or gone.
func Reload3()   { reloadN(3, 1) }
func Reload2x2() { reloadN(2, 2) }
func Reload2x3() { reloadN(2, 3) }

func reloadN(n, steps int) {
	sym.MapOrders(1, 0)
	w := newWorld()
	o := newModel(w)
	w.swapper()
	w.setAct(o)
	up := sym.Choice("direction", 2) == 1
	cand := func(k int) []int {
		var a []int
		for j := 0; j < n; j++ {
			if up && j > k || !up && j < k {
				a = append(a, j)
			}
		}
		return a
	}
	for k := 0; k < n; k++ {
		o.install(k, n, cand(k))
	}
	if !o.step(false, 1) {
		return
	}
	sym.Cover("loaded")
	for s := 0; s < steps; s++ {
		present := 0
		for k := 0; k < n; k++ {
			c := 3
			if o.files[letter(k)] == nil {
				c = 2
			}
			switch sym.Choice(fmt.Sprintf("file%d:%s", s, letter(k)), c) {
			case 0: // as it is
			case 1:
				o.install(k, n, cand(k))
			case 2:
				o.remove(k)
			}
			if o.files[letter(k)] != nil {
				present++
			}
		}
		if present == 0 {
			return // a directory without plugins is outside the property
		}
		if sym.Choice(fmt.Sprintf("wait%d", s), 2) == 1 {
			o.settle()
		}
		if steps > 1 { // what was there before may come back: not within the same second
			sym.Advance(time.Second)
		}
		o.step(true, s)
	}
	o.settle()
}

// setAct makes Reloadable lazy.
func (w *world) setAct(o *model) {
	w.act = func(fn string, i *inst) int {
		if fn == "Reloadable" {
			i.b.reloadable = o.lz[i.b].reloadable()
		}
		return ok0
	}
}
