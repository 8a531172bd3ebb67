package root

import (
	"fmt"
	"strings"
	"time"

	"github.com/edwingeng/hotswap"
	"github.com/edwingeng/hotswap/zzverif/plug"
	"github.com/edwingeng/hotswap/zzverif/sym"
	"github.com/edwingeng/hotswap/zzverif/vfs"
)

// FileTimes: what counts is what a plugin file holds, not its size or
// modification time.
func FileTimes() {
	sym.MapOrders(0, 0)
	w := newWorld()
	o := newModel(w)
	o.noRel = true
	w.swapper()
	w.setAct(o)
	vers := []int{1, 2, 10}
	o.vers = vers[sym.Choice("version", 3)] - 1
	o.install(0, 2, nil)
	first := time.Now()
	o.vers = 20
	o.install(1, 2, nil)
	if !o.step(false, 0) {
		return
	}
	last := first
	for s := 1; s <= 2; s++ {
		sym.Advance([]time.Duration{time.Second, 10 * time.Minute}[sym.Choice(fmt.Sprint("pause", s), 2)])
		was := o.files[letter(0)]
		o.vers = vers[sym.Choice(fmt.Sprint("version", s), 3)] - 1
		if was.ver == fmt.Sprint(o.vers+1) {
			o.restore(was)
		} else {
			o.install(0, 2, nil)
		}
		f := w.dir + "/" + letter(0) + ".so"
		switch sym.Choice(fmt.Sprint("time", s), 4) {
		case 0: // now
		case 1: // that of the file before
			vfs.Touch(f, last)
		case 2:
			vfs.Touch(f, first.Add(-time.Hour))
		case 3:
			vfs.Touch(f, time.Now().Add(time.Hour))
		}
		if !o.step(true, s) {
			return
		}
	}
	sym.Cover("two reloads")
	o.settle()
}

// BigFiles: large plugin files that differ in one place.
func BigFiles() {
	sym.MapOrders(0, 0)
	w := newWorld()
	o := newModel(w)
	o.noRel = true
	w.swapper()
	w.setAct(o)
	size := []int{600, 5000, 70000}[sym.Choice("size", 3)]
	at := []int{0, 255, 511, 4095, 65535, 1 << 30}[sym.Choice("place", 6)]
	if at > size {
		at = size
	}
	pad := strings.Repeat("x", size)
	for k := 0; k < 2; k++ {
		b := o.install(k, 2, nil)
		b.pre, b.post = pad[:at], pad[at:]
		w.put(b)
	}
	if !o.step(false, 0) {
		return
	}
	sym.Advance(time.Second)
	switch sym.Choice("change", 4) {
	case 0:
	case 1: // one place differs
		b := o.install(0, 2, nil)
		b.pre, b.post = pad[:at], pad[at:]
		w.put(b)
	case 2: // longer
		b := o.install(0, 2, nil)
		b.ver = "1"
		b.pre, b.post = pad[:at], pad[at:]+"y"
		w.put(b)
	case 3: // shorter
		b := o.install(0, 2, nil)
		b.ver = "1"
		b.pre, b.post = pad[:at], pad[at:]
		if b.post != "" {
			b.post = b.post[1:]
		} else {
			b.pre = b.pre[1:]
		}
		w.put(b)
	}
	o.step(true, 1)
	sym.Cover("reloaded")
	o.settle()
}

// OtherDir: the plugin directory is given in different ways and replaced
// between two loads.
func OtherDir() {
	sym.MapOrders(0, 0)
	w := newWorld()
	a, b := vfs.Root()+"/plugins", vfs.Root()+"/more/plugins"
	vfs.Mkdir(b)
	vfs.SetCwd(vfs.Root())
	spell := func(name, dir string) string {
		rel := strings.TrimPrefix(dir, vfs.Root()+"/")
		switch sym.Choice(name, 5) {
		case 1:
			return dir + "/"
		case 2:
			return rel
		case 3:
			return "./" + rel + "/."
		case 4:
			return vfs.Root() + "/more/../" + rel
		}
		return dir
	}
	mk := func(dir string, k int, ver string, rel bool) *build {
		x := &build{name: letter(k), ver: ver, reloadable: rel}
		w.dir = dir
		w.put(x)
		return x
	}
	rel := sym.Choice("reloadable", 2) == 1
	a0 := mk(a, 0, "1", rel)
	mk(a, 1, "1", true)
	w.sw = hotswap.NewPluginManagerSwapper(spell("first", a), hotswap.WithLogger(w.lg))
	r := w.load(0)
	sym.Assert(r.err == nil && len(r.d) == 2, "C15:exactly the wanted files are loaded")
	if r.err != nil {
		return
	}
	old := w.sw.Current()
	i0 := who(old.FindPlugin(letter(0)))
	sym.Assert(i0 != nil && i0.b == a0, "C15:exactly the wanted files are loaded")
	moved := sym.Choice("the working directory changes", 2) == 1
	sym.Advance(time.Second)
	same := sym.Choice("same content", 2) == 1
	gone := sym.Choice("gone", 2) == 1
	var b0 *build
	if !gone {
		if same {
			b0 = a0
			vfs.Put(b+"/"+letter(0)+".so", []byte(a0.content()))
		} else {
			b0 = mk(b, 0, "2", true)
		}
	}
	b2 := mk(b, 2, "2", true)
	switch sym.Choice("then", 2) {
	case 0:
		w.sw.ResetPluginDir(spell("second", b))
	case 1:
		w.sw.ResetPluginDir(vfs.Root() + "/nowhere")
		x := w.reload(1)
		sym.Assert(x.err != nil && w.sw.Current() == old, "C03:an unreadable directory leaves everything as it is")
		w.sw.ResetPluginDir(b)
		sym.Cover("nowhere")
	}
	if moved {
		vfs.SetCwd("/")
		w.sw.ResetPluginDir(b)
	}
	before := map[string]string{}
	for _, f := range vfs.Files(a) {
		d, _ := vfs.Get(f)
		before[f] = string(d)
	}
	from := len(plug.Opened)
	r = w.reload(2)
	vfs.SetCwd(vfs.Root())
	m := w.sw.Current()
	sym.Assert(r.err == nil, "C09:a reload of good files succeeds")
	sym.Assert(r.err == nil, "C03:a later reload of good plugins succeeds")
	if r.err != nil {
		return
	}
	want := 2
	if gone {
		want = 1
	}
	sym.Assert(len(m.Plugins()) == want && len(r.d) == want, "C09:the manager holds exactly the plugins of the directory")
	i2 := who(m.FindPlugin(letter(2)))
	sym.Assert(i2 != nil && i2.b == b2, "C09:any other plugin is a fresh instance")
	sym.Assert(m.FindPlugin(letter(1)) == nil, "C09:the manager holds exactly the plugins of the directory")
	if !gone {
		p := m.FindPlugin(letter(0))
		i := who(p)
		switch {
		case !rel || same:
			sym.Assert(i == i0, "C09:an unchanged or non-reloadable plugin keeps its instance")
			note := "unchanged"
			if !rel {
				note = "not reloadable"
			}
			sym.Assert(p != nil && p.Note == note, "C09:a retained plugin's note tells why")
			sym.Assert(p != nil && p.File == a+"/"+letter(0)+".so", "C23:File is the file it was loaded from")
			sym.Cover(note)
		default:
			sym.Assert(i != nil && i != i0 && i.b == b0, "C09:any other plugin is a fresh instance")
			sym.Assert(p != nil && p.File == b+"/"+letter(0)+".so", "C23:File is the file it was loaded from")
			sym.Cover("fresh")
		}
	}
	for _, p := range plug.Opened[from:] {
		sym.Assert(strings.HasPrefix(p, b+"/tmp/"), "C22:what is opened lies below tmp beside the file")
	}
	for f, d := range before {
		x, ok := vfs.Get(f)
		sym.Assert(ok && string(x) == d, "C22:plugin files are not modified")
	}
	sym.Assert(w.sw.ReloadCounter() == 1, "C14:ReloadCounter counts successful reloads")
	sym.Advance(6 * time.Minute)
	for _, i := range w.insts {
		n := 1
		if find(running(m), i) >= 0 {
			n = 0
		}
		sym.Assert(i.n["OnFree"] == n, "C04:a replaced plugin is freed exactly once")
	}
}

// alike are ends of two versions of a plugin file that have something in common.
var alike = [][2]string{
	{"cd84a84328ec0cb3", "2eff570db67dfbc8"}, // the first 40 bits of the SHA-1
	{"94c01ce736df45bf", "7c52e45693a8e548"}, // the last 40 bits of the SHA-1
	{"83ab0b13719ba7c9", "916d3891a243c10f"}, // xxHash32
	{"a78fe43cf670dce1", "564645fbd0332f06"}, // xxHash32 of the SHA-1
	{"b5e9c7ea20276c57", "c7635bfd99248a2c"}, // CRC-32
	{"82bef5b70737e66e", "c81e728d9d4c2f63"}, // Adler-32
	{"79aa4a37a97d5f68", "d18c255f89434eab"}, // FNV-1a
	{"5a5adb1ee70766a5", "55ee003beaa69737"}, // 40 bits of the MD5
	{"2", "1"},                               // the bytes
}

// AlikeFiles: versions of a plugin file that are easily taken for one another.
func AlikeFiles() {
	sym.MapOrders(0, 0)
	w := newWorld()
	o := newModel(w)
	o.noRel = true
	w.swapper()
	w.setAct(o)
	pair := alike[sym.Choice("alike", len(alike))]
	mk := func(k int) *build {
		o.vers = k
		b := o.install(0, 2, nil)
		w.builds[b.content()] = nil
		b.post = pair[k]
		w.put(b)
		return b
	}
	first := sym.Choice("first", 2)
	one := mk(first)
	o.vers = 20
	o.install(1, 2, nil)
	if !o.step(false, 0) {
		return
	}
	sym.Advance(time.Second)
	mk(1 - first)
	if !o.step(true, 1) {
		return
	}
	sym.Advance(time.Second)
	if sym.Choice("and back", 2) == 1 {
		o.restore(one)
	}
	if !o.step(true, 2) {
		return
	}
	sym.Cover("reloaded")
	o.settle()
}
