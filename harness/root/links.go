package root

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/edwingeng/hotswap"
	"github.com/edwingeng/hotswap/zzverif/plug"
	"github.com/edwingeng/hotswap/zzverif/sym"
	"github.com/edwingeng/hotswap/zzverif/vfs"
)

// Links: the plugin directory or a plugin file may be a symbolic link, which may
// point elsewhere later; entries that are neither files nor links to files are
// no plugins.
func Links() {
	sym.MapOrders(0, 0)
	w := newWorld()
	top := vfs.Root() + "/top"
	r1, r2, store := top+"/r1", top+"/r2", top+"/store"
	w.dir = top + "/current"
	link := func(name, path, to string) bool {
		switch sym.Choice(name, 3) {
		case 0:
			return false
		case 1:
			vfs.PutLink(path, to)
		case 2: // relative
			up := strings.Count(strings.TrimPrefix(path, top+"/"), "/")
			vfs.PutLink(path, strings.Repeat("../", up)+strings.TrimPrefix(to, top+"/"))
		}
		return true
	}
	vfs.Mkdir(r1)
	dirLink := link("directory link", w.dir, r1)
	real := w.dir
	if dirLink {
		real = r1
	}
	vfs.Mkdir(real)
	w.swapper()
	mk := func(k int, ver string) *build {
		b := &build{name: letter(k), ver: ver, reloadable: true}
		w.builds[b.content()] = b
		return b
	}
	a1, b1 := mk(0, "1"), mk(1, "1")
	a := "/" + letter(0) + ".so"
	vfs.Put(store+"/a1", []byte(a1.content()))
	fileLink := link("file link", real+a, store+"/a1")
	if !fileLink {
		vfs.Put(real+a, []byte(a1.content()))
	}
	vfs.Put(real+"/"+letter(1)+".so", []byte(b1.content()))
	odd := func() {
		switch sym.Choice("odd entry", 4) {
		case 1:
			vfs.PutSocket(real + "/zz.so")
			sym.Cover("socket")
		case 2:
			vfs.PutSocket(real + "/zz.sock")
			vfs.PutLink(real+"/zz.txt", "nowhere")
			vfs.PutLink(real+"/sub", "../store")
			sym.Cover("other links")
		case 3:
			vfs.PutLink(real+"/zz.so", store)
			sym.Cover("link to a directory")
		}
	}
	odd()
	holds := func(m *hotswap.PluginManager, want ...*build) bool {
		var got, wanted []string
		for _, i := range running(m) {
			got = append(got, i.b.name+i.b.ver)
		}
		for _, b := range want {
			wanted = append(wanted, b.name+b.ver)
		}
		sort.Strings(got)
		sort.Strings(wanted)
		return strings.Join(got, " ") == strings.Join(wanted, " ")
	}
	r := w.load(0)
	sym.Log(fmt.Sprint(r.err))
	sym.Assert(r.err == nil && len(r.d) == 2 && holds(w.sw.Current(), a1, b1), "C15:exactly the wanted files are loaded")
	if r.err != nil {
		return
	}
	old := w.sw.Current()
	ia, ib := who(old.FindPlugin(letter(0))), who(old.FindPlugin(letter(1)))
	sym.Advance(time.Second)
	a2 := a1
	if sym.Choice("same content", 2) == 0 {
		a2 = mk(0, "2")
	}
	want := []*build{a2, b1}
	switch how := sym.Choice("how", 3); {
	case how == 1 && fileLink:
		vfs.Put(store+"/a2", []byte(a2.content()))
		vfs.PutLink(real+a, store+"/a2")
		sym.Cover("file link moved")
	case how == 2 && dirLink:
		c := mk(2, "1")
		vfs.Put(r2+a, []byte(a2.content()))
		vfs.Put(r2+"/"+letter(1)+".so", []byte(b1.content()))
		vfs.Put(r2+"/"+letter(2)+".so", []byte(c.content()))
		vfs.PutLink(w.dir, r2)
		want = append(want, c)
		sym.Cover("directory link moved")
	default: // through the link, if there is one
		vfs.Put(w.dir+a, []byte(a2.content()))
		sym.Cover("rewritten")
	}
	from := len(plug.Opened)
	r = w.reload(1)
	sym.Assert(r.err == nil, "C09:a reload of good files succeeds")
	if r.err != nil {
		return
	}
	m := w.sw.Current()
	sym.Assert(holds(m, want...) && len(r.d) == len(want), "C09:the manager holds exactly the plugins of the directory")
	pa, pb := m.FindPlugin(letter(0)), m.FindPlugin(letter(1))
	sym.Assert((who(pa) == ia) == (a1 == a2), "C09:a plugin whose file holds something else is a fresh instance, any other is kept")
	sym.Assert(who(pb) == ib && pb != nil && pb.Note == "unchanged", "C09:an unchanged plugin keeps its instance")
	fresh := len(want) - 1
	if a1 == a2 {
		fresh--
	}
	sym.Assert(len(plug.Opened) == from+fresh, "C22:retained plugins are not opened again")
	for k, p := range plug.Opened {
		sym.Assert(strings.HasPrefix(p, w.dir+"/tmp/") || strings.HasPrefix(p, real+"/tmp/") || strings.HasPrefix(p, r2+"/tmp/"), "C22:what is opened lies below tmp beside the file")
		for _, q := range plug.Opened[:k] {
			sym.Assert(p != q, "C22:no path is opened twice")
		}
	}
	sym.Advance(6 * time.Minute)
	for _, i := range w.insts {
		n := 0
		if i == ia && a1 != a2 {
			n = 1
		}
		sym.Assert(i.n["OnFree"] == n, "C04:a replaced plugin is freed exactly once")
	}
}
