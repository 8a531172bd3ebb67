package cli

import (
	"path"
	"strings"

	"github.com/edwingeng/hotswap/zzverif/sym"
	"github.com/edwingeng/hotswap/zzverif/vfs"
)

// mine tells whether a file is one that hotswap generates for the plugin.
func (w *world) mine(f string) bool {
	name := path.Base(w.plug)
	if f == w.out+"/hotswap.staticPluginInit."+name+".go" || f == w.out+"/hotswap.staticPlugins.go" {
		return true
	}
	if !strings.HasPrefix(f, w.plug+"/") {
		return false
	}
	if strings.HasPrefix(f, w.plug+"/hotswapbureau/") {
		return true
	}
	switch path.Base(f) {
	case "hotswap.main.go", "hotswap.live.go", "hotswap.bureau.go":
		return true
	}
	return false
}

// Static: files of all kinds of names around; a static build or a clean, good or failing.
func Static() {
	w := newWorld()
	name := []string{"foo", "f.o"}[sym.Choice("plugin", 2)]
	w.plug = w.base + "/plugin/" + name
	w.out = w.base + "/plugin"
	if sym.Choice("output", 2) == 1 {
		w.out = w.base + "/bin"
	}
	main := "package foo\n" + required
	mode := sym.Choice("mode", 3) // build, clean, verbose build
	fail := sym.Choice("failing step", 7)
	bad := fail != 0
	switch fail {
	case 1:
		main = strings.Replace(main, "func OnFree() {}", "", 1)
	case 2:
		main += "\nfunc live_b() {}\nfunc live_c() {}\ntype live_b struct{}\n"
	case 3:
		main += "\ntype live_b int\n"
	case 4:
		w.failN["list"] = 1
	case 5:
		w.failN["gofmt"] = 2
	case 6:
		w.failN["git"] = 1
	}
	if mode == 1 && fail != 6 {
		bad = false
	}
	w.src("main.go", main)
	w.src("main_test.go", "package foo\n\nfunc live_t() {}\n")
	w.src("data.txt", "d")
	w.src("sub/s.go", "package sub\n\nfunc live_a() {}\n")
	// what an earlier build has left, for the plugin and for others
	if sym.Choice("built before", 2) == 1 {
		w.src("hotswap.main.go", "package foo\n")
		w.src("sub/hotswap.live.go", "package sub\n")
		w.src("gone/hotswap.live.go", "package gone\n")
		w.src("hotswapbureau/hotswap.bureau.go", "package hotswapbureau\n")
		vfs.Put(w.out+"/hotswap.staticPluginInit."+name+".go", []byte("package plugin\n"))
		vfs.Put(w.out+"/hotswap.staticPlugins.go", []byte("package plugin\n"))
	}
	any := ""
	switch sym.Choice("other file", 4) {
	case 0:
		any = w.out + "/hotswap.staticPluginInit." + sym.Concrete(sym.String("other", 3, "f.oxF")) + ".go"
	case 1:
		any = w.out + []string{"/xhotswap.staticPluginInit.foo.go", "/hotswap.staticPluginInit.foo.go.x", "/hotswapxstaticPluginInitxfooxgo",
			"/hotswap.staticPluginInit..go", "/hotswap.staticPluginInit.foo.go/x.go", "/deep/hotswap.staticPluginInit.foo.go", "/hotswap.main.go",
			"/hotswap.staticPlugins.go.x", "/HOTSWAP.staticPlugins.go", "/other/hotswap.main.go", "/hotswap.live.go", "/hotswap.staticPluginInit.foo.bar.go"}[sym.Choice("near miss", 12)]
	case 2:
		any = w.plug + []string{"/hotswap.mainx.go", "/hotswap.main.go.x", "/xhotswap.live.go", "/hotswap.live_test.go", "/hotswap.staticPlugins.go",
			"/hotswap.staticPluginInit.foo.go", "/sub/hotswapbureau/u.go", "/hotswapbureaux/u.go", "/hotswap.main.txt", "/sub/Hotswap.live.go", "/hotswap.bureau"}[sym.Choice("near miss", 11)]
	case 3:
		any = w.base + []string{"/hotswap.main.go", "/plugin/" + name + "x/hotswap.main.go", "/plugin/hotswapbureau/hotswap.bureau.go", "/hotswap.staticPluginInit." + name + ".go"}[sym.Choice("near miss", 4)]
	}
	if _, file := vfs.Get(path.Dir(any)); file {
		return // what is to be its directory is a file
	}
	text := "package plugin\n"
	if strings.HasPrefix(any, w.plug+"/") {
		text = map[string]string{"sub": "package sub\n", "hotswapbureau": "package u\n", "hotswapbureaux": "package u\n"}[path.Base(path.Dir(any))]
		if text == "" {
			text = "package foo\n"
		}
	}
	vfs.Put(any, []byte(text))
	before := tree(w.base)
	args := [][]string{{"--staticLinking"}, {"--staticLinking", "--clean"}, {"--staticLinking", "-v"}}[mode]
	rel := w.out[len(w.base)+1:]
	code := w.build(append(append([]string{}, args...), "plugin/"+name, rel)...)
	if any != w.out+"/hotswap.staticPluginInit.foo.go/x.go" && any != w.out+"/hotswap.main.go" && any != w.out+"/hotswap.live.go" {
		sym.Assert((code != 0) == bad, "C33:a good plugin builds and a bad one does not")
	}
	after := tree(w.base)
	for _, f := range keys(before) {
		if w.mine(f) {
			continue
		}
		got, ok := after[f]
		sym.Assert(ok && got == before[f], "C33:files that are not hotswap's own stay as they are")
	}
	for _, f := range keys(after) {
		if _, old := before[f]; !old {
			sym.Assert(w.mine(f), "C33:nothing but hotswap's own files is created")
		}
	}
	sym.Assert(len(w.builds()) == 0, "C33:static generation builds nothing")
	if code != 0 {
		sym.Cover("fails")
		return
	}
	own := []string{w.plug + "/hotswap.main.go", w.plug + "/sub/hotswap.live.go", w.plug + "/hotswapbureau/hotswap.bureau.go",
		w.out + "/hotswap.staticPluginInit." + name + ".go"}
	if mode == 1 {
		sym.Cover("cleaned")
		for _, f := range keys(after) {
			if f == w.out+"/hotswap.staticPlugins.go" {
				continue
			}
			sym.Assert(!w.mine(f), "C33:cleaning removes what was generated for the plugin")
		}
		return
	}
	sym.Cover("built")
	for _, f := range append(own, w.out+"/hotswap.staticPlugins.go") {
		_, ok := after[f]
		sym.Assert(ok, "C33:a static build generates its files")
	}
	_, stale := after[w.plug+"/gone/hotswap.live.go"]
	sym.Assert(!stale, "C33:a static build removes generated files that are not needed any more")
}
