package cli

import (
	"strings"
	"time"

	"github.com/edwingeng/hotswap/zzverif/sym"
	"github.com/edwingeng/hotswap/zzverif/vfs"
)

// BadArgs: invocations that cannot work, and their neighbours that can.
func BadArgs() {
	w := newWorld()
	w.src("main.go", "package foo\n"+required)
	vfs.Put(w.base+"/file", []byte("x"))
	vfs.Mkdir(w.plug + "/inner")
	vfs.Mkdir(w.plug + "/..dots")
	vfs.Mkdir(w.base + "/plugin/foo2")
	vfs.Mkdir(w.base + "/..out")
	static := sym.Choice("static", 2) == 1
	type t struct {
		args          []string
		dynamic, stat bool // works
	}
	all := []t{
		{[]string{}, false, false},
		{[]string{"plugin/foo"}, false, false},
		{[]string{"plugin/foo", "bin", "more"}, false, false},
		{[]string{"plugin/foo", "bin"}, true, true},
		{[]string{"./plugin/../plugin/foo/", "./bin/"}, true, true},
		{[]string{"plugin/none", "bin"}, false, false},
		{[]string{"file", "bin"}, false, false},
		{[]string{"", "bin"}, false, false},
		{[]string{" ", "bin"}, false, false},
		{[]string{"plugin/foo", ""}, false, false},
		{[]string{"plugin/foo", "  "}, false, false},
		{[]string{"plugin/foo", "file"}, false, false},
		{[]string{"plugin/foo", "none/deep"}, true, false},
		{[]string{"plugin/foo", "plugin/foo"}, true, false},
		{[]string{"plugin/foo", "plugin/foo/inner"}, true, false},
		{[]string{"plugin/foo", "plugin/foo/..dots"}, true, false},
		{[]string{"plugin/foo", "plugin/foo/inner/.."}, true, false},
		{[]string{"plugin/foo", "plugin/foo/../foo2"}, true, true},
		{[]string{"plugin/foo", "plugin"}, true, true},
		{[]string{"plugin/foo", "..out"}, true, true},
	}
	k := sym.Choice("arguments", len(all))
	ok := all[k].dynamic
	args := append([]string{}, all[k].args...)
	if static {
		ok = all[k].stat
		args = append(args, "--staticLinking")
	}
	switch sym.Choice("flag", 12) {
	case 1:
		args = append(args, "--clean")
		ok = ok && static
	case 2:
		args = append(args, "--livePrefix=")
		ok = false
	case 3:
		args = append(args, "--livePrefix", " \t")
		ok = false
	case 4:
		args = append(args, "--include=(")
		ok = ok && static // not used there
	case 5:
		args = append(args, "--include=x", "--exclude=[")
		ok = ok && static
	case 6:
		args = append(args, "--unknown")
		ok = false
	case 7:
		w.noProg["gofmt"] = true
		ok = false
	case 8:
		args = append(args, "--include=a", "--exclude=b")
	case 9:
		vfs.Put(w.plug+"/other.go", []byte("package other\n"))
		ok = false
	case 10:
		vfs.Del(w.base + "/go.mod")
		ok = false
	case 11:
		args = append(args, "--goBuild=maybe")
		ok = false
	}
	// what an earlier static build has left
	if sym.Choice("built before", 2) == 1 {
		for _, f := range []string{"/hotswap.main.go", "/hotswap.live.go"} {
			vfs.Put(w.plug+f, []byte("package foo\n"))
		}
		vfs.Put(w.plug+"/hotswapbureau/hotswap.bureau.go", []byte("package hotswapbureau\n"))
		vfs.Put(w.base+"/bin/hotswap.staticPluginInit.foo.go", []byte("package bin\n"))
		vfs.Put(w.base+"/bin/hotswap.staticPlugins.go", []byte("package bin\n"))
	}
	before := tree(w.base)
	code := w.build(args...)
	sym.Assert((code == 0) == ok, "C39:exactly the invocations that make sense are carried out")
	if !ok {
		sym.Cover("rejected")
		sym.Assert(sameTree(before, tree(w.base)), "C39:a rejected invocation changes nothing")
		sym.Assert(len(w.builds()) == 0, "C39:a rejected invocation builds nothing")
		sym.Assert(strings.TrimSpace(w.stderr) != "", "C39:a rejected invocation says why")
		return
	}
	sym.Cover("carried out")
}

// Repeat: two builds of the same sources, in any order of map iteration.
func Repeat() {
	w := newWorld()
	w.src("main.go", "package foo\n"+required+"\nfunc live_r() {}\nfunc HotA() {}\nfunc RegisterX() {}\n")
	w.src("a/a.go", "package a\n\nfunc live_a() {}\ntype live_b struct{}\n")
	w.src("a/z.go", "package a\n\ntype live_c struct{}\nfunc live_d() {}\n")
	w.src("b/c/b.go", "package c\n\nfunc live_e() {}\n")
	w.src("z/z.go", "package z\n\nfunc live_f() {}\ntype live_g struct{}\n")
	static := sym.Choice("static", 2) == 1
	flags := [][]string{nil, {"--livePrefix=Hot"}, {"--livePrefix=reg"}, {"-v"}}[sym.Choice("flags", 4)]
	var got []map[string]string
	for i := 0; i < 2; i++ {
		if i == 0 {
			sym.MapOrders(0, 0)
		} else {
			sym.MapOrders(2, 1)
			sym.Advance(1501 * time.Millisecond)
		}
		dirs := vfs.Dirs(w.base)
		args := append([]string{}, flags...)
		if static {
			args = append(args, "--staticLinking")
		} else {
			args = append(args, "--leaveTemps")
		}
		code := w.build(append(args, "plugin/foo", "bin")...)
		sym.Assert(code == 0, "C38:a good plugin builds")
		m := map[string]string{}
		dir := w.base
		tmp := ""
		if !static {
			ts := w.temps(dirs)
			sym.Assert(len(ts) == 1, "C38:every build has a temporary directory of its own")
			if len(ts) != 1 {
				return
			}
			dir = ts[0]
			tmp = dir[strings.LastIndexByte(dir, '/')+1:]
		}
		for f, s := range tree(dir) {
			if tmp != "" {
				s = strings.ReplaceAll(s, tmp, "TMP")
			}
			m[f[len(dir):]] = s
		}
		got = append(got, m)
	}
	sym.Cover("twice")
	sym.Assert(sameTree(got[0], got[1]), "C38:the same sources and options give the same code")
}
