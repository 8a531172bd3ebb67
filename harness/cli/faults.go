package cli

import (
	"path"
	"strings"
	"syscall"

	"github.com/edwingeng/hotswap/zzverif/sym"
	"github.com/edwingeng/hotswap/zzverif/vfs"
)

// OpFaults: any one file system operation of a build fails.
func OpFaults() {
	w := newWorld()
	w.src("main.go", "package foo\n"+required+"\nfunc live_a() {}\n")
	w.src("sub/s.go", "package sub\n\ntype Live_T struct{}\n")
	w.src("data.txt", "d")
	vfs.Put(w.base+"/plugin/foo-1/x.go", []byte("package x\n"))
	static := sym.Choice("static", 2) == 1
	before := tree(w.base)
	dirs := vfs.Dirs(w.base)
	at := sym.Choice("failing operation", 72)
	n, hit, op0, path0 := 0, false, "", ""
	// Files are copied by many workers: number their operations apart by path.
	vfs.Fault = func(op, p string) error {
		n++
		if n-1 == at {
			hit, op0, path0 = true, op, p
			return syscall.EIO
		}
		return nil
	}
	var code int
	if static {
		code = w.build("--staticLinking", "plugin/foo", "bin")
	} else {
		code = w.build("--include=txt", "plugin/foo", "bin")
	}
	vfs.Fault = nil
	if !hit {
		sym.Assert(code == 0, "C36:the exit status tells whether a step failed")
		sym.Cover("none")
		return
	}
	sym.Cover(op0)
	switch op0 {
	case "readdir":
		sym.Assert(code != 0 || static && path0 == w.out, "C36:the exit status tells whether a step failed")
	case "open", "write", "mkdir", "chdir", "rename", "truncate":
		sym.Assert(code != 0, "C36:the exit status tells whether a step failed")
	}
	after := tree(w.base)
	if static {
		for _, f := range keys(before) {
			x, ok := after[f]
			sym.Assert(w.mine(f) || ok && x == before[f], "C33:files that are not hotswap's own stay as they are")
		}
		for _, f := range keys(after) {
			_, old := before[f]
			sym.Assert(old || w.mine(f), "C33:nothing but hotswap's own files is created")
		}
		return
	}
	temps := w.temps(dirs)
	if !(strings.HasPrefix(op0, "remove") && len(temps) == 1 && (path0 == temps[0] || strings.HasPrefix(path0, temps[0]+"/"))) {
		sym.Assert(len(temps) == 0, "C36:the temporary directory is gone")
	}
	for _, t := range temps {
		for _, f := range keys(after) {
			if strings.HasPrefix(f, t+"/") {
				delete(after, f)
			}
		}
	}
	if code == 0 {
		sym.Assert(len(w.builds()) == 1, "C35:exactly one go build is run")
		for _, b := range w.builds() {
			tmp := w.mod + "/plugin/" + path.Base(b.dir)
			sym.Assert(b.snap["main.go"] != "" && b.snap["sub/s.go"] != "" && b.snap["data.txt"] == "d" && strings.Contains(b.snap["hotswap.main.go"], tmp) &&
				b.snap["hotswap.live.go"] != "" && b.snap["sub/hotswap.live.go"] != "", "C36:a build that succeeds is complete")
		}
	}
	delete(after, w.out+"/foo.so")
	sym.Assert(sameTree(before, after), "C36:nothing outside the temporary directory is removed or changed")
}

// CopyRace: several files cannot be read while many workers copy them.
func CopyRace() {
	w := newWorld()
	w.src("main.go", "package foo\n"+required)
	w.src("a.go", "package foo\n")
	bad := sym.Choice("unreadable", 3)
	for i := 0; i < bad; i++ {
		vfs.PutBad(w.plug + []string{"/x.txt", "/sub/y.txt"}[i])
	}
	before := tree(w.base)
	dirs := vfs.Dirs(w.base)
	vfs.Fault = func(op, p string) error {
		switch op {
		case "mkdir": // files are collected: copying comes next
			sym.Preempt(1)
		case "chdir": // copying is over
			sym.Preempt(-1)
		}
		return nil
	}
	code := w.build("--include=txt", "plugin/foo", "bin")
	sym.Preempt(-1)
	vfs.Fault = nil
	sym.Assert((code != 0) == (bad > 0), "C36:the exit status tells whether a step failed")
	sym.Assert(len(w.temps(dirs)) == 0, "C36:the temporary directory is gone")
	for _, b := range w.builds() {
		sym.Cover("built")
		sym.Assert(b.snap["main.go"] == "package main\n"+required && b.snap["a.go"] == "package main\n", "C31:every Go file is taken")
	}
	after := tree(w.base)
	delete(after, w.out+"/foo.so")
	sym.Assert(sameTree(before, after), "C36:nothing outside the temporary directory is removed or changed")
}

// Signals: SIGINT or SIGTERM arrives before any one file system operation or
// while an external command runs; the goroutine that handles it acts at once or
// a number of operations later.
func Signals() {
	w := newWorld()
	w.src("main.go", "package foo\n"+required+"\nfunc live_a() {}\n")
	w.src("sub/s.go", "package sub\n")
	w.src("data.txt", "d")
	static := sym.Choice("static", 2) == 1
	leave := !static && sym.Choice("leave", 2) == 1
	before := tree(w.base)
	dirs := vfs.Dirs(w.base)
	sig := []syscall.Signal{syscall.SIGINT, syscall.SIGTERM}[sym.Choice("signal", 2)]
	at := sym.Choice("arrives before operation", 64)
	late := []int{0, 1, 2, 3, 5, 8, 13, 1000}[sym.Choice("is handled later", 8)]
	n, sent := 0, false
	send := func() {
		if n == at {
			if !deliver(sig) {
				sym.Assume(false) // not handled yet: nothing is there to clean up, the process just ends
			}
			sent = true
		}
		if sent && n == at+late {
			sym.Yield()
		}
		n++
	}
	vfs.Fault = func(op, p string) error {
		send()
		return nil
	}
	w.onBuild = send
	var args []string
	if static {
		args = []string{"--staticLinking"}
	} else {
		args = []string{"--include=txt"}
	}
	if leave {
		args = append(args, "--leaveTemps")
	}
	code := w.build(append(args, "plugin/foo", "bin")...)
	vfs.Fault = nil
	if !sent {
		sym.Cover("late")
		return
	}
	sym.Cover("interrupted")
	after := tree(w.base)
	temps := w.temps(dirs)
	if !leave {
		sym.Assert(len(temps) == 0, "C40:the temporary directory of an interrupted build is gone")
	}
	for _, t := range temps {
		for _, f := range keys(after) {
			if strings.HasPrefix(f, t+"/") {
				delete(after, f)
			}
		}
	}
	if static {
		for _, f := range keys(before) {
			x, ok := after[f]
			sym.Assert(w.mine(f) || ok && x == before[f], "C33:files that are not hotswap's own stay as they are")
		}
		if code == 0 {
			for _, f := range []string{w.plug + "/hotswap.main.go", w.plug + "/hotswap.live.go", w.plug + "/hotswapbureau/hotswap.bureau.go",
				w.out + "/hotswap.staticPluginInit.foo.go", w.out + "/hotswap.staticPlugins.go"} {
				_, ok := after[f]
				sym.Assert(ok, "C40:an interrupted build succeeds only if it was complete")
			}
		}
		return
	}
	_, has := after[w.out+"/foo.so"]
	if code == 0 {
		sym.Assert(has, "C40:an interrupted build succeeds only if it was complete")
	}
	for _, b := range w.builds() {
		if b.snap == nil || !has {
			continue
		}
		sym.Assert(b.snap["main.go"] != "" && b.snap["sub/s.go"] != "" && b.snap["data.txt"] == "d" && b.snap["hotswap.main.go"] != "" && b.snap["hotswap.live.go"] != "",
			"C40:no plugin is made of an incomplete copy")
	}
	delete(after, w.out+"/foo.so")
	sym.Assert(sameTree(before, after), "C36:nothing outside the temporary directory is removed or changed")
}
