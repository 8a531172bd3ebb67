// Package cli drives the hotswap command with plugin sources, file names and
// arguments that are symbolic, and states the properties of its builds.
package cli

import (
	"fmt"
	"path"
	"sort"
	"strings"

	"github.com/edwingeng/hotswap/zzverif/sym"
	"github.com/edwingeng/hotswap/zzverif/vfs"
)

// cmdRec is one external command the hotswap command ran.
type cmdRec struct {
	prog string
	dir  string
	argv []string          // without the program
	snap map[string]string // go build: the files of its directory
}

// extraEnv is set in the environment of the command.
var extraEnv []string

type world struct {
	base    string         // the module's directory
	plug    string         // the plugin's directory
	out     string         // the output directory
	mod     string         // module path
	failN   map[string]int // program -> which run of it fails (1-based)
	noProg  map[string]bool
	cmds    []cmdRec
	exit    int
	stdout  string
	stderr  string
	onBuild func() // called when go build starts (engine only)
}

func newWorld() *world {
	w := &world{mod: "ex.org/mo", failN: map[string]int{}, noProg: map[string]bool{}}
	w.base = vfs.Root() + "/m"
	w.plug = w.base + "/plugin/foo"
	w.out = w.base + "/bin"
	vfs.Mkdir(w.plug)
	vfs.Mkdir(w.out)
	vfs.Put(w.base+"/go.mod", []byte("module "+w.mod+"\n\ngo 1.18\n"))
	return w
}

func (w *world) pkgPath() string { return w.mod + "/plugin/foo" }

// src puts a file into the plugin's directory.
func (w *world) src(rel, text string) { vfs.Put(w.plug+"/"+rel, []byte(text)) }

const required = `
func OnLoad(data interface{}) error { return nil }
func OnInit(v interface{}) error { return nil }
func OnFree() {}
func Export() interface{} { return nil }
func Import() interface{} { return nil }
func InvokeFunc(name string, params ...interface{}) (interface{}, error) { return nil, nil }
func Reloadable() bool { return true }
`

var sevenFuncs = []string{"OnLoad", "OnInit", "OnFree", "Export", "Import", "InvokeFunc", "Reloadable"}

// tree reads everything at or below dir.
func tree(dir string) map[string]string {
	m := map[string]string{}
	for _, f := range vfs.Files(dir) {
		b, ok := vfs.Get(f)
		if !ok {
			m[f] = "(unreadable)"
			continue
		}
		m[f] = string(b)
	}
	return m
}

func keys(m map[string]string) []string {
	var a []string
	for k := range m {
		a = append(a, k)
	}
	sort.Strings(a)
	return a
}

func sameTree(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for k, v := range a {
		x, has := b[k]
		if !has {
			return false
		}
		ok = sym.And(ok, sym.EqStr(v, x))
	}
	return ok
}

// builds lists the go build commands.
func (w *world) builds() []cmdRec {
	var a []cmdRec
	for _, c := range w.cmds {
		if c.prog == "go" && len(c.argv) > 0 && c.argv[0] == "build" {
			a = append(a, c)
		}
	}
	return a
}

// temps lists the directories beside the plugin's that were not there before.
func (w *world) temps(before []string) []string {
	old := map[string]bool{}
	for _, d := range before {
		old[d] = true
	}
	var a []string
	for _, d := range vfs.Dirs(path.Dir(w.plug)) {
		if !old[d] && path.Dir(d) == path.Dir(w.plug) {
			a = append(a, d)
		}
	}
	return a
}

// build runs "hotswap build args...".
func (w *world) build(args ...string) int {
	w.cmds = nil
	w.exit = w.run(append([]string{"build"}, args...))
	return w.exit
}

var _ = fmt.Sprint
var _ = strings.Contains
