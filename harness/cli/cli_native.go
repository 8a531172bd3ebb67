package cli

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/edwingeng/hotswap/zzverif/sym"
	"github.com/edwingeng/hotswap/zzverif/vfs"
)

const gitHash = "0123456789abcdef0123456789abcdef01234567"

const script = `#!/bin/sh
CTL='%s'
PROG=%s
export PATH='%s'
kind=$PROG
if [ $PROG = go ] && [ "$1" != build ]; then
  if [ "$1" = list ] && [ -f $CTL/fail-list ]; then exit 1; fi
  exec go "$@"
fi
i=$(cat $CTL/seq 2>/dev/null || echo 0); i=$((i+1)); echo $i > $CTL/seq
d=$CTL/cmd$i; mkdir $d
printf '%%s' $PROG > $d/prog
printf '%%s' "$(pwd)" > $d/dir
for a in "$@"; do printf '%%s\0' "$a" >> $d/argv; done
n=$(cat $CTL/n-$PROG 2>/dev/null || echo 0); n=$((n+1)); echo $n > $CTL/n-$PROG
if [ $PROG = go ]; then cp -R . $d/snap; fi
if [ "$(cat $CTL/fail-$PROG 2>/dev/null)" = $n ]; then case $PROG in git) exit 128;; gofmt) exit 2;; esac; exit 1; fi
case $PROG in
git) case "$*" in *%%ct*) echo 1700000000;; *) echo ` + gitHash + `;; esac;;
go) prev=
  for a in "$@"; do if [ "$prev" = -o ]; then echo built > "$a"; fi; prev=$a; done;;
gofmt) exec gofmt "$@";;
esac
exit 0
`

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// run executes the real command with wrappers in place of git, go and gofmt.
func (w *world) run(args []string) int {
	ctl := filepath.Dir(vfs.Root()) + "/ctl"
	must(os.RemoveAll(ctl))
	must(os.MkdirAll(ctl+"/bin", 0755))
	path := os.Getenv("PATH")
	for _, p := range []string{"git", "go", "gofmt"} {
		if !w.noProg[p] {
			must(os.WriteFile(ctl+"/bin/"+p, []byte(fmt.Sprintf(script, ctl, p, path)), 0755))
		}
		if n := w.failN[p]; n > 0 {
			must(os.WriteFile(ctl+"/fail-"+p, []byte(strconv.Itoa(n)), 0644))
		}
	}
	if w.failN["list"] == 1 {
		must(os.WriteFile(ctl+"/fail-list", nil, 0644))
	}
	c := exec.Command(sym.CLI, args...)
	c.Dir = w.base
	c.Env = append([]string{"PATH=" + ctl + "/bin", "HOME=" + os.Getenv("HOME"), "TMPDIR=" + os.Getenv("TMPDIR"), "GOPROXY=off", "GOFLAGS=-mod=mod",
		"GOTOOLCHAIN=local", "GOWORK=off", "GONOSUMDB=*", "GOROOT=" + os.Getenv("VERIF_GOROOT")}, extraEnv...)
	out, err := c.Output()
	w.stdout = string(out)
	code := 0
	if err != nil {
		code = 2
		if x, ok := err.(*exec.ExitError); ok {
			code = x.ExitCode()
			w.stderr = string(x.Stderr)
			sym.Log(w.stderr)
		}
	}
	for i := 1; ; i++ {
		d := ctl + "/cmd" + strconv.Itoa(i)
		prog, err := os.ReadFile(d + "/prog")
		if err != nil {
			break
		}
		dir, _ := os.ReadFile(d + "/dir")
		av, _ := os.ReadFile(d + "/argv")
		rec := cmdRec{prog: string(prog), dir: string(dir)}
		if len(av) > 0 {
			rec.argv = strings.Split(strings.TrimSuffix(string(av), "\x00"), "\x00")
		}
		if rec.prog == "go" {
			rec.snap = map[string]string{}
			for f, s := range tree(d + "/snap") {
				rel, _ := filepath.Rel(d+"/snap", f)
				rec.snap[rel] = s
			}
		}
		w.cmds = append(w.cmds, rec)
	}
	return code
}

// deliver cannot be timed natively.
func deliver(s os.Signal) bool { return false }
