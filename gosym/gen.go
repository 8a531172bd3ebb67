package main

import (
	"bytes"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

// genRun is one run of the hotswap command on the corpus of plugins.
type genRun struct {
	args   []string
	dyn    string // keep the temporary package as gendyn/<dyn>
	plugin string
}

var genRuns = []genRun{
	{plugin: "alpha", args: []string{"--staticLinking"}},
	{plugin: "Beta-2", args: []string{"--staticLinking"}},
	{plugin: "hotswap", args: []string{"--staticLinking"}},
	{plugin: "omega", args: []string{"--staticLinking", "--livePrefix= Hot "}},
	{plugin: "alpha", args: []string{"--leaveTemps", "--goBuild=false"}, dyn: "alpha"},
}

// genError tells that the command cannot make working code out of good plugins.
type genError struct{ what, text string }

func (e *genError) Error() string { return e.what + ": " + firstLine(e.text) }

func copyFile(dst, src string) error {
	b, err := os.ReadFile(src)
	if err != nil {
		return err
	}
	if err := os.MkdirAll(filepath.Dir(dst), 0755); err != nil {
		return err
	}
	return os.WriteFile(dst, b, 0644)
}

// prepareGen builds the command of the tree, runs it on the corpus in a scratch
// copy, as an unprivileged user, and returns the files it has generated as an
// overlay (path in the tree -> file on disk).
func prepareGen(repo, harness, tmp string) (map[string]string, error) {
	scratch := filepath.Join(tmp, "gen")
	mod := filepath.Join(scratch, "m")
	if err := os.MkdirAll(mod, 0755); err != nil {
		return nil, err
	}
	os.Chmod(tmp, 0755)
	for _, f := range []string{"go.mod", "go.sum"} {
		if err := copyFile(filepath.Join(mod, f), filepath.Join(repo, f)); err != nil {
			return nil, err
		}
	}
	copyGo := func(from, to string, recurse bool) error {
		return filepath.WalkDir(from, func(p string, d fs.DirEntry, err error) error {
			if err != nil {
				return err
			}
			rel, _ := filepath.Rel(from, p)
			if d.IsDir() {
				if rel != "." && !recurse {
					return filepath.SkipDir
				}
				return nil
			}
			if strings.HasSuffix(p, ".go") && d.Type().IsRegular() {
				return copyFile(filepath.Join(to, rel), p)
			}
			return nil
		})
	}
	for _, d := range []string{"vault", "internal"} {
		if err := copyGo(filepath.Join(repo, d), filepath.Join(mod, d), true); err != nil {
			return nil, err
		}
	}
	if err := copyGo(repo, mod, false); err != nil {
		return nil, err
	}
	for _, d := range []string{"genplug", "rec"} {
		if err := copyGo(filepath.Join(harness, d), filepath.Join(mod, "zzverif", d), true); err != nil {
			return nil, err
		}
	}
	os.MkdirAll(filepath.Join(mod, "zzverif", "genout"), 0755)
	cli := filepath.Join(scratch, "hotswap")
	run := func(dir string, env []string, name string, arg ...string) (string, error) {
		c := exec.Command(name, arg...)
		c.Dir = dir
		c.Env = env
		b, err := c.CombinedOutput()
		return string(b), err
	}
	if o, err := run(repo, goEnv(), "go", "build", "-trimpath", "-modfile="+filepath.Join(tmp, "go.mod"), "-o", cli, "./cli/hotswap"); err != nil {
		return nil, fmt.Errorf("the command does not build: %s", o)
	}
	if o, err := run(mod, goEnv(), "go", "build", ".", "./vault", "./internal/..."); err != nil {
		return nil, fmt.Errorf("the tree does not build: %s", o)
	}
	// the command asks git for the time and name of the last commit
	bin := filepath.Join(scratch, "bin")
	os.MkdirAll(bin, 0755)
	git := "#!/bin/sh\ncase \"$*\" in *%ct*) echo 1700000000;; *) echo 0123456789abcdef0123456789abcdef01234567;; esac\n"
	os.WriteFile(filepath.Join(bin, "git"), []byte(git), 0755)
	home := filepath.Join(scratch, "home")
	os.MkdirAll(home, 0755)
	filepath.WalkDir(scratch, func(p string, d fs.DirEntry, err error) error {
		os.Chown(p, nobody, nobody)
		return nil
	})
	goroot := strings.TrimSpace(out("go", "env", "GOROOT"))
	env := []string{"PATH=" + bin + ":" + goroot + "/bin:" + os.Getenv("PATH"), "HOME=" + home, "TMPDIR=" + home, "GOFLAGS=-mod=mod", "GOPROXY=off",
		"GOWORK=off", "GOTOOLCHAIN=local", "GOROOT=" + goroot, "CGO_ENABLED=0", "GOMODCACHE=" + strings.TrimSpace(out("go", "env", "GOMODCACHE"))}
	asUser := func(arg ...string) (string, error) {
		c := exec.Command("timeout", append([]string{"-k", "5", "120"}, arg...)...)
		c.Dir = mod
		c.Env = env
		c.SysProcAttr = asNobody()
		b, err := c.CombinedOutput()
		return string(b), err
	}
	tempName := regexp.MustCompile(`^[A-Za-z0-9_.-]+$`)
	for _, r := range genRuns {
		dirs := map[string]bool{}
		list := func() (a []string) {
			es, _ := os.ReadDir(filepath.Join(mod, "zzverif/genplug"))
			for _, e := range es {
				a = append(a, e.Name())
			}
			return
		}
		for _, d := range list() {
			dirs[d] = true
		}
		args := append([]string{cli, "build"}, r.args...)
		args = append(args, "zzverif/genplug/"+r.plugin, "zzverif/genout")
		if o, err := asUser(args...); err != nil {
			return nil, &genError{"hotswap " + strings.Join(args[1:], " ") + " fails on a good plugin", o + err.Error()}
		}
		if r.dyn == "" {
			continue
		}
		for _, d := range list() {
			if dirs[d] || !tempName.MatchString(d) {
				continue
			}
			from, to := filepath.Join(mod, "zzverif/genplug", d), filepath.Join(mod, "zzverif/gendyn", r.dyn)
			if err := os.MkdirAll(filepath.Dir(to), 0755); err != nil {
				return nil, err
			}
			if err := os.Rename(from, to); err != nil {
				return nil, err
			}
			main := regexp.MustCompile(`(?m)^package main\b`)
			filepath.WalkDir(to, func(p string, e fs.DirEntry, err error) error {
				if err != nil || e.IsDir() || !strings.HasSuffix(p, ".go") {
					return nil
				}
				b, _ := os.ReadFile(p)
				b = bytes.ReplaceAll(b, []byte("/zzverif/genplug/"+d), []byte("/zzverif/gendyn/"+r.dyn))
				if filepath.Dir(p) == to {
					b = main.ReplaceAll(b, []byte("package "+r.dyn+"dyn"))
				}
				return os.WriteFile(p, b, 0644)
			})
		}
	}
	if o, err := run(mod, goEnv(), "go", "vet", "-unusedresult=false", "./zzverif/genout", "./zzverif/gendyn/..."); err != nil {
		if o2, err := run(mod, goEnv(), "go", "build", "./zzverif/genout", "./zzverif/gendyn/..."); err != nil {
			return nil, &genError{"the generated code does not compile", o2}
		}
		_ = o
	}
	res := map[string]string{}
	var all []string
	filepath.WalkDir(filepath.Join(mod, "zzverif"), func(p string, d fs.DirEntry, err error) error {
		if err == nil && !d.IsDir() && strings.HasSuffix(p, ".go") {
			all = append(all, p)
		}
		return nil
	})
	sort.Strings(all)
	for _, p := range all {
		rel, _ := filepath.Rel(mod, p)
		if strings.HasPrefix(rel, "zzverif/rec/") {
			continue
		}
		res[filepath.Join(repo, rel)] = p
	}
	return res, nil
}

func isGen(h string) bool { return strings.HasPrefix(h, "gen.") }

// genProp is the property that generation of good code for good plugins belongs to.
const genProp = "C41"
