package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type harnessMeta struct {
	bounds string
	covers []string // reachability witnesses
	replay string   // native, engine
	repeat int      // native replays to try (map iteration order is not controlled there)
}

type job struct {
	h        string
	implicit string // label under which a crash, deadlock or endless run counts
}

type propCheck struct {
	quick    []job
	thorough []job // in addition to quick
	needCLI  bool
}

func isCLI(h string) bool { return strings.HasPrefix(h, "cli.") }

// known is one line of the known-findings file:
//
//	known: property=C01 label="..." harness=root.X name=value ...   # text
//	fixed: property=C01 <commit> <text>
type known struct {
	prop, label, harness, text string
	assign                     map[string]uint64
}

func readKnown(path string) []known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(strings.TrimSpace(l), "known: ")
		if !ok {
			continue
		}
		var e struct {
			Property, Label, Harness, Text string
			Assign                         map[string]uint64
		}
		if json.Unmarshal([]byte(rest), &e) == nil {
			out = append(out, known{e.Property, e.Label, e.Harness, e.Text, e.Assign})
		}
	}
	return out
}

func (k known) matches(prop, h string, v violation) bool {
	if k.prop != prop || k.label != v.Label || k.harness != "" && k.harness != h {
		return false
	}
	for n, x := range k.assign {
		if v.Assign[n] != x {
			return false
		}
	}
	return true
}

type replayFile struct {
	Property string            `json:"property"`
	Harness  string            `json:"harness"`
	Label    string            `json:"label"`
	Tier     int               `json:"tier"`
	Assign   map[string]uint64 `json:"assign"`
	Note     string            `json:"note,omitempty"`
	How      string            `json:"how"`
	Native   string            `json:"native_outcome,omitempty"`
}

type checkOpts struct {
	repo, verif, prop, tier, solver string
	workers                         int
	budget                          time.Duration
	seed                            int
}

func runCheck(o checkOpts) int {
	t0 := time.Now()
	pc, ok := checks[o.prop]
	if !ok {
		fmt.Println("no check for", o.prop)
		return 2
	}
	tier := 0
	if o.tier == "thorough" {
		tier = 1
	}
	jobs := append([]job{}, pc.quick...)
	if tier == 1 {
		jobs = append(jobs, pc.thorough...)
	}
	tmp, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(tmp)

	ev := map[string]any{}
	var notes []string
	dropped := 0
	note := func(f string, a ...any) {
		s := fmt.Sprintf(f, a...)
		notes = append(notes, s)
		fmt.Println("note:", s)
	}
	cfg := &config{maxSteps: 30_000_000, maxDepth: 400, solverBin: o.solver, tier: tier, prop: o.prop}
	var hs []string
	for _, j := range jobs {
		hs = append(hs, j.h)
	}
	setupIntrinsics()
	var genBad *genError
	if e := prepare(o.repo, o.verif, tmp, hs, cfg); e != nil {
		// the generated code is not there: go on without the harnesses that run it
		var keep []job
		hs = nil
		for _, j := range jobs {
			if !isGen(j.h) {
				keep = append(keep, j)
				hs = append(hs, j.h)
			}
		}
		jobs, dropped = keep, len(jobs)-len(keep)
		ge, ok := e.(*genError)
		if ok && o.prop == genProp {
			genBad = ge
		} else {
			note("generated code not run: %v", e)
		}
	}
	p, err := loadProgram(o.repo, filepath.Join(o.verif, "harness"), tmp, harnessPatterns(strings.Join(hs, ",")), cfg)
	if err != nil {
		note("nothing decided: the tree could not be loaded: %v", err)
	}
	loadS := time.Since(t0).Seconds()

	nat := &nativeRunner{repo: o.repo, verif: o.verif, tmp: tmp, tier: tier, prop: o.prop, gen: cfg.gen}
	defer nat.cleanup()
	needNative := false
	for _, h := range hs {
		if harnesses[h].replay != "engine" {
			needNative = true
		}
	}
	var warm sync.WaitGroup
	if needNative && err == nil {
		warm.Add(1)
		go func() { defer warm.Done(); nat.build(hs) }()
	}

	var (
		results   []*runResult
		confirmed []replayFile
		findings  = map[string]bool{}
		knowns    = readKnown(filepath.Join(o.verif, "known-findings.txt"))
		exhaust   = true
		validated int
		disagree  []string
		replays   int
	)
	if genBad != nil {
		confirmed = append(confirmed, replayFile{Property: o.prop, Harness: "gen", Label: o.prop + ":" + genBad.what, Tier: tier,
			How: "/verif/check.sh " + o.prop + " quick", Native: genBad.text})
	}
	if err == nil && genBad == nil {
		for _, j := range jobs {
			left := o.budget - time.Since(t0)
			if left < 5*time.Second {
				note("%s not run: out of time", j.h)
				exhaust = false
				continue
			}
			r, e := runHarness(p, j.h, runOpts{workers: o.workers, budget: left, implicit: j.implicit,
				want: func(l string) bool { return strings.HasPrefix(l, o.prop+":") }})
			if e != nil {
				note("%s: %v", j.h, e)
				exhaust = false
			}
			if r == nil {
				continue
			}
			results = append(results, r)
			if r.Truncated {
				exhaust = false
				note("%s: stopped by the time limit after %d paths", j.h, r.Paths)
			}
			for _, k := range []string{"unsupported", "internal", "limit"} {
				if n := r.Outcomes[k]; n > 0 {
					exhaust = false
					note("%s: %d paths not decided (%s: %s)", j.h, n, k, firstLine(r.Msgs[k]))
				}
			}
			if r.Notes["solver-unknown"] > 0 {
				exhaust = false
				note("%s: %d queries the solver did not decide", j.h, r.Notes["solver-unknown"])
			}
			for _, c := range harnesses[j.h].covers {
				if r.Covers[c] == 0 {
					note("%s: witness %q not reached", j.h, c)
				}
			}
			// group violations by label, then confirm each on the real code
			byLabel := map[string][]violation{}
			var labels []string
			for _, v := range r.Viol {
				k := ""
				for _, kn := range knowns {
					if kn.matches(o.prop, j.h, v) {
						k = kn.text
					}
				}
				if k != "" {
					findings[k] = true
					continue
				}
				if byLabel[v.Label] == nil {
					labels = append(labels, v.Label)
				}
				byLabel[v.Label] = append(byLabel[v.Label], v)
			}
			sort.Strings(labels)
			for _, l := range labels {
				if len(confirmed) >= 3 {
					break
				}
				vs := spread(byLabel[l], 8)
				okv := false
				last := ""
				for _, v := range vs {
					replays++
					var yes bool
					var how string
					if harnesses[j.h].replay == "engine" {
						yes, how = engineReplay(p, j, v, tier)
					} else {
						warm.Wait()
						yes, how = nat.replay(j, v)
						if !yes && strings.Contains(how, "native build failed") {
							yes, how = engineReplay(p, j, v, tier)
						}
					}
					last = how
					if yes {
						confirmed = append(confirmed, replayFile{o.prop, j.h, l, tier, v.Assign, v.Note,
							"/verif/bin/gosym replay <this file>", how})
						okv = true
						break
					}
				}
				if !okv {
					note("%s: %q has %d counterexample(s) in the encoding that did not reproduce on the real code (%s): not reported", j.h, l, len(byLabel[l]), firstLine(last))
					disagree = append(disagree, j.h+": "+l)
				}
			}
			if len(confirmed) > 0 {
				break
			}
		}
		// translation check: the sampled paths have to agree with the real code
		if len(confirmed) == 0 && needNative {
			warm.Wait()
			if nat.err != nil {
				note("native replay not available: %v", nat.err)
			} else {
				for _, r := range results {
					m := harnesses[r.Harness]
					if m.replay == "engine" {
						continue
					}
					n := 3
					if manySamples > 0 {
						n = len(r.Samples)
					}
					if tier == 1 {
						n = 8
					}
					for k, s := range r.Samples {
						if k >= n {
							break
						}
						if s.Kind != "ok" {
							continue
						}
						bad, how := nat.validate(r.Harness, s)
						if bad == "" {
							validated++
						} else if len(bad) > 4 && bad[0] == 'C' && bad[3] == ':' && !strings.HasPrefix(bad, o.prop+":") {
							// another property's assertion, which this check does not decide
						} else {
							note("%s: sampled path disagrees with the real code: %s %s (%v)", r.Harness, bad, firstLine(how), s.Assign)
							disagree = append(disagree, r.Harness+": "+bad)
						}
					}
				}
			}
		}
	} else {
		exhaust = false
	}

	// evidence
	cov := map[string]any{}
	var states, trans int64
	funcs := map[string]bool{}
	var queries, sat, unsat, unk int
	var solverS float64
	var asserts int64
	var per []any
	var samples []any
	for _, r := range results {
		states += r.Paths
		trans += r.Blocks
		queries += r.Queries
		sat += r.Sat
		unsat += r.Unsat
		unk += r.Unknown
		solverS += r.SolverS
		for _, f := range r.Funcs {
			funcs[f] = true
		}
		for _, l := range r.Labels {
			asserts += int64(l.Checks)
		}
		per = append(per, map[string]any{"harness": r.Harness, "bounds": harnesses[r.Harness].bounds, "paths": r.Paths, "outcomes": r.Outcomes,
			"assertions": r.Labels, "witnesses": r.Covers, "queries": r.Queries, "sat": r.Sat, "unsat": r.Unsat, "unknown": r.Unknown,
			"solver_seconds": round3(r.SolverS), "wall_seconds": round3(r.WallS), "symbolic_branches": r.Branches, "complete": !r.Truncated})
		for k, s := range r.Samples {
			if k < 2 {
				samples = append(samples, map[string]any{"harness": r.Harness, "assignment": s.Assign, "outcome": s.Kind})
			}
		}
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	if samples == nil {
		samples = []any{}
	}
	cov["states"] = states
	cov["transitions"] = trans
	cov["traces_validated_against_impl"] = validated
	cov["samples"] = samples
	cov["explanation"] = "states: symbolic paths run to their end, each standing for all values of its path condition; transitions: SSA blocks of the real code executed on them; every branch on symbolic data and every assertion not decided by propagation is a solver query"
	cov["exhaustive"] = exhaust && dropped == 0 && len(results) == len(jobs)
	cov["harnesses"] = per
	cov["functions_encoded"] = fl
	cov["queries"] = queries
	cov["queries_sat"] = sat
	cov["queries_unsat"] = unsat
	cov["queries_unknown"] = unk
	cov["solver_seconds"] = round3(solverS)
	cov["solver"] = o.solver
	cov["assertion_instances"] = asserts
	cov["load_seconds"] = round3(loadS)
	cov["counterexamples_replayed"] = replays
	cov["disagreements"] = disagree
	cov["notes"] = notes
	ev["property"] = o.prop
	ev["tier"] = o.tier
	ev["seed"] = o.seed
	ev["level"] = "model_checking"
	ev["coverage"] = cov
	ev["assumptions"] = assumptions(pc)
	ev["violations"] = len(confirmed)

	os.MkdirAll(filepath.Join(o.verif, "evidence", "replay"), 0755)
	for i, c := range confirmed {
		path := filepath.Join(o.verif, "evidence", "replay", fmt.Sprintf("%s-%d.json", o.prop, i+1))
		b, _ := json.MarshalIndent(c, "", " ")
		os.WriteFile(path, append(b, '\n'), 0644)
		fmt.Printf("%s: %s violated: %s (%s)\n", o.prop, c.Harness, c.Label, firstLine(c.Native))
		fmt.Printf("VIOLATION property=%s replay=%s\n", o.prop, path)
	}
	var ks []string
	for k := range findings {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", o.prop, k)
	}
	ev["wall_s"] = round3(time.Since(t0).Seconds())
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(o.verif, "evidence", o.prop+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Printf("%s %s: %d paths, %d assertion instances, %d queries (%d unsat), solver %.1fs, %d native validations, wall %.1fs\n",
		o.prop, o.tier, states, asserts, queries, unsat, solverS, validated, time.Since(t0).Seconds())
	if len(confirmed) > 0 {
		return 1
	}
	return 0
}

func round3(x float64) float64 { return float64(int64(x*1000+0.5)) / 1000 }

// spread picks up to n violations, evenly over the list.
func spread(v []violation, n int) []violation {
	if len(v) <= n {
		return v
	}
	var out []violation
	for i := 0; i < n; i++ {
		out = append(out, v[i*len(v)/n])
	}
	return out
}

// engineReplay runs the harness on the one concrete assignment.
func engineReplay(p *program, j job, v violation, tier int) (bool, string) {
	save := p.cfg.fixed
	p.cfg.fixed = v.Assign
	defer func() { p.cfg.fixed = save }()
	r, err := runHarness(p, j.h, runOpts{workers: 1, budget: time.Minute, implicit: j.implicit, want: func(l string) bool { return l == v.Label }})
	if err != nil {
		return false, err.Error()
	}
	for _, x := range r.Viol {
		if x.Label == v.Label {
			return true, "reproduced by concrete execution of the program's SSA form under the recorded schedule"
		}
	}
	return false, "not reproduced"
}

// ---- native replay

type nativeRunner struct {
	repo, verif, tmp, prop string
	tier                   int
	err                    error
	bins                   map[string]string
	scratch                string
	cli                    string
	goroot                 string
	gen                    map[string]string
}

func (n *nativeRunner) cleanup() {
	if n.scratch != "" {
		os.RemoveAll(n.scratch)
	}
}

const nobody = 65534

func goEnv(extra ...string) []string {
	return append(os.Environ(), append([]string{"GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "CGO_ENABLED=0"}, extra...)...)
}

// build makes one test binary per harness package, against the real sources and
// with a stand-in for the plugin loader.
func (n *nativeRunner) build(hs []string) {
	n.bins = map[string]string{}
	byPkg := map[string]map[string]bool{}
	for _, h := range hs {
		if harnesses[h].replay == "engine" {
			continue
		}
		i := strings.LastIndexByte(h, '.')
		if byPkg[h[:i]] == nil {
			byPkg[h[:i]] = map[string]bool{}
		}
		byPkg[h[:i]][h[i+1:]] = true
	}
	ov, err := overlayFiles(n.repo, filepath.Join(n.verif, "harness"), true, n.gen)
	if err != nil {
		n.err = err
		return
	}
	goroot := strings.TrimSpace(out("go", "env", "GOROOT"))
	n.goroot = goroot
	n.scratch, err = os.MkdirTemp("", "gosym-native")
	if err != nil {
		n.err = err
		return
	}
	os.Chmod(n.scratch, 0755)
	for pkg, fns := range byPkg {
		rep := map[string]string{}
		for k, v := range ov {
			rep[k] = v
		}
		rep[filepath.Join(goroot, "src/plugin/plugin.go")] = filepath.Join(n.verif, "harness/std/plugin.go.txt")
		rep[filepath.Join(goroot, "src/plugin/plugin_dlopen.go")] = ""
		rep[filepath.Join(goroot, "src/plugin/plugin_stubs.go")] = ""
		var names []string
		for f := range fns {
			names = append(names, f)
		}
		sort.Strings(names)
		var sb strings.Builder
		fmt.Fprintf(&sb, "package %s\n\nvar zzHarnesses = map[string]func(){\n", pkg)
		for _, f := range names {
			fmt.Fprintf(&sb, "\t%q: %s,\n", f, f)
		}
		sb.WriteString("}\n")
		reg := filepath.Join(n.tmp, pkg+"_reg.go")
		os.WriteFile(reg, []byte(sb.String()), 0644)
		tst, err := os.ReadFile(filepath.Join(n.verif, "harness/std/replay_test.go.txt"))
		if err != nil {
			n.err = err
			return
		}
		tf := filepath.Join(n.tmp, pkg+"_replay_test.go")
		os.WriteFile(tf, []byte(strings.ReplaceAll(string(tst), "package PKG", "package "+pkg)), 0644)
		rep[filepath.Join(n.repo, "zzverif", pkg, "zz_reg_test.go")] = reg
		rep[filepath.Join(n.repo, "zzverif", pkg, "zz_replay_test.go")] = tf
		oj := filepath.Join(n.tmp, pkg+"_overlay.json")
		b, _ := json.Marshal(map[string]any{"Replace": rep})
		os.WriteFile(oj, b, 0644)
		bin := filepath.Join(n.scratch, pkg+".test")
		c := exec.Command("go", "test", "-c", "-vet=off", "-trimpath", "-modfile="+filepath.Join(n.tmp, "go.mod"), "-overlay", oj, "-o", bin, "./zzverif/"+pkg)
		c.Dir = n.repo
		c.Env = goEnv()
		if o, err := c.CombinedOutput(); err != nil {
			n.err = fmt.Errorf("native build failed: %v: %s", err, o)
			return
		}
		os.Chmod(bin, 0755)
		n.bins[pkg] = bin
		if pkg == "cli" {
			n.cli = filepath.Join(n.scratch, "hotswap")
			c := exec.Command("go", "build", "-trimpath", "-modfile="+filepath.Join(n.tmp, "go.mod"), "-o", n.cli, "./cli/hotswap")
			c.Dir = n.repo
			c.Env = goEnv()
			if o, err := c.CombinedOutput(); err != nil {
				n.err = fmt.Errorf("native build failed: %v: %s", err, o)
				return
			}
			os.Chmod(n.cli, 0755)
		}
	}
}

func out(name string, arg ...string) string {
	b, _ := exec.Command(name, arg...).Output()
	return string(b)
}

var seq int

// exec runs a harness natively on an assignment; it returns the labels that failed.
func (n *nativeRunner) exec(h string, assign map[string]uint64, label string, repeat int) (failed []string, crashed bool, text string) {
	if n.err != nil {
		return nil, false, n.err.Error()
	}
	i := strings.LastIndexByte(h, '.')
	pkg, fn := h[:i], h[i+1:]
	seq++
	dir := filepath.Join(n.scratch, "run"+strconv.Itoa(seq))
	os.MkdirAll(dir, 0755)
	defer os.RemoveAll(dir)
	work := filepath.Join(dir, "work")
	os.MkdirAll(work, 0755)
	os.Chown(work, nobody, nobody)
	req, _ := json.Marshal(map[string]any{"Harness": fn, "Assign": assign, "Label": label, "Prop": n.prop, "Tier": n.tier, "Repeat": repeat, "Dir": work, "CLI": n.cli})
	rf := filepath.Join(dir, "request.json")
	os.WriteFile(rf, req, 0644)
	c := exec.Command("timeout", "-k", "5", "60", n.bins[pkg], "-test.run", "^TestReplay$", "-test.timeout", "55s")
	c.Dir = work
	c.Env = []string{"VERIF_REPLAY=" + rf, "HOME=" + work, "TMPDIR=" + work, "PATH=" + os.Getenv("PATH"), "TZ=UTC", "VERIF_GOROOT=" + n.goroot}
	c.SysProcAttr = asNobody()
	o, err := c.CombinedOutput()
	text = string(o)
	for _, l := range strings.Split(text, "\n") {
		if x, ok := strings.CutPrefix(l, "FAILED "); ok {
			failed = append(failed, x)
		}
	}
	crashed = err != nil
	return
}

func (n *nativeRunner) replay(j job, v violation) (bool, string) {
	m := harnesses[j.h]
	rep := m.repeat
	if rep == 0 {
		rep = 60
	}
	failed, crashed, text := n.exec(j.h, v.Assign, v.Label, rep)
	for _, f := range failed {
		if f == v.Label {
			return true, "reproduced natively: " + f
		}
	}
	if v.Label == j.implicit && crashed && !strings.Contains(text, "native build failed") {
		return true, "reproduced natively: the process crashed, hung or deadlocked\n" + tail(text, 1500)
	}
	return false, tail(text, 600)
}

// validate runs a sampled path natively; no assertion may fail there.
func (n *nativeRunner) validate(h string, s sample) (string, string) {
	failed, crashed, text := n.exec(h, s.Assign, "", 1)
	if len(failed) > 0 {
		return failed[0], tail(text, 600)
	}
	if crashed {
		return "crash", tail(text, 600)
	}
	return "", ""
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// runReplay replays a recorded counterexample; it exits 1 if it reproduces.
func runReplay(o checkOpts, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Println(err)
		return 2
	}
	tmp, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(tmp)
	setupIntrinsics()
	cfg := &config{maxSteps: 30_000_000, maxDepth: 400, solverBin: o.solver, tier: rf.Tier, prop: rf.Property}
	if err := prepare(o.repo, o.verif, tmp, []string{rf.Harness}, cfg); err != nil {
		fmt.Println(err)
		return 1
	}
	p, err := loadProgram(o.repo, filepath.Join(o.verif, "harness"), tmp, harnessPatterns(rf.Harness), cfg)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	j := job{rf.Harness, rf.Property + ":crash, deadlock or endless run"}
	v := violation{Label: rf.Label, Assign: rf.Assign}
	yes, how := false, ""
	if harnesses[rf.Harness].replay != "engine" {
		nat := &nativeRunner{repo: o.repo, verif: o.verif, tmp: tmp, tier: rf.Tier, prop: rf.Property, gen: cfg.gen}
		defer nat.cleanup()
		nat.build([]string{rf.Harness})
		failed, crashed, text := nat.exec(rf.Harness, rf.Assign, rf.Label, max(harnesses[rf.Harness].repeat, 60))
		fmt.Println("native:", failed, "crashed:", crashed)
		fmt.Println(text)
		yes, how = nat.replay(j, v)
	}
	if !yes {
		yes, how = engineReplay(p, j, v, rf.Tier)
	}
	fmt.Println(yes, how)
	if yes {
		return 1
	}
	return 0
}
