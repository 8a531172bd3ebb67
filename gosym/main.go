package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type runResult struct {
	Harness   string                `json:"harness"`
	Paths     int64                 `json:"paths"`
	Outcomes  map[string]int        `json:"outcomes"`
	Msgs      map[string]string     `json:"messages,omitempty"`
	Notes     map[string]int        `json:"notes,omitempty"`
	Labels    map[string]*labelStat `json:"assertions"`
	Covers    map[string]int        `json:"covers"`
	Viol      []violation           `json:"violations,omitempty"`
	ViolN     map[string]int        `json:"violation_counts,omitempty"`
	Asserts   int64                 `json:"assertion_instances"`
	Branches  int64                 `json:"symbolic_branches"`
	Blocks    int64                 `json:"ssa_blocks"`
	Queries   int                   `json:"queries"`
	Sat       int                   `json:"sat"`
	Unsat     int                   `json:"unsat"`
	Unknown   int                   `json:"unknown"`
	SolverS   float64               `json:"solver_seconds"`
	WallS     float64               `json:"wall_seconds"`
	Truncated bool                  `json:"truncated"`
	Funcs     []string              `json:"functions_encoded"`
	Samples   []sample              `json:"samples"`
}

type runOpts struct {
	workers  int
	budget   time.Duration
	maxPaths int64
	implicit string
	want     func(string) bool
	trace    bool
}

func runHarness(p *program, name string, o runOpts) (*runResult, error) {
	fn := p.harnessFunc(name)
	if fn == nil {
		return nil, fmt.Errorf("no harness %s", name)
	}
	t0 := time.Now()
	ex := newExplorer()
	ex.maxViol = 40
	ex.want = o.want
	ex.trace = o.trace
	ex.implicit = o.implicit
	ex.maxPaths = o.maxPaths
	if o.budget > 0 {
		ex.deadline = t0.Add(o.budget)
	}
	ex.push(workItem{})
	ms := make([]*machine, o.workers)
	errs := make([]error, o.workers)
	var wg sync.WaitGroup
	for i := 0; i < o.workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			m, err := newMachine(p, ex)
			if err != nil {
				errs[i] = err
				return
			}
			ms[i] = m
			if err := m.initBase(fn); err != nil {
				errs[i] = err
				return
			}
			ex.worker(m, fn)
		}()
	}
	wg.Wait()
	r := &runResult{Harness: name, Paths: ex.paths.Load(), Outcomes: ex.outcomes, Msgs: ex.msgs, Notes: ex.notes, Labels: ex.labels,
		Covers: ex.covers, Viol: ex.viol, ViolN: ex.violN, Asserts: ex.asserts, Branches: ex.branches, Blocks: ex.steps, Truncated: ex.truncated, Samples: ex.samples}
	seen := map[string]bool{}
	for _, m := range ms {
		if m == nil {
			continue
		}
		st := m.sol.stats
		r.Queries += st.Queries
		r.Sat += st.Sat
		r.Unsat += st.Unsat
		r.Unknown += st.Unknown
		r.SolverS += st.Time.Seconds()
		for f := range m.funcs {
			if !seen[f.name] {
				seen[f.name] = true
				r.Funcs = append(r.Funcs, f.name)
			}
		}
		m.sol.close()
	}
	r.WallS = time.Since(t0).Seconds()
	for _, e := range errs {
		if e != nil {
			return r, e
		}
	}
	return r, nil
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "check" {
		fs := flag.NewFlagSet("check", flag.ExitOnError)
		o := checkOpts{}
		fs.StringVar(&o.repo, "repo", "/repo", "")
		fs.StringVar(&o.verif, "verif", "/verif", "")
		fs.StringVar(&o.prop, "prop", "", "")
		fs.StringVar(&o.tier, "tier", "quick", "")
		fs.StringVar(&o.solver, "solver", "z3", "")
		fs.IntVar(&o.workers, "j", 8, "")
		fs.DurationVar(&o.budget, "budget", 0, "")
		fs.Parse(os.Args[2:])
		o.seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
		if o.budget == 0 {
			o.budget = 8 * time.Minute
			if o.tier == "thorough" {
				o.budget = 12 * time.Minute
			}
		}
		debug.SetGCPercent(700)
		debug.SetMemoryLimit(10 << 30)
		os.Exit(runCheck(o))
	}
	if len(os.Args) > 2 && os.Args[1] == "replay" {
		os.Exit(runReplay(checkOpts{repo: "/repo", verif: "/verif", solver: "z3"}, os.Args[2]))
	}
	var (
		repo    = flag.String("repo", "/repo", "")
		harness = flag.String("harnessdir", "/verif/harness", "")
		run     = flag.String("run", "", "harness function, e.g. root.Static")
		workers = flag.Int("j", 8, "")
		budget  = flag.Duration("budget", 10*time.Minute, "")
		maxP    = flag.Int64("maxpaths", 0, "")
		trace   = flag.Bool("trace", false, "")
		forks   = flag.Bool("forks", false, "count where paths fork")
		verbose = flag.Bool("v", false, "")
		tier    = flag.Int("tier", 0, "")
		prop    = flag.String("prop", "", "")
		impl    = flag.String("implicit", "", "")
		solver  = flag.String("solver", "z3", "")
		prof    = flag.String("cpuprofile", "", "")
		replay  = flag.String("assign", "", "JSON assignment to run concretely")
	)
	flag.Parse()
	debug.SetGCPercent(700)
	debug.SetMemoryLimit(10 << 30)
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	cfg := &config{maxSteps: 20_000_000, maxDepth: 400, solverBin: *solver, tier: *tier, prop: *prop, verbose: *verbose}
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		cfg.fixed = map[string]uint64{}
		if err := json.Unmarshal(b, &cfg.fixed); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	tmp, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	defer os.RemoveAll(tmp)
	setupIntrinsics()
	t0 := time.Now()
	if err := prepare(*repo, filepath.Dir(*harness), tmp, strings.Split(*run, ","), cfg); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	p, err := loadProgram(*repo, *harness, tmp, harnessPatterns(*run), cfg)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fmt.Fprintf(os.Stderr, "loaded in %.1fs\n", time.Since(t0).Seconds())
	if *forks {
		forkSites = map[string]int{}
		defer func() {
			var a []string
			for k := range forkSites {
				a = append(a, k)
			}
			sort.Slice(a, func(i, j int) bool { return forkSites[a[i]] > forkSites[a[j]] })
			for i := 0; i < len(a) && i < 12; i++ {
				fmt.Fprintf(os.Stderr, "%d forks\n%s\n", forkSites[a[i]], a[i])
			}
		}()
	}
	for _, h := range strings.Split(*run, ",") {
		o := runOpts{workers: *workers, budget: *budget, maxPaths: *maxP, implicit: *impl, trace: *trace}
		if *prop != "" {
			o.want = func(l string) bool { return strings.HasPrefix(l, *prop+":") }
		}
		r, err := runHarness(p, h, o)
		if err != nil {
			fmt.Fprintln(os.Stderr, h, err)
		}
		if r != nil {
			b, _ := json.MarshalIndent(r, "", " ")
			fmt.Println(string(b))
		}
	}
}

func harnessPatterns(run string) []string {
	seen := map[string]bool{}
	var out []string
	for _, h := range strings.Split(run, ",") {
		i := strings.LastIndexByte(h, '.')
		if i < 0 {
			continue
		}
		q := modPath + "/zzverif/" + h[:i]
		if !seen[q] {
			seen[q] = true
			out = append(out, q)
			if strings.HasPrefix(h, "cli") {
				out = append(out, modPath+"/cli/hotswap")
			}
		}
	}
	return out
}
