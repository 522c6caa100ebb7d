package main

// Command line: gosym run|replay|list.

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type HarnessSpec struct {
	Pkg       string    `json:"pkg"` // below zzverif/, or a repository package when it starts with pkg/
	Func      string    `json:"func"`
	Quick     [][]int64 `json:"quick"`
	Thorough  [][]int64 `json:"thorough"`
	Bound     string    `json:"bound"`
	Native    bool      `json:"native"`   // counterexamples and samples are replayed with the go toolchain
	FakeTime  bool      `json:"faketime"` // ... with the clock of the repository package replaced
	Rounding  bool      `json:"rounding"` // floats are encoded as reals, so a native replay may differ
	Decisions int       `json:"decisions"`
	Events    int       `json:"events"`
	Steps     int64     `json:"steps"`
	Livelock  int       `json:"livelock"`
	Conc      int       `json:"conc"`
	FullSched bool      `json:"fullsched"`
	SolverMS  int       `json:"solver_ms"`
	QuickS    int       `json:"quick_s"`
	ThoroughS int       `json:"thorough_s"`
	OnlyTier  string    `json:"tier"`
}

type Spec struct {
	Property    string        `json:"property"`
	Level       string        `json:"level"`
	Models      []string      `json:"models"`
	Harnesses   []HarnessSpec `json:"harnesses"`
	Assumptions []string      `json:"assumptions"`
	Outside     string        `json:"outside"`
}

var (
	verifDir = envOr("VERIF_DIR", "/verif")
	repoDir  = envOr("VERIF_REPO", "/repo")
)

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "gosym: "+f+"\n", a...)
	os.Exit(2)
}

// isHarnessPath says whether a file below the repository's import path was
// put there by the overlay.
func isHarnessPath(f string) bool {
	return strings.Contains(f, "/zzverif/") || strings.HasPrefix(filepath.Base(f), "zz_verif_")
}

// overlayFiles maps harness sources to the places they take in /repo.
func overlayFiles() map[string]string {
	m := map[string]string{}
	root := filepath.Join(verifDir, "harness")
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		switch {
		case strings.HasPrefix(rel, "zz/"):
			m[filepath.Join(repoDir, "zzverif", rel[3:])] = p
		case strings.HasPrefix(rel, "in/"):
			r := rel[3:]
			m[filepath.Join(repoDir, filepath.Dir(r), "zz_verif_"+filepath.Base(r))] = p
		}
		return nil
	})
	return m
}

func (h *HarnessSpec) importPath() string {
	if strings.HasPrefix(h.Pkg, "pkg/") || strings.HasPrefix(h.Pkg, "cmd/") {
		return repoModule + "/" + h.Pkg
	}
	return repoModule + "/zzverif/" + h.Pkg
}

func goEnv() []string {
	env := os.Environ()
	env = append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0", "GOSUMDB=off", "GONOSUMDB=*", "GOWORK=off")
	return env
}

// scratch is a directory for this run's temporary files.
func scratch() string {
	d, err := os.MkdirTemp("", "gosym-")
	if err != nil {
		fatal("%v", err)
	}
	return d
}

func modfile(dir string) string {
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repoDir, f))
		if err != nil {
			fatal("%v", err)
		}
		if err := os.WriteFile(filepath.Join(dir, f), b, 0o644); err != nil {
			fatal("%v", err)
		}
	}
	return filepath.Join(dir, "go.mod")
}

func readSpec(id string) *Spec {
	b, err := os.ReadFile(filepath.Join(verifDir, "specs", id+".json"))
	if err != nil {
		fatal("%v", err)
	}
	var s Spec
	if err := json.Unmarshal(b, &s); err != nil {
		fatal("spec %s: %v", id, err)
	}
	return &s
}

type knownEntry struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Label    string `json:"label"`
	Where    string `json:"where"`
	What     string `json:"what"`
	Fixed    string `json:"fixed"`
}

func readKnown() []knownEntry {
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.json"))
	if err != nil {
		return nil
	}
	var k struct {
		Findings []knownEntry `json:"findings"`
	}
	if err := json.Unmarshal(b, &k); err != nil {
		fatal("known_findings.json: %v", err)
	}
	return k.Findings
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: gosym run|replay ...")
	}
	switch os.Args[1] {
	case "run":
		os.Exit(cmdRun(os.Args[2:]))
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	}
	fatal("unknown command %s", os.Args[1])
}

type runCtx struct {
	spec  *Spec
	tier  string
	prog  *Program
	tmp   string
	files map[string]string
	loadS float64
}

func load(spec *Spec, tmp string, extra []HarnessSpec) *runCtx {
	t0 := time.Now()
	ctx := &runCtx{spec: spec, tmp: tmp, files: overlayFiles()}
	overlay := map[string][]byte{}
	pats := map[string]bool{symPkg: true, "runtime": true}
	hs := spec.Harnesses
	if extra != nil {
		hs = extra
	}
	for i := range hs {
		pats[hs[i].importPath()] = true
	}
	modelPkgs := map[string]bool{}
	for _, m := range spec.Models {
		pats[repoModule+"/zzverif/"+m] = true
		modelPkgs[repoModule+"/zzverif/"+m] = true
	}
	for dst, src := range ctx.files {
		b, err := os.ReadFile(src)
		if err != nil {
			fatal("%v", err)
		}
		// in-package harness files only for packages that are asked for
		if !strings.Contains(dst, "/zzverif/") {
			rel, _ := filepath.Rel(repoDir, filepath.Dir(dst))
			if !pats[repoModule+"/"+rel] && !strings.HasPrefix(filepath.Base(dst), "zz_verif_export") {
				continue
			}
		}
		overlay[dst] = b
	}
	var ps []string
	for p := range pats {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	prog, err := loadProgram(repoDir, goEnv(), modfile(tmp), overlay, ps, modelPkgs)
	if err != nil {
		fatal("%v", err)
	}
	ctx.prog = prog
	ctx.loadS = time.Since(t0).Seconds()
	return ctx
}

func seedEnv() int {
	n, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return n
}

type harnessResult struct {
	spec   *HarnessSpec
	args   []int64
	e      *Explorer
	wall   float64
	viol   []*Violation
	labels []string // reached assertion labels
	missed []string // labels and covers in the harness never reached
}

func (ctx *runCtx) config(h *HarnessSpec, tier string, workers int) Config {
	c := Config{MaxSteps: 20_000_000, MaxDecisions: 4000, MaxConc: 64, MaxEvents: 400, MaxPaths: 50_000_000, Livelock: 60,
		DPOR: !h.FullSched, Workers: workers, SolverMS: 20000, Solver: []string{"z3-new", "-in"}, Solver2: []string{"z3", "-in"}, StopFirst: true}
	if h.Decisions > 0 {
		c.MaxDecisions = h.Decisions
	}
	if h.Events > 0 {
		c.MaxEvents = h.Events
	}
	if h.Steps > 0 {
		c.MaxSteps = h.Steps
	}
	if h.Livelock > 0 {
		c.Livelock = h.Livelock
	}
	if h.Conc > 0 {
		c.MaxConc = h.Conc
	}
	if h.SolverMS > 0 {
		c.SolverMS = h.SolverMS
	}
	c.NoInts = os.Getenv("GOSYM_NOINTS") != ""
	if s := envOr("GOSYM_SOLVER", ""); s != "" {
		c.Solver = strings.Fields(s)
	}
	return c
}

func (ctx *runCtx) entry(h *HarnessSpec) *ssa.Function {
	pkg := ctx.prog.pkgs[h.importPath()]
	if pkg == nil {
		fatal("package %s not loaded", h.importPath())
	}
	fn := pkg.Func(h.Func)
	if fn == nil {
		fatal("no function %s in %s", h.Func, h.importPath())
	}
	return fn
}

func cmdRun(args []string) int {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	tier := fs.String("tier", envOr("VERIF_TIER", "quick"), "quick or thorough")
	only := fs.String("only", "", "only this harness function")
	argsF := fs.String("args", "", "override harness arguments (comma separated)")
	debug := fs.Bool("debug", false, "")
	verbose := fs.Bool("v", false, "")
	workers := fs.Int("workers", runtime.NumCPU(), "")
	full := fs.Bool("full", false, "full interleaving exploration (no partial-order reduction)")
	all := fs.Bool("all", false, "do not stop at the first violation")
	budget := fs.Int("budget", 0, "seconds per harness")
	noNative := fs.Bool("no-native", false, "")
	prof := fs.String("cpuprofile", "", "")
	fs.Parse(args)
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	t0 := time.Now()
	spec := readSpec(*prop)
	tmp := scratch()
	defer os.RemoveAll(tmp)
	var sel []HarnessSpec
	for _, h := range spec.Harnesses {
		if *only != "" && h.Func != *only {
			continue
		}
		if h.OnlyTier != "" && h.OnlyTier != *tier && *only == "" {
			continue
		}
		sel = append(sel, h)
	}
	ctx := load(spec, tmp, sel)
	ctx.tier = *tier
	known := readKnown()
	stats := &SolverStats{}
	var results []*harnessResult
	exit := 0
	var knownSeen []string
	knownPrinted := map[string]bool{}
	evd := newEvidence(spec, *tier)
	for i := range sel {
		h := &sel[i]
		fn := ctx.entry(h)
		sets := h.Quick
		if *tier == "thorough" && h.Thorough != nil {
			sets = h.Thorough
		}
		if sets == nil {
			sets = [][]int64{{}}
		}
		if *argsF != "" {
			sets = [][]int64{{}}
			for _, s := range strings.Split(*argsF, ",") {
				n, _ := strconv.ParseInt(s, 10, 64)
				sets[0] = append(sets[0], n)
			}
		}
		for _, as := range sets {
			cfg := ctx.config(h, *tier, *workers)
			cfg.Debug = *debug
			if *debug {
				cfg.Workers = 1
			}
			if *full {
				cfg.DPOR = false
			}
			cfg.StopFirst = !*all
			secs := h.QuickS
			if *tier == "thorough" {
				secs = h.ThoroughS
				if secs == 0 {
					secs = 600
				}
			} else if secs == 0 {
				secs = 120
			}
			if *budget > 0 {
				secs = *budget
			}
			cfg.Deadline = time.Now().Add(time.Duration(secs) * time.Second)
			total := 600 // seconds for all harnesses of a quick check
			if *tier == "thorough" {
				total = 5400
			}
			if end := t0.Add(time.Duration(total) * time.Second); cfg.Deadline.After(end) && *budget == 0 {
				cfg.Deadline = end
			}
			name := h.Func + argStr(as)
			e := newExplorer(ctx.prog, fn, name, cfg, stats)
			for _, a := range as {
				e.args = append(e.args, a)
			}
			if len(e.args) != len(fn.Params) {
				fatal("%s takes %d arguments, spec gives %v", h.Func, len(fn.Params), as)
			}
			e.known = func(label, where string) bool { return matchKnown(known, spec.Property, h.Func, label, where) != nil }
			e.maxRec = 0
			if h.Native {
				e.maxRec = 12
			}
			th := time.Now()
			e.run()
			r := &harnessResult{spec: h, args: as, e: e, wall: time.Since(th).Seconds()}
			results = append(results, r)
			for _, v := range sortViol(e.viol) {
				if k := matchKnown(known, spec.Property, h.Func, v.Label, v.Where); k != nil {
					line := fmt.Sprintf("KNOWN-FINDING: property=%s %s", spec.Property, k.What)
					if !knownPrinted[line] {
						knownPrinted[line] = true
						fmt.Println(line)
					}
					knownSeen = append(knownSeen, k.What)
					continue
				}
				conf := ctx.confirm(h, as, v, !*noNative)
				if conf == "refuted" {
					e.notes["counterexample for "+v.Label+" did not reproduce natively: not reported"]++
					fmt.Printf("UNCONFIRMED %s %s %s\n", name, v.Label, v.Msg)
					for _, in := range v.Inputs {
						fmt.Printf("  %s %s = %s\n", in.Kind, in.Label, in.Val)
					}
					continue
				}
				path := ctx.writeReplay(h, as, v, conf)
				exit = 1
				r.viol = append(r.viol, v)
				fmt.Printf("VIOLATION property=%s replay=%s\n", spec.Property, path)
				fmt.Printf("  harness %s: %s: %s (replay: %s)\n  at %s\n", name, v.Label, v.Msg, conf, v.Where)
				for _, in := range v.Inputs {
					fmt.Printf("  input %s %s = %s\n", in.Kind, in.Label, in.Val)
				}
				if *verbose || *debug {
					for _, t := range v.Trace {
						fmt.Println("  | " + t)
					}
				}
			}
			if *verbose || *only != "" {
				if os.Getenv("GOSYM_COVERS") != "" {
					var cs []string
					for c := range e.covers {
						cs = append(cs, c)
					}
					sort.Strings(cs)
					fmt.Printf("covers %s: %d %v\n", name, len(cs), cs)
				}
				fmt.Printf("%s: %.1fs paths=%d %v asserts=%d events=%d decisions=%d maxdepth=%d\n", name, r.wall, e.paths, statMap(e), e.asserts, e.events, e.decs, e.maxDepth)
				for _, n := range sortedNotes(e.notes) {
					fmt.Println("   note:", n)
				}
				if e.timeout {
					fmt.Println("   note: budget exhausted, paths left:", len(e.work))
				}
			}
			if exit == 1 && !*all {
				break
			}
		}
		if exit == 1 && !*all {
			break
		}
	}
	missed := ctx.vacuity(results)
	for _, m := range missed {
		fmt.Println("note: never reached:", m)
	}
	// native validation of sampled passing executions
	if exit == 0 && !*noNative {
		ctx.validate(results, evd)
	}
	if *only == "" {
		evd.write(ctx, results, stats, missed, knownSeen, time.Since(t0).Seconds())
	}
	n := 0
	for _, r := range results {
		n += len(r.viol)
	}
	var paths, asserts int64
	reduced := 0
	for _, r := range results {
		paths += r.e.paths
		asserts += r.e.asserts
		if len(r.e.notes) > 0 || r.e.timeout {
			reduced++
		}
	}
	fmt.Printf("%s %s: %d harness runs, %d paths, %d assertion checks, %d solver queries (%.1fs), %d violations, %d runs with a reduced bound, traces validated %d, load %.1fs, wall %.1fs\n",
		spec.Property, *tier, len(results), paths, asserts, atomic.LoadInt64(&stats.queries), float64(atomic.LoadInt64(&stats.nanos))/1e9, n, reduced, evd.validated, ctx.loadS, time.Since(t0).Seconds())
	for _, r := range results {
		for _, s := range sortedNotes(r.e.notes) {
			fmt.Printf("  reduced bound in %s: %s\n", r.e.name, s)
		}
		if r.e.timeout {
			fmt.Printf("  reduced bound in %s: time budget, %d open branches\n", r.e.name, len(r.e.work))
		}
	}
	return exit
}

func argStr(as []int64) string {
	var s []string
	for _, a := range as {
		s = append(s, fmt.Sprint(a))
	}
	return "(" + strings.Join(s, ",") + ")"
}

func statMap(e *Explorer) string {
	var s []string
	for i, n := range e.byStat {
		if n > 0 {
			s = append(s, fmt.Sprintf("%s:%d", status(i), n))
		}
	}
	return strings.Join(s, " ")
}

func sortViol(m map[string]*Violation) []*Violation {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []*Violation
	for _, k := range ks {
		out = append(out, m[k])
	}
	return out
}

func matchKnown(ks []knownEntry, prop, harness, label, where string) *knownEntry {
	for i := range ks {
		k := &ks[i]
		if k.Fixed != "" || k.Property != prop || k.Harness != harness || k.Label != label {
			continue
		}
		if k.Where != "" && !strings.Contains(where, k.Where) {
			continue
		}
		return k
	}
	return nil
}

type replayFile struct {
	Property string      `json:"property"`
	Harness  HarnessSpec `json:"harness"`
	Args     []int64     `json:"args"`
	Label    string      `json:"label"`
	Msg      string      `json:"msg"`
	Where    string      `json:"where"`
	Inputs   []InputVal  `json:"inputs"`
	Schedule []string    `json:"schedule"`
	Confirm  string      `json:"confirmation"`
	Prefix   []jsonDec   `json:"decisions"`
}

type jsonDec struct {
	K string   `json:"k"`
	V int64    `json:"v"`
	F bool     `json:"f,omitempty"`
	G string   `json:"g,omitempty"`
	S []string `json:"s,omitempty"`
}

func (ctx *runCtx) writeReplay(h *HarnessSpec, as []int64, v *Violation, conf string) string {
	dir := filepath.Join(verifDir, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	rf := replayFile{Property: ctx.spec.Property, Harness: *h, Args: as, Label: v.Label, Msg: v.Msg, Where: v.Where, Inputs: v.Inputs, Schedule: v.Trace, Confirm: conf}
	for _, d := range v.Prefix {
		rf.Prefix = append(rf.Prefix, jsonDec{string(d.kind), d.val, d.forced, d.gid, nil})
	}
	b, _ := json.MarshalIndent(rf, "", " ")
	hs := sha256.Sum256([]byte(h.Func + v.Label))
	path := filepath.Join(dir, ctx.spec.Property+"-"+hex.EncodeToString(hs[:4])+".json")
	os.WriteFile(path, b, 0o644)
	return path
}

// confirm re-executes a counterexample: with the go toolchain where the
// harness runs natively, otherwise the counterexample's model already came
// from an execution of the real code's SSA under exactly that schedule, and
// it is re-executed once more from its recorded decisions.
func (ctx *runCtx) confirm(h *HarnessSpec, as []int64, v *Violation, native bool) string {
	if h.Native && native {
		res := ctx.nativeRun(h, as, [][]InputVal{v.Inputs})
		if len(res) == 1 {
			r := res[0]
			switch {
			case r.Err != "":
				return "native replay failed to run: " + r.Err
			case r.Label == v.Label:
				return "reproduced natively"
			case r.Label != "":
				return "native replay fails with " + r.Label
			case h.Rounding:
				return "engine (native float rounding differs)"
			}
			return "refuted"
		}
	}
	ok := ctx.engineReplay(h, as, v)
	if ok {
		return "re-executed in the engine"
	}
	return "engine re-execution diverged"
}

func (ctx *runCtx) engineReplay(h *HarnessSpec, as []int64, v *Violation) bool {
	fn := ctx.entry(h)
	cfg := ctx.config(h, ctx.tier, 1)
	st := &SolverStats{}
	e := newExplorer(ctx.prog, fn, h.Func, cfg, st)
	for _, a := range as {
		e.args = append(e.args, a)
	}
	e.replayMode = true
	w := newWorker(e)
	defer w.slv.close()
	w.runPath(&workItem{prefix: v.Prefix})
	_, ok := e.viol[v.Label]
	return ok
}

func cmdReplay(args []string) int {
	if len(args) < 1 {
		fatal("usage: gosym replay FILE")
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		fatal("%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fatal("%v", err)
	}
	spec := readSpec(rf.Property)
	tmp := scratch()
	defer os.RemoveAll(tmp)
	ctx := load(spec, tmp, []HarnessSpec{rf.Harness})
	ctx.tier = "quick"
	fmt.Printf("%s %s: %s\n", rf.Harness.Func, rf.Label, rf.Msg)
	for _, in := range rf.Inputs {
		fmt.Printf("  input %s %s = %s\n", in.Kind, in.Label, in.Val)
	}
	for _, s := range rf.Schedule {
		fmt.Println("  |", s)
	}
	if rf.Harness.Native {
		for _, r := range ctx.nativeRun(&rf.Harness, rf.Args, [][]InputVal{rf.Inputs}) {
			fmt.Printf("native: label=%q msg=%q err=%q\n", r.Label, r.Msg, r.Err)
			if r.Label != "" {
				return 1
			}
		}
		return 0
	}
	v := &Violation{Label: rf.Label}
	for _, d := range rf.Prefix {
		v.Prefix = append(v.Prefix, Decision{kind: d.K[0], val: d.V, forced: d.F, gid: d.G})
	}
	if ctx.engineReplay(&rf.Harness, rf.Args, v) {
		fmt.Println("engine: violation reproduced")
		return 1
	}
	fmt.Println("engine: no violation")
	return 0
}

var _ = exec.Command
