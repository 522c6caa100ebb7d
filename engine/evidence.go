package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type evidence struct {
	spec      *Spec
	tier      string
	validated int
	valNotes  []string
	disagree  int
}

func newEvidence(s *Spec, tier string) *evidence { return &evidence{spec: s, tier: tier} }

// vacuity lists the assertion and cover labels written in reached harness
// code that no completed path reached.
func (ctx *runCtx) vacuity(rs []*harnessResult) []string {
	reached := map[string]bool{}
	byFn := map[*ssa.Function]bool{}
	for _, r := range rs {
		for a := range r.e.asserted {
			reached[a] = true
		}
		for c := range r.e.covers {
			reached["cover "+c] = true
		}
		byFn[r.e.entry] = true
		if r.e.stop && len(r.e.viol) > 0 {
			return nil
		}
	}
	want := map[string]bool{}
	ctx.prog.infos.Range(func(k, v any) bool {
		fi := v.(*fnInfo)
		if !fi.harness || (atomic.LoadInt64(&fi.hits) == 0 && !byFn[fi.fn]) {
			return true
		}
		for _, b := range fi.fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				cal := c.Call.StaticCallee()
				if cal == nil || cal.Pkg == nil || cal.Pkg.Pkg.Path() != symPkg {
					continue
				}
				lab := func(i int) string {
					if k, ok := c.Call.Args[i].(*ssa.Const); ok && k.Value != nil {
						s := constVal(k)
						if s, ok := s.(string); ok {
							return s
						}
					}
					return ""
				}
				switch cal.Name() {
				case "Assert":
					if l := lab(1); l != "" {
						want[l] = true
					}
				case "Cover":
					if l := lab(0); l != "" {
						want["cover "+l] = true
					}
				}
			}
		}
		return true
	})
	var out []string
	for w := range want {
		if !reached[w] {
			out = append(out, w)
		}
	}
	sort.Strings(out)
	return out
}

// validate replays sampled passing executions natively and compares what the
// harness logged with what the encoding computed for the same inputs.
func (ctx *runCtx) validate(rs []*harnessResult, ev *evidence) {
	for _, r := range rs {
		if !r.spec.Native || len(r.e.recs) == 0 {
			continue
		}
		var vecs [][]InputVal
		for _, x := range r.e.recs {
			vecs = append(vecs, x.inputs)
		}
		for i, n := range ctx.nativeRun(r.spec, r.args, vecs) {
			x := r.e.recs[i]
			switch {
			case n.Err != "":
				ev.valNotes = append(ev.valNotes, r.e.name+": "+n.Err)
			case n.Skip:
			case n.Label != "":
				if !r.spec.Rounding {
					ev.disagree++
					ev.valNotes = append(ev.valNotes, fmt.Sprintf("%s: native execution fails %s (%s) on inputs the encoding passes: %v", r.e.name, n.Label, n.Msg, x.inputs))
				}
			default:
				if d := diffLogs(x.logs, n.Logs, r.spec.Rounding); d != "" {
					ev.disagree++
					ev.valNotes = append(ev.valNotes, fmt.Sprintf("%s: native execution logs differ: %s on %v", r.e.name, d, x.inputs))
				} else {
					ev.validated++
				}
			}
		}
	}
	for _, n := range ev.valNotes {
		fmt.Println("note: validation:", n)
	}
}

func diffLogs(a, b []string, rounding bool) string {
	if rounding {
		// branch decisions may differ by rounding; compare while both run
		if len(b) < len(a) {
			a = a[:len(b)]
		}
		if len(a) < len(b) {
			b = b[:len(a)]
		}
	}
	if len(a) != len(b) {
		return fmt.Sprintf("%d entries, natively %d", len(a), len(b))
	}
	for i := range a {
		if a[i] == b[i] {
			continue
		}
		la, va, _ := strings.Cut(a[i], "=")
		lb, vb, _ := strings.Cut(b[i], "=")
		x, e1 := strconv.ParseFloat(va, 64)
		y, e2 := strconv.ParseFloat(vb, 64)
		if la == lb && e1 == nil && e2 == nil && math.Abs(x-y) <= 1e-6*(1+math.Abs(x)) {
			continue
		}
		if rounding {
			continue
		}
		return fmt.Sprintf("%s natively %s", a[i], b[i])
	}
	return ""
}

func (ev *evidence) write(ctx *runCtx, rs []*harnessResult, st *SolverStats, missed, known []string, wall float64) {
	type fnCov struct {
		Function string `json:"function"`
		Calls    int64  `json:"calls"`
		Blocks   string `json:"blocks_reached"`
	}
	var fns []fnCov
	ctx.prog.infos.Range(func(k, v any) bool {
		fi := v.(*fnInfo)
		h := atomic.LoadInt64(&fi.hits)
		if h == 0 || !fi.repo {
			return true
		}
		n := 0
		for i := range fi.blocks {
			if atomic.LoadUint32(&fi.blocks[i].cover) != 0 {
				n++
			}
		}
		fns = append(fns, fnCov{strings.ReplaceAll(fi.name, repoModule+"/", ""), h, fmt.Sprintf("%d/%d", n, len(fi.blocks))})
		return true
	})
	sort.Slice(fns, func(i, j int) bool { return fns[i].Function < fns[j].Function })
	var lib, modelled []string
	ctx.prog.infos.Range(func(k, v any) bool {
		fi := v.(*fnInfo)
		if fi.repo || fi.harness {
			return true
		}
		if fi.model != nil {
			modelled = append(modelled, fi.name)
		}
		if fi.native != nil && fi.pkg != symPkg && fi.pkg != "" {
			lib = append(lib, fi.name)
		}
		return true
	})
	sort.Strings(lib)
	sort.Strings(modelled)
	type hcov struct {
		Harness   string         `json:"harness"`
		Bound     string         `json:"bound"`
		Paths     int64          `json:"paths"`
		Done      int64          `json:"paths_completed"`
		Pruned    int64          `json:"paths_infeasible_or_redundant"`
		Decisions int64          `json:"decisions"`
		Visible   int64          `json:"scheduling_points"`
		Steps     int64          `json:"ssa_instructions"`
		Asserts   map[string]int `json:"assertions_reached"`
		Wall      float64        `json:"wall_s"`
		Reduced   []string       `json:"reduced_bound,omitempty"`
	}
	var hs []hcov
	var paths, decs, steps, asserts, events int64
	var samples []string
	viol := 0
	complete := true
	for _, r := range rs {
		e := r.e
		h := hcov{Harness: e.name, Bound: r.spec.Bound, Paths: e.paths, Done: e.byStat[stDone], Pruned: e.byStat[stInfeasible] + e.byStat[stSleep],
			Decisions: e.decs, Visible: e.events, Steps: e.steps, Asserts: e.asserted, Wall: math.Round(r.wall*100) / 100}
		for _, n := range sortedNotes(e.notes) {
			h.Reduced = append(h.Reduced, n)
		}
		if e.timeout {
			h.Reduced = append(h.Reduced, fmt.Sprintf("time budget exhausted with %d open branches", len(e.work)))
		}
		if len(h.Reduced) > 0 {
			complete = false
		}
		hs = append(hs, h)
		paths += e.paths
		decs += e.decs
		steps += e.steps
		asserts += e.asserts
		events += e.events
		viol += len(r.viol)
		samples = append(samples, e.samples...)
	}
	if len(samples) > 12 {
		samples = samples[:12]
	}
	if len(samples) == 0 {
		samples = []string{"no completed path"}
	}
	cov := map[string]any{
		"states":                        decs,
		"transitions":                   steps,
		"traces_validated_against_impl": ev.validated,
		"samples":                       samples,
		"exhaustive":                    complete && viol == 0,
		"explanation":                   "states = decision points (branches on symbolic conditions, case splits, scheduling choices) on the explored paths; transitions = SSA instructions of the real code and the harness executed symbolically; every assertion is decided by the SMT solver over all values of the symbolic inputs within the stated bounds",
		"paths":                         paths,
		"scheduling_points":             events,
		"assertions_decided":            asserts,
		"queries":                       atomic.LoadInt64(&st.queries),
		"queries_sat":                   atomic.LoadInt64(&st.sat),
		"queries_unsat":                 atomic.LoadInt64(&st.unsat),
		"queries_unknown":               atomic.LoadInt64(&st.unknown),
		"solver_s":                      math.Round(float64(atomic.LoadInt64(&st.nanos))/1e7) / 100,
		"solver":                        strings.Join(ctx.config(&HarnessSpec{}, ev.tier, 1).Solver, " "),
		"functions_encoded":             fns,
		"harnesses":                     hs,
		"environment_modelled":          append(modelled, lib...),
		"outside_the_claim":             ev.spec.Outside,
		"load_s":                        math.Round(ctx.loadS*100) / 100,
		"native_disagreements":          ev.disagree,
	}
	if len(ev.valNotes) > 0 {
		cov["validation_notes"] = ev.valNotes
	}
	if len(missed) > 0 {
		cov["never_reached"] = missed
	}
	if len(known) > 0 {
		cov["known_findings_seen"] = known
	}
	lvl := ev.spec.Level
	if lvl == "" {
		lvl = "model_checking"
	}
	out := map[string]any{"property": ev.spec.Property, "tier": ev.tier, "seed": seedEnv(), "level": lvl, "coverage": cov,
		"assumptions": ev.spec.Assumptions, "wall_s": math.Round(wall*100) / 100, "violations": viol}
	if ev.spec.Assumptions == nil {
		out["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(out, "", " ")
	dir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, ev.spec.Property+".json"), append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
}
