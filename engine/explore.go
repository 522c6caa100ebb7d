package main

// The exploration driver: a shared worklist of decision prefixes processed
// by parallel workers, each with its own solver.

import (
	"fmt"
	"math/big"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Config struct {
	MaxSteps     int64
	MaxDecisions int
	MaxConc      int
	MaxEvents    int
	MaxPaths     int64
	Livelock     int
	DPOR         bool
	Debug        bool
	Trace        bool
	Workers      int
	SolverMS     int
	Solver       []string
	Solver2      []string
	Deadline     time.Time
	StopFirst    bool
	NoInts       bool
}

type workItem struct {
	prefix []Decision
	seed   map[string]mval
	guide  []string // goroutines to run first after the prefix, to reverse a race at once
}

type Violation struct {
	Harness string
	Label   string
	Msg     string
	Where   string
	Inputs  []InputVal
	Trace   []string
	Prefix  []Decision
}

// InputVal is a concrete input of a counterexample.
type InputVal struct {
	Kind  string `json:"kind"`
	Label string `json:"label"`
	Val   string `json:"val"`
	Bytes []byte `json:"bytes,omitempty"`
}

// recExec is a passing execution recorded for native validation.
type recExec struct {
	inputs []InputVal
	logs   []string
}

type Explorer struct {
	prog  *Program
	cfg   Config
	entry *ssa.Function
	name  string
	args  []value

	mu           sync.Mutex
	cond         *sync.Cond
	work         []*workItem
	busy         int
	stop         bool
	stats        *SolverStats
	paths        int64
	byStat       [6]int64
	notes        map[string]int
	covers       map[string]bool
	asserted     map[string]int
	asserts      int64
	viol         map[string]*Violation
	vcount       map[string]int
	known        func(label, where string) bool
	maxRec       int
	recs         []recExec
	events       int64
	steps        int64
	decs         int64
	inits        map[string]bool
	samples      []string
	maxSamp      int
	timeout      bool
	replayMode   bool
	replayPrefix []Decision
	maxDepth     int64
}

func newExplorer(prog *Program, entry *ssa.Function, name string, cfg Config, stats *SolverStats) *Explorer {
	e := &Explorer{prog: prog, cfg: cfg, entry: entry, name: name, stats: stats, notes: map[string]int{}, covers: map[string]bool{},
		asserted: map[string]int{}, viol: map[string]*Violation{}, vcount: map[string]int{}, inits: map[string]bool{}, maxSamp: 3}
	e.cond = sync.NewCond(&e.mu)
	return e
}

func (e *Explorer) add(it *workItem) {
	if e.replayMode {
		return
	}
	e.mu.Lock()
	e.work = append(e.work, it)
	e.mu.Unlock()
	e.cond.Signal()
}

func (e *Explorer) noteInit(s string) {
	e.mu.Lock()
	e.inits[s] = true
	e.mu.Unlock()
}

func (e *Explorer) stackFor(r any) string {
	if e.cfg.Debug {
		return string(debug.Stack())
	}
	return ""
}

// Worker owns a term bank, a solver and the shared stdlib globals.
type Worker struct {
	e       *Explorer
	b       *TermBank
	slv     *Solver
	globals map[*ssa.Global]*value
	inited  map[*ssa.Package]int
}

func (w *Worker) solver(p *Path) *Solver { return w.slv }

func newWorker(e *Explorer) *Worker {
	w := &Worker{e: e, b: newBank(), globals: map[*ssa.Global]*value{}, inited: map[*ssa.Package]int{}}
	w.slv = newSolver(e.cfg.Solver, e.stats, e.cfg.SolverMS)
	if !e.cfg.NoInts {
		w.slv.withInts()
	}
	if len(e.cfg.Solver2) > 0 {
		w.slv.fallback = newSolver(e.cfg.Solver2, e.stats, e.cfg.SolverMS)
	}
	return w
}

func (e *Explorer) run() {
	e.add(&workItem{})
	var wg sync.WaitGroup
	for i := 0; i < e.cfg.Workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := newWorker(e)
			defer w.slv.close()
			for {
				e.mu.Lock()
				for len(e.work) == 0 && e.busy > 0 && !e.stop {
					e.cond.Wait()
				}
				if e.stop || len(e.work) == 0 {
					e.mu.Unlock()
					e.cond.Broadcast()
					return
				}
				it := e.work[len(e.work)-1]
				e.work = e.work[:len(e.work)-1]
				e.busy++
				n := atomic.AddInt64(&e.paths, 1)
				if n > e.cfg.MaxPaths || (!e.cfg.Deadline.IsZero() && time.Now().After(e.cfg.Deadline)) {
					e.timeout = true
					e.stop = true
					atomic.AddInt64(&e.paths, -1)
					e.busy--
					e.mu.Unlock()
					e.cond.Broadcast()
					return
				}
				e.mu.Unlock()
				if w.b.next > 3000000 {
					w.slv.close()
					w = newWorker(e)
				}
				w.runPath(it)
				e.mu.Lock()
				e.busy--
				e.mu.Unlock()
				e.cond.Broadcast()
			}
		}()
	}
	wg.Wait()
}

func (w *Worker) runPath(it *workItem) *Path {
	e := w.e
	p := &Path{w: w, e: e, prog: e.prog, b: w.b, globals: map[*ssa.Global]*value{}, inited: map[*ssa.Package]int{},
		prefix: it.prefix, seed: it.seed, maxStep: e.cfg.MaxSteps, rmemo: map[*Term]*Term{}, side: map[any]any{},
		notes: map[string]bool{}, covers: map[string]bool{}, asserted: map[string]int{}}
	p.opts = pathOpts{race: true, ticks: 2}
	if it.seed != nil || len(it.prefix) == 0 {
		p.model = newModel()
	}
	s := &Sched{p: p, sleep: map[string]bool{}, fin: make(chan struct{}), cells: map[*value]*cellInfo{}, guide: it.guide}
	p.sched = s
	args := e.args
	g := p.spawn(nil, e.entry, args, e.entry.Pos())
	s.ready = nil
	s.mainG = g
	s.cur = g
	g.resume <- struct{}{}
	<-s.fin
	s.wg.Wait()

	e.mu.Lock()
	defer e.mu.Unlock()
	e.byStat[s.status]++
	e.events += int64(len(s.events))
	e.steps += p.steps
	e.decs += int64(len(p.trail))
	e.asserts += int64(p.asserts)
	if int64(len(p.trail)) > e.maxDepth {
		e.maxDepth = int64(len(p.trail))
	}
	for n := range p.notes {
		e.notes[n]++
	}
	if s.status == stBound || s.status == stUnsupported {
		e.notes[s.status.String()+": "+s.msg]++
	}
	if s.status != stInfeasible && s.status != stSleep {
		for c := range p.covers {
			e.covers[c] = true
		}
		for a, n := range p.asserted {
			e.asserted[a] += n
		}
	}
	if s.status == stDone && e.maxRec > 0 && (len(e.recs) < e.maxRec/2 || (len(e.recs) < e.maxRec && e.byStat[stDone]&(e.byStat[stDone]-1) == 0)) {
		if p.model != nil {
			r := recExec{inputs: p.inputVals(p.model)}
			for _, l := range p.logs {
				r.logs = append(r.logs, l.label+"="+p.logVal(l.v))
			}
			e.recs = append(e.recs, r)
		}
	}
	if s.status == stDone && len(e.samples) < e.maxSamp {
		if m := p.model; m != nil {
			var ss []string
			for _, v := range p.inputVals(m) {
				ss = append(ss, v.Label+"="+v.Val)
			}
			if len(p.trail) > 0 {
				ss = append(ss, fmt.Sprintf("decisions=%d", len(p.trail)))
			}
			if len(s.events) > 0 {
				ss = append(ss, fmt.Sprintf("visible_ops=%d", len(s.events)))
			}
			if len(ss) > 14 {
				ss = append(ss[:14], "...")
			}
			e.samples = append(e.samples, e.name+": "+strings.Join(ss, " "))
		}
	}
	return p
}

func (p *Path) inputVals(m *Model) []InputVal {
	var out []InputVal
	bv := func(v value) uint64 {
		if t, ok := v.(*Term); ok {
			return m.eval(p.b, t).c
		}
		return uint64(v.(int64))
	}
	for _, in := range p.inputs {
		iv := InputVal{Kind: in.Kind, Label: in.Label}
		switch in.Kind {
		case "choose":
			iv.Val = fmt.Sprint(in.conc)
		case "bytes", "rand":
			for _, b := range in.bytes {
				iv.Bytes = append(iv.Bytes, byte(bv(b)))
			}
			iv.Val = fmt.Sprintf("%q", iv.Bytes)
		case "real":
			v := m.eval(p.b, in.t)
			if v.ok && v.r != nil {
				f, _ := v.r.Float64()
				iv.Val = fmt.Sprintf("%.17g", f)
			} else {
				iv.Val = "0"
			}
		case "bool":
			iv.Val = fmt.Sprint(m.eval(p.b, in.t).c == 1)
		default:
			iv.Val = fmt.Sprint(sext(m.eval(p.b, in.t).c, in.t.w))
			if in.Kind == "byte" {
				iv.Val = fmt.Sprint(m.eval(p.b, in.t).c)
			}
		}
		out = append(out, iv)
	}
	return out
}

type logEnt struct {
	label string
	v     value
}

// logVal renders a logged value under the path's model the way fmt's %v does.
func (p *Path) logVal(v value) string {
	i, ok := v.(iface)
	if !ok {
		return describe(v)
	}
	switch x := i.v.(type) {
	case int64:
		return fmt.Sprint(x)
	case bool:
		return fmt.Sprint(x)
	case string:
		return fmt.Sprintf("%q", x)
	case float64:
		return fmt.Sprint(x)
	case *Term:
		m := p.model.eval(p.b, x)
		switch x.w {
		case wBool:
			return fmt.Sprint(m.c == 1)
		case wReal:
			if m.r == nil {
				return "?"
			}
			f, _ := m.r.Float64()
			return fmt.Sprint(f)
		}
		return fmt.Sprint(sext(m.c, x.w))
	case *SStr:
		var bs []byte
		for _, b := range x.b {
			if t, ok := b.(*Term); ok {
				bs = append(bs, byte(p.model.eval(p.b, t).c))
			} else {
				bs = append(bs, byte(b.(int64)))
			}
		}
		return fmt.Sprintf("%q", bs)
	}
	return "?"
}

// violation records a counterexample and ends the path.
func (p *Path) violation(label, msg string) {
	if p.replaying() && !p.e.replayMode {
		// re-execution of a prefix whose violation was recorded already
		p.abort(stViolation, "%s", label)
	}
	m := p.ensureModel()
	if m == nil {
		p.note("violation on a path the solver could not confirm: " + label)
		p.abort(stBound, "unconfirmed violation %s", label)
	}
	v := &Violation{Harness: p.e.name, Label: label, Msg: msg, Inputs: p.inputVals(m), Trace: append([]string(nil), p.sched.trace...),
		Prefix: append([]Decision(nil), p.trail...)}
	if p.sched.cur != nil {
		v.Where = p.sched.cur.where(8)
	}
	e := p.e
	e.mu.Lock()
	e.vcount[label]++
	if old, ok := e.viol[label]; !ok || len(v.Prefix) < len(old.Prefix) {
		e.viol[label] = v
	}
	known := e.known != nil && e.known(label, v.Where)
	if !known && e.cfg.StopFirst {
		e.stop = true
	}
	e.mu.Unlock()
	e.cond.Broadcast()
	p.abort(stViolation, "%s", label)
}

// onPanic reports an unrecovered panic of the interpreted program.
func (p *Path) onPanic(g *G, tp targetPanic) {
	s := p.sched
	defer func() {
		if r := recover(); r != nil {
			if a, ok := r.(abortPath); ok {
				if !s.dead {
					s.finish(a.st, a.msg)
				}
				return
			}
			s.finish(stUnsupported, fmt.Sprintf("engine error in panic report: %v", r))
		}
	}()
	msg := describe(tp.v)
	if i, ok := tp.v.(iface); ok && i.t != nil {
		if m := p.method(i.t, "Error"); m != nil && i.t != p.prog.rtErr {
			func() {
				defer func() { recover() }()
				msg = describe(p.call(g, nil, m, []value{i.v}))
			}()
		}
	}
	p.violation("panic", "panic: "+msg+" at "+g.where(8))
}

func sortedNotes(m map[string]int) []string {
	var out []string
	for k, v := range m {
		out = append(out, fmt.Sprintf("%dx %s", v, k))
	}
	sort.Strings(out)
	return out
}

var _ = big.NewInt
