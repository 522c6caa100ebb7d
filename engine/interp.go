package main

// The symbolic executor: one Path is one execution from the harness entry,
// replaying a decision prefix and then extending it.

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type status int

const (
	stDone status = iota
	stInfeasible
	stSleep
	stBound
	stUnsupported
	stViolation
)

func (s status) String() string {
	return [...]string{"done", "infeasible", "sleep-blocked", "bound", "unsupported", "violation"}[s]
}

// abortPath unwinds an interpreted goroutine when its path is over.
type abortPath struct {
	st  status
	msg string
}

// targetPanic is a panic of the interpreted program.
type targetPanic struct{ v value }

// goexitPanic implements runtime.Goexit.
type goexitPanic struct{}

// Decision is one recorded nondeterministic choice.
type Decision struct {
	kind   byte // B branch, V value, C choice, S schedule
	val    int64
	forced bool
	node   *schedNode
	gid    string
	sleep  []string // siblings explored before this choice
}

type varInfo struct {
	t     *Term
	label string
	kind  string
}

// Path is one execution.
type Path struct {
	w       *Worker
	e       *Explorer
	prog    *Program
	b       *TermBank
	globals map[*ssa.Global]*value
	inited  map[*ssa.Package]int
	initFn  *ssa.Function // the initialiser that is called next
	pc      []*Term
	model   *Model
	seed    map[string]mval
	prefix  []Decision
	pos     int
	trail   []Decision
	vars    []*Term
	vinfo   []varInfo
	inputs  []Input
	nvar    int
	steps   int64
	maxStep int64
	initing int

	reals    []lnPair
	rmemo    map[*Term]*Term
	sched    *Sched
	opts     pathOpts
	clock0   *Term // first reading
	readings map[int][]reading
	nclock   int
	side     map[any]any // per-path intrinsic state
	notes    map[string]bool
	covers   map[string]bool
	output   []string
	syncID   int
	asserts  int
	asserted map[string]int
	logs     []logEnt
}

// Input is one recorded nondeterministic input, for replay.
type Input struct {
	Kind  string
	Label string
	t     *Term
	conc  any
	bytes []value
}

type lnPair struct{ x, y *Term }

type pathOpts struct {
	race     bool
	mapOrder bool
	ticks    int
	horizon  int64 // no clock reading is this long after the first
}

type frame struct {
	g         *G
	caller    *frame
	fi        *fnInfo
	regs      []value
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	defers    []deferred
	result    value
	panicking bool
	panicv    any
	cur       ssa.Instruction
}

type deferred struct {
	fn   value
	args []value
	inst *ssa.Defer
}

func (p *Path) abort(st status, f string, a ...any) {
	panic(abortPath{st, fmt.Sprintf(f, a...)})
}

func (p *Path) unsupported(f string, a ...any) {
	g := p.sched.cur
	where := ""
	if g != nil {
		where = " [" + g.where(6) + "]"
	}
	panic(abortPath{stUnsupported, fmt.Sprintf(f, a...) + where})
}

// goPanic raises a Go runtime error in the interpreted program.
func (p *Path) goPanic(msg string) {
	panic(targetPanic{iface{p.prog.rtErr, msg}})
}

// ---- decisions ----

func (p *Path) replaying() bool { return p.pos < len(p.prefix) }

func (p *Path) next(kind byte) *Decision {
	if p.pos < len(p.prefix) {
		d := &p.prefix[p.pos]
		if d.kind != kind {
			panic(fmt.Sprintf("engine: replay divergence at %d: have %c want %c [%s]", p.pos, d.kind, kind, p.sched.cur.where(12)))
		}
		p.pos++
		return d
	}
	return nil
}

func (p *Path) addPC(t *Term) {
	if t.isTrue() {
		return
	}
	p.pc = append(p.pc, t)
	if p.model != nil {
		v := p.model.eval(p.b, t)
		if !v.ok || v.c != 1 {
			p.model = nil
		}
	}
}

// ensureModel finds a model of the path condition (nil when undetermined).
func (p *Path) ensureModel() *Model {
	if p.model == nil {
		r, m := p.w.solver(p).check(p.pc, p.b.T, p.vars, true)
		if r == Unsat {
			p.abort(stInfeasible, "path condition unsatisfiable")
		}
		p.model = m
	}
	return p.model
}

func (p *Path) feasible(t *Term) (SatRes, *Model) {
	if t.isFalse() {
		return Unsat, nil
	}
	return p.w.solver(p).checkFor(p.pc, t, p.vars, p.model)
}

// branch decides a boolean term, forking when both sides are possible.
func (p *Path) branch(c *Term) bool {
	if c.isConst() {
		return c.c == 1
	}
	if p.initing > 0 {
		p.unsupported("symbolic branch during package initialisation")
	}
	if d := p.next('B'); d != nil {
		p.trail = append(p.trail, *d)
		if !d.forced {
			if d.val == 1 {
				p.addPC(c)
			} else {
				p.addPC(p.b.Not(c))
			}
		}
		return d.val == 1
	}
	if len(p.trail) > p.e.cfg.MaxDecisions {
		p.abort(stBound, "decision bound %d", p.e.cfg.MaxDecisions)
	}
	m := p.ensureModel()
	side := true
	known := false
	if m != nil {
		if v := m.eval(p.b, c); v.ok {
			side = v.c == 1
			known = true
		}
	}
	nc := p.b.Not(c)
	my, other := c, nc
	if !side {
		my, other = nc, c
	}
	if !known {
		r, m2 := p.feasible(my)
		if r == Unsat {
			// the other side must hold
			p.trail = append(p.trail, Decision{kind: 'B', val: b2i(!side), forced: true})
			return !side
		}
		if r == Unknown {
			p.note("solver-unknown")
		}
		p.model = m2
		m = m2
	}
	r, m2 := p.feasible(other)
	if r == Unsat {
		p.trail = append(p.trail, Decision{kind: 'B', val: b2i(side), forced: true})
		return side
	}
	if r == Unknown {
		p.note("solver-unknown")
	}
	p.push(Decision{kind: 'B', val: b2i(!side)}, m2)
	p.trail = append(p.trail, Decision{kind: 'B', val: b2i(side)})
	p.pc = append(p.pc, my)
	p.model = m
	return side
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

// push schedules exploration of an alternative at the current point.
func (p *Path) push(d Decision, m *Model) {
	it := &workItem{prefix: make([]Decision, len(p.trail)+1)}
	copy(it.prefix, p.trail)
	it.prefix[len(p.trail)] = d
	it.guide = p.sched.guide
	if m != nil {
		it.seed = map[string]mval{}
		for _, v := range p.vars {
			if v.w == wReal {
				if r, ok := m.rat[v]; ok {
					it.seed[v.name] = mval{0, r, r != nil}
				}
			} else if c, ok := m.bv[v]; ok {
				it.seed[v.name] = mval{c, nil, true}
			}
		}
	}
	p.e.add(it)
}

// choose explores every value in [0,n).
func (p *Path) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if d := p.next('C'); d != nil {
		p.trail = append(p.trail, *d)
		return int(d.val)
	}
	for i := n - 1; i >= 1; i-- {
		p.push(Decision{kind: 'C', val: int64(i)}, p.model)
	}
	p.trail = append(p.trail, Decision{kind: 'C', val: 0})
	return 0
}

// concInt makes an integer concrete, forking over all its feasible values.
func (p *Path) concInt(v value, k ikind) int64 {
	t, ok := v.(*Term)
	if !ok {
		return v.(int64)
	}
	for i := 0; ; i++ {
		if i > p.e.cfg.MaxConc {
			p.abort(stBound, "more than %d values when concretising", p.e.cfg.MaxConc)
		}
		var c int64
		if d := p.next('V'); d != nil {
			p.trail = append(p.trail, *d)
			c = d.val
		} else {
			m := p.ensureModel()
			var mv mval
			if m != nil {
				mv = m.eval(p.b, t)
			}
			if !mv.ok {
				p.unsupported("cannot concretise")
			}
			c = int64(mv.c)
			p.trail = append(p.trail, Decision{kind: 'V', val: c})
		}
		if p.branch(p.b.Eq(t, p.b.BV(uint64(c), t.w))) {
			return k.canon(uint64(c))
		}
	}
}

func (p *Path) note(s string) { p.notes[s] = true }

// ---- symbolic variables ----

func (p *Path) newVar(label string, w int) *Term {
	name := fmt.Sprintf("v%d_%d", p.nvar, w)
	p.nvar++
	return p.regVar(p.b.Var(name, w))
}

// newRanged declares an input that is assumed to lie in [lo,hi].
func (p *Path) newRanged(w int, lo, hi int64) *Term {
	name := fmt.Sprintf("v%d_%d[%d,%d]", p.nvar, w, lo, hi)
	p.nvar++
	t := p.b.Var(name, w)
	t.ranged, t.lo, t.hi = true, lo, hi
	return p.regVar(t)
}

func (p *Path) regVar(t *Term) *Term {
	name, w := t.name, t.w
	p.vars = append(p.vars, t)
	if p.seed != nil && p.model != nil {
		if s, ok := p.seed[name]; ok {
			if w == wReal {
				p.model.rat[t] = s.r
			} else {
				p.model.bv[t] = s.c
			}
		}
	}
	return t
}

// ---- globals and package initialisation ----

func (p *Path) shared(pkg *ssa.Package) bool {
	return !repoLike(pkg.Pkg.Path())
}

func (p *Path) globalAddr(g *ssa.Global) *value {
	if a, ok := p.globals[g]; ok {
		return a
	}
	if a, ok := p.w.globals[g]; ok {
		return a
	}
	p.initPackage(g.Pkg)
	if a, ok := p.globals[g]; ok {
		return a
	}
	if a, ok := p.w.globals[g]; ok {
		return a
	}
	panic("global without package: " + g.String())
}

// initPackage allocates the globals of pkg and runs its initialiser. State of
// standard library packages is kept per worker; everything else per path.
func (p *Path) initPackage(pkg *ssa.Package) {
	if p.inited[pkg] != 0 || p.w.inited[pkg] != 0 {
		return
	}
	glob := p.globals
	if p.shared(pkg) {
		glob = p.w.globals
		p.w.inited[pkg] = 1
	} else {
		p.inited[pkg] = 1
	}
	for _, m := range pkg.Members {
		if g, ok := m.(*ssa.Global); ok {
			cell := new(value)
			*cell = zero(g.Type().(*types.Pointer).Elem())
			glob[g] = cell
		}
	}
	if skipInitOf(pkg.Pkg.Path()) {
		return
	}
	init := pkg.Func("init")
	if init == nil {
		return
	}
	// run on the current goroutine, leniently
	p.initing++
	g := p.sched.cur
	oldRace := p.opts.race
	p.opts.race = false
	save := p.steps
	func() {
		defer func() {
			p.initing--
			p.opts.race = oldRace
			p.steps = save
			if r := recover(); r != nil {
				switch r := r.(type) {
				case targetPanic:
					if p.e.cfg.Debug {
						fmt.Println("init panic", pkg.Pkg.Path(), describe(r.v))
					}
					if !p.shared(pkg) && repoOnly(pkg.Pkg.Path()) {
						panic(r)
					}
				case abortPath:
					if p.e.cfg.Debug {
						fmt.Println("init abort", pkg.Pkg.Path(), r.msg)
					}
					if r.st == stUnsupported {
						p.e.noteInit(pkg.Pkg.Path() + ": " + r.msg)
						return
					}
					panic(r)
				default:
					panic(r)
				}
			}
		}()
		var fr *frame
		if g != nil {
			fr = g.top
		}
		p.initFn = init
		p.call(g, fr, init, nil)
	}()
}

// ---- calls ----

func (p *Path) call(g *G, caller *frame, fn value, args []value) value {
	switch fn := fn.(type) {
	case *ssa.Function:
		if fn == nil {
			p.goPanic("invalid memory address or nil pointer dereference")
		}
		return p.callFn(g, caller, fn, args, nil)
	case *closure:
		if fn == nil {
			p.goPanic("invalid memory address or nil pointer dereference")
		}
		return p.callFn(g, caller, fn.fn, args, fn.env)
	case *native:
		return fn.f(g, args)
	case *ssa.Builtin:
		return p.builtin(g, caller, fn, args, nil)
	case nil:
		p.goPanic("invalid memory address or nil pointer dereference")
	}
	panic(fmt.Sprintf("call of %T", fn))
}

func (p *Path) callFn(g *G, caller *frame, fn *ssa.Function, args []value, env []value) value {
	fi := p.prog.info(fn)
	if fi.model != nil {
		fi = fi.model
	}
	atomic.AddInt64(&fi.hits, 1)
	if fi.native != nil {
		return fi.native(g, caller, args)
	}
	if fi.fn == p.initFn {
		p.initFn = nil
	} else if fi.fn.Name() == "init" && fi.fn.Synthetic == "package initializer" && caller != nil && caller.fi.fn.Name() == "init" && caller.fi.fn.Synthetic == "package initializer" {
		return nil // dependencies initialise lazily
	}
	if fi.ext {
		p.unsupported("no body and no model for %s", fi.name)
	}
	fr := &frame{g: g, caller: caller, fi: fi}
	fr.regs = make([]value, fi.nregs)
	copy(fr.regs, args)
	copy(fr.regs[fi.nparams:], env)
	fr.block = fi.fn.Blocks[0]
	g.depth++
	if g.depth > 2000 {
		p.abort(stBound, "call depth")
	}
	g.top = fr
	if fi.hasDefer {
		p.runDeferFrame(fr)
	} else {
		p.runFrame(fr)
	}
	g.top = caller
	g.depth--
	return fr.result
}

// runDeferFrame runs a frame that may defer and recover.
func (p *Path) runDeferFrame(fr *frame) {
	for {
		done := func() (done bool) {
			depth := fr.g.depth
			defer func() {
				if fr.block == nil {
					return
				}
				r := recover()
				if r == nil {
					return
				}
				switch r.(type) {
				case targetPanic, goexitPanic:
				default:
					panic(r)
				}
				fr.g.top = fr
				fr.g.depth = depth
				fr.panicking = true
				fr.panicv = r
				p.runDefers(fr)
				// recovered
				fr.block = fr.fi.fn.Recover
				fr.prev = nil
				if fr.block == nil {
					fr.result = zeroResult(fr.fi.fn)
					done = true
				}
			}()
			p.runFrame(fr)
			return true
		}()
		if done {
			return
		}
	}
}

func zeroResult(fn *ssa.Function) value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return zero(r.At(0).Type())
	}
	return zero(r)
}

func (p *Path) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		p.runDefer(fr, d)
	}
	if fr.panicking {
		panic(fr.panicv)
	}
}

func (p *Path) runDefer(fr *frame, d deferred) {
	ok := false
	defer func() {
		if !ok {
			r := recover()
			switch r.(type) {
			case targetPanic, goexitPanic:
				// new panic replaces the old one
				fr.panicking = true
				fr.panicv = r
				fr.g.top = fr
			default:
				panic(r)
			}
		}
	}()
	if b, isB := d.fn.(*ssa.Builtin); isB {
		p.builtin(fr.g, fr, b, d.args, d.inst)
	} else {
		p.call(fr.g, fr, d.fn, d.args)
	}
	ok = true
}

func (p *Path) get(fr *frame, o *opnd) value {
	switch o.k {
	case opReg:
		return fr.regs[o.r]
	case opConst:
		return o.v
	case opGlobal:
		return p.globalAddr(o.g)
	}
	return zero(o.t)
}

const (
	ctNext = iota
	ctJump
	ctReturn
)

func (p *Path) runFrame(fr *frame) {
	for {
		cb := &fr.fi.blocks[fr.block.Index]
		if cb.cover == 0 {
			atomic.StoreUint32(&cb.cover, 1)
		}
		code := cb.code
		if cb.nphi > 0 && fr.prev != nil {
			idx := -1
			for i, pr := range fr.block.Preds {
				if pr == fr.prev {
					idx = i
					break
				}
			}
			var tmp [8]value
			vals := tmp[:0]
			for i := 0; i < cb.nphi; i++ {
				vals = append(vals, p.get(fr, &code[i].ops[idx]))
			}
			for i := 0; i < cb.nphi; i++ {
				fr.regs[code[i].dst] = vals[i]
			}
		}
		p.steps += int64(len(code))
		if p.steps > p.maxStep {
			p.abort(stBound, "instruction bound %d", p.maxStep)
		}
		jumped := false
		for i := cb.nphi; i < len(code); i++ {
			c := &code[i]
			fr.cur = c.in
			switch p.exec(fr, c) {
			case ctReturn:
				fr.block = nil
				return
			case ctJump:
				jumped = true
			}
			if jumped {
				break
			}
		}
	}
}

func (p *Path) jump(fr *frame, i int) int {
	fr.prev, fr.block = fr.block, fr.block.Succs[i]
	return ctJump
}

func (p *Path) exec(fr *frame, c *cins) int {
	switch in := c.in.(type) {
	case *ssa.DebugRef:
	case *ssa.UnOp:
		fr.regs[c.dst] = p.unop(fr, in, c)
	case *ssa.BinOp:
		fr.regs[c.dst] = p.binop(in.Op, c.aux.(*binAux), p.get(fr, &c.ops[0]), p.get(fr, &c.ops[1]))
	case *ssa.Call:
		fn, args := p.prepareCall(fr, &in.Call, c)
		if b, ok := fn.(*ssa.Builtin); ok {
			fr.regs[c.dst] = p.builtin(fr.g, fr, b, args, in)
		} else {
			fr.regs[c.dst] = p.call(fr.g, fr, fn, args)
		}
	case *ssa.ChangeInterface:
		fr.regs[c.dst] = p.get(fr, &c.ops[0])
	case *ssa.ChangeType:
		fr.regs[c.dst] = p.get(fr, &c.ops[0])
	case *ssa.Convert:
		fr.regs[c.dst] = p.conv(in.Type(), in.X.Type(), p.get(fr, &c.ops[0]))
	case *ssa.MultiConvert:
		fr.regs[c.dst] = p.conv(in.Type(), in.X.Type(), p.get(fr, &c.ops[0]))
	case *ssa.SliceToArrayPointer:
		x := p.get(fr, &c.ops[0]).([]value)
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(x) < n {
			p.goPanic("cannot convert slice to array pointer")
		}
		p.unsupported("SliceToArrayPointer")
	case *ssa.MakeInterface:
		fr.regs[c.dst] = iface{t: in.X.Type(), v: p.get(fr, &c.ops[0])}
	case *ssa.Extract:
		fr.regs[c.dst] = p.get(fr, &c.ops[0]).(tuple)[in.Index]
	case *ssa.Slice:
		fr.regs[c.dst] = p.slice(in, p.get(fr, &c.ops[0]), p.get(fr, &c.ops[1]), p.get(fr, &c.ops[2]), p.get(fr, &c.ops[3]))
	case *ssa.Return:
		switch len(c.ops) {
		case 0:
		case 1:
			fr.result = p.get(fr, &c.ops[0])
		default:
			r := make(tuple, len(c.ops))
			for i := range c.ops {
				r[i] = p.get(fr, &c.ops[i])
			}
			fr.result = r
		}
		return ctReturn
	case *ssa.RunDefers:
		p.runDefers(fr)
	case *ssa.Panic:
		v := p.get(fr, &c.ops[0])
		if i, ok := v.(iface); ok && i.t == nil {
			v = iface{p.prog.rtErr, "panic called with nil argument (use GODEBUG=panicnil=1 to disable)"}
		}
		panic(targetPanic{v})
	case *ssa.Send:
		p.chanSend(fr.g, p.get(fr, &c.ops[0]).(*Chan), copyVal(p.get(fr, &c.ops[1])))
	case *ssa.Store:
		p.store(p.get(fr, &c.ops[0]), p.get(fr, &c.ops[1]))
	case *ssa.If:
		v := p.get(fr, &c.ops[0])
		var cond bool
		switch v := v.(type) {
		case bool:
			cond = v
		case *Term:
			cond = p.branch(v)
		}
		if cond {
			return p.jump(fr, 0)
		}
		return p.jump(fr, 1)
	case *ssa.Jump:
		return p.jump(fr, 0)
	case *ssa.Defer:
		fn, args := p.prepareCall(fr, &in.Call, c)
		if in.DeferStack != nil {
			// range-over-func defers: the stack belongs to an outer frame
			if ds, ok := p.get(fr, &c.ops[len(c.ops)-1]).(*frame); ok {
				ds.defers = append(ds.defers, deferred{fn, args, in})
				break
			}
		}
		fr.defers = append(fr.defers, deferred{fn, args, in})
	case *ssa.Go:
		fn, args := p.prepareCall(fr, &in.Call, c)
		p.spawn(fr.g, fn, args, in.Pos())
	case *ssa.MakeChan:
		n := p.concInt(p.get(fr, &c.ops[0]), ikind{64, true})
		if n < 0 {
			p.goPanic("makechan: size out of range")
		}
		fr.regs[c.dst] = p.newChan(int(n), in.Type().Underlying().(*types.Chan).Elem())
	case *ssa.Alloc:
		cell := new(value)
		*cell = zero(in.Type().Underlying().(*types.Pointer).Elem())
		fr.regs[c.dst] = cell
	case *ssa.MakeSlice:
		n := p.concInt(p.get(fr, &c.ops[0]), ikind{64, true})
		cp := p.concInt(p.get(fr, &c.ops[1]), ikind{64, true})
		if n < 0 || n > 1<<26 {
			p.goPanic("makeslice: len out of range")
		}
		if cp < n || cp > 1<<26 {
			p.goPanic("makeslice: cap out of range")
		}
		s := make([]value, cp)
		et := in.Type().Underlying().(*types.Slice).Elem()
		fillZero(s, et)
		fr.regs[c.dst] = s[:n]
	case *ssa.MakeMap:
		fr.regs[c.dst] = newMap(in.Type().Underlying().(*types.Map).Key())
	case *ssa.Range:
		fr.regs[c.dst] = p.rangeIter(fr, p.get(fr, &c.ops[0]), in.X.Type())
	case *ssa.Next:
		fr.regs[c.dst] = p.iterNext(fr, p.get(fr, &c.ops[0]), in)
	case *ssa.FieldAddr:
		ptr := p.get(fr, &c.ops[0])
		a, ok := ptr.(*value)
		if !ok {
			p.unsupported("FieldAddr of %T", ptr)
		}
		if a == nil {
			p.goPanic("invalid memory address or nil pointer dereference")
		}
		s, ok := (*a).(structure)
		if !ok {
			p.unsupported("FieldAddr: cell holds %T", *a)
		}
		fr.regs[c.dst] = &s[in.Field]
	case *ssa.Field:
		fr.regs[c.dst] = p.get(fr, &c.ops[0]).(structure)[in.Field]
	case *ssa.IndexAddr:
		fr.regs[c.dst] = p.indexAddr(fr, in, p.get(fr, &c.ops[0]), p.get(fr, &c.ops[1]))
	case *ssa.Index:
		x := p.get(fr, &c.ops[0])
		idx := p.get(fr, &c.ops[1])
		switch x := x.(type) {
		case array:
			if t, ok := idx.(*Term); ok {
				k, _ := intKind(in.Index.Type())
				p.boundsCheck(t, k, len(x))
				fr.regs[c.dst] = p.readSym(x, t, in.Type())
				break
			}
			i := idx.(int64)
			if i < 0 || i >= int64(len(x)) {
				p.goPanic(fmt.Sprintf("index out of range [%d] with length %d", i, len(x)))
			}
			fr.regs[c.dst] = copyVal(x[i])
		default:
			fr.regs[c.dst] = p.strIndex(x, idx, in.Index.Type())
		}
	case *ssa.Lookup:
		x := p.get(fr, &c.ops[0])
		k := p.get(fr, &c.ops[1])
		if m, ok := x.(*Map); ok {
			if m != nil {
				p.raceRead(fr, &m.cell)
			}
			et := in.X.Type().Underlying().(*types.Map).Elem()
			var v value
			e := p.mapFind(m, k)
			if e != nil {
				v = copyVal(e.v)
			} else {
				v = zero(et)
			}
			if in.CommaOk {
				v = tuple{v, e != nil}
			}
			fr.regs[c.dst] = v
		} else {
			fr.regs[c.dst] = p.strIndex(x, k, in.Index.Type())
		}
	case *ssa.MapUpdate:
		m := p.get(fr, &c.ops[0]).(*Map)
		k := p.get(fr, &c.ops[1])
		v := p.get(fr, &c.ops[2])
		if m == nil {
			panic(targetPanic{iface{p.prog.rtErr, "assignment to entry in nil map"}})
		}
		p.raceWrite(fr, &m.cell)
		p.mapSet(m, k, copyVal(v))
	case *ssa.TypeAssert:
		fr.regs[c.dst] = p.typeAssert(in, p.get(fr, &c.ops[0]).(iface))
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		env := make([]value, len(in.Bindings))
		for i := range in.Bindings {
			env[i] = p.get(fr, &c.ops[i+1])
		}
		fr.regs[c.dst] = &closure{fn, env}
	case *ssa.Select:
		fr.regs[c.dst] = p.selectStmt(fr, in, c)
	case *ssa.Phi:
		panic("phi in the middle of a block")
	default:
		p.unsupported("instruction %T", c.in)
	}
	return ctNext
}

func fillZero(s []value, et types.Type) {
	switch et.Underlying().(type) {
	case *types.Struct, *types.Array:
		for i := range s {
			s[i] = zero(et)
		}
	default:
		z := zero(et)
		for i := range s {
			s[i] = z
		}
	}
}

func (p *Path) prepareCall(fr *frame, call *ssa.CallCommon, c *cins) (value, []value) {
	v := p.get(fr, &c.ops[0])
	n := len(call.Args)
	if call.Method == nil {
		args := make([]value, n)
		for i := 0; i < n; i++ {
			args[i] = p.get(fr, &c.ops[i+1])
		}
		return v, args
	}
	recv, ok := v.(iface)
	if !ok {
		p.unsupported("invoke on %T", v)
	}
	if recv.t == nil {
		p.goPanic("invalid memory address or nil pointer dereference")
	}
	fn := p.prog.lookupMethod(recv.t, call.Method)
	if fn == nil {
		p.unsupported("method %s not found on %s", call.Method, recv.t)
	}
	args := make([]value, n+1)
	args[0] = recv.v
	for i := 0; i < n; i++ {
		args[i+1] = p.get(fr, &c.ops[i+1])
	}
	return fn, args
}

// ---- memory ----

// symAddr is the address of a slice element at a symbolic, in-range index.
type symAddr struct {
	elems []value
	idx   *Term
}

func (p *Path) load(fr *frame, t types.Type, addr value) value {
	switch a := addr.(type) {
	case *value:
		if a == nil {
			p.goPanic("invalid memory address or nil pointer dereference")
		}
		if p.sched.multi && p.opts.race {
			p.raceReadAll(fr, a)
		}
		return copyVal(*a)
	case *symAddr:
		return p.readSym(a.elems, a.idx, t)
	case unsafePtr:
		if len(a.s) > 0 {
			return a.s[0]
		}
	}
	p.unsupported("load through %T", addr)
	return nil
}

func (p *Path) store(addr, v value) {
	switch a := addr.(type) {
	case *value:
		if a == nil {
			p.goPanic("invalid memory address or nil pointer dereference")
		}
		if p.sched.multi && p.opts.race {
			p.raceWriteAll(p.sched.cur.top, a)
		}
		storeInto(a, v)
		return
	case *symAddr:
		for i := 0; i < len(a.elems)-1; i++ {
			if p.branch(p.b.Eq(a.idx, p.b.BV(uint64(i), a.idx.w))) {
				storeInto(&a.elems[i], v)
				return
			}
		}
		storeInto(&a.elems[len(a.elems)-1], v)
		return
	}
	p.unsupported("store through %T", addr)
}

// storeInto assigns element-wise so that interior pointers stay valid.
func storeInto(a *value, v value) {
	switch v := v.(type) {
	case structure:
		if d, ok := (*a).(structure); ok && len(d) == len(v) {
			for i := range v {
				storeInto(&d[i], v[i])
			}
			return
		}
		*a = copyVal(v)
	case array:
		if d, ok := (*a).(array); ok && len(d) == len(v) {
			for i := range v {
				storeInto(&d[i], v[i])
			}
			return
		}
		*a = copyVal(v)
	default:
		*a = v
	}
}

func (p *Path) boundsCheck(t *Term, k ikind, n int) {
	var ok *Term
	if n == 0 {
		ok = p.b.F
	} else if k.signed {
		ok = p.b.And(p.b.Cmp(OSLe, p.b.BV(0, t.w), t), p.ltConst(t, n, true))
	} else {
		ok = p.ltConst(t, n, false)
	}
	if !p.branch(ok) {
		p.goPanic(fmt.Sprintf("index out of range [sym] with length %d", n))
	}
}

func (p *Path) ltConst(t *Term, n int, signed bool) *Term {
	if t.w < 63 && int64(n) > int64(mask(t.w)) {
		return p.b.T
	}
	if signed {
		if t.w < 63 && int64(n) > int64(mask(t.w-1)) {
			return p.b.T
		}
		return p.b.Cmp(OSLt, t, p.b.BV(uint64(n), t.w))
	}
	return p.b.Cmp(OULt, t, p.b.BV(uint64(n), t.w))
}

// readSym reads elems[idx] for a symbolic in-range index.
func (p *Path) readSym(elems []value, idx *Term, t types.Type) value {
	k, isInt := intKind(t)
	if isInt {
		// group equal constants into ranges
		var r *Term
		for i := len(elems) - 1; i >= 0; i-- {
			v := p.toTerm(elems[i], k.w)
			if r == nil {
				r = v
				continue
			}
			if v == r {
				continue
			}
			// find run of equal values ending at i
			j := i
			for j > 0 && p.toTerm(elems[j-1], k.w) == v {
				j--
			}
			r = p.b.Ite(p.b.Cmp(OULe, idx, p.b.BV(uint64(i), idx.w)), v, r)
			i = j
		}
		return p.fromTerm(r, k)
	}
	for i := 0; i < len(elems)-1; i++ {
		if p.branch(p.b.Eq(idx, p.b.BV(uint64(i), idx.w))) {
			return copyVal(elems[i])
		}
	}
	return copyVal(elems[len(elems)-1])
}

func (p *Path) indexAddr(fr *frame, in *ssa.IndexAddr, x, idx value) value {
	var s []value
	switch x := x.(type) {
	case []value:
		s = x
	case *value:
		if x == nil {
			p.goPanic("invalid memory address or nil pointer dereference")
		}
		s = []value((*x).(array))
	default:
		p.unsupported("IndexAddr of %T", x)
	}
	if t, ok := idx.(*Term); ok {
		k, _ := intKind(in.Index.Type())
		p.boundsCheck(t, k, len(s))
		if len(s) == 1 {
			return &s[0]
		}
		return &symAddr{s, t}
	}
	i := idx.(int64)
	k, _ := intKind(in.Index.Type())
	if (k.signed && i < 0) || uint64(i) >= uint64(len(s)) {
		p.goPanic(fmt.Sprintf("index out of range [%d] with length %d", i, len(s)))
	}
	return &s[i]
}

func (p *Path) strIndex(x, idx value, it types.Type) value {
	n := strLen(p, x)
	if t, ok := idx.(*Term); ok {
		k, _ := intKind(it)
		p.boundsCheck(t, k, n)
		return p.readSym(strBytes(p, x), t, types.Typ[types.Uint8])
	}
	i := idx.(int64)
	if i < 0 || i >= int64(n) {
		p.goPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
	}
	if s, ok := x.(string); ok {
		return int64(s[i])
	}
	return x.(*SStr).b[i]
}

func (p *Path) slice(in *ssa.Slice, x, lo, hi, max value) value {
	ik := func(v ssa.Value) ikind {
		if v == nil {
			return ikind{64, true}
		}
		k, _ := intKind(v.Type())
		return k
	}
	var ln, cp int64
	var s []value
	isStr := false
	switch x := x.(type) {
	case string, *SStr, *Opaque:
		ln = int64(strLen(p, x))
		cp = ln
		isStr = true
	case []value:
		s = x
		ln, cp = int64(len(x)), int64(cap(x))
	case *value:
		if x == nil {
			p.goPanic("invalid memory address or nil pointer dereference")
		}
		s = []value((*x).(array))
		ln, cp = int64(len(s)), int64(cap(s))
		cp = ln
	default:
		p.unsupported("slice of %T", x)
	}
	// symbolic bounds: check validity before concretising
	b := p.b
	asTerm := func(v value, src ssa.Value, def int64) *Term {
		if v == nil {
			return b.BV(uint64(def), 64)
		}
		k := ik(src)
		t := p.toTerm(v, k.w)
		if k.signed {
			return b.SExt(t, 64)
		}
		return b.ZExt(t, 64)
	}
	tl := asTerm(lo, in.Low, 0)
	th := asTerm(hi, in.High, ln)
	tm := asTerm(max, in.Max, cp)
	ok := b.And(b.Cmp(OULe, tl, th), b.And(b.Cmp(OULe, th, tm), b.Cmp(OULe, tm, b.BV(uint64(cp), 64))))
	if !p.branch(ok) {
		p.goPanic(fmt.Sprintf("slice bounds out of range [%s:%s] with capacity %d", tl.ref(), th.ref(), cp))
	}
	k64 := ikind{64, true}
	l := p.concInt(p.fromTerm(tl, k64), k64)
	h := p.concInt(p.fromTerm(th, k64), k64)
	m := p.concInt(p.fromTerm(tm, k64), k64)
	if isStr {
		if str, ok := x.(string); ok {
			return str[l:h]
		}
		return mkStr(x.(*SStr).b[l:h])
	}
	if s == nil {
		return []value(nil)
	}
	return s[l:h:m]
}

// ---- operators ----

func (p *Path) unop(fr *frame, in *ssa.UnOp, c *cins) value {
	x := p.get(fr, &c.ops[0])
	a := c.aux.(*binAux)
	switch in.Op {
	case token.MUL:
		return p.load(fr, a.t, x)
	case token.ARROW:
		v, ok := p.chanRecv(fr.g, x.(*Chan))
		if v == nil {
			v = zero(in.X.Type().Underlying().(*types.Chan).Elem())
		}
		if in.CommaOk {
			return tuple{v, ok}
		}
		return v
	case token.SUB:
		switch a.cls {
		case 'i':
			if t, ok := x.(*Term); ok {
				return p.fromTerm(p.b.Neg(t), a.k)
			}
			return a.k.canon(uint64(-x.(int64)))
		case 'f':
			if t, ok := x.(*Term); ok {
				return p.b.RBin(ORSub, p.b.Rat(ratZero), t)
			}
			return -x.(float64)
		case 'c':
			return -x.(complex128)
		}
	case token.NOT:
		if t, ok := x.(*Term); ok {
			return fromBool(p.b.Not(t))
		}
		return !x.(bool)
	case token.XOR:
		if t, ok := x.(*Term); ok {
			return p.fromTerm(p.b.BNot(t), a.k)
		}
		return a.k.canon(^uint64(x.(int64)))
	}
	panic(fmt.Sprintf("unop %v", in))
}

func (p *Path) binop(op token.Token, a *binAux, x, y value) value {
	b := p.b
	switch op {
	case token.EQL:
		return fromBool(p.eq(a.t, x, y))
	case token.NEQ:
		return fromBool(b.Not(p.eq(a.t, x, y)))
	}
	switch a.cls {
	case 'i':
		xi, ok1 := x.(int64)
		yi, ok2 := y.(int64)
		if ok1 && ok2 {
			return p.intOp(op, a, xi, yi)
		}
		return p.symIntOp(op, a, x, y)
	case 'f':
		xf, ok1 := x.(float64)
		yf, ok2 := y.(float64)
		if ok1 && ok2 {
			return floatOp(op, xf, yf, a.k.w)
		}
		return p.symFloatOp(op, x, y)
	case 's':
		switch op {
		case token.ADD:
			return p.strConcat(x, y)
		case token.LSS:
			return fromBool(p.strLess(x, y, false))
		case token.LEQ:
			return fromBool(p.strLess(x, y, true))
		case token.GTR:
			return fromBool(p.strLess(y, x, false))
		case token.GEQ:
			return fromBool(p.strLess(y, x, true))
		}
	case 'b':
		tx, ty := p.boolTerm(x), p.boolTerm(y)
		switch op {
		case token.AND, token.LAND:
			return fromBool(b.And(tx, ty))
		case token.OR, token.LOR:
			return fromBool(b.Or(tx, ty))
		case token.XOR:
			return fromBool(b.Not(b.Eq(tx, ty)))
		case token.AND_NOT:
			return fromBool(b.And(tx, b.Not(ty)))
		}
	case 'c':
		cx, cy := x.(complex128), y.(complex128)
		switch op {
		case token.ADD:
			return cx + cy
		case token.SUB:
			return cx - cy
		case token.MUL:
			return cx * cy
		case token.QUO:
			return cx / cy
		}
	}
	panic(fmt.Sprintf("binop %v %c %T %T", op, a.cls, x, y))
}

func (p *Path) intOp(op token.Token, a *binAux, x, y int64) value {
	k := a.k
	ux, uy := uint64(x), uint64(y)
	switch op {
	case token.ADD:
		return k.canon(ux + uy)
	case token.SUB:
		return k.canon(ux - uy)
	case token.MUL:
		return k.canon(ux * uy)
	case token.QUO, token.REM:
		if y == 0 {
			p.goPanic("integer divide by zero")
		}
		if k.signed {
			if y == -1 {
				if op == token.QUO {
					return k.canon(-ux)
				}
				return int64(0)
			}
			if op == token.QUO {
				return k.canon(uint64(x / y))
			}
			return k.canon(uint64(x % y))
		}
		if op == token.QUO {
			return k.canon(ux / uy)
		}
		return k.canon(ux % uy)
	case token.AND:
		return k.canon(ux & uy)
	case token.OR:
		return k.canon(ux | uy)
	case token.XOR:
		return k.canon(ux ^ uy)
	case token.AND_NOT:
		return k.canon(ux &^ uy)
	case token.SHL:
		if a.yk.signed && y < 0 {
			p.goPanic("negative shift amount")
		}
		if uy >= 64 {
			return int64(0)
		}
		return k.canon(ux << uy)
	case token.SHR:
		if a.yk.signed && y < 0 {
			p.goPanic("negative shift amount")
		}
		if k.signed {
			if uy >= 64 {
				uy = 63
			}
			return x >> uy
		}
		if uy >= 64 {
			return int64(0)
		}
		return k.canon(ux >> uy)
	case token.LSS:
		if k.signed {
			return x < y
		}
		return ux < uy
	case token.LEQ:
		if k.signed {
			return x <= y
		}
		return ux <= uy
	case token.GTR:
		if k.signed {
			return x > y
		}
		return ux > uy
	case token.GEQ:
		if k.signed {
			return x >= y
		}
		return ux >= uy
	}
	panic("intOp " + op.String())
}

func (p *Path) symIntOp(op token.Token, a *binAux, x, y value) value {
	b := p.b
	k := a.k
	tx := p.toTerm(x, k.w)
	if op == token.SHL || op == token.SHR {
		ty := p.toTerm(y, a.yk.w)
		if a.yk.signed {
			if p.branch(b.Cmp(OSLt, ty, b.BV(0, ty.w))) {
				p.goPanic("negative shift amount")
			}
		}
		var big *Term = b.F
		if ty.w > k.w {
			big = b.Cmp(OULe, b.BV(uint64(k.w), ty.w), ty)
			ty = b.Trunc(ty, k.w)
		} else {
			ty = b.ZExt(ty, k.w)
		}
		if op == token.SHL {
			return p.fromTerm(b.Ite(big, b.BV(0, k.w), b.Bin(OShl, tx, ty)), k)
		}
		if k.signed {
			return p.fromTerm(b.Ite(big, b.Bin(OAShr, tx, b.BV(uint64(k.w-1), k.w)), b.Bin(OAShr, tx, ty)), k)
		}
		return p.fromTerm(b.Ite(big, b.BV(0, k.w), b.Bin(OLShr, tx, ty)), k)
	}
	ty := p.toTerm(y, k.w)
	switch op {
	case token.ADD:
		return p.fromTerm(b.Bin(OAdd, tx, ty), k)
	case token.SUB:
		return p.fromTerm(b.Bin(OSub, tx, ty), k)
	case token.MUL:
		return p.fromTerm(b.Bin(OMul, tx, ty), k)
	case token.QUO, token.REM:
		if p.branch(b.Eq(ty, b.BV(0, k.w))) {
			p.goPanic("integer divide by zero")
		}
		o := OUDiv
		if op == token.REM {
			o = OURem
		}
		if k.signed {
			o = OSDiv
			if op == token.REM {
				o = OSRem
			}
		}
		return p.fromTerm(b.Bin(o, tx, ty), k)
	case token.AND:
		return p.fromTerm(b.Bin(OBAnd, tx, ty), k)
	case token.OR:
		return p.fromTerm(b.Bin(OBOr, tx, ty), k)
	case token.XOR:
		return p.fromTerm(b.Bin(OBXor, tx, ty), k)
	case token.AND_NOT:
		return p.fromTerm(b.Bin(OBAnd, tx, b.BNot(ty)), k)
	}
	lt, le := OULt, OULe
	if k.signed {
		lt, le = OSLt, OSLe
	}
	switch op {
	case token.LSS:
		return fromBool(b.Cmp(lt, tx, ty))
	case token.LEQ:
		return fromBool(b.Cmp(le, tx, ty))
	case token.GTR:
		return fromBool(b.Cmp(lt, ty, tx))
	case token.GEQ:
		return fromBool(b.Cmp(le, ty, tx))
	}
	panic("symIntOp " + op.String())
}

func floatOp(op token.Token, x, y float64, w int) value {
	rd := func(f float64) value {
		if w == 32 {
			return float64(float32(f))
		}
		return f
	}
	switch op {
	case token.ADD:
		return rd(x + y)
	case token.SUB:
		return rd(x - y)
	case token.MUL:
		return rd(x * y)
	case token.QUO:
		return rd(x / y)
	case token.LSS:
		return x < y
	case token.LEQ:
		return x <= y
	case token.GTR:
		return x > y
	case token.GEQ:
		return x >= y
	}
	panic("floatOp " + op.String())
}

var ratZero = new(big.Rat)

func nonFinite(v value) (float64, bool) {
	f, ok := v.(float64)
	return f, ok && (math.IsNaN(f) || math.IsInf(f, 0))
}

// realSign forks on the sign of a real term.
func (p *Path) realSign(v value) int {
	if f, ok := v.(float64); ok {
		switch {
		case f > 0:
			return 1
		case f < 0:
			return -1
		}
		return 0
	}
	t := v.(*Term)
	z := p.b.Rat(ratZero)
	if p.branch(p.b.RCmp(ORLt, z, t)) {
		return 1
	}
	if p.branch(p.b.RCmp(ORLt, t, z)) {
		return -1
	}
	return 0
}

// symFloatOp: extended real arithmetic; finite symbolic values are reals.
func (p *Path) symFloatOp(op token.Token, x, y value) value {
	b := p.b
	fx, nx := nonFinite(x)
	fy, ny := nonFinite(y)
	if nx || ny {
		// pick a representative of the symbolic side by its sign
		rep := func(v value, f float64, isNF bool) float64 {
			if isNF {
				return f
			}
			if g, ok := v.(float64); ok {
				return g
			}
			if op == token.MUL || op == token.QUO {
				return float64(p.realSign(v))
			}
			return 0
		}
		ax, ay := rep(x, fx, nx), rep(y, fy, ny)
		return floatOp(op, ax, ay, 64)
	}
	tx, ty := p.toTerm(x, wReal), p.toTerm(y, wReal)
	switch op {
	case token.ADD:
		return p.fromReal(b.RBin(ORAdd, tx, ty))
	case token.SUB:
		return p.fromReal(b.RBin(ORSub, tx, ty))
	case token.MUL:
		return p.fromReal(b.RBin(ORMul, tx, ty))
	case token.QUO:
		z := b.Rat(ratZero)
		if p.branch(b.Eq(ty, z)) {
			switch p.realSign(x) {
			case 1:
				return math.Inf(1)
			case -1:
				return math.Inf(-1)
			}
			return math.NaN()
		}
		return p.fromReal(b.RBin(ORDiv, tx, ty))
	case token.LSS:
		return fromBool(b.RCmp(ORLt, tx, ty))
	case token.LEQ:
		return fromBool(b.RCmp(ORLe, tx, ty))
	case token.GTR:
		return fromBool(b.RCmp(ORLt, ty, tx))
	case token.GEQ:
		return fromBool(b.RCmp(ORLe, ty, tx))
	}
	panic("symFloatOp " + op.String())
}

func (p *Path) fromReal(t *Term) value {
	if t.isConst() {
		f, exact := t.r.Float64()
		if exact {
			return f
		}
	}
	return t
}

// ---- conversions ----

func (p *Path) conv(dst, src types.Type, x value) value {
	ud, us := dst.Underlying(), src.Underlying()
	if _, ok := ud.(*types.TypeParam); ok {
		p.unsupported("conversion to type parameter")
	}
	switch us := us.(type) {
	case *types.Pointer:
		return x // to unsafe.Pointer or pointer
	case *types.Slice:
		// []byte/[]rune -> string
		if b, ok := ud.(*types.Basic); ok && b.Info()&types.IsString != 0 {
			s := x.([]value)
			if eb := us.Elem().Underlying().(*types.Basic); eb.Kind() == types.Uint8 {
				return mkStr(s)
			}
			r := make([]rune, len(s))
			for i, c := range s {
				ci, ok := c.(int64)
				if !ok {
					ci = p.concInt(c, ikind{32, true})
				}
				r[i] = rune(ci)
			}
			return string(r)
		}
		return x
	case *types.Basic:
		if us.Kind() == types.UnsafePointer {
			return x
		}
		if us.Info()&types.IsString != 0 {
			switch ud := ud.(type) {
			case *types.Slice:
				if eb := ud.Elem().Underlying().(*types.Basic); eb.Kind() == types.Uint8 {
					return append(make([]value, 0, roundCap(strLen(p, x), 1)), strBytes(p, x)...)
				}
				if s, ok := x.(string); ok {
					rs := []rune(s)
					r := make([]value, len(rs))
					for i, c := range rs {
						r[i] = int64(c)
					}
					return r
				}
				var r []value
				bs := strBytes(p, x)
				for i := 0; i < len(bs); {
					ru, n := p.decodeRune(bs[i:])
					r = append(r, ru)
					i += n
				}
				return r
			case *types.Basic:
				return x
			}
		}
		bd, ok := ud.(*types.Basic)
		if !ok {
			break
		}
		switch {
		case us.Info()&types.IsInteger != 0:
			ks := ikind{widthOf(us.Kind()), isSigned(us.Kind())}
			switch {
			case bd.Info()&types.IsInteger != 0:
				kd := ikind{widthOf(bd.Kind()), isSigned(bd.Kind())}
				if t, ok := x.(*Term); ok {
					if ks.signed {
						return p.fromTerm(p.b.SExt(t, kd.w), kd)
					}
					return p.fromTerm(p.b.ZExt(t, kd.w), kd)
				}
				return kd.canon(uint64(x.(int64)))
			case bd.Info()&types.IsFloat != 0:
				if t, ok := x.(*Term); ok {
					if !ks.signed {
						t = p.b.ZExt(t, t.w+1)
					}
					return p.b.ToReal(t)
				}
				var f float64
				if ks.signed {
					f = float64(x.(int64))
				} else {
					f = float64(uint64(x.(int64)))
				}
				if bd.Kind() == types.Float32 {
					f = float64(float32(f))
				}
				return f
			case bd.Info()&types.IsString != 0:
				if t, ok := x.(*Term); ok {
					x = p.concInt(t, ks)
				}
				return string(rune(x.(int64)))
			case bd.Kind() == types.UnsafePointer:
				p.unsupported("integer to unsafe.Pointer")
			}
		case us.Info()&types.IsFloat != 0:
			switch {
			case bd.Info()&types.IsFloat != 0:
				if f, ok := x.(float64); ok && bd.Kind() == types.Float32 {
					return float64(float32(f))
				}
				return x
			case bd.Info()&types.IsInteger != 0:
				f, ok := x.(float64)
				if !ok {
					p.unsupported("symbolic real to integer")
				}
				kd := ikind{widthOf(bd.Kind()), isSigned(bd.Kind())}
				if kd.signed {
					return kd.canon(uint64(int64(f)))
				}
				return kd.canon(uint64(f))
			}
		case us.Info()&types.IsComplex != 0:
			return x
		}
	}
	p.unsupported("conversion %s -> %s (%T)", src, dst, x)
	return nil
}

func roundCap(n, elem int) int {
	if n == 0 {
		return 0
	}
	return roundupsize(n*elem) / elem
}

// decodeRune decodes the first UTF-8 sequence, forking on symbolic bytes.
func (p *Path) decodeRune(bs []value) (value, int) {
	if c, ok := bs[0].(int64); ok && c < 0x80 {
		return c, 1
	}
	if t, ok := bs[0].(*Term); ok {
		if p.branch(p.b.Cmp(OULt, t, p.b.BV(0x80, 8))) {
			return p.fromTerm(p.b.ZExt(t, 32), ikind{32, true}), 1
		}
	}
	n := len(bs)
	if n > 4 {
		n = 4
	}
	// interpret the real decoder
	fn := p.prog.pkgs["unicode/utf8"].Func("DecodeRune")
	r := p.call(p.sched.cur, p.sched.cur.top, fn, []value{append([]value(nil), bs[:n]...)}).(tuple)
	return r[0], int(p.concInt(r[1], ikind{64, true}))
}

// ---- type assertions ----

func (p *Path) typeAssert(in *ssa.TypeAssert, x iface) value {
	var v value
	ok := false
	msg := ""
	if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		if x.t == nil {
			msg = fmt.Sprintf("interface conversion: interface is nil, not %s", in.AssertedType)
		} else if m, _ := types.MissingMethod(x.t, it, true); m != nil {
			msg = fmt.Sprintf("interface conversion: %s is not %s: missing method %s", x.t, in.AssertedType, m.Name())
		} else {
			ok = true
			v = x
		}
		if !ok {
			v = iface{}
		}
	} else {
		if x.t != nil && types.Identical(x.t, in.AssertedType) {
			ok = true
			v = copyVal(x.v)
		} else {
			v = zero(in.AssertedType)
			if x.t == nil {
				msg = fmt.Sprintf("interface conversion: interface is nil, not %s", in.AssertedType)
			} else {
				msg = fmt.Sprintf("interface conversion: interface is %s, not %s", x.t, in.AssertedType)
			}
		}
	}
	if in.CommaOk {
		return tuple{v, ok}
	}
	if !ok {
		panic(targetPanic{iface{p.prog.rtErr, msg}})
	}
	return v
}

// ---- iteration ----

type mapIter struct {
	m    *Map
	ents []*mapEntry
	i    int
	free bool // explore iteration orders
	left []*mapEntry
}

type strIter struct {
	b []value
	s string
	i int
}

func (p *Path) rangeIter(fr *frame, x value, t types.Type) value {
	switch x := x.(type) {
	case *Map:
		it := &mapIter{m: x}
		if x != nil {
			p.raceRead(fr, &x.cell)
			for _, e := range x.ents {
				if !e.deleted {
					it.ents = append(it.ents, e)
				}
			}
			it.free = p.opts.mapOrder && fr.fi.repo
		}
		return it
	case string:
		return &strIter{s: x}
	default:
		return &strIter{b: strBytes(p, x)}
	}
}

func (p *Path) iterNext(fr *frame, it value, in *ssa.Next) value {
	switch it := it.(type) {
	case *mapIter:
		mt := in.Type().(*types.Tuple)
		if it.free {
			var live []*mapEntry
			for _, e := range it.ents {
				if !e.deleted {
					live = append(live, e)
				}
			}
			if len(live) == 0 {
				return tuple{false, zeroOrNil(mt.At(1).Type()), zeroOrNil(mt.At(2).Type())}
			}
			k := p.choose(len(live))
			e := live[k]
			var rest []*mapEntry
			for i, x := range live {
				if i != k {
					rest = append(rest, x)
				}
			}
			it.ents = rest
			return tuple{true, copyVal(e.k), copyVal(e.v)}
		}
		for it.i < len(it.ents) {
			e := it.ents[it.i]
			it.i++
			if e.deleted {
				continue
			}
			return tuple{true, copyVal(e.k), copyVal(e.v)}
		}
		return tuple{false, zeroOrNil(mt.At(1).Type()), zeroOrNil(mt.At(2).Type())}
	case *strIter:
		if it.b == nil {
			if it.i >= len(it.s) {
				return tuple{false, int64(0), int64(0)}
			}
			for n, r := range it.s[it.i:] {
				_ = n
				pos := it.i
				l := len(string(r))
				if r == 0xfffd {
					l = 1
					if len(it.s) >= it.i+3 && it.s[it.i:it.i+3] == "\ufffd" {
						l = 3
					}
				}
				it.i += l
				return tuple{true, int64(pos), int64(r)}
			}
		}
		if it.i >= len(it.b) {
			return tuple{false, int64(0), int64(0)}
		}
		r, n := p.decodeRune(it.b[it.i:])
		pos := it.i
		it.i += n
		return tuple{true, int64(pos), r}
	}
	panic("iterNext")
}

func zeroOrNil(t types.Type) value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return zero(t)
}
