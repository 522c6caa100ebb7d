package main

// Goroutines, visible operations and schedule exploration (sleep sets + DPOR).

import (
	"fmt"
	"go/token"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// vclock is a vector clock indexed by goroutine index.
type vclock []int32

func (v vclock) get(i int) int32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (v *vclock) set(i int, x int32) {
	for len(*v) <= i {
		*v = append(*v, 0)
	}
	(*v)[i] = x
}

func (v *vclock) join(o vclock) {
	for i, x := range o {
		if x > v.get(i) {
			v.set(i, x)
		}
	}
}

func (v vclock) clone() vclock { return append(vclock(nil), v...) }

// G is an interpreted goroutine, or an environment pseudo-goroutine (timer).
type G struct {
	id      string
	idx     int
	p       *Path
	resume  chan struct{}
	pending *POp
	done    bool
	env     bool
	nchild  int
	top     *frame
	depth   int
	vc      vclock // happens-before through synchronisation
	dvc     vclock // happens-before among dependent visible operations
	rclk    vclock // clock readings that happened before
	lidx    int32
	spawnAt token.Pos
	timer   *Timer
}

const (
	accRead = iota
	accWrite
)

// Obj is a scheduling-relevant object.
type Obj struct {
	id    int
	name  string
	dvcR  vclock
	dvcW  vclock
	rclkR vclock
	rclkW vclock
	s     *Sched
	ch    *Chan
	hist  []histEntry // accesses that can be the earlier end of a race
}

type acc struct {
	o     *Obj
	mode  int
	quiet bool // contributes ordering but is never the reversible end of a race
}

// POp is a pending visible operation.
type POp struct {
	name   string
	accs   []acc
	alts   func() []func() // empty when disabled
	low    bool            // only when nothing but timers is enabled (quiesce)
	settle bool            // ... and not even timers
	apart  bool            // ... and without being ordered after what happened
	ch     []chCase        // for rendezvous
	poll   bool            // has a default case
	dyn    func() []acc    // accesses that depend on the state
	res    any
	pos    token.Pos
}

type chCase struct {
	ch   *Chan
	send bool
	v    value
}

type histEntry struct {
	ev    *event
	mode  int
	fills bool // made a receive from an empty channel possible
	frees bool // made a send to a full channel possible
}

type event struct {
	idx    int
	dvc    vclock // what happens before the event, itself included
	g      *G
	g2     *G
	l1, l2 int32
	node   *schedNode
	decIdx int
	name   string
	where  string
}

type schedNode struct {
	mu      sync.Mutex
	enabled []string
	done    []string
	sleep   map[string]bool
}

// Sched is the scheduler state of a path.
type Sched struct {
	p       *Path
	gs      []*G
	cur     *G
	ready   []*G
	multi   bool
	live    int
	events  []*event
	sleep   map[string]bool
	guide   []string
	tail    bool // main has returned
	tailEnd int
	dead    bool
	wg      sync.WaitGroup
	fin     chan struct{}
	nobj    int
	cells   map[*value]*cellInfo
	mainG   *G
	quiet   int // events since main began waiting for quiescence
	trace   []string
	bounded bool // a tick bound was reached
	grace   int  // ticks beyond the bound
	status  status
	msg     string
	vioLab  string
	finOnce sync.Once
	tickers int
	partner *G
}

func (s *Sched) newObj(name string) *Obj {
	s.nobj++
	return &Obj{id: s.nobj, name: name, s: s}
}

func (g *G) where(n int) string {
	var out []string
	for fr := g.top; fr != nil && n > 0; fr = fr.caller {
		pos := token.NoPos
		if fr.cur != nil {
			pos = fr.cur.Pos()
		}
		ps := g.p.prog.fset.Position(pos)
		out = append(out, fmt.Sprintf("%s@%s:%d", fr.fi.fn.Name(), shortFile(ps.Filename), ps.Line))
		n--
	}
	return strings.Join(out, " < ")
}

// userWhere is the innermost position outside the standard library.
func (g *G) userWhere() string {
	for fr := g.top; fr != nil; fr = fr.caller {
		if (fr.fi.repo || fr.fi.harness) && fr.cur != nil && fr.cur.Pos().IsValid() {
			ps := g.p.prog.fset.Position(fr.cur.Pos())
			return fmt.Sprintf("%s:%d", shortFile(ps.Filename), ps.Line)
		}
	}
	return ""
}

func shortFile(f string) string {
	if i := strings.Index(f, "/repo/"); i >= 0 {
		return f[i+6:]
	}
	if i := strings.LastIndex(f, "/"); i >= 0 {
		return f[i+1:]
	}
	return f
}

// spawn starts an interpreted goroutine.
func (p *Path) spawn(parent *G, fn value, args []value, pos token.Pos) *G {
	s := p.sched
	if isNilFunc(fn) {
		p.goPanic("go of nil func value")
	}
	if s.live > 200 || len(s.gs) > 2000 {
		p.abort(stBound, "goroutine bound")
	}
	g := &G{p: p, idx: len(s.gs), resume: make(chan struct{}), spawnAt: pos}
	if parent != nil {
		g.id = fmt.Sprintf("%s.%d", parent.id, parent.nchild)
		parent.nchild++
		g.vc = parent.vc.clone()
		g.dvc = parent.dvc.clone()
		g.rclk = parent.rclk.clone()
		parent.vc.set(parent.idx, parent.vc.get(parent.idx)+1)
		s.multi = true
	} else {
		g.id = "m"
	}
	g.vc.set(g.idx, 1)
	s.gs = append(s.gs, g)
	s.live++
	s.ready = append(s.ready, g)
	s.wg.Add(1)
	go g.main(fn, args)
	return g
}

func (g *G) main(fn value, args []value) {
	p := g.p
	s := p.sched
	defer s.wg.Done()
	<-g.resume
	if s.dead {
		return
	}
	s.cur = g
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch r := r.(type) {
			case abortPath:
				if !s.dead {
					s.finish(r.st, r.msg)
				}
			case goexitPanic:
			case targetPanic:
				p.onPanic(g, r)
			default:
				s.finish(stUnsupported, fmt.Sprintf("engine error: %v [%s]\n%s", r, g.where(8), p.e.stackFor(r)))
			}
		}()
		p.call(g, nil, fn, args)
	}()
	if s.dead {
		return
	}
	g.done = true
	g.pending = nil
	s.live--
	if g == s.mainG {
		// what the other goroutines still do could as well have happened
		// before: let them, for its races with what main did
		s.tail = true
		s.tailEnd = len(s.events) + 300
	}
	// hand over
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			if a, ok := r.(abortPath); ok {
				if !s.dead {
					s.finish(a.st, a.msg)
				}
				return
			}
			s.finish(stUnsupported, fmt.Sprintf("engine error: %v\n%s", r, p.e.stackFor(r)))
		}()
		n := s.pick()
		if n != nil {
			s.cur = n
			n.resume <- struct{}{}
		}
	}()
}

// finish ends the path; all other goroutines are unwound.
func (s *Sched) finish(st status, msg string) {
	if s.dead {
		return
	}
	s.status, s.msg = st, msg
	s.dead = true
	for _, g := range s.gs {
		if !g.env && !g.done && g != s.cur {
			close(g.resume)
		}
	}
	close(s.fin)
}

// visible parks g at op and returns once op has been executed.
func (s *Sched) visible(g *G, op *POp) {
	if s.p.initing > 0 {
		a := op.alts()
		if len(a) == 0 {
			s.p.unsupported("blocking operation during package initialisation")
		}
		a[0]()
		s.unready(g)
		return
	}
	if op.pos == token.NoPos && g.top != nil && g.top.cur != nil {
		op.pos = g.top.cur.Pos()
	}
	g.pending = op
	for _, a := range op.accs {
		if o := a.o; o.s != s {
			// an object of the library outlives the path
			o.s = s
			o.dvcR, o.dvcW, o.rclkR, o.rclkW, o.hist = nil, nil, nil, nil, nil
		}
	}
	s.arrive(op)
	n := s.pick()
	if n == g {
		s.cur = g
		return
	}
	s.cur = n
	n.resume <- struct{}{}
	<-g.resume
	if s.dead {
		panic(abortPath{})
	}
	s.cur = g
}

// arrive wakes the sleeping operations that op gives a new partner.
func (s *Sched) arrive(op *POp) {
	if len(s.sleep) == 0 || len(op.ch) == 0 {
		return
	}
	for _, q := range s.gs {
		if !s.sleep[q.id] || q.pending == nil {
			continue
		}
		for _, c := range op.ch {
			for _, d := range q.pending.ch {
				if c.ch != nil && c.ch == d.ch && c.ch.cap == 0 && c.send != d.send {
					delete(s.sleep, q.id)
				}
			}
		}
	}
}

func (s *Sched) unready(g *G) {
	for i, x := range s.ready {
		if x == g {
			s.ready = append(s.ready[:i], s.ready[i+1:]...)
			return
		}
	}
}

func (s *Sched) setReady(g *G) {
	g.pending = nil
	if !g.env {
		s.ready = append(s.ready, g)
	}
}

func conflict(a, b []acc) bool {
	for _, x := range a {
		for _, y := range b {
			if x.o == y.o && (x.mode == accWrite || y.mode == accWrite) {
				return true
			}
		}
	}
	return false
}

// pick executes visible operations until some goroutine can run.
func (s *Sched) pick() *G {
	p := s.p
	for {
		if len(s.ready) > 0 {
			g := s.ready[0]
			s.ready = s.ready[1:]
			return g
		}
		var en []*G
		var alts [][]func()
		var low *G
		for _, g := range s.gs {
			if g.done || g.pending == nil {
				continue
			}
			if g.pending.low {
				low = g
				continue
			}
			if a := g.pending.alts(); len(a) > 0 {
				en = append(en, g)
				alts = append(alts, a)
			}
		}
		if s.tail {
			only := true
			for _, g := range en {
				only = only && g.env
			}
			if only && low == nil || len(s.events) > s.tailEnd {
				s.endRaces()
				p.abort(stDone, "")
			}
		}
		if low != nil {
			only := true
			for _, g := range en {
				if !g.env || low.pending.settle {
					only = false
				}
			}
			if only {
				// quiescent: every other goroutine is blocked
				if a := low.pending.alts(); len(a) > 0 {
					s.quiet = 0
					for _, g := range s.gs {
						low.dvc.join(g.dvc)
						if !low.pending.apart {
							low.vc.join(g.vc)
						}
						low.rclk.join(g.rclk)
					}
					a[0]()
					s.setReady(low)
					continue
				}
			}
			s.quiet++
			if !s.tail && s.quiet > p.e.cfg.Livelock {
				p.violation("livelock", fmt.Sprintf("goroutines keep running without making progress: %s", s.describeAll()))
			}
		}
		if len(en) == 0 {
			if s.bounded && s.grace < 3 {
				// all wait for the tickers: let them go on, so that only
				// what they cannot end is taken for a deadlock
				s.grace++
				s.bounded = false
				continue
			}
			s.endRaces()
			p.violation("deadlock", "all goroutines blocked: "+s.describeAll())
		}
		if len(s.events) > p.e.cfg.MaxEvents {
			s.endRaces()
			p.abort(stBound, "visible operation bound %d: %s", p.e.cfg.MaxEvents, s.describeAll())
		}
		k := 0
		var node *schedNode
		decIdx := -1
		if len(en) > 1 {
			if d := p.next('S'); d != nil {
				k = -1
				for i, g := range en {
					if g.id == d.gid {
						k = i
					}
				}
				if k < 0 {
					panic("engine: replay divergence in schedule: " + d.gid + " not enabled; " + s.describeAll())
				}
				for _, x := range d.sleep {
					s.sleep[x] = true
				}
				delete(s.sleep, d.gid)
				node = d.node
				decIdx = len(p.trail)
				p.trail = append(p.trail, *d)
			} else {
				var cand []int
				for i, g := range en {
					if !s.sleep[g.id] {
						cand = append(cand, i)
					}
				}
				if len(cand) == 0 {
					s.endRaces()
					p.abort(stSleep, "")
				}
				k = cand[0]
				guided := false
				for _, i := range cand {
					if len(s.guide) > 0 && en[i].id == s.guide[0] {
						k = i
						guided = true
					}
				}
				if guided {
					s.guide = s.guide[1:]
				} else {
					s.guide = nil
					for _, i := range cand {
						if en[i] == s.cur {
							k = i
						}
					}
				}
				node = &schedNode{sleep: map[string]bool{}}
				for _, g := range en {
					node.enabled = append(node.enabled, g.id)
				}
				for x := range s.sleep {
					node.sleep[x] = true
				}
				node.done = []string{en[k].id}
				decIdx = len(p.trail)
				p.trail = append(p.trail, Decision{kind: 'S', gid: en[k].id, node: node})
				if !p.e.cfg.DPOR {
					for _, i := range cand {
						if i != k {
							s.addBacktrack(decIdx, node, en[i].id, nil)
						}
					}
				}
			}
		} else if s.sleep[en[0].id] && !p.replaying() {
			s.endRaces()
			p.abort(stSleep, "")
		} else {
			delete(s.sleep, en[0].id)
			if !p.replaying() && len(s.guide) > 0 {
				if s.guide[0] == en[0].id {
					s.guide = s.guide[1:]
				} else {
					s.guide = nil
				}
			}
		}
		g := en[k]
		op := g.pending
		ai := 0
		if len(alts[k]) > 1 {
			ai = p.choose(len(alts[k]))
		}
		s.execute(g, op, alts[k][ai], node, decIdx)
	}
}

func (s *Sched) describeAll() string {
	var out []string
	for _, g := range s.gs {
		if g.done {
			continue
		}
		o := "running"
		if g.pending != nil {
			o = g.pending.name
			if g.pending.pos.IsValid() {
				ps := s.p.prog.fset.Position(g.pending.pos)
				o += fmt.Sprintf("@%s:%d", shortFile(ps.Filename), ps.Line)
			}
			if !g.env {
				if u := g.userWhere(); u != "" {
					o += " in " + u
				}
			}
		} else if g.env {
			continue
		}
		out = append(out, g.id+":"+o)
	}
	return strings.Join(out, "; ")
}

// now is op's accesses if it is performed in the current state: looking at a
// channel without being able to use it, and receiving from a closed one,
// commute with others doing the same.
func (op *POp) now() []acc {
	if op.dyn != nil {
		return append(op.dyn(), op.accs...)
	}
	if len(op.ch) == 0 {
		return op.accs
	}
	out := append([]acc(nil), op.accs...)
	k := 0
	for _, cs := range op.ch {
		c := cs.ch
		if c == nil {
			continue
		}
		look := false
		switch {
		case cs.send:
			look = !c.closed && len(c.buf) >= c.cap && c.cap > 0
		case c.closed:
			look = len(c.buf) == 0
		default:
			look = len(c.buf) == 0 && c.cap > 0
		}
		if op.poll && c.cap == 0 && !c.closed && len(op.ch) == 1 {
			look = true
		}
		if look {
			out[k].mode = accRead
		}
		k++
	}
	// one object may appear twice
	for i := range out {
		for j := range out {
			if out[i].o == out[j].o && out[j].mode == accWrite {
				out[i].mode = accWrite
			}
		}
	}
	return out
}

// execute runs one alternative of g's pending operation as an atomic event.
func (s *Sched) execute(g *G, op *POp, alt func(), node *schedNode, decIdx int) {
	p := s.p
	if !s.multi && !g.env {
		alt()
		s.setReady(g)
		return
	}
	accs := op.now()
	var sleepers map[*G][]acc
	if len(s.sleep) > 0 {
		sleepers = map[*G][]acc{}
		for _, q := range s.gs {
			if s.sleep[q.id] && q.pending != nil {
				sleepers[q] = q.pending.now()
			}
		}
	}
	ev := &event{g: g, node: node, decIdx: decIdx, name: op.name}
	s.partner = nil
	var pre []int
	for _, a := range accs {
		n := -1
		if c := a.o.ch; c != nil && c.cap > 0 && !c.closed {
			n = len(c.buf)
		}
		pre = append(pre, n)
	}
	for _, a := range accs {
		g.rclk.join(a.o.rclkW)
		if a.mode == accWrite {
			g.rclk.join(a.o.rclkR)
		}
	}
	// partner is set by rendezvous alternatives before completion
	var armed []*G
	if p.e.cfg.DPOR && node != nil {
		for _, q := range s.gs {
			if q.env && q != g && q.pending != nil && conflict(accs, q.pending.accs) && len(q.pending.alts()) > 0 {
				armed = append(armed, q)
			}
		}
	}
	old := s.cur
	s.cur = g
	alt()
	s.cur = old
	for _, q := range armed {
		// stopping a timer: it may also have fired just before
		if q.pending != nil && len(q.pending.alts()) == 0 && !node.sleep[q.id] {
			s.addBacktrack(decIdx, node, q.id, nil)
		}
	}
	g2 := s.partner
	if g2 != nil && g2.pending != nil {
		accs = op.accs
		accs = append(append([]acc(nil), accs...), g2.pending.accs...)
		ev.g2 = g2
	}
	s.races(g, op, accs)
	if g2 != nil {
		s.races(g2, g2.pending, accs)
	}
	if g2 != nil && node != nil && (len(g2.pending.ch) > 1 || g2.pending.poll) && p.e.cfg.DPOR && !node.sleep[g2.id] {
		// its other cases are its own to choose from
		for _, id := range node.enabled {
			if id == g2.id {
				s.addBacktrack(decIdx, node, id, nil)
			}
		}
	}
	// program order and dependency clocks
	g.lidx++
	ev.l1 = g.lidx
	g.dvc.set(g.idx, g.lidx)
	if g2 != nil {
		g2.lidx++
		ev.l2 = g2.lidx
		g2.dvc.set(g2.idx, g2.lidx)
		g.dvc.join(g2.dvc)
		g.rclk.join(g2.rclk)
	}
	for _, a := range accs {
		g.dvc.join(a.o.dvcW)
		g.rclk.join(a.o.rclkW)
		if a.mode == accWrite {
			g.dvc.join(a.o.dvcR)
			g.rclk.join(a.o.rclkR)
		}
	}
	if g2 != nil {
		g2.dvc = g.dvc.clone()
		g2.rclk = g.rclk.clone()
	}
	for i, a := range accs {
		if a.mode == accWrite {
			a.o.dvcW.join(g.dvc)
			a.o.rclkW.join(g.rclk)
		} else {
			a.o.dvcR.join(g.dvc)
			a.o.rclkR.join(g.rclk)
		}
		if a.quiet {
			continue
		}
		if n := len(a.o.hist); n > 0 && a.o.hist[n-1].ev == ev {
			if a.mode == accWrite {
				a.o.hist[n-1].mode = accWrite
			}
			continue
		}
		h := histEntry{ev: ev, mode: a.mode}
		if c := a.o.ch; c != nil && i < len(pre) && pre[i] >= 0 {
			h.fills = pre[i] == 0 && (len(c.buf) > 0 || c.closed)
			h.frees = pre[i] == c.cap && len(c.buf) < c.cap
		}
		a.o.hist = append(a.o.hist, h)
	}
	ev.idx = len(s.events)
	ev.dvc = g.dvc.clone()
	s.events = append(s.events, ev)
	if p.e.cfg.Trace || p.e.replayMode {
		s.trace = append(s.trace, fmt.Sprintf("%s %s %s", g.id, op.name, s.opWhere(g, op)))
	} else {
		ev.where = ""
	}
	// wake dependent sleepers
	if len(s.sleep) > 0 {
		for _, q := range s.gs {
			if s.sleep[q.id] && (q == g || q == g2 || q.pending == nil || conflict(sleepers[q], accs)) {
				delete(s.sleep, q.id)
			}
		}
	}
	if g2 != nil {
		s.setReady(g)
		s.setReady(g2)
	} else {
		s.setReady(g)
	}
	if g.env && g.timer != nil {
		g.timer.rearm()
	}
}

func (s *Sched) opWhere(g *G, op *POp) string {
	if op.pos.IsValid() {
		ps := s.p.prog.fset.Position(op.pos)
		w := fmt.Sprintf("%s:%d", shortFile(ps.Filename), ps.Line)
		if !g.env {
			if u := g.userWhere(); u != "" && u != w {
				w = u
			}
		}
		return w
	}
	return ""
}

// races finds the earlier events that race with the operation g is about to
// perform, and makes sure that the reversal of each race
// is explored: from the state before the event, some initial of what followed
// independently of it and then g's operation is explored (source sets, Abdulla
// et al., POPL 2014).
func (s *Sched) races(g *G, op *POp, accs []acc) {
	if !s.p.e.cfg.DPOR {
		return
	}
	var cand []*event
	for _, a := range accs {
		if a.quiet {
			continue
		}
		for i := len(a.o.hist) - 1; i >= 0; i-- {
			h := a.o.hist[i]
			f := h.ev
			if h.mode != accWrite && a.mode != accWrite {
				continue
			}
			if len(op.ch) == 1 && !op.poll && (h.fills && !op.ch[0].send || h.frees && op.ch[0].send) {
				continue // the operation was not possible before
			}
			if g.dvc.get(f.g.idx) >= f.l1 {
				continue
			}
			cand = append(cand, f)
		}
	}
	if len(cand) == 0 {
		return
	}
	sort.Slice(cand, func(i, j int) bool { return cand[i].idx > cand[j].idx })
	clk := g.dvc.clone()
	for _, a := range accs {
		clk.join(a.o.dvcW)
		if a.mode == accWrite {
			clk.join(a.o.dvcR)
		}
	}
	var rev []*event
next:
	for i, f := range cand {
		if i > 0 && cand[i-1] == f {
			continue
		}
		for _, r := range rev {
			if r.dvc.get(f.g.idx) >= f.l1 {
				continue next // not adjacent: reversed after r is
			}
		}
		if s.backtrack(f, g, clk) {
			rev = append(rev, f)
		}
	}
}

// backtrack has the reversal of f and the next operation of g explored. It
// reports whether they can be reversed.
func (s *Sched) backtrack(f *event, g *G, clk vclock) bool {
	if f.node == nil {
		return false
	}
	node := f.node
	first := map[int]int32{}
	var init, seq []string
	add := func(x *G) {
		for _, id := range node.enabled {
			if id == x.id {
				init = append(init, id)
			}
		}
	}
	free := func(c vclock) bool {
		for q, l := range first {
			if c.get(q) >= l {
				return false
			}
		}
		return true
	}
	for _, e := range s.events[f.idx+1:] {
		if e.dvc.get(f.g.idx) >= f.l1 {
			continue
		}
		seq = append(seq, e.g.id)
		if free(e.dvc) {
			add(e.g) // a meeting is performed by its sender
		}
		if _, ok := first[e.g.idx]; !ok {
			first[e.g.idx] = e.l1
		}
		if e.g2 != nil {
			if _, ok := first[e.g2.idx]; !ok {
				first[e.g2.idx] = e.l2
			}
		}
	}
	own := false
	if free(clk) {
		n := len(init)
		add(g)
		own = len(init) > n
	}
	if len(init) == 0 {
		return false
	}
	node.mu.Lock()
	for _, c := range init {
		if node.sleep[c] {
			node.mu.Unlock()
			return true
		}
		for _, d := range node.done {
			if c == d {
				node.mu.Unlock()
				return true
			}
		}
	}
	node.mu.Unlock()
	id := init[0]
	if own {
		id = init[len(init)-1]
	}
	seq = append(seq, g.id)
	for i, x := range seq {
		if x == id {
			seq = append(seq[:i], seq[i+1:]...)
			break
		}
	}
	s.addBacktrack(f.decIdx, node, id, seq)
	return true
}

func (s *Sched) addBacktrack(decIdx int, node *schedNode, gid string, guide []string) {
	node.mu.Lock()
	for _, d := range node.done {
		if d == gid {
			node.mu.Unlock()
			return
		}
	}
	sl := append([]string(nil), node.done...)
	node.done = append(node.done, gid)
	node.mu.Unlock()
	it := &workItem{prefix: make([]Decision, decIdx+1)}
	copy(it.prefix, s.p.trail[:decIdx])
	it.prefix[decIdx] = Decision{kind: 'S', gid: gid, node: node, sleep: sl}
	it.guide = guide
	s.p.e.add(it)
}

// endRaces checks operations still pending when the path ends.
func (s *Sched) endRaces() {
	for _, g := range s.gs {
		if g.env && g.pending != nil && len(g.pending.alts()) == 0 {
			continue // a timer that is stopped or beyond the horizon
		}
		if !g.done && g.pending != nil && !g.pending.low {
			s.races(g, g.pending, g.pending.accs)
		}
	}
}

// ---- channels ----

type Chan struct {
	id      int
	cap     int
	buf     []value
	bvc     []vclock
	closed  bool
	closeVC vclock
	recvVC  []vclock // clocks of completed receives, for capacity edges
	nsend   int
	obj     *Obj
	zero    func() value
}

func (p *Path) newChan(n int, _ any) *Chan {
	p.sched.nobj++
	c := &Chan{id: p.sched.nobj, cap: n}
	c.obj = &Obj{id: c.id, name: fmt.Sprintf("chan#%d", c.id), ch: c, s: p.sched}
	return c
}

func (g *G) tick() { g.vc.set(g.idx, g.vc.get(g.idx)+1) }

// doSend puts v in the buffer (which has room).
func (c *Chan) doSend(g *G, v value) {
	if c.cap > 0 && c.nsend >= c.cap && c.nsend-c.cap < len(c.recvVC) {
		g.vc.join(c.recvVC[c.nsend-c.cap])
	}
	c.nsend++
	c.buf = append(c.buf, v)
	c.bvc = append(c.bvc, g.vc.clone())
	g.tick()
}

func (c *Chan) doRecv(g *G) (value, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		g.vc.join(c.bvc[0])
		c.buf = append([]value(nil), c.buf[1:]...)
		c.bvc = append([]vclock(nil), c.bvc[1:]...)
		c.recvVC = append(c.recvVC, g.vc.clone())
		g.tick()
		return v, true
	}
	g.vc.join(c.closeVC)
	return nil, false
}

type chRes struct {
	idx   int
	v     value
	ok    bool
	panic bool
}

// caseAlts lists ways to complete the given cases. definite reports whether
// some case is ready irrespective of whether a partner has arrived.
func (s *Sched) caseAlts(g *G, cases []chCase, op *POp) (alts []func(), definite bool) {
	for i := range cases {
		i := i
		cs := cases[i]
		c := cs.ch
		if c == nil {
			continue
		}
		if cs.send {
			if c.closed {
				definite = true
				alts = append(alts, func() { op.res = chRes{idx: i, panic: true} })
				continue
			}
			if len(c.buf) < c.cap {
				definite = true
				alts = append(alts, func() { c.doSend(g, cs.v); op.res = chRes{idx: i} })
				continue
			}
			if c.cap == 0 {
				// rendezvous with any waiting receiver
				for _, q := range s.gs {
					if q == g || q.done || q.pending == nil {
						continue
					}
					qop := q.pending
					if qop.poll && op.poll {
						continue // two polls never meet: neither waits
					}
					for j, qc := range qop.ch {
						if qc.ch == c && !qc.send {
							q, j := q, j
							alts = append(alts, func() {
								s.partner = q
								op.res = chRes{idx: i}
								qop.res = chRes{idx: j, v: cs.v, ok: true}
								gv := g.vc.clone()
								g.vc.join(q.vc)
								q.vc.join(gv)
								g.tick()
								q.tick()
							})
						}
					}
				}
			}
		} else {
			if len(c.buf) > 0 || c.closed {
				definite = true
				alts = append(alts, func() {
					v, ok := c.doRecv(g)
					op.res = chRes{idx: i, v: v, ok: ok}
				})
			}
		}
	}
	return
}

func (p *Path) chanOp(g *G, name string, cases []chCase, nonblock bool) chRes {
	s := p.sched
	op := &POp{name: name}
	for _, c := range cases {
		if c.ch != nil {
			op.accs = append(op.accs, acc{o: c.ch.obj, mode: accWrite})
		}
	}
	op.ch = cases
	op.poll = nonblock
	op.alts = func() []func() {
		a, def := s.caseAlts(g, cases, op)
		if nonblock && !def {
			a = append(a, func() { op.res = chRes{idx: -1} })
		}
		return a
	}
	s.visible(g, op)
	return op.res.(chRes)
}

func (p *Path) chanSend(g *G, c *Chan, v value) {
	r := p.chanOp(g, "send", []chCase{{c, true, v}}, false)
	if r.panic {
		p.goPanic("send on closed channel")
	}
}

func (p *Path) chanRecv(g *G, c *Chan) (value, bool) {
	r := p.chanOp(g, "recv", []chCase{{c, false, nil}}, false)
	return r.v, r.ok
}

func (p *Path) chanClose(g *G, c *Chan) {
	if c == nil {
		p.goPanic("close of nil channel")
	}
	bad := false
	p.sched.visible(g, p.simpleOp("close", []acc{{o: c.obj, mode: accWrite}}, func() {
		if c.closed {
			bad = true
			return
		}
		c.closed = true
		c.closeVC = g.vc.clone()
		g.tick()
	}))
	if bad {
		p.goPanic("close of closed channel")
	}
}

// simpleOp is an always-enabled operation.
func (p *Path) simpleOp(name string, accs []acc, f func()) *POp {
	a := []func(){f}
	return &POp{name: name, accs: accs, alts: func() []func() { return a }}
}

func (p *Path) selectStmt(fr *frame, in *ssa.Select, c *cins) value {
	cases := make([]chCase, len(in.States))
	oi := 0
	for i, st := range in.States {
		ch := p.get(fr, &c.ops[oi]).(*Chan)
		oi++
		v := p.get(fr, &c.ops[oi])
		oi++
		cases[i].ch = ch
		if st.Dir == sendDir {
			cases[i].send = true
			cases[i].v = copyVal(v)
		}
	}
	r := p.chanOp(fr.g, "select", cases, !in.Blocking)
	if r.panic {
		p.goPanic("send on closed channel")
	}
	out := tuple{int64(r.idx), r.ok}
	for i, st := range in.States {
		if st.Dir != sendDir {
			v := zero(chanElem(st.Chan.Type()))
			if i == r.idx && r.v != nil {
				v = r.v
			}
			out = append(out, v)
		}
	}
	return out
}
