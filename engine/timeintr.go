package main

// The clock is symbolic: every reading is an arbitrary value not before the
// previous one. Timers and tickers fire at any moment not before their
// deadline, as environment steps interleaved with the goroutines.

import (
	"fmt"
	"go/types"
	"math"
	"time"
)

const (
	clockLo = int64(1) << 60
	clockHi = clockLo + int64(1)<<45
	clockMx = int64(1) << 61
)

type Timer struct {
	g        *G
	active   bool
	dormant  bool // its deadline lies beyond the horizon
	deadline *Term
	period   value // ticker
	ch       *Chan
	fn       value
	fired    int
	obj      *Obj
	op       *POp
}

func mkTime(ns value) structure { return structure{int64(1), ns, (*value)(nil)} }

// timeNS returns the nanoseconds of a Time; ok is false for the zero Time.
func (p *Path) timeNS(v value) (*Term, bool) {
	s := v.(structure)
	w, isC := s[0].(int64)
	if isC && w == 1 {
		return p.toTerm(s[1], 64), true
	}
	if e, ok := s[1].(int64); isC && ok && w == 0 && e == 0 {
		return nil, false
	}
	p.unsupported("time value not produced by the clock model")
	return nil, false
}

// reading is one look at the clock.
type reading struct {
	t     *Term
	known vclock // the readings that happened before it
}

// tickClock reads the clock in g: a value at least lower and not before any
// reading that happened before. Readings that are not ordered by the program's
// synchronisation are not ordered here either: any order of their values is
// that of some interleaving.
func (p *Path) tickClock(g *G, lower *Term) *Term {
	b := p.b
	t := p.newRanged(64, clockLo, clockMx)
	p.input("now", fmt.Sprintf("now%d", p.nclock), t)
	p.nclock++
	var lows []*Term
	for i, n := range g.rclk {
		if n == 0 {
			continue
		}
		dominated := false
		for j, m := range g.rclk {
			if j != i && m > 0 && p.readings[j][m-1].known.get(i) >= n {
				dominated = true
				break
			}
		}
		if !dominated {
			lows = append(lows, p.readings[i][n-1].t)
		}
	}
	if lower != nil {
		lows = append(lows, lower)
	}
	hi := clockMx
	if p.clock0 == nil {
		p.clock0 = t
		hi = clockHi
	}
	c := b.And(b.Cmp(OSLe, b.BV(uint64(clockLo), 64), t), b.Cmp(OSLe, t, b.BV(uint64(hi), 64)))
	for _, l := range lows {
		c = b.And(c, b.Cmp(OSLe, l, t))
	}
	if p.opts.horizon > 0 && p.clock0 != t {
		c = b.And(c, b.Cmp(OSLt, t, b.Bin(OAdd, p.clock0, b.BV(uint64(p.opts.horizon), 64))))
	}
	if p.model != nil {
		if _, ok := p.seed[t.name]; !ok {
			v := mval{c: uint64(clockLo), ok: true}
			for _, l := range lows {
				x := p.model.eval(b, l)
				if !x.ok {
					v.ok = false
				} else if int64(x.c) > int64(v.c) {
					v.c = x.c
				}
			}
			if v.ok {
				p.model.bv[t] = v.c
			}
		}
	}
	if p.readings == nil {
		p.readings = map[int][]reading{}
	}
	p.readings[g.idx] = append(p.readings[g.idx], reading{t, g.rclk.clone()})
	g.rclk.set(g.idx, int32(len(p.readings[g.idx])))
	p.assume(c)
	return t
}

func (p *Path) now(g *G) *Term { return p.tickClock(g, nil) }

func (t *Timer) rearm() {
	if t.period == nil {
		t.active = false
	}
	t.g.pending = t.op
}

func (p *Path) newTimer(g *G, d value, period bool, fn value, ch *Chan) *Timer {
	s := p.sched
	t := &Timer{fn: fn, ch: ch, obj: s.newObj("timer")}
	e := &G{p: p, idx: len(s.gs), env: true, timer: t, id: fmt.Sprintf("%s.t%d", g.id, g.nchild)}
	g.nchild++
	e.vc = g.vc.clone()
	e.dvc = g.dvc.clone()
	e.rclk = g.rclk.clone()
	g.tick()
	s.gs = append(s.gs, e)
	s.multi = true
	t.g = e
	if period {
		t.period = d
	}
	accs := []acc{{o: t.obj, mode: accWrite}}
	if ch != nil {
		accs = append(accs, acc{o: ch.obj, mode: accWrite})
	}
	fire := func() {
		t.fired++
		now := p.tickClock(e, t.deadline)
		if t.period != nil {
			t.deadline = p.b.Bin(OAdd, now, p.toTerm(t.period, 64))
		}
		if t.fn != nil {
			p.spawn(e, t.fn, nil, 0)
			return
		}
		if len(ch.buf) < ch.cap {
			ch.doSend(e, mkTime(p.fromTerm(now, k64)))
		}
	}
	a := []func(){fire}
	t.op = &POp{name: "timer", accs: accs, alts: func() []func() {
		if !t.active || t.dormant {
			return nil
		}
		if t.period != nil && t.fired >= p.opts.ticks+s.grace {
			s.bounded = true
			return nil
		}
		return a
	}}
	e.pending = t.op
	t.active = true
	if n, ok := d.(int64); ok && p.opts.horizon > 0 && n >= p.opts.horizon {
		t.dormant = true
		return t
	}
	base := p.tickClock(g, nil)
	e.rclk = g.rclk.clone()
	t.deadline = p.b.Bin(OAdd, base, p.toTerm(d, 64))
	return t
}

func (p *Path) timerOf(v value) *Timer {
	ptr := v.(*value)
	if ptr == nil {
		p.goPanic("invalid memory address or nil pointer dereference")
	}
	t, ok := p.side[sideKey{'t', ptr}].(*Timer)
	if !ok {
		panic(targetPanic{iface{p.prog.rtErr, "time: Stop called on uninitialized Timer"}})
	}
	return t
}

func (p *Path) timeType(n string) types.Type { return p.prog.pkgs["time"].Type(n).Type() }

func registerTime(I map[string]intrinsic) {
	I["time.Now"] = func(g *G, fr *frame, a []value) value { return mkTime(g.p.now(g)) }
	I["time.Since"] = func(g *G, fr *frame, a []value) value { return g.p.timeSub(mkTime(g.p.now(g)), a[0]) }
	I["time.Until"] = func(g *G, fr *frame, a []value) value { return g.p.timeSub(a[0], mkTime(g.p.now(g))) }
	I["(time.Time).Sub"] = func(g *G, fr *frame, a []value) value { return g.p.timeSub(a[0], a[1]) }
	I["(time.Time).Add"] = func(g *G, fr *frame, a []value) value {
		p := g.p
		t, ok := p.timeNS(a[0])
		if !ok {
			if d, c := a[1].(int64); c && d == 0 {
				return a[0]
			}
			p.unsupported("Add to the zero Time")
		}
		return mkTime(p.fromTerm(p.b.Bin(OAdd, t, p.toTerm(a[1], 64)), k64))
	}
	cmp := func(f func(p *Path, x, y *Term) *Term, zx, zy, zz bool) intrinsic {
		return func(g *G, fr *frame, a []value) value {
			p := g.p
			x, ok1 := p.timeNS(a[0])
			y, ok2 := p.timeNS(a[1])
			switch {
			case !ok1 && !ok2:
				return zz
			case !ok1:
				return zx
			case !ok2:
				return zy
			}
			return fromBool(f(p, x, y))
		}
	}
	I["(time.Time).Before"] = cmp(func(p *Path, x, y *Term) *Term { return p.b.Cmp(OSLt, x, y) }, true, false, false)
	I["(time.Time).After"] = cmp(func(p *Path, x, y *Term) *Term { return p.b.Cmp(OSLt, y, x) }, false, true, false)
	I["(time.Time).Equal"] = cmp(func(p *Path, x, y *Term) *Term { return p.b.Eq(x, y) }, false, false, true)
	I["(time.Time).Compare"] = func(g *G, fr *frame, a []value) value {
		p := g.p
		if p.branch(p.boolTerm(I["(time.Time).Before"](g, fr, a))) {
			return int64(-1)
		}
		if p.branch(p.boolTerm(I["(time.Time).After"](g, fr, a))) {
			return int64(1)
		}
		return int64(0)
	}
	I["(time.Time).IsZero"] = func(g *G, fr *frame, a []value) value { _, ok := g.p.timeNS(a[0]); return !ok }
	div := func(n int64) intrinsic {
		return func(g *G, fr *frame, a []value) value {
			p := g.p
			t, ok := p.timeNS(a[0])
			if !ok {
				if n == 1000000000 {
					return int64(-62135596800)
				}
				return int64(math.MinInt64)
			}
			if n == 1 {
				return p.fromTerm(t, k64)
			}
			return p.fromTerm(p.b.Bin(OSDiv, t, p.b.BV(uint64(n), 64)), k64)
		}
	}
	I["(time.Time).UnixNano"] = div(1)
	I["(time.Time).UnixMicro"] = div(1000)
	I["(time.Time).UnixMilli"] = div(1000000)
	I["(time.Time).Unix"] = div(1000000000)
	id := func(g *G, fr *frame, a []value) value { return a[0] }
	for _, n := range []string{"UTC", "Local", "In"} {
		I["(time.Time)."+n] = id
	}
	I["(time.Time).Round"] = func(g *G, fr *frame, a []value) value {
		if d, ok := a[1].(int64); ok && d <= 0 {
			return a[0]
		}
		g.p.unsupported("Time.Round")
		return nil
	}
	I["(time.Time).Format"] = func(g *G, fr *frame, a []value) value {
		t, ok := g.p.timeNS(a[0])
		if ok && t.isConst() {
			return time.Unix(0, int64(t.c)).UTC().Format(str(g.p, a[1]))
		}
		if !ok {
			return time.Time{}.Format(str(g.p, a[1]))
		}
		return &Opaque{"time"}
	}
	I["(time.Time).String"] = func(g *G, fr *frame, a []value) value {
		if _, ok := g.p.timeNS(a[0]); !ok {
			return time.Time{}.String()
		}
		return &Opaque{"time"}
	}
	I["time.Unix"] = func(g *G, fr *frame, a []value) value {
		p := g.p
		s, n := p.toTerm(a[0], 64), p.toTerm(a[1], 64)
		return mkTime(p.fromTerm(p.b.Bin(OAdd, p.b.Bin(OMul, s, p.b.BV(1000000000, 64)), n), k64))
	}
	I["(time.Duration).String"] = func(g *G, fr *frame, a []value) value {
		if d, ok := a[0].(int64); ok {
			return time.Duration(d).String()
		}
		return fmt.Sprintf("\x00duration#%d", a[0].(*Term).id)
	}
	I["time.Sleep"] = func(g *G, fr *frame, a []value) value {
		p := g.p
		run := func() {
			now := p.tickClock(g, nil)
			p.tickClock(g, p.b.Bin(OAdd, now, p.toTerm(a[0], 64)))
		}
		if !p.sched.multi {
			run()
			return nil
		}
		p.sched.visible(g, p.simpleOp("time.Sleep", nil, run))
		return nil
	}
	mkTimer := func(g *G, typ string, d value, period bool, fn value) value {
		p := g.p
		cell := new(value)
		st := zero(p.timeType(typ)).(structure)
		*cell = st
		var ch *Chan
		if fn == nil {
			ch = p.newChan(1, nil)
			st[0] = ch
		}
		p.side[sideKey{'t', cell}] = p.newTimer(g, d, period, fn, ch)
		return cell
	}
	I["time.NewTimer"] = func(g *G, fr *frame, a []value) value { return mkTimer(g, "Timer", a[0], false, nil) }
	I["time.AfterFunc"] = func(g *G, fr *frame, a []value) value { return mkTimer(g, "Timer", a[0], false, a[1]) }
	I["time.NewTicker"] = func(g *G, fr *frame, a []value) value {
		p := g.p
		if p.branch(p.b.Cmp(OSLe, p.toTerm(a[0], 64), p.b.BV(0, 64))) {
			panic(targetPanic{iface{p.prog.rtErr, "non-positive interval for NewTicker"}})
		}
		return mkTimer(g, "Ticker", a[0], true, nil)
	}
	I["time.After"] = func(g *G, fr *frame, a []value) value {
		c := mkTimer(g, "Timer", a[0], false, nil).(*value)
		return (*c).(structure)[0]
	}
	I["time.Tick"] = func(g *G, fr *frame, a []value) value {
		p := g.p
		if p.branch(p.b.Cmp(OSLe, p.toTerm(a[0], 64), p.b.BV(0, 64))) {
			return (*Chan)(nil)
		}
		c := mkTimer(g, "Ticker", a[0], true, nil).(*value)
		return (*c).(structure)[0]
	}
	stop := func(g *G, fr *frame, a []value) value {
		p := g.p
		t := p.timerOf(a[0])
		was := false
		p.sched.visible(g, p.simpleOp("timer.Stop", []acc{{o: t.obj, mode: accWrite}}, func() {
			was = t.active
			t.active = false
		}))
		return was
	}
	I["(*time.Timer).Stop"] = stop
	I["(*time.Ticker).Stop"] = func(g *G, fr *frame, a []value) value { stop(g, fr, a); return nil }
	reset := func(g *G, fr *frame, a []value) value {
		p := g.p
		t := p.timerOf(a[0])
		was := false
		p.sched.visible(g, p.simpleOp("timer.Reset", []acc{{o: t.obj, mode: accWrite}}, func() {
			was = t.active
			t.active = true
			t.dormant = false
			if n, ok := a[1].(int64); ok && p.opts.horizon > 0 && n >= p.opts.horizon {
				t.dormant = true
			} else {
				t.deadline = p.b.Bin(OAdd, p.tickClock(g, nil), p.toTerm(a[1], 64))
			}
			if t.period != nil {
				t.period = a[1]
			}
			t.g.vc.join(g.vc)
			g.tick()
		}))
		return was
	}
	I["(*time.Timer).Reset"] = reset
	I["(*time.Ticker).Reset"] = func(g *G, fr *frame, a []value) value { reset(g, fr, a); return nil }
}

func (p *Path) timeSub(x, y value) value {
	a, ok1 := p.timeNS(x)
	c, ok2 := p.timeNS(y)
	switch {
	case ok1 && ok2:
		return p.fromTerm(p.b.Bin(OSub, a, c), k64)
	case ok1:
		return int64(math.MaxInt64)
	case ok2:
		return int64(math.MinInt64)
	}
	return int64(0)
}
