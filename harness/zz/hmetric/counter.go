// Package hmetric holds the harnesses for pkg/metric.
package hmetric

import (
	"sync"
	"time"

	"github.com/BTBurke/monny/pkg/metric"
	"github.com/BTBurke/monny/zzverif/sym"
)

func add(label string) uint { return uint(sym.Uint64(label)) }

// Counter: any sequence of adds, reads and resets of a plain counter.
func Counter(ops int) {
	c := metric.NewCounter()
	want := 0
	for i := 0; i < ops; i++ {
		switch sym.Choose("op", 3) {
		case 0:
			n := add("n")
			c.Add(n)
			want += int(n)
		case 1:
			c.Reset()
			want = 0
		}
		sym.Log("value", c.Value())
		sym.Assert(c.Value() == want, "a counter is the sum since creation or reset")
	}
}

// an operation of a concurrent schedule: kind 0 add, 1 reset, 2 read
type cop struct {
	kind int
	n    uint
	got  int
}

// explains says whether some interleaving of the goroutines' operations, run
// one at a time, gives every read the value it returned and ends in final.
func explains(seqs [][]cop, at []int, value int, final int) bool {
	r := false
	done := true
	for g := range seqs {
		if at[g] == len(seqs[g]) {
			continue
		}
		done = false
		o := seqs[g][at[g]]
		ok := true
		v := value
		switch o.kind {
		case 0:
			v += int(o.n)
		case 1:
			v = 0
		case 2:
			ok = o.got == value
		}
		at[g]++
		r = sym.Or(r, sym.And(ok, explains(seqs, at, v, final)))
		at[g]--
	}
	if done {
		return value == final
	}
	return r
}

type counterI interface {
	Value() int
	Add(uint)
	Reset()
}

func drive(c counterI, gs, per int, kinds int) {
	seqs := make([][]cop, gs)
	for g := range seqs {
		for i := 0; i < per; i++ {
			o := cop{kind: sym.Choose("kind", kinds)}
			if o.kind == 0 {
				o.n = add("n")
			}
			seqs[g] = append(seqs[g], o)
		}
	}
	var wg sync.WaitGroup
	for g := range seqs {
		wg.Add(1)
		go func(ops []cop) {
			defer wg.Done()
			for i := range ops {
				switch ops[i].kind {
				case 0:
					c.Add(ops[i].n)
				case 1:
					c.Reset()
				case 2:
					ops[i].got = c.Value()
				}
			}
		}(seqs[g])
	}
	wg.Wait()
	final := c.Value()
	sym.Assert(explains(seqs, make([]int, gs), 0, final), "every read and the final value agree with one order of the operations")
	sym.Cover("joined")
}

// Concurrent: goroutines adding, resetting and reading one concurrent counter.
func Concurrent(gs, per int) {
	drive(metric.NewConcurrentCounter(), gs, per, 3)
}

// ConcurrentZero: the same on a windowed counter whose single window never
// closes.
func ConcurrentZero(gs, per int) {
	drive(metric.NewConcurrentWindowedCounter(0), gs, per, 3)
}

// ConcurrentWindowed: adds from several goroutines while windows close and
// histories are read; every add ends up in exactly one window.
func ConcurrentWindowed(adders, per, readers int) {
	d := time.Duration(sym.Int64In("window", 1, int64(time.Hour)))
	c := metric.NewConcurrentWindowedCounter(d)
	total := 0
	vals := make([][]uint, adders)
	for g := range vals {
		for i := 0; i < per; i++ {
			n := uint(sym.IntIn("n", 0, 1<<20))
			vals[g] = append(vals[g], n)
			total += int(n)
		}
	}
	var wg sync.WaitGroup
	for g := range vals {
		wg.Add(1)
		go func(ns []uint) {
			defer wg.Done()
			for _, n := range ns {
				c.Add(n)
			}
		}(vals[g])
	}
	sums := make([]int, readers)
	for r := 0; r < readers; r++ {
		wg.Add(1)
		kind := sym.Choose("reader", 3)
		go func(r int) {
			defer wg.Done()
			switch kind {
			case 0:
				sums[r] = c.Value()
			case 1:
				for _, h := range c.HistoryInclusive() {
					sums[r] += h.Value()
				}
			case 2:
				for _, h := range c.History() {
					sums[r] += h.Value()
				}
			}
		}(r)
	}
	wg.Wait()
	sum := 0
	for _, h := range c.HistoryInclusive() {
		sum += h.Value()
	}
	sym.Assert(sum == total, "no concurrent add is lost or counted twice")
	for r := range sums {
		ok := false
		for m := 0; m < 1<<uint(adders*per); m++ {
			s := 0
			k := 0
			for g := range vals {
				for _, n := range vals[g] {
					if m>>uint(k)&1 == 1 {
						s += int(n)
					}
					k++
				}
			}
			ok = sym.Or(ok, sums[r] == s)
		}
		sym.Assert(ok, "a concurrent read is a sum of whole adds")
	}
	sym.Cover("joined")
}

// win is one expected window.
type win struct {
	lo, hi time.Time // when it was opened: between these readings
	n      int
}

// Windowed: a windowed counter under an arbitrary clock. The clock is read
// before and after each call, so the moment at which the counter acted is
// known up to that bracket and the expectation does not depend on how often
// the code reads the clock.
func Windowed(ops int, zero int) {
	d := time.Duration(0)
	if zero == 0 {
		d = time.Duration(sym.Int64In("window", 1, int64(time.Hour)))
	}
	t0 := time.Now()
	c := metric.NewWindowedCounter(d)
	t1 := time.Now()
	wins := []win{{t0, t1, 0}}
	check := func() {
		h := c.HistoryInclusive()
		sym.Assert(len(h) == len(wins), "one entry per window")
		for i := range h {
			sym.Assert(h[i].Value() == wins[i].n, "every add is counted in the window it fell in")
			sym.Assert(sym.And(sym.Not(h[i].Start().Before(wins[i].lo)), sym.Not(h[i].Start().After(wins[i].hi))), "a window starts at the add that opened it")
			sym.Assert(h[i].Duration() == d, "every window has the configured duration")
		}
	}
	for i := 0; i < ops; i++ {
		switch sym.Choose("op", 3) {
		case 0:
			n := add("n")
			before := c.HistoryInclusive()
			cur := before[len(before)-1]
			end := cur.Start().Add(d)
			t0 := time.Now()
			c.Add(n)
			t1 := time.Now()
			after := c.HistoryInclusive()
			grew := len(after) != len(before)
			sym.Log("grew", grew)
			if zero == 1 {
				sym.Assert(!grew, "the window of duration zero never closes")
			} else if grew {
				sym.Assert(len(after) == len(before)+1, "an add opens at most one window")
				sym.Assert(sym.Not(t1.Before(end)), "an add before the end of the window counts toward it")
			} else {
				sym.Assert(t0.Before(end), "an add after the end of the window opens a new one")
			}
			if grew {
				wins = append(wins, win{t0, t1, int(n)})
			} else {
				wins[len(wins)-1].n += int(n)
			}
		case 1:
			h := c.HistoryInclusive()
			end := h[len(h)-1].Start().Add(d)
			t0 := time.Now()
			v := c.Value()
			t1 := time.Now()
			n := wins[len(wins)-1].n
			sym.Log("value", v)
			if zero == 1 {
				sym.Assert(v == n, "the window of duration zero never closes")
			} else {
				sym.Assert(sym.Implies(t1.Before(end), v == n), "Value is the open window's count")
				sym.Assert(sym.Implies(t0.After(end), v == 0), "Value is zero once the window has elapsed")
				sym.Assert(sym.Or(v == n, v == 0), "Value is the open window's count or zero")
			}
		case 2:
			t0 := time.Now()
			c.Reset()
			t1 := time.Now()
			wins = []win{{t0, t1, 0}}
			sym.Cover("reset")
		}
		check()
	}
}

// EmptyWindowed: the documented zero value counts without windowing.
func EmptyWindowed(ops int) {
	c := &metric.WindowedCounter{}
	want := 0
	for i := 0; i < ops; i++ {
		switch sym.Choose("op", 3) {
		case 0:
			n := add("n")
			c.Add(n)
			want += int(n)
		case 1:
			c.Reset()
			want = 0
		}
		sym.Assert(c.Value() == want, "an empty windowed counter counts without windowing")
	}
}

// closed is an expected closed window.
type snap struct {
	got  []metric.Counter
	copy []metric.Counter
}

func (s snap) unchanged() {
	ok := true
	for i := range s.got {
		ok = sym.And(ok, sym.And(s.got[i].Value() == s.copy[i].Value(), s.got[i].Start().Equal(s.copy[i].Start())))
	}
	sym.Assert(ok, "a returned history never changes")
}

// hist tracks what a windowed counter's histories should hold. Windows are
// known by the bracket of clock readings in which they were opened.
type hist struct {
	c     *metric.WindowedCounter
	d     time.Duration
	all   []win // since the last reset, oldest first; the last is current
	snaps []snap
}

func newHist(limits int) *hist {
	x := &hist{d: time.Duration(sym.Int64In("window", 1, int64(time.Hour)))}
	t0 := time.Now()
	x.c = metric.NewWindowedCounter(x.d)
	x.all = []win{{t0, time.Now(), 0}}
	if limits&1 != 0 {
		x.c.MaxHistory = sym.Choose("MaxHistory", 3) + 1
	}
	if limits&2 != 0 {
		x.c.MaxHistoryDuration = time.Duration(sym.Int64In("MaxHistoryDuration", 1, int64(time.Hour)))
	}
	return x
}

// add makes one add, after the current window has elapsed or within it. (An
// add during which the window ends is the business of Windowed.)
func (x *hist) add(next bool) {
	n := uint(sym.IntIn("n", 0, 1<<20))
	cur := &x.all[len(x.all)-1]
	t0 := time.Now()
	if next {
		sym.Assume(sym.Not(t0.Before(cur.hi.Add(x.d))))
	}
	x.c.Add(n)
	t1 := time.Now()
	if next {
		x.all = append(x.all, win{t0, t1, int(n)})
	} else {
		sym.Assume(t1.Before(cur.lo.Add(x.d)))
		cur.n += int(n)
	}
}

func (x *hist) reset() {
	t0 := time.Now()
	x.c.Reset()
	x.all = []win{{t0, time.Now(), 0}}
}

// matches says whether h, returned by a call made between t0 and t1, is what
// the limits leave of cand.
func (x *hist) matches(h []metric.Counter, cand []win, t0, t1 time.Time) bool {
	if x.c.MaxHistory > 0 && len(cand) > x.c.MaxHistory {
		cand = cand[len(cand)-x.c.MaxHistory:]
	}
	return x.match(h, cand, t0, t1)
}

func (x *hist) match(h []metric.Counter, cand []win, t0, t1 time.Time) bool {
	if len(h) > len(cand) {
		return false
	}
	if len(cand) == 0 {
		return true
	}
	w := cand[0]
	r := false
	if len(h) > 0 {
		kept := sym.And(h[0].Value() == w.n, sym.And(sym.Not(h[0].Start().Before(w.lo)), sym.Not(h[0].Start().After(w.hi))))
		if x.c.MaxHistoryDuration > 0 {
			// not older than the limit when the call began
			kept = sym.And(kept, t0.Sub(w.hi) <= x.c.MaxHistoryDuration)
		}
		r = sym.And(kept, x.match(h[1:], cand[1:], t0, t1))
	}
	if x.c.MaxHistoryDuration > 0 {
		// older than the limit when the call ended
		r = sym.Or(r, sym.And(t1.Sub(w.lo) > x.c.MaxHistoryDuration, x.match(h, cand[1:], t0, t1)))
	}
	return r
}

func (x *hist) read(inclusive bool) {
	t0 := time.Now()
	var h []metric.Counter
	if inclusive {
		h = x.c.HistoryInclusive()
	} else {
		h = x.c.History()
	}
	t1 := time.Now()
	sym.Log("len", len(h))
	if inclusive {
		sym.Assert(x.matches(h, x.all, t0, t1), "HistoryInclusive is the most recent windows within the limits, current window last")
	} else {
		cur := x.all[len(x.all)-1]
		open := x.matches(h, x.all[:len(x.all)-1], t0, t1)
		closed := x.matches(h, x.all, t0, t1)
		sym.Assert(sym.Implies(t1.Before(cur.lo.Add(x.d)), open), "History is the closed windows within the limits while the current window is open")
		sym.Assert(sym.Implies(t0.After(cur.hi.Add(x.d)), closed), "History includes the current window once it has elapsed")
		sym.Assert(sym.Or(open, closed), "History is the closed windows within the limits")
	}
	x.snaps = append(x.snaps, snap{h, append([]metric.Counter(nil), h...)})
}

func (x *hist) stable() {
	for _, s := range x.snaps {
		s.unchanged()
	}
}

// History: limits and stability of the returned histories under any order of
// calls.
func History(ops int, limits int) {
	x := newHist(limits)
	for i := 0; i < ops; i++ {
		switch sym.Choose("op", 5) {
		case 0:
			x.add(false)
		case 1:
			x.add(true)
		case 2:
			x.read(true)
		case 3:
			x.read(false)
		case 4:
			x.reset()
		}
		x.stable()
	}
	sym.Cover("done")
}

// HistoryDeep: the same after a longer run of closed windows.
func HistoryDeep(closed int, limits int) {
	x := newHist(limits)
	n := sym.Choose("closed", closed+1)
	for i := 0; i < n; i++ {
		x.add(true)
	}
	x.read(sym.Choose("inclusive", 2) == 1)
	if sym.Choose("same-window", 2) == 1 {
		x.add(false)
		x.stable()
	}
	x.read(sym.Choose("inclusive", 2) == 1)
	x.stable()
	x.add(true)
	x.stable()
	x.read(true)
	if sym.Choose("reset", 2) == 1 {
		x.reset()
		x.stable()
		x.add(true)
		x.stable()
		x.read(true)
	}
	sym.Cover("done")
}
