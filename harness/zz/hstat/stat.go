// Package hstat holds the harnesses for pkg/stat.
package hstat

import (
	"math"
	"time"

	"github.com/BTBurke/monny/pkg/fsm"
	"github.com/BTBurke/monny/pkg/metric"
	"github.com/BTBurke/monny/pkg/stat"
	"github.com/BTBurke/monny/zzverif/sym"
)

const (
	logNormal = iota
	poisson
	logNormalConst // lambda and k fixed
	poissonConst
)

func pdf(dist, capacity int, k stat.K) stat.PDF {
	if dist&1 == poisson {
		return stat.NewPoisson(capacity, 0, metric.SampleSum, k)
	}
	return stat.NewLogNormal(capacity, k)
}

// raw is the observation whose transformed value is y.
func raw(dist int, y float64) float64 {
	if dist&1 == poisson {
		return y
	}
	return sym.ExpOf(y)
}

type det struct {
	est       *stat.TestStatistic
	dist      int
	capacity  int
	lambda, k float64
	base      []float64 // transformed observations since the series was last reset
}

func newDet(dist, capacity int) *det {
	d := &det{dist: dist, capacity: capacity}
	if dist >= logNormalConst {
		d.lambda, d.k = .25, 3
	} else {
		d.lambda, d.k = sym.Real("lambda"), sym.Real("k")
		sym.Assume(sym.And(d.lambda > 0, d.lambda <= 1))
		sym.Assume(sym.And(d.k >= 0, d.k <= 10))
	}
	est, err := stat.NewEWMAStatistic("ewma", d.lambda, pdf(dist, capacity, stat.KFixed(d.k)))
	if capacity < 1 {
		sym.Assert(err != nil, "a detector without capacity is an error")
		return nil
	}
	sym.Assert(err == nil, "a detector is created")
	sym.Assert(est.State() == stat.UCLInitial, "a new detector collects a baseline")
	sym.Assert(!est.HasAlarmed(), "a new detector is not alarmed")
	d.est = est
	return d
}

func (d *det) baseline() (mean, variance float64) {
	w := d.base[len(d.base)-d.capacity:]
	s := 0.0
	for _, v := range w {
		s += v
	}
	mean = s / float64(len(w))
	if d.dist&1 == poisson {
		return mean, mean
	}
	if len(w) == 1 {
		return mean, 0 // undefined: no variance
	}
	q := 0.0
	for _, v := range w {
		q += (v - mean) * (v - mean)
	}
	return mean, q / float64(len(w)-1)
}

// near tells whether the limit differs from the one expected by the rounding of
// constants only.
func (d *det) near(mean, variance float64, above bool) bool {
	if d.dist < logNormalConst {
		return false
	}
	dev := d.est.Limit() - mean
	if !above {
		dev = -dev
	}
	got := dev * dev * (2 - d.lambda)
	want := d.k * d.k * d.lambda * variance
	return sym.And(dev >= 0, sym.And(got-want <= 1e-9*want, want-got <= 1e-9*want))
}

// record feeds one observation and checks that testing starts exactly when
// the baseline is complete.
func (d *det) record(y float64) {
	st := d.est.State()
	was := d.est.HasAlarmed()
	if st == stat.Reset {
		d.base = nil
		st = stat.UCLInitial
	}
	d.base = append(d.base, y)
	err := d.est.Record(raw(d.dist, y))
	sym.Assert(err == nil, "a defined observation is accepted")
	if len(d.base) < d.capacity && (st == stat.UCLInitial || st == stat.LCLInitial) {
		sym.Assert(!d.est.HasAlarmed(), "no alarm before the baseline is complete")
		sym.Assert(d.est.State() == st, "testing does not start before the baseline is complete")
		return
	}
	switch st {
	case stat.UCLInitial, stat.LCLInitial:
		mean, variance := d.baseline()
		sym.Assert(!d.est.HasAlarmed(), "calibrating raises no alarm")
		if !(mean > 0 && variance > 0) {
			sym.Assert(d.est.State() == st, "a baseline without positive mean and variance does not start testing")
			sym.Cover("unusable baseline")
			return
		}
		next := stat.TestingUCL
		limit := mean + d.k*math.Sqrt(d.lambda/(2-d.lambda)*variance)
		if st == stat.LCLInitial {
			next = stat.TestingLCL
			limit = mean - d.k*math.Sqrt(d.lambda/(2-d.lambda)*variance)
			sym.Cover("lower limit set")
		} else {
			sym.Cover("upper limit set")
		}
		sym.Assert(d.est.State() == next, "the observation completing a usable baseline starts testing")
		sym.Assert(d.est.Value() == mean, "the statistic starts at the baseline mean")
		sym.Assert(sym.Or(d.est.Limit() == limit, d.near(mean, variance, st == stat.UCLInitial)), "the control limit is mean +/- k*sigma of the baseline")
	default:
		sym.Assert(!was || d.est.HasAlarmed(), "recording does not end an alarm")
	}
}

// Baseline: n observations of every value.
func Baseline(dist, capacity, n int) {
	d := newDet(dist, capacity)
	if d == nil {
		return
	}
	for i := 0; i < n; i++ {
		d.record(sym.Real("y"))
	}
}

// Again: a detector is moved by hand to reset, to looking for a return to
// normal, or back to a new baseline at some point and calibrates again.
func Again(dist, capacity, before, after int) {
	d := newDet(dist, capacity)
	n := sym.Choose("before", before+1)
	for i := 0; i < n; i++ {
		d.record(sym.Real("y"))
	}
	if sym.Choose("trip", 2) == 1 {
		// an observation far past any limit
		y := sym.Real("spike")
		d.record(y)
	}
	d.manual()
	for i := 0; i < after; i++ {
		d.record(sym.Real("y"))
	}
}

func (d *det) manual() {
	to := []fsm.State{stat.Reset, stat.LCLInitial, stat.UCLInitial}[sym.Choose("target", 3)]
	from := d.est.State()
	reset := sym.Choose("reset-series", 2) == 1
	allowed := from != to && (to == stat.Reset || (to == stat.LCLInitial && from == stat.UCLTrip) ||
		from == stat.Reset)
	if !allowed {
		reset = false
	}
	val, lim := d.est.Value(), d.est.Limit()
	err := d.est.Transition(to, reset)
	sym.Assert((err == nil) == allowed, "exactly the configured manual transitions are allowed")
	sym.Assert(sym.And(d.est.Value() == val, d.est.Limit() == lim), "a manual transition leaves statistic and limit alone")
	if err != nil {
		sym.Assert(d.est.State() == from, "a refused transition changes nothing")
		return
	}
	sym.Assert(d.est.State() == to, "a manual transition takes effect")
	sym.Assert(!d.est.HasAlarmed(), "a manual transition ends the alarm")
	if reset {
		d.base = nil
	}
	if to == stat.Reset {
		sym.Cover("sent to reset")
		if from == stat.UCLTrip {
			sym.Cover("sent to reset from an alarm")
		}
	}
}

// Windowed: a Poisson detector whose series is sampled by a ticker.
func Windowed(capacity, n, ticks int) {
	sym.Ticks(ticks)
	p := stat.NewPoisson(capacity, time.Second, metric.SampleSum, stat.KFixed(2))
	est, err := stat.NewEWMAStatistic("ewma", .5, p)
	sym.Assert(err == nil, "a detector is created")
	for i := 0; i < n; i++ {
		y := sym.Real("y")
		sym.Assume(sym.And(y > 0, y < 10))
		sym.Assert(est.Record(y) == nil, "a defined observation is accepted")
		sym.Assert(!est.HasAlarmed(), "no alarm before the baseline is complete")
		if est.State() == stat.TestingUCL {
			sym.Assert(ticks >= capacity, "testing starts only once the series is full")
			sym.Cover("testing")
			break
		}
		sym.Settle()
	}
	est.Done()
	sym.Assert(sym.ActiveTimers() == 0, "Done stops the sampling")
}

// given is a distribution whose baseline statistics are given directly, so
// that the testing phase starts from any statistic and any limit.
type given struct {
	mean, variance, k float64
	capacity          int
}

func (g *given) Mean(obs []float64) float64                { return g.mean }
func (g *given) Variance(obs []float64, m float64) float64 { return g.variance }
func (g *given) NewSeries() (metric.SeriesRecorder, error) { return metric.NewSeries(g.capacity) }
func (g *given) Transform(obs float64) float64             { return obs }
func (g *given) K() (float64, error)                       { return g.k, nil }
func (g *given) Done()                                     {}
func (g *given) String() string                            { return "given" }

func lambdaOf(mode int) float64 {
	switch mode {
	case 0:
		return 1
	case 1:
		return .25
	}
	l := sym.Real("lambda")
	sym.Assume(sym.And(l > 0, l <= 1))
	return l
}

// Crossing: n observations in the testing phase, looking for a rise
// (direction 0) or for a return (direction 1), then moved on by hand.
func Crossing(direction, mode, n int) {
	g := &given{mean: sym.Real("mean"), variance: 1, k: sym.Real("k"), capacity: 1}
	sym.Assume(sym.And(g.mean > 0, g.k >= 0))
	lambda := lambdaOf(mode)
	est, err := stat.NewEWMAStatistic("x", lambda, g)
	sym.Assert(err == nil, "a detector is created")
	sym.Assert(est.Record(1) == nil && est.State() == stat.TestingUCL, "a usable baseline starts testing")
	if direction == 1 {
		o := sym.Real("rise")
		sym.Assert(est.Record(o) == nil, "a defined observation is accepted")
		if est.State() != stat.UCLTrip {
			return
		}
		sym.Assert(est.Transition(stat.LCLInitial, true) == nil, "an alarmed detector can look for a return to normal")
		sym.Assert(!est.HasAlarmed(), "a manual transition ends the alarm")
		sym.Assert(est.Record(1) == nil && est.State() == stat.TestingLCL, "a usable baseline starts testing")
	}
	cur, limit := est.Value(), est.Limit()
	tripped := false
	for i := 0; i < n; i++ {
		o := sym.Real("obs")
		sym.Assert(est.Record(o) == nil, "a defined observation is accepted")
		if !tripped {
			cur = lambda*o + (1-lambda)*cur
			if direction == 0 {
				tripped = cur >= limit
			} else {
				tripped = cur <= limit
			}
		} else {
			sym.Cover("observed while alarmed")
		}
		sym.Assert(est.HasAlarmed() == tripped, "the detector is alarmed exactly from the first crossing on")
		sym.Assert(est.Value() == cur, "the statistic is the smoothed value, frozen while alarmed")
		sym.Assert(est.Limit() == limit, "the limit does not change while testing or alarmed")
		want := stat.TestingUCL
		switch {
		case direction == 0 && tripped:
			want = stat.UCLTrip
			sym.Cover("upper trip")
		case direction == 1 && tripped:
			want = stat.LCLTrip
			sym.Cover("lower trip")
		case direction == 1:
			want = stat.TestingLCL
		}
		sym.Assert(est.State() == want, "the state names the direction")
	}
	if tripped {
		sym.Assert(est.Transition(stat.Reset, sym.Choose("reset-series", 2) == 1) == nil, "an alarmed detector can be reset")
		sym.Assert(!est.HasAlarmed(), "a manual transition ends the alarm")
	}
}

// Full: the crossing rule with the real distributions and their own baseline.
func Full(dist, capacity, n int) {
	d := newDet(dist, capacity)
	for i := 0; i < capacity; i++ {
		y := sym.Real("y")
		if sym.Choose("spread", 2) == 1 {
			sym.Assume(y >= 0)
		}
		d.est.Record(raw(dist, y))
	}
	if d.est.State() != stat.TestingUCL {
		return
	}
	cur, limit := d.est.Value(), d.est.Limit()
	tripped := false
	for i := 0; i < n; i++ {
		y := sym.Real("obs")
		sym.Assert(d.est.Record(raw(dist, y)) == nil, "a defined observation is accepted")
		if !tripped {
			cur = d.lambda*y + (1-d.lambda)*cur
			tripped = cur >= limit
		}
		sym.Assert(d.est.HasAlarmed() == tripped, "the detector is alarmed exactly from the first crossing on")
		sym.Assert(sym.And(d.est.Value() == cur, d.est.Limit() == limit), "the statistic is the smoothed value and the limit is frozen")
		if tripped {
			sym.Cover("trip")
		}
	}
}

// bad is an observation that is not defined for the distribution.
func bad(dist int) float64 {
	if dist&1 == logNormal && sym.Choose("nonpositive", 2) == 1 {
		x := sym.Real("bad")
		sym.Assume(x <= 0)
		return x
	}
	x := sym.Float("bad")
	sym.Assume(math.IsNaN(x) || math.IsInf(x, 0))
	return x
}

// Undefined: wherever an undefined observation is slipped in (in any state,
// including after a manual transition), it is refused and the detector goes on
// exactly like a twin that never saw it.
func Undefined(dist, capacity, n int) {
	k := stat.KFixed(2)
	a, _ := stat.NewEWMAStatistic("a", .5, pdf(dist, capacity, k))
	b, _ := stat.NewEWMAStatistic("b", .5, pdf(dist, capacity, k))
	slip := func() {
		st, v, l := a.State(), a.Value(), a.Limit()
		sym.Assert(a.Record(bad(dist)) != nil, "an undefined observation is an error")
		sym.Assert(a.State() == st, "an undefined observation leaves the state alone")
		sym.Assert(sym.And(a.Value() == v, a.Limit() == l), "an undefined observation leaves statistic and limit alone")
		switch st {
		case stat.Reset:
			sym.Cover("refused in reset")
		case stat.UCLInitial:
			sym.Cover("refused while calibrating")
		case stat.TestingUCL:
			sym.Cover("refused while testing")
		case stat.UCLTrip:
			sym.Cover("refused while alarmed")
		}
	}
	at := sym.Choose("at", n+2)
	man := sym.Choose("manual-at", n+1)
	for i := 0; i < n; i++ {
		if i == man && i > 0 {
			to := []fsm.State{stat.Reset, stat.LCLInitial}[sym.Choose("target", 2)]
			r := sym.Choose("reset-series", 2) == 1
			sym.Assert((a.Transition(to, r) == nil) == (b.Transition(to, r) == nil), "twins agree on transitions")
		}
		if i == at || at == n+1 {
			slip()
		}
		y := sym.Real("y")
		x := raw(dist, y)
		ea, eb := a.Record(x), b.Record(x)
		sym.Assert((ea == nil) == (eb == nil), "a refused observation leaves no trace: same verdict later")
		sym.Assert(a.State() == b.State(), "a refused observation leaves no trace: same state later")
		sym.Assert(sym.And(a.Value() == b.Value(), a.Limit() == b.Limit()), "a refused observation leaves no trace: same statistic and limit later")
	}
	if at >= n {
		slip()
	}
}

// UndefinedComposite: a composite of detectors refuses it too.
func UndefinedComposite(n int) {
	k := stat.KFixed(2)
	s1, _ := stat.NewEWMAStatistic("one", .5, stat.NewLogNormal(2, k))
	s2, _ := stat.NewEWMAStatistic("two", 1, stat.NewPoisson(1, 0, metric.SampleMax, k))
	order := sym.Choose("order", 2)
	if order == 1 {
		s1, s2 = s2, s1
	}
	t, err := stat.NewLogNormalTest(metric.NewName("x", nil), stat.WithStatistic(s1), stat.WithStatistic(s2))
	sym.Assert(err == nil, "a test is created")
	for i := 0; i < n; i++ {
		t.Record(sym.ExpOf(sym.Real("y")))
	}
	sa, sb := s1.State(), s2.State()
	va, vb := s1.Value(), s2.Value()
	x := sym.Float("bad")
	sym.Assume(math.IsNaN(x) || math.IsInf(x, 0))
	sym.Assert(t.Record(x) != nil, "an undefined observation is an error")
	sym.Assert(sa == s1.State() && sb == s2.State(), "an undefined observation leaves the state alone")
	sym.Assert(sym.And(va == s1.Value(), vb == s2.Value()), "an undefined observation leaves the statistics alone")
}
