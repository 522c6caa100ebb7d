package hstat

import (
	"math"
	"time"

	"github.com/BTBurke/monny/pkg/fsm"
	"github.com/BTBurke/monny/pkg/metric"
	"github.com/BTBurke/monny/pkg/stat"
	"github.com/BTBurke/monny/zzverif/sym"
)

var names = []string{"ewma", "shewart", "third"}

// make one statistic of the given kind
func statistic(i, kind int) *stat.TestStatistic {
	var p stat.PDF
	lambda := .25
	switch kind {
	case 0:
		p = stat.NewLogNormal(2, stat.KFixed(1))
	case 1:
		p = stat.NewPoisson(1, 0, metric.SampleSum, stat.KFixed(1))
	case 2:
		p = stat.NewPoisson(2, 0, metric.SampleSum, stat.KFixed(.5))
		lambda = 1
	}
	s, err := stat.NewEWMAStatistic(names[i], lambda, p)
	sym.Assert(err == nil, "a detector is created")
	return s
}

type composite struct {
	t    *stat.Test
	sub  []*stat.TestStatistic // in the test
	twin []*stat.TestStatistic // fed directly
}

func (c *composite) check() {
	any := false
	states := c.t.State()
	sym.Assert(len(states) == len(c.sub), "the state of every statistic is reported")
	for i, s := range c.sub {
		w := c.twin[i]
		sym.Assert(s.State() == w.State(), "every statistic is in the state its own observations put it in")
		sym.Assert(sym.And(s.Value() == w.Value(), s.Limit() == w.Limit()), "every statistic saw every observation once")
		sym.Assert(states[i] == w.State(), "the states are reported in order")
		any = any || w.HasAlarmed()
	}
	sym.Assert(c.t.HasAlarmed() == any, "a test is alarmed exactly when one of its statistics is")
	if any {
		sym.Cover("alarmed")
	}
}

// Composite: every sequence of n operations on a test of the statistics
// given by kinds (base 3 digits, plus one).
func Composite(kinds, n int) {
	c := &composite{}
	var opts []stat.TestOption
	for i := 0; kinds > 0; i++ {
		kind := kinds%4 - 1
		kinds /= 4
		c.sub = append(c.sub, statistic(i, kind))
		c.twin = append(c.twin, statistic(i, kind))
		opts = append(opts, stat.WithStatistic(c.sub[i]))
	}
	var err error
	if sym.Choose("family", 2) == 0 {
		c.t, err = stat.NewLogNormalTest(metric.NewName("lat", nil), opts...)
	} else {
		c.t, err = stat.NewPoissonTest(metric.NewName("lat", nil), opts...)
	}
	sym.Assert(err == nil, "a test is created")
	c.check()
	for i := 0; i < n; i++ {
		if i > 0 && sym.Choose("op", 2) == 1 {
			to := []fsm.State{stat.Reset, stat.LCLInitial, stat.TestingUCL, stat.UCLTrip}[sym.Choose("target", 4)]
			reset := sym.Choose("reset-series", 2) == 1
			some := false
			refused := 0
			for _, w := range c.twin {
				if w.Transition(to, reset) != nil {
					some = true
					refused++
				}
			}
			err := c.t.Transition(to, reset)
			sym.Assert((err != nil) == some, "a manual transition is an error exactly when a statistic refuses it")
			if refused > 0 && refused < len(c.twin) {
				sym.Cover("refused by some")
			}
		} else {
			// every positive observation and zero, which only counts can be
			x := 0.0
			if sym.Choose("zero", 2) == 0 {
				x = sym.ExpOf(sym.Real("y"))
			}
			some := false
			for _, w := range c.twin {
				if w.Record(x) != nil {
					some = true
				}
			}
			err := c.t.Record(x)
			sym.Assert((err != nil) == some, "recording is an error exactly when a statistic refuses the observation")
		}
		c.check()
	}
	c.t.Done()
}

// Metrics: the metrics of a test with nmeta metadata entries.
func Metrics(nmeta, nstats int) {
	var meta map[string]string
	if nmeta > 0 {
		meta = map[string]string{"host": "h1"}
		if nmeta > 1 {
			meta["loc"] = sym.String("loc", 1)
		}
	}
	name := metric.NewName("lat", meta)
	text := name.String()
	var opts []stat.TestOption
	var sub []*stat.TestStatistic
	for i := 0; i < nstats; i++ {
		s := statistic(i, 1)
		s.Record(sym.ExpOf(sym.Real("y")))
		s.Record(sym.ExpOf(sym.Real("y")))
		sub = append(sub, s)
		opts = append(opts, stat.WithStatistic(s))
	}
	t, err := stat.NewPoissonTest(name, opts...)
	sym.Assert(err == nil, "a test is created")
	for round := 0; round < 2; round++ {
		m := t.Metric()
		sym.Assert(len(m) == 2*nstats, "two metrics per statistic")
		for _, s := range sub {
			for i, part := range []string{"current", "limit"} {
				k := metric.NewNameFrom(metric.NewName("lat", meta))
				k.AddMetadata(map[string]string{"strategy": s.Name(), "type": "estimator", "value": part})
				v, ok := m[k.String()]
				sym.Assert(ok, "every statistic's metrics are named by strategy and kind")
				if i == 0 {
					sym.Assert(v == s.Value(), "the current metric is the statistic's value")
				} else {
					sym.Assert(v == s.Limit(), "the limit metric is the statistic's limit")
				}
			}
		}
		sym.Assert(sym.EqString(t.Name(), text), "reading the metrics leaves the test's name alone")
		sym.Assert(sym.EqString(name.String(), text), "reading the metrics leaves the given name alone")
	}
}

// Defaults: without options a test has an EWMA and a Shewart statistic.
func Defaults(family int) {
	sym.Ticks(1)
	var t *stat.Test
	var err error
	if family == 0 {
		t, err = stat.NewLogNormalTest(metric.NewName("lat", nil))
	} else {
		t, err = stat.NewPoissonTest(metric.NewName("lat", nil))
	}
	sym.Assert(err == nil, "a test is created")
	sym.Assert(len(t.State()) == 2, "the default test has two statistics")
	sym.Assert(!t.HasAlarmed(), "a new test is not alarmed")
	m := t.Metric()
	sym.Assert(len(m) == 4, "the default statistics have distinct names")
	for _, s := range []string{"ewma", "shewart"} {
		k := metric.NewName("lat", map[string]string{"strategy": s, "type": "estimator", "value": "limit"})
		_, ok := m[k.String()]
		sym.Assert(ok, "the default statistics are ewma and shewart")
	}
	sym.Assert(t.Record(1) == nil, "a defined observation is accepted")
	t.Done()
	sym.Assert(sym.ActiveTimers() == 0, "Done stops the sampling of every statistic")
}

// Finished: n detectors sampled by a timer, with a distribution each (shared 0) or
// one for all of them (shared 1), some of which have been moved to any state, and a
// test of them that is done: all the sampling has ended.
func Finished(n, shared int) {
	sym.Ticks(1)
	var opts []stat.TestOption
	p := stat.NewPoisson(1, time.Second, metric.SampleSum, stat.KFixed(1))
	for i := 0; i < n; i++ {
		if shared == 0 && i > 0 {
			p = stat.NewPoisson(1, time.Second, metric.SampleSum, stat.KFixed(1))
		}
		s, err := stat.NewEWMAStatistic(names[i], .25, p)
		sym.Assert(err == nil, "a detector is created")
		for _, to := range [][]fsm.State{nil, {stat.TestingUCL}, {stat.TestingUCL, stat.UCLTrip}, {stat.TestingUCL, stat.UCLTrip, stat.LCLInitial}}[sym.Choose("state", 4)] {
			sym.Assert(s.Transition(to, false) == nil, "a detector is moved by hand")
		}
		opts = append(opts, stat.WithStatistic(s))
	}
	t, err := stat.NewPoissonTest(metric.NewName("errors", nil), opts...)
	sym.Assert(err == nil, "a test is created")
	if t.HasAlarmed() {
		sym.Cover("alarmed")
	}
	t.Done()
	sym.Assert(sym.ActiveTimers() == 0, "Done stops the sampling of every statistic")
	sym.Quiesce()
	sym.Assert(sym.Goroutines() == 0, "Done ends what was started for every statistic")
}

func k(dist int, rate float64) (float64, error) {
	if dist == poisson {
		return stat.KErrorRate(rate).CalculateP()
	}
	return stat.KErrorRate(rate).CalculateLN()
}

func consts(dist int) (a, b float64) {
	if dist == poisson {
		return stat.PoissonA, stat.PoissonB
	}
	return stat.LogNormalA, stat.LogNormalB
}

// Rate: k of every error rate, positive or not.
func Rate(dist int) {
	x := sym.Float("rate")
	kx, err := k(dist, x)
	l := sym.LogOf(x)
	if math.IsNaN(l) || math.IsInf(l, 0) {
		sym.Assert(err != nil, "an undefined rate is an error")
		sym.Cover("undefined rate")
		return
	}
	sym.Assert(err == nil, "a positive rate has a k")
	a, b := consts(dist)
	sym.Assert(kx*b+a == l, "k is (ln(rate)-a)/b with the calibrated constants")
	y := sym.Real("smaller")
	sym.Assume(sym.And(y > 0, y < x))
	ky, err := k(dist, y)
	sym.Assert(err == nil, "a positive rate has a k")
	sym.Assert(ky > kx, "a smaller rate yields a larger k")
	sym.Cover("compared")
}

// Fixed: a fixed k is used unchanged.
func Fixed() {
	x := sym.Real("k")
	a, err := stat.KFixed(x).CalculateLN()
	sym.Assert(err == nil && a == x, "a fixed k is used unchanged")
	b, err := stat.KFixed(x).CalculateP()
	sym.Assert(err == nil && b == x, "a fixed k is used unchanged")
}

// limit of a detector calibrated on a baseline of unit variance (mean 2 and
// variance 1 after the logarithm, or counts with mean and variance 4).
func limit(dist int, k stat.K) (l, mean, sigma float64) {
	est, err := stat.NewEWMAStatistic("x", 1, pdf(dist, 3, k))
	sym.Assert(err == nil, "a detector is created")
	obs := []float64{1, 2, 3}
	mean, sigma = 2, 1
	if dist == poisson {
		obs = []float64{4, 3, 5}
		mean, sigma = 4, 2
	}
	for _, o := range obs {
		est.Record(raw(dist, o))
	}
	sym.Assert(est.State() == stat.TestingUCL, "a usable baseline starts testing")
	sym.Assert(est.Value() == mean, "the statistic starts at the baseline mean")
	return est.Limit(), mean, sigma
}

// LimitRate: the limit a detector uses follows the accepted error rate.
func LimitRate(dist int) {
	x := sym.Float("rate")
	lx, mean, sigma := limit(dist, stat.KErrorRate(x))
	l := sym.LogOf(x)
	if math.IsNaN(l) || math.IsInf(l, 0) {
		sym.Assert(!math.IsNaN(lx) && !math.IsInf(lx, 0), "the limit for an undefined rate is finite")
		sym.Assert(lx > mean, "the limit for an undefined rate is a positive distance away")
		z := sym.Float("other")
		lz := sym.LogOf(z)
		sym.Assume(math.IsNaN(lz) || math.IsInf(lz, 0))
		other, _, _ := limit(dist, stat.KErrorRate(z))
		sym.Assert(other == lx, "every undefined rate uses the same default limit")
		sym.Cover("undefined rate")
		return
	}
	a, b := consts(dist)
	// (lx - mean) / sigma == (l - a) / b
	sym.Assert((lx-mean)*b == (l-a)*sigma, "the limit lies k sigma from the mean")
	y := sym.Real("smaller")
	sym.Assume(sym.And(y > 0, y < x))
	ly, _, _ := limit(dist, stat.KErrorRate(y))
	sym.Assert(ly > lx, "a lower accepted error rate gives a wider limit")
	sym.Cover("compared")
}
