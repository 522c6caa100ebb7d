package hmetric

import (
	"sync"
	"time"

	"github.com/BTBurke/monny/pkg/metric"
	"github.com/BTBurke/monny/zzverif/sym"
)

// SeriesOps: any order of records, resets and reads of a series.
func SeriesOps(capacity, initial, ops int) {
	var opts []metric.SeriesOption
	var obs []float64
	if initial > 0 {
		var vs []float64
		for i := 0; i < initial; i++ {
			vs = append(vs, sym.Real("initial"))
		}
		obs = append(obs, vs...)
		opts = append(opts, metric.WithValues(vs))
	}
	s, err := metric.NewSeries(capacity, opts...)
	sym.Assert((err == nil) == (capacity > 0), "a series needs a positive capacity")
	if err != nil {
		sym.Cover("refused")
		return
	}
	var held [][2][]float64
	check := func() {
		sym.Assert(s.Count() == len(obs), "Count is the number of observations since creation or Reset")
		sym.Assert(s.Capacity() == capacity, "the capacity never changes")
		got := s.Values()
		sym.Assert(len(got) == capacity, "a series reports capacity values")
		want := obs
		if len(want) > capacity {
			want = want[len(want)-capacity:]
		}
		ok := true
		for i := range got {
			if i < len(want) {
				ok = sym.And(ok, got[i] == want[i])
			} else {
				ok = sym.And(ok, got[i] == 0)
			}
		}
		sym.Assert(ok, "a series reports its most recent observations, oldest first, then zeros")
		for _, h := range held {
			same := true
			for i := range h[0] {
				same = sym.And(same, h[0][i] == h[1][i])
			}
			sym.Assert(same, "returned values are not disturbed by later recording")
		}
		held = append(held, [2][]float64{got, append([]float64(nil), got...)})
		if len(got) > 0 && sym.Choose("scribble", 2) == 1 {
			held = held[:len(held)-1]
			got[0] = sym.Real("scribble") // the caller may do what it likes with its copy
		}
	}
	check()
	for i := 0; i < ops; i++ {
		if sym.Choose("op", 4) == 3 {
			s.Reset()
			obs = nil
			sym.Cover("reset")
		} else {
			v := sym.Real("obs")
			s.Record(v)
			obs = append(obs, v)
		}
		check()
	}
}

// SeriesLong: n observations in a row, no choices, larger sizes.
func SeriesLong(capacity, n int) {
	s, _ := metric.NewSeries(capacity)
	var obs []float64
	for i := 0; i < n; i++ {
		v := sym.Real("obs")
		s.Record(v)
		obs = append(obs, v)
		got := s.Values()
		ok := len(got) == capacity
		for j := 0; j < capacity && ok; j++ {
			w := 0.0
			switch {
			case len(obs) >= capacity:
				w = obs[len(obs)-capacity+j]
			case j < len(obs):
				w = obs[j]
			}
			sym.Assert(got[j] == w, "a series reports its most recent observations, oldest first, then zeros")
		}
		sym.Assert(ok, "a series reports capacity values")
		sym.Assert(s.Count() == i+1, "Count is the number of observations since creation or Reset")
	}
}

// Sampled: recorders, the sampling goroutine and its ticker in any
// interleaving. The transform notes which observations it was given.
func Sampled(recorders, per, ticks int, reset int) {
	sym.Ticks(ticks)
	var folded [][]float64
	var mu sync.Mutex
	transform := func(obs []float64) float64 {
		mu.Lock()
		defer mu.Unlock()
		folded = append(folded, append([]float64(nil), obs...))
		return float64(len(folded))
	}
	capacity := ticks + 2
	s, stop, err := metric.NewSampledSeries(capacity, time.Duration(sym.Int64In("window", 1, int64(time.Hour))), transform)
	sym.Assert(err == nil, "a sampled series is created")
	var wg sync.WaitGroup
	for g := 0; g < recorders; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < per; i++ {
				s.Record(float64(10*(g+1) + i))
			}
		}(g)
	}
	if reset == 1 {
		s.Reset()
	}
	wg.Wait()
	stop()
	count := s.Count()
	vals := s.Values()
	seen := map[float64]int{}
	last := map[int]float64{}
	for _, w := range folded {
		sym.Assert(len(w) > 0, "the strategy is applied to windows with observations")
		for _, o := range w {
			seen[o]++
			g := int(o) / 10
			sym.Assert(o > last[g], "observations are folded in arrival order")
			last[g] = o
		}
	}
	for g := 0; g < recorders; g++ {
		for i := 0; i < per; i++ {
			n := seen[float64(10*(g+1)+i)]
			sym.Assert(n <= 1, "no observation is folded into two samples")
			if reset == 0 && i > 0 && n == 1 {
				sym.Assert(seen[float64(10*(g+1)+i-1)] == 1, "an observation is folded no later than the ones recorded after it")
			}
		}
	}
	// samples: the results of the folds in order, zeros for empty windows
	if reset == 0 {
		k := 0.0
		for i := 0; i < count && i < len(vals); i++ {
			if vals[i] == 0 {
				continue
			}
			k++
			sym.Assert(vals[i] == k, "every window yields exactly one sample, in order")
		}
		sym.Assert(int(k) == len(folded), "every fold yields exactly one sample")
	}
	for i := count; i < len(vals); i++ {
		sym.Assert(vals[i] == 0, "no sample beyond the count")
	}
	// the sampling goroutine is gone and nothing is sampled after stop
	sym.Assert(sym.Goroutines() == 0, "the stop function ends the sampling goroutine")
	sym.Assert(sym.ActiveTimers() == 0, "the stop function stops the ticker")
	s.Record(99)
	sym.Quiesce()
	sym.Assert(s.Count() == count, "nothing is sampled after stop")
	sym.Cover("stopped")
}

// SampledTick: observations recorded well before a tick are in its sample.
func SampledTick(n, ticks int) {
	sym.Ticks(ticks)
	s, stop, err := metric.NewSampledSeries(4, time.Duration(sym.Int64In("window", 1, int64(time.Hour))), metric.SampleSum)
	sym.Assert(err == nil, "a sampled series is created")
	var obs []float64
	for i := 0; i < n; i++ {
		o := sym.Real("obs")
		s.Record(o)
		obs = append(obs, o)
	}
	sum := run(obs)
	before := s.Count()
	sym.Settle() // every remaining tick has been taken
	// a ticker drops a tick whose predecessor has not been taken yet
	sym.Assert(s.Count() >= 1 && s.Count() <= ticks, "every tick taken records one sample")
	vals := s.Values()
	if before == 0 {
		sym.Assert(sym.And(vals[0] == sum, vals[1] == 0), "a tick folds everything recorded before it and an empty window yields zero")
		sym.Cover("all before the first tick")
	} else {
		// the samples are consecutive runs of the observations
		ok := false
		for i := 0; i <= n; i++ {
			for j := i; j <= n; j++ {
				ok = sym.Or(ok, sym.And(vals[0] == run(obs[:i]), sym.Or(s.Count() == 1, vals[1] == run(obs[i:j]))))
			}
		}
		sym.Assert(ok, "each sample folds a run of consecutive observations, none twice")
	}
	s.Reset()
	sym.Assert(s.Count() == 0, "Reset discards the samples")
	vals = s.Values()
	for _, v := range vals {
		sym.Assert(v == 0, "Reset discards the samples")
	}
	stop()
	sym.Cover("stopped")
}

func run(obs []float64) float64 {
	s := 0.0
	for _, o := range obs {
		s += o
	}
	return s
}

// SampledReset: Reset discards pending observations.
func SampledReset(n int) {
	sym.Ticks(1)
	s, stop, err := metric.NewSampledSeries(4, time.Second, metric.SampleSum)
	sym.Assert(err == nil, "a sampled series is created")
	for i := 0; i < n; i++ {
		s.Record(float64(i + 1))
	}
	s.Reset()
	before := s.Count()
	later := sym.Real("later")
	s.Record(later)
	sym.Settle()
	v := s.Values()
	if before == 0 && s.Count() == 1 {
		sym.Assert(sym.Or(v[0] == later, v[0] == 0), "Reset discards pending observations")
		sym.Cover("tick after reset")
	}
	stop()
	sym.Cover("stopped")
}

// SampledDirect: with no window every observation is a sample.
func SampledDirect(capacity, n int) {
	var win time.Duration
	s, stop, err := metric.NewSampledSeries(capacity, win, metric.SampleSum)
	sym.Assert((err == nil) == (capacity > 0), "a series needs a positive capacity")
	if err != nil {
		return
	}
	var obs []float64
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		obs = append(obs, sym.Real("obs"))
		if i == n-1 {
			// the last one comes from another goroutine while a reader looks on
			wg.Add(2)
			go func() { defer wg.Done(); s.Record(obs[n-1]) }()
			go func() { defer wg.Done(); s.Values() }()
			wg.Wait()
			break
		}
		s.Record(obs[i])
	}
	got := s.Values()
	for j := 0; j < capacity; j++ {
		w := 0.0
		switch {
		case len(obs) >= capacity:
			w = obs[len(obs)-capacity+j]
		case j < len(obs):
			w = obs[j]
		}
		sym.Assert(got[j] == w, "with a zero window every observation is a sample at once")
	}
	sym.Assert(s.Count() == n, "Count is the number of samples")
	sym.Assert(s.Capacity() == capacity, "the capacity never changes")
	s.Reset()
	sym.Assert(s.Count() == 0, "Reset discards the samples")
	stop()
}

// Strategies: the four strategies on up to n arbitrary observations.
func Strategies(n int) {
	var obs []float64
	sum := 0.0
	for i := 0; i < n; i++ {
		o := sym.Real("obs")
		obs = append(obs, o)
		sum += o
	}
	orig := append([]float64(nil), obs...)
	s, a, lo, hi := metric.SampleSum(obs), metric.SampleAverage(obs), metric.SampleMin(obs), metric.SampleMax(obs)
	sym.Log("sum", s)
	sym.Log("min", lo)
	if n == 0 {
		sym.Assert(s == 0 && a == 0 && lo == 0 && hi == 0, "an empty window yields zero")
		return
	}
	sym.Assert(s == sum, "SampleSum is the sum")
	sym.Assert(a*float64(n) == sum, "SampleAverage is the arithmetic mean")
	isLo, isHi := false, false
	for _, o := range obs {
		sym.Assert(lo <= o, "SampleMin is no greater than any observation")
		sym.Assert(hi >= o, "SampleMax is no less than any observation")
		isLo = sym.Or(isLo, lo == o)
		isHi = sym.Or(isHi, hi == o)
	}
	sym.Assert(isLo, "SampleMin is one of the observations")
	sym.Assert(isHi, "SampleMax is one of the observations")
	for i := range obs {
		sym.Assert(obs[i] == orig[i], "a strategy does not modify the observations")
	}
}
