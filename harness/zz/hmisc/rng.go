// Package hmisc holds the harnesses for pkg/rng, pkg/proto and pkg/pb.
package hmisc

import (
	"math"

	"github.com/BTBurke/monny/pkg/rng"
	"github.com/BTBurke/monny/zzverif/mrand"
	"github.com/BTBurke/monny/zzverif/sym"
)

// Poisson: any rate, n numbers from at most limit uniform draws.
func Poisson(n, limit int) {
	mrand.Limit = limit
	lambda := sym.Real("lambda")
	l := sym.ExpOf(-lambda)
	r := rng.NewPoissonRNG(lambda)
	for i := 0; i < n; i++ {
		start := len(mrand.Uniform)
		x := r.Rand()
		draws := mrand.Uniform[start:]
		sym.Assert(x >= 0, "a Poisson number is not negative")
		sym.Assert(x == math.Floor(x), "a Poisson number is an integer")
		// Knuth: the number of leading products that exceed exp(-lambda)
		p, k := 1.0, 0
		for k < len(draws) {
			p *= draws[k]
			if !(p > l) {
				break
			}
			k++
		}
		sym.Assert(k < len(draws), "a Poisson number is drawn until the product falls to exp(-lambda)")
		sym.Assert(k+1 == len(draws), "a Poisson number is not drawn beyond the product that falls to exp(-lambda)")
		sym.Assert(x == float64(k), "a Poisson number is the count Knuth's algorithm gives for its draws")
		if k > 0 {
			sym.Cover("positive")
		}
	}
}

// PoissonLong: a high rate, n draws that are all close to one and then any.
func PoissonLong(n int) {
	r := rng.NewPoissonRNG(500)
	mrand.Steady, mrand.SteadyN = 1-1/float64(n), n
	mrand.Limit = 1
	x := r.Rand()
	sym.Assert(x == float64(n) && len(mrand.Uniform) == 1, "a Poisson number is the count Knuth's algorithm gives for its draws")
	sym.Cover("long")
}

// PoissonZero: a rate of zero has a single outcome.
func PoissonZero() {
	mrand.Limit = 6
	lambda := sym.Real("lambda")
	sym.Assume(lambda <= 0)
	r := rng.NewPoissonRNG(lambda)
	for i := 0; i < 3; i++ {
		sym.Assert(r.Rand() == 0, "nothing happens at rate zero")
	}
}

// LogNormal: any finite parameters.
func LogNormal(n int) {
	mean, stdev := sym.Real("mean"), sym.Real("stdev")
	r := rng.NewLogNormalRNG(mean, stdev)
	for i := 0; i < n; i++ {
		start := len(mrand.Normal)
		x := r.Rand()
		sym.Assert(x > 0, "a log-normal number is positive")
		sym.Assert(len(mrand.Normal) == start+1 && x == sym.ExpOf(mean+stdev*mrand.Normal[start]), "a log-normal number is the exponential of the scaled and shifted normal draw")
	}
}
