// Package mrand is the model of math/rand: every draw is an arbitrary value in
// the range the function documents.
package mrand

import (
	"math/rand"

	"github.com/BTBurke/monny/zzverif/sym"
)

var (
	// Uniform and Normal are the draws made so far.
	Uniform, Normal []float64
	// Limit is the number of draws after which a run is not followed further.
	Limit = 1 << 30
)

type source struct{}

func (source) Int63() int64    { return sym.Int64In("int63", 0, 1<<63-1) }
func (source) Seed(seed int64) {}

//sym:model math/rand.NewSource
func NewSource(seed int64) rand.Source { return source{} }

//sym:model math/rand.New
func New(src rand.Source) *rand.Rand { return new(rand.Rand) }

//sym:model (*math/rand.Rand).Float64
func RandFloat64(r *rand.Rand) float64 { return Float64() }

//sym:model (*math/rand.Rand).NormFloat64
func RandNormFloat64(r *rand.Rand) float64 { return NormFloat64() }

// Steady is the value of the next SteadyN uniform draws.
var (
	Steady  float64
	SteadyN int
)

//sym:model math/rand.Float64
func Float64() float64 {
	if SteadyN > 0 {
		SteadyN--
		return Steady
	}
	if len(Uniform) >= Limit {
		sym.Stop()
	}
	u := sym.Real("uniform")
	sym.Assume(u >= 0 && u < 1)
	Uniform = append(Uniform, u)
	return u
}

//sym:model math/rand.NormFloat64
func NormFloat64() float64 {
	if len(Normal) >= Limit {
		sym.Stop()
	}
	u := sym.Real("normal")
	Normal = append(Normal, u)
	return u
}
