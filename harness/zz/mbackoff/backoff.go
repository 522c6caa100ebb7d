// Package mbackoff replaces the random part of the back off: any delay in the
// range the library documents.
package mbackoff

import (
	"time"

	"github.com/BTBurke/monny/zzverif/sym"
)

//sym:model github.com/cenkalti/backoff.getRandomValueFromInterval
func Random(factor, random float64, cur time.Duration) time.Duration {
	d := sym.Int64In("delay", 0, int64(2*time.Hour))
	delta := time.Duration(factor * float64(cur))
	sym.Assume(time.Duration(d) >= cur-delta && time.Duration(d) <= cur+delta)
	return time.Duration(d)
}
