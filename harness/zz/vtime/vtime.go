// Package vtime stands in for package time in native replays: Now takes the
// recorded clock readings.
package vtime

import (
	"time"

	"github.com/BTBurke/monny/zzverif/sym"
)

type (
	Time     = time.Time
	Duration = time.Duration
	Timer    = time.Timer
	Ticker   = time.Ticker
	Month    = time.Month
	Location = time.Location
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour
	RFC3339     = time.RFC3339
)

var last int64 = 1 << 60

func Now() Time {
	if n, ok := next(); ok {
		last = n
	}
	return time.Unix(0, last)
}
func Since(t Time) Duration                    { return Now().Sub(t) }
func Until(t Time) Duration                    { return t.Sub(Now()) }
func After(d Duration) <-chan Time             { return time.After(d) }
func NewTimer(d Duration) *Timer               { return time.NewTimer(d) }
func NewTicker(d Duration) *Ticker             { return time.NewTicker(d) }
func AfterFunc(d Duration, f func()) *Timer    { return time.AfterFunc(d, f) }
func Sleep(d Duration)                         { time.Sleep(d) }
func Tick(d Duration) <-chan Time              { return time.Tick(d) }
func ParseDuration(s string) (Duration, error) { return time.ParseDuration(s) }
func Unix(s, n int64) Time                     { return time.Unix(s, n) }

var next = sym.NextNow
