package hproc

import (
	"context"
	"time"

	"github.com/BTBurke/monny/pkg/eventbus"
	"github.com/BTBurke/monny/pkg/monny/proc"
	"github.com/BTBurke/monny/zzverif/sym"
)

// Ticker: up to n ticks, with a shutdown of the bus at any time.
func Ticker(n, listen int) {
	d := time.Duration(sym.Int64In("period", 1, int64(time.Hour)))
	eb := eventbus.New()
	sym.Ticks(n)
	var c chan eventbus.Event
	done := func() {}
	if listen == 1 {
		c, done = eb.Subscribe()
	}
	proc.NewTicker(d, eb, "tick")
	sym.Assert(sym.ActiveTimers() == 1, "the ticker ticks")
	sym.Assert(eventbus.ZZAwaited(eb) == 1+listen, "a shutdown waits for the ticker")
	got := make(chan int, 1)
	go func() {
		k := 0
		if c != nil {
			for e := range c {
				sym.Assert(e.Type() == "tick", "a ticker dispatches its type")
				k++
			}
		}
		done()
		got <- k
	}()
	sym.Assert(eb.Shutdown(context.Background()) == nil, "the ticker acknowledges the shutdown")
	k := <-got
	sym.Assert(k <= n, "one event per tick")
	if k > 0 {
		sym.Cover("ticked")
	}
	sym.Settle()
	sym.Assert(sym.ActiveTimers() == 0, "the timer is stopped")
	sym.Assert(sym.Goroutines() == 0, "the goroutine ends")
}

// Ticking: while the bus runs, ticks become events.
func Ticking(n int) {
	d := time.Duration(sym.Int64In("period", 1, int64(time.Hour)))
	eb := eventbus.New()
	c, done := eb.Subscribe()
	sym.Ticks(n)
	proc.NewTicker(d, eb, "tick")
	sym.Settle()
	k := 0
	for {
		sym.Quiesce()
		select {
		case e := <-c:
			sym.Assert(e.Type() == "tick", "a ticker dispatches its type")
			k++
			continue
		default:
		}
		break
	}
	sym.Assert(k >= 1 && k <= n, "ticks are dispatched, each at most once")
	go func() {
		for range c {
		}
		done()
	}()
	sym.Assert(eb.Shutdown(context.Background()) == nil, "the ticker acknowledges the shutdown")
	sym.Settle()
	sym.Assert(sym.ActiveTimers() == 0 && sym.Goroutines() == 0, "the ticker stops")
}

// Foreign: other events on the bus, of any type (none, its own, another) and
// payload, neither stop the ticker nor become ticks.
func Foreign(n, ticks int) {
	d := time.Duration(sym.Int64In("period", 1, int64(time.Hour)))
	sym.Ticks(ticks)
	eb := eventbus.New()
	c, done := eb.Subscribe()
	proc.NewTicker(d, eb, "tick")
	foreign := 0
	for i := 0; i < n; i++ {
		var evt eventbus.Event
		switch sym.Choose("foreign", 4) {
		case 0: // the zero event
		case 1:
			evt, _ = eventbus.NewEvent("", []string{"x"})
		case 2:
			evt, _ = eventbus.NewEvent("tick", []string{"x"})
		case 3:
			evt, _ = eventbus.NewEvent("tock", nil)
		}
		eb.Dispatch(evt)
		foreign++
	}
	sym.Quiesce()
	sym.Assert(sym.Goroutines() >= 1 && sym.ActiveTimers() == 1, "other events do not stop the ticker")
	k := 0
	got := make(chan int, 1)
	go func() {
		for range c {
			k++
		}
		done()
		got <- k
	}()
	sym.Settle()
	sym.Assert(eb.Shutdown(context.Background()) == nil, "the ticker acknowledges the shutdown")
	k = <-got
	sym.Assert(k > foreign && k <= foreign+ticks, "other events do not become ticks, and ticks go on")
	sym.Settle()
	sym.Assert(sym.ActiveTimers() == 0 && sym.Goroutines() == 0, "the ticker stops")
}

// NoTicker: a zero period creates no ticker.
func NoTicker() {
	eb := eventbus.New()
	proc.NewTicker(0, eb, "tick")
	sym.Assert(sym.Goroutines() == 0 && sym.ActiveTimers() == 0, "a zero period creates no ticker")
	sym.Assert(eb.Shutdown(context.Background()) == nil, "nobody subscribed")
	eb2 := eventbus.New()
	c, done := eb2.Subscribe()
	proc.NewTicker(0, eb2, "tick")
	sym.Settle()
	select {
	case <-c:
		sym.Assert(false, "nothing is dispatched")
	default:
	}
	done()
	sym.Assert(eb2.Shutdown(context.Background()) == nil, "only one subscriber")
}
