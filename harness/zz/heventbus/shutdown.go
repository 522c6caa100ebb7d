package heventbus

import (
	"context"
	"sync/atomic"

	"github.com/BTBurke/monny/pkg/eventbus"
	"github.com/BTBurke/monny/zzverif/sym"
)

// Down: subscribers receive until their channel is closed and then call their
// shutdown function (any number of times), except those that never do; events
// are in flight and the context is cancelled at any moment, or never.
func Down(nsub, nevt, cancelled int) {
	e := eventbus.New()
	acked := make([]int32, nsub)
	closed := make([]int32, nsub)
	stuck := false
	all := []*subscriber{}
	for i := 0; i < nsub; i++ {
		s := subscribe(e, layouts[[]int{0, 3}[sym.Choose("layout", 2)]])
		all = append(all, s)
		times := 1
		if cancelled == 1 {
			times = sym.Choose("acknowledge", 3)
		} else if sym.Choose("acknowledge", 2) == 1 {
			times = 2
		}
		if times == 0 {
			stuck = true
		}
		go func(i int) {
			for range s.c {
			}
			atomic.StoreInt32(&closed[i], 1)
			// while shutting down a subscriber may still use the bus
			e.Dispatch(event(3, 1), ta)
			for k := 0; k < times; k++ {
				if k == 0 {
					atomic.StoreInt32(&acked[i], 1)
				}
				s.done()
			}
		}(i)
	}
	for i := 0; i < nevt; i++ {
		e.Dispatch(event(i, 1), ta)
	}
	ctx, cancel := context.WithCancel(context.Background())
	if cancelled == 1 {
		go cancel()
	}
	err := e.Shutdown(ctx)
	if err == nil {
		for i := range acked {
			sym.Assert(atomic.LoadInt32(&acked[i]) == 1, "Shutdown returns nil only after every subscriber has called its shutdown function")
		}
		sym.Assert(!stuck, "Shutdown does not succeed while a subscriber has not acknowledged")
		sym.Cover("complete")
	} else {
		sym.Assert(err == eventbus.ErrShutdownTimeout, "the error is the timeout error")
		sym.Assert(ctx.Err() != nil, "the timeout error comes only once the context is done")
		sym.Cover("timeout")
	}
	sym.Quiesce()
	for i := range closed {
		sym.Assert(atomic.LoadInt32(&closed[i]) == 1, "Shutdown closes the channel of every subscriber")
	}
	cancel()
}

// Acknowledge: a subscriber's shutdown function is called by n goroutines at the
// same time, before, while or after the bus shuts down.
func Acknowledge(n int) {
	e := eventbus.New()
	s := subscribe(e, layouts[sym.Choose("layout", 2)])
	for i := 0; i < n; i++ {
		go s.done()
	}
	sym.Assert(e.Shutdown(context.Background()) == nil, "Shutdown succeeds when every subscriber has acknowledged")
	s.done()
	sym.Cover("acknowledged")
}

// After: nothing dispatched after Shutdown has begun is delivered, and a late
// or repeated call still behaves.
func After(layout int) {
	e := eventbus.New()
	s := subscribe(e, layouts[layout])
	fin := make(chan struct{})
	go func() {
		for evt := range s.c {
			s.got = append(s.got, evt)
		}
		// the channel is closed, so Shutdown has begun
		e.Dispatch(event(0, 1), ta, tb)
		late, _ := e.Subscribe(layouts[sym.Choose("late", 2)]...)
		e.Dispatch(event(1, 1), ta, tb)
		_, open := <-late
		sym.Assert(!open, "a subscriber that comes too late is told to shut down")
		sym.Quiesce()
		s.done()
		s.done()
		close(fin)
	}()
	err := e.Shutdown(context.Background())
	sym.Assert(err == nil, "Shutdown succeeds once every subscriber has acknowledged")
	<-fin
	sym.Assert(len(s.got) == 0, "nothing is delivered after Shutdown has begun")
	if sym.Choose("again", 2) == 1 {
		ctx, cancel := context.WithCancel(context.Background())
		cancel()
		err = e.Shutdown(ctx)
		sym.Assert(err == nil || err == eventbus.ErrShutdownTimeout, "a second Shutdown returns as well")
		sym.Cover("second shutdown")
	}
	e.Dispatch(event(2, 1))
	sym.Quiesce()
	sym.Assert(len(s.got) == 0, "nothing is delivered after Shutdown")
}

// Unread: events nobody has taken do not delay Shutdown and are not delivered
// out of the blue afterwards.
func Unread(nevt, layout int) {
	e := eventbus.New()
	s := subscribe(e, layouts[layout])
	for i := 0; i < nevt; i++ {
		e.Dispatch(event(i, 1), ta, tb)
	}
	s.done()
	err := e.Shutdown(context.Background())
	sym.Assert(err == nil, "Shutdown succeeds once every subscriber has acknowledged")
	n := 0
	for range s.c {
		n++
	}
	sym.Assert(n <= 2*nevt, "no event is repeated")
	sym.Quiesce()
	sym.Assert(sym.Goroutines() == 0, "no pending send is left behind")
}

// Deadline: with a deadline Shutdown returns when it passes.
func Deadline(n int) {
	sym.Ticks(1)
	e := eventbus.New()
	for i := 0; i < n; i++ {
		e.Subscribe()
	}
	ctx, cancel := context.WithTimeout(context.Background(), 1)
	defer cancel()
	err := e.Shutdown(ctx)
	sym.Assert(err == eventbus.ErrShutdownTimeout, "Shutdown returns the timeout error once the deadline has passed")
}

// Leaving: one of n subscribers unsubscribes with its own shutdown channel
// before the bus shuts down (0) or at the same time (1), or because it is told
// to shut down (2); the others acknowledge. Shutdown waits for the others only.
func Leaving(n, when, who int) {
	e := eventbus.New()
	chs := make([]chan eventbus.Event, n)
	dones := make([]chan struct{}, n)
	for i := 0; i < n; i++ {
		chs[i], dones[i] = eventbus.ZZSubscribe(e, layouts[[]int{0, 3}[i%2]]...)
	}
	acked := make([]int32, n)
	leave := func() { e.Unsubscribe(chs[who], dones[who]) }
	switch when {
	case 0:
		leave()
	case 1:
		go leave()
	}
	for i := 0; i < n; i++ {
		if i == who && when != 2 {
			continue
		}
		go func(i int) {
			for range chs[i] {
			}
			atomic.StoreInt32(&acked[i], 1)
			if i == who {
				leave()
			} else {
				close(dones[i])
			}
		}(i)
	}
	sym.Assert(e.Shutdown(context.Background()) == nil, "Shutdown succeeds when every subscriber has left or acknowledged")
	for i := 0; i < n; i++ {
		if i != who || when == 2 {
			sym.Assert(atomic.LoadInt32(&acked[i]) == 1, "Shutdown waits for those who did not leave")
		}
	}
	sym.Quiesce()
	_, open := <-chs[who]
	sym.Assert(!open, "whoever leaves has its channel closed")
	sym.Cover("left")
}
