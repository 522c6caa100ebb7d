// Package heventbus holds the harnesses for pkg/eventbus.
package heventbus

import (
	"context"
	"sync"

	"github.com/BTBurke/monny/pkg/eventbus"
	"github.com/BTBurke/monny/zzverif/sym"
)

const (
	ta = eventbus.Topic("a")
	tb = eventbus.Topic("b")
	tc = eventbus.Topic("c")
)

// layouts are the topic lists a subscriber may use; dispatches those of an event.
var layouts = [][]eventbus.Topic{{}, {ta}, {tb}, {ta, tb}}
var dispatches = [][]eventbus.Topic{{}, {ta}, {ta, tb}, {tc}}

func has(ts []eventbus.Topic, t eventbus.Topic) bool {
	for _, x := range ts {
		if x == t {
			return true
		}
	}
	return false
}

// copies an event dispatched on ts reaches a subscriber of l.
func copies(l, ts []eventbus.Topic) int {
	if len(l) == 0 {
		return 1
	}
	n := 0
	for _, t := range ts {
		if has(l, t) {
			n++
		}
	}
	return n
}

type subscriber struct {
	topics []eventbus.Topic
	c      chan eventbus.Event
	done   eventbus.ShutdownFunc
	got    []eventbus.Event
}

func subscribe(e *eventbus.EventBus, topics []eventbus.Topic) *subscriber {
	s := &subscriber{topics: topics}
	s.c, s.done = e.Subscribe(topics...)
	return s
}

// take receives n events, or fewer if no more come.
func (s *subscriber) drain() {
	for {
		sym.Quiesce()
		select {
		case evt, ok := <-s.c:
			if !ok {
				return
			}
			s.got = append(s.got, evt)
		default:
			return
		}
	}
}

func (s *subscriber) count(t eventbus.EventType) int {
	n := 0
	for _, e := range s.got {
		if e.Type() == t {
			n++
		}
	}
	return n
}

var types = []eventbus.EventType{"e0", "e1", "e2", "e3"}

func event(i int, v byte) eventbus.Event {
	e, err := eventbus.NewEvent(types[i], int(v))
	sym.Assert(err == nil, "an event is created")
	return e
}

func intact(e eventbus.Event, vals []byte) {
	var v int
	sym.Assert(e.Decode(&v) == nil, "a delivered event decodes")
	for i := range vals {
		if e.Type() == types[i] {
			sym.Assert(v == int(vals[i]), "a delivered event carries the payload that was dispatched")
			return
		}
	}
	sym.Assert(false, "only dispatched events are delivered")
}

// Deliver: nsub subscribers with any topics, nevt events on any topics,
// dispatched from one goroutine (or from one each), every subscriber drained.
func Deliver(nsub, nevt, spread int) {
	e := eventbus.New()
	var subs []*subscriber
	for i := 0; i < nsub; i++ {
		subs = append(subs, subscribe(e, layouts[sym.Choose("layout", len(layouts))]))
	}
	var lists [][]eventbus.Topic
	var vals []byte
	for i := 0; i < nevt; i++ {
		lists = append(lists, dispatches[sym.Choose("dispatch", len(dispatches))])
		vals = append(vals, sym.Byte("payload"))
	}
	var wg sync.WaitGroup
	for i := 0; i < nevt; i++ {
		evt := event(i, vals[i])
		if spread == 1 {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				e.Dispatch(evt, lists[i]...)
			}(i)
		} else {
			e.Dispatch(evt, lists[i]...)
		}
	}
	wg.Wait()
	for _, s := range subs {
		s.drain()
		total := 0
		for i := 0; i < nevt; i++ {
			want := copies(s.topics, lists[i])
			sym.Assert(s.count(types[i]) == want, "an event reaches a subscriber once per matching topic")
			total += want
			if want > 1 {
				sym.Cover("two topics match")
			}
		}
		sym.Assert(len(s.got) == total, "nothing else is delivered")
		for _, evt := range s.got {
			intact(evt, vals)
		}
	}
	sym.Cover("delivered")
}

// Story: subscribers come and go between events: every event reaches those that
// are subscribed when it is dispatched, and nobody else.
func Story(nops int) {
	e := eventbus.New()
	var subs []*subscriber
	gone := map[*subscriber]bool{}
	join := func(l []eventbus.Topic) { subs = append(subs, subscribe(e, l)) }
	join(layouts[sym.Choose("layout", len(layouts))])
	join(layouts[sym.Choose("layout", len(layouts))])
	lists := [][]eventbus.Topic{{}, {ta}, {tb, ta}, {tc, tb}}
	for i := 0; i < nops; i++ {
		switch k := sym.Choose("op", len(lists)+4); {
		case k < len(lists):
			v := sym.Byte("payload")
			e.Dispatch(event(0, v), lists[k]...)
			for _, s := range subs {
				if gone[s] {
					continue
				}
				s.got = nil
				s.drain()
				sym.Assert(len(s.got) == copies(s.topics, lists[k]), "an event reaches a subscriber once per matching topic")
				for _, evt := range s.got {
					intact(evt, []byte{v})
				}
			}
		case k < len(lists)+2:
			s := subs[k-len(lists)]
			e.Unsubscribe(s.c, nil)
			gone[s] = true
			sym.Cover("unsubscribed")
		default:
			join(layouts[[]int{0, 3}[k-len(lists)-2]])
		}
	}
	for _, s := range subs {
		if gone[s] {
			_, open := <-s.c
			sym.Assert(!open, "nothing is delivered to a subscriber that has left")
		}
	}
}

// Slow: one subscriber never receives; the others still get every event.
func Slow(nevt int) {
	e := eventbus.New()
	slow := layouts[sym.Choose("slow", 2)]
	e.Subscribe(slow...)
	s := subscribe(e, layouts[sym.Choose("layout", 2)])
	var vals []byte
	for i := 0; i < nevt; i++ {
		vals = append(vals, sym.Byte("payload"))
		e.Dispatch(event(i, vals[i]), ta)
	}
	s.drain()
	for i := 0; i < nevt; i++ {
		sym.Assert(s.count(types[i]) == 1, "a slow subscriber does not keep others from receiving")
	}
	for _, evt := range s.got {
		intact(evt, vals)
	}
	sym.Cover("delivered")
}

// Caller: the caller's topic list is not written to, even when it has room,
// and may be shared by concurrent calls.
func Caller(n int) {
	e := eventbus.New()
	backing := []eventbus.Topic{ta, tb, tc, "d"}
	list := backing[:sym.Choose("len", 4)]
	if sym.Choose("what", 2) == 0 {
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			wg.Add(1)
			evt := event(i, 0)
			go func() { defer wg.Done(); e.Dispatch(evt, list...) }()
		}
		wg.Wait()
	} else {
		for i := 0; i < n; i++ {
			e.Subscribe(list...)
		}
		sym.Cover("subscribed")
	}
	for i, t := range []eventbus.Topic{ta, tb, tc, "d"} {
		sym.Assert(backing[i] == t, "the caller's list of topics is left alone")
	}
}

// Moving: a subscriber's own topic slice may change after Subscribe.
func Moving() {
	e := eventbus.New()
	list := []eventbus.Topic{ta}
	c, _ := e.Subscribe(list...)
	list[0] = tb
	e.Dispatch(event(0, 1), tb)
	e.Dispatch(event(1, 1), ta)
	s := &subscriber{c: c}
	s.drain()
	sym.Assert(s.count(types[0]) == 0 && s.count(types[1]) == 1, "a subscription is to the topics given when it was made")
}

// op performs one bus operation.
func op(e *eventbus.EventBus, kind int, s *subscriber, ctx context.Context) {
	switch kind {
	case 0:
		n := subscribe(e, layouts[3])
		n.done()
	case 1:
		evt := event(0, 7)
		e.Dispatch(evt, ta, tb)
	case 2:
		e.Unsubscribe(s.c, nil)
		_, open := <-s.c
		if open {
			_, open = <-s.c // one event may have been waiting
		}
		sym.Assert(!open, "unsubscribing closes the subscriber's channel")
	case 3:
		err := e.Shutdown(ctx)
		sym.Assert(err == nil || err == eventbus.ErrShutdownTimeout, "Shutdown returns nil or the timeout error")
	}
}

// Wedge: any operations at once, with subscribers that never receive. Every
// operation must complete (Shutdown once its context is cancelled).
func Wedge(nops, layout1, layout2, pending int) {
	e := eventbus.New()
	subs := []*subscriber{subscribe(e, layouts[layout1]), subscribe(e, layouts[layout2])}
	for i := 0; i < pending; i++ {
		e.Dispatch(event(i, 1), ta)
	}
	ctx, cancel := context.WithCancel(context.Background())
	var wg sync.WaitGroup
	kinds := make([]int, nops)
	seen := 0
	for i := range kinds {
		// operations in nondecreasing order: their order of start is free anyway
		k := seen + sym.Choose("op", 4-seen)
		seen = k
		kinds[i] = k
		wg.Add(1)
		go func(k int, s *subscriber) {
			defer wg.Done()
			op(e, k, s, ctx)
		}(k, subs[i%2])
	}
	sym.Quiesce()
	cancel()
	wg.Wait()
	sym.Cover("all operations completed")
}

// Sequence: operations one after another, in every order.
func Sequence(nops, layout1, layout2 int) {
	e := eventbus.New()
	subs := []*subscriber{subscribe(e, layouts[layout1]), subscribe(e, layouts[layout2])}
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	gone := map[int]bool{}
	for i := 0; i < nops; i++ {
		k := sym.Choose("op", 6)
		switch k {
		case 4: // unsubscribe the second subscriber
			op(e, 2, subs[1], ctx)
			gone[1] = true
		case 5:
			subs[0].done()
		case 2:
			op(e, 2, subs[0], ctx)
			gone[0] = true
		default:
			op(e, k, nil, ctx)
		}
		sym.Quiesce()
		for j := range subs {
			if gone[j] {
				select {
				case _, open := <-subs[j].c:
					sym.Assert(!open, "an unsubscribed subscriber receives nothing more")
				default:
					sym.Assert(false, "unsubscribing closes the subscriber's channel")
				}
			}
		}
	}
}

// Stuck: a subscriber with unread events does not keep the calls of others
// from completing.
func Stuck(pending int) {
	e := eventbus.New()
	stuck := subscribe(e, layouts[sym.Choose("layout", len(layouts))])
	for i := 0; i < pending; i++ {
		e.Dispatch(event(0, 1), ta, tb)
	}
	sym.Quiesce()
	s := subscribe(e, layouts[1])
	e.Dispatch(event(1, 1), ta)
	s.drain()
	sym.Assert(s.count(types[1]) == 1, "a stuck subscriber does not keep others from receiving")
	switch sym.Choose("then", 3) {
	case 0:
		e.Unsubscribe(s.c, nil)
		s.done()
	case 1:
		e.Unsubscribe(stuck.c, nil)
		stuck.done()
		sym.Cover("stuck subscriber removed")
	}
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	err := e.Shutdown(ctx)
	sym.Assert(err == nil || err == eventbus.ErrShutdownTimeout, "Shutdown returns nil or the timeout error")
	sym.Cover("shut down")
}
