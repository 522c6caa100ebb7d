From 9171e647ad64a493ccb32890260f369080a6f8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:50 +0000
Subject: [PATCH 01/43] fix: WindowedCounter.Value of a counter without
 windowing is its count

With a duration of zero Add counts into a single window that never closes,
but Value treated that window as elapsed and returned 0.
---
 pkg/metric/counter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/metric/counter.go b/pkg/metric/counter.go
index c9aa9f1..114f882 100644
--- a/pkg/metric/counter.go
+++ b/pkg/metric/counter.go
@@ -78,7 +78,7 @@ func (c *WindowedCounter) Value() int {
 
 	// check if the current window has closed, if so return 0
 	switch {
-	case now.After(end) && c.current.duration >= 0:
+	case now.After(end) && c.current.duration > 0:
 		return 0
 	default:
 		return c.current.Value()
-- 
2.43.0


From a68780d4058011d458d3f93de99e6645b66afe78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:50 +0000
Subject: [PATCH 02/43] fix: a returned counter history does not share memory
 with the counter

Appending the current window to the history could write into spare capacity
that an earlier returned history (or a concurrent reader) also used.
---
 pkg/metric/counter.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/metric/counter.go b/pkg/metric/counter.go
index 114f882..9a4656f 100644
--- a/pkg/metric/counter.go
+++ b/pkg/metric/counter.go
@@ -93,7 +93,7 @@ func (c *WindowedCounter) Add(i uint) {
 	case now.Before(end) || c.current.duration == 0:
 		c.current.Add(i)
 	default:
-		c.hist = newHistory(append(c.hist, *c.current), c.MaxHistory, c.MaxHistoryDuration)
+		c.hist = newHistory(append(c.hist[:len(c.hist):len(c.hist)], *c.current), c.MaxHistory, c.MaxHistoryDuration)
 		c.current = &Counter{start: time.Now().UTC(), duration: c.current.duration}
 		c.current.Add(i)
 	}
@@ -105,7 +105,7 @@ func (c *WindowedCounter) History() []Counter {
 	end := c.current.start.Add(c.current.duration)
 	switch {
 	case now.After(end) || c.current.duration == 0:
-		return newHistory(append(c.hist, *c.current), c.MaxHistory, c.MaxHistoryDuration)
+		return newHistory(append(c.hist[:len(c.hist):len(c.hist)], *c.current), c.MaxHistory, c.MaxHistoryDuration)
 	default:
 		return newHistory(c.hist, c.MaxHistory, c.MaxHistoryDuration)
 	}
@@ -114,7 +114,7 @@ func (c *WindowedCounter) History() []Counter {
 // HistoryInclusive will return the history of all counters, including the current value even if the window
 // is still open on the current counter
 func (c *WindowedCounter) HistoryInclusive() []Counter {
-	return newHistory(append(c.hist, *c.current), c.MaxHistory, c.MaxHistoryDuration)
+	return newHistory(append(c.hist[:len(c.hist):len(c.hist)], *c.current), c.MaxHistory, c.MaxHistoryDuration)
 }
 
 // filters the history based on both MaxHistoryDuration and MaxHistory
-- 
2.43.0


From d99ac1c17eeccdb28e710f516dd00db32d0dd136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:50 +0000
Subject: [PATCH 03/43] fix: an empty WindowedCounter struct counts without
 windowing

As its documentation promises; every method dereferenced a nil window.
---
 pkg/metric/counter.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/metric/counter.go b/pkg/metric/counter.go
index 9a4656f..bc7da3a 100644
--- a/pkg/metric/counter.go
+++ b/pkg/metric/counter.go
@@ -71,8 +71,16 @@ type WindowedCounter struct {
 	MaxHistoryDuration time.Duration
 }
 
+// init gives an empty struct its single window of unlimited duration
+func (c *WindowedCounter) init() {
+	if c.current == nil {
+		c.current = &Counter{start: time.Now().UTC()}
+	}
+}
+
 // Value returns the current value of the counter in the most recent window
 func (c *WindowedCounter) Value() int {
+	c.init()
 	now := time.Now().UTC()
 	end := c.current.start.Add(c.current.duration)
 
@@ -87,6 +95,7 @@ func (c *WindowedCounter) Value() int {
 
 // Add will increment the current counter value within the window by i
 func (c *WindowedCounter) Add(i uint) {
+	c.init()
 	now := time.Now().UTC()
 	end := c.current.start.Add(c.current.duration)
 	switch {
@@ -101,6 +110,7 @@ func (c *WindowedCounter) Add(i uint) {
 
 // History will return the history of counters not including the current value if the window is still open
 func (c *WindowedCounter) History() []Counter {
+	c.init()
 	now := time.Now().UTC()
 	end := c.current.start.Add(c.current.duration)
 	switch {
@@ -114,6 +124,7 @@ func (c *WindowedCounter) History() []Counter {
 // HistoryInclusive will return the history of all counters, including the current value even if the window
 // is still open on the current counter
 func (c *WindowedCounter) HistoryInclusive() []Counter {
+	c.init()
 	return newHistory(append(c.hist[:len(c.hist):len(c.hist)], *c.current), c.MaxHistory, c.MaxHistoryDuration)
 }
 
@@ -139,6 +150,7 @@ func newHistory(hist []Counter, max int, maxduration time.Duration) []Counter {
 
 // Reset will clear the current counters history and start a new zero-valued counter with the same window duration
 func (c *WindowedCounter) Reset() {
+	c.init()
 	c.hist = []Counter{}
 	c.current = &Counter{start: time.Now().UTC(), duration: c.current.duration}
 }
-- 
2.43.0


From 953a5436a948f8e6d18c8758531a35bd53247f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:51 +0000
Subject: [PATCH 04/43] fix: metadata can be added to a metric name created
 without any

AddMetadata and AddAnnotation panicked on a nil map, and a copy of such a
name rendered with empty brackets.
---
 pkg/metric/name.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/metric/name.go b/pkg/metric/name.go
index 1fbb006..ca66cf1 100644
--- a/pkg/metric/name.go
+++ b/pkg/metric/name.go
@@ -31,6 +31,9 @@ func (n Name) String() string {
 
 // NewName returns a new name with the associated metadata
 func NewName(name string, md map[string]string) Name {
+	if md == nil {
+		md = make(map[string]string)
+	}
 	return Name{name: name, md: md}
 }
 
@@ -52,7 +55,7 @@ func (n Name) AddMetadata(md map[string]string) {
 // then is followed by (key, value) pairs k=v in sorted key order, the finally by annotations starting with @ in
 // sorted order.  Close with a ].  Example: [host=pod1 loc=us-west-1 @mean @summary]
 func MarshalText(m metadata) ([]byte, error) {
-	if m == nil {
+	if len(m) == 0 {
 		return []byte{}, nil
 	}
 	keys := make([]string, 0, len(m))
-- 
2.43.0


From f81c5d9501550d875a89c3654b13cf7235546cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:34 +0000
Subject: [PATCH 05/43] fix: a detector in the reset state starts a new
 baseline instead of testing against the old limit

---
 pkg/stat/estimator.go | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/pkg/stat/estimator.go b/pkg/stat/estimator.go
index a9cce8d..dbf5c24 100644
--- a/pkg/stat/estimator.go
+++ b/pkg/stat/estimator.go
@@ -42,19 +42,6 @@ func (e *TestStatistic) Record(o float64) error {
 
 	e.series.Record(o)
 	switch e.fsm.State() {
-	case Reset:
-		// reset assumes that estimator should be restarted from steady state non-alarmed condition
-		// and next transition should be to testing the UCL
-		if err := e.fsm.Transition(UCLInitial); err != nil {
-			return err
-		}
-		// if forced into reset with existing observations, start series recording over again
-		if e.series.Count() > 0 {
-			e.series.Reset()
-			// re-record the current observation after reseting the series
-			e.series.Record(o)
-		}
-		fallthrough
 	case TestingUCL:
 		e.calculateCurrent(o)
 		if e.current >= e.limit {
@@ -69,6 +56,19 @@ func (e *TestStatistic) Record(o float64) error {
 				return err
 			}
 		}
+	case Reset:
+		// reset assumes that estimator should be restarted from steady state non-alarmed condition
+		// and next transition should be to testing the UCL
+		if err := e.fsm.Transition(UCLInitial); err != nil {
+			return err
+		}
+		// if forced into reset with existing observations, start series recording over again
+		if e.series.Count() > 0 {
+			e.series.Reset()
+			// re-record the current observation after reseting the series
+			e.series.Record(o)
+		}
+		fallthrough
 	case UCLInitial:
 		if e.series.Count() >= e.series.Capacity() {
 			values := e.series.Values()
-- 
2.43.0


From b9441079f21bc63f4fb96e1e356e470fda028c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:34 +0000
Subject: [PATCH 06/43] fix: a composite test records on and transitions every
 statistic even when one refuses

---
 pkg/stat/stattest.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pkg/stat/stattest.go b/pkg/stat/stattest.go
index f2a27e9..831d2d8 100644
--- a/pkg/stat/stattest.go
+++ b/pkg/stat/stattest.go
@@ -22,21 +22,23 @@ func (t *Test) Name() string {
 }
 
 func (t *Test) Record(obs float64) error {
+	var first error
 	for _, s := range t.sub {
-		if err := s.Record(obs); err != nil {
-			return err
+		if err := s.Record(obs); err != nil && first == nil {
+			first = err
 		}
 	}
-	return nil
+	return first
 }
 
 func (t *Test) Transition(state fsm.State, reset bool) error {
+	var first error
 	for _, s := range t.sub {
-		if err := s.Transition(state, reset); err != nil {
-			return err
+		if err := s.Transition(state, reset); err != nil && first == nil {
+			first = err
 		}
 	}
-	return nil
+	return first
 }
 
 func (t *Test) HasAlarmed() bool {
-- 
2.43.0


From baae161efcedf72c6195336ea8960e8c5936a178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:35 +0000
Subject: [PATCH 07/43] fix: dispatching does not write to the caller's list of
 topics

---
 pkg/eventbus/bus.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/eventbus/bus.go b/pkg/eventbus/bus.go
index 3f0ac1a..86f7c74 100644
--- a/pkg/eventbus/bus.go
+++ b/pkg/eventbus/bus.go
@@ -126,7 +126,7 @@ func (e *EventBus) Dispatch(event Event, topics ...Topic) {
 	}
 
 	// always send to the defaultTopic even if other topics specified
-	topics = append(topics, defaultTopic)
+	topics = append(append([]Topic{}, topics...), defaultTopic)
 
 	for _, topic := range topics {
 		// it no subscribers on the topic, silently drop message.  This is probably the behavior we want since
-- 
2.43.0


From 9c373d370b687de1ae64982442bd32827cc5c3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:16 +0000
Subject: [PATCH 08/43] fix: the event bus closes a subscriber's channel once,
 after its pending sends have ended

---
 pkg/eventbus/bus.go | 95 +++++++++++++++++++++++++++------------------
 1 file changed, 57 insertions(+), 38 deletions(-)

diff --git a/pkg/eventbus/bus.go b/pkg/eventbus/bus.go
index 86f7c74..928ecb4 100644
--- a/pkg/eventbus/bus.go
+++ b/pkg/eventbus/bus.go
@@ -24,6 +24,7 @@ const (
 // filter which events they respond to rather than configuring multiple topics.
 type EventBus struct {
 	subscribers map[Topic][]chan Event
+	senders     map[chan Event]*sender
 	done        []chan struct{}
 	mutex       sync.RWMutex
 	sdStarted   bool
@@ -34,9 +35,41 @@ type EventBus struct {
 func New() *EventBus {
 	return &EventBus{
 		subscribers: make(map[Topic][]chan Event),
+		senders:     make(map[chan Event]*sender),
 	}
 }
 
+// sender keeps track of the events that are still waiting to be sent to one subscriber
+type sender struct {
+	pending sync.WaitGroup
+	quit    chan struct{}
+}
+
+// send waits until the subscriber takes the event or its channel is about to be closed
+func (s *sender) send(c chan Event, evt Event) {
+	defer s.pending.Done()
+	// the channel may have been closed improperly by the subscriber
+	defer func() { recover() }()
+	select {
+	case <-s.quit:
+		return
+	default:
+	}
+	select {
+	case c <- evt:
+	case <-s.quit:
+	}
+}
+
+// close drops the events still waiting to be sent and then closes the subscriber's channel
+func (s *sender) close(c chan Event) {
+	close(s.quit)
+	s.pending.Wait()
+	// the channel may have been closed improperly by the subscriber
+	defer func() { recover() }()
+	close(c)
+}
+
 // ShutdownFunc tells the event bus that this subscriber has finished the shutdown process and it is safe to exit
 type ShutdownFunc func()
 
@@ -72,6 +105,7 @@ func (e *EventBus) subscribe(topics ...Topic) (chan Event, chan struct{}) {
 	c := make(chan Event, 1)
 	done := make(chan struct{})
 	e.done = append(e.done, done)
+	e.senders[c] = &sender{quit: make(chan struct{})}
 
 	// subscribe to the default topic if no topics defined
 	if len(topics) == 0 {
@@ -96,20 +130,24 @@ func (e *EventBus) Unsubscribe(c chan Event, done chan struct{}) {
 	defer e.mutex.Unlock()
 
 	for topic, chs := range e.subscribers {
-		for i, ch := range chs {
-			if ch == c {
-				close(ch)
-				recover()
-				e.subscribers[topic] = append(e.subscribers[topic][0:i], e.subscribers[topic][i+1:]...)
+		var kept []chan Event
+		for _, ch := range chs {
+			if ch != c {
+				kept = append(kept, ch)
 			}
 		}
+		e.subscribers[topic] = kept
+	}
+	if s, ok := e.senders[c]; ok {
+		s.close(c)
+		delete(e.senders, c)
 	}
 
 	for i, d := range e.done {
 		if d == done {
 			close(d)
-			recover()
 			e.done = append(e.done[0:i], e.done[i+1:]...)
+			break
 		}
 	}
 }
@@ -136,29 +174,15 @@ func (e *EventBus) Dispatch(event Event, topics ...Topic) {
 			continue
 		}
 
-		// make a copy of the channels to preserve locking
-		chs := append([]chan Event{}, channels...)
-
-		go func(event Event, chs []chan Event) {
-			for _, ch := range chs {
-				// run in go func so that if channel is closed by subscriber improperly or
-				// blocks because channel buffer is full it won't prevent other subscribers
-				// from receiving the event
-
-				// this will pessimistically lock the send channel in case the event bus is behind in sending
-				// events and shutdown has started.  Events will be silently dropped if shutdown is called and there
-				// are still pending events because subscribers are blocking.
-				go func(evt Event, c chan Event) {
-					e.mutex.RLock()
-					defer e.mutex.RUnlock()
-					if e.sdStarted {
-						return
-					}
-					defer recover()
-					c <- evt
-				}(event, ch)
-			}
-		}(event, chs)
+		for _, ch := range channels {
+			// run in go func so that if channel is closed by subscriber improperly or
+			// blocks because channel buffer is full it won't prevent other subscribers
+			// from receiving the event.  Events will be silently dropped if shutdown is called and there
+			// are still pending events because subscribers are blocking.
+			snd := e.senders[ch]
+			snd.pending.Add(1)
+			go snd.send(ch, event)
+		}
 	}
 }
 
@@ -174,15 +198,10 @@ func (e *EventBus) Shutdown(ctx context.Context) error {
 	done := make(chan struct{})
 	go shutdownNotify(done, append([]chan struct{}{}, e.done...))
 
-	for _, chs := range e.subscribers {
-		for _, ch := range chs {
-			// close all subscriber channels to signal shutdown, recover above in case
-			// one of the channels is closed improperly by subscriber which would cause a panic
-			close(ch)
-			if r := recover(); r != nil {
-				continue
-			}
-		}
+	// close all subscriber channels to signal shutdown
+	for ch, s := range e.senders {
+		s.close(ch)
+		delete(e.senders, ch)
 	}
 
 	select {
-- 
2.43.0


From cb589a5ae45514c681a8ac8aeb42c5c5313e32c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:19 +0000
Subject: [PATCH 09/43] fix: the event bus stays usable while it waits for its
 subscribers to shut down

---
 pkg/eventbus/bus.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/eventbus/bus.go b/pkg/eventbus/bus.go
index 928ecb4..5034df9 100644
--- a/pkg/eventbus/bus.go
+++ b/pkg/eventbus/bus.go
@@ -104,6 +104,12 @@ func (e *EventBus) subscribe(topics ...Topic) (chan Event, chan struct{}) {
 
 	c := make(chan Event, 1)
 	done := make(chan struct{})
+
+	// too late to receive any event, signal the shutdown right away
+	if e.sdStarted {
+		close(c)
+		return c, done
+	}
 	e.done = append(e.done, done)
 	e.senders[c] = &sender{quit: make(chan struct{})}
 
@@ -192,7 +198,6 @@ func (e *EventBus) Dispatch(event Event, topics ...Topic) {
 // successful shutdown.
 func (e *EventBus) Shutdown(ctx context.Context) error {
 	e.mutex.Lock()
-	defer e.mutex.Unlock()
 	e.sdStarted = true
 
 	done := make(chan struct{})
@@ -203,6 +208,8 @@ func (e *EventBus) Shutdown(ctx context.Context) error {
 		s.close(ch)
 		delete(e.senders, ch)
 	}
+	// subscribers must be able to use the bus while they shut down
+	e.mutex.Unlock()
 
 	select {
 	case <-ctx.Done():
-- 
2.43.0


From de688f44cceaf3ee63a3c92f0f26a5f2bac951f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:11 +0000
Subject: [PATCH 10/43] fix: publishing an event does not print its payload to
 stderr

---
 pkg/eventbus/event.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pkg/eventbus/event.go b/pkg/eventbus/event.go
index 0675460..93727c9 100644
--- a/pkg/eventbus/event.go
+++ b/pkg/eventbus/event.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 	"encoding/gob"
 	"fmt"
-	"log"
 )
 
 // EventType represents the type of event being passed on the bus.  It allows handlers receiving the event to
@@ -47,7 +46,6 @@ func NewEvent(t EventType, data interface{}) (Event, error) {
 		}
 	}
 
-	log.Printf("encoded: %v", string(b.Bytes()))
 	return Event{t: t, d: b.Bytes()}, nil
 }
 
-- 
2.43.0


From a87839ba1dddf73b51d1ec2da38c2d02a4500ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:12 +0000
Subject: [PATCH 11/43] fix: publishing a pointer and a value of the same type
 does not panic

---
 pkg/eventbus/event.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pkg/eventbus/event.go b/pkg/eventbus/event.go
index 93727c9..5b47dac 100644
--- a/pkg/eventbus/event.go
+++ b/pkg/eventbus/event.go
@@ -39,7 +39,6 @@ func (e Event) Decode(receiver interface{}) error {
 func NewEvent(t EventType, data interface{}) (Event, error) {
 	var b bytes.Buffer
 	if data != nil {
-		gob.Register(data)
 		enc := gob.NewEncoder(&b)
 		if err := enc.Encode(data); err != nil {
 			return Event{}, fmt.Errorf("failed to create event %s: %v", t, err)
-- 
2.43.0


From cf7a669ba4f09cf960efdd29762db8ef7d3cbe4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:16 +0000
Subject: [PATCH 12/43] fix: an event can be built from any error and decodes
 to its text

---
 pkg/eventbus/event.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pkg/eventbus/event.go b/pkg/eventbus/event.go
index 5b47dac..110d82c 100644
--- a/pkg/eventbus/event.go
+++ b/pkg/eventbus/event.go
@@ -3,6 +3,7 @@ package eventbus
 import (
 	"bytes"
 	"encoding/gob"
+	"errors"
 	"fmt"
 )
 
@@ -29,6 +30,15 @@ func (e Event) String() string {
 
 func (e Event) Type() EventType { return e.t }
 func (e Event) Decode(receiver interface{}) error {
+	// errors travel as their text
+	if r, ok := receiver.(*error); ok {
+		var text string
+		if err := e.Decode(&text); err != nil {
+			return err
+		}
+		*r = errors.New(text)
+		return nil
+	}
 	dec := gob.NewDecoder(bytes.NewReader(e.d))
 	if err := dec.Decode(receiver); err != nil {
 		return fmt.Errorf("failed to decode event %s: %v", e.t, err)
@@ -49,5 +59,8 @@ func NewEvent(t EventType, data interface{}) (Event, error) {
 }
 
 func NewErrorEvent(t EventType, err error) (Event, error) {
-	return NewEvent(t, err)
+	if err == nil {
+		return NewEvent(t, nil)
+	}
+	return NewEvent(t, err.Error())
 }
-- 
2.43.0


From 08bd871eff83baab0f1d545f0c8cf8bac782143d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:40 +0000
Subject: [PATCH 13/43] fix: a log history of zero or one lines does not panic

---
 pkg/monny/proc/queue.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pkg/monny/proc/queue.go b/pkg/monny/proc/queue.go
index bd6dcf9..09fe0b9 100644
--- a/pkg/monny/proc/queue.go
+++ b/pkg/monny/proc/queue.go
@@ -25,8 +25,9 @@ func (q *Queue) add(s string) {
 }
 
 func (q *Queue) pop() string {
+	head := q.q[0]
 	q.q = q.q[1:]
-	return q.q[0]
+	return head
 }
 
 // Add puts the string in the queue, popping the head if the queue is already filled to capacity
@@ -34,12 +35,9 @@ func (q *Queue) Add(s string) {
 	q.mu.Lock()
 	defer q.mu.Unlock()
 
-	switch {
-	case len(q.q) < q.capacity:
-		q.add(s)
-	default:
+	q.add(s)
+	if len(q.q) > q.capacity {
 		_ = q.pop()
-		q.add(s)
 	}
 }
 
-- 
2.43.0


From 0e9787e3247cf87a57669a16a4f884ad251f336b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:49 +0000
Subject: [PATCH 14/43] fix: a ticker's goroutine ends when the bus shuts down

---
 pkg/monny/proc/ticker.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/monny/proc/ticker.go b/pkg/monny/proc/ticker.go
index 2e74597..183314d 100644
--- a/pkg/monny/proc/ticker.go
+++ b/pkg/monny/proc/ticker.go
@@ -22,6 +22,7 @@ func NewTicker(d time.Duration, e *eventbus.EventBus, evt eventbus.EventType) {
 				if !open {
 					t.Stop()
 					finished()
+					return
 				}
 
 			case <-t.C:
-- 
2.43.0


From 098517d29d9d12b94a97507982cb5afa2b60ff0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:49 +0000
Subject: [PATCH 15/43] fix: a log line longer than 64 KB does not end log
 processing silently

---
 pkg/monny/proc/logs.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/monny/proc/logs.go b/pkg/monny/proc/logs.go
index b971844..a1ef237 100644
--- a/pkg/monny/proc/logs.go
+++ b/pkg/monny/proc/logs.go
@@ -73,6 +73,8 @@ func startLogEmitter(bus eventbus.EventDispatcher, src source, sinks []sink, don
 		defer done()
 	}
 	scanner := bufio.NewScanner(src.in)
+	// a line can be of any length
+	scanner.Buffer(nil, int(^uint(0)>>1))
 	for scanner.Scan() {
 		data := scanner.Bytes()
 		src.q.Add(string(data))
@@ -93,6 +95,9 @@ func startLogEmitter(bus eventbus.EventDispatcher, src source, sinks []sink, don
 			}
 		}
 	}
+	if err := scanner.Err(); err != nil {
+		newError(bus, ScanError{fmt.Errorf("error reading from source %s: %v", src.name, err)})
+	}
 }
 
 // Wait will wait for all log sources to finish processing.  Context can can
-- 
2.43.0


From 365c9dbda5b1ab0343af83c71fef676d7078743f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:30 +0000
Subject: [PATCH 16/43] fix: the output history holds exactly the configured
 number of lines

---
 pkg/monny/command.go | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index 35c649a..1a5c023 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -305,13 +305,10 @@ func (c *Command) processStdout(line []byte) {
 			go c.report.Send(c, proto.Alert)
 		}
 	}
-	history := len(c.Stdout)
 	c.mutex.Lock()
-	switch {
-	case history >= c.Config.StdoutHistory:
-		c.Stdout = append(c.Stdout[2:], string(line))
-	default:
-		c.Stdout = append(c.Stdout, string(line))
+	c.Stdout = append(c.Stdout, string(line))
+	if extra := len(c.Stdout) - c.Config.StdoutHistory; extra > 0 {
+		c.Stdout = c.Stdout[extra:]
 	}
 	c.mutex.Unlock()
 	return
@@ -330,13 +327,10 @@ func (c *Command) processStderr(line []byte) {
 			go c.report.Send(c, proto.Alert)
 		}
 	}
-	history := len(c.Stderr)
 	c.mutex.Lock()
-	switch {
-	case history >= c.Config.StderrHistory:
-		c.Stderr = append(c.Stderr[2:], string(line))
-	default:
-		c.Stderr = append(c.Stderr, string(line))
+	c.Stderr = append(c.Stderr, string(line))
+	if extra := len(c.Stderr) - c.Config.StderrHistory; extra > 0 {
+		c.Stderr = c.Stderr[extra:]
 	}
 	c.mutex.Unlock()
 	return
-- 
2.43.0


From 002ad12aff56ac8d9f451ed0925fd24a62f8101a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:30 +0000
Subject: [PATCH 17/43] fix: a negative history size is rejected

---
 pkg/monny/config.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/monny/config.go b/pkg/monny/config.go
index 2b35c30..adc086d 100644
--- a/pkg/monny/config.go
+++ b/pkg/monny/config.go
@@ -167,6 +167,9 @@ func StdoutHistory(h string) ConfigOption {
 		if err != nil {
 			return err
 		}
+		if hist < 0 {
+			return fmt.Errorf("stdout-history must not be negative")
+		}
 		c.StdoutHistory = hist
 		return nil
 	}
@@ -179,6 +182,9 @@ func StderrHistory(h string) ConfigOption {
 		if err != nil {
 			return err
 		}
+		if hist < 0 {
+			return fmt.Errorf("stderr-history must not be negative")
+		}
 		c.StderrHistory = hist
 		return nil
 	}
-- 
2.43.0


From de6f0f429dc10e03f8a7f32b392127ac382ac704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:30 +0000
Subject: [PATCH 18/43] fix: an output line longer than 64 KB does not end
 monitoring

---
 pkg/monny/command.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index 1a5c023..6e76761 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -123,6 +123,9 @@ func (c *Command) Exec() error {
 	}
 	stdoutScanner := bufio.NewScanner(stdoutReader)
 	stderrScanner := bufio.NewScanner(stderrReader)
+	// a line can be of any length
+	stdoutScanner.Buffer(nil, int(^uint(0)>>1))
+	stderrScanner.Buffer(nil, int(^uint(0)>>1))
 
 	c.Start = time.Now()
 	if err := cmd.Start(); err != nil {
-- 
2.43.0


From 766c5589a24f88921f8e4731bb80d7fd83fbf638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:30 +0000
Subject: [PATCH 19/43] fix: a JSON array of numbers does not crash the monitor

---
 pkg/monny/command.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index 6e76761..f19bae5 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -280,9 +280,9 @@ func extractTextFromJSON(raw []byte, field string) []byte {
 				case string:
 					out = append(out, val.(string))
 				case float32:
-					out = append(out, fmt.Sprintf("%f", value.(float32)))
+					out = append(out, fmt.Sprintf("%f", val.(float32)))
 				case float64:
-					out = append(out, fmt.Sprintf("%f", value.(float64)))
+					out = append(out, fmt.Sprintf("%f", val.(float64)))
 				case bool:
 					out = append(out, fmt.Sprintf("%v", val.(bool)))
 				default:
-- 
2.43.0


From 37f26996d6f345e5afc06b00367844ddd67dc289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:03 +0000
Subject: [PATCH 20/43] fix: a line alerts when it matches a rule, not because
 an earlier one did

---
 pkg/monny/command.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index f19bae5..894e9df 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -300,7 +300,7 @@ func (c *Command) processStdout(line []byte) {
 	c.mutex.Lock()
 	c.RuleMatches = append(c.RuleMatches, matches...)
 	c.mutex.Unlock()
-	if len(c.RuleMatches) > 0 {
+	if len(matches) > 0 {
 		switch {
 		case c.Config.RuleQuantity > 0:
 			go c.report.Send(c, proto.AlertRate)
@@ -322,7 +322,7 @@ func (c *Command) processStderr(line []byte) {
 	c.mutex.Lock()
 	c.RuleMatches = append(c.RuleMatches, matches...)
 	c.mutex.Unlock()
-	if len(c.RuleMatches) > 0 {
+	if len(matches) > 0 {
 		switch {
 		case c.Config.RuleQuantity > 0:
 			go c.report.Send(c, proto.AlertRate)
-- 
2.43.0


From b43eb58a28eb517c977dcc82c9cefac26c0c94b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:03 +0000
Subject: [PATCH 21/43] fix: a delivered alert removes the matches it reported
 and no others, under the lock

---
 pkg/monny/report.go | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/pkg/monny/report.go b/pkg/monny/report.go
index 39e5fc9..383c9d4 100644
--- a/pkg/monny/report.go
+++ b/pkg/monny/report.go
@@ -26,6 +26,9 @@ type ReportSender interface {
 // Report is a wrapper for sending a report via GRPC. See pb.Report for details.
 type Report struct {
 	sender sender
+	// number of rule matches that have been reported and removed from the command,
+	// protected by the command's mutex
+	reported int
 }
 
 // sender is an interface for creating and sending a report in the background.
@@ -62,8 +65,24 @@ func (s *senderService) create(c *Command, reason proto.ReportReason) *pb.Report
 func (r *Report) Send(c *Command, reason proto.ReportReason) {
 	c.mutex.Lock()
 	pb := r.sender.create(c, reason)
+	alertRateExceeded := calcAlertRate(c.RuleMatches, c.Config.RuleQuantity, c.Config.RulePeriod)
+	matched := r.reported + len(c.RuleMatches)
 	c.mutex.Unlock()
 
+	// only the matches that are part of this report are removed once it is delivered
+	clearMatches := func() {
+		c.mutex.Lock()
+		defer c.mutex.Unlock()
+		n := matched - r.reported
+		if n > len(c.RuleMatches) {
+			n = len(c.RuleMatches)
+		}
+		if n > 0 {
+			c.RuleMatches = c.RuleMatches[n:]
+			r.reported += n
+		}
+	}
+
 	result := make(chan error, 1)
 	cancel := make(chan bool, 1)
 	timeout := time.After(1 * time.Hour)
@@ -93,18 +112,11 @@ func (r *Report) Send(c *Command, reason proto.ReportReason) {
 		go r.sender.sendBackground(pb, result, cancel)
 	case proto.Alert:
 		go r.sender.sendBackground(pb, result, cancel)
-		cb = func() {
-			c.RuleMatches = []RuleMatch{}
-			return
-		}
+		cb = clearMatches
 	case proto.AlertRate:
-		alertRateExceeded := calcAlertRate(c.RuleMatches, c.Config.RuleQuantity, c.Config.RulePeriod)
 		if alertRateExceeded {
 			go r.sender.sendBackground(pb, result, cancel)
-			cb = func() {
-				c.RuleMatches = []RuleMatch{}
-				return
-			}
+			cb = clearMatches
 		} else {
 			closeChannels()
 			return
-- 
2.43.0


From 81cb73bd3c92e471028e732938e6584bf65713d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:03 +0000
Subject: [PATCH 22/43] fix: memory and time warnings are sent

---
 pkg/monny/report.go | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/pkg/monny/report.go b/pkg/monny/report.go
index 383c9d4..bb8c545 100644
--- a/pkg/monny/report.go
+++ b/pkg/monny/report.go
@@ -122,16 +122,8 @@ func (r *Report) Send(c *Command, reason proto.ReportReason) {
 			return
 		}
 	case proto.MemoryWarning:
-		if c.memWarnSent {
-			closeChannels()
-			return
-		}
 		go r.sender.sendBackground(pb, result, cancel)
 	case proto.TimeWarning:
-		if c.timeWarnSent {
-			closeChannels()
-			return
-		}
 		go r.sender.sendBackground(pb, result, cancel)
 	case proto.Start:
 		if c.Config.Daemon {
-- 
2.43.0


From 3c343157b4d287c2eb272a692c33a054ccf0814f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:03 +0000
Subject: [PATCH 23/43] fix: a failed delivery is reported as an error and does
 not crash

---
 pkg/monny/command.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index 894e9df..cc9f488 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -82,8 +82,9 @@ func New(usercmd []string, options ...ConfigOption) (*Command, []error) {
 				errors: errorService{},
 			},
 		},
-		out: cfg.out,
-		err: cfg.err,
+		errors: errorService{},
+		out:    cfg.out,
+		err:    cfg.err,
 	}, nil
 }
 
-- 
2.43.0


From 699fcdd774848a9ab879776e0042554ae6ff7302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:35 +0000
Subject: [PATCH 24/43] fix: a delivery is retried for the documented hour,
 then cancelled, and its late result does not panic

---
 pkg/monny/report.go | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/pkg/monny/report.go b/pkg/monny/report.go
index bb8c545..5730ea8 100644
--- a/pkg/monny/report.go
+++ b/pkg/monny/report.go
@@ -23,6 +23,9 @@ type ReportSender interface {
 	Wait() error
 }
 
+// how long the delivery of a report is attempted
+const sendTimeout = 1 * time.Hour
+
 // Report is a wrapper for sending a report via GRPC. See pb.Report for details.
 type Report struct {
 	sender sender
@@ -85,12 +88,7 @@ func (r *Report) Send(c *Command, reason proto.ReportReason) {
 
 	result := make(chan error, 1)
 	cancel := make(chan bool, 1)
-	timeout := time.After(1 * time.Hour)
-
-	closeChannels := func() {
-		close(result)
-		close(cancel)
-	}
+	timeout := time.After(sendTimeout)
 
 	cb := func() { return }
 	switch reason {
@@ -98,14 +96,12 @@ func (r *Report) Send(c *Command, reason proto.ReportReason) {
 		if c.Config.NotifyOnFailure {
 			go r.sender.sendBackground(pb, result, cancel)
 		} else {
-			closeChannels()
 			return
 		}
 	case proto.Success:
 		if c.Config.NotifyOnSuccess {
 			go r.sender.sendBackground(pb, result, cancel)
 		} else {
-			closeChannels()
 			return
 		}
 	case proto.FileNotCreated, proto.Killed:
@@ -118,7 +114,6 @@ func (r *Report) Send(c *Command, reason proto.ReportReason) {
 			go r.sender.sendBackground(pb, result, cancel)
 			cb = clearMatches
 		} else {
-			closeChannels()
 			return
 		}
 	case proto.MemoryWarning:
@@ -129,7 +124,6 @@ func (r *Report) Send(c *Command, reason proto.ReportReason) {
 		if c.Config.Daemon {
 			go r.sender.sendBackground(pb, result, cancel)
 		} else {
-			closeChannels()
 			return
 		}
 	default:
@@ -148,7 +142,6 @@ func (r *Report) Send(c *Command, reason proto.ReportReason) {
 		cancel <- true
 		c.errors.ReportError(fmt.Errorf("timeout on background report send: msg=%+v", pb))
 	}
-	closeChannels()
 }
 
 // Wait will cause the process to block until the report is finished sending in the background.
@@ -174,6 +167,18 @@ func (s *senderService) sendBackground(report *pb.Report, result chan error, can
 	}
 	s.wg.Add(1)
 	defer s.wg.Done()
+
+	// a cancel ends the attempt that is under way and prevents further ones
+	ctx, stop := context.WithCancel(context.Background())
+	defer stop()
+	go func() {
+		select {
+		case <-cancel:
+			stop()
+		case <-ctx.Done():
+		}
+	}()
+
 	send := func() error {
 		conn, err := grpc.Dial(net.JoinHostPort(s.host, s.port), s.opts...)
 		if err != nil {
@@ -182,7 +187,7 @@ func (s *senderService) sendBackground(report *pb.Report, result chan error, can
 		defer conn.Close()
 
 		client := pb.NewReportsClient(conn)
-		ack, err := client.Create(context.Background(), report)
+		ack, err := client.Create(ctx, report)
 		if err != nil {
 			return err
 		}
@@ -191,10 +196,9 @@ func (s *senderService) sendBackground(report *pb.Report, result chan error, can
 		}
 		return nil
 	}
-	select {
-	case result <- backoff.Retry(send, backoff.NewExponentialBackOff()):
-	case <-cancel:
-	}
+	retry := backoff.NewExponentialBackOff()
+	retry.MaxElapsedTime = sendTimeout
+	result <- backoff.Retry(send, backoff.WithContext(retry, ctx))
 }
 
 // calcAlertRate determines if the rate of rule matches exceeds the limit in the
-- 
2.43.0


From 95434a6213657a4be2e21a1d6cae03e86aafb375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:35 +0000
Subject: [PATCH 25/43] fix: the error reported for a delivery timeout does not
 contain the report

---
 pkg/monny/report.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/monny/report.go b/pkg/monny/report.go
index 5730ea8..3ba176b 100644
--- a/pkg/monny/report.go
+++ b/pkg/monny/report.go
@@ -140,7 +140,7 @@ func (r *Report) Send(c *Command, reason proto.ReportReason) {
 		}
 	case <-timeout:
 		cancel <- true
-		c.errors.ReportError(fmt.Errorf("timeout on background report send: msg=%+v", pb))
+		c.errors.ReportError(fmt.Errorf("timeout on background report send"))
 	}
 }
 
-- 
2.43.0


From 71f75b86cd792f418c960fb1c55055a507ffa55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:35 +0000
Subject: [PATCH 26/43] fix: creating a report does not change the connection
 options while another report is sent

---
 pkg/monny/report.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pkg/monny/report.go b/pkg/monny/report.go
index 3ba176b..010fa29 100644
--- a/pkg/monny/report.go
+++ b/pkg/monny/report.go
@@ -46,6 +46,7 @@ type senderService struct {
 	host   string
 	port   string
 	opts   []grpc.DialOption
+	secure sync.Once
 	errors ErrorReporter
 	wg     sync.WaitGroup
 }
@@ -53,11 +54,13 @@ type senderService struct {
 // Create prepares a new report based on the current status of the command.
 func (s *senderService) create(c *Command, reason proto.ReportReason) *pb.Report {
 	pb := reportFromCommand(c, reason, s.errors.ReportError)
-	if c.Config.useTLS {
-		s.opts = append(s.opts, grpc.WithTransportCredentials(credentials.NewTLS(&tls.Config{})))
-	} else {
-		s.opts = append(s.opts, grpc.WithInsecure())
-	}
+	s.secure.Do(func() {
+		if c.Config.useTLS {
+			s.opts = append(s.opts, grpc.WithTransportCredentials(credentials.NewTLS(&tls.Config{})))
+		} else {
+			s.opts = append(s.opts, grpc.WithInsecure())
+		}
+	})
 	return pb
 }
 
-- 
2.43.0


From 0bf7ddd3352ff2d68c77582e41a63a6e31601cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:35 +0000
Subject: [PATCH 27/43] fix: the default report host can be dialled

---
 pkg/monny/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/monny/config.go b/pkg/monny/config.go
index adc086d..2acb5da 100644
--- a/pkg/monny/config.go
+++ b/pkg/monny/config.go
@@ -11,7 +11,7 @@ import (
 	"time"
 )
 
-const api string = "https://report.lmkwtf.com"
+const api string = "report.lmkwtf.com"
 const port string = "443"
 
 // Config stores configuration data for the monitoring service.  Functional options are
-- 
2.43.0


From b201b34c884c5587a5e8b0f7d83d307180c6ae50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:27 +0000
Subject: [PATCH 28/43] fix: monny does not exit before the reports it started
 are delivered

---
 cmd/monny/main.go     |  1 +
 pkg/monny/command.go  | 34 ++++++++++++++++++++++++++++++----
 pkg/monny/handlers.go | 16 ++++++++--------
 3 files changed, 39 insertions(+), 12 deletions(-)

diff --git a/cmd/monny/main.go b/cmd/monny/main.go
index 0d662b0..9ce94be 100644
--- a/cmd/monny/main.go
+++ b/cmd/monny/main.go
@@ -30,6 +30,7 @@ func main() {
 
 	if err := cmd.Exec(); err != nil {
 		fmt.Println("Process error:", err)
+		cmd.Wait()
 		os.Exit(1)
 	}
 	if err := cmd.Wait(); err != nil {
diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index cc9f488..30666c3 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -44,6 +44,8 @@ type Command struct {
 	handler      ProcessHandlers
 	report       ReportSender
 	errors       ErrorReporter
+	sending      int        // reports that were started and are not finished
+	sent         *sync.Cond // signals that a report is finished
 	cleanup      []func() error
 	out          io.WriteCloser
 	err          io.WriteCloser
@@ -91,9 +93,33 @@ func New(usercmd []string, options ...ConfigOption) (*Command, []error) {
 // Wait blocks program termination until the user's command finishes and all potential
 // reports and metrics are transmitted to the server
 func (c *Command) Wait() error {
+	c.mutex.Lock()
+	if c.sent == nil {
+		c.sent = sync.NewCond(&c.mutex)
+	}
+	for c.sending > 0 {
+		c.sent.Wait()
+	}
+	c.mutex.Unlock()
 	return c.report.Wait()
 }
 
+// send sends a report in the background.  Wait will not return before it is finished.
+func (c *Command) send(reason proto.ReportReason) {
+	c.mutex.Lock()
+	c.sending++
+	c.mutex.Unlock()
+	go func() {
+		c.report.Send(c, reason)
+		c.mutex.Lock()
+		defer c.mutex.Unlock()
+		c.sending--
+		if c.sent != nil {
+			c.sent.Broadcast()
+		}
+	}()
+}
+
 // Exec will execute the user's command in a forked process and monitor log output and process
 // metrics
 func (c *Command) Exec() error {
@@ -304,9 +330,9 @@ func (c *Command) processStdout(line []byte) {
 	if len(matches) > 0 {
 		switch {
 		case c.Config.RuleQuantity > 0:
-			go c.report.Send(c, proto.AlertRate)
+			c.send(proto.AlertRate)
 		default:
-			go c.report.Send(c, proto.Alert)
+			c.send(proto.Alert)
 		}
 	}
 	c.mutex.Lock()
@@ -326,9 +352,9 @@ func (c *Command) processStderr(line []byte) {
 	if len(matches) > 0 {
 		switch {
 		case c.Config.RuleQuantity > 0:
-			go c.report.Send(c, proto.AlertRate)
+			c.send(proto.AlertRate)
 		default:
-			go c.report.Send(c, proto.Alert)
+			c.send(proto.Alert)
 		}
 	}
 	c.mutex.Lock()
diff --git a/pkg/monny/handlers.go b/pkg/monny/handlers.go
index 9ecb99f..2d46ee2 100644
--- a/pkg/monny/handlers.go
+++ b/pkg/monny/handlers.go
@@ -38,7 +38,7 @@ func (h handler) Finished(c *Command, cmd *exec.Cmd) error {
 		c.ExitCodeValid = true
 		c.ReportReason = proto.Success
 		c.mutex.Unlock()
-		go c.report.Send(c, proto.Success)
+		c.send(proto.Success)
 	default:
 		sysinfo, ok := cmd.ProcessState.Sys().(syscall.WaitStatus)
 		c.mutex.Lock()
@@ -49,7 +49,7 @@ func (h handler) Finished(c *Command, cmd *exec.Cmd) error {
 		c.ReportReason = proto.Failure
 		c.Success = false
 		c.mutex.Unlock()
-		go c.report.Send(c, proto.Failure)
+		c.send(proto.Failure)
 	}
 	handleFileCreation(c)
 	return nil
@@ -66,7 +66,7 @@ func (h handler) Signal(c *Command, cmd *exec.Cmd, sig os.Signal) error {
 	c.ReportReason = proto.Killed
 	c.mutex.Unlock()
 
-	go c.report.Send(c, proto.Killed)
+	c.send(proto.Killed)
 	if err := cmd.Process.Signal(sig); err != nil {
 		return err
 	}
@@ -85,7 +85,7 @@ func (h handler) Timeout(c *Command, cmd *exec.Cmd) error {
 	c.ReportReason = proto.Killed
 	c.mutex.Unlock()
 
-	go c.report.Send(c, proto.Killed)
+	c.send(proto.Killed)
 	if err := cmd.Process.Signal(os.Kill); err != nil {
 		return err
 	}
@@ -103,7 +103,7 @@ func (h handler) TimeWarning(c *Command) error {
 	c.timeWarnSent = true
 	c.mutex.Unlock()
 
-	go c.report.Send(c, proto.TimeWarning)
+	c.send(proto.TimeWarning)
 
 	return nil
 }
@@ -125,7 +125,7 @@ func (h handler) CheckMemory(c *Command, cmd *exec.Cmd) error {
 			c.memWarnSent = true
 			c.mutex.Unlock()
 
-			go c.report.Send(c, proto.MemoryWarning)
+			c.send(proto.MemoryWarning)
 		}
 	}
 	if c.Config.MemoryKill > 0 && mem >= c.Config.MemoryKill {
@@ -144,7 +144,7 @@ func (h handler) KillOnHighMemory(c *Command, cmd *exec.Cmd) error {
 	c.ReportReason = proto.Killed
 	c.mutex.Unlock()
 
-	go c.report.Send(c, proto.Killed)
+	c.send(proto.Killed)
 	if err := cmd.Process.Signal(os.Kill); err != nil {
 		return err
 	}
@@ -163,7 +163,7 @@ func handleFileCreation(c *Command) {
 			c.Messages = append(c.Messages, fmt.Sprintf("file not created: %s", f))
 			c.ReportReason = proto.FileNotCreated
 			c.mutex.Unlock()
-			go c.report.Send(c, proto.FileNotCreated)
+			c.send(proto.FileNotCreated)
 		case err == nil:
 			c.mutex.Lock()
 			c.Created = append(c.Created, File{
-- 
2.43.0


From 88f9c7cc2ae64b1a3a91f1656d83269065721667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:27 +0000
Subject: [PATCH 29/43] fix: the duration of a process killed on timeout is not
 negative

---
 pkg/monny/handlers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/monny/handlers.go b/pkg/monny/handlers.go
index 2d46ee2..5b20fb1 100644
--- a/pkg/monny/handlers.go
+++ b/pkg/monny/handlers.go
@@ -81,7 +81,7 @@ func (h handler) Timeout(c *Command, cmd *exec.Cmd) error {
 	c.Killed = true
 	c.KillReason = proto.Timeout
 	c.Finish = time.Now()
-	c.Duration = c.Start.Sub(c.Finish)
+	c.Duration = c.Finish.Sub(c.Start)
 	c.ReportReason = proto.Killed
 	c.mutex.Unlock()
 
-- 
2.43.0


From 7e1896097b9fb91ed067f8170eaf925f981fd478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:27 +0000
Subject: [PATCH 30/43] fix: a run that did not create an expected file is not
 reported as a success

---
 pkg/monny/handlers.go | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/pkg/monny/handlers.go b/pkg/monny/handlers.go
index 5b20fb1..86d78ba 100644
--- a/pkg/monny/handlers.go
+++ b/pkg/monny/handlers.go
@@ -34,11 +34,16 @@ func (h handler) Finished(c *Command, cmd *exec.Cmd) error {
 	switch cmd.ProcessState.Success() {
 	case true:
 		c.mutex.Lock()
-		c.Success = true
 		c.ExitCodeValid = true
-		c.ReportReason = proto.Success
 		c.mutex.Unlock()
-		c.send(proto.Success)
+		// a run is a success only if it also created the files it should
+		if handleFileCreation(c) {
+			c.mutex.Lock()
+			c.Success = true
+			c.ReportReason = proto.Success
+			c.mutex.Unlock()
+			c.send(proto.Success)
+		}
 	default:
 		sysinfo, ok := cmd.ProcessState.Sys().(syscall.WaitStatus)
 		c.mutex.Lock()
@@ -50,8 +55,8 @@ func (h handler) Finished(c *Command, cmd *exec.Cmd) error {
 		c.Success = false
 		c.mutex.Unlock()
 		c.send(proto.Failure)
+		handleFileCreation(c)
 	}
-	handleFileCreation(c)
 	return nil
 }
 
@@ -152,19 +157,22 @@ func (h handler) KillOnHighMemory(c *Command, cmd *exec.Cmd) error {
 }
 
 // handleFileCreation is called on process completion and checks for the existence of
-// files that should have been created if the configuration includes the created flag.
-func handleFileCreation(c *Command) {
+// files that should have been created if the configuration includes the created flag.  Returns
+// true if all of them exist.
+func handleFileCreation(c *Command) bool {
+	created := true
 	for _, f := range c.Config.Creates {
 		finfo, err := os.Stat(f)
 		switch {
-		case os.IsNotExist(err):
+		case err != nil:
+			created = false
 			c.mutex.Lock()
 			c.Success = false
 			c.Messages = append(c.Messages, fmt.Sprintf("file not created: %s", f))
 			c.ReportReason = proto.FileNotCreated
 			c.mutex.Unlock()
 			c.send(proto.FileNotCreated)
-		case err == nil:
+		default:
 			c.mutex.Lock()
 			c.Created = append(c.Created, File{
 				Path: finfo.Name(),
@@ -172,9 +180,7 @@ func handleFileCreation(c *Command) {
 				Size: finfo.Size(),
 			})
 			c.mutex.Unlock()
-		default:
-			continue
 		}
 	}
-	return
+	return created
 }
-- 
2.43.0


From b7c4a309fd3ce47400116361b6e4974e0d99950e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:51 +0000
Subject: [PATCH 31/43] fix: monny does not crash when its stdin is closed

---
 pkg/monny/command.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index 30666c3..ecddcba 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -169,6 +169,7 @@ func (c *Command) Exec() error {
 		fi, err := os.Stdin.Stat()
 		if err != nil {
 			c.errors.ReportError(fmt.Errorf("failed to get stdin properties: %+v", err))
+			return
 		}
 		if fi.Mode()&os.ModeNamedPipe != 0 {
 			_, err := io.Copy(stdinWriter, os.Stdin)
-- 
2.43.0


From 512ed330e06a54a8034be986fb92488312677a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:51 +0000
Subject: [PATCH 32/43] fix: negative and overflowing memory limits are
 rejected

---
 pkg/monny/config.go | 60 ++++++++++++++++++++++-----------------------
 1 file changed, 29 insertions(+), 31 deletions(-)

diff --git a/pkg/monny/config.go b/pkg/monny/config.go
index 2acb5da..286f2e3 100644
--- a/pkg/monny/config.go
+++ b/pkg/monny/config.go
@@ -3,6 +3,7 @@ package monny
 import (
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"os/exec"
 	"regexp"
@@ -217,28 +218,38 @@ func Daemon() ConfigOption {
 	}
 }
 
+// parseMemory returns the memory size in K given by an integer with an optional unit K, M or G.
+func parseMemory(mem string) (uint64, error) {
+	factor := uint64(1)
+	switch {
+	case strings.HasSuffix(mem, "K"):
+		mem = mem[0 : len(mem)-1]
+	case strings.HasSuffix(mem, "M"):
+		mem = mem[0 : len(mem)-1]
+		factor = 1000
+	case strings.HasSuffix(mem, "G"):
+		mem = mem[0 : len(mem)-1]
+		factor = 1000000
+	}
+	size, err := strconv.ParseUint(mem, 10, 64)
+	if err != nil {
+		return 0, err
+	}
+	if size > math.MaxUint64/factor {
+		return 0, fmt.Errorf("memory size out of range")
+	}
+	return size * factor, nil
+}
+
 // MemoryWarn sends a report when process memory exceeds this value.  Expects a string with
 // units in K, M, or G.  (Linux only, memory measurements on Darwin or Windows is a no-op)
 func MemoryWarn(mem string) ConfigOption {
 	return func(c *Config) error {
-		var err error
-		var warn int
-		switch {
-		case strings.HasSuffix(mem, "K"):
-			warn, err = strconv.Atoi(mem[0 : len(mem)-1])
-		case strings.HasSuffix(mem, "M"):
-			warn, err = strconv.Atoi(mem[0 : len(mem)-1])
-			warn = warn * 1000
-		case strings.HasSuffix(mem, "G"):
-			warn, err = strconv.Atoi(mem[0 : len(mem)-1])
-			warn = warn * 1000000
-		default:
-			warn, err = strconv.Atoi(mem)
-		}
+		warn, err := parseMemory(mem)
 		if err != nil {
 			return fmt.Errorf("could not parse memory warning limit: %s", mem)
 		}
-		c.MemoryWarn = uint64(warn)
+		c.MemoryWarn = warn
 		return nil
 	}
 }
@@ -247,24 +258,11 @@ func MemoryWarn(mem string) ConfigOption {
 // units in K, M, or G.  (Linux only, memory measurements on Darwin or Windows is a no-op)
 func MemoryKill(mem string) ConfigOption {
 	return func(c *Config) error {
-		var err error
-		var kill int
-		switch {
-		case strings.HasSuffix(mem, "K"):
-			kill, err = strconv.Atoi(mem[0 : len(mem)-1])
-		case strings.HasSuffix(mem, "M"):
-			kill, err = strconv.Atoi(mem[0 : len(mem)-1])
-			kill = kill * 1000
-		case strings.HasSuffix(mem, "G"):
-			kill, err = strconv.Atoi(mem[0 : len(mem)-1])
-			kill = kill * 1000000
-		default:
-			kill, err = strconv.Atoi(mem)
-		}
+		kill, err := parseMemory(mem)
 		if err != nil {
-			return fmt.Errorf("could not parse memory warning limit: %s", mem)
+			return fmt.Errorf("could not parse memory kill limit: %s", mem)
 		}
-		c.MemoryKill = uint64(kill)
+		c.MemoryKill = kill
 		return nil
 	}
 }
-- 
2.43.0


From 9f4ff87c280906a0a4aec5fadbc005638e788c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:51 +0000
Subject: [PATCH 33/43] fix: the shell option is not overridden by the
 environment

---
 pkg/monny/config.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/monny/config.go b/pkg/monny/config.go
index 286f2e3..1e17130 100644
--- a/pkg/monny/config.go
+++ b/pkg/monny/config.go
@@ -77,11 +77,13 @@ func newConfig(options ...ConfigOption) (Config, []error) {
 		}
 	}
 
-	shell, err := findDefaultShell()
-	if err != nil {
-		errors = append(errors, err)
+	if len(c.Shell) == 0 {
+		shell, err := findDefaultShell()
+		if err != nil {
+			errors = append(errors, err)
+		}
+		c.Shell = shell
 	}
-	c.Shell = shell
 	if len(c.ID) == 0 {
 		errors = append(errors, fmt.Errorf("id is required, use monny -i <id>; new ids are created with monctl create or pass your email address to get a notifications via email without an account"))
 	}
-- 
2.43.0


From 0514c8d4af3078b80cde0c4e809eadcff0c5f8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:28 +0000
Subject: [PATCH 34/43] fix: a boolean option that is set to false does not
 take effect

---
 pkg/monny/parse.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/pkg/monny/parse.go b/pkg/monny/parse.go
index 91b89cc..7c40a5c 100644
--- a/pkg/monny/parse.go
+++ b/pkg/monny/parse.go
@@ -102,11 +102,11 @@ func handleOption(name string, value string) (ConfigOption, error) {
 	case "stderr-history":
 		return StderrHistory(value), nil
 	case "no-notify-on-success":
-		return NoNotifyOnSuccess(), nil
+		return boolOption(name, value, func(c *Config, on bool) { c.NotifyOnSuccess = !on })
 	case "no-notify-on-failure":
-		return NoNotifyOnFailure(), nil
+		return boolOption(name, value, func(c *Config, on bool) { c.NotifyOnFailure = !on })
 	case "daemon":
-		return Daemon(), nil
+		return boolOption(name, value, func(c *Config, on bool) { c.Daemon = on })
 	case "memory-warn":
 		return MemoryWarn(value), nil
 	case "memory-kill":
@@ -120,9 +120,9 @@ func handleOption(name string, value string) (ConfigOption, error) {
 	case "host":
 		return Host(value), nil
 	case "insecure":
-		return Insecure(), nil
+		return boolOption(name, value, func(c *Config, on bool) { c.useTLS = !on })
 	case "no-error-reports":
-		return NoErrorReports(), nil
+		return boolOption(name, value, func(c *Config, on bool) { SuppressErrorReporting = on })
 	case "shell":
 		return Shell(value), nil
 	default:
@@ -130,6 +130,18 @@ func handleOption(name string, value string) (ConfigOption, error) {
 	}
 }
 
+// boolOption is an option that is switched on or off by its value
+func boolOption(name string, value string, set func(c *Config, on bool)) (ConfigOption, error) {
+	on, err := strconv.ParseBool(value)
+	if err != nil {
+		return nil, fmt.Errorf("invalid value for %s, should be true or false: %s", name, value)
+	}
+	return func(c *Config) error {
+		set(c, on)
+		return nil
+	}, nil
+}
+
 func parseFromFile(fpath string) ([]ConfigOption, error) {
 	var options []ConfigOption
 	data, err := ioutil.ReadFile(fpath)
@@ -157,7 +169,7 @@ func parseFromFile(fpath string) ([]ConfigOption, error) {
 			}
 			options = append(options, opt)
 		case bool:
-			opt, err := handleOption(k, "")
+			opt, err := handleOption(k, strconv.FormatBool(v.(bool)))
 			if err != nil {
 				return options, err
 			}
-- 
2.43.0


From 89673eb940d2f27ce2cee81bbc165631ff357a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:28 +0000
Subject: [PATCH 35/43] fix: each list in the configuration file is applied
 once

---
 pkg/monny/parse.go | 49 +++++++++++++++++++++-------------------------
 1 file changed, 22 insertions(+), 27 deletions(-)

diff --git a/pkg/monny/parse.go b/pkg/monny/parse.go
index 7c40a5c..a87fee4 100644
--- a/pkg/monny/parse.go
+++ b/pkg/monny/parse.go
@@ -174,31 +174,32 @@ func parseFromFile(fpath string) ([]ConfigOption, error) {
 				return options, err
 			}
 			options = append(options, opt)
-		// handles the case of a list of rules
-		case interface{}:
-			alt := listFieldsYAML{}
-			if err := yaml.Unmarshal(data, &alt); err != nil {
-				return options, fmt.Errorf("Could not unmarshal config value for key: %s", k)
+		case uint64:
+			opt, err := handleOption(k, strconv.FormatUint(v.(uint64), 10))
+			if err != nil {
+				return options, err
 			}
-			if len(alt.Rule) == 0 && len(alt.JSONRule) == 0 && len(alt.Creates) == 0 {
+			options = append(options, opt)
+		// handles the case of a list of rules
+		case []interface{}:
+			switch k {
+			case "rule", "rule-json", "creates":
+			default:
 				return options, fmt.Errorf("Unknown option: %s", k)
 			}
-			for _, val := range alt.Rule {
-				opt, err := handleOption("rule", val)
-				if err != nil {
-					return options, err
-				}
-				options = append(options, opt)
-			}
-			for _, val := range alt.JSONRule {
-				opt, err := handleOption("rule-json", val)
-				if err != nil {
-					return options, err
+			for _, val := range v.([]interface{}) {
+				var value string
+				switch val.(type) {
+				case string:
+					value = val.(string)
+				case int:
+					value = strconv.Itoa(val.(int))
+				case bool:
+					value = strconv.FormatBool(val.(bool))
+				default:
+					return options, fmt.Errorf("Could not process config key %s, unknown type", k)
 				}
-				options = append(options, opt)
-			}
-			for _, val := range alt.Creates {
-				opt, err := handleOption("creates", val)
+				opt, err := handleOption(k, value)
 				if err != nil {
 					return options, err
 				}
@@ -210,9 +211,3 @@ func parseFromFile(fpath string) ([]ConfigOption, error) {
 	}
 	return options, nil
 }
-
-type listFieldsYAML struct {
-	Rule     []string `yaml:"rule"`
-	JSONRule []string `yaml:"rule-json"`
-	Creates  []string `yaml:"creates"`
-}
-- 
2.43.0


From d5256c84ae91e7c463088e22f4d03a3c3fbab5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:28 +0000
Subject: [PATCH 36/43] fix: a JSON rule without a field is rejected

---
 pkg/monny/parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/monny/parse.go b/pkg/monny/parse.go
index a87fee4..ecb7b23 100644
--- a/pkg/monny/parse.go
+++ b/pkg/monny/parse.go
@@ -93,7 +93,7 @@ func handleOption(name string, value string) (ConfigOption, error) {
 		return Rule(value), nil
 	case "rule-json":
 		jrule := strings.SplitAfterN(value, ":", 2)
-		if len(jrule) != 2 {
+		if len(jrule) != 2 || len(jrule[0]) == 1 {
 			return nil, fmt.Errorf("invalid format for json rule, should be field:value only in %s", value)
 		}
 		return JSONRule(jrule[0][0:len(jrule[0])-1], jrule[1]), nil
-- 
2.43.0


From 882558e4e171f78d95c569b4d6ad3b4d0aca716d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:00 +0000
Subject: [PATCH 37/43] fix: a Poisson draw is never negative

---
 pkg/rng/poisson.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/rng/poisson.go b/pkg/rng/poisson.go
index 61163e6..31a1b02 100644
--- a/pkg/rng/poisson.go
+++ b/pkg/rng/poisson.go
@@ -20,11 +20,13 @@ func (r *PoissonRNG) Rand() float64 {
 	var k int64 = 0
 	var p float64 = 1.0
 
-	for p > L {
+	for {
 		k++
 		p = p * r.r.Float64()
+		if !(p > L) {
+			return float64(k - 1)
+		}
 	}
-	return float64(k - 1)
 }
 
 func NewPoissonRNG(lambda float64) *PoissonRNG {
-- 
2.43.0


From 1d9885449c6880140efac93551e086c7ba0e4efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:25 +0000
Subject: [PATCH 38/43] fix: a missing command is an error and does not crash

---
 pkg/monny/command.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index ecddcba..351c49a 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -131,6 +131,8 @@ func (c *Command) Exec() error {
 	c.cleanup = append(c.cleanup, cleanup)
 
 	switch len(wrappedCmd) {
+	case 0:
+		return fmt.Errorf("no command to execute")
 	case 1:
 		cmd = exec.Command(wrappedCmd[0])
 	default:
-- 
2.43.0


From 83f7f5fb57f30c0e6dec743ba2f819ac9494d337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:27 +0000
Subject: [PATCH 39/43] fix: do not send the server's address with errors about
 failed reports

---
 pkg/monny/report.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/monny/report.go b/pkg/monny/report.go
index 010fa29..fc3287e 100644
--- a/pkg/monny/report.go
+++ b/pkg/monny/report.go
@@ -15,6 +15,7 @@ import (
 	"github.com/cenkalti/backoff"
 	"google.golang.org/grpc"
 	"google.golang.org/grpc/credentials"
+	"google.golang.org/grpc/status"
 )
 
 // ReportSender is an interface for sending reports
@@ -201,7 +202,12 @@ func (s *senderService) sendBackground(report *pb.Report, result chan error, can
 	}
 	retry := backoff.NewExponentialBackOff()
 	retry.MaxElapsedTime = sendTimeout
-	result <- backoff.Retry(send, backoff.WithContext(retry, ctx))
+	err := backoff.Retry(send, backoff.WithContext(retry, ctx))
+	if err != nil {
+		// the error names the configured server, which must not be part of an error report
+		err = fmt.Errorf("failed to send report: %s", status.Code(err))
+	}
+	result <- err
 }
 
 // calcAlertRate determines if the rate of rule matches exceeds the limit in the
-- 
2.43.0


From fc1fa787d16b04cda0b67be37f31017b948ab0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:59 +0000
Subject: [PATCH 40/43] fix: a report whose text is not valid UTF-8 can be
 delivered

---
 pkg/monny/report.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/pkg/monny/report.go b/pkg/monny/report.go
index fc3287e..8413382 100644
--- a/pkg/monny/report.go
+++ b/pkg/monny/report.go
@@ -240,10 +240,10 @@ func calcAlertRate(matches []RuleMatch, quantity int, period time.Duration) bool
 // schema on the backend
 func reportFromCommand(c *Command, reason proto.ReportReason, onError func(e error)) *pb.Report {
 	return &pb.Report{
-		Id:            c.Config.ID,
-		Hostname:      c.Config.Hostname,
-		Stdout:        c.Stdout,
-		Stderr:        c.Stderr,
+		Id:            validText(c.Config.ID),
+		Hostname:      validText(c.Config.Hostname),
+		Stdout:        validLines(c.Stdout),
+		Stderr:        validLines(c.Stderr),
 		Success:       c.Success,
 		MaxMemory:     c.MaxMemory,
 		Killed:        c.Killed,
@@ -255,14 +255,30 @@ func reportFromCommand(c *Command, reason proto.ReportReason, onError func(e err
 		Duration:      c.Duration.String(),
 		ExitCode:      c.ExitCode,
 		ExitCodeValid: c.ExitCodeValid,
-		Messages:      c.Messages,
+		Messages:      validLines(c.Messages),
 		Matches:       marshalMatches(c.RuleMatches, onError),
-		UserCommand:   strings.Join(c.UserCommand, " "),
+		UserCommand:   validText(strings.Join(c.UserCommand, " ")),
 		Config:        marshalConfig(c.Config, onError),
 		CreatedAt:     time.Now().Unix(),
 	}
 }
 
+// validText replaces bytes that are not valid UTF-8, which can not be part of a PB string
+func validText(s string) string {
+	return strings.ToValidUTF8(s, "\uFFFD")
+}
+
+func validLines(lines []string) []string {
+	if lines == nil {
+		return nil
+	}
+	valid := make([]string, len(lines))
+	for i, l := range lines {
+		valid[i] = validText(l)
+	}
+	return valid
+}
+
 func marshalMatches(a []RuleMatch, onError func(e error)) []byte {
 	b, err := json.Marshal(a)
 	if err != nil {
-- 
2.43.0


From 4ad4fbe9abc21ea3b88fd94116e1f155a3973792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:59 +0000
Subject: [PATCH 41/43] fix: record the end of a process while its piped input
 stays open

---
 pkg/monny/command.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index 351c49a..7fb6a22 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -163,9 +163,9 @@ func (c *Command) Exec() error {
 	c.pid = os.Getpid()
 
 	var wg sync.WaitGroup
-	wg.Add(3)
+	// the process may end before its input does
+	wg.Add(2)
 	go func() {
-		defer wg.Done()
 		defer stdinWriter.Close()
 		// determine if a monny is after a previous piped process, copy to forked process stdin if necessary
 		fi, err := os.Stdin.Stat()
-- 
2.43.0


From ee6cbda4e6fc67481d86fa0be7fde00766897a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:59 +0000
Subject: [PATCH 42/43] fix: end the sampling of every statistic that shares a
 distribution

---
 pkg/metric/sampled.go | 3 ++-
 pkg/stat/pdf.go       | 8 +++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/pkg/metric/sampled.go b/pkg/metric/sampled.go
index 14c03ae..5a53b14 100644
--- a/pkg/metric/sampled.go
+++ b/pkg/metric/sampled.go
@@ -54,7 +54,8 @@ func NewSampledSeries(capacity int, sampleWindow time.Duration, transform func([
 				}
 			}
 		}(ss)
-		return ss, func() { ss.done <- true; ss.wg.Wait() }, nil
+		var once sync.Once
+		return ss, func() { once.Do(func() { ss.done <- true }); ss.wg.Wait() }, nil
 	} else {
 		// if duration is zero, use direct mode where observations are immediately written to the underlying
 		// series storage.  The transform in this case is a no op.
diff --git a/pkg/stat/pdf.go b/pkg/stat/pdf.go
index 244f4da..bd61099 100644
--- a/pkg/stat/pdf.go
+++ b/pkg/stat/pdf.go
@@ -37,7 +37,7 @@ type Poisson struct {
 	capacity int
 	window   time.Duration
 	strategy func([]float64) float64
-	done     func()
+	done     []func()
 	k        K
 }
 
@@ -54,7 +54,7 @@ func (p *Poisson) NewSeries() (metric.SeriesRecorder, error) {
 	if err != nil {
 		return nil, fmt.Errorf("failed to create Poisson PDF estimator: %v", err)
 	}
-	p.done = done
+	p.done = append(p.done, done)
 	return series, nil
 }
 
@@ -67,7 +67,9 @@ func (p *Poisson) K() (float64, error) {
 }
 
 func (p *Poisson) Done() {
-	p.done()
+	for _, done := range p.done {
+		done()
+	}
 }
 
 func (p *Poisson) String() string {
-- 
2.43.0


From 498a6e677e9250f016d4373beda9416d7c6cfa93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:59 +0000
Subject: [PATCH 43/43] fix: do not keep the values a receiver has from before
 when decoding an event

---
 pkg/eventbus/event.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/eventbus/event.go b/pkg/eventbus/event.go
index 110d82c..4719db3 100644
--- a/pkg/eventbus/event.go
+++ b/pkg/eventbus/event.go
@@ -5,6 +5,7 @@ import (
 	"encoding/gob"
 	"errors"
 	"fmt"
+	"reflect"
 )
 
 // EventType represents the type of event being passed on the bus.  It allows handlers receiving the event to
@@ -40,6 +41,15 @@ func (e Event) Decode(receiver interface{}) error {
 		return nil
 	}
 	dec := gob.NewDecoder(bytes.NewReader(e.d))
+	// values that are zero are not part of the data, do not keep those the receiver has from before
+	if v := reflect.ValueOf(receiver); v.Kind() == reflect.Ptr && !v.IsNil() {
+		fresh := reflect.New(v.Type().Elem())
+		if err := dec.Decode(fresh.Interface()); err != nil {
+			return fmt.Errorf("failed to decode event %s: %v", e.t, err)
+		}
+		v.Elem().Set(fresh.Elem())
+		return nil
+	}
 	if err := dec.Decode(receiver); err != nil {
 		return fmt.Errorf("failed to decode event %s: %v", e.t, err)
 	}
-- 
2.43.0

