package heventbus

import (
	"errors"
	"fmt"

	"github.com/BTBurke/monny/pkg/eventbus"
	"github.com/BTBurke/monny/zzverif/sym"
)

type payload struct {
	A int
	B string
	C []byte
	D map[string]int
	E *int
}

type other struct{ X, Y float64 }

type hidden struct{ a int }

type coded struct{ Code int }

func (c coded) Error() string { return fmt.Sprintf("code %d", c.Code) }

type opaque struct{ text string }

func (o *opaque) Error() string { return o.text }

// Payload: an event decodes to what was published even if the publisher
// changes its value afterwards.
func Payload(n int) {
	x := sym.Int("e")
	p := payload{A: sym.Int("a"), B: sym.String("b", n), C: sym.Bytes("c", n), D: map[string]int{"k": sym.Int("d")}, E: &x}
	a, b, c, d, ev := p.A, p.B, string(p.C), p.D["k"], x
	sym.Assume(len(c) > 0 && a != 0 && d != 0 && ev != 0 && b != "")
	var evt eventbus.Event
	var err error
	ptr := sym.Choose("pointer", 2) == 1
	if ptr {
		evt, err = eventbus.NewEvent("t", &p)
	} else {
		evt, err = eventbus.NewEvent("t", p)
	}
	sym.Assert(err == nil, "an event is created")
	p.A, p.B = 1, "changed"
	p.C[0]++
	p.D["k"] = 3
	p.D["l"] = 4
	*p.E = 5
	sym.Assert(evt.Type() == "t", "the type is kept")
	sym.Assert(evt.String() == "t", "the type is kept")
	for i := 0; i < 2; i++ {
		var q payload
		sym.Assert(evt.Decode(&q) == nil, "an event decodes into the type that was published")
		sym.Assert(q.A == a && sym.EqString(q.B, b) && sym.EqString(string(q.C), c), "the payload is what was published")
		sym.Assert(len(q.D) == 1 && q.D["k"] == d && *q.E == ev, "the payload is what was published")
		// one receiver does not see what another does to its value
		q.C[0]++
		q.D["k"] = 0
		*q.E = 0
	}
	// a second event of the same type, the other way round, is another event
	var evt2 eventbus.Event
	p.A = a + 1
	if ptr {
		evt2, err = eventbus.NewEvent("u", p)
	} else {
		evt2, err = eventbus.NewEvent("u", &p)
	}
	sym.Assert(err == nil, "an event is created")
	var q, r payload
	sym.Assert(evt.Decode(&q) == nil && evt2.Decode(&r) == nil, "an event decodes into the type that was published")
	sym.Assert(q.A == a && sym.EqString(q.B, b) && len(q.D) == 1, "the payload is what was published")
	sym.Assert(r.A == a+1 && r.B == "changed" && len(r.D) == 2, "the payload is what was published")
	sym.Assert(evt.Type() == "t" && evt2.Type() == "u", "the type is kept")
	sym.Cover("decoded")
}

// Reused: a receiver that has taken one event takes a second one, some of whose
// fields may be zero or empty: it then holds the second, and what was kept of the
// first is as it was. n: bytes of the second text and list.
func Reused(n int) {
	x, y := sym.Int("e"), sym.Int("e2")
	sym.Assume(sym.And(x != 0, y != 0))
	p := payload{A: 1, B: "first", C: []byte("first"), D: map[string]int{"k": 1}, E: &x}
	k := sym.Choose("length", n+1)
	s := payload{A: sym.Int("a2"), B: sym.String("b2", k), C: sym.Bytes("c2", k)}
	if sym.Choose("more", 2) == 1 {
		s.D = map[string]int{"l": 2}
		s.E = &y
	}
	first, err := eventbus.NewEvent("t", p)
	sym.Assert(err == nil, "an event is created")
	second, err := eventbus.NewEvent("t", s)
	sym.Assert(err == nil, "an event is created")
	var q payload
	sym.Assert(first.Decode(&q) == nil, "an event decodes into the type that was published")
	kept, keptE := q.C, q.E
	sym.Assert(second.Decode(&q) == nil, "an event decodes into the type that was published")
	sym.Assert(q.A == s.A && sym.EqString(q.B, s.B) && sym.EqString(string(q.C), string(s.C)), "the payload is what was published")
	sym.Assert(len(q.D) == len(s.D) && (s.D == nil || q.D["l"] == 2), "the payload is what was published")
	sym.Assert((q.E == nil) == (s.E == nil) && (s.E == nil || *q.E == y), "the payload is what was published")
	sym.Assert(string(kept) == "first" && *keptE == x, "what was taken from an event stays as it was")
	if k == 0 {
		sym.Cover("empty")
	}
}

// Kinds: primitive payloads and receivers of another type.
func Kinds(kind int) {
	var v interface{}
	n, s := sym.Int("n"), sym.String("s", 1)
	switch kind {
	case 0:
		v = n
	case 1:
		v = s
	case 2:
		v = []byte(s)
	case 3:
		v = other{X: 1, Y: 2}
	case 4:
		v = sym.Bool("b")
	}
	evt, err := eventbus.NewEvent("t", v)
	sym.Assert(err == nil, "an event is created")
	var ri int
	var rs string
	var rb []byte
	var ro other
	var rt bool
	ok := []bool{evt.Decode(&ri) == nil, evt.Decode(&rs) == nil, evt.Decode(&rb) == nil, evt.Decode(&ro) == nil, evt.Decode(&rt) == nil}
	for i := range ok {
		if i != kind && !(kind == 1 && i == 2 || kind == 2 && i == 1) {
			sym.Assert(!ok[i], "decoding into another type is an error")
		}
	}
	sym.Assert(ok[kind], "an event decodes into the type that was published")
	switch kind {
	case 0:
		sym.Assert(ri == n, "the payload is what was published")
	case 1:
		sym.Assert(sym.EqString(rs, s), "the payload is what was published")
	case 2:
		sym.Assert(sym.EqString(string(rb), s), "the payload is what was published")
	case 3:
		sym.Assert(ro.X == 1 && ro.Y == 2, "the payload is what was published")
	}
	sym.Assert(evt.Decode(7) != nil, "decoding into something that is not a pointer is an error")
}

// Nothing: events without a payload, and values that cannot be encoded.
func Nothing() {
	evt, err := eventbus.NewEvent("t", nil)
	sym.Assert(err == nil, "an event needs no payload")
	var n int
	sym.Assert(evt.Decode(&n) != nil, "there is nothing to decode in an event without payload")
	_, err = eventbus.NewEvent("t", hidden{1})
	sym.Assert(err != nil, "a payload that cannot be encoded is an error")
	_, err = eventbus.NewEvent("t", func() {})
	sym.Assert(err != nil, "a payload that cannot be encoded is an error")
}

// Error: an event built from an error.
func Error(kind int) {
	text := sym.String("text", 2)
	var e error
	switch kind {
	case 0:
		e = errors.New(text)
	case 1:
		e = fmt.Errorf("wrapped: %w", errors.New("x"))
	case 2:
		e = coded{Code: 7}
	case 3:
		e = &opaque{text}
	case 4:
		e = nil
	}
	evt, err := eventbus.NewErrorEvent("failure", e)
	sym.Assert(err == nil, "an event is built from any error")
	sym.Assert(evt.Type() == "failure", "the type is kept")
	if e == nil {
		return
	}
	var got error
	sym.Assert(evt.Decode(&got) == nil, "an error event decodes into an error")
	sym.Assert(got != nil, "an error event decodes into an error")
	sym.Assert(sym.EqString(got.Error(), e.Error()), "an error event decodes to the error's text")
	var n int
	sym.Assert(evt.Decode(&n) != nil, "decoding into another type is an error")
}
