// Package hfsm holds the harnesses for pkg/fsm.
package hfsm

import (
	"github.com/BTBurke/monny/pkg/fsm"
	"github.com/BTBurke/monny/zzverif/sym"
)

// longest is the length of the longest names; with 1 all names have one byte,
// which makes every pattern of equal and different names, with more they have
// any length up to it.
var longest = 1

// state is an arbitrary state name.
func state(label string) fsm.State {
	n := 1
	if longest > 1 {
		n = sym.Choose("length", longest+1)
	}
	return fsm.State(sym.String(label, n))
}

type edge struct{ from, to fsm.State }

type spec struct {
	edges     []edge
	stoppable bool
	initial   fsm.State
	cur       fsm.State
	stopped   bool
}

func eq(a, b fsm.State) bool { return sym.EqString(string(a), string(b)) }

func (s *spec) allowed(from, to fsm.State) bool {
	r := false
	for _, e := range s.edges {
		r = sym.Or(r, sym.And(eq(e.from, from), eq(e.to, to)))
	}
	return r
}

// options configures the edges in one of the documented ways.
func (s *spec) options() []fsm.MachineOption {
	var opts []fsm.MachineOption
	stopFirst := s.stoppable && sym.Bool("stoppable-first")
	if stopFirst {
		opts = append(opts, fsm.WithStoppable())
	}
	switch sym.Choose("config-style", 3) {
	case 0:
		for _, e := range s.edges {
			opts = append(opts, fsm.WithTransition(fsm.Transition{From: e.from, To: e.to}))
		}
	case 1:
		// one call with one group per edge
		var ts [][]fsm.Transition
		for _, e := range s.edges {
			ts = append(ts, fsm.T(e.from, e.to))
		}
		opts = append(opts, fsm.WithTransitions(ts...))
	case 2:
		// several targets in one group: all edges leave the first edge's state
		var to []fsm.State
		for i := range s.edges {
			s.edges[i].from = s.edges[0].from
			to = append(to, s.edges[i].to)
		}
		if len(to) > 0 {
			opts = append(opts, fsm.WithTransitions(fsm.T(s.edges[0].from, to...)))
		}
	}
	if s.stoppable && !stopFirst {
		opts = append(opts, fsm.WithStoppable())
	}
	return opts
}

func newSpec(nEdges int) *spec {
	s := &spec{initial: state("initial")}
	if nEdges == 1 && sym.Choose("empty-name", 2) == 1 {
		s.initial = ""
	}
	for i := 0; i < nEdges; i++ {
		s.edges = append(s.edges, edge{state("from"), state("to")})
	}
	s.stoppable = sym.Choose("stoppable", 2) == 1
	s.cur = s.initial
	return s
}

// Named: the same with names of up to n bytes.
func Named(nEdges, ops, n int) {
	longest = n
	Machine(nEdges, ops)
}

// Machine drives a plain machine through ops calls and checks every answer
// against the configured edges.
func Machine(nEdges, ops int) {
	s := newSpec(nEdges)
	m, err := fsm.NewMachine(s.initial, s.options()...)
	sym.Assert(err == nil && m != nil, "a machine is created for every set of edges")
	sym.Assert(eq(m.State(), s.initial), "a new machine is in its initial state")
	for i := 0; i < ops; i++ {
		switch sym.Choose("op", 3) {
		case 0:
			to := state("target")
			want := sym.And(s.allowed(s.cur, to), sym.Not(sym.And(s.stoppable, s.stopped)))
			err := m.Transition(to)
			sym.Log("transition-ok", err == nil)
			if err == nil {
				sym.Assert(want, "an accepted transition is a configured edge of a machine that is not stopped")
				s.cur = to
				sym.Assert(eq(m.State(), to), "an accepted transition moves to its target")
			} else {
				sym.Assert(sym.Not(want), "a configured edge is not refused")
				s.stopped = true
				sym.Assert(eq(m.State(), s.cur), "a rejected transition leaves the state as it was")
			}
		case 1:
			m.Reset()
			s.cur = s.initial
			s.stopped = false
			sym.Assert(eq(m.State(), s.initial), "reset returns to the initial state")
			sym.Cover("reset")
		case 2:
			from, to := state("from?"), state("to?")
			got := m.Allowable(from, to)
			sym.Assert(got == s.allowed(from, to), "Allowable answers the configured edges")
			sym.Assert(eq(m.State(), s.cur), "Allowable changes nothing")
		}
	}
	sym.Cover("done")
}

// Nonce drives a nonce-protected machine: wrong, truncated, extended, empty
// and earlier nonces, and the current one.
func Nonce(nEdges, ops int) {
	s := newSpec(nEdges)
	m, err := fsm.NewMachineNonce(s.initial, s.options()...)
	sym.Assert(err == nil && m != nil, "a nonce machine is created for every set of edges")
	sym.Assert(eq(m.State(), s.initial), "a new nonce machine is in its initial state")
	var past [][]byte
	cur := append([]byte(nil), m.Nonce()...)
	sym.Assert(len(cur) == 16, "a nonce has 16 bytes")
	for i := 0; i < ops; i++ {
		fresh := func() {
			n := m.Nonce()
			sym.Assert(len(n) == 16, "a fresh nonce has 16 bytes")
			same := true
			for j := range n {
				same = sym.And(same, n[j] == cur[j])
			}
			sym.Assert(sym.Not(same), "every attempt and every reset retires the nonce")
			past = append(past, cur)
			for _, q := range past {
				same := true
				for j := range n {
					same = sym.And(same, n[j] == q[j])
				}
				sym.Assert(sym.Not(same), "no nonce value returns")
			}
			cur = append([]byte(nil), n...)
		}
		switch sym.Choose("op", 3) {
		case 0:
			to := state("target")
			var n []byte
			valid := false
			k := 4
			if len(past) > 0 {
				k = 5
			}
			switch sym.Choose("nonce", k) {
			case 0:
				n = append([]byte(nil), cur...)
				valid = true
			case 1:
				n = sym.Bytes("guess", 16)
				same := true
				for j := range n {
					same = sym.And(same, n[j] == cur[j])
				}
				valid = same
			case 2: // truncated
				n = append([]byte(nil), cur[:sym.IntIn("prefix", 0, 15)]...)
			case 3:
				n = append(append([]byte(nil), cur...), sym.Byte("extra"))
			case 4:
				n = past[len(past)-1-sym.Choose("age", len(past))]
			}
			want := sym.And(valid, sym.And(s.allowed(s.cur, to), sym.Not(sym.And(s.stoppable, s.stopped))))
			err := m.Transition(to, n)
			sym.Log("transition-ok", err == nil)
			if err == nil {
				sym.Assert(want, "an accepted transition had the current nonce and is a configured edge")
				s.cur = to
				sym.Assert(eq(m.State(), to), "an accepted transition moves to its target")
			} else {
				sym.Assert(sym.Not(want), "the current nonce authorises a configured edge")
				s.stopped = true
				sym.Assert(eq(m.State(), s.cur), "a refused transition leaves the state as it was")
			}
			fresh()
		case 1:
			sym.Assert(m.Reset() == nil, "reset succeeds")
			s.cur = s.initial
			s.stopped = false
			sym.Assert(eq(m.State(), s.initial), "reset returns to the initial state")
			fresh()
			sym.Cover("reset")
		case 2:
			from, to := state("from?"), state("to?")
			sym.Assert(m.Allowable(from, to) == s.allowed(from, to), "Allowable answers the configured edges")
		}
	}
	sym.Cover("done")
}
