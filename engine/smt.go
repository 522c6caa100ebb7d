package main

// A persistent incremental SMT solver process per worker.

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type SatRes int

const (
	Unsat SatRes = iota
	Sat
	Unknown
)

func (r SatRes) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

// SolverStats are shared by all workers.
type SolverStats struct {
	queries, sat, unsat, unknown, cached int64
	nanos                                int64
	errors                               int64
}

type Solver struct {
	cmdline  []string
	cmd      *exec.Cmd
	in       *bufio.Writer
	inPipe   io.WriteCloser
	out      *bufio.Reader
	defined  map[int]bool
	vars     map[int]bool
	stack    []*Term
	stats    *SolverStats
	timeout  int // ms
	n        int
	dump     io.Writer
	dumpPfx  string
	fallback *Solver
	enc      *ienc   // integer encoding analysis (bit-vector solver)
	ints     *Solver // the solver for queries it covers
	intMode  *ienc   // set on that solver
}

// withInts adds a companion solver for the integer encoding.
func (s *Solver) withInts() *Solver {
	s.enc = newIenc()
	s.ints = newSolver(s.cmdline, s.stats, 3000)
	s.ints.intMode = s.enc
	return s
}

func newSolver(cmdline []string, stats *SolverStats, timeoutMS int) *Solver {
	s := &Solver{cmdline: cmdline, stats: stats, timeout: timeoutMS}
	return s
}

func (s *Solver) start() {
	s.close()
	s.cmd = exec.Command(s.cmdline[0], s.cmdline[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(fmt.Sprintf("cannot start solver %v: %v", s.cmdline, err))
	}
	s.inPipe = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.defined = map[int]bool{}
	s.vars = map[int]bool{}
	s.stack = nil
	s.n = 0
	s.send("(set-option :print-success false)")
	s.send("(set-option :produce-models true)")
	if strings.Contains(s.cmdline[0], "z3") {
		s.send("(set-option :global-declarations true)")
		s.send(fmt.Sprintf("(set-option :timeout %d)", s.timeout))
	} else {
		s.send("(set-option :global-declarations true)")
		s.send("(set-logic ALL)")
	}
}

func (s *Solver) close() {
	s.reset()
	if s.fallback != nil {
		s.fallback.close()
	}
	if s.ints != nil {
		s.ints.close()
	}
}

func (s *Solver) send(l string) {
	if s.dump != nil {
		fmt.Fprintln(s.dump, l)
	}
	s.in.WriteString(l)
	s.in.WriteByte('\n')
}

// define makes sure t and its subterms are known to the solver.
func (s *Solver) define(t *Term) {
	switch t.op {
	case OConst:
		return
	case OVar:
		if !s.vars[t.id] {
			s.vars[t.id] = true
			if s.intMode != nil {
				s.send("(declare-const " + t.ref() + " " + isort(t.w) + ")")
			} else {
				s.send("(declare-const " + t.ref() + " " + sortStr(t.w) + ")")
			}
		}
		return
	}
	if s.defined[t.id] {
		return
	}
	s.defined[t.id] = true
	for _, a := range t.args {
		s.define(a)
	}
	if s.intMode != nil {
		s.send("(define-fun " + t.ref() + " () " + isort(t.w) + " " + ibody(t) + ")")
		return
	}
	s.send("(define-fun " + t.ref() + " () " + sortStr(t.w) + " " + t.body() + ")")
}

func (s *Solver) asrt(t *Term) string {
	if s.intMode != nil {
		return "(assert " + s.intMode.assertion(t) + ")"
	}
	return "(assert " + t.ref() + ")"
}

// checkFor decides pc ∧ extra like check, where pc is known to be satisfiable
// and base, if any, is a model of it. When bit operations keep the whole query
// from being read over the integers, the part of it that is connected to extra
// is decided on its own if it can be.
func (s *Solver) checkFor(pc []*Term, extra *Term, vars []*Term, base *Model) (SatRes, *Model) {
	if s.ints == nil || extra.isTrue() || !s.enc.ok(extra) {
		return s.check(pc, extra, vars, true)
	}
	all := true
	for _, t := range pc {
		if !s.enc.ok(t) {
			all = false
			break
		}
	}
	if all {
		return s.check(pc, extra, vars, true)
	}
	e := s.enc
	in := map[*Term]bool{}
	for _, v := range e.inputs(extra) {
		in[v] = true
	}
	taken := make([]bool, len(pc))
	for grown := true; grown; {
		grown = false
		for i, t := range pc {
			if taken[i] {
				continue
			}
			vs := e.inputs(t)
			for _, v := range vs {
				if in[v] {
					taken[i] = true
					grown = true
					for _, v := range vs {
						in[v] = true
					}
					break
				}
			}
		}
	}
	var part []*Term
	ar := e.arith[extra.id]
	for i, t := range pc {
		if taken[i] {
			if !e.ok(t) {
				return s.check(pc, extra, vars, true)
			}
			ar = ar || e.arith[t.id]
			part = append(part, t)
		}
	}
	if !ar {
		return s.check(pc, extra, vars, true)
	}
	var pv []*Term
	for _, v := range vars {
		if in[v] {
			pv = append(pv, v)
		}
	}
	r, m := s.ints.check(part, extra, pv, true)
	switch {
	case r == Unsat:
		return Unsat, nil
	case r == Sat && base != nil && m != nil:
		for v, c := range base.bv {
			if !in[v] {
				m.bv[v] = c
			}
		}
		for v, c := range base.rat {
			if !in[v] {
				m.rat[v] = c
			}
		}
		return Sat, m
	case r == Unknown:
		atomic.AddInt64(&s.stats.unknown, -1)
		atomic.AddInt64(&s.stats.queries, -1)
	}
	return s.check(pc, extra, vars, true)
}

// check decides pc ∧ extra. When model is wanted and the answer is sat, it is
// read back for vars.
func (s *Solver) check(pc []*Term, extra *Term, vars []*Term, wantModel bool) (SatRes, *Model) {
	if s.ints != nil {
		ok := s.enc.ok(extra)
		ar := s.enc.arith[extra.id]
		for _, t := range pc {
			if !ok {
				break
			}
			ok = s.enc.ok(t)
			ar = ar || s.enc.arith[t.id]
		}
		if ok && ar {
			r, m := s.ints.check(pc, extra, vars, wantModel)
			if r != Unknown {
				return r, m
			}
			atomic.AddInt64(&s.stats.unknown, -1)
			atomic.AddInt64(&s.stats.queries, -1)
		}
	}
	if s.cmd == nil || s.n > 20000 {
		s.start()
	}
	s.n++
	t0 := time.Now()
	// sync assertion stack
	k := 0
	for k < len(pc) && k < len(s.stack) && pc[k] == s.stack[k] {
		k++
	}
	if d := len(s.stack) - k; d > 0 {
		s.send("(pop " + strconv.Itoa(d) + ")")
		s.stack = s.stack[:k]
	}
	for ; k < len(pc); k++ {
		s.define(pc[k])
		s.send("(push 1)")
		s.send(s.asrt(pc[k]))
		s.stack = append(s.stack, pc[k])
	}
	s.define(extra)
	s.send("(push 1)")
	s.send(s.asrt(extra))
	s.send("(check-sat)")
	if err := s.in.Flush(); err != nil {
		return s.fail(pc, "write", t0)
	}
	// z3 does not always keep to its own time limit
	killed := int32(0)
	proc := s.cmd.Process
	dog := time.AfterFunc(time.Duration(s.timeout)*time.Millisecond*3/2+time.Second, func() {
		atomic.StoreInt32(&killed, 1)
		proc.Kill()
	})
	line, err := s.readLine()
	dog.Stop()
	if err != nil {
		if atomic.LoadInt32(&killed) == 0 {
			return s.fail(pc, "read", t0)
		}
		s.reset()
		line = "timeout"
	}
	res := Unknown
	switch line {
	case "sat":
		res = Sat
	case "unsat":
		res = Unsat
	case "unknown", "timeout":
	default:
		atomic.AddInt64(&s.stats.errors, 1)
		fmt.Fprintln(os.Stderr, "solver:", line)
		return s.fail(pc, "answer "+line, t0)
	}
	var m *Model
	if res == Sat && wantModel {
		m, err = s.model(vars)
		if err != nil {
			return s.fail(pc, err.Error(), t0)
		}
	}
	if s.cmd != nil {
		s.send("(pop 1)")
	}
	atomic.AddInt64(&s.stats.nanos, int64(time.Since(t0)))
	if slowDir != "" && time.Since(t0) > slowMS {
		dumpQuery(pc, extra, res, time.Since(t0))
	}
	if res == Unknown && s.fallback != nil {
		return s.fallback.check(pc, extra, vars, wantModel)
	}
	atomic.AddInt64(&s.stats.queries, 1)
	switch res {
	case Sat:
		atomic.AddInt64(&s.stats.sat, 1)
	case Unsat:
		atomic.AddInt64(&s.stats.unsat, 1)
	default:
		atomic.AddInt64(&s.stats.unknown, 1)
	}
	return res, m
}

func (s *Solver) fail(pc []*Term, why string, t0 time.Time) (SatRes, *Model) {
	atomic.AddInt64(&s.stats.errors, 1)
	atomic.AddInt64(&s.stats.unknown, 1)
	atomic.AddInt64(&s.stats.nanos, int64(time.Since(t0)))
	fmt.Fprintln(os.Stderr, "solver failure:", why)
	s.reset()
	return Unknown, nil
}

// reset ends the solver process; the next query starts a new one.
func (s *Solver) reset() {
	if s.cmd != nil {
		s.inPipe.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

// readSexp reads one balanced s-expression.
func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	inBar := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		if depth == 0 && (c == ' ' || c == '\n' || c == '\r' || c == '\t') {
			if sb.Len() == 0 {
				continue
			}
			return sb.String(), nil
		}
		sb.WriteByte(c)
		if c == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if c == '(' {
			depth++
		} else if c == ')' {
			depth--
			if depth == 0 {
				return sb.String(), nil
			}
		}
	}
}

func (s *Solver) model(vars []*Term) (*Model, error) {
	m := newModel()
	var ask []*Term
	for _, v := range vars {
		if s.vars[v.id] {
			ask = append(ask, v)
		}
	}
	if len(ask) == 0 {
		return m, nil
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, v := range ask {
		sb.WriteString(v.ref())
		sb.WriteByte(' ')
	}
	sb.WriteString("))")
	s.send(sb.String())
	if err := s.in.Flush(); err != nil {
		return nil, err
	}
	out, err := s.readSexp()
	if err != nil {
		return nil, err
	}
	x, _ := parseSexp(out, 0)
	if len(x.l) != len(ask) {
		return nil, fmt.Errorf("model: %s", out)
	}
	for i, p := range x.l {
		if len(p.l) != 2 {
			return nil, fmt.Errorf("model: %s", out)
		}
		v := ask[i]
		val := p.l[1]
		switch v.w {
		case wBool:
			if val.a == "true" {
				m.bv[v] = 1
			} else {
				m.bv[v] = 0
			}
		case wReal:
			m.rat[v] = sexpRat(val)
		default:
			if s.intMode != nil {
				r := sexpRat(val)
				if r == nil || !r.IsInt() {
					return nil, fmt.Errorf("model value: %v", out)
				}
				if r.Num().IsInt64() {
					m.bv[v] = uint64(r.Num().Int64()) & mask(v.w)
				} else {
					m.bv[v] = r.Num().Uint64()
				}
				continue
			}
			if strings.HasPrefix(val.a, "#x") {
				u, _ := strconv.ParseUint(val.a[2:], 16, 64)
				m.bv[v] = u
			} else if strings.HasPrefix(val.a, "#b") {
				u, _ := strconv.ParseUint(val.a[2:], 2, 64)
				m.bv[v] = u
			} else if len(val.l) == 3 && strings.HasPrefix(val.l[1].a, "bv") {
				u, _ := strconv.ParseUint(val.l[1].a[2:], 10, 64)
				m.bv[v] = u
			} else {
				return nil, fmt.Errorf("model value: %v", out)
			}
		}
	}
	return m, nil
}

type sexp struct {
	a string
	l []sexp
}

func parseSexp(s string, i int) (sexp, int) {
	for i < len(s) && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r') {
		i++
	}
	if i >= len(s) {
		return sexp{}, i
	}
	if s[i] == '(' {
		i++
		var x sexp
		x.l = []sexp{}
		for {
			for i < len(s) && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r') {
				i++
			}
			if i >= len(s) {
				return x, i
			}
			if s[i] == ')' {
				return x, i + 1
			}
			var y sexp
			y, i = parseSexp(s, i)
			x.l = append(x.l, y)
		}
	}
	if s[i] == '|' {
		j := strings.IndexByte(s[i+1:], '|')
		return sexp{a: s[i : i+j+2]}, i + j + 2
	}
	j := i
	for j < len(s) && !strings.ContainsRune(" ()\n\t\r", rune(s[j])) {
		j++
	}
	return sexp{a: s[i:j]}, j
}

// sexpRat parses a rational; algebraic numbers give nil (undetermined).
func sexpRat(x sexp) *big.Rat {
	if x.l == nil {
		r, ok := new(big.Rat).SetString(x.a)
		if !ok {
			return nil
		}
		return r
	}
	if len(x.l) == 2 && x.l[0].a == "-" {
		r := sexpRat(x.l[1])
		if r == nil {
			return nil
		}
		return r.Neg(r)
	}
	if len(x.l) == 3 && x.l[0].a == "/" {
		a, b := sexpRat(x.l[1]), sexpRat(x.l[2])
		if a == nil || b == nil || b.Sign() == 0 {
			return nil
		}
		return new(big.Rat).Quo(a, b)
	}
	return nil
}

// GOSYM_SLOW=dir dumps slow queries as standalone scripts.
var slowDir = os.Getenv("GOSYM_SLOW")

const slowMS = time.Second

var slowN int64

func dumpQuery(pc []*Term, extra *Term, res SatRes, d time.Duration) {
	n := atomic.AddInt64(&slowN, 1)
	if n > 40 {
		return
	}
	var sb strings.Builder
	seen := map[int]bool{}
	var def func(t *Term)
	def = func(t *Term) {
		if t.op == OConst || seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == OVar {
			sb.WriteString("(declare-const " + t.ref() + " " + sortStr(t.w) + ")\n")
			return
		}
		for _, a := range t.args {
			def(a)
		}
		sb.WriteString("(define-fun " + t.ref() + " () " + sortStr(t.w) + " " + t.body() + ")\n")
	}
	for _, t := range append(append([]*Term{}, pc...), extra) {
		def(t)
		sb.WriteString("(assert " + t.ref() + ")\n")
	}
	sb.WriteString("(check-sat)\n")
	os.WriteFile(fmt.Sprintf("%s/q%d-%s-%d.smt2", slowDir, n, res, d.Milliseconds()), []byte(sb.String()), 0o644)
}
