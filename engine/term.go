package main

// Hash-consed SMT terms with light simplification. One TermBank per worker.

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLShr
	OAShr
	OULt
	OULe
	OSLt
	OSLe
	OConcat
	OExtract // c = hi<<8|lo
	OZExt    // c = target width
	OSExt
	ORAdd
	ORSub
	ORMul
	ORDiv
	ORLt
	ORLe
	OToReal // signed BV -> Real
)

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot",
	ONeg: "bvneg", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OULt: "bvult", OULe: "bvule", OSLt: "bvslt", OSLe: "bvsle",
	OConcat: "concat", ORAdd: "+", ORSub: "-", ORMul: "*", ORDiv: "/", ORLt: "<", ORLe: "<="}

const (
	wBool = 0
	wReal = -1
)

// Term is an immutable, hash-consed term. w: 0 Bool, -1 Real, >0 bit-vector width.
type Term struct {
	op     Op
	w      int
	args   []*Term
	c      uint64   // constant bits / parameter
	r      *big.Rat // real constant
	name   string
	id     int
	exp    *Term // for Real vars standing for exp(y): the y
	real   bool  // mentions Real sort
	ranged bool  // input variable declared with a range
	lo, hi int64
}

type termKey struct {
	op         Op
	w          int
	c          uint64
	a0, a1, a2 int
	name       string
}

// TermBank interns terms.
type TermBank struct {
	m    map[termKey]*Term
	next int
	T, F *Term
}

func newBank() *TermBank {
	b := &TermBank{m: map[termKey]*Term{}}
	b.T = b.mk(OConst, wBool, 1, "", nil)
	b.F = b.mk(OConst, wBool, 0, "", nil)
	return b
}

func (b *TermBank) mk(op Op, w int, c uint64, name string, r *big.Rat, args ...*Term) *Term {
	k := termKey{op: op, w: w, c: c, a0: -1, a1: -1, a2: -1, name: name}
	if r != nil {
		k.name = r.RatString()
	}
	if len(args) > 0 {
		k.a0 = args[0].id
	}
	if len(args) > 1 {
		k.a1 = args[1].id
	}
	if len(args) > 2 {
		k.a2 = args[2].id
	}
	if t, ok := b.m[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, c: c, name: name, r: r, id: b.next, args: append([]*Term(nil), args...)}
	b.next++
	t.real = w == wReal
	for _, a := range args {
		if a.real {
			t.real = true
		}
	}
	b.m[k] = t
	return t
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func sext(c uint64, w int) int64 {
	if w >= 64 {
		return int64(c)
	}
	sh := uint(64 - w)
	return int64(c<<sh) >> sh
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.w == wBool && t.c == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.w == wBool && t.c == 0 }

func (b *TermBank) BV(c uint64, w int) *Term { return b.mk(OConst, w, c&mask(w), "", nil) }
func (b *TermBank) Bool(v bool) *Term {
	if v {
		return b.T
	}
	return b.F
}
func (b *TermBank) Rat(r *big.Rat) *Term { return b.mk(OConst, wReal, 0, "", r) }
func (b *TermBank) Var(name string, w int) *Term {
	return b.mk(OVar, w, 0, name, nil)
}

func (b *TermBank) Not(t *Term) *Term {
	if t.isConst() {
		return b.Bool(t.c == 0)
	}
	if t.op == ONot {
		return t.args[0]
	}
	return b.mk(ONot, wBool, 0, "", nil, t)
}

func (b *TermBank) And(x, y *Term) *Term {
	if x.isFalse() || y.isFalse() {
		return b.F
	}
	if x.isTrue() {
		return y
	}
	if y.isTrue() || x == y {
		return x
	}
	if (x.op == ONot && x.args[0] == y) || (y.op == ONot && y.args[0] == x) {
		return b.F
	}
	return b.mk(OAnd, wBool, 0, "", nil, x, y)
}

func (b *TermBank) Or(x, y *Term) *Term {
	if x.isTrue() || y.isTrue() {
		return b.T
	}
	if x.isFalse() {
		return y
	}
	if y.isFalse() || x == y {
		return x
	}
	if (x.op == ONot && x.args[0] == y) || (y.op == ONot && y.args[0] == x) {
		return b.T
	}
	return b.mk(OOr, wBool, 0, "", nil, x, y)
}

func (b *TermBank) Ite(c, x, y *Term) *Term {
	if c.isTrue() {
		return x
	}
	if c.isFalse() {
		return y
	}
	if x == y {
		return x
	}
	if x.w == wBool {
		if x.isTrue() {
			return b.Or(c, y)
		}
		if x.isFalse() {
			return b.And(b.Not(c), y)
		}
		if y.isTrue() {
			return b.Or(b.Not(c), x)
		}
		if y.isFalse() {
			return b.And(c, x)
		}
	}
	return b.mk(OIte, x.w, 0, "", nil, c, x, y)
}

func (b *TermBank) Eq(x, y *Term) *Term {
	if x == y {
		return b.T
	}
	if x.w != y.w {
		panic(fmt.Sprintf("Eq: sort mismatch %d %d", x.w, y.w))
	}
	if x.isConst() && y.isConst() {
		if x.w == wReal {
			return b.Bool(x.r.Cmp(y.r) == 0)
		}
		return b.Bool(x.c == y.c)
	}
	if x.w == wBool {
		if x.isTrue() {
			return y
		}
		if y.isTrue() {
			return x
		}
		if x.isFalse() {
			return b.Not(y)
		}
		if y.isFalse() {
			return b.Not(x)
		}
	}
	if x.isConst() || (!y.isConst() && x.id > y.id) {
		x, y = y, x
	}
	// zext(a)==const
	if y.isConst() && x.op == OZExt && x.w > 0 {
		a := x.args[0]
		if y.c&^mask(a.w) != 0 {
			return b.F
		}
		return b.Eq(a, b.BV(y.c, a.w))
	}
	if y.isConst() && x.op == OIte {
		if x.args[1].isConst() && x.args[2].isConst() {
			e1 := b.Eq(x.args[1], y)
			e2 := b.Eq(x.args[2], y)
			return b.Ite(x.args[0], e1, e2)
		}
	}
	return b.mk(OEq, wBool, 0, "", nil, x, y)
}

func (b *TermBank) bvConst(op Op, x, y uint64, w int) (uint64, bool) {
	m := mask(w)
	sx, sy := sext(x, w), sext(y, w)
	switch op {
	case OAdd:
		return (x + y) & m, true
	case OSub:
		return (x - y) & m, true
	case OMul:
		return (x * y) & m, true
	case OUDiv:
		if y == 0 {
			return m, true
		}
		return x / y, true
	case OURem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OSDiv:
		if y == 0 {
			if sx >= 0 {
				return m, true
			}
			return 1, true
		}
		if sy == -1 {
			return uint64(-sx) & m, true
		}
		return uint64(sx/sy) & m, true
	case OSRem:
		if y == 0 {
			return x, true
		}
		if sy == -1 {
			return 0, true
		}
		return uint64(sx%sy) & m, true
	case OBAnd:
		return x & y, true
	case OBOr:
		return x | y, true
	case OBXor:
		return x ^ y, true
	case OShl:
		if y >= uint64(w) {
			return 0, true
		}
		return (x << y) & m, true
	case OLShr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OAShr:
		if y >= uint64(w) {
			y = uint64(w - 1)
		}
		return uint64(sx>>y) & m, true
	}
	return 0, false
}

// Bin builds a bit-vector binary operation.
func (b *TermBank) Bin(op Op, x, y *Term) *Term {
	if x.w != y.w {
		panic(fmt.Sprintf("Bin %v: width mismatch %d %d", opNames[op], x.w, y.w))
	}
	if x.isConst() && y.isConst() {
		if c, ok := b.bvConst(op, x.c, y.c, x.w); ok {
			return b.BV(c, x.w)
		}
	}
	switch op {
	case OAdd:
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() && y.c == 0 {
			return x
		}
		if y.isConst() && x.op == OAdd && x.args[1].isConst() {
			return b.Bin(OAdd, x.args[0], b.BV(x.args[1].c+y.c, x.w))
		}
		if !y.isConst() && x.id > y.id {
			x, y = y, x
		}
	case OSub:
		if x == y {
			return b.BV(0, x.w)
		}
		if y.isConst() {
			return b.Bin(OAdd, x, b.BV(-y.c, x.w))
		}
	case OMul:
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() && y.c == 1 {
			return x
		}
		if y.isConst() && y.c == 0 {
			return y
		}
	case OBAnd:
		if x == y {
			return x
		}
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() && y.c == 0 {
			return y
		}
		if y.isConst() && y.c == mask(x.w) {
			return x
		}
	case OBOr:
		if x == y {
			return x
		}
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() && y.c == 0 {
			return x
		}
	case OBXor:
		if x == y {
			return b.BV(0, x.w)
		}
	case OShl, OLShr, OAShr:
		if y.isConst() && y.c == 0 {
			return x
		}
	}
	return b.mk(op, x.w, 0, "", nil, x, y)
}

// Cmp builds a bit-vector comparison.
func (b *TermBank) Cmp(op Op, x, y *Term) *Term {
	if x.w != y.w {
		panic("Cmp: width mismatch")
	}
	if x.isConst() && y.isConst() {
		switch op {
		case OULt:
			return b.Bool(x.c < y.c)
		case OULe:
			return b.Bool(x.c <= y.c)
		case OSLt:
			return b.Bool(sext(x.c, x.w) < sext(y.c, y.w))
		case OSLe:
			return b.Bool(sext(x.c, x.w) <= sext(y.c, y.w))
		}
	}
	if x == y {
		return b.Bool(op == OULe || op == OSLe)
	}
	// zext(a) vs const for unsigned
	if x.op == OZExt && y.isConst() {
		a := x.args[0]
		if sext(y.c, y.w) >= 0 || op == OULt || op == OULe {
			if y.c > mask(a.w) {
				return b.T
			}
			o := op
			if op == OSLt {
				o = OULt
			} else if op == OSLe {
				o = OULe
			}
			return b.Cmp(o, a, b.BV(y.c, a.w))
		}
		return b.F
	}
	if y.op == OZExt && x.isConst() {
		a := y.args[0]
		if sext(x.c, x.w) >= 0 || op == OULt || op == OULe {
			if x.c > mask(a.w) {
				return b.F
			}
			o := op
			if op == OSLt {
				o = OULt
			} else if op == OSLe {
				o = OULe
			}
			return b.Cmp(o, b.BV(x.c, a.w), a)
		}
		return b.T
	}
	return b.mk(op, wBool, 0, "", nil, x, y)
}

func (b *TermBank) Neg(x *Term) *Term { return b.Bin(OSub, b.BV(0, x.w), x) }
func (b *TermBank) BNot(x *Term) *Term {
	if x.isConst() {
		return b.BV(^x.c, x.w)
	}
	return b.mk(OBNot, x.w, 0, "", nil, x)
}

func (b *TermBank) ZExt(x *Term, w int) *Term {
	if x.w == w {
		return x
	}
	if x.w > w {
		return b.Trunc(x, w)
	}
	if x.isConst() {
		return b.BV(x.c, w)
	}
	if x.op == OZExt {
		return b.ZExt(x.args[0], w)
	}
	return b.mk(OZExt, w, uint64(w-x.w), "", nil, x)
}

func (b *TermBank) SExt(x *Term, w int) *Term {
	if x.w == w {
		return x
	}
	if x.w > w {
		return b.Trunc(x, w)
	}
	if x.isConst() {
		return b.BV(uint64(sext(x.c, x.w)), w)
	}
	if x.op == OZExt {
		return b.ZExt(x.args[0], w)
	}
	return b.mk(OSExt, w, uint64(w-x.w), "", nil, x)
}

func (b *TermBank) Trunc(x *Term, w int) *Term {
	if x.w == w {
		return x
	}
	if x.isConst() {
		return b.BV(x.c, w)
	}
	if x.op == OZExt || x.op == OSExt {
		a := x.args[0]
		if a.w == w {
			return a
		}
		if a.w > w {
			return b.Trunc(a, w)
		}
		if x.op == OZExt {
			return b.ZExt(a, w)
		}
		return b.SExt(a, w)
	}
	return b.mk(OExtract, w, uint64(w-1), "", nil, x)
}

// RBin builds a real arithmetic term.
func (b *TermBank) RBin(op Op, x, y *Term) *Term {
	if x.isConst() && y.isConst() {
		r := new(big.Rat)
		switch op {
		case ORAdd:
			return b.Rat(r.Add(x.r, y.r))
		case ORSub:
			return b.Rat(r.Sub(x.r, y.r))
		case ORMul:
			return b.Rat(r.Mul(x.r, y.r))
		case ORDiv:
			if y.r.Sign() != 0 {
				return b.Rat(r.Quo(x.r, y.r))
			}
		}
	}
	isz := func(t *Term) bool { return t.isConst() && t.r.Sign() == 0 }
	is1 := func(t *Term) bool { return t.isConst() && t.r.Cmp(big.NewRat(1, 1)) == 0 }
	switch op {
	case ORAdd:
		if isz(x) {
			return y
		}
		if isz(y) {
			return x
		}
		if x.id > y.id {
			x, y = y, x
		}
	case ORSub:
		if isz(y) {
			return x
		}
		if x == y {
			return b.Rat(new(big.Rat))
		}
	case ORMul:
		if isz(x) {
			return x
		}
		if isz(y) {
			return y
		}
		if is1(x) {
			return y
		}
		if is1(y) {
			return x
		}
		if x.id > y.id {
			x, y = y, x
		}
	case ORDiv:
		if is1(y) {
			return x
		}
		if y.isConst() && y.r.Sign() != 0 {
			return b.RBin(ORMul, b.Rat(new(big.Rat).Inv(y.r)), x)
		}
	}
	return b.mk(op, wReal, 0, "", nil, x, y)
}

func (b *TermBank) RCmp(op Op, x, y *Term) *Term {
	if x.isConst() && y.isConst() {
		c := x.r.Cmp(y.r)
		if op == ORLt {
			return b.Bool(c < 0)
		}
		return b.Bool(c <= 0)
	}
	if x == y {
		return b.Bool(op == ORLe)
	}
	return b.mk(op, wBool, 0, "", nil, x, y)
}

func (b *TermBank) ToReal(x *Term) *Term {
	if x.isConst() {
		return b.Rat(new(big.Rat).SetInt64(sext(x.c, x.w)))
	}
	return b.mk(OToReal, wReal, 0, "", nil, x)
}

func sortStr(w int) string {
	switch {
	case w == wBool:
		return "Bool"
	case w == wReal:
		return "Real"
	}
	return "(_ BitVec " + strconv.Itoa(w) + ")"
}

func ratStr(r *big.Rat) string {
	n := new(big.Int).Set(r.Num())
	neg := n.Sign() < 0
	n.Abs(n)
	s := n.String() + ".0"
	if !r.IsInt() {
		s = "(/ " + s + " " + r.Denom().String() + ".0)"
	}
	if neg {
		s = "(- " + s + ")"
	}
	return s
}

// ref is how a term is referred to inside other terms.
func (t *Term) ref() string {
	switch t.op {
	case OConst:
		switch {
		case t.w == wBool:
			if t.c == 1 {
				return "true"
			}
			return "false"
		case t.w == wReal:
			return ratStr(t.r)
		default:
			return "(_ bv" + strconv.FormatUint(t.c, 10) + " " + strconv.Itoa(t.w) + ")"
		}
	case OVar:
		return "|" + t.name + "|"
	}
	return "t" + strconv.Itoa(t.id)
}

// body is the defining expression of a non-leaf term.
func (t *Term) body() string {
	var sb strings.Builder
	sb.WriteByte('(')
	switch t.op {
	case OExtract:
		sb.WriteString("(_ extract " + strconv.FormatUint(t.c, 10) + " 0)")
	case OZExt:
		sb.WriteString("(_ zero_extend " + strconv.FormatUint(t.c, 10) + ")")
	case OSExt:
		sb.WriteString("(_ sign_extend " + strconv.FormatUint(t.c, 10) + ")")
	case OToReal:
		// signed value of the bit-vector
		a := t.args[0]
		r := a.ref()
		return fmt.Sprintf("(to_real (- (bv2nat %s) (ite (bvslt %s (_ bv0 %d)) %s 0)))", r, r, a.w, new(big.Int).Lsh(big.NewInt(1), uint(a.w)).String())
	default:
		sb.WriteString(opNames[t.op])
	}
	for _, a := range t.args {
		sb.WriteByte(' ')
		sb.WriteString(a.ref())
	}
	sb.WriteByte(')')
	return sb.String()
}

// Model maps variables to values.
type Model struct {
	bv   map[*Term]uint64
	rat  map[*Term]*big.Rat
	memo map[*Term]mval
}

type mval struct {
	c  uint64
	r  *big.Rat
	ok bool
}

func newModel() *Model {
	return &Model{bv: map[*Term]uint64{}, rat: map[*Term]*big.Rat{}, memo: map[*Term]mval{}}
}

// eval evaluates a term under the model; ok=false when it cannot decide.
// Variables the model does not mention have the value 0.
func (m *Model) eval(b *TermBank, t *Term) mval {
	if t.op == OConst {
		return mval{t.c, t.r, true}
	}
	if v, ok := m.memo[t]; ok {
		return v
	}
	v := m.eval1(b, t)
	m.memo[t] = v
	return v
}

func (m *Model) eval1(b *TermBank, t *Term) mval {
	if t.op == OVar {
		if t.w == wReal {
			r, ok := m.rat[t]
			if !ok {
				r = new(big.Rat)
			} else if r == nil {
				return mval{}
			}
			return mval{0, r, true}
		}
		return mval{m.bv[t], nil, true}
	}
	bl := func(v bool) mval {
		if v {
			return mval{1, nil, true}
		}
		return mval{0, nil, true}
	}
	var a [3]mval
	switch t.op {
	case OAnd, OOr:
		x := m.eval(b, t.args[0])
		want := uint64(0)
		if t.op == OOr {
			want = 1
		}
		if x.ok && x.c == want {
			return x
		}
		y := m.eval(b, t.args[1])
		if y.ok && y.c == want {
			return y
		}
		if !x.ok || !y.ok {
			return mval{}
		}
		return bl(want == 0)
	case OIte:
		c := m.eval(b, t.args[0])
		if !c.ok {
			return mval{}
		}
		if c.c == 1 {
			return m.eval(b, t.args[1])
		}
		return m.eval(b, t.args[2])
	}
	for i, x := range t.args {
		a[i] = m.eval(b, x)
		if !a[i].ok {
			return mval{}
		}
	}
	w0 := t.args[0].w
	switch t.op {
	case ONot:
		return bl(a[0].c == 0)
	case OEq:
		if w0 == wReal {
			return bl(a[0].r.Cmp(a[1].r) == 0)
		}
		return bl(a[0].c == a[1].c)
	case OULt:
		return bl(a[0].c < a[1].c)
	case OULe:
		return bl(a[0].c <= a[1].c)
	case OSLt:
		return bl(sext(a[0].c, w0) < sext(a[1].c, w0))
	case OSLe:
		return bl(sext(a[0].c, w0) <= sext(a[1].c, w0))
	case OBNot:
		return mval{^a[0].c & mask(w0), nil, true}
	case OExtract:
		return mval{a[0].c & mask(t.w), nil, true}
	case OZExt:
		return mval{a[0].c, nil, true}
	case OSExt:
		return mval{uint64(sext(a[0].c, w0)) & mask(t.w), nil, true}
	case ORLt:
		return bl(a[0].r.Cmp(a[1].r) < 0)
	case ORLe:
		return bl(a[0].r.Cmp(a[1].r) <= 0)
	case ORAdd:
		return mval{0, new(big.Rat).Add(a[0].r, a[1].r), true}
	case ORSub:
		return mval{0, new(big.Rat).Sub(a[0].r, a[1].r), true}
	case ORMul:
		return mval{0, new(big.Rat).Mul(a[0].r, a[1].r), true}
	case ORDiv:
		if a[1].r.Sign() == 0 {
			return mval{}
		}
		return mval{0, new(big.Rat).Quo(a[0].r, a[1].r), true}
	case OToReal:
		return mval{0, new(big.Rat).SetInt64(sext(a[0].c, w0)), true}
	}
	if c, ok := b.bvConst(t.op, a[0].c, a[1].c, t.w); ok {
		return mval{c, nil, true}
	}
	return mval{}
}
