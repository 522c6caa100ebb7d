package main

// Integer encoding: a query whose bit-vector terms provably stay inside their
// representable range (interval analysis over the ranges the inputs were
// declared with) means the same over mathematical integers, where linear
// arithmetic decides it much faster. 64-bit terms are read as signed, narrower
// ones as unsigned. Anything else stays with bit-vectors.

import (
	"fmt"
	"math"
	"math/bits"
	"strconv"
	"strings"
)

type ival struct{ lo, hi int64 }

type ienc struct {
	iv    map[int]ival
	st    map[int]int8 // 1 convertible, 2 not
	arith map[int]bool // contains 64-bit arithmetic
	small map[int][]*Term
	all   map[int][]*Term
}

func newIenc() *ienc {
	return &ienc{iv: map[int]ival{}, st: map[int]int8{}, arith: map[int]bool{}, small: map[int][]*Term{}, all: map[int][]*Term{}}
}

func addOv(a, b int64) (int64, bool) {
	c := a + b
	return c, (c > a) == (b > 0)
}

func mulOv(a, b int64) (int64, bool) {
	neg := (a < 0) != (b < 0)
	ua, ub := uint64(a), uint64(b)
	if a < 0 {
		ua = -ua
	}
	if b < 0 {
		ub = -ub
	}
	hi, lo := bits.Mul64(ua, ub)
	if hi != 0 || lo > math.MaxInt64 {
		return 0, false
	}
	if neg {
		return -int64(lo), true
	}
	return int64(lo), true
}

func fullRange(w int) ival {
	if w == 64 {
		return ival{math.MinInt64, math.MaxInt64}
	}
	return ival{0, int64(mask(w))}
}

func (e *ienc) ok(t *Term) bool {
	if s := e.st[t.id]; s != 0 {
		return s == 1
	}
	r := e.conv(t)
	s := int8(2)
	if r {
		s = 1
	}
	e.st[t.id] = s
	return r
}

func (e *ienc) conv(t *Term) bool {
	if t.w > 64 {
		return false
	}
	ar := false
	for _, a := range t.args {
		if !e.ok(a) {
			return false
		}
		ar = ar || e.arith[a.id]
	}
	set := func(lo, hi int64) bool {
		f := fullRange(t.w)
		if lo < f.lo || hi > f.hi || lo > hi {
			return false
		}
		e.iv[t.id] = ival{lo, hi}
		return true
	}
	iv := func(i int) ival { return e.iv[t.args[i].id] }
	if t.w == 64 && (t.op == OAdd || t.op == OSub || t.op == OMul || t.op == ONeg) || t.op == OToReal {
		ar = true
	}
	if ar {
		e.arith[t.id] = true
	}
	switch t.op {
	case OConst:
		if t.w > 0 {
			v := int64(t.c)
			if t.w < 64 {
				v = int64(t.c & mask(t.w))
			}
			return set(v, v)
		}
		return true
	case OVar:
		if t.w > 0 {
			if t.ranged {
				return set(t.lo, t.hi)
			}
			f := fullRange(t.w)
			return set(f.lo, f.hi)
		}
		return true
	case ONot, OAnd, OOr, ORAdd, ORSub, ORMul, ORDiv, ORLt, ORLe, OToReal, OEq:
		return true
	case OIte:
		if t.w > 0 {
			x, y := iv(1), iv(2)
			return set(min(x.lo, y.lo), max(x.hi, y.hi))
		}
		return true
	case OAdd:
		lo, ok1 := addOv(iv(0).lo, iv(1).lo)
		hi, ok2 := addOv(iv(0).hi, iv(1).hi)
		if t.w < 64 && t.args[1].op == OConst {
			// x + (2^w - k) is x - k when that stays non-negative
			k := int64(1)<<uint(t.w) - iv(1).lo
			if !(ok1 && ok2 && hi <= fullRange(t.w).hi) && iv(0).lo >= k {
				return false
			}
		}
		return ok1 && ok2 && set(lo, hi)
	case OSub:
		if iv(1).lo == math.MinInt64 || iv(1).hi == math.MinInt64 {
			return false
		}
		lo, ok1 := addOv(iv(0).lo, -iv(1).hi)
		hi, ok2 := addOv(iv(0).hi, -iv(1).lo)
		return ok1 && ok2 && set(lo, hi)
	case ONeg:
		if t.w < 64 || iv(0).lo == math.MinInt64 {
			return false
		}
		return set(-iv(0).hi, -iv(0).lo)
	case OMul:
		if t.args[1].op != OConst {
			return false
		}
		k := iv(1).lo
		a, ok1 := mulOv(iv(0).lo, k)
		b, ok2 := mulOv(iv(0).hi, k)
		return ok1 && ok2 && set(min(a, b), max(a, b))
	case OSDiv, OUDiv, OSRem, OURem:
		if t.args[1].op != OConst || iv(1).lo <= 0 || iv(0).lo < 0 {
			return false
		}
		k := iv(1).lo
		if t.op == OSDiv || t.op == OUDiv {
			return set(iv(0).lo/k, iv(0).hi/k)
		}
		return set(0, min(k-1, iv(0).hi))
	case OULt, OULe:
		if t.args[0].w == 64 && (iv(0).lo < 0 || iv(1).lo < 0) {
			return false
		}
		return true
	case OSLt, OSLe:
		if w := t.args[0].w; w < 64 {
			h := int64(mask(w) >> 1)
			return iv(0).hi <= h && iv(1).hi <= h
		}
		return true
	case OZExt:
		if t.args[0].w == 64 {
			return false
		}
		return set(iv(0).lo, iv(0).hi)
	case OSExt:
		if iv(0).hi > int64(mask(t.args[0].w)>>1) {
			return false
		}
		return set(iv(0).lo, iv(0).hi)
	case OExtract:
		if iv(0).lo < 0 || iv(0).hi > int64(mask(t.w)&math.MaxInt64) {
			return false
		}
		return set(iv(0).lo, iv(0).hi)
	}
	return false
}

func iref(t *Term) string {
	if t.op == OConst && t.w > 0 {
		v := int64(t.c)
		if t.w < 64 {
			v = int64(t.c & mask(t.w))
		}
		if v < 0 {
			return "(- " + strings.TrimPrefix(strconv.FormatInt(v, 10), "-") + ")"
		}
		return strconv.FormatInt(v, 10)
	}
	return t.ref()
}

func isort(w int) string {
	if w > 0 {
		return "Int"
	}
	return sortStr(w)
}

func ibody(t *Term) string {
	op := ""
	switch t.op {
	case OAdd:
		op = "+"
	case OSub:
		op = "-"
	case ONeg:
		op = "-"
	case OMul:
		op = "*"
	case OSDiv, OUDiv:
		op = "div"
	case OSRem, OURem:
		op = "mod"
	case OULt, OSLt:
		op = "<"
	case OULe, OSLe:
		op = "<="
	case OZExt, OSExt, OExtract:
		return iref(t.args[0])
	case OToReal:
		return "(to_real " + iref(t.args[0]) + ")"
	default:
		op = opNames[t.op]
	}
	var sb strings.Builder
	sb.WriteString("(" + op)
	for _, a := range t.args {
		sb.WriteString(" " + iref(a))
	}
	sb.WriteString(")")
	return sb.String()
}

// ranges are the constraints of the input variables below t.
func (e *ienc) vars(t *Term) []*Term {
	if v, ok := e.small[t.id]; ok {
		return v
	}
	var out []*Term
	if t.op == OVar {
		if t.w > 0 {
			out = []*Term{t}
		}
	} else {
		seen := map[int]bool{}
		for _, a := range t.args {
			for _, v := range e.vars(a) {
				if !seen[v.id] {
					seen[v.id] = true
					out = append(out, v)
				}
			}
		}
	}
	e.small[t.id] = out
	return out
}

// inputs are the variables below t.
func (e *ienc) inputs(t *Term) []*Term {
	if v, ok := e.all[t.id]; ok {
		return v
	}
	var out []*Term
	if t.op == OVar {
		out = []*Term{t}
	} else {
		seen := map[int]bool{}
		for _, a := range t.args {
			for _, v := range e.inputs(a) {
				if !seen[v.id] {
					seen[v.id] = true
					out = append(out, v)
				}
			}
		}
	}
	e.all[t.id] = out
	return out
}

func (e *ienc) assertion(t *Term) string {
	vs := e.vars(t)
	if len(vs) == 0 {
		return iref(t)
	}
	var sb strings.Builder
	sb.WriteString("(and " + iref(t))
	for _, v := range vs {
		r := e.iv[v.id]
		lo := strconv.FormatInt(r.lo, 10)
		if r.lo < 0 {
			lo = "(- " + lo[1:] + ")"
		}
		hi := strconv.FormatInt(r.hi, 10)
		if r.hi < 0 {
			hi = "(- " + hi[1:] + ")"
		}
		fmt.Fprintf(&sb, " (<= %s %s %s)", lo, v.ref(), hi)
	}
	sb.WriteString(")")
	return sb.String()
}
