package main

import "strconv"

// Decimal rendering of integers that may be symbolic: the path branches on the
// sign and the number of digits, each digit is a fresh variable and the number
// is their weighted sum.

func (p *Path) decimal(t *Term, signed bool) value {
	b := p.b
	if t.op == OConst {
		if signed {
			return strconv.FormatInt(sext(t.c, t.w), 10)
		}
		return strconv.FormatUint(t.c, 10)
	}
	if t.w < 64 {
		if signed {
			t = b.SExt(t, 64)
		} else {
			t = b.ZExt(t, 64)
		}
	}
	var out []value
	mag := t
	lt := OULt
	if signed {
		lt = OSLt
		if p.branch(b.Cmp(OSLt, t, b.BV(0, 64))) {
			out = append(out, int64('-'))
			if p.branch(b.Eq(t, b.BV(1<<63, 64))) {
				return strconv.FormatInt(-1<<63, 10)
			}
			mag = b.Neg(t)
		}
	}
	n := 1
	max := 20
	if signed {
		max = 19
	}
	lim := uint64(10)
	for n < max && !p.branch(b.Cmp(lt, mag, b.BV(lim, 64))) {
		n++
		lim *= 10
	}
	sum := b.BV(0, 64)
	w := uint64(1)
	ds := make([]*Term, n)
	for i := n - 1; i >= 0; i-- {
		lo := int64(0)
		if i == 0 && n > 1 {
			lo = 1
		}
		d := p.newRanged(64, lo, 9)
		p.assume(b.And(b.Cmp(OSLe, b.BV(uint64(lo), 64), d), b.Cmp(OSLe, d, b.BV(9, 64))))
		sum = b.Bin(OAdd, sum, b.Bin(OMul, d, b.BV(w, 64)))
		w *= 10
		ds[i] = d
	}
	p.assume(b.Eq(sum, mag))
	for _, d := range ds {
		out = append(out, b.Trunc(b.Bin(OAdd, d, b.BV('0', 64)), 8))
	}
	return mkStr(out)
}

func registerDecimal(I map[string]intrinsic) {
	I["strconv.Itoa"] = func(g *G, fr *frame, a []value) value {
		if t, ok := a[0].(*Term); ok {
			return g.p.decimal(t, true)
		}
		return strconv.FormatInt(a[0].(int64), 10)
	}
	base := func(signed bool) intrinsic {
		return func(g *G, fr *frame, a []value) value {
			bs, ok := a[1].(int64)
			if !ok {
				g.p.unsupported("symbolic base")
			}
			if t, ok := a[0].(*Term); ok {
				if bs != 10 {
					g.p.unsupported("symbolic number in base %d", bs)
				}
				return g.p.decimal(t, signed)
			}
			if signed {
				return strconv.FormatInt(a[0].(int64), int(bs))
			}
			return strconv.FormatUint(uint64(a[0].(int64)), int(bs))
		}
	}
	I["strconv.FormatInt"] = base(true)
	I["strconv.FormatUint"] = base(false)
}
