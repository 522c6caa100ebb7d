package main

import (
	"fmt"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

const sendDir = types.SendOnly

func chanElem(t types.Type) types.Type { return t.Underlying().(*types.Chan).Elem() }

// size classes of the Go runtime (internal/runtime/gc.SizeClassToSize)
var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(n int) int {
	if n <= 32768 {
		for _, c := range sizeClasses {
			if c >= n {
				return c
			}
		}
	}
	return (n + 8191) / 8192 * 8192
}

// growCap mirrors runtime.growslice so that aliasing behaves as in real runs.
func growCap(oldCap, newLen, elem int) int {
	newcap := oldCap
	double := newcap + newcap
	if newLen > double {
		newcap = newLen
	} else if oldCap < 256 {
		newcap = double
	} else {
		for newcap < newLen {
			newcap += (newcap + 3*256) >> 2
		}
	}
	if elem == 0 {
		return newLen
	}
	return roundupsize(newcap*elem) / elem
}

func (p *Path) appendVals(fr *frame, s []value, add []value, et types.Type) []value {
	n := len(s) + len(add)
	race := p.sched.multi && p.opts.race && fr != nil
	if n <= cap(s) {
		if len(add) == 0 {
			return s
		}
		r := s[:n]
		for i, v := range add {
			if race {
				p.raceWriteAll(fr, &r[len(s)+i])
			}
			// keep nested storage private to the cell
			switch v.(type) {
			case structure, array:
				storeInto(&r[len(s)+i], v)
			default:
				r[len(s)+i] = v
			}
		}
		return r
	}
	if len(add) == 0 {
		return s
	}
	if race {
		for i := range s {
			p.raceReadAll(fr, &s[i])
		}
	}
	es := 8
	if et != nil {
		es = int(p.prog.sizes.Sizeof(et))
	}
	c := growCap(cap(s), n, es)
	if c < n {
		c = n
	}
	r := make([]value, c)
	for i, v := range s {
		r[i] = copyVal(v)
	}
	for i, v := range add {
		r[len(s)+i] = copyVal(v)
	}
	if et != nil {
		fillZero(r[n:c:c], et)
	}
	return r[:n]
}

func (p *Path) builtin(g *G, fr *frame, fn *ssa.Builtin, args []value, in ssa.Instruction) value {
	switch fn.Name() {
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		var add []value
		switch a := args[1].(type) {
		case []value:
			add = a
			if p.sched.multi && p.opts.race {
				for i := range add {
					p.raceReadAll(fr, &add[i])
				}
			}
		default:
			add = strBytes(p, a)
		}
		var et types.Type
		if st, ok := fn.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice); ok {
			et = st.Elem()
		}
		s, _ := args[0].([]value)
		return p.appendVals(fr, s, add, et)
	case "copy":
		dst := args[0].([]value)
		var src []value
		switch a := args[1].(type) {
		case []value:
			src = a
		default:
			src = strBytes(p, a)
		}
		n := len(src)
		if len(dst) < n {
			n = len(dst)
		}
		tmp := make([]value, n)
		for i := 0; i < n; i++ {
			if p.sched.multi && p.opts.race {
				p.raceReadAll(fr, &src[i])
			}
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			if p.sched.multi && p.opts.race {
				p.raceWriteAll(fr, &dst[i])
			}
			storeInto(&dst[i], tmp[i])
		}
		return int64(n)
	case "close":
		p.chanClose(g, args[0].(*Chan))
		return nil
	case "delete":
		m := args[0].(*Map)
		if m != nil {
			p.raceWrite(fr, &m.cell)
			p.mapDelete(m, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				p.raceWrite(fr, &x.cell)
				for _, e := range x.ents {
					e.deleted = true
				}
				x.ents = nil
				x.index = map[string]*mapEntry{}
				x.nsym, x.live = 0, 0
			}
		case []value:
			et := fn.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem()
			for i := range x {
				storeInto(&x[i], zero(et))
			}
		}
		return nil
	case "len":
		switch x := args[0].(type) {
		case string, *SStr, *Opaque:
			return int64(strLen(p, x))
		case []value:
			return int64(len(x))
		case array:
			return int64(len(x))
		case *value:
			return int64(len((*x).(array)))
		case *Map:
			if x == nil {
				return int64(0)
			}
			p.raceRead(fr, &x.cell)
			return int64(x.live)
		case *Chan:
			if x == nil {
				return int64(0)
			}
			n := 0
			p.sched.visible(g, p.simpleOp("chanlen", []acc{{o: x.obj, mode: accRead}}, func() { n = len(x.buf) }))
			return int64(n)
		}
	case "cap":
		switch x := args[0].(type) {
		case []value:
			return int64(cap(x))
		case array:
			return int64(len(x))
		case *value:
			return int64(len((*x).(array)))
		case *Chan:
			if x == nil {
				return int64(0)
			}
			return int64(x.cap)
		}
	case "print", "println":
		return nil
	case "panic":
		panic(targetPanic{args[0]})
	case "recover":
		if fr.caller != nil && fr.caller.panicking && fr.caller.block != nil {
			if tp, ok := fr.caller.panicv.(targetPanic); ok {
				fr.caller.panicking = false
				return tp.v
			}
		}
		return iface{}
	case "min", "max":
		t := fn.Type().(*types.Signature).Params().At(0).Type()
		r := args[0]
		for _, y := range args[1:] {
			r = p.minmax(fn.Name() == "min", t, r, y)
		}
		return r
	case "real":
		return real(args[0].(complex128))
	case "imag":
		return imag(args[0].(complex128))
	case "complex":
		return complex(args[0].(float64), args[1].(float64))
	case "ssa:wrapnilchk":
		if ptr, ok := args[0].(*value); ok && ptr == nil {
			p.goPanic(fmt.Sprintf("value method %s.%s called using nil pointer", describe(args[1]), describe(args[2])))
		}
		return args[0]
	case "ssa:deferstack":
		return fr
	case "String": // unsafe.String
		n := int(p.concInt(args[1], ikind{64, true}))
		if n == 0 {
			return ""
		}
		switch a := args[0].(type) {
		case unsafePtr:
			return mkStr(a.s[:n])
		case *value:
			if n == 1 {
				return mkStr([]value{*a})
			}
		}
	case "StringData":
		return unsafePtr{append([]value(nil), strBytes(p, args[0])...)}
	case "SliceData":
		s := args[0].([]value)
		if s == nil {
			return (*value)(nil)
		}
		return unsafePtr{s[:cap(s)]}
	case "Slice":
		n := int(p.concInt(args[1], ikind{64, true}))
		if a, ok := args[0].(unsafePtr); ok {
			return a.s[:n:n]
		}
	case "Add":
	}
	p.unsupported("builtin %s on %T", fn.Name(), args[0])
	return nil
}

func (p *Path) minmax(min bool, t types.Type, x, y value) value {
	b := t.Underlying().(*types.Basic)
	switch {
	case b.Info()&types.IsString != 0:
		lt := p.branch(p.strLess(x, y, false))
		if lt == min {
			return x
		}
		return y
	case b.Info()&types.IsFloat != 0:
		return p.fminmax(min, x, y)
	}
	k, _ := intKind(t)
	if a, ok := x.(int64); ok {
		if c, ok := y.(int64); ok {
			lt := a < c
			if !k.signed {
				lt = uint64(a) < uint64(c)
			}
			if lt == min {
				return x
			}
			return y
		}
	}
	tx, ty := p.toTerm(x, k.w), p.toTerm(y, k.w)
	o := OULt
	if k.signed {
		o = OSLt
	}
	c := p.b.Cmp(o, tx, ty)
	if !min {
		c = p.b.Cmp(o, ty, tx)
	}
	return p.fromTerm(p.b.Ite(c, tx, ty), k)
}

func (p *Path) fminmax(min bool, x, y value) value {
	fx, ok1 := x.(float64)
	fy, ok2 := y.(float64)
	if ok1 && ok2 {
		if min {
			return math.Min(fx, fy)
		}
		return math.Max(fx, fy)
	}
	if nf, ok := nonFinite(x); ok {
		return fmm(min, nf, y)
	}
	if nf, ok := nonFinite(y); ok {
		return fmm(min, nf, x)
	}
	tx, ty := p.toTerm(x, wReal), p.toTerm(y, wReal)
	c := p.b.RCmp(ORLt, tx, ty)
	if !min {
		c = p.b.RCmp(ORLt, ty, tx)
	}
	return p.fromReal(p.b.Ite(c, tx, ty))
}

func fmm(min bool, nf float64, other value) value {
	if math.IsNaN(nf) {
		return nf
	}
	if math.IsInf(nf, -1) == min {
		return nf
	}
	return other
}

// ---- data race detection (happens-before) ----

type cellInfo struct {
	wg    int
	wc    int32
	wpos  string
	reads vclock
	rpos  map[int]string
}

func (p *Path) cell(a *value) *cellInfo {
	s := p.sched
	c := s.cells[a]
	if c == nil {
		c = &cellInfo{wg: -1}
		s.cells[a] = c
	}
	return c
}

func (p *Path) raceRead(fr *frame, a *value) {
	if !p.sched.multi || !p.opts.race || p.initing > 0 || fr == nil {
		return
	}
	if p.raceExempt(fr) {
		return
	}
	g := fr.g
	c := p.cell(a)
	if c.wg >= 0 && c.wg != g.idx && c.wc > g.vc.get(c.wg) {
		p.violation("race", fmt.Sprintf("data race: read at %s, concurrent write at %s", g.where(4), c.wpos))
	}
	if c.reads.get(g.idx) != g.vc.get(g.idx) {
		c.reads.set(g.idx, g.vc.get(g.idx))
		if c.rpos == nil {
			c.rpos = map[int]string{}
		}
		c.rpos[g.idx] = g.where(3)
	}
}

func (p *Path) raceWrite(fr *frame, a *value) {
	if !p.sched.multi || !p.opts.race || p.initing > 0 || fr == nil {
		return
	}
	if p.raceExempt(fr) {
		return
	}
	g := fr.g
	c := p.cell(a)
	if c.wg >= 0 && c.wg != g.idx && c.wc > g.vc.get(c.wg) {
		p.violation("race", fmt.Sprintf("data race: write at %s, concurrent write at %s", g.where(4), c.wpos))
	}
	for i, x := range c.reads {
		if i != g.idx && x > g.vc.get(i) {
			p.violation("race", fmt.Sprintf("data race: write at %s, concurrent read at %s", g.where(4), c.rpos[i]))
		}
	}
	if c.wg != g.idx || c.wc != g.vc.get(g.idx) {
		c.wg = g.idx
		c.wc = g.vc.get(g.idx)
		c.wpos = g.where(3)
	}
}

// raceExempt: model packages implement synchronisation internals.
func (p *Path) raceExempt(fr *frame) bool {
	return p.prog.modelPkgs[fr.fi.pkg]
}

func (p *Path) raceReadAll(fr *frame, a *value) {
	switch v := (*a).(type) {
	case structure:
		for i := range v {
			p.raceReadAll(fr, &v[i])
		}
	case array:
		if len(v) > 256 {
			p.raceRead(fr, a)
			return
		}
		for i := range v {
			p.raceReadAll(fr, &v[i])
		}
	default:
		p.raceRead(fr, a)
	}
}

func (p *Path) raceWriteAll(fr *frame, a *value) {
	switch v := (*a).(type) {
	case structure:
		for i := range v {
			p.raceWriteAll(fr, &v[i])
		}
	case array:
		if len(v) > 256 {
			p.raceWrite(fr, a)
			return
		}
		for i := range v {
			p.raceWriteAll(fr, &v[i])
		}
	default:
		p.raceWrite(fr, a)
	}
}
