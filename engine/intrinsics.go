package main

// Intrinsics: the environment of the code under check (synchronisation,
// clock, runtime, formatting, assembly-backed leaf functions) and the
// harness vocabulary (package sym).

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic = func(g *G, fr *frame, args []value) value

var intrinsics map[string]intrinsic

const symPkg = repoModule + "/zzverif/sym"

// packages whose initialisers are not run
var skipInit = map[string]bool{
	"runtime": true, "internal/cpu": true, "os/signal": true, "net": true, "crypto/tls": true, "crypto/x509": true,
	"internal/godebug": true, "syscall": false, "internal/poll": false, "math/rand": true, "internal/runtime/sys": true,
	"crypto/internal/fips140": true, "crypto/rand": true, "encoding/gob": true,
}

// third-party packages that are only modelled
func skipInitOf(path string) bool {
	if skipInit[path] {
		return true
	}
	for _, pre := range []string{"github.com/golang/protobuf", "google.golang.org/", "golang.org/x/", "github.com/stvp/rollbar", "github.com/go-yaml/yaml", "net/http"} {
		if strings.HasPrefix(path, pre) {
			return true
		}
	}
	return false
}

func repoLike(path string) bool {
	return strings.Contains(strings.SplitN(path, "/", 2)[0], ".")
}
func repoOnly(path string) bool { return strings.HasPrefix(path, repoModule) }

var k64 = ikind{64, true}

func str(p *Path, v value) string {
	s, ok := v.(string)
	if !ok {
		p.unsupported("need a concrete string, have %s", describe(v))
	}
	return s
}

func (p *Path) input(kind, label string, t *Term) {
	p.inputs = append(p.inputs, Input{Kind: kind, Label: label, t: t})
}

func (p *Path) symInt(label string, w int, kind string) *Term {
	t := p.newVar(label, w)
	p.input(kind, label, t)
	return t
}

func (p *Path) assume(c *Term) {
	if c.isTrue() {
		return
	}
	if c.isFalse() {
		p.abort(stInfeasible, "assumption false")
	}
	if p.model != nil {
		if v := p.model.eval(p.b, c); v.ok && v.c == 1 {
			p.pc = append(p.pc, c)
			return
		}
	}
	p.pc = append(p.pc, c)
	base := p.model
	p.model = nil
	if p.replaying() {
		return // known feasible
	}
	r, m := p.w.solver(p).checkFor(p.pc[:len(p.pc)-1], c, p.vars, base)
	switch r {
	case Unsat:
		p.abort(stInfeasible, "assumption unsatisfiable")
	case Unknown:
		p.note("solver-unknown")
	}
	p.model = m
}

// assert checks that c holds on this path for every value of the inputs.
func (p *Path) assert(c *Term, label string) {
	p.asserted[label]++
	if p.replaying() {
		// decided on the path that recorded this prefix; only the
		// assumption that it holds has to be reconstructed
		return
	}
	p.asserts++
	if c.isTrue() {
		return
	}
	if c.isFalse() {
		p.violation(label, "assertion fails")
		return
	}
	if m := p.model; m != nil {
		if v := m.eval(p.b, c); v.ok && v.c == 0 {
			p.violation(label, "assertion fails")
			return
		}
	}
	r, m := p.feasible(p.b.Not(c))
	switch r {
	case Unsat:
	case Sat:
		p.model = m
		p.violation(label, "assertion fails")
	default:
		p.note("undecided assertion " + label)
	}
}

func (p *Path) slicesOf(v value) []value { return v.([]value) }

func init() {
	I := map[string]intrinsic{}
	intrinsics = I
	sy := func(n string, f intrinsic) { I[symPkg+"."+n] = f }

	// ---- harness vocabulary ----
	rng := func(kind string, w int, signed bool) intrinsic {
		return func(g *G, fr *frame, a []value) value {
			p := g.p
			lo, hi := a[1].(int64), a[2].(int64)
			if lo == hi {
				return lo
			}
			t := p.newRanged(w, lo, hi)
			p.input(kind, str(p, a[0]), t)
			le := OSLe
			if !signed {
				le = OULe
			}
			p.assume(p.b.And(p.b.Cmp(le, p.b.BV(uint64(lo), w), t), p.b.Cmp(le, t, p.b.BV(uint64(hi), w))))
			return t
		}
	}
	sy("IntIn", rng("int", 64, true))
	sy("Int64In", rng("int", 64, true))
	sy("Int", func(g *G, fr *frame, a []value) value { return g.p.symInt(str(g.p, a[0]), 64, "int") })
	sy("Uint64", func(g *G, fr *frame, a []value) value { return g.p.symInt(str(g.p, a[0]), 64, "int") })
	sy("Byte", func(g *G, fr *frame, a []value) value { return g.p.symInt(str(g.p, a[0]), 8, "byte") })
	sy("Bool", func(g *G, fr *frame, a []value) value {
		t := g.p.newVar(str(g.p, a[0]), wBool)
		g.p.input("bool", str(g.p, a[0]), t)
		return t
	})
	sy("Real", func(g *G, fr *frame, a []value) value {
		t := g.p.newVar(str(g.p, a[0]), wReal)
		g.p.input("real", str(g.p, a[0]), t)
		return t
	})
	// Float is any float64 class: finite (a real), NaN, +Inf, -Inf.
	sy("Float", func(g *G, fr *frame, a []value) value {
		p := g.p
		c := p.choose(4)
		p.inputs = append(p.inputs, Input{Kind: "choose", Label: str(p, a[0]) + ".class", conc: c})
		switch c {
		case 1:
			return math.NaN()
		case 2:
			return math.Inf(1)
		case 3:
			return math.Inf(-1)
		}
		t := p.newVar(str(p, a[0]), wReal)
		p.input("real", str(p, a[0]), t)
		return t
	})
	// ExpReal is a positive finite float given by its logarithm.
	sy("LogOf", func(g *G, fr *frame, a []value) value { return g.p.log(a[0]) })
	sy("ExpOf", func(g *G, fr *frame, a []value) value { return g.p.exp(a[0]) })
	sy("Choose", func(g *G, fr *frame, a []value) value {
		p := g.p
		c := p.choose(int(a[1].(int64)))
		p.inputs = append(p.inputs, Input{Kind: "choose", Label: str(p, a[0]), conc: c})
		return int64(c)
	})
	sy("Bytes", func(g *G, fr *frame, a []value) value {
		p := g.p
		n := int(a[1].(int64))
		bs := make([]value, n)
		for i := range bs {
			bs[i] = p.newVar(fmt.Sprintf("%s[%d]", str(p, a[0]), i), 8)
		}
		p.inputs = append(p.inputs, Input{Kind: "bytes", Label: str(p, a[0]), bytes: append([]value(nil), bs...)})
		return bs
	})
	sy("String", func(g *G, fr *frame, a []value) value {
		p := g.p
		n := int(a[1].(int64))
		bs := make([]value, n)
		for i := range bs {
			bs[i] = p.newVar(fmt.Sprintf("%s[%d]", str(p, a[0]), i), 8)
		}
		p.inputs = append(p.inputs, Input{Kind: "bytes", Label: str(p, a[0]), bytes: append([]value(nil), bs...)})
		return mkStr(bs)
	})
	sy("Assume", func(g *G, fr *frame, a []value) value { g.p.assume(g.p.boolTerm(a[0])); return nil })
	sy("Assert", func(g *G, fr *frame, a []value) value {
		g.p.assert(g.p.boolTerm(a[0]), str(g.p, a[1]))
		return nil
	})
	sy("Cover", func(g *G, fr *frame, a []value) value { g.p.covers[str(g.p, a[0])] = true; return nil })
	sy("Symbolic", func(g *G, fr *frame, a []value) value { return true })
	sy("Horizon", func(g *G, fr *frame, a []value) value { g.p.opts.horizon = a[0].(int64); return nil })
	sy("Race", func(g *G, fr *frame, a []value) value { g.p.opts.race = a[0].(bool); return nil })
	sy("MapOrder", func(g *G, fr *frame, a []value) value { g.p.opts.mapOrder = a[0].(bool); return nil })
	sy("Ticks", func(g *G, fr *frame, a []value) value { g.p.opts.ticks = int(a[0].(int64)); return nil })
	sy("Quiesce", func(g *G, fr *frame, a []value) value {
		g.p.sched.quiet = 0
		op := g.p.simpleOp("quiesce", nil, func() {})
		op.low = true
		g.p.sched.visible(g, op)
		return nil
	})
	sy("Settle", func(g *G, fr *frame, a []value) value {
		g.p.sched.quiet = 0
		op := g.p.simpleOp("settle", nil, func() {})
		op.low, op.settle = true, true
		g.p.sched.visible(g, op)
		return nil
	})
	sy("Linger", func(g *G, fr *frame, a []value) value {
		g.p.sched.quiet = 0
		op := g.p.simpleOp("linger", nil, func() {})
		op.low, op.settle, op.apart = true, true, true
		g.p.sched.visible(g, op)
		return nil
	})
	sy("Goroutines", func(g *G, fr *frame, a []value) value {
		n := 0
		for _, x := range g.p.sched.gs {
			if !x.done && !x.env && x != g {
				n++
			}
		}
		return int64(n)
	})
	sy("ActiveTimers", func(g *G, fr *frame, a []value) value {
		n := 0
		for _, x := range g.p.sched.gs {
			if x.env && x.timer != nil && x.timer.active {
				n++
			}
		}
		return int64(n)
	})
	sy("And", func(g *G, fr *frame, a []value) value {
		return fromBool(g.p.b.And(g.p.boolTerm(a[0]), g.p.boolTerm(a[1])))
	})
	sy("Or", func(g *G, fr *frame, a []value) value {
		return fromBool(g.p.b.Or(g.p.boolTerm(a[0]), g.p.boolTerm(a[1])))
	})
	sy("Not", func(g *G, fr *frame, a []value) value { return fromBool(g.p.b.Not(g.p.boolTerm(a[0]))) })
	sy("Implies", func(g *G, fr *frame, a []value) value {
		return fromBool(g.p.b.Or(g.p.b.Not(g.p.boolTerm(a[0])), g.p.boolTerm(a[1])))
	})
	sy("EqString", func(g *G, fr *frame, a []value) value { return fromBool(g.p.strEq(a[0], a[1])) })
	sy("IteInt", func(g *G, fr *frame, a []value) value {
		p := g.p
		return p.fromTerm(p.b.Ite(p.boolTerm(a[0]), p.toTerm(a[1], 64), p.toTerm(a[2], 64)), k64)
	})
	sy("IteFloat", func(g *G, fr *frame, a []value) value {
		p := g.p
		if c, ok := a[0].(bool); ok {
			if c {
				return a[1]
			}
			return a[2]
		}
		if _, nf := nonFinite(a[1]); nf {
			p.unsupported("IteFloat of non-finite")
		}
		if _, nf := nonFinite(a[2]); nf {
			p.unsupported("IteFloat of non-finite")
		}
		return p.fromReal(p.b.Ite(p.boolTerm(a[0]), p.toTerm(a[1], wReal), p.toTerm(a[2], wReal)))
	})
	// Conc makes an integer concrete by case split.
	sy("Conc", func(g *G, fr *frame, a []value) value { return g.p.concInt(a[0], k64) })
	sy("IsSym", func(g *G, fr *frame, a []value) value {
		v := a[0]
		if i, ok := v.(iface); ok {
			v = i.v
		}
		switch v.(type) {
		case *Term, *SStr, *Opaque:
			return true
		}
		return false
	})
	sy("Opaque", func(g *G, fr *frame, a []value) value { _, ok := a[0].(*Opaque); return ok })
	// Mentions: the part of an opaque text that is known has sub in it.
	sy("Mentions", func(g *G, fr *frame, a []value) value {
		o, ok := a[0].(*Opaque)
		return ok && strings.Contains(o.desc, str(g.p, a[1]))
	})
	sy("Log", func(g *G, fr *frame, a []value) value {
		if g.p.e.cfg.Debug {
			fmt.Println("LOG", describe(a[0]), describe(a[1]))
		}
		if g.p.e.maxRec > 0 {
			g.p.logs = append(g.p.logs, logEnt{str(g.p, a[0]), a[1]})
		}
		return nil
	})
	sy("Stop", func(g *G, fr *frame, a []value) value { g.p.sched.endRaces(); g.p.abort(stDone, "stop"); return nil })
	sy("Cut", func(g *G, fr *frame, a []value) value { g.p.abort(stBound, "%s", str(g.p, a[0])); return nil })
	sy("Swap", func(g *G, fr *frame, a []value) value {
		s := a[0].(iface).v.([]value)
		i, j := a[1].(int64), a[2].(int64)
		x, y := copyVal(s[i]), copyVal(s[j])
		storeInto(&s[i], y)
		storeInto(&s[j], x)
		return nil
	})
	sy("TypeName", func(g *G, fr *frame, a []value) value {
		i := a[0].(iface)
		if i.t == nil {
			return "<nil>"
		}
		return types.TypeString(i.t, nil)
	})
	// PtrElem loads through a pointer held in an interface; SetElem stores.
	sy("PtrElem", func(g *G, fr *frame, a []value) value {
		i := a[0].(iface)
		pt, ok := i.t.Underlying().(*types.Pointer)
		if !ok {
			return iface{}
		}
		ptr := i.v.(*value)
		if ptr == nil {
			return iface{}
		}
		return iface{pt.Elem(), copyVal(*ptr)}
	})
	sy("SetElem", func(g *G, fr *frame, a []value) value {
		i := a[0].(iface)
		x := a[1].(iface)
		if i.t == nil || x.t == nil {
			return false
		}
		pt, ok := i.t.Underlying().(*types.Pointer)
		if !ok || !types.Identical(pt.Elem(), x.t) {
			return false
		}
		ptr := i.v.(*value)
		if ptr == nil {
			return false
		}
		g.p.store(ptr, x.v)
		return true
	})
	// GobSet stores a decoded value the way encoding/gob does: what is zero in
	// a struct is not sent and stays as it was in the receiver.
	sy("GobSet", func(g *G, fr *frame, a []value) value {
		i := a[0].(iface)
		x := a[1].(iface)
		if i.t == nil || x.t == nil {
			return false
		}
		pt, ok := i.t.Underlying().(*types.Pointer)
		if !ok || !types.Identical(pt.Elem(), x.t) {
			return false
		}
		ptr := i.v.(*value)
		if ptr == nil {
			return false
		}
		if g.p.sched.multi && g.p.opts.race {
			g.p.raceWriteAll(fr, ptr)
		}
		g.p.gobSet(x.t, ptr, x.v, true)
		return true
	})
	// Deref follows pointers held in an interface; nil when one of them is.
	sy("Deref", func(g *G, fr *frame, a []value) value {
		i := a[0].(iface)
		for i.t != nil {
			pt, ok := i.t.Underlying().(*types.Pointer)
			if !ok {
				break
			}
			ptr := i.v.(*value)
			if ptr == nil {
				return iface{}
			}
			i = iface{pt.Elem(), copyVal(*ptr)}
		}
		return i
	})
	// TypeClass tells what gob makes of a type.
	sy("TypeClass", func(g *G, fr *frame, a []value) value {
		i := a[0].(iface)
		if i.t == nil {
			return "nil"
		}
		switch u := i.t.Underlying().(type) {
		case *types.Signature, *types.Chan:
			return "unsupported"
		case *types.Struct:
			if g.p.e.prog.ssa.MethodSets.MethodSet(i.t).Lookup(nil, "GobEncode") != nil || g.p.e.prog.ssa.MethodSets.MethodSet(i.t).Lookup(nil, "MarshalBinary") != nil {
				return "ok"
			}
			for k := 0; k < u.NumFields(); k++ {
				if u.Field(k).Exported() {
					return "ok"
				}
			}
			if u.NumFields() > 0 {
				return "unexported"
			}
		}
		return "ok"
	})
	sy("DeepCopy", func(g *G, fr *frame, a []value) value {
		i := a[0].(iface)
		if i.t == nil {
			return i
		}
		return iface{i.t, g.p.deepCopy(fr, i.t, i.v, map[*value]*value{})}
	})
	sy("SetGlobalHook", func(g *G, fr *frame, a []value) value { g.p.side[str(g.p, a[0])] = a[1]; return nil })

	// ---- sync ----
	registerSync(I)
	registerTime(I)
	registerFmt(I)
	registerDecimal(I)
	registerMath(I)
	registerBytes(I)
	registerMisc(I)
}

// deepCopy copies what an encoder would read: unexported fields and the
// insides of library types are shared. The reads count for race detection.
func (p *Path) gobSet(t types.Type, dst *value, src value, top bool) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && !repoLike(n.Obj().Pkg().Path()) {
			break
		}
		d, ok := (*dst).(structure)
		s, ok2 := src.(structure)
		if !ok || !ok2 {
			break
		}
		for i := range s {
			if u.Field(i).Exported() {
				p.gobSet(u.Field(i).Type(), &d[i], s[i], false)
			}
		}
		return
	case *types.Basic:
		if !top && p.branch(p.eq(t, src, zero(t))) {
			return
		}
	case *types.Slice:
		s, ok := src.([]value)
		if !ok {
			break
		}
		if len(s) == 0 && !top {
			return
		}
		if d, ok := (*dst).([]value); ok && cap(d) >= len(s) && cap(d) > 0 {
			d = d[:len(s)]
			for i := range s {
				storeInto(&d[i], s[i])
			}
			src = d
		}
	case *types.Map:
		m, ok := src.(*Map)
		if !ok {
			break
		}
		if m == nil {
			return
		}
		if d, ok := (*dst).(*Map); ok && d != nil {
			for _, e := range m.ents {
				if !e.deleted {
					p.mapSet(d, e.k, e.v)
				}
			}
			return
		}
	case *types.Pointer:
		s, ok := src.(*value)
		if !ok {
			break
		}
		if s == nil {
			return
		}
		d, ok := (*dst).(*value)
		if !ok {
			break
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && !top && p.branch(p.eq(b, *s, zero(b))) {
			return
		}
		if d == nil {
			d = new(value)
			*d = zero(u.Elem())
			*dst = d
		}
		p.gobSet(u.Elem(), d, *s, top)
		return
	case *types.Interface:
		if i, ok := src.(iface); ok && i.t == nil {
			return
		}
	}
	storeInto(dst, src)
}

func (p *Path) deepCopy(fr *frame, t types.Type, v value, seen map[*value]*value) value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s, ok := v.(structure)
		if !ok {
			return v
		}
		r := append(structure(nil), s...)
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && !repoLike(n.Obj().Pkg().Path()) {
			for i := range s {
				p.encRead(fr, &s[i])
			}
			return r
		}
		for i := range s {
			if u.Field(i).Exported() {
				p.encRead(fr, &s[i])
				r[i] = p.deepCopy(fr, u.Field(i).Type(), s[i], seen)
			}
		}
		return r
	case *types.Array:
		s, ok := v.(array)
		if !ok {
			return v
		}
		r := make(array, len(s))
		for i := range s {
			p.encRead(fr, &s[i])
			r[i] = p.deepCopy(fr, u.Elem(), s[i], seen)
		}
		return r
	case *types.Slice:
		s, ok := v.([]value)
		if !ok || s == nil {
			return v
		}
		r := make([]value, len(s))
		for i := range s {
			p.encRead(fr, &s[i])
			r[i] = p.deepCopy(fr, u.Elem(), s[i], seen)
		}
		return r
	case *types.Pointer:
		x, ok := v.(*value)
		if !ok || x == nil {
			return v
		}
		if n, ok := u.Elem().(*types.Named); ok && n.Obj().Pkg() != nil && !repoLike(n.Obj().Pkg().Path()) {
			return v
		}
		if c, ok := seen[x]; ok {
			return c
		}
		c := new(value)
		seen[x] = c
		p.encRead(fr, x)
		*c = p.deepCopy(fr, u.Elem(), *x, seen)
		return c
	case *types.Map:
		m0, ok := v.(*Map)
		if !ok || m0 == nil {
			return v
		}
		m := newMap(m0.kt)
		p.encRead(fr, &m0.cell)
		for _, e := range m0.ents {
			if !e.deleted {
				p.mapSet(m, p.deepCopy(fr, u.Key(), e.k, seen), p.deepCopy(fr, u.Elem(), e.v, seen))
			}
		}
		return m
	case *types.Interface:
		i, ok := v.(iface)
		if !ok || i.t == nil {
			return v
		}
		return iface{i.t, p.deepCopy(fr, i.t, i.v, seen)}
	}
	return v
}

// encRead is a read by library code on behalf of its caller.
func (p *Path) encRead(fr *frame, a *value) {
	for fr != nil && p.raceExempt(fr) {
		fr = fr.caller
	}
	if fr != nil && p.sched.multi && p.opts.race {
		p.raceRead(fr, a)
	}
}

// ---- sync ----

type mutexSt struct {
	obj     *Obj
	robj    *Obj // the readers a waiting writer waits for
	locked  bool
	vc      vclock
	readers int
	rvc     vclock
	pending *G // announced writer
	held    map[*G]int
}

type wgSt struct {
	obj *Obj
	n   int64
	vc  vclock
}

type atomicSt struct {
	obj *Obj
	vc  vclock
}

type sideKey struct {
	kind byte
	ptr  *value
}

func (p *Path) mutex(v value) *mutexSt {
	ptr, ok := v.(*value)
	if !ok || ptr == nil {
		p.goPanic("invalid memory address or nil pointer dereference")
	}
	k := sideKey{'m', ptr}
	if m, ok := p.side[k]; ok {
		return m.(*mutexSt)
	}
	m := &mutexSt{obj: p.sched.newObj("mutex"), robj: p.sched.newObj("rwmutex readers"), held: map[*G]int{}}
	p.side[k] = m
	return m
}

func (p *Path) atomic(v value) *atomicSt {
	ptr, ok := v.(*value)
	if !ok || ptr == nil {
		p.goPanic("invalid memory address or nil pointer dereference")
	}
	k := sideKey{'a', ptr}
	if m, ok := p.side[k]; ok {
		return m.(*atomicSt)
	}
	m := &atomicSt{obj: p.sched.newObj("atomic")}
	p.side[k] = m
	return m
}

func (p *Path) fatal(msg string) {
	// runtime.fatal errors cannot be recovered: report directly
	p.violation("panic", "fatal error: "+msg+" at "+p.sched.cur.where(6))
}

func cond1(f func() bool, run func()) func() []func() {
	a := []func(){run}
	return func() []func() {
		if f() {
			return a
		}
		return nil
	}
}

func (p *Path) atomicOp(g *G, name string, ptr value, write bool, f func(a *value)) {
	st := p.atomic(ptr)
	mode := accRead
	if write {
		mode = accWrite
	}
	a := ptr.(*value)
	run := func() {
		g.vc.join(st.vc)
		f(a)
		if write {
			st.vc.join(g.vc)
			g.tick()
		}
	}
	if !p.sched.multi || p.initing > 0 {
		run()
		return
	}
	p.sched.visible(g, p.simpleOp(name, []acc{{o: st.obj, mode: mode}}, run))
}

func registerSync(I map[string]intrinsic) {
	I["(*sync.Mutex).Lock"] = func(g *G, fr *frame, a []value) value {
		p := g.p
		m := p.mutex(a[0])
		op := &POp{name: "Lock", accs: []acc{{o: m.obj, mode: accWrite}}}
		op.alts = cond1(func() bool { return !m.locked }, func() {
			m.locked = true
			g.vc.join(m.vc)
		})
		p.sched.visible(g, op)
		return nil
	}
	I["(*sync.Mutex).TryLock"] = func(g *G, fr *frame, a []value) value {
		p := g.p
		m := p.mutex(a[0])
		ok := false
		p.sched.visible(g, p.simpleOp("TryLock", []acc{{o: m.obj, mode: accWrite}}, func() {
			if !m.locked {
				m.locked = true
				ok = true
				g.vc.join(m.vc)
			}
		}))
		return ok
	}
	I["(*sync.Mutex).Unlock"] = func(g *G, fr *frame, a []value) value {
		p := g.p
		m := p.mutex(a[0])
		if !m.locked {
			p.fatal("sync: unlock of unlocked mutex")
		}
		p.sched.visible(g, p.simpleOp("Unlock", []acc{{o: m.obj, mode: accWrite, quiet: true}}, func() {
			m.locked = false
			m.vc = g.vc.clone()
			g.tick()
		}))
		return nil
	}
	// RWMutex with writer preference: a waiting writer blocks new readers.
	I["(*sync.RWMutex).Lock"] = func(g *G, fr *frame, a []value) value {
		p := g.p
		m := p.mutex(a[0])
		ann := &POp{name: "Lock.announce", accs: []acc{{o: m.obj, mode: accWrite}}}
		ann.alts = cond1(func() bool { return m.pending == nil && !m.locked }, func() { m.pending = g })
		p.sched.visible(g, ann)
		op := &POp{name: "Lock", accs: []acc{{o: m.robj, mode: accWrite, quiet: true}}}
		op.alts = cond1(func() bool { return m.readers == 0 }, func() {
			m.locked = true
			m.pending = nil
			g.vc.join(m.vc)
			g.vc.join(m.rvc)
		})
		p.sched.visible(g, op)
		return nil
	}
	I["(*sync.RWMutex).Unlock"] = func(g *G, fr *frame, a []value) value {
		p := g.p
		m := p.mutex(a[0])
		if !m.locked {
			p.fatal("sync: Unlock of unlocked RWMutex")
		}
		p.sched.visible(g, p.simpleOp("Unlock", []acc{{o: m.obj, mode: accWrite, quiet: true}}, func() {
			m.locked = false
			m.vc = g.vc.clone()
			g.tick()
		}))
		return nil
	}
	I["(*sync.RWMutex).RLock"] = func(g *G, fr *frame, a []value) value {
		p := g.p
		m := p.mutex(a[0])
		op := &POp{name: "RLock", accs: []acc{{o: m.obj, mode: accRead}}}
		op.alts = cond1(func() bool { return !m.locked && m.pending == nil }, func() {
			m.readers++
			g.vc.join(m.vc)
		})
		p.sched.visible(g, op)
		return nil
	}
	I["(*sync.RWMutex).RUnlock"] = func(g *G, fr *frame, a []value) value {
		p := g.p
		m := p.mutex(a[0])
		if m.readers == 0 {
			p.fatal("sync: RUnlock of unlocked RWMutex")
		}
		p.sched.visible(g, p.simpleOp("RUnlock", []acc{{o: m.robj, mode: accRead, quiet: true}}, func() {
			m.readers--
			m.rvc.join(g.vc)
			g.tick()
		}))
		return nil
	}
	wg := func(p *Path, v value) *wgSt {
		ptr := v.(*value)
		if ptr == nil {
			p.goPanic("invalid memory address or nil pointer dereference")
		}
		k := sideKey{'w', ptr}
		if m, ok := p.side[k]; ok {
			return m.(*wgSt)
		}
		m := &wgSt{obj: p.sched.newObj("waitgroup")}
		p.side[k] = m
		return m
	}
	add := func(g *G, v value, n int64) {
		p := g.p
		w := wg(p, v)
		neg := false
		p.sched.visible(g, p.simpleOp("WaitGroup.Add", []acc{{o: w.obj, mode: accRead, quiet: n < 0}}, func() {
			w.n += n
			w.vc.join(g.vc)
			g.tick()
			neg = w.n < 0
		}))
		if neg {
			panic(targetPanic{iface{p.prog.rtErr, "sync: negative WaitGroup counter"}})
		}
	}
	I["(*sync.WaitGroup).Add"] = func(g *G, fr *frame, a []value) value {
		add(g, a[0], g.p.concInt(a[1], k64))
		return nil
	}
	I["(*sync.WaitGroup).Done"] = func(g *G, fr *frame, a []value) value { add(g, a[0], -1); return nil }
	I["(*sync.WaitGroup).Go"] = func(g *G, fr *frame, a []value) value {
		add(g, a[0], 1)
		w, f := a[0], a[1]
		g.p.spawn(g, &native{"wg.Go", func(g *G, _ []value) value {
			g.p.call(g, nil, f, nil)
			add(g, w, -1)
			return nil
		}}, nil, 0)
		return nil
	}
	I["(*sync.WaitGroup).Wait"] = func(g *G, fr *frame, a []value) value {
		p := g.p
		w := wg(p, a[0])
		op := &POp{name: "WaitGroup.Wait", accs: []acc{{o: w.obj, mode: accWrite}}}
		op.alts = cond1(func() bool { return w.n == 0 }, func() { g.vc.join(w.vc) })
		p.sched.visible(g, op)
		return nil
	}
	// a pool of the code under test hands out the item put back last; those of
	// the standard library are never refilled
	type poolSt struct {
		obj   *Obj
		items []value
		vcs   []vclock
	}
	pool := func(g *G, fr *frame, v value) *poolSt {
		if fr == nil || !fromRepo(fr.fi.fn) {
			return nil
		}
		k := sideKey{'P', v.(*value)}
		if m, ok := g.p.side[k]; ok {
			return m.(*poolSt)
		}
		m := &poolSt{obj: g.p.sched.newObj("pool")}
		g.p.side[k] = m
		return m
	}
	I["(*sync.Pool).Get"] = func(g *G, fr *frame, a []value) value {
		if ps := pool(g, fr, a[0]); ps != nil {
			var got value
			hit := false
			g.p.sched.visible(g, g.p.simpleOp("Pool.Get", []acc{{o: ps.obj, mode: accWrite}}, func() {
				if n := len(ps.items) - 1; n >= 0 {
					got, hit = ps.items[n], true
					g.vc.join(ps.vcs[n])
					ps.items, ps.vcs = ps.items[:n:n], ps.vcs[:n:n]
				}
			}))
			if hit {
				return got
			}
		}
		st := (*a[0].(*value)).(structure)
		nf := st[len(st)-1]
		if isNilFunc(nf) {
			return iface{}
		}
		return g.p.call(g, fr, nf, nil)
	}
	I["(*sync.Pool).Put"] = func(g *G, fr *frame, a []value) value {
		if ps := pool(g, fr, a[0]); ps != nil {
			if i, ok := a[1].(iface); ok && i.t != nil {
				g.p.sched.visible(g, g.p.simpleOp("Pool.Put", []acc{{o: ps.obj, mode: accWrite}}, func() {
					ps.items = append(ps.items, copyVal(a[1]))
					ps.vcs = append(ps.vcs, g.vc.clone())
					g.tick()
				}))
			}
		}
		return nil
	}
	// sync.Map as a locked map
	type smap struct {
		m   *Map
		obj *Obj
		vc  vclock
	}
	sm := func(p *Path, v value) *smap {
		k := sideKey{'s', v.(*value)}
		if m, ok := p.side[k]; ok {
			return m.(*smap)
		}
		m := &smap{m: newMap(types.NewInterfaceType(nil, nil)), obj: p.sched.newObj("sync.Map")}
		p.side[k] = m
		return m
	}
	smop := func(g *G, m *smap, write bool, f func()) {
		mode := accRead
		if write {
			mode = accWrite
		}
		g.p.sched.visible(g, g.p.simpleOp("sync.Map", []acc{{o: m.obj, mode: mode}}, func() {
			g.vc.join(m.vc)
			f()
			if write {
				m.vc.join(g.vc)
				g.tick()
			}
		}))
	}
	I["(*sync.Map).Load"] = func(g *G, fr *frame, a []value) value {
		m := sm(g.p, a[0])
		var r tuple
		smop(g, m, false, func() {
			if e := g.p.mapFind(m.m, a[1]); e != nil {
				r = tuple{e.v, true}
			} else {
				r = tuple{iface{}, false}
			}
		})
		return r
	}
	I["(*sync.Map).Store"] = func(g *G, fr *frame, a []value) value {
		m := sm(g.p, a[0])
		smop(g, m, true, func() { g.p.mapSet(m.m, a[1], a[2]) })
		return nil
	}
	I["(*sync.Map).Delete"] = func(g *G, fr *frame, a []value) value {
		m := sm(g.p, a[0])
		smop(g, m, true, func() { g.p.mapDelete(m.m, a[1]) })
		return nil
	}
	I["(*sync.Map).LoadOrStore"] = func(g *G, fr *frame, a []value) value {
		m := sm(g.p, a[0])
		var r tuple
		smop(g, m, true, func() {
			if e := g.p.mapFind(m.m, a[1]); e != nil {
				r = tuple{e.v, true}
			} else {
				g.p.mapSet(m.m, a[1], a[2])
				r = tuple{a[2], false}
			}
		})
		return r
	}
	I["(*sync.Map).Range"] = func(g *G, fr *frame, a []value) value {
		m := sm(g.p, a[0])
		var ents []*mapEntry
		smop(g, m, false, func() { ents = append(ents, m.m.ents...) })
		for _, e := range ents {
			if e.deleted {
				continue
			}
			if !g.p.branch(g.p.boolTerm(g.p.call(g, fr, a[1], []value{e.k, e.v}))) {
				break
			}
		}
		return nil
	}
	// sync.Cond
	type condWaiter struct {
		on  bool
		obj *Obj
	}
	type condSt struct {
		obj     *Obj
		waiters []*condWaiter
		vc      vclock
	}
	cond := func(p *Path, v value) *condSt {
		k := sideKey{'c', v.(*value)}
		if m, ok := p.side[k]; ok {
			return m.(*condSt)
		}
		m := &condSt{obj: p.sched.newObj("cond")}
		p.side[k] = m
		return m
	}
	I["(*sync.Cond).Wait"] = func(g *G, fr *frame, a []value) value {
		p := g.p
		c := cond(p, a[0])
		st := (*a[0].(*value)).(structure)
		var l iface
		for _, f := range st {
			if i, ok := f.(iface); ok {
				l = i
			}
		}
		flag := &condWaiter{obj: p.sched.newObj("cond waiter")}
		p.sched.visible(g, p.simpleOp("cond.enqueue", []acc{{o: c.obj, mode: accWrite}}, func() { c.waiters = append(c.waiters, flag) }))
		lm := func(n string) {
			ms := types.NewMethodSet(l.t)
			sel := ms.Lookup(nil, n)
			p.call(g, fr, p.prog.lookupMethod(l.t, sel.Obj().(*types.Func)), []value{l.v})
		}
		lm("Unlock")
		op := &POp{name: "cond.Wait", accs: []acc{{o: flag.obj, mode: accWrite, quiet: true}}}
		op.alts = cond1(func() bool { return flag.on }, func() { g.vc.join(c.vc) })
		p.sched.visible(g, op)
		lm("Lock")
		return nil
	}
	sig := func(all bool) intrinsic {
		return func(g *G, fr *frame, a []value) value {
			p := g.p
			c := cond(p, a[0])
			mode := accWrite
			if all {
				mode = accRead // two broadcasts commute
			}
			op := p.simpleOp("cond.Signal", []acc{{o: c.obj, mode: mode}}, func() {
				c.vc.join(g.vc)
				g.tick()
				for len(c.waiters) > 0 {
					c.waiters[0].on = true
					c.waiters = c.waiters[1:]
					if !all {
						break
					}
				}
			})
			op.dyn = func() (out []acc) {
				for i, w := range c.waiters {
					if all || i == 0 {
						out = append(out, acc{o: w.obj, mode: accWrite, quiet: true})
					}
				}
				return
			}
			p.sched.visible(g, op)
			return nil
		}
	}
	I["(*sync.Cond).Signal"] = sig(false)
	I["(*sync.Cond).Broadcast"] = sig(true)

	// ---- atomics ----
	for _, ty := range []struct {
		n string
		k ikind
	}{{"Int32", ikind{32, true}}, {"Int64", ikind{64, true}}, {"Uint32", ikind{32, false}}, {"Uint64", ikind{64, false}}, {"Uintptr", ikind{64, false}}} {
		ty := ty
		add := &binAux{cls: 'i', k: ty.k, yk: ty.k, t: types.Typ[types.Int64]}
		for _, pre := range []string{"sync/atomic.", "internal/runtime/atomic."} {
			I[pre+"Add"+ty.n] = func(g *G, fr *frame, a []value) value {
				var r value
				g.p.atomicOp(g, "atomic.Add", a[0], true, func(c *value) { r = g.p.binop(tokADD, add, *c, a[1]); *c = r })
				return r
			}
			I[pre+"Load"+ty.n] = func(g *G, fr *frame, a []value) value {
				var r value
				g.p.atomicOp(g, "atomic.Load", a[0], false, func(c *value) { r = *c })
				return r
			}
			I[pre+"Store"+ty.n] = func(g *G, fr *frame, a []value) value {
				g.p.atomicOp(g, "atomic.Store", a[0], true, func(c *value) { *c = a[1] })
				return nil
			}
			I[pre+"Swap"+ty.n] = func(g *G, fr *frame, a []value) value {
				var r value
				g.p.atomicOp(g, "atomic.Swap", a[0], true, func(c *value) { r = *c; *c = a[1] })
				return r
			}
			I[pre+"CompareAndSwap"+ty.n] = func(g *G, fr *frame, a []value) value {
				var eqt *Term
				var ok bool
				g.p.atomicOp(g, "atomic.CAS", a[0], true, func(c *value) {
					eqt = g.p.b.Eq(g.p.toTerm(*c, ty.k.w), g.p.toTerm(a[1], ty.k.w))
					ok = g.p.branch(eqt)
					if ok {
						*c = a[2]
					}
				})
				return ok
			}
		}
	}
	I["sync/atomic.LoadPointer"] = func(g *G, fr *frame, a []value) value {
		var r value
		g.p.atomicOp(g, "atomic.Load", a[0], false, func(c *value) { r = *c })
		return r
	}
	I["sync/atomic.StorePointer"] = func(g *G, fr *frame, a []value) value {
		g.p.atomicOp(g, "atomic.Store", a[0], true, func(c *value) { *c = a[1] })
		return nil
	}
	I["sync/atomic.SwapPointer"] = func(g *G, fr *frame, a []value) value {
		var r value
		g.p.atomicOp(g, "atomic.Swap", a[0], true, func(c *value) { r = *c; *c = a[1] })
		return r
	}
	I["sync/atomic.CompareAndSwapPointer"] = func(g *G, fr *frame, a []value) value {
		ok := false
		g.p.atomicOp(g, "atomic.CAS", a[0], true, func(c *value) {
			if *c == a[1] {
				*c = a[2]
				ok = true
			}
		})
		return ok
	}
	vcell := func(v value) *value {
		st := (*v.(*value)).(structure)
		return &st[0]
	}
	I["(*sync/atomic.Value).Load"] = func(g *G, fr *frame, a []value) value {
		var r value
		g.p.atomicOp(g, "atomic.Value.Load", vcell(a[0]), false, func(c *value) { r = *c })
		return r
	}
	I["(*sync/atomic.Value).Store"] = func(g *G, fr *frame, a []value) value {
		if a[1].(iface).t == nil {
			panic(targetPanic{iface{g.p.prog.rtErr, "sync/atomic: store of nil value into Value"}})
		}
		g.p.atomicOp(g, "atomic.Value.Store", vcell(a[0]), true, func(c *value) { *c = a[1] })
		return nil
	}
	I["(*sync/atomic.Value).CompareAndSwap"] = func(g *G, fr *frame, a []value) value {
		ok := false
		g.p.atomicOp(g, "atomic.Value.CAS", vcell(a[0]), true, func(c *value) {
			if g.p.branch(g.p.eq(types.NewInterfaceType(nil, nil), *c, a[1])) {
				*c = a[2]
				ok = true
			}
		})
		return ok
	}
}

// ---- math ----

func registerMath(I map[string]intrinsic) {
	f1 := func(name string, f func(float64) float64, sym func(p *Path, t *Term) value) {
		h := func(g *G, fr *frame, a []value) value {
			if x, ok := a[0].(float64); ok {
				return f(x)
			}
			if sym == nil {
				g.p.unsupported("%s of a symbolic real", name)
			}
			return sym(g.p, a[0].(*Term))
		}
		I["math."+name] = h
	}
	f1("Log", math.Log, func(p *Path, t *Term) value { return p.log(t) })
	f1("Exp", math.Exp, func(p *Path, t *Term) value { return p.exp(t) })
	f1("Sqrt", math.Sqrt, func(p *Path, t *Term) value { return p.sqrt(t) })
	f1("Abs", math.Abs, func(p *Path, t *Term) value {
		z := p.b.Rat(ratZero)
		return p.fromReal(p.b.Ite(p.b.RCmp(ORLt, t, z), p.b.RBin(ORSub, z, t), t))
	})
	f1("Floor", math.Floor, nil)
	f1("Ceil", math.Ceil, nil)
	f1("Trunc", math.Trunc, nil)
	f1("Round", math.Round, nil)
	f1("Log10", math.Log10, nil)
	f1("Log2", math.Log2, nil)
	f1("Log1p", math.Log1p, nil)
	I["math.IsNaN"] = func(g *G, fr *frame, a []value) value {
		f, ok := a[0].(float64)
		return ok && math.IsNaN(f)
	}
	I["math.IsInf"] = func(g *G, fr *frame, a []value) value {
		f, ok := a[0].(float64)
		return ok && math.IsInf(f, int(a[1].(int64)))
	}
	I["math.Float64bits"] = func(g *G, fr *frame, a []value) value {
		f, ok := a[0].(float64)
		if !ok {
			g.p.unsupported("Float64bits of a symbolic real")
		}
		return int64(math.Float64bits(f))
	}
	I["math.Float64frombits"] = func(g *G, fr *frame, a []value) value {
		b, ok := a[0].(int64)
		if !ok {
			g.p.unsupported("Float64frombits of a symbolic value")
		}
		return math.Float64frombits(uint64(b))
	}
	I["math.Float32bits"] = func(g *G, fr *frame, a []value) value {
		return int64(math.Float32bits(float32(a[0].(float64))))
	}
	I["math.Float32frombits"] = func(g *G, fr *frame, a []value) value {
		return float64(math.Float32frombits(uint32(a[0].(int64))))
	}
	I["math.Max"] = func(g *G, fr *frame, a []value) value { return g.p.fminmax(false, a[0], a[1]) }
	I["math.Min"] = func(g *G, fr *frame, a []value) value { return g.p.fminmax(true, a[0], a[1]) }
	I["math.Mod"] = func(g *G, fr *frame, a []value) value { return math.Mod(a[0].(float64), a[1].(float64)) }
	I["math.Pow"] = func(g *G, fr *frame, a []value) value {
		p := g.p
		x, ok1 := a[0].(float64)
		y, ok2 := a[1].(float64)
		if ok1 && ok2 {
			return math.Pow(x, y)
		}
		if ok2 && y == math.Trunc(y) && y >= 0 && y <= 4 {
			r := value(1.0)
			for i := 0; i < int(y); i++ {
				r = p.symFloatOp(tokMUL, r, a[0])
			}
			return r
		}
		if ok1 && x == math.E && !ok2 {
			return p.exp(a[1])
		}
		if ok2 && y == 0.5 {
			return p.sqrt(a[0].(*Term))
		}
		p.unsupported("Pow with symbolic exponent")
		return nil
	}
}

// log and exp of symbolic reals: a shared table of pairs (x, y) with y = ln x,
// constrained to be strictly increasing in both directions.
func (p *Path) log(v value) value {
	if f, ok := v.(float64); ok {
		return math.Log(f)
	}
	t := v.(*Term)
	for _, q := range p.reals {
		if q.x == t {
			return p.fromReal(q.y)
		}
	}
	switch p.realSign(t) {
	case 0:
		return math.Inf(-1)
	case -1:
		return math.NaN()
	}
	y := p.newVar("ln", wReal)
	p.addPair(t, y)
	return y
}

func (p *Path) exp(v value) value {
	if f, ok := v.(float64); ok {
		return math.Exp(f)
	}
	t := v.(*Term)
	for _, q := range p.reals {
		if q.y == t {
			return p.fromReal(q.x)
		}
	}
	x := p.newVar("exp", wReal)
	p.addPair(x, t)
	return x
}

func (p *Path) addPair(x, y *Term) {
	b := p.b
	if len(p.reals) == 0 {
		p.reals = append(p.reals, lnPair{b.Rat(big.NewRat(1, 1)), b.Rat(ratZero)})
	}
	c := b.RCmp(ORLt, b.Rat(ratZero), x)
	// y <= x - 1 for every x (tangent at 1)
	c = b.And(c, b.RCmp(ORLe, y, b.RBin(ORSub, x, b.Rat(big.NewRat(1, 1)))))
	for _, q := range p.reals {
		c = b.And(c, b.Eq(b.RCmp(ORLt, q.x, x), b.RCmp(ORLt, q.y, y)))
		c = b.And(c, b.Eq(b.RCmp(ORLt, x, q.x), b.RCmp(ORLt, y, q.y)))
	}
	p.reals = append(p.reals, lnPair{x, y})
	// definitional: always satisfiable for the fresh variable
	p.addPC(c)
}

func (p *Path) sqrt(v value) value {
	if f, ok := v.(float64); ok {
		return math.Sqrt(f)
	}
	t := v.(*Term)
	if r, ok := p.rmemo[t]; ok {
		return r
	}
	b := p.b
	z := b.Rat(ratZero)
	if p.branch(b.RCmp(ORLt, t, z)) {
		return math.NaN()
	}
	y := p.newVar("sqrt", wReal)
	p.rmemo[t] = y
	p.addPC(b.And(b.RCmp(ORLe, z, y), b.Eq(b.RBin(ORMul, y, y), t)))
	return y
}

// ---- bytes / strings leaves ----

func (p *Path) indexByte(bs []value, c value) int64 {
	for i, x := range bs {
		if p.branch(p.b.Eq(p.toTerm(x, 8), p.toTerm(c, 8))) {
			return int64(i)
		}
	}
	return -1
}

func (p *Path) anyBytes(v value) []value {
	if s, ok := v.([]value); ok {
		return s
	}
	return strBytes(p, v)
}

func (p *Path) indexSub(s, sub []value) int64 {
	for i := 0; i+len(sub) <= len(s); i++ {
		c := p.b.T
		for j := range sub {
			c = p.b.And(c, p.b.Eq(p.toTerm(s[i+j], 8), p.toTerm(sub[j], 8)))
		}
		if p.branch(c) {
			return int64(i)
		}
	}
	return -1
}

func registerBytes(I map[string]intrinsic) {
	ib := func(g *G, fr *frame, a []value) value {
		if s, ok := a[0].(string); ok {
			if c, ok := a[1].(int64); ok {
				return int64(strings.IndexByte(s, byte(c)))
			}
		}
		return g.p.indexByte(g.p.anyBytes(a[0]), a[1])
	}
	for _, n := range []string{"internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "internal/stringslite.IndexByte", "strings.IndexByte", "bytes.IndexByte"} {
		I[n] = ib
	}
	lib := func(g *G, fr *frame, a []value) value {
		bs := g.p.anyBytes(a[0])
		for i := len(bs) - 1; i >= 0; i-- {
			if g.p.branch(g.p.b.Eq(g.p.toTerm(bs[i], 8), g.p.toTerm(a[1], 8))) {
				return int64(i)
			}
		}
		return int64(-1)
	}
	for _, n := range []string{"internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString", "strings.LastIndexByte"} {
		I[n] = lib
	}
	ix := func(g *G, fr *frame, a []value) value {
		if s, ok := a[0].(string); ok {
			if t, ok := a[1].(string); ok {
				return int64(strings.Index(s, t))
			}
		}
		return g.p.indexSub(g.p.anyBytes(a[0]), g.p.anyBytes(a[1]))
	}
	for _, n := range []string{"internal/bytealg.Index", "internal/bytealg.IndexString", "strings.Index", "bytes.Index", "internal/stringslite.Index"} {
		I[n] = ix
	}
	eq := func(g *G, fr *frame, a []value) value {
		x, y := g.p.anyBytes(a[0]), g.p.anyBytes(a[1])
		if g.p.sched.multi && g.p.opts.race {
			for _, s := range [][]value{x, y} {
				for i := range s {
					g.p.raceReadAll(fr, &s[i])
				}
			}
		}
		return fromBool(g.p.strEq(mkStr(x), mkStr(y)))
	}
	I["bytes.Equal"] = eq
	I["internal/bytealg.Equal"] = eq
	I["crypto/subtle.ConstantTimeCompare"] = func(g *G, fr *frame, a []value) value {
		p := g.p
		return p.fromTerm(p.b.Ite(p.strEq(mkStr(a[0].([]value)), mkStr(a[1].([]value))), p.b.BV(1, 64), p.b.BV(0, 64)), k64)
	}
	cmp := func(g *G, fr *frame, a []value) value {
		p := g.p
		x, y := mkStr(p.anyBytes(a[0])), mkStr(p.anyBytes(a[1]))
		if p.branch(p.strEq(x, y)) {
			return int64(0)
		}
		if p.branch(p.strLess(x, y, false)) {
			return int64(-1)
		}
		return int64(1)
	}
	I["internal/bytealg.Compare"] = cmp
	I["internal/bytealg.CompareString"] = cmp
	I["strings.Compare"] = cmp
	cnt := func(g *G, fr *frame, a []value) value {
		n := int64(0)
		for _, x := range g.p.anyBytes(a[0]) {
			if g.p.branch(g.p.b.Eq(g.p.toTerm(x, 8), g.p.toTerm(a[1], 8))) {
				n++
			}
		}
		return n
	}
	I["internal/bytealg.Count"] = cnt
	I["internal/bytealg.CountString"] = cnt
	I["internal/bytealg.MakeNoZero"] = func(g *G, fr *frame, a []value) value {
		n := g.p.concInt(a[0], k64)
		s := make([]value, roundCap(int(n), 1))
		for i := range s {
			s[i] = int64(0)
		}
		return s[:n]
	}
	id := func(g *G, fr *frame, a []value) value { return a[0] }
	for _, n := range []string{"internal/stringslite.Clone", "strings.Clone", "internal/abi.NoEscape", "internal/abi.Escape", "(*strings.Builder).copyCheck", "unique.Make"} {
		I[n] = id
	}
	I["unicode/utf8.RuneCountInString"] = func(g *G, fr *frame, a []value) value {
		bs := strBytes(g.p, a[0])
		n := int64(0)
		for i := 0; i < len(bs); {
			_, k := g.p.decodeRune(bs[i:])
			i += k
			n++
		}
		return n
	}
	// every position where the text is not valid UTF-8 is decided; a string
	// whose content is not modelled is valid
	invalid := func(p *Path, bs []value) []int {
		ascii := p.b.Bool(true)
		for _, x := range bs {
			ascii = p.b.And(ascii, p.b.Cmp(OULt, p.toTerm(x, 8), p.b.BV(0x80, 8)))
		}
		if p.branch(ascii) {
			return nil
		}
		in := func(i int, lo, hi uint64) *Term {
			if i >= len(bs) {
				return p.b.F
			}
			t := p.toTerm(bs[i], 8)
			return p.b.And(p.b.Cmp(OULe, p.b.BV(lo, 8), t), p.b.Cmp(OULe, t, p.b.BV(hi, 8)))
		}
		all := func(i int, r ...uint64) *Term {
			c := p.b.T
			for k := 0; k < len(r); k += 2 {
				c = p.b.And(c, in(i+k/2, r[k], r[k+1]))
			}
			return c
		}
		var bad []int
		for i := 0; i < len(bs); {
			const lo, hi = 0x80, 0xBF
			switch {
			case p.branch(in(i, 0, 0x7F)):
				i++
			case p.branch(all(i, 0xC2, 0xDF, lo, hi)):
				i += 2
			case p.branch(p.b.Or(p.b.Or(all(i, 0xE0, 0xE0, 0xA0, hi, lo, hi), all(i, 0xE1, 0xEC, lo, hi, lo, hi)),
				p.b.Or(all(i, 0xED, 0xED, lo, 0x9F, lo, hi), all(i, 0xEE, 0xEF, lo, hi, lo, hi)))):
				i += 3
			case p.branch(p.b.Or(all(i, 0xF0, 0xF0, 0x90, hi, lo, hi, lo, hi),
				p.b.Or(all(i, 0xF1, 0xF3, lo, hi, lo, hi, lo, hi), all(i, 0xF4, 0xF4, lo, 0x8F, lo, hi, lo, hi)))):
				i += 4
			default:
				bad = append(bad, i)
				i++
			}
		}
		return bad
	}
	valid := func(g *G, fr *frame, a []value) value {
		if _, ok := a[0].(*Opaque); ok {
			return true
		}
		return len(invalid(g.p, g.p.anyBytes(a[0]))) == 0
	}
	I["unicode/utf8.ValidString"] = valid
	I["unicode/utf8.Valid"] = valid
	toValid := func(p *Path, in, rep []value) ([]value, bool) {
		bad := invalid(p, in)
		if len(bad) == 0 {
			return in, false
		}
		var out []value
		j := 0
		for i := range in {
			if j < len(bad) && bad[j] == i {
				if j == 0 || bad[j-1] != i-1 {
					out = append(out, rep...)
				}
				j++
				continue
			}
			out = append(out, in[i])
		}
		return out, true
	}
	I["strings.ToValidUTF8"] = func(g *G, fr *frame, a []value) value {
		if _, ok := a[0].(*Opaque); ok {
			return a[0]
		}
		if out, changed := toValid(g.p, strBytes(g.p, a[0]), strBytes(g.p, a[1])); changed {
			return mkStr(out)
		}
		return a[0]
	}
	delete(I, "unique.Make")
}

// ---- misc ----

func registerMisc(I map[string]intrinsic) {
	nop := func(g *G, fr *frame, a []value) value { return nil }
	for _, n := range []string{"runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "internal/race.Acquire", "internal/race.Release",
		"internal/race.ReleaseMerge", "internal/race.Disable", "internal/race.Enable", "internal/race.Read", "internal/race.Write", "internal/race.ReadRange", "internal/race.WriteRange",
		"github.com/golang/protobuf/proto.RegisterEnum", "github.com/golang/protobuf/proto.RegisterType", "github.com/golang/protobuf/proto.RegisterFile",
		"log.Printf", "log.Println", "log.Print", "runtime/debug.SetGCPercent", "internal/godebug.registerMetric", "internal/godebug.setUpdate",
		"(*internal/godebug.Setting).IncNonDefault", "runtime.RegisterMetric", "runtime/debug.PrintStack"} {
		I[n] = nop
	}
	I["internal/godebug.New"] = func(g *G, fr *frame, a []value) value {
		c := new(value)
		*c = structure{}
		return c
	}
	I["(*internal/godebug.Setting).Value"] = func(g *G, fr *frame, a []value) value { return "" }
	I["(*internal/godebug.Setting).Name"] = func(g *G, fr *frame, a []value) value { return "" }
	I["runtime.Gosched"] = func(g *G, fr *frame, a []value) value {
		g.p.sched.visible(g, g.p.simpleOp("Gosched", nil, func() {}))
		return nil
	}
	I["runtime.Goexit"] = func(g *G, fr *frame, a []value) value { panic(goexitPanic{}) }
	I["runtime.NumGoroutine"] = func(g *G, fr *frame, a []value) value { return int64(g.p.sched.live) }
	I["runtime.Caller"] = func(g *G, fr *frame, a []value) value { return tuple{int64(0), "", int64(0), false} }
	I["runtime.Callers"] = func(g *G, fr *frame, a []value) value { return int64(0) }
	I["runtime.FuncForPC"] = func(g *G, fr *frame, a []value) value { return (*value)(nil) }
	for _, n := range []string{"syscall.runtime_envs", "os.runtime_args"} {
		I[n] = func(g *G, fr *frame, a []value) value { return []value(nil) }
	}
	I["time.runtimeNano"] = func(g *G, fr *frame, a []value) value {
		if g.p.initing == 0 {
			g.p.unsupported("time.runtimeNano")
		}
		return int64(1)
	}
	I["internal/runtime/syscall/linux.Syscall6"] = func(g *G, fr *frame, a []value) value {
		if g.p.initing == 0 {
			g.p.unsupported("system call")
		}
		return tuple{int64(0), int64(0), int64(38)} // ENOSYS
	}
	I["os.Exit"] = func(g *G, fr *frame, a []value) value {
		g.p.side["os.Exit"] = a[0]
		g.p.sched.endRaces()
		g.p.abort(stDone, "os.Exit")
		return nil
	}
	I["log.Fatal"] = func(g *G, fr *frame, a []value) value {
		g.p.sched.endRaces()
		g.p.abort(stDone, "log.Fatal")
		return nil
	}
	I["log.Fatalf"] = I["log.Fatal"]
	I["crypto/rand.Read"] = func(g *G, fr *frame, a []value) value {
		p := g.p
		bs := a[0].([]value)
		// pairwise distinct fresh draws (stated assumption)
		prev, _ := p.side["rand.draws"].([][]value)
		for i := range bs {
			bs[i] = p.newVar("rand", 8)
		}
		cp := append([]value(nil), bs...)
		p.inputs = append(p.inputs, Input{Kind: "rand", Label: "crypto/rand", bytes: cp})
		if len(bs) > 0 {
			for _, d := range prev {
				if len(d) == len(bs) {
					p.assume(p.b.Not(p.strEq(mkStr(d), mkStr(cp))))
				}
			}
			p.side["rand.draws"] = append(prev, cp)
		}
		return tuple{int64(len(bs)), iface{}}
	}
	I["sort.Slice"] = func(g *G, fr *frame, a []value) value {
		s := a[0].(iface).v.([]value)
		p := g.p
		// insertion sort: what sort.Slice does for up to 12 elements
		if len(s) > 12 {
			p.note("sort.Slice of more than 12 elements modelled as stable")
		}
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				if !p.branch(p.boolTerm(p.call(g, fr, a[1], []value{int64(j), int64(j - 1)}))) {
					break
				}
				if p.sched.multi && p.opts.race {
					p.raceWriteAll(fr, &s[j])
					p.raceWriteAll(fr, &s[j-1])
				}
				x, y := copyVal(s[j]), copyVal(s[j-1])
				storeInto(&s[j], y)
				storeInto(&s[j-1], x)
			}
		}
		return nil
	}
	I["sort.SliceStable"] = I["sort.Slice"]
	I["errors.As"] = func(g *G, fr *frame, a []value) value {
		p := g.p
		err := a[0].(iface)
		target := a[1].(iface)
		pt, ok := target.t.(*types.Pointer)
		if !ok {
			p.goPanic("errors: target must be a non-nil pointer")
		}
		tt := pt.Elem()
		for err.t != nil {
			match := false
			if it, isI := tt.Underlying().(*types.Interface); isI {
				m, _ := types.MissingMethod(err.t, it, true)
				match = m == nil
				if match {
					p.store(target.v, err)
					return true
				}
			} else if types.Identical(err.t, tt) {
				p.store(target.v, err.v)
				return true
			}
			err = p.unwrap(g, fr, err)
		}
		return false
	}
	I["internal/reflectlite.TypeOf"] = func(g *G, fr *frame, a []value) value {
		g.p.unsupported("reflectlite.TypeOf")
		return nil
	}
	I["errors.Is"] = func(g *G, fr *frame, a []value) value {
		p := g.p
		err := a[0].(iface)
		target := a[1].(iface)
		if err.t == nil || target.t == nil {
			return err.t == nil && target.t == nil
		}
		for err.t != nil {
			if types.Comparable(target.t) && types.Identical(err.t, target.t) && p.branch(p.eq(err.t, err.v, target.v)) {
				return true
			}
			if m := p.method(err.t, "Is"); m != nil {
				if p.branch(p.boolTerm(p.call(g, fr, m, []value{err.v, target}))) {
					return true
				}
			}
			err = p.unwrap(g, fr, err)
		}
		return false
	}
	I["reflect.TypeOf"] = func(g *G, fr *frame, a []value) value {
		i := a[0].(iface)
		if i.t == nil {
			return iface{}
		}
		p := g.p
		rt := p.prog.pkgs["reflect"].Type("rtype").Object().Type()
		k := "rtype:" + types.TypeString(i.t, nil)
		c, ok := p.side[k].(*value)
		if !ok {
			var v value = rtypeVal{i.t}
			c = &v
			p.side[k] = c
		}
		return iface{types.NewPointer(rt), c}
	}
	// reflect.Value: the pieces needed to make, read and set a value
	rval := func(v value) *reflVal {
		if r, ok := v.(structure)[0].(*reflVal); ok {
			return r
		}
		return &reflVal{}
	}
	box := func(r *reflVal) value { return structure{r, nil, int64(0)} }
	rtype := func(g *G, fr *frame, t types.Type) value {
		return I["reflect.TypeOf"](g, fr, []value{iface{t, nil}})
	}
	kind := func(t types.Type) value {
		if t == nil {
			return int64(0)
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return int64(reflect.Ptr)
		case *types.Struct:
			return int64(reflect.Struct)
		case *types.Slice:
			return int64(reflect.Slice)
		case *types.Map:
			return int64(reflect.Map)
		case *types.Array:
			return int64(reflect.Array)
		case *types.Interface:
			return int64(reflect.Interface)
		case *types.Signature:
			return int64(reflect.Func)
		case *types.Chan:
			return int64(reflect.Chan)
		case *types.Basic:
			k := map[types.BasicKind]reflect.Kind{types.Bool: reflect.Bool, types.Int: reflect.Int, types.Int8: reflect.Int8, types.Int16: reflect.Int16, types.Int32: reflect.Int32, types.Int64: reflect.Int64,
				types.Uint: reflect.Uint, types.Uint8: reflect.Uint8, types.Uint16: reflect.Uint16, types.Uint32: reflect.Uint32, types.Uint64: reflect.Uint64, types.Uintptr: reflect.Uintptr,
				types.Float32: reflect.Float32, types.Float64: reflect.Float64, types.Complex64: reflect.Complex64, types.Complex128: reflect.Complex128, types.String: reflect.String, types.UnsafePointer: reflect.UnsafePointer}[u.Kind()]
			return int64(k)
		}
		return int64(0)
	}
	read := func(r *reflVal) value {
		if r.addr != nil {
			return copyVal(*r.addr)
		}
		return r.v
	}
	I["reflect.ValueOf"] = func(g *G, fr *frame, a []value) value {
		i := a[0].(iface)
		return box(&reflVal{t: i.t, v: i.v})
	}
	I["reflect.New"] = func(g *G, fr *frame, a []value) value {
		t := (*a[0].(iface).v.(*value)).(rtypeVal).t
		c := new(value)
		*c = zero(t)
		return box(&reflVal{t: types.NewPointer(t), v: c})
	}
	I["reflect.Zero"] = func(g *G, fr *frame, a []value) value {
		t := (*a[0].(iface).v.(*value)).(rtypeVal).t
		return box(&reflVal{t: t, v: zero(t)})
	}
	I["reflect.Indirect"] = func(g *G, fr *frame, a []value) value {
		if r := rval(a[0]); r.t != nil && kind(r.t) == int64(reflect.Ptr) {
			return I["(reflect.Value).Elem"](g, fr, a)
		}
		return a[0]
	}
	I["(reflect.Value).IsValid"] = func(g *G, fr *frame, a []value) value { return rval(a[0]).t != nil }
	I["(reflect.Value).Kind"] = func(g *G, fr *frame, a []value) value { return kind(rval(a[0]).t) }
	I["(reflect.Value).Type"] = func(g *G, fr *frame, a []value) value { return rtype(g, fr, rval(a[0]).t) }
	I["(reflect.Value).CanSet"] = func(g *G, fr *frame, a []value) value { return rval(a[0]).addr != nil }
	I["(reflect.Value).IsNil"] = func(g *G, fr *frame, a []value) value {
		r := rval(a[0])
		return fromBool(g.p.eq(r.t, read(r), zero(r.t)))
	}
	I["(reflect.Value).Elem"] = func(g *G, fr *frame, a []value) value {
		r := rval(a[0])
		switch v := read(r).(type) {
		case *value:
			if v == nil {
				return box(&reflVal{})
			}
			return box(&reflVal{t: r.t.Underlying().(*types.Pointer).Elem(), addr: v})
		case iface:
			return box(&reflVal{t: v.t, v: v.v})
		}
		g.p.unsupported("reflect.Value.Elem of %v", r.t)
		return nil
	}
	I["(reflect.Value).Interface"] = func(g *G, fr *frame, a []value) value {
		r := rval(a[0])
		v := read(r)
		if i, ok := v.(iface); ok {
			return i
		}
		return iface{r.t, v}
	}
	I["(reflect.Value).Set"] = func(g *G, fr *frame, a []value) value {
		d, x := rval(a[0]), rval(a[1])
		if d.addr == nil {
			g.p.goPanic("reflect: reflect.Value.Set using unaddressable value")
		}
		v := read(x)
		if _, ok := d.t.Underlying().(*types.Interface); ok {
			if _, ok := x.t.Underlying().(*types.Interface); !ok {
				v = iface{x.t, v}
			}
		} else if !types.Identical(d.t, x.t) {
			g.p.goPanic("reflect.Set: value of type " + x.t.String() + " is not assignable to type " + d.t.String())
		}
		g.p.store(d.addr, v)
		return nil
	}
	I["(*reflect.rtype).Kind"] = func(g *G, fr *frame, a []value) value { return kind((*a[0].(*value)).(rtypeVal).t) }
	I["(*reflect.rtype).Elem"] = func(g *G, fr *frame, a []value) value {
		switch t := (*a[0].(*value)).(rtypeVal).t.Underlying().(type) {
		case *types.Pointer:
			return rtype(g, fr, t.Elem())
		case *types.Slice:
			return rtype(g, fr, t.Elem())
		case *types.Map:
			return rtype(g, fr, t.Elem())
		case *types.Array:
			return rtype(g, fr, t.Elem())
		}
		g.p.goPanic("reflect: Elem of invalid type")
		return nil
	}
	qual := func(p *types.Package) string { return p.Name() }
	I["(*reflect.rtype).String"] = func(g *G, fr *frame, a []value) value {
		return types.TypeString((*a[0].(*value)).(rtypeVal).t, qual)
	}
	I["(*reflect.rtype).Name"] = func(g *G, fr *frame, a []value) value {
		switch t := (*a[0].(*value)).(rtypeVal).t.(type) {
		case *types.Named:
			return t.Obj().Name()
		case *types.Basic:
			return t.Name()
		}
		return ""
	}
	I["(*reflect.rtype).PkgPath"] = func(g *G, fr *frame, a []value) value {
		if t, ok := (*a[0].(*value)).(rtypeVal).t.(*types.Named); ok && t.Obj().Pkg() != nil {
			return t.Obj().Pkg().Path()
		}
		return ""
	}
	I["reflect.DeepEqual"] = func(g *G, fr *frame, a []value) value {
		x, y := a[0].(iface), a[1].(iface)
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if !types.Identical(x.t, y.t) {
			return false
		}
		return fromBool(g.p.deepEq(x.t, x.v, y.v))
	}
}

func (p *Path) deepEq(t types.Type, x, y value) *Term {
	b := p.b
	switch u := t.Underlying().(type) {
	case *types.Slice:
		xs, ys := x.([]value), y.([]value)
		if (xs == nil) != (ys == nil) || len(xs) != len(ys) {
			return b.F
		}
		r := b.T
		for i := range xs {
			r = b.And(r, p.deepEq(u.Elem(), xs[i], ys[i]))
		}
		return r
	case *types.Array:
		xs, ys := x.(array), y.(array)
		r := b.T
		for i := range xs {
			r = b.And(r, p.deepEq(u.Elem(), xs[i], ys[i]))
		}
		return r
	case *types.Struct:
		xs, ys := x.(structure), y.(structure)
		r := b.T
		for i := range xs {
			r = b.And(r, p.deepEq(u.Field(i).Type(), xs[i], ys[i]))
		}
		return r
	case *types.Pointer:
		xp, yp := x.(*value), y.(*value)
		if xp == yp {
			return b.T
		}
		if xp == nil || yp == nil {
			return b.F
		}
		return p.deepEq(u.Elem(), *xp, *yp)
	case *types.Interface:
		xi, yi := x.(iface), y.(iface)
		if xi.t == nil || yi.t == nil {
			return b.Bool(xi.t == nil && yi.t == nil)
		}
		if !types.Identical(xi.t, yi.t) {
			return b.F
		}
		return p.deepEq(xi.t, xi.v, yi.v)
	case *types.Map:
		xm, ym := x.(*Map), y.(*Map)
		if xm == nil || ym == nil {
			return b.Bool(xm == nil && ym == nil)
		}
		if xm.live != ym.live {
			return b.F
		}
		r := b.T
		for _, e := range xm.ents {
			if e.deleted {
				continue
			}
			f := p.mapFind(ym, e.k)
			if f == nil {
				return b.F
			}
			r = b.And(r, p.deepEq(u.Elem(), e.v, f.v))
		}
		return r
	case *types.Signature:
		return b.Bool(isNilFunc(x) && isNilFunc(y))
	}
	return p.eq(t, x, y)
}

// method finds a method of a dynamic type by name.
func (p *Path) method(t types.Type, name string) *ssa.Function {
	ms := p.prog.ssa.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.prog.ssa.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (p *Path) unwrap(g *G, fr *frame, err iface) iface {
	m := p.method(err.t, "Unwrap")
	if m == nil || m.Signature.Results().Len() != 1 {
		return iface{}
	}
	if _, ok := m.Signature.Results().At(0).Type().Underlying().(*types.Interface); !ok {
		return iface{}
	}
	return p.call(g, fr, m, []value{err.v}).(iface)
}

var _ = sort.Strings

// rtypeVal is what a reflect.Type points to.
type rtypeVal struct{ t types.Type }

// reflVal is what a reflect.Value stands for: a value, or one at an address.
type reflVal struct {
	t    types.Type
	v    value
	addr *value
}
