package main

// fmt on interpreted values. Concrete operands are rendered exactly; a
// symbolic string under a plain %s/%v is spliced; anything else symbolic
// yields an opaque string.

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func registerFmt(I map[string]intrinsic) {
	I["fmt.Sprintf"] = func(g *G, fr *frame, a []value) value {
		s, _ := g.p.sprintf(g, fr, str(g.p, a[0]), a[1].([]value))
		return s
	}
	I["fmt.Sprint"] = func(g *G, fr *frame, a []value) value { return g.p.sprint(g, fr, a[0].([]value), false) }
	I["fmt.Sprintln"] = func(g *G, fr *frame, a []value) value { return g.p.sprint(g, fr, a[0].([]value), true) }
	I["fmt.Errorf"] = func(g *G, fr *frame, a []value) value {
		p := g.p
		args := a[1].([]value)
		var s value
		var wrapped []int
		if _, ok := a[0].(string); ok {
			s, wrapped = p.sprintf(g, fr, str(p, a[0]), args)
		} else {
			s = &Opaque{"format"}
		}
		fp := p.prog.pkgs["fmt"]
		if len(wrapped) == 1 {
			t := fp.Type("wrapError").Type()
			cell := new(value)
			e := args[wrapped[0]].(iface)
			*cell = structure{s, e}
			return iface{types.NewPointer(t), cell}
		}
		if len(wrapped) > 1 {
			t := fp.Type("wrapErrors").Type()
			cell := new(value)
			var es []value
			for _, i := range wrapped {
				es = append(es, args[i])
			}
			*cell = structure{s, es}
			return iface{types.NewPointer(t), cell}
		}
		return p.call(g, fr, p.prog.pkgs["errors"].Func("New"), []value{s})
	}
	write := func(g *G, fr *frame, w iface, s value) value {
		p := g.p
		if w.t == nil {
			p.goPanic("invalid memory address or nil pointer dereference")
		}
		if _, ok := s.(*Opaque); ok {
			s = "<opaque>"
		}
		m := p.method(w.t, "Write")
		bs := append([]value(nil), strBytes(p, s)...)
		if bs == nil {
			bs = []value{}
		}
		return p.call(g, fr, m, []value{w.v, bs})
	}
	I["fmt.Fprintf"] = func(g *G, fr *frame, a []value) value {
		s, _ := g.p.sprintf(g, fr, str(g.p, a[1]), a[2].([]value))
		return write(g, fr, a[0].(iface), s)
	}
	I["fmt.Fprint"] = func(g *G, fr *frame, a []value) value {
		return write(g, fr, a[0].(iface), g.p.sprint(g, fr, a[1].([]value), false))
	}
	I["fmt.Fprintln"] = func(g *G, fr *frame, a []value) value {
		return write(g, fr, a[0].(iface), g.p.sprint(g, fr, a[1].([]value), true))
	}
	out := func(g *G, s value) value {
		g.p.output = append(g.p.output, describe(s))
		return tuple{int64(0), iface{}}
	}
	I["fmt.Printf"] = func(g *G, fr *frame, a []value) value {
		s, _ := g.p.sprintf(g, fr, str(g.p, a[0]), a[1].([]value))
		return out(g, s)
	}
	I["fmt.Print"] = func(g *G, fr *frame, a []value) value { return out(g, g.p.sprint(g, fr, a[0].([]value), false)) }
	I["fmt.Println"] = func(g *G, fr *frame, a []value) value { return out(g, g.p.sprint(g, fr, a[0].([]value), true)) }
}

func (p *Path) sprint(g *G, fr *frame, args []value, ln bool) value {
	var r value = ""
	prevStr := true
	for i, a := range args {
		it := a.(iface)
		isStr := false
		if it.t != nil {
			if b, ok := it.t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				isStr = true
			}
		}
		if i > 0 && (ln || (!isStr && !prevStr)) {
			r = p.strConcat(r, " ")
		}
		r = p.strConcat(r, p.fmtArg(g, fr, 'v', "", it, 0))
		prevStr = isStr
	}
	if ln {
		r = p.strConcat(r, "\n")
	}
	return r
}

func (p *Path) sprintf(g *G, fr *frame, f string, args []value) (value, []int) {
	var r value = ""
	var wrapped []int
	ai := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			r = p.strConcat(r, f[i:])
			break
		}
		r = p.strConcat(r, f[i:i+j])
		i += j + 1
		st := i
		for i < len(f) && strings.IndexByte("+-# 0123456789.[]*", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			r = p.strConcat(r, "%!(NOVERB)")
			break
		}
		flags := f[st:i]
		verb := f[i]
		i++
		if strings.ContainsAny(flags, "[]*") {
			p.unsupported("format flags %q", flags)
		}
		if verb == '%' {
			r = p.strConcat(r, "%")
			continue
		}
		if ai >= len(args) {
			r = p.strConcat(r, "%!"+string(verb)+"(MISSING)")
			continue
		}
		if verb == 'w' {
			if it := args[ai].(iface); it.t != nil && p.method(it.t, "Error") != nil {
				wrapped = append(wrapped, ai)
			}
			verb = 'v'
		}
		r = p.strConcat(r, p.fmtArg(g, fr, verb, flags, args[ai].(iface), 0))
		ai++
	}
	if ai < len(args) {
		var r2 value = "%!(EXTRA "
		for k := ai; k < len(args); k++ {
			if k > ai {
				r2 = p.strConcat(r2, ", ")
			}
			it := args[k].(iface)
			if it.t != nil {
				r2 = p.strConcat(r2, typeStr(it.t)+"=")
			}
			r2 = p.strConcat(r2, p.fmtArg(g, fr, 'v', "", it, 0))
		}
		r = p.strConcat(p.strConcat(r, r2), ")")
	}
	return r, wrapped
}

func typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (p *Path) fmtArg(g *G, fr *frame, verb byte, flags string, a iface, depth int) value {
	if depth > 8 {
		return &Opaque{"deep"}
	}
	spec := "%" + flags + string(verb)
	if a.t == nil {
		if verb == 'T' || verb == 'v' {
			return fmt.Sprintf("%"+strings.Trim(flags, "+#0")+"v", "<nil>")
		}
		return "%!" + string(verb) + "(<nil>)"
	}
	if verb == 'T' {
		return typeStr(a.t)
	}
	if verb == 'p' {
		return &Opaque{"pointer"}
	}
	if strings.IndexByte("vsxXq", verb) >= 0 && !strings.Contains(flags, "#") {
		for _, mn := range []string{"Error", "String"} {
			m := p.method(a.t, mn)
			if m == nil || m.Signature.Params().Len() != 0 || m.Signature.Results().Len() != 1 {
				continue
			}
			if !exportedMeth(m, a.t) {
				continue
			}
			if ptr, ok := a.v.(*value); ok && ptr == nil {
				return "<nil>"
			}
			s := p.call(g, fr, m, []value{a.v})
			return p.fmtStr(spec, flags, verb, s)
		}
	}
	return p.fmtPlain(g, fr, verb, flags, a, depth)
}

func exportedMeth(m *ssa.Function, t types.Type) bool { return true }

func (p *Path) fmtStr(spec, flags string, verb byte, s value) value {
	if c, ok := s.(string); ok {
		return fmt.Sprintf(spec, c)
	}
	if flags == "" && (verb == 's' || verb == 'v') {
		return s
	}
	return &Opaque{"fmt"}
}

func (p *Path) fmtPlain(g *G, fr *frame, verb byte, flags string, a iface, depth int) value {
	spec := "%" + flags + string(verb)
	switch u := a.t.Underlying().(type) {
	case *types.Basic:
		switch v := a.v.(type) {
		case bool:
			return fmt.Sprintf(spec, v)
		case int64:
			switch u.Kind() {
			case types.Int:
				return fmt.Sprintf(spec, int(v))
			case types.Int8:
				return fmt.Sprintf(spec, int8(v))
			case types.Int16:
				return fmt.Sprintf(spec, int16(v))
			case types.Int32:
				return fmt.Sprintf(spec, int32(v))
			case types.Int64:
				return fmt.Sprintf(spec, v)
			case types.Uint8:
				return fmt.Sprintf(spec, uint8(v))
			case types.Uint16:
				return fmt.Sprintf(spec, uint16(v))
			case types.Uint32:
				return fmt.Sprintf(spec, uint32(v))
			default:
				return fmt.Sprintf(spec, uint64(v))
			}
		case float64:
			if u.Kind() == types.Float32 {
				return fmt.Sprintf(spec, float32(v))
			}
			return fmt.Sprintf(spec, v)
		case complex128:
			return fmt.Sprintf(spec, v)
		case string, *SStr, *Opaque:
			return p.fmtStr(spec, flags, verb, v)
		case *Term:
			if v.w == wBool {
				if p.branch(v) {
					return fmt.Sprintf(spec, true)
				}
				return fmt.Sprintf(spec, false)
			}
			if v.w != wReal && flags == "" && (verb == 'd' || verb == 'v') {
				return p.decimal(v, isSigned(u.Kind()))
			}
			return &Opaque{"fmt"}
		case *value:
			return &Opaque{"pointer"}
		}
	case *types.Pointer:
		ptr := a.v.(*value)
		if ptr == nil {
			return "<nil>"
		}
		if depth == 0 {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Slice, *types.Array, *types.Map:
				return p.strConcat("&", p.fmtArgNested(g, fr, verb, flags, iface{u.Elem(), *ptr}, depth+1))
			}
		}
		return &Opaque{"pointer"}
	case *types.Slice, *types.Array:
		var elems []value
		var et types.Type
		if sl, ok := u.(*types.Slice); ok {
			et = sl.Elem()
			elems, _ = a.v.([]value)
		} else {
			et = u.(*types.Array).Elem()
			elems = []value(a.v.(array))
		}
		if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && strings.IndexByte("sqxX", verb) >= 0 {
			return p.fmtStr(spec, flags, verb, mkStr(elems))
		}
		var r value = "["
		for i, e := range elems {
			if i > 0 {
				r = p.strConcat(r, " ")
			}
			r = p.strConcat(r, p.fmtElem(g, fr, verb, flags, et, e, depth+1))
		}
		return p.strConcat(r, "]")
	case *types.Map:
		m := a.v.(*Map)
		if m == nil {
			return "map[]"
		}
		type kv struct{ k, v value }
		var kvs []kv
		for _, e := range m.ents {
			if e.deleted {
				continue
			}
			kvs = append(kvs, kv{p.fmtElem(g, fr, verb, flags, u.Key(), e.k, depth+1), p.fmtElem(g, fr, verb, flags, u.Elem(), e.v, depth+1)})
		}
		sort.SliceStable(kvs, func(i, j int) bool { return describe(kvs[i].k) < describe(kvs[j].k) })
		var r value = "map["
		for i, e := range kvs {
			if i > 0 {
				r = p.strConcat(r, " ")
			}
			r = p.strConcat(p.strConcat(p.strConcat(r, e.k), ":"), e.v)
		}
		return p.strConcat(r, "]")
	case *types.Struct:
		st := a.v.(structure)
		var r value = "{"
		for i := range st {
			if i > 0 {
				r = p.strConcat(r, " ")
			}
			if strings.Contains(flags, "+") {
				r = p.strConcat(r, u.Field(i).Name()+":")
			}
			r = p.strConcat(r, p.fmtElem(g, fr, verb, flags, u.Field(i).Type(), st[i], depth+1))
		}
		return p.strConcat(r, "}")
	case *types.Chan, *types.Signature:
		return &Opaque{"pointer"}
	}
	return &Opaque{"fmt:" + a.t.String()}
}

func (p *Path) fmtArgNested(g *G, fr *frame, verb byte, flags string, a iface, depth int) value {
	return p.fmtPlain(g, fr, verb, flags, a, depth)
}

func (p *Path) fmtElem(g *G, fr *frame, verb byte, flags string, t types.Type, v value, depth int) value {
	if it, ok := v.(iface); ok {
		if it.t == nil {
			return "<nil>"
		}
		return p.fmtArg(g, fr, verb, flags, it, depth)
	}
	return p.fmtArg(g, fr, verb, flags, iface{t, v}, depth)
}

var _ = strconv.Itoa
