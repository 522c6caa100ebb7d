package main

// Values of the symbolic interpreter.
//
//  bool kinds       bool | *Term (Bool)
//  integer kinds    int64 (canonical for its type) | *Term (bit-vector)
//  float kinds      float64 | *Term (Real, finite)
//  complex          complex128
//  string           string | *SStr (concrete length, symbolic bytes) | *Opaque
//  pointers         *value
//  struct/array     structure / array
//  slice            []value
//  map              *Map
//  chan             *Chan
//  func             *ssa.Function | *closure | *ssa.Builtin | *native
//  interface        iface

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"strconv"
	"strings"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

type value any
type structure []value
type array []value
type tuple []value

type iface struct {
	t types.Type
	v value
}

type closure struct {
	fn  *ssa.Function
	env []value
}

type native struct {
	name string
	f    func(g *G, args []value) value
}

// SStr is a string of concrete length with at least one symbolic byte.
type SStr struct{ b []value }

// Opaque is a string whose content is not modelled.
type Opaque struct{ desc string }

type unsafePtr struct{ s []value } // result of unsafe.SliceData / StringData

func isSigned(k types.BasicKind) bool {
	switch k {
	case types.Int, types.Int8, types.Int16, types.Int32, types.Int64, types.UntypedInt, types.UntypedRune:
		return true
	}
	return false
}

func widthOf(k types.BasicKind) int {
	switch k {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	}
	return 64
}

// ikind describes an integer type.
type ikind struct {
	w      int
	signed bool
}

func intKind(t types.Type) (ikind, bool) {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		return ikind{widthOf(b.Kind()), isSigned(b.Kind())}, true
	}
	return ikind{}, false
}

func (k ikind) canon(v uint64) int64 {
	if k.w >= 64 {
		return int64(v)
	}
	if k.signed {
		return sext(v&mask(k.w), k.w)
	}
	return int64(v & mask(k.w))
}

// toTerm converts an integer/bool/float value to a term.
func (p *Path) toTerm(v value, w int) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case int64:
		return p.b.BV(uint64(v), w)
	case bool:
		return p.b.Bool(v)
	case float64:
		if math.IsNaN(v) || math.IsInf(v, 0) {
			panic("toTerm: non-finite float")
		}
		return p.b.Rat(new(big.Rat).SetFloat64(v))
	}
	panic(fmt.Sprintf("toTerm: %T", v))
}

func (p *Path) fromTerm(t *Term, k ikind) value {
	if t.isConst() {
		return k.canon(t.c)
	}
	return t
}

func fromBool(t *Term) value {
	if t.isConst() {
		return t.c == 1
	}
	return t
}

func (p *Path) boolTerm(v value) *Term {
	switch v := v.(type) {
	case bool:
		return p.b.Bool(v)
	case *Term:
		return v
	}
	panic(fmt.Sprintf("boolTerm: %T", v))
}

// ---- strings ----

func strLen(p *Path, v value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *SStr:
		return len(s.b)
	}
	p.unsupported("length of %s", describe(v))
	return 0
}

func strBytes(p *Path, v value) []value {
	switch s := v.(type) {
	case string:
		r := make([]value, len(s))
		for i := 0; i < len(s); i++ {
			r[i] = int64(s[i])
		}
		return r
	case *SStr:
		return s.b
	}
	p.unsupported("bytes of %s", describe(v))
	return nil
}

func mkStr(b []value) value {
	for _, x := range b {
		if _, ok := x.(int64); !ok {
			return &SStr{append([]value(nil), b...)}
		}
	}
	r := make([]byte, len(b))
	for i, x := range b {
		r[i] = byte(x.(int64))
	}
	return string(r)
}

func (p *Path) strEq(x, y value) *Term {
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			return p.b.Bool(a == b)
		}
	}
	if _, ok := x.(*Opaque); ok && x == y {
		return p.b.T
	}
	a, b := strBytes(p, x), strBytes(p, y)
	if len(a) != len(b) {
		return p.b.F
	}
	r := p.b.T
	for i := range a {
		r = p.b.And(r, p.b.Eq(p.toTerm(a[i], 8), p.toTerm(b[i], 8)))
		if r.isFalse() {
			return r
		}
	}
	return r
}

func (p *Path) strLess(x, y value, orEq bool) *Term {
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			if orEq {
				return p.b.Bool(a <= b)
			}
			return p.b.Bool(a < b)
		}
	}
	a, b := strBytes(p, x), strBytes(p, y)
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	var r *Term
	if orEq {
		r = p.b.Bool(len(a) <= len(b))
	} else {
		r = p.b.Bool(len(a) < len(b))
	}
	for i := n - 1; i >= 0; i-- {
		ta, tb := p.toTerm(a[i], 8), p.toTerm(b[i], 8)
		r = p.b.Or(p.b.Cmp(OULt, ta, tb), p.b.And(p.b.Eq(ta, tb), r))
	}
	return r
}

func (p *Path) strConcat(x, y value) value {
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			return a + b
		}
		if a == "" {
			return y
		}
	}
	if b, ok := y.(string); ok && b == "" {
		return x
	}
	_, o1 := x.(*Opaque)
	_, o2 := y.(*Opaque)
	if o1 || o2 {
		return &Opaque{describe(x) + describe(y)}
	}
	a, b := strBytes(p, x), strBytes(p, y)
	r := make([]value, 0, len(a)+len(b))
	r = append(append(r, a...), b...)
	return mkStr(r)
}

func describe(v value) string {
	switch v := v.(type) {
	case nil:
		return "<nil>"
	case string:
		return strconv.Quote(v)
	case *SStr:
		var sb strings.Builder
		sb.WriteByte('"')
		for _, x := range v.b {
			if c, ok := x.(int64); ok {
				sb.WriteByte(byte(c))
			} else {
				sb.WriteByte('?')
			}
		}
		sb.WriteByte('"')
		return sb.String()
	case *Opaque:
		return "opaque(" + v.desc + ")"
	case *Term:
		if v.isConst() {
			return v.ref()
		}
		return "sym"
	case iface:
		if v.t == nil {
			return "nil"
		}
		return v.t.String() + "(" + describe(v.v) + ")"
	case *value:
		if v == nil {
			return "nil"
		}
		return "&" + fmt.Sprintf("%T", *v)
	case structure:
		var s []string
		for _, f := range v {
			s = append(s, describe(f))
		}
		return "{" + strings.Join(s, " ") + "}"
	case []value:
		var s []string
		for i, f := range v {
			if i > 20 {
				s = append(s, "...")
				break
			}
			s = append(s, describe(f))
		}
		return "[" + strings.Join(s, " ") + "]"
	case int64, bool, float64:
		return fmt.Sprint(v)
	}
	return fmt.Sprintf("%T", v)
}

// ---- zero values, copying ----

func zero(t types.Type) value {
	switch t := t.(type) {
	case *types.Basic:
		switch {
		case t.Kind() == types.UntypedNil:
			panic("untyped nil has no zero value")
		case t.Info()&types.IsBoolean != 0:
			return false
		case t.Info()&types.IsInteger != 0:
			return int64(0)
		case t.Info()&types.IsFloat != 0:
			return float64(0)
		case t.Info()&types.IsComplex != 0:
			return complex128(0)
		case t.Info()&types.IsString != 0:
			return ""
		case t.Kind() == types.UnsafePointer:
			return (*value)(nil)
		}
	case *types.Pointer:
		return (*value)(nil)
	case *types.Array:
		a := make(array, t.Len())
		for i := range a {
			a[i] = zero(t.Elem())
		}
		return a
	case *types.Named, *types.Alias:
		return zero(t.Underlying())
	case *types.Interface:
		return iface{}
	case *types.Slice:
		return []value(nil)
	case *types.Struct:
		s := make(structure, t.NumFields())
		for i := range s {
			s[i] = zero(t.Field(i).Type())
		}
		return s
	case *types.Tuple:
		if t.Len() == 1 {
			return zero(t.At(0).Type())
		}
		s := make(tuple, t.Len())
		for i := range s {
			s[i] = zero(t.At(i).Type())
		}
		return s
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.TypeParam:
		panic("zero of type parameter")
	}
	panic(fmt.Sprintf("zero: %T %v", t, t))
}

func copyVal(v value) value {
	switch v := v.(type) {
	case structure:
		r := make(structure, len(v))
		for i, x := range v {
			r[i] = copyVal(x)
		}
		return r
	case array:
		r := make(array, len(v))
		for i, x := range v {
			r[i] = copyVal(x)
		}
		return r
	}
	return v
}

func isNilFunc(v value) bool {
	switch f := v.(type) {
	case *ssa.Function:
		return f == nil
	case *closure:
		return f == nil
	case *native:
		return f == nil
	case *ssa.Builtin:
		return f == nil
	case nil:
		return true
	}
	return false
}

// eq compares two values of type t and yields a boolean term.
func (p *Path) eq(t types.Type, x, y value) *Term {
	b := p.b
	switch t := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsString != 0:
			return p.strEq(x, y)
		case t.Info()&types.IsInteger != 0:
			if a, ok := x.(int64); ok {
				if c, ok := y.(int64); ok {
					return b.Bool(a == c)
				}
			}
			w := widthOf(t.Kind())
			return b.Eq(p.toTerm(x, w), p.toTerm(y, w))
		case t.Info()&types.IsBoolean != 0:
			if a, ok := x.(bool); ok {
				if c, ok := y.(bool); ok {
					return b.Bool(a == c)
				}
			}
			return b.Eq(p.boolTerm(x), p.boolTerm(y))
		case t.Info()&types.IsFloat != 0:
			a, ok1 := x.(float64)
			c, ok2 := y.(float64)
			if ok1 && ok2 {
				return b.Bool(a == c)
			}
			if ok1 && (math.IsNaN(a) || math.IsInf(a, 0)) || ok2 && (math.IsNaN(c) || math.IsInf(c, 0)) {
				return b.F
			}
			return b.Eq(p.toTerm(x, wReal), p.toTerm(y, wReal))
		case t.Info()&types.IsComplex != 0:
			return b.Bool(x.(complex128) == y.(complex128))
		case t.Kind() == types.UnsafePointer:
			return b.Bool(x == y)
		}
	case *types.Pointer:
		if ux, ok := x.(unsafePtr); ok {
			uy, ok2 := y.(unsafePtr)
			return b.Bool(ok2 && unsafe.SliceData(ux.s) == unsafe.SliceData(uy.s))
		}
		return b.Bool(x == y)
	case *types.Chan:
		return b.Bool(x.(*Chan) == y.(*Chan))
	case *types.Map:
		return b.Bool(x.(*Map) == y.(*Map))
	case *types.Slice:
		// only comparison with nil
		return b.Bool((x.([]value) == nil) && (y.([]value) == nil))
	case *types.Signature:
		return b.Bool(isNilFunc(x) && isNilFunc(y))
	case *types.Interface:
		a, c := x.(iface), y.(iface)
		if a.t == nil || c.t == nil {
			return b.Bool(a.t == nil && c.t == nil)
		}
		if !types.Identical(a.t, c.t) {
			return b.F
		}
		if !types.Comparable(a.t) {
			p.goPanic("comparing uncomparable type " + a.t.String())
		}
		return p.eq(a.t, a.v, c.v)
	case *types.Struct:
		a, c := x.(structure), y.(structure)
		r := b.T
		for i := 0; i < t.NumFields(); i++ {
			if t.Field(i).Name() == "_" {
				continue
			}
			r = b.And(r, p.eq(t.Field(i).Type(), a[i], c[i]))
			if r.isFalse() {
				return r
			}
		}
		return r
	case *types.Array:
		a, c := x.(array), y.(array)
		r := b.T
		for i := range a {
			r = b.And(r, p.eq(t.Elem(), a[i], c[i]))
			if r.isFalse() {
				return r
			}
		}
		return r
	}
	panic(fmt.Sprintf("eq: %v", t))
}

// ---- maps ----

type mapEntry struct {
	k, v    value
	deleted bool
}

// Map keeps insertion order; concrete keys are indexed.
type Map struct {
	kt    types.Type
	ents  []*mapEntry
	index map[string]*mapEntry
	nsym  int // entries with symbolic keys
	live  int
	cell  value // race detector anchor
}

func newMap(kt types.Type) *Map {
	return &Map{kt: kt, index: map[string]*mapEntry{}}
}

// concKey renders a concrete key to a canonical string.
func concKey(v value) (string, bool) {
	switch v := v.(type) {
	case bool:
		if v {
			return "b1", true
		}
		return "b0", true
	case int64:
		return "i" + strconv.FormatInt(v, 10), true
	case float64:
		if v != v {
			return "", false
		}
		if v == 0 {
			v = 0
		}
		return "f" + strconv.FormatFloat(v, 'g', -1, 64), true
	case string:
		return "s" + strconv.Itoa(len(v)) + ":" + v, true
	case *value:
		return fmt.Sprintf("p%p", v), true
	case *Chan:
		return fmt.Sprintf("c%p", v), true
	case *Map:
		return fmt.Sprintf("m%p", v), true
	case iface:
		if v.t == nil {
			return "n", true
		}
		s, ok := concKey(v.v)
		return "I" + types.TypeString(v.t, nil) + "|" + s, ok
	case structure:
		r := "S"
		for _, f := range v {
			s, ok := concKey(f)
			if !ok {
				return "", false
			}
			r += s + ";"
		}
		return r, true
	case array:
		r := "A"
		for _, f := range v {
			s, ok := concKey(f)
			if !ok {
				return "", false
			}
			r += s + ";"
		}
		return r, true
	case unsafePtr:
		return fmt.Sprintf("u%p", unsafe.SliceData(v.s)), true
	}
	return "", false
}

func (p *Path) mapFind(m *Map, k value) *mapEntry {
	if m == nil {
		return nil
	}
	if i, ok := k.(iface); ok && i.t != nil && !types.Comparable(i.t) {
		p.goPanic("runtime error: hash of unhashable type " + i.t.String())
	}
	ck, conc := concKey(k)
	if conc {
		if e, ok := m.index[ck]; ok {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
	}
	for _, e := range m.ents {
		if e.deleted {
			continue
		}
		if conc {
			if _, c2 := concKey(e.k); c2 {
				continue
			}
		}
		if p.branch(p.eq(m.kt, e.k, k)) {
			return e
		}
	}
	return nil
}

func (p *Path) mapSet(m *Map, k, v value) {
	if e := p.mapFind(m, k); e != nil {
		e.v = v
		return
	}
	e := &mapEntry{k: copyVal(k), v: v}
	m.ents = append(m.ents, e)
	m.live++
	if ck, ok := concKey(k); ok {
		m.index[ck] = e
	} else {
		m.nsym++
	}
}

func (p *Path) mapDelete(m *Map, k value) {
	e := p.mapFind(m, k)
	if e == nil {
		return
	}
	e.deleted = true
	m.live--
	if ck, ok := concKey(e.k); ok {
		delete(m.index, ck)
	} else {
		m.nsym--
	}
	// compact
	if len(m.ents) > 32 && m.live*2 < len(m.ents) {
		var n []*mapEntry
		for _, x := range m.ents {
			if !x.deleted {
				n = append(n, x)
			}
		}
		m.ents = n
	}
}
