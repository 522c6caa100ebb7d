package hmetric

import (
	"github.com/BTBurke/monny/pkg/metric"
	"github.com/BTBurke/monny/zzverif/sym"
)

// word is a non-empty identifier of letters, digits, '-', '_', '.', '/'.
func word(label string, n int) string {
	b := sym.Bytes(label, n)
	for _, c := range b {
		ok := sym.And('a' <= c, c <= 'z')
		ok = sym.Or(ok, sym.And('A' <= c, c <= 'Z'))
		ok = sym.Or(ok, sym.And('0' <= c, c <= '9'))
		ok = sym.Or(ok, sym.Or(c == '-', sym.Or(c == '_', c == '.')))
		sym.Assume(ok)
	}
	return string(b)
}

// text is any non-empty ASCII text.
func text(label string, n int) string {
	b := sym.Bytes(label, n)
	for _, c := range b {
		sym.Assume(c < 0x80)
	}
	return string(b)
}

type kv struct{ k, v string }

// md is well-formed metadata with the given numbers of pairs and annotations,
// keys all different.
func md(label string, pairs, anns, vlen int) []kv {
	var out []kv
	for i := 0; i < pairs+anns; i++ {
		e := kv{k: word(label+".key", 1)}
		for _, o := range out {
			sym.Assume(sym.Not(sym.EqString(o.k, e.k)))
		}
		if i < pairs {
			e.v = text(label+".value", vlen)
		}
		out = append(out, e)
	}
	return out
}

func toMap(l []kv, backwards bool) map[string]string {
	m := map[string]string{}
	for i := range l {
		e := l[i]
		if backwards {
			e = l[len(l)-1-i]
		}
		m[e.k] = e.v
	}
	return m
}

// NameRender: the text is the same for every map order and has the documented
// shape.
func NameRender(pairs, anns, vlen int) {
	sym.MapOrder(true)
	l := md("m", pairs, anns, vlen)
	base := word("name", 1)
	n := metric.NewName(base, toMap(l, false))
	s := n.String()
	sym.Log("text", s)
	sym.Assert(len(s) > 1 && sym.EqString(s[:1], base), "the text starts with the name")
	sym.Assert(sym.And(s[1] == '[', s[len(s)-1] == ']'), "metadata stands inside one pair of brackets")
	n2 := metric.NewName(base, toMap(l, true))
	sym.Assert(sym.EqString(s, n2.String()), "the text does not depend on map order")
	// plain words render verbatim: k=v pairs sorted by key, annotations sorted
	if vlen == 1 {
		plain := true
		for i := range l {
			if i < pairs {
				c := l[i].v[0]
				plain = sym.And(plain, sym.And(sym.And(c > ' ', c != '"'), sym.And(c != '=', sym.And(c != 0x7f, c != '\\'))))
			}
		}
		srt := append([]kv(nil), l...)
		less := func(a, b kv) bool { return a.k[0] < b.k[0] }
		for i := 0; i < pairs; i++ {
			for j := i + 1; j < pairs; j++ {
				if less(srt[j], srt[i]) {
					srt[i], srt[j] = srt[j], srt[i]
				}
			}
		}
		for i := pairs; i < len(srt); i++ {
			for j := i + 1; j < len(srt); j++ {
				if less(srt[j], srt[i]) {
					srt[i], srt[j] = srt[j], srt[i]
				}
			}
		}
		want := base + "["
		for i, e := range srt {
			if i > 0 {
				want += " "
			}
			if i < pairs {
				want += e.k + "=" + e.v
			} else {
				want += "@" + e.k
			}
		}
		want += "]"
		if len(want) == len(s) {
			sym.Assert(sym.Implies(plain, sym.EqString(s, want)), "pairs sorted by key, then annotations sorted")
		} else {
			sym.Assert(sym.Not(plain), "pairs sorted by key, then annotations sorted")
		}
	}
	sym.Cover("rendered")
}

// NameNone: no metadata renders as the bare name.
func NameNone() {
	base := sym.String("name", 2)
	sym.Assert(sym.EqString(metric.NewName(base, nil).String(), base), "a name without metadata is its own text")
}

// NameDistinct: different well-formed metadata never render to the same text.
func NameDistinct(p1, a1, p2, a2, v1, v2 int) {
	x, y := md("x", p1, a1, v1), md("y", p2, a2, v2)
	if p1 == p2 && a1 == a2 && v1 == v2 {
		// equal sets of entries are excluded
		same := false
		switch len(x) {
		case 0:
			same = true
		case 1:
			same = eqkv(x[0], y[0])
		case 2:
			same = sym.Or(sym.And(eqkv(x[0], y[0]), eqkv(x[1], y[1])), sym.And(eqkv(x[0], y[1]), eqkv(x[1], y[0])))
		}
		sym.Assume(sym.Not(same))
	}
	base := "n"
	sx := metric.NewName(base, toMap(x, false)).String()
	sy := metric.NewName(base, toMap(y, false)).String()
	sym.Assert(sym.Not(sym.EqString(sx, sy)), "different well-formed metadata render differently")
	sym.Cover("rendered")
}

func eqkv(a, b kv) bool { return sym.And(sym.EqString(a.k, b.k), sym.EqString(a.v, b.v)) }

// NameCopy: a copy shares no metadata with its original.
func NameCopy(how int) {
	m := map[string]string{"host": "pod", "x": ""}
	k, v := word("key", 1), text("value", 1)
	var n metric.Name
	if how&1 == 0 {
		n = metric.NewName("n", m)
	} else {
		n = metric.NewName("n", nil)
	}
	before := n.String()
	c := metric.NewNameFrom(n)
	sym.Assert(sym.EqString(c.String(), before), "a copy renders like its original")
	sc := c.String()
	if how&2 == 0 {
		c.AddMetadata(map[string]string{k: v})
		c.AddAnnotation("z9")
		sym.Assert(sym.EqString(n.String(), before), "changing a copy leaves the original alone")
		sym.Assert(sym.Not(sym.EqString(c.String(), sc)), "added metadata and annotations show in the text")
	} else {
		n.AddMetadata(map[string]string{k: v})
		n.AddAnnotation("z9")
		sym.Assert(sym.EqString(c.String(), sc), "changing the original leaves the copy alone")
		sym.Assert(sym.Not(sym.EqString(n.String(), before)), "added metadata and annotations show in the text")
	}
}
