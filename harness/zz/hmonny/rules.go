package hmonny

import (
	"regexp"
	"time"

	"github.com/BTBurke/monny/pkg/monny"
	"github.com/BTBurke/monny/zzverif/mos"
	"github.com/BTBurke/monny/zzverif/sym"
)

// matched runs a process that prints these lines on one stream and returns
// the matches that were recorded.
func matched(lines []string, onErr bool, rules ...monny.ConfigOption) []monny.RuleMatch {
	return paced(lines, onErr, len(lines) > 1, rules...)
}

func paced(lines []string, onErr, slow bool, rules ...monny.ConfigOption) []monny.RuleMatch {
	sym.Horizon(hour)
	sym.Ticks(0)
	p := &mos.Proc{Out: stream(text(lines), false)}
	if onErr {
		p.Out, p.Err = nil, stream(text(lines), false)
	}
	if slow {
		// one after the other, so that the checks of the rate do not overlap
		in := &mos.Stream{Feed: make(chan []byte)}
		p.Long, p.Out, p.Err = true, in, nil
		if onErr {
			p.Out, p.Err = nil, in
		}
		go func() {
			for _, l := range lines {
				in.Feed <- []byte(l + "\n")
				sym.Quiesce()
			}
			close(in.Feed)
			p.End()
		}()
	}
	before := time.Now()
	// with this quantity no alert is sent and every match is kept
	c := run(p, append(rules, monny.RuleQuantity("1000"), monny.NoNotifyOnSuccess())...)
	after := time.Now()
	for _, m := range c.RuleMatches {
		sym.Assert(!m.Time.Before(before) && !m.Time.After(after), "a match carries its time")
	}
	return c.RuleMatches
}

// position is where a match is.
type position struct{ from, to int }

// expected are the matches that should be recorded: the line and where.
type expected struct {
	line string
	at   []position
}

func agree(got []monny.RuleMatch, want []expected) {
	sym.Assert(len(got) == len(want), "there is one match for each rule whose pattern occurs in a line")
	for i := range got {
		sym.Assert(sym.EqString(got[i].Line, want[i].line), "a match carries the full line")
		sym.Assert(len(got[i].Index) == len(want[i].at), "a match carries all the places")
		for j, x := range got[i].Index {
			sym.Assert(len(x) == 2 && x[0] == want[i].at[j].from && x[1] == want[i].at[j].to, "a match carries where the pattern occurs")
		}
	}
}

// literal finds the places of a literal text.
func literal(s, lit string) []position {
	var out []position
	for i := 0; i+len(lit) <= len(s); {
		if s[i:i+len(lit)] == lit {
			out = append(out, position{i, i + len(lit)})
			i += len(lit)
		} else {
			i++
		}
	}
	return out
}

// symLine is any line of n bytes.
func symLine(n int) string {
	s := sym.String("line", n)
	for i := 0; i < n; i++ {
		sym.Assume(s[i] != '\n')
	}
	if n > 0 {
		sym.Assume(s[n-1] != '\r')
	}
	return s
}

// Literal: any line of n bytes, one or two literal rules. which: the patterns.
func Literal(n, which int) {
	pats := [][]string{{"x"}, {"ab"}, {"x", "y"}, {"aa", "a"}, {"x", "x"}}[which]
	s := symLine(n)
	var rules []monny.ConfigOption
	var want []expected
	for _, lit := range pats {
		rules = append(rules, monny.Rule(lit))
		if at := literal(s, lit); len(at) > 0 {
			want = append(want, expected{s, at})
		}
	}
	agree(matched([]string{s}, sym.Choose("stream", 2) == 1, rules...), want)
	if len(want) == len(pats) {
		sym.Cover("every rule matches")
	}
}

// Pattern: any line of n bytes and a regular expression. The places are those
// the library finds.
func Pattern(n, which int) {
	pat := []string{"[0-9]+", "^a.*b$", "x|yz", "(?i)err", "", "a?", "\\bx\\b"}[which]
	s := symLine(n)
	for i := 0; i < n; i++ {
		sym.Assume(s[i] < 0x80)
	}
	var want []expected
	if at := regexp.MustCompile(pat).FindAllStringIndex(s, -1); at != nil {
		e := expected{line: s}
		for _, x := range at {
			e.at = append(e.at, position{x[0], x[1]})
		}
		want = append(want, e)
	}
	agree(matched([]string{s}, false, monny.Rule(pat)), want)
	if len(want) > 0 {
		sym.Cover("matches")
	}
}

// Long: a line in which a pattern occurs many times, or far from its start: k
// copies of a piece, any n bytes, and the pieces again. which: the piece.
func Long(n, k, which int) {
	piece := []string{"x.", ".", "xx"}[which]
	side := ""
	for i := 0; i < k; i++ {
		side += piece
	}
	s := side + symLine(n) + side
	var want []expected
	if at := literal(s, "x"); len(at) > 0 {
		want = append(want, expected{s, at})
	}
	agree(matched([]string{s}, false, monny.Rule("x")), want)
	if len(want) > 0 {
		sym.Cover("matches")
	}
}

// Often: k lines that match one after the other, and then one of any one byte.
func Often(k int) {
	var all []string
	var want []expected
	for i := 0; i < k; i++ {
		s := "x"
		if i == k-1 {
			s = symLine(1)
		}
		all = append(all, s)
		if at := literal(s, "x"); len(at) > 0 {
			want = append(want, expected{s, at})
		}
	}
	agree(matched(all, sym.Choose("stream", 2) == 1, monny.Rule("x")), want)
	if len(want) == k {
		sym.Cover("every line matches")
	}
}

// Lines: n lines, each with any one byte, two rules: the matches are those of
// each line by itself, in order.
func Lines(n int) {
	var all []string
	var want []expected
	for i := 0; i < n; i++ {
		s := symLine(1)
		all = append(all, s)
		for _, lit := range []string{"x", "y"} {
			if at := literal(s, lit); len(at) > 0 {
				want = append(want, expected{s, at})
			}
		}
	}
	agree(matched(all, false, monny.Rule("x"), monny.Rule("y")), want)
	if len(want) == n {
		sym.Cover("every line matches")
	}
}

// AnyText: any line of n bytes never matches a JSON rule whose field it does
// not have, and never crashes the monitor.
func AnyText(n int) {
	s := symLine(n)
	// a JSON text this short has no field f
	got := matched([]string{s}, false, monny.JSONRule("f", "."), monny.JSONRule("f.g", "."))
	sym.Assert(len(got) == 0, "a line that is not JSON or lacks the field never matches")
}

// Framed: a JSON text with any n bytes in the place of the value.
func Framed(n, nested int) {
	v := symLine(n)
	for i := 0; i < n; i++ {
		sym.Assume(v[i] != '\r')
	}
	s := `{"f":` + v + `}`
	got := matched([]string{s}, false, monny.JSONRule("f", "^.$"), monny.JSONRule("f.g", "."))
	// "c": the one character is the value
	want := n == 3 && v[0] == '"' && v[2] == '"' && v[1] >= 0x20 && v[1] != '"' && v[1] != '\\' && v[1] < 0x80
	if want {
		sym.Assert(len(got) == 1, "a JSON rule matches the text of its field")
		sym.Assert(sym.EqString(got[0].Line, s), "a match carries the full line")
		sym.Assert(len(got[0].Index) == 1 && got[0].Index[0][0] == 0 && got[0].Index[0][1] == 1, "a match carries where the pattern occurs in the field")
		sym.Cover("matches")
	}
	for _, m := range got {
		sym.Assert(sym.EqString(m.Line, s), "a match carries the full line")
	}
	if n < 3 {
		sym.Assert(len(got) == 0, "a number or a broken text is not one character")
	}
}

// value of a field: its JSON text and the texts that are to be matched.
func value(kind int) (js string, text string, is bool) {
	switch kind {
	case 0:
		c := sym.Byte("char")
		sym.Assume(c >= ' ' && c < 0x7f && c != '"' && c != '\\')
		return `"` + string([]byte{c}) + `"`, string([]byte{c}), true
	case 1:
		return `"two xx"`, "two xx", true
	case 2:
		return `true`, "true", true
	case 3:
		return `false`, "false", true
	case 4:
		return `null`, "", false
	case 5:
		return `["x","y",true]`, "x\ny\ntrue", true
	case 6:
		return `[]`, "", true
	case 7:
		return `{"x":"x"}`, "", false
	case 8:
		return `[null,{"x":1},["x"],"x"]`, "x", true
	case 9:
		return `"\u0078\n"`, "x\n", true
	}
	return `""`, "", true
}

const kinds = 11

// Field: a document in which the field is at depth d (0: f, 1: a.f, 2: a.b.f),
// present with a value of any kind, absent, under something that is not an object, or
// with an outer part of its path missing.
func Field(d int) {
	path := []string{"f", "a.f", "a.b.f"}[d]
	js, val, is := value(sym.Choose("kind", kinds))
	doc := `{"f":` + js + `}`
	switch sym.Choose("shape", 5) {
	case 0:
	case 1: // beside other fields
		doc = `{"z":"x","f":` + js + `,"g":["x"]}`
	case 2: // absent
		doc = `{"g":` + js + `}`
		is = false
	case 3: // spaces
		doc = ` { "f" : ` + js + ` } `
	case 4: // not an object
		doc = js
		is = false
	}
	whole := is
	for i := 0; i < d; i++ {
		name := string([]byte{byte('a' + d - 1 - i)})
		switch sym.Choose("parent", 6) {
		case 0:
			doc = `{"` + name + `":` + doc + `}`
		case 1:
			doc = `{"f":"x","` + name + `":` + doc + `}`
		case 2:
			doc = `{"x":` + doc + `}`
			whole = false
		case 3:
			doc = `{"` + name + `":[` + doc + `]}`
			whole = false
		case 4: // an outer part is missing
			whole = false
		case 5:
			doc = `{"` + name + `":"x","x":` + doc + `}`
			whole = false
		}
	}
	pats := []string{"x", "^true$", "y"}
	var rules []monny.ConfigOption
	var want []expected
	for _, pat := range pats {
		rules = append(rules, monny.JSONRule(path, pat))
		if !whole {
			continue
		}
		var at []position
		if pat == "^true$" {
			if val == "true" {
				at = []position{{0, 4}}
			}
		} else {
			at = literal(val, pat)
		}
		if len(at) > 0 {
			want = append(want, expected{doc, at})
		}
	}
	agree(paced([]string{doc}, sym.Choose("stream", 2) == 1, true, rules...), want)
	if len(want) > 0 {
		sym.Cover("matches")
	}
}

// Number: the digits of a number can be matched.
func Number(which int) {
	pats := []string{"7", "^42", "-3", "0.5", "9"}
	num := []string{"7", "42", "-3", "0.5", "1e0"}[which]
	doc := `{"f":` + num + `}`
	if sym.Choose("list", 2) == 1 {
		doc = `{"f":[` + num + `]}`
	}
	got := matched([]string{doc}, false, monny.JSONRule("f", pats[which]))
	if which == 4 {
		sym.Assert(len(got) == 0, "a pattern that does not occur in the number does not match")
		return
	}
	sym.Assert(len(got) == 1 && got[0].Line == doc, "a JSON rule matches the text of a number")
}

// Both: plain and JSON rules on lines that are JSON or not.
func Both(n int) {
	var all []string
	var want []expected
	for i := 0; i < n; i++ {
		x := sym.Choose("line", 5)
		s := []string{`x`, `{"f":"x"}`, `{"f":"y","x":1}`, `{"f":"x"`, ``}[x]
		all = append(all, s)
		if at := literal(s, "x"); len(at) > 0 {
			want = append(want, expected{s, at})
		}
		if x == 1 {
			want = append(want, expected{s, []position{{0, 1}}})
		}
	}
	agree(matched(all, false, monny.Rule("x"), monny.JSONRule("f", "x")), want)
}

// Mixed: n rules of several kinds, in any order, the same one perhaps several
// times, on lines that match some of them: each rule is decided by itself.
func Mixed(n, lines int) {
	docs := []string{`{"f":"x","g":"y"}`, `{"f":"y","g":{"f":"x"}}`, `x`, `{"g":{"f":"y x"},"f":["x"]}`}
	texts := []map[string]string{
		{"f": "x", "g": "y"},
		{"f": "y", "g.f": "x"},
		{},
		{"f": "x", "g.f": "y x"},
	}
	kinds := []struct{ field, lit string }{{"", "x"}, {"f", "x"}, {"f", "y"}, {"g", "y"}, {"g.f", "x"}}
	var rules []monny.ConfigOption
	var ks []int
	for i := 0; i < n; i++ {
		k := sym.Choose("rule", len(kinds))
		ks = append(ks, k)
		if kinds[k].field == "" {
			rules = append(rules, monny.Rule(kinds[k].lit))
		} else {
			rules = append(rules, monny.JSONRule(kinds[k].field, kinds[k].lit))
		}
	}
	var all []string
	var want []expected
	for i := 0; i < lines; i++ {
		d := sym.Choose("line", len(docs))
		all = append(all, docs[d])
		for _, k := range ks {
			t := docs[d]
			if kinds[k].field != "" {
				t = texts[d][kinds[k].field]
			}
			if at := literal(t, kinds[k].lit); len(at) > 0 {
				want = append(want, expected{docs[d], at})
			}
		}
	}
	agree(paced(all, false, true, rules...), want)
	if len(want) > 0 {
		sym.Cover("matches")
	}
}
