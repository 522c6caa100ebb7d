// Package hmonny holds the harnesses for pkg/monny. They drive the public
// interface: options, New, Exec and Wait, on top of models of the operating
// system, the child process and the connection to the report server.
package hmonny

import (
	"os"
	"strconv"
	"time"

	"github.com/BTBurke/monny/pkg/monny"
	"github.com/BTBurke/monny/zzverif/mos"
	"github.com/BTBurke/monny/zzverif/sym"
)

const hour = int64(time.Hour)

// lines splits data the way a log is split: at newlines, an unfinished last
// line counts, a carriage return before the newline does not.
func lines(data []byte) []string {
	var out []string
	cur := []byte{}
	for _, b := range data {
		if b == '\n' {
			out = append(out, chomp(cur))
			cur = []byte{}
			continue
		}
		cur = append(cur, b)
	}
	if len(cur) > 0 {
		out = append(out, chomp(cur))
	}
	return out
}

func chomp(b []byte) string {
	if n := len(b); n > 0 && b[n-1] == '\r' {
		return string(b[:n-1])
	}
	return string(b)
}

func text(lines []string) []byte {
	var out []byte
	for _, l := range lines {
		out = append(out, l...)
		out = append(out, '\n')
	}
	return out
}

func tail(l []string, n int) []string {
	if len(l) > n {
		return l[len(l)-n:]
	}
	return l
}

func written(f *os.File, want []string) {
	var all []byte
	for _, x := range mos.Of(f).Writes {
		all = append(all, x...)
	}
	exp := text(want)
	sym.Assert(len(all) == len(exp) && sym.EqString(string(all), string(exp)), "each line is written to monny's stream once, in order")
}

func same(got, want []string, label string) {
	sym.Assert(len(got) == len(want), label)
	for i := range got {
		sym.Assert(sym.EqString(got[i], want[i]), label)
	}
}

func chunks(n int) []int {
	var out []int
	for n > 0 {
		k := 1 + sym.Choose("chunk", n)
		out = append(out, k)
		n -= k
	}
	return out
}

func stream(data []byte, cut bool) *mos.Stream {
	s := &mos.Stream{Data: append([]byte(nil), data...)}
	if cut {
		s.Sizes = chunks(len(data))
	}
	return s
}

func itoa(n int) string { return strconv.Itoa(n) }

// create makes a command for the process p.
func create(p *mos.Proc, opts ...monny.ConfigOption) *monny.Command {
	mos.Next = p
	c, errs := monny.New([]string{"prog", "arg"}, append([]monny.ConfigOption{monny.ID("me")}, opts...)...)
	sym.Assert(len(errs) == 0 && c != nil, "a valid configuration creates a command")
	return c
}

// run executes the process to its end.
func run(p *mos.Proc, opts ...monny.ConfigOption) *monny.Command {
	c := create(p, opts...)
	sym.Assert(c.Exec() == nil, "the process is run")
	sym.Assert(c.Wait() == nil, "monny waits for its reports")
	return c
}
