package hmonny

import (
	"os"

	"github.com/BTBurke/monny/pkg/monny"
	"github.com/BTBurke/monny/zzverif/mos"
	"github.com/BTBurke/monny/zzverif/mrollbar"
	"github.com/BTBurke/monny/zzverif/sym"
)

// Output: any n bytes on stdout and m on stderr, read in any pieces.
func Output(n, m, hout, herr int) {
	sym.Horizon(hour)
	sym.Ticks(0)
	a, b := sym.Bytes("stdout", n), sym.Bytes("stderr", m)
	la, lb := lines(a), lines(b)
	p := &mos.Proc{Out: stream(a, true), Err: stream(b, true)}
	c := run(p, monny.StdoutHistory(itoa(hout)), monny.StderrHistory(itoa(herr)), monny.NoNotifyOnSuccess())
	written(os.Stdout, la)
	written(os.Stderr, lb)
	same(c.Stdout, tail(la, hout), "the most recent lines of stdout are kept")
	same(c.Stderr, tail(lb, herr), "the most recent lines of stderr are kept")
	if len(la) > hout && len(lb) > 0 {
		sym.Cover("more lines than are kept")
	}
}

// OutputMany: n lines of any content (of ASCII beyond four lines) on one stream,
// hist lines kept (-1: the default of 30).
func OutputMany(n, hist, errStream int) {
	sym.Horizon(hour)
	sym.Ticks(0)
	var all []string
	for i := 0; i < n; i++ {
		s := sym.String("line", 1)
		sym.Assume(s[0] != '\n' && s[0] != '\r')
		if n > 4 {
			sym.Assume(s[0] < 0x80)
		}
		all = append(all, s)
	}
	p := &mos.Proc{}
	var opts []monny.ConfigOption
	if errStream == 1 {
		p.Err = stream(text(all), false)
		if hist >= 0 {
			opts = append(opts, monny.StderrHistory(itoa(hist)))
		}
	} else {
		p.Out = stream(text(all), false)
		if hist >= 0 {
			opts = append(opts, monny.StdoutHistory(itoa(hist)))
		}
	}
	c := run(p, append(opts, monny.NoNotifyOnSuccess())...)
	if hist < 0 {
		hist = 30
	}
	if errStream == 1 {
		same(c.Stderr, tail(all, hist), "the most recent lines of stderr are kept")
		same(c.Stdout, nil, "nothing else is kept of stdout")
		written(os.Stderr, all)
		written(os.Stdout, nil)
	} else {
		same(c.Stdout, tail(all, hist), "the most recent lines of stdout are kept")
		same(c.Stderr, nil, "nothing else is kept of stderr")
		written(os.Stdout, all)
		written(os.Stderr, nil)
	}
}

// OutputLong: a line of kb kilobytes between two short ones.
func OutputLong(kb, errStream int) {
	sym.Horizon(hour)
	sym.Ticks(0)
	line := make([]byte, kb*1024)
	for i := range line {
		line[i] = 'x'
	}
	all := []string{"first", string(line), "last"}
	p := &mos.Proc{}
	f, other := os.Stdout, os.Stderr
	if errStream == 1 {
		p.Err = stream(text(all), false)
		f, other = other, f
	} else {
		p.Out = stream(text(all), false)
	}
	c := run(p, monny.NoNotifyOnSuccess())
	written(f, all)
	written(other, nil)
	if errStream == 1 {
		same(c.Stderr, all, "a long line is kept like any other")
	} else {
		same(c.Stdout, all, "a long line is kept like any other")
	}
	sym.Assert(c.Success, "a long line does not change the outcome")
}

// OutputFailing: one of monny's own streams (0: its output, 1: its error
// stream) fails on any writes; the lines are kept all the same, each failed
// line is reported, and the other stream is served.
func OutputFailing(n, which int) {
	sym.Horizon(hour)
	sym.Ticks(0)
	var a []string
	for i := 0; i < n; i++ {
		a = append(a, "o"+itoa(i))
	}
	f, other := os.Stdout, os.Stderr
	if which == 1 {
		f, other = other, f
	}
	for i := 0; i < n; i++ {
		if sym.Choose("fails", 2) == 1 {
			mos.Of(f).Fail[2*i] = true
		}
	}
	b := []string{"e0", "e1"}
	p := &mos.Proc{Out: stream(text(a), false), Err: stream(text(b), false)}
	if which == 1 {
		p.Out, p.Err = p.Err, p.Out
	}
	c := run(p, monny.NoNotifyOnSuccess())
	x, y := c.Stdout, c.Stderr
	if which == 1 {
		x, y = y, x
	}
	same(x, a, "lines that could not be written are kept")
	same(y, b, "the other stream is kept")
	written(other, b)
	fails := mos.Of(f).Failed
	sym.Assert(len(mrollbar.Errors) >= fails, "a failed write is reported")
	if fails == 0 {
		sym.Assert(len(mrollbar.Errors) == 0, "nothing is reported when nothing fails")
	}
	sym.Assert(c.Success, "a failed write does not change the outcome")
}
