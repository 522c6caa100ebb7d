package hproc

import (
	"context"
	"errors"
	"os"
	"os/exec"

	"github.com/BTBurke/monny/pkg/eventbus"
	"github.com/BTBurke/monny/pkg/monny/proc"
	"github.com/BTBurke/monny/zzverif/mos"
	"github.com/BTBurke/monny/zzverif/sym"
)

// lines splits data the way a log is split: at newlines, an unfinished last
// line counts, a carriage return before the newline does not.
func lines(data []byte) []string {
	var out []string
	cur := []byte{}
	for _, b := range data {
		if b == '\n' {
			out = append(out, chomp(cur))
			cur = []byte{}
			continue
		}
		cur = append(cur, b)
	}
	if len(cur) > 0 {
		out = append(out, chomp(cur))
	}
	return out
}

func chomp(b []byte) string {
	if n := len(b); n > 0 && b[n-1] == '\r' {
		return string(b[:n-1])
	}
	return string(b)
}

func written(f *os.File, want []string) {
	w := mos.Of(f).Writes
	var all []byte
	for _, x := range w {
		all = append(all, x...)
	}
	var exp []byte
	for _, s := range want {
		exp = append(exp, s...)
		exp = append(exp, '\n')
	}
	sym.Assert(len(all) == len(exp) && sym.EqString(string(all), string(exp)), "each line is written to its sink once, in order, followed by a newline")
}

func tail(l []string, n int) []string {
	if len(l) > n {
		return l[len(l)-n:]
	}
	return l
}

type collected struct {
	lines []string
	errs  []eventbus.Event
}

// collect receives everything on a channel that is ready.
func collect(c chan eventbus.Event, out *collected) {
	for {
		sym.Quiesce()
		select {
		case e := <-c:
			if e.Type() == proc.LogLine {
				var l proc.LogEvent
				sym.Assert(e.Decode(&l) == nil, "a log event decodes")
				out.lines = append(out.lines, string(l.Line))
			} else {
				out.errs = append(out.errs, e)
			}
		default:
			return
		}
	}
}

// published: one event per line, in any order.
func published(got, want []string) {
	sym.Assert(len(got) == len(want), "each line is published once")
	used := make([]bool, len(got))
	for _, w := range want {
		found := false
		for i, g := range got {
			if !used[i] && g == w {
				used[i] = true
				found = true
				break
			}
		}
		sym.Assert(found, "each line is published once, as it was")
	}
}

// chunks cuts n bytes into pieces in any way.
func chunks(n int) []int {
	var out []int
	for n > 0 {
		k := 1 + sym.Choose("chunk", n)
		out = append(out, k)
		n -= k
	}
	return out
}

func streams(a, b []byte, cut bool) *exec.Cmd {
	cmd := &exec.Cmd{Path: "/bin/x"}
	s, t := &mos.Stream{Data: a}, &mos.Stream{Data: b}
	if cut {
		s.Sizes, t.Sizes = chunks(len(a)), chunks(len(b))
	}
	mos.Pipes[cmd] = [2]*mos.Stream{s, t}
	return cmd
}

// Text: any n bytes on stdout and m on stderr of a wrapped process, read in
// any pieces, with a history of hist lines.
func Text(n, m, hist int) {
	a, b := sym.Bytes("stdout", n), sym.Bytes("stderr", m)
	la, lb := lines(a), lines(b)
	cmd := streams(append([]byte(nil), a...), append([]byte(nil), b...), true)
	eb := eventbus.New()
	c, _ := eb.Subscribe(proc.LogTopic)
	l, err := proc.NewLogProcessor(eb, proc.WithCommand(cmd), proc.WithHistory(hist))
	sym.Assert(err == nil, "a log processor is created")
	sym.Assert(l.Wait(context.Background()) == nil, "all logs are processed")
	written(os.Stdout, la)
	written(os.Stderr, lb)
	same(proc.ZZHistory(l, 0), tail(la, hist), "the most recent lines are remembered")
	same(proc.ZZHistory(l, 1), tail(lb, hist), "the most recent lines are remembered")
	var got collected
	collect(c, &got)
	published(got.lines, append(append([]string(nil), la...), lb...))
	sym.Assert(len(got.errs) == 0, "nothing else is published on the log topic")
	if len(la) > 1 && len(lb) > 0 {
		sym.Cover("several lines")
	}
}

// Piped: monny at the end of a pipe.
func Piped(n, hist int) {
	a := sym.Bytes("stdin", n)
	la := lines(a)
	mos.In[os.Stdin] = &mos.Stream{Data: append([]byte(nil), a...), Sizes: chunks(n)}
	eb := eventbus.New()
	c, _ := eb.Subscribe(proc.LogTopic)
	l, err := proc.NewLogProcessor(eb, proc.WithHistory(hist), proc.WithCommand(&exec.Cmd{}))
	sym.Assert(err == nil, "a log processor is created")
	sym.Assert(l.Wait(context.Background()) == nil, "all logs are processed")
	written(os.Stdout, la)
	written(os.Stderr, nil)
	same(proc.ZZHistory(l, 0), tail(la, hist), "the most recent lines are remembered")
	var got collected
	collect(c, &got)
	published(got.lines, la)
}

// Options: every combination of options in every order has the effect of the
// combination.
func Options(k int) {
	cmd := streams([]byte("o1\no2\n"), []byte("e1\ne2\n"), false)
	hist := sym.Choose("history", 3)
	all := []proc.LogProcessorOption{
		proc.WithCommand(cmd), proc.WithHistory(hist), proc.WithNoOutput(), proc.WithNoStderrOutput(), proc.WithNoStdoutOutput(), proc.WithNoStdoutInput(), proc.WithNoStderrInput(),
	}
	on := make([]bool, len(all))
	on[0], on[1] = true, true
	var opts []proc.LogProcessorOption
	// k further options, in any order
	var pick []int
	for i := 0; i < k; i++ {
		j := 2 + sym.Choose("option", len(all)-2)
		if on[j] {
			sym.Stop()
		}
		on[j] = true
		pick = append(pick, j)
	}
	// the command and the history anywhere among them
	for _, j := range []int{0, 1} {
		at := sym.Choose("position", len(pick)+1)
		pick = append(pick[:at], append([]int{j}, pick[at:]...)...)
	}
	for _, j := range pick {
		opts = append(opts, all[j])
	}
	l, err := proc.NewLogProcessor(eventbus.New(), opts...)
	sym.Assert(err == nil, "a log processor is created")
	sym.Assert(l.Wait(context.Background()) == nil, "all logs are processed")
	var lo, le []string
	var hists [][]string
	if !on[5] {
		lo = []string{"o1", "o2"}
		hists = append(hists, tail(lo, hist))
	}
	if !on[6] {
		le = []string{"e1", "e2"}
		hists = append(hists, tail(le, hist))
	}
	sym.Assert(proc.ZZSources(l) == len(hists), "the options select the sources")
	for i := range hists {
		same(proc.ZZHistory(l, i), hists[i], "the history size applies to every source")
	}
	var wo, we []string
	if !on[2] && !on[4] {
		wo = lo
	}
	if !on[2] && !on[3] {
		we = le
	}
	written(os.Stdout, wo)
	written(os.Stderr, we)
	sym.Cover("combination")
}

// Defaults: without a history option 30 lines are kept.
func Defaults() {
	var data []byte
	var want []string
	for i := 0; i < 33; i++ {
		s := "l" + string(rune('a'+i/10)) + string(rune('0'+i%10))
		want = append(want, s)
		data = append(data, s+"\n"...)
	}
	mos.In[os.Stdin] = &mos.Stream{Data: data}
	l, err := proc.NewLogProcessor(eventbus.New(), proc.WithCommand(&exec.Cmd{}))
	sym.Assert(err == nil, "a log processor is created")
	sym.Assert(l.Wait(context.Background()) == nil, "all logs are processed")
	same(proc.ZZHistory(l, 0), want[3:], "30 lines are kept by default")
}

// Failing: writes to a sink fail at any calls; the other lines and the other
// sink are not affected and each failure is published as an error event.
func Failing(n int) {
	var data []byte
	var la []string
	for i := 0; i < n; i++ {
		la = append(la, "o"+string(rune('0'+i)))
		data = append(data, la[i]+"\n"...)
	}
	cmd := streams(data, []byte("e1\ne2\n"), false)
	eb := eventbus.New()
	c, _ := eb.Subscribe(eventbus.OnErrorTopic())
	cl, _ := eb.Subscribe(proc.LogTopic)
	fails := 0
	var want []string
	for i := 0; i < n; i++ {
		if sym.Choose("fail", 2) == 1 {
			mos.Of(os.Stdout).Fail[i] = true
			fails++
		} else {
			want = append(want, la[i])
		}
	}
	l, err := proc.NewLogProcessor(eb, proc.WithCommand(cmd))
	sym.Assert(err == nil, "a log processor is created")
	sym.Assert(l.Wait(context.Background()) == nil, "all logs are processed")
	written(os.Stdout, want)
	written(os.Stderr, []string{"e1", "e2"})
	same(proc.ZZHistory(l, 0), la, "the most recent lines are remembered")
	var got, logs collected
	collect(c, &got)
	sym.Assert(len(got.errs) == fails && len(got.lines) == 0, "each failed write is published as an error event")
	for _, e := range got.errs {
		var s string
		sym.Assert(e.Decode(&s) == nil && s != "", "an error event tells what failed")
	}
	collect(cl, &logs)
	published(logs.lines, append(append([]string(nil), la...), "e1", "e2"))
	if fails > 0 {
		sym.Cover("failed")
	}
}

// Sinks: a source with several sinks, any of which fails at any call.
func Sinks(n int) {
	var data []byte
	var la []string
	for i := 0; i < n; i++ {
		la = append(la, "i"+string(rune('0'+i)))
		data = append(data, la[i]+"\n"...)
	}
	mos.In[os.Stdin] = &mos.Stream{Data: data}
	// monny's own input is copied to every sink; with a command besides these are
	// its stdout, twice, and its stderr
	cmd := streams(nil, nil, false)
	opts := []proc.LogProcessorOption{proc.WithCommand(&exec.Cmd{}), proc.WithCommand(cmd)}
	if sym.Choose("order", 2) == 1 {
		opts[0], opts[1] = opts[1], opts[0]
	}
	eb := eventbus.New()
	c, _ := eb.Subscribe(eventbus.OnErrorTopic())
	fails := 0
	var wo, we []string
	for i := 0; i < n; i++ {
		for j := 0; j < 2; j++ {
			if sym.Choose("fail", 2) == 1 {
				mos.Of(os.Stdout).Fail[2*i+j] = true
				fails++
			} else {
				wo = append(wo, la[i])
			}
		}
		if sym.Choose("fail", 2) == 1 {
			mos.Of(os.Stderr).Fail[i] = true
			fails++
		} else {
			we = append(we, la[i])
		}
	}
	l, err := proc.NewLogProcessor(eb, opts...)
	sym.Assert(err == nil, "a log processor is created")
	sym.Assert(l.Wait(context.Background()) == nil, "all logs are processed")
	written(os.Stdout, wo)
	written(os.Stderr, we)
	var got collected
	collect(c, &got)
	sym.Assert(len(got.errs) == fails && len(got.lines) == 0, "each failed write is published as an error event")
}

// Long: lines longer than any buffer are lines like others.
func Long(kb int) {
	line := make([]byte, kb*1024)
	for i := range line {
		line[i] = 'x'
	}
	data := append([]byte("first\n"), line...)
	data = append(data, "\nlast\n"...)
	mos.In[os.Stdin] = &mos.Stream{Data: data}
	eb := eventbus.New()
	c, _ := eb.Subscribe()
	l, err := proc.NewLogProcessor(eb, proc.WithCommand(&exec.Cmd{}))
	sym.Assert(err == nil, "a log processor is created")
	sym.Assert(l.Wait(context.Background()) == nil, "all logs are processed")
	want := []string{"first", string(line), "last"}
	same(proc.ZZHistory(l, 0), want, "the most recent lines are remembered")
	written(os.Stdout, want)
	var got collected
	collect(c, &got)
	published(got.lines, want)
	sym.Assert(len(got.errs) == 0, "a long line is no error")
}

// Broken: the source fails after some lines; those are processed and the
// failure is published.
func Broken(n int) {
	var data []byte
	var la []string
	for i := 0; i < n; i++ {
		la = append(la, "o"+string(rune('0'+i)))
		data = append(data, la[i]+"\n"...)
	}
	mos.In[os.Stdin] = &mos.Stream{Data: data, Err: errors.New("broken pipe")}
	eb := eventbus.New()
	c, _ := eb.Subscribe(eventbus.OnErrorTopic())
	l, err := proc.NewLogProcessor(eb, proc.WithCommand(&exec.Cmd{}))
	sym.Assert(err == nil, "a log processor is created")
	sym.Assert(l.Wait(context.Background()) == nil, "all logs are processed")
	written(os.Stdout, la)
	var got collected
	collect(c, &got)
	sym.Assert(len(got.errs) == 1, "a source that breaks is published as an error event")
}

// Waiting: Wait with a context that is cancelled at any time returns nil only
// when everything was processed.
func Waiting(n int) {
	cmd := streams([]byte("o1\no2\n"[:3*n]), []byte("e1\n"), false)
	l, err := proc.NewLogProcessor(eventbus.New(), proc.WithCommand(cmd))
	sym.Assert(err == nil, "a log processor is created")
	ctx, cancel := context.WithCancel(context.Background())
	go cancel()
	if l.Wait(ctx) == nil {
		written(os.Stdout, []string{"o1", "o2"}[:n])
		written(os.Stderr, []string{"e1"})
		sym.Cover("complete")
	} else {
		sym.Assert(ctx.Err() != nil, "an error is returned only if the context is done")
		sym.Cover("cancelled")
	}
}

// NoPipe: a command whose pipes cannot be had gives an error.
func NoPipe(which int) {
	mos.PipeErr[which] = errors.New("no pipe")
	cmd := streams([]byte("o1\n"), nil, false)
	l, err := proc.NewLogProcessor(eventbus.New(), proc.WithCommand(cmd))
	sym.Assert(err != nil && l == nil, "a command without pipes is an error")
	sym.Assert(sym.Goroutines() == 0, "nothing is started")
}
