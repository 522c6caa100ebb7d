package hmonny

import (
	"syscall"
	"time"

	"github.com/BTBurke/monny/pkg/monny"
	"github.com/BTBurke/monny/pkg/pb"
	"github.com/BTBurke/monny/pkg/proto"
	"github.com/BTBurke/monny/zzverif/mgrpc"
	"github.com/BTBurke/monny/zzverif/mjson"
	"github.com/BTBurke/monny/zzverif/mos"
	"github.com/BTBurke/monny/zzverif/mrollbar"
	"github.com/BTBurke/monny/zzverif/sym"
)

// sent counts the attempts to deliver a report for the reason, and those that
// were acknowledged.
func sent(r proto.ReportReason) (attempts, delivered int) {
	for _, k := range mgrpc.Calls {
		if k.Report.ReportReason == pb.ReportReason(r) {
			attempts++
			if k.Ok {
				delivered++
			}
		}
	}
	return
}

// exactly: these are the only reports, and all were delivered at the first attempt.
func exactly(want map[proto.ReportReason]int) {
	total := 0
	for r, n := range want {
		a, d := sent(r)
		sym.Assert(a == n && d == n, "a report is sent exactly when the configuration calls for it: "+r.String())
		total += n
	}
	sym.Assert(len(mgrpc.Calls) == total, "no other report is sent")
	sym.Assert(len(mrollbar.Errors) == 0, "no error is reported")
}

// switches are the notification options, in every combination.
func switches() (success, failure bool, opts []monny.ConfigOption) {
	success, failure = true, true
	if sym.Choose("no success", 2) == 1 {
		success = false
		opts = append(opts, monny.NoNotifyOnSuccess())
	}
	if sym.Choose("no failure", 2) == 1 {
		failure = false
		opts = append(opts, monny.NoNotifyOnFailure())
	}
	if sym.Choose("daemon", 2) == 1 {
		opts = append(opts, monny.Daemon())
	}
	return
}

// Outcome: any exit status, n expected files, any switches.
func Outcome(n int) {
	sym.Horizon(hour)
	sym.Ticks(0)
	fs, opts := files(n)
	success, failure, sw := switches()
	w, code, signaled := status()
	run(&mos.Proc{Status: w}, append(opts, sw...)...)
	want := map[proto.ReportReason]int{}
	for _, f := range fs {
		if f.info == nil {
			want[proto.FileNotCreated]++
		}
	}
	failed := signaled || code != 0
	if failed && failure {
		want[proto.Failure] = 1
	}
	if !failed && success && want[proto.FileNotCreated] == 0 {
		want[proto.Success] = 1
	}
	exactly(want)
	sym.Cover("sent")
}

// OutcomeKilled: a kill is reported whatever the switches are. kind 0 is a
// timeout, 1 a signal, 2 the memory limit.
func OutcomeKilled(kind int) {
	sym.Horizon(hour)
	sym.Ticks(0)
	_, _, opts := switches()
	p := &mos.Proc{Long: true, Dies: sym.Choose("dies", 2) == 1}
	switch kind {
	case 0:
		opts = append(opts, monny.KillTimeout("10ms"))
	case 2:
		sym.Ticks(1)
		opts = append(opts, monny.MemoryKill("3"))
		mos.FileOf = func(string) ([]byte, error) { return smaps([]string{"3"}), nil }
	}
	c := create(p, opts...)
	if kind == 1 {
		go func() {
			sym.Quiesce()
			mos.Deliver(syscall.SIGINT)
		}()
	}
	c.Exec()
	sym.Assert(c.Wait() == nil, "monny waits for its reports")
	exactly(map[proto.ReportReason]int{proto.Killed: 1})
	sym.Assert(mgrpc.Calls[0].Report.Killed && mgrpc.Calls[0].Report.KillReason == pb.KillReason(c.KillReason), "the report tells that the process was killed, and why")
}

// WarnTime: the time warning is sent once, when the process runs longer.
func WarnTime(settle int) {
	sym.Horizon(hour)
	sym.Ticks(0)
	p := &mos.Proc{Long: true}
	c := create(p, monny.NoNotifyOnSuccess(), monny.NotifyTimeout("10ms"))
	go func() {
		if settle == 1 {
			sym.Settle()
		} else {
			sym.Quiesce()
		}
		p.End()
	}()
	sym.Assert(c.Exec() == nil, "the process is run")
	sym.Assert(c.Wait() == nil, "monny waits for its reports")
	n, _ := sent(proto.TimeWarning)
	sym.Assert(n <= 1, "a time warning is sent once")
	if settle == 1 {
		sym.Assert(n == 1, "a process that runs longer than the warning time is reported")
	}
	if n == 1 {
		at := mgrpc.Calls[0].At
		sym.Assert(at.Sub(c.Start) >= 10*time.Millisecond, "the warning is not sent before its time")
	}
	exactly(map[proto.ReportReason]int{proto.TimeWarning: n})
	sym.Assert(c.Success && !c.Killed && len(p.Signals) == 0, "a warning does not change the outcome")
}

// WarnMemory: a memory warning is sent once, at the first measurement that
// reaches the limit. coarse: measurements are one below the limit or at it.
func WarnMemory(ticks, coarse int) {
	sym.Horizon(hour)
	sym.Ticks(ticks)
	over := false
	mos.FileOf = func(name string) ([]byte, error) {
		var s string
		var n uint64
		if coarse == 1 {
			n = 3 + uint64(sym.Choose("measurement", 2))
			s = itoa(int(n))
		} else {
			s, n = digit()
		}
		if n >= 4 {
			over = true
		}
		return smaps([]string{s}), nil
	}
	p := &mos.Proc{Long: true}
	c := create(p, monny.NoNotifyOnSuccess(), monny.MemoryWarn("4"))
	go func() {
		sym.Settle()
		p.End()
	}()
	sym.Assert(c.Exec() == nil, "the process is run")
	sym.Assert(c.Wait() == nil, "monny waits for its reports")
	n := 0
	if over {
		n = 1
		sym.Cover("over the limit")
	}
	exactly(map[proto.ReportReason]int{proto.MemoryWarning: n})
	sym.Assert(c.Success && !c.Killed && len(p.Signals) == 0, "a warning does not change the outcome")
}

// text of a line that matches the rule x, or not.
func line(i int, match bool) string {
	if match {
		return "x" + itoa(i)
	}
	return "b" + itoa(i)
}

// Alert: n lines on stdout and m on stderr, each of which matches or not.
func Alert(n, m int) {
	sym.Horizon(hour)
	sym.Ticks(0)
	count := 0
	gen := func(k, from int) (out []string) {
		for i := 0; i < k; i++ {
			match := sym.Choose("match", 2) == 1
			if match {
				count++
			}
			out = append(out, line(from+i, match))
		}
		return
	}
	p := &mos.Proc{Out: stream(text(gen(n, 0)), false), Err: stream(text(gen(m, n)), false)}
	c := run(p, monny.NoNotifyOnSuccess(), monny.Rule("x"))
	exactly(map[proto.ReportReason]int{proto.Alert: count})
	sym.Assert(len(c.RuleMatches) == 0, "matches that were reported are not kept")
	if count > 1 {
		sym.Cover("several alerts")
	}
}

// AlertRules: two rules, every line matches any of them.
func AlertRules(n int) {
	sym.Horizon(hour)
	sym.Ticks(0)
	var ls []string
	alerts := 0
	for i := 0; i < n; i++ {
		k := sym.Choose("match", 4)
		s := itoa(i)
		if k&1 == 1 {
			s += "x"
		}
		if k&2 == 2 {
			s += "y"
		}
		if k > 0 {
			alerts++
		}
		ls = append(ls, s)
	}
	run(&mos.Proc{Out: stream(text(ls), false)}, monny.NoNotifyOnSuccess(), monny.Rule("x"), monny.Rule("y"))
	exactly(map[proto.ReportReason]int{proto.Alert: alerts})
}

// Rate: n lines one after the other, each of which matches or not; an alert is
// sent when q of them came since the last one that was delivered. With a period
// (in seconds) only the matches within it count.
func Rate(n, q, period int) {
	sym.Horizon(hour)
	sym.Ticks(0)
	p := &mos.Proc{Long: true, Out: &mos.Stream{Feed: make(chan []byte)}}
	opts := []monny.ConfigOption{monny.NoNotifyOnSuccess(), monny.Rule("x"), monny.RuleQuantity(itoa(q))}
	d := time.Duration(period) * time.Second
	if period > 0 {
		opts = append(opts, monny.RulePeriod(itoa(period)+"s"))
	}
	c := create(p, opts...)
	done := make(chan bool)
	go func() {
		type span struct{ from, to time.Time }
		var open []span
		total := 0
		for i := 0; i < n; i++ {
			match := sym.Choose("match", 2) == 1
			from := time.Now()
			p.Out.Feed <- text([]string{line(i, match)})
			sym.Quiesce()
			to := time.Now()
			if match {
				open = append(open, span{from, to})
			}
			least, most := 0, 0
			for _, s := range open {
				if period == 0 || to.Sub(s.from) <= d {
					least++
				}
				if period == 0 || from.Sub(s.to) <= d {
					most++
				}
			}
			_, a := sent(proto.AlertRate)
			sym.Assert(a == total || a == total+1, "a line raises at most one alert")
			if a > total {
				sym.Assert(match, "only a line that matches raises an alert")
				sym.Assert(most >= q, "an alert is sent only when enough matches fall within the period")
				k := mgrpc.Calls[len(mgrpc.Calls)-1]
				v, ok := mjson.Value(k.Report.Matches)
				ms, ok2 := v.([]monny.RuleMatch)
				sym.Assert(ok && ok2 && len(ms) == len(open), "an alert reports the matches since the last one")
				open = nil
				total = a
				sym.Cover("alert")
			} else if match {
				sym.Assert(least < q, "an alert is sent when enough matches fall within the period")
			}
		}
		close(p.Out.Feed)
		p.End()
		close(done)
	}()
	sym.Assert(c.Exec() == nil, "the process is run")
	sym.Assert(c.Wait() == nil, "monny waits for its reports")
	<-done
	a, ok := sent(proto.AlertRate)
	exactly(map[proto.ReportReason]int{proto.AlertRate: a})
	sym.Assert(a == ok, "alerts are delivered")
}

// RateAtOnce: k matching lines at once.
func RateAtOnce(k, q int) {
	sym.Horizon(hour)
	sym.Ticks(0)
	var ls []string
	for i := 0; i < k; i++ {
		ls = append(ls, line(i, true))
	}
	c := run(&mos.Proc{Out: stream(text(ls), false)}, monny.NoNotifyOnSuccess(), monny.Rule("x"), monny.RuleQuantity(itoa(q)))
	a, _ := sent(proto.AlertRate)
	exactly(map[proto.ReportReason]int{proto.AlertRate: a})
	if k < q {
		sym.Assert(a == 0 && len(c.RuleMatches) == k, "too few matches are kept and raise no alert")
	} else {
		sym.Assert(a >= 1, "enough matches raise an alert")
		sym.Assert(len(c.RuleMatches) < q, "matches that were reported are not counted again")
	}
	for _, call := range mgrpc.Calls {
		v, _ := mjson.Value(call.Report.Matches)
		ms, ok := v.([]monny.RuleMatch)
		sym.Assert(ok && len(ms) >= q, "an alert reports at least the configured number of matches")
	}
}

// Undelivered: a delivery that never gets an answer is an error after the hour
// and the alert's matches are kept.
func Undelivered(kind int) {
	sym.Horizon(3 * hour)
	sym.Ticks(0)
	mgrpc.Hang = 1
	opts := []monny.ConfigOption{monny.NoNotifyOnSuccess()}
	p := &mos.Proc{}
	if kind == 0 {
		p.Status = syscall.WaitStatus(256)
	} else {
		p.Out = stream([]byte("x\n"), false)
		opts = append(opts, monny.Rule("x"))
	}
	before := time.Now()
	c := run(p, opts...)
	after := time.Now()
	_, ok := sent(proto.Failure)
	if kind == 1 {
		_, ok = sent(proto.Alert)
	}
	if ok == 0 {
		sym.Assert(after.Sub(before) >= time.Hour, "delivery is attempted for an hour")
		sym.Assert(len(mrollbar.Errors) == 1, "a failed delivery is reported as an error")
		if kind == 1 {
			sym.Assert(len(c.RuleMatches) == 1, "matches that were not delivered are kept")
		}
		sym.Cover("failed")
	} else if kind == 1 && len(mrollbar.Errors) == 0 {
		sym.Assert(len(c.RuleMatches) == 0, "matches that were delivered are not kept")
	}
}
