package hmonny

import (
	"os"
	"strings"
	"syscall"
	"time"

	"github.com/BTBurke/monny/pkg/monny"
	"github.com/BTBurke/monny/pkg/pb"
	"github.com/BTBurke/monny/pkg/proto"
	"github.com/BTBurke/monny/zzverif/mgrpc"
	"github.com/BTBurke/monny/zzverif/mjson"
	"github.com/BTBurke/monny/zzverif/mos"
	"github.com/BTBurke/monny/zzverif/mrollbar"
	"github.com/BTBurke/monny/zzverif/sym"
)

// settled: every call that was made has returned and its connection is closed.
func settled() {
	for _, k := range mgrpc.Calls {
		sym.Assert(k.Done, "no delivery is under way when monny exits")
		sym.Assert(k.Method == "/pb.Reports/Create" || strings.Contains(k.Method, "Create"), "a report is delivered by the create call")
	}
}

// Retried: up to failures attempts fail, in any of the ways they can; the
// reports are delivered before Wait returns. kind: 0 a failure, 1 a success
// with a missing file, 2 a kill, 3 an alert on a run that succeeds.
func Retried(kind, failures, dial int) {
	sym.Horizon(hour / 2)
	sym.Ticks(0)
	mgrpc.Failures = failures
	mgrpc.DialFails = dial == 1
	p := &mos.Proc{}
	want := map[proto.ReportReason]int{}
	var opts []monny.ConfigOption
	switch kind {
	case 0:
		p.Status = syscall.WaitStatus(256)
		want[proto.Failure] = 1
	case 1:
		opts = append(opts, monny.Creates("/missing"))
		want[proto.FileNotCreated] = 1
	case 2:
		p.Long = true
		opts = append(opts, monny.KillTimeout("1ms"))
		want[proto.Killed] = 1
	case 3:
		p.Out = stream([]byte("x\n"), false)
		opts = append(opts, monny.Rule("x"))
		want[proto.Alert] = 1
		want[proto.Success] = 1
	}
	c := create(p, opts...)
	c.Exec()
	sym.Assert(c.Wait() == nil, "monny waits for its reports")
	settled()
	total := 0
	for r, n := range want {
		_, d := sent(r)
		sym.Assert(d == n, "a report is delivered before monny exits, once: "+r.String())
		total += n
	}
	ok := 0
	for _, k := range mgrpc.Calls {
		if k.Ok {
			ok++
		}
	}
	sym.Assert(ok == total, "nothing else is delivered")
	sym.Assert(len(mrollbar.Errors) == 0, "a delivery that succeeds in the end is no error")
	if len(mgrpc.Dials) > total {
		sym.Cover("retried")
	}
}

// GivenUp: no attempt ever succeeds; monny tries for an hour, reports one error
// and ends.
func GivenUp(attempts int) {
	sym.Horizon(3 * hour)
	sym.Ticks(0)
	mgrpc.Never = true
	mgrpc.Max = attempts
	before := time.Now()
	c := run(&mos.Proc{Status: syscall.WaitStatus(256)})
	after := time.Now()
	settled()
	sym.Assert(after.Sub(before) >= time.Hour, "delivery is attempted for an hour")
	sym.Assert(len(mrollbar.Errors) == 1, "a failed delivery is reported as an error")
	sym.Assert(c.ReportReason == proto.Failure, "the outcome does not depend on the delivery")
	sym.Cover("given up")
}

// Unanswered: a call that gets no answer.
func Unanswered(kind int) {
	sym.Horizon(3 * hour)
	sym.Ticks(0)
	mgrpc.Hang = 1
	p := &mos.Proc{}
	reason := proto.Success
	if kind == 1 {
		p.Long = true
	}
	var opts []monny.ConfigOption
	if kind == 1 {
		opts = append(opts, monny.KillTimeout("1s"))
		reason = proto.Killed
	}
	before := time.Now()
	c := create(p, opts...)
	c.Exec()
	sym.Assert(c.Wait() == nil, "monny waits for its reports")
	after := time.Now()
	settled()
	a, ok := sent(reason)
	if ok == 0 {
		sym.Assert(after.Sub(before) >= time.Hour, "delivery is attempted for an hour")
		sym.Assert(len(mrollbar.Errors) == 1, "a failed delivery is reported as an error")
		sym.Cover("failed")
	} else {
		sym.Assert(a <= 2, "a delivered report is not sent again")
	}
}

// within: sec is the number of seconds of a time between the two.
func within(sec int64, from, to time.Time) bool {
	return sym.And(sec*1e9 <= to.UnixNano(), (sec+1)*1e9 > from.UnixNano())
}

func facts(c *monny.Command, r *pb.Report) {
	sym.Assert(r.Id == "me", "a report carries the id")
	sym.Assert(r.Hostname == mos.Host, "a report carries the host name")
	sym.Assert(r.UserCommand == "prog arg", "a report carries the command line")
	sym.Assert(r.Start == c.Start.Unix(), "a report carries the start time")
	v, ok := mjson.Value(r.Config)
	cfg, ok2 := v.(monny.Config)
	sym.Assert(ok && ok2, "a report carries the configuration")
	sym.Assert(cfg.ID == c.Config.ID && cfg.Hostname == c.Config.Hostname && cfg.Daemon == c.Config.Daemon &&
		cfg.RuleQuantity == c.Config.RuleQuantity && cfg.RulePeriod == c.Config.RulePeriod &&
		cfg.MemoryWarn == c.Config.MemoryWarn && cfg.MemoryKill == c.Config.MemoryKill &&
		cfg.KillTimeout == c.Config.KillTimeout && cfg.NotifyTimeout == c.Config.NotifyTimeout &&
		cfg.StdoutHistory == c.Config.StdoutHistory && cfg.StderrHistory == c.Config.StderrHistory &&
		cfg.NotifyOnSuccess == c.Config.NotifyOnSuccess && cfg.NotifyOnFailure == c.Config.NotifyOnFailure &&
		cfg.Shell == c.Config.Shell && len(cfg.Rules) == len(c.Config.Rules) && len(cfg.Creates) == len(c.Config.Creates), "a report carries the configuration as it is")
}

// final: the facts of a run that has ended.
func final(c *monny.Command, r *pb.Report) {
	facts(c, r)
	sym.Assert(r.Success == c.Success, "a report carries the outcome")
	sym.Assert(r.Killed == c.Killed && r.KillReason == pb.KillReason(c.KillReason), "a report carries the kill and its cause")
	sym.Assert(r.MaxMemory == c.MaxMemory, "a report carries the peak memory")
	sym.Assert(r.Finish == c.Finish.Unix(), "a report carries the finish time")
	sym.Assert(sym.EqString(r.Duration, c.Duration.String()), "a report carries the duration")
	sym.Assert(r.ExitCode == c.ExitCode && r.ExitCodeValid == c.ExitCodeValid, "a report carries the exit code")
}

// matches: the report's matches are these lines.
func matches(r *pb.Report, want []string) {
	v, ok := mjson.Value(r.Matches)
	ms, ok2 := v.([]monny.RuleMatch)
	sym.Assert(ok && ok2 && len(ms) == len(want), "a report carries the matches")
	for i := range ms {
		sym.Assert(sym.EqString(ms[i].Line, want[i]) && len(ms[i].Index) == 1, "a report carries the matches as they are")
	}
}

func created(c *monny.Command, r *pb.Report, all bool) {
	v, ok := mjson.Value(r.Created)
	fs, ok2 := v.([]monny.File)
	sym.Assert(ok && ok2 && len(fs) <= len(c.Created), "a report carries the created files")
	sym.Assert(!all || len(fs) == len(c.Created), "a report carries all the created files")
	for i := range fs {
		sym.Assert(fs[i].Path == c.Created[i].Path && fs[i].Size == c.Created[i].Size && fs[i].Time.Equal(c.Created[i].Time), "a report carries the created files as they are")
	}
	sym.Assert(len(r.Messages) <= len(c.Messages), "a report carries the messages")
	sym.Assert(!all || len(r.Messages) == len(c.Messages), "a report carries all the messages")
	for i := range r.Messages {
		sym.Assert(r.Messages[i] == c.Messages[i], "a report carries the messages as they are")
	}
}

// NotText: the run fails and n arbitrary bytes are in the id (kind 0), in an
// argument (1), in the name of a missing file (2), in the host name (3) or at the
// end of a line of stdout (4) or stderr (5).
func NotText(kind, n int) {
	sym.Horizon(hour)
	sym.Ticks(0)
	t := string(sym.Bytes("text", n))
	want := strings.ToValidUTF8(t, "\uFFFD")
	p := &mos.Proc{Status: syscall.WaitStatus(256)}
	args := []string{"prog", "arg"}
	opts := []monny.ConfigOption{monny.ID("me")}
	l := make([]byte, 0, 8)
	switch kind {
	case 0:
		opts = append(opts, monny.ID("m"+t))
	case 1:
		args[1] = "x" + t
	case 2:
		opts = append(opts, monny.Creates("/"+t))
	case 3:
		mos.Host = "h" + t
	case 4, 5:
		l = append(l, 'o')
		l = append(l, t...)
		for _, b := range l {
			sym.Assume(sym.And(b != '\n', b != '\r'))
		}
		s := stream(append(l, '\n'), false)
		if kind == 4 {
			p.Out = s
		} else {
			p.Err = s
		}
	}
	mos.Next = p
	c, errs := monny.New(args, opts...)
	sym.Assert(len(errs) == 0, "the command is created")
	sym.Assert(c.Exec() == nil, "the process is run")
	sym.Assert(c.Wait() == nil, "monny waits for its reports")
	sym.Assert(len(mgrpc.Calls) >= 1, "the end of the run is reported")
	for _, k := range mgrpc.Calls {
		r := k.Report
		switch kind {
		case 0:
			sym.Assert(sym.EqString(r.Id, "m"+want), "a report carries the id")
		case 1:
			sym.Assert(sym.EqString(r.UserCommand, "prog x"+want), "a report carries the command line")
		case 2:
			sym.Assert(r.UserCommand == "prog arg", "a report carries the command line")
			if len(r.Messages) == 1 {
				sym.Assert(sym.EqString(r.Messages[0], "file not created: /"+want), "a report carries the messages as they are")
			}
		case 3:
			sym.Assert(sym.EqString(r.Hostname, "h"+want), "a report carries the host name")
		case 4:
			same(r.Stdout, []string{"o" + want}, "a report carries the last lines of stdout")
		case 5:
			same(r.Stderr, []string{"o" + want}, "a report carries the last lines of stderr")
		}
	}
	if !sym.EqString(t, want) {
		sym.Cover("replaced")
	}
}

// Ended: the report at the end of a run: n ASCII bytes on stdout, m on stderr, any
// status, files expected files.
func Ended(n, m, nfiles, hist int) {
	sym.Horizon(hour)
	sym.Ticks(0)
	a, b := sym.Bytes("stdout", n), sym.Bytes("stderr", m)
	for _, x := range append(append([]byte(nil), a...), b...) {
		sym.Assume(x < 0x80)
	}
	la, lb := lines(a), lines(b)
	fs, opts := files(nfiles)
	w, _, _ := status()
	p := &mos.Proc{Status: w, Out: stream(a, false), Err: stream(b, false)}
	opts = append(opts, monny.StdoutHistory(itoa(hist)), monny.StderrHistory(itoa(hist)))
	c := run(p, opts...)
	after := time.Now()
	missing := 0
	for _, f := range fs {
		if f.info == nil {
			missing++
		}
	}
	sym.Assert(len(mgrpc.Calls) >= 1, "the end of the run is reported")
	for _, k := range mgrpc.Calls {
		r := k.Report
		final(c, r)
		same(r.Stdout, tail(la, hist), "a report carries the last lines of stdout")
		same(r.Stderr, tail(lb, hist), "a report carries the last lines of stderr")
		matches(r, nil)
		sym.Assert(within(r.CreatedAt, c.Finish, after), "a report carries the time it was made")
		switch proto.ReportReason(r.ReportReason) {
		case proto.Success:
			sym.Assert(c.Success, "a success is reported as one")
			created(c, r, true)
			sym.Cover("success")
		case proto.Failure:
			sym.Assert(!c.Success, "a failure is reported as one")
			created(c, r, false)
			sym.Cover("failure")
		case proto.FileNotCreated:
			sym.Assert(missing > 0 && len(r.Messages) > 0, "a missing file is reported with a message")
			created(c, r, false)
			sym.Cover("missing file")
		default:
			sym.Assert(false, "the reason is that of the report")
		}
	}
}

// Stopped: the report of a kill; kind as for OutcomeKilled.
func Stopped(kind int) {
	sym.Horizon(hour)
	sym.Ticks(0)
	p := &mos.Proc{Long: true, Dies: true}
	var opts []monny.ConfigOption
	want := proto.Timeout
	switch kind {
	case 0:
		opts = append(opts, monny.KillTimeout("10ms"))
	case 1:
		want = proto.Signal
	case 2:
		want = proto.Memory
		sym.Ticks(2)
		opts = append(opts, monny.MemoryKill("3"))
		mos.FileOf = func(string) ([]byte, error) {
			s, _ := digit()
			return smaps([]string{s}), nil
		}
	}
	c := create(p, opts...)
	go func() {
		if kind == 2 {
			sym.Settle()
			p.End()
			return
		}
		if kind == 1 {
			sym.Quiesce()
			mos.Deliver(syscall.SIGINT)
		}
	}()
	c.Exec()
	sym.Assert(c.Wait() == nil, "monny waits for its reports")
	after := time.Now()
	if kind == 2 && !c.Killed {
		return
	}
	sym.Assert(len(mgrpc.Calls) == 1, "a kill is reported once")
	r := mgrpc.Calls[0].Report
	final(c, r)
	sym.Assert(proto.ReportReason(r.ReportReason) == proto.Killed && r.Killed && r.KillReason == pb.KillReason(want), "the kill is reported with its cause")
	sym.Assert(within(r.CreatedAt, c.Finish, after), "a report carries the time it was made")
	matches(r, nil)
	created(c, r, true)
	sym.Cover("killed")
}

// StoppedMatching: a line matches a rule while the process is being killed: the
// kill is reported once as a kill, the match at most once as a match. kind: 0 the
// run takes too long, 1 monny is interrupted, possibly after the match.
func StoppedMatching(kind int) {
	sym.Horizon(hour / 2)
	sym.Ticks(0)
	told := make(chan bool, 4)
	p := &mos.Proc{Long: true, Out: &mos.Stream{Feed: make(chan []byte)}}
	p.Signalled = func(os.Signal) { told <- true }
	opts := []monny.ConfigOption{monny.Rule("x"), monny.NoNotifyOnFailure(), monny.NoNotifyOnSuccess()}
	want := proto.Signal
	if kind == 0 {
		want = proto.Timeout
		opts = append(opts, monny.KillTimeout("10ms"))
	}
	c := create(p, opts...)
	go func() {
		early := kind == 1 && sym.Choose("early", 2) == 1
		if early {
			p.Out.Feed <- text([]string{"x"})
		}
		sym.Quiesce()
		if kind == 1 {
			mos.Deliver(syscall.SIGINT)
		}
		<-told
		if !early {
			sym.Quiesce()
			p.Out.Feed <- text([]string{"x"})
		}
		if sym.Choose("ends", 2) == 1 {
			sym.Settle()
			close(p.Out.Feed)
			p.End()
		}
	}()
	c.Exec()
	c.Wait()
	sym.Settle()
	killed, alerts := 0, 0
	for _, k := range mgrpc.Calls {
		r := k.Report
		switch proto.ReportReason(r.ReportReason) {
		case proto.Killed:
			killed++
			sym.Assert(r.Killed && r.KillReason == pb.KillReason(want), "the kill is reported with its cause")
		case proto.Alert:
			alerts++
			v, ok := mjson.Value(r.Matches)
			sym.Assert(ok && len(v.([]monny.RuleMatch)) == 1, "the report of a match carries the match")
		case proto.Success, proto.Failure:
			sym.Assert(!c.Killed, "a run that was killed did not end by itself")
		default:
			sym.Assert(false, "the report tells what it is about")
		}
	}
	if c.Killed {
		sym.Assert(killed == 1, "a kill is reported once")
	} else {
		sym.Assert(killed == 0, "a run that was not killed is not reported as killed")
	}
	sym.Assert(alerts <= 1, "a match is reported once")
	if killed == 1 && alerts == 1 {
		sym.Cover("both")
	}
}

// Running: the report of a match on one of n lines, one at a time, while the
// process runs: it describes the run so far.
func Running(n, hist int) {
	sym.Horizon(hour)
	sym.Ticks(0)
	p := &mos.Proc{Long: true, Out: &mos.Stream{Feed: make(chan []byte)}}
	c := create(p, monny.NoNotifyOnSuccess(), monny.Rule("x"), monny.StdoutHistory(itoa(hist)))
	done := make(chan bool)
	go func() {
		var all []string
		for i := 0; i < n; i++ {
			match := sym.Choose("match", 2) == 1
			l := line(i, match)
			calls := len(mgrpc.Calls)
			from := time.Now()
			p.Out.Feed <- text([]string{l})
			sym.Quiesce()
			to := time.Now()
			if match {
				sym.Assert(len(mgrpc.Calls) == calls+1, "a match is reported")
				r := mgrpc.Calls[calls].Report
				facts(c, r)
				sym.Assert(proto.ReportReason(r.ReportReason) == proto.Alert, "the report tells what it is about")
				sym.Assert(!r.Success && !r.Killed && r.KillReason == 0 && !r.ExitCodeValid, "a run that has not ended has no outcome")
				// the line itself may not be in the history yet
				now := tail(append(append([]string(nil), all...), l), hist)
				was := tail(all, hist)
				if len(r.Stdout) == len(now) && (len(now) == 0 || r.Stdout[len(now)-1] == now[len(now)-1]) {
					same(r.Stdout, now, "a report carries the last lines of stdout")
				} else {
					same(r.Stdout, was, "a report carries the last lines of stdout")
				}
				matches(r, []string{l})
				sym.Assert(within(r.CreatedAt, from, to), "a report carries the time it was made")
				v, _ := mjson.Value(r.Matches)
				at := v.([]monny.RuleMatch)[0].Time
				sym.Assert(!at.Before(from) && !at.After(to), "a match carries its time")
				sym.Cover("match")
			}
			all = append(all, l)
		}
		close(p.Out.Feed)
		p.End()
		close(done)
	}()
	sym.Assert(c.Exec() == nil, "the process is run")
	sym.Assert(c.Wait() == nil, "monny waits for its reports")
	<-done
}

// Secure: any number of options in any combination, a report that fails before
// it is delivered and one about a missing file: every connection is secured
// unless the user opted out, and goes to the configured host.
func Secure(failures int) {
	sym.Horizon(hour / 2)
	sym.Ticks(0)
	mgrpc.Failures = failures
	mgrpc.DialFails = true
	opts := []monny.ConfigOption{monny.Creates("/missing")}
	target := "report.lmkwtf.com:443"
	insecure := false
	hosted := sym.Choose("host", 3)
	order := sym.Choose("order", 2)
	add := func() {
		if sym.Choose("insecure", 2) == 1 {
			insecure = true
			opts = append(opts, monny.Insecure())
		}
	}
	if order == 0 {
		add()
	}
	switch hosted {
	case 1:
		target = "other:80"
		opts = append(opts, monny.Host("other:80"))
	case 2:
		target = "other:443"
		opts = append(opts, monny.Host("other:443"))
	}
	if order == 1 {
		add()
	}
	switch sym.Choose("more", 6) {
	case 1:
		opts = append(opts, monny.NoErrorReports())
	case 2:
		opts = append(opts, monny.Rule("x"), monny.RuleQuantity("1"), monny.MemoryWarn("1G"), monny.NotifyTimeout("1h"))
	case 3:
		opts = append(opts, monny.Daemon())
	case 4:
		opts = append(opts, monny.NoNotifyOnSuccess())
	case 5:
		opts = append(opts, monny.NoNotifyOnFailure())
	}
	p := &mos.Proc{}
	run(p, opts...)
	sym.Assert(len(mgrpc.Dials) > 0, "the missing file is reported")
	for _, d := range mgrpc.Dials {
		connection(d, insecure, target)
	}
	if len(mgrpc.Dials) > 1 {
		sym.Cover("several connections")
	}
}

func connection(d *mgrpc.Call, insecure bool, target string) {
	sym.Assert(d.Target == target, "a connection goes to the configured host and port")
	sym.Assert(d.Insecure == insecure, "a connection is insecure exactly when the user asked for it")
	if insecure {
		sym.Assert(d.TLS == 0, "an insecure connection uses no TLS")
	} else {
		sym.Assert(d.TLS == 1 && d.Verify, "a connection uses TLS and verifies the server")
	}
}

// SecureHost: a report server of any name and port, including IPv4 addresses.
func SecureHost(n, m int) {
	sym.Horizon(hour)
	sym.Ticks(0)
	host, port := sym.String("host", n), sym.String("port", m)
	for i := range host {
		ch := host[i]
		sym.Assume(sym.Or(sym.And(ch >= 'a', ch <= 'z'), sym.Or(sym.And(ch >= '-', ch <= '.'), sym.And(ch >= '0', ch <= '9'))))
	}
	for i := range port {
		sym.Assume(sym.And(port[i] >= '0', port[i] <= '9'))
	}
	insecure := sym.Choose("insecure", 2) == 1
	opts := []monny.ConfigOption{monny.Host(host + ":" + port)}
	if insecure {
		opts = append(opts, monny.Insecure())
	}
	run(&mos.Proc{}, opts...)
	sym.Assert(len(mgrpc.Dials) == 1, "one report is sent")
	d := mgrpc.Dials[0]
	sym.Assert(sym.EqString(d.Target, host+":"+port), "a connection goes to the configured host and port")
	connection(d, insecure, d.Target)
}

// SecureTwice: two reports at the same time use the same kind of connection.
func SecureTwice(insecure, failures int) {
	sym.Horizon(hour / 2)
	sym.Ticks(0)
	mgrpc.Failures = failures
	opts := []monny.ConfigOption{monny.Creates("/missing")}
	if insecure == 1 {
		opts = append(opts, monny.Insecure())
	}
	run(&mos.Proc{Status: syscall.WaitStatus(256)}, opts...)
	sym.Assert(len(mgrpc.Dials) >= 2, "both reports are sent")
	for _, d := range mgrpc.Dials {
		connection(d, insecure == 1, "report.lmkwtf.com:443")
	}
}

const secret = "SECRET"

// mentions: the text has the word in it; a text that is only known in part, in that part.
func mentions(text, word string) bool {
	if sym.Opaque(text) {
		return sym.Mentions(text, word)
	}
	return strings.Contains(text, word)
}

// Private: the errors monny reports about itself carry nothing of the user's,
// and none is sent when the user opted out. kind: 0 its own stdout fails, 1 its
// stdin cannot be examined, 2 the process does not read its stdin, 3 a report
// cannot be delivered, 4 nothing fails, 5 and 6 what was created or matched
// cannot be encoded, 7 the memory of the process cannot be measured, 8 the
// process cannot be started.
func Private(kind int) {
	sym.Horizon(hour / 2)
	sym.Ticks(1)
	monny.SuppressErrorReporting = false
	mos.Host = secret + "host"
	mos.Env["TOKEN"] = secret
	p := &mos.Proc{Out: stream([]byte(secret+"1\n"), false)}
	opts := []monny.ConfigOption{monny.ID(secret + "id"), monny.Host(secret + ":1"), monny.NoNotifyOnSuccess()}
	if kind == 0 {
		p.Err = stream([]byte(secret+"2\n"), false)
	}
	if kind == 3 {
		p.Out = nil
		opts = append(opts, monny.Creates("/"+secret))
	}
	if kind == 4 {
		p.Status = syscall.WaitStatus(256)
		opts = append(opts, monny.Rule(secret+"1"), monny.RuleQuantity("5"))
	}
	expect := 0
	switch kind {
	case 0:
		f := os.Stdout
		if sym.Choose("stream", 2) == 1 {
			f = os.Stderr
		}
		mos.Of(f).Fail[0] = true
		expect = 1
	case 1:
		mos.StdinInfoErr = &os.PathError{Op: "stat", Path: "/dev/stdin", Err: syscall.EBADF}
		expect = 1
	case 2:
		mos.StdinInfo = &mos.Info{FName: "stdin", FMode: os.ModeNamedPipe}
		mos.In[os.Stdin] = stream([]byte(secret), false)
		p.StdinFails = true
		expect = 1
	case 3:
		sym.Horizon(3 * hour)
		sym.Ticks(0)
		mgrpc.Never = true
		mgrpc.DialFails = true
		mgrpc.Max = 2
		expect = 1
	}
	switch kind {
	case 5, 6:
		mjson.FailFor = []string{"[]github.com/BTBurke/monny/pkg/monny.File", "[]github.com/BTBurke/monny/pkg/monny.RuleMatch"}[kind-5]
		mos.StatOf = func(name string) (os.FileInfo, error) {
			return &mos.Info{FName: secret + "file", FSize: 1, FTime: time.Now()}, nil
		}
		p.Status = syscall.WaitStatus(256)
		opts = append(opts, monny.Creates("/"+secret), monny.Rule(secret+"1"), monny.RuleQuantity("5"))
	case 7:
		mos.FileOf = func(name string) ([]byte, error) {
			return nil, &os.PathError{Op: "open", Path: name, Err: syscall.EACCES}
		}
		p.Long = true
		go func() {
			sym.Quiesce()
			p.End()
		}()
	case 8:
		p.StartErr = &os.PathError{Op: "fork/exec", Path: "/" + secret, Err: syscall.ENOENT}
	}
	off := sym.Choose("off", 2) == 1
	if off {
		opts = append(opts, monny.NoErrorReports())
	}
	mos.Next = p
	c, errs := monny.New([]string{"prog", secret}, opts...)
	sym.Assert(len(errs) == 0, "a valid configuration creates a command")
	c.Exec()
	c.Wait()
	// what monny's own input does is reported whenever that happens
	sym.Quiesce()
	sym.Assert(len(mrollbar.Fields) == 0, "an error report consists of the error only")
	for _, e := range mrollbar.Texts {
		sym.Assert(!mentions(e, secret), "an error report carries nothing of the user's")
	}
	if off {
		sym.Assert(len(mrollbar.Errors) == 0, "no error is reported when the user opted out")
		sym.Cover("opted out")
	} else if kind >= 5 {
		sym.Assert(len(mrollbar.Errors) > 0 || mjson.Failed == 0, "an unexpected error is reported")
	} else {
		sym.Assert(len(mrollbar.Errors) == expect || kind == 3 && len(mrollbar.Errors) >= 1, "an unexpected error is reported")
	}
}

// Command: the user's command of n arguments of up to m bytes each is started once,
// as it is.
func Command(n, m int) {
	sym.Horizon(hour)
	sym.Ticks(0)
	args := []string{"prog"}
	for i := 0; i < n; i++ {
		args = append(args, sym.String("arg", sym.Choose("length", m+1)))
	}
	given := append([]string(nil), args...)
	p := &mos.Proc{Reads: true}
	mos.Next = p
	_, _, opts := switches()
	opts = append(opts, monny.ID("me"))
	if sym.Choose("shell", 2) == 1 {
		mos.Programs["sh"] = "/bin/sh"
		opts = append(opts, monny.Shell("sh"))
	}
	c, errs := monny.New(args, opts...)
	sym.Assert(len(errs) == 0, "a valid configuration creates a command")
	sym.Assert(c.Exec() == nil, "the process is run")
	sym.Assert(c.Wait() == nil, "monny waits for its reports")
	sym.Assert(len(mos.Started) == 1 && mos.Started[0] == p, "one process is started")
	sym.Assert(p.Name == "prog", "the user's program is started")
	same(p.Args, given[1:], "the program gets its arguments as they are")
	sym.Assert(len(p.Cmd.Env) == 0 && p.Cmd.Dir == "", "the program gets monny's environment and folder")
	sym.Assert(len(p.Stdin) == 0 && p.StdinClosed, "the program's stdin ends")
}

// Stdin: what is piped into monny reaches the program.
func Stdin(n, m int) {
	sym.Horizon(hour)
	sym.Ticks(0)
	data := sym.Bytes("stdin", n)
	mos.StdinInfo = &mos.Info{FName: "stdin", FMode: os.ModeNamedPipe | 0600}
	mos.In[os.Stdin] = stream(data, true)
	p := &mos.Proc{Out: stream(sym.Bytes("stdout", m), false), Reads: true}
	c := run(p)
	sym.Assert(len(p.Stdin) == n && sym.EqString(string(p.Stdin), string(data)), "what is piped into monny reaches the program, in order")
	sym.Assert(p.StdinClosed, "the program's stdin ends")
	sym.Assert(c.Success && len(mrollbar.Errors) == 0, "nothing fails")
}

// NoCommand: there is no command to run.
func NoCommand(kind int) {
	sym.Horizon(hour)
	sym.Ticks(0)
	mos.Next = &mos.Proc{}
	var args []string
	if kind == 1 {
		args = []string{}
	}
	c, errs := monny.New(args, monny.ID("me"))
	if len(errs) > 0 {
		return
	}
	sym.Assert(c.Exec() != nil, "a missing command is an error")
	c.Wait()
	sym.Assert(len(mos.Started) == 0, "nothing is started")
}
