package main

import (
	"os"
	"strconv"
	"syscall"
	"time"

	"github.com/BTBurke/monny/pkg/monny"
	"github.com/BTBurke/monny/pkg/proto"
	"github.com/BTBurke/monny/zzverif/mgrpc"
	"github.com/BTBurke/monny/zzverif/mos"
	"github.com/BTBurke/monny/zzverif/sym"
)

// program runs monny's main function on a command line; at is called when it
// ends.
func program(p *mos.Proc, at func(code int), args ...string) {
	monny.SuppressErrorReporting = false
	os.Args = append([]string{"monny"}, args...)
	mos.Next = p
	mos.AtExit = at
	main()
	// returning from main ends the program, too
	mos.Exit(0)
}

// delivered tells which deliveries have succeeded. It belongs to the program's
// goroutines: when one ends the program without waiting for another that
// delivers a report the two are not ordered, which is a data race.
var delivered [8]bool

// Delivers: the program does not end before what is to be reported is
// delivered. kind: 0 a failure, 1 a missing file and a success that is
// not reported, 2 a kill, 3 a kill of a process that cannot be killed, 4 a match, 5 a
// match and a success.
func Delivers(kind, failures int) {
	sym.Horizon(int64(time.Hour / 2))
	sym.Ticks(0)
	mgrpc.Failures = failures
	mgrpc.Acked = func(n int) { delivered[n] = true }
	p := &mos.Proc{}
	args := []string{"-i", "me"}
	want := map[proto.ReportReason]int{}
	switch kind {
	case 0:
		p.Status = syscall.WaitStatus(256)
		want[proto.Failure] = 1
	case 1:
		args = append(args, "--creates", "/missing")
		want[proto.FileNotCreated] = 1
	case 2, 3:
		p.Long = true
		p.Dies = kind == 2
		if kind == 3 {
			p.SignalErr = syscall.EPERM
		}
		args = append(args, "--timeout-kill", "1ms")
		want[proto.Killed] = 1
	case 4:
		p.Out = &mos.Stream{Data: []byte("a\nx\n")}
		args = append(args, "--rule", "x", "--no-notify-on-success")
		want[proto.Alert] = 1
	case 5:
		p.Out = &mos.Stream{Data: []byte("x\n")}
		args = append(args, "--rule", "x")
		want[proto.Alert] = 1
		want[proto.Success] = 1
	}
	program(p, func(int) {
		sym.Linger()
		got := map[proto.ReportReason]int{}
		for i, k := range mgrpc.Calls {
			sym.Assert(k.Done, "no delivery is under way when monny exits")
			if k.Ok {
				sym.Assert(delivered[i], "the delivery has ended")
				got[proto.ReportReason(k.Report.ReportReason)]++
			}
		}
		for r := proto.Success; r <= proto.Start; r++ {
			sym.Assert(got[r] == want[r], "a report is delivered before monny exits, once: "+r.String())
		}
		sym.Cover("exit")
	}, append(args, "prog")...)
}

// Runs: the program runs the user's command of n arguments of up to m bytes each
// once, as it is, and ends without an error.
func Runs(n, m int) {
	sym.Horizon(int64(time.Hour / 2))
	sym.Ticks(0)
	args := []string{"-i", "me", "--", "prog"}
	for i := 0; i < n; i++ {
		args = append(args, sym.String("arg", sym.Choose("length", m+1)))
	}
	p := &mos.Proc{}
	if sym.Choose("fails", 2) == 1 {
		p.Status = syscall.WaitStatus(256)
	}
	given := append([]string(nil), args...)
	program(p, func(code int) {
		sym.Assert(len(mos.Started) == 1 && mos.Started[0] == p && p.Waited, "the user's command is run")
		sym.Assert(p.Name == "prog" && len(p.Args) == n, "the user's command is run as it is")
		for i := range p.Args {
			sym.Assert(sym.EqString(p.Args[i], given[4+i]), "the user's command is run as it is")
		}
		sym.Assert(code == 0 || p.Status != 0, "a run that was monitored and reported is no error of monny's")
		sym.Cover("exit")
	}, args...)
}

// Refuses: a configuration that is rejected ends the program with an error
// before the user's command is run. kind: 0 n bytes for the number of lines, 1
// no id, 2 an option that does not exist, 3 a configuration file that does not exist, 4 help, 5
// n bytes for a duration.
func Refuses(kind, n int) {
	sym.Horizon(int64(time.Hour / 2))
	sym.Ticks(0)
	p := &mos.Proc{}
	args := []string{"-i", "me"}
	ok := false
	switch kind {
	case 0:
		v := sym.String("value", n)
		if x, err := strconv.Atoi(v); err == nil && x >= 0 {
			ok = true
		}
		// the option parser accepts other notations of a number than the option
		for i := range v {
			sym.Assume(v[i] != 'x' && v[i] != 'X' && v[i] != 'o' && v[i] != 'O' && v[i] != 'b' && v[i] != 'B' && v[i] != '_')
		}
		args = append(args, "--stdout-history="+v)
		if n > 1 {
			// a leading zero means octal to the one and nothing to the other
			sym.Assume(v[0] != '0' && (v[0] != '-' && v[0] != '+' || v[1] != '0'))
		}
	case 1:
		args = []string{}
	case 2:
		args = append(args, "--nothing")
	case 3:
		args = append(args, "-c", "/none")
	case 4:
		args = append(args, "--help")
	case 5:
		v := sym.String("value", n)
		_, err := time.ParseDuration(v)
		ok = err == nil
		args = append(args, "--timeout-warn="+v)
	}
	program(p, func(code int) {
		if ok {
			sym.Assert(len(mos.Started) == 1, "the user's command is run")
			sym.Cover("accepted")
			return
		}
		sym.Assert(len(mos.Started) == 0, "nothing is run under a configuration that is rejected")
		sym.Assert(len(mgrpc.Dials) == 0, "nothing is reported under a configuration that is rejected")
		sym.Assert(code != 0, "a configuration that is rejected is an error")
		sym.Cover("rejected")
	}, append(args, "prog")...)
}
