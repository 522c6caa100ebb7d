package hmonny

import (
	"os"
	"strings"
	"syscall"
	"time"

	"github.com/BTBurke/monny/pkg/monny"
	"github.com/BTBurke/monny/pkg/proto"
	"github.com/BTBurke/monny/zzverif/mos"
	"github.com/BTBurke/monny/zzverif/sym"
)

// files prepares n expected files, each present with any size and age, missing
// or impossible to look at.
type file struct {
	path string
	info *mos.Info
}

func files(n int) ([]file, []monny.ConfigOption) {
	var fs []file
	var opts []monny.ConfigOption
	for i := 0; i < n; i++ {
		f := file{path: "/out/f" + itoa(i)}
		if sym.Choose("file", 2) == 1 {
			f.info = &mos.Info{FName: "f" + itoa(i), FSize: sym.Int64In("size", 0, 1<<62), FTime: time.Now()}
		}
		fs = append(fs, f)
		opts = append(opts, monny.Creates(f.path))
	}
	mos.StatOf = func(name string) (os.FileInfo, error) {
		for _, f := range fs {
			if f.path == name && f.info != nil {
				return f.info, nil
			}
		}
		if sym.Choose("stat", 2) == 1 {
			return nil, &os.PathError{Op: "stat", Path: name, Err: syscall.EACCES}
		}
		return nil, &os.PathError{Op: "stat", Path: name, Err: syscall.ENOENT}
	}
	return fs, opts
}

// status is any way a process can end by itself or by a signal.
func status() (w syscall.WaitStatus, code int, signaled bool) {
	if sym.Choose("end", 2) == 0 {
		code = sym.IntIn("exit code", 0, 255)
		return syscall.WaitStatus(code << 8), code, false
	}
	return syscall.WaitStatus(sym.IntIn("signal", 1, 31)), -1, true
}

// Finished: any exit status and n expected files.
func Finished(n int) {
	sym.Horizon(hour)
	sym.Ticks(0)
	fs, opts := files(n)
	w, code, signaled := status()
	p := &mos.Proc{Status: w}
	before := time.Now()
	c := run(p, opts...)
	after := time.Now()
	missing := 0
	created := 0
	for _, f := range fs {
		if f.info == nil {
			missing++
			found := 0
			for _, m := range c.Messages {
				if strings.Contains(m, f.path) {
					found++
				}
			}
			sym.Assert(found == 1, "a missing file is recorded once")
			continue
		}
		sym.Assert(created < len(c.Created), "a created file is recorded")
		g := c.Created[created]
		sym.Assert(g.Path == f.info.FName && g.Size == f.info.FSize && g.Time.Equal(f.info.FTime), "a created file is recorded as it is")
		created++
	}
	sym.Assert(len(c.Created) == created, "only created files are recorded as created")
	sym.Assert(len(c.Messages) == missing, "only missing files are recorded as missing")
	ok := !signaled && code == 0 && missing == 0
	sym.Assert(c.Success == ok, "success is recorded exactly when the exit status is zero and every file was created")
	if signaled {
		sym.Assert(c.ExitCode != 0 || !c.ExitCodeValid, "a process ended by a signal has no exit code zero")
	} else {
		sym.Assert(c.ExitCodeValid && int(c.ExitCode) == code, "the exit code is recorded")
	}
	sym.Assert(!c.Killed && c.KillReason == 0, "a process that ended by itself was not killed")
	sym.Assert(len(p.Signals) == 0, "a process that ends by itself is sent no signal")
	switch {
	case ok:
		sym.Assert(c.ReportReason == proto.Success, "the outcome is success")
		sym.Cover("success")
	case missing > 0:
		sym.Assert(c.ReportReason == proto.FileNotCreated || signaled || code != 0, "the outcome is the missing file")
		sym.Assert(c.ReportReason == proto.FileNotCreated || c.ReportReason == proto.Failure, "the outcome is no success")
	default:
		sym.Assert(c.ReportReason == proto.Failure, "the outcome is failure")
	}
	times(c, p, before, after)
}

// InputOpen: the process ends although what is piped into monny does not; n bytes
// come before it ends and possibly one after.
func InputOpen(n int) {
	sym.Horizon(hour)
	sym.Ticks(0)
	mos.StdinInfo = &mos.Info{FName: "stdin", FMode: os.ModeNamedPipe | 0600}
	in := &mos.Stream{Feed: make(chan []byte)}
	mos.In[os.Stdin] = in
	w, code, signaled := status()
	p := &mos.Proc{Status: w, Long: true}
	before := time.Now()
	c := create(p)
	done := make(chan bool)
	go func() {
		for i := 0; i < n; i++ {
			in.Feed <- []byte("x")
		}
		if sym.Choose("read first", 2) == 1 {
			sym.Quiesce()
			sym.Assert(len(p.Stdin) == n, "what is piped into monny reaches the program while it runs")
		}
		p.End()
		<-done
		if sym.Choose("more", 2) == 1 {
			in.Feed <- []byte("x")
			sym.Cover("more input")
		}
	}()
	sym.Assert(c.Exec() == nil, "the process is run")
	sym.Assert(c.Wait() == nil, "monny waits for its reports")
	after := time.Now()
	sym.Assert(c.Success == (!signaled && code == 0), "the outcome is recorded although the input goes on")
	sym.Assert(!c.Killed && len(p.Signals) == 0, "a process that ended by itself was not killed")
	times(c, p, before, after)
	close(done)
	sym.Settle()
	sym.Cover("ended")
}

// times: the recorded times are those of the run.
func times(c *monny.Command, p *mos.Proc, before, after time.Time) {
	sym.Assert(!c.Start.Before(before) && !c.Start.After(p.StartedAt), "the start time is when the process was started")
	sym.Assert(!c.Finish.Before(p.StartedAt) && !c.Finish.After(after), "the finish time is when the process finished")
	sym.Assert(c.Duration >= 0, "the duration is not negative")
	sym.Assert(c.Duration == c.Finish.Sub(c.Start), "the duration is the time from start to finish")
}

// killed: what a kill of either kind has in common.
func killed(c *monny.Command, p *mos.Proc, why proto.KillReason, sig os.Signal) {
	sym.Assert(c.Killed && c.KillReason == why, "a kill is recorded with its cause")
	sym.Assert(c.ReportReason == proto.Killed, "the outcome is the kill")
	sym.Assert(!c.Success, "a killed process is not a success")
	if !p.Waited || len(p.Signals) > 0 {
		sym.Assert(len(p.Signals) == 1 && p.Signals[0] == sig, "the process is sent the signal once")
	}
}

// Timeout: the kill timeout passes or the process ends, in any order.
func Timeout(ms int, ends int) {
	sym.Horizon(hour)
	sym.Ticks(0)
	d := time.Duration(ms) * time.Millisecond
	p := &mos.Proc{Long: true, Status: syscall.WaitStatus(0)}
	before := time.Now()
	c := create(p, monny.KillTimeout(itoa(ms)+"ms"))
	if ends == 1 {
		go func() {
			sym.Quiesce()
			p.End()
		}()
	}
	err := c.Exec()
	sym.Assert(c.Wait() == nil, "monny waits for its reports")
	after := time.Now()
	if c.Killed {
		killed(c, p, proto.Timeout, syscall.SIGKILL)
		sym.Assert(err == nil || p.Waited, "the process is killed")
		sym.Assert(c.Duration >= d, "a process is not killed before the timeout")
		sym.Cover("killed")
	} else {
		sym.Assert(ends == 1, "a process that does not end is killed at the timeout")
		sym.Assert(c.Success && len(p.Signals) == 0, "a process that ended in time is not killed")
		sym.Cover("ended in time")
	}
	times(c, p, before, after)
}

// Interrupted: monny is interrupted while the process runs.
func Interrupted(dies int) {
	sym.Horizon(hour)
	sym.Ticks(0)
	p := &mos.Proc{Long: true, Dies: dies == 1}
	before := time.Now()
	c := create(p)
	go func() {
		sym.Quiesce()
		sym.Assert(mos.Deliver(syscall.SIGINT), "monny handles an interrupt while the process runs")
	}()
	sym.Assert(c.Exec() == nil, "the signal is forwarded")
	sym.Assert(c.Wait() == nil, "monny waits for its reports")
	after := time.Now()
	killed(c, p, proto.Signal, syscall.SIGINT)
	sym.Assert(len(p.Signals) == 1, "the signal is forwarded")
	times(c, p, before, after)
}

// smaps is the text of the memory map with the given sizes in it.
func smaps(sizes []string) []byte {
	t := "55e8a4400000-55e8a4422000 r--p 00000000 103:02 5245    /bin/x\nSize:                136 kB\nRss:                 132 kB\n"
	for _, s := range sizes {
		t += "Pss:   " + s + " kB\nPss_Dirty:             9 kB\nShared_Clean:          7 kB\nSwapPss:               9 kB\n"
	}
	return []byte(t)
}

// digit is any one-digit size.
func digit() (string, uint64) {
	b := sym.Byte("kB")
	sym.Assume(b >= '0' && b <= '9')
	return string([]byte{b}), uint64(b - '0')
}

// Memory: up to ticks measurements of any size against any kill limit.
func Memory(ticks, maps int) {
	sym.Horizon(hour)
	sym.Ticks(ticks)
	var seen []uint64
	mos.FileOf = func(name string) ([]byte, error) {
		sym.Assert(name == "/proc/"+itoa(mos.ChildPid)+"/smaps", "the memory of the process is measured")
		var ss []string
		var total uint64
		for i := 0; i < maps; i++ {
			s, n := digit()
			ss = append(ss, s)
			total += n
		}
		seen = append(seen, total)
		return smaps(ss), nil
	}
	ls, limit := digit()
	p := &mos.Proc{Long: true}
	before := time.Now()
	c := create(p, monny.MemoryKill(ls))
	go func() {
		sym.Settle()
		p.End()
	}()
	c.Exec()
	sym.Assert(c.Wait() == nil, "monny waits for its reports")
	after := time.Now()
	var max uint64
	over := false
	for i, m := range seen {
		if m > max {
			max = m
		}
		if limit > 0 && m >= limit {
			over = true
			sym.Assert(i == len(seen)-1, "the process is killed at the first measurement that reaches the limit")
		}
	}
	sym.Assert(c.MaxMemory == max, "the peak memory is the largest measurement")
	sym.Assert(c.Killed == over, "the process is killed exactly when a measurement reaches the limit")
	if over {
		killed(c, p, proto.Memory, syscall.SIGKILL)
		sym.Cover("killed")
	} else {
		sym.Assert(len(p.Signals) == 0 && c.Success, "a process within its limit is not killed")
	}
	times(c, p, before, after)
}

// Unmeasured: the memory cannot be read.
func Unmeasured(kind int) {
	sym.Horizon(hour)
	sym.Ticks(2)
	mos.FileOf = func(name string) ([]byte, error) {
		if kind == 0 {
			return nil, &os.PathError{Op: "open", Path: name, Err: syscall.ENOENT}
		}
		return []byte("Pss:   x kB\n"), nil
	}
	p := &mos.Proc{Long: true}
	c := create(p, monny.MemoryKill("1"), monny.MemoryWarn("1"))
	go func() {
		sym.Settle()
		p.End()
	}()
	sym.Assert(c.Exec() == nil, "the process is run")
	sym.Assert(c.Wait() == nil, "monny waits for its reports")
	sym.Assert(c.Success && !c.Killed && c.MaxMemory == 0 && len(p.Signals) == 0, "a process whose memory is unknown is not killed")
}

// NotStarted: the program cannot be run.
func NotStarted(kind int) {
	sym.Horizon(hour)
	p := &mos.Proc{}
	switch kind {
	case 0:
		p.StartErr = &os.PathError{Op: "fork/exec", Path: "prog", Err: syscall.ENOENT}
	case 1:
		p.StdinErr = syscall.EMFILE
	case 2:
		mos.PipeErr[0] = syscall.EMFILE
	case 3:
		mos.PipeErr[1] = syscall.EMFILE
	}
	c := create(p)
	sym.Assert(c.Exec() != nil, "a program that cannot be run is an error")
	sym.Assert(c.Wait() == nil, "there is nothing to wait for")
	sym.Assert(!c.Success && !c.Killed && !p.Started, "a program that was not run is no success")
}
