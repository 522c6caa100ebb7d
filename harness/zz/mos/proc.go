package mos

import (
	"errors"
	"io"
	"os"
	"os/exec"
	"strconv"
	"sync"
	"syscall"
	"time"

	"github.com/BTBurke/monny/zzverif/sym"
)

// Proc is the process that the next command starts.
type Proc struct {
	Out, Err *Stream
	Status   syscall.WaitStatus // how it ends by itself
	Long     bool               // runs until it is killed or End is called
	Reads    bool               // runs until its stdin ends, or it is killed
	// Signalled is called when a signal reaches it.
	Signalled func(os.Signal)
	// Dies tells whether a signal other than SIGKILL ends it.
	Dies      bool
	SignalErr error
	StartErr  error
	StdinErr  error
	// StdinFails makes writes to its stdin fail.
	StdinFails bool

	Name        string
	Args        []string
	Cmd         *exec.Cmd
	Stdin       []byte
	StdinClosed bool
	Signals     []os.Signal
	Started     bool
	StartedAt   time.Time
	Ended       bool
	Waited      bool

	done chan struct{}
}

const (
	SelfPid  = 4242
	ChildPid = 4243
)

var (
	// Next is the process of the next command that is created.
	Next *Proc
	// Started are the processes that were started.
	Started []*Proc

	procs  = map[*exec.Cmd]*Proc{}
	byProc = map[*os.Process]*Proc{}
	states = map[*os.ProcessState]*Proc{}

	// Env, Host, HostErr, Programs are the environment.
	Env      = map[string]string{"SHELL": "/bin/sh"}
	Host     = "myhost"
	HostErr  error
	Programs = map[string]string{}

	// StatOf answers Stat, FileOf answers Open and ReadFile.
	StatOf func(name string) (os.FileInfo, error)
	FileOf func(name string) ([]byte, error)
	// StdinInfo and StdinInfoErr answer Stdin.Stat.
	StdinInfo    os.FileInfo
	StdinInfoErr error

	notify  []chan<- os.Signal
	notSigs [][]os.Signal
)

// End makes the process exit.
func (p *Proc) End() {
	if !p.Ended {
		p.Ended = true
		close(p.done)
	}
}

// Deliver sends a signal to monny; it tells whether monny handles it.
func Deliver(sig os.Signal) bool {
	handled := false
	for i, c := range notify {
		want := len(notSigs[i]) == 0
		for _, s := range notSigs[i] {
			if s == sig {
				want = true
			}
		}
		if want {
			handled = true
			select {
			case c <- sig:
			default:
			}
		}
	}
	return handled
}

//sym:model os/signal.Notify
func Notify(c chan<- os.Signal, sig ...os.Signal) {
	notify = append(notify, c)
	notSigs = append(notSigs, sig)
}

//sym:model os/signal.Stop
func StopNotify(c chan<- os.Signal) {
	for i := range notify {
		if notify[i] == c {
			notSigs[i] = []os.Signal{syscall.Signal(0)}
		}
	}
}

//sym:model os/exec.Command
func Command(name string, arg ...string) *exec.Cmd {
	c := &exec.Cmd{Path: name, Args: append([]string{name}, arg...)}
	p := Next
	if p == nil {
		p = &Proc{}
	}
	Next = nil
	p.Name, p.Args = name, append([]string(nil), arg...)
	p.Cmd = c
	p.done = make(chan struct{})
	if p.Out == nil {
		p.Out = &Stream{}
	}
	if p.Err == nil {
		p.Err = &Stream{}
	}
	p.Out.shared, p.Err.shared = new(sync.Mutex), new(sync.Mutex)
	p.Out.gate, p.Err.gate = p.done, p.done
	procs[c] = p
	Pipes[c] = [2]*Stream{p.Out, p.Err}
	return c
}

type stdinPipe struct{ p *Proc }

func (s stdinPipe) Write(b []byte) (int, error) {
	if s.p.StdinFails {
		return 0, syscall.EPIPE
	}
	if s.p.StdinClosed {
		return 0, errors.New("write |1: file already closed")
	}
	s.p.Stdin = append(s.p.Stdin, b...)
	return len(b), nil
}

func (s stdinPipe) Close() error {
	if !s.p.StdinClosed {
		s.p.StdinClosed = true
		if s.p.Reads {
			s.p.End()
		}
	}
	return nil
}

//sym:model (*os/exec.Cmd).StdinPipe
func StdinPipe(c *exec.Cmd) (io.WriteCloser, error) {
	p := procs[c]
	if p.StdinErr != nil {
		return nil, p.StdinErr
	}
	return stdinPipe{p}, nil
}

//sym:model (*os/exec.Cmd).Start
func Start(c *exec.Cmd) error {
	p := procs[c]
	if p.Started {
		return errors.New("exec: already started")
	}
	if p.StartErr != nil {
		return p.StartErr
	}
	p.Started = true
	Started = append(Started, p)
	p.StartedAt = time.Now()
	c.Process = &os.Process{Pid: ChildPid}
	byProc[c.Process] = p
	if !p.Long && !p.Reads {
		p.End()
	}
	return nil
}

//sym:model (*os/exec.Cmd).Wait
func Wait(c *exec.Cmd) error {
	p := procs[c]
	if !p.Started {
		return errors.New("exec: not started")
	}
	if p.Waited {
		return errors.New("exec: Wait was already called")
	}
	<-p.done
	p.Waited = true
	// Wait closes the pipes
	p.Out.close()
	p.Err.close()
	p.StdinClosed = true
	ps := new(os.ProcessState)
	states[ps] = p
	c.ProcessState = ps
	if !(p.Status.Exited() && p.Status.ExitStatus() == 0) {
		return &exec.ExitError{ProcessState: ps}
	}
	return nil
}

//sym:model (*os/exec.Cmd).Run
func Run(c *exec.Cmd) error {
	if err := Start(c); err != nil {
		return err
	}
	return Wait(c)
}

//sym:model (*os/exec.Cmd).String
func CmdString(c *exec.Cmd) string { return c.Path }

//sym:model os/exec.LookPath
func LookPath(name string) (string, error) {
	if p, ok := Programs[name]; ok {
		return p, nil
	}
	return "", &exec.Error{Name: name, Err: exec.ErrNotFound}
}

//sym:model (*os.ProcessState).Success
func Success(ps *os.ProcessState) bool {
	w := states[ps].Status
	return w.Exited() && w.ExitStatus() == 0
}

//sym:model (*os.ProcessState).Exited
func Exited(ps *os.ProcessState) bool { return states[ps].Status.Exited() }

//sym:model (*os.ProcessState).ExitCode
func ExitCode(ps *os.ProcessState) int {
	if ps == nil {
		return -1
	}
	return states[ps].Status.ExitStatus()
}

//sym:model (*os.ProcessState).Sys
func Sys(ps *os.ProcessState) interface{} { return states[ps].Status }

//sym:model (*os.ProcessState).Pid
func Pid(ps *os.ProcessState) int { return ChildPid }

//sym:model (*os.ProcessState).String
func StateString(ps *os.ProcessState) string { return "exit status" }

//sym:model (*os.Process).Signal
func Signal(op *os.Process, sig os.Signal) error {
	p := byProc[op]
	if p == nil {
		return errors.New("os: process not initialized")
	}
	return p.signal(sig)
}

func (p *Proc) signal(sig os.Signal) error {
	if p.Waited {
		return errors.New("os: process already finished")
	}
	if p.SignalErr != nil {
		return p.SignalErr
	}
	p.Signals = append(p.Signals, sig)
	if p.Signalled != nil {
		p.Signalled(sig)
	}
	s, ok := sig.(syscall.Signal)
	if !ok {
		return errors.New("os: unsupported signal type")
	}
	if (s == syscall.SIGKILL || p.Dies) && !p.Ended {
		p.Status = syscall.WaitStatus(s)
		p.End()
	}
	return nil
}

//sym:model (*os.Process).Kill
func Kill(op *os.Process) error { return Signal(op, syscall.SIGKILL) }

//sym:model syscall.Kill
func SysKill(pid int, sig syscall.Signal) error {
	for _, p := range procs {
		if p.Started && (pid == ChildPid || pid == -ChildPid) {
			return p.signal(sig)
		}
	}
	return syscall.ESRCH
}

//sym:model os.Getpid
func Getpid() int { return SelfPid }

//sym:model os.Hostname
func Hostname() (string, error) { return Host, HostErr }

//sym:model os.Getenv
func Getenv(k string) string {
	v, _ := LookupEnv(k)
	return v
}

//sym:model os.LookupEnv
func LookupEnv(k string) (string, bool) {
	v, ok := Env[k]
	if !ok && k != "SHELL" && k != "environment" {
		// a variable the harness knows nothing about may be set
		if ok = sym.Choose("environment "+k, 2) == 1; ok {
			v = "1"
			Env[k] = v
		}
	}
	return v, ok
}

// Info describes a file.
type Info struct {
	FName  string
	FSize  int64
	FMode  os.FileMode
	FTime  time.Time
	Folder bool
}

func (i *Info) Name() string       { return i.FName }
func (i *Info) Size() int64        { return i.FSize }
func (i *Info) Mode() os.FileMode  { return i.FMode }
func (i *Info) ModTime() time.Time { return i.FTime }
func (i *Info) IsDir() bool        { return i.Folder }
func (i *Info) Sys() interface{}   { return nil }

func noEntry(op, name string) error {
	return &os.PathError{Op: op, Path: name, Err: syscall.ENOENT}
}

//sym:model os.Stat
func Stat(name string) (os.FileInfo, error) {
	if StatOf == nil {
		return nil, noEntry("stat", name)
	}
	return StatOf(name)
}

//sym:model os.Lstat
func Lstat(name string) (os.FileInfo, error) { return Stat(name) }

//sym:model (*os.File).Stat
func FileStat(f *os.File) (os.FileInfo, error) {
	if StdinInfoErr != nil {
		return nil, StdinInfoErr
	}
	if StdinInfo == nil {
		return &Info{FName: "stdin", FMode: os.ModeDevice | os.ModeCharDevice}, nil
	}
	return StdinInfo, nil
}

//sym:model os.Open
func Open(name string) (*os.File, error) {
	if FileOf == nil {
		return nil, noEntry("open", name)
	}
	b, err := FileOf(name)
	if err != nil {
		return nil, err
	}
	f := new(os.File)
	In[f] = &Stream{Data: b}
	return f, nil
}

//sym:model os.ReadFile
func ReadFile(name string) ([]byte, error) {
	if FileOf == nil {
		return nil, noEntry("open", name)
	}
	return FileOf(name)
}

//sym:model io/ioutil.ReadFile
func ReadFile2(name string) ([]byte, error) { return ReadFile(name) }

//sym:model (*os.File).ReadFrom
func ReadFrom(f *os.File, r io.Reader) (int64, error) { return copyTo(fileWriter{f}, r) }

//sym:model (*os.File).WriteTo
func WriteTo(f *os.File, w io.Writer) (int64, error) { return copyTo(w, fileReader{f}) }

type fileWriter struct{ f *os.File }

func (w fileWriter) Write(b []byte) (int, error) { return Write(w.f, b) }

type fileReader struct{ f *os.File }

func (r fileReader) Read(b []byte) (int, error) { return Read(r.f, b) }

func copyTo(w io.Writer, r io.Reader) (int64, error) {
	buf := make([]byte, 64)
	var n int64
	for {
		k, err := r.Read(buf)
		if k > 0 {
			m, e := w.Write(buf[:k])
			n += int64(m)
			if e != nil {
				return n, e
			}
		}
		if err == io.EOF {
			return n, nil
		}
		if err != nil {
			return n, err
		}
	}
}

// Sscanf covers a single %d verb.
//
//sym:model fmt.Sscanf
func Sscanf(str, format string, a ...interface{}) (int, error) {
	if format != "%d" || len(a) != 1 {
		sym.Cut("Sscanf with other verbs")
	}
	i := 0
	for i < len(str) && (str[i] == ' ' || str[i] == '\t') {
		i++
	}
	j := i
	for j < len(str) && str[j] >= '0' && str[j] <= '9' {
		j++
	}
	if i == j {
		return 0, errors.New("expected integer")
	}
	switch p := a[0].(type) {
	case *uint64:
		v, err := strconv.ParseUint(str[i:j], 10, 64)
		if err != nil {
			return 0, err
		}
		*p = v
	case *int:
		v, err := strconv.Atoi(str[i:j])
		if err != nil {
			return 0, err
		}
		*p = v
	case *int64:
		v, err := strconv.ParseInt(str[i:j], 10, 64)
		if err != nil {
			return 0, err
		}
		*p = v
	default:
		sym.Cut("Sscanf into another type")
	}
	return 1, nil
}
