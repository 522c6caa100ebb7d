// Package mos is the model of the process's streams: files and the pipes of a
// command. Writes are recorded per file, reads come from prepared data.
package mos

import (
	"errors"
	"io"
	"os"
	"os/exec"
	"sync"
)

// Stream is the data a reader gets: Data in pieces of at most Chunk bytes,
// then Err (or the end).
type Stream struct {
	Data  []byte
	Sizes []int
	Err   error
	Feed  chan []byte   // more data, until it is closed
	gate  chan struct{} // the end is reached when it is closed

	shared *sync.Mutex
	closed bool
}

func (s *Stream) close() {
	s.shared.Lock()
	s.closed = true
	s.shared.Unlock()
}

func (s *Stream) Read(b []byte) (int, error) {
	if s.shared != nil {
		s.shared.Lock()
		closed := s.closed
		s.shared.Unlock()
		if closed {
			return 0, os.ErrClosed
		}
	}
	if len(s.Data) == 0 && s.Feed != nil {
		s.Data = <-s.Feed
	}
	if len(s.Data) == 0 {
		if s.gate != nil {
			<-s.gate
		}
		if s.Err != nil {
			return 0, s.Err
		}
		return 0, io.EOF
	}
	n := len(s.Data)
	if len(s.Sizes) > 0 {
		if s.Sizes[0] < n {
			n = s.Sizes[0]
		}
		s.Sizes = s.Sizes[1:]
	}
	if len(b) < n {
		n = len(b)
	}
	copy(b, s.Data[:n])
	s.Data = s.Data[n:]
	return n, nil
}

func (s *Stream) Close() error { return nil }

// Out is what was written to a file.
type Out struct {
	Writes [][]byte
	Fail   map[int]bool // calls that fail
	Failed int          // calls that failed
	Closed int
	calls  int
	after  bool // written after it was closed
}

var (
	outs  = map[*os.File]*Out{}
	In    = map[*os.File]*Stream{}
	Pipes = map[*exec.Cmd][2]*Stream{}
	// PipeErr makes StdoutPipe (0) or StderrPipe (1) fail
	PipeErr [2]error
)

// Of is what was written to f.
func Of(f *os.File) *Out {
	o := outs[f]
	if o == nil {
		o = &Out{Fail: map[int]bool{}}
		outs[f] = o
	}
	return o
}

//sym:model os.NewFile
func NewFile(fd uintptr, name string) *os.File { return new(os.File) }

//sym:model (*os.File).Write
func Write(f *os.File, b []byte) (int, error) {
	o := Of(f)
	i := o.calls
	o.calls++
	if o.Closed > 0 {
		o.after = true
		return 0, errors.New("file already closed")
	}
	if o.Fail[i] {
		o.Failed++
		return 0, errors.New("write failed")
	}
	o.Writes = append(o.Writes, append([]byte(nil), b...))
	return len(b), nil
}

//sym:model (*os.File).WriteString
func WriteString(f *os.File, s string) (int, error) { return Write(f, []byte(s)) }

//sym:model (*os.File).Close
func Close(f *os.File) error {
	Of(f).Closed++
	return nil
}

//sym:model (*os.File).Read
func Read(f *os.File, b []byte) (int, error) {
	s := In[f]
	if s == nil {
		return 0, io.EOF
	}
	return s.Read(b)
}

//sym:model (*os/exec.Cmd).StdoutPipe
func StdoutPipe(c *exec.Cmd) (io.ReadCloser, error) {
	if PipeErr[0] != nil {
		return nil, PipeErr[0]
	}
	return Pipes[c][0], nil
}

//sym:model (*os/exec.Cmd).StderrPipe
func StderrPipe(c *exec.Cmd) (io.ReadCloser, error) {
	if PipeErr[1] != nil {
		return nil, PipeErr[1]
	}
	return Pipes[c][1], nil
}
