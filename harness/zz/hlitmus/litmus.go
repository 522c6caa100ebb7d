// Package hlitmus holds small concurrent programs that exercise the schedule
// exploration of the engine itself: each covers the outcome it reached, and the
// set of outcomes with partial order reduction has to be that without.
package hlitmus

import (
	"context"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"github.com/BTBurke/monny/zzverif/sym"
)

type log struct {
	mu sync.Mutex
	s  string
}

func (l *log) add(x string) {
	l.mu.Lock()
	l.s += x
	l.mu.Unlock()
}

// Lit runs litmus number n.
func Lit(n int) {
	out := ""
	switch n {
	case 0: // order of critical sections
		var l log
		var wg sync.WaitGroup
		for i := 0; i < 3; i++ {
			i := i
			wg.Add(1)
			go func() { l.add(strconv.Itoa(i)); wg.Done() }()
		}
		wg.Wait()
		out = l.s
	case 1: // buffered channel, several senders, bounded room
		c := make(chan int, 1)
		for i := 0; i < 3; i++ {
			i := i
			go func() { c <- i }()
		}
		for i := 0; i < 3; i++ {
			out += strconv.Itoa(<-c)
		}
	case 2: // unbuffered, two receivers
		c := make(chan int)
		var a, b int
		var wg sync.WaitGroup
		wg.Add(2)
		go func() { a = <-c; wg.Done() }()
		go func() { b = <-c; wg.Done() }()
		go func() { c <- 1 }()
		go func() { c <- 2 }()
		wg.Wait()
		out = strconv.Itoa(a) + strconv.Itoa(b)
	case 3: // poll
		c := make(chan int, 1)
		d := make(chan int, 1)
		go func() { c <- 1 }()
		go func() { d <- 1 }()
		for i := 0; i < 3; i++ {
			select {
			case <-c:
				out += "c"
			case <-d:
				out += "d"
			default:
				out += "-"
			}
		}
	case 4: // close against sends and receives
		c := make(chan int, 2)
		done := make(chan struct{})
		var l log
		var wg sync.WaitGroup
		wg.Add(2)
		go func() {
			defer wg.Done()
			select {
			case c <- 1:
				l.add("s")
			case <-done:
				l.add("q")
			}
		}()
		go func() {
			defer wg.Done()
			select {
			case <-c:
				l.add("r")
			case <-done:
				l.add("Q")
			}
		}()
		close(done)
		wg.Wait()
		out = l.s
	case 5: // condition variables
		var mu sync.Mutex
		c := sync.NewCond(&mu)
		n := 0
		s := ""
		var wg sync.WaitGroup
		wg.Add(3)
		for i := 0; i < 2; i++ {
			i := i
			go func() {
				defer wg.Done()
				mu.Lock()
				for n == 0 {
					c.Wait()
				}
				s += strconv.Itoa(i)
				mu.Unlock()
			}()
		}
		go func() {
			defer wg.Done()
			mu.Lock()
			n++
			s += "b"
			mu.Unlock()
			c.Broadcast()
		}()
		wg.Wait()
		out = s
	case 6: // timers against messages
		c := make(chan int, 1)
		t := time.After(time.Millisecond)
		go func() { c <- 1 }()
		for i := 0; i < 2; i++ {
			select {
			case <-c:
				out += "c"
			case <-t:
				out += "t"
			}
		}
	case 7: // atomics
		var x, y int32
		var wg sync.WaitGroup
		var a, b int32
		wg.Add(2)
		go func() { atomic.StoreInt32(&x, 1); a = atomic.LoadInt32(&y); wg.Done() }()
		go func() { atomic.StoreInt32(&y, 1); b = atomic.LoadInt32(&x); wg.Done() }()
		wg.Wait()
		out = strconv.Itoa(int(a)) + strconv.Itoa(int(b))
	case 8: // reader-writer lock
		var mu sync.RWMutex
		s := 0
		var a, b int
		var wg sync.WaitGroup
		wg.Add(3)
		go func() { mu.RLock(); a = s; mu.RUnlock(); wg.Done() }()
		go func() { mu.RLock(); b = s; mu.RUnlock(); wg.Done() }()
		go func() { mu.Lock(); s = 1; mu.Unlock(); mu.Lock(); s = 2; mu.Unlock(); wg.Done() }()
		wg.Wait()
		out = strconv.Itoa(a) + strconv.Itoa(b)
	case 9: // context cancelled, worker, result
		ctx, stop := context.WithCancel(context.Background())
		res := make(chan string, 1)
		var l log
		go func() {
			select {
			case <-ctx.Done():
				res <- "x"
			default:
				res <- "w"
			}
		}()
		go func() { l.add("a"); stop() }()
		go func() { l.add("b"); stop() }()
		out = <-res
		l.mu.Lock()
		out += l.s
		l.mu.Unlock()
	case 10: // room made by one receive is taken by any sender
		c := make(chan int, 1)
		var l log
		var wg sync.WaitGroup
		wg.Add(4)
		go func() { c <- 1; l.add("A"); c <- 2; l.add("B"); wg.Done() }()
		go func() { c <- 3; l.add("C"); wg.Done() }()
		go func() { l.add(strconv.Itoa(<-c)); wg.Done() }()
		go func() { l.add(strconv.Itoa(<-c)); wg.Done() }()
		wg.Wait()
		out = l.s + strconv.Itoa(<-c)
	case 11: // try-lock-like flags and data choices
		var mu sync.Mutex
		b := sym.Bool("b")
		s := ""
		var wg sync.WaitGroup
		wg.Add(2)
		go func() {
			mu.Lock()
			if b {
				s += "t"
			} else {
				s += "f"
			}
			mu.Unlock()
			wg.Done()
		}()
		go func() {
			mu.Lock()
			if sym.Choose("k", 2) == 0 {
				s += "0"
			} else {
				s += "1"
			}
			mu.Unlock()
			wg.Done()
		}()
		wg.Wait()
		out = s
	case 12: // add against wait
		var wg sync.WaitGroup
		var l log
		c := make(chan int, 1)
		go func() { wg.Add(1); l.add("a"); c <- 1; wg.Done() }()
		wg.Wait()
		l.add("w")
		<-c
		wg.Wait()
		out = l.s
	case 13: // signal wakes one
		var mu sync.Mutex
		c := sync.NewCond(&mu)
		s := ""
		n := 0
		for i := 0; i < 2; i++ {
			i := i
			go func() {
				mu.Lock()
				for n == 0 {
					c.Wait()
				}
				n--
				s += strconv.Itoa(i)
				mu.Unlock()
			}()
		}
		go func() { mu.Lock(); n++; mu.Unlock(); c.Signal() }()
		sym.Quiesce()
		mu.Lock()
		out = s
		mu.Unlock()
	case 14: // readers, a writer, and what they read
		var rw sync.RWMutex
		var x int32
		var l log
		var wg sync.WaitGroup
		wg.Add(3)
		for i := 0; i < 2; i++ {
			i := i
			me := string(rune('a' + i))
			go func() {
				for k := i; k < 2; k++ {
					rw.RLock()
					l.add(me + strconv.Itoa(int(atomic.LoadInt32(&x))))
					rw.RUnlock()
				}
				wg.Done()
			}()
		}
		go func() {
			atomic.AddInt32(&x, 1)
			rw.Lock()
			atomic.AddInt32(&x, 1)
			rw.Unlock()
			wg.Done()
		}()
		wg.Wait()
		out = l.s
	case 15:
		var rw sync.RWMutex
		var x int32
		var a1, a2, b1 int32
		var wg sync.WaitGroup
		wg.Add(3)
		go func() {
			rw.RLock()
			a1 = atomic.LoadInt32(&x)
			rw.RUnlock()
			rw.RLock()
			a2 = atomic.LoadInt32(&x)
			rw.RUnlock()
			wg.Done()
		}()
		go func() {
			rw.RLock()
			b1 = atomic.LoadInt32(&x)
			rw.RUnlock()
			wg.Done()
		}()
		go func() {
			atomic.AddInt32(&x, 1)
			rw.Lock()
			atomic.AddInt32(&x, 1)
			rw.Unlock()
			wg.Done()
		}()
		wg.Wait()
		out = strconv.Itoa(int(a1*100 + a2*10 + b1))
	}
	sym.Cover(out)
}

type rnd uint32

func (r *rnd) n(k int) int {
	*r = *r*1664525 + 1013904223
	return int(*r>>16) % k
}

// Random runs a random program: goroutines that each perform a few operations on
// shared channels, locks and conditions and record what they saw.
func Random(seed, procs, ops int) {
	r := rnd(seed*7919 + 17)
	for i := 0; i < 5; i++ {
		r.n(2)
	}
	var l log
	cs := []chan int{make(chan int, r.n(3)), make(chan int, 1+r.n(2)), make(chan int)}
	stop := make(chan struct{})
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	var rw sync.RWMutex
	var wg sync.WaitGroup
	var x int32
	shared := 0
	ctx, cancel := context.WithCancel(context.Background())
	var once sync.Once
	for p := 0; p < procs; p++ {
		p := p
		var code [][2]int
		for i := 0; i < ops; i++ {
			code = append(code, [2]int{r.n(20), r.n(3)})
		}
		go func() {
			for i, op := range code {
				me := string(rune('a'+p)) + strconv.Itoa(i)
				c := cs[op[1]]
				switch op[0] {
				case 0:
					c <- p*10 + i
				case 1, 2:
					l.add(me + "=" + strconv.Itoa(<-c) + " ")
				case 3:
					select {
					case v := <-c:
						l.add(me + "=" + strconv.Itoa(v) + " ")
					default:
						l.add(me + "! ")
					}
				case 4:
					select {
					case c <- p*10 + i:
					default:
						l.add(me + "! ")
					}
				case 5:
					select {
					case v := <-cs[0]:
						l.add(me + "=" + strconv.Itoa(v) + " ")
					case cs[1] <- p*10 + i:
						l.add(me + "s ")
					case <-stop:
						l.add(me + "q ")
					}
				case 6:
					mu.Lock()
					shared++
					mu.Unlock()
					cond.Broadcast()
				case 7:
					mu.Lock()
					shared++
					mu.Unlock()
					cond.Signal()
				case 8:
					mu.Lock()
					for shared == 0 {
						cond.Wait()
					}
					shared--
					mu.Unlock()
					l.add(me + "w ")
				case 9:
					rw.RLock()
					l.add(me + "=" + strconv.Itoa(int(atomic.LoadInt32(&x))) + " ")
					rw.RUnlock()
				case 10:
					rw.Lock()
					atomic.AddInt32(&x, 1)
					rw.Unlock()
				case 11:
					l.add(me + "=" + strconv.Itoa(int(atomic.AddInt32(&x, 1))) + " ")
				case 12:
					once.Do(func() { close(stop) })
				case 13:
					cancel()
				case 14:
					select {
					case <-ctx.Done():
						l.add(me + "d ")
					case v := <-c:
						l.add(me + "=" + strconv.Itoa(v) + " ")
					}
				case 17:
					select {
					case <-time.After(time.Millisecond):
						l.add(me + "t ")
					case v := <-c:
						l.add(me + "=" + strconv.Itoa(v) + " ")
					}
				case 18:
					tm := time.NewTimer(time.Millisecond)
					atomic.AddInt32(&x, 1)
					if !tm.Stop() {
						<-tm.C
						l.add(me + "T ")
					}
				case 19:
					if sym.Choose("b", 2) == 0 {
						atomic.AddInt32(&x, 1)
					} else {
						l.add(me + "c ")
					}
				case 15:
					wg.Add(1)
					atomic.AddInt32(&x, 1)
					wg.Done()
				case 16:
					wg.Wait()
					l.add(me + "=" + strconv.Itoa(int(atomic.LoadInt32(&x))) + " ")
				}
			}
		}()
	}
	sym.Settle()
	l.mu.Lock()
	sym.Cover(l.s)
	l.mu.Unlock()
}
