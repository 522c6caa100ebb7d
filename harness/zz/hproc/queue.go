// Package hproc holds the harnesses for pkg/monny/proc.
package hproc

import (
	"sync"

	"github.com/BTBurke/monny/pkg/monny/proc"
	"github.com/BTBurke/monny/zzverif/sym"
)

func same(got, want []string, label string) {
	sym.Assert(len(got) == len(want), label)
	for i := range want {
		sym.Assert(sym.EqString(got[i], want[i]), label)
	}
}

// QueueOps: any sequence of adds, copies and clears on a queue.
func QueueOps(capacity, steps int) {
	q := proc.NewQueue(capacity)
	var want []string
	var copies, kept [][]string
	for i := 0; i < steps; i++ {
		switch sym.Choose("op", 3) {
		case 0:
			s := sym.String("line", 2)
			q.Add(s)
			want = append(want, s)
			if len(want) > capacity {
				want = want[1:]
				sym.Cover("full")
			}
		case 1:
			c := q.Copy()
			same(c, want, "the queue holds the most recent lines in order")
			copies = append(copies, c)
			kept = append(kept, append([]string(nil), want...))
		default:
			q.Clear()
			want = nil
		}
	}
	same(q.Copy(), want, "the queue holds the most recent lines in order")
	for i := range copies {
		same(copies[i], kept[i], "a copy is not affected by later changes")
	}
	if len(copies) > 0 && len(copies[0]) > 0 {
		copies[0][0] = "changed"
		same(q.Copy(), want, "changing a copy does not change the queue")
	}
}

// QueueLong: many adds.
func QueueLong(capacity, n int) {
	q := proc.NewQueue(capacity)
	var all []string
	for i := 0; i < n; i++ {
		s := sym.String("line", 1)
		all = append(all, s)
		q.Add(s)
		want := all
		if len(want) > capacity {
			want = want[len(want)-capacity:]
		}
		same(q.Copy(), want, "the queue holds the most recent lines in order")
	}
}

// QueueShared: adders, a clearer and a reader at the same time.
func QueueShared(capacity, adders, each, clears int) {
	q := proc.NewQueue(capacity)
	names := []string{"a", "b", "c", "d"}
	var wg sync.WaitGroup
	for i := 0; i < adders; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for j := 0; j < each; j++ {
				q.Add(names[i] + string(rune('0'+j)))
			}
		}(i)
	}
	wg.Add(1)
	go func() {
		defer wg.Done()
		for i := 0; i < clears; i++ {
			q.Clear()
		}
		check(q.Copy(), capacity, adders, each)
	}()
	wg.Wait()
	got := q.Copy()
	check(got, capacity, adders, each)
	if clears == 0 {
		n := adders * each
		if n > capacity {
			n = capacity
		}
		sym.Assert(len(got) == n, "no line is lost while there is room")
	}
}

func check(got []string, capacity, adders, each int) {
	sym.Assert(len(got) <= capacity, "a queue never holds more than its capacity")
	last := map[byte]int{}
	for _, s := range got {
		sym.Assert(len(s) == 2, "only added lines are in the queue")
		who, n := s[0], int(s[1]-'0')
		if p, ok := last[who]; ok {
			sym.Assert(n == p+1, "the lines of one writer are in order, without gap or repetition")
		}
		last[who] = n
		sym.Assert(int(who-'a') < adders && n < each, "only added lines are in the queue")
	}
}
