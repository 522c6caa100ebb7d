# Behaviour-preserving edits of /repo: (name, properties to check, [(file, old, new)...])
R=[]
def r(n,p,*e): R.append((n,p,list(e)))
B='pkg/eventbus/bus.go'
r('bus-topics-map','C15 C16 C17',
 (B,'''	for topic, chs := range e.subscribers {
		var kept []chan Event
		for _, ch := range chs {
			if ch != c {
				kept = append(kept, ch)
			}
		}
		e.subscribers[topic] = kept
	}''','''	for topic := range e.subscribers {
		e.subscribers[topic] = without(e.subscribers[topic], c)
	}'''),
 (B,'// Dispatch will send','''// without returns the channels other than c
func without(all []chan Event, c chan Event) []chan Event {
	kept := make([]chan Event, 0, len(all))
	for i := 0; i < len(all); i++ {
		if all[i] == c {
			continue
		}
		kept = append(kept, all[i])
	}
	return kept
}

// Dispatch will send'''))
r('bus-shutdown-loop','C16 C17',
 (B,'''	var wg sync.WaitGroup

	// launch one go routine for each non-nil channel and wait until all return to know
	// that all subscribers have shut down
	for _, ch := range all {
		wg.Add(1)
		go func(c chan struct{}) {
			select {
			case <-c:
				wg.Done()
				return
			}
		}(ch)
	}
	wg.Wait()
	close(done)''','''	for _, ch := range all {
		<-ch
	}
	close(done)'''))
r('bus-shutdown-once','C15 C17',
 (B,'	once sync.Once\n	d    chan struct{}','	mu     sync.Mutex\n	closed bool\n	d      chan struct{}'),
 (B,'	s.once.Do(func() { close(s.d) })','''	s.mu.Lock()
	defer s.mu.Unlock()
	if !s.closed {
		s.closed = true
		close(s.d)
	}'''))
r('bus-dispatch-collect','C15 C16 C17',
 (B,'''		channels, ok := e.subscribers[topic]
		if len(channels) == 0 || !ok {
			continue
		}

		for _, ch := range channels {''','''		for _, ch := range e.subscribers[topic] {'''))
r('event-bytes','C32 C15',
 ('pkg/eventbus/event.go','	return Event{t: t, d: b.Bytes()}, nil','	payload := make([]byte, b.Len())\n	copy(payload, b.Bytes())\n	return Event{t: t, d: payload}, nil'))
C='pkg/metric/counter.go'
r('counter-closed-helper','C03 C04 C05',
 (C,'''	now := time.Now().UTC()
	end := c.current.start.Add(c.current.duration)

	// check if the current window has closed, if so return 0
	switch {
	case now.After(end) && c.current.duration > 0:
		return 0
	default:
		return c.current.Value()
	}''','''	if c.closed() {
		return 0
	}
	return c.current.Value()'''),
 (C,'// Add will increment the current counter value','''func (c *WindowedCounter) closed() bool {
	return c.current.duration > 0 && time.Since(c.current.start) > c.current.duration
}

// Add will increment the current counter value'''))
r('counter-history-loop','C05',
 (C,'''		c := []Counter{}
		for _, h := range hist {
			if time.Now().UTC().Sub(h.start) <= maxduration {
				c = append(c, h)
			}
		}
		return c''','''		now := time.Now().UTC()
		kept := make([]Counter, 0, len(hist))
		for i := range hist {
			if now.Sub(hist[i].start) > maxduration {
				continue
			}
			kept = append(kept, hist[i])
		}
		return kept'''))
r('counter-mutex','C03',
 (C,'	mu sync.RWMutex\n	c  *Counter','	mu sync.Mutex\n	c  *Counter'),
 (C,'''	c.mu.RLock()
	defer c.mu.RUnlock()
	return c.c.Value()
}

func (c *ConcurrentCounter) Add''','''	c.mu.Lock()
	v := c.c.Value()
	c.mu.Unlock()
	return v
}

func (c *ConcurrentCounter) Add'''))
S='pkg/metric/series.go'
r('series-modulo','C06 C07 C10',
 (S,'	return int(math.Mod(float64(s.count), float64(cap)))','	return s.count % cap'),
 (S,'	"math"\n',''))
r('series-values-loop','C06 C10',
 (S,'''		oldest := s.nextIndex()
		return append(append(out, s.values[oldest:]...), s.values[0:oldest]...)''','''		for i, oldest := 0, s.nextIndex(); i < len(s.values); i++ {
			out = append(out, s.values[(oldest+i)%len(s.values)])
		}
		return out'''))
P='pkg/metric/sampled.go'
r('sampled-minmax','C08 C07',
 (P,'		min = math.Min(min, o)','		if o < min {\n			min = o\n		}'),
 (P,'		max = math.Max(max, o)','		if o > max {\n			max = o\n		}'),
 (P,'	"math"\n',''))
r('sampled-flush','C07',
 (P,'''					s.mu.Lock()
					if len(s.obs) == 0 {
						s.s.Record(0.0)
					} else {
						s.s.Record(s.transform(s.obs))
						s.obs = make([]float64, 0)
					}
					s.mu.Unlock()''','					s.flush()'),
 (P,'// Reset clears all previous','''func (s *SampledSeries) flush() {
	s.mu.Lock()
	defer s.mu.Unlock()
	v := 0.0
	if len(s.obs) > 0 {
		v = s.transform(s.obs)
		s.obs = nil
	}
	s.s.Record(v)
}

// Reset clears all previous'''))
r('sampled-loop-ticker','C07 C12',
 (P,'''			defer s.wg.Done()
			for {''','''			defer s.wg.Done()
			defer s.t.Stop()
			for {'''),
 (P,'''					s.t.Stop()
					return''','					return'))
N='pkg/metric/name.go'
r('name-builder','C09',
 (N,'''	var b bytes.Buffer
	b.Write([]byte("["))
''','''	var b bytes.Buffer
	b.WriteByte('[')
'''),
 (N,'	return n.name + string(md)','	return fmt.Sprintf("%s%s", n.name, md)'),
 (N,'''	if len(keys) > 0 && len(ann) > 0 {
		b.Write([]byte(" "))
	}
	if len(ann) > 0 {
		b.Write([]byte(strings.Join(ann, " ")))
	}''','''	for i, a := range ann {
		if i > 0 || len(keys) > 0 {
			b.WriteString(" ")
		}
		b.WriteString(a)
	}'''),
 (N,'	"strings"\n',''))
r('name-sortslice','C09',
 (N,'	sort.Strings(keys)\n','	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })\n'))
E='pkg/stat/estimator.go'
r('estimator-baseline','C10 C11 C12',
 (E,'''		if e.series.Count() >= e.series.Capacity() {
			values := e.series.Values()
			mean := e.pdf.Mean(values)
			variance := e.pdf.Variance(values, mean)
			if mean > 0.0 && variance > 0.0 {
				if err := e.fsm.Transition(TestingUCL); err != nil {
					return err
				}
				e.current = mean
				e.limit = calculateLimit(mean, variance, e.lambda, e.pdf, 1)
			}
		}
''','''		return e.baseline(TestingUCL, 1)
'''),
 (E,'''		if e.series.Count() >= e.series.Capacity() {
			values := e.series.Values()
			mean := e.pdf.Mean(values)
			variance := e.pdf.Variance(values, mean)
			if mean > 0.0 && variance > 0.0 {
				if err := e.fsm.Transition(TestingLCL); err != nil {
					return err
				}
				e.current = mean
				e.limit = calculateLimit(mean, variance, e.lambda, e.pdf, -1)
			}
		}
''','''		return e.baseline(TestingLCL, -1)
'''),
 (E,'// HasAlarmed','''func (e *TestStatistic) baseline(next fsm.State, direction int) error {
	if e.series.Count() < e.series.Capacity() {
		return nil
	}
	values := e.series.Values()
	mean := e.pdf.Mean(values)
	variance := e.pdf.Variance(values, mean)
	if !(mean > 0.0 && variance > 0.0) {
		return nil
	}
	limit := calculateLimit(mean, variance, e.lambda, e.pdf, direction)
	if err := e.fsm.Transition(next); err != nil {
		return err
	}
	e.limit, e.current = limit, mean
	return nil
}

// HasAlarmed'''))
r('estimator-algebra','C10 C11',
 (E,'	e.current = (e.lambda * o) + ((1.0 - e.lambda) * e.current)','	e.current += e.lambda * (o - e.current)'),
 (E,'	estimatorVariance := (lambda / (2.0 - lambda)) * variance','	estimatorVariance := lambda * variance / (2.0 - lambda)'))
r('pdf-variance','C10 C11',
 ('pkg/stat/pdf.go','		s = s + math.Pow(v-mean, 2)','		d := v - mean\n		s += d * d'))
r('stattest-index','C13',
 ('pkg/stat/stattest.go','''	for _, s := range t.sub {
		if s.HasAlarmed() {
			return true
		}
	}
	return false''','''	alarm := false
	for i := range t.sub {
		alarm = alarm || t.sub[i].HasAlarmed()
	}
	return alarm'''),
 ('pkg/stat/stattest.go','	out := make([]fsm.State, 0)\n	for _, s := range t.sub {\n		out = append(out, s.State())\n	}','	out := make([]fsm.State, len(t.sub))\n	for i, s := range t.sub {\n		out[i] = s.State()\n	}'))
r('fsm-map','C01 C02',
 ('pkg/fsm/fsm.go','''	switch m.Allowable(m.current, to) {
	case true:
		m.current = to
		return nil
	default:
		m.stoppable.stopped = true
		return TransitionNotAllowed{Msg: fmt.Sprintf("cannot transition from state %s to %s", m.current, to)}
	}
''','''	if !m.Allowable(m.current, to) {
		m.stoppable.stopped = true
		return TransitionNotAllowed{Msg: "cannot transition from state " + string(m.current) + " to " + string(to)}
	}
	m.current = to
	return nil
'''),
 ('pkg/fsm/fsm.go','import (\n	"fmt"\n)\n',''))
r('nonce-renew','C02',
 ('pkg/fsm/nonce.go','''	m.nonce.received = nonce
	if err := m.m.transition(to, m.m.stoppable, m.nonce); err != nil {
		n, _ := newNonce()
		m.nonce = n
		return err
	}
	n, err := newNonce()
	if err != nil {
		return err
	}
	m.nonce = n
	return nil''','''	m.nonce.received = nonce
	failed := m.m.transition(to, m.m.stoppable, m.nonce)
	n, err := newNonce()
	if failed == nil && err != nil {
		return err
	}
	m.nonce = n
	return failed'''),
 ('pkg/fsm/nonce.go','bytes.Equal(current, received)','subtle.ConstantTimeCompare(current, received) == 1'),
 ('pkg/fsm/nonce.go','	"bytes"\n	"crypto/rand"\n','	"crypto/rand"\n	"crypto/subtle"\n'))
r('rng-loop','C31',
 ('pkg/rng/poisson.go','''	L := math.Pow(math.E, -r.lambda)
	var k int64 = 0
	var p float64 = 1.0

	for {
		k++
		p = p * r.r.Float64()
		if !(p > L) {
			return float64(k - 1)
		}
	}''','''	limit := math.Exp(-r.lambda)
	n := 0
	for p := r.r.Float64(); p > limit; n++ {
		p *= r.r.Float64()
	}
	return float64(n)'''))
Q='pkg/monny/proc/queue.go'
r('queue-copy','C18 C19',
 (Q,'	head := q.q[0]\n	q.q = q.q[1:]\n	return head','	head := q.q[0]\n	copy(q.q, q.q[1:])\n	q.q = q.q[:len(q.q)-1]\n	return head'))
L='pkg/monny/proc/logs.go'
r('logs-reader','C19',
 (L,'''		data := scanner.Bytes()
		src.q.Add(string(data))
''','''		line := scanner.Text()
		data := []byte(line)
		src.q.Add(line)
'''),
 (L,'''		for _, s := range sinks {
			if _, err := s.out.Write(append(data, '\\n')); err != nil {
				newError(bus, SinkError{fmt.Errorf("error writing to sink %s: %v", src.name, err)})
			}
		}''','''		writeAll(bus, src, sinks, line)'''),
 (L,'''	if err := scanner.Err(); err''','''	err := scanner.Err()
	if err'''),
 (L,'// Wait ','''func writeAll(bus eventbus.EventDispatcher, src source, sinks []sink, line string) {
	for i := range sinks {
		if _, err := io.WriteString(sinks[i].out, line+"\\n"); err != nil {
			newError(bus, SinkError{fmt.Errorf("error writing to sink %s: %v", src.name, err)})
		}
	}
}

// Wait '''),
 (L,'	"fmt"\n','	"fmt"\n	"io"\n'))
r('logs-options','C19',
 (L,'	sort.Slice(options, func(i, j int) bool { return options[i].priority() < options[j].priority() })','	options = append([]LogProcessorOption(nil), options...)\n	sort.SliceStable(options, func(i, j int) bool { return options[i].priority() < options[j].priority() })'),
 ('pkg/monny/proc/logopt.go','''	fSinks := []sink{}
	for _, s := range sinks {
		switch s.name {
		case target:
			continue
		default:
			fSinks = append(fSinks, s)
		}
	}
	return fSinks''','''	var fSinks []sink
	for _, s := range sinks {
		if s.name != target {
			fSinks = append(fSinks, s)
		}
	}
	return fSinks'''))
T='pkg/monny/proc/ticker.go'
r('ticker-defer','C20',
 (T,'''		for {
			select {
			case _, open := <-c:
				if !open {
					t.Stop()
					finished()
					return
				}
''','''		defer finished()
		defer t.Stop()
		for {
			select {
			case _, open := <-c:
				if !open {
					return
				}
'''))
M='pkg/monny/command.go'
out='''	matches := checkRule(line, c.Config.Rules)
	c.mutex.Lock()
	c.RuleMatches = append(c.RuleMatches, matches...)
	c.mutex.Unlock()
	if len(matches) > 0 {
		switch {
		case c.Config.RuleQuantity > 0:
			c.send(proto.AlertRate)
		default:
			c.send(proto.Alert)
		}
	}
'''
r('command-match-helper','C23 C24 C26 C28',
 (M,out,'	c.match(line)\n'),
 (M,'func (c *Command) processStdout','''// match records the matches of the rules in a line and reports them
func (c *Command) match(line []byte) {
	matches := checkRule(line, c.Config.Rules)
	if len(matches) == 0 {
		return
	}
	c.mutex.Lock()
	c.RuleMatches = append(c.RuleMatches, matches...)
	c.mutex.Unlock()
	reason := proto.Alert
	if c.Config.RuleQuantity > 0 {
		reason = proto.AlertRate
	}
	c.send(reason)
}

func (c *Command) processStdout'''))
r('command-history-helper','C24 C28',
 (M,'''	c.mutex.Lock()
	c.Stdout = append(c.Stdout, string(line))
	if extra := len(c.Stdout) - c.Config.StdoutHistory; extra > 0 {
		c.Stdout = c.Stdout[extra:]
	}
	c.mutex.Unlock()
	return
''','''	c.mutex.Lock()
	defer c.mutex.Unlock()
	c.Stdout = last(c.Stdout, string(line), c.Config.StdoutHistory)
'''),
 (M,'func (c *Command) processStdout','''// last returns the last max of the lines and another one
func last(lines []string, line string, max int) []string {
	all := append(lines[:len(lines):len(lines)], line)
	if len(all) > max {
		return all[len(all)-max:]
	}
	return all
}

func (c *Command) processStdout'''))
r('command-exec-pipe','C24 C34 C25',
 (M,'''			if _, err := c.out.Write(stdoutScanner.Bytes()); err != nil {
				c.errors.ReportError(fmt.Errorf("error writing log line to stdout: %+v", err))
			}
			c.out.Write([]byte{'\\n'})
			c.processStdout(stdoutScanner.Bytes())''','''			line := stdoutScanner.Bytes()
			if _, err := c.out.Write(line); err != nil {
				c.errors.ReportError(fmt.Errorf("error writing log line to stdout: %+v", err))
			}
			io.WriteString(c.out, "\\n")
			c.processStdout(line)'''),
 (M,'''	switch len(wrappedCmd) {
	case 0:
		return fmt.Errorf("no command to execute")
	case 1:
		cmd = exec.Command(wrappedCmd[0])
	default:
		cmd = exec.Command(wrappedCmd[0], wrappedCmd[1:]...)
	}''','''	if len(wrappedCmd) == 0 {
		return fmt.Errorf("no command to execute")
	}
	cmd = exec.Command(wrappedCmd[0], wrappedCmd[1:]...)'''))
r('command-ticker','C25 C26',
 (M,'''	if runtime.GOOS == "linux" {
		switch c.Config.Daemon {
		case true:
			profileMemory = time.Tick(30 * time.Second)
		default:
			profileMemory = time.Tick(1 * time.Second)
		}
	}''','''	if runtime.GOOS == "linux" {
		every := 1 * time.Second
		if c.Config.Daemon {
			every = 30 * time.Second
		}
		ticker := time.NewTicker(every)
		defer ticker.Stop()
		profileMemory = ticker.C
	}'''),
 (M,'''	if c.Config.KillTimeout > 0 {
		timeout = time.After(c.Config.KillTimeout)
	}''','''	if c.Config.KillTimeout > 0 {
		kill := time.NewTimer(c.Config.KillTimeout)
		defer kill.Stop()
		timeout = kill.C
	}'''))
r('command-waitgroup','C27 C26',
 (M,'''	c.mutex.Lock()
	if c.sent == nil {
		c.sent = sync.NewCond(&c.mutex)
	}
	for c.sending > 0 {
		c.sent.Wait()
	}
	c.mutex.Unlock()
	return c.report.Wait()''','''	c.waitSent()
	return c.report.Wait()'''),
 (M,'// send sends a report','''func (c *Command) waitSent() {
	c.mutex.Lock()
	defer c.mutex.Unlock()
	if c.sent == nil {
		c.sent = sync.NewCond(&c.mutex)
	}
	for {
		if c.sending <= 0 {
			return
		}
		c.sent.Wait()
	}
}

// send sends a report'''))
r('command-json','C23',
 (M,'''		case bool:
			return []byte(fmt.Sprintf("%v", value.(bool)))
		case []interface{}:''','''		case bool:
			return strconv.AppendBool(nil, value.(bool))
		case []interface{}:'''),
 (M,'''	fieldPath := strings.Split(field, ".")
	switch {
	case len(fieldPath) > 1:
		res := make(map[string]json.RawMessage)
		if err := json.Unmarshal(raw, &res); err != nil {
			return []byte{}
		}
		return extractTextFromJSON(res[fieldPath[0]], strings.Join(fieldPath[1:], "."))''','''	dot := strings.Index(field, ".")
	switch {
	case dot >= 0:
		res := make(map[string]json.RawMessage)
		if err := json.Unmarshal(raw, &res); err != nil {
			return []byte{}
		}
		return extractTextFromJSON(res[field[:dot]], field[dot+1:])'''),
 (M,'	"runtime"\n','	"runtime"\n	"strconv"\n'))
r('command-rules','C23',
 (M,'''		found := rule.Regex.FindAllIndex(text, -1)
		if found != nil {
			matches = append(matches, RuleMatch{
				Time:  time.Now(),
				Line:  string(line),
				Index: found,
			})
		}''','''		if !rule.Regex.Match(text) {
			continue
		}
		matches = append(matches, RuleMatch{
			Time:  time.Now(),
			Line:  string(line),
			Index: rule.Regex.FindAllIndex(text, -1),
		})'''))
H='pkg/monny/handlers.go'
r('handlers-killed','C25 C28 C27',
 (H,'''	c.mutex.Lock()
	c.Killed = true
	c.KillReason = proto.Timeout
	c.Finish = time.Now()
	c.Duration = c.Finish.Sub(c.Start)
	c.ReportReason = proto.Killed
	c.mutex.Unlock()

	c.send(proto.Killed)
	if err := cmd.Process.Signal(os.Kill); err != nil {
		return err
	}
''','''	killed(c, proto.Timeout)
	return cmd.Process.Kill()
}

func killed(c *Command, reason proto.KillReason) {
	c.mutex.Lock()
	c.Finish = time.Now()
	c.Duration = c.Finish.Sub(c.Start)
	c.ReportReason = proto.Killed
	c.KillReason = reason
	c.Killed = true
	c.mutex.Unlock()
	c.send(proto.Killed)
}

func unused() error {
'''))
r('handlers-memory','C25 C26',
 (H,'''	mem := calculateMemory(cmd.Process.Pid)
	if mem > c.MaxMemory {
		c.mutex.Lock()
		c.MaxMemory = mem
		c.mutex.Unlock()
	}
	if c.Config.MemoryWarn > 0 && mem >= c.Config.MemoryWarn {
		if !c.memWarnSent {
			c.mutex.Lock()
			c.ReportReason = proto.MemoryWarning
			c.memWarnSent = true
			c.mutex.Unlock()

			c.send(proto.MemoryWarning)
		}
	}''','''	mem := calculateMemory(cmd.Process.Pid)
	c.mutex.Lock()
	if mem > c.MaxMemory {
		c.MaxMemory = mem
	}
	warn := c.Config.MemoryWarn > 0 && mem >= c.Config.MemoryWarn && !c.memWarnSent
	if warn {
		c.ReportReason = proto.MemoryWarning
		c.memWarnSent = true
	}
	c.mutex.Unlock()
	if warn {
		c.send(proto.MemoryWarning)
	}'''))
r('memory-fields','C25',
 ('pkg/monny/memory.go','''			var size uint64
			_, err := fmt.Sscanf(string(line[4:]), "%d", &size)
			if err != nil {
				return 0
			}
			res += size''','''			fields := strings.Fields(string(line[4:]))
			if len(fields) == 0 {
				return 0
			}
			size, err := strconv.ParseUint(fields[0], 10, 64)
			if err != nil {
				return 0
			}
			res += size'''),
 ('pkg/monny/memory.go','	"os"\n','	"os"\n	"strconv"\n	"strings"\n'))
r('memory-readfile','C25',
 ('pkg/monny/memory.go','''	f, err := os.Open(fmt.Sprintf("/proc/%d/smaps", pid))
	if err != nil {
		return 0
	}
	defer f.Close()
''','''	data, err := ioutil.ReadFile("/proc/" + strconv.Itoa(pid) + "/smaps")
	if err != nil {
		return 0
	}
'''),
 ('pkg/monny/memory.go','bufio.NewScanner(f)','bufio.NewScanner(bytes.NewReader(data))'),
 ('pkg/monny/memory.go','	"os"\n','	"io/ioutil"\n	"strconv"\n'))
X='pkg/monny/report.go'
r('report-needs','C26 C27 C29',
 (X,'''	cb := func() { return }
	switch reason {
	case proto.Failure:
		if c.Config.NotifyOnFailure {
			go r.sender.sendBackground(pb, result, cancel)
		} else {
			return
		}
	case proto.Success:
		if c.Config.NotifyOnSuccess {
			go r.sender.sendBackground(pb, result, cancel)
		} else {
			return
		}
	case proto.FileNotCreated, proto.Killed:
		go r.sender.sendBackground(pb, result, cancel)
	case proto.Alert:
		go r.sender.sendBackground(pb, result, cancel)
		cb = clearMatches
	case proto.AlertRate:
		if alertRateExceeded {
			go r.sender.sendBackground(pb, result, cancel)
			cb = clearMatches
		} else {
			return
		}
	case proto.MemoryWarning:
		go r.sender.sendBackground(pb, result, cancel)
	case proto.TimeWarning:
		go r.sender.sendBackground(pb, result, cancel)
	case proto.Start:
		if c.Config.Daemon {
			go r.sender.sendBackground(pb, result, cancel)
		} else {
			return
		}
	default:
		return
	}
''','''	cb := func() {}
	wanted := false
	switch reason {
	case proto.Failure:
		wanted = c.Config.NotifyOnFailure
	case proto.Success:
		wanted = c.Config.NotifyOnSuccess
	case proto.FileNotCreated, proto.Killed, proto.MemoryWarning, proto.TimeWarning:
		wanted = true
	case proto.Alert, proto.AlertRate:
		wanted = reason == proto.Alert || alertRateExceeded
		cb = clearMatches
	case proto.Start:
		wanted = c.Config.Daemon
	}
	if !wanted {
		return
	}
	go r.sender.sendBackground(pb, result, cancel)
'''))
r('report-rate','C26',
 (X,'''	var matchesInPeriod int
	now := time.Now()

	switch {
	case period > 0:
		for _, match := range matches {
			if now.Sub(match.Time) <= period {
				matchesInPeriod++
			}
		}
	default:
		matchesInPeriod = len(matches)
	}

	switch {
	case matchesInPeriod >= quantity:
		return true
	default:
		return false
	}''','''	if period <= 0 {
		return len(matches) >= quantity
	}
	cutoff := time.Now().Add(-period)
	n := 0
	for i := len(matches) - 1; i >= 0; i-- {
		if !matches[i].Time.Before(cutoff) {
			n++
		}
	}
	return n >= quantity'''))
r('report-timer','C27',
 (X,'	timeout := time.After(sendTimeout)\n','	timer := time.NewTimer(sendTimeout)\n	defer timer.Stop()\n	timeout := timer.C\n'),
 (X,'''		switch {
		case err == nil:
			cb()
		default:
			c.errors.ReportError(err)
		}''','''		if err != nil {
			c.errors.ReportError(err)
			return
		}
		cb()'''))
r('report-dialctx','C27 C29',
 (X,'grpc.Dial(net.JoinHostPort(s.host, s.port), s.opts...)','grpc.DialContext(ctx, net.JoinHostPort(s.host, s.port), s.opts...)'))
r('report-marshal','C28',
 (X,'''func marshalMatches(a []RuleMatch, onError func(e error)) []byte {
	b, err := json.Marshal(a)
	if err != nil {
		// Error will be reported externally. Report will continue even if this
		// conversion fails.
		onError(err)
	}
	return b
}''','''func marshalMatches(a []RuleMatch, onError func(e error)) []byte {
	return marshal(a, onError)
}

func marshal(a interface{}, onError func(e error)) []byte {
	b, err := json.Marshal(a)
	if err != nil {
		onError(err)
	}
	return b
}'''))
G='pkg/monny/config.go'
r('config-memory','C21 C22',
 (G,'''	factor := uint64(1)
	switch {
	case strings.HasSuffix(mem, "K"):
		mem = mem[0 : len(mem)-1]
	case strings.HasSuffix(mem, "M"):
		mem = mem[0 : len(mem)-1]
		factor = 1000
	case strings.HasSuffix(mem, "G"):
		mem = mem[0 : len(mem)-1]
		factor = 1000000
	}''','''	factor := uint64(1)
	if n := len(mem); n > 0 {
		switch mem[n-1] {
		case 'K':
			mem = strings.TrimSuffix(mem, "K")
		case 'M':
			mem, factor = mem[:n-1], 1000
		case 'G':
			mem, factor = mem[:n-1], 1000000
		}
	}'''))
r('config-memory-map','C21 C22',
 (G,'''	factor := uint64(1)
	switch {
	case strings.HasSuffix(mem, "K"):
		mem = mem[0 : len(mem)-1]
	case strings.HasSuffix(mem, "M"):
		mem = mem[0 : len(mem)-1]
		factor = 1000
	case strings.HasSuffix(mem, "G"):
		mem = mem[0 : len(mem)-1]
		factor = 1000000
	}''','''	factor := uint64(1)
	for unit, size := range map[string]uint64{"K": 1, "M": 1000, "G": 1000000} {
		if strings.HasSuffix(mem, unit) {
			mem = strings.TrimSuffix(mem, unit)
			factor = size
			break
		}
	}'''))
r('config-host','C21 C29',
 (G,'''		h := strings.Split(pathWithPort, ":")
		if len(h) != 2 {
			return fmt.Errorf("unknown host, use host:port")
		}
		c.host = h[0]
		c.port = h[1]''','''		colon := strings.IndexByte(pathWithPort, ':')
		if colon < 0 || strings.Count(pathWithPort, ":") != 1 {
			return fmt.Errorf("unknown host, use host:port")
		}
		c.host, c.port = pathWithPort[:colon], pathWithPort[colon+1:]'''))
r('config-history','C21 C24',
 (G,'''		hist, err := strconv.Atoi(h)
		if err != nil {
			return err
		}
		if hist < 0 {
			return fmt.Errorf("stdout-history must not be negative")
		}
		c.StdoutHistory = hist
		return nil''','''		hist, err := strconv.ParseInt(h, 10, 0)
		if err == nil && hist < 0 {
			err = fmt.Errorf("stdout-history must not be negative: %d", hist)
		}
		if err == nil {
			c.StdoutHistory = int(hist)
		}
		return err'''))
Y='pkg/monny/parse.go'
r('parse-value','C22 C21',
 (Y,'''		switch v.(type) {
		case string:
			opt, err := handleOption(k, v.(string))
			if err != nil {
				return options, err
			}
			options = append(options, opt)
		case int:
			opt, err := handleOption(k, strconv.Itoa(v.(int)))
			if err != nil {
				return options, err
			}
			options = append(options, opt)
		case bool:
			opt, err := handleOption(k, strconv.FormatBool(v.(bool)))
			if err != nil {
				return options, err
			}
			options = append(options, opt)
		case uint64:
			opt, err := handleOption(k, strconv.FormatUint(v.(uint64), 10))
			if err != nil {
				return options, err
			}
			options = append(options, opt)
''','''		switch v := v.(type) {
		case string, int, bool, uint64:
			opt, err := handleOption(k, fmt.Sprint(v))
			if err != nil {
				return options, err
			}
			options = append(options, opt)
'''),
 (Y,'			for _, val := range v.([]interface{}) {','			for _, val := range v {'))
r('parse-sorted','C22',
 (Y,'''	for k, v := range cfg {
''','''	names := make([]string, 0, len(cfg))
	for k := range cfg {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		v := cfg[k]
'''),
 (Y,'	"os"\n','	"os"\n	"sort"\n'))
r('parse-jsonrule','C21 C22 C23',
 (Y,'''		jrule := strings.SplitAfterN(value, ":", 2)
		if len(jrule) != 2 || len(jrule[0]) == 1 {
			return nil, fmt.Errorf("invalid format for json rule, should be field:value only in %s", value)
		}
		return JSONRule(jrule[0][0:len(jrule[0])-1], jrule[1]), nil''','''		colon := strings.Index(value, ":")
		if colon < 1 {
			return nil, fmt.Errorf("invalid format for json rule, should be field:value only in %s", value)
		}
		return JSONRule(value[:colon], value[colon+1:]), nil'''))
r('main-run','C27 C34 C21',
 ('cmd/monny/main.go','''	if err := cmd.Exec(); err != nil {
		fmt.Println("Process error:", err)
		cmd.Wait()
		os.Exit(1)
	}
	if err := cmd.Wait(); err != nil {
		fmt.Printf("Not all reports sent: %s\\n", err)
		os.Exit(1)
	}

	os.Exit(0)
}''','''	os.Exit(run(cmd))
}

func run(cmd *monny.Command) int {
	err := cmd.Exec()
	if err != nil {
		fmt.Fprintln(os.Stdout, "Process error:", err)
	}
	unsent := cmd.Wait()
	switch {
	case err != nil:
		return 1
	case unsent != nil:
		fmt.Printf("Not all reports sent: %s\\n", unsent)
		return 1
	}
	return 0
}'''))
r('enum-string','C30 C28',
 ('pkg/proto/enum_string.go','func (i KillReason) String() string {','func (i KillReason) String() string {\n	_ = i\n'))
