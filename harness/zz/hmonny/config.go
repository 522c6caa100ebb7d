package hmonny

import (
	"os"
	"time"

	"github.com/BTBurke/monny/pkg/monny"
	"github.com/BTBurke/monny/zzverif/mgrpc"
	"github.com/BTBurke/monny/zzverif/mos"
	"github.com/BTBurke/monny/zzverif/sym"
)

// one makes a command with one option.
func one(o monny.ConfigOption) (*monny.Command, []error) {
	c, errs := monny.New([]string{"prog"}, monny.ID("me"), o)
	sym.Assert((c == nil) == (len(errs) > 0), "a command is created exactly when there is no error")
	sym.Assert(len(errs) <= 1, "an invalid option is one error")
	return c, errs
}

// number reads text as digits with an optional sign. It is plain when there is no sign.
func number(s string) (v int64, ok, plain bool) {
	neg := false
	plain = true
	if len(s) > 0 && (s[0] == '-' || s[0] == '+') {
		neg = s[0] == '-'
		s = s[1:]
		plain = false
	}
	if len(s) == 0 {
		return 0, false, false
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false, false
		}
		v = v*10 + int64(s[i]-'0')
	}
	if neg {
		v = -v
	}
	return v, true, plain
}

func memory(which int, s string) (uint64, bool) {
	if which == 0 {
		c, errs := one(monny.MemoryWarn(s))
		if len(errs) > 0 {
			return 0, false
		}
		sym.Assert(c.Config.MemoryKill == 0, "another limit is not set")
		return c.Config.MemoryWarn, true
	}
	c, errs := one(monny.MemoryKill(s))
	if len(errs) > 0 {
		return 0, false
	}
	sym.Assert(c.Config.MemoryWarn == 0, "another limit is not set")
	return c.Config.MemoryKill, true
}

// MemoryText: a memory limit given by any text of n bytes.
func MemoryText(n, which int) {
	s := sym.String("limit", n)
	got, ok := memory(which, s)
	factor := int64(1)
	d := s
	if n > 0 {
		switch s[n-1] {
		case 'K':
			d = s[:n-1]
		case 'M':
			factor = 1000
			d = s[:n-1]
		case 'G':
			factor = 1000000
			d = s[:n-1]
		}
	}
	v, isNum, plain := number(d)
	if isNum && plain {
		sym.Assert(ok, "a number with an optional unit is a memory limit")
		sym.Assert(got == uint64(v*factor), "a memory limit is its number times its unit")
		sym.Cover("accepted")
	} else {
		sym.Assert(!ok, "any other text is not a memory limit")
	}
}

// MemoryBig: limits around the largest one that fits, for each unit.
func MemoryBig(which int) {
	unit := sym.Choose("unit", 4)
	// the largest number is m followed by the digits last
	m, last := "184467440737095516", uint64(15)
	suffix := []string{"", "K", "M", "G"}[unit]
	switch unit {
	case 2:
		m, last = "184467440737095", 51
	case 3:
		m, last = "184467440737", 9
	}
	a, b := sym.Byte("d"), sym.Byte("d")
	sym.Assume(a >= '0' && a <= '9' && b >= '0' && b <= '9')
	low := uint64(a-'0')*10 + uint64(b-'0')
	s := m + string([]byte{a, b}) + suffix
	got, ok := memory(which, s)
	if low > last {
		sym.Assert(!ok, "a memory limit that does not fit is rejected")
		sym.Cover("too large")
		return
	}
	sym.Assert(ok, "a memory limit that fits is accepted")
	switch unit {
	case 0, 1:
		sym.Assert(got == 18446744073709551600+low, "a memory limit is its number times its unit")
	case 2:
		sym.Assert(got == (18446744073709500+low)*1000, "a memory limit is its number times its unit")
	case 3:
		sym.Assert(got == (18446744073700+low)*1000000, "a memory limit is its number times its unit")
	}
}

// MemoryHuge: a limit of k to k+2 digits followed by a unit, its first n digits
// any and the others zero.
func MemoryHuge(which, n, k int) {
	unit := sym.Choose("unit", 4)
	zeros := k + sym.Choose("digits", 3) - n
	factor := []uint64{1, 1, 1000, 1000000}[unit]
	first, v := make([]byte, n), uint64(0)
	for i := range first {
		first[i] = sym.Byte("d")
		sym.Assume(first[i] >= '0' && first[i] <= '9')
		v = v*10 + uint64(first[i]-'0')
	}
	s, power, max := string(first), uint64(1), ^uint64(0)/factor
	for i := 0; i < zeros; i++ {
		s += "0"
		max /= 10
		power *= 10
	}
	got, ok := memory(which, s+[]string{"", "K", "M", "G"}[unit])
	if v > max {
		sym.Assert(!ok, "a memory limit that does not fit is rejected")
		sym.Cover("too large")
		return
	}
	sym.Assert(ok, "a memory limit that fits is accepted")
	sym.Assert(got == v*power*factor, "a memory limit is its number times its unit")
}

// SizeText: a history size or quantity given by any text of n bytes. which: 0
// stdout history, 1 stderr history, 2 quantity.
func SizeText(n, which int) {
	s := sym.String("size", n)
	var o monny.ConfigOption
	switch which {
	case 0:
		o = monny.StdoutHistory(s)
	case 1:
		o = monny.StderrHistory(s)
	case 2:
		o = monny.RuleQuantity(s)
	}
	c, errs := one(o)
	ok := len(errs) == 0
	v, isNum, plain := number(s)
	if !isNum {
		sym.Assert(!ok, "a text that is not a number is rejected")
		return
	}
	if v < 0 && which < 2 {
		sym.Assert(!ok, "a negative size is rejected")
		return
	}
	if plain {
		sym.Assert(ok, "a number is accepted")
	}
	if !ok {
		return
	}
	want := []int{30, 30, 0}
	want[which] = int(v)
	sym.Assert(c.Config.StdoutHistory == want[0] && c.Config.StderrHistory == want[1] && c.Config.RuleQuantity == want[2], "a size is what the user wrote and no other is changed")
	sym.Cover("accepted")
}

// TimeText: a duration given by a number below 10000 and a unit, or by any
// text of n bytes. which: 0 kill timeout, 1 warning, 2 rule period.
func TimeText(n, which int) {
	var s string
	var want time.Duration
	valid := true
	if n == 0 {
		k := sym.Choose("unit", 6)
		digits := 1 + sym.Choose("digits", 4)
		s = sym.String("number", digits)
		v := int64(0)
		for i := 0; i < digits; i++ {
			sym.Assume(s[i] >= '0' && s[i] <= '9')
			v = v*10 + int64(s[i]-'0')
		}
		s += []string{"ns", "us", "ms", "s", "m", "h"}[k]
		want = time.Duration(v * []int64{1, 1e3, 1e6, 1e9, 60e9, 3600e9}[k])
	} else {
		s = sym.String("text", n)
		d, err := time.ParseDuration(s)
		want, valid = d, err == nil
	}
	var o monny.ConfigOption
	switch which {
	case 0:
		o = monny.KillTimeout(s)
	case 1:
		o = monny.NotifyTimeout(s)
	case 2:
		o = monny.RulePeriod(s)
	}
	c, errs := one(o)
	if !valid {
		sym.Assert(len(errs) == 1, "a text that is not a duration is rejected")
		return
	}
	sym.Assert(len(errs) == 0, "a duration is accepted")
	got := []time.Duration{c.Config.KillTimeout, c.Config.NotifyTimeout, c.Config.RulePeriod}
	for i, g := range got {
		if i == which {
			sym.Assert(g == want, "a duration is what the user wrote")
		} else {
			sym.Assert(g == 0, "no other duration is changed")
		}
	}
	sym.Cover("accepted")
}

// SizeBig: a history size or quantity of k to k+2 digits, its first n digits any
// and the others zero, with a sign or without. which: as SizeText.
func SizeBig(which, n, k int) {
	zeros := k + sym.Choose("digits", 3) - n
	first, v := make([]byte, n), uint64(0)
	for i := range first {
		first[i] = sym.Byte("d")
		sym.Assume(first[i] >= '0' && first[i] <= '9')
		v = v*10 + uint64(first[i]-'0')
	}
	s, power, max := string(first), uint64(1), uint64(1<<63-1)
	for i := 0; i < zeros; i++ {
		s += "0"
		max /= 10
		power *= 10
	}
	neg := sym.Bool("negative")
	if neg {
		s = "-" + s
	}
	var o monny.ConfigOption
	switch which {
	case 0:
		o = monny.StdoutHistory(s)
	case 1:
		o = monny.StderrHistory(s)
	case 2:
		o = monny.RuleQuantity(s)
	}
	c, errs := one(o)
	if v > max || neg && v > 0 && which < 2 {
		sym.Assert(len(errs) == 1, "a size out of range is rejected")
		sym.Cover("out of range")
		return
	}
	sym.Assert(len(errs) == 0, "a number is accepted")
	got := []int{c.Config.StdoutHistory, c.Config.StderrHistory, c.Config.RuleQuantity}[which]
	want := int(v * power)
	if neg {
		want = -want
	}
	sym.Assert(got == want, "a size is what the user wrote")
}

// TimeParts: a duration of two parts, each a digit with or without a half, with any
// two units, with a sign or without. which: as TimeText.
func TimeParts(which int) {
	units := []string{"us", "ms", "s", "m", "h"}
	lengths := []int64{1e3, 1e6, 1e9, 60e9, 3600e9}
	s, v := "", int64(0)
	for i := 0; i < 2; i++ {
		a, u := sym.Byte("d"), sym.Choose("unit", len(units))
		sym.Assume(a >= '0' && a <= '9')
		s += string([]byte{a})
		v += int64(a-'0') * lengths[u]
		if sym.Bool("half") {
			s += ".5"
			v += lengths[u] / 2
		}
		s += units[u]
	}
	if sym.Bool("negative") {
		s, v = "-"+s, -v
	}
	var o monny.ConfigOption
	switch which {
	case 0:
		o = monny.KillTimeout(s)
	case 1:
		o = monny.NotifyTimeout(s)
	case 2:
		o = monny.RulePeriod(s)
	}
	c, errs := one(o)
	got := []time.Duration{c.Config.KillTimeout, c.Config.NotifyTimeout, c.Config.RulePeriod}
	sym.Assert(len(errs) == 0 || v < 0, "a duration is accepted")
	if len(errs) > 0 {
		return
	}
	sym.Assert(int64(got[which]) == v, "a duration is what the user wrote")
	sym.Cover("accepted")
}

// HostText: a report server given by any text of n bytes.
func HostText(n int) {
	sym.Horizon(hour)
	sym.Ticks(0)
	s := sym.String("host", n)
	colons := 0
	for i := 0; i < n; i++ {
		if s[i] == ':' {
			colons++
		}
	}
	c, errs := one(monny.Host(s))
	if colons != 1 {
		sym.Assert(len(errs) == 1, "a text that is not host:port is rejected")
		return
	}
	if len(errs) > 0 {
		// an empty host or port may be rejected
		sym.Assert(s[0] == ':' || s[n-1] == ':', "host:port is accepted")
		return
	}
	mos.Next = &mos.Proc{}
	sym.Assert(c.Exec() == nil && c.Wait() == nil, "the process is run")
	sym.Assert(len(mgrpc.Dials) == 1, "a report is sent")
	sym.Assert(sym.EqString(mgrpc.Dials[0].Target, s), "the report server is what the user wrote")
	sym.Cover("accepted")
}

// Names: id, expected files and the host name are taken as they are.
func Names(n int) {
	id, a, b := sym.String("id", n), sym.String("file", n), sym.String("file", 1)
	mos.Host = sym.String("hostname", 2)
	host := mos.Host
	if sym.Choose("host name", 2) == 1 {
		mos.HostErr = os.ErrPermission
		host = ""
	}
	c, errs := monny.New([]string{"prog"}, monny.Creates(a), monny.ID(id), monny.Creates(b))
	if n == 0 {
		sym.Assert(c == nil && len(errs) == 1, "an id is required")
		return
	}
	sym.Assert(c != nil && len(errs) == 0, "any id is accepted")
	sym.Assert(sym.EqString(c.Config.ID, id), "the id is what the user wrote")
	same(c.Config.Creates, []string{a, b}, "the expected files are what the user wrote, in order")
	sym.Assert(len(c.Config.Hostname) == len(host) && sym.EqString(c.Config.Hostname, host), "the host name is that of the machine")
}

// ShellText: the shell is looked up, or is that of the environment.
func ShellText(n int) {
	s := sym.String("shell", n)
	mos.Programs["sh"] = "/bin/sh"
	given := sym.Choose("given", 2) == 1
	env := sym.Choose("env", 2) == 1
	delete(mos.Env, "SHELL")
	if env {
		mos.Env["SHELL"] = "/env/shell"
	}
	opts := []monny.ConfigOption{monny.ID("me")}
	if given {
		opts = append(opts, monny.Shell(s))
	}
	c, errs := monny.New([]string{"prog"}, opts...)
	sym.Assert((c == nil) == (len(errs) > 0), "a command is created exactly when there is no error")
	switch {
	case given && n == 2 && sym.EqString(s, "sh"):
		sym.Assert(c != nil && c.Config.Shell == "/bin/sh", "the shell is the program that was found")
		sym.Cover("found")
	case given:
		sym.Assert(c == nil, "a shell that is not found is rejected")
	case env:
		sym.Assert(c != nil && c.Config.Shell == "/env/shell", "the shell is that of the environment by default")
	default:
		sym.Assert(c == nil, "a missing shell is an error")
	}
}

// pieces are the options in a valid and an invalid form.
var pieces = []struct {
	valid, invalid monny.ConfigOption
}{
	{monny.ID("me"), nil},
	{monny.Rule("x"), monny.Rule("[")},
	{monny.JSONRule("f", "x"), monny.JSONRule("f", "(")},
	{monny.RuleQuantity("2"), monny.RuleQuantity("x")},
	{monny.RulePeriod("2s"), monny.RulePeriod("2")},
	{monny.MemoryWarn("1K"), monny.MemoryWarn("1T")},
	{monny.MemoryKill("2M"), monny.MemoryKill("-2")},
	{monny.KillTimeout("3s"), monny.KillTimeout("3x")},
	{monny.NotifyTimeout("4s"), monny.NotifyTimeout("")},
	{monny.StdoutHistory("5"), monny.StdoutHistory("-5")},
	{monny.StderrHistory("6"), monny.StderrHistory("6.0")},
	{monny.Host("h:1"), monny.Host("h")},
	{monny.Shell("sh"), monny.Shell("nosh")},
}

// Combined: any combination of n of the options from the one with number from,
// each absent, valid or invalid; the id absent or given first or last.
func Combined(n, from int) {
	mos.Programs["sh"] = "/bin/sh"
	var opts []monny.ConfigOption
	bad := 0
	given := map[int]bool{}
	id := sym.Choose("id", 3)
	if id == 1 {
		opts = append(opts, pieces[0].valid)
	}
	for i := 0; i < n; i++ {
		k := 1 + (from+i)%(len(pieces)-1)
		switch sym.Choose("option", 3) {
		case 1:
			opts = append(opts, pieces[k].valid)
			given[k] = true
		case 2:
			opts = append(opts, pieces[k].invalid)
			bad++
		}
	}
	if id == 2 {
		opts = append(opts, pieces[0].valid)
	}
	if id == 0 {
		bad++
	}
	c, errs := monny.New([]string{"prog", "arg"}, opts...)
	sym.Assert(len(errs) == bad, "there is an error for each invalid option and for a missing id")
	for _, e := range errs {
		sym.Assert(e != nil && len(e.Error()) > 0, "an error tells what is wrong")
	}
	sym.Assert((c == nil) == (bad > 0), "a command is created exactly when there is no error")
	if c == nil {
		return
	}
	sym.Cover("created")
	f := c.Config
	rules := 0
	if given[1] {
		sym.Assert(len(f.Rules) > 0 && f.Rules[0].Field == "" && f.Rules[0].Regex.String() == "x", "a rule is what the user wrote")
		rules++
	}
	if given[2] {
		sym.Assert(len(f.Rules) > rules && f.Rules[rules].Field == "f" && f.Rules[rules].Regex.String() == "x", "a JSON rule is what the user wrote")
		rules++
	}
	sym.Assert(len(f.Rules) == rules, "there is no other rule")
	pick := func(k int, v, d int64) int64 {
		if given[k] {
			return v
		}
		return d
	}
	sym.Assert(int64(f.RuleQuantity) == pick(3, 2, 0) && int64(f.RulePeriod) == pick(4, 2e9, 0) &&
		int64(f.MemoryWarn) == pick(5, 1, 0) && int64(f.MemoryKill) == pick(6, 2000, 0) &&
		int64(f.KillTimeout) == pick(7, 3e9, 0) && int64(f.NotifyTimeout) == pick(8, 4e9, 0) &&
		int64(f.StdoutHistory) == pick(9, 5, 30) && int64(f.StderrHistory) == pick(10, 6, 30), "each option sets its own value and the others keep their default")
	sym.Assert(f.ID == "me" && f.NotifyOnSuccess && f.NotifyOnFailure && !f.Daemon && len(f.Creates) == 0, "the other values keep their default")
	sym.Assert(f.Shell == "/bin/sh", "the shell is the one that was found")
	sym.Assert(len(c.UserCommand) == 2 && c.UserCommand[0] == "prog" && c.UserCommand[1] == "arg", "the command is the user's")
}
