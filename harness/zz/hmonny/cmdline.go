package hmonny

import (
	"os"

	"github.com/BTBurke/monny/pkg/monny"
	"github.com/BTBurke/monny/zzverif/mgrpc"
	"github.com/BTBurke/monny/zzverif/mos"
	"github.com/BTBurke/monny/zzverif/myaml"
	"github.com/BTBurke/monny/zzverif/sym"
)

// parsed is the outcome of a command line.
type parsed struct {
	usercmd  []string
	c        *monny.Command
	failed   bool // rejected by the parser or by the configuration
	suppress bool
}

// parse runs the command line and creates the command.
func parse(args ...string) parsed {
	monny.SuppressErrorReporting = false
	os.Args = append([]string{"monny"}, args...)
	cmd, opts, err := monny.ParseCommandLine()
	if err != nil {
		return parsed{failed: true}
	}
	c, errs := monny.New(cmd, opts...)
	if len(errs) > 0 {
		return parsed{failed: true}
	}
	return parsed{cmd, c, false, monny.SuppressErrorReporting}
}

// file makes the configuration file hold these settings.
func file0(m map[string]interface{}) {
	doc := myaml.Doc(m)
	mos.FileOf = func(name string) ([]byte, error) {
		if name == "/conf" {
			return doc, nil
		}
		return nil, os.ErrNotExist
	}
}

// equal: two commands have the same configuration.
func equal(a, b *monny.Command, label string) {
	x, y := a.Config, b.Config
	sym.Assert(sym.EqString(x.ID, y.ID) && sym.EqString(x.Shell, y.Shell), label)
	sym.Assert(x.RuleQuantity == y.RuleQuantity && x.RulePeriod == y.RulePeriod, label)
	sym.Assert(x.NotifyTimeout == y.NotifyTimeout && x.KillTimeout == y.KillTimeout, label)
	sym.Assert(x.MemoryWarn == y.MemoryWarn && x.MemoryKill == y.MemoryKill, label)
	sym.Assert(x.StdoutHistory == y.StdoutHistory && x.StderrHistory == y.StderrHistory, label)
	sym.Assert(x.Daemon == y.Daemon && x.NotifyOnSuccess == y.NotifyOnSuccess && x.NotifyOnFailure == y.NotifyOnFailure, label)
	same(x.Creates, y.Creates, label)
	sym.Assert(len(x.Rules) == len(y.Rules), label)
	for i := range x.Rules {
		sym.Assert(sym.EqString(x.Rules[i].Field, y.Rules[i].Field) && x.Rules[i].Regex.String() == y.Rules[i].Regex.String(), label)
	}
}

// dialled is where and how the command sends its reports.
func dialled(c *monny.Command) (string, bool) {
	mgrpc.Dials, mgrpc.Calls = nil, nil
	mos.Next = &mos.Proc{Status: 256}
	c.Exec()
	c.Wait()
	if len(mgrpc.Dials) != 1 {
		return "", false
	}
	return mgrpc.Dials[0].Target, mgrpc.Dials[0].Insecure
}

// texts of the settings that are a text.
var texts = []struct {
	name   string
	values []string
}{
	{"rule", []string{"x", "a|b", "["}},
	{"rule-json", []string{"f:x", "a.b:c:d", "f:", ":x", "x", "f:["}},
	{"memory-warn", []string{"1", "12K", "3M", "4G", "5T", "", "-1"}},
	{"memory-kill", []string{"1", "12K", "3M", "4G", "5T", "", "-1"}},
	{"creates", []string{"/a", "b c", "x=y", ""}},
	{"host", []string{"h:1", "h", "a:b:c"}},
	{"shell", []string{"sh", "nosh"}},
	{"timeout-warn", []string{"1s", "10m", "2h3m", "5", "x"}},
	{"timeout-kill", []string{"1s", "10m", "2h3m", "5", "x"}},
	{"id", []string{"a", "a@b.c", ""}},
}

// SameText: setting k with any of its values, as --name=value, as --name value
// and in the file.
func SameText(k int) {
	sym.Horizon(hour)
	sym.Ticks(0)
	mos.Programs["sh"] = "/bin/sh"
	s := texts[k]
	v := s.values[sym.Choose("value", len(s.values))]
	var a, b parsed
	pre := []string{"-i", "me"}
	m := map[string]interface{}{s.name: v}
	if s.name == "id" {
		pre = nil
	}
	if sym.Choose("form", 2) == 0 {
		a = parse(append(append([]string(nil), pre...), "--"+s.name+"="+v, "--", "cmd")...)
	} else {
		a = parse(append(append([]string(nil), pre...), "--"+s.name, v, "--", "cmd")...)
	}
	file0(m)
	b = parse(append(append([]string(nil), pre...), "-c", "/conf", "--", "cmd")...)
	sym.Assert(a.failed == b.failed, "a setting is accepted in the file exactly when it is accepted on the command line")
	if a.failed {
		return
	}
	equal(a.c, b.c, "a setting has the same effect in the file and on the command line")
	same(a.usercmd, []string{"cmd"}, "the command is passed through")
	same(b.usercmd, []string{"cmd"}, "the command is passed through")
	ta := ""
	if s.name == "host" {
		var tb string
		var ia, ib bool
		ta, ia = dialled(a.c)
		tb, ib = dialled(b.c)
		sym.Assert(ta == tb && ia == ib, "a setting has the same effect in the file and on the command line")
	}
	// and it is the effect of the option
	f := a.c.Config
	switch s.name {
	case "id":
		sym.Assert(f.ID == v, "the setting has its effect")
	case "rule":
		sym.Assert(len(f.Rules) == 1 && f.Rules[0].Field == "" && f.Rules[0].Regex.String() == v, "the setting has its effect")
	case "rule-json":
		sym.Assert(len(f.Rules) == 1 && f.Rules[0].Field+":"+f.Rules[0].Regex.String() == v, "the setting has its effect")
	case "creates":
		same(f.Creates, []string{v}, "the setting has its effect")
	case "host":
		sym.Assert(ta == v, "the setting has its effect")
	case "shell":
		sym.Assert(f.Shell == "/bin/sh", "the setting has its effect")
	case "memory-warn":
		sym.Assert(f.MemoryWarn > 0 && f.MemoryKill == 0, "the setting has its effect")
	case "memory-kill":
		sym.Assert(f.MemoryKill > 0 && f.MemoryWarn == 0, "the setting has its effect")
	case "timeout-warn":
		sym.Assert(f.NotifyTimeout > 0 && f.KillTimeout == 0, "the setting has its effect")
	case "timeout-kill":
		sym.Assert(f.KillTimeout > 0 && f.NotifyTimeout == 0, "the setting has its effect")
	}
	sym.Cover("accepted")
}

// SameNumber: a history size as a number of d digits, as text in the file and
// on the command line.
func SameNumber(which, d int) {
	name := []string{"stdout-history", "stderr-history"}[which]
	s := sym.String("number", d)
	n := 0
	for i := 0; i < d; i++ {
		sym.Assume(s[i] >= '0' && s[i] <= '9')
		n = n*10 + int(s[i]-'0')
	}
	// a leading zero means octal on the command line
	sym.Assume(d == 1 || s[0] != '0')
	a := parse("-i", "me", "--"+name+"="+s, "--", "cmd")
	asText := sym.Choose("text", 2) == 1
	if asText {
		file0(map[string]interface{}{name: s})
	} else {
		file0(map[string]interface{}{name: n})
	}
	b := parse("-i", "me", "-c", "/conf", "--", "cmd")
	sym.Assert(!a.failed && !b.failed, "a number is accepted")
	equal(a.c, b.c, "a setting has the same effect in the file and on the command line")
	got := []int{a.c.Config.StdoutHistory, a.c.Config.StderrHistory}
	sym.Assert(got[which] == n && got[1-which] == 30, "the setting has its effect")
}

var boolNames = []string{"daemon", "no-notify-on-success", "no-notify-on-failure", "insecure", "no-error-reports"}

// state of a boolean setting.
func on(k int, p parsed) bool {
	switch k {
	case 0:
		return p.c.Config.Daemon
	case 1:
		return !p.c.Config.NotifyOnSuccess
	case 2:
		return !p.c.Config.NotifyOnFailure
	case 4:
		return p.suppress
	}
	panic("no state")
}

// SameBool: the boolean settings, each absent, true or false, in all of their
// forms, on the command line or in the file.
func SameBool(k int) {
	sym.Horizon(hour)
	sym.Ticks(0)
	name := boolNames[k]
	args := []string{"-i", "me"}
	want := false
	switch sym.Choose("form", 10) {
	case 0:
	case 1:
		args = append(args, "--"+name)
		want = true
	case 2:
		args = append(args, "--"+name+"=true")
		want = true
	case 3:
		args = append(args, "--"+name+"=false")
	case 4:
		args = append(args, "--"+name+"=1")
		want = true
	case 5:
		args = append(args, "--"+name+"=F")
	case 6:
		file0(map[string]interface{}{name: true})
		args = append(args, "-c", "/conf")
		want = true
	case 7:
		file0(map[string]interface{}{name: false})
		args = append(args, "--config=/conf")
	case 8:
		file0(map[string]interface{}{name: "true"})
		args = append(args, "-c", "/conf")
		want = true
	case 9:
		file0(map[string]interface{}{name: "false"})
		args = append(args, "-c", "/conf")
	}
	p := parse(append(args, "--", "cmd")...)
	sym.Assert(!p.failed, "a switch is accepted")
	for i := range boolNames {
		w := want && i == k
		if i == 3 {
			if k != 3 {
				continue
			}
			t, insecure := dialled(p.c)
			sym.Assert(t == "report.lmkwtf.com:443", "the setting changes nothing else")
			sym.Assert(insecure == w, "a switch takes effect exactly when it is set to true")
			continue
		}
		sym.Assert(on(i, p) == w, "a switch takes effect exactly when it is set to true")
	}
	if want {
		sym.Cover("on")
	}
}

// Lists: n rules, m JSON rules and k files, as lists in the file in any order
// of the settings or repeated on the command line, with single settings beside.
func Lists(n, m, k int) {
	sym.MapOrder(true)
	args := []string{"-i", "me"}
	doc := map[string]interface{}{}
	var rules, jrules, files []interface{}
	for i := 0; i < n; i++ {
		v := "r" + itoa(i)
		rules = append(rules, v)
		args = append(args, "--rule", v)
	}
	for i := 0; i < m; i++ {
		v := "f" + itoa(i) + ":j"
		jrules = append(jrules, v)
		args = append(args, "--rule-json="+v)
	}
	for i := 0; i < k; i++ {
		v := "/c" + itoa(i)
		files = append(files, v)
		args = append(args, "--creates", v)
	}
	if n > 0 || sym.Choose("empty", 2) == 1 {
		doc["rule"] = rules
	}
	if m > 0 {
		doc["rule-json"] = jrules
	}
	if k > 0 {
		doc["creates"] = files
	}
	if sym.Choose("more", 2) == 1 {
		doc["daemon"] = true
		doc["stdout-history"] = 7
		args = append(args, "--daemon", "--stdout-history=7")
	}
	a := parse(append(args, "--", "cmd")...)
	file0(doc)
	b := parse("-i", "me", "-c", "/conf", "--", "cmd")
	sym.Assert(!a.failed && !b.failed, "lists are accepted")
	check := func(p parsed) {
		f := p.c.Config
		var rs, js []string
		for _, r := range f.Rules {
			if r.Field == "" {
				rs = append(rs, r.Regex.String())
			} else {
				js = append(js, r.Field+":"+r.Regex.String())
			}
		}
		texts := func(l []interface{}) (out []string) {
			for _, v := range l {
				out = append(out, v.(string))
			}
			return
		}
		same(rs, texts(rules), "each listed rule is applied once, in order")
		same(js, texts(jrules), "each listed JSON rule is applied once, in order")
		same(f.Creates, texts(files), "each listed file is applied once, in order")
	}
	check(a)
	check(b)
	sym.Assert(a.c.Config.Daemon == b.c.Config.Daemon && a.c.Config.StdoutHistory == b.c.Config.StdoutHistory, "a setting has the same effect in the file and on the command line")
}

// Several: any subset of n settings at once, from the file and from the command line.
func Several(n, from int) {
	sym.MapOrder(true)
	mos.Programs["sh"] = "/bin/sh"
	all := []struct {
		name string
		val  interface{}
		arg  string
	}{
		{"id", "me", "--id=me"},
		{"rule", "x", "--rule=x"},
		{"creates", "/a", "--creates=/a"},
		{"memory-warn", "1K", "--memory-warn=1K"},
		{"memory-kill", 2, "--memory-kill=2"},
		{"timeout-warn", "1s", "--timeout-warn=1s"},
		{"timeout-kill", "2s", "--timeout-kill=2s"},
		{"daemon", true, "--daemon"},
		{"no-notify-on-failure", true, "--no-notify-on-failure"},
		{"stdout-history", 3, "--stdout-history=3"},
		{"stderr-history", 4, "--stderr-history=4"},
		{"shell", "sh", "--shell=sh"},
	}
	doc := map[string]interface{}{}
	var args []string
	split := sym.Choose("split", 2) == 1
	var both []string
	for i := 0; i < n; i++ {
		s := all[(from+i)%len(all)]
		if sym.Choose("given", 2) == 0 {
			continue
		}
		args = append(args, s.arg)
		if split && i%2 == 0 {
			both = append(both, s.arg)
		} else {
			doc[s.name] = s.val
		}
	}
	a := parse(append(args, "--", "cmd")...)
	file0(doc)
	b := parse(append(append([]string{"-c", "/conf"}, both...), "--", "cmd")...)
	sym.Assert(a.failed == b.failed, "settings are accepted in the file exactly when they are accepted on the command line")
	if !a.failed {
		equal(a.c, b.c, "settings have the same effect in the file and on the command line")
		sym.Cover("accepted")
	}
}

// Unknown: settings that do not exist or have an impossible value are rejected.
func Unknown(n int) {
	name := sym.String("name", n)
	for i := range name {
		sym.Assume(name[i] >= 'a' && name[i] <= 'z')
	}
	for _, s := range texts {
		sym.Assume(n != len(s.name) || name != s.name)
	}
	for _, s := range append([]string{"config", "help"}, boolNames...) {
		sym.Assume(n != len(s) || name != s)
	}
	args := []string{"-i", "me", "-c", "/conf", "--", "cmd"}
	switch sym.Choose("kind", 8) {
	case 0:
		args = []string{"-i", "me", "--" + name, "--", "cmd"}
	case 1:
		file0(map[string]interface{}{name: "x"})
	case 2:
		file0(map[string]interface{}{name: true})
	case 3:
		file0(map[string]interface{}{name: []interface{}{"x"}})
	case 4:
		file0(map[string]interface{}{name: 1})
	case 5:
		mos.FileOf = func(string) ([]byte, error) { return nil, os.ErrNotExist }
	case 6:
		mos.FileOf = func(string) ([]byte, error) { return []byte("\tx"), nil }
	case 7:
		file0(map[string]interface{}{name: map[interface{}]interface{}{"a": "b"}})
	}
	sym.Assert(parse(args...).failed, "an unknown setting is rejected")
}

// WrongKind: a value of the wrong kind is rejected.
func WrongKind(kind int) {
	var v interface{}
	switch kind {
	case 0:
		v = map[interface{}]interface{}{"a": 1}
	case 1:
		v = nil
	case 2:
		v = []interface{}{[]interface{}{"x"}}
	case 3:
		v = []interface{}{map[interface{}]interface{}{"a": "b"}}
	}
	names := []string{"rule", "creates", "daemon", "host", "stdout-history", "memory-kill", "timeout-kill", "rule-json"}
	file0(map[string]interface{}{names[sym.Choose("name", len(names))]: v})
	sym.Assert(parse("-i", "me", "-c", "/conf", "--", "cmd").failed, "a value of the wrong kind is rejected")
	// a list where a single value is needed
	file0(map[string]interface{}{names[2+sym.Choose("single", 5)]: []interface{}{"1"}})
	sym.Assert(parse("-i", "me", "-c", "/conf", "--", "cmd").failed, "a list is rejected where one value is needed")
}

// PassThrough: n arguments of m bytes after the separator, and flags before it.
func PassThrough(n, m int) {
	args := []string{"-i", "me"}
	switch sym.Choose("flags", 3) {
	case 1:
		args = append(args, "--daemon", "--rule=x")
	case 2:
		args = append(args, "--creates", "f", "--daemon=false")
	}
	var cmd []string
	for i := 0; i < n; i++ {
		cmd = append(cmd, sym.String("arg", m))
	}
	given := append([]string(nil), cmd...)
	p := parse(append(append(args, "--"), cmd...)...)
	sym.Assert(!p.failed, "a command line is accepted")
	same(p.usercmd, given, "the command and its arguments are passed through")
	same(p.c.UserCommand, given, "the command and its arguments are passed through")
}

// PassNames: arguments after the separator that look like monny's own.
func PassNames(n int) {
	like := []string{"-i", "--id=other", "--daemon", "-c", "--", "-", "--nothing", "x"}
	var cmd []string
	for i := 0; i < n; i++ {
		cmd = append(cmd, like[sym.Choose("arg", len(like))])
	}
	given := append([]string(nil), cmd...)
	p := parse(append([]string{"-i", "me", "--"}, cmd...)...)
	sym.Assert(!p.failed && p.c.Config.ID == "me" && !p.c.Config.Daemon, "arguments of the command are not monny's")
	same(p.usercmd, given, "the command and its arguments are passed through")
}

// Ordered: n options in any order, single values, lists and two configuration
// files: each is applied where it stands, so that a later one overrides an
// earlier one and lists grow in order.
func Ordered(n int) {
	docs := [][]byte{
		myaml.Doc(map[string]interface{}{"creates": []interface{}{"/f1", "/f2"}, "rule": "a", "stdout-history": 11, "daemon": true, "timeout-kill": "11s"}),
		myaml.Doc(map[string]interface{}{"creates": "/f3", "memory-warn": "13K", "stdout-history": "13", "daemon": false}),
	}
	mos.FileOf = func(name string) ([]byte, error) {
		switch name {
		case "/c0":
			return docs[0], nil
		case "/c1":
			return docs[1], nil
		}
		return nil, os.ErrNotExist
	}
	args := []string{"--id=me"}
	var creates, rules []string
	history, memory, kill, daemon := 30, 0, 0, false
	for i := 0; i < n; i++ {
		switch sym.Choose("option", 6) {
		case 0:
			args = append(args, "-c", "/c0")
			creates = append(creates, "/f1", "/f2")
			rules = append(rules, "a")
			history, daemon, kill = 11, true, 11
		case 1:
			args = append(args, "--config=/c1")
			creates = append(creates, "/f3")
			history, daemon, memory = 13, false, 13
		case 2:
			v := "/x" + itoa(i)
			args = append(args, "--creates", v)
			creates = append(creates, v)
		case 3:
			v := "r" + itoa(i)
			args = append(args, "--rule="+v)
			rules = append(rules, v)
		case 4:
			args = append(args, "--stdout-history", itoa(i), "--memory-warn="+itoa(i))
			history, memory = i, i
		case 5:
			args = append(args, "--timeout-kill="+itoa(i+1)+"s", "--daemon="+[]string{"true", "false"}[i%2])
			kill, daemon = i+1, i%2 == 0
		}
	}
	p := parse(append(args, "--", "cmd")...)
	sym.Assert(!p.failed, "the options are accepted")
	f := p.c.Config
	same(f.Creates, creates, "listed and repeated values are applied once, in order")
	var rs []string
	for _, r := range f.Rules {
		rs = append(rs, r.Regex.String())
	}
	same(rs, rules, "listed and repeated values are applied once, in order")
	sym.Assert(f.StdoutHistory == history && f.MemoryWarn == uint64(memory) && int64(f.KillTimeout) == int64(kill)*1e9 && f.Daemon == daemon, "a later setting overrides an earlier one")
	sym.Assert(f.ID == "me" && f.StderrHistory == 30 && f.MemoryKill == 0, "the other settings keep their value")
}

// free settings are taken as they are.
var free = []string{"id", "creates", "rule", "rule-json"}

// FreeText: a setting that is any text, here of n bytes that are letters,
// blanks, colons or dots, given on the command line, in the file alone, or in
// the file as a list.
func FreeText(k, n int) {
	name := free[k]
	v := sym.String("value", n)
	for i := 0; i < n; i++ {
		b := v[i]
		sym.Assume(sym.Or(sym.Or(sym.And(b >= 'a', b <= 'c'), sym.Or(b == ' ', b == '\t')), sym.Or(sym.Or(b == ':', b == '.'), b == '\n')))
	}
	args := []string{"--id=me"}
	if name == "id" {
		args = nil
	}
	form := sym.Choose("form", 4)
	switch form {
	case 0:
		args = append(args, "--"+name+"="+v)
	case 1:
		args = append(args, "--"+name, v)
	case 2:
		file0(map[string]interface{}{name: v})
		args = append(args, "-c", "/conf")
	case 3:
		if name == "id" {
			return
		}
		file0(map[string]interface{}{name: []interface{}{v}})
		args = append(args, "-c", "/conf")
	}
	p := parse(append(args, "--", "cmd")...)
	switch name {
	case "id":
		sym.Assert(p.failed == (n == 0), "an id is required and any is accepted")
		if !p.failed {
			sym.Assert(sym.EqString(p.c.Config.ID, v), "a text is taken as it is")
		}
	case "creates":
		sym.Assert(!p.failed, "any text is accepted")
		same(p.c.Config.Creates, []string{v}, "a text is taken as it is")
	case "rule":
		sym.Assert(!p.failed, "any literal text is accepted")
		r := p.c.Config.Rules
		sym.Assert(len(r) == 1 && r[0].Field == "" && sym.EqString(r[0].Regex.String(), v), "a text is taken as it is")
	case "rule-json":
		c := 0
		for c < n && v[c] != ':' {
			c++
		}
		if c == 0 || c == n {
			sym.Assert(p.failed, "a JSON rule is a field, a colon and a pattern")
			return
		}
		sym.Assert(!p.failed, "field and pattern are accepted")
		r := p.c.Config.Rules
		sym.Assert(len(r) == 1 && sym.EqString(r[0].Field, v[:c]), "the field is what stands before the first colon")
		sym.Assert(sym.EqString(r[0].Regex.String(), v[c+1:]), "the pattern is what stands after the first colon")
	}
	sym.Cover("accepted")
}

// SameBig: numbers around a power of two, as numbers or texts in the file and
// on the command line: the digits given, then any two more (at the largest int,
// a zero and any one more).
func SameBig(which, edge int) {
	name := []string{"memory-warn", "memory-kill", "stdout-history", "stderr-history"}[which]
	pre := []string{"1", "655", "21474836", "42949672", "90071992547409", "92233720368547758"}[edge]
	a, b := sym.Byte("d"), sym.Byte("d")
	if edge == 5 {
		a, b = '0', byte('0'+sym.Choose("digit", 10))
	}
	sym.Assume(a >= '0' && a <= '9' && b >= '0' && b <= '9')
	n := uint64(0)
	for i := 0; i < len(pre); i++ {
		n = n*10 + uint64(pre[i]-'0')
	}
	n = n*100 + uint64(a-'0')*10 + uint64(b-'0')
	s := pre + string([]byte{a, b})
	// what does not fit an int is decoded as a uint64
	if edge == 5 && n > 9223372036854775807 {
		sym.Assume(which < 2)
		file0(map[string]interface{}{name: n})
	} else {
		file0(map[string]interface{}{name: int(n)})
	}
	if sym.Choose("text", 2) == 1 {
		file0(map[string]interface{}{name: s})
	}
	x := parse("-i", "me", "--"+name+"="+s, "--", "cmd")
	y := parse("-i", "me", "-c", "/conf", "--", "cmd")
	sym.Assert(!x.failed && !y.failed, "a number is accepted")
	equal(x.c, y.c, "a setting has the same effect in the file and on the command line")
	f := y.c.Config
	want := []uint64{0, 0, 30, 30}
	want[which] = n
	sym.Assert(f.MemoryWarn == want[0] && f.MemoryKill == want[1] && uint64(f.StdoutHistory) == want[2] && uint64(f.StderrHistory) == want[3], "the setting has its effect")
}
