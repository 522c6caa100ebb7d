package hmisc

import (
	"github.com/BTBurke/monny/pkg/pb"
	"github.com/BTBurke/monny/pkg/proto"
	"github.com/BTBurke/monny/zzverif/sym"
)

var reasons = []struct {
	r    proto.ReportReason
	w    pb.ReportReason
	name string
}{
	{proto.Success, pb.ReportReason_Success, "Success"},
	{proto.Failure, pb.ReportReason_Failure, "Failure"},
	{proto.Alert, pb.ReportReason_Alert, "Alert"},
	{proto.AlertRate, pb.ReportReason_AlertRate, "AlertRate"},
	{proto.MemoryWarning, pb.ReportReason_MemoryWarning, "MemoryWarning"},
	{proto.TimeWarning, pb.ReportReason_TimeWarning, "TimeWarning"},
	{proto.FileNotCreated, pb.ReportReason_FileNotCreated, "FileNotCreated"},
	{proto.Killed, pb.ReportReason_Killed, "Killed"},
	{proto.Start, pb.ReportReason_Start, "Start"},
}

var kills = []struct {
	r    proto.KillReason
	w    pb.KillReason
	name string
}{
	{proto.Timeout, pb.KillReason_Timeout, "Timeout"},
	{proto.Memory, pb.KillReason_Memory, "Memory"},
	{proto.Signal, pb.KillReason_Signal, "Signal"},
}

// ReportReasons: every value of the type.
func ReportReasons() {
	v := int32(sym.Int64In("value", -1<<31, 1<<31-1))
	r := proto.ReportReason(v)
	s := r.String()
	sym.Assert(len(s) > 0, "a value renders to text")
	w := pb.ReportReason(r)
	for _, x := range reasons {
		sym.Assert(pb.ReportReason(x.r) == x.w, "a reason has the same number on the wire")
		sym.Assert(int(x.r) > 0, "a reason is not the unknown one")
		if r == x.r {
			sym.Assert(s == x.name, "a reason renders to its own name")
			sym.Assert(w.String() == x.name, "a reason has the same name on the wire")
			sym.Assert(pb.ReportReason_name[v] == x.name && pb.ReportReason_value[x.name] == v, "a reason has the same name on the wire")
			sym.Cover("defined")
			return
		}
	}
	sym.Assert(s != "", "an undefined value renders to text")
	for _, x := range reasons {
		sym.Assert(s != x.name, "an undefined value does not render to a reason's name")
	}
	if v == 0 {
		sym.Assert(w.String() == "Unknown", "zero is unknown on the wire")
	}
	sym.Cover("undefined")
}

// KillReasons: every value of the type.
func KillReasons() {
	v := int32(sym.Int64In("value", -1<<31, 1<<31-1))
	r := proto.KillReason(v)
	s := r.String()
	sym.Assert(len(s) > 0, "a value renders to text")
	w := pb.KillReason(r)
	for _, x := range kills {
		sym.Assert(pb.KillReason(x.r) == x.w, "a kill reason has the same number on the wire")
		sym.Assert(int(x.r) > 0, "a kill reason is not the one for not killed")
		if r == x.r {
			sym.Assert(s == x.name, "a kill reason renders to its own name")
			sym.Assert(w.String() == x.name, "a kill reason has the same name on the wire")
			sym.Assert(pb.KillReason_name[v] == x.name && pb.KillReason_value[x.name] == v, "a kill reason has the same name on the wire")
			sym.Cover("defined")
			return
		}
	}
	for _, x := range kills {
		sym.Assert(s != x.name, "an undefined value does not render to a kill reason's name")
	}
	if v == 0 {
		sym.Assert(w.String() == "NotKilled", "zero is not killed on the wire")
	}
	sym.Cover("undefined")
}

// Distinct: two different values never render to the same text.
func Distinct() {
	a, b := int32(sym.Int64In("a", -1<<31, 1<<31-1)), int32(sym.Int64In("b", -1<<31, 1<<31-1))
	sym.Assume(a != b)
	defined := func(v int32, n int) bool { return v >= 1 && v <= int32(n) }
	if defined(a, len(reasons)) {
		sym.Assert(proto.ReportReason(a).String() != proto.ReportReason(b).String(), "reasons have distinct names")
	}
	if defined(a, len(kills)) {
		sym.Assert(proto.KillReason(a).String() != proto.KillReason(b).String(), "kill reasons have distinct names")
	}
}
