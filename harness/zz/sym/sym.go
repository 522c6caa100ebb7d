// Package sym is the vocabulary of the verification harnesses. Under the
// symbolic executor every function here is an intrinsic; for native replay
// the file is replaced by harness/native/sym.go.txt.
package sym

func IntIn(label string, lo, hi int) int       { panic("sym") }
func Int64In(label string, lo, hi int64) int64 { panic("sym") }
func Int(label string) int                     { panic("sym") }
func Uint64(label string) uint64               { panic("sym") }
func Byte(label string) byte                   { panic("sym") }
func Bool(label string) bool                   { panic("sym") }

// Real is any finite float64; Float additionally NaN and the infinities.
func Real(label string) float64  { panic("sym") }
func Float(label string) float64 { panic("sym") }

// LogOf is the natural logarithm of x, ExpOf the number whose logarithm is y.
func LogOf(x float64) float64 { panic("sym") }
func ExpOf(y float64) float64 { panic("sym") }

// Choose explores every value in [0,n) on its own path.
func Choose(label string, n int) int    { panic("sym") }
func Bytes(label string, n int) []byte  { panic("sym") }
func String(label string, n int) string { panic("sym") }
func Assume(b bool)                     { panic("sym") }
func Assert(b bool, label string)       { panic("sym") }
func Cover(label string)                { panic("sym") }
func Symbolic() bool                    { panic("sym") }
func Race(on bool)                      { panic("sym") }
func Horizon(ns int64)                  { panic("sym") }
func MapOrder(on bool)                  { panic("sym") }
func Ticks(n int)                       { panic("sym") }

// Quiesce waits until only timers can act; Settle until not even they can.
func Quiesce() { panic("sym") }
func Settle()  { panic("sym") }

// Linger is Settle, but what the caller does next is not ordered after what the
// others did meanwhile: the race detector sees what it did not wait for.
func Linger()                                   { panic("sym") }
func Goroutines() int                           { panic("sym") }
func ActiveTimers() int                         { panic("sym") }
func And(a, b bool) bool                        { panic("sym") }
func Or(a, b bool) bool                         { panic("sym") }
func Not(a bool) bool                           { panic("sym") }
func Implies(a, b bool) bool                    { panic("sym") }
func EqString(a, b string) bool                 { panic("sym") }
func IteInt(c bool, a, b int) int               { panic("sym") }
func IteFloat(c bool, a, b float64) float64     { panic("sym") }
func Conc(n int) int                            { panic("sym") }
func IsSym(v interface{}) bool                  { panic("sym") }
func Opaque(s string) bool                      { panic("sym") }

// Mentions: an opaque text has sub in the part of it that is known.
func Mentions(s, sub string) bool { panic("sym") }

func Log(label string, v interface{})           { panic("sym") }
func Stop()                                     { panic("sym") }
func Cut(msg string)                            { panic("sym") }
func Swap(slice interface{}, i, j int)          { panic("sym") }
func TypeName(v interface{}) string             { panic("sym") }
func PtrElem(p interface{}) interface{}         { panic("sym") }
func Deref(v interface{}) interface{}           { panic("sym") }
func TypeClass(v interface{}) string            { panic("sym") }
func SetElem(p interface{}, v interface{}) bool { panic("sym") }
func DeepCopy(v interface{}) interface{}        { panic("sym") }

// GobSet stores v where p points, the way gob decodes it.
func GobSet(p interface{}, v interface{}) bool { panic("sym") }
func SetGlobalHook(name string, v interface{})  { panic("sym") }

// NextNow is the next recorded clock reading (native replay only).
func NextNow() (int64, bool) { panic("sym") }
