// Package verifrt is the harness runtime. The symbolic executor intercepts every function of this
// package; the bodies below are used when a solver model is replayed natively on the real code.
package verifrt

import (
	"bytes"
	"compress/gzip"
	"encoding/binary"
	"fmt"
	"io/ioutil"
	"math"
	"reflect"
	"sync"
	"sync/atomic"
	"time"
)

// Run is one native execution of a harness on concrete inputs.
type Run struct {
	Inputs  map[string]uint64
	Params  map[string]int64
	Emits   []string
	Fails   []string
	Covers  []string
	Discard string
	counts  map[string]int
}

var (
	mu  sync.Mutex
	cur *Run
)

// Begin installs the run.
func Begin(r *Run) {
	mu.Lock()
	defer mu.Unlock()
	r.counts = map[string]int{}
	cur = r
}

type discard struct{ why string }
type failStop struct{}

// Execute runs f on r, collecting assertion failures; panics of f propagate as text.
func Execute(r *Run, f func()) (panicked string) {
	Begin(r)
	defer func() {
		if e := recover(); e != nil {
			switch v := e.(type) {
			case discard:
				r.Discard = v.why
			case failStop:
			default:
				panicked = fmt.Sprint(e)
			}
		}
	}()
	f()
	return ""
}

func in(name string) uint64 {
	mu.Lock()
	defer mu.Unlock()
	k := cur.counts[name]
	cur.counts[name]++
	return cur.Inputs[fmt.Sprintf("%s#%d", name, k)]
}

func Byte(name string) byte   { return byte(in(name)) }
func U16(name string) uint16  { return uint16(in(name)) }
func U32(name string) uint32  { return uint32(in(name)) }
func U64(name string) uint64  { return in(name) }
func Bool(name string) bool   { return in(name)&1 == 1 }
func F64(name string) float64 { return math.Float64frombits(in(name)) }

// Bytes returns n arbitrary bytes.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte(fmt.Sprintf("%s.%d", name, i))
	}
	return b
}

// String returns an arbitrary string of n bytes.
func String(name string, n int) string { return string(Bytes(name, n)) }

// Bits returns an arbitrary string of n binary digits.
func Bits(name string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = '0' + Byte(fmt.Sprintf("%s.%d", name, i))&1
	}
	return string(b)
}

// Choose returns a value in [0,n), exploring every one.
func Choose(name string, n int) int { return int(in(name)) }

// Param is a constant of the job.
func Param(name string, def int) int {
	mu.Lock()
	defer mu.Unlock()
	if v, ok := cur.Params[name]; ok {
		return int(v)
	}
	return def
}

func Symbolic() bool { return false }

func Assume(ok bool) {
	if !ok {
		panic(discard{"assumption does not hold"})
	}
}

func Assert(ok bool, msg string) {
	if !ok {
		mu.Lock()
		cur.Fails = append(cur.Fails, msg)
		mu.Unlock()
	}
}

func Cover(name string) {
	mu.Lock()
	cur.Covers = append(cur.Covers, name)
	mu.Unlock()
}

// Emit records observable values; the executor predicts the same line.
func Emit(tag string, vals ...uint64) {
	l := tag
	for _, v := range vals {
		l += fmt.Sprintf(" %x", v)
	}
	mu.Lock()
	cur.Emits = append(cur.Emits, l)
	mu.Unlock()
}

// B2U converts a bool for Emit.
func B2U(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// FromBool is a branch-free conversion.
func FromBool(b bool) uint64 { return B2U(b) }

// And / Or are evaluated without short-circuit branches by the executor.
func And(a ...bool) bool {
	for _, v := range a {
		if !v {
			return false
		}
	}
	return true
}

func Or(a ...bool) bool {
	for _, v := range a {
		if v {
			return true
		}
	}
	return false
}

func Implies(a, b bool) bool { return !a || b }

// Ite selects without a branch.
func Ite(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}

// EqBytes compares without branching on content.
func EqBytes(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// EqStr compares without branching on content.
func EqStr(a, b string) bool { return a == b }

// Concrete forces a value to be concrete on each path.
func Concrete(v int) int { return v }

// Hooks are the stand-ins the native build calls instead of redirected functions.
var Hooks = map[string]interface{}{}

// HookOf is the stand-in for a method whose receiver it is not given; a nil pointer as receiver panics, as the
// method would.
func HookOf(name string, recv interface{}) interface{} {
	if v := reflect.ValueOf(recv); v.Kind() == reflect.Ptr && v.IsNil() {
		panic("runtime error: invalid memory address or nil pointer dereference")
	}
	return Hooks[name]
}

// ---- scheduling and time. Natively goroutines run freely; Park polls, and WaitIdle waits until nothing
// has called Wake or Yield for a while.

var (
	activity int64
	busy     int64
	// Settle is how long nothing must happen for WaitIdle to return.
	Settle = 4 * time.Millisecond
)

func touch() { atomic.AddInt64(&activity, 1) }

func Park()  { time.Sleep(100 * time.Microsecond) }
func Wake()  { touch() }
func Yield() { touch() }
func WaitIdle() {
	touch()
	last, since := atomic.LoadInt64(&activity), time.Now()
	for time.Since(since) < Settle {
		time.Sleep(200 * time.Microsecond)
		if a := atomic.LoadInt64(&activity); a != last || atomic.LoadInt64(&busy) > 0 {
			last, since = a, time.Now()
		}
	}
}

// Busy notes that a goroutine pauses and will go on: WaitIdle waits for it.
func Busy(n int) { atomic.AddInt64(&busy, int64(n)); touch() }

func Interleave(b bool) {}

// Advance lets d nanoseconds pass (symbolically on the model's clock).
func Advance(d int64) {
	if d > 0 {
		time.Sleep(time.Duration(d))
	}
	touch()
}
func Now() int64 { return time.Now().UnixNano() }

// Note is a remark shown in the evidence.
func Note(s string) {}

// CatchExit runs f; it returns the code passed to os.Exit (or log.Fatal), or -1 when f returned.
func CatchExit(f func()) int {
	f()
	return -1
}

// Panics runs f and reports whether it panicked.
func Panics(f func()) (p bool) {
	defer func() {
		if e := recover(); e != nil {
			switch e.(type) {
			case discard, failStop:
				panic(e)
			}
			p = true
		}
	}()
	f()
	return false
}

// ---- looking into values (reflection the executor understands)

// Kinds of values.
const (
	KNil = iota
	KBool
	KInt
	KUint
	KFloat
	KString
	KStruct
	KSlice
	KPtr
	KMap
	KOther
)

// Kind classifies a value.
func Kind(v interface{}) int {
	if v == nil {
		return KNil
	}
	switch reflect.TypeOf(v).Kind() {
	case reflect.Bool:
		return KBool
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return KInt
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return KUint
	case reflect.Float32, reflect.Float64:
		return KFloat
	case reflect.String:
		return KString
	case reflect.Struct:
		return KStruct
	case reflect.Slice:
		return KSlice
	case reflect.Ptr:
		return KPtr
	case reflect.Map:
		return KMap
	}
	return KOther
}

func structOf(v interface{}) reflect.Value {
	r := reflect.ValueOf(v)
	if r.Kind() == reflect.Ptr {
		r = r.Elem()
	}
	return r
}

// NumField counts the fields of a struct or of what a pointer to one points to.
func NumField(v interface{}) int { return structOf(v).NumField() }

// Field gives a field (or a pointer to it, when v is a pointer), its name, tag and whether it is embedded;
// the value is nil for an unexported field.
func Field(v interface{}, i int) (f interface{}, name, tag string, embedded bool) {
	s := structOf(v)
	t := s.Type().Field(i)
	r := s.Field(i)
	if r.CanInterface() {
		if reflect.ValueOf(v).Kind() == reflect.Ptr {
			f = r.Addr().Interface()
		} else {
			f = r.Interface()
		}
	}
	return f, t.Name, string(t.Tag), t.Anonymous
}

// Deref gives what a pointer points to, nil for a nil pointer.
func Deref(v interface{}) interface{} {
	r := reflect.ValueOf(v)
	if r.IsNil() {
		return nil
	}
	return r.Elem().Interface()
}

// Len is the length of a slice, -1 for a nil one.
func Len(v interface{}) int {
	r := reflect.ValueOf(v)
	if r.IsNil() {
		return -1
	}
	return r.Len()
}

// Swap exchanges two elements of a slice.
func Swap(v interface{}, i, j int) { reflect.Swapper(v)(i, j) }

// Elem is an element of a slice.
func Elem(v interface{}, i int) interface{} { return reflect.ValueOf(v).Index(i).Interface() }

// AppendNew appends a pointer to a new value to the slice of pointers p points to, and returns it.
func AppendNew(p interface{}) interface{} {
	s := reflect.ValueOf(p).Elem()
	e := reflect.New(s.Type().Elem().Elem())
	s.Set(reflect.Append(s, e))
	return e.Interface()
}

// Gunzip unpacks known bytes.
func Gunzip(b []byte) []byte {
	r, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		panic(err)
	}
	out, err := ioutil.ReadAll(r)
	if err != nil {
		panic(err)
	}
	return out
}

// Scalar gives a bool or an integer (sign extended).
func Scalar(v interface{}) uint64 {
	r := reflect.ValueOf(v)
	switch Kind(v) {
	case KBool:
		return B2U(r.Bool())
	case KInt:
		return uint64(r.Int())
	}
	return r.Uint()
}

// Float gives a float.
func Float(v interface{}) float64 { return reflect.ValueOf(v).Float() }

// Text gives a string.
func Text(v interface{}) string { return reflect.ValueOf(v).String() }

// ---- fixed-size values as bytes (used by the stand-ins for encoding/binary, which replays do not run)

func BinSize(v interface{}, into bool) int           { return binary.Size(v) }
func BinPut(v interface{}, b []byte, little bool)    {}
func BinGet(v interface{}, little bool) (out []byte) { return nil }

// Known says whether the bytes of a text are known; formatting can give texts whose bytes are not, in
// symbolic runs.
func Known(s string) bool { return true }

// Race has the accesses of the code under test checked for data races (natively, by the race detector).
func Race(on bool) {}

// Reads and Writes tell what a stand-in does with bytes that the code under test gave it.
func Reads(b []byte) {
	for _, v := range b {
		if v == 1 && len(b) == 1<<40 {
			println()
		}
	}
}

func Writes(b []byte) {}
