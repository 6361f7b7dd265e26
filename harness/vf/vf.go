// Package vf is the vocabulary of the harnesses. Under the symbolic engine its
// functions are intercepted by name; the bodies below are the native versions
// used to replay recorded inputs against the compiled code.
package vf

import (
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"unsafe"
)

// Spec describes a harness.
type Spec struct {
	Name     string // <package>.<function>
	F        func(int)
	Quick    []int
	Full     []int
	Reach    []string // labels that must be reached by some path
	MaxPaths int
	MaxSteps int64
	Alloc    uint64
	MaxConc  int
	Note     string
	// Bug says which property ends of the path belong to.
	Ends bool // resource exhaustion is a finding
	// Cover lists labels every single job must reach; Sampler is the harness
	// that confirms natively that one is out of reach.
	Cover   []string
	Sampler string
	Name1   func(int) string // says what a job is about
	Reps    int              // native repetitions when replaying (for unordered iteration)
}

// Specs is the registry.
var Specs []Spec

// Add registers a harness.
func Add(s Spec) { Specs = append(Specs, s) }

// Range lists lo..hi.
func Range(lo, hi int) []int {
	var r []int
	for i := lo; i <= hi; i++ {
		r = append(r, i)
	}
	return r
}

// Input is a recorded value.
type Input struct {
	L string `json:"l"`
	W uint8  `json:"w"`
	V uint64 `json:"v"`
}

// State of a native run.
type State struct {
	In       []Input
	pos      int
	Fails    []string
	Reached  []string
	Obs      []string
	Diverged bool
	Tmp      []string
	limited  bool
}

// S is the current native run.
var S *State

// StopRun unwinds a native run.
type StopRun struct{ Why string }

func next(name string) uint64 {
	for S.pos < len(S.In) && (strings.HasPrefix(S.In[S.pos].L, "math/rand") || strings.HasPrefix(S.In[S.pos].L, "crypto/rand")) {
		S.pos++
	}
	if S.pos >= len(S.In) {
		// inputs that were never looked at on the recorded path
		return 0
	}
	in := S.In[S.pos]
	if in.L != name {
		S.Diverged = true
		panic(StopRun{"inputs diverge: want " + name + " have " + in.L})
	}
	S.pos++
	return in.V
}

// Byte is any byte.
func Byte(name string) byte { return byte(next(name)) }

// U16 is any uint16.
func U16(name string) uint16 { return uint16(next(name)) }

// U32 is any uint32.
func U32(name string) uint32 { return uint32(next(name)) }

// U64 is any uint64.
func U64(name string) uint64 { return next(name) }

// I64 is any int64.
func I64(name string) int64 { return int64(next(name)) }

// I32 is any int32.
func I32(name string) int32 { return int32(next(name)) }

// Int is any int.
func Int(name string) int { return int(next(name)) }

// Bool is any bool.
func Bool(name string) bool { return next(name)&1 != 0 }

// Bytes is any byte slice of length n.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next(name))
	}
	return b
}

// Choose is any of 0..n-1, explored one by one.
func Choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	return int(next(name))
}

// Assume restricts the inputs.
func Assume(b bool) {
	if !b {
		panic(StopRun{"assumption"})
	}
}

// Assert must hold.
func Assert(b bool, label string) {
	if !b {
		Fail(label)
	}
}

// Fail reports a violation.
func Fail(label string) {
	S.Fails = append(S.Fails, label)
	panic(StopRun{"assertion"})
}

// Stop abandons the path.
func Stop() { panic(StopRun{"stop"}) }

// Reach records that a point was reached.
func Reach(label string) { S.Reached = append(S.Reached, label) }

// MapOrder makes map iteration order nondeterministic in the engine.
func MapOrder(bool) {}

// MapMode fixes the order of map iteration in the engine: 0 as inserted, 1
// backwards, 2 from the middle, 3 and 4 alternating.
func MapMode(int) {}

// Symbolic reports whether the engine runs the harness.
func Symbolic() bool { return false }

// And is a non-short-circuit conjunction.
func And(a, b bool) bool { return a && b }

// Or is a non-short-circuit disjunction.
func Or(a, b bool) bool { return a || b }

// IteU64 selects without branching.
func IteU64(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}

// EqBytes compares without branching.
func EqBytes(a, b []byte) bool { return string(a) == string(b) }

// EqStr compares without branching.
func EqStr(a, b string) bool { return a == b }

// IsSuffix reports whether r is a tail of d's storage.
func IsSuffix(r, d []byte) bool {
	if len(r) == 0 {
		return true
	}
	if len(r) > len(d) {
		return false
	}
	return &r[0] == &d[len(d)-len(r)]
}

// Overlap reports whether the slices share elements.
func Overlap(a, b []byte) bool {
	if len(a) == 0 || len(b) == 0 {
		return false
	}
	pa, pb := uintptr(unsafe.Pointer(&a[0])), uintptr(unsafe.Pointer(&b[0]))
	return pa < pb+uintptr(len(b)) && pb < pa+uintptr(len(a))
}

// TempDir makes an empty directory.
func TempDir() string {
	d, err := os.MkdirTemp("", "vf")
	if err != nil {
		panic(err)
	}
	S.Tmp = append(S.Tmp, d)
	return d
}

// FileLimit makes writes fail that would make a file larger than n bytes;
// a negative number takes the limit away.
func FileLimit(n int) {
	signal.Ignore(syscall.SIGXFSZ)
	var l syscall.Rlimit
	if syscall.Getrlimit(syscall.RLIMIT_FSIZE, &l) != nil {
		Stop()
	}
	l.Cur = uint64(n)
	S.limited = n >= 0
	if n < 0 {
		l.Cur = l.Max
	}
	if syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l) != nil {
		Stop()
	}
}

// ListFiles lists everything below dir; directories end in a slash.
func ListFiles(dir string) []string {
	var out []string
	_ = filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err != nil || p == dir {
			return nil
		}
		q, _ := filepath.Rel(dir, p)
		if i.IsDir() {
			q += "/"
		}
		out = append(out, q)
		return nil
	})
	sort.Strings(out)
	return out
}

// Catch runs f and reports a panic of the code under test.
func Catch(f func()) (panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(StopRun); ok {
				panic(s)
			}
			panicked = true
		}
	}()
	f()
	return false
}

// Observe records a value for comparison between the engine and native runs.
func Observe(label string, v any) {
	var sb strings.Builder
	if v == nil {
		sb.WriteString("nil")
	} else {
		obs(&sb, reflect.ValueOf(v), 0)
	}
	S.Obs = append(S.Obs, label+"="+sb.String())
}

func obs(sb *strings.Builder, v reflect.Value, d int) {
	if d > 40 {
		sb.WriteString("...")
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		fmt.Fprint(sb, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		sb.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		sb.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.String:
		fmt.Fprintf(sb, "\"%x\"", v.String())
	case reflect.Slice, reflect.Array:
		sb.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			obs(sb, v.Index(i), d+1)
			sb.WriteString(" ")
		}
		sb.WriteString("]")
	case reflect.Struct:
		sb.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			obs(sb, v.Field(i), d+1)
			sb.WriteString(" ")
		}
		sb.WriteString("}")
	case reflect.Pointer:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		sb.WriteString("&")
		obs(sb, v.Elem(), d+1)
	case reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		obs(sb, v.Elem(), d+1)
	case reflect.Map:
		fmt.Fprintf(sb, "map%d", v.Len())
	default:
		sb.WriteString("?")
	}
}

// Node describes a value.
type Node struct {
	Name string
	Kind string // int bool string slice nilslice array struct ptr nil other
	N    uint64
	W    int
	Str  string
	Kids []*Node
	Type string // name of a struct type
}

// Dump describes v.
func Dump(v any) *Node {
	if v == nil {
		return &Node{}
	}
	return dump(reflect.ValueOf(v))
}

func dump(v reflect.Value) *Node {
	n := &Node{}
	switch v.Kind() {
	case reflect.Bool:
		n.Kind = "bool"
		if v.Bool() {
			n.N = 1
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n.Kind, n.N, n.W = "int", uint64(v.Int()), v.Type().Bits()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		n.Kind, n.N, n.W = "int", v.Uint(), v.Type().Bits()
	case reflect.String:
		n.Kind, n.Str = "string", v.String()
	case reflect.Slice, reflect.Array:
		n.Kind = "array"
		if v.Kind() == reflect.Slice {
			n.Kind = "slice"
			if v.IsNil() {
				n.Kind = "nilslice"
				return n
			}
		}
		for i := 0; i < v.Len(); i++ {
			n.Kids = append(n.Kids, dump(v.Index(i)))
		}
	case reflect.Struct:
		n.Kind = "struct"
		n.Type = v.Type().Name()
		for i := 0; i < v.NumField(); i++ {
			k := dump(v.Field(i))
			k.Name = v.Type().Field(i).Name
			n.Kids = append(n.Kids, k)
		}
	case reflect.Pointer:
		if v.IsNil() {
			n.Kind = "nil"
			return n
		}
		n.Kind = "ptr"
		n.Kids = []*Node{dump(v.Elem())}
	case reflect.Interface:
		if v.IsNil() {
			n.Kind = "nil"
			return n
		}
		return dump(v.Elem())
	default:
		n.Kind = "other"
	}
	return n
}

// Shares reports whether mutable memory is reachable from both values.
func Shares(a, b any) bool {
	var x, y [][2]uintptr
	storage(reflect.ValueOf(a), &x, 0)
	storage(reflect.ValueOf(b), &y, 0)
	for _, p := range x {
		for _, q := range y {
			if p[0] < q[1] && q[0] < p[1] {
				return true
			}
		}
	}
	return false
}

func storage(v reflect.Value, out *[][2]uintptr, d int) {
	if !v.IsValid() || d > 60 {
		return
	}
	add := func(p, n uintptr) {
		if n > 0 {
			*out = append(*out, [2]uintptr{p, p + n})
		}
	}
	switch v.Kind() {
	case reflect.Interface:
		storage(v.Elem(), out, d+1)
	case reflect.Pointer:
		if v.IsNil() {
			return
		}
		add(v.Pointer(), v.Type().Elem().Size())
		storage(v.Elem(), out, d+1)
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		add(v.Pointer(), uintptr(v.Cap())*v.Type().Elem().Size())
		for i := 0; i < v.Len(); i++ {
			storage(v.Index(i), out, d+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			storage(v.Index(i), out, d+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			storage(v.Field(i), out, d+1)
		}
	}
}
