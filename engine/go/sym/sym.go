// Package sym is the interface between the harnesses and the symbolic
// executor. Under the executor every function here is replaced by its symbolic
// meaning; compiled natively it replays one recorded assignment.
package sym

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode/utf8"
)

type inVal struct {
	K string `json:"k"`
	V uint64 `json:"v"`
}

type runSpec struct {
	Harness string  `json:"harness"`
	Tier    int     `json:"tier"`
	Inputs  []inVal `json:"inputs"`
}

var (
	mu    sync.Mutex
	cur   runSpec
	pos   int
	out   []string
	cov   map[string]bool
	clock int64
	base  int
)

type stop struct{ why string }

func next(k string) uint64 {
	mu.Lock()
	defer mu.Unlock()
	if pos >= len(cur.Inputs) {
		panic(stop{"DIVERGE: no input left for " + k})
	}
	x := cur.Inputs[pos]
	pos++
	if x.K != k {
		panic(stop{fmt.Sprintf("DIVERGE: input %d is %s, harness asked for %s", pos-1, x.K, k)})
	}
	return x.V
}

func Int() int         { return int(next("Int")) }
func Int64() int64     { return int64(next("Int64")) }
func Int32() int32     { return int32(next("Int32")) }
func Int16() int16     { return int16(next("Int16")) }
func Int8() int8       { return int8(next("Int8")) }
func Uint() uint       { return uint(next("Uint")) }
func Uint64() uint64   { return next("Uint64") }
func Uint32() uint32   { return uint32(next("Uint32")) }
func Uint16() uint16   { return uint16(next("Uint16")) }
func Uint8() uint8     { return uint8(next("Uint8")) }
func Float64() float64 { return math.Float64frombits(next("Float64")) }
func Float32() float32 { return math.Float32frombits(uint32(next("Float32"))) }
func Bool() bool       { return next("Bool") != 0 }

// IntRange is a symbolic int in [lo,hi].
func IntRange(lo, hi int) int { return int(next("IntRange")) }

// Choose forks over 0..n-1; the result is concrete on each path.
func Choose(n int) int { return int(next("Choose")) }

// Bytes is a symbolic byte slice with a concrete (forked) length in [lo,hi].
func Bytes(lo, hi int) []byte {
	n := int(next("len"))
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next("byte"))
	}
	return b
}

// Str is a string of arbitrary bytes, length in [lo,hi].
func Str(lo, hi int) string { return string(Bytes(lo, hi)) }

// UStr is a valid UTF-8 string of lo..hi arbitrary runes.
func UStr(lo, hi int) string { return UStrW(lo, hi, 4) }

// UStrW limits the UTF-8 width of each rune.
func UStrW(lo, hi, maxw int) string {
	n := int(next("len"))
	var b []byte
	for i := 0; i < n; i++ {
		b = utf8.AppendRune(b, rune(int32(next("rune"))))
	}
	return string(b)
}

// Rune is an arbitrary Unicode scalar value.
func Rune() rune { return rune(int32(next("rune"))) }

func Assume(c bool) {
	if !c {
		panic(stop{"ASSUME"})
	}
}

func Assert(c bool, msg string) {
	if !c {
		mu.Lock()
		out = append(out, "ASSERTFAIL "+msg)
		mu.Unlock()
		panic(stop{"ASSERTFAIL " + msg})
	}
}

func Cover(s string) {
	mu.Lock()
	cov[s] = true
	mu.Unlock()
}

// Tier is 0 for quick, 1 for thorough.
func Tier() int { return cur.Tier }

func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Implies(a, b bool) bool { return !a || b }
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// EqBytes compares two byte slices without forking.
func EqBytes(a, b []byte) bool { return string(a) == string(b) }

// Concrete forks over the feasible values of x.
func Concrete(x int) int { return x }

// Obs records a value for the translation check.
func Obs(name string, v interface{}) {
	s := name + "=" + format(reflect.ValueOf(v))
	mu.Lock()
	out = append(out, "OBS "+s)
	mu.Unlock()
}

func format(v reflect.Value) string {
	if !v.IsValid() {
		return "nil"
	}
	switch v.Kind() {
	case reflect.String:
		return fmt.Sprintf("%x", v.String())
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprint(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return fmt.Sprint(v.Uint())
	case reflect.Float64:
		if v.Float() != v.Float() {
			return "NaN"
		}
		return fmt.Sprintf("%x", math.Float64bits(v.Float()))
	case reflect.Float32:
		if v.Float() != v.Float() {
			return "NaN"
		}
		return fmt.Sprintf("%x", math.Float32bits(float32(v.Float())))
	case reflect.Slice:
		if k := v.Type().Elem().Kind(); k == reflect.Uint8 || k == reflect.Int8 {
			return fmt.Sprintf("%x", v.Bytes())
		}
		var p []string
		for i := 0; i < v.Len(); i++ {
			p = append(p, format(v.Index(i)))
		}
		return "[" + strings.Join(p, " ") + "]"
	case reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return format(v.Elem())
	case reflect.Ptr, reflect.Map, reflect.Chan, reflect.Func:
		if v.IsNil() {
			return "nil"
		}
	}
	return "ref"
}

// Sched selects how goroutine interleavings are explored: "full" (all, with
// partial-order reduction), "preempt" or "delay" with a budget. With a budget of
// 0 there is one schedule; "rotate" is the one schedule that switches to the next
// goroutine after that many steps of synchronisation. With one schedule,
// pools hand out what was put last.
func Sched(mode string, budget int) {}

// Rand replaces the arbitrary numbers of math/rand by the fixed sequence with
// this seed, for the rest of the run (real runs: nothing).
func Rand(seed int) {}

// MapOrder limits the exploration of iteration orders to maps of at most max
// entries; larger ones are iterated in insertion order.
func MapOrder(max int) {}

// NoRace switches the happens-before race detector off for this path.
func NoRace() {}

// Call and Ret stamp a point in time. Under the executor a stamp is a solver
// variable: everything the partial order of dependent steps leaves open about
// it is decided for all orderings at once.
func Call() int { return int(atomic.AddInt64(&clock, 1)) }
func Ret() int  { return int(atomic.AddInt64(&clock, 1)) }

// Before compares stamps.
func Before(a, b int) bool { return a < b }

// Begin and End record the span of a call (of an item, in a group of calls).
// They are no steps of the schedule and order nothing.
func Begin(group, item int) int {
	spanMu.Lock()
	defer spanMu.Unlock()
	spans = append(spans, &span{group: group, item: item, call: Call()})
	return len(spans)
}

func End(h int) {
	spanMu.Lock()
	defer spanMu.Unlock()
	spans[h-1].ret = Ret()
}

// Spans is the number of spans recorded in a group; SpanItem, SpanCall and
// SpanRet (0 if the call has not returned) tell about the k-th.
func Spans(group int) (n int) {
	spanMu.Lock()
	defer spanMu.Unlock()
	for _, s := range spans {
		if s.group == group {
			n++
		}
	}
	return n
}

func SpanItem(group, k int) int { return theSpan(group, k).item }
func SpanCall(group, k int) int { return theSpan(group, k).call }
func SpanRet(group, k int) int  { return theSpan(group, k).ret }

type span struct{ group, item, call, ret int }

var (
	spanMu sync.Mutex
	spans  []*span
)

func theSpan(group, k int) span {
	spanMu.Lock()
	defer spanMu.Unlock()
	for _, s := range spans {
		if s.group == group {
			if k == 0 {
				return *s
			}
			k--
		}
	}
	panic("no such span")
}

// DecideOrders leaves every order between stamps of different goroutines to
// the solver, also where the partial order gives the answer right away.
func DecideOrders() {}

// Follows reports whether a is known to come after b in every ordering.
func Follows(a, b int) bool { return b < a }

// Same reports whether two values are known to be equal, compared in depth.
func Same(a, b interface{}) bool { return reflect.DeepEqual(a, b) }

// Impossible reports whether a condition is known to be false (which it need
// not be for the condition to be false).
func Impossible(c bool) bool { return !c }

// Quiesce runs until every other goroutine is finished or blocked.
func Quiesce() {
	for i := 0; i < 20; i++ {
		runtime.Gosched()
		time.Sleep(2 * time.Millisecond)
	}
}

// Live is the number of other goroutines that have not finished.
func Live() int {
	n := 0
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	for i, g := range strings.Split(string(buf), "\n\n") {
		if i == 0 || !strings.Contains(g, "chenquan/go-pkg") || strings.Contains(g, "zzverif/native") && strings.Contains(g, "goroutine 1 ") {
			continue
		}
		if strings.Contains(g, "ants") && !strings.Contains(g, "go-pkg/x") {
			continue
		}
		n++
	}
	return n - base
}

func LiveDesc() string { return "" }

func Yield() { runtime.Gosched() }

// Symbolic reports whether the symbolic executor is running the code.
func Symbolic() bool { return false }

// Catch runs f and returns the panic value, if f panicked.
func Catch(f func()) (v interface{}, panicked bool) {
	done := false
	defer func() {
		if !done {
			v = recover()
			if s, ok := v.(stop); ok {
				panic(s)
			}
			panicked = true
		}
	}()
	f()
	done = true
	return
}

// ---- executor only ----------------------------------------------------------

func engineOnly() { panic("only under the symbolic executor") }

func TimerWait(cancelled chan struct{})                  { engineOnly() }
func PoolTake(p *sync.Pool) (interface{}, bool)          { engineOnly(); return nil, false }
func SliceLen(x interface{}) int                         { engineOnly(); return 0 }
func SliceSwap(x interface{}, i, j int)                  { engineOnly() }
func SideGet(p interface{}, key string) interface{}      { engineOnly(); return nil }
func SideSet(p interface{}, key string, val interface{}) { engineOnly() }
func Sprintf(f string, args []interface{}) string        { engineOnly(); return "" }
func RandIntn(n int) int                                 { engineOnly(); return 0 }
func TypeName(x interface{}) string                      { engineOnly(); return "" }

// ---- native driver --------------------------------------------------------------

// Main runs the recorded assignments in the file named by os.Args[1].
func Main(hs map[string]func()) {
	data, err := os.ReadFile(os.Args[1])
	if err != nil {
		fmt.Println(err)
		os.Exit(9)
	}
	var runs []runSpec
	if err := json.Unmarshal(data, &runs); err != nil {
		fmt.Println(err)
		os.Exit(9)
	}
	for i, r := range runs {
		cur, pos, out, cov, clock, spans = r, 0, nil, map[string]bool{}, 0, nil
		base = 0
		base = Live()
		res := "OK"
		done := make(chan struct{})
		go func() {
			defer close(done)
			defer func() {
				if v := recover(); v != nil {
					if s, ok := v.(stop); ok {
						res = s.why
						return
					}
					res = fmt.Sprintf("PANIC %v", v)
				}
			}()
			h := hs[r.Harness]
			if h == nil {
				panic(stop{"DIVERGE: no such harness"})
			}
			h()
			if pos != len(cur.Inputs) {
				res = fmt.Sprintf("DIVERGE: %d of %d inputs used", pos, len(cur.Inputs))
			}
		}()
		select {
		case <-done:
		case <-time.After(20 * time.Second):
			res = "TIMEOUT"
		}
		var cs []string
		for c := range cov {
			cs = append(cs, c)
		}
		sort.Strings(cs)
		b, _ := json.Marshal(map[string]interface{}{"i": i, "res": res, "out": out, "cov": cs})
		fmt.Println("RUN " + string(b))
		if res == "TIMEOUT" {
			os.Exit(7)
		}
	}
}
