// Package sym is the interface between a harness and the symbolic executor. In the executor every
// input is a solver variable; natively the inputs come from a recorded assignment, which is how a
// counterexample is replayed against the compiled code.
package sym

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"
)

var (
	mu       sync.Mutex
	inputs   map[string]string
	names    map[string]int
	failed   []string
	observed []string
	base     int
	tier     string
)

// Reset prepares a native run.
func Reset(in map[string]string, t string) {
	mu.Lock()
	defer mu.Unlock()
	inputs, names, failed, observed, tier = in, map[string]int{}, nil, nil, t
	base = runtime.NumGoroutine()
}

// Failed returns the assertions that failed in a native run.
func Failed() []string { mu.Lock(); defer mu.Unlock(); return append([]string{}, failed...) }

// Observed returns the observations of a native run.
func Observed() []string { mu.Lock(); defer mu.Unlock(); return append([]string{}, observed...) }

type infeasible struct{}

// Infeasible reports whether a recovered panic value is a failed assumption.
func Infeasible(r interface{}) bool { _, ok := r.(infeasible); return ok }

func lookup(name string) (string, bool) {
	mu.Lock()
	defer mu.Unlock()
	k := names[name]
	names[name]++
	v, ok := inputs[fmt.Sprintf("%s#%d", name, k)]
	return v, ok
}

func Bool(name string) bool { v, _ := lookup(name); return v == "true" }

func Int(name string, lo, hi int) int {
	v, ok := lookup(name)
	if !ok {
		return lo
	}
	n, _ := strconv.ParseInt(v, 10, 64)
	return int(n)
}

func Int64(name string) int64 {
	v, _ := lookup(name)
	n, _ := strconv.ParseInt(v, 10, 64)
	return n
}

// Choose is an int in [0,n) which the executor splits into its values.
func Choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	return Int(name, 0, n-1)
}

func Float(name string) float64 {
	v, _ := lookup(name)
	u, _ := strconv.ParseUint(strings.TrimPrefix(v, "0x"), 16, 64)
	return math.Float64frombits(u)
}

// String is any string of at most max bytes.
func String(name string, max int) string {
	v, _ := lookup(name)
	b, _ := hex.DecodeString(v)
	return string(b)
}

// ASCII is any string of 7 bit characters with min to max of them.
func ASCII(name string, min, max int) string {
	if max <= 0 {
		return ""
	}
	return String(name, max)
}

// Word is any string of lower case letters.
func Word(name string, min, max int) string {
	if max <= 0 {
		return ""
	}
	return String(name, max)
}

// Bytes are n arbitrary bytes.
func Bytes(name string, n int) []byte {
	v, _ := lookup(name)
	b, _ := hex.DecodeString(v)
	for len(b) < n {
		b = append(b, 0)
	}
	return b
}

func Assume(b bool) {
	if !b {
		panic(infeasible{})
	}
}

func Assert(b bool, id string) {
	if !b {
		mu.Lock()
		failed = append(failed, id)
		mu.Unlock()
	}
}

// Reach marks a place that some path must reach.
func Reach(id string) {}

func And(bs ...bool) bool {
	for _, b := range bs {
		if !b {
			return false
		}
	}
	return true
}

func Or(bs ...bool) bool {
	for _, b := range bs {
		if b {
			return true
		}
	}
	return false
}

func Not(b bool) bool        { return !b }
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }

// SameFloat compares bit patterns.
func SameFloat(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) }

func render(v interface{}) string {
	switch v := v.(type) {
	case nil:
		return "nil"
	case string:
		return strconv.Quote(v)
	case float64:
		return fmt.Sprintf("0x%016x", math.Float64bits(v))
	case []string:
		var s []string
		for _, x := range v {
			s = append(s, strconv.Quote(x))
		}
		return "[" + strings.Join(s, " ") + "]"
	case []byte:
		var s []string
		for _, x := range v {
			s = append(s, fmt.Sprint(int8(x)))
		}
		return "[" + strings.Join(s, " ") + "]"
	}
	return fmt.Sprint(v)
}

// Observe records a value that the native run must reproduce.
func Observe(label string, v interface{}) {
	mu.Lock()
	defer mu.Unlock()
	observed = append(observed, label+"="+render(v))
}

// Bound picks a bound by tier.
func Bound(quick, thorough int) int {
	if tier == "thorough" {
		return thorough
	}
	return quick
}

func Thorough() bool { return tier == "thorough" }

// Native reports whether this is a native run.
func Native() bool { return true }

// MapOrder sets how map iteration is explored: 0 insertion order, 1 that or reversed, 2 every order.
func MapOrder(mode int) {}

// Timers allows n timers to fire while goroutines can still run.
func Timers(n int) {}

// Selects makes selects with several ready cases take the first of them, or all of them the last, except for n.
func Selects(n int) {}

// Preempt allows n involuntary switches per execution.
func Preempt(n int) {}

// Delay allows n departures of any kind, voluntary switches included, from running goroutines in the order in which they
// became ready.
func Delay(n int) {}

// Par runs the functions concurrently and waits for all.
func Par(fs ...func()) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	for _, f := range fs {
		f := f
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			f()
		}()
	}
	close(start)
	wg.Wait()
}

func Go(f func()) { go f() }

// Quiesce waits until every other goroutine is blocked or done.
func Quiesce() {
	last, same := -1, 0
	for i := 0; i < 40; i++ {
		time.Sleep(2 * time.Millisecond)
		n := runtime.NumGoroutine()
		if n == last {
			same++
		} else {
			same = 0
		}
		last = n
		if same >= 12 {
			return
		}
	}
}

// Leaked counts the goroutines left over, besides the caller.
func Leaked() int {
	n := 0
	for i := 0; i < 100; i++ {
		n = runtime.NumGoroutine() - base
		if n <= 0 {
			return 0
		}
		time.Sleep(2 * time.Millisecond)
	}
	return n
}

// Panics runs f and reports whether it panicked.
func Panics(f func()) (r bool) {
	defer func() {
		if x := recover(); x != nil {
			if Infeasible(x) {
				panic(x)
			}
			r = true
		}
	}()
	f()
	return false
}

// CaptureStdout returns what f writes to os.Stdout.
func CaptureStdout(f func()) []byte {
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	old := os.Stdout
	os.Stdout = w
	done := make(chan []byte)
	go func() {
		var b bytes.Buffer
		io.Copy(&b, r)
		done <- b.Bytes()
	}()
	func() {
		defer func() { os.Stdout = old; w.Close() }()
		f()
	}()
	out := <-done
	r.Close()
	if out == nil {
		out = []byte{}
	}
	return out
}

// FailingStdout runs f with an os.Stdout that refuses every write.
func FailingStdout(f func()) {
	r, err := os.Open(os.DevNull)
	if err != nil {
		panic(err)
	}
	old := os.Stdout
	os.Stdout = r
	defer func() { os.Stdout = old; r.Close() }()
	f()
}

// RandomSymbolic makes the random source of the executor symbolic.
func RandomSymbolic() {}

// Random returns the random bytes drawn so far (executor only).
func Random() []byte { return nil }

// J describes a JSON document.
type J struct {
	Kind  int
	Bool  bool
	Str   string
	Keys  []string
	Elems []*J
}

const (
	JNull = iota
	JBool
	JNum
	JStr
	JArr
	JObj
	JBad
)

// JSON gives the text of the document.
func JSON(j *J) []byte {
	var b bytes.Buffer
	j.write(&b)
	return b.Bytes()
}

func (j *J) write(b *bytes.Buffer) {
	str := func(s string) { x, _ := json.Marshal(s); b.Write(x) }
	switch j.Kind {
	case JNull:
		b.WriteString("null")
	case JBool:
		fmt.Fprint(b, j.Bool)
	case JNum:
		b.WriteString(j.Str)
	case JStr:
		str(j.Str)
	case JArr:
		b.WriteByte('[')
		for i, e := range j.Elems {
			if i > 0 {
				b.WriteByte(',')
			}
			e.write(b)
		}
		b.WriteByte(']')
	case JObj:
		b.WriteByte('{')
		for i, e := range j.Elems {
			if i > 0 {
				b.WriteByte(',')
			}
			str(j.Keys[i])
			b.WriteByte(':')
			e.write(b)
		}
		b.WriteByte('}')
	default:
		b.WriteString(`{"uid":`)
	}
}
