// Package sym is the harness-side interface of the symbolic engine.
//
// In the engine every function marked "intercepted" is replaced by its symbolic
// meaning; the bodies here are the native meaning, used to replay a concrete
// model (read from $SYM_MODEL) against the real, compiled code.
package sym

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"
)

type inputVal struct {
	K string `json:"k"`
	U uint64 `json:"u"`
	T string `json:"t"`
}

type result struct {
	Status string      `json:"status"` // ok, assume, assert, panic, missing
	Msg    string      `json:"msg"`
	Obs    [][2]string `json:"obs"`
	Assert int64       `json:"asserts"`
}

var (
	mu     sync.Mutex
	model  map[string]inputVal
	used   = map[string]int{}
	obs    [][2]string
	nas    int64
	closed bool
)

// Run executes one harness natively on the model and reports the outcome. Native only.
func Run(f func()) {
	data, err := os.ReadFile(os.Getenv("SYM_MODEL"))
	if err == nil {
		err = json.Unmarshal(data, &model)
	}
	if err != nil {
		finish("missing", err.Error())
	}
	n, _ := strconv.Atoi(os.Getenv("SYM_PROCS"))
	if n > 0 {
		runtime.GOMAXPROCS(n)
	}
	defer func() {
		if r := recover(); r != nil {
			buf := make([]byte, 8192)
			buf = buf[:runtime.Stack(buf, false)]
			finish("panic", fmt.Sprint(r)+"\n"+string(buf))
		}
	}()
	f()
	finish("ok", "")
}

func finish(status, msg string) {
	mu.Lock()
	if closed {
		mu.Unlock()
		select {}
	}
	closed = true
	b, _ := json.Marshal(result{status, msg, obs, atomic.LoadInt64(&nas)})
	fmt.Fprintf(os.Stdout, "\nSYMRESULT %s\n", b)
	os.Stdout.Sync()
	if status == "assert" || status == "panic" {
		os.Exit(3)
	}
	os.Exit(0)
}

func get(name string) uint64 {
	mu.Lock()
	used[name]++
	if used[name] > 1 {
		name = fmt.Sprintf("%s~%d", name, used[name])
	}
	v, ok := model[name]
	mu.Unlock()
	if !ok {
		return 0
	}
	return v.U
}

// The following are intercepted: arbitrary values of their type.
func Int64(name string) int64   { return int64(get(name)) }
func Int32(name string) int32   { return int32(get(name)) }
func Int16(name string) int16   { return int16(get(name)) }
func Int8(name string) int8     { return int8(get(name)) }
func Int(name string) int       { return int(get(name)) }
func Uint64(name string) uint64 { return get(name) }
func Uint32(name string) uint32 { return uint32(get(name)) }
func Uint16(name string) uint16 { return uint16(get(name)) }
func Uint8(name string) uint8   { return uint8(get(name)) }
func Uint(name string) uint     { return uint(get(name)) }
func Bool(name string) bool     { return get(name) != 0 }

// Float64 and Float32 are arbitrary IEEE values (IEEE mode only).
func Float64(name string) float64 { return math.Float64frombits(get(name)) }
func Float32(name string) float32 { return math.Float32frombits(uint32(get(name))) }

// IntRange is an arbitrary value in [lo,hi].
func IntRange(name string, lo, hi int64) int64 { return int64(get(name)) }

// Dyadic is k/2^bits for an arbitrary k in [lo,hi]: a float64 on which the
// sums, differences and halvings of the code under test are exact.
func Dyadic(name string, lo, hi int64, bits int) float64 {
	return float64(int64(get(name))) / float64(int64(1)<<uint(bits))
}

// Str is an arbitrary string of n bytes; StrIn one over the given alphabet.
func Str(name string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(get(fmt.Sprintf("%s[%d]", name, i)))
	}
	return string(b)
}
func StrIn(name string, n int, alphabet string) string { return Str(name, n) }

// Choose is an arbitrary value in [0,n), explored one path per value.
func Choose(name string, n int) int { return int(get(name)) }

// Assume restricts the inputs; Assert states the property.
func Assume(c bool) {
	if !c {
		finish("assume", "")
	}
}

func Assert(c bool, msg string) {
	atomic.AddInt64(&nas, 1)
	if !c {
		finish("assert", msg)
	}
}

// Reach is a vacuity witness: the engine requires that some path gets here.
func Reach(tag string) {}

// Observe records a value that the engine's and the native run must agree on.
func Observe(name string, v interface{}) {
	mu.Lock()
	defer mu.Unlock()
	s := "?"
	switch x := v.(type) {
	case string:
		s = fmt.Sprintf("%q", x)
	case bool, int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64:
		s = fmt.Sprint(x)
	}
	obs = append(obs, [2]string{name, s})
}

// Concurrent runs the functions in their own goroutines until all are done:
// in the engine under every schedule.
func Concurrent(fs ...func()) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	for _, f := range fs {
		wg.Add(1)
		go func(f func()) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					finish("panic", fmt.Sprint(r))
				}
			}()
			<-start
			f()
		}(f)
	}
	close(start)
	wg.Wait()
}

// Concrete forces a value to be concrete, one path per feasible value.
func Concrete(v int) int { return v }

// ReverseMaps makes map iteration run in the opposite order (engine only;
// native order is random anyway).
func ReverseMaps(on bool) {}

// Panics reports whether f panics.
func Panics(f func()) (p bool) {
	p = true
	defer func() {
		if p {
			recover()
		}
	}()
	f()
	p = false
	return
}

// Digits is an arbitrary number of at most n decimal digits, given digit by
// digit so that decimal arithmetic on it stays linear for the solver.
func Digits(name string, n int) uint64 {
	var v uint64
	for i := 0; i < n; i++ {
		v = v*10 + uint64(IntRange(name+"."+string(rune('a'+i)), 0, 9))
	}
	return v
}

// DigitsUpTo is an arbitrary number in [0,max], likewise.
func DigitsUpTo(name string, max uint64) uint64 {
	n := 1
	p := uint64(1)
	for max/p >= 10 {
		p *= 10
		n++
	}
	c := Choose(name+".window", n+1)
	var v uint64
	for i := 0; i < n; i++ {
		m := max / p % 10
		p /= 10
		if i < c {
			v = v*10 + m
			continue
		}
		hi := int64(9)
		if i == c {
			hi = int64(m) - 1
			Assume(hi >= 0)
		}
		v = v*10 + uint64(IntRange(name+"."+string(rune('a'+i)), 0, hi))
	}
	return v
}

// Int64Digits is an arbitrary int64, as sign and decimal digits.
func Int64Digits(name string) int64 {
	if Choose(name+".neg", 2) == 0 {
		return int64(DigitsUpTo(name, 1<<63-1))
	}
	if Choose(name+".min", 2) == 1 {
		return -1 << 63
	}
	return -int64(DigitsUpTo(name, 1<<63-1))
}
