// Package rt is the harness run-time. Under the symbolic engine every function here is
// intercepted; compiled natively it replays a recorded counterexample.
package rt

import (
	crand "crypto/rand"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sync"
	"time"
)

type inputVal struct {
	Label string `json:"label"`
	Val   uint64 `json:"val"`
}

var (
	mu     sync.Mutex
	inputs = map[string][]uint64{}
	loaded bool
)

func load() {
	if loaded {
		return
	}
	loaded = true
	b, err := os.ReadFile(os.Getenv("VERIF_INPUTS"))
	if err != nil {
		return
	}
	var r struct {
		Inputs []inputVal `json:"inputs"`
	}
	if json.Unmarshal(b, &r) == nil {
		for _, v := range r.Inputs {
			inputs[v.Label] = append(inputs[v.Label], v.Val)
		}
	}
}

// Next pops the next recorded value of a label.
func Next(label string) (uint64, bool) {
	mu.Lock()
	defer mu.Unlock()
	load()
	q := inputs[label]
	if len(q) == 0 {
		return 0, false
	}
	inputs[label] = q[1:]
	return q[0], true
}

func next(label string) uint64 { v, _ := Next(label); return v }

func Int64(name string) int64   { return int64(next(name)) }
func Int(name string) int       { return int(int64(next(name))) }
func Int32(name string) int32   { return int32(next(name)) }
func Uint64(name string) uint64 { return next(name) }
func Uint32(name string) uint32 { return uint32(next(name)) }
func Uint8(name string) uint8   { return uint8(next(name)) }
func Bool(name string) bool     { return next(name) == 1 }
func String(name string, n int) string { return string(Bytes(name, n)) }
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next(name))
	}
	return b
}
func Choose(name string, n int) int { return int(next(name)) }
func Concrete(x int64) int64        { return x }

func Assume(c bool) {
	if !c {
		fmt.Println("VERIF-ASSUME-FAILED")
		os.Exit(4)
	}
}
func Assert(c bool, msg string) {
	if !c {
		fmt.Println("VERIF-VIOLATION:", msg)
		os.Exit(3)
	}
}
func Reach(string)   {}
func Symbolic() bool { return false }

// Thorough reports whether the deeper bounds are requested.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Setup prepares a native replay.
func Setup() {
	load()
	if q := inputs["gomaxprocs"]; len(q) > 0 && q[0] >= 1 && q[0] <= 256 {
		runtime.GOMAXPROCS(int(q[0]))
	}
	if len(inputs["randbyte"]) > 0 {
		crand.Reader = randReader{}
	}
}

type randReader struct{}

func (randReader) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(next("randbyte"))
		random = append(random, b[i])
	}
	return len(b), nil
}

var random []byte

// Random returns the bytes drawn from crypto/rand so far (in a replay that did not fix them, none).
func Random() []byte { return random }

// Finished marks the end of a replay.
func Finished() { fmt.Println("VERIF-FINISHED") }
func Ticks(int)      {}
func Races(bool)     {}

// Clock fixes the clock: readings are t, t+1µs, ... instead of arbitrary increasing times.
func Clock(t int64) {}

// Advance moves the clock on by exactly d; from its first call the clock moves only through it.
func Advance(d int64) { time.Sleep(time.Duration(d)) }

// Serial(true) explores one schedule only until Serial(false).
func Serial(bool) {}
func MustTerminate(steps int, msg string) {
	mu.Lock()
	termGen++
	g := termGen
	mu.Unlock()
	time.AfterFunc(5*time.Second, func() {
		mu.Lock()
		defer mu.Unlock()
		if g == termGen {
			fmt.Println("VERIF-VIOLATION:", msg)
			os.Exit(3)
		}
	})
}

var termGen int

func EndTerminate() { mu.Lock(); termGen++; mu.Unlock() }
func Atomic(f func()) {
	amu.Lock()
	defer amu.Unlock()
	f()
}

var amu sync.Mutex

func Yield()   { time.Sleep(time.Millisecond) }
func Live() int { return -1 }
func Quiesce() { time.Sleep(60 * time.Millisecond) }
func Par(fs ...func()) {
	var wg sync.WaitGroup
	for i, f := range fs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			Register(i + 1)
			f()
			Unregister()
		}()
	}
	wg.Wait()
}
func Concurrent(post func(), fs ...func()) {
	StartSchedule()
	Par(fs...)
	StopSchedule()
	post()
}
func Now() int64 { return time.Now().UnixNano() }
