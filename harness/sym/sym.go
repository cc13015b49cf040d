// Package sym is the harness interface of the symbolic engine. In the engine
// every function here is an intrinsic; this file is the native meaning of the
// same calls, used to replay a solver model on the compiled code.
package sym

import (
	"encoding/json"
	"fmt"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"time"
)

type Assignment struct {
	Harness string                       `json:"harness"`
	Vars    map[string]uint64            `json:"vars"`
	Mem     map[string]map[string]uint64 `json:"mem"`
	Params  map[string]int               `json:"params"`
}

type Result struct {
	Status string   `json:"status"`
	ID     string   `json:"id"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
}

type failure struct{ kind, id, msg string }

var (
	mu    sync.Mutex
	asg   Assignment
	names map[string]int
	obs   []string
	base  int
)

// Run executes one harness on one assignment.
func Run(line []byte, reg map[string]func()) (res Result) {
	mu.Lock()
	asg = Assignment{}
	names = map[string]int{}
	obs = nil
	mu.Unlock()
	if err := json.Unmarshal(line, &asg); err != nil {
		return Result{Status: "skip", Msg: err.Error()}
	}
	f := reg[asg.Harness]
	if f == nil {
		return Result{Status: "skip", Msg: "no harness " + asg.Harness}
	}
	base = runtime.NumGoroutine()
	defer func() {
		res.Obs = obs
		if r := recover(); r != nil {
			if x, ok := r.(failure); ok {
				res.Status, res.ID, res.Msg = x.kind, x.id, x.msg
				return
			}
			st := strings.Split(string(debug.Stack()), "\n")
			var keep []string
			for _, l := range st {
				if strings.Contains(l, "go-unixfs") || strings.Contains(l, "/repo/") {
					keep = append(keep, strings.TrimSpace(l))
				}
				if len(keep) > 10 {
					break
				}
			}
			res.Status, res.ID, res.Msg = "panic", "panic", fmt.Sprint(r)+"\n"+strings.Join(keep, "\n")
		}
	}()
	f()
	return Result{Status: "ok"}
}

func fresh(n string) string {
	mu.Lock()
	defer mu.Unlock()
	k := names[n]
	names[n]++
	if k > 0 {
		n = fmt.Sprintf("%s#%d", n, k)
	}
	return n
}

func get(n string, def uint64) uint64 {
	if v, ok := asg.Vars[n]; ok {
		return v
	}
	return def
}

func Int(name string, lo, hi int) int {
	v := int(get(fresh(name), uint64(lo)))
	if v < lo || v > hi {
		panic(failure{"skip", "", fmt.Sprintf("%s=%d outside [%d,%d]", name, v, lo, hi)})
	}
	return v
}
func Int64(name string, lo, hi int64) int64 { return int64(Int(name, int(lo), int(hi))) }
func Uint64(name string) uint64             { return get(fresh(name), 0) }
func AnyInt(name string) int                { return int(get(fresh(name), 0)) }
func AnyInt64(name string) int64            { return int64(get(fresh(name), 0)) }
func Byte(name string) byte                 { return byte(get(fresh(name), 0)) }
func Bool(name string) bool                 { return get(fresh(name), 0)&1 == 1 }

// Choice is an engine-side nondeterministic choice in [0,n).
func Choice(name string, n int) int { return int(get(fresh(name), 0)) }

func fill(name string, i uint64) byte {
	h := uint64(14695981039346656037)
	for k := 0; k < len(name); k++ {
		h ^= uint64(name[k])
		h *= 1099511628211
	}
	h ^= i * 0x9e3779b97f4a7c15
	h ^= h >> 29
	h *= 0xbf58476d1ce4e5b9
	h ^= h >> 32
	return byte(h)
}

// Bytes is an input of n bytes with arbitrary content.
func Bytes(name string, n int) []byte {
	name = fresh(name)
	if n < 0 || n > 1<<28 {
		panic(failure{"skip", "", "input too large to replay"})
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = fill(name, uint64(i))
	}
	for k, v := range asg.Mem[name] {
		i, err := strconv.ParseUint(k, 10, 64)
		if err == nil && i < uint64(n) {
			b[i] = byte(v)
		}
	}
	return b
}

func Assume(c bool) {
	if !c {
		panic(failure{"skip", "", "assumption"})
	}
}
func Assert(c bool, id string) {
	if !c {
		panic(failure{"assert", id, "assertion " + id + " failed"})
	}
}
func AssertEqBytes(a, b []byte, id string) {
	if len(a) != len(b) {
		panic(failure{"assert", id + "/len", fmt.Sprintf("%s: %d bytes, want %d", id, len(a), len(b))})
	}
	for i := range a {
		if a[i] != b[i] {
			panic(failure{"assert", id, fmt.Sprintf("%s: byte %d of %d is %#x, want %#x", id, i, len(a), a[i], b[i])})
		}
	}
}
func Fail(id string) { Assert(false, id) }
func Skip()          { panic(failure{"skip", "", "skip"}) }

func Reach(id string) {}
func Observe(name string, v int) {
	mu.Lock()
	obs = append(obs, name+"="+strconv.Itoa(v))
	mu.Unlock()
}
func ObserveStr(name, v string) {
	mu.Lock()
	obs = append(obs, name+"="+v)
	mu.Unlock()
}
func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Implies(a, b bool) bool { return !a || b }
func Ite(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func Ite64(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}
func EqBytes(a, b []byte) bool { return string(a) == string(b) }
func Concretize(v int) int     { return v }
func Symbolic() bool           { return false }
func Sched(delays int)         {}
func MapOrder()                {}
func Hang()                    {}
func Race()                    {}

// Quiesce lets every other goroutine run until it blocks or ends and returns
// how many are left.
func Quiesce() int {
	n := 0
	for i := 0; i < 100; i++ {
		if n = runtime.NumGoroutine() - base; n <= 0 {
			return 0
		}
		if i < 20 {
			runtime.Gosched()
		}
		time.Sleep(2 * time.Millisecond)
	}
	return n
}
func Param(name string, def int) int {
	if v, ok := asg.Params[name]; ok {
		return v
	}
	return def
}
