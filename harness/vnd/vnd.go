// Package vnd holds the verification primitives used by the harnesses.
//
// Under the symbolic executor every function here is an intrinsic: U8..U64,
// Bool, Bytes and Str return fresh symbolic values, Choose a symbolic choice,
// Assume and Assert go to the solver. Compiled natively (replay of a
// counterexample against the real code) the same functions read the values of
// the counterexample from the file named by VND_REPLAY.
package vnd

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sync"
	"time"
)

var (
	mu     sync.Mutex
	values map[string]uint64
	seq    = map[string]int{}
	covers = map[string]bool{}
	notes  []string
	config = map[string]int64{}
	loaded bool
)

type replayFile struct {
	Values map[string]uint64 `json:"values"`
	Config map[string]int64  `json:"config"`
}

func load() {
	if loaded {
		return
	}
	loaded = true
	values = map[string]uint64{}
	f := os.Getenv("VND_REPLAY")
	if f == "" {
		return
	}
	b, err := os.ReadFile(f)
	if err != nil {
		fmt.Println("vnd: ", err)
		os.Exit(9)
	}
	var r replayFile
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Println("vnd: ", err)
		os.Exit(9)
	}
	values = r.Values
	if r.Config != nil {
		config = r.Config
	}
}

func next(name string) uint64 {
	mu.Lock()
	defer mu.Unlock()
	load()
	k := seq[name]
	seq[name] = k + 1
	return values[fmt.Sprintf("%s#%d", name, k)]
}

// U8 is an arbitrary byte.
func U8(name string) uint8 { return uint8(next(name)) }

// U16 is an arbitrary 16-bit value.
func U16(name string) uint16 { return uint16(next(name)) }

// U32 is an arbitrary 32-bit value.
func U32(name string) uint32 { return uint32(next(name)) }

// U64 is an arbitrary 64-bit value.
func U64(name string) uint64 { return next(name) }

// Bool is an arbitrary boolean.
func Bool(name string) bool { return next(name) != 0 }

// Bytes is n arbitrary bytes.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next(name))
	}
	return b
}

// Str is a string of n arbitrary bytes.
func Str(name string, n int) string { return string(Bytes(name, n)) }

// Choose is an arbitrary value in [0,n).
func Choose(name string, n int) int {
	v := int(next(name))
	if v >= n {
		v = 0
	}
	return v
}

// Assume restricts the inputs considered.
func Assume(c bool) {
	if !c {
		fmt.Println("VND assume-failed")
		os.Exit(8)
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		fmt.Println("VND assert-failed: " + msg)
		os.Exit(3)
	}
}

// Cover marks a point that must be reachable for the check to mean anything.
func Cover(label string) {
	mu.Lock()
	covers[label] = true
	mu.Unlock()
}

// Covered lists the cover points reached.
func Covered() map[string]bool { return covers }

// Bound records a bound of the exploration.
func Bound(string) {}

// Note attaches a remark to a counterexample.
func Note(s string) { fmt.Println("VND note: " + s) }

// Pin splits the exploration on the value of x.
func Pin(x uint64) uint64 { return x }

// Ite is a non-forking conditional.
func Ite(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}

// And is a non-forking conjunction.
func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}

// Or is a non-forking disjunction.
func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}

// Implies is a non-forking implication.
func Implies(a, b bool) bool { return !a || b }

// BytesEq is a non-forking comparison.
func BytesEq(a, b []byte) bool { return string(a) == string(b) }

// Symbolic tells whether the harness runs under the symbolic executor.
func Symbolic() bool { return false }

// Config is a bound set by the check's tier.
func Config(name string, def int) int {
	mu.Lock()
	defer mu.Unlock()
	load()
	if v, ok := config[name]; ok {
		return int(v)
	}
	return def
}

// SchedAll explores all interleavings from here on (preemptions < 0: no bound).
func SchedAll(preemptions int) {}

// SchedDelay explores the interleavings with at most n delays of the fixed schedule.
func SchedDelay(n int) {}

// SchedDet goes back to one fixed schedule.
func SchedDet() {}

// Quiesce waits until every other goroutine is blocked or gone.
func Quiesce() {
	for i := 0; i < 20; i++ {
		runtime.Gosched()
		time.Sleep(2 * time.Millisecond)
	}
}

// Idle is Quiesce for the virtual clock: it comes before the Quiesce of others.
func Idle() {
	for i := 0; i < 4; i++ {
		runtime.Gosched()
		time.Sleep(2 * time.Millisecond)
	}
}

// Yield lets other goroutines run.
func Yield() { runtime.Gosched() }

// Shared makes accesses to *p (or the elements of a slice) scheduling points.
func Shared(p interface{}) {}

// Unsupported ends the path: the code left what is modelled.
func Unsupported(what string) {
	fmt.Println("VND unsupported: " + what)
	os.Exit(8)
}

// Atomic starts a section of the environment (not of the code under test) that
// runs without scheduling points unless it blocks; objs (pointers) tell which
// sections depend on one another.
func Atomic(objs ...interface{}) {}

// AtomicEnd ends it.
func AtomicEnd() {}
