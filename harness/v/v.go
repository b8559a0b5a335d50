// Package v is the harness vocabulary. Under the symbolic engine these
// functions are intercepted; compiled natively they read a recorded input
// vector, so that any path or counterexample can be replayed on the real code.
package v

import (
	"os"
	"runtime"
	"sync"
	"unsafe"
)

// replay state
var (
	In   []uint64
	pos  int
	Obs  []uint64
	Deep bool
)

type AssertFail struct{ Msg string }
type AssumeFail struct{}
type InputEnd struct{}

// Reset installs an input vector.
func Reset(in []uint64, deep bool) {
	In, pos, Obs, Deep = in, 0, nil, deep
}

func next() uint64 {
	if pos >= len(In) {
		panic(InputEnd{})
	}
	x := In[pos]
	pos++
	return x
}

// Byte and friends: an arbitrary value of the type.
func Byte() byte     { return byte(next()) }
func Uint16() uint16 { return uint16(next()) }
func Uint32() uint32 { return uint32(next()) }
func Uint64() uint64 { return next() }
func Int() int       { return int(next()) }
func Int64() int64   { return int64(next()) }
func Int32() int32   { return int32(next()) }
func Bool() bool     { return next() != 0 }

// Bytes is a fresh slice of n arbitrary bytes (len == cap).
func Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte()
	}
	return b
}

// IntRange is an arbitrary integer in [lo,hi].
func IntRange(lo, hi int) int {
	if lo == hi {
		return lo
	}
	return int(next())
}

// Choose is an arbitrary integer in [0,n), decided by case split.
func Choose(n int) int {
	return int(next())
}

// Concretize splits on the value of x.
func Concretize(x int) int { return x }

func Assume(c bool) {
	if !c {
		panic(AssumeFail{})
	}
}
func Assert(c bool, msg string) {
	if !c {
		panic(AssertFail{msg})
	}
}
func Fail(msg string)   { panic(AssertFail{msg}) }
func Reach(name string) {}

// Possible: the condition must hold for at least one input or random outcome of the harness.
func Possible(c bool, msg string) {}

// Draws: consider only runs that ask the random source at most n times from here on.
func Draws(n int) {}

// Observe adds to the trace compared between symbolic and native execution.
func Observe(x uint64) { Obs = append(Obs, x) }
func ObserveBytes(b []byte) {
	Obs = append(Obs, uint64(len(b)))
	for _, x := range b {
		Obs = append(Obs, uint64(x))
	}
}

// EqBytes compares without forking.
func EqBytes(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func And(cs ...bool) bool {
	for _, c := range cs {
		if !c {
			return false
		}
	}
	return true
}
func Or(cs ...bool) bool {
	for _, c := range cs {
		if c {
			return true
		}
	}
	return false
}
func Implies(a, b bool) bool { return !a || b }
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func IteU64(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}
func IteByte(c bool, a, b byte) byte {
	if c {
		return a
	}
	return b
}

// Panics runs f and reports whether it panicked.
func Panics(f func()) (r bool) {
	defer func() {
		if x := recover(); x != nil {
			switch x.(type) {
			case AssertFail, AssumeFail, InputEnd:
				panic(x)
			}
			r = true
		}
	}()
	f()
	return false
}

// ParData is Par for functions that share nothing but the data of the code under test: schedules that differ only in the order of
// operations on different memory are explored once.
func ParData(fs ...func()) { Par(fs...) }

// Par runs the functions concurrently and waits for them.
func Par(fs ...func()) {
	var wg sync.WaitGroup
	start := make(chan bool)
	var mu sync.Mutex
	var bad interface{}
	for _, f := range fs {
		f := f
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					mu.Lock()
					bad = x
					mu.Unlock()
				}
			}()
			<-start
			f()
		}()
	}
	close(start)
	wg.Wait()
	if bad != nil {
		panic(bad)
	}
}

// SameMem reports whether two slices start at the same storage.
func SameMem(a, b []byte) bool {
	return cap(a) > 0 && cap(b) > 0 && unsafe.SliceData(a) == unsafe.SliceData(b)
}

// Overlap reports whether two slices share any byte of storage.
func Overlap(a, b []byte) bool {
	if len(a) == 0 || len(b) == 0 {
		return false
	}
	pa, pb := uintptr(unsafe.Pointer(&a[0])), uintptr(unsafe.Pointer(&b[0]))
	return pa < pb+uintptr(len(b)) && pb < pa+uintptr(len(a))
}

// Repeat runs f once symbolically, n times natively (for code whose
// nondeterminism the native replay cannot control).
func Repeat(n int, f func()) {
	for i := 0; i < n; i++ {
		f()
	}
}

// Merge switches if-conversion on or off.
func Merge(on bool) {}

// Symbolic is true under the engine only.
func Symbolic() bool { return false }

// Thorough selects the deeper bounds.
func Thorough() bool { return Deep }

// Steps sets the instruction budget of the path.
func Steps(n int) {}

// Pool says what sync.Pool.Get returns from here on: 0 any object put back or a new one, 1 the object put back last, 2 the one put back
// first, 3 always a new one.
func Pool(n int) {}

// TempDir is an empty directory for the files of this run.
func TempDir() string {
	if tempDir == "" {
		d, err := os.MkdirTemp("", "avreplay")
		if err != nil {
			panic(err)
		}
		tempDir = d
	}
	return tempDir
}

// Files is the number of files in TempDir.
func Files() int {
	l, _ := os.ReadDir(TempDir())
	return len(l)
}

// Cleanup removes the files of this run.
func Cleanup() {
	if tempDir != "" {
		os.RemoveAll(tempDir)
		tempDir = ""
		if runs++; runs%50 == 0 {
			runtime.GC() // the code under test leaves files open
		}
	}
}

var tempDir string
var runs int
