// Package vnd is the harness interface: arbitrary inputs, assumptions and assertions. The
// symbolic executor intercepts every function here; this file is the native implementation,
// which replays one concrete input chosen by the solver.
package vnd

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"runtime"
	"time"
)

type caseRec struct {
	Harness string            `json:"harness"`
	Kind    string            `json:"kind"`
	Msg     string            `json:"msg"`
	Vars    map[string]uint64 `json:"vars"`
	Bytes   map[string]string `json:"bytes"`
	Sched   []schedRec        `json:"sched"`
}

type schedRec struct {
	G int  `json:"g"`
	P int  `json:"p"`
	B bool `json:"b"`
}

var (
	cur      caseRec
	seq      map[string]int
	allocOn  bool
	allocMax int
	alloc0   uint64
	thorough bool
)

func fresh(name string) string {
	k := seq[name]
	seq[name] = k + 1
	if k == 0 {
		return name
	}
	return fmt.Sprintf("%s#%d", name, k)
}

func num(name string) uint64 { return cur.Vars[fresh(name)] }

func U8(name string) uint8      { return uint8(num(name)) }
func U16(name string) uint16    { return uint16(num(name)) }
func U32(name string) uint32    { return uint32(num(name)) }
func U64(name string) uint64    { return num(name) }
func I8(name string) int8       { return int8(num(name)) }
func I16(name string) int16     { return int16(num(name)) }
func I32(name string) int32     { return int32(num(name)) }
func I64(name string) int64     { return int64(num(name)) }
func Int(name string) int       { return int(num(name)) }
func F32(name string) float32   { return math.Float32frombits(uint32(num(name))) }
func F64(name string) float64   { return math.Float64frombits(num(name)) }
func Bool(name string) bool     { return num(name) != 0 }
func Concrete(v int) int        { return v }
func WildPtr(v uintptr) uintptr { return v }

// Range returns an arbitrary integer with lo <= v <= hi.
func Range(name string, lo, hi int) int {
	v, ok := cur.Vars[fresh(name)]
	if !ok {
		return lo
	}
	return int(v)
}

// Choice returns an arbitrary integer with 0 <= v < n; every value is explored on its own path.
func Choice(name string, n int) int { return int(num(name)) }

func data(name string) []byte {
	name = fresh(name)
	n := cur.Vars[name+".len"]
	b, err := hex.DecodeString(cur.Bytes[name])
	if err != nil {
		panic(err)
	}
	for uint64(len(b)) < n {
		b = append(b, 0)
	}
	r := make([]byte, n)
	copy(r, b)
	return r
}

// Bytes returns an arbitrary byte slice with at most max bytes.
func Bytes(name string, max int) []byte { return data(name) }

// BytesN returns n arbitrary bytes.
func BytesN(name string, n int) []byte {
	b := data(name)
	for len(b) < n {
		b = append(b, 0)
	}
	return b[:n:n]
}

// String returns an arbitrary string with at most max bytes.
func String(name string, max int) string { return string(data(name)) }

func fail(code int, format string, a ...interface{}) {
	fmt.Printf("VND-%d %s: %s\n", code, cur.Harness, fmt.Sprintf(format, a...))
	os.Exit(code)
}

// Assume restricts the inputs considered.
func Assume(c bool) {
	if !c {
		fail(11, "assumption not met")
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		fail(10, "assertion failed: %s", msg)
	}
}

// EqBytes asserts that two byte slices are equal.
func EqBytes(a, b []byte, msg string) {
	if string(a) != string(b) {
		fail(10, "assertion failed: %s: %x != %x", msg, clip(a), clip(b))
	}
}

// EqStr asserts that two strings are equal.
func EqStr(a, b string, msg string) { EqBytes([]byte(a), []byte(b), msg) }

func clip(b []byte) []byte {
	if len(b) > 64 {
		return b[:64]
	}
	return b
}

// Reach marks a program point that must be reached for the harness to mean anything.
func Reach(label string) {}

// AllocLimit bounds the bytes requested from the allocator from here on.
func AllocLimit(n int) {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	allocOn, allocMax, alloc0 = true, n, ms.TotalAlloc
}

func checkAlloc() {
	if !allocOn {
		return
	}
	allocOn = false
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	if d := ms.TotalAlloc - alloc0; d > uint64(allocMax)*9/10 {
		fail(10, "allocated %d bytes, limit %d", d, allocMax)
	}
}

// AllocOff ends the region bounded by AllocLimit.
func AllocOff() { checkAlloc() }

// Collect runs the garbage collector.
func Collect() { runtime.GC(); runtime.GC() }

// StackLimit bounds the nesting of calls (natively the stack is what it is).
func StackLimit(n int) {}

// Symbolic reports whether the harness runs in the symbolic executor.
func Symbolic() bool { return false }

// Thorough reports whether the thorough tier is running.
func Thorough() bool { return thorough }

var filesDir string

// File creates a file and returns its path.
func File(name string, content []byte) string {
	if filesDir == "" {
		filesDir, _ = os.MkdirTemp("", "vnd-files")
	}
	p := filesDir + "/" + name
	if err := os.WriteFile(p, content, 0o600); err != nil {
		fmt.Println(err)
		os.Exit(9)
	}
	return p
}

// SameMem reports whether two slices share their backing array.
func SameMem(a, b []byte) bool {
	return cap(a) > 0 && cap(b) > 0 && &a[:cap(a)][cap(a)-1] == &b[:cap(b)][cap(b)-1]
}

// Main runs the cases of the file named by VND_REPLAY.
func Main(hs map[string]func()) {
	thorough = os.Getenv("VERIF_TIER") == "thorough" || os.Getenv("VND_TIER") == "thorough"
	b, err := os.ReadFile(os.Getenv("VND_REPLAY"))
	if err != nil {
		fmt.Println(err)
		os.Exit(9)
	}
	var cs []caseRec
	if err := json.Unmarshal(b, &cs); err != nil {
		var c caseRec
		if err := json.Unmarshal(b, &c); err != nil {
			fmt.Println(err)
			os.Exit(9)
		}
		cs = []caseRec{c}
	}
	for i, c := range cs {
		h := hs[c.Harness]
		if h == nil {
			fmt.Println("unknown harness", c.Harness)
			os.Exit(9)
		}
		cur = c
		seq = map[string]int{}
		allocOn = false
		fmt.Printf("case %d %s\n", i, c.Harness)
		startSched()
		h()
		checkAlloc()
		stopSched()
	}
	time.Sleep(0)
}
