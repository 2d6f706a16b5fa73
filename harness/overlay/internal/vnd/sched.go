package vnd

import (
	"bytes"
	"runtime"
	"time"
)

// The native scheduler makes the goroutines pass the instrumented points in the recorded order.
// It uses plain memory and sleeping only, in functions the race detector ignores, so that it adds
// no happens-before edges of its own.

const maxG = 256

var (
	trace    []schedRec
	on       bool
	at       int       // next record
	atTime   time.Time // when it became next
	ids      [maxG]int64
	parked   [maxG]bool
	nids     int
	claimed  int // goroutine numbers given out to new goroutines
	base     int64
	gaveUp   bool
	finished bool
)

//go:norace
func goid() int64 {
	var buf [64]byte
	n := runtime.Stack(buf[:], false)
	var id int64
	for i := 10; i < n && buf[i] >= '0' && buf[i] <= '9'; i++ {
		id = id*10 + int64(buf[i]-'0')
	}
	return id
}

//go:norace
func startSched() {
	on = false
	time.Sleep(time.Millisecond)
	trace = cur.Sched
	at, nids, claimed, gaveUp, finished = 0, 1, 1, false, false
	atTime = time.Now()
	for i := range ids {
		ids[i], parked[i] = 0, false
	}
	ids[0] = goid()
	on = len(trace) > 0
}

//go:norace
func stopSched() { on = false }

//go:norace
func self() int {
	id := goid()
	for i := 0; i < claimed; i++ {
		if ids[i] == id {
			return i
		}
	}
	if claimed < nids {
		i := claimed
		ids[i] = id
		claimed++
		return i
	}
	return -1
}

// Fork announces that the calling goroutine is about to start another one.
//
//go:norace
func Fork() int {
	if !on || gaveUp {
		return 0
	}
	for i := 0; i < 200 && claimed < nids; i++ {
		time.Sleep(100 * time.Microsecond)
	}
	if nids < maxG {
		nids++
	}
	return nids - 1
}

//go:norace
func mine(g, id int) bool {
	if at >= len(trace) {
		return false
	}
	r := trace[at]
	if r.G != g || r.P != id {
		return false
	}
	if at == 0 || trace[at-1].G == g {
		return true
	}
	p := trace[at-1]
	if parked[p.G] {
		return true
	}
	return p.B && time.Since(atTime) > 2*time.Millisecond
}

// Point is called before every instrumented statement.
//
//go:norace
func Point(id int) {
	if !on || gaveUp {
		return
	}
	g := self()
	if g < 0 {
		return
	}
	parked[g] = true
	for n := 0; ; n++ {
		if !on || gaveUp {
			return
		}
		if mine(g, id) {
			break
		}
		d := time.Since(atTime)
		if at >= len(trace) && d > 60*time.Millisecond || d > 2*time.Second {
			gaveUp = true
			return
		}
		if n < 50 {
			runtime.Gosched()
		} else {
			time.Sleep(50 * time.Microsecond)
		}
	}
	parked[g] = false
	atTime = time.Now()
	at++
}

// Quiesce lets every other goroutine run until none can continue.
//
//go:norace
func Quiesce() {
	if on && !gaveUp {
		for at < len(trace) && trace[at].G != 0 && !gaveUp && time.Since(atTime) < 2*time.Second {
			time.Sleep(100 * time.Microsecond)
		}
		time.Sleep(5 * time.Millisecond)
		return
	}
	quiet := 0
	for start := time.Now(); quiet < 3 && time.Since(start) < 2*time.Second; {
		runtime.Gosched()
		if busy() {
			quiet = 0
			time.Sleep(50 * time.Microsecond)
		} else {
			quiet++
		}
	}
}

var stacks = make([]byte, 1<<20)

// busy reports whether a goroutine other than the caller can run.
func busy() bool {
	s := stacks[:runtime.Stack(stacks, true)]
	first := true
	for len(s) > 0 {
		line := s
		if i := bytes.IndexByte(s, '\n'); i >= 0 {
			line, s = s[:i], s[i+1:]
		} else {
			s = nil
		}
		if !bytes.HasPrefix(line, []byte("goroutine ")) || !bytes.HasSuffix(line, []byte("]:")) {
			continue
		}
		if first {
			first = false
			continue
		}
		st := line[bytes.IndexByte(line, '[')+1:]
		if bytes.HasPrefix(st, []byte("run")) || bytes.HasPrefix(st, []byte("syscall")) || bytes.HasPrefix(st, []byte("preempt")) {
			return true
		}
	}
	return false
}

// Blocked is the number of other goroutines waiting for something.
func Blocked() int { return 0 }

func Enter()           {}
func Forked(token int) {}
