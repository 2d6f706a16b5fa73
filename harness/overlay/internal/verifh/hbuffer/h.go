// Package hbuffer holds the harnesses for the unbounded buffer (C08).
package hbuffer

import (
	"github.com/nanobus/iota/go/internal/buffer"
	"github.com/nanobus/iota/go/internal/vnd"
)

// read drains the buffer the way Transport does and returns what it saw up to end-of-stream.
func read(b *buffer.Unbounded[int], out chan<- []int) {
	var got []int
	for v := range b.Get() {
		got = append(got, v)
		b.Load()
	}
	out <- got
}

// Any sequence of put, read, load and dispose from one goroutine, against a queue.
//
//verif:harness C08 t.budget=300
func H_C08_sequence() {
	b := buffer.NewUnbounded[int]()
	var put, got []int
	disposed, closed := false, false
	reads := 0
	n := 6
	if vnd.Thorough() {
		n = 8
	}
	for i := 0; i < n; i++ {
		switch vnd.Choice("op", 4) {
		case 0:
			v := vnd.Int("v")
			ok := b.Put(v)
			vnd.Assert(ok == !disposed, "a value is accepted exactly before disposal")
			if ok {
				put = append(put, v)
			}
		case 1:
			b.Load()
		case 2:
			b.Dispose()
			disposed = true
		case 3:
			// read and load
			select {
			case v, ok := <-b.Get():
				if ok {
					vnd.Assert(!closed, "nothing after end-of-stream")
					got = append(got, v)
					reads++
					b.Load()
				} else {
					vnd.Assert(disposed && len(got) == len(put), "end-of-stream only when disposed and drained")
					closed = true
				}
			default:
				vnd.Assert(len(got) == len(put) && !disposed, "a value that was put is there for a reader who loads after each read")
			}
		}
	}
	if !disposed {
		b.Dispose()
	}
	ch := make(chan []int, 1)
	go read(b, ch)
	got = append(got, <-ch...)
	vnd.Assert(len(got) == len(put), "every value put before disposal is delivered exactly once")
	for i := range got {
		if i < len(put) {
			vnd.Assert(got[i] == put[i], "values are delivered in order")
		}
	}
	vnd.Assert(!b.Put(0), "nothing is accepted after disposal")
	b.Load()
	vnd.Reach("end")
}

// Two putters, a reader and a disposer.
//
//verif:harness C08 switches=3 t.switches=4 raceviol instr=internal/buffer,internal/verifh/hbuffer budget=60 t.budget=500
func H_C08_concurrent() {
	b := buffer.NewUnbounded[int]()
	out := make(chan []int, 1)
	acc := make(chan []int, 2)
	go read(b, out)
	for p := 0; p < 2; p++ {
		p := p
		go func() {
			var mine []int
			for i := 0; i < 2; i++ {
				v := 10*p + i
				if b.Put(v) {
					mine = append(mine, v)
				}
			}
			acc <- mine
		}()
	}
	early := vnd.Bool("early")
	var a1, a2 []int
	if early {
		b.Dispose()
		vnd.Assert(!b.Put(99), "nothing is accepted after disposal")
		a1, a2 = <-acc, <-acc
	} else {
		a1, a2 = <-acc, <-acc
		vnd.Assert(len(a1) == 2 && len(a2) == 2, "values put before disposal are accepted")
		b.Dispose()
	}
	got := <-out
	vnd.Assert(len(got) == len(a1)+len(a2), "every accepted value is delivered exactly once before end-of-stream")
	// each putter's values appear in its order
	i1, i2 := 0, 0
	for _, v := range got {
		if i1 < len(a1) && v == a1[i1] {
			i1++
		} else if i2 < len(a2) && v == a2[i2] {
			i2++
		} else {
			vnd.Assert(false, "a delivered value is the next one of some putter")
		}
	}
	vnd.Reach("end")
}

// One putter with a reader: arrival order is put order, also when a burst builds up a backlog.
//
//verif:harness C08 switches=5 t.switches=7 raceviol instr=internal/buffer,internal/verifh/hbuffer budget=60 t.budget=500
func H_C08_order() {
	b := buffer.NewUnbounded[int]()
	out := make(chan []int, 1)
	go read(b, out)
	n := 4
	for i := 0; i < n; i++ {
		vnd.Assert(b.Put(i), "accepted")
	}
	b.Dispose()
	got := <-out
	vnd.Assert(len(got) == n, "every accepted value is delivered exactly once before end-of-stream")
	for i := range got {
		vnd.Assert(got[i] == i, "values arrive in the order they were put")
	}
	vnd.Reach("end")
}
