// Package hids holds the harnesses for stream ids (C04).
package hids

import (
	"github.com/nanobus/iota/go/internal/socket"
	"github.com/nanobus/iota/go/internal/vnd"
)

const pass = 1 << 30 // allocations in one pass over the ids of one parity

// next allocates from an allocator that has made s allocations and returns the id, the first-pass
// mark and the allocator's new position.
func next(client bool, s uint64) (uint32, bool, uint64) {
	if client {
		a := socket.ClientStreamIDs(s)
		id, first := a.Next()
		return id, first, uint64(a)
	}
	a := socket.ServerStreamIDs(s)
	id, first := a.Next()
	return id, first, uint64(a)
}

func check(client bool) {
	s1, s2 := vnd.U64("s1"), vnd.U64("s2")
	vnd.Assume(s1 < 1<<62 && s2 < 1<<62)
	id1, first, c1 := next(client, s1)
	vnd.Assert(id1 != 0, "an id is not zero")
	vnd.Assert(id1>>31 == 0, "an id has 31 bits")
	if client {
		vnd.Assert(id1&1 == 1, "client ids are odd")
		vnd.Assert(first == (s1 < pass), "the mark is set exactly during the first pass")
	} else {
		vnd.Assert(id1&1 == 0, "server ids are even")
		vnd.Assert(first == (s1 < pass-1), "the mark is set exactly during the first pass")
	}
	vnd.Assert(c1 > s1 && c1 <= s1+2, "the allocator moves on")
	// Two allocations of the same pass.
	id2, _, c2 := next(client, s2)
	if c1 != c2 && (c1-1)/pass == (c2-1)/pass {
		vnd.Assert(id1 != id2, "two allocations within one pass have different ids")
		vnd.Reach("same pass")
	}
	if id1 == id2 && c1 != c2 {
		vnd.Reach("reused in a later pass")
	}
}

//verif:harness C04
func H_C04_client() { check(true) }

//verif:harness C04
func H_C04_server() { check(false) }

// A fresh allocator begins the first pass.
//
//verif:harness C04
func H_C04_fresh() {
	var c socket.ClientStreamIDs
	var s socket.ServerStreamIDs
	var a socket.StreamID = &c
	if vnd.Bool("server") {
		a = &s
	}
	id1, f1 := a.Next()
	id2, f2 := a.Next()
	id3, f3 := a.Next()
	vnd.Assert(f1 && f2 && f3, "the first allocations are in the first pass")
	vnd.Assert(id1 != id2 && id2 != id3 && id1 != id3, "the first allocations differ")
	vnd.Assert(id1&1 == id2&1 && id2&1 == id3&1, "the first allocations have one parity")
	vnd.Reach("end")
}

type res struct {
	id    uint32
	first bool
}

// Three concurrent allocations, at any point of the allocator's life.
//
//verif:harness C04 switches=3 raceviol instr=internal/socket,internal/verifh/hids
func H_C04_concurrent() {
	s := vnd.U64("s")
	vnd.Assume(s < 1<<62)
	c := socket.ClientStreamIDs(s)
	sv := socket.ServerStreamIDs(s)
	client := vnd.Bool("client")
	var a socket.StreamID = &sv
	if client {
		a = &c
	}
	ch := make(chan res, 2)
	for i := 0; i < 2; i++ {
		go func() {
			id, f := a.Next()
			ch <- res{id, f}
		}()
	}
	id, f := a.Next()
	x, y := <-ch, <-ch
	rs := [3]res{{id, f}, x, y}
	for i := range rs {
		want := uint32(0)
		if client {
			want = 1
		}
		vnd.Assert(rs[i].id != 0 && rs[i].id>>31 == 0 && rs[i].id&1 == want, "a concurrent allocation gives a proper id")
		for j := 0; j < i; j++ {
			vnd.Assert(rs[i].id != rs[j].id, "two concurrent allocations have different ids")
		}
	}
	if s+4 < pass {
		vnd.Assert(rs[0].first && rs[1].first && rs[2].first, "all of them are in the first pass")
	}
	if s >= pass {
		vnd.Assert(!rs[0].first && !rs[1].first && !rs[2].first, "none of them is in the first pass")
	}
	vnd.Reach("end")
}
