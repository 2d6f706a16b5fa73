// Package hproxy checks the stream table and the proxies of remote publishers.
package hproxy

import (
	"context"

	"github.com/nanobus/iota/go/internal/vnd"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/proxy"
)

type stub struct{ id uint32 }

func (s *stub) Context() context.Context { return nil }
func (s *stub) StreamID() uint32         { return s.id }
func (s *stub) OnNext(payload.Payload)   {}
func (s *stub) OnComplete()              {}
func (s *stub) OnError(error)            {}

// table is the reference: what is registered.
type table struct {
	l    proxy.Lookup
	all  []*stub
	live []bool
}

func (t *table) agree(id uint32) {
	got, ok := t.l.Get(id)
	for k, s := range t.all {
		if s.id == id {
			vnd.Assert(ok == t.live[k], "a stream is found exactly when it is registered")
			vnd.Assert(!ok || got == proxy.Stream(s), "the stream found is the one registered")
			return
		}
	}
	vnd.Assert(!ok && got == nil, "a stream that was never registered is not found")
}

// Every sequence of registrations, look-ups and removals.
//
//verif:harness C34 budget=40 t.budget=400
func H_C34_lookup() {
	n, ops := 3, 4
	if vnd.Thorough() {
		n, ops = 4, 7
	}
	t := &table{}
	for i := 0; i < n; i++ {
		s := &stub{vnd.U32("id")}
		for _, o := range t.all {
			vnd.Assume(o.id != s.id)
		}
		t.all, t.live = append(t.all, s), append(t.live, false)
	}
	other := vnd.U32("other")
	for i := 0; i < ops; i++ {
		k := vnd.Choice("which", n)
		if t.live[k] {
			t.l.Remove(t.all[k].id)
			t.live[k] = false
		} else if vnd.Bool("remove one that is not there") {
			t.l.Remove(t.all[k].id)
		} else {
			t.l.Add(t.all[k])
			t.live[k] = true
		}
		for _, s := range t.all {
			t.agree(s.id)
		}
	}
	t.agree(other)
	vnd.Reach("end")
}

// Concurrent users of the table: each finds its own streams from the moment it registered them until
// it removes them, and a stream nobody removes stays.
//
//verif:harness C34 switches=3 t.switches=4 raceviol instr=proxy,internal/verifh/hproxy budget=60 t.budget=500
func H_C34_lookupConcurrent() {
	var l proxy.Lookup
	shared := &stub{7}
	early := vnd.Bool("shared first")
	if early {
		l.Add(shared)
	}
	use := func(s *stub) {
		l.Add(s)
		got, ok := l.Get(s.id)
		vnd.Assert(ok && got == proxy.Stream(s), "a registered stream is found while other calls run")
		l.Remove(s.id)
		_, ok = l.Get(s.id)
		vnd.Assert(!ok, "a removed stream is not found while other calls run")
	}
	done := make(chan bool, 1)
	go func() { use(&stub{1}); done <- true }()
	use(&stub{3})
	if !early {
		l.Add(shared)
	}
	<-done
	got, ok := l.Get(7)
	vnd.Assert(ok && got == proxy.Stream(shared), "a stream nobody removes stays")
	for _, id := range []uint32{1, 3} {
		_, ok = l.Get(id)
		vnd.Assert(!ok, "a removed stream stays away")
	}
	l.Add(&stub{1})
	_, ok = l.Get(1)
	vnd.Assert(ok, "the table is usable afterwards")
	vnd.Reach("end")
}

// Two concurrent users keep streams.
//
//verif:harness C34 switches=3 t.switches=4 raceviol instr=proxy,internal/verifh/hproxy budget=60 t.budget=500
func H_C34_lookupGrow() {
	var l proxy.Lookup
	l.Add(&stub{9})
	done := make(chan bool, 1)
	go func() {
		l.Add(&stub{1})
		l.Remove(9)
		l.Add(&stub{5})
		done <- true
	}()
	l.Add(&stub{3})
	_, ok := l.Get(3)
	vnd.Assert(ok, "a registered stream is found while other calls run")
	<-done
	for _, id := range []uint32{1, 3, 5} {
		s, ok := l.Get(id)
		vnd.Assert(ok && s.StreamID() == id, "a stream nobody removes stays")
	}
	_, ok = l.Get(9)
	vnd.Assert(!ok, "a removed stream stays away")
	vnd.Reach("end")
}
