package hhandler

import (
	"context"
	"sync"

	"github.com/nanobus/iota/go/internal/vnd"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/mono"
)

// call is one request/response call with what came of it.
type call struct {
	data, md []byte
	kind     int
	m        mono.Mono[payload.Payload]

	outs, fins int
	got        payload.Payload
	err        error
	sig        rx.SignalType
}

const (
	callNow   = iota // the handler answers at once
	callLater        // the handler answers when told
	callFails        // the handler fails at once
	callFailsLater
	callMissing // nothing is exported
	callKinds
)

func (c *call) subscribe() {
	c.m.Subscribe(mono.Subscribe[payload.Payload]{
		OnSuccess: func(p payload.Payload) { c.outs++; c.got = p },
		OnError:   func(err error) { c.outs++; c.err = err },
		Finally:   func(s rx.SignalType) { c.fins++; c.sig = s },
	})
}

func (c *call) check(key byte) {
	vnd.Assert(c.outs == 1 && c.fins == 1, "each caller receives exactly one outcome")
	switch c.kind {
	case callMissing:
		vnd.Assert(c.err != nil && c.err.Error() == "not_found" && c.sig == rx.SignalError, "a call of what nobody exports is not found")
	case callFails, callFailsLater:
		vnd.Assert(c.err != nil && c.err.Error() == errHandler.Error() && c.sig == rx.SignalError, "the caller receives the handler's error")
	default:
		vnd.Assert(c.err == nil && c.sig == rx.SignalComplete && c.got != nil, "the caller receives a value")
		d, md := c.got.Data(), c.got.Metadata()
		vnd.Assert(len(d) == len(c.data) && len(md) == len(c.md), "the value is that for the caller's own payload")
		for i := range d {
			vnd.Assert(d[i] == c.data[i]^key, "the value is that for the caller's own payload")
		}
		for i := range md {
			vnd.Assert(md[i] == c.md[i], "the metadata is that for the caller's own payload")
		}
	}
}

// service answers with the request's data, each byte changed by the key.
type service struct {
	key  byte
	kind int
	mu   sync.Mutex
	held []func()
	ran  int
}

func (s *service) handle(_ context.Context, p payload.Payload) mono.Mono[payload.Payload] {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.ran++
	d := make([]byte, len(p.Data()))
	for i, x := range p.Data() {
		d[i] = x ^ s.key
	}
	r := payload.New(d, append([]byte(nil), p.Metadata()...))
	switch s.kind {
	case callNow:
		return mono.Just[payload.Payload](r)
	case callFails:
		return mono.Error[payload.Payload](errHandler)
	}
	return mono.Create(func(sink mono.Sink[payload.Payload]) {
		s.mu.Lock()
		defer s.mu.Unlock()
		s.held = append(s.held, func() {
			if s.kind == callFailsLater {
				sink.Error(errHandler)
			} else {
				sink.Success(r)
			}
		})
	})
}

// release lets one of the answers that are held go.
func (s *service) release(k int) {
	s.mu.Lock()
	fn := s.held[k]
	s.held = append(s.held[:k:k], s.held[k+1:]...)
	s.mu.Unlock()
	fn()
}

func (s *service) waiting() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.held)
}

// Calls of every kind in both directions, delivered and answered in every order.
//
//verif:harness C30 budget=40 t.budget=500
func H_C30_calls() {
	l := newLink()
	key := vnd.U8("key")
	var svc [callKinds]*service
	var ops [callKinds]uint32
	for k := range svc {
		svc[k] = &service{key: key, kind: k}
		ops[k] = exportRR(svc[k].handle)
	}
	ops[callMissing] = none
	n := 2
	if vnd.Thorough() {
		n = 3
	}
	var calls []*call
	for i := 0; i < n; i++ {
		c := &call{kind: vnd.Choice("kind", callKinds), data: vnd.BytesN("data", 2), md: vnd.BytesN("md", vnd.Choice("metadata length", 2))}
		c.m = l.h[vnd.Choice("caller", 2)].RequestResponse(context.Background(), request(ops[c.kind], c.data, c.md))
		calls = append(calls, c)
	}
	if vnd.Thorough() && vnd.Bool("second first") {
		calls[0], calls[1] = calls[1], calls[0]
	}
	for _, c := range calls {
		c.subscribe()
		l.some(1)
	}
	l.drain()
	for _, k := range []int{callLater, callFailsLater} {
		for svc[k].waiting() > 0 {
			svc[k].release(vnd.Choice("answer", svc[k].waiting()))
			l.some(1)
		}
	}
	l.drain()
	ran := 0
	for _, c := range calls {
		c.check(key)
		if c.kind != callMissing {
			ran++
		}
	}
	for k := range svc {
		ran -= svc[k].ran
	}
	vnd.Assert(ran == 0, "each call runs its handler once")
	vnd.Reach("end")
}

// Calls with payloads of every small shape.
//
//verif:harness C30 budget=40 t.budget=300
func H_C30_shapes() {
	l := newLink()
	svc := &service{key: vnd.U8("key"), kind: vnd.Choice("kind", callMissing)}
	op := exportRR(svc.handle)
	c := &call{kind: svc.kind, data: vnd.BytesN("data", vnd.Choice("data length", 4)), md: vnd.BytesN("md", vnd.Choice("metadata length", 3))}
	c.m = l.h[vnd.Choice("caller", 2)].RequestResponse(context.Background(), request(op, c.data, c.md))
	c.subscribe()
	l.drain()
	for svc.waiting() > 0 {
		svc.release(0)
	}
	l.drain()
	c.check(svc.key)
	vnd.Reach("end")
}

// Fire-and-forget calls reach their handler exactly once, with the payload intact.
//
//verif:harness C30 budget=40 t.budget=300
func H_C30_fireAndForget() {
	l := newLink()
	type seen struct{ data, md []byte }
	var mu sync.Mutex
	var got []seen
	op := exportFNF(func(_ context.Context, p payload.Payload) {
		mu.Lock()
		defer mu.Unlock()
		got = append(got, seen{p.Data(), p.Metadata()})
	})
	var want []seen
	for i := 0; i < 2; i++ {
		w := seen{vnd.BytesN("data", vnd.Choice("data length", 3)), vnd.BytesN("md", vnd.Choice("metadata length", 2))}
		o := op
		if vnd.Bool("missing") {
			o = none
		} else {
			want = append(want, w)
		}
		l.h[vnd.Choice("caller", 2)].FireAndForget(context.Background(), request(o, w.data, w.md))
		l.some(1)
		vnd.Quiesce()
	}
	l.drain()
	vnd.Assert(len(got) == len(want), "each fire-and-forget call reaches its handler once")
	used := make([]bool, len(want))
	for _, g := range got {
		hit := false
		for i, w := range want {
			if !hit && !used[i] && len(w.data) == len(g.data) && len(w.md) == len(g.md) && same(w.data, g.data) && same(w.md, g.md) {
				hit, used[i] = true, true
			}
		}
		vnd.Assert(hit, "a fire-and-forget handler gets the payload intact")
	}
	vnd.Reach("end")
}

func same(a, b []byte) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// The calls run concurrently, and a reader per peer delivers frames as they come.
//
//verif:harness C30 switches=3 t.switches=4 raceviol instr=handler,proxy,internal/verifh/hhandler budget=60 t.budget=500
func H_C30_concurrent() {
	l := newLink()
	svc := &service{key: vnd.U8("key"), kind: callNow}
	op := exportRR(svc.handle)
	done := make(chan *call, 2)
	for k := 0; k < 2; k++ {
		c := &call{kind: callNow, data: vnd.BytesN("data", 1)}
		go func() {
			c.m = l.h[0].RequestResponse(context.Background(), request(op, c.data, nil))
			c.subscribe()
			done <- c
		}()
	}
	a := <-done
	l.deliver(1)
	b := <-done
	l.drain()
	a.check(svc.key)
	b.check(svc.key)
	vnd.Reach("end")
}
