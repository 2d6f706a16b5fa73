package hhandler

import (
	"context"
	"sync"

	"github.com/nanobus/iota/go/internal/vnd"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
)

const (
	prodDemand = iota // emits as much as is asked for
	prodHeld          // emits when told, whatever is asked for
	prodEager         // emits everything when it is subscribed to
	prodFailed        // has failed from the start
	prodSlice         // is made from a slice
	prodKinds
)

type item struct{ data, md []byte }

// producer is one end's source of items, with its script.
type producer struct {
	kind  int
	items []item
	fails bool // it ends with an error

	mu        sync.Mutex
	sink      flux.Sink[payload.Payload]
	subs      int
	at        int
	allowed   int
	ended     bool
	demand    []int
	cancelled int
}

func newProducer(kind, n int) *producer { return producerOf(kind, n, false) }

// producerOf makes a producer, whose first item has one of several shapes if it is varied.
func producerOf(kind, n int, varied bool) *producer {
	p := &producer{kind: kind}
	if kind == prodFailed {
		p.fails = true
		return p
	}
	for i := 0; i < n; i++ {
		it := item{data: vnd.BytesN("item", 1)}
		if i == 0 {
			shape := 0
			if varied {
				shape = vnd.Choice("item shape", 3)
			}
			switch shape {
			case 0:
				it.md = vnd.BytesN("item metadata", 1)
			case 1:
				it.data, it.md = nil, vnd.BytesN("item metadata", 2)
			case 2:
				it.data = nil
			}
		}
		p.items = append(p.items, it)
	}
	if kind != prodSlice {
		p.fails = vnd.Bool("stream fails")
	}
	return p
}

func (p *producer) flux() flux.Flux[payload.Payload] {
	switch p.kind {
	case prodFailed:
		return flux.Error[payload.Payload](errHandler)
	case prodSlice:
		var l []payload.Payload
		for _, it := range p.items {
			l = append(l, payload.New(it.data, it.md))
		}
		return flux.FromSlice(l)
	}
	return flux.Create(func(sink flux.Sink[payload.Payload]) {
		p.mu.Lock()
		p.sink = sink
		p.subs++
		p.mu.Unlock()
		sink.OnSubscribe(flux.OnSubscribe{
			Request: func(n int) {
				p.mu.Lock()
				p.demand = append(p.demand, n)
				p.allowed += n
				p.mu.Unlock()
				if p.kind == prodDemand {
					p.run()
				}
			},
			Cancel: func() {
				p.mu.Lock()
				p.cancelled++
				p.mu.Unlock()
			},
		})
		if p.kind == prodEager {
			for p.emit(true) {
			}
		}
	})
}

// run emits what has been asked for.
func (p *producer) run() {
	for p.emit(false) {
	}
}

// emit emits the next signal and reports whether it may emit more.
func (p *producer) emit(always bool) bool {
	p.mu.Lock()
	if p.ended || p.cancelled > 0 || p.sink == nil {
		p.mu.Unlock()
		return false
	}
	sink := p.sink
	if p.at == len(p.items) {
		p.ended = true
		p.mu.Unlock()
		if p.fails {
			sink.Error(errHandler)
		} else {
			sink.Complete()
		}
		return false
	}
	if !always && p.allowed <= 0 {
		p.mu.Unlock()
		return false
	}
	p.allowed--
	it := p.items[p.at]
	p.at++
	p.mu.Unlock()
	sink.Next(payload.New(it.data, it.md))
	return true
}

// consumer is the other end, checking what arrives against the producer's script.
type consumer struct {
	p *producer

	mu        sync.Mutex
	seen      int
	ended     int
	finally   int
	cancelled bool
	abandoned bool // the other side has given up the stream
	onItem    func()
}

func (c *consumer) subscribe(noRequest bool) flux.Subscribe[payload.Payload] {
	return flux.Subscribe[payload.Payload]{
		OnNext: func(v payload.Payload) {
			c.mu.Lock()
			vnd.Assert(!c.cancelled, "nothing is delivered after a cancellation")
			vnd.Assert(c.ended == 0 && c.finally == 0, "nothing is delivered after the outcome")
			vnd.Assert(c.seen < len(c.p.items), "only what the producer emitted is delivered")
			it := c.p.items[c.seen]
			vnd.Assert(len(v.Data()) == len(it.data) && same(v.Data(), it.data), "the items arrive in order and unmodified")
			vnd.Assert(len(v.Metadata()) == len(it.md) && same(v.Metadata(), it.md), "the items arrive with their metadata")
			c.seen++
			c.mu.Unlock()
			if c.onItem != nil {
				c.onItem()
			}
		},
		OnComplete: func() {
			c.mu.Lock()
			defer c.mu.Unlock()
			vnd.Assert(!c.cancelled, "nothing is delivered after a cancellation")
			vnd.Assert(c.abandoned || !c.p.fails, "the outcome is the producer's")
			c.ended++
		},
		OnError: func(err error) {
			c.mu.Lock()
			defer c.mu.Unlock()
			vnd.Assert(!c.cancelled, "nothing is delivered after a cancellation")
			vnd.Assert(c.p.fails && err.Error() == errHandler.Error(), "the outcome is the producer's")
			c.ended++
		},
		Finally: func(s rx.SignalType) {
			c.mu.Lock()
			defer c.mu.Unlock()
			want := rx.SignalComplete
			if c.cancelled {
				want = rx.SignalCancel
			} else if c.p.fails {
				want = rx.SignalError
			}
			vnd.Assert(c.abandoned || s == want, "the finally callback gets the matching signal")
			c.finally++
		},
		NoRequest: noRequest,
	}
}

// all checks that everything has arrived.
func (c *consumer) all() {
	vnd.Assert(c.seen == len(c.p.items), "every item is delivered")
	vnd.Assert(c.ended == 1 && c.finally == 1, "the stream ends once")
}

// stream is one remote stream, or one direction of a channel.
type stream struct {
	p *producer
	c *consumer
}

// pending reports whether the producer waits to be told to emit.
func (s *stream) pending() bool {
	return s.p.kind == prodHeld && s.p.sink != nil && !s.p.ended && s.p.cancelled == 0
}

// emitAll tells the producers to emit everything, one signal at a time in any order.
func emitAll(l *link, a, b *stream) {
	for a.pending() || b.pending() {
		s := a
		if !a.pending() || b.pending() && vnd.Bool("emit second") {
			s = b
		}
		s.p.emit(true)
		if vnd.Thorough() {
			l.some(1)
		}
	}
	l.drain()
}

func newStream(kind, n int) *stream {
	p := newProducer(kind, n)
	return &stream{p, &consumer{p: p}}
}

func variedStream(kind, n int) *stream {
	p := producerOf(kind, n, true)
	return &stream{p, &consumer{p: p}}
}

// Two request/stream calls, of any kinds, in any directions, interleaved.
//
//verif:harness C31 budget=40 t.budget=500
func H_C31_streams() {
	l := newLink()
	var ss []*stream
	for i := 0; i < 2; i++ {
		n := 2
		if !vnd.Thorough() {
			n = 2 - i
		}
		ss = append(ss, variedStream(vnd.Choice("kind", prodKinds), n))
	}
	caller := vnd.Choice("caller", 2)
	for i, s := range ss {
		s := s
		if i > 0 {
			caller = vnd.Choice("second caller", 2)
		}
		x := vnd.U8("request")
		op := exportRS(func(_ context.Context, p payload.Payload) flux.Flux[payload.Payload] {
			vnd.Assert(len(p.Data()) == 1 && p.Data()[0] == x, "the handler gets the request's payload")
			return s.p.flux()
		})
		f := l.h[caller].RequestStream(context.Background(), request(op, []byte{x}, nil))
		f.Subscribe(s.c.subscribe(false))
		vnd.Quiesce()
		l.some(1)
	}
	l.drain()
	emitAll(l, ss[0], ss[1])
	for _, s := range ss {
		s.c.all()
	}
	vnd.Reach("end")
}

// A call of a stream or channel that nobody exports ends with an error.
//
//verif:harness C31
func H_C31_missing() {
	l := newLink()
	ended := 0
	sub := flux.Subscribe[payload.Payload]{
		OnNext:     func(payload.Payload) { vnd.Assert(false, "nothing is delivered") },
		OnError:    func(err error) { ended++; vnd.Assert(err.Error() == "not_found", "the error says so") },
		OnComplete: func() { vnd.Assert(false, "a call of what nobody exports does not complete") },
	}
	h := l.h[vnd.Choice("caller", 2)]
	if vnd.Bool("channel") {
		in := newProducer(vnd.Choice("kind", prodKinds), 1)
		h.RequestChannel(context.Background(), request(none, nil, nil), in.flux()).Subscribe(sub)
		l.drain()
		vnd.Assert(in.kind >= prodFailed || in.subs == 0 || in.ended || in.cancelled == 1, "the caller's producer is told to stop")
	} else {
		h.RequestStream(context.Background(), request(none, nil, nil)).Subscribe(sub)
		l.drain()
	}
	vnd.Assert(ended == 1, "the call ends once")
	vnd.Reach("end")
}

// A channel with producers of any kinds on both sides.
//
//verif:harness C31 budget=40 t.budget=500
func H_C31_channel() {
	l := newLink()
	n := 1
	if vnd.Thorough() {
		n = 2
	}
	in := variedStream(vnd.Choice("kind", prodKinds), n)
	out := variedStream(vnd.Choice("kind", prodKinds), n)
	late := vnd.Bool("handler consumes its input late")
	var input flux.Flux[payload.Payload]
	op := exportRC(func(_ context.Context, _ payload.Payload, f flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
		if late {
			input = f
		} else {
			f.Subscribe(in.c.subscribe(false))
		}
		return out.p.flux()
	})
	caller := 0
	if vnd.Thorough() {
		caller = vnd.Choice("caller", 2)
	}
	f := l.h[caller].RequestChannel(context.Background(), request(op, nil, nil), in.p.flux())
	if late {
		// Keep the response going until the input is consumed.
		vnd.Assume(out.p.kind == prodHeld)
	}
	f.Subscribe(out.c.subscribe(false))
	vnd.Quiesce()
	l.some(1)
	l.drain()
	if late {
		input.Subscribe(in.c.subscribe(false))
		l.drain()
	}
	emitAll(l, in, out)
	out.c.all()
	if !out.p.fails {
		in.c.all()
	}
	vnd.Reach("end")
}

// mix changes each byte by the key.
func mix(data []byte, key byte) []byte {
	out := []byte{}
	for _, x := range data {
		out = append(out, x^key)
	}
	return out
}

// A channel whose handler answers each item with a changed one.
//
//verif:harness C31 budget=40 t.budget=500
func H_C31_echo() {
	l := newLink()
	key := vnd.U8("key")
	in := producerOf(vnd.Choice("kind", prodKinds), 2, true)
	op := exportRC(func(_ context.Context, _ payload.Payload, f flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
		return flux.Map(f, func(p payload.Payload) (payload.Payload, error) {
			return payload.New(mix(p.Data(), key), p.Metadata()), nil
		})
	})
	want := &producer{fails: in.fails}
	for _, it := range in.items {
		want.items = append(want.items, item{mix(it.data, key), it.md})
	}
	c := &consumer{p: want}
	l.h[vnd.Choice("caller", 2)].RequestChannel(context.Background(), request(op, nil, nil), in.flux()).Subscribe(c.subscribe(false))
	vnd.Quiesce()
	l.some(3)
	l.drain()
	for in.kind == prodHeld && in.emit(true) {
		l.some(1)
	}
	l.drain()
	c.all()
	vnd.Reach("end")
}
