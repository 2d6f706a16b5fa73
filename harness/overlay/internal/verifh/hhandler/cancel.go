package hhandler

import (
	"context"

	"github.com/nanobus/iota/go/internal/vnd"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
)

// cancel cancels the consumer's subscription, if the stream has not ended, and notes that.
func (c *consumer) cancel(f flux.Flux[payload.Payload]) {
	c.mu.Lock()
	if c.ended == 0 {
		c.cancelled = true
	}
	c.mu.Unlock()
	f.Subscription().Cancel()
}

// settled checks what a consumer that may have cancelled saw.
func (c *consumer) settled() {
	vnd.Assert(c.finally == 1, "the finally callback fires once")
	if c.cancelled {
		vnd.Assert(c.ended == 0, "a cancelled stream has no other outcome")
	} else {
		c.all()
	}
}

// stopped checks that the producer of a cancelled stream has been told to stop.
func (p *producer) stopped() {
	vnd.Assert(p.subs == 0 || p.ended || p.cancelled > 0 || p.kind == prodFailed || p.kind == prodSlice, "the producer is told to stop")
	vnd.Assert(p.cancelled <= 1, "the producer is told to stop once")
}

// Cancelling one of two streams, at any point.
//
//verif:harness C33 budget=40 t.budget=500
func H_C33_stream() {
	l := newLink()
	a := newStream(vnd.Choice("kind", prodKinds), 2)
	b := newStream(prodHeld, 1)
	var f [2]flux.Flux[payload.Payload]
	caller := vnd.Choice("caller", 2)
	for i, s := range []*stream{a, b} {
		s := s
		op := exportRS(func(context.Context, payload.Payload) flux.Flux[payload.Payload] { return s.p.flux() })
		if i == 1 {
			caller = 1 - caller
			if vnd.Thorough() {
				caller = vnd.Choice("caller of the other", 2)
			}
		}
		f[i] = l.h[caller].RequestStream(context.Background(), request(op, nil, nil))
	}
	when := vnd.Choice("cancel at", 5)
	if when == 4 { // inside the first item
		a.c.onItem = func() { a.c.cancel(f[0]); a.c.onItem = nil }
	}
	f[1].Subscribe(b.c.subscribe(false))
	f[0].Subscribe(a.c.subscribe(false))
	if when == 0 {
		a.c.cancel(f[0])
	}
	if !vnd.Thorough() || vnd.Bool("settle") {
		vnd.Quiesce()
	}
	if when == 1 {
		a.c.cancel(f[0])
	}
	l.some(tier(2, 3))
	if when == 2 {
		a.c.cancel(f[0])
	}
	l.some(tier(1, 2))
	a.p.emitHeld()
	b.p.emitHeld()
	l.some(1)
	if when == 3 {
		a.c.cancel(f[0])
	}
	l.drain()
	a.p.emitHeld()
	a.p.emitHeld()
	a.p.emitHeld()
	b.p.emitHeld()
	b.p.emitHeld()
	l.drain()
	a.c.settled()
	a.p.stopped()
	b.c.all()
	a.c.cancel(f[0])
	vnd.Quiesce()
	a.c.settledAgain()
	vnd.Reach("end")
}

// settledAgain checks that a cancellation after the end changes nothing.
func (c *consumer) settledAgain() {
	vnd.Assert(c.finally == 1, "the finally callback fires once")
}

func (p *producer) emitHeld() {
	if p.kind == prodHeld {
		p.emit(true)
	}
}

// Cancelling a channel, by its caller or the input by its handler, at any point.
//
//verif:harness C33 budget=40 t.budget=500
func H_C33_channel() {
	l := newLink()
	kinds := []int{prodDemand, prodHeld}
	in := newStream(kinds[vnd.Choice("kind", 2)], 2)
	out := newStream(kinds[vnd.Choice("kind", 2)], 2)
	var input flux.Flux[payload.Payload]
	op := exportRC(func(_ context.Context, _ payload.Payload, f flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
		input = f
		f.Subscribe(in.c.subscribe(false))
		return out.p.flux()
	})
	f := l.h[0].RequestChannel(context.Background(), request(op, nil, nil), in.p.flux())
	f.Subscribe(out.c.subscribe(false))
	vnd.Quiesce()
	byHandler := vnd.Bool("by the handler")
	when := vnd.Choice("cancel at", 4)
	did := false
	cancel := func(at int) {
		if at != when {
			return
		}
		if !byHandler {
			did = out.c.ended == 0
			in.c.abandoned = did
			out.c.cancel(f)
		} else if input != nil {
			did = in.c.ended == 0
			in.c.cancel(input)
		}
	}
	cancel(0)
	l.some(tier(2, 3))
	cancel(1)
	l.some(tier(0, 1))
	in.p.emitHeld()
	out.p.emitHeld()
	l.some(tier(1, 2))
	cancel(2)
	l.drain()
	cancel(3)
	for i := 0; i < 3; i++ {
		in.p.emitHeld()
		out.p.emitHeld()
	}
	l.drain()
	if !did {
		out.c.all()
		if !out.p.fails && out.c.ended == 1 {
			in.c.all()
		}
		vnd.Reach("not cancelled")
		return
	}
	vnd.Reach("cancelled")
	in.p.stopped()
	if byHandler {
		in.c.settled()
		out.c.all()
	} else {
		out.c.settled()
		out.p.stopped()
	}
}

// A channel both of whose ends cancel.
//
//verif:harness C33 budget=40 t.budget=300
func H_C33_bothEnds() {
	l := newLink()
	in, out := newStream(prodHeld, 2), newStream(prodHeld, 2)
	var input flux.Flux[payload.Payload]
	op := exportRC(func(_ context.Context, _ payload.Payload, f flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
		input = f
		f.Subscribe(in.c.subscribe(false))
		return out.p.flux()
	})
	f := l.h[0].RequestChannel(context.Background(), request(op, nil, nil), in.p.flux())
	f.Subscribe(out.c.subscribe(false))
	l.drain()
	in.p.emitHeld()
	out.p.emitHeld()
	l.some(1)
	first := vnd.Bool("handler first")
	if first {
		in.c.cancel(input)
	} else {
		in.c.abandoned = true
		out.c.cancel(f)
	}
	l.some(2)
	if first {
		in.c.abandoned = true
		out.c.cancel(f)
	} else if in.c.finally == 0 {
		in.c.cancel(input)
	}
	l.drain()
	in.p.emitHeld()
	out.p.emitHeld()
	l.drain()
	in.p.stopped()
	out.p.stopped()
	out.c.settled()
	vnd.Assert(in.c.finally == 1, "the finally callback fires once")
	vnd.Reach("end")
}

// The consumer's finally callback on a request that was never sent.
//
//verif:harness C33
func H_C33_early() {
	l := newLink()
	s := newStream(prodDemand, 1)
	op := exportRS(func(context.Context, payload.Payload) flux.Flux[payload.Payload] { return s.p.flux() })
	f := l.h[0].RequestStream(context.Background(), request(op, nil, nil))
	f.Subscribe(s.c.subscribe(true))
	ask := vnd.Bool("ask first")
	if ask {
		f.Subscription().Request(1)
	}
	if vnd.Bool("settle") {
		vnd.Quiesce()
	}
	s.c.cancel(f)
	if !ask && vnd.Bool("ask after") {
		f.Subscription().Request(1)
	}
	l.drain()
	s.c.settled()
	s.p.stopped()
	_ = rx.SignalCancel
	vnd.Reach("end")
}
