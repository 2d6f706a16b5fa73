package hhandler

import (
	"context"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/vnd"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

// forgotten checks that neither side still knows the stream: a request with the same id is answered.
func (l *link) forgotten(id uint32) {
	for k := range l.h {
		answers(l.h[k], &l.log[k], &l.mu, id)
	}
}

func (l *link) id() uint32 {
	for k := range l.log {
		if len(l.log[k]) > 0 {
			return l.log[k][0].GetStreamID()
		}
	}
	vnd.Assert(false, "a request is sent")
	return 0
}

// A stream that has ended, in whatever way, is forgotten on both sides.
//
//verif:harness C34 budget=40 t.budget=300
func H_C34_streamEnds() {
	l := newLink()
	s := newStream(vnd.Choice("kind", prodKinds), 1)
	op := exportRS(func(context.Context, payload.Payload) flux.Flux[payload.Payload] { return s.p.flux() })
	missing := vnd.Bool("missing")
	if missing {
		op = none
	}
	f := l.h[vnd.Choice("caller", 2)].RequestStream(context.Background(), request(op, nil, nil))
	if missing {
		f.Subscribe(flux.Subscribe[payload.Payload]{})
	} else {
		f.Subscribe(s.c.subscribe(false))
	}
	vnd.Quiesce()
	l.some(2)
	if !missing && vnd.Bool("cancel") {
		if vnd.Bool("emit first") {
			s.p.emitHeld()
		}
		s.c.cancel(f)
	}
	l.drain()
	s.p.emitHeld()
	s.p.emitHeld()
	l.drain()
	l.forgotten(l.id())
	vnd.Reach("end")
}

// A channel is forgotten when both directions have ended.
//
//verif:harness C34 budget=40 t.budget=300
func H_C34_channelEnds() {
	l := newLink()
	in := newStream(vnd.Choice("kind", prodKinds), 1)
	out := newStream(vnd.Choice("kind", prodKinds), 1)
	consumes := vnd.Bool("the handler consumes its input")
	var input flux.Flux[payload.Payload]
	op := exportRC(func(_ context.Context, _ payload.Payload, f flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
		if consumes {
			f.Subscribe(in.c.subscribe(false))
			input = f
		}
		return out.p.flux()
	})
	f := l.h[0].RequestChannel(context.Background(), request(op, nil, nil), in.p.flux())
	f.Subscribe(out.c.subscribe(false))
	vnd.Quiesce()
	l.some(1)
	how := vnd.Choice("how", 3)
	if how == 1 {
		in.c.abandoned = out.c.ended == 0
		out.c.cancel(f)
	}
	l.drain()
	if how == 2 && input != nil {
		in.c.cancel(input)
	}
	for in.pending() || out.pending() {
		s := in
		if !in.pending() || out.pending() && vnd.Bool("emit response") {
			s = out
		}
		s.p.emit(true)
		l.some(tier(0, 1))
	}
	l.drain()
	l.forgotten(l.id())
	vnd.Reach("end")
}

// Calls are forgotten when they have been answered.
//
//verif:harness C34 budget=40 t.budget=300
func H_C34_callEnds() {
	l := newLink()
	svc := &service{kind: vnd.Choice("kind", callKinds)}
	op := exportRR(svc.handle)
	if svc.kind == callMissing {
		op = none
	}
	h := l.h[vnd.Choice("caller", 2)]
	fnf := vnd.Bool("fire and forget")
	if fnf {
		if svc.kind != callMissing {
			op = exportFNF(func(context.Context, payload.Payload) {})
		}
		h.FireAndForget(context.Background(), request(op, nil, nil))
	} else {
		h.RequestResponse(context.Background(), request(op, nil, nil)).Subscribe(mono.Subscribe[payload.Payload]{})
	}
	l.drain()
	if svc.waiting() > 0 {
		if vnd.Bool("cancelled by the peer") {
			// The protocol lets a caller give up on an answer.
			id := l.id()
			for k := range l.h {
				l.h[k].HandleFrame(&frames.Cancel{StreamID: id})
			}
			vnd.Quiesce()
			answers(l.h[1-l.sender()], &l.log[1-l.sender()], &l.mu, id)
			svc.release(0)
			vnd.Reach("given up")
			return
		}
		svc.release(0)
	}
	l.drain()
	l.forgotten(l.id())
	vnd.Reach("end")
}

// sender is the side that sent the first frame.
func (l *link) sender() int {
	if len(l.log[0]) > 0 {
		return 0
	}
	return 1
}

// Whatever id the peer gave a stream, it is forgotten when it ends, and others are not.
//
//verif:harness C34 budget=40 t.budget=300
func H_C34_anyID() {
	l := newLink()
	k := vnd.Choice("side", 2)
	h := l.h[k]
	id, other := vnd.U32("id"), vnd.U32("other")
	vnd.Assume(id != 0 && id < 1<<31 && other != 0 && other < 1<<31 && id != other)
	p := newProducer([]int{prodHeld, prodEager, prodFailed}[vnd.Choice("kind", 3)], tier(0, 1))
	keep := &service{kind: callLater, key: 1}
	kept := exportRR(keep.handle)
	f := &frames.RequestPayload{StreamID: id, Complete: true, InitialN: 1}
	var op uint32
	switch vnd.Choice("request", 4) {
	case 0:
		f.FrameType = frames.FrameTypeRequestResponse
		op = exportRR((&service{kind: callNow}).handle)
	case 1:
		f.FrameType = frames.FrameTypeRequestFNF
		op = exportFNF(func(context.Context, payload.Payload) {})
	case 2:
		f.FrameType = frames.FrameTypeRequestStream
		op = exportRS(func(context.Context, payload.Payload) flux.Flux[payload.Payload] { return p.flux() })
	case 3:
		f.FrameType = frames.FrameTypeRequestChannel
		op = exportRC(func(_ context.Context, _ payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
			in.Subscribe(flux.Subscribe[payload.Payload]{})
			return p.flux()
		})
	}
	if vnd.Bool("missing") {
		op = none
	}
	f.Metadata = request(op, nil, nil).Metadata()
	held := &frames.RequestPayload{FrameType: frames.FrameTypeRequestResponse, StreamID: other, Complete: true, InitialN: 1, Metadata: request(kept, []byte{9}, nil).Metadata(), Data: []byte{9}}
	vnd.Assert(h.HandleFrame(held) == nil, "a well-formed request is taken")
	vnd.Quiesce()
	vnd.Assert(h.HandleFrame(f) == nil, "a well-formed request is taken")
	vnd.Quiesce()
	p.emitHeld()
	p.emitHeld()
	vnd.Quiesce()
	if f.FrameType >= frames.FrameTypeRequestStream && p.kind == prodHeld && op != none && !p.ended {
		h.HandleFrame(&frames.Cancel{StreamID: id})
	}
	if f.FrameType == frames.FrameTypeRequestChannel {
		h.HandleFrame(&frames.Payload{StreamID: id, Complete: true})
	}
	vnd.Quiesce()
	answers(h, &l.log[k], &l.mu, id)
	l.mu.Lock()
	n := len(l.log[k])
	l.mu.Unlock()
	vnd.Assert(keep.waiting() == 1, "the other call is not affected")
	keep.release(0)
	vnd.Quiesce()
	l.mu.Lock()
	vnd.Assert(len(l.log[k]) == n+1 && l.log[k][n].GetStreamID() == other, "the other call is answered")
	l.mu.Unlock()
	answers(h, &l.log[k], &l.mu, other)
	vnd.Reach("end")
}
