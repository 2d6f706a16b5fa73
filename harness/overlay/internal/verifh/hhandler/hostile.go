package hhandler

import (
	"context"
	"sync"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/vnd"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

const probeID = 0x7ffffff1

// target is a handler under attack, with operations of all four kinds.
type target struct {
	h    *handler.Handler
	mu   sync.Mutex
	sent []frames.Frame

	rr, fnf, rs, rc []uint32
	svc             []*service
	prods           []*producer
	ins             []flux.Flux[payload.Payload]
}

func newTarget() *target {
	t := &target{}
	mode := handler.ServerMode
	if vnd.Thorough() && vnd.Bool("client") {
		mode = handler.ClientMode
	}
	t.h = handler.New(context.Background(), mode)
	t.h.SetFrameSender(func(f frames.Frame) error {
		g := wire(f)
		t.mu.Lock()
		t.sent = append(t.sent, g)
		t.mu.Unlock()
		return nil
	})
	return t
}

func (t *target) producer(few bool) *producer {
	var p *producer
	if few {
		p = &producer{kind: vnd.Choice("kind", prodEager), items: []item{{data: []byte{1}}}}
	} else {
		p = newProducer(vnd.Choice("kind", prodKinds), 1)
	}
	t.prods = append(t.prods, p)
	return p
}

// export makes operations that behave in the way that the solver chooses.
func (t *target) export(kind frames.FrameType, few bool) (op uint32) {
	switch kind {
	case frames.FrameTypeRequestResponse:
		kinds := callMissing
		if few {
			kinds = callFails
		}
		s := &service{kind: vnd.Choice("answer", kinds)}
		t.svc = append(t.svc, s)
		return exportRR(s.handle)
	case frames.FrameTypeRequestFNF:
		return exportFNF(func(context.Context, payload.Payload) {})
	case frames.FrameTypeRequestStream:
		p := t.producer(few)
		return exportRS(func(context.Context, payload.Payload) flux.Flux[payload.Payload] { return p.flux() })
	default:
		how := 1
		if !few {
			how = vnd.Choice("input", 4)
		}
		if how == 3 {
			return exportRC(func(_ context.Context, _ payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
				return in
			})
		}
		p := t.producer(few)
		return exportRC(func(_ context.Context, _ payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
			if how == 1 {
				in.Subscribe(flux.Subscribe[payload.Payload]{NoRequest: vnd.Thorough() && vnd.Bool("no request")})
			}
			if how == 2 {
				t.ins = append(t.ins, in)
			}
			return p.flux()
		})
	}
}

// call makes the target call the peer.
func (t *target) call() {
	switch vnd.Choice("call", 3) {
	case 0:
		t.h.RequestResponse(context.Background(), request(0, nil, nil)).Subscribe(mono.Subscribe[payload.Payload]{})
	case 1:
		f := t.h.RequestStream(context.Background(), request(0, nil, nil))
		f.Subscribe(flux.Subscribe[payload.Payload]{})
		if vnd.Bool("cancel") {
			f.Subscription().Cancel()
		}
	case 2:
		p := t.producer(!vnd.Thorough())
		f := t.h.RequestChannel(context.Background(), request(0, nil, nil), p.flux())
		f.Subscribe(flux.Subscribe[payload.Payload]{})
		if vnd.Bool("cancel") {
			f.Subscription().Cancel()
		}
	}
	vnd.Quiesce()
}

var requestTypes = []frames.FrameType{
	frames.FrameTypeRequestResponse,
	frames.FrameTypeRequestFNF,
	frames.FrameTypeRequestStream,
	frames.FrameTypeRequestChannel,
}

// request sends the target a well-formed request of any kind.
func (t *target) request(id uint32) {
	k := requestTypes[vnd.Choice("request", 4)]
	p := request(t.export(k, false), nil, nil)
	t.h.HandleFrame(&frames.RequestPayload{
		FrameType: k,
		StreamID:  id,
		Metadata:  p.Metadata(),
		Data:      vnd.BytesN("data", 1),
		Complete:  true,
		InitialN:  uint32(1 - vnd.Choice("initial", tier(1, 2))),
	})
}

// hostile is any frame, for any stream but the probe's. The last few are no requests.
func (t *target) hostile(left int) frames.Frame {
	id := vnd.U32("stream")
	vnd.Assume(id != probeID)
	n := 4
	if left <= tier(1, 2) {
		n = 1
	}
	switch vnd.Choice("kind of frame", n) {
	case 0:
		return stray(id)
	case 1:
		return t.badRequest(id)
	case 2:
		// A request whose metadata is too short.
		return &frames.RequestPayload{FrameType: requestTypes[vnd.Choice("request", 4)], StreamID: id, Metadata: vnd.BytesN("metadata", 7*vnd.Choice("some metadata", 2))}
	default:
		// A request for something that exists.
		k := requestTypes[vnd.Choice("request", 4)]
		p := request(t.export(k, !vnd.Thorough()), nil, nil)
		return &frames.RequestPayload{FrameType: k, StreamID: id, Metadata: p.Metadata(), InitialN: vnd.U32("initial"), Follows: vnd.Thorough() && vnd.Bool("follows")}
	}
}

// badRequest is a request for an operation that nobody exports, with any metadata.
func (t *target) badRequest(id uint32) frames.Frame {
	md := vnd.BytesN("metadata", 9)
	vnd.Assume(md[0] != 0)
	kind := requestTypes[vnd.Choice("request", 4)]
	if vnd.Thorough() && vnd.Bool("no request") {
		kind = frames.FrameType(vnd.U8("type"))
		for t := frames.FrameTypeRequestResponse; t <= frames.FrameTypeError; t++ {
			vnd.Assume(kind != t)
		}
	}
	return &frames.RequestPayload{FrameType: kind, StreamID: id, Metadata: md, InitialN: 1}
}

// aftermath lets everything that is still going end.
func (t *target) aftermath() {
	vnd.Quiesce()
	for _, s := range t.svc {
		for s.waiting() > 0 {
			s.release(0)
		}
	}
	for _, in := range t.ins {
		in.Subscribe(flux.Subscribe[payload.Payload]{})
	}
	for _, p := range t.prods {
		p.emitHeld()
		p.emitHeld()
	}
	vnd.Quiesce()
}

func (t *target) survives() {
	t.aftermath()
	answers(t.h, &t.sent, &t.mu, probeID)
	vnd.Reach("end")
}

// Hostile frames for a handler that is calling the peer.
//
//verif:harness C32 budget=40 t.budget=400
func H_C32_calling() {
	t := newTarget()
	t.call()
	for n := tier(2, 3); n > 0; n-- {
		t.h.HandleFrame(t.hostile(n))
		if !vnd.Thorough() || vnd.Bool("settle") {
			vnd.Quiesce()
		}
	}
	t.survives()
}

// Hostile frames for a handler that is serving the peer.
//
//verif:harness C32 budget=40 t.budget=400
func H_C32_serving() {
	t := newTarget()
	first := vnd.U32("first stream")
	vnd.Assume(first != probeID)
	t.request(first)
	if vnd.Bool("settle") {
		vnd.Quiesce()
	}
	for n := tier(2, 3); n > 0; n-- {
		t.h.HandleFrame(t.hostile(n - tier(1, 0)))
		if !vnd.Thorough() || vnd.Bool("settle") {
			vnd.Quiesce()
		}
	}
	t.survives()
}

// Frames that arrive while the goroutines that serve a request start.
//
//verif:harness C32 switches=2 t.switches=3 raceviol instr=handler,proxy,internal/verifh/hhandler budget=60 t.budget=500
func H_C32_race() {
	t := newTarget()
	t.prods = append(t.prods, &producer{kind: prodHeld, items: []item{{data: []byte{1}}}})
	k := requestTypes[vnd.Choice("request", 4)]
	var op uint32
	switch k {
	case frames.FrameTypeRequestResponse:
		t.svc = append(t.svc, &service{kind: callNow})
		op = exportRR(t.svc[0].handle)
	case frames.FrameTypeRequestFNF:
		op = exportFNF(func(context.Context, payload.Payload) {})
	case frames.FrameTypeRequestStream:
		op = exportRS(func(context.Context, payload.Payload) flux.Flux[payload.Payload] { return t.prods[0].flux() })
	default:
		op = exportRC(func(_ context.Context, _ payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
			in.Subscribe(flux.Subscribe[payload.Payload]{})
			return t.prods[0].flux()
		})
	}
	p := request(op, nil, nil)
	t.h.HandleFrame(&frames.RequestPayload{FrameType: k, StreamID: 3, Metadata: p.Metadata(), InitialN: 1})
	for n := 2; n > 0; n-- {
		var f frames.Frame
		switch vnd.Choice("frame", 4) {
		case 0:
			f = &frames.Cancel{StreamID: 3}
		case 1:
			f = &frames.RequestN{StreamID: 3, N: 1}
		case 2:
			f = &frames.Error{StreamID: 3, Data: "no"}
		default:
			f = &frames.Payload{StreamID: 3, Next: true, Complete: n == 1}
		}
		t.h.HandleFrame(f)
	}
	t.survives()
}

// Frames for streams that have ended, or have never been, do nothing to those that there are.
//
//verif:harness C32 budget=40 t.budget=300
func H_C32_ignored() {
	l := newLink()
	p := &producer{kind: prodHeld, items: []item{{data: []byte{vnd.U8("item")}}, {data: []byte{vnd.U8("item")}}}}
	s := &stream{p, &consumer{p: p}}
	op := exportRS(func(context.Context, payload.Payload) flux.Flux[payload.Payload] { return p.flux() })
	caller := vnd.Choice("caller", 2)
	// A stream that has ended.
	l.h[caller].RequestStream(context.Background(), request(none, nil, nil)).Subscribe(flux.Subscribe[payload.Payload]{})
	l.drain()
	ended := l.id()
	f := l.h[caller].RequestStream(context.Background(), request(op, nil, nil))
	f.Subscribe(s.c.subscribe(false))
	l.drain()
	if vnd.Bool("one item") {
		p.emit(true)
		l.drain()
	}
	live := l.log[caller][len(l.log[caller])-1].GetStreamID()
	vnd.Assert(live != ended, "streams have different ids")
	n := [2]int{len(l.log[0]), len(l.log[1])}
	for i := tier(1, 2); i > 0; i-- {
		id := vnd.U32("stream")
		vnd.Assume(id != live)
		k := vnd.Choice("side", 2)
		g := stray(id)
		vnd.Assert(l.h[k].HandleFrame(g) == nil, "a frame for a stream that does not exist is ignored")
		vnd.Quiesce()
	}
	vnd.Assert(len(l.log[0]) == n[0] && len(l.log[1]) == n[1], "a frame for a stream that does not exist is not answered")
	for s.pending() {
		p.emit(true)
		l.drain()
	}
	s.c.all()
	vnd.Reach("end")
}

// stray is any frame that is no request.
func stray(id uint32) frames.Frame {
	switch vnd.Choice("frame", 4) {
	case 0:
		return &frames.Cancel{StreamID: id}
	case 1:
		return &frames.RequestN{StreamID: id, N: vnd.U32("n")}
	case 2:
		return &frames.Error{StreamID: id, Code: frames.ErrCode(vnd.U32("code")), Data: "no"}
	default:
		return &frames.Payload{StreamID: id, Data: vnd.BytesN("data", 1), Next: vnd.Bool("next"), Complete: vnd.Bool("complete"), Follows: vnd.Bool("follows")}
	}
}
