package hproxy

import (
	"context"
	"errors"
	"sync"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/vnd"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/proxy"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

var errRemote = errors.New("the peer failed")

const (
	endValue = iota
	endEmpty
	endError
	endUnsent // the request cannot be sent
	remoteEnds
)

const (
	whenSending = iota // the answer comes while the request is sent
	whenSent           // the answer comes from another goroutine
	whenTold
	remoteTimes
)

// remote stands for the peer of one stream.
type remote struct {
	end, when int
	x         byte
	items     int

	mu     sync.Mutex
	str    proxy.Stream
	known  bool
	sent   int
	frames []frames.Frame
	told   chan bool
}

func newRemote(items int) *remote {
	r := &remote{end: vnd.Choice("end", remoteEnds), when: vnd.Choice("when", remoteTimes), x: vnd.U8("value"), items: items, told: make(chan bool, 1)}
	vnd.Assume(r.end != endUnsent || r.when == whenSending)
	return r
}

func (r *remote) register(s proxy.Stream) {
	vnd.Assert(r.str == nil, "a stream is registered once")
	r.str, r.known = s, true
}

func (r *remote) remove(id uint32) {
	r.mu.Lock()
	defer r.mu.Unlock()
	vnd.Assert(id == r.str.StreamID(), "the stream removes itself")
	r.known = false
}

func (r *remote) send(f frames.Frame) error {
	if _, ok := f.(*frames.RequestPayload); !ok {
		return nil
	}
	r.sent++
	vnd.Assert(r.sent == 1, "the request is sent once")
	vnd.Assert(r.str != nil, "the stream is registered before its request is sent")
	if r.end == endUnsent {
		return errRemote
	}
	switch r.when {
	case whenSending:
		r.answer()
	case whenSent:
		go r.answer()
	default:
		go func() { <-r.told; r.answer() }()
	}
	return nil
}

// answer plays the peer's frames, the way a handler passes them on.
func (r *remote) answer() {
	for i := 0; i < r.items; i++ {
		r.str.OnNext(payload.New([]byte{r.x + byte(i)}, nil))
	}
	switch r.end {
	case endValue:
		r.str.OnNext(payload.New([]byte{r.x + byte(r.items)}, []byte{r.x}))
		r.str.OnComplete()
	case endEmpty:
		r.str.OnComplete()
	case endError:
		r.str.OnError(errRemote)
	}
}

func (r *remote) checkMono(p payload.Payload, err error) {
	switch r.end {
	case endValue:
		vnd.Assert(err == nil && p != nil, "waiting returns the peer's value")
		vnd.Assert(len(p.Data()) == 1 && p.Data()[0] == r.x && len(p.Metadata()) == 1 && p.Metadata()[0] == r.x, "waiting returns the peer's value")
	case endEmpty:
		vnd.Assert(err == nil && p != nil, "waiting returns the empty value")
		vnd.Assert(len(p.Data()) == 0 && len(p.Metadata()) == 0, "waiting returns the empty value")
	default:
		vnd.Assert(err == errRemote, "waiting returns the error")
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	vnd.Assert(!r.known, "a call that has ended is forgotten")
}

func (r *remote) mono() mono.Mono[payload.Payload] {
	m := proxy.Mono(context.Background(), frames.RequestPayload{FrameType: frames.FrameTypeRequestResponse, StreamID: 5, InitialN: 1}, r.send, r.register, r.remove)
	if vnd.Bool("mapped") {
		m = mono.Map(m, func(p payload.Payload) (payload.Payload, error) { return p, nil })
	}
	return m
}

type answer struct {
	p   payload.Payload
	err error
}

// Waiting for a remote call, up to three times at once, and again when it has ended.
//
//verif:harness C29 budget=40 t.budget=300
func H_C29_remoteMono() {
	r := newRemote(0)
	m := r.mono()
	if vnd.Bool("subscribed before") {
		n := 0
		m.Subscribe(mono.Subscribe[payload.Payload]{Finally: func(rx.SignalType) { n++; vnd.Assert(n == 1, "the subscriber sees one outcome") }})
		if vnd.Bool("settle") {
			vnd.Quiesce()
		}
	}
	var cs []chan answer
	for n := 1 + vnd.Choice("waits", 3); n > 0; n-- {
		c := make(chan answer, 1)
		go func() {
			p, err := m.Block()
			c <- answer{p, err}
		}()
		cs = append(cs, c)
		if vnd.Bool("settle") {
			vnd.Quiesce()
		}
	}
	r.told <- true
	for _, c := range cs {
		a := <-c
		r.checkMono(a.p, a.err)
	}
	r.checkMono(m.Block())
	vnd.Assert(r.sent == 1, "the request is sent once")
	vnd.Reach("end")
}

// The peer answers while the wait starts.
//
//verif:harness C29 switches=3 t.switches=4 raceviol instr=proxy,rx/mono,internal/verifh/hproxy budget=60 t.budget=400
func H_C29_remoteMonoRace() {
	r := newRemote(0)
	m := r.mono()
	r.told <- true
	r.checkMono(m.Block())
	vnd.Reach("end")
}

// The peer answers while two waits start.
//
//verif:harness C29 switches=2 t.switches=3 raceviol instr=proxy,rx/mono,internal/verifh/hproxy budget=60 t.budget=400
func H_C29_remoteMonoTwo() {
	r := newRemote(0)
	vnd.Assume(vnd.Thorough() || r.end == endValue || r.end == endError)
	m := r.mono()
	r.told <- true
	c := make(chan answer, 1)
	go func() {
		p, err := m.Block()
		c <- answer{p, err}
	}()
	r.checkMono(m.Block())
	a := <-c
	r.checkMono(a.p, a.err)
	vnd.Reach("end")
}

// watch waits for a remote stream and checks what its callbacks see.
func (r *remote) watch(f flux.Flux[payload.Payload]) {
	n, completes, errs, fins := 0, 0, 0, 0
	err := f.Block(flux.Subscribe[payload.Payload]{
		OnNext: func(p payload.Payload) {
			vnd.Assert(len(p.Data()) == 1 && p.Data()[0] == r.x+byte(n), "waiting passes on the items in order")
			n++
		},
		OnComplete: func() { completes++ },
		OnError:    func(error) { errs++ },
		Finally:    func(rx.SignalType) { fins++ },
	})
	want := r.items
	if r.end == endValue {
		want++
	}
	if r.end == endUnsent {
		want = 0
	}
	vnd.Assert(n == want, "waiting passes on each item")
	if r.end >= endError {
		vnd.Assert(err == errRemote && errs == 1 && completes == 0, "waiting returns the error")
	} else {
		vnd.Assert(err == nil && errs == 0 && completes == 1, "waiting returns without an error")
	}
	vnd.Assert(fins == 1, "waiting passes on the signal")
	r.mu.Lock()
	defer r.mu.Unlock()
	vnd.Assert(!r.known && r.sent == 1, "a stream that has ended is forgotten")
}

func (r *remote) flux(channel bool) flux.Flux[payload.Payload] {
	var in flux.Flux[payload.Payload]
	t := frames.FrameTypeRequestStream
	if channel {
		t = frames.FrameTypeRequestChannel
		in = flux.FromSlice([]payload.Payload{payload.New([]byte{1})})
	}
	f := proxy.Flux(context.Background(), frames.RequestPayload{FrameType: t, StreamID: 5}, in, r.send, r.register, r.remove)
	if vnd.Bool("mapped") {
		f = flux.Map(f, func(p payload.Payload) (payload.Payload, error) { return p, nil })
	}
	return f
}

// Waiting for a remote stream.
//
//verif:harness C29 switches=2 t.switches=3 raceviol instr=proxy,rx/flux,internal/verifh/hproxy budget=60 t.budget=400
func H_C29_remoteFlux() {
	r := newRemote(vnd.Choice("items", 2))
	f := r.flux(false)
	r.told <- true
	r.watch(f)
	vnd.Reach("end")
}

// The subscriber of a remote stream cancels while the wait goes on.
//
//verif:harness C29 switches=2 t.switches=3 raceviol instr=proxy,rx/flux,internal/verifh/hproxy budget=60 t.budget=400
func H_C29_remoteCancel() {
	r := newRemote(1)
	vnd.Assume(r.end == endValue && r.when != whenTold)
	f := r.flux(vnd.Bool("channel"))
	inItem := vnd.Bool("in an item")
	n := 0
	var fins []rx.SignalType
	var sub rx.Subscription
	err := f.Block(flux.Subscribe[payload.Payload]{
		OnRequest: func(s rx.Subscription) {
			sub = s
			s.Request(rx.RequestMax)
			if !inItem {
				s.Cancel()
			}
		},
		OnNext: func(payload.Payload) {
			n++
			if inItem {
				vnd.Assert(n == 1, "nothing is delivered after a cancellation")
				sub.Cancel()
			}
		},
		Finally: func(s rx.SignalType) { fins = append(fins, s) },
	})
	vnd.Assert(err == nil, "a cancelled wait returns no error")
	vnd.Assert(len(fins) == 1, "waiting passes on the signal")
	vnd.Assert(fins[0] == rx.SignalCancel || !inItem && fins[0] == rx.SignalComplete, "waiting passes on the cancellation")
	vnd.Reach("end")
}
