// Package hhandler checks handlers connected to each other and to hostile peers.
package hhandler

import (
	"context"
	"encoding/binary"
	"errors"
	"sync"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/vnd"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

// wire carries a frame as it travels: encoded and decoded again.
func wire(f frames.Frame) frames.Frame {
	buf := make([]byte, f.Size())
	f.Encode(buf)
	h := frames.ParseFrameHeader(buf)
	var g frames.Frame
	switch h.Type() {
	case frames.FrameTypeRequestResponse, frames.FrameTypeRequestFNF, frames.FrameTypeRequestStream, frames.FrameTypeRequestChannel:
		g = &frames.RequestPayload{}
	case frames.FrameTypeRequestN:
		g = &frames.RequestN{}
	case frames.FrameTypeCancel:
		g = &frames.Cancel{}
	case frames.FrameTypePayload:
		g = &frames.Payload{}
	case frames.FrameTypeError:
		g = &frames.Error{}
	default:
		vnd.Assert(false, "only frames of the protocol are sent")
	}
	vnd.Assert(g.Decode(&h, buf[frames.FrameHeaderLen:]) == nil, "a frame that is sent can be decoded")
	return g
}

// link connects two handlers. Frames wait until they are delivered.
type link struct {
	mu  sync.Mutex
	h   [2]*handler.Handler
	to  [2][]frames.Frame // what is on its way to each
	log [2][]frames.Frame // what each has sent
}

func newLink() *link {
	l := &link{}
	l.h[0] = handler.New(context.Background(), handler.ClientMode)
	l.h[1] = handler.New(context.Background(), handler.ServerMode)
	for k := range l.h {
		k := k
		l.h[k].SetFrameSender(func(f frames.Frame) error {
			g := wire(f)
			l.mu.Lock()
			defer l.mu.Unlock()
			l.to[1-k] = append(l.to[1-k], g)
			l.log[k] = append(l.log[k], g)
			return nil
		})
	}
	return l
}

// take removes the next frame for side k.
func (l *link) take(k int) (f frames.Frame) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if len(l.to[k]) > 0 {
		f = l.to[k][0]
		l.to[k] = l.to[k][1:]
	}
	return f
}

func (l *link) deliver(k int) bool {
	f := l.take(k)
	if f == nil {
		return false
	}
	vnd.Assert(l.h[k].HandleFrame(f) == nil, "a frame from a well-behaved peer is handled")
	return true
}

// some delivers up to n frames, in an order that the solver chooses among the sides.
func (l *link) some(n int) {
	for i := 0; i < n; i++ {
		switch vnd.Choice("deliver", 3) {
		case 0:
			return
		case 1:
			l.deliver(0)
		case 2:
			l.deliver(1)
		}
		if !vnd.Thorough() || vnd.Bool("settle") {
			vnd.Quiesce()
		}
	}
}

// tier picks a bound for the quick or the thorough check.
func tier(quick, thorough int) int {
	if vnd.Thorough() {
		return thorough
	}
	return quick
}

// drain delivers everything.
func (l *link) drain() {
	for n := 0; n < 100; n++ {
		vnd.Quiesce()
		a := l.deliver(0)
		b := l.deliver(1)
		if !a && !b {
			vnd.Quiesce()
			if !l.deliver(0) && !l.deliver(1) {
				return
			}
		}
	}
	vnd.Assert(false, "the peers stop sending")
}

// request makes the payload of a call to exported operation op.
func request(op uint32, data, metadata []byte) payload.Payload {
	md := make([]byte, 8+len(metadata))
	binary.BigEndian.PutUint32(md, op)
	copy(md[8:], metadata)
	return payload.New(data, md)
}

var errHandler = errors.New("no luck")

const none = 1<<32 - 1 // an operation that nobody exports

func exportRR(fn invoke.RequestResponseHandler) uint32 {
	invoke.ExportRequestResponse("verif", "rr", fn)
	return uint32(len(invoke.GetOperations().Exported.RequestResponse) - 1)
}

func exportFNF(fn invoke.FireAndForgetHandler) uint32 {
	invoke.ExportFireAndForget("verif", "fnf", fn)
	return uint32(len(invoke.GetOperations().Exported.FireAndForget) - 1)
}

func exportRS(fn invoke.RequestStreamHandler) uint32 {
	invoke.ExportRequestStream("verif", "rs", fn)
	return uint32(len(invoke.GetOperations().Exported.RequestStream) - 1)
}

func exportRC(fn invoke.RequestChannelHandler) uint32 {
	invoke.ExportRequestChannel("verif", "rc", fn)
	return uint32(len(invoke.GetOperations().Exported.RequestChannel) - 1)
}

// answers checks that side k still answers a well-formed request with the given stream id.
func answers(h *handler.Handler, sent *[]frames.Frame, mu *sync.Mutex, id uint32) {
	op := exportRR(func(_ context.Context, p payload.Payload) mono.Mono[payload.Payload] {
		return mono.Just[payload.Payload](payload.New(p.Data(), p.Metadata()))
	})
	x := vnd.U8("probe")
	p := request(op, []byte{x}, []byte{7})
	mu.Lock()
	n := len(*sent)
	mu.Unlock()
	err := h.HandleFrame(&frames.RequestPayload{
		FrameType: frames.FrameTypeRequestResponse,
		StreamID:  id,
		Metadata:  p.Metadata(),
		Data:      p.Data(),
		Complete:  true,
		InitialN:  1,
	})
	vnd.Assert(err == nil, "a well-formed request is taken")
	vnd.Quiesce()
	mu.Lock()
	defer mu.Unlock()
	got := 0
	for _, f := range (*sent)[n:] {
		if f.GetStreamID() != id {
			continue
		}
		got++
		a, ok := f.(*frames.Payload)
		vnd.Assert(ok && a.Next && a.Complete, "a well-formed request is answered")
		vnd.Assert(len(a.Data) == 1 && a.Data[0] == x, "with the handler's result")
		vnd.Assert(len(a.Metadata) == 1 && a.Metadata[0] == 7, "with the handler's metadata")
	}
	vnd.Assert(got == 1, "a well-formed request is answered once")
}

var _ flux.Sink[payload.Payload]
