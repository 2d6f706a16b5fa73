package hconn

import (
	"context"
	"io"
	"sync"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/vnd"
	"github.com/nanobus/iota/go/transport/rsocket"
)

// lwire is a wire whose writes are atomic, as those of a socket are.
type lwire struct {
	mu sync.Mutex
	wire
}

func (w *lwire) Write(p []byte) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.wire.Write(p)
}

type noHandler struct{}

func (noHandler) SetFrameSender(rsocket.FrameHandler)  {}
func (noHandler) HandleFrame(frames.Frame) (err error) { return nil }

// sent asserts that the wire holds exactly the frames of fs, each once, in some order, and those of
// one sender in the sender's order.
func sent(w *lwire, fs [][]frames.Frame) {
	n := 0
	for _, l := range fs {
		n += len(l)
	}
	rd := &wire{buf: w.buf, end: len(w.buf), tail: io.EOF}
	r := rsocket.NewTCPConn(rd)
	at := make([]int, len(fs))
	for i := 0; i < n; i++ {
		g, err := r.Read()
		vnd.Assert(err == nil, "the wire holds whole frames")
		hit := false
		for k, l := range fs {
			if !hit && at[k] < len(l) && l[at[k]].GetStreamID() == g.GetStreamID() {
				same(l[at[k]], g)
				at[k]++
				hit = true
			}
		}
		vnd.Assert(hit, "each frame on the wire is the next one of some sender")
	}
	_, err := r.Read()
	vnd.Assert(err == io.EOF, "nothing else is on the wire")
}

// Concurrent senders with small frames.
//
//verif:harness C07 switches=3 t.switches=4 raceviol instr=transport/rsocket,internal/verifh/hconn budget=60 t.budget=500
func H_C07_senders() {
	w := &lwire{}
	t := rsocket.NewTransport(rsocket.NewTCPConn(w), noHandler{})
	a := &frames.Payload{StreamID: 1, Data: vnd.BytesN("a", 3), Next: true}
	b := &frames.RequestN{StreamID: 3, N: vnd.U32("n")}
	c := &frames.Cancel{StreamID: 5}
	flushA, flushB := vnd.Bool("flushA"), vnd.Bool("flushB")
	done := make(chan bool, 2)
	go func() {
		vnd.Assert(t.Send(a, flushA) == nil, "a send succeeds")
		done <- true
	}()
	go func() {
		vnd.Assert(t.Send(b, flushB) == nil, "a send succeeds")
		done <- true
	}()
	vnd.Assert(t.Send(c, true) == nil, "a send succeeds")
	<-done
	<-done
	vnd.Assert(t.Flush() == nil, "a flush succeeds")
	sent(w, [][]frames.Frame{{a}, {b}, {c}})
	vnd.Reach("end")
}

// Concurrent senders of several frames each, with a flusher at work.
//
//verif:harness C07 switches=2 t.switches=4 raceviol instr=transport/rsocket,internal/verifh/hconn budget=60 t.budget=500
func H_C07_bursts() {
	w := &lwire{}
	t := rsocket.NewTransport(rsocket.NewTCPConn(w), noHandler{})
	var fs [2][]frames.Frame
	for k := range fs {
		for i := 0; i < 2; i++ {
			fs[k] = append(fs[k], &frames.RequestN{StreamID: uint32(2*k + 1), N: vnd.U32("n")})
		}
	}
	done := make(chan bool, 1)
	go func() {
		for _, f := range fs[0] {
			vnd.Assert(t.Send(f, false) == nil, "a send succeeds")
		}
		vnd.Assert(t.Flush() == nil, "a flush succeeds")
		done <- true
	}()
	for _, f := range fs[1] {
		vnd.Assert(t.Send(f, true) == nil, "a send succeeds")
	}
	<-done
	sent(w, [][]frames.Frame{fs[0], fs[1]})
	vnd.Reach("end")
}

// Frames that do not fit the write buffer go out in several writes; another sender's frame never
// gets between them.
//
//verif:harness C07 switches=3 t.switches=4 raceviol instr=transport/rsocket,internal/verifh/hconn budget=60 t.budget=500
func H_C07_large() {
	w := &lwire{}
	t := rsocket.NewTransport(rsocket.NewTCPConn(w), noHandler{})
	a := &frames.Payload{StreamID: 1, Data: vnd.BytesN("a", 9000), Next: true}
	b := &frames.Payload{StreamID: 3, Data: vnd.BytesN("b", 8190), Next: true}
	done := make(chan bool, 1)
	go func() {
		vnd.Assert(t.Send(a, true) == nil, "a send succeeds")
		done <- true
	}()
	vnd.Assert(t.Send(b, true) == nil, "a send succeeds")
	<-done
	sent(w, [][]frames.Frame{{a}, {b}})
	vnd.Reach("end")
}

type collect struct{ got []frames.Frame }

func (c *collect) SetFrameSender(rsocket.FrameHandler) {}
func (c *collect) HandleFrame(f frames.Frame) (err error) {
	c.got = append(c.got, f)
	return nil
}

// The whole receiving side: every frame that arrives reaches the handler once, in order, before
// Start returns, and is still what was sent afterwards.
//
//verif:harness C06 switches=3 t.switches=4 raceviol instr=transport/rsocket,internal/buffer,internal/verifh/hconn budget=60 t.budget=500
func H_C06_start() {
	fs := []frames.Frame{
		&frames.Payload{StreamID: vnd.U32("id"), Data: vnd.BytesN("a", 3), Next: true},
		&frames.RequestPayload{FrameType: frames.FrameTypeRequestResponse, StreamID: vnd.U32("id"), Data: vnd.BytesN("b", 2), Metadata: vnd.BytesN("c", 4), InitialN: 1, Complete: true},
		&frames.Cancel{StreamID: vnd.U32("id")},
	}
	w := &wire{tail: io.EOF}
	send(w, fs)
	w.end = len(w.buf)
	w.cuts = []int{vnd.Choice("cut", 3) * 7}
	if w.cuts[0] == 0 {
		w.cuts = nil
	}
	h := &collect{}
	t := rsocket.NewTransport(rsocket.NewTCPConn(w), h)
	err := t.Start(context.Background())
	vnd.Assert(err == nil, "the end of the stream is no error")
	vnd.Assert(w.closed, "the connection is closed when it ends")
	vnd.Assert(len(h.got) == len(fs), "each frame reaches the handler once")
	for i, f := range fs {
		same(f, h.got[i])
	}
	vnd.Reach("end")
}
