package hconn

import (
	"context"
	"errors"
	"net"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/vnd"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/rsocket"
)

var errNet = errors.New("the network failed")

func (l *listener) isClosed() bool {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.closed > 0
}

func (c *open) closedTimes() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closes
}

// A server is closed, by a call or by the end of its context, at any moment before or after it
// starts to listen and accepts a connection.
//
//verif:harness C41 switches=2 t.switches=3 raceviol instr=transport/rsocket,internal/verifh/hconn budget=60 t.budget=500
func H_C41_server() {
	ln := newListener()
	c := newOpen()
	made := false
	srv := rsocket.NewTCPServerTransport(func(context.Context) (net.Listener, error) {
		made = true
		return ln, nil
	}, nil)
	srv.Accept(func(context.Context, invoke.Caller, func(*rsocket.Transport)) {})
	ctx, cancel := context.WithCancel(context.Background())
	byCall := vnd.Bool("closed by a call")
	told := make(chan bool, 2)
	over := make(chan bool, 1)
	go func() {
		srv.Listen(ctx, told)
		vnd.Assert(!made || ln.isClosed(), "a server that has stopped has closed its listener")
		over <- true
	}()
	if vnd.Bool("after it listens") {
		<-told
		told <- true
	}
	if vnd.Bool("a connection") {
		ln.conns <- c
	} else {
		c = nil
	}
	if byCall {
		srv.Close()
	} else {
		cancel()
	}
	<-over
	vnd.Quiesce()
	vnd.Assert(len(told) == 1, "the start is announced once")
	if c != nil && len(ln.conns) == 0 {
		vnd.Assert(c.closedTimes() == 1, "an accepted connection is closed")
		vnd.Reach("accepted")
	}
	srv.Close()
	cancel()
	vnd.Reach("end")
}

// A server that is closed before it listens, or that cannot listen.
//
//verif:harness C41
func H_C41_never() {
	ln := newListener()
	fails := vnd.Bool("fails")
	srv := rsocket.NewTCPServerTransport(func(context.Context) (net.Listener, error) {
		if fails {
			return nil, errNet
		}
		return ln, nil
	}, nil)
	ctx, cancel := context.WithCancel(context.Background())
	for n := vnd.Choice("closes", 3); n > 0; n-- {
		vnd.Assert(srv.Close() == nil, "closing succeeds")
	}
	if vnd.Bool("cancelled") {
		cancel()
	}
	told := make(chan bool, 2)
	over := make(chan error, 1)
	go func() { over <- srv.Listen(ctx, told) }()
	vnd.Quiesce()
	vnd.Assert(len(told) == 1, "the start is announced once")
	up := <-told
	if fails {
		vnd.Assert(!up && errors.Is(<-over, errNet), "a failure to listen is reported")
		srv.Close()
		vnd.Reach("failed")
		return
	}
	srv.Close()
	<-over
	vnd.Assert(ln.isClosed(), "a server that has stopped has closed its listener")
	cancel()
	vnd.Reach("end")
}

// failing is a listener that fails after some connections.
type failing struct {
	listener
	left []net.Conn
	err  error
}

func (l *failing) Accept() (net.Conn, error) {
	if len(l.left) == 0 {
		return nil, l.err
	}
	c := l.left[0]
	l.left = l.left[1:]
	return c, nil
}

// Connections come and go: one that ends does not affect another, and when the listener fails
// everything is closed and the failure is reported.
//
//verif:harness C41
func H_C41_connections() {
	ln := newListener()
	srv := rsocket.NewTCPServerTransport(func(context.Context) (net.Listener, error) { return ln, nil }, nil)
	n := 0
	srv.Accept(func(context.Context, invoke.Caller, func(*rsocket.Transport)) { n++ })
	invoke.ExportRequestResponse("verif", "rr", func(_ context.Context, p payload.Payload) mono.Mono[payload.Payload] {
		return mono.Just[payload.Payload](payload.New(p.Data()))
	})
	op := len(invoke.GetOperations().Exported.RequestResponse) - 1
	d := vnd.BytesN("data", 2)
	in := &wire{}
	send(in, []frames.Frame{&frames.RequestPayload{FrameType: frames.FrameTypeRequestResponse, StreamID: 1, Metadata: []byte{0, 0, 0, byte(op), 0, 0, 0, 0}, Data: d, InitialN: 1, Complete: true}})
	var cs []*open
	told := make(chan bool, 2)
	over := make(chan error, 1)
	go func() { over <- srv.Listen(context.Background(), told) }()
	vnd.Quiesce()
	for i := 0; i < 2; i++ {
		c := newOpen()
		cs = append(cs, c)
	}
	cs[1].in = in.buf
	switch vnd.Choice("the other", 4) {
	case 1:
		// It ends at once.
		close(cs[0].done)
		cs[0].once.Do(func() {})
	case 2:
		// What it sends makes no sense.
		cs[0].in = append([]byte{0, 0, byte(vnd.Choice("length", 8))}, vnd.BytesN("junk", 7)...)
	case 3:
		cs[0].in = in.buf
	}
	for _, c := range cs {
		ln.conns <- c
		if vnd.Bool("settle") {
			vnd.Quiesce()
		}
	}
	vnd.Quiesce()
	vnd.Assert(n == 2, "each connection is announced")
	c := cs[1]
	c.mu.Lock()
	w := &lwire{wire: wire{buf: c.buf}}
	c.mu.Unlock()
	sent(w, [][]frames.Frame{{&frames.Payload{StreamID: 1, Data: d, Next: true, Complete: true}}})
	vnd.Assert(c.closedTimes() == 0, "a connection stays open while its peer keeps it")
	vnd.Assert(srv.Close() == nil && srv.Close() == nil, "closing succeeds")
	vnd.Assert(<-over == nil, "a closed server stops without an error")
	for _, c := range cs {
		vnd.Quiesce()
		vnd.Assert(c.closedTimes() == 1, "each connection is closed once")
	}
	vnd.Reach("end")
}

// The listener fails.
//
//verif:harness C41
func H_C41_acceptFails() {
	ln := &failing{err: errNet}
	ln.conns, ln.done = make(chan net.Conn), make(chan bool)
	c := newOpen()
	if vnd.Bool("a connection") {
		ln.left = []net.Conn{c}
	} else {
		c = nil
	}
	srv := rsocket.NewTCPServerTransport(func(context.Context) (net.Listener, error) { return ln, nil }, nil)
	told := make(chan bool, 2)
	err := srv.Listen(context.Background(), told)
	vnd.Assert(errors.Is(err, errNet), "the failure is reported")
	vnd.Quiesce()
	vnd.Assert(ln.closed > 0, "a server that has stopped has closed its listener")
	vnd.Assert(c == nil || c.closedTimes() == 1, "an accepted connection is closed")
	vnd.Reach("end")
}

// A connection stops when its context ends or it is closed, at any moment, also while its peer is
// silent.
//
//verif:harness C41 switches=2 t.switches=4 raceviol instr=transport/rsocket,internal/verifh/hconn budget=60 t.budget=500
func H_C41_start() {
	c := newOpen()
	got := 0
	h := &counter{n: &got}
	if vnd.Bool("a frame first") {
		w := &wire{}
		send(w, []frames.Frame{&frames.Cancel{StreamID: vnd.U32("id")}})
		c.in = w.buf
	}
	t := rsocket.NewTransport(rsocket.NewTCPConn(c), h)
	ctx, cancel := context.WithCancel(context.Background())
	over := make(chan error, 1)
	go func() { over <- t.Start(ctx) }()
	if vnd.Bool("settle") {
		vnd.Quiesce()
	}
	switch vnd.Choice("how", 3) {
	case 0:
		cancel()
		vnd.Assert(<-over == context.Canceled, "the end of the context is reported")
	case 1:
		vnd.Assert(t.Close() == nil, "closing succeeds")
		<-over
	case 2:
		cancel()
		vnd.Assert(t.Close() == nil, "closing succeeds")
		<-over
	}
	vnd.Assert(c.closedTimes() == 1, "the connection is closed once")
	vnd.Assert(t.Close() == nil, "closing again is harmless")
	cancel()
	vnd.Reach("end")
}

type counter struct{ n *int }

func (c *counter) SetFrameSender(rsocket.FrameHandler) {}
func (c *counter) HandleFrame(frames.Frame) (err error) {
	*c.n++
	return nil
}
