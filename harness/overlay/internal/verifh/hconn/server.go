package hconn

import (
	"context"
	"io"
	"net"
	"sync"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/vnd"
	"github.com/nanobus/iota/go/internal/vndnet"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/rsocket"
)

// listener hands out connections that are given to it.
type listener struct {
	conns  chan net.Conn
	done   chan bool
	once   sync.Once
	mu     sync.Mutex
	closed int
}

func newListener() *listener {
	return &listener{conns: make(chan net.Conn, 4), done: make(chan bool)}
}

func (l *listener) Accept() (net.Conn, error) {
	select {
	case <-l.done:
		return nil, net.ErrClosed
	default:
	}
	select {
	case c := <-l.conns:
		return c, nil
	case <-l.done:
		return nil, net.ErrClosed
	}
}

func (l *listener) Close() error {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.closed++
	l.once.Do(func() { close(l.done) })
	return nil
}

func (l *listener) Addr() net.Addr { return nil }

// open is a connection whose reader waits until the connection is closed.
type open struct {
	lwire
	in     []byte // what arrives
	done   chan bool
	once   sync.Once
	closes int
}

func newOpen() *open { return &open{done: make(chan bool)} }

func (c *open) Read(p []byte) (int, error) {
	if len(c.in) > 0 {
		n := copy(p, c.in)
		c.in = c.in[n:]
		return n, nil
	}
	<-c.done
	return 0, io.EOF
}

func (c *open) Close() error {
	c.mu.Lock()
	c.closes++
	c.mu.Unlock()
	c.once.Do(func() { close(c.done) })
	return nil
}

// What a server's accepted connection sends goes out whole, whichever goroutines send.
//
//verif:harness C07 switches=2 t.switches=3 raceviol instr=transport/rsocket,internal/verifh/hconn budget=60 t.budget=500
func H_C07_server() {
	ln := newListener()
	c := newOpen()
	ln.conns <- c
	srv := rsocket.NewTCPServerTransport(func(context.Context) (net.Listener, error) { return ln, nil }, nil)
	callers := make(chan *handler.Handler, 1)
	srv.Accept(func(_ context.Context, caller invoke.Caller, _ func(*rsocket.Transport)) {
		callers <- caller.(*handler.Handler)
	})
	up := make(chan bool, 1)
	over := make(chan error, 1)
	go func() { over <- srv.Listen(context.Background(), up) }()
	vnd.Assert(<-up, "the server listens")
	h := <-callers
	a := &frames.Payload{StreamID: 1, Data: vnd.BytesN("a", 3), Next: true}
	b := &frames.RequestN{StreamID: 3, N: vnd.U32("n")}
	done := make(chan bool, 1)
	go func() {
		vnd.Assert(h.SendFrame(a) == nil, "a send succeeds")
		done <- true
	}()
	vnd.Assert(h.SendFrame(b) == nil, "a send succeeds")
	<-done
	sent(&c.lwire, [][]frames.Frame{{a}, {b}})
	vnd.Reach("end")
}

// Two peers of a connection answer requests; what either sends goes out whole.
//
//verif:harness C07 switches=2 t.switches=3 raceviol net=transport/rsocket instr=transport/rsocket,internal/verifh/hconn budget=60 t.budget=500
func H_C07_answers() {
	c := newOpen()
	invoke.ExportRequestResponse("verif", "rr", func(_ context.Context, p payload.Payload) mono.Mono[payload.Payload] {
		return mono.Just[payload.Payload](payload.New(p.Data()))
	})
	op := len(invoke.GetOperations().Exported.RequestResponse) - 1
	var want [][]frames.Frame
	out := &wire{}
	for i := 0; i < 2; i++ {
		d := vnd.BytesN("data", 1+i)
		id := uint32(2*i + 1)
		send(out, []frames.Frame{&frames.RequestPayload{FrameType: frames.FrameTypeRequestResponse, StreamID: id, Metadata: []byte{0, 0, 0, byte(op), 0, 0, 0, 0}, Data: d, InitialN: 1, Complete: true}})
		want = append(want, []frames.Frame{&frames.Payload{StreamID: id, Data: d, Next: true, Complete: true}})
	}
	c.in = out.buf
	over := make(chan error, 1)
	if vnd.Bool("server") {
		ln := newListener()
		ln.conns <- c
		vndnet.OnListen = func(string, string) (net.Listener, error) { return ln, nil }
		srv := rsocket.NewServer(func(context.Context, invoke.Caller, func(*rsocket.Transport)) {})
		up := make(chan bool, 1)
		go func() { over <- srv.Listen(context.Background(), up) }()
	} else {
		vndnet.OnDial = func(string, string) (net.Conn, error) { return c, nil }
		t, err := rsocket.NewClient(context.Background())
		vnd.Assert(err == nil, "the client connects")
		go func() { over <- t.Start(context.Background()) }()
	}
	vnd.Quiesce()
	c.mu.Lock()
	w := &lwire{wire: wire{buf: c.buf}}
	c.mu.Unlock()
	sent(w, want)
	vnd.Reach("end")
}

// The ids of the requests that each kind of peer sends.
//
//verif:harness C04 net=transport/rsocket
func H_C04_peers() {
	var mu sync.Mutex
	var ids []uint32
	note := func(f frames.Frame) error {
		mu.Lock()
		defer mu.Unlock()
		ids = append(ids, f.GetStreamID())
		return nil
	}
	var caller invoke.Caller
	parity := uint32(0)
	server := vnd.Bool("behind a server")
	c := newOpen()
	if server {
		ln := newListener()
		ln.conns <- c
		vndnet.OnListen = func(string, string) (net.Listener, error) { return ln, nil }
		callers := make(chan invoke.Caller, 1)
		srv := rsocket.NewServer(func(_ context.Context, x invoke.Caller, _ func(*rsocket.Transport)) { callers <- x })
		up := make(chan bool, 1)
		go srv.Listen(context.Background(), up)
		caller = <-callers
	} else {
		mode := handler.ServerMode
		if vnd.Bool("client") {
			mode, parity = handler.ClientMode, 1
		}
		h := handler.New(context.Background(), mode)
		h.SetFrameSender(note)
		caller = h
	}
	p := payload.New([]byte{1}, make([]byte, 8))
	for i := 0; i < 3; i++ {
		switch vnd.Choice("call", 4) {
		case 0:
			caller.RequestResponse(context.Background(), p).Subscribe(mono.Subscribe[payload.Payload]{})
		case 1:
			caller.FireAndForget(context.Background(), p)
		case 2:
			caller.RequestStream(context.Background(), p).Subscribe(flux.Subscribe[payload.Payload]{})
		case 3:
			caller.RequestChannel(context.Background(), p, flux.FromSlice([]payload.Payload{})).Subscribe(flux.Subscribe[payload.Payload]{})
		}
		vnd.Quiesce()
	}
	if server {
		r := rsocket.NewTCPConn(&wire{buf: c.buf, end: len(c.buf), tail: io.EOF})
		for {
			f, err := r.Read()
			if err != nil {
				break
			}
			note(f)
		}
	}
	seen := map[uint32]bool{}
	var last uint32
	for i, id := range ids {
		vnd.Assert(id != 0 && id>>31 == 0, "an id is not zero and has 31 bits")
		vnd.Assert(id&1 == parity, "clients use odd ids and servers even ones")
		if i == 0 || id != last {
			vnd.Assert(!seen[id], "each call has its own id")
		}
		seen[id], last = true, id
	}
	vnd.Assert(len(seen) == 3, "each call has its own id")
	vnd.Reach("end")
}
