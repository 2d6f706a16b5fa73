// Package hconn holds the harnesses for the framed connection (C06, C07).
package hconn

import (
	"errors"
	"io"
	"net"
	"time"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/vnd"
	"github.com/nanobus/iota/go/transport/rsocket"
)

// wire is a connection that keeps what is written and hands it out in arbitrary portions.
type wire struct {
	buf    []byte
	off    int
	end    int   // bytes that ever arrive
	cuts   []int // portion sizes to deliver first
	tail   error // what comes after the last byte
	joined bool  // the last portion comes together with tail
	closed bool
}

func (w *wire) Write(p []byte) (int, error) {
	w.buf = append(w.buf, p...)
	return len(p), nil
}

func (w *wire) Read(p []byte) (int, error) {
	left := w.end - w.off
	if left <= 0 {
		return 0, w.tail
	}
	n := left
	if len(w.cuts) > 0 {
		if w.cuts[0] < n {
			n = w.cuts[0]
		}
		w.cuts = w.cuts[1:]
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p[:n], w.buf[w.off:w.off+n])
	w.off += n
	if w.joined && w.off >= w.end {
		return n, w.tail
	}
	return n, nil
}

func (w *wire) Close() error                       { w.closed = true; return nil }
func (w *wire) LocalAddr() net.Addr                { return nil }
func (w *wire) RemoteAddr() net.Addr               { return nil }
func (w *wire) SetDeadline(t time.Time) error      { return nil }
func (w *wire) SetReadDeadline(t time.Time) error  { return nil }
func (w *wire) SetWriteDeadline(t time.Time) error { return nil }

// part is a body part of one of a few sizes with arbitrary contents.
func part(name string, sizes ...int) []byte {
	return vnd.BytesN(name, sizes[vnd.Choice(name+".size", len(sizes))])
}

func anyFrame(kinds int, md, data []int) frames.Frame {
	switch vnd.Choice("kind", kinds) {
	case 0:
		return &frames.Payload{StreamID: vnd.U32("id"), Metadata: part("metadata", md...), Data: part("data", data...), Next: true}
	case 1:
		return &frames.Cancel{StreamID: vnd.U32("id")}
	case 2:
		return &frames.RequestPayload{FrameType: frames.FrameTypeRequestChannel, StreamID: vnd.U32("id"), Metadata: part("metadata", md...), Data: part("data", data...), InitialN: vnd.U32("n"), Complete: true}
	case 3:
		return &frames.RequestPayload{FrameType: frames.FrameTypeRequestResponse, StreamID: vnd.U32("id"), Metadata: part("metadata", md...), Data: part("data", data...), InitialN: 1, Complete: true}
	case 4:
		return &frames.RequestN{StreamID: vnd.U32("id"), N: vnd.U32("n")}
	}
	return &frames.Error{StreamID: vnd.U32("id"), Code: frames.ErrCode(vnd.U32("code")), Data: string(part("data", data...))}
}

// same asserts that g, the frame received, is the frame f that was sent.
func same(f, g frames.Frame) {
	vnd.Assert(g.Type() == f.Type(), "the frame type")
	vnd.Assert(g.GetStreamID() == f.GetStreamID()&0x7FFFFFFF, "the stream id")
	switch a := f.(type) {
	case *frames.Payload:
		b, ok := g.(*frames.Payload)
		vnd.Assert(ok, "a payload frame")
		vnd.Assert(a.Complete == b.Complete && a.Next == b.Next, "the flags")
		vnd.EqBytes(b.Metadata, a.Metadata, "the metadata arrives as sent")
		vnd.EqBytes(b.Data, a.Data, "the data arrives as sent")
	case *frames.RequestPayload:
		b, ok := g.(*frames.RequestPayload)
		vnd.Assert(ok, "a request frame")
		vnd.Assert(a.InitialN == b.InitialN && a.Complete == b.Complete, "the demand and the flags")
		vnd.EqBytes(b.Metadata, a.Metadata, "the metadata arrives as sent")
		vnd.EqBytes(b.Data, a.Data, "the data arrives as sent")
	case *frames.RequestN:
		b, ok := g.(*frames.RequestN)
		vnd.Assert(ok, "a demand frame")
		vnd.Assert(a.N == b.N, "the demand")
	case *frames.Cancel:
		_, ok := g.(*frames.Cancel)
		vnd.Assert(ok, "a cancel frame")
	case *frames.Error:
		b, ok := g.(*frames.Error)
		vnd.Assert(ok, "an error frame")
		vnd.Assert(a.Code == b.Code, "the code")
		vnd.EqStr(b.Data, a.Data, "the message")
	}
}

func send(w *wire, fs []frames.Frame) {
	c := rsocket.NewTCPConn(w)
	for _, f := range fs {
		vnd.Assert(c.Write(f) == nil, "a frame is written")
	}
	vnd.Assert(c.Flush() == nil, "the frames are flushed")
}

// receive reads n frames and asserts that they are the ones sent, also after the end of the stream.
func receive(w *wire, fs []frames.Frame) {
	r := rsocket.NewTCPConn(w)
	var got []frames.Frame
	for range fs {
		g, err := r.Read()
		vnd.Assert(err == nil, "a frame that was sent is received")
		got = append(got, g)
	}
	_, err := r.Read()
	vnd.Assert(err != nil, "nothing comes after the last whole frame")
	if w.end == len(w.buf) {
		vnd.Assert(errors.Is(err, w.tail), "the end of the stream comes after the last frame")
	}
	for i := range got {
		same(fs[i], got[i])
	}
}

func cut(w *wire, n int) {
	for i := 0; i < n; i++ {
		c := vnd.Int("cut")
		vnd.Assume(c >= 1 && c <= 1<<20)
		w.cuts = append(w.cuts, c)
	}
	w.joined = vnd.Bool("joined")
}

// Whatever the portions in which the bytes arrive, the frames are those sent, and stay as they are.
//
//verif:harness C06 budget=40 t.budget=400
func H_C06_chunks() {
	n, cuts := 2, 2
	if vnd.Thorough() {
		n, cuts = 3, 3
	}
	var fs []frames.Frame
	for i := 0; i < n; i++ {
		fs = append(fs, anyFrame(2, []int{0, 2}, []int{3}))
	}
	w := &wire{tail: io.EOF}
	send(w, fs)
	w.end = len(w.buf)
	cut(w, cuts)
	receive(w, fs)
	vnd.Reach("end")
}

// Every kind of frame, cut once anywhere.
//
//verif:harness C06 budget=40
func H_C06_kinds() {
	fs := []frames.Frame{anyFrame(6, []int{0, 3}, []int{0, 2}), &frames.Cancel{StreamID: vnd.U32("last")}}
	w := &wire{tail: io.EOF}
	send(w, fs)
	w.end = len(w.buf)
	cut(w, 1)
	receive(w, fs)
	vnd.Reach("end")
}

// A stream that ends anywhere gives the whole frames before that point, and then an error.
//
//verif:harness C06 budget=40
func H_C06_truncated() {
	fs := []frames.Frame{anyFrame(2, []int{1}, []int{0, 3}), anyFrame(2, []int{1}, []int{2})}
	w := &wire{tail: io.EOF}
	if vnd.Bool("reset") {
		w.tail = errors.New("connection reset")
	}
	send(w, fs)
	w.end = vnd.Range("end", 0, len(w.buf)-1)
	cut(w, 1)
	at, whole := 0, 0
	for _, f := range fs {
		at += 3 + int(f.Size())
		if at <= w.end {
			whole++
		}
	}
	receive(w, fs[:whole])
	if whole == 1 {
		vnd.Reach("one whole frame")
	}
}

// Frames larger than the buffers, at and around the sizes at which these fill up.
//
//verif:harness C06 budget=40 t.budget=300
func H_C06_large() {
	sizes := []int{8175, 8183, 8184, 8192, 16380, 20000}
	if vnd.Thorough() {
		sizes = append(sizes, 65535, 65536, 1<<20, 1<<24-7)
	}
	fs := []frames.Frame{
		&frames.Payload{StreamID: vnd.U32("id"), Data: vnd.BytesN("first", 5), Next: true},
		&frames.Payload{StreamID: vnd.U32("id"), Data: part("data", sizes...), Next: true},
		&frames.Payload{StreamID: vnd.U32("id"), Data: vnd.BytesN("last", 5), Complete: true},
	}
	w := &wire{tail: io.EOF, buf: make([]byte, 0, 1<<16)}
	send(w, fs)
	w.end = len(w.buf)
	receive(w, fs)
	vnd.Reach("end")
}

// big is a frame that claims a size.
type big struct{ size uint32 }

func (b *big) Type() frames.FrameType                             { return frames.FrameTypePayload }
func (b *big) Decode(h *frames.FrameHeader, payload []byte) error { return nil }
func (b *big) Encode(buf []byte)                                  {}
func (b *big) Size() uint32                                       { return b.size }
func (b *big) GetStreamID() uint32                                { return 1 }

// A frame whose size does not fit the length prefix is refused, and the connection goes on.
//
//verif:harness C06
func H_C06_oversize() {
	w := &wire{tail: io.EOF}
	c := rsocket.NewTCPConn(w)
	sz := vnd.U32("size")
	vnd.Assume(sz > 0xFFFFFF && sz < 1<<26)
	vnd.Assert(c.Write(&big{sz}) != nil, "a frame that is too long is refused")
	f := &frames.Payload{StreamID: vnd.U32("id"), Data: part("data", 3), Next: true}
	vnd.Assert(c.Write(f) == nil && c.Flush() == nil, "the next frame is written")
	w.end = len(w.buf)
	receive(w, []frames.Frame{f})
	vnd.Reach("end")
}

// Whatever bytes arrive, reading never panics, and gives the frames that are there.
//
//verif:harness C06 budget=40 t.budget=300
func H_C06_anybytes() {
	n := 16
	if vnd.Thorough() {
		n = 32
	}
	b := vnd.BytesN("bytes", n)
	w := &wire{buf: b, end: vnd.Range("end", 0, n), tail: io.EOF}
	cut(w, 1)
	r := rsocket.NewTCPConn(w)
	at := 0
	for i := 0; i < 4; i++ {
		g, err := r.Read()
		left := w.end - at
		if left < 3 {
			vnd.Assert(err != nil, "less than a length prefix is no frame")
			vnd.Reach("end of input")
			return
		}
		l := int(b[at])<<16 | int(b[at+1])<<8 | int(b[at+2])
		if l < frames.FrameHeaderLen || left < 3+l {
			vnd.Assert(err != nil, "a frame that is too short or incomplete is an error")
			vnd.Reach("bad frame")
			return
		}
		if err != nil {
			return // an unknown type or a malformed body (C02)
		}
		id := uint32(b[at+3])<<24 | uint32(b[at+4])<<16 | uint32(b[at+5])<<8 | uint32(b[at+6])
		vnd.Assert(g.GetStreamID() == id&0x7FFFFFFF, "the stream id of the frame that is there")
		vnd.Assert(uint8(g.Type()) == b[at+7]>>2, "the type of the frame that is there")
		vnd.Assert(int(g.Size()) <= l, "no frame is longer than its prefix says")
		vnd.Reach("frame")
		at += 3 + l
	}
}
