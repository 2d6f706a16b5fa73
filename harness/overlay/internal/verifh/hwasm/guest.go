package hwasm

import (
	"context"
	"unsafe"

	"github.com/tetratelabs/wazero"
	"github.com/tetratelabs/wazero/api"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/vnd"
	"github.com/nanobus/iota/go/internal/vndhook"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/wasmrs/guest"
	"github.com/nanobus/iota/go/transport/wasmrs/host"
)

const bufSize = 16 * 1024 // of the buffers between host and guest, by default

// realGuest is the guest package behind the functions of a wasm module.
func realGuest(h map[string]map[string]api.GoFunction) *wazero.Guest {
	w := h["wasmrs"]
	mem := &wazero.Memory{Total: memSize}
	var ctx context.Context
	at := func(p interface{}, size int) []byte {
		return unsafe.Slice((*byte)(unsafe.Pointer(p.(uintptr))), size)
	}
	var sizes [2]int
	vndhook.F = map[string]func(...interface{}){
		"initBuffers": func(a ...interface{}) {
			mem.Segments = []wazero.Segment{{Base: 1024, Buf: at(a[0], sizes[0])}, {Base: 24 * 1024, Buf: at(a[1], sizes[1])}}
			w["__init_buffers"].Call(ctx, []uint64{1024, 24 * 1024})
		},
		"opList": func(a ...interface{}) {
			n := a[1].(uint32)
			mem.Segments = append(mem.Segments, wazero.Segment{Base: 48 * 1024, Buf: at(a[0], int(n))})
			w["__op_list"].Call(ctx, []uint64{48 * 1024, uint64(n)})
			mem.Segments = mem.Segments[:2]
		},
		"hostSend": func(a ...interface{}) {
			w["__send"].Call(ctx, []uint64{uint64(a[0].(uint32))})
		},
	}
	return &wazero.Guest{
		Memory: mem,
		Functions: map[string]func(context.Context, []uint64) ([]uint64, error){
			"__wasmrs_init": func(c context.Context, p []uint64) ([]uint64, error) {
				ctx = c
				sizes = [2]int{int(p[0]), int(p[1])}
				guest.Init(uint32(p[0]), uint32(p[1]), uint32(p[2]))
				return []uint64{1}, nil
			},
			"__wasmrs_op_list_request": func(c context.Context, _ []uint64) ([]uint64, error) {
				ctx = c
				guest.OperationList()
				return nil, nil
			},
			"__wasmrs_send": func(c context.Context, p []uint64) ([]uint64, error) {
				ctx = c
				guest.GuestSend(uint32(p[0]))
				return nil, nil
			},
		},
	}
}

func loadReal() *host.Instance {
	wazero.Modules = map[string]func(map[string]map[string]api.GoFunction) *wazero.Guest{"guest": realGuest}
	ctx := context.Background()
	h, err := host.New(ctx)
	vnd.Assert(err == nil, "a host")
	m, err := h.Compile(ctx, []byte("guest"))
	vnd.Assert(err == nil, "a module")
	inst, err := m.Instantiate(ctx)
	vnd.Assert(err == nil && inst != nil, "the guest is instantiated")
	return inst
}

type caller interface {
	RequestResponse(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload]
	FireAndForget(ctx context.Context, p payload.Payload)
	RequestStream(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload]
	RequestChannel(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload]
}

const (
	kindRR = iota
	kindFNF
	kindRS
	kindRC
)

// service is what either side offers: it echoes.
type service struct {
	seen  int // requests that reached it
	data  []byte
	extra int // added to every item of a response
}

func (s *service) reply(p payload.Payload) payload.Payload {
	return payload.New(append(append([]byte{}, p.Data()...), make([]byte, s.extra)...), nil)
}

func (s *service) rr(_ context.Context, p payload.Payload) mono.Mono[payload.Payload] {
	s.seen++
	return mono.Just(s.reply(p))
}

func (s *service) fnf(_ context.Context, p payload.Payload) {
	s.seen++
	s.data = p.Data()
}

func (s *service) rs(_ context.Context, p payload.Payload) flux.Flux[payload.Payload] {
	s.seen++
	return flux.FromSlice([]payload.Payload{payload.New([]byte{1}, nil), s.reply(p), payload.New([]byte{2}, nil)})
}

func (s *service) rc(_ context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
	s.seen++
	return flux.Map[payload.Payload, payload.Payload](in, func(p payload.Payload) (payload.Payload, error) { return s.reply(p), nil })
}

type outcome struct {
	got            []payload.Payload
	completes, err int
}

// call makes a call and records what comes of it.
func call(c caller, kind int, data []byte, o *outcome) {
	ctx := context.Background()
	p := payload.New(data, metadata(0, 0, 0, 0, 0))
	sub := flux.Subscribe[payload.Payload]{
		OnNext:     func(p payload.Payload) { o.got = append(o.got, p) },
		OnComplete: func() { o.completes++ },
		OnError:    func(error) { o.err++ },
	}
	switch kind {
	case kindRR:
		c.RequestResponse(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
			OnSuccess: func(p payload.Payload) { o.got = append(o.got, p); o.completes++ },
			OnError:   func(error) { o.err++ },
		})
	case kindFNF:
		c.FireAndForget(ctx, p)
	case kindRS:
		c.RequestStream(ctx, p).Subscribe(sub)
	case kindRC:
		c.RequestChannel(ctx, payload.New(nil, metadata(0, 0, 0, 0, 0)), flux.FromSlice([]payload.Payload{payload.New([]byte{1}, nil), payload.New(data, nil)})).Subscribe(sub)
	}
}

// fitsRequest tells whether a request with the data, and fitsItem whether an item with n bytes of
// data fits a buffer.
func fitsRequest(kind int, data []byte) bool {
	t := []frames.FrameType{frames.FrameTypeRequestResponse, frames.FrameTypeRequestFNF, frames.FrameTypeRequestStream, frames.FrameTypeRequestChannel}[kind]
	if kind == kindRC {
		data = nil
	}
	r := frames.RequestPayload{FrameType: t, StreamID: 1, Metadata: metadata(0, 0, 0, 0, 0), Data: data, InitialN: 1}
	return r.Size()+3 <= bufSize
}

func fitsItem(n int) bool { return n+6+3 <= bufSize }

// Calls between a host and the guest package, in both directions, with data of any size, give the
// result, or an error if something does not fit.
//
//verif:harness C36 mods=wazero hook=transport/wasmrs/guest budget=60 t.budget=400
func H_C36_guest_calls() {
	kind := vnd.Choice("kind", 4)
	fromGuest := vnd.Bool("from guest")
	data := vnd.Bytes("data", 17000)
	vnd.Assume(vnd.Thorough() || len(data) < 4 || len(data) > 16300 && len(data) < 16400)
	extra := []int{0, 40}[vnd.Choice("extra", 2)]
	hostSide, guestSide := &service{extra: extra}, &service{extra: extra}
	invoke.ExportRequestResponse("test", "rr", guestSide.rr)
	invoke.ExportFireAndForget("test", "fnf", guestSide.fnf)
	invoke.ExportRequestStream("test", "rs", guestSide.rs)
	invoke.ExportRequestChannel("test", "rc", guestSide.rc)
	var o outcome
	invoke.ExportFireAndForget("test", "go", func(context.Context, payload.Payload) { call(guest.HostInvoker, kind, data, &o) })
	invoke.ImportRequestResponse("test", "rr")
	inst := loadReal()
	inst.SetRequestResponseHandler(0, hostSide.rr)
	inst.SetFireAndForgetHandler(0, hostSide.fnf)
	inst.SetRequestStreamHandler(0, hostSide.rs)
	inst.SetRequestChannelHandler(0, hostSide.rc)
	vnd.Assert(len(inst.Operations()) == 6, "the host learns the guest's operations")

	called := guestSide
	if fromGuest {
		called = hostSide
		inst.FireAndForget(context.Background(), payload.New(nil, metadata(1)))
	} else {
		call(inst, kind, data, &o)
	}
	vnd.Quiesce()

	size := len(data) + called.extra
	switch {
	case !fitsRequest(kind, data):
		vnd.Assert(called.seen == 0, "a request that does not fit does not arrive")
		if kind != kindFNF {
			vnd.Assert(len(o.got) == 0 && o.completes == 0 && o.err == 1, "a request that does not fit is an error")
		}
		vnd.Reach("request too large")
	case kind == kindFNF:
		vnd.Assert(called.seen == 1, "a request arrives")
		vnd.EqBytes(called.data, data, "its data is as sent")
		vnd.Reach("sent")
	case kind == kindRR:
		vnd.Assert(called.seen == 1, "a request arrives")
		if !fitsItem(size) {
			vnd.Assert(len(o.got) == 0 && o.completes == 0 && o.err == 1, "a response that does not fit is an error")
			vnd.Reach("response too large")
			break
		}
		vnd.Assert(len(o.got) == 1 && o.completes == 1 && o.err == 0, "a call returns its result")
		vnd.EqBytes(o.got[0].Data(), append(append([]byte{}, data...), make([]byte, called.extra)...), "the result is as sent")
		vnd.Reach("answered")
	default:
		vnd.Assert(called.seen == 1, "a request arrives")
		vnd.Assert(len(o.got) >= 1, "the first item arrives")
		first := []byte{1}
		if kind == kindRC {
			first = append(first, make([]byte, called.extra)...)
		}
		vnd.EqBytes(o.got[0].Data(), first, "the first item is as sent")
		if !fitsItem(size) {
			vnd.Assert(len(o.got) == 1 && o.completes == 0 && o.err == 1, "an item that does not fit is an error")
			vnd.Reach("item too large")
			break
		}
		vnd.Assert(o.completes == 1 && o.err == 0, "the stream completes")
		vnd.Assert(len(o.got) == map[int]int{kindRS: 3, kindRC: 2}[kind], "all items arrive")
		vnd.EqBytes(o.got[1].Data(), append(append([]byte{}, data...), make([]byte, called.extra)...), "an item is as sent")
		vnd.Reach("streamed")
	}

	// Further calls work.
	var after outcome
	if fromGuest {
		data, kind, o = []byte{vnd.U8("probe")}, kindRR, outcome{}
		inst.FireAndForget(context.Background(), payload.New(nil, metadata(1)))
		vnd.Quiesce()
		after = o
	} else {
		data = []byte{vnd.U8("probe")}
		call(inst, kindRR, data, &after)
		vnd.Quiesce()
	}
	vnd.Assert(len(after.got) == 1 && after.completes == 1 && after.err == 0, "a further call is answered")
	vnd.Assert(after.got[0].Data()[0] == data[0], "with its result")
}
