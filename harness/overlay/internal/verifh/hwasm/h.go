// Package hwasm holds the harnesses for the wasm host, guest and mesh (C36, C39). wazero is
// replaced by harness/mods/wazero: modules are Go code with real byte slices for memory.
package hwasm

import (
	"context"

	"sync"

	"github.com/tetratelabs/wazero"
	"github.com/tetratelabs/wazero/api"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/vnd"
	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/transport/wasmrs/host"
)

func tier(quick, thorough int) int {
	if vnd.Thorough() {
		return thorough
	}
	return quick
}

const memSize = 64 * 1024

// script is a guest that keeps what it receives and sends what it is told to.
type script struct {
	host            map[string]map[string]api.GoFunction
	ctx             context.Context // that of the call in progress
	mem             []byte
	inSize, outSize uint32 // of the buffers, as the host asked for
	inPtr, outPtr   uint32
	noBuffers       bool
	opPtr, opSize   uint32
	ops             operations.Table
	rawOps          bool
	got             [][]byte
	transfers       int
	onFrame         func(f []byte)
	after           func()
	mu              sync.Mutex
}

func newScript() *script {
	return &script{mem: make([]byte, memSize), inPtr: 1024, outPtr: 32 * 1024}
}

func (s *script) call(name string, params ...uint64) { s.host["wasmrs"][name].Call(s.ctx, params) }

func (s *script) module(h map[string]map[string]api.GoFunction) *wazero.Guest {
	s.host = h
	return &wazero.Guest{
		Memory: &wazero.Memory{Segments: []wazero.Segment{{Base: 0, Buf: s.mem}}, Total: memSize},
		Functions: map[string]func(context.Context, []uint64) ([]uint64, error){
			"__wasmrs_init": func(ctx context.Context, p []uint64) ([]uint64, error) {
				s.ctx = ctx
				s.inSize, s.outSize = uint32(p[0]), uint32(p[1])
				if !s.noBuffers {
					s.call("__init_buffers", uint64(s.inPtr), uint64(s.outPtr))
				}
				return []uint64{1}, nil
			},
			"__wasmrs_op_list_request": func(ctx context.Context, _ []uint64) ([]uint64, error) {
				s.ctx = ctx
				if !s.rawOps {
					b := s.ops.ToBytes()
					s.opPtr, s.opSize = 56*1024, uint32(len(b))
					copy(s.mem[s.opPtr:], b)
				}
				s.call("__op_list", uint64(s.opPtr), uint64(s.opSize))
				return nil, nil
			},
			"__wasmrs_send": func(ctx context.Context, p []uint64) ([]uint64, error) {
				s.ctx = ctx
				s.receive(uint32(p[0]))
				return nil, nil
			},
		},
	}
}

// receive takes the frames of a transfer apart, as the protocol describes them.
func (s *script) receive(n uint32) {
	vnd.Assert(n <= s.inSize, "a transfer fits the guest's buffer")
	s.mu.Lock()
	s.transfers++
	s.mu.Unlock()
	in := s.mem[s.inPtr : s.inPtr+s.inSize]
	for at := uint32(0); at < n; {
		vnd.Assert(n-at >= 3, "a transfer ends with a frame")
		l := uint32(in[at])<<16 | uint32(in[at+1])<<8 | uint32(in[at+2])
		vnd.Assert(l <= n-at-3, "a frame is transferred whole")
		f := append([]byte(nil), in[at+3:at+3+l]...)
		s.mu.Lock()
		s.got = append(s.got, f)
		s.mu.Unlock()
		at += 3 + l
		if s.onFrame != nil {
			s.onFrame(f)
		}
	}
	// What is done with the buffer afterwards is the guest's business.
	in[0], in[3], in[9] = ^in[0], ^in[3], ^in[9]
	if s.after != nil {
		s.after()
	}
}

// send transfers frames to the host.
func (s *script) send(fs ...frames.Frame) {
	out := s.mem[s.outPtr : s.outPtr+s.outSize]
	at := uint32(0)
	for _, f := range fs {
		l := f.Size()
		out[at], out[at+1], out[at+2] = byte(l>>16), byte(l>>8), byte(l)
		f.Encode(out[at+3 : at+3+l])
		at += 3 + l
	}
	s.call("__send", uint64(at))
	// The guest reuses its buffer.
	for _, i := range []int{0, 1, 2, 3, 7, 8, 9, 12, 13, 14, 15, 16, 17, 20, 30} {
		out[i] ^= 0xA5
	}
}

func encoded(f frames.Frame) []byte {
	b := make([]byte, f.Size())
	f.Encode(b)
	return b
}

// load instantiates the scripted guest.
func load(s *script) (*host.Instance, error) {
	wazero.Modules = map[string]func(map[string]map[string]api.GoFunction) *wazero.Guest{"guest": s.module}
	ctx := context.Background()
	h, err := host.New(ctx)
	if err != nil {
		return nil, err
	}
	m, err := h.Compile(ctx, []byte("guest"))
	if err != nil {
		return nil, err
	}
	return m.Instantiate(ctx)
}

func mustLoad(s *script) *host.Instance {
	inst, err := load(s)
	vnd.Assert(err == nil && inst != nil, "a well-behaved module is instantiated")
	return inst
}

// Frames of any size sent by the host arrive in the guest as they are, or are refused.
//
//verif:harness C36 mods=wazero budget=40 t.budget=400
func H_C36_to_guest() {
	s := newScript()
	inst := mustLoad(s)
	n := tier(2, 3)
	var want [][]byte
	for i := 0; i < n; i++ {
		f := &frames.Payload{StreamID: vnd.U32("id"), Metadata: vnd.BytesN("metadata", 2), Data: vnd.Bytes("data", 17000), Next: true, Complete: vnd.Bool("complete")}
		fits := f.Size()+3 <= s.inSize
		b := encoded(f)
		err := inst.SendFrame(f)
		if fits {
			vnd.Assert(err == nil, "a frame that fits is sent")
			want = append(want, b)
		} else {
			vnd.Assert(err != nil, "a frame that does not fit is refused")
			vnd.Reach("refused")
		}
		if i+1 < n && vnd.Bool("settle") {
			vnd.Quiesce()
		}
	}
	vnd.Quiesce()
	s.mu.Lock()
	defer s.mu.Unlock()
	vnd.Assert(len(s.got) == len(want), "every frame arrives once")
	for i := range want {
		vnd.EqBytes(s.got[i], want[i], "a frame arrives as it was sent, in order")
	}
	vnd.Reach("arrived")
}

// Frames of any kind from concurrent senders arrive whole, once, and in the order of their sender.
//
//verif:harness C36 mods=wazero switches=2 t.switches=3 instr=transport/wasmrs/host budget=20 t.budget=300
func H_C36_senders() {
	s := newScript()
	inst := mustLoad(s)
	n := [2]int{2, tier(1, 2)}
	var want [2][][]byte
	var wg sync.WaitGroup
	for k := range want {
		k := k
		var fs []frames.Frame
		for i := 0; i < n[k]; i++ {
			id := uint32(100*(k+1) + i) // tells the frame
			var f frames.Frame
			switch vnd.Choice("kind", tier(3, 5)) {
			case 0:
				f = &frames.Payload{StreamID: id, Metadata: vnd.BytesN("metadata", 1), Data: vnd.BytesN("data", 5), Next: true}
			case 1:
				f = &frames.Cancel{StreamID: id}
			case 2:
				f = &frames.Payload{StreamID: id, Data: make([]byte, 9000), Next: true}
			case 3:
				f = &frames.RequestN{StreamID: id, N: vnd.U32("n")}
			case 4:
				f = &frames.Error{StreamID: id, Code: frames.ErrCode(vnd.U32("code")), Data: "error"}
			}
			fs = append(fs, f)
			want[k] = append(want[k], encoded(f))
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, f := range fs {
				vnd.Assert(inst.SendFrame(f) == nil, "a frame that fits is sent")
			}
		}()
	}
	wg.Wait()
	vnd.Quiesce()
	s.mu.Lock()
	defer s.mu.Unlock()
	vnd.Assert(len(s.got) == n[0]+n[1], "every frame arrives once")
	var at [2]int
	for _, b := range s.got {
		h, _ := parse(b)
		k := int(h.StreamID()/100) - 1
		vnd.Assert(k >= 0 && k < 2 && at[k] < n[k], "every frame arrives once")
		vnd.EqBytes(b, want[k][at[k]], "a frame arrives as it was sent, in the order of its sender")
		at[k]++
	}
	vnd.Reach("arrived")
}
