package hwasm

import (
	"context"
	"encoding/binary"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/vnd"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

func metadata(op uint32, rest ...byte) []byte {
	md := make([]byte, 8, 8+len(rest))
	binary.BigEndian.PutUint32(md, op)
	return append(md, rest...)
}

// parse takes a received frame apart.
func parse(b []byte) (frames.FrameHeader, []byte) {
	vnd.Assert(len(b) >= frames.FrameHeaderLen, "a frame has a header")
	return frames.ParseFrameHeader(b), b[frames.FrameHeaderLen:]
}

// Frames that the guest sends, in any batches, arrive in the host as they are, in order, and what
// has arrived stays as it is.
//
//verif:harness C36 mods=wazero budget=40 t.budget=400
func H_C36_to_host() {
	s := newScript()
	inst := mustLoad(s)
	n := 3
	anySize := vnd.Bool("any size")
	if anySize {
		n = 2
	}
	var items []*frames.Payload
	for i := 0; i < n; i++ {
		f := &frames.Payload{Next: true}
		if i == 0 && anySize {
			f.Data = vnd.Bytes("data", tier(300, 5000))
		} else {
			f.Data = vnd.BytesN("data", []int{0, 9}[vnd.Choice("size", 2)])
		}
		if !anySize && vnd.Bool("with metadata") {
			f.Metadata = vnd.BytesN("metadata", 2)
		}
		items = append(items, f)
	}
	items[n-1].Complete = true
	done := make([]bool, n) // a transfer ends after item i
	for i := range done {
		done[i] = i == n-1 || vnd.Bool("transfer")
	}
	s.onFrame = func(b []byte) {
		h, _ := parse(b)
		if h.Type() != frames.FrameTypeRequestStream {
			return
		}
		var batch []frames.Frame
		for i, f := range items {
			f.StreamID = h.StreamID()
			batch = append(batch, f)
			if done[i] {
				s.send(batch...)
				batch = nil
			}
		}
	}
	var got []payload.Payload
	completes, errs := 0, 0
	inst.RequestStream(context.Background(), payload.New([]byte("q"), metadata(0))).Subscribe(flux.Subscribe[payload.Payload]{
		OnNext:     func(p payload.Payload) { got = append(got, p) },
		OnComplete: func() { completes++ },
		OnError:    func(error) { errs++ },
	})
	vnd.Quiesce()
	vnd.Assert(len(s.got) == 1, "the request arrives")
	vnd.Assert(len(got) == n && completes == 1 && errs == 0, "every frame arrives once")
	for i, f := range items {
		vnd.EqBytes(got[i].Data(), f.Data, "the data of a frame arrives as sent, in order, and stays as it is")
		vnd.EqBytes(got[i].Metadata(), f.Metadata, "the metadata of a frame arrives as sent, in order, and stays as it is")
	}
	vnd.Reach("arrived")
}

// Requests of a guest arrive as they are, and what the host's handlers keep of them is not
// touched by later transfers.
//
//verif:harness C36 mods=wazero budget=40 t.budget=400
func H_C36_requests_kept() {
	s := newScript()
	inst := mustLoad(s)
	n := 2
	var got [2]payload.Payload
	for k := range got {
		k := k
		inst.SetFireAndForgetHandler(uint32(k), func(_ context.Context, p payload.Payload) { got[k] = p })
	}
	var reqs []frames.Frame
	var want []*frames.RequestPayload
	for k := 0; k < n; k++ {
		f := &frames.RequestPayload{FrameType: frames.FrameTypeRequestFNF, StreamID: uint32(2*k + 1), Metadata: append(metadata(uint32(k)), vnd.BytesN("metadata", 2)...), InitialN: 1, Complete: true}
		if k == 0 {
			f.Data = vnd.Bytes("data", tier(300, 5000))
		} else {
			f.Data = vnd.BytesN("data", 3)
		}
		reqs = append(reqs, f)
		want = append(want, f)
	}
	together := vnd.Bool("together")
	s.onFrame = func(b []byte) {
		if h, _ := parse(b); h.Type() != frames.FrameTypeRequestFNF {
			return
		}
		if together {
			s.send(reqs...)
		} else {
			s.send(reqs[0])
			s.send(reqs[1])
		}
	}
	inst.FireAndForget(context.Background(), payload.New(nil, metadata(0)))
	vnd.Quiesce()
	for k, f := range want {
		vnd.Assert(got[k] != nil, "the request arrives")
		vnd.EqBytes(got[k].Data(), f.Data, "the data of a request arrives as sent and stays as it is")
		vnd.EqBytes(got[k].Metadata(), f.Metadata, "the metadata of a request arrives as sent and stays as it is")
	}
	vnd.Reach("arrived")
}

// probe checks that both directions still work.
func probe(s *script, call func(context.Context, payload.Payload) mono.Mono[payload.Payload], set func(uint32, func(context.Context, payload.Payload) mono.Mono[payload.Payload])) {
	x := vnd.U8("probe")
	set(1, func(_ context.Context, p payload.Payload) mono.Mono[payload.Payload] {
		return mono.Just[payload.Payload](payload.New(append([]byte{x}, p.Data()...), nil))
	})
	answered := 0
	s.onFrame = func(b []byte) {
		h, rest := parse(b)
		switch {
		case h.Type() == frames.FrameTypeRequestResponse:
			s.send(&frames.RequestPayload{FrameType: frames.FrameTypeRequestResponse, StreamID: 999, Metadata: metadata(1), Data: []byte{7}, InitialN: 1, Complete: true})
			s.send(&frames.Payload{StreamID: h.StreamID(), Data: []byte{x, 8}, Next: true, Complete: true})
		case h.StreamID() == 999:
			var p frames.Payload
			vnd.Assert(h.Type() == frames.FrameTypePayload && p.Decode(&h, rest) == nil, "the guest's request is answered")
			vnd.Assert(len(p.Data) == 2 && p.Data[0] == x && p.Data[1] == 7, "with its result")
			answered++
		}
	}
	var got payload.Payload
	call(context.Background(), payload.New([]byte{1}, metadata(0))).Subscribe(mono.Subscribe[payload.Payload]{
		OnSuccess: func(p payload.Payload) { got = p },
	})
	vnd.Quiesce()
	vnd.Assert(got != nil && len(got.Data()) == 2 && got.Data()[0] == x && got.Data()[1] == 8, "a call is answered after what the guest did wrong")
	vnd.Assert(answered == 1, "the guest's call is answered after what it did wrong")
}

// Whatever a guest leaves in its buffer, and wherever it says that it ends, the host goes on.
//
//verif:harness C36 mods=wazero budget=40 t.budget=400
func H_C36_malformed() {
	s := newScript()
	inst := mustLoad(s)
	n := tier(13, 20)
	raw := vnd.BytesN("raw", n)
	end := vnd.U32("end")
	vnd.Assume(end <= uint32(n) || end > s.outSize || raw[0] != 0)
	sent := false
	s.onFrame = func([]byte) {
		if sent {
			return
		}
		sent = true
		copy(s.mem[s.outPtr:], raw)
		s.call("__send", uint64(end))
	}
	inst.FireAndForget(context.Background(), payload.New(nil, metadata(0)))
	vnd.Quiesce()
	vnd.Assert(sent, "the request arrives")
	probe(s, inst.RequestResponse, func(i uint32, h func(context.Context, payload.Payload) mono.Mono[payload.Payload]) {
		inst.SetRequestResponseHandler(i, h)
	})
	vnd.Reach("goes on")
}

// Wherever a guest says that its buffers and its operations are, the host does not crash.
//
//verif:harness C36 mods=wazero budget=40 t.budget=400
func H_C36_buffers() {
	s := newScript()
	switch vnd.Choice("wrong", 3) {
	case 0:
		s.noBuffers = true
	case 1:
		s.inPtr, s.outPtr = vnd.U32("in"), vnd.U32("out")
		s.onFrame = func([]byte) {}
	case 2:
		s.rawOps = true
		s.opSize = vnd.U32("size of operations")
		if vnd.Bool("inside") {
			s.opPtr = memSize - 24
			copy(s.mem[s.opPtr:], vnd.BytesN("raw", 24))
		} else {
			s.opPtr = vnd.U32("operations")
			vnd.Assume(s.opPtr > memSize || s.opSize > memSize-s.opPtr)
		}
	}
	overlap := s.inPtr < s.outPtr && s.outPtr-s.inPtr < 16*1024 || s.inPtr >= s.outPtr && s.inPtr-s.outPtr < 16*1024
	vnd.Assume(!overlap)
	inst, err := load(s)
	if err != nil {
		vnd.Reach("refused")
		return
	}
	vnd.Reach("taken")
	inst.FireAndForget(context.Background(), payload.New(nil, metadata(0)))
	vnd.Quiesce()
	if !s.noBuffers {
		vnd.Assert(len(s.got) == 1, "the request arrives")
	}
}
