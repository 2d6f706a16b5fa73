package hwasm

import (
	"sync"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/vnd"
)

// An instance is closed at any moment while frames are sent to its guest: it does not crash, what
// was sent before arrives, and what is sent afterwards is refused.
//
//verif:harness C40 mods=wazero switches=2 t.switches=3 raceviol instr=transport/wasmrs/host,internal/verifh/hwasm budget=60 t.budget=400
func H_C40_close() {
	s := newScript()
	if vnd.Bool("the guest answers") {
		s.after = func() { s.send(&frames.Cancel{StreamID: 77}, &frames.Payload{StreamID: 79, Data: []byte{1}, Next: true}) }
	}
	inst := mustLoad(s)
	var mu sync.Mutex
	closing := false
	var want [][]byte
	var wg sync.WaitGroup
	wg.Add(1)
	send := func(id uint32) {
		f := &frames.Payload{StreamID: id, Data: vnd.BytesN("data", 1), Next: true}
		err := inst.SendFrame(f)
		mu.Lock()
		defer mu.Unlock()
		vnd.Assert(err == nil || closing, "a frame is sent while the instance is open")
		if err == nil && !closing {
			want = append(want, encoded(f))
		}
	}
	go func() {
		defer wg.Done()
		send(1)
		send(3)
	}()
	if vnd.Bool("wait") {
		vnd.Quiesce()
	}
	mu.Lock()
	closing = true
	mu.Unlock()
	if vnd.Bool("twice at once") {
		wg.Add(1)
		go func() {
			defer wg.Done()
			inst.Close()
		}()
	}
	vnd.Assert(inst.Close() == nil, "closing succeeds")
	vnd.Assert(inst.SendFrame(&frames.Cancel{StreamID: 9}) != nil, "a closed instance refuses frames")
	wg.Wait()
	vnd.Assert(inst.Close() == nil, "closing again is harmless")
	vnd.Quiesce()
	s.mu.Lock()
	defer s.mu.Unlock()
	vnd.Assert(len(s.got) >= len(want), "what was sent before arrives")
	for i, b := range want {
		vnd.EqBytes(s.got[i], b, "what was sent before arrives, in order")
	}
	vnd.Reach("end")
}

// Calls of a closed instance end with an error; the guest may go on sending.
//
//verif:harness C40 mods=wazero budget=40 t.budget=200
func H_C40_calls() {
	s := newScript()
	inst := mustLoad(s)
	var pending, after outcome
	early := vnd.Bool("a call before")
	k := vnd.Choice("kind", 4)
	if early {
		call(inst, vnd.Choice("first kind", 4), []byte{1}, &pending)
		vnd.Quiesce()
		vnd.Assert(s.transfers > 0, "the call reaches the guest")
	}
	inst.Close()
	if vnd.Bool("settle") {
		vnd.Quiesce()
	}
	n := len(s.got)
	call(inst, k, vnd.BytesN("data", 2), &after)
	vnd.Quiesce()
	vnd.Assert(len(s.got) == n, "nothing is sent to the guest of a closed instance")
	if k != kindFNF {
		vnd.Assert(after.err == 1 && after.completes == 0 && len(after.got) == 0, "a call of a closed instance fails, once")
	}
	for i := vnd.Choice("more from the guest", tier(2, 3)); i > 0; i-- {
		s.send(&frames.Payload{StreamID: 2, Next: true, Complete: true}, &frames.Cancel{StreamID: 4})
	}
	vnd.Quiesce()
	vnd.Assert(pending.completes <= 1 && pending.err <= 1, "a call has one outcome")
	vnd.Reach("end")
}
