package hwasm

import (
	"context"
	"encoding/binary"
	"time"

	"github.com/tetratelabs/wazero"
	"github.com/tetratelabs/wazero/api"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/vnd"
	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/wasmrs/mesh"
)

var requestTypes = [4]frames.FrameType{frames.FrameTypeRequestResponse, frames.FrameTypeRequestFNF, frames.FrameTypeRequestStream, frames.FrameTypeRequestChannel}
var operationTypes = [4]operations.RequestType{operations.RequestResponse, operations.FireAndForget, operations.RequestStream, operations.RequestChannel}

// request is a request that reached a module.
type request struct {
	kind int
	id   uint32
	op   uint32
	data []byte
}

// peer is a module of a mesh: it records the requests it gets and answers them with its mark.
type peer struct {
	*script
	mark     byte
	requests []request
	replies  []frames.Frame // to requests of its own
	queue    []frames.Frame // to send when it is called next
}

func newPeer(mark byte, ops ...operations.Operation) *peer {
	p := &peer{script: newScript(), mark: mark}
	p.ops = ops
	p.onFrame = func(b []byte) {
		p.mu.Lock()
		defer p.mu.Unlock()
		h, rest := parse(b)
		for k, t := range requestTypes {
			if h.Type() != t {
				continue
			}
			var r frames.RequestPayload
			vnd.Assert(r.Decode(&h, rest) == nil && len(r.Metadata) >= 8, "a request is well-formed")
			p.requests = append(p.requests, request{k, h.StreamID(), binary.BigEndian.Uint32(r.Metadata), r.Data})
			if k != kindFNF {
				p.queue = append(p.queue, &frames.Payload{StreamID: h.StreamID(), Data: []byte{p.mark}, Next: true, Complete: true})
			}
			return
		}
		if h.StreamID()&1 == 1 {
			switch h.Type() {
			case frames.FrameTypePayload:
				var f frames.Payload
				vnd.Assert(f.Decode(&h, rest) == nil, "a reply is well-formed")
				p.replies = append(p.replies, &f)
			case frames.FrameTypeError:
				p.replies = append(p.replies, &frames.Error{})
			}
		}
	}
	p.after = func() {
		p.mu.Lock()
		q := p.queue
		p.queue = nil
		p.mu.Unlock()
		for _, f := range q {
			p.send(f)
		}
	}
	return p
}

func export(index uint32, kind int, namespace, operation string) operations.Operation {
	return operations.Operation{Index: index, Type: operationTypes[kind], Direction: operations.Export, Namespace: namespace, Operation: operation}
}

func imports(index uint32, kind int, namespace, operation string) operations.Operation {
	return operations.Operation{Index: index, Type: operationTypes[kind], Direction: operations.Import, Namespace: namespace, Operation: operation}
}

// register makes the peer what the file contains, and returns the file's path.
func register(name string, p *peer) string {
	if wazero.Modules == nil {
		wazero.Modules = map[string]func(map[string]map[string]api.GoFunction) *wazero.Guest{}
	}
	wazero.Modules[name] = p.module
	return vnd.File(name, []byte(name))
}

// use makes the peer call an operation that it imports, and returns what comes back.
func (p *peer) use(kind int, index uint32, stream uint32, data byte) []frames.Frame {
	before := len(p.answers())
	r := &frames.RequestPayload{FrameType: requestTypes[kind], StreamID: stream, Metadata: metadata(index), Data: []byte{data}, InitialN: 10, Complete: kind != kindRC}
	p.send(r)
	vnd.Quiesce()
	return p.answers()[before:]
}

func (p *peer) answers() []frames.Frame {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.replies
}

func (p *peer) take() []request {
	p.mu.Lock()
	defer p.mu.Unlock()
	r := p.requests
	p.requests = nil
	return r
}

func reset() { wazero.Modules = nil }

// A call through an import reaches the operation of that kind, namespace and name, whatever else
// is exported and in whatever order the modules are loaded; the rest stays unlinked.
//
//verif:harness C39 mods=wazero,color,table budget=60 t.budget=500
func H_C39_link() {
	reset()
	kind := vnd.Choice("kind", 4)
	other := func(name string) int {
		if vnd.Bool(name) {
			return (kind + 1) % 4
		}
		return kind
	}
	ns, op := "n", "o"
	// What the modules export besides, and what is imported.
	kind2, ns2, op2 := other("kind of the second"), string(vnd.BytesN("namespace of the second", 1)), string(vnd.BytesN("name of the second", 1))
	vnd.Assume(kind2 != kind || ns2 != ns || op2 != op)
	kindI, nsI, opI := other("kind of the import"), string(vnd.BytesN("namespace of the import", 1)), string(vnd.BytesN("name of the import", 1))
	index, index2, indexI, indexJ := vnd.U32("index"), vnd.U32("index of the second"), vnd.U32("index of the import"), vnd.U32("index of the other import")
	vnd.Assume(indexI != indexJ)

	a := newPeer('a', export(index, kind, ns, op))
	b := newPeer('b')
	if vnd.Bool("second module") {
		b.ops = operations.Table{export(index2, kind2, ns2, op2)}
	} else {
		a.ops = append(a.ops, export(index2, kind2, ns2, op2))
	}
	c := newPeer('c', imports(indexI, kindI, nsI, opI), imports(indexJ, kind, "n", "o"))
	files := []string{register("a", a), register("b", b), register("c", c)}
	order := [][]int{{0, 1, 2}, {2, 1, 0}, {1, 2, 0}, {0, 2, 1}, {1, 0, 2}, {2, 0, 1}}[vnd.Choice("order", tier(3, 6))]
	m := mesh.New()
	ctx := context.Background()
	for _, i := range order {
		_, err := m.LoadModule(ctx, files[i])
		vnd.Assert(err == nil, "a module is loaded")
	}

	x := vnd.U8("data")
	// check looks where a call of the given operation went.
	check := func(k int, namespace, operation string, replies []frames.Frame) {
		ra, rb := a.take(), b.take()
		vnd.Assert(len(c.take()) == 0, "a module that exports nothing is not called")
		var want request
		var got []request
		var mark byte
		switch {
		case k == kind && namespace == ns && operation == op:
			want, got, mark = request{kind, 0, index, nil}, ra, 'a'
			vnd.Assert(len(rb) == 0, "no other module is called")
			vnd.Reach("first")
		case k == kind2 && namespace == ns2 && operation == op2 && len(b.ops) > 0:
			want, got, mark = request{kind2, 0, index2, nil}, rb, 'b'
			vnd.Assert(len(ra) == 0, "no other module is called")
			vnd.Reach("second module")
		case k == kind2 && namespace == ns2 && operation == op2:
			want, got, mark = request{kind2, 0, index2, nil}, ra, 'a'
			vnd.Assert(len(rb) == 0, "no other module is called")
			vnd.Reach("second operation")
		default:
			vnd.Assert(len(ra) == 0 && len(rb) == 0, "an import without a matching export reaches nothing")
			if k != kindFNF && replies != nil {
				vnd.Assert(len(replies) == 1 && replies[0].Type() == frames.FrameTypeError, "it fails")
			}
			vnd.Reach("unlinked")
			return
		}
		vnd.Assert(len(got) == 1, "the module is called once")
		vnd.Assert(got[0].kind == want.kind && got[0].op == want.op, "its operation is the one asked for")
		vnd.Assert(len(got[0].data) == 1 && got[0].data[0] == x, "with the data of the call")
		if k != kindFNF && replies != nil {
			vnd.Assert(len(replies) >= 1, "the reply arrives")
			p, ok := replies[0].(*frames.Payload)
			vnd.Assert(ok && len(p.Data) == 1 && p.Data[0] == mark, "it is that of the operation")
		}
	}
	check(kind, "n", "o", append([]frames.Frame{}, c.use(kind, indexJ, 1, x)...))
	check(kindI, nsI, opI, append([]frames.Frame{}, c.use(kindI, indexI, 3, x)...))

	// The same through the mesh itself.
	p := payload.New([]byte{x}, metadata(0))
	var got []payload.Payload
	s := flux.Subscribe[payload.Payload]{OnNext: func(p payload.Payload) { got = append(got, p) }}
	switch kindI {
	case kindRR:
		if r := m.RequestResponse(ctx, nsI, opI, p); r != nil {
			r.Subscribe(mono.Subscribe[payload.Payload]{OnSuccess: s.OnNext})
		}
	case kindFNF:
		m.FireAndForget(ctx, nsI, opI, p)
	case kindRS:
		if r := m.RequestStream(ctx, nsI, opI, p); r != nil {
			r.Subscribe(s)
		}
	case kindRC:
		if r := m.RequestChannel(ctx, nsI, opI, p, flux.FromSlice([]payload.Payload{})); r != nil {
			r.Subscribe(s)
		}
	}
	vnd.Quiesce()
	check(kindI, nsI, opI, nil)
}

// A module that is loaded again takes the place of its earlier instance for every import.
//
//verif:harness C39 mods=wazero,color,table budget=60 t.budget=500
func H_C39_reload() {
	reset()
	kind := vnd.Choice("kind", 4)
	index, index2 := vnd.U32("index"), vnd.U32("index of the new instance")
	keeps := vnd.Bool("keeps the operation")
	a := newPeer('a', export(index, kind, "n", "o"))
	a2 := newPeer('A')
	if keeps {
		a2.ops = operations.Table{export(index2, kind, "n", "o")}
	}
	c := newPeer('c', imports(0, kind, "n", "o"))
	c2 := newPeer('C', imports(1, kind, "n", "o"))
	m := mesh.New()
	ctx := context.Background()
	load := func(name string, p *peer) {
		_, err := m.LoadModule(ctx, register(name, p))
		vnd.Assert(err == nil, "a module is loaded")
	}
	user, at := c, uint32(0)
	switch vnd.Choice("history", 4) {
	case 0:
		load("a", a)
		load("c", c)
		load("a", a2)
	case 1:
		load("c", c)
		load("a", a)
		load("a", a2)
	case 2:
		load("a", a)
		load("a", a2)
		load("c", c)
	case 3:
		load("a", a)
		load("c", c)
		load("c", c2)
		load("a", a2)
		user, at = c2, 1
	}
	x := vnd.U8("data")
	replies := user.use(kind, at, 1, x)
	vnd.Assert(len(a.take()) == 0, "the earlier instance is not called")
	got := a2.take()
	if keeps {
		vnd.Assert(len(got) == 1 && got[0].kind == kind && got[0].op == index2 && got[0].data[0] == x, "the new instance is called")
		vnd.Reach("new instance")
	} else {
		vnd.Assert(len(got) == 0, "an operation that is gone is not called")
		if kind != kindFNF {
			vnd.Assert(len(replies) == 1 && replies[0].Type() == frames.FrameTypeError, "a call of it fails")
		}
		vnd.Reach("gone")
	}
	if vnd.Symbolic() {
		// The earlier instances get closed.
		time.Sleep(time.Minute)
		user.use(kind, at, 3, x)
		vnd.Assert(len(a2.take()) == len(got), "later calls go the same way")
	}
}

// A module that calls what it imports while the exporting module is being loaded gets an error or
// the result.
//
//verif:harness C39 mods=wazero,color,table switches=2 t.switches=3 raceviol instr=transport/wasmrs/host,transport/wasmrs/mesh budget=20 t.budget=300
func H_C39_early() {
	reset()
	kind := vnd.Choice("kind", 4)
	a := newPeer('a', export(0, kind, "n", "o"))
	c := newPeer('c', imports(0, kind, "n", "o"))
	m := mesh.New()
	ctx := context.Background()
	_, err := m.LoadModule(ctx, register("c", c))
	vnd.Assert(err == nil, "a module is loaded")
	file := register("a", a)
	go c.send(&frames.RequestPayload{FrameType: requestTypes[kind], StreamID: 1, Metadata: metadata(0), Data: []byte{1}, InitialN: 10, Complete: kind != kindRC})
	_, err = m.LoadModule(ctx, file)
	vnd.Assert(err == nil, "a module is loaded")
	vnd.Quiesce()
	got, replies := a.take(), c.answers()
	if len(got) == 0 {
		if kind != kindFNF {
			vnd.Assert(len(replies) == 1 && replies[0].Type() == frames.FrameTypeError, "an early call fails")
		}
		vnd.Reach("early")
		return
	}
	vnd.Assert(len(got) == 1 && got[0].kind == kind, "a call arrives once")
	if kind != kindFNF {
		vnd.Assert(len(replies) >= 1, "the reply arrives")
		p, ok := replies[0].(*frames.Payload)
		vnd.Assert(ok && len(p.Data) == 1 && p.Data[0] == 'a', "it is that of the operation")
	}
	vnd.Reach("in time")
}

// Calls made with one payload reach each the operation that it names.
//
//verif:harness C39 mods=wazero,color,table budget=60 t.budget=500
func H_C39_payload() {
	reset()
	k := [2]int{vnd.Choice("kind", 4), vnd.Choice("kind of the second", 4)}
	index := [2]uint32{vnd.U32("index"), vnd.U32("index of the second")}
	a := newPeer('a', export(index[0], k[0], "n", "o"), export(index[1], k[1], "n", "p"))
	m := mesh.New()
	ctx := context.Background()
	_, err := m.LoadModule(ctx, register("a", a))
	vnd.Assert(err == nil, "a module is loaded")
	p := payload.New([]byte{vnd.U8("data")}, vnd.Bytes("metadata", 16))
	before := append([]byte{}, p.Metadata()...)
	var start []func()
	for i, name := range []string{"o", "p"} {
		switch k[i] {
		case kindRR:
			r := m.RequestResponse(ctx, "n", name, p)
			start = append(start, func() { r.Subscribe(mono.Subscribe[payload.Payload]{}) })
		case kindFNF:
			m.FireAndForget(ctx, "n", name, p)
		case kindRS:
			r := m.RequestStream(ctx, "n", name, p)
			start = append(start, func() { r.Subscribe(flux.Subscribe[payload.Payload]{}) })
		case kindRC:
			r := m.RequestChannel(ctx, "n", name, p, flux.FromSlice([]payload.Payload{}))
			start = append(start, func() { r.Subscribe(flux.Subscribe[payload.Payload]{}) })
		}
	}
	for _, f := range start {
		f()
	}
	vnd.Quiesce()
	vnd.EqBytes(p.Metadata(), before, "the caller's metadata stays as it is")
	got := a.take()
	vnd.Assert(len(got) == 2, "both calls arrive")
	seen := [2]int{}
	for _, r := range got {
		for i := range k {
			if r.kind == k[i] && r.op == index[i] {
				seen[i]++
				break
			}
		}
	}
	if k[0] == k[1] && index[0] == index[1] {
		vnd.Assert(seen[0] == 2, "each call reaches its operation")
	} else {
		vnd.Assert(seen[0] == 1 && seen[1] == 1, "each call reaches its operation")
	}
	vnd.Reach("arrived")
}
