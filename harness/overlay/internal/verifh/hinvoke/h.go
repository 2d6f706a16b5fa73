// Package hinvoke holds the harnesses for the operation registry, instance handles and port
// messages (C21, C22, C23).
package hinvoke

import (
	"context"

	"github.com/nanobus/iota/go/internal/vnd"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

// ---- C21 ----

var called int // the marker of the last handler called

func export(kind int, ns, op string, marker int) {
	switch kind {
	case 0:
		invoke.ExportRequestResponse(ns, op, func(context.Context, payload.Payload) mono.Mono[payload.Payload] { called = marker; return nil })
	case 1:
		invoke.ExportFireAndForget(ns, op, func(context.Context, payload.Payload) { called = marker })
	case 2:
		invoke.ExportRequestStream(ns, op, func(context.Context, payload.Payload) flux.Flux[payload.Payload] { called = marker; return nil })
	case 3:
		invoke.ExportRequestChannel(ns, op, func(context.Context, payload.Payload, flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
			called = marker
			return nil
		})
	}
}

// lookup returns whether a handler is known and the marker it has.
func lookup(kind int, id uint32) (bool, int) {
	called = -1
	switch kind {
	case 0:
		h := invoke.GetRequestResponseHandler(id)
		if h == nil {
			return false, 0
		}
		h(nil, nil)
	case 1:
		h := invoke.GetFireAndForgetHandler(id)
		if h == nil {
			return false, 0
		}
		h(nil, nil)
	case 2:
		h := invoke.GetRequestStreamHandler(id)
		if h == nil {
			return false, 0
		}
		h(nil, nil)
	case 3:
		h := invoke.GetRequestChannelHandler(id)
		if h == nil {
			return false, 0
		}
		h(nil, nil, nil)
	}
	return true, called
}

func list(h invoke.Handlers, kind int) []invoke.HandlerInfo {
	return [4][]invoke.HandlerInfo{h.RequestResponse, h.FireAndForget, h.RequestStream, h.RequestChannel}[kind]
}

func imp(kind int, ns, op string) uint32 {
	switch kind {
	case 0:
		return invoke.ImportRequestResponse(ns, op)
	case 1:
		return invoke.ImportFireAndForget(ns, op)
	case 2:
		return invoke.ImportRequestStream(ns, op)
	}
	return invoke.ImportRequestChannel(ns, op)
}

type entry struct {
	kind   int
	ns, op string
}

func steps() int {
	if vnd.Thorough() {
		return 4
	}
	return 3
}

// Any sequence of exports of the four kinds, with any names, after none, 19 or 20 others.
//
//verif:harness C21 unroll=60
func H_C21_exports() {
	var base [4]int
	for k := range base {
		base[k] = len(list(invoke.GetOperations().Exported, k))
	}
	before := [3]int{0, 19, 20}[vnd.Choice("before", 3)]
	bk := vnd.Choice("kind before", 4)
	var es []entry
	for i := 0; i < before; i++ {
		es = append(es, entry{bk, "before", "op"})
		export(bk, "before", "op", i)
	}
	for i := 0; i < steps()-1; i++ {
		e := entry{vnd.Choice("kind", 4), vnd.String("ns", 8), vnd.String("op", 8)}
		export(e.kind, e.ns, e.op, len(es))
		es = append(es, e)
	}
	ops := invoke.GetOperations()
	total := 0
	for k := 0; k < 4; k++ {
		l := list(ops.Exported, k)
		for id := base[k]; id < len(l); id++ {
			total++
			ok, marker := lookup(k, uint32(id))
			vnd.Assert(ok && marker >= 0 && marker < len(es), "a listed operation has a handler")
			e := es[marker]
			vnd.Assert(e.kind == k, "the handler was exported for this interaction kind")
			vnd.EqStr(l[id].Namespace, e.ns, "the handler at a listed id was exported under the listed namespace")
			vnd.EqStr(l[id].Operation, e.op, "the handler at a listed id was exported under the listed name")
			es[marker].kind = -1 // each handler is listed once
		}
	}
	vnd.Assert(total == len(es), "every export is listed")
	id := vnd.U32("id")
	k := vnd.Choice("kind of id", 4)
	vnd.Assume(uint64(id) >= uint64(len(list(ops.Exported, k))))
	ok, _ := lookup(k, id)
	vnd.Assert(!ok, "an unknown id yields no handler")
	vnd.Reach("end")
}

// Any sequence of imports of the four kinds, with any names.
//
//verif:harness C21 unroll=60
func H_C21_imports() {
	var base [4]int
	for k := range base {
		base[k] = len(list(invoke.GetOperations().Imported, k))
	}
	before := [2]int{0, 20}[vnd.Choice("before", 2)]
	for i := 0; i < before; i++ {
		id := imp(0, "before", string(rune('A'+i)))
		vnd.Assert(list(invoke.GetOperations().Imported, 0)[id].Operation == string(rune('A'+i)), "the id indexes the listed operation")
	}
	es := make([]entry, steps())
	ids := make([]uint32, len(es))
	for i := range es {
		es[i] = entry{vnd.Choice("kind", 4), vnd.String("ns", 4), vnd.String("op", 4)}
		ids[i] = imp(es[i].kind, es[i].ns, es[i].op)
	}
	ops := invoke.GetOperations()
	for i, e := range es {
		l := list(ops.Imported, e.kind)
		vnd.Assert(uint64(ids[i]) < uint64(len(l)), "an import id is listed")
		vnd.EqStr(l[ids[i]].Namespace, e.ns, "an import id indexes the listed namespace")
		vnd.EqStr(l[ids[i]].Operation, e.op, "an import id indexes the listed name")
		for j := 0; j < i; j++ {
			if es[j].kind != e.kind {
				continue
			}
			if es[j].ns == e.ns && es[j].op == e.op {
				vnd.Assert(ids[i] == ids[j], "importing the same operation again gives the same id")
				vnd.Reach("same")
			} else {
				vnd.Assert(ids[i] != ids[j], "different imports have different ids")
				vnd.Reach("different")
			}
		}
	}
}

// ---- C22 ----

type inst struct{ n int }

// Any sequence of registering, resolving and removing, with issued and arbitrary handles.
//
//verif:harness C22
func H_C22_sequence() {
	t := invoke.NewLiveInstances[*inst]()
	var handles []uint64
	var insts []*inst
	var live []bool
	n := 4
	if vnd.Thorough() {
		n = 6
	}
	for i := 0; i < n; i++ {
		op := vnd.Choice("op", 3)
		if op == 0 {
			v := &inst{len(insts)}
			h := t.Put(v)
			for j := range handles {
				if live[j] {
					vnd.Assert(handles[j] != h, "two live instances have different handles")
				}
			}
			handles, insts, live = append(handles, h), append(insts, v), append(live, true)
			continue
		}
		k := vnd.Choice("which", len(handles)+1)
		var h uint64
		want := -1
		if k < len(handles) {
			h = handles[k]
			if live[k] {
				want = k
			}
		} else {
			h = vnd.U64("handle")
			for j := range handles {
				vnd.Assume(handles[j] != h)
			}
		}
		var v *inst
		var ok bool
		if op == 1 {
			v, ok = t.Get(h)
		} else {
			v, ok = t.Remove(h)
		}
		if want < 0 {
			vnd.Assert(!ok, "a handle that was removed or never issued resolves to nothing")
			vnd.Assert(v == nil, "nothing comes with a failed lookup")
			vnd.Reach("unknown")
		} else {
			vnd.Assert(ok && v == insts[want], "a live handle resolves to its instance")
			vnd.Reach("live")
			if op == 2 {
				live[want] = false
			}
		}
	}
	// Nothing else changed.
	for j := range handles {
		v, ok := t.Get(handles[j])
		vnd.Assert(ok == live[j], "exactly the live handles resolve")
		if ok {
			vnd.Assert(v == insts[j], "a live handle resolves to its instance")
		}
	}
}

// A removed handle stays dead when memory is collected and used again.
//
//verif:harness C22
func H_C22_reuse() {
	t := invoke.NewLiveInstances[*inst]()
	n, m := 1, 2
	if !vnd.Symbolic() {
		n, m = 100, 20000
	}
	old := make([]uint64, n)
	for i := range old {
		old[i] = t.Put(&inst{i})
	}
	for i := range old {
		t.Remove(old[i])
	}
	vnd.Collect()
	for i := 0; i < m; i++ {
		t.Put(&inst{1000 + i})
	}
	for i := range old {
		_, ok := t.Get(old[i])
		vnd.Assert(!ok, "a removed handle resolves to nothing afterwards")
	}
	vnd.Reach("end")
}

// ---- C23 ----

//verif:harness C23
func H_C23_roundtrip() {
	p := &invoke.PortIO{Port: vnd.String("port", 65535), Data: vnd.Bytes("data", 1<<24), Complete: vnd.Bool("complete"), Next: vnd.Bool("next")}
	b := p.Encode()
	var g invoke.PortIO
	vnd.Assert(g.Decode(b) == nil, "the encoding is accepted")
	vnd.EqStr(g.Port, p.Port, "port")
	vnd.EqBytes(g.Data, p.Data, "data")
	vnd.Assert(g.Complete == p.Complete, "the complete mark")
	vnd.Assert(g.Next == p.Next, "the next mark")
	vnd.Reach("end")
}

//verif:harness C23
func H_C23_any() {
	b := vnd.Bytes("b", 1<<20)
	vnd.AllocLimit(1<<20 + 16*len(b))
	var g invoke.PortIO
	err := g.Decode(b)
	vnd.AllocOff()
	if err != nil {
		vnd.Assert(len(b) < 3 || len(b) < 3+int(b[1])<<8+int(b[2]), "a complete message is accepted")
		vnd.Reach("error")
		return
	}
	vnd.Assert(len(b) >= 3 && len(b) >= 3+int(b[1])<<8+int(b[2]), "a truncated message is refused")
	n := int(b[1])<<8 + int(b[2])
	vnd.EqStr(g.Port, string(b[3:3+n]), "the port is the stated part of the message")
	vnd.EqBytes(g.Data, b[3+n:], "the data is the rest of the message")
	vnd.Reach("ok")
}
