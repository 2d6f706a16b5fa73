package hinvoke

import (
	"github.com/nanobus/iota/go/internal/vnd"
	"github.com/nanobus/iota/go/invoke"
)

// Concurrent users of the handle table: each sees its own handles resolve until removed, and of two
// removals of one handle exactly one gets the instance.
//
//verif:harness C22 switches=3 t.switches=4 raceviol instr=invoke,internal/verifh/hinvoke
func H_C22_concurrent() {
	t := invoke.NewLiveInstances[*inst]()
	shared := &inst{0}
	sh := t.Put(shared)
	type out struct {
		h  uint64
		ok bool
		v  *inst
		rm bool
	}
	ch := make(chan out, 1)
	use := func(v *inst, lookFirst bool) out {
		h := t.Put(v)
		g, ok := t.Get(h)
		vnd.Assert(ok && g == v, "a handle resolves to its instance while other calls run")
		rv, rok := t.Remove(sh)
		if lookFirst {
			g, ok = t.Get(h)
			vnd.Assert(ok && g == v, "removing another handle leaves this one")
		}
		g, ok = t.Remove(h)
		vnd.Assert(ok && g == v, "removing returns the instance")
		_, ok = t.Get(h)
		vnd.Assert(!ok, "a removed handle resolves to nothing")
		return out{h, rok, rv, rok}
	}
	look := vnd.Bool("look")
	a, b := &inst{1}, &inst{2}
	go func() { ch <- use(a, look) }()
	x := use(b, look)
	y := <-ch
	vnd.Assert(x.h != y.h && x.h != sh && y.h != sh, "handles issued concurrently differ")
	vnd.Assert(x.ok != y.ok, "exactly one of two concurrent removals of a handle succeeds")
	if x.ok {
		vnd.Assert(x.v == shared && y.v == nil, "the instance goes to the one that removed it")
	} else {
		vnd.Assert(y.v == shared && x.v == nil, "the instance goes to the one that removed it")
	}
	vnd.Reach("end")
}
