// Package hflow checks flows.
package hflow

import (
	"errors"

	"github.com/nanobus/iota/go/internal/vnd"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/await"
	"github.com/nanobus/iota/go/rx/flow"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

var (
	errStep  = errors.New("step failed")
	errAwait = errors.New("awaited result failed")
)

// result is an awaited result that the harness finishes when it likes.
type result struct {
	await.Awaitable
	kind   int
	one    mono.Processor[int64]
	many   flux.Processor[int64]
	sink   mono.Sink[int64]
	done   bool
	asyncs int
}

func (r *result) Async() { r.asyncs++; r.Awaitable.Async() }

const (
	kindJust = iota
	kindError
	kindFlux
	kindMono
	kindCreate
	kindMapped
	kinds
)

func newResult(kind int) *result {
	r := &result{kind: kind}
	switch kind {
	case kindJust:
		r.Awaitable, r.done = mono.Just(int64(1)), true
	case kindError:
		r.Awaitable, r.done = mono.Error[int64](errAwait), true
	case kindFlux:
		r.many = flux.NewProcessor[int64]()
		r.many.Subscribe(flux.Subscribe[int64]{})
		r.Awaitable = r.many
	case kindMono:
		r.one = mono.NewProcessor[int64]()
		r.one.Subscribe(mono.Subscribe[int64]{})
		r.Awaitable = r.one
	case kindCreate:
		m := mono.Create(func(s mono.Sink[int64]) { r.sink = s })
		m.Subscribe(mono.Subscribe[int64]{})
		r.Awaitable = m
	case kindMapped:
		m := mono.Map(mono.Create(func(s mono.Sink[int64]) { r.sink = s }), func(x int64) (int64, error) { return x + 1, nil })
		m.Subscribe(mono.Subscribe[int64]{})
		r.Awaitable = m
	}
	return r
}

// finish ends the result, with a value or with an error.
func (r *result) finish(fail bool) {
	if r.done {
		return
	}
	r.done = true
	switch r.kind {
	case kindFlux:
		if fail {
			r.many.Error(errAwait)
		} else {
			r.many.Next(1)
			r.many.Complete()
		}
	case kindMono:
		if fail {
			r.one.Error(errAwait)
		} else {
			r.one.Success(1)
		}
	default:
		if fail {
			r.sink.Error(errAwait)
		} else {
			r.sink.Success(1)
		}
	}
}

const (
	endSuccess = iota
	endFlowError
	endStepError
	endEnd
	ends
)

// run is one flow with its history.
type run struct {
	f     *flow.Flow[int64]
	steps int         // the number of steps
	await [][]*result // what each step but the last awaits
	last  int         // how step number stop ends the flow
	stop  int         // the step that ends the flow
	value int64       // the value it ends with
	ran   []int       // the steps that ran, in order
	items []int64     // what a subscriber of a flux saw
	many  bool        // the flow makes a flux
	got   []rx.SignalType
	gotV  int64
	gotE  error
	outs  int
}

func (r *run) step(i int) (await.Group, error) {
	vnd.Assert(len(r.ran) == i, "steps run in order, each once")
	if i > 0 {
		for _, a := range r.await[i-1] {
			vnd.Assert(a.done, "a step starts when all that the previous one awaits has finished")
		}
	}
	r.ran = append(r.ran, i)
	if r.many {
		r.f.Next(r.value + int64(i))
	}
	if i == r.stop {
		switch r.last {
		case endSuccess:
			if r.many {
				return r.f.Complete()
			}
			return r.f.Success(r.value)
		case endFlowError:
			return r.f.Error(errStep)
		case endStepError:
			return nil, errStep
		case endEnd:
			return r.f.End()
		}
	}
	var g await.Group
	for _, a := range r.await[i] {
		g = append(g, a)
	}
	return g, nil
}

func (r *run) start() {
	r.f = flow.New[int64]()
	for i := 0; i < r.steps; i++ {
		i := i
		r.f.Steps(func() (await.Group, error) { return r.step(i) })
	}
	fin := func(s rx.SignalType) { r.got = append(r.got, s) }
	onErr := func(e error) { r.gotE = e; r.outs++ }
	if r.many {
		r.f.Flux().Subscribe(flux.Subscribe[int64]{
			OnNext:     func(v int64) { r.items = append(r.items, v) },
			OnComplete: func() { r.outs++ },
			OnError:    onErr,
			Finally:    fin,
		})
	} else {
		r.f.Mono().Subscribe(mono.Subscribe[int64]{
			OnSuccess: func(v int64) { r.gotV = v; r.outs++ },
			OnError:   onErr,
			Finally:   fin,
		})
	}
}

// reached returns how many steps have to have run by now.
func (r *run) reached() int {
	n := 1
	for n <= r.stop {
		for _, a := range r.await[n-1] {
			if !a.done {
				return n
			}
		}
		n++
	}
	return n
}

func (r *run) check() {
	n := r.reached()
	vnd.Assert(len(r.ran) == n, "each step that can run has run")
	if n <= r.stop || r.last == endEnd {
		vnd.Assert(len(r.got) == 0 && r.outs == 0, "no outcome before the flow ends")
		return
	}
	vnd.Assert(len(r.got) == 1 && r.outs == 1, "one outcome")
	if r.last == endSuccess {
		vnd.Assert(r.got[0] == rx.SignalComplete && r.gotE == nil, "the flow completes")
		vnd.Assert(r.many || r.gotV == r.value, "the flow's value")
	} else {
		vnd.Assert(r.got[0] == rx.SignalError && r.gotE == errStep, "the flow's error")
	}
	if r.many {
		vnd.Assert(len(r.items) == n, "each item once")
		for i, v := range r.items {
			vnd.Assert(v == r.value+int64(i), "the items in order")
		}
	}
}

// Every number of steps, every kind of awaited result, finished before, or later in any order.
//
//verif:harness C28 budget=40 t.budget=400
func H_C28_flow() {
	steps := 1 + vnd.Choice("steps", 3)
	r := &run{steps: steps, many: vnd.Bool("flux"), value: vnd.I64("value")}
	r.stop = vnd.Choice("stop", steps)
	r.last = vnd.Choice("end", ends)
	kind, fails := vnd.Choice("kind", kinds), vnd.Bool("fails")
	var all []*result
	for i := 0; i < steps; i++ {
		var l []*result
		if i < r.stop {
			most := 3
			if steps == 3 && !vnd.Thorough() {
				most = 2
			}
			n := vnd.Choice("awaited", most)
			for k := 0; k < n; k++ {
				if vnd.Thorough() && k == 0 {
					kind, fails = vnd.Choice("kind", kinds), vnd.Bool("fails")
				}
				a := newResult(kind)
				if vnd.Bool("finished before") {
					a.finish(fails)
				}
				l = append(l, a)
				all = append(all, a)
			}
		}
		r.await = append(r.await, l)
	}
	r.start()
	r.check()
	for len(all) > 0 {
		k := vnd.Choice("next to finish", len(all))
		a := all[k]
		all = append(all[:k:k], all[k+1:]...)
		if a.done {
			continue
		}
		a.finish(fails)
		r.check()
	}
	vnd.Reach("end")
}

// Results that finish concurrently, while the flow is starting.
//
//verif:harness C28 switches=3 t.switches=4 raceviol instr=rx/flow,rx/mono,internal/verifh/hflow budget=60 t.budget=500
func H_C28_concurrent() {
	a, b := newResult(kindMono), newResult(kindMono)
	v := vnd.I64("value")
	r := &run{steps: 2, stop: 1, value: v}
	r.await = [][]*result{{a, b}, nil}
	var fa, fb bool
	fa, fb = vnd.Bool("a fails"), vnd.Bool("b fails")
	done := make(chan bool, 2)
	over := make(chan bool, 1)
	first, second := 0, 0
	var got int64
	f := flow.New[int64]()
	fin := func(r *result, fail bool) {
		if fail {
			r.one.Error(errAwait)
		} else {
			r.one.Success(1)
		}
		done <- true
	}
	f.Steps(func() (await.Group, error) {
		first++
		return await.All(a.one, b.one)
	}, func() (await.Group, error) {
		second++
		_, e1 := a.one.Get() // panics unless finished
		_, e2 := b.one.Get()
		vnd.Assert((e1 != nil) == fa && (e2 != nil) == fb, "the awaited results are there")
		return f.Success(v)
	})
	go fin(a, fa)
	go fin(b, fb)
	f.Mono().Subscribe(mono.Subscribe[int64]{
		OnSuccess: func(x int64) { got = x },
		Finally:   func(rx.SignalType) { over <- true },
	})
	<-done
	<-done
	<-over
	vnd.Assert(first == 1 && second == 1, "each step runs once")
	vnd.Assert(got == v, "the flow's value")
	vnd.Reach("end")
}

// A flow of many steps, each of whose results is there at once or arrives from a goroutine.
//
//verif:harness C28 switches=2 t.switches=3 raceviol instr=rx/flow,rx/mono,internal/verifh/hflow budget=60 t.budget=500
func H_C28_chain() {
	const n = 3
	ran := 0
	var f = flow.New[int64]()
	over := make(chan bool, 1)
	later := [n]bool{}
	for i := 0; i < n; i++ {
		later[i] = vnd.Bool("later")
	}
	for i := 0; i < n; i++ {
		i := i
		f.Steps(func() (await.Group, error) {
			vnd.Assert(ran == i, "the steps run in order, each once")
			ran++
			p := mono.NewProcessor[int64]()
			p.Subscribe(mono.Subscribe[int64]{})
			if later[i] {
				go p.Success(1)
			} else {
				p.Success(1)
			}
			return await.All(p, mono.Just(int64(2)))
		})
	}
	f.Steps(func() (await.Group, error) {
		vnd.Assert(ran == n, "the steps run in order, each once")
		ran++
		return f.Success(5)
	})
	var got int64
	f.Mono().Subscribe(mono.Subscribe[int64]{
		OnSuccess: func(x int64) { got = x },
		Finally:   func(rx.SignalType) { over <- true },
	})
	<-over
	vnd.Assert(ran == n+1 && got == 5, "the flow ends")
	vnd.Reach("end")
}
