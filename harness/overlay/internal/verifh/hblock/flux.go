package hblock

import (
	"github.com/nanobus/iota/go/internal/vnd"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
)

const (
	manySlice = iota
	manyError
	manyCreate  // emits everything when it is subscribed to
	manyDemand  // emits what is asked for
	manyStarted // emits everything from a goroutine that starts when it is subscribed to
	manyLater   // emits everything when told
	manyProcessor
	manyKinds
)

// several is a publisher of items.
type several struct {
	kind  int
	n     int
	f     flux.Flux[int64]
	src   []int64
	fail  error
	want  []int64
	err   error
	sinks chan flux.Sink[int64]
	p     flux.Processor[int64]
}

func newSeveral(kind int) *several {
	s := &several{kind: kind, sinks: make(chan flux.Sink[int64], 8)}
	base := vnd.I64("first item")
	for n := vnd.Choice("items", tierOf(3, 4)); n > 0; n-- {
		s.src = append(s.src, base)
		base += 5
	}
	switch kind {
	case manySlice:
		s.f = flux.FromSlice(s.src)
		return s.wrap()
	case manyError:
		s.src, s.fail = nil, errSource
		s.f = flux.Error[int64](errSource)
		return s.wrap()
	}
	if vnd.Bool("source fails") {
		s.fail = errSource
	}
	if kind == manyProcessor {
		s.p = flux.NewProcessor[int64]()
		s.f = s.p
		return s.wrap()
	}
	s.f = flux.Create(func(sink flux.Sink[int64]) {
		switch kind {
		case manyCreate:
			sink.OnSubscribe(flux.OnSubscribe{})
			s.emit(sink)
		case manyDemand:
			next, over := 0, false
			sink.OnSubscribe(flux.OnSubscribe{Request: func(n int) {
				for ; n > 0 && next < len(s.src); n-- {
					next++
					sink.Next(s.src[next-1])
				}
				if next == len(s.src) && !over {
					over = true
					s.finish(sink)
				}
			}})
		case manyStarted:
			sink.OnSubscribe(flux.OnSubscribe{})
			go s.emit(sink)
		default:
			sink.OnSubscribe(flux.OnSubscribe{})
			s.sinks <- sink
		}
	})
	return s.wrap()
}

func tierOf(quick, thorough int) int {
	if vnd.Thorough() {
		return thorough
	}
	return quick
}

func (s *several) emit(sink flux.Sink[int64]) {
	for _, v := range s.src {
		sink.Next(v)
	}
	s.finish(sink)
}

func (s *several) finish(sink flux.Sink[int64]) {
	if s.fail != nil {
		sink.Error(s.fail)
	} else {
		sink.Complete()
	}
}

func (s *several) wrap() *several {
	s.want, s.err = s.src, s.fail
	for k := vnd.Choice("mapped", tierOf(2, 3)); k > 0; k-- {
		at := vnd.Choice("fails at", len(s.want)+1)
		want := s.want
		s.f = flux.Map(s.f, func(x int64) (int64, error) {
			if at < len(want) && x == want[at] {
				return x, errMapped
			}
			return x + 1, nil
		})
		if at < len(s.want) {
			s.want, s.err = s.want[:at], errMapped
		}
		var w []int64
		for _, v := range s.want {
			w = append(w, v+1)
		}
		s.want = w
	}
	return s
}

// end ends the source, if that takes doing, and if it can be done yet.
func (s *several) end() bool {
	switch s.kind {
	case manyLater:
		select {
		case sink := <-s.sinks:
			s.emit(sink)
		default:
			return false
		}
	case manyProcessor:
		s.emit(s.p)
	}
	return true
}

type saw struct {
	items             []int64
	completes, errors int
	finally           []rx.SignalType
}

func (w *saw) subscribe() flux.Subscribe[int64] {
	return flux.Subscribe[int64]{
		OnNext:     func(v int64) { w.items = append(w.items, v) },
		OnComplete: func() { w.completes++ },
		OnError:    func(error) { w.errors++ },
		Finally:    func(s rx.SignalType) { w.finally = append(w.finally, s) },
	}
}

// check checks what the wait returned and what its callbacks saw.
func (s *several) check(err error, w *saw, lost bool) {
	vnd.Assert(err == s.err || lost && err == s.fail, "waiting returns the publisher's error")
	if lost {
		return // what was emitted before the wait is gone
	}
	vnd.Assert(len(w.items) == len(s.want), "waiting passes on each item")
	for i, v := range w.items {
		vnd.Assert(v == s.want[i], "waiting passes on the items in order")
	}
	sig := rx.SignalComplete
	if s.err != nil {
		sig = rx.SignalError
		vnd.Assert(w.errors == 1 && w.completes == 0, "waiting passes on the error")
	} else {
		vnd.Assert(w.errors == 0 && w.completes == 1, "waiting passes on the completion")
	}
	vnd.Assert(len(w.finally) == 1 && w.finally[0] == sig, "waiting passes on the signal")
}

// Every publisher of items, ending before or after the wait starts.
//
//verif:harness C29 budget=40 t.budget=300
func H_C29_flux() {
	s := newSeveral(vnd.Choice("kind", manyKinds))
	before := vnd.Bool("ends before")
	if before {
		s.f.Subscribe(flux.Subscribe[int64]{})
		vnd.Quiesce()
		s.end()
		vnd.Quiesce()
	}
	w := &saw{}
	c := make(chan error, 1)
	go func() { c <- s.f.Block(w.subscribe()) }()
	if vnd.Bool("settle") || s.kind == manyLater || s.kind == manyProcessor {
		vnd.Quiesce()
	}
	if !before {
		vnd.Assert(s.end(), "waiting subscribes")
	} else if s.kind == manyLater {
		s.end()
	}
	s.check(<-c, w, before && s.kind != manyError)
	vnd.Reach("end")
}

// The publisher ends while the wait starts.
//
//verif:harness C29 switches=2 t.switches=3 raceviol instr=rx/flux,internal/verifh/hblock budget=60 t.budget=400
func H_C29_fluxRace() {
	kinds := []int{manyStarted, manyLater, manyProcessor, manySlice, manyDemand}
	s := newSeveral(kinds[vnd.Choice("kind", len(kinds))])
	lost := false
	switch s.kind {
	case manyProcessor:
		lost = true
		go s.end()
	case manyLater:
		go func() { s.emit(<-s.sinks) }()
	}
	w := &saw{}
	err := s.f.Block(w.subscribe())
	s.check(err, w, lost)
	vnd.Reach("end")
}

// The subscriber cancels while the wait goes on: in its callbacks, or from elsewhere.
//
//verif:harness C29 budget=40 t.budget=300
func H_C29_fluxCancel() {
	kinds := []int{manySlice, manyDemand, manyLater, manyProcessor}
	s := newSeveral(kinds[vnd.Choice("kind", len(kinds))])
	place := vnd.Choice("cancels", 3) // when it is subscribed, in an item, while it waits
	at := 0
	if place == 1 {
		at = vnd.Choice("at item", tierOf(2, 3))
	}
	w := &saw{}
	sub := w.subscribe()
	var upstream rx.Subscription
	cancelled := false
	cancel := func() {
		if len(w.finally) == 0 {
			cancelled = true
		}
		upstream.Cancel()
	}
	sub.OnRequest = func(x rx.Subscription) {
		upstream = x
		if place == 0 {
			cancel()
			return
		}
		if place != 2 || s.kind > manyDemand {
			x.Request(rx.RequestMax)
		}
	}
	next := sub.OnNext
	sub.OnNext = func(v int64) {
		vnd.Assert(!cancelled, "nothing is passed on after a cancellation")
		next(v)
		if place == 1 && len(w.items) == at+1 {
			cancel()
		}
	}
	c := make(chan error, 1)
	go func() { c <- s.f.Block(sub) }()
	vnd.Quiesce()
	if place == 2 && upstream != nil {
		if vnd.Bool("and more") {
			cancel()
			if len(w.finally) == 0 {
				vnd.Quiesce()
			}
		} else {
			go cancel()
			vnd.Quiesce()
		}
	}
	s.end()
	err := <-c
	if !cancelled {
		s.check(err, w, false)
		vnd.Reach("ended")
		return
	}
	vnd.Assert(err == nil, "a cancelled wait returns no error")
	vnd.Assert(w.completes == 0 && w.errors == 0, "a cancelled subscriber sees no outcome")
	vnd.Assert(len(w.finally) == 1 && w.finally[0] == rx.SignalCancel, "waiting passes on the cancellation")
	for i, v := range w.items {
		vnd.Assert(i < len(s.want) && v == s.want[i], "waiting passes on the items in order")
	}
	vnd.Reach("cancelled")
}
