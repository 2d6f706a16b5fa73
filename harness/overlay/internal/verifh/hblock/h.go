// Package hblock checks waiting for publishers.
package hblock

import (
	"errors"

	"github.com/nanobus/iota/go/internal/vnd"
	"github.com/nanobus/iota/go/rx/mono"
)

var (
	errSource = errors.New("the source failed")
	errMapped = errors.New("the function failed")
)

// maxMapped is how many functions may sit on top of a publisher.
var maxMapped = 2

const (
	oneJust = iota
	oneError
	oneCreate  // ends when it is subscribed to
	oneStarted // ends in a goroutine that starts when it is subscribed to
	oneLater   // ends when told
	oneProcessor
	oneKinds
)

// single is a publisher of a value, what it is to yield, and how to end it.
type single struct {
	kind  int
	m     mono.Mono[int64]
	v     int64
	err   error
	sinks chan mono.Sink[int64]
	p     mono.Processor[int64]
}

func newSingle(kind int) *single {
	s := &single{kind: kind, v: vnd.I64("value"), sinks: make(chan mono.Sink[int64], 8)}
	switch kind {
	case oneJust:
		s.m = mono.Just(s.v)
		return s.wrap()
	case oneError:
		s.err = errSource
		s.m = mono.Error[int64](errSource)
		return s.wrap()
	}
	if vnd.Bool("source fails") {
		s.err = errSource
	}
	if kind == oneProcessor {
		s.p = mono.NewProcessor[int64]()
		s.m = s.p
		return s.wrap()
	}
	v, err := s.v, s.err
	s.m = mono.Create(func(sink mono.Sink[int64]) {
		switch kind {
		case oneCreate:
			put(sink, v, err)
		case oneStarted:
			go put(sink, v, err)
		default:
			s.sinks <- sink
		}
	})
	return s.wrap()
}

func put(sink mono.Sink[int64], v int64, err error) {
	if err != nil {
		sink.Error(err)
	} else {
		sink.Success(v)
	}
}

// wrap puts up to two functions on top of the publisher.
func (s *single) wrap() *single {
	v, err := s.v, s.err
	if s.p != nil {
		p := s.p
		defer func() { s.p = p }()
	}
	out := s.m
	for k := vnd.Choice("mapped", maxMapped+1); k > 0; k-- {
		fails := vnd.Bool("function fails")
		out = mono.Map(out, func(x int64) (int64, error) {
			if fails {
				return x, errMapped
			}
			return x + 1, nil
		})
		if err == nil && fails {
			err = errMapped
		}
		if err == nil {
			v++
		}
	}
	s.end0(s.v, s.err)
	s.m, s.v, s.err = out, v, err
	return s
}

// The source's own outcome.
var source struct {
	v   int64
	err error
}

func (s *single) end0(v int64, err error) { source.v, source.err = v, err }

// end ends the source, if that takes doing, and if it can be done yet.
func (s *single) end() bool {
	switch s.kind {
	case oneLater:
		select {
		case sink := <-s.sinks:
			put(sink, source.v, source.err)
		default:
			return false
		}
	case oneProcessor:
		put(s.p, source.v, source.err)
	}
	return true
}

func (s *single) check(v int64, err error) {
	vnd.Assert(err == s.err, "waiting returns the publisher's error")
	vnd.Assert(s.err != nil || v == s.v, "waiting returns the publisher's value")
}

type got struct {
	v   int64
	err error
}

func (s *single) wait() chan got {
	c := make(chan got, 1)
	go func() {
		v, err := s.m.Block()
		c <- got{v, err}
	}()
	return c
}

// Every publisher of a value, ending before or after the wait starts, waited for up to twice.
//
//verif:harness C29 budget=40 t.budget=300
func H_C29_mono() {
	s := newSingle(vnd.Choice("kind", oneKinds))
	if vnd.Bool("subscribed before") {
		s.m.Subscribe(mono.Subscribe[int64]{})
		vnd.Quiesce()
	}
	before := vnd.Bool("ends before")
	if before && !s.end() {
		vnd.Reach("cold")
		return
	}
	var cs []chan got
	n := 1 + vnd.Choice("waits", 3)
	for i := 0; i < n; i++ {
		cs = append(cs, s.wait())
		if vnd.Bool("settle") {
			vnd.Quiesce()
		}
	}
	vnd.Quiesce()
	if !before {
		vnd.Assert(s.end(), "waiting subscribes")
	}
	for _, c := range cs {
		g := <-c
		s.check(g.v, g.err)
	}
	s.check(s.m.Block())
	vnd.Reach("end")
}

// The publisher ends while the wait starts.
//
//verif:harness C29 switches=3 t.switches=4 raceviol instr=rx/mono,internal/verifh/hblock budget=60 t.budget=400
func H_C29_monoRace() {
	s := racing(oneStarted, oneLater, oneProcessor)
	s.check(s.m.Block())
	vnd.Reach("end")
}

// The publisher ends while two waits start.
//
//verif:harness C29 switches=2 t.switches=3 raceviol instr=rx/mono,internal/verifh/hblock budget=60 t.budget=400
func H_C29_monoTwo() {
	maxMapped = 1
	s := racing(oneLater, oneProcessor)
	c := s.wait()
	s.check(s.m.Block())
	g := <-c
	s.check(g.v, g.err)
	vnd.Reach("end")
}

func racing(kinds ...int) *single {
	s := newSingle(kinds[vnd.Choice("kind", len(kinds))])
	if s.kind == oneProcessor {
		go s.end()
	}
	if s.kind == oneLater {
		go func() { put(<-s.sinks, source.v, source.err) }()
	}
	return s
}

// The source is cancelled while waits go on; they end.
//
//verif:harness C29 budget=40 t.budget=300
func H_C29_monoCancel() {
	s := newSingle(oneLater)
	if vnd.Bool("subscribed before") {
		s.m.Subscribe(mono.Subscribe[int64]{})
	}
	var cs []chan got
	for n := 1 + vnd.Choice("waits", 2); n > 0; n-- {
		cs = append(cs, s.wait())
		if vnd.Bool("settle") {
			vnd.Quiesce()
		}
	}
	vnd.Quiesce()
	for len(s.sinks) > 0 {
		c, ok := (<-s.sinks).(interface{ Cancel() })
		if !ok {
			return
		}
		c.Cancel()
	}
	for _, c := range cs {
		<-c
	}
	vnd.Reach("end")
}
