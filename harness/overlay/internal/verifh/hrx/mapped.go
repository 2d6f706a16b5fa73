package hrx

import (
	"errors"

	"github.com/nanobus/iota/go/internal/vnd"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

var errMap = errors.New("the function failed")

// source makes a single-value publisher of one of the kinds, with its outcome.
func source(want *outcome) mono.Mono[int64] {
	v := vnd.I64("value")
	*want = outcome{set: true, sig: rx.SignalComplete, value: v}
	if vnd.Bool("fails") {
		*want = outcome{set: true, sig: rx.SignalError, err: errs[0]}
	}
	switch vnd.Choice("kind", 3) {
	case 0:
		if want.err != nil {
			return mono.Error[int64](want.err)
		}
		return mono.Just(v)
	case 1:
		e := want.err
		return mono.Create(func(s mono.Sink[int64]) {
			if e != nil {
				s.Error(e)
			} else {
				s.Success(v)
			}
		})
	}
	p := mono.NewProcessor[int64]()
	if want.err != nil {
		p.Error(want.err)
	} else {
		p.Success(v)
	}
	return p
}

// through maps m once or twice with a function that adds k, or fails.
func through(m mono.Mono[int64], want *outcome) mono.Mono[int64] {
	k := vnd.I64("addend")
	bad := vnd.Bool("function fails")
	twice := vnd.Bool("twice")
	fn := func(x int64) (int64, error) {
		if bad {
			return 0, errMap
		}
		return x + k, nil
	}
	r := mono.Map(m, fn)
	if want.err == nil {
		if bad {
			*want = outcome{set: true, sig: rx.SignalError, err: errMap}
		} else {
			want.value += k
		}
	}
	if twice {
		r = mono.Map(r, func(x int64) (int64, error) { return x ^ 1, nil })
		if want.err == nil {
			want.value ^= 1
		}
	}
	return r
}

//verif:harness C27
func H_C27_mono() {
	var want outcome
	m := through(source(&want), &want)
	w := &watch{want: &want, notify: m.Notify, omit: omissions()}
	w.inside = vnd.Choice("inside", 4)
	m.Subscribe(w.mono(true))
	w.register()
	w.done(true)
	checkGet(m, &want)
	v, err := m.Block()
	vnd.Assert(v == want.value && err == want.err, "waiting after completion agrees")
	checkGet(m, &want)
	vnd.Reach("end")
}

//verif:harness C27
func H_C27_monoBlock() {
	var want outcome
	m := through(source(&want), &want)
	v, err := m.Block()
	vnd.Assert(v == want.value && err == want.err, "waiting agrees")
	checkGet(m, &want)
	v, err = m.Block()
	vnd.Assert(v == want.value && err == want.err, "waiting again agrees")
	vnd.Reach("end")
}

// The outcome arrives later, with notifications and cancellation.
//
//verif:harness C27
func H_C27_monoLater() {
	var want outcome
	k := vnd.I64("addend")
	bad := vnd.Bool("function fails")
	var held mono.Sink[int64]
	src := mono.Create(func(s mono.Sink[int64]) { held = s })
	m := mono.Map(src, func(x int64) (int64, error) {
		if bad {
			return 7, errMap
		}
		return x + k, nil
	})
	w := &watch{want: &want, notify: m.Notify, omit: omissions(), inside: vnd.Choice("inside", 4)}
	if vnd.Bool("notify first") {
		w.register()
	}
	m.Subscribe(w.mono(true))
	if vnd.Bool("notify next") {
		w.register()
	}
	for i := 0; i < 2; i++ {
		v := vnd.I64("value")
		kind := vnd.Choice("signal", 3)
		c, ok := held.(canceller)
		if kind == sigCancel && !ok {
			continue
		}
		if kind == sigSuccess && bad && !want.set {
			want = outcome{set: true, sig: rx.SignalError, err: errMap}
		}
		want.record(kind, i, v+k)
		switch kind {
		case sigSuccess:
			held.Success(v)
		case sigError:
			held.Error(errs[i])
		case sigCancel:
			c.Cancel()
		}
	}
	if vnd.Bool("notify last") {
		w.register()
	}
	w.done(true)
	if want.set && want.sig != rx.SignalCancel {
		v, err := m.Get()
		vnd.Assert(err == want.err && (err != nil || v == want.value), "retrieval agrees")
		vnd.Reach("end")
	}
}

// A mapped stream; the function fails at an arbitrary item.
//
//verif:harness C27
func H_C27_flux() {
	w := &script{}
	if vnd.Thorough() {
		w.omit = omissions()
	}
	k := vnd.I64("addend")
	failAt := vnd.Choice("fails at", 4) // 3: never
	var held flux.Sink[int64]
	stops := 0
	src := flux.Create(func(sink flux.Sink[int64]) {
		held = sink
		sink.OnSubscribe(flux.OnSubscribe{Request: func(int) {}, Cancel: func() { stops++ }})
	})
	calls := 0
	f := flux.Map(src, func(x int64) (int64, error) {
		calls++
		if calls-1 == failAt {
			return 5, errMap
		}
		return x + k, nil
	})
	twice := vnd.Bool("twice")
	if twice {
		f = flux.Map(f, func(x int64) (int64, error) { return x ^ 1, nil })
	}
	w.notify = f.Notify
	w.inside = vnd.Choice("inside", 4)
	if vnd.Bool("notify first") {
		w.register()
	}
	s := w.subscribe()
	s.NoRequest = vnd.Bool("no request")
	f.Subscribe(s)
	items := 0
	n := 3
	if vnd.Thorough() {
		n = 4
	}
	for i := 0; i < n; i++ {
		switch vnd.Choice("signal", 4) {
		case fxNext:
			v := vnd.I64("value")
			if items == failAt {
				w.end(rx.SignalError, errMap)
			}
			r := v + k
			if twice {
				r ^= 1
			}
			w.next(r)
			items++
			held.Next(v)
		case fxComplete:
			w.end(rx.SignalComplete, nil)
			held.Complete()
		case fxError:
			w.end(rx.SignalError, errs[i])
			held.Error(errs[i])
		case fxCancel:
			w.end(rx.SignalCancel, nil)
			f.Subscription().Cancel()
		}
	}
	vnd.Quiesce()
	if vnd.Bool("notify last") {
		w.register()
	}
	w.done()
	if w.err == errMap {
		vnd.Assert(stops == 1, "the source of a failed mapping is told to stop")
		vnd.Reach("failed")
	}
	vnd.Reach("end")
}

// Waiting for a mapped stream.
//
//verif:harness C27
func H_C27_fluxBlock() {
	w := &script{omit: omissions()}
	n := vnd.Choice("length", 4)
	failAt := vnd.Choice("fails at", 4)
	vals := make([]int64, n)
	for i := range vals {
		vals[i] = vnd.I64("value")
		if i == failAt {
			w.end(rx.SignalError, errMap)
		}
		w.next(vals[i] + 3)
	}
	w.end(rx.SignalComplete, nil)
	src := flux.FromSlice(vals)
	if vnd.Bool("failed source") {
		*w = script{omit: w.omit}
		w.end(rx.SignalError, errs[1])
		src = flux.Error[int64](errs[1])
	}
	calls := 0
	f := flux.Map(src, func(x int64) (int64, error) {
		calls++
		if calls-1 == failAt {
			return 0, errMap
		}
		return x + 3, nil
	})
	err := f.Block(w.subscribe())
	vnd.Assert(err == w.err, "waiting returns the outcome")
	vnd.Quiesce()
	w.done()
	if w.err == errMap {
		n = failAt + 1
	} else if w.err != nil {
		n = 0
	}
	vnd.Assert(calls == n, "the function is applied once to each item up to the one it fails for")
	vnd.Reach("end")
}

// Subscribers of a mapped stream that leave callbacks out; the function is applied all the same.
//
//verif:harness C27
func H_C27_partial() {
	w := &script{omit: omissions()}
	k := vnd.I64("addend")
	failAt := vnd.Choice("fails at", 3) // 2: never
	var held flux.Sink[int64]
	stops := 0
	src := flux.Create(func(sink flux.Sink[int64]) {
		held = sink
		sink.OnSubscribe(flux.OnSubscribe{Request: func(int) {}, Cancel: func() { stops++ }})
	})
	calls, want := 0, 0
	f := flux.Map(src, func(x int64) (int64, error) {
		calls++
		if calls-1 == failAt {
			return 5, errMap
		}
		return x + k, nil
	})
	w.notify = f.Notify
	w.register()
	f.Subscribe(w.subscribe())
	for i := 0; i < 3; i++ {
		switch vnd.Choice("signal", 4) {
		case fxNext:
			v := vnd.I64("value")
			if !w.term {
				want++
				if want-1 == failAt {
					w.end(rx.SignalError, errMap)
				}
			}
			w.next(v + k)
			held.Next(v)
		case fxComplete:
			w.end(rx.SignalComplete, nil)
			held.Complete()
		case fxError:
			w.end(rx.SignalError, errs[i])
			held.Error(errs[i])
		case fxCancel:
			w.end(rx.SignalCancel, nil)
			f.Subscription().Cancel()
		}
	}
	vnd.Quiesce()
	w.register()
	w.done()
	vnd.Assert(calls == want, "the function is applied once to each item up to the one it fails for")
	vnd.Assert((stops == 1) == (w.term && (w.sig == rx.SignalCancel || w.err == errMap)), "a mapping that fails or is cancelled stops its source")
	vnd.Reach("end")
}
