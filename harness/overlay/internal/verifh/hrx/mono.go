// Package hrx holds the harnesses for publishers (C24 to C27).
package hrx

import (
	"errors"

	"github.com/nanobus/iota/go/internal/vnd"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/mono"
)

var errs = []error{errors.New("first"), errors.New("second"), errors.New("third"), errors.New("fourth")}

// What a source can emit.
const (
	sigSuccess = iota
	sigError
	sigCancel
)

// outcome is what a single-value publisher must signal.
type outcome struct {
	set   bool
	sig   rx.SignalType
	value int64
	err   error
}

func (o *outcome) record(kind, i int, v int64) {
	if o.set {
		return
	}
	o.set = true
	switch kind {
	case sigSuccess:
		o.sig, o.value = rx.SignalComplete, v
	case sigError:
		o.sig, o.err = rx.SignalError, errs[i]
	case sigCancel:
		o.sig = rx.SignalCancel
	}
}

// watch observes a publisher: callbacks, finally and notifications.
type watch struct {
	want    *outcome
	values  int
	errors  int
	finally int
	notes   [4]int
	nreg    int

	notify func(rx.FnFinally) // registers a notification
	inside int                // where to register one more: 1 outcome, 2 finally, 3 notification
	during bool
	omit   int // the callbacks that the subscriber does not have
}

// told says whether the subscriber has a callback for the outcome.
func (w *watch) told(sig rx.SignalType) bool {
	switch sig {
	case rx.SignalComplete:
		return w.omit&omitNext == 0
	case rx.SignalError:
		return w.omit&omitError == 0
	}
	return false
}

func (w *watch) delivered() bool { return w.values+w.errors > 0 || !w.told(w.want.sig) }

func (w *watch) register() {
	i := w.nreg
	w.nreg++
	w.notify(func(s rx.SignalType) {
		vnd.Assert(w.want.set, "no notification before the outcome")
		vnd.Assert(s == w.want.sig, "a notification carries the matching signal")
		vnd.Assert(w.delivered(), "a notification comes after the outcome")
		w.notes[i]++
		vnd.Assert(w.notes[i] == 1, "a notification fires once")
		if w.inside == 3 {
			w.inside = 0
			w.register()
		}
	})
}

func (w *watch) at(place int) {
	if w.inside == place {
		w.inside = 0
		w.register()
	}
}

func (w *watch) onValue(v int64) {
	vnd.Assert(w.want.set && w.want.sig == rx.SignalComplete, "a value only when the source's first signal is one")
	vnd.Assert(v == w.want.value, "the value is the first one emitted")
	w.values++
	vnd.Assert(w.values == 1 && w.errors == 0 && w.finally == 0, "one outcome, before the finally callback")
	w.at(1)
}

func (w *watch) onError(e error) {
	vnd.Assert(w.want.set && w.want.sig == rx.SignalError, "an error only when the source's first signal is one")
	vnd.Assert(e == w.want.err, "the error is the first one emitted")
	w.errors++
	vnd.Assert(w.errors == 1 && w.values == 0 && w.finally == 0, "one outcome, before the finally callback")
	w.at(1)
}

func (w *watch) onFinally(s rx.SignalType) {
	vnd.Assert(w.want.set && s == w.want.sig, "the finally callback carries the matching signal")
	vnd.Assert(w.delivered(), "the finally callback comes after the outcome")
	w.finally++
	vnd.Assert(w.finally == 1, "the finally callback fires once")
	w.at(2)
}

// done checks what has been seen once everything is over.
func (w *watch) done(subscribed bool) {
	if subscribed {
		exp := func(c bool) int {
			if c {
				return 1
			}
			return 0
		}
		vnd.Assert(w.values == exp(w.want.set && w.want.sig == rx.SignalComplete && w.told(w.want.sig)), "the subscriber sees the value")
		vnd.Assert(w.errors == exp(w.want.set && w.want.sig == rx.SignalError && w.told(w.want.sig)), "the subscriber sees the error")
		vnd.Assert(w.finally == exp(w.want.set) || w.omit&omitFinally != 0, "the finally callback fires exactly once")
	}
	for i := 0; i < w.nreg; i++ {
		n := 0
		if w.want.set {
			n = 1
		}
		vnd.Assert(w.notes[i] == n, "every notification fires exactly once")
	}
}

func (w *watch) mono(callbacks bool) mono.Subscribe[int64] {
	var s mono.Subscribe[int64]
	if w.omit&omitFinally == 0 {
		s.Finally = w.onFinally
	}
	if callbacks && w.omit&omitNext == 0 {
		s.OnSuccess = w.onValue
	}
	if callbacks && w.omit&omitError == 0 {
		s.OnError = w.onError
	}
	return s
}

type canceller interface{ Cancel() }

// emit sends k arbitrary signals to sink.
func emit(sink mono.Sink[int64], k int, want *outcome) {
	for i := 0; i < k; i++ {
		v := vnd.I64("value")
		kind := vnd.Choice("signal", 3)
		if kind == sigCancel {
			if _, ok := sink.(canceller); !ok {
				continue
			}
		}
		want.record(kind, i, v)
		switch kind {
		case sigSuccess:
			sink.Success(v)
		case sigError:
			sink.Error(errs[i])
		case sigCancel:
			sink.(canceller).Cancel()
		}
	}
}

func checkGet(m mono.Mono[int64], want *outcome) {
	for i := 0; i < 2; i++ {
		v, err := m.Get()
		switch want.sig {
		case rx.SignalComplete:
			vnd.Assert(v == want.value && err == nil, "the value stays retrievable")
		case rx.SignalError:
			vnd.Assert(err == want.err && v == 0, "the error stays retrievable")
		}
	}
}

// A created publisher: the source emits while subscribing, later, or both.
//
//verif:harness C24
func H_C24_created() {
	var want outcome
	w := &watch{want: &want, omit: omissions()}
	early := vnd.Choice("early", 3)
	late := vnd.Choice("late", 3)
	var held mono.Sink[int64]
	m := mono.Create(func(sink mono.Sink[int64]) {
		held = sink
		emit(sink, early, &want)
	})
	w.notify = m.Notify
	w.inside = vnd.Choice("inside", 4)
	if vnd.Bool("notify first") {
		w.register()
	}
	m.Subscribe(w.mono(true))
	if vnd.Bool("notify next") {
		w.register()
	}
	emit(held, late, &want)
	if vnd.Bool("notify last") {
		w.register()
	}
	w.done(true)
	if want.set {
		checkGet(m, &want)
		vnd.Reach("signalled")
	} else {
		vnd.Reach("silent")
	}
}

// A subscriber without callbacks.
//
//verif:harness C24
func H_C24_bare() {
	var want outcome
	w := &watch{want: &want}
	var held mono.Sink[int64]
	m := mono.Create(func(sink mono.Sink[int64]) { held = sink })
	w.notify = m.Notify
	if vnd.Bool("all") {
		m.Subscribe(mono.Subscribe[int64]{})
	} else {
		m.Subscribe(mono.Subscribe[int64]{Finally: func(s rx.SignalType) {
			vnd.Assert(want.set && s == want.sig, "the finally callback carries the matching signal")
			w.finally++
		}})
	}
	n := 0
	m.Notify(func(s rx.SignalType) {
		vnd.Assert(want.set && s == want.sig, "a notification carries the matching signal")
		n++
	})
	emit(held, 2, &want)
	vnd.Assert(want.set && n == 1, "the notification fires exactly once")
	vnd.Assert(w.finally <= 1, "the finally callback fires once")
	checkGet(m, &want)
	vnd.Reach("end")
}

// A processor: signals may arrive before the subscription.
//
//verif:harness C24
func H_C24_processor() {
	var want outcome
	w := &watch{want: &want, omit: omissions()}
	p := mono.NewProcessor[int64]()
	w.notify = p.Notify
	w.inside = vnd.Choice("inside", 4)
	if vnd.Bool("notify first") {
		w.register()
	}
	signal := func(k int) {
		for i := 0; i < k; i++ {
			v := vnd.I64("value")
			kind := vnd.Choice("signal", 2)
			want.record(kind, i, v)
			if kind == sigSuccess {
				p.Success(v)
			} else {
				p.Error(errs[i])
			}
		}
	}
	signal(vnd.Choice("early", 3))
	if vnd.Bool("notify next") {
		w.register()
	}
	p.Subscribe(w.mono(true))
	signal(vnd.Choice("late", 3))
	if vnd.Bool("notify last") {
		w.register()
	}
	w.done(true)
	if want.set {
		checkGet(p, &want)
		vnd.Reach("signalled")
	}
}

// Constant and failed publishers.
//
//verif:harness C24
func H_C24_constant() {
	v := vnd.I64("value")
	want := outcome{set: true, sig: rx.SignalComplete, value: v}
	m := mono.Just(v)
	if vnd.Bool("fails") {
		want = outcome{set: true, sig: rx.SignalError, err: errs[0]}
		m = mono.Error[int64](errs[0])
	}
	checkGet(m, &want)
	w := &watch{want: &want, notify: m.Notify, omit: omissions()}
	subscribed := vnd.Bool("subscribed")
	if subscribed {
		w.inside = vnd.Choice("inside", 4)
		m.Subscribe(w.mono(true))
		w.register()
	} else {
		// Nobody saw the outcome, but it is there.
		w.values = 1
		w.register()
	}
	w.done(subscribed)
	checkGet(m, &want)
	b, err := m.Block()
	vnd.Assert(b == want.value && err == want.err, "waiting returns the outcome")
	m.Subscribe(mono.Subscribe[int64]{})
	vnd.Reach("end")
}
