package hrx

import (
	"github.com/nanobus/iota/go/internal/vnd"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
)

// script is the reference: the signals a stream's subscriber must see.
type script struct {
	items []int64
	term  bool
	sig   rx.SignalType
	err   error

	seen    int
	ended   int
	finally int
	notes   [4]int
	nreg    int
	notify  func(rx.FnFinally)
	inside  int
	onItem  func(i int) // called inside OnNext
	omit    int         // the callbacks that the subscriber does not have
}

// What a subscriber may leave out.
const (
	omitNext = 1 << iota
	omitComplete
	omitError
	omitFinally
)

// omissions picks the callbacks to leave out.
func omissions() int {
	return []int{0, omitNext, omitComplete, omitError, omitFinally, omitNext | omitComplete | omitError}[vnd.Choice("left out", 6)]
}

// told says whether the subscriber has a callback for the outcome.
func (w *script) told() bool {
	switch w.sig {
	case rx.SignalComplete:
		return w.omit&omitComplete == 0
	case rx.SignalError:
		return w.omit&omitError == 0
	}
	return false
}

func (w *script) next(v int64) {
	if !w.term {
		w.items = append(w.items, v)
	}
}

func (w *script) end(sig rx.SignalType, err error) {
	if !w.term {
		w.term, w.sig, w.err = true, sig, err
	}
}

func (w *script) at(place int) {
	if w.inside == place {
		w.inside = 0
		w.register()
	}
}

func (w *script) terminated() bool { return w.ended > 0 || w.term && !w.told() }

func (w *script) register() {
	i := w.nreg
	w.nreg++
	w.notify(func(s rx.SignalType) {
		vnd.Assert(w.term && s == w.sig, "a notification carries the matching signal")
		vnd.Assert(w.terminated(), "a notification comes after the outcome")
		w.notes[i]++
		vnd.Assert(w.notes[i] == 1, "a notification fires once")
		w.at(3)
	})
}

func (w *script) onNext(v int64) {
	vnd.Assert(w.ended == 0 && w.finally == 0, "nothing after the outcome")
	vnd.Assert(w.seen < len(w.items), "only items the source emitted")
	vnd.Assert(w.items[w.seen] == v, "items in the order of emission")
	w.seen++
	if w.onItem != nil {
		w.onItem(w.seen)
	}
}

func (w *script) outcome(sig rx.SignalType) {
	vnd.Assert(w.term && w.sig == sig, "the outcome is the source's")
	vnd.Assert(w.seen == len(w.items) || w.omit&omitNext != 0, "every item comes before the outcome")
	w.ended++
	vnd.Assert(w.ended == 1 && w.finally == 0, "one outcome, before the finally callback")
	w.at(1)
}

func (w *script) onError(e error) {
	vnd.Assert(e == w.err, "the error is the source's")
	w.outcome(rx.SignalError)
}

func (w *script) onFinally(s rx.SignalType) {
	vnd.Assert(w.term && w.sig == s, "the finally callback carries the matching signal")
	vnd.Assert(w.terminated(), "the finally callback comes after the outcome")
	w.finally++
	vnd.Assert(w.finally == 1, "the finally callback fires once")
	w.at(2)
}

func (w *script) subscribe() flux.Subscribe[int64] {
	var s flux.Subscribe[int64]
	if w.omit&omitNext == 0 {
		s.OnNext = w.onNext
	}
	if w.omit&omitComplete == 0 {
		s.OnComplete = func() { w.outcome(rx.SignalComplete) }
	}
	if w.omit&omitError == 0 {
		s.OnError = w.onError
	}
	if w.omit&omitFinally == 0 {
		s.Finally = w.onFinally
	}
	return s
}

func (w *script) done() {
	vnd.Assert(w.seen == len(w.items) || w.omit&omitNext != 0, "every item is delivered")
	n := 0
	if w.term {
		n = 1
	}
	e := n
	if !w.told() {
		e = 0
	}
	vnd.Assert(w.ended == e, "the outcome is delivered")
	vnd.Assert(w.finally == n || w.omit&omitFinally != 0, "the finally callback fires exactly once")
	for i := 0; i < w.nreg; i++ {
		vnd.Assert(w.notes[i] == n, "every notification fires exactly once")
	}
}

// What happens to a stream.
const (
	fxNext = iota
	fxComplete
	fxError
	fxCancel // by the subscriber
)

func feed(sink flux.Sink[int64], cancel func(), k int, w *script) {
	for i := 0; i < k; i++ {
		switch vnd.Choice("signal", 4) {
		case fxNext:
			v := vnd.I64("value")
			w.next(v)
			sink.Next(v)
		case fxComplete:
			w.end(rx.SignalComplete, nil)
			sink.Complete()
		case fxError:
			w.end(rx.SignalError, errs[i])
			sink.Error(errs[i])
		case fxCancel:
			if cancel != nil {
				w.end(rx.SignalCancel, nil)
				cancel()
			}
		}
	}
}

// A created stream: the source emits while subscribing, later, or both; the subscriber cancels at
// any point; the source has or has not set up demand.
//
//verif:harness C25 t.budget=300
func H_C25_created() {
	w := &script{}
	if vnd.Thorough() {
		w.omit = omissions()
	}
	early, late := vnd.Choice("early", 2), vnd.Choice("late", 3)
	if vnd.Thorough() {
		early, late = vnd.Choice("early more", 3), vnd.Choice("late more", 4)
	}
	ready := vnd.Bool("ready")
	stops := 0
	var held flux.Sink[int64]
	var f flux.Flux[int64]
	f = flux.Create(func(sink flux.Sink[int64]) {
		held = sink
		if ready {
			sink.OnSubscribe(flux.OnSubscribe{Request: func(int) {}, Cancel: func() { stops++ }})
		}
		feed(sink, nil, early, w)
	})
	w.notify = f.Notify
	w.inside = vnd.Choice("inside", 4)
	if vnd.Bool("notify first") {
		w.register()
	}
	s := w.subscribe()
	s.NoRequest = vnd.Bool("no request")
	cancel := func() { f.Subscription().Cancel() }
	if vnd.Bool("subscription from callback") {
		var sub rx.Subscription
		s.OnRequest = func(x rx.Subscription) {
			if sub == nil {
				x.Request(3)
			}
			sub = x
		}
		if !s.NoRequest {
			cancel = func() { sub.Cancel() }
		}
	}
	cancelAt := vnd.Choice("cancel in item", 3)
	if cancelAt > 0 {
		w.onItem = func(i int) {
			if i == cancelAt && f.Subscription() != nil {
				w.end(rx.SignalCancel, nil)
				f.Subscription().Cancel()
			}
		}
	}
	f.Subscribe(s)
	feed(held, cancel, late, w)
	w.register()
	vnd.Quiesce()
	w.done()
	if w.term {
		vnd.Reach("ended")
		if w.sig == rx.SignalCancel {
			if ready {
				vnd.Assert(stops == 1, "the source is told to stop exactly once")
			}
			vnd.Reach("cancelled")
		} else {
			vnd.Assert(stops == 0, "a source that ended is not told to stop")
		}
	}
}

// A failed stream.
//
//verif:harness C25
func H_C25_failed() {
	w := &script{omit: omissions()}
	w.end(rx.SignalError, errs[0])
	f := flux.Error[int64](errs[0])
	w.notify = f.Notify
	w.inside = vnd.Choice("inside", 4)
	f.Subscribe(w.subscribe())
	w.register()
	if sub := f.Subscription(); sub != nil {
		sub.Request(1)
		sub.Cancel()
	}
	w.done()
	vnd.Assert(f.Block(flux.Subscribe[int64]{}) == errs[0], "waiting returns the error")
	f.Subscribe(flux.Subscribe[int64]{})
	vnd.Reach("end")
}

// A processor: the source may end before the subscription; items are only for who is there.
//
//verif:harness C25
func H_C25_processor() {
	w := &script{omit: omissions()}
	p := flux.NewProcessor[int64]()
	w.notify = p.Notify
	stops := 0
	if vnd.Bool("ready") {
		p.OnSubscribe(flux.OnSubscribe{Request: func(int) {}, Cancel: func() { stops++ }})
	}
	if vnd.Bool("notify first") {
		w.register()
	}
	switch vnd.Choice("early", 3) {
	case 1:
		w.end(rx.SignalComplete, nil)
		p.Complete()
	case 2:
		w.end(rx.SignalError, errs[3])
		p.Error(errs[3])
	}
	w.inside = vnd.Choice("inside", 4)
	p.Subscribe(w.subscribe())
	feed(p, func() { p.Subscription().Cancel() }, vnd.Choice("late", 4), w)
	vnd.Quiesce()
	w.register()
	w.done()
	vnd.Reach("end")
}

// A created stream whose subscriber leaves callbacks out.
//
//verif:harness C25
func H_C25_partial() {
	w := &script{omit: omissions()}
	var held flux.Sink[int64]
	stops := 0
	f := flux.Create(func(sink flux.Sink[int64]) {
		held = sink
		sink.OnSubscribe(flux.OnSubscribe{Request: func(int) {}, Cancel: func() { stops++ }})
		feed(sink, nil, vnd.Choice("early", 2), w)
	})
	w.notify = f.Notify
	w.register()
	w.inside = vnd.Choice("inside", 4)
	s := w.subscribe()
	s.NoRequest = vnd.Bool("no request")
	f.Subscribe(s)
	feed(held, func() { f.Subscription().Cancel() }, vnd.Choice("late", 3), w)
	w.register()
	vnd.Quiesce()
	w.done()
	vnd.Assert(stops <= 1, "the source is told to stop once")
	vnd.Assert((stops == 1) == (w.term && w.sig == rx.SignalCancel), "when it is cancelled")
	vnd.Reach("end")
}

// Demand: requests before and after the source is ready.
//
//verif:harness C26
func H_C26_forwarded() {
	var total, asked uint64
	var ready func()
	f := flux.Create(func(sink flux.Sink[int64]) {
		ready = func() {
			sink.OnSubscribe(flux.OnSubscribe{Request: func(n int) {
				vnd.Assert(n > 0, "only demand is forwarded")
				total += uint64(n)
			}})
		}
		if vnd.Bool("ready early") {
			ready()
			ready = nil
		}
	})
	var sub rx.Subscription
	request := func(n int) {
		asked += uint64(n)
		sub.Request(n)
	}
	s := flux.Subscribe[int64]{OnNext: func(int64) {}}
	if vnd.Bool("callback") {
		s.OnRequest = func(x rx.Subscription) {
			sub = x
			if vnd.Bool("in callback") {
				request(vnd.Range("first", 1, rx.RequestMax))
			}
		}
	} else {
		s.NoRequest = true
	}
	f.Subscribe(s)
	if sub == nil {
		sub = f.Subscription()
	}
	when := vnd.Choice("ready when", 4)
	for i := 0; i < 3; i++ {
		if ready != nil && when == i {
			ready()
			ready = nil
		}
		if vnd.Bool("request") {
			request(vnd.Range("n", 1, rx.RequestMax))
		}
	}
	if ready != nil {
		ready()
	}
	vnd.Quiesce()
	vnd.Assert(total == asked, "the source is asked for exactly what the subscriber requested")
	vnd.Reach("end")
}

// slice-backed streams; response says which of the two helpers is used.
func sliceStream(vals []int64, response bool) flux.Flux[int64] {
	if !response {
		return flux.FromSlice(vals)
	}
	return flux.Create(func(sink flux.Sink[int64]) {
		sink.OnSubscribe(flux.OnSubscribe{Request: flux.SliceResponse(sink, vals)})
	})
}

//verif:harness C26
func H_C26_slice() {
	n := vnd.Choice("length", 4)
	vals := make([]int64, n)
	for i := range vals {
		vals[i] = vnd.I64("value")
	}
	f := sliceStream(vals, vnd.Bool("response"))
	seen, asked, completed, finals := 0, 0, 0, 0
	s := flux.Subscribe[int64]{
		OnNext: func(v int64) {
			vnd.Assert(completed == 0, "nothing after completion")
			vnd.Assert(seen < n && vals[seen] == v, "the items of the slice in order")
			seen++
			vnd.Assert(seen <= asked, "never more items than requested")
			if vnd.Bool("ask inside") {
				k := vnd.Range("inside", 1, 3)
				asked += k
				f.Subscription().Request(k)
			}
		},
		OnComplete: func() {
			vnd.Assert(seen == n, "completion comes after the last item")
			completed++
		},
		OnError:   func(error) { vnd.Assert(false, "a slice does not fail") },
		Finally:   func(rx.SignalType) { finals++ },
		NoRequest: true,
	}
	f.Subscribe(s)
	for i := 0; i < 3; i++ {
		if vnd.Bool("ask") {
			k := vnd.Range("k", 1, 4)
			asked += k
			f.Subscription().Request(k)
			if vnd.Bool("wait") {
				vnd.Quiesce()
			}
		}
	}
	vnd.Quiesce()
	if n > 0 || asked > 0 {
		vnd.Assert((completed == 1) == (seen == n), "completes exactly after the last item")
	}
	min := asked
	if min > n {
		min = n
	}
	vnd.Assert(seen == min, "demand is satisfied while there are items")
	vnd.Assert(finals == completed, "the finally callback follows completion")
	vnd.Reach("end")
}

// A subscriber that sets no demand receives everything; every subscription of a slice-backed
// stream does.
//
//verif:harness C26
func H_C26_unlimited() {
	n := vnd.Choice("length", 4)
	vals := make([]int64, n)
	for i := range vals {
		vals[i] = vnd.I64("value")
	}
	f := sliceStream(vals, vnd.Bool("response"))
	for pass := 0; pass < 2; pass++ {
		seen, completed := 0, 0
		f.Subscribe(flux.Subscribe[int64]{
			OnNext: func(v int64) {
				vnd.Assert(seen < n && vals[seen] == v, "the items of the slice in order")
				seen++
			},
			OnComplete: func() { completed++ },
		})
		vnd.Quiesce()
		vnd.Assert(seen == n && completed == 1, "everything is delivered")
	}
	vnd.Reach("end")
}
