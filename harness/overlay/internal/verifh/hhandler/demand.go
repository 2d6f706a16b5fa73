package hhandler

import (
	"context"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/vnd"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
)

// sees checks that the producer saw exactly the demand that was expressed.
func (p *producer) sees(want []int) {
	p.mu.Lock()
	defer p.mu.Unlock()
	vnd.Assert(len(p.demand) == len(want), "the producer sees each request")
	used := make([]bool, len(want))
	for _, n := range p.demand {
		hit := false
		for i, w := range want {
			if !used[i] && n == w {
				used[i], hit = true, true
				break
			}
		}
		vnd.Assert(hit, "the producer sees the amounts that were requested")
	}
}

func amount() int {
	n := vnd.Int("amount")
	vnd.Assume(n >= 1 && n <= rx.RequestMax)
	return n
}

// silent makes a producer that only records the demand.
func silent() *producer { return &producer{kind: prodHeld} }

// Requests for the items of a stream, before and after the producer starts.
//
//verif:harness C35 budget=40 t.budget=500
func H_C35_stream() {
	l := newLink()
	p := silent()
	start := make(chan bool, 1)
	slow := vnd.Bool("the handler takes its time")
	op := exportRS(func(context.Context, payload.Payload) flux.Flux[payload.Payload] {
		if slow {
			<-start
		}
		return p.flux()
	})
	f := l.h[vnd.Choice("caller", 2)].RequestStream(context.Background(), request(op, nil, nil))
	f.Subscribe(flux.Subscribe[payload.Payload]{NoRequest: true})
	n := 3
	if vnd.Thorough() {
		n = 4
	}
	var want []int
	for i := 0; i < n; i++ {
		k := amount()
		want = append(want, k)
		f.Subscription().Request(k)
		if i == 0 || vnd.Bool("settle") {
			vnd.Quiesce()
		}
		l.some(2)
		if i == 1 && slow && vnd.Bool("start") {
			slow = false
			start <- true
		}
	}
	l.drain()
	if slow {
		start <- true
	}
	l.drain()
	p.sees(want)
	vnd.Reach("end")
}

// Frames of a request and of more demand that arrive back to back.
//
//verif:harness C35 budget=40 t.budget=300
func H_C35_burst() {
	l := newLink()
	p := silent()
	op := exportRS(func(context.Context, payload.Payload) flux.Flux[payload.Payload] { return p.flux() })
	f := l.h[0].RequestStream(context.Background(), request(op, nil, nil))
	f.Subscribe(flux.Subscribe[payload.Payload]{NoRequest: true})
	var want []int
	for i := 0; i < 3; i++ {
		k := amount()
		want = append(want, k)
		f.Subscription().Request(k)
		vnd.Quiesce()
	}
	vnd.Assert(len(l.to[1]) == 3, "each request is sent")
	for i := 0; i < 3; i++ {
		l.deliver(1)
		if vnd.Bool("settle") {
			vnd.Quiesce()
		}
	}
	l.drain()
	p.sees(want)
	vnd.Reach("end")
}

// The default demand, and a consumer that asks for more as it goes.
//
//verif:harness C35 budget=40 t.budget=300
func H_C35_refill() {
	l := newLink()
	p := newProducer(prodDemand, 3)
	p.fails = false
	op := exportRS(func(context.Context, payload.Payload) flux.Flux[payload.Payload] { return p.flux() })
	f := l.h[0].RequestStream(context.Background(), request(op, nil, nil))
	c := &consumer{p: p}
	sub := c.subscribe(false)
	var want []int
	k := 1 + vnd.Choice("batch", 3)
	if vnd.Bool("default") {
		want = append(want, rx.RequestMax)
	} else {
		sub.OnRequest = func(s rx.Subscription) {
			want = append(want, k)
			s.Request(k)
		}
	}
	f.Subscribe(sub)
	l.drain()
	c.all()
	p.mu.Lock()
	total, asked := 0, 0
	for _, n := range p.demand {
		total += n
	}
	for _, n := range want {
		asked += n
	}
	p.mu.Unlock()
	if len(p.demand) == len(want) {
		p.sees(want)
	} else {
		// A request made with the last item is of no use to the producer.
		vnd.Assert(len(p.demand)+1 == len(want) && total+k == asked && total >= len(p.items), "the producer sees the demand")
	}
	vnd.Reach("end")
}

// Demand in both directions of a channel, whoever is ready first.
//
//verif:harness C35 budget=40 t.budget=500
func H_C35_channel() {
	l := newLink()
	in, out := silent(), silent()
	start := make(chan bool, 1)
	slow := vnd.Bool("the handler takes its time")
	late := vnd.Bool("the handler consumes its input late")
	var input flux.Flux[payload.Payload]
	op := exportRC(func(_ context.Context, _ payload.Payload, f flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
		if slow {
			<-start
		}
		input = f
		if !late {
			f.Subscribe(flux.Subscribe[payload.Payload]{NoRequest: true})
		}
		return out.flux()
	})
	caller := vnd.Choice("caller", 2)
	f := l.h[caller].RequestChannel(context.Background(), request(op, nil, nil), in.flux())
	f.Subscribe(flux.Subscribe[payload.Payload]{NoRequest: true})
	var wantOut, wantIn []int
	for i := 0; i < 2; i++ {
		k := amount()
		wantOut = append(wantOut, k)
		f.Subscription().Request(k)
		vnd.Quiesce()
	}
	l.deliver(1 - caller)
	if vnd.Bool("settle") {
		vnd.Quiesce()
	}
	if vnd.Bool("second too") {
		l.deliver(1 - caller)
	}
	if slow {
		start <- true
	}
	vnd.Quiesce()
	if late {
		l.some(1)
		input.Subscribe(flux.Subscribe[payload.Payload]{NoRequest: true})
	}
	for i := 0; i < 2; i++ {
		k := amount()
		wantIn = append(wantIn, k)
		input.Subscription().Request(k)
		if vnd.Bool("settle") {
			vnd.Quiesce()
		}
		l.some(1)
	}
	l.drain()
	out.sees(wantOut)
	in.sees(wantIn)
	vnd.Reach("end")
}

// An answer that comes at once: the peer's demand for the caller's items arrives while the caller is
// still sending its request.
//
//verif:harness C35
func H_C35_prompt() {
	l := newLink()
	in := silent()
	k := amount()
	var reqs int
	l.h[0].SetFrameSender(func(f frames.Frame) error {
		reqs++
		if reqs == 1 {
			l.h[0].HandleFrame(&frames.RequestN{StreamID: f.GetStreamID(), N: uint32(k)})
		}
		return nil
	})
	f := l.h[0].RequestChannel(context.Background(), request(0, nil, nil), in.flux())
	f.Subscribe(flux.Subscribe[payload.Payload]{})
	vnd.Quiesce()
	in.sees([]int{k})
	vnd.Reach("end")
}
