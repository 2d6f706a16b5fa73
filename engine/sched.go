package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// ---- goroutines ----

func (m *Machine) goStmt(fr *Frame, x *ssa.Go) {
	c := &x.Call
	args := make([]Value, len(c.Args))
	for i, a := range c.Args {
		args[i] = m.copyVal(m.get(fr, a))
	}
	var f Value
	if c.IsInvoke() {
		recv := m.get(fr, c.Value).(Iface)
		if recv.t == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
			return
		}
		fn := m.eng.method(recv.t, c.Method)
		args = append([]Value{recv.v}, args...)
		f = &Closure{fn: fn}
	} else if b, ok := c.Value.(*ssa.Builtin); ok {
		m.unsupported("go builtin " + b.Name())
	} else {
		f = m.get(fr, c.Value)
	}
	cl, ok := f.(*Closure)
	if !ok || cl == nil {
		m.plainPanic("go of nil func value")
		return
	}
	m.spawn(cl, args)
}

func (m *Machine) spawn(cl *Closure, args []Value) *Gor {
	g := &Gor{id: len(m.gs)}
	m.gs = append(m.gs, g)
	if len(m.gs) > m.h.opt.maxGor {
		m.end("bound", "more than %d goroutines", m.h.opt.maxGor)
	}
	if m.race != nil {
		g.vc = m.cur.vc.copy()
		g.vc.tick(g.id)
		m.cur.vc.tick(m.cur.id)
	}
	save := m.cur
	m.cur = g
	if cl.nat != nil {
		cl.nat(m, args)
		g.done = true
	} else if in, ok := m.w.intrinsic(cl.fn); ok && in.model == nil {
		in.f(m, cl.fn, args, nil)
		if len(g.frames) == 0 {
			g.done = true
		}
	} else {
		fn := cl.fn
		if ok {
			fn = in.model
		}
		m.pushFrame(g, fn, args, cl.env, nil)
	}
	m.cur = save
	return g
}

// onExit and blockOn mark the last recorded point of a goroutine: natively, nothing more is to be
// expected from it until someone else makes it runnable.
func (m *Machine) onExit(g *Gor) { m.markB(g) }

func (m *Machine) markB(g *Gor) {
	if i, ok := m.lastRec[g]; ok {
		m.trace[i].B = true
	}
}

func (m *Machine) record(g *Gor, id int) {
	if m.lastRec == nil {
		m.lastRec = map[*Gor]int{}
	}
	m.lastRec[g] = len(m.trace)
	m.trace = append(m.trace, SchedRec{G: g.id, P: id})
}

func (m *Machine) runnable() []*Gor {
	var r []*Gor
	for _, g := range m.gs {
		if g.done || len(g.frames) == 0 {
			continue
		}
		if g.block == nil || g.block.ready != nil && g.block.ready() {
			r = append(r, g)
		}
	}
	return r
}

// blockOn suspends the current goroutine; ready (optional) is polled.
func (m *Machine) blockOn(why string, ready func() bool) {
	if m.initing > 0 {
		m.unsupported("blocking in package initialisation: " + why)
	}
	m.cur.block = &blockInfo{why: why, ready: ready}
	m.markB(m.cur)
}

// schedule picks the goroutine to run when the current one cannot continue.
func (m *Machine) schedule() bool {
	r := m.runnable()
	if len(r) == 0 {
		// goroutines waiting for quiescence
		for _, g := range m.gs {
			if !g.done && g.block != nil && g.block.quies {
				g.block = nil
				m.cur = g
				m.traceSwitch(g)
				return true
			}
		}
		if m.fireTimer() {
			return m.schedule()
		}
		return false
	}
	// default: next after the current one in creation order, round robin
	cid := -1
	if m.cur != nil {
		cid = m.cur.id
	}
	sort.SliceStable(r, func(i, j int) bool {
		a, b := r[i].id > cid, r[j].id > cid
		if a != b {
			return a
		}
		return r[i].id < r[j].id
	})
	k := 0
	if m.h.opt.sched && len(r) > 1 && m.preempts < m.h.opt.switches {
		k = m.choose("sched", len(r))
		if k > 0 {
			m.preempts++
		}
	}
	g := r[k]
	g.block = nil
	m.cur = g
	m.traceSwitch(g)
	return true
}

func (m *Machine) traceSwitch(g *Gor) {
	if !m.h.opt.sched {
		return
	}
}

// point is a possible context switch before a statement.
func (m *Machine) point(id int) {
	if !m.h.opt.sched || m.initing > 0 {
		return
	}
	r := m.runnable()
	if len(r) > 1 && m.preempts < m.h.opt.switches && m.eng.activePoint(m.h, id) {
		others := make([]*Gor, 0, len(r))
		for _, g := range r {
			if g != m.cur {
				others = append(others, g)
			}
		}
		k := m.choose("sched", len(others)+1)
		if k > 0 {
			m.preempts++
			me := m.cur
			// arrive at this point, let the other run
			g := others[k-1]
			g.block = nil
			m.cur = g
			m.pendingPoint(me, id)
			return
		}
	}
	m.record(m.cur, id)
}

// pendingPoint: the goroutine passes point id only when it runs next.
func (m *Machine) pendingPoint(g *Gor, id int) {
	fr := g.frames[len(g.frames)-1]
	_ = fr
	if m.extra == nil {
		m.extra = map[string]interface{}{}
	}
	pp, _ := m.extra["pp"].(map[*Gor]int)
	if pp == nil {
		pp = map[*Gor]int{}
		m.extra["pp"] = pp
	}
	pp[g] = id
}

func (m *Machine) flushPoint() {
	if m.extra == nil {
		return
	}
	pp, _ := m.extra["pp"].(map[*Gor]int)
	if id, ok := pp[m.cur]; ok {
		delete(pp, m.cur)
		m.record(m.cur, id)
	}
}

// run executes goroutines until the main one is done.
func (m *Machine) run(main *Gor) {
	m.cur = main
	for {
		if main.done {
			return
		}
		if m.cur.done || m.cur.block != nil || len(m.cur.frames) == 0 {
			if b := m.cur.block; b != nil && b.ready != nil && !m.h.opt.sched && b.ready() {
				m.cur.block = nil
			} else if !m.schedule() {
				m.deadlock()
			}
		}
		if m.extra != nil {
			m.runResume()
			m.flushPoint()
			if m.cur.block != nil || m.cur.done || len(m.cur.frames) == 0 {
				continue
			}
		}
		m.step()
	}
}

func (m *Machine) deadlock() {
	msg := "deadlock: "
	for _, g := range m.gs {
		if !g.done && g.block != nil {
			m.cur = g
			msg += fmt.Sprintf("[g%d %s at %s] ", g.id, g.block.why, m.where())
		}
	}
	m.cur = m.gs[0]
	m.eng.reportAt(m, "deadlock", msg, m.model, m.blame(), m.backtrace())
	panic(pathEnd{kind: "violation", msg: msg})
}

// ---- mutexes ----

type mutexState struct {
	locked  bool
	readers int
	wwait   int
	vc, rvc VC
	owner   int
}

func (m *Machine) mutex(p Value) *mutexState {
	s, ok := p.(*Value)
	if !ok {
		m.unsupported(fmt.Sprintf("mutex at %T", p))
	}
	if s == nil {
		return nil
	}
	st := m.mutexes[s]
	if st == nil {
		st = &mutexState{}
		m.mutexes[s] = st
	}
	return st
}

// retry arranges for the call instruction to be executed again when the goroutine resumes.
func (m *Machine) retry() { m.top().ip-- }

func (m *Machine) lock(p Value) Value {
	st := m.mutex(p)
	if st == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
		return handled{}
	}
	if st.locked || st.readers > 0 {
		if m.initing > 0 {
			return nil
		}
		st.wwait++
		me := m.cur
		m.blockOn("lock", func() bool { return !st.locked && st.readers == 0 })
		// take it on resumption
		m.onResume(me, func() { st.wwait--; m.lockTake(st) })
		return nil
	}
	m.lockTake(st)
	return nil
}

func (m *Machine) lockTake(st *mutexState) {
	st.locked = true
	st.owner = m.cur.id
	if m.race != nil {
		m.cur.vc.join(st.vc)
		m.cur.vc.join(st.rvc)
	}
}

// onResume runs f when the (blocked) goroutine is picked again.
func (m *Machine) onResume(g *Gor, f func()) {
	old := g.block.ready
	b := g.block
	b.ready = old
	if m.extra == nil {
		m.extra = map[string]interface{}{}
	}
	rm, _ := m.extra["resume"].(map[*Gor]func())
	if rm == nil {
		rm = map[*Gor]func(){}
		m.extra["resume"] = rm
	}
	rm[g] = f
}

func (m *Machine) runResume() {
	if m.extra == nil {
		return
	}
	rm, _ := m.extra["resume"].(map[*Gor]func())
	if f, ok := rm[m.cur]; ok {
		delete(rm, m.cur)
		f()
	}
}

func (m *Machine) unlock(p Value) Value {
	st := m.mutex(p)
	if st == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
		return handled{}
	}
	if !st.locked {
		if m.initing > 0 {
			return nil
		}
		m.fatalPanic("sync: unlock of unlocked mutex")
		return handled{}
	}
	st.locked = false
	if m.race != nil {
		st.vc = m.cur.vc.copy()
		m.cur.vc.tick(m.cur.id)
	}
	return nil
}

func (m *Machine) tryLock(p Value) Value {
	st := m.mutex(p)
	if st.locked || st.readers > 0 {
		return m.tt.F
	}
	m.lockTake(st)
	return m.tt.T
}

func (m *Machine) rlock(p Value) Value {
	st := m.mutex(p)
	if st == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
		return handled{}
	}
	take := func() {
		st.readers++
		if m.race != nil {
			m.cur.vc.join(st.vc)
		}
	}
	// a waiting writer blocks new readers
	if st.locked || st.wwait > 0 {
		me := m.cur
		m.blockOn("rlock", func() bool { return !st.locked && (st.wwait == 0 || st.readers == 0 && false) })
		m.onResume(me, take)
		return nil
	}
	take()
	return nil
}

func (m *Machine) runlock(p Value) Value {
	st := m.mutex(p)
	if st == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
		return handled{}
	}
	if st.readers == 0 {
		m.fatalPanic("sync: RUnlock of unlocked RWMutex")
		return handled{}
	}
	st.readers--
	if m.race != nil {
		if st.rvc == nil {
			st.rvc = VC{}
		}
		st.rvc = st.rvc.joined(m.cur.vc)
		m.cur.vc.tick(m.cur.id)
	}
	return nil
}

type wgState struct {
	n  int64
	vc VC
}

func (m *Machine) wg(p Value) *wgState {
	s := p.(*Value)
	st := m.wgs[s]
	if st == nil {
		st = &wgState{}
		m.wgs[s] = st
	}
	return st
}

func (m *Machine) wgAdd(p Value, d int64) Value {
	st := m.wg(p)
	st.n += d
	if m.race != nil {
		st.vc = st.vc.joined(m.cur.vc)
		m.cur.vc.tick(m.cur.id)
	}
	if st.n < 0 {
		m.plainPanic("sync: negative WaitGroup counter")
		return handled{}
	}
	return nil
}

func (m *Machine) wgWait(p Value) Value {
	st := m.wg(p)
	fin := func() {
		if m.race != nil {
			m.cur.vc.join(st.vc)
		}
	}
	if st.n > 0 {
		me := m.cur
		m.blockOn("WaitGroup.Wait", func() bool { return st.n == 0 })
		m.onResume(me, fin)
		return nil
	}
	fin()
	return nil
}

type poolState struct {
	items []Value
	vc    VC
}

// ---- channels ----

type waiter struct {
	g     *Gor
	fired *bool
	val   Value
	done  func(v Value, ok bool)
	vc    VC
	dead  bool
}

func live(q []*waiter) []*waiter {
	for len(q) > 0 && *q[0].fired {
		q = q[1:]
	}
	return q
}

func (m *Machine) chanRel() VC {
	if m.race == nil {
		return nil
	}
	v := m.cur.vc.copy()
	m.cur.vc.tick(m.cur.id)
	return v
}
func (m *Machine) chanAcq(g *Gor, v VC) {
	if m.race != nil && v != nil {
		g.vc.join(v)
	}
}

// trySend performs a send if possible; done=false means it must wait.
func (m *Machine) trySend(c *ChanV, v Value) (done, closed bool) {
	if c.closed {
		return false, true
	}
	c.recvq = live(c.recvq)
	if len(c.recvq) > 0 {
		w := c.recvq[0]
		c.recvq = c.recvq[1:]
		*w.fired = true
		m.chanAcq(w.g, m.chanRel())
		if m.race != nil && c.cap == 0 {
			m.cur.vc.join(w.vc)
		}
		w.done(v, true)
		return true, false
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		c.bufVC = append(c.bufVC, m.chanRel())
		return true, false
	}
	return false, false
}

func (m *Machine) tryRecv(c *ChanV) (v Value, ok, done bool) {
	if len(c.buf) > 0 {
		v = c.buf[0]
		c.buf = append([]Value(nil), c.buf[1:]...)
		m.chanAcq(m.cur, c.bufVC[0])
		c.bufVC = append([]VC(nil), c.bufVC[1:]...)
		c.sendq = live(c.sendq)
		if len(c.sendq) > 0 {
			w := c.sendq[0]
			c.sendq = c.sendq[1:]
			*w.fired = true
			c.buf = append(c.buf, w.val)
			c.bufVC = append(c.bufVC, w.vc)
			w.done(nil, true)
		}
		return v, true, true
	}
	c.sendq = live(c.sendq)
	if len(c.sendq) > 0 {
		w := c.sendq[0]
		c.sendq = c.sendq[1:]
		*w.fired = true
		m.chanAcq(m.cur, w.vc)
		if m.race != nil {
			w.g.vc.join(m.chanRel())
		}
		w.done(nil, true)
		return w.val, true, true
	}
	if c.closed {
		m.chanAcq(m.cur, c.vc)
		return m.zero(c.et), false, true
	}
	return nil, false, false
}

func (m *Machine) chanSend(fr *Frame, x *ssa.Send) {
	c := m.get(fr, x.Chan).(*ChanV)
	v := m.copyVal(m.get(fr, x.X))
	fr.ip++
	if c == nil {
		m.blockOn("send on nil channel", nil)
		return
	}
	done, closed := m.trySend(c, v)
	if closed {
		m.plainPanic("send on closed channel")
		return
	}
	if done {
		return
	}
	m.blockOn("channel send", nil)
	g := m.cur
	f := new(bool)
	w := &waiter{g: g, fired: f, val: v}
	if m.race != nil {
		w.vc = m.chanRel()
	}
	w.done = func(_ Value, ok bool) {
		g.block = nil
		if !ok {
			m.onGor(g, func() { m.plainPanic("send on closed channel") })
		}
	}
	c.sendq = append(c.sendq, w)
}

// onGor runs f as if on goroutine g.
func (m *Machine) onGor(g *Gor, f func()) {
	save := m.cur
	m.cur = g
	f()
	m.cur = save
}

func recvResult(x *ssa.UnOp, v Value, ok *Term) Value {
	if x.CommaOk {
		return Tuple{v, ok}
	}
	return v
}

func (m *Machine) chanRecv(fr *Frame, x *ssa.UnOp) {
	cv := m.get(fr, x.X)
	c, ok := cv.(*ChanV)
	if !ok {
		m.unsupported(fmt.Sprintf("receive from %T", cv))
	}
	if c == nil {
		fr.ip++
		m.blockOn("receive from nil channel", nil)
		return
	}
	v, okv, done := m.tryRecv(c)
	if done {
		m.set(fr, x, recvResult(x, v, m.tt.Bool(okv)))
		fr.ip++
		return
	}
	g := m.cur
	fr.ip++
	m.blockOn("channel receive", nil)
	f := new(bool)
	w := &waiter{g: g, fired: f}
	if m.race != nil {
		w.vc = m.chanRel()
	}
	w.done = func(v Value, ok bool) {
		g.block = nil
		m.set(fr, x, recvResult(x, v, m.tt.Bool(ok)))
	}
	c.recvq = append(c.recvq, w)
}

func (m *Machine) chanClose(v Value) {
	c := v.(*ChanV)
	if c == nil {
		m.plainPanic("close of nil channel")
		return
	}
	if c.closed {
		m.plainPanic("close of closed channel")
		return
	}
	c.closed = true
	c.vc = m.chanRel()
	for _, w := range c.recvq {
		if !*w.fired {
			*w.fired = true
			m.chanAcq(w.g, c.vc)
			w.done(m.zero(c.et), false)
		}
	}
	c.recvq = nil
	for _, w := range c.sendq {
		if !*w.fired {
			*w.fired = true
			w.done(nil, false)
		}
	}
	c.sendq = nil
}

func (m *Machine) doSelect(fr *Frame, x *ssa.Select) {
	type cs struct {
		c *ChanV
		v Value
	}
	cases := make([]cs, len(x.States))
	var ready []int
	for i, s := range x.States {
		c, _ := m.get(fr, s.Chan).(*ChanV)
		cases[i].c = c
		if s.Dir == types.SendOnly {
			cases[i].v = m.copyVal(m.get(fr, s.Send))
		}
		if c == nil {
			continue
		}
		if s.Dir == types.SendOnly {
			c.recvq = live(c.recvq)
			if c.closed || len(c.recvq) > 0 || len(c.buf) < c.cap {
				ready = append(ready, i)
			}
		} else {
			c.sendq = live(c.sendq)
			if len(c.buf) > 0 || len(c.sendq) > 0 || c.closed {
				ready = append(ready, i)
			}
		}
	}
	result := func(idx int, v Value, ok bool) Tuple {
		t := Tuple{m.tt.Int(int64(idx)), m.tt.Bool(ok)}
		for i, s := range x.States {
			if s.Dir == types.RecvOnly {
				if i == idx {
					t = append(t, v)
				} else {
					t = append(t, m.zero(s.Chan.Type().Underlying().(*types.Chan).Elem()))
				}
			}
		}
		return t
	}
	if len(ready) > 0 {
		k := 0
		if len(ready) > 1 {
			k = m.choose("select", len(ready))
		}
		i := ready[k]
		fr.ip++
		if x.States[i].Dir == types.SendOnly {
			_, closed := m.trySend(cases[i].c, cases[i].v)
			if closed {
				m.plainPanic("send on closed channel")
				return
			}
			m.set(fr, x, result(i, nil, false))
			return
		}
		v, ok, _ := m.tryRecv(cases[i].c)
		m.set(fr, x, result(i, v, ok))
		return
	}
	if !x.Blocking {
		fr.ip++
		m.set(fr, x, result(-1, nil, false))
		return
	}
	g := m.cur
	fr.ip++
	m.blockOn("select", nil)
	fired := new(bool)
	for i, s := range x.States {
		i := i
		c := cases[i].c
		if c == nil {
			continue
		}
		w := &waiter{g: g, fired: fired, val: cases[i].v}
		if m.race != nil {
			w.vc = m.chanRel()
		}
		if s.Dir == types.SendOnly {
			w.done = func(_ Value, ok bool) {
				g.block = nil
				if !ok {
					m.onGor(g, func() { m.plainPanic("send on closed channel") })
					return
				}
				m.set(fr, x, result(i, nil, false))
			}
			c.sendq = append(c.sendq, w)
		} else {
			w.done = func(v Value, ok bool) {
				g.block = nil
				m.set(fr, x, result(i, v, ok))
			}
			c.recvq = append(c.recvq, w)
		}
	}
}

// ---- timers ----

type timerRec struct {
	when  uint64
	fire  func()
	alive bool
	seq   int
}

// fireTimer lets the earliest pending timer expire when nothing else can run.
func (m *Machine) fireTimer() bool {
	best := -1
	for i, t := range m.timers {
		if t.alive && (best < 0 || t.when < m.timers[best].when) {
			best = i
		}
	}
	if best < 0 {
		return false
	}
	t := m.timers[best]
	t.alive = false
	t.fire()
	return true
}

// ---- vector clocks ----

type VC map[int]int

func (v VC) copy() VC {
	r := VC{}
	for k, x := range v {
		r[k] = x
	}
	return r
}
func (v VC) join(o VC) {
	for k, x := range o {
		if x > v[k] {
			v[k] = x
		}
	}
}
func (v VC) joined(o VC) VC {
	r := v.copy()
	r.join(o)
	return r
}
func (v VC) tick(i int) { v[i]++ }

type raceCell struct {
	wg, wc int
	wset   bool
	wpos   string
	r      map[int]int
	rpos   map[int]string
}

type raceState struct {
	cells map[interface{}]*raceCell
	seen  map[string]bool
}

func newRace() *raceState {
	return &raceState{cells: map[interface{}]*raceCell{}, seen: map[string]bool{}}
}

func (m *Machine) raceOn(key interface{}, write bool) {
	if m.initing > 0 || m.cur == nil || m.cur.vc == nil {
		return
	}
	if len(m.gs) == 1 && len(m.race.cells) == 0 {
		return
	}
	c := m.race.cells[key]
	if c == nil {
		c = &raceCell{}
		m.race.cells[key] = c
	}
	m.raceCheck(c, write)
}

func (m *Machine) raceCheck(c *raceCell, write bool) {
	g := m.cur
	if c.wset && c.wg != g.id && c.wc > g.vc[c.wg] {
		m.raceReport(c.wpos, write)
	}
	if write {
		for rg, rc := range c.r {
			if rg != g.id && rc > g.vc[rg] {
				m.raceReport(c.rpos[rg], write)
			}
		}
		c.wset = true
		c.wg, c.wc = g.id, g.vc[g.id]
		c.wpos = m.where()
		c.r, c.rpos = nil, nil
	} else {
		if c.r == nil {
			c.r, c.rpos = map[int]int{}, map[int]string{}
		}
		c.r[g.id] = g.vc[g.id]
		c.rpos[g.id] = m.where()
	}
}

func (m *Machine) raceReport(other string, write bool) {
	here := m.where()
	a, b := here, other
	if a > b {
		a, b = b, a
	}
	k := a + " / " + b
	if m.race.seen[k] {
		return
	}
	m.race.seen[k] = true
	m.eng.raceFound(m, k)
}

func (m *Machine) raceAccess(p *Value, write bool) {
	m.raceOn(p, write)
}

func (m *Machine) raceDeep(v Value, write bool) {
	switch x := v.(type) {
	case *StructV:
		for i := range x.f {
			if isPlain(x.f[i]) {
				m.raceOn(&x.f[i], write)
			} else {
				m.raceDeep(x.f[i], write)
			}
		}
	}
}

type elemKey struct {
	mem *Mem
	idx uint64
}

func (m *Machine) raceElem(p ElemPtr, write bool) {
	if p.idx.isConst() {
		m.raceOn(elemKey{p.mem, p.idx.k}, write)
	} else {
		m.raceOn(elemKey{p.mem, m.evalT(p.idx)}, write)
	}
}

func (m *Machine) raceRange(s *SliceV, write bool) {
	if s.mem == nil {
		return
	}
	n := s.len.k
	if !s.len.isConst() {
		n = m.evalT(s.len)
	}
	o := s.off.k
	if !s.off.isConst() {
		o = m.evalT(s.off)
	}
	for i := uint64(0); i < n && i < 64; i++ {
		m.raceOn(elemKey{s.mem, o + i}, write)
	}
}

func (m *Machine) raceMap(mp *MapV, write bool) { m.raceOn(mp, write) }
