package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Dec is one recorded decision of a path: a branch direction, or a candidate value and whether it was taken.
type Dec struct {
	taken bool
	val   uint64
	site  uint32 // checksum of the site, to detect a replay going off its recorded path
}

type pathEnd struct {
	kind string // ok, infeasible, bound, unsupported, violation, desync, timeout
	msg  string
	site string
}

type Gor struct {
	id     int
	frames []*Frame
	done   bool
	block  *blockInfo
	vc     VC
}

type blockInfo struct {
	why   string
	ready func() bool // may the goroutine continue?
	quies bool
}

type deferRec struct {
	fn   Value
	args []Value
	inst ssa.Instruction
	invk *types.Func
}

type Panic struct {
	v      Iface
	msg    string
	site   string
	rt     bool
	fatal  bool // not recoverable (e.g. unlock of unlocked mutex, concurrent map write)
	goexit bool
	stack  []string
}

type Frame struct {
	fn        *ssa.Function
	info      *FnInfo
	regs      []Value
	blk, prev *ssa.BasicBlock
	ip        int
	env       []Value
	defers    []deferRec
	call      ssa.Value // register in the caller receiving the result
	onRet     func(Value)
	panicking *Panic
	recovered bool
	isDefer   bool
	loops     map[*ssa.BasicBlock]int
	symLoops  map[ssa.Instruction]int
	retAfter  bool
}

type FnInfo struct {
	idx map[ssa.Value]int
	n   int
}

var fnInfos sync.Map

func getInfo(fn *ssa.Function) *FnInfo {
	if v, ok := fnInfos.Load(fn); ok {
		return v.(*FnInfo)
	}
	fi := &FnInfo{idx: map[ssa.Value]int{}}
	add := func(v ssa.Value) { fi.idx[v] = fi.n; fi.n++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	v, _ := fnInfos.LoadOrStore(fn, fi)
	return v.(*FnInfo)
}

type Machine struct {
	w   *Worker
	eng *Engine
	tt  *TermTable
	sol *Solver
	h   *Harness

	gs  []*Gor
	cur *Gor

	pc    []*Term
	pcSet map[*Term]bool
	sup   *support
	model *Model
	epoch int64

	prefix []Dec
	dec    []Dec

	globals map[*ssa.Global]*Value
	inited  map[*ssa.Package]bool

	steps     int
	memID     uint64
	inputs    []InputRec
	inputSeq  map[string]int
	trace     []SchedRec
	lastRec   map[*Gor]int
	preempts  int
	addrs     map[interface{}]uint64
	byAddr    map[uint64]Value
	nextAddr  uint64
	freeAddrs []uint64
	mutexes   map[*Value]*mutexState
	wgs       map[*Value]*wgState
	pools     map[*Value]*poolState
	conds     map[*Value][]*Gor
	race      *raceState
	allocLim  *Term
	allocSum  *Term
	chanID    int
	timers    []*timerRec
	nowSeq    int
	depthMax  int
	stackLim  int
	tolerant  bool
	reached   map[string]bool
	notes     map[string]bool
	events    []string
	schedSeq  int
	initing   int
	quick     bool
	extra     map[string]interface{}
}

type SchedRec struct {
	G     int    `json:"g"`
	P     int    `json:"p"`
	B     bool   `json:"b,omitempty"`
	Where string `json:"w,omitempty"`
}

type InputRec struct {
	Name string
	Kind string // u8.. bytes string bool
	T    *Term
	C    *Chain
	Off  *Term
	N    *Term
}

func (m *Machine) end(kind, format string, a ...interface{}) {
	panic(pathEnd{kind: kind, msg: fmt.Sprintf(format, a...), site: m.where()})
}

func (m *Machine) unsupported(why string) {
	if m.tolerant {
		panic(tolerate{why})
	}
	m.end("unsupported", "%s", why)
}

type tolerate struct{ why string }

func (m *Machine) pos(in ssa.Instruction, fn *ssa.Function) string {
	p := token.NoPos
	if in != nil {
		p = in.Pos()
	}
	if p == token.NoPos && fn != nil {
		p = fn.Pos()
	}
	s := m.eng.fset.Position(p)
	return fmt.Sprintf("%s:%d", trimRepo(s.Filename), s.Line)
}

func trimRepo(f string) string {
	if i := strings.Index(f, "/repo/go/"); i >= 0 {
		return f[i+len("/repo/go/"):]
	}
	if i := strings.LastIndex(f, "/src/"); i >= 0 {
		return f[i+5:]
	}
	return f
}

func (m *Machine) where() string {
	if m.cur == nil || len(m.cur.frames) == 0 {
		return ""
	}
	fr := m.cur.frames[len(m.cur.frames)-1]
	var in ssa.Instruction
	if fr.blk != nil {
		for i := min(fr.ip, len(fr.blk.Instrs)-1); i >= 0; i-- {
			if fr.blk.Instrs[i].Pos() != token.NoPos {
				in = fr.blk.Instrs[i]
				break
			}
		}
	}
	return fr.fn.String() + " " + m.pos(in, fr.fn)
}

func (m *Machine) backtrace() []string {
	var out []string
	if m.cur == nil {
		return nil
	}
	for i := len(m.cur.frames) - 1; i >= 0 && len(out) < 40; i-- {
		fr := m.cur.frames[i]
		var in ssa.Instruction
		if fr.blk != nil {
			for j := min(fr.ip, len(fr.blk.Instrs)-1); j >= 0; j-- {
				if fr.blk.Instrs[j].Pos() != token.NoPos {
					in = fr.blk.Instrs[j]
					break
				}
			}
		}
		out = append(out, fr.fn.String()+" "+m.pos(in, fr.fn))
	}
	return out
}

// site is where blame is put: the innermost frame inside the repository.
func (m *Machine) blame() string {
	for _, s := range m.backtrace() {
		if strings.Contains(s, "github.com/nanobus/iota") && !strings.Contains(s, "/vnd") {
			return s
		}
	}
	return m.where()
}

// ---- path condition ----

func (m *Machine) known(t *Term) *Term {
	if t.isConst() {
		return t
	}
	if m.pcSet[t] {
		return m.tt.T
	}
	if m.pcSet[m.tt.BNot(t)] {
		return m.tt.F
	}
	return t
}

func (m *Machine) addPC(t *Term) {
	if t.isTrue() {
		return
	}
	if t.op == OpBAnd {
		m.addPC(t.args[0])
		m.addPC(t.args[1])
		return
	}
	if m.pcSet[t] {
		return
	}
	m.pc = append(m.pc, t)
	m.pcSet[t] = true
	m.sup.add(t)
}

func (m *Machine) evalT(t *Term) uint64 { return m.tt.eval(t, m.model, m.epoch) }

func (m *Machine) setModel(md *Model) {
	m.model = md
	m.w.epoch++
	m.epoch = m.w.epoch
}

func siteSum(s string) uint32 {
	h := uint32(2166136261)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint32(s[i])) * 16777619
	}
	return h
}

func (m *Machine) siteID() uint32 {
	if len(m.cur.frames) == 0 {
		return uint32(m.cur.id) // the goroutine has ended: a scheduling decision
	}
	fr := m.cur.frames[len(m.cur.frames)-1]
	return siteSum(fr.fn.Name()) ^ uint32(fr.ip)<<16 ^ uint32(len(m.cur.frames))<<8
}

// branch decides a condition, forking the path when both directions are feasible.
func (m *Machine) branch(c *Term) bool {
	c = m.known(c)
	if c.isConst() {
		return c.isTrue()
	}
	if m.tolerant {
		m.unsupported("symbolic branch in package initialisation")
	}
	site := m.siteID()
	if len(m.dec) < len(m.prefix) {
		d := m.prefix[len(m.dec)]
		if d.site != site {
			m.end("desync", "replayed decision %d at another site", len(m.dec))
		}
		m.dec = append(m.dec, d)
		if d.taken {
			m.addPC(c)
		} else {
			m.addPC(m.tt.BNot(c))
		}
		return d.taken
	}
	m.w.checkDeadline(m)
	dir := m.evalT(c) == 1
	other := c
	if dir {
		other = m.tt.BNot(c)
	}
	r, md := m.sol.check(m.pc, other, m.sup, true)
	switch r {
	case SatYes:
		pre := append(append([]Dec(nil), m.dec...), Dec{taken: !dir, site: site})
		m.eng.push(m.h, pre, md)
	case Unknown:
		m.note("solver gave no answer for a branch at " + m.where())
		m.eng.incomplete(m.h, "solver-unknown")
	}
	m.dec = append(m.dec, Dec{taken: dir, site: site})
	if dir {
		m.addPC(c)
	} else {
		m.addPC(m.tt.BNot(c))
	}
	return dir
}

// concretize picks a concrete value for t, forking over all feasible values.
func (m *Machine) concretize(t *Term, limit int) uint64 {
	if t.isConst() {
		return t.k
	}
	if m.tolerant {
		m.unsupported("symbolic value in package initialisation")
	}
	for n := 0; ; n++ {
		if n > limit {
			m.end("bound", "more than %d values for an index or size", limit)
		}
		site := m.siteID() ^ 0x5a5a
		if len(m.dec) < len(m.prefix) {
			d := m.prefix[len(m.dec)]
			if d.site != site {
				m.end("desync", "replayed value decision %d at another site", len(m.dec))
			}
			m.dec = append(m.dec, d)
			e := m.tt.Eq(t, m.tt.constw(t.w, d.val))
			if d.taken {
				m.addPC(e)
				return d.val
			}
			m.addPC(m.tt.BNot(e))
			continue
		}
		m.w.checkDeadline(m)
		v := m.evalT(t)
		e := m.tt.Eq(t, m.tt.constw(t.w, v))
		ne := m.tt.BNot(m.known(e))
		if !ne.isFalse() {
			r, md := m.sol.check(m.pc, ne, m.sup, true)
			switch r {
			case SatYes:
				pre := append(append([]Dec(nil), m.dec...), Dec{taken: false, val: v, site: site})
				m.eng.push(m.h, pre, md)
			case Unknown:
				m.eng.incomplete(m.h, "solver-unknown")
			}
		}
		m.dec = append(m.dec, Dec{taken: true, val: v, site: site})
		m.addPC(e)
		return v
	}
}

// choose forks over 0..n-1 through a solver variable.
func (m *Machine) choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	v := m.freshVar("choice."+name, 64, uint64(n-1))
	return int(m.concretize(v, n+1))
}

func (m *Machine) freshName(name string) string {
	k := m.inputSeq[name]
	m.inputSeq[name] = k + 1
	if k == 0 {
		return name
	}
	return fmt.Sprintf("%s#%d", name, k)
}

func (m *Machine) freshVar(name string, w int, max uint64) *Term {
	return m.tt.Var(m.freshName(name), w, max)
}

// assume constrains the path.
func (m *Machine) assume(c *Term) {
	c = m.known(c)
	if c.isTrue() {
		return
	}
	if c.isFalse() {
		m.end("infeasible", "assumption")
	}
	if len(m.dec) < len(m.prefix) {
		m.addPC(c) // the item's model satisfies the whole prefix
		return
	}
	if m.evalT(c) != 1 {
		r, md := m.sol.check(m.pc, c, m.sup, true)
		switch r {
		case Unsat:
			m.end("infeasible", "assumption")
		case Unknown:
			m.eng.incomplete(m.h, "solver-unknown")
			m.end("bound", "solver gave no answer for an assumption")
		}
		m.setModel(md)
	}
	m.addPC(c)
}

// assertT checks an assertion; a satisfiable negation is a candidate violation.
func (m *Machine) assertT(c *Term, kind, msg string) {
	m.eng.stat(func(s *Stats) { s.asserts++ })
	c = m.known(c)
	if c.isTrue() {
		m.eng.stat(func(s *Stats) { s.assertsConst++ })
		return
	}
	if len(m.dec) < len(m.prefix) && !c.isFalse() {
		// already decided by the path this one was forked from
		m.addPC(c)
		return
	}
	if c.isFalse() {
		m.violation(kind, msg, m.model)
		m.end("violation", "%s", msg)
	}
	neg := m.tt.BNot(c)
	r, md := m.sol.check(m.pc, neg, m.sup, true)
	if r == Unknown {
		r, md = m.hardCheck(neg)
	}
	switch r {
	case SatYes:
		m.violation(kind, msg, md)
		if m.evalT(c) != 1 {
			r, md := m.sol.check(m.pc, c, m.sup, true)
			if r != SatYes {
				m.end("violation", "%s", msg)
			}
			m.setModel(md)
		}
	case Unknown:
		m.eng.incomplete(m.h, "solver-unknown-assert")
		m.note("solver gave no answer for assertion: " + msg)
		if m.evalT(c) != 1 {
			m.violation(kind, msg, m.model)
			m.end("violation", "%s", msg)
		}
	}
	m.addPC(c)
}

// hardCheck retries a query in a fresh solver with a longer limit.
func (m *Machine) hardCheck(extra *Term) (Sat, *Model) {
	return m.sol.portfolio(m.pc, extra, m.sup, 6*time.Duration(m.sol.timeout)*time.Millisecond)
}

func (m *Machine) note(s string) {
	m.eng.note(m.h, s)
}

func (m *Machine) violation(kind, msg string, md *Model) {
	m.eng.report(m, kind, msg, md)
}

// ---- operands ----

func (m *Machine) get(fr *Frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return m.w.constant(m, x)
	case *ssa.Global:
		return m.global(x)
	case *ssa.Function:
		return m.w.funcVal(x)
	case *ssa.Builtin:
		return x
	}
	i, ok := fr.info.idx[v]
	if !ok {
		m.end("unsupported", "unknown value %s in %s", v.Name(), fr.fn)
	}
	r := fr.regs[i]
	if r == nil {
		m.end("unsupported", "register %s unset in %s", v.Name(), fr.fn)
	}
	return r
}

func (m *Machine) set(fr *Frame, v ssa.Value, x Value) { fr.regs[fr.info.idx[v]] = x }

func (m *Machine) getT(fr *Frame, v ssa.Value) *Term {
	x := m.get(fr, v)
	switch t := x.(type) {
	case *Term:
		return t
	case poison:
		m.unsupported("use of unsupported value: " + t.why)
	case DataPtr, ElemPtr, *Value:
		return m.addrOf(x)
	}
	m.unsupported(fmt.Sprintf("term expected, got %T in %s", x, fr.fn))
	return nil
}

// ---- calls ----

// push starts executing fn on goroutine g.
func (m *Machine) pushFrame(g *Gor, fn *ssa.Function, args, env []Value, res ssa.Value) *Frame {
	m.eng.build(fn)
	if fn.Blocks == nil {
		m.unsupported("no body: " + fn.String())
	}
	if lim := m.stackLim; len(g.frames) > lim && (lim > 0 || len(g.frames) > 400) {
		m.end("violation-stack", "stack overflow (unbounded recursion) in %s", fn)
	}
	info := getInfo(fn)
	fr := &Frame{fn: fn, info: info, regs: make([]Value, info.n), blk: fn.Blocks[0], env: env, call: res}
	if len(args) != len(fn.Params) {
		m.end("unsupported", "call of %s with %d args for %d params", fn, len(args), len(fn.Params))
	}
	for i := range args {
		fr.regs[i] = m.copyVal(args[i])
	}
	for i := range env {
		fr.regs[len(fn.Params)+i] = env[i]
	}
	g.frames = append(g.frames, fr)
	m.eng.touch(fn)
	return fr
}

func (m *Machine) top() *Frame { return m.cur.frames[len(m.cur.frames)-1] }

// ret delivers a value to the current top frame after a frame was popped or an intrinsic ran.
func (m *Machine) deliver(res ssa.Value, v Value) {
	if res == nil {
		return
	}
	fr := m.top()
	if v == nil {
		v = Tuple{}
	}
	m.set(fr, res, v)
}

// invoke calls a function value. The caller's ip must already be past the call.
func (m *Machine) callValue(f Value, args []Value, res ssa.Value) {
	switch c := f.(type) {
	case *Closure:
		if c == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
			return
		}
		if c.nat != nil {
			v := c.nat(m, args)
			m.deliver(res, v)
			return
		}
		m.callFn(c.fn, args, c.env, res)
	case *ssa.Function:
		m.callFn(c, args, nil, res)
	case *ssa.Builtin:
		m.unsupported("builtin as value " + c.Name())
	case poison:
		m.unsupported("call of unsupported value: " + c.why)
	default:
		m.unsupported(fmt.Sprintf("call of %T", f))
	}
}

func (m *Machine) callFn(fn *ssa.Function, args, env []Value, res ssa.Value) {
	if in, ok := m.w.intrinsic(fn); ok {
		if in.model != nil {
			m.pushFrame(m.cur, in.model, args, nil, res)
			return
		}
		g := m.cur
		n := len(g.frames)
		v := in.f(m, fn, args, res)
		if _, ok := v.(handled); ok {
			return
		}
		if len(g.frames) == n {
			// vnd.Point may have switched to another goroutine
			next := m.cur
			m.cur = g
			m.deliver(res, v)
			m.cur = next
		}
		return
	}
	m.pushFrame(m.cur, fn, args, env, res)
}

// handled tells callFn that the intrinsic delivered its result itself.
type handled struct{}

// ---- panics ----

func (m *Machine) rtPanic(msg string) {
	if m.tolerant {
		panic(tolerate{"panic: " + msg})
	}
	e := m.w.rtError(m, msg)
	m.startPanic(&Panic{v: e, msg: "runtime error: " + msg, rt: true, site: m.blame(), stack: m.backtrace()})
}

func (m *Machine) startPanic(p *Panic) {
	fr := m.top()
	fr.panicking = p
	fr.recovered = false
	m.unwind()
}

// unwind continues panicking in the top frame.
func (m *Machine) unwind() {
	for {
		g := m.cur
		if len(g.frames) == 0 {
			return
		}
		fr := m.top()
		p := fr.panicking
		if p == nil {
			return
		}
		if len(fr.defers) > 0 && !p.fatal {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			m.runDefer(fr, d)
			if m.top() != fr {
				return // the deferred call is running
			}
			if m.afterDefer(fr) {
				return
			}
			continue
		}
		// pop
		g.frames = g.frames[:len(g.frames)-1]
		if len(g.frames) == 0 || fr.onRet != nil && false {
			m.uncaught(p)
		}
		nf := m.top()
		if nf.panicking != nil && fr.isDefer {
			// a deferred call panicked: replaces the earlier panic
		}
		nf.panicking = p
		nf.recovered = false
	}
}

// afterDefer is called when a deferred call of a panicking frame has returned; it reports
// whether the panic was recovered (the frame then returns normally).
func (m *Machine) afterDefer(fr *Frame) bool {
	if fr.panicking == nil || !fr.recovered {
		return false
	}
	fr.panicking = nil
	fr.recovered = false
	if fr.fn.Recover != nil {
		fr.prev = nil
		fr.blk = fr.fn.Recover
		fr.ip = 0
		return true
	}
	// no named results: run the remaining defers, then return zero values
	fr.retAfter = true
	m.finishRecovered(fr)
	return true
}

func (m *Machine) finishRecovered(fr *Frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		m.runDefer(fr, d)
		if m.top() != fr {
			return
		}
	}
	fr.retAfter = false
	res := fr.fn.Signature.Results()
	var v Value
	switch res.Len() {
	case 0:
		v = Tuple{}
	case 1:
		v = m.zero(res.At(0).Type())
	default:
		v = m.zero(res)
	}
	m.popFrame(v)
}

func (m *Machine) runDefer(fr *Frame, d deferRec) {
	n := len(m.cur.frames)
	if d.invk != nil {
		m.invokeMethod(d.fn, d.invk, d.args, nil)
	} else if b, ok := d.fn.(*ssa.Builtin); ok {
		m.builtin(fr, b, d.args, nil, d.inst)
	} else {
		m.callValue(d.fn, d.args, nil)
	}
	if len(m.cur.frames) > n {
		m.cur.frames[n].isDefer = true
	}
}

func (m *Machine) uncaught(p *Panic) {
	m.violationPanic(p)
}

func (m *Machine) violationPanic(p *Panic) {
	if p.goexit {
		return
	}
	if m.initing > 0 {
		m.end("unsupported", "panic in package initialisation: %s", p.msg)
	}
	m.eng.reportAt(m, "panic", "panic: "+p.msg, m.model, p.site, p.stack)
	panic(pathEnd{kind: "violation", msg: "panic: " + p.msg, site: p.site})
}

// popFrame returns v from the top frame.
func (m *Machine) popFrame(v Value) {
	g := m.cur
	fr := g.frames[len(g.frames)-1]
	g.frames = g.frames[:len(g.frames)-1]
	if fr.onRet != nil {
		fr.onRet(v)
		if len(g.frames) == 0 {
			g.done = true
		}
		return
	}
	if len(g.frames) == 0 {
		g.done = true
		m.onExit(g)
		return
	}
	nf := m.top()
	if fr.isDefer {
		if nf.panicking != nil {
			if m.afterDefer(nf) {
				return
			}
			m.unwind()
			return
		}
		if nf.retAfter {
			m.finishRecovered(nf)
			return
		}
		return
	}
	m.deliver(fr.call, v)
}

// ---- globals ----

func (m *Machine) global(g *ssa.Global) *Value {
	std := !m.eng.isRepo(g.Pkg)
	if std {
		if s, ok := m.w.stdGlobals[g]; ok {
			return s
		}
	} else if s, ok := m.globals[g]; ok {
		return s
	}
	// run the package's initialisation (of this package only) first
	if g.Pkg != nil && !m.inited[g.Pkg] && !m.w.stdInited[g.Pkg] {
		m.initPkg(g.Pkg)
		if std {
			if s, ok := m.w.stdGlobals[g]; ok {
				return s
			}
		} else if s, ok := m.globals[g]; ok {
			return s
		}
	}
	s := new(Value)
	*s = m.zero(g.Type().(*types.Pointer).Elem())
	if std {
		m.w.stdGlobals[g] = s
	} else {
		m.globals[g] = s
	}
	return s
}

// initPkg runs a package's variable initialisers to completion on a side goroutine.
func (m *Machine) initPkg(p *ssa.Package) {
	std := !m.eng.isRepo(p)
	if std {
		m.w.stdInited[p] = true
	} else {
		m.inited[p] = true
	}
	m.eng.buildPkg(p)
	init := p.Func("init")
	if init == nil || init.Blocks == nil {
		return
	}
	if m.eng.noInit(p) {
		return
	}
	save, saveTol := m.cur, m.tolerant
	saveRace := m.race
	m.race = nil
	g := &Gor{id: -1}
	m.cur = g
	m.initing++
	m.tolerant = true
	m.pushFrame(g, init, nil, nil, nil)
	limit := m.steps + 3000000
	for !g.done {
		m.stepTolerant(g)
		if m.steps > limit {
			m.initing--
			m.cur, m.tolerant = save, saveTol
			m.note("initialisation of " + p.Pkg.Path() + " cut off")
			m.race = saveRace
			return
		}
	}
	m.initing--
	m.race = saveRace
	m.cur, m.tolerant = save, saveTol
}

func (m *Machine) stepTolerant(g *Gor) {
	base := 0
	_ = base
	defer func() {
		if r := recover(); r != nil {
			var why string
			switch t := r.(type) {
			case tolerate:
				why = t.why
			case pathEnd:
				if t.kind != "unsupported" && t.kind != "violation" {
					panic(r)
				}
				why = t.msg
			default:
				panic(r)
			}
			if debug {
				fmt.Println("init:", why, m.where())
			}
			// abandon the initialiser's inner calls; poison the outer instruction's result
			for len(g.frames) > 1 {
				g.frames = g.frames[:len(g.frames)-1]
			}
			if len(g.frames) == 0 {
				g.done = true
				return
			}
			fr := g.frames[0]
			fr.panicking = nil
			fr.defers = nil
			i := fr.ip - 1
			if i < 0 {
				i = 0
			}
			if fr.ip < len(fr.blk.Instrs) {
				if v, ok := fr.blk.Instrs[fr.ip].(ssa.Value); ok && fr.regs[fr.info.idx[v]] == nil {
					fr.regs[fr.info.idx[v]] = poison{why}
					fr.ip++
					return
				}
			}
			if v, ok := fr.blk.Instrs[i].(ssa.Value); ok && fr.regs[fr.info.idx[v]] == nil {
				fr.regs[fr.info.idx[v]] = poison{why}
				return
			}
			fr.ip++
			if fr.ip >= len(fr.blk.Instrs) {
				g.done = true
			}
		}
	}()
	for i := 0; i < 2000 && !g.done; i++ {
		m.step()
	}
}

// ---- addresses ----

func (m *Machine) addrOf(v Value) *Term {
	switch x := v.(type) {
	case *Value:
		if x == nil {
			return m.tt.Int(0)
		}
		a, ok := m.addrs[x]
		if !ok {
			if n := len(m.freeAddrs); n > 0 && m.choose("reuse", 2) == 0 {
				a = m.freeAddrs[n-1]
				m.freeAddrs = m.freeAddrs[:n-1]
			} else {
				m.nextAddr += 4096
				a = m.nextAddr
			}
			m.addrs[x] = a
			m.byAddr[a] = x
		}
		return m.tt.constw(64, a)
	case WildPtr:
		return x.addr
	case ElemPtr:
		a, ok := m.addrs[x.mem]
		if !ok {
			m.nextAddr += 1 << 32
			a = m.nextAddr
			m.addrs[x.mem] = a
			m.byAddr[a] = x
		}
		return m.tt.Add(m.tt.constw(64, a), m.tt.Mul(m.tt.Int(int64((x.mem.w+7)/8)), x.idx))
	case DataPtr:
		return m.tt.Int(0x1000)
	}
	m.unsupported(fmt.Sprintf("address of %T", v))
	return nil
}

func (m *Machine) ptrFrom(t *Term) Value {
	if t.isConst() {
		if t.k == 0 {
			return nilPtr
		}
		if p, ok := m.byAddr[t.k]; ok {
			return p
		}
		return WildPtr{t}
	}
	// symbolic: one of the known objects, nil, or wild
	keys := make([]uint64, 0, len(m.byAddr))
	for a := range m.byAddr {
		keys = append(keys, a)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
	if m.branch(m.tt.Eq(t, m.tt.Int(0))) {
		return nilPtr
	}
	for _, a := range keys {
		if m.branch(m.tt.Eq(t, m.tt.constw(64, a))) {
			return m.byAddr[a]
		}
	}
	return WildPtr{t}
}
