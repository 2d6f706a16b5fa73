package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Options struct {
	unroll   int  // symbolic decisions per branch instruction and frame
	maxIter  int  // iterations of any loop per frame
	maxSteps int  // instructions per path
	maxGor   int  // goroutines
	sched    bool // explore interleavings
	switches int  // deviations from the default schedule
	race     bool // detect data races
	leak     bool
	budget   float64
	maxPaths int
	native   bool // replay passing paths natively
	points   []string
	instr    []string
	net      []string // packages that dial and listen through the harness
	hook     []string // packages whose empty functions call the harness
	mods     []string // modules replaced by those in harness/mods
	tier     string
	raceViol bool
}

type Harness struct {
	prop string
	name string
	pkg  string
	dir  string
	fn   *ssa.Function
	opt  Options
	doc  string

	mu       sync.Mutex
	stack    []item
	inflight int
	spent    int64 // ns of worker time
	stats    Stats
	notes    map[string]int
	incompl  map[string]int
	ends     map[string]int
	reached  map[string]int
	samples  []map[string]interface{}
	pathMods []*Replay
	races    map[string]int
	cut      bool
	active   map[int]bool // points where racing accesses were seen in an earlier round
	nextAct  map[int]bool
	rounds   int
	wallEnd  time.Time
	spawned  int
}

type Stats struct {
	paths, steps, forks   int64
	asserts, assertsConst int64
	decisions             int64
}

type item struct {
	prefix []Dec
	model  *Model
}

type Candidate struct {
	h     *Harness
	kind  string
	msg   string
	site  string
	stack []string
	rep   *Replay
	key   string
	n     int
	state string // confirmed, spurious
	out   string
	path  string
}

// Replay is a concrete input (and schedule) for the native run.
type Replay struct {
	Harness string            `json:"harness"`
	Kind    string            `json:"kind,omitempty"`
	Msg     string            `json:"msg,omitempty"`
	Site    string            `json:"site,omitempty"`
	Vars    map[string]uint64 `json:"vars"`
	Bytes   map[string]string `json:"bytes"`
	Sched   []SchedRec        `json:"sched,omitempty"`
}

type Engine struct {
	prog    *ssa.Program
	fset    *token.FileSet
	sizes   types.Sizes
	vndm    *ssa.Package
	stubs   map[string]*ssa.Function
	tier    string
	seed    int64
	hs      []*Harness
	workers int
	solver  SolverStats

	mu       sync.Mutex
	cond     *sync.Cond
	cands    map[string]*Candidate
	order    []*Candidate
	fnSeen   sync.Map
	built    sync.Map
	methods  sync.Map
	impls    sync.Map
	repoPkg  sync.Map
	deadline atomic.Int64
	known    []Known
	timeout  int
	stop     atomic.Bool
	gst      Stats
	points   []PointInfo
	noInitP  map[string]bool
	modfile  string
}

type PointInfo struct {
	ID   int
	Pos  string
	Sync bool
	File string
	Line int
}

func (e *Engine) stat(f func(*Stats)) {
	e.mu.Lock()
	f(&e.gst)
	e.mu.Unlock()
}

func (e *Engine) note(h *Harness, s string) {
	h.mu.Lock()
	h.notes[s]++
	h.mu.Unlock()
}
func (e *Engine) incomplete(h *Harness, s string) {
	h.mu.Lock()
	h.incompl[s]++
	h.mu.Unlock()
}
func (e *Engine) reach(h *Harness, s string) {
	h.mu.Lock()
	h.reached[s]++
	h.mu.Unlock()
}

func (e *Engine) touch(fn *ssa.Function) {
	if _, ok := e.fnSeen.Load(fn); !ok {
		e.fnSeen.Store(fn, true)
	}
}

func (e *Engine) isRepo(p *ssa.Package) bool {
	if p == nil {
		return true
	}
	if v, ok := e.repoPkg.Load(p); ok {
		return v.(bool)
	}
	r := strings.HasPrefix(p.Pkg.Path(), "github.com/nanobus/iota/")
	e.repoPkg.Store(p, r)
	return r
}

func (e *Engine) noInit(p *ssa.Package) bool { return e.noInitP[p.Pkg.Path()] }

var buildMu sync.Mutex

var builtFns sync.Map

// build makes sure that the body of fn is complete; all lazy building is serialised, because
// another worker may be in the middle of building the same package.
func (e *Engine) build(fn *ssa.Function) {
	if _, ok := builtFns.Load(fn); ok {
		return
	}
	buildMu.Lock()
	defer buildMu.Unlock()
	p := fn.Pkg
	if p == nil && fn.Origin() != nil {
		p = fn.Origin().Pkg
	}
	if p != nil {
		p.Build()
	}
	builtFns.Store(fn, true)
}

func (e *Engine) buildPkg(p *ssa.Package) {
	buildMu.Lock()
	defer buildMu.Unlock()
	p.Build()
}

type methKey struct {
	t types.Type
	m *types.Func
}

func (e *Engine) method(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m}
	if v, ok := e.methods.Load(k); ok {
		return v.(*ssa.Function)
	}
	buildMu.Lock()
	defer buildMu.Unlock()
	if n := namedOf(t); n != nil && n.Obj().Pkg() != nil {
		if p := e.prog.Package(n.Obj().Pkg()); p != nil {
			p.Build()
		}
	}
	f := e.prog.LookupMethod(t, m.Pkg(), m.Name())
	e.methods.Store(k, f)
	return f
}

func namedOf(t types.Type) *types.Named {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

type implKey struct {
	t types.Type
	i *types.Interface
}

func (e *Engine) implements(t types.Type, i *types.Interface) bool {
	k := implKey{t, i}
	if v, ok := e.impls.Load(k); ok {
		return v.(bool)
	}
	r := types.Implements(t, i)
	e.impls.Store(k, r)
	return r
}

func (e *Engine) activePoint(h *Harness, id int) bool {
	if id < 0 || id >= len(e.points) {
		return true
	}
	p := e.points[id]
	if p.Sync {
		return true
	}
	for _, x := range h.opt.points {
		if x == "all" || strings.HasPrefix(p.Pos, x) {
			return true
		}
	}
	return h.active[id] // only changed while no path of h is running
}

func (e *Engine) push(h *Harness, pre []Dec, md *Model) {
	h.mu.Lock()
	h.stack = append(h.stack, item{pre, md})
	h.stats.forks++
	h.mu.Unlock()
	e.cond.Signal()
}

func (e *Engine) raceFound(m *Machine, k string) {
	m.h.mu.Lock()
	m.h.races[k]++
	if m.h.opt.sched {
		for _, s := range strings.Split(k, " / ") {
			for _, id := range m.eng.pointsFor(s) {
				if !m.h.active[id] {
					if m.h.nextAct == nil {
						m.h.nextAct = map[int]bool{}
					}
					m.h.nextAct[id] = true
				}
			}
		}
	}
	m.h.mu.Unlock()
	if m.h.opt.raceViol {
		e.reportAt(m, "race", "data race: "+k, m.model, k, m.backtrace())
	}
}

func (e *Engine) report(m *Machine, kind, msg string, md *Model) {
	e.reportAt(m, kind, msg, md, m.blame(), m.backtrace())
}

func siteFn(s string) string {
	if i := strings.LastIndex(s, " "); i > 0 {
		return s[:i]
	}
	return s
}

func (e *Engine) reportAt(m *Machine, kind, msg string, md *Model, site string, stack []string) {
	key := m.h.name + "|" + kind + "|" + msg + "|" + siteFn(site)
	e.mu.Lock()
	c := e.cands[key]
	if c != nil && c.n >= 4 {
		c.n++
		e.mu.Unlock()
		return
	}
	e.mu.Unlock()
	rep := m.replay(md)
	rep.Kind, rep.Msg, rep.Site = kind, msg, site
	e.mu.Lock()
	defer e.mu.Unlock()
	if c = e.cands[key]; c == nil {
		c = &Candidate{h: m.h, kind: kind, msg: msg, site: site, stack: stack, rep: rep, key: key}
		e.cands[key] = c
		e.order = append(e.order, c)
	} else {
		e.order = append(e.order, &Candidate{h: m.h, kind: kind, msg: msg, site: site, stack: stack, rep: rep, key: key})
	}
	c.n++
	if debug {
		fmt.Printf("candidate %s: %s at %s\n", m.h.name, msg, site)
	}
	if !e.isKnown(c) {
		// stop soon: something unlisted was found
		if d := time.Now().UnixNano() + int64(graceAfterViolation*1e9); d < e.deadline.Load() {
			e.deadline.Store(d)
		}
	}
}

var graceAfterViolation = 6.0

// replay extracts the concrete inputs of the path under a model.
func (m *Machine) replay(md *Model) *Replay {
	r := &Replay{Harness: m.h.name, Vars: map[string]uint64{}, Bytes: map[string]string{}, Sched: append([]SchedRec(nil), m.trace...)}
	m.w.epoch++
	ep := m.w.epoch
	for _, in := range m.inputs {
		if in.Kind == "u" {
			r.Vars[in.Name] = m.tt.eval(in.T, md, ep)
			continue
		}
		n := m.tt.eval(in.N, md, ep)
		r.Vars[in.Name+".len"] = n
		if n > 1<<22 {
			n = 1 << 22
		}
		b := make([]byte, n)
		uf := md.ufs[in.C.name]
		for k, v := range uf {
			if k < n {
				b[k] = byte(v)
			}
		}
		r.Bytes[in.Name] = hex.EncodeToString(b)
	}
	return r
}

// ---- workers ----

type Worker struct {
	id         int
	eng        *Engine
	tt         *TermTable
	sol        *Solver
	epoch      int64
	consts     map[*ssa.Const]Value
	funcs      map[*ssa.Function]Value
	intr       map[*ssa.Function]intrin
	stdGlobals map[*ssa.Global]*Value
	stdInited  map[*ssa.Package]bool
	paths      int
}

func (w *Worker) reset() {
	if w.sol != nil {
		w.sol.close()
	}
	w.tt = newTermTable()
	w.sol = newSolver(w.tt, w.eng.timeout, &w.eng.solver)
	w.consts = map[*ssa.Const]Value{}
	w.funcs = map[*ssa.Function]Value{}
	w.intr = map[*ssa.Function]intrin{}
	w.stdGlobals = map[*ssa.Global]*Value{}
	w.stdInited = map[*ssa.Package]bool{}
}

func (w *Worker) checkDeadline(m *Machine) {
	if w.eng.stop.Load() {
		m.end("timeout", "time budget")
	}
	now := time.Now()
	if now.UnixNano() > w.eng.deadline.Load() || (!m.h.wallEnd.IsZero() && now.After(m.h.wallEnd)) {
		m.h.mu.Lock()
		m.h.cut = true
		m.h.mu.Unlock()
		m.end("timeout", "time budget")
	}
}

func (e *Engine) next() (*Harness, item, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if time.Now().UnixNano() > e.deadline.Load() {
			e.stop.Store(true)
		}
		var best *Harness
		busy := false
		for _, h := range e.hs {
			h.mu.Lock()
			if h.inflight > 0 {
				busy = true
			} else if len(h.stack) == 0 && len(h.nextAct) > 0 && h.rounds < 5 && !e.stop.Load() {
				// another round, with switches at the racing accesses too
				act := map[int]bool{}
				for k := range h.active {
					act[k] = true
				}
				for k := range h.nextAct {
					act[k] = true
				}
				h.active, h.nextAct = act, nil
				h.rounds++
				h.stack = []item{{}}
			}
			if len(h.stack) > 0 {
				if e.stop.Load() || h.opt.maxPaths > 0 && h.stats.paths >= int64(h.opt.maxPaths) {
					h.cut = true
					h.stack = nil
				} else if best == nil || atomic.LoadInt64(&h.spent) < atomic.LoadInt64(&best.spent) {
					best = h
				}
			}
			h.mu.Unlock()
		}
		if best != nil {
			best.mu.Lock()
			n := len(best.stack)
			it := best.stack[n-1]
			best.stack = best.stack[:n-1]
			best.inflight++
			best.stats.paths++
			best.mu.Unlock()
			return best, it, true
		}
		if !busy {
			e.cond.Broadcast()
			return nil, item{}, false
		}
		e.cond.Wait()
	}
}

func (w *Worker) loop() {
	w.reset()
	defer w.sol.close()
	for {
		h, it, ok := w.eng.next()
		if !ok {
			return
		}
		t0 := time.Now()
		if h.wallEnd.IsZero() && h.opt.budget > 0 {
			h.mu.Lock()
			h.wallEnd = t0.Add(time.Duration(h.opt.budget * float64(time.Second)))
			h.mu.Unlock()
		}
		if w.tt.next > 1500000 {
			w.reset()
		}
		w.runPath(h, it)
		atomic.AddInt64(&h.spent, int64(time.Since(t0)))
		h.mu.Lock()
		h.inflight--
		h.mu.Unlock()
		w.eng.mu.Lock()
		w.eng.cond.Broadcast()
		w.eng.mu.Unlock()
	}
}

func (w *Worker) newMachine(h *Harness, it item) *Machine {
	m := &Machine{
		w: w, eng: w.eng, tt: w.tt, sol: w.sol, h: h,
		pcSet: map[*Term]bool{}, sup: newSupport(), prefix: it.prefix,
		globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]bool{},
		inputSeq: map[string]int{}, addrs: map[interface{}]uint64{}, byAddr: map[uint64]Value{}, nextAddr: 0xc000000000,
		mutexes: map[*Value]*mutexState{}, wgs: map[*Value]*wgState{}, pools: map[*Value]*poolState{},
	}
	md := it.model
	if md == nil {
		md = newModel()
	}
	m.setModel(md)
	if h.opt.race {
		m.race = newRace()
	}
	return m
}

func (w *Worker) runPath(h *Harness, it item) {
	m := w.newMachine(h, it)
	end := pathEnd{kind: "ok"}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if pe, ok := r.(pathEnd); ok {
					end = pe
					return
				}
				if tl, ok := r.(tolerate); ok {
					end = pathEnd{kind: "unsupported", msg: tl.why}
					return
				}
				where := m.where()
				if debug {
					fmt.Println("ENGINE PANIC at", where)
					for _, s := range m.backtrace() {
						fmt.Println("   ", s)
					}
					panic(r)
				}
				end = pathEnd{kind: "unsupported", msg: fmt.Sprintf("engine: %v", r), site: where}
			}
		}()
		g := &Gor{id: 0}
		if m.race != nil {
			g.vc = VC{0: 1}
		}
		m.gs = []*Gor{g}
		m.cur = g
		m.pushFrame(g, h.fn, nil, nil, nil)
		m.run(g)
	}()
	w.paths++
	h.mu.Lock()
	defer h.mu.Unlock()
	h.stats.steps += int64(m.steps)
	h.stats.decisions += int64(len(m.dec) - len(m.prefix))
	h.ends[end.kind]++
	switch end.kind {
	case "unsupported", "desync", "bound":
		h.notes[end.kind+": "+end.msg+" @ "+end.site]++
	case "violation-stack":
		h.mu.Unlock()
		w.eng.reportAt(m, "panic", end.msg, m.model, end.site, nil)
		h.mu.Lock()
	case "ok":
		if len(h.pathMods) < 40 {
			h.pathMods = append(h.pathMods, m.replay(m.model))
		}
		if len(h.samples) < 3 {
			var c []string
			for i, t := range m.pc {
				if i >= 8 {
					c = append(c, fmt.Sprintf("... %d more", len(m.pc)-i))
					break
				}
				c = append(c, t.String())
			}
			h.samples = append(h.samples, map[string]interface{}{"harness": h.name, "path_condition": c, "steps": m.steps})
		}
	}
	if debug && end.kind != "ok" && end.kind != "infeasible" {
		fmt.Printf("%s: path ended %s: %s @ %s\n", h.name, end.kind, end.msg, end.site)
		if end.kind == "unsupported" || end.kind == "bound" {
			for _, s := range m.backtrace() {
				fmt.Println("     ", s)
			}
		}
	}
}

func (e *Engine) explore() {
	for _, h := range e.hs {
		h.stack = []item{{}}
	}
	var wg sync.WaitGroup
	stopTick := make(chan struct{})
	go func() {
		for {
			select {
			case <-stopTick:
				return
			case <-time.After(200 * time.Millisecond):
				e.mu.Lock()
				e.cond.Broadcast()
				e.mu.Unlock()
			}
		}
	}()
	for i := 0; i < e.workers; i++ {
		wg.Add(1)
		w := &Worker{id: i, eng: e}
		go func() {
			defer wg.Done()
			w.loop()
		}()
	}
	wg.Wait()
	close(stopTick)
}

// ---- known findings ----

type Known struct {
	Property string `json:"property"`
	ID       string `json:"id"`
	Harness  string `json:"harness"`
	Kind     string `json:"kind"`
	Msg      string `json:"msg"`
	Site     string `json:"site"`
	What     string `json:"what"`
	Fixed    string `json:"fixed,omitempty"`
}

func loadKnown(path string) []Known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var f struct {
		Findings []Known `json:"findings"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fatal("known findings: %v", err)
	}
	return f.Findings
}

func (e *Engine) isKnown(c *Candidate) bool { return e.knownOf(c) != nil }

func (e *Engine) knownOf(c *Candidate) *Known {
	for i := range e.known {
		k := &e.known[i]
		if k.Fixed != "" || k.Harness != c.h.name || k.Kind != "" && k.Kind != c.kind {
			continue
		}
		if k.Msg != "" && !strings.Contains(c.msg, k.Msg) {
			continue
		}
		if k.Site != "" && !strings.Contains(c.site, k.Site) {
			continue
		}
		return k
	}
	return nil
}

func sortedKeys(m map[string]int) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
