package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrin struct {
	f     func(m *Machine, fn *ssa.Function, a []Value, res ssa.Value) Value
	model *ssa.Function
}

type inF = func(m *Machine, fn *ssa.Function, a []Value, res ssa.Value) Value

const vndPath = "github.com/nanobus/iota/go/internal/vnd"
const vndmPath = "github.com/nanobus/iota/go/internal/vndm"

// functions replaced by Go models in package vndm
var models = map[string]string{
	"os.ReadFile": "ReadFile",
	vndPath + ".File": "File",
	"fmt.Errorf":         "Errorf",
	"fmt.Sprintf":        "Sprintf",
	"strconv.FormatInt":  "FormatInt",
	"strconv.FormatUint": "FormatUint",
	"strconv.Itoa":       "Itoa",
	"fmt.Sprint":         "Sprint",
	"fmt.Sprintln":       "Sprint",
	"errors.Is":          "ErrorsIs",
	"context.WithValue":  "WithValue",
	"sort.Slice":         "SortSlice",
}

var noops = map[string]bool{
	"fmt.Println": true, "fmt.Printf": true, "fmt.Print": true, "log.Println": true, "log.Printf": true, "log.Print": true,
	"runtime.GC": true, "runtime.KeepAlive": true, "runtime.SetFinalizer": true, "runtime.SetBlockProfileRate": true,
	"internal/race.Acquire": true, "internal/race.Release": true, "internal/race.ReleaseMerge": true, "internal/race.Disable": true, "internal/race.Enable": true,
	"internal/race.Read": true, "internal/race.Write": true, "internal/race.ReadRange": true, "internal/race.WriteRange": true, "internal/race.Errors": true,
	"internal/godebug.registerMetric": true, "internal/godebug.setUpdate": true, "internal/godebug.setNewIncNonDefault": true,
	"(*internal/godebug.Setting).IncNonDefault": true,
	"fmt.Fprintf": true, "fmt.Fprintln": true, "fmt.Fprint": true, "runtime/debug.PrintStack": true,
	"runtime.Gosched": true, "internal/runtime/sys.Prefetch": true,
}

var intrinsics map[string]inF

func init() {
	I := map[string]inF{}
	intrinsics = I
	v := vndPath + "."
	intVar := func(w int) inF {
		return func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value {
			name := m.freshName(m.cstr(a[0]))
			t := m.tt.Var(name, w, 0)
			m.inputs = append(m.inputs, InputRec{Name: name, Kind: "u", T: t})
			return t
		}
	}
	for _, p := range []struct {
		n string
		w int
	}{{"U8", 8}, {"U16", 16}, {"U32", 32}, {"U64", 64}, {"I8", 8}, {"I16", 16}, {"I32", 32}, {"I64", 64}, {"Int", 64}} {
		I[v+p.n] = intVar(p.w)
	}
	I[v+"F32"] = intVar(32)
	I[v+"F64"] = intVar(64)
	I[v+"Bool"] = intVar(0)
	I[v+"Range"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value {
		name := m.freshName(m.cstr(a[0]))
		lo, hi := a[1].(*Term), a[2].(*Term)
		if !lo.isConst() || !hi.isConst() {
			m.unsupported("vnd.Range with symbolic bounds")
		}
		t := m.tt.Var(name, 64, hi.k-lo.k)
		r := m.tt.Add(t, lo)
		m.inputs = append(m.inputs, InputRec{Name: name, Kind: "u", T: r})
		return r
	}
	I[v+"Bytes"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value {
		name := m.freshName(m.cstr(a[0]))
		n := m.lenVar(name, a[1])
		c := &Chain{kind: 'u', w: 8, name: name}
		m.inputs = append(m.inputs, InputRec{Name: name, Kind: "b", C: c, Off: m.tt.Int(0), N: n})
		return &SliceV{mem: &Mem{w: 8, c: c}, off: m.tt.Int(0), len: n, cap: n}
	}
	I[v+"BytesN"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value {
		name := m.freshName(m.cstr(a[0]))
		n := a[1].(*Term)
		c := &Chain{kind: 'u', w: 8, name: name}
		m.inputs = append(m.inputs, InputRec{Name: name, Kind: "b", C: c, Off: m.tt.Int(0), N: n})
		return &SliceV{mem: &Mem{w: 8, c: c}, off: m.tt.Int(0), len: n, cap: n}
	}
	I[v+"String"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value {
		name := m.freshName(m.cstr(a[0]))
		n := m.lenVar(name, a[1])
		c := &Chain{kind: 'u', w: 8, name: name}
		m.inputs = append(m.inputs, InputRec{Name: name, Kind: "b", C: c, Off: m.tt.Int(0), N: n})
		return &Str{c: c, off: m.tt.Int(0), n: n}
	}
	I[v+"Choice"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value {
		name := m.cstr(a[0])
		n := a[1].(*Term)
		if !n.isConst() {
			m.unsupported("vnd.Choice with symbolic bound")
		}
		nm := m.freshName(name)
		var k uint64
		t := m.tt.Int(0)
		if n.k > 1 {
			t = m.tt.Var(nm, 64, n.k-1)
			k = m.concretize(t, int(n.k)+1)
		}
		m.inputs = append(m.inputs, InputRec{Name: nm, Kind: "u", T: m.tt.constw(64, k)})
		return m.tt.constw(64, k)
	}
	I[v+"Concrete"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value {
		return m.tt.constw(64, m.concretize(a[0].(*Term), 4096))
	}
	I[v+"Assume"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value {
		m.assume(a[0].(*Term))
		return nil
	}
	I[v+"Assert"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value {
		m.assertT(a[0].(*Term), "assert", m.cstr(a[1]))
		return nil
	}
	eqb := func(m *Machine, ca *Chain, oa, na *Term, cb *Chain, ob, nb *Term, msg string) {
		m.assertT(m.tt.Eq(na, nb), "assert", msg+" (length)")
		if na.isConst() && na.k <= 40 {
			m.assertT(m.bytesEq(ca, oa, na, cb, ob, na), "assert", msg)
			return
		}
		k := m.freshVar("skolem", 64, 0)
		in := m.tt.Ult(k, na)
		e := m.tt.Eq(m.read(ca, m.tt.Add(oa, k)), m.read(cb, m.tt.Add(ob, k)))
		m.assertT(m.tt.BOr(m.tt.BNot(in), e), "assert", msg)
	}
	I[v+"EqBytes"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value {
		x, y := a[0].(*SliceV), a[1].(*SliceV)
		eqb(m, m.bytesOf(x), x.off, x.len, m.bytesOf(y), y.off, y.len, m.cstr(a[2]))
		return nil
	}
	I[v+"EqStr"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value {
		x, y := a[0].(*Str), a[1].(*Str)
		ca, oa := x.chain(m)
		cb, ob := y.chain(m)
		eqb(m, ca, oa, x.n, cb, ob, y.n, m.cstr(a[2]))
		return nil
	}
	I[v+"Reach"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value {
		m.eng.reach(m.h, m.cstr(a[0]))
		return nil
	}
	I[v+"AllocLimit"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value {
		m.allocLim = a[0].(*Term)
		return nil
	}
	I[v+"StackLimit"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value {
		m.stackLim = int(a[0].(*Term).k)
		return nil
	}
	I[v+"AllocOff"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value {
		m.allocLim = nil
		return nil
	}
	I[v+"Quiesce"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value {
		m.blockOn("quiesce", nil)
		m.cur.block.quies = true
		return nil
	}
	I[v+"Blocked"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value {
		// number of other goroutines that are neither finished nor able to run
		n := 0
		for _, g := range m.gs {
			if g != m.cur && !g.done && g.block != nil {
				n++
			}
		}
		return m.tt.Int(int64(n))
	}
	I[v+"Point"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value {
		m.point(int(a[0].(*Term).k))
		return nil
	}
	I[v+"Enter"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value { return nil }
	I[v+"Fork"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value { return nil }
	I[v+"Forked"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value { return nil }
	I[v+"Symbolic"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value { return m.tt.T }
	I[v+"Thorough"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value {
		return m.tt.Bool(m.eng.tier == "thorough")
	}
	I[v+"Collect"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value { m.collect(); return nil }
	I[v+"WildPtr"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value { return a[0] }
	I[v+"SameMem"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value {
		x, y := a[0].(*SliceV), a[1].(*SliceV)
		return m.tt.Bool(x.mem != nil && x.mem == y.mem)
	}

	vm := vndmPath + "."
	I[vm+"kind"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return m.tt.Int(0)
		}
		switch u := i.t.Underlying().(type) {
		case *types.Basic:
			switch {
			case u.Info()&types.IsBoolean != 0:
				return m.tt.Int(1)
			case u.Info()&types.IsString != 0:
				return m.tt.Int(2)
			case u.Info()&types.IsFloat != 0:
				return m.tt.Int(5)
			case u.Info()&types.IsUnsigned != 0:
				return m.tt.Int(4)
			case u.Info()&types.IsInteger != 0:
				return m.tt.Int(3)
			}
		}
		return m.tt.Int(9)
	}
	I[vm+"asString"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value {
		return a[0].(Iface).v
	}
	I[vm+"asInt"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value {
		i := a[0].(Iface)
		return m.tt.Resize(i.v.(*Term), 64, isSigned(i.t))
	}
	I[vm+"isConst"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value {
		t, ok := a[0].(Iface).v.(*Term)
		return m.tt.Bool(ok && t.isConst())
	}
	I[vm+"typeName"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return m.lit("<nil>")
		}
		return m.lit(typeStr(i.t))
	}
	I[vm+"sliceLen"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value {
		return a[0].(Iface).v.(*SliceV).len
	}
	I[vm+"sliceSwap"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value {
		s := a[0].(Iface).v.(*SliceV)
		i, j := a[1].(*Term), a[2].(*Term)
		if s.mem != nil {
			oi, oj := m.tt.Add(s.off, i), m.tt.Add(s.off, j)
			x, y := m.read(s.mem.c, oi), m.read(s.mem.c, oj)
			m.store(s.mem, oi, y)
			m.store(s.mem, oj, x)
			return nil
		}
		o := m.concretize(s.off, 64)
		p, q := m.cell(s.arr, o+m.concretize(i, 64)), m.cell(s.arr, o+m.concretize(j, 64))
		x, y := m.copyVal(*p), m.copyVal(*q)
		m.assign(p, y)
		m.assign(q, x)
		return nil
	}

	// ---- sync ----
	for _, t := range []string{"sync.Mutex", "sync.RWMutex", "internal/sync.Mutex"} {
		I["(*"+t+").Lock"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value { return m.lock(a[0]) }
		I["(*"+t+").Unlock"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value { return m.unlock(a[0]) }
		I["(*"+t+").TryLock"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value { return m.tryLock(a[0]) }
	}
	I["(*sync.RWMutex).RLock"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value { return m.rlock(a[0]) }
	I["(*sync.RWMutex).RUnlock"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value { return m.runlock(a[0]) }
	I["(*sync.WaitGroup).Add"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value {
		return m.wgAdd(a[0], int64(m.concretize(a[1].(*Term), 16)))
	}
	I["(*sync.WaitGroup).Done"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value { return m.wgAdd(a[0], -1) }
	I["(*sync.WaitGroup).Wait"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value { return m.wgWait(a[0]) }
	I["(*sync.Pool).Get"] = func(m *Machine, fn *ssa.Function, a []Value, res ssa.Value) Value {
		p := a[0].(*Value)
		st := m.pools[p]
		if st != nil && len(st.items) > 0 {
			v := st.items[len(st.items)-1]
			st.items = st.items[:len(st.items)-1]
			if m.race != nil {
				m.cur.vc.join(st.vc)
			}
			return v
		}
		s := (*p).(*StructV)
		nf := s.f[len(s.f)-1]
		if c, ok := nf.(*Closure); ok && c != nil {
			m.callValue(c, nil, res)
			return handled{}
		}
		return Iface{}
	}
	I["(*sync.Pool).Put"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value {
		p := a[0].(*Value)
		st := m.pools[p]
		if st == nil {
			st = &poolState{}
			m.pools[p] = st
		}
		st.items = append(append([]Value(nil), st.items...), a[1])
		if m.race != nil {
			st.vc = st.vc.joined(m.cur.vc)
			m.cur.vc.tick(m.cur.id)
		}
		return nil
	}

	// ---- sync/atomic ----
	at := func(name string, f func(m *Machine, p Value, a []Value, t types.Type) Value) {
		for _, sz := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
			I["sync/atomic."+name+sz] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value {
				return m.atomic(a[0], func() Value { return f(m, a[0], a, nil) })
			}
		}
	}
	at("Load", func(m *Machine, p Value, a []Value, t types.Type) Value { return m.load(p, nil) })
	at("Store", func(m *Machine, p Value, a []Value, t types.Type) Value { m.storeTo(p, a[1], nil, nil); return Tuple{} })
	at("Add", func(m *Machine, p Value, a []Value, t types.Type) Value {
		o := m.load(p, nil)
		if o == nil {
			return handled{}
		}
		n := m.tt.Add(o.(*Term), a[1].(*Term))
		m.storeTo(p, n, nil, nil)
		return n
	})
	at("Swap", func(m *Machine, p Value, a []Value, t types.Type) Value {
		o := m.load(p, nil)
		if o == nil {
			return handled{}
		}
		m.storeTo(p, a[1], nil, nil)
		return o
	})
	at("CompareAndSwap", func(m *Machine, p Value, a []Value, t types.Type) Value {
		o := m.load(p, nil)
		if o == nil {
			return handled{}
		}
		if m.branch(m.equal(o, a[1])) {
			m.storeTo(p, a[2], nil, nil)
			return m.tt.T
		}
		return m.tt.F
	})
	for k, f := range map[string]string{"Load": "Load", "Store": "Store", "Xadd": "Add", "Xchg": "Swap", "Cas": "CompareAndSwap"} {
		_ = k
		_ = f
	}
	I["(*sync/atomic.Value).Load"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value {
		return m.atomic(a[0], func() Value {
			p := a[0].(*Value)
			if p == nil {
				m.rtPanic("invalid memory address or nil pointer dereference")
				return handled{}
			}
			return (*p).(*StructV).f[0]
		})
	}
	I["(*sync/atomic.Value).Store"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value {
		return m.atomic(a[0], func() Value {
			(*a[0].(*Value)).(*StructV).f[0] = a[1]
			return Tuple{}
		})
	}

	// ---- bytealg, runtime and friends ----
	idxByte := func(m *Machine, n *Term, at func(*Term) *Term, b *Term, last bool) Value {
		lim := int64(m.h.opt.maxIter)
		if !last {
			for i := int64(0); ; i++ {
				if i > lim {
					m.end("bound", "search over more than %d bytes", lim)
				}
				it := m.tt.Int(i)
				if !m.branch(m.tt.Ult(it, n)) {
					return m.tt.Int(-1)
				}
				if m.branch(m.tt.Eq(at(it), b)) {
					return it
				}
			}
		}
		k := m.concretize(n, 256)
		for i := int64(k) - 1; i >= 0; i-- {
			it := m.tt.Int(i)
			if m.branch(m.tt.Eq(at(it), b)) {
				return it
			}
		}
		return m.tt.Int(-1)
	}
	sliceAt := func(m *Machine, s *SliceV) func(*Term) *Term {
		c := m.bytesOf(s)
		return func(i *Term) *Term { return m.read(c, m.tt.Add(s.off, i)) }
	}
	strAt := func(m *Machine, s *Str) func(*Term) *Term {
		return func(i *Term) *Term { return m.strAt(s, i) }
	}
	I["internal/bytealg.IndexByte"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value {
		s := a[0].(*SliceV)
		return idxByte(m, s.len, sliceAt(m, s), a[1].(*Term), false)
	}
	I["internal/bytealg.IndexByteString"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value {
		s := a[0].(*Str)
		if b := a[1].(*Term); s.isLit && b.isConst() {
			return m.tt.Int(int64(strings.IndexByte(s.lit, byte(b.k))))
		}
		return idxByte(m, s.n, strAt(m, s), a[1].(*Term), false)
	}
	I["internal/bytealg.LastIndexByteString"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value {
		s := a[0].(*Str)
		return idxByte(m, s.n, strAt(m, s), a[1].(*Term), true)
	}
	I["internal/bytealg.CountString"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value {
		s, b := a[0].(*Str), a[1].(*Term)
		n := m.concretize(s.n, 256)
		r := m.tt.Int(0)
		for i := uint64(0); i < n; i++ {
			r = m.tt.Add(r, m.tt.Ite(m.tt.Eq(m.strAt(s, m.tt.constw(64, i)), b), m.tt.Int(1), m.tt.Int(0)))
		}
		return m.tt.constw(64, m.concretize(r, 256))
	}
	I["internal/bytealg.IndexString"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value {
		s, b := a[0].(*Str), a[1].(*Str)
		if s.isLit && b.isLit {
			return m.tt.Int(int64(strings.Index(s.lit, b.lit)))
		}
		m.unsupported("substring search in symbolic string")
		return nil
	}
	I["internal/bytealg.Equal"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value {
		x, y := a[0].(*SliceV), a[1].(*SliceV)
		return m.bytesEq(m.bytesOf(x), x.off, x.len, m.bytesOf(y), y.off, y.len)
	}
	I["bytes.Equal"] = I["internal/bytealg.Equal"]
	I["internal/bytealg.MakeNoZero"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value {
		n := a[0].(*Term)
		return m.makeSlice(types.Typ[types.Byte], n, n)
	}
	I["internal/abi.NoEscape"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value { return a[0] }
	I["internal/abi.Escape"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value { return a[0] }
	I["strings.Clone"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value { return a[0] }

	fl := func(name string, f func(float64) float64) {
		I[name] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value {
			t := a[0].(*Term)
			if !t.isConst() {
				m.unsupported(name + " of symbolic float")
			}
			return m.tt.constw(64, math.Float64bits(f(math.Float64frombits(t.k))))
		}
	}
	fl("math.Sqrt", math.Sqrt)
	fl("math.Floor", math.Floor)
	fl("math.Ceil", math.Ceil)
	fl("math.Trunc", math.Trunc)
	for _, n := range []string{"math.Float64bits", "math.Float64frombits", "math.Float32bits", "math.Float32frombits"} {
		I[n] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value { return a[0] }
	}
	I["math/bits.Len64"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value { return m.bitLen(a[0].(*Term)) }
	I["math/bits.Len32"] = I["math/bits.Len64"]
	I["math/bits.Len"] = I["math/bits.Len64"]

	I["crypto/rand.Read"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value {
		s := a[0].(*SliceV)
		m.havoc(s)
		return Tuple{s.len, Iface{}}
	}
	I["(*crypto/rand.reader).Read"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value {
		s := a[1].(*SliceV)
		m.havoc(s)
		return Tuple{s.len, Iface{}}
	}
	I["time.Sleep"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value {
		if m.initing > 0 {
			return nil
		}
		g := m.cur
		m.nowSeq++
		d := a[0].(*Term)
		when := uint64(0)
		if d.isConst() {
			when = d.k
		}
		m.timers = append(m.timers, &timerRec{when: when, seq: m.nowSeq, alive: true, fire: func() { g.block = nil }})
		m.blockOn("sleep", nil)
		return nil
	}
	I["time.now"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value {
		if m.initing > 0 {
			return Tuple{m.tt.Int(1700000000), m.tt.constw(32, 0), m.tt.Int(1)}
		}
		m.nowSeq++
		return Tuple{m.tt.Int(1700000000 + int64(m.nowSeq)), m.tt.constw(32, 0), m.tt.Int(int64(m.nowSeq) * 1e9)}
	}
	I["time.runtimeNano"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value { return m.tt.Int(1) }
	I["time.runtimeNow"] = I["time.now"]
	I["time.runtimeIsBubbled"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value { return m.tt.F }
	I["(*time.Location).get"] = nil
	delete(I, "(*time.Location).get")
	I["internal/godebug.New"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value {
		s := new(Value)
		*s = m.zero(fn.Signature.Results().At(0).Type().(*types.Pointer).Elem())
		return s
	}
	I["(*internal/godebug.Setting).Value"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value { return emptyStr(m) }
	I["os.Getenv"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value { return emptyStr(m) }
	I["runtime.GOMAXPROCS"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value { return m.tt.Int(4) }
	I["runtime.NumCPU"] = I["runtime.GOMAXPROCS"]
	I["runtime.Caller"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value {
		return Tuple{m.tt.Int(0), emptyStr(m), m.tt.Int(0), m.tt.F}
	}
	I["internal/byteorder.dummy"] = nil
	delete(I, "internal/byteorder.dummy")
	I["internal/reflectlite.TypeOf"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value {
		m.unsupported("reflection")
		return nil
	}
	I["reflect.TypeOf"] = I["internal/reflectlite.TypeOf"]
	I["reflect.ValueOf"] = I["internal/reflectlite.TypeOf"]
	I["hash/crc32.update"] = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value {
		m.unsupported("crc32")
		return nil
	}
}

func (m *Machine) lenVar(name string, mx Value) *Term {
	t := mx.(*Term)
	if !t.isConst() {
		m.unsupported("symbolic maximum length")
	}
	if t.k == 0 {
		return m.tt.Int(0)
	}
	return m.tt.Var(name+".len", 64, t.k)
}

func (m *Machine) havoc(s *SliceV) {
	if s.mem == nil {
		return
	}
	name := m.freshName("rand")
	c := &Chain{kind: 'u', w: 8, name: name}
	m.copyMem(s.mem, s.off, c, m.tt.Int(0), s.len)
	m.inputs = append(m.inputs, InputRec{Name: name, Kind: "b", C: c, Off: m.tt.Int(0), N: s.len})
}

func (m *Machine) bitLen(t *Term) Value {
	if t.isConst() {
		return m.tt.Int(int64(bits.Len64(t.k)))
	}
	r := m.tt.Int(0)
	for i := 0; i < t.w; i++ {
		r = m.tt.Ite(m.tt.Ule(m.tt.constw(t.w, 1<<uint(i)), t), m.tt.Int(int64(i+1)), r)
	}
	return r
}

func (m *Machine) cstr(v Value) string {
	s, ok := v.(*Str)
	if !ok || !s.isLit {
		m.unsupported("symbolic name passed to a harness function")
	}
	return s.lit
}

func (m *Machine) atomic(p Value, f func() Value) Value {
	if m.race == nil {
		return f()
	}
	r := m.race
	m.race = nil
	v := f()
	m.race = r
	key := fmt.Sprintf("%p", p)
	if e, ok := p.(ElemPtr); ok {
		key = fmt.Sprintf("%p/%d", e.mem, e.idx.id)
	}
	if m.extra == nil {
		m.extra = map[string]interface{}{}
	}
	av, _ := m.extra["atomicvc"].(map[string]VC)
	if av == nil {
		av = map[string]VC{}
		m.extra["atomicvc"] = av
	}
	m.cur.vc.join(av[key])
	av[key] = m.cur.vc.copy()
	m.cur.vc.tick(m.cur.id)
	return v
}

func (w *Worker) intrinsic(fn *ssa.Function) (intrin, bool) {
	if in, ok := w.intr[fn]; ok {
		return in, in.f != nil || in.model != nil
	}
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	var in intrin
	if f, ok := intrinsics[name]; ok {
		in.f = f
	} else if mn, ok := models[name]; ok && w.eng.vndm != nil {
		in.model = w.eng.vndm.Func(mn)
		if in.model == nil {
			fatal("missing model %s", mn)
		}
	} else if noops[name] {
		in.f = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value {
			r := fn.Signature.Results()
			switch r.Len() {
			case 0:
				return Tuple{}
			case 1:
				return m.zero(r.At(0).Type())
			}
			return m.zero(r)
		}
	} else if fn.Name() == "init" && fn.Parent() == nil && fn.Signature.Recv() == nil && fn.Synthetic == "package initializer" {
		in.f = func(m *Machine, fn *ssa.Function, a []Value, _ ssa.Value) Value { return Tuple{} }
	} else if s, ok := w.eng.stubs[name]; ok {
		in.model = s
	}
	w.intr[fn] = in
	return in, in.f != nil || in.model != nil
}

// rtError makes the error value of a run-time panic.
func (w *Worker) rtError(m *Machine, msg string) Iface {
	f := w.eng.vndm.Type("RuntimeError")
	p := new(Value)
	*p = &StructV{f: []Value{m.lit(msg)}}
	return Iface{t: types.NewPointer(f.Type()), v: p}
}
