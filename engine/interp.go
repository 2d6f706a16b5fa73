package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (w *Worker) constant(m *Machine, c *ssa.Const) Value {
	if v, ok := w.consts[c]; ok {
		return v
	}
	var v Value
	t := c.Type()
	if c.Value == nil {
		v = m.zero(t)
		switch v.(type) {
		case *StructV, *ArrayV:
			return v
		}
	} else {
		b, ok := t.Underlying().(*types.Basic)
		if !ok {
			// type parameter constants do not occur with instantiated generics
			m.unsupported("constant of type " + t.String())
		}
		switch {
		case b.Info()&types.IsBoolean != 0:
			v = m.tt.Bool(constant.BoolVal(c.Value))
		case b.Info()&types.IsString != 0:
			v = m.lit(constant.StringVal(c.Value))
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(constant.ToFloat(c.Value))
			if scalarW(t) == 32 {
				f32, _ := constant.Float32Val(constant.ToFloat(c.Value))
				v = m.tt.constw(32, uint64(math.Float32bits(f32)))
			} else {
				v = m.tt.constw(64, math.Float64bits(f))
			}
		case b.Info()&types.IsInteger != 0:
			cv := constant.ToInt(c.Value)
			if i, ok := constant.Int64Val(cv); ok {
				v = m.tt.constw(scalarW(t), uint64(i))
			} else {
				u, _ := constant.Uint64Val(cv)
				v = m.tt.constw(scalarW(t), u)
			}
		default:
			v = poison{"constant " + c.String()}
		}
	}
	w.consts[c] = v
	return v
}

func (w *Worker) funcVal(f *ssa.Function) Value {
	if v, ok := w.funcs[f]; ok {
		return v
	}
	c := &Closure{fn: f}
	w.funcs[f] = c
	return c
}

const maxAlloc = 1 << 47

// step executes one instruction of the current goroutine.
func (m *Machine) step() {
	m.steps++
	if m.steps&0x3ff == 0 {
		m.w.checkDeadline(m)
	}
	if m.steps > m.h.opt.maxSteps && m.initing == 0 {
		m.end("bound", "step limit %d", m.h.opt.maxSteps)
	}
	fr := m.top()
	in := fr.blk.Instrs[fr.ip]
	if trace {
		fmt.Printf("[g%d d%d] %s: %v\n", m.cur.id, len(m.cur.frames), fr.fn.Name(), in)
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
		fr.ip++
	case *ssa.Phi:
		// evaluate all phis of the block together
		var vals []Value
		var phis []*ssa.Phi
		edge := -1
		for i, p := range fr.blk.Preds {
			if p == fr.prev {
				edge = i
			}
		}
		for i := fr.ip; i < len(fr.blk.Instrs); i++ {
			p, ok := fr.blk.Instrs[i].(*ssa.Phi)
			if !ok {
				break
			}
			phis = append(phis, p)
			vals = append(vals, m.get(fr, p.Edges[edge]))
		}
		for i, p := range phis {
			m.set(fr, p, vals[i])
		}
		fr.ip += len(phis)
	case *ssa.Jump:
		m.jump(fr, fr.blk.Succs[0])
	case *ssa.If:
		c := m.get(fr, x.Cond)
		ct, ok := c.(*Term)
		if !ok {
			m.unsupported(fmt.Sprintf("branch on %T", c))
		}
		if ct.isConst() {
			if ct.isTrue() {
				m.jump(fr, fr.blk.Succs[0])
			} else {
				m.jump(fr, fr.blk.Succs[1])
			}
			return
		}
		if m.h.opt.unroll > 0 && len(m.known(ct).args) > 0 {
			if fr.symLoops == nil {
				fr.symLoops = map[ssa.Instruction]int{}
			}
			fr.symLoops[x]++
			if fr.symLoops[x] > m.h.opt.unroll {
				m.end("bound", "loop unrolled %d times", m.h.opt.unroll)
			}
		}
		if m.branch(ct) {
			m.jump(fr, fr.blk.Succs[0])
		} else {
			m.jump(fr, fr.blk.Succs[1])
		}
	case *ssa.Return:
		var v Value
		switch len(x.Results) {
		case 0:
			v = Tuple{}
		case 1:
			v = m.copyVal(m.get(fr, x.Results[0]))
		default:
			t := make(Tuple, len(x.Results))
			for i, r := range x.Results {
				t[i] = m.copyVal(m.get(fr, r))
			}
			v = t
		}
		m.popFrame(v)
	case *ssa.RunDefers:
		if len(fr.defers) == 0 {
			fr.ip++
			return
		}
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		m.runDefer(fr, d)
	case *ssa.Panic:
		v := m.get(fr, x.X).(Iface)
		m.goPanic(v)
	case *ssa.Call:
		fr.ip++
		m.call(fr, &x.Call, x, x)
	case *ssa.Defer:
		fr.ip++
		d := deferRec{inst: x}
		if x.Call.IsInvoke() {
			d.fn = m.get(fr, x.Call.Value)
			d.invk = x.Call.Method
			if i, ok := d.fn.(Iface); ok && i.t == nil {
				m.rtPanic("invalid memory address or nil pointer dereference")
				return
			}
		} else if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			d.fn = b
		} else {
			d.fn = m.get(fr, x.Call.Value)
		}
		for _, a := range x.Call.Args {
			d.args = append(d.args, m.copyVal(m.get(fr, a)))
		}
		fr.defers = append(fr.defers, d)
	case *ssa.Go:
		fr.ip++
		m.goStmt(fr, x)
	case *ssa.Store:
		m.storeTo(m.get(fr, x.Addr), m.get(fr, x.Val), fr, x.Val.Type())
		if m.top() == fr && fr.panicking == nil {
			fr.ip++
		}
	case *ssa.MapUpdate:
		mp, _ := m.get(fr, x.Map).(*MapV)
		fr.ip++
		if mp == nil {
			m.plainPanic("assignment to entry in nil map")
			return
		}
		m.mapSet(mp, m.get(fr, x.Key), m.copyVal(m.get(fr, x.Value)))
	case *ssa.Send:
		m.chanSend(fr, x)
	case *ssa.Select:
		m.doSelect(fr, x)
	case ssa.Value:
		n := len(m.cur.frames)
		v := m.eval(fr, x)
		if v == nil {
			// a panic was started, or the instruction arranged its own continuation
			return
		}
		if len(m.cur.frames) == n {
			m.set(fr, x, v)
			fr.ip++
		}
	default:
		m.unsupported(fmt.Sprintf("instruction %T", in))
	}
}

func (m *Machine) jump(fr *Frame, b *ssa.BasicBlock) {
	if b.Index <= fr.blk.Index {
		if fr.loops == nil {
			fr.loops = map[*ssa.BasicBlock]int{}
		}
		fr.loops[b]++
		if fr.loops[b] > m.h.opt.maxIter && m.initing == 0 {
			m.end("bound", "loop limit %d", m.h.opt.maxIter)
		}
	}
	fr.prev = fr.blk
	fr.blk = b
	fr.ip = 0
}

func (m *Machine) goPanic(v Iface) {
	if v.t == nil {
		m.plainPanic("panic called with nil argument (use GODEBUG=panicnil=1 to disable)")
		return
	}
	msg := m.describe(v)
	m.startPanic(&Panic{v: v, msg: msg, site: m.blame(), stack: m.backtrace()})
}

func (m *Machine) plainPanic(msg string) {
	if m.tolerant {
		panic(tolerate{"panic: " + msg})
	}
	m.startPanic(&Panic{v: m.w.rtError(m, msg), msg: msg, rt: true, site: m.blame(), stack: m.backtrace()})
}

func (m *Machine) fatalPanic(msg string) {
	m.startPanic(&Panic{v: m.w.rtError(m, msg), msg: "fatal error: " + msg, rt: true, fatal: true, site: m.blame(), stack: m.backtrace()})
}

func (m *Machine) describe(v Value) string {
	switch x := v.(type) {
	case Iface:
		if x.t == nil {
			return "nil"
		}
		if s, ok := x.v.(*Str); ok {
			return m.show(s)
		}
		if t, ok := x.v.(*Term); ok {
			return t.String()
		}
		if p, ok := x.v.(*Value); ok && p != nil {
			if st, ok := (*p).(*StructV); ok && len(st.f) > 0 {
				if s, ok := st.f[0].(*Str); ok {
					return typeStr(x.t) + ": " + m.show(s)
				}
			}
		}
		return typeStr(x.t)
	}
	return fmt.Sprintf("%T", v)
}

func (m *Machine) show(s *Str) string {
	if s.isLit {
		return s.lit
	}
	return "<symbolic string>"
}

// ---- calls ----

func (m *Machine) call(fr *Frame, c *ssa.CallCommon, res ssa.Value, in ssa.Instruction) {
	if c.IsInvoke() {
		recv := m.get(fr, c.Value)
		args := make([]Value, len(c.Args))
		for i, a := range c.Args {
			args[i] = m.get(fr, a)
		}
		m.invokeMethod(recv, c.Method, args, res)
		return
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		args := make([]Value, len(c.Args))
		for i, a := range c.Args {
			args[i] = m.get(fr, a)
		}
		m.builtin(fr, b, args, res, in)
		return
	}
	args := make([]Value, len(c.Args))
	for i, a := range c.Args {
		args[i] = m.get(fr, a)
	}
	if f, ok := c.Value.(*ssa.Function); ok {
		m.callFn(f, args, nil, res)
		return
	}
	m.callValue(m.get(fr, c.Value), args, res)
}

func (m *Machine) invokeMethod(recv Value, meth *types.Func, args []Value, res ssa.Value) {
	i, ok := recv.(Iface)
	if !ok {
		if p, ok := recv.(poison); ok {
			m.unsupported("method call on unsupported value: " + p.why)
		}
		m.unsupported(fmt.Sprintf("invoke on %T", recv))
	}
	if i.t == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
		return
	}
	f := m.eng.method(i.t, meth)
	if f == nil {
		m.unsupported("method " + meth.Name() + " of " + i.t.String())
	}
	a := make([]Value, 0, len(args)+1)
	a = append(a, i.v)
	a = append(a, args...)
	m.callFn(f, a, nil, res)
}

// ---- loads and stores ----

func (m *Machine) load(p Value, t types.Type) Value {
	switch x := p.(type) {
	case *Value:
		if x == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
			return nil
		}
		v := *x
		if m.race != nil {
			m.raceAccess(x, false)
		}
		if isPlain(v) {
			if t != nil {
				return m.reinterpret(v, t)
			}
			return v
		}
		if st, ok := v.(*StructV); ok && t != nil {
			if h, ok := m.headerFromStruct(st, t); ok {
				return h
			}
		}
		if m.race != nil {
			m.raceDeep(v, false)
		}
		return m.copyVal(v)
	case ElemPtr:
		if m.race != nil {
			m.raceElem(x, false)
		}
		if t != nil {
			if w := scalarW(t); w != 0 && w != x.mem.w {
				m.unsupported("reinterpreted element load")
			}
		}
		return m.read(x.mem.c, x.idx)
	case HdrPtr:
		return m.loadHdr(x)
	case WildPtr:
		m.startPanic(&Panic{v: m.w.rtError(m, "invalid memory address"), msg: "fatal error: unexpected fault address", fatal: true, site: m.blame(), stack: m.backtrace()})
		return nil
	case poison:
		m.unsupported("load through unsupported value: " + x.why)
	}
	m.unsupported(fmt.Sprintf("load through %T", p))
	return nil
}

func isPlain(v Value) bool {
	switch v.(type) {
	case *StructV, *ArrayV:
		return false
	}
	return true
}

// reinterpret handles loads through pointers converted with unsafe between string and slice headers.
func (m *Machine) reinterpret(v Value, t types.Type) Value {
	switch x := v.(type) {
	case *SliceV:
		if isString(t) {
			return m.mkStr(m.bytesOf(x), x.off, x.len)
		}
	case *Str:
		if _, ok := t.Underlying().(*types.Slice); ok {
			return m.strToAliasedBytes(x)
		}
	case *Term:
		if w := scalarW(t); w != 0 && x.w != w {
			m.unsupported("reinterpreted load")
		}
	}
	return v
}

func (m *Machine) strToAliasedBytes(s *Str) Value {
	c, off := s.chain(m)
	mem := &Mem{w: 8, c: c}
	return &SliceV{mem: mem, off: off, len: s.n, cap: s.n}
}

// headerFromStruct turns a reflect.StringHeader/SliceHeader struct into the string or slice it describes.
func (m *Machine) headerFromStruct(st *StructV, t types.Type) (Value, bool) {
	sl, isSl := t.Underlying().(*types.Slice)
	if !isSl && !isString(t) {
		return nil, false
	}
	if len(st.f) < 2 {
		return nil, false
	}
	n, ok := st.f[1].(*Term)
	if !ok {
		return nil, false
	}
	var d DataPtr
	switch x := st.f[0].(type) {
	case DataPtr:
		d = x
	case *Term:
		if x.isConst() && x.k == 0 {
			if isSl {
				return m.nilSlice(), true
			}
			return emptyStr(m), true
		}
		return nil, false
	default:
		return nil, false
	}
	if isSl {
		_ = sl
		cp := n
		if len(st.f) > 2 {
			cp = st.f[2].(*Term)
		}
		mem := d.mem
		if mem == nil {
			if d.c == nil {
				return m.nilSlice(), true
			}
			mem = &Mem{w: 8, c: d.c}
		}
		return &SliceV{mem: mem, off: d.off, len: n, cap: cp}, true
	}
	if d.mem != nil {
		return m.mkStr(d.mem.snap(), d.off, n), true
	}
	if d.c == nil {
		return emptyStr(m), true
	}
	return m.mkStr(d.c, d.off, n), true
}

func (m *Machine) loadHdr(p HdrPtr) Value {
	switch x := (*p.slot).(type) {
	case *SliceV:
		switch p.field {
		case 0:
			if x.isNil() {
				return m.tt.Int(0)
			}
			return DataPtr{mem: x.mem, base: x.arr, off: x.off}
		case 1:
			return x.len
		case 2:
			return x.cap
		}
	case *Str:
		if p.field == 0 {
			c, off := x.chain(m)
			return DataPtr{c: c, off: off}
		}
		return x.n
	}
	m.unsupported("header load")
	return nil
}

func (m *Machine) storeTo(p, v Value, fr *Frame, t types.Type) {
	switch x := p.(type) {
	case *Value:
		if x == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
			return
		}
		if m.race != nil {
			m.raceAccess(x, true)
			if !isPlain(v) {
				m.raceDeep(*x, true)
			}
		}
		m.assign(x, v)
		return
	case ElemPtr:
		if m.race != nil {
			m.raceElem(x, true)
		}
		tv, ok := v.(*Term)
		if !ok {
			m.unsupported(fmt.Sprintf("store of %T into scalar memory", v))
		}
		m.store(x.mem, x.idx, tv)
		return
	case HdrPtr:
		switch h := (*x.slot).(type) {
		case *SliceV:
			n := *h
			switch x.field {
			case 0:
				if d, ok := v.(DataPtr); ok {
					n.mem, n.off, n.arr = d.mem, d.off, d.base
					if n.mem == nil && d.c != nil {
						n.mem = &Mem{w: 8, c: d.c}
					}
				} else {
					m.unsupported("store to slice data pointer")
				}
			case 1:
				n.len = v.(*Term)
			case 2:
				n.cap = v.(*Term)
			}
			*x.slot = &n
			return
		}
		m.unsupported("store to string header")
	case WildPtr:
		m.startPanic(&Panic{v: m.w.rtError(m, "invalid memory address"), msg: "fatal error: unexpected fault address", fatal: true, site: m.blame(), stack: m.backtrace()})
		return
	case poison:
		m.unsupported("store through unsupported value: " + x.why)
	}
	m.unsupported(fmt.Sprintf("store through %T", p))
}

// inRange branches on 0 <= i < n; false starts the panic.
func (m *Machine) checkIndex(i, n *Term) bool {
	if m.branch(m.tt.Ult(i, n)) {
		return true
	}
	m.rtPanic(fmt.Sprintf("index out of range [%s] with length %s", short(i), short(n)))
	return false
}

func short(t *Term) string {
	if t.isConst() {
		return fmt.Sprint(int64(t.k))
	}
	return "?"
}

func (m *Machine) idx64(fr *Frame, v ssa.Value) *Term {
	t := m.getT(fr, v)
	return m.tt.Resize(t, 64, isSigned(v.Type()))
}

func (m *Machine) eval(fr *Frame, in ssa.Value) Value {
	tt := m.tt
	switch x := in.(type) {
	case *ssa.Alloc:
		s := new(Value)
		*s = m.zero(x.Type().Underlying().(*types.Pointer).Elem())
		if m.allocLim != nil && x.Heap {
			// constant-size objects are negligible
		}
		return s
	case *ssa.BinOp:
		return m.binop(fr, x)
	case *ssa.UnOp:
		return m.unop(fr, x)
	case *ssa.ChangeInterface, *ssa.ChangeType:
		return m.get(fr, (*x.(ssa.Instruction).Operands(nil)[0]))
	case *ssa.Convert:
		return m.convert(m.get(fr, x.X), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		return m.convert(m.get(fr, x.X), x.X.Type(), x.Type())
	case *ssa.MakeInterface:
		return Iface{x.X.Type(), m.copyVal(m.get(fr, x.X))}
	case *ssa.MakeClosure:
		env := make([]Value, len(x.Bindings))
		for i, b := range x.Bindings {
			env[i] = m.get(fr, b)
		}
		return &Closure{fn: x.Fn.(*ssa.Function), env: env}
	case *ssa.MakeMap:
		mt := x.Type().Underlying().(*types.Map)
		if x.Reserve != nil {
			n := m.idx64(fr, x.Reserve)
			m.accountAlloc(n, 16)
		}
		return m.newMap(mt)
	case *ssa.MakeChan:
		n := m.idx64(fr, x.Size)
		if !n.isConst() {
			m.unsupported("make(chan) of symbolic size")
		}
		m.chanID++
		return &ChanV{et: x.Type().Underlying().(*types.Chan).Elem(), cap: int(n.k), id: m.chanID}
	case *ssa.MakeSlice:
		return m.makeSlice(x.Type().Underlying().(*types.Slice).Elem(), m.idx64(fr, x.Len), m.idx64(fr, x.Cap))
	case *ssa.Slice:
		return m.slice(fr, x)
	case *ssa.FieldAddr:
		return m.fieldAddr(m.get(fr, x.X), x.X.Type(), x.Field)
	case *ssa.Field:
		s := m.get(fr, x.X)
		st, ok := s.(*StructV)
		if !ok {
			m.unsupported(fmt.Sprintf("field of %T", s))
		}
		return m.copyVal(st.f[x.Field])
	case *ssa.IndexAddr:
		return m.indexAddr(m.get(fr, x.X), m.idx64(fr, x.Index))
	case *ssa.Index:
		i := m.idx64(fr, x.Index)
		switch a := m.get(fr, x.X).(type) {
		case *ArrayV:
			if !m.checkIndex(i, tt.constw(64, a.n)) {
				return nil
			}
			if a.mem != nil {
				return m.read(a.mem.c, tt.Add(i, tt.constw(64, a.off)))
			}
			return m.copyVal(*m.cell(a.arr, m.concretize(i, 256)+a.off))
		case *Str:
			if !m.checkIndex(i, a.n) {
				return nil
			}
			return m.strAt(a, i)
		}
		m.unsupported("index")
	case *ssa.Lookup:
		return m.lookup(fr, x)
	case *ssa.Extract:
		t := m.get(fr, x.Tuple)
		tp, ok := t.(Tuple)
		if !ok {
			if p, ok := t.(poison); ok {
				return p
			}
			m.unsupported(fmt.Sprintf("extract of %T", t))
		}
		return tp[x.Index]
	case *ssa.TypeAssert:
		return m.typeAssert(fr, x)
	case *ssa.Range:
		switch c := m.get(fr, x.X).(type) {
		case *MapV:
			if c == nil {
				return &RangeIter{}
			}
			if m.race != nil {
				m.raceMap(c, false)
			}
			var ents []*MapEnt
			for _, e := range c.ents {
				if !e.dead {
					ents = append(ents, e)
				}
			}
			return &RangeIter{m: c, ents: ents}
		case *Str:
			return &RangeIter{s: c}
		}
		m.unsupported("range")
	case *ssa.Next:
		return m.next(fr, x)
	case *ssa.SliceToArrayPointer:
		s := m.get(fr, x.X).(*SliceV)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if !m.branch(tt.Ule(tt.Int(n), s.len)) {
			m.rtPanic("cannot convert slice to array: length too short")
			return nil
		}
		if n == 0 && s.isNil() {
			return nilPtr
		}
		off := m.concretize(s.off, 64)
		p := new(Value)
		*p = &ArrayV{mem: s.mem, arr: s.arr, off: off, n: uint64(n)}
		return p
	}
	m.unsupported(fmt.Sprintf("value %T", in))
	return nil
}

func (m *Machine) fieldAddr(p Value, pt types.Type, field int) Value {
	switch x := p.(type) {
	case *Value:
		if x == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
			return nil
		}
		switch s := (*x).(type) {
		case *StructV:
			return &s.f[field]
		case *SliceV:
			return HdrPtr{x, field, 'S'}
		case *Str:
			return HdrPtr{x, field, 's'}
		case poison:
			m.unsupported("field of unsupported value: " + s.why)
		}
		m.unsupported(fmt.Sprintf("field address in %T", *x))
	case WildPtr:
		m.startPanic(&Panic{v: m.w.rtError(m, "invalid memory address"), msg: "fatal error: unexpected fault address", fatal: true, site: m.blame(), stack: m.backtrace()})
		return nil
	case poison:
		m.unsupported("field of unsupported value: " + x.why)
	}
	m.unsupported(fmt.Sprintf("field address of %T", p))
	return nil
}

func (m *Machine) indexAddr(p Value, i *Term) Value {
	tt := m.tt
	switch x := p.(type) {
	case *SliceV:
		if !m.checkIndex(i, x.len) {
			return nil
		}
		if x.mem != nil {
			return ElemPtr{mem: x.mem, idx: tt.Add(x.off, i)}
		}
		return m.cell(x.arr, m.concretize(tt.Add(x.off, i), 256))
	case *Value:
		if x == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
			return nil
		}
		switch a := (*x).(type) {
		case *ArrayV:
			if !m.checkIndex(i, tt.constw(64, a.n)) {
				return nil
			}
			if a.mem != nil {
				return ElemPtr{mem: a.mem, idx: tt.Add(i, tt.constw(64, a.off))}
			}
			return m.cell(a.arr, m.concretize(i, 256)+a.off)
		case poison:
			m.unsupported("index of unsupported value: " + a.why)
		}
		m.unsupported(fmt.Sprintf("index address in %T", *x))
	case poison:
		m.unsupported("index of unsupported value: " + x.why)
	}
	m.unsupported(fmt.Sprintf("index address of %T", p))
	return nil
}

func (m *Machine) elemSize(t types.Type) int64 {
	return m.eng.sizes.Sizeof(t)
}

// accountAlloc checks an allocation against the harness's declared limit.
func (m *Machine) accountAlloc(n *Term, size int64) {
	if size < 1 {
		size = 1
	}
	if m.allocLim == nil || n.isConst() && int64(n.k)*size <= 4096 {
		return
	}
	// elements are bounded by 2^47, so the product cannot wrap for sizes below 2^16
	bytes := m.tt.Mul(m.tt.Int(size), n)
	m.assertT(m.tt.Ule(bytes, m.allocLim), "alloc", "allocation out of proportion to the input")
}

func (m *Machine) makeSlice(et types.Type, n, c *Term) Value {
	tt := m.tt
	sz := m.elemSize(et)
	if sz < 1 {
		sz = 1
	}
	lim := tt.Int(maxAlloc / sz)
	if !m.branch(tt.Ule(n, lim)) {
		m.rtPanic("makeslice: len out of range")
		return nil
	}
	if n != c {
		if !m.branch(tt.BAnd(tt.Ule(c, lim), tt.Ule(n, c))) {
			m.rtPanic("makeslice: cap out of range")
			return nil
		}
	}
	m.accountAlloc(c, sz)
	z := tt.Int(0)
	if w := scalarW(et); w > 0 {
		return &SliceV{mem: m.newMem(w), off: z, len: n, cap: c}
	}
	return &SliceV{arr: &ArrObj{elem: et, cells: map[uint64]*Value{}}, off: z, len: n, cap: c}
}

func (m *Machine) slice(fr *Frame, x *ssa.Slice) Value {
	tt := m.tt
	v := m.get(fr, x.X)
	var lo, hi, mx *Term
	if x.Low != nil {
		lo = m.idx64(fr, x.Low)
	} else {
		lo = tt.Int(0)
	}
	if x.High != nil {
		hi = m.idx64(fr, x.High)
	}
	if x.Max != nil {
		mx = m.idx64(fr, x.Max)
	}
	switch s := v.(type) {
	case *Str:
		if hi == nil {
			hi = s.n
		}
		if !m.branch(tt.Ule(hi, s.n)) {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [:%s] with length %s", short(hi), short(s.n)))
			return nil
		}
		if !m.branch(tt.Ule(lo, hi)) {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [%s:%s]", short(lo), short(hi)))
			return nil
		}
		if s.isLit && lo.isConst() && hi.isConst() {
			return m.lit(s.lit[lo.k:hi.k])
		}
		c, off := s.chain(m)
		return m.mkStr(c, tt.Add(off, lo), tt.Sub(hi, lo))
	case *SliceV:
		return m.slice3(s, lo, hi, mx)
	case *Value:
		if s == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
			return nil
		}
		a, ok := (*s).(*ArrayV)
		if !ok {
			m.unsupported(fmt.Sprintf("slice of pointer to %T", *s))
		}
		n := tt.constw(64, a.n)
		if hi == nil {
			hi = n
		}
		return m.slice3(&SliceV{mem: a.mem, arr: a.arr, off: tt.constw(64, a.off), len: n, cap: n}, lo, hi, mx)
	case poison:
		m.unsupported("slice of unsupported value: " + s.why)
	}
	m.unsupported(fmt.Sprintf("slice of %T", v))
	return nil
}

func (m *Machine) slice3(s *SliceV, lo, hi, mx *Term) Value {
	tt := m.tt
	if hi == nil {
		hi = s.len
	}
	capn := s.cap
	if mx != nil {
		if !m.branch(tt.Ule(mx, s.cap)) {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [::%s] with capacity %s", short(mx), short(s.cap)))
			return nil
		}
		capn = mx
	}
	if !m.branch(tt.Ule(hi, capn)) {
		m.rtPanic(fmt.Sprintf("slice bounds out of range [:%s] with capacity %s", short(hi), short(capn)))
		return nil
	}
	if !m.branch(tt.Ule(lo, hi)) {
		m.rtPanic(fmt.Sprintf("slice bounds out of range [%s:%s]", short(lo), short(hi)))
		return nil
	}
	r := &SliceV{mem: s.mem, arr: s.arr, len: tt.Sub(hi, lo), cap: tt.Sub(capn, lo)}
	r.off = tt.Add(s.off, lo)
	return r
}

// ---- operators ----

func (m *Machine) unop(fr *Frame, x *ssa.UnOp) Value {
	switch x.Op {
	case token.MUL:
		return m.load(m.get(fr, x.X), x.Type())
	case token.NOT:
		return m.tt.BNot(m.getT(fr, x.X))
	case token.SUB:
		t := m.getT(fr, x.X)
		if isFloat(x.X.Type()) {
			return m.tt.Xor(t, m.tt.constw(t.w, 1<<uint(t.w-1)))
		}
		return m.tt.Neg(t)
	case token.XOR:
		return m.tt.Not(m.getT(fr, x.X))
	case token.ARROW:
		m.chanRecv(fr, x)
		return nil
	}
	m.unsupported("unary " + x.Op.String())
	return nil
}

func (m *Machine) binop(fr *Frame, x *ssa.BinOp) Value {
	a, b := m.get(fr, x.X), m.get(fr, x.Y)
	t := x.X.Type()
	switch x.Op {
	case token.EQL, token.NEQ:
		var e *Term
		if isFloat(t) {
			e = m.tt.FP(OpFEq, 0, a.(*Term), b.(*Term))
		} else {
			e = m.equal(a, b)
		}
		if e == nil {
			return nil
		}
		if x.Op == token.EQL {
			return e
		}
		return m.tt.BNot(e)
	}
	if sa, ok := a.(*Str); ok {
		sb := b.(*Str)
		switch x.Op {
		case token.ADD:
			return m.concat(sa, sb)
		case token.LSS:
			return m.strLess(sa, sb)
		case token.GTR:
			return m.strLess(sb, sa)
		case token.LEQ:
			return m.tt.BNot(m.strLess(sb, sa))
		case token.GEQ:
			return m.tt.BNot(m.strLess(sa, sb))
		}
	}
	ta, ok := a.(*Term)
	if !ok {
		ta = m.getT(fr, x.X)
	}
	tb, ok := b.(*Term)
	if !ok {
		tb = m.getT(fr, x.Y)
	}
	tt := m.tt
	if isFloat(t) {
		w := ta.w
		switch x.Op {
		case token.ADD:
			return tt.FP(OpFAdd, w, ta, tb)
		case token.SUB:
			return tt.FP(OpFSub, w, ta, tb)
		case token.MUL:
			return tt.FP(OpFMul, w, ta, tb)
		case token.QUO:
			return tt.FP(OpFDiv, w, ta, tb)
		case token.LSS:
			return tt.FP(OpFLt, 0, ta, tb)
		case token.LEQ:
			return tt.FP(OpFLe, 0, ta, tb)
		case token.GTR:
			return tt.FP(OpFLt, 0, tb, ta)
		case token.GEQ:
			return tt.FP(OpFLe, 0, tb, ta)
		}
		m.unsupported("float op " + x.Op.String())
	}
	signed := isSigned(t)
	switch x.Op {
	case token.ADD:
		return tt.Add(ta, tb)
	case token.SUB:
		return tt.Sub(ta, tb)
	case token.MUL:
		return tt.Mul(ta, tb)
	case token.QUO, token.REM:
		if !m.branch(tt.BNot(tt.Eq(tb, tt.constw(tb.w, 0)))) {
			m.rtPanic("integer divide by zero")
			return nil
		}
		switch {
		case x.Op == token.QUO && signed:
			return tt.SDiv(ta, tb)
		case x.Op == token.QUO:
			return tt.UDiv(ta, tb)
		case signed:
			return tt.SRem(ta, tb)
		}
		return tt.URem(ta, tb)
	case token.AND:
		if ta.w == 0 {
			return tt.BAnd(ta, tb)
		}
		return tt.And(ta, tb)
	case token.OR:
		if ta.w == 0 {
			return tt.BOr(ta, tb)
		}
		return tt.Or(ta, tb)
	case token.XOR:
		return tt.Xor(ta, tb)
	case token.AND_NOT:
		return tt.And(ta, tt.Not(tb))
	case token.SHL, token.SHR:
		if isSigned(x.Y.Type()) {
			if !m.branch(tt.Sle(tt.constw(tb.w, 0), tb)) {
				m.rtPanic("negative shift amount")
				return nil
			}
		}
		sh := tb
		if sh.w > ta.w {
			big := tt.Ule(tt.constw(sh.w, uint64(ta.w)), sh)
			sh = tt.Ite(big, tt.constw(ta.w, uint64(ta.w)), tt.Extract(sh, ta.w-1, 0))
		} else if sh.w < ta.w {
			sh = tt.ZExt(sh, ta.w)
		}
		if x.Op == token.SHL {
			return tt.Shl(ta, sh)
		}
		if signed {
			return tt.AShr(ta, sh)
		}
		return tt.LShr(ta, sh)
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		if x.Op == token.GTR || x.Op == token.GEQ {
			ta, tb = tb, ta
		}
		lt := x.Op == token.LSS || x.Op == token.GTR
		switch {
		case lt && signed:
			return tt.Slt(ta, tb)
		case lt:
			return tt.Ult(ta, tb)
		case signed:
			return tt.Sle(ta, tb)
		}
		return tt.Ule(ta, tb)
	}
	m.unsupported("operator " + x.Op.String())
	return nil
}

const eqExpand = 80

// strEq gives a term for equality of two byte sequences.
func (m *Machine) bytesEq(ca *Chain, oa, na *Term, cb *Chain, ob, nb *Term) *Term {
	tt := m.tt
	le := m.known(tt.Eq(na, nb))
	if le.isFalse() {
		return tt.F
	}
	if ca == cb && oa == ob {
		return le
	}
	n := na
	if nb.isConst() || nb.hi < na.hi {
		n = nb
	}
	r := le
	if n.isConst() {
		if n.k > 1<<14 {
			m.unsupported("comparison of long byte sequences")
		}
		for i := uint64(0); i < n.k; i++ {
			it := tt.constw(64, i)
			r = tt.BAnd(r, tt.Eq(m.read(ca, tt.Add(oa, it)), m.read(cb, tt.Add(ob, it))))
			if r.isFalse() {
				return r
			}
		}
		return r
	}
	hi := n.hi
	if hi > eqExpand {
		// tighten with the path condition
		if !m.branch(tt.Ule(n, tt.Int(eqExpand))) {
			m.end("bound", "comparison of byte sequences longer than %d with symbolic length", eqExpand)
		}
		hi = eqExpand
	}
	for i := uint64(0); i < hi; i++ {
		it := tt.constw(64, i)
		r = tt.BAnd(r, tt.BOr(tt.Ule(n, it), tt.Eq(m.read(ca, tt.Add(oa, it)), m.read(cb, tt.Add(ob, it)))))
	}
	return r
}

func (m *Machine) strEq(a, b *Str) *Term {
	if a.isLit && b.isLit {
		return m.tt.Bool(a.lit == b.lit)
	}
	if a.n.isConst() && b.n.isConst() && a.n.k != b.n.k {
		return m.tt.F
	}
	ca, oa := a.chain(m)
	cb, ob := b.chain(m)
	return m.bytesEq(ca, oa, a.n, cb, ob, b.n)
}

func (m *Machine) strLess(a, b *Str) *Term {
	if a.isLit && b.isLit {
		return m.tt.Bool(a.lit < b.lit)
	}
	tt := m.tt
	n := a.n.hi
	if b.n.hi < n {
		n = b.n.hi
	}
	if n > eqExpand {
		m.unsupported("ordering of long symbolic strings")
	}
	r := tt.Ult(a.n, b.n)
	for i := int(n) - 1; i >= 0; i-- {
		it := tt.Int(int64(i))
		x, y := m.strAt(a, it), m.strAt(b, it)
		in := tt.BAnd(tt.Ult(it, a.n), tt.Ult(it, b.n))
		r = tt.Ite(in, tt.Ite(tt.Eq(x, y), r, tt.Ult(x, y)), r)
	}
	// r for i beyond either end must be the length comparison
	return r
}

func (m *Machine) concat(a, b *Str) Value {
	if a.isLit && b.isLit {
		return m.lit(a.lit + b.lit)
	}
	if a.n.isConst() && a.n.k == 0 {
		return b
	}
	if b.n.isConst() && b.n.k == 0 {
		return a
	}
	mem := m.newMem(8)
	ca, oa := a.chain(m)
	cb, ob := b.chain(m)
	m.copyMem(mem, m.tt.Int(0), ca, oa, a.n)
	m.copyMem(mem, a.n, cb, ob, b.n)
	return m.mkStr(mem.snap(), m.tt.Int(0), m.tt.Add(a.n, b.n))
}

func (m *Machine) equal(a, b Value) *Term {
	tt := m.tt
	switch x := a.(type) {
	case *Term:
		switch y := b.(type) {
		case *Term:
			return tt.Eq(x, y)
		case DataPtr, ElemPtr:
			return tt.Eq(x, m.addrOf(y))
		}
	case *Str:
		if y, ok := b.(*Str); ok {
			return m.strEq(x, y)
		}
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			m.unsupported("interface comparison")
		}
		if x.t == nil || y.t == nil {
			return tt.Bool(x.t == nil && y.t == nil)
		}
		if !sameType(x.t, y.t) {
			return tt.F
		}
		if !types.Comparable(x.t) {
			m.rtPanic("comparing uncomparable type " + typeStr(x.t))
			return nil
		}
		if isFloat(x.t) {
			return tt.FP(OpFEq, 0, x.v.(*Term), y.v.(*Term))
		}
		return m.equal(x.v, y.v)
	case *Value:
		switch y := b.(type) {
		case *Value:
			return tt.Bool(x == y)
		case WildPtr:
			if y.addr.isConst() {
				return tt.F
			}
			return tt.F // ptrFrom already excluded every known object
		case ElemPtr:
			return tt.F
		}
	case WildPtr:
		switch y := b.(type) {
		case WildPtr:
			return tt.Eq(x.addr, y.addr)
		default:
			return tt.F
		}
	case ElemPtr:
		if y, ok := b.(ElemPtr); ok {
			if x.mem != y.mem {
				return tt.F
			}
			return tt.Eq(x.idx, y.idx)
		}
		return tt.F
	case *Closure:
		y, _ := b.(*Closure)
		return tt.Bool(x == nil && y == nil || x == y)
	case *SliceV:
		y := b.(*SliceV)
		if y.isNil() {
			return tt.Bool(x.isNil())
		}
		return tt.Bool(y.isNil() && x.isNil())
	case *MapV:
		return tt.Bool(x == b.(*MapV))
	case *ChanV:
		return tt.Bool(x == b.(*ChanV))
	case *StructV:
		y := b.(*StructV)
		r := tt.T
		for i := range x.f {
			e := m.equal(x.f[i], y.f[i])
			if e == nil {
				return nil
			}
			r = tt.BAnd(r, e)
		}
		return r
	case *ArrayV:
		y := b.(*ArrayV)
		r := tt.T
		for i := uint64(0); i < x.n; i++ {
			var e *Term
			if x.mem != nil {
				e = tt.Eq(m.read(x.mem.c, tt.constw(64, i+x.off)), m.read(y.mem.c, tt.constw(64, i+y.off)))
			} else {
				e = m.equal(*m.cell(x.arr, i+x.off), *m.cell(y.arr, i+y.off))
			}
			if e == nil {
				return nil
			}
			r = tt.BAnd(r, e)
		}
		return r
	case DataPtr:
		if y, ok := b.(DataPtr); ok {
			return tt.Bool(x == y)
		}
		if y, ok := b.(*Term); ok && y.isConst() && y.k == 0 {
			return tt.F
		}
	case poison:
		m.unsupported("comparison of unsupported value: " + x.why)
	}
	if p, ok := b.(poison); ok {
		m.unsupported("comparison of unsupported value: " + p.why)
	}
	m.unsupported(fmt.Sprintf("comparison of %T and %T", a, b))
	return nil
}

// ---- conversions ----

func (m *Machine) convert(v Value, from, to types.Type) Value {
	tt := m.tt
	if p, ok := v.(poison); ok {
		return p
	}
	fu, tu := from.Underlying(), to.Underlying()
	fb, _ := fu.(*types.Basic)
	tb, _ := tu.(*types.Basic)
	// unsafe.Pointer
	if tb != nil && tb.Kind() == types.UnsafePointer {
		switch x := v.(type) {
		case *Term:
			return m.ptrFrom(x)
		case DataPtr:
			if x.mem != nil {
				return ElemPtr{mem: x.mem, idx: x.off}
			}
			if x.c != nil {
				return ElemPtr{mem: &Mem{w: 8, c: x.c}, idx: x.off}
			}
		}
		return v
	}
	if fb != nil && fb.Kind() == types.UnsafePointer {
		if tb != nil && tb.Kind() == types.Uintptr {
			switch x := v.(type) {
			case ElemPtr:
				return DataPtr{mem: x.mem, off: x.idx}
			}
			return m.addrOf(v)
		}
		return v // to *T
	}
	switch {
	case tb != nil && fb != nil && tb.Info()&types.IsNumeric != 0 && fb.Info()&types.IsNumeric != 0:
		t, ok := v.(*Term)
		if !ok {
			if d, ok := v.(DataPtr); ok {
				return d
			}
			m.unsupported(fmt.Sprintf("numeric conversion of %T", v))
		}
		ff, tf := isFloat(from), isFloat(to)
		w := scalarW(to)
		switch {
		case ff && tf:
			if t.w == w {
				return t
			}
			return tt.FP(OpFtoF, w, t)
		case ff:
			return m.floatToInt(t, w, isSigned(to))
		case tf:
			if isSigned(from) {
				return tt.FP(OpStoF, w, t)
			}
			return tt.FP(OpUtoF, w, t)
		}
		return tt.Resize(t, w, isSigned(from))
	case tb != nil && tb.Info()&types.IsString != 0:
		switch x := v.(type) {
		case *Str:
			return x
		case *SliceV:
			if x.isNil() {
				return emptyStr(m)
			}
			if x.mem == nil {
				m.unsupported("string conversion of slice")
			}
			if x.mem.w == 32 { // []rune
				n := m.concretize(x.len, 64)
				var sb strings.Builder
				for i := uint64(0); i < n; i++ {
					r := m.read(x.mem.c, tt.Add(x.off, tt.constw(64, i)))
					if !r.isConst() {
						m.unsupported("string of symbolic runes")
					}
					sb.WriteRune(rune(int32(r.k)))
				}
				return m.lit(sb.String())
			}
			if m.race != nil {
				m.raceRange(x, false)
			}
			m.accountAlloc(x.len, 1)
			return m.mkStr(m.bytesOf(x), x.off, x.len)
		case *Term:
			if x.isConst() {
				return m.lit(string(rune(sext(x.k, x.w))))
			}
			if m.branch(tt.Ult(x, tt.constw(x.w, 0x80))) {
				mem := m.newMem(8)
				m.store(mem, tt.Int(0), tt.Extract(x, 7, 0))
				return m.mkStr(mem.snap(), tt.Int(0), tt.Int(1))
			}
			m.unsupported("string of symbolic rune")
		}
	}
	if sl, ok := tu.(*types.Slice); ok {
		switch x := v.(type) {
		case *Str:
			if scalarW(sl.Elem()) == 8 {
				mem := m.newMem(8)
				c, off := x.chain(m)
				m.accountAlloc(x.n, 1)
				if off.isConst() && off.k == 0 && x.isLit {
					mem.c = c
				} else {
					m.copyMem(mem, tt.Int(0), c, off, x.n)
				}
				return &SliceV{mem: mem, off: tt.Int(0), len: x.n, cap: x.n}
			}
			if !x.isLit {
				m.unsupported("[]rune of symbolic string")
			}
			mem := m.newMem(32)
			n := 0
			for _, r := range x.lit {
				m.store(mem, tt.Int(int64(n)), tt.constw(32, uint64(r)))
				n++
			}
			return &SliceV{mem: mem, off: tt.Int(0), len: tt.Int(int64(n)), cap: tt.Int(int64(n))}
		case *SliceV:
			return x
		}
	}
	if _, ok := tu.(*types.Pointer); ok {
		return v
	}
	if _, ok := tu.(*types.Array); ok { // slice to array
		s := v.(*SliceV)
		n := uint64(tu.(*types.Array).Len())
		if !m.branch(tt.Ule(tt.constw(64, n), s.len)) {
			m.rtPanic("cannot convert slice to array: length too short")
			return nil
		}
		a := &ArrayV{mem: s.mem, arr: s.arr, off: m.concretize(s.off, 64), n: n}
		if s.isNil() {
			return m.zero(to)
		}
		return m.copyVal(a)
	}
	m.unsupported(fmt.Sprintf("conversion %s to %s", from, to))
	return nil
}

// floatToInt follows amd64: out of range gives the minimum integer of the conversion width.
func (m *Machine) floatToInt(t *Term, w int, signed bool) Value {
	tt := m.tt
	if t.isConst() {
		var f float64
		if t.w == 32 {
			f = float64(math.Float32frombits(uint32(t.k)))
		} else {
			f = math.Float64frombits(t.k)
		}
		if signed {
			switch w {
			case 64:
				return tt.constw(64, uint64(int64(f)))
			case 32:
				return tt.constw(32, uint64(uint32(int32(f))))
			}
			return tt.constw(w, uint64(int64(f)))
		}
		return tt.constw(w, uint64(f))
	}
	if !signed {
		return tt.FP(OpFtoU, w, t)
	}
	return tt.FP(OpFtoS, w, t)
}

// ---- type assertions ----

func (m *Machine) typeAssert(fr *Frame, x *ssa.TypeAssert) Value {
	v := m.get(fr, x.X)
	i, ok := v.(Iface)
	if !ok {
		if p, ok := v.(poison); ok {
			m.unsupported("assertion on unsupported value: " + p.why)
		}
		m.unsupported(fmt.Sprintf("type assertion on %T", v))
	}
	good := false
	var r Value
	if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
		if i.t != nil && m.eng.implements(i.t, it) {
			good = true
		}
		r = i
		if !good {
			r = Iface{}
		}
	} else {
		good = i.t != nil && sameType(i.t, x.AssertedType)
		if good {
			r = m.copyVal(i.v)
		} else {
			r = m.zero(x.AssertedType)
		}
	}
	if x.CommaOk {
		return Tuple{r, m.tt.Bool(good)}
	}
	if !good {
		have := "nil"
		if i.t != nil {
			have = typeStr(i.t)
		}
		m.plainPanic("interface conversion: interface is " + have + ", not " + typeStr(x.AssertedType))
		return nil
	}
	return r
}

// ---- maps ----

func (m *Machine) newMap(t *types.Map) *MapV {
	return &MapV{kt: t.Key(), vt: t.Elem(), idx: map[string]*MapEnt{}}
}

// mapFind returns the entry for key, forking on symbolic equality.
func (m *Machine) mapFind(mp *MapV, k Value) *MapEnt {
	if ks, ok := mapKey(k); ok {
		if e, ok := mp.idx[ks]; ok {
			return e
		}
		for _, e := range mp.ents {
			if e.dead {
				continue
			}
			if _, c := mapKey(e.k); c {
				continue // concrete and different
			}
			eq := m.equal(e.k, k)
			if m.branch(eq) {
				return e
			}
		}
		return nil
	}
	for _, e := range mp.ents {
		if e.dead {
			continue
		}
		eq := m.equal(e.k, k)
		if eq == nil {
			return nil
		}
		if m.branch(eq) {
			return e
		}
	}
	return nil
}

func (m *Machine) hashable(k Value) bool {
	if i, ok := k.(Iface); ok && i.t != nil {
		if !types.Comparable(i.t) {
			m.plainPanic("runtime error: hash of unhashable type " + typeStr(i.t))
			return false
		}
		return m.hashable(i.v)
	}
	return true
}

func (m *Machine) mapSet(mp *MapV, k, v Value) {
	if !m.hashable(k) {
		return
	}
	if m.race != nil {
		m.raceMap(mp, true)
	}
	if e := m.mapFind(mp, k); e != nil {
		e.v = v
		return
	}
	e := &MapEnt{k: m.copyVal(k), v: v}
	mp.ents = append(mp.ents, e)
	if ks, ok := mapKey(k); ok {
		mp.idx[ks] = e
	}
	mp.n++
}

func (m *Machine) mapDelete(mp *MapV, k Value) {
	if mp == nil {
		return
	}
	if !m.hashable(k) {
		return
	}
	if m.race != nil {
		m.raceMap(mp, true)
	}
	e := m.mapFind(mp, k)
	if e == nil {
		return
	}
	e.dead = true
	if ks, ok := mapKey(e.k); ok {
		delete(mp.idx, ks)
	}
	for i, x := range mp.ents {
		if x == e {
			mp.ents = append(append([]*MapEnt(nil), mp.ents[:i]...), mp.ents[i+1:]...)
			break
		}
	}
	mp.n--
}

func (m *Machine) lookup(fr *Frame, x *ssa.Lookup) Value {
	v := m.get(fr, x.X)
	if s, ok := v.(*Str); ok {
		i := m.idx64(fr, x.Index)
		if !m.checkIndex(i, s.n) {
			return nil
		}
		return m.strAt(s, i)
	}
	mp, ok := v.(*MapV)
	if !ok {
		m.unsupported(fmt.Sprintf("lookup in %T", v))
	}
	vt := x.X.Type().Underlying().(*types.Map).Elem()
	k := m.get(fr, x.Index)
	var e *MapEnt
	if mp != nil {
		if !m.hashable(k) {
			return nil
		}
		if m.race != nil {
			m.raceMap(mp, false)
		}
		e = m.mapFind(mp, k)
	}
	var r Value
	if e != nil {
		r = m.copyVal(e.v)
	} else {
		r = m.zero(vt)
	}
	if x.CommaOk {
		return Tuple{r, m.tt.Bool(e != nil)}
	}
	return r
}

// decodeRune decodes the non-ASCII character at position at of s, whose first byte is b0.
func (m *Machine) decodeRune(s *Str, at int, b0 *Term) (*Term, int) {
	tt := m.tt
	c8 := func(k uint64) *Term { return tt.constw(8, k) }
	bad := tt.constw(32, 0xfffd)
	in := func(b *Term, lo, hi uint64) bool {
		return m.branch(tt.And(tt.Ule(c8(lo), b), tt.Ule(b, c8(hi))))
	}
	if !in(b0, 0xc2, 0xf4) {
		return bad, 1
	}
	n := 4
	if in(b0, 0xc2, 0xdf) {
		n = 2
	} else if in(b0, 0xe0, 0xef) {
		n = 3
	}
	lo, hi := uint64(0x80), uint64(0xbf)
	is := func(k uint64) bool { return in(b0, k, k) }
	if n == 3 {
		if is(0xe0) {
			lo = 0xa0
		} else if is(0xed) {
			hi = 0x9f
		}
	} else if n == 4 {
		if is(0xf0) {
			lo = 0x90
		} else if is(0xf4) {
			hi = 0x8f
		}
	}
	mask := uint64(0x7f >> uint(n))
	r := tt.ZExt(tt.BAnd(b0, c8(mask)), 32)
	for i := 1; i < n; i++ {
		p := tt.Int(int64(at + i))
		if !m.branch(tt.Ult(p, s.n)) {
			return bad, 1
		}
		c := m.strAt(s, p)
		if !in(c, lo, hi) {
			return bad, 1
		}
		lo, hi = 0x80, 0xbf
		r = tt.BOr(tt.Shl(r, tt.constw(32, 6)), tt.ZExt(tt.BAnd(c, c8(0x3f)), 32))
	}
	return r, n
}

func (m *Machine) next(fr *Frame, x *ssa.Next) Value {
	it := m.get(fr, x.Iter).(*RangeIter)
	tt := m.tt
	if x.IsString {
		s := it.s
		if s == nil {
			m.unsupported("string range")
		}
		p := tt.Int(int64(it.pos))
		if !m.branch(tt.Ult(p, s.n)) {
			return Tuple{tt.F, tt.Int(0), tt.constw(32, 0)}
		}
		if s.isLit {
			for i, r := range s.lit[it.pos:] {
				_ = i
				n := len(string(r))
				if r == 0xfffd {
					n = 1
					if strings.HasPrefix(s.lit[it.pos:], "\uFFFD") {
						n = 3
					}
				}
				at := it.pos
				it.pos += n
				return Tuple{tt.T, tt.Int(int64(at)), tt.constw(32, uint64(r))}
			}
		}
		b := m.strAt(s, p)
		if m.branch(tt.Ult(b, tt.constw(8, 0x80))) {
			at := it.pos
			it.pos++
			return Tuple{tt.T, tt.Int(int64(at)), tt.ZExt(b, 32)}
		}
		at := it.pos
		r, n := m.decodeRune(s, at, b)
		it.pos += n
		return Tuple{tt.T, tt.Int(int64(at)), r}
	}
	for it.pos < len(it.ents) {
		e := it.ents[it.pos]
		it.pos++
		if e.dead {
			continue
		}
		if m.race != nil {
			m.raceMap(it.m, false)
		}
		return Tuple{tt.T, e.k, m.copyVal(e.v)}
	}
	var kz, vz Value = tt.F, tt.F
	tup := x.Type().(*types.Tuple)
	if b, ok := tup.At(1).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
		kz = m.zero(tup.At(1).Type())
	}
	if b, ok := tup.At(2).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
		vz = m.zero(tup.At(2).Type())
	}
	return Tuple{tt.F, kz, vz}
}

// ---- builtins ----

func (m *Machine) builtin(fr *Frame, b *ssa.Builtin, args []Value, res ssa.Value, in ssa.Instruction) {
	tt := m.tt
	out := func(v Value) { m.deliver(res, v) }
	for _, a := range args {
		if p, ok := a.(poison); ok {
			m.unsupported("builtin on unsupported value: " + p.why)
		}
	}
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case *Str:
			out(x.n)
		case *SliceV:
			out(x.len)
		case *MapV:
			if x == nil {
				out(tt.Int(0))
			} else {
				if m.race != nil {
					m.raceMap(x, false)
				}
				out(tt.Int(int64(x.n)))
			}
		case *ChanV:
			if x == nil {
				out(tt.Int(0))
			} else {
				out(tt.Int(int64(len(x.buf))))
			}
		case *ArrayV:
			out(tt.constw(64, x.n))
		case *Value:
			out(tt.constw(64, (*x).(*ArrayV).n))
		default:
			m.unsupported(fmt.Sprintf("len of %T", x))
		}
	case "cap":
		switch x := args[0].(type) {
		case *SliceV:
			out(x.cap)
		case *ChanV:
			if x == nil {
				out(tt.Int(0))
			} else {
				out(tt.Int(int64(x.cap)))
			}
		case *ArrayV:
			out(tt.constw(64, x.n))
		default:
			m.unsupported("cap")
		}
	case "append":
		s := args[0].(*SliceV)
		st, _ := b.Type().(*types.Signature)
		var et types.Type
		if st != nil {
			if sl, ok := st.Results().At(0).Type().Underlying().(*types.Slice); ok {
				et = sl.Elem()
			}
		}
		if et == nil {
			et = in.(ssa.Value).Type().Underlying().(*types.Slice).Elem()
		}
		out(m.doAppend(s, args[1], et))
	case "copy":
		out(m.doCopy(args[0].(*SliceV), args[1]))
	case "delete":
		mp, _ := args[0].(*MapV)
		m.mapDelete(mp, args[1])
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if x != nil {
				for _, e := range x.ents {
					e.dead = true
				}
				x.ents, x.idx, x.n = nil, map[string]*MapEnt{}, 0
			}
		case *SliceV:
			if x.mem != nil {
				m.copyMem(x.mem, x.off, zeroChain(x.mem.w), tt.Int(0), x.len)
			} else if x.arr != nil {
				n := m.concretize(x.len, 256)
				o := m.concretize(x.off, 256)
				for i := uint64(0); i < n; i++ {
					m.assign(m.cell(x.arr, o+i), m.zero(x.arr.elem))
				}
			}
		}
	case "min", "max":
		t := args[0]
		for _, a := range args[1:] {
			x, ok := t.(*Term)
			y, ok2 := a.(*Term)
			if !ok || !ok2 {
				m.unsupported("min/max")
			}
			rt := res.Type()
			var lt *Term
			if isFloat(rt) {
				m.unsupported("min/max of floats")
			}
			if isSigned(rt) {
				lt = tt.Slt(y, x)
			} else {
				lt = tt.Ult(y, x)
			}
			if b.Name() == "max" {
				if isSigned(rt) {
					lt = tt.Slt(x, y)
				} else {
					lt = tt.Ult(x, y)
				}
			}
			t = tt.Ite(lt, y, x)
		}
		out(t)
	case "close":
		m.chanClose(args[0])
	case "panic":
		m.goPanic(args[0].(Iface))
	case "recover":
		// valid only directly in a deferred call of a panicking frame
		fs := m.cur.frames
		if len(fs) >= 2 && fr.isDefer {
			p := fs[len(fs)-2]
			if p.panicking != nil && !p.recovered {
				p.recovered = true
				out(p.panicking.v)
				return
			}
		}
		out(Iface{})
	case "print", "println":
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
			return
		}
		out(args[0])
	case "String": // unsafe.String
		switch p := args[0].(type) {
		case ElemPtr:
			out(m.mkStr(p.mem.snap(), p.idx, m.arg64(args[1], in, 1)))
		case *Value:
			if p == nil {
				out(emptyStr(m))
				return
			}
			m.unsupported("unsafe.String")
		default:
			m.unsupported("unsafe.String")
		}
	case "StringData":
		s := args[0].(*Str)
		c, off := s.chain(m)
		out(ElemPtr{mem: &Mem{w: 8, c: c}, idx: off})
	case "SliceData":
		s := args[0].(*SliceV)
		if s.mem != nil {
			out(ElemPtr{mem: s.mem, idx: s.off})
			return
		}
		if s.arr == nil {
			out(nilPtr)
			return
		}
		m.unsupported("unsafe.SliceData")
	case "Slice":
		if p, ok := args[0].(ElemPtr); ok {
			n := m.arg64(args[1], in, 1)
			out(&SliceV{mem: p.mem, off: p.idx, len: n, cap: n})
			return
		}
		m.unsupported("unsafe.Slice")
	case "Add":
		if p, ok := args[0].(ElemPtr); ok && p.mem.w == 8 {
			out(ElemPtr{mem: p.mem, idx: tt.Add(p.idx, m.arg64(args[1], in, 1))})
			return
		}
		m.unsupported("unsafe.Add")
	default:
		m.unsupported("builtin " + b.Name())
	}
}

func (m *Machine) arg64(v Value, in ssa.Instruction, i int) *Term {
	t := v.(*Term)
	var at types.Type
	if c, ok := in.(ssa.CallInstruction); ok {
		at = c.Common().Args[i].Type()
	}
	return m.tt.Resize(t, 64, at != nil && isSigned(at))
}

var sizeClasses = []uint64{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func growCap(oldCap, newLen, size uint64) uint64 {
	nc := oldCap
	if newLen > 2*oldCap {
		nc = newLen
	} else if oldCap < 256 {
		nc = 2 * oldCap
	} else {
		for nc < newLen {
			nc += (nc + 3*256) / 4
		}
	}
	if size == 0 {
		return nc
	}
	b := nc * size
	if b <= 32768 {
		for _, c := range sizeClasses {
			if c >= b {
				b = c
				break
			}
		}
	} else {
		b = (b + 8191) &^ 8191
	}
	return b / size
}

func (m *Machine) doAppend(s *SliceV, v Value, et types.Type) Value {
	tt := m.tt
	var n *Term
	var srcC *Chain
	var srcOff *Term
	var srcA *SliceV
	switch x := v.(type) {
	case *Str:
		n = x.n
		srcC, srcOff = x.chain(m)
	case *SliceV:
		n = x.len
		if n.isConst() && n.k == 0 {
			return s
		}
		if x.isNil() {
			return s
		}
		if x.mem != nil {
			if m.race != nil {
				m.raceRange(x, false)
			}
			srcC, srcOff = x.mem.snap(), x.off
		} else {
			srcA = x
		}
	default:
		m.unsupported(fmt.Sprintf("append of %T", v))
	}
	if n.isConst() && n.k == 0 {
		return s
	}
	nl := tt.Add(s.len, n)
	sz := m.elemSize(et)
	if !s.isNil() && m.branch(tt.Ule(nl, s.cap)) {
		r := &SliceV{mem: s.mem, arr: s.arr, off: s.off, len: nl, cap: s.cap}
		if s.mem != nil {
			if m.race != nil {
				m.raceRange(&SliceV{mem: s.mem, off: tt.Add(s.off, s.len), len: n}, true)
			}
			m.copyMem(s.mem, tt.Add(s.off, s.len), srcC, srcOff, n)
		} else {
			m.copyCells(s.arr, tt.Add(s.off, s.len), srcA, n)
		}
		return r
	}
	nc := nl
	if nl.isConst() && s.cap.isConst() {
		nc = tt.constw(64, growCap(s.cap.k, nl.k, uint64(sz)))
	}
	m.accountAlloc(nc, sz)
	z := tt.Int(0)
	if w := scalarW(et); w > 0 {
		mem := m.newMem(w)
		if s.mem != nil {
			if m.race != nil {
				m.raceRange(s, false)
			}
			m.copyMem(mem, z, s.mem.snap(), s.off, s.len)
		}
		m.copyMem(mem, s.len, srcC, srcOff, n)
		return &SliceV{mem: mem, off: z, len: nl, cap: nc}
	}
	arr := &ArrObj{elem: et, cells: map[uint64]*Value{}}
	if s.arr != nil {
		m.copyCells(arr, z, s, s.len)
	}
	m.copyCells(arr, s.len, srcA, n)
	return &SliceV{arr: arr, off: z, len: nl, cap: nc}
}

func (m *Machine) copyCells(dst *ArrObj, dstOff *Term, src *SliceV, n *Term) {
	k := m.concretize(n, 256)
	do := m.concretize(dstOff, 256)
	so := m.concretize(src.off, 256)
	vals := make([]Value, k)
	for i := range vals {
		c := m.cell(src.arr, so+uint64(i))
		if m.race != nil {
			m.raceAccess(c, false)
		}
		vals[i] = m.copyVal(*c)
	}
	for i := range vals {
		c := m.cell(dst, do+uint64(i))
		if m.race != nil {
			m.raceAccess(c, true)
		}
		m.assign(c, vals[i])
	}
}

func (m *Machine) doCopy(d *SliceV, v Value) Value {
	tt := m.tt
	switch x := v.(type) {
	case *Str:
		n := m.minT(d.len, x.n)
		if d.mem == nil {
			return tt.Int(0)
		}
		c, off := x.chain(m)
		m.copyMem(d.mem, d.off, c, off, n)
		return n
	case *SliceV:
		n := m.minT(d.len, x.len)
		if d.isNil() || x.isNil() {
			return tt.Int(0)
		}
		if d.mem != nil {
			if m.race != nil {
				m.raceRange(&SliceV{mem: x.mem, off: x.off, len: n}, false)
				m.raceRange(&SliceV{mem: d.mem, off: d.off, len: n}, true)
			}
			m.copyMem(d.mem, d.off, x.mem.snap(), x.off, n)
			return n
		}
		m.copyCells(d.arr, d.off, x, n)
		return n
	}
	m.unsupported("copy")
	return nil
}

func (m *Machine) minT(a, b *Term) *Term {
	lt := m.known(m.tt.Ule(a, b))
	if lt.isConst() {
		if lt.isTrue() {
			return a
		}
		return b
	}
	if k := m.known(m.tt.Ult(b, a)); k.isTrue() {
		return b
	}
	// deciding the direction keeps lengths simple
	if m.branch(lt) {
		return a
	}
	return b
}
