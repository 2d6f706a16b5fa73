package main

import (
	"fmt"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: *Term (bool, integers, float bits, uintptr), *Str, *SliceV, *StructV,
// *ArrayV, *Value (pointer to a slot), ElemPtr, WildPtr, HdrPtr, *Closure, *ssa.Builtin, Iface,
// *MapV, *ChanV, Tuple, *RangeIter, DataPtr, poison.
type Value interface{}

// Str is an immutable byte sequence.
type Str struct {
	lit   string
	isLit bool
	c     *Chain
	off   *Term
	n     *Term
}

// Mem is a mutable region of scalars.
type Mem struct {
	w     int
	c     *Chain
	owned bool // c is a dense node only this Mem may mutate
	acc   map[uint64]*raceCell
	id    uint64
}

// ArrObj is a mutable region of boxed cells, allocated when first touched.
type ArrObj struct {
	elem  types.Type
	cells map[uint64]*Value
}

type SliceV struct {
	mem      *Mem
	arr      *ArrObj
	off      *Term
	len, cap *Term
}

type StructV struct{ f []Value }

type ArrayV struct {
	mem *Mem
	arr *ArrObj
	off uint64 // non-zero for arrays aliasing part of a slice
	n   uint64
}

type ElemPtr struct {
	mem *Mem
	idx *Term
	t   types.Type // non-nil when reinterpreted to another element type (unsupported to load)
}

// WildPtr is a pointer made from an integer that no object has.
type WildPtr struct{ addr *Term }

// HdrPtr points at one word of a slice or string header.
type HdrPtr struct {
	slot  *Value
	field int
	kind  byte // 'S' slice, 's' string
}

// DataPtr is the address held in a slice/string header.
type DataPtr struct {
	mem  *Mem
	c    *Chain
	lit  string
	isl  bool
	off  *Term
	base *ArrObj
}

type Closure struct {
	fn  *ssa.Function
	env []Value
	nat func(m *Machine, args []Value) Value // native closure made by an intrinsic
}

type Iface struct {
	t types.Type
	v Value
}

type Tuple []Value

type MapEnt struct {
	k, v Value
	dead bool
}
type MapV struct {
	kt, vt types.Type
	ents   []*MapEnt
	idx    map[string]*MapEnt
	n      int
	slot   Value // pseudo location for race detection
	rc     raceCell
}

type ChanV struct {
	et     types.Type
	buf    []Value
	bufVC  []VC
	cap    int
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	vc     VC
	id     int
}

type RangeIter struct {
	m    *MapV
	ents []*MapEnt
	s    *Str
	pos  int
}

type poison struct{ why string }

// Chain is a persistent symbolic memory.
type Chain struct {
	kind   byte // 'z' zero, 'u' UF, 'c' const bytes, 'd' dense overlay, 's' store, 'p' copy
	w      int
	name   string
	data   string
	dense  []*Term
	next   *Chain
	idx    *Term
	val    *Term
	dst    *Term
	n      *Term
	src    *Chain
	srcOff *Term
	memo   map[*Term]*Term
	depth  int
}

func zeroChain(w int) *Chain { return &Chain{kind: 'z', w: w} }

const denseMax = 1 << 17

func (m *Machine) read(c *Chain, idx *Term) *Term {
	tt := m.tt
	// concrete fast path
	if idx.isConst() {
		i := idx.k
		for {
			switch c.kind {
			case 'd':
				if i < uint64(len(c.dense)) && c.dense[i] != nil {
					return c.dense[i]
				}
				c = c.next
				continue
			case 'z':
				return tt.constw(c.w, 0)
			case 'c':
				if i < uint64(len(c.data)) {
					return tt.constw(8, uint64(c.data[i]))
				}
				return tt.constw(8, 0)
			case 'u':
				return tt.App(c.name, c.w, idx)
			}
			break
		}
	}
	if c.kind == 'z' {
		return tt.constw(c.w, 0)
	}
	if r, ok := c.memo[idx]; ok {
		return r
	}
	var r *Term
	switch c.kind {
	case 'u':
		return tt.App(c.name, c.w, idx)
	case 'c':
		lo, hi := idx.lo, idx.hi
		if lo >= uint64(len(c.data)) {
			return tt.constw(8, 0)
		}
		if hi >= uint64(len(c.data)) {
			hi = uint64(len(c.data)) - 1
			r = tt.constw(8, 0)
		} else {
			r = tt.constw(8, uint64(c.data[hi]))
		}
		for i := lo; i <= hi; i++ {
			r = tt.Ite(tt.Eq(idx, tt.Int(int64(i))), tt.constw(8, uint64(c.data[i])), r)
		}
	case 'd':
		lo, hi := idx.lo, idx.hi
		full := hi < uint64(len(c.dense))
		if full {
			for i := lo; i <= hi; i++ {
				if c.dense[i] == nil {
					full = false
					break
				}
			}
		}
		if full {
			r = c.dense[hi]
		} else {
			r = m.read(c.next, idx)
		}
		cnt := 0
		for i := lo; i <= hi && i < uint64(len(c.dense)); i++ {
			if v := c.dense[i]; v != nil && v != r {
				r = tt.Ite(tt.Eq(idx, tt.constw(64, i)), v, r)
				cnt++
				if cnt > 20000 {
					m.unsupported("symbolic index into a large dense region")
				}
			}
		}
	case 's':
		e := tt.Eq(idx, c.idx)
		if e.isTrue() {
			return c.val
		}
		rest := m.read(c.next, idx)
		if e.isFalse() {
			r = rest
		} else {
			r = tt.Ite(e, c.val, rest)
		}
	case 'p':
		in := tt.BAnd(m.known(tt.Ule(c.dst, idx)), m.known(tt.Ult(idx, tt.Add(c.dst, c.n))))
		if in.isTrue() {
			r = m.read(c.src, tt.Add(tt.Sub(idx, c.dst), c.srcOff))
		} else if in.isFalse() {
			r = m.read(c.next, idx)
		} else {
			r = tt.Ite(in, m.read(c.src, tt.Add(tt.Sub(idx, c.dst), c.srcOff)), m.read(c.next, idx))
		}
	default:
		panic("chain kind " + string(c.kind))
	}
	if c.memo == nil {
		c.memo = map[*Term]*Term{}
	}
	c.memo[idx] = r
	return r
}

func (m *Machine) store(mem *Mem, idx, val *Term) {
	if val.w != mem.w {
		m.unsupported(fmt.Sprintf("store of %d bits into %d-bit memory", val.w, mem.w))
	}
	if idx.isConst() && idx.k < denseMax {
		if !(mem.owned && mem.c.kind == 'd') {
			d := &Chain{kind: 'd', w: mem.w}
			if mem.c.kind == 'd' {
				d.dense = append([]*Term(nil), mem.c.dense...)
				d.next = mem.c.next
			} else {
				d.next = mem.c
			}
			mem.c = d
			mem.owned = true
		}
		d := mem.c
		d.memo = nil
		for uint64(len(d.dense)) <= idx.k {
			d.dense = append(d.dense, nil)
		}
		d.dense[idx.k] = val
		return
	}
	mem.c = &Chain{kind: 's', w: mem.w, idx: idx, val: val, next: mem.c}
	mem.owned = false
}

// snap freezes the current contents.
func (mem *Mem) snap() *Chain {
	mem.owned = false
	return mem.c
}

// copyMem copies n elements from (src,srcOff) to (dst,dstOff).
func (m *Machine) copyMem(dst *Mem, dstOff *Term, src *Chain, srcOff, n *Term) {
	if n.isConst() && n.k == 0 {
		return
	}
	if n.isConst() && n.k <= 64 || n.isConst() && dstOff.isConst() && n.k <= 512 && src.kind != 'u' {
		vals := make([]*Term, n.k)
		for i := range vals {
			vals[i] = m.read(src, m.tt.Add(srcOff, m.tt.Int(int64(i))))
		}
		for i := range vals {
			m.store(dst, m.tt.Add(dstOff, m.tt.Int(int64(i))), vals[i])
		}
		return
	}
	dst.c = &Chain{kind: 'p', w: dst.w, dst: dstOff, n: n, src: src, srcOff: srcOff, next: dst.c}
	dst.owned = false
}

// ---- types ----

func under(t types.Type) types.Type { return t.Underlying() }

// scalarW returns the bit width for scalar element types kept in Mem; 0 if not scalar. Bools are boxed.
func scalarW(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.Float32, types.UntypedRune:
		return 32
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.Float64, types.UntypedInt, types.UntypedFloat:
		return 64
	}
	return 0
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (m *Machine) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.Bool || u.Kind() == types.UntypedBool {
			return m.tt.F
		}
		if u.Info()&types.IsString != 0 {
			return emptyStr(m)
		}
		if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
			return nilPtr
		}
		if u.Info()&types.IsComplex != 0 {
			return poison{"complex"}
		}
		return m.tt.constw(scalarW(t), 0)
	case *types.Pointer:
		return nilPtr
	case *types.Slice:
		return m.nilSlice()
	case *types.Array:
		return m.newArray(u)
	case *types.Struct:
		s := &StructV{f: make([]Value, u.NumFields())}
		for i := range s.f {
			s.f[i] = m.zero(u.Field(i).Type())
		}
		return s
	case *types.Interface:
		return Iface{}
	case *types.Map:
		return (*MapV)(nil)
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Tuple:
		r := make(Tuple, u.Len())
		for i := range r {
			r[i] = m.zero(u.At(i).Type())
		}
		return r
	}
	m.unsupported("zero of " + t.String())
	return nil
}

var nilPtr = (*Value)(nil)

func (m *Machine) nilSlice() *SliceV {
	z := m.tt.Int(0)
	return &SliceV{off: z, len: z, cap: z}
}

func (s *SliceV) isNil() bool { return s.mem == nil && s.arr == nil }

func (m *Machine) newMem(w int) *Mem {
	m.memID++
	return &Mem{w: w, c: zeroChain(w), id: m.memID}
}

func (m *Machine) newArray(u *types.Array) *ArrayV {
	n := uint64(u.Len())
	if w := scalarW(u.Elem()); w > 0 {
		return &ArrayV{mem: m.newMem(w), n: n}
	}
	return &ArrayV{arr: &ArrObj{elem: u.Elem(), cells: map[uint64]*Value{}}, n: n}
}

func (m *Machine) cell(a *ArrObj, i uint64) *Value {
	p := a.cells[i]
	if p == nil {
		p = new(Value)
		*p = m.zero(a.elem)
		a.cells[i] = p
	}
	return p
}

func emptyStr(m *Machine) *Str { return &Str{isLit: true, n: m.tt.Int(0)} }

func (m *Machine) lit(s string) *Str { return &Str{lit: s, isLit: true, n: m.tt.Int(int64(len(s)))} }

// chain returns the string's storage.
func (s *Str) chain(m *Machine) (*Chain, *Term) {
	if s.isLit {
		if s.c == nil {
			s.c = &Chain{kind: 'c', w: 8, data: s.lit}
		}
		return s.c, m.tt.Int(0)
	}
	return s.c, s.off
}

func (m *Machine) strAt(s *Str, i *Term) *Term {
	if s.isLit && i.isConst() && i.k < uint64(len(s.lit)) {
		return m.tt.constw(8, uint64(s.lit[i.k]))
	}
	c, off := s.chain(m)
	return m.read(c, m.tt.Add(off, i))
}

// mkStr builds a string over storage, folding to a literal when everything is constant.
func (m *Machine) mkStr(c *Chain, off, n *Term) *Str {
	if n.isConst() {
		if n.k == 0 {
			return emptyStr(m)
		}
		if n.k <= 1<<16 && off.isConst() {
			if c.kind == 'c' && off.k+n.k <= uint64(len(c.data)) {
				return m.lit(c.data[off.k : off.k+n.k])
			}
			b := make([]byte, n.k)
			ok := true
			for i := range b {
				if c.kind == 'u' {
					ok = false
					break
				}
				t := m.read(c, m.tt.Add(off, m.tt.Int(int64(i))))
				if !t.isConst() {
					ok = false
					break
				}
				b[i] = byte(t.k)
			}
			if ok {
				return m.lit(string(b))
			}
		}
	}
	return &Str{c: c, off: off, n: n}
}

func (m *Machine) bytesOf(s *SliceV) *Chain {
	if s.mem == nil {
		return zeroChain(8)
	}
	return s.mem.snap()
}

// copyVal deep-copies value types (structs, arrays).
func (m *Machine) copyVal(v Value) Value {
	switch x := v.(type) {
	case *StructV:
		r := &StructV{f: make([]Value, len(x.f))}
		for i, e := range x.f {
			switch e.(type) {
			case *StructV, *ArrayV:
				r.f[i] = m.copyVal(e)
			default:
				r.f[i] = e
			}
		}
		return r
	case *ArrayV:
		if x.mem != nil {
			nm := m.newMem(x.mem.w)
			if x.off == 0 {
				nm.c = x.mem.snap()
			} else {
				m.copyMem(nm, m.tt.Int(0), x.mem.snap(), m.tt.constw(64, x.off), m.tt.constw(64, x.n))
			}
			return &ArrayV{mem: nm, n: x.n}
		}
		na := &ArrObj{elem: x.arr.elem, cells: map[uint64]*Value{}}
		for i, p := range x.arr.cells {
			if i < x.off || i >= x.off+x.n {
				continue
			}
			c := new(Value)
			*c = m.copyVal(*p)
			na.cells[i-x.off] = c
		}
		return &ArrayV{arr: na, n: x.n}
	}
	return v
}

// assign stores v into the slot in place, so that pointers to fields stay valid.
func (m *Machine) assign(slot *Value, v Value) {
	switch x := v.(type) {
	case *StructV:
		if d, ok := (*slot).(*StructV); ok && len(d.f) == len(x.f) {
			if d == x {
				return
			}
			for i := range d.f {
				m.assign(&d.f[i], x.f[i])
			}
			return
		}
		*slot = m.copyVal(x)
	case *ArrayV:
		if d, ok := (*slot).(*ArrayV); ok && d.n == x.n {
			if d == x {
				return
			}
			if d.mem != nil && x.mem != nil {
				if d.off == 0 && x.off == 0 && d.mem != x.mem {
					d.mem.c = x.mem.snap()
					d.mem.owned = false
				} else {
					m.copyMem(d.mem, m.tt.constw(64, d.off), x.mem.snap(), m.tt.constw(64, x.off), m.tt.constw(64, d.n))
				}
				return
			}
			if d.arr != nil && x.arr != nil {
				tmp := m.copyVal(x).(*ArrayV)
				for i := range d.arr.cells {
					if i >= d.off && i < d.off+d.n {
						if _, ok := tmp.arr.cells[i-d.off]; !ok {
							m.assign(d.arr.cells[i], m.zero(d.arr.elem))
						}
					}
				}
				for i, p := range tmp.arr.cells {
					m.assign(m.cell(d.arr, i+d.off), *p)
				}
				return
			}
		}
		*slot = m.copyVal(x)
	default:
		*slot = v
	}
}

func sameType(a, b types.Type) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	return types.Identical(a, b)
}

var typeStrs sync.Map

func typeStr(t types.Type) string {
	if s, ok := typeStrs.Load(t); ok {
		return s.(string)
	}
	s := types.TypeString(t, nil)
	typeStrs.Store(t, s)
	return s
}

// mapKey gives a hash key for fully concrete map keys.
func mapKey(v Value) (string, bool) {
	switch x := v.(type) {
	case *Term:
		if x.isConst() {
			return fmt.Sprintf("t%d/%d", x.w, x.k), true
		}
	case *Str:
		if x.isLit {
			return "s" + x.lit, true
		}
	case *Value:
		return fmt.Sprintf("p%p", x), true
	case *ChanV:
		return fmt.Sprintf("c%p", x), true
	case *StructV:
		r := "{"
		for _, f := range x.f {
			k, ok := mapKey(f)
			if !ok {
				return "", false
			}
			r += fmt.Sprintf("%d:%s,", len(k), k)
		}
		return r + "}", true
	case *ArrayV:
		return "", false
	case Iface:
		if x.t == nil {
			return "inil", true
		}
		k, ok := mapKey(x.v)
		if !ok {
			return "", false
		}
		return "i" + typeStr(x.t) + "|" + k, true
	}
	return "", false
}
