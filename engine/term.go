package main

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strings"
)

// Terms: hash-consed bit-vector/boolean expressions. w==0 means Bool.

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpApp // uninterpreted function application: name(args[0]:BV64)
	OpAdd // n-ary linear sum: sum(args) + k
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpAnd
	OpOr
	OpXor
	OpShl
	OpLShr
	OpAShr
	OpNot
	OpConcat  // args[0] high, args[1] low
	OpExtract // k = hi<<8|lo
	OpZExt
	OpSExt
	OpIte
	OpEq
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpBNot
	OpBAnd
	OpBOr
	// floating point, arguments and results are IEEE bit patterns
	OpFAdd
	OpFSub
	OpFMul
	OpFDiv
	OpFLt
	OpFLe
	OpFEq
	OpFtoF // float to float, width change
	OpFtoS // float -> signed int (RTZ)
	OpFtoU
	OpStoF
	OpUtoF
)

type Term struct {
	op   Op
	w    int
	args []*Term
	k    uint64
	name string
	id   int
	h    uint64 // structural hash: the same in every table
	// unsigned range
	lo, hi uint64
	nov    bool // linear form evaluates without unsigned wrap
	hasVar bool

	evEpoch int64
	evVal   uint64
}

func (t *Term) isConst() bool { return t.op == OpConst }
func (t *Term) isTrue() bool  { return t.op == OpConst && t.w == 0 && t.k == 1 }
func (t *Term) isFalse() bool { return t.op == OpConst && t.w == 0 && t.k == 0 }

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func sext(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := uint(64 - w)
	return int64(v<<sh) >> sh
}

type tkey struct {
	op         Op
	w          int
	k          uint64
	name       string
	n          int
	a0, a1, a2 int
}

type TermTable struct {
	m    map[tkey]*Term
	big  map[string]*Term
	next int
	T, F *Term
	seg  map[int][]segment

	scratch int64 // epochs for one-off evaluations
}

func newTermTable() *TermTable {
	tt := &TermTable{m: map[tkey]*Term{}, big: map[string]*Term{}, seg: map[int][]segment{}}
	tt.T = tt.constw(0, 1)
	tt.F = tt.constw(0, 0)
	return tt
}

func (tt *TermTable) mk(op Op, w int, k uint64, name string, args ...*Term) *Term {
	key := tkey{op: op, w: w, k: k, name: name, n: len(args)}
	if len(args) <= 3 {
		if len(args) > 0 {
			key.a0 = args[0].id + 1
		}
		if len(args) > 1 {
			key.a1 = args[1].id + 1
		}
		if len(args) > 2 {
			key.a2 = args[2].id + 1
		}
		if t, ok := tt.m[key]; ok {
			return t
		}
		t := &Term{op: op, w: w, k: k, name: name, args: append([]*Term(nil), args...), id: tt.next}
		tt.next++
		tt.rng(t)
		tt.m[key] = t
		return t
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d/%d/%d/%s", op, w, k, name)
	for _, a := range args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	s := sb.String()
	if t, ok := tt.big[s]; ok {
		return t
	}
	t := &Term{op: op, w: w, k: k, name: name, args: append([]*Term(nil), args...), id: tt.next}
	tt.next++
	tt.rng(t)
	tt.big[s] = t
	return t
}

func hmix(h, v uint64) uint64 {
	h ^= v
	h *= 0xff51afd7ed558ccd
	h ^= h >> 32
	h *= 0xc4ceb9fe1a85ec53
	h ^= h >> 29
	return h
}

// rng computes the unsigned range of a term.
func (tt *TermTable) rng(t *Term) {
	h := hmix(0x9e3779b97f4a7c15, uint64(t.op)<<32|uint64(t.w))
	h = hmix(h, t.k)
	for i := 0; i < len(t.name); i++ {
		h = hmix(h, uint64(t.name[i]))
	}
	for _, a := range t.args {
		h = hmix(h, a.h)
	}
	t.h = h
	t.lo, t.hi = 0, mask(t.w)
	if t.w == 0 {
		t.hi = 1
	}
	for _, a := range t.args {
		if a.hasVar {
			t.hasVar = true
		}
	}
	switch t.op {
	case OpConst:
		t.lo, t.hi = t.k, t.k
		t.nov = true
	case OpVar:
		t.hasVar = true
		t.nov = true
		if t.k != 0 { // declared max
			t.hi = t.k
		}
	case OpApp:
		t.hasVar = true
		t.nov = true
	case OpAdd:
		lo, hi := t.k, t.k
		ok := true
		for _, a := range t.args {
			var c uint64
			lo, c = bits.Add64(lo, a.lo, 0)
			hi2, c2 := bits.Add64(hi, a.hi, 0)
			hi = hi2
			if c != 0 || c2 != 0 || hi > mask(t.w) {
				ok = false
				break
			}
			if a.op == OpMul && !a.nov {
				ok = false
				break
			}
		}
		if ok {
			t.lo, t.hi, t.nov = lo, hi, true
		} else if len(t.args) > 0 && sext(t.k, t.w) < 0 {
			// x - c with x >= c and the sum of args not overflowing
			neg := uint64(-sext(t.k, t.w))
			lo, hi = 0, 0
			ok = true
			for _, a := range t.args {
				var c, c2 uint64
				lo, c = bits.Add64(lo, a.lo, 0)
				hi, c2 = bits.Add64(hi, a.hi, 0)
				if c != 0 || c2 != 0 || hi > mask(t.w) || (a.op == OpMul && !a.nov) {
					ok = false
					break
				}
			}
			if ok && lo >= neg {
				t.lo, t.hi = lo-neg, hi-neg
				t.nov = true
			}
		}
	case OpMul:
		if t.args[0].isConst() {
			h, l := bits.Mul64(t.args[0].k, t.args[1].hi)
			if h == 0 && l <= mask(t.w) {
				t.hi = l
				t.lo = t.args[0].k * t.args[1].lo
				t.nov = true
			}
		}
	case OpUDiv:
		if t.args[1].isConst() && t.args[1].k != 0 {
			t.lo, t.hi = t.args[0].lo/t.args[1].k, t.args[0].hi/t.args[1].k
			t.nov = true
		}
	case OpURem:
		if t.args[1].isConst() && t.args[1].k != 0 {
			t.hi = min(t.args[1].k-1, t.args[0].hi)
			t.nov = true
		}
	case OpAnd:
		t.hi = min(t.args[0].hi, t.args[1].hi)
		t.nov = true
	case OpOr, OpXor:
		m := t.args[0].hi | t.args[1].hi
		t.hi = mask(bits.Len64(m))
		if t.op == OpOr {
			t.lo = max(t.args[0].lo, t.args[1].lo)
		}
		t.nov = true
	case OpLShr:
		if t.args[1].isConst() {
			s := t.args[1].k
			if s >= 64 {
				t.hi = 0
			} else {
				t.lo, t.hi = t.args[0].lo>>s, t.args[0].hi>>s
			}
			t.nov = true
		}
	case OpShl:
		if t.args[1].isConst() && t.args[1].k < 64 {
			s := t.args[1].k
			if t.args[0].hi <= mask(t.w)>>s {
				t.lo, t.hi = t.args[0].lo<<s, t.args[0].hi<<s
			}
		}
		t.nov = true
	case OpConcat:
		lw := t.args[1].w
		t.lo = t.args[0].lo<<uint(lw) | t.args[1].lo
		t.hi = t.args[0].hi<<uint(lw) | t.args[1].hi
		t.nov = true
	case OpZExt:
		t.lo, t.hi = t.args[0].lo, t.args[0].hi
		t.nov = true
	case OpSExt:
		if t.args[0].hi <= mask(t.args[0].w-1) {
			t.lo, t.hi = t.args[0].lo, t.args[0].hi
		}
		t.nov = true
	case OpExtract:
		if t.k&0xff == 0 {
			m := mask(t.w)
			if t.args[0].hi <= m {
				t.lo, t.hi = t.args[0].lo, t.args[0].hi
			}
		} else {
			l := t.k & 0xff
			if t.k>>8 == uint64(t.args[0].w-1) {
				t.lo, t.hi = t.args[0].lo>>l, t.args[0].hi>>l
			}
		}
		t.nov = true
	case OpIte:
		t.lo = min(t.args[1].lo, t.args[2].lo)
		t.hi = max(t.args[1].hi, t.args[2].hi)
		t.nov = true
	default:
		t.nov = true
	}
}

func (tt *TermTable) constw(w int, v uint64) *Term {
	if w > 0 {
		v &= mask(w)
	}
	return tt.mk(OpConst, w, v, "")
}
func (tt *TermTable) Bool(b bool) *Term {
	if b {
		return tt.T
	}
	return tt.F
}
func (tt *TermTable) Int(v int64) *Term { return tt.constw(64, uint64(v)) }

// Var: max==0 means full range
func (tt *TermTable) Var(name string, w int, max uint64) *Term {
	if max == mask(w) {
		max = 0
	}
	return tt.mk(OpVar, w, max, name)
}
func (tt *TermTable) App(name string, w int, idx *Term) *Term {
	return tt.mk(OpApp, w, 0, name, idx)
}

// ---- linear forms ----

type linT struct {
	t *Term
	c uint64
}

func (tt *TermTable) lin(t *Term, mul uint64, acc map[int]*linT, k *uint64) {
	switch {
	case t.op == OpConst:
		*k += mul * t.k
	case t.op == OpAdd:
		*k += mul * t.k
		for _, a := range t.args {
			tt.lin(a, mul, acc, k)
		}
	case t.op == OpMul && t.args[0].isConst():
		tt.lin(t.args[1], mul*t.args[0].k, acc, k)
	case t.op == OpNot:
		// ~x = -x - 1
		*k -= mul
		tt.lin(t.args[0], -mul, acc, k)
	default:
		if e, ok := acc[t.id]; ok {
			e.c += mul
		} else {
			acc[t.id] = &linT{t, mul}
		}
	}
}

func (tt *TermTable) fromLin(w int, acc map[int]*linT, k uint64) *Term {
	m := mask(w)
	ids := make([]int, 0, len(acc))
	for id, e := range acc {
		if e.c&m != 0 {
			ids = append(ids, id)
		}
	}
	if len(ids) > 1 {
		sort.Slice(ids, func(i, j int) bool { return acc[ids[i]].t.h < acc[ids[j]].t.h })
	}
	k &= m
	if len(ids) == 0 {
		return tt.constw(w, k)
	}
	args := make([]*Term, 0, len(ids))
	for _, id := range ids {
		e := acc[id]
		c := e.c & m
		if c == 1 {
			args = append(args, e.t)
		} else {
			args = append(args, tt.mk(OpMul, w, 0, "", tt.constw(w, c), e.t))
		}
	}
	if len(args) == 1 && k == 0 {
		return args[0]
	}
	return tt.mk(OpAdd, w, k, "", args...)
}

func (tt *TermTable) Add(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tt.constw(a.w, a.k+b.k)
	}
	if a.isConst() && a.k == 0 {
		return b
	}
	if b.isConst() && b.k == 0 {
		return a
	}
	acc := map[int]*linT{}
	var k uint64
	tt.lin(a, 1, acc, &k)
	tt.lin(b, 1, acc, &k)
	return tt.fromLin(a.w, acc, k)
}
func (tt *TermTable) Sub(a, b *Term) *Term {
	if a == b {
		return tt.constw(a.w, 0)
	}
	if b.isConst() && b.k == 0 {
		return a
	}
	acc := map[int]*linT{}
	var k uint64
	tt.lin(a, 1, acc, &k)
	tt.lin(b, ^uint64(0), acc, &k)
	return tt.fromLin(a.w, acc, k)
}
func (tt *TermTable) Neg(a *Term) *Term { return tt.Sub(tt.constw(a.w, 0), a) }

func (tt *TermTable) Mul(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tt.constw(a.w, a.k*b.k)
	}
	if b.isConst() {
		a, b = b, a
	}
	if a.isConst() {
		acc := map[int]*linT{}
		var k uint64
		tt.lin(b, a.k, acc, &k)
		return tt.fromLin(a.w, acc, k)
	}
	if a.h > b.h {
		a, b = b, a
	}
	return tt.mk(OpMul, a.w, 0, "", a, b)
}

func (tt *TermTable) UDiv(a, b *Term) *Term {
	if b.isConst() && b.k != 0 {
		if a.isConst() {
			return tt.constw(a.w, a.k/b.k)
		}
		if b.k == 1 {
			return a
		}
		if b.k&(b.k-1) == 0 {
			return tt.LShr(a, tt.constw(a.w, uint64(bits.TrailingZeros64(b.k))))
		}
	}
	return tt.mk(OpUDiv, a.w, 0, "", a, b)
}
func (tt *TermTable) URem(a, b *Term) *Term {
	if b.isConst() && b.k != 0 {
		if a.isConst() {
			return tt.constw(a.w, a.k%b.k)
		}
		if b.k&(b.k-1) == 0 {
			return tt.And(a, tt.constw(a.w, b.k-1))
		}
		if a.hi < b.k {
			return a
		}
	}
	return tt.mk(OpURem, a.w, 0, "", a, b)
}
func (tt *TermTable) SDiv(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.k != 0 {
		x, y := sext(a.k, a.w), sext(b.k, b.w)
		if y == -1 {
			return tt.constw(a.w, uint64(-x))
		}
		return tt.constw(a.w, uint64(x/y))
	}
	half := mask(a.w) >> 1
	if a.hi <= half && b.hi <= half {
		return tt.UDiv(a, b)
	}
	return tt.mk(OpSDiv, a.w, 0, "", a, b)
}
func (tt *TermTable) SRem(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.k != 0 {
		x, y := sext(a.k, a.w), sext(b.k, b.w)
		if y == -1 {
			return tt.constw(a.w, 0)
		}
		return tt.constw(a.w, uint64(x%y))
	}
	half := mask(a.w) >> 1
	if a.hi <= half && b.hi <= half {
		return tt.URem(a, b)
	}
	return tt.mk(OpSRem, a.w, 0, "", a, b)
}

// ---- bit segments: value as list of pieces from LSB ----

type segment struct {
	w  int
	t  *Term // nil => constant bits k
	lo int   // extract offset in t
	k  uint64
}

func (tt *TermTable) segs(t *Term) []segment {
	if s, ok := tt.seg[t.id]; ok {
		return s
	}
	s := tt.segs0(t)
	tt.seg[t.id] = s
	return s
}

func (tt *TermTable) segs0(t *Term) []segment {
	switch t.op {
	case OpConst:
		return []segment{{w: t.w, k: t.k}}
	case OpConcat:
		return append(append([]segment(nil), tt.segs(t.args[1])...), tt.segs(t.args[0])...)
	case OpZExt:
		return append(append([]segment(nil), tt.segs(t.args[0])...), segment{w: t.w - t.args[0].w})
	case OpExtract:
		lo := int(t.k & 0xff)
		return sliceSegs(tt.segs(t.args[0]), lo, t.w)
	case OpShl:
		if t.args[1].isConst() && t.args[1].k < uint64(t.w) {
			n := int(t.args[1].k)
			return append([]segment{{w: n}}, sliceSegs(tt.segs(t.args[0]), 0, t.w-n)...)
		}
	case OpLShr:
		if t.args[1].isConst() && t.args[1].k < uint64(t.w) {
			n := int(t.args[1].k)
			if n > 0 {
				return append(append([]segment(nil), sliceSegs(tt.segs(t.args[0]), n, t.w-n)...), segment{w: n})
			}
		}
	case OpAnd:
		// constant mask that is a union of bit runs
		for i := 0; i < 2; i++ {
			if t.args[i].isConst() {
				return maskSegs(tt.segs(t.args[1-i]), t.args[i].k, t.w)
			}
		}
	}
	// known-zero high bits from range
	nb := bits.Len64(t.hi)
	if nb < t.w {
		if nb == 0 {
			return []segment{{w: t.w}}
		}
		return []segment{{w: nb, t: t}, {w: t.w - nb}}
	}
	return []segment{{w: t.w, t: t}}
}

func sliceSegs(in []segment, lo, w int) []segment {
	var out []segment
	pos := 0
	for _, s := range in {
		if w == 0 {
			break
		}
		if pos+s.w <= lo {
			pos += s.w
			continue
		}
		st := 0
		if lo > pos {
			st = lo - pos
		}
		n := s.w - st
		if n > w {
			n = w
		}
		if s.t == nil {
			out = append(out, segment{w: n, k: (s.k >> uint(st)) & mask(n)})
		} else {
			out = append(out, segment{w: n, t: s.t, lo: s.lo + st})
		}
		w -= n
		lo += n
		pos += s.w
	}
	return out
}

func maskSegs(in []segment, m uint64, w int) []segment {
	var out []segment
	pos := 0
	for pos < w {
		bit := (m >> uint(pos)) & 1
		n := 1
		for pos+n < w && (m>>uint(pos+n))&1 == bit {
			n++
		}
		if bit == 0 {
			out = append(out, segment{w: n})
		} else {
			out = append(out, sliceSegs(in, pos, n)...)
		}
		pos += n
	}
	return out
}

func normSegs(in []segment) []segment {
	var out []segment
	for _, s := range in {
		if s.w == 0 {
			continue
		}
		if len(out) > 0 {
			l := &out[len(out)-1]
			if l.t == nil && s.t == nil {
				l.k |= s.k << uint(l.w)
				l.w += s.w
				continue
			}
			if l.t != nil && l.t == s.t && l.lo+l.w == s.lo {
				l.w += s.w
				continue
			}
		}
		out = append(out, s)
	}
	return out
}

func (tt *TermTable) rawExtract(t *Term, lo, w int) *Term {
	if lo == 0 && w == t.w {
		return t
	}
	if t.isConst() {
		return tt.constw(w, t.k>>uint(lo))
	}
	return tt.mk(OpExtract, w, uint64(lo+w-1)<<8|uint64(lo), "", t)
}

// build reconstructs a term from segments.
func (tt *TermTable) build(in []segment, w int) *Term {
	in = normSegs(in)
	// zext form: trailing zero constant on top
	n := len(in)
	if n >= 2 && in[n-1].t == nil && in[n-1].k == 0 {
		zw := in[n-1].w
		// a term whose remaining high bits are known zero
		if n == 2 && in[0].t != nil && in[0].lo == 0 {
			t := in[0].t
			if t.hi <= mask(in[0].w) {
				if t.w == w {
					return t
				}
				if t.w < w {
					return tt.mk(OpZExt, w, 0, "", t)
				}
				// t wider
				return tt.rawExtract(t, 0, w)
			}
		}
		inner := tt.build(in[:n-1], w-zw)
		if inner.isConst() {
			return tt.constw(w, inner.k)
		}
		return tt.mk(OpZExt, w, 0, "", inner)
	}
	var res *Term
	for _, s := range in {
		var p *Term
		if s.t == nil {
			p = tt.constw(s.w, s.k)
		} else {
			p = tt.rawExtract(s.t, s.lo, s.w)
		}
		if res == nil {
			res = p
		} else if res.isConst() && p.isConst() {
			res = tt.constw(res.w+p.w, p.k<<uint(res.w)|res.k)
		} else {
			res = tt.mk(OpConcat, res.w+p.w, 0, "", p, res)
		}
	}
	return res
}

func complexity(s []segment) int { return len(s) }

func (tt *TermTable) combine(a, b *Term) (*Term, bool) {
	sa, sb := tt.segs(a), tt.segs(b)
	if len(sa) == 1 && sa[0].t != nil && len(sb) == 1 && sb[0].t != nil {
		return nil, false
	}
	var out []segment
	i, j, oi, oj := 0, 0, 0, 0
	for i < len(sa) && j < len(sb) {
		n := min(sa[i].w-oi, sb[j].w-oj)
		za := sa[i].t == nil && (sa[i].k>>uint(oi))&mask(n) == 0
		zb := sb[j].t == nil && (sb[j].k>>uint(oj))&mask(n) == 0
		switch {
		case za:
			out = append(out, sliceSegs(sb[j:j+1], oj, n)...)
		case zb:
			out = append(out, sliceSegs(sa[i:i+1], oi, n)...)
		case sa[i].t == nil && sb[j].t == nil:
			out = append(out, segment{w: n, k: ((sa[i].k >> uint(oi)) | (sb[j].k >> uint(oj))) & mask(n)})
		case sa[i].t == nil && (sa[i].k>>uint(oi))&mask(n) == mask(n):
			out = append(out, segment{w: n, k: mask(n)})
		case sb[j].t == nil && (sb[j].k>>uint(oj))&mask(n) == mask(n):
			out = append(out, segment{w: n, k: mask(n)})
		default:
			return nil, false
		}
		oi += n
		oj += n
		if oi == sa[i].w {
			i++
			oi = 0
		}
		if oj == sb[j].w {
			j++
			oj = 0
		}
	}
	return tt.build(out, a.w), true
}

func (tt *TermTable) And(a, b *Term) *Term {
	if a.w == 0 {
		return tt.BAnd(a, b)
	}
	if a.isConst() && b.isConst() {
		return tt.constw(a.w, a.k&b.k)
	}
	if a == b {
		return a
	}
	if b.isConst() {
		a, b = b, a
	}
	if a.isConst() {
		if a.k == 0 {
			return a
		}
		if a.k == mask(a.w) {
			return b
		}
		// contiguous low mask or few runs: use segments
		runs := 0
		x := a.k
		for x != 0 {
			x >>= uint(bits.TrailingZeros64(x))
			x >>= uint(bits.TrailingZeros64(^x))
			runs++
		}
		if runs <= 1 {
			return tt.build(maskSegs(tt.segs(b), a.k, a.w), a.w)
		}
	} else if a.h > b.h {
		a, b = b, a
	}
	return tt.mk(OpAnd, a.w, 0, "", a, b)
}
func (tt *TermTable) Or(a, b *Term) *Term {
	if a.w == 0 {
		return tt.BOr(a, b)
	}
	if a.isConst() && b.isConst() {
		return tt.constw(a.w, a.k|b.k)
	}
	if a == b {
		return a
	}
	if a.isConst() && a.k == 0 {
		return b
	}
	if b.isConst() && b.k == 0 {
		return a
	}
	if r, ok := tt.combine(a, b); ok {
		return r
	}
	if a.h > b.h {
		a, b = b, a
	}
	return tt.mk(OpOr, a.w, 0, "", a, b)
}
func (tt *TermTable) Xor(a, b *Term) *Term {
	if a.w == 0 {
		return tt.BNot(tt.Eq(a, b))
	}
	if a.isConst() && b.isConst() {
		return tt.constw(a.w, a.k^b.k)
	}
	if a == b {
		return tt.constw(a.w, 0)
	}
	if a.isConst() && a.k == 0 {
		return b
	}
	if b.isConst() && b.k == 0 {
		return a
	}
	if a.h > b.h {
		a, b = b, a
	}
	return tt.mk(OpXor, a.w, 0, "", a, b)
}
func (tt *TermTable) Not(a *Term) *Term {
	if a.w == 0 {
		return tt.BNot(a)
	}
	if a.isConst() {
		return tt.constw(a.w, ^a.k)
	}
	if a.op == OpNot {
		return a.args[0]
	}
	return tt.mk(OpNot, a.w, 0, "", a)
}

// shifts: b has the same width as a; amounts >= w handled per SMT-LIB (zero / sign fill)
func (tt *TermTable) Shl(a, b *Term) *Term {
	if b.isConst() {
		if b.k == 0 {
			return a
		}
		if b.k >= uint64(a.w) {
			return tt.constw(a.w, 0)
		}
		if a.isConst() {
			return tt.constw(a.w, a.k<<b.k)
		}
		n := int(b.k)
		segs := append([]segment{{w: n}}, sliceSegs(tt.segs(a), 0, a.w-n)...)
		if len(normSegs(segs)) <= 4 {
			return tt.build(segs, a.w)
		}
	}
	return tt.mk(OpShl, a.w, 0, "", a, b)
}
func (tt *TermTable) LShr(a, b *Term) *Term {
	if b.isConst() {
		if b.k == 0 {
			return a
		}
		if b.k >= uint64(a.w) {
			return tt.constw(a.w, 0)
		}
		if a.isConst() {
			return tt.constw(a.w, a.k>>b.k)
		}
		n := int(b.k)
		return tt.build(append(append([]segment(nil), sliceSegs(tt.segs(a), n, a.w-n)...), segment{w: n}), a.w)
	}
	return tt.mk(OpLShr, a.w, 0, "", a, b)
}
func (tt *TermTable) AShr(a, b *Term) *Term {
	if b.isConst() {
		if b.k == 0 {
			return a
		}
		if a.isConst() {
			n := b.k
			if n > 63 {
				n = 63
			}
			return tt.constw(a.w, uint64(sext(a.k, a.w)>>n))
		}
		if a.hi <= mask(a.w)>>1 {
			return tt.LShr(a, b)
		}
	}
	return tt.mk(OpAShr, a.w, 0, "", a, b)
}

func (tt *TermTable) Extract(a *Term, hi, lo int) *Term {
	w := hi - lo + 1
	if w == a.w {
		return a
	}
	if a.isConst() {
		return tt.constw(w, a.k>>uint(lo))
	}
	switch a.op {
	case OpIte:
		if a.args[1].isConst() || a.args[2].isConst() {
			return tt.Ite(a.args[0], tt.Extract(a.args[1], hi, lo), tt.Extract(a.args[2], hi, lo))
		}
	case OpSExt:
		if hi < a.args[0].w {
			return tt.Extract(a.args[0], hi, lo)
		}
		if lo == 0 {
			return tt.SExt(a.args[0], w)
		}
	case OpAnd, OpOr, OpXor:
		if a.args[0].isConst() || a.args[1].isConst() {
			x, y := tt.Extract(a.args[0], hi, lo), tt.Extract(a.args[1], hi, lo)
			switch a.op {
			case OpAnd:
				return tt.And(x, y)
			case OpOr:
				return tt.Or(x, y)
			default:
				return tt.Xor(x, y)
			}
		}
	case OpAdd:
		if lo == 0 {
			acc := map[int]*linT{}
			k := a.k
			for _, x := range a.args {
				c := uint64(1)
				if x.op == OpMul && x.args[0].isConst() {
					c = x.args[0].k
					x = x.args[1]
				}
				tt.lin(tt.Extract(x, hi, 0), c, acc, &k)
			}
			return tt.fromLin(w, acc, k)
		}
	case OpMul:
		if lo == 0 && a.args[0].isConst() {
			return tt.Mul(tt.constw(w, a.args[0].k), tt.Extract(a.args[1], hi, 0))
		}
	}
	return tt.build(sliceSegs(tt.segs(a), lo, w), w)
}
func (tt *TermTable) ZExt(a *Term, w int) *Term {
	if w == a.w {
		return a
	}
	if a.isConst() {
		return tt.constw(w, a.k)
	}
	switch a.op {
	case OpAdd:
		if a.nov && a.lo >= a.k {
			acc := map[int]*linT{}
			k := a.k
			for _, x := range a.args {
				c := uint64(1)
				if x.op == OpMul && x.args[0].isConst() {
					c = x.args[0].k
					x = x.args[1]
				}
				tt.lin(tt.ZExt(x, w), c, acc, &k)
			}
			return tt.fromLin(w, acc, k)
		}
		if a.nov { // sum minus constant, proven not to wrap
			acc := map[int]*linT{}
			k := uint64(sext(a.k, a.w))
			for _, x := range a.args {
				c := uint64(1)
				if x.op == OpMul && x.args[0].isConst() {
					c = x.args[0].k
					x = x.args[1]
				}
				tt.lin(tt.ZExt(x, w), c, acc, &k)
			}
			return tt.fromLin(w, acc, k)
		}
	case OpMul:
		if a.nov && a.args[0].isConst() {
			return tt.Mul(tt.constw(w, a.args[0].k), tt.ZExt(a.args[1], w))
		}
	case OpIte:
		if a.args[1].isConst() || a.args[2].isConst() {
			return tt.Ite(a.args[0], tt.ZExt(a.args[1], w), tt.ZExt(a.args[2], w))
		}
	}
	return tt.build(append(append([]segment(nil), tt.segs(a)...), segment{w: w - a.w}), w)
}
func (tt *TermTable) SExt(a *Term, w int) *Term {
	if w == a.w {
		return a
	}
	if a.isConst() {
		return tt.constw(w, uint64(sext(a.k, a.w)))
	}
	if a.hi <= mask(a.w)>>1 {
		return tt.ZExt(a, w)
	}
	if a.op == OpSExt {
		return tt.SExt(a.args[0], w)
	}
	return tt.mk(OpSExt, w, 0, "", a)
}
func (tt *TermTable) Concat(hi, lo *Term) *Term {
	return tt.build(append(append([]segment(nil), tt.segs(lo)...), tt.segs(hi)...), hi.w+lo.w)
}

// Resize converts between integer widths.
func (tt *TermTable) Resize(a *Term, w int, signed bool) *Term {
	if w == a.w {
		return a
	}
	if w < a.w {
		return tt.Extract(a, w-1, 0)
	}
	if signed {
		return tt.SExt(a, w)
	}
	return tt.ZExt(a, w)
}

func (tt *TermTable) BNot(a *Term) *Term {
	if a.isConst() {
		return tt.Bool(a.k == 0)
	}
	switch a.op {
	case OpBNot:
		return a.args[0]
	case OpUlt:
		return tt.Ule(a.args[1], a.args[0])
	case OpUle:
		return tt.Ult(a.args[1], a.args[0])
	case OpSlt:
		return tt.Sle(a.args[1], a.args[0])
	case OpSle:
		return tt.Slt(a.args[1], a.args[0])
	}
	return tt.mk(OpBNot, 0, 0, "", a)
}
func (tt *TermTable) BAnd(a, b *Term) *Term {
	if a.isFalse() || b.isFalse() {
		return tt.F
	}
	if a.isTrue() {
		return b
	}
	if b.isTrue() || a == b {
		return a
	}
	if a.op == OpBNot && a.args[0] == b || b.op == OpBNot && b.args[0] == a {
		return tt.F
	}
	if a.h > b.h {
		a, b = b, a
	}
	return tt.mk(OpBAnd, 0, 0, "", a, b)
}
func (tt *TermTable) BOr(a, b *Term) *Term {
	if a.isTrue() || b.isTrue() {
		return tt.T
	}
	if a.isFalse() {
		return b
	}
	if b.isFalse() || a == b {
		return a
	}
	if a.op == OpBNot && a.args[0] == b || b.op == OpBNot && b.args[0] == a {
		return tt.T
	}
	if a.h > b.h {
		a, b = b, a
	}
	return tt.mk(OpBOr, 0, 0, "", a, b)
}

func (tt *TermTable) Ite(c, a, b *Term) *Term {
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.isTrue() {
			return tt.BOr(c, b)
		}
		if a.isFalse() {
			return tt.BAnd(tt.BNot(c), b)
		}
		if b.isTrue() {
			return tt.BOr(tt.BNot(c), a)
		}
		if b.isFalse() {
			return tt.BAnd(c, a)
		}
	}
	if c.op == OpBNot {
		c, a, b = c.args[0], b, a
	}
	if a.op == OpIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == OpIte && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	return tt.mk(OpIte, a.w, 0, "", c, a, b)
}

func (tt *TermTable) Eq(a, b *Term) *Term {
	if a == b {
		return tt.T
	}
	if a.isConst() && b.isConst() {
		return tt.Bool(a.k == b.k)
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return tt.BNot(a)
		}
		if a.h > b.h {
			a, b = b, a
		}
		return tt.mk(OpEq, 0, 0, "", a, b)
	}
	if a.hi < b.lo || b.hi < a.lo {
		return tt.F
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		switch a.op {
		case OpIte:
			if a.args[1].isConst() || a.args[2].isConst() {
				x, y := tt.Eq(a.args[1], b), tt.Eq(a.args[2], b)
				if x.isConst() || y.isConst() {
					return tt.Ite(a.args[0], x, y)
				}
			}
		case OpZExt:
			if b.k > mask(a.args[0].w) {
				return tt.F
			}
			return tt.Eq(a.args[0], tt.constw(a.args[0].w, b.k))
		case OpSExt:
			in := a.args[0]
			v := tt.constw(in.w, b.k)
			if uint64(sext(v.k, in.w))&mask(a.w) != b.k {
				return tt.F
			}
			return tt.Eq(in, v)
		case OpConcat:
			h, l := a.args[0], a.args[1]
			return tt.BAnd(tt.Eq(h, tt.constw(h.w, b.k>>uint(l.w))), tt.Eq(l, tt.constw(l.w, b.k)))
		case OpAdd:
			if len(a.args) == 1 && a.args[0].op != OpMul {
				return tt.Eq(a.args[0], tt.constw(a.w, b.k-a.k))
			}
		case OpNot:
			return tt.Eq(a.args[0], tt.constw(a.w, ^b.k))
		}
	} else {
		if a.op == OpZExt && b.op == OpZExt && a.args[0].w == b.args[0].w {
			return tt.Eq(a.args[0], b.args[0])
		}
		if a.op == OpSExt && b.op == OpSExt && a.args[0].w == b.args[0].w {
			return tt.Eq(a.args[0], b.args[0])
		}
		if a.op == OpAdd || b.op == OpAdd || (a.op == OpMul && a.args[0].isConst()) || (b.op == OpMul && b.args[0].isConst()) {
			d := tt.Sub(a, b)
			if d.isConst() {
				return tt.Bool(d.k == 0)
			}
			// canonical: move to d == 0 form as positive = other
			if d.op == OpAdd && len(d.args) == 1 && d.args[0].op != OpMul {
				return tt.Eq(d.args[0], tt.constw(d.w, -d.k))
			}
			if d.op != OpAdd && d.op != OpMul {
				return tt.Eq(d, tt.constw(d.w, 0))
			}
			// split into positive and negative parts
			acc := map[int]*linT{}
			var k uint64
			tt.lin(d, 1, acc, &k)
			pos, neg := map[int]*linT{}, map[int]*linT{}
			for id, e := range acc {
				if sext(e.c&mask(d.w), d.w) < 0 {
					neg[id] = &linT{e.t, -e.c}
				} else {
					pos[id] = e
				}
			}
			var kp, kn uint64
			if sext(k&mask(d.w), d.w) < 0 {
				kn = -k
			} else {
				kp = k
			}
			a, b = tt.fromLin(d.w, pos, kp), tt.fromLin(d.w, neg, kn)
			if a.isConst() && b.isConst() {
				return tt.Bool(a.k == b.k)
			}
			if a.hi < b.lo && a.nov && b.nov || b.hi < a.lo && a.nov && b.nov {
				return tt.F
			}
		}
	}
	if !b.isConst() && a.h > b.h {
		a, b = b, a
	}
	return tt.mk(OpEq, 0, 0, "", a, b)
}

// diffSign: tries to determine sign of a-b over non-wrapping linear forms. returns (min>=0), (min>0), (max<=0), (max<0)
func (tt *TermTable) linCmp(a, b *Term) (ge, gt, le, lt bool) {
	if !a.nov || !b.nov || !linear(a) || !linear(b) {
		return
	}
	acc := map[int]*linT{}
	var k uint64
	linSigned(a, 1, acc, &k)
	linSigned(b, ^uint64(0), acc, &k)
	// exact in int64 when all magnitudes together stay below 2^62
	abs := math.Abs(float64(int64(k)))
	for _, e := range acc {
		abs += math.Abs(float64(int64(e.c))) * float64(e.t.hi)
	}
	var mn, mx int64
	if abs < 1<<62 {
		mn, mx = int64(k), int64(k)
		for _, e := range acc {
			c := int64(e.c)
			if c > 0 {
				mn += c * int64(e.t.lo)
				mx += c * int64(e.t.hi)
			} else if c < 0 {
				mn += c * int64(e.t.hi)
				mx += c * int64(e.t.lo)
			}
		}
	} else {
		// trust pure-constant or single-signed difference
		all := true
		for _, e := range acc {
			if e.c != 0 {
				if int64(e.c) < 0 {
					all = false
				}
			}
		}
		if all && int64(k) >= 0 {
			return true, int64(k) > 0, false, false
		}
		all = true
		for _, e := range acc {
			if e.c != 0 {
				if int64(e.c) > 0 {
					all = false
				}
			}
		}
		if all && int64(k) <= 0 {
			return false, false, true, int64(k) < 0
		}
		return
	}
	return mn >= 0, mn > 0, mx <= 0, mx < 0
}

// linear reports whether the term's linear form has only small coefficients and constant.
func linear(t *Term) bool {
	switch t.op {
	case OpConst:
		return t.k < 1<<62
	case OpAdd:
		if k := linK(t); k > 1<<62 || k < -(1<<62) {
			return false
		}
		for _, a := range t.args {
			if a.op == OpMul && a.args[0].isConst() && (a.args[0].k > 1<<31 || !a.nov) {
				return false
			}
		}
		return true
	case OpMul:
		return !t.args[0].isConst() || (t.args[0].k < 1<<31 && t.nov)
	}
	return true
}

// linK is the constant of a non-wrapping linear form: taken unsigned when the sum with the
// unsigned constant does not wrap, and as a negative number otherwise.
func linK(t *Term) int64 {
	if t.lo >= t.k {
		if t.k > 1<<62 {
			return math.MaxInt64
		}
		return int64(t.k)
	}
	return sext(t.k, t.w)
}

func linSigned(t *Term, mul uint64, acc map[int]*linT, k *uint64) {
	add := func(x *Term, c uint64) {
		if e, ok := acc[x.id]; ok {
			e.c += c
		} else {
			acc[x.id] = &linT{x, c}
		}
	}
	switch {
	case t.op == OpConst:
		*k += mul * t.k
	case t.op == OpAdd:
		*k += mul * uint64(linK(t))
		for _, a := range t.args {
			if a.op == OpMul && a.args[0].isConst() {
				add(a.args[1], mul*a.args[0].k)
			} else {
				add(a, mul)
			}
		}
	case t.op == OpMul && t.args[0].isConst():
		add(t.args[1], mul*t.args[0].k)
	default:
		add(t, mul)
	}
}

func (tt *TermTable) Ult(a, b *Term) *Term {
	if a == b {
		return tt.F
	}
	if a.isConst() && b.isConst() {
		return tt.Bool(a.k < b.k)
	}
	if a.hi < b.lo {
		return tt.T
	}
	if a.lo >= b.hi {
		return tt.F
	}
	if b.isConst() && b.k == 1 {
		return tt.Eq(a, tt.constw(a.w, 0))
	}
	ge, _, _, lt := tt.linCmp(a, b)
	if ge {
		return tt.F
	}
	if lt {
		return tt.T
	}
	if a.op == OpZExt && b.op == OpZExt && a.args[0].w == b.args[0].w {
		return tt.Ult(a.args[0], b.args[0])
	}
	if a.op == OpZExt && b.isConst() {
		return tt.Ult(a.args[0], tt.constw(a.args[0].w, b.k))
	}
	if b.op == OpZExt && a.isConst() {
		return tt.Ult(tt.constw(b.args[0].w, a.k), b.args[0])
	}
	return tt.mk(OpUlt, 0, 0, "", a, b)
}
func (tt *TermTable) Ule(a, b *Term) *Term {
	if a == b {
		return tt.T
	}
	if a.isConst() && b.isConst() {
		return tt.Bool(a.k <= b.k)
	}
	if a.hi <= b.lo {
		return tt.T
	}
	if a.lo > b.hi {
		return tt.F
	}
	if b.isConst() && b.k == 0 {
		return tt.Eq(a, b)
	}
	_, gt, le, _ := tt.linCmp(a, b)
	if gt {
		return tt.F
	}
	if le {
		return tt.T
	}
	if a.op == OpZExt && b.op == OpZExt && a.args[0].w == b.args[0].w {
		return tt.Ule(a.args[0], b.args[0])
	}
	if a.op == OpZExt && b.isConst() {
		return tt.Ule(a.args[0], tt.constw(a.args[0].w, b.k))
	}
	if b.op == OpZExt && a.isConst() {
		return tt.Ule(tt.constw(b.args[0].w, a.k), b.args[0])
	}
	return tt.mk(OpUle, 0, 0, "", a, b)
}
func (tt *TermTable) Slt(a, b *Term) *Term {
	if a == b {
		return tt.F
	}
	if a.isConst() && b.isConst() {
		return tt.Bool(sext(a.k, a.w) < sext(b.k, b.w))
	}
	half := mask(a.w) >> 1
	if a.hi <= half && b.hi <= half {
		return tt.Ult(a, b)
	}
	if a.lo > half && b.hi <= half {
		return tt.T
	}
	if b.lo > half && a.hi <= half {
		return tt.F
	}
	if a.op == OpSExt && b.op == OpSExt && a.args[0].w == b.args[0].w {
		return tt.Slt(a.args[0], b.args[0])
	}
	if a.op == OpSExt && b.isConst() {
		in := a.args[0]
		v := sext(b.k, b.w)
		mx := int64(mask(in.w) >> 1)
		if v > mx {
			return tt.T
		}
		if v <= -mx-1 {
			return tt.F
		}
		return tt.Slt(in, tt.constw(in.w, b.k))
	}
	if b.op == OpSExt && a.isConst() {
		in := b.args[0]
		v := sext(a.k, a.w)
		mx := int64(mask(in.w) >> 1)
		if v >= mx {
			return tt.F
		}
		if v < -mx-1 {
			return tt.T
		}
		return tt.Slt(tt.constw(in.w, a.k), in)
	}
	return tt.mk(OpSlt, 0, 0, "", a, b)
}
func (tt *TermTable) Sle(a, b *Term) *Term {
	if a == b {
		return tt.T
	}
	if a.isConst() && b.isConst() {
		return tt.Bool(sext(a.k, a.w) <= sext(b.k, b.w))
	}
	half := mask(a.w) >> 1
	if a.hi <= half && b.hi <= half {
		return tt.Ule(a, b)
	}
	if a.lo > half && b.hi <= half {
		return tt.T
	}
	if b.lo > half && a.hi <= half {
		return tt.F
	}
	if a.op == OpSExt && b.op == OpSExt && a.args[0].w == b.args[0].w {
		return tt.Sle(a.args[0], b.args[0])
	}
	if a.op == OpSExt && b.isConst() || b.op == OpSExt && a.isConst() {
		return tt.BNot(tt.sltRaw(b, a))
	}
	return tt.mk(OpSle, 0, 0, "", a, b)
}

// sltRaw avoids the BNot(Sle) <-> BNot(Slt) loop.
func (tt *TermTable) sltRaw(a, b *Term) *Term {
	r := tt.Slt(a, b)
	if r.op == OpSlt {
		// keep as negated slt via sle
		return tt.mk(OpBNot, 0, 0, "", tt.mk(OpSle, 0, 0, "", r.args[1], r.args[0]))
	}
	return r
}

// floating point helpers
func (tt *TermTable) FP(op Op, w int, args ...*Term) *Term {
	all := true
	for _, a := range args {
		if !a.isConst() {
			all = false
		}
	}
	if all {
		if v, ok := fpEval(op, w, args[0].w, args); ok {
			return tt.constw(w, v)
		}
	}
	return tt.mk(op, w, 0, "", args...)
}

func fpEval(op Op, w, aw int, args []*Term) (uint64, bool) {
	v := make([]uint64, len(args))
	for i, a := range args {
		v[i] = a.k
	}
	return fpEvalV(op, w, aw, v)
}

func fpEvalV(op Op, w, aw int, v []uint64) (uint64, bool) {
	f := func(x uint64) float64 {
		if aw == 32 {
			return float64(math.Float32frombits(uint32(x)))
		}
		return math.Float64frombits(x)
	}
	out := func(x float64) uint64 {
		if w == 32 {
			return uint64(math.Float32bits(float32(x)))
		}
		return math.Float64bits(x)
	}
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch op {
	case OpFAdd, OpFSub, OpFMul, OpFDiv:
		if w == 32 {
			x, y := math.Float32frombits(uint32(v[0])), math.Float32frombits(uint32(v[1]))
			var r float32
			switch op {
			case OpFAdd:
				r = x + y
			case OpFSub:
				r = x - y
			case OpFMul:
				r = x * y
			default:
				r = x / y
			}
			return uint64(math.Float32bits(r)), true
		}
		x, y := f(v[0]), f(v[1])
		switch op {
		case OpFAdd:
			return out(x + y), true
		case OpFSub:
			return out(x - y), true
		case OpFMul:
			return out(x * y), true
		default:
			return out(x / y), true
		}
	case OpFLt:
		return b2u(f(v[0]) < f(v[1])), true
	case OpFLe:
		return b2u(f(v[0]) <= f(v[1])), true
	case OpFEq:
		return b2u(f(v[0]) == f(v[1])), true
	case OpFtoF:
		return out(f(v[0])), true
	case OpFtoS:
		return uint64(int64(f(v[0]))) & mask(w), true
	case OpFtoU:
		return uint64(f(v[0])) & mask(w), true
	case OpStoF:
		return out(float64(sext(v[0], aw))), true
	case OpUtoF:
		return out(float64(v[0])), true
	}
	return 0, false
}

// ---- evaluation under a model ----

type Model struct {
	vars map[string]uint64
	ufs  map[string]map[uint64]uint64
}

func newModel() *Model {
	return &Model{vars: map[string]uint64{}, ufs: map[string]map[uint64]uint64{}}
}

func (tt *TermTable) eval(t *Term, m *Model, epoch int64) uint64 {
	if t.op == OpConst {
		return t.k
	}
	if t.evEpoch == epoch {
		return t.evVal
	}
	var r uint64
	a := func(i int) uint64 { return tt.eval(t.args[i], m, epoch) }
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.op {
	case OpVar:
		r = m.vars[t.name]
	case OpApp:
		r = m.ufs[t.name][a(0)]
	case OpAdd:
		r = t.k
		for i := range t.args {
			r += a(i)
		}
	case OpMul:
		r = a(0) * a(1)
	case OpUDiv:
		x, y := a(0), a(1)
		if y == 0 {
			r = ^uint64(0)
		} else {
			r = x / y
		}
	case OpURem:
		x, y := a(0), a(1)
		if y == 0 {
			r = x
		} else {
			r = x % y
		}
	case OpSDiv:
		x, y := sext(a(0), t.w), sext(a(1), t.w)
		if y == 0 {
			if x < 0 {
				r = 1
			} else {
				r = ^uint64(0)
			}
		} else if y == -1 {
			r = uint64(-x)
		} else {
			r = uint64(x / y)
		}
	case OpSRem:
		x, y := sext(a(0), t.w), sext(a(1), t.w)
		if y == 0 {
			r = uint64(x)
		} else if y == -1 {
			r = 0
		} else {
			r = uint64(x % y)
		}
	case OpAnd:
		r = a(0) & a(1)
	case OpOr:
		r = a(0) | a(1)
	case OpXor:
		r = a(0) ^ a(1)
	case OpShl:
		s := a(1)
		if s >= 64 {
			r = 0
		} else {
			r = a(0) << s
		}
	case OpLShr:
		s := a(1)
		if s >= 64 {
			r = 0
		} else {
			r = a(0) >> s
		}
	case OpAShr:
		s := a(1)
		if s > 63 {
			s = 63
		}
		r = uint64(sext(a(0), t.w) >> s)
	case OpNot:
		r = ^a(0)
	case OpConcat:
		r = a(0)<<uint(t.args[1].w) | a(1)
	case OpExtract:
		r = a(0) >> (t.k & 0xff)
	case OpZExt:
		r = a(0)
	case OpSExt:
		r = uint64(sext(a(0), t.args[0].w))
	case OpIte:
		if a(0) == 1 {
			r = a(1)
		} else {
			r = a(2)
		}
	case OpEq:
		r = b2u(a(0) == a(1))
	case OpUlt:
		r = b2u(a(0) < a(1))
	case OpUle:
		r = b2u(a(0) <= a(1))
	case OpSlt:
		r = b2u(sext(a(0), t.args[0].w) < sext(a(1), t.args[0].w))
	case OpSle:
		r = b2u(sext(a(0), t.args[0].w) <= sext(a(1), t.args[0].w))
	case OpBNot:
		r = 1 - a(0)
	case OpBAnd:
		r = a(0) & a(1)
	case OpBOr:
		r = a(0) | a(1)
	default:
		v := make([]uint64, len(t.args))
		for i := range t.args {
			v[i] = a(i)
		}
		r, _ = fpEvalV(t.op, t.w, t.args[0].w, v)
	}
	if t.w > 0 {
		r &= mask(t.w)
	} else {
		r &= 1
	}
	t.evEpoch = epoch
	t.evVal = r
	return r
}

func (t *Term) String() string { return t.str(6) }
func (t *Term) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	switch t.op {
	case OpConst:
		if t.w == 0 {
			return fmt.Sprint(t.k == 1)
		}
		return fmt.Sprintf("%d", t.k)
	case OpVar:
		return t.name
	}
	if d == 0 {
		return fmt.Sprintf("t%d", t.id)
	}
	names := [...]string{"const", "var", "app", "+", "*", "/u", "%u", "/s", "%s", "&", "|", "^", "<<", ">>", ">>a", "~", "++", "ext", "zx", "sx", "ite", "=", "<u", "<=u", "<s", "<=s", "!", "&&", "||", "f+", "f-", "f*", "f/", "f<", "f<=", "f=", "f2f", "f2s", "f2u", "s2f", "u2f"}
	var sb strings.Builder
	sb.WriteString("(" + names[t.op])
	if t.op == OpApp {
		sb.WriteString(":" + t.name)
	}
	if t.op == OpExtract {
		fmt.Fprintf(&sb, "[%d:%d]", t.k>>8, t.k&0xff)
	}
	for _, a := range t.args {
		sb.WriteString(" " + a.str(d-1))
	}
	if t.op == OpAdd && t.k != 0 {
		fmt.Fprintf(&sb, " %d", sext(t.k, t.w))
	}
	sb.WriteString(")")
	return sb.String()
}
