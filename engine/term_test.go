package main

import (
	"fmt"
	"math/rand"
	"testing"
)

type nd struct {
	d string
	t *Term
	f func(*Model) uint64
}

// Random expressions: the simplified term must evaluate like the naive semantics.
func TestSimplifier(t *testing.T) {
	for seed := int64(0); seed < 20000; seed++ {
		r := rand.New(rand.NewSource(seed))
		tt := newTermTable()
		w := []int{8, 16, 32, 64}[r.Intn(4)]
		var pool []nd
		var bp []nd
		names := []string{"x", "y", "z"}
		for _, n := range names {
			n := n
			mx := uint64(0)
			if r.Intn(2) == 0 {
				mx = uint64(r.Intn(200) + 1)
			}
			v := tt.Var(n, w, mx)
			pool = append(pool, nd{"", v, func(m *Model) uint64 { return m.vars[n] }})
			_ = v
		}
		b8 := tt.Var("b", 8, 0)
		pool = append(pool, nd{"", tt.ZExt(b8, w), func(m *Model) uint64 { return m.vars["b"] }})
		for i := 0; i < 3; i++ {
			c := uint64(r.Intn(300))
			if r.Intn(3) == 0 {
				c = -c
			}
			if r.Intn(3) == 0 {
				c = uint64(1) << uint(r.Intn(w))
			}
			c &= mask(w)
			pool = append(pool, nd{"", tt.constw(w, c), func(m *Model) uint64 { return c }})
		}
		bp = append(bp, nd{"", tt.T, func(*Model) uint64 { return 1 }})
		b2u := func(b bool) uint64 {
			if b {
				return 1
			}
			return 0
		}
		for i := 0; i < 14; i++ {
			a, b := pool[r.Intn(len(pool))], pool[r.Intn(len(pool))]
			p, q := bp[r.Intn(len(bp))], bp[r.Intn(len(bp))]
			mw := mask(w)
			af, bf, pf, qf := a.f, b.f, p.f, q.f
			var n nd
			isB := false
			switch r.Intn(26) {
			case 0:
				n = nd{"", tt.Add(a.t, b.t), func(m *Model) uint64 { return (af(m) + bf(m)) & mw }}
			case 1:
				n = nd{"", tt.Sub(a.t, b.t), func(m *Model) uint64 { return (af(m) - bf(m)) & mw }}
			case 2:
				n = nd{"", tt.Mul(a.t, b.t), func(m *Model) uint64 { return (af(m) * bf(m)) & mw }}
			case 3:
				n = nd{"", tt.And(a.t, b.t), func(m *Model) uint64 { return af(m) & bf(m) }}
			case 4:
				n = nd{"", tt.Or(a.t, b.t), func(m *Model) uint64 { return af(m) | bf(m) }}
			case 5:
				n = nd{"", tt.Xor(a.t, b.t), func(m *Model) uint64 { return af(m) ^ bf(m) }}
			case 6:
				n = nd{"", tt.Not(a.t), func(m *Model) uint64 { return ^af(m) & mw }}
			case 7, 8:
				s := uint64(r.Intn(w + 2))
				n = nd{"", tt.Shl(a.t, tt.constw(w, s)), func(m *Model) uint64 {
					if s >= 64 {
						return 0
					}
					return (af(m) << s) & mw
				}}
			case 9, 10:
				s := uint64(r.Intn(w + 2))
				n = nd{"", tt.LShr(a.t, tt.constw(w, s)), func(m *Model) uint64 {
					if s >= 64 {
						return 0
					}
					return af(m) >> s
				}}
			case 11:
				s := uint64(r.Intn(w + 2))
				n = nd{"", tt.AShr(a.t, tt.constw(w, s)), func(m *Model) uint64 { return uint64(sext(af(m), w)>>min(s, 63)) & mw }}
			case 12:
				hi := r.Intn(w)
				lo := r.Intn(hi + 1)
				n = nd{"", tt.ZExt(tt.Extract(a.t, hi, lo), w), func(m *Model) uint64 { return (af(m) >> uint(lo)) & mask(hi-lo+1) }}
			case 13:
				hi := r.Intn(w)
				n = nd{"", tt.SExt(tt.Extract(a.t, hi, 0), w), func(m *Model) uint64 { return uint64(sext(af(m)&mask(hi+1), hi+1)) & mw }}
			case 14:
				n = nd{"", tt.Ite(p.t, a.t, b.t), func(m *Model) uint64 {
					if pf(m) == 1 {
						return af(m)
					}
					return bf(m)
				}}
			case 15:
				n = nd{"", tt.Eq(a.t, b.t), func(m *Model) uint64 { return b2u(af(m) == bf(m)) }}
				isB = true
			case 16:
				n = nd{"", tt.Ult(a.t, b.t), func(m *Model) uint64 { return b2u(af(m) < bf(m)) }}
				isB = true
			case 17:
				n = nd{"", tt.Ule(a.t, b.t), func(m *Model) uint64 { return b2u(af(m) <= bf(m)) }}
				isB = true
			case 18:
				n = nd{"", tt.Slt(a.t, b.t), func(m *Model) uint64 { return b2u(sext(af(m), w) < sext(bf(m), w)) }}
				isB = true
			case 19:
				n = nd{"", tt.Sle(a.t, b.t), func(m *Model) uint64 { return b2u(sext(af(m), w) <= sext(bf(m), w)) }}
				isB = true
			case 20:
				n = nd{"", tt.BNot(p.t), func(m *Model) uint64 { return 1 - pf(m) }}
				isB = true
			case 21:
				n = nd{"", tt.BAnd(p.t, q.t), func(m *Model) uint64 { return pf(m) & qf(m) }}
				isB = true
			case 22:
				n = nd{"", tt.BOr(p.t, q.t), func(m *Model) uint64 { return pf(m) | qf(m) }}
				isB = true
			case 23:
				n = nd{"", tt.UDiv(a.t, b.t), func(m *Model) uint64 {
					if bf(m) == 0 {
						return mw
					}
					return af(m) / bf(m)
				}}
			case 24:
				n = nd{"", tt.URem(a.t, b.t), func(m *Model) uint64 {
					if bf(m) == 0 {
						return af(m)
					}
					return af(m) % bf(m)
				}}
			case 25:
				n = nd{"", tt.SDiv(a.t, b.t), func(m *Model) uint64 {
					x, y := sext(af(m), w), sext(bf(m), w)
					if y == 0 {
						if x < 0 {
							return 1
						}
						return mw
					}
					if y == -1 {
						return uint64(-x) & mw
					}
					return uint64(x/y) & mw
				}}
			}
			n.d = fmt.Sprintf("a=%v b=%v p=%v q=%v", a.t, b.t, p.t, q.t)
			if isB {
				bp = append(bp, n)
			} else {
				if n.t.w != w {
					t.Fatalf("seed %d width %d want %d", seed, n.t.w, w)
				}
				pool = append(pool, n)
			}
		}
		for e := 0; e < 6; e++ {
			m := newModel()
			for _, n := range names {
				v := r.Uint64()
				switch r.Intn(4) {
				case 0:
					v = uint64(r.Intn(5))
				case 1:
					v = -uint64(r.Intn(5))
				}
				v &= mask(w)
				for _, p := range pool[:3] {
					if p.t.op == OpVar && p.t.name == n && p.t.k != 0 {
						v %= p.t.k + 1
					}
				}
				m.vars[n] = v
			}
			m.vars["b"] = uint64(r.Intn(256))
			for _, p := range append(append([]nd{}, pool...), bp...) {
				g, x := tt.eval(p.t, m, seed*10+int64(e)+1), p.f(m)
				if g != x {
					t.Fatalf("%s seed %d: %v: got %d want %d model %v", p.d, seed, p.t, g, x, m.vars)
				}
				if g < p.t.lo || g > p.t.hi {
					t.Fatalf("seed %d: %v: %d outside range [%d,%d]", seed, p.t, g, p.t.lo, p.t.hi)
				}
			}
		}
	}
}
