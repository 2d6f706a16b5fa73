package main

// collect models a garbage collection: the addresses of objects that were made into integers and
// can no longer be reached become free for later objects.
func (m *Machine) collect() {
	seen := map[interface{}]bool{}
	var mark func(v Value)
	slot := func(s *Value) bool {
		if s == nil || seen[s] {
			return false
		}
		seen[s] = true
		return true
	}
	mark = func(v Value) {
		switch x := v.(type) {
		case *Value:
			if slot(x) {
				mark(*x)
			}
		case *StructV:
			if x == nil {
				return
			}
			if seen[x] {
				return
			}
			seen[x] = true
			for i := range x.f {
				if slot(&x.f[i]) {
					mark(x.f[i])
				}
			}
		case *ArrayV:
			if x == nil || seen[x] {
				return
			}
			seen[x] = true
			if x.arr != nil {
				mark(x.arr)
			}
			if x.mem != nil {
				seen[x.mem] = true
			}
		case *ArrObj:
			if x == nil || seen[x] {
				return
			}
			seen[x] = true
			for _, c := range x.cells {
				mark(c)
			}
		case *SliceV:
			if x == nil {
				return
			}
			if x.mem != nil {
				seen[x.mem] = true
			}
			if x.arr != nil {
				mark(x.arr)
			}
		case ElemPtr:
			seen[x.mem] = true
		case HdrPtr:
			mark(x.slot)
		case DataPtr:
			if x.mem != nil {
				seen[x.mem] = true
			}
			if x.base != nil {
				mark(x.base)
			}
		case *Closure:
			if x == nil || seen[x] {
				return
			}
			seen[x] = true
			for _, e := range x.env {
				mark(e)
			}
		case Iface:
			mark(x.v)
		case Tuple:
			for _, e := range x {
				mark(e)
			}
		case *MapV:
			if x == nil || seen[x] {
				return
			}
			seen[x] = true
			for _, e := range x.ents {
				if !e.dead {
					mark(e.k)
					mark(e.v)
				}
			}
		case *ChanV:
			if x == nil || seen[x] {
				return
			}
			seen[x] = true
			for _, e := range x.buf {
				mark(e)
			}
		case *RangeIter:
			if x != nil && x.m != nil {
				mark(x.m)
			}
		}
	}
	for _, g := range m.globals {
		mark(g)
	}
	for _, g := range m.gs {
		for _, f := range g.frames {
			for _, r := range f.regs {
				mark(r)
			}
			for _, r := range f.env {
				mark(r)
			}
			if len(f.defers) > 0 || f.panicking != nil {
				return // be conservative: keep everything
			}
		}
		if g.block != nil {
			return
		}
	}
	for k, a := range m.addrs {
		if seen[k] {
			continue
		}
		s, ok := k.(*Value)
		if !ok {
			continue
		}
		if sv, ok := (*s).(*StructV); ok && sv != nil {
			alive := seen[sv]
			for i := range sv.f {
				alive = alive || seen[&sv.f[i]]
			}
			if alive {
				continue
			}
		}
		delete(m.addrs, k)
		delete(m.byAddr, a)
		m.freeAddrs = append(m.freeAddrs, a)
	}
}
