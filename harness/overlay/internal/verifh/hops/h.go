// Package hops holds the harnesses for operation tables (C09, C10).
package hops

import (
	"github.com/nanobus/iota/go/internal/vnd"
	"github.com/nanobus/iota/go/operations"
)

func maxOps() int {
	if vnd.Thorough() {
		return 4
	}
	return 2
}

func op(ns, name string) operations.Operation {
	return operations.Operation{Index: vnd.U32("index"), Type: operations.RequestType(vnd.U8("type")), Direction: operations.Direction(vnd.U8("direction")), Namespace: ns, Operation: name}
}

// sized is an operation whose names have one of a few lengths and any content.
func sized() operations.Operation {
	l := [3][2]int{{0, 2}, {300, 0}, {1, 65535}}[vnd.Choice("len", 3)]
	return op(string(vnd.BytesN("namespace", l[0])), string(vnd.BytesN("operation", l[1])))
}

// table has any number of operations up to the bound; the last one has names of any length the
// format allows (its position in the bytes is then known), the others have names of a few lengths.
func table() operations.Table {
	n := vnd.Choice("n", maxOps()+1)
	t := make(operations.Table, n)
	for i := range t {
		if i == n-1 {
			t[i] = op(vnd.String("namespace", 65535), vnd.String("operation", 65535))
		} else {
			t[i] = sized()
		}
	}
	return t
}

func same(got, want operations.Table) {
	vnd.Assert(len(got) == len(want), "the same number of operations")
	for i := range want {
		g, w := got[i], want[i]
		vnd.Assert(g.Index == w.Index, "index")
		vnd.Assert(g.Type == w.Type, "type")
		vnd.Assert(g.Direction == w.Direction, "direction")
		vnd.EqStr(g.Namespace, w.Namespace, "namespace")
		vnd.EqStr(g.Operation, w.Operation, "operation")
	}
}

// Any table with names up to the format's limit comes back.
//
//verif:harness C09 unroll=20
func H_C09_roundtrip() {
	t := table()
	got, err := operations.FromBytes(t.ToBytes())
	vnd.Assert(err == nil, "the table is accepted")
	same(got, t)
	vnd.Reach("end")
}

func u16(v int) []byte { return []byte{byte(v >> 8), byte(v)} }

// A table laid out by hand after the format, with reserved bytes in every entry.
//
//verif:harness C09 unroll=20
func H_C09_reserved() {
	t := make(operations.Table, vnd.Choice("n", maxOps()+1))
	for i := range t {
		t[i] = sized()
	}
	buf := append([]byte{0, 'w', 'r', 's', 0, 1, 0, 0, 0}, byte(len(t)))
	for _, o := range t {
		r := vnd.BytesN("reserved", [3]int{0, 1, 65535}[vnd.Choice("rlen", 3)])
		buf = append(buf, byte(o.Type), byte(o.Direction), byte(o.Index>>24), byte(o.Index>>16), byte(o.Index>>8), byte(o.Index))
		buf = append(buf, u16(len(o.Namespace))...)
		buf = append(buf, o.Namespace...)
		buf = append(buf, u16(len(o.Operation))...)
		buf = append(buf, o.Operation...)
		buf = append(buf, u16(len(r))...)
		buf = append(buf, r...)
	}
	got, err := operations.FromBytes(buf)
	vnd.Assert(err == nil, "the table is accepted")
	same(got, t)
	vnd.Reach("end")
}

// Any bytes.
//
//verif:harness C10 unroll=20
func H_C10_any() {
	buf := vnd.Bytes("buf", 1<<20)
	if len(buf) >= 10 {
		// Bound: at most maxOps entries, or more than the input can hold.
		k := uint64(buf[6])<<24 | uint64(buf[7])<<16 | uint64(buf[8])<<8 | uint64(buf[9])
		vnd.Assume(k <= uint64(maxOps()) || k > uint64(len(buf)-10)/12)
	}
	vnd.AllocLimit(1<<20 + 64*len(buf))
	t, err := operations.FromBytes(buf)
	vnd.AllocOff()
	if err != nil {
		vnd.Reach("error")
		return
	}
	vnd.Assert(len(buf) >= 10 && buf[0] == 0 && buf[1] == 'w' && buf[2] == 'r' && buf[3] == 's', "a wrong magic number is an error")
	vnd.Assert(buf[4] == 0 && buf[5] == 1, "an unknown version is an error")
	n := int(buf[6])<<24 | int(buf[7])<<16 | int(buf[8])<<8 | int(buf[9])
	vnd.Assert(len(t) == n, "the table has the stated number of entries")
	vnd.Assert(n <= (len(buf)-10)/12, "a truncated table is an error")
	vnd.Reach("ok")
	// Entries are the parts of the input the layout says.
	off := 10
	for i := 0; i < n; i++ {
		vnd.Assert(len(buf) >= off+8, "a truncated entry is an error")
		o := t[i]
		vnd.Assert(o.Type == operations.RequestType(buf[off]) && o.Direction == operations.Direction(buf[off+1]), "type and direction")
		vnd.Assert(o.Index == uint32(buf[off+2])<<24|uint32(buf[off+3])<<16|uint32(buf[off+4])<<8|uint32(buf[off+5]), "index")
		k := int(buf[off+6])<<8 | int(buf[off+7])
		vnd.Assert(len(buf) >= off+8+k+2, "a truncated entry is an error")
		vnd.EqStr(o.Namespace, string(buf[off+8:off+8+k]), "namespace")
		off += 8 + k
		k = int(buf[off])<<8 | int(buf[off+1])
		vnd.Assert(len(buf) >= off+2+k+2, "a truncated entry is an error")
		vnd.EqStr(o.Operation, string(buf[off+2:off+2+k]), "operation")
		off += 2 + k
		k = int(buf[off])<<8 | int(buf[off+1])
		off += 2 + k
		vnd.Assert(len(buf) >= off, "a truncated entry is an error")
	}
	vnd.Reach("checked")
}
