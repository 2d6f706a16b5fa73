// Package hu24 holds the harnesses for 24-bit lengths (C05).
package hu24

import (
	"errors"

	"github.com/nanobus/iota/go/internal/u24"
	"github.com/nanobus/iota/go/internal/vnd"
)

type rec struct {
	b    [8]byte
	n    int
	call int
	fail bool
}

var errW = errors.New("write failed")

func (r *rec) Write(p []byte) (int, error) {
	r.call++
	if r.fail {
		return 0, errW
	}
	for _, c := range p {
		if r.n < len(r.b) {
			r.b[r.n] = c
		}
		r.n++
	}
	return len(p), nil
}

// Every 32-bit value is either exact through every reader or refused.
//
//verif:harness C05
func H_C05_value() {
	v := vnd.U32("v")
	n, err := u24.NewUint24(v)
	if v > 16777215 {
		vnd.Reach("too large")
		vnd.Assert(err != nil, "a value above 16777215 is refused")
		w := &rec{}
		vnd.Assert(u24.WriteUint24(w, v) != nil, "writing a value above 16777215 is refused")
		vnd.Assert(w.n == 0, "nothing is written for a refused value")
		return
	}
	vnd.Reach("fits")
	vnd.Assert(err == nil, "a value up to 16777215 is accepted")
	vnd.Assert(n.AsInt() == int(v), "AsInt reads back the value")
	bs := n.Bytes()
	vnd.Assert(len(bs) == 3, "three bytes")
	vnd.Assert(bs[0] == byte(v>>16) && bs[1] == byte(v>>8) && bs[2] == byte(v), "big-endian bytes")
	vnd.Assert(u24.ReadUint24ToInt(bs) == int(v), "ReadUint24ToInt reads back the value")
	vnd.Assert(u24.NewUint24Bytes(bs).AsInt() == int(v), "NewUint24Bytes reads back the value")
	vnd.Assert(u24.MustNewUint24(v).AsInt() == int(v), "MustNewUint24 reads back the value")

	w := &rec{}
	vnd.Assert(u24.WriteUint24(w, v) == nil, "write succeeds")
	vnd.Assert(w.n == 3, "exactly three bytes are written")
	vnd.Assert(u24.ReadUint24ToInt(w.b[:3]) == int(v), "the written bytes read back as the value")
	w = &rec{}
	k, err := n.WriteTo(w)
	vnd.Assert(err == nil && k == 3 && w.n == 3, "WriteTo writes exactly three bytes")
	vnd.Assert(u24.ReadUint24ToInt(w.b[:3]) == int(v), "WriteTo's bytes read back as the value")
	w = &rec{fail: true}
	vnd.Assert(u24.WriteUint24(w, v) != nil, "a failing writer is reported")
}

// Any three received bytes read as the same number through every reader, and re-encode to themselves.
//
//verif:harness C05
func H_C05_bytes() {
	b := vnd.Bytes("b", 6)
	vnd.Assume(len(b) >= 3)
	want := int(b[0])*65536 + int(b[1])*256 + int(b[2])
	vnd.Assert(u24.ReadUint24ToInt(b) == want, "ReadUint24ToInt is big-endian")
	n := u24.NewUint24Bytes(b)
	vnd.Assert(n.AsInt() == want, "NewUint24Bytes is big-endian")
	m, err := u24.NewUint24(uint32(want))
	vnd.Assert(err == nil && m == n, "re-encoding gives the same bytes")
	vnd.Reach("end")
}
