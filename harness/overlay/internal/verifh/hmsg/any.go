package hmsg

import (
	"github.com/nanobus/iota/go/internal/vnd"
	"github.com/nanobus/iota/go/msgpack"
)

// ---- C13 ----

func isStr(p byte) bool {
	return p&0xe0 == 0xa0 || p&0xf0 == 0x90 || p == 0xd9 || p == 0xda || p == 0xdb || p == 0xdc || p == 0xdd
}

// readOp performs one reading operation; it returns its error and, for strings and byte strings,
// the content.
func readOp(op int, d *msgpack.Decoder) (content []byte, err error) {
	switch op {
	case 0:
		_, err = d.IsNextNil()
	case 1:
		_, err = d.ReadBool()
	case 2:
		_, err = d.ReadNillableBool()
	case 3:
		_, err = d.ReadInt8()
	case 4:
		_, err = d.ReadNillableInt16()
	case 5:
		_, err = d.ReadInt32()
	case 6:
		_, err = d.ReadInt64()
	case 7:
		_, err = d.ReadNillableInt64()
	case 8:
		_, err = d.ReadUint8()
	case 9:
		_, err = d.ReadUint16()
	case 10:
		_, err = d.ReadNillableUint32()
	case 11:
		_, err = d.ReadUint64()
	case 12:
		_, err = d.ReadFloat32()
	case 13:
		_, err = d.ReadNillableFloat32()
	case 14:
		_, err = d.ReadFloat64()
	case 15:
		_, err = d.ReadNillableFloat64()
	case 16:
		_, err = d.ReadArraySize()
	case 17:
		_, err = d.ReadMapSize()
	case 18:
		var s string
		s, err = d.ReadString()
		content = []byte(s)
	case 19:
		var s *string
		s, err = d.ReadNillableString()
		if s != nil {
			content = []byte(*s)
		}
	case 20:
		content, err = d.ReadByteArray()
	case 21:
		content, err = d.ReadNillableByteArray()
	case 22:
		_, err = d.ReadTime()
	case 23:
		_, err = d.ReadNillableTime()
	case 24:
		var x any
		x, err = d.ReadAny()
		switch v := x.(type) {
		case string:
			content = []byte(v)
		case []byte:
			content = v
		}
	case 25:
		err = d.Skip()
	}
	return
}

const nOps = 26

// inside reports whether c is a part of b behind its first byte.
func inside(c, b []byte) {
	vnd.Assert(len(c) < len(b) || len(c) == 0, "the content is not longer than the input")
	if len(c) == 0 {
		return
	}
	for h := 1; h <= 5; h++ {
		if len(b) >= h+len(c) && hdrLen(b) == h {
			vnd.EqBytes(c, b[h:h+len(c)], "the content is a part of the input")
			return
		}
	}
	vnd.Assert(false, "content without input")
}

// hdrLen is the length of the header of the string or byte string at the start of b.
func hdrLen(b []byte) int {
	switch b[0] {
	case 0xd9, 0xc4:
		return 2
	case 0xda, 0xc5, 0xdc:
		return 3
	case 0xdb, 0xc6, 0xdd:
		return 5
	}
	return 1
}

// Every operation on any bytes of any length, for values that hold no other values.
//
//verif:harness C13
func H_C13_scalar() {
	op := vnd.Choice("op", nOps)
	b := vnd.Bytes("b", 1<<20)
	if op >= 22 && len(b) > 0 {
		if op < 24 {
			vnd.Assume(!isStr(b[0])) // textual times are read by package time
		} else {
			p := b[0]
			vnd.Assume(!(p >= 0x81 && p <= 0x8f || p >= 0x91 && p <= 0x9f || p >= 0xdc && p <= 0xdf))
		}
	}
	d := msgpack.NewDecoder(b)
	vnd.AllocLimit(1<<20 + 64*len(b))
	c, err := readOp(op, &d)
	vnd.AllocOff()
	if err != nil {
		vnd.Assert(len(c) == 0, "no content comes with an error")
		vnd.Reach("error")
		return
	}
	vnd.Assert(len(b) > 0, "nothing can be read from nothing")
	if c != nil {
		inside(c, b)
		vnd.Reach("content")
	}
	vnd.Reach("ok")
}

// Every operation twice on short input: the second starts wherever the first ended.
//
//verif:harness C13
func H_C13_twice() {
	b := vnd.Bytes("b", 8)
	d := msgpack.NewDecoder(b)
	ops := [8]int{0, 2, 6, 11, 13, 18, 20, 25}
	if len(b) > 0 {
		p := b[0]
		vnd.Assume(!(p >= 0x81 && p <= 0x8f || p >= 0x91 && p <= 0x9f || p >= 0xdc && p <= 0xdf))
	}
	_, err := readOp(ops[vnd.Choice("first", 8)], &d)
	if err != nil && d.Err() != nil {
		_, err = readOp(ops[vnd.Choice("second", 7)], &d)
		vnd.Assert(err != nil, "a decoder that ran out of input stays failed")
		vnd.Reach("failed")
		return
	}
	readOp(ops[vnd.Choice("second", 7)], &d)
	vnd.Reach("end")
}

// Generic reading and skipping of anything short, nested as it may be.
//
//verif:harness C13 unroll=40
func H_C13_nested() {
	n := 3
	if vnd.Thorough() {
		n = 4
	}
	b := vnd.Bytes("b", n)
	d := msgpack.NewDecoder(b)
	vnd.AllocLimit(1 << 20)
	readOp(24+vnd.Choice("op", 2), &d)
	vnd.Reach("end")
}

// Lists and maps that claim any number of members but have at most two.
//
//verif:harness C13 unroll=40
func H_C13_claims() {
	p := [4]byte{0xdc, 0xdd, 0xde, 0xdf}[vnd.Choice("format", 4)]
	var b []byte
	if p&1 == 0 {
		b = hdr(p, uint64(vnd.U16("n")), 2)
	} else {
		b = hdr(p, uint64(vnd.U32("n")), 4)
	}
	k := vnd.Choice("members", 3)
	for i := 0; i < k; i++ {
		b = append(b, [6]byte{0x07, 0xc0, 0x90, 0x80, 0xa0, 0xc3}[vnd.Choice("member", 6)])
	}
	op := 24 + vnd.Choice("op", 2)
	d := msgpack.NewDecoder(b)
	vnd.AllocLimit(1 << 20)
	_, err := readOp(op, &d)
	vnd.AllocOff()
	n := int(b[len(b)-k-1]) // the low byte of the count
	if err == nil {
		if p >= 0xde {
			n *= 2
		}
		vnd.Assert(n <= k, "more members than the input has is an error")
		vnd.Reach("ok")
	} else {
		vnd.Reach("error")
	}
}

// Deep nesting does not exhaust the stack.
//
//verif:harness C13 steps=40000000 iter=200000
func H_C13_deep() {
	n := 6000
	if !vnd.Symbolic() {
		n = 12 << 20
	}
	b := make([]byte, n)
	p := [4]byte{0x91, 0x81, 0x92, 0xdc}[vnd.Choice("format", 4)]
	for i := range b {
		b[i] = p
	}
	if p == 0x81 {
		// {0: {0: ...}}
		for i := 1; i < len(b); i += 2 {
			b[i] = 0
		}
	}
	if p == 0xdc {
		for i := 0; i+2 < len(b); i += 3 {
			b[i+1], b[i+2] = 0, 1
		}
	}
	b[n-1] = vnd.U8("last")
	vnd.StackLimit(4500)
	d := msgpack.NewDecoder(b)
	readOp(24+vnd.Choice("op", 2), &d)
	vnd.Reach("end")
}

// ---- C15 ----

// refSkip returns the position after the value at pos, or -1 when it is cut off or no value.
func refSkip(b []byte, pos, depth int) int {
	if pos >= len(b) {
		return -1
	}
	p := b[pos]
	pos++
	adv := 0   // content bytes
	count := 0 // members
	lenOf := func(k int) int {
		if len(b)-pos < k {
			return -1
		}
		v := 0
		for i := 0; i < k; i++ {
			v = v<<8 | int(b[pos+i])
		}
		pos += k
		return v
	}
	switch {
	case p <= 0x7f || p >= 0xe0 || p == 0xc0 || p == 0xc2 || p == 0xc3:
	case p <= 0x8f:
		count = 2 * int(p&15)
	case p <= 0x9f:
		count = int(p & 15)
	case p <= 0xbf:
		adv = int(p & 31)
	case p == 0xc1:
		return -1
	case p == 0xc4 || p == 0xd9:
		adv = lenOf(1)
	case p == 0xc5 || p == 0xda:
		adv = lenOf(2)
	case p == 0xc6 || p == 0xdb:
		adv = lenOf(4)
	case p >= 0xc7 && p <= 0xc9:
		adv = lenOf(1 << (p - 0xc7))
		if adv >= 0 {
			adv++
		}
	case p == 0xca:
		adv = 4
	case p == 0xcb:
		adv = 8
	case p <= 0xcf:
		adv = 1 << (p - 0xcc)
	case p <= 0xd3:
		adv = 1 << (p - 0xd0)
	case p <= 0xd8:
		adv = 1 + 1<<(p-0xd4)
	case p == 0xdc:
		count = lenOf(2)
	case p == 0xdd:
		count = lenOf(4)
	case p == 0xde:
		count = 2 * lenOf(2)
	case p == 0xdf:
		count = 2 * lenOf(4)
	}
	if adv < 0 || count < 0 || len(b)-pos < adv {
		return -1
	}
	pos += adv
	if count > 0 {
		// Bound: at most four members, or cut off right here.
		vnd.Assume(count <= 4 || pos == len(b))
		if pos == len(b) {
			return -1
		}
	}
	for i := 0; i < count; i++ {
		if depth == 0 && pos < len(b) {
			// Bound: members of members have no content of their own.
			q := b[pos]
			vnd.Assume(q <= 0x7f || q == 0xc0 || q == 0x90)
		} else if pos < len(b) {
			q := b[pos]
			vnd.Assume(q <= 0x7f || q == 0xa1 || q == 0xc1 || q == 0xd4 || q == 0x91 || q == 0x81)
		}
		pos = refSkip(b, pos, depth-1)
		if pos < 0 {
			return -1
		}
	}
	return pos
}

//verif:harness C15 unroll=60
func H_C15_skip() {
	depth := 0
	if vnd.Thorough() {
		depth = 1
	}
	b := vnd.Bytes("b", 1<<17)
	end := refSkip(b, 0, depth)
	d := msgpack.NewDecoder(b)
	err := d.Skip()
	if end < 0 {
		vnd.Assert(err != nil, "skipping what is cut off or no value is an error")
		vnd.Reach("error")
		return
	}
	vnd.Assert(err == nil, "every value can be skipped")
	if end == len(b) {
		_, err := d.IsNextNil()
		vnd.Assert(err != nil, "skipping ends after the value")
		vnd.Reach("at the end")
		return
	}
	// The next byte read is the one after the value.
	p := b[end]
	vnd.Assume(p <= 0x7f)
	v, err := d.ReadUint8()
	vnd.Assert(err == nil && v == p, "skipping ends after the value")
	vnd.Assume(end+2 == len(b))
	vnd.Assume(b[end+1] <= 0x7f)
	v, err = d.ReadUint8()
	vnd.Assert(err == nil && v == b[end+1], "skipping ends after the value")
	_, err = d.IsNextNil()
	vnd.Assert(err != nil, "skipping ends after the value")
	vnd.Reach("before more")
}
