package hmsg

import (
	"math"
	"time"

	"github.com/nanobus/iota/go/internal/vnd"
	"github.com/nanobus/iota/go/msgpack"
)

// ---- C17: the encoding of each value as the specification defines it ----

func be(v uint64, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(v >> (8 * uint(n-1-i)))
	}
	return b
}

func hdr(p byte, v uint64, n int) []byte { return append([]byte{p}, be(v, n)...) }

func specUint(v uint64) []byte {
	switch {
	case v <= 127:
		return []byte{byte(v)}
	case v <= 0xff:
		return hdr(0xcc, v, 1)
	case v <= 0xffff:
		return hdr(0xcd, v, 2)
	case v <= 0xffffffff:
		return hdr(0xce, v, 4)
	}
	return hdr(0xcf, v, 8)
}

func specInt(v int64) []byte {
	switch {
	case v >= -32 && v <= 127:
		return []byte{byte(v)}
	case v >= -128 && v <= 127:
		return hdr(0xd0, uint64(v), 1)
	case v >= -32768 && v <= 32767:
		return hdr(0xd1, uint64(v), 2)
	case v >= -2147483648 && v <= 2147483647:
		return hdr(0xd2, uint64(v), 4)
	}
	return hdr(0xd3, uint64(v), 8)
}

func specLen(fix byte, fixMax int, p8, p16, p32 byte, n int) []byte {
	switch {
	case n <= fixMax:
		return []byte{fix | byte(n)}
	case p8 != 0 && n <= 0xff:
		return hdr(p8, uint64(n), 1)
	case n <= 0xffff:
		return hdr(p16, uint64(n), 2)
	}
	return hdr(p32, uint64(n), 4)
}

func specTime(t time.Time) []byte {
	sec, ns := t.Unix(), t.Nanosecond()
	if sec >= 0 && sec < 1<<32 && ns == 0 {
		return append([]byte{0xd6, 0xff}, be(uint64(sec), 4)...)
	}
	if sec >= 0 && sec < 1<<34 {
		return append([]byte{0xd7, 0xff}, be(uint64(ns)<<34|uint64(sec), 8)...)
	}
	return append(append([]byte{0xc7, 12, 0xff}, be(uint64(ns), 4)...), be(uint64(sec), 8)...)
}

// spec returns the specification's encoding of a value, without the content of strings.
func (v val) spec() []byte {
	switch v.k {
	case kNil:
		return []byte{0xc0}
	case kBool:
		return []byte{0xc2 + byte(v.u)}
	case kI8, kI16, kI32, kI64:
		return specInt(v.i)
	case kU8, kU16, kU32, kU64:
		return specUint(v.u)
	case kF32:
		return hdr(0xca, v.u, 4)
	case kF64:
		return hdr(0xcb, v.u, 8)
	case kStr:
		return specLen(0xa0, 31, 0xd9, 0xda, 0xdb, len(v.s))
	case kBin:
		return specLen(0, -1, 0xc4, 0xc5, 0xc6, len(v.b))
	case kArr:
		return specLen(0x90, 15, 0, 0xdc, 0xdd, int(v.u))
	case kMap:
		return specLen(0x80, 15, 0, 0xde, 0xdf, int(v.u))
	}
	return specTime(v.t)
}

func (v val) content() []byte {
	if v.k == kStr {
		return []byte(v.s)
	}
	return v.b
}

//verif:harness C17
func H_C17_output() {
	v := anyVal(vnd.Choice("kind", kTime), maxLen)
	b := encode(v.write)
	s, c := v.spec(), v.content()
	vnd.Assert(len(b)-1 == len(s)+len(c), "the encoding has the specification's length")
	vnd.EqBytes(b[:len(s)], s, "the encoding is the specification's")
	vnd.EqBytes(b[len(s):len(b)-1], c, "the content follows")
	vnd.Reach("end")
}

// The specification's encoding is accepted for the value's type. A positive integer is written
// by other encoders in an unsigned format, whatever its declared type.
//
//verif:harness C17
func H_C17_accept() {
	v := anyVal(vnd.Choice("kind", kTime), maxLen)
	s := v.spec()
	if v.k >= kI8 && v.k <= kI64 && v.i >= 0 && vnd.Bool("unsigned") {
		s = specUint(uint64(v.i))
	}
	b := append(append(append([]byte{}, s...), v.content()...), 0xc3)
	d := msgpack.NewDecoder(b)
	v.read(&d)
	atEnd(&d)
	d = msgpack.NewDecoder(b)
	if v.k != kArr && v.k != kMap {
		vnd.Assert(d.Skip() == nil, "the encoding can be skipped")
		atEnd(&d)
	}
	vnd.Reach("end")
}

// A 32-bit float is a value of type 64-bit float, too.
//
//verif:harness C17
func H_C17_float() {
	bits := vnd.U32("bits")
	f := math.Float32frombits(bits)
	vnd.Assume(f == f)
	b := append(hdr(0xca, uint64(bits), 4), 0xc3)
	d := msgpack.NewDecoder(b)
	g, err := d.ReadFloat64()
	vnd.Assert(err == nil, "a 32-bit float is accepted as a 64-bit float")
	vnd.Assert(g == float64(f), "with the same value")
	atEnd(&d)
	vnd.Reach("end")
}

// ---- C18 ----

//verif:harness C18
func H_C18_roundtrip() {
	v := val{k: kTime, t: anyTime()}
	opt := vnd.Bool("optional")
	w := v.write
	if opt {
		v.null = vnd.Bool("absent")
		w = v.writeOpt
	}
	b := encode(w)
	d := msgpack.NewDecoder(b)
	if opt {
		v.readOpt(&d)
	} else {
		v.read(&d)
	}
	atEnd(&d)
	if !v.null {
		vnd.EqBytes(b[:len(b)-1], v.spec(), "the layout is the specification's timestamp")
	}
	vnd.Reach("end")
}

// All three layouts of the specification are read, with any prefix form and content.
//
//verif:harness C18
func H_C18_layouts() {
	var b []byte
	var sec int64
	var ns uint32
	switch vnd.Choice("layout", 6) {
	case 0, 3:
		sec = int64(vnd.U32("sec"))
		b = append([]byte{0xd6, 0xff}, be(uint64(sec), 4)...)
	case 1, 4:
		x := vnd.U64("x")
		ns, sec = uint32(x>>34), int64(x&(1<<34-1))
		b = append([]byte{0xd7, 0xff}, be(x, 8)...)
	case 2, 5:
		ns, sec = vnd.U32("nsec"), vnd.I64("sec")
		b = append(append([]byte{0xc7, 12, 0xff}, be(uint64(ns), 4)...), be(uint64(sec), 8)...)
	}
	if vnd.Bool("general") {
		// The general extension forms are allowed for any length.
		n := byte(len(b) - 2)
		if n != 4 && n != 8 {
			n = 12
		}
		b = append([]byte{0xc7, n}, b[len(b)-int(n)-1:]...)
	}
	b = append(b, 0xc3)
	d := msgpack.NewDecoder(b)
	t, err := d.ReadTime()
	if ns > 999999999 {
		vnd.Assert(err != nil, "more than a second of nanoseconds is malformed")
		vnd.Reach("malformed")
		return
	}
	vnd.Assert(err == nil, "a timestamp is accepted")
	vnd.Assert(t.Unix() == sec && t.Nanosecond() == int(ns), "the instant is the stated one")
	atEnd(&d)
	vnd.Reach("ok")
}

// Extensions that are no timestamps are refused.
//
//verif:harness C18
func H_C18_malformed() {
	b := vnd.Bytes("b", 300)
	vnd.Assume(len(b) > 0)
	n, off := -1, 0
	switch b[0] {
	case 0xd4, 0xd5, 0xd6, 0xd7, 0xd8:
		n, off = 1<<(b[0]-0xd4), 1
	case 0xc7:
		if len(b) > 1 {
			n, off = int(b[1]), 2
		}
	case 0xc8:
		if len(b) > 2 {
			n, off = int(b[1])<<8|int(b[2]), 3
		}
	case 0xc9:
		if len(b) > 4 {
			n, off = int(b[1])<<24|int(b[2])<<16|int(b[3])<<8|int(b[4]), 5
		}
	default:
		// Strings hold a textual time; the text is read by package time.
		vnd.Assume(b[0]&0xe0 != 0xa0 && b[0]&0xf0 != 0x90 && b[0] != 0xd9 && b[0] != 0xda && b[0] != 0xdb && b[0] != 0xdc && b[0] != 0xdd)
	}
	d := msgpack.NewDecoder(b)
	t, err := d.ReadTime()
	good := n >= 0 && len(b) >= off+1+n && (n == 4 || n == 8 || n == 12) && (b[off] == 0xff || b[off] == 13)
	if err == nil {
		vnd.Assert(good, "only complete timestamp extensions are accepted")
		vnd.Assert(t.Nanosecond() >= 0, "a time")
		vnd.Reach("accepted")
	} else {
		vnd.Reach("refused")
	}
}

// ---- C14 ----

// refInt is the integer encoded at the start of b: its sign, its 64 bits, and whether there is one.
func refInt(b []byte) (neg bool, u uint64, ok bool) {
	if len(b) == 0 {
		return
	}
	p := b[0]
	if p <= 0x7f {
		return false, uint64(p), true
	}
	if p >= 0xe0 {
		return true, uint64(int64(int8(p))), true
	}
	var n int
	switch p {
	case 0xcc, 0xd0:
		n = 1
	case 0xcd, 0xd1:
		n = 2
	case 0xce, 0xd2:
		n = 4
	case 0xcf, 0xd3:
		n = 8
	default:
		return
	}
	if len(b) < 1+n {
		return
	}
	for i := 0; i < n; i++ {
		u = u<<8 | uint64(b[1+i])
	}
	if p >= 0xd0 {
		sh := uint(64 - 8*n)
		u = uint64(int64(u<<sh) >> sh)
		neg = u>>63 == 1
	}
	return neg, u, true
}

//verif:harness C14
func H_C14_any() {
	b := vnd.Bytes("b", 12)
	neg, u, ok := refInt(b)
	bits := uint([4]int{8, 16, 32, 64}[vnd.Choice("width", 4)])
	signed := vnd.Choice("signed", 2) == 1
	d := msgpack.NewDecoder(b)
	var g uint64
	var err error
	if signed {
		var x int64
		switch bits {
		case 8:
			var v int8
			v, err = d.ReadInt8()
			x = int64(v)
		case 16:
			var v int16
			v, err = d.ReadInt16()
			x = int64(v)
		case 32:
			var v int32
			v, err = d.ReadInt32()
			x = int64(v)
		case 64:
			x, err = d.ReadInt64()
		}
		g = uint64(x)
	} else {
		switch bits {
		case 8:
			var v uint8
			v, err = d.ReadUint8()
			g = uint64(v)
		case 16:
			var v uint16
			v, err = d.ReadUint16()
			g = uint64(v)
		case 32:
			var v uint32
			v, err = d.ReadUint32()
			g = uint64(v)
		case 64:
			g, err = d.ReadUint64()
		}
	}
	fits := ok
	if ok {
		if signed {
			if neg {
				fits = int64(u) >= -1<<(bits-1)
			} else {
				fits = u < 1<<(bits-1)
			}
		} else {
			fits = !neg && (bits == 64 || u < 1<<bits)
		}
	}
	if err == nil {
		vnd.Assert(ok, "only integers are accepted")
		vnd.Assert(fits, "a number that does not fit is an error")
		vnd.Assert(g == u, "the number is exact")
		vnd.Reach("exact")
		return
	}
	vnd.Assert(!fits, "a number that fits is accepted")
	vnd.Reach("error")
}

// The optional readers agree with the plain ones.
//
//verif:harness C14
func H_C14_nillable() {
	b := vnd.Bytes("b", 12)
	if len(b) > 0 && b[0] == 0xc0 {
		return
	}
	d, e := msgpack.NewDecoder(b), msgpack.NewDecoder(b)
	agree := func(p bool, eq bool, e1, e2 error) {
		vnd.Assert((e1 == nil) == (e2 == nil), "both accept or refuse")
		if e1 == nil {
			vnd.Assert(p && eq, "both give the same number")
			vnd.Reach("same")
		} else {
			vnd.Assert(!p, "nothing comes with an error")
			vnd.Reach("error")
		}
	}
	switch vnd.Choice("type", 8) {
	case 0:
		x, e1 := d.ReadNillableInt8()
		y, e2 := e.ReadInt8()
		agree(x != nil, x != nil && *x == y, e1, e2)
	case 1:
		x, e1 := d.ReadNillableInt16()
		y, e2 := e.ReadInt16()
		agree(x != nil, x != nil && *x == y, e1, e2)
	case 2:
		x, e1 := d.ReadNillableInt32()
		y, e2 := e.ReadInt32()
		agree(x != nil, x != nil && *x == y, e1, e2)
	case 3:
		x, e1 := d.ReadNillableInt64()
		y, e2 := e.ReadInt64()
		agree(x != nil, x != nil && *x == y, e1, e2)
	case 4:
		x, e1 := d.ReadNillableUint8()
		y, e2 := e.ReadUint8()
		agree(x != nil, x != nil && *x == y, e1, e2)
	case 5:
		x, e1 := d.ReadNillableUint16()
		y, e2 := e.ReadUint16()
		agree(x != nil, x != nil && *x == y, e1, e2)
	case 6:
		x, e1 := d.ReadNillableUint32()
		y, e2 := e.ReadUint32()
		agree(x != nil, x != nil && *x == y, e1, e2)
	case 7:
		x, e1 := d.ReadNillableUint64()
		y, e2 := e.ReadUint64()
		agree(x != nil, x != nil && *x == y, e1, e2)
	}
}
