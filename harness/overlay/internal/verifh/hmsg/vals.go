// Package hmsg holds the harnesses for MessagePack (C11 to C18).
package hmsg

import (
	"math"
	"time"

	"github.com/nanobus/iota/go/internal/vnd"
	"github.com/nanobus/iota/go/msgpack"
)

const (
	kNil = iota
	kBool
	kI8
	kI16
	kI32
	kI64
	kU8
	kU16
	kU32
	kU64
	kF32
	kF64
	kStr
	kBin
	kArr
	kMap
	kTime
	nKinds
)

// val is one value of any kind.
type val struct {
	k    int
	i    int64
	u    uint64
	b    []byte
	s    string
	t    time.Time
	null bool // for the nillable writers: absent
}

const maxLen = 1 << 20

func anyVal(k int, max int) val {
	v := val{k: k}
	switch k {
	case kBool:
		if vnd.Bool("bool") {
			v.u = 1
		}
	case kI8:
		v.i = int64(vnd.I8("i8"))
	case kI16:
		v.i = int64(vnd.I16("i16"))
	case kI32:
		v.i = int64(vnd.I32("i32"))
	case kI64:
		v.i = vnd.I64("i64")
	case kU8:
		v.u = uint64(vnd.U8("u8"))
	case kU16:
		v.u = uint64(vnd.U16("u16"))
	case kU32, kArr, kMap, kF32:
		v.u = uint64(vnd.U32("u32"))
	case kU64, kF64:
		v.u = vnd.U64("u64")
	case kStr:
		v.s = vnd.String("str", max)
	case kBin:
		v.b = vnd.Bytes("bin", max)
	case kTime:
		v.t = anyTime()
	}
	return v
}

func anyTime() time.Time {
	sec, ns := vnd.I64("sec"), vnd.U32("nsec")
	vnd.Assume(ns < 1000000000)
	return time.Unix(sec, int64(ns))
}

func (v val) write(w msgpack.Writer) {
	switch v.k {
	case kNil:
		w.WriteNil()
	case kBool:
		w.WriteBool(v.u == 1)
	case kI8:
		w.WriteInt8(int8(v.i))
	case kI16:
		w.WriteInt16(int16(v.i))
	case kI32:
		w.WriteInt32(int32(v.i))
	case kI64:
		w.WriteInt64(v.i)
	case kU8:
		w.WriteUint8(uint8(v.u))
	case kU16:
		w.WriteUint16(uint16(v.u))
	case kU32:
		w.WriteUint32(uint32(v.u))
	case kU64:
		w.WriteUint64(v.u)
	case kF32:
		w.WriteFloat32(math.Float32frombits(uint32(v.u)))
	case kF64:
		w.WriteFloat64(math.Float64frombits(v.u))
	case kStr:
		w.WriteString(v.s)
	case kBin:
		w.WriteByteArray(v.b)
	case kArr:
		w.WriteArraySize(uint32(v.u))
	case kMap:
		w.WriteMapSize(uint32(v.u))
	case kTime:
		w.WriteTime(v.t)
	}
}

// read reads a value of the same kind and compares it.
func (v val) read(d msgpack.Reader) {
	var err error
	ok := false
	switch v.k {
	case kNil:
		ok, err = d.IsNextNil()
	case kBool:
		var g bool
		g, err = d.ReadBool()
		ok = g == (v.u == 1)
	case kI8:
		var g int8
		g, err = d.ReadInt8()
		ok = int64(g) == v.i
	case kI16:
		var g int16
		g, err = d.ReadInt16()
		ok = int64(g) == v.i
	case kI32:
		var g int32
		g, err = d.ReadInt32()
		ok = int64(g) == v.i
	case kI64:
		var g int64
		g, err = d.ReadInt64()
		ok = g == v.i
	case kU8:
		var g uint8
		g, err = d.ReadUint8()
		ok = uint64(g) == v.u
	case kU16:
		var g uint16
		g, err = d.ReadUint16()
		ok = uint64(g) == v.u
	case kU32:
		var g uint32
		g, err = d.ReadUint32()
		ok = uint64(g) == v.u
	case kU64:
		var g uint64
		g, err = d.ReadUint64()
		ok = g == v.u
	case kF32:
		var g float32
		g, err = d.ReadFloat32()
		ok = uint64(math.Float32bits(g)) == v.u
	case kF64:
		var g float64
		g, err = d.ReadFloat64()
		ok = math.Float64bits(g) == v.u
	case kStr:
		var g string
		g, err = d.ReadString()
		vnd.Assert(err == nil, "reading what was written succeeds")
		vnd.EqStr(g, v.s, "the string comes back")
		return
	case kBin:
		var g []byte
		g, err = d.ReadByteArray()
		vnd.Assert(err == nil, "reading what was written succeeds")
		vnd.EqBytes(g, v.b, "the byte string comes back")
		return
	case kArr:
		var g uint32
		g, err = d.ReadArraySize()
		ok = uint64(g) == v.u
	case kMap:
		var g uint32
		g, err = d.ReadMapSize()
		ok = uint64(g) == v.u
	case kTime:
		var g time.Time
		g, err = d.ReadTime()
		ok = g.Unix() == v.t.Unix() && g.Nanosecond() == v.t.Nanosecond()
	}
	vnd.Assert(err == nil, "reading what was written succeeds")
	vnd.Assert(ok, "the value comes back")
}

// writeOpt writes the value (or its absence) with the nillable writer of its kind.
func (v val) writeOpt(w msgpack.Writer) {
	switch v.k {
	case kBool:
		x := v.u == 1
		p := &x
		if v.null {
			p = nil
		}
		w.WriteNillableBool(p)
	case kI8:
		x := int8(v.i)
		p := &x
		if v.null {
			p = nil
		}
		w.WriteNillableInt8(p)
	case kI16:
		x := int16(v.i)
		p := &x
		if v.null {
			p = nil
		}
		w.WriteNillableInt16(p)
	case kI32:
		x := int32(v.i)
		p := &x
		if v.null {
			p = nil
		}
		w.WriteNillableInt32(p)
	case kI64:
		x := v.i
		p := &x
		if v.null {
			p = nil
		}
		w.WriteNillableInt64(p)
	case kU8:
		x := uint8(v.u)
		p := &x
		if v.null {
			p = nil
		}
		w.WriteNillableUint8(p)
	case kU16:
		x := uint16(v.u)
		p := &x
		if v.null {
			p = nil
		}
		w.WriteNillableUint16(p)
	case kU32:
		x := uint32(v.u)
		p := &x
		if v.null {
			p = nil
		}
		w.WriteNillableUint32(p)
	case kU64:
		x := v.u
		p := &x
		if v.null {
			p = nil
		}
		w.WriteNillableUint64(p)
	case kF32:
		x := math.Float32frombits(uint32(v.u))
		p := &x
		if v.null {
			p = nil
		}
		w.WriteNillableFloat32(p)
	case kF64:
		x := math.Float64frombits(v.u)
		p := &x
		if v.null {
			p = nil
		}
		w.WriteNillableFloat64(p)
	case kStr:
		x := v.s
		p := &x
		if v.null {
			p = nil
		}
		w.WriteNillableString(p)
	case kBin:
		x := v.b
		if x == nil {
			x = []byte{}
		}
		if v.null {
			x = nil
		}
		w.WriteNillableByteArray(x)
	case kTime:
		x := v.t
		p := &x
		if v.null {
			p = nil
		}
		w.WriteNillableTime(p)
	}
}

var optKinds = [14]int{kBool, kI8, kI16, kI32, kI64, kU8, kU16, kU32, kU64, kF32, kF64, kStr, kBin, kTime}

func absent(got, want bool, err error) bool {
	vnd.Assert(err == nil, "reading what was written succeeds")
	vnd.Assert(got == want, "absent exactly when absent was written")
	return want
}

func (v val) readOpt(d msgpack.Reader) {
	ok := true
	switch v.k {
	case kBool:
		g, err := d.ReadNillableBool()
		ok = absent(g == nil, v.null, err) || *g == (v.u == 1)
	case kI8:
		g, err := d.ReadNillableInt8()
		ok = absent(g == nil, v.null, err) || int64(*g) == v.i
	case kI16:
		g, err := d.ReadNillableInt16()
		ok = absent(g == nil, v.null, err) || int64(*g) == v.i
	case kI32:
		g, err := d.ReadNillableInt32()
		ok = absent(g == nil, v.null, err) || int64(*g) == v.i
	case kI64:
		g, err := d.ReadNillableInt64()
		ok = absent(g == nil, v.null, err) || *g == v.i
	case kU8:
		g, err := d.ReadNillableUint8()
		ok = absent(g == nil, v.null, err) || uint64(*g) == v.u
	case kU16:
		g, err := d.ReadNillableUint16()
		ok = absent(g == nil, v.null, err) || uint64(*g) == v.u
	case kU32:
		g, err := d.ReadNillableUint32()
		ok = absent(g == nil, v.null, err) || uint64(*g) == v.u
	case kU64:
		g, err := d.ReadNillableUint64()
		ok = absent(g == nil, v.null, err) || *g == v.u
	case kF32:
		g, err := d.ReadNillableFloat32()
		ok = absent(g == nil, v.null, err) || uint64(math.Float32bits(*g)) == v.u
	case kF64:
		g, err := d.ReadNillableFloat64()
		ok = absent(g == nil, v.null, err) || math.Float64bits(*g) == v.u
	case kStr:
		g, err := d.ReadNillableString()
		if !absent(g == nil, v.null, err) {
			vnd.EqStr(*g, v.s, "the string comes back")
		}
	case kBin:
		g, err := d.ReadNillableByteArray()
		if !absent(g == nil, v.null, err) {
			vnd.EqBytes(g, v.b, "the byte string comes back")
		}
	case kTime:
		g, err := d.ReadNillableTime()
		ok = absent(g == nil, v.null, err) || g.Unix() == v.t.Unix() && g.Nanosecond() == v.t.Nanosecond()
	}
	vnd.Assert(ok, "the value comes back")
}

// encode sizes and writes with the given function; the buffer must be filled exactly. The result
// has the byte of "true" behind the encoding.
func encode(write func(msgpack.Writer)) []byte {
	s := msgpack.NewSizer()
	write(&s)
	vnd.Assert(s.Err() == nil, "sizing succeeds")
	n := int(s.Len())
	buf := vnd.BytesN("buffer", n+1)
	buf[n] = 0xC3
	e := msgpack.NewEncoder(buf[:n:n])
	write(&e)
	vnd.Assert(e.Err() == nil, "the encoding fits the computed size")
	e.WriteNil()
	vnd.Assert(e.Err() != nil, "the encoding fills the computed size")
	vnd.Assert(buf[n] == 0xC3, "the encoding stays within the buffer")
	return buf
}

// atEnd checks that everything but the byte of "true" was consumed.
func atEnd(d *msgpack.Decoder) {
	vnd.Assert(d.Err() == nil, "the decoder reports no error")
	ok, err := d.ReadBool()
	vnd.Assert(err == nil && ok, "exactly the bytes written are consumed")
	_, err = d.IsNextNil()
	vnd.Assert(err != nil, "nothing is left")
}
