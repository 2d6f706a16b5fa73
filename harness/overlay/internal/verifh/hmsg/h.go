package hmsg

import (
	"math"
	"time"

	"github.com/nanobus/iota/go/internal/vnd"
	"github.com/nanobus/iota/go/msgpack"
)

// One value of every kind.
//
//verif:harness C11
func H_C11_value() {
	v := anyVal(vnd.Choice("kind", kTime), maxLen)
	b := encode(v.write)
	d := msgpack.NewDecoder(b)
	v.read(&d)
	atEnd(&d)
	vnd.Reach("end")
}

// Sequences of values.
//
//verif:harness C11
func H_C11_sequence() {
	n := 2
	if vnd.Thorough() {
		n = 3
	}
	vs := make([]val, n)
	for i := range vs {
		vs[i] = seqVal()
	}
	b := encode(func(w msgpack.Writer) {
		for _, v := range vs {
			v.write(w)
		}
	})
	d := msgpack.NewDecoder(b)
	for _, v := range vs {
		v.read(&d)
	}
	atEnd(&d)
	vnd.Reach("end")
}

// seqVal is a value for sequences; lengths are fixed so that positions are known.
func seqVal() val {
	v := val{k: [9]int{kNil, kBool, kI64, kU64, kF32, kF64, kStr, kBin, kMap}[vnd.Choice("kind", 9)]}
	switch v.k {
	case kStr:
		v.s = string(vnd.BytesN("str", [2]int{0, 40}[vnd.Choice("len", 2)]))
		return v
	case kBin:
		v.b = vnd.BytesN("bin", [2]int{1, 300}[vnd.Choice("len", 2)])
		return v
	}
	return anyVal(v.k, 0)
}

// The one-value helpers.
//
//verif:harness C11
func H_C11_codec() {
	var b []byte
	var err error
	v := anyVal([12]int{kBool, kI8, kI16, kI32, kI64, kU8, kU16, kU32, kU64, kF32, kF64, kStr}[vnd.Choice("kind", 12)], maxLen)
	switch v.k {
	case kBool:
		b, err = msgpack.BoolToBytes(v.u == 1)
	case kI8:
		b, err = msgpack.I8ToBytes(int8(v.i))
	case kI16:
		b, err = msgpack.I16ToBytes(int16(v.i))
	case kI32:
		b, err = msgpack.I32ToBytes(int32(v.i))
	case kI64:
		b, err = msgpack.I64ToBytes(v.i)
	case kU8:
		b, err = msgpack.U8ToBytes(uint8(v.u))
	case kU16:
		b, err = msgpack.U16ToBytes(uint16(v.u))
	case kU32:
		b, err = msgpack.U32ToBytes(uint32(v.u))
	case kU64:
		b, err = msgpack.U64ToBytes(v.u)
	case kF32:
		b, err = msgpack.F32ToBytes(math.Float32frombits(uint32(v.u)))
	case kF64:
		b, err = msgpack.F64ToBytes(math.Float64frombits(v.u))
	case kStr:
		b, err = msgpack.StringToBytes(v.s)
	}
	vnd.Assert(err == nil, "encoding succeeds")
	d := msgpack.NewDecoder(b)
	v.read(&d)
	vnd.Assert(d.Err() == nil, "the decoder reports no error")
	_, err = d.IsNextNil()
	vnd.Assert(err != nil, "nothing is left")
	vnd.Reach("end")
}

//verif:harness C11
func H_C11_codec_bytes() {
	v := anyVal(kBin, maxLen)
	b, err := msgpack.BytesToBytes(v.b)
	vnd.Assert(err == nil, "encoding succeeds")
	d := msgpack.NewDecoder(b)
	v.read(&d)
	_, err = d.IsNextNil()
	vnd.Assert(err != nil, "nothing is left")
	vnd.Reach("end")
}

// ---- C12 ----

//verif:harness C12
func H_C12_value() {
	v := anyVal(vnd.Choice("kind", nKinds), maxLen)
	encode(v.write)
	vnd.Reach("end")
}

//verif:harness C12
func H_C12_nillable() {
	v := anyVal(optKinds[vnd.Choice("kind", len(optKinds))], maxLen)
	v.null = vnd.Bool("absent")
	encode(v.writeOpt)
	vnd.Reach("end")
}

// Two writes of any kinds and any lengths.
//
//verif:harness C12
func H_C12_sequence() {
	v := anyVal([5]int{kI64, kU64, kStr, kBin, kArr}[vnd.Choice("kind", 5)], maxLen)
	w := anyVal([5]int{kI64, kU64, kStr, kBin, kMap}[vnd.Choice("kind", 5)], maxLen)
	encode(func(x msgpack.Writer) { v.write(x); w.write(x) })
	vnd.Reach("end")
}

// Generic values.
//
//verif:harness C12 unroll=60
func H_C12_any() {
	x := anyValue(maxLen)
	encode(func(w msgpack.Writer) { w.WriteAny(x) })
	vnd.Reach("end")
}

// ---- C16 ----

//verif:harness C16
func H_C16_nillable() {
	v := anyVal(optKinds[vnd.Choice("kind", len(optKinds))], maxLen)
	v.null = vnd.Bool("absent")
	b := encode(v.writeOpt)
	d := msgpack.NewDecoder(b)
	v.readOpt(&d)
	atEnd(&d)
	vnd.Reach("end")
}

// A generic value comes back and is one value on the wire.
//
//verif:harness C16 unroll=60
func H_C16_any() {
	x := anyValue(maxLen)
	b := encode(func(w msgpack.Writer) { w.WriteAny(x) })
	d := msgpack.NewDecoder(b)
	y, err := d.ReadAny()
	vnd.Assert(err == nil, "a generic value can be read back")
	same(x, y)
	atEnd(&d)
	d = msgpack.NewDecoder(b)
	vnd.Assert(d.Skip() == nil, "a generic value can be skipped")
	atEnd(&d)
	vnd.Reach("end")
}

//verif:harness C16
func H_C16_anytobytes() {
	x := scalar(maxLen)
	b, err := msgpack.AnyToBytes(x)
	vnd.Assert(err == nil, "encoding succeeds")
	d := msgpack.NewDecoder(b)
	y, err := d.ReadAny()
	vnd.Assert(err == nil, "a generic value can be read back")
	same(x, y)
	_, err = d.IsNextNil()
	vnd.Assert(err != nil, "nothing is left")
	vnd.Reach("end")
}

func scalar(max int) any {
	switch vnd.Choice("scalar", 17) {
	case 0:
		return nil
	case 1:
		return vnd.Bool("x")
	case 2:
		return vnd.Int("x")
	case 3:
		return vnd.I8("x")
	case 4:
		return vnd.I16("x")
	case 5:
		return vnd.I32("x")
	case 6:
		return vnd.I64("x")
	case 7:
		return uint(vnd.U64("x"))
	case 8:
		return vnd.U8("x")
	case 9:
		return vnd.U16("x")
	case 10:
		return vnd.U32("x")
	case 11:
		return vnd.U64("x")
	case 12:
		return vnd.F32("x")
	case 13:
		return vnd.F64("x")
	case 14:
		return vnd.String("x", max)
	case 15:
		return vnd.Bytes("x", max)
	}
	return anyTime()
}

// item is an element of a generic list or map.
func item() any {
	switch vnd.Choice("item", 8) {
	case 0:
		return nil
	case 1:
		return vnd.I64("x")
	case 2:
		return vnd.U64("x")
	case 3:
		return vnd.F64("x")
	case 4:
		return string(vnd.BytesN("x", 40))
	case 5:
		return vnd.BytesN("x", 2)
	case 6:
		return anyTime()
	}
	return []any{vnd.Bool("x"), map[string]any{"k": vnd.I16("x")}}
}

func anyValue(max int) any {
	k := vnd.Choice("value", 12)
	if k == 0 {
		return scalar(max)
	}
	if k == 1 {
		n := vnd.Choice("n", 3)
		l := make([]any, n)
		for i := range l {
			l[i] = item()
		}
		return l
	}
	if k == 2 {
		// A list of any length, of one byte each.
		n := [4]int{15, 16, 17, 300}[vnd.Choice("n", 4)]
		l := make([]any, n)
		for i := range l {
			l[i] = i&1 == 0
		}
		return l
	}
	if k == 3 {
		m := map[string]any{}
		n := vnd.Choice("n", 3)
		for i := 0; i < n; i++ {
			m[string(rune('a'+i))] = item()
		}
		return m
	}
	if k == 4 {
		m := map[any]any{}
		if vnd.Bool("one") {
			m[hashable()] = item()
		}
		return m
	}
	n := vnd.Choice("n", 3)
	if k == 5 {
		m := map[string]string{}
		for i := 0; i < n; i++ {
			m[string(rune('a'+i))] = string(vnd.BytesN("x", 33))
		}
		return m
	}
	if k == 6 {
		switch vnd.Choice("map", 10) {
		case 0:
			return map[int]any{vnd.Int("k"): item()}
		case 1:
			return map[int8]any{vnd.I8("k"): item()}
		case 2:
			return map[int16]any{vnd.I16("k"): item()}
		case 3:
			return map[int32]any{vnd.I32("k"): item()}
		case 4:
			return map[int64]any{vnd.I64("k"): item()}
		case 5:
			return map[uint]any{uint(vnd.U64("k")): item()}
		case 6:
			return map[uint8]any{vnd.U8("k"): item()}
		case 7:
			return map[uint16]any{vnd.U16("k"): item()}
		case 8:
			return map[uint32]any{vnd.U32("k"): item()}
		}
		return map[uint64]any{vnd.U64("k"): item()}
	}
	switch vnd.Choice("list", 12) {
	case 0:
		l := make([]string, n)
		for i := range l {
			l[i] = string(vnd.BytesN("x", 32))
		}
		return l
	case 1:
		l := make([]bool, n)
		for i := range l {
			l[i] = vnd.Bool("x")
		}
		return l
	case 2:
		l := make([]int, n)
		for i := range l {
			l[i] = vnd.Int("x")
		}
		return l
	case 3:
		l := make([]int8, n)
		for i := range l {
			l[i] = vnd.I8("x")
		}
		return l
	case 4:
		l := make([]int16, n)
		for i := range l {
			l[i] = vnd.I16("x")
		}
		return l
	case 5:
		l := make([]int32, n)
		for i := range l {
			l[i] = vnd.I32("x")
		}
		return l
	case 6:
		l := make([]int64, n)
		for i := range l {
			l[i] = vnd.I64("x")
		}
		return l
	case 7:
		l := make([]uint, n)
		for i := range l {
			l[i] = uint(vnd.U64("x"))
		}
		return l
	case 8:
		l := make([]uint16, n)
		for i := range l {
			l[i] = vnd.U16("x")
		}
		return l
	case 9:
		l := make([]uint32, n)
		for i := range l {
			l[i] = vnd.U32("x")
		}
		return l
	case 10:
		l := make([]uint64, n)
		for i := range l {
			l[i] = vnd.U64("x")
		}
		return l
	}
	l := make([]time.Time, n)
	for i := range l {
		l[i] = anyTime()
	}
	return l
}

func hashable() any {
	switch vnd.Choice("key", 4) {
	case 0:
		return string(vnd.BytesN("key", 3))
	case 1:
		return vnd.I64("key")
	case 2:
		return vnd.U16("key")
	}
	return vnd.Bool("key")
}

// num normalises an integer: its sign and its bits in 64-bit two's complement.
func num(x any) (neg bool, u uint64, ok bool) {
	switch v := x.(type) {
	case int:
		return v < 0, uint64(v), true
	case int8:
		return v < 0, uint64(int64(v)), true
	case int16:
		return v < 0, uint64(int64(v)), true
	case int32:
		return v < 0, uint64(int64(v)), true
	case int64:
		return v < 0, uint64(v), true
	case uint:
		return false, uint64(v), true
	case uint8:
		return false, uint64(v), true
	case uint16:
		return false, uint64(v), true
	case uint32:
		return false, uint64(v), true
	case uint64:
		return false, v, true
	}
	return false, 0, false
}

// list views any list as generic values.
func list(x any) ([]any, bool) {
	var r []any
	switch v := x.(type) {
	case []any:
		return v, true
	case []string:
		for _, e := range v {
			r = append(r, e)
		}
	case []bool:
		for _, e := range v {
			r = append(r, e)
		}
	case []int:
		for _, e := range v {
			r = append(r, e)
		}
	case []int8:
		for _, e := range v {
			r = append(r, e)
		}
	case []int16:
		for _, e := range v {
			r = append(r, e)
		}
	case []int32:
		for _, e := range v {
			r = append(r, e)
		}
	case []int64:
		for _, e := range v {
			r = append(r, e)
		}
	case []uint:
		for _, e := range v {
			r = append(r, e)
		}
	case []uint16:
		for _, e := range v {
			r = append(r, e)
		}
	case []uint32:
		for _, e := range v {
			r = append(r, e)
		}
	case []uint64:
		for _, e := range v {
			r = append(r, e)
		}
	case []time.Time:
		for _, e := range v {
			r = append(r, e)
		}
	default:
		return nil, false
	}
	return r, true
}

// pairs views any map as generic keys and values.
func pairs(x any) (ks, vs []any, ok bool) {
	add := func(k, v any) { ks, vs = append(ks, k), append(vs, v) }
	switch m := x.(type) {
	case map[any]any:
		for k, v := range m {
			add(k, v)
		}
	case map[string]any:
		for k, v := range m {
			add(k, v)
		}
	case map[string]string:
		for k, v := range m {
			add(k, v)
		}
	case map[int]any:
		for k, v := range m {
			add(k, v)
		}
	case map[int8]any:
		for k, v := range m {
			add(k, v)
		}
	case map[int16]any:
		for k, v := range m {
			add(k, v)
		}
	case map[int32]any:
		for k, v := range m {
			add(k, v)
		}
	case map[int64]any:
		for k, v := range m {
			add(k, v)
		}
	case map[uint]any:
		for k, v := range m {
			add(k, v)
		}
	case map[uint8]any:
		for k, v := range m {
			add(k, v)
		}
	case map[uint16]any:
		for k, v := range m {
			add(k, v)
		}
	case map[uint32]any:
		for k, v := range m {
			add(k, v)
		}
	case map[uint64]any:
		for k, v := range m {
			add(k, v)
		}
	default:
		return nil, nil, false
	}
	return ks, vs, true
}

// same asserts that a value read back equals the one written.
func same(w, g any) {
	if w == nil {
		vnd.Assert(g == nil, "nil comes back")
		return
	}
	if neg, u, ok := num(w); ok {
		n2, u2, ok2 := num(g)
		vnd.Assert(ok2, "an integer comes back")
		vnd.Assert(neg == n2 && u == u2, "the integer comes back")
		return
	}
	if l, ok := list(w); ok {
		r, ok2 := g.([]any)
		vnd.Assert(ok2, "a list comes back")
		vnd.Assert(len(l) == len(r), "the list's length comes back")
		for i := range l {
			same(l[i], r[i])
		}
		return
	}
	if ks, vs, ok := pairs(w); ok {
		r, ok2 := g.(map[any]any)
		vnd.Assert(ok2, "a map comes back")
		vnd.Assert(len(ks) == len(r), "the map's length comes back")
		for i := range ks {
			hit := false
			for k, v := range r {
				if sameKey(ks[i], k) {
					hit = true
					same(vs[i], v)
				}
			}
			vnd.Assert(hit, "the map's keys come back")
		}
		return
	}
	switch v := w.(type) {
	case bool:
		r, ok := g.(bool)
		vnd.Assert(ok && r == v, "the boolean comes back")
	case float32:
		r, ok := g.(float32)
		vnd.Assert(ok && math.Float32bits(r) == math.Float32bits(v), "the float comes back")
	case float64:
		r, ok := g.(float64)
		vnd.Assert(ok && math.Float64bits(r) == math.Float64bits(v), "the float comes back")
	case string:
		r, ok := g.(string)
		vnd.Assert(ok, "a string comes back")
		vnd.EqStr(r, v, "the string comes back")
	case []byte:
		r, ok := g.([]byte)
		vnd.Assert(ok, "a byte string comes back")
		vnd.EqBytes(r, v, "the byte string comes back")
	case time.Time:
		r, ok := g.(time.Time)
		vnd.Assert(ok, "a time comes back")
		vnd.Assert(r.Unix() == v.Unix() && r.Nanosecond() == v.Nanosecond(), "the time comes back")
	default:
		vnd.Assert(false, "harness: unexpected type")
	}
}

func sameKey(w, g any) bool {
	if neg, u, ok := num(w); ok {
		n2, u2, ok2 := num(g)
		return ok2 && neg == n2 && u == u2
	}
	return w == g
}
