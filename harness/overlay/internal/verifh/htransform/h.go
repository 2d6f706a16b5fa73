// Package htransform holds the harnesses for typed payload transforms (C19).
package htransform

import (
	"math"
	"time"

	"github.com/nanobus/iota/go/internal/vnd"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/msgpack"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/transform"
)

// item is a message with a scalar, a string, an optional, a list and a map.
type item struct {
	n    int64
	name string
	opt  *uint32
	list []string
	m    map[string]int32
}

func (t *item) Encode(w msgpack.Writer) error {
	w.WriteMapSize(5)
	w.WriteString("n")
	w.WriteInt64(t.n)
	w.WriteString("name")
	w.WriteString(t.name)
	w.WriteString("opt")
	w.WriteNillableUint32(t.opt)
	w.WriteString("list")
	w.WriteArraySize(uint32(len(t.list)))
	for _, s := range t.list {
		w.WriteString(s)
	}
	w.WriteString("m")
	w.WriteMapSize(uint32(len(t.m)))
	for k, v := range t.m {
		w.WriteString(k)
		w.WriteInt32(v)
	}
	return w.Err()
}

func (t *item) Decode(r msgpack.Reader) error {
	n, err := r.ReadMapSize()
	for ; err == nil && n > 0; n-- {
		var f string
		if f, err = r.ReadString(); err != nil {
			break
		}
		switch f {
		case "n":
			t.n, err = r.ReadInt64()
		case "name":
			t.name, err = r.ReadString()
		case "opt":
			t.opt, err = r.ReadNillableUint32()
		case "list":
			var k uint32
			k, err = r.ReadArraySize()
			for ; err == nil && k > 0; k-- {
				var s string
				if s, err = r.ReadString(); err == nil {
					t.list = append(t.list, s)
				}
			}
		case "m":
			var k uint32
			k, err = r.ReadMapSize()
			t.m = map[string]int32{}
			for ; err == nil && k > 0; k-- {
				var s string
				var v int32
				if s, err = r.ReadString(); err == nil {
					if v, err = r.ReadInt32(); err == nil {
						t.m[s] = v
					}
				}
			}
		default:
			err = r.Skip()
		}
	}
	return err
}

// pair is a small message without names.
type pair struct {
	a uint32
	s string
}

func (t *pair) Encode(w msgpack.Writer) error {
	w.WriteUint32(t.a)
	w.WriteString(t.s)
	return w.Err()
}

func (t *pair) Decode(r msgpack.Reader) (err error) {
	if t.a, err = r.ReadUint32(); err != nil {
		return err
	}
	t.s, err = r.ReadString()
	return err
}

func ok(err error) { vnd.Assert(err == nil, "a payload an encoder produced is decoded") }

// back encodes v and decodes the result.
func back[T any](t transform.Transform[T], v T) T {
	p, err := t.Encode(v)
	vnd.Assert(err == nil && p != nil, "every value is encoded")
	r, err := t.Decode(p)
	ok(err)
	return r
}

const same = "decoding what the encoder produced gives back the value"

//verif:harness C19
func H_C19_scalars() {
	switch vnd.Choice("type", 13) {
	case 0:
		v := int(vnd.I64("v"))
		vnd.Assert(back(transform.Int, v) == v, same)
	case 1:
		v := vnd.I64("v")
		vnd.Assert(back(transform.Int64, v) == v, same)
	case 2:
		v := vnd.I32("v")
		vnd.Assert(back(transform.Int32, v) == v, same)
	case 3:
		v := vnd.I16("v")
		vnd.Assert(back(transform.Int16, v) == v, same)
	case 4:
		v := vnd.I8("v")
		vnd.Assert(back(transform.Int8, v) == v, same)
	case 5:
		v := uint(vnd.U64("v"))
		vnd.Assert(back(transform.Uint, v) == v, same)
	case 6:
		v := vnd.U64("v")
		vnd.Assert(back(transform.Uint64, v) == v, same)
	case 7:
		v := vnd.U32("v")
		vnd.Assert(back(transform.Uint32, v) == v, same)
	case 8:
		v := vnd.U16("v")
		vnd.Assert(back(transform.Uint16, v) == v, same)
	case 9:
		v := vnd.U8("v")
		vnd.Assert(back(transform.Uint8, v) == v, same)
	case 10:
		v := vnd.F64("v")
		vnd.Assert(math.Float64bits(back(transform.Float64, v)) == math.Float64bits(v), same)
	case 11:
		v := vnd.F32("v")
		vnd.Assert(math.Float32bits(back(transform.Float32, v)) == math.Float32bits(v), same)
	case 12:
		v := vnd.Bool("v")
		vnd.Assert(back(transform.Bool, v) == v, same)
	}
	vnd.Reach("end")
}

type (
	e32  int32
	e64  int64
	u64  uint64
	text string
)

//verif:harness C19
func H_C19_derived() {
	switch vnd.Choice("type", 4) {
	case 0:
		v := e32(vnd.I32("v"))
		p, err := transform.Int32Encode(v)
		ok(err)
		r, err := transform.Int32Decode[e32](p)
		ok(err)
		vnd.Assert(r == v, same)
	case 1:
		v := e64(vnd.I64("v"))
		p, err := transform.Int64Encode(v)
		ok(err)
		r, err := transform.Int64Decode[e64](p)
		ok(err)
		vnd.Assert(r == v, same)
	case 2:
		v := u64(vnd.U64("v"))
		p, err := transform.Uint64Encode(v)
		ok(err)
		r, err := transform.Uint64Decode[u64](p)
		ok(err)
		vnd.Assert(r == v, same)
	case 3:
		v := text(str())
		p, err := transform.StringEncode(v)
		ok(err)
		r, err := transform.StringDecode[text](p)
		ok(err)
		vnd.EqStr(string(r), string(v), same)
	}
	vnd.Reach("end")
}

// str is a string whose length is near every border of the length formats.
func str() string {
	lens := []int{0, 1, 31, 32, 255, 256, 65535, 65536}
	return string(vnd.BytesN("s", lens[vnd.Choice("length", len(lens))]))
}

//verif:harness C19
func H_C19_strings() {
	switch vnd.Choice("type", 3) {
	case 0:
		s := str()
		vnd.EqStr(back(transform.String, s), s, same)
		vnd.Reach("string")
	case 1:
		b := []byte(str())
		vnd.EqBytes(back(transform.Bytes, b), b, same)
		vnd.Reach("bytes")
	case 2:
		vnd.Assert(len(back(transform.Bytes, nil)) == 0, same)
		back(transform.Void, struct{}{})
		vnd.Reach("void")
	}
}

//verif:harness C19
func H_C19_time() {
	secs := []int64{0, -1, 1582934400, 253402300799, -62135596800, 1700000000}
	n, digits := 2, 99
	if vnd.Thorough() {
		n, digits = len(secs), 999
	}
	t := time.Unix(secs[vnd.Choice("sec", n)], int64(vnd.Range("ns", 0, digits)*[]int{1, 1000, 1000000}[vnd.Choice("unit", 3)])).UTC()
	r := back(transform.Time, t)
	vnd.Assert(r.Unix() == t.Unix() && r.Nanosecond() == t.Nanosecond(), same)
	vnd.Reach("end")
}

func anyItem() item {
	t := item{n: vnd.I64("n"), name: vnd.String("name", 1)}
	if vnd.Bool("opt") {
		v := vnd.U32("opt value")
		t.opt = &v
	}
	max := 2
	if vnd.Thorough() {
		max = 3
	}
	for i := vnd.Choice("list", max); i > 0; i-- {
		t.list = append(t.list, vnd.String("element", 1))
	}
	t.m = map[string]int32{}
	for i := vnd.Choice("map", max); i > 0; i-- {
		t.m[[]string{"", "k1", "k2"}[i]] = vnd.I32("map value")
	}
	return t
}

func eqItem(a, b *item) {
	vnd.Assert(a.n == b.n, same)
	vnd.EqStr(a.name, b.name, same)
	vnd.Assert((a.opt == nil) == (b.opt == nil), same)
	if a.opt != nil {
		vnd.Assert(*a.opt == *b.opt, same)
	}
	vnd.Assert(len(a.list) == len(b.list), same)
	for i := range a.list {
		vnd.EqStr(a.list[i], b.list[i], same)
	}
	vnd.Assert(len(a.m) == len(b.m), same)
	for k, v := range a.m {
		x, has := b.m[k]
		vnd.Assert(has && x == v, same)
	}
}

//verif:harness C19
func H_C19_message() {
	v := anyItem()
	if vnd.Bool("pointer") {
		p, err := transform.CodecEncode(&v)
		ok(err)
		var r item
		ok(transform.CodecDecode(p, &r))
		eqItem(&v, &r)
		vnd.Reach("pointer")
		return
	}
	p, err := transform.MsgPackEncode(v)
	ok(err)
	r, err := transform.MsgPackDecode[item](p)
	ok(err)
	eqItem(&v, &r)
	vnd.Reach("value")
}

//verif:harness C19
func H_C19_list() {
	sizes := []int{0, 1, 2, 16}
	if vnd.Thorough() {
		sizes = append(sizes, 65535, 65536)
	}
	n := sizes[vnd.Choice("size", len(sizes))]
	v := make([]pair, n)
	for i := range v {
		v[i].a = uint32(i)
		if i < 2 {
			v[i].s = vnd.String("s", 1)
		}
		if i == n-1 {
			v[i].a = vnd.U32("a")
		}
	}
	p, err := transform.SliceEncode(v)
	ok(err)
	r, err := transform.SliceDecode[pair](p)
	ok(err)
	vnd.Assert(len(r) == n, same)
	for i := range v {
		vnd.Assert(v[i].a == r[i].a, same)
		vnd.EqStr(v[i].s, r[i].s, same)
	}
	vnd.Reach("end")
}

//verif:harness C19
func H_C19_instance() {
	live := invoke.NewLiveInstances[*pair]()
	enc := transform.InterfaceEncode(live)
	x, y := &pair{a: 1}, &pair{a: 2}
	p, err := enc(x)
	ok(err)
	q, err := enc(y)
	ok(err)
	hx, err := transform.Uint64.Decode(p)
	ok(err)
	hy, err := transform.Uint64.Decode(q)
	ok(err)
	vnd.Assert(hx != hy, "instances have different handles")
	rx, o1 := live.Get(hx)
	ry, o2 := live.Get(hy)
	vnd.Assert(o1 && o2 && rx == x && ry == y, "a handle refers to its instance")
	vnd.Reach("end")
}

// Arbitrary payload bytes.
//
//verif:harness C19
func H_C19_any() {
	n := 6
	if vnd.Thorough() {
		n = 9
	}
	b := vnd.Bytes("payload", n)
	p := payload.New(b)
	vnd.AllocLimit(1<<20 + 64*len(b))
	var err error
	switch vnd.Choice("type", 21) {
	case 0:
		_, err = transform.Int.Decode(p)
	case 1:
		_, err = transform.Int64.Decode(p)
	case 2:
		_, err = transform.Int32.Decode(p)
	case 3:
		_, err = transform.Int16.Decode(p)
	case 4:
		_, err = transform.Int8.Decode(p)
	case 5:
		_, err = transform.Uint.Decode(p)
	case 6:
		_, err = transform.Uint64.Decode(p)
	case 7:
		_, err = transform.Uint32.Decode(p)
	case 8:
		_, err = transform.Uint16.Decode(p)
	case 9:
		_, err = transform.Uint8.Decode(p)
	case 10:
		_, err = transform.Float64.Decode(p)
	case 11:
		_, err = transform.Float32.Decode(p)
	case 12:
		_, err = transform.Bool.Decode(p)
	case 13:
		_, err = transform.String.Decode(p)
	case 14:
		_, err = transform.Bytes.Decode(p)
	case 15:
		_, err = transform.Void.Decode(p)
		vnd.Assert(err == nil, "no value is expected, none is read")
		vnd.AllocOff()
		return
	case 16:
		_, err = transform.Int32Decode[e32](p)
	case 17:
		_, err = transform.Int64Decode[e64](p)
	case 18:
		_, err = transform.Uint64Decode[u64](p)
	case 19:
		_, err = transform.StringDecode[text](p)
	case 20:
		_, err = transform.MsgPackDecode[pair](p)
	}
	vnd.AllocOff()
	if len(b) == 0 {
		vnd.Assert(err != nil, "a missing value is an error")
	}
	if err == nil {
		vnd.Reach("accepted")
	} else {
		vnd.Reach("refused")
	}
}

//verif:harness C19
func H_C19_anyList() {
	n := 7
	if vnd.Thorough() {
		n = 10
	}
	b := vnd.Bytes("payload", n)
	vnd.AllocLimit(1<<20 + 64*len(b))
	r, err := transform.SliceDecode[pair](payload.New(b))
	vnd.AllocOff()
	if err == nil {
		// Every element takes two bytes at least, the size one.
		vnd.Assert(len(b) > 0 && 1+2*len(r) <= len(b), "a truncated list is an error")
		vnd.Reach("accepted")
	} else {
		vnd.Reach("refused")
	}
}
