// Package hconv holds the harnesses for the conversion helpers (C20).
package hconv

import (
	"errors"
	"math"
	"time"

	"github.com/nanobus/iota/go/internal/vnd"
	"github.com/nanobus/iota/go/msgpack/convert"
)

type (
	text  string
	flag  bool
	bytes []byte
)

var (
	errAlong = errors.New("alongside")
	errFn    = errors.New("from the function")
)

// along returns the error passed alongside, or nil.
func along() error {
	if vnd.Bool("err") {
		return errAlong
	}
	return nil
}

func checkErr(err, want error) {
	vnd.Assert(err == want, "the error passed alongside is propagated unchanged")
}

//verif:harness C20
func H_C20_values() {
	err := along()
	switch vnd.Choice("kind", 3) {
	case 0:
		s := vnd.String("s", 3)
		r, e := convert.String[text](s, err)
		checkErr(e, err)
		if err == nil {
			vnd.EqStr(string(r), s, "a string keeps its value")
			vnd.Reach("string")
		}
	case 1:
		b := vnd.Bool("b")
		r, e := convert.Bool[flag](b, err)
		checkErr(e, err)
		if err == nil {
			vnd.Assert(bool(r) == b, "a bool keeps its value")
			vnd.Reach("bool")
		}
	case 2:
		b := vnd.Bytes("b", 3)
		if vnd.Bool("nil") {
			b = nil
		}
		r, e := convert.ByteArray[bytes](b, err)
		checkErr(e, err)
		if err == nil {
			vnd.EqBytes(r, b, "a byte string keeps its value")
			vnd.Assert((r == nil) == (b == nil), "absent bytes stay absent")
			vnd.Reach("bytes")
		}
	}
}

//verif:harness C20
func H_C20_optional() {
	err := along()
	present := vnd.Bool("present")
	switch vnd.Choice("kind", 2) {
	case 0:
		var in *string
		s := vnd.String("s", 3)
		if present {
			in = &s
		}
		r, e := convert.NillableString[text](in, err)
		checkErr(e, err)
		if err == nil {
			vnd.Assert((r != nil) == present, "absent maps to absent and present to present")
			if r != nil {
				vnd.EqStr(string(*r), s, "a present string keeps its value")
				vnd.Reach("string")
			}
		}
	case 1:
		var in *bool
		b := vnd.Bool("b")
		if present {
			in = &b
		}
		r, e := convert.NillableBool[flag](in, err)
		checkErr(e, err)
		if err == nil {
			vnd.Assert((r != nil) == present, "absent maps to absent and present to present")
			if r != nil {
				vnd.Assert(bool(*r) == b, "a present bool keeps its value")
				vnd.Reach("bool")
			}
		}
	}
}

type num interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~float32 | ~float64
}

// numeric checks both numeric helpers for one pair of types; want is the value expected and ok
// says that the input is representable in the target type.
func numeric[T, I num](in I, want T, ok bool) {
	err := along()
	r, e := convert.Numeric[T](in, err)
	checkErr(e, err)
	if err == nil && ok {
		vnd.Assert(r == want, "a representable number keeps its value")
		vnd.Reach("number")
	}
	p, e := convert.NillableNumeric[T](&in, err)
	checkErr(e, err)
	if err == nil {
		vnd.Assert(p != nil, "present maps to present")
		if ok {
			vnd.Assert(*p == want, "a representable optional number keeps its value")
		}
	}
	p, e = convert.NillableNumeric[T]((*I)(nil), err)
	checkErr(e, err)
	vnd.Assert(p == nil, "absent maps to absent")
}

type (
	i8  int8
	u16 uint16
	f32 float32
)

//verif:harness C20
func H_C20_numbers() {
	switch vnd.Choice("pair", 15) {
	case 0:
		v := vnd.I64("v")
		numeric(v, int(v), true)
	case 1:
		v := vnd.I64("v")
		numeric(v, int32(uint32(uint64(v))), v >= math.MinInt32 && v <= math.MaxInt32)
	case 2:
		v := vnd.I64("v")
		numeric(v, i8(uint8(uint64(v))), v >= math.MinInt8 && v <= math.MaxInt8)
	case 3:
		v := vnd.U64("v")
		numeric(v, u16(v&0xffff), v <= math.MaxUint16)
	case 4:
		v := vnd.U8("v")
		numeric(v, uint64(v), true)
	case 5:
		v := vnd.I8("v")
		numeric(v, int64(v), true)
	case 6:
		v := vnd.U64("v")
		numeric(v, int64(v), v <= math.MaxInt64)
	case 7:
		v := vnd.I64("v")
		numeric(v, uint64(v), v >= 0)
	case 8:
		v := vnd.I32("v")
		numeric(v, float64(v), true)
	case 9:
		v := vnd.F32("v")
		numeric(v, float64(v), v == v)
	case 10:
		v := vnd.F32("v")
		numeric(float64(v), f32(v), v == v)
	case 11:
		v := vnd.U16("v")
		numeric(v, f32(v), true)
	case 12:
		v := vnd.I16("v")
		numeric(float64(v), int16(v), true)
	case 13:
		v := vnd.U32("v")
		numeric(v, uint(v), true)
	case 14:
		v := vnd.I16("v")
		numeric(v, int64(v), true)
	}
}

//verif:harness C20
func H_C20_functions() {
	// Format
	v := vnd.I32("v")
	s := vnd.String("s", 2)
	f := convert.Format(func(p *int32) string {
		vnd.Assert(p != nil && *p == v, "the formatter sees the value")
		return s
	})
	if r := f(nil); r != nil {
		vnd.Assert(false, "absent maps to absent")
	}
	r := f(&v)
	vnd.Assert(r != nil, "present maps to present")
	vnd.EqStr(*r, s, "the formatted text is returned")
	// Parse and NillableParse
	var ferr error
	if vnd.Bool("fails") {
		ferr = errFn
	}
	calls := 0
	fn := func(x string) (int32, error) {
		calls++
		vnd.EqStr(x, s, "the parser sees the value")
		return v, ferr
	}
	err := along()
	x, e := convert.Parse(fn)(s, err)
	if err != nil {
		vnd.Assert(e == err && calls == 0, "an error alongside wins")
	} else {
		vnd.Assert(e == ferr && calls == 1, "the parser's error is returned")
		if e == nil {
			vnd.Assert(x == v, "the parsed value is returned")
			vnd.Reach("parsed")
		}
	}
	calls = 0
	p, e := convert.NillableParse(fn)(&s, err)
	if err != nil {
		vnd.Assert(e == err && calls == 0, "an error alongside wins")
	} else {
		vnd.Assert(e == ferr && calls == 1, "the parser's error is returned")
		if e == nil {
			vnd.Assert(p != nil && *p == v, "the parsed value is returned")
			vnd.Reach("parsed optional")
		}
	}
	p, e = convert.NillableParse(fn)(nil, err)
	vnd.Assert(p == nil && e == err, "absent maps to absent")
}

// Times: two digits (thorough: three) of the fraction are arbitrary, in a few seconds of the calendar.
//
//verif:harness C20
func H_C20_times() {
	secs := []int64{0, -1, 1582934400, 253402300799, -62135596800, 1700000000}
	n, digits := 3, 99
	if vnd.Thorough() {
		n, digits = len(secs), 999
	}
	sec := secs[vnd.Choice("sec", n)]
	unit := []int{1, 1000, 1000000}[vnd.Choice("unit", 3)]
	ns := vnd.Range("ns", 0, digits) * unit
	t := time.Unix(sec, int64(ns)).UTC()
	err := along()
	s := convert.TimeToString(t)
	r, e := convert.StringToTime(s, err)
	if err != nil {
		checkErr(e, err)
	} else {
		vnd.Assert(e == nil, "a formatted time parses")
		vnd.Assert(r.Unix() == sec && r.Nanosecond() == ns, "a time keeps its value")
		vnd.Reach("time")
	}
	vnd.Assert(convert.TimeToStringPtr(nil) == nil, "absent maps to absent")
	p := convert.TimeToStringPtr(&t)
	vnd.Assert(p != nil, "present maps to present")
	vnd.EqStr(*p, s, "both formatters agree")
	rp, e := convert.StringToTimePtr(p, err)
	if err != nil {
		checkErr(e, err)
	} else {
		vnd.Assert(e == nil && rp != nil, "a formatted time parses")
		vnd.Assert(rp.Unix() == sec && rp.Nanosecond() == ns, "a time keeps its value")
	}
	rp, e = convert.StringToTimePtr(nil, err)
	vnd.Assert(rp == nil && e == err, "absent maps to absent")
}
