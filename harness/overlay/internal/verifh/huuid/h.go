// Package huuid holds the harnesses for UUIDs (C38).
package huuid

import (
	"errors"

	"github.com/nanobus/iota/go/internal/vnd"
	"github.com/nanobus/iota/go/types/uuid"
)

const hexd = "0123456789abcdef"

func id() (u uuid.UUID) {
	copy(u[:], vnd.BytesN("uuid", 16))
	return u
}

func same(a, b uuid.UUID, msg string) { vnd.EqBytes(a[:], b[:], msg) }

// text is the canonical form, written independently.
func text(u uuid.UUID) []byte {
	var b []byte
	for i, x := range u {
		if i == 4 || i == 6 || i == 8 || i == 10 {
			b = append(b, '-')
		}
		b = append(b, hexd[x>>4], hexd[x&15])
	}
	return b
}

// all parses s with every parser and checks that they agree.
func all(s []byte) (uuid.UUID, bool) {
	a, e1 := uuid.Parse(string(s))
	b, e2 := uuid.ParseBytes(append([]byte(nil), s...))
	var c uuid.UUID
	e3 := c.UnmarshalText(append([]byte(nil), s...))
	vnd.Assert((e1 == nil) == (e2 == nil) && (e2 == nil) == (e3 == nil), "all parsers agree on what is well formed")
	vnd.Assert(uuid.IsInvalidLengthError(e1) == uuid.IsInvalidLengthError(e2), "all parsers agree on the kind of error")
	if e1 != nil {
		return a, false
	}
	same(a, b, "all parsers agree on the value")
	same(a, c, "all parsers agree on the value")
	m := uuid.MustParse(string(s))
	same(a, m, "MustParse agrees")
	return a, true
}

//verif:harness C38
func H_C38_roundtrip() {
	u := id()
	want := text(u)
	s := u.String()
	vnd.EqStr(s, string(want), "the canonical form is the hexadecimal digits in groups of 8-4-4-4-12")
	mt, err := u.MarshalText()
	vnd.Assert(err == nil, "a UUID can be marshalled")
	vnd.EqBytes(mt, want, "MarshalText gives the canonical form")
	urn := u.URN()
	vnd.EqStr(urn, "urn:uuid:"+s, "the URN is the prefix and the canonical form")
	var in []byte
	switch vnd.Choice("form", 6) {
	case 0:
		in = []byte(s)
	case 1:
		in = []byte(urn)
	case 2:
		in = []byte("URN:UuId:" + s)
	case 3:
		in = []byte("{" + s + "}")
	case 4:
		for i := 0; i < 16; i++ {
			in = append(in, hexd[u[i]>>4], hexd[u[i]&15])
		}
	case 5:
		for i := range want {
			if i == 8 || i == 13 || i == 18 || i == 23 {
				in = append(in, '-')
			} else {
				in = append(in, "0123456789ABCDEF"[digit[want[i]]])
			}
		}
	}
	r, ok := all(in)
	vnd.Assert(ok, "a printed UUID parses")
	same(r, u, "a printed UUID parses back to itself")
	vnd.Reach("end")
}

//verif:harness C38
func H_C38_binary() {
	u := id()
	b, err := u.MarshalBinary()
	vnd.Assert(err == nil && len(b) == 16, "the binary form has 16 bytes")
	vnd.EqBytes(b, u[:], "the binary form is the bytes")
	r, err := uuid.FromBytes(b)
	vnd.Assert(err == nil, "the binary form reads back")
	same(r, u, "the binary form reads back as itself")
	in := vnd.Bytes("in", 18)
	f, e1 := uuid.FromBytes(in)
	var v uuid.UUID
	e2 := v.UnmarshalBinary(in)
	vnd.Assert((e1 == nil) == (len(in) == 16) && (e2 == nil) == (len(in) == 16), "exactly 16 bytes are accepted")
	if e1 == nil {
		vnd.EqBytes(f[:], in, "the bytes are kept")
		vnd.EqBytes(v[:], in, "the bytes are kept")
		in[3] ^= 1
		vnd.Assert(f[3] != in[3], "the bytes are copied")
		vnd.Reach("accepted")
	} else {
		vnd.Reach("refused")
	}
}

// digit holds the value of every hexadecimal digit and 0x80 for every other byte; lower maps
// capital letters.
var digit, lower = func() (d, l [256]byte) {
	for i := range d {
		d[i], l[i] = 0x80, byte(i)
	}
	for i := 0; i < 10; i++ {
		d['0'+i] = byte(i)
	}
	for i := 0; i < 6; i++ {
		d['a'+i], d['A'+i] = byte(10+i), byte(10+i)
	}
	for i := 'A'; i <= 'Z'; i++ {
		l[i] = byte(i) + 'a' - 'A'
	}
	return
}()

func pair(hi, lo byte) (v, bad byte) {
	return digit[hi]<<4 | digit[lo]&15, (digit[hi] | digit[lo]) & 0x80
}

// grouped parses the canonical form, written independently (bad is 0 for well-formed text).
func grouped(s []byte) (u uuid.UUID, bad byte) {
	j := 0
	for i := 0; i < 36; {
		if i == 8 || i == 13 || i == 18 || i == 23 {
			bad |= s[i] ^ '-'
			i++
			continue
		}
		v, b := pair(s[i], s[i+1])
		u[j] = v
		bad |= b
		j++
		i += 2
	}
	return u, bad
}

// Text of a length that some form has, with a window of arbitrary bytes in valid surroundings.
//
//verif:harness C38 budget=60
func H_C38_malformed() {
	const good = "01234567-89ab-cdef-0123-456789abcdef"
	var s []byte
	form := vnd.Choice("form", 4)
	switch form {
	case 0:
		s = []byte(good)
	case 1:
		s = []byte("urn:uuid:" + good)
	case 2:
		s = []byte("{" + good + "}")
	case 3:
		s = []byte("0123456789abcdef0123456789abcdef")
	}
	n := 2
	if vnd.Thorough() {
		n = 4
	}
	at := vnd.Choice("at", len(s)-n+1)
	w := vnd.BytesN("window", n)
	if form == 1 && !vnd.Thorough() {
		for _, c := range w {
			vnd.Assume(c < 0x80)
		}
	}
	copy(s[at:], w)
	u, ok := all(s)
	var want uuid.UUID
	var bad byte
	switch form {
	case 0:
		want, bad = grouped(s)
	case 1:
		want, bad = grouped(s[9:])
		for i := 0; i < 9; i++ {
			bad |= lower[s[i]] ^ "urn:uuid:"[i]
		}
	case 2:
		want, bad = grouped(s[1:37])
		bad |= (s[0] ^ '{') | (s[37] ^ '}')
	case 3:
		for i := 0; i < 16; i++ {
			v, b := pair(s[2*i], s[2*i+1])
			want[i] = v
			bad |= b
		}
	}
	vnd.Assert(ok == (bad == 0), "exactly well-formed text is accepted")
	if ok {
		same(u, want, "the value is what the text says")
		vnd.Reach("accepted")
	} else {
		vnd.Reach("refused")
	}
}

//verif:harness C38
func H_C38_length() {
	s := vnd.BytesN("text", vnd.Choice("length", 50))
	switch len(s) {
	case 32, 36, 38, 45:
		return
	}
	_, ok := all(s)
	vnd.Assert(!ok, "text of another length is refused")
	vnd.Reach("refused")
}

// source is a random source that delivers arbitrary bytes in pieces, or fails.
type source struct {
	data []byte
	got  []byte
	fail bool
}

var errSource = errors.New("no randomness")

func (s *source) Read(p []byte) (int, error) {
	if s.fail {
		return 0, errSource
	}
	n := len(p)
	if n > 1 && vnd.Bool("short read") {
		n = 1
	}
	if n > len(s.data) {
		return 0, errSource
	}
	copy(p, s.data[:n])
	s.got = append(s.got, s.data[:n]...)
	s.data = s.data[n:]
	return n, nil
}

func checkRandom(u uuid.UUID, src []byte) {
	vnd.Assert(u.Version() == 4, "a random UUID has version 4")
	vnd.Assert(u.Variant() == uuid.RFC4122, "a random UUID has the RFC 4122 variant")
	// The other 122 bits are the random ones.
	var want uuid.UUID
	copy(want[:], src)
	want[6] = want[6]&0x0f | 0x40
	want[8] = want[8]&0x3f | 0x80
	same(u, want, "the remaining 122 bits come from the random source")
}

//verif:harness C38
func H_C38_random() {
	s := &source{data: vnd.BytesN("random", 16)}
	if vnd.Bool("fails") {
		s.fail = true
	}
	if vnd.Bool("reader") {
		u, err := uuid.NewRandomFromReader(s)
		vnd.Assert((err == nil) == !s.fail, "an error exactly when the source fails")
		if err == nil {
			checkRandom(u, s.got)
			vnd.Reach("reader")
		} else {
			same(u, uuid.UUID{}, "no UUID with an error")
		}
		return
	}
	uuid.SetRand(s)
	defer uuid.SetRand(nil)
	u, err := uuid.NewRandom()
	vnd.Assert((err == nil) == !s.fail, "an error exactly when the source fails")
	if err == nil {
		checkRandom(u, s.got)
		vnd.Reach("default")
	}
}

// flat delivers arbitrary bytes.
type flat struct{ data []byte }

func (f *flat) Read(p []byte) (int, error) {
	n := copy(p, f.data)
	f.data = f.data[n:]
	return n, nil
}

// With the pool, successive UUIDs use disjoint random bytes.
//
//verif:harness C38
func H_C38_pool() {
	all := vnd.BytesN("random", 512)
	uuid.SetRand(&flat{data: all})
	uuid.DisableRandPool()
	uuid.EnableRandPool()
	defer func() { uuid.DisableRandPool(); uuid.SetRand(nil) }()
	n := 18
	for i := 0; i < n; i++ {
		u, err := uuid.NewRandom()
		vnd.Assert(err == nil, "a UUID is generated")
		checkRandom(u, all[16*i:])
	}
	vnd.Reach("end")
}

//verif:harness C38
func H_C38_time() {
	t := vnd.U64("time")
	seq := vnd.U16("seq")
	vnd.Assume(t < 1<<60 && seq < 1<<14)
	// RFC 4122 section 4.1.2
	u := uuid.UUID{
		byte(t >> 24), byte(t >> 16), byte(t >> 8), byte(t),
		byte(t >> 40), byte(t >> 32),
		0x10 | byte(t>>56), byte(t >> 48),
		0x80 | byte(seq>>8), byte(seq),
	}
	copy(u[10:], vnd.BytesN("node", 6))
	vnd.Assert(u.Version() == 1 && u.Variant() == uuid.RFC4122, "a time-based UUID has its version and variant")
	vnd.Assert(uint64(u.Time()) == t, "the time reads back")
	vnd.Assert(u.ClockSequence() == int(seq), "the clock sequence reads back")
	sec, ns := u.Time().UnixTime()
	vnd.Assert(sec*10000000+ns/100 == int64(t)-0x01B21DD213814000, "the Unix time is the same instant")
	vnd.Assert(ns > -1000000000 && ns < 1000000000 && ns%100 == 0, "the nanoseconds are a fraction of a second")
	vnd.Reach("end")
}

//verif:harness C38
func H_C38_clock() {
	seq := vnd.Int("seq")
	vnd.Assume(seq != -1)
	uuid.SetClockSequence(seq)
	vnd.Assert(uuid.ClockSequence() == seq&0x3fff, "the clock sequence that was set is used")
	t1, s1, e1 := uuid.GetTime()
	t2, s2, e2 := uuid.GetTime()
	vnd.Assert(e1 == nil && e2 == nil, "the time is known")
	vnd.Assert(t1 != t2 || s1 != s2, "no two time-based UUIDs share time and sequence")
	vnd.Assert(s1>>14 == 2 && s2>>14 == 2, "the sequence carries the variant")
	vnd.Reach("end")
}
