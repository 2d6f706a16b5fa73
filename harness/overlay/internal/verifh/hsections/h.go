// Package hsections holds the harnesses for reading custom sections (C37).
package hsections

import (
	"github.com/nanobus/iota/go/internal/vnd"
	"github.com/nanobus/iota/go/transport/wasmrs/customsections"
)

var head = []byte{0x00, 0x61, 0x73, 0x6d, 0x01, 0x00, 0x00, 0x00}

// leb encodes v in n bytes (longer than needed is allowed by the format).
func leb(v uint32, n int) []byte {
	var b []byte
	for i := 0; i < n-1; i++ {
		b = append(b, byte(v&0x7f)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

var names = []string{"a", "wasmrs", ""}

// Every well-formed module of up to 3 sections.
//
//verif:harness C37
func H_C37_wellformed() {
	max, size := 2, 2
	if vnd.Thorough() {
		max, size = 3, 3
	}
	mod := append([]byte(nil), head...)
	n := vnd.Choice("sections", max+1)
	var content [3][]byte
	var have [3]bool
	for i := 0; i < n; i++ {
		c := vnd.Bytes("content", size)
		w := 1
		if i == 0 {
			w = []int{1, 2, 5}[vnd.Choice("width", 3)]
		}
		if vnd.Bool("custom") {
			k := vnd.Choice("name", len(names))
			if have[k] {
				return // section names repeat: which one counts is not specified
			}
			nb := leb(uint32(len(names[k])), 1)
			if i == 0 && vnd.Bool("wide name") {
				nb = leb(uint32(len(names[k])), 3)
			}
			body := append(append(nb, names[k]...), c...)
			mod = append(mod, 0)
			mod = append(mod, leb(uint32(len(body)), w)...)
			mod = append(mod, body...)
			content[k], have[k] = c, true
		} else {
			mod = append(mod, byte(vnd.Range("id", 1, 12)))
			mod = append(mod, leb(uint32(len(c)), w)...)
			mod = append(mod, c...)
		}
	}
	var want []string
	var asked [3]bool
	for _, k := range [][]int{{0, 1, 2}, {2, 0}, {1}, {0}, nil}[vnd.Choice("wanted", 5)] {
		want, asked[k] = append(want, names[k]), true
	}
	got, err := customsections.Read(mod, want...)
	vnd.Assert(err == nil, "a well-formed module is read without error")
	count := 0
	for k := range names {
		s, ok := got[names[k]]
		if !asked[k] || !have[k] {
			continue
		}
		count++
		vnd.Assert(ok && s != nil, "a requested section that is present is returned")
		vnd.EqStr(s.Name, names[k], "a section carries its name")
		vnd.EqBytes(s.Data, content[k], "a section's content is returned exactly as stored")
		vnd.Reach("found")
	}
	vnd.Assert(len(got) == count, "nothing else is returned")
	vnd.Reach("end")
}

// uleb reads a LEB128 number of at most 32 bits.
func uleb(b []byte) (uint64, []byte, bool) {
	var v uint64
	for i := 0; i < 5; i++ {
		if len(b) == 0 {
			return 0, nil, false
		}
		c := b[0]
		b = b[1:]
		v |= uint64(c&0x7f) << (7 * i)
		if c < 0x80 {
			return v, b, v < 1<<32
		}
	}
	return 0, nil, false
}

// framed says whether the sections of b are framed correctly: every size fits what is there.
func framed(b []byte) bool {
	for len(b) > 0 {
		id := b[0]
		size, rest, ok := uleb(b[1:])
		if !ok || size > uint64(len(rest)) {
			return false
		}
		if id == 0 {
			n, name, ok := uleb(rest)
			if !ok || n > uint64(len(name)) {
				return false
			}
			used := uint64(len(rest)-len(name)) + n
			if used > size {
				return false
			}
		}
		b = rest[size:]
	}
	return true
}

// Arbitrary bytes after the header.
//
//verif:harness C37
func H_C37_any() {
	max := 5
	if vnd.Thorough() {
		max = 8
	}
	tail := vnd.Bytes("tail", max)
	mod := append(append([]byte(nil), head...), tail...)
	vnd.AllocLimit(1 << 20)
	_, err := customsections.Read(mod, "", "a")
	vnd.AllocOff()
	if !framed(tail) {
		vnd.Assert(err != nil, "a truncated or wrongly framed module is an error")
		vnd.Reach("malformed")
	} else if err == nil {
		vnd.Reach("accepted")
	}
}

// A custom section whose declared sizes are arbitrary.
//
//verif:harness C37
func H_C37_sizes() {
	mod := append(append([]byte(nil), head...), 0)
	size, n := vnd.U32("size"), vnd.U32("name size")
	body := append(leb(n, 5), vnd.BytesN("rest", vnd.Choice("length", 3))...)
	mod = append(append(mod, leb(size, 5)...), body...)
	vnd.AllocLimit(1 << 20)
	got, err := customsections.Read(mod, "", "x", "ab")
	vnd.AllocOff()
	rest := body[5:]
	if uint64(size) != uint64(len(body)) && !framed(mod[8:]) {
		vnd.Assert(err != nil, "a wrongly framed module is an error")
		vnd.Reach("malformed")
	}
	if uint64(n) > uint64(len(rest)) {
		vnd.Assert(err != nil, "a name longer than the module is an error")
	}
	if err == nil {
		for _, s := range got {
			vnd.Assert(len(s.Data) <= len(rest), "no more content than there is")
		}
		vnd.Reach("accepted")
	}
}

// Modules with a wrong or short header.
//
//verif:harness C37
func H_C37_header() {
	b := vnd.Bytes("module", 8)
	ok := len(b) == 8
	if ok {
		for i := range head {
			if b[i] != head[i] {
				ok = false
			}
		}
	}
	_, err := customsections.Read(b, "a")
	vnd.Assert((err == nil) == ok, "exactly a module with the right header is accepted")
	if ok {
		vnd.Reach("empty module")
	} else {
		vnd.Reach("bad header")
	}
}
