// Package hframes holds the harnesses for the wire frames (C01, C02, C03).
package hframes

import (
	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/vnd"
)

// encode writes f into a buffer of its reported size that is surrounded by guard bytes and holds
// arbitrary bytes beforehand, and returns the header and body as a receiver would see them.
func encode(f frames.Frame) (frames.FrameHeader, []byte) {
	size := int(f.Size())
	buf := vnd.BytesN("buffer", size+4)
	buf[size], buf[size+1], buf[size+2], buf[size+3] = 0xA5, 0x5A, 0xC3, 0x3C
	f.Encode(buf[:size])
	vnd.Assert(buf[size] == 0xA5 && buf[size+1] == 0x5A && buf[size+2] == 0xC3 && buf[size+3] == 0x3C, "encoding writes past the reported size")
	h := frames.ParseFrameHeader(buf)
	return h, buf[frames.FrameHeaderLen:size]
}

// A length bound for one variable-sized part; memory is symbolic, so this costs nothing.
const maxPart = 0xFFFFFF

func checkHeader(h frames.FrameHeader, t frames.FrameType, id uint32) {
	vnd.Assert(h.StreamID() == id&0x7FFFFFFF, "the header carries the stream id")
	vnd.Assert(h.Type() == t, "the header carries the frame type")
}

// Payload frames.
//
//verif:harness C01
func H_C01_payload() {
	f := &frames.Payload{StreamID: vnd.U32("id"), Metadata: vnd.Bytes("metadata", maxPart), Data: vnd.Bytes("data", maxPart),
		Follows: vnd.Bool("follows"), Complete: vnd.Bool("complete"), Next: vnd.Bool("next")}
	h, body := encode(f)
	checkHeader(h, frames.FrameTypePayload, f.StreamID)
	want := frames.FrameHeaderLen + len(f.Data)
	if len(f.Metadata) > 0 {
		want += 3 + len(f.Metadata)
	}
	vnd.Assert(int(f.Size()) == want, "the reported size is the size of the encoding")
	var g frames.Payload
	vnd.Assert(g.Decode(&h, body) == nil, "decoding succeeds")
	vnd.Assert(g.Type() == frames.FrameTypePayload, "type")
	vnd.Assert(g.GetStreamID() == f.StreamID&0x7FFFFFFF, "stream id")
	vnd.Assert(g.Follows == f.Follows, "follows")
	vnd.Assert(g.Complete == f.Complete, "complete")
	vnd.Assert(g.Next == f.Next, "next")
	vnd.EqBytes(g.Metadata, f.Metadata, "metadata")
	vnd.EqBytes(g.Data, f.Data, "data")
	if len(f.Metadata) > 0 {
		vnd.Reach("with metadata")
	} else {
		vnd.Reach("without metadata")
	}
}

// Request frames of the four kinds.
//
//verif:harness C01
func H_C01_request() {
	kinds := [4]frames.FrameType{frames.FrameTypeRequestResponse, frames.FrameTypeRequestFNF, frames.FrameTypeRequestStream, frames.FrameTypeRequestChannel}
	k := kinds[vnd.Choice("kind", 4)]
	f := &frames.RequestPayload{FrameType: k, StreamID: vnd.U32("id"), Metadata: vnd.Bytes("metadata", maxPart), Data: vnd.Bytes("data", maxPart),
		Follows: vnd.Bool("follows"), Complete: vnd.Bool("complete"), InitialN: vnd.U32("n")}
	h, body := encode(f)
	checkHeader(h, k, f.StreamID)
	demand := k == frames.FrameTypeRequestStream || k == frames.FrameTypeRequestChannel
	want := frames.FrameHeaderLen + len(f.Data)
	if len(f.Metadata) > 0 {
		want += 3 + len(f.Metadata)
	}
	if demand {
		want += 4
	}
	vnd.Assert(int(f.Size()) == want, "the reported size is the size of the encoding")
	var g frames.RequestPayload
	vnd.Assert(g.Decode(&h, body) == nil, "decoding succeeds")
	vnd.Assert(g.Type() == k, "type")
	vnd.Assert(g.GetStreamID() == f.StreamID&0x7FFFFFFF, "stream id")
	vnd.Assert(g.Follows == f.Follows, "follows")
	if demand {
		vnd.Assert(g.InitialN == f.InitialN, "initial demand")
	} else {
		vnd.Assert(g.InitialN == 1, "the demand of a single-result request is one")
	}
	if k == frames.FrameTypeRequestChannel {
		vnd.Assert(g.Complete == f.Complete, "complete")
	}
	vnd.EqBytes(g.Metadata, f.Metadata, "metadata")
	vnd.EqBytes(g.Data, f.Data, "data")
	vnd.Reach("end")
}

// Error, demand and cancel frames.
//
//verif:harness C01
func H_C01_error() {
	f := &frames.Error{StreamID: vnd.U32("id"), Code: frames.ErrCode(vnd.U32("code")), Data: vnd.String("data", maxPart)}
	h, body := encode(f)
	checkHeader(h, frames.FrameTypeError, f.StreamID)
	vnd.Assert(int(f.Size()) == frames.FrameHeaderLen+4+len(f.Data), "the reported size is the size of the encoding")
	var g frames.Error
	vnd.Assert(g.Decode(&h, body) == nil, "decoding succeeds")
	vnd.Assert(g.GetStreamID() == f.StreamID&0x7FFFFFFF && g.Type() == frames.FrameTypeError, "stream id and type")
	vnd.Assert(g.Code == f.Code, "code")
	vnd.EqStr(g.Data, f.Data, "data")
	vnd.Reach("end")
}

//verif:harness C01
func H_C01_requestn() {
	f := &frames.RequestN{StreamID: vnd.U32("id"), N: vnd.U32("n")}
	h, body := encode(f)
	checkHeader(h, frames.FrameTypeRequestN, f.StreamID)
	vnd.Assert(f.Size() == frames.FrameHeaderLen+4, "the reported size is the size of the encoding")
	var g frames.RequestN
	vnd.Assert(g.Decode(&h, body) == nil, "decoding succeeds")
	vnd.Assert(g.GetStreamID() == f.StreamID&0x7FFFFFFF && g.Type() == frames.FrameTypeRequestN, "stream id and type")
	vnd.Assert(g.N == f.N, "demand")
	vnd.Reach("end")
}

//verif:harness C01
func H_C01_cancel() {
	f := &frames.Cancel{StreamID: vnd.U32("id")}
	h, body := encode(f)
	checkHeader(h, frames.FrameTypeCancel, f.StreamID)
	vnd.Assert(f.Size() == frames.FrameHeaderLen, "the reported size is the size of the encoding")
	var g frames.Cancel
	vnd.Assert(g.Decode(&h, body) == nil, "decoding succeeds")
	vnd.Assert(g.GetStreamID() == f.StreamID&0x7FFFFFFF && g.Type() == frames.FrameTypeCancel, "stream id and type")
	vnd.Reach("end")
}

// The header packs and unpacks every type and flag.
//
//verif:harness C01
func H_C01_header() {
	id, t, fl := vnd.U32("id"), vnd.U8("type"), vnd.U16("flags")
	vnd.Assume(t < 64 && fl < 1024)
	h := frames.NewFrameHeader(id, frames.FrameType(t), frames.FrameFlag(fl))
	vnd.Assert(h.StreamID() == id&0x7FFFFFFF, "stream id")
	vnd.Assert(uint8(h.Type()) == t, "type")
	vnd.Assert(uint16(h.Flag()) == fl, "flags")
	var b [frames.FrameHeaderLen]byte
	frames.ResetFrameHeader(b[:], id, frames.FrameType(t), frames.FrameFlag(fl))
	vnd.EqBytes(b[:], h.Bytes(), "writing in place gives the same header")
	g := frames.ParseFrameHeader(h.Bytes())
	vnd.Assert(g == h, "parsing the bytes gives the header back")
	vnd.Reach("end")
}

// ---- C02 ----

func anyHeader() frames.FrameHeader {
	return frames.ParseFrameHeader(vnd.BytesN("header", frames.FrameHeaderLen))
}

// checkParts compares what a decoder reported with the parts of the body.
func checkParts(body []byte, hasMD bool, metadata, data []byte) {
	if !hasMD {
		vnd.Assert(len(metadata) == 0, "no metadata without the metadata flag")
		vnd.EqBytes(data, body, "data is the rest of the body")
		return
	}
	vnd.Assert(len(body) >= 3, "metadata was reported although its length is cut off")
	n := int(body[0])<<16 | int(body[1])<<8 | int(body[2])
	vnd.Assert(len(body) >= 3+n, "metadata was reported although it is cut off")
	vnd.EqBytes(metadata, body[3:3+n], "metadata is the stated part of the body")
	vnd.EqBytes(data, body[3+n:], "data is the rest of the body")
}

//verif:harness C02
func H_C02_payload() {
	h, body := anyHeader(), vnd.Bytes("body", 1<<20)
	var f frames.Payload
	if err := f.Decode(&h, body); err != nil {
		vnd.Reach("error")
		vnd.Assert(h.Flag().Check(frames.FlagMetadata), "only cut off metadata is refused")
		vnd.Assert(len(body) < 3 || len(body) < 3+int(body[0])<<16+int(body[1])<<8+int(body[2]), "complete metadata is accepted")
		return
	}
	vnd.Assert(f.StreamID == h.StreamID(), "stream id")
	vnd.Assert(f.Next == h.Flag().Check(frames.FlagNext) && f.Complete == h.Flag().Check(frames.FlagComplete) && f.Follows == h.Flag().Check(frames.FlagFollow), "flags")
	checkParts(body, h.Flag().Check(frames.FlagMetadata), f.Metadata, f.Data)
	vnd.Reach("ok")
}

//verif:harness C02
func H_C02_request() {
	h, body := anyHeader(), vnd.Bytes("body", 1<<20)
	var f frames.RequestPayload
	err := f.Decode(&h, body)
	t := h.Type()
	demand := t == frames.FrameTypeRequestStream || t == frames.FrameTypeRequestChannel
	rest := body
	if demand {
		if len(body) < 4 {
			vnd.Assert(err != nil, "a request with its demand cut off is refused")
			vnd.Reach("short demand")
			return
		}
		rest = body[4:]
	}
	if err != nil {
		vnd.Reach("error")
		vnd.Assert(h.Flag().Check(frames.FlagMetadata), "only cut off metadata is refused")
		vnd.Assert(len(rest) < 3 || len(rest) < 3+int(rest[0])<<16+int(rest[1])<<8+int(rest[2]), "complete metadata is accepted")
		return
	}
	vnd.Assert(f.StreamID == h.StreamID() && f.FrameType == t, "stream id and type")
	vnd.Assert(f.Follows == h.Flag().Check(frames.FlagFollow), "follows")
	if demand {
		vnd.Assert(f.InitialN == uint32(body[0])<<24|uint32(body[1])<<16|uint32(body[2])<<8|uint32(body[3]), "initial demand")
	}
	checkParts(rest, h.Flag().Check(frames.FlagMetadata), f.Metadata, f.Data)
	vnd.Reach("ok")
}

//verif:harness C02
func H_C02_small() {
	h, body := anyHeader(), vnd.Bytes("body", 1<<20)
	switch vnd.Choice("kind", 3) {
	case 0:
		var f frames.Error
		if err := f.Decode(&h, body); err != nil {
			vnd.Assert(len(body) < 4, "an error frame with a code is accepted")
			vnd.Reach("error refused")
			return
		}
		vnd.Assert(len(body) >= 4, "an error frame without a code is refused")
		vnd.Assert(f.StreamID == h.StreamID(), "stream id")
		vnd.Assert(uint32(f.Code) == uint32(body[0])<<24|uint32(body[1])<<16|uint32(body[2])<<8|uint32(body[3]), "code")
		vnd.EqBytes([]byte(f.Data), body[4:], "error data is the rest of the body")
		vnd.Reach("error ok")
	case 1:
		var f frames.RequestN
		if err := f.Decode(&h, body); err != nil {
			vnd.Assert(len(body) < 4, "a demand frame with a number is accepted")
			vnd.Reach("demand refused")
			return
		}
		vnd.Assert(len(body) >= 4, "a demand frame without a number is refused")
		vnd.Assert(f.StreamID == h.StreamID(), "stream id")
		vnd.Assert(f.N == uint32(body[0])<<24|uint32(body[1])<<16|uint32(body[2])<<8|uint32(body[3]), "demand")
		vnd.Reach("demand ok")
	case 2:
		var f frames.Cancel
		if f.Decode(&h, body) == nil {
			vnd.Assert(f.StreamID == h.StreamID(), "stream id")
		}
		vnd.Reach("cancel")
	}
}

// ---- C03 ----

// The largest number of bytes split, in multiples of what a fragment is sure to carry.
func fragBound() int {
	if vnd.Thorough() {
		return 8
	}
	return 3
}

type joiner struct {
	md, data    []byte // the original parts
	mdOff, dOff int
	max         int
	nfrag       int
	sawData     bool
}

func (j *joiner) take(size uint32, md, data []byte, last bool) {
	j.nfrag++
	vnd.Assert(int(size) <= j.max, "a fragment is larger than the maximum frame size")
	vnd.Assert(j.mdOff+len(md) <= len(j.md), "the fragments hold more metadata than the frame")
	vnd.EqBytes(md, j.md[j.mdOff:j.mdOff+len(md)], "a fragment's metadata is the next part of the frame's metadata")
	j.mdOff += len(md)
	if len(data) > 0 {
		vnd.Assert(j.mdOff == len(j.md), "data before the end of the metadata")
	}
	vnd.Assert(j.dOff+len(data) <= len(j.data), "the fragments hold more data than the frame")
	vnd.EqBytes(data, j.data[j.dOff:j.dOff+len(data)], "a fragment's data is the next part of the frame's data")
	j.dOff += len(data)
	if last {
		vnd.Assert(j.mdOff == len(j.md) && j.dOff == len(j.data), "bytes are missing from the fragments")
	}
}

func (j *joiner) payloads(fs []frames.Frame, id uint32, next, complete bool) {
	for i, f := range fs {
		p, ok := f.(*frames.Payload)
		vnd.Assert(ok, "follow-up fragments are payload frames")
		last := i == len(fs)-1
		vnd.Assert(p.StreamID == id, "a fragment has another stream id")
		vnd.Assert(p.Follows == !last, "every fragment but the last is marked as followed")
		vnd.Assert(p.Next == (last && next), "the next mark is on the last fragment only")
		vnd.Assert(p.Complete == (last && complete), "the complete mark is on the last fragment only")
		j.take(p.Size(), p.Metadata, p.Data, last)
	}
}

//verif:harness C03 unroll=40
func H_C03_payload() {
	f := &frames.Payload{StreamID: vnd.U32("id"), Metadata: vnd.Bytes("metadata", maxPart), Data: vnd.Bytes("data", maxPart),
		Complete: vnd.Bool("complete"), Next: vnd.Bool("next")}
	max := vnd.Range("max", frames.FrameHeaderLen+3+1, 1<<24)
	vnd.Assume(len(f.Metadata)+len(f.Data) <= fragBound()*(max-9))
	fs := f.Fragment(uint32(max))
	if int(f.Size()) <= max {
		vnd.Assert(fs == nil, "a frame that fits is not split")
		vnd.Reach("fits")
		return
	}
	vnd.Assert(len(fs) > 1, "a frame that does not fit is split")
	j := &joiner{md: f.Metadata, data: f.Data, max: max}
	j.payloads(fs, f.StreamID, f.Next, f.Complete)
	vnd.Reach("split")
}

//verif:harness C03 unroll=40
func H_C03_request() {
	kinds := [4]frames.FrameType{frames.FrameTypeRequestResponse, frames.FrameTypeRequestFNF, frames.FrameTypeRequestStream, frames.FrameTypeRequestChannel}
	k := kinds[vnd.Choice("kind", 4)]
	f := &frames.RequestPayload{FrameType: k, StreamID: vnd.U32("id"), Metadata: vnd.Bytes("metadata", maxPart), Data: vnd.Bytes("data", maxPart),
		Complete: vnd.Bool("complete"), InitialN: vnd.U32("n")}
	max := vnd.Range("max", frames.FrameHeaderLen+4+3+1, 1<<24)
	vnd.Assume(len(f.Metadata)+len(f.Data) <= fragBound()*(max-13))
	fs := f.Fragment(uint32(max))
	if int(f.Size()) <= max {
		vnd.Assert(fs == nil, "a frame that fits is not split")
		vnd.Reach("fits")
		return
	}
	vnd.Assert(len(fs) > 1, "a frame that does not fit is split")
	j := &joiner{md: f.Metadata, data: f.Data, max: max}
	r, ok := fs[0].(*frames.RequestPayload)
	vnd.Assert(ok, "the first fragment is a request frame")
	vnd.Assert(r.FrameType == k && r.StreamID == f.StreamID && r.InitialN == f.InitialN, "the first fragment has the request's type, stream id and demand")
	vnd.Assert(r.Follows, "the first fragment is marked as followed")
	vnd.Assert(!r.Complete, "the complete mark is on the last fragment only")
	j.take(r.Size(), r.Metadata, r.Data, false)
	j.payloads(fs[1:], f.StreamID, true, f.Complete)
	vnd.Reach("split")
}
