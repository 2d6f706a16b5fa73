From 69537d28e5d85c83634003c71be2d3bfc213ba38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:59 +0000
Subject: [PATCH 01/58] fix: RequestPayload.Encode drops the follows flag

---
 go/internal/frames/request_payload.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/go/internal/frames/request_payload.go b/go/internal/frames/request_payload.go
index f9095c1..7d0fbc8 100644
--- a/go/internal/frames/request_payload.go
+++ b/go/internal/frames/request_payload.go
@@ -76,6 +76,9 @@ func (f *RequestPayload) Encode(buf []byte) {
 		flags |= FlagComplete
 	}
 
+	if f.Follows {
+		flags |= FlagFollow
+	}
 	if metadataLen > 0 {
 		flags |= FlagMetadata
 	}
-- 
2.43.0


From 9c21c3fd2a325cd66d65c530161ad0c1bdaca6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:59 +0000
Subject: [PATCH 02/58] fix: RequestPayload.Fragment repeats metadata that fits
 the first fragment

---
 go/internal/frames/request_payload.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/go/internal/frames/request_payload.go b/go/internal/frames/request_payload.go
index 7d0fbc8..c56c92d 100644
--- a/go/internal/frames/request_payload.go
+++ b/go/internal/frames/request_payload.go
@@ -161,6 +161,7 @@ func (f *RequestPayload) Fragment(maxFrameSize uint32) []Frame {
 			Complete:  false,
 			InitialN:  f.InitialN,
 		})
+		metadata = nil
 	}
 
 	frames = splitPayloads(frames, f.StreamID, true, f.Complete, maxFrameSize, data, metadata)
-- 
2.43.0


From 1bca97cfb596e63b11f46769f6fc8d6be8b4f745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:59 +0000
Subject: [PATCH 03/58] fix: decoding a truncated frame panics

---
 go/internal/frames/error.go           | 3 +++
 go/internal/frames/payload.go         | 6 ++++++
 go/internal/frames/request_n.go       | 3 +++
 go/internal/frames/request_payload.go | 9 +++++++++
 go/internal/frames/util.go            | 3 +++
 5 files changed, 24 insertions(+)

diff --git a/go/internal/frames/error.go b/go/internal/frames/error.go
index f6966b6..5f49589 100644
--- a/go/internal/frames/error.go
+++ b/go/internal/frames/error.go
@@ -21,6 +21,9 @@ func (f *Error) Type() FrameType {
 }
 
 func (f *Error) Decode(header *FrameHeader, payload []byte) error {
+	if len(payload) < 4 {
+		return errTruncated
+	}
 	code := binary.BigEndian.Uint32(payload)
 	data := string(payload[4:])
 
diff --git a/go/internal/frames/payload.go b/go/internal/frames/payload.go
index 6a6b18b..c17350e 100644
--- a/go/internal/frames/payload.go
+++ b/go/internal/frames/payload.go
@@ -32,10 +32,16 @@ func (f *Payload) Decode(header *FrameHeader, payload []byte) error {
 	metadata := emptyBuffer
 
 	if hasMetadata {
+		if len(payload) < 3 {
+			return errTruncated
+		}
 		var mdLengthBuf [4]byte
 		copy(mdLengthBuf[1:], payload[0:3])
 		mdLength := binary.BigEndian.Uint32(mdLengthBuf[:])
 		payload = payload[3:]
+		if uint32(len(payload)) < mdLength {
+			return errTruncated
+		}
 		metadata = payload[:mdLength]
 		payload = payload[mdLength:]
 	}
diff --git a/go/internal/frames/request_n.go b/go/internal/frames/request_n.go
index 636df9d..6a6627f 100644
--- a/go/internal/frames/request_n.go
+++ b/go/internal/frames/request_n.go
@@ -20,6 +20,9 @@ func (f *RequestN) Type() FrameType {
 }
 
 func (f *RequestN) Decode(header *FrameHeader, payload []byte) error {
+	if len(payload) < 4 {
+		return errTruncated
+	}
 	n := binary.BigEndian.Uint32(payload)
 
 	*f = RequestN{
diff --git a/go/internal/frames/request_payload.go b/go/internal/frames/request_payload.go
index c56c92d..1f90b03 100644
--- a/go/internal/frames/request_payload.go
+++ b/go/internal/frames/request_payload.go
@@ -38,6 +38,9 @@ func (f *RequestPayload) Decode(header *FrameHeader, payload []byte) error {
 	complete := true
 
 	if frameType == FrameTypeRequestStream || frameType == FrameTypeRequestChannel {
+		if len(payload) < 4 {
+			return errTruncated
+		}
 		initialN = binary.BigEndian.Uint32(payload)
 		payload = payload[4:]
 	}
@@ -47,10 +50,16 @@ func (f *RequestPayload) Decode(header *FrameHeader, payload []byte) error {
 
 	metadata := emptyBuffer
 	if hasMetadata {
+		if len(payload) < 3 {
+			return errTruncated
+		}
 		var mdLengthBuf [4]byte
 		copy(mdLengthBuf[1:], payload[0:3])
 		mdLength := binary.BigEndian.Uint32(mdLengthBuf[:])
 		payload = payload[3:]
+		if uint32(len(payload)) < mdLength {
+			return errTruncated
+		}
 		metadata = payload[:mdLength]
 		payload = payload[mdLength:]
 	}
diff --git a/go/internal/frames/util.go b/go/internal/frames/util.go
index d962f97..e48f4a5 100644
--- a/go/internal/frames/util.go
+++ b/go/internal/frames/util.go
@@ -2,8 +2,11 @@ package frames
 
 import (
 	"encoding/binary"
+	"errors"
 )
 
+var errTruncated = errors.New("truncated frame")
+
 var emptyBuffer = []byte{}
 
 func readString(payload []byte) (string, []byte) {
-- 
2.43.0


From 195aaa6eb3f6a98796310cbebc5ae5770f61c511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:01 +0000
Subject: [PATCH 04/58] fix: ServerStreamIDs hands out stream id 0 at the end
 of each pass

---
 go/internal/socket/stream_id.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/go/internal/socket/stream_id.go b/go/internal/socket/stream_id.go
index 974ab23..b25f404 100644
--- a/go/internal/socket/stream_id.go
+++ b/go/internal/socket/stream_id.go
@@ -20,9 +20,9 @@ type ServerStreamIDs uint64
 func (p *ServerStreamIDs) Next() (uint32, bool) {
 	// 2,4,6,8...
 	seed := atomic.AddUint64((*uint64)(p), 1)
-	v := 2 * seed
+	v := _maskStreamID & (2 * seed)
 	if v != 0 {
-		return uint32(_maskStreamID & v), seed <= _halfSeed
+		return uint32(v), seed <= _halfSeed
 	}
 	return p.Next()
 }
-- 
2.43.0


From a8c3b6e208c4b7ff7bdd9b1fc01573bc72c0c857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:04 +0000
Subject: [PATCH 05/58] fix: reading a malformed operation table panics or
 allocates without bound

---
 go/operations/operatons.go | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/go/operations/operatons.go b/go/operations/operatons.go
index bca2fb2..a31b8f4 100644
--- a/go/operations/operatons.go
+++ b/go/operations/operatons.go
@@ -62,13 +62,21 @@ func (d Direction) String() string {
 // Magic is the 4 byte preamble (literally "\0wrs") of the binary format
 var Magic = []byte{0x00, 0x77, 0x72, 0x73}
 var ErrInvalidMagicNumber = errors.New("invalid magic number")
+var ErrTruncated = errors.New("truncated operation table")
+
+// minEntrySize is the size of an entry with empty names and no reserved bytes.
+const minEntrySize = 12
 
 func FromBytes(buf []byte) (Table, error) {
-	if !bytes.Equal(buf[0:4], Magic) {
+	if len(buf) < 4 || !bytes.Equal(buf[0:4], Magic) {
 		return nil, ErrInvalidMagicNumber
 	}
 	buf = buf[4:]
 
+	if len(buf) < 6 {
+		return nil, ErrTruncated
+	}
+
 	// Read version.
 	version := binary.BigEndian.Uint16(buf)
 	if version != 1 {
@@ -76,18 +84,30 @@ func FromBytes(buf []byte) (Table, error) {
 	}
 	buf = buf[2:]
 	numOps := binary.BigEndian.Uint32(buf)
-	operations := make(Table, numOps)
 	buf = buf[4:]
+	if uint64(numOps)*minEntrySize > uint64(len(buf)) {
+		return nil, ErrTruncated
+	}
+	operations := make(Table, numOps)
 	for i := 0; i < int(numOps); i++ {
+		if len(buf) < 8 {
+			return nil, ErrTruncated
+		}
 		opType := RequestType(buf[0])
 		dir := Direction(buf[1])
 		id := binary.BigEndian.Uint32(buf[2:6])
-		nsLen := binary.BigEndian.Uint16(buf[6:8])
+		nsLen := int(binary.BigEndian.Uint16(buf[6:8]))
 		buf = buf[8:]
+		if len(buf) < nsLen+2 {
+			return nil, ErrTruncated
+		}
 		ns := string(buf[:nsLen])
 		buf = buf[nsLen:]
-		opLen := binary.BigEndian.Uint16(buf[0:2])
+		opLen := int(binary.BigEndian.Uint16(buf[0:2]))
 		buf = buf[2:]
+		if len(buf) < opLen+2 {
+			return nil, ErrTruncated
+		}
 		op := string(buf[:opLen])
 		buf = buf[opLen:]
 		operations[i] = Operation{
@@ -97,7 +117,10 @@ func FromBytes(buf []byte) (Table, error) {
 			Namespace: ns,
 			Operation: op,
 		}
-		reservedLen := binary.BigEndian.Uint16(buf)
+		reservedLen := int(binary.BigEndian.Uint16(buf))
+		if len(buf) < 2+reservedLen {
+			return nil, ErrTruncated
+		}
 		buf = buf[2+reservedLen:] // Reserved
 	}
 
-- 
2.43.0


From 8ef879f0d016ae622f42b6fdc8995f9d584fe18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:12 +0000
Subject: [PATCH 06/58] fix: PortIO next and complete flags share one bit

---
 go/invoke/portio.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/invoke/portio.go b/go/invoke/portio.go
index 0f787ce..44e7e80 100644
--- a/go/invoke/portio.go
+++ b/go/invoke/portio.go
@@ -71,7 +71,7 @@ func (f Flags) String() string {
 
 // All frame flags
 const (
-	FlagNext Flags = 1
+	FlagNext Flags = 1 << iota
 	FlagComplete
 )
 
-- 
2.43.0


From 4d1dfcccf1f6adf3b801a360ac39b3da4cd4e8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:12 +0000
Subject: [PATCH 07/58] fix: decoding a truncated port message panics

---
 go/invoke/portio.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/go/invoke/portio.go b/go/invoke/portio.go
index 44e7e80..6c7ca4d 100644
--- a/go/invoke/portio.go
+++ b/go/invoke/portio.go
@@ -2,6 +2,7 @@ package invoke
 
 import (
 	"encoding/binary"
+	"errors"
 	"strings"
 )
 
@@ -12,13 +13,21 @@ type PortIO struct {
 	Next     bool
 }
 
+var errPortIOTruncated = errors.New("truncated port message")
+
 func (f *PortIO) Decode(data []byte) error {
+	if len(data) < 3 {
+		return errPortIOTruncated
+	}
 	flags := Flags(data[0])
 	complete := flags.Check(FlagComplete)
 	next := flags.Check(FlagNext)
 	data = data[1:]
-	portLength := binary.BigEndian.Uint16(data)
+	portLength := int(binary.BigEndian.Uint16(data))
 	data = data[2:]
+	if len(data) < portLength {
+		return errPortIOTruncated
+	}
 	port := string(data[:portLength])
 	data = data[portLength:]
 
-- 
2.43.0


From 991cc3ac28c388c4653f4e13105afb5bc9e9e341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:15 +0000
Subject: [PATCH 08/58] fix: instance handles are reused after removal

---
 go/invoke/instances.go | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/go/invoke/instances.go b/go/invoke/instances.go
index a32508e..cc8c68f 100644
--- a/go/invoke/instances.go
+++ b/go/invoke/instances.go
@@ -3,7 +3,6 @@ package invoke
 import (
 	"errors"
 	"sync"
-	"unsafe"
 )
 
 type Ptr[T any] struct {
@@ -14,42 +13,44 @@ var ErrNoInstance = errors.New("no instance is active for this pointer")
 
 type LiveInstances[T any] struct {
 	mu        sync.RWMutex
-	instances map[*Ptr[T]]struct{}
+	lastID    uint64
+	instances map[uint64]*Ptr[T]
 }
 
 func NewLiveInstances[T any]() *LiveInstances[T] {
 	return &LiveInstances[T]{
-		instances: make(map[*Ptr[T]]struct{}),
+		instances: make(map[uint64]*Ptr[T]),
 	}
 }
 
 func (t *LiveInstances[T]) Get(id uint64) (inst T, ok bool) {
 	t.mu.RLock()
 	defer t.mu.RUnlock()
-	ptr := (*Ptr[T])(unsafe.Pointer(uintptr(id)))
-	_, ok = t.instances[ptr]
+	ptr, ok := t.instances[id]
 	if ok {
 		inst = ptr.Ptr
 	}
 	return
 }
 
+// Put registers inst and returns its handle. Handles are never reused: an
+// address would be once the instance is removed and collected.
 func (t *LiveInstances[T]) Put(inst T) uint64 {
 	ptr := &Ptr[T]{Ptr: inst}
-	handle := uint64(uintptr(unsafe.Pointer(ptr)))
 	t.mu.Lock()
 	defer t.mu.Unlock()
-	t.instances[ptr] = struct{}{}
-	return handle
+	t.lastID++
+	t.instances[t.lastID] = ptr
+	return t.lastID
 }
 
 func (t *LiveInstances[T]) Remove(id uint64) (inst T, ok bool) {
-	ptr := (*Ptr[T])(unsafe.Pointer(uintptr(id)))
 	t.mu.Lock()
 	defer t.mu.Unlock()
-	if _, ok = t.instances[ptr]; ok {
+	ptr, ok := t.instances[id]
+	if ok {
 		inst = ptr.Ptr
-		delete(t.instances, ptr)
+		delete(t.instances, id)
 	}
 	return
 }
-- 
2.43.0


From d89dd8c953ad800e8015fa879a91aa9544536433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:28 +0000
Subject: [PATCH 09/58] fix: Sizer reserves one byte too many for a 255 byte
 array

---
 go/msgpack/sizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/msgpack/sizer.go b/go/msgpack/sizer.go
index 0fc83c0..0fbee96 100644
--- a/go/msgpack/sizer.go
+++ b/go/msgpack/sizer.go
@@ -115,7 +115,7 @@ func (s *Sizer) WriteArraySize(length uint32) {
 }
 
 func (s *Sizer) writeBinLength(length uint32) {
-	if length < math.MaxUint8 {
+	if length <= math.MaxUint8 {
 		s.length += 1
 	} else if length <= math.MaxUint16 {
 		s.length += 2
-- 
2.43.0


From be9947718f7c9986e16f82bb5f94797ea96396cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:28 +0000
Subject: [PATCH 10/58] fix: WriteAny writes nil twice

---
 go/msgpack/encoder.go | 3 ---
 go/msgpack/sizer.go   | 3 ---
 2 files changed, 6 deletions(-)

diff --git a/go/msgpack/encoder.go b/go/msgpack/encoder.go
index 2fd74c0..ebe87d2 100644
--- a/go/msgpack/encoder.go
+++ b/go/msgpack/encoder.go
@@ -312,9 +312,6 @@ func (e *Encoder) WriteMapSize(length uint32) {
 }
 
 func (e *Encoder) WriteAny(value any) {
-	if value == nil {
-		e.WriteNil()
-	}
 	switch v := value.(type) {
 	case nil:
 		e.WriteNil()
diff --git a/go/msgpack/sizer.go b/go/msgpack/sizer.go
index 0fbee96..e409960 100644
--- a/go/msgpack/sizer.go
+++ b/go/msgpack/sizer.go
@@ -276,9 +276,6 @@ func (s *Sizer) WriteNillableFloat64(value *float64) {
 }
 
 func (s *Sizer) WriteAny(value any) {
-	if value == nil {
-		s.WriteNil()
-	}
 	switch v := value.(type) {
 	case nil:
 		s.WriteNil()
-- 
2.43.0


From 969de582cae64d328a3784b56f967739602f45bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:28 +0000
Subject: [PATCH 11/58] fix: WriteAny leaves out times that Sizer.WriteAny
 counts

---
 go/msgpack/encoder.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/go/msgpack/encoder.go b/go/msgpack/encoder.go
index ebe87d2..5e380eb 100644
--- a/go/msgpack/encoder.go
+++ b/go/msgpack/encoder.go
@@ -345,6 +345,8 @@ func (e *Encoder) WriteAny(value any) {
 		e.WriteFloat64(v)
 	case string:
 		e.WriteString(v)
+	case time.Time:
+		e.WriteTime(v)
 	case []byte:
 		e.WriteByteArray(v)
 	case []interface{}:
@@ -359,6 +361,12 @@ func (e *Encoder) WriteAny(value any) {
 		for _, v := range v {
 			e.WriteString(v)
 		}
+	case []time.Time:
+		size := uint32(len(v))
+		e.WriteArraySize(size)
+		for _, v := range v {
+			e.WriteTime(v)
+		}
 	case []bool:
 		size := uint32(len(v))
 		e.WriteArraySize(size)
-- 
2.43.0


From 9d3ee0f58b3808669536068039e08ad3facbe620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:28 +0000
Subject: [PATCH 12/58] fix: length check wraps around for lengths near 4 GiB

---
 go/msgpack/data_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/msgpack/data_reader.go b/go/msgpack/data_reader.go
index 4240605..fb12014 100644
--- a/go/msgpack/data_reader.go
+++ b/go/msgpack/data_reader.go
@@ -240,7 +240,7 @@ func (d *DataReader) checkBufferSize(length uint32) error {
 	if d.err != nil {
 		return d.err
 	}
-	if d.byteOffset+length > uint32(len(d.buffer)) {
+	if length > uint32(len(d.buffer))-d.byteOffset {
 		d.err = ErrRange
 		return ErrRange
 	}
-- 
2.43.0


From 4a21c7d1c7665ab4df8d1e480d022b227aba5f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:28 +0000
Subject: [PATCH 13/58] fix: extension lengths are raw bytes, not MessagePack
 integers

---
 go/msgpack/decoder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/go/msgpack/decoder.go b/go/msgpack/decoder.go
index 85af61f..2b315d3 100644
--- a/go/msgpack/decoder.go
+++ b/go/msgpack/decoder.go
@@ -886,13 +886,13 @@ func (d *Decoder) parseExtLen(c byte) (uint32, error) {
 	case FormatFixExt16:
 		return 16, nil
 	case FormatExt8:
-		n, err := d.ReadUint8()
+		n, err := d.reader.GetUint8()
 		return uint32(n), err
 	case FormatExt16:
-		n, err := d.ReadUint16()
+		n, err := d.reader.GetUint16()
 		return uint32(n), err
 	case FormatExt32:
-		n, err := d.ReadUint32()
+		n, err := d.reader.GetUint32()
 		return n, err
 	default:
 		return 0, ReadError{"msgpack: invalid code=" + strconv.FormatUint(uint64(c), 16) + " decoding ext len"}
-- 
2.43.0


From c96815de03c8c841f74390b587ac812aefb86389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:28 +0000
Subject: [PATCH 14/58] fix: timestamps with more than a second of nanoseconds
 are malformed

---
 go/msgpack/decoder.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/go/msgpack/decoder.go b/go/msgpack/decoder.go
index 2b315d3..3af3044 100644
--- a/go/msgpack/decoder.go
+++ b/go/msgpack/decoder.go
@@ -425,6 +425,9 @@ func (d *Decoder) ReadNillableTime() (*time.Time, error) {
 	return &val, err
 }
 
+// maxNsec is the largest number of nanoseconds a timestamp may have.
+const maxNsec = 999999999
+
 func (d *Decoder) decodeTime(extLen uint32) (time.Time, error) {
 	b, err := d.reader.GetBytes(extLen)
 	if err != nil {
@@ -439,10 +442,16 @@ func (d *Decoder) decodeTime(extLen uint32) (time.Time, error) {
 		sec := binary.BigEndian.Uint64(b)
 		nsec := int64(sec >> 34)
 		sec &= 0x00000003ffffffff
+		if nsec > maxNsec {
+			return time.Time{}, ReadError{"msgpack: invalid time nanoseconds"}
+		}
 		return time.Unix(int64(sec), nsec), nil
 	case 12:
 		nsec := binary.BigEndian.Uint32(b)
 		sec := binary.BigEndian.Uint64(b[4:])
+		if nsec > maxNsec {
+			return time.Time{}, ReadError{"msgpack: invalid time nanoseconds"}
+		}
 		return time.Unix(int64(sec), int64(nsec)), nil
 	default:
 		return time.Time{}, ReadError{"msgpack: invalid time ext len=" + strconv.FormatUint(uint64(extLen), 10)}
-- 
2.43.0


From 7d7f913195edde40fab96f4ca015ffb6fb504e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:28 +0000
Subject: [PATCH 15/58] fix: signed reads refuse integers written in an
 unsigned format

---
 go/msgpack/decoder.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/go/msgpack/decoder.go b/go/msgpack/decoder.go
index 3af3044..f9b1f1d 100644
--- a/go/msgpack/decoder.go
+++ b/go/msgpack/decoder.go
@@ -157,6 +157,25 @@ func (d *Decoder) ReadInt64() (int64, error) {
 	case FormatInt64:
 		v, err := d.reader.GetInt64()
 		return int64(v), err
+	case FormatUint8:
+		v, err := d.reader.GetUint8()
+		return int64(v), err
+	case FormatUint16:
+		v, err := d.reader.GetUint16()
+		return int64(v), err
+	case FormatUint32:
+		v, err := d.reader.GetUint32()
+		return int64(v), err
+	case FormatUint64:
+		v, err := d.reader.GetUint64()
+		if err == nil && v > math.MaxInt64 {
+			return 0, ReadError{
+				"interger overflow: value = " +
+					strconv.FormatUint(v, 10) +
+					"; bits = 64",
+			}
+		}
+		return int64(v), err
 	default:
 		return 0, ReadError{"bad prefix for int64"}
 	}
-- 
2.43.0


From 8c4ea52a99925f327181f76d9ebb6ab669997b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:28 +0000
Subject: [PATCH 16/58] fix: ReadFloat64 refuses 32-bit floats

---
 go/msgpack/decoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/go/msgpack/decoder.go b/go/msgpack/decoder.go
index f9b1f1d..9f0182d 100644
--- a/go/msgpack/decoder.go
+++ b/go/msgpack/decoder.go
@@ -378,6 +378,9 @@ func (d *Decoder) ReadFloat64() (float64, error) {
 
 	if prefix == FormatFloat64 {
 		return d.reader.GetFloat64()
+	} else if prefix == FormatFloat32 {
+		v, err := d.reader.GetFloat32()
+		return float64(v), err
 	}
 	return 0, ReadError{"bad prefix for float64"}
 }
-- 
2.43.0


From caf615c4d61d9f3997594bb206b268b436f6f165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:28 +0000
Subject: [PATCH 17/58] fix: Skip misplaces the decoder on extensions, huge
 maps and truncated values

---
 go/msgpack/decoder.go | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/go/msgpack/decoder.go b/go/msgpack/decoder.go
index 9f0182d..53d877e 100644
--- a/go/msgpack/decoder.go
+++ b/go/msgpack/decoder.go
@@ -621,27 +621,24 @@ func (d *Decoder) ReadMapSize() (uint32, error) {
 }
 
 func (d *Decoder) Skip() error {
-	numberOfObjectsToDiscard, err := d.getSize()
-	if err != nil {
-		return err
-	}
-
-	for numberOfObjectsToDiscard > 0 {
-		err = d.Skip() // Skip recursively
+	// Every remaining value takes at least one byte, so the count cannot
+	// overflow before the input is used up.
+	for numberOfObjectsToDiscard := uint64(1); numberOfObjectsToDiscard > 0; {
+		members, err := d.getSize()
 		if err != nil {
 			return err
 		}
-		numberOfObjectsToDiscard--
+		numberOfObjectsToDiscard += members - 1
 	}
 	return nil
 }
 
-func (d *Decoder) getSize() (uint32, error) {
+func (d *Decoder) getSize() (uint64, error) {
 	leadByte, err := d.reader.GetUint8()
 	if err != nil {
 		return 0, err
 	}
-	var objectsToDiscard uint32 = 0
+	var objectsToDiscard uint64 = 0
 
 	if isNegativeFixedInt(leadByte) || isFixedInt(leadByte) {
 		// Noop, will just discard the leadbyte
@@ -649,9 +646,9 @@ func (d *Decoder) getSize() (uint32, error) {
 		strLen := uint32(leadByte & 0x1f)
 		d.reader.Discard(strLen)
 	} else if isFixedArray(leadByte) {
-		objectsToDiscard = uint32(leadByte & FormatFourLeastSigBitsInByte)
+		objectsToDiscard = uint64(leadByte & FormatFourLeastSigBitsInByte)
 	} else if isFixedMap(leadByte) {
-		objectsToDiscard = 2 * uint32(leadByte&FormatFourLeastSigBitsInByte)
+		objectsToDiscard = 2 * uint64(leadByte&FormatFourLeastSigBitsInByte)
 	} else {
 		switch leadByte {
 		case FormatNil, FormatTrue, FormatFalse:
@@ -695,7 +692,7 @@ func (d *Decoder) getSize() (uint32, error) {
 		case FormatUint64, FormatInt64:
 			d.reader.Discard(8)
 		case FormatFixExt1:
-			d.reader.Discard(1)
+			d.reader.Discard(2)
 		case FormatFixExt2:
 			d.reader.Discard(3)
 		case FormatFixExt4:
@@ -704,36 +701,43 @@ func (d *Decoder) getSize() (uint32, error) {
 			d.reader.Discard(9)
 		case FormatFixExt16:
 			d.reader.Discard(17)
+		case FormatExt8, FormatExt16, FormatExt32:
+			length, err := d.parseExtLen(leadByte)
+			if err != nil {
+				return 0, err
+			}
+			d.reader.Discard(1)
+			d.reader.Discard(length)
 		case FormatArray16:
 			v, err := d.reader.GetUint16()
 			if err != nil {
 				return 0, err
 			}
-			objectsToDiscard = uint32(v)
+			objectsToDiscard = uint64(v)
 		case FormatArray32:
 			v, err := d.reader.GetUint32()
 			if err != nil {
 				return 0, err
 			}
-			objectsToDiscard = v
+			objectsToDiscard = uint64(v)
 		case FormatMap16:
 			v, err := d.reader.GetUint16()
 			if err != nil {
 				return 0, err
 			}
-			objectsToDiscard = 2 * uint32(v)
+			objectsToDiscard = 2 * uint64(v)
 		case FormatMap32:
 			v, err := d.reader.GetUint32()
 			if err != nil {
 				return 0, err
 			}
-			objectsToDiscard = 2 * v
+			objectsToDiscard = 2 * uint64(v)
 		default:
 			return 0, ReadError{"bad prefix"}
 		}
 	}
 
-	return objectsToDiscard, nil
+	return objectsToDiscard, d.reader.Err()
 }
 
 func (d *Decoder) ReadAny() (any, error) {
-- 
2.43.0


From 6c23312a0c133eea85a95d43d1cd02a68ec570b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:19 +0000
Subject: [PATCH 18/58] fix: ReadAny allocates whatever length the input claims

---
 go/msgpack/decoder.go | 57 +++++++++++++++++++++----------------------
 1 file changed, 28 insertions(+), 29 deletions(-)

diff --git a/go/msgpack/decoder.go b/go/msgpack/decoder.go
index 53d877e..89416d6 100644
--- a/go/msgpack/decoder.go
+++ b/go/msgpack/decoder.go
@@ -756,17 +756,11 @@ func (d *Decoder) ReadAny() (any, error) {
 	}
 
 	if isFixedArray(prefix) {
-		aryLen := uint32(prefix & FormatFourLeastSigBitsInByte)
-		ary := make([]any, aryLen)
-		err := d.readArray(ary)
-		return ary, err
+		return d.readArray(uint32(prefix & FormatFourLeastSigBitsInByte))
 	}
 
 	if isFixedMap(prefix) {
-		mapLen := uint32(prefix & FormatFourLeastSigBitsInByte)
-		m := make(map[any]any, mapLen)
-		err := d.readMap(m, mapLen)
-		return m, err
+		return d.readMap(uint32(prefix & FormatFourLeastSigBitsInByte))
 	}
 
 	switch prefix {
@@ -810,33 +804,25 @@ func (d *Decoder) ReadAny() (any, error) {
 		if err != nil {
 			return nil, err
 		}
-		ary := make([]any, v)
-		err = d.readArray(ary)
-		return ary, err
+		return d.readArray(uint32(v))
 	case FormatArray32:
 		v, err := d.reader.GetUint32()
 		if err != nil {
 			return nil, err
 		}
-		ary := make([]any, v)
-		err = d.readArray(ary)
-		return ary, err
+		return d.readArray(v)
 	case FormatMap16:
 		v, err := d.reader.GetUint16()
 		if err != nil {
 			return nil, err
 		}
-		m := make(map[any]any, v)
-		err = d.readMap(m, uint32(v))
-		return m, err
+		return d.readMap(uint32(v))
 	case FormatMap32:
 		v, err := d.reader.GetUint32()
 		if err != nil {
 			return nil, err
 		}
-		m := make(map[any]any, v)
-		err = d.readMap(m, v)
-		return m, err
+		return d.readMap(v)
 	case FormatBin8:
 		binLen, err := d.reader.GetUint8()
 		if err != nil {
@@ -860,30 +846,43 @@ func (d *Decoder) ReadAny() (any, error) {
 	return nil, ReadError{"bad value for bool"}
 }
 
-func (d *Decoder) readArray(array []any) error {
-	for i := 0; i < len(array); i++ {
+// maxPrealloc limits what is allocated for a list or map before its members
+// have been seen: the length is only a claim until then.
+const maxPrealloc = 64
+
+func prealloc(length uint32) uint32 {
+	if length > maxPrealloc {
+		return maxPrealloc
+	}
+	return length
+}
+
+func (d *Decoder) readArray(length uint32) (any, error) {
+	array := make([]any, 0, prealloc(length))
+	for i := uint32(0); i < length; i++ {
 		value, err := d.ReadAny()
 		if err != nil {
-			return err
+			return array, err
 		}
-		array[i] = value
+		array = append(array, value)
 	}
-	return nil
+	return array, nil
 }
 
-func (d *Decoder) readMap(m map[any]any, length uint32) error {
+func (d *Decoder) readMap(length uint32) (any, error) {
+	m := make(map[any]any, prealloc(length))
 	for i := uint32(0); i < length; i++ {
 		key, err := d.ReadAny()
 		if err != nil {
-			return err
+			return m, err
 		}
 		value, err := d.ReadAny()
 		if err != nil {
-			return err
+			return m, err
 		}
 		m[key] = value
 	}
-	return nil
+	return m, nil
 }
 
 func (d *Decoder) extHeader(c byte) (int8, uint32, error) {
-- 
2.43.0


From 052caf2475a0287549dc6ee2c3c554f41d5230bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:19 +0000
Subject: [PATCH 19/58] fix: ReadAny panics on map keys that cannot be hashed

---
 go/msgpack/decoder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/go/msgpack/decoder.go b/go/msgpack/decoder.go
index 89416d6..4b33cf0 100644
--- a/go/msgpack/decoder.go
+++ b/go/msgpack/decoder.go
@@ -876,6 +876,10 @@ func (d *Decoder) readMap(length uint32) (any, error) {
 		if err != nil {
 			return m, err
 		}
+		switch key.(type) {
+		case []byte, []any, map[any]any:
+			return m, ReadError{"bad type for map key"}
+		}
 		value, err := d.ReadAny()
 		if err != nil {
 			return m, err
-- 
2.43.0


From 34b5aacb6eac545dd4012a25c1969b852d3afdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:20 +0000
Subject: [PATCH 20/58] fix: deeply nested input exhausts the stack in ReadAny

---
 go/msgpack/decoder.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/go/msgpack/decoder.go b/go/msgpack/decoder.go
index 4b33cf0..5eb33f9 100644
--- a/go/msgpack/decoder.go
+++ b/go/msgpack/decoder.go
@@ -9,6 +9,7 @@ import (
 
 type Decoder struct {
 	reader DataReader
+	depth  int
 }
 
 func NewDecoder(buffer []byte) Decoder {
@@ -846,6 +847,17 @@ func (d *Decoder) ReadAny() (any, error) {
 	return nil, ReadError{"bad value for bool"}
 }
 
+// maxDepth limits the nesting of lists and maps in generic values.
+const maxDepth = 1024
+
+func (d *Decoder) enter() error {
+	if d.depth >= maxDepth {
+		return ReadError{"value is nested too deeply"}
+	}
+	d.depth++
+	return nil
+}
+
 // maxPrealloc limits what is allocated for a list or map before its members
 // have been seen: the length is only a claim until then.
 const maxPrealloc = 64
@@ -858,6 +870,10 @@ func prealloc(length uint32) uint32 {
 }
 
 func (d *Decoder) readArray(length uint32) (any, error) {
+	if err := d.enter(); err != nil {
+		return nil, err
+	}
+	defer func() { d.depth-- }()
 	array := make([]any, 0, prealloc(length))
 	for i := uint32(0); i < length; i++ {
 		value, err := d.ReadAny()
@@ -870,6 +886,10 @@ func (d *Decoder) readArray(length uint32) (any, error) {
 }
 
 func (d *Decoder) readMap(length uint32) (any, error) {
+	if err := d.enter(); err != nil {
+		return nil, err
+	}
+	defer func() { d.depth-- }()
 	m := make(map[any]any, prealloc(length))
 	for i := uint32(0); i < length; i++ {
 		key, err := d.ReadAny()
-- 
2.43.0


From 3ae56d312bc72b6e01e8f877069a082f5ba36d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:20 +0000
Subject: [PATCH 21/58] fix: ReadAny refuses the times that WriteAny writes

---
 go/msgpack/decoder.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/go/msgpack/decoder.go b/go/msgpack/decoder.go
index 5eb33f9..6ddbb43 100644
--- a/go/msgpack/decoder.go
+++ b/go/msgpack/decoder.go
@@ -413,6 +413,10 @@ func (d *Decoder) ReadTime() (time.Time, error) {
 	}
 
 	d.reader.Discard(1)
+	return d.readTime(prefix)
+}
+
+func (d *Decoder) readTime(prefix byte) (time.Time, error) {
 	extID, extLen, err := d.extHeader(prefix)
 	if err != nil {
 		return time.Time{}, err
@@ -824,6 +828,9 @@ func (d *Decoder) ReadAny() (any, error) {
 			return nil, err
 		}
 		return d.readMap(v)
+	case FormatFixExt1, FormatFixExt2, FormatFixExt4, FormatFixExt8, FormatFixExt16,
+		FormatExt8, FormatExt16, FormatExt32:
+		return d.readTime(prefix)
 	case FormatBin8:
 		binLen, err := d.reader.GetUint8()
 		if err != nil {
-- 
2.43.0


From 1cfdd63a666a1507915b8a2a0beb3903a8d46fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:21 +0000
Subject: [PATCH 22/58] fix: optional conversions dereference absent values

---
 go/msgpack/convert/convert.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/go/msgpack/convert/convert.go b/go/msgpack/convert/convert.go
index 455fc93..35b6550 100644
--- a/go/msgpack/convert/convert.go
+++ b/go/msgpack/convert/convert.go
@@ -71,6 +71,9 @@ func String[T ~string](value string, err error) (T, error) {
 }
 
 func NillableString[T ~string](value *string, err error) (*T, error) {
+	if value == nil || err != nil {
+		return nil, err
+	}
 	ret := T(*value)
 	return &ret, err
 }
@@ -80,6 +83,9 @@ func Bool[T ~bool](value bool, err error) (T, error) {
 }
 
 func NillableBool[T ~bool](value *bool, err error) (*T, error) {
+	if value == nil || err != nil {
+		return nil, err
+	}
 	ret := T(*value)
 	return &ret, err
 }
@@ -95,6 +101,9 @@ func Numeric[T, I numberic](value I, err error) (T, error) {
 }
 
 func NillableNumeric[T, I numberic](value *I, err error) (*T, error) {
+	if value == nil || err != nil {
+		return nil, err
+	}
 	ret := T(*value)
 	return &ret, err
 }
-- 
2.43.0


From 0e429c2a16fada8c91b24cbec18ec8c9e3476c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:06 +0000
Subject: [PATCH 23/58] fix: an empty custom section at the end of a module is
 an error

---
 go/transport/wasmrs/customsections/customsections.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/go/transport/wasmrs/customsections/customsections.go b/go/transport/wasmrs/customsections/customsections.go
index 480e332..d26910a 100644
--- a/go/transport/wasmrs/customsections/customsections.go
+++ b/go/transport/wasmrs/customsections/customsections.go
@@ -123,7 +123,9 @@ func decodeUTF8(r *bytes.Reader, contextFormat string, contextArgs ...interface{
 // See https://www.w3.org/TR/2019/REC-wasm-core-1-20191205/#custom-section%E2%91%A0
 func decodeCustomSection(r *bytes.Reader, name string, limit uint64) (result *wasm.CustomSection, err error) {
 	buf := make([]byte, limit)
-	_, err = r.Read(buf)
+	if _, err = io.ReadFull(r, buf); err != nil {
+		return nil, err
+	}
 
 	result = &wasm.CustomSection{
 		Name: name,
-- 
2.43.0


From 89f538b69ff304b0a5de099069fc64256f948436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:06 +0000
Subject: [PATCH 24/58] fix: section sizes are trusted when allocating

---
 go/transport/wasmrs/customsections/customsections.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/go/transport/wasmrs/customsections/customsections.go b/go/transport/wasmrs/customsections/customsections.go
index d26910a..1372803 100644
--- a/go/transport/wasmrs/customsections/customsections.go
+++ b/go/transport/wasmrs/customsections/customsections.go
@@ -106,6 +106,9 @@ func decodeUTF8(r *bytes.Reader, contextFormat string, contextArgs ...interface{
 		return "", 0, fmt.Errorf("failed to read %s size: %w", fmt.Sprintf(contextFormat, contextArgs...), err)
 	}
 
+	if uint64(size) > uint64(r.Len()) {
+		return "", 0, fmt.Errorf("failed to read %s: %w", fmt.Sprintf(contextFormat, contextArgs...), io.ErrUnexpectedEOF)
+	}
 	buf := make([]byte, size)
 	if _, err = io.ReadFull(r, buf); err != nil {
 		return "", 0, fmt.Errorf("failed to read %s: %w", fmt.Sprintf(contextFormat, contextArgs...), err)
@@ -122,6 +125,9 @@ func decodeUTF8(r *bytes.Reader, contextFormat string, contextArgs ...interface{
 //
 // See https://www.w3.org/TR/2019/REC-wasm-core-1-20191205/#custom-section%E2%91%A0
 func decodeCustomSection(r *bytes.Reader, name string, limit uint64) (result *wasm.CustomSection, err error) {
+	if limit > uint64(r.Len()) {
+		return nil, io.ErrUnexpectedEOF
+	}
 	buf := make([]byte, limit)
 	if _, err = io.ReadFull(r, buf); err != nil {
 		return nil, err
-- 
2.43.0


From 03ec276065df51ba7bc53ddad702e1de529518ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:39 +0000
Subject: [PATCH 25/58] fix: UUID text with other characters in place of the
 braces is accepted

---
 go/types/uuid/uuid.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/go/types/uuid/uuid.go b/go/types/uuid/uuid.go
index 61a3725..1d18343 100644
--- a/go/types/uuid/uuid.go
+++ b/go/types/uuid/uuid.go
@@ -76,6 +76,9 @@ func Parse(s string) (UUID, error) {
 
 	// {xxxxxxxx-xxxx-xxxx-xxxx-xxxxxxxxxxxx}
 	case 36 + 2:
+		if s[0] != '{' || s[37] != '}' {
+			return uuid, errors.New("invalid UUID format")
+		}
 		s = s[1:]
 
 	// xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx
@@ -122,6 +125,9 @@ func ParseBytes(b []byte) (UUID, error) {
 		}
 		b = b[9:]
 	case 36 + 2: // {xxxxxxxx-xxxx-xxxx-xxxx-xxxxxxxxxxxx}
+		if b[0] != '{' || b[37] != '}' {
+			return uuid, errors.New("invalid UUID format")
+		}
 		b = b[1:]
 	case 32: // xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx
 		var ok bool
-- 
2.43.0


From 97c2b01677234471efe7519dc9c5e59ff353aeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:41 +0000
Subject: [PATCH 26/58] fix: SliceDecode ignores errors and allocates whatever
 size the payload claims

---
 go/transform/transform.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/go/transform/transform.go b/go/transform/transform.go
index a4fa130..3b7c7b9 100644
--- a/go/transform/transform.go
+++ b/go/transform/transform.go
@@ -375,16 +375,24 @@ func StringEncode[T ~string](val T) (payload.Payload, error) {
 
 func SliceDecode[T any, P MsgPackCodecPtr[T]](raw payload.Payload) ([]T, error) {
 	decoder := msgpack.NewDecoder(raw.Data())
-	size, _ := decoder.ReadArraySize()
-	items := make([]T, size)
-	i := 0
+	size, err := decoder.ReadArraySize()
+	if err != nil {
+		return nil, err
+	}
+	// The size is not trusted: the payload may hold fewer items.
+	capacity := int(size)
+	if capacity > len(raw.Data()) {
+		capacity = len(raw.Data())
+	}
+	items := make([]T, 0, capacity)
 	for size > 0 {
 		size--
 		var item T
 		p := (P)(&item)
-		p.Decode(&decoder)
-		items[i] = item
-		i++
+		if err = p.Decode(&decoder); err != nil {
+			return nil, err
+		}
+		items = append(items, item)
 	}
 	return items, nil
 }
-- 
2.43.0


From 3a68d63022b8b37864f42204521e5b400aed28a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:30 +0000
Subject: [PATCH 27/58] fix: constant and failed publishers never call the
 finally callback

---
 go/rx/flux/flux.go | 11 ++++++++++-
 go/rx/mono/mono.go |  6 ++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/go/rx/flux/flux.go b/go/rx/flux/flux.go
index 864f7e5..0c6e385 100644
--- a/go/rx/flux/flux.go
+++ b/go/rx/flux/flux.go
@@ -47,6 +47,9 @@ func (e errorFlow[T]) Subscribe(sub Subscribe[T]) Flux[T] {
 	if sub.OnError != nil {
 		sub.OnError(e.err)
 	}
+	if sub.Finally != nil {
+		sub.Finally(rx.SignalError)
+	}
 	return e
 }
 
@@ -61,9 +64,15 @@ func (e errorFlow[T]) Block(_ Subscribe[T]) error {
 }
 
 func (e errorFlow[T]) Subscription() rx.Subscription {
-	return nil
+	return ended{}
 }
 
+// ended is the subscription of a publisher that has nothing left to emit.
+type ended struct{}
+
+func (ended) Request(n int) {}
+func (ended) Cancel()       {}
+
 func Create[T any](source Source[T]) Flux[T] {
 	return &flux[T]{
 		source: source,
diff --git a/go/rx/mono/mono.go b/go/rx/mono/mono.go
index 002c985..047ccc6 100644
--- a/go/rx/mono/mono.go
+++ b/go/rx/mono/mono.go
@@ -42,6 +42,9 @@ func (e errorSingle[T]) Subscribe(sub Subscribe[T]) Mono[T] {
 	if sub.OnError != nil {
 		sub.OnError(e.err)
 	}
+	if sub.Finally != nil {
+		sub.Finally(rx.SignalError)
+	}
 	return e
 }
 
@@ -74,6 +77,9 @@ func (j justSingle[T]) Subscribe(sub Subscribe[T]) Mono[T] {
 	if sub.OnSuccess != nil {
 		sub.OnSuccess(j.value)
 	}
+	if sub.Finally != nil {
+		sub.Finally(rx.SignalComplete)
+	}
 	return j
 }
 
-- 
2.43.0


From 951160c8cebab4f4b7e0cbfb8d3499fdf609494a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:58 +0000
Subject: [PATCH 28/58] fix: notifications of a mono registered during delivery
 carry the wrong signal

---
 go/rx/mono/mono.go      | 97 ++++++++++++++++++++++++++---------------
 go/rx/mono/mono_host.go |  4 +-
 2 files changed, 65 insertions(+), 36 deletions(-)

diff --git a/go/rx/mono/mono.go b/go/rx/mono/mono.go
index 047ccc6..d3ab6d8 100644
--- a/go/rx/mono/mono.go
+++ b/go/rx/mono/mono.go
@@ -1,6 +1,8 @@
 package mono
 
 import (
+	"sync"
+
 	"github.com/nanobus/iota/go/rx"
 )
 
@@ -108,18 +110,23 @@ type mono[T any] struct {
 	source     Source[T]
 	subscriber *subscriber[T]
 	callbacks  []rx.FnFinally
+
+	// mu guards the subscriber's state and the callbacks.
+	mu sync.Mutex
 }
 
 func (m *mono[T]) Subscribe(sub Subscribe[T]) Mono[T] {
-	wrapper := subscriber[T]{
+	wrapper := &subscriber[T]{
 		m:             m,
 		doOnSuccess:   sub.OnSuccess,
 		doOnError:     sub.OnError,
 		doOnSubscribe: sub.OnRequest,
 		doFinally:     sub.Finally,
 	}
-	m.subscriber = &wrapper
-	m.source(&wrapper)
+	m.mu.Lock()
+	m.subscriber = wrapper
+	m.mu.Unlock()
+	m.source(wrapper)
 	return m
 }
 
@@ -127,32 +134,41 @@ func (m *mono[T]) Async() {
 }
 
 func (m *mono[T]) Notify(fn rx.FnFinally) {
-	// if m.subscriber == nil {
-	// 	wrapper := subscriber[T]{}
-	// 	m.subscriber = &wrapper
-	// 	m.source(&wrapper)
-	// }
-	if m.subscriber != nil && m.subscriber.closed {
-		fn(m.subscriber.signal)
+	m.mu.Lock()
+	if s := m.subscriber; s != nil && s.notified {
+		m.mu.Unlock()
+		fn(s.signal)
 		return
 	}
-
 	m.callbacks = append(m.callbacks, fn)
+	m.mu.Unlock()
 }
 
 func (m *mono[T]) Get() (ret T, err error) {
-	if !m.subscriber.closed {
+	ret, err, ok := m.outcome()
+	if !ok {
 		panic("mono: Get called before completion")
 	}
-	return m.subscriber.value, m.subscriber.err
+	return ret, err
+}
+
+// outcome returns the value or error, if there is one already.
+func (m *mono[T]) outcome() (ret T, err error, ok bool) {
+	m.mu.Lock()
+	defer m.mu.Unlock()
+	if m.subscriber == nil || !m.subscriber.closed {
+		return ret, nil, false
+	}
+	return m.subscriber.value, m.subscriber.err, true
 }
 
 type subscriber[T any] struct {
-	closed bool
-	value  T
-	err    error
-	signal rx.SignalType
-	m      *mono[T]
+	closed   bool // the outcome is known
+	notified bool // the subscriber has seen it
+	value    T
+	err      error
+	signal   rx.SignalType
+	m        *mono[T]
 
 	doOnSuccess   rx.FnOnNext[T]
 	doOnError     rx.FnOnError
@@ -161,45 +177,58 @@ type subscriber[T any] struct {
 }
 
 func (s *subscriber[T]) Success(value T) {
-	if s.closed {
+	if !s.close(value, nil, rx.SignalComplete) {
 		return
 	}
-	s.value = value
-	s.closed = true
 	if s.doOnSuccess != nil {
 		s.doOnSuccess(value)
 	}
-	s.finally(rx.SignalComplete)
+	s.finally()
 }
 
 func (s *subscriber[T]) Error(err error) {
-	if s.closed {
+	var none T
+	if !s.close(none, err, rx.SignalError) {
 		return
 	}
-	s.err = err
-	s.closed = true
 	if s.doOnError != nil {
 		s.doOnError(err)
 	}
-	s.finally(rx.SignalError)
+	s.finally()
+}
+
+// close records the outcome, unless there is one already.
+func (s *subscriber[T]) close(value T, err error, signal rx.SignalType) bool {
+	s.m.mu.Lock()
+	defer s.m.mu.Unlock()
+	if s.closed {
+		return false
+	}
+	s.closed = true
+	s.value, s.err, s.signal = value, err, signal
+	return true
 }
 
-func (s *subscriber[T]) finally(signal rx.SignalType) {
-	s.signal = signal
+func (s *subscriber[T]) finally() {
 	if s.doFinally != nil {
-		s.doFinally(signal)
+		s.doFinally(s.signal)
 	}
-	for _, fn := range s.m.callbacks {
-		fn(signal)
+	s.m.mu.Lock()
+	s.notified = true
+	callbacks := s.m.callbacks
+	s.m.callbacks = nil
+	s.m.mu.Unlock()
+	for _, fn := range callbacks {
+		fn(s.signal)
 	}
 }
 
 func (s *subscriber[T]) Cancel() {
-	if s.closed {
+	var none T
+	if !s.close(none, nil, rx.SignalCancel) {
 		return
 	}
-	s.closed = true
-	s.finally(rx.SignalCancel)
+	s.finally()
 }
 
 func Map[S any | ~[]any, D any](mono Mono[S], tx rx.Transform[S, D]) Mono[D] {
diff --git a/go/rx/mono/mono_host.go b/go/rx/mono/mono_host.go
index 72e0c0d..b5cc61f 100644
--- a/go/rx/mono/mono_host.go
+++ b/go/rx/mono/mono_host.go
@@ -8,8 +8,8 @@ type Blockable[T any] interface {
 }
 
 func (s *mono[T]) Block() (ret T, err error) {
-	if s.subscriber != nil && s.subscriber.closed {
-		return s.subscriber.value, s.subscriber.err
+	if ret, err, ok := s.outcome(); ok {
+		return ret, err
 	}
 
 	done := make(chan struct{})
-- 
2.43.0


From 25d21985242276980b8e0a236f9f7ff2537ea55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:58 +0000
Subject: [PATCH 29/58] fix: waiting for a mono that gets cancelled never
 returns

---
 go/rx/mono/mono_host.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/go/rx/mono/mono_host.go b/go/rx/mono/mono_host.go
index b5cc61f..ad76ddf 100644
--- a/go/rx/mono/mono_host.go
+++ b/go/rx/mono/mono_host.go
@@ -3,6 +3,10 @@
 
 package mono
 
+import (
+	"github.com/nanobus/iota/go/rx"
+)
+
 type Blockable[T any] interface {
 	Block() (T, error)
 }
@@ -17,10 +21,11 @@ func (s *mono[T]) Block() (ret T, err error) {
 		s.Subscribe(Subscribe[T]{
 			OnSuccess: func(value T) {
 				ret = value
-				close(done)
 			},
 			OnError: func(e error) {
 				err = e
+			},
+			Finally: func(rx.SignalType) {
 				close(done)
 			},
 		})
-- 
2.43.0


From 59193277386c37660c2834e90a786832c1da4137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:00 +0000
Subject: [PATCH 30/58] fix: a mapped mono whose function fails reports
 completion

---
 go/rx/mono/mono.go      | 53 +++++++++++++++++++++++++++++++++++++----
 go/rx/mono/mono_host.go |  7 +++++-
 2 files changed, 55 insertions(+), 5 deletions(-)

diff --git a/go/rx/mono/mono.go b/go/rx/mono/mono.go
index d3ab6d8..414e4cf 100644
--- a/go/rx/mono/mono.go
+++ b/go/rx/mono/mono.go
@@ -241,13 +241,21 @@ func Map[S any | ~[]any, D any](mono Mono[S], tx rx.Transform[S, D]) Mono[D] {
 type mapper[S any, D any] struct {
 	mono Mono[S]
 	tx   rx.Transform[S, D]
+
+	// mu guards what the function returned.
+	mu     sync.Mutex
+	mapped bool
+	value  D
+	err    error
 }
 
 func (b *mapper[S, D]) Subscribe(sub Subscribe[D]) Mono[D] {
+	var failed error
 	b.mono.Subscribe(Subscribe[S]{
 		OnSuccess: func(value S) {
-			converted, err := b.tx(value)
+			converted, err := b.convert(value)
 			if err != nil {
+				failed = err
 				if sub.OnError != nil {
 					sub.OnError(err)
 				}
@@ -259,24 +267,61 @@ func (b *mapper[S, D]) Subscribe(sub Subscribe[D]) Mono[D] {
 		},
 		OnError:   sub.OnError,
 		OnRequest: sub.OnRequest,
-		Finally:   sub.Finally,
+		Finally: func(signal rx.SignalType) {
+			if failed != nil {
+				signal = rx.SignalError
+			}
+			if sub.Finally != nil {
+				sub.Finally(signal)
+			}
+		},
 	})
 	return b
 }
 
+// convert applies the function and keeps what it returned.
+func (b *mapper[S, D]) convert(value S) (D, error) {
+	converted, err := b.tx(value)
+	if err != nil {
+		var none D
+		converted = none
+	}
+	b.mu.Lock()
+	defer b.mu.Unlock()
+	b.mapped, b.value, b.err = true, converted, err
+	return converted, err
+}
+
+// outcome returns what the function returned, if it has been applied already.
+func (b *mapper[S, D]) outcome() (ret D, err error, ok bool) {
+	b.mu.Lock()
+	defer b.mu.Unlock()
+	return b.value, b.err, b.mapped
+}
+
 func (b *mapper[S, D]) Async() {
 	b.mono.Async()
 }
 
 func (b *mapper[S, D]) Notify(fn rx.FnFinally) {
-	b.mono.Notify(fn)
+	b.mono.Notify(func(signal rx.SignalType) {
+		if signal == rx.SignalComplete {
+			if _, err := b.Get(); err != nil {
+				signal = rx.SignalError
+			}
+		}
+		fn(signal)
+	})
 }
 
 func (b *mapper[S, D]) Get() (D, error) {
+	if ret, err, ok := b.outcome(); ok {
+		return ret, err
+	}
 	var d D
 	v, err := b.mono.Get()
 	if err != nil {
 		return d, err
 	}
-	return b.tx(v)
+	return b.convert(v)
 }
diff --git a/go/rx/mono/mono_host.go b/go/rx/mono/mono_host.go
index ad76ddf..2b1a172 100644
--- a/go/rx/mono/mono_host.go
+++ b/go/rx/mono/mono_host.go
@@ -36,15 +36,20 @@ func (s *mono[T]) Block() (ret T, err error) {
 }
 
 func (b *mapper[S, D]) Block() (ret D, err error) {
+	if ret, err, ok := b.outcome(); ok {
+		return ret, err
+	}
+
 	done := make(chan struct{})
 	go func() {
 		b.Subscribe(Subscribe[D]{
 			OnSuccess: func(value D) {
 				ret = value
-				close(done)
 			},
 			OnError: func(e error) {
 				err = e
+			},
+			Finally: func(rx.SignalType) {
 				close(done)
 			},
 		})
-- 
2.43.0


From 2f854835e287fc6236f5cfe406c33692e9090925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:36 +0000
Subject: [PATCH 31/58] fix: a cancelled flux skips notifications, ends twice
 and keeps asking for items

---
 go/rx/flux/flux.go             | 108 ++++++++++++++++++++++++---------
 go/rx/flux/flux_host.go        |  11 ++--
 go/rx/flux/flux_webassembly.go |   4 +-
 3 files changed, 89 insertions(+), 34 deletions(-)

diff --git a/go/rx/flux/flux.go b/go/rx/flux/flux.go
index 0c6e385..cfdc4b7 100644
--- a/go/rx/flux/flux.go
+++ b/go/rx/flux/flux.go
@@ -1,6 +1,8 @@
 package flux
 
 import (
+	"sync"
+
 	"github.com/nanobus/iota/go/rx"
 )
 
@@ -83,10 +85,13 @@ type flux[T any] struct {
 	source     Source[T]
 	subscriber *subscriber[T]
 	callbacks  []rx.FnFinally
+
+	// mu guards the subscriber's state and the callbacks.
+	mu sync.Mutex
 }
 
 func (f *flux[T]) Subscribe(sub Subscribe[T]) Flux[T] {
-	s := subscriber[T]{
+	s := &subscriber[T]{
 		doOnComplete: sub.OnComplete,
 		doOnError:    sub.OnError,
 		doOnNext:     sub.OnNext,
@@ -95,28 +100,36 @@ func (f *flux[T]) Subscribe(sub Subscribe[T]) Flux[T] {
 		f:            f,
 		noRequest:    sub.NoRequest,
 	}
-	f.subscriber = &s
-	f.source(&s)
+	f.mu.Lock()
+	f.subscriber = s
+	f.mu.Unlock()
+	f.source(s)
 	s.handleOnSubscribe()
 	return f
 }
 
 func (f *flux[T]) Subscription() rx.Subscription {
+	f.mu.Lock()
+	defer f.mu.Unlock()
 	return f.subscriber
 }
 
 func (f *flux[T]) Async() {}
 
 func (f *flux[T]) Notify(fn rx.FnFinally) {
-	if f.subscriber != nil && f.subscriber.closed {
-		fn(f.subscriber.signal)
+	f.mu.Lock()
+	if s := f.subscriber; s != nil && s.notified {
+		f.mu.Unlock()
+		fn(s.signal)
 		return
 	}
 	f.callbacks = append(f.callbacks, fn)
+	f.mu.Unlock()
 }
 
 type subscriber[T any] struct {
-	closed    bool
+	closed    bool // the outcome is known
+	notified  bool // the subscriber has seen it
 	n         int
 	err       error
 	sub       OnSubscribe
@@ -134,59 +147,86 @@ type subscriber[T any] struct {
 }
 
 func (s *subscriber[T]) Next(value T) {
+	s.f.mu.Lock()
 	if s.closed {
+		s.f.mu.Unlock()
 		return
 	}
 	s.n--
+	s.f.mu.Unlock()
 	if s.doOnNext != nil {
 		s.doOnNext(value)
 	}
 
-	if s.n == 0 {
+	s.f.mu.Lock()
+	exhausted := s.n == 0
+	s.f.mu.Unlock()
+	if exhausted {
 		s.handleOnSubscribe()
 	}
 }
 
 func (s *subscriber[T]) Complete() {
-	if s.closed {
+	if !s.close(nil, rx.SignalComplete) {
 		return
 	}
-	s.closed = true
 	if s.doOnComplete != nil {
 		s.doOnComplete()
 	}
-	s.finally(rx.SignalComplete)
+	s.finally()
 }
 
 func (s *subscriber[T]) Error(err error) {
-	if s.closed {
+	if !s.close(err, rx.SignalError) {
 		return
 	}
-	s.err = err
-	s.closed = true
 	if s.doOnError != nil {
 		s.doOnError(err)
 	}
-	s.finally(rx.SignalError)
+	s.finally()
 }
 
-func (s *subscriber[T]) finally(signal rx.SignalType) {
-	s.signal = signal
+// close records the outcome, unless there is one already.
+func (s *subscriber[T]) close(err error, signal rx.SignalType) bool {
+	s.f.mu.Lock()
+	defer s.f.mu.Unlock()
+	if s.closed {
+		return false
+	}
+	s.closed = true
+	s.err, s.signal = err, signal
+	return true
+}
+
+func (s *subscriber[T]) finally() {
 	if s.doFinally != nil {
-		s.doFinally(signal)
+		s.doFinally(s.signal)
 	}
-	for _, fn := range s.f.callbacks {
-		fn(signal)
+	s.f.mu.Lock()
+	s.notified = true
+	callbacks := s.f.callbacks
+	s.f.callbacks = nil
+	s.f.mu.Unlock()
+	for _, fn := range callbacks {
+		fn(s.signal)
 	}
 }
 
 func (s *subscriber[T]) OnSubscribe(sub OnSubscribe) {
+	s.f.mu.Lock()
 	if s.closed {
+		cancelled := s.signal == rx.SignalCancel
+		s.f.mu.Unlock()
+		if cancelled && sub.Cancel != nil {
+			sub.Cancel()
+		}
 		return
 	}
 	s.sub = sub
-	if s.n > 0 {
-		s.doRequest(s.n)
+	n := s.n
+	s.f.mu.Unlock()
+	if n > 0 && sub.Request != nil {
+		s.doRequest(sub.Request, n)
 	}
 }
 
@@ -202,23 +242,35 @@ func (s *subscriber[T]) handleOnSubscribe() {
 }
 
 func (s *subscriber[T]) Request(n int) {
+	s.f.mu.Lock()
+	if s.closed {
+		s.f.mu.Unlock()
+		return
+	}
 	s.n += n
-	if s.sub.Request != nil {
-		s.doRequest(n)
+	request := s.sub.Request
+	s.f.mu.Unlock()
+	if request != nil {
+		s.doRequest(request, n)
 	}
 }
 
 func (s *subscriber[T]) Cancel() {
-	s.closed = true
-	if s.sub.Cancel != nil {
-		s.sub.Cancel()
+	if !s.close(nil, rx.SignalCancel) {
+		return
 	}
-	if s.doFinally != nil {
-		s.doFinally(rx.SignalCancel)
+	s.f.mu.Lock()
+	cancel := s.sub.Cancel
+	s.f.mu.Unlock()
+	if cancel != nil {
+		cancel()
 	}
+	s.finally()
 }
 
 func (s *subscriber[T]) Close() {
+	s.f.mu.Lock()
+	defer s.f.mu.Unlock()
 	s.closed = true
 }
 
diff --git a/go/rx/flux/flux_host.go b/go/rx/flux/flux_host.go
index bdf98f5..aff525f 100644
--- a/go/rx/flux/flux_host.go
+++ b/go/rx/flux/flux_host.go
@@ -17,18 +17,21 @@ type mutex struct {
 	sync.Mutex
 }
 
-func (s *subscriber[T]) doRequest(n int) {
+func (s *subscriber[T]) doRequest(request func(n int), n int) {
 	go func(n int) {
 		s.mu.Lock()
 		defer s.mu.Unlock()
-		s.sub.Request(n)
+		request(n)
 	}(n)
 }
 
 func (f *flux[T]) Block(sub Subscribe[T]) (err error) {
-	if f.subscriber.closed {
-		return f.subscriber.err
+	f.mu.Lock()
+	if s := f.subscriber; s != nil && s.closed {
+		f.mu.Unlock()
+		return s.err
 	}
+	f.mu.Unlock()
 
 	return Block(Flux[T](f), sub)
 }
diff --git a/go/rx/flux/flux_webassembly.go b/go/rx/flux/flux_webassembly.go
index 08ca2f7..6867da6 100644
--- a/go/rx/flux/flux_webassembly.go
+++ b/go/rx/flux/flux_webassembly.go
@@ -8,6 +8,6 @@ type Blockable[T any] interface {
 
 type mutex struct{}
 
-func (s *subscriber[T]) doRequest(n int) {
-	s.sub.Request(n)
+func (s *subscriber[T]) doRequest(request func(n int), n int) {
+	request(n)
 }
-- 
2.43.0


From 05aa32d85f15657817c1c435d61b7a5e357e5275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:01 +0000
Subject: [PATCH 32/58] fix: only the first subscription to a slice-backed flux
 gets its items

---
 go/rx/flux/slice.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/go/rx/flux/slice.go b/go/rx/flux/slice.go
index d3b2881..803871d 100644
--- a/go/rx/flux/slice.go
+++ b/go/rx/flux/slice.go
@@ -2,6 +2,8 @@ package flux
 
 func FromSlice[T any](values []T) Flux[T] {
 	return Create(func(sink Sink[T]) {
+		// Each subscription starts at the first item.
+		values := values
 		sink.OnSubscribe(OnSubscribe{
 			Request: func(n int) {
 				for i := n; i > 0 && len(values) != 0; i-- {
-- 
2.43.0


From 58f8aa4c2b1deb85e3eee20fe181d10c2227a1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:04 +0000
Subject: [PATCH 33/58] fix: a mapped flux goes on after its function failed

---
 go/rx/flux/flux.go      | 96 +++++++++++++++++++++++++++++++----------
 go/rx/flux/flux_host.go |  2 +-
 2 files changed, 75 insertions(+), 23 deletions(-)

diff --git a/go/rx/flux/flux.go b/go/rx/flux/flux.go
index cfdc4b7..e1579e4 100644
--- a/go/rx/flux/flux.go
+++ b/go/rx/flux/flux.go
@@ -268,14 +268,8 @@ func (s *subscriber[T]) Cancel() {
 	s.finally()
 }
 
-func (s *subscriber[T]) Close() {
-	s.f.mu.Lock()
-	defer s.f.mu.Unlock()
-	s.closed = true
-}
-
 func Map[S, D any](f Flux[S], tx rx.Transform[S, D]) Flux[D] {
-	return mapper[S, D]{
+	return &mapper[S, D]{
 		f:  f,
 		tx: tx,
 	}
@@ -284,18 +278,46 @@ func Map[S, D any](f Flux[S], tx rx.Transform[S, D]) Flux[D] {
 type mapper[S, D any] struct {
 	f  Flux[S]
 	tx rx.Transform[S, D]
-}
 
-type closable[T any] interface {
-	Close()
+	// failed is set when the function failed in the current subscription.
+	mu     sync.Mutex
+	failed bool
 }
 
-func (m mapper[S, D]) Subscribe(sub Subscribe[D]) Flux[D] {
+func (m *mapper[S, D]) Subscribe(sub Subscribe[D]) Flux[D] {
+	// ended and failed are this subscription's.
+	var ended, failed bool
+	m.setFailed(false)
+
+	// end claims the outcome for the source, unless the function has failed.
+	end := func() bool {
+		m.mu.Lock()
+		defer m.mu.Unlock()
+		ended = !failed
+		return ended
+	}
+	// fail claims the outcome for the function's error.
+	fail := func() bool {
+		m.mu.Lock()
+		defer m.mu.Unlock()
+		if ended || failed {
+			return false
+		}
+		failed, m.failed = true, true
+		return true
+	}
+
 	m.f.Subscribe(Subscribe[S]{
 		OnNext: func(value S) {
+			m.mu.Lock()
+			skip := failed
+			m.mu.Unlock()
+			if skip {
+				return
+			}
 			if converted, err := m.tx(value); err != nil {
-				if close, ok := m.f.(closable[S]); ok {
-					close.Close()
+				if !fail() {
+					return
 				}
 				if sub.OnError != nil {
 					sub.OnError(err)
@@ -303,27 +325,57 @@ func (m mapper[S, D]) Subscribe(sub Subscribe[D]) Flux[D] {
 				if sub.Finally != nil {
 					sub.Finally(rx.SignalError)
 				}
+				// The rest of the source is of no use.
+				if s := m.f.Subscription(); s != nil {
+					s.Cancel()
+				}
 			} else if sub.OnNext != nil {
 				sub.OnNext(converted)
 			}
 		},
-		OnComplete: sub.OnComplete,
-		OnError:    sub.OnError,
-		OnRequest:  sub.OnRequest,
-		Finally:    sub.Finally,
-		NoRequest:  sub.NoRequest,
+		OnComplete: func() {
+			if end() && sub.OnComplete != nil {
+				sub.OnComplete()
+			}
+		},
+		OnError: func(err error) {
+			if end() && sub.OnError != nil {
+				sub.OnError(err)
+			}
+		},
+		OnRequest: sub.OnRequest,
+		Finally: func(signal rx.SignalType) {
+			if end() && sub.Finally != nil {
+				sub.Finally(signal)
+			}
+		},
+		NoRequest: sub.NoRequest,
 	})
 	return m
 }
 
-func (m mapper[S, D]) Async() {
+func (m *mapper[S, D]) setFailed(failed bool) {
+	m.mu.Lock()
+	defer m.mu.Unlock()
+	m.failed = failed
+}
+
+func (m *mapper[S, D]) Async() {
 	m.f.Async()
 }
 
-func (m mapper[S, D]) Notify(fn rx.FnFinally) {
-	m.f.Notify(fn)
+func (m *mapper[S, D]) Notify(fn rx.FnFinally) {
+	m.f.Notify(func(signal rx.SignalType) {
+		m.mu.Lock()
+		failed := m.failed
+		m.mu.Unlock()
+		if failed {
+			signal = rx.SignalError
+		}
+		fn(signal)
+	})
 }
 
-func (m mapper[S, D]) Subscription() rx.Subscription {
+func (m *mapper[S, D]) Subscription() rx.Subscription {
 	return m.f.Subscription()
 }
diff --git a/go/rx/flux/flux_host.go b/go/rx/flux/flux_host.go
index aff525f..3905d57 100644
--- a/go/rx/flux/flux_host.go
+++ b/go/rx/flux/flux_host.go
@@ -36,7 +36,7 @@ func (f *flux[T]) Block(sub Subscribe[T]) (err error) {
 	return Block(Flux[T](f), sub)
 }
 
-func (b mapper[S, D]) Block(sub Subscribe[D]) (err error) {
+func (b *mapper[S, D]) Block(sub Subscribe[D]) (err error) {
 	return Block(Flux[D](b), sub)
 }
 
-- 
2.43.0


From ff12bfff452c0acc5b6f6f4adc70428fe003f721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:41 +0000
Subject: [PATCH 34/58] fix: processors forget a stream's end and mix up
 several outcomes

---
 go/rx/flux/processor.go | 66 ++++++++++++++++++++++++++++++++---------
 go/rx/mono/processor.go | 45 ++++++++++++++++++++--------
 2 files changed, 85 insertions(+), 26 deletions(-)

diff --git a/go/rx/flux/processor.go b/go/rx/flux/processor.go
index 10770a6..faf88b1 100644
--- a/go/rx/flux/processor.go
+++ b/go/rx/flux/processor.go
@@ -1,5 +1,9 @@
 package flux
 
+import (
+	"sync"
+)
+
 type Processor[T any] interface {
 	Flux[T]
 	Sink[T]
@@ -7,17 +11,33 @@ type Processor[T any] interface {
 
 type processor[T any] struct {
 	Flux[T]
-	sink Sink[T]
-	sub  *OnSubscribe
+
+	// mu guards the fields below.
+	mu    sync.Mutex
+	sink  Sink[T]
+	sub   *OnSubscribe
+	ended bool
+	err   error
 }
 
 func NewProcessor[T any]() Processor[T] {
 	p := &processor[T]{}
 	p.Flux = Create(func(sink Sink[T]) {
+		p.mu.Lock()
 		p.sink = sink
-		if p.sub != nil {
-			sink.OnSubscribe(*p.sub)
-			p.sub = nil
+		sub, ended, err := p.sub, p.ended, p.err
+		p.sub = nil
+		p.mu.Unlock()
+		if sub != nil {
+			sink.OnSubscribe(*sub)
+		}
+		if !ended {
+			return
+		}
+		if err != nil {
+			sink.Error(err)
+		} else {
+			sink.Complete()
 		}
 	})
 
@@ -25,27 +45,45 @@ func NewProcessor[T any]() Processor[T] {
 }
 
 func (p *processor[T]) Next(value T) {
-	if p.sink != nil {
-		p.sink.Next(value)
+	p.mu.Lock()
+	sink := p.sink
+	p.mu.Unlock()
+	if sink != nil {
+		sink.Next(value)
 	}
 }
 
 func (p *processor[T]) Complete() {
-	if p.sink != nil {
-		p.sink.Complete()
+	if sink := p.end(nil); sink != nil {
+		sink.Complete()
 	}
 }
 
 func (p *processor[T]) Error(err error) {
-	if p.sink != nil {
-		p.sink.Error(err)
+	if sink := p.end(err); sink != nil {
+		sink.Error(err)
 	}
 }
 
+// end keeps the first outcome for subscribers to come and returns the one there is.
+func (p *processor[T]) end(err error) Sink[T] {
+	p.mu.Lock()
+	defer p.mu.Unlock()
+	if p.ended {
+		return nil
+	}
+	p.ended, p.err = true, err
+	return p.sink
+}
+
 func (p *processor[T]) OnSubscribe(sub OnSubscribe) {
-	if p.sink != nil {
-		p.sink.OnSubscribe(sub)
-	} else {
+	p.mu.Lock()
+	sink := p.sink
+	if sink == nil {
 		p.sub = &sub
 	}
+	p.mu.Unlock()
+	if sink != nil {
+		sink.OnSubscribe(sub)
+	}
 }
diff --git a/go/rx/mono/processor.go b/go/rx/mono/processor.go
index a7bb35d..c15ce23 100644
--- a/go/rx/mono/processor.go
+++ b/go/rx/mono/processor.go
@@ -1,5 +1,9 @@
 package mono
 
+import (
+	"sync"
+)
+
 type Processor[T any] interface {
 	Mono[T]
 	Sink[T]
@@ -7,19 +11,29 @@ type Processor[T any] interface {
 
 type ProcessorImpl[T any] struct {
 	Mono[T]
+
+	// mu guards the fields below.
+	mu      sync.Mutex
 	sink    Sink[T]
 	success *T
 	err     error
+	ended   bool
 }
 
 func NewProcessor[T any]() *ProcessorImpl[T] {
 	p := &ProcessorImpl[T]{}
 	p.Mono = Create(func(sink Sink[T]) {
+		p.mu.Lock()
 		p.sink = sink
-		if p.success != nil {
-			sink.Success(*p.success)
-		} else if p.err != nil {
-			sink.Error(p.err)
+		ended, success, err := p.ended, p.success, p.err
+		p.mu.Unlock()
+		if !ended {
+			return
+		}
+		if success != nil {
+			sink.Success(*success)
+		} else {
+			sink.Error(err)
 		}
 	})
 
@@ -27,17 +41,24 @@ func NewProcessor[T any]() *ProcessorImpl[T] {
 }
 
 func (p *ProcessorImpl[T]) Success(value T) {
-	if p.sink != nil {
-		p.sink.Success(value)
-	} else {
-		p.success = &value
+	if sink := p.end(&value, nil); sink != nil {
+		sink.Success(value)
 	}
 }
 
 func (p *ProcessorImpl[T]) Error(err error) {
-	if p.sink != nil {
-		p.sink.Error(err)
-	} else {
-		p.err = err
+	if sink := p.end(nil, err); sink != nil {
+		sink.Error(err)
+	}
+}
+
+// end keeps the first outcome for subscribers to come and returns the one there is.
+func (p *ProcessorImpl[T]) end(success *T, err error) Sink[T] {
+	p.mu.Lock()
+	defer p.mu.Unlock()
+	if p.ended {
+		return nil
 	}
+	p.ended, p.success, p.err = true, success, err
+	return p.sink
 }
-- 
2.43.0


From 32e41d289673385d1f5adedc1cd1fc4724af2680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:07 +0000
Subject: [PATCH 35/58] fix: a flow repeats or skips steps whose results are
 already there

---
 go/rx/flow/flow.go | 61 +++++++++++++++++++++++++---------------------
 1 file changed, 33 insertions(+), 28 deletions(-)

diff --git a/go/rx/flow/flow.go b/go/rx/flow/flow.go
index 874f617..315e0bb 100644
--- a/go/rx/flow/flow.go
+++ b/go/rx/flow/flow.go
@@ -1,6 +1,8 @@
 package flow
 
 import (
+	"sync/atomic"
+
 	"github.com/nanobus/iota/go/rx"
 	"github.com/nanobus/iota/go/rx/await"
 	"github.com/nanobus/iota/go/rx/flux"
@@ -13,9 +15,8 @@ type (
 		monoSink mono.Sink[T]
 		fluxSink flux.Sink[T]
 
-		ended      bool
-		completed  int
-		awaitables []await.Awaitable
+		ended   bool
+		pending int32 // results of the current step not there yet
 	}
 
 	StepFn func() (await.Group, error)
@@ -46,6 +47,7 @@ func (f *Flow[T]) Complete() (await.Group, error) {
 	if f.fluxSink == nil {
 		panic("Complete is only called for flux retruns")
 	}
+	f.ended = true
 	f.fluxSink.Complete()
 
 	return nil, nil
@@ -55,6 +57,7 @@ func (f *Flow[T]) Success(value T) (await.Group, error) {
 	if f.monoSink == nil {
 		panic("success is only called for mono retruns")
 	}
+	f.ended = true
 	f.monoSink.Success(value)
 
 	return nil, nil
@@ -84,39 +87,41 @@ func (f *Flow[T]) Flux() flux.Flux[T] {
 	})
 }
 
+// next runs steps until one has to be waited for.
 func (f *Flow[T]) next() {
-	if len(f.steps) == 0 {
-		return
-	}
-
-	f.completed = 0
-	step := f.steps[0]
-	awaitables, err := step()
-	if err != nil {
-		if f.monoSink != nil {
-			f.monoSink.Error(err)
-		} else if f.fluxSink != nil {
-			f.fluxSink.Error(err)
+	for len(f.steps) != 0 {
+		step := f.steps[0]
+		f.steps = f.steps[1:]
+
+		awaitables, err := step()
+		if err != nil {
+			if f.monoSink != nil {
+				f.monoSink.Error(err)
+			} else if f.fluxSink != nil {
+				f.fluxSink.Error(err)
+			}
+			return
 		}
-		return
-	}
 
-	if f.ended {
-		return
-	}
+		if f.ended {
+			return
+		}
 
-	f.awaitables = awaitables
-	for _, a := range f.awaitables {
-		a.Async() // Ensure task is running.
-		a.Notify(f.check)
+		// One more than there are awaitables, so that the flow does not
+		// go on before all of them are registered.
+		atomic.StoreInt32(&f.pending, int32(len(awaitables)+1))
+		for _, a := range awaitables {
+			a.Async() // Ensure task is running.
+			a.Notify(f.check)
+		}
+		if atomic.AddInt32(&f.pending, -1) != 0 {
+			return
+		}
 	}
-
-	f.steps = f.steps[1:]
 }
 
 func (f *Flow[T]) check(rx.SignalType) {
-	f.completed++
-	if f.completed >= len(f.awaitables) {
+	if atomic.AddInt32(&f.pending, -1) == 0 {
 		f.next()
 	}
 }
-- 
2.43.0


From 421553f7a5ddedefdbfb060a160ff310849c7e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:10 +0000
Subject: [PATCH 36/58] fix: a received frame is not overwritten by frames that
 arrive later

---
 go/transport/rsocket/decoder.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/go/transport/rsocket/decoder.go b/go/transport/rsocket/decoder.go
index 7e9be2e..83cee8a 100644
--- a/go/transport/rsocket/decoder.go
+++ b/go/transport/rsocket/decoder.go
@@ -34,7 +34,8 @@ func (p *LengthBasedFrameDecoder) Read() (raw []byte, err error) {
 		}
 		return
 	}
-	raw = scanner.Bytes()[lengthFieldSize:]
+	// The scanner overwrites its buffer with later frames.
+	raw = append([]byte(nil), scanner.Bytes()[lengthFieldSize:]...)
 	if len(raw) < frames.FrameHeaderLen {
 		err = ErrIncompleteHeader
 	}
-- 
2.43.0


From 501a927290ac699329c525f33d7877c4064322a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:10 +0000
Subject: [PATCH 37/58] fix: frames read together with the end of the stream
 are delivered

---
 go/transport/rsocket/decoder.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/go/transport/rsocket/decoder.go b/go/transport/rsocket/decoder.go
index 83cee8a..668481b 100644
--- a/go/transport/rsocket/decoder.go
+++ b/go/transport/rsocket/decoder.go
@@ -43,9 +43,6 @@ func (p *LengthBasedFrameDecoder) Read() (raw []byte, err error) {
 }
 
 func doSplit(data []byte, eof bool) (advance int, token []byte, err error) {
-	if eof {
-		return
-	}
 	if len(data) < lengthFieldSize {
 		return
 	}
-- 
2.43.0


From 13cc594e0fb3d869928df3812db69658e5b70ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:11 +0000
Subject: [PATCH 38/58] fix: writing a frame that is too long reports an error
 instead of panicking

---
 go/transport/rsocket/tcp_conn.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/go/transport/rsocket/tcp_conn.go b/go/transport/rsocket/tcp_conn.go
index 7d36c89..9ccdd11 100644
--- a/go/transport/rsocket/tcp_conn.go
+++ b/go/transport/rsocket/tcp_conn.go
@@ -100,7 +100,12 @@ func (p *TCPConn) Write(frame frames.Frame) (err error) {
 	// if p.counter != nil && frame.Header().Resumable() {
 	// 	p.counter.IncWriteBytes(size)
 	// }
-	_, err = u24.MustNewUint24(size).WriteTo(p.writer)
+	length, err := u24.NewUint24(size)
+	if err != nil {
+		err = fmt.Errorf("write frame failed: %w", err)
+		return
+	}
+	_, err = length.WriteTo(p.writer)
 	if err != nil {
 		err = fmt.Errorf("write frame failed: %w", err)
 		return
-- 
2.43.0


From 19a23f5455189a38537ac03895d9ed1354c712c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:37 +0000
Subject: [PATCH 39/58] fix: concurrent sends on a connection are serialised

---
 go/transport/rsocket/transport.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/go/transport/rsocket/transport.go b/go/transport/rsocket/transport.go
index e043506..e32fce2 100644
--- a/go/transport/rsocket/transport.go
+++ b/go/transport/rsocket/transport.go
@@ -53,6 +53,7 @@ type Transport struct {
 	maxLifetime time.Duration
 	once        sync.Once
 	handler     DuplexHandler
+	writeMu     sync.Mutex
 }
 
 // NewTransport creates new transport.
@@ -104,6 +105,8 @@ func (p *Transport) Send(frame frames.Frame, flush bool) (err error) {
 		err = errTransportClosed
 		return
 	}
+	p.writeMu.Lock()
+	defer p.writeMu.Unlock()
 	err = p.conn.Write(frame)
 	if err != nil {
 		return
@@ -121,6 +124,8 @@ func (p *Transport) Flush() (err error) {
 		err = errTransportClosed
 		return
 	}
+	p.writeMu.Lock()
+	defer p.writeMu.Unlock()
 	err = p.conn.Flush()
 	return
 }
-- 
2.43.0


From 21ada0471a4c75a50478e112a463215c8fedc8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:55 +0000
Subject: [PATCH 40/58] fix: a removed stream is gone, and look-ups do not race
 with changes

---
 go/proxy/lookup.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/go/proxy/lookup.go b/go/proxy/lookup.go
index 3dddd04..58eeb58 100644
--- a/go/proxy/lookup.go
+++ b/go/proxy/lookup.go
@@ -16,6 +16,9 @@ type (
 )
 
 func (l *Lookup) Get(id uint32) (Stream, bool) {
+	l.mu.Lock()
+	defer l.mu.Unlock()
+
 	if n := l.find(id); n != nil {
 		return n.stream, true
 	}
@@ -58,9 +61,13 @@ func (l *Lookup) Remove(id uint32) {
 
 	if prevNode != nil {
 		prevNode.next = nodeToDelete.next
+	} else {
+		l.head = nextNode
 	}
 	if nextNode != nil {
 		nextNode.prev = nodeToDelete.prev
+	} else {
+		l.tail = prevNode
 	}
 }
 
-- 
2.43.0


From 0206baf82f77c49f783430a7be881cae2e2997b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:52 +0000
Subject: [PATCH 41/58] fix: remote streams send one request, pass demand and
 cancellation on, and end once

A response handle sent its request again on each use and Block never
returned for an empty result. A remote stream lost demand that arrived
before the caller's own items were subscribed to, ignored the peer's
cancellation of them, kept sending after it had ended, and stayed
registered for good.
---
 go/handler/caller.go                |   6 +-
 go/proxy/flux.go                    | 157 +++++++++++++++++++++++++---
 go/proxy/flux_host.go               |  13 +++
 go/proxy/mono.go                    |  37 +++++--
 go/proxy/mono_host.go               |  24 ++---
 go/transport/wasmrs/guest/caller.go |   6 +-
 go/transport/wasmrs/host/caller.go  |   6 +-
 7 files changed, 197 insertions(+), 52 deletions(-)
 create mode 100644 go/proxy/flux_host.go

diff --git a/go/handler/caller.go b/go/handler/caller.go
index ffe3524..091a586 100644
--- a/go/handler/caller.go
+++ b/go/handler/caller.go
@@ -38,7 +38,7 @@ func (i *Handler) RequestResponse(ctx context.Context, p payload.Payload) mono.M
 		Data:      p.Data(),
 		Complete:  true,
 		InitialN:  1,
-	}, i.SendFrame, i.registerStream)
+	}, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Handler) FireAndForget(ctx context.Context, p payload.Payload) {
@@ -59,7 +59,7 @@ func (i *Handler) RequestStream(ctx context.Context, p payload.Payload) flux.Flu
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, nil, i.SendFrame, i.registerStream)
+	}, nil, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Handler) RequestChannel(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
@@ -69,7 +69,7 @@ func (i *Handler) RequestChannel(ctx context.Context, p payload.Payload, in flux
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, in, i.SendFrame, i.registerStream)
+	}, in, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Handler) getNextStreamID() uint32 {
diff --git a/go/proxy/flux.go b/go/proxy/flux.go
index 6f0f588..8d7861d 100644
--- a/go/proxy/flux.go
+++ b/go/proxy/flux.go
@@ -2,6 +2,7 @@ package proxy
 
 import (
 	"context"
+	"sync"
 
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/payload"
@@ -9,7 +10,7 @@ import (
 	"github.com/nanobus/iota/go/rx/flux"
 )
 
-func Flux(ctx context.Context, request frames.RequestPayload, in flux.Flux[payload.Payload], sendFrame func(frames.Frame) error, register func(Stream)) flux.Flux[payload.Payload] {
+func Flux(ctx context.Context, request frames.RequestPayload, in flux.Flux[payload.Payload], sendFrame func(frames.Frame) error, register func(Stream), remove func(streamID uint32)) flux.Flux[payload.Payload] {
 	p := flux.NewProcessor[payload.Payload]()
 	ss := streamFlux{
 		ctx:       ctx,
@@ -18,6 +19,7 @@ func Flux(ctx context.Context, request frames.RequestPayload, in flux.Flux[paylo
 		in:        in,
 		sendFrame: sendFrame,
 		register:  register,
+		remove:    remove,
 		first:     true,
 	}
 	p.OnSubscribe(flux.OnSubscribe{
@@ -31,13 +33,22 @@ type streamFlux struct {
 	ctx context.Context
 	flux.Processor[payload.Payload]
 
+	request   frames.RequestPayload
+	in        flux.Flux[payload.Payload]
+	sendFrame func(frames.Frame) error
+	register  func(Stream)
+	remove    func(streamID uint32)
+
+	// mu guards the fields below.
+	mu         sync.Mutex
 	subscribed bool
-	request    frames.RequestPayload
-	in         flux.Flux[payload.Payload]
-	sendFrame  func(frames.Frame) error
-	register   func(Stream)
-	first      bool
-	complete   bool
+	first      bool            // the request is still to be sent
+	sent       bool            // the request has been sent
+	complete   bool            // nothing more is to come from the peer
+	cancelled  bool            // the consumer wants nothing more
+	inSub      rx.Subscription // the subscription to in, once there is one
+	inRequests []int           // the peer's demand for in before that
+	inEnded    bool            // in has ended, or the peer wants none of it
 }
 
 func (s *streamFlux) Context() context.Context {
@@ -53,18 +64,27 @@ func (s *streamFlux) OnNext(p payload.Payload) {
 }
 
 func (s *streamFlux) OnComplete() {
+	s.end(false)
 	s.Processor.Complete()
-	s.complete = true
 }
 
 func (s *streamFlux) OnError(err error) {
+	s.end(true)
 	s.Processor.Error(err)
 }
 
+// OnCancel is called when the peer wants nothing more of in.
+func (s *streamFlux) OnCancel() {
+	s.endIn()
+}
+
 func (s *streamFlux) Async() {
 	// If treated like an awaitable and not subscribed,
 	// then subscribe without callbacks.
-	if !s.subscribed {
+	s.mu.Lock()
+	subscribed := s.subscribed
+	s.mu.Unlock()
+	if !subscribed {
 		s.Subscribe(flux.Subscribe[payload.Payload]{})
 	}
 }
@@ -74,17 +94,36 @@ func (s *streamFlux) Notify(fn rx.FnFinally) {
 }
 
 func (s *streamFlux) Request(n int) {
-	if s.complete {
+	s.mu.Lock()
+	if s.complete || s.cancelled {
+		s.mu.Unlock()
 		return
 	}
-	if s.first {
+	first := s.first
+	s.first = false
+	s.mu.Unlock()
+	if first {
 		s.request.InitialN = uint32(n)
-		s.first = false
-		s.sendFrame(&s.request)
+		if err := s.sendFrame(&s.request); err != nil {
+			s.OnError(err)
+			return
+		}
+
+		s.mu.Lock()
+		s.sent = true
+		cancelled := s.cancelled
+		s.mu.Unlock()
+		if cancelled {
+			s.sendCancel()
+			return
+		}
 
-		if s.in != nil {
+		if s.in != nil && !s.inDone() {
 			s.in.Subscribe(flux.Subscribe[payload.Payload]{
 				OnNext: func(p payload.Payload) {
+					if s.inDone() {
+						return
+					}
 					s.sendFrame(&frames.Payload{
 						StreamID: s.request.StreamID,
 						Metadata: p.Metadata(),
@@ -93,19 +132,28 @@ func (s *streamFlux) Request(n int) {
 					})
 				},
 				OnComplete: func() {
+					if s.inDone() {
+						return
+					}
 					s.sendFrame(&frames.Payload{
 						StreamID: s.request.StreamID,
 						Complete: true,
 					})
+					s.endIn()
 				},
 				OnError: func(err error) {
+					if s.inDone() {
+						return
+					}
 					s.sendFrame(&frames.Error{
 						StreamID: s.request.StreamID,
 						Data:     err.Error(),
 					})
+					s.endIn()
 				},
 				NoRequest: true,
 			})
+			s.startIn(s.in.Subscription())
 		}
 	} else {
 		s.sendFrame(&frames.RequestN{
@@ -116,19 +164,94 @@ func (s *streamFlux) Request(n int) {
 }
 
 func (s *streamFlux) Cancel() {
+	s.mu.Lock()
+	s.cancelled = true
+	sent := s.sent
+	s.mu.Unlock()
+	s.end(true)
+	if sent {
+		s.sendCancel()
+	}
+}
+
+func (s *streamFlux) sendCancel() {
 	s.sendFrame(&frames.Cancel{
 		StreamID: s.request.StreamID,
 	})
 }
 
 func (s *streamFlux) DoRequest(n int) {
-	sub := s.in.Subscription()
-	sub.Request(n)
+	s.mu.Lock()
+	sub := s.inSub
+	if sub == nil {
+		s.inRequests = append(s.inRequests, n)
+	}
+	s.mu.Unlock()
+	if sub != nil {
+		sub.Request(n)
+	}
+}
+
+// startIn passes on what happened before there was a subscription to in.
+func (s *streamFlux) startIn(sub rx.Subscription) {
+	s.mu.Lock()
+	s.inSub = sub
+	requests, ended := s.inRequests, s.inEnded
+	s.inRequests = nil
+	s.mu.Unlock()
+	if sub == nil {
+		return
+	}
+	if ended {
+		sub.Cancel()
+		return
+	}
+	for _, n := range requests {
+		sub.Request(n)
+	}
+}
+
+func (s *streamFlux) inDone() bool {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	return s.inEnded
+}
+
+// end ends the stream from the peer, and that to the peer as well when both is set.
+func (s *streamFlux) end(both bool) {
+	s.mu.Lock()
+	s.complete = true
+	done := s.in == nil || s.inEnded
+	s.mu.Unlock()
+	if both {
+		s.endIn()
+	} else if done {
+		s.remove(s.request.StreamID)
+	}
+}
+
+// endIn ends the stream to the peer.
+func (s *streamFlux) endIn() {
+	s.mu.Lock()
+	sub, ended, complete := s.inSub, s.inEnded, s.complete
+	s.inEnded = true
+	s.mu.Unlock()
+	if complete {
+		s.remove(s.request.StreamID)
+	}
+	if sub != nil && !ended {
+		sub.Cancel()
+	}
 }
 
 func (s *streamFlux) Subscribe(sub flux.Subscribe[payload.Payload]) flux.Flux[payload.Payload] {
+	s.mu.Lock()
+	first := !s.subscribed
 	s.subscribed = true
-	s.register(s)
+	s.mu.Unlock()
+	if first {
+		s.register(s)
+	}
 	s.Processor.Subscribe(sub)
 	return s
 }
diff --git a/go/proxy/flux_host.go b/go/proxy/flux_host.go
new file mode 100644
index 0000000..f5c2b3a
--- /dev/null
+++ b/go/proxy/flux_host.go
@@ -0,0 +1,13 @@
+//go:build !purego && !appengine && !wasm && !tinygo.wasm && !wasi
+// +build !purego,!appengine,!wasm,!tinygo.wasm,!wasi
+
+package proxy
+
+import (
+	"github.com/nanobus/iota/go/payload"
+	"github.com/nanobus/iota/go/rx/flux"
+)
+
+func (s *streamFlux) Block(sub flux.Subscribe[payload.Payload]) error {
+	return flux.Block[payload.Payload](s, sub)
+}
diff --git a/go/proxy/mono.go b/go/proxy/mono.go
index 793a2a6..87c46c2 100644
--- a/go/proxy/mono.go
+++ b/go/proxy/mono.go
@@ -2,6 +2,7 @@ package proxy
 
 import (
 	"context"
+	"sync/atomic"
 
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/payload"
@@ -9,7 +10,7 @@ import (
 	"github.com/nanobus/iota/go/rx/mono"
 )
 
-func Mono(ctx context.Context, request frames.RequestPayload, sendFrame func(frames.Frame) error, register func(Stream)) mono.Mono[payload.Payload] {
+func Mono(ctx context.Context, request frames.RequestPayload, sendFrame func(frames.Frame) error, register func(Stream), remove func(streamID uint32)) mono.Mono[payload.Payload] {
 	m := mono.NewProcessor[payload.Payload]()
 	ss := streamMono{
 		ctx:       ctx,
@@ -17,6 +18,7 @@ func Mono(ctx context.Context, request frames.RequestPayload, sendFrame func(fra
 		request:   request,
 		sendFrame: sendFrame,
 		register:  register,
+		remove:    remove,
 	}
 	return &ss
 }
@@ -25,10 +27,11 @@ type streamMono struct {
 	ctx context.Context
 	mono.Processor[payload.Payload]
 
-	subscribed bool
+	subscribed uint32 // the request has been sent
 	request    frames.RequestPayload
 	sendFrame  func(frames.Frame) error
 	register   func(Stream)
+	remove     func(streamID uint32)
 }
 
 func (s *streamMono) Context() context.Context {
@@ -40,22 +43,26 @@ func (s *streamMono) StreamID() uint32 {
 }
 
 func (s *streamMono) OnNext(p payload.Payload) {
+	s.remove(s.request.StreamID)
 	s.Processor.Success(p)
 }
 
 func (s *streamMono) OnComplete() {
-	// Not implemented
+	s.remove(s.request.StreamID)
+	// Without a payload, the result is empty.
+	s.Processor.Success(payload.New(nil))
 }
 
 func (s *streamMono) OnError(err error) {
+	s.remove(s.request.StreamID)
 	s.Processor.Error(err)
 }
 
 func (s *streamMono) Async() {
 	// If treated like an awaitable and not subscribed,
 	// then subscribe without callbacks.
-	if !s.subscribed {
-		s.Subscribe(mono.Subscribe[payload.Payload]{})
+	if s.first() {
+		s.start(mono.Subscribe[payload.Payload]{})
 	}
 }
 
@@ -64,9 +71,23 @@ func (s *streamMono) Notify(fn rx.FnFinally) {
 }
 
 func (s *streamMono) Subscribe(sub mono.Subscribe[payload.Payload]) mono.Mono[payload.Payload] {
-	s.subscribed = true
+	if s.first() {
+		s.start(sub)
+	} else {
+		s.Processor.Subscribe(sub)
+	}
+	return s
+}
+
+// first tells the first subscriber, for whom the request is sent, from later ones.
+func (s *streamMono) first() bool {
+	return atomic.CompareAndSwapUint32(&s.subscribed, 0, 1)
+}
+
+func (s *streamMono) start(sub mono.Subscribe[payload.Payload]) {
 	s.register(s)
 	s.Processor.Subscribe(sub)
-	s.sendFrame(&s.request)
-	return s
+	if err := s.sendFrame(&s.request); err != nil {
+		s.OnError(err)
+	}
 }
diff --git a/go/proxy/mono_host.go b/go/proxy/mono_host.go
index 927c78b..1a00a4b 100644
--- a/go/proxy/mono_host.go
+++ b/go/proxy/mono_host.go
@@ -5,28 +5,16 @@ package proxy
 
 import (
 	"github.com/nanobus/iota/go/payload"
-	"github.com/nanobus/iota/go/rx/mono"
+	"github.com/nanobus/iota/go/rx"
 )
 
 func (s *streamMono) Block() (ret payload.Payload, err error) {
-	// if s.subscriber != nil && s.subscriber.closed {
-	// 	return s.subscriber.value, s.subscriber.err
-	// }
-
 	done := make(chan struct{})
-	go func() {
-		s.Subscribe(mono.Subscribe[payload.Payload]{
-			OnSuccess: func(value payload.Payload) {
-				ret = value
-				close(done)
-			},
-			OnError: func(e error) {
-				err = e
-				close(done)
-			},
-		})
-	}()
+	s.Notify(func(rx.SignalType) {
+		close(done)
+	})
+	s.Async()
 
 	<-done
-	return ret, err
+	return s.Get()
 }
diff --git a/go/transport/wasmrs/guest/caller.go b/go/transport/wasmrs/guest/caller.go
index aae5224..c8ebb10 100644
--- a/go/transport/wasmrs/guest/caller.go
+++ b/go/transport/wasmrs/guest/caller.go
@@ -43,7 +43,7 @@ func (i *Caller) RequestResponse(ctx context.Context, p payload.Payload) mono.Mo
 		Data:      p.Data(),
 		Complete:  true,
 		InitialN:  1,
-	}, sendFrame, registerStream)
+	}, sendFrame, registerStream, removeStream)
 }
 
 func (i *Caller) FireAndForget(ctx context.Context, p payload.Payload) {
@@ -64,7 +64,7 @@ func (i *Caller) RequestStream(ctx context.Context, p payload.Payload) flux.Flux
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, nil, sendFrame, registerStream)
+	}, nil, sendFrame, registerStream, removeStream)
 }
 
 func (i *Caller) RequestChannel(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
@@ -75,7 +75,7 @@ func (i *Caller) RequestChannel(ctx context.Context, p payload.Payload, in flux.
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, in, sendFrame, registerStream)
+	}, in, sendFrame, registerStream, removeStream)
 }
 
 func (i *Caller) getNextStreamID() uint32 {
diff --git a/go/transport/wasmrs/host/caller.go b/go/transport/wasmrs/host/caller.go
index 08062d7..63a7238 100644
--- a/go/transport/wasmrs/host/caller.go
+++ b/go/transport/wasmrs/host/caller.go
@@ -36,7 +36,7 @@ func (i *Instance) RequestResponse(ctx context.Context, p payload.Payload) mono.
 		Data:      p.Data(),
 		Complete:  true,
 		InitialN:  1,
-	}, i.SendFrame, i.registerStream)
+	}, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Instance) FireAndForget(ctx context.Context, p payload.Payload) {
@@ -57,7 +57,7 @@ func (i *Instance) RequestStream(ctx context.Context, p payload.Payload) flux.Fl
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, nil, i.SendFrame, i.registerStream)
+	}, nil, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Instance) RequestChannel(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
@@ -67,7 +67,7 @@ func (i *Instance) RequestChannel(ctx context.Context, p payload.Payload, in flu
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, in, i.SendFrame, i.registerStream)
+	}, in, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Instance) getNextStreamID() uint32 {
-- 
2.43.0


From f416aa7a9445429c368ca1ecb6384fed1afce6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:56 +0000
Subject: [PATCH 42/58] fix: a handler survives any frame, and keeps what
 arrives before it is ready

Frames for streams that are unknown or have ended caused an error or a
panic, items and demand that arrived before the operation was ready were
lost, a cancellation completed the input instead of stopping the
response, and no stream was ever forgotten.
---
 go/handler/handler.go | 269 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 225 insertions(+), 44 deletions(-)

diff --git a/go/handler/handler.go b/go/handler/handler.go
index d0ed8ea..2856140 100644
--- a/go/handler/handler.go
+++ b/go/handler/handler.go
@@ -4,7 +4,7 @@ import (
 	"context"
 	"encoding/binary"
 	"errors"
-	"fmt"
+	"sync"
 
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/internal/socket"
@@ -112,10 +112,7 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 		var ok bool
 		str, ok = i.getStream(streamID)
 		if !ok {
-			// Return error
-			if frameType != frames.FrameTypeRequestN {
-				return fmt.Errorf("stream ID %d not found", streamID)
-			}
+			// The stream has ended, possibly while the frame was on its way.
 			return
 		}
 	}
@@ -124,13 +121,22 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 	// case *frames.SetupFrame:
 
 	case *frames.RequestPayload:
+		if _, ok := i.getStream(streamID); ok {
+			return // The stream is in use.
+		}
+
+		// Need to register for the frames that follow
+		s := requestStream{ctx: i.ctx, streamID: streamID, remove: i.removeStream}
+		s.inEnded = frameType != frames.FrameTypeRequestChannel
+		i.registerStream(&s)
+
 		switch frameType {
 		case frames.FrameTypeRequestResponse:
 			// if i.checkFollows(&rr) {
 			// 	// Will be processed under frames.FrameTypePayload
 			// 	return
 			// }
-			go i.handleRequestResponse(i.ctx, streamID, v.Data, v.Metadata)
+			go i.handleRequestResponse(i.ctx, &s, v.Data, v.Metadata)
 
 		case frames.FrameTypeRequestFNF:
 			// if i.checkFollows(&rr) {
@@ -138,7 +144,7 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 			// 	return
 			// }
 
-			go i.handleFireAndForget(i.ctx, streamID, v.Data, v.Metadata)
+			go i.handleFireAndForget(i.ctx, &s, v.Data, v.Metadata)
 
 		case frames.FrameTypeRequestStream:
 			// if i.checkFollows(&rs) {
@@ -146,7 +152,7 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 			// 	return
 			// }
 
-			go i.handleRequestStream(i.ctx, streamID, v.Data, v.Metadata, v.InitialN)
+			go i.handleRequestStream(i.ctx, &s, v.Data, v.Metadata, v.InitialN)
 
 		case frames.FrameTypeRequestChannel:
 			// if i.checkFollows(&rc) {
@@ -154,16 +160,21 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 			// 	return
 			// }
 
-			go i.handleRequestChannel(i.ctx, streamID, v.Data, v.Metadata, v.InitialN)
+			go i.handleRequestChannel(i.ctx, &s, v.Data, v.Metadata, v.InitialN)
+
+		default:
+			s.end()
 		}
 
 	case *frames.RequestN:
-		s := str.(DoRequest)
-		go s.DoRequest(int(v.N))
+		if s, ok := str.(DoRequest); ok {
+			go s.DoRequest(int(v.N))
+		}
 
 	case *frames.Cancel:
-		str.OnComplete()
-		i.removeStream(streamID)
+		if s, ok := str.(OnCancel); ok {
+			s.OnCancel()
+		}
 
 	case *frames.Payload:
 		// pl, ok := i.fragmentedPayloads[p.StreamID]
@@ -217,26 +228,26 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 
 		if v.Complete {
 			str.OnComplete()
-			i.removeStream(streamID)
 		}
 
 	case *frames.Error:
 		str.OnError(errors.New(v.Data))
-		str.OnComplete()
-		i.removeStream(streamID)
 	}
 
 	return nil
 }
 
-func (i *Handler) handleRequestResponse(ctx context.Context, streamID uint32, data, metadata []byte) {
+func (i *Handler) handleRequestResponse(ctx context.Context, s *requestStream, data, metadata []byte) {
+	streamID := s.streamID
 	if !i.checkMetadata(streamID, metadata) {
+		s.end()
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetRequestResponseHandler(operationID)
 	if handler == nil {
+		s.end()
 		i.sendFrame(&frames.Error{
 			StreamID: streamID,
 			Data:     "not_found",
@@ -245,10 +256,12 @@ func (i *Handler) handleRequestResponse(ctx context.Context, streamID uint32, da
 	}
 
 	p := payload.New(data, metadata[8:])
-	s := requestStream{ctx: ctx, streamID: streamID}
-	ctx = proxy.WithContext(ctx, &s)
+	ctx = proxy.WithContext(ctx, s)
 	handler(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
 		OnSuccess: func(p payload.Payload) {
+			if !s.end() {
+				return
+			}
 			i.sendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
@@ -258,6 +271,9 @@ func (i *Handler) handleRequestResponse(ctx context.Context, streamID uint32, da
 			})
 		},
 		OnError: func(err error) {
+			if !s.end() {
+				return
+			}
 			i.sendFrame(&frames.Error{
 				StreamID: streamID,
 				Data:     err.Error(),
@@ -266,14 +282,17 @@ func (i *Handler) handleRequestResponse(ctx context.Context, streamID uint32, da
 	})
 }
 
-func (i *Handler) handleFireAndForget(ctx context.Context, streamID uint32, data, metadata []byte) {
+func (i *Handler) handleFireAndForget(ctx context.Context, s *requestStream, data, metadata []byte) {
+	streamID := s.streamID
 	if !i.checkMetadata(streamID, metadata) {
+		s.end()
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetFireAndForgetHandler(operationID)
 	if handler == nil {
+		s.end()
 		i.sendFrame(&frames.Error{
 			StreamID: streamID,
 			Data:     "not_found",
@@ -282,20 +301,22 @@ func (i *Handler) handleFireAndForget(ctx context.Context, streamID uint32, data
 	}
 
 	p := payload.New(data, metadata[8:])
-	s := requestStream{ctx: ctx, streamID: streamID}
-	i.registerStream(&s)
-	ctx = proxy.WithContext(ctx, &s)
+	ctx = proxy.WithContext(ctx, s)
 	handler(ctx, p)
+	s.end()
 }
 
-func (i *Handler) handleRequestStream(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
+func (i *Handler) handleRequestStream(ctx context.Context, s *requestStream, data, metadata []byte, initialN uint32) {
+	streamID := s.streamID
 	if !i.checkMetadata(streamID, metadata) {
+		s.end()
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetRequestStreamHandler(operationID)
 	if handler == nil {
+		s.end()
 		i.sendFrame(&frames.Error{
 			StreamID: streamID,
 			Data:     "not_found",
@@ -304,12 +325,14 @@ func (i *Handler) handleRequestStream(ctx context.Context, streamID uint32, data
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{ctx: ctx, streamID: streamID}
-	i.registerStream(&s) // Need to register for RequestN frames
 	// ctx := stream.WithContext(context.Background(), s)
 	f := handler(ctx, p)
 	f.Subscribe(flux.Subscribe[payload.Payload]{
 		OnNext: func(p payload.Payload) {
+			if s.outDone() {
+				f.Subscription().Cancel()
+				return
+			}
 			i.sendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
@@ -318,12 +341,18 @@ func (i *Handler) handleRequestStream(ctx context.Context, streamID uint32, data
 			})
 		},
 		OnComplete: func() {
+			if !s.endOut() {
+				return
+			}
 			i.sendFrame(&frames.Payload{
 				StreamID: streamID,
 				Complete: true,
 			})
 		},
 		OnError: func(err error) {
+			if !s.end() {
+				return
+			}
 			i.sendFrame(&frames.Error{
 				StreamID: streamID,
 				Data:     err.Error(),
@@ -331,19 +360,20 @@ func (i *Handler) handleRequestStream(ctx context.Context, streamID uint32, data
 		},
 		NoRequest: true,
 	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.start(f.Subscription(), int(initialN))
 }
 
-func (i *Handler) handleRequestChannel(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
+func (i *Handler) handleRequestChannel(ctx context.Context, s *requestStream, data, metadata []byte, initialN uint32) {
+	streamID := s.streamID
 	if !i.checkMetadata(streamID, metadata) {
+		s.end()
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetRequestChannelHandler(operationID)
 	if handler == nil {
+		s.end()
 		i.sendFrame(&frames.Error{
 			StreamID: streamID,
 			Data:     "not_found",
@@ -352,10 +382,7 @@ func (i *Handler) handleRequestChannel(ctx context.Context, streamID uint32, dat
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{streamID: streamID}
-	i.registerStream(&s) // Need to register for RequestN frames
 	in := flux.Create(func(sink flux.Sink[payload.Payload]) {
-		s.sink = sink
 		sink.OnSubscribe(flux.OnSubscribe{
 			Request: func(n int) {
 				i.sendFrame(&frames.RequestN{
@@ -364,15 +391,23 @@ func (i *Handler) handleRequestChannel(ctx context.Context, streamID uint32, dat
 				})
 			},
 			Cancel: func() {
+				if !s.endIn() {
+					return
+				}
 				i.sendFrame(&frames.Cancel{
 					StreamID: streamID,
 				})
 			},
 		})
+		s.startIn(sink)
 	})
 	f := handler(ctx, p, in)
 	f.Subscribe(flux.Subscribe[payload.Payload]{
 		OnNext: func(p payload.Payload) {
+			if s.outDone() {
+				f.Subscription().Cancel()
+				return
+			}
 			i.sendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
@@ -381,12 +416,23 @@ func (i *Handler) handleRequestChannel(ctx context.Context, streamID uint32, dat
 			})
 		},
 		OnComplete: func() {
+			if !s.endOut() {
+				return
+			}
 			i.sendFrame(&frames.Payload{
 				StreamID: streamID,
 				Complete: true,
 			})
+			if s.dropIn() {
+				i.sendFrame(&frames.Cancel{
+					StreamID: streamID,
+				})
+			}
 		},
 		OnError: func(err error) {
+			if !s.end() {
+				return
+			}
 			i.sendFrame(&frames.Error{
 				StreamID: streamID,
 				Data:     err.Error(),
@@ -394,9 +440,7 @@ func (i *Handler) handleRequestChannel(ctx context.Context, streamID uint32, dat
 		},
 		NoRequest: true,
 	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.start(f.Subscription(), int(initialN))
 }
 
 // func (i *Handler) handleRequestResponse(ctx context.Context, streamID uint32, data, metadata []byte) {
@@ -676,12 +720,23 @@ type DoRequest interface {
 	DoRequest(n int)
 }
 
+type OnCancel interface {
+	OnCancel()
+}
+
 type requestStream struct {
 	ctx      context.Context
 	streamID uint32
-	flux.Sink[payload.Payload]
-	sub  rx.Subscription
-	sink flux.Sink[payload.Payload]
+	remove   func(streamID uint32)
+
+	// mu guards the fields below.
+	mu       sync.Mutex
+	sub      rx.Subscription                    // the subscription to the response, once there is one
+	requests []int                              // demand that arrived before that
+	outEnded bool                               // the response has ended, or the peer wants nothing more of it
+	sink     flux.Sink[payload.Payload]         // the consumer of the peer's items, once there is one
+	inputs   []func(flux.Sink[payload.Payload]) // what arrived before that
+	inEnded  bool                               // nothing more is expected from the peer
 }
 
 var _ = (proxy.Stream)((*requestStream)(nil))
@@ -695,21 +750,147 @@ func (r *requestStream) StreamID() uint32 {
 }
 
 func (r *requestStream) Request(n int) {
-	r.sub.Request(n)
+	r.DoRequest(n)
 }
 
 func (r *requestStream) DoRequest(n int) {
-	r.sub.Request(n)
+	r.mu.Lock()
+	sub := r.sub
+	if sub == nil {
+		r.requests = append(r.requests, n)
+	}
+	r.mu.Unlock()
+	if sub != nil {
+		sub.Request(n)
+	}
+}
+
+// start passes the demand on, once the response can take it.
+func (r *requestStream) start(sub rx.Subscription, initialN int) {
+	sub.Request(initialN)
+	r.mu.Lock()
+	r.sub = sub
+	requests, ended := r.requests, r.outEnded
+	r.requests = nil
+	r.mu.Unlock()
+	if ended {
+		sub.Cancel()
+		return
+	}
+	for _, n := range requests {
+		sub.Request(n)
+	}
 }
 
 func (r *requestStream) OnNext(p payload.Payload) {
-	r.sink.Next(p)
+	r.input(false, func(sink flux.Sink[payload.Payload]) { sink.Next(p) })
 }
 
 func (r *requestStream) OnComplete() {
-	r.sink.Complete()
+	r.input(true, func(sink flux.Sink[payload.Payload]) { sink.Complete() })
 }
 
 func (r *requestStream) OnError(err error) {
-	r.sink.Error(err)
+	r.input(true, func(sink flux.Sink[payload.Payload]) { sink.Error(err) })
+}
+
+// OnCancel is called when the peer wants nothing more of the response, nor sends anything more.
+func (r *requestStream) OnCancel() {
+	r.endOut()
+	r.mu.Lock()
+	sub := r.sub
+	r.mu.Unlock()
+	if sub != nil {
+		sub.Cancel()
+	}
+	r.OnComplete()
+}
+
+// input hands what the peer sent to the consumer, or keeps it until there is one.
+func (r *requestStream) input(last bool, fn func(flux.Sink[payload.Payload])) {
+	r.mu.Lock()
+	if r.inEnded {
+		r.mu.Unlock()
+		return
+	}
+	r.inEnded = last
+	done := r.inEnded && r.outEnded
+	sink := r.sink
+	if sink == nil {
+		r.inputs = append(r.inputs, fn)
+	}
+	r.mu.Unlock()
+	if done {
+		r.remove(r.streamID)
+	}
+	if sink != nil {
+		fn(sink)
+	}
+}
+
+// startIn hands over what has arrived already.
+func (r *requestStream) startIn(sink flux.Sink[payload.Payload]) {
+	for {
+		r.mu.Lock()
+		inputs := r.inputs
+		r.inputs = nil
+		if len(inputs) == 0 {
+			r.sink = sink
+			r.mu.Unlock()
+			return
+		}
+		r.mu.Unlock()
+		for _, fn := range inputs {
+			fn(sink)
+		}
+	}
+}
+
+// endIn notes that nothing more is wanted from the peer, and reports whether it had more to send.
+func (r *requestStream) endIn() bool {
+	r.mu.Lock()
+	ended := r.inEnded
+	r.inEnded = true
+	done := r.outEnded
+	r.mu.Unlock()
+	if done {
+		r.remove(r.streamID)
+	}
+	return !ended
+}
+
+// dropIn ends the input when nobody consumes it, and reports whether the peer had more to send.
+func (r *requestStream) dropIn() bool {
+	r.mu.Lock()
+	drop := r.sink == nil && !r.inEnded
+	r.mu.Unlock()
+	if drop {
+		r.OnComplete()
+	}
+	return drop
+}
+
+func (r *requestStream) outDone() bool {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	return r.outEnded
+}
+
+// endOut notes that the response has ended, and reports whether it was still wanted.
+func (r *requestStream) endOut() bool {
+	r.mu.Lock()
+	ended := r.outEnded
+	r.outEnded = true
+	done := r.inEnded
+	r.mu.Unlock()
+	if done {
+		r.remove(r.streamID)
+	}
+	return !ended
+}
+
+// end ends the stream in both directions.
+func (r *requestStream) end() bool {
+	r.endIn()
+	return r.endOut()
 }
-- 
2.43.0


From 86b3ac4df37da5312fe0c1883153bbee29011aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:58 +0000
Subject: [PATCH 43/58] fix: several waits for one publisher all return

A wait subscribed again, which took the outcome away from whoever was
waiting already. Waiting for a failed stream did not tell its callbacks.
---
 go/rx/flux/flux.go      |  3 +-
 go/rx/mono/mono.go      | 10 ++++---
 go/rx/mono/mono_host.go | 62 +++++++++++++++++++----------------------
 3 files changed, 37 insertions(+), 38 deletions(-)

diff --git a/go/rx/flux/flux.go b/go/rx/flux/flux.go
index e1579e4..247daa0 100644
--- a/go/rx/flux/flux.go
+++ b/go/rx/flux/flux.go
@@ -61,7 +61,8 @@ func (e errorFlow[T]) Notify(fn rx.FnFinally) {
 	fn(rx.SignalError)
 }
 
-func (e errorFlow[T]) Block(_ Subscribe[T]) error {
+func (e errorFlow[T]) Block(sub Subscribe[T]) error {
+	e.Subscribe(sub)
 	return e.err
 }
 
diff --git a/go/rx/mono/mono.go b/go/rx/mono/mono.go
index 414e4cf..5123ba5 100644
--- a/go/rx/mono/mono.go
+++ b/go/rx/mono/mono.go
@@ -109,9 +109,10 @@ func Create[T any](source Source[T]) Mono[T] {
 type mono[T any] struct {
 	source     Source[T]
 	subscriber *subscriber[T]
+	last       *subscriber[T] // the last one with an outcome
 	callbacks  []rx.FnFinally
 
-	// mu guards the subscriber's state and the callbacks.
+	// mu guards the subscribers' state and the callbacks.
 	mu sync.Mutex
 }
 
@@ -135,7 +136,7 @@ func (m *mono[T]) Async() {
 
 func (m *mono[T]) Notify(fn rx.FnFinally) {
 	m.mu.Lock()
-	if s := m.subscriber; s != nil && s.notified {
+	if s := m.last; s != nil && s.notified {
 		m.mu.Unlock()
 		fn(s.signal)
 		return
@@ -156,10 +157,10 @@ func (m *mono[T]) Get() (ret T, err error) {
 func (m *mono[T]) outcome() (ret T, err error, ok bool) {
 	m.mu.Lock()
 	defer m.mu.Unlock()
-	if m.subscriber == nil || !m.subscriber.closed {
+	if m.last == nil {
 		return ret, nil, false
 	}
-	return m.subscriber.value, m.subscriber.err, true
+	return m.last.value, m.last.err, true
 }
 
 type subscriber[T any] struct {
@@ -206,6 +207,7 @@ func (s *subscriber[T]) close(value T, err error, signal rx.SignalType) bool {
 	}
 	s.closed = true
 	s.value, s.err, s.signal = value, err, signal
+	s.m.last = s
 	return true
 }
 
diff --git a/go/rx/mono/mono_host.go b/go/rx/mono/mono_host.go
index 2b1a172..26b3754 100644
--- a/go/rx/mono/mono_host.go
+++ b/go/rx/mono/mono_host.go
@@ -11,28 +11,33 @@ type Blockable[T any] interface {
 	Block() (T, error)
 }
 
-func (s *mono[T]) Block() (ret T, err error) {
-	if ret, err, ok := s.outcome(); ok {
+func (m *mono[T]) Block() (ret T, err error) {
+	if ret, err, ok := m.outcome(); ok {
 		return ret, err
 	}
 
 	done := make(chan struct{})
-	go func() {
-		s.Subscribe(Subscribe[T]{
-			OnSuccess: func(value T) {
-				ret = value
-			},
-			OnError: func(e error) {
-				err = e
-			},
-			Finally: func(rx.SignalType) {
-				close(done)
-			},
-		})
-	}()
+	m.Notify(func(rx.SignalType) {
+		close(done)
+	})
+	go m.start()
 
 	<-done
-	return ret, err
+	return m.Get()
+}
+
+// start subscribes, unless there is a subscriber already whose outcome will do.
+func (m *mono[T]) start() {
+	wrapper := &subscriber[T]{m: m}
+	m.mu.Lock()
+	first := m.subscriber == nil
+	if first {
+		m.subscriber = wrapper
+	}
+	m.mu.Unlock()
+	if first {
+		m.source(wrapper)
+	}
 }
 
 func (b *mapper[S, D]) Block() (ret D, err error) {
@@ -40,21 +45,12 @@ func (b *mapper[S, D]) Block() (ret D, err error) {
 		return ret, err
 	}
 
-	done := make(chan struct{})
-	go func() {
-		b.Subscribe(Subscribe[D]{
-			OnSuccess: func(value D) {
-				ret = value
-			},
-			OnError: func(e error) {
-				err = e
-			},
-			Finally: func(rx.SignalType) {
-				close(done)
-			},
-		})
-	}()
-
-	<-done
-	return ret, err
+	value, err := b.mono.Block()
+	if err != nil {
+		return ret, err
+	}
+	if ret, err, ok := b.outcome(); ok {
+		return ret, err
+	}
+	return b.convert(value)
 }
-- 
2.43.0


From 8ef2417e62c5600c5fc6288b23641cefc7fa4083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:47 +0000
Subject: [PATCH 44/58] fix: wasm hosts and guests handle frames of ended
 streams and clean up

---
 go/handler/handler.go                | 248 ++++-----------------------
 go/proxy/request.go                  | 190 ++++++++++++++++++++
 go/transport/wasmrs/guest/guest.go   | 175 ++++++++++---------
 go/transport/wasmrs/host/instance.go | 213 ++++++++++++-----------
 4 files changed, 432 insertions(+), 394 deletions(-)
 create mode 100644 go/proxy/request.go

diff --git a/go/handler/handler.go b/go/handler/handler.go
index 2856140..24da6a3 100644
--- a/go/handler/handler.go
+++ b/go/handler/handler.go
@@ -4,14 +4,12 @@ import (
 	"context"
 	"encoding/binary"
 	"errors"
-	"sync"
 
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/internal/socket"
 	"github.com/nanobus/iota/go/invoke"
 	"github.com/nanobus/iota/go/payload"
 	"github.com/nanobus/iota/go/proxy"
-	"github.com/nanobus/iota/go/rx"
 	"github.com/nanobus/iota/go/rx/flux"
 	"github.com/nanobus/iota/go/rx/mono"
 )
@@ -126,9 +124,8 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 		}
 
 		// Need to register for the frames that follow
-		s := requestStream{ctx: i.ctx, streamID: streamID, remove: i.removeStream}
-		s.inEnded = frameType != frames.FrameTypeRequestChannel
-		i.registerStream(&s)
+		s := proxy.NewRequestStream(i.ctx, streamID, i.removeStream, frameType != frames.FrameTypeRequestChannel)
+		i.registerStream(s)
 
 		switch frameType {
 		case frames.FrameTypeRequestResponse:
@@ -136,7 +133,7 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 			// 	// Will be processed under frames.FrameTypePayload
 			// 	return
 			// }
-			go i.handleRequestResponse(i.ctx, &s, v.Data, v.Metadata)
+			go i.handleRequestResponse(i.ctx, s, v.Data, v.Metadata)
 
 		case frames.FrameTypeRequestFNF:
 			// if i.checkFollows(&rr) {
@@ -144,7 +141,7 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 			// 	return
 			// }
 
-			go i.handleFireAndForget(i.ctx, &s, v.Data, v.Metadata)
+			go i.handleFireAndForget(i.ctx, s, v.Data, v.Metadata)
 
 		case frames.FrameTypeRequestStream:
 			// if i.checkFollows(&rs) {
@@ -152,7 +149,7 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 			// 	return
 			// }
 
-			go i.handleRequestStream(i.ctx, &s, v.Data, v.Metadata, v.InitialN)
+			go i.handleRequestStream(i.ctx, s, v.Data, v.Metadata, v.InitialN)
 
 		case frames.FrameTypeRequestChannel:
 			// if i.checkFollows(&rc) {
@@ -160,10 +157,10 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 			// 	return
 			// }
 
-			go i.handleRequestChannel(i.ctx, &s, v.Data, v.Metadata, v.InitialN)
+			go i.handleRequestChannel(i.ctx, s, v.Data, v.Metadata, v.InitialN)
 
 		default:
-			s.end()
+			s.End()
 		}
 
 	case *frames.RequestN:
@@ -237,17 +234,17 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 	return nil
 }
 
-func (i *Handler) handleRequestResponse(ctx context.Context, s *requestStream, data, metadata []byte) {
-	streamID := s.streamID
+func (i *Handler) handleRequestResponse(ctx context.Context, s *proxy.RequestStream, data, metadata []byte) {
+	streamID := s.StreamID()
 	if !i.checkMetadata(streamID, metadata) {
-		s.end()
+		s.End()
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetRequestResponseHandler(operationID)
 	if handler == nil {
-		s.end()
+		s.End()
 		i.sendFrame(&frames.Error{
 			StreamID: streamID,
 			Data:     "not_found",
@@ -259,7 +256,7 @@ func (i *Handler) handleRequestResponse(ctx context.Context, s *requestStream, d
 	ctx = proxy.WithContext(ctx, s)
 	handler(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
 		OnSuccess: func(p payload.Payload) {
-			if !s.end() {
+			if !s.End() {
 				return
 			}
 			i.sendFrame(&frames.Payload{
@@ -271,7 +268,7 @@ func (i *Handler) handleRequestResponse(ctx context.Context, s *requestStream, d
 			})
 		},
 		OnError: func(err error) {
-			if !s.end() {
+			if !s.End() {
 				return
 			}
 			i.sendFrame(&frames.Error{
@@ -282,17 +279,17 @@ func (i *Handler) handleRequestResponse(ctx context.Context, s *requestStream, d
 	})
 }
 
-func (i *Handler) handleFireAndForget(ctx context.Context, s *requestStream, data, metadata []byte) {
-	streamID := s.streamID
+func (i *Handler) handleFireAndForget(ctx context.Context, s *proxy.RequestStream, data, metadata []byte) {
+	streamID := s.StreamID()
 	if !i.checkMetadata(streamID, metadata) {
-		s.end()
+		s.End()
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetFireAndForgetHandler(operationID)
 	if handler == nil {
-		s.end()
+		s.End()
 		i.sendFrame(&frames.Error{
 			StreamID: streamID,
 			Data:     "not_found",
@@ -303,20 +300,20 @@ func (i *Handler) handleFireAndForget(ctx context.Context, s *requestStream, dat
 	p := payload.New(data, metadata[8:])
 	ctx = proxy.WithContext(ctx, s)
 	handler(ctx, p)
-	s.end()
+	s.End()
 }
 
-func (i *Handler) handleRequestStream(ctx context.Context, s *requestStream, data, metadata []byte, initialN uint32) {
-	streamID := s.streamID
+func (i *Handler) handleRequestStream(ctx context.Context, s *proxy.RequestStream, data, metadata []byte, initialN uint32) {
+	streamID := s.StreamID()
 	if !i.checkMetadata(streamID, metadata) {
-		s.end()
+		s.End()
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetRequestStreamHandler(operationID)
 	if handler == nil {
-		s.end()
+		s.End()
 		i.sendFrame(&frames.Error{
 			StreamID: streamID,
 			Data:     "not_found",
@@ -329,7 +326,7 @@ func (i *Handler) handleRequestStream(ctx context.Context, s *requestStream, dat
 	f := handler(ctx, p)
 	f.Subscribe(flux.Subscribe[payload.Payload]{
 		OnNext: func(p payload.Payload) {
-			if s.outDone() {
+			if s.OutputEnded() {
 				f.Subscription().Cancel()
 				return
 			}
@@ -341,7 +338,7 @@ func (i *Handler) handleRequestStream(ctx context.Context, s *requestStream, dat
 			})
 		},
 		OnComplete: func() {
-			if !s.endOut() {
+			if !s.EndOutput() {
 				return
 			}
 			i.sendFrame(&frames.Payload{
@@ -350,7 +347,7 @@ func (i *Handler) handleRequestStream(ctx context.Context, s *requestStream, dat
 			})
 		},
 		OnError: func(err error) {
-			if !s.end() {
+			if !s.End() {
 				return
 			}
 			i.sendFrame(&frames.Error{
@@ -360,20 +357,20 @@ func (i *Handler) handleRequestStream(ctx context.Context, s *requestStream, dat
 		},
 		NoRequest: true,
 	})
-	s.start(f.Subscription(), int(initialN))
+	s.Start(f.Subscription(), int(initialN))
 }
 
-func (i *Handler) handleRequestChannel(ctx context.Context, s *requestStream, data, metadata []byte, initialN uint32) {
-	streamID := s.streamID
+func (i *Handler) handleRequestChannel(ctx context.Context, s *proxy.RequestStream, data, metadata []byte, initialN uint32) {
+	streamID := s.StreamID()
 	if !i.checkMetadata(streamID, metadata) {
-		s.end()
+		s.End()
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetRequestChannelHandler(operationID)
 	if handler == nil {
-		s.end()
+		s.End()
 		i.sendFrame(&frames.Error{
 			StreamID: streamID,
 			Data:     "not_found",
@@ -391,7 +388,7 @@ func (i *Handler) handleRequestChannel(ctx context.Context, s *requestStream, da
 				})
 			},
 			Cancel: func() {
-				if !s.endIn() {
+				if !s.EndInput() {
 					return
 				}
 				i.sendFrame(&frames.Cancel{
@@ -399,12 +396,12 @@ func (i *Handler) handleRequestChannel(ctx context.Context, s *requestStream, da
 				})
 			},
 		})
-		s.startIn(sink)
+		s.StartInput(sink)
 	})
 	f := handler(ctx, p, in)
 	f.Subscribe(flux.Subscribe[payload.Payload]{
 		OnNext: func(p payload.Payload) {
-			if s.outDone() {
+			if s.OutputEnded() {
 				f.Subscription().Cancel()
 				return
 			}
@@ -416,21 +413,21 @@ func (i *Handler) handleRequestChannel(ctx context.Context, s *requestStream, da
 			})
 		},
 		OnComplete: func() {
-			if !s.endOut() {
+			if !s.EndOutput() {
 				return
 			}
 			i.sendFrame(&frames.Payload{
 				StreamID: streamID,
 				Complete: true,
 			})
-			if s.dropIn() {
+			if s.DropInput() {
 				i.sendFrame(&frames.Cancel{
 					StreamID: streamID,
 				})
 			}
 		},
 		OnError: func(err error) {
-			if !s.end() {
+			if !s.End() {
 				return
 			}
 			i.sendFrame(&frames.Error{
@@ -440,7 +437,7 @@ func (i *Handler) handleRequestChannel(ctx context.Context, s *requestStream, da
 		},
 		NoRequest: true,
 	})
-	s.start(f.Subscription(), int(initialN))
+	s.Start(f.Subscription(), int(initialN))
 }
 
 // func (i *Handler) handleRequestResponse(ctx context.Context, streamID uint32, data, metadata []byte) {
@@ -723,174 +720,3 @@ type DoRequest interface {
 type OnCancel interface {
 	OnCancel()
 }
-
-type requestStream struct {
-	ctx      context.Context
-	streamID uint32
-	remove   func(streamID uint32)
-
-	// mu guards the fields below.
-	mu       sync.Mutex
-	sub      rx.Subscription                    // the subscription to the response, once there is one
-	requests []int                              // demand that arrived before that
-	outEnded bool                               // the response has ended, or the peer wants nothing more of it
-	sink     flux.Sink[payload.Payload]         // the consumer of the peer's items, once there is one
-	inputs   []func(flux.Sink[payload.Payload]) // what arrived before that
-	inEnded  bool                               // nothing more is expected from the peer
-}
-
-var _ = (proxy.Stream)((*requestStream)(nil))
-
-func (r *requestStream) Context() context.Context {
-	return r.ctx
-}
-
-func (r *requestStream) StreamID() uint32 {
-	return r.streamID
-}
-
-func (r *requestStream) Request(n int) {
-	r.DoRequest(n)
-}
-
-func (r *requestStream) DoRequest(n int) {
-	r.mu.Lock()
-	sub := r.sub
-	if sub == nil {
-		r.requests = append(r.requests, n)
-	}
-	r.mu.Unlock()
-	if sub != nil {
-		sub.Request(n)
-	}
-}
-
-// start passes the demand on, once the response can take it.
-func (r *requestStream) start(sub rx.Subscription, initialN int) {
-	sub.Request(initialN)
-	r.mu.Lock()
-	r.sub = sub
-	requests, ended := r.requests, r.outEnded
-	r.requests = nil
-	r.mu.Unlock()
-	if ended {
-		sub.Cancel()
-		return
-	}
-	for _, n := range requests {
-		sub.Request(n)
-	}
-}
-
-func (r *requestStream) OnNext(p payload.Payload) {
-	r.input(false, func(sink flux.Sink[payload.Payload]) { sink.Next(p) })
-}
-
-func (r *requestStream) OnComplete() {
-	r.input(true, func(sink flux.Sink[payload.Payload]) { sink.Complete() })
-}
-
-func (r *requestStream) OnError(err error) {
-	r.input(true, func(sink flux.Sink[payload.Payload]) { sink.Error(err) })
-}
-
-// OnCancel is called when the peer wants nothing more of the response, nor sends anything more.
-func (r *requestStream) OnCancel() {
-	r.endOut()
-	r.mu.Lock()
-	sub := r.sub
-	r.mu.Unlock()
-	if sub != nil {
-		sub.Cancel()
-	}
-	r.OnComplete()
-}
-
-// input hands what the peer sent to the consumer, or keeps it until there is one.
-func (r *requestStream) input(last bool, fn func(flux.Sink[payload.Payload])) {
-	r.mu.Lock()
-	if r.inEnded {
-		r.mu.Unlock()
-		return
-	}
-	r.inEnded = last
-	done := r.inEnded && r.outEnded
-	sink := r.sink
-	if sink == nil {
-		r.inputs = append(r.inputs, fn)
-	}
-	r.mu.Unlock()
-	if done {
-		r.remove(r.streamID)
-	}
-	if sink != nil {
-		fn(sink)
-	}
-}
-
-// startIn hands over what has arrived already.
-func (r *requestStream) startIn(sink flux.Sink[payload.Payload]) {
-	for {
-		r.mu.Lock()
-		inputs := r.inputs
-		r.inputs = nil
-		if len(inputs) == 0 {
-			r.sink = sink
-			r.mu.Unlock()
-			return
-		}
-		r.mu.Unlock()
-		for _, fn := range inputs {
-			fn(sink)
-		}
-	}
-}
-
-// endIn notes that nothing more is wanted from the peer, and reports whether it had more to send.
-func (r *requestStream) endIn() bool {
-	r.mu.Lock()
-	ended := r.inEnded
-	r.inEnded = true
-	done := r.outEnded
-	r.mu.Unlock()
-	if done {
-		r.remove(r.streamID)
-	}
-	return !ended
-}
-
-// dropIn ends the input when nobody consumes it, and reports whether the peer had more to send.
-func (r *requestStream) dropIn() bool {
-	r.mu.Lock()
-	drop := r.sink == nil && !r.inEnded
-	r.mu.Unlock()
-	if drop {
-		r.OnComplete()
-	}
-	return drop
-}
-
-func (r *requestStream) outDone() bool {
-	r.mu.Lock()
-	defer r.mu.Unlock()
-	return r.outEnded
-}
-
-// endOut notes that the response has ended, and reports whether it was still wanted.
-func (r *requestStream) endOut() bool {
-	r.mu.Lock()
-	ended := r.outEnded
-	r.outEnded = true
-	done := r.inEnded
-	r.mu.Unlock()
-	if done {
-		r.remove(r.streamID)
-	}
-	return !ended
-}
-
-// end ends the stream in both directions.
-func (r *requestStream) end() bool {
-	r.endIn()
-	return r.endOut()
-}
diff --git a/go/proxy/request.go b/go/proxy/request.go
new file mode 100644
index 0000000..72a8f6e
--- /dev/null
+++ b/go/proxy/request.go
@@ -0,0 +1,190 @@
+package proxy
+
+import (
+	"context"
+	"sync"
+
+	"github.com/nanobus/iota/go/payload"
+	"github.com/nanobus/iota/go/rx"
+	"github.com/nanobus/iota/go/rx/flux"
+)
+
+// RequestStream is the serving end of a request.
+type RequestStream struct {
+	ctx      context.Context
+	streamID uint32
+	remove   func(streamID uint32)
+
+	// mu guards the fields below.
+	mu       sync.Mutex
+	sub      rx.Subscription                    // the subscription to the response, once there is one
+	requests []int                              // demand that arrived before that
+	outEnded bool                               // the response has ended, or the peer wants nothing more of it
+	sink     flux.Sink[payload.Payload]         // the consumer of the peer's items, once there is one
+	inputs   []func(flux.Sink[payload.Payload]) // what arrived before that
+	inEnded  bool                               // nothing more is expected from the peer
+}
+
+var _ = (Stream)((*RequestStream)(nil))
+
+// NewRequestStream returns the serving end of request streamID. remove is called when the
+// stream has ended in both directions; inEnded tells that the peer sends no items.
+func NewRequestStream(ctx context.Context, streamID uint32, remove func(streamID uint32), inEnded bool) *RequestStream {
+	return &RequestStream{ctx: ctx, streamID: streamID, remove: remove, inEnded: inEnded}
+}
+
+func (r *RequestStream) Context() context.Context {
+	return r.ctx
+}
+
+func (r *RequestStream) StreamID() uint32 {
+	return r.streamID
+}
+
+// Request passes demand on to the response.
+func (r *RequestStream) Request(n int) {
+	r.DoRequest(n)
+}
+
+func (r *RequestStream) DoRequest(n int) {
+	r.mu.Lock()
+	sub := r.sub
+	if sub == nil {
+		r.requests = append(r.requests, n)
+	}
+	r.mu.Unlock()
+	if sub != nil {
+		sub.Request(n)
+	}
+}
+
+// Start passes the demand on, once the response can take it.
+func (r *RequestStream) Start(sub rx.Subscription, initialN int) {
+	sub.Request(initialN)
+	r.mu.Lock()
+	r.sub = sub
+	requests, ended := r.requests, r.outEnded
+	r.requests = nil
+	r.mu.Unlock()
+	if ended {
+		sub.Cancel()
+		return
+	}
+	for _, n := range requests {
+		sub.Request(n)
+	}
+}
+
+func (r *RequestStream) OnNext(p payload.Payload) {
+	r.receive(false, func(sink flux.Sink[payload.Payload]) { sink.Next(p) })
+}
+
+func (r *RequestStream) OnComplete() {
+	r.receive(true, func(sink flux.Sink[payload.Payload]) { sink.Complete() })
+}
+
+func (r *RequestStream) OnError(err error) {
+	r.receive(true, func(sink flux.Sink[payload.Payload]) { sink.Error(err) })
+}
+
+// OnCancel is called when the peer wants nothing more of the response, nor sends anything more.
+func (r *RequestStream) OnCancel() {
+	r.EndOutput()
+	r.mu.Lock()
+	sub := r.sub
+	r.mu.Unlock()
+	if sub != nil {
+		sub.Cancel()
+	}
+	r.OnComplete()
+}
+
+// receive hands what the peer sent to the consumer, or keeps it until there is one.
+func (r *RequestStream) receive(last bool, fn func(flux.Sink[payload.Payload])) {
+	r.mu.Lock()
+	if r.inEnded {
+		r.mu.Unlock()
+		return
+	}
+	r.inEnded = last
+	done := r.inEnded && r.outEnded
+	sink := r.sink
+	if sink == nil {
+		r.inputs = append(r.inputs, fn)
+	}
+	r.mu.Unlock()
+	if done {
+		r.remove(r.streamID)
+	}
+	if sink != nil {
+		fn(sink)
+	}
+}
+
+// StartInput hands over what has arrived already.
+func (r *RequestStream) StartInput(sink flux.Sink[payload.Payload]) {
+	for {
+		r.mu.Lock()
+		inputs := r.inputs
+		r.inputs = nil
+		if len(inputs) == 0 {
+			r.sink = sink
+			r.mu.Unlock()
+			return
+		}
+		r.mu.Unlock()
+		for _, fn := range inputs {
+			fn(sink)
+		}
+	}
+}
+
+// EndInput notes that nothing more is wanted from the peer, and reports whether it had more to send.
+func (r *RequestStream) EndInput() bool {
+	r.mu.Lock()
+	ended := r.inEnded
+	r.inEnded = true
+	done := r.outEnded
+	r.mu.Unlock()
+	if done {
+		r.remove(r.streamID)
+	}
+	return !ended
+}
+
+// DropInput ends the input when nobody consumes it, and reports whether the peer had more to send.
+func (r *RequestStream) DropInput() bool {
+	r.mu.Lock()
+	drop := r.sink == nil && !r.inEnded
+	r.mu.Unlock()
+	if drop {
+		r.OnComplete()
+	}
+	return drop
+}
+
+// OutputEnded reports whether nothing more of the response is wanted.
+func (r *RequestStream) OutputEnded() bool {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	return r.outEnded
+}
+
+// EndOutput notes that the response has ended, and reports whether it was still wanted.
+func (r *RequestStream) EndOutput() bool {
+	r.mu.Lock()
+	ended := r.outEnded
+	r.outEnded = true
+	done := r.inEnded
+	r.mu.Unlock()
+	if done {
+		r.remove(r.streamID)
+	}
+	return !ended
+}
+
+// End ends the stream in both directions.
+func (r *RequestStream) End() bool {
+	r.EndInput()
+	return r.EndOutput()
+}
diff --git a/go/transport/wasmrs/guest/guest.go b/go/transport/wasmrs/guest/guest.go
index 92fffb0..913733f 100644
--- a/go/transport/wasmrs/guest/guest.go
+++ b/go/transport/wasmrs/guest/guest.go
@@ -5,7 +5,6 @@ import (
 	"encoding/binary"
 	"errors"
 	"reflect"
-	"strconv"
 	"unsafe"
 
 	"github.com/nanobus/iota/go/internal/frames"
@@ -13,7 +12,6 @@ import (
 	"github.com/nanobus/iota/go/operations"
 	"github.com/nanobus/iota/go/payload"
 	"github.com/nanobus/iota/go/proxy"
-	"github.com/nanobus/iota/go/rx"
 	"github.com/nanobus/iota/go/rx/flux"
 	"github.com/nanobus/iota/go/rx/mono"
 )
@@ -126,10 +124,7 @@ func GuestSend(endPos uint32) {
 			var ok bool
 			str, ok = getStream(header.StreamID())
 			if !ok {
-				if header.Type() != frames.FrameTypeRequestN {
-					println("Guest: Stream " + strconv.FormatUint(uint64(header.StreamID()), 10) + " not found")
-				}
-				// Return error
+				// The stream has ended, possibly while the frame was on its way.
 				continue
 			}
 		}
@@ -142,7 +137,7 @@ func GuestSend(endPos uint32) {
 			var rr frames.RequestPayload
 			if err := rr.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rr.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
 				continue
@@ -152,13 +147,15 @@ func GuestSend(endPos uint32) {
 				continue
 			}
 
-			handleRequestResponse(ctx, rr.StreamID, rr.Data, rr.Metadata)
+			if s := acceptRequest(ctx, &rr); s != nil {
+				handleRequestResponse(ctx, s, rr.Data, rr.Metadata)
+			}
 
 		case frames.FrameTypeRequestFNF:
 			var rr frames.RequestPayload
 			if err := rr.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rr.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
 				continue
@@ -168,13 +165,15 @@ func GuestSend(endPos uint32) {
 				continue
 			}
 
-			handleFireAndForget(ctx, rr.StreamID, rr.Data, rr.Metadata)
+			if s := acceptRequest(ctx, &rr); s != nil {
+				handleFireAndForget(ctx, s, rr.Data, rr.Metadata)
+			}
 
 		case frames.FrameTypeRequestStream:
 			var rs frames.RequestPayload
 			if err := rs.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rs.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
 				continue
@@ -184,40 +183,46 @@ func GuestSend(endPos uint32) {
 				continue
 			}
 
-			handleRequestStream(ctx, rs.StreamID, rs.Data, rs.Metadata, rs.InitialN)
+			if s := acceptRequest(ctx, &rs); s != nil {
+				handleRequestStream(ctx, s, rs.Data, rs.Metadata, rs.InitialN)
+			}
 
 		case frames.FrameTypeRequestChannel:
 			var rc frames.RequestPayload
 			if err := rc.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rc.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
-				return
+				continue
 			}
 			if checkFollows(&rc) {
 				// Will be processed under frames.FrameTypePayload
 				continue
 			}
 
-			handleRequestChannel(ctx, rc.StreamID, rc.Data, rc.Metadata, rc.InitialN)
+			if s := acceptRequest(ctx, &rc); s != nil {
+				handleRequestChannel(ctx, s, rc.Data, rc.Metadata, rc.InitialN)
+			}
 
 		case frames.FrameTypeRequestN:
 			var rn frames.RequestN
 			if err := rn.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rn.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
-				return
+				continue
 			}
 
-			s := str.(DoRequest)
-			s.DoRequest(int(rn.N))
+			if s, ok := str.(DoRequest); ok {
+				s.DoRequest(int(rn.N))
+			}
 
 		case frames.FrameTypeCancel:
-			str.OnComplete()
-			removeStream(header.StreamID())
+			if s, ok := str.(OnCancel); ok {
+				s.OnCancel()
+			}
 
 		case frames.FrameTypePayload:
 			var p frames.Payload
@@ -279,7 +284,6 @@ func GuestSend(endPos uint32) {
 
 			if p.Complete {
 				str.OnComplete()
-				removeStream(header.StreamID())
 			}
 
 		case frames.FrameTypeError:
@@ -288,20 +292,32 @@ func GuestSend(endPos uint32) {
 				continue
 			}
 			str.OnError(errors.New(p.Data))
-			str.OnComplete()
-			removeStream(header.StreamID())
 		}
 	}
 }
 
-func handleRequestResponse(ctx context.Context, streamID uint32, data, metadata []byte) {
+// acceptRequest registers the stream of a request, for the frames that follow.
+// It returns nil if the stream is in use.
+func acceptRequest(ctx context.Context, r *frames.RequestPayload) *proxy.RequestStream {
+	if _, ok := getStream(r.StreamID); ok {
+		return nil
+	}
+	s := proxy.NewRequestStream(ctx, r.StreamID, removeStream, r.FrameType != frames.FrameTypeRequestChannel)
+	registerStream(s)
+	return s
+}
+
+func handleRequestResponse(ctx context.Context, s *proxy.RequestStream, data, metadata []byte) {
+	streamID := s.StreamID()
 	if !checkMetadata(streamID, metadata) {
+		s.End()
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetRequestResponseHandler(operationID)
 	if handler == nil {
+		s.End()
 		sendFrame(&frames.Error{
 			StreamID: streamID,
 			Data:     "not_found",
@@ -310,10 +326,12 @@ func handleRequestResponse(ctx context.Context, streamID uint32, data, metadata
 	}
 
 	p := payload.New(data, metadata[8:])
-	s := requestStream{ctx: ctx, streamID: streamID}
-	ctx = proxy.WithContext(ctx, &s)
+	ctx = proxy.WithContext(ctx, s)
 	handler(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
 		OnSuccess: func(p payload.Payload) {
+			if !s.End() {
+				return
+			}
 			sendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
@@ -323,6 +341,9 @@ func handleRequestResponse(ctx context.Context, streamID uint32, data, metadata
 			})
 		},
 		OnError: func(err error) {
+			if !s.End() {
+				return
+			}
 			sendFrame(&frames.Error{
 				StreamID: streamID,
 				Data:     err.Error(),
@@ -331,14 +352,17 @@ func handleRequestResponse(ctx context.Context, streamID uint32, data, metadata
 	})
 }
 
-func handleFireAndForget(ctx context.Context, streamID uint32, data, metadata []byte) {
+func handleFireAndForget(ctx context.Context, s *proxy.RequestStream, data, metadata []byte) {
+	streamID := s.StreamID()
 	if !checkMetadata(streamID, metadata) {
+		s.End()
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetFireAndForgetHandler(operationID)
 	if handler == nil {
+		s.End()
 		sendFrame(&frames.Error{
 			StreamID: streamID,
 			Data:     "not_found",
@@ -347,20 +371,22 @@ func handleFireAndForget(ctx context.Context, streamID uint32, data, metadata []
 	}
 
 	p := payload.New(data, metadata[8:])
-	s := requestStream{ctx: ctx, streamID: streamID}
-	registerStream(&s)
-	ctx = proxy.WithContext(ctx, &s)
+	ctx = proxy.WithContext(ctx, s)
 	handler(ctx, p)
+	s.End()
 }
 
-func handleRequestStream(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
+func handleRequestStream(ctx context.Context, s *proxy.RequestStream, data, metadata []byte, initialN uint32) {
+	streamID := s.StreamID()
 	if !checkMetadata(streamID, metadata) {
+		s.End()
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetRequestStreamHandler(operationID)
 	if handler == nil {
+		s.End()
 		sendFrame(&frames.Error{
 			StreamID: streamID,
 			Data:     "not_found",
@@ -369,12 +395,14 @@ func handleRequestStream(ctx context.Context, streamID uint32, data, metadata []
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{ctx: ctx, streamID: streamID}
-	registerStream(&s) // Need to register for RequestN frames
 	// ctx := stream.WithContext(context.Background(), s)
 	f := handler(ctx, p)
 	f.Subscribe(flux.Subscribe[payload.Payload]{
 		OnNext: func(p payload.Payload) {
+			if s.OutputEnded() {
+				f.Subscription().Cancel()
+				return
+			}
 			sendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
@@ -383,12 +411,18 @@ func handleRequestStream(ctx context.Context, streamID uint32, data, metadata []
 			})
 		},
 		OnComplete: func() {
+			if !s.EndOutput() {
+				return
+			}
 			sendFrame(&frames.Payload{
 				StreamID: streamID,
 				Complete: true,
 			})
 		},
 		OnError: func(err error) {
+			if !s.End() {
+				return
+			}
 			sendFrame(&frames.Error{
 				StreamID: streamID,
 				Data:     err.Error(),
@@ -396,19 +430,20 @@ func handleRequestStream(ctx context.Context, streamID uint32, data, metadata []
 		},
 		NoRequest: true,
 	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.Start(f.Subscription(), int(initialN))
 }
 
-func handleRequestChannel(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
+func handleRequestChannel(ctx context.Context, s *proxy.RequestStream, data, metadata []byte, initialN uint32) {
+	streamID := s.StreamID()
 	if !checkMetadata(streamID, metadata) {
+		s.End()
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetRequestChannelHandler(operationID)
 	if handler == nil {
+		s.End()
 		sendFrame(&frames.Error{
 			StreamID: streamID,
 			Data:     "not_found",
@@ -417,10 +452,7 @@ func handleRequestChannel(ctx context.Context, streamID uint32, data, metadata [
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{streamID: streamID}
-	registerStream(&s) // Need to register for RequestN frames
 	in := flux.Create(func(sink flux.Sink[payload.Payload]) {
-		s.sink = sink
 		sink.OnSubscribe(flux.OnSubscribe{
 			Request: func(n int) {
 				sendFrame(&frames.RequestN{
@@ -429,15 +461,23 @@ func handleRequestChannel(ctx context.Context, streamID uint32, data, metadata [
 				})
 			},
 			Cancel: func() {
+				if !s.EndInput() {
+					return
+				}
 				sendFrame(&frames.Cancel{
 					StreamID: streamID,
 				})
 			},
 		})
+		s.StartInput(sink)
 	})
 	f := handler(ctx, p, in)
 	f.Subscribe(flux.Subscribe[payload.Payload]{
 		OnNext: func(p payload.Payload) {
+			if s.OutputEnded() {
+				f.Subscription().Cancel()
+				return
+			}
 			sendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
@@ -446,12 +486,23 @@ func handleRequestChannel(ctx context.Context, streamID uint32, data, metadata [
 			})
 		},
 		OnComplete: func() {
+			if !s.EndOutput() {
+				return
+			}
 			sendFrame(&frames.Payload{
 				StreamID: streamID,
 				Complete: true,
 			})
+			if s.DropInput() {
+				sendFrame(&frames.Cancel{
+					StreamID: streamID,
+				})
+			}
 		},
 		OnError: func(err error) {
+			if !s.End() {
+				return
+			}
 			sendFrame(&frames.Error{
 				StreamID: streamID,
 				Data:     err.Error(),
@@ -459,9 +510,7 @@ func handleRequestChannel(ctx context.Context, streamID uint32, data, metadata [
 		},
 		NoRequest: true,
 	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.Start(f.Subscription(), int(initialN))
 }
 
 func checkMetadata(streamID uint32, metadata []byte) bool {
@@ -572,42 +621,8 @@ type DoRequest interface {
 	DoRequest(n int)
 }
 
-type requestStream struct {
-	ctx      context.Context
-	streamID uint32
-	flux.Sink[payload.Payload]
-	sub  rx.Subscription
-	sink flux.Sink[payload.Payload]
-}
-
-var _ = (proxy.Stream)((*requestStream)(nil))
-
-func (r *requestStream) Context() context.Context {
-	return r.ctx
-}
-
-func (r *requestStream) StreamID() uint32 {
-	return r.streamID
-}
-
-func (r *requestStream) Request(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) DoRequest(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) OnNext(p payload.Payload) {
-	r.sink.Next(p)
-}
-
-func (r *requestStream) OnComplete() {
-	r.sink.Complete()
-}
-
-func (r *requestStream) OnError(err error) {
-	r.sink.Error(err)
+type OnCancel interface {
+	OnCancel()
 }
 
 //go:inline
diff --git a/go/transport/wasmrs/host/instance.go b/go/transport/wasmrs/host/instance.go
index 04dfbbb..e54eb96 100644
--- a/go/transport/wasmrs/host/instance.go
+++ b/go/transport/wasmrs/host/instance.go
@@ -5,7 +5,6 @@ import (
 	"context"
 	"encoding/binary"
 	"errors"
-	"fmt"
 	"sync"
 
 	"github.com/tetratelabs/wazero/api"
@@ -16,7 +15,6 @@ import (
 	"github.com/nanobus/iota/go/operations"
 	"github.com/nanobus/iota/go/payload"
 	"github.com/nanobus/iota/go/proxy"
-	"github.com/nanobus/iota/go/rx"
 	"github.com/nanobus/iota/go/rx/flux"
 	"github.com/nanobus/iota/go/rx/mono"
 )
@@ -252,6 +250,9 @@ func (i *Instance) recvLoop() {
 }
 
 func (i *Instance) recvOne(data []byte) {
+	if len(data) < frames.FrameHeaderLen {
+		return
+	}
 	ctx := context.Background()
 	header := frames.ParseFrameHeader(data)
 	data = data[frames.FrameHeaderLen:]
@@ -261,10 +262,7 @@ func (i *Instance) recvOne(data []byte) {
 		var ok bool
 		str, ok = i.getStream(header.StreamID())
 		if !ok {
-			// Return error
-			if header.Type() != frames.FrameTypeRequestN {
-				fmt.Printf("Host: Stream %d not found\n", header.StreamID())
-			}
+			// The stream has ended, possibly while the frame was on its way.
 			return
 		}
 	}
@@ -276,7 +274,7 @@ func (i *Instance) recvOne(data []byte) {
 		var rr frames.RequestPayload
 		if err := rr.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rr.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
@@ -286,13 +284,15 @@ func (i *Instance) recvOne(data []byte) {
 			return
 		}
 
-		go i.handleRequestResponse(ctx, rr.StreamID, rr.Data, rr.Metadata)
+		if s := i.acceptRequest(ctx, &rr); s != nil {
+			go i.handleRequestResponse(s.Context(), s, rr.Data, rr.Metadata)
+		}
 
 	case frames.FrameTypeRequestFNF:
 		var rr frames.RequestPayload
 		if err := rr.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rr.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
@@ -302,13 +302,15 @@ func (i *Instance) recvOne(data []byte) {
 			return
 		}
 
-		go i.handleFireAndForget(ctx, rr.StreamID, rr.Data, rr.Metadata)
+		if s := i.acceptRequest(ctx, &rr); s != nil {
+			go i.handleFireAndForget(s.Context(), s, rr.Data, rr.Metadata)
+		}
 
 	case frames.FrameTypeRequestStream:
 		var rs frames.RequestPayload
 		if err := rs.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rs.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
@@ -318,13 +320,15 @@ func (i *Instance) recvOne(data []byte) {
 			return
 		}
 
-		go i.handleRequestStream(ctx, rs.StreamID, rs.Data, rs.Metadata, rs.InitialN)
+		if s := i.acceptRequest(ctx, &rs); s != nil {
+			go i.handleRequestStream(s.Context(), s, rs.Data, rs.Metadata, rs.InitialN)
+		}
 
 	case frames.FrameTypeRequestChannel:
 		var rc frames.RequestPayload
 		if err := rc.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rc.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
@@ -334,24 +338,28 @@ func (i *Instance) recvOne(data []byte) {
 			return
 		}
 
-		go i.handleRequestChannel(ctx, rc.StreamID, rc.Data, rc.Metadata, rc.InitialN)
+		if s := i.acceptRequest(ctx, &rc); s != nil {
+			go i.handleRequestChannel(s.Context(), s, rc.Data, rc.Metadata, rc.InitialN)
+		}
 
 	case frames.FrameTypeRequestN:
 		var rn frames.RequestN
 		if err := rn.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rn.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
 		}
 
-		s := str.(DoRequest)
-		go s.DoRequest(int(rn.N))
+		if s, ok := str.(DoRequest); ok {
+			go s.DoRequest(int(rn.N))
+		}
 
 	case frames.FrameTypeCancel:
-		str.OnComplete()
-		i.removeStream(header.StreamID())
+		if s, ok := str.(OnCancel); ok {
+			s.OnCancel()
+		}
 
 	case frames.FrameTypePayload:
 		var p frames.Payload
@@ -410,7 +418,6 @@ func (i *Instance) recvOne(data []byte) {
 
 		if p.Complete {
 			str.OnComplete()
-			i.removeStream(header.StreamID())
 		}
 
 	case frames.FrameTypeError:
@@ -419,34 +426,52 @@ func (i *Instance) recvOne(data []byte) {
 			return
 		}
 		str.OnError(errors.New(p.Data))
-		str.OnComplete()
-		i.removeStream(header.StreamID())
 	}
 }
 
-func (i *Instance) handleRequestResponse(ctx context.Context, streamID uint32, data, metadata []byte) {
+// acceptRequest registers the stream of a request, for the frames that follow.
+// It returns nil if the stream is in use.
+func (i *Instance) acceptRequest(ctx context.Context, r *frames.RequestPayload) *proxy.RequestStream {
+	if _, ok := i.getStream(r.StreamID); ok {
+		return nil
+	}
+	if len(r.Metadata) >= 8 {
+		parentStreamID := binary.BigEndian.Uint32(r.Metadata[4:])
+		if parentStreamID != 0 {
+			if stream, ok := i.getStream(parentStreamID); ok {
+				ctx = stream.Context()
+			}
+		}
+	}
+	s := proxy.NewRequestStream(ctx, r.StreamID, i.removeStream, r.FrameType != frames.FrameTypeRequestChannel)
+	i.registerStream(s)
+	return s
+}
+
+func (i *Instance) handleRequestResponse(ctx context.Context, s *proxy.RequestStream, data, metadata []byte) {
+	streamID := s.StreamID()
 	if !i.checkMetadata(streamID, metadata) {
+		s.End()
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
-	parentStreamID := binary.BigEndian.Uint32(metadata[4:])
-	if parentStreamID != 0 {
-		if stream, ok := i.getStream(parentStreamID); ok {
-			ctx = stream.Context()
-		}
-	}
 	handler := i.getRequestResponseHandler(operationID)
 	if handler == nil {
+		s.End()
 		i.SendFrame(&frames.Error{
 			StreamID: streamID,
 			Data:     "not_found",
 		})
 		return
 	}
+
 	p := payload.New(data, metadata)
 	handler(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
 		OnSuccess: func(p payload.Payload) {
+			if !s.End() {
+				return
+			}
 			i.SendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
@@ -456,6 +481,9 @@ func (i *Instance) handleRequestResponse(ctx context.Context, streamID uint32, d
 			})
 		},
 		OnError: func(err error) {
+			if !s.End() {
+				return
+			}
 			i.SendFrame(&frames.Error{
 				StreamID: streamID,
 				Data:     err.Error(),
@@ -464,44 +492,40 @@ func (i *Instance) handleRequestResponse(ctx context.Context, streamID uint32, d
 	})
 }
 
-func (i *Instance) handleFireAndForget(ctx context.Context, streamID uint32, data, metadata []byte) {
+func (i *Instance) handleFireAndForget(ctx context.Context, s *proxy.RequestStream, data, metadata []byte) {
+	streamID := s.StreamID()
 	if !i.checkMetadata(streamID, metadata) {
+		s.End()
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
-	parentStreamID := binary.BigEndian.Uint32(metadata[4:])
-	if parentStreamID != 0 {
-		if stream, ok := i.getStream(parentStreamID); ok {
-			ctx = stream.Context()
-		}
-	}
 	handler := i.getFireAndForgetHandler(operationID)
 	if handler == nil {
+		s.End()
 		i.SendFrame(&frames.Error{
 			StreamID: streamID,
 			Data:     "not_found",
 		})
 		return
 	}
+
 	p := payload.New(data, metadata)
 	handler(ctx, p)
+	s.End()
 }
 
-func (i *Instance) handleRequestStream(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
+func (i *Instance) handleRequestStream(ctx context.Context, s *proxy.RequestStream, data, metadata []byte, initialN uint32) {
+	streamID := s.StreamID()
 	if !i.checkMetadata(streamID, metadata) {
+		s.End()
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
-	parentStreamID := binary.BigEndian.Uint32(metadata[4:])
-	if parentStreamID != 0 {
-		if stream, ok := i.getStream(parentStreamID); ok {
-			ctx = stream.Context()
-		}
-	}
-	handlerRS := i.getRequestStreamHandler(operationID)
-	if handlerRS == nil {
+	handler := i.getRequestStreamHandler(operationID)
+	if handler == nil {
+		s.End()
 		i.SendFrame(&frames.Error{
 			StreamID: streamID,
 			Data:     "not_found",
@@ -510,11 +534,13 @@ func (i *Instance) handleRequestStream(ctx context.Context, streamID uint32, dat
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{ctx: ctx, streamID: streamID}
-	i.registerStream(&s) // Need to register for RequestN frames
-	f := handlerRS(ctx, p)
+	f := handler(ctx, p)
 	f.Subscribe(flux.Subscribe[payload.Payload]{
 		OnNext: func(p payload.Payload) {
+			if s.OutputEnded() {
+				f.Subscription().Cancel()
+				return
+			}
 			i.SendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
@@ -523,12 +549,18 @@ func (i *Instance) handleRequestStream(ctx context.Context, streamID uint32, dat
 			})
 		},
 		OnComplete: func() {
+			if !s.EndOutput() {
+				return
+			}
 			i.SendFrame(&frames.Payload{
 				StreamID: streamID,
 				Complete: true,
 			})
 		},
 		OnError: func(err error) {
+			if !s.End() {
+				return
+			}
 			i.SendFrame(&frames.Error{
 				StreamID: streamID,
 				Data:     err.Error(),
@@ -536,25 +568,20 @@ func (i *Instance) handleRequestStream(ctx context.Context, streamID uint32, dat
 		},
 		NoRequest: true,
 	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.Start(f.Subscription(), int(initialN))
 }
 
-func (i *Instance) handleRequestChannel(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
+func (i *Instance) handleRequestChannel(ctx context.Context, s *proxy.RequestStream, data, metadata []byte, initialN uint32) {
+	streamID := s.StreamID()
 	if !i.checkMetadata(streamID, metadata) {
+		s.End()
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
-	parentStreamID := binary.BigEndian.Uint32(metadata[4:])
-	if parentStreamID != 0 {
-		if stream, ok := i.getStream(parentStreamID); ok {
-			ctx = stream.Context()
-		}
-	}
-	handlerRC := i.getRequestChannelHandler(operationID)
-	if handlerRC == nil {
+	handler := i.getRequestChannelHandler(operationID)
+	if handler == nil {
+		s.End()
 		i.SendFrame(&frames.Error{
 			StreamID: streamID,
 			Data:     "not_found",
@@ -563,10 +590,7 @@ func (i *Instance) handleRequestChannel(ctx context.Context, streamID uint32, da
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{streamID: streamID}
-	i.registerStream(&s) // Need to register for RequestN frames
 	in := flux.Create(func(sink flux.Sink[payload.Payload]) {
-		s.sink = sink
 		sink.OnSubscribe(flux.OnSubscribe{
 			Request: func(n int) {
 				i.SendFrame(&frames.RequestN{
@@ -575,15 +599,23 @@ func (i *Instance) handleRequestChannel(ctx context.Context, streamID uint32, da
 				})
 			},
 			Cancel: func() {
+				if !s.EndInput() {
+					return
+				}
 				i.SendFrame(&frames.Cancel{
 					StreamID: streamID,
 				})
 			},
 		})
+		s.StartInput(sink)
 	})
-	f := handlerRC(ctx, p, in)
+	f := handler(ctx, p, in)
 	f.Subscribe(flux.Subscribe[payload.Payload]{
 		OnNext: func(p payload.Payload) {
+			if s.OutputEnded() {
+				f.Subscription().Cancel()
+				return
+			}
 			i.SendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
@@ -592,12 +624,23 @@ func (i *Instance) handleRequestChannel(ctx context.Context, streamID uint32, da
 			})
 		},
 		OnComplete: func() {
+			if !s.EndOutput() {
+				return
+			}
 			i.SendFrame(&frames.Payload{
 				StreamID: streamID,
 				Complete: true,
 			})
+			if s.DropInput() {
+				i.SendFrame(&frames.Cancel{
+					StreamID: streamID,
+				})
+			}
 		},
 		OnError: func(err error) {
+			if !s.End() {
+				return
+			}
 			i.SendFrame(&frames.Error{
 				StreamID: streamID,
 				Data:     err.Error(),
@@ -605,9 +648,7 @@ func (i *Instance) handleRequestChannel(ctx context.Context, streamID uint32, da
 		},
 		NoRequest: true,
 	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.Start(f.Subscription(), int(initialN))
 }
 
 func (i *Instance) SetRequestResponseHandler(index uint32, handler invoke.RequestResponseHandler) {
@@ -696,40 +737,6 @@ type DoRequest interface {
 	DoRequest(n int)
 }
 
-type requestStream struct {
-	ctx      context.Context
-	streamID uint32
-	flux.Sink[payload.Payload]
-	sub  rx.Subscription
-	sink flux.Sink[payload.Payload]
-}
-
-var _ = (proxy.Stream)((*requestStream)(nil))
-
-func (r *requestStream) Context() context.Context {
-	return r.ctx
-}
-
-func (r *requestStream) StreamID() uint32 {
-	return r.streamID
-}
-
-func (r *requestStream) Request(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) DoRequest(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) OnNext(p payload.Payload) {
-	r.sink.Next(p)
-}
-
-func (r *requestStream) OnComplete() {
-	r.sink.Complete()
-}
-
-func (r *requestStream) OnError(err error) {
-	r.sink.Error(err)
+type OnCancel interface {
+	OnCancel()
 }
-- 
2.43.0


From 3edcce138702fa3261d6db055c78263afe48c0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:18 +0000
Subject: [PATCH 45/58] fix: frames that do not fit a wasm buffer are refused

---
 go/handler/handler.go                |  56 ++++++----
 go/proxy/flux.go                     |  10 +-
 go/transport/wasmrs/guest/guest.go   |  82 +++++++++-----
 go/transport/wasmrs/host/instance.go | 154 ++++++++++++++++++---------
 4 files changed, 204 insertions(+), 98 deletions(-)

diff --git a/go/handler/handler.go b/go/handler/handler.go
index 24da6a3..470b446 100644
--- a/go/handler/handler.go
+++ b/go/handler/handler.go
@@ -259,22 +259,21 @@ func (i *Handler) handleRequestResponse(ctx context.Context, s *proxy.RequestStr
 			if !s.End() {
 				return
 			}
-			i.sendFrame(&frames.Payload{
+			if err := i.sendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
 				Complete: true,
-			})
+			}); err != nil {
+				i.sendError(streamID, err)
+			}
 		},
 		OnError: func(err error) {
 			if !s.End() {
 				return
 			}
-			i.sendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
+			i.sendError(streamID, err)
 		},
 	})
 }
@@ -330,12 +329,18 @@ func (i *Handler) handleRequestStream(ctx context.Context, s *proxy.RequestStrea
 				f.Subscription().Cancel()
 				return
 			}
-			i.sendFrame(&frames.Payload{
+			if err := i.sendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
-			})
+			}); err != nil {
+				if s.EndOutput() {
+					i.sendError(streamID, err)
+				}
+				s.OnCancel()
+				f.Subscription().Cancel()
+			}
 		},
 		OnComplete: func() {
 			if !s.EndOutput() {
@@ -350,10 +355,7 @@ func (i *Handler) handleRequestStream(ctx context.Context, s *proxy.RequestStrea
 			if !s.End() {
 				return
 			}
-			i.sendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
+			i.sendError(streamID, err)
 		},
 		NoRequest: true,
 	})
@@ -405,12 +407,18 @@ func (i *Handler) handleRequestChannel(ctx context.Context, s *proxy.RequestStre
 				f.Subscription().Cancel()
 				return
 			}
-			i.sendFrame(&frames.Payload{
+			if err := i.sendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
-			})
+			}); err != nil {
+				if s.EndOutput() {
+					i.sendError(streamID, err)
+				}
+				s.OnCancel()
+				f.Subscription().Cancel()
+			}
 		},
 		OnComplete: func() {
 			if !s.EndOutput() {
@@ -430,10 +438,7 @@ func (i *Handler) handleRequestChannel(ctx context.Context, s *proxy.RequestStre
 			if !s.End() {
 				return
 			}
-			i.sendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
+			i.sendError(streamID, err)
 		},
 		NoRequest: true,
 	})
@@ -687,6 +692,21 @@ func (i *Handler) getRequestChannelHandler(index uint32) invoke.RequestChannelHa
 	return i.importedRC[index]
 }
 
+// sendError ends a stream with an error.
+func (i *Handler) sendError(streamID uint32, err error) {
+	err = i.sendFrame(&frames.Error{
+		StreamID: streamID,
+		Data:     err.Error(),
+	})
+	if err != nil {
+		// The message may be what could not be sent.
+		i.sendFrame(&frames.Error{
+			StreamID: streamID,
+			Data:     err.Error(),
+		})
+	}
+}
+
 func (i *Handler) checkMetadata(streamID uint32, metadata []byte) bool {
 	if len(metadata) < 8 { // 48 before... but why?
 		i.SendFrame(&frames.Error{
diff --git a/go/proxy/flux.go b/go/proxy/flux.go
index 8d7861d..ade59cb 100644
--- a/go/proxy/flux.go
+++ b/go/proxy/flux.go
@@ -124,12 +124,18 @@ func (s *streamFlux) Request(n int) {
 					if s.inDone() {
 						return
 					}
-					s.sendFrame(&frames.Payload{
+					if err := s.sendFrame(&frames.Payload{
 						StreamID: s.request.StreamID,
 						Metadata: p.Metadata(),
 						Data:     p.Data(),
 						Next:     true,
-					})
+					}); err != nil {
+						s.sendFrame(&frames.Error{
+							StreamID: s.request.StreamID,
+							Data:     err.Error(),
+						})
+						s.endIn()
+					}
 				},
 				OnComplete: func() {
 					if s.inDone() {
diff --git a/go/transport/wasmrs/guest/guest.go b/go/transport/wasmrs/guest/guest.go
index 913733f..34022b6 100644
--- a/go/transport/wasmrs/guest/guest.go
+++ b/go/transport/wasmrs/guest/guest.go
@@ -33,6 +33,8 @@ var (
 	fragmentedPayloads map[uint32]fragmentedPayload
 )
 
+var errFrameTooLarge = errors.New("frame does not fit the buffer")
+
 type fragmentedPayload struct {
 	frameType frames.FrameType
 	initialN  uint32
@@ -104,18 +106,25 @@ func convertOperations(handlers []invoke.HandlerInfo, requestType operations.Req
 func GuestSend(endPos uint32) {
 	ctx := context.Background()
 	var lengthBuf [4]byte
-	curPos := uint32(0)
-	buf := guestBuffer
+	if endPos > uint32(len(guestBuffer)) {
+		return
+	}
+	buf := guestBuffer[:endPos]
 
-	for curPos < endPos {
+	for len(buf) > 3 {
 		copy(lengthBuf[1:], buf)
 		frameLen := binary.BigEndian.Uint32(lengthBuf[:])
+		if frameLen > uint32(len(buf))-3 {
+			return
+		}
 		frameBuf := make([]byte, frameLen)
 		copy(frameBuf, buf[3:])
-		curPos += 3 + frameLen
 		buf = buf[3+frameLen:]
 
 		// lengthPos = 1 // Reset for next frame
+		if frameLen < frames.FrameHeaderLen {
+			continue
+		}
 		header := frames.ParseFrameHeader(frameBuf)
 		buffer := frameBuf[frames.FrameHeaderLen:]
 
@@ -332,22 +341,21 @@ func handleRequestResponse(ctx context.Context, s *proxy.RequestStream, data, me
 			if !s.End() {
 				return
 			}
-			sendFrame(&frames.Payload{
+			if err := sendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
 				Complete: true,
-			})
+			}); err != nil {
+				sendError(streamID, err)
+			}
 		},
 		OnError: func(err error) {
 			if !s.End() {
 				return
 			}
-			sendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
+			sendError(streamID, err)
 		},
 	})
 }
@@ -403,12 +411,18 @@ func handleRequestStream(ctx context.Context, s *proxy.RequestStream, data, meta
 				f.Subscription().Cancel()
 				return
 			}
-			sendFrame(&frames.Payload{
+			if err := sendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
-			})
+			}); err != nil {
+				if s.EndOutput() {
+					sendError(streamID, err)
+				}
+				s.OnCancel()
+				f.Subscription().Cancel()
+			}
 		},
 		OnComplete: func() {
 			if !s.EndOutput() {
@@ -423,10 +437,7 @@ func handleRequestStream(ctx context.Context, s *proxy.RequestStream, data, meta
 			if !s.End() {
 				return
 			}
-			sendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
+			sendError(streamID, err)
 		},
 		NoRequest: true,
 	})
@@ -478,12 +489,18 @@ func handleRequestChannel(ctx context.Context, s *proxy.RequestStream, data, met
 				f.Subscription().Cancel()
 				return
 			}
-			sendFrame(&frames.Payload{
+			if err := sendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
-			})
+			}); err != nil {
+				if s.EndOutput() {
+					sendError(streamID, err)
+				}
+				s.OnCancel()
+				f.Subscription().Cancel()
+			}
 		},
 		OnComplete: func() {
 			if !s.EndOutput() {
@@ -503,16 +520,28 @@ func handleRequestChannel(ctx context.Context, s *proxy.RequestStream, data, met
 			if !s.End() {
 				return
 			}
-			sendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
+			sendError(streamID, err)
 		},
 		NoRequest: true,
 	})
 	s.Start(f.Subscription(), int(initialN))
 }
 
+// sendError ends a stream with an error.
+func sendError(streamID uint32, err error) {
+	err = sendFrame(&frames.Error{
+		StreamID: streamID,
+		Data:     err.Error(),
+	})
+	if err != nil {
+		// The message may be what could not be sent.
+		sendFrame(&frames.Error{
+			StreamID: streamID,
+			Data:     err.Error(),
+		})
+	}
+}
+
 func checkMetadata(streamID uint32, metadata []byte) bool {
 	if len(metadata) < 8 { // 48 before but why?
 		sendFrame(&frames.Error{
@@ -604,17 +633,20 @@ func sendFrame(f frames.Frame) error {
 	// } else {
 	// 	doSendFrame(f)
 	// }
-	doSendFrame(f)
-	return nil
+	return doSendFrame(f)
 }
 
-func doSendFrame(f frames.Frame) {
+func doSendFrame(f frames.Frame) error {
 	byteLength := f.Size()
+	if uint64(byteLength)+3 > uint64(len(hostBuffer)) {
+		return errFrameTooLarge
+	}
 	var length [4]byte
 	binary.BigEndian.PutUint32(length[0:4], byteLength)
 	copy(hostBuffer[0:3], length[1:4])
 	f.Encode(hostBuffer[3:])
 	hostSend(byteLength + 3)
+	return nil
 }
 
 type DoRequest interface {
diff --git a/go/transport/wasmrs/host/instance.go b/go/transport/wasmrs/host/instance.go
index e54eb96..8ca768e 100644
--- a/go/transport/wasmrs/host/instance.go
+++ b/go/transport/wasmrs/host/instance.go
@@ -1,11 +1,9 @@
 package host
 
 import (
-	"bytes"
 	"context"
 	"encoding/binary"
 	"errors"
-	"sync"
 
 	"github.com/tetratelabs/wazero/api"
 
@@ -20,15 +18,17 @@ import (
 )
 
 type Instance struct {
-	ctx       context.Context
-	m         api.Module
-	sendCh    chan frames.Frame
-	recvCh    chan *bytes.Buffer //[]byte
-	sendFn    api.Function
-	sendPtr   uint32
-	sendSize  uint32
-	recvPtr   uint32
-	streamIDs socket.ServerStreamIDs
+	ctx        context.Context
+	m          api.Module
+	sendCh     chan frames.Frame
+	recvCh     chan []byte
+	sendFn     api.Function
+	sendPtr    uint32
+	sendSize   uint32
+	recvPtr    uint32
+	recvSize   uint32
+	hasBuffers bool
+	streamIDs  socket.ServerStreamIDs
 	// streamMu     sync.RWMutex
 	// streams      map[uint32]proxy.Stream
 
@@ -59,6 +59,8 @@ type fragmentedPayload struct {
 
 type instanceKey struct{}
 
+var errFrameTooLarge = errors.New("frame does not fit the buffer")
+
 func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 	init := m.ExportedFunction("__wasmrs_init")
 	if init == nil {
@@ -72,22 +74,29 @@ func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 		ctx:    ctx,
 		m:      m,
 		sendCh: make(chan frames.Frame, 100),
-		recvCh: make(chan *bytes.Buffer, 100),
+		recvCh: make(chan []byte, 100),
 		sendFn: send,
 		// streams: make(map[uint32]proxy.Stream),
 		// streams:            make([]proxy.Stream, 1024*1024),
 		maxFrameSize:       1024 * 1024,
 		fragmentedPayloads: make(map[uint32]fragmentedPayload),
 		sendSize:           16 * 1024,
+		recvSize:           16 * 1024,
 	}
 
 	ctx = context.WithValue(ctx, instanceKey{}, i)
-	_, err := init.Call(ctx, uint64(i.sendSize), uint64(16*1024), uint64(i.maxFrameSize))
+	_, err := init.Call(ctx, uint64(i.sendSize), uint64(i.recvSize), uint64(i.maxFrameSize))
 	if err != nil {
 		return nil, err
 	}
+	if !i.hasBuffers {
+		return nil, errors.New("module has not set up its buffers")
+	}
 
 	f := m.ExportedFunction("__wasmrs_op_list_request")
+	if f == nil {
+		return nil, errors.New("module does not export __wasmrs_op_list_request")
+	}
 	_, err = f.Call(ctx)
 	if err != nil {
 		return nil, err
@@ -145,13 +154,38 @@ func (i *Instance) SendFrame(f frames.Frame) error {
 	// } else {
 	// 	i.sendCh <- f
 	// }
+	if frameSpace(f) > uint64(i.sendSize) {
+		return errFrameTooLarge
+	}
 	i.sendCh <- f
 	return nil
 }
 
+// frameSpace is the space a frame takes in a buffer, with its length.
+func frameSpace(f frames.Frame) uint64 {
+	return uint64(f.Size()) + 3
+}
+
 func (i *Instance) setBuffers(sendPtr, recvPtr uint32) {
+	if i.readBuffer(sendPtr, i.sendSize) == nil || i.readBuffer(recvPtr, i.recvSize) == nil {
+		return
+	}
 	i.sendPtr = sendPtr
 	i.recvPtr = recvPtr
+	i.hasBuffers = true
+}
+
+// readBuffer returns the module's memory at ptr, or nil if it is not all there.
+func (i *Instance) readBuffer(ptr, size uint32) []byte {
+	mem := i.m.Memory()
+	if mem == nil {
+		return nil
+	}
+	buf, ok := mem.Read(ptr, size)
+	if !ok {
+		return nil
+	}
+	return buf
 }
 
 func (i *Instance) sendLoop() {
@@ -165,20 +199,18 @@ func (i *Instance) sendLoop() {
 		// Make sure to obtain the buffer
 		// in case it changed size via grow/shrink.
 		if pos == 0 {
-			mem := i.m.Memory()
-			buf, _ = mem.Read(i.sendPtr, i.sendSize)
+			buf = i.readBuffer(i.sendPtr, i.sendSize)
 		}
 
 		byteCount := f.Size()
 
 		// if this frame does not fit,
 		// send the buffer and reset.
-		if pos+3+byteCount >= i.sendSize {
+		if pos+3+byteCount > i.sendSize {
 			i.sendFn.Call(ctx, uint64(pos))
 			pos = 0
 			count = 0
-			mem := i.m.Memory()
-			buf, _ = mem.Read(i.sendPtr, i.sendSize)
+			buf = i.readBuffer(i.sendPtr, i.sendSize)
 		}
 
 		// Encode length and frame data.
@@ -209,43 +241,39 @@ func (i *Instance) sendLoop() {
 	}
 }
 
-var buffers = sync.Pool{
-	New: func() interface{} {
-		return new(bytes.Buffer)
-	},
-}
-
 func (i *Instance) Operations() operations.Table {
 	return i.operations
 }
 
 func (i *Instance) opList(ctx context.Context, opPtr uint32, opSize uint32) {
-	buf, _ := i.m.Memory().Read(opPtr, opSize)
+	buf := i.readBuffer(opPtr, opSize)
 	operations, _ := operations.FromBytes(buf)
 	i.operations = operations
 }
 
 func (i *Instance) hostSend(ctx context.Context, recvPos uint32) {
-	buffer, _ := i.m.Memory().Read(i.recvPtr, recvPos)
+	if recvPos > i.recvSize {
+		return
+	}
+	buffer := i.readBuffer(i.recvPtr, recvPos)
 
-	for len(buffer) > 0 {
+	for len(buffer) > 3 {
 		var length [4]byte
 		copy(length[1:4], buffer[0:3])
 		buffer = buffer[3:]
 		frameLength := binary.BigEndian.Uint32(length[0:4])
-		buf := buffers.Get().(*bytes.Buffer)
-		buf.Reset()
-		buf.Write(buffer)
-		i.recvCh <- buf
+		if frameLength > uint32(len(buffer)) {
+			return
+		}
+		// The guest reuses its memory, and the frame may be kept.
+		i.recvCh <- append([]byte(nil), buffer[:frameLength]...)
 		buffer = buffer[frameLength:]
 	}
 }
 
 func (i *Instance) recvLoop() {
-	for buf := range i.recvCh {
-		i.recvOne(buf.Bytes())
-		buf.Reset()
-		buffers.Put(buf)
+	for data := range i.recvCh {
+		i.recvOne(data)
 	}
 }
 
@@ -472,22 +500,21 @@ func (i *Instance) handleRequestResponse(ctx context.Context, s *proxy.RequestSt
 			if !s.End() {
 				return
 			}
-			i.SendFrame(&frames.Payload{
+			if err := i.SendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
 				Complete: true,
-			})
+			}); err != nil {
+				i.sendError(streamID, err)
+			}
 		},
 		OnError: func(err error) {
 			if !s.End() {
 				return
 			}
-			i.SendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
+			i.sendError(streamID, err)
 		},
 	})
 }
@@ -541,12 +568,18 @@ func (i *Instance) handleRequestStream(ctx context.Context, s *proxy.RequestStre
 				f.Subscription().Cancel()
 				return
 			}
-			i.SendFrame(&frames.Payload{
+			if err := i.SendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
-			})
+			}); err != nil {
+				if s.EndOutput() {
+					i.sendError(streamID, err)
+				}
+				s.OnCancel()
+				f.Subscription().Cancel()
+			}
 		},
 		OnComplete: func() {
 			if !s.EndOutput() {
@@ -561,10 +594,7 @@ func (i *Instance) handleRequestStream(ctx context.Context, s *proxy.RequestStre
 			if !s.End() {
 				return
 			}
-			i.SendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
+			i.sendError(streamID, err)
 		},
 		NoRequest: true,
 	})
@@ -616,12 +646,18 @@ func (i *Instance) handleRequestChannel(ctx context.Context, s *proxy.RequestStr
 				f.Subscription().Cancel()
 				return
 			}
-			i.SendFrame(&frames.Payload{
+			if err := i.SendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
-			})
+			}); err != nil {
+				if s.EndOutput() {
+					i.sendError(streamID, err)
+				}
+				s.OnCancel()
+				f.Subscription().Cancel()
+			}
 		},
 		OnComplete: func() {
 			if !s.EndOutput() {
@@ -641,10 +677,7 @@ func (i *Instance) handleRequestChannel(ctx context.Context, s *proxy.RequestStr
 			if !s.End() {
 				return
 			}
-			i.SendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
+			i.sendError(streamID, err)
 		},
 		NoRequest: true,
 	})
@@ -707,6 +740,21 @@ func (i *Instance) getRequestChannelHandler(index uint32) invoke.RequestChannelH
 	return i.importedRC[index]
 }
 
+// sendError ends a stream with an error.
+func (i *Instance) sendError(streamID uint32, err error) {
+	err = i.SendFrame(&frames.Error{
+		StreamID: streamID,
+		Data:     err.Error(),
+	})
+	if err != nil {
+		// The message may be what could not be sent.
+		i.SendFrame(&frames.Error{
+			StreamID: streamID,
+			Data:     err.Error(),
+		})
+	}
+}
+
 func (i *Instance) checkMetadata(streamID uint32, metadata []byte) bool {
 	if len(metadata) < 8 { // 48 before... but why?
 		i.SendFrame(&frames.Error{
-- 
2.43.0


From 7f9b75765bd5759cf690754084629e7544469680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:46 +0000
Subject: [PATCH 46/58] fix: mesh imports reach exports of their own kind

---
 go/transport/wasmrs/mesh/mesh.go | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/go/transport/wasmrs/mesh/mesh.go b/go/transport/wasmrs/mesh/mesh.go
index 0ba06f8..542d18d 100644
--- a/go/transport/wasmrs/mesh/mesh.go
+++ b/go/transport/wasmrs/mesh/mesh.go
@@ -22,10 +22,16 @@ type (
 	Mesh struct {
 		verbose     bool
 		instances   map[string]*host.Instance
-		exports     map[string]map[string]*atomic.Pointer[destination]
+		exports     map[string]map[exportKey]*atomic.Pointer[destination]
 		unsatisfied []*pending
 	}
 
+	// Each kind of request has its own names.
+	exportKey struct {
+		requestType operations.RequestType
+		operation   string
+	}
+
 	destination struct {
 		instance *host.Instance
 		index    uint32
@@ -48,7 +54,7 @@ func WithVerbose() Option {
 func New(opts ...Option) *Mesh {
 	m := Mesh{
 		instances:   make(map[string]*host.Instance),
-		exports:     map[string]map[string]*atomic.Pointer[destination]{},
+		exports:     map[string]map[exportKey]*atomic.Pointer[destination]{},
 		unsatisfied: make([]*pending, 0, 10),
 	}
 
@@ -65,7 +71,7 @@ func (m *Mesh) RequestResponse(ctx context.Context, namespace, operation string,
 		return nil
 	}
 
-	ptr, ok := ns[operation]
+	ptr, ok := ns[exportKey{operations.RequestResponse, operation}]
 	if !ok {
 		return nil
 	}
@@ -80,7 +86,7 @@ func (m *Mesh) FireAndForget(ctx context.Context, namespace, operation string, p
 		return
 	}
 
-	ptr, ok := ns[operation]
+	ptr, ok := ns[exportKey{operations.FireAndForget, operation}]
 	if !ok {
 		return
 	}
@@ -95,7 +101,7 @@ func (m *Mesh) RequestStream(ctx context.Context, namespace, operation string, p
 		return nil
 	}
 
-	ptr, ok := ns[operation]
+	ptr, ok := ns[exportKey{operations.RequestStream, operation}]
 	if !ok {
 		return nil
 	}
@@ -110,7 +116,7 @@ func (m *Mesh) RequestChannel(ctx context.Context, namespace, operation string,
 		return nil
 	}
 
-	ptr, ok := ns[operation]
+	ptr, ok := ns[exportKey{operations.RequestChannel, operation}]
 	if !ok {
 		return nil
 	}
@@ -193,13 +199,14 @@ func (m *Mesh) linkOperations(inst *host.Instance) {
 		case operations.Export:
 			ns, ok := m.exports[op.Namespace]
 			if !ok {
-				ns = make(map[string]*atomic.Pointer[destination])
+				ns = make(map[exportKey]*atomic.Pointer[destination])
 				m.exports[op.Namespace] = ns
 			}
-			ptr, ok := ns[op.Operation]
+			key := exportKey{op.Type, op.Operation}
+			ptr, ok := ns[key]
 			if !ok {
 				ptr = &atomic.Pointer[destination]{}
-				ns[op.Operation] = ptr
+				ns[key] = ptr
 			}
 
 			ptr.Store(&destination{
@@ -240,7 +247,7 @@ func (m *Mesh) linkOperation(inst *host.Instance, op operations.Operation) bool
 		return false
 	}
 
-	ptr, ok := ns[op.Operation]
+	ptr, ok := ns[exportKey{op.Type, op.Operation}]
 	if !ok {
 		return false
 	}
-- 
2.43.0


From 7482fa0b6372915c19e0946ffdc1af4c48058138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:11 +0000
Subject: [PATCH 47/58] fix: imports follow a module that is loaded again

---
 go/transport/wasmrs/mesh/mesh.go | 82 ++++++++++++++++++++++++++++++--
 1 file changed, 77 insertions(+), 5 deletions(-)

diff --git a/go/transport/wasmrs/mesh/mesh.go b/go/transport/wasmrs/mesh/mesh.go
index 542d18d..a491357 100644
--- a/go/transport/wasmrs/mesh/mesh.go
+++ b/go/transport/wasmrs/mesh/mesh.go
@@ -3,6 +3,7 @@ package mesh
 import (
 	"context"
 	"encoding/binary"
+	"errors"
 	"fmt"
 	"os"
 	"sync/atomic"
@@ -37,12 +38,19 @@ type (
 		index    uint32
 	}
 
+	// link is an import's way to an export, which moves when its module is loaded again.
+	link struct {
+		ptr *atomic.Pointer[destination]
+	}
+
 	pending struct {
 		instance *host.Instance
 		oper     operations.Operation
 	}
 )
 
+var errNotFound = errors.New("not_found")
+
 type Option func(*Mesh)
 
 func WithVerbose() Option {
@@ -76,6 +84,9 @@ func (m *Mesh) RequestResponse(ctx context.Context, namespace, operation string,
 		return nil
 	}
 	dest := ptr.Load()
+	if dest == nil {
+		return nil
+	}
 
 	return dest.RequestResponse(ctx, p)
 }
@@ -91,6 +102,9 @@ func (m *Mesh) FireAndForget(ctx context.Context, namespace, operation string, p
 		return
 	}
 	dest := ptr.Load()
+	if dest == nil {
+		return
+	}
 
 	dest.FireAndForget(ctx, p)
 }
@@ -106,6 +120,9 @@ func (m *Mesh) RequestStream(ctx context.Context, namespace, operation string, p
 		return nil
 	}
 	dest := ptr.Load()
+	if dest == nil {
+		return nil
+	}
 
 	return dest.RequestStream(ctx, p)
 }
@@ -121,6 +138,9 @@ func (m *Mesh) RequestChannel(ctx context.Context, namespace, operation string,
 		return nil
 	}
 	dest := ptr.Load()
+	if dest == nil {
+		return nil
+	}
 
 	return dest.RequestChannel(ctx, p, in)
 }
@@ -175,6 +195,9 @@ func (m *Mesh) LoadModule(ctx context.Context, filename string) (*host.Instance,
 		fmt.Println("Loaded " + filename)
 	}
 	m.linkOperations(inst)
+	if ok {
+		m.unlinkOperations(existing)
+	}
 
 	return inst, nil
 }
@@ -241,6 +264,25 @@ func (m *Mesh) linkOperations(inst *host.Instance) {
 	}
 }
 
+// unlinkOperations forgets what a replaced instance exported and waits for.
+func (m *Mesh) unlinkOperations(inst *host.Instance) {
+	for _, ns := range m.exports {
+		for _, ptr := range ns {
+			if dest := ptr.Load(); dest != nil && dest.instance == inst {
+				ptr.Store(nil)
+			}
+		}
+	}
+
+	filtered := m.unsatisfied[:0]
+	for _, u := range m.unsatisfied {
+		if u.instance != inst {
+			filtered = append(filtered, u)
+		}
+	}
+	m.unsatisfied = filtered
+}
+
 func (m *Mesh) linkOperation(inst *host.Instance, op operations.Operation) bool {
 	ns, ok := m.exports[op.Namespace]
 	if !ok {
@@ -251,22 +293,52 @@ func (m *Mesh) linkOperation(inst *host.Instance, op operations.Operation) bool
 	if !ok {
 		return false
 	}
-	dest := ptr.Load()
+	link := &link{ptr}
 
 	switch op.Type {
 	case operations.RequestResponse:
-		inst.SetRequestResponseHandler(op.Index, dest.RequestResponse)
+		inst.SetRequestResponseHandler(op.Index, link.RequestResponse)
 	case operations.FireAndForget:
-		inst.SetFireAndForgetHandler(op.Index, dest.FireAndForget)
+		inst.SetFireAndForgetHandler(op.Index, link.FireAndForget)
 	case operations.RequestStream:
-		inst.SetRequestStreamHandler(op.Index, dest.RequestStream)
+		inst.SetRequestStreamHandler(op.Index, link.RequestStream)
 	case operations.RequestChannel:
-		inst.SetRequestChannelHandler(op.Index, dest.RequestChannel)
+		inst.SetRequestChannelHandler(op.Index, link.RequestChannel)
 	}
 
 	return true
 }
 
+func (l *link) RequestResponse(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
+	d := l.ptr.Load()
+	if d == nil {
+		return mono.Error[payload.Payload](errNotFound)
+	}
+	return d.RequestResponse(ctx, p)
+}
+
+func (l *link) FireAndForget(ctx context.Context, p payload.Payload) {
+	if d := l.ptr.Load(); d != nil {
+		d.FireAndForget(ctx, p)
+	}
+}
+
+func (l *link) RequestStream(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
+	d := l.ptr.Load()
+	if d == nil {
+		return flux.Error[payload.Payload](errNotFound)
+	}
+	return d.RequestStream(ctx, p)
+}
+
+func (l *link) RequestChannel(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
+	d := l.ptr.Load()
+	if d == nil {
+		return flux.Error[payload.Payload](errNotFound)
+	}
+	return d.RequestChannel(ctx, p, in)
+}
+
 func (d *destination) RequestResponse(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
 	md := p.Metadata()
 	if md != nil {
-- 
2.43.0


From ab5662c658aea009d5d790ef5fb8737e5f59764f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:11 +0000
Subject: [PATCH 48/58] fix: mesh calls do not change the caller's metadata

---
 go/transport/wasmrs/mesh/mesh.go | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/go/transport/wasmrs/mesh/mesh.go b/go/transport/wasmrs/mesh/mesh.go
index a491357..c588b17 100644
--- a/go/transport/wasmrs/mesh/mesh.go
+++ b/go/transport/wasmrs/mesh/mesh.go
@@ -339,34 +339,33 @@ func (l *link) RequestChannel(ctx context.Context, p payload.Payload, in flux.Fl
 	return d.RequestChannel(ctx, p, in)
 }
 
+// address returns the payload with the operation's index in its metadata. The caller's metadata
+// stays as it is, because other calls may share it.
+func (d *destination) address(p payload.Payload) payload.Payload {
+	md := append([]byte(nil), p.Metadata()...)
+	for len(md) < 8 {
+		md = append(md, 0)
+	}
+	binary.BigEndian.PutUint32(md, d.index)
+	return payload.New(p.Data(), md)
+}
+
 func (d *destination) RequestResponse(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
-	md := p.Metadata()
-	if md != nil {
-		binary.BigEndian.PutUint32(md, d.index)
-	}
+	p = d.address(p)
 	return d.instance.RequestResponse(ctx, p)
 }
 
 func (d *destination) FireAndForget(ctx context.Context, p payload.Payload) {
-	md := p.Metadata()
-	if md != nil {
-		binary.BigEndian.PutUint32(md, d.index)
-	}
+	p = d.address(p)
 	d.instance.FireAndForget(ctx, p)
 }
 
 func (d *destination) RequestStream(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
-	md := p.Metadata()
-	if md != nil {
-		binary.BigEndian.PutUint32(md, d.index)
-	}
+	p = d.address(p)
 	return d.instance.RequestStream(ctx, p)
 }
 
 func (d *destination) RequestChannel(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
-	md := p.Metadata()
-	if md != nil {
-		binary.BigEndian.PutUint32(md, d.index)
-	}
+	p = d.address(p)
 	return d.instance.RequestChannel(ctx, p, in)
 }
-- 
2.43.0


From b53f5fe895fec6915cb949830dd26a1101b698cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:03 +0000
Subject: [PATCH 49/58] fix: imports are linked under any index, while the
 module runs

---
 go/transport/wasmrs/host/handlers.go | 25 +++++++++++++++
 go/transport/wasmrs/host/instance.go | 48 +++++++---------------------
 2 files changed, 37 insertions(+), 36 deletions(-)
 create mode 100644 go/transport/wasmrs/host/handlers.go

diff --git a/go/transport/wasmrs/host/handlers.go b/go/transport/wasmrs/host/handlers.go
new file mode 100644
index 0000000..be6656f
--- /dev/null
+++ b/go/transport/wasmrs/host/handlers.go
@@ -0,0 +1,25 @@
+package host
+
+import "sync"
+
+// handlers are the handlers of the operations that a module imports. They are set while the
+// module runs, under whatever index it gave.
+type handlers[H any] struct {
+	mu sync.RWMutex
+	m  map[uint32]H
+}
+
+func (h *handlers[H]) get(index uint32) H {
+	h.mu.RLock()
+	defer h.mu.RUnlock()
+	return h.m[index]
+}
+
+func (h *handlers[H]) set(index uint32, handler H) {
+	h.mu.Lock()
+	defer h.mu.Unlock()
+	if h.m == nil {
+		h.m = make(map[uint32]H)
+	}
+	h.m[index] = handler
+}
diff --git a/go/transport/wasmrs/host/instance.go b/go/transport/wasmrs/host/instance.go
index 8ca768e..b985aee 100644
--- a/go/transport/wasmrs/host/instance.go
+++ b/go/transport/wasmrs/host/instance.go
@@ -44,10 +44,10 @@ type Instance struct {
 	fragmentedPayloads map[uint32]fragmentedPayload
 	operations         operations.Table
 
-	importedRR   []invoke.RequestResponseHandler
-	importedRFNF []invoke.FireAndForgetHandler
-	importedRS   []invoke.RequestStreamHandler
-	importedRC   []invoke.RequestChannelHandler
+	importedRR   handlers[invoke.RequestResponseHandler]
+	importedRFNF handlers[invoke.FireAndForgetHandler]
+	importedRS   handlers[invoke.RequestStreamHandler]
+	importedRC   handlers[invoke.RequestChannelHandler]
 }
 
 type fragmentedPayload struct {
@@ -685,59 +685,35 @@ func (i *Instance) handleRequestChannel(ctx context.Context, s *proxy.RequestStr
 }
 
 func (i *Instance) SetRequestResponseHandler(index uint32, handler invoke.RequestResponseHandler) {
-	for uint32(len(i.importedRR)) < index+1 {
-		i.importedRR = append(i.importedRR, nil)
-	}
-	i.importedRR[index] = handler
+	i.importedRR.set(index, handler)
 }
 
 func (i *Instance) getRequestResponseHandler(index uint32) invoke.RequestResponseHandler {
-	if uint32(len(i.importedRR)) <= index {
-		return nil
-	}
-	return i.importedRR[index]
+	return i.importedRR.get(index)
 }
 
 func (i *Instance) SetFireAndForgetHandler(index uint32, handler invoke.FireAndForgetHandler) {
-	for uint32(len(i.importedRFNF)) < index+1 {
-		i.importedRFNF = append(i.importedRFNF, nil)
-	}
-	i.importedRFNF[index] = handler
+	i.importedRFNF.set(index, handler)
 }
 
 func (i *Instance) getFireAndForgetHandler(index uint32) invoke.FireAndForgetHandler {
-	if uint32(len(i.importedRFNF)) <= index {
-		return nil
-	}
-	return i.importedRFNF[index]
+	return i.importedRFNF.get(index)
 }
 
 func (i *Instance) SetRequestStreamHandler(index uint32, handler invoke.RequestStreamHandler) {
-	for uint32(len(i.importedRS)) < index+1 {
-		i.importedRS = append(i.importedRS, nil)
-	}
-	i.importedRS[index] = handler
+	i.importedRS.set(index, handler)
 }
 
 func (i *Instance) getRequestStreamHandler(index uint32) invoke.RequestStreamHandler {
-	if uint32(len(i.importedRS)) <= index {
-		return nil
-	}
-	return i.importedRS[index]
+	return i.importedRS.get(index)
 }
 
 func (i *Instance) SetRequestChannelHandler(index uint32, handler invoke.RequestChannelHandler) {
-	for uint32(len(i.importedRC)) < index+1 {
-		i.importedRC = append(i.importedRC, nil)
-	}
-	i.importedRC[index] = handler
+	i.importedRC.set(index, handler)
 }
 
 func (i *Instance) getRequestChannelHandler(index uint32) invoke.RequestChannelHandler {
-	if uint32(len(i.importedRC)) <= index {
-		return nil
-	}
-	return i.importedRC[index]
+	return i.importedRC.get(index)
 }
 
 // sendError ends a stream with an error.
-- 
2.43.0


From 4e262f6410a601efc8b475d0adfc7701c304ec7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:52 +0000
Subject: [PATCH 50/58] fix: a closed rsocket server stops listening and closes
 its connections

---
 go/transport/rsocket/tcp_transport.go | 28 +++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/go/transport/rsocket/tcp_transport.go b/go/transport/rsocket/tcp_transport.go
index 20b9935..c563348 100644
--- a/go/transport/rsocket/tcp_transport.go
+++ b/go/transport/rsocket/tcp_transport.go
@@ -52,7 +52,11 @@ func (t *tcpServerTransport) Close() (err error) {
 }
 
 func (t *tcpServerTransport) Listen(ctx context.Context, notifier chan<- bool) (err error) {
-	t.l, err = t.lf(ctx)
+	l, err := t.lf(ctx)
+	if err == nil && !t.setListener(l) {
+		_ = l.Close()
+		err = errTransportClosed
+	}
 	if err != nil {
 		notifier <- false
 		err = fmt.Errorf("listen tcp server failed: %w", err)
@@ -79,7 +83,7 @@ func (t *tcpServerTransport) Listen(ctx context.Context, notifier chan<- bool) (
 	// Start loop of accepting connections.
 	for {
 		var c net.Conn
-		c, err = t.l.Accept()
+		c, err = l.Accept()
 		if err == io.EOF || isClosedErr(err) {
 			err = nil
 			break
@@ -97,17 +101,33 @@ func (t *tcpServerTransport) Listen(ctx context.Context, notifier chan<- bool) (
 		})
 
 		if t.putTransport(tp) {
-			go tp.Start(ctx)
+			go func() {
+				_ = tp.Start(ctx)
+				t.removeTransport(tp)
+			}()
 			go t.acceptor(ctx, h, func(tp *Transport) {
 				t.removeTransport(tp)
 			})
 		} else {
-			_ = t.Close()
+			_ = tp.Close()
 		}
 	}
 	return
 }
 
+// setListener keeps the listener for Close, unless the server is closed already.
+func (t *tcpServerTransport) setListener(l net.Listener) bool {
+	t.mu.Lock()
+	defer t.mu.Unlock()
+	select {
+	case <-t.done:
+		return false
+	default:
+		t.l = l
+		return true
+	}
+}
+
 func (t *tcpServerTransport) removeTransport(tp *Transport) {
 	t.mu.Lock()
 	defer t.mu.Unlock()
-- 
2.43.0


From 9adb9fc04fc4771dbfa19a60c03ee77304b47725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:41 +0000
Subject: [PATCH 51/58] fix: a connection stops when its context ends, also
 while its peer is silent

---
 go/transport/rsocket/transport.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/go/transport/rsocket/transport.go b/go/transport/rsocket/transport.go
index e32fce2..ebe3c0d 100644
--- a/go/transport/rsocket/transport.go
+++ b/go/transport/rsocket/transport.go
@@ -181,6 +181,17 @@ func (p *Transport) Start(ctx context.Context) error {
 		_ = p.Close()
 	}()
 
+	// Reading is interrupted when ctx is done.
+	stopped := make(chan struct{})
+	defer close(stopped)
+	go func() {
+		select {
+		case <-ctx.Done():
+			_ = p.Close()
+		case <-stopped:
+		}
+	}()
+
 	done := make(chan struct{}, 1)
 	errChan := make(chan error, 1)
 
@@ -205,6 +216,9 @@ func (p *Transport) Start(ctx context.Context) error {
 			return fmt.Errorf("dispatch incoming frame failed: %w", err)
 		default:
 			f, err := p.conn.Read()
+			if err != nil && ctx.Err() != nil {
+				return ctx.Err()
+			}
 			if err == io.EOF {
 				return nil
 			}
-- 
2.43.0


From 4b1a7244d719353dbe93a56d8ecad438f325fd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:00 +0000
Subject: [PATCH 52/58] fix: closing a module instance is safe while it is in
 use

---
 go/transport/wasmrs/host/instance.go | 55 +++++++++++++++++++++++-----
 1 file changed, 46 insertions(+), 9 deletions(-)

diff --git a/go/transport/wasmrs/host/instance.go b/go/transport/wasmrs/host/instance.go
index b985aee..fabc6bb 100644
--- a/go/transport/wasmrs/host/instance.go
+++ b/go/transport/wasmrs/host/instance.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"encoding/binary"
 	"errors"
+	"sync"
 
 	"github.com/tetratelabs/wazero/api"
 
@@ -22,6 +23,8 @@ type Instance struct {
 	m          api.Module
 	sendCh     chan frames.Frame
 	recvCh     chan []byte
+	done       chan struct{}
+	closeOnce  sync.Once
 	sendFn     api.Function
 	sendPtr    uint32
 	sendSize   uint32
@@ -59,7 +62,10 @@ type fragmentedPayload struct {
 
 type instanceKey struct{}
 
-var errFrameTooLarge = errors.New("frame does not fit the buffer")
+var (
+	errFrameTooLarge  = errors.New("frame does not fit the buffer")
+	errInstanceClosed = errors.New("instance closed")
+)
 
 func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 	init := m.ExportedFunction("__wasmrs_init")
@@ -75,6 +81,7 @@ func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 		m:      m,
 		sendCh: make(chan frames.Frame, 100),
 		recvCh: make(chan []byte, 100),
+		done:   make(chan struct{}),
 		sendFn: send,
 		// streams: make(map[uint32]proxy.Stream),
 		// streams:            make([]proxy.Stream, 1024*1024),
@@ -109,8 +116,9 @@ func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 }
 
 func (i *Instance) Close() error {
-	close(i.sendCh)
-	close(i.recvCh)
+	i.closeOnce.Do(func() {
+		close(i.done)
+	})
 	return nil
 }
 
@@ -157,8 +165,17 @@ func (i *Instance) SendFrame(f frames.Frame) error {
 	if frameSpace(f) > uint64(i.sendSize) {
 		return errFrameTooLarge
 	}
-	i.sendCh <- f
-	return nil
+	select {
+	case <-i.done:
+		return errInstanceClosed
+	default:
+	}
+	select {
+	case i.sendCh <- f:
+		return nil
+	case <-i.done:
+		return errInstanceClosed
+	}
 }
 
 // frameSpace is the space a frame takes in a buffer, with its length.
@@ -222,7 +239,18 @@ func (i *Instance) sendLoop() {
 		count++
 	}
 
-	for f := range i.sendCh {
+	for {
+		var f frames.Frame
+		select {
+		case f = <-i.sendCh:
+		case <-i.done:
+			// What was queued before is still sent.
+			select {
+			case f = <-i.sendCh:
+			default:
+				return
+			}
+		}
 		write(f)
 		loop := true
 		for loop {
@@ -266,14 +294,23 @@ func (i *Instance) hostSend(ctx context.Context, recvPos uint32) {
 			return
 		}
 		// The guest reuses its memory, and the frame may be kept.
-		i.recvCh <- append([]byte(nil), buffer[:frameLength]...)
+		select {
+		case i.recvCh <- append([]byte(nil), buffer[:frameLength]...):
+		case <-i.done:
+			return
+		}
 		buffer = buffer[frameLength:]
 	}
 }
 
 func (i *Instance) recvLoop() {
-	for data := range i.recvCh {
-		i.recvOne(data)
+	for {
+		select {
+		case data := <-i.recvCh:
+			i.recvOne(data)
+		case <-i.done:
+			return
+		}
 	}
 }
 
-- 
2.43.0


From b7304c8dbe85eaf2b05d2f537306e11ee8148633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 53/58] fix: rust: decoding a truncated or unknown frame panics

---
 rust/crates/wasmrs/src/error.rs                  |  6 ++++++
 rust/crates/wasmrs/src/frames/f_error.rs         |  4 ++--
 rust/crates/wasmrs/src/frames/f_payload.rs       |  6 +++---
 rust/crates/wasmrs/src/frames/f_request_n.rs     |  4 ++--
 rust/crates/wasmrs/src/frames/header.rs          |  7 ++++++-
 rust/crates/wasmrs/src/frames/mod.rs             | 13 +++++--------
 rust/crates/wasmrs/src/frames/request_payload.rs |  8 ++++----
 rust/crates/wasmrs/src/util.rs                   | 10 ++++++++++
 8 files changed, 38 insertions(+), 20 deletions(-)

diff --git a/rust/crates/wasmrs/src/error.rs b/rust/crates/wasmrs/src/error.rs
index 73916c5..57513dd 100644
--- a/rust/crates/wasmrs/src/error.rs
+++ b/rust/crates/wasmrs/src/error.rs
@@ -18,6 +18,10 @@ pub enum Error {
   StringConversion,
   /// [crate::Metadata] not found in [crate::Payload]
   MetadataNotFound,
+  /// The bytes end before the frame does.
+  Truncated,
+  /// The frame is of a type that is unknown or can not be handled.
+  UnsupportedType,
 }
 
 impl std::error::Error for Error {}
@@ -30,6 +34,8 @@ impl std::fmt::Display for Error {
       Error::WrongType => f.write_str("Tried to decode frame with wrong frame decoder"),
       Error::StringConversion => f.write_str("Could not read string bytes"),
       Error::MetadataNotFound => f.write_str("No metadata found"),
+      Error::Truncated => f.write_str("Frame is truncated"),
+      Error::UnsupportedType => f.write_str("Unsupported frame type"),
     }
   }
 }
diff --git a/rust/crates/wasmrs/src/frames/f_error.rs b/rust/crates/wasmrs/src/frames/f_error.rs
index 4cfbbdd..7a2a8fb 100644
--- a/rust/crates/wasmrs/src/frames/f_error.rs
+++ b/rust/crates/wasmrs/src/frames/f_error.rs
@@ -1,7 +1,7 @@
 use bytes::{BufMut, Bytes, BytesMut};
 
 use super::{Error, FrameHeader, FrameType, RSocketFrame};
-use crate::util::from_u32_bytes;
+use crate::util::{from_u32_bytes, take};
 use crate::Frame;
 
 #[derive()]
@@ -33,7 +33,7 @@ impl RSocketFrame<ErrorFrame> for ErrorFrame {
 
     Ok(ErrorFrame {
       stream_id: header.stream_id(),
-      code: from_u32_bytes(&buffer.split_to(4)),
+      code: from_u32_bytes(&take(&mut buffer, 4)?),
       data: String::from_utf8(buffer.to_vec()).map_err(|_| crate::Error::StringConversion)?,
     })
   }
diff --git a/rust/crates/wasmrs/src/frames/f_payload.rs b/rust/crates/wasmrs/src/frames/f_payload.rs
index 9b021f5..d34bfc4 100644
--- a/rust/crates/wasmrs/src/frames/f_payload.rs
+++ b/rust/crates/wasmrs/src/frames/f_payload.rs
@@ -1,7 +1,7 @@
 use bytes::{BufMut, Bytes, BytesMut};
 
 use super::{Error, FrameFlags, FrameHeader, FrameType, RSocketFlags, RSocketFrame};
-use crate::util::{from_u24_bytes, to_u24_bytes};
+use crate::util::{from_u24_bytes, take, to_u24_bytes};
 use crate::{Frame, Payload};
 
 /// A Payload frame.
@@ -52,8 +52,8 @@ impl RSocketFrame<PayloadFrame> for PayloadFrame {
     Self::check_type(header)?;
 
     let metadata = if header.has_metadata() {
-      let metadata_len = from_u24_bytes(&buffer.split_to(3)) as usize;
-      buffer.split_to(metadata_len)
+      let metadata_len = from_u24_bytes(&take(&mut buffer, 3)?) as usize;
+      take(&mut buffer, metadata_len)?
     } else {
       Bytes::new()
     };
diff --git a/rust/crates/wasmrs/src/frames/f_request_n.rs b/rust/crates/wasmrs/src/frames/f_request_n.rs
index b588f68..076c81a 100644
--- a/rust/crates/wasmrs/src/frames/f_request_n.rs
+++ b/rust/crates/wasmrs/src/frames/f_request_n.rs
@@ -1,7 +1,7 @@
 use bytes::Bytes;
 
 use super::{Error, FrameHeader, FrameType, RSocketFrame};
-use crate::util::from_u32_bytes;
+use crate::util::{from_u32_bytes, take};
 use crate::Frame;
 
 #[derive(Clone, Copy)]
@@ -31,7 +31,7 @@ impl RSocketFrame<RequestN> for RequestN {
     Self::check_type(header)?;
     Ok(RequestN {
       stream_id: header.stream_id(),
-      n: from_u32_bytes(&buffer.split_to(4)),
+      n: from_u32_bytes(&take(&mut buffer, 4)?),
     })
   }
 
diff --git a/rust/crates/wasmrs/src/frames/header.rs b/rust/crates/wasmrs/src/frames/header.rs
index 7fa2db7..3ee7640 100644
--- a/rust/crates/wasmrs/src/frames/header.rs
+++ b/rust/crates/wasmrs/src/frames/header.rs
@@ -1,6 +1,6 @@
 use bytes::{BufMut, Bytes, BytesMut};
 
-use super::{FrameFlags, FrameHeader, FrameType};
+use super::{Error, FrameFlags, FrameHeader, FrameType};
 use crate::util::from_u16_bytes;
 use crate::Frame;
 
@@ -46,6 +46,11 @@ impl FrameHeader {
     id.try_into().unwrap()
   }
 
+  pub(crate) fn try_frame_type(&self) -> Result<FrameType, Error> {
+    let id: u8 = self.header[4] >> 2;
+    id.try_into().map_err(|_| Error::UnsupportedType)
+  }
+
   pub(crate) fn check(&self, flag: FrameFlags) -> bool {
     self.n() & flag == flag
   }
diff --git a/rust/crates/wasmrs/src/frames/mod.rs b/rust/crates/wasmrs/src/frames/mod.rs
index 3c2bd0b..902d1ff 100644
--- a/rust/crates/wasmrs/src/frames/mod.rs
+++ b/rust/crates/wasmrs/src/frames/mod.rs
@@ -12,7 +12,7 @@ pub(crate) mod request_payload;
 
 use bytes::Bytes;
 
-use crate::util::from_u32_bytes;
+use crate::util::{from_u32_bytes, take};
 use crate::Error;
 
 use self::f_cancel::Cancel;
@@ -301,7 +301,7 @@ impl Payload {
       return Err(crate::Error::MetadataNotFound);
     }
     let bytes = self.metadata.as_ref().unwrap();
-    let index = from_u32_bytes(&bytes[0..4]);
+    let index = from_u32_bytes(bytes.get(0..4).ok_or(crate::Error::MetadataNotFound)?);
 
     Ok(Metadata { index })
   }
@@ -390,15 +390,13 @@ impl Frame {
 
   /// Decode [Bytes] into a [Frame].
   pub fn decode(mut bytes: Bytes) -> Result<Frame, (u32, Error)> {
-    let header = FrameHeader::from_bytes(bytes.split_to(Frame::LEN_HEADER));
+    let header = FrameHeader::from_bytes(take(&mut bytes, Frame::LEN_HEADER).map_err(|e| (0, e))?);
     let stream_id = header.stream_id();
     Self::_decode(header, bytes).map_err(|e| (stream_id, e))
   }
 
   pub(crate) fn _decode(header: FrameHeader, buffer: Bytes) -> Result<Frame, Error> {
-    let frame = match header.frame_type() {
-      FrameType::Reserved => todo!(),
-      FrameType::Setup => todo!(),
+    let frame = match header.try_frame_type()? {
       FrameType::RequestResponse => {
         Frame::RequestResponse(f_request_response::RequestResponse::decode_frame(&header, buffer)?)
       }
@@ -413,8 +411,7 @@ impl Frame {
       }),
       FrameType::Payload => Frame::PayloadFrame(f_payload::PayloadFrame::decode_frame(&header, buffer)?),
       FrameType::Err => Frame::ErrorFrame(f_error::ErrorFrame::decode_frame(&header, buffer)?),
-      FrameType::Ext => todo!(),
-      _ => unreachable!(),
+      _ => return Err(Error::UnsupportedType),
     };
     Ok(frame)
   }
diff --git a/rust/crates/wasmrs/src/frames/request_payload.rs b/rust/crates/wasmrs/src/frames/request_payload.rs
index 034744d..53e051b 100644
--- a/rust/crates/wasmrs/src/frames/request_payload.rs
+++ b/rust/crates/wasmrs/src/frames/request_payload.rs
@@ -1,7 +1,7 @@
 use bytes::{BufMut, Bytes, BytesMut};
 
 use super::{Error, FrameFlags, FrameHeader, FrameType, RSocketFlags};
-use crate::util::{from_u24_bytes, from_u32_bytes, to_u24_bytes};
+use crate::util::{from_u24_bytes, from_u32_bytes, take, to_u24_bytes};
 use crate::{Frame, Payload};
 
 #[derive()]
@@ -57,14 +57,14 @@ impl RequestPayload {
     let frame_type = header.frame_type();
 
     let initial_n = if Self::is_multi(frame_type) {
-      from_u32_bytes(&buffer.split_to(4))
+      from_u32_bytes(&take(&mut buffer, 4)?)
     } else {
       0
     };
 
     let metadata = if header.has_metadata() {
-      let metadata_len = from_u24_bytes(&buffer.split_to(3)) as usize;
-      buffer.split_to(metadata_len)
+      let metadata_len = from_u24_bytes(&take(&mut buffer, 3)?) as usize;
+      take(&mut buffer, metadata_len)?
     } else {
       Bytes::new()
     };
diff --git a/rust/crates/wasmrs/src/util.rs b/rust/crates/wasmrs/src/util.rs
index 21ea618..bf47556 100644
--- a/rust/crates/wasmrs/src/util.rs
+++ b/rust/crates/wasmrs/src/util.rs
@@ -2,6 +2,16 @@ use std::io::Read;
 
 use bytes::{BufMut, Bytes, BytesMut};
 
+use crate::Error;
+
+/// Take the first `len` bytes off a buffer received from a peer.
+pub(crate) fn take(buffer: &mut Bytes, len: usize) -> Result<Bytes, Error> {
+  if buffer.len() < len {
+    return Err(Error::Truncated);
+  }
+  Ok(buffer.split_to(len))
+}
+
 #[must_use]
 pub(crate) fn from_u32_bytes(bytes: &[u8]) -> u32 {
   assert!(bytes.len() == 4, "Need 4 bytes to convert to u32");
-- 
2.43.0


From 9386980fc00a6ae412414520bca22f6f316c9c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 54/58] fix: rust: decoding a malformed operation list panics

---
 rust/crates/wasmrs/src/operations.rs | 37 ++++++++++++++++++----------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/rust/crates/wasmrs/src/operations.rs b/rust/crates/wasmrs/src/operations.rs
index e4d5567..87603e0 100644
--- a/rust/crates/wasmrs/src/operations.rs
+++ b/rust/crates/wasmrs/src/operations.rs
@@ -1,6 +1,6 @@
 use bytes::{BufMut, Bytes, BytesMut};
 
-use crate::util::{from_u16_bytes, from_u32_bytes};
+use crate::util::{from_u16_bytes, from_u32_bytes, take};
 
 /*
 WasmRS operations list header
@@ -77,6 +77,8 @@ pub enum Error {
   Magic,
   Version,
   Utf8String,
+  OperationType,
+  Truncated,
 }
 
 impl std::error::Error for Error {}
@@ -86,9 +88,16 @@ impl std::fmt::Display for Error {
       Error::Magic => "Bad magic bytes",
       Error::Version => "Bad version",
       Error::Utf8String => "Could not convert bytes to UTF-8 String",
+      Error::OperationType => "Bad operation type",
+      Error::Truncated => "Operation list is truncated",
     })
   }
 }
+impl From<crate::Error> for Error {
+  fn from(_: crate::Error) -> Self {
+    Self::Truncated
+  }
+}
 impl From<std::string::FromUtf8Error> for Error {
   fn from(_: std::string::FromUtf8Error) -> Self {
     Self::Utf8String
@@ -203,11 +212,11 @@ impl OperationList {
 
   /// Decode bytes into an Operation List.
   pub fn decode(mut buf: Bytes) -> Result<Self, Error> {
-    let magic = buf.split_to(4);
+    let magic = take(&mut buf, 4)?;
     if magic != WASMRS_MAGIC.as_slice() {
       return Err(Error::Magic);
     }
-    let version = from_u16_bytes(&buf.split_to(2));
+    let version = from_u16_bytes(&take(&mut buf, 2)?);
     match version {
       1 => Self::decode_v1(buf),
       _ => Err(Error::Version),
@@ -215,19 +224,21 @@ impl OperationList {
   }
 
   fn decode_v1(mut buf: Bytes) -> Result<Self, Error> {
-    let num_ops = from_u32_bytes(&buf.split_to(4));
+    let num_ops = from_u32_bytes(&take(&mut buf, 4)?);
     let mut imports = Vec::new();
     let mut exports = Vec::new();
     for _ in 0..num_ops {
-      let kind = buf.split_to(1)[0];
-      let kind: OperationType = kind.into();
-      let dir = buf.split_to(1)[0];
-      let index = from_u32_bytes(&buf.split_to(4));
-      let ns_len = from_u16_bytes(&buf.split_to(2));
-      let namespace = String::from_utf8(buf.split_to(ns_len as _).to_vec())?;
-      let op_len = from_u16_bytes(&buf.split_to(2));
-      let operation = String::from_utf8(buf.split_to(op_len as _).to_vec())?;
-      let _reserved_len = from_u16_bytes(&buf.split_to(2));
+      let kind = match take(&mut buf, 1)?[0] {
+        kind @ 1..=4 => OperationType::from(kind),
+        _ => return Err(Error::OperationType),
+      };
+      let dir = take(&mut buf, 1)?[0];
+      let index = from_u32_bytes(&take(&mut buf, 4)?);
+      let ns_len = from_u16_bytes(&take(&mut buf, 2)?);
+      let namespace = String::from_utf8(take(&mut buf, ns_len as _)?.to_vec())?;
+      let op_len = from_u16_bytes(&take(&mut buf, 2)?);
+      let operation = String::from_utf8(take(&mut buf, op_len as _)?.to_vec())?;
+      let _reserved_len = from_u16_bytes(&take(&mut buf, 2)?);
       let op = Operation {
         index,
         kind,
-- 
2.43.0


From 837ea3f4a88e1a1ab59cab000abfb578ab90cbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 55/58] fix: rust: reserved bytes of an operation are read as
 the next operation

---
 rust/crates/wasmrs/src/operations.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/crates/wasmrs/src/operations.rs b/rust/crates/wasmrs/src/operations.rs
index 87603e0..0387c5c 100644
--- a/rust/crates/wasmrs/src/operations.rs
+++ b/rust/crates/wasmrs/src/operations.rs
@@ -238,7 +238,8 @@ impl OperationList {
       let namespace = String::from_utf8(take(&mut buf, ns_len as _)?.to_vec())?;
       let op_len = from_u16_bytes(&take(&mut buf, 2)?);
       let operation = String::from_utf8(take(&mut buf, op_len as _)?.to_vec())?;
-      let _reserved_len = from_u16_bytes(&take(&mut buf, 2)?);
+      let reserved_len = from_u16_bytes(&take(&mut buf, 2)?);
+      let _reserved = take(&mut buf, reserved_len as _)?;
       let op = Operation {
         index,
         kind,
-- 
2.43.0


From 1d92f2090f917e20e367456d9c25ad25df88d801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:48 +0000
Subject: [PATCH 56/58] fix: rust: a stream request asks for no items

---
 rust/crates/wasmrs/src/frames/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rust/crates/wasmrs/src/frames/mod.rs b/rust/crates/wasmrs/src/frames/mod.rs
index 902d1ff..e204ae0 100644
--- a/rust/crates/wasmrs/src/frames/mod.rs
+++ b/rust/crates/wasmrs/src/frames/mod.rs
@@ -457,7 +457,12 @@ impl Frame {
 
   /// Create a new [RequestStream] frame.
   pub fn new_request_stream(stream_id: u32, payload: Payload, flags: FrameFlags) -> Frame {
-    Frame::RequestStream(RequestStream::from_payload(stream_id, payload, flags, 0))
+    Frame::RequestStream(RequestStream::from_payload(
+      stream_id,
+      payload,
+      flags,
+      Frame::REQUEST_MAX,
+    ))
   }
 
   /// Create a new [RequestChannel] frame.
-- 
2.43.0


From b6e0e0394088c6a0edf08788799a6c4ad09b6833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:16 +0000
Subject: [PATCH 57/58] fix: rust: a frame for a caller that is gone panics

---
 rust/crates/wasmrs/src/socket.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/rust/crates/wasmrs/src/socket.rs b/rust/crates/wasmrs/src/socket.rs
index 736e656..ed867f2 100644
--- a/rust/crates/wasmrs/src/socket.rs
+++ b/rust/crates/wasmrs/src/socket.rs
@@ -214,7 +214,7 @@ impl WasmSocket {
     let tx = self.tx.clone();
     let (handler_tx, handler_rx) = Flux::new_channels();
 
-    handler_tx.send(first).unwrap();
+    let _ = handler_tx.send(first);
     self.register_handler(sid, Handler::ReqRC(handler_tx));
     let abort_handles = self.abort_handles.clone();
     runtime::spawn(async move {
@@ -329,7 +329,8 @@ impl WasmSocket {
       let e = PayloadError::new(ErrorCode::Canceled.into(), "Request cancelled");
       match handler {
         Handler::ReqRR(sender) => {
-          sender.send(Err(e)).unwrap();
+          // The caller may be gone.
+          let _ = sender.send(Err(e));
         }
         Handler::ReqRS(_) => {
           // stream cancelled. Take no action besides removing the handler.
@@ -347,13 +348,14 @@ impl WasmSocket {
       let e = PayloadError::new(code, message);
       match handler {
         Handler::ReqRR(sender) => {
-          sender.send(Err(e)).unwrap();
+          // The caller may be gone.
+          let _ = sender.send(Err(e));
         }
         Handler::ReqRS(sender) => {
-          sender.error(e).unwrap();
+          let _ = sender.error(e);
         }
         Handler::ReqRC(sender) => {
-          sender.error(e).unwrap();
+          let _ = sender.error(e);
         }
       }
     }
@@ -446,7 +448,10 @@ impl RSocket for WasmSocket {
 
 fn send(tx: &UnboundedSender<Frame>, frame: Frame) {
   trace!("sending frame to socket writer: {:?}", frame);
-  tx.send(frame).unwrap();
+  if tx.send(frame).is_err() {
+    // The connection is gone, and whoever would read the frame with it.
+    trace!("socket writer is closed, dropping frame");
+  }
 }
 
 fn send_payload(tx: &UnboundedSender<Frame>, stream_id: u32, payload: Payload, flag: FrameFlags) {
-- 
2.43.0


From d8971f3b1d9d43fc03c10650631eb47954648fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:40 +0000
Subject: [PATCH 58/58] fix: rust: stream ids grow beyond 31 bits

---
 rust/crates/wasmrs/src/socket.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rust/crates/wasmrs/src/socket.rs b/rust/crates/wasmrs/src/socket.rs
index ed867f2..6ab598e 100644
--- a/rust/crates/wasmrs/src/socket.rs
+++ b/rust/crates/wasmrs/src/socket.rs
@@ -94,7 +94,13 @@ impl WasmSocket {
   }
 
   pub(crate) fn next_stream_id(&self) -> u32 {
-    self.stream_index.fetch_add(2, Ordering::SeqCst)
+    loop {
+      // Stream ids have 31 bits, and 0 is the connection itself.
+      let id = self.stream_index.fetch_add(2, Ordering::SeqCst) & Frame::REQUEST_MAX;
+      if id != 0 {
+        return id;
+      }
+    }
   }
 
   /// Register a handler for a stream.
-- 
2.43.0

