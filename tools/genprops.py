#!/usr/bin/env python3
# Generates /verif/properties.jsonl from the table below (kept as the editable source).
import json,sys
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))
G="go/"
p("C01","Every protocol frame survives encode then decode",
 "Encoding any protocol frame into a buffer of its reported size and decoding that buffer yields a frame equal to the original in type, stream id (31 bits), flags, demand, error code, metadata and data. The reported size is exactly the number of bytes the encoding occupies, and encoding never writes past it.",
 ["inputs"],"all frame types, all field values, metadata and data of any length the wire format can carry (metadata < 2^24)",
 "Existing tests only fragment one fixed frame; none encodes and decodes a frame, and field values and lengths are unbounded.",
 [G+"internal/frames/payload.go",G+"internal/frames/request_payload.go",G+"internal/frames/error.go",G+"internal/frames/request_n.go",G+"internal/frames/cancel.go",G+"internal/frames/frame_header.go"],
 [("Encode/Decode/Size of each frame type",G+"internal/frames"),("FrameHeader bit layout",G+"internal/frames/frame_header.go")],["Encode, Size, ParseFrameHeader, Decode"])
p("C02","Decoding arbitrary bytes as a frame never crashes",
 "Given any header and any body bytes received from a peer, decoding a frame either succeeds or returns an error; it never panics. When it succeeds, the metadata and data it reports are exactly the corresponding parts of the received bytes.",
 ["inputs"],"every 6-byte header and every body of any length, for every frame type",
 "No test decodes any frame; a truncated or hostile frame is one of 2^n inputs.",
 [G+"internal/frames/payload.go",G+"internal/frames/request_payload.go",G+"internal/frames/error.go",G+"internal/frames/request_n.go"],
 [("length checks before slicing",G+"internal/frames/*.go Decode")],["Decode of each frame type"])
p("C03","Fragmenting a frame loses, reorders and oversizes nothing",
 "When a frame larger than the maximum frame size is split, every fragment fits the maximum, and concatenating the fragments' metadata and data in order gives back exactly the original metadata and data with no data preceding the end of the metadata. Every fragment but the last is marked as followed by another, the last is not, and the original's next and complete marks appear only on the last fragment (a split request always ends with next); a frame that fits is not split.",
 ["inputs"],"every frame, every metadata and data length and every maximum frame size large enough to carry a fragment",
 "The two fragment tests use one size combination; boundary combinations of metadata length, data length and maximum are unbounded.",
 [G+"internal/frames/util.go",G+"internal/frames/payload.go",G+"internal/frames/request_payload.go"],
 [("splitPayloads",G+"internal/frames/util.go"),("Fragment",G+"internal/frames")],["Fragment"])
p("C04","Stream ids are odd for clients, even for servers, non-zero and distinct",
 "Whatever the history of allocations, a client-side allocator only hands out odd and a server-side allocator only even stream ids, each non-zero and within 31 bits. Two allocations from one allocator within one pass over the id space never get the same id, even when made concurrently, and the first-pass indicator is true exactly during that first pass.",
 ["histories","schedules"],"every allocator position (counter value) and every interleaving of concurrent callers",
 "The tests look at the first three ids from a fresh allocator, sequentially.",
 [G+"internal/socket/stream_id.go",G+"handler/handler.go"],
 [("atomic counter and mask",G+"internal/socket/stream_id.go")],["ClientStreamIDs.Next, ServerStreamIDs.Next"])
p("C05","24-bit lengths are exact or refused",
 "Any value up to 16777215 written as a 24-bit length reads back as itself through every reader, and any larger value is refused with an error rather than truncated. Exactly three big-endian bytes are written.",
 ["inputs"],"every 32-bit value and every 3-byte sequence",
 "Tests sample a handful of values.",
 [G+"internal/u24/u24.go"],[("range check",G+"internal/u24/u24.go")],["NewUint24, WriteUint24, NewUint24Bytes, AsInt, ReadUint24ToInt"])
p("C06","TCP framing delivers exactly the frames sent, whatever the chunking",
 "For any sequence of frames written to a connection, the receiving side obtains the same sequence of frames, byte for byte, regardless of how the byte stream is split into reads. A frame already delivered is not altered by frames that arrive later, and a stream that ends inside a frame yields an error or end of stream, never a wrong frame.",
 ["inputs","fault_sequences"],"every frame sequence and every way of chunking or truncating the byte stream",
 "The rsocket transport has no test at all, and chunkings are unbounded.",
 [G+"transport/rsocket/decoder.go",G+"transport/rsocket/tcp_conn.go",G+"transport/rsocket/transport.go"],
 [("length-prefix splitting",G+"transport/rsocket/decoder.go"),("Write of prefix then body",G+"transport/rsocket/tcp_conn.go")],["TCPConn.Write/Read, decoder"])
p("C07","Concurrent sends never interleave on a connection",
 "When several callers send frames over one connection at the same time, the bytes on the wire are always some sequence of whole, correctly length-prefixed frames, each sent frame appearing exactly once. No data race occurs.",
 ["schedules"],"every interleaving of concurrent senders",
 "No test sends concurrently; the failing interleavings are rare.",
 [G+"transport/rsocket/transport.go",G+"transport/rsocket/tcp_conn.go"],[("send lock",G+"transport/rsocket/transport.go")],["Transport.Send"])
p("C08","The unbounded buffer is FIFO and exactly-once under every interleaving",
 "Every value put into the unbounded buffer before it is disposed is delivered exactly once and in order to a reader that loads after each read, for any interleaving of putters, loader and disposer. Values still queued when the buffer is disposed are delivered before end-of-stream, values put after disposal are rejected, and no operation crashes or blocks a putter.",
 ["schedules","histories"],"every sequence and interleaving of put, read, load and dispose",
 "The test runs a few goroutines in whatever order the scheduler picks.",
 [G+"internal/buffer/unbounded.go"],[("backlog and one-slot channel under a mutex",G+"internal/buffer/unbounded.go")],["Put, Get, Load, Dispose"])
p("C09","An operation table survives serialisation",
 "Writing an operation table to bytes and reading it back yields the same operations in the same order with the same index, type, direction, namespace and name. Extra reserved bytes in an entry, as the format allows, are skipped without disturbing later entries.",
 ["inputs"],"every table: any number of entries, any names (up to 65535 bytes), any indexes and kinds, any reserved length",
 "No test serialises a table.",
 [G+"operations/operatons.go"],[("ToBytes / FromBytes",G+"operations/operatons.go")],["ToBytes, FromBytes"])
p("C10","Reading an operation table from arbitrary bytes never crashes",
 "Parsing any byte string as an operation table returns a table or an error, never panics, and never allocates memory out of proportion to the input. Input with a wrong magic number, unknown version or truncated entry is reported as an error.",
 ["inputs"],"every byte string",
 "No test parses a malformed table; guests are untrusted.",
 [G+"operations/operatons.go"],[("length checks",G+"operations/operatons.go FromBytes")],["FromBytes"])
p("C11","Every MessagePack value round-trips",
 "For every supported type, encoding a value with a buffer of the computed size and decoding it gives back the same value (bit-identical for floats), consumes exactly the bytes written, and reports no error. This covers booleans, all integer widths and signs, floats, strings, byte strings, array and map headers and nil, in any sequence.",
 ["inputs"],"every value of every supported type; strings and byte strings of any length",
 "TestEcho and the range tests use one hand-picked value per type.",
 [G+"msgpack/encoder.go",G+"msgpack/decoder.go",G+"msgpack/data_reader.go"],
 [("format selection by range",G+"msgpack/encoder.go"),("format dispatch",G+"msgpack/decoder.go")],["Encoder.Write*, Decoder.Read*"])
p("C12","The computed MessagePack size is exact",
 "For every value and every sequence of writes, the size computed by the sizing pass equals the number of bytes the encoding pass produces, so a buffer of that size is filled exactly, with neither overflow nor trailing bytes.",
 ["inputs"],"every value of every supported type incl. optional and dynamically typed ones, every string and byte-string length",
 "Only a few lengths are exercised; off-by-ones sit at 31/32, 255/256, 65535/65536.",
 [G+"msgpack/sizer.go",G+"msgpack/encoder.go",G+"msgpack/codec.go"],[("Sizer mirrors Encoder",G+"msgpack/sizer.go")],["Sizer.Len vs Encoder output, ToBytes"])
p("C13","Decoding arbitrary MessagePack bytes never crashes or over-allocates",
 "Calling any decoder operation on any bytes returns a value or an error and never panics, never reads outside the input, and never allocates memory out of proportion to the input length. After an error on truncated input no value built from bytes beyond the input is returned.",
 ["inputs"],"every byte string and every read operation",
 "No test feeds malformed input.",
 [G+"msgpack/decoder.go",G+"msgpack/data_reader.go"],[("checkBufferSize",G+"msgpack/data_reader.go")],["Decoder.Read*, Skip, ReadAny"])
p("C14","Integer decoding is exact or an error, never a wrong number",
 "Reading any encoded integer into any integer type either returns exactly the encoded value or reports an error; an error occurs only when the value does not fit the requested type or the bytes are not an integer of an accepted encoding. All encodings of the same number that fit give the same result.",
 ["inputs"],"every wire encoding of every 64-bit integer, read as every integer width",
 "Tests try a few out-of-range constants.",
 [G+"msgpack/decoder.go"],[("range checks in Read{Int,Uint}N",G+"msgpack/decoder.go")],["ReadInt8..64, ReadUint8..64, ReadNillable*"])
p("C15","Skipping passes over exactly one value",
 "Skipping at the start of any well-formed MessagePack value leaves the decoder positioned exactly after that value, for every format the specification defines including nested arrays, maps and extension types. Skipping truncated input reports an error.",
 ["inputs"],"every well-formed value (all format bytes, nested) and every truncation of it",
 "Not tested at all; unknown fields from newer peers depend on it.",
 [G+"msgpack/decoder.go"],[("Skip / getSize",G+"msgpack/decoder.go")],["Skip followed by a read"])
p("C16","Optional and dynamically typed values round-trip",
 "An optional value decodes to absent exactly when absent was written and to the written value otherwise, for every optional type. A dynamically typed value (nil, boolean, number, string, byte string, time, nested list or map) written generically is read back generically as an equal value (integers possibly widened), occupying exactly one value on the wire.",
 ["inputs"],"every optional type and value, every dynamically typed value up to the stated nesting",
 "TestEcho covers some optional fields once and no dynamic value of most types.",
 [G+"msgpack/encoder.go",G+"msgpack/decoder.go",G+"msgpack/sizer.go"],[("WriteNillable*/ReadNillable*, WriteAny/ReadAny",G+"msgpack")],["WriteAny/ReadAny, WriteNillable*/ReadNillable*"])
p("C17","MessagePack output follows the public specification",
 "The bytes produced for each value are a valid MessagePack encoding of that value as defined by the public specification, using, within the signed or unsigned family of the value's Go type, the smallest integer format that holds the value, and the smallest length format, so any conforming decoder in another language reads the same value. Every such specification encoding of a value is accepted when read as that value's type.",
 ["inputs"],"every value, against an independent reference encoder written from the specification",
 "Round-trip tests cannot see symmetric mistakes; the peer is another implementation (Rust, TypeScript).",
 [G+"msgpack/encoder.go",G+"msgpack/decoder.go",G+"msgpack/format.go"],[("format constants and ranges",G+"msgpack/format.go")],["Encoder output bytes; Decoder on reference bytes"])
p("C18","Time values survive encoding",
 "Any representable instant written as a MessagePack time, optional or not, is read back as the same instant to the nanosecond and is laid out as the specification's timestamp extension. Malformed timestamp extensions are reported as errors.",
 ["inputs"],"every second and nanosecond, all three timestamp layouts",
 "One instant is tested.",
 [G+"msgpack/encoder.go",G+"msgpack/decoder.go"],[("32/64/96-bit timestamp selection",G+"msgpack/encoder.go")],["WriteTime/ReadTime"])
p("C19","Typed value transforms are inverse pairs and fail safely",
 "For every built-in payload transform, decoding what its encoder produced gives back the original value, for scalars, strings, byte strings, lists and maps. On arbitrary payload bytes a transform returns a value or an error, never panics, and never allocates out of proportion to the payload.",
 ["inputs"],"every value of every built-in transform type, every payload",
 "The transform package has no test.",
 [G+"transform/transform.go"],[("Encode/Decode pairs",G+"transform/transform.go")],["transform.*"])
p("C20","Conversion helpers preserve value and absence",
 "Each optional-value conversion helper maps absent to absent and a present value to the same value, for every input; numeric conversions preserve every value representable in the target. Errors passed alongside are propagated unchanged.",
 ["inputs"],"every helper, absent and present values, error and no error",
 "No test covers the helpers.",
 [G+"msgpack/convert/convert.go"],[("nil checks",G+"msgpack/convert/convert.go")],["convert.*"])
p("C21","The operation registry maps each id to the handler exported under it",
 "After any sequence of exports, looking up the id at which an operation is listed returns the handler exported for that namespace and name, and unknown ids yield no handler. Importing the same namespace and name again returns the same id, different ones get different ids, and ids always index the listed operation.",
 ["histories","inputs"],"every sequence of export and import calls with arbitrary names, for all four interaction kinds",
 "No test touches the registry.",
 [G+"invoke/handlers.go"],[("parallel handler/info slices",G+"invoke/handlers.go")],["Export*, Import*, Get*Handler, GetOperations"])
p("C22","Instance handles resolve to exactly the live instance they were issued for",
 "A handle returned when an instance is registered resolves to that instance until it is removed and to nothing afterwards; a handle never issued resolves to nothing without crashing, and removing it changes nothing. This holds for any sequence and any concurrent interleaving of operations.",
 ["histories","schedules","inputs"],"every sequence/interleaving of put, get and remove and every 64-bit handle",
 "No test; handles come from an untrusted peer.",
 [G+"invoke/instances.go"],[("liveness map consulted before dereference",G+"invoke/instances.go")],["Put, Get, Remove"])
p("C23","Port messages round-trip and tolerate malformed input",
 "A port message encodes and decodes to the same port name, data, next and complete marks, each mark independent of the other. Decoding arbitrary bytes returns a message or an error and never panics.",
 ["inputs"],"every message (port names up to 65535 bytes) and every byte string",
 "No test covers port messages.",
 [G+"invoke/portio.go"],[("flag bits and length prefix",G+"invoke/portio.go")],["PortIO.Encode/Decode"])
p("C24","A single-value publisher signals exactly one outcome",
 "Whatever sequence of success, error and cancel a source emits, the subscriber sees exactly the first one, and the finally callback and every registered notification fire exactly once, after it and with the matching signal, including notifications registered after completion. Value and error stay retrievable afterwards.",
 ["histories"],"every source behaviour (sequence of signals, before or after subscription), every combination of callbacks, for created, constant, failed and processor publishers",
 "The rx packages have no tests.",
 [G+"rx/mono/mono.go",G+"rx/mono/processor.go"],[("closed flag",G+"rx/mono/mono.go")],["Subscribe, Notify, Get, Block"])
p("C25","A stream publisher follows the signal grammar",
 "Whatever a source emits, the subscriber sees items in emission order followed by at most one of completion, error or cancellation, and nothing after it; the finally callback and every registered notification fire exactly once with the matching signal. This includes failed publishers and publishers cancelled by the subscriber.",
 ["histories"],"every sequence of next, complete, error and cancel by source and subscriber",
 "The rx packages have no tests.",
 [G+"rx/flux/flux.go",G+"rx/flux/processor.go"],[("closed flag",G+"rx/flux/flux.go")],["Subscribe, Notify, Subscription"])
p("C26","Demand is forwarded exactly",
 "The total number of items requested from a source equals the total the subscriber requested, whether requests come before or after the source is ready, and a subscriber that sets no demand receives everything. A slice-backed stream never emits more items than requested and completes exactly after its last item.",
 ["histories","inputs"],"every sequence of request calls and every readiness order, every slice length",
 "The rx packages have no tests.",
 [G+"rx/flux/flux.go",G+"rx/flux/slice.go",G+"rx/flux/processor.go"],[("pending-demand counter",G+"rx/flux/flux.go")],["Request, OnSubscribe, FromSlice"])
p("C27","Mapping applies the function to every item and stops at the first failure",
 "A mapped publisher delivers the function's result for each source item in order and relays the source's outcome; if the function fails, the subscriber sees that error once, no item or completion after it, and finally fires once with the error signal. Every way of consuming the mapped publisher (subscribe, blocking wait, retrieval after completion) agrees on the outcome.",
 ["histories","inputs"],"every source sequence and every pattern of function failures",
 "The rx packages have no tests.",
 [G+"rx/mono/mono.go",G+"rx/flux/flux.go"],[("mapper.Subscribe",G+"rx/mono/mono.go, rx/flux/flux.go")],["Map"])
p("C28","A flow runs its steps in order, each once, after its inputs finish",
 "The steps of a flow run in order, each exactly once, and a step starts only after every awaited result of the previous step has finished, in whatever order they finish and even if some had already finished. A failing step ends the flow with that error and no later step runs.",
 ["histories","schedules"],"every number of steps and awaited results and every completion order, including already completed ones",
 "Flows have no tests.",
 [G+"rx/flow/flow.go",G+"rx/await/await.go"],[("completion counting",G+"rx/flow/flow.go")],["Flow.Steps, Mono, Flux"])
p("C29","Waiting for a publisher returns its outcome and never hangs",
 "Blocking on any publisher that terminates returns its value or error, exactly as a subscriber would see it, under every goroutine schedule, and never deadlocks or crashes. This includes constant, failed, mapped and remote publishers and publishers that terminate before, during or after the wait starts.",
 ["schedules","histories"],"every publisher kind, every outcome, every schedule",
 "The rx packages have no tests.",
 [G+"rx/mono/mono_host.go",G+"rx/flux/flux_host.go",G+"proxy/mono_host.go"],[("done channel",G+"rx/mono/mono_host.go")],["Block"])
p("C30","A remote call returns the result of that call",
 "For any number of concurrent request/response calls between two connected peers, each caller receives exactly one outcome, namely the value or error that the exported handler produced for that caller's own payload, or not-found when nothing is exported. Fire-and-forget calls reach their handler exactly once with the payload intact.",
 ["histories","schedules","inputs"],"every payload, every mix of calls and every order in which requests are served and answered",
 "No test connects two handlers.",
 [G+"handler/handler.go",G+"handler/caller.go",G+"proxy/mono.go",G+"proxy/lookup.go"],[("stream id correlation",G+"handler/handler.go")],["Handler.RequestResponse/FireAndForget/HandleFrame"])
p("C31","A remote stream delivers the handler's items in order, then its outcome",
 "For request/stream and request/channel calls between two connected peers, the consumer receives exactly the items the producer emitted, in order and unmodified, followed by the producer's completion or error, in each direction of a channel. Concurrent streams do not disturb one another.",
 ["histories","schedules","inputs"],"every item sequence and outcome, every interleaving of concurrent streams",
 "No test opens a stream.",
 [G+"handler/handler.go",G+"proxy/flux.go"],[("payload frames per stream id",G+"handler/handler.go")],["Handler.RequestStream/RequestChannel"])
p("C32","No sequence of frames from a peer can crash a handler",
 "Whatever frames a peer sends, in whatever order, for known, finished or unknown streams and for every kind of stream, handling them never panics and never makes the handler unusable: a subsequent well-formed request is still answered. Frames for streams that no longer exist are ignored.",
 ["histories","inputs"],"every sequence of frames with arbitrary contents, against handlers of all four kinds",
 "Not tested; peers are other implementations and may be hostile.",
 [G+"handler/handler.go",G+"proxy/flux.go",G+"proxy/mono.go"],[("frame dispatch",G+"handler/handler.go HandleFrame")],["HandleFrame"])
p("C33","Cancellation reaches the producer and ends the stream",
 "When a consumer cancels a stream, the peer's producer is told to stop, nothing is delivered to the consumer afterwards, and the consumer's finally callback fires exactly once with the cancel signal. Cancelling one stream does not affect any other.",
 ["histories"],"every point in a stream's life at which cancel may happen",
 "No test cancels anything.",
 [G+"handler/handler.go",G+"proxy/flux.go",G+"rx/flux/flux.go"],[("Cancel frame",G+"handler/handler.go")],["Subscription.Cancel"])
p("C34","The stream table behaves as a map and forgets finished streams",
 "After any sequence of registering, finding and removing streams, a lookup finds a stream exactly when it was registered and not yet removed, also under concurrent use. When a stream ends by completion, error or cancellation, on either side, it is forgotten, so a long-lived connection does not accumulate finished streams.",
 ["histories","schedules"],"every sequence of operations and every interleaving; every way a stream can end",
 "Not tested.",
 [G+"proxy/lookup.go",G+"handler/handler.go"],[("linked list",G+"proxy/lookup.go"),("removeStream",G+"handler/handler.go")],["Lookup.Add/Get/Remove"])
p("C35","Remote demand is honoured",
 "A producer answering a remote stream sees exactly the demand the consumer expressed: the initial amount in the request, then each further request, in both directions of a channel. Demand requested before the producer is ready is not lost.",
 ["histories","inputs"],"every sequence of demands and every timing relative to the producer's start",
 "Not tested.",
 [G+"handler/handler.go",G+"proxy/flux.go"],[("InitialN and RequestN",G+"handler/handler.go")],["Subscription.Request across the wire"])
p("C36","Frames cross the host/guest memory boundary intact",
 "Every frame sent from host to guest or guest to host through the shared memory buffers arrives as the same frame, in order, for any sizes that fit the buffers and any batching, and later transfers never alter frames already received. A frame or offset that does not fit is refused or split, never truncated, and malformed buffer contents from a guest never crash the host.",
 ["inputs","histories","schedules"],"every frame sequence, buffer size and position",
 "No test runs a guest.",
 [G+"transport/wasmrs/host/instance.go",G+"transport/wasmrs/guest/guest.go"],[("length-prefixed frames in shared buffers",G+"transport/wasmrs/host/instance.go")],["hostSend, sendLoop, recvOne, GuestSend"],None)
p("C37","Custom sections are found in any well-formed module",
 "For any well-formed WebAssembly module, the reader returns the content of each requested custom section present exactly as stored, wherever it is placed, and reports no error. Malformed or truncated modules yield an error, never a panic or unbounded allocation.",
 ["inputs"],"every section sequence, sizes and names, and every byte string",
 "Not tested.",
 [G+"transport/wasmrs/customsections/customsections.go"],[("section walk",G+"transport/wasmrs/customsections/customsections.go")],["customsections reader"])
p("C38","UUID text and binary forms agree",
 "Every UUID printed in canonical form parses back to itself through every parser, all parsers agree on every input, and malformed text is rejected with an error, never a panic. Generated random UUIDs always carry version 4 and the RFC 4122 variant, and time fields of time-based UUIDs read back consistently.",
 ["inputs"],"every 16-byte UUID and every string of the accepted lengths",
 "Not tested in this repository.",
 [G+"types/uuid/uuid.go",G+"types/uuid/marshal.go",G+"types/uuid/version4.go",G+"types/uuid/util.go"],[("hex tables and offsets",G+"types/uuid/uuid.go")],["Parse, ParseBytes, String, MarshalText, NewRandom"])
p("C39","Mesh links every import to the matching export",
 "Once a module providing an operation and a module importing it are both loaded, in any order, calls made through the import reach exactly that operation of the providing module, for the interaction kind and the namespace and name requested, and for no other. Imports that cannot be satisfied stay unlinked without affecting others.",
 ["histories","configurations"],"every set of modules and every load order",
 "Not tested without real wasm modules.",
 [G+"transport/wasmrs/mesh/mesh.go"],[("pending import table",G+"transport/wasmrs/mesh/mesh.go")],["Mesh.Load/Link and subsequent calls"])
p("C40","Closing a module instance is safe at any moment",
 "Closing a host's module instance at any moment - while frames are queued or being sent, while the guest sends, repeatedly or from several goroutines - never panics and never blocks. Frames accepted before the close are still passed to the guest; a frame sent or a call made after it is refused with an error instead of reaching the guest.",
 ["schedules","histories"],"every interleaving of closers, senders and the guest's own transfers",
 "No test closes an instance; the mesh closes replaced instances while others may still be calling them.",
 [G+"transport/wasmrs/host/instance.go",G+"transport/wasmrs/mesh/mesh.go"],[("send and receive loops",G+"transport/wasmrs/host/instance.go sendLoop, recvLoop"),("Close",G+"transport/wasmrs/host/instance.go")],["Instance.Close, SendFrame, calls of an Instance"])
p("C41","Closed servers and connections stop",
 "When an rsocket server is closed, or its context ends, before, while or after it starts to listen, its Listen call returns, its listener is closed and every connection it accepted is closed; closing again is harmless. A connection ends when it is closed or its context ends, even while its peer is silent, and a connection that ends or whose peer misbehaves does not affect the server's other connections. Failures to listen or accept are reported, and the start notification is given exactly once.",
 ["schedules","faults"],"every interleaving of Listen, Close, context cancellation and arriving connections; listener failures; arbitrary bytes from a peer",
 "No test starts a server; the windows between listening, accepting and closing are schedules.",
 [G+"transport/rsocket/tcp_transport.go",G+"transport/rsocket/transport.go"],[("accept loop",G+"transport/rsocket/tcp_transport.go Listen"),("Close",G+"transport/rsocket/tcp_transport.go"),("Start",G+"transport/rsocket/transport.go")],["ServerTransport.Listen, Close; Transport.Start, Close"])
R="rust/crates/wasmrs/src/"
p("C42","The Rust codec writes and reads frames as the protocol lays them out",
 "Every frame built by the Rust implementation is encoded as the RSocket layout says: 31-bit stream id, type, exactly the flags that apply, demand or error code, metadata with its 24-bit length when there is any, then the data to the end; a request for a stream asks for at least one item. Decoding bytes of that layout gives back exactly the fields they state - id, flags, demand, code, metadata, data, text - and every well-formed frame is accepted.",
 ["inputs"],"every id, flag word, count, code, text, metadata and data (sizes bounded), every frame type",
 "The Rust tests decode a handful of sample files.",
 [R+"frames/mod.rs",R+"frames/header.rs",R+"frames/request_payload.rs",R+"frames/f_payload.rs",R+"frames/f_error.rs",R+"util.rs"],[("header and body layout",R+"frames")],["Frame::encode, Frame::decode, Metadata::encode"])
p("C43","The Rust decoders survive arbitrary bytes",
 "Whatever bytes arrive, decoding a frame, a payload's metadata, a length-prefixed buffer or an operation list with the Rust implementation returns a value or an error; it never panics. Truncated and unknown input is refused, a refused frame still names its stream, and a frame is taken off a buffer whole or not at all.",
 ["inputs"],"every byte string up to the stated sizes",
 "Peers and guests are other programs; the Rust tests use well-formed samples only.",
 [R+"frames/mod.rs",R+"operations.rs",R+"util.rs"],[("length checks before each read",R+"util.rs take")],["Frame::decode, OperationList::decode, Payload::parse_metadata, util::read_frame"])
p("C44","A Rust operation list is the table both sides agree on",
 "An operation list is encoded as the protocol says (magic, version, count; per operation type, direction, index, names, reserved bytes), exports first and in order; a list that is read finds every import and export under its namespace and name with its index, and nothing under another name or direction; reserved bytes are skipped.",
 ["inputs"],"every index, kind and direction, names and reserved bytes of bounded length, one or two operations",
 "The Rust tests read one sample list; guests compiled by other toolchains write theirs.",
 [R+"operations.rs"],[("encode, decode_v1, get_op",R+"operations.rs")],["OperationList::encode, decode, get_import, get_export"])
p("C45","A Rust socket gives every answer to the request it belongs to",
 "Streams opened by one side of a Rust socket have ids of their own: never 0, at most 31 bits, of that side's parity, also after any number of streams. A call is answered by the first payload, error or cancellation of its own stream, with exactly what was sent, and by no other stream's frame; two calls each get their own answer. A stream yields its payloads in order and ends when its peer completes, fails or cancels it. A frame for a caller or a connection that is gone is dropped: nothing panics.",
 ["inputs","histories"],"every stream id, flag combination, error code and payload byte of the frames that arrive; callers that wait and callers that are gone; any number of streams opened before",
 "The Rust tests run one echo socket over one happy exchange; frames of other streams, dropped callers and id exhaustion are never seen by them.",
 [R+"socket.rs","rust/crates/wasmrs-rx/src/flux.rs"],[("process_once, on_payload, on_error, on_cancel, next_stream_id, request_response, request_stream",R+"socket.rs"),("Flux::send, complete, error",""),("FluxReceiver::poll_next","")],["WasmSocket::process_once, RSocket for WasmSocket"])
out="".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P)
open("/verif/properties.jsonl","w").write(out)
print(len(P))
