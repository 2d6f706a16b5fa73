//! Frames on the wire (C42, C43).
use bytes::Bytes;

use super::nd;
use crate::frames::*;
use crate::{reach, sizes};
use crate::{Error, Frame, Payload};

fn be16(b: &[u8], at: usize) -> u16 {
  (b[at] as u16) << 8 | b[at + 1] as u16
}
fn be24(b: &[u8], at: usize) -> usize {
  (b[at] as usize) << 16 | (b[at + 1] as usize) << 8 | b[at + 2] as usize
}
fn be32(b: &[u8], at: usize) -> u32 {
  (b[at] as u32) << 24 | (b[at + 1] as u32) << 16 | (b[at + 2] as u32) << 8 | b[at + 3] as u32
}
fn id() -> u32 {
  let id = nd::u32();
  nd::assume(id <= 0x7fff_ffff);
  id
}
/// The six header bytes: 31-bit stream id, 6-bit type, 10 flag bits.
fn header(b: &[u8], id: u32, kind: u16, flags: u16) {
  assert!(b.len() >= 6, "a frame has a header");
  assert!(be32(b, 0) == id, "stream id");
  assert!(be16(b, 4) == kind << 10 | flags, "type and flags");
}
const M: u16 = 0x100;
const FOLLOWS: u16 = 0x80;
const COMPLETE: u16 = 0x40;
const NEXT: u16 = 0x20;

// 24-bit lengths
#[cfg_attr(kani, kani::proof, kani::unwind(16))]
pub fn c42_u24() {
  let n = nd::u32();
  let b = crate::util::to_u24_bytes(n);
  assert!(b.len() == 3);
  assert!(be24(&b, 0) as u32 == n & 0xff_ffff);
  assert!(crate::util::from_u24_bytes(&b) == n & 0xff_ffff);
  let w = nd::exactly::<4>();
  assert!(crate::util::from_u32_bytes(&w) == be32(&w, 0));
  assert!(crate::util::from_u16_bytes(&w[0..2]) == be16(&w, 0));
  reach!("end");
}

// Headers: what goes in comes out
#[cfg_attr(kani, kani::proof, kani::unwind(16), kani::stub(std::fmt::format, super::no_fmt))]
pub fn c42_header() {
  let id = id();
  let kind = nd::u8();
  nd::assume(kind >= 1 && kind < 64);
  let flags = nd::u16();
  nd::assume(flags < 0x400);
  let t = match FrameType::try_from(kind) {
    Ok(t) => t,
    Err(_) => {
      assert!(kind > 14 && kind < 63, "every type of the protocol is known");
      return;
    }
  };
  let h = FrameHeader::new(id, t, flags);
  assert!(h.stream_id() == id);
  assert!(h.frame_type() == t);
  assert!(h.has_metadata() == (flags & M != 0));
  assert!(h.has_follows() == (flags & FOLLOWS != 0));
  assert!(h.has_complete() == (flags & COMPLETE != 0));
  assert!(h.has_next() == (flags & NEXT != 0));
  assert!(h.has_ignore() == (flags & 0x10 != 0));
  let b = h.encode();
  assert!(b.len() == 6);
  header(&b, id, kind as u16, flags);
  reach!("end");
}

fn payload<const A: usize, const B: usize>() -> (Bytes, Bytes, Payload) {
  let m = nd::exactly::<A>();
  let d = nd::exactly::<B>();
  // absent and empty parts are the same thing on the wire
  let p = Payload {
    metadata: if A == 0 && nd::bool() { None } else { Some(m.clone()) },
    data: if B == 0 && nd::bool() { None } else { Some(d.clone()) },
  };
  (m, d, p)
}
/// Metadata with its 24-bit length (left out when empty), then data, from `at` to the end.
fn body(b: &[u8], at: usize, m: &[u8], d: &[u8]) {
  let ml = if m.is_empty() { 0 } else { 3 + m.len() };
  assert!(b.len() == at + ml + d.len(), "the frame ends with the data");
  if ml > 0 {
    assert!(be24(b, at) == m.len(), "metadata length");
    nd::part(m, b, at + 3, m.len());
  }
  nd::part(d, b, at + ml, d.len());
}

// Payload frames are laid out as the protocol says
fn payload_frame<const A: usize, const B: usize>() {
  let id = id();
  let flags = nd::u16();
  let (m, d, p) = payload::<A, B>();
  let f = Frame::new_payload(id, p, flags);
  assert!(f.stream_id() == id);
  let b = f.encode();
  let mut want = flags & (FOLLOWS | COMPLETE | NEXT);
  if A > 0 {
    want |= M;
  }
  header(&b, id, 10, want);
  body(&b, 6, &m, &d);
  reach!("end");
}
#[cfg_attr(kani, kani::proof, kani::unwind(16), kani::stub(std::fmt::format, super::no_fmt))]
pub fn c42_payload() {
  match nd::upto(5) {
    0 => payload_frame::<0, 0>(),
    1 => payload_frame::<3, 0>(),
    2 => payload_frame::<0, 5>(),
    3 => payload_frame::<1, 1>(),
    4 => payload_frame::<8, 4>(),
    _ => payload_frame::<4, 13>(),
  }
}

// Long metadata: lengths that need their second byte
#[cfg_attr(kani, kani::proof, kani::unwind(52), kani::stub(std::fmt::format, super::no_fmt))]
pub fn c42b_payload() {
  payload_frame::<300, 2>()
}

// Requests are laid out as the protocol says, and a stream or channel asks for something
fn request_frame<const K: u16, const A: usize, const B: usize>() {
  let id = id();
  let flags = nd::u16();
  let (m, d, p) = payload::<A, B>();
  let n = nd::u32();
  let f = match K {
    4 => Frame::new_request_response(id, p, flags),
    5 => Frame::new_request_fnf(id, p, flags),
    6 => Frame::new_request_stream(id, p, flags),
    _ => Frame::new_request_channel(id, p, flags, n),
  };
  assert!(f.stream_id() == id);
  let b = f.encode();
  let mut want = if A > 0 { M } else { 0 };
  if K == 7 {
    want |= flags & COMPLETE;
  }
  header(&b, id, K, want);
  if K < 6 {
    body(&b, 6, &m, &d);
    reach!("single");
  } else {
    assert!(b.len() >= 10);
    let asked = be32(&b, 6);
    if K == 7 {
      assert!(asked == n, "demand");
    } else {
      assert!(asked > 0 && asked <= 0x7fff_ffff, "a stream request asks for items");
    }
    body(&b, 10, &m, &d);
    reach!("multi");
  }
}
fn request<const A: usize, const B: usize>() {
  match nd::upto(3) {
    0 => request_frame::<4, A, B>(),
    1 => request_frame::<5, A, B>(),
    2 => request_frame::<6, A, B>(),
    _ => request_frame::<7, A, B>(),
  }
}
#[cfg_attr(kani, kani::proof, kani::unwind(16), kani::stub(std::fmt::format, super::no_fmt))]
pub fn c42_request() {
  match nd::upto(1) {
    0 => request::<0, 3>(),
    _ => request::<2, 5>(),
  }
}
#[cfg_attr(kani, kani::proof, kani::unwind(16), kani::stub(std::fmt::format, super::no_fmt))]
pub fn c42_request_empty() {
  match nd::upto(1) {
    0 => request::<0, 0>(),
    _ => request::<8, 0>(),
  }
}

// The other frames
#[cfg_attr(kani, kani::proof, kani::unwind(16), kani::stub(std::fmt::format, super::no_fmt))]
pub fn c42_small() {
  let id = id();
  let n = nd::u32();
  match nd::upto(2) {
    0 => {
      let b = Frame::new_cancel(id).encode();
      assert!(b.len() == 6);
      header(&b, id, 9, 0);
      reach!("cancel");
    }
    1 => {
      let b = Frame::new_request_n(id, n, nd::u16()).encode();
      assert!(b.len() == 10);
      header(&b, id, 8, 0);
      assert!(be32(&b, 6) == n);
      reach!("request n");
    }
    _ => {
      let t = nd::exactly::<3>();
      nd::assume(t[0] < 0x80 && t[1] < 0x80 && t[2] < 0x80);
      let text = unsafe { std::str::from_utf8_unchecked(&t) };
      let b = Frame::new_error(id, n, text).encode();
      assert!(b.len() == 13);
      header(&b, id, 11, 0);
      assert!(be32(&b, 6) == n);
      nd::part(&t, &b, 10, 3);
      reach!("error");
    }
  }
  let m = Metadata::new(n).encode();
  assert!(m.len() == 8 && be32(&m, 0) == n && be32(&m, 4) == 0, "metadata prefix");
  let p = Payload::new(m, Bytes::new());
  match p.parse_metadata() {
    Ok(x) => assert!(x.index == n),
    Err(_) => assert!(false, "metadata that was just encoded"),
  }
}

// Decoding bytes that are laid out as the protocol says gives back what they say
fn decoded<const N: usize>() {
  let b = nd::exactly::<N>();
  let all = b.clone();
  let len = all.len();
  let r = Frame::decode(b);
  let kind = if len >= 6 { all[4] >> 2 } else { 0 };
  let flags = if len >= 6 { be16(&all, 4) & 0x3ff } else { 0 };
  let id = if len >= 6 { be32(&all, 0) & 0x7fff_ffff } else { 0 };
  let f = match r {
    Ok(f) => f,
    Err((sid, _)) => {
      if len >= 6 {
        assert!(sid == id, "an error names the stream");
        let at = if kind == 6 || kind == 7 { 10 } else { 6 };
        let formed = match kind {
          4 | 5 | 6 | 7 | 10 => len >= at && (flags & M == 0 || len >= at + 3 && len >= at + 3 + be24(&all, at)),
          8 => len >= 10,
          9 => true,
          11 => len == 10,
          _ => false,
        };
        assert!(!formed, "a well-formed frame is accepted");
      }
      reach!("refused");
      return;
    }
  };
  assert!(len >= 6, "a frame has a header");
  assert!(f.stream_id() == id);
  let (at, m, d) = match f {
    Frame::Cancel(_) => {
      assert!(kind == 9);
      reach!("cancel");
      return;
    }
    Frame::RequestN(f) => {
      assert!(kind == 8 && len >= 10 && f.n == be32(&all, 6));
      reach!("request n");
      return;
    }
    Frame::ErrorFrame(f) => {
      assert!(kind == 11 && len >= 10 && f.code == be32(&all, 6));
      nd::part(f.data.as_bytes(), &all, 10, len - 10);
      reach!("error");
      return;
    }
    Frame::PayloadFrame(f) => {
      assert!(kind == 10);
      assert!(f.follows == (flags & FOLLOWS != 0));
      assert!(f.complete == (flags & COMPLETE != 0));
      assert!(f.next == (flags & NEXT != 0));
      reach!("payload");
      (6, f.metadata, f.data)
    }
    Frame::RequestResponse(f) => {
      assert!(kind == 4);
      (6, f.0.metadata, f.0.data)
    }
    Frame::RequestFnF(f) => {
      assert!(kind == 5);
      (6, f.0.metadata, f.0.data)
    }
    Frame::RequestStream(f) => {
      assert!(kind == 6 && len >= 10 && f.0.initial_n == be32(&all, 6));
      assert!(f.0.follows == (flags & FOLLOWS != 0));
      (10, f.0.metadata, f.0.data)
    }
    Frame::RequestChannel(f) => {
      assert!(kind == 7 && len >= 10 && f.0.initial_n == be32(&all, 6));
      assert!(f.0.complete == (flags & COMPLETE != 0));
      assert!(f.0.follows == (flags & FOLLOWS != 0));
      reach!("channel");
      (10, f.0.metadata, f.0.data)
    }
  };
  if flags & M != 0 {
    assert!(len >= at + 3);
    let ml = be24(&all, at);
    assert!(len >= at + 3 + ml);
    nd::part(&m, &all, at + 3, ml);
    nd::part(&d, &all, at + 3 + ml, len - at - 3 - ml);
    reach!("metadata");
  } else {
    assert!(m.is_empty());
    nd::part(&d, &all, at, len - at);
  }
}
fn ascii(v: Vec<u8>) -> Result<String, std::string::FromUtf8Error> {
  // Kani only: whether text is valid UTF-8 is decided in c43_error_text with the real function.
  Ok(unsafe { String::from_utf8_unchecked(v) })
}
#[cfg_attr(
  kani,
  kani::proof,
  kani::unwind(16),
  kani::stub(std::fmt::format, super::no_fmt),
  kani::stub(std::string::String::from_utf8, ascii)
)]
pub fn c42_decode_a() {
  sizes!(decoded, 5 10)
}
#[cfg_attr(
  kani,
  kani::proof,
  kani::unwind(16),
  kani::stub(std::fmt::format, super::no_fmt),
  kani::stub(std::string::String::from_utf8, ascii)
)]
pub fn c42_decode_b() {
  sizes!(decoded, 6 9)
}
#[cfg_attr(
  kani,
  kani::proof,
  kani::unwind(16),
  kani::stub(std::fmt::format, super::no_fmt),
  kani::stub(std::string::String::from_utf8, ascii)
)]
pub fn c42_decode_c() {
  sizes!(decoded, 13)
}
#[cfg_attr(
  kani,
  kani::proof,
  kani::unwind(16),
  kani::stub(std::fmt::format, super::no_fmt),
  kani::stub(std::string::String::from_utf8, ascii)
)]
pub fn c42t_decode_a() {
  sizes!(decoded, 0 1 2 3 4)
}
#[cfg_attr(
  kani,
  kani::proof,
  kani::unwind(16),
  kani::stub(std::fmt::format, super::no_fmt),
  kani::stub(std::string::String::from_utf8, ascii)
)]
pub fn c42t_decode_b() {
  sizes!(decoded, 7 8)
}
#[cfg_attr(
  kani,
  kani::proof,
  kani::unwind(16),
  kani::stub(std::fmt::format, super::no_fmt),
  kani::stub(std::string::String::from_utf8, ascii)
)]
pub fn c42t_decode_c() {
  sizes!(decoded, 11)
}
#[cfg_attr(
  kani,
  kani::proof,
  kani::unwind(24),
  kani::stub(std::fmt::format, super::no_fmt),
  kani::stub(std::string::String::from_utf8, ascii)
)]
pub fn c42t_decode_d() {
  sizes!(decoded, 12)
}
#[cfg_attr(
  kani,
  kani::proof,
  kani::unwind(24),
  kani::stub(std::fmt::format, super::no_fmt),
  kani::stub(std::string::String::from_utf8, ascii)
)]
pub fn c42t_decode_e() {
  sizes!(decoded, 14)
}
#[cfg_attr(
  kani,
  kani::proof,
  kani::unwind(24),
  kani::stub(std::fmt::format, super::no_fmt),
  kani::stub(std::string::String::from_utf8, ascii)
)]
pub fn c42t_decode_f() {
  sizes!(decoded, 16)
}

// Bytes from the peer never crash a decoder
#[cfg_attr(
  kani,
  kani::proof,
  kani::unwind(16),
  kani::stub(std::fmt::format, super::no_fmt),
  kani::stub(std::string::String::from_utf8, ascii)
)]
pub fn c43_frame_a() {
  sizes!(any_frame, 0 5 9)
}
#[cfg_attr(
  kani,
  kani::proof,
  kani::unwind(16),
  kani::stub(std::fmt::format, super::no_fmt),
  kani::stub(std::string::String::from_utf8, ascii)
)]
pub fn c43_frame_b() {
  sizes!(any_frame, 6 10)
}
#[cfg_attr(
  kani,
  kani::proof,
  kani::unwind(16),
  kani::stub(std::fmt::format, super::no_fmt),
  kani::stub(std::string::String::from_utf8, ascii)
)]
pub fn c43_frame_c() {
  sizes!(any_frame, 12)
}
#[cfg_attr(
  kani,
  kani::proof,
  kani::unwind(16),
  kani::stub(std::fmt::format, super::no_fmt),
  kani::stub(std::string::String::from_utf8, ascii)
)]
pub fn c43_frame_d() {
  sizes!(any_frame, 14)
}
#[cfg_attr(
  kani,
  kani::proof,
  kani::unwind(16),
  kani::stub(std::fmt::format, super::no_fmt),
  kani::stub(std::string::String::from_utf8, ascii)
)]
pub fn c43t_frame_a() {
  sizes!(any_frame, 1 2 3 4)
}
#[cfg_attr(
  kani,
  kani::proof,
  kani::unwind(16),
  kani::stub(std::fmt::format, super::no_fmt),
  kani::stub(std::string::String::from_utf8, ascii)
)]
pub fn c43t_frame_b() {
  sizes!(any_frame, 7 8)
}
#[cfg_attr(
  kani,
  kani::proof,
  kani::unwind(16),
  kani::stub(std::fmt::format, super::no_fmt),
  kani::stub(std::string::String::from_utf8, ascii)
)]
pub fn c43t_frame_c() {
  sizes!(any_frame, 11 13)
}
#[cfg_attr(
  kani,
  kani::proof,
  kani::unwind(24),
  kani::stub(std::fmt::format, super::no_fmt),
  kani::stub(std::string::String::from_utf8, ascii)
)]
pub fn c43t_frame_d() {
  sizes!(any_frame, 15 16)
}
#[cfg_attr(
  kani,
  kani::proof,
  kani::unwind(24),
  kani::stub(std::fmt::format, super::no_fmt),
  kani::stub(std::string::String::from_utf8, ascii)
)]
pub fn c43t_frame_e() {
  sizes!(any_frame, 17 18)
}
#[cfg_attr(
  kani,
  kani::proof,
  kani::unwind(24),
  kani::stub(std::fmt::format, super::no_fmt),
  kani::stub(std::string::String::from_utf8, ascii)
)]
pub fn c43t_frame_f() {
  sizes!(any_frame, 20)
}
fn any_frame<const N: usize>() {
  match Frame::decode(nd::exactly::<N>()) {
    Ok(_) => {
      assert!(N >= 6);
      reach!("accepted");
    }
    Err(_) => {
      reach!("refused");
    }
  }
}

// Error frames whose text is not UTF-8 are refused, the others keep their text
#[cfg_attr(kani, kani::proof, kani::unwind(6), kani::stub(std::fmt::format, super::no_fmt))]
pub fn c43_error_text() {
  sizes!(error_text, 0 1 2 3)
}
fn error_text<const N: usize>() {
  let t = nd::exactly::<3>();
  let n = N;
  let mut b = bytes::BytesMut::new();
  b.extend_from_slice(&[0, 0, 0, 1, 44]);
  b.extend_from_slice(&[0, 0, 0, 2, 1]);
  b.extend_from_slice(&t[..n]);
  let b = b.freeze();
  match Frame::decode(b.clone()) {
    Ok(Frame::ErrorFrame(f)) => {
      assert!(f.stream_id == 1 && f.code == 513);
      nd::part(f.data.as_bytes(), &b, 10, n);
      reach!("text");
    }
    Ok(_) => assert!(false, "an error frame"),
    Err((sid, _)) => {
      assert!(sid == 1);
      let plain = (n < 1 || t[0] < 0x80) && (n < 2 || t[1] < 0x80) && (n < 3 || t[2] < 0x80);
      assert!(!plain, "plain text is accepted");
      reach!("refused");
    }
  }
}

// The operation index in a payload's metadata
#[cfg_attr(kani, kani::proof, kani::unwind(16), kani::stub(std::fmt::format, super::no_fmt))]
pub fn c43_metadata() {
  let m = nd::bytes::<12>();
  let p = if nd::bool() { Payload::new(m.clone(), Bytes::new()) } else { Payload::new_data(None, Some(Bytes::new())) };
  let has = p.metadata.is_some();
  match p.parse_metadata() {
    Ok(x) => {
      assert!(has && m.len() >= 4);
      assert!(x.index == be32(&m, 0));
      reach!("index");
    }
    Err(_) => {
      assert!(!has || m.len() < 4);
      reach!("refused");
    }
  }
}

// Frames are taken off a buffer whole or not at all
#[cfg_attr(kani, kani::proof, kani::unwind(16), kani::stub(std::fmt::format, super::no_fmt))]
pub fn c43_read_frame() {
  let b = nd::bytes::<8>();
  // the claim about longer lengths than the buffer is the same for all of them
  nd::assume(b.len() < 3 || b[0] == 0 && b[1] == 0 && b[2] < 16);
  let mut rest: &[u8] = &b;
  match crate::util::read_frame(&mut rest) {
    Ok(f) => {
      assert!(b.len() >= 3 && b.len() >= 3 + be24(&b, 0));
      nd::part(&f, &b, 3, be24(&b, 0));
      assert!(rest.len() == b.len() - 3 - be24(&b, 0), "the next frame starts where this one ends");
      reach!("frame");
    }
    Err(_) => {
      assert!(b.len() < 3 || b.len() < 3 + be24(&b, 0));
      reach!("short");
    }
  }
}

#[cfg(not(kani))]
pub const TABLE: &[(&str, fn())] = &[
  ("c42_u24", c42_u24),
  ("c42_header", c42_header),
  ("c42_payload", c42_payload),
  ("c42b_payload", c42b_payload),
  ("c42_request", c42_request),
  ("c42_request_empty", c42_request_empty),
  ("c42_small", c42_small),
  ("c42_decode_a", c42_decode_a),
  ("c42_decode_b", c42_decode_b),
  ("c42_decode_c", c42_decode_c),
  ("c42t_decode_a", c42t_decode_a),
  ("c42t_decode_b", c42t_decode_b),
  ("c42t_decode_c", c42t_decode_c),
  ("c42t_decode_d", c42t_decode_d),
  ("c42t_decode_e", c42t_decode_e),
  ("c42t_decode_f", c42t_decode_f),
  ("c43_frame_a", c43_frame_a),
  ("c43_frame_b", c43_frame_b),
  ("c43_frame_c", c43_frame_c),
  ("c43_frame_d", c43_frame_d),
  ("c43t_frame_a", c43t_frame_a),
  ("c43t_frame_b", c43t_frame_b),
  ("c43t_frame_c", c43t_frame_c),
  ("c43t_frame_d", c43t_frame_d),
  ("c43t_frame_e", c43t_frame_e),
  ("c43t_frame_f", c43t_frame_f),
  ("c43_error_text", c43_error_text),
  ("c43_metadata", c43_metadata),
  ("c43_read_frame", c43_read_frame),
];
