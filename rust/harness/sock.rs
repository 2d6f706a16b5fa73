//! The socket: frames reach the request they belong to (C45).
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::Ordering;
use std::task::Poll;

use bytes::Bytes;
use futures::Stream;
use wasmrs_runtime::UnboundedReceiver;
use wasmrs_rx::{FluxReceiver, Mono};

use super::{ex, nd};
use crate::frames::*;
use crate::{reach, Frame, Payload, PayloadError, RSocket, SocketSide, WasmSocket};

const FOLLOWS: u16 = 0x80;
const COMPLETE: u16 = 0x40;
const NEXT: u16 = 0x20;

struct Nobody;
impl RSocket for Nobody {
  fn fire_and_forget(&self, _: Payload) -> Mono<(), PayloadError> {
    Mono::new_success(())
  }
  fn request_response(&self, p: Payload) -> Mono<Payload, PayloadError> {
    Mono::new_success(p)
  }
  fn request_stream(&self, _: Payload) -> FluxReceiver<Payload, PayloadError> {
    FluxReceiver::none()
  }
  fn request_channel(&self, _: FluxReceiver<Payload, PayloadError>) -> FluxReceiver<Payload, PayloadError> {
    FluxReceiver::none()
  }
}
fn socket(r: impl RSocket + 'static, side: SocketSide) -> (WasmSocket, UnboundedReceiver<Frame>) {
  let mut s = WasmSocket::new(r, side);
  match s.take_rx() {
    Ok(rx) => (s, rx),
    Err(_) => unreachable!(),
  }
}
fn sent(rx: &mut UnboundedReceiver<Frame>) -> Option<Frame> {
  ex::with(|cx| match rx.poll_recv(cx) {
    Poll::Ready(x) => x,
    Poll::Pending => None,
  })
}
fn payload(c: u8) -> Payload {
  Payload::new(Bytes::new(), Bytes::copy_from_slice(&[c]))
}
fn byte(p: &Payload) -> u8 {
  match &p.data {
    Some(d) if d.len() == 1 => d[0],
    _ => {
      assert!(false, "the payload is the one that was sent");
      0
    }
  }
}
/// One frame for stream `sid`: its kind and what it carries.
struct F {
  kind: usize,
  sid: u32,
  flags: u16,
  c: u8,
  code: u32,
}
fn any(kind: usize) -> F {
  F { kind, sid: nd::u32(), flags: nd::u16() & (FOLLOWS | COMPLETE | NEXT), c: nd::u8(), code: nd::u32() }
}
impl F {
  fn frame(&self) -> Frame {
    match self.kind {
      0 => Frame::new_payload(self.sid, payload(self.c), self.flags),
      1 => Frame::new_error(self.sid, self.code, "no"),
      2 => Frame::new_cancel(self.sid),
      _ => Frame::new_request_n(self.sid, self.code, 0),
    }
  }
}
fn poll_mono(m: &mut Mono<Payload, PayloadError>) -> Poll<Result<Payload, PayloadError>> {
  ex::with(|cx| Pin::new(&mut *m).poll(cx))
}
fn next(f: &mut FluxReceiver<Payload, PayloadError>) -> Poll<Option<Result<Payload, PayloadError>>> {
  ex::with(|cx| Pin::new(&mut *f).poll_next(cx))
}
fn process(s: &WasmSocket, f: Frame) {
  assert!(s.process_once(f).is_ok());
  ex::drain();
}

// A call gets the answer to its own stream, once, and nothing else
fn response(kind: usize) {
  let _e = ex::start();
  let (s, mut rx) = socket(Nobody, SocketSide::Host);
  let c = nd::u8();
  let mut m = s.request_response(payload(c));
  match sent(&mut rx) {
    Some(Frame::RequestResponse(f)) => assert!(f.0.stream_id == 1 && f.0.data.len() == 1 && f.0.data[0] == c),
    _ => assert!(false, "the request is sent"),
  }
  assert!(poll_mono(&mut m).is_pending());
  let f = any(kind);
  process(&s, f.frame());
  let r = poll_mono(&mut m);
  if f.sid != 1 || kind == 3 {
    assert!(r.is_pending(), "a frame of another stream is no answer");
    // and the call still gets its own
    let d = nd::u8();
    process(&s, Frame::new_payload(1, payload(d), NEXT | COMPLETE));
    match poll_mono(&mut m) {
      Poll::Ready(Ok(p)) => assert!(byte(&p) == d),
      _ => assert!(false, "the call gets its answer"),
    }
    reach!("other");
  } else {
    match (kind, r) {
      (0, Poll::Ready(Ok(p))) => {
        assert!(f.flags & NEXT != 0 && byte(&p) == f.c, "the answer is the payload");
        reach!("answer");
      }
      (0, Poll::Ready(Err(_))) => {
        assert!(f.flags & NEXT == 0, "a payload is no error");
        reach!("empty");
      }
      (1, Poll::Ready(Err(e))) => {
        assert!(e.code == f.code && e.msg.len() == 2, "the error is the one that was sent");
        reach!("error");
      }
      (2, Poll::Ready(Err(_))) => {
        reach!("cancelled");
      }
      _ => assert!(false, "the call ends"),
    }
  }
}
#[cfg_attr(kani, kani::proof, kani::unwind(10), kani::stub(std::fmt::format, super::no_fmt), kani::stub(<std::task::Waker as std::ops::Drop>::drop, super::no_drop), kani::stub(std::task::Waker::wake_by_ref, super::no_wake))]
pub fn c45_response_a() {
  response(0)
}
#[cfg_attr(kani, kani::proof, kani::unwind(10), kani::stub(std::fmt::format, super::no_fmt), kani::stub(<std::task::Waker as std::ops::Drop>::drop, super::no_drop), kani::stub(std::task::Waker::wake_by_ref, super::no_wake))]
pub fn c45_response_b() {
  response(1)
}
#[cfg_attr(kani, kani::proof, kani::unwind(10), kani::stub(std::fmt::format, super::no_fmt), kani::stub(<std::task::Waker as std::ops::Drop>::drop, super::no_drop), kani::stub(std::task::Waker::wake_by_ref, super::no_wake))]
pub fn c45_response_c() {
  response(2)
}
#[cfg_attr(kani, kani::proof, kani::unwind(10), kani::stub(std::fmt::format, super::no_fmt), kani::stub(<std::task::Waker as std::ops::Drop>::drop, super::no_drop), kani::stub(std::task::Waker::wake_by_ref, super::no_wake))]
pub fn c45_response_d() {
  response(3)
}


// Two calls at once: each gets its own answer, whatever the order
#[cfg_attr(kani, kani::proof, kani::unwind(10), kani::stub(std::fmt::format, super::no_fmt), kani::stub(<std::task::Waker as std::ops::Drop>::drop, super::no_drop), kani::stub(std::task::Waker::wake_by_ref, super::no_wake))]
pub fn c45_two_calls() {
  two_calls()
}
fn two_calls() {
  let _e = ex::start();
  let (s, mut rx) = socket(Nobody, if nd::bool() { SocketSide::Host } else { SocketSide::Guest });
  let mut ma = s.request_response(payload(1));
  let mut mb = s.request_response(payload(2));
  let ida = sent(&mut rx).map_or(0, |f| f.stream_id());
  let idb = sent(&mut rx).map_or(0, |f| f.stream_id());
  assert!(ida != 0 && idb != 0 && ida != idb && (ida ^ idb) & 1 == 0, "streams of their own");
  let (a, b) = (nd::u8(), nd::u8());
  process(&s, Frame::new_payload(idb, payload(b), NEXT | COMPLETE));
  assert!(poll_mono(&mut ma).is_pending());
  process(&s, Frame::new_payload(ida, payload(a), NEXT | COMPLETE));
  match (poll_mono(&mut ma), poll_mono(&mut mb)) {
    (Poll::Ready(Ok(x)), Poll::Ready(Ok(y))) => assert!(byte(&x) == a && byte(&y) == b),
    _ => assert!(false, "both are answered"),
  }
  reach!("end");
}

// A caller that is gone is no reason to fail
fn gone(kind: usize, call: usize) {
  let _e = ex::start();
  let (s, rx) = socket(Nobody, SocketSide::Host);
  match call {
    0 => drop(s.request_response(payload(1))),
    _ => drop(s.request_stream(payload(1))),
  }
  let keep = nd::bool();
  if keep {
    std::mem::forget(rx);
  } else {
    drop(rx);
  }
  let f = any(kind);
  process(&s, f.frame());
  reach!("end");
  std::mem::forget(s);
}
#[cfg_attr(kani, kani::proof, kani::unwind(10), kani::stub(std::fmt::format, super::no_fmt), kani::stub(<std::task::Waker as std::ops::Drop>::drop, super::no_drop), kani::stub(std::task::Waker::wake_by_ref, super::no_wake))]
pub fn c45_gone_a() {
  gone(0, 0)
}
#[cfg_attr(kani, kani::proof, kani::unwind(10), kani::stub(std::fmt::format, super::no_fmt), kani::stub(<std::task::Waker as std::ops::Drop>::drop, super::no_drop), kani::stub(std::task::Waker::wake_by_ref, super::no_wake))]
pub fn c45_gone_b() {
  gone(1, 0)
}
#[cfg_attr(kani, kani::proof, kani::unwind(10), kani::stub(std::fmt::format, super::no_fmt), kani::stub(<std::task::Waker as std::ops::Drop>::drop, super::no_drop), kani::stub(std::task::Waker::wake_by_ref, super::no_wake))]
pub fn c45_gone_c() {
  gone(2, 0)
}
#[cfg_attr(kani, kani::proof, kani::unwind(10), kani::stub(std::fmt::format, super::no_fmt), kani::stub(<std::task::Waker as std::ops::Drop>::drop, super::no_drop), kani::stub(std::task::Waker::wake_by_ref, super::no_wake))]
pub fn c45_gone_d() {
  gone(0, 1)
}
#[cfg_attr(kani, kani::proof, kani::unwind(10), kani::stub(std::fmt::format, super::no_fmt), kani::stub(<std::task::Waker as std::ops::Drop>::drop, super::no_drop), kani::stub(std::task::Waker::wake_by_ref, super::no_wake))]
pub fn c45_gone_e() {
  gone(1, 1)
}
#[cfg_attr(kani, kani::proof, kani::unwind(10), kani::stub(std::fmt::format, super::no_fmt), kani::stub(<std::task::Waker as std::ops::Drop>::drop, super::no_drop), kani::stub(std::task::Waker::wake_by_ref, super::no_wake))]
pub fn c45_gone_f() {
  gone(2, 1)
}
#[cfg_attr(kani, kani::proof, kani::unwind(10), kani::stub(std::fmt::format, super::no_fmt), kani::stub(<std::task::Waker as std::ops::Drop>::drop, super::no_drop), kani::stub(std::task::Waker::wake_by_ref, super::no_wake))]
pub fn c45_gone_g() {
  gone(3, 0)
}

// A stream yields what is sent to it, in order, and ends when its peer ends it
fn stream(second: usize) {
  let _e = ex::start();
  let (s, mut rx) = socket(Nobody, SocketSide::Host);
  let c = nd::u8();
  let mut out = s.request_stream(payload(c));
  match sent(&mut rx) {
    Some(Frame::RequestStream(f)) => assert!(f.0.stream_id == 1 && f.0.data.len() == 1 && f.0.data[0] == c),
    _ => assert!(false, "the request is sent"),
  }
  assert!(next(&mut out).is_pending());
  let f = any(0);
  process(&s, f.frame());
  let mine = f.sid == 1;
  let ended = mine && f.flags & COMPLETE != 0;
  let d = nd::u8();
  let code = nd::u32();
  process(
    &s,
    match second {
      0 => Frame::new_payload(1, payload(d), NEXT),
      1 => Frame::new_error(1, code, "no"),
      2 => Frame::new_cancel(1),
      _ => Frame::new_payload(1, payload(d), NEXT | COMPLETE),
    },
  );
  if mine && f.flags & NEXT != 0 {
    match next(&mut out) {
      Poll::Ready(Some(Ok(p))) => assert!(byte(&p) == f.c, "the first item"),
      _ => assert!(false, "the first item"),
    }
    reach!("item");
  }
  if ended {
    assert!(matches!(next(&mut out), Poll::Ready(None)), "the stream ends");
    reach!("ended");
  } else {
    let r = next(&mut out);
    match second {
      0 | 3 => match r {
        Poll::Ready(Some(Ok(p))) => assert!(byte(&p) == d, "the second item"),
        _ => assert!(false, "the second item"),
      },
      1 => match r {
        Poll::Ready(Some(Err(e))) => assert!(e.code == code, "the error"),
        _ => assert!(false, "the error"),
      },
      _ => assert!(matches!(r, Poll::Ready(None)), "a cancelled stream ends"),
    }
    if second < 2 {
      reach!("second");
    }
    let last = next(&mut out);
    if second == 0 {
      assert!(last.is_pending(), "the stream goes on");
    } else {
      assert!(matches!(last, Poll::Ready(None)), "the stream ends");
    }
  }
  std::mem::forget((s, rx, out));
}
#[cfg_attr(kani, kani::proof, kani::unwind(10), kani::stub(std::fmt::format, super::no_fmt), kani::stub(<std::task::Waker as std::ops::Drop>::drop, super::no_drop), kani::stub(std::task::Waker::wake_by_ref, super::no_wake))]
pub fn c45_stream_a() {
  stream(0)
}
#[cfg_attr(kani, kani::proof, kani::unwind(10), kani::stub(std::fmt::format, super::no_fmt), kani::stub(<std::task::Waker as std::ops::Drop>::drop, super::no_drop), kani::stub(std::task::Waker::wake_by_ref, super::no_wake))]
pub fn c45_stream_b() {
  stream(1)
}
#[cfg_attr(kani, kani::proof, kani::unwind(10), kani::stub(std::fmt::format, super::no_fmt), kani::stub(<std::task::Waker as std::ops::Drop>::drop, super::no_drop), kani::stub(std::task::Waker::wake_by_ref, super::no_wake))]
pub fn c45_stream_c() {
  stream(2)
}
#[cfg_attr(kani, kani::proof, kani::unwind(10), kani::stub(std::fmt::format, super::no_fmt), kani::stub(<std::task::Waker as std::ops::Drop>::drop, super::no_drop), kani::stub(std::task::Waker::wake_by_ref, super::no_wake))]
pub fn c45t_stream_d() {
  stream(3)
}

// The ids of a connection's streams are its side's, never 0 and 31 bits wide
#[cfg_attr(kani, kani::proof, kani::unwind(10), kani::stub(std::fmt::format, super::no_fmt), kani::stub(<std::task::Waker as std::ops::Drop>::drop, super::no_drop), kani::stub(std::task::Waker::wake_by_ref, super::no_wake))]
pub fn c45_ids() {
  ids()
}
fn ids() {
  let _e = ex::start();
  let host = nd::bool();
  let (s, mut rx) = socket(Nobody, if host { SocketSide::Host } else { SocketSide::Guest });
  // after any number of streams
  let n = nd::u32();
  nd::assume(n < 0x8000_0000);
  let first = s.stream_index.load(Ordering::SeqCst);
  s.stream_index.store(first.wrapping_add(n.wrapping_mul(2)), Ordering::SeqCst);
  let _ = s.fire_and_forget(payload(1));
  let _ = s.fire_and_forget(payload(2));
  let a = sent(&mut rx).map_or(0, |f| f.stream_id());
  let b = sent(&mut rx).map_or(0, |f| f.stream_id());
  assert!(a != 0 && b != 0, "0 is no stream");
  assert!(a <= 0x7fff_ffff && b <= 0x7fff_ffff, "an id has 31 bits");
  assert!(a != b, "every stream has its own");
  assert!(a & 1 == host as u32 && b & 1 == host as u32, "the ids of the other side are not used");
  reach!("end");
}

#[cfg(not(kani))]
pub const TABLE: &[(&str, fn())] = &[
  ("c45_response_a", c45_response_a),
  ("c45_response_b", c45_response_b),
  ("c45_response_c", c45_response_c),
  ("c45_response_d", c45_response_d),
  ("c45_two_calls", c45_two_calls),
  ("c45_gone_a", c45_gone_a),
  ("c45_gone_b", c45_gone_b),
  ("c45_gone_c", c45_gone_c),
  ("c45_gone_d", c45_gone_d),
  ("c45_gone_e", c45_gone_e),
  ("c45_gone_f", c45_gone_f),
  ("c45_gone_g", c45_gone_g),
  ("c45_stream_a", c45_stream_a),
  ("c45_stream_b", c45_stream_b),
  ("c45_stream_c", c45_stream_c),
  ("c45t_stream_d", c45t_stream_d),
  ("c45_ids", c45_ids),
];
