//! Operation lists (C44; the decoder's robustness is part of C43).
use bytes::Bytes;

use super::nd;
use crate::operations::*;
use crate::{reach, sizes};

fn kind(k: usize) -> OperationType {
  match k {
    1 => OperationType::RequestResponse,
    2 => OperationType::RequestFnF,
    3 => OperationType::RequestStream,
    _ => OperationType::RequestChannel,
  }
}
/// Text of N letters, each anything below 0x80.
fn name<const N: usize>() -> String {
  let mut v = vec![b'n'; N];
  let mut i = 0;
  while i < N && i < 4 {
    let c = nd::u8();
    nd::assume(c < 0x80);
    // the last ones of a long name
    v[if N > 4 { N - 1 - i } else { i }] = c;
    i += 1;
  }
  unsafe { String::from_utf8_unchecked(v) }
}
fn ascii(v: Vec<u8>) -> Result<String, std::string::FromUtf8Error> {
  Ok(unsafe { String::from_utf8_unchecked(v) })
}

fn layout<const N: usize, const O: usize>(import: bool) {
  let (ns, op) = (name::<N>(), name::<O>());
  let k = nd::upto(4);
  nd::assume(k > 0);
  let index = nd::u32();
  let mut l = OperationList::default();
  if import {
    l.add_import(index, kind(k), &ns, &op);
  } else {
    l.add_export(index, kind(k), &ns, &op);
  }
  let b = l.encode();
  assert!(b.len() == 10 + 12 + N + O, "size");
  assert!(b[0] == 0 && b[1] == 0x77 && b[2] == 0x72 && b[3] == 0x73, "magic");
  assert!(b[4] == 0 && b[5] == 1, "version");
  assert!(b[6] == 0 && b[7] == 0 && b[8] == 0 && b[9] == 1, "count");
  assert!(b[10] == k as u8 && b[11] == if import { 2 } else { 1 }, "type and direction");
  assert!(b[12] == (index >> 24) as u8 && b[13] == (index >> 16) as u8 && b[14] == (index >> 8) as u8 && b[15] == index as u8, "index");
  assert!((b[16] as usize) << 8 | b[17] as usize == N, "namespace length");
  nd::part(ns.as_bytes(), &b, 18, N);
  let at = 18 + N;
  assert!((b[at] as usize) << 8 | b[at + 1] as usize == O, "operation length");
  nd::part(op.as_bytes(), &b, at + 2, O);
  assert!(b[at + 2 + O] == 0 && b[at + 3 + O] == 0, "no reserved bytes");
  reach!("end");
}
// One operation: bytes as the protocol says
#[cfg_attr(kani, kani::proof, kani::unwind(16), kani::stub(std::fmt::format, super::no_fmt))]
pub fn c44_layout() {
  match nd::upto(3) {
    0 => layout::<0, 0>(false),
    1 => layout::<1, 2>(true),
    2 => layout::<2, 0>(true),
    _ => layout::<3, 1>(false),
  }
}

struct Op {
  k: usize,
  export: bool,
  index: u32,
  ns: u8,
  op: u8,
}
fn any_op(export: bool) -> Op {
  let o = Op { k: nd::upto(4), export, index: nd::u32(), ns: nd::u8(), op: nd::u8() };
  nd::assume(o.k > 0 && o.ns < 0x80 && o.op < 0x80);
  o
}
fn text(c: u8) -> String {
  unsafe { String::from_utf8_unchecked(vec![c]) }
}
fn add(l: &mut OperationList, o: &Op) {
  if o.export {
    l.add_export(o.index, kind(o.k), text(o.ns), text(o.op));
  } else {
    l.add_import(o.index, kind(o.k), text(o.ns), text(o.op));
  }
}
/// The bytes of the list, as the protocol says.
fn wire(a: &Op, b: &Op) -> Bytes {
  let mut w = bytes::BytesMut::new();
  w.extend_from_slice(&[0, 0x77, 0x72, 0x73, 0, 1, 0, 0, 0, 2]);
  for o in [a, b] {
    w.extend_from_slice(&[o.k as u8, if o.export { 1 } else { 2 }]);
    w.extend_from_slice(&[(o.index >> 24) as u8, (o.index >> 16) as u8, (o.index >> 8) as u8, o.index as u8]);
    w.extend_from_slice(&[0, 1, o.ns, 0, 1, o.op, 0, 0]);
  }
  w.freeze()
}
// Long names: lengths that need their second byte
#[cfg_attr(kani, kani::proof, kani::unwind(52), kani::stub(std::fmt::format, super::no_fmt))]
pub fn c44b_layout() {
  match nd::upto(1) {
    0 => layout::<258, 1>(false),
    _ => layout::<1, 300>(true),
  }
}
// Two operations are written one after the other, exports first
fn encode2(xa: bool, xb: bool) {
  let (a, b) = (any_op(xa), any_op(xb));
  let mut l = OperationList::default();
  add(&mut l, &a);
  add(&mut l, &b);
  let e = l.encode();
  let want = if xb && !xa { wire(&b, &a) } else { wire(&a, &b) };
  assert!(e.len() == want.len(), "size");
  let i = nd::u8() as usize;
  if i < want.len() {
    assert!(e[i] == want[i], "every byte is what the protocol says");
  }
  reach!("end");
}
#[cfg_attr(kani, kani::proof, kani::unwind(16), kani::stub(std::fmt::format, super::no_fmt))]
pub fn c44_encode() {
  match nd::upto(2) {
    0 => encode2(true, true),
    1 => encode2(false, true),
    _ => encode2(false, false),
  }
}
// The operations of a list are found under their own names and directions only
fn find2(xa: bool, xb: bool) {
  let (a, b) = (any_op(xa), any_op(xb));
  let mut l = OperationList::default();
  add(&mut l, &a);
  add(&mut l, &b);
  find(&l, &a, &b);
}
#[cfg_attr(kani, kani::proof, kani::unwind(16), kani::stub(std::fmt::format, super::no_fmt))]
pub fn c44_find_same() {
  find2(true, true);
}
#[cfg_attr(kani, kani::proof, kani::unwind(16), kani::stub(std::fmt::format, super::no_fmt))]
pub fn c44_find_mixed() {
  find2(true, false);
}
// and so are those of a list that was read
fn decode2(xa: bool, xb: bool) {
  let (a, b) = (any_op(xa), any_op(xb));
  match OperationList::decode(wire(&a, &b)) {
    Ok(l) => find(&l, &a, &b),
    Err(_) => assert!(false, "a well-formed list is accepted"),
  }
}
#[cfg_attr(kani, kani::proof, kani::unwind(16), kani::stub(std::fmt::format, super::no_fmt), kani::stub(std::string::String::from_utf8, ascii))]
pub fn c44t_decode_same() {
  decode2(false, false);
}
#[cfg_attr(kani, kani::proof, kani::unwind(16), kani::stub(std::fmt::format, super::no_fmt), kani::stub(std::string::String::from_utf8, ascii))]
pub fn c44t_decode_mixed() {
  decode2(true, false);
}
fn find(l: &OperationList, a: &Op, b: &Op) {
  let same = a.ns == b.ns && a.op == b.op;
  let (ns, op) = (text(a.ns), text(a.op));
  let exp = l.get_export(&ns, &op);
  let imp = l.get_import(&ns, &op);
  if a.export {
    assert!(exp == Some(a.index), "an export is found under its index");
    assert!(imp == if same && !b.export { Some(b.index) } else { None });
  } else {
    assert!(imp == Some(a.index), "an import is found under its index");
    assert!(exp == if same && b.export { Some(b.index) } else { None });
  }
  if !same {
    let (ns, op) = (text(b.ns), text(b.op));
    assert!(l.get_export(&ns, &op) == if b.export { Some(b.index) } else { None });
    assert!(l.get_import(&ns, &op) == if b.export { None } else { Some(b.index) });
    reach!("two names");
  }
  reach!("found");
}

fn put_op(b: &mut bytes::BytesMut, k: u8, dir: u8, index: u32, name: u8, reserved: usize) {
  b.extend_from_slice(&[k, dir]);
  b.extend_from_slice(&index.to_be_bytes());
  b.extend_from_slice(&[0, 1, name, 0, 1, b'o', 0, reserved as u8]);
  for _ in 0..reserved {
    b.extend_from_slice(&[nd::u8()]);
  }
}
fn reserved(ra: usize, rb: usize) {
  let mut b = bytes::BytesMut::new();
  b.extend_from_slice(&[0, 0x77, 0x72, 0x73, 0, 1, 0, 0, 0, 2]);
  let (ia, ib) = (nd::u32(), nd::u32());
  put_op(&mut b, 1, 1, ia, b'a', ra);
  put_op(&mut b, 3, 2, ib, b'b', rb);
  match OperationList::decode(b.freeze()) {
    Ok(l) => {
      assert!(l.get_export("a", "o") == Some(ia));
      assert!(l.get_import("b", "o") == Some(ib));
      assert!(l.get_export("b", "o").is_none() && l.get_import("a", "o").is_none());
      reach!("read");
    }
    Err(_) => assert!(false, "a well-formed list is accepted"),
  }
}
// Reserved bytes are skipped
#[cfg_attr(kani, kani::proof, kani::unwind(16), kani::stub(std::fmt::format, super::no_fmt), kani::stub(std::string::String::from_utf8, ascii))]
pub fn c44_reserved_a() {
  reserved(1, 0)
}
#[cfg_attr(kani, kani::proof, kani::unwind(16), kani::stub(std::fmt::format, super::no_fmt), kani::stub(std::string::String::from_utf8, ascii))]
pub fn c44_reserved_b() {
  match nd::upto(2) {
    0 => reserved(0, 0),
    1 => reserved(2, 1),
    _ => reserved(0, 2),
  }
}

fn any_list<const N: usize>(count: u8) {
  let mut b = bytes::BytesMut::new();
  b.extend_from_slice(&[0, 0x77, 0x72, 0x73, 0, 1, 0, 0, 0, count]);
  b.extend_from_slice(&nd::exactly::<N>());
  match OperationList::decode(b.freeze()) {
    Ok(_) => {
      assert!(N >= 12 * count as usize, "every operation takes at least 12 bytes");
      reach!("accepted");
    }
    Err(_) => {
      reach!("refused");
    }
  }
}
// Whatever the bytes, reading an operation list returns
#[cfg_attr(kani, kani::proof, kani::unwind(16), kani::stub(std::fmt::format, super::no_fmt), kani::stub(std::string::String::from_utf8, ascii))]
pub fn c43_oplist() {
  match nd::upto(3) {
    0 => any_list::<0>(1),
    1 => any_list::<11>(1),
    2 => any_list::<12>(1),
    _ => any_list::<4>(0),
  }
}
#[cfg_attr(kani, kani::proof, kani::unwind(16), kani::stub(std::fmt::format, super::no_fmt), kani::stub(std::string::String::from_utf8, ascii))]
pub fn c43t_oplist() {
  match nd::upto(1) {
    0 => any_list::<13>(1),
    _ => any_list::<14>(1),
  }
}
#[cfg_attr(kani, kani::proof, kani::unwind(16), kani::stub(std::fmt::format, super::no_fmt), kani::stub(std::string::String::from_utf8, ascii))]
pub fn c43_oplist_head() {
  sizes!(head, 0 1 2 3 4 5 6 7 8 9 10)
}
fn head<const N: usize>() {
  let b = nd::exactly::<N>();
  // with a count of operations but none of their bytes, only an empty list is complete
  match OperationList::decode(b.clone()) {
    Ok(_) => {
      assert!(b.len() == 10 && b[0] == 0 && b[1] == 0x77 && b[2] == 0x72 && b[3] == 0x73 && b[4] == 0 && b[5] == 1);
      assert!(b[6] == 0 && b[7] == 0 && b[8] == 0 && b[9] == 0);
      reach!("empty");
    }
    Err(_) => {
      reach!("refused");
    }
  }
}

#[cfg(not(kani))]
pub const TABLE: &[(&str, fn())] = &[
  ("c44_layout", c44_layout),
  ("c44b_layout", c44b_layout),
  ("c44_encode", c44_encode),
  ("c44_find_same", c44_find_same),
  ("c44_find_mixed", c44_find_mixed),
  ("c44t_decode_same", c44t_decode_same),
  ("c44t_decode_mixed", c44t_decode_mixed),
  ("c44_reserved_a", c44_reserved_a),
  ("c44_reserved_b", c44_reserved_b),
  ("c43_oplist", c43_oplist),
  ("c43t_oplist", c43t_oplist),
  ("c43_oplist_head", c43_oplist_head),
];
