//! A model of the parts of the `bytes` crate that the repository uses: same observable behaviour
//! (values, panics), a fixed inline buffer instead of shared heap storage, so that a bounded model
//! checker does not have to reason about reference counts and vtables.
#![allow(clippy::all, invalid_reference_casting)]
use std::borrow::Borrow;
use std::ops::{Bound, Deref, DerefMut, RangeBounds};

/// Longest value the model can hold; exceeding it is reported as an encoding failure, never ignored.
pub const CAP: usize = if cfg!(verif_big) { 384 } else { 48 };
fn fits(n: usize) {
  if n > CAP {
    panic!("MODEL-CAPACITY");
  }
}

/// Every index below n (at most CAP: callers check). Two short loops instead of one long loop: the model checker's unwinding limit
/// then stays small however long the values are.
macro_rules! each {
  ($n:expr, $i:ident, $body:expr) => {
    let n = $n;
    let mut block = 0;
    while block < n && block < CAP {
      let mut $i = block;
      while $i < n && $i < block + 8 {
        $body;
        $i += 1;
      }
      block += 8;
    }
  };
}

static ZERO: [u8; CAP] = [0; CAP];
fn block() -> &'static mut [u8; CAP] {
  Box::leak(Box::new([0; CAP]))
}

#[derive(Clone, Copy)]
pub struct Bytes {
  b: &'static [u8; CAP],
  off: usize,
  len: usize,
}
impl Bytes {
  pub const fn new() -> Self {
    Bytes { b: &ZERO, off: 0, len: 0 }
  }
  pub fn from_static(s: &'static [u8]) -> Self {
    Self::copy_from_slice(s)
  }
  pub fn from_owner<T: AsRef<[u8]>>(o: T) -> Self {
    Self::copy_from_slice(o.as_ref())
  }
  pub fn copy_from_slice(s: &[u8]) -> Self {
    fits(s.len());
    let b = block();
    each!(s.len(), i, b[i] = s[i]);
    Bytes { b, off: 0, len: s.len() }
  }
  pub const fn len(&self) -> usize {
    self.len
  }
  pub const fn is_empty(&self) -> bool {
    self.len == 0
  }
  pub fn is_unique(&self) -> bool {
    true
  }
  fn sl(&self) -> &[u8] {
    // off + len <= CAP is kept by every operation above and below
    unsafe { std::slice::from_raw_parts(self.b.as_ptr().add(self.off), self.len) }
  }
  pub fn slice(&self, range: impl RangeBounds<usize>) -> Self {
    let begin = match range.start_bound() {
      Bound::Included(&n) => n,
      Bound::Excluded(&n) => n.checked_add(1).expect("out of range"),
      Bound::Unbounded => 0,
    };
    let end = match range.end_bound() {
      Bound::Included(&n) => n.checked_add(1).expect("out of range"),
      Bound::Excluded(&n) => n,
      Bound::Unbounded => self.len,
    };
    assert!(begin <= end, "range start must not be greater than end");
    assert!(end <= self.len, "range end out of bounds");
    let mut r = *self;
    r.off += begin;
    r.len = end - begin;
    r
  }
  pub fn slice_ref(&self, subset: &[u8]) -> Self {
    Self::copy_from_slice(subset)
  }
  pub fn split_off(&mut self, at: usize) -> Self {
    assert!(at <= self.len, "split_off out of bounds");
    let mut r = *self;
    r.off += at;
    r.len -= at;
    self.len = at;
    r
  }
  pub fn split_to(&mut self, at: usize) -> Self {
    assert!(at <= self.len, "split_to out of bounds");
    let mut r = *self;
    r.len = at;
    self.off += at;
    self.len -= at;
    r
  }
  pub fn truncate(&mut self, len: usize) {
    if len < self.len {
      self.len = len;
    }
  }
  pub fn clear(&mut self) {
    self.len = 0;
  }
  pub fn try_into_mut(self) -> Result<BytesMut, Bytes> {
    Ok(BytesMut { i: self, own: false })
  }
}
impl Default for Bytes {
  fn default() -> Self {
    Self::new()
  }
}
impl Deref for Bytes {
  type Target = [u8];
  fn deref(&self) -> &[u8] {
    self.sl()
  }
}
impl AsRef<[u8]> for Bytes {
  fn as_ref(&self) -> &[u8] {
    self.sl()
  }
}
impl Borrow<[u8]> for Bytes {
  fn borrow(&self) -> &[u8] {
    self.sl()
  }
}
impl std::fmt::Debug for Bytes {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    std::fmt::Debug::fmt(self.sl(), f)
  }
}
impl std::hash::Hash for Bytes {
  fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
    self.sl().hash(h)
  }
}
fn same(a: &[u8], b: &[u8]) -> bool {
  if a.len() != b.len() {
    return false;
  }
  each!(a.len(), i, if a[i] != b[i] {
    return false;
  });
  true
}
macro_rules! eqs {
  ($t:ty) => {
    impl PartialEq for $t {
      fn eq(&self, o: &$t) -> bool {
        same(self, o)
      }
    }
    impl Eq for $t {}
    impl PartialOrd for $t {
      fn partial_cmp(&self, o: &$t) -> Option<std::cmp::Ordering> {
        self[..].partial_cmp(&o[..])
      }
    }
    impl Ord for $t {
      fn cmp(&self, o: &$t) -> std::cmp::Ordering {
        self[..].cmp(&o[..])
      }
    }
    impl PartialEq<[u8]> for $t {
      fn eq(&self, o: &[u8]) -> bool {
        same(self, o)
      }
    }
    impl PartialEq<$t> for [u8] {
      fn eq(&self, o: &$t) -> bool {
        same(self, o)
      }
    }
    impl PartialEq<str> for $t {
      fn eq(&self, o: &str) -> bool {
        same(self, o.as_bytes())
      }
    }
    impl PartialEq<Vec<u8>> for $t {
      fn eq(&self, o: &Vec<u8>) -> bool {
        same(self, o)
      }
    }
    impl PartialEq<$t> for Vec<u8> {
      fn eq(&self, o: &$t) -> bool {
        same(self, o)
      }
    }
    impl PartialEq<String> for $t {
      fn eq(&self, o: &String) -> bool {
        same(self, o.as_bytes())
      }
    }
    impl<'a, T: ?Sized> PartialEq<&'a T> for $t
    where
      $t: PartialEq<T>,
    {
      fn eq(&self, o: &&'a T) -> bool {
        *self == **o
      }
    }
    impl<'a> PartialEq<$t> for &'a [u8] {
      fn eq(&self, o: &$t) -> bool {
        same(self, o)
      }
    }
    impl<'a> IntoIterator for &'a $t {
      type Item = &'a u8;
      type IntoIter = std::slice::Iter<'a, u8>;
      fn into_iter(self) -> Self::IntoIter {
        self[..].iter()
      }
    }
    impl IntoIterator for $t {
      type Item = u8;
      type IntoIter = std::vec::IntoIter<u8>;
      fn into_iter(self) -> Self::IntoIter {
        self.to_vec().into_iter()
      }
    }
  };
}
eqs!(Bytes);
eqs!(BytesMut);
impl PartialEq<BytesMut> for Bytes {
  fn eq(&self, o: &BytesMut) -> bool {
    same(self, o)
  }
}
impl PartialEq<Bytes> for BytesMut {
  fn eq(&self, o: &Bytes) -> bool {
    same(self, o)
  }
}
impl From<&'static [u8]> for Bytes {
  fn from(s: &'static [u8]) -> Self {
    Self::copy_from_slice(s)
  }
}
impl From<&'static str> for Bytes {
  fn from(s: &'static str) -> Self {
    Self::copy_from_slice(s.as_bytes())
  }
}
impl From<Vec<u8>> for Bytes {
  fn from(s: Vec<u8>) -> Self {
    Self::copy_from_slice(&s)
  }
}
impl From<Box<[u8]>> for Bytes {
  fn from(s: Box<[u8]>) -> Self {
    Self::copy_from_slice(&s)
  }
}
impl From<String> for Bytes {
  fn from(s: String) -> Self {
    Self::copy_from_slice(s.as_bytes())
  }
}
impl From<Bytes> for Vec<u8> {
  fn from(b: Bytes) -> Self {
    b.to_vec()
  }
}
impl From<BytesMut> for Bytes {
  fn from(b: BytesMut) -> Self {
    b.i
  }
}
impl From<BytesMut> for Vec<u8> {
  fn from(b: BytesMut) -> Self {
    b.to_vec()
  }
}
impl std::iter::FromIterator<u8> for Bytes {
  fn from_iter<I: IntoIterator<Item = u8>>(it: I) -> Self {
    let mut m = BytesMut::new();
    for b in it {
      m.put_u8(b);
    }
    m.i
  }
}

#[derive(Default)]
pub struct BytesMut {
  // Owner of the block `i.b` points to, unless the value is empty: nothing else refers to it.
  i: Bytes,
  own: bool,
}
impl Clone for BytesMut {
  fn clone(&self) -> Self {
    BytesMut { i: self.i, own: false }
  }
}
impl BytesMut {
  pub fn new() -> Self {
    BytesMut { i: Bytes::new(), own: false }
  }
  pub fn with_capacity(_n: usize) -> Self {
    Self::new()
  }
  pub fn zeroed(n: usize) -> Self {
    fits(n);
    let mut r = Self::new();
    r.i.len = n;
    r.own = false;
    r
  }
  pub const fn len(&self) -> usize {
    self.i.len
  }
  pub const fn is_empty(&self) -> bool {
    self.i.len == 0
  }
  pub fn capacity(&self) -> usize {
    self.i.len
  }
  pub fn reserve(&mut self, _n: usize) {}
  pub fn freeze(self) -> Bytes {
    self.i
  }
  pub fn clear(&mut self) {
    self.i.clear()
  }
  pub fn truncate(&mut self, n: usize) {
    self.i.truncate(n)
  }
  pub fn resize(&mut self, n: usize, v: u8) {
    if n <= self.i.len {
      self.i.len = n;
      return;
    }
    fits(n);
    let more = n - self.i.len;
    each!(more, i, self.put_u8(v));
  }
  pub fn split_to(&mut self, at: usize) -> BytesMut {
    BytesMut { i: self.i.split_to(at), own: false }
  }
  pub fn split_off(&mut self, at: usize) -> BytesMut {
    {
      let i = self.i.split_off(at);
      let own = false;
      self.own = false;
      BytesMut { i, own }
    }
  }
  pub fn split(&mut self) -> BytesMut {
    let n = self.i.len;
    self.split_to(n)
  }
  pub fn unsplit(&mut self, o: BytesMut) {
    self.extend_from_slice(&o)
  }
  fn blk(&mut self) -> &'static mut [u8; CAP] {
    if !self.own {
      self.i = Bytes::copy_from_slice(&self.i);
      self.own = true;
    }
    unsafe { &mut *(self.i.b as *const [u8; CAP] as *mut [u8; CAP]) }
  }
  pub fn extend_from_slice(&mut self, s: &[u8]) {
    let b = self.blk();
    let base = self.i.off + self.i.len;
    fits(base + s.len());
    each!(s.len(), k, b[base + k] = s[k]);
    self.i.len += s.len();
  }
}
impl Deref for BytesMut {
  type Target = [u8];
  fn deref(&self) -> &[u8] {
    self.i.sl()
  }
}
impl DerefMut for BytesMut {
  fn deref_mut(&mut self) -> &mut [u8] {
    let b = self.blk();
    let (o, l) = (self.i.off, self.i.len);
    unsafe { std::slice::from_raw_parts_mut(b.as_mut_ptr().add(o), l) }
  }
}
impl AsRef<[u8]> for BytesMut {
  fn as_ref(&self) -> &[u8] {
    self.i.sl()
  }
}
impl AsMut<[u8]> for BytesMut {
  fn as_mut(&mut self) -> &mut [u8] {
    self
  }
}
impl Borrow<[u8]> for BytesMut {
  fn borrow(&self) -> &[u8] {
    self.i.sl()
  }
}
impl std::fmt::Debug for BytesMut {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    std::fmt::Debug::fmt(self.i.sl(), f)
  }
}
impl<'a> From<&'a [u8]> for BytesMut {
  fn from(s: &'a [u8]) -> Self {
    BytesMut { i: Bytes::copy_from_slice(s), own: true }
  }
}
impl<'a> From<&'a str> for BytesMut {
  fn from(s: &'a str) -> Self {
    BytesMut { i: Bytes::copy_from_slice(s.as_bytes()), own: true }
  }
}
impl From<Bytes> for BytesMut {
  fn from(i: Bytes) -> Self {
    BytesMut { i, own: false }
  }
}
impl Extend<u8> for BytesMut {
  fn extend<I: IntoIterator<Item = u8>>(&mut self, it: I) {
    for b in it {
      self.put_u8(b);
    }
  }
}
impl<'a> Extend<&'a u8> for BytesMut {
  fn extend<I: IntoIterator<Item = &'a u8>>(&mut self, it: I) {
    for b in it {
      self.put_u8(*b);
    }
  }
}
impl Extend<Bytes> for BytesMut {
  fn extend<I: IntoIterator<Item = Bytes>>(&mut self, it: I) {
    for b in it {
      self.extend_from_slice(&b);
    }
  }
}
impl std::iter::FromIterator<u8> for BytesMut {
  fn from_iter<I: IntoIterator<Item = u8>>(it: I) -> Self {
    let mut m = BytesMut::new();
    m.extend(it);
    m
  }
}
impl std::fmt::Write for BytesMut {
  fn write_str(&mut self, s: &str) -> std::fmt::Result {
    self.extend_from_slice(s.as_bytes());
    Ok(())
  }
}

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub struct TryGetError {
  pub requested: usize,
  pub available: usize,
}
impl std::fmt::Display for TryGetError {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    f.write_str("Not enough bytes remaining in buffer to read value")
  }
}
impl std::error::Error for TryGetError {}

macro_rules! gets {
  ($($g:ident $gl:ident $tg:ident $t:ty),*) => { $(
    fn $g(&mut self) -> $t {
      let mut b = [0u8; std::mem::size_of::<$t>()];
      self.copy_to_slice(&mut b);
      <$t>::from_be_bytes(b)
    }
    fn $gl(&mut self) -> $t {
      let mut b = [0u8; std::mem::size_of::<$t>()];
      self.copy_to_slice(&mut b);
      <$t>::from_le_bytes(b)
    }
    fn $tg(&mut self) -> Result<$t, TryGetError> {
      let n = std::mem::size_of::<$t>();
      if self.remaining() < n {
        return Err(TryGetError { requested: n, available: self.remaining() });
      }
      Ok(self.$g())
    }
  )* };
}
pub trait Buf {
  fn remaining(&self) -> usize;
  fn chunk(&self) -> &[u8];
  fn advance(&mut self, n: usize);
  fn has_remaining(&self) -> bool {
    self.remaining() > 0
  }
  fn copy_to_slice(&mut self, dst: &mut [u8]) {
    assert!(self.remaining() >= dst.len(), "advance out of bounds");
    let n = dst.len();
    fits(n);
    {
      let c = self.chunk();
      each!(n, i, dst[i] = c[i]);
    }
    self.advance(n);
  }
  fn try_copy_to_slice(&mut self, dst: &mut [u8]) -> Result<(), TryGetError> {
    if self.remaining() < dst.len() {
      return Err(TryGetError { requested: dst.len(), available: self.remaining() });
    }
    self.copy_to_slice(dst);
    Ok(())
  }
  fn copy_to_bytes(&mut self, n: usize) -> Bytes {
    assert!(n <= self.remaining(), "`len` greater than remaining");
    let r = Bytes::copy_from_slice(&self.chunk()[..n]);
    self.advance(n);
    r
  }
  gets!(get_u8 get_u8_le try_get_u8 u8, get_i8 get_i8_le try_get_i8 i8, get_u16 get_u16_le try_get_u16 u16,
    get_i16 get_i16_le try_get_i16 i16, get_u32 get_u32_le try_get_u32 u32, get_i32 get_i32_le try_get_i32 i32,
    get_u64 get_u64_le try_get_u64 u64, get_i64 get_i64_le try_get_i64 i64);
  fn get_uint(&mut self, nbytes: usize) -> u64 {
    assert!(nbytes <= 8 && self.remaining() >= nbytes, "advance out of bounds");
    let mut v = 0u64;
    let mut i = 0;
    while i < nbytes {
      v = (v << 8) | self.get_u8() as u64;
      i += 1;
    }
    v
  }
}
impl Buf for &[u8] {
  fn remaining(&self) -> usize {
    self.len()
  }
  fn chunk(&self) -> &[u8] {
    self
  }
  fn advance(&mut self, n: usize) {
    *self = &self[n..];
  }
}
impl Buf for Bytes {
  fn remaining(&self) -> usize {
    self.len
  }
  fn chunk(&self) -> &[u8] {
    self.sl()
  }
  fn advance(&mut self, n: usize) {
    assert!(n <= self.len, "cannot advance past `remaining`");
    self.off += n;
    self.len -= n;
  }
}
impl Buf for BytesMut {
  fn remaining(&self) -> usize {
    self.i.len
  }
  fn chunk(&self) -> &[u8] {
    self.i.sl()
  }
  fn advance(&mut self, n: usize) {
    self.i.advance(n)
  }
}
impl<T: Buf + ?Sized> Buf for &mut T {
  fn remaining(&self) -> usize {
    (**self).remaining()
  }
  fn chunk(&self) -> &[u8] {
    (**self).chunk()
  }
  fn advance(&mut self, n: usize) {
    (**self).advance(n)
  }
}

macro_rules! puts {
  ($($p:ident $pl:ident $t:ty),*) => { $(
    fn $p(&mut self, v: $t) {
      self.put_slice(&v.to_be_bytes());
    }
    fn $pl(&mut self, v: $t) {
      self.put_slice(&v.to_le_bytes());
    }
  )* };
}
pub trait BufMut {
  fn put_slice(&mut self, s: &[u8]);
  fn remaining_mut(&self) -> usize {
    usize::MAX
  }
  fn put<T: Buf>(&mut self, mut src: T)
  where
    Self: Sized,
  {
    let n = src.remaining();
    self.put_slice(&src.chunk()[..n]);
    src.advance(n);
  }
  fn put_bytes(&mut self, v: u8, n: usize) {
    each!(n, i, self.put_slice(&[v]));
  }
  puts!(put_u8 put_u8_le u8, put_i8 put_i8_le i8, put_u16 put_u16_le u16, put_i16 put_i16_le i16, put_u32 put_u32_le u32,
    put_i32 put_i32_le i32, put_u64 put_u64_le u64, put_i64 put_i64_le i64);
  fn put_uint(&mut self, v: u64, nbytes: usize) {
    let b = v.to_be_bytes();
    self.put_slice(&b[8 - nbytes..]);
  }
}
impl BufMut for BytesMut {
  fn put_slice(&mut self, s: &[u8]) {
    self.extend_from_slice(s)
  }
}
impl BufMut for Vec<u8> {
  fn put_slice(&mut self, s: &[u8]) {
    self.extend_from_slice(s)
  }
}
impl<T: BufMut + ?Sized> BufMut for &mut T {
  fn put_slice(&mut self, s: &[u8]) {
    (**self).put_slice(s)
  }
}
