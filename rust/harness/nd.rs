use bytes::Bytes;

/// True in the thorough tier: wider bounds.
pub const THOROUGH: bool = cfg!(verif_thorough);

#[cfg(kani)]
mod imp {
  pub fn u8() -> u8 {
    kani::any()
  }
  pub fn below(_max: u8) -> u8 {
    kani::any()
  }
  pub fn u16() -> u16 {
    kani::any()
  }
  pub fn u32() -> u32 {
    kani::any()
  }
  pub fn assume(c: bool) {
    kani::assume(c)
  }
}
#[cfg(not(kani))]
mod imp {
  use std::cell::RefCell;
  pub enum Src {
    Queue(std::collections::VecDeque<Vec<u8>>),
    Gen(u64),
  }
  thread_local! {
    pub static SRC: RefCell<Src> = RefCell::new(Src::Gen(1));
    pub static LOG: RefCell<Vec<Vec<u8>>> = RefCell::new(Vec::new());
    pub static SEEN: RefCell<Vec<&'static str>> = RefCell::new(Vec::new());
  }
  fn draw(n: usize) -> u64 {
    SRC.with(|s| match &mut *s.borrow_mut() {
      Src::Queue(q) => {
        let v = q.pop_front().unwrap_or_default();
        let mut r = 0u64;
        for (i, b) in v.iter().take(8).enumerate() {
          r |= (*b as u64) << (8 * i);
        }
        r
      }
      Src::Gen(x) => {
        *x ^= *x << 13;
        *x ^= *x >> 7;
        *x ^= *x << 17;
        let v = x.wrapping_mul(0x2545_f491_4f6c_dd1d);
        // small values are as likely as wide ones: lengths and types are small
        let r = if v >> 63 == 0 { (v >> 40) & 0x0f } else { v >> 8 };
        if n >= 8 { r } else { r & ((1u64 << (8 * n)) - 1) }
      }
    })
  }
  fn log(v: u32, n: usize) -> u32 {
    LOG.with(|l| l.borrow_mut().push(v.to_le_bytes()[..n].to_vec()));
    v
  }
  pub fn u8() -> u8 {
    log(draw(1) as u32, 1) as u8
  }
  pub fn below(max: u8) -> u8 {
    let v = draw(1) as u8;
    let gen = SRC.with(|s| matches!(&*s.borrow(), Src::Gen(_)));
    log(if gen { v as u32 % (max as u32 + 1) } else { v as u32 }, 1) as u8
  }
  pub fn u16() -> u16 {
    log(draw(2) as u32, 2) as u16
  }
  pub fn u32() -> u32 {
    log(draw(4) as u32, 4)
  }
  pub struct Assumed;
  pub fn assume(c: bool) {
    if !c {
      std::panic::panic_any(Assumed);
    }
  }
}
pub use imp::*;

/// Any value up to and including `max`.
pub fn upto(max: u8) -> usize {
  let v = below(max);
  assume(v <= max);
  v as usize
}
pub fn bool() -> bool {
  u8() & 1 == 1
}
/// Any byte string of at most N bytes.
pub fn bytes<const N: usize>() -> Bytes {
  let mut buf = [0u8; N];
  let mut i = 0;
  while i < N {
    buf[i] = u8();
    i += 1;
  }
  let n = upto(N as u8);
  let mut b = Bytes::copy_from_slice(&buf);
  b.truncate(n);
  b
}
/// Any byte string of exactly N bytes (of a long one, only the last 4 vary).
pub fn exactly<const N: usize>() -> Bytes {
  let mut buf = [b'x'; N];
  let mut i = if N > 48 { N - 4 } else { 0 };
  while i < N {
    buf[i] = u8();
    i += 1;
  }
  Bytes::copy_from_slice(&buf)
}
/// `part` is exactly `whole[at..at + len]` (a symbolic index stands for every position).
pub fn part(part: &[u8], whole: &[u8], at: usize, len: usize) {
  assert!(part.len() == len, "the part has the expected length");
  let i = u16() as usize;
  if i < len {
    assert!(part[i] == whole[at + i], "every byte is in its place");
  }
}
/// Marks a point that must be reachable, so that a claim can not hold because nothing happens.
#[macro_export]
macro_rules! reach {
  ($name:literal) => {
    #[cfg(kani)]
    kani::cover!(true, $name);
    #[cfg(not(kani))]
    $crate::verif::nd::SEEN.with(|s| s.borrow_mut().push($name));
  };
}
/// A call for every size in the list.
#[macro_export]
macro_rules! sizes {
  ($f:ident, $($n:literal)*) => {{
    let list = [$($n),*];
    match list[nd::upto(list.len() as u8 - 1)] {
      $($n => $f::<$n>(),)*
      _ => (),
    }
  }};
}
