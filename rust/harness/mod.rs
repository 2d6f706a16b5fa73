//! Harnesses over the Rust implementation. Under Kani every `nd` value is symbolic; in the native
//! build the values come from a queue (a reported counterexample, or generated ones used to compare
//! the model of the `bytes` crate with the real one).
#![allow(missing_docs, dead_code, unused_imports, clippy::all)]
pub mod nd;
mod codec;
mod ops;
#[cfg(verif_sock)]
mod ex;
#[cfg(verif_sock)]
mod sock;

/// Stand-in for `format!`: the text of messages built at run time is not part of any claim here.
pub fn no_fmt(_: std::fmt::Arguments<'_>) -> String {
  String::new()
}

/// Stand-ins for wakers: the model's tasks are polled again whether they are woken or not.
pub fn no_drop(_: &mut std::task::Waker) {}
pub fn no_wake(_: &std::task::Waker) {}

#[cfg(not(kani))]
pub fn table() -> Vec<(&'static str, fn())> {
  let mut v: Vec<(&'static str, fn())> = Vec::new();
  v.extend_from_slice(codec::TABLE);
  v.extend_from_slice(ops::TABLE);
  #[cfg(verif_sock)]
  v.extend_from_slice(sock::TABLE);
  v
}
