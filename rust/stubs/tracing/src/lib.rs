//! Tracing that is switched off.
macro_rules! off {
  ($d:tt $($n:ident)*) => {
    $(#[macro_export] macro_rules! $n { ($d($d t:tt)*) => { () }; })*
  };
}
off!($ trace debug info warn error event);
#[derive(Clone, Debug)]
pub struct Span;
impl Span {
  pub fn none() -> Span {
    Span
  }
  pub fn current() -> Span {
    Span
  }
}
