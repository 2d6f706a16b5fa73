// replay NAME HEX,HEX,...   runs one harness on the values of a counterexample
// gen SEED COUNT [NAME]     runs harnesses on generated values, one line per run
use std::panic::{catch_unwind, AssertUnwindSafe};
use wasmrs::verif::{nd, table};

fn run(f: fn()) -> (&'static str, String) {
  nd::SEEN.with(|s| s.borrow_mut().clear());
  let r = catch_unwind(AssertUnwindSafe(f));
  let seen = nd::SEEN.with(|s| s.borrow().join(","));
  match r {
    Ok(()) => ("ok", seen),
    Err(e) => {
      if e.downcast_ref::<nd::Assumed>().is_some() {
        ("assumed", String::new())
      } else if let Some(s) = e.downcast_ref::<String>() {
        ("panic", s.clone())
      } else if let Some(s) = e.downcast_ref::<&str>() {
        ("panic", s.to_string())
      } else {
        ("panic", String::new())
      }
    }
  }
}
fn main() {
  std::panic::set_hook(Box::new(|_| {}));
  let a: Vec<String> = std::env::args().collect();
  if a[1] == "replay" {
    let vals = a.get(3).map(|s| s.as_str()).unwrap_or("");
    let q = vals
      .split(',')
      .filter(|s| !s.is_empty())
      .map(|s| (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect())
      .collect();
    nd::SRC.with(|s| *s.borrow_mut() = nd::Src::Queue(q));
    let (_, f) = table().into_iter().find(|(n, _)| *n == a[2]).expect("harness");
    let (r, m) = run(f);
    println!("{r} {m}");
    std::process::exit(if r == "panic" { 1 } else { 0 });
  }
  let seed: u64 = a[2].parse().unwrap();
  let count: u64 = a[3].parse().unwrap();
  for (name, f) in table() {
    if let Some(p) = a.get(4) {
      if !name.starts_with(p.as_str()) {
        continue;
      }
    }
    for i in 0..count {
      let x = (seed.wrapping_mul(1_000_003).wrapping_add(i)).wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1;
      nd::SRC.with(|s| *s.borrow_mut() = nd::Src::Gen(x));
      nd::LOG.with(|l| l.borrow_mut().clear());
      let (r, m) = run(f);
      if r == "panic" {
        let v: Vec<String> = nd::LOG.with(|l| l.borrow().iter().map(|v| v.iter().map(|b| format!("{b:02x}")).collect()).collect());
        println!("@{name} {i} {r} {} {m}", v.join(","));
        continue;
      }
      println!("@{name} {i} {r} {m}");
    }
  }
}
