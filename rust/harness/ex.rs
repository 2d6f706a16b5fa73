//! Running tasks: with the model of tokio under Kani, with tokio itself in the native build.
use std::task::Context;

pub fn with<R>(f: impl FnOnce(&mut Context<'_>) -> R) -> R {
  let w = futures::task::noop_waker();
  f(&mut Context::from_waker(&w))
}
#[cfg(not(verif_real))]
mod imp {
  pub struct Guard;
  impl Drop for Guard {
    fn drop(&mut self) {
      tokio::model::reset();
    }
  }
  pub fn start() -> Guard {
    Guard
  }
  pub fn drain() {
    tokio::model::drain()
  }
}
#[cfg(verif_real)]
mod imp {
  use std::cell::RefCell;
  thread_local! {
    static RT: RefCell<Option<tokio::runtime::Runtime>> = RefCell::new(None);
  }
  pub struct Guard;
  impl Drop for Guard {
    fn drop(&mut self) {
      RT.with(|r| r.borrow_mut().take());
    }
  }
  pub fn start() -> Guard {
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    // the context stays entered for the thread; the runtime it names is the newest
    std::mem::forget(Box::leak(Box::new(rt.handle().clone())).enter());
    RT.with(|r| *r.borrow_mut() = Some(rt));
    Guard
  }
  pub fn drain() {
    RT.with(|r| {
      r.borrow().as_ref().unwrap().block_on(async {
        for _ in 0..20 {
          tokio::task::yield_now().await;
        }
      })
    })
  }
}
pub use imp::*;
