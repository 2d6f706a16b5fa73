//! Single-threaded model of what the crates use of tokio: unbounded and oneshot channels, and tasks
//! that run, in the order in which they were spawned, when the harness lets them (`model::drain`).
pub mod sync {
  pub mod mpsc {
    use std::cell::UnsafeCell;
    use std::mem::MaybeUninit;
    use std::sync::Arc;
    use std::task::{Context, Poll};

    const CAP: usize = 6;
    // what is left in a channel is not dropped: none of it does anything when it is
    struct Chan<T> {
      q: [MaybeUninit<T>; CAP],
      first: usize,
      end: usize,
      senders: usize,
      open: bool,
    }
    struct Shared<T>(UnsafeCell<Chan<T>>);
    unsafe impl<T: Send> Send for Shared<T> {}
    unsafe impl<T: Send> Sync for Shared<T> {}
    impl<T> Shared<T> {
      #[allow(clippy::mut_from_ref)]
      fn c(&self) -> &mut Chan<T> {
        unsafe { &mut *self.0.get() }
      }
    }
    pub mod error {
      #[derive(PartialEq, Eq, Clone, Copy)]
      pub struct SendError<T>(pub T);
      impl<T> std::fmt::Debug for SendError<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
          f.write_str("SendError")
        }
      }
      #[derive(Debug, PartialEq, Eq, Clone, Copy)]
      pub enum TryRecvError {
        Empty,
        Disconnected,
      }
    }
    pub struct UnboundedSender<T>(Arc<Shared<T>>);
    pub struct UnboundedReceiver<T>(Arc<Shared<T>>);
    pub fn unbounded_channel<T>() -> (UnboundedSender<T>, UnboundedReceiver<T>) {
      let s = Arc::new(Shared(UnsafeCell::new(Chan { q: [const { MaybeUninit::uninit() }; CAP], first: 0, end: 0, senders: 1, open: true })));
      (UnboundedSender(s.clone()), UnboundedReceiver(s))
    }
    impl<T> Clone for UnboundedSender<T> {
      fn clone(&self) -> Self {
        self.0.c().senders += 1;
        UnboundedSender(self.0.clone())
      }
    }
    impl<T> Drop for UnboundedSender<T> {
      fn drop(&mut self) {
        self.0.c().senders -= 1;
      }
    }
    impl<T> Drop for UnboundedReceiver<T> {
      fn drop(&mut self) {
        self.close();
      }
    }
    impl<T> Chan<T> {
      fn pop(&mut self) -> Option<T> {
        if self.first == self.end {
          return None;
        }
        self.first += 1;
        Some(unsafe { self.q[self.first - 1].assume_init_read() })
      }
    }
    impl<T> UnboundedSender<T> {
      pub fn send(&self, v: T) -> Result<(), error::SendError<T>> {
        let c = self.0.c();
        if !c.open {
          return Err(error::SendError(v));
        }
        crate::model::fits(c.end < CAP);
        c.q[c.end] = MaybeUninit::new(v);
        c.end += 1;
        Ok(())
      }
      pub fn is_closed(&self) -> bool {
        !self.0.c().open
      }
    }
    impl<T> UnboundedReceiver<T> {
      pub fn poll_recv(&mut self, _cx: &mut Context<'_>) -> Poll<Option<T>> {
        let c = self.0.c();
        if c.first < c.end {
          Poll::Ready(c.pop())
        } else if c.senders == 0 || !c.open {
          Poll::Ready(None)
        } else {
          Poll::Pending
        }
      }
      pub fn try_recv(&mut self) -> Result<T, error::TryRecvError> {
        let c = self.0.c();
        match c.pop() {
          Some(v) => Ok(v),
          None if c.senders == 0 || !c.open => Err(error::TryRecvError::Disconnected),
          None => Err(error::TryRecvError::Empty),
        }
      }
      pub fn recv(&mut self) -> Recv<'_, T> {
        Recv(self)
      }
      pub fn close(&mut self) {
        self.0.c().open = false;
      }
    }
    pub struct Recv<'a, T>(&'a mut UnboundedReceiver<T>);
    impl<T> std::future::Future for Recv<'_, T> {
      type Output = Option<T>;
      fn poll(self: std::pin::Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
        self.get_mut().0.poll_recv(cx)
      }
    }
  }
  pub mod oneshot {
    use std::cell::UnsafeCell;
    use std::mem::MaybeUninit;
    use std::sync::Arc;
    use std::task::{Context, Poll};
    pub mod error {
      #[derive(Debug, PartialEq, Eq, Clone, Copy)]
      pub struct RecvError(pub(crate) ());
      impl std::fmt::Display for RecvError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
          f.write_str("channel closed")
        }
      }
      impl std::error::Error for RecvError {}
    }
    struct Slot<T> {
      v: MaybeUninit<T>,
      full: bool,
      tx: bool,
      rx: bool,
    }
    struct Shared<T>(UnsafeCell<Slot<T>>);
    unsafe impl<T: Send> Send for Shared<T> {}
    unsafe impl<T: Send> Sync for Shared<T> {}
    impl<T> Shared<T> {
      #[allow(clippy::mut_from_ref)]
      fn c(&self) -> &mut Slot<T> {
        unsafe { &mut *self.0.get() }
      }
    }
    pub struct Sender<T>(Arc<Shared<T>>);
    pub struct Receiver<T>(Arc<Shared<T>>);
    pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
      let s = Arc::new(Shared(UnsafeCell::new(Slot { v: MaybeUninit::uninit(), full: false, tx: true, rx: true })));
      (Sender(s.clone()), Receiver(s))
    }
    impl<T> Drop for Sender<T> {
      fn drop(&mut self) {
        self.0.c().tx = false;
      }
    }
    impl<T> Drop for Receiver<T> {
      fn drop(&mut self) {
        self.0.c().rx = false;
      }
    }
    impl<T> Sender<T> {
      pub fn send(self, v: T) -> Result<(), T> {
        if !self.0.c().rx {
          return Err(v);
        }
        self.0.c().v = MaybeUninit::new(v);
        self.0.c().full = true;
        Ok(())
      }
      pub fn is_closed(&self) -> bool {
        !self.0.c().rx
      }
    }
    impl<T> std::future::Future for Receiver<T> {
      type Output = Result<T, error::RecvError>;
      fn poll(self: std::pin::Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Self::Output> {
        let c = self.0.c();
        if c.full {
          c.full = false;
          return Poll::Ready(Ok(unsafe { c.v.assume_init_read() }));
        }
        if c.tx {
          Poll::Pending
        } else {
          Poll::Ready(Err(error::RecvError(())))
        }
      }
    }
  }
}
pub mod task {
  pub struct JoinHandle<T>(pub(crate) std::marker::PhantomData<T>);
}
pub fn spawn<F>(f: F) -> task::JoinHandle<()>
where
  F: std::future::Future<Output = ()> + Send + 'static,
{
  let t = model::tasks();
  let i = model::count();
  model::fits(*i < model::TASKS);
  unsafe { std::ptr::write(&mut t[*i], Some(Box::pin(f))) };
  *i += 1;
  task::JoinHandle(std::marker::PhantomData)
}
pub mod model {
  use std::future::Future;
  use std::pin::Pin;
  use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
  pub const TASKS: usize = 4;
  type Task = Option<Pin<Box<dyn Future<Output = ()> + Send>>>;
  static mut QUEUE: [Task; TASKS] = [None, None, None, None];
  static mut COUNT: usize = 0;
  /// The capacity of the model is enough: a run that exceeds it is not judged.
  pub fn fits(c: bool) {
    assert!(c, "model capacity");
  }
  #[allow(static_mut_refs)]
  pub(crate) fn tasks() -> &'static mut [Task; TASKS] {
    unsafe { &mut *std::ptr::addr_of_mut!(QUEUE) }
  }
  #[allow(static_mut_refs)]
  pub(crate) fn count() -> &'static mut usize {
    unsafe { &mut *std::ptr::addr_of_mut!(COUNT) }
  }
  fn clone(_: *const ()) -> RawWaker {
    RawWaker::new(std::ptr::null(), &VT)
  }
  fn noop(_: *const ()) {}
  static VT: RawWakerVTable = RawWakerVTable::new(clone, noop, noop, noop);
  pub fn waker() -> Waker {
    unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) }
  }
  static mut DONE: [bool; TASKS] = [false; TASKS];
  fn one(i: usize) {
    if unsafe { DONE[i] } {
      return;
    }
    if let Some(f) = &mut tasks()[i] {
      let w = waker();
      let mut cx = Context::from_waker(&w);
      if f.as_mut().poll(&mut cx).is_ready() {
        // what the task held is gone: it dropped it when it returned
        unsafe { DONE[i] = true };
      }
    }
  }
  /// Let every task run as far as it can.
  pub fn drain() {
    let mut round = 0;
    while round < 2 {
      let mut i = 0;
      while i < TASKS && i < *count() {
        one(i);
        i += 1;
      }
      round += 1;
    }
  }
  /// Forget all tasks.
  pub fn reset() {
    let mut i = 0;
    while i < TASKS {
      std::mem::forget(tasks()[i].take());
      unsafe { DONE[i] = false };
      i += 1;
    }
    *count() = 0;
  }
}
