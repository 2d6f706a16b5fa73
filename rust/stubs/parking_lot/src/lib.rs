//! Single-threaded model: a lock that is taken twice would wait forever, which is a failure.
use std::cell::{Cell, UnsafeCell};
use std::ops::{Deref, DerefMut};

pub struct Mutex<T: ?Sized> {
  held: Cell<bool>,
  v: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
impl<T> Mutex<T> {
  pub const fn new(v: T) -> Self {
    Mutex { held: Cell::new(false), v: UnsafeCell::new(v) }
  }
  pub fn into_inner(self) -> T {
    self.v.into_inner()
  }
}
impl<T: ?Sized> Mutex<T> {
  pub fn lock(&self) -> MutexGuard<'_, T> {
    assert!(!self.held.get(), "deadlock: the lock is held");
    self.held.set(true);
    MutexGuard(self)
  }
  pub fn try_lock(&self) -> Option<MutexGuard<'_, T>> {
    if self.held.get() {
      None
    } else {
      Some(self.lock())
    }
  }
}
pub struct MutexGuard<'a, T: ?Sized>(&'a Mutex<T>);
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
  type Target = T;
  fn deref(&self) -> &T {
    unsafe { &*self.0.v.get() }
  }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
  fn deref_mut(&mut self) -> &mut T {
    unsafe { &mut *self.0.v.get() }
  }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
  fn drop(&mut self) {
    self.0.held.set(false);
  }
}

pub struct RwLock<T: ?Sized> {
  readers: Cell<usize>,
  m: Mutex<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
impl<T> RwLock<T> {
  pub const fn new(v: T) -> Self {
    RwLock { readers: Cell::new(0), m: Mutex::new(v) }
  }
}
impl<T: ?Sized> RwLock<T> {
  pub fn read(&self) -> RwLockReadGuard<'_, T> {
    assert!(!self.m.held.get(), "deadlock: the lock is held");
    self.readers.set(self.readers.get() + 1);
    RwLockReadGuard(self)
  }
  pub fn write(&self) -> MutexGuard<'_, T> {
    assert!(self.readers.get() == 0, "deadlock: the lock is held");
    self.m.lock()
  }
}
pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>);
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
  type Target = T;
  fn deref(&self) -> &T {
    unsafe { &*self.0.m.v.get() }
  }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
  fn drop(&mut self) {
    self.0.readers.set(self.0.readers.get() - 1);
  }
}
