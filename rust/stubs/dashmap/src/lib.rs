//! Single-threaded model: a few entries in a fixed array. An entry that is looked at keeps the map
//! locked, as the real one does; using the map meanwhile would wait forever, which is a failure.
use std::cell::{Cell, UnsafeCell};
use std::mem::MaybeUninit;
const CAP: usize = 4;
pub struct DashMap<K, V> {
  e: UnsafeCell<Slots<K, V>>,
  held: Cell<bool>,
}
pub(crate) struct Slots<K, V> {
  used: [bool; CAP],
  k: [MaybeUninit<K>; CAP],
  v: [MaybeUninit<V>; CAP],
}
unsafe impl<K: Send, V: Send> Send for DashMap<K, V> {}
unsafe impl<K: Sync, V: Sync> Sync for DashMap<K, V> {}
impl<K, V> Default for DashMap<K, V> {
  fn default() -> Self {
    DashMap {
      e: UnsafeCell::new(Slots {
        used: [false; CAP],
        k: [const { MaybeUninit::uninit() }; CAP],
        v: [const { MaybeUninit::uninit() }; CAP],
      }),
      held: Cell::new(false),
    }
  }
}
fn fits(c: bool) {
  assert!(c, "model capacity");
}
impl<K: Eq, V> DashMap<K, V> {
  #[allow(clippy::mut_from_ref)]
  fn s(&self) -> &mut Slots<K, V> {
    unsafe { &mut *self.e.get() }
  }
  fn free(&self) {
    assert!(!self.held.get(), "deadlock: the map is locked by an entry");
  }
  fn is(&self, i: usize, k: &K) -> bool {
    let s = self.s();
    s.used[i] && unsafe { s.k[i].assume_init_ref() } == k
  }
  fn val(&self, i: usize) -> &mut V {
    unsafe { self.s().v[i].assume_init_mut() }
  }
  fn take(&self, i: usize) -> (K, V) {
    let s = self.s();
    s.used[i] = false;
    unsafe { (s.k[i].assume_init_read(), s.v[i].assume_init_read()) }
  }
  fn idx(&self, k: &K) -> Option<usize> {
    let mut i = 0;
    while i < CAP {
      if self.is(i, k) {
        return Some(i);
      }
      i += 1;
    }
    None
  }
  pub fn remove(&self, k: &K) -> Option<(K, V)> {
    self.free();
    let mut i = 0;
    while i < CAP {
      if self.is(i, k) {
        return Some(self.take(i));
      }
      i += 1;
    }
    None
  }
  pub fn insert(&self, k: K, n: V) -> Option<V> {
    self.free();
    let s = self.s();
    let mut i = 0;
    while i < CAP {
      if self.is(i, &k) {
        let old = self.take(i).1;
        s.used[i] = true;
        s.k[i] = MaybeUninit::new(k);
        s.v[i] = MaybeUninit::new(n);
        return Some(old);
      }
      i += 1;
    }
    i = 0;
    while i < CAP {
      if !s.used[i] {
        s.used[i] = true;
        s.k[i] = MaybeUninit::new(k);
        s.v[i] = MaybeUninit::new(n);
        return None;
      }
      i += 1;
    }
    fits(false);
    None
  }
  pub fn len(&self) -> usize {
    let mut n = 0;
    let mut i = 0;
    while i < CAP {
      n += self.s().used[i] as usize;
      i += 1;
    }
    n
  }
  pub fn is_empty(&self) -> bool {
    self.len() == 0
  }
  pub fn contains_key(&self, k: &K) -> bool {
    self.free();
    self.idx(k).is_some()
  }
  pub fn get(&self, k: &K) -> Option<&V> {
    self.free();
    let mut i = 0;
    while i < CAP {
      if self.is(i, k) {
        return Some(self.val(i));
      }
      i += 1;
    }
    None
  }
  pub fn entry(&self, k: K) -> mapref::entry::Entry<'_, K, V> {
    self.free();
    self.held.set(true);
    match self.idx(&k) {
      Some(i) => mapref::entry::Entry::Occupied(mapref::entry::OccupiedEntry(self, i)),
      None => mapref::entry::Entry::Vacant(mapref::entry::VacantEntry(self, k)),
    }
  }
}
pub mod mapref {
  pub mod entry {
    use crate::{DashMap, CAP};
    pub enum Entry<'a, K, V> {
      Occupied(OccupiedEntry<'a, K, V>),
      Vacant(VacantEntry<'a, K, V>),
    }
    pub struct OccupiedEntry<'a, K, V>(pub(crate) &'a DashMap<K, V>, pub(crate) usize);
    pub struct VacantEntry<'a, K, V>(pub(crate) &'a DashMap<K, V>, #[allow(dead_code)] pub(crate) K);
    impl<K, V> Drop for OccupiedEntry<'_, K, V> {
      fn drop(&mut self) {
        self.0.held.set(false);
      }
    }
    impl<K, V> Drop for VacantEntry<'_, K, V> {
      fn drop(&mut self) {
        self.0.held.set(false);
      }
    }
    impl<'a, K: Eq, V> OccupiedEntry<'a, K, V> {
      /// The index as a constant in every branch.
      fn at(&self) -> usize {
        let mut i = 0;
        while i + 1 < CAP && i != self.1 {
          i += 1;
        }
        i
      }
      pub fn get(&self) -> &V {
        self.0.val(self.at())
      }
      pub fn get_mut(&mut self) -> &mut V {
        self.0.val(self.at())
      }
      pub fn remove(self) -> V {
        self.0.take(self.at()).1
      }
    }
  }
}
