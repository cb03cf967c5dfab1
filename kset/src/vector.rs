//! A vector of bounded capacity with the interface of std's, in which every element is an object of its
//! own and an index is resolved by a case split: what the solver gets to see stays small. Running out of
//! capacity is reported (and means that the check gives no verdict).
use crate::{CAP, LARGE, SMALL};

/// the statement for every cell number, written out so that the loop bound need not cover it
macro_rules! cells {
  ($k:ident, $b:expr) => {
    cells!(@ $k, $b, 0 1 2 3 4 5 6 7 8 9 10 11)
  };
  (@ $k:ident, $b:expr, $($n:literal)*) => {
    $({
      let $k: usize = $n;
      $b
    })*
  };
}

#[derive(Debug)]
pub struct Vec<T> {
  buf: [*mut T; CAP],
  len: usize,
}

impl<T: Copy + Default> Vec<T> {
  pub fn new() -> Vec<T> {
    Vec { buf: [cell(), cell(), cell(), cell(), cell(), cell(), cell(), cell(), cell(), cell(), cell(), cell()], len: 0 }
  }
  pub fn with_capacity(_n: usize) -> Vec<T> {
    Vec::new()
  }
  pub fn reserve(&mut self, _n: usize) {}
  pub fn shrink_to_fit(&mut self) {}
  pub fn push(&mut self, t: T) {
    Self::room(self.len + 1);
    unsafe { *self.at(self.len) = t };
    self.len += 1;
  }
  pub fn pop(&mut self) -> Option<T> {
    if self.len == 0 {
      return None;
    }
    self.len -= 1;
    Some(unsafe { *self.at(self.len) })
  }
  pub fn swap(&mut self, i: usize, j: usize) {
    let (a, b) = (self[i], self[j]);
    self[i] = b;
    self[j] = a;
  }
  pub fn clear(&mut self) {
    self.len = 0
  }
  pub fn truncate(&mut self, n: usize) {
    if n < self.len {
      self.len = n
    }
  }
  pub fn swap_remove(&mut self, i: usize) -> T {
    let t = self[i];
    let l = self[self.len - 1];
    self[i] = l;
    self.len -= 1;
    t
  }
  pub fn remove(&mut self, i: usize) -> T {
    let t = self[i];
    cells!(k, if k >= i && k + 1 < self.len {
      unsafe { *self.buf[k] = *self.buf[(k + 1) % CAP] };
    });
    self.len -= 1;
    t
  }
  pub fn insert(&mut self, i: usize, t: T) {
    assert!(i <= self.len, "insertion index out of range");
    Self::room(self.len + 1);
    cells!(j, {
      let k = CAP - 1 - j;
      if k > i {
        unsafe { *self.buf[k] = *self.buf[(k + CAP - 1) % CAP] };
      }
    });
    unsafe { *self.at(i) = t };
    self.len += 1;
  }
  pub fn resize(&mut self, n: usize, t: T) {
    Self::room(n);
    cells!(k, if k < Self::cap() && k >= self.len && k < n {
      unsafe { *self.buf[k] = t };
    });
    self.len = n;
  }
  pub fn resize_with(&mut self, n: usize, mut f: impl FnMut() -> T) {
    Self::room(n);
    cells!(k, if k < Self::cap() && k >= self.len && k < n {
      unsafe { *self.buf[k] = f() };
    });
    self.len = n;
  }
  pub fn extend_from_slice(&mut self, s: &[T]) {
    for t in s {
      self.push(*t);
    }
  }
  pub fn retain(&mut self, mut f: impl FnMut(&T) -> bool) {
    let mut k = 0;
    cells!(i, if i < self.len && f(unsafe { &*self.buf[i] }) {
      let t = unsafe { *self.buf[i] };
      unsafe { *self.at(k) = t };
      k += 1;
    });
    self.len = k;
  }
}
fn cell<T: Default>() -> *mut T {
  Box::into_raw(Box::new(T::default()))
}
impl<T> Vec<T> {
  /// how many cells are in use: the table by edge (of optional indices) may need more than the others
  fn cap() -> usize {
    if std::mem::size_of::<T>() == std::mem::size_of::<Option<usize>>() {
      LARGE
    } else {
      SMALL
    }
  }
  fn room(n: usize) {
    assert!(n <= Self::cap(), "capacity exceeded");
  }
  fn at(&self, i: usize) -> *mut T {
    cells!(k, if i == k && k < Self::cap() {
      return self.buf[k];
    });
    panic!("capacity exceeded");
  }
  pub fn len(&self) -> usize {
    self.len
  }
  pub fn is_empty(&self) -> bool {
    self.len == 0
  }
  pub fn get(&self, i: usize) -> Option<&T> {
    if i < self.len {
      Some(unsafe { &*self.at(i) })
    } else {
      None
    }
  }
  pub fn get_mut(&mut self, i: usize) -> Option<&mut T> {
    if i < self.len {
      Some(unsafe { &mut *self.at(i) })
    } else {
      None
    }
  }
  pub fn first(&self) -> Option<&T> {
    self.get(0)
  }
  pub fn last(&self) -> Option<&T> {
    if self.len == 0 {
      None
    } else {
      self.get(self.len - 1)
    }
  }
  pub fn last_mut(&mut self) -> Option<&mut T> {
    if self.len == 0 {
      None
    } else {
      self.get_mut(self.len - 1)
    }
  }
  pub fn iter(&self) -> Iter<'_, T> {
    Iter { v: self, i: 0 }
  }
}
pub struct Iter<'a, T> {
  v: &'a Vec<T>,
  i: usize,
}
impl<'a, T> Iterator for Iter<'a, T> {
  type Item = &'a T;
  fn next(&mut self) -> Option<&'a T> {
    let r = self.v.get(self.i);
    self.i += 1;
    r
  }
}
impl<T: Copy + Default> Clone for Vec<T> {
  fn clone(&self) -> Vec<T> {
    let mut v = Vec::new();
    v.extend(self.iter().copied());
    v
  }
}
impl<T: Copy + Default> Default for Vec<T> {
  fn default() -> Vec<T> {
    Vec::new()
  }
}
impl<T> std::ops::Index<usize> for Vec<T> {
  type Output = T;
  fn index(&self, i: usize) -> &T {
    assert!(i < self.len, "index out of range");
    unsafe { &*self.at(i) }
  }
}
impl<T> std::ops::IndexMut<usize> for Vec<T> {
  fn index_mut(&mut self, i: usize) -> &mut T {
    assert!(i < self.len, "index out of range");
    unsafe { &mut *self.at(i) }
  }
}
impl<T: Copy + Default> Extend<T> for Vec<T> {
  fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) {
    for t in it {
      self.push(t)
    }
  }
}
impl<T: Copy + Default> FromIterator<T> for Vec<T> {
  fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Vec<T> {
    let mut v = Vec::new();
    v.extend(it);
    v
  }
}
impl<'a, T> IntoIterator for &'a Vec<T> {
  type Item = &'a T;
  type IntoIter = Iter<'a, T>;
  fn into_iter(self) -> Iter<'a, T> {
    self.iter()
  }
}
pub fn filled<T: Copy + Default>(t: T, n: usize) -> Vec<T> {
  let mut v = Vec::new();
  v.resize(n, t);
  v
}
macro_rules! vec_ {
  () => { crate::vector::Vec::new() };
  ($t:expr; $n:expr) => { crate::vector::filled($t, $n) };
  ($($t:expr),+ $(,)?) => {{ let mut v = crate::vector::Vec::new(); $(v.push($t);)+ v }};
}
pub(crate) use vec_ as vec;
