#![allow(unused_imports, dead_code)]
//! A history of operations on the intersection set next to the set of pairs it should hold. Compiled twice: for
//! the solver (`any` is symbolic, the set is the bounded copy) and natively (`any` reads a counterexample, the
//! set is the library's).
use super::env::{any, assume, IndexEdge, IndexIntersection, IndexIntersectionSet, PointId, Polygon, Point};
use rand::RngCore;

/// Arbitrary words, then zeros (which every range sampler accepts).
pub struct AnyRng(pub u8);
impl RngCore for AnyRng {
  fn next_u32(&mut self) -> u32 {
    (self.next_u64() >> 32) as u32
  }
  fn next_u64(&mut self) -> u64 {
    if self.0 == 0 {
      return 0;
    }
    self.0 -= 1;
    // enough to reach every value of a small range
    (any() as u64) << 56
  }
  fn fill_bytes(&mut self, d: &mut [u8]) {
    for b in d {
      *b = any()
    }
  }
  fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
    self.fill_bytes(d);
    Ok(())
  }
}

/// The end points of the edges 0..E of the complete graph.
fn ends(e: usize) -> (usize, usize) {
  [(0, 1), (1, 2), (0, 2), (2, 3), (0, 3), (1, 3)][e]
}
fn below(n: usize) -> usize {
  let x = any() as usize;
  assume(x < n);
  x
}

pub const PUSH: u8 = 0;
pub const REMOVE_ALL: u8 = 1;
pub const DRAW: u8 = 2;

pub struct World<const E: usize> {
  ids: [PointId; 4],
  set: IndexIntersectionSet,
  /// the pairs that should be in the set
  has: [[bool; E]; E],
}
impl<const E: usize> World<E> {
  pub fn new(v: usize) -> World<E> {
    let pts = (0..v).map(|i| Point::new([i as i8, 0])).collect();
    let p = Polygon::new_unchecked(pts);
    let b = p.boundary_slice();
    let ids = [b[0], b[1], b[2], b[b.len() - 1]];
    World { ids, set: IndexIntersectionSet::new(v), has: [[false; E]; E] }
  }
  fn id(&self, i: usize) -> PointId {
    match i {
      0 => self.ids[0],
      1 => self.ids[1],
      2 => self.ids[2],
      _ => self.ids[3],
    }
  }
  /// an edge, from either of its ends
  fn edge(&self, e: usize, flip: bool) -> IndexEdge {
    let (a, b) = ends(e);
    let (a, b) = if flip { (b, a) } else { (a, b) };
    IndexEdge::new(self.id(a), self.id(b))
  }
  fn number(&self, e: IndexEdge) -> usize {
    let mut k = E;
    for i in 0..E {
      if self.edge(i, false) == e {
        k = i
      }
    }
    assert!(k < E, "an edge that was never inserted");
    k
  }
  fn flip(&self) -> bool {
    any() & 1 == 1
  }
  pub fn step(&mut self, op: u8) {
    match op {
      PUSH => {
        let (a, b) = (below(E), below(E));
        assume(a != b && !self.has[a][b]);
        let (a1, b1) = (self.flip(), self.flip());
        self.set.push(IndexIntersection::new(self.edge(a, a1), self.edge(b, b1)));
        self.has[a][b] = true;
        self.has[b][a] = true;
      }
      REMOVE_ALL => {
        let a = below(E);
        let a1 = self.flip();
        self.set.remove_all(self.edge(a, a1));
        for i in 0..E {
          self.has[a][i] = false;
          self.has[i][a] = false;
        }
      }
      _ => self.draw(),
    }
  }
  fn draw(&mut self) {
    match self.set.random(&mut AnyRng(1)) {
      Some(p) => {
        let (x, y) = (self.number(p.min), self.number(p.max));
        assert!(self.has[x][y], "a drawn pair is not in the set");
      }
      None => {
        for i in 0..E {
          for j in 0..E {
            assert!(!self.has[i][j], "nothing drawn although the set is not empty");
          }
        }
      }
    }
  }
  pub fn audit(&self) {
    let mut seen = [[false; E]; E];
    let mut count = 0;
    for p in self.set.iter() {
      let (x, y) = (self.number(p.min), self.number(p.max));
      assert!(self.has[x][y], "iteration yields a pair that is not in the set");
      assert!(!seen[x][y], "iteration yields a pair twice");
      seen[x][y] = true;
      seen[y][x] = true;
      count += 1;
    }
    let mut want = 0;
    for i in 0..E {
      for j in 0..i {
        want += self.has[i][j] as usize;
      }
    }
    assert!(count == want, "iteration misses a pair");
  }
}

pub fn history<const E: usize>(v: usize, ops: &[u8]) {
  let mut w = World::<E>::new(v);
  for &o in ops {
    w.step(o);
  }
  w.audit();
}
