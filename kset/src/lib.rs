//! Symbolic histories of the intersection set, decided by CBMC through Kani.
#![cfg(kani)]
#![allow(unused_imports, dead_code)]

/// the cells of every vector of the intersection set, and how many of them its two kinds may use
pub const CAP: usize = 12;
pub const SMALL: usize = num(env!("KSET_SMALL"));
pub const LARGE: usize = num(env!("KSET_LARGE"));
const fn num(s: &str) -> usize {
  let b = s.as_bytes();
  let (mut n, mut i) = (0, 0);
  while i < b.len() {
    n = 10 * n + (b[i] - b'0') as usize;
    i += 1;
  }
  n
}
#[path = "gen/intersection_set.rs"]
mod intersection_set;
#[path = "gen/utils.rs"]
#[allow(dead_code)]
mod utils;
mod vector;
mod data {
  pub use crate::intersection_set::*;
  pub use rgeometry::data::{DirectedIndexEdge, IndexEdge, PointId};
}
mod env {
  pub use crate::data::{IndexEdge, IndexIntersection, IndexIntersectionSet, PointId};
  pub use rgeometry::data::{Point, Polygon};
  pub fn any() -> u8 {
    kani::any()
  }
  pub fn assume(b: bool) {
    kani::assume(b)
  }
}
mod world;
mod gen_harness;
