//! kset-native EDGES VERTICES OPS VALUES: replays a history on the library itself.
//! Exit 0: the property holds; 1: it does not; 3: the values are outside of the bounds.
#[path = "../../src/world.rs"]
mod world;
mod env {
  pub use rgeometry::data::{IndexEdge, IndexIntersection, IndexIntersectionSet, Point, PointId, Polygon};
  use std::cell::RefCell;
  thread_local!(pub static VALS: RefCell<std::collections::VecDeque<u8>> = RefCell::new(Default::default()));
  pub fn any() -> u8 {
    VALS.with(|v| v.borrow_mut().pop_front()).unwrap_or(0)
  }
  pub fn assume(b: bool) {
    if !b {
      std::process::exit(3)
    }
  }
}
fn main() {
  let a: Vec<String> = std::env::args().collect();
  let nums = |s: &str| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect::<Vec<u8>>();
  env::VALS.with(|v| *v.borrow_mut() = nums(&a[4]).into());
  let (v, ops) = (a[2].parse().unwrap(), nums(&a[3]));
  let r = std::panic::catch_unwind(|| match a[1].as_str() {
    "3" => world::history::<3>(v, &ops),
    "4" => world::history::<4>(v, &ops),
    "5" => world::history::<5>(v, &ops),
    _ => world::history::<6>(v, &ops),
  });
  std::process::exit(r.is_err() as i32)
}
