//! A07: the visibility polygon.
use crate::engine::*;
use crate::geo::*;
use crate::scal::*;
use crate::Check;
use rgeometry::algorithms::visibility::naive::get_visibility_polygon;
use rgeometry::data::{Point, Polygon};
use std::sync::Arc;

type P<T> = Point<T>;

/// Rings whose visibility regions differ in kind: convex, one pocket, two pockets, collinear edges, spikes seen
/// edge-on, vertices behind one another.
const MENU: &[(&str, &[(i64, i64)])] = &[
  ("square", &[(0, 0), (6, 0), (6, 6), (0, 6)]),
  ("arrow", &[(0, 0), (6, 1), (2, 2), (1, 6)]),
  ("ell", &[(0, 0), (6, 0), (6, 2), (2, 2), (2, 6), (0, 6)]),
  ("flat vertices", &[(0, 0), (3, 0), (6, 0), (6, 4), (3, 2), (0, 4)]),
  ("two pockets", &[(0, 0), (8, 0), (8, 5), (6, 2), (4, 5), (2, 2), (0, 5)]),
  ("step", &[(0, 0), (4, 0), (4, 2), (8, 2), (8, 4), (2, 4), (2, 6), (0, 6)]),
  ("surrounded pocket", &[(2, 6), (1, 6), (1, 1), (3, 5), (5, 4), (0, 0), (6, 4)]),
  ("spiral", &[(0, 0), (7, 0), (7, 6), (2, 6), (2, 3), (5, 3), (5, 4), (3, 5), (6, 5), (6, 1), (0, 1)]),
  ("comb", &[(0, 0), (9, 0), (9, 5), (7, 5), (7, 2), (5, 2), (5, 5), (3, 5), (3, 2), (0, 3)]),
];

/// The interior of the triangle is not met by the segment: a separating line through two of the five points.
fn apart<T: Scal>(t: [&P<T>; 3], c: &P<T>, d: &P<T>) -> F {
  let side = |a: &P<T>, b: &P<T>, mask: u8| F::and(vec![ori(a, b, c, mask), ori(a, b, d, mask)]);
  let mut v = vec![];
  for i in 0..3 {
    v.push(side(t[i], t[(i + 1) % 3], ZERO | NEG));
  }
  for m in [ZERO | NEG, ZERO | POS] {
    v.push(F::and(t.iter().map(|p| ori(c, d, p, m)).collect()));
  }
  F::or(v)
}

fn verdict<T: Scal>(q: &P<T>, ring: &[P<T>], out: Option<Polygon<T>>) {
  let n = ring.len();
  let r = match out {
    None => {
      reach("none");
      check(inside(q, ring).not(), "no visibility polygon for a point inside");
      return;
    }
    Some(r) => r,
  };
  reach("some");
  check(inside(q, ring), "a visibility polygon for a point that is not inside");
  let r: Vec<P<T>> = r.iter().cloned().collect();
  let k = r.len();
  reach(if k == n { "as many vertices" } else if k < n { "fewer vertices" } else { "more vertices" });
  check(simple_ccw(&r), "the visibility polygon is not simple or not counter-clockwise");
  check(inside(q, &r), "the visibility polygon does not contain the query point");
  let edge = |i: usize| (&ring[i], &ring[(i + 1) % n]);
  for i in 0..k {
    let (a, b) = (&r[i], &r[(i + 1) % k]);
    // an edge is part of an edge of the polygon, or a sight line along which the view ends
    let on = F::or((0..n).map(|j| F::and(vec![on_seg(a, edge(j).0, edge(j).1), on_seg(b, edge(j).0, edge(j).1)])).collect());
    check(F::or(vec![col(q, a, b), on]), "an edge of the visibility polygon is neither on the boundary nor along a sight line");
    check(ori(q, a, b, ZERO | POS), "the visibility polygon is not star-shaped");
    // nothing of the polygon's boundary between the query point and the edge
    check(
      F::or(vec![col(q, a, b), F::and((0..n).map(|j| apart([q, a, b], edge(j).0, edge(j).1)).collect())]),
      "the polygon's boundary passes through the visibility polygon",
    );
    // a sight line ends on the boundary
    check(on_boundary(a, ring), "a vertex of the visibility polygon is not on the boundary");
  }
}

/// A fixed ring of which the last `free` vertices and the query point are symbolic.
fn menu<T: Scal>(k: usize, free: usize, start: usize) {
  let m = MENU[k].1;
  let q = pt::<T>(0);
  let ring: Vec<P<T>> = (0..m.len())
    .map(|i| {
      let (x, y) = m[(i + start) % m.len()];
      if i < free {
        pt::<T>(2 + 2 * i)
      } else {
        Point::new([T::int(x), T::int(y)])
      }
    })
    .collect();
  run(q, ring, free > 0)
}
/// Everything symbolic but the query point and the first vertex (similarity makes them what they are).
fn all<T: Scal>(n: usize) {
  let q = Point::new([T::int(0), T::int(0)]);
  let mut ring = vec![Point::new([T::int(1), T::int(0)])];
  ring.extend((1..n).map(|i| pt::<T>(2 * (i - 1))));
  run(q, ring, true)
}
fn run<T: Scal>(q: P<T>, ring: Vec<P<T>>, assume_simple: bool) {
  if assume_simple {
    assume(simple_ccw(&ring));
  }
  assume(on_boundary(&q, &ring).not());
  let poly = Polygon::new_unchecked(ring.clone());
  let out = get_visibility_polygon(&q, &poly);
  verdict(&q, &ring, out)
}

pub fn prop(prop: &str, th: bool) -> Option<Check> {
  if prop != "A07" {
    return None;
  }
  let mut jobs = vec![];
  let scal = |name: &str, points: usize| {
    let v: Vec<String> = (0..points).flat_map(|i| [format!("x{i}"), format!("y{i}")]).collect();
    Spec::new(name).scalars(&v.iter().map(|s| s.as_str()).collect::<Vec<_>>()).nlsat().fuel(400_000)
  };
  for (k, (name, _)) in MENU.iter().enumerate().filter(|(_, m)| th || m.1.len() <= 8) {
    jobs.push(job!(scal(&format!("{name}"), 1).bound(&format!("every query point off the boundary of the ring {:?}", MENU[k].1)), menu, k, 0, 0; "none", "some"));
  }
  for n in 3..=(if th { 4 } else { 3 }) {
    jobs.push(job!(scal(&format!("all/{n}"), n - 1).bound(&format!("every simple polygon of {n} vertices and every query point, up to similarity")), all, n; "none", "some"));
  }
  if th {
    for k in 1..3 {
      for s in 0..MENU[k].1.len() {
        jobs.push(job!(scal(&format!("{}/free {s}", MENU[k].0), 2).bound(&format!("the ring {:?} with vertex {s} anywhere, every query point", MENU[k].1)), menu, k, 1, s; "none", "some"));
      }
    }
  }
  Some(Check { jobs, functions: vec!["get_visibility_polygon", "HalfLineSoS::intersect", "Line::intersection_point", "Polygon::new"], assumptions: vec![] })
}
