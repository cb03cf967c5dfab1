//! Geometric specifications as formulas (oracles). Written from the textbook definitions,
//! independently of the crate's own predicates.
use crate::engine::*;
use crate::scal::Scal;
use rgeometry::data::Point;

pub type P<T> = Point<T, 2>;

pub fn cross<T: Scal>(a: &P<T>, b: &P<T>, c: &P<T>) -> T {
  (b.array[0].clone() - a.array[0].clone()) * (c.array[1].clone() - a.array[1].clone())
    - (b.array[1].clone() - a.array[1].clone()) * (c.array[0].clone() - a.array[0].clone())
}
/// sign of orientation(a,b,c) ∈ mask (POS = counter-clockwise)
pub fn ori<T: Scal>(a: &P<T>, b: &P<T>, c: &P<T>, mask: u8) -> F {
  cross(a, b, c).sgn_in(mask)
}
pub fn ccw<T: Scal>(a: &P<T>, b: &P<T>, c: &P<T>) -> F {
  ori(a, b, c, POS)
}
pub fn cw<T: Scal>(a: &P<T>, b: &P<T>, c: &P<T>) -> F {
  ori(a, b, c, NEG)
}
pub fn col<T: Scal>(a: &P<T>, b: &P<T>, c: &P<T>) -> F {
  ori(a, b, c, ZERO)
}
pub fn lt<T: Scal>(a: &T, b: &T) -> F {
  (a.clone() - b.clone()).sgn_in(NEG)
}
pub fn le<T: Scal>(a: &T, b: &T) -> F {
  (a.clone() - b.clone()).sgn_in(NEG | ZERO)
}
pub fn eq<T: Scal>(a: &T, b: &T) -> F {
  (a.clone() - b.clone()).sgn_in(ZERO)
}
pub fn x<T>(p: &P<T>) -> &T {
  &p.array[0]
}
pub fn y<T>(p: &P<T>) -> &T {
  &p.array[1]
}
pub fn same<T: Scal>(a: &P<T>, b: &P<T>) -> F {
  F::and(vec![eq(x(a), x(b)), eq(y(a), y(b))])
}
/// lexicographic a < b
pub fn lex_lt<T: Scal>(a: &P<T>, b: &P<T>) -> F {
  F::or(vec![lt(x(a), x(b)), F::and(vec![eq(x(a), x(b)), lt(y(a), y(b))])])
}
pub fn lex_le<T: Scal>(a: &P<T>, b: &P<T>) -> F {
  lex_lt(b, a).not()
}
pub fn between<T: Scal>(v: &T, a: &T, b: &T) -> F {
  F::or(vec![F::and(vec![le(a, v), le(v, b)]), F::and(vec![le(b, v), le(v, a)])])
}
/// p lies in the closed bounding box of a,b
pub fn in_box<T: Scal>(p: &P<T>, a: &P<T>, b: &P<T>) -> F {
  F::and(vec![between(x(p), x(a), x(b)), between(y(p), y(a), y(b))])
}
/// p on the closed segment ab
pub fn on_seg<T: Scal>(p: &P<T>, a: &P<T>, b: &P<T>) -> F {
  F::and(vec![col(a, b, p), in_box(p, a, b)])
}
/// closed segments share a point
pub fn seg_meet<T: Scal>(a: &P<T>, b: &P<T>, c: &P<T>, d: &P<T>) -> F {
  let opp = |u: T, v: T| {
    F::or(vec![
      F::and(vec![u.sgn_in(POS), v.sgn_in(NEG)]),
      F::and(vec![u.sgn_in(NEG), v.sgn_in(POS)]),
    ])
  };
  F::or(vec![
    F::and(vec![opp(cross(a, b, c), cross(a, b, d)), opp(cross(c, d, a), cross(c, d, b))]),
    on_seg(c, a, b),
    on_seg(d, a, b),
    on_seg(a, c, d),
    on_seg(b, c, d),
  ])
}
pub fn distinct<T: Scal>(v: &[P<T>]) -> F {
  let mut o = vec![];
  for i in 0..v.len() {
    for j in 0..i {
      o.push(same(&v[i], &v[j]).not());
    }
  }
  F::and(o)
}
/// closed polygonal chain without self contact: distinct vertices, non-adjacent edges disjoint,
/// adjacent edges share only their common vertex.
pub fn simple<T: Scal>(v: &[P<T>]) -> F {
  let n = v.len();
  let mut o = vec![];
  for i in 0..n {
    for j in 0..i {
      o.push(same(&v[i], &v[j]).not());
    }
  }
  for i in 0..n {
    // adjacent edges (v[i-1],v[i]) (v[i],v[i+1]): next not on previous edge and vice versa
    let (a, b, c) = (&v[(i + n - 1) % n], &v[i], &v[(i + 1) % n]);
    o.push(on_seg(c, a, b).not());
    o.push(on_seg(a, b, c).not());
  }
  for i in 0..n {
    for j in i + 2..n {
      if i == 0 && j == n - 1 {
        continue;
      }
      o.push(seg_meet(&v[i], &v[(i + 1) % n], &v[j], &v[(j + 1) % n]).not());
    }
  }
  F::and(o)
}
/// orientation of the closed chain: the turn at its lexicographically least vertex
pub fn ring_ccw<T: Scal>(v: &[P<T>], mask: u8) -> F {
  let n = v.len();
  let mut o = vec![];
  for i in 0..n {
    let mut c: Vec<F> = (0..n).filter(|&j| j != i).map(|j| lex_le(&v[i], &v[j])).collect();
    c.push(ori(&v[(i + n - 1) % n], &v[i], &v[(i + 1) % n], mask));
    o.push(F::and(c));
  }
  F::or(o)
}
pub fn simple_ccw<T: Scal>(v: &[P<T>]) -> F {
  F::and(vec![simple(v), ring_ccw(v, POS)])
}
pub fn on_boundary<T: Scal>(p: &P<T>, v: &[P<T>]) -> F {
  let n = v.len();
  F::or((0..n).map(|i| on_seg(p, &v[i], &v[(i + 1) % n])).collect())
}
/// even-odd rule with half-open edges; exact off the boundary
pub fn odd_crossings<T: Scal>(p: &P<T>, v: &[P<T>]) -> F {
  let n = v.len();
  let mut acc = F::No;
  for i in 0..n {
    let (a, b) = (&v[i], &v[(i + 1) % n]);
    let up = F::and(vec![le(y(a), y(p)), lt(y(p), y(b)), ccw(a, b, p)]);
    let down = F::and(vec![le(y(b), y(p)), lt(y(p), y(a)), cw(a, b, p)]);
    acc = acc.xor(F::or(vec![up, down]));
  }
  acc
}
pub fn inside<T: Scal>(p: &P<T>, v: &[P<T>]) -> F {
  F::and(vec![on_boundary(p, v).not(), odd_crossings(p, v)])
}
/// twice the signed area (shoelace)
pub fn area2<T: Scal>(v: &[P<T>]) -> T {
  let n = v.len();
  let mut s = T::int(0);
  for i in 0..n {
    let (a, b) = (&v[i], &v[(i + 1) % n]);
    s = s + (x(a).clone() * y(b).clone() - x(b).clone() * y(a).clone());
  }
  s
}
/// all points of the slice are on one line
pub fn all_col<T: Scal>(v: &[P<T>]) -> F {
  let mut o = vec![];
  for i in 0..v.len() {
    for j in 0..i {
      for k in 0..j {
        o.push(col(&v[i], &v[j], &v[k]));
      }
    }
  }
  F::and(o)
}
/// strictly convex counter-clockwise closed chain: every other vertex strictly left of every edge
pub fn strictly_convex<T: Scal>(v: &[P<T>]) -> F {
  let n = v.len();
  let mut o = vec![F::b(n >= 3)];
  for i in 0..n {
    for j in 0..n {
      if j != i && j != (i + 1) % n {
        o.push(ccw(&v[i], &v[(i + 1) % n], &v[j]));
      }
    }
  }
  F::and(o)
}
pub fn in_hull<T: Scal>(p: &P<T>, hull: &[P<T>]) -> F {
  let n = hull.len();
  F::and((0..n).map(|i| ori(&hull[i], &hull[(i + 1) % n], p, POS | ZERO)).collect())
}
/// the multiset `v` is a permutation of the (distinct) points `w`: same length and mutual membership
pub fn same_set<T: Scal>(v: &[P<T>], w: &[P<T>]) -> F {
  let mut o = vec![F::b(v.len() == w.len())];
  for a in v {
    o.push(F::or(w.iter().map(|b| same(a, b)).collect()));
  }
  for a in w {
    o.push(F::or(v.iter().map(|b| same(a, b)).collect()));
  }
  F::and(o)
}
/// every point of v is one of w
pub fn subset<T: Scal>(v: &[P<T>], w: &[P<T>]) -> F {
  F::and(v.iter().map(|a| F::or(w.iter().map(|b| same(a, b)).collect())).collect())
}
pub fn seq_same<T: Scal>(v: &[P<T>], w: &[P<T>]) -> F {
  if v.len() != w.len() {
    return F::No;
  }
  F::and(v.iter().zip(w).map(|(a, b)| same(a, b)).collect())
}
pub fn rotated<T: Scal>(v: &[P<T>], k: usize) -> Vec<P<T>> {
  (0..v.len()).map(|i| v[(i + k) % v.len()].clone()).collect()
}
pub fn reversed<T: Scal>(v: &[P<T>]) -> Vec<P<T>> {
  v.iter().rev().cloned().collect()
}
/// w is a rotation of v
pub fn rotation<T: Scal>(v: &[P<T>], w: &[P<T>]) -> F {
  F::or((0..v.len().max(1)).map(|k| seq_same(&rotated(v, k), w)).collect())
}
/// w is the same cyclic ring as v, in either direction
pub fn ring_same<T: Scal>(v: &[P<T>], w: &[P<T>]) -> F {
  F::or(vec![rotation(v, w), rotation(&reversed(v), w)])
}
