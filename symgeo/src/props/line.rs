//! Orders, lines, triangles, transforms.
use super::*;
use crate::geo::*;
use crate::scal::*;
use rgeometry::data::*;
use rgeometry::{Intersects, Orientation, TotalOrd};
use std::cmp::Ordering;

const NZ: u8 = NEG | POS;

fn sub<T: Scal>(a: &P<T>, b: &P<T>) -> [T; 2] {
  [x(a).clone() - x(b).clone(), y(a).clone() - y(b).clone()]
}
fn vcross<T: Scal>(v: &[T; 2], w: &[T; 2]) -> T {
  v[0].clone() * w[1].clone() - v[1].clone() * w[0].clone()
}
fn vdot<T: Scal>(v: &[T; 2], w: &[T; 2]) -> T {
  v[0].clone() * w[0].clone() + v[1].clone() * w[1].clone()
}
fn nonzero<T: Scal>(v: &[T; 2]) -> F {
  F::or(vec![v[0].sgn_in(NZ), v[1].sgn_in(NZ)])
}
fn mask(o: Ordering) -> u8 {
  match o {
    Ordering::Less => NEG,
    Ordering::Equal => ZERO,
    Ordering::Greater => POS,
  }
}
fn omask(o: Orientation) -> u8 {
  match o {
    Orientation::ClockWise => NEG,
    Orientation::CoLinear => ZERO,
    Orientation::CounterClockWise => POS,
  }
}

// ---------------------------------------------------------------- angular order

/// angle(z, a) < angle(z, b) in [0, 2*pi); a and b are vectors
fn angle_lt<T: Scal>(z: &[T; 2], a: &[T; 2], b: &[T; 2]) -> F {
  // class 0: along z, 1: strictly left, 2: opposite, 3: strictly right
  let class = |v: &[T; 2], k: u8| match k {
    0 => F::and(vec![vcross(z, v).sgn_in(ZERO), vdot(z, v).sgn_in(POS)]),
    1 => vcross(z, v).sgn_in(POS),
    2 => F::and(vec![vcross(z, v).sgn_in(ZERO), vdot(z, v).sgn_in(NEG)]),
    _ => vcross(z, v).sgn_in(NEG),
  };
  let mut o = vec![];
  for i in 0..4 {
    for j in i + 1..4 {
      o.push(F::and(vec![class(a, i), class(b, j)]));
    }
  }
  for i in [1, 3] {
    o.push(F::and(vec![class(a, i), class(b, i), vcross(a, b).sgn_in(POS)]));
  }
  F::or(o)
}
fn angle_is<T: Scal>(z: &[T; 2], a: &[T; 2], b: &[T; 2], o: Ordering) -> F {
  match o {
    Ordering::Less => angle_lt(z, a, b),
    Ordering::Greater => angle_lt(z, b, a),
    Ordering::Equal => F::and(vec![angle_lt(z, a, b).not(), angle_lt(z, b, a).not()]),
  }
}
fn tag(o: Ordering) -> &'static str {
  match o {
    Ordering::Less => "less",
    Ordering::Equal => "equal",
    Ordering::Greater => "greater",
  }
}
fn around<T: Scal>(form: u8) {
  let v = pts::<T>(3);
  let (c, p, q) = (&v[0], &v[1], &v[2]);
  assume(F::and(vec![same(c, p).not(), same(c, q).not()]));
  let z = if form < 3 { vecv::<T>(6) } else { Vector([T::int(1), T::int(0)]) };
  assume(nonzero(&z.0));
  let vec = |p: &P<T>| Vector(p.array.clone());
  let o = match form {
    0 => c.ccw_cmp_around_with(&z, p, q),
    1 => vec(c).ccw_cmp_around_with(&z, &vec(p), &vec(q)),
    2 => Orientation::ccw_cmp_around_with(&z, &c.array, &p.array, &q.array),
    3 => c.ccw_cmp_around(p, q),
    _ => vec(c).ccw_cmp_around(&vec(p), &vec(q)),
  };
  reach(tag(o));
  check(angle_is(&z.0, &sub(p, c), &sub(q, c), o), "order around a point");
}
fn sort_around<T: Scal>(n: usize) {
  let v = pts::<T>(n);
  for p in &v {
    assume(nonzero(&p.array));
  }
  let mut w: Vec<Vector<T, 2>> = v.iter().map(|p| Vector(p.array.clone())).collect();
  Vector::sort_around(&mut w);
  reach("done");
  let z = [T::int(1), T::int(0)];
  for i in 1..w.len() {
    check(angle_lt(&z, &w[i].0, &w[i - 1].0).not(), "vectors are not sorted by angle");
  }
  let w: Vec<P<T>> = w.into_iter().map(|v| Point::new(v.0)).collect();
  check(F::b(w.len() == v.len()), "length of the sorted slice");
  for p in &v {
    // every input vector occurs equally often before and after
    let count = |u: &[P<T>], k: usize| -> F {
      // at least k entries equal p
      let mut o = vec![];
      for m in 0..1u32 << u.len() {
        if m.count_ones() as usize == k {
          o.push(F::and((0..u.len()).filter(|i| m >> i & 1 == 1).map(|i| same(&u[i], p)).collect()));
        }
      }
      F::or(o)
    };
    for k in 1..=v.len() {
      check(count(&v, k).iff(count(&w, k)), "sorting is not a permutation");
    }
  }
}

// ---------------------------------------------------------------- order of points

fn lex<T: Scal>(a: &[T], b: &[T]) -> (F, F) {
  // (a < b, a == b)
  let mut less = vec![];
  let mut pre = vec![];
  for i in 0..a.len() {
    less.push(F::and(pre.iter().cloned().chain([lt(&a[i], &b[i])]).collect()));
    pre.push(eq(&a[i], &b[i]));
  }
  (F::or(less), F::and(pre))
}
fn order<T: Scal, const N: usize>() {
  let mk = |k: usize| Point::<T, N>::new(std::array::from_fn(|i| T::var(k * N + i)));
  let (a, b) = (mk(0), mk(1));
  let (less, same) = lex(&a.array, &b.array);
  let more = lex(&b.array, &a.array).0;
  let is = |o: Ordering| match o {
    Ordering::Less => less.clone(),
    Ordering::Equal => same.clone(),
    Ordering::Greater => more.clone(),
  };
  let expect = |b: bool, f: F, m: &str| check(if b { f } else { f.not() }, m);
  match choose(8) {
    0 => {
      let o = TotalOrd::total_cmp(&a, &b);
      reach(tag(o));
      check(is(o), "order of points")
    }
    1 => check(is(a.cmp(&b)), "order of points (Ord)"),
    2 => check(a.partial_cmp(&b).map_or(F::No, is), "order of points (PartialOrd)"),
    3 => {
      expect(a == b, same.clone(), "equality of points");
      expect(a != b, same.clone().not(), "inequality of points");
    }
    4 => {
      expect(a < b, less.clone(), "comparison of points");
      expect(a >= b, less.clone().not(), "comparison of points");
    }
    5 => {
      let (m, n) = (a.clone().total_min(b.clone()), a.clone().total_max(b.clone()));
      let w = |p: &Point<T, N>, q: &Point<T, N>| lex(&p.array, &q.array).1;
      check(F::or(vec![F::and(vec![less.clone(), w(&m, &a), w(&n, &b)]), F::and(vec![less.clone().not(), w(&m, &b), w(&n, &a)])]), "minimum and maximum of points")
    }
    6 => check(is(TotalOrd::total_cmp(&(&a, a.clone()), &(&b, b.clone()))), "order of pairs"),
    _ => {
      // pairs: the second component decides only on ties
      let o = TotalOrd::total_cmp(&(a.array[N - 1].clone(), 1u32), &(b.array[N - 1].clone(), 0u32));
      let (p, q) = (&a.array[N - 1], &b.array[N - 1]);
      check(if o == Ordering::Less { lt(p, q) } else { F::and(vec![lt(p, q).not(), F::b(o == Ordering::Greater)]) }, "order of pairs with ties")
    }
  }
}

// ---------------------------------------------------------------- location predicates

fn predicates<T: Scal>() {
  let v = pts::<T>(3);
  let (p, q, r) = (&v[0], &v[1], &v[2]);
  let d = vecv::<T>(6);
  let side = vcross(&d.0, &sub(q, p));
  match choose(6) {
    0 => {
      let o = Point::orient(p, q, r);
      reach("orient");
      check(ori(p, q, r, omask(o)), "orientation of three points");
      check(F::b(o.is_ccw() == (o == Orientation::CounterClockWise) && o.is_cw() == (o == Orientation::ClockWise) && o.is_colinear() == (o == Orientation::CoLinear)), "is_ccw / is_cw / is_colinear");
    }
    1 => check(side.sgn_in(omask(Point::orient_along_vector(p, &d, q))), "orientation along a vector"),
    2 => check(side.sgn_in(omask(Point::orient_along_direction(p, Direction::Vector(&d), q))), "orientation along a vector direction"),
    3 => check(ori(p, q, r, omask(Point::orient_along_direction(p, Direction::Through(q), r))), "orientation along a point direction"),
    4 => {
      let e = [-d.0[1].clone(), d.0[0].clone()];
      check(vcross(&e, &sub(q, p)).sgn_in(omask(Point::orient_along_perp_vector(p, &d, q))), "orientation along the rotated vector")
    }
    5 => check(vdot(&d.0, &sub(p, q)).sgn_in(mask(d.cmp_along(p, q))), "order along a vector"),
    _ => unreachable!(),
  }
}
fn distances<T: Scal>() {
  let v = pts::<T>(3);
  let (p, q, r) = (&v[0], &v[1], &v[2]);
  let dist = |a: &P<T>| vdot(&sub(a, p), &sub(a, p));
  let o = p.cmp_distance_to(q, r);
  reach(tag(o));
  check((dist(q) - dist(r)).sgn_in(mask(o)), "comparison of distances")
}
fn all_colinear<T: Scal>(n: usize) {
  let v = pts::<T>(n);
  let got = Point::all_colinear(&v);
  reach(if got { "colinear" } else { "not colinear" });
  check(if got { all_col(&v) } else { all_col(&v).not() }, if got { "points reported to be on one line that are not" } else { "collinear points not recognised" });
}

// ---------------------------------------------------------------- lines

fn line_point<T: Scal>(kinds: u8) {
  // variables 0..4 first line, 4..8 second line
  let (o1, o2) = (pt::<T>(0), pt::<T>(4));
  let (t1, t2) = (pt::<T>(2), pt::<T>(6));
  let (v1, v2) = (vecv::<T>(2), vecv::<T>(6));
  let l1 = if kinds & 1 == 0 { Line::new_through(&o1, &t1) } else { Line::new_directed(&o1, &v1) };
  let l2 = if kinds & 2 == 0 { Line::new_through(&o2, &t2) } else { Line::new_directed(&o2, &v2) };
  let d1 = if kinds & 1 == 0 { sub(&t1, &o1) } else { v1.0.clone() };
  let d2 = if kinds & 2 == 0 { sub(&t2, &o2) } else { v2.0.clone() };
  assume(F::and(vec![nonzero(&d1), nonzero(&d2)]));
  match l1.intersection_point(&l2) {
    None => {
      reach("none");
      check(vcross(&d1, &d2).sgn_in(ZERO), "no intersection point although the lines are not parallel")
    }
    Some(p) => {
      reach("point");
      check(vcross(&d1, &d2).sgn_in(NZ), "intersection point of parallel lines");
      check(vcross(&sub(&p, &o1), &d1).sgn_in(ZERO), "the intersection point is not on the first line");
      check(vcross(&sub(&p, &o2), &d2).sgn_in(ZERO), "the intersection point is not on the second line");
    }
  }
}
fn sos<T: Scal>(vector: bool, half: bool) {
  let v = pts::<T>(3);
  let (o, a, b) = (&v[0], &v[1], &v[2]);
  let (t, d) = (pt::<T>(6), vecv::<T>(6));
  let dir = if vector { Direction::Vector(&d) } else { Direction::Through(&t) };
  let dv = if vector { d.0.clone() } else { sub(&t, o) };
  assume(nonzero(&dv));
  let side = |p: &P<T>| if vector { vcross(&dv, &sub(p, o)) } else { cross(o, &t, p) };
  let line = Line::new(o, dir);
  let seg = |k: u64| match k {
    0 => LineSegmentView::from(a..b),
    1 => LineSegmentView::from(b..a),
    2 => LineSegmentView::new(EndPoint::Exclusive(a), EndPoint::Exclusive(b)),
    _ => LineSegmentView::new(EndPoint::Inclusive(b), EndPoint::Inclusive(a)),
  };
  let k = choose(6);
  let opposite = |m: u8| F::or(vec![F::and(vec![side(a).sgn_in(m), side(b).sgn_in(7 & !m)]), F::and(vec![side(b).sgn_in(m), side(a).sgn_in(7 & !m)])]);
  if !half {
    let l: LineSoS<'_, T> = line.into();
    let got = match k {
      4 => (&l).intersect(DirectedEdge { src: a, dst: b }),
      5 => (&l).intersect(DirectedEdge { src: b, dst: a }),
      _ => (&l).intersect(seg(k)),
    };
    reach(if got.is_some() { "crossing" } else { "none" });
    let want = opposite(POS | ZERO);
    check(if got.is_some() { want } else { want.not() }, if got.is_some() { "line reported to cross a segment it does not" } else { "line crossing missed" });
    return;
  }
  let l = match k % 3 {
    0 => HalfLineSoS::new(o, dir),
    1 if vector => HalfLineSoS::new_directed(o, &d),
    1 => HalfLineSoS::new_through(o, &t),
    _ => HalfLineSoS::from(LineSoS::from(line)),
  };
  let got = match k {
    4 => (&l).intersect(DirectedEdge { src: a, dst: b }),
    5 => (&l).intersect(DirectedEdge { src: b, dst: a }),
    _ => (&l).intersect(seg(k)),
  };
  let agree = |u: &T, w: &T| F::or(vec![F::and(vec![u.sgn_in(POS), w.sgn_in(POS)]), F::and(vec![u.sgn_in(NEG), w.sgn_in(NEG)])]);
  let front = |p: &P<T>| {
    let w = sub(p, o);
    F::and(vec![side(p).sgn_in(ZERO), F::or(vec![agree(&w[0], &dv[0]), agree(&w[1], &dv[1])])])
  };
  // right of the line, then left of the line: the crossing is in front of the origin
  let proper = |r: &P<T>, l: &P<T>| F::and(vec![side(r).sgn_in(NEG), side(l).sgn_in(POS), cross(o, r, l).sgn_in(POS)]);
  let crossing = F::or(vec![proper(a, b), proper(b, a)]);
  let touch = |s: u8| F::or(vec![F::and(vec![front(a), side(b).sgn_in(s)]), F::and(vec![front(b), side(a).sgn_in(s)])]);
  match got {
    None => {
      reach("none");
      check(F::or(vec![crossing, touch(POS), touch(NEG)]).not(), "half-line crossing missed")
    }
    Some(IHalfLineLineSegmentSoS::Crossing(lean)) => match lean {
      Orientation::CoLinear => {
        reach("crossing");
        check(crossing, "half-line reported to cross a segment it does not")
      }
      lean => {
        reach("touching");
        check(touch(omask(lean)), "half-line reported to touch a segment it does not, or on the wrong side")
      }
    },
  }
}

// ---------------------------------------------------------------- triangles

fn triangle_new<T: Scal>() {
  let v = pts::<T>(4);
  let [a, b, c, q] = [&v[0], &v[1], &v[2], &v[3]];
  let own = |i: &P<T>, j: &P<T>, k: &P<T>| [i.clone(), j.clone(), k.clone()];
  let unchecked = TriangleView::new_unchecked([a, b, c]);
  check(ori(a, b, c, omask(unchecked.orientation())), "orientation of a triangle");
  let ok = unchecked.validate().is_ok();
  reach(if ok { "accepted" } else { "rejected" });
  let want = |ok: bool, m: &str| check(if ok { ccw(a, b, c) } else { ccw(a, b, c).not() }, m);
  want(ok, "validation of a triangle");
  want(TriangleView::new([a, b, c]).is_ok(), "construction of a triangle view");
  let t = Triangle::new(own(a, b, c));
  want(t.is_ok(), "construction of a triangle");
  if let Ok(t) = &t {
    want(t.validate().is_ok(), "validation of an owned triangle");
  }
  let loc = |l: PointLocation, m: &str| {
    // oracle for either orientation of the corners
    let s = |m: u8| {
      let f = |m: u8| F::and(vec![ori(a, b, q, m), ori(b, c, q, m), ori(c, a, q, m)]);
      F::or(vec![F::and(vec![ccw(a, b, c), f(m)]), F::and(vec![cw(a, b, c), f((m & 2) | (m & 1) << 2 | m >> 2)])])
    };
    let (inside, closed) = (s(POS), s(POS | ZERO));
    check(
      match l {
        PointLocation::Inside => inside,
        PointLocation::OnBoundary => F::and(vec![closed, inside.not()]),
        PointLocation::Outside => closed.not(),
      },
      m,
    );
    reach(match l {
      PointLocation::Inside => "inside",
      PointLocation::OnBoundary => "boundary",
      PointLocation::Outside => "outside",
    });
  };
  if let Ok(t) = &t {
    loc(t.locate(q), "location in a triangle");
    loc(TriangleView::new([a, b, c]).unwrap().locate(q), "location in a triangle view");
  }
  assume(col(a, b, c).not());
  let (u, w) = (Triangle::new_ccw(own(a, b, c)), TriangleView::new_ccw([a, b, c]));
  check(F::b(u.validate().is_ok() && w.validate().is_ok()), "counter-clockwise construction");
  // Same corners: the corners are the only points seen as on-boundary from everywhere; compare
  // the location of an arbitrary point, and the corner set through box and area (job `measure`).
  loc(u.locate(q), "location in a triangle built from corners in any order");
  loc(w.locate(q), "location in a triangle view built from corners in any order");
}
fn triangle_measure<T: Scal>() {
  let v = pts::<T>(3);
  let [a, b, c] = [&v[0], &v[1], &v[2]];
  let t = TriangleView::new_unchecked([a, b, c]);
  let twice: T = t.signed_area_2x();
  check(eq(&twice, &cross(a, b, c)), "doubled signed area of a triangle");
  let area: T = t.signed_area();
  check(eq(&(area.clone() + area), &cross(a, b, c)), "signed area of a triangle");
  let boxed = |bb: (Point<T, 2>, Point<T, 2>)| {
    let (lo, hi) = bb;
    for i in 0..2 {
      let vals: Vec<&T> = v.iter().map(|p| &p.array[i]).collect();
      check(F::and(vals.iter().copied().map(|w| F::and(vec![le(&lo.array[i], w), le(w, &hi.array[i])])).collect()), "the bounding box misses a corner");
      check(F::and(vec![F::or(vals.iter().copied().map(|w| eq(&lo.array[i], w)).collect()), F::or(vals.iter().copied().map(|w| eq(&hi.array[i], w)).collect())]), "the bounding box is not tight");
    }
  };
  boxed(t.bounding_box());
  reach("measured");
  assume(col(a, b, c).not());
  let u = Triangle::new_ccw([a.clone(), b.clone(), c.clone()]);
  let w = TriangleView::new_ccw([a, b, c]);
  for t in [u.view(), w] {
    boxed(t.bounding_box());
    let twice: T = t.signed_area_2x();
    check(F::or(vec![eq(&twice, &cross(a, b, c)), eq(&twice, &cross(b, a, c))]), "area of a reoriented triangle");
    check(twice.sgn_in(POS), "area of a counter-clockwise triangle");
  }
}
fn triangle_sample<T: Scal + rand::distributions::uniform::SampleUniform>(draws: usize) {
  let v = pts::<T>(3);
  fresh_from(6, 2 * draws);
  let t = TriangleView::new_ccw([&v[0], &v[1], &v[2]]);
  let p = t.rejection_sampling(&mut SymRng::with_menu(vec![0], 0));
  reach("sampled");
  let o = |m: u8| F::and(vec![ori(&v[0], &v[1], &p, m), ori(&v[1], &v[2], &p, m), ori(&v[2], &v[0], &p, m)]);
  check(F::or(vec![o(POS | ZERO), o(NEG | ZERO)]), "the sampled point is outside of the triangle");
}
fn triangle_sample_ok<T: Scal + rand::distributions::uniform::SampleUniform>(draws: usize) {
  let v = pts::<T>(3);
  assume(col(&v[0], &v[1], &v[2]).not());
  triangle_sample::<T>(draws);
}

// ---------------------------------------------------------------- affine algebra

fn same_n<T: Scal, const N: usize>(a: &[T; N], b: &[T; N]) -> F {
  F::and((0..N).map(|i| eq(&a[i], &b[i])).collect())
}
fn operators<T: Scal, const N: usize>() {
  let arr = |k: usize| -> [T; N] { std::array::from_fn(|i| T::var(k * N + i)) };
  let (a, b, c) = (arr(0), arr(1), arr(2));
  let s = T::var(3 * N);
  let zip = |f: &dyn Fn(T, T) -> T| -> [T; N] { std::array::from_fn(|i| f(a[i].clone(), b[i].clone())) };
  let (sum, diff) = (zip(&|u, w| u + w), zip(&|u, w| u - w));
  let scaled: [T; N] = std::array::from_fn(|i| a[i].clone() * s.clone());
  let (va, vb, vc) = (Vector(a.clone()), Vector(b.clone()), Vector(c.clone()));
  let (pa, pb) = (Point::new(a.clone()), Point::new(b.clone()));
  fn vview<T, const N: usize>(p: &Point<T, N>) -> VectorView<'_, T, N> {
    VectorView::from(p)
  }
  let ck = |g: &[T; N], w: &[T; N], m: &str| check(same_n(g, w), m);
  ck(&(va.clone() + vb.clone()).0, &sum, "vector + vector");
  ck(&(&va + &vb).0, &sum, "&vector + &vector");
  ck(&(vview(&pa) + vview(&pb)).0, &sum, "view + view");
  let mut m = va.clone();
  m += vb.clone();
  ck(&m.0, &sum, "vector += vector");
  ck(&(&va - &vb).0, &diff, "&vector - &vector");
  ck(&(-va.clone()).0, &std::array::from_fn(|i| T::int(0) - a[i].clone()), "-vector");
  ck(&(va.clone() * s.clone()).0, &scaled, "vector * scalar");
  ck(&(vview(&pa) * s.clone()).0, &scaled, "view * scalar");
  let total: Vector<T, N> = vec![va.clone(), vb.clone(), vc.clone()].into_iter().sum();
  ck(&total.0, &std::array::from_fn(|i| a[i].clone() + b[i].clone() + c[i].clone()), "sum of vectors");
  let none: Vector<T, N> = Vec::new().into_iter().sum();
  ck(&none.0, &std::array::from_fn(|_| T::int(0)), "empty sum");
  ck(&(&pa + &vb).array, &sum, "&point + &vector");
  ck(&(pa.clone() + vb.clone()).array, &sum, "point + vector");
  ck(&(pa.clone() + &vb).array, &sum, "point + &vector");
  let mut m = pa.clone();
  m += vb.clone();
  ck(&m.array, &sum, "point += vector");
  let mut m = pa.clone();
  m += &vb;
  ck(&m.array, &sum, "point += &vector");
  ck(&(&pa - &pb).0, &diff, "&point - &point");
  ck(&(pa.clone() - pb.clone()).0, &diff, "point - point");
  let sq: T = va.squared_magnitude();
  check(eq(&sq, &a.iter().fold(T::int(0), |u, w| u + w.clone() * w.clone())), "squared magnitude");
  let d: T = pa.squared_euclidean_distance(&pb);
  check(eq(&d, &diff.iter().fold(T::int(0), |u, w| u + w.clone() * w.clone())), "squared distance");
  ck(&Point::<T, N>::zero().array, &std::array::from_fn(|_| T::int(0)), "zero point");
  ck(&pa.map(|u| u * s.clone()).array, &scaled, "map of a point");
  ck(&va.map(|u| u * s.clone()).0, &scaled, "map of a vector");
  ck(&pa.cast::<T>().array, &a, "cast of a point");
  ck(&va.cast::<T>().0, &a, "cast of a vector");
  ck(&Vector::from(pa.clone()).0, &a, "vector of a point");
  ck(&Point::from(va.clone()).array, &a, "point of a vector");
  ck(&pa.as_vec().0, &a, "as_vec");
  for i in 0..N {
    check(F::and(vec![eq(&pa[i], &a[i]), eq(&va[i], &a[i])]), "index");
  }
  reach("done");
  assume(s.sgn_in(NZ));
  for g in [(va.clone() / s.clone()).0, (vview(&pa) / s.clone()).0] {
    for i in 0..N {
      check(eq(&(g[i].clone() * s.clone()), &a[i]), "vector / scalar");
    }
  }
}
/// one of the public constructors, and its action written out
fn transform<T: Scal, const N: usize>(kind: u64, base: usize) -> (Transform<T, N>, Box<dyn Fn(&[T; N]) -> [T; N]>) {
  let v: [T; N] = std::array::from_fn(|i| T::var(base + i));
  match kind {
    0 => (Transform::translate(Vector(v.clone())), Box::new(move |p| std::array::from_fn(|i| p[i].clone() + v[i].clone()))),
    1 => (Transform::scale(Vector(v.clone())), Box::new(move |p| std::array::from_fn(|i| p[i].clone() * v[i].clone()))),
    _ => (Transform::uniform_scale(v[0].clone()), Box::new(move |p| std::array::from_fn(|i| p[i].clone() * v[0].clone()))),
  }
}
fn transforms<T: Scal, const N: usize>() {
  let p: [T; N] = std::array::from_fn(|i| T::var(i));
  let (a, fa) = transform::<T, N>(choose(3), N);
  let (b, fb) = transform::<T, N>(choose(3), 2 * N);
  let (c, fc) = transform::<T, N>(choose(3), 3 * N);
  let (pp, vv) = (Point::new(p.clone()), Vector(p.clone()));
  let ck = |g: [T; N], w: &[T; N], m: &str| check(same_n(&g, w), m);
  let w = fa(&p);
  ck((&a * &pp).array, &w, "&transform * &point");
  ck((&a * pp.clone()).array, &w, "&transform * point");
  ck((a.clone() * pp.clone()).array, &w, "transform * point");
  ck((&a * &vv).0, &w, "&transform * &vector");
  ck((&a * vv.clone()).0, &w, "&transform * vector");
  ck((a.clone() * &vv).0, &w, "transform * &vector");
  let w = fa(&fb(&p));
  ck((&(a.clone() * b.clone()) * &pp).array, &w, "composition");
  ck((&(&a * &b) * &pp).array, &w, "composition of references");
  let w = fa(&fb(&fc(&p)));
  ck((&((&a * &b) * c.clone()) * &pp).array, &w, "composition of three");
  ck((&(a * (b * c)) * &pp).array, &w, "composition of three");
  reach("done");
}
fn transform_polygon<T: Scal>(n: usize) {
  let v = pts::<T>(n);
  let p = Polygon::new_unchecked(v.clone());
  let (a, fa) = transform::<T, 2>(choose(3), 2 * n);
  let (b, fb) = transform::<T, 2>(choose(3), 2 * n + 2);
  let t = &a * &b;
  let want: Vec<P<T>> = v.iter().map(|q| Point::new(fa(&fb(&q.array)))).collect();
  let got = match choose(4) {
    0 => &t * &p,
    1 => &t * p,
    2 => t * p,
    _ => t * &p,
  };
  let w: Vec<P<T>> = got.iter_boundary().map(|c| c.point().clone()).collect();
  reach("done");
  check(seq_same(&want, &w), "transformed polygon");
}

fn names(n: usize) -> Vec<String> {
  (0..n).map(|i| format!("v{i}")).collect()
}
fn scal(name: &str, n: usize) -> Spec {
  let v = names(n);
  Spec::new(name).scalars(&v.iter().map(|s| s.as_str()).collect::<Vec<_>>()).mode(Mode::Nra)
}
fn pts_spec(name: &str, n: usize) -> Spec {
  Spec::new(name).points(n).with_axes()
}

pub fn prop(prop: &str, th: bool) -> Option<Check> {
  let mut jobs: Vec<Job> = vec![];
  let functions;
  match prop {
    "G01" => {
      for form in 0..3u8 {
        jobs.push(job!(pts_spec(&format!("around/{form}"), 3).vector("z", true, true).bound("all centres, start directions and pairs of points"), around, form; "less", "equal", "greater"));
      }
      for form in 3..5u8 {
        jobs.push(job!(pts_spec(&format!("around-x/{form}"), 3).bound("all centres and pairs of points, start direction +x"), around, form; "less", "equal", "greater"));
      }
      for n in 0..=(if th { 5 } else { 4 }) {
        jobs.push(job!(pts_spec(&format!("sort/{n}"), n).with_origin().bound(&format!("all slices of {n} non-zero vectors")), sort_around, n; "done"));
      }
      functions = vec!["Orientation::ccw_cmp_around_with", "Point::ccw_cmp_around(_with)", "Vector::ccw_cmp_around(_with)", "Vector::sort_around"];
    }
    "G02" => {
      fn o1<T: Scal>() {
        order::<T, 1>()
      }
      fn o2<T: Scal>() {
        order::<T, 2>()
      }
      fn o3<T: Scal>() {
        order::<T, 3>()
      }
      jobs.push(job!(scal("order/1", 2).bound("all pairs of points in 1 dimension"), o1; "less", "equal", "greater"));
      jobs.push(job!(scal("order/2", 4).bound("all pairs of points in 2 dimensions"), o2; "less", "equal", "greater"));
      jobs.push(job!(scal("order/3", 6).bound("all pairs of points in 3 dimensions"), o3; "less", "equal", "greater"));
      functions = vec!["TotalOrd, Ord, PartialOrd, PartialEq for Point", "TotalOrd for references and pairs", "TotalOrd::total_min/total_max"];
    }
    "G06" => {
      for k in 0..4u8 {
        jobs.push(job!(scal(&format!("lines/{k}"), 8).bound("all pairs of lines (through two points or along a vector)"), line_point, k; "none", "point"));
      }
      functions = vec!["Line::intersection_point"];
    }
    "G07" => {
      for (vector, half) in [(false, false), (true, false), (false, true), (true, true)] {
        let name = format!("{}/{}", if half { "half-line" } else { "line" }, if vector { "vector" } else { "through" });
        let s = pts_spec(&name, 3).bound("all lines / half-lines and segments, every way to store the segment");
        let s = if vector { s.vector("d", true, false) } else { s.points(1) };
        let mut j = job!(s, sos, vector, half; "none", "crossing");
        if half {
          j.must_reach.push("touching");
        }
        jobs.push(j);
      }
      functions = vec!["Intersects<LineSegmentView>, Intersects<DirectedEdge> for LineSoS and HalfLineSoS"];
    }
    "G08" => {
      jobs.push(job!(pts_spec("locate", 4).bound("all corner triples and query points"), triangle_new; "accepted", "rejected", "inside", "boundary", "outside"));
      jobs.push(job!(pts_spec("measure", 3).bound("all corner triples"), triangle_measure; "measured"));
      for d in 1..=(if th { 3 } else { 2 }) {
        jobs.push(job!(pts_spec(&format!("sample/{d}"), 3 + d).bound(&format!("all corner triples, all random streams accepted within {d} draws")), triangle_sample_ok, d; "sampled"));
      }
      functions = vec!["Triangle::{new,new_ccw,validate,locate,view}", "TriangleView::{new,new_ccw,new_unchecked,validate,orientation,locate,signed_area,signed_area_2x,bounding_box,rejection_sampling}"];
    }
    "G09" => {
      fn op1<T: Scal>() {
        operators::<T, 1>()
      }
      fn op2<T: Scal>() {
        operators::<T, 2>()
      }
      fn op3<T: Scal>() {
        operators::<T, 3>()
      }
      fn t1<T: Scal>() {
        transforms::<T, 1>()
      }
      fn t2<T: Scal>() {
        transforms::<T, 2>()
      }
      fn t3<T: Scal>() {
        transforms::<T, 3>()
      }
      jobs.push(job!(scal("operators/1", 4).bound("all points, vectors and scalars, 1 dimension"), op1; "done"));
      jobs.push(job!(scal("operators/2", 7).bound("all points, vectors and scalars, 2 dimensions"), op2; "done"));
      jobs.push(job!(scal("operators/3", 10).bound("all points, vectors and scalars, 3 dimensions"), op3; "done"));
      jobs.push(job!(scal("transforms/1", 4).bound("all products of up to 3 transforms, 1 dimension"), t1; "done"));
      jobs.push(job!(scal("transforms/2", 8).bound("all products of up to 3 transforms, 2 dimensions"), t2; "done"));
      jobs.push(job!(scal("transforms/3", 12).bound("all products of up to 3 transforms, 3 dimensions"), t3; "done"));
      for n in 3..=4usize {
        jobs.push(job!(scal(&format!("polygon/{n}"), 2 * n + 4).bound("all polygons of 3 or 4 vertices, products of two transforms"), transform_polygon, n; "done"));
      }
      functions = vec!["Transform::{translate,scale,uniform_scale}, Mul for Transform", "Matrix", "Add/Sub/Mul/Div/Neg/Sum/AddAssign for Point, Vector, VectorView", "map, cast, conversions"];
    }
    "G10" => {
      jobs.push(job!(pts_spec("predicates", 3).vector("d", true, true).bound("all points and vectors"), predicates; "orient"));
      jobs.push(job!(scal("distances", 6).bound("all points"), distances; "less", "equal", "greater"));
      for n in 0..=(if th { 6 } else { 5 }) {
        let mut j = job!(pts_spec(&format!("all-colinear/{n}"), n).bound(&format!("all lists of {n} points")), all_colinear, n; "colinear");
        if n >= 3 {
          j.must_reach.push("not colinear");
        }
        jobs.push(j);
      }
      functions = vec!["Orientation::{new,along_vector,along_perp_vector}", "Point::{orient,orient_along_*,all_colinear,cmp_distance_to}", "Vector::cmp_along"];
    }
    _ => return None,
  }
  Some(Check { jobs, functions, assumptions: vec![] })
}
