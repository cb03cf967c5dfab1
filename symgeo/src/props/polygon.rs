use super::*;
use crate::geo::*;
use crate::scal::*;
use rgeometry::data::*;
use rgeometry::{Error, Orientation};
use std::ops::Bound;

pub fn ring<T: Scal>(p: &Polygon<T>) -> Vec<P<T>> {
  p.iter_boundary().map(|c| c.point().clone()).collect()
}

/// Simple counter-clockwise polygon on the first n points, stored either in boundary order or
/// (as a clockwise list turned around by the library) in reversed order. Returns the ring too.
pub fn some_polygon<T: Scal>(n: usize, storage: bool) -> (Polygon<T>, Vec<P<T>>) {
  let v = pts::<T>(n);
  if storage && choose(2) == 1 {
    assume(F::and(vec![simple(&v), ring_ccw(&v, NEG)]));
    let mut p = Polygon::new_unchecked(v.clone());
    let _ = p.ensure_ccw();
    let w = ring(&p);
    (p, w)
  } else {
    assume(simple_ccw(&v));
    (Polygon::new_unchecked(v.clone()), v)
  }
}

fn locate<T: Scal>(n: usize, storage: bool) {
  let (poly, v) = some_polygon::<T>(n, storage);
  let q = pt::<T>(2 * n);
  located(poly.locate(&q), &q, &v);
}
pub fn located<T: Scal>(l: PointLocation, q: &P<T>, v: &[P<T>]) {
  match l {
    PointLocation::OnBoundary => {
      reach("boundary");
      check(on_boundary(q, v), "on-boundary reported for a point off the boundary")
    }
    PointLocation::Inside => {
      reach("inside");
      check(inside(q, v), "inside reported for a point not in the interior")
    }
    PointLocation::Outside => {
      reach("outside");
      check(F::and(vec![on_boundary(q, v).not(), inside(q, v).not()]), "outside reported for a point of the polygon")
    }
  }
}

fn pnew<T: Scal>(n: usize) {
  let v = pts::<T>(n);
  match Polygon::new(v.clone()) {
    Ok(p) => {
      reach("accepted");
      let w = ring(&p);
      check(simple_ccw(&w), "accepted a list that is not a simple ring");
      check(
        F::or(vec![
          F::and(vec![ring_ccw(&v, POS), rotation(&v, &w)]),
          F::and(vec![ring_ccw(&v, NEG), rotation(&reversed(&v), &w)]),
        ]),
        "the ring was changed",
      );
    }
    Err(e) => {
      reach("rejected");
      check(F::or(vec![F::b(n < 3), simple(&v).not()]), "rejected a simple polygon");
      if n < 3 {
        check(F::b(e == Error::InsufficientVertices), "wrong error for too few vertices");
      }
    }
  }
}
fn validate<T: Scal>(n: usize, weak: bool) {
  let v = pts::<T>(n);
  let p = Polygon::new_unchecked(v.clone());
  let ok = if weak { p.validate_weakly().is_ok() } else { p.validate().is_ok() };
  if ok {
    reach("accepted");
    if !weak {
      check(simple_ccw(&v), "validated a ring that is not simple and counter-clockwise");
    } else {
      let mut o = vec![];
      for i in 0..n {
        for j in 0..i {
          let (a, b, c, d) = (&v[i], &v[(i + 1) % n], &v[j], &v[(j + 1) % n]);
          o.push(super::seg::meet(&(a, true, b, false), &(c, true, d, false)).not());
        }
      }
      check(F::and(o), "weakly validated a ring with crossing or overlapping edges");
    }
  } else {
    reach("rejected");
    check(F::or(vec![F::b(n < 3), simple_ccw(&v).not()]), "rejected a simple counter-clockwise ring");
  }
}

fn area<T: Scal>(n: usize, storage: bool) {
  let (p, v) = any_ring::<T>(0, n, storage);
  let want = area2(&v);
  let a2: T = p.signed_area_2x();
  let a: T = p.signed_area();
  check(eq(&a2, &want), "doubled signed area");
  check(eq(&(a.clone() + a), &want), "signed area");
}
fn centroid<T: Scal>(n: usize, storage: bool) {
  let (p, v) = any_ring::<T>(0, n, storage);
  // fan decomposition from the last vertex (independent of the shoelace formula)
  let o = &v[n - 1];
  let (mut s, mut sx, mut sy) = (T::int(0), T::int(0), T::int(0));
  for i in 0..n - 2 {
    let w = cross(o, &v[i], &v[i + 1]);
    sx = sx + (x(o).clone() + x(&v[i]).clone() + x(&v[i + 1]).clone()) * w.clone();
    sy = sy + (y(o).clone() + y(&v[i]).clone() + y(&v[i + 1]).clone()) * w.clone();
    s = s + w;
  }
  assume(s.sgn_in(NEG | POS));
  let c = p.centroid();
  reach("centroid");
  let d = s * T::int(3);
  check(eq(&(x(&c).clone() * d.clone()), &sx), "centroid x");
  check(eq(&(y(&c).clone() * d), &sy), "centroid y");
}
pub fn tight_box<T: Scal>(lo: &P<T>, hi: &P<T>, v: &[P<T>]) {
  check(F::and(v.iter().flat_map(|p| vec![le(x(lo), x(p)), le(x(p), x(hi)), le(y(lo), y(p)), le(y(p), y(hi))]).collect()), "bounding box misses a vertex");
  for (c, f) in [(x(lo), 0), (x(hi), 0), (y(lo), 1), (y(hi), 1)] {
    check(F::or(v.iter().map(|p| eq(c, &p.array[f])).collect()), "bounding box is not tight");
  }
}
fn bbox<T: Scal>(n: usize, storage: bool) {
  let (p, v) = any_ring::<T>(0, n, storage);
  let (lo, hi) = p.bounding_box();
  tight_box(&lo, &hi, &v);
}

fn orientation<T: Scal>(n: usize) {
  let v = pts::<T>(n);
  assume(simple(&v));
  let mut p = Polygon::new_unchecked(v.clone());
  match p.orientation() {
    Orientation::CounterClockWise => {
      reach("ccw");
      check(ring_ccw(&v, POS), "counter-clockwise reported for a clockwise ring")
    }
    Orientation::ClockWise => {
      reach("cw");
      check(ring_ccw(&v, NEG), "clockwise reported for a counter-clockwise ring")
    }
    Orientation::CoLinear => check(F::No, "collinear reported for a simple ring"),
  }
  let r = p.ensure_ccw();
  check(F::b(r.is_ok()), "ensure_ccw failed on a simple ring");
  let w = ring(&p);
  check(
    F::or(vec![
      F::and(vec![ring_ccw(&v, POS), seq_same(&v, &w)]),
      F::and(vec![ring_ccw(&v, NEG), rotation(&reversed(&v), &w)]),
    ]),
    "ensure_ccw did not keep or reverse the ring",
  );
  consistent(&p, n);
  check(F::b(p.ensure_ccw().is_ok()), "second ensure_ccw failed");
  check(seq_same(&w, &ring(&p)), "second ensure_ccw changed the ring");
}
/// identifiers, positions and cursors agree with each other
fn consistent<T: Scal>(p: &Polygon<T>, n: usize) {
  check(F::b(p.boundary_slice().len() == n), "ring length");
  for c in p.iter_boundary() {
    let id = c.point_id();
    check(F::b(p.cursor(id) == c), "cursor of a point id");
    check(same(p.point(id), c.point()), "point of a point id");
    check(F::b(p.cursor(id).next() == c.next() && p.cursor(id).prev() == c.prev()), "neighbours");
  }
}
fn flat<T: Scal>(n: usize) {
  let v = pts::<T>(n);
  assume(all_col(&v));
  let mut p = Polygon::new_unchecked(v.clone());
  check(F::b(p.ensure_ccw().is_err()), "ensure_ccw accepted a flat ring");
  reach("flat");
  check(seq_same(&v, &ring(&p)), "the ring was changed");
  check(F::b(p.orientation() == Orientation::CoLinear), "orientation of a flat ring");
}

/// polygon with n independent symbolic points, stored in order or reversed by the library
fn any_ring<T: Scal>(off: usize, n: usize, rev: bool) -> (Polygon<T>, Vec<P<T>>) {
  let v: Vec<P<T>> = (0..n).map(|i| pt::<T>(2 * (off + i))).collect();
  if rev && choose(2) == 1 {
    assume(simple(&v));
    assume(ring_ccw(&v, NEG));
    let mut p = Polygon::new_unchecked(v.clone());
    match p.ensure_ccw() {
      Ok(()) => {
        let w = p.boundary_slice().iter().map(|i| v[i.usize()].clone()).collect();
        (p, w)
      }
      Err(_) => {
        check(F::No, "ensure_ccw failed on a clockwise simple ring");
        unreachable!()
      }
    }
  } else {
    (Polygon::new_unchecked(v.clone()), v)
  }
}
fn walk<T: Scal>(n: usize, rev: bool) {
  let (p, w) = any_ring::<T>(0, n, rev);
  reach("walk");
  consistent(&p, n);
  let at = |k: usize| w[k % n].clone();
  // a sub-range of the boundary: start index and number of elements
  let kind = choose(4);
  let start = if kind == 0 { 0 } else { choose(n as u64) as usize };
  let ids = p.boundary_slice().to_vec();
  let (mut it, len) = match kind {
    0 => (p.iter_boundary(), n),
    1 => (p.cursor(ids[start]).to(Bound::Unbounded), n),
    2 => {
      let k = choose(n as u64) as usize;
      (p.cursor(ids[start]).to(Bound::Included(p.cursor(ids[(start + k) % n]))), k + 1)
    }
    _ => {
      let k = 1 + choose(n as u64 - 1) as usize;
      (p.cursor(ids[start]).to(Bound::Excluded(p.cursor(ids[(start + k) % n]))), k)
    }
  };
  let (mut lo, mut hi) = (0, len);
  for _ in 0..len + 2 {
    let left = hi - lo;
    check(F::b(it.len() == left && it.size_hint() == (left, Some(left))), "remaining length of a boundary iterator");
    let back = choose(2) == 1;
    let got = if back { it.next_back() } else { it.next() };
    match got {
      None => {
        reach("end");
        check(F::b(left == 0), "boundary iterator ended early")
      }
      Some(c) => {
        reach("item");
        check(F::b(left > 0), "boundary iterator yields too many items");
        let k = if back { hi - 1 } else { lo };
        check(same(c.point(), &at(start + k)), "boundary iterator visits the wrong vertex");
        check(same(c.next().point(), &at(start + k + 1)), "next of a cursor");
        check(same(c.prev().point(), &at(start + k + n - 1)), "prev of a cursor");
        if back {
          hi -= 1
        } else {
          lo += 1
        }
      }
    }
  }
}
fn edges<T: Scal>(n: usize) {
  let (p, w) = any_ring::<T>(0, n, true);
  let e: Vec<_> = p.iter_boundary_edges().collect();
  check(F::b(e.len() == n), "number of edges");
  for i in 0..n {
    check(same(e[i].src, &w[i]), "edge source");
    check(same(e[i].dst, &w[(i + 1) % n]), "edge destination");
  }
  let ids = p.boundary_slice().to_vec();
  for i in 0..n {
    for (a, b) in [(i, (i + 1) % n), ((i + 1) % n, i)] {
      let d = p.direct(IndexEdge::new(ids[a], ids[b]));
      check(F::b(d.src == ids[i] && d.dst == ids[(i + 1) % n]), "direction of an index edge");
    }
  }
  reach("edges");
}
fn maps<T: Scal>(n: usize) {
  let (p, w) = any_ring::<T>(0, n, true);
  let f = |v: T| v.clone() * T::int(3) + T::int(1);
  let g = |q: P<T>| Point::new([y(&q).clone() - T::int(2), x(&q).clone()]);
  let want_f: Vec<P<T>> = w.iter().map(|q| Point::new([f(x(q).clone()), f(y(q).clone())])).collect();
  let want_g: Vec<P<T>> = w.iter().cloned().map(g).collect();
  let ids = p.boundary_slice().to_vec();
  let a = p.clone().map(f);
  let b = p.clone().map_points(g);
  let c: Polygon<T> = p.clone().cast();
  let mut d = p.clone();
  for q in d.iter_mut() {
    *q = g(q.clone());
  }
  for (poly, want) in [(&a, &want_f), (&b, &want_g), (&c, &w), (&d, &want_g)] {
    consistent(poly, n);
    check(seq_same(&ring(poly), want), "mapped ring");
    check(F::b(poly.boundary_slice() == &ids[..]), "vertex identifiers changed");
  }
  let it: Vec<P<T>> = p.iter().cloned().collect();
  check(F::and(vec![F::b(it.len() == n), F::and((0..n).map(|i| same(&it[ids[i].usize()], &w[i])).collect())]), "storage iteration");
  reach("maps");
}
fn equality<T: Scal>(n: usize, m: usize) {
  let (p, v) = any_ring::<T>(0, n, true);
  let (q, w) = any_ring::<T>(n, m, true);
  let r = p.equals(&q);
  reach(if r { "equal" } else { "different" });
  let e = if n == m { rotation(&v, &w) } else { F::No };
  check(if r { e } else { e.not() }, if r { "different rings reported equal" } else { "equal rings reported different" });
}
fn self_equality<T: Scal>(n: usize) {
  let v = pts::<T>(n);
  let k = choose(n as u64) as usize;
  let p = Polygon::new_unchecked(v.clone());
  check(F::b(p.equals(&Polygon::new_unchecked(rotated(&v, k)))), "a rotated ring is not equal");
  reach("equal");
}

pub fn some_convex<T: Scal>(n: usize, storage: bool) -> (PolygonConvex<T>, Vec<P<T>>) {
  let v = pts::<T>(n);
  let mut w = v.clone();
  let mut p = Polygon::new_unchecked(v.clone());
  if storage && choose(2) == 1 {
    assume(strictly_convex(&reversed(&v)));
    let _ = p.ensure_ccw();
    w = ring(&p);
  } else {
    assume(strictly_convex(&v));
  }
  (PolygonConvex::new_unchecked(p), w)
}
fn convex_locate<T: Scal>(n: usize, storage: bool) {
  let (c, v) = some_convex::<T>(n, storage);
  let q = pt::<T>(2 * n);
  located(c.locate(&q), &q, &v);
}
fn convex_validate<T: Scal>(n: usize) {
  let v = pts::<T>(n);
  if PolygonConvex::new_unchecked(Polygon::new_unchecked(v.clone())).validate().is_ok() {
    reach("accepted");
    check(strictly_convex(&v), "validated a ring that is not strictly convex");
  } else {
    reach("rejected");
    check(strictly_convex(&v).not(), "rejected a strictly convex ring");
  }
}

fn ear<T: Scal>(n: usize, storage: bool) {
  let (p, v) = some_polygon::<T>(n, storage);
  let k = choose(n as u64) as usize;
  let c = p.cursor(p.boundary_slice()[k]);
  let (a, b, d) = (&v[(k + n - 1) % n], &v[k], &v[(k + 1) % n]);
  match c.orientation() {
    Orientation::CounterClockWise => check(ccw(a, b, d), "corner orientation"),
    Orientation::ClockWise => check(cw(a, b, d), "corner orientation"),
    Orientation::CoLinear => check(col(a, b, d), "corner orientation"),
  }
  check(if c.is_colinear() { col(a, b, d) } else { col(a, b, d).not() }, "is_colinear");
  let tri = [a.clone(), b.clone(), d.clone()];
  let mut want = vec![ccw(a, b, d)];
  for i in 2..n - 1 {
    let q = &v[(k + i) % n];
    want.push(F::or((0..3).map(|j| cw(&tri[j], &tri[(j + 1) % 3], q)).collect()));
  }
  let want = F::and(want);
  if c.is_ear() {
    reach("ear");
    check(want, "ear reported for a corner that is not an ear");
  } else {
    reach("not an ear");
    check(want.not(), "an ear was not recognised");
  }
}

fn sp(name: &str, n: usize, what: &str) -> Spec {
  Spec::new(&format!("{name}/{n}")).points(n).with_axes().bound(&format!("{what}, n = {n}, real coordinates"))
}

pub fn prop(prop: &str, th: bool) -> Option<Check> {
  let ns = |a: usize, q: usize, t: usize| a..=(if th { t } else { q });
  let mut jobs = vec![];
  let functions;
  match prop {
    "P01" => {
      for n in ns(1, 5, 5) {
        let r: Vec<&str> = if n < 3 { vec!["rejected"] } else { vec!["accepted", "rejected"] };
        let mut j = job!(sp("new", n, "all lists of n points"), pnew, n;);
        j.must_reach = r.clone();
        jobs.push(j);
        let mut j = job!(sp("validate", n, "all rings of n points"), validate, n, false;);
        j.must_reach = r.clone();
        jobs.push(j);
        let mut j = job!(sp("weak", n, "all rings of n points"), validate, n, true;);
        j.must_reach = r;
        jobs.push(j);
      }
      if th {
        jobs.push(job!(sp("new", 6, "all lists of n points").max_paths(3_000_000), pnew, 6; "accepted", "rejected"));
      }
      functions = vec!["Polygon::new", "Polygon::validate", "Polygon::validate_weakly", "Polygon::ensure_ccw", "segment_intersections"];
    }
    "P02" => {
      for n in ns(3, 4, 5) {
        jobs.push(job!(sp("locate", n, "all simple counter-clockwise n-gons and query points").points(1), locate, n, false; "boundary", "inside", "outside"));
      }
      jobs.push(job!(sp("locate-reversed", 3, "as locate, both storage orders").points(1), locate, 3, true; "boundary", "inside", "outside"));
      functions = vec!["Polygon::locate", "DirectedEdge::contains", "HalfLineSoS::intersect"];
    }
    "P03" => {
      for n in ns(3, 6, 9) {
        let st = n <= if th { 5 } else { 4 };
        let w = if st { "all rings, and simple rings reversed by the library" } else { "all rings" };
        jobs.push(job!(sp("area", n, w), area, n, st;));
        jobs.push(job!(sp("centroid", n, &format!("{w}, non-zero area")), centroid, n, st; "centroid"));
      }
      for n in ns(1, 5, 6) {
        jobs.push(job!(sp("bbox", n, "all rings; up to 4 vertices also simple rings reversed by the library"), bbox, n, n >= 3 && n <= 4;));
      }
      functions = vec!["Polygon::signed_area", "Polygon::signed_area_2x", "Polygon::centroid", "Polygon::bounding_box"];
    }
    "P04" => {
      for n in ns(3, 6, 7) {
        jobs.push(job!(sp("orientation", n, "all simple rings"), orientation, n; "ccw", "cw"));
        jobs.push(job!(sp("flat", n, "all rings on one line"), flat, n; "flat"));
      }
      functions = vec!["Polygon::orientation", "Polygon::ensure_ccw", "Polygon::vertices_reverse"];
    }
    "P05" => {
      for n in ns(3, 5, 6) {
        jobs.push(job!(sp("walk", n, "all rings, all interleavings of next and next_back, all sub-ranges"), walk, n, n < if th { 6 } else { 5 }; "walk", "item", "end"));
        jobs.push(job!(sp("edges", n, "all rings"), edges, n; "edges"));
        jobs.push(job!(sp("maps", n, "all rings"), maps, n; "maps"));
        jobs.push(job!(sp("rotated", n, "all rings, all rotations"), self_equality, n; "equal"));
      }
      jobs.push(job!(sp("equals", 6, "all pairs of 3-rings"), equality, 3, 3; "equal", "different"));
      jobs.push(job!(sp("equals", 7, "all pairs of a 3-ring and a 4-ring"), equality, 3, 4; "different"));
      if th {
        jobs.push(job!(sp("equals", 8, "all pairs of 4-rings"), equality, 4, 4; "equal", "different"));
      }
      functions = vec!["Polygon::{iter_boundary,iter_boundary_edges,cursor,point,equals,map,map_points,cast,iter,iter_mut,direct}", "Cursor::{next,prev,to}", "CursorIter::{next,next_back,len}"];
    }
    "P08" => {
      for n in ns(3, 6, 7) {
        jobs.push(job!(sp("convex-locate", n, "all strictly convex n-gons and query points").points(1), convex_locate, n, true; "boundary", "inside", "outside"));
      }
      for n in ns(3, 5, 5) {
        jobs.push(job!(sp("convex-validate", n, "all rings"), convex_validate, n; "accepted", "rejected"));
      }
      functions = vec!["PolygonConvex::locate", "PolygonConvex::validate"];
    }
    "P10" => {
      for n in ns(3, 5, 6) {
        let mut j = job!(sp("ear", n, "all simple n-gons, all corners"), ear, n, true; "ear");
        if n > 3 {
          j.must_reach.push("not an ear");
        }
        jobs.push(j);
      }
      functions = vec!["Cursor::is_ear", "Cursor::orientation", "Cursor::is_colinear", "TriangleView::locate"];
    }
    _ => return None,
  }
  Some(Check { jobs, functions, assumptions: vec!["polygons without holes (the only ones the public API can build)"] })
}
