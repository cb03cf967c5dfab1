//! Triangulation.
use super::polygon::some_polygon;
use super::*;
use crate::geo::*;
use crate::scal::*;
use rgeometry::algorithms::triangulation::earclip::*;
use rgeometry::data::*;
use std::collections::BTreeMap;

/// `tris` partitions the polygon: n-2 counter-clockwise triangles over the ring's own vertices whose
/// directed edges, cancelling opposite pairs, are exactly the ring's edges. Then the indicator
/// functions of the triangles add up to the winding number of the ring, i.e. to the indicator of
/// the polygon: they neither overlap nor leave gaps nor stick out.
fn partition<T: Scal>(tris: impl Iterator<Item = (PointId, PointId, PointId)>, p: &Polygon<T>) {
  let ids = p.boundary_slice().to_vec();
  let n = ids.len();
  let mut chain: BTreeMap<(usize, usize), i32> = BTreeMap::new();
  let mut add = |a: PointId, b: PointId, k: i32| {
    let (a, b) = (a.usize(), b.usize());
    if a < b {
      *chain.entry((a, b)).or_default() += k
    } else {
      *chain.entry((b, a)).or_default() -= k
    }
  };
  let mut count = 0;
  let mut ccws = vec![];
  for (a, b, c) in tris {
    count += 1;
    if count > n {
      break;
    }
    for q in [a, b, c] {
      check(F::b(ids.contains(&q)), "a triangle corner is not a vertex of the polygon");
    }
    ccws.push(ccw(p.point(a), p.point(b), p.point(c)));
    add(a, b, 1);
    add(b, c, 1);
    add(c, a, 1);
  }
  check(F::b(count == n - 2), "wrong number of triangles");
  for i in 0..n {
    add(ids[i], ids[(i + 1) % n], -1);
  }
  check(F::b(chain.values().all(|k| *k == 0)), "the triangles do not fit together to the polygon");
  check(F::and(ccws), "a triangle is not counter-clockwise");
  reach("triangulated");
}
fn storage_ids<T: Scal>(p: &Polygon<T>) -> (Vec<P<T>>, Vec<PointId>) {
  (p.iter().cloned().collect(), p.boundary_slice().to_vec())
}

fn list<T: Scal>(n: usize, storage: bool, free: usize) {
  let (p, _) = some_polygon::<T>(n, storage);
  let (points, order) = storage_ids(&p);
  partition(triangulate_list(&points, &order, SymRng::covering(n as u64, free)), &p);
}
fn clip<T: Scal>(n: usize, storage: bool) {
  let (p, _) = some_polygon::<T>(n, storage);
  partition(earclip(&p), &p);
}
fn method<T: Scal>(n: usize) {
  let (p, _) = some_polygon::<T>(n, true);
  partition(p.triangulate().map(|(a, b, c)| (a.point_id(), b.point_id(), c.point_id())), &p);
}

fn hashed<T: Scal>(n: usize, hash: Hash, storage: bool, free: usize) {
  set_hash(hash, 2 * n);
  let (p, _) = some_polygon::<T>(n, storage);
  let (points, order) = storage_ids(&p);
  partition(triangulate_list_hashed(&points, &order, SymRng::covering(n as u64, free)), &p);
}
fn clip_hashed<T: Scal>(n: usize, hash: Hash, storage: bool, generic: bool) {
  set_hash(hash, 2 * n);
  let (p, v) = some_polygon::<T>(n, storage);
  if generic {
    generic_axes(&v);
  }
  partition(earclip_hashed(&p), &p);
}

fn hashed_generic<T: Scal>(n: usize, free: usize) {
  set_hash(Hash::Ranks, 2 * n);
  let (p, v) = some_polygon::<T>(n, false);
  generic_axes(&v);
  let (points, order) = storage_ids(&p);
  partition(triangulate_list_hashed(&points, &order, SymRng::covering(n as u64, free)), &p);
}
fn generic_axes<T: Scal>(v: &[P<T>]) {
  let n = v.len();
  for i in 0..n {
    for j in 0..i {
      assume(F::and(vec![eq(x(&v[i]), x(&v[j])).not(), eq(y(&v[i]), y(&v[j])).not()]));
    }
  }
  assume(F::and((1..n).map(|i| lt(x(&v[0]), x(&v[i]))).collect()));
}

fn sp(name: &str, n: usize, what: &str) -> Spec {
  Spec::new(&format!("{name}/{n}")).points(n).with_axes().bound(&format!("all simple polygons with {n} vertices, real coordinates; {what}"))
}
pub fn prop(prop: &str, th: bool) -> Option<Check> {
  let ns = |q: usize, t: usize| 3..=(if th { t } else { q });
  let mut jobs: Vec<Job> = vec![];
  let functions;
  let mut assumptions = vec!["words that rand's range sampler rejects only delay the stream"];
  match prop {
    "P06" => {
      for n in ns(5, 6) {
        jobs.push(job!(sp("list", n, "every random choice"), list, n, n < 5, 99; "triangulated"));
      }
      for n in ns(6, 7) {
        jobs.push(job!(sp("earclip", n, "the library's own random stream"), clip, n, n < 6; "triangulated"));
      }
      for n in ns(4, 5) {
        jobs.push(job!(sp("method", n, "the library's own random stream"), method, n; "triangulated"));
      }
      functions = vec!["triangulate_list", "earclip", "Polygon::triangulate"];
    }
    "P07" => {
      use Hash::*;
      let ran = "hash: interleaved ranks of the coordinates";
      let any = "hash: any monotone one";
      let con = "hash: constant";
      for n in ns(4, 4) {
        jobs.push(job!(sp("hashed", n, &format!("every random choice; {ran}")), hashed, n, Ranks, false, 99; "triangulated"));
        jobs.push(job!(sp("earclip-hashed", n, &format!("the library's own random stream; {ran}")), clip_hashed, n, Ranks, true, false; "triangulated"));
        jobs.push(job!(sp("earclip-any-hash", n, &format!("the library's own random stream; {any}{}", if n > 3 && !th { "; distinct x and distinct y coordinates, first vertex leftmost" } else { "" })), clip_hashed, n, Any, false, n == 4 && !th; "triangulated"));
      }
      for n in ns(5, 5) {
        jobs.push(job!(sp("earclip-constant-hash", n, &format!("the library's own random stream; {con}{}", if n > 4 && !th { "; distinct x and distinct y coordinates, first vertex leftmost" } else { "" })), clip_hashed, n, Constant, n < 5, n > 4 && !th; "triangulated"));
      }
      jobs.push(job!(sp("earclip-hashed", 5, &format!("the library's own random stream; {ran}")), clip_hashed, 5, Ranks, th, false; "triangulated"));
      jobs.push(job!(sp("hashed-generic", 5, "every random choice in the first draws; distinct x and distinct y coordinates, first vertex leftmost"), hashed_generic, 5, if th { 4 } else { 1 }; "triangulated"));
      if th {
        jobs.push(job!(sp("earclip-hashed-generic", 6, "the library's own random stream; distinct x and distinct y coordinates, first vertex leftmost"), clip_hashed, 6, Ranks, false, true; "triangulated"));
      }
      functions = vec!["triangulate_list_hashed", "earclip_hashed"];
      assumptions.push("the hash is monotone in each coordinate (property K07 for the library's own hashes)");
    }
    _ => return None,
  }
  Some(Check { jobs, functions, assumptions })
}
