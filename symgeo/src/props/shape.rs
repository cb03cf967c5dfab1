//! Polygonization.
use super::polygon::{ring, some_polygon};
use super::*;
use crate::geo::*;
use crate::scal::*;
use rgeometry::algorithms::polygonization::*;
use rgeometry::data::*;
use rgeometry::Error;

fn built<T: Scal>(p: &Polygon<T>, v: &[P<T>]) {
  let w = ring(p);
  check(simple_ccw(&w), "the result is not a simple counter-clockwise polygon");
  check(same_set(&w, v), "the vertices are not the input points");
}

fn two_opt<T: Scal>(n: usize, free: usize) {
  let v = pts::<T>(n);
  let pairs = (n * n.saturating_sub(1) / 2) as u64;
  match two_opt_moves(v.clone(), &mut SymRng::covering(pairs.max(1), free)) {
    Ok(p) => {
      reach("polygon");
      built(&p, &v)
    }
    Err(_) => {
      reach("err");
      check(F::or(vec![all_col(&v), distinct(&v).not()]), "error although there is a solution")
    }
  }
}

fn star<T: Scal>(n: usize) {
  let v = pts::<T>(n);
  let c = pt::<T>(2 * n);
  if let Ok(p) = new_star_polygon(v.clone(), &c) {
    reach("polygon");
    built(&p, &v)
  } else {
    reach("err");
    // strictly inside the star of pairwise different directions there is always a solution
    let w = F::and(
      (0..n)
        .map(|i| F::and((0..n).filter(|&j| j != i).map(|j| same_direction(&c, &v[i], &v[j]).not()).collect()).and2(same(&c, &v[i]).not()))
        .collect(),
    );
    let surrounded = F::and((0..n).map(|i| half_plane_free(&c, &v, i).not()).collect());
    check(F::and(vec![F::b(n >= 3), w, surrounded]).not(), "error although the points surround the centre");
  }
}
/// a and b lie in the same direction from c
fn same_direction<T: Scal>(c: &P<T>, a: &P<T>, b: &P<T>) -> F {
  let opposite = F::or(vec![
    F::and(vec![lt(x(a), x(c)), lt(x(c), x(b))]),
    F::and(vec![lt(x(b), x(c)), lt(x(c), x(a))]),
    F::and(vec![lt(y(a), y(c)), lt(y(c), y(b))]),
    F::and(vec![lt(y(b), y(c)), lt(y(c), y(a))]),
  ]);
  F::and(vec![col(c, a, b), opposite.not()])
}
/// no point lies strictly to the left of the ray from c through v[i]
fn half_plane_free<T: Scal>(c: &P<T>, v: &[P<T>], i: usize) -> F {
  F::and((0..v.len()).map(|j| ccw(c, &v[i], &v[j]).not()).collect())
}

/// position of a minus position of b along the direction
fn along<T: Scal>(d: &Vector<T, 2>, a: &P<T>, b: &P<T>) -> T {
  d.0[0].clone() * (x(a).clone() - x(b).clone()) + d.0[1].clone() * (y(a).clone() - y(b).clone())
}
/// the ring has no vertex chain going up, down and up again: scanning cyclically, the signs of the
/// steps along d (zeros dropped) change at most twice
fn monotone_ring<T: Scal>(d: &Vector<T, 2>, v: &[P<T>]) -> F {
  let n = v.len();
  let s: Vec<T> = (0..n).map(|i| along(d, &v[(i + 1) % n], &v[i])).collect();
  // not monotone iff some cyclic subsequence of four steps reads up, down, up, down
  let mut bad = vec![];
  for a in 0..n {
    for b in a + 1..n {
      for c in b + 1..n {
        for e in c + 1..n {
          for m in [POS, NEG] {
            let o = NEG | POS;
            bad.push(F::and(vec![s[a].sgn_in(m), s[b].sgn_in(o & !m), s[c].sgn_in(m), s[e].sgn_in(o & !m)]));
          }
        }
      }
    }
  }
  F::or(bad).not()
}
fn monotone<T: Scal>(n: usize) {
  let v = pts::<T>(n);
  let d = vecv::<T>(2 * n);
  assume(F::or(vec![d.0[0].sgn_in(NEG | POS), d.0[1].sgn_in(NEG | POS)]));
  match new_monotone_polygon(v.clone(), &d) {
    Ok(p) => {
      reach("polygon");
      let w = ring(&p);
      check(simple_ccw(&w), "the result is not a simple counter-clockwise polygon");
      check(F::and(vec![subset(&v, &w), subset(&w, &v)]), "the vertices are not the input points");
      check(monotone_ring(&d, &w), "the result is not monotone in the direction");
    }
    Err(e) => {
      reach("err");
      let _ = e == Error::InsufficientVertices;
      check(all_col(&v), "error although the points are not all on one line")
    }
  }
}
fn monotone_test<T: Scal>(n: usize, storage: bool) {
  let (p, v) = some_polygon::<T>(n, storage);
  let d = vecv::<T>(2 * n);
  assume(F::or(vec![d.0[0].sgn_in(NEG | POS), d.0[1].sgn_in(NEG | POS)]));
  if p.is_monotone(&d) {
    reach("monotone");
    check(monotone_ring(&d, &v), "monotone reported for a polygon that is not")
  } else {
    reach("not monotone");
    check(monotone_ring(&d, &v).not(), "a monotone polygon was not recognised")
  }
}
fn sp(name: &str, n: usize, what: &str) -> Spec {
  Spec::new(&format!("{name}/{n}")).points(n).with_axes().bound(&format!("{what}, n = {n}, real coordinates"))
}
pub fn prop(prop: &str, th: bool) -> Option<Check> {
  let ns = |a: usize, q: usize, t: usize| a..=(if th { t } else { q });
  let mut jobs: Vec<Job> = vec![];
  let functions;
  match prop {
    "A04" => {
      let free: &[usize] = if th { &[0, 0, 0, 9, 3, 0] } else { &[0, 0, 0, 9, 0] };
      for (i, &f) in free.iter().enumerate() {
        let n = i + 1;
        let what = format!("all point lists, every random choice in the first {f} draws (afterwards the first candidate)");
        let mut j = job!(sp("two-opt", n, &what), two_opt, n, f;);
        j.must_reach = if n < 3 { vec!["err"] } else { vec!["err", "polygon"] };
        jobs.push(j);
      }
      functions = vec!["two_opt_moves", "resolve_self_intersections", "IndexIntersectionSet", "Polygon::vertices_reverse", "Polygon::vertices_join"];
    }
    "A05" => {
      for n in ns(1, 4, 5) {
        let mut j = job!(sp("star", n, "all point lists and centres").points(1), star, n; "err");
        if n >= 3 {
          j.must_reach.push("polygon");
        }
        jobs.push(j);
      }
      functions = vec!["new_star_polygon", "Point::ccw_cmp_around", "Polygon::new"];
    }
    "A06" => {
      for n in ns(3, 4, 5) {
        jobs.push(job!(sp("monotone", n, "all point lists, all non-zero directions").vector("d", true, true), monotone, n; "polygon", "err"));
        let mut j = job!(sp("is-monotone", n, "all simple polygons, all non-zero directions").vector("d", true, true), monotone_test, n, n < 5; "monotone");
        if n > 3 {
          j.must_reach.push("not monotone");
        }
        jobs.push(j);
      }
      functions = vec!["new_monotone_polygon", "is_monotone", "Vector::cmp_along"];
    }
    _ => return None,
  }
  Some(Check { jobs, functions, assumptions: vec![] })
}
