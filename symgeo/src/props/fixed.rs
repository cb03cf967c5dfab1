//! Algorithms that only compare coordinates, on fixed-width integers.
//!
//! The symbolic run records every arithmetic operation the code under test does on coordinates. A
//! path without any cannot overflow, whatever the coordinates are. For a path with some, the solver
//! looks for coordinates in [-B,B-1] on that path with a result outside of that range; scaled by
//! 2^63/B these are i64 coordinates on the same path (all path conditions are invariant under
//! positive scaling) and the real code is run on them.
use super::*;
use crate::geo::*;
use crate::scal::*;
use num_bigint::BigInt;
use num_rational::BigRational;
use num_traits::Signed;
use rgeometry::algorithms::convex_hull::{gift_wrapping, graham_scan, melkman};
use rgeometry::algorithms::polygonization::*;
use rgeometry::algorithms::segment_intersections;
use rgeometry::algorithms::triangulation::earclip::*;
use rgeometry::data::*;
use rgeometry::{Intersects, Orientation};
use std::ops::Bound;

const B: i64 = 8;

/// The observable result, independent of the scalar type.
type Out = String;

fn show_pts<T: Scal>(v: &[P<T>], inp: &[P<T>]) -> Out {
  let mut o = String::new();
  for p in v {
    let k = inp.iter().position(|q| std::ptr::eq(p, q) || (p.array[0] == q.array[0] && p.array[1] == q.array[1]));
    o += &format!("{:?},", k);
  }
  o
}
fn poly_out<T: Scal>(p: &Polygon<T>, inp: &[P<T>]) -> Out {
  let v: Vec<_> = p.iter_boundary().map(|c| c.point().clone()).collect();
  show_pts(&v, inp)
}

/// The algorithm under test; `v` are its points (in order).
#[derive(Clone, Copy, PartialEq)]
pub enum Alg {
  Predicates,
  Order,
  Around,
  Segment,
  Meet,
  Line,
  Triangle,
  New,
  Validate,
  Locate,
  Convex,
  Equal,
  Bbox,
  Earclip,
  Hashed,
  Graham,
  Gift,
  Melkman,
  TwoOpt,
  Star,
  Monotone,
  Report,
  Ear,
}
use Alg::*;

fn run<T: Scal>(a: Alg, n: usize, choices: &[u64]) -> Out {
  let v: Vec<P<T>> = pts::<T>(n);
  // shapes come from the harness and need no arithmetic
  let poly = |k: usize| Polygon::new_unchecked(v[..k].to_vec());
  let end = |c: u64, p: &P<T>| if c == 1 { EndPoint::Exclusive(p.clone()) } else { EndPoint::Inclusive(p.clone()) };
  let mut sink = String::new();
  match a {
    Predicates => {
      let (x, y, z) = (&v[0], &v[1], &v[2]);
      sink += &format!("{:?}{:?}{:?}{:?}", Point::orient(x, y, z), x.cmp_distance_to(y, z), Point::all_colinear(&v), Point::orient_along_direction(x, Direction::Through(y), z));
    }
    Order => sink += &format!("{:?}{:?}{:?}", v[0] == v[1], v[0].cmp(&v[1]), v[0].partial_cmp(&v[1])),
    Around => sink += &format!("{:?}", v[0].ccw_cmp_around(&v[1], &v[2])),
    Segment => {
      let s = LineSegment::new(end(choices[0], &v[0]), end(choices[1], &v[1]));
      let w = LineSegmentView::from(&s);
      sink += &format!("{:?}{:?}{:?}", s.contains(&v[2]), w.contains(&v[2]), DirectedEdge { src: &v[0], dst: &v[1] }.contains(&v[2]));
    }
    Meet => {
      let s = LineSegment::new(end(choices[0], &v[0]), end(choices[1], &v[1]));
      let t = LineSegment::new(end(choices[2], &v[2]), end(choices[3], &v[3]));
      match s.intersect(&t) {
        None => sink += "none",
        Some(ILineSegment::Crossing) => sink += "crossing",
        Some(ILineSegment::Overlap(o)) => {
          sink += &show_pts(&[(*o.min.inner()).clone(), (*o.max.inner()).clone()], &v);
          sink += &format!("{}{}", o.min.is_exclusive(), o.max.is_exclusive());
        }
      }
    }
    Line => {
      let l = HalfLineSoS::new_through(&v[0], &v[1]);
      sink += &format!("{:?}", l.intersect(DirectedEdge { src: &v[2], dst: &v[3] }));
      let l = LineSoS::from(l);
      sink += match l.intersect(DirectedEdge { src: &v[2], dst: &v[3] }) {
        None => "n",
        Some(ILineLineSegmentSoS::Crossing) => "c",
        _ => "o",
      };
    }
    Triangle => {
      let t = TriangleView::new_ccw([&v[0], &v[1], &v[2]]);
      sink += &format!("{:?}{:?}{:?}", TriangleView::new([&v[0], &v[1], &v[2]]).is_ok(), t.locate(&v[3]), t.orientation());
      let (lo, hi) = t.bounding_box();
      sink += &format!("{}{}", v[..3].iter().position(|p| p.array[0] == lo.array[0]).is_some(), v[..3].iter().position(|p| p.array[1] == hi.array[1]).is_some());
    }
    New => match Polygon::new(v.clone()) {
      Ok(p) => sink += &poly_out(&p, &v),
      Err(e) => sink += &format!("{:?}", e),
    },
    Validate => sink += &format!("{:?}{:?}", poly(n).validate(), poly(n).validate_weakly()),
    Locate => {
      let p = poly(n - 1);
      sink += &format!("{:?}", p.locate(&v[n - 1]));
    }
    Convex => {
      let p = PolygonConvex::new_unchecked(poly(n - 1));
      sink += &format!("{:?}", p.locate(&v[n - 1]));
    }
    Equal => sink += &format!("{:?}", Polygon::new_unchecked(v[..n / 2].to_vec()).equals(&Polygon::new_unchecked(v[n / 2..].to_vec()))),
    Bbox => {
      let (lo, hi) = poly(n).bounding_box();
      for (p, k) in [(&lo, 0), (&lo, 1), (&hi, 0), (&hi, 1)] {
        sink += &format!("{:?}", v.iter().position(|q| q.array[k] == p.array[k]));
      }
    }
    Earclip => sink += &earclip(&poly(n)).map(|(a, b, c)| format!("{:?}{:?}{:?};", a, b, c)).collect::<String>(),
    // the triangulation may depend on the hash: only its size is comparable
    Hashed => sink += &format!("{}", earclip_hashed(&poly(n)).count()),
    Graham => match graham_scan::convex_hull(v.clone()) {
      Ok(p) => sink += &poly_out(p.polygon(), &v),
      Err(e) => sink += &format!("{:?}", e),
    },
    Gift => match gift_wrapping::convex_hull(v.clone()) {
      Ok(p) => sink += &poly_out(p.polygon(), &v),
      Err(e) => sink += &format!("{:?}", e),
    },
    Melkman => sink += &poly_out(melkman::convex_hull(&poly(n)).polygon(), &v),
    TwoOpt => match two_opt_moves(v.clone(), &mut SymRng::covering(6, 0)) {
      Ok(p) => sink += &poly_out(&p, &v),
      Err(e) => sink += &format!("{:?}", e),
    },
    Star => match new_star_polygon(v[1..].to_vec(), &v[0]) {
      Ok(p) => sink += &poly_out(&p, &v),
      Err(e) => sink += &format!("{:?}", e),
    },
    Monotone => {
      let d = vecv::<T>(0);
      match new_monotone_polygon(v[1..].to_vec(), &d) {
        Ok(p) => sink += &poly_out(&p, &v),
        Err(e) => sink += &format!("{:?}", e),
      }
    }
    Report => {
      let e: Vec<DirectedEdge<T>> = v.chunks(2).map(|c| DirectedEdge { src: &c[0], dst: &c[1] }).collect();
      sink += &format!("{}", segment_intersections(&e).count());
    }
    Ear => {
      let p = poly(n);
      for c in p.iter_boundary() {
        sink += &format!("{:?}{}{}", c.orientation(), c.is_ear(), c.is_colinear());
      }
    }
  }
  let _ = (Orientation::CoLinear, Bound::Included(0));
  sink
}

/// the precondition of the algorithm
fn given<T: Scal>(a: Alg, n: usize) {
  let v = pts::<T>(n);
  match a {
    Locate => assume(simple_ccw(&v[..n - 1])),
    Convex => assume(strictly_convex(&v[..n - 1])),
    Earclip | Hashed | Melkman | Ear => assume(simple_ccw(&v)),
    Segment | Line | Meet => {}
    TwoOpt => assume(distinct(&v)),
    Triangle => assume(col(&v[0], &v[1], &v[2]).not()),
    _ => {}
  }
  if a == Monotone {
    assume(F::or(vec![x(&v[0]).sgn_in(NEG | POS), y(&v[0]).sgn_in(NEG | POS)]));
  }
}
fn coins(a: Alg) -> Vec<u64> {
  (0..match a {
    Segment => 2,
    Meet => 4,
    _ => 0,
  })
    .map(|_| choose(2))
    .collect()
}

/// symbolic run
fn symbolic(a: Alg, n: usize) {
  set_hash(Hash::Ranks, 2 * n);
  recorded(true);
  given::<Sym>(a, n);
  let c = coins(a);
  let _ = lib(|| run::<Sym>(a, n, &c));
  reach("result");
  let polys = recorded(true);
  check(F::b(true), "no arithmetic on this path or the solver decides below");
  if polys.is_empty() {
    return;
  }
  reach("arithmetic");
  let mut bad = vec![];
  for p in polys {
    let s = Sym::p(p);
    bad.push((s - Sym::int(B - 1)).sgn_in(POS));
    bad.push((s + Sym::int(B)).sgn_in(NEG));
  }
  let range = (0..2 * n).map(|i| F::and(vec![(Sym::var(i) + Sym::int(B)).sgn_in(ZERO | POS), (Sym::var(i) - Sym::int(B - 1)).sgn_in(ZERO | NEG)]));
  check(F::and(range.chain([F::or(bad)]).collect()).not(), "arithmetic on coordinates leaves their range");
}
/// The real code on i64 at extreme coordinates against the real code on exact rationals.
fn concrete(a: Alg, n: usize) {
  set_hash(Hash::Ranks, 2 * n);
  given::<Cnt>(a, n);
  let c = coins(a);
  let want = run::<Cnt>(a, n, &c);
  let vals: Vec<BigRational> = (0..2 * n).map(concrete_value).collect();
  let int = |f: &dyn Fn(&BigRational) -> BigRational| -> Option<Vec<i64>> {
    vals.iter().map(|v| { let w = f(v); if w.is_integer() { i64::try_from(w.to_integer()).ok() } else { None } }).collect()
  };
  let r = |i: i64| BigRational::from_integer(BigInt::from(i));
  let mut k = r(1);
  let fits = |k: &BigRational| int(&|v| v * k).is_some();
  let mut maps = vec![];
  if fits(&r(1)) {
    while fits(&(&k * r(2))) && k < r(i64::MAX) && vals.iter().any(|v| v.is_positive() || v.is_negative()) {
      k = &k * r(2);
    }
    maps.push(int(&|v| v * &k).unwrap());
  }
  if a != Monotone {
    // translations keep the answer as well, except for vectors
    let (lo, hi) = (vals.iter().min().unwrap().clone(), vals.iter().max().unwrap().clone());
    maps.extend(int(&|v| v - &hi + r(i64::MAX)));
    maps.extend(int(&|v| v - &lo + r(i64::MIN)));
  }
  for m in maps {
    let got = crate::engine::quiet_catch(|| {
      FIX.with(|f| *f.borrow_mut() = m.clone());
      run::<i64>(a, n, &c)
    });
    match got {
      Ok(g) => check(F::b(g == want), &format!("i64 gives another answer than exact arithmetic: {g} instead of {want} at {m:?}")),
      Err(e) => check(F::No, &format!("i64 coordinates {m:?}: panic {e}")),
    }
  }
}

pub fn prop(prop: &str, th: bool) -> Option<Check> {
  if prop != "O01" {
    return None;
  }
  let t = |q: usize, u: usize| if th { u } else { q };
  let list: Vec<(&str, Alg, usize)> = vec![
    ("predicates", Predicates, 3),
    ("all-colinear", Predicates, 4),
    ("order", Order, 2),
    ("around", Around, 3),
    ("segment-contains", Segment, 3),
    ("segment-intersect", Meet, 4),
    ("half-line", Line, 4),
    ("triangle", Triangle, 4),
    ("polygon-new", New, t(4, 5)),
    ("polygon-validate", Validate, t(4, 5)),
    ("polygon-locate", Locate, 5),
    ("convex-locate", Convex, t(6, 7)),
    ("polygon-equal", Equal, 6),
    ("bounding-box", Bbox, t(4, 5)),
    ("earclip", Earclip, t(5, 6)),
    ("earclip-hashed", Hashed, 4),
    ("graham", Graham, t(4, 5)),
    ("gift", Gift, t(4, 5)),
    ("melkman", Melkman, t(5, 6)),
    ("two-opt", TwoOpt, t(4, 5)),
    ("star", Star, t(4, 5)),
    ("monotone", Monotone, 4),
    ("report", Report, 4),
    ("ear", Ear, t(4, 5)),
  ];
  let jobs = list
    .into_iter()
    .map(|(name, a, n)| {
      let mut s = Spec::new(&format!("{name}/{n}"));
      if a == Monotone {
        s = s.vector("v", true, true).points(n - 1);
      } else {
        s = s.points(n);
      }
      s.witness = 101;
      Job {
        spec: s.with_axes().bound(&format!("{n} points; every feasible path of the real code; i64 coordinates on witness paths")),
        body: Arc::new(move |conc| if conc { concrete(a, n) } else { symbolic(a, n) }),
        must_reach: vec!["result"],
      }
    })
    .collect();
  Some(Check {
    jobs,
    functions: vec![
      "Point::orient", "Point::cmp_distance_to", "Point::ccw_cmp_around", "Point::all_colinear", "LineSegment::contains", "LineSegmentView::intersect", "HalfLineSoS::intersect",
      "TriangleView::locate", "Polygon::new", "Polygon::validate", "Polygon::locate", "PolygonConvex::locate", "Polygon::equals", "Polygon::bounding_box", "earclip", "earclip_hashed",
      "graham_scan::convex_hull", "gift_wrapping::convex_hull", "melkman::convex_hull", "two_opt_moves", "new_star_polygon", "new_monotone_polygon", "segment_intersections", "Cursor::is_ear",
    ],
    assumptions: vec!["the scalar predicates and hashes of fixed-width integers are exact (properties K01, K02, K03, K07)"],
  })
}
