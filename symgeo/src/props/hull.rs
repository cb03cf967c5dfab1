use super::polygon::{ring, some_polygon};
use super::*;
use crate::geo::*;
use crate::scal::*;
use rgeometry::algorithms::convex_hull::{gift_wrapping, graham_scan, melkman};
use rgeometry::algorithms::polygonization::two_opt_moves;
use rgeometry::data::PolygonConvex;

fn exact<T: Scal>(h: &PolygonConvex<T>, v: &[P<T>]) {
  let w: Vec<_> = h.polygon().iter_boundary().map(|c| c.point().clone()).collect();
  check(strictly_convex(&w), "the hull is not strictly convex and counter-clockwise");
  check(F::and(v.iter().map(|p| in_hull(p, &w)).collect()), "the hull misses a point");
  check(subset(&w, v), "a hull vertex is not an input point");
}
fn hull<T: Scal>(n: usize, gift: bool) {
  let v = pts::<T>(n);
  let r = if gift { gift_wrapping::convex_hull(v.clone()) } else { graham_scan::convex_hull(v.clone()) };
  match r {
    Ok(h) => {
      reach("hull");
      exact(&h, &v)
    }
    Err(_) => {
      reach("err");
      check(all_col(&v), "error although the points are not all on one line")
    }
  }
  if n < 3 {
    reach("err");
  }
}
fn melk<T: Scal>(n: usize, storage: bool) {
  let (p, v) = some_polygon::<T>(n, storage);
  let h = melkman::convex_hull(&p);
  reach("hull");
  exact(&h, &v)
}
/// polygons whose storage order is not a simple chain (as left behind by untangling)
fn melk_permuted<T: Scal>(n: usize) {
  let v = pts::<T>(n);
  assume(distinct(&v));
  let mut rng = SymRng::covering(1, 0);
  if let Ok(p) = two_opt_moves(v.clone(), &mut rng) {
    assume(simple_ccw(&ring(&p)));
    reach("hull");
    exact(&melkman::convex_hull(&p), &v)
  }
}

/// draws of PolygonConvex::random: per axis the number of positive steps, then a shuffle. With
/// `fixed`, the shuffle of the x steps is one fixed permutation.
fn random<T: Scal + num_traits::Bounded + rand::distributions::uniform::SampleUniform>(n: usize, fixed: bool) {
  fresh_from(0, 2 * (n - 2));
  let mut sizes = vec![];
  for axis in 0..2 {
    sizes.push(n as u64 - 1);
    sizes.extend((2..=n as u64).rev().map(|k| if fixed && axis == 0 { 1 } else { k }));
  }
  let h = PolygonConvex::<T>::random(n, &mut Scheduled::new(sizes));
  reach("polygon");
  let w: Vec<_> = h.polygon().iter_boundary().map(|c| c.point().clone()).collect();
  check(F::b(w.len() <= n), "more vertices than requested");
  check(strictly_convex(&w), "not strictly convex and counter-clockwise");
  let max = T::int(MAX);
  let zero = T::int(0);
  // height and width are exactly the largest value, the lowest vertex is at height zero
  let all = |f: &dyn Fn(&P<T>) -> F| F::and(w.iter().map(|p| f(p)).collect());
  let any = |f: &dyn Fn(&P<T>) -> F| F::or(w.iter().map(|p| f(p)).collect());
  check(F::and(vec![all(&|p| le(&zero, y(p))), any(&|p| eq(&zero, y(p))), all(&|p| le(y(p), &max)), any(&|p| eq(y(p), &max))]), "the height is not the largest value, from zero");
  let mut wide = vec![];
  for p in &w {
    for q in &w {
      wide.push((x(p).clone() - x(q).clone() - max.clone()).sgn_in(ZERO));
      check((x(p).clone() - x(q).clone() - max.clone()).sgn_in(ZERO | NEG), "wider than the largest value");
    }
  }
  check(F::or(wide), "the width is not the largest value");
}

pub fn prop(prop: &str, th: bool) -> Option<Check> {
  let ns = |q: usize, t: usize| 1..=(if th { t } else { q });
  let tags = |n: usize| if n < 3 { vec!["err"] } else { vec!["hull", "err"] };
  let (jobs, functions): (Vec<Job>, _) = match prop {
    "A01" | "A02" => {
      let gift = prop == "A02";
      let name = if gift { "gift" } else { "graham" };
      (
        ns(5, 6)
          .map(|n| {
            let mut j = job!(Spec::new(&format!("{name}/{n}")).points(n).with_axes().bound(&format!("all lists of {n} points, real coordinates")), hull, n, gift;);
            j.must_reach = tags(n);
            j
          })
          .collect(),
        vec![if gift { "gift_wrapping::convex_hull" } else { "graham_scan::convex_hull" }],
      )
    }
    "A03" => (
      (3..=(if th { 7 } else { 6 }))
        .map(|n| {
          let st = n <= if th { 6 } else { 5 };
          job!(Spec::new(&format!("melkman/{n}")).points(n).with_axes().bound(&format!("all simple polygons with {n} vertices, real coordinates{}", if st { ", both storage orders" } else { "" })), melk, n, st; "hull")
        })
        .chain((4..=5).map(|n| {
          job!(Spec::new(&format!("melkman-untangled/{n}")).points(n).with_axes().bound(&format!("all polygons made from {n} distinct points by two_opt_moves, first candidate at every draw, real coordinates")), melk_permuted, n; "hull")
        }))
        .collect(),
      vec!["melkman::convex_hull"],
    ),
    "P09" => {
      let sp = |n: usize, what: &str| {
        let names: Vec<String> = (0..2 * (n - 2)).map(|i| format!("s{i}")).collect();
        Spec::new(&format!("random/{n}"))
          .scalars(&names.iter().map(|s| s.as_str()).collect::<Vec<_>>())
          .mode(Mode::Nra)
          .bound(&format!("{n} requested vertices, all real samples below the largest value, every choice of the numbers of positive steps and {what}; first successful attempt"))
      };
      let every = "every shuffle of both axes";
      let fixed = "every shuffle of the y steps, one of the x steps";
      let mut v = vec![job!(sp(3, every), random, 3, false; "polygon")];
      if th {
        v.push(job!(sp(4, every), random, 4, false; "polygon"));
        v.push(job!(sp(5, fixed), random, 5, true; "polygon"));
      } else {
        v.push(job!(sp(4, fixed), random, 4, true; "polygon"));
      }
      (v, vec!["PolygonConvex::random", "Vector::sort_around", "graham_scan::convex_hull"])
    }
    _ => return None,
  };
  Some(Check { jobs, functions, assumptions: vec![] })
}
