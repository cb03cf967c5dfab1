use super::*;
use crate::geo::*;
use crate::scal::*;
use rgeometry::algorithms::segment_intersections;
use rgeometry::data::*;
use rgeometry::Intersects;

/// end points with their inclusive flags
pub type Seg<'a, T> = (&'a P<T>, bool, &'a P<T>, bool);

pub fn member<T: Scal>(p: &P<T>, s: &Seg<T>) -> F {
  let mut o = vec![on_seg(p, s.0, s.2)];
  if !s.1 {
    o.push(same(p, s.0).not());
  }
  if !s.3 {
    o.push(same(p, s.2).not());
  }
  F::and(o)
}
/// the two collinear segments overlap in more than a point
fn long_overlap<T: Scal>(s: &Seg<T>, t: &Seg<T>) -> F {
  let (a, b, c, d) = (s.0, s.2, t.0, t.2);
  let some_lt = |u: [&P<T>; 2], v: [&P<T>; 2]| F::or(vec![lex_lt(u[0], v[0]), lex_lt(u[0], v[1]), lex_lt(u[1], v[0]), lex_lt(u[1], v[1])]);
  F::and(vec![
    parallel(s, t),
    same(a, b).not(),
    same(c, d).not(),
    some_lt([a, b], [c, d]),
    some_lt([c, d], [a, b]),
  ])
}
/// all four end points on one line
fn parallel<T: Scal>(s: &Seg<T>, t: &Seg<T>) -> F {
  let (a, b, c, d) = (s.0, s.2, t.0, t.2);
  F::and(vec![col(a, b, c), col(a, b, d), col(c, d, a), col(c, d, b)])
}
/// some point belongs to both segments
pub fn meet<T: Scal>(s: &Seg<T>, t: &Seg<T>) -> F {
  let (a, b, c, d) = (s.0, s.2, t.0, t.2);
  let both = |p: &P<T>| F::and(vec![member(p, s), member(p, t)]);
  let opp = |u: T, v: T| F::or(vec![F::and(vec![u.sgn_in(POS), v.sgn_in(NEG)]), F::and(vec![u.sgn_in(NEG), v.sgn_in(POS)])]);
  F::or(vec![
    both(a),
    both(b),
    both(c),
    both(d),
    F::and(vec![opp(cross(a, b, c), cross(a, b, d)), opp(cross(c, d, a), cross(c, d, b))]),
    long_overlap(s, t),
  ])
}
fn ep<V: rgeometry::TotalOrd>(p: V, inc: bool) -> EndPoint<V> {
  if inc {
    EndPoint::Inclusive(p)
  } else {
    EndPoint::Exclusive(p)
  }
}
fn flags() -> (bool, bool) {
  match choose(4) {
    0 => (true, true),
    1 => (true, false),
    2 => (false, true),
    _ => (false, false),
  }
}

fn contains<T: Scal>() {
  let v = pts::<T>(3);
  let (a, b, q) = (&v[0], &v[1], &v[2]);
  let (ai, bi) = flags();
  let mut cases: Vec<(bool, bool)> = vec![];
  let mut got = vec![];
  cases.push((ai, bi));
  got.push(LineSegment::new(ep(a.clone(), ai), ep(b.clone(), bi)).contains(q));
  cases.push((ai, bi));
  got.push(LineSegmentView::new(ep(a, ai), ep(b, bi)).contains(q));
  if ai && !bi {
    let r = a.clone()..b.clone();
    for g in [
      LineSegment::from(r.clone()).contains(q),
      LineSegment::from((x(a).clone(), y(a).clone())..(x(b).clone(), y(b).clone())).contains(q),
      LineSegmentView::from(&r).contains(q),
      LineSegmentView::from(a..b).contains(q),
      LineSegmentView::from(&LineSegment::from(r.clone())).contains(q),
      DirectedEdge { src: a, dst: b }.contains(q),
      LineSegment::from(DirectedEdge_ { src: a.clone(), dst: b.clone() }).contains(q),
      LineSegmentView::from(&DirectedEdge_ { src: a.clone(), dst: b.clone() }).contains(q),
      LineSegmentView::from(&DirectedEdge { src: a, dst: b }).contains(q),
    ] {
      got.push(g);
      cases.push((true, false));
    }
  }
  if ai && bi {
    let r = a.clone()..=b.clone();
    for g in [LineSegment::from(r.clone()).contains(q), LineSegmentView::from(&r).contains(q)] {
      got.push(g);
      cases.push((true, true));
    }
  }
  for (g, (ai, bi)) in got.into_iter().zip(cases) {
    reach(if g { "member" } else { "not a member" });
    let m = member(q, &(a, ai, b, bi));
    check(if g { m } else { m.not() }, if g { "segment contains a point it should not" } else { "segment misses a point" });
  }
}
fn endpoints<T: Scal>() {
  let v = pts::<T>(2);
  let (a, b) = (&v[0], &v[1]);
  let (ai, bi) = flags();
  let (ea, eb) = (ep(a, ai), ep(b, bi));
  check(F::b(ea.is_inclusive() == ai && ea.is_exclusive() != ai), "flags of an end point");
  check(F::and(vec![same(ea.inner(), a), same(ea.take(), a)]), "point of an end point");
  let own = ep(a.clone(), ai);
  check(F::and(vec![same(own.as_ref().take(), a), F::b(own.as_ref().is_inclusive() == ai)]), "as_ref of an end point");
  // the result is the extreme end point; of two equal ones an excluded one wins
  for (r, right) in [(ea.leftmost(eb), false), (ea.rightmost(eb), true)] {
    let p = r.take();
    let (l, g) = if right { (lex_lt(a, b), lex_lt(b, a)) } else { (lex_lt(b, a), lex_lt(a, b)) };
    // l: b is the extreme one, g: a is the extreme one
    let inc = r.is_inclusive();
    check(
      F::or(vec![
        F::and(vec![l, same(p, b), F::b(inc == bi)]),
        F::and(vec![g, same(p, a), F::b(inc == ai)]),
        F::and(vec![same(a, b), same(p, a), F::b(inc == (ai && bi))]),
      ]),
      "extreme end point",
    );
  }
  // every constructor puts the end points in order and keeps each flag with its point
  let (r, ri) = (a.clone()..b.clone(), a.clone()..=b.clone());
  let own = LineSegment::new(ea.clone_owned(), eb.clone_owned());
  let view = LineSegmentView::new(ea, eb);
  let from_range = LineSegment::from(r.clone());
  let from_incl = LineSegment::from(ri.clone());
  for (s, ai, bi) in [
    (own.as_ref(), ai, bi),
    (view, ai, bi),
    (LineSegmentView::from(&own), ai, bi),
    (from_range.as_ref(), true, false),
    (LineSegmentView::from(&r), true, false),
    (LineSegmentView::from(a..b), true, false),
    (LineSegmentView::from(&DirectedEdge { src: a, dst: b }), true, false),
    (from_incl.as_ref(), true, true),
    (LineSegmentView::from(&ri), true, true),
  ] {
    let (lo, hi) = (s.min, s.max);
    check(lex_le(lo.inner(), hi.inner()), "order of the end points of a segment");
    check(
      F::or(vec![
        F::and(vec![same(lo.inner(), a), same(hi.inner(), b), F::b(lo.is_inclusive() == ai && hi.is_inclusive() == bi)]),
        F::and(vec![same(lo.inner(), b), same(hi.inner(), a), F::b(lo.is_inclusive() == bi && hi.is_inclusive() == ai)]),
      ]),
      "end points of a segment",
    );
  }
  reach("done");
}
trait CloneOwned<T: Scal> {
  fn clone_owned(&self) -> EndPoint<P<T>>;
}
impl<T: Scal> CloneOwned<T> for EndPoint<&P<T>> {
  fn clone_owned(&self) -> EndPoint<P<T>> {
    ep((*self.inner()).clone(), self.is_inclusive())
  }
}

fn judge<T: Scal>(r: Option<ILineSegment<'_, T>>, s: &Seg<T>, t: &Seg<T>, q: &P<T>) {
  match r {
    None => {
      reach("none");
      check(meet(s, t).not(), "missed an intersection")
    }
    Some(ILineSegment::Crossing) => {
      reach("crossing");
      check(meet(s, t), "reported a crossing of disjoint segments");
      check(parallel(s, t).not(), "reported a crossing of collinear segments");
    }
    Some(ILineSegment::Overlap(o)) => {
      reach("overlap");
      check(meet(s, t), "reported an overlap of disjoint segments");
      let o: Seg<T> = (o.min.take(), o.min.is_inclusive(), o.max.take(), o.max.is_inclusive());
      check(parallel(s, t), "reported an overlap of segments that are not collinear");
      check(member(q, &o).iff(F::and(vec![member(q, s), member(q, t)])), "the overlap is not the set of shared points");
    }
  }
}
fn intersect<T: Scal>() {
  let v = pts::<T>(5);
  let (a, b, c, d, q) = (&v[0], &v[1], &v[2], &v[3], &v[4]);
  let ((ai, bi), (ci, di)) = (flags(), flags());
  let (s, t): (Seg<T>, Seg<T>) = ((a, ai, b, bi), (c, ci, d, di));
  judge(LineSegmentView::new(ep(a, ai), ep(b, bi)).intersect(LineSegmentView::new(ep(c, ci), ep(d, di))), &s, &t, q);
}
/// the other ways of intersecting segments
fn intersect_forms<T: Scal>() {
  let v = pts::<T>(5);
  let (a, b, c, d, q) = (&v[0], &v[1], &v[2], &v[3], &v[4]);
  let ((ai, bi), (ci, di)) = match choose(3) {
    0 => ((true, false), (true, false)),
    1 => ((true, true), (true, true)),
    _ => ((false, true), (true, false)),
  };
  let (s, t): (Seg<T>, Seg<T>) = ((a, ai, b, bi), (c, ci, d, di));
  match (ai, bi, ci, di) {
    (true, false, true, false) => {
      match choose(3) {
        0 => judge(DirectedEdge { src: a, dst: b }.intersect(DirectedEdge { src: c, dst: d }), &s, &t, q),
        1 => {
          let (e, f) = (DirectedEdge_ { src: a.clone(), dst: b.clone() }, DirectedEdge_ { src: c.clone(), dst: d.clone() });
          judge((&e).intersect(&f), &s, &t, q)
        }
        _ => {
          let (e, f) = (a.clone()..b.clone(), c.clone()..d.clone());
          judge((&e).intersect(&f), &s, &t, q)
        }
      };
    }
    (true, true, true, true) => {
      let (e, f) = (a.clone()..=b.clone(), c.clone()..=d.clone());
      judge((&e).intersect(&f), &s, &t, q);
    }
    _ => {
      let (e, f) = (LineSegment::new(ep(a.clone(), ai), ep(b.clone(), bi)), LineSegment::new(ep(c.clone(), ci), ep(d.clone(), di)));
      judge((&e).intersect(&f), &s, &t, q);
    }
  }
}

/// chain of edges over `n` points: list of half-open segments
fn all_pairs<T: Scal>(n: usize, kind: u8) {
  let v = pts::<T>(n);
  let ends: Vec<(usize, usize)> = match kind {
    0 => (0..n / 2).map(|i| (2 * i, 2 * i + 1)).collect(),
    1 => (0..n).map(|i| (i, (i + 1) % n)).collect(),
    2 => vec![(0, 1), (1, 0), (2, 3), (0, 1)],
    3 => vec![(0, 1)],
    _ => vec![],
  };
  let edges: Vec<DirectedEdge<'_, T>> = ends.iter().map(|e| DirectedEdge { src: &v[e.0], dst: &v[e.1] }).collect();
  let m = edges.len();
  let mut seen = vec![vec![false; m]; m];
  for (e, f) in segment_intersections(&edges) {
    let idx = |g: &DirectedEdge<'_, T>| edges.iter().position(|h| std::ptr::eq(h, g));
    match (idx(e), idx(f)) {
      (Some(i), Some(j)) => {
        reach("pair");
        let (i, j) = (i.min(j), i.max(j));
        check(F::b(i != j), "a segment was intersected with itself");
        check(F::b(!seen[i][j]), "a pair was reported twice");
        seen[i][j] = true;
      }
      _ => check(F::No, "reported an edge that is not in the list"),
    }
  }
  reach("done");
  for j in 0..m {
    for i in 0..j {
      let s: Seg<T> = (edges[i].src, true, edges[i].dst, false);
      let t: Seg<T> = (edges[j].src, true, edges[j].dst, false);
      let want = meet(&s, &t);
      check(if seen[i][j] { want } else { want.not() }, if seen[i][j] { "reported a pair that does not intersect" } else { "missed an intersecting pair" });
    }
  }
}

pub fn prop(prop: &str, th: bool) -> Option<Check> {
  let mut jobs = vec![];
  let functions;
  match prop {
    "G03" => {
      jobs.push(job!(Spec::new("contains").points(3).with_axes().bound("all segments, flags and points"), contains; "member", "not a member"));
      jobs.push(job!(Spec::new("endpoints").points(2).with_axes().bound("all pairs of end points"), endpoints; "done"));
      functions = vec!["LineSegment::contains", "LineSegmentView::contains", "DirectedEdge::contains", "EndPoint::*"];
    }
    "G04" => {
      jobs.push(job!(Spec::new("intersect").points(5).with_axes().bound("all pairs of segments and flags; one arbitrary probe point"), intersect; "none", "crossing", "overlap"));
      jobs.push(job!(Spec::new("forms").points(5).with_axes().bound("all pairs of segments, other segment types"), intersect_forms; "none", "crossing", "overlap"));
      functions = vec!["Intersects for LineSegmentView, &LineSegment, &Range<Point>, &RangeInclusive<Point>, DirectedEdge, &DirectedEdge_"];
    }
    "G05" => {
      for (k, n) in [(4u8, 1usize), (3, 2), (2, 4), (1, 3), (1, 4), (0, 4)].into_iter().chain(if th { vec![(0, 6)] } else { vec![] }) {
        let tags: Vec<&'static str> = if k >= 3 { vec!["done"] } else { vec!["pair", "done"] };
        let mut j = job!(Spec::new(&format!("pairs/{k}/{n}")).points(n).with_axes().bound("lists of up to 4 half-open segments (independent, closed chains, repeated)"), all_pairs, n, k;);
        j.must_reach = tags;
        jobs.push(j);
      }
      functions = vec!["segment_intersections"];
    }
    _ => return None,
  }
  Some(Check { jobs, functions, assumptions: vec![] })
}
