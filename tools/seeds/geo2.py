SEEDS=[
dict(id='g01_vertical',property='G01',
 needs='a vertical start direction and points straight in front of and behind the centre',
 breaks='with a vertical start direction, points behind the centre count as being at angle 0',
 edits=[('orientation.rs','''    let on_zero = |d: &[T; 2]| match Orientation::along_perp_vector(p1, vector, d) {
      CounterClockWise => false,
      ClockWise => true,
      CoLinear => true,
    };''','''    // Only used for points on the line along the vector.
    let on_zero = |d: &[T; 2]| {
      if vector.0[0] > T::from_constant(0) {
        d[0] >= p1[0]
      } else {
        d[0] <= p1[0]
      }
    };''')],
 demo='''fn main() {
  let o = Point::new([0, 0]);
  for z in [Vector([0, 2]), Vector([0, -2])] {
    let front = Point::new([0, z.0[1] * 3]);
    let back = Point::new([0, -z.0[1]]);
    assert!(o.ccw_cmp_around_with(&z, &front, &back).is_lt());
    assert!(o.ccw_cmp_around_with(&z, &back, &front).is_gt());
  }
}'''),
dict(id='g03_vertical',property='G03',
 needs='a vertical segment given from its upper to its lower end point',
 breaks='vertical segments are not normalised, so their leftmost end is the upper one',
 edits=[('data/line_segment.rs','''    if a.inner() < b.inner() {
      LineSegmentView { min: a, max: b }
    } else {
      LineSegmentView { min: b, max: a }
    }''','''    // Sort the end points from left to right.
    if a.inner()[0].total_cmp(&b.inner()[0]).is_le() {
      LineSegmentView { min: a, max: b }
    } else {
      LineSegmentView { min: b, max: a }
    }''')],
 demo='''fn main() {
  let (a, b) = (Point::new([1, 9]), Point::new([1, 2]));
  let s = LineSegmentView::new(EndPoint::Inclusive(&a), EndPoint::Inclusive(&b));
  assert_eq!(s.min.inner(), &&b);
  let (c, d) = (Point::new([1, 5]), Point::new([1, 20]));
  let t = LineSegmentView::new(EndPoint::Inclusive(&d), EndPoint::Inclusive(&c));
  assert!(s.intersect(t).is_some());
}'''),
dict(id='g04_touch_excl',property='G04',
 needs='a segment whose excluded right end point lies in the interior of the other segment',
 breaks='a segment that merely touches the other one with an excluded end point is reported as crossing',
 edits=[('data/line_segment.rs','''    } else if l2_to_a2 == CoLinear {
      if self.max.is_inclusive()
        && inner''','''    } else if l2_to_a2 == CoLinear {
      if (self.max.is_inclusive() || self.min.is_exclusive())
        && inner''')],
 demo='''fn main() {
  let (a, b) = (Point::new([-5, 0]), Point::new([0, 0]));
  let (c, d) = (Point::new([0, -5]), Point::new([0, 5]));
  let s = LineSegmentView::new(EndPoint::Exclusive(&a), EndPoint::Exclusive(&b));
  let t = LineSegmentView::new(EndPoint::Inclusive(&c), EndPoint::Inclusive(&d));
  assert!(s.intersect(t).is_none());
  assert!(t.intersect(s).is_none());
}'''),
dict(id='g05_sweep',property='G05',
 needs='two segments that share only the x coordinate of their right and left ends',
 breaks='pairs of segments whose x ranges touch in a single value are not reported',
 edits=[('algorithms/intersection/naive.rs','''    let b_edge: LineSegmentView<'a, T, 2> = b.into();''','''    let b_edge: LineSegmentView<'a, T, 2> = b.into();
    // Segments whose x ranges are disjoint cannot intersect.
    let left_of = |l: LineSegmentView<'a, T, 2>, r: LineSegmentView<'a, T, 2>| {
      let (l_min, l_max) = (l.min.inner().x_coord(), l.max.inner().x_coord());
      l_max.total_cmp(r.min.inner().x_coord()).is_le() && l_min.total_cmp(l_max).is_lt()
    };
    if left_of(a_edge, b_edge) && left_of(b_edge, a_edge)
      || left_of(a_edge, b_edge) && b_edge.min.inner().x_coord() != b_edge.max.inner().x_coord() && a_edge.max.is_inclusive()
    {
      return None;
    }''')],
 demo='''fn main() {
  let s: Vec<LineSegment<i32>> = vec![
    LineSegment::from(Point::new([0, 0])..=Point::new([4, 4])),
    LineSegment::from(Point::new([4, 4])..=Point::new([9, 2])),
  ];
  assert_eq!(rgeometry::algorithms::segment_intersections(&s).count(), 1);
  let s: Vec<LineSegment<i32>> = vec![s[1].clone(), s[0].clone()];
  assert_eq!(rgeometry::algorithms::segment_intersections(&s).count(), 1);
}'''),
dict(id='g06_zero',property='G06',
 needs='two lines that cross exactly in the origin of the coordinate system',
 breaks='lines that cross in (0,0) are taken for coincident ones',
 edits=[('data/line.rs','''    Some(Point::new([x_num / denom.clone(), y_num / denom]))''','''    let zero = T::from_constant(0);
    if x_num == zero && y_num == zero {
      // The lines are identical.
      return None;
    }
    Some(Point::new([x_num / denom.clone(), y_num / denom]))''')],
 demo='''fn main() {
  let (a, b, c, d) = (Point::new([-2, -2]), Point::new([3, 3]), Point::new([-1, 1]), Point::new([4, -4]));
  let l = Line::new_through(&a, &b);
  let m = Line::new_through(&c, &d);
  assert_eq!(l.intersection_point(&m), Some(Point::new([0, 0])));
}'''),
dict(id='g07_through_side',property='G07',
 needs='a line given by two points and a segment with an end point exactly on it',
 breaks='lines through two points treat end points on the line as being to the right, lines along a vector to the left',
 edits=[('data/line.rs','''        l1_to_b1 = Point::orient(origin, through, b1).then(Orientation::CounterClockWise);
        l1_to_b2 = Point::orient(origin, through, b2).then(Orientation::CounterClockWise);''','''        l1_to_b1 = Point::orient(through, origin, b1)
          .then(Orientation::CounterClockWise)
          .reverse();
        l1_to_b2 = Point::orient(through, origin, b2)
          .then(Orientation::CounterClockWise)
          .reverse();''')],
 demo='''fn main() {
  let (o, t) = (Point::new([0, 0]), Point::new([5, 0]));
  let line: LineSoS<i32> = Line::new_through(&o, &t).into();
  // One end point on the line, the other one to the right: the first counts as left.
  let s = LineSegment::from(Point::new([2, 0])..=Point::new([3, -4]));
  assert!(line.intersect(s.as_ref()).is_some());
  let s = LineSegment::from(Point::new([2, 0])..=Point::new([3, 4]));
  assert!(line.intersect(s.as_ref()).is_none());
}'''),
dict(id='g08_view_ccw',property='G08',
 needs='a triangle view built from clockwise corners',
 breaks='the counter-clockwise constructor of triangle views returns a clockwise triangle',
 edits=[('data/triangle.rs','''TriangleView([pts[2], pts[1], pts[0]])''','''TriangleView([pts[2], pts[0], pts[1]])''')],
 demo='''fn main() {
  let (a, b, c) = (Point::new([0, 0]), Point::new([0, 5]), Point::new([5, 0]));
  let t = TriangleView::new_ccw([&a, &b, &c]);
  assert!(t.orientation().is_ccw());
}'''),
dict(id='g09_compose',property='G09',
 needs='composing a translation with a scaling by reference',
 breaks='composing transforms by reference applies the left one first',
 edits=[('transformation.rs','''    Transform::new(&self.0 * &other.0)''','''    Transform::new(&other.0 * &self.0)''')],
 demo='''fn main() {
  let t: Transform<i32, 2> = Transform::translate(Vector([3, 5]));
  let s: Transform<i32, 2> = Transform::uniform_scale(2);
  let p = Point::new([1, 1]);
  let st = &s * &t;
  assert_eq!(&st * &p, Point::new([8, 12]));
  let st = s * t;
  assert_eq!(&st * &p, Point::new([8, 12]));
}'''),
dict(id='g10_zero_dir',property='G10',
 needs='comparing two points along the zero vector',
 breaks='points compare as different along the zero vector',
 edits=[('data/vector.rs','''      Orientation::CoLinear => Ordering::Equal,
    }''','''      // Without a direction, fall back to the order of the points.
      Orientation::CoLinear if self.0.iter().all(|c| *c == T::from_constant(0)) => p.cmp(q),
      Orientation::CoLinear => Ordering::Equal,
    }''')],
 demo='''fn main() {
  let v = Vector([0, 0]);
  assert!(v.cmp_along(&Point::new([1, 2]), &Point::new([5, 1])).is_eq());
}'''),
dict(id='a02_bottom',property='A02',
 needs='three lowest points with the middle one listed first',
 breaks='gift wrapping starts in the middle of the bottom edge and keeps a straight vertex',
 edits=[('algorithms/convex_hull/gift_wrapping.rs','''    .min_by(|(_, a), (_, b)| {
      TotalOrd::total_cmp(&(a.y_coord(), a.x_coord()), &(b.y_coord(), b.x_coord()))
    })''','''    .min_by(|(_, a), (_, b)| a.y_coord().total_cmp(b.y_coord()))''')],
 demo='''fn main() {
  let pts: Vec<Point<i32>> = [(2, 0), (0, 0), (4, 0), (2, 4)].iter().map(|&(x, y)| Point::new([x, y])).collect();
  for r in 0..4 {
    let mut pts = pts.clone();
    pts.rotate_left(r);
    let h = rgeometry::algorithms::convex_hull::gift_wrapping::convex_hull(pts.clone()).unwrap();
    assert_eq!(h.validate(), Ok(()));
    assert_eq!(h.polygon().iter().count(), 3);
  }
}'''),
dict(id='a05_dedup',property='A05',
 needs='two points in the same direction from the centre',
 breaks='the star polygon silently drops points that share a direction',
 edits=[('algorithms/polygonization/star.rs','''  Polygon::new(vertices)''','''  // Two vertices in the same direction make the boundary overlap itself.
  vertices.dedup_by(|b, a| {
    point.ccw_cmp_around(a, b).is_eq() && point.cmp_distance_to(a, b).is_le()
  });
  Polygon::new(vertices)''')],
 demo='''fn main() {
  let pts: Vec<Point<i32>> = [(4, 0), (0, 4), (-4, -1), (0, 8), (1, -6)].iter().map(|&(x, y)| Point::new([x, y])).collect();
  if let Ok(p) = rgeometry::algorithms::polygonization::new_star_polygon(pts.clone(), &Point::new([0, 0])) {
    assert_eq!(p.iter().count(), pts.len());
  }
}'''),
dict(id='a06_dedup_first',property='A06',
 needs='a duplicated point whose copies are not next to each other in the list',
 breaks='building a monotone polygon from a list with scattered duplicates fails',
 edits=[('algorithms/polygonization/monotone.rs','''  points.sort_by(|prev, curr| {''','''  points.dedup();
  points.sort_by(|prev, curr| {'''),('algorithms/polygonization/monotone.rs','''  });

  points.dedup();
  if''','''  });

  if''')],
 demo='''fn main() {
  let pts: Vec<Point<i32>> = [(0, 0), (4, 1), (1, 5), (0, 0), (3, 3)].iter().map(|&(x, y)| Point::new([x, y])).collect();
  let p = rgeometry::algorithms::polygonization::new_monotone_polygon(pts, &Vector([1, 0])).unwrap();
  assert_eq!(p.validate(), Ok(()));
  assert_eq!(p.iter().count(), 4);
}'''),
]
