SEEDS=[
dict(id='p01_closing',property='P01',
 needs='a list whose only crossing is between the closing edge and the second edge',
 breaks='Polygon::new and validate accept rings whose closing edge crosses the second edge',
 edits=[('data/polygon.rs','''    let mut isects = crate::algorithms::segment_intersections(&edges);
    if isects.next().is_some() {
      return Err(Error::SelfIntersections);
    }''','''    // Neighbouring edges always share a vertex, so only edges that are not adjacent have to be
    // tested against each other.
    let n = edges.len();
    for i in 0..n {
      for j in i + 2..n {
        if i <= 1 && j == n - 1 {
          continue;
        }
        if edges[i].intersect(edges[j]).is_some() {
          return Err(Error::SelfIntersections);
        }
      }
    }''')],
 demo='''fn main() {
  let ok: Vec<Point<i32>> = [(0, 0), (6, 0), (6, 6), (0, 6)].iter().map(|&(x, y)| Point::new([x, y])).collect();
  assert!(Polygon::new(ok).is_ok());
  for pts in [[(0, 0), (6, 0), (1, 5), (6, 6), (2, 2)], [(0, 0), (6, 0), (0, 6), (6, 5), (3, 2)]] {
    let pts: Vec<Point<i32>> = pts.iter().map(|&(x, y)| Point::new([x, y])).collect();
    for r in 0..pts.len() {
      let mut v = pts.clone();
      v.rotate_left(r);
      let simple = {
        let e: Vec<_> = (0..v.len()).map(|i| DirectedEdge { src: &v[i], dst: &v[(i + 1) % v.len()] }).collect();
        let n = rgeometry::algorithms::segment_intersections(&e).count();
        n == 0
      };
      assert_eq!(Polygon::new(v).is_ok(), simple);
    }
  }
  // A bow tie.
  let pts = [(0, 0), (4, 4), (8, 0), (8, 8), (4, -1)];
  let pts: Vec<Point<i32>> = pts.iter().map(|&(x, y)| Point::new([x, y])).collect();
  for r in 0..pts.len() {
    let mut v = pts.clone();
    v.rotate_left(r);
    assert!(Polygon::new(v).is_err());
  }
}'''),
dict(id='p02_top_edge',property='P02',
 needs='a query point on the topmost vertex or edge of the polygon',
 breaks='points on the top of the polygon are reported outside instead of on the boundary',
 edits=[('data/polygon.rs','''    let direction = Vector::unit_right();
    let ray = HalfLineSoS::new_directed(origin, &direction);''','''    // Cheap rejection of points that are above or below every vertex.
    let above = self
      .iter_boundary()
      .any(|v| v.point().y_coord() > origin.y_coord());
    let below = self
      .iter_boundary()
      .any(|v| v.point().y_coord() <= origin.y_coord());
    if !above || !below {
      return PointLocation::Outside;
    }

    let direction = Vector::unit_right();
    let ray = HalfLineSoS::new_directed(origin, &direction);''')],
 demo='''fn main() {
  let pts: Vec<Point<i32>> = [(0, 0), (4, 0), (4, 4), (0, 4)].iter().map(|&(x, y)| Point::new([x, y])).collect();
  let p = Polygon::new(pts).unwrap();
  assert_eq!(p.locate(&Point::new([2, 4])), PointLocation::OnBoundary);
  assert_eq!(p.locate(&Point::new([2, 0])), PointLocation::OnBoundary);
  assert_eq!(p.locate(&Point::new([2, 2])), PointLocation::Inside);
}'''),
dict(id='p02_horizontal',property='P02',
 needs='a horizontal edge at the height of the query point, to its right',
 breaks='horizontal edges to the right of the query point are counted as crossings',
 edits=[('data/line.rs','''      (CoLinear, CoLinear) => None,''','''      (CoLinear, CoLinear) => {
        // The segment lies on the line: There is a crossing if it is in front of the origin.
        match self.line.direction {
          Direction::Vector(v)
            if Orientation::along_perp_vector(origin, v, b1).is_cw()
              && Orientation::along_perp_vector(origin, v, b2).is_cw()
              && b1 != b2 =>
          {
            Some(Crossing(CounterClockWise))
          }
          _ => None,
        }
      }''')],
 demo='''fn main() {
  let pts: Vec<Point<i32>> = [(0, 0), (6, 0), (6, 6), (4, 6), (4, 3), (2, 3), (2, 6), (0, 6)].iter().map(|&(x, y)| Point::new([x, y])).collect();
  let p = Polygon::new(pts).unwrap();
  assert_eq!(p.locate(&Point::new([1, 3])), PointLocation::Inside);
  assert_eq!(p.locate(&Point::new([-1, 0])), PointLocation::Outside);
}'''),
dict(id='p03_bbox_reversed',property='P03',
 needs='a polygon built from a clockwise list whose first point is no extreme one',
 breaks='the bounding box of a polygon that was given clockwise may miss a vertex',
 edits=[('data/polygon.rs','''    let mut min_x = self.points[self.rings[0][0].usize()].x_coord().clone();
    let mut max_x = self.points[self.rings[0][0].usize()].x_coord().clone();
    let mut min_y = self.points[self.rings[0][0].usize()].y_coord().clone();
    let mut max_y = self.points[self.rings[0][0].usize()].y_coord().clone();
    for pt in self.iter_boundary() {''','''    let first = &self.points[0];
    let mut min_x = first.x_coord().clone();
    let mut max_x = first.x_coord().clone();
    let mut min_y = first.y_coord().clone();
    let mut max_y = first.y_coord().clone();
    // The first vertex has been taken care of.
    for pt in self.iter_boundary().skip(1) {''')],
 demo='''fn main() {
  // Clockwise: the ring gets reversed and starts with the last point.
  let pts: Vec<Point<i32>> = [(1, 1), (0, 5), (5, 6), (9, 1), (4, -3)].iter().map(|&(x, y)| Point::new([x, y])).collect();
  let p = Polygon::new(pts).unwrap();
  assert_eq!(p.bounding_box(), (Point::new([0, -3]), Point::new([9, 6])));
}'''),
dict(id='p03_centroid_cw',property='P03',
 needs='a clockwise ring (for example mirrored by a point map)',
 breaks='the centroid of clockwise rings comes out negated',
 edits=[('data/polygon.rs','''    let three = T::from_constant(3);
    Point::from(xs / (three * self.signed_area_2x()))''','''    let three = T::from_constant(3);
    // An area is never negative.
    let mut area_2x: T = self.signed_area_2x();
    if area_2x < T::from_constant(0) {
      area_2x = -area_2x;
    }
    Point::from(xs / (three * area_2x))''')],
 demo='''fn main() {
  let pts: Vec<Point<i32>> = [(3, 3), (9, 3), (9, 9), (3, 9)].iter().map(|&(x, y)| Point::new([x, y])).collect();
  let p = Polygon::new(pts).unwrap();
  assert_eq!(p.centroid(), Point::new([6, 6]));
  let mirrored = p.map_points(|p| Point::new([-p.array[0], p.array[1]]));
  assert_eq!(mirrored.centroid(), Point::new([-6, 6]));
}'''),
dict(id='p04_leftmost_tie',property='P04',
 needs='three vertices on the leftmost vertical line, the middle one first in the ring',
 breaks='the orientation of polygons with a straight vertex on the leftmost edge is colinear',
 edits=[('data/polygon.rs','''self.iter_boundary().min_by(|a, b| a.point().cmp(b.point()))''','''self
      .iter_boundary()
      .min_by(|a, b| a.point().x_coord().total_cmp(b.point().x_coord()))''')],
 demo='''fn main() {
  let pts: Vec<Point<i32>> = [(0, 1), (0, 0), (5, 0), (5, 5), (0, 5)].iter().map(|&(x, y)| Point::new([x, y])).collect();
  let p = Polygon::new_unchecked(pts);
  assert_eq!(p.orientation(), Orientation::CounterClockWise);
}'''),
dict(id='p05_cast_order',property='P05',
 needs='a polygon that was given clockwise, so its ring order differs from its storage order',
 breaks='casting a polygon changes the order of its vertices',
 edits=[('data/polygon.rs','''    let pts = self.points.into_iter().map(|p| p.cast()).collect();''','''    let pts = self
      .iter_boundary()
      .map(|vertex| vertex.point().cast())
      .collect();''')],
 demo='''fn main() {
  let pts: Vec<Point<i32>> = [(0, 0), (0, 4), (3, 5), (4, 0)].iter().map(|&(x, y)| Point::new([x, y])).collect();
  let p = Polygon::new(pts).unwrap();
  let a: Vec<Point<i64>> = p.iter_boundary().map(|c| c.point().cast()).collect();
  let q: Polygon<i64> = p.cast();
  let b: Vec<Point<i64>> = q.iter_boundary().map(|c| *c.point()).collect();
  assert_eq!(a, b);
}'''),
dict(id='p05_equals_repeat',property='P05',
 needs='rings with a repeated vertex (weakly simple rings)',
 breaks='equality of rings that visit a vertex twice depends on where the ring starts',
 edits=[('data/polygon.rs','''    for pos in self.iter_boundary() {
      let iter = CursorIter {
        cursor_head: pos,
        cursor_tail: pos.prev(),
        exhausted: false,
      };
      if iter == other.iter_boundary() {
        return true;
      }
    }
    false''','''    // Line up the two rings at the first vertex of the other polygon.
    let root = match other.iter_boundary().next() {
      Some(root) => root,
      None => return true,
    };
    match self
      .iter_boundary()
      .find(|pos| pos.point().total_cmp(root.point()).is_eq())
    {
      Some(pos) => pos.to(Unbounded) == root.to(Unbounded),
      None => false,
    }''')],
 demo='''fn main() {
  // A ring that visits (0,0) twice.
  let pts: Vec<Point<i32>> = [(0, 0), (2, -1), (2, 1), (0, 0), (-2, 1), (-3, -1)].iter().map(|&(x, y)| Point::new([x, y])).collect();
  let mut rot = pts.clone();
  rot.rotate_left(3);
  let p = Polygon::new_unchecked(pts);
  let q = Polygon::new_unchecked(rot);
  assert!(p.equals(&q));
}'''),
dict(id='p06_top',property='P06',
 needs='a vertex on the horizontal top edge of a corner triangle',
 breaks='ears are clipped although a vertex lies on their horizontal diagonal',
 edits=[('algorithms/triangulation/earclip.rs','''      if trig.locate(focus.point()) != PointLocation::Outside {
        return false;
      }
      focus = focus.next();''','''      // Vertices above the triangle cannot be inside of it.
      if !(above(a, focus) && above(b, focus) && above(c, focus))
        && trig.locate(focus.point()) != PointLocation::Outside
      {
        return false;
      }
      focus = focus.next();'''),('algorithms/triangulation/earclip.rs','''fn is_ear<T>(''','''fn above<T: PolygonScalar>(base: Cursor<'_, T>, pt: Cursor<'_, T>) -> bool {
  !base
    .point()
    .y_coord()
    .total_cmp(pt.point().y_coord())
    .is_gt()
}

fn is_ear<T>('''),('algorithms/triangulation/earclip.rs','''use crate::PolygonScalar;
''','''use crate::PolygonScalar;
use crate::TotalOrd;
''')],
 demo='''fn main() {
  // Straight vertices in a rings, some on a diagonal: they lie inside of corner triangles with an edge through it.
  use rgeometry::algorithms::triangulation::earclip::triangulate_list;
  use rand::SeedableRng;
  let rings: Vec<Vec<(i32, i32)>> = vec![
    vec![(0, 0), (4, 0), (4, 4), (2, 2), (1, 1)],
    vec![(0, 0), (6, 0), (3, 3), (2, 2), (1, 1)],
    vec![(0, 0), (3, 0), (6, 0), (6, 6)],
    vec![(0, 0), (2, 0), (4, 0), (4, 2), (4, 4), (2, 4), (0, 4), (0, 2)],
    vec![(0, 0), (8, 0), (8, 8), (4, 2), (2, 1)],
    vec![(0, 4), (4, 0), (8, 4), (6, 4), (4, 4), (4, 9)],
    vec![(0, 4), (4, 0), (8, 4), (4, 4), (2, 9)],
  ];
  for ring in rings {
    let pts: Vec<Point<i32>> = ring.iter().map(|&(x, y)| Point::new([x, y])).collect();
    let p = Polygon::new(pts.clone()).unwrap();
    let order: Vec<PointId> = p.boundary_slice().to_vec();
    for seed in 0..200 {
      let rng = rand::rngs::SmallRng::seed_from_u64(seed);
      let tris: Vec<_> = std::panic::catch_unwind(|| triangulate_list(&pts, &order, rng).collect::<Vec<_>>()).expect("triangulation failed");
      assert_eq!(tris.len(), pts.len() - 2);
      let mut area = 0;
      for (a, b, c) in tris {
        let t = Triangle::new([*p.point(a), *p.point(b), *p.point(c)]).unwrap();
        area += t.view().signed_area_2x::<i32>();
        for q in &pts {
          assert!(t.locate(q) != PointLocation::Inside);
        }
      }
      assert_eq!(area, p.signed_area_2x::<i32>());
    }
  }
}'''),
dict(id='p07_between',property='P07',
 needs='a small ear next to far away vertices, so that the whole ear has one hash value',
 breaks='blocking vertices with the same hash as the box corner are not seen',
 edits=[('algorithms/triangulation/earclip.rs','''    self.hash() >= min && self.hash() <= max''','''    (min..max).contains(&self.hash())''')],
 demo='''fn main() {
  use rgeometry::algorithms::triangulation::earclip::earclip_hashed;
  // A far away vertex makes the hash too coarse to tell the near ones apart.
  let b = 1i64 << 40;
  let ring = vec![(0, 0), (200, 0), (100, 200), (100, 50), (-b, b)];
  let mut pts: Vec<Point<i64>> = ring.iter().map(|&(x, y)| Point::new([x, y])).collect();
  for _ in 0..5 {
    pts.rotate_left(1);
    let p = Polygon::new(pts.clone()).unwrap();
    let mut area = 0i128;
    for (a, b, c) in earclip_hashed(&p) {
      let t = Triangle::new([*p.point(a), *p.point(b), *p.point(c)]).unwrap();
      area += t.view().signed_area_2x::<i128>();
      for q in p.iter() {
        assert!(t.locate(q) != PointLocation::Inside);
      }
    }
    assert_eq!(area, p.signed_area_2x::<i128>());
  }
}'''),
dict(id='p08_winding',property='P08',
 needs='a ring that winds around more than once and turns left at every vertex (a pentagram)',
 breaks='validation of convex polygons accepts star polygons',
 edits=[('data/polygon/convex.rs','''    self.0.validate()
  }''','''    // A ring which turns left at every vertex has neither holes nor self-intersections.
    if self.0.iter_boundary().len() < 3 {
      return Err(Error::InsufficientVertices);
    }
    Ok(())
  }''')],
 demo='''fn main() {
  let pts: Vec<Point<i32>> = [(0, 10), (-6, -8), (9, 3), (-9, 3), (6, -8)].iter().map(|&(x, y)| Point::new([x, y])).collect();
  let p = PolygonConvex::new_unchecked(Polygon::new_unchecked(pts));
  assert!(p.validate().is_err());
}'''),
dict(id='p08_locate_last',property='P08',
 needs='a query point on the supporting line of the edge from the first to the last vertex',
 breaks='the binary search ends in the wrong triangle for points on a diagonal from the first vertex',
 edits=[('data/polygon/convex.rs','''      if Point::orient(p0, poly.point(vertices[middle]), pt) == Orientation::CounterClockWise {
        lower = middle;
      } else {
        upper = middle;
      }''','''      match Point::orient(p0, poly.point(vertices[middle]), pt) {
        Orientation::ClockWise => upper = middle,
        _ => lower = middle,
      }''')],
 demo='''fn main() {
  let pts: Vec<Point<i32>> = [(0, 0), (4, 0), (6, 6), (0, 4)].iter().map(|&(x, y)| Point::new([x, y])).collect();
  let p = PolygonConvex::new_unchecked(Polygon::new(pts).unwrap());
  for x in -1..8 {
    for y in -1..8 {
      let q = Point::new([x, y]);
      assert_eq!(p.locate(&q), p.polygon().locate(&q), "{q:?}");
    }
  }
}'''),
dict(id='p10_ear_boundary',property='P10',
 needs='a vertex exactly on the diagonal or an edge of the corner triangle',
 breaks='corners are reported to be ears although a vertex lies on their diagonal',
 edits=[('data/polygon.rs','''        if trig.locate(pt.point()) != PointLocation::Outside {
          return false;
        }
      }
      true''','''        if trig.locate(pt.point()) == PointLocation::Inside {
          return false;
        }
      }
      true''')],
 demo='''fn main() {
  let pts: Vec<Point<i32>> = [(0, 0), (4, 0), (4, 4), (2, 2), (0, 4)].iter().map(|&(x, y)| Point::new([x, y])).collect();
  let p = Polygon::new(pts).unwrap();
  // The diagonal from (0,4) to (4,0) runs through (2,2).
  let c = p.iter_boundary().next().unwrap();
  assert!(!c.is_ear());
}'''),
]
