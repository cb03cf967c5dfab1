SEEDS=[{'id': 'a07_axis',
  'property': 'A07',
  'needs': 'a vertical sight line that crosses the boundary more than once',
  'breaks': 'the first edge crossed in list order counts as the nearest one on vertical sight lines',
  'edits': [('algorithms/visibility/naive.rs',
             '        if self.origin.cmp_distance_to(&intersection, previous) == Ordering::Less {',
             '        // All crossings lie on one ray from the origin: comparing a coordinate is enough.\n'
             '        let order = intersection.x_coord().total_cmp(previous.x_coord());\n'
             '        let order = if previous.x_coord() < self.origin.x_coord() {\n'
             '          order.reverse()\n'
             '        } else {\n'
             '          order\n'
             '        };\n'
             '        if order == Ordering::Less {')],
  'demo': 'fn main() {\n'
          '  // a block hangs over the point\n'
          '  let ring: Vec<Point<i32>> = [(0, 0), (6, 0), (6, 8), (0, 8), (0, 5), (3, 5), (4, 3), (0, 3)].iter().map(|&(x, y)| Point::new([x, '
          'y])).collect();\n'
          '  for r in 0..ring.len() {\n'
          '    let mut ring = ring.clone();\n'
          '    ring.rotate_left(r);\n'
          '    let p = Polygon::new(ring).unwrap();\n'
          '    let v = rgeometry::algorithms::visibility::naive::get_visibility_polygon(&Point::new([3, 1]), &p).unwrap();\n'
          '    assert_eq!(v.locate(&Point::new([3, 6])), PointLocation::Outside);\n'
          '    let w = rgeometry::algorithms::visibility::naive::get_visibility_polygon(&Point::new([3, 7]), &p).unwrap();\n'
          '    assert_eq!(w.locate(&Point::new([3, 2])), PointLocation::Outside);\n'
          '  }\n'
          '}'},
 {'id': 'p09_retry',
  'property': 'P09',
  'needs': 'a random stream whose first vectors are all parallel',
  'breaks': 'generating a random convex polygon fails instead of drawing again',
  'edits': [('data/polygon/convex.rs',
             '      if let Ok(p) = crate::algorithms::convex_hull(vertices) {\n        return p;\n      }\n    }\n  }\n}',
             '      // If all but one vertex are the same then give up and try again.\n'
             '      if vertices.windows(2).any(|w| w[0] != w[1]) {\n'
             '        return crate::algorithms::convex_hull(vertices).expect("the vertices are not all the same");\n'
             '      }\n'
             '    }\n'
             '  }\n'
             '}')],
  'demo': 'use rand::SeedableRng;\n'
          'fn main() {\n'
          '  for seed in 0..60000 {\n'
          '    let mut rng = rand::rngs::SmallRng::seed_from_u64(seed);\n'
          '    let p = PolygonConvex::<i8>::random(3, &mut rng);\n'
          '    assert_eq!(p.validate(), Ok(()));\n'
          '  }\n'
          '}'}]
