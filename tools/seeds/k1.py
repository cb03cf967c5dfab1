SEEDS=[
dict(id='k02_min_vector',property='K02',
 needs='a direction vector with a component equal to the smallest value of the type, along the perpendicular',
 breaks='the sign of the rotated x component is taken of its negation, which wraps for the smallest value',
 edits=[('lib.rs','''        let (ux, ux_neg) = (vector[1].unsigned_abs() as $ulong, vector[1] > 0);''','''        let rot_x = vector[1].wrapping_neg();
        let (ux, ux_neg) = (rot_x.unsigned_abs() as $ulong, rot_x < 0);''')],
 demo='''fn main() {
  let o = Point::new([0i32, 0]);
  // (0, MIN) rotated by 90 degrees points to the right
  let v = Vector([0, i32::MIN]);
  assert!(Point::orient_along_perp_vector(&o, &v, &Point::new([3, 1])).is_ccw());
  assert!(v.cmp_along(&Point::new([0, 1]), &Point::new([0, 5])).is_gt());
}'''),
dict(id='k02_both_neg',property='K02',
 needs='a perpendicular whose two products are both negative and differ',
 breaks='two negative products are compared by magnitude in the wrong direction when one factor is above half the range',
 edits=[('lib.rs','''        let (ux, ux_neg) = (vector[0].unsigned_abs() as $ulong, vector[0] < 0);
        let (vy, vy_neg) = diff(q[1], p[1]);''','''        let (ux, ux_neg) = (
          vector[0].checked_abs().unwrap_or(<$ty>::MAX) as $ulong,
          vector[0] < 0,
        );
        let (vy, vy_neg) = diff(q[1], p[1]);''')],
 demo='''fn main() {
  let o = Point::new([0i16, 0]);
  let v = Vector([i16::MIN, 1]);
  // the cross product is MIN * (-1) - 1 * MAX = 1
  assert!(Point::orient_along_vector(&o, &v, &Point::new([i16::MAX, -1])).is_ccw());
}'''),
dict(id='k03_both_overflow',property='K03',
 needs='both squared distances too large for the doubled width',
 breaks='distances that both overflow are reported as equal',
 edits=[('lib.rs','''        match (pq_overflow, pr_overflow) {
          (true, false) => Ordering::Greater,
          (false, true) => Ordering::Less,
          _ => pq_dist_squared.cmp(&pr_dist_squared),
        }''','''        match (pq_overflow, pr_overflow) {
          (true, false) => Ordering::Greater,
          (false, true) => Ordering::Less,
          (true, true) => (pq_x + pq_y).cmp(&(pr_x + pr_y)),
          (false, false) => pq_dist_squared.cmp(&pr_dist_squared),
        }''')],
 demo='''fn main() {
  let p = Point::new([i64::MIN, i64::MIN]);
  let q = Point::new([i64::MAX, 0]);
  let r = Point::new([5349707281435560837, 5349707281435560837]);
  let f = |x: i64| num_bigint::BigInt::from(x);
  let b = |p: &Point<i64>| Point::new([f(p.array[0]), f(p.array[1])]);
  assert_eq!(p.cmp_distance_to(&q, &r), b(&p).cmp_distance_to(&b(&q), &b(&r)));
}'''),
dict(id='k04_rug_dist',property='K04',
 needs='rug integers (an optional feature) and points left of or below the first one',
 breaks='the vertical difference of the second point enters the distance of rug points with its sign',
 edits=[('lib.rs','''    let pr_dist_squared: Self = pr_x.square() + pr_y.square();
    pq_dist_squared.cmp''','''    let pr_dist_squared: Self = pr_x.square() + &pr_y * pr_y.clone().abs();
    pq_dist_squared.cmp''')],
 features='rug',
 demo='''fn main() {
  let p = |x: i32, y: i32| Point::new([rug::Integer::from(x), rug::Integer::from(y)]);
  assert!(p(0, 0).cmp_distance_to(&p(3, 4), &p(4, 4)).is_lt());
  assert!(p(0, 0).cmp_distance_to(&p(3, -4), &p(1, 9)).is_lt());
  assert!(p(0, 0).cmp_distance_to(&p(0, 1), &p(1, 9)).is_lt());
}'''),
dict(id='k04_big_perp',property='K04',
 needs='the along-perpendicular predicate of BigInt or BigRational, which no test uses',
 breaks='the end of the perpendicular is taken on the wrong side, so the answers flip',
 edits=[('lib.rs','''          &[&p[0] - &vector[1], &p[1] + &vector[0]],
          q
        )
      }
    })*
  };
}

macro_rules! wrapped_floating_precision''','''          &[&p[0] - &vector[1], &p[1] + &vector[0]],
          &[&q[0] + &vector[0], q[1].clone()]
        )
      }
    })*
  };
}

macro_rules! wrapped_floating_precision''')],
 demo='''fn main() {
  let b = |x: i32| num_bigint::BigInt::from(x);
  let o = Point::new([b(0), b(0)]);
  let v = Vector([b(1), b(0)]);
  // the perpendicular points up: what lies on the y axis is colinear
  assert!(Point::orient_along_perp_vector(&o, &v, &Point::new([b(0), b(3)])).is_colinear());
}'''),
dict(id='k05_vector_f64',property='K05',
 needs='f64 coordinates whose sum with the vector is rounded',
 breaks='the end of the vector is computed with floating-point addition',
 edits=[('lib.rs','''        PolygonScalar::cmp_vector_slope(
          &[float_to_rational(vector[0]), float_to_rational(vector[1])],
          &[float_to_rational(p[0]), float_to_rational(p[1])],
          &[float_to_rational(q[0]), float_to_rational(q[1])],
        )''','''        // p + vector and q are on the same line as p iff there is no turn.
        <$ty as PolygonScalar>::cmp_slope(p, &[p[0] + vector[0], p[1] + vector[1]], q)''')],
 demo='''fn main() {
  let p = Point::new([1e16f64, 0.0]);
  let v = Vector([1.0, 1.0]);
  // 1e16 + 1 is rounded to 1e16
  assert!(Point::orient_along_vector(&p, &v, &Point::new([1e16 + 2.0, 2.0])).is_colinear());
}'''),
dict(id='k05_wrapped_dist',property='K05',
 needs='ordered floats whose squared distances differ by less than rounding',
 breaks='distances of wrapped floats are compared after rounding one of the differences',
 edits=[('lib.rs','''          &[float_to_rational(q[0].into_inner()), float_to_rational(q[1].into_inner())],
          &[float_to_rational(r[0].into_inner()), float_to_rational(r[1].into_inner())],
        )
      }

      // This function uses the arbitrary precision machinery of `geometry_predicates` to
      // quickly compute the orientation of three 2D points. This is about 10x-50x slower
      // than the inexact version.
      fn cmp_slope(p: &[Self; 2], q: &[Self; 2], r: &[Self; 2]) -> std::cmp::Ordering {
        float_cmp_slope(
          [p[0].into_inner()''','''          &[float_to_rational(q[0].into_inner()), float_to_rational(q[1].into_inner())],
          &[
            float_to_rational(r[0].into_inner()),
            float_to_rational(p[1].into_inner() - (p[1].into_inner() - r[1].into_inner())),
          ],
        )
      }

      // This function uses the arbitrary precision machinery of `geometry_predicates` to
      // quickly compute the orientation of three 2D points. This is about 10x-50x slower
      // than the inexact version.
      fn cmp_slope(p: &[Self; 2], q: &[Self; 2], r: &[Self; 2]) -> std::cmp::Ordering {
        float_cmp_slope(
          [p[0].into_inner()''')],
 demo='''fn main() {
  use ordered_float::OrderedFloat as F;
  let p = |x: f64, y: f64| Point::new([F(x), F(y)]);
  assert!(p(0.0, 1e16).cmp_distance_to(&p(0.0, 0.25), &p(0.0, 0.5)).is_gt());
}'''),
dict(id='k05_nan_order',property='K05',
 needs='a NaN coordinate',
 breaks='the total order of floats equates NaN with everything, so it is not transitive',
 edits=[('lib.rs','''          <$ty>::total_cmp(self, other)''','''          if *self == *other {
            return <$ty>::total_cmp(self, other);
          }
          self.partial_cmp(other).unwrap_or(Ordering::Equal)''')],
 demo='''fn main() {
  let c = |a: f64, b: f64| TotalOrd::total_cmp(&a, &b);
  assert!(c(1.0, 2.0).is_lt() && c(2.0, 1.0).is_gt());
  assert!(c(1.0, f64::NAN).is_ne() || c(f64::NAN, 2.0).is_ne());
}'''),
dict(id='k01_isize',property='K01',
 needs='isize coordinates whose differences do not fit 32 bits',
 breaks='the products of isize differences are computed in 64 bits and overflow',
 edits=[('lib.rs','fixed_precision!(isize, usize, i128, u128);','fixed_precision!(isize, usize, i64, u64);')],
 demo='''fn main() {
  let (p, q, r) = (Point::new([0isize, 0]), Point::new([1 << 40, 1 << 40]), Point::new([1 << 41, 1 << 41]));
  assert!(Point::orient(&p, &q, &r).is_colinear());
}'''),
dict(id='k01_float_filter',property='K01',
 needs='i64 coordinates whose products agree in their upper 53 bits',
 breaks='a floating-point filter decides the turn although the products are closer than their rounding errors',
 edits=[('lib.rs','''        match (ux_vy_neg, uy_vx_neg) {
          (true, false) => Ordering::Less,
          (false, true) => Ordering::Greater,
          (true, true) => (uy * vx).cmp(&(ux * vy)),
          (false, false) => (ux * vy).cmp(&(uy * vx)),
        }
      }

      fn cmp_vector_slope(''','''        match (ux_vy_neg, uy_vx_neg) {
          (true, false) => Ordering::Less,
          (false, true) => Ordering::Greater,
          (true, true) => (uy * vx).cmp(&(ux * vy)),
          (false, false) => {
            // Wide multiplications are slow: try floating-point numbers first.
            let left = ux as f64 * vy as f64;
            let right = uy as f64 * vx as f64;
            if (left - right).abs() >= 1.0 {
              return left.partial_cmp(&right).unwrap_or(Ordering::Equal);
            }
            (ux * vy).cmp(&(uy * vx))
          }
        }
      }

      fn cmp_vector_slope(''')],
 demo='''fn main() {
  // (2^53+1)^2 against (2^53+2)*2^53
  let k = 1i64 << 53;
  let (p, q, r) = (Point::new([0, 0]), Point::new([k + 1, k]), Point::new([k + 2, k + 1]));
  assert!(Point::orient(&p, &q, &r).is_ccw());
  let (q, r) = (Point::new([k + 1, k - 1]), Point::new([k + 3, k + 1]));
  assert!(Point::orient(&p, &q, &r).is_ccw());
  let (q, r) = (Point::new([k + 1, k + 1]), Point::new([k + 3, k + 3]));
  assert!(Point::orient(&p, &q, &r).is_colinear());
  let (q, r) = (Point::new([3 * k + 3, k + 1]), Point::new([3 * (k + 5), k + 5]));
  assert!(Point::orient(&p, &q, &r).is_colinear());
}'''),
dict(id='k06_break_ties',property='K06',
 needs='a colinear triple',
 breaks='ties are broken with two of the indices exchanged',
 edits=[('orientation.rs','      CoLinear => SoS::new(a, b, c),','      CoLinear => SoS::new(b, a, c),')],
 demo='''fn main() {
  use rgeometry::SoS;
  assert_eq!(Orientation::CoLinear.break_ties(1, 2, 3), SoS::new(1, 2, 3));
}'''),
dict(id='k06_then',property='K06',
 needs='a clockwise orientation with a tie breaker that disagrees',
 breaks='falling back to a tie breaker overrides a clockwise orientation',
 edits=[('orientation.rs','''      CounterClockWise => SoS::CounterClockWise,
      ClockWise => SoS::ClockWise,
      CoLinear => other,''','''      CounterClockWise => SoS::CounterClockWise,
      _ => other,''')],
 demo='''fn main() {
  use rgeometry::SoS;
  assert_eq!(Orientation::ClockWise.sos(SoS::CounterClockWise), SoS::ClockWise);
  assert_eq!(Orientation::CoLinear.sos(SoS::CounterClockWise), SoS::CounterClockWise);
}'''),
dict(id='k07_u64_shift',property='K07',
 needs='a u64 box whose width has its top bit 33 or more',
 breaks='the shift is one too small for wide u64 boxes, so the hash wraps around',
 edits=[('algorithms/zhash.rs','''    let width = zbox.max_x - zbox.min_x;
    let height = zbox.max_y - zbox.min_y;
    let x_r_shift = 32u32.saturating_sub(width.leading_zeros());''','''    let width = zbox.max_x - zbox.min_x;
    let height = zbox.max_y - zbox.min_y;
    let x_r_shift = 32u32.saturating_sub((width >> 1).leading_zeros());''')],
 demo='''fn main() {
  use rgeometry::algorithms::zhash::*;
  let (lo, hi) = (0u64, 1u64 << 40);
  let key = ZHashable::zhash_key(ZHashBox { min_x: &lo, max_x: &hi, min_y: &0, max_y: &1 });
  let h = |x: u64| ZHashable::zhash_fn(key, &Point::new([x, 0]));
  assert!(h(lo) <= h(hi / 2) && h(hi / 2) <= h(hi));
}'''),
dict(id='k07_f64_wrap',property='K07',
 needs='a point on the right or upper border of an f64 box',
 breaks='points on the upper border of the box are hashed to zero',
 edits=[('algorithms/zhash.rs','''    let y = ((point.y_coord() - min_y) / height * z_hash_max) as u32;''','''    let y = ((point.y_coord() - min_y) / height * (z_hash_max + 1.0)) as u64 as u32;''')],
 demo='''fn main() {
  use rgeometry::algorithms::zhash::*;
  let (lo, hi) = (0.0, 8.0);
  let key = ZHashable::zhash_key(ZHashBox { min_x: &lo, max_x: &hi, min_y: &lo, max_y: &hi });
  let h = |y: f64| ZHashable::zhash_fn(key, &Point::new([1.0, y]));
  assert!(h(lo) <= h(3.0) && h(3.0) <= h(hi));
}'''),
dict(id='k05_narrow_f32',property='K05',
 needs='f32 coordinates and the along-perpendicular predicate',
 breaks='the rotated vector is added to the point in f32',
 edits=[('lib.rs','''        PolygonScalar::cmp_perp_vector_slope(
          &[float_to_rational(vector[0]), float_to_rational(vector[1])],''','''        PolygonScalar::cmp_perp_vector_slope(
          &[
            float_to_rational(p[0] + vector[0] - p[0]),
            float_to_rational(vector[1]),
          ],''')],
 demo='''fn main() {
  let p = Point::new([1e8f32, 0.0]);
  let v = Vector([1.0, 0.0]);
  assert!(Point::orient_along_perp_vector(&p, &v, &Point::new([0.0, 5.0])).is_ccw());
}'''),
]
