//! Entry points for the IR executor: one monomorphic function per kernel and scalar type.
#![allow(clippy::all)]
use num_bigint::BigInt;
use num_rational::BigRational;
use ordered_float::{NotNan, OrderedFloat};
use rgeometry::algorithms::zhash::{zhash_pair, zunhash_pair, ZHashBox, ZHashable};
use rgeometry::data::{Point, Vector};
use rgeometry::{Orientation, PolygonScalar, SoS, TotalOrd};

fn o(o: Orientation) -> i8 {
  match o {
    Orientation::ClockWise => -1,
    Orientation::CoLinear => 0,
    Orientation::CounterClockWise => 1,
  }
}
fn s(o: SoS) -> i8 {
  match o {
    SoS::ClockWise => -1,
    SoS::CounterClockWise => 1,
  }
}
fn un(o: i8) -> Orientation {
  match o {
    -1 => Orientation::ClockWise,
    0 => Orientation::CoLinear,
    _ => Orientation::CounterClockWise,
  }
}

macro_rules! kernels {
  ($($m:ident $t:ty;)*) => {$(
    pub mod $m {
      use super::*;
      pub type T = $t;
      pub fn orient(p: &Point<T>, q: &Point<T>, r: &Point<T>) -> i8 { o(Point::orient(p, q, r)) }
      pub fn along(p: &Point<T>, v: &Vector<T, 2>, r: &Point<T>) -> i8 { o(Point::orient_along_vector(p, v, r)) }
      pub fn perp(p: &Point<T>, v: &Vector<T, 2>, r: &Point<T>) -> i8 { o(Point::orient_along_perp_vector(p, v, r)) }
      pub fn dist(p: &Point<T>, q: &Point<T>, r: &Point<T>) -> i8 { p.cmp_distance_to(q, r) as i8 }
      pub fn cmp_along(p: &Point<T>, v: &Vector<T, 2>, r: &Point<T>) -> i8 { v.cmp_along(p, r) as i8 }
      pub fn order(a: &T, b: &T) -> i8 { TotalOrd::total_cmp(a, b) as i8 }
      pub fn constant(c: i8) -> T { <T as PolygonScalar>::from_constant(c) }
    }
  )*};
}
kernels! {
  t_i8 i8; t_i16 i16; t_i32 i32; t_i64 i64; t_isize isize;
  t_big BigInt; t_rat BigRational; t_rug rug::Integer;
  t_f32 f32; t_f64 f64; t_of32 OrderedFloat<f32>; t_of64 OrderedFloat<f64>; t_nn32 NotNan<f32>; t_nn64 NotNan<f64>;
}
pub mod t_u32 {
  use super::*;
  pub fn order(a: &u32, b: &u32) -> i8 { TotalOrd::total_cmp(a, b) as i8 }
}
pub mod t_sos {
  use super::*;
  pub fn sos_new(a: u32, b: u32, c: u32) -> i8 { s(SoS::new(a, b, c)) }
  pub fn break_ties(x: i8, a: u32, b: u32, c: u32) -> i8 { s(un(x).break_ties(a, b, c)) }
  pub fn sos(x: i8, y: i8) -> i8 { s(un(x).sos(if y < 0 { SoS::ClockWise } else { SoS::CounterClockWise })) }
  pub fn then(x: i8, y: i8) -> i8 { o(un(x).then(un(y))) }
  pub fn reverse(x: i8) -> i8 { o(un(x).reverse()) }
  pub fn sos_reverse(y: i8) -> i8 { s((if y < 0 { SoS::ClockWise } else { SoS::CounterClockWise }).reverse()) }
  pub fn sos_orient(y: i8) -> i8 { o((if y < 0 { SoS::ClockWise } else { SoS::CounterClockWise }).orient()) }
}
macro_rules! hashes {
  ($($m:ident $t:ty;)*) => {$(
    pub mod $m {
      use super::*;
      /// hashes of two points under the key of a box [x0,y0,x1,y1]
      pub fn hash2(b: &[$t; 4], p: &Point<$t>, q: &Point<$t>, out: &mut [u64; 2]) {
        let key = ZHashable::zhash_key(ZHashBox { min_x: &b[0], max_x: &b[2], min_y: &b[1], max_y: &b[3] });
        out[0] = ZHashable::zhash_fn(key, p);
        out[1] = ZHashable::zhash_fn(key, q);
      }
    }
  )*};
}
hashes! { h_i8 i8; h_i64 i64; h_u32 u32; h_u64 u64; h_f64 f64; }
pub mod h {
  use super::*;
  pub fn roundtrip(a: u32, b: u32, out: &mut [u32; 2]) {
    let (x, y) = zunhash_pair(zhash_pair(a, b));
    out[0] = x;
    out[1] = y;
  }
  pub fn back(w: u64) -> u64 {
    let (x, y) = zunhash_pair(w);
    zhash_pair(x, y)
  }
  pub fn pair(a: u32, b: u32) -> u64 { zhash_pair(a, b) }
}
pub fn point<T>(a: [T; 2]) -> Point<T> { Point { array: a } }
pub fn vector<T>(a: [T; 2]) -> Vector<T, 2> { Vector(a) }
