//! What every kernel must compute, and how to run the real one natively.
use crate::num::*;
use num_bigint::BigInt;
use num_traits::{Signed, ToPrimitive, Zero};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
  Orient,
  Along,
  Perp,
  Dist,
  CmpAlong,
}
pub const KINDS: [(Kind, &str); 5] =
  [(Kind::Orient, "orient"), (Kind::Along, "along"), (Kind::Perp, "perp"), (Kind::Dist, "dist"), (Kind::CmpAlong, "cmp_along")];

/// the polynomial whose sign is the answer; v = [p, second argument, r]
pub fn exact(k: Kind, v: &[Poly]) -> Poly {
  let (px, py, ax, ay, rx, ry) = (&v[0], &v[1], &v[2], &v[3], &v[4], &v[5]);
  let (wx, wy) = (rx.sub(px), ry.sub(py));
  match k {
    Kind::Orient => ax.sub(px).mul(&wy).sub(&ay.sub(py).mul(&wx)),
    Kind::Along => ax.mul(&wy).sub(&ay.mul(&wx)),
    Kind::Perp | Kind::CmpAlong => ax.mul(&wx).add(&ay.mul(&wy)).neg(),
    Kind::Dist => {
      let (ux, uy) = (ax.sub(px), ay.sub(py));
      ux.mul(&ux).add(&uy.mul(&uy)).sub(&wx.mul(&wx)).sub(&wy.mul(&wy))
    }
  }
}
pub fn sign(q: &Q) -> i64 {
  if q.is_zero() {
    0
  } else if q.is_negative() {
    -1
  } else {
    1
  }
}
pub fn exact_sign(k: Kind, v: &[Q]) -> i64 {
  let c: Vec<Poly> = v.iter().map(|x| Poly::c(x.clone())).collect();
  sign(&exact(k, &c).as_const().unwrap())
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Rep {
  Int(u32),
  Num(u64, bool),
  Float(u32),
}
pub struct Type {
  pub name: &'static str,
  pub module: &'static str,
  pub rep: Rep,
  pub nan: bool,
}
pub const TYPES: [Type; 14] = [
  Type { name: "i8", module: "t_i8", rep: Rep::Int(8), nan: false },
  Type { name: "i16", module: "t_i16", rep: Rep::Int(16), nan: false },
  Type { name: "i32", module: "t_i32", rep: Rep::Int(32), nan: false },
  Type { name: "i64", module: "t_i64", rep: Rep::Int(64), nan: false },
  Type { name: "isize", module: "t_isize", rep: Rep::Int(64), nan: false },
  Type { name: "BigInt", module: "t_big", rep: Rep::Num(32, true), nan: false },
  Type { name: "BigRational", module: "t_rat", rep: Rep::Num(64, false), nan: false },
  Type { name: "rug::Integer", module: "t_rug", rep: Rep::Num(16, true), nan: false },
  Type { name: "f32", module: "t_f32", rep: Rep::Float(32), nan: true },
  Type { name: "f64", module: "t_f64", rep: Rep::Float(64), nan: true },
  Type { name: "OrderedFloat<f32>", module: "t_of32", rep: Rep::Float(32), nan: true },
  Type { name: "OrderedFloat<f64>", module: "t_of64", rep: Rep::Float(64), nan: true },
  Type { name: "NotNan<f32>", module: "t_nn32", rep: Rep::Float(32), nan: false },
  Type { name: "NotNan<f64>", module: "t_nn64", rep: Rep::Float(64), nan: false },
];

pub fn to_f64(q: &Q) -> f64 {
  q.to_f64().unwrap_or(0.0)
}
pub fn to_f32(q: &Q) -> f32 {
  to_f64(q) as f32
}
/// the nearest value of the type
pub fn normalise(t: &Type, v: &Q) -> Option<Q> {
  match t.rep {
    Rep::Int(w) => {
      let i = v.round().to_integer();
      let (lo, hi) = (-pow2(w - 1), pow2(w - 1) - 1);
      Some(qi(i.max(lo).min(hi)))
    }
    Rep::Num(_, true) => Some(v.round()),
    Rep::Num(..) => Some(v.clone()),
    Rep::Float(32) => Q::from_float(to_f32(v)),
    Rep::Float(_) => Q::from_float(to_f64(v)),
  }
}

trait Of {
  fn of(q: &Q) -> Self;
  fn back(&self) -> Q;
}
macro_rules! of_int { ($($t:ty)*) => {$(impl Of for $t {
  fn of(q: &Q) -> Self { q.to_integer().to_i128().unwrap() as $t }
  fn back(&self) -> Q { qi((*self as i128).into()) }
})*} }
of_int!(i8 i16 i32 i64 isize);
impl Of for BigInt {
  fn of(q: &Q) -> Self {
    q.to_integer()
  }
  fn back(&self) -> Q {
    qi(self.clone())
  }
}
impl Of for Q {
  fn of(q: &Q) -> Self {
    q.clone()
  }
  fn back(&self) -> Q {
    self.clone()
  }
}
impl Of for kern::t_rug::T {
  fn of(q: &Q) -> Self {
    q.to_integer().to_string().parse().unwrap()
  }
  fn back(&self) -> Q {
    qi(self.to_string().parse().unwrap())
  }
}
impl Of for f32 {
  fn of(q: &Q) -> Self {
    to_f32(q)
  }
  fn back(&self) -> Q {
    Q::from_float(*self).unwrap()
  }
}
impl Of for f64 {
  fn of(q: &Q) -> Self {
    to_f64(q)
  }
  fn back(&self) -> Q {
    Q::from_float(*self).unwrap()
  }
}
impl Of for kern::t_of32::T {
  fn of(q: &Q) -> Self {
    to_f32(q).into()
  }
  fn back(&self) -> Q {
    self.0.back()
  }
}
impl Of for kern::t_of64::T {
  fn of(q: &Q) -> Self {
    to_f64(q).into()
  }
  fn back(&self) -> Q {
    self.0.back()
  }
}
impl Of for kern::t_nn32::T {
  fn of(q: &Q) -> Self {
    Self::new(to_f32(q)).unwrap()
  }
  fn back(&self) -> Q {
    self.into_inner().back()
  }
}
impl Of for kern::t_nn64::T {
  fn of(q: &Q) -> Self {
    Self::new(to_f64(q)).unwrap()
  }
  fn back(&self) -> Q {
    self.into_inner().back()
  }
}

macro_rules! dispatch {
  ($t:expr, $m:ident => $e:expr) => {
    match $t {
      "t_i8" => { use kern::t_i8 as $m; $e }
      "t_i16" => { use kern::t_i16 as $m; $e }
      "t_i32" => { use kern::t_i32 as $m; $e }
      "t_i64" => { use kern::t_i64 as $m; $e }
      "t_isize" => { use kern::t_isize as $m; $e }
      "t_big" => { use kern::t_big as $m; $e }
      "t_rat" => { use kern::t_rat as $m; $e }
      "t_rug" => { use kern::t_rug as $m; $e }
      "t_f32" => { use kern::t_f32 as $m; $e }
      "t_f64" => { use kern::t_f64 as $m; $e }
      "t_of32" => { use kern::t_of32 as $m; $e }
      "t_of64" => { use kern::t_of64 as $m; $e }
      "t_nn32" => { use kern::t_nn32 as $m; $e }
      _ => { use kern::t_nn64 as $m; $e }
    }
  };
}
pub fn guarded<X>(f: impl FnOnce() -> X) -> Result<X, String> {
  catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
    e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into())
  })
}
/// runs the real kernel on these values
pub fn native(module: &str, k: Kind, v: &[Q]) -> Result<i64, String> {
  dispatch!(module, m => {
    let f = |i: usize| -> [m::T; 2] { [Of::of(&v[i]), Of::of(&v[i + 1])] };
    let p = kern::point(f(0));
    let r = kern::point(f(4));
    guarded(|| match k {
      Kind::Orient => m::orient(&p, &kern::point(f(2)), &r),
      Kind::Dist => m::dist(&p, &kern::point(f(2)), &r),
      Kind::Along => m::along(&p, &kern::vector(f(2)), &r),
      Kind::Perp => m::perp(&p, &kern::vector(f(2)), &r),
      Kind::CmpAlong => m::cmp_along(&p, &kern::vector(f(2)), &r),
    } as i64)
  })
}
pub fn native_order(module: &str, a: &Q, b: &Q) -> Result<i64, String> {
  dispatch!(module, m => {
    let (a, b): (m::T, m::T) = (Of::of(a), Of::of(b));
    guarded(|| m::order(&a, &b) as i64)
  })
}
pub fn native_const(module: &str, c: i8) -> Result<Q, String> {
  dispatch!(module, m => guarded(|| Of::back(&m::constant(c))))
}
/// from bit patterns
pub fn native_order_bits(module: &str, a: u64, b: u64) -> Result<i64, String> {
  let (x, y) = (f64::from_bits(a), f64::from_bits(b));
  let (xs, ys) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
  guarded(|| match module {
    "t_f32" => kern::t_f32::order(&xs, &ys),
    "t_f64" => kern::t_f64::order(&x, &y),
    "t_of32" => kern::t_of32::order(&xs.into(), &ys.into()),
    "t_of64" => kern::t_of64::order(&x.into(), &y.into()),
    "t_nn32" => kern::t_nn32::order(&kern::t_nn32::T::new(xs).unwrap(), &kern::t_nn32::T::new(ys).unwrap()),
    _ => kern::t_nn64::order(&kern::t_nn64::T::new(x).unwrap(), &kern::t_nn64::T::new(y).unwrap()),
  } as i64)
}
