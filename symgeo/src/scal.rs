//! Scalars: the symbolic `Sym` and the native `Cnt`, both accepted by the real generic code.
use crate::engine::*;
use crate::poly::Poly;
use num_bigint::BigInt;
use num_rational::BigRational;
use num_traits::{FromPrimitive, One, Signed, Zero};
use rgeometry::algorithms::zhash::{zhash_pair, ZHashBox, ZHashable};
use rgeometry::data::{Point, Vector};
use rgeometry::{PolygonScalar, TotalOrd};
use std::cmp::Ordering;
use std::iter::Sum;
use std::ops::*;

/// Largest value of a symbolic scalar, where an algorithm asks for one.
pub const MAX: i64 = 12;
macro_rules! bounded {
  ($t:ty) => {
    impl num_traits::Bounded for $t {
      fn min_value() -> $t {
        <$t>::int(-MAX - 1)
      }
      fn max_value() -> $t {
        <$t>::int(MAX)
      }
    }
  };
}
bounded!(Sym);
bounded!(Cnt);

/// What harnesses need from a scalar.
pub trait Scal:
  PolygonScalar + Zero + One + FromPrimitive + MulAssign + ZHashable + 'static
{
  fn var(i: usize) -> Self;
  fn int(i: i64) -> Self;
  fn sgn_in(&self, mask: u8) -> F;
}

// ------------------------------------------------------------------ Sym

/// num/den, interned polynomials; den == ONE for everything but quotients.
#[derive(Clone, Copy)]
pub struct Sym {
  pub n: PolyId,
  pub d: PolyId,
}

thread_local! {
  /// results of arithmetic on scalars made by the code under test; recorded inside `lib` only
  static REC: std::cell::RefCell<Vec<PolyId>> = const { std::cell::RefCell::new(vec![]) };
  static IN_LIB: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
fn rec(s: Sym) -> Sym {
  if IN_LIB.with(|c| c.get()) && p_get(s.n).0.iter().any(|t| t.0 != 0) {
    REC.with(|r| r.borrow_mut().push(s.n));
  }
  s
}
/// No recording while alive (scalar predicates are the subject of other properties).
pub struct Quiet(bool);
impl Quiet {
  pub fn new() -> Quiet {
    Quiet(IN_LIB.with(|c| c.replace(false)))
  }
}
impl Drop for Quiet {
  fn drop(&mut self) {
    IN_LIB.with(|c| c.set(self.0))
  }
}
struct Loud(bool);
impl Drop for Loud {
  fn drop(&mut self) {
    IN_LIB.with(|c| c.set(self.0))
  }
}
/// Run code under test, recording the scalar arithmetic it does.
pub fn lib<R>(f: impl FnOnce() -> R) -> R {
  let _g = Loud(IN_LIB.with(|c| c.replace(true)));
  f()
}
pub fn recorded(clear: bool) -> Vec<PolyId> {
  REC.with(|r| if clear { std::mem::take(&mut *r.borrow_mut()) } else { r.borrow().clone() })
}

fn one_id() -> PolyId {
  thread_local!(static ONE: PolyId = intern(Poly::constant(1)));
  ONE.with(|x| *x)
}

impl Sym {
  pub fn p(n: PolyId) -> Sym {
    Sym { n, d: one_id() }
  }
  fn cmp_sym(&self, o: &Sym) -> Ordering {
    let _q = Quiet::new();
    let d = *self - *o;
    d.sign3()
  }
  /// three-way branch on the sign
  fn sign3(&self) -> Ordering {
    let (p, flip) = self.strip();
    let o = [Ordering::Less, Ordering::Equal, Ordering::Greater][decide(p, &[NEG, ZERO, POS])];
    if flip {
      o.reverse()
    } else {
      o
    }
  }
  /// A polynomial of the same sign (or the opposite one): the numerator without factors that are divisors of
  /// quotients (not zero, so of known sign on this path).
  fn strip(&self) -> (PolyId, bool) {
    let (mut n, mut flip) = (self.n, false);
    if p_const(self.d) == Some(1) {
      return (n, flip);
    }
    BASE.with(|b| {
      for &f in b.borrow().iter() {
        let s = known_sign(f);
        if s != POS && s != NEG {
          continue;
        }
        while p_const(n).is_none() {
          match p_div(n, f) {
            Some(q) => {
              n = q;
              flip ^= s == NEG;
            }
            None => break,
          }
        }
      }
    });
    (n, flip)
  }
  /// n/d with d > 0, common divisors cancelled
  fn quotient(mut n: PolyId, mut d: PolyId) -> Sym {
    if p_const(d) != Some(1) {
      BASE.with(|b| {
        let zero = intern(Poly::zero());
        for &f in b.borrow().iter() {
          let s = known_sign(f);
          while p_const(d).is_none() && (s == POS || s == NEG) {
            match (p_div(n, f), p_div(d, f)) {
              (Some(a), Some(b)) => {
                n = if s == NEG { p_sub(zero, a) } else { a };
                d = if s == NEG { p_sub(zero, b) } else { b };
              }
              _ => break,
            }
          }
        }
      });
    }
    Sym { n, d }
  }
  /// (a, b) with self = a/(d a'), o = b/(d b'): numerators over a common denominator
  fn common(&self, o: &Sym) -> (PolyId, PolyId, PolyId) {
    if self.d == o.d {
      return (self.n, o.n, self.d);
    }
    if let Some(q) = p_div(self.d, o.d) {
      return (self.n, p_mul(o.n, q), self.d);
    }
    if let Some(q) = p_div(o.d, self.d) {
      return (p_mul(self.n, q), o.n, o.d);
    }
    (p_mul(self.n, o.d), p_mul(o.n, self.d), p_mul(self.d, o.d))
  }
}
thread_local! {
  /// the polynomials divided by so far
  static BASE: std::cell::RefCell<Vec<PolyId>> = const { std::cell::RefCell::new(vec![]) };
}

impl std::fmt::Debug for Sym {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    write!(f, "s{}/{}", self.n, self.d)
  }
}
impl Add for Sym {
  type Output = Sym;
  fn add(self, o: Sym) -> Sym {
    let (a, b, d) = self.common(&o);
    rec(Sym::quotient(p_add(a, b), d))
  }
}
impl Sub for Sym {
  type Output = Sym;
  fn sub(self, o: Sym) -> Sym {
    let (a, b, d) = self.common(&o);
    rec(Sym::quotient(p_sub(a, b), d))
  }
}
impl Mul for Sym {
  type Output = Sym;
  fn mul(self, o: Sym) -> Sym {
    rec(Sym::quotient(p_mul(self.n, o.n), p_mul(self.d, o.d)))
  }
}
impl Div for Sym {
  type Output = Sym;
  fn div(self, o: Sym) -> Sym {
    let sign = decide(o.n, &[NEG, ZERO, POS]);
    if sign == 1 {
      panic!("division by zero");
    }
    // constant divisors of a divisible polynomial simplify
    if self.d == one_id() && o.d == one_id() {
      if let Some(c) = p_const(o.n) {
        let p = p_get(self.n);
        if p.0.iter().all(|(_, k)| k % c == 0) {
          return rec(Sym::p(intern(Poly(p.0.iter().map(|(m, k)| (*m, k / c)).collect()))));
        }
      }
    }
    if p_const(o.n).is_none() {
      let f = p_normal(o.n).0;
      BASE.with(|b| {
        if !b.borrow().contains(&f) {
          b.borrow_mut().push(f)
        }
      });
    }
    let zero = intern(Poly::zero());
    let (n, d) = if sign == 0 { (p_sub(zero, self.n), p_sub(zero, o.n)) } else { (self.n, o.n) };
    rec(Sym::quotient(p_mul(n, o.d), p_mul(self.d, d)))
  }
}
impl Rem for Sym {
  type Output = Sym;
  fn rem(self, _o: Sym) -> Sym {
    std::panic::panic_any(Internal("remainder of symbolic scalars".into()))
  }
}
impl Neg for Sym {
  type Output = Sym;
  fn neg(self) -> Sym {
    rec(Sym { n: p_sub(intern(Poly::zero()), self.n), d: self.d })
  }
}
macro_rules! assign {
  ($t:ty, $($tr:ident $f:ident $op:ident),*) => {$(
    impl $tr for $t { fn $f(&mut self, o: $t) { *self = self.clone().$op(o); } }
  )*};
}
assign!(Sym, AddAssign add_assign add, SubAssign sub_assign sub, MulAssign mul_assign mul, DivAssign div_assign div, RemAssign rem_assign rem);
impl Sum for Sym {
  fn sum<I: Iterator<Item = Sym>>(it: I) -> Sym {
    it.fold(Sym::int(0), |a, b| a + b)
  }
}
impl Zero for Sym {
  fn zero() -> Sym {
    Sym::int(0)
  }
  fn is_zero(&self) -> bool {
    decide(self.n, &[ZERO, NEG | POS]) == 0
  }
}
impl One for Sym {
  fn one() -> Sym {
    Sym::int(1)
  }
}
impl FromPrimitive for Sym {
  fn from_i64(n: i64) -> Option<Sym> {
    Some(Sym::int(n))
  }
  fn from_u64(n: u64) -> Option<Sym> {
    Some(Sym::int(n as i64))
  }
}
impl PartialEq for Sym {
  fn eq(&self, o: &Sym) -> bool {
    let _q = Quiet::new();
    decide((*self - *o).n, &[ZERO, NEG | POS]) == 0
  }
}
impl Eq for Sym {}
impl PartialOrd for Sym {
  fn partial_cmp(&self, o: &Sym) -> Option<Ordering> {
    Some(self.cmp_sym(o))
  }
  fn lt(&self, o: &Sym) -> bool {
    let _q = Quiet::new();
    let d = *self - *o;
    if d.d == one_id() {
      decide(d.n, &[NEG, ZERO | POS]) == 0
    } else {
      d.sign3() == Ordering::Less
    }
  }
  fn gt(&self, o: &Sym) -> bool {
    o.lt(self)
  }
  fn le(&self, o: &Sym) -> bool {
    !o.lt(self)
  }
  fn ge(&self, o: &Sym) -> bool {
    !self.lt(o)
  }
}
impl Ord for Sym {
  fn cmp(&self, o: &Sym) -> Ordering {
    self.cmp_sym(o)
  }
}
impl TotalOrd for Sym {
  fn total_cmp(&self, o: &Self) -> Ordering {
    self.cmp_sym(o)
  }
}
impl PolygonScalar for Sym {
  fn from_constant(v: i8) -> Sym {
    Sym::int(v as i64)
  }
  fn cmp_dist(p: &[Sym; 2], q: &[Sym; 2], r: &[Sym; 2]) -> Ordering {
    let _q = Quiet::new();
    // Collinear points on one side of p are ordered along the ray; this keeps the atoms linear
    // in the orientation signs. Everything else is compared by squared distance.
    let cross = (q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0]);
    if chi_mode() && decide(cross.n, &[ZERO, NEG | POS]) == 0 {
      let lex = |a: &[Sym; 2], b: &[Sym; 2]| a[0].cmp_sym(&b[0]).then_with(|| a[1].cmp_sym(&b[1]));
      let (s, t) = (lex(q, p), lex(r, p));
      match (s, t) {
        (Ordering::Equal, Ordering::Equal) => return Ordering::Equal,
        (Ordering::Equal, _) => return Ordering::Less,
        (_, Ordering::Equal) => return Ordering::Greater,
        (Ordering::Greater, Ordering::Greater) => return lex(q, r),
        (Ordering::Less, Ordering::Less) => return lex(r, q),
        _ => {}
      }
    }
    let d = |a: &[Sym; 2], b: &[Sym; 2]| {
      let (x, y) = (a[0] - b[0], a[1] - b[1]);
      x * x + y * y
    };
    (d(p, q) - d(p, r)).sign3()
  }
  fn cmp_slope(p: &[Sym; 2], q: &[Sym; 2], r: &[Sym; 2]) -> Ordering {
    let _q = Quiet::new();
    ((q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0])).sign3()
  }
  fn cmp_vector_slope(v: &[Sym; 2], p: &[Sym; 2], q: &[Sym; 2]) -> Ordering {
    let _q = Quiet::new();
    (v[0] * (q[1] - p[1]) - v[1] * (q[0] - p[0])).sign3()
  }
  fn cmp_perp_vector_slope(v: &[Sym; 2], p: &[Sym; 2], q: &[Sym; 2]) -> Ordering {
    let _q = Quiet::new();
    (-v[1] * (q[1] - p[1]) - v[0] * (q[0] - p[0])).sign3()
  }
}
impl Scal for Sym {
  fn var(i: usize) -> Sym {
    Sym::p(intern(Poly::var(i)))
  }
  fn int(i: i64) -> Sym {
    Sym::p(intern(Poly::constant(i)))
  }
  fn sgn_in(&self, mask: u8) -> F {
    let (p, flip) = self.strip();
    sign_in(p, if flip { flip_mask(mask) } else { mask })
  }
}

// ------------------------------------------------------------------ Cnt

/// BigRational with a comparison budget: arithmetic and predicates are the crate's own.
#[derive(Clone)]
pub struct Cnt(pub BigRational);

impl std::fmt::Debug for Cnt {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    write!(f, "{}", self.0)
  }
}
macro_rules! bin {
  ($($tr:ident $f:ident),*) => {$(
    impl $tr for Cnt { type Output = Cnt; fn $f(self, o: Cnt) -> Cnt { Cnt(self.0.$f(o.0)) } }
  )*};
}
bin!(Add add, Sub sub, Mul mul, Div div, Rem rem);
assign!(Cnt, AddAssign add_assign add, SubAssign sub_assign sub, MulAssign mul_assign mul, DivAssign div_assign div, RemAssign rem_assign rem);
impl Neg for Cnt {
  type Output = Cnt;
  fn neg(self) -> Cnt {
    Cnt(-self.0)
  }
}
impl Sum for Cnt {
  fn sum<I: Iterator<Item = Cnt>>(it: I) -> Cnt {
    it.fold(Cnt::int(0), |a, b| a + b)
  }
}
impl Zero for Cnt {
  fn zero() -> Cnt {
    Cnt::int(0)
  }
  fn is_zero(&self) -> bool {
    self.0.is_zero()
  }
}
impl One for Cnt {
  fn one() -> Cnt {
    Cnt::int(1)
  }
}
impl FromPrimitive for Cnt {
  fn from_i64(n: i64) -> Option<Cnt> {
    Some(Cnt::int(n))
  }
  fn from_u64(n: u64) -> Option<Cnt> {
    Some(Cnt::int(n as i64))
  }
}
impl PartialEq for Cnt {
  fn eq(&self, o: &Cnt) -> bool {
    self.0 == o.0
  }
}
impl Eq for Cnt {}
impl PartialOrd for Cnt {
  fn partial_cmp(&self, o: &Cnt) -> Option<Ordering> {
    burn();
    self.0.partial_cmp(&o.0)
  }
}
impl Ord for Cnt {
  fn cmp(&self, o: &Cnt) -> Ordering {
    burn();
    self.0.cmp(&o.0)
  }
}
impl TotalOrd for Cnt {
  fn total_cmp(&self, o: &Self) -> Ordering {
    burn();
    TotalOrd::total_cmp(&self.0, &o.0)
  }
}
fn arr(p: &[Cnt; 2]) -> [BigRational; 2] {
  burn();
  [p[0].0.clone(), p[1].0.clone()]
}
impl PolygonScalar for Cnt {
  fn from_constant(v: i8) -> Cnt {
    Cnt(PolygonScalar::from_constant(v))
  }
  fn cmp_dist(p: &[Cnt; 2], q: &[Cnt; 2], r: &[Cnt; 2]) -> Ordering {
    PolygonScalar::cmp_dist(&arr(p), &arr(q), &arr(r))
  }
  fn cmp_slope(p: &[Cnt; 2], q: &[Cnt; 2], r: &[Cnt; 2]) -> Ordering {
    PolygonScalar::cmp_slope(&arr(p), &arr(q), &arr(r))
  }
  fn cmp_vector_slope(v: &[Cnt; 2], p: &[Cnt; 2], q: &[Cnt; 2]) -> Ordering {
    PolygonScalar::cmp_vector_slope(&arr(v), &arr(p), &arr(q))
  }
  fn cmp_perp_vector_slope(v: &[Cnt; 2], p: &[Cnt; 2], q: &[Cnt; 2]) -> Ordering {
    PolygonScalar::cmp_perp_vector_slope(&arr(v), &arr(p), &arr(q))
  }
}
impl Scal for Cnt {
  fn var(i: usize) -> Cnt {
    Cnt(concrete_value(i))
  }
  fn int(i: i64) -> Cnt {
    Cnt(BigRational::from_integer(BigInt::from(i)))
  }
  fn sgn_in(&self, mask: u8) -> F {
    let s = if self.0.is_positive() {
      POS
    } else if self.0.is_negative() {
      NEG
    } else {
      ZERO
    };
    F::b(s & mask != 0)
  }
}

// ------------------------------------------------------------------ i64

thread_local! {
  pub static FIX: std::cell::RefCell<Vec<i64>> = const { std::cell::RefCell::new(vec![]) };
}
/// Plain machine integers, for native runs only.
impl Scal for i64 {
  fn var(i: usize) -> i64 {
    FIX.with(|f| f.borrow()[i])
  }
  fn int(i: i64) -> i64 {
    i
  }
  fn sgn_in(&self, mask: u8) -> F {
    F::b(mask & [NEG, ZERO, POS][(self.signum() + 1) as usize] != 0)
  }
}

// ------------------------------------------------------------------ z-hash of symbolic scalars

/// Hashes used for z-order algorithms: every one is monotone in each coordinate.
#[derive(Clone, Copy, PartialEq)]
pub enum Hash {
  /// interleaved ranks of the coordinates among all input coordinates
  Ranks,
  /// the same value for every point
  Constant,
  /// any order of the hash values that is monotone (all of them, by choice points)
  Any,
}
thread_local! {
  pub static RANKS: std::cell::RefCell<Vec<usize>> = const { std::cell::RefCell::new(vec![]) };
  pub static HASH: std::cell::Cell<(Hash, u64)> = const { std::cell::Cell::new((Hash::Ranks, 0)) };
}
pub fn set_hash(h: Hash, vars: usize) {
  RANKS.with(|r| *r.borrow_mut() = (0..vars).collect());
  HASH.with(|c| c.set((h, c.get().1 + 1)));
}
fn rank<T: Scal>(v: &T, axis: usize) -> u32 {
  let ids = RANKS.with(|r| r.borrow().clone());
  let mut k = 0;
  for i in ids.into_iter().filter(|i| i % 2 == axis) {
    if TotalOrd::total_cmp(&T::var(i), v) == Ordering::Less {
      k += 1;
    }
  }
  k
}
/// Places the point among the values given out so far, at any position that keeps the hash monotone.
fn any_hash<T: Scal>(p: &Point<T>, known: &mut Vec<(Point<T>, u64)>) -> u64 {
  let le = |a: &T, b: &T| TotalOrd::total_cmp(a, b) != Ordering::Greater;
  let (mut lo, mut hi) = (0u64, u64::MAX);
  for (q, k) in known.iter() {
    if le(&q.array[0], &p.array[0]) && le(&q.array[1], &p.array[1]) {
      lo = lo.max(*k)
    }
    if le(&p.array[0], &q.array[0]) && le(&p.array[1], &q.array[1]) {
      hi = hi.min(*k)
    }
  }
  let k = if lo == hi {
    lo
  } else {
    let mut keys: Vec<u64> = known.iter().map(|x| x.1).filter(|k| lo <= *k && *k <= hi).collect();
    keys.sort();
    keys.dedup();
    // an existing value or one strictly between two neighbouring ones
    let mut all = keys.clone();
    let mut ends = vec![lo];
    ends.extend(keys);
    ends.push(hi);
    ends.dedup();
    for w in ends.windows(2) {
      all.push(w[0] + (w[1] - w[0]) / 2)
    }
    all[choose(all.len() as u64) as usize]
  };
  known.push((p.clone(), k));
  k
}
macro_rules! zh {
  ($t:ty) => {
    impl ZHashable for $t {
      type ZHashKey = ZKey;
      fn zhash_key(z: ZHashBox<'_, Self>) -> ZKey {
        let _q = Quiet::new();
        zkeys::<Self, _>(|v| {
          v.push([z.min_x.clone(), z.min_y.clone(), z.max_x.clone(), z.max_y.clone()]);
          ZKey(v.len() - 1)
        })
      }
      fn zhash_fn(k: ZKey, p: &Point<Self>) -> u64 {
        let _q = Quiet::new();
        let b = zkeys::<Self, _>(|v| v[k.0].clone());
        // the library's own hashes are only monotone inside the box of their key
        check(
          F::and(vec![
            crate::geo::le(&b[0], p.x_coord()),
            crate::geo::le(&b[1], p.y_coord()),
            crate::geo::le(p.x_coord(), &b[2]),
            crate::geo::le(p.y_coord(), &b[3]),
          ]),
          "a point outside the hash box is hashed",
        );
        thread_local! {
          static KNOWN: std::cell::RefCell<(u64, Vec<(Point<$t>, u64)>)> = const { std::cell::RefCell::new((0, vec![])) };
        }
        let (h, epoch) = HASH.with(|c| c.get());
        match h {
          Hash::Ranks => zhash_pair(rank(p.x_coord(), 0), rank(p.y_coord(), 1)),
          Hash::Constant => 7,
          Hash::Any => {
            let mut known = KNOWN.with(|c| {
              let c = &mut *c.borrow_mut();
              if c.0 != epoch {
                *c = (epoch, vec![])
              }
              std::mem::take(&mut c.1)
            });
            let k = any_hash(p, &mut known);
            KNOWN.with(|c| c.borrow_mut().1 = known);
            k
          }
        }
      }
    }
  };
}
#[derive(Clone, Copy)]
pub struct ZKey(usize);
/// The boxes of the keys made on this thread in this path.
fn zkeys<T: Scal, R>(f: impl FnOnce(&mut Vec<[T; 4]>) -> R) -> R {
  thread_local! {
    static KEYS: std::cell::RefCell<(u64, std::any::TypeId, Box<dyn std::any::Any>)> =
      std::cell::RefCell::new((0, std::any::TypeId::of::<()>(), Box::new(())));
  }
  let epoch = HASH.with(|c| c.get().1);
  KEYS.with(|c| {
    let c = &mut *c.borrow_mut();
    if c.0 != epoch || c.1 != std::any::TypeId::of::<T>() {
      *c = (epoch, std::any::TypeId::of::<T>(), Box::new(Vec::<[T; 4]>::new()))
    }
    f(c.2.downcast_mut().unwrap())
  })
}
zh!(Sym);
zh!(Cnt);

// ------------------------------------------------------------------ helpers

pub fn pts<T: Scal>(n: usize) -> Vec<Point<T>> {
  (0..n).map(|i| pt(2 * i)).collect()
}
pub fn pt<T: Scal>(v: usize) -> Point<T> {
  Point::new([T::var(v), T::var(v + 1)])
}
pub fn vecv<T: Scal>(v: usize) -> Vector<T, 2> {
  Vector([T::var(v), T::var(v + 1)])
}

// ------------------------------------------------------------------ symbolic RNG

/// An RNG whose outputs are nondeterministic choices from a menu that lets `gen_range(0..n)`
/// return each of its values for every n in `sizes`. Words rejected by the range sampler are not
/// explored (they only delay): two draws without a comparison in between are cut off. After
/// `free` draws the stream continues with zero words (`gen_range` then returns 0).
pub struct SymRng {
  menu: std::rc::Rc<Vec<u64>>,
  free: usize,
  last: u64,
  once: bool,
}

thread_local! {
  static MENUS: std::cell::RefCell<std::collections::HashMap<u64, std::rc::Rc<Vec<u64>>>> = Default::default();
}
/// value of gen_range(0..n) for the word w (rand 0.8 widening multiplication), None if rejected
fn ranged(w: u64, n: u64) -> Option<u64> {
  let zone = (n << n.leading_zeros()).wrapping_sub(1);
  let m = w as u128 * n as u128;
  (m as u64 <= zone).then_some((m >> 64) as u64)
}
fn covering(max: u64) -> Vec<u64> {
  let mut need: std::collections::BTreeSet<(u64, u64)> = (1..=max).flat_map(|n| (0..n).map(move |k| (n, k))).collect();
  let mut menu = vec![0];
  let grid: Vec<u64> = (0..=4000u128).map(|i| ((i << 64) / 4001) as u64 + 1).collect();
  need.retain(|&(_, k)| k != 0);
  while !need.is_empty() {
    let best = grid
      .iter()
      .max_by_key(|&&w| {
        let (mut new, mut dup) = (0i64, 0i64);
        for n in 1..=max {
          if let Some(k) = ranged(w, n) {
            if need.contains(&(n, k)) {
              new += 1
            } else {
              dup += 1
            }
          }
        }
        if new == 0 {
          i64::MIN
        } else {
          new * 3 - dup * 2
        }
      })
      .copied()
      .unwrap();
    let before = need.len();
    for n in 1..=max {
      if let Some(k) = ranged(best, n) {
        need.remove(&(n, k));
      }
    }
    assert!(need.len() < before, "symgeo-internal: rng menu");
    menu.push(best);
  }
  menu
}

impl SymRng {
  /// menu covering gen_range(0..n) for all n <= max; the first `free` draws are arbitrary
  pub fn covering(max: u64, free: usize) -> SymRng {
    let menu = MENUS.with(|m| m.borrow_mut().entry(max).or_insert_with(|| std::rc::Rc::new(covering(max))).clone());
    SymRng { menu, free, last: u64::MAX, once: true }
  }
  /// arbitrary words of a menu, no rejection pruning
  pub fn with_menu(menu: Vec<u64>, free: usize) -> SymRng {
    SymRng { menu: std::rc::Rc::new(menu), free, last: u64::MAX, once: false }
  }
  pub fn pick(&mut self) -> u64 {
    if self.free == 0 {
      return self.menu[0];
    }
    if self.once && fuel_used() == self.last {
      prune();
    }
    self.free -= 1;
    let k = choose(self.menu.len() as u64);
    self.last = fuel_used();
    self.menu[k as usize]
  }
}
impl rand::RngCore for SymRng {
  fn next_u32(&mut self) -> u32 {
    (self.pick() >> 32) as u32
  }
  fn next_u64(&mut self) -> u64 {
    self.pick()
  }
  fn fill_bytes(&mut self, dest: &mut [u8]) {
    for c in dest.chunks_mut(8) {
      let b = self.pick().to_le_bytes();
      c.copy_from_slice(&b[..c.len()]);
    }
  }
  fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
    self.fill_bytes(dest);
    Ok(())
  }
}

/// An RNG for code whose draws come from ranges of known sizes: every value of each range is tried
/// (for both the 32 and the 64 bit sampler, without rejections). When the schedule is exhausted the
/// path is cut off. Sizes of 1 mark draws that always return their first value.
pub struct Scheduled {
  sizes: Vec<u64>,
  pos: usize,
}
impl Scheduled {
  pub fn new(sizes: Vec<u64>) -> Scheduled {
    Scheduled { sizes, pos: 0 }
  }
  fn pick(&mut self) -> u64 {
    if self.pos == self.sizes.len() {
      prune()
    }
    let n = self.sizes[self.pos];
    self.pos += 1;
    let k = choose(n);
    ((k << 32).div_ceil(n)) << 32
  }
}
impl rand::RngCore for Scheduled {
  fn next_u32(&mut self) -> u32 {
    (self.pick() >> 32) as u32
  }
  fn next_u64(&mut self) -> u64 {
    self.pick()
  }
  fn fill_bytes(&mut self, dest: &mut [u8]) {
    for c in dest.chunks_mut(8) {
      let b = self.pick().to_le_bytes();
      c.copy_from_slice(&b[..c.len()]);
    }
  }
  fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
    self.fill_bytes(dest);
    Ok(())
  }
}

// ------------------------------------------------------------------ uniform sampling

thread_local! {
  static FRESH: std::cell::Cell<(usize, usize)> = const { std::cell::Cell::new((0, 0)) };
}
/// `gen_range` on scalars returns the variables `base..base+count`, constrained to the range;
/// paths that draw more are not explored.
pub fn fresh_from(base: usize, count: usize) {
  FRESH.with(|f| f.set((base, count)));
}
fn any_in<T: Scal>(lo: &T, hi: &T, open: bool) -> T {
  let (base, left) = FRESH.with(|f| f.get());
  if left == 0 {
    prune()
  }
  FRESH.with(|f| f.set((base + 1, left - 1)));
  let v = T::var(base);
  assume(F::and(vec![(v.clone() - lo.clone()).sgn_in(POS | ZERO), (hi.clone() - v.clone()).sgn_in(if open { POS } else { POS | ZERO })]));
  v
}
macro_rules! uniform {
  ($t:ty, $s:ident) => {
    #[derive(Clone)]
    pub struct $s($t, $t, bool);
    impl rand::distributions::uniform::SampleUniform for $t {
      type Sampler = $s;
    }
    impl rand::distributions::uniform::UniformSampler for $s {
      type X = $t;
      fn new<B1: rand::distributions::uniform::SampleBorrow<$t>, B2: rand::distributions::uniform::SampleBorrow<$t>>(l: B1, h: B2) -> Self {
        $s(l.borrow().clone(), h.borrow().clone(), true)
      }
      fn new_inclusive<B1: rand::distributions::uniform::SampleBorrow<$t>, B2: rand::distributions::uniform::SampleBorrow<$t>>(l: B1, h: B2) -> Self {
        $s(l.borrow().clone(), h.borrow().clone(), false)
      }
      fn sample<R: rand::Rng + ?Sized>(&self, _rng: &mut R) -> $t {
        any_in(&self.0, &self.1, self.2)
      }
    }
  };
}
uniform!(Sym, SymUniform);
uniform!(Cnt, CntUniform);
