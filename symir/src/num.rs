//! Sparse polynomials with exact rational coefficients.
use num_bigint::BigInt;
use num_rational::BigRational;
use num_traits::{One, Signed, Zero};
use std::collections::BTreeMap;

pub type Q = BigRational;
pub fn q(i: i64) -> Q {
  Q::from_integer(i.into())
}
pub fn qi(i: BigInt) -> Q {
  Q::from_integer(i)
}
pub fn pow2(w: u32) -> BigInt {
  BigInt::one() << w
}

/// monomials are sorted lists of variable numbers
#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Poly(pub BTreeMap<Vec<u16>, Q>);

impl Poly {
  pub fn zero() -> Poly {
    Poly(BTreeMap::new())
  }
  pub fn c(c: Q) -> Poly {
    let mut m = BTreeMap::new();
    if !c.is_zero() {
      m.insert(vec![], c);
    }
    Poly(m)
  }
  pub fn int(i: i64) -> Poly {
    Poly::c(q(i))
  }
  pub fn var(i: usize) -> Poly {
    Poly(BTreeMap::from([(vec![i as u16], Q::one())]))
  }
  pub fn as_const(&self) -> Option<Q> {
    match self.0.len() {
      0 => Some(Q::zero()),
      1 => self.0.get(&vec![]).cloned(),
      _ => None,
    }
  }
  pub fn scale(&self, k: &Q) -> Poly {
    if k.is_zero() {
      return Poly::zero();
    }
    Poly(self.0.iter().map(|(m, c)| (m.clone(), c * k)).collect())
  }
  pub fn neg(&self) -> Poly {
    self.scale(&-Q::one())
  }
  pub fn add(&self, o: &Poly) -> Poly {
    let mut r = self.0.clone();
    for (m, c) in &o.0 {
      let e = r.entry(m.clone()).or_insert_with(Q::zero);
      *e += c;
      if e.is_zero() {
        r.remove(m);
      }
    }
    Poly(r)
  }
  pub fn sub(&self, o: &Poly) -> Poly {
    self.add(&o.neg())
  }
  pub fn mul(&self, o: &Poly) -> Poly {
    let mut r: BTreeMap<Vec<u16>, Q> = BTreeMap::new();
    for (m, c) in &self.0 {
      for (n, d) in &o.0 {
        let mut k = m.clone();
        k.extend(n);
        k.sort();
        let e = r.entry(k).or_insert_with(Q::zero);
        *e += c * d;
      }
    }
    r.retain(|_, c| !c.is_zero());
    Poly(r)
  }
  pub fn linear(&self) -> bool {
    self.0.keys().all(|m| m.len() <= 1)
  }
  /// self = k * base + c, base without constant term and with leading coefficient one
  pub fn split(&self) -> (Q, Poly, Q) {
    let mut m = self.0.clone();
    let c = m.remove(&vec![]).unwrap_or_else(Q::zero);
    match m.iter().next_back().map(|x| x.1.clone()) {
      None => (Q::zero(), Poly::zero(), c),
      Some(k) => {
        let base = Poly(m).scale(&k.recip());
        (k, base, c)
      }
    }
  }
  pub fn eval(&self, v: &[Q]) -> Q {
    let mut s = Q::zero();
    for (m, c) in &self.0 {
      let mut t = c.clone();
      for i in m {
        t *= &v[*i as usize];
      }
      s += t;
    }
    s
  }
  pub fn vars(&self) -> Vec<u16> {
    let mut v: Vec<u16> = self.0.keys().flatten().cloned().collect();
    v.sort();
    v.dedup();
    v
  }
}

#[derive(Clone, Debug)]
pub struct Iv {
  pub lo: Option<Q>,
  pub hi: Option<Q>,
}
impl Iv {
  pub fn all() -> Iv {
    Iv { lo: None, hi: None }
  }
  pub fn point(c: Q) -> Iv {
    Iv { lo: Some(c.clone()), hi: Some(c) }
  }
  pub fn add(&self, o: &Iv) -> Iv {
    let f = |a: &Option<Q>, b: &Option<Q>| Some(a.as_ref()? + b.as_ref()?);
    Iv { lo: f(&self.lo, &o.lo), hi: f(&self.hi, &o.hi) }
  }
  pub fn scale(&self, k: &Q) -> Iv {
    if k.is_zero() {
      return Iv::point(Q::zero());
    }
    let (a, b) = (self.lo.as_ref().map(|x| x * k), self.hi.as_ref().map(|x| x * k));
    if k.is_negative() {
      Iv { lo: b, hi: a }
    } else {
      Iv { lo: a, hi: b }
    }
  }
  pub fn mul(&self, o: &Iv) -> Iv {
    match (&self.lo, &self.hi, &o.lo, &o.hi) {
      (Some(a), Some(b), Some(c), Some(d)) => {
        let v = [a * c, a * d, b * c, b * d];
        Iv { lo: v.iter().min().cloned(), hi: v.iter().max().cloned() }
      }
      _ => {
        let nn = |i: &Iv| i.lo.as_ref().is_some_and(|l| !l.is_negative());
        if nn(self) && nn(o) {
          Iv { lo: Some(Q::zero()), hi: None }
        } else {
          Iv::all()
        }
      }
    }
  }
  pub fn pow(&self, n: usize) -> Iv {
    let mut r = Iv::point(Q::one());
    for _ in 0..n {
      r = r.mul(self)
    }
    if n % 2 == 0 && n > 0 {
      r.lo = match r.lo {
        Some(l) if !l.is_negative() => Some(l),
        _ => Some(Q::zero()),
      };
      if r.hi.is_none() {
        if let (Some(a), Some(b)) = (&self.lo, &self.hi) {
          let m = a.abs().max(b.abs());
          r.hi = Some(num_traits::pow(m, n));
        }
      }
    }
    r
  }
  pub fn meet(&self, o: &Iv) -> Iv {
    let lo = match (&self.lo, &o.lo) {
      (Some(a), Some(b)) => Some(a.max(b).clone()),
      (a, b) => a.clone().or(b.clone()),
    };
    let hi = match (&self.hi, &o.hi) {
      (Some(a), Some(b)) => Some(a.min(b).clone()),
      (a, b) => a.clone().or(b.clone()),
    };
    Iv { lo, hi }
  }
}
