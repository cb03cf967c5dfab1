//! Sparse multivariate polynomials with exact integer coefficients, in canonical form.
use num_bigint::BigInt;
use num_rational::BigRational;
use num_integer::Integer;
use num_traits::Zero;
use std::collections::BTreeMap;

pub type Co = i128;

/// A monomial: variable ids (+1) packed in bytes, sorted descending; 1 == 0.
pub type Mono = u128;

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Poly(pub Vec<(Mono, Co)>); // sorted by monomial, no zero coefficients

const OVF: &str = "symgeo-internal: coefficient overflow";

fn mono_mul(a: Mono, b: Mono) -> Mono {
  if a == 0 {
    return b;
  }
  if b == 0 {
    return a;
  }
  let mut v = [0u8; 32];
  v[..16].copy_from_slice(&a.to_be_bytes());
  v[16..].copy_from_slice(&b.to_be_bytes());
  v.sort_unstable_by(|x, y| y.cmp(x));
  assert!(v[16] == 0, "symgeo: polynomial degree exceeds 16");
  Mono::from_be_bytes(v[..16].try_into().unwrap())
}

fn mono_div(a: Mono, b: Mono) -> Option<Mono> {
  let (a, b) = (a.to_be_bytes(), b.to_be_bytes());
  let mut out = [0u8; 16];
  let (mut j, mut k) = (0, 0);
  for &v in a.iter().take_while(|v| **v != 0) {
    if j < 16 && b[j] == v {
      j += 1;
    } else {
      out[k] = v;
      k += 1;
    }
  }
  if j < 16 && b[j] != 0 {
    return None;
  }
  Some(Mono::from_be_bytes(out))
}

pub fn mono_vars(m: Mono) -> impl Iterator<Item = usize> {
  m.to_be_bytes().into_iter().filter(|&b| b != 0).map(|b| b as usize - 1)
}

impl Poly {
  pub fn zero() -> Poly {
    Poly(vec![])
  }
  pub fn constant(c: i64) -> Poly {
    if c == 0 {
      Poly::zero()
    } else {
      Poly(vec![(0, c as Co)])
    }
  }
  pub fn var(i: usize) -> Poly {
    assert!(i < 250);
    Poly(vec![(((i as u128) + 1) << 120, 1)])
  }
  pub fn is_zero(&self) -> bool {
    self.0.is_empty()
  }
  pub fn as_const(&self) -> Option<Co> {
    match self.0.len() {
      0 => Some(0),
      1 if self.0[0].0 == 0 => Some(self.0[0].1),
      _ => None,
    }
  }
  pub fn neg(&self) -> Poly {
    Poly(self.0.iter().map(|(m, c)| (*m, -*c)).collect())
  }
  pub fn add(&self, o: &Poly) -> Poly {
    let (a, b) = (&self.0, &o.0);
    let mut out = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
      if j >= b.len() || (i < a.len() && a[i].0 < b[j].0) {
        out.push(a[i]);
        i += 1;
      } else if i >= a.len() || b[j].0 < a[i].0 {
        out.push(b[j]);
        j += 1;
      } else {
        let c = a[i].1.checked_add(b[j].1).expect(OVF);
        if c != 0 {
          out.push((a[i].0, c));
        }
        i += 1;
        j += 1;
      }
    }
    Poly(out)
  }
  pub fn sub(&self, o: &Poly) -> Poly {
    self.add(&o.neg())
  }
  pub fn mul(&self, o: &Poly) -> Poly {
    if self.0.len() == 1 && self.0[0].0 == 0 && self.0[0].1 == 1 {
      return o.clone();
    }
    if o.0.len() == 1 && o.0[0].0 == 0 && o.0[0].1 == 1 {
      return self.clone();
    }
    let mut m: BTreeMap<Mono, Co> = BTreeMap::new();
    for (ma, ca) in &self.0 {
      for (mb, cb) in &o.0 {
        let e = m.entry(mono_mul(*ma, *mb)).or_insert(0);
        *e = e.checked_add(ca.checked_mul(*cb).expect(OVF)).expect(OVF);
      }
    }
    Poly(m.into_iter().filter(|(_, c)| *c != 0).collect())
  }
  /// The quotient, if `o` (not zero) divides exactly.
  pub fn div_exact(&self, o: &Poly) -> Option<Poly> {
    let &(lm, lc) = o.0.last()?;
    let mut rem = self.clone();
    let mut quo = vec![];
    while let Some(&(m, c)) = rem.0.last() {
      if c % lc != 0 {
        return None;
      }
      let t = (mono_div(m, lm)?, c / lc);
      quo.push(t);
      rem = rem.sub(&o.mul(&Poly(vec![t])));
    }
    quo.reverse();
    Some(Poly(quo))
  }
  /// Divide out the content and make the last coefficient positive.
  /// Returns (normal form, flipped sign?).
  pub fn normal(&self) -> (Poly, bool) {
    if self.is_zero() {
      return (self.clone(), false);
    }
    let mut g: Co = 0;
    for (_, c) in &self.0 {
      g = g.gcd(c);
    }
    let flip = self.0.last().unwrap().1 < 0;
    if flip {
      g = -g;
    }
    if g == 1 {
      return (self.clone(), flip);
    }
    (Poly(self.0.iter().map(|(m, c)| (*m, *c / g)).collect()), flip)
  }
  pub fn eval(&self, vals: &[BigRational]) -> BigRational {
    let mut acc = BigRational::zero();
    for (m, c) in &self.0 {
      let mut t = BigRational::from_integer(BigInt::from(*c));
      for v in mono_vars(*m) {
        t *= &vals[v];
      }
      acc += t;
    }
    acc
  }
  pub fn show(&self, names: &[String]) -> String {
    if self.is_zero() {
      return "0".into();
    }
    let mut s = String::new();
    for (m, c) in &self.0 {
      let vs: Vec<String> =
        mono_vars(*m).map(|v| names.get(v).cloned().unwrap_or(format!("v{}", v))).collect();
      s += &format!("{}{}{} ", if *c < 0 { "" } else { "+" }, c, vs.iter().map(|v| format!("*{}", v)).collect::<String>());
    }
    s
  }
}
