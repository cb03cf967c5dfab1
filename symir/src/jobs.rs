//! The checks of the K properties.
use crate::exec::*;
use crate::ll::*;
use crate::num::*;
use crate::spec::*;
use crate::z3::Ast;
use num_bigint::BigInt;
use num_traits::{Signed, ToPrimitive, Zero};
use std::rc::Rc;

type R<T> = Result<T, Stop>;
pub enum Neg {
  /// disjunction of conjunctions
  Num(Vec<Vec<Atom>>),
  Bv(Ast),
  /// decided on the concrete results of the path: the claim is false whenever the path is feasible
  Always,
}
pub struct Claim {
  pub what: String,
  pub neg: Neg,
}
pub struct Job {
  pub name: String,
  pub bound: String,
  pub single: bool,
  pub run: Box<dyn Fn(&mut Exec) -> R<Vec<Claim>> + Send + Sync>,
  /// runs the real code on these inputs: Some(message) when the property fails
  pub native: Box<dyn Fn(&[Q]) -> Option<String> + Send + Sync>,
  /// further candidate inputs, near-degenerate ones, when a model is not realisable as it is
  pub cands: Box<dyn Fn(&mut Rng) -> Vec<Q> + Send + Sync>,
  /// may the path be replayed from a model of its condition?
  pub witness: bool,
}

pub struct Rng(pub u64);
impl Rng {
  pub fn next(&mut self) -> u64 {
    self.0 ^= self.0 << 13;
    self.0 ^= self.0 >> 7;
    self.0 ^= self.0 << 17;
    self.0
  }
  pub fn below(&mut self, n: u64) -> u64 {
    self.next() % n
  }
}

pub fn entry(e: &Exec, path: &str) -> R<String> {
  for m in e.mods().iter() {
    for f in m.func_names() {
      if demangle(f) == path {
        return Ok(f.clone());
      }
    }
  }
  Err(Stop::Unsupported(format!("no function {path}")))
}

fn rep_size(r: Rep) -> u64 {
  match r {
    Rep::Int(w) | Rep::Float(w) => w as u64 / 8,
    Rep::Num(s, _) => s,
  }
}
fn value(r: Rep, p: &Poly, iv: Iv) -> V {
  match r {
    Rep::Int(_) => V::I(IntV::P(Rc::new(p.clone()), iv)),
    Rep::Num(..) => V::N(Rc::new(p.clone())),
    Rep::Float(_) => V::F(FV::R(Rc::new(p.clone()))),
  }
}
fn bounds(r: Rep) -> (Option<BigInt>, Option<BigInt>) {
  match r {
    Rep::Int(w) => (Some(-pow2(w - 1)), Some(pow2(w - 1) - 1)),
    Rep::Float(32) => (Some(-pow2(128)), Some(pow2(128))),
    Rep::Float(_) => (Some(-pow2(1024)), Some(pow2(1024))),
    Rep::Num(..) => (None, None),
  }
}
fn is_int(r: Rep) -> bool {
  matches!(r, Rep::Int(_) | Rep::Num(_, true))
}
/// a free coordinate
fn free(e: &mut Exec, r: Rep, n: &str) -> Poly {
  let (l, h) = bounds(r);
  let p = e.var(n, l, h, is_int(r));
  e.inputs.push(Input::Num(n.to_string(), p.clone()));
  p
}
/// a coordinate given as base plus a difference, so that the differences stay simple
fn relative(e: &mut Exec, r: Rep, base: &Poly, n: &str) -> Poly {
  let (l, h) = bounds(r);
  let d = match (&l, &h) {
    (Some(l), Some(h)) => e.var(&format!("d{n}"), Some(l - h), Some(h - l), is_int(r)),
    _ => e.var(&format!("d{n}"), None, None, is_int(r)),
  };
  let p = base.add(&d);
  if let (Some(l), Some(h)) = (l, h) {
    e.assume(Poly::c(qi(l)).sub(&p), Rel::Le);
    e.assume(p.sub(&Poly::c(qi(h))), Rel::Le);
  }
  e.inputs.push(Input::Num(n.to_string(), p.clone()));
  p
}
fn pair(e: &mut Exec, r: Rep, x: &Poly, y: &Poly) -> V {
  let s = rep_size(r);
  let a = e.alloc(2 * s);
  for (k, p) in [x, y].into_iter().enumerate() {
    let iv = e.iv(p);
    e.put(a, k as u64 * s, s, value(r, p, iv));
  }
  V::P(a, 0)
}
fn small(v: V) -> R<i64> {
  match v {
    V::I(IntV::C(c)) => Ok(c as u8 as i8 as i64),
    v => Err(Stop::Unsupported(format!("result {v:?}"))),
  }
}
fn sign_neg(p: &Poly, s: i64) -> Vec<Vec<Atom>> {
  let a = |p: Poly, rel| vec![Atom { p, rel }];
  match s {
    -1 => vec![a(p.neg(), Rel::Le)],
    1 => vec![a(p.clone(), Rel::Le)],
    _ => vec![a(p.clone(), Rel::Lt), a(p.neg(), Rel::Lt)],
  }
}
pub fn word(s: i64) -> &'static str {
  match s {
    -1 => "negative",
    0 => "zero",
    _ => "positive",
  }
}

fn random_value(t: &Type, g: &mut Rng) -> Q {
  match t.rep {
    Rep::Int(w) => {
      let x = BigInt::from(g.next() as i64) >> g.below(w as u64 + 64).min(63);
      let h = pow2(w - 1);
      match g.below(6) {
        0 => qi(&h - 1 - BigInt::from(g.below(3))),
        1 => qi(-&h + BigInt::from(g.below(3))),
        2 => q(g.below(5) as i64 - 2),
        _ => normalise(t, &qi(x)).unwrap(),
      }
    }
    Rep::Num(_, i) => {
      let x = qi(BigInt::from(g.next() as i64) >> g.below(63));
      if i { x } else { x / qi(BigInt::from(1 + g.below(9))) }
    }
    Rep::Float(w) => {
      let m = g.next() >> if w == 32 { 40 } else { 11 };
      let m = if g.below(3) == 0 { m & 7 } else { m };
      let ex = match g.below(8) {
        0 => g.below(200) as i32 - 100,
        1 if w == 64 => g.below(1800) as i32 - 900,
        _ => g.below(9) as i32 - 4,
      };
      let x = m as f64 * 2f64.powi(ex - if w == 32 { 24 } else { 53 });
      let x = if g.below(2) == 0 { -x } else { x };
      normalise(t, &Q::from_float(x).unwrap_or(Q::zero())).unwrap_or(Q::zero())
    }
  }
}
fn nudge(t: &Type, v: &Q, g: &mut Rng) -> Q {
  let k = g.below(5) as i64 - 2;
  match t.rep {
    Rep::Int(_) | Rep::Num(..) => normalise(t, &(v + q(k))).unwrap(),
    Rep::Float(32) => {
      let f = to_f32(v);
      let b = f.to_bits() as i64 + if f == 0.0 { k.abs() } else { k };
      Q::from_float(f32::from_bits(b as u32)).unwrap_or(v.clone())
    }
    Rep::Float(_) => {
      let f = to_f64(v);
      let b = f.to_bits() as i64 + if f == 0.0 { k.abs() } else { k };
      Q::from_float(f64::from_bits(b as u64)).unwrap_or(v.clone())
    }
  }
}
/// a configuration in which the answer is (nearly) zero
fn degenerate(t: &Type, k: Kind, g: &mut Rng) -> Vec<Q> {
  let mut r: Vec<Q> = (0..4).map(|_| random_value(t, g)).collect();
  if g.below(2) == 0 {
    r[0] = q(0);
    r[1] = q(0);
  }
  let (px, py, ax, ay) = (r[0].clone(), r[1].clone(), r[2].clone(), r[3].clone());
  let (ux, uy) = if matches!(k, Kind::Orient | Kind::Dist) { (&ax - &px, &ay - &py) } else { (ax.clone(), ay.clone()) };
  let s = [q(1), q(-1), q(2), q(3), q(1) / q(2), q(-1) / q(3), q(7)][g.below(7) as usize].clone();
  let (wx, wy) = match k {
    Kind::Orient | Kind::Along => (&ux * &s, &uy * &s),
    Kind::Perp | Kind::CmpAlong => (-&uy * &s, &ux * &s),
    Kind::Dist => match g.below(3) {
      0 => (uy.clone(), -&ux),
      1 => (-&ux, uy.clone()),
      _ => (-&uy, -&ux),
    },
  };
  let mut v = vec![px.clone(), py.clone(), ax, ay, px + wx, py + wy];
  for x in v.iter_mut() {
    *x = normalise(t, x).unwrap_or(Q::zero());
  }
  if g.below(3) > 0 {
    let i = g.below(6) as usize;
    v[i] = nudge(t, &v[i], g);
  }
  v
}

pub fn predicate(t: &'static Type, k: Kind, kn: &'static str) -> Job {
  let f = format!("kern::{}::{}", t.module, kn);
  let point = matches!(k, Kind::Orient | Kind::Dist);
  let rep = t.rep;
  let module = t.module;
  Job {
    name: format!("{}<{}>", kn, t.name),
    bound: match rep {
      Rep::Int(w) => format!("every value of the three {w}-bit pairs"),
      Rep::Num(_, true) => "every integer".into(),
      Rep::Num(..) => "every rational".into(),
      Rep::Float(w) => format!("every finite {w}-bit value (treated as arbitrary reals of that range)"),
    },
    single: rep == Rep::Float(32),
    run: Box::new(move |e| {
      let f = entry(e, &f)?;
      let px = free(e, rep, "p.x");
      let py = free(e, rep, "p.y");
      let (ax, ay) = if point {
        (relative(e, rep, &px, "q.x"), relative(e, rep, &py, "q.y"))
      } else {
        (free(e, rep, "v.x"), free(e, rep, "v.y"))
      };
      let rx = relative(e, rep, &px, "r.x");
      let ry = relative(e, rep, &py, "r.y");
      let args = vec![pair(e, rep, &px, &py), pair(e, rep, &ax, &ay), pair(e, rep, &rx, &ry)];
      let s = small(e.call(&f, args)?)?;
      let d = exact(k, &[px, py, ax, ay, rx, ry]);
      Ok(vec![Claim { what: format!("{kn}<{}> answers {}, the exact expression is not", t.name, word(s)), neg: Neg::Num(sign_neg(&d, s)) }])
    }),
    native: Box::new(move |v| {
      let v: Option<Vec<Q>> = v.iter().map(|x| normalise(t, x)).collect();
      let v = v?;
      let want = exact_sign(k, &v);
      match native(module, k, &v) {
        Ok(g) if g == want => None,
        Ok(g) => Some(format!("{kn}<{}> answers {}, exactly it is {}", t.name, word(g), word(want))),
        Err(m) => Some(format!("{kn}<{}> panics: {m}", t.name)),
      }
    }),
    cands: Box::new(move |g| degenerate(t, k, g)),
    witness: true,
  }
}

/// total_cmp on numbers: agrees with the numeric order
pub fn order_num(t: &'static Type) -> Job {
  let f = format!("kern::{}::order", t.module);
  let rep = t.rep;
  Job {
    name: format!("total_cmp<{}>", t.name),
    bound: "every pair of values".into(),
    single: false,
    run: Box::new(move |e| {
      let f = entry(e, &f)?;
      let a = free(e, rep, "a");
      let b = free(e, rep, "b");
      let p = pair(e, rep, &a, &b);
      let V::P(al, _) = p else { unreachable!() };
      let s = small(e.call(&f, vec![V::P(al, 0), V::P(al, rep_size(rep) as i128)])?)?;
      Ok(vec![Claim { what: format!("total_cmp<{}> answers {}", t.name, word(s)), neg: Neg::Num(sign_neg(&a.sub(&b), s)) }])
    }),
    native: Box::new(move |v| {
      let (a, b) = (normalise(t, &v[0])?, normalise(t, &v[1])?);
      let want = sign(&(&a - &b));
      match native_order(t.module, &a, &b) {
        Ok(g) if g == want => None,
        Ok(g) => Some(format!("total_cmp<{}> answers {}, the difference is {}", t.name, word(g), word(want))),
        Err(m) => Some(format!("total_cmp<{}> panics: {m}", t.name)),
      }
    }),
    cands: Box::new(move |g| {
      let a = random_value(t, g);
      let b = if g.below(2) == 0 { nudge(t, &a, g) } else { random_value(t, g) };
      vec![a, b]
    }),
    witness: true,
  }
}

fn bits_of(v: &Q) -> u64 {
  v.to_integer().to_u64().unwrap_or(0)
}
fn fclass(b: u64, w: u32) -> f64 {
  if w == 32 { f32::from_bits(b as u32) as f64 } else { f64::from_bits(b) }
}

/// total_cmp on all bit patterns: total order, numeric on ordinary values
pub fn order_bits(t: &'static Type) -> Job {
  let f = format!("kern::{}::order", t.module);
  let Rep::Float(w) = t.rep else { unreachable!() };
  Job {
    name: format!("total_cmp bits<{}>", t.name),
    bound: format!("every triple of {w}-bit patterns{}", if t.nan { "" } else { " that are not NaN" }),
    single: false,
    run: Box::new(move |e| {
      let f = entry(e, &f)?;
      let mut x = vec![];
      let mut ptr = vec![];
      for n in ["a", "b", "c"] {
        let b = e.bvvar(w);
        e.inputs.push(Input::Bits(n.into(), b, w));
        let a = e.alloc(w as u64 / 8);
        e.put(a, 0, w as u64 / 8, V::F(FV::B(b)));
        x.push(b);
        ptr.push(V::P(a, 0));
        if !t.nan {
          let (n, _, _) = e.float_bits(b, b, w);
          let g = e.bv.not(n);
          e.bvpath.push(g);
        }
      }
      let ab = small(e.call(&f, vec![ptr[0].clone(), ptr[1].clone()])?)?;
      let ba = small(e.call(&f, vec![ptr[1].clone(), ptr[0].clone()])?)?;
      let bc = small(e.call(&f, vec![ptr[1].clone(), ptr[2].clone()])?)?;
      let ac = small(e.call(&f, vec![ptr[0].clone(), ptr[2].clone()])?)?;
      let mut out = vec![];
      if ab != -ba {
        out.push(Claim { what: format!("total_cmp<{}> is not antisymmetric: {ab} and {ba}", t.name), neg: Neg::Always });
      }
      if ab <= 0 && bc <= 0 && (ac > 0 || (ac == 0 && (ab < 0 || bc < 0))) {
        out.push(Claim { what: format!("total_cmp<{}> is not transitive: {ab} {bc} {ac}", t.name), neg: Neg::Always });
      }
      let (un, eq, lt) = e.float_bits(x[0], x[1], w);
      if ab != -1 {
        let nu = e.bv.not(un);
        let c = e.bv.and(&[nu, lt]);
        out.push(Claim { what: format!("total_cmp<{}> does not put the smaller number first", t.name), neg: Neg::Bv(c) });
      }
      if ab == 0 {
        // equal for the order: same number, or both not numbers
        let ne = e.bv.not(eq);
        let nu = e.bv.not(un);
        let c1 = e.bv.and(&[nu, ne]);
        let (na, _, _) = e.float_bits(x[0], x[0], w);
        let (nb, _, _) = e.float_bits(x[1], x[1], w);
        let same = e.bv.iff(na, nb);
        let c2 = e.bv.not(same);
        let c = e.bv.or(&[c1, c2]);
        out.push(Claim { what: format!("total_cmp<{}> equates different values", t.name), neg: Neg::Bv(c) });
      }
      Ok(out)
    }),
    native: Box::new(move |v| {
      let b: Vec<u64> = v.iter().map(bits_of).collect();
      let x: Vec<f64> = b.iter().map(|b| fclass(*b, w)).collect();
      if !t.nan && x.iter().any(|x| x.is_nan()) {
        return None;
      }
      let c = |i: usize, j: usize| native_order_bits(t.module, b[i], b[j]);
      let (ab, ba, bc, ac) = match (c(0, 1), c(1, 0), c(1, 2), c(0, 2)) {
        (Ok(a), Ok(b), Ok(c), Ok(d)) => (a, b, c, d),
        _ => return Some(format!("total_cmp<{}> panics", t.name)),
      };
      let bad = if ab != -ba {
        "is not antisymmetric"
      } else if ab <= 0 && bc <= 0 && (ac > 0 || (ac == 0 && (ab < 0 || bc < 0))) {
        "is not transitive"
      } else if x[0] < x[1] && ab != -1 {
        "does not put the smaller number first"
      } else if ab == 0 && x[0] != x[1] && !(x[0].is_nan() && x[1].is_nan()) {
        "equates different values"
      } else {
        return None;
      };
      Some(format!("total_cmp<{}> {bad} on {:?}: {ab} {ba} {bc} {ac}", t.name, x))
    }),
    cands: Box::new(|_| vec![]),
    witness: true,
  }
}

pub fn constant(t: &'static Type) -> Job {
  let f = format!("kern::{}::constant", t.module);
  let rep = t.rep;
  Job {
    name: format!("from_constant<{}>", t.name),
    bound: "every i8".into(),
    single: false,
    run: Box::new(move |e| {
      let f = entry(e, &f)?;
      let c = free(e, Rep::Int(8), "c");
      let iv = e.iv(&c);
      let arg = V::I(IntV::P(Rc::new(c.clone()), iv));
      let got = match rep {
        Rep::Int(w) => match e.call(&f, vec![arg])? {
          V::I(i) => e.canon(&i, w, true)?.0,
          v => return Err(Stop::Unsupported(format!("result {v:?}"))),
        },
        Rep::Float(_) => match e.call(&f, vec![arg])? {
          V::F(x) => e.fpoly(&x).ok_or(Stop::Unsupported("float".into()))?,
          v => return Err(Stop::Unsupported(format!("result {v:?}"))),
        },
        Rep::Num(s, _) => {
          let a = e.alloc(s);
          e.call(&f, vec![V::P(a, 0), arg])?;
          e.num_at(&V::P(a, 0))?
        }
      };
      let d = got.sub(&c);
      Ok(vec![Claim { what: format!("from_constant<{}> changes the value", t.name), neg: Neg::Num(vec![vec![Atom { p: d, rel: Rel::Ne }]]) }])
    }),
    native: Box::new(move |v| {
      let c = v[0].to_integer().to_i8()?;
      match native_const(t.module, c) {
        Ok(x) if x == q(c as i64) => None,
        Ok(x) => Some(format!("from_constant<{}>({c}) is {x}", t.name)),
        Err(m) => Some(format!("from_constant<{}>({c}) panics: {m}", t.name)),
      }
    }),
    cands: Box::new(|g| vec![q(g.next() as i8 as i64)]),
    witness: true,
  }
}

// ------------------------------------------------------------------ K06
/// orientation of (a,2^a), (b,2^b), (c,2^c): 2^x is strictly convex, so only the order matters
fn parabola(a: &Poly, b: &Poly, c: &Poly) -> Poly {
  b.sub(a).mul(&c.sub(b)).mul(&c.sub(a))
}
fn u32var(e: &mut Exec, n: &str) -> (Poly, V) {
  let p = e.var(n, Some(BigInt::zero()), Some(pow2(32) - 1), true);
  e.inputs.push(Input::Num(n.into(), p.clone()));
  let iv = e.iv(&p);
  (p.clone(), V::I(IntV::P(Rc::new(p), iv)))
}
fn distinct(e: &mut Exec, v: &[&Poly]) {
  for i in 0..v.len() {
    for j in 0..i {
      e.assume(v[i].sub(v[j]), Rel::Ne);
    }
  }
}
fn clamp_u32(v: &Q) -> u32 {
  v.round().to_integer().to_u32().unwrap_or(0)
}
pub fn sos_new(with: Option<i64>) -> Job {
  let name = match with {
    None => "SoS::new".to_string(),
    Some(o) => format!("break_ties({})", word(o)),
  };
  let n2 = name.clone();
  Job {
    name: name.clone(),
    bound: "every triple of distinct u32".into(),
    single: false,
    run: Box::new(move |e| {
      let (a, av) = u32var(e, "a");
      let (b, bv) = u32var(e, "b");
      let (c, cv) = u32var(e, "c");
      distinct(e, &[&a, &b, &c]);
      let (s, want) = match with {
        None => {
          let f = entry(e, "kern::t_sos::sos_new")?;
          (small(e.call(&f, vec![av, bv, cv])?)?, parabola(&a, &b, &c))
        }
        Some(o) => {
          let f = entry(e, "kern::t_sos::break_ties")?;
          let s = small(e.call(&f, vec![V::I(IntV::C(o as u8 as u128)), av, bv, cv])?)?;
          (s, if o == 0 { parabola(&a, &b, &c) } else { Poly::int(o) })
        }
      };
      Ok(vec![Claim { what: format!("{n2} answers {}", word(s)), neg: Neg::Num(sign_neg(&want, s)) }])
    }),
    native: Box::new(move |v| {
      let (a, b, c) = (clamp_u32(&v[0]), clamp_u32(&v[1]), clamp_u32(&v[2]));
      if a == b || b == c || a == c {
        return None;
      }
      let flips = (a > b) as u32 + (b > c) as u32 + (a > c) as u32;
      let par = if flips % 2 == 0 { 1 } else { -1 };
      let want = match with {
        Some(o) if o != 0 => o,
        _ => par,
      };
      let got = guarded(|| match with {
        None => kern::t_sos::sos_new(a, b, c) as i64,
        Some(o) => kern::t_sos::break_ties(o as i8, a, b, c) as i64,
      });
      match got {
        Ok(g) if g == want => None,
        Ok(g) => Some(format!("{name}({a},{b},{c}) is {}, expected {}", word(g), word(want))),
        Err(m) => Some(format!("{name}({a},{b},{c}) panics: {m}")),
      }
    }),
    cands: Box::new(|g| (0..3).map(|_| qi(BigInt::from(g.next() as u32 >> g.below(32)))).collect()),
    witness: true,
  }
}
/// swaps flip, rotations keep (directly between two calls)
pub fn sos_sym() -> Job {
  let perms: [([usize; 3], i64); 5] = [([1, 0, 2], -1), ([0, 2, 1], -1), ([2, 1, 0], -1), ([1, 2, 0], 1), ([2, 0, 1], 1)];
  Job {
    name: "SoS symmetry".into(),
    bound: "every triple of distinct u32, every permutation".into(),
    single: false,
    run: Box::new(move |e| {
      let f = entry(e, "kern::t_sos::sos_new")?;
      let (a, av) = u32var(e, "a");
      let (b, bv) = u32var(e, "b");
      let (c, cv) = u32var(e, "c");
      distinct(e, &[&a, &b, &c]);
      let v = [av, bv, cv];
      let s = small(e.call(&f, v.to_vec())?)?;
      let k = e.choose(5) as usize;
      let (p, k) = perms[k];
      let t = small(e.call(&f, p.iter().map(|i| v[*i].clone()).collect())?)?;
      if t != k * s {
        return Ok(vec![Claim { what: format!("SoS::new is {} but {} after permuting {p:?}", word(s), word(t)), neg: Neg::Always }]);
      }
      Ok(vec![])
    }),
    native: Box::new(move |v| {
      let x: Vec<u32> = v.iter().map(clamp_u32).collect();
      if x[0] == x[1] || x[1] == x[2] || x[0] == x[2] {
        return None;
      }
      for (p, k) in perms {
        let s = guarded(|| kern::t_sos::sos_new(x[0], x[1], x[2]) as i64);
        let t = guarded(|| kern::t_sos::sos_new(x[p[0]], x[p[1]], x[p[2]]) as i64);
        match (s, t) {
          (Ok(s), Ok(t)) if t == k * s => {}
          r => return Some(format!("SoS::new({x:?}) and its permutation {p:?}: {r:?}")),
        }
      }
      None
    }),
    cands: Box::new(|g| (0..3).map(|_| qi(BigInt::from(g.next() as u32 >> g.below(32)))).collect()),
    witness: true,
  }
}
/// the small functions on orientations
pub fn orient_ops() -> Job {
  // inputs: operation, x, y
  fn want(op: u32, x: i64, y: i64) -> i64 {
    match op {
      0 => if x == 0 { y } else { x },
      1 => -x,
      2 => if x == 0 { if y < 0 { -1 } else { 1 } } else { x },
      3 => if y < 0 { 1 } else { -1 },
      _ => if y < 0 { -1 } else { 1 },
    }
  }
  const NAMES: [&str; 5] = ["then", "reverse", "sos", "sos_reverse", "sos_orient"];
  Job {
    name: "orientation operations".into(),
    bound: "every orientation".into(),
    single: false,
    run: Box::new(move |e| {
      let op = e.choose(5);
      let x = e.choose(3) as i64 - 1;
      let y = e.choose(3) as i64 - 1;
      for v in [op as i64, x, y] {
        e.inputs.push(Input::Num("".into(), Poly::int(v)));
      }
      let f = entry(e, &format!("kern::t_sos::{}", NAMES[op as usize]))?;
      let c = |v: i64| V::I(IntV::C(v as u8 as u128));
      let args = match op {
        0 | 2 => vec![c(x), c(y)],
        1 => vec![c(x)],
        _ => vec![c(y)],
      };
      let g = small(e.call(&f, args)?)?;
      if g != want(op, x, y) {
        return Ok(vec![Claim { what: format!("{} on {x},{y} is {g}", NAMES[op as usize]), neg: Neg::Always }]);
      }
      Ok(vec![])
    }),
    native: Box::new(move |v| {
      let v: Vec<i64> = v.iter().map(|x| x.to_integer().to_i64().unwrap()).collect();
      let (x, y) = (v[1] as i8, v[2] as i8);
      let g = guarded(|| match v[0] {
        0 => kern::t_sos::then(x, y),
        1 => kern::t_sos::reverse(x),
        2 => kern::t_sos::sos(x, y),
        3 => kern::t_sos::sos_reverse(y),
        _ => kern::t_sos::sos_orient(y),
      } as i64);
      match g {
        Ok(g) if g == want(v[0] as u32, v[1], v[2]) => None,
        g => Some(format!("{} on {x},{y}: {g:?}", NAMES[v[0] as usize])),
      }
    }),
    cands: Box::new(|_| vec![]),
    witness: true,
  }
}

// ------------------------------------------------------------------ K07
fn bits(e: &mut Exec, n: &str, w: u32) -> Ast {
  let b = e.bvvar(w);
  e.inputs.push(Input::Bits(n.into(), b, w));
  b
}
fn as_bv(e: &mut Exec, v: &V, w: u32) -> R<Ast> {
  match v {
    V::I(i) => e.to_bv(i, w),
    v => Err(Stop::Unsupported(format!("result {v:?}"))),
  }
}
pub fn roundtrip() -> Job {
  Job {
    name: "zunhash(zhash(a,b)) = (a,b)".into(),
    bound: "every pair of u32".into(),
    single: false,
    run: Box::new(|e| {
      let f = entry(e, "kern::h::roundtrip")?;
      let (a, b) = (bits(e, "a", 32), bits(e, "b", 32));
      let out = e.alloc(8);
      e.call(&f, vec![V::I(IntV::B(a)), V::I(IntV::B(b)), V::P(out, 0)])?;
      let x = e.load(0, &Ty::Int(32), &V::P(out, 0))?;
      let y = e.load(0, &Ty::Int(32), &V::P(out, 4))?;
      let (x, y) = (as_bv(e, &x, 32)?, as_bv(e, &y, 32)?);
      let (p, r) = (e.bv.eq(x, a), e.bv.eq(y, b));
      let ok = e.bv.and(&[p, r]);
      let bad = e.bv.not(ok);
      Ok(vec![Claim { what: "separating an interleaved pair does not give it back".into(), neg: Neg::Bv(bad) }])
    }),
    native: Box::new(|v| {
      let (a, b) = (clamp_u32(&v[0]), clamp_u32(&v[1]));
      let mut o = [0; 2];
      match guarded(|| kern::h::roundtrip(a, b, &mut o)) {
        Ok(()) if o == [a, b] => None,
        r => Some(format!("({a},{b}) comes back as {o:?} {r:?}")),
      }
    }),
    cands: Box::new(|g| (0..2).map(|_| qi(BigInt::from(g.next() as u32))).collect()),
    witness: true,
  }
}
pub fn back() -> Job {
  Job {
    name: "zhash(zunhash(w)) = w".into(),
    bound: "every u64".into(),
    single: false,
    run: Box::new(|e| {
      let f = entry(e, "kern::h::back")?;
      let w = bits(e, "w", 64);
      let r = e.call(&f, vec![V::I(IntV::B(w))])?;
      let r = as_bv(e, &r, 64)?;
      let ok = e.bv.eq(r, w);
      let bad = e.bv.not(ok);
      Ok(vec![Claim { what: "interleaving a separated number does not give it back".into(), neg: Neg::Bv(bad) }])
    }),
    native: Box::new(|v| {
      let w = bits_of(&v[0]);
      match guarded(|| kern::h::back(w)) {
        Ok(r) if r == w => None,
        r => Some(format!("{w} comes back as {r:?}")),
      }
    }),
    cands: Box::new(|g| vec![qi(BigInt::from(g.next()))]),
    witness: true,
  }
}
/// the i-th bit of a is bit 2i of the hash, the i-th bit of b is bit 2i+1; hence monotone
pub fn interleave() -> Job {
  Job {
    name: "zhash_pair is the interleaving and monotone".into(),
    bound: "every two pairs of u32".into(),
    single: false,
    run: Box::new(|e| {
      let f = entry(e, "kern::h::pair")?;
      let x: Vec<Ast> = ["a", "b", "c", "d"].iter().map(|n| bits(e, n, 32)).collect();
      let h = e.call(&f, vec![V::I(IntV::B(x[0])), V::I(IntV::B(x[1]))])?;
      let h = as_bv(e, &h, 64)?;
      let g = e.call(&f, vec![V::I(IntV::B(x[2])), V::I(IntV::B(x[3]))])?;
      let g = as_bv(e, &g, 64)?;
      let mut bits = vec![];
      for i in 0..32 {
        for (k, s) in [(0, x[0]), (1, x[1])] {
          let p = e.bv.extract(i, i, s);
          let r = e.bv.extract(2 * i + k, 2 * i + k, h);
          let q = e.bv.eq(p, r);
          bits.push(q);
        }
      }
      let all = e.bv.and(&bits);
      let bad = e.bv.not(all);
      let (l, m, gt) = (e.bv.bvule(x[0], x[2]), e.bv.bvule(x[1], x[3]), e.bv.bvult(g, h));
      let mono = e.bv.and(&[l, m, gt]);
      Ok(vec![
        Claim { what: "some bit is not where the interleaving puts it".into(), neg: Neg::Bv(bad) },
        Claim { what: "the hash decreases when a coordinate increases".into(), neg: Neg::Bv(mono) },
      ])
    }),
    native: Box::new(|v| {
      let x: Vec<u32> = v.iter().map(clamp_u32).collect();
      let (h, g) = match (guarded(|| kern::h::pair(x[0], x[1])), guarded(|| kern::h::pair(x[2], x[3]))) {
        (Ok(h), Ok(g)) => (h, g),
        r => return Some(format!("zhash_pair panics: {r:?}")),
      };
      let mut w = 0u64;
      for i in 0..32 {
        w |= ((x[0] as u64 >> i) & 1) << (2 * i) | ((x[1] as u64 >> i) & 1) << (2 * i + 1);
      }
      if h != w {
        return Some(format!("zhash_pair({},{}) is {h}, the interleaving is {w}", x[0], x[1]));
      }
      if x[0] <= x[2] && x[1] <= x[3] && h > g {
        return Some(format!("zhash_pair is not monotone on {x:?}: {h} > {g}"));
      }
      None
    }),
    cands: Box::new(|g| (0..4).map(|_| qi(BigInt::from(g.next() as u32))).collect()),
    witness: true,
  }
}
/// values are bit patterns: box x0 y0 x1 y1, points p, q with box.min <= p <= q <= box.max
pub fn hash_int(w: u32, signed: bool, lemma: bool) -> Job {
  let ty = format!("{}{}", if signed { "i" } else { "u" }, w);
  let f = format!("kern::h_{ty}::hash2");
  let t2 = ty.clone();
  Job {
    name: format!("zhash<{ty}>"),
    bound: "every box, every two points p <= q of it".into(),
    single: false,
    run: Box::new(move |e| {
      let f = entry(e, &f)?;
      let s = w as u64 / 8;
      let v: Vec<Ast> = ["x0", "y0", "x1", "y1", "p.x", "p.y", "q.x", "q.y"].iter().map(|n| bits(e, n, w)).collect();
      for (a, b) in [(0, 4), (4, 6), (6, 2), (1, 5), (5, 7), (7, 3)] {
        let c = if signed { e.bv.bvsle(v[a], v[b]) } else { e.bv.bvule(v[a], v[b]) };
        e.bvpath.push(c);
      }
      let mut mem = |e: &mut Exec, r: std::ops::Range<usize>| {
        let a = e.alloc(s * r.len() as u64);
        for (k, i) in r.enumerate() {
          e.put(a, k as u64 * s, s, V::I(IntV::B(v[i])));
        }
        V::P(a, 0)
      };
      let args = vec![mem(e, 0..4), mem(e, 4..6), mem(e, 6..8)];
      let out = e.alloc(16);
      if lemma {
        e.hooks.push(pair_hook);
      }
      let r = e.call(&f, args.into_iter().chain([V::P(out, 0)]).collect());
      e.hooks.clear();
      r?;
      let h = e.load(0, &Ty::Int(64), &V::P(out, 0))?;
      let g = e.load(0, &Ty::Int(64), &V::P(out, 8))?;
      let (h, g) = (as_bv(e, &h, 64)?, as_bv(e, &g, 64)?);
      // with zhash_pair monotone it is enough that each hashed coordinate is: decide them apart
      if let [(a, b, _), (c, d, _)] = e.bvpairs.clone()[..] {
        let (x, y) = (e.bv.bvult(c, a), e.bv.bvult(d, b));
        if matches!(e.refute_bv(&[x]), Proof::Holds) && matches!(e.refute_bv(&[y]), Proof::Holds) {
          let (x, y) = (e.bv.not(x), e.bv.not(y));
          e.bvpath.extend([x, y]);
        }
      }
      let bad = e.bv.bvult(g, h);
      Ok(vec![Claim { what: format!("zhash<{t2}> decreases when a coordinate increases"), neg: Neg::Bv(bad) }])
    }),
    native: Box::new(move |v| {
      let b: Vec<u64> = v.iter().map(bits_of).collect();
      let mut o = [0u64; 2];
      macro_rules! go {
        ($m:ident, $t:ty) => {{
          let x: Vec<$t> = b.iter().map(|x| *x as $t).collect();
          let ok = x[0] <= x[4] && x[4] <= x[6] && x[6] <= x[2] && x[1] <= x[5] && x[5] <= x[7] && x[7] <= x[3];
          if !ok {
            return None;
          }
          let r = guarded(|| kern::$m::hash2(&[x[0], x[1], x[2], x[3]], &kern::point([x[4], x[5]]), &kern::point([x[6], x[7]]), &mut o));
          match r {
            Err(m) => Some(format!("zhash<{ty}> panics on {x:?}: {m}")),
            Ok(()) if o[0] > o[1] => Some(format!("zhash<{ty}> on {x:?}: {} > {}", o[0], o[1])),
            _ => None,
          }
        }};
      }
      match ty.as_str() {
        "i8" => go!(h_i8, i8),
        "i64" => go!(h_i64, i64),
        "u32" => go!(h_u32, u32),
        _ => go!(h_u64, u64),
      }
    }),
    cands: Box::new(move |g| {
      let mut x: Vec<u64> = (0..4).map(|_| g.next()).collect();
      let mut y: Vec<u64> = (0..4).map(|_| g.next()).collect();
      let key = |v: &u64| if signed { ((*v << (64 - w)) as i64 as i128) >> 0 } else { (*v << (64 - w)) as i128 };
      x.sort_by_key(key);
      y.sort_by_key(key);
      let m = if w == 64 { u64::MAX } else { (1 << w) - 1 };
      [x[0], y[0], x[3], y[3], x[1], y[1], x[2], y[2]].iter().map(|v| qi(BigInt::from(*v & m))).collect()
    }),
    witness: true,
  }
}
/// zhash_pair as a monotone function (proved separately by the interleaving job)
fn pair_hook(e: &mut Exec, dem: &str, _ret: &Ty, args: &[(V, bool)]) -> Option<R<V>> {
  if dem != "rgeometry::algorithms::zhash::zhash_pair" {
    return None;
  }
  let v: Vec<V> = args.iter().map(|a| a.0.clone()).collect();
  // numbers
  if let (V::I(a), V::I(b)) = (&v[0], &v[1]) {
    if !matches!((a, b), (IntV::B(_), _) | (_, IntV::B(_))) {
      return Some((|| {
        let (a, _) = e.canon(a, 32, false)?;
        let (b, _) = e.canon(b, 32, false)?;
        let h = e.var("zhash", Some(BigInt::zero()), Some(pow2(64) - 1), true);
        for (c, d, g) in e.pairs.clone() {
          let (da, db) = (a.sub(&c), b.sub(&d));
          if e.implied(&da, Rel::Le) && e.implied(&db, Rel::Le) {
            e.assume(h.sub(&g), Rel::Le);
          }
          if e.implied(&da.neg(), Rel::Le) && e.implied(&db.neg(), Rel::Le) {
            e.assume(g.sub(&h), Rel::Le);
          }
        }
        e.pairs.push((a, b, h.clone()));
        let iv = e.iv(&h);
        Ok(V::I(IntV::P(Rc::new(h), iv)))
      })());
    }
  }
  let r = (|| {
    let (a, b) = (as_bv(e, &v[0], 32)?, as_bv(e, &v[1], 32)?);
    let h = e.bvvar(64);
    for (c, d, g) in e.bvpairs.clone() {
      for (x, y, s, u, lo, hi) in [(a, c, b, d, h, g), (c, a, d, b, g, h)] {
        let (l, m, n) = (e.bv.bvule(x, y), e.bv.bvule(s, u), e.bv.bvule(lo, hi));
        let lm = e.bv.and(&[l, m]);
        let nlm = e.bv.not(lm);
        let f = e.bv.or(&[nlm, n]);
        e.bvpath.push(f);
      }
    }
    e.bvpairs.push((a, b, h));
    Ok(V::I(IntV::B(h)))
  })();
  Some(r)
}
pub fn hash_f64() -> Job {
  let rep = Rep::Float(64);
  Job {
    name: "zhash<f64>".into(),
    bound: "every box with finite extent, every two points p <= q of it; rounding is any monotone function".into(),
    single: false,
    run: Box::new(move |e| {
      let f = entry(e, "kern::h_f64::hash2")?;
      let lim = pow2(1022);
      let mut v = vec![];
      for n in ["x0", "y0", "x1", "y1", "p.x", "p.y", "q.x", "q.y"] {
        let p = e.var(n, Some(-&lim), Some(lim.clone()), false);
        e.inputs.push(Input::Num(n.into(), p.clone()));
        v.push(p);
      }
      for (a, b) in [(0, 4), (4, 6), (6, 2), (1, 5), (5, 7), (7, 3)] {
        e.assume(v[a].sub(&v[b]), Rel::Le);
      }
      let b = e.alloc(32);
      for k in 0..4 {
        e.put(b, 8 * k, 8, value(rep, &v[k as usize], Iv::all()));
      }
      let p = pair(e, rep, &v[4], &v[5]);
      let r = pair(e, rep, &v[6], &v[7]);
      let out = e.alloc(16);
      e.hooks.push(pair_hook);
      let res = e.call(&f, vec![V::P(b, 0), p, r, V::P(out, 0)]);
      e.hooks.clear();
      res?;
      let h = e.load(0, &Ty::Int(64), &V::P(out, 0))?;
      let g = e.load(0, &Ty::Int(64), &V::P(out, 8))?;
      let (V::I(h), V::I(g)) = (h, g) else { return Err(Stop::Unsupported("hash".into())) };
      let (h, _) = e.canon(&h, 64, false)?;
      let (g, _) = e.canon(&g, 64, false)?;
      Ok(vec![Claim {
        what: "zhash<f64> decreases when a coordinate increases".into(),
        neg: Neg::Num(vec![vec![Atom { p: g.sub(&h), rel: Rel::Lt }]]),
      }])
    }),
    native: Box::new(|v| {
      let x: Vec<f64> = v.iter().map(to_f64).collect();
      let ok = x[0] <= x[4] && x[4] <= x[6] && x[6] <= x[2] && x[1] <= x[5] && x[5] <= x[7] && x[7] <= x[3];
      if !ok || x.iter().any(|x| !x.is_finite() || x.abs() > 1e300) {
        return None;
      }
      let mut o = [0u64; 2];
      match guarded(|| kern::h_f64::hash2(&[x[0], x[1], x[2], x[3]], &kern::point([x[4], x[5]]), &kern::point([x[6], x[7]]), &mut o)) {
        Err(m) => Some(format!("zhash<f64> panics on {x:?}: {m}")),
        Ok(()) if o[0] > o[1] => Some(format!("zhash<f64> on {x:?}: {} > {}", o[0], o[1])),
        _ => None,
      }
    }),
    cands: Box::new(|g| {
      let mut ax = |g: &mut Rng| {
        let mut a: Vec<f64> = (0..4).map(|_| (g.next() as i64 >> g.below(60)) as f64 * 2f64.powi(g.below(80) as i32 - 60)).collect();
        if g.below(3) == 0 {
          a[1] = a[0];
        }
        a.sort_by(|x, y| x.partial_cmp(y).unwrap());
        match g.below(5) {
          0 => a[2] = a[3],
          1 => a[1] = a[0],
          _ => {}
        }
        a
      };
      let (x, y) = (ax(g), ax(g));
      [x[0], y[0], x[3], y[3], x[1], y[1], x[2], y[2]].iter().map(|v| Q::from_float(*v).unwrap()).collect()
    }),
    witness: false,
  }
}

pub fn jobs(prop: &str, tier: &str) -> Option<Vec<Job>> {
  let ints = || TYPES.iter().filter(|t| matches!(t.rep, Rep::Int(_)));
  let nums = || TYPES.iter().filter(|t| matches!(t.rep, Rep::Num(..)));
  let floats = || TYPES.iter().filter(|t| matches!(t.rep, Rep::Float(_)));
  let mut v = vec![];
  let _ = tier;
  match prop {
    "K01" => v.extend(ints().map(|t| predicate(t, Kind::Orient, "orient"))),
    "K02" => {
      for (k, n) in KINDS.iter().filter(|k| matches!(k.0, Kind::Along | Kind::Perp | Kind::CmpAlong)) {
        v.extend(ints().map(|t| predicate(t, *k, n)));
      }
    }
    "K03" => v.extend(ints().map(|t| predicate(t, Kind::Dist, "dist"))),
    "K04" => {
      for (k, n) in KINDS {
        v.extend(nums().map(|t| predicate(t, k, n)));
      }
      v.extend(nums().map(constant));
      v.extend(nums().map(order_num));
    }
    "K05" => {
      for (k, n) in KINDS {
        v.extend(floats().map(|t| predicate(t, k, n)));
      }
      v.extend(floats().map(constant));
      v.extend(ints().map(constant));
      v.extend(floats().map(order_bits));
      v.extend(ints().map(order_num));
    }
    "K06" => {
      v.push(sos_new(None));
      v.extend([-1, 0, 1].map(|o| sos_new(Some(o))));
      v.push(sos_sym());
      v.push(orient_ops());
    }
    "K07" => {
      v.push(roundtrip());
      v.push(back());
      v.push(interleave());
      v.push(hash_int(8, true, false));
      v.push(hash_int(32, false, false));
      v.push(hash_int(64, true, true));
      v.push(hash_int(64, false, true));
      v.push(hash_f64());
    }
    _ => return None,
  }
  Some(v)
}
