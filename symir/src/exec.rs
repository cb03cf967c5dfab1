//! Symbolic executor for LLVM IR. Every path is re-executed from the start following a trail of
//! decisions; feasibility of decisions and all assertions are decided by z3.
use crate::ll::*;
use crate::num::*;
use crate::z3::{Ast, Res, Z3};
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{One, Signed, ToPrimitive, Zero};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum IntV {
  C(u128),
  /// value congruent to the polynomial modulo 2^width; the interval bounds the polynomial
  P(Rc<Poly>, Iv),
  B(Ast),
}
#[derive(Clone, Debug)]
pub enum FV {
  C(f64),
  /// finite, with this exact real value
  R(Rc<Poly>),
  /// bit pattern
  B(Ast),
  /// absolute value of a finite real, its sign not yet decided
  A(Rc<Poly>),
}
#[derive(Clone, Debug)]
pub enum V {
  I(IntV),
  P(usize, i128),
  F(FV),
  /// number of an arbitrary-precision type
  N(Rc<Poly>),
  Agg(Vec<V>),
  Fn(Rc<str>),
  U,
}
pub const NOALLOC: usize = usize::MAX;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Rel {
  Lt,
  Le,
  Eq,
  Ne,
}
/// p REL 0
#[derive(Clone, Debug)]
pub struct Atom {
  pub p: Poly,
  pub rel: Rel,
}
#[derive(Debug)]
pub enum Stop {
  Panic(String),
  Unsupported(String),
  Infeasible,
}
type R<T> = Result<T, Stop>;
fn uns<T>(s: impl Into<String>) -> R<T> {
  Err(Stop::Unsupported(s.into()))
}

pub struct Var {
  pub name: String,
  pub lo: Option<BigInt>,
  pub hi: Option<BigInt>,
  pub int: bool,
}
struct Alloc {
  size: u64,
  cells: BTreeMap<u64, (u64, V)>,
}
#[derive(Clone)]
pub enum Input {
  Num(String, Poly),
  Bits(String, Ast, u32),
}
#[derive(Default, Clone)]
pub struct Stats {
  pub paths: u64,
  pub pruned: u64,
  pub decisions: u64,
  pub queries: u64,
  pub asserts: u64,
  pub unknown: u64,
  pub solver_s: f64,
  pub steps: u64,
  pub witnesses: u64,
}

pub struct Exec {
  mods: Rc<Vec<Module>>,
  fcache: HashMap<String, Option<(usize, Rc<Func>)>>,
  pub used: BTreeSet<String>,
  pub externs: BTreeSet<String>,
  // z3
  lra: Z3,
  nra: Z3,
  nia: Z3,
  pub bv: Z3,
  bv_mark: usize,
  // trail
  trail: Vec<(u32, u32)>,
  pos: usize,
  // path
  pub vars: Vec<Var>,
  pub path: Vec<Atom>,
  bounds: HashMap<Poly, Iv>,
  pub bvpath: Vec<Ast>,
  bvnames: usize,
  allocs: Vec<Alloc>,
  gcache: HashMap<(usize, String), usize>,
  pub inputs: Vec<Input>,
  /// some rounding operation was abstracted: models may not be realisable
  pub rounded: bool,
  /// every float of this job is single precision
  pub single: bool,
  pub single0: bool,
  steps: u64,
  depth: u32,
  pub stats: Stats,
  /// contracts for external functions, on top of the built-in ones
  pub hooks: Vec<fn(&mut Exec, &str, &Ty, &[(V, bool)]) -> Option<R<V>>>,
  rnd: Vec<(Poly, Option<Poly>, Poly)>,
  truncs: Vec<(Poly, Poly)>,
  /// lower and upper bounds of absolute values decided on this path
  mags: Vec<(Poly, Option<Q>, Option<Q>)>,
  /// arguments and results of the abstracted hash
  pub pairs: Vec<(Poly, Poly, Poly)>,
  pub bvpairs: Vec<(Ast, Ast, Ast)>,
}

pub enum Proof {
  Holds,
  /// candidate input values (inputs in order)
  Fails(Vec<Q>),
  Unknown,
}

impl Exec {
  pub fn new(mods: Rc<Vec<Module>>) -> Exec {
    let bv = Z3::new("QF_BV", 120_000);
    Exec {
      mods,
      fcache: HashMap::new(),
      used: BTreeSet::new(),
      externs: BTreeSet::new(),
      lra: Z3::new("", 5_000),
      nra: Z3::new("QF_NRA", 60_000),
      nia: Z3::new("QF_NIA", 20_000),
      bv_mark: bv.mark(),
      bv,
      trail: vec![],
      pos: 0,
      vars: vec![],
      path: vec![],
      bounds: HashMap::new(),
      bvpath: vec![],
      bvnames: 0,
      allocs: vec![],
      gcache: HashMap::new(),
      inputs: vec![],
      rounded: false,
      single: false,
      single0: false,
      steps: 0,
      depth: 0,
      stats: Stats::default(),
      hooks: vec![],
      rnd: vec![],
      truncs: vec![],
      mags: vec![],
      pairs: vec![],
      bvpairs: vec![],
    }
  }
  // ------------------------------------------------------------ exploration
  pub fn start(&mut self) {
    self.pos = 0;
    self.vars.clear();
    self.path.clear();
    self.bounds.clear();
    self.bvpath.clear();
    self.bvnames = 0;
    let m = self.bv_mark;
    self.bv.release(m);
    self.allocs.clear();
    self.gcache.clear();
    self.inputs.clear();
    self.rounded = false;
    self.steps = 0;
    self.depth = 0;
    self.rnd.clear();
    self.truncs.clear();
    self.mags.clear();
    self.pairs.clear();
    self.bvpairs.clear();
    self.single = self.single0;
  }
  /// moves to the next path; false when all are done
  pub fn next(&mut self) -> bool {
    while let Some((c, n)) = self.trail.pop() {
      if c + 1 < n {
        self.trail.push((c + 1, n));
        return true;
      }
    }
    false
  }
  pub fn mods(&self) -> Rc<Vec<Module>> {
    self.mods.clone()
  }
  pub fn reset_trail(&mut self) {
    self.trail.clear()
  }
  pub fn choose(&mut self, n: u32) -> u32 {
    if n <= 1 {
      return 0;
    }
    self.stats.decisions += 1;
    if self.pos == self.trail.len() {
      self.trail.push((0, n));
    }
    let (c, m) = self.trail[self.pos];
    assert_eq!(m, n, "non-deterministic execution");
    self.pos += 1;
    c
  }
  // ------------------------------------------------------------ variables
  pub fn var(&mut self, name: &str, lo: Option<BigInt>, hi: Option<BigInt>, int: bool) -> Poly {
    let i = self.vars.len();
    self.vars.push(Var { name: format!("{name}_{i}"), lo: lo.clone(), hi: hi.clone(), int });
    let p = Poly::var(i);
    self.bounds.insert(p.clone(), Iv { lo: lo.map(qi), hi: hi.map(qi) });
    p
  }
  pub fn bvvar(&mut self, w: u32) -> Ast {
    self.bvnames += 1;
    let n = format!("b{}", self.bvnames);
    self.bv.bv_const(&n, w)
  }
  fn is_int(&self, p: &Poly) -> bool {
    p.0.values().all(|c| c.is_integer()) && p.vars().iter().all(|v| self.vars[*v as usize].int)
  }
  pub fn iv(&self, p: &Poly) -> Iv {
    let mut s = Iv::point(Q::zero());
    for (m, c) in &p.0 {
      let mut t = Iv::point(Q::one());
      let mut i = 0;
      while i < m.len() {
        let mut j = i;
        while j < m.len() && m[j] == m[i] {
          j += 1
        }
        let b = self.bounds.get(&Poly::var(m[i] as usize)).cloned().unwrap_or(Iv::all());
        t = t.mul(&b.pow(j - i));
        i = j;
      }
      // the monomial itself may have a recorded bound
      if m.len() > 1 {
        if let Some(b) = self.bounds.get(&Poly(BTreeMap::from([(m.clone(), Q::one())]))) {
          t = t.meet(b)
        }
      }
      s = s.add(&t.scale(c));
    }
    let (k, base, c) = p.split();
    if !k.is_zero() {
      if let Some(b) = self.bounds.get(&base) {
        s = s.meet(&b.scale(&k).add(&Iv::point(c)));
      }
    }
    s
  }
  pub fn assume(&mut self, p: Poly, rel: Rel) {
    let int = self.is_int(&p);
    let (k, base, c) = p.split();
    if k.is_zero() {
      self.path.push(Atom { p, rel });
      return;
    }
    // k*base + c REL 0
    let t = -c / &k;
    let mut nb = self.bounds.get(&base).cloned().unwrap_or(Iv::all());
    let one = |x: Q| if int && (k.is_one() || (-&k).is_one()) { x } else { Q::zero() };
    match rel {
      Rel::Eq => nb = nb.meet(&Iv::point(t)),
      Rel::Ne => {
        if int && k.abs().is_one() {
          if nb.lo.as_ref() == Some(&t) {
            nb.lo = Some(&t + Q::one())
          }
          if nb.hi.as_ref() == Some(&t) {
            nb.hi = Some(&t - Q::one())
          }
        }
      }
      Rel::Lt | Rel::Le => {
        let strict = rel == Rel::Lt;
        let d = if strict { one(Q::one()) } else { Q::zero() };
        if k.is_positive() {
          nb = nb.meet(&Iv { lo: None, hi: Some(t - d) })
        } else {
          nb = nb.meet(&Iv { lo: Some(t + d), hi: None })
        }
      }
    }
    self.bounds.insert(base, nb);
    self.path.push(Atom { p, rel });
  }
  fn neg_atom(p: &Poly, rel: Rel) -> (Poly, Rel) {
    match rel {
      Rel::Lt => (p.neg(), Rel::Le),
      Rel::Le => (p.neg(), Rel::Lt),
      Rel::Eq => (p.clone(), Rel::Ne),
      Rel::Ne => (p.clone(), Rel::Eq),
    }
  }
  /// Some(b): already decided by intervals or earlier decisions
  fn known(&self, p: &Poly, rel: Rel) -> Option<bool> {
    let i = self.iv(p);
    let z = Q::zero();
    let (lo, hi) = (i.lo.as_ref(), i.hi.as_ref());
    if let (Some(l), Some(h)) = (lo, hi) {
      if l > h {
        return Some(true); // infeasible path: any answer will do
      }
    }
    let r = match rel {
      Rel::Lt => {
        if hi.is_some_and(|h| *h < z) {
          Some(true)
        } else if lo.is_some_and(|l| *l >= z) {
          Some(false)
        } else {
          None
        }
      }
      Rel::Le => {
        if hi.is_some_and(|h| *h <= z) {
          Some(true)
        } else if lo.is_some_and(|l| *l > z) {
          Some(false)
        } else {
          None
        }
      }
      Rel::Eq | Rel::Ne => {
        let eq = if lo == Some(&z) && hi == Some(&z) {
          Some(true)
        } else if lo.is_some_and(|l| *l > z) || hi.is_some_and(|h| *h < z) {
          Some(false)
        } else {
          None
        };
        eq.map(|e| e == (rel == Rel::Eq))
      }
    };
    if r.is_some() {
      return r;
    }
    // strict facts on the same polynomial (real-valued)
    let (k, base, c) = p.split();
    for a in &self.path {
      let (k2, b2, c2) = a.p.split();
      if b2 == base && !k2.is_zero() && &c2 * &k == &c * &k2 {
        let same = (k.is_positive()) == (k2.is_positive());
        let f = |neg: bool, zero: bool, pos: bool| -> Option<bool> {
          // possible signs of p
          let (neg, pos) = if same { (neg, pos) } else { (pos, neg) };
          let (t, f) = match rel {
            Rel::Lt => (neg, zero || pos),
            Rel::Le => (neg || zero, pos),
            Rel::Eq => (zero, neg || pos),
            Rel::Ne => (neg || pos, zero),
          };
          match (t, f) {
            (true, false) => Some(true),
            (false, true) => Some(false),
            _ => None,
          }
        };
        let r = match a.rel {
          Rel::Lt => f(true, false, false),
          Rel::Le => f(true, true, false),
          Rel::Eq => f(false, true, false),
          Rel::Ne => f(true, false, true),
        };
        if r.is_some() {
          return r;
        }
      }
    }
    None
  }
  /// Is path + atom linearly infeasible?
  fn lin_infeasible(&mut self, p: &Poly, rel: Rel) -> bool {
    if !p.linear() {
      return false;
    }
    let mut v: Vec<Atom> = self.path.iter().filter(|a| a.p.linear()).cloned().collect();
    v.push(Atom { p: p.clone(), rel });
    let t = Instant::now();
    self.stats.queries += 1;
    let used = v.iter().flat_map(|a| a.p.vars()).collect::<BTreeSet<_>>();
    let mut z = std::mem::replace(&mut self.lra, Z3::new("", 1));
    let m = z.mark();
    z.push();
    let names = self.consts(&mut z, &used, false);
    for a in &v {
      let f = self.atom(&mut z, &names, a, false);
      z.assert(f);
    }
    let r = z.check();
    z.pop(1);
    z.release(m);
    self.lra = z;
    self.stats.solver_s += t.elapsed().as_secs_f64();
    r == Res::Unsat
  }
  fn consts(&self, z: &mut Z3, used: &BTreeSet<u16>, int: bool) -> HashMap<u16, Ast> {
    let mut m = HashMap::new();
    for v in used {
      let d = &self.vars[*v as usize];
      let i = int && d.int;
      let a = if i { z.int_const(&d.name) } else { z.real_const(&d.name) };
      m.insert(*v, a);
      if let Some(l) = &d.lo {
        let n = if i { z.int_num(&l.to_string()) } else { z.real_num(&l.to_string()) };
        let f = z.le(n, a);
        z.assert(f);
      }
      if let Some(l) = &d.hi {
        let n = if i { z.int_num(&l.to_string()) } else { z.real_num(&l.to_string()) };
        let f = z.le(a, n);
        z.assert(f);
      }
    }
    m
  }
  fn atom(&self, z: &mut Z3, names: &HashMap<u16, Ast>, a: &Atom, int: bool) -> Ast {
    // clear denominators
    let mut l = BigInt::one();
    for c in a.p.0.values() {
      l = l.lcm(c.denom());
    }
    let p = a.p.scale(&qi(l));
    let allint = self.is_int(&p);
    let num = |z: &mut Z3, s: &str| if int { z.int_num(s) } else { z.real_num(s) };
    let mut sum = vec![];
    for (m, c) in &p.0 {
      let mut f = vec![];
      if !c.is_one() || m.is_empty() {
        f.push(num(z, &c.to_integer().to_string()));
      }
      f.extend(m.iter().map(|v| names[v]));
      sum.push(if f.len() == 1 { f[0] } else { z.mul(&f) });
    }
    let e = match sum.len() {
      0 => num(z, "0"),
      1 => sum[0],
      _ => z.add(&sum),
    };
    let zero = num(z, "0");
    match a.rel {
      Rel::Lt => {
        if allint {
          let m = num(z, "-1");
          z.le(e, m)
        } else {
          z.lt(e, zero)
        }
      }
      Rel::Le => z.le(e, zero),
      Rel::Eq => z.eq(e, zero),
      Rel::Ne => {
        if allint {
          let (m, o) = (num(z, "-1"), num(z, "1"));
          let x = z.le(e, m);
          let y = z.le(o, e);
          z.or(&[x, y])
        } else {
          let f = z.eq(e, zero);
          z.not(f)
        }
      }
    }
  }
  /// decides (forking if necessary) whether p REL 0
  pub fn truth(&mut self, p: &Poly, rel: Rel) -> bool {
    if let Some(b) = self.known(p, rel) {
      return b;
    }
    let (np, nr) = Exec::neg_atom(p, rel);
    let b = if self.lin_infeasible(p, rel) {
      false
    } else if self.lin_infeasible(&np, nr) {
      true
    } else {
      self.choose(2) == 0
    };
    if b {
      self.assume(p.clone(), rel)
    } else {
      self.assume(np, nr)
    }
    b
  }
  /// does the path imply it? never splits
  pub fn implied(&mut self, p: &Poly, rel: Rel) -> bool {
    match self.known(p, rel) {
      Some(b) => b,
      None => {
        let (np, nr) = Exec::neg_atom(p, rel);
        self.lin_infeasible(&np, nr)
      }
    }
  }
  pub fn truth_bv(&mut self, f: Ast) -> bool {
    let s = self.bv.simplify(f);
    if let Some(n) = self.bv.numeral(s) {
      return n == "1";
    }
    // replay earlier decisions without asking again
    let nf = self.bv.not(f);
    if self.pos < self.trail.len() {
      let (c, n) = self.trail[self.pos];
      self.pos += 1;
      self.stats.decisions += 1;
      if n == 3 {
        // one side was infeasible; c == 0: it is true
        self.bvpath.push(f);
        return true;
      }
      if n == 4 {
        self.bvpath.push(nf);
        return false;
      }
      let b = c == 0;
      self.bvpath.push(if b { f } else { nf });
      return b;
    }
    let t = self.bv_sat(&[f]) != Res::Unsat;
    let e = self.bv_sat(&[nf]) != Res::Unsat;
    let b = match (t, e) {
      (true, true) => {
        self.trail.push((0, 2));
        true
      }
      (true, false) => {
        self.trail.push((2, 3));
        true
      }
      _ => {
        self.trail.push((3, 4));
        false
      }
    };
    self.stats.decisions += 1;
    self.pos += 1;
    self.bvpath.push(if b { f } else { nf });
    b
  }
  pub fn bv_sat(&mut self, extra: &[Ast]) -> Res {
    let t = Instant::now();
    self.stats.queries += 1;
    self.bv.push();
    for a in self.bvpath.clone() {
      self.bv.assert(a);
    }
    for a in extra {
      self.bv.assert(*a);
    }
    let r = self.bv.check();
    if r != Res::Sat {
      self.bv.pop(1);
    }
    // on Sat the frame stays for the model; close it with bv_done
    if r == Res::Sat {
      self.bv.pop(1);
    }
    self.stats.solver_s += t.elapsed().as_secs_f64();
    r
  }
  fn bv_model(&mut self, extra: &[Ast]) -> Option<Vec<Q>> {
    self.bv.push();
    for a in self.bvpath.clone() {
      self.bv.assert(a);
    }
    for a in extra {
      self.bv.assert(*a);
    }
    let r = self.bv.check();
    let mut out = None;
    if r == Res::Sat {
      let v: Vec<Ast> = self.inputs.iter().filter_map(|i| if let Input::Bits(_, a, _) = i { Some(*a) } else { None }).collect();
      let n = self.bv.model_nums(&v);
      out = n.into_iter().map(|s| s.map(|s| qi(s.parse().unwrap()))).collect();
    }
    self.bv.pop(1);
    out
  }
  /// path /\ extra satisfiable over the bit-vectors: the input values
  pub fn refute_bv(&mut self, extra: &[Ast]) -> Proof {
    self.stats.asserts += 1;
    match self.bv_sat(extra) {
      Res::Unsat => Proof::Holds,
      Res::Unknown => {
        self.stats.unknown += 1;
        Proof::Unknown
      }
      Res::Sat => match self.bv_model(extra) {
        Some(v) => Proof::Fails(v),
        None => Proof::Unknown,
      },
    }
  }
  /// path /\ extra satisfiable over the numbers?
  pub fn refute(&mut self, extra: &[Atom]) -> Proof {
    self.stats.asserts += 1;
    for a in extra {
      if a.p.as_const().is_some() || self.known(&a.p, a.rel) == Some(false) {
        if self.known(&a.p, a.rel) == Some(false) {
          return Proof::Holds;
        }
      }
    }
    let mut v = self.path.clone();
    v.extend(extra.iter().cloned());
    let anyint = self.vars.iter().any(|v| v.int);
    match self.solve(&v, false, anyint) {
      (Res::Unsat, _) => Proof::Holds,
      (_, Some(m)) if !anyint => Proof::Fails(m),
      (r, m) => {
        if let Some(m) = &m {
          if self.inputs_integral(m) {
            return Proof::Fails(m.clone());
          }
        }
        if anyint {
          match self.solve(&v, true, true) {
            (Res::Unsat, _) => return Proof::Holds,
            (Res::Sat, Some(m)) => return Proof::Fails(m),
            _ => {}
          }
        }
        if r == Res::Unknown {
          self.stats.unknown += 1;
        }
        match m {
          Some(m) => Proof::Fails(m),
          None => Proof::Unknown,
        }
      }
    }
  }
  /// a model of the path itself
  pub fn witness(&mut self) -> Option<Vec<Q>> {
    if self.inputs.iter().any(|i| matches!(i, Input::Bits(..))) {
      return self.bv_model(&[]);
    }
    let v = self.path.clone();
    let anyint = self.vars.iter().any(|v| v.int);
    let (_, m) = self.solve(&v, false, anyint);
    if let Some(m) = m {
      if !anyint || self.inputs_integral(&m) {
        return Some(m);
      }
      return self.solve(&v, true, true).1;
    }
    None
  }
  fn inputs_integral(&self, m: &[Q]) -> bool {
    self.inputs.iter().filter_map(|i| if let Input::Num(_, p) = i { Some(p) } else { None }).zip(m).all(|(p, v)| !self.is_int(p) || v.is_integer())
  }
  fn solve(&mut self, atoms: &[Atom], int: bool, _anyint: bool) -> (Res, Option<Vec<Q>>) {
    let t = Instant::now();
    self.stats.queries += 1;
    let ins: Vec<Poly> = self.inputs.iter().filter_map(|i| if let Input::Num(_, p) = i { Some(p.clone()) } else { None }).collect();
    let mut used: BTreeSet<u16> = atoms.iter().flat_map(|a| a.p.vars()).collect();
    used.extend(ins.iter().flat_map(|p| p.vars()));
    let mut z = std::mem::replace(if int { &mut self.nia } else { &mut self.nra }, Z3::new("", 1));
    let m = z.mark();
    z.push();
    let names = self.consts(&mut z, &used, int);
    for a in atoms {
      let f = self.atom(&mut z, &names, a, int);
      z.assert(f);
    }
    let r = z.check();
    let mut out = None;
    if r == Res::Sat {
      let vs: Vec<u16> = used.iter().cloned().collect();
      let asts: Vec<Ast> = vs.iter().map(|v| names[v]).collect();
      let vals = z.model_nums(&asts);
      let mut full = vec![Q::zero(); self.vars.len()];
      for (v, s) in vs.iter().zip(vals) {
        if let Some(s) = s {
          full[*v as usize] = parse_q(&s);
        }
      }
      out = Some(ins.iter().map(|p| p.eval(&full)).collect());
    }
    z.pop(1);
    z.release(m);
    *(if int { &mut self.nia } else { &mut self.nra }) = z;
    self.stats.solver_s += t.elapsed().as_secs_f64();
    (r, out)
  }
  // ------------------------------------------------------------ integers
  fn range(w: u32, signed: bool) -> (Q, Q) {
    if signed {
      (qi(-pow2(w - 1)), qi(pow2(w - 1) - 1))
    } else {
      (q(0), qi(pow2(w) - 1))
    }
  }
  fn as_poly(&self, v: &IntV, w: u32) -> R<(Poly, Iv)> {
    match v {
      IntV::C(c) => {
        let n = signed_of(*c, w);
        Ok((Poly::c(qi(n.clone())), Iv::point(qi(n))))
      }
      IntV::P(p, i) => Ok(((**p).clone(), i.meet(&self.iv(p)))),
      IntV::B(_) => uns("bits mixed with polynomials"),
    }
  }
  /// the mathematical value when read as signed or unsigned
  pub fn canon(&mut self, v: &IntV, w: u32, signed: bool) -> R<(Poly, Iv)> {
    if let IntV::C(c) = v {
      let n = if signed { signed_of(*c, w) } else { BigInt::from(*c) };
      return Ok((Poly::c(qi(n.clone())), Iv::point(qi(n))));
    }
    let (p, i) = self.as_poly(v, w)?;
    let (rl, rh) = Exec::range(w, signed);
    let (Some(lo), Some(hi)) = (i.lo.clone(), i.hi.clone()) else { return uns("unbounded integer") };
    if lo >= rl && hi <= rh {
      return Ok((p, i));
    }
    let m = qi(pow2(w));
    let k0 = ((&lo - &rl) / &m).floor().to_integer();
    let k1 = ((&hi - &rl) / &m).floor().to_integer();
    if &k1 - &k0 > BigInt::from(64) {
      return uns("too many wrap-around cases");
    }
    let mut cands = vec![];
    let mut k = k0;
    while k <= k1 {
      let pk = p.sub(&Poly::c(qi(k.clone()) * &m));
      // rl <= pk <= rh
      let a = Poly::c(rl.clone()).sub(&pk);
      let b = pk.sub(&Poly::c(rh.clone()));
      if self.known(&a, Rel::Le) != Some(false) && self.known(&b, Rel::Le) != Some(false) && !self.lin_infeasible(&a, Rel::Le) && !self.lin_infeasible(&b, Rel::Le) {
        cands.push((pk, a, b, k.clone()));
      }
      k += 1;
    }
    if cands.is_empty() {
      return Err(Stop::Infeasible);
    }
    let c = self.choose(cands.len() as u32) as usize;
    let (pk, a, b, k) = cands.swap_remove(c);
    if self.known(&a, Rel::Le) != Some(true) {
      self.assume(a, Rel::Le);
    }
    if self.known(&b, Rel::Le) != Some(true) {
      self.assume(b, Rel::Le);
    }
    let i = i.add(&Iv::point(-qi(k) * m)).meet(&Iv { lo: Some(rl), hi: Some(rh) }).meet(&self.iv(&pk));
    Ok((pk, i))
  }
  fn mk(&self, p: Poly, i: Iv, w: u32) -> IntV {
    if let Some(c) = p.as_const() {
      let n = c.to_integer().mod_floor(&pow2(w));
      return IntV::C(n.to_u128().unwrap());
    }
    IntV::P(Rc::new(p), i)
  }
  pub fn to_bv(&mut self, v: &IntV, w: u32) -> R<Ast> {
    match v {
      IntV::C(c) => Ok(self.bv.bv_num(&c.to_string(), w)),
      IntV::B(a) => Ok(*a),
      IntV::P(..) => uns("polynomial used as bits"),
    }
  }
  fn ibool(b: bool) -> V {
    V::I(IntV::C(b as u128))
  }
  fn fresh_div(&mut self, p: &Poly, i: &Iv, d: &BigInt) -> (Poly, Poly, Iv) {
    // floor division by a positive constant
    let lo = i.lo.as_ref().map(|l| (l / qi(d.clone())).floor().to_integer());
    let hi = i.hi.as_ref().map(|l| (l / qi(d.clone())).floor().to_integer());
    let qv = self.var("div", lo.clone(), hi.clone(), true);
    let r = p.sub(&qv.scale(&qi(d.clone())));
    self.assume(r.neg(), Rel::Le);
    self.assume(r.sub(&Poly::c(qi(d.clone() - 1))), Rel::Le);
    (qv, r, Iv { lo: lo.map(qi), hi: hi.map(qi) })
  }
  fn bin(&mut self, op: &str, w: u32, a: &IntV, b: &IntV) -> R<IntV> {
    use IntV::*;
    if let (C(x), C(y)) = (a, b) {
      let (sx, sy) = (signed_of(*x, w), signed_of(*y, w));
      let r = match op {
        "add" => x.wrapping_add(*y),
        "sub" => x.wrapping_sub(*y),
        "mul" => x.wrapping_mul(*y),
        "and" => x & y,
        "or" => x | y,
        "xor" => x ^ y,
        "shl" => x.checked_shl(*y as u32).unwrap_or(0),
        "lshr" => x.checked_shr(*y as u32).unwrap_or(0),
        "ashr" => {
          let n = sx >> (*y as u32);
          n.mod_floor(&pow2(w)).to_u128().unwrap()
        }
        "udiv" => x.checked_div(*y).ok_or(Stop::Panic("division by zero".into()))?,
        "urem" => x.checked_rem(*y).ok_or(Stop::Panic("division by zero".into()))?,
        "sdiv" => (sx / sy).mod_floor(&pow2(w)).to_u128().unwrap(),
        "srem" => (&sx % &sy).mod_floor(&pow2(w)).to_u128().unwrap(),
        _ => return uns(format!("integer {op}")),
      };
      return Ok(C(mask(r, w)));
    }
    if matches!(a, B(_)) || matches!(b, B(_)) {
      let (x, y) = (self.to_bv(a, w)?, self.to_bv(b, w)?);
      let z = &mut self.bv;
      let r = match op {
        "add" => z.bvadd(x, y),
        "sub" => z.bvsub(x, y),
        "mul" => z.bvmul(x, y),
        "and" => z.bvand(x, y),
        "or" => z.bvor(x, y),
        "xor" => z.bvxor(x, y),
        "shl" => z.bvshl(x, y),
        "lshr" => z.bvlshr(x, y),
        "ashr" => z.bvashr(x, y),
        "udiv" => z.bvudiv(x, y),
        "urem" => z.bvurem(x, y),
        "sdiv" => z.bvsdiv(x, y),
        "srem" => z.bvsrem(x, y),
        _ => return uns(format!("bits {op}")),
      };
      return Ok(self.bvsimp(r));
    }
    // polynomials
    let cst = |v: &IntV| if let C(c) = v { Some(*c) } else { None };
    match op {
      "add" | "sub" | "mul" => {
        let ((p, i), (r, j)) = (self.as_poly(a, w)?, self.as_poly(b, w)?);
        let (p, i) = match op {
          "add" => (p.add(&r), i.add(&j)),
          "sub" => (p.sub(&r), i.add(&j.scale(&q(-1)))),
          _ => {
            let same = p == r;
            let k = if same { i.pow(2) } else { i.mul(&j) };
            (p.mul(&r), k)
          }
        };
        let i = i.meet(&self.iv(&p));
        Ok(self.mk(p, i, w))
      }
      "shl" => match cst(b) {
        Some(c) if c < w as u128 => {
          let k = qi(pow2(c as u32));
          let (p, i) = self.as_poly(a, w)?;
          Ok(self.mk(p.scale(&k), i.scale(&k), w))
        }
        _ => uns("symbolic shift"),
      },
      "lshr" | "ashr" | "udiv" => match cst(b) {
        Some(c) if op == "udiv" || c < w as u128 => {
          let d = if op == "udiv" { BigInt::from(c) } else { pow2(c as u32) };
          if d.is_zero() {
            return Err(Stop::Panic("division by zero".into()));
          }
          let (p, i) = self.canon(a, w, op == "ashr")?;
          if d.is_one() {
            return Ok(self.mk(p, i, w));
          }
          let (qv, _, j) = self.fresh_div(&p, &i, &d);
          Ok(self.mk(qv, j, w))
        }
        _ => uns(format!("{op} by a symbolic amount")),
      },
      "urem" | "and" => {
        let (a, b) = if cst(a).is_some() { (b, a) } else { (a, b) };
        match cst(b) {
          Some(c) => {
            let d = if op == "urem" { BigInt::from(c) } else { BigInt::from(c) + 1 };
            if op == "and" && c == mask(u128::MAX, w) {
              return Ok(a.clone());
            }
            if c == 0 {
              return Ok(C(0));
            }
            if op == "and" && !(c & (c + 1) == 0) {
              return uns("and with a general mask");
            }
            let (p, i) = self.canon(a, w, false)?;
            let (_, r, _) = self.fresh_div(&p, &i, &d);
            let j = Iv { lo: Some(q(0)), hi: Some(qi(d - 1)) };
            Ok(self.mk(r, j, w))
          }
          None => uns("and/urem of symbolic values"),
        }
      }
      "sdiv" | "srem" => match cst(b) {
        Some(c) if signed_of(c, w).is_positive() => {
          let d = signed_of(c, w);
          let (p, i) = self.canon(a, w, true)?;
          let neg = self.truth(&p, Rel::Lt);
          let (pp, ii) = if neg { (p.neg(), i.scale(&q(-1))) } else { (p.clone(), i) };
          let ii = ii.meet(&Iv { lo: Some(q(0)), hi: None });
          let (qv, r, j) = self.fresh_div(&pp, &ii, &d);
          let s = if neg { q(-1) } else { q(1) };
          if op == "sdiv" {
            Ok(self.mk(qv.scale(&s), j.scale(&s), w))
          } else {
            Ok(self.mk(r.scale(&s), Iv { lo: Some(q(0)), hi: Some(qi(d - 1)) }.scale(&s), w))
          }
        }
        _ => uns("signed division"),
      },
      "xor" => {
        let (a, b) = if cst(a).is_some() { (b, a) } else { (a, b) };
        if cst(b) == Some(0) {
          return Ok(a.clone());
        }
        if cst(b) == Some(mask(u128::MAX, w)) {
          let (p, i) = self.as_poly(a, w)?;
          return Ok(self.mk(p.neg().sub(&Poly::int(1)), i.scale(&q(-1)).add(&Iv::point(q(-1))), w));
        }
        uns("xor of numbers")
      }
      "or" => {
        let (a, b) = if cst(a).is_some() { (b, a) } else { (a, b) };
        if cst(b) == Some(0) {
          return Ok(a.clone());
        }
        uns("or of numbers")
      }
      _ => uns(format!("integer {op} on numbers")),
    }
  }
  pub fn bvsimp(&mut self, a: Ast) -> IntV {
    let s = self.bv.simplify(a);
    match self.bv.numeral(s) {
      Some(n) => IntV::C(n.parse().unwrap()),
      None => IntV::B(s),
    }
  }
  pub fn icmp(&mut self, c: &str, w: u32, a: &IntV, b: &IntV) -> R<bool> {
    use IntV::*;
    if let (C(x), C(y)) = (a, b) {
      let (sx, sy) = (signed_of(*x, w), signed_of(*y, w));
      return Ok(match c {
        "eq" => x == y,
        "ne" => x != y,
        "ult" => x < y,
        "ule" => x <= y,
        "ugt" => x > y,
        "uge" => x >= y,
        "slt" => sx < sy,
        "sle" => sx <= sy,
        "sgt" => sx > sy,
        _ => sx >= sy,
      });
    }
    if matches!(a, B(_)) || matches!(b, B(_)) {
      let (x, y) = (self.to_bv(a, w)?, self.to_bv(b, w)?);
      let z = &mut self.bv;
      let f = match c {
        "eq" | "ne" => z.eq(x, y),
        "ult" => z.bvult(x, y),
        "ule" => z.bvule(x, y),
        "ugt" => z.bvult(y, x),
        "uge" => z.bvule(y, x),
        "slt" => z.bvslt(x, y),
        "sle" => z.bvsle(x, y),
        "sgt" => z.bvslt(y, x),
        _ => z.bvsle(y, x),
      };
      let r = self.truth_bv(f);
      return Ok(r != (c == "ne"));
    }
    if c == "eq" || c == "ne" {
      let ((p, i), (r, j)) = (self.as_poly(a, w)?, self.as_poly(b, w)?);
      let fits = |s: bool| {
        let (l, h) = Exec::range(w, s);
        [&i, &j].iter().all(|x| x.lo.as_ref().is_some_and(|v| *v >= l) && x.hi.as_ref().is_some_and(|v| *v <= h))
      };
      let d = if fits(true) || fits(false) {
        p.sub(&r)
      } else {
        let (p, _) = self.canon(a, w, false)?;
        let (r, _) = self.canon(b, w, false)?;
        p.sub(&r)
      };
      let e = self.truth(&d, Rel::Eq);
      return Ok(e == (c == "eq"));
    }
    let s = c.starts_with('s');
    let (p, _) = self.canon(a, w, s)?;
    let (r, _) = self.canon(b, w, s)?;
    let d = p.sub(&r);
    Ok(match &c[1..] {
      "lt" => self.truth(&d, Rel::Lt),
      "le" => self.truth(&d, Rel::Le),
      "gt" => self.truth(&d.neg(), Rel::Lt),
      _ => self.truth(&d.neg(), Rel::Le),
    })
  }
  fn ext(&mut self, op: &str, w: u32, v: &IntV, to: u32) -> R<IntV> {
    use IntV::*;
    Ok(match (op, v) {
      ("zext", C(c)) => C(*c),
      ("sext", C(c)) => C(signed_of(*c, w).mod_floor(&pow2(to)).to_u128().unwrap()),
      ("trunc", C(c)) => C(mask(*c, to)),
      ("zext", B(a)) => {
        let r = self.bv.zext(to - w, *a);
        self.bvsimp(r)
      }
      ("sext", B(a)) => {
        let r = self.bv.sext(to - w, *a);
        self.bvsimp(r)
      }
      ("trunc", B(a)) => {
        let r = self.bv.extract(to - 1, 0, *a);
        if to == 1 {
          let one = self.bv.bv_num("1", 1);
          let f = self.bv.eq(r, one);
          return Ok(C(self.truth_bv(f) as u128));
        }
        self.bvsimp(r)
      }
      ("trunc", P(p, i)) => {
        if to == 1 {
          let (p, i) = self.canon(&P(p.clone(), i.clone()), w, false)?;
          let r = if i.hi.as_ref().is_some_and(|h| *h <= q(1)) { p } else { self.fresh_div(&p, &i, &BigInt::from(2)).1 };
          let z = self.truth(&r, Rel::Eq);
          return Ok(C(!z as u128));
        }
        P(p.clone(), i.clone())
      }
      _ => {
        let (p, i) = self.canon(v, w, op == "sext")?;
        self.mk(p, i, to)
      }
    })
  }
  // ------------------------------------------------------------ floats
  /// provably zero or of a magnitude in [2^-300, 2^400]
  pub fn in_exact_range(&mut self, p: &Poly) -> bool {
    if let Some(c) = p.as_const() {
      let a = c.abs();
      return c.is_zero() || (a >= qi(pow2(300)).recip() && a <= qi(pow2(400)));
    }
    if self.known(p, Rel::Eq) == Some(true) {
      return true;
    }
    let (a, b) = (qi(pow2(300)).recip(), qi(pow2(400)));
    let ms = || self.mags.iter().filter(|m| m.0 == *p);
    if ms().any(|m| m.1.as_ref().is_some_and(|l| *l >= a)) && ms().any(|m| m.2.as_ref().is_some_and(|h| *h <= b)) {
      return true;
    }
    let (lo, hi) = (Poly::c(qi(pow2(300)).recip()), Poly::c(qi(pow2(400))));
    for s in [p.clone(), p.neg()] {
      if self.known(&lo.sub(&s), Rel::Le) == Some(true) && self.known(&s.sub(&hi), Rel::Le) == Some(true) {
        return true;
      }
    }
    false
  }
  pub fn fpoly(&self, f: &FV) -> Option<Poly> {
    match f {
      FV::C(c) => Q::from_float(*c).map(Poly::c),
      FV::R(p) => Some((**p).clone()),
      FV::B(_) | FV::A(_) => None,
    }
  }
  /// decides the sign under an absolute value
  fn deabs(&mut self, f: &FV) -> FV {
    match f {
      FV::A(p) => {
        let neg = self.truth(p, Rel::Lt);
        FV::R(if neg { Rc::new(p.neg()) } else { p.clone() })
      }
      f => f.clone(),
    }
  }
  /// |p| against a constant, without deciding the sign of p
  fn abs_cmp(&mut self, c: &str, p: &Poly, k: f64) -> R<bool> {
    if k < 0.0 {
      return Ok(matches!(c, "gt" | "ge" | "ne"));
    }
    if k == 0.0 {
      return Ok(match c {
        "lt" => false,
        "ge" => true,
        "le" | "eq" => self.truth(p, Rel::Eq),
        _ => !self.truth(p, Rel::Eq),
      });
    }
    let k = Q::from_float(k).unwrap();
    let d = p.mul(p).sub(&Poly::c(&k * &k));
    let (lo, hi) = self.mags.iter().filter(|m| m.0 == *p).fold((None::<Q>, None::<Q>), |(l, h), m| (l.max(m.1.clone()), match (h, &m.2) {
      (Some(a), Some(b)) => Some(a.min(b.clone())),
      (a, b) => a.or(b.clone()),
    }));
    // what is known already
    let (below, above) = (hi.as_ref().is_some_and(|h| *h < k), lo.as_ref().is_some_and(|l| *l > k));
    let lt = |e: &mut Exec| below || (!above && e.truth(&d, Rel::Lt));
    let le = |e: &mut Exec| below || (!above && e.truth(&d, Rel::Le));
    let (b, upper) = match c {
      "lt" => (lt(self), true),
      "le" => (le(self), true),
      "ge" => (!lt(self), false),
      "gt" => (!le(self), false),
      "eq" => return Ok(!below && !above && self.truth(&d, Rel::Eq)),
      _ => return Ok(below || above || !self.truth(&d, Rel::Eq)),
    };
    if b == upper {
      self.mags.push((p.clone(), None, Some(k)));
    } else {
      self.mags.push((p.clone(), Some(k), None));
    }
    Ok(b)
  }
  fn fbits(&mut self, f: &FV, w: u32) -> R<Ast> {
    Ok(match f {
      FV::C(c) => {
        let b = if w == 32 { (*c as f32).to_bits() as u64 } else { c.to_bits() };
        self.bv.bv_num(&b.to_string(), w)
      }
      FV::B(a) => *a,
      FV::R(_) | FV::A(_) => return uns("bits of a real-valued float"),
    })
  }
  /// unordered, equal, less
  pub fn float_bits(&mut self, x: Ast, y: Ast, w: u32) -> (Ast, Ast, Ast) {
    let z = &mut self.bv;
    let (absm, inf) = if w == 32 { (0x7fff_ffffu64, 0x7f80_0000u64) } else { (i64::MAX as u64, 0x7ff0_0000_0000_0000) };
    let am = z.bv_num(&absm.to_string(), w);
    let infv = z.bv_num(&inf.to_string(), w);
    let zero = z.bv_num("0", w);
    let (ax, ay) = (z.bvand(x, am), z.bvand(y, am));
    let (nx, ny) = (z.bvult(infv, ax), z.bvult(infv, ay));
    let un = z.or(&[nx, ny]);
    let o = z.bvor(ax, ay);
    let bz = z.eq(o, zero);
    let same = z.eq(x, y);
    let eq = z.or(&[bz, same]);
    let (sx, sy) = (z.bvslt(x, zero), z.bvslt(y, zero));
    let ult = z.bvult(x, y);
    let ugt = z.bvult(y, x);
    let nsx = z.not(sx);
    let nsy = z.not(sy);
    let c1 = z.and(&[sx, nsy]);
    let c2 = z.and(&[sx, sy, ugt]);
    let c3 = z.and(&[nsx, nsy, ult]);
    let l0 = z.or(&[c1, c2, c3]);
    let nbz = z.not(bz);
    let lt = z.and(&[nbz, l0]);
    (un, eq, lt)
  }
  pub fn fcmp(&mut self, c: &str, w: u32, a: &FV, b: &FV) -> R<bool> {
    // truth of (unordered, equal, less)
    let (uno, ord) = (c.starts_with('u'), c.starts_with('o'));
    if c == "true" || c == "false" {
      return Ok(c == "true");
    }
    match (a, b) {
      (FV::C(x), FV::C(y)) => {
        let un = x.is_nan() || y.is_nan();
        return Ok(match c {
          "ord" => !un,
          "uno" => un,
          _ if un => uno,
          _ => match &c[1..] {
            "eq" => x == y,
            "ne" => x != y,
            "lt" => x < y,
            "le" => x <= y,
            "gt" => x > y,
            _ => x >= y,
          },
        });
      }
      (FV::B(_), _) | (_, FV::B(_)) => {
        let (x, y) = (self.fbits(a, w)?, self.fbits(b, w)?);
        let (un, eq, lt) = self.float_bits(x, y, w);
        if self.truth_bv(un) {
          return Ok(c == "uno" || (uno && c != "ord"));
        }
        if c == "ord" || c == "uno" {
          return Ok(c == "ord");
        }
        let z = &mut self.bv;
        let f = match &c[1..] {
          "eq" => eq,
          "ne" => z.not(eq),
          "lt" => lt,
          "le" => z.or(&[lt, eq]),
          "gt" => {
            let f = z.or(&[lt, eq]);
            z.not(f)
          }
          _ => z.not(lt),
        };
        return Ok(self.truth_bv(f));
      }
      _ => {}
    }
    let _ = ord;
    match (a, b) {
      (FV::A(p), FV::C(k)) if k.is_finite() && c.len() == 3 && c != "ord" && c != "uno" => return self.abs_cmp(&c[1..], p, *k),
      (FV::C(k), FV::A(p)) if k.is_finite() && c.len() == 3 && c != "ord" && c != "uno" => {
        let r = match &c[1..] {
          "lt" => "gt",
          "le" => "ge",
          "gt" => "lt",
          "ge" => "le",
          o => o,
        };
        return self.abs_cmp(r, p, *k);
      }
      _ => {}
    }
    let (a, b) = (&self.deabs(a), &self.deabs(b));
    // a finite real against a special constant
    for (k, swap) in [(a, true), (b, false)] {
      if let FV::C(x) = k {
        if x.is_nan() {
          return Ok(c == "uno" || (uno && c != "ord"));
        }
        if x.is_infinite() {
          // r ? x, with x = +-inf; lt: r < x
          let lt = (*x > 0.0) != swap;
          return Ok(match c {
            "ord" => true,
            "uno" => false,
            _ => match &c[1..] {
              "eq" => false,
              "ne" => true,
              "lt" | "le" => lt,
              _ => !lt,
            },
          });
        }
      }
    }
    if c == "ord" || c == "uno" {
      return Ok(c == "ord");
    }
    let d = self.fpoly(a).unwrap().sub(&self.fpoly(b).unwrap());
    Ok(match &c[1..] {
      "eq" => self.truth(&d, Rel::Eq),
      "ne" => !self.truth(&d, Rel::Eq),
      "lt" => self.truth(&d, Rel::Lt),
      "le" => self.truth(&d, Rel::Le),
      "gt" => self.truth(&d.neg(), Rel::Lt),
      _ => self.truth(&d.neg(), Rel::Le),
    })
  }
  /// the rounded value of the exact real n/d: its sign and monotonicity are known
  pub fn round(&mut self, n: Poly, d: Option<Poly>, may_underflow: bool) -> FV {
    self.single = false;
    if n.as_const().is_some_and(|c| c.is_zero()) {
      return FV::C(0.0);
    }
    self.rounded = true;
    if self.truth(&n, Rel::Eq) {
      return FV::C(0.0);
    }
    for (n2, d2, r) in &self.rnd {
      if *n2 == n && *d2 == d {
        return FV::R(Rc::new(r.clone()));
      }
    }
    let neg = self.truth(&n, Rel::Lt);
    let r = self.var("rnd", None, None, false);
    let s = if neg { r.clone() } else { r.neg() };
    self.assume(s, if may_underflow { Rel::Le } else { Rel::Lt });
    for (n2, d2, r2) in self.rnd.clone() {
      if d2 != d || !(n.linear() && n2.linear()) {
        continue;
      }
      let df = n.sub(&n2);
      if self.implied(&df, Rel::Le) {
        self.assume(r.sub(&r2), Rel::Le);
      } 
      if self.implied(&df.neg(), Rel::Le) {
        self.assume(r2.sub(&r), Rel::Le);
      }
    }
    // rounding never crosses a representable number
    match &d {
      None => {
        let iv = self.iv(&n);
        if let Some(h) = iv.hi.as_ref().and_then(|h| float_above(h)) {
          self.assume(r.sub(&Poly::c(h)), Rel::Le);
        }
        if let Some(l) = iv.lo.as_ref().and_then(|l| float_above(&-l)) {
          self.assume(Poly::c(-l).sub(&r), Rel::Le);
        }
      }
      Some(d) => {
        if self.implied(&n.sub(d), Rel::Le) {
          self.assume(r.sub(&Poly::int(1)), Rel::Le);
        }
        if self.implied(&d.sub(&n), Rel::Le) {
          self.assume(Poly::int(1).sub(&r), Rel::Le);
        }
      }
    }
    self.rnd.push((n, d, r.clone()));
    FV::R(Rc::new(r))
  }
  fn fbin(&mut self, op: &str, w: u32, a: &FV, b: &FV) -> R<FV> {
    if let (FV::C(x), FV::C(y)) = (a, b) {
      let f = |v: f64| if w == 32 { v as f32 as f64 } else { v };
      return Ok(FV::C(f(match op {
        "fadd" => x + y,
        "fsub" => x - y,
        "fmul" => x * y,
        "fdiv" => x / y,
        _ => return uns(op),
      })));
    }
    let (a, b) = (&self.deabs(a), &self.deabs(b));
    let (Some(p), Some(r)) = (self.fpoly(a), self.fpoly(b)) else { return uns(format!("{op} on special floats")) };
    Ok(match op {
      "fadd" => self.round(p.add(&r), None, false),
      "fsub" => self.round(p.sub(&r), None, false),
      "fmul" => self.round(p.mul(&r), None, true),
      "fdiv" => {
        if self.truth(&r, Rel::Eq) {
          if self.truth(&p, Rel::Eq) {
            return Ok(FV::C(f64::NAN));
          }
          // the sign of a zero divisor is not tracked
          return uns("division by a symbolic zero");
        }
        if self.truth(&r, Rel::Lt) {
          self.round(p.neg(), Some(r.neg()), true)
        } else {
          self.round(p, Some(r), true)
        }
      }
      _ => return uns(format!("{op} on symbolic floats")),
    })
  }
  // ------------------------------------------------------------ types and memory
  fn layout(&self, m: usize, t: &Ty) -> (u64, u64) {
    match t {
      Ty::Int(w) => {
        let b = (*w as u64).div_ceil(8).next_power_of_two();
        (b, b.min(16))
      }
      Ty::Ptr | Ty::F64 => (8, 8),
      Ty::F32 => (4, 4),
      Ty::Arr(n, t) => {
        let (s, a) = self.layout(m, t);
        (s * n, a)
      }
      Ty::Struct(v, packed) => {
        let (mut o, mut al) = (0u64, 1);
        for t in v.iter() {
          let (s, a) = self.layout(m, t);
          let a = if *packed { 1 } else { a };
          o = o.next_multiple_of(a) + s;
          al = al.max(a);
        }
        (o.next_multiple_of(al), al)
      }
      Ty::Named(n) => match self.mods[m].types.get(n) {
        Some(t) => self.layout(m, &t.clone()),
        None => (0, 1),
      },
      _ => (0, 1),
    }
  }
  fn field(&self, m: usize, t: &Ty, k: usize) -> R<(u64, Ty)> {
    match t {
      Ty::Arr(_, e) => Ok((self.layout(m, e).0 * k as u64, (**e).clone())),
      Ty::Struct(v, packed) => {
        let mut o = 0u64;
        for (i, t) in v.iter().enumerate() {
          let (s, a) = self.layout(m, t);
          o = if *packed { o } else { (o as u64).next_multiple_of(a) };
          if i == k {
            return Ok((o, t.clone()));
          }
          o += s;
        }
        uns("field index")
      }
      Ty::Named(n) => {
        let t = self.mods[m].types.get(n).cloned();
        match t {
          Some(t) => self.field(m, &t, k),
          None => uns(format!("opaque type {n}")),
        }
      }
      _ => uns("field of a scalar"),
    }
  }
  pub fn alloc(&mut self, size: u64) -> usize {
    self.allocs.push(Alloc { size, cells: BTreeMap::new() });
    self.allocs.len() - 1
  }
  pub fn put(&mut self, a: usize, off: u64, size: u64, v: V) {
    self.clear(a, off, size);
    self.allocs[a].cells.insert(off, (size, v));
  }
  fn clear(&mut self, a: usize, off: u64, size: u64) {
    let hit: Vec<(u64, u64)> =
      self.allocs[a].cells.range(..off + size).filter(|(o, (s, _))| **o + *s > off).map(|(o, (s, _))| (*o, *s)).collect();
    for (o, s) in hit {
      let (_, v) = self.allocs[a].cells.remove(&o).unwrap();
      if o < off || o + s > off + size {
        // keep the bytes outside when they are concrete
        if let V::I(IntV::C(c)) = v {
          for k in 0..s {
            if o + k < off || o + k >= off + size {
              self.allocs[a].cells.insert(o + k, (1, V::I(IntV::C((c >> (8 * k)) & 0xff))));
            }
          }
        }
      }
    }
  }
  fn at(&self, p: &V) -> R<(usize, u64)> {
    match p {
      V::P(a, o) if *a != NOALLOC => {
        if *o < 0 || *o as u64 > self.allocs[*a].size {
          return uns(format!("pointer out of bounds: {o}"));
        }
        Ok((*a, *o as u64))
      }
      V::P(_, o) => uns(format!("access through address {o}")),
      v => uns(format!("access through {v:?}")),
    }
  }
  pub fn load(&mut self, m: usize, t: &Ty, p: &V) -> R<V> {
    let t = match t {
      Ty::Named(n) => self.mods[m].types.get(n).cloned().unwrap_or(Ty::Other),
      t => t.clone(),
    };
    if let Ty::Struct(v, _) = &t {
      let n = v.len();
      let mut o = vec![];
      for k in 0..n {
        let (off, ft) = self.field(m, &t, k)?;
        let pp = self.offset(p, off as i128)?;
        o.push(self.load(m, &ft, &pp)?);
      }
      return Ok(V::Agg(o));
    }
    if let Ty::Arr(n, e) = &t {
      let s = self.layout(m, e).0;
      let mut o = vec![];
      for k in 0..*n {
        let pp = self.offset(p, (s * k) as i128)?;
        o.push(self.load(m, e, &pp)?);
      }
      return Ok(V::Agg(o));
    }
    let size = self.layout(m, &t).0;
    let (a, off) = self.at(p)?;
    if off + size > self.allocs[a].size {
      return uns("load out of bounds");
    }
    if let Some((s, v)) = self.allocs[a].cells.get(&off) {
      if *s == size {
        let v = v.clone();
        return self.convert(v, &t);
      }
      if let V::N(_) = v {
        // part of an arbitrary-precision number: the niche of an Option around it says Some
        if size == 8 && *s > 8 {
          return Ok(V::I(IntV::C(0)));
        }
        if size > 8 {
          return Ok(v.clone());
        }
      }
    }
    // assemble concrete bytes
    let mut r: u128 = 0;
    let mut any = false;
    for k in 0..size {
      let o = off + k;
      let c = self.allocs[a].cells.range(..=o).next_back();
      match c {
        Some((co, (cs, V::I(IntV::C(c))))) if co + cs > o => {
          r |= ((c >> (8 * (o - co))) & 0xff) << (8 * k);
          any = true
        }
        Some((co, (cs, V::I(IntV::B(b))))) if co + cs > o && k == 0 && co + cs >= off + size => {
          let b = *b;
          let d = (off - co) as u32 * 8;
          let x = self.bv.extract(d + size as u32 * 8 - 1, d, b);
          let v = V::I(self.bvsimp(x));
          return self.convert(v, &t);
        }
        Some((co, (cs, v))) if co + cs > o && !matches!(v, V::U) => return uns(format!("partial load of {v:?}")),
        _ => {
          if k == 0 {
            // uninitialised
          }
        }
      }
    }
    if !any {
      return Ok(V::U);
    }
    self.convert(V::I(IntV::C(r)), &t)
  }
  fn convert(&mut self, v: V, t: &Ty) -> R<V> {
    Ok(match (t, v) {
      (Ty::Int(_), V::F(FV::B(a))) => V::I(IntV::B(a)),
      (Ty::Int(w), V::F(FV::C(c))) => V::I(IntV::C(if *w == 32 { (c as f32).to_bits() as u128 } else { c.to_bits() as u128 })),
      (Ty::F64, V::I(IntV::C(c))) => V::F(FV::C(f64::from_bits(c as u64))),
      (Ty::F32, V::I(IntV::C(c))) => V::F(FV::C(f32::from_bits(c as u32) as f64)),
      (Ty::F64 | Ty::F32, V::I(IntV::B(a))) => V::F(FV::B(a)),
      (Ty::Ptr, V::I(IntV::C(c))) => V::P(NOALLOC, c as i128),
      (Ty::Int(_), V::P(NOALLOC, c)) => V::I(IntV::C(c as u128)),
      (Ty::Int(_), V::F(FV::R(_))) => return uns("float bits of a real-valued float"),
      (Ty::Int(w), V::I(IntV::C(c))) => V::I(IntV::C(mask(c, *w))),
      (_, v) => v,
    })
  }
  pub fn store(&mut self, m: usize, t: &Ty, v: V, p: &V) -> R<()> {
    if let V::Agg(vs) = v {
      for (k, v) in vs.into_iter().enumerate() {
        let (off, ft) = self.field(m, t, k)?;
        let pp = self.offset(p, off as i128)?;
        self.store(m, &ft, v, &pp)?;
      }
      return Ok(());
    }
    let size = self.layout(m, t).0;
    let (a, off) = self.at(p)?;
    if off + size > self.allocs[a].size {
      return uns("store out of bounds");
    }
    self.put(a, off, size, v);
    Ok(())
  }
  fn offset(&self, p: &V, d: i128) -> R<V> {
    match p {
      V::P(a, o) => Ok(V::P(*a, o + d)),
      V::U => Ok(V::U),
      v => uns(format!("offset of {v:?}")),
    }
  }
  fn copy(&mut self, dst: &V, src: &V, n: u64) -> R<()> {
    if n == 0 {
      return Ok(());
    }
    let ((da, d), (sa, s)) = (self.at(dst)?, self.at(src)?);
    let mut cells: Vec<(u64, u64, V)> = vec![];
    let near: Vec<(u64, u64, V)> =
      self.allocs[sa].cells.range(..s + n).filter(|(o, (z, _))| **o + *z > s).map(|(o, (z, v))| (*o, *z, v.clone())).collect();
    for (o, z, v) in near {
      if o >= s && o + z <= s + n {
        cells.push((o - s, z, v));
      } else if let V::I(IntV::C(c)) = v {
        for k in 0..z {
          if o + k >= s && o + k < s + n {
            cells.push((o + k - s, 1, V::I(IntV::C((c >> (8 * k)) & 0xff))));
          }
        }
      } else if let V::N(_) = v {
        // moving the payload of an Option: same bytes, smaller container
        if o == s {
          cells.push((0, n, v));
        } else {
          return uns("partial copy of a number");
        }
      } else {
        return uns(format!("partial copy of {v:?}"));
      }
    }
    self.clear(da, d, n);
    for (o, z, v) in cells {
      self.allocs[da].cells.insert(d + o, (z, v));
    }
    Ok(())
  }
  pub fn num_at(&mut self, p: &V) -> R<Poly> {
    if let V::N(n) = p {
      return Ok((**n).clone());
    }
    let (a, off) = self.at(p)?;
    match self.allocs[a].cells.get(&off) {
      Some((_, V::N(n))) => Ok((**n).clone()),
      // a reference to a reference
      Some((8, V::P(x, o))) => {
        let pp = V::P(*x, *o);
        self.num_at(&pp)
      }
      c => uns(format!("no number in memory: {c:?}")),
    }
  }
  // ------------------------------------------------------------ globals
  fn global(&mut self, m: usize, g: &str) -> R<V> {
    if self.find(g).is_some() {
      return Ok(V::Fn(g.into()));
    }
    let key = (m, g.to_string());
    if let Some(a) = self.gcache.get(&key) {
      return Ok(V::P(*a, 0));
    }
    let mods = self.mods.clone();
    let owner = if mods[m].globals.contains_key(g) { Some(m) } else { (0..mods.len()).find(|i| mods[*i].globals.contains_key(g)) };
    let init = owner.and_then(|o| mods[o].global(g).map(|x| (o, x)));
    match init {
      Some((o, (t, init))) => {
        let size = self.layout(o, &t).0;
        let a = self.alloc(size);
        self.gcache.insert(key, a);
        self.init(o, a, 0, &t, &init)?;
        Ok(V::P(a, 0))
      }
      None => Ok(V::Fn(g.into())),
    }
  }
  fn init(&mut self, m: usize, a: usize, off: u64, t: &Ty, o: &Opd) -> R<()> {
    match o {
      Opd::Bytes(b) => {
        for (i, x) in b.iter().enumerate() {
          self.put(a, off + i as u64, 1, V::I(IntV::C(*x as u128)));
        }
      }
      Opd::Zero => {
        for i in 0..self.layout(m, t).0 {
          self.put(a, off + i, 1, V::I(IntV::C(0)));
        }
      }
      Opd::Agg(v) => {
        for (k, (ft, x)) in v.iter().enumerate() {
          let (fo, _) = self.field(m, t, k)?;
          self.init(m, a, off + fo, ft, x)?;
        }
      }
      Opd::Undef => {}
      o => {
        let s = self.layout(m, t).0;
        let v = match o {
          // function pointers and references in constants are resolved lazily
          Opd::Global(g) => self.global(m, g)?,
          o => self.opd(m, &HashMap::new(), t, o)?,
        };
        self.put(a, off, s, v);
      }
    }
    Ok(())
  }
  // ------------------------------------------------------------ functions
  fn find(&mut self, name: &str) -> Option<(usize, Rc<Func>)> {
    if let Some(f) = self.fcache.get(name) {
      return f.clone();
    }
    let mods = self.mods.clone();
    let r = mods.iter().position(|m| m.has(name)).map(|i| (i, Rc::new(mods[i].parse(name).unwrap())));
    self.fcache.insert(name.to_string(), r.clone());
    r
  }
  fn opd(&mut self, m: usize, regs: &HashMap<Rc<str>, V>, t: &Ty, o: &Opd) -> R<V> {
    Ok(match o {
      Opd::Reg(r) => regs.get(r).cloned().unwrap_or(V::U),
      Opd::Int(c) => V::I(IntV::C(*c)),
      Opd::Float(b) => V::F(FV::C(f64::from_bits(*b))),
      Opd::Null => V::P(NOALLOC, 0),
      Opd::Undef => match t {
        Ty::Struct(v, _) => V::Agg(v.iter().map(|_| V::U).collect()),
        _ => V::U,
      },
      Opd::Zero => self.zero(t)?,
      Opd::Global(g) => self.global(m, g)?,
      Opd::Gep(t, p, ix) => {
        let b = self.opd(m, regs, &Ty::Ptr, p)?;
        self.gep(m, regs, t, b, ix)?
      }
      Opd::IntToPtr(o) => match self.opd(m, regs, &Ty::Int(64), o)? {
        V::I(IntV::C(c)) => V::P(NOALLOC, c as i128),
        v => v,
      },
      Opd::Agg(v) => {
        let mut o = vec![];
        for (t, x) in v {
          o.push(self.opd(m, regs, t, x)?)
        }
        V::Agg(o)
      }
      Opd::Bytes(_) => return uns("byte constant"),
    })
  }
  fn zero(&self, t: &Ty) -> R<V> {
    Ok(match t {
      Ty::Int(_) => V::I(IntV::C(0)),
      Ty::Ptr => V::P(NOALLOC, 0),
      Ty::F32 | Ty::F64 => V::F(FV::C(0.0)),
      Ty::Struct(v, _) => V::Agg(v.iter().map(|t| self.zero(t)).collect::<R<Vec<_>>>()?),
      Ty::Arr(n, t) => V::Agg((0..*n).map(|_| self.zero(t)).collect::<R<Vec<_>>>()?),
      _ => return uns("zero of this type"),
    })
  }
  fn gep(&mut self, m: usize, regs: &HashMap<Rc<str>, V>, t: &Ty, b: V, ix: &[(Ty, Opd)]) -> R<V> {
    let mut off: i128 = 0;
    let mut cur = t.clone();
    for (k, (it, io)) in ix.iter().enumerate() {
      let i = match self.opd(m, regs, it, io)? {
        V::I(IntV::C(c)) => {
          let w = if let Ty::Int(w) = it { *w } else { 64 };
          signed_of(c, w).to_i128().unwrap()
        }
        V::I(IntV::P(p, iv)) => {
          let w = if let Ty::Int(w) = it { *w } else { 64 };
          return self.gep_sym(m, t, b, ix, k, IntV::P(p, iv), w);
        }
        v => return uns(format!("symbolic index {v:?}")),
      };
      if k == 0 {
        off += i * self.layout(m, &cur).0 as i128;
      } else {
        let (o, ft) = self.field(m, &cur, i as usize)?;
        off += o as i128;
        cur = ft;
      }
    }
    self.offset(&b, off)
  }
  /// index into a table by a small symbolic number: fork over its values
  fn gep_sym(&mut self, m: usize, t: &Ty, b: V, ix: &[(Ty, Opd)], k: usize, i: IntV, w: u32) -> R<V> {
    let (p, iv) = self.canon(&i, w, true)?;
    let (Some(lo), Some(hi)) = (iv.lo, iv.hi) else { return uns("unbounded index") };
    if &hi - &lo > q(64) {
      return uns("wide symbolic index");
    }
    let mut c = lo;
    while c < hi {
      if self.truth(&p.sub(&Poly::c(c.clone())), Rel::Eq) {
        break;
      }
      c += q(1);
    }
    let mut ix2 = ix.to_vec();
    ix2[k].1 = Opd::Int(c.to_integer().mod_floor(&pow2(w)).to_u128().unwrap());
    self.gep(m, &HashMap::new(), t, b, &ix2)
  }
  pub fn call(&mut self, name: &str, args: Vec<V>) -> R<V> {
    let Some((m, f)) = self.find(name) else {
      return uns(format!("no body for {}", demangle(name)));
    };
    self.used.insert(demangle(name));
    self.depth += 1;
    if self.depth > 200 {
      return uns("call depth");
    }
    let mut regs: HashMap<Rc<str>, V> = HashMap::new();
    for ((_, n), v) in f.params.iter().zip(args) {
      regs.insert(n.clone(), v);
    }
    let mut prev: Rc<str> = "".into();
    let mut cur = f.entry.clone();
    loop {
      let Some(b) = f.blocks.get(&cur).cloned() else { return uns(format!("block {cur}")) };
      let mut next: Option<Rc<str>> = None;
      let mut phis: Vec<(Rc<str>, V)> = vec![];
      let mut in_phi = true;
      for (dst, ins) in b.iter() {
        self.steps += 1;
        self.stats.steps += 1;
        if self.steps > 3_000_000 {
          return uns("step limit");
        }
        if in_phi {
          if let Ins::Phi(t, v) = ins {
            let Some((o, _)) = v.iter().find(|(_, l)| *l == prev) else { return uns("phi") };
            let val = self.opd(m, &regs, t, o)?;
            phis.push((dst.clone().unwrap(), val));
            continue;
          }
          in_phi = false;
          for (d, v) in phis.drain(..) {
            regs.insert(d, v);
          }
        }
        let val: V = match ins {
          Ins::Nop => continue,
          Ins::Phi(..) => return uns("late phi"),
          Ins::Alloca(t) => {
            let s = self.layout(m, t).0;
            V::P(self.alloc(s), 0)
          }
          Ins::Load(t, p) => {
            let p = self.opd(m, &regs, &Ty::Ptr, p)?;
            self.load(m, t, &p)?
          }
          Ins::Store(t, v, p) => {
            let v = self.opd(m, &regs, t, v)?;
            let p = self.opd(m, &regs, &Ty::Ptr, p)?;
            self.store(m, t, v, &p)?;
            continue;
          }
          Ins::Gep(t, p, ix) => {
            let b = self.opd(m, &regs, &Ty::Ptr, p)?;
            self.gep(m, &regs, t, b, ix)?
          }
          Ins::Bin(op, t, a, b) => {
            let (a, b) = (self.opd(m, &regs, t, a)?, self.opd(m, &regs, t, b)?);
            match (t, a, b) {
              (Ty::Int(w), V::I(a), V::I(b)) => V::I(self.bin(op, *w, &a, &b)?),
              (Ty::F32, V::F(a), V::F(b)) => V::F(self.fbin(op, 32, &a, &b)?),
              (Ty::F64, V::F(a), V::F(b)) => V::F(self.fbin(op, 64, &a, &b)?),
              (_, V::P(a, x), V::P(b, y)) if &**op == "sub" && a == b => V::I(IntV::C(x.wrapping_sub(y) as u64 as u128)),
              (_, V::P(_, x), V::I(IntV::C(k))) if &**op == "and" && k < 16 => V::I(IntV::C(x as u128 & k)),
              (_, V::P(a, x), V::I(IntV::C(k))) if &**op == "add" => V::P(a, x + k as i64 as i128),
              (_, V::P(a, x), V::I(IntV::C(k))) if &**op == "sub" => V::P(a, x - k as i64 as i128),
              (_, V::U, _) | (_, _, V::U) => V::U,
              (_, a, b) => return uns(format!("{op} of {a:?} and {b:?}")),
            }
          }
          Ins::FNeg(_, a) => match self.opd(m, &regs, &Ty::F64, a)? {
            V::F(FV::A(p)) => match self.deabs(&FV::A(p)) {
              FV::R(p) => V::F(FV::R(Rc::new(p.neg()))),
              _ => unreachable!(),
            },
            V::F(FV::C(c)) => V::F(FV::C(-c)),
            V::F(FV::R(p)) => V::F(FV::R(Rc::new(p.neg()))),
            v => return uns(format!("fneg of {v:?}")),
          },
          Ins::Icmp(c, t, a, b) => {
            let (a, b) = (self.opd(m, &regs, t, a)?, self.opd(m, &regs, t, b)?);
            let w = if let Ty::Int(w) = t { *w } else { 64 };
            match (a, b) {
              (V::I(a), V::I(b)) => Exec::ibool(self.icmp(c, w, &a, &b)?),
              (V::P(a, x), V::P(b, y)) => {
                // distinct objects: order by number, addresses never coincide
                let (l, r) = if a == b { (x, y) } else { ((a as i128 + 1) << 64, (b as i128 + 1) << 64) };
                let (l, r) = (if a == NOALLOC { x } else { l }, if b == NOALLOC { y } else { r });
                Exec::ibool(match &**c {
                  "eq" => l == r,
                  "ne" => l != r,
                  "ult" | "slt" => l < r,
                  "ule" | "sle" => l <= r,
                  "ugt" | "sgt" => l > r,
                  _ => l >= r,
                })
              }
              (V::P(a, x), V::I(IntV::C(k))) | (V::I(IntV::C(k)), V::P(a, x)) if &**c == "eq" || &**c == "ne" => {
                Exec::ibool((a == NOALLOC && x as u128 == k) == (&**c == "eq"))
              }
              (V::Fn(_), V::P(NOALLOC, _)) | (V::P(NOALLOC, _), V::Fn(_)) => Exec::ibool(&**c == "ne"),
              (a, b) => return uns(format!("icmp of {a:?} and {b:?} in {}", demangle(name))),
            }
          }
          Ins::Fcmp(c, t, a, b) => {
            let (a, b) = (self.opd(m, &regs, t, a)?, self.opd(m, &regs, t, b)?);
            let w = if *t == Ty::F32 { 32 } else { 64 };
            match (a, b) {
              (V::F(a), V::F(b)) => Exec::ibool(self.fcmp(c, w, &a, &b)?),
              (a, b) => return uns(format!("fcmp of {a:?} and {b:?}")),
            }
          }
          Ins::Cast(op, t, a, to) => {
            let a = self.opd(m, &regs, t, a)?;
            self.cast(op, t, a, to)?
          }
          Ins::Select(c, t, a, b) => {
            let c = self.opd(m, &regs, &Ty::Int(1), c)?;
            let c = self.boolean(&c)?;
            self.opd(m, &regs, t, if c { a } else { b })?
          }
          Ins::Freeze(t, a) => self.opd(m, &regs, t, a)?,
          Ins::Extract(t, a, ix) => {
            let mut v = self.opd(m, &regs, t, a)?;
            for i in ix {
              v = match v {
                V::Agg(mut x) if *i < x.len() => x.swap_remove(*i),
                V::U => V::U,
                v => return uns(format!("extract from {v:?}")),
              }
            }
            v
          }
          Ins::Insert(t, a, t2, b, ix) => {
            let mut v = self.opd(m, &regs, t, a)?;
            let x = self.opd(m, &regs, t2, b)?;
            if let V::U = v {
              if let Ty::Struct(f, _) = t {
                v = V::Agg(f.iter().map(|_| V::U).collect())
              }
            }
            if ix.len() != 1 {
              return uns("nested insertvalue");
            }
            match &mut v {
              V::Agg(w) => w[ix[0]] = x,
              v => return uns(format!("insert into {v:?}")),
            }
            v
          }
          Ins::Call(t, callee, args) => {
            let mut vs = vec![];
            for (t, o, s) in args {
              vs.push((self.opd(m, &regs, t, o)?, *s));
            }
            let sym: Rc<str> = match callee {
              Opd::Global(g) => g.clone(),
              o => match self.opd(m, &regs, &Ty::Ptr, o)? {
                V::Fn(g) => g,
                v => return uns(format!("call through {v:?}")),
              },
            };
            self.invoke(&sym, t, vs)?
          }
          Ins::Br(l) => {
            next = Some(l.clone());
            break;
          }
          Ins::CondBr(c, x, y) => {
            let c = self.opd(m, &regs, &Ty::Int(1), c)?;
            let c = self.boolean(&c).map_err(|e| match e {
              Stop::Unsupported(s) => Stop::Unsupported(format!("{s} in {}", demangle(name))),
              e => e,
            })?;
            next = Some(if c { x.clone() } else { y.clone() });
            break;
          }
          Ins::Switch(t, v, d, cs) => {
            let w = if let Ty::Int(w) = t { *w } else { 64 };
            let v = match self.opd(m, &regs, t, v)? {
              V::I(v) => v,
              v => return uns(format!("switch on {v:?} in {}", demangle(name))),
            };
            let mut to = d.clone();
            for (k, l) in cs {
              if self.icmp("eq", w, &v, &IntV::C(*k))? {
                to = l.clone();
                break;
              }
            }
            next = Some(to);
            break;
          }
          Ins::Ret(o) => {
            self.depth -= 1;
            return match o {
              None => Ok(V::U),
              Some((t, o)) => self.opd(m, &regs, t, o),
            };
          }
          Ins::Unreachable => return Err(Stop::Panic(format!("unreachable code reached in {}", demangle(name)))),
        };
        if let Some(d) = dst {
          regs.insert(d.clone(), val);
        }
      }
      prev = cur;
      cur = match next {
        Some(n) => n,
        None => return uns("block without terminator"),
      };
    }
  }
  pub fn boolean(&mut self, v: &V) -> R<bool> {
    match v {
      V::I(IntV::C(c)) => Ok(*c & 1 == 1),
      V::I(IntV::B(a)) => {
        let one = self.bv.bv_num("1", 1);
        let f = self.bv.eq(*a, one);
        Ok(self.truth_bv(f))
      }
      v => uns(format!("condition {v:?}")),
    }
  }
  fn cast(&mut self, op: &str, t: &Ty, a: V, to: &Ty) -> R<V> {
    let fw = |t: &Ty| if *t == Ty::F32 { 32 } else { 64 };
    Ok(match (op, t, a, to) {
      ("zext" | "sext" | "trunc", Ty::Int(w), V::I(v), Ty::Int(to)) => V::I(self.ext(op, *w, &v, *to)?),
      ("bitcast", _, v, to) => self.convert(v, to)?,
      ("ptrtoint", _, v, _) => match v {
        V::P(NOALLOC, c) => V::I(IntV::C(c as u128)),
        v => v,
      },
      ("inttoptr", _, v, _) => match v {
        V::I(IntV::C(c)) => V::P(NOALLOC, c as i128),
        v => v,
      },
      ("fpext", _, V::F(FV::B(_)), _) => return uns("fpext of bits"),
      ("fpext", _, v @ V::F(_), _) => v,
      ("fptrunc", _, V::F(FV::C(c)), _) => V::F(FV::C(c as f32 as f64)),
      ("fptrunc", _, V::F(FV::R(p)), _) => V::F(self.round((*p).clone(), None, true)),
      ("sitofp", Ty::Int(w), V::I(IntV::C(c)), to) => {
        let f = signed_of(c, *w).to_i128().unwrap();
        V::F(FV::C(if fw(to) == 32 { f as f32 as f64 } else { f as f64 }))
      }
      ("sitofp" | "uitofp", Ty::Int(w), V::I(i @ IntV::P(..)), to) => {
        let (p, iv) = self.canon(&i, *w, op == "sitofp")?;
        let m = qi(pow2(if fw(to) == 32 { 24 } else { 53 }));
        if iv.lo.is_some_and(|l| l >= -&m) && iv.hi.is_some_and(|h| h <= m) {
          V::F(FV::R(Rc::new(p)))
        } else {
          V::F(self.round(p, None, false))
        }
      }
      ("uitofp", _, V::I(IntV::C(c)), to) => V::F(FV::C(if fw(to) == 32 { c as f32 as f64 } else { c as f64 })),
      ("fptoui", _, V::F(FV::C(c)), Ty::Int(w)) => V::I(IntV::C(mask(c as u128, *w))),
      ("fptosi", _, V::F(FV::C(c)), Ty::Int(w)) => V::I(IntV::C(mask(c as i128 as u128, *w))),
      (_, _, V::U, _) => V::U,
      (op, t, v, to) => return uns(format!("{op} {t:?} {v:?} to {to:?}")),
    })
  }
  fn invoke(&mut self, sym: &str, ret: &Ty, args: Vec<(V, bool)>) -> R<V> {
    let dem = demangle(sym);
    for h in self.hooks.clone() {
      if let Some(r) = h(self, &dem, ret, &args) {
        self.externs.insert(dem);
        return r;
      }
    }
    if let (Some((V::F(FV::R(_) | FV::A(_)), _)), Some(k)) = (args.first(), dem.rsplit("::").next()) {
      if let ("is_finite" | "is_nan" | "is_infinite", true) = (k, dem.contains("f64>") || dem.contains("f32>") || dem.contains("core::f")) {
        return Ok(V::I(IntV::C((k == "is_finite") as u128)));
      }
    }
    if sym.starts_with("llvm.") {
      return self.intrinsic(sym, ret, args);
    }
    if dem.contains("panicking::") || dem.contains("panic_fmt") || dem.contains("slice_index") || dem.contains("_fail") || dem == "abort" || dem.contains("expect_failed") || dem.contains("unwrap_failed") || dem.contains("handle_alloc_error") {
      if self.find(sym).is_none() || dem.contains("panick") {
        return Err(Stop::Panic(dem));
      }
    }
    if dem.contains("ptr::drop_in_place") {
      return Ok(V::U);
    }
    if let Some(r) = crate::numeric::numeric(self, &dem, ret, &args) {
      self.externs.insert(dem);
      return r;
    }
    self.call(sym, args.into_iter().map(|x| x.0).collect())
  }
  fn intrinsic(&mut self, sym: &str, ret: &Ty, args: Vec<(V, bool)>) -> R<V> {
    let name = &sym[5..];
    let a: Vec<V> = args.into_iter().map(|x| x.0).collect();
    let int = |v: &V| -> R<IntV> {
      match v {
        V::I(i) => Ok(i.clone()),
        v => uns(format!("integer expected: {v:?}")),
      }
    };
    if name.starts_with("memcpy") || name.starts_with("memmove") {
      let V::I(IntV::C(n)) = a[2] else { return uns("memcpy length") };
      self.copy(&a[0], &a[1], n as u64)?;
      return Ok(V::U);
    }
    if name.starts_with("memset") {
      let V::I(IntV::C(n)) = a[2] else { return uns("memset length") };
      if n > 0 {
        let (al, off) = self.at(&a[0])?;
        for k in 0..n as u64 {
          self.put(al, off + k, 1, a[1].clone());
        }
      }
      return Ok(V::U);
    }
    if name.starts_with("lifetime") || name.starts_with("assume") || name.starts_with("dbg") || name.starts_with("experimental.noalias") {
      return Ok(V::U);
    }
    if name.starts_with("expect") {
      return Ok(a[0].clone());
    }
    if name.starts_with("trap") {
      return Err(Stop::Panic("abort".into()));
    }
    if name.starts_with("fabs") {
      return Ok(match &a[0] {
        V::F(FV::C(c)) => V::F(FV::C(c.abs())),
        V::F(FV::R(p)) => V::F(FV::A(p.clone())),
        V::F(FV::A(p)) => V::F(FV::A(p.clone())),
        v => return uns(format!("fabs of {v:?}")),
      });
    }
    let w = match ret {
      Ty::Int(w) => *w,
      Ty::Struct(v, _) => match v.first() {
        Some(Ty::Int(w)) => *w,
        _ => 64,
      },
      _ => 64,
    };
    for (pre, op, s) in [
      ("sadd.with", "add", true),
      ("ssub.with", "sub", true),
      ("smul.with", "mul", true),
      ("uadd.with", "add", false),
      ("usub.with", "sub", false),
      ("umul.with", "mul", false),
    ] {
      if name.starts_with(pre) {
        let (x, y) = (int(&a[0])?, int(&a[1])?);
        let (v, o) = self.overflowing(op, s, w, &x, &y)?;
        return Ok(V::Agg(vec![V::I(v), Exec::ibool(o)]));
      }
    }
    for (pre, op, s) in [("sadd.sat", "add", true), ("ssub.sat", "sub", true), ("uadd.sat", "add", false), ("usub.sat", "sub", false)] {
      if name.starts_with(pre) {
        let (x, y) = (int(&a[0])?, int(&a[1])?);
        let (v, o) = self.overflowing(op, s, w, &x, &y)?;
        if !o {
          return Ok(V::I(v));
        }
        let top = if s {
          let neg = self.icmp("slt", w, &y, &IntV::C(0))?;
          let low = (op == "add") == neg;
          if low { 1u128 << (w - 1) } else { (1u128 << (w - 1)) - 1 }
        } else if op == "add" {
          mask(u128::MAX, w)
        } else {
          0
        };
        return Ok(V::I(IntV::C(top)));
      }
    }
    for (pre, c) in [("smax", "sgt"), ("smin", "slt"), ("umax", "ugt"), ("umin", "ult")] {
      if name.starts_with(pre) {
        let (x, y) = (int(&a[0])?, int(&a[1])?);
        return Ok(V::I(if self.icmp(c, w, &x, &y)? { x } else { y }));
      }
    }
    if name.starts_with("scmp") || name.starts_with("ucmp") {
      let s = if name.starts_with('s') { "s" } else { "u" };
      let (x, y) = (int(&a[0])?, int(&a[1])?);
      let iw: u32 = sym.rsplit('i').next().and_then(|n| n.parse().ok()).unwrap_or(64);
      let r: i128 = if self.icmp(&format!("{s}lt"), iw, &x, &y)? {
        -1
      } else if self.icmp("eq", iw, &x, &y)? {
        0
      } else {
        1
      };
      return Ok(V::I(IntV::C(mask(r as u128, w))));
    }
    if name.starts_with("abs.") {
      let x = int(&a[0])?;
      let neg = self.icmp("slt", w, &x, &IntV::C(0))?;
      return Ok(V::I(if neg { self.bin("sub", w, &IntV::C(0), &x)? } else { x }));
    }
    if name.starts_with("ctlz") || name.starts_with("cttz") || name.starts_with("ctpop") {
      let x = int(&a[0])?;
      return Ok(V::I(match x {
        IntV::C(c) => IntV::C(match &name[..4] {
          "ctlz" => (c.leading_zeros() - (128 - w)) as u128,
          "cttz" => c.trailing_zeros().min(w) as u128,
          _ => c.count_ones() as u128,
        }),
        IntV::B(b) => {
          if name.starts_with("ctpop") {
            return uns("ctpop of bits");
          }
          let mut r = self.bv.bv_num(&w.to_string(), w);
          let one = self.bv.bv_num("1", 1);
          // the last bit examined wins: the highest for ctlz, the lowest for cttz
          for k in 0..w {
            let bit = if name.starts_with("ctlz") { k } else { w - 1 - k };
            let e = self.bv.extract(bit, bit, b);
            let f = self.bv.eq(e, one);
            let n = if name.starts_with("ctlz") { w - 1 - bit } else { bit };
            let nv = self.bv.bv_num(&n.to_string(), w);
            r = self.bv.ite(f, nv, r);
          }
          self.bvsimp(r)
        }
        IntV::P(..) => {
          if !name.starts_with("ctlz") {
            return uns("bit count of a number");
          }
          // fork over the bit length
          let (p, i) = self.canon(&x, w, false)?;
          let top = i.hi.map(|h| h.to_integer().bits() as u32).unwrap_or(w).min(w);
          let mut len = top;
          while len > 0 {
            // at least 2^(len-1)?
            if self.truth(&Poly::c(qi(pow2(len - 1))).sub(&p), Rel::Le) {
              break;
            }
            len -= 1;
          }
          IntV::C((w - len) as u128)
        }
      }));
    }
    if name.starts_with("fshl") || name.starts_with("fshr") {
      let (x, y, k) = (int(&a[0])?, int(&a[1])?, int(&a[2])?);
      if let IntV::C(k) = k {
        let k = k % w as u128;
        if k == 0 {
          return Ok(V::I(if name.starts_with("fshl") { x } else { y }));
        }
        let l = if name.starts_with("fshl") { k } else { w as u128 - k };
        let hi = self.bin("shl", w, &x, &IntV::C(l))?;
        let lo = self.bin("lshr", w, &y, &IntV::C(w as u128 - l))?;
        return Ok(V::I(self.bin("or", w, &hi, &lo)?));
      }
    }
    if name.starts_with("bswap") {
      let x = int(&a[0])?;
      if let IntV::C(c) = x {
        return Ok(V::I(IntV::C(c.swap_bytes() >> (128 - w))));
      }
    }
    if name.starts_with("fptoui.sat") || name.starts_with("fptosi.sat") {
      if let V::F(FV::C(c)) = &a[0] {
        let v = if name.starts_with("fptoui") {
          let m = mask(u128::MAX, w);
          if c.is_nan() || *c <= 0.0 { 0 } else { (*c as u128).min(m) }
        } else {
          let (lo, hi) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
          mask((*c as i128).clamp(lo, hi) as u128, w)
        };
        return Ok(V::I(IntV::C(v)));
      }
      if let (V::F(FV::R(p)), true) = (&a[0], name.starts_with("fptoui")) {
        // saturating truncation towards zero
        if self.truth(&p.sub(&Poly::int(1)), Rel::Lt) {
          return Ok(V::I(IntV::C(0)));
        }
        let top = qi(pow2(w) - 1);
        if self.truth(&Poly::c(top.clone()).sub(p), Rel::Le) {
          return Ok(V::I(IntV::C(mask(u128::MAX, w))));
        }
        let most = self.iv(p).hi.map_or(pow2(w) - 1, |h| h.floor().to_integer().min(pow2(w) - 1));
        let top = qi(most.clone());
        let n = self.var("trunc", Some(BigInt::one()), Some(most), true);
        for (p2, n2) in self.truncs.clone() {
          let df = p.sub(&p2);
          if self.implied(&df, Rel::Le) {
            self.assume(n.sub(&n2), Rel::Le);
          }
          if self.implied(&df.neg(), Rel::Le) {
            self.assume(n2.sub(&n), Rel::Le);
          }
        }
        self.truncs.push(((**p).clone(), n.clone()));
        self.assume(n.sub(p), Rel::Le);
        self.assume(p.sub(&n).sub(&Poly::int(1)), Rel::Lt);
        let iv = Iv { lo: Some(q(1)), hi: Some(top) };
        return Ok(V::I(IntV::P(Rc::new(n), iv)));
      }
    }
    uns(format!("intrinsic {sym}"))
  }
  fn overflowing(&mut self, op: &str, s: bool, w: u32, x: &IntV, y: &IntV) -> R<(IntV, bool)> {
    use IntV::*;
    if matches!(x, B(_)) || matches!(y, B(_)) {
      let r = self.bin(op, w, x, y)?;
      let (bx, by) = (self.to_bv(x, w)?, self.to_bv(y, w)?);
      let e = if op == "mul" { w } else { 1 };
      let (wx, wy) = if s { (self.bv.sext(e, bx), self.bv.sext(e, by)) } else { (self.bv.zext(e, bx), self.bv.zext(e, by)) };
      let full = match op {
        "add" => self.bv.bvadd(wx, wy),
        "sub" => self.bv.bvsub(wx, wy),
        _ => self.bv.bvmul(wx, wy),
      };
      let br = self.to_bv(&r, w)?;
      let back = if s { self.bv.sext(e, br) } else { self.bv.zext(e, br) };
      let same = self.bv.eq(full, back);
      let ok = self.truth_bv(same);
      return Ok((r, !ok));
    }
    let (p, i) = self.canon(x, w, s)?;
    let (r, j) = self.canon(y, w, s)?;
    let (e, k) = match op {
      "add" => (p.add(&r), i.add(&j)),
      "sub" => (p.sub(&r), i.add(&j.scale(&q(-1)))),
      _ => {
        let k = if p == r { i.pow(2) } else { i.mul(&j) };
        (p.mul(&r), k)
      }
    };
    let k = k.meet(&self.iv(&e));
    let (lo, hi) = Exec::range(w, s);
    let m = qi(pow2(w));
    if k.hi.as_ref().map_or(true, |h| *h > hi) && self.truth(&Poly::c(hi.clone()).sub(&e), Rel::Lt) {
      let e2 = e.sub(&Poly::c(m.clone()));
      let k2 = Iv { lo: Some(&hi + q(1)), hi: k.hi }.add(&Iv::point(-m));
      return Ok((self.mk(e2, k2, w), true));
    }
    if k.lo.as_ref().map_or(true, |l| *l < lo) && self.truth(&e.sub(&Poly::c(lo.clone())), Rel::Lt) {
      let e2 = e.add(&Poly::c(m.clone()));
      let k2 = Iv { lo: k.lo, hi: Some(&lo - q(1)) }.add(&Iv::point(m));
      return Ok((self.mk(e2, k2, w), true));
    }
    let k = k.meet(&Iv { lo: Some(lo), hi: Some(hi) });
    Ok((self.mk(e, k, w), false))
  }
}

pub fn signed_of(c: u128, w: u32) -> BigInt {
  let n = BigInt::from(c);
  if w < 128 && c >= 1u128 << (w - 1) || w >= 128 && c >> 127 == 1 {
    n - pow2(w)
  } else {
    n
  }
}
pub fn parse_q(s: &str) -> Q {
  match s.split_once('/') {
    Some((a, b)) => Q::new(a.trim().parse().unwrap(), b.trim().parse().unwrap()),
    None => qi(s.trim().parse().unwrap_or_else(|_| BigInt::zero())),
  }
}

/// a number of single precision that is not below q
fn float_above(q: &Q) -> Option<Q> {
  let f = crate::spec::to_f64(q);
  if !f.is_finite() || f.abs() > 1e30 {
    return None;
  }
  let mut g = f as f32;
  while Q::from_float(g)? < *q {
    let b = g.to_bits();
    g = if g == 0.0 { f32::from_bits(1) } else if g > 0.0 { f32::from_bits(b + 1) } else { f32::from_bits(b - 1) };
  }
  Q::from_float(g)
}
