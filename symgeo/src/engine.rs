//! Symbolic execution by re-execution: interned polynomials, sign atoms, path exploration.
use crate::poly::{mono_vars, Poly};
use crate::z3::{Ast, Res, Z3};
use num_bigint::BigInt;
use num_rational::BigRational;
use num_traits::{Signed, Zero};
use std::cell::RefCell;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering as AO};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub const NEG: u8 = 1;
pub const ZERO: u8 = 2;
pub const POS: u8 = 4;

pub type PolyId = u32;

pub fn flip_mask(m: u8) -> u8 {
  (m & ZERO) | if m & NEG != 0 { POS } else { 0 } | if m & POS != 0 { NEG } else { 0 }
}

// ---------------------------------------------------------------- formulas

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum F {
  T,
  No,
  /// sign(poly) ∈ mask, poly in normal form
  Lit(PolyId, u8),
  And(Rc<Vec<F>>),
  Or(Rc<Vec<F>>),
  Not(Rc<F>),
}

impl F {
  pub fn b(b: bool) -> F {
    if b {
      F::T
    } else {
      F::No
    }
  }
  pub fn and(v: Vec<F>) -> F {
    let mut o = Vec::with_capacity(v.len());
    for f in v {
      match f {
        F::T => {}
        F::No => return F::No,
        F::And(ref w) => o.extend(w.iter().cloned()),
        f => o.push(f),
      }
    }
    match o.len() {
      0 => F::T,
      1 => o.pop().unwrap(),
      _ => F::And(Rc::new(o)),
    }
  }
  pub fn or(v: Vec<F>) -> F {
    let mut o = Vec::with_capacity(v.len());
    for f in v {
      match f {
        F::No => {}
        F::T => return F::T,
        F::Or(ref w) => o.extend(w.iter().cloned()),
        f => o.push(f),
      }
    }
    match o.len() {
      0 => F::No,
      1 => o.pop().unwrap(),
      _ => F::Or(Rc::new(o)),
    }
  }
  pub fn not(self) -> F {
    match self {
      F::T => F::No,
      F::No => F::T,
      F::Lit(p, m) => F::Lit(p, 7 & !m),
      F::Not(f) => (*f).clone(),
      f => F::Not(Rc::new(f)),
    }
  }
  pub fn implies(self, o: F) -> F {
    F::or(vec![self.not(), o])
  }
  pub fn iff(self, o: F) -> F {
    F::and(vec![self.clone().implies(o.clone()), o.implies(self)])
  }
  pub fn xor(self, o: F) -> F {
    self.iff(o).not()
  }
  pub fn and2(self, o: F) -> F {
    F::and(vec![self, o])
  }
  pub fn or2(self, o: F) -> F {
    F::or(vec![self, o])
  }
  fn hash64(&self) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    self.hash(&mut h);
    h.finish()
  }
}

// ---------------------------------------------------------------- interner

#[derive(Default)]
pub struct Interner {
  pub polys: Vec<Poly>,
  map: HashMap<Poly, PolyId>,
  ops: HashMap<(u8, PolyId, PolyId), PolyId>,
  norm: HashMap<PolyId, (PolyId, bool)>,
  quo: HashMap<(PolyId, PolyId), Option<PolyId>>,
}

impl Interner {
  pub fn intern(&mut self, p: Poly) -> PolyId {
    if let Some(&i) = self.map.get(&p) {
      return i;
    }
    let i = self.polys.len() as PolyId;
    self.polys.push(p.clone());
    self.map.insert(p, i);
    i
  }
  fn op(&mut self, o: u8, a: PolyId, b: PolyId) -> PolyId {
    let key = if o != 1 && a > b { (o, b, a) } else { (o, a, b) };
    if let Some(&r) = self.ops.get(&key) {
      return r;
    }
    let (pa, pb) = (&self.polys[a as usize], &self.polys[b as usize]);
    let p = match o {
      0 => pa.add(pb),
      1 => pa.sub(pb),
      _ => pa.mul(pb),
    };
    let r = self.intern(p);
    self.ops.insert(key, r);
    r
  }
  fn normal(&mut self, a: PolyId) -> (PolyId, bool) {
    if let Some(&r) = self.norm.get(&a) {
      return r;
    }
    let (p, f) = self.polys[a as usize].normal();
    let i = self.intern(p);
    self.norm.insert(a, (i, f));
    (i, f)
  }
}

thread_local! {
  static INT: RefCell<Interner> = RefCell::new(Interner::default());
  static CX: RefCell<Option<Box<Cx>>> = const { RefCell::new(None) };
}

pub fn intern(p: Poly) -> PolyId {
  INT.with(|i| i.borrow_mut().intern(p))
}
pub fn p_add(a: PolyId, b: PolyId) -> PolyId {
  INT.with(|i| i.borrow_mut().op(0, a, b))
}
pub fn p_sub(a: PolyId, b: PolyId) -> PolyId {
  INT.with(|i| i.borrow_mut().op(1, a, b))
}
pub fn p_mul(a: PolyId, b: PolyId) -> PolyId {
  INT.with(|i| i.borrow_mut().op(2, a, b))
}
/// The exact quotient, if there is one.
pub fn p_div(a: PolyId, b: PolyId) -> Option<PolyId> {
  INT.with(|i| {
    let mut i = i.borrow_mut();
    if let Some(&r) = i.quo.get(&(a, b)) {
      return r;
    }
    let q = i.polys[a as usize].div_exact(&i.polys[b as usize]);
    let r = q.map(|q| i.intern(q));
    i.quo.insert((a, b), r);
    r
  })
}
/// What the current path knows about the sign of `p` (a mask).
pub fn known_sign(p: PolyId) -> u8 {
  let (n, flip) = p_normal(p);
  let m = with(|cx| match &cx.kind {
    Kind::Sym(s) => *s.known.get(&n).unwrap_or(&7),
    Kind::Conc(_) => 7,
  });
  if flip {
    flip_mask(m)
  } else {
    m
  }
}
pub fn p_get(a: PolyId) -> Poly {
  INT.with(|i| i.borrow().polys[a as usize].clone())
}
pub fn p_const(a: PolyId) -> Option<i128> {
  INT.with(|i| i.borrow().polys[a as usize].as_const())
}
pub fn p_normal(a: PolyId) -> (PolyId, bool) {
  INT.with(|i| i.borrow_mut().normal(a))
}

/// formula: sign(poly) in mask
pub fn sign_in(p: PolyId, mask: u8) -> F {
  let (n, flip) = p_normal(p);
  if let Some(c) = p_const(n) {
    let s = if c > 0 {
      POS
    } else if c < 0 {
      NEG
    } else {
      ZERO
    };
    let s = if flip { flip_mask(s) } else { s };
    return F::b(s & mask != 0);
  }
  let m = if flip { flip_mask(mask) } else { mask };
  match m {
    0 => F::No,
    7 => F::T,
    _ => F::Lit(n, m),
  }
}

// ---------------------------------------------------------------- harness spec

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
  /// Atoms are 3x3 determinants of the declared elements; theory = Grassmann-Plücker sign axioms.
  Chi,
  /// Atoms are polynomial (in)equalities over the reals, decided by nlsat.
  Nra,
}

#[derive(Clone)]
pub struct Spec {
  pub name: String,
  pub vars: Vec<String>,
  /// declared homogeneous elements (three coordinate polynomials each)
  pub elems: Vec<[Poly; 3]>,
  pub mode: Mode,
  /// scalar comparisons allowed on one path before "does not terminate" is reported
  pub fuel: u64,
  /// stop after this many paths (0 = never); reported as truncation
  pub max_paths: u64,
  /// human-readable statement of the bound
  pub bound: String,
  /// formulas are not invariant under scaling: integer models only
  pub no_scale: bool,
  /// realise and natively replay every n-th completed path (0: the runner's default)
  pub witness: u64,
  /// every polynomial query to a fresh nlsat solver instead of the incremental one
  pub nlsat: bool,
}

impl Spec {
  pub fn new(name: &str) -> Spec {
    Spec { name: name.into(), vars: vec![], elems: vec![], mode: Mode::Chi, fuel: 20_000, max_paths: 0, bound: String::new(), no_scale: false, witness: 0, nlsat: false }
  }
  pub fn with_axes(mut self) -> Spec {
    let (z, o) = (Poly::zero(), Poly::constant(1));
    self.elems.push([o.clone(), z.clone(), z.clone()]);
    self.elems.push([z.clone(), o, z]);
    self
  }
  pub fn points(mut self, n: usize) -> Spec {
    for _ in 0..n {
      let k = self.vars.len();
      self.vars.push(format!("x{}", k / 2));
      self.vars.push(format!("y{}", k / 2));
      self.elems.push([Poly::var(k), Poly::var(k + 1), Poly::constant(1)]);
    }
    self
  }
  /// a direction vector: element (vx,vy,0); with `perp` also (-vy,vx,0)
  pub fn vector(mut self, name: &str, dir: bool, perp: bool) -> Spec {
    let k = self.vars.len();
    self.vars.push(format!("{}x", name));
    self.vars.push(format!("{}y", name));
    let (x, y, z) = (Poly::var(k), Poly::var(k + 1), Poly::zero());
    if dir {
      self.elems.push([x.clone(), y.clone(), z.clone()]);
    }
    if perp {
      self.elems.push([y.neg(), x, z]);
    }
    self
  }
  pub fn bound(mut self, b: &str) -> Spec {
    self.bound = b.into();
    self
  }
  pub fn elem(mut self, e: [Poly; 3]) -> Spec {
    self.elems.push(e);
    self
  }
  /// the origin (0,0)
  pub fn with_origin(self) -> Spec {
    self.elem([Poly::zero(), Poly::zero(), Poly::constant(1)])
  }
  pub fn mode(mut self, m: Mode) -> Spec {
    self.mode = m;
    self
  }
  pub fn scalars(mut self, names: &[&str]) -> Spec {
    for n in names {
      self.vars.push(n.to_string());
    }
    self
  }
  pub fn nlsat(mut self) -> Spec {
    self.mode = Mode::Nra;
    self.nlsat = true;
    self
  }
  pub fn fuel(mut self, f: u64) -> Spec {
    self.fuel = f;
    self
  }
  pub fn max_paths(mut self, f: u64) -> Spec {
    self.max_paths = f;
    self
  }
}

fn det3(a: &[Poly; 3], b: &[Poly; 3], c: &[Poly; 3]) -> Poly {
  let m = |p: &Poly, q: &Poly, r: &Poly| p.mul(q).mul(r);
  m(&a[0], &b[1], &c[2])
    .sub(&m(&a[0], &b[2], &c[1]))
    .add(&m(&a[1], &b[2], &c[0]))
    .sub(&m(&a[1], &b[0], &c[2]))
    .add(&m(&a[2], &b[0], &c[1]))
    .sub(&m(&a[2], &b[1], &c[0]))
}

// ---------------------------------------------------------------- solver theory

#[derive(Clone, Copy)]
struct AtomAst {
  neg: Ast,
  zero: Ast,
  pos: Ast,
}

struct Theory {
  z: Z3,
  mode: Mode,
  vars: Vec<Ast>,
  atoms: HashMap<PolyId, AtomAst>,
  pub unknown_atoms: u64,
  base_mark: usize,
}

/// sign of a triple as (normal poly, flip) or constant
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Sg {
  C(i8),
  A(PolyId, bool),
}

impl Theory {
  fn new(spec: &Spec) -> Theory {
    let z = match spec.mode {
      Mode::Chi => Z3::new("", 20_000),
      Mode::Nra => Z3::new(if spec.nlsat { "nlsat" } else { "default" }, 10_000),
    };
    let mut t =
      Theory { z, mode: spec.mode, vars: vec![], atoms: HashMap::new(), unknown_atoms: 0, base_mark: 0 };
    if spec.mode == Mode::Nra {
      t.vars = spec.vars.iter().map(|v| t.z.real_const(v)).collect();
    } else {
      t.axioms(&spec.elems);
    }
    t.base_mark = t.z.mark();
    t
  }

  fn sg(p: Poly) -> Sg {
    let id = intern(p);
    let (n, f) = p_normal(id);
    match p_const(n) {
      Some(c) => Sg::C((c.signum() as i8) * if f { -1 } else { 1 }),
      None => Sg::A(n, f),
    }
  }

  fn axioms(&mut self, e: &[[Poly; 3]]) {
    let m = e.len();
    let mut tab: HashMap<(usize, usize, usize), Sg> = HashMap::new();
    for i in 0..m {
      for j in 0..m {
        for k in 0..m {
          let s = if i == j || j == k || i == k { Sg::C(0) } else { Self::sg(det3(&e[i], &e[j], &e[k])) };
          tab.insert((i, j, k), s);
          if let Sg::A(p, _) = s {
            self.atom_chi(p, true);
          }
        }
      }
    }
    // three-term Grassmann-Pluecker relations
    let mut seen = std::collections::HashSet::new();
    for a in 0..m {
      for b in 0..m {
        for c in b + 1..m {
          for d in c + 1..m {
            for f in d + 1..m {
              if [b, c, d, f].contains(&a) {
                continue;
              }
              let p1 = (tab[&(a, b, c)], tab[&(a, d, f)], 1);
              let p2 = (tab[&(a, b, d)], tab[&(a, c, f)], -1);
              let p3 = (tab[&(a, b, f)], tab[&(a, c, d)], 1);
              if !seen.insert((p1, p2, p3)) {
                continue;
              }
              self.gp(&[p1, p2, p3]);
            }
          }
        }
      }
    }
  }

  /// (pos, neg) literals of a product of two signs
  fn prod(&mut self, p: (Sg, Sg, i32)) -> (F3, F3) {
    let (mut s, mut lits) = (p.2 as i8, vec![]);
    for g in [p.0, p.1] {
      match g {
        Sg::C(c) => s *= c,
        Sg::A(q, f) => {
          if f {
            s = -s;
          }
          lits.push(q)
        }
      }
    }
    if s == 0 {
      return (F3::C(false), F3::C(false));
    }
    let (pos, neg) = match lits.len() {
      0 => (F3::C(true), F3::C(false)),
      1 => {
        let a = self.atoms[&lits[0]];
        (F3::A(a.pos), F3::A(a.neg))
      }
      _ => {
        let a = self.atoms[&lits[0]];
        let b = self.atoms[&lits[1]];
        if lits[0] == lits[1] {
          let nz = self.z.not(a.zero);
          (F3::A(nz), F3::C(false))
        } else {
          let pp = self.z.and(&[a.pos, b.pos]);
          let nn = self.z.and(&[a.neg, b.neg]);
          let pn = self.z.and(&[a.pos, b.neg]);
          let np = self.z.and(&[a.neg, b.pos]);
          (F3::A(self.z.or(&[pp, nn])), F3::A(self.z.or(&[pn, np])))
        }
      }
    };
    if s > 0 {
      (pos, neg)
    } else {
      (neg, pos)
    }
  }

  fn gp(&mut self, ps: &[(Sg, Sg, i32); 3]) {
    let r: Vec<(F3, F3)> = ps.iter().map(|p| self.prod(*p)).collect();
    let or = |t: &mut Theory, v: Vec<F3>| -> F3 {
      if v.iter().any(|x| matches!(x, F3::C(true))) {
        return F3::C(true);
      }
      let l: Vec<Ast> = v.iter().filter_map(|x| if let F3::A(a) = x { Some(*a) } else { None }).collect();
      if l.is_empty() {
        F3::C(false)
      } else {
        F3::A(t.z.or(&l))
      }
    };
    let pos = or(self, r.iter().map(|x| x.0).collect());
    let neg = or(self, r.iter().map(|x| x.1).collect());
    match (pos, neg) {
      (F3::C(a), F3::C(b)) => assert_eq!(a, b),
      (F3::C(c), F3::A(x)) | (F3::A(x), F3::C(c)) => {
        let l = if c { x } else { self.z.not(x) };
        self.z.assert(l);
      }
      (F3::A(x), F3::A(y)) => {
        let l = self.z.iff(x, y);
        self.z.assert(l);
      }
    }
  }

  fn atom_chi(&mut self, p: PolyId, base: bool) -> AtomAst {
    if let Some(a) = self.atoms.get(&p) {
      return *a;
    }
    if !base {
      self.unknown_atoms += 1;
    }
    let a = if base {
      let pos = self.z.bool_const(&format!("p{}", p));
      let neg = self.z.bool_const(&format!("n{}", p));
      let both = self.z.or(&[pos, neg]);
      let zero = self.z.not(both);
      let b = self.z.and(&[pos, neg]);
      let nb = self.z.not(b);
      self.z.assert(nb);
      AtomAst { neg, zero, pos }
    } else {
      // no side condition needed, so it can be created inside any scope
      let nz = self.z.bool_const(&format!("z{}", p));
      let sg = self.z.bool_const(&format!("s{}", p));
      let nsg = self.z.not(sg);
      let pos = self.z.and(&[nz, sg]);
      let neg = self.z.and(&[nz, nsg]);
      let zero = self.z.not(nz);
      AtomAst { neg, zero, pos }
    };
    self.pin(a);
    self.atoms.insert(p, a);
    a
  }

  fn poly_ast(z: &mut Z3, vars: &[Ast], p: &Poly) -> Ast {
    let mut terms = vec![];
    for (m, c) in &p.0 {
      let k = z.real_num(&c.to_string());
      let mut f: Vec<Ast> = vec![];
      if *m == 0 || *c != 1 {
        f.push(k);
      }
      f.extend(mono_vars(*m).map(|v| vars[v]));
      terms.push(if f.len() == 1 { f[0] } else { z.mul(&f) });
    }
    match terms.len() {
      0 => z.real_num("0"),
      1 => terms[0],
      _ => z.add(&terms),
    }
  }

  fn atom(&mut self, p: PolyId) -> AtomAst {
    if let Some(a) = self.atoms.get(&p) {
      return *a;
    }
    match self.mode {
      Mode::Chi => self.atom_chi(p, false),
      Mode::Nra => {
        let vars = self.vars.clone();
        let poly = p_get(p);
        let t = Self::poly_ast(&mut self.z, &vars, &poly);
        let zero = self.z.real_num("0");
        let pos = self.z.lt(zero, t);
        let neg = self.z.lt(t, zero);
        let eq = self.z.eq(t, zero);
        let a = AtomAst { neg, zero: eq, pos };
        self.pin(a);
        self.atoms.insert(p, a);
        a
      }
    }
  }

  fn pin(&mut self, a: AtomAst) {
    for x in [a.neg, a.zero, a.pos] {
      self.z.pin(x);
    }
  }

  fn lit(&mut self, p: PolyId, mask: u8) -> Ast {
    let a = self.atom(p);
    match mask {
      0 => self.z.fls,
      NEG => a.neg,
      ZERO => a.zero,
      POS => a.pos,
      3 => self.z.not(a.pos),
      6 => self.z.not(a.neg),
      5 => self.z.not(a.zero),
      _ => self.z.tru,
    }
  }

  fn atoms_of(f: &F, out: &mut Vec<PolyId>) {
    match f {
      F::T | F::No => {}
      F::Lit(p, _) => out.push(*p),
      F::And(v) | F::Or(v) => v.iter().for_each(|g| Self::atoms_of(g, out)),
      F::Not(g) => Self::atoms_of(g, out),
    }
  }

  fn ast(&mut self, f: &F) -> Ast {
    match f {
      F::T => self.z.tru,
      F::No => self.z.fls,
      F::Lit(p, m) => self.lit(*p, *m),
      F::And(v) => {
        let w: Vec<Ast> = v.iter().map(|g| self.ast(g)).collect();
        self.z.and(&w)
      }
      F::Or(v) => {
        let w: Vec<Ast> = v.iter().map(|g| self.ast(g)).collect();
        self.z.or(&w)
      }
      F::Not(g) => {
        let w = self.ast(g);
        self.z.not(w)
      }
    }
  }
}

#[derive(Clone, Copy)]
enum F3 {
  C(bool),
  A(Ast),
}

// ---------------------------------------------------------------- realisation of models

pub enum Real {
  Model(Vec<BigRational>),
  /// the real-arithmetic solver proved that no such input exists
  Refuted,
  Unknown,
}

/// Find integer values for the variables satisfying all formulas.
/// Homogeneous atoms only need the formulas to be invariant under scaling; we just evaluate.
pub fn realize(spec: &Spec, fs: &[F], budget: Duration) -> Real {
  let t0 = Instant::now();
  // 1. small bit-vector grids
  for (w, bound) in [(3u32, 2i64), (4, 4), (5, 8), (6, 16), (8, 60)] {
    if t0.elapsed() > budget {
      return Real::Unknown;
    }
    let left = budget.saturating_sub(t0.elapsed()).as_millis() as u32;
    if let Some(v) = realize_bv(spec, fs, bound, left.min(if w <= 4 { 8_000 } else { 15_000 })) {
      return Real::Model(v);
    }
  }
  // 2. non-linear real arithmetic
  let left = budget.saturating_sub(t0.elapsed()).as_millis() as u32;
  if left == 0 {
    return Real::Unknown;
  }
  realize_nra(spec, fs, left)
}

fn poly_bits(p: &Poly, bound: i64) -> u32 {
  let mut s = BigInt::zero();
  for (m, c) in &p.0 {
    let d = mono_vars(*m).count() as u32;
    s += BigInt::from(*c).abs() * BigInt::from(bound).pow(d);
  }
  s.bits() as u32 + 2
}

fn all_atoms(fs: &[F]) -> Vec<PolyId> {
  let mut v = vec![];
  fs.iter().for_each(|f| Theory::atoms_of(f, &mut v));
  v.sort_unstable();
  v.dedup();
  v
}

fn f_ast(z: &mut Z3, at: &HashMap<PolyId, AtomAst>, f: &F) -> Ast {
  match f {
    F::T => z.tru,
    F::No => z.fls,
    F::Lit(p, m) => {
      let a = at[p];
      match *m {
        0 => z.fls,
        NEG => a.neg,
        ZERO => a.zero,
        POS => a.pos,
        3 => z.not(a.pos),
        6 => z.not(a.neg),
        5 => z.not(a.zero),
        _ => z.tru,
      }
    }
    F::And(v) => {
      let w: Vec<Ast> = v.iter().map(|g| f_ast(z, at, g)).collect();
      z.and(&w)
    }
    F::Or(v) => {
      let w: Vec<Ast> = v.iter().map(|g| f_ast(z, at, g)).collect();
      z.or(&w)
    }
    F::Not(g) => {
      let w = f_ast(z, at, g);
      z.not(w)
    }
  }
}

fn realize_bv(spec: &Spec, fs: &[F], bound: i64, timeout: u32) -> Option<Vec<BigRational>> {
  if timeout == 0 {
    return None;
  }
  let mut z = Z3::new("QF_BV", timeout);
  let atoms = all_atoms(fs);
  let width = atoms.iter().map(|&p| poly_bits(&p_get(p), bound)).max().unwrap_or(8).max(8);
  if width > 64 {
    return None;
  }
  let lo = z.bv_num(&(-bound - 1).to_string(), width);
  let hi = z.bv_num(&(bound + 1).to_string(), width);
  let vars: Vec<Ast> = spec.vars.iter().map(|v| z.bv_const(v, width)).collect();
  for &v in &vars {
    let a = z.bvslt(lo, v);
    let b = z.bvslt(v, hi);
    z.assert(a);
    z.assert(b);
  }
  let zero = z.bv_num("0", width);
  let mut map = HashMap::new();
  for p in atoms {
    let poly = p_get(p);
    let mut sum = zero;
    for (m, c) in &poly.0 {
      let mut t = z.bv_num(&c.to_string(), width);
      for v in mono_vars(*m) {
        t = z.bvmul(t, vars[v]);
      }
      sum = z.bvadd(sum, t);
    }
    let pos = z.bvslt(zero, sum);
    let neg = z.bvslt(sum, zero);
    let eq = z.eq(sum, zero);
    map.insert(p, AtomAst { neg, zero: eq, pos });
  }
  for f in fs {
    let a = f_ast(&mut z, &map, f);
    z.assert(a);
  }
  if z.check() != Res::Sat {
    return None;
  }
  let nums = z.model_nums(&vars);
  let mut out = vec![];
  for n in nums {
    // bit-vector numerals print as unsigned decimals
    let v: BigInt = n?.parse().ok()?;
    let half = BigInt::from(1) << (width - 1);
    out.push(BigRational::from_integer(if v >= half { v - (BigInt::from(1) << width) } else { v }));
  }
  if eval_all(fs, &out) {
    Some(out)
  } else {
    None
  }
}

fn realize_nra(spec: &Spec, fs: &[F], timeout: u32) -> Real {
  let mut refuted = false;
  match realize_nra0(spec, fs, timeout, &mut refuted) {
    Some(v) => Real::Model(v),
    None if refuted => Real::Refuted,
    None => Real::Unknown,
  }
}
fn realize_nra0(spec: &Spec, fs: &[F], timeout: u32, refuted: &mut bool) -> Option<Vec<BigRational>> {
  let mut z = Z3::new("QF_NRA", timeout);
  let vars: Vec<Ast> = spec.vars.iter().map(|v| z.real_const(v)).collect();
  let mut map = HashMap::new();
  let zero = z.real_num("0");
  for p in all_atoms(fs) {
    let t = Theory::poly_ast(&mut z, &vars, &p_get(p));
    let pos = z.lt(zero, t);
    let neg = z.lt(t, zero);
    let eq = z.eq(t, zero);
    map.insert(p, AtomAst { neg, zero: eq, pos });
  }
  for f in fs {
    let a = f_ast(&mut z, &map, f);
    z.assert(a);
  }
  match z.check() {
    Res::Sat => {}
    Res::Unsat => {
      *refuted = true;
      return None;
    }
    _ => return None,
  }
  let nums = z.model_nums(&vars);
  let mut rats = vec![];
  let mut l = BigInt::from(1);
  for n in nums {
    let n = n?;
    let (a, b) = match n.split_once('/') {
      Some((a, b)) => (a.trim().parse::<BigInt>().ok()?, b.trim().parse::<BigInt>().ok()?),
      None => (n.trim().trim_end_matches(".0").parse().ok()?, BigInt::from(1)),
    };
    l = num_integer::Integer::lcm(&l, &b);
    rats.push((a, b));
  }
  let out: Vec<BigRational> =
    rats.iter().map(|(a, b)| BigRational::from_integer(a * &l / b)).collect();
  // scaling to integers is only sound for scale-invariant formulas: re-evaluate
  if eval_all(fs, &out) {
    return Some(out);
  }
  let out: Vec<BigRational> = rats.into_iter().map(|(a, b)| BigRational::new(a, b)).collect();
  if eval_all(fs, &out) {
    Some(out)
  } else {
    None
  }
}

pub fn eval_f(f: &F, vals: &[BigRational]) -> bool {
  match f {
    F::T => true,
    F::No => false,
    F::Lit(p, m) => {
      let v = p_get(*p).eval(vals);
      let s = if v.is_positive() {
        POS
      } else if v.is_negative() {
        NEG
      } else {
        ZERO
      };
      s & m != 0
    }
    F::And(v) => v.iter().all(|g| eval_f(g, vals)),
    F::Or(v) => v.iter().any(|g| eval_f(g, vals)),
    F::Not(g) => !eval_f(g, vals),
  }
}
pub fn eval_all(fs: &[F], vals: &[BigRational]) -> bool {
  fs.iter().all(|f| eval_f(f, vals))
}

// ---------------------------------------------------------------- execution context

#[derive(Default, Clone, Debug)]
pub struct Stats {
  pub paths: u64,
  pub pruned: u64,
  pub decisions: u64,
  pub forks: u64,
  pub queries: u64,
  pub checks: u64,
  pub checks_discharged: u64,
  pub solver_ns: u64,
  pub unknown: u64,
  pub unknown_atoms: u64,
  pub witnesses: u64,
  pub replayed: u64,
  pub replay_mismatch: u64,
  pub refuted: u64,
  pub fuel_max: u64,
  pub reach: HashMap<String, u64>,
}

impl Stats {
  pub fn merge(&mut self, o: &Stats) {
    self.paths += o.paths;
    self.pruned += o.pruned;
    self.decisions += o.decisions;
    self.forks += o.forks;
    self.queries += o.queries;
    self.checks += o.checks;
    self.checks_discharged += o.checks_discharged;
    self.solver_ns += o.solver_ns;
    self.unknown += o.unknown;
    self.unknown_atoms += o.unknown_atoms;
    self.witnesses += o.witnesses;
    self.replayed += o.replayed;
    self.replay_mismatch += o.replay_mismatch;
    self.refuted += o.refuted;
    self.fuel_max = self.fuel_max.max(o.fuel_max);
    for (k, v) in &o.reach {
      *self.reach.entry(k.clone()).or_insert(0) += v;
    }
  }
}

#[derive(Clone, Debug)]
pub struct Violation {
  pub msg: String,
  pub values: Vec<BigRational>,
  pub choices: Vec<u64>,
}

struct Event {
  key: u64,
  mark: usize,
}

enum Kind {
  Sym(Box<SymCx>),
  Conc(ConcCx),
}

struct ConcCx {
  vals: Vec<BigRational>,
  choices: Vec<u64>,
  pos: usize,
  failed: Option<String>,
}

struct SymCx {
  th: Theory,
  events: Vec<Event>,
  cursor: usize,
  known: HashMap<PolyId, u8>,
  pc: Vec<F>,
  prefix: Vec<u8>,
  pos: usize,
  trace: Vec<u8>,
  alts: Vec<Vec<u8>>,
  choices: Vec<u64>,
  pending: Option<(String, Vec<F>)>,
}

/// What the watchdog sees of a worker.
#[derive(Default)]
pub struct Mon {
  /// tick of the last activity, 0 = idle
  act: AtomicU64,
  in_solver: AtomicBool,
  trace: Mutex<Vec<u8>>,
}
static TICK: AtomicU64 = AtomicU64::new(1);

pub struct Cx {
  kind: Kind,
  mon: Option<Arc<Mon>>,
  /// abort the path once this many decisions have been taken (hang diagnosis)
  stop_at: Option<usize>,
  fuel: u64,
  fuel_limit: u64,
  stats: Stats,
}

/// panic payloads used to unwind out of the code under test
pub struct Prune;
pub struct OutOfFuel;
pub struct Stop;
pub struct Violated;
pub struct Internal(pub String);

fn note(mon: &Option<Arc<Mon>>, trace: &[u8]) {
  if let Some(m) = mon {
    m.act.store(TICK.load(AO::Relaxed), AO::Relaxed);
    let mut t = m.trace.lock().unwrap();
    let n = trace.len();
    if t.len() + 1 == n {
      t.push(trace[n - 1]);
    } else {
      t.clear();
      t.extend_from_slice(trace);
    }
  }
}

fn with<R>(f: impl FnOnce(&mut Cx) -> R) -> R {
  CX.with(|c| f(c.borrow_mut().as_mut().expect("no context")))
}

impl SymCx {
  fn sync(&mut self) {
    // drop solver scopes that belong to the previous path only
    if self.events.len() > self.cursor {
      let n = self.events.len() - self.cursor;
      let mark = self.events[self.cursor].mark;
      self.events.truncate(self.cursor);
      self.th.z.pop(n as u32);
      self.th.z.release(mark.max(self.th.base_mark));
    }
  }
  fn event(&mut self, f: F) {
    let key = f.hash64();
    self.pc.push(f.clone());
    if self.cursor < self.events.len() && self.events[self.cursor].key == key {
      self.cursor += 1;
      return;
    }
    self.sync();
    let mark = self.th.z.mark();
    self.th.z.push();
    let a = self.th.ast(&f);
    self.th.z.assert(a);
    self.events.push(Event { key, mark });
    self.cursor += 1;
  }
}

impl Cx {
  fn timed(stats: &mut Stats, th: &mut Theory, mon: &Option<Arc<Mon>>, a: &[Ast]) -> Res {
    let t = Instant::now();
    if let Some(m) = mon {
      m.in_solver.store(true, AO::Relaxed);
    }
    let r = th.z.check_assuming(a);
    if let Some(m) = mon {
      m.act.store(TICK.load(AO::Relaxed), AO::Relaxed);
      m.in_solver.store(false, AO::Relaxed);
    }
    stats.solver_ns += t.elapsed().as_nanos() as u64;
    stats.queries += 1;
    if r == Res::Unknown {
      stats.unknown += 1;
    }
    r
  }
}

/// Decide in which of the (disjoint, exhaustive) masks the sign of `p` lies.
pub fn decide(p: PolyId, outcomes: &[u8]) -> usize {
  let (n, flip) = p_normal(p);
  let konst = p_const(n);
  let r: Result<usize, u8> = with(|cx| {
    cx.fuel += 1;
    if cx.fuel > cx.fuel_limit {
      return Err(1);
    }
    let s = match &mut cx.kind {
      Kind::Sym(s) => s,
      Kind::Conc(_) => panic!("symbolic comparison in concrete mode"),
    };
    if let Some(c) = konst {
      let g = match c.signum() {
        0 => ZERO,
        1 => POS,
        _ => NEG,
      };
      let g = if flip { flip_mask(g) } else { g };
      return Ok(outcomes.iter().position(|m| m & g != 0).unwrap());
    }
    let outs: Vec<u8> = outcomes.iter().map(|&m| if flip { flip_mask(m) } else { m }).collect();
    let cur = *s.known.get(&n).unwrap_or(&7);
    let cand: Vec<usize> = (0..outs.len()).filter(|&i| outs[i] & cur != 0).collect();
    if cand.len() == 1 {
      return Ok(cand[0]);
    }
    cx.stats.decisions += 1;
    if s.pos < s.prefix.len() {
      let code = s.prefix[s.pos];
      s.pos += 1;
      s.trace.push(code);
      let i = (code & 0x7f) as usize;
      let m = outs[i] & cur;
      s.known.insert(n, m);
      s.event(F::Lit(n, m));
      note(&cx.mon, &s.trace);
      if cx.stop_at.is_some_and(|k| s.trace.len() >= k) {
        return Err(2);
      }
      return Ok(i);
    }
    s.sync();
    let mut feas = vec![];
    for (k, &i) in cand.iter().enumerate() {
      if k + 1 == cand.len() && feas.is_empty() {
        feas.push(i);
        break;
      }
      let m = outs[i] & cur;
      let mark = s.th.z.mark();
      let a = s.th.lit(n, m);
      let r = Cx::timed(&mut cx.stats, &mut s.th, &cx.mon, &[a]);
      s.th.z.release(mark);
      if r != Res::Unsat {
        feas.push(i);
      }
    }
    let first = feas[0];
    for &i in &feas[1..] {
      let mut t = s.trace.clone();
      t.push(i as u8);
      s.alts.push(t);
    }
    if feas.len() > 1 {
      cx.stats.forks += 1;
    }
    s.pos += 1;
    s.prefix.push(first as u8);
    s.trace.push(first as u8);
    let m = outs[first] & cur;
    s.known.insert(n, m);
    s.event(F::Lit(n, m));
    note(&cx.mon, &s.trace);
    Ok(first)
  });
  match r {
    Ok(i) => i,
    Err(2) => std::panic::panic_any(Stop),
    Err(_) => std::panic::panic_any(OutOfFuel),
  }
}

pub fn chi_mode() -> bool {
  CX.with(|c| matches!(c.borrow().as_ref().map(|c| &c.kind), Some(Kind::Sym(s)) if s.th.mode == Mode::Chi))
}
/// scalar comparisons made on this path so far
pub fn fuel_used() -> u64 {
  with(|cx| cx.fuel)
}
/// abandon this path
pub fn prune() -> ! {
  std::panic::panic_any(Prune)
}
pub fn burn() {
  let out = with(|cx| {
    cx.fuel += 1;
    cx.fuel > cx.fuel_limit
  });
  if out {
    std::panic::panic_any(OutOfFuel)
  }
}

/// Nondeterministic choice 0..n
pub fn choose(n: u64) -> u64 {
  if n <= 1 {
    return 0;
  }
  enum R {
    V(u64),
    Fuel,
    Stop,
    Missing,
  }
  let r = with(|cx| {
    cx.fuel += 1;
    if cx.fuel > cx.fuel_limit {
      return R::Fuel;
    }
    match &mut cx.kind {
      Kind::Conc(c) => {
        if c.pos < c.choices.len() {
          c.pos += 1;
          R::V(c.choices[c.pos - 1])
        } else {
          R::Missing
        }
      }
      Kind::Sym(s) => {
        assert!(n < 250);
        cx.stats.decisions += 1;
        let v = if s.pos < s.prefix.len() {
          let v = s.prefix[s.pos];
          s.trace.push(v);
          v
        } else {
          for i in 1..n {
            let mut t = s.trace.clone();
            t.push(i as u8);
            s.alts.push(t);
          }
          cx.stats.forks += 1;
          s.prefix.push(0);
          s.trace.push(0);
          0
        };
        s.pos += 1;
        s.choices.push(v as u64);
        note(&cx.mon, &s.trace);
        if cx.stop_at.is_some_and(|k| s.trace.len() >= k) {
          return R::Stop;
        }
        R::V(v as u64)
      }
    }
  });
  match r {
    R::V(v) => v,
    R::Fuel => std::panic::panic_any(OutOfFuel),
    R::Stop => std::panic::panic_any(Stop),
    // concrete replay needed more choices than the symbolic path made
    R::Missing => 0,
  }
}

pub fn is_concrete() -> bool {
  with(|cx| matches!(cx.kind, Kind::Conc(_)))
}
pub fn concrete_value(i: usize) -> BigRational {
  with(|cx| match &cx.kind {
    Kind::Conc(c) => c.vals[i].clone(),
    _ => panic!("not concrete"),
  })
}

/// Restrict to inputs satisfying f.
pub fn assume(f: F) {
  let ok = with(|cx| match &mut cx.kind {
    Kind::Conc(_) => f == F::T,
    Kind::Sym(s) => match f {
      F::T => true,
      F::No => false,
      f => {
        s.event(f);
        if s.pos < s.prefix.len() {
          true
        } else {
          s.sync();
          Cx::timed(&mut cx.stats, &mut s.th, &cx.mon, &[]) != Res::Unsat
        }
      }
    },
  });
  if !ok {
    std::panic::panic_any(Prune)
  }
}

/// The property: f must hold for every value satisfying the path condition.
pub fn check(f: F, msg: &str) {
  let bad = with(|cx| match &mut cx.kind {
    Kind::Conc(c) => {
      if f != F::T && c.failed.is_none() {
        c.failed = Some(msg.to_string());
      }
      f != F::T
    }
    Kind::Sym(s) => {
      if s.pos < s.prefix.len() {
        return false; // already discharged on the path this one forked from
      }
      cx.stats.checks += 1;
      let neg = match f {
        F::T => {
          cx.stats.checks_discharged += 1;
          return false;
        }
        f => f.not(),
      };
      if neg != F::T {
        s.sync();
        let mark = s.th.z.mark();
        let a = s.th.ast(&neg);
        s.th.z.push();
        s.th.z.assert(a);
        let r = Cx::timed(&mut cx.stats, &mut s.th, &cx.mon, &[]);
        s.th.z.pop(1);
        s.th.z.release(mark);
        if r == Res::Unsat {
          cx.stats.checks_discharged += 1;
          return false;
        }
      }
      s.pending = Some((msg.to_string(), vec![neg]));
      true
    }
  });
  if bad {
    std::panic::panic_any(Violated)
  }
}

/// Reachability marker (vacuity guard).
pub fn reach(tag: &str) {
  with(|cx| {
    if let Kind::Sym(s) = &cx.kind {
      if s.pos < s.prefix.len() {
        return;
      }
    }
    *cx.stats.reach.entry(tag.to_string()).or_insert(0) += 1;
  })
}

// ---------------------------------------------------------------- driver

pub type Body = Arc<dyn Fn(bool) + Send + Sync>; // arg: concrete?

pub struct Job {
  pub spec: Spec,
  pub body: Body,
  /// markers that must have been reached at least once
  pub must_reach: Vec<&'static str>,
}

pub struct Outcome {
  pub name: String,
  pub stats: Stats,
  pub violations: Vec<Violation>,
  pub unconfirmed: Vec<String>,
  pub internal: Vec<String>,
  pub truncated: bool,
  pub wall: f64,
  pub samples: Vec<String>,
}

enum End {
  Ok,
  Prune,
  Viol(String),
  Internal(String),
}

thread_local! {
  static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
  std::panic::set_hook(Box::new(|info| {
    let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
    let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
      s.to_string()
    } else if let Some(s) = info.payload().downcast_ref::<String>() {
      s.clone()
    } else {
      String::new()
    };
    let s = format!("{} at {}", m, loc);
    LAST_PANIC.with(|l| *l.borrow_mut() = s);
  }));
}

fn classify(r: Result<(), Box<dyn std::any::Any + Send>>) -> End {
  match r {
    Ok(()) => End::Ok,
    Err(e) => {
      if e.downcast_ref::<Prune>().is_some() {
        End::Prune
      } else if e.downcast_ref::<Stop>().is_some() {
        End::Internal("stopped".into())
      } else if e.downcast_ref::<OutOfFuel>().is_some() {
        End::Viol("does not terminate (comparison budget exhausted)".into())
      } else if e.downcast_ref::<Violated>().is_some() {
        End::Viol(String::new())
      } else if let Some(i) = e.downcast_ref::<Internal>() {
        End::Internal(i.0.clone())
      } else {
        let m = LAST_PANIC.with(|l| l.borrow().clone());
        if m.contains("symgeo-internal") || m.contains("symgeo/src") {
          End::Internal(m)
        } else {
          End::Viol(format!("panic: {}", m))
        }
      }
    }
  }
}

/// Run code of the crate natively; a panic becomes its message.
pub fn quiet_catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
  std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|l| l.borrow().clone()))
}

/// Run the body natively on concrete values. Ok(None): no violation.
pub fn replay(spec: &Spec, body: &Body, vals: &[BigRational], choices: &[u64]) -> Result<Option<String>, String> {
  let saved = CX.with(|c| c.borrow_mut().take());
  CX.with(|c| {
    *c.borrow_mut() = Some(Box::new(Cx {
      kind: Kind::Conc(ConcCx { vals: vals.to_vec(), choices: choices.to_vec(), pos: 0, failed: None }),
      mon: None,
      stop_at: None,
      fuel: 0,
      fuel_limit: spec.fuel * 4,
      stats: Stats::default(),
    }))
  });
  let b = body.clone();
  let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b(true)));
  let cx = CX.with(|c| c.borrow_mut().take()).unwrap();
  CX.with(|c| *c.borrow_mut() = saved);
  let failed = match cx.kind {
    Kind::Conc(c) => c.failed,
    _ => None,
  };
  match classify(r) {
    End::Ok => Ok(None),
    End::Prune => Err("assumption not satisfied".into()),
    End::Viol(m) => Ok(Some(if m.is_empty() { failed.unwrap_or_default() } else { m })),
    End::Internal(m) => Err(m),
  }
}

struct Shared {
  queue: Mutex<Vec<Vec<u8>>>,
  idle: AtomicUsize,
  stop: AtomicBool,
  pending: AtomicUsize, // paths queued or running
  paths: AtomicU64,
  mons: Vec<Arc<Mon>>,
  done: AtomicUsize,
}

pub type OnHang = Arc<dyn Fn(&Job, Violation) + Send + Sync>;

pub struct RunOpts {
  pub threads: usize,
  pub deadline: Instant,
  pub witness_every: u64,
  pub max_violations: usize,
  /// called (and expected to exit) when a natively confirmed endless loop without comparisons is found
  pub on_hang: OnHang,
  /// natively replays values/choices in a subprocess; true = it had to be killed
  pub hangs: Arc<dyn Fn(&Job, &[BigRational], &[u64]) -> bool + Send + Sync>,
}

fn fresh_cx(spec: &Spec, mon: Option<Arc<Mon>>) -> Cx {
  Cx {
    kind: Kind::Sym(Box::new(SymCx {
      th: Theory::new(spec),
      events: vec![],
      cursor: 0,
      known: HashMap::new(),
      pc: vec![],
      prefix: vec![],
      pos: 0,
      trace: vec![],
      alts: vec![],
      choices: vec![],
      pending: None,
    })),
    mon,
    stop_at: None,
    fuel: 0,
    fuel_limit: spec.fuel,
    stats: Stats::default(),
  }
}

pub fn run(job: &Job, opts: &RunOpts) -> Outcome {
  let t0 = Instant::now();
  let sh = Arc::new(Shared {
    queue: Mutex::new(vec![vec![]]),
    idle: AtomicUsize::new(0),
    stop: AtomicBool::new(false),
    pending: AtomicUsize::new(1),
    paths: AtomicU64::new(0),
    mons: (0..opts.threads).map(|_| Arc::new(Mon::default())).collect(),
    done: AtomicUsize::new(0),
  });
  let out = Arc::new(Mutex::new(Outcome {
    name: job.spec.name.clone(),
    stats: Stats::default(),
    violations: vec![],
    unconfirmed: vec![],
    internal: vec![],
    truncated: false,
    wall: 0.0,
    samples: vec![],
  }));
  std::thread::scope(|scope| {
    for w in 0..opts.threads {
      let sh = sh.clone();
      let out = out.clone();
      std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn_scoped(scope, move || {
          worker(w, job, opts, &sh, &out);
          sh.done.fetch_add(1, AO::SeqCst);
        })
        .unwrap();
    }
    let sh = sh.clone();
    std::thread::Builder::new()
      .stack_size(64 << 20)
      .spawn_scoped(scope, move || watchdog(job, opts, &sh))
      .unwrap();
  });
  let mut o = match Arc::try_unwrap(out) {
    Ok(m) => m.into_inner().unwrap(),
    Err(_) => unreachable!(),
  };
  o.wall = t0.elapsed().as_secs_f64();
  o
}

/// A worker that neither compares, chooses nor waits for the solver is stuck in a loop the
/// comparison budget cannot see: solve for concrete inputs reaching that point and confirm natively.
fn watchdog(job: &Job, opts: &RunOpts, sh: &Shared) {
  while sh.done.load(AO::SeqCst) < opts.threads {
    std::thread::sleep(Duration::from_millis(20));
    let now = TICK.fetch_add(1, AO::Relaxed) + 1;
    for m in &sh.mons {
      let a = m.act.load(AO::Relaxed);
      if a == 0 || m.in_solver.load(AO::Relaxed) || now.saturating_sub(a) < 200 {
        continue;
      }
      m.act.store(now + 1000, AO::Relaxed); // do not diagnose again soon
      let trace = m.trace.lock().unwrap().clone();
      let mut cx = fresh_cx(&job.spec, None);
      cx.stop_at = Some(trace.len());
      if let Kind::Sym(s) = &mut cx.kind {
        s.prefix = trace.clone();
      }
      CX.with(|c| *c.borrow_mut() = Some(Box::new(cx)));
      if trace.is_empty() {
        continue;
      }
      let b = job.body.clone();
      let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b(false)));
      let (pc, choices) = with(|cx| match &mut cx.kind {
        Kind::Sym(s) => (std::mem::take(&mut s.pc), std::mem::take(&mut s.choices)),
        _ => unreachable!(),
      });
      CX.with(|c| *c.borrow_mut() = None);
      if let Real::Model(v) = realize(&job.spec, &pc, Duration::from_secs(60)) {
        if (opts.hangs)(job, &v, &choices) {
          (opts.on_hang)(job, Violation { msg: "does not terminate".into(), values: v, choices });
        }
      }
    }
  }
}

fn worker(w: usize, job: &Job, opts: &RunOpts, sh: &Shared, out: &Mutex<Outcome>) {
  // polynomials are interned per thread; start fresh for this job
  let mut local: Vec<Vec<u8>> = vec![];
  let mon = sh.mons[w].clone();
  CX.with(|c| *c.borrow_mut() = Some(Box::new(fresh_cx(&job.spec, Some(mon.clone())))));
  let mut unrealized = 0;
  loop {
    if sh.stop.load(AO::Relaxed) {
      break;
    }
    let prefix = match local.pop() {
      Some(p) => p,
      None => {
        let got = sh.queue.lock().unwrap().pop();
        match got {
          Some(p) => p,
          None => {
            if sh.pending.load(AO::SeqCst) == 0 {
              break;
            }
            sh.idle.fetch_add(1, AO::SeqCst);
            std::thread::sleep(Duration::from_micros(200));
            sh.idle.fetch_sub(1, AO::SeqCst);
            continue;
          }
        }
      }
    };
    if Instant::now() > opts.deadline
      || (job.spec.max_paths > 0 && sh.paths.load(AO::Relaxed) >= job.spec.max_paths)
    {
      sh.stop.store(true, AO::SeqCst);
      out.lock().unwrap().truncated = true;
      break;
    }
    with(|cx| {
      cx.fuel = 0;
      if let Kind::Sym(s) = &mut cx.kind {
        s.cursor = 0;
        s.known.clear();
        s.pc.clear();
        s.prefix = prefix;
        s.pos = 0;
        s.trace.clear();
        s.alts.clear();
        s.choices.clear();
        s.pending = None;
      }
    });
    mon.trace.lock().unwrap().clear();
    mon.act.store(TICK.load(AO::Relaxed), AO::SeqCst);
    let body = job.body.clone();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| body(false)));
    mon.act.store(0, AO::SeqCst);
    let end = classify(r);
    let (alts, pc, choices, pending) = with(|cx| {
      cx.stats.fuel_max = cx.stats.fuel_max.max(cx.fuel);
      match &mut cx.kind {
        Kind::Sym(s) => (
          std::mem::take(&mut s.alts),
          std::mem::take(&mut s.pc),
          std::mem::take(&mut s.choices),
          s.pending.take(),
        ),
        _ => unreachable!(),
      }
    });
    let n = sh.paths.fetch_add(1, AO::Relaxed);
    let violation = |v: Violation| {
      let mut o = out.lock().unwrap();
      o.violations.push(v);
      if o.violations.len() >= opts.max_violations {
        sh.stop.store(true, AO::SeqCst);
      }
    };
    match end {
      End::Prune => with(|cx| cx.stats.pruned += 1),
      End::Ok => {
        with(|cx| cx.stats.paths += 1);
        // validate the engine against the real code: realise some completed paths and replay them
        let every = if job.spec.witness > 0 { job.spec.witness } else { opts.witness_every };
        if every > 0 && (n < 4 || n % every == 0) {
          with(|cx| cx.stats.witnesses += 1);
          if let Real::Model(v) = realize(&job.spec, &pc, Duration::from_secs(3)) {
            match replay(&job.spec, &job.body, &v, &choices) {
              Ok(None) => {
                with(|cx| cx.stats.replayed += 1);
                let mut o = out.lock().unwrap();
                if o.samples.len() < 3 {
                  o.samples.push(show(&job.spec, &v, &choices));
                }
              }
              // natively reproduced violation that the symbolic run missed: still a violation
              Ok(Some(m)) => violation(Violation { msg: m, values: v, choices: choices.clone() }),
              Err(e) => {
                with(|cx| cx.stats.replay_mismatch += 1);
                out.lock().unwrap().internal.push(format!("witness replay: {}", e));
              }
            }
          }
        }
      }
      End::Internal(m) => {
        out.lock().unwrap().internal.push(m);
        sh.stop.store(true, AO::SeqCst);
      }
      End::Viol(m) => {
        with(|cx| cx.stats.paths += 1);
        let mut fs = pc.clone();
        let msg = match pending {
          Some((m, extra)) => {
            fs.extend(extra);
            m
          }
          None => m,
        };
        let budget = if unrealized < 3 { 60 } else { 10 };
        let mut confirmed = false;
        match realize(&job.spec, &fs, Duration::from_secs(budget)) {
          Real::Model(v) => match replay(&job.spec, &job.body, &v, &choices) {
            Ok(Some(m2)) => {
              confirmed = true;
              violation(Violation {
                msg: if m2 == msg { msg.clone() } else { format!("{} [replay: {}]", msg, m2) },
                values: v,
                choices: choices.clone(),
              });
            }
            Ok(None) => {
              let s = show(&job.spec, &v, &choices);
              out.lock().unwrap().unconfirmed.push(format!("not reproduced: {} at {}", msg, s))
            }
            Err(e) => {
              let s = show(&job.spec, &v, &choices);
              out.lock().unwrap().unconfirmed.push(format!("replay failed ({}): {} at {}", e, msg, s))
            }
          },
          Real::Refuted => {
            // not realisable by real coordinates: discharged by the real-arithmetic solver
            confirmed = true;
            with(|cx| {
              cx.stats.refuted += 1;
              cx.stats.checks_discharged += 1
            });
          }
          Real::Unknown => {
            unrealized += 1;
            out.lock().unwrap().unconfirmed.push(format!("no coordinates found: {}", msg));
          }
        }
        if !confirmed && out.lock().unwrap().unconfirmed.len() > 60 {
          sh.stop.store(true, AO::SeqCst);
        }
      }
    }
    sh.pending.fetch_add(alts.len(), AO::SeqCst);
    local.extend(alts);
    sh.pending.fetch_sub(1, AO::SeqCst);
    if local.len() > 1 && sh.idle.load(AO::Relaxed) > 0 {
      let give = local.len() / 2;
      let mut q = sh.queue.lock().unwrap();
      if q.len() < 64 {
        q.extend(local.drain(..give));
      }
    }
  }
  let cx = CX.with(|c| c.borrow_mut().take()).unwrap();
  let mut stats = cx.stats.clone();
  if let Kind::Sym(s) = &cx.kind {
    stats.unknown_atoms += s.th.unknown_atoms;
  }
  out.lock().unwrap().stats.merge(&stats);
}

pub fn show(spec: &Spec, v: &[BigRational], choices: &[u64]) -> String {
  let s: String = spec.vars.iter().zip(v).map(|(n, x)| format!("{}={} ", n, x)).collect();
  format!("{}: {}choices={:?}", spec.name, s, choices)
}
