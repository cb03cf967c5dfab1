//! Minimal FFI binding to libz3 (C API), one context per worker thread.
#![allow(non_camel_case_types, dead_code)]
use std::ffi::{CStr, CString};
use std::os::raw::{c_char, c_int, c_uint, c_void};

pub type Ctx = *mut c_void;
pub type Ast = *mut c_void;
pub type Solver = *mut c_void;
pub type Sort = *mut c_void;
pub type Model = *mut c_void;
type Cfg = *mut c_void;
type Sym = *mut c_void;
type Params = *mut c_void;

#[link(name = "z3")]
extern "C" {
  fn Z3_mk_config() -> Cfg;
  fn Z3_del_config(c: Cfg);
  fn Z3_set_param_value(c: Cfg, id: *const c_char, v: *const c_char);
  fn Z3_mk_context_rc(c: Cfg) -> Ctx;
  fn Z3_del_context(c: Ctx);
  fn Z3_inc_ref(c: Ctx, a: Ast);
  fn Z3_dec_ref(c: Ctx, a: Ast);
  fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> Sym;
  fn Z3_mk_bool_sort(c: Ctx) -> Sort;
  fn Z3_mk_real_sort(c: Ctx) -> Sort;
  fn Z3_mk_int_sort(c: Ctx) -> Sort;
  fn Z3_mk_bv_sort(c: Ctx, sz: c_uint) -> Sort;
  fn Z3_mk_const(c: Ctx, s: Sym, ty: Sort) -> Ast;
  fn Z3_mk_true(c: Ctx) -> Ast;
  fn Z3_mk_false(c: Ctx) -> Ast;
  fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
  fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
  fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
  fn Z3_mk_iff(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_add(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
  fn Z3_mk_mul(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
  fn Z3_mk_lt(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_le(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_gt(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_ge(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_numeral(c: Ctx, s: *const c_char, ty: Sort) -> Ast;
  fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_bvsle(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_bvule(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_bvneg(c: Ctx, a: Ast) -> Ast;
  fn Z3_mk_bvnot(c: Ctx, a: Ast) -> Ast;
  fn Z3_mk_zero_ext(c: Ctx, i: c_uint, a: Ast) -> Ast;
  fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
  fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
  fn Z3_simplify(c: Ctx, a: Ast) -> Ast;
  fn Z3_mk_sign_ext(c: Ctx, i: c_uint, a: Ast) -> Ast;
  fn Z3_mk_solver(c: Ctx) -> Solver;
  fn Z3_mk_simple_solver(c: Ctx) -> Solver;
  fn Z3_mk_solver_for_logic(c: Ctx, l: Sym) -> Solver;
  fn Z3_solver_inc_ref(c: Ctx, s: Solver);
  fn Z3_solver_dec_ref(c: Ctx, s: Solver);
  fn Z3_solver_push(c: Ctx, s: Solver);
  fn Z3_solver_pop(c: Ctx, s: Solver, n: c_uint);
  fn Z3_solver_assert(c: Ctx, s: Solver, a: Ast);
  fn Z3_solver_check(c: Ctx, s: Solver) -> c_int;
  fn Z3_solver_check_assumptions(c: Ctx, s: Solver, n: c_uint, a: *const Ast) -> c_int;
  fn Z3_solver_get_model(c: Ctx, s: Solver) -> Model;
  fn Z3_solver_set_params(c: Ctx, s: Solver, p: Params);
  fn Z3_model_inc_ref(c: Ctx, m: Model);
  fn Z3_model_dec_ref(c: Ctx, m: Model);
  fn Z3_model_eval(c: Ctx, m: Model, t: Ast, completion: bool, v: *mut Ast) -> bool;
  fn Z3_get_bool_value(c: Ctx, a: Ast) -> c_int;
  fn Z3_get_numeral_string(c: Ctx, a: Ast) -> *const c_char;
  fn Z3_is_numeral_ast(c: Ctx, a: Ast) -> bool;
  fn Z3_ast_to_string(c: Ctx, a: Ast) -> *const c_char;
  fn Z3_mk_params(c: Ctx) -> Params;
  fn Z3_params_inc_ref(c: Ctx, p: Params);
  fn Z3_params_dec_ref(c: Ctx, p: Params);
  fn Z3_params_set_uint(c: Ctx, p: Params, k: Sym, v: c_uint);
  fn Z3_get_error_code(c: Ctx) -> c_int;
  fn Z3_set_error_handler(c: Ctx, h: Option<extern "C" fn(Ctx, c_int)>);
  fn Z3_solver_to_string(c: Ctx, s: Solver) -> *const c_char;
  fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_error(_c: Ctx, e: c_int) {
  eprintln!("z3 API error {}", e);
  std::process::abort();
}

pub fn version() -> String {
  unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res {
  Sat,
  Unsat,
  Unknown,
}

pub struct Z3 {
  pub ctx: Ctx,
  pub solver: Solver,
  bool_sort: Sort,
  real_sort: Sort,
  owned: Vec<Ast>,
  depth: u32,
  /// "nlsat": every query goes to a fresh non-incremental solver (the incremental core is weak on polynomials)
  fresh: bool,
  timeout_ms: u32,
  asserted: Vec<Ast>,
  marks: Vec<usize>,
  pub tru: Ast,
  pub fls: Ast,
}

impl Z3 {
  /// logic: "" for the incremental SMT core, otherwise a logic name.
  pub fn new(logic: &str, timeout_ms: u32) -> Z3 {
    unsafe {
      let cfg = Z3_mk_config();
      let ctx = Z3_mk_context_rc(cfg);
      Z3_set_error_handler(ctx, Some(on_error));
      Z3_del_config(cfg);
      let solver = if logic.is_empty() {
        Z3_mk_simple_solver(ctx)
      } else if logic == "default" || logic == "nlsat" {
        Z3_mk_solver(ctx)
      } else {
        let s = CString::new(logic).unwrap();
        Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, s.as_ptr()))
      };
      Z3_solver_inc_ref(ctx, solver);
      let p = Z3_mk_params(ctx);
      Z3_params_inc_ref(ctx, p);
      if timeout_ms > 0 {
        let k = CString::new("timeout").unwrap();
        Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, k.as_ptr()), timeout_ms);
        Z3_solver_set_params(ctx, solver, p);
      }
      let bool_sort = Z3_mk_bool_sort(ctx);
      let real_sort = Z3_mk_real_sort(ctx);
      let tru = Z3_mk_true(ctx);
      Z3_inc_ref(ctx, tru);
      let fls = Z3_mk_false(ctx);
      Z3_inc_ref(ctx, fls);
      Z3 { ctx, solver, bool_sort, real_sort, owned: vec![], depth: 0, fresh: logic == "nlsat", timeout_ms, asserted: vec![], marks: vec![], tru, fls }
    }
  }
  fn own(&mut self, a: Ast) -> Ast {
    unsafe { Z3_inc_ref(self.ctx, a) };
    self.owned.push(a);
    a
  }
  /// keep an AST alive for the lifetime of the context
  pub fn pin(&mut self, a: Ast) {
    unsafe { Z3_inc_ref(self.ctx, a) }
  }
  pub fn mark(&self) -> usize {
    self.owned.len()
  }
  /// drop our references to every AST made since `mark`
  pub fn release(&mut self, mark: usize) {
    while self.owned.len() > mark {
      let a = self.owned.pop().unwrap();
      unsafe { Z3_dec_ref(self.ctx, a) };
    }
  }
  fn mk_const(&mut self, name: &str, s: Sort) -> Ast {
    let n = CString::new(name).unwrap();
    let a = unsafe { Z3_mk_const(self.ctx, Z3_mk_string_symbol(self.ctx, n.as_ptr()), s) };
    self.own(a)
  }
  pub fn bool_const(&mut self, name: &str) -> Ast {
    let s = self.bool_sort;
    self.mk_const(name, s)
  }
  pub fn real_const(&mut self, name: &str) -> Ast {
    let s = self.real_sort;
    self.mk_const(name, s)
  }
  pub fn bv_const(&mut self, name: &str, w: u32) -> Ast {
    let s = unsafe { Z3_mk_bv_sort(self.ctx, w) };
    self.mk_const(name, s)
  }
  pub fn real_num(&mut self, s: &str) -> Ast {
    let n = CString::new(s).unwrap();
    let a = unsafe { Z3_mk_numeral(self.ctx, n.as_ptr(), self.real_sort) };
    self.own(a)
  }
  pub fn bv_num(&mut self, s: &str, w: u32) -> Ast {
    let n = CString::new(s).unwrap();
    let a = unsafe { Z3_mk_numeral(self.ctx, n.as_ptr(), Z3_mk_bv_sort(self.ctx, w)) };
    self.own(a)
  }
  pub fn not(&mut self, a: Ast) -> Ast {
    let r = unsafe { Z3_mk_not(self.ctx, a) };
    self.own(r)
  }
  pub fn and(&mut self, v: &[Ast]) -> Ast {
    if v.is_empty() {
      return self.tru;
    }
    if v.len() == 1 {
      return v[0];
    }
    let r = unsafe { Z3_mk_and(self.ctx, v.len() as c_uint, v.as_ptr()) };
    self.own(r)
  }
  pub fn or(&mut self, v: &[Ast]) -> Ast {
    if v.is_empty() {
      return self.fls;
    }
    if v.len() == 1 {
      return v[0];
    }
    let r = unsafe { Z3_mk_or(self.ctx, v.len() as c_uint, v.as_ptr()) };
    self.own(r)
  }
  pub fn iff(&mut self, a: Ast, b: Ast) -> Ast {
    let r = unsafe { Z3_mk_iff(self.ctx, a, b) };
    self.own(r)
  }
  pub fn eq(&mut self, a: Ast, b: Ast) -> Ast {
    let r = unsafe { Z3_mk_eq(self.ctx, a, b) };
    self.own(r)
  }
  pub fn add(&mut self, v: &[Ast]) -> Ast {
    let r = unsafe { Z3_mk_add(self.ctx, v.len() as c_uint, v.as_ptr()) };
    self.own(r)
  }
  pub fn mul(&mut self, v: &[Ast]) -> Ast {
    let r = unsafe { Z3_mk_mul(self.ctx, v.len() as c_uint, v.as_ptr()) };
    self.own(r)
  }
  pub fn lt(&mut self, a: Ast, b: Ast) -> Ast {
    let r = unsafe { Z3_mk_lt(self.ctx, a, b) };
    self.own(r)
  }
  pub fn le(&mut self, a: Ast, b: Ast) -> Ast {
    let r = unsafe { Z3_mk_le(self.ctx, a, b) };
    self.own(r)
  }
  pub fn bvadd(&mut self, a: Ast, b: Ast) -> Ast {
    let r = unsafe { Z3_mk_bvadd(self.ctx, a, b) };
    self.own(r)
  }
  pub fn bvmul(&mut self, a: Ast, b: Ast) -> Ast {
    let r = unsafe { Z3_mk_bvmul(self.ctx, a, b) };
    self.own(r)
  }
  pub fn bvslt(&mut self, a: Ast, b: Ast) -> Ast {
    let r = unsafe { Z3_mk_bvslt(self.ctx, a, b) };
    self.own(r)
  }
  pub fn sext(&mut self, n: u32, a: Ast) -> Ast {
    let r = unsafe { Z3_mk_sign_ext(self.ctx, n, a) };
    self.own(r)
  }
  pub fn bvsub(&mut self, a: Ast, b: Ast) -> Ast {
    let r = unsafe { Z3_mk_bvsub(self.ctx, a, b) };
    self.own(r)
  }
  pub fn bvand(&mut self, a: Ast, b: Ast) -> Ast {
    let r = unsafe { Z3_mk_bvand(self.ctx, a, b) };
    self.own(r)
  }
  pub fn bvor(&mut self, a: Ast, b: Ast) -> Ast {
    let r = unsafe { Z3_mk_bvor(self.ctx, a, b) };
    self.own(r)
  }
  pub fn bvxor(&mut self, a: Ast, b: Ast) -> Ast {
    let r = unsafe { Z3_mk_bvxor(self.ctx, a, b) };
    self.own(r)
  }
  pub fn bvshl(&mut self, a: Ast, b: Ast) -> Ast {
    let r = unsafe { Z3_mk_bvshl(self.ctx, a, b) };
    self.own(r)
  }
  pub fn bvlshr(&mut self, a: Ast, b: Ast) -> Ast {
    let r = unsafe { Z3_mk_bvlshr(self.ctx, a, b) };
    self.own(r)
  }
  pub fn bvashr(&mut self, a: Ast, b: Ast) -> Ast {
    let r = unsafe { Z3_mk_bvashr(self.ctx, a, b) };
    self.own(r)
  }
  pub fn bvudiv(&mut self, a: Ast, b: Ast) -> Ast {
    let r = unsafe { Z3_mk_bvudiv(self.ctx, a, b) };
    self.own(r)
  }
  pub fn bvurem(&mut self, a: Ast, b: Ast) -> Ast {
    let r = unsafe { Z3_mk_bvurem(self.ctx, a, b) };
    self.own(r)
  }
  pub fn bvsdiv(&mut self, a: Ast, b: Ast) -> Ast {
    let r = unsafe { Z3_mk_bvsdiv(self.ctx, a, b) };
    self.own(r)
  }
  pub fn bvsrem(&mut self, a: Ast, b: Ast) -> Ast {
    let r = unsafe { Z3_mk_bvsrem(self.ctx, a, b) };
    self.own(r)
  }
  pub fn bvult(&mut self, a: Ast, b: Ast) -> Ast {
    let r = unsafe { Z3_mk_bvult(self.ctx, a, b) };
    self.own(r)
  }
  pub fn bvule(&mut self, a: Ast, b: Ast) -> Ast {
    let r = unsafe { Z3_mk_bvule(self.ctx, a, b) };
    self.own(r)
  }
  pub fn bvsle(&mut self, a: Ast, b: Ast) -> Ast {
    let r = unsafe { Z3_mk_bvsle(self.ctx, a, b) };
    self.own(r)
  }
  pub fn concat(&mut self, a: Ast, b: Ast) -> Ast {
    let r = unsafe { Z3_mk_concat(self.ctx, a, b) };
    self.own(r)
  }
  pub fn bvneg(&mut self, a: Ast) -> Ast {
    let r = unsafe { Z3_mk_bvneg(self.ctx, a) };
    self.own(r)
  }
  pub fn zext(&mut self, n: u32, a: Ast) -> Ast {
    if n == 0 {
      return a;
    }
    let r = unsafe { Z3_mk_zero_ext(self.ctx, n, a) };
    self.own(r)
  }
  pub fn extract(&mut self, hi: u32, lo: u32, a: Ast) -> Ast {
    let r = unsafe { Z3_mk_extract(self.ctx, hi, lo, a) };
    self.own(r)
  }
  pub fn ite(&mut self, c: Ast, a: Ast, b: Ast) -> Ast {
    let r = unsafe { Z3_mk_ite(self.ctx, c, a, b) };
    self.own(r)
  }
  pub fn simplify(&mut self, a: Ast) -> Ast {
    let r = unsafe { Z3_simplify(self.ctx, a) };
    self.own(r)
  }
  /// value of a bit-vector or boolean constant term
  pub fn numeral(&self, a: Ast) -> Option<String> {
    unsafe {
      match Z3_get_bool_value(self.ctx, a) {
        1 => Some("1".into()),
        -1 => Some("0".into()),
        _ if Z3_is_numeral_ast(self.ctx, a) => {
          Some(CStr::from_ptr(Z3_get_numeral_string(self.ctx, a)).to_string_lossy().into_owned())
        }
        _ => None,
      }
    }
  }
  pub fn int_const(&mut self, name: &str) -> Ast {
    let s = unsafe { Z3_mk_int_sort(self.ctx) };
    self.mk_const(name, s)
  }
  pub fn int_num(&mut self, s: &str) -> Ast {
    let n = CString::new(s).unwrap();
    let a = unsafe { Z3_mk_numeral(self.ctx, n.as_ptr(), Z3_mk_int_sort(self.ctx)) };
    self.own(a)
  }
  pub fn push(&mut self) {
    self.depth += 1;
    if self.fresh {
      self.marks.push(self.asserted.len());
      return;
    }
    unsafe { Z3_solver_push(self.ctx, self.solver) }
  }
  pub fn pop(&mut self, n: u32) {
    self.depth -= n;
    if self.fresh {
      for _ in 0..n {
        let m = self.marks.pop().unwrap();
        while self.asserted.len() > m {
          let a = self.asserted.pop().unwrap();
          unsafe { Z3_dec_ref(self.ctx, a) };
        }
      }
      return;
    }
    unsafe { Z3_solver_pop(self.ctx, self.solver, n) }
  }
  pub fn assert(&mut self, a: Ast) {
    if self.fresh {
      unsafe { Z3_inc_ref(self.ctx, a) };
      self.asserted.push(a);
      return;
    }
    unsafe { Z3_solver_assert(self.ctx, self.solver, a) }
  }
  pub fn check(&mut self) -> Res {
    self.check_assuming(&[])
  }
  fn renew(&mut self, v: &[Ast]) {
    unsafe {
      Z3_solver_dec_ref(self.ctx, self.solver);
      let l = CString::new("QF_NRA").unwrap();
      self.solver = Z3_mk_solver_for_logic(self.ctx, Z3_mk_string_symbol(self.ctx, l.as_ptr()));
      Z3_solver_inc_ref(self.ctx, self.solver);
      if self.timeout_ms > 0 {
        let p = Z3_mk_params(self.ctx);
        Z3_params_inc_ref(self.ctx, p);
        let k = CString::new("timeout").unwrap();
        Z3_params_set_uint(self.ctx, p, Z3_mk_string_symbol(self.ctx, k.as_ptr()), self.timeout_ms);
        Z3_solver_set_params(self.ctx, self.solver, p);
        Z3_params_dec_ref(self.ctx, p);
      }
      for a in self.asserted.iter().chain(v) {
        Z3_solver_assert(self.ctx, self.solver, *a);
      }
    }
  }
  pub fn check_assuming(&mut self, v: &[Ast]) -> Res {
    let r = unsafe {
      if self.fresh {
        self.renew(v);
        Z3_solver_check(self.ctx, self.solver)
      } else {
        Z3_solver_check_assumptions(self.ctx, self.solver, v.len() as c_uint, v.as_ptr())
      }
    };
    match r {
      1 => Res::Sat,
      -1 => Res::Unsat,
      _ => Res::Unknown,
    }
  }
  /// Evaluate boolean terms in the current model (after Sat).
  pub fn model_bools(&mut self, v: &[Ast]) -> Vec<bool> {
    unsafe {
      let m = Z3_solver_get_model(self.ctx, self.solver);
      Z3_model_inc_ref(self.ctx, m);
      let r = v
        .iter()
        .map(|&a| {
          let mut out: Ast = std::ptr::null_mut();
          if !Z3_model_eval(self.ctx, m, a, true, &mut out) {
            return false;
          }
          Z3_inc_ref(self.ctx, out);
          let b = Z3_get_bool_value(self.ctx, out) == 1;
          Z3_dec_ref(self.ctx, out);
          b
        })
        .collect();
      Z3_model_dec_ref(self.ctx, m);
      r
    }
  }
  /// Evaluate numeric terms; None if not a rational numeral.
  pub fn model_nums(&mut self, v: &[Ast]) -> Vec<Option<String>> {
    unsafe {
      let m = Z3_solver_get_model(self.ctx, self.solver);
      Z3_model_inc_ref(self.ctx, m);
      let r = v
        .iter()
        .map(|&a| {
          let mut out: Ast = std::ptr::null_mut();
          if !Z3_model_eval(self.ctx, m, a, true, &mut out) {
            return None;
          }
          Z3_inc_ref(self.ctx, out);
          let s = if Z3_is_numeral_ast(self.ctx, out) {
            let t = CStr::from_ptr(Z3_ast_to_string(self.ctx, out)).to_string_lossy().into_owned();
            // algebraic numbers print as (root-obj ..): rejected
            if t.contains("root") {
              None
            } else {
              Some(CStr::from_ptr(Z3_get_numeral_string(self.ctx, out)).to_string_lossy().into_owned())
            }
          } else {
            None
          };
          Z3_dec_ref(self.ctx, out);
          s
        })
        .collect();
      Z3_model_dec_ref(self.ctx, m);
      r
    }
  }
  pub fn dump(&self) -> String {
    unsafe { CStr::from_ptr(Z3_solver_to_string(self.ctx, self.solver)).to_string_lossy().into_owned() }
  }
}

impl Drop for Z3 {
  fn drop(&mut self) {
    unsafe {
      Z3_solver_dec_ref(self.ctx, self.solver);
      Z3_del_context(self.ctx);
    }
  }
}
