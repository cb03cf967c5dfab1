//! Contracts for the arbitrary-precision number crates (num-bigint, num-rational, rug) and for the
//! adaptive orientation predicate: their results are the exact mathematical ones.
use crate::exec::*;
use crate::ll::*;
use crate::num::*;
use num_traits::{One, Zero};
use std::rc::Rc;

type R<T> = Result<T, Stop>;

fn width(dem: &str) -> u64 {
  if dem.contains("rug::") {
    16
  } else if dem.contains("Ratio<") {
    64
  } else {
    32
  }
}
fn i8v(c: i64) -> V {
  V::I(IntV::C((c as u128) & 0xff))
}

pub fn numeric(e: &mut Exec, dem: &str, ret: &Ty, args: &[(V, bool)]) -> Option<R<V>> {
  if dem.contains("geometry_predicates::predicates::orient2d") && !dem.contains("fast") {
    return Some(orient2d(e, dem, args));
  }
  if dem.contains("as rgeometry") || dem.contains("bigint::Sign") {
    return None;
  }
  let ours = dem.contains("num_bigint::bigint") || dem.contains("num_rational::") || dem.contains("rug::integer");
  if !ours {
    return None;
  }
  let op = dem.rsplit("::").next().unwrap_or("");
  let sret = args.first().is_some_and(|a| a.1);
  let a: Vec<&V> = args.iter().skip(sret as usize).map(|x| &x.0).collect();
  let num = |e: &mut Exec, v: &V| -> R<Poly> {
    match v {
      V::I(i) => {
        let w = match (dem.contains("8>"), dem.contains("16>"), dem.contains("32>"), dem.contains("128>")) {
          (true, _, _, false) => 8,
          (_, true, _, _) => 16,
          (_, _, true, _) => 32,
          (_, _, _, true) => 128,
          _ => {
            if op.ends_with("i8") || op.ends_with("u8") {
              8
            } else if op.ends_with("16") {
              16
            } else if op.ends_with("32") {
              32
            } else {
              64
            }
          }
        };
        let unsigned = dem.contains("<u") || op.starts_with("from_u");
        Ok(e.canon(i, w, !unsigned)?.0)
      }
      v => e.num_at(v),
    }
  };
  let give = |e: &mut Exec, p: Poly| -> R<V> {
    if sret {
      let V::P(al, off) = args[0].0 else { return Err(Stop::Unsupported("sret".into())) };
      e.put(al, off as u64, width(dem), V::N(Rc::new(p)));
      Ok(V::U)
    } else if *ret != Ty::Void {
      Ok(V::N(Rc::new(p)))
    } else {
      Err(Stop::Unsupported(format!("result of {dem}")))
    }
  };
  let two = |e: &mut Exec| -> R<(Poly, Poly)> { Ok((num(e, a[0])?, num(e, a[1])?)) };
  let sign = |e: &mut Exec, d: &Poly| -> i64 {
    if e.truth(d, Rel::Lt) {
      -1
    } else if e.truth(d, Rel::Eq) {
      0
    } else {
      1
    }
  };
  let r: R<V> = (|| {
    Ok(match (op, a.len()) {
      ("add", 2) if !sret && matches!(ret, Ty::Struct(..)) => return Err(Stop::Unsupported("NATIVE".into())),
      ("sub" | "mul", 2) if !sret && matches!(ret, Ty::Struct(..)) => return Err(Stop::Unsupported("NATIVE".into())),
      ("add", 2) => {
        let (x, y) = two(e)?;
        give(e, x.add(&y))?
      }
      ("sub", 2) => {
        let (x, y) = two(e)?;
        give(e, x.sub(&y))?
      }
      ("mul", 2) => {
        let (x, y) = two(e)?;
        give(e, x.mul(&y))?
      }
      ("add_assign" | "sub_assign" | "mul_assign", 2) => {
        let (x, y) = two(e)?;
        let p = match op {
          "add_assign" => x.add(&y),
          "sub_assign" => x.sub(&y),
          _ => x.mul(&y),
        };
        let V::P(al, off) = *a[0] else { return Err(Stop::Unsupported("assign".into())) };
        e.put(al, off as u64, width(dem), V::N(Rc::new(p)));
        V::U
      }
      ("neg", 1) => {
        let x = num(e, a[0])?;
        give(e, x.neg())?
      }
      ("clone", 1) => {
        let x = num(e, a[0])?;
        give(e, x)?
      }
      ("square", 1) => {
        let x = num(e, a[0])?;
        give(e, x.mul(&x))?
      }
      ("pow", 2) => {
        let x = num(e, a[0])?;
        let V::I(IntV::C(k)) = a[1] else { return Err(Stop::Unsupported("pow".into())) };
        let mut p = Poly::int(1);
        for _ in 0..*k {
          p = p.mul(&x);
        }
        give(e, p)?
      }
      ("abs", 1) => {
        let x = num(e, a[0])?;
        let s = sign(e, &x);
        give(e, if s < 0 { x.neg() } else { x })?
      }
      ("signum", 1) => {
        let x = num(e, a[0])?;
        let s = sign(e, &x);
        give(e, Poly::int(s))?
      }
      ("zero", 0) => give(e, Poly::zero())?,
      ("one", 0) => give(e, Poly::int(1))?,
      ("cmp" | "partial_cmp", 2) => {
        let (x, y) = two(e)?;
        i8v(sign(e, &x.sub(&y)))
      }
      ("eq" | "ne" | "lt" | "le" | "gt" | "ge", 2) => {
        let (x, y) = two(e)?;
        let d = x.sub(&y);
        let b = match op {
          "eq" => e.truth(&d, Rel::Eq),
          "ne" => !e.truth(&d, Rel::Eq),
          "lt" => e.truth(&d, Rel::Lt),
          "le" => e.truth(&d, Rel::Le),
          "gt" => e.truth(&d.neg(), Rel::Lt),
          _ => e.truth(&d.neg(), Rel::Le),
        };
        V::I(IntV::C(b as u128))
      }
      ("is_zero", 1) => {
        let x = num(e, a[0])?;
        V::I(IntV::C(e.truth(&x, Rel::Eq) as u128))
      }
      ("is_negative", 1) => {
        let x = num(e, a[0])?;
        V::I(IntV::C(e.truth(&x, Rel::Lt) as u128))
      }
      ("is_positive", 1) => {
        let x = num(e, a[0])?;
        V::I(IntV::C(e.truth(&x.neg(), Rel::Lt) as u128))
      }
      // rug: the unevaluated product, sum or difference of two integers
      ("from", 2) if dem.contains("Incomplete") => {
        let (x, y) = two(e)?;
        let p = if dem.contains("AddIncomplete") {
          x.add(&y)
        } else if dem.contains("SubIncomplete") {
          x.sub(&y)
        } else if dem.contains("MulIncomplete") {
          x.mul(&y)
        } else {
          return Err(Stop::Unsupported(dem.into()));
        };
        give(e, p)?
      }
      ("from" | "from_integer", 1) => {
        let x = num(e, a[0])?;
        give(e, x)?
      }
      // Option<number>: Some in place
      ("from_i8" | "from_i16" | "from_i32" | "from_i64" | "from_i128" | "from_isize" | "from_u8" | "from_u16" | "from_u32" | "from_u64"
      | "from_usize", 1)
        if sret =>
      {
        let x = num(e, a[0])?;
        give(e, x)?
      }
      ("from_float" | "from_f32" | "from_f64", 1) if sret => match a[0] {
        V::F(FV::R(p)) => give(e, (**p).clone())?,
        V::F(FV::C(c)) => match Q::from_float(*c) {
          Some(q) => give(e, Poly::c(q))?,
          None => return Err(Stop::Unsupported("conversion of a special float".into())),
        },
        v => return Err(Stop::Unsupported(format!("from_float of {v:?}"))),
      },
      _ => return Err(Stop::Unsupported("NATIVE".into())),
    })
  })();
  match r {
    Err(Stop::Unsupported(s)) if s == "NATIVE" => None,
    r => Some(r),
  }
}

/// The contract of Shewchuk's predicate: the sign of the result is exact as long as nothing over-
/// or underflows, which holds when every coordinate is zero or has a magnitude in [2^-300, 2^400],
/// and for everything that came from a single-precision number. Otherwise the result is arbitrary.
fn orient2d(e: &mut Exec, dem: &str, args: &[(V, bool)]) -> R<V> {
  let mut c: Vec<V> = vec![];
  for (v, _) in args {
    match v {
      V::P(..) => {
        for k in 0..2 {
          let V::P(a, o) = v else { unreachable!() };
          c.push(e.load(0, &Ty::F64, &V::P(*a, *o + 8 * k))?);
        }
      }
      V::Agg(w) => c.extend(w.iter().cloned()),
      v => c.push(v.clone()),
    }
  }
  let mut p = vec![];
  for v in &c {
    match v {
      V::F(f) => match e.fpoly(f) {
        Some(x) => p.push(x),
        None => return Err(Stop::Unsupported(format!("special argument of {dem}"))),
      },
      v => return Err(Stop::Unsupported(format!("argument of {dem}: {v:?}"))),
    }
  }
  if p.len() != 6 {
    return Err(Stop::Unsupported(format!("arguments of {dem}: {}", p.len())));
  }
  let det = p[0].sub(&p[4]).mul(&p[3].sub(&p[5])).sub(&p[1].sub(&p[5]).mul(&p[2].sub(&p[4])));
  let r = e.var("orient2d", None, None, false);
  let safe = e.single || p.iter().all(|x| e.in_exact_range(x));
  if !safe {
    e.rounded = true;
    return Ok(V::F(FV::R(Rc::new(r))));
  }
  // link: sign(r) = sign(det), by cases
  if e.truth(&det, Rel::Lt) {
    e.assume(r.clone(), Rel::Lt);
  } else if e.truth(&det, Rel::Eq) {
    e.assume(r.clone(), Rel::Eq);
    return Ok(V::F(FV::C(0.0)));
  } else {
    e.assume(r.neg(), Rel::Lt);
  }
  let _ = (Q::zero(), Q::one());
  Ok(V::F(FV::R(Rc::new(r))))
}
