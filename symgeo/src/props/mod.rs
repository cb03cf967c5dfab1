//! The harnesses, one module per group of properties.
use crate::engine::*;
use crate::Check;
use std::sync::Arc;

macro_rules! job {
  ($spec:expr, $f:ident $(, $a:expr)* ; $($tag:expr),*) => {
    Job {
      spec: $spec,
      body: Arc::new(move |conc| if conc { $f::<Cnt>($($a),*) } else { $f::<Sym>($($a),*) }),
      must_reach: vec![$($tag),*],
    }
  };
}

mod fixed;
mod hull;
mod line;
mod polygon;
mod seg;
mod shape;
mod tri;
mod vis;

pub const ALL: &[&str] = &["P01", "P02", "P03", "P04", "P05", "P08", "P09", "P10", "G03", "G04", "G05", "A01", "A02", "A03", "A04", "A05", "A06", "A07", "P06", "P07", "G01", "G02", "G06", "G07", "G08", "G09", "G10", "O01"];

pub fn lookup(prop: &str, tier: &str) -> Option<Check> {
  let th = tier == "thorough";
  polygon::prop(prop, th).or_else(|| seg::prop(prop, th)).or_else(|| hull::prop(prop, th)).or_else(|| shape::prop(prop, th)).or_else(|| tri::prop(prop, th)).or_else(|| line::prop(prop, th)).or_else(|| fixed::prop(prop, th)).or_else(|| vis::prop(prop, th))
}
