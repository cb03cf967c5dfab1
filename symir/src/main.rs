//! Solver-based checking of rgeometry's scalar kernels: symbolic execution of the LLVM IR that
//! rustc emits for the current source tree. See /verif/DESIGN.md.
#![allow(clippy::all)]
mod exec;
mod jobs;
mod ll;
mod num;
mod numeric;
mod spec;
#[path = "../../symgeo/src/z3.rs"]
mod z3;
use exec::*;
use jobs::*;
use num::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::path::Path;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn esc(s: &str) -> String {
  let mut o = String::from("\"");
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      '\n' => o.push_str("\\n"),
      c if (c as u32) < 32 => o.push(' '),
      c => o.push(c),
    }
  }
  o.push('"');
  o
}
fn arr<S: AsRef<str>>(v: impl IntoIterator<Item = S>) -> String {
  format!("[{}]", v.into_iter().map(|s| esc(s.as_ref())).collect::<Vec<_>>().join(","))
}

/// the IR of the current tree: newest file per crate
fn modules(dir: &Path) -> Rc<Vec<ll::Module>> {
  let mut best: BTreeMap<String, (std::time::SystemTime, std::path::PathBuf)> = BTreeMap::new();
  let wanted = ["kern", "rgeometry", "num_bigint", "num_rational", "num_traits", "num_integer", "ordered_float", "geometry_predicates", "rug", "az"];
  for f in std::fs::read_dir(dir).expect("IR directory").flatten() {
    let p = f.path();
    if p.extension().is_some_and(|e| e == "ll") {
      let n = p.file_stem().unwrap().to_string_lossy().to_string();
      let n = n.rsplit_once('-').map(|x| x.0.to_string()).unwrap_or(n);
      let t = f.metadata().unwrap().modified().unwrap();
      if wanted.contains(&n.as_str()) && best.get(&n).map_or(true, |b| b.0 < t) {
        best.insert(n, (t, p));
      }
    }
  }
  let mut v = vec![];
  for w in wanted {
    if let Some((_, p)) = best.get(w) {
      v.push(ll::Module::load(p));
    }
  }
  assert!(best.contains_key("kern") && best.contains_key("rgeometry"), "no IR found");
  Rc::new(v)
}

#[derive(Default)]
struct Out {
  stats: Stats,
  used: BTreeSet<String>,
  contracts: BTreeSet<String>,
  violation: Option<(String, Vec<Q>)>,
  undecided: Vec<String>,
  errors: Vec<String>,
  unsupported: BTreeMap<String, u64>,
  samples: Vec<String>,
  replayed: u64,
  claims: u64,
  discharged: u64,
  truncated: bool,
  wall: f64,
}
fn show(v: &[Q]) -> String {
  v.iter()
    .map(|x| {
      let s = x.to_string();
      if s.len() > 60 { format!("{:e}", spec::to_f64(x)) } else { s }
    })
    .collect::<Vec<_>>()
    .join(" ")
}

/// looks for real inputs near a model on which the real code fails
fn confirm(job: &Job, m: &[Q], rounded: bool) -> Option<(String, Vec<Q>)> {
  if let Some(msg) = (job.native)(m) {
    return Some((msg, m.to_vec()));
  }
  if rounded || m.iter().any(|x| !x.is_integer()) {
    for k in (-1070i32..=1020).step_by(55) {
      let s = if k < 0 { qi(pow2((-k) as u32)).recip() } else { qi(pow2(k as u32)) };
      let v: Vec<Q> = m.iter().map(|x| x * &s).collect();
      if let Some(msg) = (job.native)(&v) {
        return Some((msg, v));
      }
    }
  }
  let mut g = Rng(0x9e3779b97f4a7c15);
  for _ in 0..20_000 {
    let v = (job.cands)(&mut g);
    if v.len() != m.len() {
      break;
    }
    if let Some(msg) = (job.native)(&v) {
      return Some((msg, v));
    }
  }
  None
}

fn run_job(job: &Job, mods: Rc<Vec<ll::Module>>, deadline: Instant) -> Out {
  let t0 = Instant::now();
  let mut o = Out::default();
  let mut e = Exec::new(mods);
  e.single0 = job.single;
  let mut tried = false;
  loop {
    if Instant::now() > deadline {
      o.truncated = true;
      break;
    }
    e.start();
    let r = (job.run)(&mut e);
    let mut claims = vec![];
    let mut ended = false;
    match r {
      Ok(c) => {
        e.stats.paths += 1;
        claims = c;
        // no claim left: the assertions were decided on the concrete results of the path
        o.claims += claims.len().max(1) as u64;
        o.discharged += claims.is_empty() as u64;
        ended = true;
      }
      Err(Stop::Panic(m)) => {
        e.stats.paths += 1;
        o.claims += 1;
        claims.push(Claim { what: format!("panics: {m}"), neg: Neg::Always });
      }
      Err(Stop::Unsupported(m)) => *o.unsupported.entry(m).or_insert(0) += 1,
      Err(Stop::Infeasible) => e.stats.pruned += 1,
    }
    let mut all = true;
    for c in &claims {
      let bitmode = e.inputs.iter().any(|i| matches!(i, Input::Bits(..)));
      let queries: Vec<Proof> = match &c.neg {
        Neg::Num(d) => d.iter().map(|a| e.refute(a)).collect(),
        Neg::Bv(f) => vec![e.refute_bv(&[*f])],
        Neg::Always if bitmode => vec![e.refute_bv(&[])],
        Neg::Always => vec![e.refute(&[])],
      };
      let mut ok = true;
      for p in queries {
        match p {
          Proof::Holds => {}
          Proof::Fails(m) => {
            ok = false;
            if o.violation.is_none() && !(tried && e.rounded) {
              match confirm(job, &m, e.rounded) {
                Some((msg, v)) => o.violation = Some((msg, v)),
                None => {
                  tried = true;
                  let s = format!("{}: {} at {} (path of {} conditions)", job.name, c.what, show(&m), e.path.len());
                  if e.rounded {
                    o.undecided.push(s)
                  } else {
                    o.errors.push(s)
                  }
                }
              }
            }
          }
          Proof::Unknown => {
            ok = false;
            o.undecided.push(format!("{}: {} (solver gave up)", job.name, c.what))
          }
        }
      }
      all &= ok;
      o.discharged += ok as u64;
    }
    if o.violation.is_some() || o.errors.len() > 3 {
      break;
    }
    // validate the encoding: replay a model of the path on the real code
    if all && ended && job.witness && !e.rounded && o.replayed < 40 && (e.stats.paths < 60 || e.stats.paths % 61 == 0) {
      if let Some(m) = e.witness() {
        match (job.native)(&m) {
          None => {
            o.replayed += 1;
            if o.samples.len() < 3 {
              o.samples.push(format!("{}: {}", job.name, show(&m)));
            }
          }
          Some(msg) => {
            o.violation = Some((msg, m));
            break;
          }
        }
      }
    }
    if !e.next() {
      break;
    }
  }
  o.stats = e.stats.clone();
  o.used = e.used.clone();
  o.contracts = e.externs.clone();
  o.wall = t0.elapsed().as_secs_f64();
  o
}

fn field<'a>(s: &'a str, key: &str) -> Option<&'a str> {
  let k = format!("\"{}\":", key);
  let i = s.find(&k)? + k.len();
  let r = s[i..].trim_start();
  if let Some(r) = r.strip_prefix('"') {
    Some(&r[..r.find('"')?])
  } else if let Some(r) = r.strip_prefix('[') {
    Some(&r[..r.find(']')?])
  } else {
    Some(r[..r.find([',', '}'])?].trim())
  }
}

fn main() {
  let a: Vec<String> = std::env::args().collect();
  std::panic::set_hook(Box::new(|i| {
    if std::env::var("SYMIR_PANICS").is_ok() || !i.location().is_some_and(|l| l.file().contains("rgeometry") || l.file().contains("/rustc/") || l.file().starts_with("/repo")) {
      eprintln!("{i}");
    }
  }));
  match a.get(1).map(|s| s.as_str()) {
    Some("run") => std::process::exit(run(&a[2], &a[3], &a[4], a.get(5).map(|s| s.as_str()))),
    Some("replay") => {
      let s = std::fs::read_to_string(&a[2]).expect("replay file");
      let js = jobs(field(&s, "property").unwrap(), field(&s, "tier").unwrap()).unwrap();
      let j = js.iter().find(|j| j.name == field(&s, "job").unwrap()).expect("job");
      let v: Vec<Q> = field(&s, "values").unwrap().split(',').map(|x| parse_q(x.trim().trim_matches('"'))).collect();
      match (j.native)(&v) {
        Some(m) => {
          println!("REPRODUCED {m}");
          std::process::exit(1)
        }
        None => println!("not reproduced"),
      }
    }
    _ => eprintln!("symir run PROPERTY quick|thorough ROOT [JOB] | replay FILE"),
  }
}

fn run(prop: &str, tier: &str, root: &str, only: Option<&str>) -> i32 {
  let t0 = Instant::now();
  let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
  let mut js = jobs(prop, tier).expect("unknown property");
  if let Some(o) = only {
    js.retain(|j| j.name.starts_with(o));
  }
  let total = if tier == "quick" { 420 } else { 3000 };
  let deadline = t0 + Duration::from_secs(total);
  let dir = format!("{root}/kern/target/debug/deps");
  let js = Arc::new(js);
  let next = Arc::new(Mutex::new(0usize));
  let outs: Arc<Mutex<BTreeMap<usize, Out>>> = Arc::new(Mutex::new(BTreeMap::new()));
  let mut hs = vec![];
  for _ in 0..8.min(js.len()) {
    let (js, next, outs, dir) = (js.clone(), next.clone(), outs.clone(), dir.clone());
    hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
      let mods = modules(Path::new(&dir));
      loop {
        let i = {
          let mut n = next.lock().unwrap();
          *n += 1;
          *n - 1
        };
        if i >= js.len() {
          break;
        }
        let o = run_job(&js[i], mods.clone(), deadline);
        println!(
          "{:<34} paths {:>6} pruned {:>5} queries {:>7} claims {}/{} unknown {} replayed {} {:.1}s{}",
          js[i].name, o.stats.paths, o.stats.pruned, o.stats.queries, o.discharged, o.claims, o.stats.unknown, o.replayed, o.wall,
          if o.truncated { " TRUNCATED" } else { "" }
        );
        for (m, n) in &o.unsupported {
          println!("  not encoded ({n} paths): {m}");
        }
        for u in o.undecided.iter().take(3) {
          println!("  undecided: {u}");
        }
        outs.lock().unwrap().insert(i, o);
      }
    }).unwrap());
  }
  for h in hs {
    if h.join().is_err() {
      println!("ERROR a worker died");
      return 2;
    }
  }
  let outs = outs.lock().unwrap();
  let known = std::fs::read_to_string(format!("{root}/known_findings.jsonl")).unwrap_or_default();
  let known: Vec<&str> = known.lines().filter(|l| field(l, "property") == Some(prop) && field(l, "status") == Some("known")).collect();
  let (mut violation, mut errors, mut hits): (Option<String>, Vec<String>, BTreeSet<String>) = (None, vec![], BTreeSet::new());
  let mut jobs_json = vec![];
  let mut tot = Stats::default();
  let (mut used, mut contracts, mut samples) = (BTreeSet::new(), BTreeSet::new(), vec![]);
  let (mut replayed, mut discharged, mut complete) = (0, 0, true);
  let _ = std::fs::create_dir_all(format!("{root}/evidence/replay"));
  for (i, o) in outs.iter() {
    let j = &js[*i];
    let s = &o.stats;
    tot.paths += s.paths;
    tot.decisions += s.decisions;
    tot.queries += s.queries;
    tot.solver_s += s.solver_s;
    used.extend(o.used.iter().cloned());
    contracts.extend(o.contracts.iter().cloned());
    samples.extend(o.samples.iter().take(2).cloned());
    replayed += o.replayed;
    discharged += o.discharged;
    let done = !o.truncated && o.unsupported.is_empty() && o.undecided.is_empty() && o.errors.is_empty();
    complete &= done;
    let mut t = String::new();
    let _ = write!(
      t,
      "{{\"name\":{},\"bound\":{},\"paths\":{},\"infeasible\":{},\"decisions\":{},\"queries\":{},\"assertions\":{},\"assertions_discharged\":{},\"solver_s\":{:.2},\"solver_unknown\":{},\"not_encoded\":{},\"undecided\":{},\"complete\":{},\"instructions\":{},\"wall_s\":{:.2}}}",
      esc(&j.name), esc(&j.bound), s.paths, s.pruned, s.decisions, s.queries, o.claims, o.discharged, s.solver_s, s.unknown,
      arr(o.unsupported.keys()), arr(o.undecided.iter().take(5)), done, s.steps, o.wall
    );
    jobs_json.push(t);
    errors.extend(o.errors.iter().take(3).cloned());
    if let Some((msg, v)) = &o.violation {
      println!("  violated: {}: {} at {}", j.name, msg, show(v));
      if let Some(k) = known.iter().find(|k| field(k, "job") == Some(j.name.as_str())) {
        hits.insert(format!("KNOWN-FINDING: property={} {}", prop, field(k, "what").unwrap_or(msg)));
      } else if violation.is_none() {
        let name: String = j.name.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '_' }).collect();
        let p = format!("{root}/evidence/replay/{prop}-{name}.json");
        let _ = std::fs::write(
          &p,
          format!("{{\"property\":{},\"tier\":{},\"job\":{},\"values\":{},\"msg\":{}}}\n", esc(prop), esc(tier), esc(&j.name), arr(v.iter().map(|x| x.to_string())), esc(&msg.replace('"', "'"))),
        );
        violation = Some(p);
      }
    } else if s.paths == 0 && !o.truncated {
      println!("  nothing of {} could be encoded", j.name);
    }
  }
  if tot.paths == 0 {
    errors.push("no path of any job reached its end".into());
  }
  let assumptions = [
    "arithmetic and comparisons of num-bigint, num-rational and rug are exact; geometry_predicates::orient2d has the exact sign whenever nothing over- or underflows",
    "dev-profile IR (overflow checks and debug assertions on) of the same source that is shipped; rustc and the IR reader in symir/src/ll.rs are trusted",
    "z3 4.8 verdicts are trusted; models are replayed on the native code before anything is reported",
  ];
  if only.is_none() {
    let ev = format!(
      "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"samples\":{},\"functions_encoded\":{},\"contracts_used\":{},\"queries\":{},\"assertions_discharged\":{},\"solver_s\":{:.2},\"exhaustive\":{},\"jobs\":[{}]}},\"assumptions\":{},\"wall_s\":{:.2},\"violations\":{}}}\n",
      esc(prop), esc(tier), seed, tot.paths, tot.decisions, replayed, arr(&samples),
      arr(used.iter().filter(|u| u.contains("rgeometry"))), arr(&contracts), tot.queries, discharged, tot.solver_s, complete,
      jobs_json.join(","), arr(assumptions), t0.elapsed().as_secs_f64(), violation.is_some() as i32
    );
    let _ = std::fs::write(format!("{root}/evidence/{prop}.json"), ev);
  }
  for h in hits {
    println!("{h}");
  }
  if let Some(p) = violation {
    println!("VIOLATION property={prop} replay={p}");
    return 1;
  }
  if !errors.is_empty() {
    for e in errors.iter().take(10) {
      println!("ERROR {e}");
    }
    return 2;
  }
  println!("OK property={} {:.1}s{}", prop, t0.elapsed().as_secs_f64(), if complete { "" } else { " (incomplete, see evidence)" });
  0
}
