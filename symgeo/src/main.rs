//! Solver-based checking of rgeometry's generic code. See /verif/DESIGN.md.
#![allow(clippy::all)]
mod engine;
mod geo;
mod poly;
mod props;
mod scal;
mod z3;
use engine::*;
use num_bigint::BigInt;
use num_rational::BigRational;
use std::fmt::Write as _;
use std::sync::Arc;
use std::time::{Duration, Instant};

/// Everything one property's check consists of.
pub struct Check {
  pub jobs: Vec<Job>,
  /// functions of the crate executed symbolically
  pub functions: Vec<&'static str>,
  pub assumptions: Vec<&'static str>,
}

fn esc(s: &str) -> String {
  let mut o = String::from("\"");
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      '\n' => o.push_str("\\n"),
      c if (c as u32) < 32 => o.push(' '),
      c => o.push(c),
    }
  }
  o.push('"');
  o
}
fn arr<S: AsRef<str>>(v: &[S]) -> String {
  format!("[{}]", v.iter().map(|s| esc(s.as_ref())).collect::<Vec<_>>().join(","))
}

/// value of a "key":"..." / "key":[...] field in one of our own one-line JSON files
fn field<'a>(s: &'a str, key: &str) -> Option<&'a str> {
  let k = format!("\"{}\":", key);
  let i = s.find(&k)? + k.len();
  let r = s[i..].trim_start();
  if let Some(r) = r.strip_prefix('"') {
    Some(&r[..r.find('"')?])
  } else if let Some(r) = r.strip_prefix('[') {
    Some(&r[..r.find(']')?])
  } else {
    Some(r[..r.find([',', '}'])?].trim())
  }
}

fn write_replay(root: &str, prop: &str, tier: &str, job: &Job, v: &Violation) -> String {
  let dir = format!("{}/evidence/replay", root);
  let _ = std::fs::create_dir_all(&dir);
  let path = format!("{}/{}-{}.json", dir, prop, job.spec.name.replace(['/', ' '], "_"));
  let vals: Vec<String> = v.values.iter().map(|x| x.to_string()).collect();
  let ch: Vec<String> = v.choices.iter().map(|x| x.to_string()).collect();
  let s = format!(
    "{{\"property\":{},\"tier\":{},\"job\":{},\"values\":{},\"choices\":{},\"msg\":{},\"shown\":{}}}\n",
    esc(prop),
    esc(tier),
    esc(&job.spec.name),
    arr(&vals),
    arr(&ch),
    esc(&v.msg.replace('"', "'")),
    esc(&show(&job.spec, &v.values, &v.choices)),
  );
  let _ = std::fs::write(&path, s);
  path
}

fn parse_vals(s: &str) -> Vec<BigRational> {
  s.split(',')
    .map(|x| x.trim().trim_matches('"'))
    .filter(|x| !x.is_empty())
    .map(|x| match x.split_once('/') {
      Some((a, b)) => BigRational::new(a.parse().unwrap(), b.parse().unwrap()),
      None => BigRational::from_integer(x.parse::<BigInt>().unwrap()),
    })
    .collect()
}

fn replay_file(path: &str) -> i32 {
  let s = std::fs::read_to_string(path).expect("replay file");
  let (prop, tier, job) =
    (field(&s, "property").unwrap(), field(&s, "tier").unwrap(), field(&s, "job").unwrap());
  let vals = parse_vals(field(&s, "values").unwrap());
  let choices: Vec<u64> = field(&s, "choices")
    .unwrap()
    .split(',')
    .map(|x| x.trim().trim_matches('"'))
    .filter(|x| !x.is_empty())
    .map(|x| x.parse().unwrap())
    .collect();
  let c = props::lookup(prop, tier).expect("property");
  let j = c.jobs.iter().find(|j| j.spec.name == job).expect("job");
  println!("{}", show(&j.spec, &vals, &choices));
  match replay(&j.spec, &j.body, &vals, &choices) {
    Ok(Some(m)) => {
      println!("REPRODUCED {}", m);
      1
    }
    Ok(None) => {
      println!("not reproduced");
      0
    }
    Err(e) => {
      println!("error: {}", e);
      2
    }
  }
}

fn main() {
  install_panic_hook();
  let a: Vec<String> = std::env::args().collect();
  match a.get(1).map(|s| s.as_str()) {
    Some("run") => std::process::exit(run_property(&a[2], &a[3], &a[4], a.get(5).map(|s| s.as_str()))),
    Some("replay") => std::process::exit(replay_file(&a[2])),
    Some("list") => {
      for p in props::ALL {
        println!("{}", p);
      }
    }
    _ => eprintln!("symgeo run PROPERTY quick|thorough ROOT [JOB] | replay FILE | list"),
  }
}

fn run_property(prop: &str, tier: &str, root: &str, only: Option<&str>) -> i32 {
  let t0 = Instant::now();
  let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
  let total = std::env::var("SYMGEO_SECONDS").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "quick" { 420 } else { 3000 });
  let mut c = props::lookup(prop, tier).expect("unknown property");
  if let Some(o) = only {
    c.jobs.retain(|j| j.spec.name.starts_with(o));
  }
  let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(2, 8);
  let known = std::fs::read_to_string(format!("{}/known_findings.jsonl", root)).unwrap_or_default();
  let known: Vec<String> =
    known.lines().filter(|l| field(l, "property") == Some(prop) && field(l, "status") == Some("known")).map(|l| l.to_string()).collect();
  let (mut outs, mut violation, mut errors, mut known_hits): (Vec<(String, Outcome)>, Option<String>, Vec<String>, Vec<String>) =
    (vec![], None, vec![], vec![]);
  let _ = std::fs::create_dir_all(format!("{}/evidence", root));
  let (rt, pt, tt) = (root.to_string(), prop.to_string(), tier.to_string());
  let on_hang: OnHang = Arc::new(move |job, v| {
    let p = write_replay(&rt, &pt, &tt, job, &v);
    println!("{} at {}", v.msg, show(&job.spec, &v.values, &v.choices));
    println!("VIOLATION property={} replay={}", pt, p);
    let ev = format!(
      "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{\"states\":1,\"transitions\":0,\"traces_validated_against_impl\":1,\"samples\":[{}]}},\"wall_s\":{:.1},\"violations\":1}}\n",
      esc(&pt), esc(&tt), seed, esc(&show(&job.spec, &v.values, &v.choices)), t0.elapsed().as_secs_f64());
    let _ = std::fs::write(format!("{}/evidence/{}.json", rt, pt), ev);
    std::process::exit(1);
  });
  let (rt, pt, tt) = (root.to_string(), prop.to_string(), tier.to_string());
  let hangs: Arc<dyn Fn(&Job, &[BigRational], &[u64]) -> bool + Send + Sync> = Arc::new(move |job, v, ch| {
    let p = write_replay(&rt, &pt, &tt, job, &Violation { msg: "hang?".into(), values: v.to_vec(), choices: ch.to_vec() });
    let mut k = match std::process::Command::new(std::env::current_exe().unwrap())
      .args(["replay", &p])
      .stdout(std::process::Stdio::null())
      .stderr(std::process::Stdio::null())
      .spawn()
    {
      Ok(k) => k,
      Err(_) => return false,
    };
    for _ in 0..100 {
      std::thread::sleep(Duration::from_millis(100));
      match k.try_wait() {
        // finished: endless only if it died from a signal (e.g. memory) or reported a violation
        Ok(Some(s)) => return s.code() == Some(1) || s.code().is_none(),
        Ok(None) => {}
        Err(_) => return false,
      }
    }
    let _ = k.kill();
    let _ = k.wait();
    true
  });
  for job in &c.jobs {
    let left = Duration::from_secs(total).saturating_sub(t0.elapsed());
    let opts = RunOpts {
      threads,
      deadline: Instant::now() + left,
      witness_every: 997,
      max_violations: if known.is_empty() { 1 } else { 40 },
      on_hang: on_hang.clone(),
      hangs: hangs.clone(),
    };
    let o = run(job, &opts);
    println!(
      "{:<28} paths {:>8} pruned {:>7} queries {:>8} checks {}/{} unknown {} replayed {}/{} fuel<={} {:.1}s{}",
      job.spec.name, o.stats.paths, o.stats.pruned, o.stats.queries, o.stats.checks_discharged, o.stats.checks,
      o.stats.unknown, o.stats.replayed, o.stats.witnesses, o.stats.fuel_max, o.wall, if o.truncated { " TRUNCATED" } else { "" }
    );
    for v in &o.violations {
      let line = format!("{} at {}", v.msg, show(&job.spec, &v.values, &v.choices));
      if let Some(k) = known.iter().find(|k| {
        field(k, "job").is_some_and(|x| x == job.spec.name) && field(k, "msg").is_some_and(|x| v.msg.replace('"', "'").starts_with(x))
      }) {
        let h = format!("KNOWN-FINDING: property={} {}", prop, field(k, "what").unwrap_or(&line));
        if !known_hits.contains(&h) {
          known_hits.push(h);
        }
        continue;
      }
      println!("  violated: {}", line);
      if violation.is_none() {
        violation = Some(write_replay(root, prop, tier, job, v));
      }
    }
    for u in o.unconfirmed.iter().take(5) {
      println!("  unconfirmed: {}", u);
    }
    if o.violations.is_empty() {
      errors.extend(o.unconfirmed.iter().take(3).cloned());
      if !o.truncated {
        for t in &job.must_reach {
          if !o.stats.reach.contains_key(*t) {
            errors.push(format!("{}: marker '{}' never reached (vacuous)", job.spec.name, t));
          }
        }
        if o.stats.paths == 0 {
          errors.push(format!("{}: no path reached the end", job.spec.name));
        }
      }
    }
    errors.extend(o.internal.iter().take(3).map(|e| format!("{}: {}", job.spec.name, e)));
    outs.push((job.spec.bound.clone(), o));
    if violation.is_some() {
      break;
    }
  }
  // evidence
  let mut tot = Stats::default();
  let mut jobs = vec![];
  let mut samples = vec![];
  for (b, o) in &outs {
    tot.merge(&o.stats);
    let s = &o.stats;
    let mut j = String::new();
    write!(
      j,
      "{{\"name\":{},\"bound\":{},\"paths\":{},\"infeasible_under_assumptions\":{},\"decisions\":{},\"queries\":{},\"assertions\":{},\"assertions_discharged\":{},\"solver_s\":{:.2},\"solver_unknown\":{},\"atoms_outside_theory\":{},\"refuted_by_real_arithmetic\":{},\"complete\":{},\"max_comparisons_on_a_path\":{},\"wall_s\":{:.2}}}",
      esc(&o.name), esc(b), s.paths, s.pruned, s.decisions, s.queries, s.checks, s.checks_discharged,
      s.solver_ns as f64 / 1e9, s.unknown, s.unknown_atoms, s.refuted, !o.truncated, s.fuel_max, o.wall
    )
    .unwrap();
    jobs.push(j);
    samples.extend(o.samples.iter().take(2).cloned());
  }
  let nviol = violation.is_some() as i32;
  let ev = format!(
    "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"samples\":{},\"functions_encoded\":{},\"queries\":{},\"assertions_discharged\":{},\"solver_s\":{:.2},\"exhaustive\":{},\"jobs\":[{}]}},\"assumptions\":{},\"wall_s\":{:.2},\"violations\":{}}}\n",
    esc(prop), esc(tier), seed, tot.paths, tot.decisions, tot.replayed, arr(&samples), arr(&c.functions), tot.queries,
    tot.checks_discharged, tot.solver_ns as f64 / 1e9, outs.iter().all(|o| !o.1.truncated), jobs.join(","),
    arr(&c.assumptions), t0.elapsed().as_secs_f64(), nviol
  );
  if only.is_none() {
    let _ = std::fs::write(format!("{}/evidence/{}.json", root, prop), ev);
  }
  for k in &known_hits {
    println!("{}", k);
  }
  if let Some(p) = violation {
    println!("VIOLATION property={} replay={}", prop, p);
    return 1;
  }
  if !errors.is_empty() {
    for e in errors.iter().take(10) {
      println!("ERROR {}", e);
    }
    return 2;
  }
  println!("OK property={} {:.1}s", prop, t0.elapsed().as_secs_f64());
  0
}
