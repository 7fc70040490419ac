#[macro_use]
mod schemas;
mod model;
mod regress;
mod run;
mod shims;
use run::*;
use schemas::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

struct Out {
  evals: u64,
  nontrivial: BTreeSet<u64>,
  ops: BTreeMap<&'static str, u64>,
  samples: Vec<String>,
}

fn one<S: Sch>(seed: u64, cfg: &Cfg, out: Option<&mut Out>) -> Result<(), (Fail, String)> {
  let mut w = World::<S>::new();
  let mut r = Rng(seed);
  let res = match quiet(|| w.history(&mut r, cfg)) {
    Ok(r) => r,
    Err(p) => Err(Fail { tags: vec!["C03", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C15"], msg: format!("unexpected panic: {p}") }),
  };
  if let Some(o) = out {
    o.evals += 1;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    use std::hash::{Hash, Hasher};
    w.log.hash(&mut h);
    if w.ops.get("commit").copied().unwrap_or(0) >= 1 && w.ops.values().sum::<u64>() >= 4 {
      o.nontrivial.insert(h.finish());
    }
    for (k, v) in &w.ops {
      *o.ops.entry(k).or_default() += v;
    }
    if o.samples.len() < 2 && w.log.len() > 300 && w.log.len() < 1500 {
      o.samples.push(format!("schema {} seed {seed}\n{}", w.s.name, w.log));
    }
  }
  res.map_err(|f| (f, format!("schema {} seed {seed} cfg {cfg:?}\n{}", w.s.name, w.log)))
}

fn dispatch(k: usize, seed: u64, cfg: &Cfg, out: Option<&mut Out>) -> Result<(), (Fail, String)> {
  match k {
    0 => one::<basic::Basic>(seed, cfg, out),
    1 => one::<single::Single>(seed, cfg, out),
    2 => one::<bidir::Bidir>(seed, cfg, out),
    3 => one::<multi::Multi>(seed, cfg, out),
    4 => one::<typed::Typed>(seed, cfg, out),
    5 => one::<grouped::Grouped>(seed, cfg, out),
    6 => one::<wide::Wide>(seed, cfg, out),
    7 => one::<spell::Spell>(seed, cfg, out),
    8 => one::<cross::Cross>(seed, cfg, out),
    _ => one::<names::Names>(seed, cfg, out),
  }
}
const NAMES: [&str; 10] = ["basic", "single", "bidir", "multi", "typed", "grouped", "wide", "spell", "cross", "names"];

fn main() {
  std::panic::set_hook(Box::new(|_| {}));
  let a: Vec<String> = std::env::args().collect();
  let get = |k: &str, d: &str| a.iter().position(|x| x == k).map_or(d.to_string(), |i| a[i + 1].clone());
  let seed: u64 = get("--seed", "1").parse().unwrap();
  if a.iter().any(|x| x == "--shims") {
    println!("{}", shims::run(seed));
    return;
  }
  let ms: u64 = get("--ms", "3000").parse().unwrap();
  let prop = get("--prop", "all");
  let want = |f: &Fail| prop == "all" || f.tags.iter().any(|t| *t == prop);
  let one_case = get("--case", "");
  let start = Instant::now();
  let mut out = Out { evals: 0, nontrivial: BTreeSet::new(), ops: BTreeMap::new(), samples: vec![] };
  let mut best: Option<(usize, Fail, String, String)> = None;
  let mut other = 0u64;
  let mut others: BTreeSet<String> = BTreeSet::new();

  // a history that does not end is a failure of the commit it is in
  let cur: Arc<Mutex<(Instant, String)>> = Arc::new(Mutex::new((Instant::now(), "start".to_string())));
  let cur_file = std::fs::File::create(get("--cur", "/dev/null")).ok();
  {
    let cur = cur.clone();
    std::thread::spawn(move || loop {
      std::thread::sleep(Duration::from_millis(500));
      let c = cur.lock().unwrap();
      if c.0.elapsed() > Duration::from_secs(40) {
        println!("{}", serde_json::json!({"evaluations": 1, "histories": 1, "directed": 0, "thread_indices": 0, "distinct_nontrivial": 1, "ops": {}, "samples": [],
          "failures_of_other_properties": 0, "others": [], "fail": {"tags": ["all"], "msg": format!("an operation did not return within 40 s: {}", c.1), "history": c.1, "case": c.1}}));
        std::process::exit(1);
      }
    });
  }
  let note = |what: String| {
    if let Some(f) = &cur_file {
      use std::os::unix::fs::FileExt;
      let _ = f.write_all_at(format!("{what:<100}\n").as_bytes(), 0);
    }
    *cur.lock().unwrap() = (Instant::now(), what);
  };

  if !one_case.is_empty() {
    // schema:seed:dangling:retype:focus:big
    let p: Vec<&str> = one_case.split(':').collect();
    let k = NAMES.iter().position(|n| *n == p[0]).unwrap();
    let cfg = Cfg { dangling: p[2] == "1", retype: p[3] == "1", focus: p[4].parse().unwrap(), big: p[5] == "1" };
    match dispatch(k, p[1].parse().unwrap(), &cfg, None) {
      Ok(()) => println!("{{\"fail\": null}}"),
      Err((f, log)) => {
        println!("{}\n{log}\nFAILED {:?}: {}", one_case, f.tags, f.msg);
        std::process::exit(1);
      },
    }
    return;
  }

  // directed scenarios
  let mut directed = 0;
  for (name, f) in regress::all() {
    directed += 1;
    note(format!("directed:{name}"));
    out.evals += 1;
    let res = match quiet(f) {
      Ok(r) => r,
      Err(p) => Err(Fail { tags: regress::tags(name), msg: format!("unexpected panic: {p}") }),
    };
    if let Err(f) = res {
      if want(&f) {
        best = Some((0, f, format!("directed scenario {name} (engine/src/regress.rs)"), format!("directed:{name}")));
      } else {
        other += 1;
        others.insert(f.msg);
      }
    }
  }
  // threads
  let mut thr = 0u64;
  for k in 0..(if prop == "C06" || prop == "all" { 24 } else { 3 }) {
    let s = seed.wrapping_mul(1000).wrapping_add(k);
    note(format!("threads:{s}"));
    let res = if k % 2 == 0 { threads::<basic::Basic>(s, 8, 1500) } else { threads::<bidir::Bidir>(s, 4, 3000) };
    match res {
      Ok(n) => thr += n,
      Err(f) => {
        if want(&f) && best.is_none() {
          best = Some((0, f, format!("threads seed {s}"), format!("threads:{s}")));
        }
      },
    }
  }
  // random histories
  let mut i = 0u64;
  let mut found_at: Option<Instant> = None;
  while start.elapsed() < Duration::from_millis(ms) {
    if let Some(t) = found_at {
      if t.elapsed() > Duration::from_millis(1500) {
        break;
      }
    } else if best.is_some() {
      break;
    }
    i += 1;
    let mut r = Rng(seed.wrapping_mul(0x1000193).wrapping_add(i.wrapping_mul(7919)));
    let k = match prop.as_str() {
      "C04" => r.pick(&[2, 2, 2, 3, 4, 5, 8, 8, 9]),
      "C05" => r.pick(&[4, 4, 5, 5, 8, 8, 9, 0]),
      "C13" => r.pick(&[0, 3, 4, 5, 6, 8, 9, 9]),
      _ => r.below(10),
    };
    let focus = if r.chance(45) {
      match prop.as_str() {
        "C01" => 4,
        "C02" => r.pick(&[10, 12]),
        "C08" => r.pick(&[2, 3, 4, 13]),
        "C11" => 13,
        _ => r.pick(&[0, 2, 4, 6, 8, 10, 12, 13]),
      }
    } else {
      0
    };
    let cfg = Cfg { dangling: r.chance(15), retype: r.chance(30), focus, big: r.chance(2) };
    let cs = r.next();
    let case = format!("{}:{cs}:{}:{}:{}:{}", NAMES[k], cfg.dangling as u8, cfg.retype as u8, cfg.focus, cfg.big as u8);
    note(case.clone());
    if let Err((f, log)) = dispatch(k, cs, &cfg, Some(&mut out)) {
      if want(&f) {
        found_at.get_or_insert(Instant::now());
        if best.as_ref().map_or(true, |b| log.len() < b.0) {
          best = Some((log.len(), f, log, case));
        }
      } else {
        other += 1;
        if others.len() < 5 {
          others.insert(f.msg);
        }
      }
    }
  }
  let j = serde_json::json!({
    "evaluations": out.evals + thr.min(1), "histories": i, "directed": directed, "thread_indices": thr,
    "distinct_nontrivial": out.nontrivial.len(), "ops": out.ops, "samples": out.samples,
    "failures_of_other_properties": other, "others": others, "debug_feature": cfg!(feature = "debug"), "debug_assertions": cfg!(debug_assertions),
    "fail": best.as_ref().map(|b| serde_json::json!({"tags": b.1.tags, "msg": b.1.msg, "history": b.2, "case": b.3})),
  });
  println!("{j}");
  if best.is_some() {
    std::process::exit(1);
  }
}
