//! Deterministic simulation checks for another-rxrust. See /verif/DESIGN.md.
mod util;
mod val;
mod props;
mod ex;
mod model;
mod real;

use simstd::rt::{self, Outcome, RunCfg, RunOut, SchedIn};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};
use util::*;

/// The standard library seeds its hash maps through this symbol: a constant
/// answer makes every iteration order a function of the run alone.
#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
  for i in 0..len {
    unsafe { *buf.add(i) = 7 };
  }
  len as isize
}
extern "C" {
  fn personality(p: u64) -> i32;
}

pub struct Property {
  pub id: &'static str,
  pub gen: fn(&mut G) -> Prep,
  /// outcome classes that say nothing about this property
  pub inconclusive: &'static [&'static str],
  pub real: &'static str,
  pub stub: &'static str,
  pub rule: &'static str,
}

// ------------------------------------------------------------ one run

pub enum Sched {
  Seed(u64),
  List(Vec<u32>),
}
#[derive(Clone)]
pub struct CaseOut {
  pub outcome: Outcome,
  pub desc: String,
  pub gen: Vec<u32>,
  pub sched: Vec<u32>,
  pub steps: u64,
  pub now: u64,
  pub hash: u64,
  pub threads: usize,
  pub faults: rt::Faults,
  pub probes: BTreeMap<&'static str, u64>,
  pub nontrivial: bool,
  pub trace: Vec<String>,
  pub strategy: String,
}

fn run_case(p: &'static Property, gen: G, sched: Sched, trace: bool) -> CaseOut {
  let f = move || {
    let mut g = gen;
    let _ = take_probes();
    let prep = (p.gen)(&mut g);
    let cfg = RunCfg {
      sched: match sched {
        Sched::Seed(s) => SchedIn::Seed(s),
        Sched::List(l) => SchedIn::Replay(l),
      },
      strategy: prep.cfg.strategy.clone(),
      budget: prep.cfg.budget * if g.large { 3 } else { 1 },
      spurious: prep.cfg.spurious,
      stall_ns: prep.cfg.stall_ns,
      trace,
    };
    let o: RunOut = rt::run(cfg, prep.body);
    let (probes, nontrivial, extra) = take_probes();
    let mut outcome = o.outcome;
    if let Outcome::Fail { class, msg } = &outcome {
      // (a large case may simply need more steps)
      if g.large && class == "livelock" {
        outcome = Outcome::Fail { class: "discard".into(), msg: format!("{}: {}", class, msg) };
      } else if p.inconclusive.contains(&class.as_str()) {
        outcome = Outcome::Fail { class: "inconclusive".into(), msg: format!("{}: {}", class, msg) };
      }
    }
    CaseOut {
      outcome,
      desc: prep.desc,
      gen: g.rec,
      sched: o.sched,
      steps: o.steps,
      now: o.now,
      hash: rt::mix(o.hash, extra),
      threads: o.threads,
      faults: o.faults,
      probes,
      nontrivial,
      trace: o.trace,
      strategy: format!("{:?} spurious={} stall_ns={}", prep.cfg.strategy, prep.cfg.spurious, prep.cfg.stall_ns),
    }
  };
  std::thread::Builder::new().stack_size(4 << 20).spawn(f).unwrap().join().unwrap_or_else(|_| {
    eprintln!("harness panic outside the simulation");
    std::process::exit(21);
  })
}

fn is_viol(o: &Outcome) -> Option<(&str, &str)> {
  match o {
    Outcome::Fail { class, msg } if class != "discard" && class != "inconclusive" => Some((class, msg)),
    _ => None,
  }
}
fn seeds(p: &Property, seed: u64, i: u64) -> (u64, u64) {
  let a = rt::mix(rt::mix(hash_bytes(p.id.as_bytes()), seed), i);
  (rt::mix(a, 1), rt::mix(a, 2))
}

// ------------------------------------------------------------ worker

#[derive(Default)]
struct Stats {
  m: BTreeMap<String, u64>,
  distinct: HashSet<u64>,
  samples: Vec<String>,
}
impl Stats {
  fn add(&mut self, k: &str, n: u64) {
    *self.m.entry(k.to_string()).or_insert(0) += n;
  }
  fn take(&mut self, c: &CaseOut, first: u64) {
    self.add("runs", 1);
    match &c.outcome {
      Outcome::Fail { class, .. } if class == "discard" => {
        self.add("discarded", 1);
        return;
      }
      Outcome::Fail { class, .. } if class == "inconclusive" => self.add("inconclusive", 1),
      _ => {}
    }
    self.add("evaluations", 1);
    self.add("steps", c.steps);
    self.add("sim_us", c.now / 1000);
    self.add("sim_threads", c.threads as u64);
    self.add("fault:spurious_wakeup", c.faults.spurious);
    self.add("fault:stall", c.faults.stalls);
    self.add("fault:preemption", c.faults.preemptions);
    self.add("fault:clock_jump", c.faults.clock_jumps);
    for (k, v) in &c.probes {
      self.add(&format!("probe:{}", k), *v);
    }
    if c.nontrivial {
      self.add("nontrivial", 1);
      let h = rt::mix(hash_bytes(c.desc.as_bytes()), c.hash);
      if self.distinct.len() < 3_000_000 {
        self.distinct.insert(h);
      }
      if self.samples.len() < 3 && first % 7 == 0 {
        let mut d = c.desc.clone();
        d.truncate(1500);
        self.samples.push(format!("{} [{}; {} steps, {} threads, {} ns]", d, c.strategy, c.steps, c.threads, c.now));
      }
    }
  }
  fn write(&self, path: &str) {
    let mut s = Vec::new();
    for (k, v) in &self.m {
      writeln!(s, "{} {}", k, v).unwrap();
    }
    for x in &self.samples {
      writeln!(s, "sample {}", x.replace('\n', "\\n")).unwrap();
    }
    std::fs::write(path, s).unwrap();
    let mut b = Vec::with_capacity(self.distinct.len() * 8);
    for h in &self.distinct {
      b.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(format!("{}.set", path), b).unwrap();
  }
}

fn rss_mb() -> u64 {
  let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
  s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) / 256
}

fn worker(p: &'static Property, seed: u64, start: u64, stride: u64, millis: u64, max: u64, base: &str) -> i32 {
  use std::os::unix::fs::FileExt;
  let t0 = Instant::now();
  let cur = std::fs::OpenOptions::new().create(true).write(true).truncate(false).open(format!("{}.cur", base)).unwrap();
  let mut st = Stats::default();
  let mut i = start;
  let mut n = 0u64;
  loop {
    if n % 16 == 0 {
      if t0.elapsed().as_millis() as u64 >= millis || i >= max {
        break;
      }
      if n % 256 == 0 && rss_mb() > 1500 {
        st.add("recycled", 1);
        break;
      }
    }
    cur.write_at(&i.to_le_bytes(), 0).unwrap();
    let (gs, ss) = seeds(p, seed, i);
    let c = run_case(p, G::seed(gs), Sched::Seed(ss), false);
    st.take(&c, i);
    if let Outcome::Fail { class, msg } = &c.outcome {
      if class == "inconclusive" && std::env::var("DST_SHOWINC").is_ok() {
        eprintln!("inconclusive {} {} {}: {}", p.id, seed, i, msg);
      }
    }
    if let Some((class, msg)) = is_viol(&c.outcome) {
      let f = Replay { property: p.id.into(), class: class.into(), msg: msg.into(), seed, index: i, gen: c.gen.clone(), sched: Some(c.sched.clone()), sched_seed: ss };
      f.write(&format!("{}.viol", base), &c);
      st.add("violating", 1);
      st.write(&format!("{}.stats", base));
      return 3;
    }
    if n % 512 == 5 {
      // determinism: the same seed again
      let (gs, ss) = seeds(p, seed, i);
      let d = run_case(p, G::seed(gs), Sched::Seed(ss), false);
      st.add("determinism_reruns", 1);
      if d.hash != c.hash || d.sched != c.sched || d.steps != c.steps {
        st.add("determinism_mismatches", 1);
      }
      // and from its recorded lists
      let e = run_case(p, G::replay(c.gen.clone()), Sched::List(c.sched.clone()), false);
      st.add("determinism_reruns", 1);
      if e.hash != c.hash || e.steps != c.steps {
        st.add("determinism_mismatches", 1);
      }
    }
    i += stride;
    n += 1;
    cur.write_at(&i.to_le_bytes(), 8).unwrap();
  }
  st.write(&format!("{}.stats", base));
  0
}

// ------------------------------------------------------------ replay files

struct Replay {
  property: String,
  class: String,
  msg: String,
  seed: u64,
  index: u64,
  gen: Vec<u32>,
  /// None: the run never ended, only its schedule seed is known
  sched: Option<Vec<u32>>,
  sched_seed: u64,
}
fn list(l: &[u32]) -> String {
  l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
fn unlist(s: &str) -> Vec<u32> {
  s.split(',').filter_map(|x| x.parse().ok()).collect()
}
impl Replay {
  fn write(&self, path: &str, c: &CaseOut) {
    let mut s = String::new();
    s += &format!("property={}\nclass={}\nmsg={}\nseed={}\nindex={}\ngen={}\n", self.property, self.class, self.msg.replace('\n', " / "), self.seed, self.index, list(&self.gen));
    match &self.sched {
      Some(l) => s += &format!("sched={}\n", list(l)),
      None => s += &format!("sched_seed={}\n", self.sched_seed),
    }
    s += &format!("# case: {}\n# {}\n", c.desc.replace('\n', "\n#   "), c.strategy);
    for t in c.trace.iter().take(4000) {
      s += &format!("# {}\n", t.replace('\n', " / "));
    }
    let tmp = format!("{}.tmp", path);
    std::fs::write(&tmp, s).unwrap();
    std::fs::rename(&tmp, path).unwrap();
  }
  fn read(path: &str) -> Replay {
    let s = std::fs::read_to_string(path).unwrap_or_else(|e| {
      eprintln!("{}: {}", path, e);
      std::process::exit(2)
    });
    let mut r = Replay { property: String::new(), class: String::new(), msg: String::new(), seed: 0, index: 0, gen: vec![], sched: None, sched_seed: 0 };
    for l in s.lines() {
      if l.starts_with('#') {
        continue;
      }
      if let Some((k, v)) = l.split_once('=') {
        match k {
          "property" => r.property = v.into(),
          "class" => r.class = v.into(),
          "msg" => r.msg = v.into(),
          "seed" => r.seed = v.parse().unwrap_or(0),
          "index" => r.index = v.parse().unwrap_or(0),
          "gen" => r.gen = unlist(v),
          "sched" => r.sched = Some(unlist(v)),
          "sched_seed" => r.sched_seed = v.parse().unwrap_or(0),
          _ => {}
        }
      }
    }
    r
  }
  fn sched(&self) -> Sched {
    match &self.sched {
      Some(l) => Sched::List(l.clone()),
      None => Sched::Seed(self.sched_seed),
    }
  }
}

// ------------------------------------------------------------ shrinking

fn shrink(p: &'static Property, path: &str, millis: u64) {
  let t0 = Instant::now();
  let mut r = Replay::read(path);
  let Some(_) = r.sched else { return };
  let class = r.class.clone();
  let mut gen = r.gen.clone();
  let mut sched = r.sched.clone().unwrap();
  let left = || (t0.elapsed().as_millis() as u64) < millis;
  let save = |gen: &Vec<u32>, sched: &Vec<u32>, r: &mut Replay| {
    let c = run_case(p, G::replay(gen.clone()), Sched::List(sched.clone()), true);
    if let Some((cl, m)) = is_viol(&c.outcome) {
      if cl == r.class {
        r.msg = m.to_string();
        r.gen = gen.clone();
        r.sched = Some(sched.clone());
        r.write(path, &c);
      }
    }
  };
  // returns the schedule that still fails
  let try_ = |gen: &[u32], sched: &[u32], alt: bool| -> Option<(Vec<u32>, Vec<u32>)> {
    let ok = |c: &CaseOut| matches!(is_viol(&c.outcome), Some((cl, _)) if cl == class);
    let c = run_case(p, G::replay(gen.to_vec()), Sched::List(sched.to_vec()), false);
    if ok(&c) {
      return Some((c.gen, c.sched));
    }
    if alt {
      let c = run_case(p, G::replay(gen.to_vec()), Sched::List(vec![]), false);
      if ok(&c) {
        return Some((c.gen, c.sched));
      }
      for s in 0..6 {
        let c = run_case(p, G::replay(gen.to_vec()), Sched::Seed(s), false);
        if ok(&c) {
          return Some((c.gen, c.sched));
        }
      }
    }
    None
  };
  let trim = |v: &mut Vec<u32>| {
    while v.last() == Some(&0) {
      v.pop();
    }
  };
  if try_(&gen, &sched, false).is_none() {
    return;
  }
  save(&gen, &sched, &mut r);
  // the program first
  let mut progress = true;
  let mut last_save = Instant::now();
  while progress && left() {
    progress = false;
    let mut chunk = (gen.len() / 2).max(1);
    loop {
      let mut i = 0;
      while i < gen.len() && left() {
        let end = (i + chunk).min(gen.len());
        let mut cand = gen.clone();
        cand.drain(i..end);
        let mut zero = gen.clone();
        zero[i..end].iter_mut().for_each(|x| *x = 0);
        let mut done = false;
        for c in [cand, zero] {
          if c == gen || !left() {
            continue;
          }
          if let Some((g2, s2)) = try_(&c, &sched, true) {
            let mut g2 = g2;
            trim(&mut g2);
            if g2.len() < gen.len() || (g2.len() == gen.len() && g2 < gen) {
              gen = g2;
              sched = s2;
              progress = true;
              done = true;
              if last_save.elapsed().as_millis() > 1500 {
                save(&gen, &sched, &mut r);
                last_save = Instant::now();
              }
              break;
            }
          }
        }
        if !done {
          i += chunk;
        }
      }
      if chunk == 1 {
        break;
      }
      chunk /= 2;
    }
    for i in 0..gen.len() {
      while i < gen.len() && gen[i] > 0 && left() {
        let mut c = gen.clone();
        c[i] /= 2;
        let mut d = gen.clone();
        d[i] -= 1;
        if let Some((_, s2)) = try_(&c, &sched, true) {
          gen = c;
          sched = s2;
          progress = true;
        } else if let Some((_, s2)) = try_(&d, &sched, true) {
          gen = d;
          sched = s2;
          progress = true;
        } else {
          break;
        }
      }
    }
  }
  save(&gen, &sched, &mut r);
  // then the schedule: fewer deviations from the default choice
  trim(&mut sched);
  let mut progress = true;
  while progress && left() {
    progress = false;
    let mut chunk = (sched.len() / 2).max(1);
    loop {
      let mut i = 0;
      while i < sched.len() && left() {
        let end = (i + chunk).min(sched.len());
        if sched[i..end].iter().any(|x| *x != 0) {
          let mut c = sched.clone();
          c[i..end].iter_mut().for_each(|x| *x = 0);
          if try_(&gen, &c, false).is_some() {
            sched = c;
            trim(&mut sched);
            progress = true;
          }
        }
        i = end;
      }
      if chunk == 1 {
        break;
      }
      chunk /= 2;
    }
  }
  save(&gen, &sched, &mut r);
}

// ------------------------------------------------------------ parent

fn exe() -> Command {
  Command::new(std::env::current_exe().unwrap())
}

struct W {
  ch: Child,
  base: String,
  id: u64,
  gen: u64,
  last: [u8; 8],
  since: Instant,
}

fn check(p: &'static Property, tier: &str, seed: u64, dir: &str) -> i32 {
  let t0 = Instant::now();
  let quick = tier != "thorough";
  let mut secs: u64 = if quick { 22 } else { 600 };
  if let Some(s) = std::env::var("DST_SECS").ok().and_then(|s| s.parse().ok()) {
    secs = s;
  }
  let max: u64 = std::env::var("DST_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
  let nw: u64 = std::env::var("DST_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|x| x.get() as u64).unwrap_or(8).clamp(2, 16));
  let tmp = format!("{}/build/run-{}-{}", dir, p.id, std::process::id());
  std::fs::create_dir_all(&tmp).unwrap();
  println!("{}: seed={} tier={} workers={} seconds={}", p.id, seed, tier, nw, secs);
  let deadline = t0 + Duration::from_secs(secs);
  let spawn = |id: u64, gen: u64, start: u64| -> W {
    let base = format!("{}/w{}-{}", tmp, id, gen);
    let left = deadline.saturating_duration_since(Instant::now()).as_millis() as u64;
    let ch = exe()
      .args(["worker", p.id, &seed.to_string(), &start.to_string(), &nw.to_string(), &left.to_string(), &max.to_string(), &base])
      .stdin(Stdio::null())
      .spawn()
      .unwrap();
    W { ch, base, id, gen, last: [0xff; 8], since: Instant::now() }
  };
  let mut ws: Vec<W> = (0..nw).map(|i| spawn(i, 0, i)).collect();
  let mut bases: Vec<String> = vec![];
  let mut viol: Option<String> = None; // a .viol file
  let mut suspects: Vec<(u64, &'static str)> = vec![];
  let mut errors = 0u64;
  let mut lost = 0u64;
  while !ws.is_empty() && viol.is_none() {
    std::thread::sleep(Duration::from_millis(20));
    let mut k = 0;
    while k < ws.len() {
      let cur = read_cur(&ws[k].base);
      let done = ws[k].ch.try_wait().unwrap();
      match done {
        Some(stt) => {
          let w = ws.swap_remove(k);
          bases.push(w.base.clone());
          if stt.code() == Some(3) {
            viol = Some(format!("{}.viol", w.base));
            break;
          } else if stt.code() == Some(0) {
            let next = cur.1;
            if Instant::now() + Duration::from_millis(300) < deadline && next < max {
              ws.push(spawn(w.id, w.gen + 1, next));
            }
          } else {
            errors += 1;
            lost += 1;
            if stt.code() == Some(21) {
              eprintln!("worker reports a harness error at index {}", cur.0);
              let _ = std::fs::remove_dir_all(&tmp);
              return 2;
            }
            suspects.push((cur.0, if stt.signal().is_some() { "crash" } else { "abort" }));
            break;
          }
          continue;
        }
        None => {
          if cur.2 != ws[k].last {
            ws[k].last = cur.2;
            ws[k].since = Instant::now();
          } else if ws[k].since.elapsed() > Duration::from_secs(25) {
            let mut w = ws.swap_remove(k);
            let _ = w.ch.kill();
            let _ = w.ch.wait();
            bases.push(w.base.clone());
            suspects.push((cur.0, "hang"));
            lost += 1;
            break;
          }
          k += 1;
        }
      }
    }
    if let Some((i, kind)) = suspects.pop() {
      // confirm in a fresh process
      let c = confirm(p, seed, i, &tmp);
      if c && !p.inconclusive.contains(&kind) {
        let (gs, ss) = seeds(p, seed, i);
        let mut g = G::seed(gs);
        let prep = (p.gen)(&mut g);
        let path = format!("{}/crash.viol", tmp);
        let r = Replay { property: p.id.into(), class: kind.into(), msg: format!("the simulated program ends in a {} of the whole process", kind), seed, index: i, gen: g.rec.clone(), sched: None, sched_seed: ss };
        let c = CaseOut { outcome: Outcome::Ok, desc: prep.desc, gen: g.rec, sched: vec![], steps: 0, now: 0, hash: 0, threads: 0, faults: Default::default(), probes: Default::default(), nontrivial: false, trace: vec![], strategy: format!("{:?}", prep.cfg.strategy) };
        r.write(&path, &c);
        viol = Some(path);
      } else {
        if c {
          lost += 0;
        }
        if errors > 50 {
          break;
        }
        let w = ws.len() as u64;
        let _ = w;
        if Instant::now() + Duration::from_millis(500) < deadline {
          ws.push(spawn(1000 + errors, 0, i + nw));
        }
      }
    }
  }
  for w in ws.iter_mut() {
    let _ = w.ch.kill();
    let _ = w.ch.wait();
  }
  // merge
  let mut m: BTreeMap<String, u64> = BTreeMap::new();
  let mut set: HashSet<u64> = HashSet::new();
  let mut samples: Vec<String> = vec![];
  for b in &bases {
    if let Ok(s) = std::fs::read_to_string(format!("{}.stats", b)) {
      for l in s.lines() {
        if let Some(x) = l.strip_prefix("sample ") {
          if samples.len() < 5 {
            samples.push(x.to_string());
          }
        } else if let Some((k, v)) = l.rsplit_once(' ') {
          let t = m.entry(k.to_string()).or_insert(0);
          *t = t.saturating_add(v.parse::<u64>().unwrap_or(0));
        }
      }
    }
    if let Ok(d) = std::fs::read(format!("{}.stats.set", b)) {
      for c in d.chunks_exact(8) {
        set.insert(u64::from_le_bytes(c.try_into().unwrap()));
      }
    }
  }
  let get = |k: &str| m.get(k).copied().unwrap_or(0);
  let explore_s = t0.elapsed().as_secs_f64();
  let mut code = 0;
  let mut nviol = 0;
  if let Some(v) = viol {
    nviol = 1;
    let ms: u64 = std::env::var("DST_SHRINK_MS").ok().and_then(|s| s.parse().ok()).unwrap_or(if quick { 12_000 } else { 40_000 });
    // shrink in a child so that a crash cannot take the report with it
    let st = exe().args(["shrink", p.id, &v, &ms.to_string()]).stdin(Stdio::null()).spawn().and_then(|mut c| {
      let t = Instant::now();
      loop {
        if let Some(s) = c.try_wait()? {
          return Ok(s);
        }
        if t.elapsed() > Duration::from_millis(ms + 15_000) {
          let _ = c.kill();
          return c.wait();
        }
        std::thread::sleep(Duration::from_millis(20));
      }
    });
    let _ = st;
    let r = Replay::read(&v);
    let rdir = format!("{}/replays", dir);
    std::fs::create_dir_all(&rdir).unwrap();
    let out = format!("{}/{}-{}-{}.replay", rdir, p.id, seed, r.index);
    std::fs::copy(&v, &out).unwrap();
    let again = exe().args(["replay", &out]).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).status().map(|s| s.code()).unwrap_or(None);
    println!("{} [{}] {}", p.id, r.class, r.msg);
    for l in std::fs::read_to_string(&out).unwrap().lines().filter(|l| l.starts_with("# ")).take(12) {
      println!("  {}", l);
    }
    println!("seed={} index={} replay reproduces: {}", r.seed, r.index, if again == Some(1) { "yes" } else { "NO" });
    println!("VIOLATION property={} replay={}", p.id, out);
    code = 1;
  } else if get("evaluations") == 0 {
    eprintln!("no run was evaluated ({} worker failures)", lost);
    code = 2;
  }
  let ev = get("evaluations");
  let mut s = String::new();
  s += &format!("{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n", json_str(p.id), json_str(if quick { "quick" } else { "thorough" }), seed);
  s += " \"coverage\": {\n";
  s += &format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n", ev, set.len(), json_str(p.rule));
  s += &format!("  \"samples\": [{}],\n", samples.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(", "));
  s += &format!("  \"nontrivial_runs\": {},\n  \"discarded_runs\": {},\n  \"inconclusive_runs\": {},\n", get("nontrivial"), get("discarded"), get("inconclusive"));
  s += &format!("  \"runs_per_hour\": {},\n  \"seeds_per_hour\": {},\n", (ev as f64 / explore_s * 3600.0) as u64, (get("runs") as f64 / explore_s * 3600.0) as u64);
  s += &format!("  \"simulated_time_s\": {:.6},\n  \"scheduling_steps\": {},\n  \"simulated_threads\": {},\n", get("sim_us") as f64 / 1e6, get("steps"), get("sim_threads"));
  s += &format!("  \"faults_injected\": {{{}}},\n", m.iter().filter(|(k, _)| k.starts_with("fault:")).map(|(k, v)| format!("{}: {}", json_str(&k[6..]), v)).collect::<Vec<_>>().join(", "));
  s += &format!("  \"reached\": {{{}}},\n", m.iter().filter(|(k, _)| k.starts_with("probe:")).map(|(k, v)| format!("{}: {}", json_str(&k[6..]), v)).collect::<Vec<_>>().join(", "));
  s += &format!("  \"determinism_reruns\": {},\n  \"determinism_mismatches\": {},\n", get("determinism_reruns"), get("determinism_mismatches"));
  s += &format!("  \"workers\": {},\n  \"workers_recycled\": {},\n  \"workers_lost\": {},\n", nw, get("recycled"), lost);
  s += &format!("  \"components_real\": {},\n  \"components_stub\": {}\n }},\n", json_str(p.real), json_str(p.stub));
  s += " \"assumptions\": [\"schedules are sampled at the granularity of std::sync, std::thread and std::time calls made by the library under sequential consistency\", \"a clean batch is evidence for the sampled programs and schedules, not a proof\"],\n";
  s += &format!(" \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", t0.elapsed().as_secs_f64(), nviol);
  std::fs::create_dir_all(format!("{}/evidence", dir)).unwrap();
  std::fs::write(format!("{}/evidence/{}.json", dir, p.id), s).unwrap();
  let _ = std::fs::remove_dir_all(&tmp);
  println!("{}: {} evaluated ({} distinct non-trivial), {} discarded, {} inconclusive, {:.1} s, determinism mismatches {}", p.id, ev, set.len(), get("discarded"), get("inconclusive"), t0.elapsed().as_secs_f64(), get("determinism_mismatches"));
  if code == 0 {
    println!("OK property={}", p.id);
  }
  code
}

fn read_cur(base: &str) -> (u64, u64, [u8; 8]) {
  let b = std::fs::read(format!("{}.cur", base)).unwrap_or_default();
  let mut a = [0u8; 8];
  let mut n = [0u8; 8];
  if b.len() >= 8 {
    a.copy_from_slice(&b[0..8]);
  }
  if b.len() >= 16 {
    n.copy_from_slice(&b[8..16]);
  }
  (u64::from_le_bytes(a), u64::from_le_bytes(n), a)
}

fn confirm(p: &Property, seed: u64, i: u64, _tmp: &str) -> bool {
  let mut c = exe().args(["one", p.id, &seed.to_string(), &i.to_string(), "-q"]).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
  let t = Instant::now();
  loop {
    if let Some(s) = c.try_wait().unwrap() {
      return s.code().is_none() || (s.code() != Some(0) && s.code() != Some(1));
    }
    if t.elapsed() > Duration::from_secs(30) {
      let _ = c.kill();
      let _ = c.wait();
      return true;
    }
    std::thread::sleep(Duration::from_millis(20));
  }
}

fn print_case(c: &CaseOut) -> i32 {
  for t in &c.trace {
    println!("{}", t);
  }
  println!("case: {}", c.desc);
  println!("{}", c.strategy);
  println!("steps={} now={} threads={} hash={:016x} probes={:?} nontrivial={}", c.steps, c.now, c.threads, c.hash, c.probes, c.nontrivial);
  match &c.outcome {
    Outcome::Ok => println!("outcome: ok"),
    Outcome::Fail { class, msg } => println!("outcome: [{}] {}", class, msg),
  }
  is_viol(&c.outcome).is_some() as i32
}

fn main() {
  let a: Vec<String> = std::env::args().collect();
  // fixed addresses, so that nothing can depend on their layout
  unsafe {
    let cur = personality(0xffffffff);
    if cur >= 0 && cur & 0x40000 == 0 && std::env::var_os("DST_NOASLR").is_none() {
      personality(cur as u64 | 0x40000);
      let e = Command::new(std::env::current_exe().unwrap()).args(&a[1..]).env("DST_NOASLR", "1").exec();
      eprintln!("exec: {}", e);
    }
  }
  rt::install_panic_hook();
  let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
  let prop = |id: &str| -> &'static Property {
    props::ALL.iter().copied().find(|p| p.id == id).unwrap_or_else(|| {
      eprintln!("unknown property {}", id);
      std::process::exit(2)
    })
  };
  let num = |i: usize| -> u64 { a[i].parse().unwrap() };
  let code = match a.get(1).map(|s| s.as_str()) {
    Some("check") => check(prop(&a[2]), &opt("--tier").unwrap_or("quick".into()), opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1), &opt("--dir").unwrap_or(".".into())),
    Some("worker") => worker(prop(&a[2]), num(3), num(4), num(5), num(6), num(7), &a[8]),
    Some("shrink") => {
      shrink(prop(&a[2]), &a[3], num(4));
      0
    }
    // run one seed index
    Some("one") => {
      let p = prop(&a[2]);
      let (gs, ss) = seeds(p, num(3), num(4));
      let quiet = a.get(5).map(|x| x == "-q").unwrap_or(false);
      let c = run_case(p, G::seed(gs), Sched::Seed(ss), !quiet);
      print_case(&c)
    }
    Some("replay") => {
      let r = Replay::read(&a[2]);
      let p = prop(&r.property);
      let c = run_case(p, G::replay(r.gen.clone()), r.sched(), true);
      let v = print_case(&c);
      if v == 1 {
        println!("VIOLATION property={} replay={}", p.id, a[2]);
      }
      v
    }
    // determinism proof over many seeds: print one line per seed
    Some("hashes") => {
      let p = prop(&a[2]);
      for i in num(4)..num(5) {
        let (gs, ss) = seeds(p, num(3), i);
        let c = run_case(p, G::seed(gs), Sched::Seed(ss), false);
        println!("{} {:016x} {} {} {:?}", i, c.hash, c.steps, c.sched.len(), c.outcome);
      }
      0
    }
    _ => {
      eprintln!("usage: dst check ID --tier T --seed N --dir D | replay FILE | one ID SEED INDEX | hashes ID SEED FROM TO");
      2
    }
  };
  std::process::exit(code);
}
