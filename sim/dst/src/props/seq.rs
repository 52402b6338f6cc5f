//! Single-threaded pipelines against the reference model: C01-C06.
use super::conc::settle;
use crate::ex::*;
use crate::model;
use crate::real::*;
use crate::util::*;
use crate::val::*;
use crate::{viol, Property};
use std::sync::Arc;

pub const REAL: &str = "the crate's observables, operators, subjects, schedulers, subscriptions and internals, unmodified";
pub const STUB: &str = "std::sync, std::thread and std::time are the simulator's; sources, closures and subscribers are generated";
pub const HARNESS: &[&str] = &["deadlock", "livelock", "panic", "hang", "crash", "abort"];

pub fn same(model: &[(i32, Ev)], real: &[(i32, Ev)]) -> bool {
  model.len() == real.len()
    && model.iter().zip(real).all(|(a, b)| {
      a.0 == b.0
        && match (&a.1, &b.1) {
          (Ev::E(ANY), Ev::E(_)) => true,
          (x, y) => x == y,
        }
    })
}
pub fn threaded(e: &Ex) -> bool {
  e.any(&|e| matches!(e, Ex::Interval(_) | Ex::Timer(_))) || e.has_op(&|o| matches!(o, Op::ObsOn | Op::SubOn | Op::Debounce(_) | Op::Timeout(_)))
}
/// attempts as good as unlimited
pub const ENDLESS: usize = 100_000;
/// does the expression ask for endlessly many items or attempts?
pub fn unlimited(e: &Ex) -> bool {
  e.any(&|e| matches!(e, Ex::IterInf | Ex::Repeat(_))) || e.has_op(&|o| matches!(o, Op::Retry(0) | Op::Retry(ENDLESS..) | Op::RetryWhen(_) | Op::StartWithInf))
}
/// Is the program certain to end? (Modelled programs are run on the model
/// first; the others must not contain anything endless.)
pub fn finite(p: &Prog) -> Result<(), &'static str> {
  // every attempt of a source that fails at once is a few more stack frames
  let mut attempts = 1usize;
  p.ex.walk(&mut |e| {
    if let Ex::U(Op::Retry(n), _) = e {
      if *n < ENDLESS {
        attempts = attempts.saturating_mul((*n).max(1));
      }
    }
  });
  if attempts > 300 {
    return Err("too many attempts");
  }
  let inf = unlimited(&p.ex);
  let r = if inf { model::search(p, |_| false).map(|_| ()) } else { model::run(p, &mut vec![]).map(|_| ()) };
  match r {
    Ok(_) => Ok(()),
    Err("not modelled" | "subscribed a finished subject" | "several observers of one subject" | "re-entrant window") => {
      if inf {
        Err("endless")
      } else if p.size() > 150 {
        // its work cannot be bounded in advance
        Err("large and not modelled")
      } else {
        Ok(())
      }
    }
    Err(e) => Err(e),
  }
}

fn acts1(gn: &mut Gen, unsub: bool, subs: usize) -> Vec<Act> {
  let mut v = gn.emits();
  // subscribe mostly at the start
  let at = if gn.g.chance(1, 5) { gn.g.us(v.len() + 1) } else { 0 };
  v.insert(at, Act::Sub(0));
  for j in 1..subs {
    let at = gn.g.us(v.len() + 1);
    v.insert(at, Act::Sub(j));
  }
  if unsub {
    for _ in 0..1 + gn.g.weighted(&[4, 1, 1]) {
      let at = gn.g.us(v.len() + 1);
      let j = gn.g.us(subs);
      v.insert(at, Act::Unsub(j));
    }
  }
  v
}

pub struct Shape {
  pub prof: Prof,
  pub unsub: (u32, u32),
  pub selfunsub: (u32, u32),
  pub rsg: (u32, u32),
  pub subs: usize,
}
pub fn program(g: &mut G, sh: &Shape) -> Prog {
  let mut gn = Gen::new(g, sh.prof.clone());
  let depth = 1 + gn.g.int(sh.prof.depth);
  let ex = gn.ex(depth, false);
  let unsub = sh.unsub.0 > 0 && gn.g.chance(sh.unsub.0, sh.unsub.1);
  let mut acts = acts1(&mut gn, unsub, sh.subs);
  let mut rsg = None;
  if sh.rsg.0 > 0 && gn.g.chance(sh.rsg.0, sh.rsg.1) {
    let hot: Vec<usize> = (0..gn.srcs.len()).filter(|i| gn.srcs[*i].mode == Mode::Hot).collect();
    if !hot.is_empty() {
      let s = *gn.g.pick(&hot);
      rsg = Some((s, 1 + gn.g.us(4)));
    }
  }
  if acts.is_empty() {
    acts.push(Act::Sub(0));
  }
  let mut unsub_at = vec![None; sh.subs];
  if sh.selfunsub.0 > 0 && gn.g.chance(sh.selfunsub.0, sh.selfunsub.1) {
    let j = gn.g.us(sh.subs);
    unsub_at[j] = Some(1 + gn.g.us(3));
  }
  let srcs = gn.srcs;
  Prog { srcs, ex, rsg, subs: sh.subs, unsub_at, nest: None, emit_at: vec![], inside: None, acts, lin: false }
}

/// Callbacks through which the sources emit re-entrantly.
fn echoes(g: &mut G, p: &mut Prog) {
  if !p.srcs.is_empty() && g.chance(1, 3) {
    for _ in 0..1 + g.us(2) {
      let e = match g.int(3) {
        0 => SEv::C,
        1 => SEv::E,
        _ => SEv::N(g.range(0, 3)),
      };
      let x = (g.us(p.subs), g.us(4), g.us(p.srcs.len()), e);
      p.emit_at.push(x);
    }
  }
}
/// ... and operator closures that do
fn insides(g: &mut G, p: &mut Prog) {
  if g.chance(1, 8) {
    super::race::inside(g, p, true);
  }
}

pub fn stats(p: &Prog) {
  p.ex.walk(&mut |e| match e {
    Ex::Multi(m, _) => probe(match m {
      Mu::Merge => "op-merge",
      Mu::Concat => "op-concat",
      Mu::Zip => "op-zip",
      Mu::Combine => "op-combine_latest",
      Mu::Amb => "op-amb",
      Mu::SeqEq => "op-sequence_equal",
    }),
    Ex::Trig(t, _, _) => probe(match t {
      Tr::TakeUntil => "op-take_until",
      Tr::SkipUntil => "op-skip_until",
      Tr::Sample => "op-sample",
      Tr::Switch => "op-switch_on_next",
    }),
    Ex::FlatMap(..) => probe("op-flat_map"),
    Ex::Resume(..) => probe("op-on_error_resume_next"),
    Ex::Win(..) => probe("op-window"),
    Ex::Group(..) => probe("op-group_by"),
    Ex::U(Op::Retry(_), _) => probe("op-retry"),
    Ex::U(Op::RetryWhen(_), _) => probe("op-retry_when"),
    Ex::U(Op::Delay(_) | Op::Debounce(_) | Op::Timeout(_) | Op::ObsOn | Op::SubOn, _) | Ex::Interval(_) | Ex::Timer(_) => probe("op-threaded"),
    Ex::U(..) => probe("op-unary"),
    _ => {}
  });
}

pub fn cfg_for(g: &mut G, p: &Prog) -> Cfg {
  let mut c = if threaded(&p.ex) { Cfg::conc(g, 0) } else { Cfg::seq() };
  c.budget = 2_000_000;
  c
}

/// Compare the real run with the model.
fn refine(g: &mut G, p: Prog, taps: bool) -> Prep {
  let cfg = cfg_for(g, &p);
  let p = Arc::new(p);
  Prep {
    desc: p.to_string(),
    cfg,
    body: Box::new(move || {
      if let Err(e) = finite(&p) {
        discard(e);
      }
      stats(&p);
      let w = World::new(p.clone(), false);
      let root = w.root();
      w.drive(&root, false, |_, _| {});
      let s = w.s.b();
      let mut shown = None;
      let r = model::search(&p, |o| {
        let ok = o.logs.iter().zip(&s.logs).all(|(a, b)| same(a, b))
          && (!taps || {
            let mut keys: Vec<_> = o.taps.keys().chain(s.taps.keys()).collect();
            keys.sort();
            keys.dedup();
            let e = vec![];
            keys.iter().all(|k| same(o.taps.get(k).unwrap_or(&e), s.taps.get(k).unwrap_or(&e)))
          });
        if !ok && shown.is_none() {
          let mut m = String::new();
          for (j, l) in o.logs.iter().enumerate() {
            if !same(l, &s.logs[j]) {
              m += &format!("subscriber {}: expected [{}] but got [{}]; ", j, show(l), show(&s.logs[j]));
            }
          }
          if m.is_empty() {
            let f = |t: &std::collections::BTreeMap<(usize, usize), Vec<(i32, Ev)>>| t.iter().map(|(k, l)| format!("{}/{}: {}", k.0, k.1, show(l))).collect::<Vec<_>>().join("; ");
            m = format!("tap/window/group logs: expected {{{}}} but got {{{}}}", f(&o.taps), f(&s.taps));
          }
          shown = Some(m);
        }
        if ok && o.logs.iter().any(|l| !l.is_empty()) {
          nontrivial();
        }
        ok
      });
      for l in &s.logs {
        for (st, e) in l {
          observe(*st as u64);
          observe(hash_bytes(e.to_string().as_bytes()));
        }
      }
      match r {
        Err(e) => {
          drop(s);
          discard(e)
        }
        Ok(true) => {}
        Ok(false) => {
          drop(s);
          viol!("output", "the output is not the one the definitions assign: {} (event@act)", shown.unwrap_or_default())
        }
      }
      drop(s);
      drop(root);
      w.clear();
    }),
  }
}

// ------------------------------------------------------------ C01

pub static C01: Property = Property {
  id: "C01",
  gen: gen_c01,
  inconclusive: HARNESS,
  real: REAL,
  stub: STUB,
  rule: "a case is a generated pipeline (every operator, depth up to 4, up to 4 sources with possibly ill-formed scripts), an interleaving of its hot sources and up to two subscribers; non-trivial when a subscriber saw a terminal or a source emitted after its own terminal",
};
pub fn all_ops_prof() -> Prof {
  let mut f = Prof::base();
  f.w = [3, 8, 3, 2, 2, 1, 2, 2];
  f.depth = 4;
  f.vary = true;
  f
}
fn gen_c01(g: &mut G) -> Prep {
  let mut f = all_ops_prof();
  f.ill = true;
  f.ends = [4, 4, 1];
  if g.chance(1, 2) {
    f.w[7] = 0;
    f.infinite = g.chance(1, 6);
  }
  let subs = 1 + g.us(2);
  let mut p = program(g, &Shape { prof: f, unsub: (1, 5), selfunsub: (1, 8), rsg: (1, 10), subs });
  echoes(g, &mut p);
  insides(g, &mut p);
  // the statement is about one history at a time (races are C19's): library
  // threads run, but a thread is only left when it blocks
  let mut cfg = Cfg::seq();
  cfg.budget = 2_000_000;
  let p = Arc::new(p);
  Prep {
    desc: p.to_string(),
    cfg,
    body: Box::new(move || {
      if let Err(e) = finite(&p) {
        discard(e);
      }
      stats(&p);
      let thr = threaded(&p.ex);
      let w = World::new(p.clone(), false);
      let root = w.root();
      w.drive(&root, thr, |_, _| {});
      let s = w.s.b();
      for (j, l) in s.logs.iter().enumerate() {
        let t = l.iter().position(|e| !matches!(e.1, Ev::N(_)));
        if let Some(t) = t {
          nontrivial();
          if t + 1 < l.len() {
            let m = show(l);
            drop(s);
            viol!("contract", "subscriber {} received something after its terminal: [{}] (event@act)", j, m);
          }
        }
        for e in l {
          observe(e.0 as u64);
          observe(hash_bytes(e.1.to_string().as_bytes()));
        }
      }
      drop(s);
      drop(root);
      w.clear();
    }),
  }
}

// ------------------------------------------------------------ C02

pub static C02: Property = Property {
  id: "C02",
  gen: gen_c02,
  inconclusive: &[],
  real: REAL,
  stub: STUB,
  rule: "a case is one source (probe script or creation function) under a chain of single-source operators with generated parameters; non-trivial when the subscriber received at least one event",
};
use super::huge::HUGE;
/// A short pipeline over very long sequences.
fn gen_huge(g: &mut G, multi: bool) -> Prep {
  g.large = true;
  probe("huge-case");
  let kind = if multi { g.int(8) } else { 0 };
  // (what is quadratic in the library or the model is kept shorter)
  let n = if kind == 7 { *g.pick(&HUGE[..6]) } else { *g.pick(HUGE) };
  let range = |g: &mut G, n: usize| Ex::Range(g.range(-1, 2), n as i64);
  let mut e = range(g, n);
  let near = |g: &mut G| match g.int(5) {
    0 => g.us(4),
    1 if kind < 7 => *g.pick(HUGE),
    2 => n / 2,
    _ => (n + g.us(3)).saturating_sub(1),
  };
  if multi {
    e = match kind {
      0 => Ex::FlatMap(Box::new(e), Arc::new(vec![Ex::Arg])),
      1 => {
        let k = 1 + near(g);
        Ex::Win(k, Box::new(e), Arc::new(if k > n / 8 && g.chance(1, 2) { Ex::U(Op::Count, Box::new(Ex::Arg)) } else { Ex::Arg }))
      }
      2 => match g.int(2) {
        0 => Ex::Group(1 + g.us(3), Box::new(e), Arc::new(Ex::U(Op::Count, Box::new(Ex::Arg)))),
        _ => Ex::Group(1 + g.us(300), Box::new(e), Arc::new(Ex::Arg)),
      },
      k => {
        let m = [Mu::Merge, Mu::Concat, Mu::Zip, Mu::Combine, Mu::SeqEq][k as usize - 3];
        let a = if g.chance(1, 3) { n } else { near(g) };
        let b = range(g, a);
        Ex::Multi(m, if g.chance(1, 2) { vec![e, b] } else { vec![b, e] })
      }
    };
  }
  for _ in 0..if multi { g.us(2) } else { 1 + g.us(3) } {
    let o = match g.int(22) {
      0 | 1 => Op::Take(near(g)),
      2 | 3 => Op::TakeLast(near(g)),
      4 | 5 => Op::Skip(near(g)),
      6 | 7 => Op::SkipLast(near(g)),
      8 | 9 => Op::ElementAt(1 + near(g)),
      10 | 11 => Op::Buffer(1 + near(g)),
      12 | 13 => Op::Count,
      14 => Op::Sum,
      15 => Op::SumAndCount,
      16 => Op::Scan(g.int(3) as u8),
      17 => Op::Distinct,
      18 => Op::Last,
      19 => Op::Min,
      20 => Op::Max,
      _ => Op::Filter(g.int(4) as u8),
    };
    e = Ex::U(o, Box::new(e));
  }
  let p = Prog { srcs: vec![], ex: e, rsg: None, subs: 1, unsub_at: vec![None], nest: None, emit_at: vec![], inside: None, acts: vec![Act::Sub(0)], lin: false };
  let mut r = refine(g, p, false);
  r.cfg.budget = 30_000_000;
  r
}
fn gen_c02(g: &mut G) -> Prep {
  if g.chance(1, 800) {
    return gen_huge(g, false);
  }
  let mut f = Prof::base();
  f.w = [1, 14, 0, 0, 0, 2, 0, 0];
  f.leaf = [4, 1];
  f.depth = 5;
  f.max_srcs = 1;
  f.max_items = 8;
  f.impolite = false;
  f.infinite = g.chance(1, 8);
  let mut p = program(g, &Shape { prof: f, unsub: (0, 1), selfunsub: (0, 1), rsg: (0, 1), subs: 1 });
  if g.chance(1, 2) {
    echoes(g, &mut p);
  }
  refine(g, p, true)
}

// ------------------------------------------------------------ C03

pub static C03: Property = Property {
  id: "C03",
  gen: gen_c03,
  inconclusive: &[],
  real: REAL,
  stub: STUB,
  rule: "a case is a pipeline with combining operators over 1..4 hot, cold or subject sources, nested with single-source operators, and one sequential interleaving; non-trivial when the subscriber received at least one event",
};
fn gen_c03(g: &mut G) -> Prep {
  if g.chance(1, 800) {
    return gen_huge(g, true);
  }
  let mut f = Prof::base();
  f.w = [3, 4, 6, 4, 3, 0, 0, 0];
  f.leaf = [8, 1];
  f.depth = 3;
  f.mode = [2, 5, 1];
  f.impolite = false;
  f.tap = false;
  f.infinite = g.chance(1, 20);
  let small = g.chance(1, 2);
  if small {
    f.depth = 1;
  }
  let mut p = program(g, &Shape { prof: f, unsub: (0, 1), selfunsub: (0, 1), rsg: (1, 6), subs: 1 });
  if !p.ex.any(&|e| matches!(e, Ex::Multi(..) | Ex::Trig(..) | Ex::FlatMap(..))) && p.rsg.is_none() {
    // wrap: there must be a combining operator
    let e = std::mem::replace(&mut p.ex, Ex::Never);
    let m = *g.pick(&[Mu::Merge, Mu::Concat, Mu::Zip, Mu::Combine, Mu::Amb, Mu::SeqEq]);
    p.ex = Ex::Multi(m, vec![e.clone(), e]);
  }
  if g.chance(1, 2) {
    echoes(g, &mut p);
  }
  refine(g, p, false)
}

// ------------------------------------------------------------ C04

pub static C04: Property = Property {
  id: "C04",
  gen: gen_c04,
  inconclusive: &[],
  real: REAL,
  stub: STUB,
  rule: "a case is a pipeline of single-source, combining and recovery operators whose sources mostly fail, with different scripts for later subscriptions; non-trivial when the subscriber received at least one event",
};
/// One line of operators over one source, some of which hop to other threads;
/// also what precedes each hop.
pub fn line(gn: &mut Gen) -> (Ex, Vec<Ex>) {
  let mut e = gn.leaf(false);
  let mut hops = 0;
  // what precedes a hop runs ahead of what follows it: it must end by itself
  let mut heads = vec![];
  for _ in 0..1 + gn.g.int(6) {
    let head = e.clone();
    let a = Box::new(e);
    e = match gn.g.weighted(&[6, 5, 2, 1, 1]) {
      0 => {
        hops += 1;
        heads.push(head);
        let o = match gn.g.int(6) {
          0 | 1 => Op::ObsOn,
          2 => Op::SubOn,
          3 => Op::Delay(200),
          4 => Op::Timeout(10_000_000_000),
          _ => Op::TimeInterval,
        };
        Ex::U(o, a)
      }
      1 => Ex::U(gn.op(), a),
      2 => match gn.g.int(3) {
        0 => Ex::U(Op::Retry(gn.g.us(5)), a),
        1 => Ex::U(Op::RetryWhen(gn.g.int(5) as u8), a),
        _ => {
          let n = 1 + gn.g.us(2);
          let l = (0..n).map(|_| gn.leaf(false)).collect();
          Ex::Resume(a, Arc::new(l))
        }
      },
      3 => {
        let n = 1 + gn.g.us(2);
        let l = (0..n).map(|_| if gn.g.chance(1, 2) { Ex::Just(gn.g.range(0, 3)) } else { Ex::Arg }).collect();
        Ex::FlatMap(a, Arc::new(l))
      }
      _ => {
        if gn.g.chance(1, 2) {
          Ex::Win(1 + gn.g.us(3), a, Arc::new(Ex::Arg))
        } else {
          Ex::Group(1 + gn.g.us(3), a, Arc::new(Ex::Arg))
        }
      }
    };
  }
  if hops == 0 {
    e = Ex::U(Op::TimeInterval, Box::new(e));
  }
  (e, heads)
}
/// A single line of operators some of which hand events to other threads or
/// hold them back, so that what arrives is what would arrive without them.
fn gen_line(g: &mut G) -> Prep {
  let mut f = Prof::base();
  f.w = [1, 0, 0, 0, 0, 0, 0, 0];
  f.leaf = [6, 1];
  f.mode = [5, 2, 1];
  f.ends = [2, 6, 1];
  f.vary = true;
  f.impolite = false;
  f.tap = false;
  f.max_items = 4;
  let mut gn = Gen::new(g, f);
  let (e, heads) = line(&mut gn);
  let acts = acts1(&mut gn, false, 1);
  let cfg = Cfg::conc(gn.g, 0);
  let p = Arc::new(Prog { srcs: gn.srcs, ex: e, rsg: None, subs: 1, unsub_at: vec![None], nest: None, emit_at: vec![], inside: None, acts, lin: true });
  Prep {
    desc: p.to_string(),
    cfg,
    body: Box::new(move || {
      for h in heads.into_iter().chain([p.ex.clone()]) {
        let q = Prog { ex: h, ..(*p).clone() };
        if let Err(e) = finite(&q) {
          discard(e);
        }
      }
      stats(&p);
      probe("one-line-case");
      let w = World::new(p.clone(), false);
      let root = w.root();
      w.drive(&root, true, |_, _| {});
      crate::real::calm(50_000_000);
      settle(0);
      let strip = |l: &[(i32, Ev)]| -> Vec<(i32, Ev)> { l.iter().map(|e| (0, e.1.clone())).collect() };
      let s = w.s.b();
      let got = strip(&s.logs[0]);
      let mut shown = String::new();
      let r = model::search(&p, |o| {
        let want = strip(&o.logs[0]);
        if shown.is_empty() {
          shown = show(&want);
        }
        same(&want, &got)
      });
      for (_, e) in &got {
        observe(hash_bytes(e.to_string().as_bytes()));
      }
      drop(s);
      if !got.is_empty() {
        nontrivial();
      }
      match r {
        Err(e) => discard(e),
        Ok(true) => {}
        Ok(false) => viol!("output", "the output is not the one the definitions assign: expected [{}] but got [{}]", shown, show(&got)),
      }
      w.unsub(0);
      settle(20_000);
      drop(root);
      w.clear();
    }),
  }
}
fn gen_c04(g: &mut G) -> Prep {
  if g.chance(1, 1500) {
    return super::huge::c04(g);
  }
  if g.chance(1, 6) {
    return gen_line(g);
  }
  if g.chance(1, 6) {
    return super::race::gen_c04_race(g);
  }
  let mut f = Prof::base();
  f.w = [2, 4, 2, 1, 1, 1, 5, 0];
  f.leaf = [6, 1];
  f.depth = 4;
  f.mode = [5, 2, 1];
  f.ends = [2, 6, 1];
  f.vary = true;
  f.impolite = false;
  f.tap = false;
  f.max_items = 4;
  let mut p = program(g, &Shape { prof: f, unsub: (0, 1), selfunsub: (0, 1), rsg: (0, 1), subs: 1 });
  if g.chance(1, 3) {
    echoes(g, &mut p);
  }
  refine(g, p, false)
}

// ------------------------------------------------------------ C05 (one thread)

pub fn gen_c05_seq(g: &mut G) -> Prep {
  let mut f = all_ops_prof();
  f.mode = [2, 5, 3];
  if g.chance(1, 2) {
    f.w[7] = 0;
  }
  let subs = 1 + g.us(2);
  let mut p = program(g, &Shape { prof: f, unsub: (5, 6), selfunsub: (1, 4), rsg: (1, 12), subs });
  let using = g.weighted(&[5, 1, 1]) as u8;
  echoes(g, &mut p);
  insides(g, &mut p);
  let cfg = cfg_for(g, &p);
  let p = Arc::new(p);
  Prep {
    desc: format!("{}{}", p, ["", " [unsubscribing by dropping a Using guard]", " [unsubscribing by unwinding through a Using guard]"][using as usize]),
    cfg,
    body: Box::new(move || {
      if let Err(e) = finite(&p) {
        discard(e);
      }
      stats(&p);
      let thr = threaded(&p.ex);
      let w = World::new(p.clone(), false);
      {
        let mut s = w.s.b();
        s.check_c05 = true;
        s.using = using;
      }
      let root = w.root();
      w.drive(&root, thr, |w, i| {
        for j in 0..w.p.subs {
          let (h, st) = {
            let s = w.s.b();
            (s.handles[j].clone(), s.state[j])
          };
          let Some(h) = h else { continue };
          let is = h.is_subscribed();
          let want = st == Sub::Active;
          if is != want {
            viol!("is_subscribed", "after act {} is_subscribed() of subscriber {} is {} but its state is {:?}", i, j, is, st);
          }
          if st == Sub::Unsubscribed {
            nontrivial();
          }
        }
      });
      let s = w.s.b();
      for l in &s.logs {
        for e in l {
          observe(e.0 as u64);
          observe(hash_bytes(e.1.to_string().as_bytes()));
        }
      }
      drop(s);
      drop(root);
      w.clear();
    }),
  }
}

// ------------------------------------------------------------ C06

pub static C06: Property = Property {
  id: "C06",
  gen: gen_c06,
  inconclusive: &[],
  real: REAL,
  stub: STUB,
  rule: "a case is a pipeline over instrumented sources, an interleaving and unsubscribe positions; non-trivial when some source subscription had to be torn down while its source still had events (or the subscription ended with a live source before)",
};
fn gen_c06(g: &mut G) -> Prep {
  if g.chance(1, 1500) {
    return super::huge::c06(g);
  }
  if g.chance(1, 4) {
    return super::race::gen_c06_race(g);
  }
  let mut f = all_ops_prof();
  f.tap = false;
  f.mode = [3, 5, 2];
  f.ends = [3, 3, 3];
  if !g.chance(1, 4) {
    f.w[7] = 0;
    f.infinite = g.chance(1, 4);
  }
  let mut p = program(g, &Shape { prof: f, unsub: (1, 2), selfunsub: (1, 6), rsg: (1, 16), subs: 1 });
  if g.chance(1, 4) {
    echoes(g, &mut p);
  }
  let cfg = cfg_for(g, &p);
  let p = Arc::new(p);
  Prep {
    desc: p.to_string(),
    cfg,
    body: Box::new(move || {
      if let Err(e) = finite(&p) {
        discard(e);
      }
      stats(&p);
      let thr = threaded(&p.ex);
      let w = World::new(p.clone(), true);
      let root = w.root();
      w.drive(&root, thr, |w, i| {
        let l = w.live();
        let any = l.iter().any(|l| !l.is_empty());
        let st = w.s.b().state[0];
        if (st == Sub::Terminated || st == Sub::Unsubscribed) && any {
          viol!("still-subscribed", "after act {} the subscription has ended ({:?}) but its sources still see is_subscribed(): (source: subscriptions) {}", i, st, show_live(&l));
        }
        if any {
          probe("live-source-mid-run");
        }
        w.s.b().live.push(l);
      });
      // what the model says must be closed is closed
      let mut why = String::new();
      let mut agree = false;
      let r = model::search(&p, |o| {
        let s = w.s.b();
        if !o.logs.iter().zip(&s.logs).all(|(a, b)| same(a, b)) {
          return false;
        }
        agree = true;
        for (i, (m, r)) in o.live.iter().zip(&s.live).enumerate() {
          for x in 0..m.len() {
            if let Some(k) = r[x].iter().find(|k| !m[x].contains(k)) {
              if why.is_empty() {
                why = format!("after act {} subscription {} of source {} is still subscribed although nothing downstream needs it (open in the reference: {}; open in the library: {})", i, k, x, show_live(m), show_live(r));
              }
              return false;
            }
          }
        }
        for (k, m) in &o.checks {
          let Some(r) = s.checks.get(k) else { continue };
          for (i, (a, b)) in m.iter().zip(r).enumerate() {
            if *a && !*b {
              if why.is_empty() {
                why = format!("subscription {} of source {} still saw is_subscribed() before its emission {}, after it had to be torn down", k.1, k.0, i);
              }
              return false;
            }
          }
          if m.contains(&true) {
            nontrivial();
          }
        }
        true
      });
      match r {
        Err("not modelled") => probe("not-modelled"),
        Err(_) => {}
        Ok(true) => probe("compared-with-model"),
        Ok(false) if agree => viol!("still-subscribed", "{}", why),
        Ok(false) => probe("output-differs"),
      }
      let ended = matches!(w.s.b().state[0], Sub::Terminated | Sub::Unsubscribed);
      if ended {
        nontrivial();
        drop(root);
        holds(&w);
      } else {
        drop(root);
      }
      w.clear();
    }),
  }
}
/// a subject must not hold the observer of an ended subscription any more
pub fn holds(w: &World) {
  let n = w.s.b().subjects.len();
  for i in 0..n {
    let Some(sj) = w.s.b().subjects[i].clone() else { continue };
    // (what a subject does after its terminal is not looked at)
    if w.s.b().subj_over.contains(&i) {
      continue;
    }
    let fresh = Sbj::new(w.p.srcs[i].kind);
    let a = super::subj::clones_of(|| fresh.next(V::new(K::I(1))));
    let b = super::subj::clones_of(|| sj.next(V::new(K::I(1))));
    probe("registrations-counted");
    if b > a {
      viol!("subject-holds", "every subscription has ended but next() of subject s{} still clones its item {} times ({} times with no observers)", i, b, a);
    }
  }
    let (i, h) = {
      let mut s = w.s.b();
      (std::mem::take(&mut s.insts), std::mem::take(&mut s.handles))
    };
    drop(i);
    drop(h);
    let sub = |w: &World| w.leaked().into_iter().filter(|t| t.starts_with("subscriber's")).collect::<Vec<_>>();
    let a = sub(w);
    let sj = std::mem::take(&mut w.s.b().subjects);
    let had = sj.iter().any(|s| s.is_some());
    drop(sj);
    let b = sub(w);
    if had {
      probe("subject-release-checked");
    }
    if a.len() > b.len() {
      viol!("subject-holds", "the subscription has ended but a Subject source still holds its observer: {:?} were only released when the subject was dropped", a);
    }
}
pub fn show_live(l: &[Vec<usize>]) -> String {
  l.iter().enumerate().map(|(i, v)| format!("s{}:{:?}", i, v)).collect::<Vec<_>>().join(" ")
}
