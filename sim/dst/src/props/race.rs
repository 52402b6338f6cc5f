//! Pipelines whose inputs run on several threads: C05 (threads), C07, C11, C19.
use super::conc::*;
use super::life::released;
use super::seq::{self, *};
use crate::ex::*;
use crate::real::*;
use crate::util::*;
use crate::val::*;
use crate::{viol, Property};
use simstd::rt;
use std::collections::BTreeMap;
use std::sync::Arc;

pub struct Race {
  pub p: Arc<Prog>,
  /// subscribed by the main thread before the others start
  pub first: usize,
  pub threads: Vec<Vec<TAct>>,
  /// the main thread unsubscribes everybody at the end
  pub end_unsub: bool,
  /// virtual time given to the library to settle
  pub settle: u64,
  pub cb_sleep: u64,
  /// before the end, look for subscriptions that are over without a reason
  pub look: bool,
}
pub fn show_threads(t: &[Vec<TAct>]) -> String {
  t.iter()
    .enumerate()
    .map(|(i, l)| {
      format!(
        "t{}: {}",
        i,
        l.iter()
          .map(|a| match a {
            TAct::Emit(s, e) => format!("s{}<-{}", s, show_script(&[*e])),
            o => format!("{:?}", o),
          })
          .collect::<Vec<_>>()
          .join(" ")
      )
    })
    .collect::<Vec<_>>()
    .join("; ")
}
impl Race {
  pub fn desc(&self) -> String {
    format!("{}; {}{}", self.p, show_threads(&self.threads), if self.end_unsub { "; all unsubscribed at the end" } else { "" })
  }
  /// Runs everything; the harness threads have returned from every call.
  pub fn go(&self, w: &World, root: &Obs) {
    {
      let mut s = w.s.b();
      s.conc = true;
      s.cb_sleep = self.cb_sleep;
    }
    for j in 0..self.first {
      w.subscribe(j, root);
    }
    let mut js = vec![];
    for (i, t) in self.threads.iter().enumerate() {
      let (w, t, root) = (w.clone(), t.clone(), root.clone());
      js.push(spawn(&format!("h{}", i), move || {
        for a in t {
          w.tact(a, &root);
        }
      }));
    }
    for j in js {
      j.join().unwrap();
    }
    if self.look {
      settle(self.settle);
      for j in 0..self.p.subs {
        let s = w.s.b();
        let (h, over) = (s.handles[j].clone(), s.unsub_start[j].is_some() || s.recs[j].iter().any(|r| !matches!(r.ev, Ev::N(_))));
        drop(s);
        if let (Some(h), false) = (h, over) {
          probe("is_subscribed-while-silent");
          if !h.is_subscribed() {
            viol!("is_subscribed", "is_subscribed() of subscriber {} is false although it has received no terminal and nobody has unsubscribed it", j);
          }
        }
      }
    }
    if self.end_unsub {
      for j in 0..self.p.subs {
        w.unsub(j);
      }
    }
    settle(self.settle);
  }
}
pub fn observe_recs(w: &World) {
  let s = w.s.b();
  for l in &s.recs {
    for r in l {
      observe(r.thread as u64);
      observe(hash_bytes(r.ev.to_string().as_bytes()));
    }
  }
}
pub fn racing(w: &World) -> bool {
  let s = w.s.b();
  s.recs.iter().any(|l| l.iter().any(|r| r.thread != l[0].thread))
}

/// threads that play the scripts of the hot and subject sources
pub fn emitters(gn: &mut Gen, sleep: bool, max: usize) -> Vec<Vec<TAct>> {
  let mut v: Vec<Vec<TAct>> = vec![];
  for i in 0..gn.srcs.len() {
    if !matches!(gn.srcs[i].mode, Mode::Hot | Mode::Subj) {
      continue;
    }
    let mut l = vec![];
    for e in gn.srcs[i].scripts[0].clone() {
      if sleep && gn.g.chance(1, 4) {
        l.push(TAct::Sleep(100 * (1 + gn.g.int(9)) as u64));
      }
      l.push(TAct::Emit(i, e));
    }
    if l.is_empty() {
      continue;
    }
    if v.len() < max {
      v.push(l);
    } else {
      let k = gn.g.us(max);
      v[k].extend(l);
    }
  }
  v
}
fn prog(gn: Gen, ex: Ex, subs: usize) -> Prog {
  Prog { srcs: gn.srcs, ex, rsg: None, subs, unsub_at: vec![None; subs], nest: None, emit_at: vec![], inside: None, acts: vec![], lin: false }
}

// ------------------------------------------------------------ C05

pub static C05: Property = Property {
  id: "C05",
  gen: gen_c05,
  inconclusive: seq::HARNESS,
  real: seq::REAL,
  stub: seq::STUB,
  rule: "a case is a pipeline, an interleaving (or threads) of its sources and positions (or a thread) at which it is unsubscribed; non-trivial when unsubscribe happened while the subscription was active",
};
fn gen_c05(g: &mut G) -> Prep {
  if g.chance(1, 2) {
    gen_c05_thr(g)
  } else {
    gen_c05_seq(g)
  }
}
fn gen_c05_thr(g: &mut G) -> Prep {
  let mut f = all_ops_prof();
  f.mode = [1, 5, 3];
  f.depth = 3;
  f.w = [3, 6, 3, 2, 2, 1, 1, 3];
  f.max_srcs = 3;
  f.tap = false;
  f.max_items = 5;
  if g.chance(1, 2) {
    f.w[7] = 0;
  }
  if g.chance(1, 3) {
    f.depth = 1;
    f.leaf = [20, 1];
  }
  let mut gn = Gen::new(g, f);
  let depth = 1 + gn.g.int(gn.p.depth);
  let ex = gn.ex(depth, false);
  for i in 0..gn.srcs.len() {
    if gn.srcs[i].mode == Mode::Cold && gn.g.chance(2, 3) {
      gn.srcs[i].mode = Mode::Thr;
    }
    if gn.srcs[i].mode == Mode::Subj {
      gn.srcs[i].kind = gn.g.weighted(&[3, 1, 1, 1]) as u8;
    }
  }
  let mut threads = emitters(&mut gn, true, 3);
  let subs = 1 + gn.g.us(2);
  let n = 1 + gn.g.us(2);
  let look = gn.g.chance(1, 4);
  let mut un = vec![];
  for _ in 0..n * !look as usize {
    if gn.g.chance(1, 3) {
      un.push(TAct::Sleep(50 + 100 * gn.g.int(12) as u64));
    }
    let j = gn.g.us(subs);
    if gn.g.chance(1, 3) {
      un.push(TAct::IsSub(j));
    }
    un.push(TAct::Unsub(j));
    un.push(TAct::IsSub(j));
  }
  threads.push(un);
  if gn.g.chance(1, 4) {
    threads.push((0..2).map(|_| TAct::IsSub(gn.g.us(subs))).collect());
  }
  let using = gn.g.weighted(&[8, 1, 1]) as u8;
  let cfg = Cfg::conc(gn.g, 0);
  let mut p = prog(gn, ex, subs);
  if g.chance(1, 6) {
    p.unsub_at[0] = Some(1 + g.us(2));
  }
  let r = Race { p: Arc::new(p), first: subs, threads, end_unsub: true, settle: 5_000, cb_sleep: 0, look };
  Prep {
    desc: format!("{}{}", r.desc(), ["", " [unsubscribing by dropping a Using guard]", " [unsubscribing by unwinding through a Using guard]"][using as usize]),
    cfg,
    body: Box::new(move || {
      if endless(&r.p) {
        discard("endless");
      }
      let w = World::new(r.p.clone(), false);
      {
        let mut s = w.s.b();
        s.check_c05 = true;
        s.using = using;
      }
      let root = w.root();
      r.go(&w, &root);
      for j in 0..r.p.subs {
        w.tact(TAct::IsSub(j), &root);
      }
      probe("threaded-case");
      observe_recs(&w);
      let s = w.s.b();
      for j in 0..r.p.subs {
        if let Some(u) = s.unsub_start[j] {
          if s.recs[j].iter().any(|r| r.start < u) && s.state[j] == Sub::Unsubscribed {
            nontrivial();
          }
          if s.recs[j].iter().any(|r| r.start > u) {
            probe("event-in-flight-during-unsubscribe");
          }
        }
      }
      drop(s);
      drop(root);
      w.clear();
    }),
  }
}
/// may the program run for ever without help from outside?
pub fn endless(p: &Prog) -> bool {
  seq::unlimited(&p.ex)
}

// ------------------------------------------------------------ C07

pub static C07: Property = Property {
  id: "C07",
  gen: gen_c07,
  inconclusive: &[],
  real: seq::REAL,
  stub: seq::STUB,
  rule: "a case is a pipeline of any operators with up to four harness threads (source threads, a subscribing and an unsubscribing thread) and library workers, optionally with callbacks that re-enter the library, or a single-threaded history; non-trivial when callbacks ran on at least two threads or a callback re-entered the library",
};
fn gen_c07(g: &mut G) -> Prep {
  match g.weighted(&[6, 2, 1, 1]) {
    0 => gen_c07_race(g),
    1 => gen_c07_reenter(g),
    2 => gen_c07_sched(g),
    _ => gen_c07_endless(g),
  }
}
/// threads emitting, subscribing and unsubscribing around any pipeline
fn race_case(g: &mut G) -> (Race, Cfg) {
  let mut f = all_ops_prof();
  f.mode = [2, 5, 3];
  f.ends = [3, 3, 2];
  f.depth = 3;
  f.w = [3, 8, 3, 3, 2, 2, 2, 3];
  f.max_srcs = 3;
  f.max_items = 4;
  f.ill = g.chance(1, 4);
  if g.chance(1, 2) {
    f.w[7] = 0;
  }
  if g.chance(1, 3) {
    f.depth = 1;
    f.leaf = [20, 1];
  }
  let mut gn = Gen::new(g, f);
  let depth = 1 + gn.g.int(gn.p.depth);
  let ex = gn.ex(depth, false);
  for i in 0..gn.srcs.len() {
    if gn.srcs[i].mode == Mode::Cold && gn.g.chance(1, 2) {
      gn.srcs[i].mode = Mode::Thr;
    }
    if gn.srcs[i].mode == Mode::Subj {
      gn.srcs[i].kind = gn.g.int(4) as u8;
    }
  }
  let mut threads = emitters(&mut gn, true, 2);
  // a second producer for one source
  let hot: Vec<usize> = (0..gn.srcs.len()).filter(|i| matches!(gn.srcs[*i].mode, Mode::Hot | Mode::Subj)).collect();
  if !hot.is_empty() && gn.g.chance(1, 3) {
    let s = *gn.g.pick(&hot);
    let n = 1 + gn.g.us(3);
    let l = (0..n)
      .map(|_| {
        TAct::Emit(
          s,
          match gn.g.int(4) {
            0 => SEv::C,
            1 => SEv::E,
            _ => SEv::N(gn.g.range(0, 3)),
          },
        )
      })
      .collect();
    threads.push(l);
  }
  let subs = 1 + gn.g.us(2);
  let first = if gn.g.chance(1, 4) { 0 } else { 1 };
  if first < subs {
    let mut l: Vec<TAct> = (first..subs).map(TAct::Sub).collect();
    if gn.g.chance(1, 2) {
      l.push(TAct::Unsub(gn.g.us(subs)));
    }
    threads.push(l);
  }
  if threads.len() < 4 && gn.g.chance(2, 3) {
    let mut l = vec![];
    if gn.g.chance(1, 3) {
      l.push(TAct::Sleep(50 + 100 * gn.g.int(12) as u64));
    }
    for _ in 0..1 + gn.g.us(2) {
      l.push(TAct::Unsub(gn.g.us(subs)));
      l.push(TAct::IsSub(gn.g.us(subs)));
    }
    threads.push(l);
  }
  let cfg = Cfg::conc(gn.g, 300);
  let mut p = prog(gn, ex, subs);
  reacts(g, &mut p);
  let cb_sleep = if g.chance(1, 6) { 150 } else { 0 };
  let r = Race { p: Arc::new(p), first, threads, end_unsub: true, settle: 20_000, cb_sleep, look: false };
  (r, cfg)
}
fn gen_c07_race(g: &mut G) -> Prep {
  let (r, cfg) = race_case(g);
  Prep {
    desc: r.desc(),
    cfg,
    body: Box::new(move || {
      if endless(&r.p) {
        discard("endless");
      }
      seq::stats(&r.p);
      let w = World::new(r.p.clone(), false);
      let root = w.root();
      r.go(&w, &root);
      observe_recs(&w);
      if racing(&w) || !r.p.emit_at.is_empty() || r.p.inside.is_some() || r.p.nest.is_some() {
        nontrivial();
      }
      drop(root);
      w.clear();
      settle(20_000);
    }),
  }
}
/// C06 under threads: when all is quiet the ended subscription is open
/// nowhere upstream and no subject holds its observer
pub fn gen_c06_race(g: &mut G) -> Prep {
  let (mut r, cfg) = race_case(g);
  r.end_unsub = g.chance(1, 2);
  Prep {
    desc: r.desc(),
    cfg,
    body: Box::new(move || {
      if endless(&r.p) {
        discard("endless");
      }
      seq::stats(&r.p);
      probe("threaded-case");
      let w = World::new(r.p.clone(), true);
      let root = w.root();
      r.go(&w, &root);
      observe_recs(&w);
      let over = |w: &World| w.s.b().state.iter().all(|s| *s != Sub::Active);
      if !over(&w) {
        for j in 0..r.p.subs {
          w.unsub(j);
        }
        settle(20_000);
      } else if !r.end_unsub {
        probe("ended-by-itself");
      }
      if racing(&w) {
        nontrivial();
      }
      let l = w.live();
      if l.iter().any(|l| !l.is_empty()) {
        viol!("still-subscribed", "every subscription has ended but sources still see is_subscribed(): (source: subscriptions) {}", show_live(&l));
      }
      drop(root);
      holds(&w);
      w.clear();
    }),
  }
}
/// C17 under threads
pub fn gen_c17_race(g: &mut G) -> Prep {
  let (r, cfg) = race_case(g);
  // (a subject with a memory is entitled to keep it)
  let keep_sources = g.chance(1, 2) && r.p.srcs.iter().all(|s| s.mode != Mode::Subj || s.kind == 0);
  Prep {
    desc: format!("{}{}", r.desc(), if keep_sources { "; sources outlive the handles" } else { "" }),
    cfg,
    body: Box::new(move || {
      if endless(&r.p) {
        discard("endless");
      }
      seq::stats(&r.p);
      probe("threaded-case");
      let w = World::new(r.p.clone(), true);
      let root = w.root();
      r.go(&w, &root);
      for j in 0..r.p.subs {
        w.unsub(j);
      }
      settle(20_000);
      observe_recs(&w);
      if racing(&w) {
        nontrivial();
      }
      drop(root);
      released(&w, keep_sources);
    }),
  }
}
/// callbacks that re-enter the library
fn reacts(g: &mut G, p: &mut Prog) {
  if g.chance(1, 4) {
    let j = g.us(p.subs);
    p.unsub_at[j] = Some(1 + g.us(3));
  }
  if p.subs > 1 && g.chance(1, 3) {
    p.nest = Some((0, 1 + g.us(2), 1));
  }
  let hot: Vec<usize> = (0..p.srcs.len()).filter(|i| matches!(p.srcs[*i].mode, Mode::Hot | Mode::Subj)).collect();
  if !hot.is_empty() && g.chance(1, 3) {
    let s = *g.pick(&hot);
    let e = match g.int(4) {
      0 => SEv::C,
      1 => SEv::E,
      _ => SEv::N(g.range(0, 3)),
    };
    p.emit_at.push((g.us(p.subs), g.us(4), s, e));
  }
  if g.chance(1, 4) {
    inside(g, p, false);
  }
}
/// an operator's closure that re-enters the library
pub fn inside(g: &mut G, p: &mut Prog, watch: bool) {
  let hot: Vec<usize> = (0..p.srcs.len()).filter(|i| matches!(p.srcs[*i].mode, Mode::Hot | Mode::Subj)).collect();
  let n = 1 + g.us(3);
  let what = if hot.is_empty() {
    Inside::Unsub(g.us(p.subs))
  } else {
    let s = *g.pick(&hot);
    match g.int(6) {
      0 => Inside::Unsub(g.us(p.subs)),
      1 if watch => Inside::Watch(s),
      2 => Inside::Emit(s, SEv::C),
      3 => Inside::Emit(s, SEv::E),
      _ => Inside::Emit(s, SEv::N(g.range(0, 3))),
    }
  };
  p.inside = Some((n, what));
}
/// one harness thread, re-entrant callbacks
fn gen_c07_reenter(g: &mut G) -> Prep {
  let mut f = all_ops_prof();
  f.mode = [1, 3, 5];
  f.depth = 3;
  if g.chance(2, 3) {
    f.w[7] = 0;
  }
  let subs = 2;
  let mut p = program(g, &Shape { prof: f, unsub: (1, 3), selfunsub: (0, 1), rsg: (1, 10), subs });
  for i in 0..p.srcs.len() {
    if p.srcs[i].mode == Mode::Subj {
      p.srcs[i].kind = g.int(4) as u8;
    }
  }
  reacts(g, &mut p);
  if g.chance(1, 4) {
    inside(g, &mut p, true);
  }
  if p.nest.is_some() {
    p.acts.retain(|a| *a != Act::Sub(1));
  }
  let cfg = cfg_for(g, &p);
  let p = Arc::new(p);
  Prep {
    desc: p.to_string(),
    cfg,
    body: Box::new(move || {
      if endless(&p) {
        discard("endless");
      }
      seq::stats(&p);
      let w = World::new(p.clone(), false);
      let root = w.root();
      let thr = threaded(&p.ex);
      w.drive(&root, thr, |_, _| {});
      for j in 0..p.subs {
        w.unsub(j);
      }
      settle(20_000);
      observe_recs(&w);
      if !p.emit_at.is_empty() || p.inside.is_some() || p.nest.is_some() || p.unsub_at.iter().any(|u| u.is_some()) {
        nontrivial();
        probe("re-entrant-history");
      }
      drop(root);
      w.clear();
      settle(20_000);
    }),
  }
}
/// scheduler calls only: post and abort return, workers go on
fn gen_c07_sched(g: &mut G) -> Prep {
  super::c08::gen(g)
}
/// an endless producer on its own thread, cancelled in some way
fn gen_c07_endless(g: &mut G) -> Prep {
  let mut f = Prof::base();
  f.mode = [0, 4, 1];
  f.max_srcs = 2;
  f.max_items = 4;
  let mut gn = Gen::new(g, f);
  let inf = match gn.g.int(4) {
    0 => Ex::U(Op::StartWithInf, Box::new(Ex::Never)),
    1 => Ex::Repeat(1),
    _ => Ex::IterInf,
  };
  let mut e = Ex::U(Op::SubOn, Box::new(inf));
  for _ in 0..gn.g.us(3) {
    // no operator that swallows an endless source
    let o = match gn.g.int(10) {
      0 => Op::Map(0),
      1 => Op::Filter(gn.g.int(7) as u8),
      2 => Op::Skip(gn.g.us(3)),
      3 => Op::TakeWhile(gn.g.int(7) as u8),
      4 => Op::Scan(0),
      5 => Op::Distinct,
      6 => Op::Buffer(1 + gn.g.us(3)),
      7 => Op::ObsOn,
      8 => Op::Take(1 + gn.g.us(4)),
      _ => Op::Materialize,
    };
    e = Ex::U(o, Box::new(e));
  }
  let e = match gn.g.int(6) {
    0 => {
      let b = gn.src();
      Ex::Trig(Tr::TakeUntil, Box::new(e), Box::new(b))
    }
    1 => {
      let b = gn.src();
      Ex::Trig(Tr::Sample, Box::new(e), Box::new(b))
    }
    2 => {
      let b = gn.src();
      Ex::Multi(*gn.g.pick(&[Mu::Merge, Mu::Amb, Mu::Combine]), vec![e, b])
    }
    3 => {
      let a = gn.src();
      Ex::FlatMap(Box::new(a), Arc::new(vec![e]))
    }
    _ => e,
  };
  // no sleeping: virtual time stands still while the producer runs
  let threads = emitters(&mut gn, false, 2);
  let cfg = Cfg::conc(gn.g, 0);
  let r = Race { p: Arc::new(prog(gn, e, 1)), first: 1, threads, end_unsub: true, settle: 20_000, cb_sleep: 0, look: false };
  Prep {
    desc: r.desc(),
    cfg,
    body: Box::new(move || {
      let w = World::new(r.p.clone(), false);
      let root = w.root();
      r.go(&w, &root);
      observe(w.s.b().logs[0].len() as u64);
      probe("endless-producer-cancelled");
      nontrivial();
      drop(root);
      w.clear();
    }),
  }
}

// ------------------------------------------------------------ C11

pub static C11: Property = Property {
  id: "C11",
  gen: gen_c11,
  inconclusive: &[],
  real: seq::REAL,
  stub: seq::STUB,
  rule: "a case is merge, flat_map (its outer items on one or two threads), zip, concat or amb (nested up to twice) over 2..3 sources each emitting on a thread of its own, optionally with take, observe_on or map downstream; non-trivial when the subscriber was called on at least two threads",
};
fn c11_script(g: &mut G, src: usize, fail: bool) -> Vec<SEv> {
  let n = g.weighted(&[1, 3, 4, 3, 1]);
  let mut v: Vec<SEv> = (0..n).map(|i| SEv::N((src * 100_000 + i) as i64)).collect();
  v.push(if fail { SEv::E } else { SEv::C });
  v
}
fn gen_c11(g: &mut G) -> Prep {
  if g.chance(1, 1500) {
    return super::huge::c11(g);
  }
  let fails = g.chance(1, 6);
  let mut gn = Gen::new(g, Prof::base());
  let kind = gn.g.weighted(&[4, 3, 4, 2, 3]);
  let leaf = |gn: &mut Gen, thr: bool| -> Ex {
    let i = gn.srcs.len();
    let f = fails && gn.g.chance(1, 2);
    let sc = c11_script(gn.g, i, f);
    let mode = if thr || gn.g.chance(1, 2) { Mode::Thr } else { Mode::Hot };
    let polite = gn.g.chance(1, 2);
    let pause = if gn.g.chance(1, 5) { 100 * (1 + gn.g.int(3)) as u64 } else { 0 };
    gn.srcs.push(Src { mode, polite, scripts: vec![sc], kind: 0, pause });
    let s = Ex::Src(i);
    match gn.g.int(12) {
      0 => Ex::U(Op::Map(4), Box::new(s)),
      1 => Ex::U(Op::ObsOn, Box::new(s)),
      2 if mode == Mode::Thr => Ex::U(Op::SubOn, Box::new(s)),
      _ => s,
    }
  };
  let n = 2 + gn.g.us(2);
  let ex = match kind {
    0 => {
      let mut l = vec![];
      for _ in 0..n {
        let e = match gn.g.int(6) {
          0 if gn.srcs.len() < 3 => Ex::Multi(Mu::Merge, vec![leaf(&mut gn, false), leaf(&mut gn, false)]),
          1 if gn.srcs.len() < 3 => Ex::Multi(Mu::Concat, vec![leaf(&mut gn, true), leaf(&mut gn, true)]),
          _ => leaf(&mut gn, false),
        };
        l.push(e);
      }
      Ex::Multi(Mu::Merge, l)
    }
    1 => {
      let o = if gn.g.chance(1, 4) {
        let m = 1 + gn.g.us(3);
        Ex::Iter((0..m as i64).collect())
      } else if gn.g.chance(1, 2) {
        // outer items from two threads at once
        Ex::Multi(Mu::Merge, vec![leaf(&mut gn, false), leaf(&mut gn, false)])
      } else {
        leaf(&mut gn, false)
      };
      let m = 1 + gn.g.us(2);
      let l = (0..m).map(|_| leaf(&mut gn, true)).collect();
      Ex::FlatMap(Box::new(o), Arc::new(l))
    }
    2 => Ex::Multi(Mu::Zip, (0..n).map(|_| leaf(&mut gn, false)).collect()),
    3 => {
      let mut l = vec![];
      for _ in 0..n {
        l.push(if gn.g.chance(1, 5) { Ex::Multi(Mu::Merge, vec![leaf(&mut gn, true), leaf(&mut gn, true)]) } else { leaf(&mut gn, true) });
      }
      Ex::Multi(Mu::Concat, l)
    }
    _ => Ex::Multi(Mu::Amb, (0..n).map(|_| leaf(&mut gn, false)).collect()),
  };
  let down = gn.g.weighted(&[5, 3, 1, 1]);
  let take = 1 + gn.g.us(5);
  let full = match down {
    1 => Ex::U(Op::Take(take), Box::new(ex.clone())),
    2 => Ex::U(Op::ObsOn, Box::new(ex.clone())),
    3 => Ex::U(Op::Map(4), Box::new(ex.clone())),
    _ => ex.clone(),
  };
  let threads = emitters(&mut gn, true, 4);
  let cfg = Cfg::conc(gn.g, 300);
  let p = prog(gn, full, 1);
  let r = Race { p: Arc::new(p), first: 1, threads, end_unsub: false, settle: 100_000, cb_sleep: 0, look: false };
  Prep {
    desc: r.desc(),
    cfg,
    body: Box::new(move || {
      let w = World::new(r.p.clone(), false);
      let root = w.root();
      r.go(&w, &root);
      observe_recs(&w);
      if racing(&w) {
        nontrivial();
      }
      judge_c11(&w, &ex, kind, if down == 1 { Some(take) } else { None });
      drop(root);
      w.clear();
    }),
  }
}
fn src_items(p: &Prog, i: usize, k: usize) -> Vec<i64> {
  let off = if p.srcs[i].mode == Mode::Thr { 1000 * k as i64 } else { 0 };
  p.srcs[i].scripts[0].iter().filter_map(|e| if let SEv::N(v) = e { Some(v.wrapping_add(off)) } else { None }).collect()
}
fn items_of(p: &Prog, e: &Ex) -> Vec<i64> {
  match e {
    Ex::Src(i) => src_items(p, *i, 0),
    Ex::U(_, e) => items_of(p, e),
    Ex::Multi(_, l) => l.iter().flat_map(|e| items_of(p, e)).collect(),
    Ex::Iter(l) => l.clone(),
    _ => vec![],
  }
}
fn lists_of(p: &Prog, e: &Ex, out: &mut Vec<Vec<i64>>, concat: &mut Vec<(Vec<i64>, Vec<i64>)>) {
  match e {
    Ex::Src(i) => out.push(src_items(p, *i, 0)),
    Ex::U(_, e) => lists_of(p, e, out, concat),
    Ex::Multi(m, l) => {
      for (x, e) in l.iter().enumerate() {
        if *m == Mu::Concat && x > 0 {
          concat.push((items_of(p, &l[x - 1]), items_of(p, e)));
        }
        lists_of(p, e, out, concat);
      }
    }
    _ => {}
  }
}
fn judge_c11(w: &World, ex: &Ex, kind: usize, take: Option<usize>) {
  let p = &w.p;
  let log: Vec<Ev> = w.s.b().recs[0].iter().map(|r| r.ev.clone()).collect();
  let shown = show_ev(&log);
  let fails = p.srcs.iter().any(|s| s.scripts[0].contains(&SEv::E));
  let nc = log.iter().filter(|e| **e == Ev::C).count();
  let ne = log.iter().filter(|e| matches!(e, Ev::E(_))).count();
  if nc > 1 || ne > 1 || (nc + ne > 1) {
    viol!("terminals", "the subscriber received {} completes and {} errors: [{}]", nc, ne, shown);
  }
  let items: Vec<K> = log.iter().filter_map(|e| if let Ev::N(k) = e { Some(k.clone()) } else { None }).collect();
  if let Some(n) = take {
    if items.len() > n {
      viol!("take", "take({}) delivered {} items: [{}]", n, items.len(), shown);
    }
  }
  let whole = take.is_none() && !fails;
  if !fails && ne > 0 {
    viol!("terminals", "no source failed but the subscriber received an error: [{}]", shown);
  }
  if !fails && nc != 1 {
    viol!("terminals", "every source completed but the subscriber received {} completes: [{}]; {}", nc, shown, rt::describe());
  }
  if whole && log.last() != Some(&Ev::C) {
    viol!("terminals", "complete came before the last item: [{}]", shown);
  }
  // what may arrive
  let mut lists: Vec<Vec<i64>> = vec![];
  let mut concat = vec![];
  match kind {
    0 | 3 => lists_of(p, ex, &mut lists, &mut concat),
    1 => {
      if let Ex::FlatMap(o, l) = ex {
        let outer = items_of(p, o);
        // how often each inner source is subscribed
        let mut n: BTreeMap<usize, usize> = BTreeMap::new();
        for x in outer {
          let mut src = 0;
          l[pick_body(l.len(), x)].walk(&mut |e| {
            if let Ex::Src(i) = e {
              src = *i
            }
          });
          let k = n.entry(src).or_insert(0);
          lists.push(src_items(p, src, *k));
          *k += 1;
        }
      }
    }
    _ => {}
  }
  let nums = |items: &[K]| -> Vec<i64> { items.iter().map(|k| k.num()).collect() };
  match kind {
    0 | 1 | 3 => {
      let got = nums(&items);
      let mut a = got.clone();
      a.sort();
      let mut b: Vec<i64> = lists.iter().flatten().copied().collect();
      b.sort();
      if whole && a != b {
        viol!("conservation", "expected exactly the items {:?} (in some order) but got [{}]", b, shown);
      }
      let mut d = a.clone();
      d.dedup();
      if d.len() != a.len() {
        viol!("conservation", "an item was delivered twice: [{}]", shown);
      }
      for x in &a {
        if !b.contains(x) {
          viol!("conservation", "{} was never emitted: [{}]", x, shown);
        }
      }
      let pos = |x: &i64| got.iter().position(|y| y == x);
      for l in &lists {
        let ps: Vec<usize> = l.iter().filter_map(pos).collect();
        if ps.windows(2).any(|w| w[0] > w[1]) {
          viol!("order", "the items {:?} of one input arrived out of order: [{}]", l, shown);
        }
      }
      for (x, y) in &concat {
        let m = x.iter().filter_map(pos).max();
        let n = y.iter().filter_map(pos).min();
        if let (Some(m), Some(n)) = (m, n) {
          if m > n {
            viol!("order", "concat delivered an item of {:?} before one of {:?}: [{}]", y, x, shown);
          }
        }
      }
      let flat = !matches!(ex, Ex::Multi(_, l) if l.iter().any(|e| matches!(e, Ex::Multi(..))));
      if kind == 3 && flat && whole && got != b_in_order(&lists) {
        viol!("order", "concat delivered [{}]", shown);
      }
    }
    2 => {
      let Ex::Multi(_, l) = ex else { return };
      let ls: Vec<Vec<i64>> = l.iter().map(|e| items_of(p, e)).collect();
      let n = ls.iter().map(|l| l.len()).min().unwrap_or(0);
      let mut want: Vec<K> = (0..n).map(|i| K::L(ls.iter().map(|l| K::I(l[i])).collect())).collect();
      let mut got = items.clone();
      want.sort();
      got.sort();
      if whole && want != got {
        viol!("conservation", "zip must deliver exactly the tuples {} but got [{}]", want.iter().map(|k| k.to_string()).collect::<Vec<_>>().join(" "), shown);
      }
      for (i, t) in got.iter().enumerate() {
        if !want.contains(t) || (i > 0 && got[i - 1] == *t) {
          viol!("conservation", "zip delivered a wrong or repeated tuple {}: [{}]", t, shown);
        }
      }
    }
    _ => {
      let Ex::Multi(_, l) = ex else { return };
      let got = nums(&items);
      let ls: Vec<Vec<i64>> = l.iter().map(|e| items_of(p, e)).collect();
      let ok = ls.iter().any(|l| if whole { *l == got } else { l.starts_with(&got) });
      if !ok {
        viol!("amb", "amb must let exactly one of {:?} through but delivered [{}]", ls, shown);
      }
    }
  }
}
fn b_in_order(l: &[Vec<i64>]) -> Vec<i64> {
  l.iter().flatten().copied().collect()
}

// ------------------------------------------------------------ C04, on threads

/// Inputs on different threads, most of which fail: one of the errors (or the
/// completion some operator made of it) arrives, however the failures race.
pub fn gen_c04_race(g: &mut G) -> Prep {
  let mut f = Prof::base();
  f.tap = false;
  f.shared = false;
  let mut gn = Gen::new(g, f);
  let mut triggers = vec![];
  let leaf = |gn: &mut Gen| -> Ex {
    let i = gn.srcs.len();
    let fail = gn.g.chance(2, 3);
    let mut sc = c11_script(gn.g, i, fail);
    if gn.g.chance(1, 8) {
      sc.pop();
    }
    let mode = if gn.g.chance(1, 2) { Mode::Thr } else { Mode::Hot };
    let pause = if gn.g.chance(1, 5) { 100 * (1 + gn.g.int(3)) as u64 } else { 0 };
    let polite = gn.g.chance(1, 2);
    gn.srcs.push(Src { mode, polite, scripts: vec![sc], kind: 0, pause });
    let s = Ex::Src(i);
    match gn.g.int(10) {
      0 => Ex::U(Op::ObsOn, Box::new(s)),
      1 if mode == Mode::Thr => Ex::U(Op::SubOn, Box::new(s)),
      _ => s,
    }
  };
  let n = 2 + gn.g.us(2);
  let plain = gn.g.chance(1, 2);
  let mut ex = if plain {
    Ex::Multi(Mu::Merge, (0..n).map(|_| leaf(&mut gn)).collect())
  } else {
    match gn.g.weighted(&[3, 2, 2, 1, 1, 2, 1, 1]) {
      0 => {
        let o = leaf(&mut gn);
        let m = 1 + gn.g.us(2);
        Ex::FlatMap(Box::new(o), Arc::new((0..m).map(|_| leaf(&mut gn)).collect()))
      }
      1 => Ex::Multi(Mu::Zip, (0..n).map(|_| leaf(&mut gn)).collect()),
      2 => Ex::Multi(Mu::Combine, (0..n).map(|_| leaf(&mut gn)).collect()),
      3 => Ex::Multi(Mu::SeqEq, (0..n).map(|_| leaf(&mut gn)).collect()),
      4 => Ex::Multi(Mu::Concat, (0..n).map(|_| leaf(&mut gn)).collect()),
      k => {
        let a = leaf(&mut gn);
        triggers.push(gn.srcs.len());
        let b = leaf(&mut gn);
        Ex::Trig([Tr::TakeUntil, Tr::SkipUntil, Tr::Sample][k - 5], Box::new(a), Box::new(b))
      }
    }
  };
  if gn.g.chance(1, 5) {
    ex = Ex::U(Op::ObsOn, Box::new(ex));
  }
  if !plain {
    for _ in 0..gn.g.weighted(&[5, 2, 1]) {
      let o = gn.op();
      ex = Ex::U(o, Box::new(ex));
    }
  }
  let threads = emitters(&mut gn, true, 3);
  let cfg = Cfg::conc(gn.g, 300);
  let p = prog(gn, ex, 1);
  let r = Race { p: Arc::new(p), first: 1, threads, end_unsub: false, settle: 100_000, cb_sleep: 0, look: false };
  Prep {
    desc: r.desc(),
    cfg,
    body: Box::new(move || {
      let w = World::new(r.p.clone(), false);
      let root = w.root();
      r.go(&w, &root);
      observe_recs(&w);
      judge_c04_race(&w, &triggers, plain);
      drop(root);
      w.clear();
    }),
  }
}
fn judge_c04_race(w: &World, triggers: &[usize], plain: bool) {
  probe("racing-errors");
  let s = w.s.b();
  let l: Vec<Ev> = s.recs[0].iter().map(|r| r.ev.clone()).collect();
  let t: Vec<usize> = (0..l.len()).filter(|i| !matches!(l[*i], Ev::N(_))).collect();
  let errs: Vec<&Sent> = s.sent.iter().filter(|x| x.e == SEv::E && x.open.0 && !triggers.contains(&x.src)).collect();
  if !errs.is_empty() {
    nontrivial();
    if t.len() != 1 {
      viol!("error-lost", "{} source(s) failed but the subscriber received {} terminals: [{}]", errs.len(), t.len(), show_ev(&l));
    }
  }
  let Some(at) = t.first() else { return };
  if let Ev::E(c) = &l[*at] {
    let code = |x: &Sent| code_of(x.src, if w.p.srcs[x.src].mode == Mode::Hot { 0 } else { x.k });
    let from: Vec<&Sent> = s.sent.iter().filter(|x| x.e == SEv::E && code(x) == *c).collect();
    if from.is_empty() {
      viol!("payload", "the subscriber received an error no source has raised: [{}]", show_ev(&l));
    }
    if plain {
      for x in s.sent.iter().filter(|x| x.src == from[0].src && x.k == from[0].k) {
        if let SEv::N(v) = x.e {
          if x.start < from[0].start && !l[..*at].contains(&Ev::N(crate::val::K::I(v))) {
            viol!("items-lost", "the subscriber received the error of source {} but not its earlier item {}: [{}]", x.src, v, show_ev(&l));
          }
        }
      }
      probe("racing-errors-with-items");
    }
  }
}

// ------------------------------------------------------------ C19

pub static C19: Property = Property {
  id: "C19",
  gen: gen_c19,
  inconclusive: seq::HARNESS,
  real: seq::REAL,
  stub: seq::STUB,
  rule: "a case is a multi-input operator or a subject whose 2..3 inputs emit short scripts on different threads, at least one of them a terminal; non-trivial when a terminal arrived while another thread still had something to emit",
};
fn gen_c19(g: &mut G) -> Prep {
  let mut f = Prof::base();
  f.mode = [0, 1, 0];
  f.ends = [3, 5, 1];
  f.max_items = 3;
  f.shared = false;
  f.max_srcs = 3;
  f.tap = false;
  f.ill = g.chance(1, 4);
  let mut gn = Gen::new(g, f);
  let subject = gn.g.chance(1, 4);
  let mut threads: Vec<Vec<TAct>> = vec![];
  let mut ex;
  if subject {
    let i = gn.new_src(Some(Mode::Subj));
    gn.srcs[i].kind = gn.g.int(4) as u8;
    gn.srcs[i].scripts = vec![vec![]];
    ex = Ex::Src(i);
    let n = 2 + gn.g.us(2);
    for t in 0..n {
      let mut l = vec![];
      let m = gn.g.us(4);
      for _ in 0..m {
        l.push(TAct::Emit(i, SEv::N(gn.g.range(0, 9))));
      }
      if t == 0 || gn.g.chance(1, 2) {
        l.push(TAct::Emit(i, if gn.g.chance(1, 2) { SEv::E } else { SEv::C }));
        if gn.g.chance(1, 3) {
          l.push(TAct::Emit(i, SEv::N(gn.g.range(0, 9))));
        }
      }
      threads.push(l);
    }
  } else {
    let n = 2 + gn.g.us(2);
    let mode = |gn: &mut Gen| {
      let m = if gn.g.chance(1, 3) { Mode::Thr } else { Mode::Hot };
      let i = gn.new_src(Some(m));
      let e = Ex::Src(i);
      match gn.g.int(12) {
        0 => Ex::U(Op::Map(0), Box::new(e)),
        1 => Ex::U(Op::ObsOn, Box::new(e)),
        2 => Ex::U(Op::Take(1 + gn.g.us(3)), Box::new(e)),
        3 => Ex::U(Op::StartWith(vec![1]), Box::new(e)),
        _ => e,
      }
    };
    ex = match gn.g.weighted(&[4, 3, 2, 2, 2, 2, 3, 2, 2, 1]) {
      0 => Ex::Multi(Mu::Merge, (0..n).map(|_| mode(&mut gn)).collect()),
      1 => {
        let a = mode(&mut gn);
        let m = 1 + gn.g.us(2);
        Ex::FlatMap(Box::new(a), Arc::new((0..m).map(|_| mode(&mut gn)).collect()))
      }
      2 => Ex::Multi(Mu::Zip, (0..n).map(|_| mode(&mut gn)).collect()),
      3 => Ex::Multi(Mu::Amb, (0..n).map(|_| mode(&mut gn)).collect()),
      4 => Ex::Multi(Mu::Combine, (0..n).map(|_| mode(&mut gn)).collect()),
      5 => Ex::Multi(Mu::SeqEq, (0..n).map(|_| mode(&mut gn)).collect()),
      6 => Ex::Trig(Tr::TakeUntil, Box::new(mode(&mut gn)), Box::new(mode(&mut gn))),
      7 => Ex::Trig(Tr::SkipUntil, Box::new(mode(&mut gn)), Box::new(mode(&mut gn))),
      8 => Ex::Trig(Tr::Sample, Box::new(mode(&mut gn)), Box::new(mode(&mut gn))),
      _ => Ex::Multi(Mu::Concat, (0..n).map(|_| mode(&mut gn)).collect()),
    };
    threads = emitters(&mut gn, false, 3);
  }
  for _ in 0..gn.g.weighted(&[5, 2, 1]) {
    let o = gn.op();
    ex = Ex::U(o, Box::new(ex));
  }
  let subs = if subject { 1 + gn.g.us(2) } else { 1 };
  let cfg = Cfg::conc(gn.g, 300);
  let p = prog(gn, ex, subs);
  let r = Race { p: Arc::new(p), first: subs, threads, end_unsub: false, settle: 20_000, cb_sleep: 0, look: false };
  Prep {
    desc: r.desc(),
    cfg,
    body: Box::new(move || {
      let w = World::new(r.p.clone(), false);
      let root = w.root();
      r.go(&w, &root);
      observe_recs(&w);
      judge_c19(&w);
      drop(root);
      w.clear();
    }),
  }
}
pub fn judge_c19(w: &World) {
  let s = w.s.b();
  for (j, l) in s.recs.iter().enumerate() {
    let shown = show_ev(&l.iter().map(|r| r.ev.clone()).collect::<Vec<_>>());
    let t: Vec<&Rec> = l.iter().filter(|r| !matches!(r.ev, Ev::N(_))).collect();
    if t.len() > 1 {
      viol!("terminals", "subscriber {} received {} terminals: [{}]", j, t.len(), shown);
    }
    if let Some(end) = t.first().and_then(|r| r.end) {
      if let Some(x) = l.iter().find(|r| r.born > end) {
        viol!("after-terminal", "subscriber {} received {}, whose delivery started after the terminal callback had returned: [{}]", j, x.ev, shown);
      }
      let last = s.last_emission;
      if last > t[0].start {
        nontrivial();
      }
      if l.iter().any(|r| r.start > end) {
        probe("in-flight-event-after-terminal");
      }
    }
  }
}
