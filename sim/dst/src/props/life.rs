//! What belongs to one subscription: C14 (independence), C15 (threads),
//! C17 (release).
use super::conc::*;
use super::race::*;
use super::seq::{self, *};
use crate::ex::*;
use crate::real::*;
use crate::util::*;
use crate::val::*;
use crate::{viol, Property};
use simstd::rt;
use std::collections::BTreeMap;
use std::sync::Arc;

// ------------------------------------------------------------ C14

pub static C14: Property = Property {
  id: "C14",
  gen: gen_c14,
  inconclusive: seq::HARNESS,
  real: seq::REAL,
  stub: seq::STUB,
  rule: "a case is a pipeline of C02-C04 operators over cold and hot sources subscribed two or three times (one after another, interleaved with emissions, nested in a callback); each subscriber is compared with a run of the library in which it is alone; non-trivial when at least two subscribers received something",
};
fn gen_c14(g: &mut G) -> Prep {
  if g.chance(1, 5) {
    return super::time::gen_c14_timed(g);
  }
  if g.chance(1, 4) {
    return gen_c14_thr(g);
  }
  let mut f = Prof::base();
  f.w = [2, 8, 3, 2, 2, 1, 4, 0];
  f.leaf = [4, 1];
  f.depth = 4;
  f.mode = [3, 2, 0];
  f.ends = [4, 4, 1];
  f.vary = true;
  f.infinite = g.chance(1, 20);
  if g.chance(1, 3) {
    // one operator under retry
    f.depth = 2;
    f.mode = [1, 0, 0];
  }
  if g.chance(1, 3) {
    f.w = [1, 8, 3, 2, 2, 1, 0, 0];
    f.depth = 2;
  }
  let subs = 2 + g.us(2);
  let mut p = program(g, &Shape { prof: f, unsub: (1, 4), selfunsub: (1, 6), rsg: (0, 1), subs });
  if g.chance(1, 4) {
    p.ex = Ex::U(Op::Retry(1 + g.us(3)), Box::new(p.ex));
  }
  if g.chance(1, 4) {
    p.nest = Some((0, 1 + g.us(2), 1));
    p.acts.retain(|a| *a != Act::Sub(1));
  }
  let cfg = Cfg::seq();
  let p = Arc::new(p);
  Prep {
    desc: p.to_string(),
    cfg,
    body: Box::new(move || {
      // the model serves only to keep endless programs out
      for j in 0..p.subs {
        let mut q = (*p).clone();
        q.nest = None;
        let mut acts = vec![];
        for a in &p.acts {
          match a {
            Act::Sub(0) if j == 1 && p.nest.is_some() => acts.push(Act::Sub(1)),
            Act::Sub(k) | Act::Unsub(k) if *k != j => {}
            a => acts.push(*a),
          }
        }
        q.acts = acts;
        if let Err(e) = finite(&q) {
          discard(e);
        }
      }
      stats(&p);
      // all together
      let w = World::new(p.clone(), false);
      w.s.b().per_ctx = true;
      let root = w.root();
      w.drive(&root, false, |_, _| {});
      let nested_at = w.s.b().sub_step[1];
      drop(root);
      let all = w.s.b().logs.clone();
      let taps = w.s.b().taps.clone();
      w.clear();
      for l in &all {
        for (st, e) in l {
          observe(*st as u64);
          observe(hash_bytes(e.to_string().as_bytes()));
        }
      }
      if all.iter().filter(|l| !l.is_empty()).count() > 1 {
        nontrivial();
      }
      if p.nest.is_some() && nested_at.is_some() {
        probe("nested-subscription");
      }
      // each alone
      for j in 0..p.subs {
        let mut q = (*p).clone();
        let mut acts: Vec<Act> = vec![];
        for (i, a) in p.acts.iter().enumerate() {
          match a {
            Act::Sub(k) | Act::Unsub(k) if *k != j => {}
            a => acts.push(*a),
          }
          if j == 1 && p.nest.is_some() && nested_at == Some(i as i32) {
            acts.push(Act::Sub(1));
          }
        }
        q.acts = acts;
        q.nest = None;
        let w = World::new(Arc::new(q), false);
        w.s.b().per_ctx = true;
        let root = w.root();
        w.drive(&root, false, |_, _| {});
        drop(root);
        let s = w.s.b();
        let strip = |l: &[(i32, Ev)]| -> Vec<Ev> { l.iter().map(|e| e.1.clone()).collect() };
        let (a, b) = (strip(&all[j]), strip(&s.logs[j]));
        if a != b {
          drop(s);
          viol!("independence", "subscriber {} received [{}] but [{}] when it is the only one", j, show_ev(&a), show_ev(&b));
        }
        let mine = |t: &BTreeMap<(usize, usize), Vec<(i32, Ev)>>| -> BTreeMap<usize, Vec<Ev>> { t.iter().filter(|(k, _)| k.1 == j && k.0 < crate::model::INNER).map(|(k, l)| (k.0, strip(l))).collect() };
        let (a, b) = (mine(&taps), mine(&s.taps));
        if a != b {
          let f = |t: &BTreeMap<usize, Vec<Ev>>| t.iter().map(|(k, l)| format!("tap{}: {}", k, show_ev(l))).collect::<Vec<_>>().join("; ");
          drop(s);
          viol!("independence", "the taps of subscriber {} saw {{{}}} but {{{}}} when it is the only one", j, f(&a), f(&b));
        }
        if !a.is_empty() {
          probe("taps-compared");
        }
        drop(s);
        w.clear();
      }
    }),
  }
}

/// Several threads subscribe to one Observable at the same time. Nothing is
/// shared between the subscriptions but the Observable, so every one of them
/// must go as if it were alone.
fn gen_c14_thr(g: &mut G) -> Prep {
  let mut f = Prof::base();
  f.leaf = [6, 1];
  f.mode = [1, 0, 0];
  f.ends = [4, 4, 1];
  f.vary = true;
  f.max_items = 4;
  let subs = 2 + g.us(2);
  let hops = g.chance(1, 3);
  let (p, heads, taps) = if hops {
    f.w = [1, 0, 0, 0, 0, 0, 0, 0];
    f.impolite = false;
    f.tap = false;
    let mut gn = Gen::new(g, f);
    let (ex, heads) = line(&mut gn);
    let srcs = gn.srcs;
    (Prog { srcs, ex, rsg: None, subs, unsub_at: vec![None; subs], nest: None, emit_at: vec![], inside: None, acts: vec![Act::Sub(0)], lin: true }, heads, false)
  } else {
    f.w = [1, 8, 3, 2, 2, 1, 4, 0];
    f.depth = 1 + g.int(3);
    let mut p = program(g, &Shape { prof: f, unsub: (0, 1), selfunsub: (1, 6), rsg: (0, 1), subs });
    p.acts = vec![Act::Sub(0)];
    (p, vec![], true)
  };
  let cfg = Cfg::conc(g, 0);
  let p = Arc::new(p);
  Prep {
    desc: format!("{}; {} threads subscribe", p, subs),
    cfg,
    body: Box::new(move || {
      for h in heads.into_iter().chain([p.ex.clone()]) {
        let q = Prog { ex: h, ..(*p).clone() };
        if let Err(e) = finite(&q) {
          discard(e);
        }
      }
      stats(&p);
      probe("concurrent-subscriptions");
      let play = |who: Vec<usize>| -> World {
        let w = World::new(p.clone(), false);
        {
          let mut s = w.s.b();
          s.per_ctx = true;
          s.thr_ctx = true;
          s.conc = true;
        }
        let root = w.root();
        let mut js = vec![];
        for j in who {
          let (w, root) = (w.clone(), root.clone());
          js.push(spawn(&format!("h{}", j), move || {
            rt::set_tag(j);
            w.subscribe(j, &root)
          }));
        }
        for j in js {
          j.join().unwrap();
        }
        if hops {
          crate::real::calm(50_000_000);
        }
        settle(0);
        w
      };
      let strip = |l: &[(i32, Ev)]| -> Vec<Ev> { l.iter().map(|e| e.1.clone()).collect() };
      let mine = |w: &World, j: usize| -> BTreeMap<usize, Vec<Ev>> {
        let s = w.s.b();
        s.taps.iter().filter(|(k, _)| k.1 == j && k.0 < crate::model::INNER).map(|(k, l)| (k.0, strip(l))).collect()
      };
      let stop = |w: &World| {
        for j in 0..p.subs {
          w.unsub(j);
        }
        settle(20_000);
        w.clear();
      };
      let all = play((0..p.subs).collect());
      for l in &all.s.b().logs {
        for (_, e) in l {
          observe(hash_bytes(e.to_string().as_bytes()));
        }
      }
      if all.s.b().logs.iter().filter(|l| !l.is_empty()).count() > 1 {
        nontrivial();
      }
      for j in 0..p.subs {
        let w = play(vec![j]);
        let (a, b) = (strip(&all.s.b().logs[j]), strip(&w.s.b().logs[j]));
        if a != b {
          viol!("independence", "subscriber {}, while others subscribed on other threads, received [{}] but [{}] when it is the only one", j, show_ev(&a), show_ev(&b));
        }
        if taps {
          let (a, b) = (mine(&all, j), mine(&w, j));
          if a != b {
            let f = |t: &BTreeMap<usize, Vec<Ev>>| t.iter().map(|(k, l)| format!("tap{}: {}", k, show_ev(l))).collect::<Vec<_>>().join("; ");
            viol!("independence", "the taps of subscriber {}, while others subscribed on other threads, saw {{{}}} but {{{}}} when it is the only one", j, f(&a), f(&b));
          }
        }
        stop(&w);
      }
      stop(&all);
    }),
  }
}

// ------------------------------------------------------------ C15

pub static C15: Property = Property {
  id: "C15",
  gen: gen_c15,
  inconclusive: &[],
  real: seq::REAL,
  stub: seq::STUB,
  rule: "a case is a pipeline with at least one thread-creating source or operator, one to three rounds of subscribing and ending (complete, error, unsubscribe from another thread or from a callback, or an operator that ends early); non-trivial when library threads existed and the subscription had ended",
};
/// one timer period, after an item that is just being delayed
fn longest(e: &Ex) -> u64 {
  let (mut m, mut d) = (0, 0);
  e.walk(&mut |e| match e {
    Ex::Interval(x) | Ex::Timer(x) => m = m.max(*x),
    Ex::U(Op::Debounce(x) | Op::Timeout(x), _) => m = m.max(*x),
    Ex::U(Op::Delay(x), _) => d = d.max(*x),
    _ => {}
  });
  m + d
}
fn gen_c15(g: &mut G) -> Prep {
  let mut f = all_ops_prof();
  f.w = [3, 5, 3, 3, 2, 1, 2, 8];
  f.depth = 3;
  f.mode = [3, 4, 2];
  f.ends = [4, 3, 2];
  f.max_items = 4;
  f.max_srcs = 3;
  f.tap = false;
  let mut gn = Gen::new(g, f);
  let mut ex = if gn.g.chance(1, 2) {
    let d = gn.g.int(3);
    gn.ex(d, false)
  } else {
    // catalogue: one creator, one terminator
    match gn.g.int(9) {
      0 => Ex::Interval(500),
      1 => Ex::Timer(300),
      n => {
        let o = [Op::ObsOn, Op::SubOn, Op::Debounce(200), Op::Timeout(800), Op::Delay(200), Op::ObsOn, Op::SubOn][n as usize - 2].clone();
        let a = if gn.g.chance(1, 2) { Ex::Interval(300) } else { gn.src() };
        Ex::U(o, Box::new(a))
      }
    }
  };
  let is_creator = |e: &Ex| matches!(e, Ex::Interval(_) | Ex::Timer(_) | Ex::U(Op::ObsOn | Op::SubOn | Op::Debounce(_) | Op::Timeout(_), _));
  if !ex.any(&is_creator) {
    let o = gn.g.pick(&[Op::ObsOn, Op::SubOn, Op::Debounce(200), Op::Timeout(800)]).clone();
    ex = Ex::U(o, Box::new(ex));
  }
  // what ends it
  ex = match gn.g.int(14) {
    0 => Ex::U(Op::Take(1 + gn.g.us(2)), Box::new(ex)),
    1 => Ex::U(Op::First, Box::new(ex)),
    2 => {
      let t = if gn.g.chance(1, 2) { Ex::Timer(700) } else { gn.src() };
      Ex::Trig(Tr::TakeUntil, Box::new(ex), Box::new(t))
    }
    3 => {
      let t = if gn.g.chance(1, 2) { Ex::Timer(200) } else { gn.src() };
      let l = if gn.g.chance(1, 2) { vec![ex, t] } else { vec![t, ex] };
      Ex::Multi(Mu::Amb, l)
    }
    4 => Ex::U(Op::Retry(1 + gn.g.us(3)), Box::new(ex)),
    5 => Ex::U(Op::ElementAt(1), Box::new(ex)),
    6 => Ex::U(Op::Contains(0), Box::new(ex)),
    7 => Ex::U(Op::TakeWhile(1), Box::new(ex)),
    8 => {
      let s = gn.src();
      Ex::Multi(*gn.g.pick(&[Mu::Zip, Mu::Merge, Mu::Concat, Mu::Combine, Mu::SeqEq]), vec![ex, s])
    }
    9 => {
      // something that fails next to it
      let s = gn.src();
      Ex::Multi(Mu::Merge, vec![ex, Ex::Multi(Mu::Concat, vec![s, Ex::Error(975)])])
    }
    10 => Ex::Resume(Box::new(ex), Arc::new(vec![Ex::Empty])),
    _ => ex,
  };
  for i in 0..gn.srcs.len() {
    if gn.srcs[i].mode == Mode::Cold && gn.g.chance(1, 3) {
      gn.srcs[i].mode = Mode::Thr;
      if gn.g.chance(1, 2) {
        gn.srcs[i].pause = 100;
      }
    }
  }
  let rounds = 1 + gn.g.weighted(&[3, 2, 1]);
  let mut per_round = vec![];
  for j in 0..rounds {
    let mut t = if j == 0 { emitters(&mut gn, true, 2) } else { vec![] };
    if j > 0 {
      // hot sources go on where they are; give each one more event
      for i in 0..gn.srcs.len() {
        if matches!(gn.srcs[i].mode, Mode::Hot | Mode::Subj) && gn.g.chance(1, 2) {
          t.push(vec![TAct::Emit(i, SEv::N(1)), TAct::Emit(i, if gn.g.chance(1, 2) { SEv::C } else { SEv::N(2) })]);
        }
      }
    }
    if gn.g.chance(1, 2) {
      let mut l = vec![];
      if gn.g.chance(2, 3) {
        l.push(TAct::Sleep(50 + 100 * gn.g.int(14) as u64));
      }
      l.push(TAct::Unsub(j));
      t.push(l);
    }
    per_round.push(t);
  }
  let cfg = Cfg::conc(gn.g, 0);
  let mut p = Prog { srcs: gn.srcs, ex, rsg: None, subs: rounds, unsub_at: vec![None; rounds], nest: None, emit_at: vec![], inside: None, acts: vec![], lin: false };
  if g.chance(1, 6) {
    p.unsub_at[0] = Some(1 + g.us(2));
  }
  let wait = 40 + 100 * g.int(30) as u64;
  let p = Arc::new(p);
  Prep {
    desc: format!("{}; {}; waits {}", p, per_round.iter().enumerate().map(|(i, t)| format!("round {}: {}", i, show_threads(t))).collect::<Vec<_>>().join(" / "), wait),
    cfg,
    body: Box::new(move || {
      if endless(&p) {
        discard("endless");
      }
      stats(&p);
      let w = World::new(p.clone(), false);
      w.s.b().conc = true;
      let root = w.root();
      let max = longest(&p.ex);
      for j in 0..rounds {
        w.subscribe(j, &root);
        let mut js = vec![];
        for (i, t) in per_round[j].iter().enumerate() {
          let (w, t, root) = (w.clone(), t.clone(), root.clone());
          js.push(spawn(&format!("h{}.{}", j, i), move || {
            for a in t {
              w.tact(a, &root);
            }
          }));
        }
        for x in js {
          x.join().unwrap();
        }
        let ended = |w: &World| matches!(w.s.b().state[j], Sub::Terminated | Sub::Unsubscribed);
        if !lib_threads().is_empty() {
          probe("library-threads-alive-at-end-of-round");
          nontrivial();
        }
        if !ended(&w) {
          settle(wait);
        }
        if !ended(&w) {
          w.unsub(j);
          probe("ended-by-final-unsubscribe");
        } else if w.s.b().state[j] == Sub::Terminated {
          probe("ended-by-terminal");
        } else {
          probe("ended-by-unsubscribe");
        }
        // at most one timer period
        settle(max + 1);
        let l = lib_threads();
        if !l.is_empty() {
          viol!("thread-leak", "{} ns after subscription {} ended ({:?}) {} library thread(s) are still there: {}", max + 1, j, w.s.b().state[j], l.len(), rt::describe());
        }
      }
      probe("rounds");
      observe_recs(&w);
      drop(root);
      w.clear();
    }),
  }
}

// ------------------------------------------------------------ C17

pub static C17: Property = Property {
  id: "C17",
  gen: gen_c17,
  inconclusive: seq::HARNESS,
  real: seq::REAL,
  stub: seq::STUB,
  rule: "a case is a pipeline of C02-C04 operators (sometimes with thread-creating ones) whose subscriptions end by complete, error or unsubscribe; reference-counted tokens sit in every item, error payload, operator closure, source function and callback; non-trivial when the pipeline had at least one operator and a token of an operator closure or item",
};
fn gen_c17(g: &mut G) -> Prep {
  if g.chance(1, 4) {
    return super::race::gen_c17_race(g);
  }
  let mut f = all_ops_prof();
  f.w = [2, 8, 3, 3, 2, 2, 3, 0];
  f.mode = [3, 4, 2];
  f.ends = [4, 3, 2];
  if g.chance(1, 4) {
    f.w[7] = 3;
    f.depth = 3;
  }
  if g.chance(1, 3) {
    f.depth = 1;
    f.leaf = [20, 1];
  }
  let subs = 1 + g.weighted(&[3, 1]);
  let p = program(g, &Shape { prof: f, unsub: (1, 2), selfunsub: (1, 6), rsg: (1, 12), subs });
  let cfg = cfg_for(g, &p);
  let keep_sources = g.chance(1, 2);
  let p = Arc::new(p);
  Prep {
    desc: format!("{}{}", p, if keep_sources { "; sources outlive the handles" } else { "" }),
    cfg,
    body: Box::new(move || {
      if let Err(e) = finite(&p) {
        discard(e);
      }
      if p.ex.has_op(&|o| matches!(o, Op::RefCount | Op::Replay)) {
        probe("shared-connection");
      }
      stats(&p);
      let thr = threaded(&p.ex);
      let w = World::new(p.clone(), true);
      let root = w.root();
      w.drive(&root, thr, |_, _| {});
      for j in 0..p.subs {
        match w.s.b().state[j] {
          Sub::Terminated => probe("ended-by-terminal"),
          Sub::Unsubscribed => probe("ended-by-unsubscribe"),
          _ => probe("ended-by-final-unsubscribe"),
        }
        w.unsub(j);
      }
      if thr {
        settle(20_000);
      }
      let n = w.s.b().tokens.as_ref().unwrap().iter().filter(|t| t.0.starts_with("closure") || t.0 == "item").count();
      if n > 0 && p.ex.size() > 1 {
        nontrivial();
      }
      probe_n("tokens", w.s.b().tokens.as_ref().unwrap().len() as u64);
      observe(n as u64);
      drop(root);
      released(&w, keep_sources);
    }),
  }
}
/// Everything has ended and the observable is dropped: the library owns none
/// of what the user gave it.
pub fn released(w: &World, keep_sources: bool) {
  let h = std::mem::take(&mut w.s.b().handles);
  drop(h);
  if keep_sources {
    // the sources still hold the observers they were given
    let l: Vec<&str> = w.leaked();
    if !l.is_empty() {
      viol!("leak", "the subscriptions have ended and the handles are gone, the sources still exist: still alive: {:?}", l);
    }
    probe("released-while-sources-live");
  }
  w.clear();
  let l = w.leaked();
  if !l.is_empty() {
    viol!("leak", "the subscriptions have ended and every handle is gone but still alive: {:?}", l);
  }
}
