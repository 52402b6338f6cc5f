//! Events handed between threads: C09 (observe_on, subscribe_on).
use super::conc::*;
use super::race::*;
use super::seq::{self, *};
use crate::ex::*;
use crate::model;
use crate::real::*;
use crate::util::*;
use crate::val::*;
use crate::{viol, Property};
use simstd::rt;
use std::sync::Arc;

pub static C09: Property = Property {
  id: "C09",
  gen: gen_c09,
  inconclusive: &[],
  real: seq::REAL,
  stub: seq::STUB,
  rule: "a case is one source (synchronous, on a thread of its own, hot or a subject) under a chain of up to five single-source operators with one to three observe_on / subscribe_on at generated positions, one or two subscribers and optionally an unsubscribing thread, or a subject pushed by up to three threads and from inside the callbacks; non-trivial when the subscriber received at least one event on a library thread",
};

/// the program without threads
fn plain(p: &Prog) -> Prog {
  fn strip(e: &Ex) -> Ex {
    match e {
      Ex::U(Op::ObsOn | Op::SubOn, e) => strip(e),
      Ex::U(o, e) => Ex::U(o.clone(), Box::new(strip(e))),
      e => e.clone(),
    }
  }
  let mut q = p.clone();
  q.ex = strip(&p.ex);
  for s in &mut q.srcs {
    if s.mode == Mode::Thr {
      s.mode = Mode::Cold;
    }
  }
  q.subs = 1;
  q.unsub_at = vec![None];
  q.acts = vec![Act::Sub(0)];
  for (i, s) in q.srcs.iter().enumerate() {
    if matches!(s.mode, Mode::Hot | Mode::Subj) {
      q.acts.extend(s.scripts[0].iter().map(|_| Act::Emit(i)));
    }
  }
  q
}
/// operators outside-in
fn chain(e: &Ex) -> Vec<&Op> {
  let mut v = vec![];
  let mut e = e;
  while let Ex::U(o, i) = e {
    v.push(o);
    e = i;
  }
  v
}

/// A subject pushed by several threads and from inside the callbacks.
fn gen_many(g: &mut G) -> Prep {
  let np = 1 + g.weighted(&[1, 4, 2]);
  let mut threads: Vec<Vec<TAct>> = vec![];
  for t in 0..np {
    let n = g.big(140).unwrap_or_else(|| 1 + g.us(4));
    let mut l = vec![];
    for i in 0..n {
      if g.chance(1, 6) {
        l.push(TAct::Sleep(100 * (1 + g.int(9)) as u64));
      }
      l.push(TAct::Emit(0, SEv::N(1000 * (t as i64 + 1) + i as i64)));
    }
    threads.push(l);
  }
  let term = match g.int(5) {
    0 => None,
    1 | 2 => Some(SEv::E),
    _ => Some(SEv::C),
  };
  let late = g.chance(1, 2);
  if let (Some(t), false) = (term, late) {
    let k = g.us(np);
    threads[k].push(TAct::Emit(0, t));
  }
  let mut ex = Ex::Src(0);
  let nth = 1 + g.weighted(&[6, 3, 1]);
  let mut obson = false;
  for _ in 0..nth {
    if g.chance(1, 4) {
      ex = Ex::U(Op::Map(4), Box::new(ex));
    }
    let s = g.chance(2, 5);
    obson |= !s;
    ex = Ex::U(if s { Op::SubOn } else { Op::ObsOn }, Box::new(ex));
  }
  let subs = 1 + g.weighted(&[3, 1]);
  let mut emit_at = vec![];
  if g.chance(1, 2) {
    for i in 0..1 + g.us(2) {
      emit_at.push((g.us(subs), 1 + g.us(3), 0, SEv::N(900 + i as i64)));
    }
  }
  if g.chance(1, 3) {
    threads.push(vec![TAct::Unsub(g.us(subs))]);
  }
  let kind = if g.chance(1, 5) { 1 + g.int(2) as u8 } else { 0 };
  let cfg = Cfg::conc(g, 300);
  let cb_sleep = if g.chance(1, 5) { 70 } else { 0 };
  let src = Src { mode: Mode::Subj, polite: true, scripts: vec![vec![]], kind, pause: 0 };
  let p = Prog { srcs: vec![src], ex, rsg: None, subs, unsub_at: vec![None; subs], nest: None, emit_at, inside: None, acts: vec![], lin: false };
  let r = Race { p: Arc::new(p), first: 0, threads, end_unsub: false, settle: 10 * MS, cb_sleep, look: false };
  Prep {
    desc: format!("{} (subject kind {}); terminal {:?}{}", r.desc(), kind, term, if late { " at the end" } else { "" }),
    cfg,
    body: Box::new(move || {
      probe("many-producers");
      let w = World::new(r.p.clone(), false);
      {
        let mut s = w.s.b();
        s.check_c05 = true;
        s.flat_codes = true;
        s.conc = true;
      }
      let root = w.root();
      for j in 0..subs {
        w.subscribe(j, &root);
      }
      // subscribe_on subscribes later
      settle(10 * MS);
      let ready = rt::stamp();
      r.go(&w, &root);
      if let (Some(t), true) = (term, late) {
        w.emit_ev(0, t);
      }
      settle(10 * MS);
      observe_recs(&w);
      let s = w.s.b();
      let fin: Option<(u64, u64)> = s.emits.iter().find(|e| !matches!(e.0, SEv::N(_))).map(|e| (e.1, e.2));
      let push: Vec<(i64, u64, u64)> = s.emits.iter().filter_map(|e| if let SEv::N(x) = e.0 { Some((x, e.1, e.2)) } else { None }).collect();
      for j in 0..subs {
        let log: Vec<Ev> = s.recs[j].iter().map(|r| r.ev.clone()).collect();
        let shown = show_ev(&log);
        let items: Vec<i64> = log.iter().filter_map(|e| if let Ev::N(k) = e { Some(k.num()) } else { None }).filter(|x| *x != INITIAL).collect();
        let terms = log.iter().filter(|e| !matches!(e, Ev::N(_))).count();
        let cut = s.unsub_start[j];
        if s.recs[j].iter().any(|r| !rt::thread(r.thread).harness && r.thread != 0) {
          nontrivial();
        }
        if terms > 1 || (terms == 0 && fin.is_some() && cut.is_none()) || (terms == 1 && (fin.is_none() || (obson && matches!(log.last(), Some(Ev::N(_)))))) {
          viol!("events", "subscriber {} received {} terminals: [{}]", j, terms, shown);
        }
        for (i, x) in items.iter().enumerate() {
          if items[..i].contains(x) || !push.iter().any(|p| p.0 == *x) {
            viol!("events", "subscriber {} received {} twice or out of nothing: [{}]", j, x, shown);
          }
        }
        for (x, a, b) in &push {
          let must = cut.is_none() && *a > ready && fin.map_or(true, |f| *b < f.0);
          let at = items.iter().position(|i| i == x);
          if must && at.is_none() {
            viol!("events", "subscriber {} did not receive {}: [{}]", j, x, shown);
          }
          if let Some(at) = at {
            if fin.map_or(false, |f| f.1 < *a) {
              viol!("events", "subscriber {} received {}, pushed after the terminal: [{}]", j, x, shown);
            }
            for (y, c, _) in &push {
              // x was pushed entirely before y. (What a Behavior- or
              // ReplaySubject hands out is ordered by the subject.)
              if b < c {
                match items.iter().position(|i| i == y) {
                  Some(p) if p < at => viol!("events", "subscriber {} received {} before {}, which was pushed earlier: [{}]", j, y, x, shown),
                  _ => {}
                }
              }
            }
          } else if let (true, Some((y, _, _))) = (*a > ready, push.iter().find(|p| p.1 > *b && items.contains(&p.0))) {
            viol!("events", "subscriber {} received {} but not {}, which was pushed earlier: [{}]", j, y, x, shown);
          }
        }
        if obson {
          let l = &s.recs[j];
          for i in 1..l.len() {
            match l[i - 1].end {
              Some(e) if e < l[i].start => {}
              _ => viol!("overlap", "two callbacks of subscriber {} ran at the same time: {} and {}", j, l[i - 1].ev, l[i].ev),
            }
            if l[i].thread != l[0].thread {
              viol!("thread", "subscriber {} was called on thread {} and on thread {}", j, l[0].thread, l[i].thread);
            }
          }
          if let Some(r) = l.iter().find(|r| r.thread == 0 || rt::thread(r.thread).harness) {
            viol!("thread", "{} was delivered to subscriber {} on thread {}, which is not a scheduler thread", r.ev, j, r.thread);
          }
        }
      }
      drop(s);
      drop(root);
      w.clear();
    }),
  }
}

fn gen_c09(g: &mut G) -> Prep {
  if g.chance(1, 1500) {
    return super::huge::c09(g);
  }
  if g.chance(1, 4) {
    return gen_many(g);
  }
  let mut f = Prof::base();
  f.max_items = 6;
  f.ends = [5, 3, 1];
  f.tap = false;
  let mut gn = Gen::new(g, f);
  let nth = 1 + gn.g.weighted(&[6, 3, 1]);
  let nop = gn.g.weighted(&[3, 3, 2, 1]);
  // positions of the hand-overs among the operators
  let mut ops: Vec<Op> = (0..nop).map(|_| gn.op()).collect();
  let mut subon = false;
  for _ in 0..nth {
    let at = gn.g.us(ops.len() + 1);
    let s = gn.g.chance(2, 5);
    subon |= s;
    ops.insert(at, if s { Op::SubOn } else { Op::ObsOn });
  }
  let subs = 1 + gn.g.weighted(&[3, 1]);
  let mode = match gn.g.int(if subon { 4 } else { 8 }) {
    0 => Mode::Cold,
    1 | 2 if subs == 1 => Mode::Thr,
    0..=3 => Mode::Cold,
    4 | 5 => Mode::Hot,
    _ => Mode::Subj,
  };
  let mut ex = if mode == Mode::Cold && gn.g.chance(1, 4) {
    match gn.g.int(6) {
      0 => Ex::Iter((0..gn.g.us(6) as i64).collect()),
      1 => Ex::Range(0, gn.g.range(0, 5)),
      2 => Ex::Just(1),
      3 => Ex::Empty,
      4 => Ex::Error(975),
      _ => Ex::Start(2),
    }
  } else {
    let i = gn.new_src(Some(mode));
    if mode == Mode::Thr && gn.g.chance(1, 4) {
      gn.srcs[i].pause = 100;
    }
    Ex::Src(i)
  };
  for o in ops {
    ex = Ex::U(o, Box::new(ex));
  }
  let mut threads = emitters(&mut gn, true, 1);
  let cancel = gn.g.chance(2, 5);
  if cancel {
    let mut l = vec![];
    if gn.g.chance(1, 3) {
      l.push(TAct::Sleep(50 + 100 * gn.g.int(8) as u64));
    }
    l.push(TAct::Unsub(gn.g.us(subs)));
    threads.push(l);
  }
  let cfg = Cfg::conc(gn.g, 300);
  let cb_sleep = if gn.g.chance(1, 6) { 70 } else { 0 };
  let p = Prog { srcs: gn.srcs, ex, rsg: None, subs, unsub_at: vec![None; subs], nest: None, emit_at: vec![], inside: None, acts: vec![], lin: false };
  let mut p = p;
  let selfun = g.chance(1, 10);
  if selfun {
    p.unsub_at[0] = Some(1 + g.us(3));
  }
  let r = Race { p: Arc::new(p), first: subs, threads, end_unsub: false, settle: 100_000, cb_sleep, look: false };
  Prep {
    desc: r.desc(),
    cfg,
    body: Box::new(move || {
      let w = World::new(r.p.clone(), false);
      {
        let mut s = w.s.b();
        s.check_c05 = true;
        s.flat_codes = true;
      }
      let root = w.root();
      r.go(&w, &root);
      observe_recs(&w);
      let q = plain(&r.p);
      let ops = chain(&r.p.ex);
      probe(if ops.iter().any(|o| **o == Op::SubOn) { "subscribe_on" } else { "observe_on only" });
      if ops.iter().filter(|o| matches!(o, Op::ObsOn | Op::SubOn)).count() > 1 {
        probe("stacked");
      }
      let s = w.s.b();
      for j in 0..r.p.subs {
        let got: Vec<Ev> = s.recs[j].iter().map(|r| r.ev.clone()).collect();
        let cut = s.unsub_start[j].is_some();
        let mut want = String::new();
        let ok = model::search(&q, |o| {
          let l: Vec<(i32, Ev)> = o.logs[0].iter().map(|e| (0, e.1.clone())).collect();
          let g: Vec<(i32, Ev)> = got.iter().map(|e| (0, e.clone())).collect();
          if want.is_empty() {
            want = show_ev(&o.logs[0].iter().map(|e| e.1.clone()).collect::<Vec<_>>());
          }
          if cut {
            l.len() >= g.len() && seq::same(&l[..g.len()], &g)
          } else {
            seq::same(&l, &g)
          }
        });
        match ok {
          Ok(true) => {}
          Ok(false) => viol!("events", "subscriber {} received [{}] but {} [{}] (unsubscribed: {})", j, show_ev(&got), if cut { "not even a prefix of" } else { "the events are" }, want, cut),
          Err(_) => {
            probe("not-modelled");
          }
        }
        // one at a time
        let l = &s.recs[j];
        for i in 1..l.len() {
          match l[i - 1].end {
            Some(e) if e < l[i].start => {}
            _ => viol!("overlap", "two callbacks of subscriber {} ran at the same time: {} and {}", j, l[i - 1].ev, l[i].ev),
          }
        }
        if l.iter().any(|r| !rt::thread(r.thread).harness && r.thread != 0) {
          nontrivial();
        }
        // where they ran
        let first = ops.iter().position(|o| matches!(o, Op::ObsOn | Op::SubOn | Op::StartWith(_)));
        let obs = ops.iter().position(|o| **o == Op::ObsOn);
        let swith = ops.iter().position(|o| matches!(o, Op::StartWith(_)));
        let affine = match (obs, swith) {
          (Some(o), Some(s)) => o < s,
          (Some(_), None) => true,
          // a synchronous source below subscribe_on
          (None, s) => (s.is_none() || ops.iter().filter(|o| ***o == Op::SubOn).count() == 1)
            && r.p.srcs.iter().all(|s| s.mode == Mode::Cold) && first.map_or(false, |f| *ops[f] == Op::SubOn),
        };
        // default_scheduler hand-overs keep the thread
        if affine {
          for x in l {
            if x.thread == 0 || rt::thread(x.thread).harness {
              viol!("thread", "{} was delivered to subscriber {} on thread {}, which is not a scheduler thread", x.ev, j, x.thread);
            }
            if obs.is_some() && swith.is_none() && s.em_threads.contains(&x.thread) && r.p.subs == 1 {
              viol!("thread", "{} was delivered to subscriber {} on thread {}, the thread the source emits on", x.ev, j, x.thread);
            }
            if (obs.is_some() || first.is_some()) && x.thread != l[0].thread {
              viol!("thread", "subscriber {} was called on thread {} and on thread {}", j, l[0].thread, x.thread);
            }
          }
        }
      }
      // subscribe_on: the source is subscribed on a scheduler thread
      if ops.iter().any(|o| **o == Op::SubOn) {
        for (_, _, t) in &s.src_thread {
          if *t == 0 || rt::thread(*t).harness {
            viol!("thread", "below subscribe_on the source was subscribed on thread {}, which is not a scheduler thread", t);
          }
        }
      }
      drop(s);
      drop(root);
      w.clear();
    }),
  }
}
