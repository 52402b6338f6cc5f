//! Subjects and connectable observables: C10, C12, C13.
use super::conc::*;
use super::race::*;
use super::seq;
use crate::ex::*;
use crate::real::*;
use crate::util::*;
use crate::val::*;
use crate::{viol, Property};
use another_rxrust::prelude::*;
use simstd::rt;
use std::collections::BTreeMap;
use std::sync::Arc;

// ------------------------------------------------------------ observers

/// How one observer is attached.
#[derive(Clone, Debug)]
pub enum At {
  Direct,
  Map,
  Filter(u8),
  Take(usize),
  Skip(usize),
}
#[derive(Clone, Debug)]
pub struct Ob {
  pub at: At,
  /// unsubscribes itself inside its n-th item
  pub un: Option<usize>,
  /// subscribes observer k inside its n-th item
  pub nest: Option<(usize, usize)>,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ha {
  Sub(usize),
  Unsub(usize),
  Emit(SEv),
  Connect,
  Disconnect,
}
fn show_acts(l: &[Ha]) -> String {
  l.iter()
    .map(|a| match a {
      Ha::Sub(j) => format!("sub{}", j),
      Ha::Unsub(j) => format!("unsub{}", j),
      Ha::Emit(e) => show_script(&[*e]),
      Ha::Connect => "connect".into(),
      Ha::Disconnect => "disconnect".into(),
    })
    .collect::<Vec<_>>()
    .join(" ")
}
fn gen_ob(g: &mut G) -> Ob {
  let at = match g.int(8) {
    0 => At::Map,
    1 => At::Filter(g.int(8) as u8),
    2 | 3 => At::Take(1 + g.us(3)),
    4 => At::Skip(g.us(3)),
    _ => At::Direct,
  };
  let un = if g.chance(1, 6) { Some(1 + g.us(3)) } else { None };
  Ob { at, un, nest: None }
}
/// The first observer subscribes the last one. That one is attached without
/// counting: whether it gets the item that is being delivered is left open.
fn nest_last(g: &mut G, obs: &mut [Ob]) {
  let n = obs.len();
  obs[0].nest = Some((1 + g.us(2), n - 1));
  obs[n - 1].un = None;
  if !matches!(obs[n - 1].at, At::Map) {
    obs[n - 1].at = At::Direct;
  }
}
fn attach(at: &At, o: Obs) -> Obs {
  match at {
    At::Direct => o,
    At::Map => o.map(|v: V| v.with(K::I(v.k.num() + 50))),
    At::Filter(p) => {
      let p = *p;
      o.filter(move |v: V| pred(p, &v.k))
    }
    At::Take(n) => o.take(*n),
    At::Skip(n) => o.skip(*n),
  }
}

/// The reference for one observer: what it must have received so far. An
/// entry marked optional may be missing.
struct Obm {
  started: bool,
  active: bool,
  handle: bool,
  /// nothing is demanded
  free: bool,
  seen: usize,
  items: usize,
  want: Vec<(Ev, bool)>,
}
impl Obm {
  fn new() -> Obm {
    Obm { started: false, active: false, handle: false, free: false, seen: 0, items: 0, want: vec![] }
  }
}
fn fits(want: &[(Ev, bool)], got: &[Ev]) -> bool {
  match want.first() {
    None => got.is_empty(),
    Some((e, opt)) => (got.first() == Some(e) && fits(&want[1..], &got[1..])) || (*opt && fits(&want[1..], got)),
  }
}
fn show_want(w: &[(Ev, bool)]) -> String {
  w.iter().map(|(e, o)| if *o { format!("({})", e) } else { e.to_string() }).collect::<Vec<_>>().join(" ")
}

/// Mechanics shared by the two reference machines: one observer receives one
/// event. Returns the observer it subscribes meanwhile.
fn give(obs: &[Ob], m: &mut [Obm], j: usize, e: Ev, optional: bool) -> Option<usize> {
  if !m[j].active {
    return None;
  }
  let o = &mut m[j];
  match e {
    Ev::N(k) => {
      o.seen += 1;
      let (out, end) = match &obs[j].at {
        At::Direct => (Some(k), false),
        At::Map => (Some(K::I(k.num() + 50)), false),
        At::Filter(p) => (if pred(*p, &k) { Some(k) } else { None }, false),
        At::Take(n) => (Some(k), o.seen >= *n),
        At::Skip(n) => (if o.seen > *n { Some(k) } else { None }, false),
      };
      let Some(out) = out else { return None };
      o.want.push((Ev::N(out), optional));
      o.items += 1;
      let mut r = None;
      if let Some((n, k)) = obs[j].nest {
        if n == o.items {
          r = Some(k);
        }
      }
      if obs[j].un == Some(o.items) && o.handle {
        o.active = false;
      } else if end {
        o.want.push((Ev::C, false));
        o.active = false;
      }
      r
    }
    e => {
      o.want.push((e, false));
      o.active = false;
      None
    }
  }
}

// ------------------------------------------------------------ C10

pub static C10: Property = Property {
  id: "C10",
  gen: gen_c10,
  inconclusive: &[],
  real: seq::REAL,
  stub: seq::STUB,
  rule: "a case is a call history of up to 14 calls (subscribe, unsubscribe, next, error, complete, also after the terminal) on one of the four subject types with up to four observers attached directly or through an operator, some leaving or subscribing another from inside a callback; non-trivial when some observer received something",
};

struct SubjM<'a> {
  kind: u8,
  obs: &'a [Ob],
  m: Vec<Obm>,
  items: Vec<K>,
  last: K,
  /// the item before `last` while `last` is being broadcast
  prev: Option<K>,
  term: Option<Ev>,
}
impl SubjM<'_> {
  fn give(&mut self, j: usize, e: Ev, optional: bool) {
    if let Some(k) = give(self.obs, &mut self.m, j, e, optional) {
      self.sub(k);
    }
  }
  /// Nothing is demanded of j, nor of those it subscribes.
  fn free(&mut self, j: usize) {
    self.m[j].free = true;
    self.m[j].active = true;
    self.m[j].started = true;
    if let Some((_, k)) = self.obs[j].nest {
      if !self.m[k].started {
        self.free(k);
      }
    }
  }
  fn sub(&mut self, j: usize) {
    if self.m[j].started {
      return;
    }
    self.m[j].started = true;
    self.m[j].active = true;
    match self.kind {
      0 => {
        if self.term.is_some() {
          self.free(j);
        }
      }
      1 => match self.term.clone() {
        Some(t) => self.give(j, t, false),
        None => {
          if let Some(p) = self.prev.clone() {
            self.give(j, Ev::N(p), true);
          }
          let l = self.last.clone();
          self.give(j, Ev::N(l), false);
        }
      },
      2 => {
        for k in self.items.clone() {
          self.give(j, Ev::N(k), false);
        }
        if let Some(t) = self.term.clone() {
          self.give(j, t, false);
        }
      }
      _ => {
        if let Some(t) = self.term.clone() {
          self.async_end(j, t);
        }
      }
    }
    self.m[j].handle = true;
  }
  fn async_end(&mut self, j: usize, t: Ev) {
    if t == Ev::C {
      if let Some(l) = self.items.last().cloned() {
        self.give(j, Ev::N(l), false);
      }
    }
    self.give(j, t, false);
  }
  fn emit(&mut self, e: SEv) {
    let now: Vec<usize> = (0..self.m.len()).filter(|j| self.m[*j].active).collect();
    match e {
      SEv::N(x) => {
        if self.term.is_some() {
          return;
        }
        let k = K::I(x);
        self.prev = Some(std::mem::replace(&mut self.last, k.clone()));
        self.items.push(k.clone());
        if self.kind < 3 {
          for j in now {
            self.give(j, Ev::N(k.clone()), false);
          }
        }
        self.prev = None;
      }
      e => {
        if self.term.is_some() {
          return;
        }
        let t = if e == SEv::C { Ev::C } else { Ev::E(code_of(0, 0)) };
        self.term = Some(t.clone());
        for j in now {
          if self.kind == 3 {
            self.async_end(j, t.clone());
          } else {
            self.give(j, t.clone(), false);
          }
        }
      }
    }
  }
}

fn gen_c10(g: &mut G) -> Prep {
  if g.chance(1, 1500) {
    return super::huge::c10(g);
  }
  let kind = g.int(4) as u8;
  // many observers, a long history
  let many = g.big(270);
  let long = g.big(270);
  let n = many.unwrap_or_else(|| 1 + g.weighted(&[2, 3, 4, 1]));
  let mut obs: Vec<Ob> = (0..n).map(|_| gen_ob(g)).collect();
  if n > 1 && g.chance(1, 5) {
    nest_last(g, &mut obs);
  }
  let len = long.unwrap_or_else(|| 3 + g.us(12));
  let mut acts = vec![];
  let mut next_sub = 0;
  let mut v = 0;
  if many.is_some() {
    let k = n - g.us(4.min(n));
    while next_sub < k {
      if !obs.iter().any(|o| o.nest.map_or(false, |x| x.1 == next_sub)) {
        acts.push(Ha::Sub(next_sub));
      }
      next_sub += 1;
    }
  }
  for _ in 0..len {
    match g.weighted(&[4, 6, 2, 1, 1]) {
      0 if next_sub < n => {
        if !obs.iter().any(|o| o.nest.map_or(false, |x| x.1 == next_sub)) {
          acts.push(Ha::Sub(next_sub));
        }
        next_sub += 1;
      }
      0 | 1 => {
        v += 1;
        acts.push(Ha::Emit(SEv::N(if g.chance(1, 4) { g.range(0, 2) } else { v })));
      }
      2 => acts.push(Ha::Unsub(g.us(n))),
      _ if long.is_some() && !g.chance(1, 40) => {}
      3 => acts.push(Ha::Emit(SEv::C)),
      _ => acts.push(Ha::Emit(SEv::E)),
    }
  }
  // a late one more often than not
  while next_sub < n {
    if !obs.iter().any(|o| o.nest.map_or(false, |x| x.1 == next_sub)) && g.chance(2, 3) {
      acts.push(Ha::Sub(next_sub));
      if g.chance(1, 2) {
        acts.push(Ha::Emit(SEv::N(9)));
      }
    }
    next_sub += 1;
  }
  let clones = g.chance(1, 2);
  let mut cfg = Cfg::seq();
  cfg.budget *= 20;
  let p = Arc::new(Prog {
    srcs: vec![Src { mode: Mode::Subj, polite: true, scripts: vec![vec![]], kind, pause: 0 }],
    ex: Ex::Src(0),
    rsg: None,
    subs: n,
    unsub_at: obs.iter().map(|o| o.un).collect(),
    nest: None,
    emit_at: vec![],
    inside: None,
    acts: vec![],
    lin: false,
  });
  Prep {
    desc: format!("{}: {}; observers {:?}", ["Subject", "BehaviorSubject", "ReplaySubject", "AsyncSubject"][kind as usize], show_acts(&acts), obs),
    cfg,
    body: Box::new(move || {
      probe(["Subject", "BehaviorSubject", "ReplaySubject", "AsyncSubject"][kind as usize]);
      let w = World::new(p.clone(), true);
      let base = w.root();
      let roots: Vec<Obs> = obs.iter().map(|o| attach(&o.at, base.clone())).collect();
      w.s.b().nests = obs.iter().map(|o| o.nest.map(|(n, k)| (n, k, roots[k].clone()))).collect();
      let mut m = SubjM { kind, obs: &obs, m: (0..n).map(|_| Obm::new()).collect(), items: vec![], last: K::I(INITIAL), prev: None, term: None };
      for (i, a) in acts.iter().enumerate() {
        w.s.b().step = i as i32;
        match *a {
          Ha::Sub(j) => {
            w.subscribe(j, &roots[j]);
            m.sub(j);
          }
          Ha::Unsub(j) => {
            w.unsub(j);
            if m.m[j].handle {
              m.m[j].active = false;
            }
          }
          Ha::Emit(e) => {
            w.emit_ev(0, e);
            m.emit(e);
          }
          _ => {}
        }
        for j in 0..n {
          if m.m[j].free {
            continue;
          }
          let got: Vec<Ev> = w.s.b().logs[j].iter().map(|e| e.1.clone()).collect();
          if !fits(&m.m[j].want, &got) {
            viol!("multicast", "after call {} observer {} has received [{}] but must have received [{}]", i, j, show_ev(&got), show_want(&m.m[j].want));
          }
          if !got.is_empty() {
            nontrivial();
          }
        }
        // whoever left or ended is not held any more
        let live = w.live_tokens("subscriber's next");
        let may = m.m.iter().filter(|o| o.active).count();
        if live > may {
          viol!("holds", "after call {} {} observers are alive although only {} are still subscribed", i, live, may);
        }
      }
      if m.term.is_some() {
        probe("terminated");
      }
      for l in &w.s.b().logs {
        observe(l.len() as u64);
        for e in l {
          observe(hash_bytes(e.1.to_string().as_bytes()) ^ e.0 as u64);
        }
      }
      // A subject clones an item once per registered observer: the same number
      // of clones as a fresh subject with as many observers
      if clones && m.term.is_none() && m.m.iter().zip(&obs).all(|(m, o)| !m.active || (matches!(o.at, At::Direct) && o.un.is_none() && o.nest.is_none())) {
        let k = m.m.iter().filter(|o| o.active).count();
        let fresh = Sbj::new(kind);
        // (with as long a history)
        let past = w.s.b().emits.iter().filter(|e| matches!(e.0, SEv::N(_))).count();
        for _ in 0..past {
          fresh.next(V::new(K::I(1)));
        }
        let hs: Vec<_> = (0..k).map(|_| fresh.observable().subscribe(|_| {}, |_| {}, || {})).collect();
        let a = clones_of(|| fresh.next(V::new(K::I(1))));
        let b = clones_of(|| w.emit_ev(0, SEv::N(1)));
        drop(hs);
        probe("registrations-counted");
        if b > a {
          viol!("holds", "next() clones its item {} times with {} observers left; a fresh subject with as many clones it {} times", b, k, a);
        }
      }
      w.s.b().nests.clear();
      drop(base);
      drop(roots);
      w.clear();
    }),
  }
}
pub fn clones_of(f: impl FnOnce()) -> u64 {
  let a = CLONES.with(|c| c.get());
  f();
  CLONES.with(|c| c.get()) - a
}

// ------------------------------------------------------------ C12

pub static C12: Property = Property {
  id: "C12",
  gen: gen_c12,
  inconclusive: &[],
  real: seq::REAL,
  stub: seq::STUB,
  rule: "a case is a Subject, BehaviorSubject, ReplaySubject or AsyncSubject with one to three producer threads (1..4 items each), up to three observers subscribed before, during or after the pushes and an unsubscribing thread; non-trivial when a subscribe or unsubscribe call or another producer's push overlapped a push",
};
fn gen_c12(g: &mut G) -> Prep {
  if g.chance(1, 1500) {
    return super::huge::c12(g);
  }
  let kind = g.weighted(&[4, 4, 4, 1]) as u8;
  let np = 1 + g.weighted(&[5, 5, 1]);
  let mut lists: Vec<Vec<i64>> = vec![];
  let mut threads: Vec<Vec<TAct>> = vec![];
  for t in 0..np {
    let n = g.big(140).unwrap_or_else(|| 1 + g.us(4));
    let l: Vec<i64> = (0..n as i64).map(|i| 1000 * (t as i64 + 1) + i).collect();
    threads.push(l.iter().map(|x| TAct::Emit(0, SEv::N(*x))).collect());
    lists.push(l);
  }
  let term = match g.int(5) {
    0 => Some(SEv::C),
    1 => Some(SEv::E),
    _ => None,
  };
  // by the only producer (racing with subscribers), or when all are done
  let term_late = np > 1 || g.chance(1, 3);
  if let (Some(t), false) = (term, term_late) {
    threads[0].push(TAct::Emit(0, t));
  }
  let subs = g.big(40).unwrap_or_else(|| 1 + g.us(3));
  let first = g.us(subs + 1);
  // after everything
  let last = if first < subs && g.chance(1, 3) { 1 } else { 0 };
  let mut l = vec![];
  for j in first..subs - last {
    if g.chance(1, 3) {
      threads.push(vec![TAct::Sub(j)]);
    } else {
      l.push(TAct::Sub(j));
    }
  }
  if !l.is_empty() {
    threads.push(l);
  }
  if g.chance(1, 2) {
    let n = 1 + g.us(2);
    threads.push((0..n).map(|_| TAct::Unsub(g.us(subs))).collect());
  }
  let map = g.chance(1, 4);
  let cfg = Cfg::conc(g, 0);
  let mut unsub_at = vec![None; subs];
  if g.chance(1, 6) {
    unsub_at[g.us(subs)] = Some(1 + g.us(3));
  }
  let ex = if map { Ex::U(Op::Map(4), Box::new(Ex::Src(0))) } else { Ex::Src(0) };
  let cb_sleep = if g.chance(1, 8) { 50 } else { 0 };
  let p = Arc::new(Prog { srcs: vec![Src { mode: Mode::Subj, polite: true, scripts: vec![vec![]], kind, pause: 0 }], ex, rsg: None, subs, unsub_at, nest: None, emit_at: vec![], inside: None, acts: vec![], lin: false });
  let r = Race { p, first, threads, end_unsub: false, settle: 1_000, cb_sleep, look: false };
  Prep {
    desc: format!("{}; {} at the end{}", r.desc(), last, if term_late { format!("; {:?} when all producers are done", term) } else { String::new() }),
    cfg,
    body: Box::new(move || {
      probe(["Subject", "BehaviorSubject", "ReplaySubject", "AsyncSubject"][kind as usize]);
      let w = World::new(r.p.clone(), false);
      let root = w.root();
      r.go(&w, &root);
      if term_late {
        if let Some(t) = term {
          w.emit_ev(0, t);
        }
      }
      for j in subs - last..subs {
        w.subscribe(j, &root);
      }
      settle(1_000);
      observe_recs(&w);
      judge_c12(&w, kind, &lists);
      drop(root);
      w.clear();
    }),
  }
}
/// An AsyncSubject hands out the last item only, when it completes.
fn judge_async(w: &World, push: &BTreeMap<i64, (u64, u64)>, fin: &Option<(Ev, u64, u64)>) {
  let s = w.s.b();
  let is_last = |x: i64| push.get(&x).map_or(false, |p| !push.values().any(|q| q.0 > p.1));
  for j in 0..s.recs.len() {
    let Some(sub0) = s.sub_start[j] else { continue };
    let log: Vec<Ev> = s.recs[j].iter().map(|r| r.ev.clone()).collect();
    let all = s.unsub_start[j].is_none();
    let shown = show_ev(&log);
    if push.values().any(|p| p.0 < s.sub_ret[j].unwrap_or(u64::MAX) && sub0 < p.1) || push.values().any(|p| push.values().any(|q| q.0 < p.0 && p.0 < q.1)) {
      nontrivial();
    }
    let ok = match fin {
      None => log.is_empty(),
      Some((Ev::C, ..)) => match &log[..] {
        [Ev::N(k), Ev::C] => is_last(k.num()),
        [Ev::N(k)] => !all && is_last(k.num()),
        [] => !all,
        _ => false,
      },
      Some((t, ..)) => log == [t.clone()] || (log.is_empty() && !all),
    };
    if !ok {
      viol!("items", "observer {} of an AsyncSubject received [{}] of the pushes {:?}, which ended with {:?}", j, shown, push, fin.as_ref().map(|f| &f.0));
    }
  }
}
fn judge_c12(w: &World, kind: u8, lists: &[Vec<i64>]) {
  let s = w.s.b();
  // (start, end) of the push of every item
  let mut push: BTreeMap<i64, (u64, u64)> = BTreeMap::new();
  let mut fin: Option<(Ev, u64, u64)> = None;
  for (e, a, b) in &s.emits {
    match e {
      SEv::N(x) => {
        push.insert(*x, (*a, *b));
      }
      SEv::C => fin = Some((Ev::C, *a, *b)),
      SEv::E => fin = Some((Ev::E(code_of(0, 0)), *a, *b)),
    }
  }
  let all: Vec<i64> = lists.iter().flatten().copied().collect();
  if all.iter().any(|x| !push.contains_key(x)) {
    return; // a producer did not finish: reported elsewhere
  }
  let overlap = |a: u64, b: u64| push.values().any(|p| p.0 < b && a < p.1);
  if kind == 3 {
    drop(s);
    return judge_async(w, &push, &fin);
  }
  if lists.len() > 1 && lists[0].iter().any(|x| lists[1].iter().any(|y| push[x].0 < push[y].1 && push[y].0 < push[x].1)) {
    nontrivial();
    probe("pushes-overlap");
  }
  let mut orders: Vec<(usize, Vec<i64>)> = vec![];
  for j in 0..s.recs.len() {
    let (Some(sub0), Some(sub1)) = (s.sub_start[j], s.sub_ret[j]) else { continue };
    let un0 = s.unsub_start[j];
    if overlap(sub0, sub1) {
      nontrivial();
      probe("subscribe-overlaps-push");
    }
    if let Some(u) = un0 {
      if overlap(u, s.unsub_ret[j].unwrap_or(u64::MAX)) {
        nontrivial();
        probe("unsubscribe-overlaps-push");
      }
    }
    // in the order in which the callbacks started
    let log: Vec<Ev> = s.recs[j].iter().map(|r| r.ev.clone()).collect();
    let shown = show_ev(&log);
    let items: Vec<i64> = log.iter().filter_map(|e| if let Ev::N(k) = e { Some(k.num()) } else { None }).collect();
    let terms = log.iter().filter(|e| !matches!(e, Ev::N(_))).count();
    // terminals
    if terms > 1 || (terms == 1 && matches!(log.last(), Some(Ev::N(_)))) {
      viol!("terminals", "observer {} received [{}]", j, shown);
    }
    match &fin {
      None if terms > 0 => viol!("terminals", "observer {} received a terminal that was never sent: [{}]", j, shown),
      Some((t, a, _)) => {
        let must = un0.is_none() && (kind > 0 || sub1 < *a);
        if terms == 0 && must {
          viol!("terminals", "observer {} did not receive the terminal: [{}]", j, shown);
        }
        if terms == 1 && log.last() != Some(t) {
          viol!("terminals", "observer {} received the wrong terminal: [{}]", j, shown);
        }
      }
      _ => {}
    }
    // subscribed after the end: a subject hands out nothing, a BehaviorSubject
    // the terminal only
    let over = fin.as_ref().map_or(false, |f| f.2 < sub0);
    if over && kind < 2 {
      if !items.is_empty() {
        viol!("items", "observer {} subscribed after the terminal but received [{}]", j, shown);
      }
      continue;
    }
    for (i, x) in items.iter().enumerate() {
      let init = kind == 1 && *x == INITIAL && i == 0;
      if !init && !push.contains_key(x) {
        viol!("items", "observer {} received {}, which was not pushed{}: [{}]", j, x, if *x == INITIAL { " (the initial value may only come first)" } else { "" }, shown);
      }
    }
    // per producer
    for l in lists {
      let got: Vec<i64> = items.iter().copied().filter(|x| l.contains(x)).collect();
      let ok = got.is_empty() || (0..l.len()).any(|a| l[a..].starts_with(&got));
      if !ok {
        viol!("items", "observer {} received {:?} of the pushes {:?} (lost, duplicated or reordered): [{}]", j, got, l, shown);
      }
      for (i, x) in l.iter().enumerate() {
        let (a, b) = push[x];
        // it was subscribed during the whole push
        // (what a BehaviorSubject or ReplaySubject has queued for an observer
        // that leaves meanwhile may be dropped)
        let inside = sub1 < a && un0.map_or(true, |u| kind == 0 && b < u);
        if inside && !got.contains(x) {
          viol!("items", "observer {} was subscribed while {} was pushed but did not receive it: [{}]", j, x, shown);
        }
        // the push was over when it came
        if kind == 0 && b < sub0 && got.contains(x) {
          viol!("items", "observer {} received {}, pushed before it subscribed: [{}]", j, x, shown);
        }
        // nothing that was pushed early on is missing in front
        if kind == 2 && un0.is_none() && !got.contains(x) {
          viol!("items", "observer {} never received {} (item {} of {:?}): [{}]", j, x, i, l, shown);
        }
        if kind == 2 && !got.is_empty() && got[0] != l[0] {
          viol!("items", "observer {} missed the beginning of {:?}: [{}]", j, l, shown);
        }
      }
    }
    if kind == 1 {
      let Some(v) = items.first().copied() else {
        // nothing at all: only if the terminal came first or it left
        let may = un0.is_some() || fin.as_ref().map_or(false, |f| f.1 < sub1);
        if !may {
          viol!("items", "observer {} was not handed the latest value: [{}]", j, shown);
        }
        continue;
      };
      let (va, vb) = if v == INITIAL { (0, 0) } else { push[&v] };
      for (x, (a, b)) in &push {
        // pushed entirely after v but before the subscription: v was stale
        if *a > vb && *b < sub0 {
          viol!("items", "observer {} was handed {} although {} had been pushed since: [{}]", j, v, x, shown);
        }
        if *b < va && items.contains(x) {
          viol!("items", "observer {} received {} after the later value {}: [{}]", j, x, v, shown);
        }
        if *a > vb && un0.is_none() && !items.contains(x) {
          viol!("items", "observer {} was handed {} but missed the later {}: [{}]", j, v, x, shown);
        }
      }
    }
    if kind == 2 {
      // push order, as far as real time tells, for those that came late
      if sub0 > push.values().map(|p| p.0).min().unwrap_or(0) {
        for i in 0..items.len() {
          for k in i + 1..items.len() {
            if push[&items[k]].1 < push[&items[i]].0 {
              viol!("items", "late observer {} received {} before {}, which was pushed earlier: [{}]", j, items[i], items[k], shown);
            }
          }
        }
        if un0.is_none() {
          orders.push((j, items.clone()));
        }
      }
    }
  }
  for o in orders.windows(2) {
    if o[0].1 != o[1].1 {
      viol!("items", "late observers {} and {} were given different histories: {:?} and {:?}", o[0].0, o[1].0, o[0].1, o[1].1);
    }
  }
}

// ------------------------------------------------------------ C13

pub static C13: Property = Property {
  id: "C13",
  gen: gen_c13,
  inconclusive: &[],
  real: seq::REAL,
  stub: seq::STUB,
  rule: "a case is publish, ref_count or replay over a hot or a synchronous cold source and a history of up to 14 calls (subscribe, unsubscribe, connect, disconnect, emissions, terminal) with up to four subscribers attached directly or through an operator; non-trivial when the source was subscribed and a subscriber received something",
};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
  Publish,
  RefCount,
  Replay,
}
struct ConnM<'a> {
  kind: Kind,
  obs: &'a [Ob],
  m: Vec<Obm>,
  cold: Option<&'a [SEv]>,
  connected: bool,
  /// items of this history
  items: Vec<K>,
  /// an earlier connection's history may have been kept
  old: Vec<K>,
  term: Option<Ev>,
  connects: usize,
  current: Option<K>,
}
impl ConnM<'_> {
  fn count(&self) -> usize {
    self.m.iter().filter(|o| o.active).count()
  }
  fn give(&mut self, j: usize, e: Ev, optional: bool) {
    let k = give(self.obs, &mut self.m, j, e, optional);
    if let Some(k) = k {
      self.sub(k);
    }
    self.left();
  }
  /// the last subscriber may have left
  fn left(&mut self) {
    if self.kind != Kind::Publish && self.count() == 0 && self.connected {
      self.disconnect();
    }
  }
  fn disconnect(&mut self) {
    self.connected = false;
    if self.term.is_none() && self.kind == Kind::Replay {
      self.old.append(&mut self.items);
    }
  }
  fn connect(&mut self) {
    self.connected = true;
    self.connects += 1;
    if let Some(sc) = self.cold {
      let c = self.connects;
      // a cold source starts over
      self.old.clear();
      for e in sc {
        if !self.connected || self.connects != c {
          break;
        }
        self.emit(*e);
      }
    }
  }
  fn sub(&mut self, j: usize) {
    if self.m[j].started {
      return;
    }
    self.m[j].started = true;
    self.m[j].active = true;
    if self.term.is_some() && self.kind != Kind::Replay {
      self.m[j].free = true;
      self.m[j].active = false;
      return;
    }
    if self.kind == Kind::Replay {
      for k in self.old.clone() {
        self.give(j, Ev::N(k), true);
      }
      for k in self.items.clone() {
        self.give(j, Ev::N(k), false);
      }
      if let Some(t) = self.term.clone() {
        self.give(j, t, false);
      }
    } else if let Some(x) = self.current.clone() {
      // subscribed inside the callback of x
      self.give(j, Ev::N(x), true);
    }
    if self.kind != Kind::Publish && self.m[j].active && !self.connected && self.term.is_none() {
      self.connect();
    }
    self.m[j].handle = true;
  }
  fn emit(&mut self, e: SEv) {
    if !self.connected {
      return;
    }
    let now: Vec<usize> = (0..self.m.len()).filter(|j| self.m[*j].active).collect();
    match e {
      SEv::N(x) => {
        let k = K::I(x);
        self.items.push(k.clone());
        self.current = Some(k.clone());
        for j in now {
          self.give(j, Ev::N(k.clone()), false);
        }
        self.current = None;
      }
      e => {
        let t = if e == SEv::C { Ev::C } else { Ev::E(code_of(0, 0)) };
        self.term = Some(t.clone());
        self.connected = false;
        for j in now {
          self.give(j, t.clone(), false);
        }
      }
    }
  }
}
fn gen_c13(g: &mut G) -> Prep {
  if g.chance(1, 1500) {
    return super::huge::c13(g);
  }
  if g.chance(2, 5) {
    return super::conn::gen_threads(g);
  }
  let kind = *g.pick(&[Kind::Publish, Kind::RefCount, Kind::Replay]);
  let cold = g.chance(2, 5);
  let many = g.big(140);
  let long = g.big(140);
  let n = many.unwrap_or_else(|| 1 + g.weighted(&[1, 3, 4, 1]));
  let mut obs: Vec<Ob> = (0..n).map(|_| gen_ob(g)).collect();
  if n > 1 && g.chance(1, 6) {
    nest_last(g, &mut obs);
  }
  // With a history kept from an earlier connection the operators in between
  // would see optional items: those subscribers are attached directly
  let script: Vec<SEv> = if cold {
    let m = long.unwrap_or_else(|| g.us(4));
    let mut v: Vec<SEv> = (1..=m as i64).map(SEv::N).collect();
    match g.int(3) {
      0 => v.push(SEv::C),
      1 => v.push(SEv::E),
      _ => {}
    }
    v
  } else {
    vec![]
  };
  let nested = |j: usize| obs.iter().any(|o| o.nest.map_or(false, |x| x.1 == j));
  let len = long.or(many).unwrap_or(0) + 3 + g.us(12);
  let mut acts = vec![];
  let mut next_sub = 0;
  let mut v = 0;
  let mut conn = false;
  for _ in 0..len {
    match g.weighted(&[if many.is_some() { 50 } else { 5 }, if long.is_some() { 50 } else { 6 }, 3, 1, 3]) {
      0 if next_sub < n => {
        if !nested(next_sub) {
          acts.push(Ha::Sub(next_sub));
        }
        next_sub += 1;
      }
      0 | 1 => {
        if !cold {
          v += 1;
          acts.push(Ha::Emit(SEv::N(v)));
        }
      }
      2 => acts.push(Ha::Unsub(g.us(n))),
      3 => {
        if !cold {
          acts.push(Ha::Emit(if g.chance(1, 2) { SEv::C } else { SEv::E }));
        }
      }
      _ => {
        if kind == Kind::Publish {
          acts.push(if conn { Ha::Disconnect } else { Ha::Connect });
          conn = !conn;
        }
      }
    }
  }
  let polite = !g.chance(1, 3);
  let down = g.chance(1, 4);
  let mut cfg = Cfg::seq();
  cfg.budget *= 20;
  let p = Arc::new(Prog {
    srcs: vec![Src { mode: if cold { Mode::Cold } else { Mode::Hot }, polite, scripts: vec![script.clone()], kind: 0, pause: 0 }],
    ex: if down { Ex::U(Op::Map(4), Box::new(Ex::Src(0))) } else { Ex::Src(0) },
    rsg: None,
    subs: n,
    unsub_at: obs.iter().map(|o| o.un).collect(),
    nest: None,
    emit_at: vec![],
    inside: None,
    acts: vec![],
    lin: false,
  });
  Prep {
    desc: format!("{}.{:?} over {}: {}; observers {:?}", p.ex, kind, if cold { format!("cold({}){}", show_script(&script), if polite { "" } else { " (never checks is_subscribed)" }) } else { "a hot source".into() }, show_acts(&acts), obs),
    cfg,
    body: Box::new(move || {
      probe(match kind {
        Kind::Publish => "publish",
        Kind::RefCount => "ref_count",
        Kind::Replay => "replay",
      });
      let w = World::new(p.clone(), false);
      {
        let mut s = w.s.b();
        s.flat_codes = true;
        s.one_live = kind != Kind::Publish;
      }
      let src = w.root();
      let mut publ = None;
      let base: Obs = match kind {
        Kind::Publish => {
          let x = src.publish();
          let o = x.observable();
          publ = Some(x);
          o
        }
        Kind::RefCount => src.ref_count().observable(),
        Kind::Replay => src.replay().observable(),
      };
      let roots: Vec<Obs> = obs.iter().map(|o| attach(&o.at, base.clone())).collect();
      w.s.b().nests = obs.iter().map(|o| o.nest.map(|(n, k)| (n, k, roots[k].clone()))).collect();
      let mut m = ConnM { kind, obs: &obs, m: (0..n).map(|_| Obm::new()).collect(), cold: if cold { Some(&script) } else { None }, connected: false, items: vec![], old: vec![], term: None, connects: 0, current: None };
      let mut conn: Option<Subscription<'static>> = None;
      for (i, a) in acts.iter().enumerate() {
        w.s.b().step = i as i32;
        match *a {
          Ha::Sub(j) => {
            // a kept history in front of an operator or a count is not modelled
            if !m.old.is_empty() && (!matches!(obs[j].at, At::Direct | At::Map) || obs[j].un.is_some() || obs[j].nest.is_some()) {
              break;
            }
            w.subscribe(j, &roots[j]);
            m.sub(j);
          }
          Ha::Unsub(j) => {
            w.unsub(j);
            if m.m[j].handle {
              m.m[j].active = false;
              m.left();
            }
          }
          Ha::Emit(e) => {
            if m.term.is_some() {
              break;
            }
            w.emit_ev(0, e);
            m.emit(e);
          }
          Ha::Connect => {
            if m.term.is_some() {
              break;
            }
            conn = Some(publ.as_ref().unwrap().connect());
            m.connect();
          }
          Ha::Disconnect => {
            if let Some(c) = conn.take() {
              c.unsubscribe();
            }
            m.disconnect();
          }
        }
        for j in 0..n {
          if m.m[j].free {
            continue;
          }
          let got: Vec<Ev> = w.s.b().logs[j].iter().map(|e| e.1.clone()).collect();
          if !fits(&m.m[j].want, &got) {
            viol!("shared", "after call {} subscriber {} has received [{}] but must have received [{}]", i, j, show_ev(&got), show_want(&m.m[j].want));
          }
          if !got.is_empty() {
            nontrivial();
          }
        }
        let free = m.m.iter().any(|o| o.free);
        let live = w.live()[0].len();
        let subs = w.s.b().insts.len();
        if !free {
          if live != m.connected as usize {
            viol!("connection", "after call {} the source has {} open subscription(s) but must have {}", i, live, m.connected as usize);
          }
          if subs != m.connects {
            viol!("connection", "after call {} the source has been subscribed {} time(s) but must have been {} time(s)", i, subs, m.connects);
          }
        } else if kind != Kind::Publish && live > 1 {
          viol!("connection", "after call {} the source has {} open subscriptions", i, live);
        }
        if m.connects > 1 {
          probe("reconnected");
        }
        observe(live as u64 * 64 + subs as u64);
      }
      if m.term.is_some() {
        probe("terminated");
      }
      for l in &w.s.b().logs {
        observe(l.len() as u64);
        for e in l {
          observe(hash_bytes(e.1.to_string().as_bytes()) ^ e.0 as u64);
        }
      }
      drop(conn);
      w.s.b().nests.clear();
      drop(base);
      drop(roots);
      w.clear();
    }),
  }
}
#[allow(dead_code)]
fn unused() -> u64 {
  rt::now()
}
