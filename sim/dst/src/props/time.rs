//! Time-based sources and operators on the virtual clock: C16.
use super::conc::*;
use super::seq;
use crate::real::{code, Obs};
use crate::util::*;
use crate::val::*;
use crate::{say, viol, Property};
use crate::ex::{code_of, show_script, SEv};
use another_rxrust::prelude::*;
use simstd::rt;
use std::sync::Arc;
use std::time::Duration;

pub static C16: Property = Property {
  id: "C16",
  gen: gen_c16,
  inconclusive: &[],
  real: seq::REAL,
  stub: seq::STUB,
  rule: "a case is a timed source (interval, timer, a script with gaps on its own thread, on the subscribing thread or behind a subject, or two scripts merged) under up to three operators (delay, timeout, debounce, sample, take, map, observe_on), with up to two subscribers, an unsubscription instant, wall-clock jumps and, in a quarter of the cases, stalled threads; non-trivial when an event reached a timed operator or a timed source emitted",
};

const D: &[u64] = &[30, 55, 95, 130, 250, 333, 777, 1250];
const GAP: &[u64] = &[0, 10, 40, 70, 120, 200, 260, 500, 1100];

#[derive(Clone, Copy, PartialEq, Debug)]
enum On {
  /// its own thread
  Thread,
  /// the subscribing thread
  Sync,
  /// a thread that pushes into a subject
  Hot,
}
#[derive(Clone, Debug)]
enum Leaf {
  Interval { d: u64, default: bool },
  Timer { d: u64, default: bool },
  Script { on: On, polite: bool, l: Vec<(u64, SEv)> },
  Merge(Vec<Vec<(u64, SEv)>>),
}
#[derive(Clone, Debug)]
enum Stage {
  Delay(u64),
  Timeout(u64),
  Debounce(u64),
  SampleI(u64),
  SampleS(Vec<(u64, SEv)>),
  /// triggered by two threads
  SampleM(Vec<(u64, SEv)>, Vec<(u64, SEv)>),
  Take(usize),
  Map,
  ObsOn,
}
impl std::fmt::Display for Leaf {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    let sh = |l: &[(u64, SEv)]| l.iter().map(|(g, e)| format!("+{} {}", g, show_script(&[*e]))).collect::<Vec<_>>().join(", ");
    match self {
      Leaf::Interval { d, default } => write!(f, "interval({}{})", d, if *default { ", default scheduler" } else { "" }),
      Leaf::Timer { d, default } => write!(f, "timer({}{})", d, if *default { ", default scheduler" } else { "" }),
      Leaf::Script { on, polite, l } => write!(f, "{:?}({}){}", on, sh(l), if *polite { "" } else { " (never checks is_subscribed)" }),
      Leaf::Merge(v) => write!(f, "merge({})", v.iter().map(|l| sh(l)).collect::<Vec<_>>().join(" | ")),
    }
  }
}

fn script(g: &mut G, base: i64, max: usize) -> Vec<(u64, SEv)> {
  let n = g.us(max + 1);
  let mut v: Vec<(u64, SEv)> = (0..n).map(|i| (*g.pick(GAP), SEv::N(base + i as i64))).collect();
  match g.int(4) {
    0 | 1 => v.push((*g.pick(GAP), SEv::C)),
    2 => v.push((*g.pick(GAP), SEv::E)),
    _ => {}
  }
  v
}
fn stage(g: &mut G, w: &[u32]) -> Stage {
  match g.weighted(w) {
    0 => Stage::Delay(span(g, true)),
    1 => Stage::Timeout(span(g, true)),
    2 => Stage::Debounce(span(g, false)),
    3 => Stage::SampleI(span(g, false)),
    4 if g.chance(1, 2) => Stage::SampleM(script(g, 0, 5), script(g, 0, 5)),
    4 => Stage::SampleS(script(g, 0, 4)),
    5 => Stage::Take(1 + g.us(4)),
    6 => Stage::Map,
    _ => Stage::ObsOn,
  }
}

struct Tr {
  /// (virtual time, event), per subscriber and level
  rec: Vec<Vec<Vec<(u64, Ev)>>>,
  sub_at: Vec<u64>,
  unsub_at: Vec<Option<u64>>,
  handle: Vec<Option<Subscription<'static>>>,
  cur: usize,
  stalls: bool,
}

thread_local! {
  /// nanoseconds of one tick, in which every duration of a case is given
  static TICK: std::cell::Cell<u64> = const { std::cell::Cell::new(MS) };
}
fn tick() -> u64 {
  TICK.with(|t| t.get())
}
/// a duration that is over when nobody is there any more (`Duration::MAX`)
const NEVER: u64 = u64::MAX;
fn ms(d: u64) -> Duration {
  if d == NEVER {
    return Duration::MAX;
  }
  Duration::from_nanos(d * tick())
}
/// The same in nanoseconds.
fn nanos(d: u64) -> u64 {
  if d == NEVER {
    return u64::MAX / 8;
  }
  d * tick()
}
/// Mostly one of D; sometimes no time at all (`zero`), sometimes forever.
fn span(g: &mut G, zero: bool) -> u64 {
  if g.chance(1, 24) {
    return NEVER;
  }
  if zero && g.chance(1, 24) {
    return 0;
  }
  *g.pick(D)
}
fn at(t: u64) -> String {
  format!("{}.{:06}", t / MS, t % MS)
}
fn show_t(l: &[(u64, Ev)]) -> String {
  l.iter().map(|(t, e)| format!("{}@{}", e, at(*t))).collect::<Vec<_>>().join(" ")
}
fn timed_out(e: &RxError) -> bool {
  e.downcast_ref::<std::io::Error>().map_or(false, |e| e.kind() == std::io::ErrorKind::TimedOut)
}
/// error code of TimedOut in the logs
const TIMED_OUT: u32 = 999_999;
fn errk(e: &RxError) -> u32 {
  if timed_out(e) {
    TIMED_OUT
  } else {
    code(e)
  }
}
fn mkerr() -> RxError {
  RxError::from_error(ErrTok { code: code_of(0, 0), born: 0, tok: None })
}
fn log(s: &Sh<Tr>, j: usize, k: usize, e: Ev) {
  say!("level {} of subscriber {}: {}", k, j, e);
  observe(hash_bytes(e.to_string().as_bytes()) ^ (k as u64) << 40);
  s.b().rec[j][k].push((rt::now(), e));
}
fn tap(s: &Sh<Tr>, k: usize, o: Obs) -> Obs {
  let (a, b, c) = (s.clone(), s.clone(), s.clone());
  o.tap(move |v: V| log(&a, 0, k, Ev::N(v.k.clone())), move |e| log(&b, 0, k, Ev::E(errk(&e))), move || log(&c, 0, k, Ev::C))
}
/// Plays a script; `f` returns false to stop.
fn play(l: &[(u64, SEv)], mut f: impl FnMut(SEv) -> bool) {
  for (g, e) in l {
    if *g > 0 {
      simstd::thread::sleep(ms(*g));
    }
    if !f(*e) {
      break;
    }
  }
}
fn send(o: &Observer<'static, V>, e: SEv) {
  match e {
    SEv::N(x) => o.next(V::new(K::I(x))),
    SEv::E => o.error(mkerr()),
    SEv::C => o.complete(),
  }
}
fn of(e: SEv) -> Ev {
  match e {
    SEv::N(x) => Ev::N(K::I(x)),
    SEv::E => Ev::E(code_of(0, 0)),
    SEv::C => Ev::C,
  }
}

fn gen_c16(g: &mut G) -> Prep {
  if g.chance(1, 1500) {
    return super::huge::c16(g);
  }
  let subs = if g.chance(1, 4) { 2 } else { 1 };
  let mut leaf = match g.weighted(&[4, 2, 8, 2]) {
    0 if g.chance(1, 5) => Leaf::Interval { d: *g.pick(D), default: true },
    0 => Leaf::Interval { d: span(g, false), default: false },
    1 if g.chance(1, 5) => Leaf::Timer { d: *g.pick(D), default: true },
    1 => Leaf::Timer { d: span(g, true), default: false },
    2 => Leaf::Script { on: *g.pick(&[On::Thread, On::Thread, On::Sync, On::Hot]), polite: !g.chance(1, 3), l: script(g, 100, 6) },
    _ => Leaf::Merge(vec![script(g, 100, 4), script(g, 200, 4)]),
  };
  if subs > 1 {
    if let Leaf::Merge(v) = &leaf {
      leaf = Leaf::Script { on: On::Thread, polite: true, l: v[0].clone() };
    }
  }
  let n = if subs > 1 { g.us(2) } else { g.weighted(&[2, 4, 3, 1]) };
  let mut stages: Vec<Stage> = (0..n).map(|_| stage(g, &[4, 5, 3, 2, 2, 1, 1, 1])).collect();
  if let Leaf::Interval { default: true, .. } = leaf {
    // it keeps the subscribing thread until somebody downstream has enough
    for s in &mut stages {
      if let Stage::SampleS(_) | Stage::SampleM(..) = s {
        *s = Stage::SampleI(95);
      }
    }
    if subs == 1 {
      stages.push(Stage::Take(1 + g.us(4)));
    } else {
      stages = vec![Stage::Take(1 + g.us(4))];
    }
  }
  if let (true, Leaf::Script { on, .. }) = (subs > 1 && stages.iter().any(|s| matches!(s, Stage::Delay(_))), &mut leaf) {
    // behind a subject one slow subscriber delays the other
    *on = On::Thread;
  }
  if n > 2 {
    // at most one slow operator per chain
    stages.dedup_by(|a, b| matches!((a, b), (Stage::Delay(_), Stage::Delay(_))));
  }
  if let Leaf::Script { on: On::Sync, .. } | Leaf::Interval { default: true, .. } | Leaf::Timer { default: true, .. } = leaf {
    // the subscribing thread has to come back
    for s in &mut stages {
      if let Stage::Delay(d @ NEVER) | Stage::Debounce(d @ NEVER) | Stage::SampleI(d @ NEVER) = s {
        *d = 55;
      }
    }
  }
  let end = *g.pick(&[400u64, 900, 2_000, 4_100]);
  // instants are odd so that they do not meet the sources' grid
  let offs = g.us(3) as u64 * 137 + 1;
  let unsub: Vec<Option<u64>> = (0..subs).map(|_| if g.chance(1, 3) { Some(3 + 10 * g.int(150) as u64) } else { None }).collect();
  let mut unsub_in = vec![None; subs];
  if g.chance(1, 6) {
    unsub_in[0] = Some(1 + g.us(3));
  }
  let jumps = if g.chance(1, 3) { 1 + g.us(3) } else { 0 };
  let jump: Vec<(u64, i64)> = (0..jumps).map(|_| (g.int(900) as u64, (g.range(-5, 5)) * 1_000_000_000)).collect();
  // what a tick is: mostly a millisecond
  let tick = if g.chance(1, 4) { *g.pick(&[1u64, 1_000, 12_345, 333_333, 1_234_567, 7_000_001, 1_000_000_000, 97_000_000_007]) } else { MS };
  let cfg = Cfg::conc(g, 300 * tick);
  let stalls = cfg.stall_ns > 0;
  Prep {
    desc: format!(
      "{} -> {:?}; {} subscriber(s) {} ticks apart; unsubscribed at {:?}, in item {:?}, all at {}; clock jumps {:?}; a tick is {} ns{}",
      leaf,
      stages,
      subs,
      offs,
      unsub,
      unsub_in,
      end,
      jump,
      tick,
      if stalls { "; stalled threads" } else { "" }
    ),
    cfg,
    body: Box::new(move || {
      TICK.with(|t| t.set(tick));
      run_c16(leaf, stages, subs, end, offs, unsub, unsub_in, jump, stalls)
    }),
  }
}

#[allow(clippy::too_many_arguments)]
fn run_c16(leaf: Leaf, stages: Vec<Stage>, subs: usize, end: u64, offs: u64, unsub: Vec<Option<u64>>, unsub_in: Vec<Option<usize>>, jump: Vec<(u64, i64)>, stalls: bool) {
  let n = stages.len();
  let s = Sh::new(Tr {
    rec: vec![vec![vec![]; n + 1]; subs],
    sub_at: vec![0; subs],
    unsub_at: vec![None; subs],
    handle: (0..subs).map(|_| None).collect(),
    cur: 0,
    stalls,
  });
  let cold = |l: Vec<(u64, SEv)>, on: On, polite: bool, rec: bool| -> Obs {
    let s = s.clone();
    Observable::create(move |o: Observer<'static, V>| {
      let (s, l) = (s.clone(), l.clone());
      let j = s.b().cur;
      let f = move || {
        play(&l, |e| {
          if polite && !o.is_subscribed() {
            return false;
          }
          if rec {
            log(&s, j, 0, of(e));
          }
          send(&o, e);
          true
        })
      };
      if on == On::Sync {
        f();
      } else {
        spawn("source", f);
      }
    })
  };
  let multi = subs > 1;
  let mut hot = None;
  let mut o: Obs = match &leaf {
    Leaf::Interval { d, default } => {
      let o = if *default { observables::interval(ms(*d), schedulers::default_scheduler()) } else { observables::interval(ms(*d), schedulers::new_thread_scheduler()) };
      o.map(|i| V::new(K::I(i as i64)))
    }
    Leaf::Timer { d, default } => {
      let o = if *default { observables::timer(ms(*d), schedulers::default_scheduler()) } else { observables::timer(ms(*d), schedulers::new_thread_scheduler()) };
      o.map(|_| V::new(K::I(0)))
    }
    Leaf::Script { on: On::Hot, l, .. } => {
      let b = subjects::Subject::<'static, V>::new();
      hot = Some((b.clone(), l.clone()));
      b.observable()
    }
    Leaf::Script { on, polite, l } => cold(l.clone(), *on, *polite, multi),
    Leaf::Merge(v) => cold(v[0].clone(), On::Thread, true, false).merge(&[cold(v[1].clone(), On::Thread, true, false)]),
  };
  let from_source = multi && matches!(leaf, Leaf::Script { .. });
  if !multi {
    o = tap(&s, 0, o);
  }
  for (i, st) in stages.iter().enumerate() {
    let nt = schedulers::new_thread_scheduler();
    o = match st {
      Stage::Delay(d) => o.delay(ms(*d)),
      Stage::Timeout(d) => o.timeout(ms(*d), nt),
      Stage::Debounce(d) => o.debounce(ms(*d), nt),
      Stage::SampleI(d) => o.sample(observables::interval(ms(*d), nt)),
      Stage::SampleS(l) => {
        let l = l.clone();
        o.sample(cold(l, On::Thread, true, false))
      }
      Stage::SampleM(l, m) => o.sample(cold(l.clone(), On::Thread, true, false).merge(&[cold(m.clone(), On::Thread, true, false)])),
      Stage::Take(k) => o.take(*k),
      Stage::Map => o.map(|v: V| v),
      Stage::ObsOn => o.observe_on(nt),
    };
    if !multi && i + 1 < n {
      o = tap(&s, i + 1, o);
    }
  }
  // faults: the wall clock jumps
  if !jump.is_empty() {
    let jump = jump.clone();
    spawn("clock", move || {
      for (t, d) in jump {
        simstd::thread::sleep(ms(t));
        rt::jump_wall(d);
      }
    });
  }
  if let Some((b, l)) = hot {
    let s = s.clone();
    spawn("source", move || {
      play(&l, |e| {
        if from_source {
          for j in 0..subs {
            // subscribers that are not there yet do not get it
            let there = s.b().sub_at[j] > 0;
            if there || stalls {
              log(&s, j, 0, of(e));
            }
          }
        }
        match e {
          SEv::N(x) => b.next(V::new(K::I(x))),
          SEv::E => b.error(mkerr()),
          SEv::C => b.complete(),
        }
        true
      })
    });
  }
  for j in 0..subs {
    simstd::thread::sleep(ms(if j == 0 { 1 } else { offs }));
    if let Some(t) = unsub[j] {
      let s = s.clone();
      spawn("unsubscriber", move || {
        simstd::thread::sleep(ms(t));
        stop(&s, j);
      });
    }
    {
      let mut x = s.b();
      x.cur = j;
      x.sub_at[j] = rt::now();
    }
    let (a, b, c) = (s.clone(), s.clone(), s.clone());
    let count = Sh::new(0usize);
    let me = unsub_in[j];
    let last = n;
    // level 0 has been logged by the tap or the source
    let logged = n == 0 && (from_source || !multi);
    let h = o.subscribe(
      move |v: V| {
        fin(&a, j, last, logged, Ev::N(v.k.clone()));
        let k = count.get() + 1;
        count.set(k);
        if me == Some(k) {
          stop(&a, j);
        }
      },
      move |e| fin(&b, j, last, logged, Ev::E(errk(&e))),
      move || fin(&c, j, last, logged, Ev::C),
    );
    s.b().handle[j] = Some(h);
  }
  rt::quiesce(end * tick());
  for j in 0..subs {
    stop(&s, j);
  }
  settle(10_000 * tick());
  for j in 0..subs {
    judge(&s, j, &leaf, &stages, multi, stalls);
  }
  for l in &s.b().rec {
    if l.iter().any(|x| !x.is_empty()) {
      nontrivial();
    }
  }
  if stalls {
    probe("stalled-case");
  }
  s.b().handle.clear();
}
fn fin(s: &Sh<Tr>, j: usize, n: usize, logged: bool, e: Ev) {
  // nothing after unsubscribe (what is in flight may be stalled)
  let u = s.b().unsub_at[j];
  if let (Some(u), false) = (u, s.b().stalls) {
    if rt::now() > u {
      viol!("late", "subscriber {} received {} at {} although it unsubscribed at {}", j, e, at(rt::now()), at(u));
    }
  }
  if !logged {
    log(s, j, n, e);
  }
}
fn stop(s: &Sh<Tr>, j: usize) {
  let h = s.b().handle[j].take();
  if let Some(h) = h {
    // the instant before the call
    let t = rt::now();
    h.unsubscribe();
    let t = if rt::now() > t { rt::now() } else { t };
    let mut x = s.b();
    if x.unsub_at[j].is_none() {
      x.unsub_at[j] = Some(t);
    }
  }
}

/// Does an emission at this level return without virtual time passing?
fn prompt(stages: &[Stage]) -> bool {
  for s in stages {
    match s {
      Stage::Delay(_) => return false,
      Stage::ObsOn | Stage::Debounce(_) | Stage::SampleI(_) | Stage::SampleS(_) | Stage::SampleM(..) => return true,
      _ => {}
    }
  }
  true
}

fn judge(s: &Sh<Tr>, j: usize, leaf: &Leaf, stages: &[Stage], multi: bool, stalls: bool) {
  let t = s.b().clone_for(j);
  let n = stages.len();
  let exact = !stalls;
  // when level k stopped listening: unsubscribed, or something below ended
  let stop = |k: usize| -> u64 {
    let mut e = t.unsub.unwrap_or(u64::MAX);
    for l in &t.rec[k + 1..] {
      for (at, ev) in l {
        if !matches!(ev, Ev::N(_)) {
          e = e.min(*at);
        }
      }
    }
    // take reached its count
    e
  };
  // the input of the first stage, computed when it was not recorded
  let mut input = t.rec[0].clone();
  if !(multi && n > 0 && !matches!(leaf, Leaf::Script { .. })) {
    leaf_judge(&t, leaf, exact && prompt(stages), stop(0), exact);
  } else if exact && prompt(stages) {
    let e = stop(0);
    input = match leaf {
      Leaf::Interval { d, .. } => (0..).map(|i| (t.sub + (i as u64 + 1) * nanos(*d), Ev::N(K::I(i)))).take_while(|x| x.0 <= e).collect(),
      Leaf::Timer { d, .. } => vec![(t.sub + nanos(*d), Ev::N(K::I(0))), (t.sub + nanos(*d), Ev::C)],
      _ => vec![],
    };
  } else {
    return;
  }
  for (k, st) in stages.iter().enumerate() {
    let out = &t.rec[k + 1];
    if k > 0 {
      input = t.rec[k].clone();
    }
    let e = stop(k + 1);
    // a terminal and an item of different threads at one instant
    let threads = matches!(leaf, Leaf::Merge(_)) || stages[..k].iter().any(|s| matches!(s, Stage::Timeout(_) | Stage::Debounce(_) | Stage::SampleI(_) | Stage::SampleS(_) | Stage::SampleM(..)));
    let tie = threads && terminal(&input).map_or(false, |x| input.iter().any(|y| is_item(&y.1) && y.0 == x.0));
    let exact = exact && !tie;
    // items that arrive here may overtake each other at one instant (or any
    // time when threads are stalled)
    let mixed = matches!(leaf, Leaf::Merge(_)) || stages[..k].iter().any(|s| matches!(s, Stage::SampleM(..)));
    let serial = !mixed && !matches!(st, Stage::SampleM(..));
    // ... even those of one producer
    let one = stages[..k].iter().all(|s| !matches!(s, Stage::SampleM(..))) && !matches!(st, Stage::SampleM(..));
    match st {
      Stage::Delay(d) => delay_judge(*d, &input, out, e, exact, one, j),
      Stage::Timeout(d) => timeout_judge(*d, &input, out, e, exact && prompt(&stages[k + 1..]), exact || !mixed, j),
      Stage::Debounce(_) => subset_judge("debounce", &input, out, exact, exact && serial, one, j),
      Stage::SampleI(_) | Stage::SampleS(_) | Stage::SampleM(..) => subset_judge("sample", &input, out, exact, exact && serial, one, j),
      _ => {}
    }
  }
}
struct One {
  rec: Vec<Vec<(u64, Ev)>>,
  sub: u64,
  unsub: Option<u64>,
}
impl Tr {
  fn clone_for(&self, j: usize) -> One {
    One { rec: self.rec[j].clone(), sub: self.sub_at[j], unsub: self.unsub_at[j] }
  }
}
fn leaf_judge(t: &One, leaf: &Leaf, exact: bool, stop: u64, calm: bool) {
  let got = &t.rec[0];
  let shown = || show_t(got);
  match leaf {
    Leaf::Interval { d, .. } => {
      let d = nanos(*d);
      probe("interval");
      let mut prev = t.sub;
      for (i, (at_, e)) in got.iter().enumerate() {
        if *e != Ev::N(K::I(i as i64)) {
          viol!("interval", "event {} of the interval is {}: [{}]", i, e, shown());
        }
        let due = t.sub + (i as u64 + 1) * d;
        if exact && *at_ != due {
          viol!("interval", "tick {} came at {} instead of {}: [{}]", i, at(*at_), at(due), shown());
        }
        if *at_ < due || *at_ < prev {
          viol!("interval", "tick {} came at {}, before {}: [{}]", i, at(*at_), at(due), shown());
        }
        if exact && *at_ > stop {
          viol!("interval", "tick {} came at {} although the subscription ended at {}", i, at(*at_), at(stop));
        }
        prev = *at_;
      }
      if exact {
        let next = t.sub + (got.len() as u64 + 1) * d;
        if next < stop {
          viol!("interval", "no tick came at {} although it was subscribed until {}: [{}]", at(next), at(stop), shown());
        }
      }
    }
    Leaf::Timer { d, .. } => {
      let due = t.sub + nanos(*d);
      probe("timer");
      let want = [Ev::N(K::I(0)), Ev::C];
      for (i, (at_, e)) in got.iter().enumerate() {
        if i >= 2 || *e != want[i] {
          viol!("timer", "the timer emitted [{}]", shown());
        }
        if *at_ < due || (exact && *at_ != due) {
          viol!("timer", "the timer emitted {} at {} instead of {}", e, at(*at_), at(due));
        }
      }
      if calm && got.len() < 2 && due < stop {
        // (the terminal comes after the item has been handled downstream)
        let slow = !exact && got.len() == 1;
        if !slow {
          viol!("timer", "the timer emitted only [{}] although it was due at {} and subscribed until {}", shown(), at(due), at(stop));
        }
      }
    }
    _ => {}
  }
}
fn is_item(e: &Ev) -> bool {
  matches!(e, Ev::N(_))
}
fn terminal(l: &[(u64, Ev)]) -> Option<(u64, Ev)> {
  l.iter().find(|x| !is_item(&x.1)).cloned()
}
fn delay_judge(d: u64, input: &[(u64, Ev)], out: &[(u64, Ev)], stop: u64, exact: bool, one: bool, j: usize) {
  probe("delay");
  let d = nanos(d);
  let show = || format!("received [{}], delivered [{}]", show_t(input), show_t(out));
  for (i, (t, e)) in out.iter().enumerate() {
    if !is_item(e) {
      if after(out, i, exact) {
        viol!("delay", "subscriber {}: events after the terminal: {}", j, show());
      }
      continue;
    }
    if out[..i].iter().any(|x| x.1 == *e) {
      viol!("delay", "subscriber {}: delay delivered {} twice: {}", j, e, show());
    }
    match input.iter().find(|x| x.1 == *e) {
      None => viol!("delay", "subscriber {}: delay delivered {}, which it never received: {}", j, e, show()),
      Some((a, _)) => {
        if *t < a + d || (exact && *t != a + d) {
          viol!("delay", "subscriber {}: delay delivered {} at {} instead of {}: {}", j, e, at(*t), at(a + d), show());
        }
      }
    }
  }
  // order; items of different producers received at one instant may swap
  for x in 0..out.len() {
    for y in x + 1..out.len() {
      let f = |e: &Ev| input.iter().position(|z| z.1 == *e);
      if let (true, true, Some(a), Some(b)) = (is_item(&out[x].1), is_item(&out[y].1), f(&out[x].1), f(&out[y].1)) {
        let same = one && producer(&out[x].1) == producer(&out[y].1);
        if a > b && (same || (exact && input[a].0 != input[b].0)) {
          viol!("delay", "subscriber {}: delay reordered {} and {}: {}", j, out[x].1, out[y].1, show());
        }
      }
    }
  }
  if exact {
    let term = terminal(input);
    for (a, e) in input {
      if !is_item(e) {
        break;
      }
      // an error from another thread may overtake an item in flight
      let cut = match &term {
        Some((t, Ev::E(_))) => stop.min(*t),
        _ => stop,
      };
      // a completion at the very instant an item is due may come first
      let tie = matches!(&term, Some((t, Ev::C)) if *t == a + d);
      if a + d < cut && !tie && !out.iter().any(|x| x.1 == *e) {
        viol!("delay", "subscriber {}: {} was received at {} but never delivered: {}", j, e, at(*a), show());
      }
    }
    if let Some((t, e)) = term {
      // a completion does not overtake the items
      let t = match e {
        Ev::C => input.iter().filter(|x| is_item(&x.1)).map(|x| x.0 + d).fold(t, u64::max),
        _ => t,
      };
      if t < stop && !out.iter().any(|x| x.1 == e) {
        viol!("delay", "subscriber {}: the terminal {} was not passed on: {}", j, e, show());
      }
    }
  }
}
/// Something was delivered after the terminal (which is at position i). What
/// another thread is just delivering may cross it.
fn after(out: &[(u64, Ev)], i: usize, exact: bool) -> bool {
  exact && out[i + 1..].iter().any(|x| x.0 > out[i].0)
}
fn producer(e: &Ev) -> i64 {
  match e {
    Ev::N(k) => k.num() / 100,
    _ => -1,
  }
}
fn timeout_judge(d: u64, input: &[(u64, Ev)], out: &[(u64, Ev)], stop: u64, exact: bool, single: bool, j: usize) {
  probe("timeout");
  let d = nanos(d);
  let show = || format!("received [{}], delivered [{}]", show_t(input), show_t(out));
  let fail = Ev::E(TIMED_OUT);
  // an upstream timeout may have failed too
  let theirs = input.iter().any(|x| x.1 == fail);
  if let Some(i) = out.iter().position(|x| !is_item(&x.1)) {
    if after(out, i, exact) {
      viol!("timeout", "subscriber {}: events after the terminal: {}", j, show());
    }
    if out[i].1 == fail && !theirs {
      match out[..i].last() {
        None => viol!("timeout", "subscriber {}: timed out before any item: {}", j, show()),
        // (a stalled timer thread may report a gap that is over)
        Some(_) => {
          if single && !out[..=i].windows(2).any(|w| w[1].0 >= w[0].0 + d) {
            viol!("timeout", "subscriber {}: timed out at {} although nothing was missing for {} ticks: {}", j, at(out[i].0), d / tick(), show());
          }
        }
      }
      probe("timed-out");
    }
  }
  let mut seen = vec![];
  for (_, e) in out {
    if is_item(e) {
      if seen.contains(&e) || !input.iter().any(|x| x.1 == *e) {
        viol!("timeout", "subscriber {}: {} delivered twice or never received: {}", j, e, show());
      }
      seen.push(e);
    }
  }
  if !exact {
    return;
  }
  // exactly what must come out
  let mut want: Vec<(u64, Ev)> = vec![];
  let mut due: Option<u64> = None;
  let mut done = false;
  for (t, e) in input {
    if let Some(f) = due {
      if f == *t {
        // exactly simultaneous: either
        return;
      }
      if f < *t {
        break;
      }
    }
    want.push((*t, e.clone()));
    due = None;
    if !is_item(e) {
      done = true;
      break;
    }
    due = Some(t + d);
  }
  if let (Some(f), false) = (due, done) {
    want.push((f, fail));
  }
  let strict: Vec<(u64, Ev)> = want.iter().filter(|x| x.0 < stop).cloned().collect();
  let may: Vec<(u64, Ev)> = want.iter().filter(|x| x.0 <= stop).cloned().collect();
  // merged producers may swap at one instant
  let mut sorted = out.to_vec();
  let mut smay = may.clone();
  let key = |x: &(u64, Ev)| (x.0, !is_item(&x.1), x.1.to_string());
  sorted.sort_by_key(key);
  smay.sort_by_key(key);
  let mut sstrict = strict.clone();
  sstrict.sort_by_key(key);
  let ok = sorted.iter().all(|x| smay.contains(x)) && sstrict.iter().all(|x| sorted.contains(x));
  if !ok {
    viol!("timeout", "subscriber {}: timeout({}) must deliver [{}] until {}: {}", j, d / tick(), show_t(&may), at(stop), show());
  }
}
fn subset_judge(what: &'static str, input: &[(u64, Ev)], out: &[(u64, Ev)], exact: bool, ordered: bool, one: bool, j: usize) {
  probe(if what == "sample" { "sample" } else { "debounce" });
  let show = || format!("received [{}], delivered [{}]", show_t(input), show_t(out));
  let mut last: Option<usize> = None;
  let mut out_at = 0;
  let mut seen: Vec<&Ev> = vec![];
  for (i, (t, e)) in out.iter().enumerate() {
    if !is_item(e) {
      if after(out, i, exact) {
        viol!(what, "subscriber {}: events after the terminal: {}", j, show());
      }
      continue;
    }
    probe("sampled");
    let Some(p) = input.iter().position(|x| x.1 == *e) else {
      viol!(what, "subscriber {}: {} was never received: {}", j, e, show());
    };
    if input[p].0 > *t {
      viol!(what, "subscriber {}: {} was delivered before it was received: {}", j, e, show());
    }
    if seen.contains(&e) {
      viol!(what, "subscriber {}: {} was delivered twice: {}", j, e, show());
    }
    if let Some(l) = last {
      let same = one && producer(&input[l].1) == producer(e);
      if p < l && (same || ordered || (exact && input[p].0 != input[l].0 && (one || *t != out_at))) {
        viol!(what, "subscriber {}: {} was delivered out of order: {}", j, e, show());
      }
    }
    seen.push(e);
    last = Some(p);
    out_at = *t;
  }
}

// ------------------------------------------------------------ C14

/// Independence on the clock: several subscribers of one timed pipeline, each
/// compared with a pipeline of its own. Every duration is generic (it has its
/// own odd nanoseconds), so nothing independent happens at one instant.
pub fn gen_c14_timed(g: &mut G) -> Prep {
  let subs = 2 + g.us(2);
  let leaf = match g.weighted(&[3, 1, 6, 2]) {
    0 => Leaf::Interval { d: *g.pick(D), default: g.chance(1, 6) },
    1 => Leaf::Timer { d: *g.pick(D), default: g.chance(1, 6) },
    2 => Leaf::Script { on: *g.pick(&[On::Thread, On::Hot, On::Hot, On::Sync]), polite: !g.chance(1, 3), l: script(g, 100, 6) },
    _ => Leaf::Merge(vec![script(g, 100, 4), script(g, 200, 4)]),
  };
  let mut stages: Vec<Stage> = (0..1 + g.us(3)).map(|_| stage(g, &[2, 4, 4, 3, 3, 1, 1, 2])).collect();
  let hot = matches!(leaf, Leaf::Script { on: On::Hot, .. });
  if hot {
    // a slow subscriber of a subject holds up the others
    stages.retain(|s| !matches!(s, Stage::Delay(_)));
  }
  if let Leaf::Interval { default: true, .. } = leaf {
    for s in &mut stages {
      if let Stage::SampleS(_) | Stage::SampleM(..) = s {
        *s = Stage::SampleI(95);
      }
    }
    stages.push(Stage::Take(1 + g.us(4)));
  }
  let k = if g.chance(1, 3) { 1_500 } else { 400 };
  let offs: Vec<u64> = (0..subs).map(|_| g.int(k) as u64).collect();
  let unsub: Vec<Option<u64>> = (0..subs).map(|_| if g.chance(1, 3) { Some(3 + g.int(1_500) as u64) } else { None }).collect();
  let end = *g.pick(&[900u64, 2_000, 3_500]);
  let offs: Vec<u64> = offs.into_iter().map(|o| o % (end - 100)).collect();
  let cfg = Cfg::conc(g, 0);
  Prep {
    desc: format!("{} -> {:?}; subscribers at {:?}, unsubscribed after {:?}, all at {}", leaf, stages, offs, unsub, end),
    cfg,
    body: Box::new(move || {
      probe("timed");
      let all: Vec<usize> = (0..subs).collect();
      let got = trial(&leaf, &stages, &all, &offs, &unsub, end);
      if got.iter().filter(|l| !l.is_empty()).count() > 1 {
        nontrivial();
      }
      for j in 0..subs {
        let alone = trial(&leaf, &stages, &[j], &offs, &unsub, end).remove(0);
        if got[j] != alone {
          viol!("independence", "subscriber {} received [{}] but [{}] when it is the only one", j, show_t(&got[j]), show_t(&alone));
        }
      }
    }),
  }
}
/// one of the durations of a case, made generic
fn gen_ns(d: u64, id: u64) -> u64 {
  if d == NEVER {
    return u64::MAX / 8;
  }
  d * MS + 1 + rt::mix(d, id) % 9_973 * 97
}
fn trial(leaf: &Leaf, stages: &[Stage], who: &[usize], offs: &[u64], unsub: &[Option<u64>], end: u64) -> Vec<Vec<(u64, Ev)>> {
  let t0 = rt::now();
  let dur = |d: u64, id: u64| if d == NEVER { Duration::MAX } else { Duration::from_nanos(gen_ns(d, id)) };
  let run = |l: &[(u64, SEv)], id: u64, mut f: Box<dyn FnMut(SEv) -> bool>| {
    for (i, (g, e)) in l.iter().enumerate() {
      simstd::thread::sleep(Duration::from_nanos(if *g == 0 && i > 0 && id == 1 { 0 } else { gen_ns(*g, id * 100 + i as u64) }));
      if !f(*e) {
        break;
      }
    }
  };
  let cold = |l: Vec<(u64, SEv)>, on: On, polite: bool, id: u64| -> Obs {
    Observable::create(move |o: Observer<'static, V>| {
      let l = l.clone();
      let f = move || {
        run(
          &l,
          id,
          Box::new(move |e| {
            if polite && !o.is_subscribed() {
              return false;
            }
            send(&o, e);
            true
          }),
        )
      };
      if on == On::Sync {
        f();
      } else {
        spawn("source", f);
      }
    })
  };
  let nt = schedulers::new_thread_scheduler;
  let df = schedulers::default_scheduler;
  let mut o: Obs = match leaf {
    Leaf::Interval { d, default } => (if *default { observables::interval(dur(*d, 2), df()) } else { observables::interval(dur(*d, 2), nt()) }).map(|i| V::new(K::I(i as i64))),
    Leaf::Timer { d, default } => (if *default { observables::timer(dur(*d, 2), df()) } else { observables::timer(dur(*d, 2), nt()) }).map(|_| V::new(K::I(0))),
    Leaf::Script { on: On::Hot, l, .. } => {
      let b = subjects::Subject::<'static, V>::new();
      let l = l.clone();
      let h = b.clone();
      spawn("source", move || {
        run(
          &l,
          1,
          Box::new(move |e| {
            match e {
              SEv::N(x) => h.next(V::new(K::I(x))),
              SEv::E => h.error(mkerr()),
              SEv::C => h.complete(),
            }
            true
          }),
        )
      });
      b.observable()
    }
    Leaf::Script { on, polite, l } => cold(l.clone(), *on, *polite, 1),
    Leaf::Merge(v) => cold(v[0].clone(), On::Thread, true, 3).merge(&[cold(v[1].clone(), On::Thread, true, 4)]),
  };
  for (i, st) in stages.iter().enumerate() {
    let id = 10 + 3 * i as u64;
    o = match st {
      Stage::Delay(d) => o.delay(dur(*d, id)),
      Stage::Timeout(d) => o.timeout(dur(*d, id), nt()),
      Stage::Debounce(d) => o.debounce(dur(*d, id), nt()),
      Stage::SampleI(d) => o.sample(observables::interval(dur(*d, id), nt())),
      Stage::SampleS(l) => o.sample(cold(l.clone(), On::Thread, true, id)),
      Stage::SampleM(l, m) => o.sample(cold(l.clone(), On::Thread, true, id).merge(&[cold(m.clone(), On::Thread, true, id + 1)])),
      Stage::Take(k) => o.take(*k),
      Stage::Map => o.map(|v: V| v),
      Stage::ObsOn => o.observe_on(nt()),
    };
  }
  let logs: Sh<Vec<Vec<(u64, Ev)>>> = Sh::new(vec![vec![]; who.len()]);
  let handles: Sh<Vec<Option<Subscription<'static>>>> = Sh::new((0..who.len()).map(|_| None).collect());
  let over = Sh::new(false);
  for (i, j) in who.iter().enumerate() {
    let (o, logs, handles, over) = (o.clone(), logs.clone(), handles.clone(), over.clone());
    let (off, un) = (gen_ns(offs[*j], 70 + *j as u64), unsub[*j].map(|u| gen_ns(u, 80 + *j as u64)));
    if let Some(un) = un {
      let handles = handles.clone();
      spawn("unsubscriber", move || {
        rt::sleep_ns(off + un);
        let h = handles.b()[i].take();
        if let Some(h) = h {
          h.unsubscribe();
        }
      });
    }
    spawn("subscriber", move || {
      rt::sleep_ns(off);
      let put = {
        let (logs, over) = (logs.clone(), over.clone());
        move |e: Ev| {
          if !over.get() {
            say!("{} <- {}", i, e);
            logs.b()[i].push((rt::now() - t0, e));
          }
        }
      };
      let (a, b, c) = (put.clone(), put.clone(), put);
      let h = o.subscribe(move |v: V| a(Ev::N(v.k.clone())), move |e| b(Ev::E(errk(&e))), move || c(Ev::C));
      if over.get() {
        h.unsubscribe();
      } else {
        handles.b()[i] = Some(h);
      }
    });
  }
  drop(o);
  rt::quiesce(end * MS);
  over.set(true);
  let hs: Vec<_> = handles.b().iter_mut().map(|h| h.take()).collect();
  for h in hs.into_iter().flatten() {
    h.unsubscribe();
  }
  settle(60_000 * MS);
  let l = logs.b().clone();
  for l in &l {
    for (t, e) in l {
      observe(*t);
      observe(hash_bytes(e.to_string().as_bytes()));
    }
  }
  l
}
