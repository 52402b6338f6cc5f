//! The to_vec future: C18.
use super::conc::*;
use super::seq;
use crate::ex::{code_of, show_script, SEv};
use crate::real::{code, Obs, Sbj};
use crate::util::*;
use crate::val::*;
use crate::{say, viol, Property};
use another_rxrust::prelude::*;
use simstd::rt;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;

pub static C18: Property = Property {
  id: "C18",
  gen: gen_c18,
  inconclusive: &[],
  real: seq::REAL,
  stub: seq::STUB,
  rule: "a case is a source script (emitted inside to_vec(), on another thread, behind a subject that is racing, through observe_on/subscribe_on/delay, by two merged threads, by an interval or timer; possibly ill-behaved after its terminal), a minimal executor with spurious polls, a waker per poll or one for all, and migration to a second thread; non-trivial when a poll returned Pending before the future was resolved",
};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
  /// on another thread
  Thread,
  /// inside to_vec()
  Sync,
  Hot(u8),
  /// two threads, merged
  Merge,
  IntervalTake,
  Timer,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Hop {
  None,
  Map,
  ObsOn,
  SubOn,
  Delay,
}
struct Shared {
  /// generation of the waker of the latest poll
  gen: u64,
  woken: Vec<u64>,
  wakes: u64,
  polls: u64,
  pending: u64,
  stop: bool,
  result: Option<Result<Vec<V>, u32>>,
  /// when the ready poll began and ended
  ready: (u64, u64),
  /// start and end stamps of the polls that returned Pending
  pends: Vec<(u64, u64)>,
  sub: (u64, u64),
  thread: Option<simstd::thread::Thread>,
  emits: Vec<(usize, SEv, u64, u64)>,
}
struct W {
  gen: u64,
  s: Sh<Shared>,
  th: simstd::thread::Thread,
}
impl Wake for W {
  fn wake(self: Arc<Self>) {
    rt::point("wake", 0);
    {
      let mut s = self.s.b();
      s.woken.push(self.gen);
      s.wakes += 1;
    }
    self.th.unpark();
  }
}
type Fut = Pin<Box<dyn Future<Output = Result<Arc<simstd::sync::RwLock<Vec<V>>>, RxError>>>>;

/// How the executor behaves.
#[derive(Clone, Debug)]
struct Exec {
  /// virtual time before the first poll
  wait: u64,
  /// additional polls nobody asked for (after how many pending results)
  spurious: Vec<usize>,
  /// a new waker for every poll
  fresh: bool,
  /// continues on another thread after so many polls
  migrate: Option<usize>,
}

fn sc(g: &mut G, base: i64, ill: bool) -> Vec<SEv> {
  let n = g.big(270).unwrap_or_else(|| g.us(5));
  let mut v: Vec<SEv> = (0..n).map(|i| SEv::N(base + i as i64)).collect();
  match g.weighted(&[4, 3, 1]) {
    0 => v.push(SEv::C),
    1 => v.push(SEv::E),
    _ => {}
  }
  if ill {
    for _ in 0..1 + g.us(3) {
      v.push(match g.int(3) {
        0 => SEv::N(base + 900),
        1 => SEv::E,
        _ => SEv::C,
      });
    }
  }
  v
}

fn gen_c18(g: &mut G) -> Prep {
  if g.chance(1, 1500) {
    return super::huge::c18(g);
  }
  let kind = match g.weighted(&[8, 1, 4, 2, 1, 1]) {
    0 => Kind::Thread,
    1 => Kind::Sync,
    2 => Kind::Hot(*g.pick(&[0, 2])),
    3 => Kind::Merge,
    4 => Kind::IntervalTake,
    _ => Kind::Timer,
  };
  let hop = match g.weighted(&[8, 2, 2, 1, 1]) {
    0 => Hop::None,
    1 => Hop::Map,
    2 => Hop::ObsOn,
    3 => Hop::SubOn,
    _ => Hop::Delay,
  };
  let ill = kind != Kind::Merge && g.chance(1, 5);
  let l = sc(g, 100, ill);
  let l2 = sc(g, 2_000, false);
  let pause = if g.chance(1, 3) { 1_000 } else { 0 };
  let count = 1 + g.us(3);
  let ex = Exec {
    wait: *g.pick(&[0, 0, 500, 2_500]),
    spurious: (0..g.us(3)).map(|_| g.us(3)).collect(),
    fresh: g.chance(1, 2),
    migrate: if g.chance(1, 4) { Some(1 + g.us(2)) } else { None },
  };
  // where the future is made
  let outside = g.chance(1, 2);
  // a subject's pushes start before to_vec() is called
  let early = g.chance(1, 2);
  let cfg = Cfg::conc(g, 3_000);
  Prep {
    desc: format!(
      "{:?} {} {}-> {:?} -> to_vec(); {:?}{}{}{}",
      kind,
      match kind {
        Kind::IntervalTake => format!("take({})", count),
        Kind::Merge => format!("{} | {}", show_script(&l), show_script(&l2)),
        _ => show_script(&l),
      },
      if pause > 0 { "with pauses " } else { "" },
      hop,
      ex,
      if outside { ", made on another thread than it is polled" } else { "" },
      if early { ", pushes may start early" } else { "" },
      if ill { ", ill-behaved" } else { "" }
    ),
    cfg,
    body: Box::new(move || run_c18(kind, hop, l, l2, pause, count, ex, outside, early)),
  }
}

fn mkerr(k: usize) -> RxError {
  RxError::from_error(ErrTok { code: code_of(0, k), born: 0, tok: None })
}

#[allow(clippy::too_many_arguments)]
fn run_c18(kind: Kind, hop: Hop, l: Vec<SEv>, l2: Vec<SEv>, pause: u64, count: usize, ex: Exec, outside: bool, early: bool) {
  let s = Sh::new(Shared { gen: 0, woken: vec![], wakes: 0, polls: 0, pending: 0, stop: false, result: None, ready: (0, 0), pends: vec![], sub: (0, 0), thread: None, emits: vec![] });
  let note = |s: &Sh<Shared>, p: usize, k: usize, e: SEv, f: &mut dyn FnMut(SEv, usize)| {
    let a = rt::stamp();
    let i = {
      let mut x = s.b();
      x.emits.push((p, e, a, u64::MAX));
      x.emits.len() - 1
    };
    observe(p as u64 * 8 + if let SEv::N(x) = e { x as u64 * 16 } else { 1 });
    f(e, k);
    s.b().emits[i].3 = rt::stamp();
  };
  let cold = |p: usize, l: Vec<SEv>, thread: bool| -> Obs {
    let s = s.clone();
    Observable::create(move |o: Observer<'static, V>| {
      let (s, l) = (s.clone(), l.clone());
      let f = move || {
        for (k, e) in l.iter().enumerate() {
          if pause > 0 {
            simstd::thread::sleep(Duration::from_nanos(pause));
          }
          note(&s, p, k, *e, &mut |e, k| match e {
            SEv::N(x) => o.next(V::new(K::I(x))),
            SEv::E => o.error(mkerr(k)),
            SEv::C => o.complete(),
          });
        }
      };
      if thread {
        spawn("source", f);
      } else {
        f();
      }
    })
  };
  let mut hot = None;
  let nt = schedulers::new_thread_scheduler();
  let mut o: Obs = match kind {
    Kind::Thread => cold(0, l.clone(), true),
    Kind::Sync => cold(0, l.clone(), false),
    Kind::Hot(k) => {
      let b = Sbj::new(k);
      hot = Some(b.clone());
      b.observable()
    }
    Kind::Merge => cold(0, l.clone(), true).merge(&[cold(1, l2.clone(), true)]),
    Kind::IntervalTake => observables::interval(Duration::from_nanos(1_000), nt).take(count).map(|i| V::new(K::I(i as i64))),
    Kind::Timer => observables::timer(Duration::from_nanos(1_000), nt).map(|_| V::new(K::I(0))),
  };
  o = match hop {
    Hop::None => o,
    Hop::Map => o.map(|v: V| v),
    Hop::ObsOn => o.observe_on(nt),
    Hop::SubOn => o.subscribe_on(nt),
    Hop::Delay => o.delay(Duration::from_nanos(300)),
  };
  let make = {
    let s = s.clone();
    let o = o.clone();
    move || -> Fut {
      let a = rt::stamp();
      s.b().sub.0 = a;
      // the future keeps nothing of the observable it borrows
      let o: &'static Obs = unsafe { &*(&o as *const Obs) };
      let f: Fut = Box::pin(o.to_vec());
      s.b().sub.1 = rt::stamp();
      f
    }
  };
  let push = |b: Sbj| {
    let (s, l) = (s.clone(), l.clone());
    spawn("source", move || {
      for (k, e) in l.iter().enumerate() {
        if pause > 0 {
          simstd::thread::sleep(Duration::from_nanos(pause));
        }
        note(&s, 0, k, *e, &mut |e, k| match e {
          SEv::N(x) => b.next(V::new(K::I(x))),
          SEv::E => b.error(mkerr(k)),
          SEv::C => b.complete(),
        });
      }
    });
  };
  let mut hot = hot;
  if early {
    if let Some(b) = hot.take() {
      push(b);
    }
  }
  let fut = if outside { Some(make()) } else { None };
  {
    let (s, ex) = (s.clone(), ex.clone());
    let make = make.clone();
    spawn("executor", move || {
      let mut fut = match fut {
        Some(f) => f,
        None => make(),
      };
      if ex.wait > 0 {
        simstd::thread::sleep(Duration::from_nanos(ex.wait));
      }
      let mut left = ex.migrate;
      if let Some(k) = left.take() {
        if !poll_some(&s, &ex, &mut fut, Some(k)) {
          probe("migrated");
          let (s, ex) = (s.clone(), ex.clone());
          spawn("executor2", move || {
            let mut fut = fut;
            poll_some(&s, &ex, &mut fut, None);
            s.b().thread = None;
          });
        }
      } else {
        poll_some(&s, &ex, &mut fut, None);
      }
    });
  }
  if let Some(b) = hot.take() {
    // the pushes start when the future exists
    while s.b().sub.1 == 0 {
      simstd::thread::yield_now();
    }
    push(b);
  }
  rt::quiesce(if l.len() + l2.len() > 12 { 30_000 + 20_000 * (l.len() + l2.len()) as u64 } else { 30_000 });
  // ---- judge
  let x = s.b();
  probe_n("wake-ups", x.wakes);
  probe_n("polls", x.polls);
  if x.pending > 0 {
    nontrivial();
  }
  let stage = x.result.clone();
  observe(x.polls * 16 + x.pending);
  let direct = matches!(hop, Hop::None | Hop::Map) && matches!(kind, Kind::Thread | Kind::Sync | Kind::Hot(_));
  let mut want = want(kind, &x, &l, count);
  if let (Kind::Hot(0), Hop::SubOn) = (kind, hop) {
    // subscribed some time after to_vec() returned
    want = Want::Free;
  }
  let (polls, wakes) = (x.polls, x.wakes);
  drop(x);
  match (&want, &stage) {
    (Want::Free, _) => {}
    (Want::Never, None) => probe("never-resolved"),
    (Want::Never, Some(r)) => viol!("early", "the future is ready with {} although the source never terminated", show_r(r)),
    (_, None) => viol!("lost-wakeup", "the source has terminated but the future was never resolved: {} polls, {} wake-ups, {}", polls, wakes, rt::describe()),
    (Want::Items(lists, late), Some(Ok(v))) => {
      probe("resolved-with-items");
      let got: Vec<i64> = v.iter().map(|v| v.k.num()).collect();
      let mut n = 0;
      for w in lists {
        let mine: Vec<i64> = got.iter().copied().filter(|x| w.contains(x)).collect();
        n += mine.len();
        // a racing subscriber of a subject sees the end only
        let ok = if let Some(min) = late { w.ends_with(&mine) && mine.len() >= *min } else { mine == *w };
        if !ok {
          viol!("result", "the future is ready with {:?} but the source emitted {:?} (at least the last {:?})", got, lists, late);
        }
      }
      if n != got.len() {
        viol!("result", "the future is ready with {:?} but the source emitted {:?}", got, lists);
      }
    }
    (Want::Error(c), Some(Err(e))) => {
      probe("resolved-with-error");
      if c != e {
        viol!("result", "the future is ready with error {} but the source's error is {}", e, c);
      }
    }
    (Want::Either(a, b), Some(r)) => {
      let _ = (a, b, r);
    }
    (w, Some(r)) => viol!("result", "the future is ready with {} but must be {:?}", show_r(r), w),
  }
  // never before the source's terminal, always when it is over
  let x = s.b();
  let term = first_term(&x.emits);
  if x.result.is_some() {
    if let (Kind::Thread | Kind::Sync | Kind::Hot(_), Some((a, _))) = (kind, term) {
      if x.ready.1 < a {
        viol!("early", "the future was ready before the source terminated");
      }
    }
    if let Kind::Merge = kind {
      if !matches!(want, Want::Either(..)) {
        let a = x.emits.iter().filter(|e| !matches!(e.1, SEv::N(_))).map(|e| e.2).max();
        if a.map_or(true, |a| matches!(want, Want::Items(..)) && x.ready.1 < a) {
          viol!("early", "the future was ready before the sources terminated");
        }
      }
    }
  }
  if let (true, Some((_, b))) = (direct, term) {
    if !matches!(want, Want::Free) {
      for p in &x.pends {
        if p.0 > b && p.0 > x.sub.1 {
          viol!("pending", "a poll that began after the source's terminal returned Pending");
        }
      }
    }
  }
  drop(x);
  // those that wait for ever
  s.b().stop = true;
  let th = s.b().thread.clone();
  if let Some(t) = th {
    t.unpark();
  }
  settle(1_000);
  drop(make);
  drop(o);
}
fn show_r(r: &Result<Vec<V>, u32>) -> String {
  match r {
    Ok(v) => format!("{:?}", v),
    Err(c) => format!("error {}", c),
  }
}
#[derive(Debug, Clone)]
#[allow(dead_code)]
enum Want {
  /// nothing is demanded
  Free,
  Never,
  /// per producer; a racing subscriber gets at least so many of the last ones
  Items(Vec<Vec<i64>>, Option<usize>),
  Error(u32),
  Either(u32, u32),
}
fn first_term(l: &[(usize, SEv, u64, u64)]) -> Option<(u64, u64)> {
  l.iter().find(|e| !matches!(e.1, SEv::N(_))).map(|e| (e.2, e.3))
}
fn want(kind: Kind, x: &Shared, l: &[SEv], count: usize) -> Want {
  let items = |l: &[SEv]| -> Vec<i64> {
    l.iter()
      .take_while(|e| matches!(e, SEv::N(_)))
      .map(|e| match e {
        SEv::N(x) => *x,
        _ => 0,
      })
      .collect()
  };
  match kind {
    Kind::IntervalTake => Want::Items(vec![(0..count as i64).collect()], None),
    Kind::Timer => Want::Items(vec![vec![0]], None),
    Kind::Thread | Kind::Sync | Kind::Hot(2) => match l.iter().position(|e| !matches!(e, SEv::N(_))) {
      None => Want::Never,
      Some(p) if l[p] == SEv::E => Want::Error(code_of(0, p)),
      Some(_) => Want::Items(vec![items(l)], None),
    },
    Kind::Hot(_) => {
      let Some(p) = l.iter().position(|e| !matches!(e, SEv::N(_))) else { return Want::Never };
      let t = x.emits[p];
      if t.2 <= x.sub.1 {
        // it may have come too late
        return Want::Free;
      }
      if l[p] == SEv::E {
        return Want::Error(code_of(0, p));
      }
      let min = x.emits[..p].iter().filter(|e| e.2 > x.sub.1).count();
      Want::Items(vec![items(l)], Some(min))
    }
    Kind::Merge => {
      // the terminal of each side
      let t: Vec<Option<(SEv, usize)>> = (0..2)
        .map(|p| {
          let mut k = 0;
          for e in x.emits.iter().filter(|e| e.0 == p) {
            if !matches!(e.1, SEv::N(_)) {
              return Some((e.1, k));
            }
            k += 1;
          }
          None
        })
        .collect();
      let es: Vec<u32> = t.iter().flatten().filter(|e| e.0 == SEv::E).map(|e| code_of(0, e.1)).collect();
      match es.len() {
        2 if es[0] != es[1] => Want::Either(es[0], es[1]),
        1 | 2 => Want::Error(es[0]),
        _ if t.iter().all(|t| t.is_some()) => {
          let f = |p: usize| x.emits.iter().filter(|e| e.0 == p).filter_map(|e| if let SEv::N(x) = e.1 { Some(x) } else { None }).collect::<Vec<_>>();
          Want::Items(vec![f(0), f(1)], None)
        }
        _ => Want::Never,
      }
    }
  }
}

/// Polls until ready (true), or for `max` polls.
fn poll_some(s: &Sh<Shared>, ex: &Exec, fut: &mut Fut, max: Option<usize>) -> bool {
  let th = simstd::thread::current();
  s.b().thread = Some(th.clone());
  let mut waker: Option<Waker> = None;
  let mut n = 0;
  loop {
    if waker.is_none() || ex.fresh {
      let gen = {
        let mut x = s.b();
        x.gen += 1;
        x.gen
      };
      waker = Some(Waker::from(Arc::new(W { gen, s: s.clone(), th: th.clone() })));
    }
    let gen = s.b().gen;
    s.b().woken.retain(|g| *g == gen && ex.fresh);
    let a = rt::stamp();
    s.b().polls += 1;
    let r = fut.as_mut().poll(&mut Context::from_waker(waker.as_ref().unwrap()));
    let b = rt::stamp();
    n += 1;
    match r {
      Poll::Ready(r) => {
        let r = match r {
          Ok(v) => Ok(v.read().unwrap().clone()),
          Err(e) => Err(code(&e)),
        };
        say!("ready: {}", show_r(&r));
        let mut x = s.b();
        x.ready = (a, b);
        x.result = Some(r);
        x.thread = None;
        return true;
      }
      Poll::Pending => {
        let mut x = s.b();
        x.pending += 1;
        x.pends.push((a, b));
      }
    }
    if s.b().stop {
      return true;
    }
    if max == Some(n) {
      return false;
    }
    if ex.spurious.contains(&n) {
      probe("spurious-poll");
      rt::point("repoll", 0);
      continue;
    }
    // asleep until the waker of the latest poll is used
    loop {
      {
        let x = s.b();
        if x.stop {
          return true;
        }
        if x.woken.contains(&gen) {
          break;
        }
      }
      simstd::thread::park();
    }
  }
}
