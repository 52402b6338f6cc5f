//! Very long runs of the simple cases: a counter that is too narrow, a fixed
//! capacity, a chunk or a cache that overflows shows only here.
use super::conc::*;
use crate::real::calm;
use crate::util::*;
use crate::viol;
use another_rxrust::prelude::schedulers::IScheduler;
use another_rxrust::prelude::*;
use simstd::rt;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;

pub const HUGE: &[usize] = &[1000, 1023, 1024, 1025, 2048, 4096, 4097, 10_000, 32_767, 32_769, 65_535, 65_536, 65_537, 66_000, 70_000];
const MS: u64 = 1_000_000;

type Log = Sh<(Vec<i64>, Vec<&'static str>)>;
fn log() -> Log {
  Sh::new((vec![], vec![]))
}
fn look<'a>(o: &Observable<'a, i64>, l: &Log) -> Subscription<'a> {
  let (a, b, c) = (l.clone(), l.clone(), l.clone());
  o.subscribe(
    move |x| {
      let mut l = a.b();
      let late = !l.1.is_empty();
      l.0.push(x);
      drop(l);
      if late {
        viol!("contract", "item {} after the terminal", x);
      }
    },
    move |_| b.b().1.push("error"),
    move || c.b().1.push("complete"),
  )
}
/// The log is exactly `n` items given by `f`, and this terminal.
fn exact(class: &'static str, who: &str, l: &Log, n: usize, f: impl Fn(usize) -> i64, end: &[&str]) {
  let (got, t) = {
    let l = l.b();
    (l.0.clone(), l.1.clone())
  };
  for i in 0..n.max(got.len()) {
    let w = if i < n { Some(f(i)) } else { None };
    if got.get(i).copied() != w {
      viol!(class, "{}: item {} of {} must be {:?} but is {:?} ({} items arrived)", who, i, n, w, got.get(i), got.len());
    }
  }
  if t != end {
    viol!(class, "{}: ended with {:?} instead of {:?} after {} items", who, t, end, n);
  }
  observe(n as u64);
}
fn start(g: &mut G, max: usize) -> usize {
  g.large = true;
  let l: Vec<usize> = HUGE.iter().copied().filter(|n| *n <= max).collect();
  *g.pick(&l)
}
fn prep(g: &mut G, desc: String, conc: bool, body: impl FnOnce() + 'static) -> Prep {
  let mut cfg = if conc { Cfg::conc(g, 0) } else { Cfg::seq() };
  cfg.budget = 30_000_000;
  cfg.spurious = false;
  Prep {
    desc,
    cfg,
    body: Box::new(move || {
      probe("huge-case");
      nontrivial();
      body();
      stuck();
    }),
  }
}

/// A long backlog in the queue of one worker.
pub fn c08(g: &mut G) -> Prep {
  let n = start(g, 70_000);
  let paused = g.chance(1, 2);
  prep(g, format!("{} tasks posted{}", n, if paused { " while the first one runs" } else { "" }), true, move || {
    let s = schedulers::new_thread_scheduler()();
    let l = log();
    for i in 0..n as i64 {
      let l = l.clone();
      s.post(move || {
        if paused && i == 0 {
          rt::sleep_ns(100);
        }
        l.b().0.push(i);
      });
    }
    calm(MS);
    exact("order", "tasks", &l, n, |i| i as i64, &[]);
    s.abort();
    settle(MS);
    let l2 = l.clone();
    s.post(move || l2.b().0.push(-1));
    settle(MS);
    exact("after-abort", "tasks", &l, n, |i| i as i64, &[]);
  })
}

/// A long sequence through a worker.
pub fn c09(g: &mut G) -> Prep {
  let n = start(g, 70_000);
  let kind = g.int(4);
  let err = g.chance(1, 3);
  prep(g, format!("{} items; kind {}{}", n, kind, if err { ", failing" } else { "" }), true, move || {
    let l = log();
    let nt = schedulers::new_thread_scheduler();
    let end = if err { "error" } else { "complete" };
    let src = Observable::<i64>::create(move |s: Observer<'static, i64>| {
      for i in 0..n as i64 {
        s.next(i);
      }
      if err {
        s.error(RxError::from_error("end"));
      } else {
        s.complete();
      }
    });
    let o = match kind {
      0 => src.observe_on(nt),
      1 => src.subscribe_on(nt),
      2 => src.subscribe_on(nt).observe_on(nt),
      _ => src.observe_on(nt).map(|x| x).observe_on(nt),
    };
    look(&o, &l);
    calm(MS);
    exact("order", "subscriber", &l, n, |i| i as i64, &[end]);
  })
}

/// Many registrations over the life of a subject; a long history.
pub fn c10(g: &mut G) -> Prep {
  let n = start(g, 70_000);
  let churn = if g.chance(1, 2) { start(g, 70_000) } else { g.us(3) };
  let n = if churn > 3 { 3 } else { n };
  let kind = g.int(4);
  prep(g, format!("subject kind {}: an observer, {} that come and go, another one, {} items, a late one, complete, a later one", kind, churn, n), false, move || {
    // (macro: the four subjects have no common trait)
    macro_rules! go {
      ($s:expr) => {{
        let s = $s;
        let (a, b, c, d) = (log(), log(), log(), log());
        let _ha = look(&s.observable(), &a);
        for _ in 0..churn {
          s.observable().subscribe(|_| {}, |_| {}, || {}).unsubscribe();
        }
        let hb = look(&s.observable(), &b);
        for i in 1..=n as i64 {
          s.next(i);
        }
        let hc = look(&s.observable(), &c);
        s.next(n as i64 + 1);
        hb.unsubscribe();
        s.next(n as i64 + 2);
        s.complete();
        look(&s.observable(), &d);
        let _ = &hc;
        let m = n as i64;
        match kind {
          0 => {
            exact("multicast", "first", &a, n + 2, |i| i as i64 + 1, &["complete"]);
            exact("multicast", "second", &b, n + 1, |i| i as i64 + 1, &[]);
            exact("multicast", "late", &c, 2, |i| m + 1 + i as i64, &["complete"]);
          }
          1 => {
            exact("multicast", "first", &a, n + 3, |i| i as i64, &["complete"]);
            exact("multicast", "second", &b, n + 2, |i| i as i64, &[]);
            exact("multicast", "late", &c, 3, |i| m + i as i64, &["complete"]);
            exact("multicast", "after the end", &d, 0, |_| 0, &["complete"]);
          }
          2 => {
            exact("multicast", "first", &a, n + 2, |i| i as i64 + 1, &["complete"]);
            exact("multicast", "second", &b, n + 1, |i| i as i64 + 1, &[]);
            exact("multicast", "late", &c, n + 2, |i| i as i64 + 1, &["complete"]);
            exact("multicast", "after the end", &d, n + 2, |i| i as i64 + 1, &["complete"]);
          }
          _ => {
            exact("multicast", "first", &a, 1, |_| m + 2, &["complete"]);
            exact("multicast", "second", &b, 0, |_| 0, &[]);
            exact("multicast", "late", &c, 1, |_| m + 2, &["complete"]);
          }
        }
      }};
    }
    match kind {
      0 => go!(subjects::Subject::<'static, i64>::new()),
      1 => go!(subjects::BehaviorSubject::<'static, i64>::new(0)),
      2 => go!(subjects::ReplaySubject::<'static, i64>::new()),
      _ => go!(subjects::AsyncSubject::<'static, i64>::new()),
    }
  })
}

/// Several producers for a long time, with an observer from the beginning and
/// one that comes in the middle.
pub fn c12(g: &mut G) -> Prep {
  let n = start(g, 10_000);
  let kind = g.int(3);
  let at = g.us(n);
  prep(g, format!("subject kind {}: two producers of {} items, an observer, another one after {}", kind, n, at), true, move || {
    macro_rules! go {
      ($s:expr) => {{
        let s = $s;
        let (a, b) = (log(), log());
        let _ha = look(&s.observable(), &a);
        for p in 0..2i64 {
          let (s, b) = (s.clone(), b.clone());
          spawn("producer", move || {
            for i in 0..n as i64 {
              if p == 0 && i == at as i64 {
                look(&s.observable(), &b);
              }
              s.next(1 + 2 * i + p);
            }
          });
        }
        calm(MS);
        let (ga, gb) = (a.b().0.clone(), b.b().0.clone());
        for p in 0..2i64 {
          let f = |l: &Vec<i64>| -> Vec<i64> { l.iter().filter(|x| **x > 0 && (**x - 1) % 2 == p).copied().collect() };
          let want: Vec<i64> = (0..n as i64).map(|i| 1 + 2 * i + p).collect();
          let (fa, fb) = (f(&ga), f(&gb));
          if fa != want {
            viol!("items", "the observer from the beginning received {} of {} items of producer {} in order", fa.len(), n, p);
          }
          if !want.ends_with(&fb) {
            viol!("items", "the later observer received {} items of producer {}, not a suffix of them", fb.len(), p);
          }
          if (p == 0 && fb.len() < n - at) || (kind == 2 && fb.len() != n) {
            viol!("items", "the later observer received {} items of producer {}", fb.len(), p);
          }
        }
        if kind == 2 && ga != gb {
          viol!("items", "the later observer of the ReplaySubject received another order");
        }
      }};
    }
    match kind {
      0 => go!(Arc::new(subjects::Subject::<'static, i64>::new())),
      1 => go!(Arc::new(subjects::BehaviorSubject::<'static, i64>::new(0))),
      _ => go!(Arc::new(subjects::ReplaySubject::<'static, i64>::new())),
    }
  })
}

/// Long shared sequences; many subscribers that come and go.
pub fn c13(g: &mut G) -> Prep {
  let n = start(g, 70_000);
  let kind = g.int(3);
  let churn = if kind == 0 { 0 } else if g.chance(1, 2) { start(g, 10_000) } else { g.us(3) };
  let n = if churn > 3 { 3 } else { n };
  prep(g, format!("{}: {} that come and go, {} items", ["publish", "ref_count", "replay"][kind as usize], churn, n), false, move || {
    let made = Sh::new((0i64, 0i64));
    let held: Sh<Vec<Observer<'static, i64>>> = Sh::new(vec![]);
    let (m, h) = (made.clone(), held.clone());
    let src = Observable::<i64>::create(move |s: Observer<'static, i64>| {
      m.b().0 += 1;
      *h.b() = vec![s];
    });
    let push = |x: Option<i64>| {
      let o = held.b().clone();
      for o in o {
        match x {
          Some(x) => o.next(x),
          None => o.complete(),
        }
      }
    };
    let (a, b) = (log(), log());
    match kind {
      0 => {
        let p = src.publish();
        look(&p.observable(), &a);
        p.connect();
        for i in 0..n as i64 {
          push(Some(i));
        }
        look(&p.observable(), &b);
        push(Some(n as i64));
        push(None);
        exact("shared", "first", &a, n + 1, |i| i as i64, &["complete"]);
        exact("shared", "late", &b, 1, |_| n as i64, &["complete"]);
      }
      k => {
        let o = if k == 1 { src.ref_count().observable() } else { src.replay().observable() };
        // each of these is a connection of its own
        for i in 0..churn as i64 {
          let l = log();
          let h = look(&o, &l);
          push(Some(i));
          h.unsubscribe();
          exact("shared", "one that comes and goes", &l, 1, |_| i, &[]);
          let live = held.b()[0].clone();
          if live.is_subscribed() {
            viol!("connection", "the source is still subscribed although nobody is");
          }
        }
        let _a = look(&o, &a);
        for _ in 0..churn {
          look(&o, &log()).unsubscribe();
        }
        for i in 0..n as i64 {
          push(Some(i));
        }
        look(&o, &b);
        push(Some(n as i64));
        push(None);
        exact("shared", "first", &a, n + 1, |i| i as i64, &["complete"]);
        let from = if k == 1 { n } else { 0 };
        exact("shared", "late", &b, n + 1 - from, |i| (i + from) as i64, &["complete"]);
        if made.b().0 != churn as i64 + 1 {
          viol!("connection", "the source was subscribed {} times instead of {}", made.b().0, churn + 1);
        }
      }
    }
  })
}

/// Many failing attempts one after the other (not inside each other).
pub fn c04(g: &mut G) -> Prep {
  let n = start(g, 70_000);
  let when = g.chance(1, 3);
  prep(g, format!("{} of {} failing attempts", if when { "retry_when" } else { "retry" }, n), false, move || {
    let made = Sh::new(0usize);
    let held: Sh<Vec<Observer<'static, i64>>> = Sh::new(vec![]);
    let (m, h) = (made.clone(), held.clone());
    let src = Observable::<i64>::create(move |s: Observer<'static, i64>| {
      *m.b() += 1;
      *h.b() = vec![s];
    });
    let asked = Sh::new(0usize);
    let q = asked.clone();
    let o = if when {
      src.retry_when(move |_| {
        *q.b() += 1;
        q.get() < n
      })
    } else {
      src.retry(n)
    };
    let l = log();
    let h = look(&o, &l);
    for i in 0..n {
      if made.get() != i + 1 || !h.is_subscribed() {
        viol!("output", "after {} failed attempts the source has been subscribed {} times", i, made.get());
      }
      let o = held.b()[0].clone();
      o.next(i as i64);
      o.error(RxError::from_error("again"));
    }
    exact("output", "subscriber", &l, n, |i| i as i64, &["error"]);
    if made.get() != n {
      viol!("output", "the source has been subscribed {} times instead of {}", made.get(), n);
    }
  })
}

/// Many inner subscriptions that are all open.
pub fn c06(g: &mut G) -> Prep {
  let n = start(g, 70_000);
  let how = g.int(3);
  let some = 2 + g.us(3);
  prep(g, format!("flat_map over {} inner observables, every {}th completes, then {}", n, some, ["unsubscribe", "an inner error", "the source's error"][how as usize]), false, move || {
    let held: Sh<Vec<Observer<'static, i64>>> = Sh::new(vec![]);
    let outer: Sh<Vec<Observer<'static, i64>>> = Sh::new(vec![]);
    let ou = outer.clone();
    let src = Observable::<i64>::create(move |s: Observer<'static, i64>| ou.b().push(s));
    let h = held.clone();
    let o = src.flat_map(move |i: i64| {
      let h = h.clone();
      Observable::<i64>::create(move |s: Observer<'static, i64>| {
        h.b().push(s.clone());
        if i as usize % some == 0 {
          s.complete();
        }
      })
    });
    let l = log();
    let sub = look(&o, &l);
    let s = outer.b()[0].clone();
    for i in 0..n as i64 {
      s.next(i);
    }
    let all: Vec<_> = held.b().clone();
    if all.len() != n {
      viol!("items", "{} inner observables of {} were subscribed", all.len(), n);
    }
    for (i, o) in all.iter().enumerate() {
      if o.is_subscribed() == (i % some == 0) {
        viol!("still-subscribed", "inner {} of {}: is_subscribed() is {}", i, n, o.is_subscribed());
      }
    }
    match how {
      0 => sub.unsubscribe(),
      1 => all[1].error(RxError::from_error("end")),
      _ => s.error(RxError::from_error("end")),
    }
    for (i, o) in all.iter().enumerate() {
      if o.is_subscribed() {
        viol!("still-subscribed", "inner {} of {} is still subscribed after the subscription has ended", i, n);
      }
    }
    if s.is_subscribed() || sub.is_subscribed() {
      viol!("still-subscribed", "the source is still subscribed after the subscription has ended");
    }
    exact("items", "subscriber", &l, 0, |_| 0, if how == 0 { &[] } else { &["error"] });
  })
}

/// Long inputs on two threads.
pub fn c11(g: &mut G) -> Prep {
  let kind = g.int(4);
  let n = start(g, if kind == 1 { 4097 } else { 10_000 });
  prep(g, format!("{} of two threads with {} items each", ["merge", "zip", "concat", "flat_map"][kind as usize], n), true, move || {
    let src = move |p: i64| {
      Observable::<i64>::create(move |s: Observer<'static, i64>| {
        spawn("input", move || {
          for i in 0..n as i64 {
            s.next(2 * i + p);
          }
          s.complete();
        });
      })
    };
    let l = log();
    let o = match kind {
      0 => src(0).merge(&[src(1)]),
      1 => src(0).zip(&[src(1)]).map(|v: Vec<i64>| if v[1] == v[0] + 1 { v[0] } else { -1 }),
      2 => src(0).concat(&[src(1)]),
      _ => observables::range(0, 2).flat_map(move |p| src(p)),
    };
    look(&o, &l);
    calm(MS);
    let got = l.b().0.clone();
    let end = l.b().1.clone();
    if end != ["complete"] {
      viol!("terminal", "{:?} after {} items", end, got.len());
    }
    for p in 0..2i64 {
      let mine: Vec<i64> = got.iter().copied().filter(|x| x.rem_euclid(2) == p).collect();
      let want: Vec<i64> = if kind == 1 && p == 1 { vec![] } else { (0..n as i64).map(|i| 2 * i + p).collect() };
      let ok = if kind == 1 {
        let mut m = mine.clone();
        m.sort();
        m == want
      } else {
        mine == want
      };
      if !ok {
        viol!("items", "{} items of input {} arrived, not the {} it emitted in their order", mine.len(), p, want.len());
      }
    }
    if kind == 2 && got.windows(2).filter(|w| w[0] % 2 != w[1] % 2).count() > 1 {
      viol!("items", "concat mixed its inputs");
    }
  })
}

/// Very many ticks.
pub fn c16(g: &mut G) -> Prep {
  let n = start(g, 70_000);
  let d = *g.pick(&[1u64, 1000, 1_000_000, 1_000_000_000, 3_600_000_000_000]);
  prep(g, format!("interval({} ns) for {} ticks", d, n), false, move || {
    let l = log();
    let times = Sh::new(vec![]);
    let t = times.clone();
    let o = observables::interval(Duration::from_nanos(d), schedulers::new_thread_scheduler()).take(n).map(move |x| {
      t.b().push(rt::now());
      x as i64
    });
    let t0 = rt::now();
    look(&o, &l);
    calm(d.saturating_mul(n as u64 + 2));
    exact("interval", "subscriber", &l, n, |i| i as i64, &["complete"]);
    for (i, t) in times.b().clone().into_iter().enumerate() {
      if t - t0 != d * (i as u64 + 1) {
        viol!("interval", "tick {} arrived {} ns after the subscription, not {}", i, t - t0, d * (i as u64 + 1));
      }
    }
  })
}

struct Wk(simstd::thread::Thread);
impl Wake for Wk {
  fn wake(self: Arc<Self>) {
    self.0.unpark();
  }
}
/// A long vector.
pub fn c18(g: &mut G) -> Prep {
  let n = start(g, 70_000);
  let thr = g.chance(2, 3);
  let err = g.chance(1, 4);
  prep(g, format!("to_vec() of {} items{}{}", n, if thr { " from another thread" } else { "" }, if err { ", failing" } else { "" }), true, move || {
    let o = Observable::<i64>::create(move |s: Observer<'static, i64>| {
      let f = move || {
        for i in 0..n as i64 {
          s.next(i);
        }
        if err {
          s.error(RxError::from_error("end"));
        } else {
          s.complete();
        }
      };
      if thr {
        spawn("source", f);
      } else {
        f();
      }
    });
    let r = Sh::new(None);
    let r2 = r.clone();
    spawn("executor", move || {
      let o: &'static Observable<'static, i64> = Box::leak(Box::new(o));
      let mut f: Pin<Box<dyn Future<Output = Result<Arc<simstd::sync::RwLock<Vec<i64>>>, RxError>>>> = Box::pin(o.to_vec());
      let wk = Waker::from(Arc::new(Wk(simstd::thread::current())));
      loop {
        match f.as_mut().poll(&mut Context::from_waker(&wk)) {
          Poll::Ready(x) => {
            *r2.b() = Some(match x {
              Ok(v) => Some(v.read().unwrap().clone()),
              Err(_) => None,
            });
            break;
          }
          Poll::Pending => simstd::thread::park(),
        }
      }
    });
    calm(MS);
    let x = r.b().take();
    match x {
      None => viol!("lost-wakeup", "the future was never resolved: {}", rt::describe()),
      Some(None) if err => {}
      Some(Some(v)) if !err => {
        if v != (0..n as i64).collect::<Vec<_>>() {
          viol!("items", "the future resolved with {} items, not with the {} of the source in their order", v.len(), n);
        }
      }
      Some(x) => viol!("result", "the future resolved with {} although the source {}", if x.is_some() { "items" } else { "an error" }, if err { "failed" } else { "completed" }),
    }
  })
}
