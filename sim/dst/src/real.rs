//! The real side: builds an expression out of the library's own operators,
//! drives it and records what every subscriber and every source saw.
use crate::ex::*;
use crate::util::*;
use crate::val::*;
use crate::{say, viol};
use another_rxrust::prelude::*;
use simstd::rt;
use std::collections::BTreeMap;
use std::sync::{Arc, Weak};
use std::time::Duration;

pub type Obs = Observable<'static, V>;

pub struct Inst {
  pub src: usize,
  pub k: usize,
  pub obs: Observer<'static, V>,
  /// its observer was subscribed when the source function was called
  pub counted: bool,
  /// subscriber on whose behalf it was made
  pub ctx: usize,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Sub {
  Not,
  Active,
  Terminated,
  Unsubscribed,
}

pub struct St {
  pub step: i32,
  pub insts: Vec<Inst>,
  pub kcount: Vec<usize>,
  /// k per (source, subscriber context)
  pub per_ctx: bool,
  pub ctx: Vec<usize>,
  /// the context is that of the thread
  pub thr_ctx: bool,
  /// act during which each subscriber was subscribed
  pub sub_step: Vec<Option<i32>>,
  pub sub_start: Vec<Option<u64>>,
  pub sub_ret: Vec<Option<u64>>,
  /// pushes into subjects: event, start, end
  pub emits: Vec<(SEv, u64, u64)>,
  /// subscriber j subscribes k to an observable inside its n-th item
  pub nests: Vec<Option<(usize, usize, Obs)>>,
  /// at most one source subscription may be open at any time
  pub one_live: bool,
  pub kctx: BTreeMap<(usize, usize), usize>,
  pub cursors: Vec<usize>,
  pub subjects: Vec<Option<Sbj>>,
  /// subjects that have been sent a terminal
  pub subj_over: Vec<usize>,
  pub logs: Vec<Vec<(i32, Ev)>>,
  pub recs: Vec<Vec<Rec>>,
  /// concurrent run: callbacks contain a scheduling point
  pub conc: bool,
  /// stamp of the last source emission
  pub last_emission: u64,
  /// threads on which sources emitted
  pub em_threads: std::collections::BTreeSet<usize>,
  pub cb_sleep: u64,
  /// error codes do not tell the subscriptions of a source apart
  pub flat_codes: bool,
  /// virtual time at which unsubscribe returned
  pub unsub_now: Vec<Option<u64>>,
  pub unsub_start: Vec<Option<u64>>,
  /// is_subscribed() has been seen false
  pub seen_false: Vec<bool>,
  /// (source, subscription) -> thread that called the source function
  pub src_thread: Vec<(usize, usize, usize)>,
  /// (tap, occurrence)
  pub taps: BTreeMap<(usize, usize), Vec<(i32, Ev)>>,
  /// windows and groups opened so far
  pub tapn: BTreeMap<usize, usize>,
  pub checks: BTreeMap<(usize, usize), Vec<bool>>,
  pub handles: Vec<Option<Subscription<'static>>>,
  pub state: Vec<Sub>,
  pub items: Vec<usize>,
  /// stamp at which unsubscribe returned
  pub unsub_ret: Vec<Option<u64>>,
  pub in_terminal: Vec<bool>,
  /// stamps of the emissions in progress, per thread
  pub emitting: BTreeMap<usize, Vec<u64>>,
  pub tokens: Option<Vec<(&'static str, Weak<Tok>)>>,
  pub live: Vec<Vec<Vec<usize>>>,
  pub check_c05: bool,
  /// unsubscribe by dropping a utils::Using guard: 1 normally, 2 unwinding
  pub using: u8,
  /// cold sources tell their subscriptions apart too
  pub distinct: bool,
  /// what was sent to which subscription of a source
  pub sent: Vec<Sent>,
  /// check at every emission of every instance once everything ended
  pub late_live: Option<String>,
  /// calls of operator closures so far
  pub calls: usize,
  /// subscriptions made by them
  pub watching: Vec<Subscription<'static>>,
}

impl St {
  /// the subscriber on whose behalf something happens
  fn context(&self) -> usize {
    if self.thr_ctx {
      return rt::tag();
    }
    self.ctx.last().copied().unwrap_or(usize::MAX)
  }
}

/// One event sent to one subscription of a source.
#[derive(Clone, Debug)]
pub struct Sent {
  pub src: usize,
  pub k: usize,
  pub e: SEv,
  pub start: u64,
  pub end: u64,
  /// the subscription was open before and after
  pub open: (bool, bool),
}

#[derive(Clone)]
pub struct World {
  pub p: Arc<Prog>,
  pub s: Sh<St>,
}

/// The four subject types behind one face.
#[derive(Clone)]
pub enum Sbj {
  S(subjects::Subject<'static, V>),
  B(subjects::BehaviorSubject<'static, V>),
  R(subjects::ReplaySubject<'static, V>),
  A(subjects::AsyncSubject<'static, V>),
}
/// initial item of every BehaviorSubject
pub const INITIAL: i64 = -7;
impl Sbj {
  pub fn new(kind: u8) -> Sbj {
    match kind {
      0 => Sbj::S(subjects::Subject::new()),
      1 => Sbj::B(subjects::BehaviorSubject::new(V::new(K::I(INITIAL)))),
      2 => Sbj::R(subjects::ReplaySubject::new()),
      _ => Sbj::A(subjects::AsyncSubject::new()),
    }
  }
  pub fn next(&self, v: V) {
    match self {
      Sbj::S(s) => s.next(v),
      Sbj::B(s) => s.next(v),
      Sbj::R(s) => s.next(v),
      Sbj::A(s) => s.next(v),
    }
  }
  pub fn error(&self, e: RxError) {
    match self {
      Sbj::S(s) => s.error(e),
      Sbj::B(s) => s.error(e),
      Sbj::R(s) => s.error(e),
      Sbj::A(s) => s.error(e),
    }
  }
  pub fn complete(&self) {
    match self {
      Sbj::S(s) => s.complete(),
      Sbj::B(s) => s.complete(),
      Sbj::R(s) => s.complete(),
      Sbj::A(s) => s.complete(),
    }
  }
  pub fn observable(&self) -> Obs {
    match self {
      Sbj::S(s) => s.observable(),
      Sbj::B(s) => s.observable(),
      Sbj::R(s) => s.observable(),
      Sbj::A(s) => s.observable(),
    }
  }
}

/// One callback of a subscriber.
#[derive(Clone)]
pub struct Rec {
  pub ev: Ev,
  pub thread: usize,
  pub start: u64,
  pub end: Option<u64>,
  /// latest stamp of the source emissions this event is known to stem from
  pub born: u64,
  pub at: u64,
}

#[derive(Clone)]
pub enum Arg {
  Item(V),
  Inner(Obs),
}

/// Quiesce even if some thread stays busy for a long stretch.
pub fn calm(max_ns: u64) {
  for _ in 0..50 {
    rt::quiesce(max_ns);
    if rt::live().iter().all(|l| l.state != rt::State::Runnable) {
      break;
    }
  }
}

/// A key of `group_by`: all keys have the same hash.
#[derive(Clone, PartialEq, Eq)]
struct Key(i64);
impl std::hash::Hash for Key {
  fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
    h.write_u8(0)
  }
}

/// Errors of several payload types; what is compared is the token inside.
pub fn err(w: &World, code: u32) -> RxError {
  let t = ErrTok { code, born: if rt::active() { rt::stamp() } else { 0 }, tok: w.tok("error payload") };
  match (code / 16).wrapping_add(code) % 6 {
    0 => RxError::from_result(Err::<(), _>(t)),
    1 => RxError::from_error(std::io::Error::new(std::io::ErrorKind::TimedOut, t)),
    2 => RxError::from_error(std::io::Error::new(std::io::ErrorKind::Interrupted, t)),
    3 => RxError::from_result(Err::<i32, _>(Arc::new(t))),
    _ => RxError::from_error(t),
  }
}
pub fn tok_of(e: &RxError) -> Option<&ErrTok> {
  if let Some(t) = e.downcast_ref::<ErrTok>() {
    return Some(t);
  }
  if let Some(t) = e.downcast_ref::<Arc<ErrTok>>() {
    return Some(t);
  }
  e.downcast_ref::<std::io::Error>().and_then(|e| e.get_ref()).and_then(|e| e.downcast_ref::<ErrTok>())
}
pub fn code(e: &RxError) -> u32 {
  tok_of(e).map_or(FOREIGN, |t| t.code)
}

pub fn born_of(e: &RxError) -> u64 {
  tok_of(e).map_or(0, |t| t.born)
}

/// An iterator that stamps its items when it produces them.
#[derive(Clone)]
pub struct It {
  pub l: Vec<i64>,
  pub at: usize,
  pub inf: bool,
  pub tok: Option<Arc<Tok>>,
  pub itok: Option<World>,
}
impl Iterator for It {
  type Item = V;
  fn next(&mut self) -> Option<V> {
    let k = if self.inf {
      rt::point("iter", 0);
      (self.at % 4) as i64
    } else {
      *self.l.get(self.at)?
    };
    self.at += 1;
    Some(V { k: K::I(k), born: rt::stamp(), tok: self.itok.as_ref().and_then(|w| w.tok("item")) })
  }
}

impl World {
  pub fn new(p: Arc<Prog>, tokens: bool) -> World {
    let n = p.srcs.len();
    let m = p.subs;
    World {
      s: Sh::new(St {
        step: 0,
        insts: vec![],
        kcount: vec![0; n],
        per_ctx: false,
        ctx: vec![],
        thr_ctx: false,
        sub_step: vec![None; m.max(2)],
        sub_start: vec![None; m],
        sub_ret: vec![None; m],
        emits: vec![],
        nests: vec![],
        subj_over: vec![],
        one_live: false,
        kctx: BTreeMap::new(),
        cursors: vec![0; n],
        subjects: p.srcs.iter().map(|s| if s.mode == Mode::Subj { Some(Sbj::new(s.kind)) } else { None }).collect(),
        logs: vec![vec![]; m],
        recs: vec![vec![]; m],
        conc: false,
        last_emission: 0,
        em_threads: Default::default(),
        cb_sleep: 0,
        flat_codes: false,
        unsub_now: vec![None; m],
        unsub_start: vec![None; m],
        seen_false: vec![false; m],
        src_thread: vec![],
        taps: BTreeMap::new(),
        tapn: BTreeMap::new(),
        checks: BTreeMap::new(),
        handles: (0..m).map(|_| None).collect(),
        state: vec![Sub::Not; m],
        items: vec![0; m],
        unsub_ret: vec![None; m],
        in_terminal: vec![false; m],
        emitting: BTreeMap::new(),
        tokens: if tokens { Some(vec![]) } else { None },
        live: vec![],
        check_c05: false,
        using: 0,
        distinct: false,
        sent: vec![],
        late_live: None,
        calls: 0,
        watching: vec![],
      }),
      p,
    }
  }
  pub fn tok(&self, what: &'static str) -> Option<Arc<Tok>> {
    let mut s = self.s.b();
    match &mut s.tokens {
      Some(l) => {
        let t = Arc::new(Tok(what));
        l.push((what, Arc::downgrade(&t)));
        Some(t)
      }
      None => None,
    }
  }
  fn tokw(&self) -> Option<World> {
    if self.s.b().tokens.is_some() {
      Some(self.clone())
    } else {
      None
    }
  }
  pub fn live_tokens(&self, what: &str) -> usize {
    self.s.b().tokens.as_ref().unwrap().iter().filter(|t| t.0 == what && t.1.strong_count() > 0).count()
  }
  /// tokens whose destructor has not run
  pub fn leaked(&self) -> Vec<&'static str> {
    let mut v: Vec<&'static str> = self.s.b().tokens.as_ref().unwrap().iter().filter(|t| t.1.strong_count() > 0).map(|t| t.0).collect();
    v.sort();
    v.dedup();
    v
  }
  pub fn item(&self, i: i64) -> V {
    let tok = self.tok("item");
    V { k: K::I(i), born: rt::stamp(), tok }
  }
  /// an item of a library timer: its emission started some time after the
  /// timer's wake-up, so only a later virtual instant proves anything
  fn ticked(&self, i: i64) -> V {
    let mut v = self.item(i);
    let s = self.s.b();
    if !s.unsub_now.iter().flatten().any(|t| *t < rt::now()) {
      v.born = 0;
    }
    drop(s);
    v
  }
  fn begin(&self) {
    let st = rt::stamp();
    let mut s = self.s.b();
    s.last_emission = st;
    s.em_threads.insert(rt::cur());
    s.emitting.entry(rt::cur()).or_default().push(st);
  }
  fn end(&self) {
    self.s.b().emitting.get_mut(&rt::cur()).unwrap().pop();
  }
  /// send one script event to one observer
  pub fn send(&self, o: &Observer<'static, V>, src: usize, k: usize, e: SEv) {
    self.begin();
    let k = if self.s.b().flat_codes { 0 } else { k };
    match e {
      SEv::N(i) => o.next(self.item(i)),
      SEv::E => o.error(err(self, code_of(src, k))),
      SEv::C => o.complete(),
    }
    self.end();
  }

  /// send and keep a record
  fn send_logged(&self, o: &Observer<'static, V>, src: usize, k: usize, at: usize, e: SEv) {
    let a = o.is_subscribed();
    let start = rt::stamp();
    self.send(o, src, k, e);
    let end = rt::stamp();
    let b = o.is_subscribed();
    self.s.b().sent.push(Sent { src, k: at, e, start, end, open: (a, b) });
  }

  // ---------------------------------------------------------------- sources

  fn source(&self, i: usize) -> Obs {
    let w = self.clone();
    let t = self.tok("source function");
    match self.p.srcs[i].mode {
      Mode::Subj => {
        let s = self.s.b().subjects[i].clone();
        s.map_or_else(observables::never, |s| s.observable())
      }
      Mode::Hot => Observable::create(move |o| {
        let _ = &t;
        let alive = o.is_subscribed();
        w.attach(i, o, alive);
      }),
      Mode::Thr => Observable::create(move |o| {
        let _ = &t;
        let alive = o.is_subscribed();
        let k = w.attach(i, o.clone(), alive);
        let w = w.clone();
        let sp = &w.p.srcs[i];
        let sc = sp.scripts[k.min(sp.scripts.len() - 1)].clone();
        let (polite, pause) = (sp.polite, sp.pause);
        crate::props::conc::spawn(&format!("s{}/{}", i, k), move || {
          for e in sc {
            if pause > 0 {
              rt::sleep_ns(pause);
            }
            if polite && !o.is_subscribed() {
              break;
            }
            // items are told apart by subscription
            let e = match e {
              SEv::N(v) => SEv::N(v.wrapping_add(1000 * k as i64)),
              e => e,
            };
            w.send_logged(&o, i, k, k, e);
          }
        });
      }),
      Mode::Cold => Observable::create(move |o| {
        let _ = &t;
        let alive = o.is_subscribed();
        let k = w.attach(i, o.clone(), alive);
        let sp = &w.p.srcs[i];
        let sc = sp.scripts[k.min(sp.scripts.len() - 1)].clone();
        for e in sc {
          let open = o.is_subscribed();
          if alive {
            w.s.b().checks.entry((i, k)).or_default().push(!open);
          }
          if !open && sp.polite {
            break;
          }
          let e = match e {
            SEv::N(v) if w.s.b().distinct => SEv::N(v.wrapping_add(1000 * k as i64)),
            e => e,
          };
          w.send_logged(&o, i, k, k, e);
        }
      }),
    }
  }
  fn attach(&self, src: usize, o: Observer<'static, V>, alive: bool) -> usize {
    // a closed subscription never opens again: if the new one is still open
    // after an earlier one was seen open, both were open at that moment
    if self.s.b().one_live && self.live()[src].len() > 0 && o.is_subscribed() {
      viol!("connection", "the source was subscribed while an earlier subscription of it was still open");
    }
    let mut s = self.s.b();
    let k;
    if s.per_ctx {
      let c = s.context();
      let e = s.kctx.entry((src, c)).or_insert(0);
      k = *e;
      if alive {
        *e += 1;
      }
    } else {
      k = s.kcount[src];
      if alive {
        s.kcount[src] += 1;
      }
    }
    say!("subscription {} of source {}{}", k, src, if alive { "" } else { " (observer already closed)" });
    if alive {
      s.checks.entry((src, k)).or_default();
    }
    s.src_thread.push((src, k, rt::cur()));
    let ctx = s.context();
    s.insts.push(Inst { src, k, obs: o, counted: alive, ctx });
    k
  }

  // ---------------------------------------------------------------- build

  pub fn build(&self, ex: &Ex, arg: &Option<Arg>) -> Obs {
    let w = self;
    match ex {
      Ex::Src(i) => w.source(*i),
      Ex::Just(i) => observables::just(w.item(*i)),
      Ex::Iter(l) => observables::from_iter(It { l: l.clone(), at: 0, inf: false, tok: w.tok("iterator"), itok: w.tokw() }),
      Ex::IterInf => observables::from_iter(It { l: vec![], at: 0, inf: true, tok: w.tok("iterator"), itok: w.tokw() }),
      Ex::Range(a, n) => {
        let w2 = w.clone();
        let t = w.tok("closure of map");
        observables::range(*a, *n).map(move |i| {
          let _ = &t;
          w2.item(i)
        })
      }
      Ex::Empty => observables::empty(),
      Ex::Never => observables::never(),
      Ex::Error(c) => observables::error(err(w, *c)),
      Ex::FromErr(c) if c % 3 == 1 => utils::Something::<V>::error(err(w, *c)).proceed(),
      Ex::FromErr(c) if c % 3 == 2 => observables::from_result::<V, std::io::Error>(Err(std::io::Error::new(std::io::ErrorKind::Other, ErrTok { code: *c, born: 0, tok: w.tok("error payload") }))),
      Ex::FromOk(i) if i % 2 == 1 => utils::Something::success(w.item(*i)).proceed(),
      Ex::FromErr(c) => observables::from_result::<V, ErrTok>(Err(ErrTok { code: *c, born: 0, tok: w.tok("error payload") })),
      Ex::FromOk(i) => observables::from_result::<V, ErrTok>(Ok(w.item(*i))),
      Ex::Start(i) => {
        let (w, i, t) = (w.clone(), *i, w.tok("closure of start"));
        observables::start(move || {
          let _ = &t;
          w.item(i)
        })
      }
      Ex::Repeat(i) => observables::repeat(w.item(*i)),
      Ex::Defer(e) => {
        let (w, e, arg, t) = (w.clone(), e.clone(), arg.clone(), w.tok("closure of defer"));
        observables::defer(move || {
          let _ = &t;
          w.build(&e, &arg)
        })
      }
      Ex::Arg => match arg {
        Some(Arg::Item(v)) => observables::just(v.clone()),
        Some(Arg::Inner(o)) => o.clone(),
        None => observables::never(),
      },
      Ex::Interval(d) => {
        let w2 = w.clone();
        observables::interval(Duration::from_nanos(*d), schedulers::new_thread_scheduler()).map(move |i| w2.ticked(i as i64))
      }
      Ex::Timer(d) => {
        let w2 = w.clone();
        observables::timer(Duration::from_nanos(*d), schedulers::new_thread_scheduler()).map(move |_| w2.ticked(0))
      }
      Ex::U(op, e) => {
        let s = w.build(e, arg);
        w.op(op, s)
      }
      Ex::Multi(m, l) => {
        let mut v: Vec<Obs> = l.iter().map(|e| w.build(e, arg)).collect();
        let first = v.remove(0);
        match m {
          Mu::Merge => first.merge(&v),
          Mu::Concat => first.concat(&v),
          Mu::Amb => first.amb(&v),
          Mu::Zip => first.zip(&v).map(list),
          Mu::Combine => {
            let (w, t) = (w.clone(), w.tok("closure of combine_latest"));
            first.combine_latest(&v, move |l| {
              let _ = &t;
              w.inside(true);
              list(l)
            })
          }
          Mu::SeqEq => first.sequence_equal(&v).map(|b| V::new(K::B(b))),
        }
      }
      Ex::Trig(t, a, b) => {
        let a = w.build(a, arg);
        let b = w.build(b, arg);
        match t {
          Tr::TakeUntil => a.take_until(b),
          Tr::SkipUntil => a.skip_until(b),
          Tr::Sample => a.sample(b),
          Tr::Switch => a.switch_on_next(b),
        }
      }
      Ex::FlatMap(a, l) => {
        let a = w.build(a, arg);
        let (w, l, t) = (w.clone(), l.clone(), w.tok("closure of flat_map"));
        a.flat_map(move |v: V| {
          let _ = &t;
          w.inside(true);
          let i = pick_body(l.len(), v.k.num());
          w.build(&l[i], &Some(Arg::Item(v)))
        })
      }
      Ex::Resume(a, l) => {
        let a = w.build(a, arg);
        let (w, l, t, arg) = (w.clone(), l.clone(), w.tok("closure of on_error_resume_next"), arg.clone());
        a.on_error_resume_next(move |e| {
          let _ = &t;
          w.inside(true);
          w.build(&l[pick_resume(l.len(), code(&e))], &arg)
        })
      }
      Ex::Win(n, a, body) => {
        let a = w.build(a, arg);
        let (w, b, t) = (w.clone(), body.clone(), w.tok("closure of flat_map"));
        a.window_with_count(*n).flat_map(move |o: Obs| {
          let _ = &t;
          w.build(&b, &Some(Arg::Inner(w.inner(o))))
        })
      }
      Ex::Group(m, a, body) => {
        let a = w.build(a, arg);
        let (w, b, t, t2) = (w.clone(), body.clone(), w.tok("closure of flat_map"), w.tok("closure of group_by"));
        let m = *m as i64;
        let w2 = w.clone();
        a.group_by(move |v: V| {
          let _ = &t2;
          w2.inside(true);
          Key(v.k.num().rem_euclid(m))
        })
        .flat_map(move |o: Obs| {
          let _ = &t;
          w.build(&b, &Some(Arg::Inner(w.inner(o))))
        })
      }
    }
  }

  pub fn op(&self, op: &Op, s: Obs) -> Obs {
    let w = self;
    let dur = Duration::from_nanos;
    macro_rules! clos {
      ($what:expr, $x:ident, $t:ident => $($body:tt)*) => {{
        let $t = w.tok($what);
        $($body)*
      }};
    }
    match op {
      Op::Map(f) => {
        let (w, f, t) = (w.clone(), *f, w.tok("closure of map"));
        s.map(move |v: V| {
          let _ = &t;
          w.inside(true);
          v.with(app(f, &v.k))
        })
      }
      Op::Filter(p) => {
        let (w, p, t) = (w.clone(), *p, w.tok("closure of filter"));
        s.filter(move |v: V| {
          let _ = &t;
          w.inside(true);
          pred(p, &v.k)
        })
      }
      Op::Take(n) => s.take(*n),
      Op::TakeLast(n) => s.take_last(*n),
      Op::TakeWhile(p) => {
        let (w, p, t) = (w.clone(), *p, w.tok("closure of take_while"));
        s.take_while(move |v: V| {
          let _ = &t;
          w.inside(true);
          pred(p, &v.k)
        })
      }
      Op::Skip(n) => s.skip(*n),
      Op::SkipLast(n) => s.skip_last(*n),
      Op::SkipWhile(p) => {
        let (w, p, t) = (w.clone(), *p, w.tok("closure of skip_while"));
        s.skip_while(move |v: V| {
          let _ = &t;
          w.inside(true);
          pred(p, &v.k)
        })
      }
      Op::First => s.first(),
      Op::Last => s.last(),
      Op::ElementAt(n) => s.element_at(*n),
      Op::Distinct => s.distinct_until_changed(),
      Op::Scan(f) => {
        let (w, f, t) = (w.clone(), *f, w.tok("closure of scan"));
        s.scan(move |(a, b): (V, V)| {
          let _ = &t;
          w.inside(false);
          V { k: app2(f, &a.k, &b.k), born: a.born.max(b.born), tok: b.tok }
        })
      }
      Op::Reduce(f) => {
        let (w, f, t) = (w.clone(), *f, w.tok("closure of reduce"));
        s.reduce(move |(a, b): (V, V)| {
          let _ = &t;
          w.inside(false);
          V { k: app2(f, &a.k, &b.k), born: a.born.max(b.born), tok: b.tok }
        })
      }
      Op::Count => s.count().map(|n| V::new(K::I(n as i64))),
      Op::Sum => s.sum(),
      Op::SumAndCount => s.sum_and_count().map(|(v, n): (V, usize)| V { k: K::L(vec![v.k, K::I(n as i64)]), born: v.born, tok: v.tok }),
      Op::Min => s.min(),
      Op::Max => s.max(),
      Op::All(p) => clos!("closure of all", x, t => {
        let (w, p) = (w.clone(), *p);
        s.all(move |v: V| { let _ = &t; w.inside(true); pred(p, &v.k) }).map(|b| V::new(K::B(b)))
      }),
      Op::Contains(c) => s.contains(V { k: K::I(*c), born: 0, tok: w.tok("contains target") }).map(|b| V::new(K::B(b))),
      Op::DefaultIfEmpty(c) => s.default_if_empty(V { k: K::I(*c), born: 0, tok: w.tok("default item") }),
      Op::Ignore => s.ignore_elements(),
      Op::StartWithInf => s.start_with(It { l: vec![], at: 0, inf: true, tok: w.tok("iterator"), itok: w.tokw() }),
      Op::StartWith(l) => s.start_with(It { l: l.clone(), at: 0, inf: false, tok: w.tok("iterator"), itok: w.tokw() }),
      Op::Buffer(n) => s.buffer_with_count(*n).map(list),
      Op::Materialize => s.materialize().map(|m: Material<V>| match m {
        Material::Next(v) => v.with(K::N(Box::new(v.k.clone()))),
        Material::Error(e) => {
          let tok = tok_of(&e).and_then(|t| t.tok.clone());
          V { k: K::E(code(&e)), born: 0, tok }
        }
        Material::Complete => V::new(K::C),
      }),
      Op::Dematerialize => {
        let w2 = w.clone();
        s.map(move |v: V| match v.k.clone() {
          K::N(k) => Material::Next(v.with(*k)),
          K::E(c) => Material::Error(err(&w2, c)),
          K::C => Material::Complete,
          _ => Material::Next(v),
        })
        .dematerialize()
      }
      Op::Tap(id) => {
        let id = *id;
        // one log per subscription: the occurrence number is taken when the
        // subscription starts, the callbacks belong to it by context
        let (w1, w2, w3) = (w.clone(), w.clone(), w.clone());
        let (t1, t2, t3) = (w.tok("tap next"), w.tok("tap error"), w.tok("tap complete"));
        s.tap(
          move |v: V| {
            let _ = &t1;
            w1.tap(id, Ev::N(v.k));
            w1.inside(true)
          },
          move |e| {
            let _ = &t2;
            w2.tap(id, Ev::E(code(&e)));
            w2.inside(true)
          },
          move || {
            let _ = &t3;
            w3.tap(id, Ev::C);
            w3.inside(true)
          },
        )
      }
      Op::MapToAny => s.map_to_any().map(|a: Arc<Box<dyn std::any::Any + Send + Sync + 'static>>| a.downcast_ref::<V>().expect("map_to_any changed the type").clone()),
      Op::Timestamp => s.timestamp().map(|(_, v): (_, V)| v),
      Op::ObsOnDef => s.observe_on(schedulers::default_scheduler()),
      Op::SubOnDef => s.subscribe_on(schedulers::default_scheduler()),
      Op::Retry(n) => s.retry(*n),
      Op::RetryWhen(m) => {
        let (w, m, t) = (w.clone(), *m, w.tok("closure of retry_when"));
        s.retry_when(move |e| {
          let _ = &t;
          w.inside(true);
          again(m, code(&e))
        })
      }
      Op::TimeInterval => s.time_interval().map(|_| V::new(K::U)),
      Op::Delay(d) => s.delay(dur(*d)),
      Op::Debounce(d) => s.debounce(dur(*d), schedulers::new_thread_scheduler()),
      Op::Timeout(d) => s.timeout(dur(*d), schedulers::new_thread_scheduler()),
      Op::ObsOn => s.observe_on(schedulers::new_thread_scheduler()),
      Op::SubOn => s.subscribe_on(schedulers::new_thread_scheduler()),
      Op::RefCount => s.ref_count().observable(),
      Op::Replay => s.replay().observable(),
    }
  }

  /// called by every operator closure. `free`: it may emit (scan and reduce
  /// fold one item at a time)
  fn inside(&self, free: bool) {
    let Some((n, what)) = self.p.inside else { return };
    {
      let mut s = self.s.b();
      s.calls += 1;
      if s.calls != n {
        return;
      }
    }
    match what {
      Inside::Emit(i, e) if free => {
        say!("a closure emits {:?} into source {}", e, i);
        self.emit_ev(i, e)
      }
      Inside::Emit(..) => {}
      Inside::Unsub(j) => self.unsub(j),
      Inside::Watch(i) => {
        let s = self.s.b().subjects[i].clone();
        if let Some(s) = s {
          say!("a closure subscribes to source {}", i);
          let h = s.observable().subscribe(|_| {}, |_| {}, || {});
          self.s.b().watching.push(h);
        }
      }
    }
  }
  /// the logging tap on a window or group
  fn inner(&self, o: Obs) -> Obs {
    let i = {
      let mut s = self.s.b();
      let c = if s.per_ctx { s.context() } else { 0 };
      let e = s.tapn.entry(c).or_insert(0);
      *e += 1;
      *e - 1
    };
    let (w1, w2, w3) = (self.clone(), self.clone(), self.clone());
    let k = crate::model::INNER;
    o.tap(move |v: V| w1.tapi(k, Some(i), Ev::N(v.k)), move |e| w2.tapi(k, Some(i), Ev::E(code(&e))), move || w3.tapi(k, Some(i), Ev::C))
  }
  fn tap(&self, id: usize, e: Ev) {
    self.tapi(id, None, e)
  }
  fn tapi(&self, id: usize, i: Option<usize>, e: Ev) {
    let mut s = self.s.b();
    let c = if s.per_ctx { s.context() } else { 0 };
    let c = i.unwrap_or(c);
    let st = s.step;
    s.taps.entry((id, c)).or_default().push((st, e));
  }

  // ---------------------------------------------------------------- driving

  pub fn subscribe(&self, j: usize, root: &Obs) {
    if self.s.b().state[j] != Sub::Not {
      return;
    }
    {
      let mut s = self.s.b();
      s.state[j] = Sub::Active;
      s.sub_step[j] = Some(s.step);
      s.sub_start[j] = Some(rt::stamp());
      s.ctx.push(j);
    }
    say!("subscribe {}", j);
    let (w1, w2, w3) = (self.clone(), self.clone(), self.clone());
    let r1 = root.clone();
    let (t1, t2, t3) = (self.tok("subscriber's next"), self.tok("subscriber's error"), self.tok("subscriber's complete"));
    let nested = self.p.nest.map_or(false, |n| n.0 == j);
    let r1 = if nested { Some(r1) } else { None };
    let h = root.subscribe(
      move |v: V| {
        let _ = &t1;
        w1.on_item(j, v, &r1)
      },
      move |e| {
        let _ = &t2;
        w2.on_end(j, Ev::E(code(&e)), born_of(&e))
      },
      move || {
        let _ = &t3;
        w3.on_end(j, Ev::C, 0)
      },
    );
    say!("subscribe {} returned", j);
    let mut s = self.s.b();
    s.sub_ret[j] = Some(rt::stamp());
    s.handles[j] = Some(h);
    s.ctx.pop();
  }
  fn late(&self, j: usize, what: &Ev, born: u64) {
    let s = self.s.b();
    if !s.check_c05 {
      return;
    }
    if let Some(r) = s.unsub_ret[j] {
      let em = s.emitting.get(&rt::cur()).and_then(|v| v.last().copied()).unwrap_or(0);
      if em > r || born > r {
        drop(s);
        viol!("late-event", "subscriber {} received {} whose emission started after unsubscribe() had returned", j, what);
      }
    }
  }
  fn enter(&self, j: usize, ev: &Ev, born: u64) -> usize {
    let start = rt::stamp();
    let mut s = self.s.b();
    let em = s.emitting.get(&rt::cur()).and_then(|v| v.last().copied()).unwrap_or(0);
    let r = Rec { ev: ev.clone(), thread: rt::cur(), start, end: None, born: em.max(born), at: rt::now() };
    s.recs[j].push(r);
    let n = s.recs[j].len() - 1;
    let (c, sl) = (s.conc, s.cb_sleep);
    drop(s);
    if c {
      rt::point("callback", j as u32);
      if sl > 0 {
        rt::sleep_ns(sl);
      }
    }
    n
  }
  fn leave(&self, j: usize, n: usize) {
    if self.s.b().conc {
      rt::point("callback end", j as u32);
    }
    let e = rt::stamp();
    self.s.b().recs[j][n].end = Some(e);
  }
  fn on_item(&self, j: usize, v: V, root: &Option<Obs>) {
    let ev = Ev::N(v.k.clone());
    say!("subscriber {} <- {}", j, ev);
    self.late(j, &ev, v.born);
    let rec = self.enter(j, &ev, v.born);
    let (n, h) = {
      let mut s = self.s.b();
      let st = s.step;
      s.logs[j].push((st, ev));
      s.items[j] += 1;
      (s.items[j], s.handles[j].clone())
    };
    if self.s.b().check_c05 {
      if let Some(h) = &h {
        let is = h.is_subscribed();
        let s = self.s.b();
        if !is && rt::thread_count() == 1 && s.state[j] == Sub::Active && !s.in_terminal[j] {
          drop(s);
          viol!("is_subscribed", "is_subscribed() is false inside the next callback of subscriber {}, which has neither seen a terminal nor unsubscribed", j);
        }
      }
    }
    if let (Some((_, at, b)), Some(r)) = (self.p.nest, root) {
      if at == n {
        self.subscribe(b, r);
      }
    }
    let more = self.s.b().nests.get(j).cloned().flatten();
    if let Some((at, k, r)) = more {
      if at == n {
        self.subscribe(k, &r);
      }
    }
    self.echo(j, n);
    if self.p.unsub_at[j] == Some(n) {
      self.unsub(j);
    }
    self.leave(j, rec);
  }
  fn on_end(&self, j: usize, e: Ev, born: u64) {
    say!("subscriber {} <- {}", j, e);
    self.late(j, &e, born);
    let rec = self.enter(j, &e, born);
    {
      let mut s = self.s.b();
      let st = s.step;
      s.logs[j].push((st, e));
      if s.state[j] == Sub::Active {
        s.state[j] = Sub::Terminated;
      }
    }
    self.echo(j, 0);
    self.leave(j, rec);
  }
  /// what subscriber j emits from inside its n-th item or its terminal
  fn echo(&self, j: usize, n: usize) {
    for (b, at, src, e) in &self.p.emit_at {
      if *b == j && *at == n {
        say!("subscriber {} emits {:?} into source {}", j, e, src);
        self.emit_ev(*src, *e);
      }
    }
  }
  pub fn unsub(&self, j: usize) {
    let h = self.s.b().handles[j].clone();
    let Some(h) = h else { return };
    say!("unsubscribe {}", j);
    {
      let st = rt::stamp();
      let mut s = self.s.b();
      if s.unsub_start[j].is_none() {
        s.unsub_start[j] = Some(st);
      }
    }
    let using = self.s.b().using;
    match using {
      0 => h.unsubscribe(),
      1 => drop(utils::Using::new(h.clone())),
      _ => {
        // the scope of the guard is left by unwinding
        let g = utils::Using::new(h.clone());
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
          let _g = g;
          std::panic::resume_unwind(Box::new("user code"));
        }));
        assert!(r.is_err());
      }
    }
    say!("unsubscribe {} returned", j);
    let r = rt::stamp();
    let mut s = self.s.b();
    if s.unsub_ret[j].is_none() {
      s.unsub_ret[j] = Some(r);
      s.unsub_now[j] = Some(rt::now());
    }
    if s.state[j] == Sub::Active {
      s.state[j] = Sub::Unsubscribed;
    }
  }
  pub fn emit(&self, i: usize) {
    let (c, e) = {
      let mut s = self.s.b();
      let c = s.cursors[i];
      let Some(e) = self.p.srcs[i].scripts[0].get(c) else { return };
      s.cursors[i] += 1;
      (c, *e)
    };
    say!("source {} emits event {}: {:?}", i, c, e);
    self.emit_ev(i, e)
  }
  /// one event of a hot or subject source, to whoever is there
  pub fn emit_ev(&self, i: usize, e: SEv) {
    match self.p.srcs[i].mode {
      Mode::Subj => {
        let s = self.s.b().subjects[i].clone();
        let Some(s) = s else { return };
        let st = rt::stamp();
        if !matches!(e, SEv::N(_)) {
          self.s.b().subj_over.push(i);
        }
        self.begin();
        match e {
          SEv::N(x) => s.next(self.item(x)),
          SEv::E => s.error(err(self, code_of(i, 0))),
          SEv::C => s.complete(),
        }
        self.end();
        self.s.b().emits.push((e, st, rt::stamp()));
      }
      _ => {
        let l: Vec<(usize, bool, Observer<'static, V>, usize)> = self.s.b().insts.iter().filter(|x| x.src == i).map(|x| (x.k, x.counted, x.obs.clone(), x.ctx)).collect();
        let polite = self.p.srcs[i].polite;
        for (k, counted, o, ctx) in l {
          let open = o.is_subscribed();
          if counted {
            self.s.b().checks.entry((i, k)).or_default().push(!open);
          }
          if open || !polite {
            let per = self.s.b().per_ctx;
            if per {
              self.s.b().ctx.push(ctx);
            }
            self.send_logged(&o, i, 0, if counted { k } else { usize::MAX }, e);
            if per {
              self.s.b().ctx.pop();
            }
          }
        }
      }
    }
  }
  pub fn tact(&self, a: TAct, root: &Obs) {
    match a {
      TAct::Sub(j) => self.subscribe(j, root),
      TAct::Unsub(j) => self.unsub(j),
      TAct::Emit(s, e) => {
        say!("source {} emits {:?}", s, e);
        self.emit_ev(s, e);
        say!("... source {} emitted {:?}", s, e);
      }
      TAct::Sleep(n) => rt::sleep_ns(n),
      TAct::IsSub(j) => {
        let h = self.s.b().handles[j].clone();
        let Some(h) = h else { return };
        let (term, unsub, was) = {
          let s = self.s.b();
          (s.recs[j].iter().any(|r| r.end.is_some() && !matches!(r.ev, Ev::N(_))), s.unsub_ret[j].is_some(), s.seen_false[j])
        };
        let is = h.is_subscribed();
        if is && (term || unsub || was) {
          viol!("is_subscribed", "is_subscribed() of subscriber {} is true although {}", j, if term { "its terminal callback has returned" } else if unsub { "unsubscribe() has returned" } else { "it has been false before" });
        }
        if !is {
          self.s.b().seen_false[j] = true;
        }
      }
    }
  }
  /// live instances per source
  pub fn live(&self) -> Vec<Vec<usize>> {
    let l: Vec<(usize, usize, Observer<'static, V>)> = self.s.b().insts.iter().map(|x| (x.src, if x.counted { x.k } else { 9999 }, x.obs.clone())).collect();
    let mut v = vec![vec![]; self.p.srcs.len()];
    for (s, k, o) in l {
      if o.is_subscribed() {
        v[s].push(k);
      }
    }
    v
  }
  pub fn root(&self) -> Obs {
    let r = self.build(&self.p.ex, &None);
    match self.p.rsg {
      None => r,
      Some((s, n)) => {
        let w = self.clone();
        let t = self.tok("closure of ready_set_go");
        utils::ready_set_go(
          move || {
            let _ = &t;
            for _ in 0..n {
              w.emit(s)
            }
          },
          r,
        )
      }
    }
  }
  /// Run all acts. `threads`: let library threads settle after each act.
  pub fn drive(&self, root: &Obs, threads: bool, mut after: impl FnMut(&World, usize)) {
    for (i, a) in self.p.acts.clone().iter().enumerate() {
      self.s.b().step = i as i32;
      match *a {
        Act::Sub(j) => self.subscribe(j, root),
        Act::Unsub(j) => self.unsub(j),
        Act::Emit(s) => self.emit(s),
      }
      if threads {
        if self.p.lin {
          calm(1_000_000);
        } else {
          rt::quiesce(3_000);
        }
      }
      after(self, i);
    }
  }
  /// break the harness' own reference cycles
  pub fn clear(&self) {
    let (a, b, c) = {
      let mut s = self.s.b();
      let none = vec![None; s.handles.len()];
      let nosub = vec![None; s.subjects.len()];
      (std::mem::take(&mut s.insts), std::mem::replace(&mut s.handles, none), std::mem::replace(&mut s.subjects, nosub))
    };
    let d = std::mem::take(&mut self.s.b().watching);
    drop(a);
    drop(b);
    drop(c);
    drop(d);
  }
}

pub fn list(l: Vec<V>) -> V {
  let born = l.iter().map(|v| v.born).max().unwrap_or(0);
  let tok = l.first().and_then(|v| v.tok.clone());
  V { k: K::L(l.into_iter().map(|v| v.k).collect()), born, tok }
}
