//! Pipelines as data: expressions, source scripts, actions, generators.
use crate::util::{probe, G};
use crate::val::*;
use std::fmt;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
  Map(u8),
  Filter(u8),
  Take(usize),
  TakeLast(usize),
  TakeWhile(u8),
  Skip(usize),
  SkipLast(usize),
  SkipWhile(u8),
  First,
  Last,
  ElementAt(usize),
  Distinct,
  Scan(u8),
  Reduce(u8),
  Count,
  Sum,
  SumAndCount,
  Min,
  Max,
  All(u8),
  Contains(i64),
  DefaultIfEmpty(i64),
  Ignore,
  StartWith(Vec<i64>),
  /// with an iterator that never ends
  StartWithInf,
  Buffer(usize),
  Materialize,
  Dematerialize,
  Tap(usize),
  MapToAny,
  Timestamp,
  ObsOnDef,
  SubOnDef,
  Retry(usize),
  RetryWhen(u8),
  // not modelled
  TimeInterval,
  Delay(u64),
  Debounce(u64),
  Timeout(u64),
  ObsOn,
  SubOn,
  RefCount,
  Replay,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Mu {
  Merge,
  Concat,
  Zip,
  Combine,
  Amb,
  SeqEq,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Tr {
  TakeUntil,
  SkipUntil,
  Sample,
  /// not modelled
  Switch,
}

#[derive(Clone, Debug)]
pub enum Ex {
  Src(usize),
  Just(i64),
  Iter(Vec<i64>),
  IterInf,
  Range(i64, i64),
  Empty,
  Never,
  Error(u32),
  Start(i64),
  FromOk(i64),
  FromErr(u32),
  Repeat(i64),
  Defer(Arc<Ex>),
  /// inside flat_map/window/group bodies: just(item) / the inner observable
  Arg,
  /// not modelled: interval/timer on a new thread
  Interval(u64),
  Timer(u64),
  U(Op, Box<Ex>),
  Multi(Mu, Vec<Ex>),
  Trig(Tr, Box<Ex>, Box<Ex>),
  FlatMap(Box<Ex>, Arc<Vec<Ex>>),
  Resume(Box<Ex>, Arc<Vec<Ex>>),
  /// window_with_count(n).flat_map(|w| body(tap(w)))
  Win(usize, Box<Ex>, Arc<Ex>),
  /// group_by(num mod m).flat_map(|g| body(tap(g)))
  Group(usize, Box<Ex>, Arc<Ex>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
  Cold,
  Hot,
  Subj,
  /// every subscription starts a thread of its own that emits the script
  Thr,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum SEv {
  N(i64),
  E,
  C,
}
#[derive(Clone, Debug)]
pub struct Src {
  pub mode: Mode,
  /// stops emitting once the observer is no longer subscribed
  pub polite: bool,
  /// one script per subscription (the last one repeats); hot sources use [0]
  pub scripts: Vec<Vec<SEv>>,
  /// Subj: 0 Subject, 1 Behavior, 2 Replay, 3 Async
  pub kind: u8,
  /// Thr: pause before every event
  pub pause: u64,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Act {
  Sub(usize),
  Unsub(usize),
  Emit(usize),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Inside {
  Emit(usize, SEv),
  Unsub(usize),
  /// subscribe somebody else to a subject source
  Watch(usize),
}
#[derive(Clone, Debug)]
pub struct Prog {
  pub srcs: Vec<Src>,
  pub ex: Ex,
  /// ready_set_go(emit n events of hot source s, ex)
  pub rsg: Option<(usize, usize)>,
  pub subs: usize,
  /// subscriber j unsubscribes itself inside its n-th item
  pub unsub_at: Vec<Option<usize>>,
  /// subscriber j subscribes subscriber k inside its n-th item
  pub nest: Option<(usize, usize, usize)>,
  /// subscriber j, inside its n-th item (0: inside its terminal), emits into
  /// source s
  pub emit_at: Vec<(usize, usize, usize, SEv)>,
  /// what the n-th call of an operator's closure does
  pub inside: Option<(usize, Inside)>,
  pub acts: Vec<Act>,
  /// the threaded operators stand in one line, where all they can do is
  /// hand every event on (model only)
  pub lin: bool,
}
/// What a harness thread does in a concurrent run.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum TAct {
  Sub(usize),
  Unsub(usize),
  Emit(usize, SEv),
  Sleep(u64),
  IsSub(usize),
}

pub fn app(f: u8, k: &K) -> K {
  let n = k.num();
  match f % 5 {
    0 => K::I(n.wrapping_add(1)),
    1 => K::I(n.wrapping_mul(2)),
    2 => K::I(n.rem_euclid(3)),
    3 => K::I(7),
    _ => k.clone(),
  }
}
pub fn pred(p: u8, k: &K) -> bool {
  let n = k.num();
  match p % 8 {
    0 => n.rem_euclid(2) == 0,
    1 => n < 2,
    2 => n >= 2,
    3 => n == 1,
    4 => n.rem_euclid(3) == 0,
    5 => true,
    6 => false,
    _ => n != 2,
  }
}
pub fn app2(f: u8, a: &K, b: &K) -> K {
  match f % 4 {
    0 => kadd(a, b),
    1 => K::I(a.num().wrapping_mul(2).wrapping_add(b.num())),
    2 => b.clone(),
    _ => a.clone(),
  }
}
/// retry_when's predicate family
pub fn again(m: u8, code: u32) -> bool {
  code % 16 < m as u32
}
pub fn code_of(src: usize, k: usize) -> u32 {
  (src as u32 + 1) * 16 + k.min(15) as u32
}
pub fn pick_resume(len: usize, code: u32) -> usize {
  (code / 16) as usize % len
}
pub fn pick_body(len: usize, n: i64) -> usize {
  n.rem_euclid(len as i64) as usize
}

impl Ex {
  pub fn walk(&self, f: &mut dyn FnMut(&Ex)) {
    f(self);
    match self {
      Ex::Defer(e) => e.walk(f),
      Ex::U(_, e) => e.walk(f),
      Ex::Multi(_, l) => l.iter().for_each(|e| e.walk(f)),
      Ex::Trig(_, a, b) => {
        a.walk(f);
        b.walk(f)
      }
      Ex::FlatMap(a, l) | Ex::Resume(a, l) => {
        a.walk(f);
        l.iter().for_each(|e| e.walk(f))
      }
      Ex::Win(_, a, b) | Ex::Group(_, a, b) => {
        a.walk(f);
        b.walk(f)
      }
      _ => {}
    }
  }
  pub fn any(&self, p: &dyn Fn(&Ex) -> bool) -> bool {
    let mut r = false;
    self.walk(&mut |e| r |= p(e));
    r
  }
  pub fn has_op(&self, p: &dyn Fn(&Op) -> bool) -> bool {
    self.any(&|e| matches!(e, Ex::U(o, _) if p(o)))
  }
  pub fn size(&self) -> usize {
    let mut n = 0;
    self.walk(&mut |_| n += 1);
    n
  }
}
impl fmt::Display for Ex {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    let list = |l: &[Ex]| l.iter().map(|e| e.to_string()).collect::<Vec<_>>().join(", ");
    match self {
      Ex::Src(i) => write!(f, "s{}", i),
      Ex::U(o, e) => write!(f, "{}.{:?}", e, o),
      Ex::Multi(m, l) => write!(f, "{:?}({})", m, list(l)),
      Ex::Trig(t, a, b) => write!(f, "{}.{:?}({})", a, t, b),
      Ex::FlatMap(a, l) => write!(f, "{}.FlatMap[{}]", a, list(l)),
      Ex::Resume(a, l) => write!(f, "{}.Resume[{}]", a, list(l)),
      Ex::Win(n, a, b) => write!(f, "{}.Window({}){{{}}}", a, n, b),
      Ex::Group(n, a, b) => write!(f, "{}.GroupBy(%{}){{{}}}", a, n, b),
      Ex::Defer(e) => write!(f, "Defer({})", e),
      o => write!(f, "{:?}", o),
    }
  }
}
pub fn show_script(s: &[SEv]) -> String {
  s.iter()
    .map(|e| match e {
      SEv::N(i) => i.to_string(),
      SEv::E => "E".into(),
      SEv::C => "|".into(),
    })
    .collect::<Vec<_>>()
    .join(" ")
}
impl fmt::Display for Prog {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    write!(f, "{}", self.ex)?;
    if let Some((s, n)) = self.rsg {
      write!(f, " ready_set_go(s{} x{})", s, n)?;
    }
    for (i, s) in self.srcs.iter().enumerate() {
      write!(f, "; s{}={:?}{}{}", i, s.mode, if s.mode == Mode::Subj { ["", "/Behavior", "/Replay", "/Async"][s.kind as usize] } else { "" }, if s.polite { "" } else { " (never checks is_subscribed)" })?;
      for sc in &s.scripts {
        write!(f, "({})", show_script(sc))?;
      }
    }
    write!(f, "; acts")?;
    for a in &self.acts {
      match a {
        Act::Sub(j) => write!(f, " sub{}", j)?,
        Act::Unsub(j) => write!(f, " unsub{}", j)?,
        Act::Emit(s) => write!(f, " s{}", s)?,
      }
    }
    for (j, u) in self.unsub_at.iter().enumerate() {
      if let Some(n) = u {
        write!(f, "; subscriber {} unsubscribes itself in item {}", j, n)?;
      }
    }
    for (j, n, s, e) in &self.emit_at {
      if *n == 0 {
        write!(f, "; subscriber {} emits {:?} into s{} in its terminal", j, e, s)?;
      } else {
        write!(f, "; subscriber {} emits {:?} into s{} in its item {}", j, e, s, n)?;
      }
    }
    match self.inside {
      Some((n, Inside::Emit(s, e))) => write!(f, "; the {}. closure called emits {:?} into s{}", n, e, s)?,
      Some((n, Inside::Unsub(j))) => write!(f, "; the {}. closure called unsubscribes subscriber {}", n, j)?,
      Some((n, Inside::Watch(s))) => write!(f, "; the {}. closure called subscribes to s{}", n, s)?,
      None => {}
    }
    if let Some((j, n, k)) = self.nest {
      write!(f, "; subscriber {} subscribes {} in its item {}", j, k, n)?;
    }
    Ok(())
  }
}

impl Prog {
  pub fn size(&self) -> usize {
    let mut n = self.acts.len();
    for s in &self.srcs {
      n += s.scripts.iter().map(|l| l.len()).sum::<usize>();
    }
    self.ex.walk(&mut |e| {
      n += match e {
        Ex::Iter(l) => l.len(),
        Ex::Range(_, k) => (*k).max(0) as usize,
        Ex::Multi(_, l) => l.len() * l.len(),
        Ex::U(Op::Retry(k), _) => (*k).min(1000),
        Ex::U(Op::StartWith(l), _) => l.len(),
        _ => 1,
      }
    });
    n
  }
}

// ------------------------------------------------------------ generation

#[derive(Clone)]
pub struct Prof {
  /// weights: leaf, unary, multi, trig, flat_map, window/group, recovery, thread/time ops
  pub w: [u32; 8],
  /// leaf weights: probe source, creation function
  pub leaf: [u32; 2],
  pub depth: u32,
  /// source modes: cold, hot, subject
  pub mode: [u32; 3],
  pub ill: bool,
  pub impolite: bool,
  /// endings: complete, error, silence
  pub ends: [u32; 3],
  pub max_items: u32,
  /// different scripts for later subscriptions
  pub vary: bool,
  pub infinite: bool,
  pub max_srcs: usize,
  pub shared: bool,
  /// restrict to single-source things
  pub max_inputs: usize,
  pub tap: bool,
}
impl Prof {
  pub fn base() -> Prof {
    Prof {
      w: [3, 6, 0, 0, 0, 0, 0, 0],
      leaf: [5, 1],
      depth: 3,
      mode: [3, 3, 1],
      ill: false,
      impolite: true,
      ends: [4, 2, 2],
      max_items: 6,
      vary: false,
      infinite: false,
      max_srcs: 4,
      shared: true,
      max_inputs: 4,
      tap: true,
    }
  }
}

pub struct Gen<'a> {
  pub g: &'a mut G,
  pub p: Prof,
  pub srcs: Vec<Src>,
  pub ntap: usize,
  /// a long script (or many inputs) is due
  pub big: bool,
  /// counts may be large
  pub large: bool,
}
/// sizes at which counters and buffers tend to be cut off
const BIG: &[usize] = &[9, 12, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300];
const WILD: &[i64] = &[-1, -2, -7, -1000, 10, 100, 127, 128, 255, 256, 257, 1000, 32768, 65536, 2147483647, 2147483648, -2147483649, 1 << 40, i64::MAX, i64::MIN];
impl<'a> Gen<'a> {
  pub fn new(g: &'a mut G, p: Prof) -> Gen<'a> {
    let big = g.chance(1, 50);
    if big {
      g.large = true;
      probe("large-case");
    }
    Gen { g, p, srcs: vec![], ntap: 0, big, large: big }
  }
  fn cnt(&mut self, n: usize) -> usize {
    if self.large && self.g.chance(1, 3) {
      (*self.g.pick(BIG) + self.g.us(3)).saturating_sub(1)
    } else {
      self.g.us(n)
    }
  }
  /// the same for operators that may be told to wait for more than there is
  fn lots(&mut self, n: usize) -> usize {
    if self.g.chance(1, 50) {
      *self.g.pick(&[usize::MAX, usize::MAX, usize::MAX - 1, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 63])
    } else {
      self.cnt(n)
    }
  }
  pub fn script(&mut self) -> Vec<SEv> {
    let mut n = self.g.weighted(&[3, 5, 6, 5, 4, 3, 2, 1, 1]).min(self.p.max_items as usize);
    if self.big && self.g.chance(1, 2) {
      n = *self.g.pick(BIG);
      self.big = false;
    }
    let wide = self.g.int(8);
    let mut v: Vec<SEv> = (0..n)
      .map(|i| {
        SEv::N(match wide {
          7 if n < 9 => *self.g.pick(WILD),
          6 | 7 => self.g.range(-3, 6),
          5 if n > 8 => i as i64,
          5 => self.g.range(0, 6),
          _ => self.g.range(0, 3),
        })
      })
      .collect();
    match self.g.weighted(&self.p.ends) {
      0 => v.push(SEv::C),
      1 => v.push(SEv::E),
      _ => {}
    }
    if self.p.ill && self.g.chance(1, 2) {
      let k = 1 + self.g.us(3);
      for _ in 0..k {
        let e = match self.g.int(4) {
          0 => SEv::C,
          1 => SEv::E,
          _ => SEv::N(self.g.range(0, 3)),
        };
        let at = self.g.us(v.len() + 1);
        // mostly behind, sometimes in the middle
        if self.g.chance(1, 4) {
          v.insert(at, e);
        } else {
          v.push(e);
        }
      }
    }
    v
  }
  pub fn new_src(&mut self, mode: Option<Mode>) -> usize {
    let m = mode.unwrap_or_else(|| match self.g.weighted(&self.p.mode) {
      0 => Mode::Cold,
      1 => Mode::Hot,
      _ => Mode::Subj,
    });
    let n = if m == Mode::Cold && self.p.vary { 1 + self.g.weighted(&[3, 3, 2, 1]) } else { 1 };
    let scripts = (0..n).map(|_| self.script()).collect();
    let polite = !(self.p.impolite && self.g.chance(1, 3));
    self.srcs.push(Src { mode: m, polite, scripts, kind: 0, pause: 0 });
    self.srcs.len() - 1
  }
  pub fn src(&mut self) -> Ex {
    if self.srcs.len() >= self.p.max_srcs || (self.p.shared && !self.srcs.is_empty() && self.g.chance(1, 8)) {
      Ex::Src(self.g.us(self.srcs.len()))
    } else {
      Ex::Src(self.new_src(None))
    }
  }
  pub fn leaf(&mut self, arg: bool) -> Ex {
    if arg && self.g.chance(1, 2) {
      return Ex::Arg;
    }
    if self.g.weighted(&self.p.leaf) == 0 {
      return self.src();
    }
    let n = self.g.weighted(&[4, 4, 2, 2, 2, 2, 2, 2, 2, if self.p.infinite { 2 } else { 0 }, if self.p.infinite { 2 } else { 0 }]);
    let err = self.p.ends[1] > 0;
    match n {
      0 => {
        let mut n = self.g.us(6);
        if self.big && self.g.chance(1, 2) {
          n = *self.g.pick(BIG);
          self.big = false;
        }
        Ex::Iter((0..n).map(|_| self.g.range(0, 3)).collect())
      }
      1 => Ex::Just(self.g.range(0, 3)),
      2 => {
        let n = if self.big { self.cnt(5) as i64 } else { self.g.range(0, 4) };
        match self.g.int(40) {
          // up to the last number there is
          0 => Ex::Range(i64::MAX - n.max(1) + 1, n),
          1 => Ex::Range(i64::MIN, n),
          2 => Ex::Range(self.g.range(-1, 2), *self.g.pick(&[-1, -3, i64::MIN])),
          _ => Ex::Range(self.g.range(-1, 2), n),
        }
      }
      3 => Ex::Empty,
      4 => {
        if self.p.ends[2] > 0 {
          Ex::Never
        } else {
          Ex::Empty
        }
      }
      5 => {
        if err {
          Ex::Error(975 + 16 * self.g.int(4))
        } else {
          Ex::Empty
        }
      }
      6 => Ex::Start(self.g.range(0, 3)),
      7 => {
        if err && self.g.chance(1, 2) {
          Ex::FromErr(1039 + 16 * self.g.int(4))
        } else {
          Ex::FromOk(self.g.range(0, 3))
        }
      }
      8 => Ex::Defer(Arc::new(self.leaf(arg))),
      9 => Ex::Repeat(self.g.range(0, 3)),
      _ => Ex::IterInf,
    }
  }
  pub fn op(&mut self) -> Op {
    match self.g.int(32) {
      0 => Op::Map(self.g.int(4) as u8),
      1 => Op::Filter(self.g.int(8) as u8),
      2 => Op::Take(self.lots(4).saturating_add(1)),
      3 => Op::TakeLast(self.lots(5)),
      4 => Op::TakeWhile(self.g.int(8) as u8),
      5 => Op::Skip(self.lots(5)),
      6 => Op::SkipLast(self.lots(5)),
      7 => Op::SkipWhile(self.g.int(8) as u8),
      8 => Op::First,
      9 => Op::Last,
      10 => Op::ElementAt(self.lots(5).saturating_add(1)),
      11 => Op::Distinct,
      12 => Op::Scan(self.g.int(4) as u8),
      13 => Op::Reduce(self.g.int(4) as u8),
      14 => Op::Count,
      15 => Op::Sum,
      16 => Op::SumAndCount,
      17 => Op::Min,
      18 => Op::Max,
      19 => Op::All(self.g.int(8) as u8),
      20 => Op::Contains(self.g.range(0, 3)),
      21 => Op::DefaultIfEmpty(self.g.range(0, 3)),
      22 => Op::Ignore,
      23 => {
        if self.p.infinite && self.g.chance(1, 3) {
          return Op::StartWithInf;
        }
        let n = self.cnt(4);
        Op::StartWith((0..n).map(|_| self.g.range(0, 3)).collect())
      }
      24 => Op::Buffer(self.lots(4).saturating_add(1)),
      25 => Op::Materialize,
      26 => Op::Dematerialize,
      27 => {
        if self.p.tap {
          self.ntap += 1;
          Op::Tap(self.ntap)
        } else {
          Op::Map(4)
        }
      }
      28 => Op::MapToAny,
      29 => Op::Timestamp,
      30 => {
        if self.g.chance(1, 2) {
          Op::ObsOnDef
        } else {
          Op::SubOnDef
        }
      }
      _ => Op::Take(self.lots(5)),
    }
  }
  /// an operator whose output does not depend on the order in which groups end
  fn group_op(&mut self) -> Op {
    let g = &mut *self.g;
    match g.int(7) {
      0 => Op::Map(g.int(4) as u8),
      1 => Op::Filter(g.int(8) as u8),
      2 => Op::Take(1 + g.us(3)),
      3 => Op::Distinct,
      4 => Op::Scan(g.int(4) as u8),
      5 => Op::Skip(g.us(3)),
      _ => Op::TakeWhile(g.int(8) as u8),
    }
  }
  pub fn ex(&mut self, depth: u32, arg: bool) -> Ex {
    if depth == 0 {
      return self.leaf(arg);
    }
    let d = depth - 1;
    match self.g.weighted(&self.p.w.clone()) {
      0 => self.leaf(arg),
      1 => {
        let e = self.ex(d, arg);
        // materialize . dematerialize pairs more often than chance would
        if self.g.chance(1, 24) {
          let m = Ex::U(Op::Materialize, Box::new(e));
          return Ex::U(Op::Dematerialize, Box::new(m));
        }
        let o = self.op();
        Ex::U(o, Box::new(e))
      }
      2 => {
        let m = *self.g.pick(&[Mu::Merge, Mu::Concat, Mu::Zip, Mu::Combine, Mu::Amb, Mu::SeqEq]);
        self.multi(m, d, arg)
      }
      3 => {
        let t = *self.g.pick(&[Tr::TakeUntil, Tr::SkipUntil, Tr::Sample, Tr::TakeUntil, Tr::SkipUntil, Tr::Sample, Tr::Switch]);
        let a = self.ex(d, arg);
        let b = self.ex(d, arg);
        Ex::Trig(t, Box::new(a), Box::new(b))
      }
      4 => {
        let a = self.ex(d, arg);
        let n = 1 + self.g.us(3);
        let l = (0..n).map(|_| self.ex(d, true)).collect();
        Ex::FlatMap(Box::new(a), Arc::new(l))
      }
      5 => {
        let a = self.ex(d, arg);
        let mut b = Ex::Arg;
        if self.g.chance(1, 2) {
          for _ in 0..self.g.us(3) {
            let o = self.op();
            b = Ex::U(o, Box::new(b));
          }
          Ex::Win(self.lots(4).saturating_add(1), Box::new(a), Arc::new(b))
        } else {
          for _ in 0..self.g.us(3) {
            let o = self.group_op();
            b = Ex::U(o, Box::new(b));
          }
          Ex::Group(1 + self.cnt(3), Box::new(a), Arc::new(b))
        }
      }
      6 => {
        let a = self.ex(d, arg);
        match self.g.int(3) {
          0 if self.g.chance(1, 40) => Ex::U(Op::Retry(usize::MAX), Box::new(a)),
          0 => Ex::U(Op::Retry(self.cnt(5).min(40)), Box::new(a)),
          1 => Ex::U(Op::RetryWhen(self.g.int(5) as u8), Box::new(a)),
          _ => {
            let n = 1 + self.g.us(2);
            let l = (0..n).map(|_| self.ex(d, false)).collect();
            Ex::Resume(Box::new(a), Arc::new(l))
          }
        }
      }
      _ => {
        if self.g.chance(1, 6) {
          return match self.g.int(3) {
            0 => Ex::Interval(500),
            1 => Ex::Timer(300),
            _ => {
              let a = self.ex(d, arg);
              let b = self.ex(d, arg);
              Ex::Trig(Tr::Switch, Box::new(a), Box::new(b))
            }
          };
        }
        let a = self.ex(d, arg);
        let o = match self.g.int(7) {
          0 => Op::TimeInterval,
          1 => Op::Delay(200),
          2 => Op::Debounce(200),
          3 => Op::Timeout(800),
          4 => Op::ObsOn,
          5 => Op::SubOn,
          _ => {
            if self.g.chance(1, 2) {
              Op::RefCount
            } else {
              Op::Replay
            }
          }
        };
        Ex::U(o, Box::new(a))
      }
    }
  }
  pub fn multi(&mut self, m: Mu, d: u32, arg: bool) -> Ex {
    let n = 1 + self.g.weighted(&[1, 5, 3, 1]);
    let mut n = n.min(self.p.max_inputs);
    if self.big && self.p.max_inputs > 2 && self.g.chance(1, 2) {
      self.big = false;
      n = *self.g.pick(&[6, 9, 12, 17, 20, 33, 65]);
      if self.g.chance(1, 2) {
        // inputs that all complete at once
        let one = |g: &mut G| match g.int(6) {
          0 => Ex::Empty,
          1 => Ex::Range(g.range(0, 3), 2),
          2 => Ex::Iter(vec![1, g.range(0, 3)]),
          _ => Ex::Just(g.range(0, 3)),
        };
        let l = (0..n).map(|_| one(self.g)).collect();
        return Ex::Multi(m, l);
      }
      let l = (0..n).map(|_| self.leaf(arg)).collect();
      return Ex::Multi(m, l);
    }
    let l = (0..n).map(|_| self.ex(d, arg)).collect();
    Ex::Multi(m, l)
  }
  /// emission acts: a random interleaving of the hot scripts, possibly cut short
  pub fn emits(&mut self) -> Vec<Act> {
    let mut left: Vec<usize> = self.srcs.iter().map(|s| if matches!(s.mode, Mode::Cold | Mode::Thr) { 0 } else { s.scripts[0].len() }).collect();
    let mut v = vec![];
    loop {
      let live: Vec<usize> = (0..left.len()).filter(|i| left[*i] > 0).collect();
      if live.is_empty() {
        break;
      }
      // runs of one source as well as fine interleavings
      let s = *self.g.pick(&live);
      let run = if self.g.chance(1, 4) { left[s] } else { 1 };
      for _ in 0..run {
        v.push(Act::Emit(s));
        left[s] -= 1;
      }
      if v.len() > if self.large { 900 } else { 40 } {
        break;
      }
    }
    v
  }
}
