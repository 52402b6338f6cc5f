//! Generation choices, probes and small helpers shared by every property.
use simstd::rt::{self, Rng, Strategy};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::sync::Arc;

/// Recorded bounded choices: a pure function of the seed, or of a replay list.
pub struct G {
  rng: Option<Rng>,
  replay: Vec<u32>,
  pub rec: Vec<u32>,
  /// the case is much larger than usual
  pub large: bool,
}
impl G {
  pub fn seed(s: u64) -> G {
    G { rng: Some(Rng::new(s)), replay: vec![], rec: vec![], large: false }
  }
  pub fn replay(l: Vec<u32>) -> G {
    G { rng: None, replay: l, rec: vec![], large: false }
  }
  /// uniform in 0..n; 0 is the simplest choice
  pub fn int(&mut self, n: u32) -> u32 {
    assert!(n > 0);
    if n == 1 {
      return 0;
    }
    let v = match &mut self.rng {
      Some(r) => r.below(n as u64) as u32,
      None => self.replay.get(self.rec.len()).copied().unwrap_or(0) % n,
    };
    self.rec.push(v);
    v
  }
  pub fn us(&mut self, n: usize) -> usize {
    self.int(n as u32) as usize
  }
  /// true with probability a/b; false is the simple choice
  pub fn chance(&mut self, a: u32, b: u32) -> bool {
    let v = self.int(b);
    v >= b - a
  }
  pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
    lo + self.int((hi - lo + 1) as u32) as i64
  }
  pub fn pick<'a, T>(&mut self, l: &'a [T]) -> &'a T {
    let i = self.us(l.len());
    &l[i]
  }
  /// now and then a size beyond the usual few, up to `max`
  pub fn big(&mut self, max: usize) -> Option<usize> {
    if !self.chance(1, 60) {
      return None;
    }
    self.large = true;
    probe("large-case");
    let l: Vec<usize> = [9, 12, 17, 20, 33, 40, 65, 70, 101, 129, 140, 257, 270].iter().copied().filter(|x| *x <= max).collect();
    Some(*self.pick(&l))
  }
  pub fn weighted(&mut self, w: &[u32]) -> usize {
    let t: u32 = w.iter().sum();
    let mut v = self.int(t);
    for (i, x) in w.iter().enumerate() {
      if v < *x {
        return i;
      }
      v -= x;
    }
    0
  }
}

#[derive(Clone)]
pub struct Cfg {
  pub strategy: Strategy,
  pub budget: u64,
  pub spurious: bool,
  pub stall_ns: u64,
}
impl Cfg {
  pub fn seq() -> Cfg {
    Cfg { strategy: Strategy::Walk { p: 0 }, budget: 300_000, spurious: false, stall_ns: 0 }
  }
  /// a swarm-style scheduler and fault configuration for concurrent cases
  pub fn conc(g: &mut G, stall_ns: u64) -> Cfg {
    let strategy = match g.int(6) {
      0 => Strategy::Walk { p: 64 },
      1 => Strategy::Walk { p: 256 },
      2 => Strategy::Walk { p: 700 },
      3 => Strategy::Pct { rate: 12 },
      4 => Strategy::Pct { rate: 60 },
      _ => Strategy::Burst { max: 24 },
    };
    let spurious = g.chance(1, 3);
    let stall = if stall_ns > 0 && g.chance(1, 4) { stall_ns } else { 0 };
    Cfg { strategy, budget: 400_000, spurious, stall_ns: stall }
  }
}

pub struct Prep {
  pub desc: String,
  pub cfg: Cfg,
  pub body: Box<dyn FnOnce()>,
}

// ------------------------------------------------------------ probes

thread_local! {
  static PROBES: RefCell<BTreeMap<&'static str, u64>> = const { RefCell::new(BTreeMap::new()) };
  static NONTRIVIAL: Cell<bool> = const { Cell::new(false) };
  static EXTRA: Cell<u64> = const { Cell::new(0) };
}
pub fn probe(n: &'static str) {
  PROBES.with(|p| *p.borrow_mut().entry(n).or_insert(0) += 1);
}
pub fn probe_n(n: &'static str, k: u64) {
  if k > 0 {
    PROBES.with(|p| *p.borrow_mut().entry(n).or_insert(0) += k);
  }
}
pub fn nontrivial() {
  NONTRIVIAL.with(|p| p.set(true));
}
/// Fold something into the run's state hash (history, outcome …).
pub fn observe(x: u64) {
  EXTRA.with(|p| p.set(rt::mix(p.get(), x)));
}
pub fn take_probes() -> (BTreeMap<&'static str, u64>, bool, u64) {
  (
    PROBES.with(|p| std::mem::take(&mut *p.borrow_mut())),
    NONTRIVIAL.with(|p| p.replace(false)),
    EXTRA.with(|p| p.replace(0)),
  )
}
pub fn discard(why: &str) -> ! {
  rt::fail("discard", why.to_string())
}
#[macro_export]
macro_rules! viol {
  ($class:expr, $($a:tt)*) => { simstd::rt::fail($class, std::format!($($a)*)) };
}
#[macro_export]
macro_rules! say {
  ($($a:tt)*) => { simstd::rt::say(|| std::format!($($a)*)) };
}

// ------------------------------------------------------------ sharing

/// Shared harness state. All coroutines run on one OS thread and the harness
/// never reaches a scheduling point while a borrow is alive.
pub struct Sh<T>(Arc<Inner<T>>);
struct Inner<T>(RefCell<T>);
unsafe impl<T> Send for Inner<T> {}
unsafe impl<T> Sync for Inner<T> {}
impl<T> Clone for Sh<T> {
  fn clone(&self) -> Self {
    Sh(self.0.clone())
  }
}
impl<T> Sh<T> {
  pub fn new(t: T) -> Sh<T> {
    Sh(Arc::new(Inner(RefCell::new(t))))
  }
  pub fn b(&self) -> std::cell::RefMut<'_, T> {
    self.0 .0.borrow_mut()
  }
}
impl<T: Copy> Sh<T> {
  pub fn get(&self) -> T {
    *self.b()
  }
  pub fn set(&self, t: T) {
    *self.b() = t;
  }
}

pub fn hash_bytes(b: &[u8]) -> u64 {
  let mut h = 0xcbf29ce484222325u64;
  for x in b {
    h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
  }
  rt::mix(h, b.len() as u64)
}

pub fn json_str(s: &str) -> String {
  let mut o = String::from("\"");
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      '\n' => o.push_str("\\n"),
      c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
      c => o.push(c),
    }
  }
  o.push('"');
  o
}
