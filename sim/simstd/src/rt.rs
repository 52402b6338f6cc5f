//! The simulation runtime: stackful coroutines on one OS thread, a recorded
//! choice stream that decides every interleaving and injected fault, and a
//! virtual clock that only advances when nothing is runnable.

use std::cell::Cell;

// ---------------------------------------------------------------- PRNG

#[derive(Clone)]
pub struct Rng(u64, u64);
impl Rng {
  pub fn new(seed: u64) -> Rng {
    let mut s = seed;
    let a = splitmix(&mut s);
    let b = splitmix(&mut s);
    Rng(a | 1, b)
  }
  pub fn next(&mut self) -> u64 {
    // xorshift128+
    let mut x = self.0;
    let y = self.1;
    self.0 = y;
    x ^= x << 23;
    self.1 = x ^ y ^ (x >> 17) ^ (y >> 26);
    self.1.wrapping_add(y)
  }
  pub fn below(&mut self, n: u64) -> u64 {
    if n <= 1 {
      0
    } else {
      (self.next() >> 11) % n
    }
  }
}
pub fn splitmix(s: &mut u64) -> u64 {
  *s = s.wrapping_add(0x9E3779B97F4A7C15);
  let mut z = *s;
  z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
  z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
  z ^ (z >> 31)
}
pub fn mix(a: u64, b: u64) -> u64 {
  let mut s = a ^ b.wrapping_mul(0xD6E8FEB86659FD93);
  splitmix(&mut s)
}

// ---------------------------------------------------------------- config

#[derive(Clone, Debug)]
pub enum Strategy {
  /// keep the current thread unless a draw below `p`/1024 says switch
  Walk { p: u32 },
  /// random priorities with priority-change points of rate 1/`rate`
  Pct { rate: u32 },
  /// long uninterrupted bursts: uniformly chosen length up to `max` steps
  Burst { max: u32 },
}

pub enum SchedIn {
  Seed(u64),
  Replay(Vec<u32>),
}

pub struct RunCfg {
  pub sched: SchedIn,
  pub strategy: Strategy,
  pub budget: u64,
  /// inject spurious condvar / park wakeups
  pub spurious: bool,
  /// inject stalls of up to this many virtual nanoseconds at sync operations
  pub stall_ns: u64,
  pub trace: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
  Ok,
  Fail { class: String, msg: String },
}

#[derive(Default, Clone, Debug)]
pub struct Faults {
  pub spurious: u64,
  pub stalls: u64,
  pub preemptions: u64,
  pub clock_jumps: u64,
}

pub struct RunOut {
  pub outcome: Outcome,
  pub sched: Vec<u32>,
  pub steps: u64,
  pub now: u64,
  pub hash: u64,
  pub threads: usize,
  pub faults: Faults,
  pub trace: Vec<String>,
}

// ---------------------------------------------------------------- threads

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Wait {
  ReadLock,
  WriteLock,
  Mutex,
  Condvar,
  Park,
  Join,
  Channel,
  Sleep,
  Idle,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum State {
  Runnable,
  /// blocked on something, optionally with a deadline
  Blocked { on: Wait, obj: u32, deadline: Option<u64> },
  Finished,
}

pub struct Th {
  sp: *mut u8,
  stack: Option<Stack>,
  entry: Option<Box<dyn FnOnce()>>,
  pub state: State,
  pub timed_out: bool,
  pub park_token: bool,
  pub name: Option<String>,
  /// spawned by the harness (as opposed to the library)
  pub harness: bool,
  pub joiners: Vec<usize>,
  prio: i64,
  pub panicked: bool,
  /// chosen by the harness, inherited by the threads it spawns
  pub tag: usize,
  pub locals: std::collections::BTreeMap<usize, Box<dyn std::any::Any>>,
}

struct Rt {
  threads: Vec<Box<Th>>,
  cur: usize,
  now: u64,
  wall_skew: i64,
  steps: u64,
  budget: u64,
  since_switch: u64,
  replay: Option<Vec<u32>>,
  rec: Vec<u32>,
  rng: Rng,
  strategy: Strategy,
  burst_left: u32,
  low_prio: i64,
  main_sp: *mut u8,
  outcome: Option<Outcome>,
  hash: u64,
  trace: Option<Vec<String>>,
  faults: Faults,
  spurious: bool,
  stall_ns: u64,
  next_obj: u32,
  seq: u64,
  quiet: u32,
  /// some try_lock has been used in this run
  tried: bool,
}

thread_local! {
  static RT: Cell<*mut Rt> = const { Cell::new(std::ptr::null_mut()) };
}
static EPOCH: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(1);

#[inline(never)]
fn rt_ptr() -> *mut Rt {
  RT.with(|r| r.get())
}
fn rt() -> &'static mut Rt {
  let p = rt_ptr();
  assert!(!p.is_null(), "no simulation active");
  unsafe { &mut *p }
}
pub fn active() -> bool {
  !rt_ptr().is_null()
}
pub fn epoch() -> u32 {
  EPOCH.load(std::sync::atomic::Ordering::Relaxed)
}

// ---------------------------------------------------------------- stacks

const STACK: usize = 4 << 20;
const GUARD: usize = 4096;
struct Stack(*mut u8);
struct Pool(Vec<*mut u8>);
unsafe impl Send for Pool {}
static POOL: std::sync::Mutex<Pool> = std::sync::Mutex::new(Pool(Vec::new()));

extern "C" {
  fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
  fn mprotect(a: *mut u8, l: usize, p: i32) -> i32;
}

impl Stack {
  fn get() -> Stack {
    if let Some(p) = POOL.lock().unwrap().0.pop() {
      return Stack(p);
    }
    unsafe {
      // PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE
      let p = mmap(std::ptr::null_mut(), STACK + GUARD, 3, 0x2 | 0x20 | 0x4000, -1, 0);
      assert!(p as isize != -1, "mmap of a coroutine stack failed");
      mprotect(p, GUARD, 0);
      Stack(p)
    }
  }
  fn top(&self) -> *mut u8 {
    unsafe { self.0.add(STACK + GUARD) }
  }
}
impl Drop for Stack {
  fn drop(&mut self) {
    POOL.lock().unwrap().0.push(self.0);
  }
}

std::arch::global_asm!(
  ".global simstd_switch",
  ".type simstd_switch,@function",
  "simstd_switch:",
  "push rbp",
  "push rbx",
  "push r12",
  "push r13",
  "push r14",
  "push r15",
  "mov [rdi], rsp",
  "mov rsp, rsi",
  "pop r15",
  "pop r14",
  "pop r13",
  "pop r12",
  "pop rbx",
  "pop rbp",
  "ret",
);
extern "C" {
  fn simstd_switch(save: *mut *mut u8, to: *mut u8);
}

extern "C" fn coro_main() -> ! {
  let r = rt();
  let me = r.cur;
  let f = r.threads[me].entry.take().unwrap();
  let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
  let r = rt();
  if res.is_err() {
    r.threads[me].panicked = true;
    let m = LAST_PANIC.with(|l| l.take());
    abort_run(Outcome::Fail { class: "panic".into(), msg: format!("thread {} panicked: {}", me, m) });
  }
  // thread-local destructors of the simulated thread
  loop {
    let l = std::mem::take(&mut rt().threads[me].locals);
    if l.is_empty() {
      break;
    }
    drop(l);
  }
  let r = rt();
  r.threads[me].state = State::Finished;
  note("exit", 0);
  if me == 0 {
    abort_run(Outcome::Ok);
  }
  let js = std::mem::take(&mut r.threads[me].joiners);
  for j in js {
    wake(j);
  }
  r.pick(Mode::Blocked);
  unreachable!()
}

thread_local! {
  static LAST_PANIC: Cell<String> = const { Cell::new(String::new()) };
}

pub fn install_panic_hook() {
  let prev = std::panic::take_hook();
  std::panic::set_hook(Box::new(move |i| {
    if active() {
      let m = i
        .payload()
        .downcast_ref::<&str>()
        .map(|s| s.to_string())
        .or_else(|| i.payload().downcast_ref::<String>().cloned())
        .unwrap_or_else(|| "?".into());
      let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
      LAST_PANIC.with(|l| l.set(format!("{} at {}", m, loc)));
    } else {
      prev(i);
    }
  }));
}

fn abort_run(o: Outcome) -> ! {
  let r = rt();
  if r.outcome.is_none() {
    r.outcome = Some(o);
  }
  let mut dummy: *mut u8 = std::ptr::null_mut();
  unsafe {
    simstd_switch(&mut dummy, r.main_sp);
  }
  unreachable!()
}

/// End the run as a violation of the given class.
pub fn fail(class: &str, msg: String) -> ! {
  if !active() {
    panic!("violation outside the simulation: {}: {}", class, msg);
  }
  note("VIOLATION", 0);
  abort_run(Outcome::Fail { class: class.to_string(), msg })
}

// ---------------------------------------------------------------- choice

enum Mode {
  Preempt,
  Yield,
  Blocked,
}

impl Rt {
  fn draw(&mut self, k: usize, gen: impl FnOnce(&mut Rt) -> usize) -> usize {
    if k <= 1 {
      return 0;
    }
    let i = self.rec.len();
    let v = match &self.replay {
      Some(l) => {
        if i < l.len() {
          l[i] as usize % k
        } else {
          0
        }
      }
      None => gen(self) % k,
    };
    self.rec.push(v as u32);
    v
  }

  /// candidates are thread ids; index 0 is the default
  fn choose_thread(&mut self, c: &[usize], preempt: bool) -> usize {
    if c.len() <= 1 {
      return 0;
    }
    self.draw(c.len(), |r| match r.strategy {
      Strategy::Walk { p } => {
        if preempt {
          if r.rng.below(1024) < p as u64 {
            1 + r.rng.below(c.len() as u64 - 1) as usize
          } else {
            0
          }
        } else {
          r.rng.below(c.len() as u64) as usize
        }
      }
      Strategy::Pct { rate } => {
        if preempt && r.rng.below(rate as u64) == 0 {
          r.low_prio -= 1;
          r.threads[c[0]].prio = r.low_prio;
        }
        let mut b = 0;
        for i in 1..c.len() {
          if r.threads[c[i]].prio > r.threads[c[b]].prio {
            b = i;
          }
        }
        b
      }
      Strategy::Burst { max } => {
        if preempt && r.burst_left > 0 {
          r.burst_left -= 1;
          0
        } else {
          r.burst_left = r.rng.below(max as u64) as u32;
          r.rng.below(c.len() as u64) as usize
        }
      }
    })
  }

  fn others(&self) -> Vec<usize> {
    let n = self.threads.len();
    let mut v = Vec::new();
    for d in 1..n {
      let i = (self.cur + d) % n;
      if self.threads[i].state == State::Runnable {
        v.push(i);
      }
    }
    v
  }

  fn deadline(&self, i: usize) -> Option<u64> {
    match self.threads[i].state {
      State::Blocked { deadline: Some(d), on, .. } if on != Wait::Idle => Some(d),
      _ => None,
    }
  }

  /// Advance virtual time to the earliest deadline. False if there is none.
  fn advance(&mut self) -> bool {
    let n = self.threads.len();
    let mut t = None;
    for i in 0..n {
      if let Some(d) = self.deadline(i) {
        t = Some(t.map_or(d, |x: u64| x.min(d)));
      }
    }
    // somebody waiting for quiescence?
    for i in 0..n {
      if let State::Blocked { on: Wait::Idle, deadline: Some(l), .. } = self.threads[i].state {
        if t.is_none() || t.unwrap() > l {
          self.threads[i].state = State::Runnable;
          return true;
        }
      }
    }
    let Some(t) = t else { return false };
    self.now = self.now.max(t);
    for i in 0..n {
      if let Some(d) = self.deadline(i) {
        if d <= self.now {
          self.threads[i].timed_out = true;
          self.threads[i].state = State::Runnable;
        }
      }
    }
    true
  }

  fn pick(&mut self, mode: Mode) {
    self.steps += 1;
    if self.steps > self.budget {
      let m = self.describe();
      abort_run(Outcome::Fail {
        class: "livelock".into(),
        msg: format!("no progress within {} scheduling steps; {}", self.budget, m),
      });
    }
    let next = match mode {
      Mode::Preempt => {
        let o = self.others();
        if o.is_empty() {
          self.since_switch += 1;
          if self.since_switch > 20_000 {
            // a busy loop: let virtual time pass
            self.since_switch = 0;
            self.advance();
          }
          return;
        }
        self.since_switch += 1;
        let mut c = vec![self.cur];
        if self.since_switch > 3_000 {
          // bounded fairness
          self.since_switch = 0;
          c.clear();
        }
        c.extend(o);
        let fair = c[0] != self.cur;
        let i = self.choose_thread(&c, !fair);
        if c[i] != self.cur {
          self.faults.preemptions += 1;
        }
        c[i]
      }
      Mode::Yield => {
        let mut o = self.others();
        if o.is_empty() {
          if !self.advance() {
            return;
          }
          o = self.others();
          if o.is_empty() {
            return;
          }
        }
        self.low_prio -= 1;
        let cur = self.cur;
        self.threads[cur].prio = self.low_prio;
        o.push(cur);
        // a spinning thread must not be picked again and again
        self.since_switch += 1;
        if self.since_switch > 50 {
          o.pop();
        }
        let i = self.choose_thread(&o, false);
        o[i]
      }
      Mode::Blocked => loop {
        self.since_switch = 0;
        let mut o = self.others();
        if self.threads[self.cur].state == State::Runnable {
          // only possible after advance(): we were woken ourselves
          o.insert(0, self.cur);
        }
        if !o.is_empty() {
          let i = self.choose_thread(&o, false);
          break o[i];
        }
        if !self.advance() {
          let m = self.describe();
          abort_run(Outcome::Fail { class: "deadlock".into(), msg: m });
        }
      },
    };
    self.go(next);
  }

  fn go(&mut self, next: usize) {
    let cur = self.cur;
    if next == cur {
      return;
    }
    self.since_switch = 0;
    self.cur = next;
    let to = self.threads[next].sp;
    let save: *mut *mut u8 = &mut self.threads[cur].sp;
    unsafe { simstd_switch(save, to) };
  }

  fn describe(&self) -> String {
    let mut s = String::new();
    for (i, t) in self.threads.iter().enumerate() {
      if t.state == State::Finished {
        continue;
      }
      s.push_str(&format!(
        "[t{}{} {}] ",
        i,
        t.name.as_ref().map(|n| format!(" {}", n)).unwrap_or_default(),
        match t.state {
          State::Runnable => "runnable".to_string(),
          State::Blocked { on, obj, deadline } => format!(
            "blocked on {:?}{}{}",
            on,
            if obj != 0 { format!(" #{}", obj) } else { String::new() },
            deadline.map(|d| format!(" until {}ns", d)).unwrap_or_default()
          ),
          State::Finished => String::new(),
        }
      ));
    }
    s
  }
}

// ---------------------------------------------------------------- operations for the facade

pub fn new_obj() -> u32 {
  let r = rt();
  r.next_obj += 1;
  r.next_obj
}

/// Record an operation in the schedule hash and the trace.
pub fn note(op: &'static str, obj: u32) {
  let r = rt();
  let h = op.as_ptr() as usize as u64; // only used through its bytes below
  let _ = h;
  let b = op.as_bytes();
  let tag = (b.len() as u64) << 8 | b[b.len() / 2] as u64 ^ ((b[0] as u64) << 16);
  r.hash = mix(r.hash, (r.cur as u64) << 48 ^ tag << 24 ^ obj as u64);
  if let Some(t) = &mut r.trace {
    if t.len() < 200_000 {
      t.push(format!("{:>10} t{} {} #{}", r.now, r.cur, op, obj));
    }
  }
}

/// A line for the human-readable trace (no effect on the run).
pub fn say(f: impl FnOnce() -> String) {
  if !active() {
    return;
  }
  if rt().trace.is_some() {
    let s = f();
    let r = rt();
    let l = format!("{:>10} t{} -- {}", r.now, r.cur, s);
    r.trace.as_mut().unwrap().push(l);
  }
}

/// A scheduling point: any other runnable thread may run here.
pub fn point(op: &'static str, obj: u32) {
  if !active() || std::thread::panicking() {
    return;
  }
  let r = rt();
  if r.quiet > 0 {
    return;
  }
  note(op, obj);
  if r.stall_ns > 0 {
    let v = r.draw(2, |r| if r.rng.below(96) == 0 { 1 } else { 0 });
    if v == 1 {
      let n = r.draw(4, |r| r.rng.below(4) as usize) as u64;
      let d = (r.stall_ns / 8) << n;
      r.faults.stalls += 1;
      note("stall", 0);
      let until = r.now + d.max(1);
      block(Wait::Sleep, 0, Some(until));
      return;
    }
  }
  r.pick(Mode::Preempt);
}

/// Somebody looks whether a lock is free: from now on threads can be preempted
/// while they hold one. (Without this what happens between the acquisition and
/// the first operation under the lock cannot be told apart from the outside.)
pub fn tries() {
  if active() {
    rt().tried = true;
  }
}
/// A lock has been acquired.
pub fn held(obj: u32) {
  if active() && rt().tried {
    point("held", obj);
  }
}

pub fn yield_now() {
  if !active() || std::thread::panicking() {
    return;
  }
  note("yield", 0);
  rt().pick(Mode::Yield);
}

/// Block the current thread; returns when woken (or timed out).
pub fn block(on: Wait, obj: u32, deadline: Option<u64>) {
  let r = rt();
  if std::thread::panicking() {
    let mut m = LAST_PANIC.with(|l| l.take());
    if m.is_empty() {
      // resume_unwind: one OS thread carries every simulated thread, so an
      // unwinding one cannot be suspended
      m = "has to wait while it unwinds".into();
    }
    abort_run(Outcome::Fail { class: "panic".into(), msg: format!("thread {} panicked: {}", r.cur, m) });
  }
  let cur = r.cur;
  r.threads[cur].timed_out = false;
  r.threads[cur].state = State::Blocked { on, obj, deadline };
  note("block", obj);
  r.pick(Mode::Blocked);
}

pub fn timed_out() -> bool {
  let r = rt();
  r.threads[r.cur].timed_out
}

pub fn wake(t: usize) {
  let r = rt();
  if let State::Blocked { .. } = r.threads[t].state {
    r.threads[t].state = State::Runnable;
    r.threads[t].timed_out = false;
  }
}

/// A data choice made by the environment (which waiter, which fault). 0 is
/// the default.
pub fn env_choice(k: usize) -> usize {
  rt().draw(k, |r| r.rng.below(k as u64) as usize)
}
/// A rare environment fault: true with probability 1/`rate`.
pub fn env_rare(rate: u64) -> bool {
  rt().draw(2, |r| if r.rng.below(rate) == 0 { 1 } else { 0 }) == 1
}
pub fn spurious_now() -> bool {
  let r = rt();
  if r.spurious && !std::thread::panicking() && env_rare(4) {
    rt().faults.spurious += 1;
    note("spurious", 0);
    true
  } else {
    false
  }
}

pub fn cur() -> usize {
  rt().cur
}
pub fn now() -> u64 {
  rt().now
}
pub fn now_wall() -> i128 {
  let r = rt();
  1_700_000_000_000_000_000i128 + r.now as i128 + r.wall_skew as i128
}
pub fn jump_wall(d: i64) {
  let r = rt();
  r.wall_skew += d;
  r.faults.clock_jumps += 1;
}
pub fn steps() -> u64 {
  rt().steps
}
/// A fresh, strictly increasing logical time stamp.
pub fn stamp() -> u64 {
  let r = rt();
  r.seq += 1;
  r.seq
}
pub fn thread(i: usize) -> &'static mut Th {
  &mut rt().threads[i]
}
pub fn tag() -> usize {
  thread(cur()).tag
}
pub fn set_tag(t: usize) {
  thread(cur()).tag = t
}
pub fn thread_count() -> usize {
  rt().threads.len()
}

fn add_thread(f: Box<dyn FnOnce()>, name: Option<String>, harness: bool) -> usize {
  let r = rt();
  let st = Stack::get();
  let sp = unsafe {
    let mut top = (st.top() as usize & !15) as *mut usize;
    top = top.sub(2); // 16 bytes of zero padding: end of the call chain
    *top = 0;
    *top.add(1) = 0;
    let slot = top.sub(2); // 16-aligned slot for the return address
    *slot = coro_main as *const () as usize;
    *slot.add(1) = 0;
    let regs = slot.sub(6);
    for i in 0..6 {
      *regs.add(i) = 0;
    }
    regs as *mut u8
  };
  let prio = r.rng.below(1_000_000) as i64;
  r.threads.push(Box::new(Th {
    sp,
    stack: Some(st),
    entry: Some(f),
    state: State::Runnable,
    timed_out: false,
    park_token: false,
    name,
    harness,
    joiners: Vec::new(),
    prio,
    panicked: false,
    tag: r.threads.get(r.cur).map_or(usize::MAX, |t| t.tag),
    locals: Default::default(),
  }));
  r.threads.len() - 1
}

pub fn spawn(f: Box<dyn FnOnce()>, name: Option<String>, harness: bool) -> usize {
  let id = add_thread(f, name, harness);
  note("spawn", id as u32);
  point("spawned", id as u32);
  id
}

pub fn is_finished(t: usize) -> bool {
  rt().threads[t].state == State::Finished
}

pub fn join(t: usize) {
  point("join", t as u32);
  while !is_finished(t) {
    let me = cur();
    rt().threads[t].joiners.push(me);
    block(Wait::Join, t as u32, None);
  }
}

pub fn sleep_ns(d: u64) {
  note("sleep", 0);
  if d == 0 {
    point("sleep0", 0);
    return;
  }
  let until = now().saturating_add(d);
  loop {
    block(Wait::Sleep, 0, Some(until));
    if now() >= until {
      break;
    }
  }
}

/// Run everything else until nothing can run before `now + max_ns`.
pub fn quiesce(max_ns: u64) {
  let l = now().saturating_add(max_ns);
  block(Wait::Idle, 0, Some(l));
}

#[derive(Clone, Debug)]
pub struct Live {
  pub id: usize,
  pub harness: bool,
  pub name: Option<String>,
  pub state: State,
}
/// Live threads other than the caller.
pub fn live() -> Vec<Live> {
  let r = rt();
  let mut v = vec![];
  for (i, t) in r.threads.iter().enumerate() {
    if i != r.cur && t.state != State::Finished {
      v.push(Live { id: i, harness: t.harness, name: t.name.clone(), state: t.state });
    }
  }
  v
}
pub fn describe() -> String {
  rt().describe()
}
pub fn is_lock_wait(s: &State) -> bool {
  matches!(
    s,
    State::Blocked { on: Wait::ReadLock | Wait::WriteLock | Wait::Mutex, .. }
  )
}

/// Suppress scheduling points on this thread while the closure runs (harness
/// bookkeeping that must be one atomic step).
pub fn atomic<T>(f: impl FnOnce() -> T) -> T {
  rt().quiet += 1;
  let r = f();
  rt().quiet -= 1;
  r
}

// ---------------------------------------------------------------- entry

pub fn run(cfg: RunCfg, root: Box<dyn FnOnce()>) -> RunOut {
  assert!(!active());
  EPOCH.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
  let (replay, seed) = match cfg.sched {
    SchedIn::Seed(s) => (None, s),
    SchedIn::Replay(l) => (Some(l), 0),
  };
  let mut r = Box::new(Rt {
    threads: Vec::new(),
    cur: 0,
    now: 0,
    wall_skew: 0,
    steps: 0,
    budget: cfg.budget,
    since_switch: 0,
    replay,
    rec: Vec::new(),
    rng: Rng::new(seed),
    strategy: cfg.strategy,
    burst_left: 0,
    low_prio: -1,
    main_sp: std::ptr::null_mut(),
    outcome: None,
    hash: 0,
    trace: if cfg.trace { Some(Vec::new()) } else { None },
    faults: Faults::default(),
    spurious: cfg.spurious,
    stall_ns: cfg.stall_ns,
    next_obj: 0,
    seq: 0,
    quiet: 0,
    tried: false,
  });
  let p: *mut Rt = &mut *r;
  RT.with(|c| c.set(p));
  add_thread(root, Some("root".into()), true);
  let to = r.threads[0].sp;
  unsafe {
    let save: *mut *mut u8 = &mut (*p).main_sp;
    simstd_switch(save, to);
  }
  RT.with(|c| c.set(std::ptr::null_mut()));
  let threads = r.threads.len();
  // Objects living on abandoned coroutine stacks are leaked on purpose.
  for t in r.threads.iter_mut() {
    std::mem::forget(std::mem::take(&mut t.locals));
    if let Some(e) = t.entry.take() {
      std::mem::forget(e);
    }
  }
  for t in r.threads.drain(..) {
    let _ = t.stack.is_some();
    drop(t);
  }
  RunOut {
    outcome: r.outcome.take().unwrap_or(Outcome::Ok),
    sched: std::mem::take(&mut r.rec),
    steps: r.steps,
    now: r.now,
    hash: r.hash,
    threads,
    faults: r.faults.clone(),
    trace: r.trace.take().unwrap_or_default(),
  }
}
