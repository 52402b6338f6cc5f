//! The executable reference: a push machine written from the ReactiveX
//! definitions, independent of the library's code. Where the definitions
//! leave a choice open, the choice is a flag; every assignment is acceptable.
use crate::ex::*;
use crate::val::*;
use std::collections::{BTreeMap, VecDeque};

#[derive(Clone)]
enum Env {
  Item(K),
  Inner(usize),
}
const ROOT: usize = usize::MAX;
/// tap id of the logging taps on windows and groups
pub const INNER: usize = 9000;

struct Node<'p> {
  ex: &'p Ex,
  env: Option<Env>,
  parent: usize,
  port: usize,
  closed: bool,
  kids: Vec<usize>,
  n: usize,
  b: bool,
  v: Option<K>,
  q: VecDeque<K>,
  qs: Vec<VecDeque<K>>,
  done: Vec<bool>,
  inner: BTreeMap<i64, usize>,
}
struct Inst {
  node: usize,
  src: usize,
}
struct SubM {
  root: Option<usize>,
  ended: bool,
  handle: bool,
  items: usize,
  started: bool,
}
struct Inner {
  obs: Vec<usize>,
}

pub type Flags = Vec<(u32, u8, u8)>; // kind, value, arity

pub struct Out {
  pub logs: Vec<Vec<(i32, Ev)>>,
  /// (tap, instance) -> log
  pub taps: BTreeMap<(usize, usize), Vec<(i32, Ev)>>,
  /// after each act: per source the live instances (in subscription order)
  pub live: Vec<Vec<Vec<usize>>>,
  /// number of (live) subscriptions per source
  pub kcount: Vec<usize>,
  /// before emission i of instance (src,k): closed?
  pub checks: BTreeMap<(usize, usize), Vec<bool>>,
  pub ended: Vec<bool>,
  pub amb: bool,
  pub nodes: usize,
}

pub struct Model<'p> {
  p: &'p Prog,
  nodes: Vec<Node<'p>>,
  cursors: Vec<usize>,
  subj_done: Vec<bool>,
  insts: Vec<Inst>,
  subs: Vec<SubM>,
  inners: Vec<Inner>,
  step: i32,
  fuel: usize,
  depth: usize,
  flags: Flags,
  discard: Option<&'static str>,
  picks: u32,
  out: Out,
}

mod fl {
  pub const TAKE0: u32 = 0;
  pub const CONTAINS_ERR: u32 = 1;
  pub const ELEM: u32 = 2;
  pub const BUF_ERR: u32 = 3;
  pub const ZIP: u32 = 4;
  pub const COMBINE: u32 = 5;
  pub const SEQ_ITEM: u32 = 6;
  pub const SEQ_LEN: u32 = 7;
  pub const AMB: u32 = 8;
  pub const TU_C: u32 = 9;
  pub const TU_E: u32 = 10;
  pub const SU_C: u32 = 11;
  pub const SU_E: u32 = 12;
  pub const SA_C: u32 = 13;
  pub const SA_E: u32 = 14;
  /// one for every kind of trigger
  pub const TRIG_ORDER: u32 = 30;
  pub const WIN_ERR: u32 = 16;
  pub const SU_DONE: u32 = 17;
  pub const SW_E: u32 = 18;
  pub const SW_C: u32 = 19;
  pub const SW_SC: u32 = 20;
  pub const SW_SC0: u32 = 21;
  pub const TI_FIRST: u32 = 22;
  pub const TI_LAST: u32 = 23;
  pub const LAST: u32 = 24;
  pub const LAST_N: u32 = 25;
}

/// Run the program under every assignment of the open flags until `f` accepts.
/// Some(Err(why)): the program is outside what the model covers.
pub fn search(p: &Prog, mut f: impl FnMut(&Out) -> bool) -> Result<bool, &'static str> {
  let mut flags: Flags = vec![];
  let mut runs = 0;
  loop {
    let o = run(p, &mut flags)?;
    if f(&o) {
      return Ok(true);
    }
    runs += 1;
    if runs > 4000 {
      return Err("too many open choices");
    }
    // next assignment
    loop {
      match flags.pop() {
        None => return Ok(false),
        Some((k, v, a)) => {
          if v + 1 < a {
            flags.push((k, v + 1, a));
            break;
          }
        }
      }
    }
  }
}

pub fn run(p: &Prog, flags: &mut Flags) -> Result<Out, &'static str> {
  if p.inside.is_some() {
    return Err("not modelled");
  }
  let n = p.srcs.len();
  let mut long = 0;
  p.ex.walk(&mut |e| {
    if let Ex::Range(_, k) = e {
      long += (*k).max(0) as usize;
    }
  });
  let mut m = Model {
    p,
    nodes: vec![],
    cursors: vec![0; n],
    subj_done: vec![false; n],
    insts: vec![],
    subs: (0..p.subs).map(|_| SubM { root: None, ended: false, handle: false, items: 0, started: false }).collect(),
    inners: vec![],
    step: 0,
    fuel: if long < 900 { 4000 } else { 100 * long },
    depth: 0,
    flags: std::mem::take(flags),
    discard: None,
    picks: 0,
    out: Out { logs: vec![vec![]; p.subs], taps: BTreeMap::new(), live: vec![], kcount: vec![0; n], checks: BTreeMap::new(), ended: vec![], amb: false, nodes: 0 },
  };
  for (i, a) in p.acts.iter().enumerate() {
    m.step = i as i32;
    match *a {
      Act::Sub(j) => m.subscribe(j),
      Act::Unsub(j) => m.unsub(j),
      Act::Emit(s) => m.emit(s),
    }
    let l = m.live();
    m.out.live.push(l);
    if m.discard.is_some() {
      break;
    }
  }
  *flags = std::mem::take(&mut m.flags);
  if let Some(d) = m.discard {
    return Err(d);
  }
  m.out.ended = m.subs.iter().map(|s| s.ended).collect();
  m.out.nodes = m.nodes.len();
  Ok(m.out)
}

impl<'p> Model<'p> {
  fn flag(&mut self, k: u32, arity: u8) -> u8 {
    for f in &self.flags {
      if f.0 == k {
        return f.1;
      }
    }
    self.flags.push((k, 0, arity));
    0
  }
  fn burn(&mut self) -> bool {
    if self.fuel == 0 {
      self.discard.get_or_insert("fuel");
    } else {
      self.fuel -= 1;
    }
    self.discard.is_some()
  }
  fn live(&self) -> Vec<Vec<usize>> {
    let mut v = vec![vec![]; self.p.srcs.len()];
    let mut k = vec![0; self.p.srcs.len()];
    for i in &self.insts {
      if !self.nodes[i.node].closed {
        v[i.src].push(k[i.src]);
      }
      k[i.src] += 1;
    }
    v
  }
  fn subscribe(&mut self, j: usize) {
    if self.subs[j].started {
      return;
    }
    self.subs[j].started = true;
    let p = self.p;
    self.sub(&p.ex, &None, ROOT, j);
    if let Some((s, n)) = p.rsg {
      for _ in 0..n {
        self.emit(s);
      }
    }
    self.subs[j].handle = true;
  }
  fn unsub(&mut self, j: usize) {
    if !self.subs[j].started || !self.subs[j].handle {
      return;
    }
    self.subs[j].ended = true;
    if let Some(r) = self.subs[j].root {
      self.dispose(r);
    }
  }
  fn emit(&mut self, s: usize) {
    let p = self.p;
    let sc = &p.srcs[s].scripts[0];
    let c = self.cursors[s];
    if c >= sc.len() {
      return;
    }
    self.cursors[s] += 1;
    self.emit_ev(s, sc[c])
  }
  fn emit_ev(&mut self, s: usize, e: SEv) {
    let p = self.p;
    let l: Vec<(usize, usize)> = {
      let mut k = 0;
      let mut v = vec![];
      for i in &self.insts {
        if i.src == s {
          v.push((i.node, k));
          k += 1;
        }
      }
      v
    };
    if p.srcs[s].mode == Mode::Subj {
      if self.subj_done[s] {
        return;
      }
      if l.iter().filter(|x| !self.nodes[x.0].closed).count() > 1 {
        self.discard.get_or_insert("several observers of one subject");
        return;
      }
      if e == SEv::E || e == SEv::C {
        self.subj_done[s] = true;
      }
    }
    for (n, k) in l {
      let closed = self.nodes[n].closed;
      self.out.checks.entry((s, k)).or_default().push(closed);
      self.send(n, s, 0, e);
    }
  }
  fn send(&mut self, n: usize, src: usize, k: usize, e: SEv) {
    match e {
      SEv::N(i) => self.next(n, K::I(i)),
      SEv::E => self.err(n, code_of(src, k)),
      SEv::C => self.comp(n),
    }
  }
  fn dispose(&mut self, n: usize) {
    if self.nodes[n].closed {
      return;
    }
    self.nodes[n].closed = true;
    let k = self.nodes[n].kids.clone();
    for k in k {
      self.dispose(k);
    }
  }
  fn close_kids(&mut self, n: usize) {
    let k = std::mem::take(&mut self.nodes[n].kids);
    for k in k {
      self.dispose(k);
    }
  }

  // ---------------------------------------------------- emitting upwards

  fn next(&mut self, n: usize, v: K) {
    if self.nodes[n].closed || self.burn() {
      return;
    }
    let (p, port) = (self.nodes[n].parent, self.nodes[n].port);
    if p == ROOT {
      self.deliver(port, Ev::N(v));
    } else {
      self.on_next(p, port, v);
    }
  }
  fn err(&mut self, n: usize, e: u32) {
    if self.nodes[n].closed || self.burn() {
      return;
    }
    self.dispose(n);
    let (p, port) = (self.nodes[n].parent, self.nodes[n].port);
    if p == ROOT {
      self.deliver(port, Ev::E(e));
    } else {
      self.on_err(p, port, e);
    }
  }
  fn comp(&mut self, n: usize) {
    if self.nodes[n].closed || self.burn() {
      return;
    }
    self.dispose(n);
    let (p, port) = (self.nodes[n].parent, self.nodes[n].port);
    if p == ROOT {
      self.deliver(port, Ev::C);
    } else {
      self.on_comp(p, port);
    }
  }
  fn deliver(&mut self, j: usize, e: Ev) {
    if self.subs[j].ended {
      return;
    }
    let item = matches!(e, Ev::N(_));
    if !item {
      self.subs[j].ended = true;
    }
    self.out.logs[j].push((self.step, e));
    if item {
      self.subs[j].items += 1;
      let n = self.subs[j].items;
      if let Some((a, at, b)) = self.p.nest {
        if a == j && at == n {
          self.subscribe(b);
        }
      }
      self.echo(j, n);
      if self.p.unsub_at[j] == Some(n) {
        self.unsub(j);
      }
    } else {
      self.echo(j, 0);
    }
  }
  /// what the subscriber emits from inside its n-th item or its terminal
  fn echo(&mut self, j: usize, n: usize) {
    let p = self.p;
    for (b, at, s, e) in &p.emit_at {
      if *b == j && *at == n {
        self.emit_ev(*s, *e);
      }
    }
  }

  // ---------------------------------------------------- subscribing

  fn sub(&mut self, ex: &'p Ex, env: &Option<Env>, parent: usize, port: usize) {
    if self.burn() {
      return;
    }
    let closed = if parent == ROOT { self.subs[port].ended } else { self.nodes[parent].closed };
    if closed {
      return;
    }
    self.depth += 1;
    if self.depth > 60 {
      self.discard.get_or_insert("depth");
      return;
    }
    let id = self.nodes.len();
    self.nodes.push(Node {
      ex,
      env: env.clone(),
      parent,
      port,
      closed: false,
      kids: vec![],
      n: 0,
      b: false,
      v: None,
      q: VecDeque::new(),
      qs: vec![],
      done: vec![],
      inner: BTreeMap::new(),
    });
    if parent == ROOT {
      self.subs[port].root = Some(id);
    } else {
      self.nodes[parent].kids.push(id);
    }
    self.start(id, ex, env);
    self.depth -= 1;
  }
  fn start(&mut self, id: usize, ex: &'p Ex, env: &Option<Env>) {
    match ex {
      Ex::Src(s) => self.start_src(id, *s),
      Ex::Just(i) | Ex::Start(i) | Ex::FromOk(i) => {
        self.next(id, K::I(*i));
        self.comp(id);
      }
      Ex::Iter(l) => {
        for i in l {
          self.next(id, K::I(*i));
        }
        self.comp(id);
      }
      Ex::Range(a, n) => {
        for i in 0..*n {
          self.next(id, K::I(a + i));
        }
        self.comp(id);
      }
      Ex::IterInf => {
        let mut i = 0;
        while !self.nodes[id].closed && self.discard.is_none() {
          self.next(id, K::I(i % 4));
          i += 1;
        }
      }
      Ex::Repeat(i) => {
        while !self.nodes[id].closed && self.discard.is_none() {
          self.next(id, K::I(*i));
        }
      }
      Ex::Empty => self.comp(id),
      Ex::Never => {}
      Ex::Error(c) | Ex::FromErr(c) => self.err(id, *c),
      Ex::Defer(e) => self.sub(e, env, id, 0),
      Ex::Arg => match env {
        Some(Env::Item(k)) => {
          let k = k.clone();
          self.next(id, k);
          self.comp(id);
        }
        Some(Env::Inner(i)) => self.inners[*i].obs.push(id),
        None => {
          self.discard.get_or_insert("arg outside a body");
        }
      },
      Ex::Interval(_) | Ex::Timer(_) => {
        self.discard.get_or_insert("not modelled");
      }
      Ex::U(op, e) => {
        match op {
          Op::Take(0) => {
            if self.flag(fl::TAKE0, 2) == 0 {
              self.comp(id);
            }
          }
          Op::StartWithInf => {
            let mut i = 0;
            while !self.nodes[id].closed && self.discard.is_none() {
              self.next(id, K::I(i % 4));
              i += 1;
            }
          }
          Op::StartWith(l) => {
            for i in l {
              self.next(id, K::I(*i));
            }
          }
          Op::TimeInterval | Op::Delay(_) | Op::Timeout(_) | Op::ObsOn | Op::SubOn if self.p.lin => {}
          Op::TimeInterval | Op::Delay(_) | Op::Debounce(_) | Op::Timeout(_) | Op::ObsOn | Op::SubOn | Op::RefCount | Op::Replay => {
            self.discard.get_or_insert("not modelled");
          }
          _ => {}
        }
        self.sub(e, env, id, 0);
      }
      Ex::Multi(m, l) => {
        self.nodes[id].qs = vec![VecDeque::new(); l.len()];
        self.nodes[id].done = vec![false; l.len()];
        if *m == Mu::Concat {
          self.sub(&l[0], env, id, 0);
        } else {
          for (i, e) in l.iter().enumerate() {
            if *m == Mu::Amb {
              self.out.amb = true;
              if self.nodes[id].v.is_some() && self.flag(fl::AMB, 2) == 0 {
                continue;
              }
            }
            self.sub(e, env, id, i);
          }
        }
      }
      Ex::Trig(t, a, b) => {
        self.nodes[id].done = vec![false; 2];
        if self.flag(fl::TRIG_ORDER + *t as u32, 2) == 0 {
          self.sub(b, env, id, 1);
          self.sub(a, env, id, 0);
        } else {
          self.sub(a, env, id, 0);
          self.sub(b, env, id, 1);
        }
      }
      Ex::FlatMap(a, _) | Ex::Resume(a, _) | Ex::Win(_, a, _) | Ex::Group(_, a, _) => self.sub(a, env, id, 0),
    }
  }
  fn start_src(&mut self, id: usize, s: usize) {
    let p = self.p;
    let sp = &p.srcs[s];
    let k = self.out.kcount[s];
    self.out.kcount[s] += 1;
    self.insts.push(Inst { node: id, src: s });
    self.out.checks.entry((s, k)).or_default();
    match sp.mode {
      Mode::Cold => {
        for e in &sp.scripts[k.min(sp.scripts.len() - 1)] {
          let closed = self.nodes[id].closed;
          self.out.checks.get_mut(&(s, k)).unwrap().push(closed);
          if closed && sp.polite {
            break;
          }
          self.send(id, s, k, *e);
          if self.discard.is_some() {
            return;
          }
        }
      }
      Mode::Hot => {}
      Mode::Thr => {
        self.discard.get_or_insert("not modelled");
      }
      Mode::Subj => {
        if sp.kind != 0 {
          self.discard.get_or_insert("not modelled");
        }
        if self.subj_done[s] {
          self.discard.get_or_insert("subscribed a finished subject");
        }
      }
    }
  }

  // ---------------------------------------------------- operators

  fn on_next(&mut self, id: usize, port: usize, x: K) {
    if self.nodes[id].closed {
      return;
    }
    let ex = self.nodes[id].ex;
    match ex {
      Ex::Defer(_) => self.next(id, x),
      Ex::U(op, _) => self.op_next(id, op, x),
      Ex::Multi(m, l) => self.multi_next(id, *m, l.len(), port, x),
      Ex::Trig(t, _, _) => match (t, port) {
        (Tr::TakeUntil, 0) => self.next(id, x),
        (Tr::TakeUntil, _) => self.comp(id),
        // mirrors the source until the target's first item, the target from then on
        (Tr::Switch, 0) => {
          if !self.nodes[id].b {
            self.next(id, x)
          } else {
            // of no use any more: at the latest now it is let go
            for k in self.nodes[id].kids.clone() {
              if self.nodes[k].port == 0 {
                self.dispose(k);
              }
            }
          }
        }
        (Tr::Switch, _) => {
          self.nodes[id].b = true;
          self.next(id, x)
        }
        (Tr::SkipUntil, 0) => {
          if self.nodes[id].b {
            self.next(id, x)
          }
        }
        (Tr::SkipUntil, _) => {
          self.nodes[id].b = true;
          // the trigger may be let go once it has fired
          if self.flag(fl::SU_DONE, 2) == 0 {
            for k in self.nodes[id].kids.clone() {
              if self.nodes[k].port == 1 {
                self.dispose(k);
              }
            }
          }
        }
        (_, 0) => self.nodes[id].v = Some(x),
        (_, _) => {
          if let Some(v) = self.nodes[id].v.take() {
            self.next(id, v)
          }
        }
      },
      Ex::FlatMap(_, l) => {
        if port == 0 {
          let i = pick_body(l.len(), x.num());
          self.nodes[id].n += 1;
          self.sub(&l[i], &Some(Env::Item(x)), id, 1);
        } else {
          self.next(id, x)
        }
      }
      Ex::Resume(_, _) => self.next(id, x),
      Ex::Win(c, _, body) => {
        if port == 1 {
          return self.next(id, x);
        }
        if self.opening(id) {
          return;
        }
        if !self.nodes[id].inner.contains_key(&0) {
          self.open_inner(id, 0, body);
          self.nodes[id].q.clear();
        }
        if self.nodes[id].closed {
          return;
        }
        self.nodes[id].q.push_back(K::U);
        let i = self.nodes[id].inner[&0];
        let full = self.nodes[id].q.len() >= *c;
        if full {
          self.nodes[id].inner.remove(&0);
        }
        self.inner_ev(i, &Ev::N(x));
        if full {
          self.inner_ev(i, &Ev::C);
        }
      }
      Ex::Group(m, _, body) => {
        if port == 1 {
          return self.next(id, x);
        }
        if self.opening(id) {
          return;
        }
        let key = x.num().rem_euclid(*m as i64);
        if !self.nodes[id].inner.contains_key(&key) {
          self.open_inner(id, key, body);
        }
        if self.nodes[id].closed {
          return;
        }
        let i = self.nodes[id].inner[&key];
        self.inner_ev(i, &Ev::N(x));
      }
      _ => unreachable!(),
    }
  }
  /// does a window or group get an event from inside its being handed out?
  fn opening(&mut self, id: usize) -> bool {
    if self.nodes[id].v.is_some() {
      self.discard.get_or_insert("re-entrant window");
    }
    self.nodes[id].v.is_some()
  }
  fn open_inner(&mut self, id: usize, key: i64, body: &'p Ex) {
    let i = self.inners.len();
    self.inners.push(Inner { obs: vec![] });
    self.nodes[id].inner.insert(key, i);
    self.nodes[id].n += 1;
    self.nodes[id].v = Some(K::U);
    self.sub(body, &Some(Env::Inner(i)), id, 1);
    self.nodes[id].v = None;
  }
  fn inner_ev(&mut self, i: usize, e: &Ev) {
    for n in self.inners[i].obs.clone() {
      // every window/group is observed through a logging tap
      if !self.nodes[n].closed {
        let s = self.step;
        self.out.taps.entry((INNER, i)).or_default().push((s, e.clone()));
      }
      match e {
        Ev::N(k) => self.next(n, k.clone()),
        Ev::E(c) => self.err(n, *c),
        Ev::C => self.comp(n),
      }
    }
  }
  /// all windows/groups get the terminal, in any order
  fn inner_end(&mut self, id: usize, e: &Ev) {
    let mut l: Vec<usize> = std::mem::take(&mut self.nodes[id].inner).into_values().collect();
    while !l.is_empty() {
      let mut at = 0;
      if l.len() > 1 {
        at = self.flag(1000 + self.picks, l.len() as u8) as usize;
        self.picks += 1;
      }
      let i = l.remove(at);
      self.inner_ev(i, e);
    }
  }
  fn tap(&mut self, id: usize, t: usize, e: Ev) {
    let _ = id;
    let s = self.step;
    self.out.taps.entry((t, 0)).or_default().push((s, e));
  }

  fn op_next(&mut self, id: usize, op: &'p Op, x: K) {
    macro_rules! nd {
      () => {
        self.nodes[id]
      };
    }
    match op {
      Op::Map(f) => self.next(id, app(*f, &x)),
      Op::Filter(p) => {
        if pred(*p, &x) {
          self.next(id, x)
        }
      }
      Op::Take(c) => {
        nd!().n += 1;
        let n = nd!().n;
        if n < *c {
          self.next(id, x);
        } else if n == *c && n > 0 {
          self.last(id, x)
        } else if !nd!().b && (n == 1 || self.flag(fl::LAST_N, 2) == 0) {
          self.comp(id);
        }
      }
      Op::TakeLast(c) => {
        nd!().q.push_back(x);
        if nd!().q.len() > *c {
          nd!().q.pop_front();
        }
      }
      Op::TakeWhile(p) => {
        if pred(*p, &x) {
          self.next(id, x)
        } else {
          self.comp(id)
        }
      }
      Op::Skip(c) => {
        nd!().n += 1;
        if nd!().n > *c {
          self.next(id, x)
        }
      }
      Op::SkipLast(c) => {
        nd!().q.push_back(x);
        if nd!().q.len() > *c {
          let y = nd!().q.pop_front().unwrap();
          self.next(id, y)
        }
      }
      Op::SkipWhile(p) => {
        if !nd!().b && !pred(*p, &x) {
          nd!().b = true;
        }
        if nd!().b {
          self.next(id, x)
        }
      }
      Op::First => {
        nd!().n += 1;
        if nd!().n == 1 {
          self.last(id, x)
        } else if !nd!().b && self.flag(fl::LAST_N, 2) == 0 {
          self.comp(id)
        }
      }
      Op::Last => nd!().v = Some(x),
      Op::ElementAt(c) => {
        nd!().n += 1;
        if nd!().n > *c && !nd!().b && self.flag(fl::LAST_N, 2) == 0 {
          self.comp(id)
        } else if nd!().n == *c {
          self.last(id, x)
        }
      }
      Op::Distinct => {
        if nd!().v.as_ref() != Some(&x) {
          nd!().v = Some(x.clone());
          self.next(id, x)
        }
      }
      Op::Scan(f) => {
        let r = match &nd!().v {
          None => x,
          Some(a) => app2(*f, a, &x),
        };
        nd!().v = Some(r.clone());
        self.next(id, r)
      }
      Op::Reduce(f) => {
        let r = match &nd!().v {
          None => x,
          Some(a) => app2(*f, a, &x),
        };
        nd!().v = Some(r);
      }
      Op::Count => nd!().n += 1,
      Op::Sum | Op::SumAndCount => {
        nd!().n += 1;
        let r = match &nd!().v {
          None => x,
          Some(a) => kadd(a, &x),
        };
        nd!().v = Some(r);
      }
      Op::Min | Op::Max => {
        let better = match &nd!().v {
          None => true,
          Some(a) => {
            if matches!(op, Op::Min) {
              x < *a
            } else {
              x > *a
            }
          }
        };
        if better {
          nd!().v = Some(x)
        }
      }
      Op::All(p) => {
        if !pred(*p, &x) {
          self.close_kids(id);
          self.next(id, K::B(false));
          self.comp(id)
        }
      }
      Op::Contains(c) => {
        if x == K::I(*c) {
          self.close_kids(id);
          self.next(id, K::B(true));
          self.comp(id)
        }
      }
      Op::DefaultIfEmpty(_) => {
        nd!().b = true;
        self.next(id, x)
      }
      Op::Ignore => {}
      Op::Buffer(c) => {
        nd!().q.push_back(x);
        if nd!().q.len() >= *c {
          let l: Vec<K> = std::mem::take(&mut nd!().q).into();
          self.next(id, K::L(l))
        }
      }
      Op::Materialize => self.next(id, K::N(Box::new(x))),
      Op::Dematerialize => match x {
        K::N(k) => self.next(id, *k),
        K::E(c) => self.err(id, c),
        K::C => self.comp(id),
        o => self.next(id, o),
      },
      Op::Tap(t) => {
        self.tap(id, *t, Ev::N(x.clone()));
        self.next(id, x)
      }
      Op::StartWith(_) | Op::StartWithInf | Op::MapToAny | Op::Timestamp | Op::ObsOnDef | Op::SubOnDef | Op::Retry(_) | Op::RetryWhen(_) => self.next(id, x),
      Op::Delay(_) | Op::Timeout(_) | Op::ObsOn | Op::SubOn => self.next(id, x),
      Op::TimeInterval => {
        // (is there an interval before the first item?)
        let first = !nd!().b;
        nd!().b = true;
        if !first || self.flag(fl::TI_FIRST, 2) == 1 {
          self.next(id, K::U)
        }
      }
      _ => unreachable!(),
    }
  }

  /// the last item and completion; is a terminal that the source signals
  /// from inside the item still heard?
  fn last(&mut self, id: usize, x: K) {
    if !self.p.emit_at.is_empty() && self.flag(fl::LAST, 2) == 1 {
      self.nodes[id].b = true;
      self.close_kids(id);
    }
    self.next(id, x);
    self.comp(id)
  }
  fn multi_next(&mut self, id: usize, m: Mu, n: usize, port: usize, x: K) {
    match m {
      Mu::Merge | Mu::Concat => self.next(id, x),
      Mu::Zip => {
        self.nodes[id].qs[port].push_back(x);
        if self.nodes[id].qs.iter().all(|q| !q.is_empty()) {
          let l = self.nodes[id].qs.iter_mut().map(|q| q.pop_front().unwrap()).collect();
          self.next(id, K::L(l));
          self.zip_end(id, None);
        }
      }
      Mu::Combine => {
        let q = &mut self.nodes[id].qs;
        q[port].clear();
        q[port].push_back(x);
        if q.iter().all(|q| !q.is_empty()) {
          let l = q.iter().map(|q| q[0].clone()).collect();
          self.next(id, K::L(l));
        }
      }
      Mu::Amb => {
        if self.win(id, port) {
          self.next(id, x)
        }
      }
      Mu::SeqEq => {
        self.nodes[id].qs[port].push_back(x);
        self.seq_eval(id, n)
      }
    }
  }
  fn zip_end(&mut self, id: usize, at: Option<usize>) {
    if self.nodes[id].closed {
      return;
    }
    let f = self.flag(fl::ZIP, 3);
    let nd = &self.nodes[id];
    let all = nd.done.iter().all(|d| *d);
    let eager = nd.done.iter().zip(&nd.qs).any(|(d, q)| *d && q.is_empty());
    let arrival = at.map_or(false, |p| nd.qs[p].is_empty());
    if all || (f == 1 && eager) || (f == 2 && arrival) {
      self.comp(id)
    }
  }
  /// amb: is this port the winner (deciding it if still open)?
  fn win(&mut self, id: usize, port: usize) -> bool {
    match self.nodes[id].v {
      None => {
        self.nodes[id].v = Some(K::I(port as i64));
        if self.flag(fl::AMB, 2) == 0 {
          for k in self.nodes[id].kids.clone() {
            if self.nodes[k].port != port {
              self.dispose(k);
            }
          }
        }
        true
      }
      Some(K::I(w)) if w == port as i64 => true,
      _ => {
        for k in self.nodes[id].kids.clone() {
          if self.nodes[k].port == port {
            self.dispose(k);
          }
        }
        false
      }
    }
  }
  fn seq_eval(&mut self, id: usize, n: usize) {
    let fi = self.flag(fl::SEQ_ITEM, 3);
    let fl_ = self.flag(fl::SEQ_LEN, 3);
    let nd = &self.nodes[id];
    let all = nd.done.iter().all(|d| *d);
    let mut no = false;
    let minl = nd.qs.iter().map(|q| q.len()).min().unwrap();
    if fi == 0 {
      no |= (0..minl).any(|i| nd.qs.iter().any(|q| q[i] != nd.qs[0][i]));
    }
    if fi == 1 {
      for a in 0..n {
        for b in 0..a {
          no |= nd.qs[a].iter().zip(&nd.qs[b]).any(|(x, y)| x != y);
        }
      }
    }
    if fl_ == 0 {
      for a in 0..n {
        for b in 0..n {
          no |= nd.done[a] && nd.qs[b].len() > nd.qs[a].len();
        }
      }
    }
    if fl_ == 2 {
      // position by position, the end of a sequence counting as an entry
      let upto = (0..n).map(|a| nd.qs[a].len() + nd.done[a] as usize).min().unwrap();
      no |= (0..upto).any(|i| nd.qs.iter().any(|q| q.get(i) != nd.qs[0].get(i)));
    }
    if all {
      no |= nd.qs.iter().any(|q| *q != nd.qs[0]);
    }
    if no || all {
      self.close_kids(id);
    }
    if no {
      self.next(id, K::B(false));
      self.comp(id)
    } else if all {
      self.next(id, K::B(true));
      self.comp(id)
    }
  }

  fn on_err(&mut self, id: usize, port: usize, e: u32) {
    if self.nodes[id].closed {
      return;
    }
    let ex = self.nodes[id].ex;
    match ex {
      Ex::U(op, src) => match op {
        Op::Contains(_) => {
          if self.flag(fl::CONTAINS_ERR, 2) == 0 {
            self.close_kids(id);
            self.next(id, K::B(false));
            self.comp(id)
          } else {
            self.err(id, e)
          }
        }
        Op::Buffer(_) => {
          if self.nodes[id].q.len() > 0 && self.flag(fl::BUF_ERR, 2) == 1 {
            let l: Vec<K> = std::mem::take(&mut self.nodes[id].q).into();
            self.next(id, K::L(l))
          }
          self.err(id, e)
        }
        Op::Materialize => {
          self.next(id, K::E(e));
          self.comp(id)
        }
        Op::Tap(t) => {
          self.tap(id, *t, Ev::E(e));
          self.err(id, e)
        }
        Op::Retry(c) => {
          self.nodes[id].n += 1;
          if *c == 0 || self.nodes[id].n < *c {
            self.close_kids(id);
            let env = self.nodes[id].env.clone();
            self.sub(src, &env, id, 0)
          } else {
            self.err(id, e)
          }
        }
        Op::RetryWhen(m) => {
          if again(*m, e) {
            self.close_kids(id);
            let env = self.nodes[id].env.clone();
            self.sub(src, &env, id, 0)
          } else {
            self.err(id, e)
          }
        }
        _ => self.err(id, e),
      },
      Ex::Multi(Mu::Amb, _) => {
        if self.win(id, port) {
          self.err(id, e)
        }
      }
      Ex::Trig(Tr::Switch, _, _) => {
        // what the source does after the switch may be heard or not
        if port == 1 || !self.nodes[id].b || self.flag(fl::SW_E, 2) == 0 {
          self.err(id, e)
        }
      }
      Ex::Trig(t, _, _) if port == 1 => match t {
        Tr::TakeUntil => match self.flag(fl::TU_E, 3) {
          0 => {}
          1 => self.comp(id),
          _ => self.err(id, e),
        },
        Tr::SkipUntil => match self.flag(fl::SU_E, 3) {
          0 => {}
          1 => self.nodes[id].b = true,
          _ => self.err(id, e),
        },
        _ => match self.flag(fl::SA_E, 3) {
          0 => {}
          1 => self.comp(id),
          _ => self.err(id, e),
        },
      },
      Ex::Resume(_, l) => {
        if port == 0 {
          self.close_kids(id);
          let env = self.nodes[id].env.clone();
          self.sub(&l[pick_resume(l.len(), e)], &env, id, 1)
        } else {
          self.err(id, e)
        }
      }
      Ex::Win(..) | Ex::Group(..) => {
        if port == 0 && self.opening(id) {
          return;
        }
        if port == 0 && self.flag(fl::WIN_ERR, 2) == 0 {
          self.inner_end(id, &Ev::E(e));
        }
        self.err(id, e)
      }
      _ => self.err(id, e),
    }
  }

  fn on_comp(&mut self, id: usize, port: usize) {
    if self.nodes[id].closed {
      return;
    }
    let ex = self.nodes[id].ex;
    match ex {
      Ex::U(op, _) => {
        match op {
          Op::TakeLast(_) => {
            let l: Vec<K> = std::mem::take(&mut self.nodes[id].q).into();
            for x in l {
              self.next(id, x);
            }
          }
          Op::Last | Op::Reduce(_) | Op::Sum | Op::Min | Op::Max => {
            if let Some(x) = self.nodes[id].v.take() {
              self.next(id, x)
            }
          }
          Op::SumAndCount => {
            if let Some(x) = self.nodes[id].v.take() {
              let n = self.nodes[id].n as i64;
              self.next(id, K::L(vec![x, K::I(n)]))
            }
          }
          Op::Count => {
            let n = self.nodes[id].n as i64;
            self.next(id, K::I(n))
          }
          Op::All(_) => self.next(id, K::B(true)),
          Op::Contains(_) => self.next(id, K::B(false)),
          Op::DefaultIfEmpty(d) => {
            if !self.nodes[id].b {
              self.next(id, K::I(*d))
            }
          }
          Op::Buffer(_) => {
            if !self.nodes[id].q.is_empty() {
              let l: Vec<K> = std::mem::take(&mut self.nodes[id].q).into();
              self.next(id, K::L(l))
            }
          }
          Op::Materialize => self.next(id, K::C),
          Op::TimeInterval => {
            // (and one after the last?)
            if self.nodes[id].b && self.flag(fl::TI_LAST, 2) == 0 {
              self.next(id, K::U)
            }
          }
          Op::ElementAt(c) => {
            if self.nodes[id].n < *c && self.flag(fl::ELEM, 2) == 1 {
              return self.err(id, ANY);
            }
          }
          Op::Tap(t) => self.tap(id, *t, Ev::C),
          _ => {}
        }
        self.comp(id)
      }
      Ex::Multi(m, l) => match m {
        Mu::Concat => {
          if port + 1 < l.len() {
            let env = self.nodes[id].env.clone();
            self.sub(&l[port + 1], &env, id, port + 1)
          } else {
            self.comp(id)
          }
        }
        Mu::Amb => {
          if self.win(id, port) {
            self.comp(id)
          }
        }
        _ => {
          self.nodes[id].done[port] = true;
          match m {
            Mu::Zip => self.zip_end(id, Some(port)),
            Mu::SeqEq => self.seq_eval(id, l.len()),
            Mu::Combine => {
              let all = self.nodes[id].done.iter().all(|d| *d);
              if all || (self.nodes[id].qs[port].is_empty() && self.flag(fl::COMBINE, 2) == 1) {
                self.comp(id)
              }
            }
            _ => {
              if self.nodes[id].done.iter().all(|d| *d) {
                self.comp(id)
              }
            }
          }
        }
      },
      Ex::Trig(Tr::Switch, _, _) => {
        self.nodes[id].done[port] = true;
        let n = &self.nodes[id];
        if n.done[0] && n.done[1] || port == 1 && n.b {
          self.comp(id)
        } else if port == 1 {
          // a target that completed empty
          if self.flag(fl::SW_C, 2) == 0 {
            self.comp(id)
          }
        } else if !n.b {
          // a source that completed before the switch
          let there = n.kids.iter().any(|k| self.nodes[*k].port == 1);
          if self.flag(if there { fl::SW_SC } else { fl::SW_SC0 }, 2) == 1 {
            self.comp(id)
          }
        }
      }
      Ex::Trig(t, _, _) => {
        if port == 0 {
          self.comp(id)
        } else {
          match t {
            Tr::TakeUntil => {
              if self.flag(fl::TU_C, 2) == 1 {
                self.comp(id)
              }
            }
            Tr::SkipUntil => {
              if !self.nodes[id].b && self.flag(fl::SU_C, 2) == 1 {
                self.nodes[id].b = true
              }
            }
            _ => {
              if self.flag(fl::SA_C, 2) == 1 {
                self.comp(id)
              }
            }
          }
        }
      }
      Ex::FlatMap(..) | Ex::Win(..) | Ex::Group(..) => {
        if port == 0 {
          if !matches!(ex, Ex::FlatMap(..)) && self.opening(id) {
            return;
          }
          self.nodes[id].b = true;
          if matches!(ex, Ex::Win(..) | Ex::Group(..)) {
            self.inner_end(id, &Ev::C);
          }
        } else {
          self.nodes[id].n -= 1;
        }
        if !self.nodes[id].closed && self.nodes[id].b && self.nodes[id].n == 0 {
          self.comp(id)
        }
      }
      _ => self.comp(id),
    }
  }
}
