//! C08: the new-thread scheduler's queue.
use super::conc::*;
use crate::util::*;
use crate::{say, viol, Property};
use another_rxrust::prelude::schedulers::{self, IScheduler};
use simstd::rt;

pub static P: Property = Property {
  id: "C08",
  gen,
  inconclusive: &[],
  real: "AsyncFunctionQueue, NewThreadScheduler, DefaultScheduler (all of src/schedulers)",
  stub: "std::sync, std::thread and std::time are the simulator's; poster threads and tasks are generated",
  rule: "a case is a set of 1..3 poster threads with scripts of post/abort/sleep, tasks that post, abort or sleep themselves, and one schedule; non-trivial when at least two tasks were posted and at least one preemption happened between a poster and the worker",
};

#[derive(Clone, Debug)]
enum Op {
  Post(Vec<Op>),
  Abort,
  Sleep(u64),
  DropHandle,
}

fn task(g: &mut G, depth: u32) -> Vec<Op> {
  let mut v = vec![];
  for _ in 0..g.weighted(&[6, 3, 1]) {
    v.push(match g.weighted(&[3, if depth < 2 { 3 } else { 0 }, 1]) {
      0 => Op::Sleep(g.range(0, 3) as u64 * 100),
      1 => Op::Post(task(g, depth + 1)),
      _ => Op::Abort,
    });
  }
  v
}
fn script(g: &mut G, abort: bool, len: u32) -> Vec<Op> {
  // now and then a long backlog, mostly of small tasks
  let big = g.big(270);
  let n = big.unwrap_or_else(|| 1 + g.us(len as usize));
  (0..n)
    .map(|_| match g.weighted(&if big.is_some() { [300, 20, if abort { 1 } else { 0 }, 0] } else { [8, 2, if abort { 2 } else { 0 }, 1] }) {
      0 if big.is_some() && !g.chance(1, 20) => Op::Post(vec![]),
      0 => Op::Post(task(g, 0)),
      1 => Op::Sleep(g.range(0, 4) as u64 * 90),
      2 => Op::Abort,
      _ => Op::DropHandle,
    })
    .collect()
}

struct T {
  post0: u64,
  post1: Option<u64>,
  poster: usize,
  nested: bool,
  runs: Vec<(u64, Option<u64>, usize)>,
}
#[derive(Default)]
struct H {
  tasks: Vec<T>,
  /// (start, return)
  aborts: Vec<(u64, Option<u64>)>,
}
type Sched = schedulers::NewThreadScheduler<'static>;

#[derive(Clone)]
struct Cx {
  h: Sh<H>,
}

fn exec(cx: &Cx, s: &Sched, ops: &[Op], nested: bool) {
  for op in ops {
    match op {
      Op::Sleep(n) => rt::sleep_ns(*n),
      Op::DropHandle => {}
      Op::Abort => {
        let i = {
          let mut h = cx.h.b();
          h.aborts.push((rt::stamp(), None));
          h.aborts.len() - 1
        };
        say!("abort #{} ...", i);
        s.abort();
        say!("... abort #{} returned", i);
        cx.h.b().aborts[i].1 = Some(rt::stamp());
      }
      Op::Post(body) => {
        let id = {
          let mut h = cx.h.b();
          h.tasks.push(T { post0: rt::stamp(), post1: None, poster: rt::cur(), nested, runs: vec![] });
          h.tasks.len() - 1
        };
        say!("post task {} ...", id);
        let cx2 = cx.clone();
        // an own clone of the scheduler inside the task only when it needs one
        let s2 = if body.iter().any(|o| matches!(o, Op::Post(_) | Op::Abort)) { Some(s.clone()) } else { None };
        let body = body.clone();
        s.post(move || {
          let n = {
            let mut h = cx2.h.b();
            if h.tasks.iter().any(|t| t.runs.iter().any(|r| r.1.is_none())) {
              viol!("overlap", "task {} started while another task was still running", id);
            }
            if !h.tasks[id].runs.is_empty() {
              viol!("twice", "task {} was run a second time", id);
            }
            h.tasks[id].runs.push((rt::stamp(), None, rt::cur()));
            h.tasks[id].runs.len() - 1
          };
          say!("task {} runs", id);
          if let Some(s2) = &s2 {
            exec(&cx2, s2, &body, true);
          } else {
            for o in &body {
              if let Op::Sleep(n) = o {
                rt::sleep_ns(*n);
              }
            }
          }
          rt::point("task", id as u32);
          say!("task {} done", id);
          cx2.h.b().tasks[id].runs[n].1 = Some(rt::stamp());
        });
        say!("... post task {} returned", id);
        cx.h.b().tasks[id].post1 = Some(rt::stamp());
      }
    }
  }
}

fn judge(h: &H, settled: bool) {
  let first_abort = h.aborts.iter().map(|a| a.0).min().unwrap_or(u64::MAX);
  // one worker thread, not the poster's
  let mut th = None;
  for (i, t) in h.tasks.iter().enumerate() {
    for r in &t.runs {
      if *th.get_or_insert(r.2) != r.2 {
        viol!("thread", "task {} ran on thread {}, an earlier one on thread {}", i, r.2, th.unwrap());
      }
      if !t.nested && r.2 == t.poster {
        viol!("thread", "task {} ran on its poster's thread {}", i, r.2);
      }
    }
    if settled && t.runs.is_empty() && h.aborts.is_empty() && t.post1.is_some() {
      viol!("lost", "task {} was posted, nothing aborted the scheduler, and it never ran: {}", i, rt::describe());
    }
    for r in &t.runs {
      if r.0 < t.post0 {
        viol!("order", "task {} ran before it was posted", i);
      }
    }
  }
  // FIFO
  for (i, a) in h.tasks.iter().enumerate() {
    for (j, b) in h.tasks.iter().enumerate() {
      if a.post1.is_some() && a.post1.unwrap() < b.post0 {
        if let Some(rb) = b.runs.first() {
          match a.runs.first() {
            Some(ra) => {
              if ra.0 > rb.0 {
                viol!("fifo", "task {} was posted before task {} but ran after it", i, j);
              }
            }
            None => {
              if rb.0 < first_abort {
                viol!("fifo", "task {} ran while the earlier task {} had not", j, i);
              }
            }
          }
        }
      }
    }
  }
  // after abort returned
  for (k, ab) in h.aborts.iter().enumerate() {
    let Some(ret) = ab.1 else { continue };
    let in_progress = h.tasks.iter().any(|t| t.runs.iter().any(|r| r.0 < ret && r.1.map_or(true, |e| e > ret)));
    let mut late = 0;
    for (i, t) in h.tasks.iter().enumerate() {
      for r in &t.runs {
        if r.0 > ret {
          late += 1;
          if t.post0 > ret {
            viol!("after-abort", "task {} was posted after abort #{} had returned and still ran", i, k);
          }
          if in_progress {
            viol!("after-abort", "task {} was taken from the queue after abort #{} had returned (another task was in progress then)", i, k);
          }
        }
      }
    }
    if late > 1 {
      viol!("after-abort", "{} tasks started after abort #{} had returned", late, k);
    }
  }
}

pub fn gen(g: &mut G) -> Prep {
  if g.chance(1, 1500) {
    return super::huge::c08(g);
  }
  let cfg = Cfg::conc(g, 400);
  if g.chance(1, 40) {
    return default_sched(g, cfg);
  }
  let quiet_first = g.chance(1, 3);
  let pre = if quiet_first { script(g, false, 3) } else { vec![] };
  let nt = 1 + g.us(3);
  let abort = g.chance(2, 3);
  let len = 1 + g.int(4);
  let scripts: Vec<Vec<Op>> = (0..nt).map(|_| script(g, abort, len)).collect();
  let end_abort = g.chance(2, 3);
  let drop_handles = g.chance(1, 3);
  let desc = format!("pre={:?} threads={:?} abort-at-end={} drop-handles={}", pre, scripts, end_abort, drop_handles);
  Prep {
    desc,
    cfg,
    body: Box::new(move || {
      let cx = Cx { h: Sh::new(H::default()) };
      let s = (schedulers::new_thread_scheduler())();
      if !pre.is_empty() {
        exec(&cx, &s, &pre, false);
        settle(100 * MS);
        judge(&cx.h.b(), true);
        probe("settled-before-race");
      }
      let mut js = vec![];
      for (i, sc) in scripts.iter().enumerate() {
        let (cx, s, sc) = (cx.clone(), s.clone(), sc.clone());
        js.push(spawn(&format!("poster{}", i), move || exec(&cx, &s, &sc, false)));
      }
      let s = if drop_handles && !end_abort { None } else { Some(s) };
      for j in js {
        j.join().unwrap();
      }
      settle(100 * MS);
      judge(&cx.h.b(), true);
      if end_abort {
        exec(&cx, s.as_ref().unwrap(), &[Op::Abort], false);
        settle(100 * MS);
        judge(&cx.h.b(), true);
      }
      let h = cx.h.b();
      if !h.aborts.is_empty() {
        if !lib_threads().is_empty() {
          viol!("worker-alive", "abort returned and no task is running, yet the worker thread has not ended: {}", rt::describe());
        }
        if h.tasks.iter().any(|t| t.runs.is_empty()) {
          probe("task-discarded-by-abort");
        }
        if h.aborts.iter().any(|a| h.tasks.iter().any(|t| t.runs.iter().any(|r| r.0 < a.0 && r.1.map_or(false, |e| a.1.map_or(false, |b| b < e) )))) {
          probe("abort-during-task");
        }
      }
      if h.tasks.iter().any(|t| t.nested) {
        probe("post-from-task");
      }
      if h.tasks.len() >= 2 {
        nontrivial();
      }
      for t in &h.tasks {
        observe(t.runs.first().map_or(0, |r| r.0));
      }
    }),
  }
}

fn default_sched(g: &mut G, cfg: Cfg) -> Prep {
  let n = 1 + g.int(4);
  Prep {
    desc: format!("default scheduler, {} posts (each posts one more)", n),
    cfg,
    body: Box::new(move || {
      let s = (schedulers::default_scheduler())();
      let log: Sh<Vec<(u32, usize)>> = Sh::new(vec![]);
      for i in 0..n {
        let l = log.clone();
        let s2 = s.clone();
        s.post(move || {
          let l2 = l.clone();
          l.b().push((i * 10, rt::cur()));
          s2.post(move || l2.b().push((i * 10 + 1, rt::cur())));
          l.b().push((i * 10 + 2, rt::cur()));
        });
        let me = rt::cur();
        let want: Vec<(u32, usize)> = (0..=i).flat_map(|i| [(i * 10, me), (i * 10 + 1, me), (i * 10 + 2, me)]).collect();
        if *log.b() != want {
          viol!("default", "the default scheduler did not run the task synchronously in post: {:?}", log.b());
        }
      }
      s.abort();
      probe("default-scheduler");
      nontrivial();
    }),
  }
}
