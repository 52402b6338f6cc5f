//! C13 with subscribers, connection and source on different threads.
use super::conc::*;
use super::race::*;
use super::subj::Kind;
use crate::ex::*;
use crate::real::*;
use crate::util::*;
use crate::val::*;
use crate::{say, viol};
use another_rxrust::prelude::*;
use simstd::rt;
use std::collections::BTreeMap;
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ca {
  Sub(usize),
  Unsub(usize),
  Connect,
  Disconnect,
  Emit(SEv),
  Sleep(u64),
}

pub fn gen_threads(g: &mut G) -> Prep {
  let kind = *g.pick(&[Kind::Publish, Kind::RefCount, Kind::Replay, Kind::RefCount, Kind::Replay]);
  let mode = *g.pick(&[Mode::Hot, Mode::Hot, Mode::Thr, Mode::Cold]);
  let n = 2 + g.weighted(&[4, 3, 1]);
  let items = g.big(140).unwrap_or_else(|| 1 + g.us(4));
  let term = match g.int(6) {
    0 => Some(SEv::C),
    1 => Some(SEv::E),
    _ => None,
  };
  let mut script: Vec<SEv> = (1..=items as i64).map(SEv::N).collect();
  script.extend(term);
  let nt = 1 + g.us(3);
  let mut threads: Vec<Vec<Ca>> = vec![vec![]; nt];
  let first = if g.chance(1, 3) { 1 } else { 0 };
  for j in first..n {
    let t = g.us(nt);
    threads[t].push(Ca::Sub(j));
    if g.chance(1, 2) {
      if g.chance(1, 4) {
        threads[t].push(Ca::Sleep(100 * (1 + g.int(9)) as u64));
      }
      // mostly on the same thread
      let u = if g.chance(3, 4) { t } else { g.us(nt) };
      threads[u].push(Ca::Unsub(j));
    }
  }
  for j in 0..first {
    if g.chance(2, 3) {
      let t = g.us(nt);
      let at = g.us(threads[t].len() + 1);
      threads[t].insert(at, Ca::Unsub(j));
    }
  }
  threads.retain(|t| !t.is_empty());
  if mode == Mode::Hot {
    threads.push(script.iter().map(|e| Ca::Emit(*e)).collect());
  }
  let mut early = false;
  if kind == Kind::Publish {
    early = g.chance(1, 3);
    let mut l = vec![];
    if !early {
      l.push(Ca::Connect);
    }
    if g.chance(1, 3) {
      l.push(Ca::Disconnect);
    }
    if !l.is_empty() {
      threads.push(l);
    }
  }
  let mut unsub_at = vec![None; n];
  if g.chance(1, 4) {
    unsub_at[g.us(n)] = Some(1 + g.us(3));
  }
  let polite = !g.chance(1, 4);
  let down = g.chance(1, 4);
  let up = g.chance(1, 4);
  let cfg = Cfg::conc(g, 2_000);
  let cb_sleep = if g.chance(1, 8) { 50 } else { 0 };
  let scripts = vec![if mode == Mode::Hot { vec![] } else { script.clone() }];
  let pause = if mode == Mode::Thr && g.chance(1, 2) { 200 } else { 0 };
  let p = Arc::new(Prog {
    srcs: vec![Src { mode, polite, scripts, kind: 0, pause }],
    ex: if up { Ex::U(Op::Map(1), Box::new(Ex::Src(0))) } else { Ex::Src(0) },
    rsg: None,
    subs: n,
    unsub_at,
    nest: None,
    emit_at: vec![],
    inside: None,
    acts: vec![],
    lin: false,
  });
  let shown = threads.iter().enumerate().map(|(i, t)| format!("t{}: {}", i, t.iter().map(|a| format!("{:?}", a)).collect::<Vec<_>>().join(" "))).collect::<Vec<_>>().join("; ");
  Prep {
    desc: format!("{}.{:?} over a {:?} source{}, {} first; {}{}", p.ex, kind, mode, if mode == Mode::Hot { String::new() } else { format!(" ({}){}", show_script(&script), if polite { "" } else { " that never checks is_subscribed" }) }, first, shown, if down { "; map downstream" } else { "" }),
    cfg,
    body: Box::new(move || {
      probe(match kind {
        Kind::Publish => "publish-threads",
        Kind::RefCount => "ref_count-threads",
        Kind::Replay => "replay-threads",
      });
      let w = World::new(p.clone(), false);
      {
        let mut s = w.s.b();
        s.flat_codes = true;
        s.distinct = true;
        // an operator in between may be torn down by an emitter that runs into
        // its closed subscriber, a moment after unsubscribe() returned
        s.one_live = kind != Kind::Publish && !up;
        s.conc = true;
        s.cb_sleep = cb_sleep;
      }
      let src = w.root();
      let mut publ = None;
      let base: Obs = match kind {
        Kind::Publish => {
          let x = src.publish();
          let o = x.observable();
          publ = Some(x);
          o
        }
        Kind::RefCount => src.ref_count().observable(),
        Kind::Replay => src.replay().observable(),
      };
      let root = if down { base.map(|v: V| v) } else { base.clone() };
      let conn: Sh<Option<Subscription<'static>>> = Sh::new(None);
      let cut: Sh<Option<u64>> = Sh::new(None);
      if early {
        let c = publ.as_ref().unwrap().connect();
        *conn.b() = Some(c);
      }
      for j in 0..first {
        w.subscribe(j, &root);
      }
      let mut js = vec![];
      for (i, t) in threads.iter().enumerate() {
        let (w, t, root, publ, conn, cut) = (w.clone(), t.clone(), root.clone(), publ.clone(), conn.clone(), cut.clone());
        js.push(spawn(&format!("h{}", i), move || {
          for a in t {
            match a {
              Ca::Sub(j) => w.subscribe(j, &root),
              Ca::Unsub(j) => w.unsub(j),
              Ca::Emit(e) => {
                say!("source emits {:?}", e);
                w.emit_ev(0, e)
              }
              Ca::Sleep(n) => rt::sleep_ns(n),
              Ca::Connect => {
                let c = publ.as_ref().unwrap().connect();
                *conn.b() = Some(c);
              }
              Ca::Disconnect => {
                let c = conn.b().take();
                if let Some(c) = c {
                  *cut.b() = Some(rt::stamp());
                  c.unsubscribe();
                }
              }
            }
          }
        }));
      }
      for j in js {
        j.join().unwrap();
      }
      settle(50_000_000);
      observe_recs(&w);
      judge(&w, kind, mode, n, *cut.b());
      let over = w.s.b().sent.iter().any(|s| !matches!(s.e, SEv::N(_)) && s.open.0);
      let active = actives(&w, n);
      let open = w.live()[0].len();
      observe(open as u64 * 8 + active.len() as u64);
      if w.s.b().insts.len() > 1 {
        probe("reconnected-threads");
      }
      if kind != Kind::Publish {
        if active.is_empty() && open > 0 {
          viol!("connection", "nobody is subscribed any more but the source has {} open subscription(s)", open);
        }
        if !active.is_empty() && open != 1 && !(over && kind == Kind::RefCount) {
          viol!("connection", "subscribers {:?} are subscribed but the source has {} open subscription(s)", active, open);
        }
        if open > 1 {
          viol!("connection", "the source has {} open subscriptions", open);
        }
      } else if open > 1 || (open == 1 && cut.b().is_some()) {
        viol!("connection", "the source has {} open subscription(s){}", open, if cut.b().is_some() { " although the connection was unsubscribed" } else { "" });
      }
      // one more item reaches everybody who is still there
      if mode == Mode::Hot && open == 1 {
        probe("final-item");
        w.emit_ev(0, SEv::N(999));
        settle(50_000_000);
        for j in &active {
          let want = if up { 1998 } else { 999 };
          let got = w.s.b().recs[*j].iter().filter(|r| r.ev == Ev::N(K::I(want))).count();
          if got != 1 && p.unsub_at[*j].is_none() {
            viol!("shared", "subscriber {} received the item emitted at the end {} times", j, got);
          }
        }
      }
      for j in 0..n {
        w.unsub(j);
      }
      let c = conn.b().take();
      if let Some(c) = c {
        c.unsubscribe();
      }
      settle(50_000_000);
      let open = w.live()[0].len();
      if open > 0 {
        viol!("connection", "everybody has left but the source still has {} open subscription(s)", open);
      }
      drop(publ);
      drop(base);
      drop(root);
      w.clear();
    }),
  }
}

fn actives(w: &World, n: usize) -> Vec<usize> {
  let s = w.s.b();
  (0..n).filter(|j| s.sub_ret[*j].is_some() && s.unsub_start[*j].is_none() && !s.recs[*j].iter().any(|r| !matches!(r.ev, Ev::N(_)))).collect()
}

fn judge(w: &World, kind: Kind, mode: Mode, n: usize, cut: Option<u64>) {
  let s = w.s.b();
  let double = matches!(&w.p.ex, Ex::U(..));
  let out = |x: i64| if double { x.wrapping_mul(2) } else { x };
  // item -> the subscription of the source it was sent to
  let mut home: BTreeMap<i64, Vec<usize>> = BTreeMap::new();
  for x in s.sent.iter().filter(|x| x.open.0) {
    if let SEv::N(i) = x.e {
      home.entry(out(i)).or_default().push(x.k);
    }
  }
  let last_k = s.insts.iter().filter(|i| i.counted).map(|i| i.k).max();
  for j in 0..n {
    let (Some(sub0), Some(sub1)) = (s.sub_start[j], s.sub_ret[j]) else { continue };
    let un = s.unsub_start[j];
    let log: Vec<Ev> = s.recs[j].iter().map(|r| r.ev.clone()).collect();
    let shown = show_ev(&log);
    if !log.is_empty() {
      nontrivial();
    }
    if s.sent.iter().any(|x| x.start < sub1 && sub0 < x.end) {
      probe("subscribe-overlaps-emission");
    }
    let items: Vec<i64> = log.iter().filter_map(|e| if let Ev::N(k) = e { Some(k.num()) } else { None }).collect();
    let terms = log.len() - items.len();
    let fin = s.recs[j].iter().find(|r| !matches!(r.ev, Ev::N(_))).map(|r| r.start);
    // (an item an earlier connection was delivering may race the terminal)
    let straggler = kind == Kind::RefCount && s.insts.len() > 1;
    if terms > 1 || (terms == 1 && matches!(log.last(), Some(Ev::N(_))) && !straggler) {
      viol!("terminals", "subscriber {} received [{}]", j, shown);
    }
    for x in &items {
      if !home.contains_key(x) {
        viol!("shared", "subscriber {} received {}, which the source never emitted: [{}]", j, x, shown);
      }
    }
    for a in 0..items.len() {
      for b in a + 1..items.len() {
        // one thread emits per connection, with rising numbers. (ref_count may
        // hand what an earlier connection was delivering when it was closed to
        // a newcomer.)
        let (p, q) = (items[a], items[b]);
        let other = kind == Kind::RefCount && mode != Mode::Hot && home[&p] != home[&q];
        if p >= q && !other {
          viol!("shared", "subscriber {} received {} after {} (duplicated or reordered): [{}]", j, q, p, shown);
        }
      }
    }
    if kind == Kind::Replay && mode != Mode::Hot {
      // one connection's items only
      let mut ks: Vec<usize> = items.iter().flat_map(|x| home[x].clone()).collect();
      ks.sort();
      ks.dedup();
      if ks.len() > 1 {
        viol!("shared", "subscriber {} of replay received items of {} subscriptions of the source: [{}]", j, ks.len(), shown);
      }
    }
    for x in &s.sent {
      if x.k == usize::MAX || !x.open.0 {
        continue;
      }
      let calm = (0..n).all(|o| s.unsub_start[o].map_or(true, |a| a > x.end || s.unsub_ret[o].map_or(false, |b| b < x.start)));
      // (a ref_count whose source has ended is not judged)
      let ended = s.sent.iter().any(|t| !matches!(t.e, SEv::N(_)) && t.open.0 && t.k != x.k);
      match x.e {
        SEv::N(i) => {
          let i = out(i);
          if !x.open.1 {
            continue;
          }
          let throughout = sub1 < x.start && cut.map_or(true, |u| x.end < u) && un.map_or(true, |u| x.end < u) && fin.map_or(true, |u| x.end < u);
          // what a ReplaySubject has queued for an observer that leaves
          // meanwhile may be dropped
          // behind an operator the end of a connection arrives late
          // and whoever arrives while the last one leaves may have to wait for
          // the source to be subscribed again
          let sure = (!double || s.insts.len() == 1) && (calm || kind == Kind::Publish);
          if throughout && !ended && sure && (kind != Kind::Replay || un.is_none()) && !items.contains(&i) {
            viol!("shared", "subscriber {} was subscribed while the source emitted {} but did not receive it: [{}]", j, i, shown);
          }
          if kind == Kind::Replay {
            // complete from the beginning of the connection
            if let Some(l) = items.iter().filter(|y| home[y].contains(&x.k)).max() {
              if i < *l && !items.contains(&i) {
                viol!("shared", "subscriber {} of replay received {} but not the earlier {}: [{}]", j, l, i, shown);
              }
            }
            let stays = un.is_none();
            if stays && Some(x.k) == last_k && !items.contains(&i) && (terms == 0 || s.insts.iter().filter(|i| i.counted).count() == 1) {
              viol!("shared", "subscriber {} of replay never received {}: [{}]", j, i, shown);
            }
          }
          if kind == Kind::Publish && x.end < sub0 && items.contains(&i) {
            viol!("shared", "subscriber {} received {}, emitted before it subscribed: [{}]", j, i, shown);
          }
        }
        _ => {
          let throughout = sub1 < x.start && un.is_none() && cut.is_none();
          let late = kind == Kind::Replay && un.is_none() && Some(x.k) == last_k;
          // unless a racing disconnection closed it first
          let sure = kind == Kind::Publish || s.unsub_start.iter().flatten().next().is_none();
          if ((throughout && !ended && (calm || kind == Kind::Publish)) || (late && sure)) && terms == 0 {
            viol!("terminals", "subscriber {} did not receive the terminal: [{}]", j, shown);
          }
        }
      }
    }
  }
}
