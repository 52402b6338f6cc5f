//! std::sync::mpsc on top of the simulated Mutex and Condvar.
pub use ::std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
use super::{Condvar, Mutex};
use std::collections::VecDeque;
use std::sync::Arc;
use std::time::Duration;

struct St<T> {
  q: VecDeque<T>,
  cap: Option<usize>,
  senders: usize,
  rx_alive: bool,
}
struct Ch<T> {
  m: Mutex<St<T>>,
  rx: Condvar,
  tx: Condvar,
}
pub struct Sender<T>(Arc<Ch<T>>);
pub struct SyncSender<T>(Arc<Ch<T>>);
pub struct Receiver<T>(Arc<Ch<T>>, std::marker::PhantomData<std::cell::Cell<()>>);

fn mk<T>(cap: Option<usize>) -> Arc<Ch<T>> {
  Arc::new(Ch {
    m: Mutex::new(St { q: VecDeque::new(), cap, senders: 1, rx_alive: true }),
    rx: Condvar::new(),
    tx: Condvar::new(),
  })
}
pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
  let c = mk(None);
  (Sender(c.clone()), Receiver(c, std::marker::PhantomData))
}
pub fn sync_channel<T>(n: usize) -> (SyncSender<T>, Receiver<T>) {
  let c = mk(Some(n.max(1)));
  (SyncSender(c.clone()), Receiver(c, std::marker::PhantomData))
}
impl<T> Ch<T> {
  fn send(&self, t: T) -> Result<(), SendError<T>> {
    let mut g = self.m.lock().unwrap();
    loop {
      if !g.rx_alive {
        return Err(SendError(t));
      }
      if g.cap.map_or(true, |c| g.q.len() < c) {
        g.q.push_back(t);
        self.rx.notify_one();
        return Ok(());
      }
      g = self.tx.wait(g).unwrap();
    }
  }
  fn drop_sender(&self) {
    let mut g = self.m.lock().unwrap();
    g.senders -= 1;
    if g.senders == 0 {
      self.rx.notify_all();
    }
  }
}
impl<T> Sender<T> {
  pub fn send(&self, t: T) -> Result<(), SendError<T>> {
    self.0.send(t)
  }
}
impl<T> SyncSender<T> {
  pub fn send(&self, t: T) -> Result<(), SendError<T>> {
    self.0.send(t)
  }
  pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
    let full = {
      let g = self.0.m.lock().unwrap();
      if !g.rx_alive {
        return Err(TrySendError::Disconnected(t));
      }
      g.cap.map_or(false, |c| g.q.len() >= c)
    };
    if full {
      return Err(TrySendError::Full(t));
    }
    self.0.send(t).map_err(|e| TrySendError::Disconnected(e.0))
  }
}
macro_rules! tx {
  ($n:ident) => {
    impl<T> Clone for $n<T> {
      fn clone(&self) -> Self {
        self.0.m.lock().unwrap().senders += 1;
        $n(self.0.clone())
      }
    }
    impl<T> Drop for $n<T> {
      fn drop(&mut self) {
        self.0.drop_sender();
      }
    }
    impl<T> std::fmt::Debug for $n<T> {
      fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(stringify!($n))
      }
    }
  };
}
tx!(Sender);
tx!(SyncSender);
impl<T> Receiver<T> {
  pub fn recv(&self) -> Result<T, RecvError> {
    let mut g = self.0.m.lock().unwrap();
    loop {
      if let Some(t) = g.q.pop_front() {
        self.0.tx.notify_one();
        return Ok(t);
      }
      if g.senders == 0 {
        return Err(RecvError);
      }
      g = self.0.rx.wait(g).unwrap();
    }
  }
  pub fn try_recv(&self) -> Result<T, TryRecvError> {
    let mut g = self.0.m.lock().unwrap();
    if let Some(t) = g.q.pop_front() {
      self.0.tx.notify_one();
      return Ok(t);
    }
    if g.senders == 0 {
      Err(TryRecvError::Disconnected)
    } else {
      Err(TryRecvError::Empty)
    }
  }
  pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
    let end = crate::rt::now().saturating_add(d.as_nanos().min(u64::MAX as u128 / 4) as u64);
    let mut g = self.0.m.lock().unwrap();
    loop {
      if let Some(t) = g.q.pop_front() {
        self.0.tx.notify_one();
        return Ok(t);
      }
      if g.senders == 0 {
        return Err(RecvTimeoutError::Disconnected);
      }
      let now = crate::rt::now();
      if now >= end {
        return Err(RecvTimeoutError::Timeout);
      }
      g = self.0.rx.wait_timeout(g, Duration::from_nanos(end - now)).unwrap().0;
    }
  }
  pub fn iter(&self) -> Iter<'_, T> {
    Iter(self)
  }
  pub fn try_iter(&self) -> TryIter<'_, T> {
    TryIter(self)
  }
}
pub struct Iter<'a, T>(&'a Receiver<T>);
impl<T> Iterator for Iter<'_, T> {
  type Item = T;
  fn next(&mut self) -> Option<T> {
    self.0.recv().ok()
  }
}
pub struct TryIter<'a, T>(&'a Receiver<T>);
impl<T> Iterator for TryIter<'_, T> {
  type Item = T;
  fn next(&mut self) -> Option<T> {
    self.0.try_recv().ok()
  }
}
pub struct IntoIter<T>(Receiver<T>);
impl<T> Iterator for IntoIter<T> {
  type Item = T;
  fn next(&mut self) -> Option<T> {
    self.0.recv().ok()
  }
}
impl<T> IntoIterator for Receiver<T> {
  type Item = T;
  type IntoIter = IntoIter<T>;
  fn into_iter(self) -> IntoIter<T> {
    IntoIter(self)
  }
}
impl<'a, T> IntoIterator for &'a Receiver<T> {
  type Item = T;
  type IntoIter = Iter<'a, T>;
  fn into_iter(self) -> Iter<'a, T> {
    self.iter()
  }
}
impl<T> Drop for Receiver<T> {
  fn drop(&mut self) {
    let q = {
      let mut g = self.0.m.lock().unwrap();
      g.rx_alive = false;
      self.0.tx.notify_all();
      std::mem::take(&mut g.q)
    };
    drop(q);
  }
}
impl<T> std::fmt::Debug for Receiver<T> {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    f.write_str("Receiver")
  }
}
