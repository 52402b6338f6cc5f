//! std::sync with every operation routed through the simulation runtime.
pub use ::std::sync::*;

use crate::rt::{self, Wait};
use std::cell::{Cell, RefCell, UnsafeCell};
use std::fmt;
use std::ops::{Deref, DerefMut};
use std::time::Duration;

#[path = "atomic.rs"]
pub mod atomic;
#[path = "mpsc.rs"]
pub mod mpsc;

/// Identity of a primitive within one run.
pub(crate) struct Id(Cell<(u32, u32)>);
impl Id {
  pub const fn new() -> Id {
    Id(Cell::new((0, 0)))
  }
  pub fn get(&self) -> u32 {
    if !rt::active() {
      return 0;
    }
    let e = rt::epoch();
    let (a, b) = self.0.get();
    if a == e {
      b
    } else {
      let n = rt::new_obj();
      self.0.set((e, n));
      n
    }
  }
}

fn me() -> usize {
  if rt::active() {
    rt::cur()
  } else {
    usize::MAX
  }
}

fn outside() -> ! {
  panic!("a lock would block outside the simulation")
}

// ------------------------------------------------------------ RwLock

struct RawRw {
  id: Id,
  readers: Cell<u32>,
  writer: Cell<bool>,
  wr: RefCell<Vec<usize>>,
  ww: RefCell<Vec<usize>>,
}
impl RawRw {
  const fn new() -> RawRw {
    RawRw {
      id: Id::new(),
      readers: Cell::new(0),
      writer: Cell::new(false),
      wr: RefCell::new(Vec::new()),
      ww: RefCell::new(Vec::new()),
    }
  }
  /// as in std's futex lock: waiting writers (and readers) keep new readers out
  fn can_read(&self) -> bool {
    !self.writer.get() && self.ww.borrow().is_empty() && self.wr.borrow().is_empty()
  }
  fn read(&self) {
    rt::point("read", self.id.get());
    let mut woken = false;
    loop {
      let ok = if woken { !self.writer.get() && self.ww.borrow().is_empty() } else { self.can_read() };
      if ok {
        self.readers.set(self.readers.get() + 1);
        return;
      }
      if !rt::active() {
        outside()
      }
      self.wr.borrow_mut().push(me());
      rt::block(Wait::ReadLock, self.id.get(), None);
      woken = true;
    }
  }
  fn write(&self) {
    rt::point("write", self.id.get());
    loop {
      if !self.writer.get() && self.readers.get() == 0 {
        self.writer.set(true);
        return;
      }
      if !rt::active() {
        outside()
      }
      self.ww.borrow_mut().push(me());
      rt::block(Wait::WriteLock, self.id.get(), None);
    }
  }
  fn try_read(&self) -> bool {
    rt::tries();
    rt::point("try_read", self.id.get());
    if self.can_read() {
      self.readers.set(self.readers.get() + 1);
      true
    } else {
      false
    }
  }
  fn try_write(&self) -> bool {
    rt::tries();
    rt::point("try_write", self.id.get());
    if !self.writer.get() && self.readers.get() == 0 {
      self.writer.set(true);
      true
    } else {
      false
    }
  }
  fn freed(&self) {
    if !rt::active() {
      return;
    }
    let mut ww = self.ww.borrow_mut();
    if !ww.is_empty() {
      let i = rt::env_choice(ww.len());
      let t = ww.remove(i);
      rt::wake(t);
    } else {
      for t in self.wr.borrow_mut().drain(..) {
        rt::wake(t);
      }
    }
  }
  fn unlock_read(&self) {
    self.readers.set(self.readers.get() - 1);
    if self.readers.get() == 0 {
      self.freed();
    }
    rt::point("unread", self.id.get());
  }
  fn downgrade(&self) {
    self.writer.set(false);
    self.readers.set(1);
    // as in std: the waiting readers are let in only if no writer waits
    if rt::active() && self.ww.borrow().is_empty() {
      for t in self.wr.borrow_mut().drain(..) {
        rt::wake(t);
      }
    }
    rt::point("downgrade", self.id.get());
  }
  fn unlock_write(&self) {
    self.writer.set(false);
    self.freed();
    rt::point("unwrite", self.id.get());
  }
}

pub struct RwLock<T: ?Sized> {
  raw: RawRw,
  poison: Cell<bool>,
  data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
impl<T: ?Sized> std::panic::UnwindSafe for RwLock<T> {}
impl<T: ?Sized> std::panic::RefUnwindSafe for RwLock<T> {}

pub struct RwLockReadGuard<'a, T: ?Sized + 'a> {
  lock: &'a RwLock<T>,
  _p: std::marker::PhantomData<*const ()>,
}
pub struct RwLockWriteGuard<'a, T: ?Sized + 'a> {
  lock: &'a RwLock<T>,
  panicking: bool,
  _p: std::marker::PhantomData<*const ()>,
}
impl<'a, T: ?Sized> RwLockWriteGuard<'a, T> {
  pub fn downgrade(s: Self) -> RwLockReadGuard<'a, T> {
    let lock = s.lock;
    if !s.panicking && std::thread::panicking() {
      lock.poison.set(true);
    }
    std::mem::forget(s);
    lock.raw.downgrade();
    rt::held(lock.raw.id.get());
    RwLockReadGuard { lock, _p: std::marker::PhantomData }
  }
}
impl<T: ?Sized + fmt::Display> fmt::Display for RwLockReadGuard<'_, T> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    (**self).fmt(f)
  }
}
impl<T: ?Sized + fmt::Display> fmt::Display for RwLockWriteGuard<'_, T> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    (**self).fmt(f)
  }
}
impl<T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'_, T> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    (**self).fmt(f)
  }
}
unsafe impl<T: ?Sized + Sync> Sync for RwLockReadGuard<'_, T> {}
unsafe impl<T: ?Sized + Sync> Sync for RwLockWriteGuard<'_, T> {}

impl<T> RwLock<T> {
  pub const fn new(t: T) -> RwLock<T> {
    RwLock { raw: RawRw::new(), poison: Cell::new(false), data: UnsafeCell::new(t) }
  }
  pub fn into_inner(self) -> LockResult<T> {
    let p = self.poison.get();
    let d = self.data.into_inner();
    if p {
      Err(PoisonError::new(d))
    } else {
      Ok(d)
    }
  }
}
impl<T: ?Sized> RwLock<T> {
  fn rg(&self) -> LockResult<RwLockReadGuard<'_, T>> {
    let g = RwLockReadGuard { lock: self, _p: std::marker::PhantomData };
    if self.poison.get() {
      Err(PoisonError::new(g))
    } else {
      Ok(g)
    }
  }
  fn wg(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
    let g = RwLockWriteGuard { lock: self, panicking: std::thread::panicking(), _p: std::marker::PhantomData };
    if self.poison.get() {
      Err(PoisonError::new(g))
    } else {
      Ok(g)
    }
  }
  pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
    self.raw.read();
    rt::held(self.raw.id.get());
    self.rg()
  }
  pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
    self.raw.write();
    rt::held(self.raw.id.get());
    self.wg()
  }
  pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
    if self.raw.try_read() {
      rt::held(self.raw.id.get());
      self.rg().map_err(TryLockError::Poisoned)
    } else {
      Err(TryLockError::WouldBlock)
    }
  }
  pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
    if self.raw.try_write() {
      rt::held(self.raw.id.get());
      self.wg().map_err(TryLockError::Poisoned)
    } else {
      Err(TryLockError::WouldBlock)
    }
  }
  pub fn is_poisoned(&self) -> bool {
    self.poison.get()
  }
  pub fn clear_poison(&self) {
    self.poison.set(false)
  }
  pub fn get_mut(&mut self) -> LockResult<&mut T> {
    let p = self.poison.get();
    let d = self.data.get_mut();
    if p {
      Err(PoisonError::new(d))
    } else {
      Ok(d)
    }
  }
}
impl<T: Default> Default for RwLock<T> {
  fn default() -> Self {
    RwLock::new(T::default())
  }
}
impl<T> From<T> for RwLock<T> {
  fn from(t: T) -> Self {
    RwLock::new(t)
  }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    f.debug_struct("RwLock").finish_non_exhaustive()
  }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
  type Target = T;
  fn deref(&self) -> &T {
    unsafe { &*self.lock.data.get() }
  }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
  type Target = T;
  fn deref(&self) -> &T {
    unsafe { &*self.lock.data.get() }
  }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
  fn deref_mut(&mut self) -> &mut T {
    unsafe { &mut *self.lock.data.get() }
  }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockReadGuard<'_, T> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    (**self).fmt(f)
  }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockWriteGuard<'_, T> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    (**self).fmt(f)
  }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
  fn drop(&mut self) {
    self.lock.raw.unlock_read();
  }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
  fn drop(&mut self) {
    if !self.panicking && std::thread::panicking() {
      self.lock.poison.set(true);
    }
    self.lock.raw.unlock_write();
  }
}

// ------------------------------------------------------------ Mutex

pub struct Mutex<T: ?Sized> {
  id: Id,
  locked: Cell<bool>,
  waiters: RefCell<Vec<usize>>,
  poison: Cell<bool>,
  data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
impl<T: ?Sized> std::panic::UnwindSafe for Mutex<T> {}
impl<T: ?Sized> std::panic::RefUnwindSafe for Mutex<T> {}

pub struct MutexGuard<'a, T: ?Sized + 'a> {
  lock: &'a Mutex<T>,
  panicking: bool,
  _p: std::marker::PhantomData<*const ()>,
}
unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}

impl<T> Mutex<T> {
  pub const fn new(t: T) -> Mutex<T> {
    Mutex {
      id: Id::new(),
      locked: Cell::new(false),
      waiters: RefCell::new(Vec::new()),
      poison: Cell::new(false),
      data: UnsafeCell::new(t),
    }
  }
  pub fn into_inner(self) -> LockResult<T> {
    let p = self.poison.get();
    let d = self.data.into_inner();
    if p {
      Err(PoisonError::new(d))
    } else {
      Ok(d)
    }
  }
}
impl<T: ?Sized> Mutex<T> {
  fn acquire(&self) {
    loop {
      if !self.locked.get() {
        self.locked.set(true);
        return;
      }
      if !rt::active() {
        outside()
      }
      self.waiters.borrow_mut().push(me());
      rt::block(Wait::Mutex, self.id.get(), None);
    }
  }
  fn release(&self) {
    self.locked.set(false);
    if rt::active() {
      let mut w = self.waiters.borrow_mut();
      if !w.is_empty() {
        let i = rt::env_choice(w.len());
        let t = w.remove(i);
        rt::wake(t);
      }
    }
  }
  fn guard(&self) -> LockResult<MutexGuard<'_, T>> {
    let g = MutexGuard { lock: self, panicking: std::thread::panicking(), _p: std::marker::PhantomData };
    if self.poison.get() {
      Err(PoisonError::new(g))
    } else {
      Ok(g)
    }
  }
  pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
    rt::point("lock", self.id.get());
    self.acquire();
    rt::held(self.id.get());
    self.guard()
  }
  pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
    rt::tries();
    rt::point("try_lock", self.id.get());
    if self.locked.get() {
      Err(TryLockError::WouldBlock)
    } else {
      self.locked.set(true);
      rt::held(self.id.get());
      self.guard().map_err(TryLockError::Poisoned)
    }
  }
  pub fn is_poisoned(&self) -> bool {
    self.poison.get()
  }
  pub fn clear_poison(&self) {
    self.poison.set(false)
  }
  pub fn get_mut(&mut self) -> LockResult<&mut T> {
    let p = self.poison.get();
    let d = self.data.get_mut();
    if p {
      Err(PoisonError::new(d))
    } else {
      Ok(d)
    }
  }
}
impl<T: Default> Default for Mutex<T> {
  fn default() -> Self {
    Mutex::new(T::default())
  }
}
impl<T> From<T> for Mutex<T> {
  fn from(t: T) -> Self {
    Mutex::new(t)
  }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    f.debug_struct("Mutex").finish_non_exhaustive()
  }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
  type Target = T;
  fn deref(&self) -> &T {
    unsafe { &*self.lock.data.get() }
  }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
  fn deref_mut(&mut self) -> &mut T {
    unsafe { &mut *self.lock.data.get() }
  }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    (**self).fmt(f)
  }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
  fn drop(&mut self) {
    if !self.panicking && std::thread::panicking() {
      self.lock.poison.set(true);
    }
    self.lock.release();
    rt::point("unlock", self.lock.id.get());
  }
}

// ------------------------------------------------------------ Condvar

pub struct Condvar {
  id: Id,
  waiters: RefCell<Vec<usize>>,
}
unsafe impl Send for Condvar {}
unsafe impl Sync for Condvar {}
impl std::panic::UnwindSafe for Condvar {}
impl std::panic::RefUnwindSafe for Condvar {}

#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
  pub fn timed_out(&self) -> bool {
    self.0
  }
}

impl Condvar {
  pub const fn new() -> Condvar {
    Condvar { id: Id::new(), waiters: RefCell::new(Vec::new()) }
  }
  /// true if timed out
  fn sleep<T: ?Sized>(&self, m: &Mutex<T>, deadline: Option<u64>) -> bool {
    if !rt::active() {
      outside()
    }
    rt::note("cv_wait", self.id.get());
    if rt::spurious_now() {
      m.release();
      rt::yield_now();
      rt::point("relock", m.id.get());
      m.acquire();
      return false;
    }
    let t = me();
    self.waiters.borrow_mut().push(t);
    m.release();
    rt::block(Wait::Condvar, self.id.get(), deadline);
    let to = rt::timed_out();
    self.waiters.borrow_mut().retain(|x| *x != t);
    rt::point("relock", m.id.get());
    m.acquire();
    to
  }
  pub fn wait<'a, T: ?Sized>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
    let m = g.lock;
    std::mem::forget(g);
    self.sleep(m, None);
    m.guard()
  }
  pub fn wait_while<'a, T: ?Sized, F>(&self, mut g: MutexGuard<'a, T>, mut cond: F) -> LockResult<MutexGuard<'a, T>>
  where
    F: FnMut(&mut T) -> bool,
  {
    while cond(&mut *g) {
      g = self.wait(g)?;
    }
    Ok(g)
  }
  pub fn wait_timeout<'a, T: ?Sized>(
    &self,
    g: MutexGuard<'a, T>,
    d: Duration,
  ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
    let m = g.lock;
    std::mem::forget(g);
    let dl = rt::now().saturating_add(d.as_nanos().min(u64::MAX as u128 / 4) as u64);
    let to = self.sleep(m, Some(dl));
    match m.guard() {
      Ok(g) => Ok((g, WaitTimeoutResult(to))),
      Err(e) => Err(PoisonError::new((e.into_inner(), WaitTimeoutResult(to)))),
    }
  }
  pub fn wait_timeout_ms<'a, T: ?Sized>(&self, g: MutexGuard<'a, T>, ms: u32) -> LockResult<(MutexGuard<'a, T>, bool)> {
    match self.wait_timeout(g, Duration::from_millis(ms as u64)) {
      Ok((g, r)) => Ok((g, !r.timed_out())),
      Err(e) => {
        let (g, r) = e.into_inner();
        Err(PoisonError::new((g, !r.timed_out())))
      }
    }
  }
  pub fn wait_timeout_while<'a, T: ?Sized, F>(
    &self,
    mut g: MutexGuard<'a, T>,
    d: Duration,
    mut cond: F,
  ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)>
  where
    F: FnMut(&mut T) -> bool,
  {
    let end = rt::now().saturating_add(d.as_nanos().min(u64::MAX as u128 / 4) as u64);
    loop {
      if !cond(&mut *g) {
        return Ok((g, WaitTimeoutResult(false)));
      }
      let now = rt::now();
      if now >= end {
        return Ok((g, WaitTimeoutResult(true)));
      }
      g = self.wait_timeout(g, Duration::from_nanos(end - now))?.0;
    }
  }
  pub fn notify_one(&self) {
    if rt::active() {
      rt::note("notify_one", self.id.get());
      let mut w = self.waiters.borrow_mut();
      if !w.is_empty() {
        let i = rt::env_choice(w.len());
        let t = w.remove(i);
        rt::wake(t);
      }
      drop(w);
      rt::point("notified", self.id.get());
    }
  }
  pub fn notify_all(&self) {
    if rt::active() {
      rt::note("notify_all", self.id.get());
      for t in self.waiters.borrow_mut().drain(..) {
        rt::wake(t);
      }
      rt::point("notified", self.id.get());
    }
  }
}
impl Default for Condvar {
  fn default() -> Self {
    Condvar::new()
  }
}
impl fmt::Debug for Condvar {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    f.debug_struct("Condvar").finish_non_exhaustive()
  }
}

// ------------------------------------------------------------ Barrier

pub struct Barrier {
  lock: Mutex<(usize, usize)>,
  cv: Condvar,
  n: usize,
}
#[derive(Debug)]
pub struct BarrierWaitResult(bool);
impl BarrierWaitResult {
  pub fn is_leader(&self) -> bool {
    self.0
  }
}
impl Barrier {
  pub const fn new(n: usize) -> Barrier {
    Barrier { lock: Mutex::new((0, 0)), cv: Condvar::new(), n }
  }
  pub fn wait(&self) -> BarrierWaitResult {
    let mut g = self.lock.lock().unwrap();
    let gen = g.1;
    g.0 += 1;
    if g.0 < self.n {
      let _g = self.cv.wait_while(g, |s| s.1 == gen).unwrap();
      BarrierWaitResult(false)
    } else {
      g.0 = 0;
      g.1 += 1;
      self.cv.notify_all();
      BarrierWaitResult(true)
    }
  }
}

// ------------------------------------------------------------ Once and friends

pub struct Once {
  lock: Mutex<u8>,
  cv: Condvar,
}
pub struct OnceState(());
impl OnceState {
  pub fn is_poisoned(&self) -> bool {
    false
  }
}
impl Once {
  pub const fn new() -> Once {
    Once { lock: Mutex::new(0), cv: Condvar::new() }
  }
  pub fn call_once<F: FnOnce()>(&self, f: F) {
    {
      let g = self.lock.lock().unwrap();
      let mut g = self.cv.wait_while(g, |s| *s == 1).unwrap();
      if *g == 2 {
        return;
      }
      *g = 1;
    }
    f();
    *self.lock.lock().unwrap() = 2;
    self.cv.notify_all();
  }
  pub fn call_once_force<F: FnOnce(&OnceState)>(&self, f: F) {
    self.call_once(|| f(&OnceState(())))
  }
  pub fn is_completed(&self) -> bool {
    *self.lock.lock().unwrap() == 2
  }
}

pub struct OnceLock<T> {
  once: Once,
  v: UnsafeCell<Option<T>>,
}
unsafe impl<T: Send> Send for OnceLock<T> {}
unsafe impl<T: Send + Sync> Sync for OnceLock<T> {}
impl<T> OnceLock<T> {
  pub const fn new() -> Self {
    OnceLock { once: Once::new(), v: UnsafeCell::new(None) }
  }
  pub fn get(&self) -> Option<&T> {
    if self.once.is_completed() {
      unsafe { (*self.v.get()).as_ref() }
    } else {
      None
    }
  }
  pub fn get_mut(&mut self) -> Option<&mut T> {
    self.v.get_mut().as_mut()
  }
  pub fn set(&self, t: T) -> Result<(), T> {
    let mut t = Some(t);
    self.once.call_once(|| unsafe { *self.v.get() = t.take() });
    match t {
      None => Ok(()),
      Some(t) => Err(t),
    }
  }
  pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
    self.once.call_once(|| unsafe { *self.v.get() = Some(f()) });
    self.get().unwrap()
  }
  pub fn into_inner(self) -> Option<T> {
    self.v.into_inner()
  }
  pub fn take(&mut self) -> Option<T> {
    let v = self.v.get_mut().take();
    self.once = Once::new();
    v
  }
}
impl<T> From<T> for OnceLock<T> {
  fn from(t: T) -> Self {
    let n = OnceLock::new();
    let _ = n.set(t);
    n
  }
}
impl<T: PartialEq> PartialEq for OnceLock<T> {
  fn eq(&self, o: &Self) -> bool {
    self.get() == o.get()
  }
}
impl<T: Eq> Eq for OnceLock<T> {}
impl<T: std::panic::UnwindSafe> std::panic::UnwindSafe for OnceLock<T> {}
impl<T: std::panic::UnwindSafe + std::panic::RefUnwindSafe> std::panic::RefUnwindSafe for OnceLock<T> {}
impl<T> Default for OnceLock<T> {
  fn default() -> Self {
    OnceLock::new()
  }
}
impl<T: Clone> Clone for OnceLock<T> {
  fn clone(&self) -> Self {
    let n = OnceLock::new();
    if let Some(v) = self.get() {
      let _ = n.set(v.clone());
    }
    n
  }
}
impl<T: fmt::Debug> fmt::Debug for OnceLock<T> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    f.debug_struct("OnceLock").finish_non_exhaustive()
  }
}
