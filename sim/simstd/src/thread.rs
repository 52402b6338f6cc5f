//! std::thread on simulated threads.
pub use ::std::thread::{available_parallelism, panicking, Result};
use crate::rt::{self, Wait};
use std::cell::UnsafeCell;
use std::io;
use std::marker::PhantomData;
use std::sync::Arc;
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct ThreadId(u64);

#[derive(Clone, Debug)]
pub struct Thread {
  id: usize,
  name: Option<String>,
}
impl Thread {
  pub fn id(&self) -> ThreadId {
    ThreadId(self.id as u64 + 1)
  }
  pub fn name(&self) -> Option<&str> {
    self.name.as_deref()
  }
  pub fn unpark(&self) {
    let t = rt::thread(self.id);
    if let rt::State::Blocked { on: Wait::Park, .. } = t.state {
      rt::wake(self.id);
    }
    t.park_token = true;
    rt::point("unpark", self.id as u32);
  }
}
pub fn current() -> Thread {
  if !rt::active() {
    return Thread { id: usize::MAX >> 1, name: None };
  }
  let id = rt::cur();
  Thread { id, name: rt::thread(id).name.clone() }
}

struct Packet<T>(UnsafeCell<Option<T>>);
unsafe impl<T> Send for Packet<T> {}
unsafe impl<T> Sync for Packet<T> {}

pub struct JoinHandle<T> {
  id: usize,
  name: Option<String>,
  p: Arc<Packet<T>>,
}
unsafe impl<T> Send for JoinHandle<T> {}
unsafe impl<T> Sync for JoinHandle<T> {}
impl<T> JoinHandle<T> {
  pub fn join(self) -> Result<T> {
    rt::join(self.id);
    match unsafe { (*self.p.0.get()).take() } {
      Some(v) => Ok(v),
      None => Err(Box::new("simulated thread panicked")),
    }
  }
  pub fn thread(&self) -> &Thread {
    Box::leak(Box::new(Thread { id: self.id, name: self.name.clone() }))
  }
  pub fn is_finished(&self) -> bool {
    rt::point("is_finished", 0);
    rt::is_finished(self.id)
  }
}
impl<T> std::fmt::Debug for JoinHandle<T> {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    f.write_str("JoinHandle")
  }
}

fn start<'a, F, T>(f: F, name: Option<String>, harness: bool) -> JoinHandle<T>
where
  F: FnOnce() -> T + 'a,
  T: 'a,
{
  let p = Arc::new(Packet(UnsafeCell::new(None)));
  let p2 = p.clone();
  let b: Box<dyn FnOnce() + 'a> = Box::new(move || {
    let v = f();
    unsafe { *p2.0.get() = Some(v) };
  });
  let b: Box<dyn FnOnce() + 'static> = unsafe { std::mem::transmute(b) };
  let id = rt::spawn(b, name.clone(), harness);
  JoinHandle { id, name, p }
}

pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
  F: FnOnce() -> T + Send + 'static,
  T: Send + 'static,
{
  start(f, None, false)
}
/// Spawn a thread that belongs to the test program, not to the library.
pub fn spawn_harness<F, T>(name: &str, f: F) -> JoinHandle<T>
where
  F: FnOnce() -> T + 'static,
  T: 'static,
{
  start(f, Some(name.to_string()), true)
}

#[derive(Debug, Default)]
pub struct Builder {
  name: Option<String>,
}
impl Builder {
  pub fn new() -> Builder {
    Builder { name: None }
  }
  pub fn name(mut self, n: String) -> Builder {
    self.name = Some(n);
    self
  }
  pub fn stack_size(self, _s: usize) -> Builder {
    self
  }
  pub fn spawn<F, T>(self, f: F) -> io::Result<JoinHandle<T>>
  where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
  {
    Ok(start(f, self.name, false))
  }
  pub fn spawn_scoped<'scope, 'env, F, T>(
    self,
    scope: &'scope Scope<'scope, 'env>,
    f: F,
  ) -> io::Result<ScopedJoinHandle<'scope, T>>
  where
    F: FnOnce() -> T + Send + 'scope,
    T: Send + 'scope,
  {
    Ok(scope.start(f, self.name))
  }
}

pub fn sleep(d: Duration) {
  if !rt::active() {
    panic!("sleep outside the simulation");
  }
  rt::sleep_ns(d.as_nanos().min(u64::MAX as u128 / 4) as u64);
}
pub fn sleep_ms(ms: u32) {
  sleep(Duration::from_millis(ms as u64))
}
pub fn yield_now() {
  rt::yield_now();
}
pub fn park() {
  rt::point("park", 0);
  let t = rt::thread(rt::cur());
  if t.park_token {
    t.park_token = false;
    return;
  }
  if rt::spurious_now() {
    rt::yield_now();
    return;
  }
  rt::block(Wait::Park, 0, None);
  rt::thread(rt::cur()).park_token = false;
}
pub fn park_timeout(d: Duration) {
  rt::point("park", 0);
  let t = rt::thread(rt::cur());
  if t.park_token {
    t.park_token = false;
    return;
  }
  let dl = rt::now().saturating_add(d.as_nanos().min(u64::MAX as u128 / 4) as u64);
  rt::block(Wait::Park, 0, Some(dl));
  rt::thread(rt::cur()).park_token = false;
}

// ------------------------------------------------------------ scope

pub struct Scope<'scope, 'env: 'scope> {
  ids: std::cell::RefCell<Vec<usize>>,
  _s: PhantomData<&'scope mut &'scope ()>,
  _e: PhantomData<&'env mut &'env ()>,
}
pub struct ScopedJoinHandle<'scope, T>(JoinHandle<T>, PhantomData<&'scope ()>);
impl<T> ScopedJoinHandle<'_, T> {
  pub fn join(self) -> Result<T> {
    self.0.join()
  }
  pub fn is_finished(&self) -> bool {
    self.0.is_finished()
  }
  pub fn thread(&self) -> &Thread {
    self.0.thread()
  }
}
impl<'scope, 'env> Scope<'scope, 'env> {
  pub fn spawn<F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
  where
    F: FnOnce() -> T + Send + 'scope,
    T: Send + 'scope,
  {
    self.start(f, None)
  }
  fn start<F, T>(&'scope self, f: F, name: Option<String>) -> ScopedJoinHandle<'scope, T>
  where
    F: FnOnce() -> T + Send + 'scope,
    T: Send + 'scope,
  {
    let h = start(f, name, false);
    self.ids.borrow_mut().push(h.id);
    ScopedJoinHandle(h, PhantomData)
  }
}
pub fn scope<'env, F, T>(f: F) -> T
where
  F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T,
{
  let s = Scope { ids: Default::default(), _s: PhantomData, _e: PhantomData };
  let s: &Scope<'_, 'env> = unsafe { &*(&s as *const Scope<'_, 'env>) };
  let r = f(s);
  let ids: Vec<usize> = s.ids.borrow().clone();
  for i in ids {
    rt::join(i);
  }
  r
}

// ------------------------------------------------------------ thread locals

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct AccessError;
impl std::fmt::Display for AccessError {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    f.write_str("already destroyed")
  }
}
impl std::error::Error for AccessError {}

/// Per-simulated-thread storage.
pub struct LocalKey<T: 'static> {
  #[doc(hidden)]
  pub init: fn() -> T,
}
impl<T: 'static> LocalKey<T> {
  fn slot(&'static self) -> *const T {
    let k = self as *const _ as usize;
    let t = rt::thread(rt::cur());
    if !t.locals.contains_key(&k) {
      let v: Box<dyn std::any::Any> = Box::new((self.init)());
      rt::thread(rt::cur()).locals.insert(k, v);
    }
    rt::thread(rt::cur()).locals[&k].downcast_ref::<T>().unwrap() as *const T
  }
  pub fn with<F, R>(&'static self, f: F) -> R
  where
    F: FnOnce(&T) -> R,
  {
    f(unsafe { &*self.slot() })
  }
  pub fn try_with<F, R>(&'static self, f: F) -> std::result::Result<R, AccessError>
  where
    F: FnOnce(&T) -> R,
  {
    Ok(self.with(f))
  }
}
impl<T: 'static> LocalKey<std::cell::Cell<T>> {
  pub fn set(&'static self, v: T) {
    self.with(|c| c.set(v))
  }
  pub fn get(&'static self) -> T
  where
    T: Copy,
  {
    self.with(|c| c.get())
  }
  pub fn take(&'static self) -> T
  where
    T: Default,
  {
    self.with(|c| c.take())
  }
  pub fn replace(&'static self, v: T) -> T {
    self.with(|c| c.replace(v))
  }
}
impl<T: 'static> LocalKey<std::cell::RefCell<T>> {
  pub fn with_borrow<F, R>(&'static self, f: F) -> R
  where
    F: FnOnce(&T) -> R,
  {
    self.with(|c| f(&c.borrow()))
  }
  pub fn with_borrow_mut<F, R>(&'static self, f: F) -> R
  where
    F: FnOnce(&mut T) -> R,
  {
    self.with(|c| f(&mut c.borrow_mut()))
  }
  pub fn set(&'static self, v: T) {
    self.with(|c| *c.borrow_mut() = v)
  }
  pub fn take(&'static self) -> T
  where
    T: Default,
  {
    self.with(|c| c.take())
  }
  pub fn replace(&'static self, v: T) -> T {
    self.with(|c| c.replace(v))
  }
}

#[macro_export]
macro_rules! thread_local {
  () => {};
  ($(#[$a:meta])* $v:vis static $n:ident : $t:ty = const $init:block $(; $($rest:tt)*)?) => {
    $(#[$a])* $v static $n: $crate::thread::LocalKey<$t> = $crate::thread::LocalKey { init: || $init };
    $($crate::thread_local! { $($rest)* })?
  };
  ($(#[$a:meta])* $v:vis static $n:ident : $t:ty = $init:expr $(; $($rest:tt)*)?) => {
    $(#[$a])* $v static $n: $crate::thread::LocalKey<$t> = $crate::thread::LocalKey { init: || $init };
    $($crate::thread_local! { $($rest)* })?
  };
}
