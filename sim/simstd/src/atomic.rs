//! std::sync::atomic with a scheduling point before every operation.
pub use ::std::sync::atomic::{compiler_fence, Ordering};
use ::std::sync::atomic as real;
use super::Id;
use crate::rt;

pub fn fence(_o: Ordering) {
  rt::point("fence", 0);
}

macro_rules! base {
  ($name:ident, $t:ty) => {
    pub struct $name {
      id: Id,
      v: real::$name,
    }
    unsafe impl Send for $name {}
    unsafe impl Sync for $name {}
    impl std::panic::RefUnwindSafe for $name {}
    impl $name {
      pub const fn new(v: $t) -> Self {
        $name { id: Id::new(), v: real::$name::new(v) }
      }
      fn p(&self, op: &'static str) {
        if rt::active() {
          rt::point(op, self.id.get());
        }
      }
      pub fn load(&self, _o: Ordering) -> $t {
        self.p("a_load");
        self.v.load(Ordering::SeqCst)
      }
      pub fn store(&self, v: $t, _o: Ordering) {
        self.p("a_store");
        self.v.store(v, Ordering::SeqCst)
      }
      pub fn swap(&self, v: $t, _o: Ordering) -> $t {
        self.p("a_swap");
        self.v.swap(v, Ordering::SeqCst)
      }
      pub fn compare_exchange(&self, a: $t, b: $t, _s: Ordering, _f: Ordering) -> Result<$t, $t> {
        self.p("a_cas");
        self.v.compare_exchange(a, b, Ordering::SeqCst, Ordering::SeqCst)
      }
      pub fn compare_exchange_weak(&self, a: $t, b: $t, _s: Ordering, _f: Ordering) -> Result<$t, $t> {
        self.p("a_cas");
        self.v.compare_exchange(a, b, Ordering::SeqCst, Ordering::SeqCst)
      }
      pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, _s: Ordering, _f: Ordering, f: F) -> Result<$t, $t> {
        self.p("a_upd");
        self.v.fetch_update(Ordering::SeqCst, Ordering::SeqCst, f)
      }
      pub fn get_mut(&mut self) -> &mut $t {
        self.v.get_mut()
      }
      pub const fn into_inner(self) -> $t {
        self.v.into_inner()
      }
      pub const fn as_ptr(&self) -> *mut $t {
        self.v.as_ptr()
      }
      pub fn update(&self, _s: Ordering, _f: Ordering, mut f: impl FnMut($t) -> $t) -> $t {
        self.p("a_upd");
        let v = self.v.load(Ordering::SeqCst);
        self.v.store(f(v), Ordering::SeqCst);
        v
      }
      pub fn try_update(&self, _s: Ordering, _f: Ordering, f: impl FnMut($t) -> Option<$t>) -> Result<$t, $t> {
        self.p("a_upd");
        self.v.fetch_update(Ordering::SeqCst, Ordering::SeqCst, f)
      }
    }
    impl Default for $name {
      fn default() -> Self {
        Self::new(Default::default())
      }
    }
    impl From<$t> for $name {
      fn from(v: $t) -> Self {
        Self::new(v)
      }
    }
    impl std::fmt::Debug for $name {
      fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.v.fmt(f)
      }
    }
  };
}
macro_rules! int {
  ($name:ident, $t:ty) => {
    base!($name, $t);
    impl $name {
      pub fn fetch_add(&self, v: $t, _o: Ordering) -> $t {
        self.p("a_add");
        self.v.fetch_add(v, Ordering::SeqCst)
      }
      pub fn fetch_sub(&self, v: $t, _o: Ordering) -> $t {
        self.p("a_sub");
        self.v.fetch_sub(v, Ordering::SeqCst)
      }
      pub fn fetch_and(&self, v: $t, _o: Ordering) -> $t {
        self.p("a_and");
        self.v.fetch_and(v, Ordering::SeqCst)
      }
      pub fn fetch_or(&self, v: $t, _o: Ordering) -> $t {
        self.p("a_or");
        self.v.fetch_or(v, Ordering::SeqCst)
      }
      pub fn fetch_xor(&self, v: $t, _o: Ordering) -> $t {
        self.p("a_xor");
        self.v.fetch_xor(v, Ordering::SeqCst)
      }
      pub fn fetch_nand(&self, v: $t, _o: Ordering) -> $t {
        self.p("a_nand");
        self.v.fetch_nand(v, Ordering::SeqCst)
      }
      pub fn fetch_max(&self, v: $t, _o: Ordering) -> $t {
        self.p("a_max");
        self.v.fetch_max(v, Ordering::SeqCst)
      }
      pub fn fetch_min(&self, v: $t, _o: Ordering) -> $t {
        self.p("a_min");
        self.v.fetch_min(v, Ordering::SeqCst)
      }
    }
  };
}
base!(AtomicBool, bool);
impl AtomicBool {
  pub fn fetch_and(&self, v: bool, _o: Ordering) -> bool {
    self.p("a_and");
    self.v.fetch_and(v, Ordering::SeqCst)
  }
  pub fn fetch_or(&self, v: bool, _o: Ordering) -> bool {
    self.p("a_or");
    self.v.fetch_or(v, Ordering::SeqCst)
  }
  pub fn fetch_xor(&self, v: bool, _o: Ordering) -> bool {
    self.p("a_xor");
    self.v.fetch_xor(v, Ordering::SeqCst)
  }
  pub fn fetch_not(&self, _o: Ordering) -> bool {
    self.p("a_not");
    self.v.fetch_xor(true, Ordering::SeqCst)
  }
  pub fn fetch_nand(&self, v: bool, _o: Ordering) -> bool {
    self.p("a_nand");
    self.v.fetch_nand(v, Ordering::SeqCst)
  }
}
int!(AtomicI8, i8);
int!(AtomicI16, i16);
int!(AtomicI32, i32);
int!(AtomicI64, i64);
int!(AtomicIsize, isize);
int!(AtomicU8, u8);
int!(AtomicU16, u16);
int!(AtomicU32, u32);
int!(AtomicU64, u64);
int!(AtomicUsize, usize);

pub struct AtomicPtr<T> {
  id: Id,
  v: real::AtomicPtr<T>,
}
unsafe impl<T> Send for AtomicPtr<T> {}
unsafe impl<T> Sync for AtomicPtr<T> {}
impl<T> AtomicPtr<T> {
  pub const fn new(p: *mut T) -> Self {
    AtomicPtr { id: Id::new(), v: real::AtomicPtr::new(p) }
  }
  fn p(&self, op: &'static str) {
    if rt::active() {
      rt::point(op, self.id.get());
    }
  }
  pub fn load(&self, _o: Ordering) -> *mut T {
    self.p("a_load");
    self.v.load(Ordering::SeqCst)
  }
  pub fn store(&self, p: *mut T, _o: Ordering) {
    self.p("a_store");
    self.v.store(p, Ordering::SeqCst)
  }
  pub fn swap(&self, p: *mut T, _o: Ordering) -> *mut T {
    self.p("a_swap");
    self.v.swap(p, Ordering::SeqCst)
  }
  pub fn compare_exchange(&self, a: *mut T, b: *mut T, _s: Ordering, _f: Ordering) -> Result<*mut T, *mut T> {
    self.p("a_cas");
    self.v.compare_exchange(a, b, Ordering::SeqCst, Ordering::SeqCst)
  }
  pub fn compare_exchange_weak(&self, a: *mut T, b: *mut T, _s: Ordering, _f: Ordering) -> Result<*mut T, *mut T> {
    self.p("a_cas");
    self.v.compare_exchange(a, b, Ordering::SeqCst, Ordering::SeqCst)
  }
  pub fn fetch_update<F: FnMut(*mut T) -> Option<*mut T>>(
    &self,
    _s: Ordering,
    _f: Ordering,
    f: F,
  ) -> Result<*mut T, *mut T> {
    self.p("a_upd");
    self.v.fetch_update(Ordering::SeqCst, Ordering::SeqCst, f)
  }
  pub fn get_mut(&mut self) -> &mut *mut T {
    self.v.get_mut()
  }
  pub const fn into_inner(self) -> *mut T {
    self.v.into_inner()
  }
  pub const fn as_ptr(&self) -> *mut *mut T {
    self.v.as_ptr()
  }
}
impl<T> Default for AtomicPtr<T> {
  fn default() -> Self {
    Self::new(std::ptr::null_mut())
  }
}
impl<T> From<*mut T> for AtomicPtr<T> {
  fn from(p: *mut T) -> Self {
    Self::new(p)
  }
}
impl<T> std::panic::RefUnwindSafe for AtomicPtr<T> {}
impl<T> std::fmt::Debug for AtomicPtr<T> {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    self.v.fmt(f)
  }
}
