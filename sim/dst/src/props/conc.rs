//! Helpers shared by the multi-threaded scenarios.
use crate::viol;
use simstd::rt::{self, State, Wait};

pub const MS: u64 = 1_000_000;

/// Let everything run until nothing can run before `max_ns` more virtual
/// nanoseconds, then report threads that can never continue.
pub fn settle(max_ns: u64) {
  rt::quiesce(max_ns);
  stuck();
}
/// Fail if some thread waits for a lock (nobody can release it any more) or a
/// harness thread is blocked without a deadline.
pub fn stuck() {
  for l in rt::live() {
    if rt::is_lock_wait(&l.state) {
      viol!("deadlock", "thread {} ({}) waits for a lock that nobody will release: {}", l.id, l.name.clone().unwrap_or_default(), rt::describe());
    }
    if l.harness {
      if let State::Blocked { deadline: None, on, .. } = l.state {
        if on != Wait::Idle {
          viol!("deadlock", "harness thread {} never returned from a library call: {}", l.id, rt::describe());
        }
      }
    }
  }
}
pub fn lib_threads() -> Vec<rt::Live> {
  rt::live().into_iter().filter(|l| !l.harness).collect()
}
pub fn spawn(name: &str, f: impl FnOnce() + 'static) -> simstd::thread::JoinHandle<()> {
  struct S<F>(F);
  unsafe impl<F> Send for S<F> {}
  impl<F: FnOnce()> S<F> {
    fn call(self) {
      (self.0)()
    }
  }
  let s = S(f);
  simstd::thread::spawn_harness(name, move || s.call())
}
