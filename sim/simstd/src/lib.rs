//! Drop-in replacement for the crate name `std` inside the simulated library.
//! Everything not shadowed below is the real standard library.
#![allow(clippy::all)]
#![allow(static_mut_refs)]
#![allow(deprecated, dropping_copy_types, unused)]

pub use ::std::*;

pub mod rt;

#[path = "sync.rs"]
pub mod sync;
#[path = "thread.rs"]
pub mod thread;
#[path = "time.rs"]
pub mod time;

pub mod hint {
  pub use ::std::hint::*;
  pub fn spin_loop() {
    crate::rt::yield_now();
  }
}
