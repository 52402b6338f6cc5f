//! std::time on the virtual clock.
pub use ::std::time::{Duration, TryFromFloatSecsError};
use crate::rt;
use std::ops::{Add, AddAssign, Sub, SubAssign};

fn ns(d: Duration) -> i128 {
  d.as_nanos() as i128
}
fn dur(n: i128) -> Duration {
  Duration::new((n / 1_000_000_000) as u64, (n % 1_000_000_000) as u32)
}

/// What the real clocks can represent: 64 bits of seconds.
fn fit(n: i128) -> Option<i128> {
  if n.div_euclid(1_000_000_000).abs() <= i64::MAX as i128 {
    Some(n)
  } else {
    None
  }
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Instant(i128);
impl Instant {
  pub fn now() -> Instant {
    Instant(if rt::active() { rt::now() as i128 + 1_000_000_000_000 } else { 0 })
  }
  pub fn duration_since(&self, e: Instant) -> Duration {
    dur((self.0 - e.0).max(0))
  }
  pub fn checked_duration_since(&self, e: Instant) -> Option<Duration> {
    if self.0 >= e.0 {
      Some(dur(self.0 - e.0))
    } else {
      None
    }
  }
  pub fn saturating_duration_since(&self, e: Instant) -> Duration {
    self.duration_since(e)
  }
  pub fn elapsed(&self) -> Duration {
    Instant::now().duration_since(*self)
  }
  pub fn checked_add(&self, d: Duration) -> Option<Instant> {
    fit(self.0 + ns(d)).map(Instant)
  }
  pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
    fit(self.0 - ns(d)).map(Instant)
  }
}
impl Add<Duration> for Instant {
  type Output = Instant;
  fn add(self, d: Duration) -> Instant {
    self.checked_add(d).expect("overflow when adding duration to instant")
  }
}
impl AddAssign<Duration> for Instant {
  fn add_assign(&mut self, d: Duration) {
    *self = *self + d
  }
}
impl Sub<Duration> for Instant {
  type Output = Instant;
  fn sub(self, d: Duration) -> Instant {
    self.checked_sub(d).expect("overflow when subtracting duration from instant")
  }
}
impl SubAssign<Duration> for Instant {
  fn sub_assign(&mut self, d: Duration) {
    *self = *self - d
  }
}
impl Sub<Instant> for Instant {
  type Output = Duration;
  fn sub(self, o: Instant) -> Duration {
    self.duration_since(o)
  }
}

/// Nanoseconds since the epoch.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct SystemTime(i128);
#[derive(Clone, Debug)]
pub struct SystemTimeError(Duration);
impl SystemTimeError {
  pub fn duration(&self) -> Duration {
    self.0
  }
}
impl std::fmt::Display for SystemTimeError {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    f.write_str("second time provided was later than self")
  }
}
impl std::error::Error for SystemTimeError {}
pub const UNIX_EPOCH: SystemTime = SystemTime(0);
impl SystemTime {
  pub const UNIX_EPOCH: SystemTime = SystemTime(0);
  pub fn now() -> SystemTime {
    SystemTime(if rt::active() { rt::now_wall() } else { 0 })
  }
  pub fn duration_since(&self, e: SystemTime) -> Result<Duration, SystemTimeError> {
    if self.0 >= e.0 {
      Ok(dur(self.0 - e.0))
    } else {
      Err(SystemTimeError(dur(e.0 - self.0)))
    }
  }
  pub fn elapsed(&self) -> Result<Duration, SystemTimeError> {
    SystemTime::now().duration_since(*self)
  }
  pub fn checked_add(&self, d: Duration) -> Option<SystemTime> {
    fit(self.0 + ns(d)).map(SystemTime)
  }
  pub fn checked_sub(&self, d: Duration) -> Option<SystemTime> {
    fit(self.0 - ns(d)).map(SystemTime)
  }
}
impl Add<Duration> for SystemTime {
  type Output = SystemTime;
  fn add(self, d: Duration) -> SystemTime {
    self.checked_add(d).expect("overflow when adding duration to instant")
  }
}
impl AddAssign<Duration> for SystemTime {
  fn add_assign(&mut self, d: Duration) {
    *self = *self + d
  }
}
impl Sub<Duration> for SystemTime {
  type Output = SystemTime;
  fn sub(self, d: Duration) -> SystemTime {
    self.checked_sub(d).expect("overflow when subtracting duration from instant")
  }
}
impl SubAssign<Duration> for SystemTime {
  fn sub_assign(&mut self, d: Duration) {
    *self = *self - d
  }
}
