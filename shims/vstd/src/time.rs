//! `std::time` with a clock the harness sets.
pub use ::std::time::Duration;
use ::std::ops::{Add, AddAssign, Sub, SubAssign};

static mut NOW: Duration = Duration::from_secs(1000);
/// Let time pass.
pub fn advance(d: Duration) {
    unsafe { NOW += d }
}
pub fn set_now(d: Duration) {
    unsafe { NOW = d }
}
pub fn now() -> Duration {
    unsafe { NOW }
}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct Instant(Duration);
impl Instant {
    pub fn now() -> Self {
        Instant(now())
    }
    pub fn at(d: Duration) -> Self {
        Instant(d)
    }
    pub fn elapsed(&self) -> Duration {
        Self::now().saturating_duration_since(*self)
    }
    pub fn duration_since(&self, o: Instant) -> Duration {
        self.saturating_duration_since(o)
    }
    pub fn saturating_duration_since(&self, o: Instant) -> Duration {
        self.0.checked_sub(o.0).unwrap_or(Duration::ZERO)
    }
    pub fn checked_duration_since(&self, o: Instant) -> Option<Duration> {
        self.0.checked_sub(o.0)
    }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> {
        self.0.checked_add(d).map(Instant)
    }
    pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
        self.0.checked_sub(d).map(Instant)
    }
}
impl Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, d: Duration) -> Instant {
        self.checked_add(d).expect("overflow when adding duration to instant")
    }
}
impl AddAssign<Duration> for Instant {
    fn add_assign(&mut self, d: Duration) {
        *self = *self + d;
    }
}
impl Sub<Duration> for Instant {
    type Output = Instant;
    fn sub(self, d: Duration) -> Instant {
        self.checked_sub(d).expect("overflow when subtracting duration from instant")
    }
}
impl SubAssign<Duration> for Instant {
    fn sub_assign(&mut self, d: Duration) {
        *self = *self - d;
    }
}
impl Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, o: Instant) -> Duration {
        self.saturating_duration_since(o)
    }
}
pub use self::SystemTimeImpl as SystemTime;
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct SystemTimeImpl(Duration);
pub const UNIX_EPOCH: SystemTime = SystemTimeImpl(Duration::ZERO);
#[derive(Clone, Debug)]
pub struct SystemTimeError;
impl ::std::fmt::Display for SystemTimeError {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        f.write_str("time")
    }
}
impl ::std::error::Error for SystemTimeError {}
impl SystemTimeImpl {
    pub const UNIX_EPOCH: SystemTime = SystemTimeImpl(Duration::ZERO);
    pub fn now() -> Self {
        SystemTimeImpl(now())
    }
    pub fn duration_since(&self, o: Self) -> Result<Duration, SystemTimeError> {
        self.0.checked_sub(o.0).ok_or(SystemTimeError)
    }
    pub fn elapsed(&self) -> Result<Duration, SystemTimeError> {
        Self::now().duration_since(*self)
    }
}
