//! Stand-in for the `instant` crate on wasm32: a clock that never advances.
//! (Its only user here is the seeding of a random number generator.)
pub use std::time::Duration;
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Instant(u64);
impl Instant {
    pub fn now() -> Self {
        Instant(0)
    }
    pub fn elapsed(&self) -> Duration {
        Duration::ZERO
    }
}
impl std::ops::Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, d: Duration) -> Instant {
        Instant(self.0 + d.as_nanos() as u64)
    }
}
impl std::ops::Sub for Instant {
    type Output = Duration;
    fn sub(self, o: Instant) -> Duration {
        Duration::from_nanos(self.0 - o.0)
    }
}
impl Instant {
    pub fn checked_add(self, d: Duration) -> Option<Instant> {
        Some(self + d)
    }
    pub fn duration_since(&self, o: Instant) -> Duration {
        *self - o
    }
}
impl std::ops::AddAssign<Duration> for Instant {
    fn add_assign(&mut self, d: Duration) {
        *self = *self + d
    }
}
