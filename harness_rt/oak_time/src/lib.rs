//! Stand-in for Oak's clock.

/// Milliseconds since the epoch.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Instant(i64);

impl Instant {
    pub const fn from_unix_millis(millis: i64) -> Self {
        Instant(millis)
    }
    pub const fn into_unix_millis(self) -> i64 {
        self.0
    }
}

pub const UNIX_EPOCH: Instant = Instant(0);

pub trait Clock: Send + Sync {
    fn get_time(&self) -> Instant;
}
