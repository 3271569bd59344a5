//! The clock of the simulated process.
pub mod time {
    pub use std::time::Duration;
    #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
    pub struct Instant(pub Duration);
    impl Instant {
        pub fn now() -> Instant {
            let w = crate::world::w();
            w.tick();
            Instant(Duration::from_nanos(w.now))
        }
        pub fn ns(&self) -> u64 {
            self.0.as_nanos().min(u64::MAX as u128) as u64
        }
        pub fn saturating_duration_since(&self, o: Instant) -> Duration {
            self.0.saturating_sub(o.0)
        }
        pub fn duration_since(&self, o: Instant) -> Duration {
            self.0.saturating_sub(o.0)
        }
        pub fn checked_duration_since(&self, o: Instant) -> Option<Duration> {
            self.0.checked_sub(o.0)
        }
        pub fn elapsed(&self) -> Duration {
            Instant::now().0.saturating_sub(self.0)
        }
        pub fn checked_add(&self, d: Duration) -> Option<Instant> {
            // as far as the real clock's seconds reach
            self.0.checked_add(d).filter(|t| t.as_secs() < i64::MAX as u64 - 2_000_000_000).map(Instant)
        }
    }
    impl std::ops::Add<Duration> for Instant {
        type Output = Instant;
        fn add(self, d: Duration) -> Instant {
            self.checked_add(d).expect("overflow when adding duration to instant")
        }
    }
    impl std::ops::Sub<Instant> for Instant {
        type Output = Duration;
        fn sub(self, o: Instant) -> Duration {
            self.0.saturating_sub(o.0)
        }
    }
}
