use std::time::{Duration, Instant};
#[derive(Clone, Copy, Debug)]
pub struct ProcessTime(Instant);
impl ProcessTime {
    pub fn now() -> Self { Self(Instant::now()) }
    pub fn elapsed(&self) -> Duration { self.0.elapsed() }
}
