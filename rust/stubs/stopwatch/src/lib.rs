use std::time::{Duration, Instant};
#[derive(Clone, Copy, Default)]
pub struct Stopwatch(Option<Instant>, Duration);
impl Stopwatch {
    pub fn new() -> Self { Self::default() }
    pub fn start_new() -> Self { Self(Some(Instant::now()), Duration::ZERO) }
    pub fn start(&mut self) { if self.0.is_none() { self.0 = Some(Instant::now()) } }
    pub fn stop(&mut self) { self.1 = self.elapsed(); self.0 = None }
    pub fn reset(&mut self) { *self = Self::default() }
    pub fn restart(&mut self) { *self = Self::start_new() }
    pub fn is_running(&self) -> bool { self.0.is_some() }
    pub fn elapsed(&self) -> Duration { self.1 + self.0.map_or(Duration::ZERO, |s| s.elapsed()) }
    pub fn elapsed_ms(&self) -> i64 { self.elapsed().as_millis() as i64 }
}
