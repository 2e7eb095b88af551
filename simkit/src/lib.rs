//! Shared simulation kit: one recorded choice sequence decides everything in a run; runner with isolated worker
//! processes, minimiser, replay files and evidence.
pub mod choices;
pub mod engine;
pub mod entropy;
pub mod json;

pub use choices::{Choices, Rng};
pub use engine::{main_entry, Check, Ctx, Scenario, Violation};

/// FNV-1a, used for state and trace signatures (stable across builds and processes).
#[derive(Clone, Copy)]
pub struct Fnv(pub u64);
impl Fnv {
    pub fn new() -> Self {
        Fnv(0xcbf2_9ce4_8422_2325)
    }
    pub fn bytes(&mut self, b: &[u8]) -> &mut Self {
        for &x in b {
            self.0 = (self.0 ^ u64::from(x)).wrapping_mul(0x100_0000_01b3);
        }
        self
    }
    pub fn u64(&mut self, v: u64) -> &mut Self {
        self.bytes(&v.to_le_bytes())
    }
    pub fn str(&mut self, s: &str) -> &mut Self {
        self.bytes(s.as_bytes()).bytes(&[0xff])
    }
    pub fn get(&self) -> u64 {
        self.0
    }
}
impl Default for Fnv {
    fn default() -> Self {
        Self::new()
    }
}
pub fn fnv(b: &[u8]) -> u64 {
    Fnv::new().bytes(b).get()
}
