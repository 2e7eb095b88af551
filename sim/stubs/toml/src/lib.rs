//! `toml` 0.8 is not in the offline registry; 0.5.11 reads the same documents for the hint files used here.
pub use toml05::*;
