//! Offline stand-in for `vmap`: maps a file by reading it (through std::fs, hence through the simulator's seam).
use std::io;
use std::path::Path;

#[derive(Debug)]
pub struct Map(Vec<u8>);

#[derive(Debug)]
pub struct Options;

impl Map {
    pub fn with_options() -> Options {
        Options
    }
}

impl Options {
    pub fn open<P: AsRef<Path>>(&self, path: P) -> io::Result<(Map, usize)> {
        let data = std::fs::read(path)?;
        let len = data.len();
        Ok((Map(data), len))
    }
}

impl AsRef<[u8]> for Map {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}

impl std::ops::Deref for Map {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}
