//! Offline stand-in for `normpath` (only used on Windows by the code under test).
use std::io;
use std::path::{Path, PathBuf};

pub trait PathExt {
    fn normalize(&self) -> io::Result<PathBuf>;
}

impl PathExt for Path {
    fn normalize(&self) -> io::Result<PathBuf> {
        std::fs::canonicalize(self)
    }
}
