//! Offline stand-in for `minidl`: the "shared library" is the scc-lib linked into the simulator, whose exported
//! functions were registered under their names.
use std::io;
use std::path::Path;
use std::sync::Mutex;

static SYMS: Mutex<Vec<(String, usize)>> = Mutex::new(Vec::new());

pub fn provide(name: &str, f: usize) {
    SYMS.lock().unwrap_or_else(|e| e.into_inner()).push((name.to_string(), f));
}

pub type Result<T> = std::result::Result<T, io::Error>;

#[derive(Debug, Clone, Copy)]
pub struct Library(());

impl Library {
    pub fn load(_: impl AsRef<Path>) -> Result<Self> {
        Ok(Library(()))
    }
    /// # Safety
    /// As the original: the caller names the right type.
    pub unsafe fn sym<'a, T: Copy>(&self, name: impl AsRef<str> + 'a) -> Result<T> {
        assert_eq!(std::mem::size_of::<T>(), std::mem::size_of::<usize>());
        let name = name.as_ref().trim_end_matches('\0');
        let syms = SYMS.lock().unwrap_or_else(|e| e.into_inner());
        match syms.iter().find(|(n, _)| n == name) {
            Some((_, f)) => Ok(std::mem::transmute_copy(f)),
            None => Err(io::Error::new(io::ErrorKind::NotFound, format!("no symbol {name}"))),
        }
    }
}
