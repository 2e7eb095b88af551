//! Offline stand-in for `fd-lock` 4 (unix): an advisory flock(2) on the file, as the original does through rustix.
//! The flock call goes through libc, so the simulator decides when it blocks, fails or is interrupted.
use std::io::{Error, Result};
use std::ops::{Deref, DerefMut};
use std::os::fd::{AsFd, AsRawFd};

#[derive(Debug)]
pub struct RwLock<T: AsFd> {
    inner: T,
}

fn flock<T: AsFd>(f: &T, op: i32) -> Result<()> {
    let r = unsafe { libc::flock(f.as_fd().as_raw_fd(), op) };
    if r == 0 {
        Ok(())
    } else {
        Err(Error::last_os_error())
    }
}

impl<T: AsFd> RwLock<T> {
    pub fn new(inner: T) -> Self {
        RwLock { inner }
    }
    pub fn write(&mut self) -> Result<RwLockWriteGuard<'_, T>> {
        flock(&self.inner, libc::LOCK_EX)?;
        Ok(RwLockWriteGuard { lock: self })
    }
    pub fn try_write(&mut self) -> Result<RwLockWriteGuard<'_, T>> {
        flock(&self.inner, libc::LOCK_EX | libc::LOCK_NB)?;
        Ok(RwLockWriteGuard { lock: self })
    }
    pub fn read(&self) -> Result<RwLockReadGuard<'_, T>> {
        flock(&self.inner, libc::LOCK_SH)?;
        Ok(RwLockReadGuard { lock: self })
    }
    pub fn try_read(&self) -> Result<RwLockReadGuard<'_, T>> {
        flock(&self.inner, libc::LOCK_SH | libc::LOCK_NB)?;
        Ok(RwLockReadGuard { lock: self })
    }
    pub fn into_inner(self) -> T {
        self.inner
    }
}

#[derive(Debug)]
pub struct RwLockWriteGuard<'l, T: AsFd> {
    lock: &'l mut RwLock<T>,
}

#[derive(Debug)]
pub struct RwLockReadGuard<'l, T: AsFd> {
    lock: &'l RwLock<T>,
}

impl<T: AsFd> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.lock.inner
    }
}
impl<T: AsFd> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        &mut self.lock.inner
    }
}
impl<T: AsFd> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.lock.inner
    }
}
impl<T: AsFd> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        flock(&self.lock.inner, libc::LOCK_UN).ok();
    }
}
impl<T: AsFd> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        flock(&self.lock.inner, libc::LOCK_UN).ok();
    }
}
