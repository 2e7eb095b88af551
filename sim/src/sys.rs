//! libc entry points, defined in this executable so that std and every crate linked into it end up here. Paths under
//! /simfs and descriptors of the simulated file system go to `simfs`; everything else goes to the kernel, except that
//! a simulated process may not change anything outside its file system: such calls are recorded and refused.
#![allow(clippy::missing_safety_doc)]
use crate::simfs::{self, block_on, enter, lock, pid, Act, Go, Guard, Ino, Node, Op, World, FD_BASE, R};
use libc::{c_char, c_int, c_long, c_uint, c_void, mode_t, off64_t, size_t, ssize_t};
use std::collections::BTreeMap;
use std::ffi::CStr;
use std::sync::Arc;

unsafe fn fail(e: i32) -> c_int {
    *libc::__errno_location() = e;
    -1
}
unsafe fn bytes<'a>(p: *const c_char) -> &'a [u8] {
    CStr::from_ptr(p).to_bytes()
}
fn ours_path(p: &[u8]) -> bool {
    simfs::strip_root(p).is_some()
}
fn ours_fd(fd: c_int) -> bool {
    fd >= FD_BASE
}
unsafe fn ours_at(dir: c_int, p: *const c_char) -> bool {
    let b = bytes(p);
    ours_path(b) || (ours_fd(dir) && b.first() != Some(&b'/'))
}
/// A simulated process reached for the real file system with a changing operation.
unsafe fn escape(op: &str, p: *const c_char) -> bool {
    if pid().is_none() {
        return false;
    }
    if let Some(w) = lock().as_mut() {
        w.escapes.insert((op.to_string(), String::from_utf8_lossy(bytes(p)).into_owned()));
    }
    true
}

/// World access by a simulated process (scheduled) or by the harness (immediate).
fn with<T>(op: Op, what: &dyn Fn() -> String, bytes: usize, f: impl FnOnce(&mut World, usize, Option<usize>) -> R<T>) -> R<T> {
    let p = pid();
    let Some(p) = p else {
        let mut g = lock();
        let Some(w) = g.as_mut() else { return Err(libc::ENOENT) };
        return f(w, usize::MAX, None);
    };
    // waiting for the turn must not show in errno
    let errno = unsafe { *libc::__errno_location() };
    let mut g = enter(p);
    let w = g.as_mut().expect("world");
    let r = gated(w, p, op, what, bytes, f);
    drop(g);
    unsafe { *libc::__errno_location() = errno };
    r
}

fn gated<T>(w: &mut World, p: usize, op: Op, what: &dyn Fn() -> String, bytes: usize, f: impl FnOnce(&mut World, usize, Option<usize>) -> R<T>) -> R<T> {
    let text = what();
    match w.gate(p, op, &text, bytes) {
        Go::Do => {
            let r = f(w, p, None);
            w.after(p, op);
            r
        }
        Go::Short(n) => {
            let r = f(w, p, Some(n));
            w.after(p, op);
            r
        }
        Go::Fail(e) => {
            if op == Op::Sync && !w.procs[p].zombie {
                // the pages are gone: what a failed fsync means on Linux
                if let Some(i) = text.rsplit(' ').next().and_then(|s| s.parse::<Ino>().ok()) {
                    w.fs.lose_pending(i);
                }
            }
            Err(e)
        }
        Go::DieAfter(n, power) => {
            if matches!(op, Op::Write | Op::Copy) {
                if n > 0 {
                    f(w, p, Some(n)).ok();
                    w.after(p, op);
                }
            } else if w.ctx.as_mut().expect("ctx").ch.coin() {
                // the operation itself may have happened
                f(w, p, None).ok();
                w.after(p, op);
            }
            if power {
                w.power();
            } else {
                w.kill(p);
            }
            Err(libc::EIO)
        }
    }
}

fn name_of(w: &World, i: Ino) -> String {
    format!("ino {i} len {}", w.fs.len(i))
}

fn base_of(w: &mut World, dir: c_int) -> R<Ino> {
    if ours_fd(dir) {
        Ok(w.desc(dir)?.ino)
    } else {
        Ok(1)
    }
}

fn writable(w: &World, i: Ino) -> R<()> {
    if w.fs.inodes[&i].mode & 0o200 == 0 {
        Err(libc::EACCES)
    } else {
        Ok(())
    }
}

// --- open ------------------------------------------------------------------------------------------------------------

unsafe fn open_sim(dir: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    let p = bytes(path).to_vec();
    let write = flags & libc::O_ACCMODE != libc::O_RDONLY;
    let op = if flags & (libc::O_CREAT | libc::O_TRUNC) != 0 { Op::Create } else { Op::Open };
    let r = with(op, &|| format!("{} {}{}", String::from_utf8_lossy(&p), if write { "w" } else { "r" }, if flags & libc::O_TRUNC != 0 { "t" } else { "" }), 0, |w, pid, _| {
        let start = base_of(w, dir)?;
        let (d, n, i) = w.fs.lookup(start, &p, flags & libc::O_NOFOLLOW == 0)?;
        let i = match i {
            Some(_) if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 => return Err(libc::EEXIST),
            Some(i) => {
                match &w.fs.inodes[&i].node {
                    Node::Dir(_) if write || flags & libc::O_CREAT != 0 => return Err(libc::EISDIR),
                    Node::File(_) if flags & libc::O_DIRECTORY != 0 => return Err(libc::ENOTDIR),
                    Node::Link(_) => return Err(libc::ELOOP),
                    _ => {}
                }
                if write {
                    writable(w, i)?;
                }
                if w.fs.inodes[&i].mode & 0o400 == 0 {
                    return Err(libc::EACCES);
                }
                i
            }
            None if flags & libc::O_CREAT != 0 => {
                writable(w, d)?;
                w.fs.create(d, &n, Node::File(Arc::new(vec![])), mode & 0o777)
            }
            None => return Err(libc::ENOENT),
        };
        if flags & libc::O_TRUNC != 0 && w.fs.len(i) > 0 {
            w.fs.set_len(i, 0);
        }
        Ok(w.open_fd(i, flags, pid))
    });
    r.unwrap_or_else(|e| fail(e))
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if ours_path(bytes(path)) {
        return open_sim(libc::AT_FDCWD, path, flags, mode);
    }
    if (flags & libc::O_ACCMODE != libc::O_RDONLY || flags & (libc::O_CREAT | libc::O_TRUNC) != 0) && escape("open", path) {
        return fail(libc::EACCES);
    }
    libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open64(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if ours_at(dir, path) {
        return open_sim(dir, path, flags, mode);
    }
    if (flags & libc::O_ACCMODE != libc::O_RDONLY || flags & (libc::O_CREAT | libc::O_TRUNC) != 0) && escape("open", path) {
        return fail(libc::EACCES);
    }
    libc::syscall(libc::SYS_openat, dir, path, flags, mode) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn openat(dir: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    openat64(dir, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if ours_fd(fd) {
        // closing is not a scheduling point, and Rust ignores its result
        if let Some(w) = lock().as_mut() {
            w.close(fd).ok();
        }
        return 0;
    }
    libc::syscall(libc::SYS_close, fd) as c_int
}

// --- data ------------------------------------------------------------------------------------------------------------

fn read_at(w: &mut World, fd: c_int, off: Option<usize>, n: usize) -> R<Vec<u8>> {
    let d = w.desc(fd)?;
    if d.flags & libc::O_ACCMODE == libc::O_WRONLY {
        return Err(libc::EBADF);
    }
    let (ino, pos) = (d.ino, off.unwrap_or(d.pos));
    let v = match &w.fs.inodes.get(&ino).ok_or(libc::EIO)?.node {
        Node::File(v) => v.clone(),
        _ => return Err(libc::EISDIR),
    };
    let end = v.len().min(pos.saturating_add(n));
    let out = v.get(pos..end).unwrap_or(&[]).to_vec();
    if off.is_none() {
        w.desc(fd)?.pos = pos + out.len();
    }
    Ok(out)
}
fn write_at(w: &mut World, fd: c_int, off: Option<usize>, b: &[u8]) -> R<usize> {
    let d = w.desc(fd)?;
    if d.flags & libc::O_ACCMODE == libc::O_RDONLY {
        return Err(libc::EBADF);
    }
    let (ino, append) = (d.ino, d.flags & libc::O_APPEND != 0);
    let pos = if append { w.fs.len(ino) } else { off.unwrap_or(w.desc(fd)?.pos) };
    let n = if b.is_empty() { 0 } else { w.fs.write_at(ino, pos, b)? };
    if off.is_none() {
        w.desc(fd)?.pos = pos + n;
    }
    Ok(n)
}
fn fd_text(fd: c_int) -> String {
    // the world is locked by the caller's `with`; the descriptor number is enough of a name
    format!("fd+{}", fd - FD_BASE)
}
unsafe fn sized(r: R<usize>) -> ssize_t {
    match r {
        Ok(n) => n as ssize_t,
        Err(e) => fail(e) as ssize_t,
    }
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if !ours_fd(fd) {
        return libc::syscall(libc::SYS_read, fd, buf, n) as ssize_t;
    }
    let r = with(Op::Read, &|| format!("{} {n}", fd_text(fd)), n, |w, _, cap| read_at(w, fd, None, cap.unwrap_or(n)));
    sized(r.map(|v| {
        std::ptr::copy_nonoverlapping(v.as_ptr(), buf.cast(), v.len());
        v.len()
    }))
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    if !ours_fd(fd) {
        return libc::syscall(libc::SYS_pread64, fd, buf, n, off) as ssize_t;
    }
    let r = with(Op::Read, &|| format!("{} {n}", fd_text(fd)), n, |w, _, cap| read_at(w, fd, Some(off as usize), cap.unwrap_or(n)));
    sized(r.map(|v| {
        std::ptr::copy_nonoverlapping(v.as_ptr(), buf.cast(), v.len());
        v.len()
    }))
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if !ours_fd(fd) {
        return libc::syscall(libc::SYS_readv, fd, iov, cnt) as ssize_t;
    }
    let v = std::slice::from_raw_parts(iov, cnt as usize);
    let n: usize = v.iter().map(|v| v.iov_len).sum();
    let r = with(Op::Read, &|| format!("{} {n}", fd_text(fd)), n, |w, _, cap| read_at(w, fd, None, cap.unwrap_or(n)));
    sized(r.map(|d| {
        let mut rest = &d[..];
        for v in v {
            let k = rest.len().min(v.iov_len);
            std::ptr::copy_nonoverlapping(rest.as_ptr(), v.iov_base.cast(), k);
            rest = &rest[k..];
        }
        d.len()
    }))
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if !ours_fd(fd) {
        if (fd == 1 || fd == 2) && pid().is_some() {
            // what a simulated process prints
            let b = std::slice::from_raw_parts(buf.cast::<u8>(), n);
            simfs::printed(b);
            return n as ssize_t;
        }
        return libc::syscall(libc::SYS_write, fd, buf, n) as ssize_t;
    }
    let b = std::slice::from_raw_parts(buf.cast::<u8>(), n);
    sized(with(Op::Write, &|| format!("{} {n}", fd_text(fd)), n, |w, _, cap| write_at(w, fd, None, &b[..cap.unwrap_or(n).min(n)])))
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    if !ours_fd(fd) {
        return libc::syscall(libc::SYS_pwrite64, fd, buf, n, off) as ssize_t;
    }
    let b = std::slice::from_raw_parts(buf.cast::<u8>(), n);
    sized(with(Op::Write, &|| format!("{} {n}@{off}", fd_text(fd)), n, |w, _, cap| {
        write_at(w, fd, Some(off as usize), &b[..cap.unwrap_or(n).min(n)])
    }))
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if !ours_fd(fd) {
        return libc::syscall(libc::SYS_writev, fd, iov, cnt) as ssize_t;
    }
    let mut b = vec![];
    for v in std::slice::from_raw_parts(iov, cnt as usize) {
        b.extend_from_slice(std::slice::from_raw_parts(v.iov_base.cast::<u8>(), v.iov_len));
    }
    let n = b.len();
    sized(with(Op::Write, &|| format!("{} {n}", fd_text(fd)), n, |w, _, cap| write_at(w, fd, None, &b[..cap.unwrap_or(n).min(n)])))
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(fi: c_int, oi: *mut off64_t, fo: c_int, oo: *mut off64_t, n: size_t, flags: c_uint) -> ssize_t {
    if !ours_fd(fi) && !ours_fd(fo) {
        return libc::syscall(libc::SYS_copy_file_range, fi, oi, fo, oo, n, flags) as ssize_t;
    }
    if ours_fd(fi) != ours_fd(fo) || !oi.is_null() || !oo.is_null() {
        return fail(libc::EXDEV) as ssize_t;
    }
    let n = n.min(8192);
    sized(with(Op::Copy, &|| format!("{} -> {} {n}", fd_text(fi), fd_text(fo)), n, |w, _, cap| {
        let at = w.desc(fi)?.pos;
        let b = read_at(w, fi, None, cap.unwrap_or(n))?;
        match write_at(w, fo, None, &b) {
            Ok(k) => {
                w.desc(fi)?.pos = at + k;
                Ok(k)
            }
            Err(e) => {
                w.desc(fi)?.pos = at;
                Err(e)
            }
        }
    }))
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(fo: c_int, fi: c_int, off: *mut off64_t, n: size_t) -> ssize_t {
    if !ours_fd(fi) && !ours_fd(fo) {
        return libc::syscall(libc::SYS_sendfile, fo, fi, off, n) as ssize_t;
    }
    fail(libc::EINVAL) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn splice(fi: c_int, oi: *mut off64_t, fo: c_int, oo: *mut off64_t, n: size_t, flags: c_uint) -> ssize_t {
    if !ours_fd(fi) && !ours_fd(fo) {
        return libc::syscall(libc::SYS_splice, fi, oi, fo, oo, n, flags) as ssize_t;
    }
    fail(libc::EINVAL) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    if !ours_fd(fd) {
        return libc::syscall(libc::SYS_lseek, fd, off, whence);
    }
    let mut g = lock();
    let Some(w) = g.as_mut() else { return fail(libc::EBADF).into() };
    if let Some(p) = pid() {
        if w.procs[p].zombie {
            return fail(libc::EIO).into();
        }
    }
    let r = (|| {
        let d = w.desc(fd)?;
        let (ino, pos) = (d.ino, d.pos);
        let base = match whence {
            libc::SEEK_SET => 0,
            libc::SEEK_CUR => pos as i64,
            libc::SEEK_END => w.fs.len(ino) as i64,
            _ => return Err(libc::EINVAL),
        };
        let to = base + off;
        if to < 0 {
            return Err(libc::EINVAL);
        }
        w.desc(fd)?.pos = to as usize;
        Ok(to)
    })();
    r.unwrap_or_else(|e| fail(e).into())
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: off64_t) -> c_int {
    if !ours_fd(fd) {
        return libc::syscall(libc::SYS_ftruncate, fd, n) as c_int;
    }
    with(Op::Truncate, &|| format!("{} {n}", fd_text(fd)), 0, |w, _, _| {
        let d = w.desc(fd)?;
        if d.flags & libc::O_ACCMODE == libc::O_RDONLY {
            return Err(libc::EINVAL);
        }
        let i = d.ino;
        w.fs.set_len(i, n as usize);
        Ok(0)
    })
    .unwrap_or_else(|e| fail(e))
}
unsafe fn sync_sim(fd: c_int) -> c_int {
    let ino = lock().as_mut().and_then(|w| w.desc(fd).ok().map(|d| d.ino)).unwrap_or(0);
    with(Op::Sync, &|| format!("ino {ino}"), 0, |w, _, _| {
        let i = w.desc(fd)?.ino;
        w.fs.sync(i);
        Ok(0)
    })
    .unwrap_or_else(|e| fail(e))
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if ours_fd(fd) {
        return sync_sim(fd);
    }
    libc::syscall(libc::SYS_fsync, fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if ours_fd(fd) {
        return sync_sim(fd);
    }
    libc::syscall(libc::SYS_fdatasync, fd) as c_int
}

// --- locks and descriptors -------------------------------------------------------------------------------------------

#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if !ours_fd(fd) {
        return libc::syscall(libc::SYS_flock, fd, op) as c_int;
    }
    let Some(p) = pid() else { return 0 };
    if op & libc::LOCK_UN != 0 {
        return with(Op::Unlock, &|| fd_text(fd), 0, |w, _, _| w.release(fd).map(|()| 0)).unwrap_or_else(|e| fail(e));
    }
    let excl = op & libc::LOCK_EX != 0;
    let mut g: Guard = enter(p);
    let mut first = true;
    loop {
        let w = g.as_mut().expect("world");
        let r = if first {
            gated(w, p, Op::Lock, &|| fd_text(fd), 0, |w, _, _| w.try_lock(fd, excl))
        } else if w.procs[p].zombie {
            Err(libc::EIO)
        } else {
            w.try_lock(fd, excl)
        };
        first = false;
        match r {
            Ok(true) => return 0,
            Ok(false) if op & libc::LOCK_NB != 0 => return fail(libc::EWOULDBLOCK),
            Ok(false) => {
                let ino = match w.desc(fd) {
                    Ok(d) => d.ino,
                    Err(e) => return fail(e),
                };
                g = block_on(g, p, ino);
            }
            Err(e) => {
                drop(g);
                return fail(e);
            }
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if !ours_fd(fd) {
        return libc::syscall(libc::SYS_fcntl, fd, cmd, arg) as c_int;
    }
    let mut g = lock();
    let Some(w) = g.as_mut() else { return fail(libc::EBADF) };
    match cmd {
        libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => w.dup(fd).unwrap_or_else(|e| fail(e)),
        libc::F_GETFD => libc::FD_CLOEXEC,
        libc::F_GETFL => w.desc(fd).map(|d| d.flags).unwrap_or_else(|e| fail(e)),
        _ => 0,
    }
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: libc::c_ulong, arg: usize) -> c_int {
    if ours_fd(fd) {
        return fail(libc::ENOTTY);
    }
    libc::syscall(libc::SYS_ioctl, fd, req, arg) as c_int
}

// --- names -----------------------------------------------------------------------------------------------------------

unsafe fn stat_of(dir: c_int, path: Option<&[u8]>, fd: c_int, follow: bool) -> R<(Ino, simfs::Inode, usize)> {
    with(Op::Stat, &|| path.map_or_else(|| fd_text(fd), |p| String::from_utf8_lossy(p).into_owned()), 0, |w, _, _| {
        let i = match path {
            Some(p) => {
                let start = base_of(w, dir)?;
                w.fs.lookup(start, p, follow)?.2.ok_or(libc::ENOENT)?
            }
            None => w.desc(fd)?.ino,
        };
        let n = w.fs.inodes.get(&i).ok_or(libc::EIO)?.clone();
        Ok((i, n, w.fs.len(i)))
    })
}
fn file_mode(n: &simfs::Inode) -> u32 {
    n.mode
        | match n.node {
            Node::File(_) => libc::S_IFREG,
            Node::Dir(_) => libc::S_IFDIR,
            Node::Link(_) => libc::S_IFLNK,
        }
}
unsafe fn put_stat(r: R<(Ino, simfs::Inode, usize)>, out: *mut libc::stat64) -> c_int {
    match r {
        Err(e) => fail(e),
        Ok((i, n, len)) => {
            let mut s: libc::stat64 = std::mem::zeroed();
            s.st_dev = 77;
            s.st_ino = i;
            s.st_nlink = 1;
            s.st_mode = file_mode(&n);
            s.st_size = len as i64;
            s.st_blksize = 4096;
            s.st_blocks = (len as i64 + 511) / 512;
            s.st_mtime = (n.mtime as i64).div_euclid(1_000_000_000);
            s.st_mtime_nsec = (n.mtime as i64).rem_euclid(1_000_000_000);
            *out = s;
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const c_char, out: *mut libc::stat64) -> c_int {
    if ours_path(bytes(path)) {
        return put_stat(stat_of(libc::AT_FDCWD, Some(bytes(path)), 0, true), out);
    }
    libc::syscall(libc::SYS_newfstatat, libc::AT_FDCWD, path, out, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const c_char, out: *mut libc::stat64) -> c_int {
    if ours_path(bytes(path)) {
        return put_stat(stat_of(libc::AT_FDCWD, Some(bytes(path)), 0, false), out);
    }
    libc::syscall(libc::SYS_newfstatat, libc::AT_FDCWD, path, out, libc::AT_SYMLINK_NOFOLLOW) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, out: *mut libc::stat64) -> c_int {
    if ours_fd(fd) {
        return put_stat(stat_of(0, None, fd, true), out);
    }
    libc::syscall(libc::SYS_fstat, fd, out) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(dir: c_int, path: *const c_char, out: *mut libc::stat64, flags: c_int) -> c_int {
    if ours_at(dir, path) {
        return put_stat(stat_of(dir, Some(bytes(path)), 0, flags & libc::AT_SYMLINK_NOFOLLOW == 0), out);
    }
    libc::syscall(libc::SYS_newfstatat, dir, path, out, flags) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn statx(dir: c_int, path: *const c_char, flags: c_int, mask: c_uint, out: *mut libc::statx) -> c_int {
    let own_fd = ours_fd(dir) && flags & libc::AT_EMPTY_PATH != 0 && (path.is_null() || bytes(path).is_empty());
    if path.is_null() && !own_fd || !own_fd && !ours_at(dir, path) {
        return libc::syscall(libc::SYS_statx, dir, path, flags, mask, out) as c_int;
    }
    let r = if own_fd { stat_of(0, None, dir, true) } else { stat_of(dir, Some(bytes(path)), 0, flags & libc::AT_SYMLINK_NOFOLLOW == 0) };
    match r {
        Err(e) => fail(e),
        Ok((i, n, len)) => {
            let mut s: libc::statx = std::mem::zeroed();
            s.stx_mask = libc::STATX_BASIC_STATS;
            s.stx_blksize = 4096;
            s.stx_nlink = 1;
            s.stx_mode = file_mode(&n) as u16;
            s.stx_ino = i;
            s.stx_size = len as u64;
            s.stx_blocks = (len as u64 + 511) / 512;
            s.stx_dev_minor = 77;
            s.stx_mtime.tv_sec = (n.mtime as i64).div_euclid(1_000_000_000);
            s.stx_mtime.tv_nsec = (n.mtime as i64).rem_euclid(1_000_000_000) as u32;
            s.stx_atime = s.stx_mtime;
            s.stx_ctime = s.stx_mtime;
            *out = s;
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn access(path: *const c_char, mode: c_int) -> c_int {
    if ours_path(bytes(path)) {
        return match stat_of(libc::AT_FDCWD, Some(bytes(path)), 0, true) {
            Ok((_, n, _)) if mode & libc::W_OK != 0 && n.mode & 0o200 == 0 => fail(libc::EACCES),
            Ok(_) => 0,
            Err(e) => fail(e),
        };
    }
    libc::syscall(libc::SYS_faccessat, libc::AT_FDCWD, path, mode) as c_int
}
unsafe fn rename_sim(sd: c_int, from: *const c_char, dd: c_int, to: *const c_char) -> c_int {
    let (f, t) = (bytes(from).to_vec(), bytes(to).to_vec());
    with(Op::Rename, &|| format!("{} -> {}", String::from_utf8_lossy(&f), String::from_utf8_lossy(&t)), 0, |w, _, _| {
        let (sb, db) = (base_of(w, sd)?, base_of(w, dd)?);
        let (sd, sn, i) = w.fs.lookup(sb, &f, false)?;
        let i = i.ok_or(libc::ENOENT)?;
        let (dd, dn, old) = w.fs.lookup(db, &t, false)?;
        writable(w, sd)?;
        writable(w, dd)?;
        if let Some(o) = old {
            match (&w.fs.inodes[&o].node, &w.fs.inodes[&i].node) {
                (Node::Dir(d), Node::Dir(_)) if !d.is_empty() => return Err(libc::ENOTEMPTY),
                (Node::Dir(_), Node::Dir(_)) => {}
                (Node::Dir(_), _) => return Err(libc::EISDIR),
                (_, Node::Dir(_)) => return Err(libc::ENOTDIR),
                _ => {}
            }
        }
        w.fs.rename(sd, &sn, dd, &dn, i);
        Ok(0)
    })
    .unwrap_or_else(|e| fail(e))
}
#[no_mangle]
pub unsafe extern "C" fn rename(from: *const c_char, to: *const c_char) -> c_int {
    renameat(libc::AT_FDCWD, from, libc::AT_FDCWD, to)
}
#[no_mangle]
pub unsafe extern "C" fn renameat(sd: c_int, from: *const c_char, dd: c_int, to: *const c_char) -> c_int {
    if ours_at(sd, from) && ours_at(dd, to) {
        return rename_sim(sd, from, dd, to);
    }
    if escape("rename", if ours_at(sd, from) { to } else { from }) {
        return fail(libc::EACCES);
    }
    libc::syscall(libc::SYS_renameat, sd, from, dd, to) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn renameat2(sd: c_int, from: *const c_char, dd: c_int, to: *const c_char, flags: c_uint) -> c_int {
    if flags == 0 {
        return renameat(sd, from, dd, to);
    }
    if ours_at(sd, from) || ours_at(dd, to) || escape("rename", to) {
        return fail(libc::EINVAL);
    }
    libc::syscall(libc::SYS_renameat2, sd, from, dd, to, flags) as c_int
}
unsafe fn unlink_sim(dir: c_int, path: *const c_char, is_dir: bool) -> c_int {
    let p = bytes(path).to_vec();
    with(Op::Unlink, &|| String::from_utf8_lossy(&p).into_owned(), 0, |w, _, _| {
        let start = base_of(w, dir)?;
        let (d, n, i) = w.fs.lookup(start, &p, false)?;
        let i = i.ok_or(libc::ENOENT)?;
        writable(w, d)?;
        match (&w.fs.inodes[&i].node, is_dir) {
            (Node::Dir(_), false) => return Err(libc::EISDIR),
            (Node::Dir(m), true) if !m.is_empty() => return Err(libc::ENOTEMPTY),
            (Node::Dir(_), true) | (_, false) => {}
            (_, true) => return Err(libc::ENOTDIR),
        }
        w.fs.unlink(d, &n);
        Ok(0)
    })
    .unwrap_or_else(|e| fail(e))
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    unlinkat(libc::AT_FDCWD, path, 0)
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const c_char) -> c_int {
    unlinkat(libc::AT_FDCWD, path, libc::AT_REMOVEDIR)
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(dir: c_int, path: *const c_char, flags: c_int) -> c_int {
    if ours_at(dir, path) {
        return unlink_sim(dir, path, flags & libc::AT_REMOVEDIR != 0);
    }
    if escape("unlink", path) {
        return fail(libc::EACCES);
    }
    libc::syscall(libc::SYS_unlinkat, dir, path, flags) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: mode_t) -> c_int {
    if ours_path(bytes(path)) {
        let p = bytes(path).to_vec();
        return with(Op::Mkdir, &|| String::from_utf8_lossy(&p).into_owned(), 0, |w, _, _| {
            let (d, n, i) = w.fs.lookup(1, &p, false)?;
            if i.is_some() {
                return Err(libc::EEXIST);
            }
            writable(w, d)?;
            w.fs.create(d, &n, Node::Dir(BTreeMap::new()), mode & 0o777);
            Ok(0)
        })
        .unwrap_or_else(|e| fail(e));
    }
    if escape("mkdir", path) {
        return fail(libc::EACCES);
    }
    libc::syscall(libc::SYS_mkdirat, libc::AT_FDCWD, path, mode) as c_int
}
unsafe fn chmod_sim(path: Option<&[u8]>, fd: c_int, mode: mode_t) -> c_int {
    with(Op::Chmod, &|| path.map_or_else(|| fd_text(fd), |p| String::from_utf8_lossy(p).into_owned()), 0, |w, _, _| {
        let i = match path {
            Some(p) => w.fs.lookup(1, p, true)?.2.ok_or(libc::ENOENT)?,
            None => w.desc(fd)?.ino,
        };
        w.fs.inodes.get_mut(&i).ok_or(libc::EIO)?.mode = mode & 0o777;
        Ok(0)
    })
    .unwrap_or_else(|e| fail(e))
}
#[no_mangle]
pub unsafe extern "C" fn chmod(path: *const c_char, mode: mode_t) -> c_int {
    if ours_path(bytes(path)) {
        return chmod_sim(Some(bytes(path)), 0, mode);
    }
    if escape("chmod", path) {
        return fail(libc::EACCES);
    }
    libc::syscall(libc::SYS_fchmodat, libc::AT_FDCWD, path, mode) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, mode: mode_t) -> c_int {
    if ours_fd(fd) {
        return chmod_sim(None, fd, mode);
    }
    libc::syscall(libc::SYS_fchmod, fd, mode) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn futimens(fd: c_int, t: *const libc::timespec) -> c_int {
    if ours_fd(fd) {
        return with(Op::Other, &|| fd_text(fd), 0, |w, _, _| {
            let i = w.desc(fd)?.ino;
            let now = w.fs.stamp();
            let m = if t.is_null() { None } else { Some(*t.add(1)) };
            let at = match m {
                Some(m) if m.tv_nsec == libc::UTIME_OMIT => return Ok(0),
                Some(m) if m.tv_nsec != libc::UTIME_NOW => m.tv_sec as u64 * 1_000_000_000 + m.tv_nsec as u64,
                _ => now,
            };
            w.fs.inodes.get_mut(&i).ok_or(libc::EIO)?.mtime = at;
            Ok(0)
        })
        .unwrap_or_else(|e| fail(e));
    }
    libc::syscall(libc::SYS_utimensat, fd, std::ptr::null::<c_char>(), t, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn symlink(target: *const c_char, path: *const c_char) -> c_int {
    if ours_path(bytes(path)) {
        let (p, t) = (bytes(path).to_vec(), bytes(target).to_vec());
        return with(Op::Create, &|| String::from_utf8_lossy(&p).into_owned(), 0, |w, _, _| {
            let (d, n, i) = w.fs.lookup(1, &p, false)?;
            if i.is_some() {
                return Err(libc::EEXIST);
            }
            w.fs.create(d, &n, Node::Link(t.clone()), 0o777);
            Ok(0)
        })
        .unwrap_or_else(|e| fail(e));
    }
    if escape("symlink", path) {
        return fail(libc::EACCES);
    }
    libc::syscall(libc::SYS_symlinkat, target, libc::AT_FDCWD, path) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn linkat(sd: c_int, from: *const c_char, dd: c_int, to: *const c_char, flags: c_int) -> c_int {
    if ours_at(sd, from) && ours_at(dd, to) {
        let (f, t) = (bytes(from).to_vec(), bytes(to).to_vec());
        return with(Op::Create, &|| format!("{} => {}", String::from_utf8_lossy(&f), String::from_utf8_lossy(&t)), 0, |w, _, _| {
            let i = w.fs.lookup(1, &f, false)?.2.ok_or(libc::ENOENT)?;
            let (d, n, old) = w.fs.lookup(1, &t, false)?;
            if old.is_some() {
                return Err(libc::EEXIST);
            }
            w.fs.hard_link(d, &n, i);
            Ok(0)
        })
        .unwrap_or_else(|e| fail(e));
    }
    if escape("link", to) {
        return fail(libc::EACCES);
    }
    libc::syscall(libc::SYS_linkat, sd, from, dd, to, flags) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn link(from: *const c_char, to: *const c_char) -> c_int {
    linkat(libc::AT_FDCWD, from, libc::AT_FDCWD, to, 0)
}
#[no_mangle]
pub unsafe extern "C" fn readlink(path: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    if ours_path(bytes(path)) {
        let p = bytes(path).to_vec();
        let r = with(Op::Stat, &|| String::from_utf8_lossy(&p).into_owned(), 0, |w, _, _| {
            let i = w.fs.lookup(1, &p, false)?.2.ok_or(libc::ENOENT)?;
            match &w.fs.inodes[&i].node {
                Node::Link(t) => Ok(t.clone()),
                _ => Err(libc::EINVAL),
            }
        });
        return sized(r.map(|t| {
            let k = t.len().min(n);
            std::ptr::copy_nonoverlapping(t.as_ptr(), buf.cast(), k);
            k
        }));
    }
    libc::syscall(libc::SYS_readlinkat, libc::AT_FDCWD, path, buf, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn realpath(path: *const c_char, out: *mut c_char) -> *mut c_char {
    let b = bytes(path);
    if !ours_path(b) {
        type F = unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char;
        let f: F = std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, b"realpath\0".as_ptr().cast()));
        return f(path, out);
    }
    let p = b.to_vec();
    let r = with(Op::Stat, &|| String::from_utf8_lossy(&p).into_owned(), 0, |w, _, _| {
        let i = w.fs.lookup(1, &p, true)?.2.ok_or(libc::ENOENT)?;
        w.fs.path_of(i).ok_or(libc::ENOENT)
    });
    match r {
        Ok(s) => {
            let c = std::ffi::CString::new(s).expect("path");
            if out.is_null() {
                libc::strdup(c.as_ptr())
            } else {
                libc::strcpy(out, c.as_ptr());
                out
            }
        }
        Err(e) => {
            fail(e);
            std::ptr::null_mut()
        }
    }
}

// --- directories -----------------------------------------------------------------------------------------------------

struct SimDir {
    tag: u64,
    fd: c_int,
    entries: Vec<(Vec<u8>, Ino, u8)>,
    at: usize,
    ent: libc::dirent64,
}
const TAG: u64 = 0x51d1_5ead_d1c0_0d1e;

unsafe fn real_dir<T>(name: &[u8]) -> T {
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr().cast());
    std::mem::transmute_copy(&p)
}
static DIRS: std::sync::Mutex<Vec<usize>> = std::sync::Mutex::new(Vec::new());
fn is_ours(d: *mut libc::DIR) -> bool {
    DIRS.lock().unwrap_or_else(|e| e.into_inner()).contains(&(d as usize))
}
fn listing(w: &mut World, i: Ino) -> R<Vec<(Vec<u8>, Ino, u8)>> {
    let Node::Dir(m) = &w.fs.inodes.get(&i).ok_or(libc::EIO)?.node else { return Err(libc::ENOTDIR) };
    let mut v: Vec<_> = m
        .iter()
        .map(|(n, i)| {
            let t = match w.fs.inodes[i].node {
                Node::File(_) => libc::DT_REG,
                Node::Dir(_) => libc::DT_DIR,
                Node::Link(_) => libc::DT_LNK,
            };
            (n.clone(), *i, t)
        })
        .collect();
    v.push((b".".to_vec(), i, libc::DT_DIR));
    v.push((b"..".to_vec(), i, libc::DT_DIR));
    if w.shuffle_dirs {
        let ctx = w.ctx.as_mut().expect("ctx");
        let n = v.len();
        let mut moved = false;
        for k in (1..n).rev() {
            // zero leaves the order alone
            let j = k - ctx.ch.draw(k as u64 + 1) as usize;
            moved |= j != k;
            v.swap(k, j);
        }
        if moved {
            ctx.count("fault.dir_order");
            ctx.nontrivial = true;
        }
        if ctx.ch.chance(1, 4) {
            // file systems that do not know the type
            ctx.count("fault.dir_type_unknown");
            for e in &mut v {
                e.2 = libc::DT_UNKNOWN;
            }
        }
    }
    Ok(v)
}
fn new_dir(fd: c_int, entries: Vec<(Vec<u8>, Ino, u8)>) -> *mut libc::DIR {
    let b = Box::new(SimDir { tag: TAG, fd, entries, at: 0, ent: unsafe { std::mem::zeroed() } });
    let p = Box::into_raw(b);
    DIRS.lock().unwrap_or_else(|e| e.into_inner()).push(p as usize);
    p.cast()
}
#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut libc::DIR {
    if !ours_path(bytes(path)) {
        let f: unsafe extern "C" fn(*const c_char) -> *mut libc::DIR = real_dir(b"opendir\0");
        return f(path);
    }
    let p = bytes(path).to_vec();
    let r = with(Op::ReadDir, &|| String::from_utf8_lossy(&p).into_owned(), 0, |w, pid, _| {
        let i = w.fs.lookup(1, &p, true)?.2.ok_or(libc::ENOENT)?;
        let l = listing(w, i)?;
        Ok((w.open_fd(i, libc::O_RDONLY, pid), l))
    });
    match r {
        Ok((fd, l)) => new_dir(fd, l),
        Err(e) => {
            fail(e);
            std::ptr::null_mut()
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut libc::DIR {
    if !ours_fd(fd) {
        let f: unsafe extern "C" fn(c_int) -> *mut libc::DIR = real_dir(b"fdopendir\0");
        return f(fd);
    }
    let r = with(Op::ReadDir, &|| fd_text(fd), 0, |w, _, _| {
        let i = w.desc(fd)?.ino;
        listing(w, i)
    });
    match r {
        Ok(l) => new_dir(fd, l),
        Err(e) => {
            fail(e);
            std::ptr::null_mut()
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut libc::DIR) -> *mut libc::dirent64 {
    if !is_ours(d) {
        let f: unsafe extern "C" fn(*mut libc::DIR) -> *mut libc::dirent64 = real_dir(b"readdir64\0");
        return f(d);
    }
    let s = &mut *d.cast::<SimDir>();
    assert!(s.tag == TAG);
    // one getdents call per eight entries
    if s.at % 8 == 0 {
        let fd = s.fd;
        if let Err(e) = with(Op::ReadDir, &|| fd_text(fd), 0, |_, _, _| Ok(())) {
            fail(e);
            return std::ptr::null_mut();
        }
    }
    let Some((n, i, t)) = s.entries.get(s.at) else {
        return std::ptr::null_mut();
    };
    s.at += 1;
    s.ent.d_ino = *i;
    s.ent.d_off = s.at as i64;
    s.ent.d_type = *t;
    s.ent.d_reclen = std::mem::size_of::<libc::dirent64>() as u16;
    for (k, c) in n.iter().take(255).chain(&[0]).enumerate() {
        s.ent.d_name[k] = *c as c_char;
    }
    &mut s.ent
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut libc::DIR) -> c_int {
    if !is_ours(d) {
        let f: unsafe extern "C" fn(*mut libc::DIR) -> c_int = real_dir(b"dirfd\0");
        return f(d);
    }
    (*d.cast::<SimDir>()).fd
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut libc::DIR) -> c_int {
    if !is_ours(d) {
        let f: unsafe extern "C" fn(*mut libc::DIR) -> c_int = real_dir(b"closedir\0");
        return f(d);
    }
    DIRS.lock().unwrap_or_else(|e| e.into_inner()).retain(|p| *p != d as usize);
    let b = Box::from_raw(d.cast::<SimDir>());
    close(b.fd)
}

// --- identity and time -----------------------------------------------------------------------------------------------

#[no_mangle]
pub unsafe extern "C" fn getpid() -> c_int {
    match pid() {
        Some(p) => crate::simfs::FIRST_PID.load(std::sync::atomic::Ordering::Relaxed) + p as c_int,
        None => libc::syscall(libc::SYS_getpid) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, t: *mut libc::timespec) -> c_int {
    if pid().is_some() {
        // never while the world is locked by this thread: only the code under test asks for the time
        if let Some(w) = lock().as_mut() {
            w.fs.clock += 1_000;
            (*t).tv_sec = (w.fs.clock / 1_000_000_000) as c_long;
            (*t).tv_nsec = (w.fs.clock % 1_000_000_000) as c_long;
            return 0;
        }
    }
    libc::syscall(libc::SYS_clock_gettime, id, t) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if pid().is_some() {
        if let Some(w) = lock().as_mut() {
            w.fs.clock += (*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64;
        }
        return 0;
    }
    libc::syscall(libc::SYS_nanosleep, t, rem) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: libc::clockid_t, flags: c_int, t: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if pid().is_some() {
        if let Some(w) = lock().as_mut() {
            let d = (*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64;
            w.fs.clock = if flags & libc::TIMER_ABSTIME != 0 { w.fs.clock.max(d) } else { w.fs.clock + d };
        }
        return 0;
    }
    if libc::syscall(libc::SYS_clock_nanosleep, id, flags, t, rem) == 0 {
        0
    } else {
        *libc::__errno_location()
    }
}

/// Keeps the definitions in the link.
pub fn install() {
    let f: &[usize] = &[
        open64 as usize, open as usize, openat64 as usize, openat as usize, close as usize, read as usize, pread64 as usize,
        readv as usize, write as usize, pwrite64 as usize, writev as usize, copy_file_range as usize, sendfile64 as usize,
        splice as usize, lseek64 as usize, ftruncate64 as usize, fsync as usize, fdatasync as usize, flock as usize,
        fcntl as usize, ioctl as usize, stat64 as usize, lstat64 as usize, fstat64 as usize, fstatat64 as usize,
        statx as usize, access as usize, rename as usize, renameat as usize, renameat2 as usize, unlink as usize,
        rmdir as usize, unlinkat as usize, mkdir as usize, chmod as usize, fchmod as usize, futimens as usize,
        symlink as usize, linkat as usize, link as usize, readlink as usize, realpath as usize, opendir as usize,
        fdopendir as usize, readdir64 as usize, dirfd as usize, closedir as usize, getpid as usize, clock_gettime as usize,
        nanosleep as usize, clock_nanosleep as usize,
    ];
    std::hint::black_box(f);
    let _ = Act::Fail;
}
