//! The simulated operating system: an in-memory file system with a durability model, advisory locks, a clock, process
//! identities and a baton scheduler. The libc entry points in `sys.rs` end up here for paths under /simfs and for the
//! descriptors this module hands out; everything a run observes of the operating system is decided by the choice
//! sequence of the run.
use simkit::{Ctx, Fnv};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};

pub const ROOT: &str = "/simfs";
pub const FD_BASE: i32 = 1 << 20;
pub type Ino = u64;
pub type R<T> = Result<T, i32>;

#[derive(Clone, Debug)]
pub enum Node {
    File(Arc<Vec<u8>>),
    Dir(BTreeMap<Vec<u8>, Ino>),
    Link(Vec<u8>),
}

#[derive(Clone, Debug)]
pub struct Inode {
    pub node: Node,
    pub mode: u32,
    pub mtime: u64,
}

#[derive(Clone, Debug)]
enum Data {
    Write(usize, Arc<Vec<u8>>),
    Len(usize),
}

#[derive(Clone, Debug)]
enum Meta {
    Link(Ino, Vec<u8>, Ino),
    Unlink(Ino, Vec<u8>),
    Rename(Ino, Vec<u8>, Ino, Vec<u8>, Ino),
}

/// The file system: what processes see, and what would survive a power loss.
#[derive(Clone, Debug)]
pub struct Fs {
    pub inodes: BTreeMap<Ino, Inode>,
    next: Ino,
    durable: BTreeMap<Ino, Inode>,
    journal: Vec<Meta>,
    pending: BTreeMap<Ino, Vec<Data>>,
    pub clock: u64,
    /// free bytes; None is unlimited
    pub free: Option<u64>,
}

fn apply_data(v: &mut Vec<u8>, d: &Data) {
    match d {
        Data::Write(off, b) => {
            if v.len() < off + b.len() {
                v.resize(off + b.len(), 0);
            }
            v[*off..off + b.len()].copy_from_slice(b);
        }
        Data::Len(n) => v.resize(*n, 0),
    }
}

impl Fs {
    pub fn new() -> Fs {
        let root = Inode { node: Node::Dir(BTreeMap::new()), mode: 0o755, mtime: 0 };
        Fs {
            inodes: BTreeMap::from([(1, root.clone())]),
            next: 2,
            durable: BTreeMap::from([(1, root)]),
            journal: vec![],
            pending: BTreeMap::new(),
            clock: 1_700_000_000_000_000_000,
            free: None,
        }
    }
    /// Time as stamped on files: ticks of 4 ms.
    pub fn stamp(&self) -> u64 {
        self.clock / 4_000_000 * 4_000_000
    }
    fn dir(&self, i: Ino) -> R<&BTreeMap<Vec<u8>, Ino>> {
        match &self.inodes.get(&i).ok_or(libc::ENOENT)?.node {
            Node::Dir(d) => Ok(d),
            _ => Err(libc::ENOTDIR),
        }
    }
    fn dir_mut(&mut self, i: Ino) -> &mut BTreeMap<Vec<u8>, Ino> {
        match &mut self.inodes.get_mut(&i).expect("dir").node {
            Node::Dir(d) => d,
            _ => panic!("not a directory"),
        }
    }
    /// Resolves to (parent, last name, inode if it exists). `start` is the directory relative paths begin at.
    pub fn lookup(&self, start: Ino, path: &[u8], follow: bool) -> R<(Ino, Vec<u8>, Option<Ino>)> {
        self.lookup_n(start, path, follow, 0)
    }
    fn lookup_n(&self, start: Ino, path: &[u8], follow: bool, depth: u32) -> R<(Ino, Vec<u8>, Option<Ino>)> {
        if depth > 12 {
            return Err(libc::ELOOP);
        }
        if path.is_empty() {
            return Err(libc::ENOENT);
        }
        let (start, rest) = match strip_root(path) {
            Some(r) => (1, r),
            None if path[0] == b'/' => return Err(libc::EXDEV),
            None => (start, path),
        };
        let comps: Vec<&[u8]> = rest.split(|c| *c == b'/').filter(|c| !c.is_empty() && *c != b".").collect();
        // chain of directories, for ".."
        let mut chain = vec![start];
        let mut last: (Ino, Vec<u8>, Option<Ino>) = (start, vec![], Some(start));
        for (k, c) in comps.iter().enumerate() {
            let cur = last.2.ok_or(libc::ENOENT)?;
            if *c == b".." {
                chain.pop();
                if chain.is_empty() {
                    // above the simulated tree (or of an unknown parent): outside
                    return Err(libc::EXDEV);
                }
                last = (*chain.last().unwrap(), vec![], Some(*chain.last().unwrap()));
                continue;
            }
            if c.len() > 255 {
                return Err(libc::ENAMETOOLONG);
            }
            let child = self.dir(cur)?.get(*c).copied();
            last = (cur, c.to_vec(), child);
            if let Some(ch) = child {
                if let Node::Link(t) = &self.inodes[&ch].node {
                    if k + 1 < comps.len() || follow {
                        let r = self.lookup_n(cur, t, true, depth + 1)?;
                        if k + 1 == comps.len() {
                            return Ok(r);
                        }
                        last = r;
                        chain.push(last.2.ok_or(libc::ENOENT)?);
                        continue;
                    }
                }
                chain.push(ch);
            }
        }
        Ok(last)
    }
    pub fn get(&self, path: &str) -> Option<Ino> {
        self.lookup(1, path.as_bytes(), true).ok()?.2
    }
    pub fn read(&self, path: &str) -> Option<Arc<Vec<u8>>> {
        match &self.inodes[&self.get(path)?].node {
            Node::File(d) => Some(d.clone()),
            _ => None,
        }
    }
    pub fn mtime(&self, path: &str) -> Option<u64> {
        Some(self.inodes[&self.get(path)?].mtime)
    }
    fn add(&mut self, dir: Ino, name: &[u8], node: Node, mode: u32) -> Ino {
        let i = self.next;
        self.next += 1;
        let mtime = self.stamp();
        self.inodes.insert(i, Inode { node, mode, mtime });
        self.link(dir, name, i);
        i
    }
    pub fn create(&mut self, dir: Ino, name: &[u8], node: Node, mode: u32) -> Ino {
        self.add(dir, name, node, mode)
    }
    pub fn hard_link(&mut self, dir: Ino, name: &[u8], i: Ino) {
        self.link(dir, name, i);
    }
    pub fn unlink(&mut self, dir: Ino, name: &[u8]) {
        self.dir_mut(dir).remove(name);
        self.journal.push(Meta::Unlink(dir, name.to_vec()));
    }
    pub fn rename(&mut self, sd: Ino, sn: &[u8], dd: Ino, dn: &[u8], i: Ino) {
        self.dir_mut(sd).remove(sn);
        self.dir_mut(dd).insert(dn.to_vec(), i);
        self.journal.push(Meta::Rename(sd, sn.to_vec(), dd, dn.to_vec(), i));
    }
    pub fn path_of(&self, ino: Ino) -> Option<String> {
        let mut todo = vec![(1, ROOT.to_string())];
        while let Some((i, p)) = todo.pop() {
            if i == ino {
                return Some(p);
            }
            if let Node::Dir(d) = &self.inodes[&i].node {
                for (n, c) in d {
                    todo.push((*c, format!("{p}/{}", String::from_utf8_lossy(n))));
                }
            }
        }
        None
    }
    fn link(&mut self, dir: Ino, name: &[u8], i: Ino) {
        self.dir_mut(dir).insert(name.to_vec(), i);
        self.journal.push(Meta::Link(dir, name.to_vec(), i));
        let t = self.stamp();
        self.inodes.get_mut(&dir).unwrap().mtime = t;
    }
    pub fn write_at(&mut self, i: Ino, off: usize, b: &[u8]) -> R<usize> {
        let mut b = b;
        let len = self.len(i);
        if let Some(free) = self.free {
            let grow = (off + b.len()).saturating_sub(len) as u64;
            if grow > free {
                let can = b.len().saturating_sub((grow - free) as usize);
                if can == 0 {
                    return Err(libc::ENOSPC);
                }
                b = &b[..can];
            }
            let grow = (off + b.len()).saturating_sub(len) as u64;
            self.free = Some(free - grow);
        }
        let d = Data::Write(off, Arc::new(b.to_vec()));
        self.data(i, d);
        Ok(b.len())
    }
    pub fn set_len(&mut self, i: Ino, n: usize) {
        if let Some(f) = &mut self.free {
            let len = match &self.inodes[&i].node {
                Node::File(d) => d.len(),
                _ => 0,
            };
            *f = (*f + len.saturating_sub(n) as u64).saturating_sub(n.saturating_sub(len) as u64);
        }
        self.data(i, Data::Len(n));
    }
    fn data(&mut self, i: Ino, d: Data) {
        let t = self.stamp();
        let n = self.inodes.get_mut(&i).expect("inode");
        n.mtime = t;
        if let Node::File(v) = &mut n.node {
            apply_data(Arc::make_mut(v), &d);
        }
        self.pending.entry(i).or_default().push(d);
    }
    pub fn len(&self, i: Ino) -> usize {
        match self.inodes.get(&i).map(|n| &n.node) {
            Some(Node::File(d)) => d.len(),
            Some(Node::Link(t)) => t.len(),
            _ => 4096,
        }
    }
    fn commit(&mut self, upto: usize) {
        let ops: Vec<Meta> = self.journal.drain(..upto).collect();
        for op in ops {
            match op {
                Meta::Link(d, n, i) => {
                    if !self.durable.contains_key(&i) {
                        if let Some(src) = self.inodes.get(&i) {
                            let node = match &src.node {
                                Node::File(_) => Node::File(Arc::new(vec![])),
                                Node::Dir(_) => Node::Dir(BTreeMap::new()),
                                Node::Link(t) => Node::Link(t.clone()),
                            };
                            self.durable.insert(i, Inode { node, mode: src.mode, mtime: src.mtime });
                        }
                    }
                    self.ddir(d, |m| {
                        m.insert(n, i);
                    });
                }
                Meta::Unlink(d, n) => self.ddir(d, |m| {
                    m.remove(&n);
                }),
                Meta::Rename(sd, sn, dd, dn, i) => {
                    self.ddir(sd, |m| {
                        m.remove(&sn);
                    });
                    self.ddir(dd, |m| {
                        m.insert(dn, i);
                    });
                }
            }
        }
    }
    fn ddir(&mut self, d: Ino, f: impl FnOnce(&mut BTreeMap<Vec<u8>, Ino>)) {
        if let Some(Inode { node: Node::Dir(m), .. }) = self.durable.get_mut(&d) {
            f(m);
        }
    }
    /// fsync: the whole journal, and this inode's data.
    pub fn sync(&mut self, i: Ino) {
        let n = self.journal.len();
        self.commit(n);
        self.pending.remove(&i);
        if let (Some(d), Some(s)) = (self.durable.get_mut(&i), self.inodes.get(&i)) {
            if let Node::File(_) = s.node {
                *d = s.clone();
            }
        }
    }
    /// A failed fsync: the pages are marked clean and will never be written.
    pub fn lose_pending(&mut self, i: Ino) {
        self.pending.remove(&i);
    }
    /// Everything written back: the state an idle machine reaches.
    pub fn settle(&mut self) {
        let n = self.journal.len();
        self.commit(n);
        self.pending.clear();
        self.durable = self.inodes.clone();
    }
    pub fn has_unsynced(&self) -> bool {
        !self.journal.is_empty() || !self.pending.is_empty()
    }
    /// The machine loses power: a prefix of the metadata journal survives, and of every file's unsynced data an
    /// arbitrary prefix, torn or not, or its length without its content.
    pub fn power_loss(&mut self, ctx: &mut Ctx) {
        let n = self.journal.len();
        let keep = match ctx.ch.draw(4) {
            0 => n,
            1 => 0,
            _ => ctx.ch.draw(n as u64 + 1) as usize,
        };
        self.commit(keep);
        self.journal.clear();
        let pend = std::mem::take(&mut self.pending);
        for (i, ops) in pend {
            let mtime = self.inodes.get(&i).map_or(0, |x| x.mtime);
            let Some(d) = self.durable.get_mut(&i) else { continue };
            let Node::File(v) = &mut d.node else { continue };
            let v = Arc::make_mut(v);
            let how = ctx.ch.draw(5);
            if how == 1 {
                continue;
            }
            d.mtime = mtime;
            let upto = if how == 0 { ops.len() } else { ctx.ch.draw(ops.len() as u64 + 1) as usize };
            for o in &ops[..upto] {
                apply_data(v, o);
            }
            if how == 2 || how == 3 {
                if let Some(Data::Write(off, b)) = ops.get(upto) {
                    let t = ctx.ch.draw(b.len() as u64 + 1) as usize;
                    apply_data(v, &Data::Write(*off, Arc::new(b[..t].to_vec())));
                    if t > 0 && t < b.len() {
                        ctx.fault("fault.torn_write", t as u64);
                    }
                }
            }
            if how == 4 {
                // delayed allocation: lengths on disk, content not
                for o in &ops[upto..] {
                    if let Data::Write(off, b) = o {
                        apply_data(v, &Data::Write(*off, Arc::new(vec![0; b.len()])));
                    } else {
                        apply_data(v, o);
                    }
                }
                if upto < ops.len() {
                    ctx.fault("fault.lost_write", (ops.len() - upto) as u64);
                }
            }
        }
        self.inodes = self.durable.clone();
        ctx.fault("fault.power_loss", keep as u64);
    }
    /// path -> content of every file (and directory, as None), for comparisons.
    pub fn files(&self) -> BTreeMap<String, Option<Arc<Vec<u8>>>> {
        let mut out = BTreeMap::new();
        let mut todo = vec![(1, ROOT.to_string())];
        while let Some((i, p)) = todo.pop() {
            match &self.inodes[&i].node {
                Node::Dir(d) => {
                    out.insert(p.clone(), None);
                    for (n, c) in d {
                        todo.push((*c, format!("{p}/{}", String::from_utf8_lossy(n))));
                    }
                }
                Node::File(d) => {
                    out.insert(p, Some(d.clone()));
                }
                Node::Link(t) => {
                    out.insert(p, Some(Arc::new(t.clone())));
                }
            }
        }
        out
    }
    pub fn hash(&self) -> u64 {
        let mut f = Fnv::new();
        for (p, d) in self.files() {
            f.str(&p);
            if let Some(d) = d {
                f.bytes(&d);
            }
        }
        f.get()
    }
    // harness-side setup (no faults, immediately durable where `settle` is called afterwards)
    pub fn put(&mut self, path: &str, data: &[u8]) {
        self.mkdirs(path.rsplit_once('/').unwrap().0);
        let (d, n, i) = self.lookup(1, path.as_bytes(), true).expect("put");
        let i = i.unwrap_or_else(|| self.add(d, &n, Node::File(Arc::new(vec![])), 0o644));
        self.data(i, Data::Len(0));
        self.data(i, Data::Write(0, Arc::new(data.to_vec())));
    }
    /// As a new file under the same name (how installers replace files).
    pub fn replace(&mut self, path: &str, data: &[u8]) {
        self.remove(path);
        self.put(path, data);
    }
    pub fn mkdirs(&mut self, path: &str) {
        let mut at = 1;
        for c in path.strip_prefix(ROOT).expect("under the root").split('/').filter(|c| !c.is_empty()) {
            at = match self.dir(at).expect("dir").get(c.as_bytes()) {
                Some(i) => match &self.inodes[i].node {
                    Node::Link(t) => self.lookup(at, t, true).ok().and_then(|r| r.2).expect("link"),
                    _ => *i,
                },
                None => self.add(at, c.as_bytes(), Node::Dir(BTreeMap::new()), 0o755),
            };
        }
    }
    pub fn remove(&mut self, path: &str) {
        if let Ok((d, n, Some(_))) = self.lookup(1, path.as_bytes(), false) {
            self.dir_mut(d).remove(&n);
            self.journal.push(Meta::Unlink(d, n));
        }
    }
    pub fn symlink(&mut self, path: &str, target: &str) {
        self.mkdirs(path.rsplit_once('/').unwrap().0);
        let (d, n, _) = self.lookup(1, path.as_bytes(), false).expect("symlink");
        self.add(d, &n, Node::Link(target.as_bytes().to_vec()), 0o777);
    }
    pub fn chmod(&mut self, path: &str, mode: u32) {
        if let Some(i) = self.get(path) {
            self.inodes.get_mut(&i).unwrap().mode = mode;
        }
    }
    /// nanoseconds since 1970, or before
    pub fn set_mtime(&mut self, path: &str, t: i64) {
        if let Some(i) = self.get(path) {
            self.inodes.get_mut(&i).unwrap().mtime = t as u64;
        }
    }
    pub fn touch(&mut self, path: &str) {
        let t = self.stamp();
        if let Some(i) = self.get(path) {
            self.inodes.get_mut(&i).unwrap().mtime = t;
        }
    }
}

pub fn strip_root(p: &[u8]) -> Option<&[u8]> {
    let r = p.strip_prefix(ROOT.as_bytes())?;
    (r.is_empty() || r[0] == b'/').then_some(r)
}

// ---------------------------------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Act {
    /// an error code fitting the operation
    Fail,
    /// as many as asked, minus some
    Short,
    /// the process is killed at this operation (a write may have been done in part)
    Kill,
    /// the machine loses power at this operation
    Power,
}

#[derive(Clone, Copy, Debug)]
pub struct Fault {
    pub pid: usize,
    pub at: u64,
    pub act: Act,
    /// the fault stays: every later operation of the same kind fails with the same code
    pub sticky: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Op {
    Open,
    Create,
    Read,
    Write,
    Copy,
    Stat,
    Rename,
    Unlink,
    Mkdir,
    ReadDir,
    Truncate,
    Sync,
    Lock,
    Unlock,
    Chmod,
    Other,
}
impl Op {
    pub fn mutates(self) -> bool {
        matches!(self, Op::Create | Op::Write | Op::Copy | Op::Rename | Op::Unlink | Op::Mkdir | Op::Truncate | Op::Sync)
    }
    fn errnos(self) -> &'static [i32] {
        match self {
            Op::Open => &[libc::EIO, libc::EACCES, libc::EMFILE],
            Op::Create => &[libc::ENOSPC, libc::EACCES, libc::EIO, libc::EROFS],
            Op::Read | Op::ReadDir => &[libc::EIO, libc::EINTR],
            Op::Write | Op::Copy => &[libc::ENOSPC, libc::EIO, libc::EINTR],
            Op::Stat => &[libc::EIO, libc::EACCES],
            Op::Rename => &[libc::EIO, libc::EACCES, libc::ENOSPC],
            Op::Unlink => &[libc::EIO, libc::EACCES, libc::EBUSY],
            Op::Mkdir => &[libc::ENOSPC, libc::EACCES],
            Op::Truncate | Op::Sync => &[libc::EIO, libc::ENOSPC],
            Op::Lock => &[libc::EINTR, libc::ENOLCK, libc::EIO],
            Op::Unlock | Op::Chmod | Op::Other => &[libc::EIO],
        }
    }
}

#[derive(Debug)]
pub struct Desc {
    pub ino: Ino,
    pub pos: usize,
    pub flags: i32,
    pub pid: usize,
    pub refs: u32,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum St {
    Ready,
    /// waits for the lock on the inode
    Waiting(Ino),
    Done,
}

pub struct Proc {
    st: St,
    pub zombie: bool,
    pub ops: u64,
    pub kinds: Vec<Op>,
    sticky: Option<(Op, i32)>,
    pub log: Vec<String>,
    pub zombie_calls: u64,
}

pub struct World {
    pub fs: Fs,
    pub ctx: Option<Ctx>,
    pub descs: BTreeMap<u64, Desc>,
    pub fds: BTreeMap<i32, u64>,
    next_fd: i32,
    next_desc: u64,
    /// (inode, description, exclusive)
    locks: Vec<(Ino, u64, bool)>,
    pub procs: Vec<Proc>,
    current: usize,
    plan: Vec<Fault>,
    pub fired: Vec<(usize, u64, Op, &'static str)>,
    pub power_lost: bool,
    pub deadlock: bool,
    pub shuffle_dirs: bool,
    /// what went outside the simulated tree: (operation, path)
    pub escapes: BTreeSet<(String, String)>,
    /// called after every mutating operation of a simulated process
    pub probe: Option<Probe>,
    pub probe_failed: Option<(&'static str, String)>,
}

static WORLD: Mutex<Option<World>> = Mutex::new(None);
static TURN: Condvar = Condvar::new();

thread_local! {
    static PID: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
}
pub fn pid() -> Option<usize> {
    PID.try_with(|p| p.get()).ok().filter(|p| *p != usize::MAX)
}

pub type Guard = MutexGuard<'static, Option<World>>;

pub fn lock() -> Guard {
    WORLD.lock().unwrap_or_else(|e| e.into_inner())
}

pub enum Go {
    Do,
    /// do at most this many bytes
    Short(usize),
    Fail(i32),
    /// do this many bytes, then the process is dead
    DieAfter(usize, bool),
}

impl World {
    fn new(fs: Fs) -> World {
        World {
            fs,
            ctx: None,
            descs: BTreeMap::new(),
            fds: BTreeMap::new(),
            next_fd: FD_BASE,
            next_desc: 1,
            locks: vec![],
            procs: vec![],
            current: 0,
            plan: vec![],
            fired: vec![],
            power_lost: false,
            deadlock: false,
            shuffle_dirs: false,
            escapes: BTreeSet::new(),
            probe: None,
            probe_failed: None,
        }
    }
    pub fn open_fd(&mut self, ino: Ino, flags: i32, pid: usize) -> i32 {
        let d = self.next_desc;
        self.next_desc += 1;
        self.descs.insert(d, Desc { ino, pos: 0, flags, pid, refs: 1 });
        let fd = self.next_fd;
        self.next_fd += 1;
        self.fds.insert(fd, d);
        fd
    }
    pub fn dup(&mut self, fd: i32) -> R<i32> {
        let d = *self.fds.get(&fd).ok_or(libc::EBADF)?;
        self.descs.get_mut(&d).unwrap().refs += 1;
        let n = self.next_fd;
        self.next_fd += 1;
        self.fds.insert(n, d);
        Ok(n)
    }
    pub fn desc(&mut self, fd: i32) -> R<&mut Desc> {
        let d = *self.fds.get(&fd).ok_or(libc::EBADF)?;
        self.descs.get_mut(&d).ok_or(libc::EBADF)
    }
    pub fn close(&mut self, fd: i32) -> R<()> {
        let d = self.fds.remove(&fd).ok_or(libc::EBADF)?;
        let e = self.descs.get_mut(&d).unwrap();
        e.refs -= 1;
        if e.refs == 0 {
            self.descs.remove(&d);
            self.unlock(d);
        }
        Ok(())
    }
    fn unlock(&mut self, desc: u64) {
        let was: Vec<Ino> = self.locks.iter().filter(|l| l.1 == desc).map(|l| l.0).collect();
        self.locks.retain(|l| l.1 != desc);
        for p in &mut self.procs {
            if let St::Waiting(i) = p.st {
                if was.contains(&i) {
                    p.st = St::Ready;
                }
            }
        }
    }
    fn close_all(&mut self, pid: usize) {
        let fds: Vec<i32> = self
            .fds
            .iter()
            .filter(|(_, d)| self.descs[d].pid == pid)
            .map(|(f, _)| *f)
            .collect();
        for f in fds {
            self.close(f).ok();
        }
    }
    pub fn kill(&mut self, pid: usize) {
        self.procs[pid].zombie = true;
        self.close_all(pid);
    }
    pub fn power(&mut self) {
        self.power_lost = true;
        for p in 0..self.procs.len() {
            if self.procs[p].st != St::Done {
                self.procs[p].zombie = true;
                if let St::Waiting(_) = self.procs[p].st {
                    self.procs[p].st = St::Ready;
                }
            }
            self.close_all(p);
        }
    }
    fn choose_next(&mut self) -> bool {
        let ready: Vec<usize> = (0..self.procs.len()).filter(|p| self.procs[*p].st == St::Ready).collect();
        if ready.is_empty() {
            return false;
        }
        // a process that keeps its turn is the simplest schedule: it comes first
        let mut order = ready;
        if let Some(k) = order.iter().position(|p| *p == self.current) {
            let c = order.remove(k);
            order.insert(0, c);
        }
        let k = if order.len() > 1 && !self.procs[order[0]].zombie {
            let ctx = self.ctx.as_mut().expect("ctx");
            // bursts: most of the time the process goes on
            if ctx.ch.draw(3) == 1 {
                ctx.ch.draw(order.len() as u64) as usize
            } else {
                0
            }
        } else {
            0
        };
        if order[k] != self.current {
            let (at, to) = (self.procs[self.current].ops, order[k] as u64);
            let ctx = self.ctx.as_mut().expect("ctx");
            ctx.count("sched.switches");
            ctx.step(1000 + to, at);
            ctx.nontrivial = true;
        }
        self.current = order[k];
        true
    }
    /// Decides the fate of one operation of a process.
    pub fn gate(&mut self, pid: usize, op: Op, what: &str, bytes: usize) -> Go {
        self.fs.clock += 50_000;
        if self.procs[pid].zombie {
            self.procs[pid].zombie_calls += 1;
            return Go::Fail(libc::EIO);
        }
        let at = self.procs[pid].ops;
        self.procs[pid].ops += 1;
        self.procs[pid].kinds.push(op);
        let ctx = self.ctx.as_mut().expect("ctx");
        ctx.event("sys", || format!("p{pid} #{at} {op:?} {what}"));
        ctx.sim_ns += 50_000;
        if let Some((k, e)) = self.procs[pid].sticky {
            if k == op || (e == libc::ENOSPC && matches!(op, Op::Write | Op::Copy | Op::Create | Op::Mkdir)) {
                ctx.count("fault.again");
                return Go::Fail(e);
            }
        }
        let Some(k) = self.plan.iter().position(|f| f.pid == pid && f.at <= at) else {
            return Go::Do;
        };
        let f = self.plan[k];
        match f.act {
            Act::Fail => {
                self.plan.remove(k);
                let e = *ctx.ch.pick(op.errnos());
                let sticky = f.sticky && e != libc::EINTR;
                if sticky {
                    self.procs[pid].sticky = Some((op, e));
                }
                let name = match e {
                    libc::ENOSPC => "fault.disk_full",
                    libc::EACCES | libc::EROFS | libc::EBUSY => "fault.denied",
                    libc::EINTR => "fault.interrupted",
                    libc::EMFILE | libc::ENOLCK => "fault.no_resources",
                    _ => "fault.io_error",
                };
                ctx.fault(name, at);
                self.fired.push((pid, at, op, name));
                Go::Fail(e)
            }
            Act::Short => {
                if matches!(op, Op::Read | Op::Write | Op::Copy) && bytes > 1 {
                    self.plan.remove(k);
                    let n = 1 + ctx.ch.draw(bytes as u64 - 1) as usize;
                    ctx.fault("fault.short_io", at);
                    self.fired.push((pid, at, op, "fault.short_io"));
                    Go::Short(n)
                } else {
                    Go::Do
                }
            }
            Act::Kill | Act::Power => {
                self.plan.remove(k);
                let n = if matches!(op, Op::Write | Op::Copy) { ctx.ch.draw(bytes as u64 + 1) as usize } else { 0 };
                let name = if f.act == Act::Kill { "fault.kill" } else { "fault.power_cut" };
                ctx.fault(name, at);
                self.fired.push((pid, at, op, name));
                Go::DieAfter(n, f.act == Act::Power)
            }
        }
    }
    pub fn after(&mut self, pid: usize, op: Op) {
        if let Some(p) = &self.probe {
            if op.mutates() && self.probe_failed.is_none() && !self.procs[pid].zombie {
                self.ctx.as_mut().expect("ctx").count("oracle.checks");
                if let Err((c, e)) = p(&self.fs) {
                    let n = self.procs[pid].ops;
                    self.probe_failed = Some((c, format!("after operation {n} of process {pid} ({op:?}): {e}")));
                }
            }
        }
    }
    pub fn try_lock(&mut self, fd: i32, excl: bool) -> R<bool> {
        let d = *self.fds.get(&fd).ok_or(libc::EBADF)?;
        let ino = self.descs[&d].ino;
        if self.locks.iter().any(|l| l.0 == ino && l.1 != d && (excl || l.2)) {
            return Ok(false);
        }
        self.locks.retain(|l| !(l.0 == ino && l.1 == d));
        self.locks.push((ino, d, excl));
        Ok(true)
    }
    pub fn release(&mut self, fd: i32) -> R<()> {
        let d = *self.fds.get(&fd).ok_or(libc::EBADF)?;
        self.unlock(d);
        Ok(())
    }
}

/// Waits until it is this process's turn (nothing to do for the harness itself).
pub fn enter(pid: usize) -> Guard {
    let mut g = lock();
    {
        let w = g.as_mut().expect("world");
        if w.procs.len() > 1 && w.current == pid {
            w.choose_next();
            TURN.notify_all();
        }
    }
    wait_turn(g, pid)
}

fn wait_turn(mut g: Guard, pid: usize) -> Guard {
    loop {
        let w = g.as_ref().expect("world");
        if w.current == pid && w.procs[pid].st == St::Ready {
            crate::argv::turn();
            return g;
        }
        g = TURN.wait(g).unwrap_or_else(|e| e.into_inner());
    }
}

/// Blocks the process until the lock on the inode may be free.
pub fn block_on(mut g: Guard, pid: usize, ino: Ino) -> Guard {
    {
        let w = g.as_mut().expect("world");
        w.procs[pid].st = St::Waiting(ino);
        w.ctx.as_mut().expect("ctx").count("sched.lock_waits");
        if !w.choose_next() {
            // nobody can release it
            w.deadlock = true;
            for p in 0..w.procs.len() {
                if w.procs[p].st != St::Done {
                    w.procs[p].zombie = true;
                    w.procs[p].st = St::Ready;
                }
            }
            w.choose_next();
        }
        TURN.notify_all();
    }
    wait_turn(g, pid)
}

pub enum Outcome<T> {
    Done(T),
    Panicked(String),
    /// killed, or the power was cut, while it ran
    Killed,
}
impl<T> Outcome<T> {
    pub fn done(self) -> Option<T> {
        match self {
            Outcome::Done(t) => Some(t),
            _ => None,
        }
    }
}

pub struct RunInfo {
    pub ops: Vec<Vec<Op>>,
    pub fired: Vec<(usize, u64, Op, &'static str)>,
    pub power_lost: bool,
    pub deadlock: bool,
    pub probe_failed: Option<(&'static str, String)>,
    pub escapes: BTreeSet<(String, String)>,
    pub logs: Vec<Vec<String>>,
}

pub type Job<'a, T> = Box<dyn FnOnce() -> T + Send + 'a>;

/// An invariant of the file system; the error is (class, what is wrong).
pub type Probe = Box<dyn Fn(&Fs) -> Result<(), (&'static str, String)> + Send>;

pub struct Opts {
    pub plan: Vec<Fault>,
    pub shuffle_dirs: bool,
    pub probe: Option<Probe>,
    /// decides process ids and hash keys
    pub env: u64,
}
impl Default for Opts {
    fn default() -> Self {
        Opts { plan: vec![], shuffle_dirs: false, probe: None, env: 0 }
    }
}

pub static FIRST_PID: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(4000);

/// Runs simulated processes to their end (or death) on the file system, one baton between them.
pub fn run<T: Send>(ctx: &mut Ctx, fs: &mut Fs, opts: Opts, jobs: Vec<Job<'_, T>>) -> (Vec<Outcome<T>>, RunInfo) {
    let n = jobs.len();
    let env = opts.env;
    FIRST_PID.store(4000 + (env % 1000) as i32 * 17, std::sync::atomic::Ordering::Relaxed);
    {
        let mut g = lock();
        let mut w = World::new(std::mem::replace(fs, Fs::new()));
        w.ctx = Some(std::mem::replace(ctx, Ctx::new(simkit::Choices::replay(vec![]))));
        w.plan = opts.plan;
        w.shuffle_dirs = opts.shuffle_dirs;
        w.probe = opts.probe;
        w.procs = (0..n)
            .map(|_| Proc { st: St::Ready, zombie: false, ops: 0, kinds: vec![], sticky: None, log: vec![], zombie_calls: 0 })
            .collect();
        if n > 1 {
            w.current = w.ctx.as_mut().unwrap().ch.draw(n as u64) as usize;
        }
        *g = Some(w);
    }
    let outs: Vec<Outcome<T>> = std::thread::scope(|s| {
        let hs: Vec<_> = jobs
            .into_iter()
            .enumerate()
            .map(|(k, j)| {
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(s, move || {
                        PID.with(|p| p.set(k));
                        simkit::entropy::set_thread_seed(0x5eed + k as u64 + env * 1000);
                        drop(wait_turn(lock(), k));
                        let r = catch_unwind(AssertUnwindSafe(j));
                        let p = r.as_ref().err().map(|e| simkit::engine::panic_text(&**e));
                        // finished: descriptors are closed, the baton goes on
                        PID.with(|p| p.set(usize::MAX));
                        let mut g = lock();
                        let w = g.as_mut().expect("world");
                        w.close_all(k);
                        w.procs[k].st = St::Done;
                        let zombie = w.procs[k].zombie;
                        if !w.choose_next() && w.procs.iter().any(|p| p.st != St::Done) {
                            w.deadlock = true;
                            for p in &mut w.procs {
                                if p.st != St::Done {
                                    p.zombie = true;
                                    p.st = St::Ready;
                                }
                            }
                            w.choose_next();
                        }
                        TURN.notify_all();
                        drop(g);
                        match (zombie, r, p) {
                            (true, ..) => Outcome::Killed,
                            (_, Ok(t), _) => Outcome::Done(t),
                            (_, Err(_), p) => Outcome::Panicked(p.unwrap_or_default()),
                        }
                    })
                    .expect("thread")
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("process thread")).collect()
    });
    let mut w = lock().take().expect("world");
    *ctx = w.ctx.take().expect("ctx");
    *fs = w.fs;
    let info = RunInfo {
        ops: w.procs.iter().map(|p| p.kinds.clone()).collect(),
        fired: w.fired,
        power_lost: w.power_lost,
        deadlock: w.deadlock,
        probe_failed: w.probe_failed,
        escapes: w.escapes,
        logs: w.procs.into_iter().map(|p| p.log).collect(),
    };
    if info.power_lost {
        fs.power_loss(ctx);
    }
    (outs, info)
}

/// Log records of the simulated process.
pub fn log_line(s: String) {
    if let Some(p) = pid() {
        if let Some(w) = lock().as_mut() {
            w.procs[p].log.push(s);
        }
    }
}

/// What the simulated process writes to its standard output and error.
pub fn printed(b: &[u8]) {
    log_line(format!("[PRINTED] {}", String::from_utf8_lossy(b).trim_end()));
}
