//! Simulated input/output streams: every transfer decision and every fault comes from the seeded choices.
use simkit::{Choices, Ctx, Rng};
use std::io::{self, ErrorKind, Read, Seek, SeekFrom, Write};

#[derive(Clone, Debug)]
pub enum Chunk {
    Full,
    Fixed(usize),
    Random(Rng, usize),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault {
    /// the operation fails once
    Once(u8),
    /// the operation and every later one fail
    Sticky(u8),
    /// a transfer of zero bytes (end of input, or a sink that accepts nothing)
    Zero,
    /// the process is killed here: nothing later reaches the stream
    Kill,
    /// the process is killed while the data of this operation is on its way: only a part of it arrives
    KillDuring(u32),
}

pub const KINDS: &[(ErrorKind, i32, &str)] = &[
    (ErrorKind::Other, 5, "EIO"),
    (ErrorKind::Other, 28, "ENOSPC"),
    (ErrorKind::PermissionDenied, 13, "EACCES"),
    (ErrorKind::WouldBlock, 11, "EAGAIN"),
    (ErrorKind::TimedOut, 110, "ETIMEDOUT"),
    (ErrorKind::BrokenPipe, 32, "EPIPE"),
    (ErrorKind::Other, 122, "EDQUOT"),
    (ErrorKind::Other, 116, "ESTALE"),
];

pub fn error(k: u8) -> io::Error {
    io::Error::from_raw_os_error(KINDS[k as usize % KINDS.len()].1)
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub reads: u64,
    pub writes: u64,
    pub seeks: u64,
    pub flushes: u64,
    pub short: u64,
    pub eintr: u64,
    /// (operation number, which call, what)
    pub fired: Vec<(u64, &'static str, &'static str)>,
}

#[derive(Clone, Debug)]
pub struct SimStream {
    pub data: Vec<u8>,
    pub pos: u64,
    pub chunk: Chunk,
    pub eintr: Option<(Rng, u64)>,
    pub faults: Vec<(u64, Fault)>,
    pub sticky: Option<u8>,
    pub dead: bool,
    /// the device is full: no byte can be stored at or past this offset
    pub capacity: Option<u64>,
    pub op: u64,
    pub budget: u64,
    pub exhausted: bool,
    pub st: Stats,
    pub log: Option<Vec<String>>,
}

impl SimStream {
    pub fn new(data: Vec<u8>) -> Self {
        let budget = 5_000_000 + 64 * data.len() as u64;
        SimStream {
            data,
            pos: 0,
            chunk: Chunk::Full,
            eintr: None,
            faults: vec![],
            sticky: None,
            dead: false,
            capacity: None,
            op: 0,
            budget,
            exhausted: false,
            st: Stats::default(),
            log: None,
        }
    }
    /// How the other end delivers or accepts bytes, without failing.
    pub fn delivery(mut self, ch: &mut Choices) -> Self {
        self.set_delivery(ch);
        self
    }
    pub fn set_delivery(&mut self, ch: &mut Choices) {
        self.chunk = match ch.weighted(&[1, 2, 3, 2]) {
            0 => Chunk::Full,
            1 => Chunk::Fixed(1),
            2 => {
                let m = *ch.pick(&[2usize, 3, 5, 8, 17, 64, 300, 5000]);
                Chunk::Random(ch.sub(), m)
            }
            _ => Chunk::Fixed(ch.range(2, 40) as usize),
        };
        if ch.chance(1, 2) {
            let den = *ch.pick(&[2u64, 3, 10, 50]);
            self.eintr = Some((ch.sub(), den));
        }
    }
    /// Same data and behaviour, as if opened anew.
    pub fn reopened(&self) -> Self {
        SimStream::new(self.data.clone())
    }
    fn begin(&mut self, what: &'static str) -> io::Result<Option<Fault>> {
        let op = self.op;
        self.op += 1;
        if self.op > self.budget {
            self.exhausted = true;
            return Err(error(0));
        }
        if self.dead {
            return Err(error(0));
        }
        if let Some(k) = self.sticky {
            return Err(error(k));
        }
        if let Some(f) = self.faults.iter().find(|f| f.0 == op).map(|f| f.1) {
            let name = match f {
                Fault::Once(k) | Fault::Sticky(k) => KINDS[k as usize % KINDS.len()].2,
                Fault::Zero => "ZERO",
                Fault::Kill | Fault::KillDuring(_) => "KILL",
            };
            if f == Fault::Zero && (what == "seek" || what == "flush") {
                return Ok(None);
            }
            self.st.fired.push((op, what, name));
            match f {
                Fault::Once(k) => return Err(error(k)),
                Fault::Sticky(k) => {
                    self.sticky = Some(k);
                    return Err(error(k));
                }
                Fault::Kill => {
                    self.dead = true;
                    return Err(error(0));
                }
                Fault::Zero | Fault::KillDuring(_) => return Ok(Some(f)),
            }
        }
        if what == "read" || what == "write" {
            if let Some((r, den)) = &mut self.eintr {
                if r.below(*den) == 0 {
                    self.st.eintr += 1;
                    return Err(io::Error::from_raw_os_error(4));
                }
            }
        }
        Ok(None)
    }
    fn len(&mut self, want: usize) -> usize {
        let n = match &mut self.chunk {
            Chunk::Full => want,
            Chunk::Fixed(n) => want.min(*n),
            Chunk::Random(r, m) => want.min(1 + r.below(*m as u64) as usize),
        };
        if n < want {
            self.st.short += 1;
        }
        n
    }
    pub fn fired(&self) -> bool {
        !self.st.fired.is_empty()
    }
    /// Report what was injected.
    pub fn report(&self, ctx: &mut Ctx) {
        ctx.add("stream.operations", self.op);
        ctx.sim_ns += self.op * 10_000;
        ctx.steps += self.op;
        if self.st.short > 0 {
            ctx.add("fault.short_transfer", self.st.short);
            ctx.nontrivial = true;
            ctx.shape.str("short").u64(self.st.short);
        }
        if self.st.eintr > 0 {
            ctx.add("fault.eintr", self.st.eintr);
            ctx.nontrivial = true;
            ctx.shape.str("eintr").u64(self.st.eintr);
        }
        for (op, call, what) in &self.st.fired {
            let k: &'static str = match (*what, *call) {
                ("ZERO", "read") => "fault.zero_read",
                ("ZERO", _) => "fault.zero_write",
                ("KILL", _) => "fault.kill",
                (_, "read") => "fault.read_error",
                (_, "write") => "fault.write_error",
                (_, "seek") => "fault.seek_error",
                (_, "flush") => "fault.flush_error",
                _ => "fault.other",
            };
            ctx.fault(k, *op);
            ctx.note(|| format!("  {what} on {call}, operation {op}"));
        }
        ctx.shape.u64(self.op);
        ctx.sig.u64(self.op).u64(self.pos).bytes(&self.data);
    }
}

impl Read for SimStream {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.st.reads += 1;
        if self.begin("read")?.is_some() {
            return Ok(0);
        }
        let left = self.data.get(self.pos as usize..).unwrap_or(&[]).len();
        let n = if left == 0 || buf.is_empty() { 0 } else { self.len(buf.len().min(left)) };
        if n > 0 {
            let p = self.pos as usize;
            buf[..n].copy_from_slice(&self.data[p..p + n]);
            self.pos += n as u64;
        }
        Ok(n)
    }
}

impl Write for SimStream {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.st.writes += 1;
        let f = self.begin("write")?;
        if f == Some(Fault::Zero) {
            return Ok(0);
        }
        let mut n = if buf.is_empty() { 0 } else { self.len(buf.len()) };
        if let Some(Fault::KillDuring(m)) = f {
            n = n.min(m as usize);
            self.dead = true;
        }
        if let Some(cap) = self.capacity {
            let room = cap.saturating_sub(self.pos) as usize;
            if room == 0 && n > 0 {
                self.st.fired.push((self.op - 1, "write", "ENOSPC"));
                return Err(error(1));
            }
            n = n.min(room);
        }
        let p = self.pos as usize;
        if n > 0 {
            if self.data.len() < p + n {
                self.data.resize(p + n, 0);
            }
            self.data[p..p + n].copy_from_slice(&buf[..n]);
            self.pos += n as u64;
        }
        if self.dead {
            return Err(error(0));
        }
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.st.flushes += 1;
        self.begin("flush")?;
        Ok(())
    }
}

impl Seek for SimStream {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        self.st.seeks += 1;
        self.begin("seek")?;
        let p = match to {
            SeekFrom::Start(p) => i128::from(p),
            SeekFrom::Current(d) => i128::from(self.pos) + i128::from(d),
            SeekFrom::End(d) => self.data.len() as i128 + i128::from(d),
        };
        if p < 0 {
            return Err(io::Error::from_raw_os_error(22));
        }
        self.pos = p as u64;
        Ok(self.pos)
    }
}
