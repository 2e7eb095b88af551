//! Independent reference model of the script cache format: plain data, a table-driven encoder, and a strict decoder
//! that follows the table offsets (as the game does) and verifies every count, size and checksum.

pub type R<T> = Result<T, String>;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Op {
    I8,
    I16,
    I32,
    I64,
    U8,
    U16,
    U32,
    U64,
    F32,
    F64,
    /// reference into the pool: 4 bytes on disk, 8 in the virtual machine
    Idx,
    /// string reference: 4 bytes in both
    SIdx,
    /// jump offset, stored minus the given bias
    Off(i16),
    Bool,
    Str,
}

pub fn operands(op: u8) -> Option<&'static [Op]> {
    use Op::*;
    Some(match op {
        4 => &[I8],
        5 => &[I16],
        6 => &[I32],
        7 => &[I64],
        8 => &[U8],
        9 => &[U16],
        10 => &[U32],
        11 => &[U64],
        12 => &[F32],
        13 => &[F64],
        14 | 17 | 18 => &[Idx],
        15 => &[Idx, Idx],
        16 => &[SIdx],
        21 => &[U16, U32, U16, U16, Bool, U64],
        24..=26 => &[Idx],
        28 => &[Idx, Off(11)],
        29 | 34 => &[Off(3), Off(5)],
        31..=33 | 41 => &[Off(3)],
        35 => &[U8, Idx],
        36 | 37 => &[Off(3), U16, Idx, U16],
        40 | 42..=48 => &[Idx],
        51 => &[Str, U8],
        52..=85 => &[Idx],
        88..=90 => &[Idx, U8],
        91..=93 => &[Idx],
        102 | 103 => &[Idx],
        0..=3 | 19 | 20 | 22 | 23 | 27 | 30 | 38 | 39 | 49 | 50 | 86 | 87 | 94..=101 => &[],
        _ => return None,
    })
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct MInstr {
    pub op: u8,
    /// operand values as raw bits; offsets without bias (relative to the instruction)
    pub args: Vec<u64>,
    pub text: Option<String>,
}

impl MInstr {
    pub fn new(op: u8, args: &[u64]) -> Self {
        MInstr {
            op,
            args: args.to_vec(),
            text: None,
        }
    }
    /// Size in the virtual machine's address space.
    pub fn vsize(&self) -> u32 {
        if self.op == 23 {
            return 0;
        }
        let mut n = 1;
        for o in operands(self.op).unwrap() {
            n += match o {
                Op::I8 | Op::U8 | Op::Bool => 1,
                Op::I16 | Op::U16 | Op::Off(_) => 2,
                Op::I32 | Op::U32 | Op::F32 | Op::SIdx => 4,
                Op::I64 | Op::U64 | Op::F64 | Op::Idx => 8,
                Op::Str => 4 + self.text.as_ref().map_or(0, String::len) as u32,
            };
        }
        n
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum MKind {
    Type {
        tag: u8,
        inner: u32,
        size: u32,
    },
    Class {
        vis: u8,
        flags: u16,
        base: u32,
        functions: Vec<u32>,
        fields: Vec<u32>,
        overrides: Vec<u32>,
    },
    EnumValue(i64),
    Enum {
        flags: u8,
        size: u8,
        members: Vec<u32>,
        unk1: bool,
    },
    Function(MFun),
    Param {
        ty: u32,
        flags: u8,
    },
    Local {
        ty: u32,
        flags: u8,
    },
    Field {
        vis: u8,
        ty: u32,
        flags: u16,
        hint: Option<String>,
        attrs: Vec<(String, String)>,
        defaults: Vec<(String, String)>,
    },
    Source {
        id: u32,
        hash: u64,
        /// with forward slashes
        path: String,
    },
}

#[derive(Debug, Clone, PartialEq, Eq, Default)]
pub struct MFun {
    pub vis: u8,
    pub flags: u32,
    pub source: Option<(u32, u32)>,
    pub ret: Option<u32>,
    pub unk1: bool,
    pub base: Option<u32>,
    pub params: Vec<u32>,
    pub locals: Vec<u32>,
    pub operator: Option<u32>,
    pub cast: u8,
    pub code: Vec<MInstr>,
    pub unk2: Vec<u32>,
}

pub mod ff {
    pub const STATIC: u32 = 1 << 0;
    pub const EXEC: u32 = 1 << 1;
    pub const FINAL: u32 = 1 << 3;
    pub const NATIVE: u32 = 1 << 4;
    pub const CALLBACK: u32 = 1 << 6;
    pub const OPERATOR: u32 = 1 << 7;
    pub const HAS_RET: u32 = 1 << 8;
    pub const HAS_BASE: u32 = 1 << 9;
    pub const HAS_PARAMS: u32 = 1 << 10;
    pub const HAS_LOCALS: u32 = 1 << 11;
    pub const HAS_BODY: u32 = 1 << 12;
    pub const CAST: u32 = 1 << 13;
    pub const CONST: u32 = 1 << 19;
    pub const QUEST: u32 = 1 << 22;
    pub const UNK4: u32 = 1 << 23;
    pub const COMPUTED: u32 = OPERATOR | HAS_RET | HAS_BASE | HAS_PARAMS | HAS_LOCALS | HAS_BODY;
}
pub const CLASS_COMPUTED: u16 = 1 << 4 | 1 << 5 | 1 << 8;
pub const FIELD_COMPUTED: u16 = 1 << 5;

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct MDef {
    pub name: u32,
    pub parent: u32,
    pub unk: [u8; 3],
    pub kind: MKind,
}

impl MDef {
    pub fn type_code(&self) -> u8 {
        match self.kind {
            MKind::Type { .. } => 0,
            MKind::Class { .. } => 1,
            MKind::EnumValue(_) => 2,
            MKind::Enum { .. } => 3,
            MKind::Function(_) => 5,
            MKind::Param { .. } => 6,
            MKind::Local { .. } => 7,
            MKind::Field { .. } => 8,
            MKind::Source { .. } => 9,
        }
    }
    /// The flag bits that state which optional parts follow are a function of the parts.
    pub fn canon(mut self) -> MDef {
        match &mut self.kind {
            MKind::Class {
                flags,
                functions,
                fields,
                overrides,
                ..
            } => {
                *flags &= !CLASS_COMPUTED;
                *flags |= u16::from(!functions.is_empty()) << 4
                    | u16::from(!fields.is_empty()) << 5
                    | u16::from(!overrides.is_empty()) << 8;
            }
            MKind::Field { flags, hint, .. } => {
                *flags &= !FIELD_COMPUTED;
                *flags |= u16::from(hint.is_some()) << 5;
            }
            MKind::Function(f) => {
                f.flags &= !ff::COMPUTED;
                let b = |c: bool, m: u32| if c { m } else { 0 };
                f.flags |= b(f.operator.is_some(), ff::OPERATOR)
                    | b(f.ret.is_some(), ff::HAS_RET)
                    | b(f.base.is_some(), ff::HAS_BASE)
                    | b(!f.params.is_empty() || !f.unk2.is_empty(), ff::HAS_PARAMS)
                    | b(!f.locals.is_empty(), ff::HAS_LOCALS)
                    | b(!f.code.is_empty(), ff::HAS_BODY);
            }
            _ => {}
        }
        self
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct MHead {
    pub version: u32,
    pub flags: u32,
    pub timestamp: [u8; 8],
    pub unk3: u32,
    pub chunks: u32,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct MBundle {
    pub head: MHead,
    pub names: Vec<String>,
    pub tweakdb: Vec<String>,
    pub resources: Vec<String>,
    pub strings: Vec<String>,
    /// index 0 is the reserved entry and not part of this list: defs[i] has pool index i + 1
    pub defs: Vec<MDef>,
}

pub fn crc32(b: &[u8]) -> u32 {
    let mut c = !0u32;
    for &x in b {
        c ^= u32::from(x);
        for _ in 0..8 {
            c = if c & 1 != 0 { (c >> 1) ^ 0xEDB8_8320 } else { c >> 1 };
        }
    }
    !c
}

#[derive(Default)]
struct W(Vec<u8>);
impl W {
    fn u8(&mut self, v: u8) {
        self.0.push(v);
    }
    fn u16(&mut self, v: u16) {
        self.0.extend(v.to_le_bytes());
    }
    fn u32(&mut self, v: u32) {
        self.0.extend(v.to_le_bytes());
    }
    fn u64(&mut self, v: u64) {
        self.0.extend(v.to_le_bytes());
    }
    fn list(&mut self, l: &[u32]) {
        self.u32(l.len() as u32);
        for v in l {
            self.u32(*v);
        }
    }
    fn str16(&mut self, s: &str) {
        self.u16(s.len() as u16);
        self.0.extend(s.as_bytes());
    }
}

pub fn encode_instr(i: &MInstr, out: &mut Vec<u8>) {
    let mut w = W(std::mem::take(out));
    w.u8(i.op);
    for (k, o) in operands(i.op).unwrap().iter().enumerate() {
        let v = i.args.get(k).copied().unwrap_or(0);
        match o {
            Op::I8 | Op::U8 | Op::Bool => w.u8(v as u8),
            Op::I16 | Op::U16 => w.u16(v as u16),
            Op::Off(b) => w.u16((v as i16).wrapping_sub(*b) as u16),
            Op::I32 | Op::U32 | Op::F32 | Op::Idx | Op::SIdx => w.u32(v as u32),
            Op::I64 | Op::U64 | Op::F64 => w.u64(v),
            Op::Str => {
                let s = i.text.as_deref().unwrap_or("");
                w.u32(s.len() as u32);
                w.0.extend(s.as_bytes());
            }
        }
    }
    *out = w.0;
}

pub fn encode_def(d: &MDef) -> Vec<u8> {
    let mut w = W::default();
    match &d.kind {
        MKind::Type { tag, inner, size } => {
            w.u8(*tag);
            if *tag >= 2 {
                w.u32(*inner);
            }
            if *tag == 5 {
                w.u32(*size);
            }
        }
        MKind::Class {
            vis,
            flags,
            base,
            functions,
            fields,
            overrides,
        } => {
            w.u8(*vis);
            w.u16(*flags);
            w.u32(*base);
            for (bit, l) in [(4, functions), (5, fields), (8, overrides)] {
                if flags >> bit & 1 == 1 {
                    w.list(l);
                }
            }
        }
        MKind::EnumValue(v) => w.u64(*v as u64),
        MKind::Enum {
            flags,
            size,
            members,
            unk1,
        } => {
            w.u8(*flags);
            w.u8(*size);
            w.list(members);
            w.u8(u8::from(*unk1));
        }
        MKind::Function(f) => {
            w.u8(f.vis);
            w.u32(f.flags);
            if let Some((file, line)) = f.source {
                w.u32(file);
                w.u32(line);
            }
            if let Some(r) = f.ret {
                w.u32(r);
                w.u8(u8::from(f.unk1));
            }
            if let Some(b) = f.base {
                w.u32(b);
            }
            if f.flags & ff::HAS_PARAMS != 0 {
                w.list(&f.params);
            }
            if f.flags & ff::HAS_LOCALS != 0 {
                w.list(&f.locals);
            }
            if let Some(o) = f.operator {
                w.u32(o);
            }
            if f.flags & ff::CAST != 0 {
                w.u8(f.cast);
            }
            if f.flags & ff::HAS_BODY != 0 {
                w.u32(f.code.iter().map(MInstr::vsize).sum());
                for i in &f.code {
                    encode_instr(i, &mut w.0);
                }
            }
            if f.flags & ff::UNK4 != 0 {
                w.list(&f.unk2);
            }
        }
        MKind::Param { ty, flags } | MKind::Local { ty, flags } => {
            w.u32(*ty);
            w.u8(*flags);
        }
        MKind::Field {
            vis,
            ty,
            flags,
            hint,
            attrs,
            defaults,
        } => {
            w.u8(*vis);
            w.u32(*ty);
            w.u16(*flags);
            if let Some(h) = hint {
                w.str16(h);
            }
            for l in [attrs, defaults] {
                w.u32(l.len() as u32);
                for (k, v) in l {
                    w.str16(k);
                    w.str16(v);
                }
            }
        }
        MKind::Source { id, hash, path } => {
            w.u32(*id);
            w.u64(*hash);
            w.str16(&path.replace('/', "\\"));
        }
    }
    w.0
}

/// Byte ranges of the parts of an encoded bundle (for aimed damage).
#[derive(Debug, Clone, Default)]
pub struct Layout {
    pub data: (usize, usize),
    pub names: (usize, usize),
    pub headers: (usize, usize),
    pub defs: Vec<(usize, usize)>,
}

pub fn encode(b: &MBundle) -> Vec<u8> {
    encode_with_layout(b, &Place::default()).0
}

/// Freedom a writer of the format has: where the bodies lie, and whether strings share their ends.
#[derive(Debug, Clone, Default)]
pub struct Place {
    /// order in which the bodies are laid out (empty: in index order)
    pub order: Vec<usize>,
    /// unused bytes before each body, in layout order
    pub gaps: Vec<usize>,
    pub share_tails: bool,
}

pub fn encode_with_layout(b: &MBundle, place: &Place) -> (Vec<u8>, Layout) {
    let mut data: Vec<u8> = vec![];
    let mut at: std::collections::BTreeMap<&str, u32> = Default::default();
    for s in b.names.iter().chain(&b.tweakdb).chain(&b.resources).chain(&b.strings) {
        if at.contains_key(s.as_str()) {
            continue;
        }
        if place.share_tails {
            let mut z = s.as_bytes().to_vec();
            z.push(0);
            if let Some(p) = (0..data.len()).find(|p| data[*p..].starts_with(&z)) {
                at.insert(s, p as u32);
                continue;
            }
        }
        at.insert(s, data.len() as u32);
        data.extend(s.as_bytes());
        data.push(0);
    }
    let offs = |l: &[String]| -> Vec<u8> { l.iter().flat_map(|s| at[s.as_str()].to_le_bytes()).collect() };
    let (n, t, r, s) = (offs(&b.names), offs(&b.tweakdb), offs(&b.resources), offs(&b.strings));
    let ndefs = b.defs.len() + 1;
    let p_data = 104;
    let p_n = p_data + data.len();
    let p_t = p_n + n.len();
    let p_r = p_t + t.len();
    let p_d = p_r + r.len();
    let p_s = p_d + 20 * ndefs;
    let p_body = p_s + s.len();
    let mut lay = Layout {
        data: (p_data, p_n),
        names: (p_n, p_t),
        headers: (p_d, p_s),
        defs: vec![(0, 0); b.defs.len()],
    };
    let mut body = vec![];
    for k in 0..b.defs.len() {
        let i = place.order.get(k).copied().unwrap_or(k);
        body.resize(body.len() + place.gaps.get(k).copied().unwrap_or(0), 0xCC);
        let e = encode_def(&b.defs[i]);
        lay.defs[i] = (p_body + body.len(), p_body + body.len() + e.len());
        body.extend(e);
    }
    let mut dh = W::default();
    dh.0.extend([0u8; 20]);
    for (d, (from, to)) in b.defs.iter().zip(&lay.defs) {
        dh.u32(d.name);
        dh.u32(d.parent);
        dh.u32(*from as u32);
        dh.u32((to - from) as u32);
        dh.u8(d.type_code());
        dh.0.extend(d.unk);
    }
    let mut h = W::default();
    h.u32(0x5344_4552);
    h.u32(b.head.version);
    h.u32(b.head.flags);
    h.0.extend(b.head.timestamp);
    h.u32(b.head.unk3);
    h.u32(0xDEAD_BEEF);
    h.u32(b.head.chunks);
    for (off, count, bytes) in [
        (p_data, data.len(), &data),
        (p_n, b.names.len(), &n),
        (p_t, b.tweakdb.len(), &t),
        (p_r, b.resources.len(), &r),
        (p_d, ndefs, &dh.0),
        (p_s, b.strings.len(), &s),
    ] {
        h.u32(off as u32);
        h.u32(count as u32);
        h.u32(crc32(bytes));
    }
    let hash = crc32(&h.0);
    h.0[24..28].copy_from_slice(&hash.to_le_bytes());
    let mut out = h.0;
    for p in [data, n, t, r, dh.0, s, body] {
        out.extend(p);
    }
    (out, lay)
}

/// The first thing in which two bundles differ.
pub fn diff(a: &MBundle, b: &MBundle) -> Option<String> {
    if a.head != b.head {
        return Some(format!("header {:?} / {:?}", a.head, b.head));
    }
    for (what, x, y) in [
        ("names", &a.names, &b.names),
        ("tweakdb ids", &a.tweakdb, &b.tweakdb),
        ("resources", &a.resources, &b.resources),
        ("strings", &a.strings, &b.strings),
    ] {
        if x != y {
            let k = x.iter().zip(y.iter()).position(|(p, q)| p != q);
            return Some(match k {
                Some(k) => format!("{what}[{k}]: {:.60?} / {:.60?}", x[k], y[k]),
                None => format!("{} / {} {what}", x.len(), y.len()),
            });
        }
    }
    if let Some(k) = a.defs.iter().zip(&b.defs).position(|(p, q)| p != q) {
        let (x, y) = (format!("{:?}", a.defs[k]), format!("{:?}", b.defs[k]));
        let i = x.bytes().zip(y.bytes()).position(|(p, q)| p != q).unwrap_or(x.len().min(y.len()));
        let cut = |s: &str| {
            let s: String = String::from_utf8_lossy(&s.as_bytes()[i.saturating_sub(60)..s.len().min(i + 60)]).into_owned();
            s
        };
        return Some(format!("definition {}: ..{}.. / ..{}..", k + 1, cut(&x), cut(&y)));
    }
    if a.defs.len() != b.defs.len() {
        return Some(format!("{} / {} definitions", a.defs.len(), b.defs.len()));
    }
    None
}

impl MBundle {
    /// What the pool's public interface shows: entry 0 of the names always reads as "None".
    pub fn seen(&self) -> MBundle {
        let mut b = self.clone();
        match b.names.first_mut() {
            Some(n) => *n = "None".into(),
            None => b.names.push("None".into()),
        }
        b
    }
    pub fn canon(mut self) -> MBundle {
        self.defs = self.defs.into_iter().map(MDef::canon).collect();
        self
    }
}

struct Rd<'a> {
    b: &'a [u8],
    p: usize,
}
impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> R<&'a [u8]> {
        let r = self.b.get(self.p..self.p.wrapping_add(n)).ok_or("record cut short")?;
        self.p += n;
        Ok(r)
    }
    fn u8(&mut self) -> R<u8> {
        Ok(self.take(1)?[0])
    }
    fn u16(&mut self) -> R<u16> {
        Ok(u16::from_le_bytes(self.take(2)?.try_into().unwrap()))
    }
    fn u32(&mut self) -> R<u32> {
        Ok(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
    fn u64(&mut self) -> R<u64> {
        Ok(u64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
    fn bool(&mut self) -> R<bool> {
        match self.u8()? {
            0 => Ok(false),
            1 => Ok(true),
            v => Err(format!("boolean {v}")),
        }
    }
    fn list(&mut self) -> R<Vec<u32>> {
        let n = self.u32()?;
        (0..n).map(|_| self.u32()).collect()
    }
    fn text(&mut self, n: usize) -> R<String> {
        String::from_utf8(self.take(n)?.to_vec()).map_err(|_| "text is not UTF-8".to_string())
    }
    fn str16(&mut self) -> R<String> {
        let n = self.u16()?;
        self.text(n as usize)
    }
}

pub fn decode_instr(b: &[u8], p: &mut usize) -> R<MInstr> {
    let mut r = Rd { b, p: *p };
    let op = r.u8()?;
    let ops = operands(op).ok_or(format!("opcode {op}"))?;
    let mut i = MInstr::new(op, &[]);
    for o in ops {
        let v = match o {
            Op::I8 => i64::from(r.u8()? as i8) as u64,
            Op::U8 => u64::from(r.u8()?),
            Op::Bool => u64::from(r.bool()?),
            Op::I16 => i64::from(r.u16()? as i16) as u64,
            Op::U16 => u64::from(r.u16()?),
            Op::Off(b) => u64::from((r.u16()? as i16).wrapping_add(*b) as u16),
            Op::I32 => i64::from(r.u32()? as i32) as u64,
            Op::U32 | Op::F32 | Op::Idx | Op::SIdx => u64::from(r.u32()?),
            Op::I64 | Op::U64 | Op::F64 => r.u64()?,
            Op::Str => {
                let n = r.u32()?;
                i.text = Some(r.text(n as usize)?);
                0
            }
        };
        i.args.push(v);
    }
    *p = r.p;
    Ok(i)
}

fn decode_def(code: u8, b: &[u8]) -> R<MKind> {
    let mut r = Rd { b, p: 0 };
    let k = match code {
        0 => {
            let tag = r.u8()?;
            if tag > 6 {
                return Err(format!("type tag {tag}"));
            }
            let inner = if tag >= 2 { r.u32()? } else { 0 };
            let size = if tag == 5 { r.u32()? } else { 0 };
            MKind::Type { tag, inner, size }
        }
        1 => {
            let vis = r.u8()?;
            let flags = r.u16()?;
            let base = r.u32()?;
            let mut l = [vec![], vec![], vec![]];
            for (k, bit) in [4, 5, 8].into_iter().enumerate() {
                if flags >> bit & 1 == 1 {
                    l[k] = r.list()?;
                }
            }
            let [functions, fields, overrides] = l;
            MKind::Class {
                vis,
                flags,
                base,
                functions,
                fields,
                overrides,
            }
        }
        2 => MKind::EnumValue(r.u64()? as i64),
        3 => MKind::Enum {
            flags: r.u8()?,
            size: r.u8()?,
            members: r.list()?,
            unk1: r.bool()?,
        },
        5 => {
            let mut f = MFun {
                vis: r.u8()?,
                flags: r.u32()?,
                ..MFun::default()
            };
            let has = |m: u32| f.flags & m != 0;
            if !has(ff::NATIVE) {
                f.source = Some((r.u32()?, r.u32()?));
            }
            if has(ff::HAS_RET) {
                f.ret = Some(r.u32()?);
                f.unk1 = r.bool()?;
            }
            if has(ff::HAS_BASE) {
                f.base = Some(r.u32()?);
            }
            if has(ff::HAS_PARAMS) {
                f.params = r.list()?;
            }
            if has(ff::HAS_LOCALS) {
                f.locals = r.list()?;
            }
            if has(ff::OPERATOR) {
                f.operator = Some(r.u32()?);
            }
            if has(ff::CAST) {
                f.cast = r.u8()?;
            }
            if has(ff::HAS_BODY) {
                let size = r.u32()?;
                let mut at = 0;
                // a Target has no size: it belongs to the code when more code follows it, so the end of the code is
                // found by what must follow (nothing, or the trailing list)
                while at < size {
                    let i = decode_instr(b, &mut r.p)?;
                    at += i.vsize();
                    f.code.push(i);
                }
                if at != size {
                    return Err(format!("code size {size}, instructions take {at}"));
                }
            }
            if has(ff::UNK4) {
                f.unk2 = r.list()?;
            }
            MKind::Function(f)
        }
        6 => MKind::Param {
            ty: r.u32()?,
            flags: r.u8()?,
        },
        7 => MKind::Local {
            ty: r.u32()?,
            flags: r.u8()?,
        },
        8 => {
            let vis = r.u8()?;
            let ty = r.u32()?;
            let flags = r.u16()?;
            let hint = if flags >> 5 & 1 == 1 { Some(r.str16()?) } else { None };
            let mut l = [vec![], vec![]];
            for k in &mut l {
                for _ in 0..r.u32()? {
                    k.push((r.str16()?, r.str16()?));
                }
            }
            let [attrs, defaults] = l;
            MKind::Field {
                vis,
                ty,
                flags,
                hint,
                attrs,
                defaults,
            }
        }
        9 => MKind::Source {
            id: r.u32()?,
            hash: r.u64()?,
            path: r.str16()?.replace('\\', "/"),
        },
        c => return Err(format!("definition type {c}")),
    };
    if r.p != b.len() {
        return Err(format!("definition of type {code}: size {} but {} bytes used", b.len(), r.p));
    }
    Ok(k)
}

/// Strict decoding: everything the header and the tables promise must be true of the bytes.
pub fn decode(b: &[u8]) -> R<MBundle> {
    let mut r = Rd { b, p: 0 };
    if r.u32()? != 0x5344_4552 {
        return Err("magic".into());
    }
    let head = MHead {
        version: r.u32()?,
        flags: r.u32()?,
        timestamp: r.take(8)?.try_into().unwrap(),
        unk3: r.u32()?,
        chunks: {
            r.p = 28;
            r.u32()?
        },
    };
    let mut t = vec![];
    for _ in 0..6 {
        t.push((r.u32()? as usize, r.u32()? as usize, r.u32()?));
    }
    let mut hb = b[..104].to_vec();
    let hash = u32::from_le_bytes(hb[24..28].try_into().unwrap());
    hb[24..28].copy_from_slice(&0xDEAD_BEEFu32.to_le_bytes());
    if crc32(&hb) != hash {
        return Err("header checksum".into());
    }
    let widths = [1, 4, 4, 4, 20, 4];
    let what = ["string data", "names", "tweakdb ids", "resources", "definition headers", "strings"];
    let mut parts = vec![];
    let mut end = 104;
    for k in 0..6 {
        let (off, count, crc) = t[k];
        if off != end {
            return Err(format!("{} table at {off}, expected {end}", what[k]));
        }
        end = off + count * widths[k];
        let p = b.get(off..end).ok_or(format!("{} table out of the file", what[k]))?;
        if crc32(p) != crc {
            return Err(format!("{} checksum", what[k]));
        }
        parts.push(p);
    }
    let strs = |p: &[u8]| -> R<Vec<String>> {
        p.chunks_exact(4)
            .map(|c| {
                let o = u32::from_le_bytes(c.try_into().unwrap()) as usize;
                let d = parts[0].get(o..).ok_or("string offset")?;
                let n = d.iter().position(|&x| x == 0).ok_or("string without end")?;
                String::from_utf8(d[..n].to_vec()).map_err(|_| "string is not UTF-8".to_string())
            })
            .collect()
    };
    let mut defs = vec![];
    for (k, h) in parts[4].chunks_exact(20).enumerate() {
        if k == 0 {
            if h != [0u8; 20] {
                return Err("reserved definition header".into());
            }
            continue;
        }
        let mut r = Rd { b: h, p: 0 };
        let (name, parent, off, size, ty) = (r.u32()?, r.u32()?, r.u32()? as usize, r.u32()? as usize, r.u8()?);
        if off != end {
            return Err(format!("definition {k} at {off}, expected {end}"));
        }
        end = off + size;
        let body = b.get(off..end).ok_or(format!("definition {k} out of the file"))?;
        defs.push(MDef {
            name,
            parent,
            unk: h[17..20].try_into().unwrap(),
            kind: decode_def(ty, body).map_err(|e| format!("definition {k}: {e}"))?,
        });
    }
    if end != b.len() {
        return Err(format!("{} bytes after the last definition", b.len() as i64 - end as i64));
    }
    Ok(MBundle {
        head,
        names: strs(parts[1])?,
        tweakdb: strs(parts[2])?,
        resources: strs(parts[3])?,
        strings: strs(parts[5])?,
        defs,
    })
}
