//! Random bundles that exercise the whole format: extreme values, every opcode, large tables, arbitrary references.
use crate::model::*;
use simkit::Choices;

const EDGES: &[u64] = &[
    0, 1, 2, 3, 7, 10, 127, 128, 255, 256, 1000, 32767, 32768, 65535, 65536, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff,
    0x1_0000_0000, 0x7fff_ffff_ffff_ffff, 0x8000_0000_0000_0000, u64::MAX,
];

pub fn val(ch: &mut Choices) -> u64 {
    match ch.weighted(&[4, 3, 3]) {
        0 => ch.draw(16),
        1 => *ch.pick(EDGES),
        _ => {
            let mut r = ch.sub();
            r.next()
        }
    }
}
pub fn v32(ch: &mut Choices) -> u32 {
    val(ch) as u32
}

const WORDS: &[&str] = &[
    "a",
    "",
    "None",
    "Foo",
    "Bar",
    "Operator+;Int32Int32;Int32",
    "ref:Foo",
    "array:Int32",
    "żółć",
    "日本語",
    "a b\tc",
    "base\\x\\y",
    "x/y",
    "$REDSCRIPT_SIGNATURE",
    "\u{1}",
    "𝄞",
];

pub fn text(ch: &mut Choices, max: usize) -> String {
    match ch.weighted(&[6, 4, 1, 2]) {
        0 => ch.pick(WORDS).to_string(),
        3 => {
            let w = ch.pick(WORDS).to_string();
            near(ch, &w)
        }
        1 => {
            let n = ch.draw(12);
            (0..n).map(|_| (b'a' + ch.draw(26) as u8) as char).collect()
        }
        _ => {
            let n = *ch.pick(&[127usize, 128, 255, 256, 300, 4096, 8191, 8192, 8193, 9000, 20000]);
            let mut r = ch.sub();
            (0..n.min(max)).map(|_| (b'a' + r.below(26) as u8) as char).collect()
        }
    }
}

/// a text which differs from another one only a little
pub fn near(ch: &mut Choices, w: &str) -> String {
    match ch.draw(7) {
        0 => w.to_lowercase(),
        1 => w.to_uppercase(),
        2 => format!("{w} "),
        3 => format!(" {w}"),
        4 => format!("{w}{w}"),
        5 => w.chars().take(w.chars().count().saturating_sub(1)).collect(),
        _ => w.chars().rev().collect(),
    }
}

fn list(ch: &mut Choices) -> Vec<u32> {
    let n = match ch.weighted(&[4, 4, 1]) {
        0 => 0,
        1 => ch.range(1, 4),
        _ => *ch.pick(&[255u64, 256, 257, 2100]),
    };
    if n > 8 {
        let mut r = ch.sub();
        (0..n).map(|_| r.next() as u32).collect()
    } else {
        (0..n).map(|_| v32(ch)).collect()
    }
}

pub fn instr(ch: &mut Choices) -> MInstr {
    let op = loop {
        let op = ch.draw(104) as u8;
        // 23 marks a position and has no size of its own; it is placed explicitly
        if op != 23 {
            break op;
        }
    };
    instr_of(ch, op)
}

pub fn instr_of(ch: &mut Choices, op: u8) -> MInstr {
    let mut i = MInstr::new(op, &[]);
    for o in operands(op).unwrap() {
        let v = val(ch);
        let v = match o {
            Op::I8 => i64::from(v as i8) as u64,
            Op::U8 => u64::from(v as u8),
            Op::I16 => i64::from(v as i16) as u64,
            Op::U16 => u64::from(v as u16),
            Op::I32 => i64::from(v as i32) as u64,
            Op::U32 | Op::F32 | Op::Idx | Op::SIdx => u64::from(v as u32),
            Op::I64 | Op::U64 | Op::F64 => v,
            Op::Bool => v & 1,
            // relative to the instruction; the stored value is this minus a bias and must fit as well
            Op::Off(_) => u64::from(((v as i16).clamp(-32700, 32700)) as u16),
            Op::Str => {
                i.text = Some(text(ch, 20000));
                0
            }
        };
        i.args.push(v);
    }
    i
}

/// Signalling NaNs may be changed by moving them through float registers on some machines; keep to quiet ones.
fn quiet(i: &mut MInstr) {
    if i.op == 12 && i.args[0] as u32 & 0x7f80_0000 == 0x7f80_0000 {
        i.args[0] |= 0x0040_0000;
    }
    if i.op == 13 && i.args[0] & 0x7ff0_0000_0000_0000 == 0x7ff0_0000_0000_0000 {
        i.args[0] |= 0x0008_0000_0000_0000;
    }
}

pub fn code(ch: &mut Choices) -> Vec<MInstr> {
    let n = match ch.weighted(&[2, 5, 1]) {
        0 => 0,
        1 => ch.range(1, 8),
        _ => ch.range(30, 150),
    };
    let mut v = vec![];
    if n > 20 {
        // every opcode in turn, from a random start
        let s = ch.draw(104);
        for k in 0..n {
            let op = ((s + k) % 104) as u8;
            if op != 23 {
                v.push(instr_of(ch, op));
            }
        }
    } else {
        for _ in 0..n {
            v.push(instr(ch));
            if ch.chance(1, 20) {
                v.push(MInstr::new(23, &[]));
                v.push(MInstr::new(0, &[]));
            }
        }
    }
    v.iter_mut().for_each(quiet);
    v
}

pub fn fun(ch: &mut Choices) -> MFun {
    let mut f = MFun {
        vis: ch.draw(3) as u8,
        flags: v32(ch) & !ff::COMPUTED,
        ..MFun::default()
    };
    if f.flags & ff::NATIVE == 0 {
        f.source = Some((v32(ch), v32(ch)));
    }
    if ch.coin() {
        f.ret = Some(v32(ch));
        f.unk1 = ch.coin();
    }
    if ch.chance(1, 3) {
        f.base = Some(v32(ch));
    }
    f.params = list(ch);
    f.locals = list(ch);
    if ch.chance(1, 4) {
        f.operator = Some(v32(ch));
    }
    if f.flags & ff::CAST != 0 {
        f.cast = val(ch) as u8;
    }
    f.code = code(ch);
    if f.flags & ff::UNK4 != 0 {
        f.unk2 = list(ch);
    }
    f
}

fn props(ch: &mut Choices) -> Vec<(String, String)> {
    let n = ch.weighted(&[4, 2, 1]);
    (0..n).map(|_| (text(ch, 20000), text(ch, 20000))).collect()
}

pub fn kind(ch: &mut Choices) -> MKind {
    match ch.weighted(&[2, 2, 1, 2, 4, 1, 1, 2, 1]) {
        0 => {
            let tag = ch.draw(7) as u8;
            MKind::Type {
                tag,
                inner: if tag >= 2 { v32(ch) } else { 0 },
                size: if tag == 5 { v32(ch) } else { 0 },
            }
        }
        1 => MKind::Class {
            vis: ch.draw(3) as u8,
            flags: val(ch) as u16,
            base: v32(ch),
            functions: list(ch),
            fields: list(ch),
            overrides: list(ch),
        },
        2 => MKind::EnumValue(val(ch) as i64),
        3 => MKind::Enum {
            flags: val(ch) as u8,
            size: val(ch) as u8,
            members: list(ch),
            unk1: ch.coin(),
        },
        4 => MKind::Function(fun(ch)),
        5 => MKind::Param {
            ty: v32(ch),
            flags: val(ch) as u8,
        },
        6 => MKind::Local {
            ty: v32(ch),
            flags: val(ch) as u8,
        },
        7 => MKind::Field {
            vis: ch.draw(3) as u8,
            ty: v32(ch),
            flags: val(ch) as u16,
            hint: ch.chance(1, 3).then(|| text(ch, 20000)),
            attrs: props(ch),
            defaults: props(ch),
        },
        _ => MKind::Source {
            id: v32(ch),
            hash: val(ch),
            path: text(ch, 20000).replace('\\', "/"),
        },
    }
}

pub fn def(ch: &mut Choices) -> MDef {
    MDef {
        name: v32(ch),
        parent: v32(ch),
        unk: [val(ch) as u8, val(ch) as u8, val(ch) as u8],
        kind: kind(ch),
    }
    .canon()
}

pub fn strings(ch: &mut Choices) -> Vec<String> {
    let n = match ch.weighted(&[2, 6, 1]) {
        0 => 0,
        1 => ch.range(1, 6),
        _ => *ch.pick(&[64u64, 255, 256, 2049]),
    };
    if n > 10 {
        let mut r = ch.sub();
        return (0..n)
            .map(|i| if r.below(20) == 0 { "dup".to_string() } else { format!("s{}_{}", i, r.below(1000)) })
            .collect();
    }
    (0..n).map(|_| text(ch, 20000)).collect()
}

pub fn bundle(ch: &mut Choices) -> MBundle {
    let n = match ch.weighted(&[6, 2, 1]) {
        0 => ch.range(0, 6),
        1 => ch.range(7, 30),
        _ => ch.range(60, 140),
    };
    let mut r = if n > 30 { Some(ch.sub()) } else { None };
    let head = MHead {
        version: if ch.chance(1, 8) { v32(ch) } else { 14 },
        flags: v32(ch),
        timestamp: val(ch).to_le_bytes(),
        unk3: v32(ch),
        chunks: v32(ch),
    };
    let (names, tweakdb, resources, strings_) = (strings(ch), strings(ch), strings(ch), strings(ch));
    let defs = (0..n)
        .map(|_| match &mut r {
            // bulk: a generator of its own, decided by one choice
            Some(r) => {
                let mut c = Choices::random(r.next());
                def(&mut c)
            }
            None => def(ch),
        })
        .collect();
    MBundle {
        head,
        names,
        tweakdb,
        resources,
        strings: strings_,
        defs,
    }
}

/// A little of everything, small enough to try a fault at every operation.
pub fn small(ch: &mut Choices) -> MBundle {
    let mut m = bundle(&mut Choices::replay(vec![]));
    m.head.version = 14;
    m.head.flags = v32(ch);
    m.head.timestamp = val(ch).to_le_bytes();
    let word = |ch: &mut Choices| text(ch, 200);
    let few = |ch: &mut Choices| (0..ch.draw(3)).map(|_| word(ch)).collect::<Vec<_>>();
    (m.names, m.tweakdb, m.resources, m.strings) = (few(ch), few(ch), few(ch), few(ch));
    let start = ch.draw(104);
    m.defs = (0..ch.range(1, 3))
        .map(|_| {
            let mut d = def(ch);
            let cut = |l: &mut Vec<u32>| l.truncate(3);
            match &mut d.kind {
                MKind::Class { functions, fields, overrides, .. } => [functions, fields, overrides].into_iter().for_each(cut),
                MKind::Enum { members, .. } => cut(members),
                MKind::Function(f) => {
                    [&mut f.params, &mut f.locals, &mut f.unk2].into_iter().for_each(cut);
                    f.code = (0..14).filter(|k| (start + k) % 104 != 23).map(|k| instr_of(ch, ((start + k) % 104) as u8)).collect();
                    f.code.iter_mut().for_each(quiet);
                }
                _ => {}
            }
            d.canon()
        })
        .collect();
    m
}
