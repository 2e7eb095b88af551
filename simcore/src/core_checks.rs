//! Checks of the cache reader and writer (crate `redscript`) against the reference model, over simulated streams.
use crate::model::{self, diff, MBundle, Place};
use crate::streams::{Fault, SimStream, KINDS};
use crate::{conv, gen};
use redscript::bundle::ScriptBundle;
use simkit::{Check, Choices, Ctx, Scenario, Violation};
use std::io::{self, BufReader, BufWriter, Cursor, Read, Seek, Write};

pub type V = Result<(), Violation>;

pub fn load(bytes: &[u8]) -> io::Result<ScriptBundle> {
    ScriptBundle::load(&mut Cursor::new(bytes))
}
pub fn save(b: &ScriptBundle) -> io::Result<Vec<u8>> {
    let mut c = Cursor::new(vec![]);
    b.save(&mut c)?;
    Ok(c.into_inner())
}

pub fn same_pool(ctx: &mut Ctx, b: &ScriptBundle, m: &MBundle, class: &str) -> V {
    let d = diff(&conv::pool(&b.pool, &m.head), &m.seen());
    ctx.check(d.is_none(), class, || format!("loaded / expected: {}", d.unwrap_or_default()))
}

/// The bytes are a well-formed cache whose content is `m`.
pub fn same_bytes(ctx: &mut Ctx, bytes: &[u8], m: &MBundle, class: &str) -> V {
    let d = match model::decode(bytes) {
        Ok(got) => diff(&got, m),
        Err(e) => Some(format!("not a well-formed cache: {e}")),
    };
    ctx.check(d.is_none(), class, || format!("saved / expected: {}", d.unwrap_or_default()))
}

fn place(ch: &mut Choices, n: usize) -> Place {
    let mut p = Place::default();
    if ch.chance(1, 3) {
        p.order = (0..n).collect();
        for i in (1..n).rev() {
            let j = i - ch.below(i + 1);
            p.order.swap(i, j);
        }
    }
    if ch.chance(1, 4) {
        p.gaps = (0..n).map(|_| ch.draw(30) as usize).collect();
    }
    p.share_tails = ch.chance(1, 4) && n < 30;
    p
}

/// The input as the caller hands it over: the stream itself, or behind a buffer.
fn load_via(s: &mut SimStream, buf: Option<usize>) -> io::Result<ScriptBundle> {
    match buf {
        None => ScriptBundle::load(s),
        Some(n) => ScriptBundle::load(&mut BufReader::with_capacity(n, s)),
    }
}
/// The output as the callers hand it over; a buffer is dropped after the save, as the callers do.
fn save_via(b: &ScriptBundle, s: &mut SimStream, buf: Option<usize>) -> io::Result<()> {
    match buf {
        None => b.save(s),
        Some(n) => {
            let mut w = BufWriter::with_capacity(n, s);
            b.save(&mut w)
        }
    }
}
fn buffer(ch: &mut Choices) -> Option<usize> {
    match ch.weighted(&[3, 3, 2]) {
        0 => Some(8192),
        1 => None,
        _ => Some(*ch.pick(&[1usize, 2, 7, 20, 64, 103, 104, 105, 512, 4096, 65536])),
    }
}

fn progress(ctx: &mut Ctx, s: &SimStream) -> V {
    ctx.check(!s.exhausted, "no-progress", || format!("more than {} operations on the stream", s.budget))
}

fn fixture(name: &str) -> Vec<u8> {
    std::fs::read(format!("/repo/resources/{name}")).expect("fixture")
}

fn some_bundle(ctx: &mut Ctx) -> (MBundle, Vec<u8>, bool) {
    if ctx.ch.chance(1, 20) {
        let b = fixture("predef.redscripts.cmp");
        let m = model::decode(&b).expect("fixture");
        return (m, b, false);
    }
    let m = gen::bundle(&mut ctx.ch);
    let p = place(&mut ctx.ch, m.defs.len());
    let (b, _) = model::encode_with_layout(&m, &p);
    (m, b, true)
}

// ---- C01 ------------------------------------------------------------------------------------------------------

fn c01_delivery(ctx: &mut Ctx) -> V {
    let (m, bytes, _) = some_bundle(ctx);
    let mut s = SimStream::new(bytes).delivery(&mut ctx.ch);
    let buf = buffer(&mut ctx.ch);
    let r = load_via(&mut s, buf);
    s.report(ctx);
    progress(ctx, &s)?;
    match r {
        Ok(b) => {
            same_pool(ctx, &b, &m, "content")?;
            strings_consistent(ctx, &b, &m)
        }
        Err(e) => Err(Violation::new("load-failed", format!("a complete input did not load: {e}"))),
    }
}

/// Looking a string up by its text gives an index that reads back as that text.
fn strings_consistent(ctx: &mut Ctx, b: &ScriptBundle, m: &MBundle) -> V {
    macro_rules! each {
        ($t:expr, $l:expr, $skip:expr) => {
            for s in $l.iter().skip($skip).take(40) {
                let got = $t.get_index(s).map(|i| $t.get(i).map(|r| r.to_string()));
                let ok = match &got {
                    Some(Ok(t)) => t == s || ($skip == 1 && u32::from($t.get_index(s).unwrap()) == 0),
                    _ => false,
                };
                ctx.check(ok, "string-lookup", || format!("{s:.60?} is looked up as {got:?}"))?;
            }
        };
    }
    each!(b.pool.names, m.names, 1);
    each!(b.pool.tweakdb_ids, m.tweakdb, 0);
    each!(b.pool.resources, m.resources, 0);
    each!(b.pool.strings, m.strings, 0);
    Ok(())
}

/// The decoding primitives on their own, over the same kinds of delivery.
fn c01_primitives(ctx: &mut Ctx) -> V {
    use redscript::decode::DecodeExt;
    let ch = &mut ctx.ch;
    let n = ch.range(1, 20);
    let mut bytes = vec![];
    let mut want: Vec<(u8, String)> = vec![];
    for _ in 0..n {
        let t = ch.draw(16) as u8;
        let v = gen::val(ch);
        want.push((
            t,
            match t {
                0 => { bytes.push(v as u8); (v as u8).to_string() }
                1 => { bytes.push(v as u8); (v as i8).to_string() }
                2 => { bytes.extend((v as u16).to_le_bytes()); (v as u16).to_string() }
                3 => { bytes.extend((v as u16).to_le_bytes()); (v as i16).to_string() }
                4 => { bytes.extend((v as u32).to_le_bytes()); (v as u32).to_string() }
                5 => { bytes.extend((v as u32).to_le_bytes()); (v as i32).to_string() }
                6 => { bytes.extend(v.to_le_bytes()); v.to_string() }
                7 => { bytes.extend(v.to_le_bytes()); (v as i64).to_string() }
                8 => { let x = v as u32 & 0xff7f_ffff; bytes.extend(x.to_le_bytes()); x.to_string() }
                9 => { let x = v & 0xffef_ffff_ffff_ffff; bytes.extend(x.to_le_bytes()); x.to_string() }
                10 => { let x = v as u8 & 3; bytes.push(x); (x != 0).to_string() }
                11 => { let s = gen::text(ch, 20000); bytes.extend(s.as_bytes()); bytes.push(0); s }
                12 => { let s = gen::text(ch, 20000); bytes.extend((s.len() as u16).to_le_bytes()); bytes.extend(s.as_bytes()); s }
                13 => { let s = gen::text(ch, 20000); bytes.extend((s.len() as u32).to_le_bytes()); bytes.extend(s.as_bytes()); s }
                14 => {
                    let k = ch.draw(200);
                    let l: Vec<u32> = (0..k).map(|i| (v as u32).wrapping_add(i as u32 * 77)).collect();
                    bytes.extend((k as u32).to_le_bytes());
                    l.iter().for_each(|x| bytes.extend(x.to_le_bytes()));
                    format!("{l:?}")
                }
                _ => { let a: [u8; 11] = std::array::from_fn(|i| (v >> i) as u8); bytes.extend(a); format!("{a:?}") }
            },
        ));
    }
    let total = bytes.len();
    let s = SimStream::new(bytes).delivery(&mut ctx.ch);
    let mut s = redscript::io::StreamOffset::new_zeroed(s);
    let mut got = vec![];
    for (t, _) in &want {
        let r: io::Result<String> = (|| {
            Ok(match t {
                0 => s.decode::<u8>()?.to_string(),
                1 => s.decode::<i8>()?.to_string(),
                2 => s.decode::<u16>()?.to_string(),
                3 => s.decode::<i16>()?.to_string(),
                4 => s.decode::<u32>()?.to_string(),
                5 => s.decode::<i32>()?.to_string(),
                6 => s.decode::<u64>()?.to_string(),
                7 => s.decode::<i64>()?.to_string(),
                8 => s.decode::<f32>()?.to_bits().to_string(),
                9 => s.decode::<f64>()?.to_bits().to_string(),
                10 => s.decode::<bool>()?.to_string(),
                11 => s.decode::<String>()?,
                12 => s.decode_str_prefixed::<u16>()?,
                13 => s.decode_str_prefixed::<u32>()?,
                14 => format!("{:?}", s.decode_vec_prefixed::<u32, u32>()?),
                _ => format!("{:?}", s.decode::<[u8; 11]>()?),
            })
        })();
        match r {
            Ok(v) => got.push((*t, v)),
            Err(e) => return Err(Violation::new("primitive", format!("type {t} did not decode: {e}"))),
        }
    }
    let end = s.offset();
    let inner = s.into_inner();
    inner.report(ctx);
    progress(ctx, &inner)?;
    let k = want.iter().zip(&got).position(|(a, b)| a != b);
    ctx.check(k.is_none(), "primitive", || format!("decoded {:.80?}, expected {:.80?}", got[k.unwrap()], want[k.unwrap()]))?;
    ctx.check(end == total && inner.pos as usize == total, "consumed", || {
        format!("{total} bytes encoded, {} read, offset {end}", inner.pos)
    })
}

// ---- C02 ------------------------------------------------------------------------------------------------------

fn c02_delivery(ctx: &mut Ctx) -> V {
    let (m, bytes, _) = some_bundle(ctx);
    let b = load(&bytes).map_err(|e| Violation::new("load-failed", e.to_string()))?;
    let mut s = SimStream::new(vec![]).delivery(&mut ctx.ch);
    if ctx.ch.chance(1, 4) {
        s.pos = ctx.ch.draw(500);
    }
    let buf = buffer(&mut ctx.ch);
    let r = save_via(&b, &mut s, buf);
    s.report(ctx);
    progress(ctx, &s)?;
    if let Err(e) = r {
        return Err(Violation::new("save-failed", format!("the sink did not fail, the save did: {e}")));
    }
    let canon = m.canon();
    same_bytes(ctx, &s.data, &canon, "content")?;
    // a second save of the same bundle, and a save of what was saved, give the same bytes
    let again = save(&b).map_err(|e| Violation::new("save-failed", e.to_string()))?;
    ctx.check(again == s.data, "repeat-differs", || "saving the same bundle again gives other bytes".into())?;
    let b2 = load(&s.data).map_err(|e| Violation::new("reload-failed", e.to_string()))?;
    same_pool(ctx, &b2, &canon, "reload-content")?;
    let third = save(&b2).map_err(|e| Violation::new("save-failed", e.to_string()))?;
    ctx.check(third == s.data, "fixpoint", || "saving the reloaded bundle gives other bytes".into())
}

fn c02_primitives(ctx: &mut Ctx) -> V {
    use redscript::encode::EncodeExt;
    let ch = &mut ctx.ch;
    let n = ch.range(1, 20);
    let plan: Vec<(u8, u64, String)> = (0..n)
        .map(|_| {
            let t = ch.draw(16) as u8;
            let v = gen::val(ch);
            let s = if (11..=13).contains(&t) { gen::text(ch, 20000) } else { String::new() };
            (t, v, s)
        })
        .collect();
    let mut want: Vec<u8> = vec![];
    let s = SimStream::new(vec![]).delivery(ch);
    let mut out = redscript::io::StreamOffset::new_zeroed(s);
    for (t, v, s) in &plan {
        let v = *v;
        let l: Vec<u32> = (0..v % 50).map(|i| (v as u32).wrapping_add(i as u32)).collect();
        let r = match t {
            0 => { want.push(v as u8); out.encode(&(v as u8)) }
            1 => { want.push(v as u8); out.encode(&(v as i8)) }
            2 => { want.extend((v as u16).to_le_bytes()); out.encode(&(v as u16)) }
            3 => { want.extend((v as u16).to_le_bytes()); out.encode(&(v as i16)) }
            4 => { want.extend((v as u32).to_le_bytes()); out.encode(&(v as u32)) }
            5 => { want.extend((v as u32).to_le_bytes()); out.encode(&(v as i32)) }
            6 => { want.extend(v.to_le_bytes()); out.encode(&v) }
            7 => { want.extend(v.to_le_bytes()); out.encode(&(v as i64)) }
            8 => { let x = v as u32 & 0xff7f_ffff; want.extend(x.to_le_bytes()); out.encode(&f32::from_bits(x)) }
            9 => { let x = v & 0xffef_ffff_ffff_ffff; want.extend(x.to_le_bytes()); out.encode(&f64::from_bits(x)) }
            10 => { want.push((v & 1) as u8); out.encode(&(v & 1 == 1)) }
            11 => { want.extend(s.as_bytes()); want.push(0); out.encode(&s.as_str()) }
            12 => { want.extend((s.len() as u16).to_le_bytes()); want.extend(s.as_bytes()); out.encode_str_prefixed::<u16>(s) }
            13 => { want.extend((s.len() as u32).to_le_bytes()); want.extend(s.as_bytes()); out.encode_str_prefixed::<u32>(s) }
            14 => {
                want.extend((l.len() as u32).to_le_bytes());
                l.iter().for_each(|x| want.extend(x.to_le_bytes()));
                out.encode_slice_prefixed::<u32, u32>(&l)
            }
            _ => { let a: [u8; 11] = std::array::from_fn(|i| (v >> i) as u8); want.extend(a); out.encode(&a) }
        };
        if let Err(e) = r {
            return Err(Violation::new("primitive", format!("type {t} did not encode: {e}")));
        }
    }
    let end = out.offset();
    let inner = out.into_inner();
    inner.report(ctx);
    progress(ctx, &inner)?;
    ctx.check(inner.data == want, "primitive", || {
        let k = inner.data.iter().zip(&want).position(|(a, b)| a != b);
        format!("{} bytes written, {} expected, first difference at {k:?}; {plan:.200?}", inner.data.len(), want.len())
    })?;
    ctx.check(end == want.len(), "offset", || format!("{} bytes written, offset {end}", want.len()))
}

/// The bytes depend on the bundle only, not on the process's hash keys.
fn c02_hash_keys(ctx: &mut Ctx) -> V {
    let (m, bytes, _) = some_bundle(ctx);
    let seeds = [ctx.ch.draw(1 << 40), ctx.ch.draw(1 << 40)];
    let mut outs = vec![];
    for s in seeds {
        let r = simkit::entropy::with_hash_seed(s, || load(&bytes).and_then(|b| save(&b)));
        match r {
            Ok(Ok(o)) => outs.push(o),
            Ok(Err(e)) => return Err(Violation::new("save-failed", e.to_string())),
            Err(_) => return Err(Violation::new("panic", "panicked")),
        }
        ctx.fault("fault.hash_keys", s);
    }
    ctx.check(outs[0] == outs[1], "hash-order", || "two runs with different hash keys save different bytes".into())?;
    same_bytes(ctx, &outs[0], &m.canon(), "content")
}

/// One dimension of the format far larger than usual.
fn huge(ctx: &mut Ctx) -> MBundle {
    let mut m = gen::bundle(&mut ctx.ch);
    m.defs.truncate(3);
    let n = *ctx.ch.pick(&[65_535usize, 65_536, 65_537, 70_000, 131_073]);
    let mut r = ctx.ch.sub();
    let long = |k: usize| "x".repeat(k);
    let fun = |f: model::MFun| model::MDef { name: 1, parent: 0, unk: [0; 3], kind: model::MKind::Function(f) };
    let list: Vec<u32> = (0..n).map(|_| r.next() as u32).collect();
    let what = ctx.ch.draw(11);
    ctx.step(what, n as u64);
    let base = model::MFun { source: Some((0, 1)), ..Default::default() };
    match what {
        0 => m.names.extend((0..n).map(|i| format!("n{i}"))),
        1 => m.strings.extend((0..n).map(|i| format!("s{}", i % 1000))),
        2 => m.resources.push(long(n * 3)),
        3 => m.defs.extend((0..n).map(|i| model::MDef { name: i as u32, parent: 3, unk: [1, 2, 3], kind: model::MKind::EnumValue(i as i64 - 70_000) })),
        4 => m.defs.push(fun(model::MFun { params: list, ..base })),
        5 => m.defs.push(fun(model::MFun { locals: list, ..base })),
        6 => m.defs.push(fun(model::MFun {
            code: (0..n).map(|i| model::MInstr::new(6, &[(i as i32).wrapping_mul(77_777) as i64 as u64])).collect(),
            ..base
        })),
        7 => {
            let mut i = model::MInstr::new(51, &[0, 7]);
            i.text = Some(long(n.min(60_000)));
            m.defs.push(fun(model::MFun { code: vec![i], ..base }));
        }
        8 => m.defs.push(model::MDef {
            name: 1,
            parent: 0,
            unk: [0; 3],
            kind: model::MKind::Class { vis: 0, flags: 0, base: 0, functions: list.clone(), fields: list.clone(), overrides: list },
        }),
        9 => m.defs.push(model::MDef { name: 1, parent: 0, unk: [0; 3], kind: model::MKind::Enum { flags: 0, size: 4, members: list, unk1: false } }),
        _ => m.defs.push(model::MDef {
            name: 1,
            parent: 0,
            unk: [0; 3],
            kind: model::MKind::Field {
                vis: 1,
                ty: 2,
                flags: 0,
                hint: Some(long(65_535)),
                attrs: vec![(long(65_535), long(65_534))],
                defaults: (0..n).map(|i| (format!("{i}"), String::new())).collect(),
            },
        }),
    }
    m.canon()
}
fn c01_huge(ctx: &mut Ctx) -> V {
    let m = huge(ctx);
    let mut s = SimStream::new(model::encode(&m)).delivery(&mut ctx.ch);
    s.budget *= 10;
    let buf = buffer(&mut ctx.ch);
    let r = load_via(&mut s, buf);
    s.report(ctx);
    progress(ctx, &s)?;
    match r {
        Ok(b) => same_pool(ctx, &b, &m, "content"),
        Err(e) => Err(Violation::new("load-failed", format!("a complete input did not load: {e}"))),
    }
}
fn c02_huge(ctx: &mut Ctx) -> V {
    let m = huge(ctx);
    let b = load(&model::encode(&m)).map_err(|e| Violation::new("load-failed", e.to_string()))?;
    let mut s = SimStream::new(vec![]).delivery(&mut ctx.ch);
    s.budget *= 10;
    let buf = buffer(&mut ctx.ch);
    let r = save_via(&b, &mut s, buf);
    s.report(ctx);
    progress(ctx, &s)?;
    if let Err(e) = r {
        return Err(Violation::new("save-failed", format!("the sink did not fail, the save did: {e}")));
    }
    same_bytes(ctx, &s.data, &m, "content")
}

// ---- C04 ------------------------------------------------------------------------------------------------------

fn arm(ctx: &mut Ctx, s: &mut SimStream, clean_ops: u64, zero: bool) {
    let n = 1 + ctx.ch.weighted(&[6, 1]);
    for _ in 0..n {
        // the last operations (header, final flush) get a share of their own
        let op = if ctx.ch.chance(1, 3) {
            clean_ops.saturating_sub(1 + ctx.ch.draw(12))
        } else {
            ctx.ch.draw(clean_ops.max(1))
        };
        let k = ctx.ch.draw(KINDS.len() as u64) as u8;
        let f = match ctx.ch.weighted(&[3, 3, u64::from(zero)]) {
            0 => Fault::Once(k),
            1 => Fault::Sticky(k),
            _ => Fault::Zero,
        };
        s.faults.push((op, f));
    }
}

/// A save that reports success has put every byte into the sink, whatever happened on the way.
fn c04_errors(ctx: &mut Ctx) -> V {
    let (m, bytes, _) = some_bundle(ctx);
    let b = load(&bytes).map_err(|e| Violation::new("load-failed", e.to_string()))?;
    let mut s = SimStream::new(vec![]);
    if ctx.ch.coin() {
        s.set_delivery(&mut ctx.ch);
    }
    let buf = buffer(&mut ctx.ch);
    let mut clean = s.clone();
    save_via(&b, &mut clean, buf).map_err(|e| Violation::new("save-failed", e.to_string()))?;
    let full = clean.data.clone();
    same_bytes(ctx, &full, &m.clone().canon(), "content")?;
    if ctx.ch.chance(1, 3) {
        // the device fills up
        let cap = if ctx.ch.chance(1, 4) {
            full.len() as u64 - ctx.ch.draw(8.min(full.len() as u64))
        } else {
            ctx.ch.draw(full.len() as u64 + 1)
        };
        s.capacity = Some(cap);
        if ctx.ch.coin() {
            s.chunk = crate::streams::Chunk::Full;
        }
    } else {
        arm(ctx, &mut s, clean.op, true);
    }
    let r = save_via(&b, &mut s, buf);
    s.report(ctx);
    progress(ctx, &s)?;
    ctx.count(if r.is_ok() { "save.ok" } else { "save.reported_error" });
    if r.is_ok() {
        ctx.check(s.data == full, "silent-loss", || {
            let k = s.data.iter().zip(&full).position(|(a, b)| a != b);
            format!(
                "save returned Ok, but the sink has {} of {} bytes, first difference at {k:?}; faults {:?}",
                s.data.len(),
                full.len(),
                s.st.fired
            )
        })?;
    } else {
        ctx.check(s.fired(), "spurious-error", || format!("save failed without a fault: {:?}", r))?;
    }
    // the bundle itself is not affected
    let after = save(&b).map_err(|e| Violation::new("save-failed", e.to_string()))?;
    ctx.check(after == full, "bundle-changed", || "a failed save changed the bundle".into())
}

/// A small bundle, saved once for every operation that can fail: each failure has to be reported.
fn c04_sweep(ctx: &mut Ctx) -> V {
    let m = gen::small(&mut ctx.ch);
    let bytes = model::encode(&m);
    let b = load(&bytes).map_err(|e| Violation::new("load-failed", e.to_string()))?;
    let buf = *ctx.ch.pick(&[None, None, Some(1), Some(5), Some(104), Some(8192)]);
    let mut clean = SimStream::new(vec![]);
    save_via(&b, &mut clean, buf).map_err(|e| Violation::new("save-failed", e.to_string()))?;
    let full = clean.data.clone();
    let k = ctx.ch.draw(KINDS.len() as u64) as u8;
    let zero = ctx.ch.chance(1, 5);
    let stride = clean.op / 400 + 1;
    let mut at = ctx.ch.draw(stride);
    while at < clean.op {
        let mut s = SimStream::new(vec![]);
        s.faults.push((at, if zero { Fault::Zero } else { Fault::Once(k) }));
        let r = save_via(&b, &mut s, buf);
        s.report(ctx);
        if s.fired() {
            ctx.check(r.is_err(), "silent-loss", || {
                format!("save returned Ok although {:?}; the sink has {} of {} bytes, the same: {}", s.st.fired, s.data.len(), full.len(), s.data == full)
            })?;
        }
        at += stride;
    }
    let after = save(&b).map_err(|e| Violation::new("save-failed", e.to_string()))?;
    ctx.check(after == full, "bundle-changed", || "a failed save changed the bundle".into())
}

// ---- C05 ------------------------------------------------------------------------------------------------------

fn c05_errors(ctx: &mut Ctx) -> V {
    let (m, bytes, _) = some_bundle(ctx);
    let mut s = SimStream::new(bytes);
    if ctx.ch.coin() {
        s.set_delivery(&mut ctx.ch);
    }
    let buf = buffer(&mut ctx.ch);
    let mut clean = s.clone();
    load_via(&mut clean, buf).map_err(|e| Violation::new("load-failed", e.to_string()))?;
    arm(ctx, &mut s, clean.op, true);
    let r = load_via(&mut s, buf);
    s.report(ctx);
    progress(ctx, &s)?;
    let first = s.st.fired.first().copied();
    match (r, first) {
        // a premature end of input may go unnoticed only where nothing more was needed
        (Ok(b), Some((_, _, "ZERO"))) if s.st.fired.iter().all(|f| f.2 == "ZERO") => {
            ctx.count("load.ok");
            same_pool(ctx, &b, &m, "content")
        }
        (Ok(_), Some((op, call, what))) => Err(Violation::new(
            "swallowed",
            format!("load returned Ok although {call} failed with {what} at operation {op}"),
        )),
        (Ok(b), None) => {
            ctx.count("load.ok");
            same_pool(ctx, &b, &m, "content")
        }
        (Err(e), None) => Err(Violation::new("spurious-error", format!("no fault was injected, load failed: {e}"))),
        (Err(e), Some((op, call, what))) => {
            ctx.count("load.reported_error");
            if what != "ZERO" {
                let code = KINDS.iter().find(|k| k.2 == what).map(|k| k.1);
                ctx.check(e.raw_os_error() == code, "error-replaced", || {
                    format!("{call} failed with {what} at operation {op}, load reports {e:?}")
                })?;
            }
            Ok(())
        }
    }
}

/// A small cache, loaded once for every operation that can fail: each failure has to be reported as it is.
fn c05_sweep(ctx: &mut Ctx) -> V {
    let m = gen::small(&mut ctx.ch);
    let p = place(&mut ctx.ch, m.defs.len());
    let (bytes, _) = model::encode_with_layout(&m, &p);
    let buf = *ctx.ch.pick(&[None, None, Some(1), Some(5), Some(104), Some(8192)]);
    let mut clean = SimStream::new(bytes.clone());
    load_via(&mut clean, buf).map_err(|e| Violation::new("load-failed", e.to_string()))?;
    let k = ctx.ch.draw(KINDS.len() as u64) as u8;
    let stride = clean.op / 400 + 1;
    let mut at = ctx.ch.draw(stride);
    while at < clean.op {
        let mut s = SimStream::new(bytes.clone());
        s.faults.push((at, Fault::Once(k)));
        let r = load_via(&mut s, buf);
        s.report(ctx);
        if let Some((op, call, what)) = s.st.fired.first().copied() {
            match r {
                Ok(_) => return Err(Violation::new("swallowed", format!("load returned Ok although {call} failed with {what} at operation {op}"))),
                Err(e) => {
                    let code = KINDS.iter().find(|k| k.2 == what).map(|k| k.1);
                    ctx.check(e.raw_os_error() == code, "error-replaced", || format!("{call} failed with {what} at operation {op}, load reports {e:?}"))?;
                }
            }
        }
        at += stride;
    }
    match load(&bytes) {
        Ok(b) => same_pool(ctx, &b, &m, "content"),
        Err(e) => Err(Violation::new("retry-failed", format!("the faults stopped, load still fails: {e}"))),
    }
}

/// After a failed load the same input, read without faults, loads: nothing was left behind.
fn c05_retry(ctx: &mut Ctx) -> V {
    let (m, bytes, _) = some_bundle(ctx);
    let mut s = SimStream::new(bytes);
    let mut clean = s.clone();
    load_via(&mut clean, None).map_err(|e| Violation::new("load-failed", e.to_string()))?;
    let rounds = ctx.ch.range(1, 3);
    for _ in 0..rounds {
        s.faults.clear();
        s.sticky = None;
        let (a, k) = (ctx.ch.draw(clean.op.max(1)), ctx.ch.draw(KINDS.len() as u64) as u8);
        s.faults.push((s.op + a, Fault::Once(k)));
        s.st.fired.clear();
        s.seek(io::SeekFrom::Start(0)).ok();
        let r = load_via(&mut s, None);
        s.report(ctx);
        if r.is_ok() && s.fired() {
            // the fault may have hit the rewind above, which is ours
            if s.st.fired[0].1 != "seek" {
                return Err(Violation::new("swallowed", format!("load returned Ok although {:?}", s.st.fired[0])));
            }
        }
    }
    s.faults.clear();
    s.seek(io::SeekFrom::Start(0)).expect("no fault");
    match load_via(&mut s, None) {
        Ok(b) => same_pool(ctx, &b, &m, "content"),
        Err(e) => Err(Violation::new("retry-failed", format!("the faults stopped, load still fails: {e}"))),
    }
}

// ---- C06 ------------------------------------------------------------------------------------------------------

fn damage(ctx: &mut Ctx, bytes: &mut Vec<u8>, lay: &model::Layout) {
    let n = 1 + ctx.ch.weighted(&[4, 2, 1]);
    for _ in 0..n {
        if bytes.is_empty() {
            return;
        }
        let len = bytes.len() as u64;
        // aim: header, definition headers, bodies, anywhere
        let at = match ctx.ch.weighted(&[3, 3, 4, 2]) {
            0 => ctx.ch.draw(104.min(len)),
            1 if lay.headers.1 > lay.headers.0 => lay.headers.0 as u64 + ctx.ch.draw((lay.headers.1 - lay.headers.0) as u64),
            2 if !lay.defs.is_empty() => {
                let (a, b) = *ctx.ch.pick(&lay.defs);
                a as u64 + ctx.ch.draw((b - a).max(1) as u64)
            }
            _ => ctx.ch.draw(len),
        };
        let at = (at as usize).min(bytes.len() - 1);
        match ctx.ch.weighted(&[3, 3, 3, 2, 2, 2, 1]) {
            0 => {
                let b = ctx.ch.draw(8);
                bytes[at] ^= 1 << b;
                ctx.fault("fault.bit_flip", at as u64);
            }
            1 => {
                bytes[at] = *ctx.ch.pick(&[0u8, 1, 2, 3, 4, 5, 9, 10, 23, 51, 104, 127, 128, 254, 255]);
                ctx.fault("fault.byte_value", at as u64);
            }
            2 => {
                let v = *ctx.ch.pick(&[0xffff_ffffu32, 0x7fff_ffff, 0x8000_0000, 0x1000_0000, 0x0100_0000, 65536, 0]);
                for (k, x) in v.to_le_bytes().into_iter().enumerate() {
                    if let Some(b) = bytes.get_mut(at + k) {
                        *b = x;
                    }
                }
                ctx.fault("fault.field_value", at as u64);
            }
            3 => {
                // a truncated file
                bytes.truncate(at);
                ctx.fault("fault.truncation", at as u64);
            }
            4 => {
                // a block that was never written
                let (a, l) = (at - at % 512, *ctx.ch.pick(&[512usize, 4096, 16]));
                let end = (a + l).min(bytes.len());
                bytes[a..end].fill(0);
                ctx.fault("fault.zeroed_block", a as u64);
            }
            5 => {
                let src = ctx.ch.draw(bytes.len() as u64) as usize;
                let l = ctx.ch.range(1, 64) as usize;
                let part: Vec<u8> = bytes[src..(src + l).min(bytes.len())].to_vec();
                for (k, x) in part.into_iter().enumerate() {
                    if let Some(b) = bytes.get_mut(at + k) {
                        *b = x;
                    }
                }
                ctx.fault("fault.misdirected_block", at as u64);
            }
            _ => {
                let mut r = ctx.ch.sub();
                let l = 1 + r.below(200);
                for k in 0..l as usize {
                    if let Some(b) = bytes.get_mut(at + k) {
                        *b = r.next() as u8;
                    }
                }
                ctx.fault("fault.garbage", at as u64);
            }
        }
    }
}

/// A damaged input is refused, or loads as something that can be saved and loaded again; it never takes the tool down.
fn c06_damage(ctx: &mut Ctx) -> V {
    let m = gen::bundle(&mut ctx.ch);
    let (mut bytes, lay) = model::encode_with_layout(&m, &Place::default());
    damage(ctx, &mut bytes, &lay);
    let mut s = SimStream::new(bytes.clone());
    s.budget = 500_000 + 100 * s.data.len() as u64;
    if ctx.ch.chance(1, 3) {
        s.set_delivery(&mut ctx.ch);
    }
    let r = load_via(&mut s, Some(8192));
    s.report(ctx);
    progress(ctx, &s)?;
    match r {
        Err(_) => {
            ctx.count("load.refused");
            Ok(())
        }
        Ok(b) => {
            ctx.count("load.accepted");
            let s1 = save(&b).map_err(|e| Violation::new("resave-failed", format!("what loaded cannot be saved: {e}")))?;
            let b2 = load(&s1).map_err(|e| Violation::new("resave-unreadable", format!("what was saved does not load: {e}")))?;
            let head = model::MHead {
                version: 0,
                flags: 0,
                timestamp: [0; 8],
                unk3: 0,
                chunks: 0,
            };
            let (p1, p2) = (conv::pool(&b.pool, &head).canon(), conv::pool(&b2.pool, &head).canon());
            let d = diff(&p1, &p2);
            ctx.check(d.is_none(), "resave-content", || format!("loaded / saved and loaded again: {}", d.unwrap()))?;
            let s2 = save(&b2).map_err(|e| Violation::new("resave-failed", e.to_string()))?;
            ctx.check(s1 == s2, "resave-fixpoint", || "the second save differs from the first".into())
        }
    }
}

/// Arbitrary bytes after a plausible header.
fn c06_garbage(ctx: &mut Ctx) -> V {
    let mut r = ctx.ch.sub();
    let n = *ctx.ch.pick(&[0usize, 3, 4, 50, 104, 105, 300, 2000, 20000]);
    let mut bytes: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
    if n >= 104 && ctx.ch.coin() {
        bytes[..4].copy_from_slice(&0x5344_4552u32.to_le_bytes());
        // counts that are plausible for the size
        for t in 0..6 {
            let c = ctx.ch.draw(n as u64) as u32;
            bytes[32 + 12 * t + 4..32 + 12 * t + 8].copy_from_slice(&c.to_le_bytes());
        }
    } else if n >= 4 {
        bytes[..4].copy_from_slice(&0x5344_4552u32.to_le_bytes());
    }
    ctx.fault("fault.garbage", simkit::fnv(&bytes));
    let mut s = SimStream::new(bytes);
    let r = load_via(&mut s, None);
    s.report(ctx);
    progress(ctx, &s)?;
    ctx.count(if r.is_ok() { "load.accepted" } else { "load.refused" });
    if let Ok(b) = r {
        save(&b).map_err(|e| Violation::new("resave-failed", e.to_string()))?;
    }
    Ok(())
}

/// A cache cut short anywhere is refused.
fn c06_truncation(ctx: &mut Ctx) -> V {
    let m = gen::bundle(&mut ctx.ch);
    let bytes = model::encode(&m);
    let cut = ctx.ch.draw(bytes.len() as u64) as usize;
    ctx.fault("fault.truncation", cut as u64);
    let mut s = SimStream::new(bytes[..cut].to_vec());
    let buf = buffer(&mut ctx.ch);
    let r = load_via(&mut s, buf);
    s.report(ctx);
    progress(ctx, &s)?;
    ctx.check(r.is_err(), "truncated-accepted", || format!("{cut} of {} bytes load as a bundle", bytes.len()))
}

// ---- C07 ------------------------------------------------------------------------------------------------------

/// The process is killed during a save into a new file: what is left does not load, or is the complete cache.
fn c07_kill(ctx: &mut Ctx) -> V {
    let (m, bytes, _) = some_bundle(ctx);
    let b = load(&bytes).map_err(|e| Violation::new("load-failed", e.to_string()))?;
    let mut s = SimStream::new(vec![]);
    let cap = *ctx.ch.pick(&[8192usize, 104, 200, 1024, 65536]);
    let mut clean = s.clone();
    save_via(&b, &mut clean, Some(cap)).map_err(|e| Violation::new("save-failed", e.to_string()))?;
    let op = if ctx.ch.chance(1, 3) {
        clean.op.saturating_sub(1 + ctx.ch.draw(6))
    } else {
        ctx.ch.draw(clean.op)
    };
    let f = if ctx.ch.coin() {
        Fault::Kill
    } else {
        // tear at a multiple of 512: a smaller write (the header is 104 bytes) arrives or does not
        Fault::KillDuring(512 * ctx.ch.draw(40) as u32)
    };
    ctx.step(op, clean.data.len() as u64);
    s.faults.push((op, f));
    save_via(&b, &mut s, Some(cap)).ok();
    s.report(ctx);
    let left = s.data;
    match load(&left) {
        Err(_) => {
            ctx.count("crash.refused");
            Ok(())
        }
        Ok(b2) => {
            ctx.count("crash.complete");
            ctx.check(left == clean.data, "partial-accepted", || {
                format!("{} of {} bytes were written, and they load", left.len(), clean.data.len())
            })?;
            same_pool(ctx, &b2, &m.canon(), "content")
        }
    }
}

// ---- C08 ------------------------------------------------------------------------------------------------------

/// The wrapped stream stays visible while the wrapper owns it; it may be the end of a long one.
#[derive(Clone)]
struct Shared(std::rc::Rc<std::cell::RefCell<SimStream>>, u64);
impl Read for Shared {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.0.borrow_mut().read(buf)
    }
}
impl Write for Shared {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.0.borrow_mut().write(buf)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.0.borrow_mut().flush()
    }
}
impl Seek for Shared {
    fn seek(&mut self, to: io::SeekFrom) -> io::Result<u64> {
        let to = match to {
            io::SeekFrom::Start(n) => io::SeekFrom::Start(n.saturating_sub(self.1)),
            to => to,
        };
        Ok(self.0.borrow_mut().seek(to)? + self.1)
    }
}

fn c08_offset(ctx: &mut Ctx) -> V {
    use redscript::io::StreamOffset;
    let n0 = ctx.ch.draw(400) as usize;
    let mut s = SimStream::new((0..n0).map(|i| (i * 7) as u8).collect()).delivery(&mut ctx.ch);
    for _ in 0..ctx.ch.draw(6) {
        let (op, k) = (ctx.ch.draw(80), ctx.ch.draw(KINDS.len() as u64) as u8);
        s.faults.push((op, if ctx.ch.coin() { Fault::Once(k) } else { Fault::Zero }));
    }
    if ctx.ch.chance(1, 4) {
        s.capacity = Some(ctx.ch.draw(600));
    }
    let seekable = ctx.ch.coin();
    let start = ctx.ch.draw(300);
    s.pos = start;
    // what the stream must hold at the end
    let mut shadow = s.data.clone();
    let far = if seekable && ctx.ch.chance(1, 4) {
        *ctx.ch.pick(&[(1u64 << 31) - 200, (1 << 32) - 300, 1 << 32, (5 << 32) + 77, 1 << 53])
    } else {
        0
    };
    let s = Shared(std::rc::Rc::new(std::cell::RefCell::new(s)), far);
    let mut o = if seekable {
        match StreamOffset::new_seekable(s.clone()) {
            Ok(o) => o,
            Err(_) => return ctx.check(s.0.borrow().fired(), "spurious-error", || "no fault, but the position is not to be had".into()),
        }
    } else {
        StreamOffset::new_zeroed(s.clone())
    };
    let zero = if seekable { 0 } else { start };
    ctx.check(o.offset() as u64 + zero == far + start, "start", || format!("stream at {}, offset {}", far + start, o.offset()))?;
    for step in 0..ctx.ch.range(1, 25) {
        let len = ctx.ch.draw(90) as usize;
        let (pos, fired, flushes) = {
            let s = s.0.borrow();
            (s.pos as usize, s.st.fired.len(), s.st.flushes)
        };
        let mut got: Option<Vec<u8>> = None;
        let mut put: Option<Vec<u8>> = None;
        let bytes: Vec<u8> = (0..len).map(|i| (i as u64 * 3 + step + 1) as u8).collect();
        // number of bytes the call says it moved, if it says so
        let kind = ctx.ch.draw(9);
        let told: Result<Option<usize>, io::Error> = match kind {
            0 => {
                let mut buf = vec![0; len];
                let r = o.read(&mut buf);
                got = Some(buf);
                r.map(Some)
            }
            1 => {
                put = Some(bytes.clone());
                o.write(&bytes).map(Some)
            }
            2 => {
                put = Some(bytes.clone());
                o.write_all(&bytes).map(|()| Some(len))
            }
            3 => {
                let mut buf = vec![0; len];
                let r = o.read_exact(&mut buf);
                got = Some(buf);
                r.map(|()| Some(len))
            }
            4 => {
                put = Some(bytes.clone());
                let cut = len / 3;
                o.write_vectored(&[io::IoSlice::new(&bytes[..cut]), io::IoSlice::new(&bytes[cut..])]).map(Some)
            }
            5 => {
                let (mut a, mut b) = (vec![0; len / 2], vec![0; len - len / 2]);
                let r = o.read_vectored(&mut [io::IoSliceMut::new(&mut a), io::IoSliceMut::new(&mut b)]);
                a.extend(b);
                got = Some(a);
                r.map(Some)
            }
            6 => {
                let text = format!("{step} {len};");
                put = Some(text.clone().into_bytes());
                let n = text.len();
                write!(o, "{step} {};", len).map(|()| Some(n))
            }
            7 => {
                let mut buf = vec![];
                let r = Read::by_ref(&mut o).take(len as u64).read_to_end(&mut buf);
                let keep = r.is_ok();
                got = keep.then_some(buf);
                r.map(Some)
            }
            _ => {
                let r = o.flush();
                let now = s.0.borrow().st.flushes;
                ctx.check(now > flushes, "flush-lost", || "flush did not reach the stream".into())?;
                ctx.count(if r.is_ok() { "flush.ok" } else { "flush.error" });
                r.map(|()| Some(0))
            }
        };
        let (now, more) = {
            let s = s.0.borrow();
            (s.pos as usize, s.st.fired.len() > fired)
        };
        let moved = now - pos;
        ctx.check(o.offset() as u64 + zero == far + now as u64, "position", || {
            format!("after step {step} (call {kind}): stream at {}, offset {} from {zero}", far + now as u64, o.offset())
        })?;
        let real_error = more && s.0.borrow().st.fired[fired..].iter().any(|f| f.2 != "ZERO");
        match &told {
            Ok(Some(n)) => {
                ctx.check(*n == moved, "count", || format!("step {step} (call {kind}): {n} bytes reported, {moved} went through"))?;
                // calls that move everything before they return, or nothing when the stream fails
                ctx.check(!real_error, "swallowed", || format!("step {step} (call {kind}): success although the stream failed"))?;
            }
            Ok(None) => {}
            Err(e) => {
                let eintr = e.kind() == io::ErrorKind::Interrupted;
                let short = matches!(e.kind(), io::ErrorKind::UnexpectedEof | io::ErrorKind::WriteZero);
                ctx.check(real_error || eintr || short, "spurious-error", || format!("step {step} (call {kind}): {e:?} without a fault"))?;
            }
        }
        ctx.note(|| format!("call {kind} len {len}: {pos} -> {now}, {told:?}, shadow {}", shadow.len()));
        if let Some(g) = got {
            let n = moved.min(g.len());
            ctx.check(n == 0 || g[..n] == shadow[pos..pos + n], "data", || format!("step {step}: other bytes were read than the stream delivered"))?;
        }
        if let Some(p) = put {
            if moved > 0 {
                if shadow.len() < pos + moved {
                    shadow.resize(pos + moved, 0);
                }
                shadow[pos..pos + moved].copy_from_slice(&p[..moved]);
            }
        }
    }
    drop(o);
    let s = s.0.borrow();
    s.report(ctx);
    progress(ctx, &s)?;
    ctx.check(s.data == shadow, "data", || "the stream holds other bytes than were written".into())
}

const REAL: &[&str] = &["redscript (core crate): bundle, definition, bytecode, encode, decode, io — unmodified", "std::io::BufReader / BufWriter"];
const STUB: &[&str] = &["the input and output streams (simulated: transfer sizes, EINTR, errors, full device, kill)", "the operating system's entropy (getrandom)"];

pub fn checks() -> Vec<Check> {
    macro_rules! sc {
        ($n:expr, $f:expr, $q:expr, $t:expr, $w:expr) => {
            Scenario { name: $n, what: $w, run: $f, quick: $q, thorough: $t }
        };
    }
    vec![
        Check {
            id: "C01",
            rule: "a run counts when a short transfer, EINTR or other fault fired; distinct by operation counts and fault positions",
            real: REAL,
            stub: STUB,
            assumptions: &["an input stream that does not fail delivers its bytes in order"],
            scenarios: vec![
                sc!("delivery", c01_delivery, 40_000, 2_000_000, "a whole bundle over an input that delivers it in pieces"),
                sc!("huge", c01_huge, 300, 10_000, "one table, list or text of more than 65535 entries or bytes"),
                sc!("primitives", c01_primitives, 40_000, 2_000_000, "sequences of decoding primitives over such an input"),
            ],
        },
        Check {
            id: "C02",
            rule: "a run counts when a short transfer, EINTR or changed hash keys took effect; distinct by operation counts and positions",
            real: REAL,
            stub: STUB,
            assumptions: &[],
            scenarios: vec![
                sc!("delivery", c02_delivery, 30_000, 1_500_000, "save over a sink that accepts bytes in pieces; strict decoding of the result"),
                sc!("huge", c02_huge, 300, 10_000, "one table, list or text of more than 65535 entries or bytes"),
                sc!("hash_keys", c02_hash_keys, 4_000, 200_000, "the same save under different hash keys"),
                sc!("primitives", c02_primitives, 40_000, 2_000_000, "sequences of encoding primitives over such a sink"),
            ],
        },
        Check {
            id: "C03",
            rule: "a run counts when a save met a fault; distinct by the sequence of operations and the fault positions",
            real: REAL,
            stub: STUB,
            assumptions: &["the names table has its entry 0, as every script cache has"],
            scenarios: vec![sc!("history", crate::hist::history, 40_000, 2_000_000, "edits, mappings, copies, saves with faults and restarts against plain data")],
        },
        Check {
            id: "C04",
            rule: "a run counts when a fault fired; distinct by fault kind, position and operation count",
            real: REAL,
            stub: STUB,
            assumptions: &["bytes a sink accepted before failing stay where they were put"],
            scenarios: vec![
                sc!("errors", c04_errors, 60_000, 3_000_000, "errors, zero writes and full devices at any operation of a save"),
                sc!("sweep", c04_sweep, 3_000, 200_000, "small bundles, a failure at every operation in turn"),
            ],
        },
        Check {
            id: "C05",
            rule: "a run counts when a fault fired; distinct by fault kind, position and operation count",
            real: REAL,
            stub: STUB,
            assumptions: &[],
            scenarios: vec![
                sc!("errors", c05_errors, 50_000, 3_000_000, "errors and premature ends at any operation of a load"),
                sc!("sweep", c05_sweep, 3_000, 200_000, "small caches, a failure at every operation in turn"),
                sc!("retry", c05_retry, 15_000, 800_000, "failed loads followed by one without faults"),
            ],
        },
        Check {
            id: "C06",
            rule: "every run damages its input; distinct by kind and place of the damage",
            real: REAL,
            stub: STUB,
            assumptions: &["overflow checks off, as in the release profile"],
            scenarios: vec![
                sc!("damage", c06_damage, 80_000, 4_000_000, "bit flips, wrong fields, lost, misdirected and zeroed blocks, truncation"),
                sc!("garbage", c06_garbage, 15_000, 800_000, "arbitrary bytes behind a plausible header"),
                sc!("truncation", c06_truncation, 30_000, 1_500_000, "a cache cut short anywhere"),
            ],
        },
        Check {
            id: "C07",
            rule: "every run kills the process; distinct by the operation at which it happens and the shape of the save",
            real: REAL,
            stub: STUB,
            assumptions: &["the file is new (truncated) and written through a buffer of at least 104 bytes, as all callers do", "a write smaller than 512 bytes is not torn by a process kill"],
            scenarios: vec![sc!("kill", c07_kill, 30_000, 3_000_000, "process kill at any operation of a save")],
        },
        Check {
            id: "C08",
            rule: "a run counts when a short transfer, EINTR or fault fired; distinct by operation counts and positions",
            real: REAL,
            stub: STUB,
            assumptions: &[],
            scenarios: vec![sc!("offset", c08_offset, 150_000, 8_000_000, "reads and writes through the wrapper over a faulty stream")],
        },
    ]
}
