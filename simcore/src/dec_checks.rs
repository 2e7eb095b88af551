//! C09: what the decompiler writes, over sinks that accept it in pieces or fail.
use crate::core_checks::{load, V};
use crate::model::{self, MInstr, MKind};
use crate::sem::{self, Made};
use crate::streams::{Fault, SimStream, KINDS};
use redscript::bundle::{PoolIndex, ScriptBundle};
use redscript::definition::Definition;
use redscript_decompiler::error::Error;
use redscript_decompiler::print::{write_definition, OutputMode};
use simkit::{Check, Ctx, Scenario, Violation};
use std::io::{BufWriter, Write};

fn write(b: &ScriptBundle, i: u32, s: &mut impl Write, mode: OutputMode) -> Result<(), Error> {
    let d = b.pool.definition::<Definition>(PoolIndex::new(i)).expect("declared");
    write_definition(s, d, &b.pool, 0, mode)
}

fn sample(ctx: &mut Ctx) -> Result<(Made, ScriptBundle), Violation> {
    let made = sem::make(&mut ctx.ch);
    let bytes = model::encode(&made.m);
    let b = load(&bytes).map_err(|e| Violation::new("load-failed", e.to_string()))?;
    Ok((made, b))
}

fn differ(got: &[u8], want: &str) -> String {
    let got = String::from_utf8_lossy(got);
    let k = got.lines().zip(want.lines()).position(|(a, b)| a != b);
    match k {
        Some(k) => format!(
            "line {}: got {:.200?}, expected {:.200?}",
            k + 1,
            got.lines().nth(k).unwrap(),
            want.lines().nth(k).unwrap()
        ),
        None => format!("{} bytes, expected {}", got.len(), want.len()),
    }
}

fn mode(ctx: &mut Ctx) -> (OutputMode, Option<usize>) {
    match ctx.ch.weighted(&[3, 3, 1, 2]) {
        0 => (OutputMode::Code { verbose: false }, Some(0)),
        1 => (OutputMode::Code { verbose: true }, Some(1)),
        2 => (OutputMode::SyntaxTree, None),
        _ => (OutputMode::Bytecode, None),
    }
}

/// What a line of the listing says: its address, mnemonic and operands, without the names around them.
fn distil(l: &str) -> String {
    let Some((a, r)) = l.split_once(": ").filter(|(a, _)| a.trim_start().parse::<u64>().is_ok()) else {
        return l.to_string();
    };
    let n = r.find(|c: char| !c.is_ascii_alphanumeric()).unwrap_or(r.len());
    let (text, rest) = match (r.find('"'), r.rfind('"')) {
        (Some(a), Some(b)) => (&r[a..=b], &r[b + 1..]),
        _ => ("", &r[n..]),
    };
    let ops: Vec<&str> = rest
        .split(|c: char| !(c.is_ascii_alphanumeric() || "_.+-".contains(c)))
        .filter(|t| t.starts_with(|c: char| c.is_ascii_digit() || c == '-') || ["nan", "inf", "true", "false"].contains(t))
        .collect();
    let head = [&r[..n], text];
    let head = if text.is_empty() { &head[..1] } else { &head[..] };
    format!("{a}: {}", [head, &ops[..]].concat().join(" "))
}

/// The listing has the declaration, every local and every instruction with its operands, in order, at its address.
fn listing(ctx: &mut Ctx, d: &sem::Decl, out: &[u8]) -> V {
    let text = String::from_utf8_lossy(out);
    let want: String = d.parts.iter().map(|p| p[2].as_str()).collect();
    let got: String = text.lines().map(|l| distil(l) + "\n").collect();
    ctx.check(got == want, "listing", || format!("{}: {}", d.name, differ(got.as_bytes(), &want)))
}

/// The syntax tree stands below the heads of the declaration and its methods, in order.
fn tree(ctx: &mut Ctx, d: &sem::Decl, out: &[u8]) -> V {
    let text = String::from_utf8_lossy(out);
    let mut at = 0;
    for p in &d.parts {
        let f = text[at..].find(&p[3]);
        ctx.check(f.is_some(), "tree", || format!("{}: {:.200?} is missing", d.name, p[3]))?;
        at += f.unwrap() + p[3].len();
    }
    Ok(())
}

/// Whatever way the sink takes it, the text is the source text of the definition.
fn c09_text(ctx: &mut Ctx) -> V {
    let (made, b) = sample(ctx)?;
    for d in &made.decls {
        let (m, v) = mode(ctx);
        let mut s = SimStream::new(vec![]).delivery(&mut ctx.ch);
        let r = if ctx.ch.coin() {
            write(&b, d.index, &mut s, m)
        } else {
            let mut w = BufWriter::with_capacity(64, &mut s);
            let r = write(&b, d.index, &mut w, m);
            r.and_then(|()| Ok(w.flush()?))
        };
        s.report(ctx);
        if let Err(e) = r {
            return Err(Violation::new("write-failed", format!("{}: the sink did not fail, {e}", d.name)));
        }
        if let Some(v) = v {
            let want: String = d.parts.iter().map(|p| p[v].as_str()).collect();
            if s.data != want.as_bytes() {
                ctx.note(|| format!("written:\n{}expected:\n{want}", String::from_utf8_lossy(&s.data)));
            }
            ctx.check(s.data == want.as_bytes(), "text", || format!("{}: {}", d.name, differ(&s.data, &want)))?;
        } else {
            let mut plain = vec![];
            write(&b, d.index, &mut plain, m).map_err(|e| Violation::new("write-failed", e.to_string()))?;
            ctx.check(plain == s.data, "delivery", || format!("{}: {}", d.name, differ(&s.data, &String::from_utf8_lossy(&plain))))?;
            if matches!(m, OutputMode::Bytecode) {
                listing(ctx, d, &plain)?;
            } else {
                tree(ctx, d, &plain)?;
            }
        }
    }
    Ok(())
}

fn break_methods(ctx: &mut Ctx, made: &mut Made) -> Vec<u32> {
    let mut broken = vec![];
    for d in &made.decls {
        if d.parts.len() < 2 {
            continue;
        }
        for f in &d.funs {
            if ctx.ch.chance(1, 4) {
                if let MKind::Function(x) = &mut made.m.defs[*f as usize - 1].kind {
                    if x.code.is_empty() {
                        continue;
                    }
                    // code the decompiler cannot make sense of
                    let bad = *ctx.ch.pick(&[27u8, 38, 30]);
                    let at = ctx.ch.draw(2) as usize;
                    let at = if at == 0 { 0 } else { x.code.len() };
                    if at == x.code.len() && matches!(x.code.last(), Some(i) if i.op != 0) {
                        continue;
                    }
                    x.code.insert(at.min(x.code.len()), MInstr::new(bad, &[]));
                    if at == 0 {
                        broken.push(*f);
                        ctx.fault("fault.broken_method", u64::from(*f));
                    } else {
                        // unreachable or not, it is not at the start: leave it out
                        x.code.pop();
                    }
                }
            }
        }
    }
    broken
}

/// A method that cannot be decompiled does not take the others with it.
fn c09_broken(ctx: &mut Ctx) -> V {
    let mut made = sem::make(&mut ctx.ch);
    let broken = break_methods(ctx, &mut made);
    let b = load(&model::encode(&made.m)).map_err(|e| Violation::new("load-failed", e.to_string()))?;
    let v = usize::from(ctx.ch.coin());
    for d in made.decls.iter().filter(|d| d.parts.len() > 1) {
        let mut s = SimStream::new(vec![]).delivery(&mut ctx.ch);
        let r = write(&b, d.index, &mut s, OutputMode::Code { verbose: v == 1 });
        s.report(ctx);
        ctx.check(r.is_ok(), "class-lost", || format!("{}: {:?}", d.name, r))?;
        let text = String::from_utf8_lossy(&s.data).to_string();
        let mut at = 0;
        for (k, p) in d.parts.iter().enumerate() {
            if k > 0 && k <= d.funs.len() && broken.contains(&d.funs[k - 1]) {
                continue;
            }
            let f = text[at..].find(&p[v]);
            ctx.check(f.is_some(), "neighbour-lost", || format!("{}: part {k} is missing: {:.200?}", d.name, p[v]))?;
            at += f.unwrap() + p[v].len();
        }
    }
    Ok(())
}

/// A sink that fails is reported; success means the whole text is in the sink.
fn c09_errors(ctx: &mut Ctx) -> V {
    let mut made = sem::make(&mut ctx.ch);
    if ctx.ch.chance(1, 4) {
        break_methods(ctx, &mut made);
    }
    let b = load(&model::encode(&made.m)).map_err(|e| Violation::new("load-failed", e.to_string()))?;
    let k = ctx.ch.below(made.decls.len());
    let d = &made.decls[k];
    let (m, _) = mode(ctx);
    let mut s = SimStream::new(vec![]);
    if ctx.ch.chance(1, 3) {
        s.set_delivery(&mut ctx.ch);
    }
    let mut clean = s.clone();
    if write(&b, d.index, &mut clean, m).is_err() {
        return Ok(());
    }
    let full = clean.data.clone();
    // several places to fail, each from the start
    let fresh = s.clone();
    for _ in 0..8 {
        let mut s = fresh.clone();
        if ctx.ch.chance(1, 4) {
            let cap = ctx.ch.draw(full.len() as u64 + 1);
            s.capacity = Some(cap);
        } else {
            let op = ctx.ch.draw(clean.op.max(1));
            let k = ctx.ch.draw(KINDS.len() as u64) as u8;
            s.faults.push((op, *ctx.ch.pick(&[Fault::Once(k), Fault::Sticky(k), Fault::Zero])));
        }
        let r = write(&b, d.index, &mut s, m);
        s.report(ctx);
        match r {
            Ok(()) => ctx.check(s.data == full, "silent-loss", || {
                format!("{}: reported success; {}; faults {:?}", d.name, differ(&s.data, &String::from_utf8_lossy(&full)), s.st.fired)
            })?,
            Err(e) => {
                ctx.check(s.fired(), "spurious-error", || format!("{}: {e}", d.name))?;
                ctx.check(matches!(e, Error::IoError(_)), "error-replaced", || format!("{}: the sink failed, reported: {e:?}", d.name))?;
            }
        }
    }
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C09",
        rule: "a run counts when a short transfer, EINTR, error or broken method took effect; distinct by fault positions and operation counts",
        real: &["redscript (core crate) and redscript-decompiler, unmodified", "std::io::BufWriter"],
        stub: &["the sink (simulated: transfer sizes, EINTR, errors, full device)"],
        assumptions: &["code laid out as the game's compiler and redscript's own lay it out"],
        scenarios: vec![
            Scenario { name: "text", what: "generated definitions with known source text, written over sinks that take it in pieces", run: c09_text, quick: 25_000, thorough: 1_500_000 },
            Scenario { name: "broken", what: "some methods of a class cannot be decompiled", run: c09_broken, quick: 8_000, thorough: 400_000 },
            Scenario { name: "errors", what: "the sink fails at any operation, or fills up", run: c09_errors, quick: 25_000, thorough: 1_500_000 },
        ],
    }]
}
