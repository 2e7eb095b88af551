//! C10: the index of source files of a bundle, under any hash keys.
use crate::core_checks::{load, V};
use crate::model::{self, ff, MBundle, MKind};
use crate::sem::{self, Made};
use redscript::bundle::ScriptBundle;
use redscript::definition::Definition;
use redscript_decompiler::files::FileIndex;
use redscript_decompiler::print::{write_definition, OutputMode};
use simkit::{entropy, Check, Ctx, Scenario, Violation};
use std::collections::{BTreeMap, BTreeSet};

/// path -> indices of the listed definitions, in order; in the order of the entries
type Listing = Vec<(String, Vec<u32>)>;

fn listing(b: &ScriptBundle) -> Listing {
    let at: BTreeMap<usize, u32> = b
        .pool
        .definitions()
        .map(|(i, d)| (d as *const Definition as usize, u32::from(i)))
        .collect();
    FileIndex::from_pool(&b.pool)
        .iter()
        .map(|e| {
            let path = e.path.to_str().unwrap_or("?").to_string();
            let l = e
                .definitions
                .iter()
                .map(|d| at.get(&(*d as *const Definition as usize)).copied().unwrap_or(u32::MAX))
                .collect();
            (path, l)
        })
        .collect()
}

/// What the index has to list.
fn expected(m: &MBundle) -> (BTreeMap<u32, BTreeSet<u32>>, BTreeSet<u32>) {
    let mut files: BTreeMap<u32, BTreeSet<u32>> = BTreeMap::new();
    let mut orphans = BTreeSet::new();
    for (k, d) in m.defs.iter().enumerate() {
        let i = k as u32 + 1;
        match &d.kind {
            MKind::Function(f) => {
                if let Some((file, _)) = f.source {
                    files.entry(file).or_default().insert(if d.parent == 0 { i } else { d.parent });
                }
                if d.parent == 0 && f.flags & ff::NATIVE != 0 {
                    orphans.insert(i);
                }
            }
            MKind::Enum { .. } => {
                orphans.insert(i);
            }
            MKind::Class { functions, .. } => {
                let native = functions.iter().all(|f| match &m.defs[*f as usize - 1].kind {
                    MKind::Function(f) => f.flags & ff::NATIVE != 0,
                    _ => true,
                });
                if native {
                    orphans.insert(i);
                }
            }
            _ => {}
        }
    }
    (files, orphans)
}

fn line(m: &MBundle, i: u32) -> u32 {
    let of = |i: u32| match &m.defs[i as usize - 1].kind {
        MKind::Function(f) => f.source.map(|s| s.1),
        _ => None,
    };
    match &m.defs[i as usize - 1].kind {
        MKind::Class { functions, .. } => functions.iter().filter_map(|f| of(*f)).min().unwrap_or(0),
        _ => of(i).unwrap_or(0),
    }
}

/// Redistributes the functions over files and lines: ties, classes spread over several files, unused files.
fn scatter(ctx: &mut Ctx, made: &mut Made) {
    let files: Vec<u32> = made
        .m
        .defs
        .iter()
        .enumerate()
        .filter(|(_, d)| matches!(d.kind, MKind::Source { .. }))
        .map(|(k, _)| k as u32 + 1)
        .collect();
    let span = *ctx.ch.pick(&[1u64, 2, 5, 40, 100_000]);
    for d in &mut made.m.defs {
        if let MKind::Function(f) = &mut d.kind {
            if f.source.is_some() {
                f.source = Some((*ctx.ch.pick(&files), ctx.ch.draw(span) as u32));
            }
        }
    }
}

fn c10_index(ctx: &mut Ctx) -> V {
    let mut made = sem::make(&mut ctx.ch);
    if ctx.ch.chance(2, 3) {
        scatter(ctx, &mut made);
    }
    let bytes = model::encode(&made.m);
    let (files, orphans) = expected(&made.m);
    let path_of = |i: u32| match &made.m.defs[i as usize - 1].kind {
        MKind::Source { path, .. } => path.clone(),
        _ => String::new(),
    };
    let mut first: Option<BTreeMap<String, Vec<u32>>> = None;
    for _ in 0..3 {
        let seed = ctx.ch.draw(1 << 40);
        let l = entropy::with_hash_seed(seed, || load(&bytes).map(|b| listing(&b)).map_err(|e| e.to_string()))
            .map_err(|_| Violation::new("panic", "panicked"))?
            .map_err(|e| Violation::new("load-failed", e))?;
        ctx.fault("fault.hash_keys", seed);
        let mut got = BTreeMap::new();
        for (p, l) in l {
            ctx.check(!got.contains_key(&p), "file-twice", || format!("{p} is listed twice"))?;
            got.insert(p, l);
        }
        ctx.check(got.len() == files.len() + 1, "files", || {
            format!("{} files listed, expected {} and the orphans", got.len(), files.len())
        })?;
        let o = got.get("orphans.script").cloned().unwrap_or_default();
        ctx.check(o.len() == orphans.len() && o.iter().copied().collect::<BTreeSet<_>>() == orphans, "orphans", || {
            format!("orphans {o:?}, expected {orphans:?}")
        })?;
        for (f, want) in &files {
            let p = path_of(*f);
            let l = got.get(&p).cloned().unwrap_or_default();
            ctx.check(l.len() == want.len() && l.iter().copied().collect::<BTreeSet<_>>() == *want, "listed", || {
                format!("{p} lists {l:?}, expected {want:?}")
            })?;
            let lines: Vec<u32> = l.iter().map(|i| line(&made.m, *i)).collect();
            ctx.check(lines.windows(2).all(|w| w[0] <= w[1]), "order", || format!("{p} lists {l:?} with first lines {lines:?}"))?;
            ctx.add("defs.listed", l.len() as u64);
        }
        match &first {
            None => first = Some(got),
            Some(f) => ctx.check(*f == got, "hash-order", || format!("two processes list {f:?} and {got:?}"))?,
        }
    }
    Ok(())
}

/// Every declaration is found, once per file it belongs to, in what dumping the files writes.
fn c10_dump(ctx: &mut Ctx) -> V {
    let mut made = sem::make(&mut ctx.ch);
    if ctx.ch.chance(2, 3) {
        scatter(ctx, &mut made);
    }
    let bytes = model::encode(&made.m);
    let (files, orphans) = expected(&made.m);
    let seed = ctx.ch.draw(1 << 40);
    ctx.fault("fault.hash_keys", seed);
    let out = entropy::with_hash_seed(seed, || {
        let b = load(&bytes).map_err(|e| e.to_string())?;
        let mut out = BTreeMap::new();
        for e in FileIndex::from_pool(&b.pool).iter() {
            let mut o = vec![];
            for d in e.definitions {
                write_definition(&mut o, d, &b.pool, 0, OutputMode::Code { verbose: false }).map_err(|e| e.to_string())?;
            }
            out.insert(e.path.to_str().unwrap_or("?").to_string(), String::from_utf8_lossy(&o).to_string());
        }
        Ok::<_, String>(out)
    })
    .map_err(|_| Violation::new("panic", "panicked"))?
    .map_err(|e| Violation::new("write-failed", e))?;
    for d in &made.decls {
        let text: String = d.parts.iter().map(|p| p[0].as_str()).collect();
        let mut homes: Vec<String> = files
            .iter()
            .filter(|(_, s)| s.contains(&d.index))
            .map(|(f, _)| match &made.m.defs[*f as usize - 1].kind {
                MKind::Source { path, .. } => path.clone(),
                _ => String::new(),
            })
            .collect();
        if orphans.contains(&d.index) {
            homes.push("orphans.script".into());
        }
        ctx.check(!homes.is_empty(), "homeless", || format!("{} belongs to no file", d.name))?;
        for h in homes {
            ctx.check(out.get(&h).is_some_and(|t| t.contains(&text)), "text-lost", || {
                format!("{} is not in {h} as expected:\n{text}", d.name)
            })?;
        }
    }
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C10",
        rule: "every run loads one bundle in processes with different hash keys; distinct by hash keys",
        real: &["redscript (core crate) and redscript-decompiler, unmodified"],
        stub: &["the process's source of hash keys"],
        assumptions: &["source references name source file definitions, as in every cache the compilers write"],
        scenarios: vec![
            Scenario { name: "index", what: "the listing under three different hash keys, against the model", run: c10_index, quick: 8_000, thorough: 400_000 },
            Scenario { name: "dump", what: "the text of every declaration is in the files it belongs to", run: c10_dump, quick: 8_000, thorough: 400_000 },
        ],
    }]
}
