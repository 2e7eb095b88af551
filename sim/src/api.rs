//! scc-lib through its C interface, as a host program (a game plugin) uses it.
use crate::scc::*;
use crate::simfs::{self, Job, Opts, Outcome};
use scc_lib::api::*;
use simkit::Ctx;
use std::collections::BTreeSet;
use std::ffi::CString;

#[derive(Debug, Clone)]
pub struct Ref {
    kind: u8,
    native: bool,
    name: String,
    parent: String,
    path: String,
    line: usize,
}

#[derive(Debug, Default)]
pub struct Answer {
    ok: bool,
    refs: Vec<Ref>,
    /// problems of the interface itself
    bad: Vec<String>,
    error: String,
}

fn text(s: StrWithLen<'_>) -> String {
    // ptr and length, as a C program sees it
    let (p, n): (*const u8, usize) = unsafe { std::mem::transmute(s) };
    if p.is_null() {
        return String::new();
    }
    String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, n) }).into_owned()
}

const CANARY: u8 = 0xA5;

fn error_text(r: &SccResult, sizes: &[usize], bad: &mut Vec<String>) -> String {
    let mut big = vec![CANARY; 1 << 16];
    let n = unsafe { scc_copy_error(r, big.as_mut_ptr(), big.len() - 64) };
    if n >= big.len() - 64 || big[n] != 0 {
        bad.push(format!("the error text of {n} bytes is not terminated"));
        return String::new();
    }
    let full = big[..n].to_vec();
    for s in sizes.iter().copied().chain([n.saturating_sub(1), n, n + 1]) {
        let mut buf = vec![CANARY; s + (1 << 16)];
        let k = unsafe { scc_copy_error(r, buf.as_mut_ptr(), s) };
        if buf[s..].iter().any(|b| *b != CANARY) {
            bad.push(format!("bytes written behind a buffer of {s}"));
        }
        if s > 0 && (k >= s || buf[k] != 0 || buf[..k] != full[..k]) {
            bad.push(format!("a buffer of {s} bytes does not hold the (cut) text: {k} bytes are reported"));
        }
        if s > n && k != n {
            bad.push(format!("a buffer of {s} bytes has {k} of {n} bytes"));
        }
    }
    String::from_utf8_lossy(&full).into_owned()
}

fn call(r6: &str, mode: Mode, extra: Vec<String>, sizes: Vec<usize>) -> Answer {
    let c = |s: &str| CString::new(s).expect("path");
    let mut a = Answer::default();
    unsafe {
        let (r6, cache, out) = (c(r6), c(mode.cache()), c(mode.output()));
        let mut s = scc_settings_new(r6.as_ptr());
        if mode.custom() {
            scc_settings_set_custom_cache_file(&mut s, cache.as_ptr());
        }
        if mode.separate() {
            scc_settings_set_output_cache_file(&mut s, out.as_ptr());
        }
        for p in extra {
            let p = c(&p);
            scc_settings_add_script_path(&mut s, p.as_ptr());
        }
        let r = scc_compile(s);
        match scc_get_success(&r) {
            None => {
                a.error = error_text(&r, &sizes, &mut a.bad);
                if a.error.is_empty() {
                    a.bad.push("a failure without an error text".into());
                }
            }
            Some(o) => {
                a.ok = true;
                let mut b = [CANARY; 8];
                if scc_copy_error(&r, b.as_mut_ptr(), 8) != 0 {
                    a.bad.push("a success has an error text".into());
                }
                for k in 0..scc_output_source_ref_count(o) {
                    let l = &*scc_output_get_source_ref(o, k);
                    a.refs.push(Ref {
                        kind: scc_source_ref_type(o, l) as u8,
                        native: scc_source_ref_is_native(o, l),
                        name: text(scc_source_ref_name(o, l)),
                        parent: text(scc_source_ref_parent_name(o, l)),
                        path: text(scc_source_ref_path(o, l)),
                        line: scc_source_ref_line(o, l),
                    });
                }
            }
        }
        scc_free_result(r);
    }
    a
}

/// Name as written in the source: without module and signature.
fn simple(name: &str) -> &str {
    let n = name.split(';').next().unwrap_or("");
    n.rsplit('.').next().unwrap_or(n)
}

pub fn histories(ctx: &mut Ctx, f: Faults, modes: &[Mode]) -> V {
    let mut g = install(ctx, P::Api);
    let mode = *ctx.ch.pick(modes);
    for _ in 0..1 + ctx.ch.draw(3) {
        g.fs.clock += 10_000_000_000;
        ctx.sim_ns += 10_000_000_000;
        excuse(&mut g, mode);
        let ops = if f.most > 0 { rehearse(&g, &[mode]) } else { vec![] };
        let plan = plan(ctx, f, &ops);
        let extra: Vec<String> = if g.extra { g.paths.lines().map(str::to_string).collect() } else { vec![] };
        let sizes: Vec<usize> = (0..4).map(|_| ctx.ch.draw(200) as usize).collect();
        let broken = g.scripts.values().any(|s| s.broken.is_some());
        ctx.event("call", || format!("{mode:?} broken={broken}"));
        let job: Job<Answer> = Box::new(move || call("/simfs/r6", mode, extra, sizes));
        let (mut o, info) = simfs::run(ctx, &mut g.fs, Opts { plan, ..Opts::default() }, vec![job]);
        g.disturbed |= !info.fired.is_empty();
        match o.remove(0) {
            Outcome::Done(a) => {
                ctx.event("answer", || format!("{} refs {} {:?}", a.ok, a.refs.len(), a.bad));
                g.chk(ctx, a.bad.is_empty(), "api", || format!("{:?}", a.bad))?;
                g.chk(ctx, !(a.ok && broken), "api", || "success for scripts that do not compile".into())?;
                if a.ok && !broken {
                    check_output(ctx, &mut g, mode, "api")?;
                    refs(ctx, &g, &a)?;
                    ctx.count("answers.success");
                } else {
                    let locked = g.locked.is_some();
                    g.chk(ctx, broken || locked || !info.fired.is_empty(), "api", || format!("failed without any fault: {}", a.error))?;
                    if broken && info.fired.is_empty() && !locked {
                        let bad: BTreeSet<String> = g.scripts.iter().filter(|(_, s)| s.broken.is_some()).map(|(p, _)| cause(p)).collect();
                        g.chk(ctx, bad.iter().any(|b| a.error.contains(b.as_str())), "api", || {
                            format!("the error text names none of {bad:?}: {}", a.error)
                        })?;
                    }
                    // the log has the same text
                    let sorted = |t: &str| {
                        let mut l: Vec<String> = t.split('\n').map(String::from).collect();
                        l.sort();
                        l
                    };
                    let said = info.logs[0].iter().any(|l| l.strip_prefix("[ERROR] ").is_some_and(|l| sorted(l) == sorted(&a.error)));
                    g.chk(ctx, said, "api", || format!("the error text {:?} is not what the log says: {:?}", a.error, info.logs[0]))?;
                    ctx.count("answers.error");
                }
            }
            Outcome::Panicked(p) => g.chk(ctx, false, "api", || format!("panicked: {p}"))?,
            Outcome::Killed => ctx.count("runs.killed"),
        }
        ctx.step(g.fs.hash(), 0);
        for _ in 0..ctx.ch.draw(3) {
            happen(ctx, &mut g, mode);
        }
    }
    Ok(())
}

fn refs(ctx: &mut Ctx, g: &Game, a: &Answer) -> V {
    for r in &a.refs {
        let Some(s) = g.scripts.get(&r.path) else {
            return g.chk(ctx, false, "api", || format!("{r:?} is in no script"));
        };
        let lines: Vec<&str> = s.text.lines().collect();
        // the reference points at the beginning of the declaration, which may begin with annotations
        let near = lines.iter().skip(r.line).find(|l| !l.starts_with('@')).is_some_and(|l| l.contains(simple(&r.name)));
        g.chk(ctx, r.line < lines.len() && near && !simple(&r.name).is_empty(), "api", || {
            format!("{r:?} does not point at its declaration in {:?}", s.text)
        })?;
        let line = lines.iter().skip(r.line).find(|l| !l.starts_with('@')).unwrap_or(&"");
        let words: Vec<&str> = line.split_whitespace().collect();
        let kinds: Vec<u8> = [("class", 1), ("struct", 1), ("let", 2), ("func", 3), ("enum", 4)].iter().filter(|k| words.contains(&k.0)).map(|k| k.1).collect();
        g.chk(ctx, (1..=4).contains(&r.kind) && (kinds.len() != 1 || kinds[0] == r.kind), "api", || format!("{r:?} has the wrong kind"))?;
        if kinds.len() == 1 {
            g.chk(ctx, r.native == words.contains(&"native"), "api", || format!("{r:?} is declared as {line:?}"))?;
            ctx.count("refs.kinds");
        }
        ctx.count("refs.checked");
    }
    for (p, s) in &g.scripts {
        // (odd scripts may declare a name twice, or none)
        for t in s.tokens.iter().filter(|_| s.note.is_none()) {
            let found: Vec<&Ref> = a.refs.iter().filter(|r| r.path == *p && simple(&r.name) == t).collect();
            g.chk(ctx, found.len() == 1, "api", || format!("{t} of {p} has {} references", found.len()))?;
            let Some(r) = found.first() else { continue };
            let kind = if s.text.contains(&format!("class {t}")) || s.text.contains(&format!("struct {t}")) {
                1
            } else if s.text.contains(&format!("enum {t}")) {
                4
            } else {
                3
            };
            g.chk(ctx, r.kind == kind, "api", || format!("{r:?} should be of kind {kind}"))?;
            let parent = if s.text.starts_with("@addMethod(Player)") { "Player" } else { "" };
            if r.kind == 3 {
                g.chk(ctx, r.parent == parent, "api", || format!("{r:?} should have the parent {parent:?}"))?;
            }
            ctx.count("refs.found");
        }
    }
    Ok(())
}
