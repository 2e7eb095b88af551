//! redscript-cli (decompile, compile, lint) on the simulated operating system.
use crate::bases::BASES;
use crate::cli;
use crate::scc::{gen_broken, gen_script, plan, Faults, Script, V};
use crate::simfs::{self, Fs, Op, Opts, Outcome, RunInfo};
use redscript::bundle::{PoolIndex, ScriptBundle};
use redscript::definition::{AnyDefinition, Definition, SourceFile, SourceReference};
use redscript_decompiler::files::FileIndex;
use redscript_decompiler::print::{write_definition, OutputMode};
use simkit::{Choices, Ctx};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

const INPUT: &str = "/simfs/in/input.redscripts";

type Content = BTreeMap<String, Option<Arc<Vec<u8>>>>;

/// Runs the tool with faults aimed at the operations an undisturbed run makes.
fn tool(ctx: &mut Ctx, fs: &mut Fs, args: &[String], f: Faults) -> (Outcome<bool>, RunInfo) {
    fs.clock += 10_000_000_000;
    ctx.sim_ns += 10_000_000_000;
    let ops: Vec<Vec<Op>> = if f.most > 0 {
        let mut c = Ctx::new(Choices::replay(vec![]));
        vec![go(&mut c, &mut fs.clone(), args, Opts::default()).1.ops.remove(0)]
    } else {
        vec![]
    };
    let plan = plan(ctx, f, &ops);
    ctx.event("run", || args.join(" "));
    let (o, i) = go(ctx, fs, args, Opts { plan, ..Opts::default() });
    ctx.event("exit", || match &o {
        Outcome::Done(r) => format!("{r}"),
        Outcome::Panicked(p) => format!("panicked {p}"),
        Outcome::Killed => "killed".into(),
    });
    ctx.note(|| format!("log {:?}", i.logs[0]));
    (o, i)
}
fn go(ctx: &mut Ctx, fs: &mut Fs, args: &[String], opts: Opts) -> (Outcome<bool>, RunInfo) {
    let a: Vec<String> = args.to_vec();
    let (mut o, i) = simfs::run(
        ctx,
        fs,
        opts,
        vec![Box::new(move || cli::redscript(&a.iter().map(String::as_str).collect::<Vec<_>>()))],
    );
    (o.remove(0), i)
}

/// Everything but `mine` (files or directories) is as it was.
fn untouched(ctx: &mut Ctx, was: &Content, fs: &Fs, info: &RunInfo, mine: &[&str]) -> V {
    ctx.check(info.escapes.is_empty(), "file-touched", || format!("operations on other files: {:?}", info.escapes))?;
    let is = fs.files();
    let paths: BTreeSet<&String> = was.keys().chain(is.keys()).collect();
    for p in paths {
        let own = mine.iter().any(|m| p == m || p.strip_prefix(m).is_some_and(|r| r.starts_with('/') || r.starts_with('.')));
        ctx.check(own || was.get(p) == is.get(p), "file-touched", || {
            format!(
                "{p} was changed: {:?} -> {:?} bytes",
                was.get(p).map(|d| d.as_ref().map(|d| d.len())),
                is.get(p).map(|d| d.as_ref().map(|d| d.len()))
            )
        })?;
    }
    ctx.count("files.compared");
    Ok(())
}

/// A script cache whose definitions know the files they come from; true if a path leads elsewhere.
fn sourced(ctx: &mut Ctx) -> (Vec<u8>, bool) {
    let version = ctx.ch.draw(2) as usize;
    let mut b = ScriptBundle::load(&mut std::io::Cursor::new(BASES[version])).expect("base");
    let mut hostile = false;
    let mut files = vec![];
    for k in 0..ctx.ch.draw(5) {
        let path = match ctx.ch.draw(9) {
            0 => format!("core/file{k}.script"),
            1 => format!("file{k}.script"),
            2 => format!("cyberpunk/deep/er/still/file{k}.script"),
            3 => format!("./core/./dot{k}.script"),
            4 => {
                hostile = true;
                format!("../up{k}.script")
            }
            5 => {
                hostile = true;
                format!("core/../../../up{k}.script")
            }
            6 => {
                hostile = true;
                format!("/simfs/elsewhere/abs{k}.script")
            }
            7 => {
                hostile = true;
                format!("/redsim-nowhere/abs{k}.script")
            }
            _ => format!("größe/file {k}.script"),
        };
        let f = SourceFile { id: k as u32, path_hash: k, path: path.clone().into() };
        files.push(b.pool.add_definition::<SourceFile>(Definition::source_file(f)));
        ctx.note(|| format!("source file {path}"));
    }
    if !files.is_empty() {
        let funcs: Vec<PoolIndex<redscript::definition::Function>> = b
            .pool
            .definitions()
            .filter(|(_, d)| matches!(&d.value, AnyDefinition::Function(f) if f.source.is_some() || !f.flags.is_native()))
            .map(|(i, _)| i.cast())
            .collect();
        for (n, i) in funcs.into_iter().enumerate() {
            let file = *ctx.ch.pick(&files);
            b.pool.function_mut(i).expect("function").source = Some(SourceReference { file, line: n as u32 });
        }
    }
    let mut out = std::io::Cursor::new(vec![]);
    b.save(&mut out).expect("save");
    (out.into_inner(), hostile)
}

/// What the library prints for the bundle: (one file, file per source path).
fn expected(bytes: &[u8], mode: OutputMode) -> (Vec<u8>, BTreeMap<String, Vec<u8>>) {
    let b = ScriptBundle::load(&mut std::io::Cursor::new(bytes)).expect("bundle");
    let mut one = vec![];
    for (_, d) in b.pool.roots() {
        if matches!(d.value, AnyDefinition::Class(_) | AnyDefinition::Enum(_) | AnyDefinition::Function(_)) {
            write_definition(&mut one, d, &b.pool, 0, mode).ok();
        }
    }
    let mut many = BTreeMap::new();
    for e in FileIndex::from_pool(&b.pool).iter() {
        let mut t = vec![];
        for d in &e.definitions {
            write_definition(&mut t, d, &b.pool, 0, mode).ok();
        }
        many.insert(e.path.to_string_lossy().into_owned(), t);
    }
    (one, many)
}

pub fn decompile(ctx: &mut Ctx, f: Faults, hostile_wanted: bool) -> V {
    let mut fs = Fs::new();
    let (bytes, hostile) = sourced(ctx);
    fs.put(INPUT, &bytes);
    fs.put("/simfs/in/other.txt", b"other");
    fs.put("/simfs/elsewhere/abs0.script", b"elsewhere");
    fs.mkdirs("/simfs/work");
    let (name, mode) = match ctx.ch.draw(4) {
        0 => ("code", OutputMode::Code { verbose: false }),
        1 => ("code", OutputMode::Code { verbose: true }),
        2 => ("ast", OutputMode::SyntaxTree),
        _ => ("bytecode", OutputMode::Bytecode),
    };
    let dump = hostile_wanted || ctx.ch.coin();
    let out = if dump { "/simfs/work/dump" } else { "/simfs/work/out.swift" };
    let mut args: Vec<String> = ["decompile", "-i", INPUT, "-o", out, "-m", name].map(String::from).to_vec();
    if dump {
        args.push("-f".into());
    }
    if matches!(mode, OutputMode::Code { verbose: true }) {
        args.push("-v".into());
    }
    // the output of an earlier run
    if ctx.ch.coin() {
        if dump {
            fs.put(&format!("{out}/orphans.script"), &vec![b'x'; 300_000]);
        } else {
            fs.put(out, &vec![b'x'; 300_000]);
        }
    }
    fs.settle();
    let (one, many) = expected(&bytes, mode);
    for round in 0..1 + ctx.ch.draw(2) {
        let was = fs.files();
        let (o, i) = tool(ctx, &mut fs, &args, if round == 0 { f } else { crate::scc::NONE });
        untouched(ctx, &was, &fs, &i, &[out])?;
        match o {
            Outcome::Done(true) => {
                ctx.count(if i.fired.is_empty() { "runs.ok" } else { "runs.ok_despite_faults" });
                if !dump {
                    let is = fs.read(out);
                    ctx.check(is.as_deref() == Some(&one), "incomplete", || {
                        format!("the output has {:?} bytes, all definitions are {} bytes, and the tool reports success", is.map(|d| d.len()), one.len())
                    })?;
                    ctx.count("outputs.verified");
                } else if !hostile {
                    for (p, t) in &many {
                        let is = fs.read(&format!("{out}/{p}"));
                        ctx.check(is.as_deref() == Some(t), "incomplete", || {
                            format!("{p} has {:?} bytes, its definitions are {} bytes, and the tool reports success", is.map(|d| d.len()), t.len())
                        })?;
                    }
                    ctx.count("outputs.verified");
                } else {
                    ctx.count("runs.hostile");
                }
            }
            Outcome::Done(false) => {
                ctx.count("runs.failed");
                ctx.check(!i.fired.is_empty() || hostile, "failed", || format!("the tool failed without any fault: {:?}", i.logs[0]))?;
            }
            Outcome::Panicked(p) => ctx.check(false, "panic", || format!("redscript-cli panicked: {p}"))?,
            Outcome::Killed => ctx.count("runs.killed"),
        }
        ctx.sig.u64(fs.hash());
    }
    Ok(())
}

struct Sources {
    dirs: Vec<String>,
    scripts: Vec<(String, Script)>,
    issued: u32,
}

fn sources(ctx: &mut Ctx, fs: &mut Fs) -> Sources {
    let mut s = Sources { dirs: vec![], scripts: vec![], issued: 0 };
    for k in 0..1 + ctx.ch.draw(2) {
        if ctx.ch.chance(1, 4) {
            // a single file
            let t = gen_script(ctx, &mut s.issued);
            let p = format!("/simfs/src{k}.reds");
            fs.put(&p, t.text.as_bytes());
            s.dirs.push(p.clone());
            s.scripts.push((p, t));
            continue;
        }
        let d = format!("/simfs/src{k}");
        fs.mkdirs(&d);
        for n in 0..ctx.ch.draw(4) {
            let t = if ctx.ch.chance(1, 8) { gen_broken(ctx, &mut s.issued) } else { gen_script(ctx, &mut s.issued) };
            let p = if ctx.ch.coin() { format!("{d}/f{n}.reds") } else { format!("{d}/sub/f{n}.reds") };
            ctx.note(|| format!("script {p}: {:.200}", t.text));
            fs.put(&p, t.text.as_bytes());
            s.scripts.push((p, t));
        }
        s.dirs.push(d);
    }
    fs.put("/simfs/src0.txt", b"class Nope {");
    s
}

pub fn compile(ctx: &mut Ctx, f: Faults, lint: bool) -> V {
    let out = "/simfs/work/out.redscripts";
    let mut fs = Fs::new();
    let version = ctx.ch.draw(3) as usize;
    fs.put(INPUT, BASES[version]);
    fs.mkdirs("/simfs/work");
    let s = sources(ctx, &mut fs);
    let broken = s.scripts.iter().any(|s| s.1.broken.is_some() || s.1.note.is_some_and(|n| n.fatal));
    if ctx.ch.coin() {
        fs.put(out, &vec![b'x'; 300_000]);
    }
    fs.settle();
    let mut args: Vec<String> = vec![if lint { "lint" } else { "compile" }.into()];
    for d in &s.dirs {
        args.extend(["-s".into(), d.clone()]);
    }
    args.extend(["-b".into(), INPUT.into()]);
    if !lint {
        args.extend(["-o".into(), out.into()]);
    }
    let wanted = (!broken && !lint).then(|| {
        // where nothing was before
        let mut fs = fs.clone();
        fs.remove(out);
        let mut c = Ctx::new(Choices::replay(vec![]));
        go(&mut c, &mut fs, &args, Opts::default());
        fs.read(out)
    });
    for round in 0..1 + ctx.ch.draw(2) {
        let was = fs.files();
        let (o, i) = tool(ctx, &mut fs, &args, if round == 0 { f } else { crate::scc::NONE });
        let mine = [out];
        untouched(ctx, &was, &fs, &i, if lint { &[] } else { &mine })?;
        if i.fired.is_empty() && !s.scripts.iter().any(|s| matches!(s.1.broken, Some("syntax" | "late" | "import"))) && matches!(o, Outcome::Done(_)) {
            for (p, n) in s.scripts.iter().filter_map(|(p, s)| s.note.map(|n| (p, n))) {
                let level = if n.fatal { "ERROR" } else { "WARN" };
                let code = if n.code.is_empty() { String::new() } else { format!("[{}] ", n.code) };
                let place = format!("[{level}] {code}At {p}:{}:", n.line);
                ctx.check(i.logs[0].iter().any(|l| l.starts_with(&place)), "error-hidden", || {
                    format!("the log does not say {place:?}: {:?}", i.logs[0])
                })?;
                ctx.count("errors.flaws_located");
            }
        }
        match o {
            Outcome::Done(true) => {
                ctx.count(if i.fired.is_empty() { "runs.ok" } else { "runs.ok_despite_faults" });
                ctx.check(!broken, "error-hidden", || "success is reported for scripts that do not compile".into())?;
                if let Some(w) = &wanted {
                    let is = fs.read(out);
                    ctx.check(is.is_some() && is == *w, "incomplete", || {
                        format!("the output has {:?} bytes, an undisturbed run makes {:?} bytes", is.as_ref().map(|d| d.len()), w.as_ref().map(|d| d.len()))
                    })?;
                    let is = is.unwrap_or_default();
                    for (p, sc) in &s.scripts {
                        for t in &sc.tokens {
                            let there = is.windows(t.len()).any(|w| w == t.as_bytes());
                            ctx.check(there, "incomplete", || format!("{t} of {p} is not in the output"))?;
                        }
                    }
                    let loads = ScriptBundle::load(&mut std::io::Cursor::new(is.as_slice())).is_ok();
                    ctx.check(loads, "incomplete", || "the output cannot be loaded".into())?;
                    ctx.count("outputs.verified");
                }
            }
            Outcome::Done(false) => {
                ctx.count("runs.failed");
                ctx.check(!i.fired.is_empty() || broken, "failed", || format!("the tool failed without any fault: {:?}", i.logs[0]))?;
                if broken {
                    ctx.check(was.get(out) == fs.files().get(out), "error-changed-output", || {
                        "the output changed although the scripts do not compile".into()
                    })?;
                    ctx.count("errors.kept");
                }
            }
            Outcome::Panicked(p) => ctx.check(false, "panic", || format!("redscript-cli panicked: {p}"))?,
            Outcome::Killed => ctx.count("runs.killed"),
        }
        ctx.sig.u64(fs.hash());
    }
    Ok(())
}
