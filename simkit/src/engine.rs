use crate::choices::Choices;
use crate::json::{esc, get_str, get_u64s};
use crate::{fnv, Fnv};
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::{Read, Write};
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Violation {
    /// Stable identification of what went wrong; the minimiser keeps it, and the known-findings file names it.
    pub class: String,
    pub msg: String,
}

impl Violation {
    pub fn new(class: impl Into<String>, msg: impl Into<String>) -> Self {
        Violation {
            class: class.into(),
            msg: msg.into(),
        }
    }
}

pub type Run = fn(&mut Ctx) -> Result<(), Violation>;

pub struct Scenario {
    pub name: &'static str,
    pub what: &'static str,
    pub run: Run,
    pub quick: u64,
    pub thorough: u64,
}

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    pub scenarios: Vec<Scenario>,
}

pub struct Ctx {
    pub ch: Choices,
    pub tracing: bool,
    pub trace: Vec<String>,
    pub stats: BTreeMap<&'static str, u64>,
    /// Signature of everything observable that happened, in order.
    pub sig: Fnv,
    /// Signature of the schedule and faults only (the measure of distinct executions).
    pub shape: Fnv,
    pub nontrivial: bool,
    pub sim_ns: u64,
    pub steps: u64,
    pub thorough: bool,
}

impl Ctx {
    pub fn new(ch: Choices) -> Self {
        Ctx {
            ch,
            tracing: false,
            trace: vec![],
            stats: BTreeMap::new(),
            sig: Fnv::new(),
            shape: Fnv::new(),
            nontrivial: false,
            sim_ns: 0,
            steps: 0,
            thorough: false,
        }
    }
    pub fn count(&mut self, k: &'static str) {
        *self.stats.entry(k).or_default() += 1;
    }
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.stats.entry(k).or_default() += n;
    }
    /// A fault was injected (and took effect).
    pub fn fault(&mut self, k: &'static str, at: u64) {
        self.count(k);
        self.nontrivial = true;
        self.shape.str(k).u64(at);
        self.sig.str(k).u64(at);
        if self.tracing {
            self.trace.push(format!("FAULT {k} at {at}"));
        }
    }
    pub fn event(&mut self, kind: &str, detail: impl FnOnce() -> String) {
        self.steps += 1;
        let d = detail();
        self.sig.str(kind).str(&d);
        if self.tracing && self.trace.len() < 4000 {
            self.trace.push(format!("{kind} {d}"));
        }
    }
    /// One step of the schedule or history.
    pub fn step(&mut self, kind: u64, at: u64) {
        self.steps += 1;
        self.shape.u64(kind).u64(at);
        self.sig.u64(kind).u64(at);
        if self.tracing && self.trace.len() < 4000 {
            self.trace.push(format!("step {kind} {at}"));
        }
    }
    pub fn note(&mut self, detail: impl FnOnce() -> String) {
        if self.tracing && self.trace.len() < 4000 {
            self.trace.push(detail());
        }
    }
    pub fn check(&mut self, ok: bool, class: &str, msg: impl FnOnce() -> String) -> Result<(), Violation> {
        self.count("oracle.checks");
        if ok {
            Ok(())
        } else {
            Err(Violation::new(class, msg()))
        }
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// Message and place of the last panic on this thread.
pub fn take_panic() -> Option<String> {
    LAST_PANIC.with(|p| p.borrow_mut().take())
}

pub fn panic_text(e: &(dyn Any + Send)) -> String {
    take_panic().unwrap_or_else(|| {
        e.downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into())
    })
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let at = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} @ {at}")));
        if std::env::var_os("SIM_PANIC_VERBOSE").is_some() {
            eprintln!("panic: {msg} @ {at}");
        }
    }));
}

pub fn run_one(sc: &Scenario, ch: Choices, tracing: bool, thorough: bool) -> (Result<(), Violation>, Ctx) {
    let mut ctx = Ctx::new(ch);
    ctx.tracing = tracing;
    ctx.thorough = thorough;
    // a fresh thread per run: no thread-local state (hash keys among it) is carried from run to run
    let run = sc.run;
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn_scoped(s, move || {
                crate::entropy::set_thread_seed(0x5eed);
                let r = catch_unwind(AssertUnwindSafe(|| run(&mut ctx)));
                let r = match r {
                    Ok(r) => r,
                    Err(e) => {
                        let t = panic_text(&*e);
                        // the place is part of the message, not of the class: lines move
                        Err(Violation::new("panic", format!("panicked: {t}")))
                    }
                };
                (r, ctx)
            })
            .expect("thread")
            .join()
            .expect("run thread")
    })
}

fn seed_for(base: u64, id: &str, scn: &str, i: u64) -> u64 {
    let mut f = Fnv::new();
    f.u64(base).str(id).str(scn).u64(i);
    let mut r = crate::Rng::new(f.get());
    r.next()
}

struct Known {
    classes: Vec<(String, String, String)>,
}

impl Known {
    /// Lines `known: property=<id> class=<class> <what fails>`; `fixed:` lines suppress nothing.
    fn load(dir: &Path) -> Known {
        let text = fs::read_to_string(dir.join("known-findings.txt")).unwrap_or_default();
        let mut classes = vec![];
        for l in text.lines() {
            let Some(rest) = l.strip_prefix("known: property=") else {
                continue;
            };
            let mut it = rest.splitn(3, ' ');
            let id = it.next().unwrap_or("").to_string();
            let class = it.next().unwrap_or("").trim_start_matches("class=").to_string();
            let what = it.next().unwrap_or("").to_string();
            if !class.is_empty() {
                classes.push((id, class, what));
            }
        }
        Known { classes }
    }
    fn matches(&self, id: &str, class: &str) -> bool {
        self.classes.iter().any(|(i, c, _)| i == id && c == class)
    }
}

struct Env {
    verif: PathBuf,
    thorough: bool,
    seed: u64,
    scale: f64,
    cap: Duration,
    jobs: u64,
}

fn env() -> Env {
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let scale = std::env::var("SIM_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let cap = std::env::var("SIM_CAP_S")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if thorough { 3000 } else { 240 });
    let jobs = std::env::var("SIM_JOBS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get() as u64))
        .max(1);
    Env {
        verif: std::env::var_os("VERIF_DIR").map_or_else(|| PathBuf::from("/verif"), PathBuf::from),
        thorough,
        seed,
        scale,
        cap: Duration::from_secs(cap),
        jobs,
    }
}

pub fn main_entry(checks: Vec<Check>) -> ! {
    install_hook();
    crate::entropy::install();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(String::as_str).collect();
    let code = match a.as_slice() {
        ["check", id] => check(&checks, id),
        ["worker", id, job, jobs, out] => worker(&checks, id, job.parse().unwrap(), jobs.parse().unwrap(), Path::new(out)),
        ["case", id, scn, file] => case(&checks, id, scn, Path::new(file)),
        ["seedcase", id, scn, idx, file] => seedcase(&checks, id, scn, idx.parse().unwrap(), Path::new(file)),
        ["minimise", id, scn, class, file] => minimise(&checks, id, scn, class, Path::new(file)),
        ["replay", file] => replay(&checks, Path::new(file)),
        ["sigs", id, n] => sigs(&checks, id, n.parse().unwrap()),
        ["show", id, scn, idx] => show(&checks, id, scn, idx.parse().unwrap()),
        ["list"] => {
            for c in &checks {
                println!("{}", c.id);
                for s in &c.scenarios {
                    println!("  {} quick={} thorough={}: {}", s.name, s.quick, s.thorough, s.what);
                }
            }
            0
        }
        _ => {
            eprintln!("usage: check ID | replay FILE | list | sigs ID N | show ID SCN IDX");
            2
        }
    };
    std::io::stdout().flush().ok();
    std::process::exit(code)
}

fn find<'a>(checks: &'a [Check], id: &str) -> &'a Check {
    checks.iter().find(|c| c.id == id).unwrap_or_else(|| {
        eprintln!("no check {id}");
        std::process::exit(2)
    })
}
fn find_sc<'a>(c: &'a Check, scn: &str) -> &'a Scenario {
    c.scenarios.iter().find(|s| s.name == scn).unwrap_or_else(|| {
        eprintln!("no scenario {scn}");
        std::process::exit(2)
    })
}

fn total(sc: &Scenario, e: &Env) -> u64 {
    let n = if e.thorough { sc.thorough } else { sc.quick };
    ((n as f64 * e.scale) as u64).max(1)
}

fn worker(checks: &[Check], id: &str, job: u64, jobs: u64, out: &Path) -> i32 {
    let e = env();
    let c = find(checks, id);
    let known = Known::load(&e.verif);
    let start = Instant::now();
    let cur = fs::File::create(out.with_extension("cur")).expect("scratch");
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut hashes: Vec<u64> = vec![];
    let mut done: Vec<(String, u64, u64)> = vec![];
    let (mut sim_ns, mut steps) = (0u64, 0u64);
    let mut viol = String::new();
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut sample = String::new();
    let mut truncated = 0u64;
    let weights: u64 = c.scenarios.iter().map(|s| total(s, &e)).sum();
    'all: for (k, sc) in c.scenarios.iter().enumerate() {
        let n = total(sc, &e);
        // each scenario gets its share of the wall-clock cap
        let share_end = {
            let upto: u64 = c.scenarios[..=k].iter().map(|s| total(s, &e)).sum();
            e.cap.mul_f64(upto as f64 / weights as f64)
        };
        let mut ran = 0;
        let mut nontriv = 0;
        let mut i = job;
        while i < n {
            if start.elapsed() > share_end && ran > 0 {
                truncated += 1;
                break;
            }
            use std::os::unix::fs::FileExt;
            let mut rec = [0u8; 16];
            rec[..8].copy_from_slice(&(k as u64).to_le_bytes());
            rec[8..].copy_from_slice(&i.to_le_bytes());
            cur.write_all_at(&rec, 0).ok();
            let ch = Choices::random(seed_for(e.seed, c.id, sc.name, i));
            let (r, ctx) = run_one(sc, ch, false, e.thorough);
            ran += 1;
            for (k, v) in &ctx.stats {
                *stats.entry(k.to_string()).or_default() += v;
            }
            sim_ns += ctx.sim_ns;
            steps += ctx.steps;
            if ctx.nontrivial {
                nontriv += 1;
                let mut f = Fnv::new();
                f.str(sc.name).u64(ctx.shape.get());
                hashes.push(f.get());
                if sample.is_empty() && job == 0 && i >= jobs {
                    let ch = Choices::random(seed_for(e.seed, c.id, sc.name, i));
                    let (_, t) = run_one(sc, ch, true, e.thorough);
                    let lines: Vec<String> = t.trace.iter().take(60).cloned().collect();
                    sample = format!("{}#{} {}", sc.name, i, lines.join(" | "));
                    sample.truncate(sample.char_indices().take(6000).last().map_or(0, |(i, c)| i + c.len_utf8()));
                }
            }
            if let Err(v) = r {
                if known.matches(c.id, &v.class) {
                    *known_hits.entry(v.class).or_default() += 1;
                } else {
                    let list = ctx.ch.log().iter().map(u64::to_string).collect::<Vec<_>>().join(",");
                    viol = format!(
                        "viol\t{}\t{}\t{}\t{}\t{}\n",
                        sc.name,
                        i,
                        esc(&v.class),
                        esc(&v.msg),
                        list
                    );
                    done.push((sc.name.into(), ran, nontriv));
                    break 'all;
                }
            }
            i += jobs;
        }
        done.push((sc.name.into(), ran, nontriv));
    }
    let mut s = String::new();
    for (k, v) in stats {
        s += &format!("stat\t{k}\t{v}\n");
    }
    for (n, r, t) in done {
        s += &format!("done\t{n}\t{r}\t{t}\n");
    }
    for (k, v) in known_hits {
        s += &format!("known\t{k}\t{v}\n");
    }
    s += &format!("time\t{sim_ns}\t{steps}\t{truncated}\n");
    if !sample.is_empty() {
        s += &format!("sample\t{}\n", esc(&sample));
    }
    s += &viol;
    let hb: Vec<u8> = hashes.iter().flat_map(|h| h.to_le_bytes()).collect();
    fs::write(out.with_extension("hash"), hb).expect("scratch");
    fs::write(out.with_extension("part"), s).expect("scratch");
    fs::rename(out.with_extension("part"), out).expect("scratch");
    0
}

fn read_choices(p: &Path) -> Vec<u64> {
    let mut b = vec![];
    fs::File::open(p).and_then(|mut f| f.read_to_end(&mut b)).expect("choices");
    b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()
}
fn write_choices(p: &Path, l: &[u64]) {
    fs::write(p, l.iter().flat_map(|v| v.to_le_bytes()).collect::<Vec<u8>>()).expect("choices");
}

fn case(checks: &[Check], id: &str, scn: &str, file: &Path) -> i32 {
    let e = env();
    let sc = find_sc(find(checks, id), scn);
    let (r, _) = run_one(sc, Choices::replay(read_choices(file)), false, e.thorough);
    match r {
        Ok(()) => 0,
        Err(v) => {
            println!("{}", v.class);
            1
        }
    }
}

/// Runs one seeded case, writing every choice to `file` as it is drawn (for cases that kill the process).
fn seedcase(checks: &[Check], id: &str, scn: &str, idx: u64, file: &Path) -> i32 {
    let e = env();
    let c = find(checks, id);
    let sc = find_sc(c, scn);
    let mut ch = Choices::random(seed_for(e.seed, c.id, sc.name, idx));
    ch.set_tee(fs::File::create(file).expect("scratch"));
    let (r, _) = run_one(sc, ch, false, e.thorough);
    i32::from(r.is_err())
}

fn wait(child: &mut Child, limit: Duration) -> Option<std::process::ExitStatus> {
    let t = Instant::now();
    loop {
        if let Some(s) = child.try_wait().expect("wait") {
            return Some(s);
        }
        if t.elapsed() > limit {
            child.kill().ok();
            child.wait().ok();
            return None;
        }
        std::thread::sleep(Duration::from_millis(2));
    }
}

/// Outcome class of a case run in a process of its own: None if it passes.
fn outcome(id: &str, scn: &str, list: &[u64], tmp: &Path, limit: Duration) -> Option<String> {
    write_choices(tmp, list);
    let mut ch = Command::new(std::env::current_exe().unwrap())
        .args(["case", id, scn])
        .arg(tmp)
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn");
    match wait(&mut ch, limit) {
        None => Some("hang".into()),
        Some(s) => {
            let mut o = String::new();
            ch.stdout.take().unwrap().read_to_string(&mut o).ok();
            match (s.code(), s.signal()) {
                (Some(0), _) => None,
                (Some(1), _) => Some(o.trim().to_string()),
                (_, sig) => Some(format!("crash-signal-{}", sig.unwrap_or(0))),
            }
        }
    }
}

fn shrink(list: Vec<u64>, budget: Duration, max: usize, mut fails: impl FnMut(&[u64]) -> Option<Vec<u64>>) -> Vec<u64> {
    let t = Instant::now();
    let mut execs = 0;
    let mut best = list;
    let mut ok = |cand: &[u64], execs: &mut usize| -> Option<Vec<u64>> {
        *execs += 1;
        fails(cand)
    };
    loop {
        let before = best.clone();
        // drop spans
        let mut size = best.len().max(1);
        while size > 0 {
            let mut i = 0;
            while i < best.len() {
                if t.elapsed() > budget || execs > max {
                    return best;
                }
                let mut cand = best.clone();
                cand.drain(i..(i + size).min(cand.len()));
                match ok(&cand, &mut execs) {
                    Some(l) if l.len() < best.len() || (l.len() == best.len() && l < best) => best = l,
                    _ => i += size,
                }
            }
            size /= 2;
        }
        // zero spans, then lower single values
        let mut size = best.len().max(1);
        while size > 0 {
            let mut i = 0;
            while i < best.len() {
                if t.elapsed() > budget || execs > max {
                    return best;
                }
                let end = (i + size).min(best.len());
                if best[i..end].iter().any(|&v| v != 0) {
                    let mut cand = best.clone();
                    cand[i..end].iter_mut().for_each(|v| *v = 0);
                    if let Some(l) = ok(&cand, &mut execs) {
                        if l.len() < best.len() || (l.len() == best.len() && l < best) {
                            best = l;
                        }
                    }
                }
                i += size;
            }
            size /= 2;
        }
        let mut i = 0;
        while i < best.len() {
            let mut lo = 0u64;
            while i < best.len() && best[i] > lo {
                if t.elapsed() > budget || execs > max {
                    return best;
                }
                let mid = lo + (best[i] - lo) / 2;
                let mut cand = best.clone();
                cand[i] = mid;
                match ok(&cand, &mut execs) {
                    Some(l) if l.len() < best.len() || (l.len() == best.len() && l < best) => best = l,
                    _ => lo = mid + 1,
                }
            }
            i += 1;
        }
        if best == before {
            return best;
        }
    }
}

fn minimise(checks: &[Check], id: &str, scn: &str, class: &str, file: &Path) -> i32 {
    let e = env();
    let sc = find_sc(find(checks, id), scn);
    let list = read_choices(file);
    let out = file.with_extension("min");
    let best = shrink(list, Duration::from_secs(25), 20_000, |cand| {
        let (r, ctx) = run_one(sc, Choices::replay(cand.to_vec()), false, e.thorough);
        match r {
            Err(v) if v.class == class => {
                let mut l = ctx.ch.into_log();
                while l.last() == Some(&0) {
                    l.pop();
                }
                Some(l)
            }
            _ => None,
        }
    });
    write_choices(&out, &best);
    0
}

fn replay_json(c: &Check, sc: &Scenario, seed: u64, idx: u64, v: &Violation, list: &[u64], trace: &[String]) -> String {
    let choices = list.iter().map(u64::to_string).collect::<Vec<_>>().join(", ");
    let trace = trace.iter().map(|t| format!("    {}", esc(t))).collect::<Vec<_>>().join(",\n");
    format!(
        "{{\n  \"property\": {},\n  \"scenario\": {},\n  \"tier\": {},\n  \"seed\": {seed},\n  \"run\": {idx},\n  \"class\": {},\n  \"violation\": {},\n  \"choices\": [{choices}],\n  \"trace\": [\n{trace}\n  ]\n}}\n",
        esc(c.id),
        esc(sc.name),
        esc(if env().thorough { "thorough" } else { "quick" }),
        esc(&v.class),
        esc(&v.msg)
    )
}

fn replay(checks: &[Check], file: &Path) -> i32 {
    let text = match fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("cannot read {}: {e}", file.display());
            return 2;
        }
    };
    let (Some(id), Some(scn), Some(class), Some(list)) = (
        get_str(&text, "property"),
        get_str(&text, "scenario"),
        get_str(&text, "class"),
        get_u64s(&text, "choices"),
    ) else {
        eprintln!("not a replay file");
        return 2;
    };
    if let Some(t) = get_str(&text, "tier") {
        std::env::set_var("VERIF_TIER", t);
    }
    let c = find(checks, &id);
    let sc = find_sc(c, &scn);
    if class.starts_with("crash-signal") || class == "hang" {
        let tmp = std::env::temp_dir().join(format!("redsim-replay-{}", std::process::id()));
        let o = outcome(&id, &scn, &list, &tmp, Duration::from_secs(120));
        fs::remove_file(&tmp).ok();
        return match o {
            Some(c2) => {
                println!("reproduced: {c2}");
                println!("VIOLATION property={id} replay={}", file.display());
                1
            }
            None => {
                println!("not reproduced");
                0
            }
        };
    }
    let thorough = env().thorough;
    let (r, ctx) = run_one(sc, Choices::replay(list), true, thorough);
    for t in &ctx.trace {
        println!("  {t}");
    }
    match r {
        Ok(()) => {
            println!("not reproduced: the property held");
            0
        }
        Err(v) => {
            println!("{}: {}", v.class, v.msg);
            println!("{}", if v.class == class { "reproduced" } else { "a different violation" });
            println!("VIOLATION property={id} replay={}", file.display());
            1
        }
    }
}

fn show(checks: &[Check], id: &str, scn: &str, idx: u64) -> i32 {
    let e = env();
    let c = find(checks, id);
    let sc = find_sc(c, scn);
    let (r, ctx) = run_one(sc, Choices::random(seed_for(e.seed, c.id, sc.name, idx)), true, e.thorough);
    for t in &ctx.trace {
        println!("  {t}");
    }
    println!("{:?}", ctx.stats);
    println!("{r:?}");
    i32::from(r.is_err())
}

/// Prints one line per run with the signature of its full event log (determinism self-check).
fn sigs(checks: &[Check], id: &str, n: u64) -> i32 {
    let e = env();
    let c = find(checks, id);
    for sc in &c.scenarios {
        for i in 0..n {
            let (r, ctx) = run_one(sc, Choices::random(seed_for(e.seed, c.id, sc.name, i)), false, e.thorough);
            println!(
                "{} {} {:016x} {} {}",
                sc.name,
                i,
                ctx.sig.get(),
                ctx.ch.log().len(),
                if r.is_ok() { "ok" } else { "violation" }
            );
        }
    }
    0
}

fn check(checks: &[Check], id: &str) -> i32 {
    let e = env();
    let c = find(checks, id);
    let t0 = Instant::now();
    let scratch = std::env::temp_dir().join(format!("redsim-{}-{}", c.id, std::process::id()));
    fs::create_dir_all(&scratch).expect("scratch");
    println!(
        "{}: seed {} tier {} jobs {}",
        c.id,
        e.seed,
        if e.thorough { "thorough" } else { "quick" },
        e.jobs
    );
    let code = check_in(&e, c, &scratch, t0);
    fs::remove_dir_all(&scratch).ok();
    code
}

fn determinism(e: &Env, c: &Check, n: u64) -> (u64, u64) {
    // the same seeds in two fresh processes; every event of every run is in the signature
    let go = || {
        Command::new(std::env::current_exe().unwrap())
            .args(["sigs", c.id, &n.to_string()])
            .env("VERIF_SEED", e.seed.to_string())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("spawn")
    };
    let (a, b) = (go(), go());
    let a = a.wait_with_output().expect("wait");
    let b = b.wait_with_output().expect("wait");
    let (a, b) = (String::from_utf8_lossy(&a.stdout).to_string(), String::from_utf8_lossy(&b.stdout).to_string());
    let total = a.lines().count() as u64;
    let diff = a.lines().zip(b.lines()).filter(|(x, y)| x != y).count() as u64;
    (total, diff + (a.lines().count() as i64 - b.lines().count() as i64).unsigned_abs())
}

fn check_in(e: &Env, c: &Check, scratch: &Path, t0: Instant) -> i32 {
    let hang_limit = Duration::from_secs(150);
    let exe = std::env::current_exe().unwrap();
    let mut kids: Vec<(u64, Child, PathBuf, [u8; 16], Instant)> = vec![];
    for j in 0..e.jobs {
        let out = scratch.join(format!("w{j}.out"));
        let ch = Command::new(&exe)
            .args(["worker", c.id, &j.to_string(), &e.jobs.to_string()])
            .arg(&out)
            .stdout(Stdio::null())
            .stderr(fs::File::create(scratch.join(format!("w{j}.err"))).expect("scratch"))
            .spawn()
            .expect("spawn");
        kids.push((j, ch, out, [0xff; 16], Instant::now()));
    }
    let mut found: Option<(String, u64, Violation, Option<Vec<u64>>)> = None;
    let mut harness_error: Option<String> = None;
    let mut finished: Vec<PathBuf> = vec![];
    while !kids.is_empty() && found.is_none() && harness_error.is_none() {
        let mut i = 0;
        while i < kids.len() {
            let mut dead: Option<String> = None;
            let mut over = false;
            {
                let (j, ch, out, last, since) = &mut kids[i];
                if let Some(s) = ch.try_wait().expect("wait") {
                    over = true;
                    if s.code() == Some(0) && out.exists() {
                        let text = fs::read_to_string(&*out).unwrap_or_default();
                        if let Some(l) = text.lines().find(|l| l.starts_with("viol\t")) {
                            let f: Vec<&str> = l.split('\t').collect();
                            let un = |s: &str| get_str(&format!("\"k\": {s}"), "k").unwrap_or_default();
                            let list = if f[5].is_empty() {
                                vec![]
                            } else {
                                f[5].split(',').map(|x| x.parse().unwrap()).collect()
                            };
                            found = Some((
                                f[1].into(),
                                f[2].parse().unwrap(),
                                Violation::new(un(f[3]), un(f[4])),
                                Some(list),
                            ));
                        }
                        finished.push(out.clone());
                    } else if let Some(sig) = s.signal() {
                        dead = Some(format!("crash-signal-{sig}"));
                    } else {
                        let err = fs::read_to_string(scratch.join(format!("w{j}.err"))).unwrap_or_default();
                        harness_error = Some(format!("worker {j} exited with {s:?}: {err}"));
                    }
                } else {
                    let cur = fs::read(out.with_extension("cur")).unwrap_or_default();
                    if cur.len() == 16 && cur[..] != last[..] {
                        last.copy_from_slice(&cur);
                        *since = Instant::now();
                    } else if since.elapsed() > hang_limit {
                        ch.kill().ok();
                        ch.wait().ok();
                        over = true;
                        dead = Some("hang".into());
                    }
                }
            }
            if let Some(what) = dead {
                let out = &kids[i].2;
                let cur = fs::read(out.with_extension("cur")).unwrap_or_default();
                if cur.len() == 16 {
                    let k = u64::from_le_bytes(cur[..8].try_into().unwrap()) as usize;
                    let idx = u64::from_le_bytes(cur[8..].try_into().unwrap());
                    let sc = &c.scenarios[k];
                    let tmp = scratch.join("crash.choices");
                    let mut ch = Command::new(&exe)
                        .args(["seedcase", c.id, sc.name, &idx.to_string()])
                        .arg(&tmp)
                        .stdout(Stdio::null())
                        .stderr(Stdio::null())
                        .spawn()
                        .expect("spawn");
                    let st = wait(&mut ch, hang_limit);
                    let again = match st {
                        None => Some("hang".to_string()),
                        Some(s) => s.signal().map(|g| format!("crash-signal-{g}")),
                    };
                    match again {
                        Some(class) => {
                            found = Some((
                                sc.name.into(),
                                idx,
                                Violation::new(
                                    class,
                                    if what == "hang" {
                                        "the run does not end".to_string()
                                    } else {
                                        "the run kills its process (abort, stack overflow or failed allocation)".to_string()
                                    },
                                ),
                                Some(read_choices(&tmp)),
                            ));
                        }
                        None => harness_error = Some(format!("a worker died ({what}) at {}#{idx}, not reproduced", sc.name)),
                    }
                } else {
                    harness_error = Some(format!("a worker died before its first run ({what})"));
                }
            }
            if over {
                kids.remove(i);
            } else {
                i += 1;
            }
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    for (_, ch, _, _, _) in &mut kids {
        ch.kill().ok();
        ch.wait().ok();
    }
    if let (Some(err), None) = (&harness_error, &found) {
        eprintln!("harness error: {err}");
        return 2;
    }

    // aggregate
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut runs: BTreeMap<String, (u64, u64)> = BTreeMap::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let (mut sim_ns, mut steps, mut truncated) = (0u128, 0u64, 0u64);
    let mut samples: Vec<String> = vec![];
    for out in &finished {
        for l in fs::read_to_string(out).unwrap_or_default().lines() {
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "stat" => *stats.entry(f[1].into()).or_default() += f[2].parse::<u64>().unwrap(),
                "done" => {
                    let r = runs.entry(f[1].into()).or_default();
                    r.0 += f[2].parse::<u64>().unwrap();
                    r.1 += f[3].parse::<u64>().unwrap();
                }
                "known" => *known_hits.entry(f[1].into()).or_default() += f[2].parse::<u64>().unwrap(),
                "time" => {
                    sim_ns += f[1].parse::<u128>().unwrap();
                    steps += f[2].parse::<u64>().unwrap();
                    truncated += f[3].parse::<u64>().unwrap();
                }
                "sample" => samples.push(f[1].into()),
                _ => {}
            }
        }
        let h = fs::read(out.with_extension("hash")).unwrap_or_default();
        hashes.extend(h.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
    }
    let evaluations: u64 = runs.values().map(|r| r.0).sum();
    let nontrivial: u64 = runs.values().map(|r| r.1).sum();
    let search_s = t0.elapsed().as_secs_f64();

    let known = Known::load(&e.verif);
    for (class, n) in &known_hits {
        let what = known
            .classes
            .iter()
            .find(|(i, k, _)| i == c.id && k == class)
            .map_or("", |(_, _, w)| w.as_str());
        println!("KNOWN-FINDING: property={} {} [{}, {} runs]", c.id, what, class, n);
    }

    let mut replay_path = None;
    if let Some((scn, idx, v, list)) = &found {
        let sc = find_sc(c, scn);
        let mut list = list.clone().unwrap_or_default();
        let original = list.len();
        let tmp = scratch.join("min.choices");
        if v.class.starts_with("crash-signal") || v.class == "hang" {
            let lim = if v.class == "hang" { Duration::from_secs(20) } else { Duration::from_secs(30) };
            let b = Duration::from_secs(if v.class == "hang" { 60 } else { 40 });
            list = shrink(list, b, 400, |cand| {
                (outcome(c.id, scn, cand, &tmp, lim).as_deref() == Some(v.class.as_str())).then(|| {
                    let mut l = cand.to_vec();
                    while l.last() == Some(&0) {
                        l.pop();
                    }
                    l
                })
            });
        } else {
            write_choices(&tmp, &list);
            let mut ch = Command::new(&exe)
                .args(["minimise", c.id, scn, &v.class])
                .arg(&tmp)
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .spawn()
                .expect("spawn");
            if wait(&mut ch, Duration::from_secs(90)).and_then(|s| s.code()) == Some(0) {
                list = read_choices(&tmp.with_extension("min"));
            }
        }
        let (mut v, mut trace) = (v.clone(), vec![]);
        if !(v.class.starts_with("crash-signal") || v.class == "hang") {
            let (r, ctx) = run_one(sc, Choices::replay(list.clone()), true, e.thorough);
            if let Err(v2) = r {
                v = v2;
            }
            trace = ctx.trace;
        }
        let dir = e.verif.join("replays");
        fs::create_dir_all(&dir).ok();
        let mut f = Fnv::new();
        f.str(c.id).str(scn).u64(fnv(&list.iter().flat_map(|v| v.to_le_bytes()).collect::<Vec<_>>()));
        let path = dir.join(format!("{}-{:016x}.json", c.id, f.get()));
        fs::write(&path, replay_json(c, sc, e.seed, *idx, &v, &list, &trace)).expect("replay file");
        let again = Command::new(&exe)
            .arg("replay")
            .arg(&path)
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .status()
            .ok()
            .and_then(|s| s.code());
        println!("{scn}#{idx}: {}: {}", v.class, v.msg);
        println!(
            "minimised from {original} to {} choices; replay in a fresh process: {}",
            list.len(),
            if again == Some(1) { "reproduced" } else { "NOT reproduced" }
        );
        for t in trace.iter().take(60) {
            println!("  {t}");
        }
        replay_path = Some(path);
    }

    let (det_n, det_bad) = if found.is_none() {
        determinism(e, c, if e.thorough { 60 } else { 12 })
    } else {
        (0, 0)
    };
    if det_bad > 0 {
        eprintln!("warning: {det_bad} of {det_n} runs did not repeat exactly");
    }

    let (mut faults, mut probes) = (vec![], vec![]);
    for (k, v) in &stats {
        if let Some(f) = k.strip_prefix("fault.") {
            faults.push(format!("      {}: {v}", esc(f)));
        } else {
            probes.push(format!("      {}: {v}", esc(k)));
        }
    }
    let list = |xs: &[&str]| xs.iter().map(|s| format!("      {}", esc(s))).collect::<Vec<_>>().join(",\n");
    let per_hour = if search_s > 0.0 { evaluations as f64 * 3600.0 / search_s } else { 0.0 };
    if samples.is_empty() {
        samples.push(esc("no sample: the search stopped at a violation"));
    }
    let ev = format!(
        "{{\n  \"property\": {id},\n  \"tier\": {tier},\n  \"seed\": {seed},\n  \"level\": \"exploration\",\n  \"coverage\": {{\n    \"evaluations\": {evaluations},\n    \"distinct_nontrivial\": {distinct},\n    \"nontrivial_runs\": {nontrivial},\n    \"rule\": {rule},\n    \"samples\": [\n      {samples}\n    ],\n    \"simulated_runs_per_hour\": {per_hour:.0},\n    \"simulated_time_s\": {sim:.3},\n    \"simulated_steps\": {steps},\n    \"fault_kinds_fired\": {{\n{faults}\n    }},\n    \"probes\": {{\n{probes}\n    }},\n    \"runs_by_scenario\": {{\n{scn}\n    }},\n    \"scenarios_stopped_by_time_cap\": {truncated},\n    \"determinism_selfcheck\": {{\"runs_repeated_in_a_second_process\": {det_n}, \"event_logs_that_differed\": {det_bad}}},\n    \"components_real\": [\n{real}\n    ],\n    \"components_stubbed\": [\n{stub}\n    ]\n  }},\n  \"assumptions\": [\n{assume}\n  ],\n  \"wall_s\": {wall:.2},\n  \"violations\": {viol}\n}}\n",
        id = esc(c.id),
        tier = esc(if e.thorough { "thorough" } else { "quick" }),
        seed = e.seed,
        distinct = hashes.len(),
        rule = esc(c.rule),
        samples = samples.join(",\n      "),
        sim = sim_ns as f64 / 1e9,
        faults = faults.join(",\n"),
        probes = probes.join(",\n"),
        scn = runs
            .iter()
            .map(|(k, (r, n))| format!("      {}: {{\"runs\": {r}, \"with_faults_or_schedule\": {n}}}", esc(k)))
            .collect::<Vec<_>>()
            .join(",\n"),
        real = list(c.real),
        stub = list(c.stub),
        assume = list(c.assumptions),
        wall = t0.elapsed().as_secs_f64(),
        viol = i32::from(found.is_some()),
    );
    let dir = e.verif.join("evidence");
    fs::create_dir_all(&dir).ok();
    fs::write(dir.join(format!("{}.json", c.id)), ev).expect("evidence");

    if let Some(p) = replay_path {
        println!("VIOLATION property={} replay={}", c.id, p.display());
        return 1;
    }
    println!(
        "{}: held on {} runs ({} distinct non-trivial) in {:.1} s",
        c.id,
        evaluations,
        hashes.len(),
        t0.elapsed().as_secs_f64()
    );
    0
}
