//! Histories of an installation: scc runs (in place, to a separate output, with a custom cache), script edits, game
//! updates, crashes and power cuts, with the real scc, scc-lib, compiler and core on the simulated operating system.
use crate::bases::BASES;
use crate::cli;
use crate::simfs::{self, Act, Fault, Fs, Job, Op, Opts, Outcome, Probe, RunInfo};
use crate::flaws;
use simkit::{Choices, Ctx, Fnv, Violation};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{Arc, Mutex};

pub type V = Result<(), Violation>;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Mode {
    InPlace,
    Separate,
    Custom,
    /// a custom cache and a separate output
    Profile,
}

pub const CACHE: &str = "/simfs/r6/cache/final.redscripts";
pub const OUT: &str = "/simfs/r6/cache/modded/final.redscripts";
pub const PROFILE_OUT: &str = "/simfs/r6/cache/modded/profile.redscripts";
pub const CUSTOM: &str = "/simfs/profile/final.redscripts";
pub const SCRIPTS: &str = "/simfs/r6/scripts";
const EXTRA: &str = "/simfs/mods";
const PATHS: &str = "/simfs/r6/paths.txt";
const PACK: &str = "/simfs/single/pack.reds";
const LINK: &str = "/simfs/r6/scripts/linked";
const STORE: &str = "/simfs/store/linked mod";
const SIGNATURE: &[u8] = b"$REDSCRIPT_SIGNATURE";

impl Mode {
    pub fn custom(self) -> bool {
        matches!(self, Mode::Custom | Mode::Profile)
    }
    pub fn separate(self) -> bool {
        matches!(self, Mode::Separate | Mode::Profile)
    }
    pub fn cache(self) -> &'static str {
        if self.custom() {
            CUSTOM
        } else {
            CACHE
        }
    }
    pub fn output(self) -> &'static str {
        match self {
            Mode::InPlace => CACHE,
            Mode::Separate => OUT,
            Mode::Custom => CUSTOM,
            Mode::Profile => PROFILE_OUT,
        }
    }
    pub fn backup(self) -> String {
        format!("{}.bk", self.cache())
    }
    pub fn ts(self) -> String {
        format!("{}.ts", self.cache())
    }
}

/// What a check is about; a violation of another property ends the run without a report (that property's own check
/// reports it).
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum P {
    /// success means the complete, right output
    Success,
    /// the pristine cache exists at every moment
    Pristine,
    /// the output is the old or the new one at every moment
    Atomic,
    /// once the faults stop the next run works
    Recover,
    /// a reported success survives a power cut
    Durable,
    /// invocations at the same time
    Concurrent,
    /// the files a run may change
    Scope,
    /// scripts with errors
    Errors,
    /// same result in every environment
    Determined,
    /// the C interface
    Api,
    /// what the game does with the output
    Effect,
    /// what the mods declare, in the output
    Declared,
}

fn class_property(class: &str) -> Option<P> {
    Some(match class {
        "wrong-output" | "script-missing" | "stale-script" => P::Success,
        "pristine-lost" => P::Pristine,
        "output-torn" => P::Atomic,
        "no-recovery" | "panic" | "hang" => P::Recover,
        "success-not-durable" => P::Durable,
        "concurrent-failure" | "concurrent-output" | "deadlock" => P::Concurrent,
        "input-not-pristine" => P::Scope,
        "error-hidden" | "error-changed-output" | "error-report" | "error-panic" => P::Errors,
        "order-dependent" => P::Determined,
        "api" => P::Api,
        "mod-effect" => P::Effect,
        "declaration" => P::Declared,
        "file-touched" | "left-over" => P::Scope,
        _ => return None,
    })
}

#[derive(Clone, Debug)]
pub struct Script {
    pub text: String,
    pub tokens: Vec<String>,
    pub broken: Option<&'static str>,
    /// what it does to the game, where the game is played
    pub items: Vec<crate::game::Item>,
    pub note: Option<flaws::Note>,
}

#[derive(Clone)]
pub struct Game {
    pub fs: Fs,
    pub version: usize,
    /// which version of the pristine cache may be the base (more than one only without a timestamp)
    pub acc: BTreeSet<usize>,
    pub scripts: BTreeMap<String, Script>,
    pub extra: bool,
    /// the file that lists more script paths
    pub paths: String,
    /// a mod is linked into the scripts directory
    pub linked: bool,
    /// the output is read-only
    pub locked: Option<&'static str>,
    pub issued: u32,
    pub retired: BTreeSet<String>,
    /// what else the game puts on the command line
    pub flavor: u64,
    /// a run was disturbed by a fault
    pub disturbed: bool,
    /// the property being decided
    pub only: P,
    /// the version of the game's own cache, and whether mods were compiled into it (histories of a custom cache)
    pub own: usize,
    pub own_modded: bool,
}

impl Game {
    /// A check that only counts for its own property: other properties have their own checks.
    pub fn chk(&self, ctx: &mut Ctx, ok: bool, class: &'static str, msg: impl FnOnce() -> String) -> V {
        if !ok && class_property(class).is_some_and(|p| p != self.only) {
            ctx.count("oracle.other_property");
            return Ok(());
        }
        ctx.check(ok, class, msg)
    }
}

fn token(n: u32) -> String {
    format!("Tok{n:05}Z")
}

pub fn gen_script(ctx: &mut Ctx, issued: &mut u32) -> Script {
    *issued += 1;
    if ctx.ch.chance(1, 16) {
        let text = ctx.ch.pick(&["", "\n", "// nothing here", "/* ünïcode */\r\n"]).to_string();
        return Script { text, tokens: vec![], broken: None, items: vec![], note: None };
    }
    let t = token(*issued);
    let mut tokens = vec![t.clone()];
    if ctx.ch.chance(1, 8) {
        let (fatal, text) = *ctx.ch.pick(flaws::PASSES);
        let (text, line) = flaws::text(text, &t);
        return Script { text, tokens, broken: None, items: vec![], note: Some(flaws::Note { line, code: "", fatal, pass: true }) };
    }
    if ctx.ch.chance(1, 8) {
        let odd: &str = *ctx.ch.pick::<&str>(flaws::ODD);
        let (text, line) = flaws::text(odd, &t);
        let tokens = if text.contains(&t) { tokens } else { vec![] };
        return Script { text, tokens, broken: None, items: vec![], note: Some(flaws::Note { line, code: "", fatal: false, pass: false }) };
    }
    let text = match ctx.ch.draw(9) {
        // implemented by the game or a plugin
        6 => format!("public native class {t} extends IScriptable {{\n  native let speed: Float;\n  let own: Int32;\n  public native func Get(a: Int32) -> Int32;\n  func Own() -> Float {{ return this.speed; }}\n}}\n"),
        7 => format!("native func {t}(a: Int32, b: Float) -> Int32;\n"),
        0 => format!("class {t} {{}}\n"),
        1 => format!("public class {t} extends IScriptable {{\n  let a: Int32;\n  public func Get() -> Int32 {{ return this.a + {}; }}\n}}\n", ctx.ch.draw(100)),
        2 => format!("@addMethod(Player)\npublic func {t}(x: Int32) -> Int32 {{\n  let y: Int32 = x * 2;\n  if y > 10 {{ return this.hp; }}\n  return Clamp(y, 0, {});\n}}\n", ctx.ch.draw(50)),
        3 => format!("func {t}(a: Int32, b: Int32) -> Int32 = a + b;\n"),
        4 => format!("enum {t} {{ A = 0, B = {} }}\n", 1 + ctx.ch.draw(9)),
        5 => format!("module Mod{t}\npublic class {t} {{\n  public static func Twice(x: Float) -> Float {{ return x * 2.0; }}\n}}\n"),
        _ => {
            // a long one: several pages of text
            let mut s = format!("class {t} {{\n");
            for k in 0..10 + ctx.ch.draw(60) {
                s += &format!("  func M{k}(x: Int32) -> Int32 {{\n    // some words that make the file longer than a buffer\n    return x + {k};\n  }}\n");
            }
            s + "}\n"
        }
    };
    if ctx.ch.chance(1, 8) {
        *issued += 1;
        let t2 = token(*issued);
        tokens.push(t2.clone());
        if !text.starts_with("module") {
            return Script { text: format!("{text}class {t2} {{}}\n"), tokens, broken: None, items: vec![], note: None };
        }
        tokens.pop();
    }
    Script { text, tokens, broken: None, items: vec![], note: None }
}

pub fn gen_broken(ctx: &mut Ctx, issued: &mut u32) -> Script {
    *issued += 1;
    let t = token(*issued);
    if ctx.ch.chance(2, 3) {
        let (when, code, flaw) = *ctx.ch.pick(flaws::FLAWS);
        let (mut text, mut line) = flaws::text(flaw, &t);
        let kind = match when {
            flaws::When::Body => "body",
            flaws::When::Decl => "decl",
            flaws::When::Late => "late",
        };
        // elsewhere in the file, with other ends of lines
        if kind != "decl" && ctx.ch.chance(1, 3) {
            let before = ctx.ch.pick(&["\n\n", "// ünï→ code\n", "/* several\n lines */\n", "func $TBefore() -> String = \"größe→\";\n"]).replace("$T", &t);
            line += before.matches('\n').count();
            text = before + &text;
        }
        if ctx.ch.chance(1, 4) {
            text = text.replace('\n', "\r\n");
        }
        if ctx.ch.chance(1, 4) {
            text = text.replace("  ", "\t");
        }
        let note = Some(flaws::Note { line, code, fatal: true, pass: false });
        return Script { text, tokens: vec![t], broken: Some(kind), items: vec![], note };
    }
    let (text, kind) = match ctx.ch.draw(14) {
        0 => (format!("class {t} {{\n  func Broken( -> Int32 {{ return 1; }}\n}}\n"), "syntax"),
        1 => (format!("class {t} {{\n  let x: NoSuchType{t};\n}}\n"), "type"),
        2 => (format!("func {t}() -> Int32 {{\n  return \"text\";\n}}\n"), "body"),
        3 => (format!("class {t} extends NoSuchBase {{}}\n"), "base"),
        // at the very end of the file
        4 => (format!("class {t} {{\n  let a: Int32;\n"), "syntax"),
        5 => (format!("func {t}() -> Int32 {{ return NoSuchFunc{t}(); }}"), "body"),
        // text of several bytes per character before and after
        6 => (format!("// größer als ünï→\nfunc {t}() -> Int32 {{ let ok: String = \"äöü→\"; return nosuch; }} // ö\n"), "body"),
        7 => (format!("class {t} {{\r\n  func F() -> Int32 {{\r\n    return this.nosuch;\r\n  }}\r\n}}\r\n"), "body"),
        8 => (format!("@addMethod(NoSuchClass)\nfunc {t}() {{}}\n"), "annotation"),
        9 => (format!("import No.Such.Module{t}.*\nclass {t} {{}}\n"), "import"),
        10 => (format!("class {t} {{\n  native func Do{t}() -> Int32;\n  func NoBody() -> Int32;\n}}\n"), "decl"),
        11 => (format!("class {t} extends {t} {{\n  func Get() -> Int32 = this.Other();\n}}\n"), "base"),
        12 => (format!("class {t} extends {t}Loop {{\n  let a: Int32;\n}}\nclass {t}Loop extends {t} {{\n  func Get() -> Int32 = this.a;\n}}\n"), "base"),
        _ => (format!("func {t}(x: Int32) -> Int32 {{\n  return Clamp(x);\n}}\n\n\n"), "body"),
    };
    Script { text, tokens: vec![t], broken: Some(kind), items: vec![], note: None }
}

const CORPUS: &str = include_str!("../data/corpus.txt");

/// Words of the text: names, numbers, blanks, single other characters.
fn words(t: &str) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let kind = |c: char| if c.is_alphanumeric() || c == '_' { 0 } else if c.is_whitespace() { 1 } else { 2 };
    let mut last = 9;
    for c in t.chars() {
        let k = kind(c);
        match out.last_mut() {
            Some(w) if k == last && k < 2 => w.push(c),
            _ => out.push(c.into()),
        }
        last = k;
    }
    out
}

const VOCABULARY: &[&str] = &[
    "public", "private", "static", "final", "native", "cb", "out", "opt", "const", "abstract", "persistent", "importonly", "func", "class", "struct",
    "enum", "let", "module", "import", "extends", "return", "if", "else", "while", "for", "in", "switch", "case", "default", "break", "new", "null",
    "this", "super", "as", "true", "false", "wrappedMethod", "Int32", "Float", "String", "Bool", "CName", "Variant", "Void", "array", "ref", "wref",
    "script_ref", "Player", "Enemy", "IScriptable", "Clamp", "Hp", "Damage", "hp", "0", "1", "99999999999", "1.5", "1.2.3", "3u", "7l", "2.0d",
    "\"text\"", "n\"name\"", "t\"a.b\"", "r\"a\\b\"", "s\"i \\(1) \\(this)\"", "\"\\u{41}\"", "\"\\u{d800}\"", "\"\\u{110000}\"", "(", ")", "{", "}", "[", "]",
    "<", ">", ",", ";", ":", ".", "=", "==", "+", "-", "*", "/", "%", "!", "~", "&&", "||", "|", "&", "^", "?", "->", "@", "+=", "//", "/*", "*/", "ä", "→",
    "@wrapMethod(Player)\n", "@replaceMethod(Enemy)\n", "@addMethod(Player)\n", "@addField(Player)\n", "@replaceGlobal()\n", "@if(true)\n", "@runtimeProperty(\"a\", \"b\")\n",
    "[]", "()", "[null]", "new Player()", "IsDefined(1)", "IsDefined(null)", "ToVariant(null)", "ToString(1)", "ToString(null)", "FromVariant(1)", "Deref(1)", "AsRef(1)", "ArraySize([])", "ArrayPush",
    "Equals(1, \"a\")", "NotEquals(null, null)", "Equals(null, this)", "[[1], []]", "Cast<Float>(1)", "RefToWeakRef(this)", "WeakRefToRef(null)", "IntEnum<Player>(1)", "EnumInt(1)", "SizeOf(1)",
    "array<array<Int32>>", "ref<Int32>", "wref<wref<Player>>", "array", "ref", "script_ref<Void>", "array<Void>", "ref<array<Int32>>",
];

/// Do the texts compile as they are?
pub fn try_corpus() {
    for t in CORPUS.split("====\n") {
        let mut c = Ctx::new(Choices::replay(vec![]));
        let mut g = install(&mut c, P::Errors);
        g.fs.put(&format!("{SCRIPTS}/corpus.reds"), t.as_bytes());
        let d = run_scc(&mut c, &mut g, &[Mode::InPlace], NONE, false);
        if let Ok(d) = d {
            println!("{} {}", matches!(d.outs[0], Outcome::Done(true)), d.info.logs[0].join("\n"));
        }
    }
}

/// A script somebody edited without care.
pub fn mangle(ctx: &mut Ctx, issued: &mut u32) -> String {
    *issued += 1;
    let t = token(*issued);
    let all: Vec<&str> = CORPUS.split("====\n").collect();
    let text = match ctx.ch.draw(4) {
        0 => gen_script(ctx, issued).text,
        _ => ctx.ch.pick(&all).replace("TOK", &t),
    };
    let mut w = words(&text);
    let names: Vec<&str> = VOCABULARY.iter().copied().filter(|v| v.chars().all(|c| c.is_alphanumeric() || "_\"<>()[]".contains(c))).collect();
    let gentle = ctx.ch.chance(2, 3);
    for _ in 0..1 + ctx.ch.draw(2) * ctx.ch.draw(3) {
        let at: Vec<usize> = (0..w.len()).filter(|k| if gentle { w[*k].starts_with(|c: char| c.is_alphanumeric()) } else { !w[*k].trim().is_empty() }).collect();
        if at.is_empty() {
            break;
        }
        let other = w[*ctx.ch.pick(&at)].clone();
        let at = *ctx.ch.pick(&at);
        if gentle {
            // a word for a word
            w[at] = if ctx.ch.coin() { other } else { ctx.ch.pick(&names).to_string() };
            continue;
        }
        match ctx.ch.draw(8) {
            0 => {
                w.remove(at);
            }
            1 => w.insert(at, w[at].clone()),
            2 | 3 => w[at] = ctx.ch.pick(VOCABULARY).to_string(),
            4 => w.insert(at, ctx.ch.pick(VOCABULARY).to_string()),
            5 => {
                let b = ctx.ch.draw(w.len() as u64) as usize;
                w.swap(at, b);
            }
            6 => w[at] = other,
            _ => {
                // a whole piece goes
                let n = (1 + ctx.ch.draw(12) as usize).min(w.len() - at);
                w.drain(at..at + n);
            }
        }
    }
    w.concat()
}

/// Scripts nobody should have written: scc refuses or compiles them, and says what it did.
pub fn mangled(ctx: &mut Ctx, f: Faults, modes: &[Mode]) -> V {
    let mut g = install(ctx, P::Errors);
    remove_broken(&mut g);
    let mode = *ctx.ch.pick(modes);
    if ctx.ch.chance(1, 3) {
        finish(ctx, &mut g, mode, "error-hidden")?;
    }
    let mut odd = BTreeSet::new();
    for _ in 0..1 + ctx.ch.draw(2) {
        let text = mangle(ctx, &mut g.issued);
        let p = script_path(ctx, &g);
        g.fs.put(&p, text.as_bytes());
        ctx.event("edit", || format!("odd {p}: {text}"));
        ctx.shape.str(&text);
        odd.insert(p.clone());
        g.scripts.insert(p, Script { text, tokens: vec![], broken: Some("odd"), items: vec![], note: None });
    }
    g.fs.settle();
    let was = g.fs.read(mode.output());
    let d = run_scc(ctx, &mut g, &[mode], f, false)?;
    let faulty = !d.info.fired.is_empty();
    match &d.outs[0] {
        Outcome::Panicked(p) => g.chk(ctx, false, "error-panic", || format!("scc panicked: {p}"))?,
        Outcome::Killed => {}
        Outcome::Done(false) => {
            let text = d.info.logs[0].iter().find(|l| l.contains("REDScript compilation has failed")).cloned();
            g.chk(ctx, text.is_some() || faulty, "error-report", || format!("no report of the failed compilation: {:?}", d.info.logs[0]))?;
            if let Some(text) = text {
            let is = g.fs.read(mode.output());
            let fresh = mode == Mode::Custom && was.is_none() && is.as_ref().and_then(|d| version_of(d)).is_some();
            g.chk(ctx, was == is || fresh, "error-changed-output", || format!("{} changed although the scripts do not compile", mode.output()))?;
                // (an odd script can break others: by taking their names)
                let mods: BTreeSet<String> = g.scripts.keys().map(|p| cause(p)).collect();
                let listed = blamed(&text);
                g.chk(ctx, !listed.is_empty() && listed.is_subset(&mods), "error-report", || {
                    format!("the report blames {listed:?} of {mods:?}: {:?}", d.info.logs[0])
                })?;
            }
            ctx.count("odd.refused");
        }
        Outcome::Done(true) => {
            for p in &odd {
                if let Some(s) = g.scripts.get_mut(p) {
                    s.broken = None;
                }
            }
            ctx.count("odd.compiled");
            check_output(ctx, &mut g, mode, "error-hidden")?;
            // and the game can load it
            let out = g.fs.read(mode.output()).unwrap_or_default();
            let ok = redscript::bundle::ScriptBundle::load(&mut std::io::Cursor::new(out.as_slice()));
            g.chk(ctx, ok.is_ok(), "error-hidden", || format!("the output does not load: {:?}", ok.err()))?;
        }
    }
    ctx.nontrivial = true;
    for p in odd {
        remove_script(&mut g, &p);
    }
    finish(ctx, &mut g, mode, "error-hidden")
}

fn blamed(report: &str) -> BTreeSet<String> {
    report
        .lines()
        .skip_while(|l| !l.contains("caused by mods"))
        .skip(1)
        .take_while(|l| l.starts_with("- "))
        .map(|l| l[2..].to_string())
        .collect()
}

pub fn script_path(ctx: &mut Ctx, g: &Game) -> String {
    let n = g.issued;
    match ctx.ch.draw(5) {
        0 => format!("{SCRIPTS}/file{n}.reds"),
        1 => format!("{SCRIPTS}/mod{}/file{n}.reds", ctx.ch.draw(3)),
        2 => {
            let d = *ctx.ch.pick(&["deep/er", "d/e/e/p/e/r/a/n/d/d/o/w/n", "with space/größe", ".hidden", "a.reds"]);
            let x = *ctx.ch.pick(&["", "", ".v1", " 2", ".reds"]);
            format!("{SCRIPTS}/mod{}/{d}/file{n}{x}.reds", ctx.ch.draw(2))
        }
        3 if g.extra && g.paths.contains(PACK) && !g.scripts.contains_key(PACK) => PACK.to_string(),
        3 if g.extra => format!("{EXTRA}/pack{}/file{n}.reds", ctx.ch.draw(2)),
        4 if g.linked => format!("{LINK}/in/file{n}.reds"),
        _ => format!("{SCRIPTS}/zz{}/a{n}.reds", ctx.ch.draw(2)),
    }
}

pub fn install(ctx: &mut Ctx, only: P) -> Game {
    let version = *ctx.ch.pick(&[0usize, 1, 2]);
    let mut g = Game {
        fs: Fs::new(),
        version,
        acc: BTreeSet::from([version]),
        scripts: BTreeMap::new(),
        extra: ctx.ch.chance(1, 4),
        paths: String::new(),
        linked: false,
        locked: None,
        issued: 0,
        retired: BTreeSet::new(),
        flavor: ctx.ch.draw(8),
        disturbed: false,
        only,
        own: version,
        own_modded: false,
    };
    g.fs.put(CACHE, BASES[version]);
    g.fs.mkdirs("/simfs/r6/cache/modded");
    g.fs.mkdirs("/simfs/r6/logs");
    if ctx.ch.chance(7, 8) {
        g.fs.mkdirs(SCRIPTS);
    }
    if g.extra {
        g.paths = match ctx.ch.draw(7) {
            0 => format!("{EXTRA}\n"),
            5 => format!("\n{EXTRA}\n\n"),
            6 => format!("{}{EXTRA}\n", "/simfs/not installed here any more\n".repeat(300)),
            1 => format!("{EXTRA}\r\n/simfs/missing\r\n"),
            2 => format!("/simfs/missing\n{EXTRA}"),
            3 => format!("{PACK}\n{EXTRA}\n"),
            _ => format!("{EXTRA}\n{PACK}"),
        };
    }
    g.linked = ctx.ch.chance(1, 6);
    lay(&mut g);
    for _ in 0..1 + ctx.ch.draw(4) {
        add_script(ctx, &mut g);
    }
    if ctx.ch.chance(1, 6) {
        add_broken(ctx, &mut g);
    }
    // files that are not scripts
    if ctx.ch.chance(1, 3) {
        g.fs.put(&format!("{SCRIPTS}/mod0/readme.txt"), b"not a script class Nope {");
        g.fs.put(&format!("{SCRIPTS}/mod0/old.reds.bak"), b"class Nope {");
    }
    g.fs.clock += 10_000_000_000;
    g.fs.settle();
    g
}

/// What scripts need to lie in.
fn lay(g: &mut Game) {
    if g.extra {
        g.fs.mkdirs(EXTRA);
        let t = g.paths.clone();
        g.fs.put(PATHS, t.as_bytes());
    }
    if g.linked {
        g.fs.mkdirs(STORE);
        g.fs.symlink(LINK, STORE);
    }
}

pub fn add_script(ctx: &mut Ctx, g: &mut Game) -> String {
    let s = gen_script(ctx, &mut g.issued);
    let p = script_path(ctx, g);
    g.fs.put(&p, s.text.as_bytes());
    ctx.note(|| format!("script {p}: {:.300}", s.text));
    g.scripts.insert(p.clone(), s);
    p
}
pub fn remove_script(g: &mut Game, p: &str) {
    g.fs.remove(p);
    if let Some(s) = g.scripts.remove(p) {
        g.retired.extend(s.tokens);
    }
}

pub fn args(g: &Game, mode: Mode) -> Vec<&'static str> {
    let mut a = vec!["-compile", SCRIPTS];
    if mode.separate() {
        a.extend(["-outputCacheFile", mode.output()]);
    }
    if g.extra {
        a.extend(["-compilePathsFile", PATHS]);
    }
    if mode.custom() {
        if g.flavor % 3 == 2 {
            a.push(CUSTOM);
        } else {
            a.extend(["-customCacheDir", "/simfs/profile"]);
        }
    } else if g.flavor % 3 == 1 {
        a.push(CACHE);
    }
    if g.flavor & 4 != 0 {
        a.extend(["-Wnone", "-threads", "4", "-no-testonly", "-no-breakpoint", "-profile=off"]);
    }
    a
}

pub type SccRun = bool;

static MEMO: Mutex<Option<HashMap<u64, Option<Arc<Vec<u8>>>>>> = Mutex::new(None);

/// The output of an undisturbed first run of the real scc on this version of the cache and these scripts.
pub fn reference(g: &Game, version: usize) -> Option<Arc<Vec<u8>>> {
    let mut f = Fnv::new();
    f.u64(version as u64).u64(u64::from(g.extra)).u64(u64::from(g.linked)).str(&g.paths);
    for (p, s) in &g.scripts {
        f.str(p).str(&s.text);
    }
    let key = f.get();
    if let Some(r) = MEMO.lock().unwrap_or_else(|e| e.into_inner()).get_or_insert_with(HashMap::new).get(&key) {
        return r.clone();
    }
    let mut o = Game { fs: Fs::new(), ..g.clone() };
    o.fs.put(CACHE, BASES[version]);
    o.fs.mkdirs(SCRIPTS);
    lay(&mut o);
    for (p, s) in &g.scripts {
        o.fs.put(p, s.text.as_bytes());
    }
    let mut fs = o.fs;
    let a = args(g, Mode::InPlace);
    let mut c = Ctx::new(Choices::replay(vec![]));
    let (r, _) = simfs::run(&mut c, &mut fs, Opts::default(), vec![Box::new(move || cli::scc(&a))]);
    let out = match r.into_iter().next() {
        Some(Outcome::Done(true)) => fs.read(CACHE),
        _ => None,
    };
    let mut m = MEMO.lock().unwrap_or_else(|e| e.into_inner());
    let m = m.get_or_insert_with(HashMap::new);
    if m.len() > 256 {
        m.clear();
    }
    m.insert(key, out.clone());
    out
}

/// The operations of an undisturbed run, to aim the faults.
pub fn rehearse(g: &Game, modes: &[Mode]) -> Vec<Vec<Op>> {
    modes
        .iter()
        .map(|m| {
            let mut fs = g.fs.clone();
            let a = args(g, *m);
            let mut c = Ctx::new(Choices::replay(vec![]));
            let (_, i) = simfs::run(&mut c, &mut fs, Opts::default(), vec![Box::new(move || cli::scc(&a))]);
            i.ops.into_iter().next().unwrap_or_default()
        })
        .collect()
}

#[derive(Clone, Copy, Debug)]
pub struct Faults {
    pub errors: bool,
    pub short: bool,
    pub kill: bool,
    pub power: bool,
    pub most: u64,
}
pub const NONE: Faults = Faults { errors: false, short: false, kill: false, power: false, most: 0 };

pub fn plan(ctx: &mut Ctx, f: Faults, ops: &[Vec<Op>]) -> Vec<Fault> {
    let mut out = vec![];
    let mut kinds = vec![];
    if f.kill {
        kinds.extend([Act::Kill, Act::Kill]);
    }
    if f.power {
        kinds.push(Act::Power);
    }
    if f.errors {
        kinds.extend([Act::Fail, Act::Fail]);
    }
    if f.short {
        kinds.push(Act::Short);
    }
    if kinds.is_empty() || f.most == 0 {
        return out;
    }
    for _ in 0..ctx.ch.draw(f.most + 1) {
        let pid = ctx.ch.draw(ops.len() as u64) as usize;
        let act = *ctx.ch.pick(&kinds);
        let all = &ops[pid];
        let hot: Vec<usize> = (0..all.len()).filter(|k| all[*k].mutates()).collect();
        let stat: Vec<usize> = (0..all.len()).filter(|k| matches!(all[*k], Op::Stat | Op::Open | Op::ReadDir)).collect();
        let at = match ctx.ch.draw(4) {
            0 | 1 if !hot.is_empty() => *ctx.ch.pick(&hot),
            2 if !stat.is_empty() => *ctx.ch.pick(&stat),
            _ => ctx.ch.draw(all.len() as u64 + 2) as usize,
        };
        let sticky = ctx.ch.chance(1, 3);
        ctx.note(|| format!("PLAN p{pid} {act:?} at #{at}{}", if sticky { " and on" } else { "" }));
        out.push(Fault { pid, at: at as u64, act, sticky });
    }
    out
}

fn ts_unset(g: &Game, mode: Mode) -> bool {
    let legacy = format!("{}/redscript.ts", mode.cache().rsplit_once('/').unwrap().0);
    let len = |p: &str| g.fs.read(p).map(|d| d.len());
    match len(&mode.ts()) {
        Some(n) => n < 16,
        None => len(&legacy).map_or(true, |n| n < 16),
    }
}

/// A backup made by a run that died before it could note the timestamp counts as the original.
pub fn excuse(g: &mut Game, m: Mode) {
    if g.disturbed && ts_unset(g, m) {
        if let Some(v) = g.fs.read(&m.backup()).and_then(|d| version_of(&d)) {
            g.acc.insert(v);
        }
    }
}

fn version_of(b: &[u8]) -> Option<usize> {
    BASES.iter().position(|x| *x == b)
}

pub struct Done {
    pub outs: Vec<Outcome<SccRun>>,
    pub info: RunInfo,
    pub before: Game,
}

fn probe_for(only: P, cache: &'static str, backup: String, acc: BTreeSet<usize>, prev: BTreeMap<&'static str, Vec<Option<Arc<Vec<u8>>>>>, custom: Option<Arc<Vec<u8>>>) -> Probe {
    Box::new(move |fs| {
        let concurrent = only == P::Concurrent;
        if only != P::Pristine && !concurrent {
        } else if let Some(d) = &custom {
            // a custom cache leaves the game's own one alone
            if fs.read(CACHE).as_ref() != Some(d) {
                return Err((if concurrent { "concurrent-output" } else { "pristine-lost" }, "the game's cache was changed by a run with a custom one".into()));
            }
        } else {
            let ok = [cache, backup.as_str()]
                .iter()
                .any(|p| fs.read(p).is_some_and(|d| version_of(&d).is_some_and(|v| acc.contains(&v))));
            if !ok {
                return Err((if concurrent { "concurrent-output" } else { "pristine-lost" }, format!("neither {cache} nor its backup is the pristine cache any more")));
            }
        }
        for (p, allowed) in prev.iter().filter(|_| only == P::Atomic || concurrent) {
            let now = fs.read(p);
            if !allowed.contains(&now) {
                return Err((
                    if concurrent { "concurrent-output" } else { "output-torn" },
                    format!("{p} is neither what it was nor a complete new output ({:?} bytes)", now.map(|d| d.len())),
                ));
            }
        }
        Ok(())
    })
}

/// One or more scc processes at once, with the invariants checked after every operation.
pub fn run_scc(ctx: &mut Ctx, g: &mut Game, modes: &[Mode], f: Faults, shuffle: bool) -> Result<Done, Violation> {
    g.fs.clock += 10_000_000_000;
    ctx.sim_ns += 10_000_000_000;
    for m in modes {
        excuse(g, *m);
    }
    let ops = if f.most > 0 { rehearse(g, modes) } else { vec![] };
    let plan = plan(ctx, f, &ops);
    let broken = g.scripts.values().any(|s| s.broken.is_some());
    let mut allowed: BTreeMap<&'static str, Vec<Option<Arc<Vec<u8>>>>> = BTreeMap::new();
    for m in modes {
        for p in [m.output(), m.cache()] {
            let e = allowed.entry(p).or_default();
            e.push(g.fs.read(p));
            for v in &g.acc {
                if !broken && p == m.output() {
                    e.push(reference(g, *v));
                }
                // the pristine cache may be put back (or put there)
                if p == m.cache() {
                    e.push(Some(Arc::new(BASES[*v].to_vec())));
                }
            }
        }
    }
    let custom = modes.iter().all(|m| m.custom()).then(|| g.fs.read(CACHE)).flatten();
    let own = *modes.iter().find(|m| !m.custom()).unwrap_or(&modes[0]);
    let probe = probe_for(g.only, own.cache(), own.backup(), g.acc.clone(), allowed, custom);
    let before = g.clone();
    let jobs: Vec<Job<SccRun>> = modes
        .iter()
        .map(|m| {
            let a = args(g, *m);
            Box::new(move || cli::scc(&a)) as Job<SccRun>
        })
        .collect();
    let env = if ctx.ch.chance(1, if shuffle { 1 } else { 4 }) { ctx.ch.draw(1 << 20) } else { 0 };
    ctx.event("run", || format!("{modes:?} broken={broken}"));
    let (outs, info) = simfs::run(ctx, &mut g.fs, Opts { plan, shuffle_dirs: shuffle, probe: Some(probe), env }, jobs);
    g.disturbed |= !info.fired.is_empty();
    for (k, o) in outs.iter().enumerate() {
        let t = match o {
            Outcome::Done(r) => format!("{r:?}"),
            Outcome::Panicked(p) => format!("panicked {p}"),
            Outcome::Killed => "killed".into(),
        };
        ctx.event("exit", || format!("p{k} {t}"));
        ctx.note(|| format!("log p{k} {:?}", info.logs[k]));
    }
    if let Some((c, m)) = &info.probe_failed {
        return Err(Violation::new(*c, m.clone()));
    }
    g.chk(ctx, !info.deadlock, "deadlock", || "the processes wait for each other for ever".into())?;
    Ok(Done { outs, info, before })
}

fn has(hay: &[u8], needle: &str) -> bool {
    hay.windows(needle.len()).any(|w| w == needle.as_bytes())
}

/// The output must be the compilation of one of the acceptable bases with all scripts.
pub fn check_output(ctx: &mut Ctx, g: &mut Game, mode: Mode, class: &'static str) -> V {
    let out = g.fs.read(mode.output());
    g.chk(ctx, out.is_some(), class, || format!("{} does not exist after a success", mode.output()))?;
    let Some(out) = out else { return Ok(()) };
    for (p, s) in &g.scripts {
        for t in &s.tokens {
            g.chk(ctx, has(&out, t), "script-missing", || format!("{t} of {p} is not in the output of a successful run"))?;
        }
    }
    for t in &g.retired {
        g.chk(ctx, !has(&out, t), "stale-script", || format!("{t} of a removed script is in the output"))?;
    }
    g.chk(ctx, out.windows(SIGNATURE.len()).any(|w| w == SIGNATURE), class, || "the output is not marked as redscript's".into())?;
    let used = g.acc.iter().copied().find(|v| reference(g, *v).as_ref() == Some(&out));
    g.chk(ctx, used.is_some(), class, || {
        format!("{} ({} bytes) is not what an undisturbed run makes of version {:?} and these scripts", mode.output(), out.len(), g.acc)
    })?;
    if let Some(v) = used {
        ctx.count("outputs.verified");
        g.version = v;
        g.acc = BTreeSet::from([v]);
    }
    Ok(())
}

/// Checks over one finished round of runs.
pub fn judge(ctx: &mut Ctx, g: &mut Game, modes: &[Mode], d: &Done) -> V {
    let faulty = !d.info.fired.is_empty();
    let broken = g.scripts.values().any(|s| s.broken.is_some());
    let mut ok_modes = vec![];
    for (k, o) in d.outs.iter().enumerate() {
        match o {
            Outcome::Panicked(p) => {
                let class = if broken { "error-panic" } else { "panic" };
                g.chk(ctx, false, class, || format!("scc panicked: {p}"))?
            }
            Outcome::Killed => ctx.count("runs.killed"),
            Outcome::Done(true) => {
                g.chk(ctx, !broken, "error-hidden", || "scc reports success for scripts that do not compile".into())?;
                for (p, s) in g.scripts.iter().filter(|_| !faulty && modes.len() == 1) {
                    if let Some(n) = s.note.filter(|n| !n.fatal && !n.pass) {
                        let place = format!("[WARN] At {p}:{}:", n.line);
                        g.chk(ctx, d.info.logs[k].iter().any(|l| l.starts_with(&place)), "error-report", || {
                            format!("the log does not say {place:?}: {:?}", d.info.logs[k])
                        })?;
                        ctx.count("errors.warnings_located");
                    }
                }
                ctx.count(if faulty { "runs.ok_despite_faults" } else { "runs.ok" });
                if !broken {
                    ok_modes.push(modes[k]);
                }
            }
            Outcome::Done(r) => {
                ctx.count("runs.failed");
                let own = d.info.fired.iter().any(|f| f.0 == k) || g.locked.is_some_and(|p| modes.iter().any(|m| m.output() == p || m.cache() == p));
                let class = if modes.len() > 1 { "concurrent-failure" } else { "no-recovery" };
                let told = d.info.logs[k].iter().any(|l| l.starts_with("[ERROR]") || l.starts_with("[PRINTED]"));
                g.chk(ctx, told, "error-hidden", || "scc failed without a word".into())?;
                if !broken {
                    g.chk(ctx, own, class, || format!("scc failed without any fault: {r:?} {:?}", d.info.logs[k]))?;
                }
            }
        }
    }
    if !d.info.power_lost {
        for m in &ok_modes {
            // in-place and separate runs at the same time: the last one decides what the cache is
            let last_is_other = modes.len() > 1 && !m.separate() && modes.iter().any(|o| o.separate() && o.cache() == m.cache());
            if !last_is_other {
                check_output(ctx, g, *m, if modes.len() > 1 { "concurrent-output" } else { "wrong-output" })?;
            }
            if m.separate() && modes.len() == 1 {
                let c = g.fs.read(m.cache()).and_then(|d| version_of(&d));
                g.chk(ctx, c.is_some_and(|c| g.acc.contains(&c)), "input-not-pristine", || {
                    format!("after a successful run to a separate output the cache is not the pristine version {:?}", g.acc)
                })?;
            }
        }
    }
    if broken && !d.info.power_lost {
        for m in modes {
            let (was, is) = (d.before.fs.read(m.output()), g.fs.read(m.output()));
            // the first run with a custom cache puts the pristine one there
            let fresh = *m == Mode::Custom && was.is_none() && is.as_ref().and_then(|d| version_of(d)).is_some();
            // a run to a separate output may have put the pristine cache back
            let restored = !m.separate() && modes.iter().any(|o| o.separate() && o.cache() == m.cache());
            g.chk(ctx, was == is || fresh || restored, "error-changed-output", || {
                format!("{} changed although the scripts do not compile", m.output())
            })?;
        }
    }
    Ok(())
}

/// The history continues undisturbed: everything has to work again, in the given mode.
pub fn finish(ctx: &mut Ctx, g: &mut Game, mode: Mode, class: &'static str) -> V {
    remove_broken(g);
    unlock(g);
    let d = run_scc(ctx, g, &[mode], NONE, false)?;
    if let Outcome::Done(r) = &d.outs[0] {
        g.chk(ctx, *r, class, || {
            format!("with no fault left, scc ({mode:?}) fails: {r:?} {:?}", d.info.logs[0])
        })?;
    }
    judge(ctx, g, &[mode], &d)
}

fn unlock(g: &mut Game) {
    if let Some(p) = g.locked.take() {
        g.fs.chmod(p, 0o644);
    }
}

/// Something other than scc happens to the installation.
pub fn happen(ctx: &mut Ctx, g: &mut Game, mode: Mode) {
    let gap = if ctx.ch.chance(1, 3) { 20_000_000 } else { 3_600_000_000_000 };
    g.fs.clock += gap;
    ctx.sim_ns += gap;
    // nothing is lost in a power cut after this
    g.fs.settle();
    let k = ctx.ch.draw(14);
    match k {
        9 => {
            unlock(g);
            g.fs.chmod(mode.output(), 0o444);
            g.locked = Some(mode.output());
            ctx.event("read-only", || mode.output().into());
        }
        10 => {
            // as a tool that unpacks archives leaves it
            let t = *ctx.ch.pick(&[0i64, -1_000_000_000_000_000, -2_000_000, 4_000_000_000_000_000_000]);
            // (no two versions with the same time)
            let t = t + (g.fs.clock / 1_000_000 % 1_000_000) as i64;
            g.fs.set_mtime(mode.cache(), t);
            ctx.event("odd time", || format!("{} {t}", mode.cache()));
        }
        11 => {
            let by = 1 + ctx.ch.draw(365 * 86400) * 1_000_000_000;
            g.fs.clock = if ctx.ch.coin() { g.fs.clock - by } else { g.fs.clock + by };
            ctx.fault("fault.clock_jump", by);
        }
        12 => {
            // the advice of the error messages: everything out, game files verified
            let dir = mode.cache().rsplit_once('/').unwrap().0;
            for p in [mode.cache().to_string(), mode.backup(), mode.ts(), format!("{dir}/redscript.ts"), mode.output().to_string()] {
                g.fs.remove(&p);
            }
            if g.own_modded {
                g.version = g.own;
            }
            g.fs.put(mode.cache(), BASES[g.version]);
            g.acc = BTreeSet::from([g.version]);
            ctx.event("reset", || dir.into());
        }
        13 => {
            if mode == Mode::Separate || mode == Mode::Profile && ctx.ch.coin() {
                g.fs.remove(mode.output());
                ctx.event("removed", || mode.output().into());
            } else if mode.custom() {
                // the profile goes, the next run starts from the game's own cache
                unlock(g);
                for p in [CUSTOM.to_string(), mode.backup(), mode.ts(), "/simfs/profile/redscript.ts".to_string()] {
                    g.fs.remove(&p);
                }
                g.version = g.own;
                g.acc = BTreeSet::from([g.own]);
                ctx.event("removed", || "the profile".into());
            }
        }
        0 => {}
        1 | 2 => {
            let p = add_script(ctx, g);
            ctx.event("edit", || format!("add {p}"));
        }
        3 => {
            if let Some(p) = pick_script(ctx, g) {
                remove_script(g, &p);
                ctx.event("edit", || format!("remove {p}"));
            }
        }
        4 => {
            if let Some(p) = pick_script(ctx, g) {
                remove_script(g, &p);
                let s = gen_script(ctx, &mut g.issued);
                g.fs.put(&p, s.text.as_bytes());
                g.scripts.insert(p.clone(), s);
                ctx.event("edit", || format!("change {p}"));
            }
        }
        // (a custom cache without a backup of its own belongs to the backup of the game's cache)
        5 if mode.custom() && g.own_modded && g.fs.read(&mode.backup()).is_none() => {}
        5 => {
            // the game is updated (or its files are verified): a pristine cache, new timestamp
            let v = if ctx.ch.chance(1, 4) { g.version } else { *ctx.ch.pick(&[1usize, 2, 3, 0]) };
            g.fs.replace(mode.cache(), BASES[v]);
            g.version = v;
            g.acc = BTreeSet::from([v]);
            ctx.event("update", || format!("to version {v}"));
        }
        6 => {
            g.fs.touch(mode.cache());
            ctx.event("touch", || mode.cache().into());
        }
        7 => {
            remove_broken(g);
            ctx.event("edit", || "broken scripts removed".into());
        }
        _ => add_broken(ctx, g),
    }
    g.fs.settle();
    ctx.count("world.events");
}
pub fn add_broken(ctx: &mut Ctx, g: &mut Game) {
    let s = gen_broken(ctx, &mut g.issued);
    let p = script_path(ctx, g);
    g.fs.put(&p, s.text.as_bytes());
    ctx.event("edit", || format!("broken {p}: {}", s.text));
    g.scripts.insert(p, s);
}
/// Mods may have been compiled into the game's own cache before a custom one comes into use.
pub fn own_first(ctx: &mut Ctx, g: &mut Game, mode: Mode) -> V {
    if !mode.custom() || !ctx.ch.chance(1, 3) {
        return Ok(());
    }
    let m = if ctx.ch.chance(1, 4) { Mode::Separate } else { Mode::InPlace };
    let d = run_scc(ctx, g, &[m], NONE, false)?;
    judge(ctx, g, &[m], &d)?;
    g.own_modded = m == Mode::InPlace;
    ctx.event("own", || format!("{m:?}"));
    g.fs.clock += 60_000_000_000;
    g.fs.settle();
    Ok(())
}
pub fn remove_broken(g: &mut Game) {
    let bad: Vec<String> = g.scripts.iter().filter(|(_, s)| s.broken.is_some()).map(|(p, _)| p.clone()).collect();
    for p in bad {
        remove_script(g, &p);
    }
}
fn pick_script(ctx: &mut Ctx, g: &Game) -> Option<String> {
    let l: Vec<String> = g.scripts.keys().cloned().collect();
    (!l.is_empty()).then(|| ctx.ch.pick(&l).clone())
}

/// The general history: runs with faults, things that happen in between, and an undisturbed end.
pub fn history(ctx: &mut Ctx, only: P, f: Faults, modes: &[Mode], shuffle: bool) -> V {
    let mut g = install(ctx, only);
    let mut mode = *ctx.ch.pick(modes);
    own_first(ctx, &mut g, mode)?;
    let n = 1 + ctx.ch.draw(5);
    for _ in 0..n {
        if ctx.ch.chance(1, 4) {
            mode = *ctx.ch.pick(modes);
        }
        let d = run_scc(ctx, &mut g, &[mode], f, shuffle)?;
        judge(ctx, &mut g, &[mode], &d)?;
        if d.info.power_lost {
            after_power(ctx, &mut g, mode, &d)?;
        }
        let st = g.fs.hash();
        ctx.sig.u64(st);
        for _ in 0..ctx.ch.draw(3) {
            happen(ctx, &mut g, mode);
        }
    }
    if ctx.ch.chance(1, 4) {
        mode = *ctx.ch.pick(modes);
    }
    finish(ctx, &mut g, mode, "no-recovery")
}

/// A group of files: one mod that does something to the game.
fn add_mod(ctx: &mut Ctx, g: &mut Game, replaced: &mut Vec<String>) -> Vec<String> {
    g.issued += 1;
    let t = format!("{:03}", g.issued);
    let mut paths = vec![];
    let files = if g.only == P::Declared && ctx.ch.chance(5, 6) {
        let others: Vec<_> = decls(g).into_iter().map(|d| d.1.clone()).collect();
        crate::decl::gen_mod(ctx, &t, &others)
    } else {
        crate::game::gen_mod(ctx, &t, replaced)
    };
    for (n, items) in files.into_iter().enumerate() {
        g.issued += 1;
        let p = script_path(ctx, g);
        let p = if g.scripts.contains_key(&p) { format!("{SCRIPTS}/mod0/extra{t}{n}.reds") } else { p };
        let text = crate::game::text(&items);
        g.fs.put(&p, text.as_bytes());
        ctx.note(|| format!("mod {p}:\n{text}"));
        g.scripts.insert(p.clone(), Script { text, tokens: vec![], broken: None, items, note: None });
        paths.push(p);
    }
    paths
}

/// The order in which the sources are read: the scripts directory, then the paths file line by line; names in order.
fn in_order(g: &Game) -> Vec<String> {
    let mut roots = vec![SCRIPTS.to_string()];
    if g.extra {
        roots.extend(g.paths.lines().filter(|l| !l.is_empty()).map(String::from));
    }
    let rank = |p: &str| roots.iter().position(|r| p == r || p.starts_with(&format!("{r}/"))).unwrap_or(usize::MAX);
    let mut l: Vec<String> = g.scripts.keys().cloned().collect();
    l.sort_by_key(|p| (rank(p), p.split('/').map(String::from).collect::<Vec<_>>()));
    l
}

/// The game is started after every successful run and does what the mods say.
pub fn effects(ctx: &mut Ctx, f: Faults, modes: &[Mode]) -> V {
    in_game(ctx, f, modes, P::Effect)
}

/// What the mods declare is in the output after every successful run.
pub fn declared(ctx: &mut Ctx, f: Faults, modes: &[Mode]) -> V {
    in_game(ctx, f, modes, P::Declared)
}

fn decls(g: &Game) -> Vec<(String, &crate::decl::Decls)> {
    let of = |i| match i {
        &crate::game::Item::Decl(ref d) => Some(&**d),
        _ => None,
    };
    g.scripts.iter().flat_map(|(p, s)| s.items.iter().filter_map(of).map(|d| (p.clone(), d))).collect()
}

fn in_game(ctx: &mut Ctx, f: Faults, modes: &[Mode], what: P) -> V {
    let mut g = install(ctx, what);
    let mut mods: Vec<(Vec<String>, Vec<String>)> = vec![];
    let mut mode = *ctx.ch.pick(modes);
    if ctx.ch.chance(1, 2) {
        for p in g.scripts.keys().cloned().collect::<Vec<_>>() {
            remove_script(&mut g, &p);
        }
    }
    own_first(ctx, &mut g, mode)?;
    for round in 0..1 + ctx.ch.draw(4) {
        for _ in 0..1 + ctx.ch.draw(3) {
            let had: Vec<String> = mods.iter().flat_map(|m| m.1.clone()).collect();
            let mut now = had.clone();
            let files = add_mod(ctx, &mut g, &mut now);
            mods.push((files, now[had.len()..].to_vec()));
        }
        if mods.len() > 1 && ctx.ch.chance(1, 3) {
            let (files, _) = mods.remove(ctx.ch.draw(mods.len() as u64) as usize);
            ctx.event("edit", || format!("remove {files:?}"));
            for p in files {
                remove_script(&mut g, &p);
            }
        }
        if round > 0 {
            for _ in 0..ctx.ch.draw(2) {
                happen(ctx, &mut g, mode);
            }
            // a mod is removed as a whole
            mods.retain(|(files, _)| {
                let all = files.iter().all(|p| g.scripts.get(p).is_some_and(|s| !s.items.is_empty()));
                if !all {
                    for p in files {
                        if g.scripts.get(p).is_some_and(|s| !s.items.is_empty()) {
                            remove_script(&mut g, p);
                        }
                    }
                }
                all
            });
        }
        if ctx.ch.chance(1, 2) {
            remove_broken(&mut g);
        }
        if ctx.ch.chance(1, 4) {
            mode = *ctx.ch.pick(modes);
        }
        let d = run_scc(ctx, &mut g, &[mode], f, false)?;
        judge(ctx, &mut g, &[mode], &d)?;
        let won = matches!(d.outs[0], Outcome::Done(true));
        let own = !d.info.fired.is_empty() || g.locked.is_some();
        let broken = g.scripts.values().any(|s| s.broken.is_some());
        let class = if what == P::Effect { "mod-effect" } else { "declaration" };
        g.chk(ctx, won || own || broken || matches!(d.outs[0], Outcome::Killed), class, || {
            format!("mods that are all right are refused: {:?}", d.info.logs[0])
        })?;
        if won && !broken && what == P::Effect {
            play(ctx, &mut g, mode)?;
        }
        if won && !broken && what == P::Declared {
            let Some(out) = g.fs.read(mode.output()) else { continue };
            let l = decls(&g);
            match crate::decl::check(&out, &l) {
                Ok(n) => {
                    ctx.count("declarations.checked");
                    ctx.add("declarations.found", n);
                    ctx.nontrivial |= l.len() > 1;
                    for d in &l {
                        ctx.shape.str(&d.1.text);
                    }
                }
                Err(e) => g.chk(ctx, false, class, || e)?,
            }
        }
    }
    Ok(())
}

fn play(ctx: &mut Ctx, g: &mut Game, mode: Mode) -> V {
    let Some(out) = g.fs.read(mode.output()) else { return Ok(()) };
    let items: Vec<&crate::game::Item> = in_order(g).iter().flat_map(|p| g.scripts[p].items.iter()).collect();
    let mut why = vec![];
    for v in g.acc.clone() {
        let mut w = crate::game::World::new(v, items.iter().copied());
        match crate::game::play(ctx, &out, &mut w).and_then(|n| crate::game::conserved(BASES[v], &out, &items).map(|()| n)) {
            Ok(n) => {
                ctx.count("game.sessions");
                ctx.nontrivial |= items.len() > 1;
                for s in g.scripts.values() {
                    ctx.shape.str(&s.text);
                }
                ctx.add("game.calls", n);
                ctx.add("game.wrapped_methods", w.wrapped() as u64);
                return Ok(());
            }
            Err(e) => why.push(e),
        }
    }
    g.chk(ctx, false, "mod-effect", || why.join("; "))
}

/// Success, then the power is cut: what was reported is still there.
pub fn durable(ctx: &mut Ctx, f: Faults, modes: &[Mode]) -> V {
    let mut g = install(ctx, P::Durable);
    let mut mode = *ctx.ch.pick(modes);
    own_first(ctx, &mut g, mode)?;
    for _ in 0..1 + ctx.ch.draw(3) {
        mode = *ctx.ch.pick(modes);
        let d = run_scc(ctx, &mut g, &[mode], f, false)?;
        judge(ctx, &mut g, &[mode], &d)?;
        if matches!(d.outs[0], Outcome::Done(true)) && g.scripts.values().all(|s| s.broken.is_none()) {
            for _ in 0..1 + ctx.ch.draw(3) {
                let mut after = g.clone();
                after.fs.power_loss(ctx);
                ctx.count("power.after_success");
                let was = g.fs.read(mode.output());
                let is = after.fs.read(mode.output());
                ctx.check(is.is_some() && was == is, "success-not-durable", || {
                    format!(
                        "{} had {:?} bytes when scc reported success, after a power cut {:?} (or other ones)",
                        mode.output(),
                        was.as_ref().map(|d| d.len()),
                        is.as_ref().map(|d| d.len())
                    )
                })?;
                if ctx.ch.chance(1, 3) {
                    finish(ctx, &mut after, mode, "success-not-durable")?;
                }
            }
        }
        for _ in 0..ctx.ch.draw(3) {
            happen(ctx, &mut g, mode);
        }
    }
    Ok(())
}

/// Some of the processes work on the game's own cache, others on a custom one.
pub fn concurrent_mixed(ctx: &mut Ctx) -> V {
    let mut g = install(ctx, P::Concurrent);
    remove_broken(&mut g);
    let base: &[Mode] = &[Mode::InPlace, Mode::Separate, Mode::Custom];
    if ctx.ch.chance(1, 2) {
        let m = *ctx.ch.pick(base);
        finish(ctx, &mut g, m, "concurrent-failure")?;
    }
    for _ in 0..1 + ctx.ch.draw(2) {
        let mut modes = vec![Mode::Custom, *ctx.ch.pick(&base[..2])];
        if ctx.ch.coin() {
            modes.push(*ctx.ch.pick(base));
        }
        let d = run_scc(ctx, &mut g, &modes, NONE, false)?;
        judge(ctx, &mut g, &modes, &d)?;
        ctx.count("rounds.concurrent");
        if ctx.ch.coin() {
            add_script(ctx, &mut g);
        }
    }
    for m in [Mode::Custom, *ctx.ch.pick(&base[..2])] {
        finish(ctx, &mut g, m, "concurrent-failure")?;
    }
    Ok(())
}

/// Several scc at the same time.
pub fn concurrent(ctx: &mut Ctx, kill: bool, custom: bool) -> V {
    let mut g = install(ctx, P::Concurrent);
    remove_broken(&mut g);
    let base: &[Mode] = if custom { &[Mode::Custom, Mode::Profile] } else { &[Mode::InPlace, Mode::Separate] };
    if ctx.ch.chance(1, 2) {
        // not the first run
        let m = *ctx.ch.pick(base);
        finish(ctx, &mut g, m, "concurrent-failure")?;
        if ctx.ch.coin() {
            // as an older release left it
            let legacy = format!("{}/redscript.ts", m.cache().rsplit_once('/').unwrap().0);
            if let Some(d) = g.fs.read(&m.ts()) {
                g.fs.put(&legacy, &d);
                g.fs.remove(&m.ts());
                ctx.event("legacy", || legacy.clone());
            }
        }
        for _ in 0..ctx.ch.draw(3) {
            happen(ctx, &mut g, m);
        }
        remove_broken(&mut g);
    }
    for _ in 0..1 + ctx.ch.draw(2) {
        let n = 2 + ctx.ch.draw(2) as usize;
        let modes: Vec<Mode> = (0..n).map(|_| *ctx.ch.pick(base)).collect();
        let f = if kill { Faults { kill: true, most: 1, ..NONE } } else { NONE };
        let d = run_scc(ctx, &mut g, &modes, f, false)?;
        judge(ctx, &mut g, &modes, &d)?;
        ctx.count("rounds.concurrent");
        if ctx.ch.coin() {
            happen(ctx, &mut g, base[0]);
        }
        remove_broken(&mut g);
    }
    let m = *ctx.ch.pick(base);
    finish(ctx, &mut g, m, "concurrent-failure")
}

/// What the report calls the mod a file belongs to.
pub fn cause(path: &str) -> String {
    match path.strip_prefix(SCRIPTS) {
        Some(r) => r.trim_start_matches('/').split('/').next().unwrap_or("").to_string(),
        None => path.rsplit('/').next().unwrap_or("").to_string(),
    }
}

const HINTS: &str = "/simfs/r6/config/redsUserHints";

/// Scripts that do not compile, with and without hints, and with faults.
pub fn errors(ctx: &mut Ctx, f: Faults, modes: &[Mode]) -> V {
    let mut g = install(ctx, P::Errors);
    remove_broken(&mut g);
    let mode = *ctx.ch.pick(modes);
    own_first(ctx, &mut g, mode)?;
    if ctx.ch.coin() {
        finish(ctx, &mut g, mode, "error-hidden")?;
    }
    for _ in 0..1 + ctx.ch.draw(3) {
        add_broken(ctx, &mut g);
    }
    let hints = ctx.ch.draw(5);
    // the code of a syntax error is SYNTAX_ERR in one place of the program and OTHER in another
    let syntax_line = "[[SYNTAX_ERR]]\nid = \"A\"\nmessage = \"HINT-SYNTAX\"\nline_contains = \"Broken(\"\n[[OTHER]]\nid = \"A\"\nmessage = \"HINT-SYNTAX\"\nline_contains = \"Broken(\"\n";
    let other = "[[UNRESOLVED_FN]]\nid = \"B\"\nmessage = \"HINT-FN\"\nspan_starts_with = \"NoSuchFunc\"\n";
    let mut near: Vec<(String, &'static str, String, String)> = vec![];
    let mut on: Vec<(String, &'static str, usize, String)> = vec![];
    match hints {
        1 => g.fs.put(&format!("{HINTS}/a.toml"), format!("{syntax_line}{other}").as_bytes()),
        2 => {
            g.fs.put(&format!("{HINTS}/a.toml"), syntax_line.as_bytes());
            g.fs.put(&format!("{HINTS}/b.toml"), other.as_bytes());
            g.fs.put(&format!("{HINTS}/readme.md"), b"not a hint [[");
        }
        3 => g.fs.put(&format!("{HINTS}/bad.toml"), b"[[SYNTAX_ERR]\nnot toml"),
        4 => {
            // for certain files only
            let mut t = String::from("[[UNRESOLVED_FN]]\nid = \"C\"\nmessage = \"HINT-WRONG\"\nfile = \"no/such.reds\"\nspan_starts_with = \"NoSuchFunc\"\n");
            t += "[[UNRESOLVED_FN]]\nid = \"D\"\nmessage = \"HINT-WRONG\"\nspan_starts_with = \"oSuchFunc\"\nline_contains = \"nowhere in the line\"\n";
            t += "[[UNRESOLVED_FN]]\nid = \"E\"\nmessage = \"HINT-WRONG\"\n";
            for (n, p) in g.scripts.iter().filter(|(_, s)| s.broken.is_some()).map(|(p, _)| p).enumerate() {
                if let Some(r) = p.strip_prefix(&format!("{SCRIPTS}/")) {
                    t += &format!("[[UNRESOLVED_FN]]\nid = \"F{n}\"\nmessage = \"HINT-FILE {r}.\"\nfile = \"{r}\"\nspan_starts_with = \"NoSuchFunc\"\n");
                }
            }
            for (n, (p, sc)) in g.scripts.iter().filter(|(_, s)| s.broken.is_some()).enumerate() {
                let (Some(r), Some(note)) = (p.strip_prefix(&format!("{SCRIPTS}/")), sc.note) else { continue };
                // what stands in the lines around the error
                for k in [note.line.wrapping_sub(2), note.line] {
                    let l = sc.text.lines().nth(k).unwrap_or("").trim();
                    if l.is_empty() || l.contains('\'') || note.code.is_empty() {
                        continue;
                    }
                    t += &format!("[[{}]]\nid = \"G{n}-{k}\"\nmessage = \"HINT-NEAR{n}-{k}.\"\nfile = '{r}'\nline_contains = '{l}'\n", note.code);
                    near.push((p.clone(), note.code, l.to_string(), format!("HINT-NEAR{n}-{k}.")));
                }
            }
            // what stands in the line of the error itself, in files of their own
            let one = g.scripts.values().filter(|s| s.broken.is_some()).count() == 1;
            for (n, (p, sc)) in g.scripts.iter().filter(|(_, s)| s.broken.is_some()).enumerate() {
                let Some(note) = sc.note else { continue };
                let rel = p.strip_prefix(&format!("{SCRIPTS}/"));
                let l = sc.text.lines().nth(note.line.wrapping_sub(1)).unwrap_or("").trim();
                let late = sc.broken.map_or(true, |b| b == "syntax" || b == "late");
                if late || l.is_empty() || l.contains('\'') || note.code.is_empty() || sc.text.contains("NoSuchFunc") {
                    continue;
                }
                if near.iter().any(|m| m.0 == *p && l.contains(m.2.as_str())) {
                    continue;
                }
                // one for a file of this name elsewhere, and one that fits
                let name = p.rsplit('/').next().unwrap_or("");
                let mut h = format!("[[{}]]\nid = \"I{n}\"\nmessage = \"HINT-WRONG\"\nfile = 'no/such/{name}'\nline_contains = '{l}'\n", note.code);
                let file = match rel {
                    Some(r) => format!("file = '{r}'\n"),
                    // scripts outside have no path for a hint: any file
                    None if one => String::new(),
                    None => format!("file = '{p}'\n"),
                };
                let m = format!("HINT-ON{n}.");
                h += &format!("[[{}]]\nid = \"H{n}\"\nmessage = \"{m}\"\n{file}line_contains = '{l}'\n", note.code);
                g.fs.put(&format!("{HINTS}/on{n}.toml"), h.as_bytes());
                if rel.is_some() || one {
                    on.push((p.clone(), note.code, note.line, m));
                }
            }
            g.fs.put(&format!("{HINTS}/files.toml"), t.as_bytes());
        }
        _ => {}
    }
    g.fs.clock += 10_000_000_000;
    g.fs.settle();
    for _ in 0..1 + ctx.ch.draw(2) {
        let d = run_scc(ctx, &mut g, &[mode], f, ctx_shuffle(hints))?;
        judge(ctx, &mut g, &[mode], &d)?;
        if let Outcome::Done(false) = &d.outs[0] {
            let text = d.info.logs[0].iter().find(|l| l.contains("REDScript compilation has failed"));
            let faulty = !d.info.fired.is_empty();
            if text.is_none() && faulty {
                // failed for the fault
                ctx.count("errors.masked_by_fault");
                continue;
            }
            g.chk(ctx, text.is_some(), "error-report", || format!("no report of the failed compilation: {:?}", d.info.logs[0]))?;
            let Some(text) = text else { continue };
            let bad: BTreeSet<String> = g.scripts.iter().filter(|(_, s)| s.broken.is_some()).map(|(p, _)| cause(p)).collect();
            let listed = blamed(text);
            g.chk(ctx, !listed.is_empty() && listed.is_subset(&bad), "error-report", || {
                format!("the report blames {listed:?}, the errors are in {bad:?}")
            })?;
            if g.scripts.values().all(|s| s.broken.map_or(true, |b| b != "syntax" && b != "late")) {
                for (p, sc) in g.scripts.iter().filter(|(_, s)| s.note.is_some_and(|n| n.fatal && !n.pass)) {
                    let n = sc.note.expect("note");
                    let code = if n.code.is_empty() { String::new() } else { format!("[{}] ", n.code) };
                    let place = format!("[ERROR] {code}At {p}:{}:", n.line);
                    g.chk(ctx, d.info.logs[0].iter().any(|l| l.starts_with(&place)), "error-report", || {
                        format!("the log does not say {place:?}: {:?}", d.info.logs[0])
                    })?;
                    ctx.count("errors.flaws_located");
                }
                g.chk(ctx, listed == bad, "error-report", || format!("the report blames {listed:?}, the errors are in {bad:?}"))?;
                ctx.count("errors.all_listed");
            }
            // the place is logged: path:line
            for (p, sc) in g.scripts.iter().filter(|(p, _)| bad.len() == 1 && listed.contains(&cause(p))) {
                if sc.broken.is_some() && g.scripts.values().filter(|s| s.broken.is_some()).count() == 1 {
                    let line = error_line(sc);
                    g.chk(ctx, d.info.logs[0].iter().any(|l| l.contains(&format!("{p}:{line}:"))), "error-report", || {
                        format!("the log does not point at {p}:{line}: {:?}", d.info.logs[0])
                    })?;
                    if let Some(n) = sc.note {
                        let code = if n.code.is_empty() { String::new() } else { format!("[{}] ", n.code) };
                        let place = format!("[ERROR] {code}At {p}:{line}:");
                        g.chk(ctx, d.info.logs[0].iter().any(|l| l.starts_with(&place)), "error-report", || {
                            format!("the log does not say {place:?}: {:?}", d.info.logs[0])
                        })?;
                    }
                    ctx.count("errors.located");
                }
            }
            let want = |m: &str, pat: &str| {
                (1..=2).contains(&hints) && !faulty && bad.len() == 1 && g.scripts.values().filter(|s| s.broken.is_some()).count() == 1
                    && g.scripts.values().any(|s| s.broken.is_some() && s.text.contains(pat)) && !m.is_empty()
            };
            for (m, pat) in [("HINT-SYNTAX", "Broken("), ("HINT-FN", "NoSuchFunc")] {
                if want(m, pat) {
                    g.chk(ctx, text.contains(m), "error-report", || format!("the hint {m} is not in the report: {text}"))?;
                    ctx.count("errors.hints_shown");
                }
                let possible = (1..=2).contains(&hints) && g.scripts.values().any(|s| s.broken.is_some() && s.text.contains(pat));
                g.chk(ctx, possible || !text.contains(m), "error-report", || format!("the hint {m} does not belong in the report"))?;
            }
            g.chk(ctx, !text.contains("HINT-WRONG"), "error-report", || format!("a hint that does not match is in the report: {text}"))?;
            for (p, code, l, m) in near.iter().filter(|n| text.contains(&n.3)) {
                let said = d.info.logs[0].iter().filter_map(|e| e.strip_prefix(&format!("[ERROR] [{code}] At {p}:"))).any(|e| {
                    let k: usize = e.split(':').next().and_then(|n| n.parse().ok()).unwrap_or(0);
                    g.scripts[p].text.lines().nth(k.wrapping_sub(1)).is_some_and(|t| t.contains(l.as_str()))
                });
                g.chk(ctx, said, "error-report", || format!("{m} is shown, but no error is in a line with {l:?}: {text}"))?;
            }
            if !near.is_empty() {
                ctx.count("errors.hints_around");
            }
            for (p, code, line, m) in &on {
                let place = format!("[ERROR] [{code}] At {p}:{line}:");
                if !faulty && d.info.logs[0].iter().any(|e| e.starts_with(&place)) {
                    g.chk(ctx, text.contains(m.as_str()), "error-report", || format!("{place} is reported, but not its hint {m}: {text}"))?;
                    ctx.count("errors.hints_of_the_line");
                }
            }
            if hints == 4 && !faulty {
                for (p, sc) in g.scripts.iter().filter(|(_, s)| s.broken.is_some()) {
                    let Some(r) = p.strip_prefix(&format!("{SCRIPTS}/")) else { continue };
                    let all = g.scripts.values().all(|s| s.broken.map_or(true, |b| b == "body"));
                    let fits = sc.text.contains("NoSuchFunc");
                    let shown = text.contains(&format!("HINT-FILE {r}."));
                    g.chk(ctx, !shown || fits, "error-report", || format!("the hint for {r} does not belong in the report: {text}"))?;
                    if all {
                        g.chk(ctx, shown || !fits, "error-report", || format!("the hint for {r} is not in the report: {text}"))?;
                        ctx.count("errors.file_hints");
                    }
                }
            }
            ctx.count("errors.reports_checked");
        }
    }
    finish(ctx, &mut g, mode, "error-hidden")
}
fn ctx_shuffle(h: u64) -> bool {
    h == 2
}
/// The line the (only) error is on.
fn error_line(s: &Script) -> usize {
    if let Some(n) = s.note {
        return n.line;
    }
    let pats = ["Broken(", "NoSuchType", "\"text\"", "NoSuchBase", "NoSuchFunc", "nosuch", "NoSuchClass", "No.Such", "NoBody", "Clamp(x)", "Loop extends"];
    match s.text.lines().position(|l| pats.iter().any(|p| l.contains(p))) {
        Some(n) => n + 1,
        None if s.broken == Some("base") => 1,
        // at the end
        None => s.text.lines().count() + usize::from(s.text.ends_with('\n')),
    }
}

/// Only the files that belong to the run change.
pub fn scope(ctx: &mut Ctx, f: Faults, modes: &[Mode]) -> V {
    let mut g = install(ctx, P::Scope);
    // things that lie around
    g.fs.put("/simfs/r6/config/settings.json", b"{}");
    g.fs.put("/simfs/r6/cache/other.redscripts", BASES[3]);
    g.fs.put("/simfs/r6/cache/final.redscripts.bak", b"a copy by hand");
    g.fs.put("/simfs/r6/scripts/mod0/notes.md", b"notes");
    g.fs.put("/simfs/r6/cache/modded/keep.txt", b"keep");
    if ctx.ch.coin() {
        g.fs.put(&format!("{HINTS}/a.toml"), b"[[SYNTAX_ERR]]\nid = \"A\"\nmessage = \"x\"\nline_contains = \"y\"\n");
    }
    g.fs.settle();
    let mut mode = *ctx.ch.pick(modes);
    own_first(ctx, &mut g, mode)?;
    // left by runs that were interrupted
    let mut temps: BTreeSet<String> = BTreeSet::new();
    for _ in 0..1 + ctx.ch.draw(4) {
        mode = *ctx.ch.pick(modes);
        let d = run_scc(ctx, &mut g, &[mode], f, false)?;
        judge(ctx, &mut g, &[mode], &d)?;
        g.chk(ctx, d.info.escapes.is_empty(), "file-touched", || format!("operations on other files: {:?}", d.info.escapes))?;
        let (was, is) = (d.before.fs.files(), g.fs.files());
        let dir = mode.cache().rsplit_once('/').unwrap().0;
        let mut own = vec![mode.cache().to_string(), mode.output().to_string(), mode.backup(), mode.ts(), format!("{dir}/redscript.ts")];
        if mode.custom() {
            own.push(dir.to_string());
        }
        let paths: BTreeSet<&String> = was.keys().chain(is.keys()).collect();
        for p in paths {
            if was.get(p) == is.get(p) || own.contains(p) || p.starts_with("/simfs/r6/logs/") {
                continue;
            }
            // a temporary file next to one of them
            let temp = own.iter().any(|o| p.starts_with(o.as_str()) && p.rsplit('/').next() != o.rsplit('/').next()) && !was.contains_key(p);
            if temps.contains(p) {
                continue;
            }
            if temp {
                temps.insert(p.clone());
                g.chk(ctx, !d.info.fired.is_empty(), "left-over", || format!("{p} is left behind by an undisturbed run"))?;
                continue;
            }
            g.chk(ctx, false, "file-touched", || {
                format!("a run ({mode:?}) changed {p}: {:?} -> {:?} bytes", was.get(p).map(|d| d.as_ref().map(|d| d.len())), is.get(p).map(|d| d.as_ref().map(|d| d.len())))
            })?;
        }
        ctx.count("scope.compared");
        for _ in 0..ctx.ch.draw(3) {
            happen(ctx, &mut g, mode);
        }
    }
    Ok(())
}

/// The same installation, wherever and whenever: the same bytes.
pub fn determined(ctx: &mut Ctx, modes: &[Mode]) -> V {
    let mut g = install(ctx, P::Determined);
    if ctx.ch.chance(3, 4) {
        remove_broken(&mut g);
    }
    for _ in 0..ctx.ch.draw(4) {
        add_script(ctx, &mut g);
    }
    let mut replaced = vec![];
    for _ in 0..ctx.ch.draw(4) {
        add_mod(ctx, &mut g, &mut replaced);
    }
    let mut mode = *ctx.ch.pick(modes);
    ctx.nontrivial = g.scripts.len() > 1;
    for _ in 0..1 + ctx.ch.draw(3) {
        let fresh = {
            // the same files created in another order, at another time
            let mut o = Game { fs: Fs::new(), ..g.clone() };
            o.fs.clock = g.fs.clock + ctx.ch.draw(1 << 40) * 1000;
            let mut all: Vec<(String, Option<Arc<Vec<u8>>>)> = g.fs.files().into_iter().collect();
            for k in (1..all.len()).rev() {
                let j = k - ctx.ch.draw(k as u64 + 1) as usize;
                all.swap(k, j);
            }
            lay(&mut o);
            for (p, d) in all {
                match d {
                    _ if p == LINK || p == PATHS => {}
                    Some(d) if g.scripts.keys().any(|s| *s == p) || p.starts_with(SCRIPTS) || p.starts_with(STORE) => o.fs.put(&p, &d),
                    None => o.fs.mkdirs(&p),
                    _ => {}
                }
            }
            o.fs.put(CACHE, BASES[g.version]);
            o.fs.settle();
            o
        };
        let mut a = g.clone();
        let da = run_scc(ctx, &mut a, &[mode], NONE, false)?;
        let mut b = if ctx.ch.coin() { fresh } else { g.clone() };
        let again = *ctx.ch.pick(modes);
        let db = run_scc(ctx, &mut b, &[again], NONE, true)?;
        let ok = |d: &Done| matches!(d.outs[0], Outcome::Done(true));
        ctx.check(ok(&da) == ok(&db), "order-dependent", || {
            format!("one of two runs on the same files succeeds, the other does not: {:?} {:?}", da.info.logs[0], db.info.logs[0])
        })?;
        if ok(&da) {
            let (x, y) = (a.fs.read(mode.output()), b.fs.read(again.output()));
            ctx.check(x == y, "order-dependent", || {
                format!("two runs on the same files give different outputs ({:?} and {:?} bytes)", x.as_ref().map(|d| d.len()), y.as_ref().map(|d| d.len()))
            })?;
            ctx.count("outputs.compared");
            ctx.step(b.fs.hash(), 0);
        } else {
            let report = |d: &Done| {
                let mut l: Vec<String> = d.info.logs[0].iter().filter(|l| l.contains("has failed") || l.starts_with("[ERROR]")).cloned().collect();
                for x in &mut l {
                    let mut m: Vec<&str> = x.lines().collect();
                    m.sort_unstable();
                    *x = m.join("\n");
                }
                l
            };
            ctx.check(report(&da) == report(&db), "order-dependent", || {
                format!("two runs on the same files report different errors: {:?} and {:?}", report(&da), report(&db))
            })?;
            ctx.count("reports.compared");
            ctx.step(b.fs.hash(), 0);
        }
        g = a;
        let m = mode;
        mode = *ctx.ch.pick(modes);
        for _ in 0..ctx.ch.draw(2) {
            happen(ctx, &mut g, m);
        }
        unlock(&mut g);
    }
    Ok(())
}

/// After a power cut in the middle of a run the invariants hold for what came back.
fn after_power(ctx: &mut Ctx, g: &mut Game, mode: Mode, d: &Done) -> V {
    if mode.custom() {
        return g.chk(ctx, d.before.fs.read(CACHE) == g.fs.read(CACHE), "pristine-lost", || "after the power cut the game's own cache is another one".into());
    }
    let ok = [CACHE.to_string(), mode.backup()]
        .iter()
        .any(|p| g.fs.read(p).is_some_and(|d| version_of(&d).is_some_and(|v| g.acc.contains(&v))));
    g.chk(ctx, ok, "pristine-lost", || "after the power cut neither the cache nor its backup is pristine".into())
}
