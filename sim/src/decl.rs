//! Declarations of the mods: files of classes, structs, enums, fields and functions in every form the language has, and
//! what the game has to find of them in the output.
use crate::game::Item;
use redscript::bundle::{ConstantPool, PoolIndex, ScriptBundle};
use redscript::definition::{AnyDefinition, Definition, Function, Property, Type, Visibility};
use simkit::Ctx;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub enum Cond {
    Lit(bool),
    Exists(String),
    Not(Box<Cond>),
    And(Box<Cond>, Box<Cond>),
    Or(Box<Cond>, Box<Cond>),
    If(Box<Cond>, Box<Cond>, Box<Cond>),
}
impl Cond {
    fn text(&self) -> String {
        match self {
            Cond::Lit(b) => b.to_string(),
            Cond::Exists(m) => format!("ModuleExists(\"{m}\")"),
            Cond::Not(a) => format!("!{}", a.inner()),
            Cond::And(a, b) => format!("{}~&&~{}", a.inner(), b.inner()),
            Cond::Or(a, b) => format!("{}~||~{}", a.inner(), b.inner()),
            Cond::If(a, b, c) => format!("{}~?~{}~:~{}", a.inner(), b.inner(), c.inner()),
        }
    }
    fn inner(&self) -> String {
        match self {
            Cond::Lit(_) | Cond::Exists(_) | Cond::Not(_) => self.text(),
            _ => format!("({})", self.text()),
        }
    }
    fn holds(&self, modules: &BTreeSet<String>) -> bool {
        match self {
            Cond::Lit(b) => *b,
            Cond::Exists(m) => modules.contains(m),
            Cond::Not(a) => !a.holds(modules),
            Cond::And(a, b) => a.holds(modules) && b.holds(modules),
            Cond::Or(a, b) => a.holds(modules) || b.holds(modules),
            Cond::If(a, b, c) => if a.holds(modules) { b.holds(modules) } else { c.holds(modules) },
        }
    }
}
fn all_hold(c: &[Cond], m: &BTreeSet<String>) -> bool {
    c.iter().all(|c| c.holds(m))
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Prim(&'static str),
    /// full name, name in the file
    Own(String, String),
    Arr(Box<Ty>),
    Ref(Box<Ty>),
    WRef(Box<Ty>),
    SRef(Box<Ty>),
}
impl Ty {
    fn text(&self) -> String {
        match self {
            Ty::Prim(n) => n.to_string(),
            Ty::Own(_, n) => n.clone(),
            Ty::Arr(t) => format!("array<~{}~>", t.text()),
            Ty::Ref(t) => format!("ref<~{}~>", t.text()),
            Ty::WRef(t) => format!("wref<~{}~>", t.text()),
            Ty::SRef(t) => format!("script_ref<~{}~>", t.text()),
        }
    }
    /// what the names of functions say of it
    fn mangled(&self) -> String {
        match self {
            Ty::Prim(n) => n.to_string(),
            Ty::Own(_, n) => n.clone(),
            Ty::Arr(t) => format!("array<{}>", t.mangled()),
            Ty::Ref(t) | Ty::WRef(t) => t.mangled(),
            Ty::SRef(t) => format!("script_ref<{}>", t.mangled()),
        }
    }
    fn name(&self) -> String {
        match self {
            Ty::Prim(n) => n.to_string(),
            Ty::Own(n, _) => n.clone(),
            Ty::Arr(t) => format!("array:{}", t.name()),
            Ty::Ref(t) => format!("ref:{}", t.name()),
            Ty::WRef(t) => format!("wref:{}", t.name()),
            Ty::SRef(t) => format!("script_ref:{}", t.name()),
        }
    }
    fn check(&self, pool: &ConstantPool, at: PoolIndex<Type>) -> Result<(), String> {
        let t = pool.type_(at).map_err(|e| format!("type {at}: {e}"))?;
        let n = name(pool, at.cast())?;
        if n != self.name() {
            return Err(format!("has the type {n} instead of {}", self.name()));
        }
        match (self, t) {
            (Ty::Prim("ResRef"), Type::Class) | (Ty::Prim(_), Type::Prim) | (Ty::Own(..), Type::Class) => Ok(()),
            (Ty::Arr(t), Type::Array(i)) | (Ty::Ref(t), Type::Ref(i)) | (Ty::WRef(t), Type::WeakRef(i)) | (Ty::SRef(t), Type::ScriptRef(i)) => t.check(pool, *i),
            _ => Err(format!("has the type {n}, and that is {t:?}")),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Par {
    name: String,
    ty: Ty,
    opt: bool,
    out: bool,
    konst: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Fun {
    /// as the pool has it, without the module
    name: String,
    quals: Vec<&'static str>,
    params: Vec<Par>,
    ret: Option<Ty>,
    body: bool,
    /// the variable of the body
    local: Option<(String, Ty)>,
    cond: Vec<Cond>,
    /// between these lines
    lines: (usize, usize),
}
impl Fun {
    fn is(&self, q: &str) -> bool {
        self.quals.contains(&q)
    }
}

#[derive(Clone, Debug)]
pub enum Default_ {
    Text(String),
    Number(f64),
}

#[derive(Clone, Debug)]
pub struct Fld {
    name: String,
    quals: Vec<&'static str>,
    ty: Ty,
    default: Option<Default_>,
    attrs: Vec<(String, String)>,
    cond: Vec<Cond>,
}

#[derive(Clone, Debug)]
pub enum D {
    Class { name: String, strukt: bool, quals: Vec<&'static str>, base: Option<String>, funs: Vec<Fun>, fields: Vec<Fld>, cond: Vec<Cond> },
    Enum { name: String, members: Vec<(String, i64)>, cond: Vec<Cond> },
    Fun { full: String, f: Fun },
    AddMethod { class: &'static str, f: Fun },
    AddField { class: String, f: Fld },
    Nothing,
}

#[derive(Clone, Debug)]
pub struct Decls {
    pub text: String,
    pub module: String,
    items: Vec<D>,
    /// what other mods may use: (name in the module, is a class, condition of its being there)
    pub public: Vec<(String, bool)>,
}

// ---------------------------------------------------------------- making them

/// `~`: blanks or not; `#`: at least one; `\u{1}`…: marks.
const MARK: char = '\u{1}';

fn layout(ctx: &mut Ctx, s: &str) -> (String, Vec<usize>) {
    let mut out = String::new();
    let (mut marks, mut line) = (vec![], 0);
    let wild = ctx.ch.draw(3);
    for c in s.chars() {
        let add: &str = match c {
            MARK => {
                marks.push(line);
                ""
            }
            '~' | '#' => {
                let least = if c == '~' { "" } else { " " };
                if wild == 0 || !ctx.ch.chance(1, 4) {
                    least
                } else {
                    *ctx.ch.pick(&[" ", "\n", "\t", "  ", "\r\n", "/* a comment */", " // to the end\n", "/* x /* nested */ \"*/", "\n\n", " /* ünï→ {( */ ", " //\n"])
                }
            }
            '¬' => "~",
            '§' => "#",
            c => {
                if c == '\n' {
                    line += 1;
                }
                out.push(c);
                continue;
            }
        };
        line += add.matches('\n').count();
        out.push_str(add);
    }
    (out, marks)
}

/// A literal and what it says.
fn literal(ctx: &mut Ctx) -> (String, String) {
    let (mut t, mut v) = (String::new(), String::new());
    for _ in 0..ctx.ch.draw(6) {
        let (a, b) = *ctx.ch.pick(&[
            ("abc", "abc"), (" ", " "), ("ünï→", "ünï→"), ("\\n", "\n"), ("\\t", "\t"), ("\\\"", "\""), ("\\\\", "\\"), ("\\'", "'"), ("\\u{41}", "A"), ("\\u{1f600}", "😀"),
            ("{x}", "{x}"), ("// no comment", "// no comment"), ("/*", "/*"), ("0", "0"), ("\\r", "\r"), ("'", "'"), (";", ";"), ("¬", "~"), ("§", "#"),
        ]);
        t += a;
        v += b;
    }
    (t, v)
}

const PRIMS: &[&str] = &["Int32", "Float", "Bool", "String", "CName", "TweakDBID", "Int64", "Uint64", "Uint32", "Double", "Int8", "Uint8", "Int16", "Uint16", "Variant", "ResRef"];

struct Known {
    full: String,
    short: String,
    module: String,
    kind: u8, // 0 class, 1 struct, 2 enum
    public: bool,
    fin: bool,
    file: usize,
    members: Vec<(String, i64)>,
    cond: Vec<Cond>,
}

struct Gen<'a> {
    /// names that can be used in the file
    seen: BTreeMap<String, &'a Known>,
    marks: usize,
    modules: &'a [String],
    n: usize,
    t: &'a str,
    file: usize,
    used: BTreeSet<String>,
}

impl Gen<'_> {
    fn id(&mut self) -> String {
        self.n += 1;
        format!("Dcl{}n{}", self.t, self.n)
    }

    fn cond(&self, ctx: &mut Ctx, depth: u64) -> Cond {
        match ctx.ch.draw(if depth == 0 { 3 } else { 7 }) {
            0 => Cond::Lit(ctx.ch.coin()),
            1 | 2 => {
                let m = ctx.ch.pick(self.modules).clone();
                Cond::Exists(match ctx.ch.draw(4) {
                    0 => format!("{m}.No"),
                    1 => format!("{m}x"),
                    _ => m,
                })
            }
            3 => Cond::Not(Box::new(self.cond(ctx, depth - 1))),
            4 => Cond::And(Box::new(self.cond(ctx, depth - 1)), Box::new(self.cond(ctx, depth - 1))),
            5 => Cond::Or(Box::new(self.cond(ctx, depth - 1)), Box::new(self.cond(ctx, depth - 1))),
            _ => Cond::If(Box::new(self.cond(ctx, depth - 1)), Box::new(self.cond(ctx, depth - 1)), Box::new(self.cond(ctx, depth - 1))),
        }
    }

    fn conds(&self, ctx: &mut Ctx) -> Vec<Cond> {
        if self.modules.is_empty() || !ctx.ch.chance(1, 6) {
            return vec![];
        }
        (0..1 + ctx.ch.draw(2)).map(|_| self.cond(ctx, 2)).collect()
    }

    fn pick(&self, ctx: &mut Ctx, ok: impl Fn(&Known) -> bool) -> Option<(String, &Known)> {
        let l: Vec<_> = self.seen.iter().filter(|(_, k)| ok(k)).collect();
        if l.is_empty() {
            return None;
        }
        let (s, k) = *ctx.ch.pick(&l);
        Some((s.clone(), *k))
    }

    fn ty(&self, ctx: &mut Ctx, depth: u64) -> Ty {
        match ctx.ch.draw(if depth == 0 { 6 } else { 8 }) {
            0..=2 => Ty::Prim(ctx.ch.pick::<&str>(PRIMS)),
            3 => match self.pick(ctx, |k| k.kind != 0) {
                Some((s, k)) => Ty::Own(k.full.clone(), s),
                None => Ty::Prim("Int32"),
            },
            4 | 5 => {
                let t = match self.pick(ctx, |k| k.kind == 0) {
                    Some((s, k)) => Ty::Own(k.full.clone(), s),
                    None => Ty::Own("Player".into(), "Player".into()),
                };
                if ctx.ch.coin() { Ty::Ref(Box::new(t)) } else { Ty::WRef(Box::new(t)) }
            }
            _ => Ty::Arr(Box::new(self.ty(ctx, depth - 1))),
        }
    }

    /// `place`: 0 global, 1 class, 2 struct, 3 added
    fn fun(&mut self, ctx: &mut Ctx, place: u8, native: bool, abs: bool, names: &[String], out: &mut String) -> Fun {
        let mut f = Fun { body: true, cond: self.conds(ctx), ..Fun::default() };
        let vis = ctx.ch.weighted(&[3, 3, 1, 1]);
        f.quals.extend(["", "public", "private", "protected"].get(vis).filter(|q| !q.is_empty()));
        let plain = ctx.ch.chance(2, 3);
        match place {
            0 => {
                if ctx.ch.chance(1, 4) {
                    f.quals.push("static");
                }
                if !plain {
                    f.quals.push(ctx.ch.pick::<&str>(&["exec", "native", "const", "quest", "final"]));
                }
            }
            2 => f.quals.push("static"),
            _ => {
                if !plain {
                    f.quals.push(ctx.ch.pick::<&str>(&["cb", "static", "final", "const", "quest", "exec", if native { "native" } else { "final" }]));
                }
                if ctx.ch.chance(1, 6) && !f.is("final") {
                    f.quals.push("final");
                }
            }
        }
        if f.is("native") || abs && ctx.ch.coin() && !f.is("static") {
            f.body = false;
        }
        // (the order of the words does not matter)
        for k in (1..f.quals.len()).rev() {
            f.quals.swap(k, ctx.ch.draw(k as u64 + 1) as usize);
        }
        let short = if !names.is_empty() && ctx.ch.chance(1, 4) { ctx.ch.pick(names).clone() } else { self.id() };
        for k in 0..ctx.ch.weighted(&[3, 3, 2, 1, 1]) {
            let ty = match ctx.ch.draw(8) {
                0 => Ty::SRef(Box::new(self.ty(ctx, 0))),
                _ => self.ty(ctx, 1),
            };
            let opt = ctx.ch.chance(1, 8);
            let out = ctx.ch.chance(1, 8);
            f.params.push(Par { name: format!("a{k}{}", ctx.ch.pick(&["", "_x", "Func", "let"])), ty, opt, out, konst: ctx.ch.chance(1, 8) });
        }
        let void = ctx.ch.chance(1, 3);
        let said = ctx.ch.coin();
        if !void {
            f.ret = Some(self.ty(ctx, 1));
        }
        f.name = if f.is("native") || f.is("cb") || f.is("exec") {
            short.clone()
        } else {
            format!("{short};{}", f.params.iter().map(|p| p.ty.mangled()).collect::<String>())
        };
        self.write(ctx, &mut f, &short, "", said, out);
        f
    }

    fn write(&mut self, ctx: &mut Ctx, f: &mut Fun, short: &str, head: &str, say_void: bool, out: &mut String) {
        out.push(MARK);
        f.lines = (self.marks, self.marks + 1);
        self.marks += 2;
        let mut anns: Vec<String> = f.cond.iter().map(|c| format!("@if(~{}~)~\n", c.text())).collect();
        if !head.is_empty() {
            let at = ctx.ch.draw(anns.len() as u64 + 1) as usize;
            anns.insert(at, head.into());
        }
        *out += &anns.concat();
        for q in &f.quals {
            *out += &format!("{q}#");
        }
        *out += &format!("func#{short}~(~");
        for (k, p) in f.params.iter().enumerate() {
            if k > 0 {
                *out += ",~";
            }
            let mut quals: Vec<&str> = [(p.opt, "opt"), (p.out, "out"), (p.konst, "const")].iter().filter(|q| q.0).map(|q| q.1).collect();
            if ctx.ch.coin() {
                quals.reverse();
            }
            for q in quals {
                *out += &format!("{q}#");
            }
            *out += &format!("{}~:~{}", p.name, p.ty.text());
        }
        *out += "~)";
        if let Some(t) = &f.ret {
            *out += &format!("~->~{}", t.text());
        } else if say_void {
            *out += "~->~Void";
        }
        if !f.body {
            *out += "~;";
        } else if let Some(t) = &f.ret {
            if *t == Ty::Prim("Int32") && ctx.ch.coin() {
                *out += &format!("~=~{}~;", ctx.ch.draw(100));
            } else {
                let l = format!("v{}", ctx.ch.draw(9));
                *out += &format!("~{{~\n  let#{l}~:~{}~;~\n  return#{l}~;~\n}}{}", t.text(), ctx.ch.pick(&["", ";"]));
                f.local = Some((l, t.clone()));
            }
        } else {
            *out += ctx.ch.pick::<&str>(&["~{~}", "~{~\n}", "~{~\n};"]);
        }
        out.push(MARK);
        *out += "\n";
    }

    fn field(&mut self, ctx: &mut Ctx, native: bool, head: &str, vis: bool, out: &mut String) -> Fld {
        let mut f = Fld { name: self.id(), quals: vec![], ty: self.ty(ctx, 2), default: None, attrs: vec![], cond: self.conds(ctx) };
        if vis || ctx.ch.coin() {
            f.quals.extend(["", "public", "private", "protected"].get(ctx.ch.draw(4) as usize).filter(|q| !q.is_empty()));
        }
        fn lasting(t: &Ty) -> bool {
            match t {
                Ty::Prim(n) => !["String", "Variant", "ResRef"].contains(n),
                Ty::Own(..) => true,
                Ty::Arr(t) | Ty::Ref(t) | Ty::WRef(t) | Ty::SRef(t) => lasting(t),
            }
        }
        if ctx.ch.chance(1, 4) && lasting(&f.ty) {
            f.quals.push("persistent");
        }
        if native && ctx.ch.chance(1, 4) {
            f.quals.push("native");
        }
        let mut def = None;
        if ctx.ch.coin() {
            let (k, s) = (ctx.ch.draw(100_000) as i64, literal(ctx));
            let scaled = k as f64 / 8.0;
            def = match &f.ty {
                Ty::Prim("Int32") => Some((format!("{k}"), Default_::Text(k.to_string()))),
                Ty::Prim("Int64") => Some((format!("{}l", k << 30), Default_::Text((k << 30).to_string()))),
                Ty::Prim("Uint32") => Some((format!("{}u", k.abs()), Default_::Text(k.abs().to_string()))),
                Ty::Prim("Uint64") => Some((format!("{}ul", k.abs() << 40), Default_::Text((k.abs() << 40).to_string()))),
                Ty::Prim("Float") => Some((format!("{scaled:.3}"), Default_::Number(scaled))),
                Ty::Prim("Double") => Some((format!("{scaled:.3}d"), Default_::Number(scaled))),
                Ty::Prim("Bool") => Some(((k % 2 == 0).to_string(), Default_::Text((k % 2 == 0).to_string()))),
                Ty::Prim("String") => Some((format!("\"{}\"", s.0), Default_::Text(s.1))),
                Ty::Prim("CName") => Some((format!("n\"{}\"", s.0), Default_::Text(s.1))),
                Ty::Prim("TweakDBID") => Some((format!("t\"{}\"", s.0), Default_::Text(s.1))),
                Ty::Prim("ResRef") => Some((format!("r\"{}\"", s.0), Default_::Text(s.1))),
                Ty::Ref(_) | Ty::WRef(_) => Some(("null".into(), Default_::Text("null".into()))),
                Ty::Own(_, short) => match self.seen.get(short) {
                    Some(k) if k.kind == 2 && k.module.is_empty() && !k.members.is_empty() => {
                        let m = &ctx.ch.pick(&k.members).0;
                        Some((format!("{short}.{m}"), Default_::Text(format!("{short}.{m}"))))
                    }
                    _ => None,
                },
                _ => None,
            };
        }
        let mut anns: Vec<String> = f.cond.iter().map(|c| format!("@if(~{}~)~\n", c.text())).collect();
        if !head.is_empty() {
            anns.push(head.into());
        }
        for _ in 0..ctx.ch.weighted(&[6, 2, 1]) {
            let (a, b) = (literal(ctx), literal(ctx));
            let at = ctx.ch.draw(anns.len() as u64 + 1) as usize;
            // (their order is that of the text)
            anns.insert(at, format!("@runtimeProperty(~\"{}\",~\"{}\"~)~\n", a.0, b.0));
            f.attrs.push((a.1, b.1));
            if f.attrs.len() == 2 {
                let first = anns.iter().position(|x| x.starts_with("@runtime")).unwrap();
                if first == at {
                    f.attrs.swap(0, 1);
                }
            }
        }
        *out += &anns.concat();
        for q in &f.quals {
            *out += &format!("{q}#");
        }
        *out += &format!("let#{}~:~{}", f.name, f.ty.text());
        if let Some((t, d)) = def {
            *out += &format!("~=~{t}");
            f.default = Some(d);
        }
        *out += "~;~\n";
        f
    }
}

fn vis_of(quals: &[&str]) -> Visibility {
    if quals.contains(&"public") {
        Visibility::Public
    } else if quals.contains(&"protected") {
        Visibility::Protected
    } else {
        Visibility::Private
    }
}

/// The files of a mod; `others`: what the mods that are there already let others use.
pub fn gen_mod(ctx: &mut Ctx, t: &str, others: &[Decls]) -> Vec<Vec<Item>> {
    let files = 1 + ctx.ch.weighted(&[3, 3, 2, 1]);
    let names = [String::new(), format!("DclM{t}"), format!("DclM{t}.Sub"), format!("DclN{t}.A.B")];
    let modules: Vec<String> = (0..files).map(|_| ctx.ch.pick(&names).clone()).collect();
    // first only what there is
    let mut known: Vec<Known> = vec![];
    for (file, module) in modules.iter().enumerate() {
        for n in 0..1 + ctx.ch.draw(5) {
            let kind = [0, 0, 0, 1, 2][ctx.ch.draw(5) as usize];
            // names that other modules have too
            let mut short = if ctx.ch.chance(1, 6) { format!("DclT{t}x{n}") } else { format!("DclT{t}f{file}x{n}") };
            if ctx.ch.chance(1, 8) {
                short = format!("{short}_{}", ctx.ch.pick(&["struct", "class2", "_", "Array"]));
            }
            let full = if module.is_empty() { short.clone() } else { format!("{module}.{short}") };
            if known.iter().any(|k| k.full == full) {
                continue;
            }
            let members = match kind {
                2 => (0..ctx.ch.draw(5)).map(|m| {
                    let v = match ctx.ch.draw(6) {
                        0 => -1 - ctx.ch.draw(100) as i64,
                        1 => 1 << (31 + ctx.ch.draw(31)),
                        2 => i64::MIN + ctx.ch.draw(3) as i64,
                        3 => i64::MAX - ctx.ch.draw(3) as i64,
                        _ => m as i64,
                    };
                    (format!("DclE{m}"), v)
                }).collect(),
                _ => vec![],
            };
            known.push(Known { full, short, module: module.clone(), kind, public: kind == 2 || ctx.ch.chance(2, 3), fin: kind == 0 && ctx.ch.chance(1, 6), file, members, cond: vec![] });
        }
    }
    let mut all: Vec<String> = modules.iter().filter(|m| !m.is_empty()).cloned().collect();
    all.extend(others.iter().map(|o| o.module.clone()).filter(|m| !m.is_empty()));
    all.push(format!("DclNone{t}"));
    // what other mods have, each on condition that they are there
    let foreign: Vec<(Known, bool)> = others
        .iter()
        .filter(|o| !o.module.is_empty())
        .flat_map(|o| {
            o.public.iter().map(|(s, class)| {
                let k = Known {
                    full: format!("{}.{s}", o.module),
                    short: s.clone(),
                    module: o.module.clone(),
                    kind: if *class { 0 } else { 2 },
                    public: true,
                    fin: false,
                    file: usize::MAX,
                    members: vec![],
                    cond: vec![Cond::Exists(o.module.clone())],
                };
                (k, *class)
            })
        })
        .collect();
    // whose base comes later is decided by this order, not by the order in the files
    let mut rank: Vec<usize> = (0..known.len()).collect();
    for k in (1..rank.len()).rev() {
        rank.swap(k, ctx.ch.draw(k as u64 + 1) as usize);
    }
    let mut out = vec![];
    let mut n = 0;
    for (file, module) in modules.iter().enumerate() {
        let mut text = String::new();
        let mut seen: BTreeMap<String, &Known> = known.iter().filter(|k| k.module.is_empty()).map(|k| (k.short.clone(), k)).collect();
        seen.extend(known.iter().filter(|k| !module.is_empty() && k.module == *module).map(|k| (k.short.clone(), k)));
        let mut g = Gen { seen, marks: 0, modules: &all, n, t, file, used: BTreeSet::new() };
        if !module.is_empty() {
            text += &format!("module#{}#\n", module.replace('.', ".~"));
        }
        // from other modules of the mod
        for m in names[1..].iter().filter(|m| *m != module) {
            let there: Vec<&Known> = known.iter().filter(|k| k.module == *m && k.public && !g.seen.contains_key(&k.short)).collect();
            if there.is_empty() || !ctx.ch.chance(2, 3) {
                continue;
            }
            let dotted = m.replace('.', ".~");
            let clash = known.iter().any(|k| k.module == *m && k.public && g.seen.contains_key(&k.short));
            match ctx.ch.draw(3) {
                0 if !clash => {
                    text += &format!("import#{dotted}~.~*~\n");
                    g.seen.extend(there.iter().map(|k| (k.short.clone(), *k)));
                }
                1 => {
                    let some: Vec<&Known> = there.iter().copied().filter(|_| ctx.ch.chance(2, 3)).collect();
                    let l: Vec<&str> = some.iter().map(|k| k.short.as_str()).collect();
                    text += &format!("import#{dotted}~.~{{~{}~}}~\n", l.join(",~"));
                    g.seen.extend(some.iter().map(|k| (k.short.clone(), *k)));
                }
                _ => {
                    let k = *ctx.ch.pick(&there);
                    text += &format!("import#{dotted}.~{}#\n", k.short);
                    g.seen.insert(k.short.clone(), k);
                }
            }
        }
        let borrowed = if ctx.ch.coin() && !foreign.is_empty() { Some(&ctx.ch.pick(&foreign).0) } else { None };
        if let Some(k) = borrowed {
            text += &format!("@if({})~\nimport#{}.~{}#\n", k.cond[0].text(), k.module.replace('.', ".~"), k.short);
        }
        let mut order: Vec<usize> = (0..known.len()).filter(|k| known[*k].file == file).collect();
        for k in (1..order.len()).rev() {
            order.swap(k, ctx.ch.draw(k as u64 + 1) as usize);
        }
        let mut items = vec![];
        let mut others = ctx.ch.draw(5);
        loop {
            // types and other things in any order
            if order.is_empty() && others == 0 {
                break;
            }
            if order.is_empty() || others > 0 && ctx.ch.coin() {
                others -= 1;
                items.push(other(ctx, &mut g, module, borrowed, &mut text));
                continue;
            }
            let at = order.pop().unwrap();
            let k = &known[at];
            if k.kind == 2 {
                let mut m = String::new();
                for (j, (a, b)) in k.members.iter().enumerate() {
                    if j > 0 {
                        m += ",~";
                    }
                    m += &format!("{a}~=~{b}{}", if i32::try_from(*b).is_err() { "l" } else { ctx.ch.pick(&["", "l"]) });
                }
                if !k.members.is_empty() {
                    m += ctx.ch.pick::<&str>(&["~", "~,~"]);
                }
                text += &format!("{}enum#{}~{{~{m}}}~\n", ctx.ch.pick(&["", "public#", "private#"]), k.short);
                items.push(D::Enum { name: k.full.clone(), members: k.members.clone(), cond: vec![] });
                continue;
            }
            let mut quals: Vec<&'static str> = vec![];
            if k.public {
                quals.push("public");
            } else {
                quals.extend(["", "private", "protected"].get(ctx.ch.draw(3) as usize).filter(|q| !q.is_empty()));
            }
            if k.fin {
                quals.push("final");
            }
            let native = ctx.ch.chance(1, 6);
            if native {
                quals.push(if ctx.ch.chance(1, 3) { "importonly" } else { "native" });
            }
            let abs = k.kind == 0 && !k.fin && ctx.ch.chance(1, 5);
            if abs {
                quals.push("abstract");
            }
            for j in (1..quals.len()).rev() {
                quals.swap(j, ctx.ch.draw(j as u64 + 1) as usize);
            }
            text += &quals.iter().map(|q| format!("{q}#")).collect::<String>();
            text += &format!("{}#{}", if k.kind == 1 { "struct" } else { "class" }, k.short);
            let mut base = None;
            if k.kind == 0 {
                let bases: Vec<(&String, &&Known)> =
                    g.seen.iter().filter(|(_, b)| b.kind == 0 && !b.fin && b.file != usize::MAX && rank[known.iter().position(|x| x.full == b.full).unwrap()] < rank[at]).collect();
                if !bases.is_empty() && ctx.ch.chance(3, 4) {
                    let (s, b) = *ctx.ch.pick(&bases);
                    text += &format!("#extends#{s}");
                    base = Some(b.full.clone());
                } else if ctx.ch.chance(1, 4) {
                    let s = *ctx.ch.pick(&["Player", "Enemy", "IScriptable"]);
                    text += &format!("#extends#{s}");
                    base = Some(s.into());
                } else {
                    base = Some("IScriptable".into());
                }
            }
            text += "~{~\n";
            let (mut funs, mut fields, mut methods) = (vec![], vec![], vec![]);
            for _ in 0..ctx.ch.weighted(&[1, 2, 2, 1, 1, 1]) {
                if ctx.ch.coin() {
                    let f = g.fun(ctx, if k.kind == 1 { 2 } else { 1 }, native, abs, &methods, &mut text);
                    let short = f.name.split(';').next().unwrap().to_string();
                    // two of one name differ in their parameters
                    if funs.iter().any(|o: &Fun| o.name == f.name) {
                        text.truncate(text.rfind(MARK).and_then(|e| text[..e].rfind(MARK)).unwrap());
                        g.marks -= 2;
                        continue;
                    }
                    methods.push(short);
                    funs.push(f);
                } else {
                    fields.push(g.field(ctx, native, "", false, &mut text));
                }
            }
            text += "}~\n";
            items.push(D::Class { name: k.full.clone(), strukt: k.kind == 1, quals, base, funs, fields, cond: vec![] });
        }
        n = g.n + 1;
        let (text, marks) = layout(ctx, &text);
        for i in &mut items {
            let l: Vec<&mut Fun> = match i {
                D::Class { funs, .. } => funs.iter_mut().collect(),
                D::Fun { f, .. } | D::AddMethod { f, .. } => vec![f],
                _ => vec![],
            };
            for f in l {
                f.lines = (marks[f.lines.0], marks[f.lines.1]);
            }
        }
        let public = known.iter().filter(|k| k.file == file && k.public && !k.fin && k.kind != 1).map(|k| (k.short.clone(), k.kind == 0)).collect();
        out.push(vec![Item::Decl(Box::new(Decls { text, module: module.clone(), items, public }))]);
    }
    out
}

/// A function, a conditional class, or something that is added to a class of the game.
fn other(ctx: &mut Ctx, g: &mut Gen, module: &str, borrowed: Option<&Known>, text: &mut String) -> D {
    let full = |n: &str| if module.is_empty() { n.to_string() } else { format!("{module}.{n}") };
    match ctx.ch.draw(8) {
        0 => {
            let class = *ctx.ch.pick(&["Player", "Enemy"]);
            let mut scratch = String::new();
            let marks = g.marks;
            let mut f = g.fun(ctx, 3, false, false, &[], &mut scratch);
            g.marks = marks;
            let short = f.name.split(';').next().unwrap().to_string();
            f.local = None;
            g.write(ctx, &mut f, &short, &format!("@addMethod(~{class}~)~\n"), false, text);
            D::AddMethod { class, f }
        }
        1 => {
            // (a class of the scripts may be declared later)
            let own: Vec<(String, String)> = g.seen.iter().filter(|(_, b)| b.kind == 0 && b.file != usize::MAX).map(|(s, b)| (s.clone(), b.full.clone())).collect();
            let (short, class) = if !own.is_empty() && ctx.ch.coin() {
                ctx.ch.pick(&own).clone()
            } else {
                let c = ctx.ch.pick(&["Player", "Enemy"]).to_string();
                (c.clone(), c)
            };
            let f = g.field(ctx, false, &format!("@addField(~{short}~)~\n"), true, text);
            D::AddField { class, f }
        }
        2 if borrowed.is_some_and(|k| k.kind == 0) => {
            let k = borrowed.unwrap();
            let short = g.id();
            let cond = k.cond[0].clone();
            *text += &format!("@if({})~\nclass#{short}#extends#{}~{{~\n", cond.text(), k.short);
            let ty = Ty::Arr(Box::new(Ty::Ref(Box::new(Ty::Own(k.full.clone(), k.short.clone())))));
            let name = g.id();
            *text += &format!("let#{name}~:~{}~;~\n}}\n", ty.text());
            let f = Fld { name, quals: vec![], ty, default: None, attrs: vec![], cond: vec![] };
            D::Class { name: full(&short), strukt: false, quals: vec![], base: Some(k.full.clone()), funs: vec![], fields: vec![f], cond: vec![cond] }
        }
        3 => {
            // there or not
            let short = g.id();
            let cond = g.conds(ctx);
            *text += &cond.iter().map(|c| format!("@if(~{}~)~\n", c.text())).collect::<String>();
            if ctx.ch.coin() {
                *text += &format!("enum#{short}~{{~DclE0~=~1~}}~\n");
                return D::Enum { name: full(&short), members: vec![("DclE0".into(), 1)], cond };
            }
            let strukt = ctx.ch.coin();
            *text += &format!("{}#{short}~{{~\n", if strukt { "struct" } else { "class" });
            let f = g.field(ctx, false, "", false, text);
            *text += "}~\n";
            D::Class { name: full(&short), strukt, quals: vec![], base: (!strukt).then(|| "IScriptable".into()), funs: vec![], fields: vec![f], cond }
        }
        4 if module.is_empty() => {
            // an operator or a cast for a type of the mod
            let own: Vec<Ty> = g.seen.iter().filter(|(_, k)| k.kind == 1 && k.file == g.file).map(|(s, k)| Ty::Own(k.full.clone(), s.clone())).collect();
            if own.is_empty() || g.used.len() > 3 || ctx.ch.chance(1, 3) {
                let name = g.id();
                let (a, short) = (Ty::Prim("Int32"), name.clone());
                let mut f = Fun { name: format!("{name};Int32"), body: true, params: vec![Par { name: "a".into(), ty: a.clone(), opt: false, out: false, konst: false }], ret: Some(a), ..Fun::default() };
                g.write(ctx, &mut f, &short, "", false, text);
                return D::Fun { full: f.name.clone(), f };
            }
            let t = ctx.ch.pick(&own).clone();
            // (one of each kind: overloads of other mods take other types)
            g.n += 1;
            let mine = Ty::Arr(Box::new(t));
            let par = |name: &str, ty: &Ty, out: bool| Par { name: name.into(), ty: ty.clone(), opt: false, out, konst: false };
            let (short, params, ret, out) = match ctx.ch.draw(3) {
                0 => ("OperatorAdd", vec![par("a", &mine, false), par("b", &Ty::Prim("Int32"), false)], mine.clone(), false),
                1 => ("OperatorAssignAdd", vec![par("a", &mine, true), par("b", &Ty::Prim("Bool"), false)], mine.clone(), true),
                _ => ("Cast", vec![par("a", &mine, false)], Ty::Prim("Float"), false),
            };
            // a difference in the first parameter is enough, and the type is of this file's mod only
            let name = format!("{short};{}{};{}", if out { "Out" } else { "" }, params.iter().map(|p| p.ty.mangled()).collect::<String>(), ret.mangled());
            let mut f = Fun { name, body: true, params, ret: Some(ret), ..Fun::default() };
            if !g.used.insert(f.name.clone()) {
                return D::Nothing;
            }
            g.write(ctx, &mut f, short, "", false, text);
            D::Fun { full: f.name.clone(), f }
        }
        _ => {
            let f = g.fun(ctx, 0, false, false, &[], text);
            D::Fun { full: full(&f.name), f }
        }
    }
}

// ---------------------------------------------------------------- finding them

type R<T> = Result<T, String>;

fn name(pool: &ConstantPool, i: PoolIndex<Definition>) -> R<String> {
    pool.def_name(i).map(|n| n.to_string()).map_err(|e| format!("definition {i}: {e}"))
}

fn in_field(pool: &ConstantPool, class: &str, class_idx: PoolIndex<Definition>, i: PoolIndex<redscript::definition::Field>, f: &Fld) -> R<()> {
    let what = format!("field {class}.{}", f.name);
    let d = pool.definition(i.cast::<Definition>()).map_err(|e| format!("{what}: {e}"))?;
    let x = pool.field(i).map_err(|e| format!("{what}: {e}"))?;
    if name(pool, i.cast())? != f.name || d.parent != class_idx {
        return Err(format!("{what} is {} of {}", name(pool, i.cast())?, d.parent));
    }
    f.ty.check(pool, x.type_).map_err(|e| format!("{what} {e}"))?;
    let want = (f.quals.contains(&"native"), f.quals.contains(&"persistent"));
    if (x.flags.is_native(), x.flags.is_persistent()) != want {
        return Err(format!("{what} is {:?} instead of {:?}", x.flags, f.quals));
    }
    let l = x.flags;
    if !l.is_browsable() || l.is_editable() || l.is_inline() || l.is_const() || l.is_replicated() || l.is_instance_editable() || l.is_test_only() {
        return Err(format!("{what} is {l:?}, which no script says"));
    }
    let attrs: Vec<Property> = f.attrs.iter().map(|(a, b)| Property { name: a.clone(), value: b.clone() }).collect();
    if x.attributes != attrs {
        return Err(format!("{what} has the properties {:?} instead of {attrs:?}", x.attributes));
    }
    let ok = match (&f.default, &x.defaults[..]) {
        (None, []) => true,
        (Some(Default_::Text(t)), [p]) => p.name == class && p.value == *t,
        (Some(Default_::Number(t)), [p]) => p.name == class && p.value.parse::<f64>() == Ok(*t),
        _ => false,
    };
    if !ok {
        return Err(format!("{what} has the defaults {:?} instead of {:?}", x.defaults, f.default));
    }
    Ok(())
}

fn in_function(pool: &ConstantPool, class: Option<PoolIndex<Definition>>, i: PoolIndex<Function>, full: &str, f: &Fun, path: &str) -> R<()> {
    let what = format!("function {full}");
    let d = pool.definition(i.cast::<Definition>()).map_err(|e| format!("{what}: {e}"))?;
    let x = pool.function(i).map_err(|e| format!("{what}: {e}"))?;
    if name(pool, i.cast())? != full {
        return Err(format!("{what} is called {}", name(pool, i.cast())?));
    }
    if d.parent != class.unwrap_or(PoolIndex::UNDEFINED) {
        return Err(format!("{what} belongs to {}", d.parent));
    }
    let stat = f.is("static") || class.is_none();
    let flags = [
        ("static", x.flags.is_static(), stat),
        ("native", x.flags.is_native(), f.is("native")),
        ("exec", x.flags.is_exec(), f.is("exec")),
        ("final", x.flags.is_final(), f.is("final")),
        ("cb", x.flags.is_callback(), f.is("cb")),
        ("const", x.flags.is_const(), f.is("const")),
        ("quest", x.flags.is_quest(), f.is("quest")),
        ("cast", x.flags.is_cast(), full.starts_with("Cast;")),
    ];
    for (q, is, should) in flags {
        if is != should {
            return Err(format!("{what} is {}{q}", if is { "" } else { "not " }));
        }
    }
    match (&f.ret, x.return_type) {
        (None, None) => {}
        (Some(t), Some(i)) => t.check(pool, i).map_err(|e| format!("the result of {what} {e}"))?,
        (a, b) => return Err(format!("{what} returns {b:?} instead of {a:?}")),
    }
    if x.parameters.len() != f.params.len() {
        return Err(format!("{what} has {} parameters instead of {}", x.parameters.len(), f.params.len()));
    }
    for (j, p) in x.parameters.iter().zip(&f.params) {
        let pd = pool.definition(j.cast::<Definition>()).map_err(|e| format!("{what}: {e}"))?;
        let px = pool.parameter(*j).map_err(|e| format!("{what}: {e}"))?;
        if name(pool, j.cast())? != p.name || pd.parent != i.cast() {
            return Err(format!("the parameter {} of {what} is {} of {}", p.name, name(pool, j.cast())?, pd.parent));
        }
        p.ty.check(pool, px.type_).map_err(|e| format!("the parameter {} of {what} {e}", p.name))?;
        if (px.flags.is_optional(), px.flags.is_out(), px.flags.is_const(), px.flags.is_short_circuit()) != (p.opt, p.out, p.konst, false) {
            return Err(format!("the parameter {} of {what} is {:?} instead of {p:?}", p.name, px.flags));
        }
    }
    match (&f.local, &x.locals[..]) {
        (None, []) => {}
        (Some((n, t)), [l]) => {
            let lx = pool.local(*l).map_err(|e| format!("{what}: {e}"))?;
            let ld = pool.definition(l.cast::<Definition>()).map_err(|e| format!("{what}: {e}"))?;
            t.check(pool, lx.type_).map_err(|e| format!("the variable {n} of {what} {e}"))?;
            if ld.parent != i.cast() {
                return Err(format!("the variable {n} of {what} belongs to {}", ld.parent));
            }
        }
        (_, l) => return Err(format!("{what} has {} variables", l.len())),
    }
    if !f.body && !x.code.is_empty() || f.body && x.code.is_empty() && f.ret.is_some() {
        return Err(format!("{what} has {} code", if f.body { "no" } else { "some" }));
    }
    if let Some(b) = x.base_method {
        // what is said to be overridden is the function of that name in a class this one extends
        let bd = pool.definition(b.cast::<Definition>()).map_err(|e| format!("the base of {what}: {e}"))?;
        let bx = pool.function(b).map_err(|e| format!("the base of {what}: {e}"))?;
        let mut c = class.map(|c| pool.class(c.cast())).transpose().map_err(|e| e.to_string())?.map(|c| c.base);
        while c.is_some_and(|c| c != PoolIndex::UNDEFINED && c.cast() != bd.parent) {
            c = Some(pool.class(c.unwrap()).map_err(|e| e.to_string())?.base);
        }
        if x.flags.is_static() || bx.flags.is_static() || name(pool, b.cast())? != full || c.map_or(true, |c| c == PoolIndex::UNDEFINED) {
            return Err(format!("{what} is said to override {} of {}", name(pool, b.cast())?, bd.parent));
        }
    }
    if f.is("native") {
        return Ok(());
    }
    let s = x.source.as_ref().ok_or_else(|| format!("{what} has no source"))?;
    let file = pool.definition(s.file.cast::<Definition>()).map_err(|e| format!("{what}: {e}"))?;
    let file = file.value.as_source_file().ok_or_else(|| format!("{what}: {} is no source file", s.file))?;
    if file.path != std::path::Path::new(path) {
        return Err(format!("{what} is from {:?} instead of {path:?}", file.path));
    }
    // (counted from zero or one)
    if (s.line as usize) < f.lines.0 || s.line as usize > f.lines.1 + 1 {
        return Err(format!("{what} is on line {} instead of {:?}", s.line, f.lines));
    }
    Ok(())
}

pub fn check(out: &[u8], files: &[(String, &Decls)]) -> R<u64> {
    let bundle = ScriptBundle::load(&mut std::io::Cursor::new(out)).map_err(|e| e.to_string())?;
    let pool = &bundle.pool;
    let modules: BTreeSet<String> = files.iter().map(|f| f.1.module.clone()).filter(|m| !m.is_empty()).collect();
    let mut types: BTreeMap<String, Vec<PoolIndex<Definition>>> = BTreeMap::new();
    let mut functions: BTreeMap<String, Vec<PoolIndex<Function>>> = BTreeMap::new();
    for (i, d) in pool.definitions() {
        match &d.value {
            AnyDefinition::Class(c) => {
                types.entry(name(pool, i)?).or_default().push(i);
                // what a class extends is read before it
                if !c.base.is_undefined() && u32::from(c.base) >= u32::from(i) {
                    return Err(format!("class {} is at {i}, before its base at {}", name(pool, i)?, c.base));
                }
                for f in &c.functions {
                    let p = pool.definition(f.cast::<Definition>()).map_err(|e| e.to_string())?.parent;
                    if p != i {
                        return Err(format!("function {} of {} belongs to {p}", name(pool, f.cast())?, name(pool, i)?));
                    }
                }
            }
            AnyDefinition::Enum(_) => types.entry(name(pool, i)?).or_default().push(i),
            AnyDefinition::Function(_) if d.parent.is_undefined() => functions.entry(name(pool, i)?).or_default().push(i.cast()),
            _ => {}
        }
    }
    let one = |n: &str| match types.get(n).map(|v| &v[..]) {
        Some([i]) => Ok(*i),
        v => Err(format!("{n} is there {} times", v.map_or(0, |v| v.len()))),
    };
    let (mut want, mut wantf, mut added, mut seen) = (BTreeSet::new(), BTreeSet::new(), BTreeSet::new(), 0);
    for (path, file) in files {
        for d in &file.items {
            match d {
                D::Nothing => {}
                D::Class { cond, .. } | D::Enum { cond, .. } if !all_hold(cond, &modules) => {}
                D::Class { name: n, strukt, quals, base, funs, fields, .. } => {
                    want.insert(n.clone());
                    let i = one(n)?;
                    let c = pool.class(i.cast()).map_err(|e| format!("class {n}: {e}"))?;
                    let native = quals.contains(&"native") || quals.contains(&"importonly");
                    let flags = [
                        ("native", c.flags.is_native(), native),
                        ("importonly", c.flags.is_import_only(), quals.contains(&"importonly")),
                        ("abstract", c.flags.is_abstract(), quals.contains(&"abstract")),
                        ("final", c.flags.is_final(), quals.contains(&"final")),
                        ("a struct", c.flags.is_struct(), *strukt),
                    ];
                    for (q, is, should) in flags {
                        if is != should {
                            return Err(format!("class {n} is {}{q}", if is { "" } else { "not " }));
                        }
                    }
                    if c.visibility != vis_of(quals) {
                        return Err(format!("class {n} is {} instead of {quals:?}", c.visibility));
                    }
                    let b = if c.base.is_undefined() { None } else { Some(name(pool, c.base.cast())?) };
                    if b != *base {
                        return Err(format!("class {n} extends {b:?} instead of {base:?}"));
                    }
                    let funs: Vec<&Fun> = funs.iter().filter(|f| all_hold(&f.cond, &modules)).collect();
                    let fields: Vec<&Fld> = fields.iter().filter(|f| all_hold(&f.cond, &modules)).collect();
                    let more = files.iter().flat_map(|f| &f.1.items).filter(|d| matches!(d, D::AddField { class, f } if class == n && all_hold(&f.cond, &modules))).count();
                    if c.functions.len() != funs.len() || c.fields.len() != fields.len() + more {
                        return Err(format!("class {n} has {} functions and {} fields instead of {} and {}", c.functions.len(), c.fields.len(), funs.len(), fields.len() + more));
                    }
                    for (j, f) in c.functions.iter().zip(funs) {
                        in_function(pool, Some(i), *j, &f.name, f, path).map_err(|e| format!("class {n}: {e}"))?;
                        seen += 1;
                    }
                    for (j, f) in c.fields.iter().zip(fields) {
                        in_field(pool, n, i, *j, f)?;
                        seen += 1;
                    }
                }
                D::Enum { name: n, members, .. } => {
                    want.insert(n.clone());
                    let i = one(n)?;
                    let e = pool.enum_(i.cast()).map_err(|e| format!("enum {n}: {e}"))?;
                    if (e.flags, e.size, e.unk1) != (0, 4, false) {
                        return Err(format!("enum {n} has the flags {} and takes {} bytes", e.flags, e.size));
                    }
                    let mut have = vec![];
                    for m in &e.members {
                        let v = pool.enum_value(*m).map_err(|e| format!("enum {n}: {e}"))?;
                        if pool.definition(m.cast::<Definition>()).map_err(|e| e.to_string())?.parent != i {
                            return Err(format!("a member of enum {n} belongs to something else"));
                        }
                        have.push((name(pool, m.cast())?, v));
                    }
                    if have != *members {
                        return Err(format!("enum {n} has {have:?} instead of {members:?}"));
                    }
                }
                D::Fun { full, f } => {
                    if !all_hold(&f.cond, &modules) {
                        continue;
                    }
                    wantf.insert(full.clone());
                    let l = functions.get(full).map(|v| &v[..]).unwrap_or_default();
                    let [i] = l else { return Err(format!("function {full} is there {} times", l.len())) };
                    in_function(pool, None, *i, full, f, path)?;
                    let vis = pool.function(*i).map_err(|e| e.to_string())?.visibility;
                    if vis != vis_of(&f.quals) {
                        return Err(format!("function {full} is {vis} instead of {:?}", f.quals));
                    }
                }
                D::AddMethod { class, f } => {
                    if !all_hold(&f.cond, &modules) {
                        continue;
                    }
                    added.insert(format!("{class}.{}", f.name));
                    let i = one(class)?;
                    let c = pool.class(i.cast()).map_err(|e| e.to_string())?;
                    let l: Vec<_> = c.functions.iter().filter(|j| name(pool, j.cast()).is_ok_and(|n| n == f.name)).collect();
                    let [j] = l[..] else { return Err(format!("method {class}.{} is there {} times", f.name, l.len())) };
                    in_function(pool, Some(i), *j, &f.name, f, path)?;
                    let vis = pool.function(*j).map_err(|e| e.to_string())?.visibility;
                    if vis != vis_of(&f.quals) {
                        return Err(format!("method {class}.{} is {vis} instead of {:?}", f.name, f.quals));
                    }
                }
                D::AddField { class, f } => {
                    if !all_hold(&f.cond, &modules) {
                        continue;
                    }
                    added.insert(format!("{class}.{}", f.name));
                    let i = one(class)?;
                    let c = pool.class(i.cast()).map_err(|e| e.to_string())?;
                    let l: Vec<_> = c.fields.iter().filter(|j| name(pool, j.cast()).is_ok_and(|n| n == f.name)).collect();
                    let [j] = l[..] else { return Err(format!("field {class}.{} is there {} times", f.name, l.len())) };
                    in_field(pool, class, i, *j, f)?;
                    let vis = pool.field(*j).map_err(|e| e.to_string())?.visibility;
                    if vis != vis_of(&f.quals) {
                        return Err(format!("field {class}.{} is {vis} instead of {:?}", f.name, f.quals));
                    }
                }
            }
            seen += 1;
        }
    }
    // and nothing else of the kind
    if let Some(n) = types.keys().find(|n| n.contains("Dcl") && !want.contains(*n)) {
        return Err(format!("there is a {n} that no script declares"));
    }
    if let Some(n) = functions.keys().find(|n| n.contains("Dcl") && !wantf.contains(*n)) {
        return Err(format!("there is a function {n} that no script declares"));
    }
    for class in ["Player", "Enemy"] {
        let c = pool.class(one(class)?.cast()).map_err(|e| e.to_string())?;
        let members = c.functions.iter().map(|i| i.cast()).chain(c.fields.iter().map(|i| i.cast()));
        for m in members {
            let n = name(pool, m)?;
            if n.starts_with("Dcl") && !added.contains(&format!("{class}.{n}")) {
                return Err(format!("{class} has a {n} that no script adds"));
            }
        }
    }
    Ok(seen)
}
