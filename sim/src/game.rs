//! The game at the other end: it loads the output cache and runs its code on a small virtual machine. What mods do to
//! the game's classes is compared with a reference interpreter of the mods as they were written.
use redscript::bundle::{ConstantPool, PoolIndex, ScriptBundle};
use redscript::bytecode::{Instr, Offset};
use crate::lang;
use redscript::definition::{AnyDefinition, Class, Field, Function, Local, Parameter, Type};
use simkit::Ctx;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write;

// ---------------------------------------------------------------- the language of mods

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Add,
    Sub,
    Mul,
}

#[derive(Clone, Debug)]
pub enum Ex {
    K(i32),
    P(usize),
    L(usize),
    F(String),
    Bin(Op, Box<Ex>, Box<Ex>),
    Wrapped(Vec<Ex>, &'static str),
    This(String, Vec<Ex>),
    Super(String, Vec<Ex>),
    Free(String, Vec<Ex>),
    Static(String, String, Vec<Ex>),
    /// a method of the object in a local variable
    On(usize, String, Vec<Ex>),
    /// a > b ? c : d
    Cond(Box<Ex>, Box<Ex>, Box<Ex>, Box<Ex>),
}

#[derive(Clone, Debug)]
pub enum St {
    Let(usize, Ex),
    LetNew(usize, String),
    Set(usize, Ex),
    SetF(String, Ex),
    Do(Ex),
    /// if a < b
    If(Ex, Ex, Vec<St>, Vec<St>),
    /// while (counter local) < n
    While(usize, i32, Vec<St>),
    Ret(Ex),
}

#[derive(Clone, Debug)]
pub struct Func {
    pub params: usize,
    pub void: bool,
    pub body: Vec<St>,
}

#[derive(Clone, Debug)]
pub enum Item {
    Wrap { class: String, name: String, f: Func, quals: &'static str },
    Replace { class: String, name: String, f: Func, quals: &'static str },
    ReplaceGlobal { name: String, f: Func },
    AddMethod { class: String, name: String, f: Func, quals: &'static str },
    AddField { class: String, name: String },
    Class { name: String, base: Option<String>, fields: Vec<String>, methods: Vec<(String, Func, &'static str)> },
    Free { name: String, f: Func },
    /// a file of its own
    Prog { text: String, prog: lang::Prog },
    /// declarations only
    Decl(Box<crate::decl::Decls>),
}

fn list(v: &[Ex]) -> String {
    v.iter().map(ex).collect::<Vec<_>>().join(", ")
}

// Overloads: "Name#m" is called Name, and the mark stands for one more parameter.
fn plain(name: &str) -> &str {
    name.split('#').next().unwrap_or(name)
}
fn mark(name: &str) -> &str {
    name.split_once('#').map_or("", |x| x.1)
}
fn call(name: &str, v: &[Ex], mark: &str) -> String {
    let more = match mark {
        "s" => Some("\"tag\""),
        "f" => Some("1.5"),
        _ => None,
    };
    let l: Vec<String> = v.iter().map(ex).chain(more.map(String::from)).collect();
    format!("{name}({})", l.join(", "))
}
/// The types of the parameters as names of functions have them.
fn signature(name: &str, params: usize) -> String {
    let more = match mark(name) {
        "s" => "String",
        "f" => "Float",
        "o" => "Int32",
        _ => "",
    };
    "Int32".repeat(params) + more
}
/// Whether a function of the cache is the one meant (callbacks have no types in their names).
fn meant(n: &str, name: &str, params: usize) -> bool {
    let mut l = n.split(';');
    l.next() == Some(plain(name)) && l.next().map_or(true, |t| t == signature(name, params))
}
fn values(name: &str, args: &[i32]) -> Vec<Val> {
    let more = match mark(name) {
        "s" => Some(Val::Str("tag".into())),
        "f" => Some(Val::Num(lang::Num::F(1.5))),
        "o" => Some(Val::Int(0)),
        _ => None,
    };
    args.iter().map(|a| Val::Int(*a)).chain(more).collect()
}
fn ex(e: &Ex) -> String {
    match e {
        Ex::K(n) => format!("{n}"),
        Ex::P(n) => format!("p{n}"),
        Ex::L(n) => format!("v{n}"),
        Ex::F(f) => format!("this.{f}"),
        Ex::Bin(o, a, b) => {
            let s = match o {
                Op::Add => "+",
                Op::Sub => "-",
                Op::Mul => "*",
            };
            format!("({} {s} {})", ex(a), ex(b))
        }
        Ex::Wrapped(a, m) => call("wrappedMethod", a, m),
        Ex::This(m, a) => format!("this.{}", call(plain(m), a, mark(m))),
        Ex::Super(m, a) => format!("super.{}", call(plain(m), a, mark(m))),
        Ex::Free(m, a) => call(plain(m), a, mark(m)),
        Ex::Static(c, m, a) => format!("{c}.{}", call(plain(m), a, mark(m))),
        Ex::On(l, m, a) => format!("v{l}.{m}({})", list(a)),
        Ex::Cond(a, b, c, d) => format!("(({} > {}) ? {} : {})", ex(a), ex(b), ex(c), ex(d)),
    }
}
fn stmts(out: &mut String, v: &[St], ind: usize) {
    let pad = "  ".repeat(ind);
    for s in v {
        match s {
            St::Let(n, e) => writeln!(out, "{pad}let v{n}: Int32 = {};", ex(e)),
            St::LetNew(n, c) => writeln!(out, "{pad}let v{n}: ref<{c}> = new {c}();"),
            St::Set(n, e) => writeln!(out, "{pad}v{n} = {};", ex(e)),
            St::SetF(f, e) => writeln!(out, "{pad}this.{f} = {};", ex(e)),
            St::Do(e) => writeln!(out, "{pad}{};", ex(e)),
            St::Ret(e) => writeln!(out, "{pad}return {};", ex(e)),
            St::If(a, b, t, e) => {
                writeln!(out, "{pad}if {} < {} {{", ex(a), ex(b)).ok();
                stmts(out, t, ind + 1);
                if e.is_empty() {
                    writeln!(out, "{pad}}}")
                } else {
                    writeln!(out, "{pad}}} else {{").ok();
                    stmts(out, e, ind + 1);
                    writeln!(out, "{pad}}}")
                }
            }
            St::While(c, n, b) => {
                writeln!(out, "{pad}while v{c} < {n} {{").ok();
                stmts(out, b, ind + 1);
                writeln!(out, "{pad}}}")
            }
        }
        .ok();
    }
}
fn func(quals: &str, name: &str, f: &Func) -> String {
    let more = match mark(name) {
        "s" => Some("tag: String"),
        "f" => Some("tag: Float"),
        "o" => Some("opt tag: Int32"),
        _ => None,
    };
    let ps: Vec<String> = (0..f.params).map(|n| format!("p{n}: Int32")).chain(more.map(String::from)).collect();
    let mut s = format!("{quals}func {}({}) -> {} {{\n", plain(name), ps.join(", "), if f.void { "Void" } else { "Int32" });
    stmts(&mut s, &f.body, 1);
    s + "}\n"
}
pub fn text(items: &[Item]) -> String {
    let mut s = String::new();
    for i in items {
        match i {
            Item::Wrap { class, name, f, quals } => s += &format!("@wrapMethod({class})\n{}", func(quals, name, f)),
            Item::Replace { class, name, f, quals } => s += &format!("@replaceMethod({class})\n{}", func(quals, name, f)),
            Item::ReplaceGlobal { name, f } => s += &format!("@replaceGlobal()\n{}", func("public static ", name, f)),
            Item::AddMethod { class, name, f, quals } => s += &format!("@addMethod({class})\n{}", func(quals, name, f)),
            Item::AddField { class, name } => s += &format!("@addField({class})\nlet {name}: Int32;\n"),
            Item::Free { name, f } => s += &func("public static ", name, f),
            Item::Prog { text, .. } => s += text,
            Item::Decl(d) => s += &d.text,
            Item::Class { name, base, fields, methods } => {
                let e = base.as_ref().map_or(String::new(), |b| format!(" extends {b}"));
                s += &format!("public class {name}{e} {{\n");
                for f in fields {
                    s += &format!("  let {f}: Int32;\n");
                }
                for (n, f, q) in methods {
                    s += &func(q, n, f);
                }
                s += "}\n";
            }
        }
    }
    s
}

// ---------------------------------------------------------------- what the game ships

/// (class, base, fields, methods)
type ClassDef = (&'static str, &'static str, &'static [&'static str], Vec<(&'static str, Func, &'static str)>);

fn p(n: usize) -> Box<Ex> {
    Box::new(Ex::P(n))
}
fn k(n: i32) -> Box<Ex> {
    Box::new(Ex::K(n))
}
pub fn vanilla(version: usize) -> (Vec<ClassDef>, Vec<(&'static str, Func)>) {
    let v = version as i32;
    let ret = |e: Ex| vec![St::Ret(e)];
    let player: ClassDef = ("Player", "IScriptable", &["hp", "armor"], vec![
        ("Hp", Func { params: 0, void: false, body: ret(Ex::K(100 + v)) }, ""),
        ("Damage", Func { params: 2, void: false, body: vec![
            St::Let(0, Ex::Bin(Op::Add, p(0), p(1))),
            St::Let(1, Ex::Bin(Op::Add, Box::new(Ex::L(0)), Box::new(Ex::F("hp".into())))),
            St::Let(2, Ex::Bin(Op::Sub, Box::new(Ex::L(1)), k(v))),
            St::Ret(Ex::Bin(Op::Add, Box::new(Ex::L(2)), Box::new(Ex::Bin(Op::Mul, Box::new(Ex::L(0)), k(3))))),
        ] }, ""),
        ("Heal", Func { params: 1, void: true, body: vec![
            St::SetF("hp".into(), Ex::Bin(Op::Add, Box::new(Ex::F("hp".into())), p(0))),
        ] }, ""),
        ("Rate", Func { params: 1, void: false, body: ret(Ex::Bin(Op::Add, p(0), k(7 + v))) }, "public static "),
        ("OnTick", Func { params: 1, void: false, body: vec![
            St::SetF("armor".into(), Ex::Bin(Op::Add, Box::new(Ex::F("armor".into())), k(1))),
            St::Ret(Ex::Bin(Op::Mul, p(0), k(2))),
        ] }, "cb "),
        ("Fixed", Func { params: 1, void: false, body: ret(Ex::Bin(Op::Sub, p(0), k(v))) }, "public final "),
        ("Scale", Func { params: 1, void: false, body: ret(Ex::Bin(Op::Mul, p(0), k(5 + v))) }, ""),
        ("Scale#s", Func { params: 1, void: false, body: ret(Ex::Bin(Op::Add, Box::new(Ex::This("Scale".into(), vec![Ex::P(0)])), k(11))) }, ""),
        ("Scale#2", Func { params: 2, void: false, body: ret(Ex::Bin(Op::Sub, Box::new(Ex::This("Scale#s".into(), vec![Ex::P(0)])), p(1))) }, ""),
        ("Boost#o", Func { params: 1, void: true, body: vec![
            St::SetF("armor".into(), Ex::Bin(Op::Add, Box::new(Ex::F("armor".into())), Box::new(Ex::This("Scale#2".into(), vec![Ex::P(0), Ex::K(2)])))),
        ] }, "protected "),
        ("Mix", Func { params: 1, void: false, body: ret(Ex::Bin(Op::Add, p(0), k(17))) }, "public static "),
        ("Mix#f", Func { params: 1, void: false, body: ret(Ex::Bin(Op::Mul, p(0), k(19))) }, "public static "),
    ]);
    let enemy: ClassDef = ("Enemy", "Player", &["rage"], vec![
        ("Hp", Func { params: 0, void: false, body: ret(Ex::K(7 + v)) }, ""),
        ("Damage", Func { params: 2, void: false, body: ret(Ex::Bin(Op::Add, Box::new(Ex::Super("Damage".into(), vec![Ex::P(0), Ex::P(1)])), k(1))) }, ""),
        ("Scale#s", Func { params: 1, void: false, body: ret(Ex::Bin(Op::Sub, Box::new(Ex::Super("Scale#s".into(), vec![Ex::P(0)])), k(2))) }, ""),
    ]);
    let clamp = Func { params: 3, void: false, body: vec![
        St::If(Ex::P(0), Ex::P(1), vec![St::Ret(Ex::P(1))], vec![]),
        St::If(Ex::P(2), Ex::P(0), vec![St::Ret(Ex::P(2))], vec![]),
        St::Ret(Ex::P(0)),
    ] };
    let two = Func { params: 2, void: false, body: vec![St::If(Ex::P(0), Ex::P(1), vec![St::Ret(Ex::P(1))], vec![]), St::Ret(Ex::P(0))] };
    (vec![player, enemy], vec![("Clamp", clamp), ("Clamp#2", two)])
}
pub fn vanilla_source(version: usize) -> String {
    let (cs, fs) = vanilla(version);
    let mut s = String::new();
    for (name, base, fields, ms) in cs {
        s += &format!("public class {name} extends {base} {{\n");
        for f in fields {
            s += &format!("  let {f}: Int32;\n");
        }
        for (n, f, q) in &ms {
            s += &func(q, n, f);
        }
        s += "}\n";
    }
    for (n, f) in fs {
        s += &func("public static ", n, &f);
    }
    s
}

// ---------------------------------------------------------------- reference interpreter

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Obj {
    pub class: String,
    pub fields: BTreeMap<String, i32>,
}

#[derive(Default, Debug)]
pub struct World {
    bases: BTreeMap<String, String>,
    /// (class, method): the original and its wrappers, outermost last
    methods: BTreeMap<(String, String), Vec<Func>>,
    free: BTreeMap<String, Func>,
    pub statics: Vec<(String, String)>,
    progs: Vec<lang::Prog>,
    steps: u64,
}

const LIMIT: u64 = 200_000;

impl World {
    pub fn new<'a>(version: usize, items: impl Iterator<Item = &'a Item> + Clone) -> Self {
        let mut w = World::default();
        let (cs, fs) = vanilla(version);
        for (name, base, _, ms) in cs {
            w.bases.insert(name.into(), base.into());
            for (n, f, q) in ms {
                if q.contains("static") {
                    w.statics.push((name.into(), n.into()));
                }
                w.methods.insert((name.into(), n.into()), vec![f]);
            }
        }
        for (n, f) in fs {
            w.free.insert(n.into(), f);
        }
        // replacements first: they take the place of the original, wherever they stand
        for i in items.clone() {
            match i {
                Item::Replace { class, name, f, .. } => {
                    w.methods.insert((class.clone(), name.clone()), vec![f.clone()]);
                }
                Item::ReplaceGlobal { name, f } | Item::Free { name, f } => {
                    w.free.insert(name.clone(), f.clone());
                }
                Item::AddMethod { class, name, f, quals } => {
                    if quals.contains("static") {
                        w.statics.push((class.clone(), name.clone()));
                    }
                    w.methods.insert((class.clone(), name.clone()), vec![f.clone()]);
                }
                Item::Class { name, base, methods, .. } => {
                    w.bases.insert(name.clone(), base.clone().unwrap_or_else(|| "IScriptable".into()));
                    for (n, f, q) in methods {
                        if q.contains("static") {
                            w.statics.push((name.clone(), n.clone()));
                        }
                        w.methods.insert((name.clone(), n.clone()), vec![f.clone()]);
                    }
                }
                Item::Prog { prog, .. } => w.progs.push(prog.clone()),
                Item::Decl(_) => {}
                _ => {}
            }
        }
        for i in items {
            if let Item::Wrap { class, name, f, .. } = i {
                w.methods.get_mut(&(class.clone(), name.clone())).expect("wrapped method").push(f.clone());
            }
        }
        w
    }
    pub fn all_methods(&self) -> Vec<(String, String, usize)> {
        self.methods.iter().map(|((c, m), f)| (c.clone(), m.clone(), f[0].params)).collect()
    }
    pub fn all_free(&self) -> Vec<(String, usize)> {
        self.free.iter().map(|(n, f)| (n.clone(), f.params)).collect()
    }
    /// How many functions the class has for one method: with wrappers, a proxy takes the original's place.
    pub fn wrapped(&self) -> usize {
        self.methods.values().filter(|c| c.len() > 1).count()
    }
    pub fn is_kind(&self, class: &str, of: &str) -> bool {
        class == of || self.bases.get(class).is_some_and(|b| self.is_kind(b, of))
    }
    fn find(&self, class: &str, m: &str) -> Option<(String, String)> {
        let key = (class.to_string(), m.to_string());
        if self.methods.contains_key(&key) {
            return Some(key);
        }
        self.find(self.bases.get(class)?, m)
    }
    pub fn call(&mut self, o: &mut Obj, class: &str, m: &str, a: &[i32]) -> Option<i32> {
        let key = self.find(class, m)?;
        let top = self.methods[&key].len() - 1;
        self.level(o, &key, top, a)
    }
    fn level(&mut self, o: &mut Obj, key: &(String, String), n: usize, a: &[i32]) -> Option<i32> {
        let f = self.methods[key][n].clone();
        self.run(o, &f, Some((key, n)), a)
    }
    pub fn call_free(&mut self, n: &str, a: &[i32]) -> Option<i32> {
        let f = self.free.get(n)?.clone();
        self.run(&mut Obj { class: String::new(), fields: BTreeMap::new() }, &f, None, a)
    }
    /// None: too long.
    fn run(&mut self, o: &mut Obj, f: &Func, at: Option<(&(String, String), usize)>, a: &[i32]) -> Option<i32> {
        let mut l = BTreeMap::new();
        let mut objs = BTreeMap::new();
        self.block(o, &f.body, at, a, &mut l, &mut objs).map(|r| r.unwrap_or(0))
    }
    #[allow(clippy::type_complexity)]
    fn block(
        &mut self,
        o: &mut Obj,
        b: &[St],
        at: Option<(&(String, String), usize)>,
        a: &[i32],
        l: &mut BTreeMap<usize, i32>,
        objs: &mut BTreeMap<usize, Obj>,
    ) -> Option<Option<i32>> {
        for s in b {
            self.steps += 1;
            if self.steps > LIMIT {
                return None;
            }
            match s {
                St::Let(n, e) | St::Set(n, e) => {
                    let v = self.ev(o, e, at, a, l, objs)?;
                    l.insert(*n, v);
                }
                St::LetNew(n, c) => {
                    objs.insert(*n, Obj { class: c.clone(), fields: BTreeMap::new() });
                }
                St::SetF(f, e) => {
                    let v = self.ev(o, e, at, a, l, objs)?;
                    o.fields.insert(f.clone(), v);
                }
                St::Do(e) => {
                    self.ev(o, e, at, a, l, objs)?;
                }
                St::Ret(e) => return Some(Some(self.ev(o, e, at, a, l, objs)?)),
                St::If(x, y, t, f) => {
                    let x = self.ev(o, x, at, a, l, objs)?;
                    let y = self.ev(o, y, at, a, l, objs)?;
                    if let Some(r) = self.block(o, if x < y { t } else { f }, at, a, l, objs)? {
                        return Some(Some(r));
                    }
                }
                St::While(c, n, b) => {
                    while l.get(c).copied().unwrap_or(0) < *n {
                        if let Some(r) = self.block(o, b, at, a, l, objs)? {
                            return Some(Some(r));
                        }
                    }
                }
            }
        }
        Some(None)
    }
    fn ev(
        &mut self,
        o: &mut Obj,
        e: &Ex,
        at: Option<(&(String, String), usize)>,
        a: &[i32],
        l: &BTreeMap<usize, i32>,
        objs: &mut BTreeMap<usize, Obj>,
    ) -> Option<i32> {
        self.steps += 1;
        if self.steps > LIMIT {
            return None;
        }
        let mut args = |w: &mut Self, o: &mut Obj, v: &[Ex]| -> Option<Vec<i32>> { v.iter().map(|e| w.ev(o, e, at, a, l, objs)).collect() };
        Some(match e {
            Ex::K(n) => *n,
            Ex::P(n) => a[*n],
            Ex::L(n) => l.get(n).copied().unwrap_or(0),
            Ex::F(f) => o.fields.get(f).copied().unwrap_or(0),
            Ex::Bin(op, x, y) => {
                let v = args(self, o, &[(**x).clone(), (**y).clone()])?;
                match op {
                    Op::Add => v[0].wrapping_add(v[1]),
                    Op::Sub => v[0].wrapping_sub(v[1]),
                    Op::Mul => v[0].wrapping_mul(v[1]),
                }
            }
            Ex::Wrapped(v, _) => {
                let v = args(self, o, v)?;
                let (key, n) = at?;
                self.level(o, key, n - 1, &v)?
            }
            Ex::This(m, v) => {
                let v = args(self, o, v)?;
                let c = o.class.clone();
                self.call(o, &c, m, &v)?
            }
            Ex::Super(m, v) => {
                let v = args(self, o, v)?;
                let c = self.bases.get(&at?.0 .0)?.clone();
                self.call(o, &c, m, &v)?
            }
            Ex::Free(m, v) => {
                let v = args(self, o, v)?;
                self.call_free(m, &v)?
            }
            Ex::Static(c, m, v) => {
                let v = args(self, o, v)?;
                self.call(&mut Obj { class: c.clone(), fields: BTreeMap::new() }, c, m, &v)?
            }
            Ex::On(n, m, v) => {
                let v = args(self, o, v)?;
                let mut t = objs.get(n)?.clone();
                let c = t.class.clone();
                let r = self.call(&mut t, &c, m, &v)?;
                objs.insert(*n, t);
                r
            }
            Ex::Cond(x, y, c, d) => {
                let v = args(self, o, &[(**x).clone(), (**y).clone()])?;
                let r = if v[0] > v[1] { c } else { d };
                args(self, o, std::slice::from_ref(r))?[0]
            }
        })
    }
}

// ---------------------------------------------------------------- generator of mods

pub struct Gen<'a> {
    pub ctx: &'a mut Ctx,
    /// int locals in scope
    locals: usize,
    params: usize,
    fields: Vec<String>,
    wrapped: Option<usize>,
    /// what the wrapped method is given besides
    mark: &'static str,
    /// methods of `this` that may be called (with the number of parameters)
    this: Vec<(String, usize)>,
    calls: u32,
    void: bool,
}

/// Methods of the game's classes: (class, name, params, void, qualifiers, what its bodies may call on `this`)
pub const TARGETS: &[(&str, &str, usize, bool, &str, &[(&str, usize)])] = &[
    ("Player", "Hp", 0, false, "", &[]),
    ("Player", "Damage", 2, false, "", &[("Hp", 0)]),
    ("Player", "Heal", 1, true, "", &[("Hp", 0), ("Damage", 2)]),
    ("Player", "Rate", 1, false, "public static ", &[]),
    ("Player", "OnTick", 1, false, "cb ", &[("Hp", 0), ("Damage", 2)]),
    ("Player", "Fixed", 1, false, "public final ", &[("Hp", 0)]),
    ("Enemy", "Hp", 0, false, "", &[]),
    ("Enemy", "Damage", 2, false, "", &[("Hp", 0)]),
    ("Player", "Scale", 1, false, "", &[("Hp", 0), ("Damage", 2)]),
    ("Player", "Scale#s", 1, false, "", &[("Hp", 0), ("Scale", 1)]),
    ("Player", "Scale#2", 2, false, "", &[("Scale", 1), ("Scale#s", 1)]),
    ("Player", "Boost#o", 1, true, "protected ", &[("Scale", 1), ("Scale#2", 2)]),
    ("Player", "Mix", 1, false, "public static ", &[]),
    ("Player", "Mix#f", 1, false, "public static ", &[]),
    ("Enemy", "Scale#s", 1, false, "", &[("Hp", 0), ("Scale", 1)]),
];

impl Gen<'_> {
    fn ex(&mut self, depth: u32) -> Ex {
        let n = if depth == 0 { 4 } else { 12 };
        match self.ctx.ch.draw(n) {
            0 => Ex::K(self.ctx.ch.draw(100) as i32),
            1 if self.params > 0 => Ex::P(self.ctx.ch.draw(self.params as u64) as usize),
            2 if self.locals > 0 => Ex::L(self.ctx.ch.draw(self.locals as u64) as usize),
            3 if !self.fields.is_empty() => Ex::F(self.ctx.ch.pick(&self.fields).clone()),
            4 | 5 => {
                let op = *self.ctx.ch.pick(&[Op::Add, Op::Sub, Op::Mul]);
                Ex::Bin(op, Box::new(self.ex(depth - 1)), Box::new(self.ex(depth - 1)))
            }
            6 | 7 if self.calls > 0 && self.wrapped.is_some() && !self.void => {
                self.calls -= 1;
                let a = self.args(self.wrapped.unwrap(), depth - 1);
                Ex::Wrapped(a, self.mark)
            }
            8 if self.calls > 0 && !self.this.is_empty() => {
                self.calls -= 1;
                let (m, n) = self.ctx.ch.pick(&self.this).clone();
                Ex::This(m, self.args(n, depth - 1))
            }
            9 if self.ctx.ch.coin() => Ex::Free("Clamp#2".into(), self.args(2, depth - 1)),
            9 => Ex::Free("Clamp".into(), self.args(3, depth - 1)),
            10 => Ex::Cond(Box::new(self.ex(depth - 1)), Box::new(self.ex(depth - 1)), Box::new(self.ex(depth - 1)), Box::new(self.ex(depth - 1))),
            _ => Ex::K(1 + self.ctx.ch.draw(9) as i32),
        }
    }
    fn args(&mut self, n: usize, depth: u32) -> Vec<Ex> {
        (0..n).map(|_| self.ex(depth)).collect()
    }
    fn body(&mut self, void: bool) -> Vec<St> {
        let mut b = vec![];
        self.locals = 0;
        self.void = void;
        for _ in 0..self.ctx.ch.draw(4) {
            match self.ctx.ch.draw(5) {
                0 | 1 => {
                    let e = self.ex(2);
                    b.push(St::Let(self.locals, e));
                    self.locals += 1;
                }
                2 if !self.fields.is_empty() => {
                    let f = self.ctx.ch.pick(&self.fields).clone();
                    b.push(St::SetF(f, self.ex(2)));
                }
                3 if self.locals > 0 => {
                    let (x, y) = (self.ex(1), self.ex(1));
                    let l = self.ctx.ch.draw(self.locals as u64) as usize;
                    let t = vec![St::Set(l, self.ex(1))];
                    let e = if self.ctx.ch.coin() { vec![St::Set(l, self.ex(1))] } else { vec![] };
                    b.push(St::If(x, y, t, e));
                }
                4 if self.locals < 6 => {
                    // a counting loop; the counter is only read from here on
                    let (c, s) = (self.locals, self.locals + 1);
                    b.push(St::Let(c, Ex::K(0)));
                    b.push(St::Let(s, Ex::K(0)));
                    let n = 1 + self.ctx.ch.draw(3) as i32;
                    let calls = std::mem::take(&mut self.calls);
                    let keep = self.locals;
                    let e = self.ex(1);
                    self.calls = calls;
                    self.locals = keep + 2;
                    b.push(St::While(c, n, vec![
                        St::Set(s, Ex::Bin(Op::Add, Box::new(Ex::L(s)), Box::new(e))),
                        St::Set(c, Ex::Bin(Op::Add, Box::new(Ex::L(c)), Box::new(Ex::K(1)))),
                    ]));
                    // never assigned again
                    b.push(St::Let(self.locals, Ex::L(s)));
                    self.locals += 1;
                }
                _ => {}
            }
        }
        if void {
            if let (Some(n), true) = (self.wrapped, self.calls > 0) {
                let a = self.args(n, 1);
                b.push(St::Do(Ex::Wrapped(a, self.mark)));
            }
            if !self.fields.is_empty() {
                let f = self.ctx.ch.pick(&self.fields).clone();
                b.push(St::SetF(f, self.ex(1)));
            }
        } else {
            if self.ctx.ch.chance(1, 4) {
                let (x, y, z) = (self.ex(1), self.ex(1), self.ex(1));
                b.push(St::If(x, y, vec![St::Ret(z)], vec![]));
            }
            let e = match (self.wrapped, self.calls > 0) {
                // mostly a wrapper passes the call on
                (Some(n), true) if self.ctx.ch.chance(3, 4) => {
                    let a = self.args(n, 1);
                    Ex::Bin(Op::Add, Box::new(Ex::Bin(Op::Mul, Box::new(Ex::Wrapped(a, self.mark)), k(3))), k(1 + self.ctx.ch.draw(50) as i32))
                }
                _ => self.ex(3),
            };
            b.push(St::Ret(e));
        }
        b
    }
}

/// A while loop reads its own counter: no Set on it may come later. `Let` of the generator never reuses a number, and
/// `Set` in an `If` may hit a counter: harmless, the loop is over by then.
fn gen<'a>(ctx: &'a mut Ctx, params: usize, fields: &[&str], wrapped: Option<usize>, this: &[(&str, usize)]) -> Gen<'a> {
    Gen {
        ctx,
        locals: 0,
        params,
        fields: fields.iter().map(|s| s.to_string()).collect(),
        wrapped,
        mark: "",
        this: this.iter().map(|(m, n)| (m.to_string(), *n)).collect(),
        calls: 2,
        void: false,
    }
}

/// The files of one mod, with names for them; `replaced` holds what other mods already replace.
pub fn gen_mod(ctx: &mut Ctx, t: &str, replaced: &mut Vec<String>) -> Vec<Vec<Item>> {
    let mut files = vec![vec![]];
    for n in 0..1 + ctx.ch.draw(3) {
        match ctx.ch.draw(9) {
            0..=3 => {
                let (class, name, params, void, quals, this) = *ctx.ch.pick(TARGETS);
                let stat = quals.contains("static");
                let fields: &[&str] = if stat { &[] } else { &["hp", "armor", "slots[1]"] };
                let mut g = gen(ctx, params, fields, Some(params), this);
                g.mark = mark(name);
                let body = g.body(void);
                files[0].push(Item::Wrap { class: class.into(), name: name.into(), f: Func { params, void, body }, quals });
            }
            4 => {
                let (class, name, params, void, quals, this) = *ctx.ch.pick(TARGETS);
                let key = format!("{class}.{name}");
                if replaced.contains(&key) {
                    continue;
                }
                replaced.push(key);
                let stat = quals.contains("static");
                let fields: &[&str] = if stat { &[] } else { &["hp", "armor", "slots[1]"] };
                let body = gen(ctx, params, fields, None, this).body(void);
                files[0].push(Item::Replace { class: class.into(), name: name.into(), f: Func { params, void, body }, quals });
            }
            5 => {
                let (name, params) = *ctx.ch.pick(&[("Clamp", 3), ("Clamp#2", 2)]);
                if replaced.iter().any(|r| r == name) {
                    continue;
                }
                replaced.push(name.into());
                let mut g = gen(ctx, params, &[], None, &[]);
                g.calls = 0;
                // (no call of itself)
                let e = match g.ex(0) {
                    Ex::Free(..) => Ex::P(0),
                    e => e,
                };
                let body = vec![St::If(Ex::P(0), Ex::P(1), vec![St::Ret(e)], vec![]), St::Ret(Ex::Bin(Op::Add, p(0), p(params - 1)))];
                files[0].push(Item::ReplaceGlobal { name: name.into(), f: Func { params, void: false, body } });
            }
            6 => {
                // a field and a method that uses it
                let (f, m) = (format!("f{t}{n}"), format!("M{t}{n}"));
                let class = *ctx.ch.pick(&["Player", "Enemy"]);
                let mut body = vec![St::SetF(f.clone(), Ex::Bin(Op::Add, Box::new(Ex::F(f.clone())), p(0)))];
                body.extend(gen(ctx, 1, &["hp", "slots[0]", &f], None, &[("Hp", 0), ("Damage", 2), ("Fixed", 1)]).body(false));
                files[0].push(Item::AddField { class: class.into(), name: f });
                files[0].push(Item::AddMethod { class: class.into(), name: m, f: Func { params: 1, void: false, body }, quals: "public " });
            }
            7 => {
                // an override in the subclass
                let (name, params, quals) = *ctx.ch.pick(&[("OnTick", 1, "cb "), ("Scale", 1, ""), ("Scale#2", 2, ""), ("Scale", 1, "public final "), ("OnTick", 1, "final cb ")]);
                let key = format!("Enemy.{name}");
                if replaced.contains(&key) {
                    continue;
                }
                replaced.push(key);
                let args = (0..params).map(Ex::P).collect();
                let e = Ex::Bin(Op::Add, Box::new(Ex::Super(name.into(), args)), k(ctx.ch.draw(40) as i32));
                files[0].push(Item::AddMethod { class: "Enemy".into(), name: name.into(), f: Func { params, void: false, body: vec![St::Ret(e)] }, quals });
            }
            _ => {
                // classes of its own, the derived ones perhaps in the file that comes first
                let depth = 2 + ctx.ch.draw(3) as usize;
                let names: Vec<String> = (0..depth).map(|d| format!("C{t}{n}x{d}")).collect();
                for (d, name) in names.iter().enumerate() {
                    let base = match d {
                        0 if ctx.ch.chance(1, 3) => Some("Player".to_string()),
                        0 => None,
                        _ => Some(names[d - 1].clone()),
                    };
                    let own = format!("w{d}");
                    let mut methods = vec![];
                    let get = if d == 0 {
                        let mut b = vec![St::SetF(own.clone(), Ex::Bin(Op::Add, Box::new(Ex::F(own.clone())), p(0)))];
                        b.extend(gen(ctx, 1, &[&own], None, &[]).body(false));
                        b
                    } else {
                        vec![
                            St::Let(0, Ex::Super("Get".into(), vec![Ex::Bin(Op::Add, p(0), k(d as i32))])),
                            St::SetF(own.clone(), Ex::L(0)),
                            St::Ret(Ex::Bin(Op::Add, Box::new(Ex::Bin(Op::Mul, Box::new(Ex::L(0)), k(2))), k(ctx.ch.draw(9) as i32))),
                        ]
                    };
                    if d == 0 || ctx.ch.chance(3, 4) {
                        methods.push(("Get".to_string(), Func { params: 1, void: false, body: get }, "public "));
                    }
                    methods.push((format!("Only{d}"), Func { params: 1, void: false, body: vec![
                        St::Ret(Ex::Bin(Op::Add, Box::new(Ex::This("Get".into(), vec![Ex::P(0)])), k(d as i32))),
                    ] }, "public "));
                    let item = Item::Class { name: name.clone(), base, fields: vec![own], methods };
                    if ctx.ch.coin() {
                        if files.len() < 2 {
                            files.push(vec![]);
                        }
                        files[1].push(item);
                    } else if ctx.ch.coin() {
                        files[0].insert(0, item);
                    } else {
                        files[0].push(item);
                    }
                }
                let last = names.last().unwrap().clone();
                files[0].push(Item::Free { name: format!("F{t}{n}"), f: Func { params: 1, void: false, body: vec![
                    St::LetNew(0, last),
                    St::Let(1, Ex::On(0, "Get".into(), vec![Ex::P(0)])),
                    St::Let(2, Ex::On(0, "Only0".into(), vec![Ex::L(1)])),
                    St::Ret(Ex::Bin(Op::Sub, Box::new(Ex::L(2)), Box::new(Ex::L(1)))),
                ] } });
            }
        }
    }
    if files[0].is_empty() {
        files[0].push(Item::Free { name: format!("F{t}"), f: Func { params: 1, void: false, body: vec![St::Ret(Ex::P(0))] } });
    }
    if ctx.ch.chance(1, 2) {
        let libs: Vec<String> = replaced.iter().filter_map(|r| r.strip_prefix("lib:")).map(String::from).collect();
        for (text, prog) in lang::make(ctx, t, &libs) {
            if prog.module.as_ref().is_some_and(|m| *m == format!("Lib{t}")) {
                replaced.push(format!("lib:{t}"));
            }
            files.push(vec![Item::Prog { text, prog }]);
        }
    }
    files
}

// ---------------------------------------------------------------- the game's virtual machine

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Void,
    Int(i32),
    Bool(bool),
    Str(String),
    Arr(Vec<Val>),
    Enum(i64),
    Struct(BTreeMap<PoolIndex<Field>, Val>),
    Num(lang::Num),
    /// a value of any type, with its type
    Any(PoolIndex<Type>, Box<Val>),
    Name(String),
    Id(String),
    Res(String),
    Obj(usize),
    Null,
    /// a weak reference
    Weak(Option<usize>),
    /// a script reference
    At(Box<Val>),
}

pub struct Vm<'a> {
    pool: &'a ConstantPool,
    classes: HashMap<String, PoolIndex<Class>>,
    free: HashMap<String, PoolIndex<Function>>,
    enums: HashMap<String, i64>,
    pub heap: Vec<(PoolIndex<Class>, HashMap<PoolIndex<Field>, Val>)>,
    code: HashMap<PoolIndex<Function>, std::rc::Rc<Vec<(u16, Instr<Offset>)>>>,
    steps: u64,
}

struct Frame<'c> {
    code: &'c [(u16, Instr<Offset>)],
    this: Option<usize>,
    params: HashMap<PoolIndex<Parameter>, Val>,
    locals: HashMap<PoolIndex<Local>, Val>,
}

type R<T> = Result<T, String>;

/// Whether one may be where the other is.
fn alike(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::Num(a), Val::Num(b)) => a.kind() == b.kind(),
        (Val::Struct(a), Val::Struct(b)) => a.keys().eq(b.keys()),
        (Val::Obj(_) | Val::Null, Val::Obj(_) | Val::Null) => true,
        (a, b) => std::mem::discriminant(a) == std::mem::discriminant(b),
    }
}

impl<'a> Vm<'a> {
    pub fn new(pool: &'a ConstantPool) -> R<Self> {
        let mut vm = Vm { pool, classes: HashMap::new(), free: HashMap::new(), enums: HashMap::new(), heap: vec![], code: HashMap::new(), steps: 0 };
        for (i, d) in pool.roots() {
            let n = pool.def_name(i).map_err(|e| e.to_string())?.to_string();
            match &d.value {
                AnyDefinition::Class(_) => {
                    if vm.classes.insert(n.clone(), i.cast()).is_some() {
                        return Err(format!("class {n} is there twice"));
                    }
                }
                AnyDefinition::Function(_) => {
                    if vm.free.insert(n.clone(), i.cast()).is_some() {
                        return Err(format!("function {n} is there twice"));
                    }
                }
                AnyDefinition::Enum(e) => {
                    let first = e.members.first().and_then(|m| pool.enum_value(*m).ok()).unwrap_or(0);
                    vm.enums.insert(n, first);
                }
                _ => {}
            }
        }
        Ok(vm)
    }
    pub fn class(&self, n: &str) -> R<PoolIndex<Class>> {
        self.classes.get(n).copied().ok_or_else(|| format!("there is no class {n}"))
    }
    pub fn new_obj(&mut self, c: PoolIndex<Class>) -> usize {
        self.heap.push((c, HashMap::new()));
        self.heap.len() - 1
    }
    fn name<T>(&self, i: PoolIndex<T>) -> R<String> {
        self.pool.def_name(i).map(|s| s.to_string()).map_err(|e| e.to_string())
    }
    /// What a variable of the type holds before anything is put into it.
    fn zero(&self, t: PoolIndex<Type>) -> R<Val> {
        let n = self.name(t)?;
        Ok(match self.pool.type_(t).map_err(|e| e.to_string())? {
            Type::Prim => match n.as_str() {
                "Int32" => Val::Int(0),
                "Bool" => Val::Bool(false),
                "String" => Val::Str(String::new()),
                "CName" => Val::Name(String::new()),
                "TweakDBID" => Val::Id(String::new()),
                n if lang::KINDS.iter().any(|k| k.name() == n) => Val::Num(lang::KINDS.iter().find(|k| k.name() == n).unwrap().of(0)),
                n => return Err(format!("a variable of type {n}")),
            },
            Type::Array(_) => Val::Arr(vec![]),
            Type::StaticArray(t, n) => Val::Arr(vec![self.zero(*t)?; *n as usize]),
            Type::ScriptRef(i) => Val::At(Box::new(self.zero(*i)?)),
            Type::WeakRef(_) => Val::Weak(None),
            Type::Class if n == "ResRef" => Val::Res(String::new()),
            Type::Class => match (self.enums.get(&n), self.classes.get(&n)) {
                (Some(v), _) => Val::Enum(*v),
                (None, Some(c)) if self.pool.class(*c).is_ok_and(|c| c.flags.is_struct()) => self.construct(*c, vec![])?,
                _ => Val::Null,
            },
            _ => Val::Null,
        })
    }
    /// Whether a value is one of the type.
    fn fits(&self, t: PoolIndex<Type>, v: &Val) -> R<bool> {
        let class = |v: &Option<usize>, i: PoolIndex<Type>| -> R<bool> {
            let c = *self.classes.get(&self.name(i)?).ok_or_else(|| format!("{} is no class", self.name(i).unwrap_or_default()))?;
            v.map_or(Ok(true), |o| self.kind(self.heap[o].0, c))
        };
        Ok(match (self.pool.type_(t).map_err(|e| e.to_string())?, v) {
            (Type::Array(i), Val::Arr(l)) => l.first().map_or(Ok(true), |v| self.fits(*i, v))?,
            (Type::StaticArray(i, n), Val::Arr(l)) => l.len() == *n as usize && self.fits(*i, &l[0])?,
            (Type::ScriptRef(i), Val::At(v)) => self.fits(*i, v)?,
            (Type::Ref(i), Val::Obj(o)) => class(&Some(*o), *i)?,
            (Type::Ref(i), Val::Null) => class(&None, *i)?,
            (Type::WeakRef(i), Val::Weak(o)) => class(o, *i)?,
            (Type::Prim, Val::Any(..)) => self.name(t)? == "Variant",
            (Type::Prim | Type::Class, Val::Arr(_) | Val::At(_) | Val::Obj(_) | Val::Null | Val::Weak(_) | Val::Any(..)) => false,
            (Type::Prim, _) if self.name(t)? == "Variant" => false,
            (Type::Prim | Type::Class, v) => alike(&self.zero(t)?, v),
            _ => false,
        })
    }
    fn must_fit(&self, t: PoolIndex<Type>, v: &Val, what: &str) -> R<()> {
        match self.fits(t, v)? {
            true => Ok(()),
            false => Err(format!("{what} is {v:?}, of type {}", self.name(t)?)),
        }
    }
    fn construct(&self, c: PoolIndex<Class>, args: Vec<Val>) -> R<Val> {
        // (a struct of the game itself)
        if args.is_empty() && self.name(c)? == "ResRef" {
            return Ok(Val::Res(String::new()));
        }
        let c = self.pool.class(c).map_err(|e| e.to_string())?;
        if !args.is_empty() && args.len() != c.fields.len() {
            return Err(format!("a struct made of {} values", args.len()));
        }
        let mut m = BTreeMap::new();
        for (k, f) in c.fields.iter().enumerate() {
            let v = match args.get(k) {
                Some(v) => v.clone(),
                None => self.zero(self.pool.field(*f).map_err(|e| e.to_string())?.type_)?,
            };
            m.insert(*f, v);
        }
        Ok(Val::Struct(m))
    }
    fn kind(&self, mut c: PoolIndex<Class>, of: PoolIndex<Class>) -> R<bool> {
        loop {
            if c == of {
                return Ok(true);
            }
            let cls = self.pool.class(c).map_err(|e| e.to_string())?;
            if cls.base.is_undefined() {
                return Ok(false);
            }
            c = cls.base;
        }
    }
    /// The function of that (mangled or plain) name in the class or its bases.
    pub fn method(&self, c: PoolIndex<Class>, ok: &dyn Fn(&str) -> bool) -> R<PoolIndex<Function>> {
        let mut at = c;
        for _ in 0..100 {
            let cls = self.pool.class(at).map_err(|e| e.to_string())?;
            let mut found = None;
            for f in &cls.functions {
                let def = self.pool.definition(*f).map_err(|e| e.to_string())?;
                if def.parent != at.cast() {
                    return Err(format!("{} is listed in {} but belongs to another class", self.name(*f)?, self.name(at)?));
                }
                if ok(&self.name(*f)?) {
                    if found.is_some() {
                        return Err(format!("{} has {} twice", self.name(at)?, self.name(*f)?));
                    }
                    found = Some(*f);
                }
            }
            if let Some(f) = found {
                return Ok(f);
            }
            if cls.base.is_undefined() {
                break;
            }
            if u32::from(cls.base) >= u32::from(at) {
                return Err(format!("class {} comes before its base", self.name(at)?));
            }
            at = cls.base;
        }
        Err(format!("no such method in {}", self.name(c)?))
    }
    pub fn invoke(&mut self, o: Option<usize>, f: PoolIndex<Function>, mut args: Vec<Val>, depth: u32) -> R<Val> {
        self.invoke_mut(o, f, &mut args, depth)
    }
    /// `args` holds what the parameters hold at the end.
    fn invoke_mut(&mut self, o: Option<usize>, f: PoolIndex<Function>, args: &mut [Val], depth: u32) -> R<Val> {
        if depth > 200 {
            return Err("too deep".into());
        }
        let fun = self.pool.function(f).map_err(|e| e.to_string())?;
        if fun.flags.is_native() {
            let n = self.name(f)?;
            let short = n.split(';').next().unwrap_or("");
            let sym = |op: &str| {
                let op = op.strip_prefix("OperatorAssign").or_else(|| op.strip_prefix("Operator"))?;
                Some(match op {
                    "Add" => "+",
                    "Subtract" => "-",
                    "Multiply" => "*",
                    "Less" => "<",
                    "LessEqual" => "<=",
                    "Greater" => ">",
                    "GreaterEqual" => ">=",
                    "Equal" => "==",
                    "NotEqual" => "!=",
                    _ => return None,
                })
            };
            let ret = match fun.return_type {
                Some(t) => self.name(t)?,
                None => String::new(),
            };
            return Ok(match &*args {
                [Val::Num(x), Val::Num(y)] => {
                    let o = sym(short).unwrap_or("");
                    let v = match (lang::num(o, *x, *y), lang::cmp(o, *x, *y)) {
                        (Some(v), _) => Val::Num(v),
                        (_, Some(b)) => Val::Bool(b),
                        _ => return Err(format!("native {n} called with {args:?}")),
                    };
                    if short.starts_with("OperatorAssign") {
                        args[0] = v.clone();
                    }
                    v
                }
                [Val::Num(x)] if short == "Cast" && ret == "Int32" => Val::Int(x.int()),
                [Val::Int(x)] if short == "Cast" => match lang::KINDS.into_iter().find(|k| k.name() == ret) {
                    Some(k) => Val::Num(k.of(*x)),
                    None => return Err(format!("native {n} called with {args:?}")),
                },
                [Val::Int(x), Val::Int(y)] => {
                    let (x, y) = (*x, *y);
                    let op = short.strip_prefix("OperatorAssign").or_else(|| short.strip_prefix("Operator")).unwrap_or("");
                    let v = match op {
                        "Add" => Val::Int(x.wrapping_add(y)),
                        "Subtract" => Val::Int(x.wrapping_sub(y)),
                        "Multiply" => Val::Int(x.wrapping_mul(y)),
                        "Divide" => Val::Int(if y == 0 { 0 } else { x.wrapping_div(y) }),
                        "Modulo" => Val::Int(if y == 0 { 0 } else { x.wrapping_rem(y) }),
                        "Or" => Val::Int(x | y),
                        "And" => Val::Int(x & y),
                        "Xor" => Val::Int(x ^ y),
                        "Less" => Val::Bool(x < y),
                        "LessEqual" => Val::Bool(x <= y),
                        "Greater" => Val::Bool(x > y),
                        "GreaterEqual" => Val::Bool(x >= y),
                        "Equal" => Val::Bool(x == y),
                        "NotEqual" => Val::Bool(x != y),
                        _ => return Err(format!("native {n} called with {args:?}")),
                    };
                    if short.starts_with("OperatorAssign") {
                        args[0] = v.clone();
                    }
                    v
                }
                [Val::Num(x)] if short == "OperatorNeg" => Val::Num(x.neg()),
                [Val::Int(x)] if short == "OperatorNeg" => Val::Int(x.wrapping_neg()),
                [Val::Int(x)] if short == "OperatorBitNot" => Val::Int(!x),
                [Val::Bool(x)] if short == "OperatorLogicNot" => Val::Bool(!x),
                [Val::Bool(x), Val::Bool(y)] if short == "OperatorLogicAnd" => Val::Bool(*x && *y),
                [Val::Bool(x), Val::Bool(y)] if short == "OperatorLogicOr" => Val::Bool(*x || *y),
                [Val::At(x), Val::At(y)] if short == "OperatorAdd" && matches!((&**x, &**y), (Val::Str(_), Val::Str(_))) => {
                    let (Val::Str(x), Val::Str(y)) = (&**x, &**y) else { unreachable!() };
                    Val::Str(format!("{x}{y}"))
                }
                [Val::Str(x), Val::Str(y)] if short == "OperatorAdd" => Val::Str(format!("{x}{y}")),
                _ => return Err(format!("native {n} called with {args:?}")),
            });
        }
        let code = match self.code.get(&f) {
            Some(c) => c.clone(),
            None => {
                let mut at = 0u16;
                let c: Vec<(u16, Instr<Offset>)> = fun
                    .code
                    .as_ref()
                    .iter()
                    .map(|i| {
                        let r = (at, i.clone());
                        at += i.size();
                        r
                    })
                    .collect();
                let c = std::rc::Rc::new(c);
                self.code.insert(f, c.clone());
                c
            }
        };
        if args.len() != fun.parameters.len() {
            return Err(format!("{} called with {} arguments", self.name(f)?, args.len()));
        }
        for i in &fun.locals {
            let d = self.pool.definition(*i).map_err(|e| e.to_string())?;
            if d.parent != f.cast() {
                return Err(format!("a local of {} does not belong to it", self.name(f)?));
            }
        }
        for (p, a) in fun.parameters.iter().zip(args.iter()) {
            let t = self.pool.parameter(*p).map_err(|e| e.to_string())?.type_;
            self.must_fit(t, a, "a parameter").map_err(|e| format!("{e} in {}", self.name(f).unwrap_or_default()))?;
        }
        let mut locals = HashMap::new();
        for l in &fun.locals {
            let z = self.zero(self.pool.local(*l).map_err(|e| e.to_string())?.type_)?;
            locals.insert(*l, z);
        }
        let mut fr = Frame {
            code: &code,
            this: if fun.flags.is_static() { None } else { o },
            params: fun.parameters.iter().copied().zip(args.iter().cloned()).collect(),
            locals,
        };
        let ret = fun.return_type.is_some();
        let r = self.exec(&mut fr, ret, depth).map_err(|e| if e.contains(" in ") { e } else { format!("{e} in {}", self.name(f).unwrap_or_default()) })?;
        if let Some(t) = fun.return_type {
            self.must_fit(t, &r, "the result").map_err(|e| format!("{e} in {}", self.name(f).unwrap_or_default()))?;
        }
        for (p, a) in fun.parameters.iter().zip(args) {
            *a = fr.params.remove(p).ok_or("a parameter twice")?;
        }
        Ok(r)
    }
    fn exec(&mut self, fr: &mut Frame<'_>, ret: bool, depth: u32) -> R<Val> {
        let mut pc = 0usize;
        while pc < fr.code.len() {
            self.steps += 1;
            if self.steps > 4_000_000 {
                return Err("the code runs on and on".into());
            }
            let (at, i) = &fr.code[pc];
            match i {
                Instr::Jump(off) => pc = jump(fr.code, *at, *off)?,
                Instr::JumpIfFalse(off) => {
                    let to = jump(fr.code, *at, *off)?;
                    let (v, n) = self.eval(fr, pc + 1, depth)?;
                    match v {
                        Val::Bool(true) => pc = n,
                        Val::Bool(false) => pc = to,
                        v => return Err(format!("condition is {v:?}")),
                    }
                }
                Instr::Return => {
                    if !ret {
                        return Ok(Val::Void);
                    }
                    return Ok(self.eval(fr, pc + 1, depth)?.0);
                }
                Instr::Switch(t, first) => {
                    let mut case = jump(fr.code, *at, *first)?;
                    let (v, n) = self.eval(fr, pc + 1, depth)?;
                    self.must_fit(*t, &v, "the value of a switch")?;
                    if n != case {
                        return Err("the cases do not follow the switch".into());
                    }
                    pc = loop {
                        match fr.code.get(case) {
                            Some((at, Instr::SwitchLabel(next, body))) => {
                                let (next, body) = (jump(fr.code, *at, *next)?, jump(fr.code, *at, *body)?);
                                let (m, _) = self.eval(fr, case + 1, depth)?;
                                if m == v {
                                    break body;
                                }
                                case = next;
                            }
                            Some((_, Instr::SwitchDefault)) => break case + 1,
                            _ => break case,
                        }
                    };
                }
                Instr::Nop | Instr::SwitchDefault => pc += 1,
                // from the body before
                Instr::SwitchLabel(_, body) => pc = jump(fr.code, *at, *body)?,
                _ => pc = self.eval(fr, pc, depth)?.1,
            }
        }
        if ret {
            return Err("the function ends without a value".into());
        }
        Ok(Val::Void)
    }
    /// The arguments; for an `out` parameter the place it stands for.
    #[allow(clippy::type_complexity)]
    fn args(&mut self, fr: &mut Frame<'_>, f: PoolIndex<Function>, mut pc: usize, depth: u32) -> R<(Vec<Val>, Vec<(usize, Place)>, usize)> {
        let (mut v, mut outs) = (vec![], vec![]);
        let fun = self.pool.function(f).map_err(|e| e.to_string())?;
        let short = self.name(f)?.split(';').next().unwrap_or("").to_string();
        loop {
            let par = match fun.parameters.get(v.len()) {
                Some(p) => Some(self.pool.parameter(*p).map_err(|e| e.to_string())?),
                None => None,
            };
            match (fr.code.get(pc).cloned(), par) {
                (Some((_, Instr::ParamEnd)), None) => break pc += 1,
                (Some(_), None) | (Some((_, Instr::ParamEnd)), Some(_)) => return Err(format!("{short} called with {} arguments or more", v.len())),
                (Some((_, Instr::Nop)), Some(p)) => {
                    if !p.flags.is_optional() {
                        return Err(format!("{short} called without an argument"));
                    }
                    v.push(self.zero(p.type_)?);
                    pc += 1;
                }
                (Some(_), Some(p)) if p.flags.is_out() => {
                    let (place, n) = self.place(fr, pc, depth)?;
                    outs.push((v.len(), place));
                    v.push(Val::Void);
                    pc = n;
                }
                (Some((at, Instr::Skip(off))), Some(p)) => {
                    if !p.flags.is_short_circuit() {
                        return Err("an argument to skip".into());
                    }
                    let end = jump(fr.code, at, off)?;
                    let done = matches!((short.as_str(), v.last()), ("OperatorLogicAnd", Some(Val::Bool(false))) | ("OperatorLogicOr", Some(Val::Bool(true))));
                    if done {
                        v.push(Val::Bool(short == "OperatorLogicOr"));
                    } else {
                        let (x, n) = self.eval(fr, pc + 1, depth)?;
                        if n != end {
                            return Err("an argument does not end where it says".into());
                        }
                        v.push(x);
                    }
                    pc = end;
                }
                (Some(_), Some(p)) => {
                    if p.flags.is_short_circuit() {
                        return Err("an argument that cannot be skipped".into());
                    }
                    let (x, n) = self.eval(fr, pc, depth)?;
                    v.push(x);
                    pc = n;
                }
                (None, _) => return Err("no end of the arguments".into()),
            }
        }
        Ok((v, outs, pc))
    }
    /// A conversion from or to an enum has to say its type and how many bytes it takes.
    fn enum_of(&self, t: PoolIndex<Type>, size: u8) -> R<()> {
        let name = self.pool.def_name(t).map_err(|e| e.to_string())?;
        let found = self.pool.definitions().find_map(|(i, d)| match &d.value {
            AnyDefinition::Enum(e) if self.pool.def_name(i).is_ok_and(|n| n == name) => Some(e.size),
            _ => None,
        });
        match found {
            Some(s) if s == size => Ok(()),
            Some(s) => Err(format!("an enum {name} of {s} bytes is converted as {size} bytes")),
            None => Err(format!("{name} is converted as an enum")),
        }
    }
    fn eval(&mut self, fr: &mut Frame<'_>, pc: usize, depth: u32) -> R<(Val, usize)> {
        self.steps += 1;
        let Some((at, i)) = fr.code.get(pc).cloned() else { return Err("the code ends in an expression".into()) };
        let this = |fr: &Frame<'_>| fr.this.ok_or_else(|| "no this".to_string());
        Ok(match i {
            Instr::I32Const(n) => (Val::Int(n), pc + 1),
            Instr::I32Zero => (Val::Int(0), pc + 1),
            Instr::I32One => (Val::Int(1), pc + 1),
            Instr::I8Const(n) => (Val::Int(n.into()), pc + 1),
            Instr::I16Const(n) => (Val::Int(n.into()), pc + 1),
            Instr::TrueConst => (Val::Bool(true), pc + 1),
            Instr::FalseConst => (Val::Bool(false), pc + 1),
            Instr::Null => (Val::Null, pc + 1),
            Instr::Param(p) => (fr.params.get(&p).cloned().ok_or("a parameter of another function")?, pc + 1),
            Instr::Local(l) => (fr.locals.get(&l).cloned().ok_or("a local of another function")?, pc + 1),
            Instr::This => (Val::Obj(this(fr)?), pc + 1),
            Instr::New(c) => (Val::Obj(self.new_obj(c)), pc + 1),
            Instr::ObjectField(_) | Instr::StructField(_) | Instr::ArrayElement(_) | Instr::StaticArrayElement(_) => {
                let (p, n) = self.place(fr, pc, depth)?;
                (self.read(fr, &p)?, n)
            }
            Instr::Assign => {
                let (p, n) = self.place(fr, pc + 1, depth)?;
                let (v, n) = self.eval(fr, n, depth)?;
                self.write(fr, &p, v.clone())?;
                (v, n)
            }
            Instr::StringConst(s) => (Val::Str(self.pool.strings.get(s).map_err(|e| e.to_string())?.to_string()), pc + 1),
            Instr::EnumConst(_, m) => (Val::Enum(self.pool.enum_value(m).map_err(|e| e.to_string())?), pc + 1),
            Instr::EnumToI32(t, size) => {
                self.enum_of(t, size)?;
                match self.eval(fr, pc + 1, depth)? {
                    (Val::Enum(v), n) => (Val::Int(v as i32), n),
                    (v, _) => return Err(format!("the number of {v:?}")),
                }
            }
            Instr::I32ToEnum(t, size) => {
                self.enum_of(t, size)?;
                match self.eval(fr, pc + 1, depth)? {
                    (Val::Int(v), n) => (Val::Enum(v.into()), n),
                    (v, _) => return Err(format!("an enum of {v:?}")),
                }
            }
            Instr::U64Const(n) => (Val::Num(lang::Num::W(n)), pc + 1),
            Instr::I64Const(n) => (Val::Num(lang::Num::L(n)), pc + 1),
            Instr::U32Const(n) => (Val::Num(lang::Num::U(n)), pc + 1),
            Instr::F32Const(n) => (Val::Num(lang::Num::F(n)), pc + 1),
            Instr::F64Const(n) => (Val::Num(lang::Num::D(n)), pc + 1),
            Instr::WeakRefNull => (Val::Weak(None), pc + 1),
            Instr::NameConst(s) if s.is_undefined() => (Val::Name(String::new()), pc + 1),
            Instr::NameConst(s) => (Val::Name(self.pool.names.get(s).map_err(|e| e.to_string())?.to_string()), pc + 1),
            Instr::TweakDbIdConst(s) if s.is_undefined() => (Val::Id(String::new()), pc + 1),
            Instr::TweakDbIdConst(s) => (Val::Id(self.pool.tweakdb_ids.get(s).map_err(|e| e.to_string())?.to_string()), pc + 1),
            Instr::ResourceConst(s) if s.is_undefined() => (Val::Res(String::new()), pc + 1),
            Instr::ResourceConst(s) => (Val::Res(self.pool.resources.get(s).map_err(|e| e.to_string())?.to_string()), pc + 1),
            Instr::ToVariant(t) => {
                let (v, n) = self.eval(fr, pc + 1, depth)?;
                self.must_fit(t, &v, "what is put into a variant")?;
                (Val::Any(t, Box::new(v)), n)
            }
            Instr::FromVariant(t) => match self.eval(fr, pc + 1, depth)? {
                (Val::Any(u, v), n) if t == u => (*v, n),
                (Val::Any(..), n) => (self.zero(t)?, n),
                (v, _) => return Err(format!("what is in {v:?}")),
            },
            Instr::VariantIsRef | Instr::VariantIsArray | Instr::VariantTypeName => match self.eval(fr, pc + 1, depth)? {
                (Val::Any(u, _), n) => {
                    let t = self.pool.type_(u).map_err(|e| e.to_string())?;
                    let v = match i {
                        Instr::VariantIsRef => Val::Bool(matches!(t, Type::Ref(_))),
                        Instr::VariantIsArray => Val::Bool(matches!(t, Type::Array(_))),
                        _ => Val::Name(self.name(u)?),
                    };
                    (v, n)
                }
                (v, _) => return Err(format!("the type of {v:?}")),
            },
            Instr::ToString(t) => {
                let (v, n) = self.eval(fr, pc + 1, depth)?;
                self.must_fit(t, &v, "what is made a text")?;
                let s = match v {
                    Val::Int(v) => v.to_string(),
                    Val::Num(v) => v.text(),
                    Val::Name(v) | Val::Str(v) => v,
                    v => return Err(format!("the text of {v:?}")),
                };
                (Val::Str(s), n)
            }
            Instr::AsRef(t) => {
                let (v, n) = self.eval(fr, pc + 1, depth)?;
                self.must_fit(t, &v, "what is referred to")?;
                (Val::At(Box::new(v)), n)
            }
            Instr::Deref(t) => {
                let (v, n) = self.eval(fr, pc + 1, depth)?;
                self.must_fit(t, &v, "what is looked up")?;
                let Val::At(v) = v else { return Err(format!("what {v:?} refers to")) };
                (*v, n)
            }
            Instr::RefToWeakRef => match self.eval(fr, pc + 1, depth)? {
                (Val::Obj(o), n) => (Val::Weak(Some(o)), n),
                (Val::Null, n) => (Val::Weak(None), n),
                (v, _) => return Err(format!("a weak reference of {v:?}")),
            },
            Instr::WeakRefToRef => match self.eval(fr, pc + 1, depth)? {
                (Val::Weak(Some(o)), n) => (Val::Obj(o), n),
                (Val::Weak(None), n) => (Val::Null, n),
                (v, _) => return Err(format!("a reference of {v:?}")),
            },
            Instr::RefToBool => match self.eval(fr, pc + 1, depth)? {
                (v @ (Val::Obj(_) | Val::Null), n) => (Val::Bool(v != Val::Null), n),
                (v, _) => return Err(format!("whether {v:?} is defined")),
            },
            Instr::WeakRefToBool => match self.eval(fr, pc + 1, depth)? {
                (Val::Weak(o), n) => (Val::Bool(o.is_some()), n),
                (v, _) => return Err(format!("whether {v:?} is defined")),
            },
            Instr::DynamicCast(c, _) => match self.eval(fr, pc + 1, depth)? {
                (Val::Obj(o), n) => (if self.kind(self.heap[o].0, c)? { Val::Obj(o) } else { Val::Null }, n),
                (v, _) => return Err(format!("a cast of {v:?}")),
            },
            Instr::Construct(k, c) => {
                let mut v = vec![];
                let mut n = pc + 1;
                for _ in 0..k {
                    let (x, m) = self.eval(fr, n, depth)?;
                    v.push(x);
                    n = m;
                }
                (self.construct(c, v)?, n)
            }
            Instr::Equals(t) | Instr::NotEquals(t) => {
                let (a, n) = self.eval(fr, pc + 1, depth)?;
                let (b, n) = self.eval(fr, n, depth)?;
                self.must_fit(t, &a, "what is compared")?;
                self.must_fit(t, &b, "what it is compared with")?;
                (Val::Bool((a == b) == matches!(i, Instr::Equals(_))), n)
            }
            Instr::ArrayClear(_) | Instr::ArraySize(_) | Instr::ArrayLast(_) | Instr::ArrayPop(_) => {
                let (p, n) = self.place(fr, pc + 1, depth)?;
                (self.array(fr, &p, &i, &[])?, n)
            }
            Instr::ArrayPush(_) | Instr::ArrayContains(_) | Instr::ArrayCount(_) | Instr::ArrayFindFirst(_) | Instr::ArrayFindLast(_) | Instr::ArrayErase(_) | Instr::ArrayRemove(_) | Instr::ArrayResize(_) | Instr::ArrayGrow(_) => {
                let (p, n) = self.place(fr, pc + 1, depth)?;
                let (v, n) = self.eval(fr, n, depth)?;
                (self.array(fr, &p, &i, &[v])?, n)
            }
            Instr::ArrayInsert(_) => {
                let (p, n) = self.place(fr, pc + 1, depth)?;
                let (v, n) = self.eval(fr, n, depth)?;
                let (w, n) = self.eval(fr, n, depth)?;
                (self.array(fr, &p, &i, &[v, w])?, n)
            }
            Instr::Context(off) => {
                let end = jump(fr.code, at, off)?;
                let (v, n) = self.eval(fr, pc + 1, depth)?;
                let Val::Obj(o) = v else { return Err(format!("a member of {v:?}")) };
                let was = fr.this.replace(o);
                // arguments are evaluated in the caller's context
                let r = self.member(fr, n, depth, was);
                fr.this = was;
                let (v, n) = r?;
                if n != end {
                    return Err("a context does not end where it says".into());
                }
                (v, n)
            }
            Instr::InvokeStatic(..) | Instr::InvokeVirtual(..) => self.member(fr, pc, depth, fr.this)?,
            Instr::Conditional(f, exit) => {
                let (to, end) = (jump(fr.code, at, f)?, jump(fr.code, at, exit)?);
                let (v, n) = self.eval(fr, pc + 1, depth)?;
                let (v, n) = match v {
                    Val::Bool(true) => self.eval(fr, n, depth)?,
                    Val::Bool(false) => self.eval(fr, to, depth)?,
                    v => return Err(format!("condition is {v:?}")),
                };
                let _ = n;
                (v, end)
            }
            i => return Err(format!("the game does not know {i:?} here")),
        })
    }
    /// A call or field on the object in `fr.this`; arguments see `outer` as this.
    fn member(&mut self, fr: &mut Frame<'_>, pc: usize, depth: u32, outer: Option<usize>) -> R<(Val, usize)> {
        let Some((at, i)) = fr.code.get(pc).cloned() else { return Err("the code ends in a member".into()) };
        let target = fr.this;
        let (off, f) = match i {
            Instr::InvokeStatic(off, _, f, _) => (off, f),
            Instr::InvokeVirtual(off, _, name, _) => {
                let n = self.pool.names.get(name).map_err(|e| e.to_string())?;
                let o = target.ok_or("a virtual call without this")?;
                let f = self.method(self.heap[o].0, &|m| m == n.as_ref())?;
                (off, f)
            }
            _ => return self.eval(fr, pc, depth),
        };
        let end = jump(fr.code, at, off)?;
        fr.this = outer;
        let r = self.args(fr, f, pc + 1, depth);
        fr.this = target;
        let (mut a, outs, n) = r?;
        if n != end {
            return Err("a call does not end where it says".into());
        }
        for (k, p) in &outs {
            a[*k] = self.read(fr, p)?;
        }
        let v = self.invoke_mut(target, f, &mut a, depth + 1)?;
        for (k, p) in &outs {
            self.write(fr, p, std::mem::replace(&mut a[*k], Val::Void))?;
        }
        Ok((v, n))
    }
    fn place(&mut self, fr: &mut Frame<'_>, pc: usize, depth: u32) -> R<(Place, usize)> {
        match fr.code.get(pc).cloned() {
            Some((_, Instr::Local(l))) => Ok((Place { root: Root::Local(l), parts: vec![] }, pc + 1)),
            Some((_, Instr::Param(p))) => Ok((Place { root: Root::Param(p), parts: vec![] }, pc + 1)),
            Some((_, Instr::ObjectField(f))) => {
                let o = fr.this.ok_or("no this")?;
                self.owns(o, f)?;
                Ok((Place { root: Root::Field(o, f), parts: vec![] }, pc + 1))
            }
            Some((_, Instr::StructField(f))) => {
                let (mut p, n) = self.place(fr, pc + 1, depth)?;
                p.parts.push(Part::Field(f));
                Ok((p, n))
            }
            Some((_, ref i @ (Instr::ArrayElement(t) | Instr::StaticArrayElement(t)))) => {
                let (mut p, n) = self.place(fr, pc + 1, depth)?;
                match (&i, self.pool.type_(t).map_err(|e| e.to_string())?) {
                    (Instr::ArrayElement(_), Type::Array(_)) | (Instr::StaticArrayElement(_), Type::StaticArray(..)) => {}
                    (i, _) => return Err(format!("{i:?} for a {}", self.name(t)?)),
                }
                let v = self.read(fr, &p)?;
                self.must_fit(t, &v, "the array")?;
                let (i, n) = self.eval(fr, n, depth)?;
                p.parts.push(Part::Index(match i {
                    Val::Int(i) => i,
                    Val::Num(lang::Num::W(i)) => i as i32,
                    _ => return Err("the index is no number".into()),
                }));
                Ok((p, n))
            }
            Some((at, Instr::Context(off))) => {
                let end = jump(fr.code, at, off)?;
                let (v, n) = self.eval(fr, pc + 1, depth)?;
                let Val::Obj(o) = v else { return Err(format!("a member of {v:?}")) };
                let was = fr.this.replace(o);
                let r = self.place(fr, n, depth);
                fr.this = was;
                let (p, n) = r?;
                if n != end {
                    return Err("a context does not end where it says".into());
                }
                Ok((p, n))
            }
            // what is no place is a value of its own
            Some(_) => {
                let (v, n) = self.eval(fr, pc, depth)?;
                Ok((Place { root: Root::Value(v), parts: vec![] }, n))
            }
            None => Err("the code ends in a place".into()),
        }
    }
    fn slot<'v>(&'v mut self, fr: &'v mut Frame<'_>, p: &'v mut Place, none: &'v mut Val) -> R<&'v mut Val> {
        let mut x = match &mut p.root {
            Root::Local(l) => fr.locals.get_mut(l).ok_or("a local of another function")?,
            Root::Param(l) => fr.params.get_mut(l).ok_or("a parameter of another function")?,
            Root::Field(o, f) => {
                if !self.heap[*o].1.contains_key(f) {
                    let z = self.zero(self.pool.field(*f).map_err(|e| e.to_string())?.type_)?;
                    self.heap[*o].1.insert(*f, z);
                }
                self.heap[*o].1.get_mut(f).unwrap()
            }
            Root::Value(v) => v,
        };
        for q in &p.parts {
            x = match (q, x) {
                (Part::Field(f), Val::Struct(m)) => m.get_mut(f).ok_or("a field of another struct")?,
                // an element there is not: zero to read, nothing to write
                (Part::Index(i), Val::Arr(l)) if usize::try_from(*i).map_or(true, |i| i >= l.len()) => return Ok(none),
                (Part::Index(i), Val::Arr(l)) => &mut l[*i as usize],
                (_, x) => return Err(format!("a part of {x:?}")),
            };
        }
        Ok(x)
    }
    fn read(&mut self, fr: &mut Frame<'_>, p: &Place) -> R<Val> {
        let (mut p, mut none) = (p.clone(), Val::Int(0));
        self.slot(fr, &mut p, &mut none).map(|v| v.clone())
    }
    fn write(&mut self, fr: &mut Frame<'_>, p: &Place, v: Val) -> R<()> {
        if let Root::Value(_) = p.root {
            return Err("an assignment to a value".into());
        }
        if p.parts.is_empty() {
            let t = match p.root {
                Root::Local(l) => self.pool.local(l).map_err(|e| e.to_string())?.type_,
                Root::Param(l) => self.pool.parameter(l).map_err(|e| e.to_string())?.type_,
                Root::Field(_, f) => self.pool.field(f).map_err(|e| e.to_string())?.type_,
                Root::Value(_) => unreachable!(),
            };
            self.must_fit(t, &v, "what is assigned")?;
        }
        let (mut p, mut none) = (p.clone(), Val::Int(0));
        let s = self.slot(fr, &mut p, &mut none)?;
        if !alike(s, &v) {
            return Err(format!("{v:?} put where {s:?} is"));
        }
        *s = v;
        Ok(())
    }
    fn array(&mut self, fr: &mut Frame<'_>, p: &Place, i: &Instr<Offset>, a: &[Val]) -> R<Val> {
        let (mut p, mut none) = (p.clone(), Val::Int(0));
        if let Instr::ArrayClear(t) | Instr::ArraySize(t) | Instr::ArrayLast(t) | Instr::ArrayPop(t) | Instr::ArrayPush(t) | Instr::ArrayContains(t) | Instr::ArrayCount(t) | Instr::ArrayFindFirst(t) | Instr::ArrayFindLast(t) | Instr::ArrayErase(t) | Instr::ArrayRemove(t) | Instr::ArrayResize(t) | Instr::ArrayGrow(t) | Instr::ArrayInsert(t) = i {
            let Type::Array(e) = self.pool.type_(*t).map_err(|e| e.to_string())? else { return Err(format!("{i:?} for a {}", self.name(*t)?)) };
            let v = self.read(fr, &p)?;
            self.must_fit(*t, &v, "the array")?;
            match i {
                Instr::ArrayPush(_) | Instr::ArrayContains(_) | Instr::ArrayCount(_) | Instr::ArrayFindFirst(_) | Instr::ArrayFindLast(_) | Instr::ArrayRemove(_) => self.must_fit(*e, &a[0], "an element")?,
                Instr::ArrayInsert(_) => self.must_fit(*e, &a[1], "an element")?,
                _ => {}
            }
        }
        let zero = match i {
            Instr::ArrayResize(t) | Instr::ArrayGrow(t) => match self.pool.type_(*t).map_err(|e| e.to_string())? {
                Type::Array(t) => self.zero(*t)?,
                _ => return Err(format!("{i:?} for what is no array")),
            },
            _ => Val::Int(0),
        };
        let Val::Arr(l) = self.slot(fr, &mut p, &mut none)? else { return Err(format!("{i:?} of what is no array")) };
        let idx = |v: &Val| match v {
            Val::Int(n) => Ok(usize::try_from(*n).unwrap_or(usize::MAX)),
            Val::Num(lang::Num::W(n)) => Ok(*n as usize),
            v => Err(format!("index {v:?}")),
        };
        Ok(match i {
            Instr::ArrayClear(_) => {
                l.clear();
                Val::Void
            }
            Instr::ArraySize(_) => Val::Int(l.len() as i32),
            Instr::ArrayLast(_) => l.last().cloned().unwrap_or(Val::Int(0)),
            Instr::ArrayPop(_) => l.pop().unwrap_or(Val::Int(0)),
            Instr::ArrayPush(_) => {
                l.push(a[0].clone());
                Val::Void
            }
            Instr::ArrayContains(_) => Val::Bool(l.contains(&a[0])),
            Instr::ArrayFindFirst(_) => Val::Int(l.iter().position(|x| *x == a[0]).map_or(-1, |k| k as i32)),
            Instr::ArrayFindLast(_) => Val::Int(l.iter().rposition(|x| *x == a[0]).map_or(-1, |k| k as i32)),
            Instr::ArrayCount(_) => Val::Int(l.iter().filter(|x| **x == a[0]).count() as i32),
            Instr::ArrayInsert(_) => {
                let k = idx(&a[0])?;
                if k <= l.len() {
                    l.insert(k, a[1].clone());
                }
                Val::Void
            }
            Instr::ArrayErase(_) => {
                let k = idx(&a[0])?;
                let there = k < l.len();
                if there {
                    l.remove(k);
                }
                Val::Bool(there)
            }
            Instr::ArrayRemove(_) => {
                let k = l.iter().position(|x| *x == a[0]);
                if let Some(k) = k {
                    l.remove(k);
                }
                Val::Bool(k.is_some())
            }
            Instr::ArrayResize(_) => {
                l.resize(idx(&a[0])?.min(1000), zero);
                Val::Void
            }
            Instr::ArrayGrow(_) => {
                let n = l.len() + idx(&a[0])?.min(1000);
                l.resize(n, zero);
                Val::Void
            }
            i => return Err(format!("{i:?}")),
        })
    }
    /// The field is one of the object's class or its bases.
    fn owns(&self, o: usize, f: PoolIndex<Field>) -> R<()> {
        let mut at = self.heap[o].0;
        loop {
            let c = self.pool.class(at).map_err(|e| e.to_string())?;
            if c.fields.contains(&f) {
                return Ok(());
            }
            if c.base.is_undefined() {
                return Err(format!("{} has no such field", self.name(self.heap[o].0)?));
            }
            at = c.base;
        }
    }
    pub fn fields(&self, o: usize) -> R<BTreeMap<String, i32>> {
        let mut m = BTreeMap::new();
        for (f, v) in &self.heap[o].1 {
            match v {
                Val::Int(0) => {}
                Val::Int(v) => {
                    m.insert(self.name(*f)?, *v);
                }
                Val::Arr(l) => {
                    for (k, v) in l.iter().enumerate().filter(|(_, v)| **v != Val::Int(0)) {
                        let Val::Int(v) = v else { return Err("an element is no number".into()) };
                        m.insert(format!("{}[{k}]", self.name(*f)?), *v);
                    }
                }
                _ => return Err("a field is no number".into()),
            }
        }
        Ok(m)
    }
    pub fn free(&self, n: &str, is: &dyn Fn(&str) -> bool) -> R<PoolIndex<Function>> {
        let l: Vec<_> = self.free.iter().filter(|(k, _)| is(k)).collect();
        match l[..] {
            [(_, f)] => Ok(*f),
            _ => Err(format!("{} functions {n}", l.len())),
        }
    }
}

#[derive(Clone)]
enum Root {
    Local(PoolIndex<Local>),
    Param(PoolIndex<Parameter>),
    Field(usize, PoolIndex<Field>),
    Value(Val),
}
#[derive(Clone)]
enum Part {
    Field(PoolIndex<Field>),
    Index(i32),
}
#[derive(Clone)]
struct Place {
    root: Root,
    parts: Vec<Part>,
}

fn jump(code: &[(u16, Instr<Offset>)], at: u16, off: Offset) -> R<usize> {
    let to = i64::from(at) + i64::from(off.value);
    match code.binary_search_by_key(&to, |c| i64::from(c.0)) {
        Ok(mut n) => {
            // (labels take no room: the first instruction at the place)
            while n > 0 && i64::from(code[n - 1].0) == to {
                n -= 1;
            }
            Ok(n)
        }
        Err(n) if n == code.len() && code.last().map_or(0, |c| i64::from(c.0) + i64::from(c.1.size())) == to => Ok(n),
        Err(_) => Err(format!("a jump to {to}, where no instruction begins")),
    }
}

/// Runs every method on objects of every class and compares with the reference; the number of calls compared.
pub fn play(ctx: &mut Ctx, bytes: &[u8], w: &mut World) -> R<u64> {
    let b = ScriptBundle::load(&mut std::io::Cursor::new(bytes)).map_err(|e| format!("the game cannot load it: {e}"))?;
    let mut vm = Vm::new(&b.pool)?;
    let mut compared = 0;
    let methods = w.all_methods();
    let classes: Vec<String> = w.bases.keys().cloned().collect();
    for class in &classes {
        let c = vm.class(class)?;
        for (mc, m, params) in &methods {
            if !w.is_kind(class, mc) || (w.find(class, m).map(|k| k.0) != Some(mc.clone())) {
                continue;
            }
            let is_static = w.statics.contains(&(mc.clone(), m.clone()));
            if is_static && mc != class {
                continue;
            }
            let args: Vec<i32> = (0..*params).map(|_| ctx.ch.draw(30) as i32).collect();
            let mut o = Obj { class: class.clone(), fields: BTreeMap::new() };
            for f in ["hp", "armor"] {
                if w.is_kind(class, "Player") {
                    o.fields.insert(f.into(), 1 + args.first().copied().unwrap_or(5));
                }
            }
            let start = o.fields.clone();
            w.steps = 0;
            let Some(want) = w.call(&mut o, class, m, &args) else {
                ctx.count("calls.too_long");
                continue;
            };
            let id = vm.new_obj(c);
            for (n, v) in &start {
                let f = field(&vm, c, n)?;
                vm.heap[id].1.insert(f, Val::Int(*v));
            }
            vm.steps = 0;
            let f = vm.method(c, &|n| meant(n, m, *params)).map_err(|e| format!("{class}.{m}: {e}"))?;
            let got = vm
                .invoke(if is_static { None } else { Some(id) }, f, values(m, &args), 0)
                .map_err(|e| format!("{class}.{m}{args:?}: {e}"))?;
            let void = w.methods[&(mc.clone(), m.clone())][0].void;
            if !(void && got == Val::Void || !void && got == Val::Int(want)) {
                return Err(format!("{class}.{m}{args:?} gives {got:?} in the game, as written it is {want}"));
            }
            if !is_static {
                let is = vm.fields(id)?;
                o.fields.retain(|_, v| *v != 0);
                if is != o.fields {
                    return Err(format!("{class}.{m}{args:?} leaves {is:?} in the game, as written {:?}", o.fields));
                }
            }
            vm.heap.clear();
            compared += 1;
        }
    }
    for (n, params) in w.all_free() {
        let args: Vec<i32> = (0..params).map(|_| ctx.ch.draw(30) as i32).collect();
        w.steps = 0;
        let Some(want) = w.call_free(&n, &args) else { continue };
        vm.steps = 0;
        let f = vm.free(&n, &|k| meant(k, &n, params))?;
        let got = vm.invoke(None, f, values(&n, &args), 0).map_err(|e| format!("{n}{args:?}: {e}"))?;
        if got != Val::Int(want) {
            return Err(format!("{n}{args:?} gives {got:?} in the game, as written it is {want}"));
        }
        vm.heap.clear();
        compared += 1;
    }
    // what mods bring along
    let modules: BTreeSet<String> = w.progs.iter().filter_map(|p| p.module.clone()).collect();
    let mut r = lang::In::new(w.progs.iter(), &modules);
    for p in w.progs.iter().filter(|p| !p.entry.is_empty()) {
        let name = p.module.as_ref().map_or(p.entry.clone(), |m| format!("{m}.{}", p.entry));
        let f = vm.free(&name, &|k| k.split(';').next() == Some(&name))?;
        for _ in 0..3 {
            let args: Vec<i32> = (0..2).map(|_| ctx.ch.draw(60) as i32 - 10).collect();
            let Some(want) = r.run(&p.entry, &args) else {
                ctx.count("calls.too_long");
                continue;
            };
            vm.steps = 0;
            let got = vm.invoke(None, f, args.iter().map(|a| Val::Int(*a)).collect(), 0).map_err(|e| format!("{name}{args:?}: {e}"))?;
            let lang::V::S(want) = want else { return Err(format!("{name}: no text")) };
            if got != Val::Str(want.clone()) {
                return Err(format!("{name}{args:?} gives {got:?} in the game, as written it is {want:?}"));
            }
            vm.heap.clear();
            compared += 1;
            ctx.count("game.programs");
        }
    }
    Ok(compared)
}

fn field(vm: &Vm<'_>, c: PoolIndex<Class>, n: &str) -> R<PoolIndex<Field>> {
    let mut at = c;
    loop {
        let cls = vm.pool.class(at).map_err(|e| e.to_string())?;
        for f in &cls.fields {
            if vm.name(*f)? == n {
                return Ok(*f);
            }
        }
        if cls.base.is_undefined() {
            return Err(format!("no field {n}"));
        }
        at = cls.base;
    }
}

/// What the game shipped is still there, unchanged, except where mods ask for it.
pub fn conserved(base: &[u8], out: &[u8], items: &[&Item]) -> R<()> {
    let load = |b: &[u8]| ScriptBundle::load(&mut std::io::Cursor::new(b)).map_err(|e| e.to_string());
    let (a, b) = (load(base)?, load(out)?);
    let touched = |class: &str, m: &str| {
        items.iter().any(|i| match i {
            Item::Wrap { class: c, name, f, .. } | Item::Replace { class: c, name, f, .. } => c == class && meant(m, name, f.params),
            Item::ReplaceGlobal { name, f } => class.is_empty() && meant(m, name, f.params),
            _ => false,
        })
    };
    for (i, d) in a.pool.definitions() {
        let e = b.pool.definition(i).map_err(|_| format!("definition {i} is gone"))?;
        let what = format!("{i} {:?}", a.pool.def_name(i).map(|n| n.to_string()).unwrap_or_default());
        match (&d.value, &e.value) {
            (AnyDefinition::Class(x), AnyDefinition::Class(y)) => {
                let grows = ["Player", "Enemy"].contains(&a.pool.def_name(i).map_err(|e| e.to_string())?.as_ref());
                let same = x.base == y.base && x.visibility == y.visibility && x.overrides == y.overrides
                    && y.functions.starts_with(&x.functions) && y.fields.starts_with(&x.fields);
                let more = y.functions.len() != x.functions.len() || y.fields.len() != x.fields.len();
                if !same || more && !grows || d.name != e.name || d.parent != e.parent {
                    return Err(format!("class {what} has changed"));
                }
            }
            (AnyDefinition::Function(_), AnyDefinition::Function(_)) => {
                let class = if d.parent.is_undefined() { String::new() } else { a.pool.def_name(d.parent).map_err(|e| e.to_string())?.to_string() };
                let n = a.pool.def_name(i).map_err(|e| e.to_string())?.to_string();
                if !touched(&class, &n) && format!("{d:?}") != format!("{e:?}") {
                    return Err(format!("function {what} of {class:?} has changed"));
                }
                let en = b.pool.def_name(i).map_err(|e| e.to_string())?;
                if en.as_ref() != n {
                    return Err(format!("function {what} is called {en} now"));
                }
                let (df, ef) = (d.value.as_function().unwrap(), e.value.as_function().unwrap());
                if df.flags.is_callback() != ef.flags.is_callback() || df.flags.is_static() != ef.flags.is_static() || df.flags.is_final() != ef.flags.is_final() || df.base_method != ef.base_method {
                    return Err(format!("function {what} of {class:?} is another kind of function now"));
                }
            }
            (x, y) => {
                if format!("{x:?}") != format!("{y:?}") || d.name != e.name || d.parent != e.parent {
                    return Err(format!("definition {what} has changed"));
                }
            }
        }
    }
    for n in 0.. {
        let Ok(s) = a.pool.names.get(PoolIndex::new(n)) else { break };
        if b.pool.names.get(PoolIndex::new(n)).ok() != Some(s.clone()) {
            return Err(format!("name {s} has changed"));
        }
    }
    // an added override says what it overrides
    for i in items {
        let Item::AddMethod { class, name, f, .. } = i else { continue };
        if class != "Enemy" || !["OnTick", "Scale", "Scale#2"].contains(&name.as_str()) {
            continue;
        }
        let mut found = false;
        for (x, d) in b.pool.definitions() {
            let AnyDefinition::Function(fun) = &d.value else { continue };
            let n = b.pool.def_name(x).map_err(|e| e.to_string())?.to_string();
            let parent = if d.parent.is_undefined() { String::new() } else { b.pool.def_name(d.parent).map_err(|e| e.to_string())?.to_string() };
            if parent != *class || !meant(&n, name, f.params) {
                continue;
            }
            found = true;
            let over = fun.base_method.and_then(|m| b.pool.definition(m.cast::<redscript::definition::Definition>()).ok().map(|md| (m, md.parent)));
            let over = over.map(|(m, p)| (b.pool.def_name(m).map(|s| s.to_string()).unwrap_or_default(), b.pool.def_name(p).map(|s| s.to_string()).unwrap_or_default()));
            if over != Some((n.clone(), "Player".into())) {
                return Err(format!("{n} of {class} is said to override {over:?}"));
            }
        }
        if !found {
            return Err(format!("{name} of {class} is missing"));
        }
    }
    // one callback per name and class
    for (i, d) in b.pool.definitions() {
        let AnyDefinition::Class(c) = &d.value else { continue };
        let mut seen = vec![];
        for f in &c.functions {
            let fun = b.pool.function(*f).map_err(|e| e.to_string())?;
            let n = b.pool.def_name(*f).map_err(|e| e.to_string())?.to_string();
            // (scripts with a warning do that)
            if seen.contains(&n) && !n.starts_with("Tok") {
                return Err(format!("{n} is twice in {i}"));
            }
            if fun.flags.is_callback() && (n.contains("wrapper$") || n.contains("proxy$")) {
                return Err(format!("{n} would be called back, too"));
            }
            seen.push(n);
        }
    }
    Ok(())
}
