//! Programs in the script language, with a reference interpreter for them: what a mod's own functions, classes, structs
//! and enums compute, as written. Nothing here uses the repository's code.
use simkit::Ctx;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Int,
    Bool,
    Str,
    Arr,
    Num(Nk),
    Name,
    Id,
    Res,
    /// an array of what is no Int32
    Ls(Box<Ty>),
    En(String),
    St(String),
    Ref(String),
    WRef(String),
    SRef,
}

/// The kinds of numbers other than Int32.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Nk {
    L,
    U,
    W,
    F,
    D,
}
pub const KINDS: [Nk; 5] = [Nk::L, Nk::U, Nk::W, Nk::F, Nk::D];
impl Nk {
    pub fn name(self) -> &'static str {
        match self {
            Nk::L => "Int64",
            Nk::U => "Uint32",
            Nk::W => "Uint64",
            Nk::F => "Float",
            Nk::D => "Double",
        }
    }
    pub fn of(self, n: i32) -> Num {
        match self {
            Nk::L => Num::L(n.into()),
            Nk::U => Num::U(n as u32),
            Nk::W => Num::W(n as u64),
            Nk::F => Num::F(n as f32),
            Nk::D => Num::D(n.into()),
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Num {
    L(i64),
    U(u32),
    W(u64),
    F(f32),
    D(f64),
}
impl Num {
    pub fn kind(self) -> Nk {
        match self {
            Num::L(_) => Nk::L,
            Num::U(_) => Nk::U,
            Num::W(_) => Nk::W,
            Num::F(_) => Nk::F,
            Num::D(_) => Nk::D,
        }
    }
    pub fn int(self) -> i32 {
        match self {
            Num::L(n) => n as i32,
            Num::U(n) => n as i32,
            Num::W(n) => n as i32,
            Num::F(n) => n as i32,
            Num::D(n) => n as i32,
        }
    }
    pub fn neg(self) -> Num {
        match self {
            Num::L(n) => Num::L(n.wrapping_neg()),
            Num::U(n) => Num::U(n.wrapping_neg()),
            Num::W(n) => Num::W(n.wrapping_neg()),
            Num::F(n) => Num::F(-n),
            Num::D(n) => Num::D(-n),
        }
    }
    pub fn text(self) -> String {
        match self {
            Num::L(n) => n.to_string(),
            Num::U(n) => n.to_string(),
            Num::W(n) => n.to_string(),
            Num::F(n) => n.to_string(),
            Num::D(n) => n.to_string(),
        }
    }
}
pub fn num(o: &str, a: Num, b: Num) -> Option<Num> {
    macro_rules! ints {
        ($k:path, $x:expr, $y:expr) => {
            $k(match o {
                "+" => $x.wrapping_add($y),
                "-" => $x.wrapping_sub($y),
                "*" => $x.wrapping_mul($y),
                _ => return None,
            })
        };
    }
    macro_rules! floats {
        ($k:path, $x:expr, $y:expr) => {
            $k(match o {
                "+" => $x + $y,
                "-" => $x - $y,
                "*" => $x * $y,
                _ => return None,
            })
        };
    }
    Some(match (a, b) {
        (Num::L(x), Num::L(y)) => ints!(Num::L, x, y),
        (Num::U(x), Num::U(y)) => ints!(Num::U, x, y),
        (Num::W(x), Num::W(y)) => ints!(Num::W, x, y),
        (Num::F(x), Num::F(y)) => floats!(Num::F, x, y),
        (Num::D(x), Num::D(y)) => floats!(Num::D, x, y),
        _ => return None,
    })
}
pub fn cmp(o: &str, a: Num, b: Num) -> Option<bool> {
    macro_rules! by {
        ($x:expr, $y:expr) => {
            match o {
                "<" => $x < $y,
                "<=" => $x <= $y,
                ">" => $x > $y,
                ">=" => $x >= $y,
                "==" => $x == $y,
                "!=" => $x != $y,
                _ => return None,
            }
        };
    }
    Some(match (a, b) {
        (Num::L(x), Num::L(y)) => by!(x, y),
        (Num::U(x), Num::U(y)) => by!(x, y),
        (Num::W(x), Num::W(y)) => by!(x, y),
        (Num::F(x), Num::F(y)) => by!(x, y),
        (Num::D(x), Num::D(y)) => by!(x, y),
        _ => return None,
    })
}

#[derive(Clone, Debug)]
pub enum E {
    I(i32),
    /// with its suffix, or as a plain number where the type is known
    Num(Num, bool),
    Name(String),
    Id(String),
    Res(String),
    Null,
    B(bool),
    S(String),
    V(String),
    This,
    Un(&'static str, Box<E>),
    Bin(&'static str, Box<E>, Box<E>),
    Cond(Box<E>, Box<E>, Box<E>),
    Interp(String, Vec<(E, String)>),
    Call(String, Vec<E>),
    Meth(Box<E>, String, Vec<E>),
    Super(String, Vec<E>),
    Static(String, String, Vec<E>),
    Get(Box<E>, String),
    Elem(Box<E>, Box<E>),
    Arr(Vec<E>),
    En(String, String),
    New(String, Vec<E>),
    As(Box<E>, String),
}

#[derive(Clone, Debug)]
pub enum S {
    Let(String, Ty, Option<E>, bool),
    Set(E, E),
    Op(&'static str, E, E),
    Do(E),
    If(E, Vec<S>, Vec<S>),
    While(E, Vec<S>),
    For(String, E, Vec<S>),
    Switch(E, Vec<(Vec<E>, Vec<S>)>, Option<Vec<S>>),
    Break,
    Ret(Option<E>),
}

#[derive(Clone, Debug)]
pub struct Fun {
    pub name: String,
    /// name, type, qualifier
    pub params: Vec<(String, Ty, &'static str)>,
    pub ret: Option<Ty>,
    pub body: Vec<S>,
    pub quals: &'static str,
    /// written as `= expression`
    pub short: bool,
}

#[derive(Clone, Debug)]
pub struct Cls {
    pub name: String,
    pub base: Option<String>,
    pub fields: Vec<(String, Ty)>,
    pub funs: Vec<Fun>,
}

#[derive(Clone, Debug, Default)]
pub struct Prog {
    pub entry: String,
    pub fns: Vec<Fun>,
    pub classes: Vec<Cls>,
    pub enums: Vec<(String, Vec<(String, i64)>)>,
    pub structs: Vec<(String, Vec<(String, Ty)>)>,
    /// the module, if this file says it is one
    pub module: Option<String>,
    /// functions there only when another module is (or is not)
    pub conds: Vec<(String, bool, Fun)>,
}

// ---------------------------------------------------------------- text

fn ty(t: &Ty) -> String {
    match t {
        Ty::Int => "Int32".into(),
        Ty::Bool => "Bool".into(),
        Ty::Str => "String".into(),
        Ty::Arr => "array<Int32>".into(),
        Ty::Num(k) => k.name().into(),
        Ty::Name => "CName".into(),
        Ty::Id => "TweakDBID".into(),
        Ty::Res => "ResRef".into(),
        Ty::Ls(t) => format!("array<{}>", ty(t)),
        Ty::En(n) | Ty::St(n) => n.clone(),
        Ty::Ref(n) => format!("ref<{n}>"),
        Ty::WRef(n) => format!("wref<{n}>"),
        Ty::SRef => "script_ref<String>".into(),
    }
}
fn prec(op: &str) -> u8 {
    match op {
        "||" => 1,
        "&&" => 2,
        "|" => 3,
        "^" => 4,
        "&" => 5,
        "==" | "!=" => 6,
        "<" | "<=" | ">" | ">=" => 7,
        "+" | "-" => 8,
        _ => 9,
    }
}
fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n").replace('\t', "\\t").replace('\'', "\\'")
}
/// Functions of one name and different parameters are `Name#1`, `Name#2` here.
fn shown(n: &str) -> &str {
    n.split('#').next().unwrap_or(n)
}
fn list(a: &[E]) -> String {
    a.iter().map(|e| ex(e, 0)).collect::<Vec<_>>().join(", ")
}
/// `up`: how tightly the place binds; 10 for an operand of a prefix operator, 11 for what comes before a dot.
fn ex(e: &E, up: u8) -> String {
    match e {
        E::I(n) if *n < 0 && up > 0 => format!("({n})"),
        E::I(n) => n.to_string(),
        E::Num(n, plain) => {
            let s = match n {
                Num::L(n) => format!("{n}{}", if *plain { "" } else { "l" }),
                Num::U(n) => format!("{n}u"),
                Num::W(n) => format!("{n}{}", if *plain { "u" } else { "ul" }),
                Num::F(n) => if *plain && n.fract() == 0.0 { n.to_string() } else { format!("{n:?}") },
                Num::D(n) if *plain => n.to_string(),
                Num::D(n) => format!("{n:?}d"),
            };
            if s.starts_with('-') && up > 0 { format!("({s})") } else { s }
        }
        E::Name(s) => format!("n\"{}\"", esc(s)),
        E::Id(s) => format!("t\"{}\"", esc(s)),
        E::Res(s) => format!("r\"{}\"", esc(s)),
        E::Null => "null".into(),
        E::B(b) => b.to_string(),
        E::S(s) => format!("\"{}\"", esc(s)),
        E::V(n) => n.clone(),
        E::This => "this".into(),
        E::Un(o, a) => {
            let s = format!("{o}{}", ex(a, 10));
            if up > 9 { format!("({s})") } else { s }
        }
        E::Bin(o, a, b) => {
            let p = prec(o);
            let s = format!("{} {o} {}", ex(a, p), ex(b, p + 1));
            if up > p { format!("({s})") } else { s }
        }
        E::Cond(c, a, b) => format!("({} ? {} : {})", ex(c, 1), ex(a, 0), ex(b, 0)),
        E::Interp(p, l) => {
            let mut s = format!("s\"{}", esc(p));
            for (e, t) in l {
                let _ = write!(s, "\\({}){}", ex(e, 0), esc(t));
            }
            s + "\""
        }
        E::Call(n, a) => format!("{}({})", shown(n), list(a)),
        E::Meth(o, n, a) => format!("{}.{}({})", ex(o, 11), shown(n), list(a)),
        E::Super(n, a) => format!("super.{}({})", shown(n), list(a)),
        E::Static(c, n, a) => format!("{c}.{n}({})", list(a)),
        E::Get(o, n) => format!("{}.{n}", ex(o, 11)),
        E::Elem(a, i) => format!("{}[{}]", ex(a, 11), ex(i, 0)),
        E::Arr(a) => format!("[{}]", list(a)),
        E::En(e, m) => format!("{e}.{m}"),
        E::New(c, a) => {
            let s = format!("new {c}({})", list(a));
            if up > 10 { format!("({s})") } else { s }
        }
        E::As(a, c) => {
            let s = format!("{} as {c}", ex(a, 11));
            if up > 0 { format!("({s})") } else { s }
        }
    }
}
fn block(out: &mut String, b: &[S], d: usize) {
    let pad = "  ".repeat(d);
    for s in b {
        stmt(out, s, d, &pad);
    }
}
fn stmt(out: &mut String, s: &S, d: usize, pad: &str) {
    match s {
        S::Let(n, t, None, _) => writeln!(out, "{pad}let {n}: {};", ty(t)),
        S::Let(n, t, Some(e), true) => writeln!(out, "{pad}let {n}: {} = {};", ty(t), ex(e, 0)),
        S::Let(n, _, Some(e), false) => writeln!(out, "{pad}let {n} = {};", ex(e, 0)),
        S::Set(l, e) => writeln!(out, "{pad}{} = {};", ex(l, 0), ex(e, 0)),
        S::Op(o, l, e) => writeln!(out, "{pad}{} {o} {};", ex(l, 0), ex(e, 0)),
        S::Do(e) => writeln!(out, "{pad}{};", ex(e, 0)),
        S::Break => writeln!(out, "{pad}break;"),
        S::Ret(None) => writeln!(out, "{pad}return;"),
        S::Ret(Some(e)) => writeln!(out, "{pad}return {};", ex(e, 0)),
        S::If(c, t, e) => {
            let _ = writeln!(out, "{pad}if {} {{", ex(c, 0));
            block(out, t, d + 1);
            match &e[..] {
                [] => writeln!(out, "{pad}}}"),
                [S::If(..)] => {
                    let _ = write!(out, "{pad}}} else ");
                    let mut t = String::new();
                    stmt(&mut t, &e[0], d, pad);
                    write!(out, "{}", t.trim_start())
                }
                _ => {
                    let _ = writeln!(out, "{pad}}} else {{");
                    block(out, e, d + 1);
                    writeln!(out, "{pad}}}")
                }
            }
        }
        S::While(c, b) => {
            let _ = writeln!(out, "{pad}while {} {{", ex(c, 0));
            block(out, b, d + 1);
            writeln!(out, "{pad}}}")
        }
        S::For(n, a, b) => {
            let _ = writeln!(out, "{pad}for {n} in {} {{", ex(a, 0));
            block(out, b, d + 1);
            writeln!(out, "{pad}}}")
        }
        S::Switch(e, cases, default) => {
            let _ = writeln!(out, "{pad}switch {} {{", ex(e, 0));
            for (l, b) in cases {
                for m in l {
                    let _ = writeln!(out, "{pad}  case {}:", ex(m, 0));
                }
                block(out, b, d + 2);
            }
            if let Some(b) = default {
                let _ = writeln!(out, "{pad}  default:");
                block(out, b, d + 2);
            }
            writeln!(out, "{pad}}}")
        }
    }
    .ok();
}
fn fun(f: &Fun, d: usize) -> String {
    let pad = "  ".repeat(d);
    let ps: Vec<String> = f.params.iter().map(|(n, t, q)| format!("{q}{n}: {}", ty(t))).collect();
    let r = f.ret.as_ref().map_or(String::new(), |t| format!(" -> {}", ty(t)));
    let mut s = format!("{pad}{}func {}({}){r}", f.quals, shown(&f.name), ps.join(", "));
    match (&f.body[..], f.short) {
        ([S::Ret(Some(e))], true) => {
            let _ = writeln!(s, " = {}", ex(e, 0));
        }
        _ => {
            s += " {\n";
            block(&mut s, &f.body, d + 1);
            let _ = writeln!(s, "{pad}}}");
        }
    }
    s
}

impl Prog {
    /// The declarations as text.
    pub fn text(&self, header: &str, order: u64) -> String {
        let mut parts = vec![];
        for (n, m) in &self.enums {
            let l: Vec<String> = m.iter().map(|(n, v)| format!("  {n} = {v},\n")).collect();
            parts.push(format!("enum {n} {{\n{}}}\n", l.concat()));
        }
        for (n, f) in &self.structs {
            let l: Vec<String> = f.iter().map(|(n, t)| format!("  public let {n}: {};\n", ty(t))).collect();
            parts.push(format!("public struct {n} {{\n{}}}\n", l.concat()));
        }
        for c in &self.classes {
            let b = c.base.as_ref().map_or(String::new(), |b| format!(" extends {b}"));
            let l: Vec<String> = c.fields.iter().map(|(n, t)| format!("  public let {n}: {};\n", ty(t))).collect();
            let m: Vec<String> = c.funs.iter().map(|f| fun(f, 1)).collect();
            parts.push(format!("public class {}{b} {{\n{}{}}}\n", c.name, l.concat(), m.concat()));
        }
        for f in &self.fns {
            parts.push(fun(f, 0));
        }
        for (m, there, f) in &self.conds {
            parts.push(format!("@if({}ModuleExists(\"{m}\"))\n{}", if *there { "" } else { "!" }, fun(f, 0)));
        }
        // declared in any order
        let n = parts.len();
        if n > 0 {
            parts.rotate_left(order as usize % n);
        }
        if order & 64 != 0 {
            parts.reverse();
        }
        format!("{header}{}", parts.concat())
    }
}

// ---------------------------------------------------------------- reference interpreter

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Void,
    I(i32),
    B(bool),
    S(String),
    A(Vec<V>),
    E(i64),
    T(BTreeMap<String, V>),
    N(Num),
    Name(String),
    Id(String),
    Res(String),
    O(usize),
    Null,
}

pub struct In<'a> {
    fns: BTreeMap<&'a str, &'a Fun>,
    classes: BTreeMap<&'a str, &'a Cls>,
    enums: BTreeMap<&'a str, &'a [(String, i64)]>,
    structs: BTreeMap<&'a str, &'a [(String, Ty)]>,
    heap: Vec<(String, BTreeMap<String, V>)>,
    steps: u64,
    depth: u32,
}

struct Fr {
    this: Option<usize>,
    class: Option<String>,
    vars: BTreeMap<String, V>,
}

enum Fl {
    Next,
    Break,
    Ret(V),
}

enum Root {
    Var(String),
    Heap(usize, String),
}
enum Pj {
    Field(String),
    Idx(i32),
}

impl<'a> In<'a> {
    pub fn new(progs: impl Iterator<Item = &'a Prog>, modules: &BTreeSet<String>) -> Self {
        let mut w = In { fns: BTreeMap::new(), classes: BTreeMap::new(), enums: BTreeMap::new(), structs: BTreeMap::new(), heap: vec![], steps: 0, depth: 0 };
        for p in progs {
            for f in &p.fns {
                w.fns.insert(&f.name, f);
            }
            for (m, there, f) in &p.conds {
                if modules.contains(m) == *there {
                    w.fns.insert(&f.name, f);
                }
            }
            for c in &p.classes {
                w.classes.insert(&c.name, c);
            }
            for (n, m) in &p.enums {
                w.enums.insert(n, m);
            }
            for (n, m) in &p.structs {
                w.structs.insert(n, m);
            }
        }
        w
    }
    /// None: takes too long.
    pub fn run(&mut self, entry: &str, args: &[i32]) -> Option<V> {
        let f = *self.fns.get(entry)?;
        (self.steps, self.depth) = (0, 0);
        self.heap.clear();
        let (r, _) = self.invoke(f, None, None, args.iter().map(|a| V::I(*a)).collect())?;
        Some(r)
    }
    fn zero(&self, t: &Ty) -> V {
        match t {
            Ty::Int => V::I(0),
            Ty::Bool => V::B(false),
            Ty::Str | Ty::SRef => V::S(String::new()),
            Ty::Arr | Ty::Ls(_) => V::A(vec![]),
            Ty::Num(k) => V::N(k.of(0)),
            Ty::Name => V::Name(String::new()),
            Ty::Id => V::Id(String::new()),
            Ty::Res => V::Res(String::new()),
            Ty::En(n) => V::E(self.enums[n.as_str()][0].1),
            Ty::St(n) => V::T(self.structs[n.as_str()].iter().map(|(f, t)| (f.clone(), self.zero(t))).collect()),
            Ty::Ref(_) | Ty::WRef(_) => V::Null,
        }
    }
    fn fields(&self, class: &str) -> BTreeMap<String, V> {
        let c = self.classes[class];
        let mut m = c.base.as_ref().map_or(BTreeMap::new(), |b| self.fields(b));
        for (n, t) in &c.fields {
            m.insert(n.clone(), self.zero(t));
        }
        m
    }
    fn kind(&self, class: &str, of: &str) -> bool {
        class == of || self.classes[class].base.as_ref().is_some_and(|b| self.kind(b, of))
    }
    fn find(&self, class: &str, m: &str) -> Option<(&'a Fun, String)> {
        let c = self.classes[class];
        if let Some(f) = c.funs.iter().find(|f| f.name == m) {
            return Some((f, class.to_string()));
        }
        self.find(c.base.as_ref()?, m)
    }
    fn invoke(&mut self, f: &'a Fun, this: Option<usize>, class: Option<String>, args: Vec<V>) -> Option<(V, BTreeMap<String, V>)> {
        self.depth += 1;
        if self.depth > 60 {
            return None;
        }
        let mut fr = Fr { this, class, vars: BTreeMap::new() };
        let n = args.len();
        for ((p, ..), v) in f.params.iter().zip(args) {
            fr.vars.insert(p.clone(), v);
        }
        for (p, t, _) in &f.params[n..] {
            let z = self.zero(t);
            fr.vars.insert(p.clone(), z);
        }
        let r = match self.block(&f.body, &mut fr)? {
            Fl::Ret(v) => v,
            _ => V::Void,
        };
        self.depth -= 1;
        Some((r, fr.vars))
    }
    fn block(&mut self, b: &'a [S], fr: &mut Fr) -> Option<Fl> {
        for s in b {
            self.steps += 1;
            if self.steps > 50_000 {
                return None;
            }
            match s {
                S::Let(n, t, None, _) => {
                    let z = self.zero(t);
                    fr.vars.insert(n.clone(), z);
                }
                S::Let(n, _, Some(e), _) => {
                    let v = self.ev(e, fr)?;
                    fr.vars.insert(n.clone(), v);
                }
                S::Set(l, e) => {
                    let p = self.path(l, fr)?;
                    let v = self.ev(e, fr)?;
                    self.at(&p, fr, |x| *x = v);
                }
                S::Op(o, l, e) => {
                    let p = self.path(l, fr)?;
                    let v = self.ev(e, fr)?;
                    self.at(&p, fr, |x| *x = arith(&o[..o.len() - 1], x.clone(), v));
                }
                S::Do(e) => {
                    self.ev(e, fr)?;
                }
                S::Break => return Some(Fl::Break),
                S::Ret(None) => return Some(Fl::Ret(V::Void)),
                S::Ret(Some(e)) => return Some(Fl::Ret(self.ev(e, fr)?)),
                S::If(c, t, e) => {
                    let b = if self.ev(c, fr)? == V::B(true) { t } else { e };
                    match self.block(b, fr)? {
                        Fl::Next => {}
                        f => return Some(f),
                    }
                }
                S::While(c, b) => {
                    while self.ev(c, fr)? == V::B(true) {
                        match self.block(b, fr)? {
                            Fl::Next => {}
                            Fl::Break => break,
                            f => return Some(f),
                        }
                    }
                }
                S::For(n, a, b) => {
                    let V::A(l) = self.ev(a, fr)? else { panic!("for in what is no array") };
                    for v in l {
                        fr.vars.insert(n.clone(), v);
                        match self.block(b, fr)? {
                            Fl::Next => {}
                            Fl::Break => break,
                            f => return Some(f),
                        }
                    }
                }
                S::Switch(e, cases, default) => {
                    let v = self.ev(e, fr)?;
                    let mut hit = cases.len();
                    'c: for (k, (l, _)) in cases.iter().enumerate() {
                        for m in l {
                            if self.ev(m, fr)? == v {
                                hit = k;
                                break 'c;
                            }
                        }
                    }
                    // on into the next one unless the body breaks off
                    for b in cases[hit..].iter().map(|c| &c.1).chain(default) {
                        match self.block(b, fr)? {
                            Fl::Next => {}
                            Fl::Break => break,
                            Fl::Ret(v) => return Some(Fl::Ret(v)),
                        }
                    }
                }
            }
        }
        Some(Fl::Next)
    }
    fn path(&mut self, e: &'a E, fr: &mut Fr) -> Option<(Root, Vec<Pj>)> {
        Some(match e {
            E::V(n) => (Root::Var(n.clone()), vec![]),
            E::Get(b, f) => {
                if let E::This | E::Meth(..) | E::Call(..) | E::As(..) | E::New(..) = **b {
                    let V::O(o) = self.ev(b, fr)? else { return None };
                    return Some((Root::Heap(o, f.clone()), vec![]));
                }
                let mut p = self.path(b, fr)?;
                let mut v = V::Void;
                self.at(&p, fr, |x| v = x.clone());
                match v {
                    V::O(o) => (Root::Heap(o, f.clone()), vec![]),
                    _ => {
                        p.1.push(Pj::Field(f.clone()));
                        p
                    }
                }
            }
            E::Elem(b, i) => {
                let mut p = self.path(b, fr)?;
                let V::I(i) = self.ev(i, fr)? else { panic!("index") };
                p.1.push(Pj::Idx(i));
                p
            }
            e => panic!("no place: {e:?}"),
        })
    }
    fn at(&mut self, p: &(Root, Vec<Pj>), fr: &mut Fr, f: impl FnOnce(&mut V)) {
        let mut x = match &p.0 {
            Root::Var(n) => fr.vars.get_mut(n).unwrap_or_else(|| panic!("variable {n}")),
            Root::Heap(o, n) => self.heap[*o].1.get_mut(n).unwrap_or_else(|| panic!("field {n}")),
        };
        for j in &p.1 {
            x = match (j, x) {
                (Pj::Field(n), V::T(m)) => m.get_mut(n).expect("field of a struct"),
                (Pj::Idx(i), V::A(l)) if usize::try_from(*i).map_or(true, |i| i >= l.len()) => return f(&mut V::I(0)),
                (Pj::Idx(i), V::A(l)) => &mut l[*i as usize],
                (_, x) => panic!("part of {x:?}"),
            };
        }
        f(x);
    }
    fn args(&mut self, a: &'a [E], fr: &mut Fr) -> Option<Vec<V>> {
        a.iter().map(|e| self.ev(e, fr)).collect()
    }
    /// A call with its `out` arguments written back.
    fn call(&mut self, f: &'a Fun, this: Option<usize>, class: Option<String>, a: &'a [E], fr: &mut Fr) -> Option<V> {
        let mut outs = vec![];
        let mut vals = vec![];
        for (e, (p, _, q)) in a.iter().zip(&f.params) {
            if q.contains("out") {
                outs.push((self.path(e, fr)?, p, vals.len()));
                vals.push(V::Void);
            } else {
                vals.push(self.ev(e, fr)?);
            }
        }
        for (p, _, i) in &outs {
            let mut v = V::Void;
            self.at(p, fr, |x| v = x.clone());
            vals[*i] = v;
        }
        let (r, mut vars) = self.invoke(f, this, class, vals)?;
        for (p, n, _) in outs {
            let v = vars.remove(n).expect("parameter");
            self.at(&p, fr, |x| *x = v);
        }
        Some(r)
    }
    fn ev(&mut self, e: &'a E, fr: &mut Fr) -> Option<V> {
        self.steps += 1;
        if self.steps > 50_000 {
            return None;
        }
        Some(match e {
            E::I(n) => V::I(*n),
            E::Num(n, _) => V::N(*n),
            E::Name(s) => V::Name(s.clone()),
            E::Id(s) => V::Id(s.clone()),
            E::Res(s) => V::Res(s.clone()),
            E::Null => V::Null,
            E::B(b) => V::B(*b),
            E::S(s) => V::S(s.clone()),
            E::V(n) => fr.vars.get(n).unwrap_or_else(|| panic!("variable {n}")).clone(),
            E::This => V::O(fr.this?),
            E::Un(o, a) => match (*o, self.ev(a, fr)?) {
                ("-", V::I(n)) => V::I(n.wrapping_neg()),
                ("-", V::N(n)) => V::N(n.neg()),
                ("~", V::I(n)) => V::I(!n),
                ("!", V::B(b)) => V::B(!b),
                (o, v) => panic!("{o}{v:?}"),
            },
            E::Bin("&&", a, b) => match self.ev(a, fr)? {
                V::B(true) => self.ev(b, fr)?,
                _ => V::B(false),
            },
            E::Bin("||", a, b) => match self.ev(a, fr)? {
                V::B(false) => self.ev(b, fr)?,
                _ => V::B(true),
            },
            E::Bin(o, a, b) => {
                let (a, b) = (self.ev(a, fr)?, self.ev(b, fr)?);
                arith(o, a, b)
            }
            E::Cond(c, a, b) => {
                if self.ev(c, fr)? == V::B(true) {
                    self.ev(a, fr)?
                } else {
                    self.ev(b, fr)?
                }
            }
            E::Interp(p, l) => {
                let mut s = p.clone();
                for (e, t) in l {
                    match self.ev(e, fr)? {
                        V::I(n) => s += &n.to_string(),
                        V::N(n) => s += &n.text(),
                        V::S(t) | V::Name(t) => s += &t,
                        v => panic!("text of {v:?}"),
                    }
                    s += t;
                }
                if s.len() > 2000 {
                    return None;
                }
                V::S(s)
            }
            E::Call(n, a) => self.intrinsic(n, a, fr)?,
            E::Meth(o, n, a) => {
                let V::O(o) = self.ev(o, fr)? else { return None };
                let (f, c) = self.find(&self.heap[o].0.clone(), n).expect("method");
                self.call(f, Some(o), Some(c), a, fr)?
            }
            E::Super(n, a) => {
                let b = self.classes[fr.class.as_deref()?].base.clone()?;
                let (f, c) = self.find(&b, n).expect("method");
                self.call(f, fr.this, Some(c), a, fr)?
            }
            E::Static(c, n, a) => {
                let (f, c) = self.find(c, n).expect("method");
                self.call(f, None, Some(c), a, fr)?
            }
            E::Get(..) => {
                let p = self.path(e, fr)?;
                let mut v = V::Void;
                self.at(&p, fr, |x| v = x.clone());
                v
            }
            E::Elem(..) => {
                let p = self.path(e, fr)?;
                let mut v = V::Void;
                self.at(&p, fr, |x| v = x.clone());
                v
            }
            E::Arr(a) => V::A(self.args(a, fr)?),
            E::En(e, m) => V::E(self.enums[e.as_str()].iter().find(|x| x.0 == *m).expect("member").1),
            E::New(c, a) => {
                let a = self.args(a, fr)?;
                if let Some(f) = self.structs.get(c.as_str()) {
                    V::T(f.iter().map(|x| x.0.clone()).zip(a).collect())
                } else {
                    let f = self.fields(c);
                    self.heap.push((c.clone(), f));
                    V::O(self.heap.len() - 1)
                }
            }
            E::As(a, c) => match self.ev(a, fr)? {
                V::O(o) if self.kind(&self.heap[o].0, c) => V::O(o),
                _ => V::Null,
            },
        })
    }
    fn intrinsic(&mut self, n: &str, a: &'a [E], fr: &mut Fr) -> Option<V> {
        let int = |v: V| match v {
            V::I(n) => n,
            v => panic!("no number: {v:?}"),
        };
        let int_enum = n.starts_with("IntEnum<");
        Some(match n {
            "Equals" | "NotEquals" => {
                let v = self.args(a, fr)?;
                V::B((v[0] == v[1]) == (n == "Equals"))
            }
            "EnumInt" => match self.ev(&a[0], fr)? {
                V::E(n) => V::I(n as i32),
                v => panic!("no enum: {v:?}"),
            },
            _ if int_enum => V::E(int(self.ev(&a[0], fr)?).into()),
            "Cast<Int32>" => match self.ev(&a[0], fr)? {
                V::N(n) => V::I(n.int()),
                v => panic!("cast of {v:?}"),
            },
            _ if n.starts_with("Cast<") => {
                let k = KINDS.into_iter().find(|k| n[5..].starts_with(k.name())).expect("kind");
                match self.ev(&a[0], fr)? {
                    V::I(n) => V::N(k.of(n)),
                    v => panic!("cast of {v:?}"),
                }
            }
            "VariantIsArray" => V::B(matches!(self.ev(&a[0], fr)?, V::A(_))),
            "VariantIsRef" => V::B(matches!(self.ev(&a[0], fr)?, V::O(_) | V::Null)),
            "VariantTypeName" => V::Name(
                match self.ev(&a[0], fr)? {
                    V::I(_) => "Int32",
                    V::B(_) => "Bool",
                    V::S(_) => "String",
                    V::N(n) => n.kind().name(),
                    v => panic!("type of {v:?}"),
                }
                .into(),
            ),
            "ToVariant" | "AsRef" | "Deref" => self.ev(&a[0], fr)?,
            _ if n.starts_with("FromVariant<") => self.ev(&a[0], fr)?,
            "IsDefined" => V::B(self.ev(&a[0], fr)? != V::Null),
            "ToString" => match self.ev(&a[0], fr)? {
                V::I(n) => V::S(n.to_string()),
                V::N(n) => V::S(n.text()),
                V::S(s) | V::Name(s) => V::S(s),
                v => panic!("text of {v:?}"),
            },
            _ if n.starts_with("Array") => {
                let p = match &a[0] {
                    E::V(_) | E::Get(..) => self.path(&a[0], fr)?,
                    e => panic!("array {e:?}"),
                };
                let v = self.args(&a[1..], fr)?;
                let mut r = V::Void;
                self.at(&p, fr, |x| {
                    let V::A(l) = x else { panic!("no array") };
                    array(n, l, v, &mut r);
                });
                r
            }
            _ => {
                let f = *self.fns.get(n).unwrap_or_else(|| panic!("function {n}"));
                self.call(f, None, None, a, fr)?
            }
        })
    }
}

fn array(n: &str, l: &mut Vec<V>, a: Vec<V>, r: &mut V) {
    let idx = |k: usize| match &a[k] {
        V::I(n) => *n,
        v => panic!("index {v:?}"),
    };
    match n {
        "ArraySize" => *r = V::I(l.len() as i32),
        "ArrayPush" => l.push(a[0].clone()),
        "ArrayClear" => l.clear(),
        "ArrayContains" => *r = V::B(l.contains(&a[0])),
        "ArrayCount" => *r = V::I(l.iter().filter(|x| **x == a[0]).count() as i32),
        "ArrayFindFirst" => *r = V::I(l.iter().position(|x| *x == a[0]).map_or(-1, |k| k as i32)),
        "ArrayFindLast" => *r = V::I(l.iter().rposition(|x| *x == a[0]).map_or(-1, |k| k as i32)),
        "ArrayPop" => *r = l.pop().unwrap_or(V::I(0)),
        "ArrayLast" => *r = l.last().cloned().unwrap_or(V::I(0)),
        "ArrayInsert" => {
            if let Some(i) = usize::try_from(idx(0)).ok().filter(|i| *i <= l.len()) {
                l.insert(i, a[1].clone());
            }
        }
        "ArrayErase" => {
            let i = usize::try_from(idx(0)).ok().filter(|i| *i < l.len());
            if let Some(i) = i {
                l.remove(i);
            }
            *r = V::B(i.is_some());
        }
        "ArrayRemove" => {
            let i = l.iter().position(|x| *x == a[0]);
            if let Some(i) = i {
                l.remove(i);
            }
            *r = V::B(i.is_some());
        }
        "ArrayResize" => l.resize(idx(0).clamp(0, 100) as usize, V::I(0)),
        "ArrayGrow" => {
            let n = l.len() + idx(0).clamp(0, 100) as usize;
            l.resize(n, V::I(0));
        }
        n => panic!("{n}"),
    }
}

pub fn arith(o: &str, a: V, b: V) -> V {
    match (a, b) {
        (V::I(x), V::I(y)) => match o {
            "+" => V::I(x.wrapping_add(y)),
            "-" => V::I(x.wrapping_sub(y)),
            "*" => V::I(x.wrapping_mul(y)),
            "/" => V::I(if y == 0 { 0 } else { x.wrapping_div(y) }),
            "%" => V::I(if y == 0 { 0 } else { x.wrapping_rem(y) }),
            "&" => V::I(x & y),
            "|" => V::I(x | y),
            "^" => V::I(x ^ y),
            "<" => V::B(x < y),
            "<=" => V::B(x <= y),
            ">" => V::B(x > y),
            ">=" => V::B(x >= y),
            "==" => V::B(x == y),
            "!=" => V::B(x != y),
            o => panic!("{o}"),
        },
        (V::S(x), V::S(y)) if o == "+" => V::S(x + &y),
        (V::N(x), V::N(y)) => match (num(o, x, y), cmp(o, x, y)) {
            (Some(n), _) => V::N(n),
            (_, Some(b)) => V::B(b),
            _ => panic!("{x:?} {o} {y:?}"),
        },
        (a, b) => panic!("{a:?} {o} {b:?}"),
    }
}

// ---------------------------------------------------------------- generator

#[derive(Clone)]
struct Var {
    name: String,
    ty: Ty,
    /// may be assigned
    free: bool,
}

struct Gen<'a> {
    ctx: &'a mut Ctx,
    t: String,
    vars: Vec<Var>,
    n: usize,
    /// calls that may still be made, statements that may still be written
    calls: u32,
    budget: u32,
    en: String,
    members: usize,
    st: String,
    /// classes, each derived from the one before
    classes: Vec<String>,
    /// (name, parameters, at least)
    ints: Vec<(String, usize, usize)>,
    alt: bool,
    in_loop: bool,
    in_switch: bool,
    /// more functions: name, parameters, result
    funs: Vec<Sig>,
    ret: Ty,
    this: Option<usize>,
}
type Sig = (String, Vec<(String, Ty, &'static str)>, Ty);

fn b(e: E) -> Box<E> {
    Box::new(e)
}
fn var(n: &str) -> E {
    E::V(n.into())
}

const TEXTS: &[&str] = &["", "a", "x y", "q\"q", "b\\s", "\n", "ż", "(", "'"];

impl<'c> Gen<'c> {
    fn new(ctx: &'c mut Ctx, t: &str, classes: &[String], members: usize, ints: &[(String, usize, usize)], funs: &[Sig]) -> Self {
        Gen {
            ctx,
            t: t.into(),
            vars: vec![],
            n: 0,
            calls: 6,
            budget: 22,
            en: format!("En{t}"),
            members,
            st: format!("St{t}"),
            classes: classes.to_vec(),
            ints: ints.to_vec(),
            alt: false,
            in_loop: false,
            in_switch: false,
            funs: funs.to_vec(),
            ret: Ty::Str,
            this: None,
        }
    }
    /// Statements and a value at the end (the block's own variables are part of it).
    fn body(&mut self, n: usize) -> Vec<S> {
        let d = 1 + self.draw(3) as u32;
        let mut body = vec![];
        for _ in 0..n {
            if self.budget > 0 {
                self.budget -= 1;
                self.stmt(d, &mut body);
            }
        }
        let e = self.result();
        body.push(S::Ret(Some(e)));
        body
    }
    fn draw(&mut self, n: u64) -> usize {
        self.ctx.ch.draw(n) as usize
    }
    fn pick_var(&mut self, t: &Ty, free: bool) -> Option<String> {
        let l: Vec<&Var> = self.vars.iter().filter(|v| v.ty == *t && (v.free || !free)).collect();
        if l.is_empty() {
            return None;
        }
        let k = self.ctx.ch.draw(l.len() as u64) as usize;
        Some(l[k].name.clone())
    }
    fn fresh(&mut self) -> String {
        // names come again where the earlier variable is out of sight
        for k in 0.. {
            let n = format!("v{k}");
            if !self.vars.iter().any(|v| v.name == n) && (k + 3 > self.n || self.draw(3) == 0) {
                self.n = self.n.max(k + 1);
                return n;
            }
        }
        unreachable!()
    }
    /// Something of class type: a variable of the class or one below (and the class it is declared with).
    fn obj(&mut self) -> Option<(E, usize)> {
        let l: Vec<(String, usize)> = self
            .vars
            .iter()
            .filter_map(|v| match &v.ty {
                Ty::Ref(c) | Ty::WRef(c) => Some((v.name.clone(), self.classes.iter().position(|x| x == c)?)),
                _ => None,
            })
            .collect();
        if let Some(k) = self.this {
            if l.is_empty() || self.ctx.ch.chance(1, 3) {
                return Some((E::This, k));
            }
        }
        if l.is_empty() {
            return None;
        }
        let (n, c) = self.ctx.ch.pick(&l).clone();
        Some((E::V(n), c))
    }
    /// A value of a kind of number.
    fn num(&mut self, k: Nk, d: u32) -> E {
        match if d == 0 { self.draw(4) } else { self.draw(10) } {
            0 | 1 => self.number(k, false),
            2 | 3 => match self.pick_var(&Ty::Num(k), false) {
                Some(n) => E::V(n),
                None => self.number(k, false),
            },
            4..=6 => {
                let o = *self.ctx.ch.pick(&["+", "-", "*"]);
                E::Bin(o, b(self.num(k, d - 1)), b(self.num(k, d - 1)))
            }
            7 if !matches!(k, Nk::U | Nk::W) && self.ctx.ch.coin() => E::Un("-", b(self.num(k, d - 1))),
            7 => E::Cond(b(self.bool(d - 1)), b(self.num(k, d - 1)), b(self.num(k, d - 1))),
            8 => match self.call(&Ty::Num(k), d) {
                Some(e) => e,
                None => self.number(k, false),
            },
            _ => E::Call(format!("Cast<{}>", k.name()), vec![self.int(d - 1)]),
        }
    }
    fn number(&mut self, k: Nk, plain: bool) -> E {
        let big = self.ctx.ch.chance(1, 6);
        let n = self.draw(200) as i64 + if plain { 50 } else { 0 };
        let v = match k {
            Nk::L => Num::L(if big && !plain { *self.ctx.ch.pick(&[1 << 40, i64::MAX, i64::MIN + 1, -(1 << 33)]) } else { n - 50 }),
            Nk::U => Num::U(if big { *self.ctx.ch.pick(&[u32::MAX, 1 << 31, 65536]) } else { n as u32 }),
            Nk::W => Num::W(if big && !plain { *self.ctx.ch.pick(&[u64::MAX, 1 << 63, 1 << 32]) } else { n as u64 }),
            Nk::F => Num::F((n - 50) as f32 / if plain { 1.0 } else { 8.0 }),
            Nk::D => Num::D((n - 50) as f64 / if plain { 1.0 } else { 16.0 }),
        };
        E::Num(v, plain)
    }
    /// A call of one of the functions at hand.
    fn call(&mut self, t: &Ty, d: u32) -> Option<E> {
        let l: Vec<Sig> = self.funs.iter().filter(|f| f.2 == *t).cloned().collect();
        if l.is_empty() || self.calls == 0 || d == 0 {
            return None;
        }
        self.calls -= 1;
        let (n, ps, _) = self.ctx.ch.pick(&l).clone();
        let mut args = vec![];
        for (_, t, q) in &ps {
            if q.contains("opt") && self.draw(3) == 0 {
                break;
            }
            args.push(if q.contains("out") { E::V(self.pick_var(t, true)?) } else { self.arg(t, d - 1) });
        }
        Some(E::Call(n, args))
    }
    fn arg(&mut self, t: &Ty, d: u32) -> E {
        match t {
            Ty::Int => self.int(d),
            Ty::Bool => self.bool(d),
            Ty::Num(k) => self.num(*k, d),
            Ty::Str => self.str(d),
            Ty::Arr | Ty::Ls(_) => match self.pick_var(t, false) {
                Some(n) => E::V(n),
                None => self.of(t),
            },
            t => self.of(t),
        }
    }
    fn nk(&mut self) -> Nk {
        *self.ctx.ch.pick(&[Nk::F, Nk::L, Nk::F, Nk::U, Nk::W, Nk::D])
    }
    fn int(&mut self, d: u32) -> E {
        let k = if d == 0 { self.draw(4) } else { self.draw(25) };
        match k {
            0 if self.ctx.ch.chance(1, 8) => E::I(*self.ctx.ch.pick(&[127, 128, -129, 255, 256, 32767, 32768, -32769, 65536, i32::MAX, -i32::MAX])),
            0 => E::I(self.draw(100) as i32 - 20),
            1 | 2 => match self.pick_var(&Ty::Int, false) {
                Some(n) => E::V(n),
                None => E::I(self.draw(9) as i32),
            },
            3 => match self.pick_var(&Ty::St(self.st.clone()), false) {
                Some(n) => E::Get(b(E::V(n)), if self.ctx.ch.coin() { "a" } else { "b" }.into()),
                None => E::I(3),
            },
            4..=7 => {
                let o = *self.ctx.ch.pick(&["+", "-", "*", "+", "-", "*", "&", "|", "^"]);
                E::Bin(o, b(self.int(d - 1)), b(self.int(d - 1)))
            }
            8 => {
                let o = *self.ctx.ch.pick(&["/", "%"]);
                let k = 1 + self.draw(9) as i32;
                E::Bin(o, b(self.int(d - 1)), b(E::I(k)))
            }
            9 => {
                let o = *self.ctx.ch.pick(&["-", "~"]);
                E::Un(o, b(self.int(d - 1)))
            }
            10 => E::Cond(b(self.bool(d - 1)), b(self.int(d - 1)), b(self.int(d - 1))),
            11 | 12 if self.calls > 0 => {
                self.calls -= 1;
                let (n, max, min) = self.ctx.ch.pick(&self.ints.clone()).clone();
                let k = min + self.draw((max - min) as u64 + 1);
                E::Call(n, (0..k).map(|_| self.int(d - 1)).collect())
            }
            13 if self.calls > 0 => match self.obj() {
                Some((o, _)) => {
                    self.calls -= 1;
                    let a = self.int(d - 1);
                    if self.this.is_none() && self.draw(3) == 0 {
                        let f = self.num(Nk::F, d - 1);
                        return E::Meth(b(o), "Do".into(), vec![a, f]);
                    }
                    let m = *self.ctx.ch.pick(&["Next", "Kind"]);
                    E::Meth(b(o), m.into(), vec![a])
                }
                None => E::I(4),
            },
            14 => match self.obj() {
                Some((o, _)) => E::Get(b(o), "n".into()),
                None => E::I(5),
            },
            15 => match self.pick_var(&Ty::Arr, false) {
                Some(n) => {
                    let f = *self.ctx.ch.pick(&["ArraySize", "ArrayLast", "ArrayCount", "ArrayFindFirst", "ArrayFindLast"]);
                    let mut a = vec![E::V(n)];
                    if f != "ArraySize" && f != "ArrayLast" {
                        a.push(self.int(1));
                    }
                    E::Call(f.into(), a)
                }
                None => E::I(6),
            },
            16 => match self.pick_var(&Ty::Arr, false) {
                Some(n) => {
                    let i = if self.ctx.ch.coin() { E::I(self.draw(3) as i32) } else { E::Bin("&", b(self.int(0)), b(E::I(3))) };
                    E::Elem(b(E::V(n)), b(i))
                }
                None => E::I(7),
            },
            17 => match self.pick_var(&Ty::En(self.en.clone()), false) {
                Some(n) => E::Call("EnumInt".into(), vec![E::V(n)]),
                None => E::Call("EnumInt".into(), vec![self.member()]),
            },
            18 if self.alt => E::Call(format!("Alt{}", self.t), vec![]),
            19 => E::Static(self.classes[0].clone(), "Twice".into(), vec![self.int(d - 1)]),
            20 => {
                let k = self.nk();
                E::Call("Cast<Int32>".into(), vec![self.num(k, d - 1)])
            }
            21 => match self.call(&Ty::Int, d) {
                Some(e) => e,
                None => E::I(8),
            },
            22 if self.calls > 0 => {
                // one name, several functions
                self.calls -= 1;
                let k = self.draw(6);
                let a = match k {
                    0 => vec![self.int(d - 1)],
                    1 => vec![self.num(Nk::F, d - 1)],
                    2 => vec![self.str(d - 1)],
                    3 => vec![self.bool(d - 1)],
                    4 => vec![self.member()],
                    _ => vec![self.int(d - 1), self.int(0)],
                };
                E::Call(format!("Over{}#{k}", self.t), a)
            }
            23 => match self.obj() {
                // what an object refers to
                Some((o, _)) => {
                    let next = E::Get(b(o), "next".into());
                    E::Cond(b(E::Call("IsDefined".into(), vec![next.clone()])), b(E::Get(b(next), "n".into())), b(self.int(0)))
                }
                None => E::I(9),
            },
            24 => match self.draw(5) {
                0 => match self.obj() {
                    Some((o, _)) => E::Get(b(E::Get(b(o), "st".into())), "b".into()),
                    None => E::I(10),
                },
                1 => match self.obj() {
                    Some((o, _)) => E::Call("ArraySize".into(), vec![E::Get(b(o), "list".into())]),
                    None => E::I(11),
                },
                2 => match self.pick_var(&Ty::Ls(Box::new(Ty::St(self.st.clone()))), false) {
                    Some(n) => E::Cond(
                        b(E::Bin(">", b(E::Call("ArraySize".into(), vec![var(&n)])), b(E::I(0)))),
                        b(E::Get(b(E::Elem(b(var(&n)), b(E::I(0)))), "a".into())),
                        b(E::I(12)),
                    ),
                    None => E::I(13),
                },
                3 if self.ctx.ch.coin() => E::Call("Deref".into(), vec![E::Call("AsRef".into(), vec![self.int(d - 1)])]),
                3 => E::Call("FromVariant<Int32>".into(), vec![E::Call("ToVariant".into(), vec![self.int(d - 1)])]),
                _ => match self.obj() {
                    // down to a class below
                    Some((o, c)) if c + 1 < self.classes.len() => {
                        let k = c + 1 + self.draw((self.classes.len() - c - 1) as u64);
                        let o = E::As(b(o), self.classes[k].clone());
                        E::Cond(b(E::Call("IsDefined".into(), vec![o.clone()])), b(E::Get(b(o), format!("m{k}"))), b(self.int(0)))
                    }
                    _ => E::I(14),
                },
            },
            _ => E::I(self.draw(1000) as i32),
        }
    }
    fn member(&mut self) -> E {
        let k = self.draw(self.members as u64);
        E::En(self.en.clone(), format!("M{k}"))
    }
    fn bool(&mut self, d: u32) -> E {
        let k = if d == 0 { self.draw(4) } else { self.draw(14) };
        match k {
            0 | 1 => {
                let o = *self.ctx.ch.pick(&["<", "<=", ">", ">=", "==", "!="]);
                E::Bin(o, b(self.int(d.min(1))), b(self.int(0)))
            }
            2 => match self.pick_var(&Ty::Bool, false) {
                Some(n) => E::V(n),
                None => E::B(self.ctx.ch.coin()),
            },
            3 => E::B(self.ctx.ch.coin()),
            4 => E::Bin("&&", b(self.bool(d - 1)), b(self.bool(d - 1))),
            5 => E::Bin("||", b(self.bool(d - 1)), b(self.bool(d - 1))),
            6 => E::Un("!", b(self.bool(d - 1))),
            7 => {
                let f = *self.ctx.ch.pick(&["Equals", "NotEquals"]);
                let a = match self.pick_var(&Ty::En(self.en.clone()), false) {
                    Some(n) => E::V(n),
                    None => self.member(),
                };
                E::Call(f.into(), vec![a, self.member()])
            }
            8 => match self.pick_var(&Ty::Arr, false) {
                Some(n) => E::Call("ArrayContains".into(), vec![E::V(n), self.int(1)]),
                None => E::B(true),
            },
            9 => {
                let f = *self.ctx.ch.pick(&["Equals", "NotEquals"]);
                match self.pick_var(&Ty::Str, false) {
                    Some(n) => E::Call(f.into(), vec![E::V(n), self.str(1)]),
                    None => E::B(false),
                }
            }
            10 => {
                let k = self.nk();
                let o = *self.ctx.ch.pick(&["<", "<=", ">", ">=", "==", "!="]);
                E::Bin(o, b(self.num(k, d - 1)), b(self.num(k, 0)))
            }
            11 => {
                let t = self.ctx.ch.pick(&[Ty::Name, Ty::Id, Ty::Res]).clone();
                let f = *self.ctx.ch.pick(&["Equals", "NotEquals"]);
                match self.pick_var(&t, false) {
                    Some(n) => E::Call(f.into(), vec![E::V(n), self.of(&t)]),
                    None => E::B(true),
                }
            }
            12 if self.ctx.ch.coin() => {
                let v = match self.draw(3) {
                    0 => self.int(d - 1),
                    1 => match self.pick_var(&Ty::Arr, false) {
                        Some(n) => E::V(n),
                        None => self.str(0),
                    },
                    _ => match self.obj() {
                        Some((E::V(n), _)) if self.vars.iter().any(|v| v.name == n && matches!(v.ty, Ty::Ref(_))) => E::V(n),
                        _ => self.num(Nk::D, d - 1),
                    },
                };
                let v = E::Call("ToVariant".into(), vec![v]);
                match self.draw(3) {
                    0 => E::Call("VariantIsRef".into(), vec![v]),
                    1 => E::Call("VariantIsArray".into(), vec![v]),
                    _ => {
                        let x = match self.draw(4) {
                            0 => self.int(0),
                            1 => self.num(Nk::L, 0),
                            2 => self.bool(0),
                            _ => self.str(0),
                        };
                        let x = E::Call("VariantTypeName".into(), vec![E::Call("ToVariant".into(), vec![x])]);
                        E::Call("Equals".into(), vec![x, E::Name((*self.ctx.ch.pick(&["Int32", "Int64", "Bool", "String"])).into())])
                    }
                }
            }
            12 => match self.call(&Ty::Bool, d) {
                Some(e) => e,
                None => E::B(false),
            },
            _ => match self.obj() {
                Some((o, c)) => {
                    let d = c + self.draw((self.classes.len() - c) as u64);
                    let down = self.classes[d].clone();
                    if self.ctx.ch.coin() {
                        E::Call("IsDefined".into(), vec![E::As(b(o), down)])
                    } else {
                        E::Call("IsDefined".into(), vec![o])
                    }
                }
                None => E::B(true),
            },
        }
    }
    fn str(&mut self, d: u32) -> E {
        match self.draw(7) {
            0 => E::S((*self.ctx.ch.pick(TEXTS)).to_string()),
            1 => match self.pick_var(&Ty::Str, false) {
                Some(n) => E::V(n),
                None => E::S("-".into()),
            },
            2 if self.calls > 0 && d > 0 => {
                self.calls -= 1;
                match self.pick_var(&Ty::Str, false) {
                    Some(n) => E::Call(format!("Quote{}", self.t), vec![E::V(n)]),
                    None => E::S("+".into()),
                }
            }
            5 if d > 0 && self.calls > 0 => match self.obj() {
                Some((o, _)) => {
                    self.calls -= 1;
                    let k = self.draw(2);
                    let a = if k == 0 { self.int(1) } else { self.str(d - 1) };
                    E::Meth(b(o), format!("Say#{k}"), vec![a])
                }
                None => E::S("o".into()),
            },
            6 if d > 0 => match self.call(&Ty::Str, d) {
                Some(e) => e,
                None => {
                    let l = Ty::Ls(Box::new(Ty::Str));
                    match self.pick_var(&l, false) {
                        Some(n) => E::Cond(b(E::Bin(">", b(E::Call("ArraySize".into(), vec![var(&n)])), b(E::I(0)))), b(E::Elem(b(var(&n)), b(E::I(0)))), b(E::S("none".into()))),
                        None => E::S("l".into()),
                    }
                }
            },
            _ => {
                let p = (*self.ctx.ch.pick(TEXTS)).to_string();
                let n = 1 + self.draw(2);
                let l = (0..n)
                    .map(|_| {
                        let e = if d > 0 && self.ctx.ch.chance(1, 3) {
                            match self.pick_var(&Ty::Str, false) {
                                Some(n) => E::V(n),
                                None => self.int(1),
                            }
                        } else if d > 0 && self.ctx.ch.chance(1, 4) {
                            let k = self.nk();
                            self.num(k, 1)
                        } else if self.ctx.ch.chance(1, 6) {
                            match self.pick_var(&Ty::Name, false) {
                                Some(n) => E::V(n),
                                None => E::Name("nm".into()),
                            }
                        } else {
                            self.int(d.min(1))
                        };
                        (e, (*self.ctx.ch.pick(TEXTS)).to_string())
                    })
                    .collect();
                E::Interp(p, l)
            }
        }
    }
    fn of(&mut self, t: &Ty) -> E {
        match t {
            Ty::Int => self.int(3),
            Ty::Bool => self.bool(2),
            Ty::Str | Ty::SRef => self.str(2),
            Ty::Num(k) => {
                if self.ctx.ch.chance(1, 4) {
                    self.number(*k, true)
                } else {
                    self.num(*k, 2)
                }
            }
            Ty::Name => E::Name((*self.ctx.ch.pick(&["a", "b", "Vanilla001v0", "x y", ""])).into()),
            Ty::Res => E::Res((*self.ctx.ch.pick(&["base\\a.ent", "base\\b.ent", "c.ent"])).into()),
            Ty::Id => E::Id((*self.ctx.ch.pick(&["Items.a", "Items.b", "a.b.c"])).into()),
            Ty::Ls(t) => {
                let n = 1 + self.draw(3);
                E::Arr((0..n).map(|_| self.elem(t)).collect())
            }
            Ty::Arr => {
                if self.ctx.ch.chance(1, 4) {
                    if let Some(n) = self.pick_var(&Ty::Arr, false) {
                        return E::V(n);
                    }
                }
                let n = 1 + self.draw(4);
                E::Arr((0..n).map(|_| self.int(1)).collect())
            }
            Ty::En(_) => {
                if self.ctx.ch.chance(1, 4) {
                    E::Call(format!("IntEnum<{}>", self.en), vec![self.int(1)])
                } else {
                    self.member()
                }
            }
            Ty::St(n) => {
                if self.ctx.ch.chance(1, 3) {
                    if let Some(v) = self.pick_var(t, false) {
                        return E::V(v);
                    }
                }
                if *n != self.st {
                    let st = Ty::St(self.st.clone());
                    return E::New(n.clone(), vec![self.of(&st), self.str(1), self.of(&Ty::Num(Nk::F))]);
                }
                E::New(n.clone(), vec![self.int(1), self.int(1)])
            }
            Ty::Ref(c) | Ty::WRef(c) => {
                if self.draw(6) == 0 {
                    let l: Vec<(E, usize)> = (0..3).filter_map(|_| self.obj()).collect();
                    let l: Vec<E> = l.into_iter().filter(|o| self.classes[o.1] == *c).map(|o| o.0).collect();
                    if let Some(e) = l.first() {
                        return e.clone();
                    }
                }
                let k = self.classes.iter().position(|x| x == c).unwrap();
                let k = k + self.draw((self.classes.len() - k) as u64);
                E::New(self.classes[k].clone(), vec![])
            }
        }
    }
    /// An element of an array literal: its type shows.
    fn elem(&mut self, t: &Ty) -> E {
        match t {
            Ty::Num(k) => self.num(*k, 1),
            Ty::Ref(c) => E::New(c.clone(), vec![]),
            t => self.of(t),
        }
    }
    fn any_ty(&mut self) -> Ty {
        match self.draw(14) {
            0..=2 => Ty::Int,
            3 => Ty::Bool,
            4 => Ty::Str,
            5 => Ty::Arr,
            6 => Ty::En(self.en.clone()),
            7 => Ty::St(self.st.clone()),
            8 | 9 => Ty::Num(self.nk()),
            10 => {
                self.ctx.ch.pick(&[Ty::Name, Ty::Id, Ty::Res]).clone()
            }
            11 => {
                let t = match self.draw(4) {
                    0 => Ty::Str,
                    1 => Ty::St(self.st.clone()),
                    2 => Ty::Num(self.nk()),
                    _ => Ty::Ref(self.classes[0].clone()),
                };
                Ty::Ls(Box::new(t))
            }
            12 => Ty::St(format!("Nest{}", self.t)),
            _ => Ty::Ref(self.ctx.ch.pick(&self.classes).clone()),
        }
    }
    fn place(&mut self) -> Option<E> {
        match self.draw(8) {
            5 => {
                let n = self.pick_var(&Ty::St(format!("Nest{}", self.t)), true)?;
                Some(E::Get(b(E::Get(b(E::V(n)), "s".into())), if self.ctx.ch.coin() { "a" } else { "b" }.into()))
            }
            6 => {
                let (o, _) = self.obj()?;
                Some(E::Get(b(E::Get(b(o), "st".into())), if self.ctx.ch.coin() { "a" } else { "b" }.into()))
            }
            0 => {
                let n = self.pick_var(&Ty::St(self.st.clone()), true)?;
                Some(E::Get(b(E::V(n)), if self.ctx.ch.coin() { "a" } else { "b" }.into()))
            }
            1 => {
                let (o, _) = self.obj()?;
                Some(E::Get(b(o), "n".into()))
            }
            2 => {
                let n = self.pick_var(&Ty::Arr, true)?;
                Some(E::Elem(b(E::V(n)), b(E::I(self.draw(3) as i32))))
            }
            _ => Some(E::V(self.pick_var(&Ty::Int, true)?)),
        }
    }
    fn block(&mut self, d: u32, n: usize) -> Vec<S> {
        let keep = self.vars.len();
        let mut out = vec![];
        for _ in 0..n {
            if self.budget == 0 {
                break;
            }
            self.budget -= 1;
            self.stmt(d, &mut out);
        }
        self.vars.truncate(keep);
        out
    }
    fn stmt(&mut self, d: u32, out: &mut Vec<S>) {
        let k = if d == 0 { self.draw(14) } else { self.draw(22) };
        // (10 to 13 only sometimes; then what nests)
        let k = if d == 0 && k >= 10 { k + 10 } else if k >= 18 { k + 2 } else { k };
        match k {
            0..=2 => {
                let mut t = self.any_ty();
                let init = self.ctx.ch.chance(3, 4) || matches!(t, Ty::Ref(_));
                let mut typed = self.ctx.ch.chance(2, 3);
                let e = init.then(|| self.of(&t));
                if matches!(e, Some(E::Num(_, true) | E::Arr(_))) {
                    typed = true;
                }
                if let (Ty::Ref(c), Some(e)) = (&t, &e) {
                    if !matches!(e, E::New(n, _) if n == c) {
                        typed = true;
                    }
                    if self.ctx.ch.chance(1, 4) {
                        t = Ty::WRef(c.clone());
                        typed = true;
                    }
                }
                let n = self.fresh();
                out.push(S::Let(n.clone(), t.clone(), e, typed));
                self.vars.push(Var { name: n, ty: t, free: true });
            }
            3 => {
                let t = self.any_ty();
                if let Some(n) = self.pick_var(&t, true) {
                    let e = self.of(&t);
                    out.push(S::Set(E::V(n), e));
                }
            }
            4 | 5 => {
                if let Some(p) = self.place() {
                    if self.ctx.ch.coin() {
                        let o = *self.ctx.ch.pick(&["+=", "-=", "*=", "|=", "&=", "/="]);
                        let e = if o == "/=" { E::I(1 + self.draw(5) as i32) } else { self.int(2) };
                        out.push(S::Op(o, p, e));
                    } else {
                        let e = self.int(2);
                        out.push(S::Set(p, e));
                    }
                }
            }
            6 => {
                if let Some(n) = self.pick_var(&Ty::Arr, true) {
                    let a = E::V(n);
                    let e = match self.draw(11) {
                        8 => E::Call("ArrayPop".into(), vec![a]),
                        9 => {
                            // an operation which changes the list gives a value, too
                            if let Some(x) = self.pick_var(&Ty::Int, true) {
                                out.push(S::Set(E::V(x), E::Call("ArrayPop".into(), vec![a])));
                            }
                            return;
                        }
                        10 => {
                            let c = match self.ctx.ch.coin() {
                                true => E::Call("ArrayRemove".into(), vec![a.clone(), self.int(1)]),
                                false => E::Call("ArrayErase".into(), vec![a.clone(), E::I(self.draw(3) as i32)]),
                            };
                            let yes = vec![S::Do(E::Call("ArrayPush".into(), vec![a.clone(), E::I(7)]))];
                            let no = vec![S::Do(E::Call("ArrayClear".into(), vec![a]))];
                            out.push(S::If(c, yes, no));
                            return;
                        }
                        0..=2 => E::Call("ArrayPush".into(), vec![a, self.int(1)]),
                        3 => E::Call("ArrayClear".into(), vec![a]),
                        4 => E::Call("ArrayInsert".into(), vec![a, E::I(self.draw(3) as i32), self.int(1)]),
                        5 => E::Call("ArrayErase".into(), vec![a, E::I(self.draw(3) as i32)]),
                        6 => E::Call("ArrayRemove".into(), vec![a, self.int(1)]),
                        _ => {
                            let f = *self.ctx.ch.pick(&["ArrayResize", "ArrayGrow"]);
                            E::Call(f.into(), vec![a, E::I(self.draw(4) as i32)])
                        }
                    };
                    out.push(S::Do(e));
                }
            }
            7 if self.calls > 0 => {
                // a function with an `out` parameter
                if let Some(p) = self.place() {
                    self.calls -= 1;
                    let e = self.int(2);
                    out.push(S::Do(E::Call(format!("Put{}", self.t), vec![e, p])));
                }
            }
            8 if self.in_loop || self.in_switch => {
                let c = self.bool(1);
                out.push(S::If(c, vec![S::Break], vec![]));
            }
            9 if self.ctx.ch.chance(1, 3) => {
                let c = self.bool(1);
                let e = self.result();
                out.push(S::If(c, vec![S::Ret(Some(e))], vec![]));
            }
            20 => match self.draw(4) {
                // what objects refer to
                0 => {
                    if let Some((o, _)) = self.obj() {
                        let f = E::Get(b(o), "next".into());
                        let e = match self.draw(3) {
                            0 => E::Null,
                            1 => E::New(self.classes[0].clone(), vec![]),
                            _ => self.obj().map_or(E::Null, |o| o.0),
                        };
                        out.push(S::Set(f, e));
                    }
                }
                1 => {
                    if let Some((o, _)) = self.obj() {
                        let next = E::Get(b(o), "next".into());
                        let a = self.int(1);
                        let call = if self.ctx.ch.coin() { S::Do(E::Meth(b(next.clone()), "Next".into(), vec![a])) } else { S::Op("+=", E::Get(b(next.clone()), "n".into()), a) };
                        out.push(S::If(E::Call("IsDefined".into(), vec![next]), vec![call], vec![]));
                    }
                }
                2 => {
                    if let Some((o, _)) = self.obj() {
                        let e = self.int(1);
                        out.push(S::Do(E::Call("ArrayPush".into(), vec![E::Get(b(o), "list".into()), e])));
                    }
                }
                _ => {
                    if let Some((o, _)) = self.obj() {
                        let t = Ty::St(self.st.clone());
                        let e = self.of(&t);
                        out.push(S::Set(E::Get(b(o), "st".into()), e));
                    }
                }
            },
            21 => {
                // lists of other things
                let t = match self.draw(3) {
                    0 => Ty::Str,
                    1 => Ty::St(self.st.clone()),
                    _ => Ty::Ref(self.classes[0].clone()),
                };
                if let Some(n) = self.pick_var(&Ty::Ls(Box::new(t.clone())), true) {
                    let e = match (self.draw(4), &t) {
                        (0, _) => E::Call("ArrayClear".into(), vec![E::V(n)]),
                        (1, _) => E::Call("ArrayInsert".into(), vec![E::V(n), E::I(0), self.arg(&t, 1)]),
                        (2, Ty::Str) => E::Call("ArrayRemove".into(), vec![E::V(n), self.arg(&t, 1)]),
                        (2, _) => E::Call("ArrayErase".into(), vec![E::V(n), E::I(0)]),
                        _ => E::Call("ArrayPush".into(), vec![E::V(n), self.arg(&t, 1)]),
                    };
                    out.push(S::Do(e));
                }
            }
            22 => {
                // a number of another kind
                let k = self.nk();
                if let Some(n) = self.pick_var(&Ty::Num(k), true) {
                    let e = self.num(k, 2);
                    if self.ctx.ch.coin() {
                        let o = *self.ctx.ch.pick(&["+=", "-=", "*="]);
                        out.push(S::Op(o, E::V(n), e));
                    } else {
                        out.push(S::Set(E::V(n), e));
                    }
                }
            }
            23 => {
                // for its effect alone
                let t = self.any_ty();
                if let Some(e) = self.call(&t, 2) {
                    out.push(S::Do(e));
                } else if let Some((o, _)) = self.obj() {
                    let e = self.int(1);
                    out.push(S::Do(E::Meth(b(o), "Next".into(), vec![e])));
                }
            }
            10..=12 => {
                let c = self.bool(2);
                let n = 1 + self.draw(3);
                let t = self.block(d - 1, n);
                let e = match self.draw(3) {
                    0 => vec![],
                    1 => {
                        let n = 1 + self.draw(2);
                        self.block(d - 1, n)
                    }
                    _ => {
                        let c = self.bool(1);
                        let t = self.block(d - 1, 1);
                        let e = self.block(d - 1, 1);
                        vec![S::If(c, t, e)]
                    }
                };
                out.push(S::If(c, t, e));
            }
            13 | 14 => {
                let c = self.fresh();
                out.push(S::Let(c.clone(), Ty::Int, Some(E::I(0)), true));
                self.vars.push(Var { name: c.clone(), ty: Ty::Int, free: false });
                let k = 1 + self.draw(4) as i32;
                let mut cond = E::Bin("<", b(var(&c)), b(E::I(k)));
                if self.ctx.ch.chance(1, 3) {
                    cond = E::Bin("&&", b(cond), b(self.bool(1)));
                }
                let (l, s) = (std::mem::replace(&mut self.in_loop, true), std::mem::replace(&mut self.in_switch, false));
                let calls = std::mem::replace(&mut self.calls, 1);
                let n = 1 + self.draw(3);
                let mut body = vec![S::Op("+=", var(&c), E::I(1))];
                body.extend(self.block(d - 1, n));
                self.calls = calls;
                (self.in_loop, self.in_switch) = (l, s);
                out.push(S::While(cond, body));
            }
            15 if self.ctx.ch.coin() => {
                let t = match self.draw(3) {
                    0 => Ty::Str,
                    1 => Ty::St(self.st.clone()),
                    _ => Ty::Ref(self.classes[0].clone()),
                };
                let lt = Ty::Ls(Box::new(t.clone()));
                let a = match self.pick_var(&lt, false) {
                    Some(n) => E::V(n),
                    None => self.of(&lt),
                };
                let x = self.fresh();
                let (l, s) = (std::mem::replace(&mut self.in_loop, true), std::mem::replace(&mut self.in_switch, false));
                let calls = std::mem::replace(&mut self.calls, 1);
                let keep = self.vars.len();
                self.vars.push(Var { name: x.clone(), ty: t, free: true });
                let n = 1 + self.draw(3);
                let body = self.block(d - 1, n);
                self.vars.truncate(keep);
                self.calls = calls;
                (self.in_loop, self.in_switch) = (l, s);
                out.push(S::For(x, a, body));
            }
            15 => {
                let a = match self.pick_var(&Ty::Arr, false) {
                    Some(n) if self.ctx.ch.coin() => E::V(n),
                    _ => self.of(&Ty::Arr),
                };
                let x = self.fresh();
                let (l, s) = (std::mem::replace(&mut self.in_loop, true), std::mem::replace(&mut self.in_switch, false));
                let calls = std::mem::replace(&mut self.calls, 1);
                let keep = self.vars.len();
                self.vars.push(Var { name: x.clone(), ty: Ty::Int, free: true });
                let n = 1 + self.draw(3);
                let body = self.block(d - 1, n);
                self.vars.truncate(keep);
                self.calls = calls;
                (self.in_loop, self.in_switch) = (l, s);
                out.push(S::For(x, a, body));
            }
            _ => {
                if self.ctx.ch.chance(1, 5) {
                    // on texts
                    let t = if self.ctx.ch.coin() { Ty::Str } else { Ty::Name };
                    if let Some(n) = self.pick_var(&t, false) {
                        let mut cases = vec![];
                        let (l, s) = (std::mem::replace(&mut self.in_loop, false), std::mem::replace(&mut self.in_switch, true));
                        for x in ["a", "x y", "b"] {
                            let label = if t == Ty::Str { E::S(x.into()) } else { E::Name(x.into()) };
                            let mut body = self.block(d - 1, 1);
                            if !plain_end(&body) || self.draw(3) > 0 {
                                body.push(S::Break);
                            }
                            cases.push((vec![label], body));
                        }
                        let default = if self.ctx.ch.coin() { Some(self.block(d - 1, 1)).filter(|b| !b.is_empty()) } else { None };
                        (self.in_loop, self.in_switch) = (l, s);
                        out.push(S::Switch(E::V(n), cases, default));
                        return;
                    }
                }
                let on_enum = self.ctx.ch.chance(1, 3);
                let e = if on_enum {
                    match self.pick_var(&Ty::En(self.en.clone()), false) {
                        Some(n) => E::V(n),
                        None => self.member(),
                    }
                } else {
                    E::Bin("&", b(self.int(1)), b(E::I(3)))
                };
                let (l, s) = (std::mem::replace(&mut self.in_loop, false), std::mem::replace(&mut self.in_switch, true));
                let mut left: Vec<i32> = (0..if on_enum { self.members as i32 } else { 4 }).collect();
                let mut cases = vec![];
                for _ in 0..1 + self.draw(3) {
                    let mut labels = vec![];
                    for _ in 0..1 + usize::from(self.draw(3) == 0) {
                        if left.is_empty() {
                            break;
                        }
                        let k = left.remove(self.draw(left.len() as u64));
                        labels.push(if on_enum { E::En(self.en.clone(), format!("M{k}")) } else { E::I(k) });
                    }
                    if labels.is_empty() {
                        break;
                    }
                    let n = 1 + self.draw(2);
                    let mut body = self.block(d - 1, n);
                    match self.draw(6) {
                        0 => body.push(S::Ret(Some(self.result()))),
                        // on into the next
                        1 | 2 if plain_end(&body) => {}
                        _ => body.push(S::Break),
                    }
                    cases.push((labels, body));
                }
                let default = if self.ctx.ch.coin() { Some(self.block(d - 1, 1)).filter(|b| !b.is_empty()) } else { None };
                (self.in_loop, self.in_switch) = (l, s);
                out.push(S::Switch(e, cases, default));
            }
        }
    }
    /// What is returned: as much of what is in sight as the type lets through.
    fn result(&mut self) -> E {
        match self.ret.clone() {
            Ty::Str => self.dump(),
            t => {
                self.calls = self.calls.max(1);
                self.arg(&t, 2)
            }
        }
    }
    /// All there is to see, as a text.
    fn dump(&mut self) -> E {
        let mut l = vec![];
        for v in &self.vars {
            let n = var(&v.name);
            let e = match &v.ty {
                Ty::Int | Ty::Str | Ty::Num(_) | Ty::Name => n,
                Ty::Res => E::Cond(b(E::Call("Equals".into(), vec![n, E::Res("c.ent".into())])), b(E::I(1)), b(E::I(0))),
                Ty::Id => E::Cond(b(E::Call("Equals".into(), vec![n, E::Id("Items.a".into())])), b(E::I(1)), b(E::I(0))),
                Ty::Ls(t) => {
                    let some = E::Bin(">", b(E::Call("ArraySize".into(), vec![n.clone()])), b(E::I(0)));
                    let last = E::Elem(b(n.clone()), b(E::Bin("-", b(E::Call("ArraySize".into(), vec![n])), b(E::I(1)))));
                    match &**t {
                        Ty::Str => E::Cond(b(some), b(last), b(E::S("-".into()))),
                        Ty::St(_) => E::Cond(b(some), b(E::Get(b(last), "a".into())), b(E::I(-7))),
                        Ty::Ref(_) => E::Cond(b(some), b(E::Get(b(last), "n".into())), b(E::I(-7))),
                        Ty::Num(k) => E::Cond(b(some), b(last), b(E::Num(k.of(3), false))),
                        t => panic!("list of {t:?}"),
                    }
                }
                Ty::St(s) if *s != self.st => {
                    l.push((E::Get(b(n.clone()), "t".into()), "/".to_string()));
                    l.push((E::Get(b(n.clone()), "f".into()), "/".to_string()));
                    let s = E::Get(b(n), "s".into());
                    E::Bin("-", b(E::Get(b(s.clone()), "a".into())), b(E::Get(b(s), "b".into())))
                }
                Ty::Bool => E::Cond(b(n), b(E::I(1)), b(E::I(0))),
                Ty::Arr => E::Call(format!("Sum{}", self.t), vec![n]),
                Ty::En(_) => E::Call("EnumInt".into(), vec![n]),
                Ty::St(_) => E::Bin("-", b(E::Get(b(n.clone()), "a".into())), b(E::Get(b(n), "b".into()))),
                Ty::Ref(_) | Ty::WRef(_) => E::Get(b(n), "n".into()),
                Ty::SRef => continue,
            };
            l.push((e, ",".to_string()));
        }
        if l.is_empty() {
            return E::S("nothing".into());
        }
        E::Interp(String::new(), l)
    }
}

/// Whether a body may run on into the next case. (What ends in a switch may not: to tell the labels of the two apart is
/// up to the game.)
fn plain_end(b: &[S]) -> bool {
    matches!(b.last(), Some(S::Let(..) | S::Set(..) | S::Op(..) | S::Do(..)))
}

/// A method of two parameter types.
fn say(k: usize, t: Ty, mark: &str) -> Fun {
    Fun {
        name: format!("Say#{k}"),
        params: vec![("x".into(), t, "")],
        ret: Some(Ty::Str),
        body: vec![S::Ret(Some(E::Interp(format!("{mark}{k}"), vec![(var("x"), ":".into()), (E::Get(b(E::This), "n".into()), "".into())])))],
        quals: "public ",
        short: k == 1,
    }
}

/// A library a program may use: a module of its own.
fn library(ctx: &mut Ctx, t: &str) -> Prog {
    let k = ctx.ch.draw(50) as i32;
    let one = Fun { name: format!("Const{t}"), params: vec![], ret: Some(Ty::Int), body: vec![S::Ret(Some(E::I(k)))], quals: "public ", short: ctx.ch.coin() };
    Prog { fns: vec![one], module: Some(format!("Lib{t}")), ..Prog::default() }
}

/// The text without the mark of the program in the names of its types and functions.
fn same_names(text: &str, t: &str) -> String {
    let mut out = String::new();
    for w in text.split_inclusive(|c: char| !c.is_alphanumeric() && c != '_') {
        let own = ["K", "En", "St", "Nest", "Sum", "Opt", "Rec", "Put", "Quote", "Over", "F"].iter().find(|p| w.strip_prefix(**p).is_some_and(|r| r.starts_with(t)));
        match own {
            Some(p) => out += &format!("{p}Same{}", &w[p.len() + t.len()..]),
            None => out += w,
        }
    }
    out
}

/// The files of a program: text and what it means. `libs`: modules of other mods that may be there or not.
pub fn make(ctx: &mut Ctx, t: &str, libs: &[String]) -> Vec<(String, Prog)> {
    let members = 2 + ctx.ch.draw(3) as usize;
    let classes: Vec<String> = (0..1 + ctx.ch.draw(3)).map(|k| format!("K{t}x{k}")).collect();
    let mut defs = Prog::default();
    let values: Vec<(String, i64)> = (0..members).map(|k| (format!("M{k}"), k as i64 * (1 + ctx.ch.draw(7) as i64) + i64::from(k > 0))).collect();
    // no two of one value
    let mut seen = vec![];
    let values: Vec<(String, i64)> = values
        .into_iter()
        .map(|(n, mut v)| {
            while seen.contains(&v) {
                v += 1;
            }
            seen.push(v);
            (n, v)
        })
        .collect();
    defs.enums.push((format!("En{t}"), values));
    let st = Ty::St(format!("St{t}"));
    defs.structs.push((format!("St{t}"), vec![("a".into(), Ty::Int), ("b".into(), Ty::Int)]));
    defs.structs.push((format!("Nest{t}"), vec![("s".into(), st.clone()), ("t".into(), Ty::Str), ("f".into(), Ty::Num(Nk::F))]));
    for (k, c) in classes.iter().enumerate() {
        let mut funs = vec![];
        let q = "public ";
        if k == 0 {
            funs.push(Fun {
                name: "Next".into(),
                params: vec![("by".into(), Ty::Int, "")],
                ret: Some(Ty::Int),
                body: vec![S::Op("+=", E::Get(b(E::This), "n".into()), E::Bin("+", b(var("by")), b(E::I(1)))), S::Ret(Some(E::Get(b(E::This), "n".into())))],
                quals: if ctx.ch.coin() { "public final " } else { q },
                short: false,
            });
            funs.push(Fun {
                name: "Kind".into(),
                params: vec![("x".into(), Ty::Int, "")],
                ret: Some(Ty::Int),
                body: vec![S::Ret(Some(E::Bin("+", b(E::Meth(b(E::This), "Next".into(), vec![E::I(0)])), b(var("x")))))],
                quals: q,
                short: ctx.ch.coin(),
            });
            funs.push(Fun {
                name: "Twice".into(),
                params: vec![("x".into(), Ty::Int, "")],
                ret: Some(Ty::Int),
                body: vec![S::Ret(Some(E::Bin("*", b(var("x")), b(E::I(2)))))],
                quals: "public static ",
                short: ctx.ch.coin(),
            });
            for (k, ty) in [Ty::Int, Ty::Str].into_iter().enumerate() {
                funs.push(say(k, ty, "="));
            }
        } else if ctx.ch.coin() {
            if ctx.ch.coin() {
                funs.push(say(0, Ty::Int, "<"));
            }
            if ctx.ch.coin() {
                funs.push(say(1, Ty::Str, ">"));
            }
            let x = ctx.ch.draw(90) as i32;
            funs.push(Fun {
                name: "Kind".into(),
                params: vec![("x".into(), Ty::Int, "")],
                ret: Some(Ty::Int),
                body: vec![S::Ret(Some(E::Bin("*", b(E::Super("Kind".into(), vec![E::Bin("-", b(var("x")), b(E::I(x)))])), b(E::I(2 + k as i32)))))],
                quals: q,
                short: false,
            });
        }
        let fields = if k == 0 {
            let next = if ctx.ch.coin() { Ty::Ref(c.clone()) } else { Ty::WRef(c.clone()) };
            vec![("n".to_string(), Ty::Int), ("next".to_string(), next), ("st".to_string(), st.clone()), ("list".to_string(), Ty::Arr)]
        } else { vec![(format!("m{k}"), Ty::Int)] };
        defs.classes.push(Cls { name: c.clone(), base: if k == 0 { None } else { Some(classes[k - 1].clone()) }, fields, funs });
    }
    let q = *ctx.ch.pick(&["public ", "public static "]);
    defs.fns.push(Fun {
        name: format!("Sum{t}"),
        params: vec![("l".into(), Ty::Arr, "")],
        ret: Some(Ty::Int),
        body: vec![
            S::Let("s".into(), Ty::Int, Some(E::Call("ArraySize".into(), vec![var("l")])), false),
            S::For("x".into(), var("l"), vec![S::Set(var("s"), E::Bin("+", b(E::Bin("*", b(var("s")), b(E::I(31)))), b(var("x"))))]),
            S::Ret(Some(var("s"))),
        ],
        quals: q,
        short: false,
    });
    defs.fns.push(Fun {
        name: format!("Opt{t}"),
        params: vec![("a".into(), Ty::Int, ""), ("c".into(), Ty::Int, "opt "), ("d".into(), Ty::Int, "opt ")],
        ret: Some(Ty::Int),
        body: vec![S::Ret(Some(E::Bin("-", b(E::Bin("+", b(var("a")), b(E::Bin("*", b(var("c")), b(E::I(5)))))), b(var("d")))))],
        quals: q,
        short: ctx.ch.coin(),
    });
    defs.fns.push(Fun {
        name: format!("Rec{t}"),
        params: vec![("k".into(), Ty::Int, "")],
        ret: Some(Ty::Int),
        body: vec![
            S::If(E::Bin("||", b(E::Bin("<", b(var("k")), b(E::I(1)))), b(E::Bin(">", b(var("k")), b(E::I(12))))), vec![S::Ret(Some(E::I(1)))], vec![]),
            S::Ret(Some(E::Bin("%", b(E::Bin("*", b(var("k")), b(E::Call(format!("Rec{t}"), vec![E::Bin("-", b(var("k")), b(E::I(1)))])))), b(E::I(1009))))),
        ],
        quals: q,
        short: false,
    });
    defs.fns.push(Fun {
        name: format!("Put{t}"),
        params: vec![("a".into(), Ty::Int, ""), ("o".into(), Ty::Int, "out ")],
        ret: None,
        body: vec![S::Set(var("o"), E::Bin("+", b(E::Bin("*", b(var("o")), b(E::I(3)))), b(var("a")))), S::If(E::Bin(">", b(var("a")), b(E::I(40))), vec![S::Ret(None)], vec![]), S::Op("+=", var("o"), E::I(1))],
        quals: q,
        short: false,
    });
    defs.fns.push(Fun {
        name: format!("Quote{t}"),
        params: vec![("s".into(), Ty::SRef, "")],
        ret: Some(Ty::Str),
        body: vec![S::Ret(Some(E::Interp("<".into(), vec![(var("s"), ">".into())])))],
        quals: q,
        short: false,
    });
    for (k, (ty, e)) in [
        (Ty::Int, E::Bin("*", b(var("a")), b(E::I(3)))),
        (Ty::Num(Nk::F), E::Bin("+", b(E::Call("Cast<Int32>".into(), vec![var("a")])), b(E::I(100)))),
        (Ty::Str, E::Cond(b(E::Call("Equals".into(), vec![var("a"), E::S("a".into())])), b(E::I(5)), b(E::I(6)))),
        (Ty::Bool, E::Cond(b(var("a")), b(E::I(21)), b(E::I(22)))),
        (Ty::En(format!("En{t}")), E::Bin("-", b(E::Call("EnumInt".into(), vec![var("a")])), b(E::I(4)))),
    ]
    .into_iter()
    .enumerate()
    {
        defs.fns.push(Fun { name: format!("Over{t}#{k}"), params: vec![("a".into(), ty, "")], ret: Some(Ty::Int), body: vec![S::Ret(Some(e))], quals: q, short: ctx.ch.coin() });
    }
    defs.fns.push(Fun {
        name: format!("Over{t}#5"),
        params: vec![("a".into(), Ty::Int, ""), ("c".into(), Ty::Int, "")],
        ret: Some(Ty::Int),
        body: vec![S::Ret(Some(E::Bin("-", b(var("a")), b(var("c")))))],
        quals: q,
        short: false,
    });
    let mut ints = vec![(format!("Opt{t}"), 3, 1), (format!("Rec{t}"), 1, 1)];
    let mut funs: Vec<Sig> = vec![];
    // functions and methods of any shape
    for k in 0..ctx.ch.draw(3) {
        let mut g = Gen::new(ctx, t, &classes, members, &ints, &funs);
        let mut params = vec![];
        for j in 0..g.draw(4) {
            let ty = g.any_ty();
            params.push((format!("a{j}"), ty, if g.draw(4) == 0 { "opt " } else { "" }));
        }
        if g.draw(3) == 0 {
            let ty = if g.ctx.ch.coin() { Ty::Int } else { Ty::Num(Nk::F) };
            params.insert(0, ("o".into(), ty, "out "));
        }
        // what may be left out comes last, and is no object
        if let Some(f) = params.iter().position(|p| p.2 == "opt ") {
            for p in &mut params[f..] {
                p.2 = if p.2 == "out " { "" } else { "opt " };
                if matches!(p.1, Ty::Ref(_)) {
                    p.1 = Ty::Int;
                }
            }
        }
        let ret = match g.any_ty() {
            Ty::Ref(_) | Ty::WRef(_) | Ty::Ls(_) | Ty::Arr => Ty::Str,
            t => t,
        };
        g.ret = ret.clone();
        for (n, ty, _) in &params {
            g.vars.push(Var { name: n.clone(), ty: ty.clone(), free: true });
        }
        g.budget = 9;
        let body = g.body(4);
        let name = format!("F{t}x{k}");
        funs.push((name.clone(), params.clone(), ret.clone()));
        defs.fns.push(Fun { name, params, ret: Some(ret), body, quals: q, short: false });
    }
    for k in 0..classes.len() {
        if k > 0 && ctx.ch.coin() {
            continue;
        }
        let mut g = Gen::new(ctx, t, &classes, members, &ints, &funs);
        g.this = Some(k);
        g.ret = Ty::Int;
        g.budget = 7;
        for (n, ty) in [("x", Ty::Int), ("f", Ty::Num(Nk::F))] {
            g.vars.push(Var { name: n.into(), ty, free: true });
        }
        let body = g.body(3);
        let params = vec![("x".into(), Ty::Int, ""), ("f".into(), Ty::Num(Nk::F), "")];
        defs.classes[k].funs.push(Fun { name: "Do".into(), params, ret: Some(Ty::Int), body, quals: "public ", short: false });
    }
    let mut main = Prog { entry: format!("Main{t}"), ..Prog::default() };
    let mut header = String::new();
    let apart = ctx.ch.chance(1, 2);
    let lib = ctx.ch.chance(1, 2);
    let own = ctx.ch.chance(1, 3).then(|| format!("Own{t}"));
    if let Some(m) = &own {
        header += &format!("module {m}\n");
    }
    let mut files = vec![];
    let mut lib_header = String::new();
    let mut named = None;
    if apart {
        let m = *ctx.ch.pick(&["Defs", "Defs.Inner", "A.B"]);
        let m = format!("{m}{t}");
        lib_header = format!("module {m}\n");
        defs.module = Some(m.clone());
        header += &match ctx.ch.draw(3) {
            0 | 1 => format!("import {m}.*\n"),
            _ => {
                let mut names: Vec<String> = defs.fns.iter().map(|f| shown(&f.name).to_string()).collect();
                names.dedup();
                names.extend(defs.classes.iter().map(|c| c.name.clone()));
                names.extend([format!("En{t}"), format!("St{t}"), format!("Nest{t}")]);
                // (what is never named need not be imported)
                let (all, one) = (ctx.ch.coin(), ctx.ch.coin());
                named = Some((m, names, all, one));
                "IMPORTS\n".into()
            }
        };
    }
    if lib {
        let l = library(ctx, t);
        header += &format!("import {}.*\n", l.module.as_ref().unwrap());
        ints.push((format!("Const{t}"), 0, 0));
        let text = l.text(&format!("module {}\n", l.module.as_ref().unwrap()), 0);
        files.push((text, l));
    }
    // something that depends on another mod
    let other = (!libs.is_empty() && ctx.ch.coin()).then(|| ctx.ch.pick(libs).clone());
    if let Some(o) = &other {
        header += &format!("@if(ModuleExists(\"Lib{o}\"))\nimport Lib{o}.*\n");
        for there in [true, false] {
            let e = if there { E::Bin("+", b(E::Call(format!("Const{o}"), vec![])), b(E::I(1000))) } else { E::I(ctx.ch.draw(99) as i32) };
            main.conds.push((format!("Lib{o}"), there, Fun { name: format!("Alt{t}"), params: vec![], ret: Some(Ty::Int), body: vec![S::Ret(Some(e))], quals: "", short: there }));
        }
    }
    let mut g = Gen::new(ctx, t, &classes, members, &ints, &funs);
    g.alt = other.is_some();
    for p in ["p0", "p1"] {
        g.vars.push(Var { name: p.into(), ty: Ty::Int, free: true });
    }
    let n = g.draw(5);
    let body = g.body(2 + n);
    let ctx = g.ctx;
    main.fns.push(Fun {
        name: main.entry.clone(),
        params: vec![("p0".into(), Ty::Int, ""), ("p1".into(), Ty::Int, "")],
        ret: Some(Ty::Str),
        body,
        quals: *ctx.ch.pick(&["public ", "", "public static "]),
        short: false,
    });
    main.module = own;
    let order = ctx.ch.draw(128);
    if apart {
        let mut theirs = defs.text(&lib_header, ctx.ch.draw(128));
        let mut text = main.text(&header, order);
        if let Some((m, mut names, all, one)) = named {
            names.retain(|n| all || text.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == n));
            let list = match one {
                _ if names.is_empty() => String::new(),
                true => format!("import {m}.{{{}}}", names.join(", ")),
                false => names.iter().map(|n| format!("import {m}.{n}\n")).collect(),
            };
            text = text.replacen("IMPORTS", &list, 1);
        }
        // other modules may have the same names
        if ctx.ch.coin() {
            (theirs, text) = (same_names(&theirs, t), same_names(&text, t));
        }
        files.push((theirs, defs));
        files.push((text, main));
    } else {
        main.fns.extend(defs.fns);
        main.classes = defs.classes;
        main.enums = defs.enums;
        main.structs = defs.structs;
        files.push((main.text(&header, order), main));
    }
    files
}
