//! Meaningful bundles: declarations and function bodies whose source text is known, assembled the way the game's
//! compiler lays code out. Nothing here uses the repository's code.
use crate::model::*;
use simkit::Choices;
use std::collections::BTreeMap;

pub struct Builder {
    pub m: MBundle,
    names: BTreeMap<String, u32>,
    /// indices kept free at the front: what takes them stands before its parent and its type
    free: Vec<u32>,
}

impl Builder {
    pub fn new() -> Self {
        Builder {
            m: MBundle {
                head: MHead {
                    version: 14,
                    flags: 0,
                    timestamp: [1; 8],
                    unk3: 0,
                    chunks: 0,
                },
                names: vec!["None".into()],
                tweakdb: vec!["".into()],
                resources: vec!["".into()],
                strings: vec!["".into()],
                defs: vec![],
            },
            names: BTreeMap::new(),
            free: vec![],
        }
    }
    /// Keeps `n` indices for later definitions.
    fn reserve(&mut self, n: u32) {
        let first = self.next();
        for _ in 0..n {
            self.def("Spare", 0, MKind::Type { tag: 0, inner: 0, size: 0 });
        }
        self.free = (first..first + n).collect();
    }
    pub fn name(&mut self, s: &str) -> u32 {
        if let Some(i) = self.names.get(s) {
            return *i;
        }
        self.m.names.push(s.into());
        let i = self.m.names.len() as u32 - 1;
        self.names.insert(s.into(), i);
        i
    }
    pub fn next(&self) -> u32 {
        match self.free.last() {
            Some(i) if (self.free.len() + self.m.defs.len()) % 3 != 0 => *i,
            _ => self.m.defs.len() as u32 + 1,
        }
    }
    pub fn def(&mut self, name: &str, parent: u32, kind: MKind) -> u32 {
        let name = self.name(name);
        let i = self.next();
        let d = MDef { name, parent, unk: [0; 3], kind }.canon();
        if self.free.last() == Some(&i) {
            self.free.pop();
            self.m.defs[i as usize - 1] = d;
        } else {
            self.m.defs.push(d);
        }
        i
    }
    pub fn set(&mut self, i: u32, kind: MKind) {
        let d = &mut self.m.defs[i as usize - 1];
        d.kind = kind;
        *d = d.clone().canon();
    }
}

const BIN: &[(&str, &str, u8, bool)] = &[
    ("OperatorAssignAdd", "+=", 10, false),
    ("OperatorAssignSubtract", "-=", 10, false),
    ("OperatorAssignMultiply", "*=", 10, false),
    ("OperatorAssignDivide", "/=", 10, false),
    ("OperatorAssignOr", "|=", 10, false),
    ("OperatorAssignAnd", "&=", 10, false),
    ("OperatorLogicOr", "||", 9, true),
    ("OperatorLogicAnd", "&&", 8, true),
    ("OperatorOr", "|", 7, true),
    ("OperatorXor", "^", 6, true),
    ("OperatorAnd", "&", 5, true),
    ("OperatorEqual", "==", 4, false),
    ("OperatorNotEqual", "!=", 4, false),
    ("OperatorLess", "<", 3, false),
    ("OperatorLessEqual", "<=", 3, false),
    ("OperatorGreater", ">", 3, false),
    ("OperatorGreaterEqual", ">=", 3, false),
    ("OperatorAdd", "+", 2, true),
    ("OperatorSubtract", "-", 2, true),
    ("OperatorMultiply", "*", 1, true),
    ("OperatorDivide", "/", 1, false),
    ("OperatorModulo", "%", 1, false),
];
const UN: &[(&str, &str)] = &[("OperatorBitNot", "~"), ("OperatorLogicNot", "!"), ("OperatorNeg", "-")];

/// opcode, arguments, name in the text, how the type operand shows
const INTRINSICS: &[(u8, usize, &str)] = &[
    (42, 2, "Equals"),
    (43, 2, "Equals"),
    (44, 2, "Equals"),
    (45, 2, "NotEquals"),
    (46, 2, "NotEquals"),
    (47, 2, "NotEquals"),
    (49, 1, "Delete"),
    (52, 1, "ArrayClear"),
    (53, 1, "ArraySize"),
    (54, 2, "ArrayResize"),
    (55, 2, "ArrayFindFirst"),
    (56, 2, "ArrayFindFirst"),
    (57, 2, "ArrayFindLast"),
    (58, 2, "ArrayFindLast"),
    (59, 2, "ArrayContains"),
    (60, 2, "ArrayContains"),
    (61, 2, "ArrayCount"),
    (62, 2, "ArrayCount"),
    (63, 2, "ArrayPush"),
    (64, 1, "ArrayPop"),
    (65, 3, "ArrayInsert"),
    (66, 2, "ArrayRemove"),
    (67, 2, "ArrayRemove"),
    (68, 2, "ArrayGrow"),
    (69, 2, "ArrayErase"),
    (70, 2, "ArrayErase"),
    (71, 1, "ArrayLast"),
    (73, 1, "ArraySort"),
    (74, 2, "ArraySortByPredicate"),
    (75, 1, "ArraySize"),
    (76, 2, "ArrayFindFirst"),
    (77, 2, "ArrayFindFirst"),
    (78, 2, "ArrayFindLast"),
    (79, 2, "ArrayFindLast"),
    (80, 2, "ArrayContains"),
    (81, 2, "ArrayContains"),
    (82, 2, "ArrayCount"),
    (83, 2, "ArrayCount"),
    (84, 1, "ArrayLast"),
    (86, 1, "IsDefined"),
    (87, 1, "IsDefined"),
    (88, 1, "EnumInt"),
    (91, 1, "ToString"),
    (92, 1, "ToVariant"),
    (94, 1, "IsDefined"),
    (95, 1, "VariantIsRef"),
    (96, 1, "VariantIsArray"),
    (97, 1, "VariantTypeName"),
    (98, 1, "ToString"),
    (103, 1, "Deref"),
];
const HIDDEN: &[(u8, &str)] = &[(99, "WeakRefToRef"), (100, "RefToWeakRef"), (102, "AsRef")];

#[derive(Clone, Debug)]
pub enum Lay {
    /// the instruction, then the arguments
    Prefix(MInstr),
    /// an invocation: the arguments end with a marker; `skips` says which instruction precedes each argument
    Call(MInstr, Vec<u8>),
    /// context: first argument is the object, second what is done with it
    Context,
    Cond,
}
#[derive(Clone, Debug)]
pub enum Show {
    Text(String),
    Call(String, Option<String>),
    Hidden(&'static str),
    Bin(usize),
    Un(usize),
    /// call on a fixed receiver
    On(String, String),
    Dot(String),
    Elem,
    New(String),
    Cast(String),
    Cond,
    /// context: how the second argument shows on the first
    Ctx,
    /// inside a context only
    CtxField(String),
    CtxCall(String),
}
#[derive(Clone, Debug)]
pub struct E {
    pub lay: Lay,
    pub args: Vec<E>,
    pub show: Show,
}

#[derive(Clone, Debug)]
pub enum S {
    Expr(E),
    Assign(E, E),
    If(E, Vec<S>, Option<Vec<S>>),
    While(E, Vec<S>),
    Switch(E, Vec<(E, Vec<S>)>, Option<Vec<S>>),
    Return(Option<E>),
    Break,
    /// takes no part in the text
    Silent(MInstr),
}

/// What the generator may refer to.
#[derive(Default, Clone)]
pub struct World {
    pub types: Vec<(u32, String, String)>,
    pub plain_types: Vec<(u32, String, String)>,
    pub classes: Vec<(u32, String)>,
    pub fields: Vec<(u32, String)>,
    pub enums: Vec<(u32, String, Vec<(u32, String)>)>,
    /// free functions: index, mangled name
    pub free: Vec<(u32, String)>,
    pub casts: Vec<(u32, String)>,
    pub statics: Vec<(u32, String, String)>,
    pub methods: Vec<(u32, String)>,
    pub bins: Vec<u32>,
    pub uns: Vec<u32>,
    pub texts: Vec<String>,
}

pub struct Gen<'a> {
    pub ch: &'a mut Choices,
    pub b: &'a mut Builder,
    pub w: &'a World,
    pub locals: Vec<(u32, String, String)>,
    pub params: Vec<(u32, String)>,
    /// the method of a base class that the function being written overrides
    pub sup: Option<(u32, String)>,
    pub budget: i64,
}

fn i(op: u8, a: &[u64]) -> MInstr {
    MInstr::new(op, a)
}

impl Gen<'_> {
    fn lit(&mut self) -> E {
        let t = |ins: MInstr, s: String| E {
            lay: Lay::Prefix(ins),
            args: vec![],
            show: Show::Text(s),
        };
        let v = crate::gen::val(self.ch);
        match self.ch.draw(24) {
            0 => t(i(1, &[]), "null".into()),
            1 => t(i(101, &[]), "null".into()),
            2 => t(i(2, &[]), "1".into()),
            3 => t(i(3, &[]), "0".into()),
            4 => t(i(4, &[i64::from(v as i8) as u64]), (v as i8).to_string()),
            5 => t(i(5, &[i64::from(v as i16) as u64]), (v as i16).to_string()),
            6 => t(i(6, &[i64::from(v as i32) as u64]), (v as i32).to_string()),
            7 => t(i(7, &[v]), format!("{}l", v as i64)),
            8 => t(i(8, &[u64::from(v as u8)]), format!("{}u", v as u8)),
            9 => t(i(9, &[u64::from(v as u16)]), format!("{}u", v as u16)),
            10 => t(i(10, &[u64::from(v as u32)]), format!("{}u", v as u32)),
            11 => t(i(11, &[v]), format!("{v}ul")),
            12 => {
                let (s, neg) = (self.ch.draw(100_000), self.ch.coin());
                let f = s as f32 / *self.ch.pick(&[1.0, 4.0, 64.0, 100.0, 1e9, 1e-30, 0.7]) * if neg { -1.0 } else { 1.0 };
                let s = if format!("{f:.2}").parse() == Ok(f) { format!("{f:.2}") } else { format!("{f}") };
                t(i(12, &[u64::from(f.to_bits())]), s)
            }
            13 => {
                let f = self.ch.draw(10_000_000) as f64 / *self.ch.pick(&[1.0, 10.0, 128.0, 1e12, 1e-200, 3.0]);
                let s = if format!("{f:.2}").parse() == Ok(f) { format!("{f:.2}") } else { format!("{f}") };
                t(i(13, &[f.to_bits()]), s + "d")
            }
            14..=17 => {
                let k = self.ch.draw(4);
                let s = self.ch.pick(&self.w.texts).clone();
                let esc: String = s.escape_default().collect();
                let (l, op, q) = match k {
                    0 => (&mut self.b.m.strings, 16, ""),
                    1 => {
                        let n = self.b.name(&s);
                        return t(i(14, &[n.into()]), format!("n\"{esc}\""));
                    }
                    2 => (&mut self.b.m.tweakdb, 17, "t"),
                    _ => (&mut self.b.m.resources, 18, "r"),
                };
                let at = l.iter().position(|x| *x == s).unwrap_or_else(|| {
                    l.push(s.clone());
                    l.len() - 1
                });
                t(i(op, &[at as u64]), format!("{q}\"{esc}\""))
            }
            18 => t(i(19, &[]), "true".into()),
            19 => t(i(20, &[]), "false".into()),
            20 if !self.w.enums.is_empty() => {
                let (e, en, mem) = self.ch.pick(&self.w.enums).clone();
                let (m, mn) = self.ch.pick(&mem).clone();
                t(i(15, &[e.into(), m.into()]), format!("{en}.{mn}"))
            }
            21 => t(i(50, &[]), "this".into()),
            _ => self.place(),
        }
    }
    /// Something that can stand before a dot or an index, or on the left of an assignment.
    pub fn place(&mut self) -> E {
        let t = |ins: MInstr, s: String| E {
            lay: Lay::Prefix(ins),
            args: vec![],
            show: Show::Text(s),
        };
        match self.ch.draw(4) {
            0 | 3 if !self.locals.is_empty() => {
                let (x, n, _) = self.ch.pick(&self.locals).clone();
                t(i(24, &[x.into()]), n)
            }
            1 if !self.params.is_empty() => {
                let (x, n) = self.ch.pick(&self.params).clone();
                t(i(25, &[x.into()]), n)
            }
            _ => {
                let (x, n) = self.ch.pick(&self.w.fields).clone();
                t(i(26, &[x.into()]), format!("this.{n}"))
            }
        }
    }
    /// Mostly a place, perhaps anything.
    fn object(&mut self, d: u32) -> E {
        if self.ch.chance(1, 3) {
            self.expr(d.min(2))
        } else {
            self.place()
        }
    }
    fn ty(&mut self) -> (u64, String) {
        let (x, _, p) = self.ch.pick(&self.w.plain_types).clone();
        (x.into(), p)
    }
    fn args(&mut self, depth: u32) -> (Vec<E>, Vec<u8>) {
        let n = self.ch.weighted(&[2, 4, 3, 1]);
        let args: Vec<E> = (0..n).map(|_| self.expr(depth)).collect();
        // before each argument and before the end marker: nothing, a skip, or an omitted argument
        let skips = (0..=n).map(|_| self.ch.weighted(&[8, 1, 1]) as u8).collect();
        (args, skips)
    }
    pub fn expr(&mut self, depth: u32) -> E {
        self.budget -= 1;
        if depth == 0 || self.budget < 0 {
            return self.lit();
        }
        let d = depth - 1;
        let line = self.ch.draw(500);
        match self.ch.weighted(&[4, 6, 2, 4, 3, 3, 2, 2, 2, 2, 2, 3, 1, 2, 2, 1, 1]) {
            0 => self.lit(),
            1 => {
                let k = 6 + self.ch.below(BIN.len() - 6);
                let (l, r) = (self.expr(d), self.expr(d));
                self.bin(k, l, r, line)
            }
            2 => {
                let k = self.ch.below(UN.len());
                let a = self.expr(d);
                let f = self.w.uns[k];
                E {
                    lay: Lay::Call(i(36, &[0, line, f.into(), 0]), vec![0, 0]),
                    args: vec![a],
                    show: Show::Un(k),
                }
            }
            3 => {
                let (f, n) = self.ch.pick(&self.w.free).clone();
                let (args, skips) = self.args(d);
                let n = n.split(';').next().unwrap().to_string();
                E {
                    lay: Lay::Call(i(36, &[0, line, f.into(), 0]), skips),
                    args,
                    show: Show::Call(n, None),
                }
            }
            4 => {
                // on an object
                let o = self.expr(d.min(1));
                let (args, skips) = self.args(d);
                let inner = if self.ch.coin() {
                    let (f, n) = self.ch.pick(&self.w.methods).clone();
                    E {
                        lay: Lay::Call(i(36, &[0, line, f.into(), 0]), skips),
                        args,
                        show: Show::CtxCall(n.split(';').next().unwrap().into()),
                    }
                } else {
                    let n = self.ch.pick(&self.w.methods).1.clone();
                    let ni = self.b.name(&n);
                    E {
                        lay: Lay::Call(i(37, &[0, line, ni.into(), 0]), skips),
                        args,
                        show: Show::CtxCall(n.split(';').next().unwrap().into()),
                    }
                };
                E {
                    lay: Lay::Context,
                    args: vec![o, inner],
                    show: Show::Ctx,
                }
            }
            5 => {
                let o = self.object(d);
                let (x, n) = self.ch.pick(&self.w.fields).clone();
                E {
                    lay: Lay::Context,
                    args: vec![
                        o,
                        E {
                            lay: Lay::Prefix(i(26, &[x.into()])),
                            args: vec![],
                            show: Show::CtxField(n),
                        },
                    ],
                    show: Show::Ctx,
                }
            }
            6 => {
                let o = self.object(d);
                let (x, n) = self.ch.pick(&self.w.fields).clone();
                E {
                    lay: Lay::Prefix(i(40, &[x.into()])),
                    args: vec![o],
                    show: Show::Dot(n),
                }
            }
            7 => {
                // without an object: this
                let (args, skips) = self.args(d);
                if let Some((f, n)) = self.sup.clone() {
                    if self.ch.coin() {
                        return E {
                            lay: Lay::Call(i(36, &[0, line, f.into(), 0]), skips),
                            args,
                            show: Show::On("super".into(), n.split(';').next().unwrap().into()),
                        };
                    }
                }
                let (f, n) = self.ch.pick(&self.w.methods).clone();
                let short = n.split(';').next().unwrap().to_string();
                let ins = if self.ch.coin() {
                    i(36, &[0, line, f.into(), 0])
                } else {
                    let ni = self.b.name(&n);
                    i(37, &[0, line, ni.into(), 0])
                };
                E {
                    lay: Lay::Call(ins, skips),
                    args,
                    show: Show::On("this".into(), short),
                }
            }
            8 => {
                let (f, c, n) = self.ch.pick(&self.w.statics).clone();
                let (args, skips) = self.args(d);
                E {
                    lay: Lay::Call(i(36, &[0, line, f.into(), 0]), skips),
                    args,
                    show: Show::On(c, n.split(';').next().unwrap().into()),
                }
            }
            9 => {
                let (c, n) = self.ch.pick(&self.w.classes).clone();
                let k = self.ch.draw(4) as usize;
                let args = (0..k).map(|_| self.expr(d)).collect();
                E {
                    lay: Lay::Prefix(i(35, &[k as u64, c.into()])),
                    args,
                    show: Show::New(n),
                }
            }
            10 => {
                let (c, n) = self.ch.pick(&self.w.classes).clone();
                E {
                    lay: Lay::Prefix(i(48, &[c.into()])),
                    args: vec![],
                    show: Show::New(n),
                }
            }
            11 => {
                let (op, n, name) = *self.ch.pick(INTRINSICS);
                let args = (0..n).map(|_| self.expr(d)).collect();
                let (t, _) = self.ty();
                let a: Vec<u64> = match operands(op).unwrap().len() {
                    0 => vec![],
                    1 => vec![t],
                    _ => vec![t, 4],
                };
                E {
                    lay: Lay::Prefix(i(op, &a)),
                    args,
                    show: Show::Call(name.into(), None),
                }
            }
            12 => {
                let (t, p) = self.ty();
                let a = self.expr(d);
                if self.ch.coin() {
                    E {
                        lay: Lay::Prefix(i(89, &[t, 4])),
                        args: vec![a],
                        show: Show::Call("IntEnum".into(), Some(p)),
                    }
                } else {
                    E {
                        lay: Lay::Prefix(i(93, &[t])),
                        args: vec![a],
                        show: Show::Call("FromVariant".into(), Some(p)),
                    }
                }
            }
            13 => {
                let (op, n) = *self.ch.pick(HIDDEN);
                let a = self.object(d);
                let t = if op == 102 { vec![self.ty().0] } else { vec![] };
                E {
                    lay: Lay::Prefix(i(op, &t)),
                    args: vec![a],
                    show: Show::Hidden(n),
                }
            }
            14 => {
                let a = self.expr(d.min(1));
                let (c, n) = self.ch.pick(&self.w.classes).clone();
                E {
                    lay: Lay::Prefix(i(90, &[c.into(), 0])),
                    args: vec![a],
                    show: Show::Cast(n),
                }
            }
            15 => {
                let (f, t) = self.ch.pick(&self.w.casts).clone();
                let a = self.expr(d);
                E {
                    lay: Lay::Call(i(36, &[0, line, f.into(), 0]), vec![0, 0]),
                    args: vec![a],
                    show: Show::Call("Cast".into(), Some(t)),
                }
            }
            _ => {
                let (a, e) = (self.object(d), self.expr(d));
                let op = if self.ch.coin() { 72 } else { 85 };
                let t = self.ty().0;
                E {
                    lay: Lay::Prefix(i(op, &[t])),
                    args: vec![a, e],
                    show: Show::Elem,
                }
            }
        }
    }
    fn bin(&mut self, k: usize, l: E, r: E, line: u64) -> E {
        let f = self.w.bins[k];
        let skips = if k == 6 || k == 7 { vec![0, 1, 0] } else { vec![0, 0, 0] };
        E {
            lay: Lay::Call(i(36, &[0, line, f.into(), 0]), skips),
            args: vec![l, r],
            show: Show::Bin(k),
        }
    }
    /// A whole expression as a statement uses it.
    fn top(&mut self) -> E {
        if self.ch.chance(1, 12) {
            let (a, b, c) = (self.expr(1), self.expr(1), self.expr(1));
            return E {
                lay: Lay::Cond,
                args: vec![a, b, c],
                show: Show::Cond,
            };
        }
        let d = 1 + self.ch.weighted(&[4, 3, 2, 1]) as u32;
        self.expr(d)
    }
    fn simple(&mut self) -> S {
        let line = self.ch.draw(500);
        match self.ch.weighted(&[4, 4, 2]) {
            0 => {
                let e = loop {
                    let e = self.top();
                    if !matches!(e.show, Show::Text(_)) {
                        break e;
                    }
                    if self.budget < -50 {
                        let (f, n) = self.w.free[0].clone();
                        break E {
                            lay: Lay::Call(i(36, &[0, line, f.into(), 0]), vec![0]),
                            args: vec![],
                            show: Show::Call(n.split(';').next().unwrap().into(), None),
                        };
                    }
                };
                S::Expr(e)
            }
            1 => S::Assign(self.place(), self.top()),
            _ => {
                let k = self.ch.below(6);
                let (l, r) = (self.place(), self.top());
                S::Expr(self.bin(k, l, r, line))
            }
        }
    }
    fn silent(&mut self) -> S {
        S::Silent(match self.ch.draw(4) {
            0 | 1 => i(0, &[]),
            2 => crate::gen::instr_of(self.ch, 21),
            _ => {
                let mut x = i(51, &[0, 3]);
                x.text = Some("profiled".into());
                x
            }
        })
    }
    /// `tail`: what may end the block.
    pub fn block(&mut self, depth: u32, in_break: bool, tail: bool) -> Vec<S> {
        let n = self.ch.weighted(&[1, 4, 3, 2, 1]);
        let mut v = vec![];
        for _ in 0..n {
            if self.budget < 0 {
                break;
            }
            if self.ch.chance(1, 15) {
                let s = self.silent();
                v.push(s);
            }
            let s = if depth == 0 { self.simple() } else { self.stmt(depth, in_break) };
            v.push(s);
        }
        if tail && !v.is_empty() {
            if in_break && self.ch.chance(1, 4) {
                v.push(S::Break);
            } else if self.ch.chance(1, 8) {
                let e = self.ch.coin().then(|| self.top());
                v.push(S::Return(e));
            }
        }
        v
    }
    fn stmt(&mut self, depth: u32, in_break: bool) -> S {
        self.budget -= 2;
        let d = depth - 1;
        match self.ch.weighted(&[6, 3, 2, 2]) {
            0 => self.simple(),
            1 => {
                let c = self.expr(2);
                if self.ch.coin() {
                    let a = self.block(d, in_break, true);
                    S::If(c, a, None)
                } else {
                    // a branch that leaves early has no need of an else, and the text shows none
                    let a = self.block(d, in_break, false);
                    let b = self.block(d, in_break, true);
                    // the jump over an empty branch is no jump
                    let b = if b.iter().all(|s| matches!(s, S::Silent(_))) { vec![self.simple()] } else { b };
                    S::If(c, a, Some(b))
                }
            }
            2 => {
                let c = self.expr(2);
                let b = self.block(d, true, true);
                S::While(c, b)
            }
            _ => {
                let subj = self.expr(1);
                let n = self.ch.range(1, 4) as usize;
                let mut cases = vec![];
                let mut broken = false;
                for k in 0..n {
                    let m = self.lit();
                    let last = k + 1 == n;
                    let mut b = self.block(d, false, false);
                    let silent = b.iter().all(|s| matches!(s, S::Silent(_)));
                    if silent && (!last) && self.ch.coin() {
                        // shares the next body
                        cases.push((m, vec![]));
                        continue;
                    }
                    // without any break nothing tells where a default ends
                    let brk = (last && !broken) || self.ch.coin();
                    // at the very end a jump over an else looks like a break
                    if silent || ends_in_switch(&b) || (last && !brk) || self.ch.coin() {
                        let s = self.simple();
                        b.push(s);
                    }
                    if brk {
                        broken = true;
                        b.push(S::Break);
                    }
                    cases.push((m, b));
                }
                let default = self.ch.coin().then(|| {
                    let mut b = self.block(d, false, false);
                    let s = self.simple();
                    b.push(s);
                    b
                });
                S::Switch(subj, cases, default)
            }
        }
    }
}

/// The labels of a switch at the very end would run into those of the switch around it.
fn ends_in_switch(b: &[S]) -> bool {
    match b.iter().rev().find(|s| !matches!(s, S::Silent(_))) {
        Some(S::Switch(..)) => true,
        Some(S::If(_, a, None)) => ends_in_switch(a),
        Some(S::If(_, _, Some(b))) => ends_in_switch(b),
        _ => false,
    }
}

// ---- assembling ----------------------------------------------------------------------------------------------

enum It {
    Ins(MInstr, Vec<(usize, usize)>),
    Label(usize),
}
#[derive(Default)]
pub struct Asm {
    items: Vec<It>,
    labels: usize,
}
impl Asm {
    fn label(&mut self) -> usize {
        self.labels += 1;
        self.labels - 1
    }
    fn ins(&mut self, x: MInstr) {
        self.items.push(It::Ins(x, vec![]));
    }
    fn jmp(&mut self, op: u8, args: &[u64], fix: &[(usize, usize)]) {
        self.items.push(It::Ins(MInstr::new(op, args), fix.to_vec()));
    }
    fn at(&mut self, l: usize) {
        self.items.push(It::Label(l));
    }
    pub fn expr(&mut self, e: &E) {
        match &e.lay {
            Lay::Prefix(x) => {
                self.ins(x.clone());
                e.args.iter().for_each(|a| self.expr(a));
            }
            Lay::Call(x, skips) => {
                let end = self.label();
                self.items.push(It::Ins(x.clone(), vec![(0, end)]));
                for (k, s) in skips.iter().enumerate() {
                    match s {
                        1 if k < e.args.len() => {
                            let l = self.label();
                            self.jmp(33, &[0], &[(0, l)]);
                            self.expr(&e.args[k]);
                            self.at(l);
                            continue;
                        }
                        2 => self.ins(MInstr::new(0, &[])),
                        _ => {}
                    }
                    if let Some(a) = e.args.get(k) {
                        self.expr(a);
                    }
                }
                self.ins(MInstr::new(38, &[]));
                self.at(end);
            }
            Lay::Context => {
                let end = self.label();
                self.jmp(41, &[0], &[(0, end)]);
                e.args.iter().for_each(|a| self.expr(a));
                self.at(end);
            }
            Lay::Cond => {
                let (f, end) = (self.label(), self.label());
                self.jmp(34, &[0, 0], &[(0, f), (1, end)]);
                self.expr(&e.args[0]);
                self.expr(&e.args[1]);
                self.at(f);
                self.expr(&e.args[2]);
                self.at(end);
            }
        }
    }
    pub fn block(&mut self, b: &[S], exit: Option<usize>, ty: u64) {
        for s in b {
            self.stmt(s, exit, ty);
        }
    }
    fn stmt(&mut self, s: &S, exit: Option<usize>, ty: u64) {
        match s {
            S::Expr(e) => self.expr(e),
            S::Assign(l, r) => {
                self.ins(MInstr::new(22, &[]));
                self.expr(l);
                self.expr(r);
            }
            S::If(c, a, b) => {
                let els = self.label();
                self.jmp(32, &[0], &[(0, els)]);
                self.expr(c);
                self.block(a, exit, ty);
                if let Some(b) = b {
                    let end = self.label();
                    self.jmp(31, &[0], &[(0, end)]);
                    self.at(els);
                    self.block(b, exit, ty);
                    self.at(end);
                } else {
                    self.at(els);
                }
            }
            S::While(c, b) => {
                let (end, top) = (self.label(), self.label());
                self.at(top);
                self.jmp(32, &[0], &[(0, end)]);
                self.expr(c);
                self.block(b, Some(end), ty);
                self.jmp(31, &[0], &[(0, top)]);
                self.at(end);
            }
            S::Switch(e, cases, default) => {
                let (first, end) = (self.label(), self.label());
                let mut next = self.label();
                self.jmp(28, &[ty, 0], &[(1, first)]);
                self.expr(e);
                self.at(first);
                let mut body = self.label();
                for (m, b) in cases {
                    self.at(next);
                    next = self.label();
                    self.jmp(29, &[0, 0], &[(0, next), (1, body)]);
                    self.expr(m);
                    if !b.is_empty() {
                        self.at(body);
                        self.block(b, Some(end), ty);
                        body = self.label();
                    }
                }
                self.at(next);
                if let Some(b) = default {
                    self.ins(MInstr::new(30, &[]));
                    self.block(b, Some(end), ty);
                }
                self.at(end);
            }
            S::Return(e) => {
                self.ins(MInstr::new(39, &[]));
                match e {
                    Some(e) => self.expr(e),
                    None => self.ins(MInstr::new(0, &[])),
                }
            }
            S::Break => self.jmp(31, &[0], &[(0, exit.unwrap())]),
            S::Silent(x) => self.ins(x.clone()),
        }
    }
    /// None when a distance does not fit.
    pub fn finish(self) -> Option<Vec<MInstr>> {
        let mut at = 0u32;
        let mut labels = vec![0u32; self.labels];
        for it in &self.items {
            match it {
                It::Ins(x, _) => at += x.vsize(),
                It::Label(l) => labels[*l] = at,
            }
        }
        if at > 32_000 {
            return None;
        }
        let mut out = vec![];
        let mut at = 0u32;
        for it in self.items {
            if let It::Ins(mut x, fix) = it {
                let n = x.vsize();
                for (k, l) in fix {
                    x.args[k] = u64::from((i64::from(labels[l]) - i64::from(at)) as i16 as u16);
                }
                at += n;
                out.push(x);
            }
        }
        Some(out)
    }
}

// ---- the text ------------------------------------------------------------------------------------------------

fn list(args: &[E], v: bool) -> String {
    args.iter().map(|a| show(a, v, Up::None)).collect::<Vec<_>>().join(", ")
}
#[derive(Clone, Copy, PartialEq)]
pub enum Up {
    None,
    Un,
    /// before a dot, an index or `as`
    Dot,
    Left(usize),
    Right(usize),
    /// before a question mark
    Ask,
}
pub fn show(e: &E, v: bool, up: Up) -> String {
    match &e.show {
        Show::Text(s) => s.clone(),
        Show::Call(n, None) => format!("{n}({})", list(&e.args, v)),
        Show::Call(n, Some(t)) => format!("{n}<{t}>({})", list(&e.args, v)),
        Show::Hidden(n) => {
            if v {
                format!("{n}({})", list(&e.args, v))
            } else {
                show(&e.args[0], v, up)
            }
        }
        Show::Bin(k) => {
            let s = format!("{} {} {}", show(&e.args[0], v, Up::Left(*k)), BIN[*k].1, show(&e.args[1], v, Up::Right(*k)));
            let paren = match up {
                Up::None => false,
                Up::Un | Up::Dot => true,
                Up::Left(p) => !(BIN[p].2 > BIN[*k].2 || (BIN[p].2 == BIN[*k].2 && BIN[p].3)),
                // of the operators of one level, a chain of logical and bitwise ones means the same either way
                Up::Right(p) => !(BIN[p].2 > BIN[*k].2 || (p == *k && (6..=10).contains(k))),
                Up::Ask => *k < 6,
            };
            if paren {
                format!("({s})")
            } else {
                s
            }
        }
        Show::Un(k) => {
            let s = format!("{}{}", UN[*k].1, show(&e.args[0], v, Up::Un));
            if up == Up::Dot {
                format!("({s})")
            } else {
                s
            }
        }
        Show::On(o, n) => format!("{o}.{n}({})", list(&e.args, v)),
        Show::Dot(f) => format!("{}.{f}", show(&e.args[0], v, Up::Dot)),
        Show::Elem => format!("{}[{}]", show(&e.args[0], v, Up::Dot), show(&e.args[1], v, Up::None)),
        Show::New(n) => format!("new {n}({})", list(&e.args, v)),
        Show::Cast(t) => {
            let s = format!("{} as {t}", show(&e.args[0], v, Up::Dot));
            if up == Up::None {
                s
            } else {
                format!("({s})")
            }
        }
        Show::Cond => {
            let s = format!("{} ? {} : {}", show(&e.args[0], v, Up::Ask), show(&e.args[1], v, Up::None), show(&e.args[2], v, Up::None));
            if up == Up::None {
                s
            } else {
                format!("({s})")
            }
        }
        Show::Ctx => match &e.args[1].show {
            Show::CtxField(f) => format!("{}.{f}", show(&e.args[0], v, Up::Dot)),
            Show::CtxCall(n) => format!("{}.{n}({})", show(&e.args[0], v, Up::Dot), list(&e.args[1].args, v)),
            _ => unreachable!(),
        },
        Show::CtxField(_) | Show::CtxCall(_) => unreachable!(),
    }
}

fn pad(d: usize) -> String {
    "  ".repeat(d)
}
pub fn block_text(b: &[S], v: bool, d: usize, out: &mut String) {
    for s in b {
        if matches!(s, S::Silent(_)) {
            continue;
        }
        out.push_str(&pad(d));
        match s {
            S::Expr(e) => out.push_str(&show(e, v, Up::None)),
            S::Assign(l, r) => out.push_str(&format!("{} = {}", show(l, v, Up::None), show(r, v, Up::None))),
            S::If(c, a, b) => {
                out.push_str(&format!("if {} {{\n", show(c, v, Up::None)));
                block_text(a, v, d + 1, out);
                out.push_str(&format!("{}}}", pad(d)));
                if let Some(b) = b {
                    out.push_str(" else {\n");
                    block_text(b, v, d + 1, out);
                    out.push_str(&format!("{}}}", pad(d)));
                }
            }
            S::While(c, b) => {
                out.push_str(&format!("while {} {{\n", show(c, v, Up::None)));
                block_text(b, v, d + 1, out);
                out.push_str(&format!("{}}}", pad(d)));
            }
            S::Switch(e, cases, def) => {
                out.push_str(&format!("switch {} {{\n", show(e, v, Up::None)));
                for (k, (m, b)) in cases.iter().enumerate() {
                    // leaving at the very end is no jump at all
                    let end = def.is_none() && k + 1 == cases.len() && matches!(b.last(), Some(S::Break));
                    let b = &b[..b.len() - usize::from(end)];
                    out.push_str(&format!("{}case {}:\n", pad(d + 1), show(m, v, Up::None)));
                    block_text(b, v, d + 2, out);
                }
                if let Some(b) = def {
                    out.push_str(&format!("{}default:\n", pad(d + 1)));
                    block_text(b, v, d + 2, out);
                }
                out.push_str(&format!("{}}}", pad(d)));
            }
            S::Return(None) => out.push_str("return"),
            S::Return(Some(e)) => out.push_str(&format!("return {}", show(e, v, Up::None))),
            S::Break => out.push_str("break"),
            S::Silent(_) => {}
        }
        out.push_str(";\n");
    }
}

/// The body as it reads: assignments at the start become declarations, other locals are declared before them.
pub fn body_text(locals: &[(u32, String, String)], b: &[S], v: bool, d: usize) -> String {
    let mut left: BTreeMap<&str, &str> = locals.iter().map(|(_, n, t)| (n.as_str(), t.as_str())).collect();
    let mut init = String::new();
    let mut k = 0;
    while let Some(S::Assign(l, r)) = b.get(k) {
        let t = show(l, v, Up::None);
        let is_name = matches!(&l.lay, Lay::Prefix(x) if x.op == 24 || x.op == 25);
        match left.remove(t.as_str()).filter(|_| is_name) {
            Some(ty) => init.push_str(&format!("{}let {t}: {ty} = {};\n", pad(d), show(r, v, Up::None))),
            None => init.push_str(&format!("{}{t} = {};\n", pad(d), show(r, v, Up::None))),
        }
        k += 1;
    }
    let mut out = String::new();
    for (n, t) in left {
        out.push_str(&format!("{}let {n}: {t};\n", pad(d)));
    }
    out.push_str(&init);
    block_text(&b[k..], v, d, &mut out);
    out
}

// ---- declarations --------------------------------------------------------------------------------------------

/// A definition of the bundle and the text it stands for, in parts: the methods of a class stand apart.
#[derive(Clone, Debug)]
pub struct Decl {
    pub index: u32,
    pub name: String,
    /// (text without implicit conversions, text with them, listing, head of the syntax tree);
    /// a function has one part, a class head, methods, tail
    pub parts: Vec<[String; 4]>,
    /// functions of this declaration: index
    pub funs: Vec<u32>,
}

struct FunPlan {
    index: u32,
    name: String,
    depth: usize,
    flags: u32,
    vis: u8,
    ret: Option<(u32, String)>,
    params: Vec<(u32, String, String)>,
    body: bool,
    sup: Option<(u32, String)>,
    source: Option<(u32, u32)>,
    base: Option<u32>,
}

const VIS: [&str; 3] = ["public", "protected", "private"];

pub struct Made {
    pub m: MBundle,
    pub decls: Vec<Decl>,
}

fn param(ch: &mut Choices, b: &mut Builder, w: &World, f: u32, k: usize) -> (u32, String, String) {
    let (t, _, pretty) = ch.pick(&w.types).clone();
    let flags = if ch.chance(1, 3) { ch.draw(16) as u8 } else { 0 };
    let n = format!("p{k}_{f}");
    let x = b.def(&n, f, MKind::Param { ty: t, flags });
    let f = |m: u8, s: &'static str| if flags & m != 0 { s } else { "" };
    let text = format!("{}{}{}{n}: {pretty}", f(8, "const "), f(2, "out "), f(1, "opt "));
    (x, n, text)
}

#[allow(clippy::too_many_arguments)]
fn plan(
    ch: &mut Choices,
    b: &mut Builder,
    w: &World,
    name: &str,
    parent: u32,
    depth: usize,
    flags: u32,
    body: bool,
    source: Option<(u32, u32)>,
) -> FunPlan {
    let index = b.def(name, parent, MKind::Function(MFun::default()));
    let np = ch.weighted(&[3, 3, 2, 1]);
    let params = (0..np).map(|k| param(ch, b, w, index, k)).collect();
    let ret = ch.coin().then(|| {
        let (t, _, p) = ch.pick(&w.types).clone();
        (t, p)
    });
    let extra = if ch.chance(1, 4) { ch.draw(1 << 24) as u32 } else { 0 };
    let keep = ff::FINAL | ff::EXEC | ff::CONST | ff::QUEST | ff::CALLBACK;
    FunPlan {
        index,
        name: name.into(),
        depth,
        flags: flags | (extra & keep),
        vis: ch.draw(3) as u8,
        ret,
        params,
        body,
        sup: None,
        source,
        base: None,
    }
}

const MNEMONICS: &[&str] = &[
    "nop", "null", "i32one", "i32zero", "i8const", "i16const", "i32const", "i64const", "u8const", "u16const", "u32const",
    "u64const", "f32const", "f64const", "nameconst", "enumconst", "stringconst", "tweakdbidconst", "resourceconst",
    "trueconst", "falseconst", "breakpoint", "assign", "target", "local", "param", "objectfield", "externalvar", "switch",
    "switchlabel", "switchdefault", "jump", "jumpiffalse", "skip", "conditional", "construct", "invokestatic",
    "invokevirtual", "paramend", "return", "structfield", "context", "equals", "refstringequalsstring",
    "stringequalsrefstring", "notequals", "refstringnotequalsstring", "stringnotequalsrefstring", "new", "delete", "this",
    "startprofiling", "arrayclear", "arraysize", "arrayresize", "arrayfindfirst", "arrayfindfirstfast", "arrayfindlast",
    "arrayfindlastfast", "arraycontains", "arraycontainsfast", "arraycount", "arraycountfast", "arraypush", "arraypop",
    "arrayinsert", "arrayremove", "arrayremovefast", "arraygrow", "arrayerase", "arrayerasefast", "arraylast",
    "arrayelement", "arraysort", "arraysortbypredicate", "staticarraysize", "staticarrayfindfirst",
    "staticarrayfindfirstfast", "staticarrayfindlast", "staticarrayfindlastfast", "staticarraycontains",
    "staticarraycontainsfast", "staticarraycount", "staticarraycountfast", "staticarraylast", "staticarrayelement",
    "reftobool", "weakreftobool", "enumtoi32", "i32toenum", "dynamiccast", "tostring", "tovariant", "fromvariant",
    "variantisdefined", "variantisref", "variantisarray", "varianttypename", "varianttostring", "weakreftoref",
    "reftoweakref", "weakrefnull", "asref", "deref",
];

/// An instruction as listed: mnemonic and operands.
fn listed(i: &MInstr) -> String {
    let mut s = MNEMONICS[i.op as usize].to_string();
    for (o, v) in operands(i.op).unwrap().iter().zip(&i.args) {
        let v = *v;
        s.push(' ');
        s.push_str(&match o {
            Op::I8 => (v as i8).to_string(),
            Op::I16 | Op::Off(_) => (v as i16).to_string(),
            Op::I32 => (v as i32).to_string(),
            Op::I64 => (v as i64).to_string(),
            Op::F32 => format!("{:?}", f32::from_bits(v as u32)).to_lowercase(),
            Op::F64 => format!("{:?}", f64::from_bits(v)).to_lowercase(),
            Op::Bool => (v != 0).to_string(),
            Op::Str => format!("{:?}", i.text.as_deref().unwrap_or("")).to_lowercase(),
            _ => v.to_string(),
        });
    }
    s
}

fn fun_text(ch: &mut Choices, b: &mut Builder, w: &World, p: &FunPlan) -> [String; 4] {
    let mut f = MFun {
        vis: p.vis,
        flags: p.flags,
        source: if p.flags & ff::NATIVE == 0 { Some(p.source.unwrap_or((0, 1))) } else { None },
        ret: p.ret.as_ref().map(|r| r.0),
        base: p.base,
        params: p.params.iter().map(|x| x.0).collect(),
        ..MFun::default()
    };
    let has = |m: u32, s: &'static str| if p.flags & m != 0 { s } else { "" };
    let head = format!(
        "\n{}{} {}{}{}{}{}{}{}func {}({}) -> {}",
        pad(p.depth),
        VIS[p.vis as usize],
        has(ff::FINAL, "final "),
        has(ff::STATIC, "static "),
        has(ff::NATIVE, "native "),
        has(ff::EXEC, "exec "),
        has(ff::CONST, "const "),
        has(ff::QUEST, "quest "),
        has(ff::CALLBACK, "cb "),
        p.name.split(';').next().unwrap(),
        p.params.iter().map(|x| x.2.clone()).collect::<Vec<_>>().join(", "),
        p.ret.as_ref().map_or("Void", |r| &r.1),
    );
    let mut texts = [(); 4].map(|()| format!("{head};\n"));
    if p.body {
        let nl = ch.weighted(&[2, 3, 2, 1]);
        let mut locals = vec![];
        let mut listing = String::new();
        for k in 0..nl {
            let (t, _, pretty) = ch.pick(&w.plain_types).clone();
            // names in an order of their own
            let n = format!("{}{}", ch.pick(&["z", "a", "m", "loc", "i"]), nl - k);
            let flags = u8::from(ch.chance(1, 4));
            let x = b.def(&n, p.index, MKind::Local { ty: t, flags });
            listing.push_str(&format!("{}{} {n}: {pretty};\n", pad(p.depth + 1), if flags == 0 { "let" } else { "const" }));
            locals.push((x, n, pretty));
        }
        f.locals = locals.iter().map(|l| l.0).collect();
        let mut g = Gen {
            ch,
            b,
            w,
            locals: locals.clone(),
            params: p.params.iter().map(|x| (x.0, x.1.clone())).collect(),
            sup: p.sup.clone(),
            budget: 60,
        };
        let depth = g.ch.weighted(&[2, 3, 3, 1]) as u32;
        let mut body = vec![];
        if g.ch.chance(1, 3) {
            for _ in 0..g.ch.range(1, 3) {
                let (l, r) = (g.place(), g.top());
                body.push(S::Assign(l, r));
            }
        }
        body.extend(g.block(depth, false, true));
        if body.is_empty() {
            body.push(S::Return(None));
        }
        let ty = w.types[0].0.into();
        let mut a = Asm::default();
        a.block(&body, None, ty);
        if g.ch.coin() {
            a.ins(MInstr::new(0, &[]));
        }
        if let Some(code) = a.finish() {
            let mut at = 0;
            for i in &code {
                listing.push_str(&format!("{}{at}: {}\n", pad(p.depth + 1), listed(i)));
                at += i.vsize();
            }
            texts[2] = format!("{head} {{\n{listing}{}}}\n", pad(p.depth));
            texts[3] = format!("{head} {{\n");
            f.code = code;
            for v in [false, true] {
                texts[usize::from(v)] =
                    format!("{head} {{\n{}{}}}\n", body_text(&locals, &body, v, p.depth + 1), pad(p.depth));
            }
        } else {
            f.locals.clear();
        }
    }
    b.set(p.index, MKind::Function(f));
    texts
}

/// A bundle with its source text.
pub fn make(ch: &mut Choices) -> Made {
    let mut b = Builder::new();
    let mut w = World {
        texts: ["", "plain", "with \"quotes\"", "tab\tline\n", "back\\slash", "żółć", "it's", "\u{1}", "A.b-c_d"]
            .map(String::from)
            .to_vec(),
        ..World::default()
    };
    for t in ["Int32", "Float", "Double", "Bool", "String", "CName", "Variant", "Uint64"] {
        let x = b.def(t, 0, MKind::Type { tag: 0, inner: 0, size: 0 });
        w.types.push((x, t.into(), t.into()));
    }
    if ch.chance(1, 3) {
        let n = *ch.pick(&[1, 5, 20, 60]);
        b.reserve(n);
    }
    // source files
    let mut files = vec![];
    for k in 0..ch.range(1, 4) {
        let dir = *ch.pick(&["a", "a/b", "core", "żółć"]);
        files.push(b.def("None", 0, MKind::Source { id: k as u32, hash: k, path: format!("{dir}/f{k}.script") }));
    }
    let nc = ch.range(1, 3) as usize;
    let mut class_types = vec![];
    let mut class_idx = vec![];
    for k in 0..nc {
        let n = format!("Class{k}");
        let t = b.def(&n, 0, MKind::Type { tag: 1, inner: 0, size: 0 });
        class_types.push((t, n.clone()));
        w.types.push((t, n.clone(), n.clone()));
        let c = b.def(&n, 0, MKind::EnumValue(0));
        class_idx.push(c);
        w.classes.push((c, n));
    }
    // composed types
    for _ in 0..ch.range(1, 6) {
        let (inner, repr, pretty) = ch.pick(&w.types).clone();
        let (ct, cn) = ch.pick(&class_types).clone();
        match ch.draw(5) {
            0 => {
                let x = b.def(&format!("ref:{cn}"), 0, MKind::Type { tag: 2, inner: ct, size: 0 });
                w.types.push((x, format!("ref:{cn}"), format!("ref<{cn}>")));
            }
            1 => {
                let x = b.def(&format!("wref:{cn}"), 0, MKind::Type { tag: 3, inner: ct, size: 0 });
                w.types.push((x, format!("wref:{cn}"), format!("wref<{cn}>")));
            }
            2 => {
                let r = format!("script_ref:{repr}");
                let x = b.def(&r, 0, MKind::Type { tag: 6, inner, size: 0 });
                w.types.push((x, r, format!("script_ref<{pretty}>")));
            }
            _ => {
                let r = format!("array:{repr}");
                let x = b.def(&r, 0, MKind::Type { tag: 4, inner, size: 0 });
                w.types.push((x, r, format!("array<{pretty}>")));
            }
        }
    }
    w.plain_types = w.types.clone();
    if ch.coin() {
        let (inner, _, pretty) = ch.pick(&w.types).clone();
        let n = *ch.pick(&[1u32, 4, 300, 70000]);
        let x = b.def(&format!("[{n}]{pretty}"), 0, MKind::Type { tag: 5, inner, size: n });
        w.types.push((x, String::new(), format!("array<{pretty}; {n}>")));
    }
    let mut decls = vec![];
    for k in 0..ch.draw(3) {
        let en = format!("Enum{k}");
        let e = b.next();
        b.def(&en, 0, MKind::EnumValue(0));
        let mut text = format!("\nenum {en} {{\n");
        let mut mem = vec![];
        for j in 0..ch.range(1, 4) {
            let v = crate::gen::val(ch) as i64;
            let n = format!("M{j}");
            let x = b.def(&n, e, MKind::EnumValue(v));
            text.push_str(&format!("  {n} = {v},\n"));
            mem.push((x, n));
        }
        text.push_str("}\n");
        b.set(e, MKind::Enum { flags: 0, size: 4, members: mem.iter().map(|x| x.0).collect(), unk1: false });
        decls.push(Decl { index: e, name: en.clone(), parts: vec![[(); 4].map(|()| text.clone())], funs: vec![] });
        w.enums.push((e, en, mem));
    }
    // operators and casts are natives of their own
    let native = ff::STATIC | ff::NATIVE | ff::FINAL;
    for (n, ..) in BIN {
        w.bins.push(b.def(&format!("{n};Int32Int32;Int32"), 0, MKind::Function(MFun { flags: native, ..MFun::default() })));
    }
    for (n, _) in UN {
        w.uns.push(b.def(&format!("{n};Bool;Bool"), 0, MKind::Function(MFun { flags: native, ..MFun::default() })));
    }
    for _ in 0..2 {
        let (t, _, p) = ch.pick(&w.plain_types).clone();
        let x = b.def("Cast;Int32;Float", 0, MKind::Function(MFun { flags: native, ret: Some(t), ..MFun::default() }));
        w.casts.push((x, p));
    }
    // fields, methods, functions: declared first, written afterwards
    let mut plans: Vec<(Option<usize>, FunPlan)> = vec![];
    let mut fields: Vec<(Vec<u32>, String)> = vec![];
    let mut line = 1;
    for k in 0..nc {
        let c = class_idx[k];
        let mut l = vec![];
        let mut text = String::new();
        for j in 0..ch.range(u64::from(k == 0), 3) {
            let (t, _, pretty) = ch.pick(&w.types).clone();
            let flags = if ch.chance(1, 3) { ch.draw(1 << 11) as u16 } else { 0 };
            let vis = ch.draw(3) as u8;
            let n = format!("f{j}_{k}");
            let mut props = |ch: &mut Choices| -> Vec<(String, String)> {
                (0..ch.weighted(&[5, 1, 1])).map(|q| (format!("Class.k{q}"), (*ch.pick(&["v", "", "a b"])).to_string())).collect()
            };
            let (attrs, defaults) = (props(ch), props(ch));
            text.push('\n');
            for (a, v) in &attrs {
                text.push_str(&format!("  @runtimeProperty(\"{a}\", \"{v}\")\n"));
            }
            for (a, v) in &defaults {
                text.push_str(&format!("  @default({a}, {v})\n"));
            }
            let f = |m: u16, s: &'static str| if flags & m != 0 { s } else { "" };
            text.push_str(&format!(
                "  {} {}{}{}{}{}{}let {n}: {pretty};\n",
                VIS[vis as usize],
                f(4, "inline "),
                f(16, "replicated "),
                f(2, "edit "),
                f(1, "native "),
                f(256, "persistent "),
                f(8, "const ")
            ));
            let hint = ch.chance(1, 6).then(|| "hint".to_string());
            let x = b.def(&n, c, MKind::Field { vis, ty: t, flags, hint, attrs, defaults });
            l.push(x);
            w.fields.push((x, n));
        }
        fields.push((l, text));
    }
    let mut roots = vec![];
    let ncalls = ch.range(1, 3);
    for k in 0..ncalls {
        let file = *ch.pick(&files);
        line += ch.draw(20) as u32;
        let stem = *ch.pick(&["Free", "Free", "CastTo", "Operator"]);
        let n = if ch.coin() { format!("{stem}{k};Int32String") } else { format!("{stem}{k}") };
        let body = ch.chance(3, 4);
        let nat = if !body && ch.coin() { ff::NATIVE } else { 0 };
        let p = plan(ch, &mut b, &w, &n, 0, 0, ff::STATIC | nat, body, Some((file, line)));
        w.free.push((p.index, n));
        roots.push(plans.len());
        plans.push((None, p));
    }
    let mut methods: Vec<Vec<usize>> = vec![vec![]; nc];
    for k in 0..nc {
        let file = *ch.pick(&files);
        for j in 0..ch.range(u64::from(k == 0) * 2, 4) {
            line += ch.draw(20) as u32;
            let stat = (k == 0 && j == 0) || (!(k == 0 && j == 1) && ch.chance(1, 3));
            let n = if ch.coin() { format!("Do{j}_{k};Float") } else { format!("Do{j}_{k}") };
            let body = ch.chance(4, 5);
            let nat = if !body && ch.coin() { ff::NATIVE } else { 0 };
            let p = plan(ch, &mut b, &w, &n, class_idx[k], 1, nat | u32::from(stat), body, Some((file, line)));
            if stat {
                w.statics.push((p.index, w.classes[k].1.clone(), n));
            } else {
                w.methods.push((p.index, n));
            }
            methods[k].push(plans.len());
            plans.push((Some(k), p));
        }
        // an override of a method of the class before
        if k > 0 && ch.coin() {
            let base = methods[k - 1].iter().map(|i| &plans[*i].1).find(|p| p.flags & ff::STATIC == 0);
            if let Some((bi, bn)) = base.map(|p| (p.index, p.name.clone())) {
                line += 1;
                let mut p = plan(ch, &mut b, &w, &bn, class_idx[k], 1, 0, true, Some((file, line)));
                p.sup = Some((bi, bn));
                p.base = Some(bi);
                methods[k].push(plans.len());
                plans.push((Some(k), p));
            }
        }
    }
    let mut texts = vec![];
    for (_, p) in &plans {
        // a method with the name of an overriding one would be read as a call of the base class
        let mut w2 = w.clone();
        if p.depth == 1 {
            w2.methods.retain(|m| m.1 != p.name || m.0 == p.index);
            if w2.methods.is_empty() {
                w2.methods = w.methods.iter().filter(|m| m.1 != p.name).cloned().collect();
            }
            if w2.methods.is_empty() {
                w2.methods.push((p.index, p.name.clone()));
            }
        }
        texts.push(fun_text(ch, &mut b, &w2, p));
    }
    for i in &roots {
        decls.push(Decl {
            index: plans[*i].1.index,
            name: plans[*i].1.name.clone(),
            parts: vec![texts[*i].clone()],
            funs: vec![plans[*i].1.index],
        });
    }
    for k in 0..nc {
        let vis = ch.draw(3) as u8;
        let flags = if ch.chance(1, 3) { ch.draw(128) as u16 } else { 0 };
        let base = if k > 0 { class_idx[k - 1] } else { 0 };
        let has = |m: u16, s: &'static str| if flags & m != 0 { s } else { "" };
        let imp = if flags & 64 != 0 { "importonly " } else { has(1, "native ") };
        let mut head = format!(
            "\n{} {}{}{}{}{} ",
            VIS[vis as usize],
            has(2, "abstract "),
            has(4, "final "),
            imp,
            if flags & 8 != 0 { "struct " } else { "class " },
            w.classes[k].1
        );
        if base != 0 {
            head.push_str(&format!("extends {} ", w.classes[k - 1].1));
        }
        head.push_str("{\n");
        head.push_str(&fields[k].1);
        let mut parts = vec![[(); 4].map(|()| head.clone())];
        parts.extend(methods[k].iter().map(|i| texts[*i].clone()));
        parts.push([(); 4].map(|()| "}\n".to_string()));
        let funs: Vec<u32> = methods[k].iter().map(|i| plans[*i].1.index).collect();
        b.set(
            class_idx[k],
            MKind::Class { vis, flags, base, functions: funs.clone(), fields: fields[k].0.clone(), overrides: vec![] },
        );
        decls.push(Decl { index: class_idx[k], name: w.classes[k].1.clone(), parts, funs });
    }
    Made { m: b.m, decls }
}
