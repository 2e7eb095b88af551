//! C03: histories of load, edits, saves (some of which fail) and reloads, against plain data.
use crate::core_checks::{load, same_bytes, same_pool, V};
use crate::model::{self, diff, MBundle, MDef, MKind, Place};
use crate::streams::{Fault, SimStream, KINDS};
use crate::{conv, gen};
use redscript::bundle::{ConstantPool, PoolIndex, ScriptBundle};
use redscript::definition::*;
use redscript::mapper::{MultiMapper, PoolMapper};
use redscript::Ref;
use simkit::{Choices, Ctx, Violation};
use std::io::BufWriter;

fn ix<A>(v: usize) -> PoolIndex<A> {
    PoolIndex::new(v as u32)
}

/// References that mostly point into the pool, so that mappings and look-ups meet them.
fn near(ch: &mut Choices, d: &mut MDef, n: usize) {
    let mut r = |ch: &mut Choices, v: &mut u32| {
        if ch.chance(2, 3) {
            *v = ch.draw(n as u64 + 2) as u32;
        }
    };
    r(ch, &mut d.name);
    r(ch, &mut d.parent);
    match &mut d.kind {
        MKind::Class { base, .. } => r(ch, base),
        MKind::Function(f) => {
            for i in &mut f.code {
                if matches!(i.op, 35..=37 | 48 | 90) {
                    for a in &mut i.args {
                        if ch.coin() {
                            *a = ch.draw(n as u64 + 2);
                        }
                    }
                    if i.op == 35 {
                        i.args[0] &= 0xff;
                    } else if i.op == 90 {
                        i.args[1] &= 0xff;
                    }
                }
            }
        }
        _ => {}
    }
}

fn some_def(ch: &mut Choices, n: usize) -> MDef {
    let mut d = gen::def(ch);
    near(ch, &mut d, n);
    d
}

/// The definition built by the constructor for its kind, and what that constructor promises.
fn constructed(d: &MDef) -> (Definition, MDef) {
    let real = conv::to_real(d);
    let mut m = d.clone();
    m.unk = [0; 3];
    let (name, parent) = (d.name as usize, d.parent as usize);
    let r = match real.value {
        AnyDefinition::Type(t) => {
            m.parent = 0;
            Definition::type_(ix(name), t)
        }
        AnyDefinition::Class(c) => {
            m.parent = 0;
            Definition::class(ix(name), c)
        }
        AnyDefinition::EnumValue(v) => Definition::enum_value(ix(name), ix(parent), v),
        AnyDefinition::Enum(e) => {
            m.parent = 0;
            Definition::enum_(ix(name), e)
        }
        AnyDefinition::Function(f) => Definition::function(ix(name), ix(parent), f),
        AnyDefinition::Parameter(p) => Definition::param(ix(name), ix(parent), p),
        AnyDefinition::Local(l) => Definition::local(ix(name), ix(parent), l),
        AnyDefinition::Field(f) => Definition::field(ix(name), ix(parent), f),
        AnyDefinition::SourceFile(s) => {
            m.parent = 0;
            m.name = 0;
            Definition::source_file(s)
        }
    };
    (r, m)
}

fn reserved() -> MDef {
    MDef {
        name: 0,
        parent: 0,
        unk: [0; 3],
        kind: MKind::Type {
            tag: 0,
            inner: 0,
            size: 0,
        },
    }
}

macro_rules! fail {
    ($c:expr, $($a:tt)*) => { return Err(Violation::new($c, format!($($a)*))) };
}

/// Adds a text to one of the four tables: an index that reads back as the text, a new entry only when there was none.
fn add_text(ctx: &mut Ctx, p: &mut ConstantPool, m: &mut MBundle) -> V {
    let t = ctx.ch.draw(4);
    let list = match t {
        0 => &mut m.names,
        1 => &mut m.tweakdb,
        2 => &mut m.resources,
        _ => &mut m.strings,
    };
    let s = if !list.is_empty() && ctx.ch.coin() {
        let k = ctx.ch.below(list.len());
        let w = list[k].clone();
        if ctx.ch.chance(1, 4) && w.len() < 3000 {
            gen::near(&mut ctx.ch, &w)
        } else {
            w
        }
    } else {
        gen::text(&mut ctx.ch, 3000)
    };
    // entry 0 of the names stands for the absent name whatever is stored there
    if t == 0 && (list.is_empty() || (list[0] == s && s != "None")) {
        return Ok(());
    }
    let r: Ref<str> = Ref::from(s.as_str());
    let i = match t {
        0 => u32::from(p.names.add(r)),
        1 => u32::from(p.tweakdb_ids.add(r)),
        2 => u32::from(p.resources.add(r)),
        _ => u32::from(p.strings.add(r)),
    } as usize;
    ctx.step(10 + t, i as u64);
    if t == 0 && s == "None" {
        return ctx.check(i == 0, "text-index", || format!("the name None got index {i}"));
    }
    if list.contains(&s) {
        return ctx.check(list.get(i) == Some(&s), "text-index", || format!("{s:.40?} is in the table, add gave {i}"));
    }
    list.push(s.clone());
    ctx.check(i + 1 == list.len(), "text-index", || format!("{s:.40?} is new, add gave {i} of {}", list.len()))
}

fn apply_map(m: &mut MBundle, cls: &[(u32, u32)], fun: &[(u32, u32)]) {
    let c = |v: u32| cls.iter().find(|x| x.0 == v).map_or(v, |x| x.1);
    let f = |v: u32| fun.iter().find(|x| x.0 == v).map_or(v, |x| x.1);
    for d in &mut m.defs {
        match &mut d.kind {
            MKind::Class { base, .. } => *base = c(*base),
            MKind::Function(x) => {
                d.parent = c(d.parent);
                for i in &mut x.code {
                    match i.op {
                        35 => i.args[1] = c(i.args[1] as u32).into(),
                        48 | 90 => i.args[0] = c(i.args[0] as u32).into(),
                        36 => i.args[2] = f(i.args[2] as u32).into(),
                        _ => {}
                    }
                }
            }
            MKind::Param { .. } | MKind::Local { .. } => d.parent = f(d.parent),
            MKind::Field { .. } => d.parent = c(d.parent),
            _ => {}
        }
    }
}

fn pairs(ch: &mut Choices, n: usize) -> Vec<(u32, u32)> {
    let k = ch.draw(4);
    let mut v: Vec<(u32, u32)> = vec![];
    for _ in 0..k {
        let (a, b) = (ch.draw(n as u64 + 2) as u32, ch.draw(n as u64 + 2) as u32);
        if v.iter().all(|x| x.0 != a) {
            v.push((a, b));
        }
    }
    v
}

/// Typed access finds a definition exactly when the pool has one of that kind at the index.
fn lookups(ctx: &mut Ctx, p: &mut ConstantPool, m: &MBundle) -> V {
    let i = 1 + ctx.ch.below(m.defs.len() + 2);
    let d = m.defs.get(i - 1);
    let code = d.map(MDef::type_code);
    let got = [
        (0u8, p.type_(ix(i)).is_ok()),
        (1, p.class(ix(i)).is_ok()),
        (2, p.enum_value(ix(i)).is_ok()),
        (3, p.enum_(ix(i)).is_ok()),
        (5, p.function(ix(i)).is_ok()),
        (6, p.parameter(ix(i)).is_ok()),
        (7, p.local(ix(i)).is_ok()),
        (8, p.field(ix(i)).is_ok()),
        (1, p.class_mut(ix(i)).is_ok()),
        (5, p.function_mut(ix(i)).is_ok()),
        (8, p.field_mut(ix(i)).is_ok()),
    ];
    for (k, ok) in got {
        ctx.check(ok == (code == Some(k)), "lookup", || format!("index {i} is of type {code:?}; access as {k}: {ok}"))?;
    }
    if let (Some(MKind::EnumValue(v)), Ok(g)) = (d.map(|d| &d.kind), p.enum_value(ix(i))) {
        ctx.check(*v == g, "lookup", || format!("enum value {v} reads as {g}"))?;
    }
    let r = p.definition::<Definition>(ix(i));
    ctx.check(r.is_ok() == d.is_some(), "lookup", || format!("index {i}: definition {}", r.is_ok()))?;
    if let Some(d) = d {
        let want = if d.name == 0 { Some("None".to_string()) } else { m.names.get(d.name as usize).cloned() };
        let got = p.def_name::<Definition>(ix(i)).ok().map(|s| s.to_string());
        ctx.check(got == want, "def-name", || format!("index {i}: {got:.60?}, expected {want:.60?}"))?;
    }
    let roots: Vec<u32> = p.roots().map(|(i, _)| u32::from(i)).collect();
    let want: Vec<u32> = m.defs.iter().enumerate().filter(|(_, d)| d.parent == 0).map(|(i, _)| i as u32 + 1).collect();
    ctx.check(roots == want, "roots", || format!("roots {roots:?}, expected {want:?}"))
}

/// In-place changes through the typed accessors.
fn modify(ctx: &mut Ctx, p: &mut ConstantPool, m: &mut MBundle) -> V {
    if m.defs.is_empty() {
        return Ok(());
    }
    let i = 1 + ctx.ch.below(m.defs.len());
    let other = some_def(&mut ctx.ch, m.defs.len());
    let d = &mut m.defs[i - 1];
    match (&mut d.kind, other.kind) {
        (MKind::Function(f), MKind::Function(g)) => {
            let Ok(r) = p.function_mut(ix(i)) else { fail!("lookup", "function {i} is not found") };
            let AnyDefinition::Function(x) = conv::to_real(&MDef { kind: MKind::Function(g.clone()), ..reserved() }).value else {
                unreachable!()
            };
            match ctx.ch.draw(5) {
                0 => {
                    f.code = g.code;
                    r.code = x.code;
                }
                1 => {
                    f.locals = g.locals;
                    r.locals = x.locals;
                }
                2 => {
                    f.params.extend(g.params);
                    r.parameters.extend(x.parameters);
                }
                3 => {
                    f.base = g.base;
                    r.base_method = x.base_method;
                }
                _ => {
                    f.ret = g.ret;
                    f.unk1 = g.unk1;
                    r.return_type = x.return_type;
                    r.unk1 = x.unk1;
                }
            }
        }
        (MKind::Class { functions, fields, overrides, .. }, _) => {
            let Ok(r) = p.class_mut(ix(i)) else { fail!("lookup", "class {i} is not found") };
            let v = gen::v32(&mut ctx.ch);
            match ctx.ch.draw(4) {
                0 => {
                    functions.push(v);
                    r.functions.push(ix(v as usize));
                }
                1 => {
                    fields.insert(0, v);
                    r.fields.insert(0, ix(v as usize));
                }
                2 => {
                    functions.clear();
                    r.functions.clear();
                }
                _ => {
                    overrides.push(v);
                    r.overrides.push(ix(v as usize));
                }
            }
        }
        (MKind::Field { hint, attrs, .. }, _) => {
            let Ok(r) = p.field_mut(ix(i)) else { fail!("lookup", "field {i} is not found") };
            let t = gen::text(&mut ctx.ch, 3000);
            if ctx.ch.coin() {
                *hint = if hint.is_some() { None } else { Some(t.clone()) };
                r.hint = hint.clone();
            } else {
                attrs.push((t.clone(), "x".into()));
                r.attributes.push(Property { name: t, value: "x".into() });
            }
        }
        _ => {}
    }
    Ok(())
}

pub fn history(ctx: &mut Ctx) -> V {
    let mut m = gen::bundle(&mut ctx.ch);
    if m.names.is_empty() || ctx.ch.coin() {
        m.names.insert(0, "None".into());
    }
    let n = m.defs.len();
    for d in &mut m.defs {
        near(&mut ctx.ch, d, n);
    }
    let first = model::encode_with_layout(&m, &Place::default()).0;
    let mut b: ScriptBundle = load(&first).map_err(|e| Violation::new("load-failed", e.to_string()))?;
    // what was last saved successfully
    let mut disk: (Vec<u8>, MBundle) = (first, m.clone());
    let mut snap: Option<(ConstantPool, MBundle)> = None;
    let steps = ctx.ch.range(1, 24);
    for step in 0..steps {
        let n = m.defs.len();
        let op = ctx.ch.weighted(&[4, 4, 2, 2, 2, 1, 1, 2, 3, 3, 3, 2, 2]);
        ctx.step(op as u64, n as u64);
        match op {
            0 => add_text(ctx, &mut b.pool, &mut m)?,
            1 => {
                let d = some_def(&mut ctx.ch, n);
                let (real, d) = if ctx.ch.coin() { constructed(&d) } else { (conv::to_real(&d), d) };
                let i: PoolIndex<Definition> = b.pool.add_definition(real);
                m.defs.push(d);
                ctx.check(u32::from(i) as usize == n + 1, "add-index", || format!("{n} definitions, the next one got {i:?}"))?;
            }
            2 if n > 0 => {
                let i = 1 + ctx.ch.below(n);
                let d = some_def(&mut ctx.ch, n);
                b.pool.put_definition::<Definition>(ix(i), conv::to_real(&d));
                m.defs[i - 1] = d;
            }
            3 if n > 1 => {
                let (i, j) = (ctx.ch.below(n), ctx.ch.below(n));
                b.pool.swap_definition::<Definition>(ix(i + 1), ix(j + 1));
                m.defs.swap(i, j);
            }
            4 if n > 0 => {
                let (i, v) = (ctx.ch.below(n), ctx.ch.draw(m.names.len() as u64 + 1) as usize);
                b.pool.rename::<Definition>(ix(i + 1), ix(v));
                m.defs[i].name = v as u32;
            }
            5 => {
                let i: PoolIndex<Class> = b.pool.reserve();
                m.defs.push(reserved());
                ctx.check(u32::from(i) as usize == n + 1, "add-index", || format!("{n} definitions, reserved {i:?}"))?;
            }
            6 => {
                let v = ctx.ch.draw(m.names.len() as u64 + 1) as u32;
                let i: PoolIndex<Class> = b.pool.stub_definition(ix(v as usize));
                m.defs.push(MDef { name: v, ..reserved() });
                ctx.check(u32::from(i) as usize == n + 1, "add-index", || format!("{n} definitions, stub {i:?}"))?;
            }
            7 => {
                let (c, f) = (pairs(&mut ctx.ch, n), pairs(&mut ctx.ch, n));
                let map = |l: &[(u32, u32)]| l.iter().map(|x| (x.0 as usize, x.1 as usize)).collect::<Vec<_>>();
                let cm = MultiMapper::new(map(&c).into_iter().map(|(a, b)| (ix::<Class>(a), ix::<Class>(b))).collect());
                let fm = MultiMapper::new(map(&f).into_iter().map(|(a, b)| (ix::<Function>(a), ix::<Function>(b))).collect());
                match ctx.ch.draw(3) {
                    0 => {
                        PoolMapper::default().with_class_mapper(cm).with_function_mapper(fm).map(&mut b.pool);
                        apply_map(&mut m, &c, &f);
                    }
                    1 => {
                        PoolMapper::default().with_class_mapper(cm).map(&mut b.pool);
                        apply_map(&mut m, &c, &[]);
                    }
                    _ => {
                        PoolMapper::default().with_function_mapper(fm).map(&mut b.pool);
                        apply_map(&mut m, &[], &f);
                    }
                }
            }
            8 => modify(ctx, &mut b.pool, &mut m)?,
            9 => lookups(ctx, &mut b.pool, &m)?,
            10 => {
                // a save, with or without faults
                let mut s = SimStream::new(vec![]);
                if ctx.ch.chance(1, 3) {
                    s.set_delivery(&mut ctx.ch);
                }
                if ctx.ch.coin() {
                    let k = ctx.ch.draw(KINDS.len() as u64) as u8;
                    let at = ctx.ch.draw(60);
                    s.faults.push((at, if ctx.ch.coin() { Fault::Once(k) } else { Fault::Sticky(k) }));
                }
                let r = if ctx.ch.coin() { b.save(&mut s) } else { b.save(&mut BufWriter::new(&mut s)) };
                s.report(ctx);
                match r {
                    Ok(()) => {
                        same_bytes(ctx, &s.data, &m.clone().canon(), "saved-content")?;
                        ctx.count("history.saved");
                        disk = (s.data, m.clone().canon());
                    }
                    Err(e) => {
                        ctx.check(s.fired(), "save-failed", || format!("step {step}: no fault, save failed: {e}"))?;
                        ctx.count("history.save_failed");
                    }
                }
            }
            11 => {
                // restart: only what was saved survives
                b = load(&disk.0).map_err(|e| Violation::new("reload-failed", e.to_string()))?;
                m = disk.1.clone();
                ctx.count("history.reloaded");
                same_pool(ctx, &b, &m, "reloaded-content")?;
            }
            12 => match snap.take() {
                None => snap = Some((b.pool.clone(), m.clone())),
                Some((p, sm)) => {
                    // edits after the copy was taken are not seen in the copy
                    let d = diff(&conv::pool(&p, &sm.head), &sm.seen());
                    ctx.check(d.is_none(), "copy-changed", || format!("copy / what was copied: {}", d.unwrap_or_default()))?;
                    if ctx.ch.coin() {
                        b.pool = p;
                        m = sm;
                    }
                }
            },
            _ => {}
        }
        if ctx.ch.chance(1, 4) {
            same_pool(ctx, &b, &m, "content")?;
        }
    }
    same_pool(ctx, &b, &m, "content")?;
    let mut s = SimStream::new(vec![]);
    b.save(&mut s).map_err(|e| Violation::new("save-failed", format!("at the end: {e}")))?;
    same_bytes(ctx, &s.data, &m.clone().canon(), "saved-content")?;
    let b2 = load(&s.data).map_err(|e| Violation::new("reload-failed", e.to_string()))?;
    same_pool(ctx, &b2, &m.canon(), "reloaded-content")
}
