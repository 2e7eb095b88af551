//! The real pool seen as the model's plain data, and back.
use crate::model::*;
use redscript::bundle::{ConstantPool, PoolIndex};
use redscript::bytecode::{Code, Instr, Offset};
use redscript::decode::Decode;
use redscript::definition::*;
use redscript::encode::Encode;

pub fn idx<A>(i: &PoolIndex<A>) -> u64 {
    u64::from(u32::from(*i))
}
fn i32_<A>(i: &PoolIndex<A>) -> u32 {
    u32::from(*i)
}
fn off(o: &Offset) -> u64 {
    u64::from(o.value as u16)
}
fn list<A>(l: &[PoolIndex<A>]) -> Vec<u32> {
    l.iter().map(|i| u32::from(*i)).collect()
}
/// For the two instructions whose operands are private.
fn via_bytes<E: Encode>(op: u8, e: &E) -> MInstr {
    let mut b = vec![op];
    e.encode(&mut b).expect("memory");
    let mut p = 0;
    decode_instr(&b, &mut p).unwrap_or_else(|e| panic!("operands of {op}: {e}"))
}

pub fn instr(i: &Instr<Offset>) -> MInstr {
    match i {
        Instr::Nop => MInstr::new(0, &[]),
        Instr::Null => MInstr::new(1, &[]),
        Instr::I32One => MInstr::new(2, &[]),
        Instr::I32Zero => MInstr::new(3, &[]),
        Instr::I8Const(a) => MInstr::new(4, &[i64::from(*a) as u64]),
        Instr::I16Const(a) => MInstr::new(5, &[i64::from(*a) as u64]),
        Instr::I32Const(a) => MInstr::new(6, &[i64::from(*a) as u64]),
        Instr::I64Const(a) => MInstr::new(7, &[i64::from(*a) as u64]),
        Instr::U8Const(a) => MInstr::new(8, &[u64::from(*a)]),
        Instr::U16Const(a) => MInstr::new(9, &[u64::from(*a)]),
        Instr::U32Const(a) => MInstr::new(10, &[u64::from(*a)]),
        Instr::U64Const(a) => MInstr::new(11, &[u64::from(*a)]),
        Instr::F32Const(a) => MInstr::new(12, &[u64::from(a.to_bits())]),
        Instr::F64Const(a) => MInstr::new(13, &[a.to_bits()]),
        Instr::NameConst(a) => MInstr::new(14, &[idx(a)]),
        Instr::EnumConst(a, b) => MInstr::new(15, &[idx(a), idx(b)]),
        Instr::StringConst(a) => MInstr::new(16, &[idx(a)]),
        Instr::TweakDbIdConst(a) => MInstr::new(17, &[idx(a)]),
        Instr::ResourceConst(a) => MInstr::new(18, &[idx(a)]),
        Instr::TrueConst => MInstr::new(19, &[]),
        Instr::FalseConst => MInstr::new(20, &[]),
        Instr::Breakpoint(b) => via_bytes(21, &**b),
        Instr::Assign => MInstr::new(22, &[]),
        Instr::Target(_) => MInstr::new(23, &[]),
        Instr::Local(a) => MInstr::new(24, &[idx(a)]),
        Instr::Param(a) => MInstr::new(25, &[idx(a)]),
        Instr::ObjectField(a) => MInstr::new(26, &[idx(a)]),
        Instr::ExternalVar => MInstr::new(27, &[]),
        Instr::Switch(a, b) => MInstr::new(28, &[idx(a), off(b)]),
        Instr::SwitchLabel(a, b) => MInstr::new(29, &[off(a), off(b)]),
        Instr::SwitchDefault => MInstr::new(30, &[]),
        Instr::Jump(a) => MInstr::new(31, &[off(a)]),
        Instr::JumpIfFalse(a) => MInstr::new(32, &[off(a)]),
        Instr::Skip(a) => MInstr::new(33, &[off(a)]),
        Instr::Conditional(a, b) => MInstr::new(34, &[off(a), off(b)]),
        Instr::Construct(a, b) => MInstr::new(35, &[u64::from(*a), idx(b)]),
        Instr::InvokeStatic(a, b, c, d) => MInstr::new(36, &[off(a), u64::from(*b), idx(c), u64::from(*d)]),
        Instr::InvokeVirtual(a, b, c, d) => MInstr::new(37, &[off(a), u64::from(*b), idx(c), u64::from(*d)]),
        Instr::ParamEnd => MInstr::new(38, &[]),
        Instr::Return => MInstr::new(39, &[]),
        Instr::StructField(a) => MInstr::new(40, &[idx(a)]),
        Instr::Context(a) => MInstr::new(41, &[off(a)]),
        Instr::Equals(a) => MInstr::new(42, &[idx(a)]),
        Instr::RefStringEqualsString(a) => MInstr::new(43, &[idx(a)]),
        Instr::StringEqualsRefString(a) => MInstr::new(44, &[idx(a)]),
        Instr::NotEquals(a) => MInstr::new(45, &[idx(a)]),
        Instr::RefStringNotEqualsString(a) => MInstr::new(46, &[idx(a)]),
        Instr::StringNotEqualsRefString(a) => MInstr::new(47, &[idx(a)]),
        Instr::New(a) => MInstr::new(48, &[idx(a)]),
        Instr::Delete => MInstr::new(49, &[]),
        Instr::This => MInstr::new(50, &[]),
        Instr::StartProfiling(b) => via_bytes(51, &**b),
        Instr::ArrayClear(a) => MInstr::new(52, &[idx(a)]),
        Instr::ArraySize(a) => MInstr::new(53, &[idx(a)]),
        Instr::ArrayResize(a) => MInstr::new(54, &[idx(a)]),
        Instr::ArrayFindFirst(a) => MInstr::new(55, &[idx(a)]),
        Instr::ArrayFindFirstFast(a) => MInstr::new(56, &[idx(a)]),
        Instr::ArrayFindLast(a) => MInstr::new(57, &[idx(a)]),
        Instr::ArrayFindLastFast(a) => MInstr::new(58, &[idx(a)]),
        Instr::ArrayContains(a) => MInstr::new(59, &[idx(a)]),
        Instr::ArrayContainsFast(a) => MInstr::new(60, &[idx(a)]),
        Instr::ArrayCount(a) => MInstr::new(61, &[idx(a)]),
        Instr::ArrayCountFast(a) => MInstr::new(62, &[idx(a)]),
        Instr::ArrayPush(a) => MInstr::new(63, &[idx(a)]),
        Instr::ArrayPop(a) => MInstr::new(64, &[idx(a)]),
        Instr::ArrayInsert(a) => MInstr::new(65, &[idx(a)]),
        Instr::ArrayRemove(a) => MInstr::new(66, &[idx(a)]),
        Instr::ArrayRemoveFast(a) => MInstr::new(67, &[idx(a)]),
        Instr::ArrayGrow(a) => MInstr::new(68, &[idx(a)]),
        Instr::ArrayErase(a) => MInstr::new(69, &[idx(a)]),
        Instr::ArrayEraseFast(a) => MInstr::new(70, &[idx(a)]),
        Instr::ArrayLast(a) => MInstr::new(71, &[idx(a)]),
        Instr::ArrayElement(a) => MInstr::new(72, &[idx(a)]),
        Instr::ArraySort(a) => MInstr::new(73, &[idx(a)]),
        Instr::ArraySortByPredicate(a) => MInstr::new(74, &[idx(a)]),
        Instr::StaticArraySize(a) => MInstr::new(75, &[idx(a)]),
        Instr::StaticArrayFindFirst(a) => MInstr::new(76, &[idx(a)]),
        Instr::StaticArrayFindFirstFast(a) => MInstr::new(77, &[idx(a)]),
        Instr::StaticArrayFindLast(a) => MInstr::new(78, &[idx(a)]),
        Instr::StaticArrayFindLastFast(a) => MInstr::new(79, &[idx(a)]),
        Instr::StaticArrayContains(a) => MInstr::new(80, &[idx(a)]),
        Instr::StaticArrayContainsFast(a) => MInstr::new(81, &[idx(a)]),
        Instr::StaticArrayCount(a) => MInstr::new(82, &[idx(a)]),
        Instr::StaticArrayCountFast(a) => MInstr::new(83, &[idx(a)]),
        Instr::StaticArrayLast(a) => MInstr::new(84, &[idx(a)]),
        Instr::StaticArrayElement(a) => MInstr::new(85, &[idx(a)]),
        Instr::RefToBool => MInstr::new(86, &[]),
        Instr::WeakRefToBool => MInstr::new(87, &[]),
        Instr::EnumToI32(a, b) => MInstr::new(88, &[idx(a), u64::from(*b)]),
        Instr::I32ToEnum(a, b) => MInstr::new(89, &[idx(a), u64::from(*b)]),
        Instr::DynamicCast(a, b) => MInstr::new(90, &[idx(a), u64::from(*b)]),
        Instr::ToString(a) => MInstr::new(91, &[idx(a)]),
        Instr::ToVariant(a) => MInstr::new(92, &[idx(a)]),
        Instr::FromVariant(a) => MInstr::new(93, &[idx(a)]),
        Instr::VariantIsDefined => MInstr::new(94, &[]),
        Instr::VariantIsRef => MInstr::new(95, &[]),
        Instr::VariantIsArray => MInstr::new(96, &[]),
        Instr::VariantTypeName => MInstr::new(97, &[]),
        Instr::VariantToString => MInstr::new(98, &[]),
        Instr::WeakRefToRef => MInstr::new(99, &[]),
        Instr::RefToWeakRef => MInstr::new(100, &[]),
        Instr::WeakRefNull => MInstr::new(101, &[]),
        Instr::AsRef(a) => MInstr::new(102, &[idx(a)]),
        Instr::Deref(a) => MInstr::new(103, &[idx(a)]),
    }
}

pub fn def(d: &Definition) -> MDef {
    let kind = match &d.value {
        AnyDefinition::Type(t) => {
            let (tag, inner, size) = match t {
                Type::Prim => (0, 0, 0),
                Type::Class => (1, 0, 0),
                Type::Ref(i) => (2, i32_(i), 0),
                Type::WeakRef(i) => (3, i32_(i), 0),
                Type::Array(i) => (4, i32_(i), 0),
                Type::StaticArray(i, n) => (5, i32_(i), *n),
                Type::ScriptRef(i) => (6, i32_(i), 0),
            };
            MKind::Type { tag, inner, size }
        }
        AnyDefinition::Class(c) => MKind::Class {
            vis: c.visibility as u8,
            flags: u16::from_le_bytes(c.flags.into_bytes()),
            base: i32_(&c.base),
            functions: list(&c.functions),
            fields: list(&c.fields),
            overrides: list(&c.overrides),
        },
        AnyDefinition::EnumValue(v) => MKind::EnumValue(*v),
        AnyDefinition::Enum(e) => MKind::Enum {
            flags: e.flags,
            size: e.size,
            members: list(&e.members),
            unk1: e.unk1,
        },
        AnyDefinition::Function(f) => MKind::Function(MFun {
            vis: f.visibility as u8,
            flags: u32::from_le_bytes(f.flags.into_bytes()),
            source: f.source.as_ref().map(|s| (i32_(&s.file), s.line)),
            ret: f.return_type.as_ref().map(i32_),
            unk1: f.unk1,
            base: f.base_method.as_ref().map(i32_),
            params: list(&f.parameters),
            locals: list(&f.locals),
            operator: f.operator,
            cast: f.cast,
            code: f.code.as_ref().iter().map(instr).collect(),
            unk2: list(&f.unk2),
        }),
        AnyDefinition::Parameter(p) => MKind::Param {
            ty: i32_(&p.type_),
            flags: p.flags.into_bytes()[0],
        },
        AnyDefinition::Local(p) => MKind::Local {
            ty: i32_(&p.type_),
            flags: p.flags.into_bytes()[0],
        },
        AnyDefinition::Field(f) => {
            let props = |l: &[Property]| l.iter().map(|p| (p.name.clone(), p.value.clone())).collect();
            MKind::Field {
                vis: f.visibility as u8,
                ty: i32_(&f.type_),
                flags: u16::from_le_bytes(f.flags.into_bytes()),
                hint: f.hint.clone(),
                attrs: props(&f.attributes),
                defaults: props(&f.defaults),
            }
        }
        AnyDefinition::SourceFile(s) => MKind::Source {
            id: s.id,
            hash: s.path_hash,
            path: s.path.to_str().expect("path is text").to_string(),
        },
    };
    MDef {
        name: i32_(&d.name),
        parent: i32_(&d.parent),
        unk: [d.unk1, d.unk2, d.unk3],
        kind,
    }
}

/// Everything of a pool that its public interface shows, as a bundle with the given header.
pub fn pool(p: &ConstantPool, head: &MHead) -> MBundle {
    fn strs<K: redscript::bundle::DefaultString>(s: &redscript::bundle::Strings<K>) -> Vec<String> {
        // index 0 of the names reads as "None" whatever is stored there, so the real entry 0 is not visible
        let mut out = vec![];
        for i in 0.. {
            match s.get(PoolIndex::new(i)) {
                Ok(t) => out.push(t.to_string()),
                Err(_) => break,
            }
        }
        out
    }
    MBundle {
        head: head.clone(),
        names: strs(&p.names),
        tweakdb: strs(&p.tweakdb_ids),
        resources: strs(&p.resources),
        strings: strs(&p.strings),
        defs: p.definitions().map(|(_, d)| def(d)).collect(),
    }
}

fn ix<A>(v: u32) -> PoolIndex<A> {
    PoolIndex::new(v)
}
fn ixs<A>(v: &[u32]) -> Vec<PoolIndex<A>> {
    v.iter().map(|v| PoolIndex::new(*v)).collect()
}
fn vis(v: u8) -> Visibility {
    match v {
        0 => Visibility::Public,
        1 => Visibility::Protected,
        _ => Visibility::Private,
    }
}

pub fn to_code(l: &[MInstr]) -> Code<Offset> {
    Code::new(
        l.iter()
            .map(|i| {
                let mut b = vec![];
                encode_instr(i, &mut b);
                Instr::decode(&mut b.as_slice()).expect("instruction")
            })
            .collect(),
    )
}

pub fn to_real(d: &MDef) -> Definition {
    let value = match &d.kind {
        MKind::Type { tag, inner, size } => AnyDefinition::Type(match tag {
            0 => Type::Prim,
            1 => Type::Class,
            2 => Type::Ref(ix(*inner)),
            3 => Type::WeakRef(ix(*inner)),
            4 => Type::Array(ix(*inner)),
            5 => Type::StaticArray(ix(*inner), *size),
            _ => Type::ScriptRef(ix(*inner)),
        }),
        MKind::Class {
            vis: v,
            flags,
            base,
            functions,
            fields,
            overrides,
        } => AnyDefinition::Class(Class {
            visibility: vis(*v),
            flags: ClassFlags::from_bytes(flags.to_le_bytes()),
            base: ix(*base),
            functions: ixs(functions),
            fields: ixs(fields),
            overrides: ixs(overrides),
        }),
        MKind::EnumValue(v) => AnyDefinition::EnumValue(*v),
        MKind::Enum {
            flags,
            size,
            members,
            unk1,
        } => AnyDefinition::Enum(Enum {
            flags: *flags,
            size: *size,
            members: ixs(members),
            unk1: *unk1,
        }),
        MKind::Function(f) => AnyDefinition::Function(Function {
            visibility: vis(f.vis),
            flags: FunctionFlags::from_bytes(f.flags.to_le_bytes()),
            source: f.source.map(|(file, line)| SourceReference { file: ix(file), line }),
            return_type: f.ret.map(ix),
            unk1: f.unk1,
            base_method: f.base.map(ix),
            parameters: ixs(&f.params),
            locals: ixs(&f.locals),
            operator: f.operator,
            cast: f.cast,
            code: to_code(&f.code),
            unk2: ixs(&f.unk2),
        }),
        MKind::Param { ty, flags } => AnyDefinition::Parameter(Parameter {
            type_: ix(*ty),
            flags: ParameterFlags::from_bytes([*flags]),
        }),
        MKind::Local { ty, flags } => AnyDefinition::Local(Local::new(ix(*ty), LocalFlags::from_bytes([*flags]))),
        MKind::Field {
            vis: v,
            ty,
            flags,
            hint,
            attrs,
            defaults,
        } => {
            let props = |l: &[(String, String)]| {
                l.iter()
                    .map(|(n, v)| Property {
                        name: n.clone(),
                        value: v.clone(),
                    })
                    .collect()
            };
            AnyDefinition::Field(Field {
                visibility: vis(*v),
                type_: ix(*ty),
                flags: FieldFlags::from_bytes(flags.to_le_bytes()),
                hint: hint.clone(),
                attributes: props(attrs),
                defaults: props(defaults),
            })
        }
        MKind::Source { id, hash, path } => AnyDefinition::SourceFile(SourceFile {
            id: *id,
            path_hash: *hash,
            path: path.into(),
        }),
    };
    Definition {
        name: ix(d.name),
        parent: ix(d.parent),
        unk1: d.unk[0],
        unk2: d.unk[1],
        unk3: d.unk[2],
        value,
    }
}
