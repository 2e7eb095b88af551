//! The script caches the simulated game ships: three versions, committed as data (`redsim gen-bases DIR` made them).
use redscript::bundle::ScriptBundle;
use redscript_compiler::source_map::Files;
use redscript_compiler::unit::CompilationUnit;

pub const BASES: [&[u8]; 4] = [
    include_bytes!("../data/base0.redscripts"),
    include_bytes!("../data/base1.redscripts"),
    include_bytes!("../data/base2.redscripts"),
    include_bytes!("../data/base3.redscripts"),
];

pub fn generate(predef: &[u8], version: usize) -> Vec<u8> {
    let mut bundle = ScriptBundle::load(&mut std::io::Cursor::new(predef)).expect("predef");
    // the first ones of a real cache are empty: what a variable holds at first
    bundle.pool.tweakdb_ids.add("".into());
    bundle.pool.resources.add("".into());
    let mut files = Files::new();
    files.add("root.script".into(), "native class IScriptable {}\n".into());
    CompilationUnit::new(&mut bundle.pool, vec![]).expect("unit").compile_and_report(&files).expect("root compiles");
    // the compiler makes IScriptable the base of every class without one, of IScriptable too
    let root = bundle
        .pool
        .roots()
        .find(|(i, d)| d.value.as_class().is_some() && bundle.pool.def_name(*i).is_ok_and(|n| n.as_ref() == "IScriptable"))
        .map(|(i, _)| i.cast())
        .expect("IScriptable");
    bundle.pool.class_mut(root).expect("class").base = redscript::bundle::PoolIndex::UNDEFINED;
    let mut src = String::new();
    for t in ["Int32", "Float"] {
        for op in ["Add", "Subtract", "Multiply", "Divide"] {
            src += &format!("native func Operator{op}(a: {t}, b: {t}) -> {t};\n");
            src += &format!("native func OperatorAssign{op}(out a: {t}, b: {t}) -> {t};\n");
        }
        for op in ["Less", "LessEqual", "Greater", "GreaterEqual", "Equal", "NotEqual"] {
            src += &format!("native func Operator{op}(a: {t}, b: {t}) -> Bool;\n");
        }
    }
    for t in ["Int64", "Uint32", "Uint64", "Double"] {
        for op in ["Add", "Subtract", "Multiply"] {
            src += &format!("native func Operator{op}(a: {t}, b: {t}) -> {t};\n");
            src += &format!("native func OperatorAssign{op}(out a: {t}, b: {t}) -> {t};\n");
        }
        for op in ["Less", "LessEqual", "Greater", "GreaterEqual", "Equal", "NotEqual"] {
            src += &format!("native func Operator{op}(a: {t}, b: {t}) -> Bool;\n");
        }
        src += &format!("native func Cast(a: Int32) -> {t};\nnative func Cast(a: {t}) -> Int32;\n");
    }
    for op in ["Or", "And"] {
        src += &format!("native func OperatorAssign{op}(out a: Int32, b: Int32) -> Int32;\n");
    }
    for op in ["Modulo", "Or", "And", "Xor"] {
        src += &format!("native func Operator{op}(a: Int32, b: Int32) -> Int32;\n");
    }
    src += "native func OperatorBitNot(a: Int32) -> Int32;\n";
    for op in ["LogicAnd", "LogicOr"] {
        src += &format!("native func Operator{op}(a: Bool, b: Bool) -> Bool;\n");
    }
    src += "native func OperatorLogicNot(a: Bool) -> Bool;\n";
    for t in ["Int32", "Int64", "Float", "Double"] {
        src += &format!("native func OperatorNeg(a: {t}) -> {t};\n");
    }
    src += "native struct ResRef {}\n";
    src += "native func OperatorAdd(a: script_ref<String>, b: script_ref<String>) -> String;\n";
    // (the game always has the type ref<IScriptable>)
    src += "native func IsDefined(a: ref<IScriptable>) -> Bool;\n";
    src += "native func Cast(a: Float) -> Int32;\nnative func Cast(a: Int32) -> Float;\n";
    let classes = [12, 90, 120, 160][version];
    for k in 0..classes {
        src += &format!(
            "native class Vanilla{k:03}v{version} extends IScriptable {{\n native func Do{k:03}(a: Int32) -> Int32;\n native let value{k:03}: Float;\n}}\n"
        );
    }
    src += &crate::game::vanilla_source(version);
    let mut files = Files::new();
    files.add("vanilla.script".into(), src);
    CompilationUnit::new(&mut bundle.pool, vec![]).expect("unit").compile_and_report(&files).expect("base compiles");
    // the second operand is evaluated only when it is needed
    for op in ["OperatorLogicAnd;", "OperatorLogicOr;"] {
        let f = bundle.pool.roots().find(|(i, _)| bundle.pool.def_name(*i).is_ok_and(|n| n.starts_with(op))).map(|d| d.0.cast()).expect("operator");
        let p = bundle.pool.function(f).expect("function").parameters[1];
        let par = bundle.pool.parameter(p).expect("parameter").clone();
        let mut d = bundle.pool.definition(p).expect("definition").clone();
        let flags = par.flags.with_is_short_circuit(true);
        d.value = redscript::definition::AnyDefinition::Parameter(redscript::definition::Parameter { type_: par.type_, flags });
        bundle.pool.put_definition(p, d);
    }
    // what only the game has: an array of fixed size
    use redscript::definition::{Definition, Field, FieldFlags, Type, Visibility};
    let int = bundle.pool.definitions().find(|(i, d)| matches!(d.value, redscript::definition::AnyDefinition::Type(Type::Prim)) && bundle.pool.def_name(*i).is_ok_and(|n| n.as_ref() == "Int32")).map(|d| d.0.cast()).expect("Int32");
    let player = bundle.pool.roots().find(|(i, d)| d.value.as_class().is_some() && bundle.pool.def_name(*i).is_ok_and(|n| n.as_ref() == "Player")).map(|d| d.0.cast()).expect("Player");
    let name = bundle.pool.names.add("Int32[3]".into());
    let type_ = bundle.pool.add_definition(Definition::type_(name, Type::StaticArray(int, 3)));
    let name = bundle.pool.names.add("slots".into());
    let field = Field { visibility: Visibility::Private, type_, flags: FieldFlags::new().with_is_browsable(true), hint: None, attributes: vec![], defaults: vec![] };
    let slots = bundle.pool.add_definition(Definition::field(name, player, field));
    bundle.pool.class_mut(player).expect("Player").fields.push(slots);
    // as the game's own compiler writes them
    for op in ["OperatorNeg", "OperatorBitNot", "OperatorLogicNot"] {
        let l: Vec<redscript::bundle::PoolIndex<redscript::definition::Function>> =
            bundle.pool.roots().filter(|(i, d)| d.value.as_function().is_some() && bundle.pool.def_name(*i).is_ok_and(|n| n.as_ref() == op)).map(|d| d.0.cast()).collect();
        for f in l {
            let t = bundle.pool.parameter(bundle.pool.function(f).expect("function").parameters[0]).expect("parameter").type_;
            let t = bundle.pool.def_name(t).expect("name");
            let name = bundle.pool.names.add(format!("{op};{t};{t}").into());
            bundle.pool.rename(f, name);
        }
    }
    let add = bundle.pool.roots().find(|(i, _)| bundle.pool.def_name(*i).is_ok_and(|n| n.starts_with("OperatorAdd;") && n.ends_with(";String"))).map(|d| d.0);
    let name = bundle.pool.names.add("OperatorAdd;Script_RefStringScript_RefString;String".into());
    bundle.pool.rename(add.expect("OperatorAdd"), name);
    let mut out = std::io::Cursor::new(vec![]);
    bundle.save(&mut out).expect("save");
    out.into_inner()
}
