//! Mistakes mod authors make, each with what the language says about it: the line that is wrong (marked `//!`) and the
//! code the report gives it. `$T` is a name of the script's own.

/// When the mistake is found: while bodies are checked (every one is reported), while declarations are checked
/// (reported with all others of the kind), or only when code is generated (the first one ends the compilation).
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum When {
    Body,
    Decl,
    Late,
}
use When::{Body, Decl, Late};

pub const FLAWS: &[(When, &str, &str)] = &[
    (Body, "TYPE_ERR", "func $T() -> Int32 {\n  return \"text\"; //!\n}\n"),
    (Body, "TYPE_ERR", "func $T() -> Int32 = true; //!\n"),
    (Body, "TYPE_ERR", "func $T(a: Int32) -> Int32 {\n  if a > 3 {\n    return; //!\n  }\n  return 1;\n}\n"),
    (Body, "TYPE_ERR", "func $T() {\n  return 1; //!\n}\n"),
    (Body, "TYPE_ERR", "func $T() -> Void {\n  return true; //!\n}\n"),
    (Body, "TYPE_ERR", "func $T() -> Int32 {\n  let a: Int32 = 1;\n  a = \"text\"; //!\n  return a;\n}\n"),
    (Body, "TYPE_ERR", "func $T(a: Float) -> Float {\n  let b: Float = a;\n  b = this$T(1); //!\n  return b;\n}\nfunc this$T(a: Int32) -> Int32 = a;\n"),
    (Body, "TYPE_ERR", "func $T(a: Int32) -> Int32 {\n  if a { //!\n    return 2;\n  }\n  return 1;\n}\n"),
    (Body, "TYPE_ERR", "func $T(a: Int32) -> Int32 {\n  while a { //!\n    a += 1;\n  }\n  return a;\n}\n"),
    (Body, "TYPE_ERR", "func $T(a: Int32) -> Int32 {\n  for x in a { //!\n    a += x;\n  }\n  return a;\n}\n"),
    (Body, "TYPE_ERR", "func $T(a: Int32) -> Int32 {\n  return a ? 1 : 2; //!\n}\n"),
    (Body, "TYPE_ERR", "func $T(a: array<Int32>) -> Int32 {\n  return a[\"x\"]; //!\n}\n"),
    (Body, "TYPE_ERR", "func $T(a: array<Int32>) {\n  ArrayPush(a, \"x\"); //!\n}\n"),
    (Body, "TYPE_ERR", "func $T(a: Int32) -> Int32 {\n  return ArraySize(a); //!\n}\n"),
    (Body, "TYPE_ERR", "func $T(a: Int32, b: String) -> Bool {\n  let c = a > 1 ? a : b; //!\n  return c == a;\n}\n"),
    (Body, "TYPE_ERR", "class $T {}\nclass $TSub extends $T {}\nfunc $TUp(a: ref<$T>) -> ref<$TSub> {\n  return a; //!\n}\n"),
    (Body, "TYPE_ERR", "class $T {}\nclass $TOther {}\nfunc $TUp(a: ref<$T>) {\n  let b: wref<$TOther> = a; //!\n  $TUse(b);\n}\nfunc $TUse(b: wref<$TOther>) {}\n"),
    (Body, "TYPE_ERR", "func $T() {\n  let a: Int32 = null; //!\n  $TUse(a);\n}\nfunc $TUse(b: Int32) {}\n"),
    (Body, "TYPE_ERR", "func $T() {\n  let a: Int32 = []; //!\n  $TUse(a);\n}\nfunc $TUse(b: Int32) {}\n"),
    (Body, "TYPE_ERR", "struct $TAt {\n  let x: Int32;\n  let y: Float;\n}\nfunc $T() -> $TAt {\n  return new $TAt(\n    1,\n    \"x\"); //!\n}\n"),
    (Body, "UNRESOLVED_FN", "func $T() -> Int32 {\n  let a = 1;\n  return NoSuch$T(a); //!\n}\n"),
    (Body, "NO_MATCHING_OVERLOAD", "func $T() -> Int32 {\n  return Clamp(1, 2, 3, 4); //!\n}\n"),
    (Body, "NO_MATCHING_OVERLOAD", "func $T() -> Int32 {\n  return Clamp(1, \"2\", 3); //!\n}\n"),
    (Body, "NO_MATCHING_OVERLOAD", "func $T() -> Int32 {\n  return 1 + \"a\"; //!\n}\n"),
    (Body, "NO_MATCHING_OVERLOAD", "func $T() -> Bool {\n  return !1; //!\n}\n"),
    (Body, "NO_MATCHING_OVERLOAD", "class $T {\n  func One(a: Int32, opt b: Int32) -> Int32 = a + b;\n  func Two() -> Int32 {\n    return this.One(); //!\n  }\n}\n"),
    (Body, "NO_MATCHING_OVERLOAD", "class $T {\n  func One(a: Int32) -> Int32 = a;\n  func One(a: String) -> Int32 = 1;\n  func Two() -> Int32 {\n    return this.One(true); //!\n  }\n}\n"),
    (Body, "NO_MATCHING_OVERLOAD", "class $T {}\nfunc $TNew() -> ref<$T> {\n  return new $T(1); //!\n}\n"),
    (Body, "NO_MATCHING_OVERLOAD", "struct $T {\n  let a: Int32;\n  let b: Int32;\n}\nfunc $TNew() -> $T {\n  return new $T(1); //!\n}\n"),
    (Body, "NO_MATCHING_OVERLOAD", "func $T(a: array<Int32>) -> Int32 {\n  return ArraySize(a, 1); //!\n}\n"),
    (Body, "UNRESOLVED_METHOD", "class $T {\n  func Two() -> Int32 {\n    return this.NoSuch(); //!\n  }\n}\n"),
    (Body, "UNRESOLVED_MEMBER", "class $T {\n  let a: Int32;\n  func Two() -> Int32 {\n    return this.b; //!\n  }\n}\n"),
    (Body, "UNRESOLVED_MEMBER", "enum $TE {\n  A = 0,\n  B = 1,\n}\nfunc $T() -> $TE {\n  return $TE.C; //!\n}\n"),
    (Body, "UNRESOLVED_REF", "func $T() -> Int32 {\n  return unknown; //!\n}\n"),
    (Body, "UNRESOLVED_REF", "func $T(a: Bool) -> Int32 {\n  if a {\n    let b = 1;\n    $T(b == 2);\n  }\n  return b; //!\n}\n"),
    (Body, "UNRESOLVED_REF", "func $T() -> Int32 {\n  let a = 1;\n  for x in [1, 2] {\n    a += x;\n  }\n  return a + x; //!\n}\n"),
    (Body, "UNRESOLVED_TYPE", "func $T() {\n  let a: NoSuch$T; //!\n}\n"),
    (Body, "UNRESOLVED_TYPE", "func $T() {\n  let a = new NoSuch$T(); //!\n}\n"),
    (Body, "UNRESOLVED_TYPE", "func $T(a: ref<IScriptable>) {\n  let b = a as NoSuch$T; //!\n}\n"),
    (Body, "NEW_ABSTRACT", "abstract class $T {}\nfunc $TNew() -> ref<$T> {\n  return new $T(); //!\n}\n"),
    (Body, "TYPE_ANN_REQUIRED", "func $T() {\n  let a; //!\n}\n"),
    (Body, "TYPE_ANN_REQUIRED", "func $T() {\n  let a = []; //!\n}\n"),
    (Body, "INVALID_MEMBER_ACCESS", "func $T(a: Int32) -> Int32 {\n  return a.size; //!\n}\n"),
    (Body, "INVALID_MEMBER_ACCESS", "func $T(a: array<Int32>) -> Int32 {\n  return a.Size(); //!\n}\n"),
    (Body, "UNEXPECTED_THIS", "class $T {\n  let a: Int32;\n  static func Get() -> Int32 {\n    return this.a; //!\n  }\n}\n"),
    (Body, "UNEXPECTED_THIS", "func $T() -> Int32 {\n  return this.a; //!\n}\n"),
    (Body, "UNSUPPORTED", "func $T() -> Int32 {\n  return new Int32(); //!\n}\n"),
    (Body, "UNSUPPORTED", "func $T(a: Int32) -> Int32 {\n  return a[0]; //!\n}\n"),
    (Body, "UNRESOLVED_MEMBER", "class $TUp {\n  let a: Int32;\n}\nclass $T extends $TUp {\n  func Two() -> Int32 {\n    return this.a + this.b; //!\n  }\n}\n"),
    (Body, "UNRESOLVED_METHOD", "class $TUp {\n  func One() -> Int32 = 1;\n}\nclass $T extends $TUp {\n  func Two() -> Int32 {\n    return this.Three(); //!\n  }\n}\n"),
    (Body, "TYPE_ERR", "class $T {\n  let a: Int32 = \"x\"; //!\n}\n"),
    (Body, "TYPE_ERR", "class $T {\n  let a: Float = true; //!\n}\n"),
    (Body, "TYPE_ERR", "class $T {\n  let a: Int32 = 2;\n  let b: Bool = 1; //!\n}\n"),
    (Body, "TYPE_ERR", "class $T {\n  let a: CName = \"x\"; //!\n}\n"),
    (Body, "TYPE_ERR", "class $T {\n  let a: array<Int32> = 1; //!\n}\n"),
    (Body, "UNRESOLVED_MEMBER", "enum $TE {\n  A = 0,\n}\nclass $T {\n  let a: $TE = $TE.B; //!\n}\n"),
    (Body, "INVALID_CONSTANT", "class $T {\n  let a: Int32 = 1 + 2; //!\n}\n"),
    (Body, "INVALID_CONSTANT", "class $T {\n  let a: ref<$T> = new $T(); //!\n}\n"),
    (Late, "", "@if(Foo(\"x\")) //!\nclass $T {}\n"),
    (Late, "", "@if(1) //!\nclass $T {}\n"),
    (Late, "", "class $TUp {}\n@if(true + false) //!\nclass $T {}\n"),
    (Late, "", "class $T {\n  @if(!x) //!\n  func One() -> Int32 = 1;\n}\n"),
    (Late, "", "class $T {\n  @if(ModuleExists(2)) //!\n  let a: Int32;\n}\n"),
    (Body, "INVALID_NONSTATIC_USE", "class $T {\n  func Get() -> Int32 = 1;\n}\nfunc $TGet() -> Int32 {\n  return $T.Get(); //!\n}\n"),
    (Body, "INVALID_STATIC_USE", "class $T {\n  static func Get() -> Int32 = 1;\n}\nfunc $TGet(a: ref<$T>) -> Int32 {\n  return a.Get(); //!\n}\n"),
    (Decl, "UNRESOLVED_TYPE", "class $T extends NoSuch$T { //!\n}\n"),
    (Decl, "UNRESOLVED_TYPE", "class $T {\n  let a: NoSuch$T; //!\n}\n"),
    (Decl, "UNRESOLVED_TYPE", "class $T {\n  func Get() -> NoSuch$T { //!\n  }\n}\n"),
    (Decl, "UNRESOLVED_TYPE", "func $T(a: Int32, b: array<NoSuch$T>) { //!\n}\n"),
    (Decl, "SYM_REDEFINITION", "class $T {}\nclass $T {} //!\n"),
    (Decl, "SYM_REDEFINITION", "class $T {}\nstruct $T {} //!\n"),
    (Decl, "SYM_REDEFINITION", "class Player { //!\n}\n"),
    (Decl, "MISSING_BODY", "class $T {\n  func Get() -> Int32; //!\n}\n"),
    (Decl, "UNEXPECTED_BODY", "native class $T {\n  native func Get() -> Int32 { //!\n    return 1;\n  }\n}\n"),
    (Decl, "UNEXPECTED_NATIVE", "class $T {\n  native func Get() -> Int32; //!\n}\n"),
    (Decl, "UNEXPECTED_NATIVE", "class $T {\n  native let a: Int32; //!\n}\n"),
    (Decl, "INVALID_PERSISTENT", "class $T {\n  persistent let a: String; //!\n}\n"),
    (Decl, "INVALID_PERSISTENT", "class $T {\n  persistent let a: array<Variant>; //!\n}\n"),
    (Decl, "UNSUPPORTED", "struct $T {\n  func Get() -> Int32 = 1; //!\n}\n"),
    (Decl, "UNSUPPORTED", "class $T extends $T { //!\n}\n"),
    (Decl, "UNSUPPORTED", "let $T: Int32; //!\n"),
    (Decl, "UNRESOLVED_IMPORT", "import No.Such$T //!\nclass $T {}\n"),
    (Decl, "UNRESOLVED_IMPORT", "import No.Such$T.* //!\nclass $T {}\n"),
    (Decl, "UNRESOLVED_REF", "@addMethod(NoSuch$T) //!\nfunc $T() {}\n"),
    (Decl, "UNRESOLVED_REF", "@addField(NoSuch$T) //!\nlet $T: Int32;\n"),
    (Decl, "UNRESOLVED_METHOD", "@wrapMethod(Player) //!\nfunc NoSuch$T() {}\n"),
    (Decl, "UNRESOLVED_METHOD", "@replaceMethod(Player) //!\nfunc NoSuch$T() {}\n"),
    (Decl, "UNRESOLVED_FN", "@replaceGlobal() //!\nfunc NoSuch$T() {}\n"),
    (Decl, "UNRESOLVED_TYPE", "class $T {}\n@addMethod($T) //!\nfunc $TGet() -> Int32 = 1;\n"),
    (Decl, "UNRESOLVED_TYPE", "enum $T {\n  A = 0,\n}\n@addField($T) //!\nlet a: Int32;\n"),
    (Decl, "UNRESOLVED_TYPE", "struct $T {}\n@addField($T) //!\nlet a: Int32;\n"),
    (Decl, "UNRESOLVED_METHOD", "class $T {\n  func Get() -> Int32 = 1;\n}\n@wrapMethod($T) //!\nfunc Get() -> Int32 = wrappedMethod();\n"),
    (Decl, "INVALID_ANN_USE", "@addField(1) //!\nlet $T: Int32;\n"),
    (Decl, "INVALID_ANN_USE", "@addMethod(1) //!\nfunc $T() {}\n"),
    (Decl, "INVALID_ANN_USE", "@wrapMethod() //!\nfunc $T() {}\n"),
    (Decl, "UNSUPPORTED", "@wrapMethod(Player) //!\nnative func $T();\n"),
];

/// What only the checks of the command line tool look for: whether it refuses it, and the text.
pub const PASSES: &[(bool, &str)] = &[
    (true, "func $T(a: Int32) -> Int32 {\n  switch a {\n    case 1: //!\n      a += 1;\n    case 2:\n      a += 3;\n  }\n  return a;\n}\n"),
    (true, "func $T() -> Int32 {\n  return $TList()[0]; //!\n}\nfunc $TList() -> array<Int32> = [1, 2];\n"),
    (true, "struct $T {\n  let a: Int32;\n}\nfunc $TGet() -> Int32 {\n  return $TMake().a; //!\n}\nfunc $TMake() -> $T = new $T(1);\n"),
    (true, "func $T(a: array<Int32>) -> Int32 {\n  return ArraySize($TList(a)); //!\n}\nfunc $TList(a: array<Int32>) -> array<Int32> = a;\n"),
    (true, "func $T(a: Int32) -> Int32 {\n  while a > 1 {\n    switch a {\n      case 1: //!\n        if a > 1 {\n          return 2;\n        }\n      case 2:\n        return 3;\n    }\n  }\n  return a;\n}\n"),
    (false, "func $T() -> Int32 {\n  let a = 1; //!\n  return 2;\n}\n"),
    (false, "func $T(a: Int32) -> Int32 { //!\n  if a > 1 {\n    return 1;\n  }\n}\n"),
    (false, "func $T(a: Int32) -> Int32 { //!\n  switch a {\n    case 1:\n      return 1;\n    default:\n      a += 1;\n  }\n}\n"),
    (false, "func $T(a: Int32) -> Int32 { //!\n  while a > 1 {\n    return 1;\n  }\n}\n"),
];

/// What is worth a warning, and nothing more.
pub const ODD: &[&str] = &[
    "func $T(a: Int32, b: String) -> Bool {\n  return Equals(a, b); //!\n}\n",
    "@addField(Player) //!\nlet hp: Int32;\n",
    "@addMethod(Player)\nfunc $T() -> Int32 = 1;\n@addMethod(Player) //!\nfunc $T() -> Int32 = 2;\n",
    "func $T() -> Int32 = 1;\n@replaceGlobal() //!\nfunc $T() -> Int32 = 2;\n",
    "@addField(Enemy) //!\nlet hp: Int32;\n",
    "class $T {\n  let a: Int32;\n}\n@addField($T) let a: Float; //!\n",
];

/// The text, and the number of its line that is wrong.
pub fn text(flaw: &str, token: &str) -> (String, usize) {
    let t = flaw.replace("$T", token);
    let line = t.lines().position(|l| l.contains("//!")).expect("mark") + 1;
    (t.replace(" //!", ""), line)
}

/// What is known of a script with a flaw.
#[derive(Clone, Copy, Debug)]
pub struct Note {
    pub line: usize,
    pub code: &'static str,
    pub fatal: bool,
    /// found by the command line tool only
    pub pass: bool,
}

/// For a look at what the compiler says.
pub fn show(own: &[String]) {
    use redscript::bundle::ScriptBundle;
    use redscript_compiler::{source_map::Files, unit::CompilationUnit};
    let all = FLAWS.iter().map(|f| (format!("{:?} {}", f.0, f.1), f.2)).chain(ODD.iter().map(|o| ("odd".to_string(), *o))).chain(PASSES.iter().map(|o| (format!("pass {}", o.0), o.1)));
    if !own.is_empty() {
        let mut b = ScriptBundle::load(&mut std::io::Cursor::new(crate::bases::BASES[own[0].parse::<usize>().expect("version")])).expect("base");
        let mut files = Files::new();
        for p in &own[1..] {
            files.add(p.into(), std::fs::read_to_string(p).expect("read"));
        }
        let r = CompilationUnit::new_with_defaults(&mut b.pool).expect("unit").compile_files(&files);
        return println!("{:#?}", r.map(|o| format!("{:#?}", o.diagnostics())));
    }
    for (k, (want, f)) in all.enumerate() {
        let (t, line) = text(f, "Tok");
        let mut b = ScriptBundle::load(&mut std::io::Cursor::new(crate::bases::BASES[1])).expect("base");
        let mut files = Files::new();
        files.add("x.reds".into(), t);
        let r = CompilationUnit::new_with_defaults(&mut b.pool).expect("unit").compile_files(&files);
        let show = |d: &redscript_compiler::diagnostics::Diagnostic| {
            let loc = files.lookup(d.span()).expect("place");
            format!("{} fatal={} line {} {d}", d.code(), d.is_fatal(), loc.start.line + 1)
        };
        let got: Vec<String> = match r {
            Ok(o) => o.diagnostics().iter().map(show).collect(),
            Err(e) => redscript_compiler::diagnostics::Diagnostic::from_error(e).iter().map(show).collect(),
        };
        println!("{k}: want {want} line {line}\n   got {got:?}");
    }
}
