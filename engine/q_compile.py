"""C29: compile-pass and compile-fail witnesses for the derive macros.
Each witness is a whole program that is type-checked (never run) against the current tree: the compiler has to
accept those that only use supported shapes, under any names, and to reject the others."""
import os, json, subprocess, time, hashlib, glob
import dump, fixtures, ck

USE = "#![allow(warnings)]\nuse yule_log::{ULogData, ULogMessages};\nuse yule_log::model::msg::UlogMessage;\nuse yule_log::model::CChar;\n"
MAIN = "\nfn main() {}\n"
ONE = "#[derive(ULogData)]\npub struct One { pub x: f32, pub y: Option<i32> }\n#[derive(ULogData)]\npub struct Two { pub z: Vec<u8> }\n"
def enum(name="Messages", variants="One(One), Two(Two)", other=None, vis="pub "):
    o = ", #[yule_log(forward_other)] %s(UlogMessage)" % other if other else ""
    return "#[derive(ULogMessages)]\n%senum %s { %s%s }\n" % (vis, name, variants, o)
def struct(name, fields="x: f32", attrs="", vis="pub "):
    return "#[derive(ULogData)]\n%s%sstruct %s { %s }\n" % (attrs, vis, name, fields)
def drive(name="Messages"):
    """a user of the derived enum: every entry of the generated interface"""
    return ("fn _drive(r: &[u8]) -> Result<(), yule_log::errors::ULogError> {\n    for m in %s::stream(r)? { let _m: %s = m?; }\n"
            "    let b = %s::builder(r).add_subscription(\"a\")?.extend_subscriptions([\"b\", \"c\"])?.forward_subscriptions(true)?;\n    for m in b.stream()? { let _m: %s = m?; }\n    Ok(())\n}\n") % ((name,) * 4)

SCALARS = ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "f32", "f64", "bool", "CChar"]
ELEMS = ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "f32", "f64", "bool", "CChar"]
LOCALS = ["map", "missing", "result", "format", "data", "idx", "f", "i", "a", "v", "acc", "parser", "subs", "reader", "msg", "sub", "value", "name", "e", "allow",
          "timestamp", "x", "x_index", "fields", "from_field", "get", "ok_or_else", "main", "std", "yule_log", "core", "alloc", "union", "auto", "macro_rules"]
KEYWORDS = ["type", "match", "struct", "enum", "fn", "mod", "use", "move", "ref", "loop", "async", "await", "dyn", "try", "abstract", "box", "yield", "virtual",
            "where", "impl", "trait", "static", "const", "return", "final", "override", "priv", "become", "typeof", "unsized", "do", "macro", "in", "as", "let", "mut", "pub", "unsafe", "true", "false", "extern"]
TYPES = ["Accessor", "Format", "Builder", "Messages2", "FromField", "HashMap", "HashSet", "Read", "ULogParser", "ULogError", "ULogAccessor", "ULogAccessorFactory", "ULogParserBuilder",
         "Output", "Item", "LoggedData", "AddSubscription", "Other", "InvalidFieldName", "Shared", "A", "T", "R", "S", "I", "E", "F", "V", "K", "N", "Result2", "lower_case", "SHOUT", "Mixed_Case9", "_Under", "X1", "Größe"]

def accept():
    w = {}
    w["scalar fields"] = USE + struct("S1", ", ".join("f%d: %s" % (i, t) for i, t in enumerate(SCALARS))) + MAIN
    w["optional scalar fields"] = USE + struct("S1", ", ".join("f%d: Option<%s>" % (i, t) for i, t in enumerate(SCALARS))) + MAIN
    w["vector fields"] = USE + struct("S1", ", ".join("f%d: Vec<%s>" % (i, t) for i, t in enumerate(ELEMS))) + MAIN
    w["optional vector fields"] = USE + struct("S1", ", ".join("f%d: Option<Vec<%s>>" % (i, t) for i, t in enumerate(ELEMS))) + MAIN
    w["nested fields"] = USE + ONE + struct("S1", "a: One, b: Option<One>, c: Vec<Two>, d: Option<Vec<One>>") + enum(variants="S1(S1)") + MAIN
    w["spelled-out Option"] = USE + struct("S1", "a: std::option::Option<f32>, b: ::core::option::Option<Vec<u8>>, c: ::std::vec::Vec<i8>") + MAIN
    w["no fields"] = USE + struct("S1", "") + enum(variants="S1(S1)") + MAIN
    w["attributes"] = USE + ("#[derive(ULogData, Debug, Clone, PartialEq, Default)]\n/// documented\n#[yule_log(subscription_name = \"other {} \\\"name\\\"\", multi_id = 255)]\n#[allow(dead_code)]\n"
        "pub struct S1 {\n    /// documented\n    #[yule_log(field_name = \"a[0]\")]\n    pub x: f32,\n    #[allow(unused)]\n    #[yule_log(field_name = \"\")]\n    y: Option<bool>,\n}\n") + enum(variants="S1(S1)") + MAIN
    w["attributes of a variant"] = USE + ONE + "#[derive(ULogMessages, Debug)]\n#[allow(clippy::all)]\npub enum Messages {\n    /// documented\n    One(One),\n    #[allow(dead_code)]\n    #[yule_log(forward_other)]\n    /// documented\n    Rest(UlogMessage),\n}\n".replace(", Debug", "") + drive() + MAIN
    w["private types"] = USE + struct("S1", vis="") + enum(variants="S1(S1)", other="Other", vis="") + drive() + MAIN
    w["crate-visible types"] = USE + "mod m { use super::*;\n" + struct("S1", "pub(crate) x: f32", vis="pub(crate) ") + enum(variants="S1(S1)", vis="pub(crate) ") + "}\nfn _f(r: &[u8]) { let _ = m::Messages::stream(r); }\n" + MAIN
    w["types of other modules"] = USE + "mod m { pub mod n { use super::super::*;\n" + ONE + "} }\n" + enum(variants="One(m::n::One), Two(crate::m::n::Two)", other="Other") + drive() + MAIN
    w["enum in a function"] = USE + "fn _f(r: &[u8]) {\n" + ONE + enum(other="Other") + "let _ = Messages::stream(r);\n}\n" + MAIN
    w["interface of the enum"] = USE + ONE + enum() + drive() + MAIN
    w["interface of the enum with a catch-all"] = USE + ONE + enum(other="Other") + drive() + MAIN
    w["catch-all first"] = USE + ONE + enum(variants="#[yule_log(forward_other)] Rest(UlogMessage), One(One)") + drive() + MAIN
    w["catch-all between"] = USE + ONE + enum(variants="One(One), #[yule_log(forward_other)] Rest(yule_log::model::msg::UlogMessage), Two(Two)") + drive() + MAIN
    w["catch-all alone"] = USE + enum(variants="#[yule_log(forward_other)] Rest(UlogMessage)") + drive() + MAIN
    w["forward_other = false"] = USE + ONE + enum(variants="#[yule_log(forward_other = false)] One(One), #[yule_log(forward_other = true)] Rest(UlogMessage)") + drive() + MAIN
    w["one struct in two variants"] = USE + ONE + enum(variants="First(One), Second(One)") + drive() + MAIN
    w["instances of one subscription"] = USE + "".join(struct("E%d" % i, attrs="#[yule_log(subscription_name = \"esc\", multi_id = %d)]\n" % i) for i in range(3)) + enum(variants="A(E0), B(E1), C(E2)") + drive() + MAIN
    w["two enums side by side"] = USE + ONE + enum("First", other="Other") + enum("Second", "One(One)") + drive("First") + MAIN
    w["enum names that extend each other"] = USE + ONE + enum("Log") + enum("LogMessages") + enum("LogBuilder2", other="Other") + MAIN
    w["same names in two modules"] = USE + "".join("mod %s { use super::*;\n%s}\n" % (n, ONE + enum(other="Other")) for n in ("a", "b")) + MAIN
    w["derived by path"] = "#![allow(warnings)]\n#[derive(yule_log::ULogData)]\npub struct S1 { x: f32 }\n#[derive(::yule_log::ULogMessages)]\npub enum M { S1(S1), #[yule_log(forward_other)] O(::yule_log::model::msg::UlogMessage) }\n" + MAIN
    w["local names as fields"] = USE + struct("S1", ", ".join("%s: f32" % n for n in LOCALS)) + enum(variants="S1(S1)") + MAIN
    w["local names as optional fields"] = USE + struct("S1", ", ".join("%s: Option<f32>" % n for n in LOCALS)) + enum(variants="S1(S1)") + MAIN
    w["keywords as fields"] = USE + struct("S1", ", ".join("r#%s: %s" % (n, "f32" if i % 2 else "Option<Vec<u8>>") for i, n in enumerate(KEYWORDS))) + enum(variants="S1(S1)") + MAIN
    w["keywords as variants"] = USE + ONE + enum(variants=", ".join("r#%s(One)" % n for n in KEYWORDS[:12]), other="r#final") + drive() + MAIN
    w["keyword as struct"] = USE + struct("r#type") + enum(variants="Type(r#type)") + drive() + MAIN
    w["keyword as enum"] = USE + ONE + enum("r#match", other="r#else") + drive("r#match") + MAIN
    w["field names of the format"] = USE + struct("S1", "_padding0: Option<u8>, x_1: f32, x__2: f32, _x: f32, x9: f32, UPPER: f32, größe: f32") + MAIN
    for n in TYPES:
        w["struct named " + n] = USE.replace("use yule_log::model::CChar;\n", "") + struct(n, "x: f32, y: Option<Vec<u8>>") + enum("Messages", "Mapped(%s)" % n, other="Rest") + drive() + MAIN
        w["enum named " + n] = USE.replace("use yule_log::model::CChar;\n", "") + ONE + enum(n, other="Rest") + drive(n) + MAIN
    w["variants named after types"] = USE + ONE + enum(variants=", ".join("%s(One)" % n for n in TYPES if n != "Other"), other="Other") + drive() + MAIN
    w["catch-all of any name"] = USE + "".join("mod m%d { use super::*;\n%s}\n" % (i, ONE + enum(other=n)) for i, n in enumerate(TYPES + ["UlogMessage", "Some2", "Rest"])) + MAIN
    w["variants named after the prelude"] = USE + ONE + enum(variants="Ok(One), Err(Two), Some(One), None(Two), Vec(One), Result(One), Option(Two), String(One), Iterator(Two), Into(One)", other="Default") + drive() + MAIN
    w["struct declared by a macro"] = USE + ONE + "macro_rules! decl { ($n:ident, $($f:ident: $t:ty),*) => { #[derive(ULogData)] pub struct $n { $($f: $t),* } } }\ndecl!(S1, a: f32, b: Option<f32>, c: Vec<u8>, d: Option<Vec<One>>, e: One);\n" + enum(variants="S1(S1)") + MAIN
    w["enum declared by a macro"] = USE + ONE + "macro_rules! decl { ($n:ident, $($v:ident($t:ty)),*; $o:ident) => { #[derive(ULogMessages)] pub enum $n { $($v($t),)* #[yule_log(forward_other)] $o(UlogMessage) } } }\ndecl!(Messages, One(One), Two(Two); Rest);\n" + drive() + MAIN
    names = ["Esc", "ESC", "E_sc", "eSC", "Esc_", "_Esc"]
    w["names that differ little"] = USE + "".join(struct(n, "x: f32, X: f32, x_: f32, _x: Option<f32>") for n in names) + enum("Log", ", ".join("%s(%s)" % (n, n) for n in names), other="esc_other") + enum("LOG", "A(Esc)") + enum("log", "A(ESC)") + drive("Log") + MAIN
    w["types by other paths"] = USE + ONE + "type Alias = One;\ntype Num = f32;\ntrait Tr { type T; }\nimpl Tr for u8 { type T = Two; }\n" + struct("S1", "x: Num, y: Option<Num>, z: Alias, w: (f32), v: <u8 as Tr>::T") + enum(variants="A(Alias), B(self::Two), C(<u8 as Tr>::T), D((S1)), E(self::S1)", other="Other") + drive() + MAIN
    w["enum of edition 2018"] = USE + ONE + enum(other="Other") + drive() + MAIN
    w["enum of edition 2024"] = USE + ONE + struct("S1", "r#gen: f32") + enum(variants="One(One), S1(S1)", other="Other") + drive() + MAIN
    return w

def reject():
    w = {}
    S = lambda s: USE + "#[derive(ULogData)]\n" + s + MAIN
    w["struct with a type parameter"] = S("pub struct S1<T> { x: T }\n")
    w["struct with a defaulted type parameter"] = S("pub struct S1<T = f32> { x: f32, y: Option<T> }\n")
    w["struct with an unused defaulted parameter"] = S("pub struct S1<T = f32> { x: f32, #[cfg(any())] y: T }\n")
    w["struct with a constant parameter"] = S("pub struct S1<const N: usize> { x: f32 }\n")
    w["struct with a defaulted constant parameter"] = S("pub struct S1<const N: usize = 3> { x: f32 }\n")
    w["struct with a lifetime"] = S("pub struct S1<'a> { x: &'a str }\n")
    w["struct with a where clause"] = S("pub struct S1 where u32: Copy { x: f32 }\n")
    w["tuple struct"] = S("pub struct S1(f32);\n")
    w["tuple struct of two"] = S("pub struct S1(f32, Option<u8>);\n")
    w["tuple struct with a named attribute"] = S("pub struct S1(#[yule_log(field_name = \"x\")] f32);\n")
    w["enum as data"] = S("pub enum S1 { A { x: f32 } }\n")
    w["enum of a struct as data"] = USE + ONE + "#[derive(ULogData)]\npub enum S1 { A(One) }\n" + MAIN
    w["enum without fields as data"] = S("pub enum S1 { A, B }\n")
    w["empty enum as data"] = S("pub enum S1 {}\n")
    w["union as data"] = S("pub union S1 { x: f32, y: u32 }\n")
    w["unsupported field"] = S("pub struct S1 { x: std::time::Duration }\n")
    w["instance beyond 255"] = S("#[yule_log(multi_id = 256)]\npub struct S1 { x: f32 }\n")
    N = lambda s: USE + ONE + "#[derive(ULogMessages)]\n" + s + MAIN
    w["struct as messages"] = N("pub struct M { a: One }\n")
    w["tuple struct as messages"] = N("pub struct M(One);\n")
    w["unit struct as messages"] = N("pub struct M;\n")
    w["union as messages"] = N("pub union M { a: u8 }\n")
    w["enum with a type parameter"] = N("pub enum M<T> { A(One), B(T) }\n")
    w["enum with a defaulted type parameter"] = N("pub enum M<T = Two> { A(One), #[cfg(any())] B(T) }\n")
    w["enum with a constant parameter"] = N("pub enum M<const N: usize> { A(One) }\n")
    w["enum with a defaulted constant parameter"] = N("pub enum M<const N: usize = 3> { A(One) }\n")
    w["enum with a lifetime"] = N("pub enum M<'a> { A(One) }\n")
    w["enum with a where clause"] = N("pub enum M where u32: Copy { A(One) }\n")
    w["variant of two structs"] = N("pub enum M { A(One, Two) }\n")
    w["last variant of two structs"] = N("pub enum M { A(One), B(One, Two) }\n")
    w["catch-all of two values"] = N("pub enum M { A(One), #[yule_log(forward_other)] B(UlogMessage, UlogMessage) }\n")
    w["variant without a value"] = N("pub enum M { A(One), B() }\n")
    w["unit variant"] = N("pub enum M { A(One), B }\n")
    w["unit variants only"] = N("pub enum M { A, B }\n")
    w["unit catch-all"] = N("pub enum M { A(One), #[yule_log(forward_other)] B }\n")
    w["variant with named fields"] = N("pub enum M { A(One), B { x: Two, y: One } }\n")
    w["variant with one named field"] = N("pub enum M { A(One), B { x: Two } }\n")
    w["variant with a reference"] = N("pub enum M { A(&'static One) }\n")
    w["variant with a tuple"] = N("pub enum M { A((One, Two)) }\n")
    w["variant with an array"] = N("pub enum M { A([One; 2]) }\n")
    w["variant with a scalar"] = N("pub enum M { A(One), B(f32) }\n")
    w["variant with a struct that is not derived"] = N("pub enum M { A(One), B(Plain) }\npub struct Plain { x: f32 }\n")
    w["two catch-alls"] = N("pub enum M { A(One), #[yule_log(forward_other)] B(UlogMessage), #[yule_log(forward_other)] C(UlogMessage) }\n")
    w["two catch-alls, the first with a mapped struct"] = N("pub enum M { #[yule_log(forward_other)] A(One), #[yule_log(forward_other)] B(UlogMessage) }\n")
    w["two catch-alls, the last with a mapped struct"] = N("pub enum M { #[yule_log(forward_other)] B(UlogMessage), #[yule_log(forward_other)] A(One) }\n")
    w["two catch-alls after a mapped variant"] = N("pub enum M { C(Two), #[yule_log(forward_other)] A(One), #[yule_log(forward_other)] B(UlogMessage) }\n")
    w["catch-alls first and last"] = N("pub enum M { #[yule_log(forward_other)] B(UlogMessage), A(One), #[yule_log(forward_other)] C(UlogMessage) }\n")
    w["two catch-alls alone"] = N("pub enum M { #[yule_log(forward_other)] B(UlogMessage), #[yule_log(forward_other)] C(UlogMessage) }\n")
    w["three catch-alls"] = N("pub enum M { #[yule_log(forward_other)] B(UlogMessage), #[yule_log(forward_other)] C(UlogMessage), #[yule_log(forward_other)] D(UlogMessage) }\n")
    w["catch-all of another type"] = N("pub enum M { A(One), #[yule_log(forward_other)] B(f32) }\n")
    return w

def bin_name(n):
    return "w_" + "".join(ch if ch.isalnum() and ord(ch) < 128 else "_" for ch in n) + "_" + hashlib.sha256(n.encode()).hexdigest()[:6]

def compile_all():
    """{name: (accepted, first errors)} for every witness, from one cargo run"""
    acc, rej = accept(), reject()
    srcs = {n: s for n, s in list(acc.items()) + list(rej.items())}
    assert len(srcs) == len(acc) + len(rej)
    dump.lock()
    try:
        h = dump.tree_hash() + "-" + hashlib.sha256(json.dumps(srcs, sort_keys=True).encode()).hexdigest()[:12]
        outdir = os.path.join(dump.BUILD, "dumps")
        os.makedirs(outdir, exist_ok=True)
        final = os.path.join(outdir, "witness-%s.json" % h)
        if not os.path.exists(final):
            for old in glob.glob(os.path.join(outdir, "witness-*.json")):
                os.remove(old)
            d = os.path.join(dump.BUILD, "fx-wit")
            os.makedirs(os.path.join(d, "src"), exist_ok=True)
            for f in glob.glob(os.path.join(d, "src", "*.rs")):
                os.remove(f)
            m = '[package]\nname = "yule_witness"\nversion = "0.0.0"\nedition = "2021"\npublish = false\nautobins = false\n\n[dependencies]\nyule_log = { path = "%s", features = ["macros"] }\n\n[workspace]\n' % os.path.join(dump.REPO, "core")
            for n in sorted(srcs):
                b = bin_name(n)
                fixtures.write(os.path.join(d, "src", b + ".rs"), srcs[n])
                m += '\n[[bin]]\nname = "%s"\npath = "src/%s.rs"\ntest = false\n' % (b, b)
                if "of edition" in n:
                    m += 'edition = "%s"\n' % n[-4:]
            fixtures.write(os.path.join(d, "Cargo.toml"), m)
            lk, src = os.path.join(d, "Cargo.lock"), os.path.join(dump.REPO, "Cargo.lock")
            if not os.path.exists(lk) and os.path.exists(src):
                import shutil
                shutil.copy(src, lk)
            tgt = os.path.join(dump.BUILD, "target-wit")
            import shutil
            for fp in glob.glob(os.path.join(tgt, "debug", ".fingerprint", "yule*")):
                shutil.rmtree(fp, ignore_errors=True)
            env = dict(os.environ, CARGO_TARGET_DIR=tgt, CARGO_INCREMENTAL="0")
            for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER"):
                env.pop(k, None)
            p = subprocess.run(["cargo", "check", "--offline", "--bins", "--keep-going", "--message-format=json"], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            ok, errs, lib = set(), {}, False
            for line in p.stdout.splitlines():
                try:
                    j = json.loads(line)
                except ValueError:
                    continue
                t = j.get("target", {}).get("name")
                if j.get("reason") == "compiler-artifact":
                    if t == "yule_log":
                        lib = True
                    ok.add(t)
                elif j.get("reason") == "compiler-message" and j["message"]["level"].startswith("error"):
                    errs.setdefault(t, []).append(j["message"]["message"])
            if not lib:
                raise dump.AnalysisError("the library does not build for the witnesses (rc %d):\n%s" % (p.returncode, p.stderr[-3000:]))
            res = {}
            for n in srcs:
                b = bin_name(n)
                res[n] = [True if b in ok else (False if errs.get(b) else None), errs.get(b, [])[:4]]
            with open(final + ".tmp", "w") as f:
                json.dump(res, f)
            os.rename(final + ".tmp", final)
        with open(final) as f:
            return acc, rej, json.load(f)
    finally:
        dump.unlock()

def c29(P, pid, tier, t0):
    c = ck.Col()
    try:
        acc, rej, res = compile_all()
    except dump.AnalysisError as e:
        print("the analysis build failed:\n" + str(e))
        return 2
    for n in acc:
        good, errs = res[n]
        c.count("programs to accept")
        c.ob(good, "accepted: " + n, "the derive macros reject the program '%s' (build/fx-wit/src/%s.rs): %s" % (n, bin_name(n), "; ".join(errs)[:300]), sample="compiles: " + n)
    for n in rej:
        good, errs = res[n]
        c.count("programs to reject")
        c.ob(None if good is None else not good, "rejected: " + n, "the derive macros accept the program '%s' (build/fx-wit/src/%s.rs)" % (n, bin_name(n)), sample="rejected: %s (%s)" % (n, "; ".join(errs)[:120]))
    c.floor("programs to accept", 100, "the supported shapes under many names")
    c.floor("programs to reject", 40, "the unsupported shapes")
    return ck.report(pid, c, tier, t0, RULE)

RULE = ("each witness program is compiled (type-checked, never run) against the current macros and library: a program of supported shapes under arbitrary names must be accepted by the compiler, "
        "a program of an unsupported shape must not")
