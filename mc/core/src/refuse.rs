//! C49: derive(PointType) refuses every type that has no point layout. The macro runs inside the compiler, so an
//! execution is the expansion of one program; all programs of a set are compiled together, one per line.
use fw::*;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::process::Command;

const HEAD: &str = "use pasture_core::nalgebra::{Matrix3, Point3, Vector2, Vector3, Vector4}; use pasture_derive::PointType; use std::{marker::PhantomData, num::{NonZeroU8, Wrapping}}; \
#[derive(PointType, Copy, Clone, bytemuck::NoUninit, bytemuck::AnyBitPattern)] #[repr(C)] pub struct Inner { #[pasture(attribute = \"In\")] a: u8 }\n";

/// A program: a type definition that follows `#[derive(PointType)]`, and its name.
#[derive(Clone)]
struct Prog {
    item: String,
    what: String,
}

/// Compiles the programs, one per line of a library; returns the errors by program. Err: no verdict on any program.
fn compile(set: &str, progs: &[&Prog], o: &mut Obs) -> R<BTreeMap<usize, String>> {
    let here = Path::new(env!("CARGO_MANIFEST_DIR"));
    let dir = here.join("../../target/derive_programs");
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let file = dir.canonicalize().map_err(|e| e.to_string())?.join(format!("{set}.rs"));
    let mut text = HEAD.to_string();
    for (i, p) in progs.iter().enumerate() {
        o.state(&p.item);
        let (generics, name) = match p.item.split_once("T<") {
            Some((_, g)) => (format!("<{}>", g.split_once('>').unwrap().0), format!("T<{}>", g.split_once('>').unwrap().0.replace("const ", "").replace(": usize", ""))),
            None => (String::new(), "T".to_string()),
        };
        let drop_bounds = generics.replace('>', "").replace('<', "");
        let g = if drop_bounds == "T0" { "<T0: 'static + Copy>".to_string() } else { generics };
        text += &format!(
            "mod m{i} {{ #![allow(unused)] use super::*; #[derive(Clone, Copy, PointType)] {} unsafe impl{g} bytemuck::NoUninit for {name} where {name}: 'static {{}} unsafe impl{g} bytemuck::Zeroable for {name} {{}} unsafe impl{g} bytemuck::AnyBitPattern for {name} where {name}: 'static {{}} }}\n",
            p.item
        );
    }
    std::fs::write(&file, text).map_err(|e| e.to_string())?;
    let out = Command::new("cargo")
        .args(["build", "--offline", "--locked", "--quiet", "--example", "derive_programs", "--message-format=json"])
        .env("MC_PROGRAMS", &file)
        .env_remove("RUSTFLAGS")
        .current_dir(here)
        .output()
        .map_err(|e| format!("cannot start the compiler: {e}"))?;
    let mut errs = BTreeMap::new();
    let mut other = String::new();
    for line in String::from_utf8_lossy(&out.stdout).lines() {
        let Ok(j) = serde_json::from_str::<serde_json::Value>(line) else { continue };
        let m = &j["message"];
        if j["reason"] != "compiler-message" || m["level"] != "error" {
            continue;
        }
        let msg = m["message"].as_str().unwrap_or("?").to_string();
        match m["spans"].as_array().and_then(|s| s.iter().find_map(|s| line_in(s, &file))) {
            Some(l) if l >= 2 => drop(errs.entry(l - 2).or_insert(msg)),
            _ => other += &format!("{msg}; "),
        }
    }
    if !out.status.success() && errs.is_empty() {
        return Err(format!("the compiler failed without naming a program: {other} {}", String::from_utf8_lossy(&out.stderr).chars().take(1500).collect::<String>()));
    }
    if out.status.success() {
        errs.clear();
    }
    Ok(errs)
}

/// The line of a span in the file with the programs, looking through macro expansions.
fn line_in(span: &serde_json::Value, file: &Path) -> Option<usize> {
    if span["file_name"].as_str().is_some_and(|f| Path::new(f).file_name() == file.file_name()) {
        return span["line_start"].as_u64().map(|l| l as usize);
    }
    let e = &span["expansion"]["span"];
    if e.is_object() {
        line_in(e, file)
    } else {
        None
    }
}

const ATTR: [&str; 3] = ["#[pasture(BUILTIN_INTENSITY)]", "#[pasture(attribute = \"Second\")]", "#[pasture(BUILTIN_USER_DATA)]"];
const TYPE: [&str; 3] = ["u16", "Vector3<f32>", "u8"];
const REPR: [&str; 4] = ["#[repr(C)]", "#[repr(C, packed)]", "#[repr(packed)]", "#[repr(C, align(16))]"];

fn item(repr: &str, kind: &str, generics: &str, fields: &[(String, String)], tuple: bool) -> String {
    let f: Vec<_> = fields.iter().enumerate().map(|(i, (a, t))| if tuple { format!("{a} pub {t}") } else { format!("{a} pub f{i}: {t}") }).collect();
    if tuple {
        format!("{repr} pub {kind} T{generics}({});", f.join(", "))
    } else {
        format!("{repr} pub {kind} T{generics} {{ {} }}", f.join(", "))
    }
}
fn legal(n: usize) -> Vec<(String, String)> {
    (0..n).map(|i| (ATTR[i].to_string(), TYPE[i].to_string())).collect()
}

/// One illegal part at every place of an otherwise legal struct
fn placed(thorough: bool, what: &str, change: impl Fn(&mut (String, String)), out: &mut Vec<Prog>) {
    for repr in if thorough { &REPR[..] } else { &REPR[..2] } {
        for tuple in [false, true] {
            for n in 1..=3 {
                for at in 0..n {
                    let mut f = legal(n);
                    change(&mut f[at]);
                    out.push(Prog { item: item(repr, "struct", "", &f, tuple), what: format!("{what} in field {at} of {n}") });
                }
            }
        }
    }
}

fn types(t: bool) -> Vec<Prog> {
    let mut v = vec![];
    for ty in [
        "bool", "char", "usize", "isize", "u128", "i128", "()", "[f64; 1]", "[u16; 2]", "[Vector3<u8>; 1]", "(u8,)", "(f32, f32)", "&'static u8", "*const u8", "fn()", "Option<u8>", "Vector3<i8>",
        "Vector3<i16>", "Vector3<u32>", "Vector3<u64>", "Vector3<i64>", "Vector3<bool>", "Vector3<usize>", "Vector4<i8>", "Vector4<u16>", "Vector4<i16>", "Vector4<u32>", "Vector4<i32>",
        "Vector4<f32>", "Vector4<f64>", "Vector2<u8>", "Vector2<f32>", "Vector2<f64>", "Point3<f64>", "Point3<u16>", "Matrix3<f32>", "Wrapping<u8>", "Wrapping<u16>", "PhantomData<u8>", "NonZeroU8", "Inner",
    ] {
        placed(t, &format!("type {ty}"), |f| f.1 = ty.into(), &mut v);
    }
    v
}
fn attrs(t: bool) -> Vec<Prog> {
    let mut v = vec![];
    for a in [
        "",
        "#[allow(unused)]",
        "#[pasture(BUILTIN_NIR)] #[pasture(BUILTIN_NORMAL)]",
        "#[pasture(BUILTIN_NIR)] #[pasture(BUILTIN_NIR)]",
        "#[pasture(attribute = \"A\")] #[pasture(attribute = \"B\")]",
        "#[pasture(BUILTIN_NIR)] #[pasture(attribute = \"B\")]",
        "#[pasture]",
        "#[pasture()]",
        "#[pasture = \"X\"]",
        "#[pasture(\"X\")]",
        "#[pasture(attribute)]",
        "#[pasture(attribute = 3)]",
        "#[pasture(attribute = true)]",
        "#[pasture(attribute = 'X')]",
        "#[pasture(attribute = b\"X\")]",
        "#[pasture(attribute(\"X\"))]",
        "#[pasture(name = \"X\")]",
        "#[pasture(Attribute = \"X\")]",
        "#[pasture(attribute_name = \"X\")]",
        "#[pasture(a::attribute = \"X\")]",
        "#[pasture(BUILTIN_UNKNOWN)]",
        "#[pasture(BUILTIN_)]",
        "#[pasture(BUILTIN_COLOR)]",
        "#[pasture(BUILTIN_POSITION)]",
        "#[pasture(BUILTIN_NIRS)]",
        "#[pasture(builtin_nir)]",
        "#[pasture(NIR)]",
        "#[pasture(Nir)]",
        "#[pasture(BUILTIN_NIR())]",
        "#[pasture(BUILTIN_NIR = \"NIR\")]",
        "#[pasture(a::BUILTIN_NIR)]",
    ] {
        placed(t, &format!("attribute '{a}'"), |f| f.0 = a.into(), &mut v);
    }
    v
}
fn items(_: bool) -> Vec<Prog> {
    let mut v = vec![];
    let mut add = |item: String, what: String| v.push(Prog { item, what });
    for n in 1..=3 {
        for tuple in [false, true] {
            for r in ["", "#[repr(Rust)]", "#[repr(align(8))]", "#[repr(align(1))]", "#[allow(unused)]", "#[repr(align(16))] #[repr(align(2))]"] {
                add(item(r, "struct", "", &legal(n), tuple), format!("representation '{r}', {n} fields"));
            }
            for r in REPR {
                add(item(r, "struct", "<const N: usize>", &legal(n), tuple), format!("const parameter, {n} fields"));
                let mut f = legal(n);
                f[n - 1].1 = "T0".into();
                add(item(r, "struct", "<T0>", &f, tuple), format!("type parameter, {n} fields"));
                let mut f = legal(n);
                f[n - 1].1 = "Vector3<T0>".into();
                add(item(r, "struct", "<T0>", &f, tuple), format!("type parameter in a vector, {n} fields"));
                let mut f = legal(n);
                f[0].1 = "&'a u8".into();
                add(item(r, "struct", "<'a>", &f, tuple), format!("lifetime parameter, {n} fields"));
            }
        }
        add(item("#[repr(C)]", "union", "", &legal(n), false), format!("union of {n} fields"));
        add(item("#[repr(C, packed)]", "union", "", &legal(n), false), format!("packed union of {n} fields"));
        for r in ["", "#[repr(u8)]", "#[repr(C)]", "#[repr(C, u8)]"] {
            let names: Vec<_> = (0..n).map(|i| format!("V{i}")).collect();
            add(format!("{r} pub enum T {{ {} }}", names.join(", ")), format!("enum of {n} variants, '{r}'"));
            let with: Vec<_> = (0..n).map(|i| format!("V{i}({} {})", ATTR[i], TYPE[i])).collect();
            add(format!("{r} pub enum T {{ {} }}", with.join(", ")), format!("enum of {n} variants with data, '{r}'"));
        }
    }
    v
}
/// The legal programs that the illegal ones differ from in one part
fn accepted(t: bool) -> Vec<Prog> {
    let mut v = vec![];
    placed(t, "legal", |_| (), &mut v);
    for ty in [
        "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "f32", "f64", "Vector3<u8>", "Vector3<u16>", "Vector3<f32>", "Vector3<i32>", "Vector3<f64>", "Vector4<u8>",
    ] {
        placed(t, &format!("type {ty}"), |f| f.1 = ty.into(), &mut v);
    }
    for a in ["#[pasture(BUILTIN_NIR)]", "#[pasture(attribute = \"BUILTIN_NIR\")]", "#[pasture(attribute = \"\\u{e9} \\\"x\\\"\")]", "#[pasture(attribute = r\"raw\")]"] {
        placed(t, &format!("attribute '{a}'"), |f| f.0 = a.into(), &mut v);
    }
    v
}

fn judge(name: &'static str, progs: fn(bool) -> Vec<Prog>, refused: bool) -> Shard {
    shard(name, move |cx| {
        let (mut v, mut seen) = (progs(cx.thorough), BTreeSet::new());
        v.retain(|p| seen.insert(p.item.clone()));
        // Programs that are not refused while others are may still be refused in a later phase of the compiler
        let mut left: Vec<usize> = (0..v.len()).collect();
        let mut errs: BTreeMap<usize, String> = BTreeMap::new();
        let mut broken = None;
        for round in 0..4 {
            let set: Vec<&Prog> = left.iter().map(|&i| &v[i]).collect();
            match compile(&format!("{}_{round}", name.replace(' ', "_")), &set, &mut cx.obs) {
                Err(e) => {
                    broken = Some(e);
                    break;
                }
                Ok(e) if e.is_empty() => break,
                Ok(e) => errs.extend(e.into_iter().map(|(k, m)| (left[k], m))),
            }
            left.retain(|i| !errs.contains_key(i));
            if !refused || left.is_empty() {
                break;
            }
        }
        for (i, p) in v.iter().enumerate() {
            let (e, broken) = (errs.get(&i), &broken);
            cx.case(
                || format!("#[derive(PointType)] {}", p.item),
                |o| {
                    o.step();
                    if let Some(b) = broken {
                        return Err(b.clone());
                    }
                    match (refused, e) {
                        (true, None) => Err(format!("a struct without a describable layout is accepted: {}", p.what)),
                        (false, Some(e)) => Err(format!("a legal struct is refused ({}): {e}", p.what)),
                        _ => Ok(()),
                    }
                },
            );
        }
    })
}

macro_rules! duplicates {
    ($($r:ident $(($p:literal))?: $([$($a:tt)*])*;)*) => {
        vec![$({
            #[derive(pasture_derive::PointType, Clone, Copy)]
            #[repr(C, $r $(($p))?)]
            #[allow(unused)]
            struct T($(#[pasture($($a)*)] u8),*);
            unsafe impl bytemuck::NoUninit for T {}
            unsafe impl bytemuck::Zeroable for T {}
            unsafe impl bytemuck::AnyBitPattern for T {}
            (stringify!($r $([$($a)*])*), <T as pasture_core::layout::PointType>::layout as fn() -> pasture_core::layout::PointLayout)
        }),*]
    };
}
/// Structs whose fields share a name compile, but have no layout
fn duplicate_names(cx: &mut Cx) {
    let v = duplicates! {
        packed: [BUILTIN_NIR] [BUILTIN_NIR];
        packed: [attribute = "A"] [attribute = "A"];
        packed: [attribute = "NIR"] [BUILTIN_NIR];
        packed: [BUILTIN_POINT_SOURCE_ID] [attribute = "PointSourceID"];
        packed: [attribute = "A"] [attribute = "B"] [attribute = "A"];
        packed: [attribute = "A"] [attribute = "A"] [attribute = "B"];
        packed: [attribute = "B"] [attribute = "A"] [attribute = "A"];
        packed: [BUILTIN_NIR] [attribute = "B"] [BUILTIN_NIR] [attribute = "C"];
        packed: [attribute = "C"] [BUILTIN_NIR] [attribute = "B"] [BUILTIN_NIR];
        packed: [BUILTIN_NIR] [attribute = "C"] [attribute = "B"] [attribute = "NIR"];
        packed: [attribute = "A"] [attribute = "A"] [attribute = "A"];
        packed: [attribute = ""] [attribute = "A"] [attribute = ""];
        align(8): [BUILTIN_NIR] [BUILTIN_NIR];
        align(8): [attribute = "A"] [attribute = "B"] [attribute = "A"];
        align(8): [BUILTIN_NIR] [attribute = "C"] [attribute = "B"] [attribute = "NIR"];
    };
    for (what, layout) in v {
        cx.case(
            || what.to_string(),
            |o| {
                o.step();
                o.state(&what);
                must_panic(|| "layout with two attributes of one name".into(), layout)
            },
        );
    }
}

pub fn c49(_t: bool) -> Vec<Shard> {
    vec![
        judge("legal structs", accepted, false),
        judge("illegal field types", types, true),
        judge("illegal field attributes", attrs, true),
        judge("illegal items", items, true),
        shard("duplicate names", duplicate_names),
    ]
}
