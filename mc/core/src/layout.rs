//! C13: layouts follow repr(C) / repr(packed(N)). C14: layout invariants under growth, and lookups.
//! C16: serialization of layouts.
use crate::conv::size;
use crate::lay::cust;
use fw::*;
use pasture_core::layout::*;
use std::ops::Range;

type D = PointAttributeDataType;

const NAMES: [&str; 6] = ["A", "B", "C", "D", "E", "F"];

pub fn align(d: D) -> u64 {
    match d {
        D::U8 | D::I8 | D::Vec3u8 | D::Vec4u8 | D::ByteArray(_) => 1,
        D::U16 | D::I16 | D::Vec3u16 => 2,
        D::U32 | D::I32 | D::F32 | D::Vec3f32 | D::Vec3i32 => 4,
        D::U64 | D::I64 | D::F64 | D::Vec3f64 => 8,
        D::Custom { min_alignment, .. } => min_alignment,
    }
}
pub fn sz(d: D) -> u64 {
    match d {
        D::ByteArray(n) => n,
        D::Custom { size, .. } => size,
        d => size(d) as u64,
    }
}
fn custom(size: u64, min_alignment: u64) -> D {
    D::Custom { size, min_alignment, name: uuid::Uuid::from_u128(size as u128 * 16 + min_alignment as u128) }
}
pub fn alphabet() -> Vec<D> {
    let mut v = crate::conv::all_types();
    v.extend([D::ByteArray(1), D::ByteArray(3), D::ByteArray(5), custom(16, 16), custom(5, 1), custom(12, 4), custom(6, 2)]);
    v
}
fn up(x: u64, a: u64) -> u64 {
    let mut x = x;
    while x % a != 0 {
        x += 1;
    }
    x
}
/// The layout rules of the Rust reference for repr(C) (`max == None`) and repr(packed(max)).
fn oracle(ds: &[D], max: Option<u64>) -> (Vec<u64>, u64, u64) {
    let (mut at, mut al) = (0, 1);
    let mut offs = vec![];
    for d in ds {
        let a = align(*d).min(max.unwrap_or(u64::MAX));
        at = up(at, a);
        offs.push(at);
        at += sz(*d);
        al = al.max(a);
    }
    (offs, up(at, al), al)
}
fn matches(l: &PointLayout, ds: &[D], max: Option<u64>) -> R {
    let (offs, size, al) = oracle(ds, max);
    ensure_eq!(l.attributes().map(|a| (a.name().to_string(), a.datatype(), a.size())).collect::<Vec<_>>(), ds.iter().enumerate().map(|(i, d)| (NAMES[i].to_string(), *d, sz(*d))).collect::<Vec<_>>(), "attributes");
    ensure_eq!(l.attributes().map(|a| a.offset()).collect::<Vec<_>>(), offs, "offsets");
    ensure_eq!(l.size_of_point_entry(), size, "size of a point");
    let m: Vec<_> = ds.iter().enumerate().map(|(i, d)| cust(NAMES[i], *d).at_offset_in_type(offs[i])).collect();
    ensure!(*l == PointLayout::from_members_and_alignment(&m, al), "the alignment is not {al}");
    Ok(())
}

fn seqs(alpha: &[D], n: usize) -> Vec<Vec<D>> {
    let mut v: Vec<Vec<D>> = vec![vec![]];
    for _ in 0..n {
        v = v.into_iter().flat_map(|s| alpha.iter().map(move |d| { let mut s = s.clone(); s.push(*d); s })).collect();
    }
    v
}

fn c13_seq(cx: &mut Cx, ds: &[D]) {
    let defs: Vec<_> = ds.iter().enumerate().map(|(i, d)| cust(NAMES[i], *d)).collect();
    cx.case(
        || format!("repr(C) layout of {ds:?}"),
        |o| {
            o.steps(2 + ds.len() as u64);
            o.state(&ds);
            matches(&PointLayout::from_attributes(&defs), ds, None)?;
            matches(&defs.iter().cloned().collect(), ds, None)?;
            let mut l = PointLayout::default();
            for (k, d) in defs.iter().enumerate() {
                l.add_attribute(d.clone(), FieldAlignment::Default);
                matches(&l, &ds[..k + 1], None).map_err(|e| format!("after adding {}: {e}", k + 1))?;
            }
            Ok(())
        },
    );
    for p in [1, 2, 4, 8, 16] {
        cx.case(
            || format!("repr(packed({p})) layout of {ds:?}"),
            |o| {
                o.steps(1 + ds.len() as u64);
                o.state(&(ds, p));
                matches(&PointLayout::from_attributes_packed(&defs, p), ds, Some(p))?;
                let mut l = PointLayout::default();
                for (k, d) in defs.iter().enumerate() {
                    l.add_attribute(d.clone(), FieldAlignment::Packed(p));
                    matches(&l, &ds[..k + 1], Some(p)).map_err(|e| format!("after adding {}: {e}", k + 1))?;
                }
                Ok(())
            },
        );
    }
}

/// Two names are the same exactly if all of their characters are.
fn names(cx: &mut Cx) {
    let all = ["Name", "name", "NAME", "Name ", " Name", "Na me", "Name\0", "", " ", "N\u{e4}me", "Na\u{308}me", "N\u{c4}me", "Position3D", "position3d", "Position3d", "Name1", "Name01"];
    for (i, a) in all.into_iter().enumerate() {
        for (j, b) in all.into_iter().enumerate() {
            for (da, db) in [(D::U8, D::U8), (D::U16, D::F64)] {
                cx.case(
                    || format!("attributes {a:?} ({da}) and {b:?} ({db})"),
                    |o| {
                        o.steps(5);
                        o.state(&(i, j, da, db));
                        let (x, y) = (cust(a, da), cust(b, db));
                        let m = [x.at_offset_in_type(0), y.at_offset_in_type(8)];
                        if i == j {
                            must_panic(|| "from_attributes".into(), || PointLayout::from_attributes(&[x.clone(), y.clone()]))?;
                            must_panic(|| "from_attributes_packed".into(), || PointLayout::from_attributes_packed(&[x.clone(), y.clone()], 1))?;
                            must_panic(|| "from_members".into(), || PointLayout::from_members_and_alignment(&m, 8))?;
                            must_panic(
                                || "add_attribute".into(),
                                || {
                                    let mut l = PointLayout::from_attributes(&[x.clone()]);
                                    l.add_attribute(y.clone(), FieldAlignment::Default)
                                },
                            )?;
                            return Ok(());
                        }
                        let mut add = PointLayout::from_attributes(&[x.clone()]);
                        no_panic(|| "add_attribute".into(), || add.add_attribute(y.clone(), FieldAlignment::Default))?;
                        for (which, l) in [
                            ("from_attributes", no_panic(|| "from_attributes".into(), || PointLayout::from_attributes(&[x.clone(), y.clone()]))?),
                            ("from_attributes_packed", no_panic(|| "from_attributes_packed".into(), || PointLayout::from_attributes_packed(&[x.clone(), y.clone()], 1))?),
                            ("from_members_and_alignment", no_panic(|| "from_members".into(), || PointLayout::from_members_and_alignment(&m, 8))?),
                            ("add_attribute", add),
                        ] {
                            ensure_eq!(l.attributes().map(|a| a.name().to_string()).collect::<Vec<_>>(), vec![a.to_string(), b.to_string()], "{which}: names");
                            for (k, n) in all.into_iter().enumerate() {
                                let want = [i, j].iter().position(|x| *x == k);
                                ensure_eq!(l.has_attribute_with_name(n), want.is_some(), "{which}: has_attribute_with_name({n:?})");
                                ensure_eq!(l.get_attribute_by_name(n).map(|a| a.name().to_string()), want.map(|_| n.to_string()), "{which}: get_attribute_by_name({n:?})");
                                for d in [da, db] {
                                    let want = want.filter(|w| [da, db][*w] == d);
                                    ensure_eq!(l.index_of(&cust(n, d)), want, "{which}: index_of({n:?}, {d})");
                                    ensure_eq!(l.has_attribute(&cust(n, d)), want.is_some(), "{which}: has_attribute({n:?}, {d})");
                                    ensure_eq!(l.get_attribute(&cust(n, d)).is_some(), want.is_some(), "{which}: get_attribute({n:?}, {d})");
                                }
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
    }
}

pub fn c13(thorough: bool) -> Vec<Shard> {
    let mut v = vec![shard("datatypes", |cx| {
        macro_rules! ty {
            ($($t:ty, $d:ident);*) => { $(
                cx.case(|| format!("size and alignment of {}", stringify!($t)), |o| {
                    o.step();
                    o.state(stringify!($t));
                    ensure_eq!(<$t as PrimitiveType>::data_type(), D::$d, "data_type()");
                    ensure_eq!(D::$d.size() as usize, size_of::<$t>(), "size()");
                    ensure_eq!(D::$d.min_alignment() as usize, align_of::<$t>(), "min_alignment()");
                    let a = cust("X", D::$d);
                    ensure_eq!(a.size() as usize, size_of::<$t>(), "size of an attribute");
                    ensure_eq!(a.at_offset_in_type(5).byte_range_within_point(), 5..5 + size_of::<$t>(), "byte range");
                    ensure_eq!(PointAttributeMember::custom("X", D::$d, 5), a.at_offset_in_type(5), "PointAttributeMember::custom");
                    Ok(())
                });
            )* };
        }
        use pasture_core::nalgebra::{Vector3, Vector4};
        ty!(u8, U8; i8, I8; u16, U16; i16, I16; u32, U32; i32, I32; u64, U64; i64, I64; f32, F32; f64, F64;
            Vector3<u8>, Vec3u8; Vector3<u16>, Vec3u16; Vector3<f32>, Vec3f32; Vector3<i32>, Vec3i32; Vector3<f64>, Vec3f64; Vector4<u8>, Vec4u8);
        for d in alphabet() {
            cx.case(|| format!("{d:?}"), |o| {
                o.step();
                ensure_eq!((d.size(), d.min_alignment()), (sz(d), align(d)), "size and alignment of {d:?}");
                Ok(())
            });
        }
        // datatypes of one's own with wide alignments
        for (size, al) in [(64, 32), (64, 64), (3, 64), (256, 256), (4096, 4096), (40, 8), (33, 1), (1, 1 << 20)] {
            for other in [D::U8, D::F64, custom(16, 16), custom(1, 128)] {
                c13_seq(cx, &[custom(size, al), other]);
                c13_seq(cx, &[other, custom(size, al)]);
                c13_seq(cx, &[other, custom(size, al), D::U16]);
            }
        }
        c13_seq(cx, &[]);
    })];
    v.push(shard("names", names));
    // layouts described by their members, listed in any order
    for ds in [vec![D::F64], vec![D::U8, D::F32], vec![D::U16, D::U8, D::U16], vec![D::ByteArray(3), D::U8, D::U8]] {
        let span = if thorough { 12 } else { 8 };
        v.push(shard(format!("members/{ds:?}"), move |cx| c14_members(cx, &ds, span)));
    }
    for d in alphabet() {
        v.push(shard(format!("first/{d:?}"), move |cx| {
            let (a, small) = (alphabet(), [D::U8, D::U16, D::F32, D::I64, D::Vec3u16, D::ByteArray(3), D::Vec3f64, custom(16, 16)]);
            for n in 0..4 {
                for mut s in seqs(if n < 3 { &a } else { &small }, n) {
                    s.insert(0, d);
                    if n == 3 && !thorough && s.iter().filter(|x| align(**x) == 1).count() < 1 {
                        continue;
                    }
                    c13_seq(cx, &s);
                }
            }
            if thorough {
                for mut s in seqs(&small[..6], 5) {
                    s.insert(0, d);
                    c13_seq(cx, &s);
                }
            }
        }));
    }
    v
}

// ---------------------------------------------------------------------------------------------
// C14

/// What every layout must satisfy, whatever sequence of calls built it. `m`: the attributes in the
/// order in which they were added.
fn invariant(l: &PointLayout, m: &[PointAttributeDefinition]) -> R {
    let got: Vec<_> = l.attributes().map(|a| a.attribute_definition().clone()).collect();
    ensure_eq!(got, m, "attributes");
    let mut rs: Vec<Range<u64>> = l.attributes().map(|a| a.offset()..a.offset() + a.size()).collect();
    for a in l.attributes() {
        ensure_eq!(a.size(), sz(a.datatype()), "size of {a}");
        ensure!(a.offset() + a.size() <= l.size_of_point_entry(), "{a} does not fit into a point of {} bytes", l.size_of_point_entry());
    }
    rs.sort_by_key(|r| r.start);
    for w in rs.windows(2) {
        ensure!(w[0].end <= w[1].start, "attributes overlap: {rs:?}");
    }
    for (i, d) in m.iter().enumerate() {
        let x = l.at(i);
        ensure_eq!(x.attribute_definition(), d, "at({i})");
        ensure_eq!((x.name(), x.datatype()), (d.name(), d.datatype()), "at({i})");
        ensure!(l.has_attribute(d), "has_attribute({d})");
        ensure!(l.has_attribute_with_name(d.name()), "has_attribute_with_name({d})");
        ensure_eq!(l.get_attribute(d), Some(x), "get_attribute({d})");
        ensure_eq!(l.get_attribute_by_name(d.name()), Some(x), "get_attribute_by_name({d})");
        ensure_eq!(l.index_of(d), Some(i), "index_of({d})");
        ensure_eq!(l.offset_of(d), Some(x.offset()), "offset_of({d})");
        for other in [D::U8, D::I8, D::Vec3f64, D::ByteArray(7)] {
            let o = d.with_custom_datatype(other);
            ensure_eq!(o.name(), d.name(), "with_custom_datatype keeps the name");
            let same = other == d.datatype();
            ensure_eq!(l.has_attribute(&o), same, "has_attribute({o})");
            ensure_eq!(l.get_attribute(&o).is_some(), same, "get_attribute({o})");
            ensure_eq!(l.index_of(&o).is_some(), same, "index_of({o})");
            ensure_eq!(l.offset_of(&o).is_some(), same, "offset_of({o})");
        }
    }
    for n in ["", "a", "AA", "Z"] {
        let u = cust("Z", D::U8);
        ensure!(!l.has_attribute_with_name(n), "has_attribute_with_name({n:?})");
        ensure!(l.get_attribute_by_name(n).is_none(), "get_attribute_by_name({n:?})");
        ensure!(!l.has_attribute(&u) && l.get_attribute(&u).is_none() && l.index_of(&u).is_none() && l.offset_of(&u).is_none(), "unknown attribute {u}");
    }
    must_panic(|| "at(len)".into(), || l.at(m.len()).size())?;
    Ok(())
}

#[derive(Clone, Debug)]
enum G {
    Add(D, u64),
    /// add an attribute whose name is taken
    Again(usize),
}

fn c14_grow(cx: &mut Cx, start: Vec<(D, u64)>, al: u64, depth: usize) {
    let mut alpha: Vec<G> = vec![];
    for d in [D::U8, D::U16, D::F64, D::ByteArray(3), D::Vec3f32] {
        for a in [0, 1, 2, 4] {
            alpha.push(G::Add(d, a));
        }
    }
    alpha.push(G::Again(0));
    alpha.push(G::Again(1));
    let k = alpha.len();
    for code in 0..k.pow(depth as u32) {
        let seq: Vec<&G> = (0..depth).map(|i| &alpha[code / k.pow(i as u32) % k]).collect();
        cx.case(
            || format!("layout with members {start:?} aligned to {al}, then {seq:?} (alignment 0: default)"),
            |o| {
                let ms: Vec<_> = start.iter().enumerate().map(|(i, (d, off))| cust(NAMES[i], *d).at_offset_in_type(*off)).collect();
                let mut m: Vec<_> = ms.iter().map(|m| m.attribute_definition().clone()).collect();
                let mut l = if ms.is_empty() { PointLayout::default() } else { PointLayout::from_members_and_alignment(&ms, al) };
                invariant(&l, &m)?;
                for g in &seq {
                    o.step();
                    match g {
                        G::Add(d, a) => {
                            let x = cust(NAMES[m.len()], *d);
                            let before: Vec<_> = l.attributes().cloned().collect();
                            l.add_attribute(x.clone(), if *a == 0 { FieldAlignment::Default } else { FieldAlignment::Packed(*a) });
                            m.push(x.clone());
                            ensure_eq!(l.attributes().take(before.len()).cloned().collect::<Vec<_>>(), before, "earlier attributes after adding {x}");
                            let need = if *a == 0 { align(*d) } else { align(*d).min(*a) };
                            ensure_eq!(l.at(m.len() - 1).offset() % need, 0, "misalignment of {x} (alignment {need})");
                        }
                        G::Again(i) => {
                            if let Some(d) = m.get(*i) {
                                let before = l.clone();
                                must_panic(|| format!("adding {d} again"), || l.add_attribute(d.clone(), FieldAlignment::Default))?;
                                must_panic(|| format!("adding {} with another datatype", d.name()), || l.add_attribute(d.with_custom_datatype(D::ByteArray(2)), FieldAlignment::Packed(1)))?;
                                ensure!(l == before, "refused add_attribute changed the layout");
                            }
                        }
                    }
                    o.state(&format!("{l}"));
                    invariant(&l, &m)?;
                }
                // comparison ignoring offsets: same names and datatypes, in any order
                let rev: Vec<_> = m.iter().rev().cloned().collect();
                let r = PointLayout::from_attributes_packed(&rev, 1);
                ensure!(l.compare_without_offsets(&r) && r.compare_without_offsets(&l), "compare_without_offsets with the same attributes in reverse order");
                if let Some((last, rest)) = m.split_last() {
                    let f = PointLayout::from_attributes(rest);
                    ensure!(!l.compare_without_offsets(&f) && !f.compare_without_offsets(&l), "compare_without_offsets with one attribute less");
                    let mut c = rest.to_vec();
                    c.push(last.with_custom_datatype(if last.datatype() == D::I8 { D::U8 } else { D::I8 }));
                    let c = PointLayout::from_attributes(&c);
                    ensure!(!l.compare_without_offsets(&c) && !c.compare_without_offsets(&l), "compare_without_offsets with another datatype");
                    let mut c = rest.to_vec();
                    c.push(cust("Z", last.datatype()));
                    let c = PointLayout::from_attributes(&c);
                    ensure!(!l.compare_without_offsets(&c) && !c.compare_without_offsets(&l), "compare_without_offsets with another name");
                }
                Ok(())
            },
        );
    }
}

/// Every placement of up to three members: accepted iff the names differ and nothing overlaps.
fn c14_members(cx: &mut Cx, ds: &[D], span: u64) {
    let k = ds.len();
    for code in 0..(span as usize).pow(k as u32) {
        let offs: Vec<u64> = (0..k).map(|i| (code / (span as usize).pow(i as u32) % span as usize) as u64).collect();
        for dup in [false, true] {
            if dup && k < 2 {
                continue;
            }
            cx.case(
                || format!("members {ds:?} at {offs:?}{}", if dup { " with equal names of the first and last" } else { "" }),
                |o| {
                    let mut names = NAMES[..k].to_vec();
                    if dup {
                        names[k - 1] = names[0];
                    }
                    let ms: Vec<_> = (0..k).map(|i| cust(names[i], ds[i]).at_offset_in_type(offs[i])).collect();
                    let overlap = (0..k).any(|i| (0..i).any(|j| offs[i] < offs[j] + sz(ds[j]) && offs[j] < offs[i] + sz(ds[i])));
                    let end = (0..k).map(|i| offs[i] + sz(ds[i])).max().unwrap_or(0);
                    for al in [1, 2, 8] {
                        o.step();
                        o.state(&(&offs, al, dup));
                        let l = guard(|| PointLayout::from_members_and_alignment(&ms, al));
                        if overlap || dup {
                            ensure!(l.is_err(), "overlapping or duplicate members were accepted");
                        } else {
                            let l = l.map_err(|e| format!("valid members were refused: {e}"))?;
                            ensure_eq!(l.size_of_point_entry(), up(end, al), "size of a point");
                            ensure_eq!(l.attributes().cloned().collect::<Vec<_>>(), ms, "members");
                            invariant(&l, &ms.iter().map(|m| m.attribute_definition().clone()).collect::<Vec<_>>())?;
                        }
                    }
                    Ok(())
                },
            );
        }
    }
}

pub fn c14(thorough: bool) -> Vec<Shard> {
    let mut v = vec![];
    let starts: Vec<(Vec<(D, u64)>, u64)> = vec![
        (vec![], 1),
        (vec![(D::U16, 0)], 2),
        (vec![(D::U16, 8), (D::F32, 0)], 4),
        (vec![(D::U8, 3)], 1),
        (vec![(D::F64, 8), (D::U8, 2)], 8),
        (vec![(D::U8, 9), (D::F32, 4), (D::U16, 0)], 2),
        (vec![(D::U8, 0)], 16),
    ];
    for (i, (s, al)) in starts.into_iter().enumerate() {
        let depth = if thorough { 3 } else { 2 };
        let s1 = s.clone();
        v.push(shard(format!("grow/{i}"), move |cx| c14_grow(cx, s1.clone(), al, depth)));
        if i == 0 && !thorough {
            v.push(shard(format!("grow/{i}/3"), move |cx| c14_grow(cx, s.clone(), al, 3)));
        }
    }
    for ds in [vec![D::U8], vec![D::F64], vec![D::U8, D::F32], vec![D::U16, D::U8], vec![D::U16, D::U16, D::U8], vec![D::F32, D::U8, D::U16], vec![D::ByteArray(3), D::U8, D::U8], vec![D::U8; 3]] {
        let span = if ds.len() < 3 { 16 } else if thorough { 16 } else { 8 };
        v.push(shard(format!("members/{ds:?}"), move |cx| c14_members(cx, &ds, span)));
    }
    v
}

// ---------------------------------------------------------------------------------------------
// C16

fn round<T: serde::Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug>(x: &T) -> R {
    let s = serde_json::to_string(x).map_err(|e| format!("serialize: {e}"))?;
    let y: T = serde_json::from_str(&s).map_err(|e| format!("deserialize {s}: {e}"))?;
    ensure!(*x == y, "{x:?} became {y:?} (through {s})");
    // through a self-describing value tree, too
    let v = serde_json::to_value(x).map_err(|e| format!("to_value: {e}"))?;
    let y: T = serde_json::from_value(v).map_err(|e| format!("from_value: {e}"))?;
    ensure!(*x == y, "{x:?} became {y:?} (through a value tree)");
    ensure_eq!(serde_json::to_string(&y).unwrap(), s, "serialized again");
    Ok(())
}
pub fn c16(thorough: bool) -> Vec<Shard> {
    let mut v = vec![shard("parts", |cx| {
        for d in alphabet() {
            cx.case(|| format!("datatype {d:?}"), |o| { o.step(); o.state(&d); round(&d) });
            for n in ["", "Position3D", "with \"quotes\" and \\", "Δ\n\u{1F600}", "a\u{0}b"] {
                cx.case(
                    || format!("attribute {n:?} of {d:?}"),
                    |o| {
                        o.steps(3);
                        o.state(&(n, d));
                        let a = PointAttributeDefinition::custom(n.into(), d);
                        round(&a)?;
                        let m = a.at_offset_in_type(17);
                        round(&m)?;
                        round(&PointLayout::from_members_and_alignment(&[m], 4))
                    },
                );
            }
        }
        use pasture_core::math::AABB;
        use pasture_core::nalgebra::Point3;
        for a in [-1.5f64, 0.0, 3.0e-5, 123456.75] {
            for b in [0.25f64, 7.0, 1048576.5] {
                cx.case(|| format!("AABB {a} {b}"), |o| {
                    o.step();
                    o.state(&(a.to_bits(), b.to_bits()));
                    let p = Point3::new(a, -b, 0.0);
                    let q = Point3::new(a + b, b, 1.0);
                    round(&AABB::from_min_max_unchecked(p, q))
                });
            }
        }
    })];
    for d in alphabet() {
        v.push(shard(format!("layouts/{d:?}"), move |cx| {
            for n in 0..(if thorough { 3 } else { 2 }) {
                for mut s in seqs(&alphabet(), n) {
                    s.insert(0, d);
                    let defs: Vec<_> = s.iter().enumerate().map(|(i, d)| cust(NAMES[i], *d)).collect();
                    cx.case(
                        || format!("layouts of {s:?}"),
                        |o| {
                            o.steps(7);
                            o.state(&s);
                            let l = PointLayout::from_attributes(&defs);
                            round(&l)?;
                            for p in [1, 2, 4, 8] {
                                round(&PointLayout::from_attributes_packed(&defs, p))?;
                            }
                            // members out of memory order, with gaps
                            let mut at = 3;
                            let mut ms = vec![];
                            for d in &defs {
                                ms.insert(0, d.at_offset_in_type(at));
                                at += d.size() + 1;
                            }
                            let r = PointLayout::from_members_and_alignment(&ms, 32);
                            round(&r)?;
                            let back: PointLayout = serde_json::from_str(&serde_json::to_string(&r).unwrap()).unwrap();
                            invariant(&back, &ms.iter().map(|m| m.attribute_definition().clone()).collect::<Vec<_>>())
                        },
                    );
                }
            }
        }));
    }
    v
}

// ---------------------------------------------------------------------------------------------
// C48

/// What tells layouts apart: the attributes with their places, and the size and alignment of a point
type Desc = (Vec<(String, D, u64)>, u64, u64);

fn pool(thorough: bool) -> Vec<(Desc, PointLayout)> {
    let id = |n: u128| uuid::Uuid::from_u128(n);
    let types = [
        D::U8,
        D::I8,
        D::U16,
        D::F32,
        D::Vec4u8,
        D::ByteArray(4),
        D::ByteArray(1),
        D::Custom { size: 4, min_alignment: 4, name: id(1) },
        D::Custom { size: 4, min_alignment: 4, name: id(2) },
        D::Custom { size: 4, min_alignment: 1, name: id(1) },
    ];
    let names = ["A", "B", "a", "A "];
    let mut lists: Vec<Vec<(&str, D)>> = vec![vec![]];
    for n in names {
        for t in types {
            lists.push(vec![(n, t)]);
            for m in names {
                for u in &types[..if thorough { types.len() } else { 5 }] {
                    if m != n {
                        lists.push(vec![(n, t), (m, *u)]);
                    }
                }
            }
        }
    }
    for (i, j, k) in [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)] {
        let t = [("A", D::U8), ("B", D::U16), ("C", D::F32)];
        lists.push(vec![t[i], t[j], t[k]]);
    }
    let mut v = vec![];
    for list in lists {
        let ds: Vec<D> = list.iter().map(|x| x.1).collect();
        let defs: Vec<_> = list.iter().map(|x| cust(x.0, x.1)).collect();
        let desc = |offs: &[u64], size, al| (list.iter().zip(offs).map(|(x, o)| (x.0.to_string(), x.1, *o)).collect::<Vec<_>>(), size, al);
        let (offs, size, al) = oracle(&ds, None);
        v.push((desc(&offs, size, al), PointLayout::from_attributes(&defs)));
        let (offs, size, al) = oracle(&ds, Some(1));
        v.push((desc(&offs, size, al), PointLayout::from_attributes_packed(&defs, 1)));
        if list.len() == 1 || list.iter().all(|x| [D::U8, D::U16].contains(&x.1)) {
            for offs in [[0, 4, 8], [4, 0, 8], [0, 8, 4]] {
                for al in [1, 4, 16] {
                    let offs = &offs[..list.len()];
                    let m: Vec<_> = defs.iter().zip(offs).map(|(d, o)| d.at_offset_in_type(*o)).collect();
                    let end = ds.iter().zip(offs).map(|(d, o)| o + sz(*d)).max().unwrap_or(0);
                    v.push((desc(offs, up(end, al), al), PointLayout::from_members_and_alignment(&m, al)));
                }
            }
        }
    }
    v
}

pub fn c48(thorough: bool) -> Vec<Shard> {
    let all = std::sync::Arc::new(pool(thorough));
    let mut v = vec![];
    for s in 0..8 {
        let all = all.clone();
        v.push(shard(format!("layouts/{s}"), move |cx| {
            for (i, (d, l)) in all.iter().enumerate().filter(|x| x.0 % 8 == s) {
                cx.case(
                    || format!("layout {i}, {d:?}, and all others"),
                    |o| {
                        o.state(&i);
                        let again = l.clone();
                        ensure!(again == *l && hash_of(&again) == hash_of(l), "a layout and its clone");
                        let set = |d: &Desc| d.0.iter().map(|a| (a.0.clone(), format!("{:?}", a.1))).collect::<std::collections::BTreeSet<_>>();
                        let mine = set(d);
                        for (e, m) in all.iter() {
                            o.step();
                            ensure!((l == m) == (d == e), "{l} == {m} is {}, {d:?} and {e:?}", l == m);
                            ensure!((l != m) == (d != e), "{l} != {m} is {}", l != m);
                            ensure!(d != e || hash_of(l) == hash_of(m), "equal layouts with different hashes: {l}");
                            if d.0.len() != e.0.len() {
                                ensure!(!l.compare_without_offsets(m), "{l} and {m} compared without offsets");
                            } else {
                                ensure_eq!(l.compare_without_offsets(m), mine == set(e), "{l} and {m} compared without offsets");
                            }
                        }
                        Ok(())
                    },
                );
            }
        }));
    }
    v.push(shard("attributes", |cx| {
        let id = |n: u128| uuid::Uuid::from_u128(n);
        let mut types = alphabet();
        types.extend([D::ByteArray(0), D::ByteArray(1 << 32)]);
        types.extend([(4u64, 4u64, 1u128), (4, 4, 2), (4, 1, 1), (8, 4, 1), (4, 4, 1 << 64)].map(|(size, min_alignment, n)| D::Custom { size, min_alignment, name: id(n) }));
        // types that are the same are the same entry of the list
        let key = |d: &D| match d {
            D::ByteArray(n) => format!("bytes {n}"),
            D::Custom { size, min_alignment, name } => format!("custom {size} {min_alignment} {}", name.as_u128()),
            d => format!("{d:?}"),
        };
        let names = ["", "A", "a", "B", "AB", "A ", " A", "A\0", "Ä", "A\u{308}"];
        for (i, a) in types.iter().enumerate() {
            for n in names {
                cx.case(
                    || format!("attribute {n:?} of {a:?} and all others"),
                    |o| {
                        o.state(&(i, n));
                        for b in &types {
                            let same = key(a) == key(b);
                            ensure!((a == b) == same && (a != b) == !same, "types {a:?} and {b:?}");
                            ensure!(!same || hash_of(a) == hash_of(b), "hashes of {a:?}");
                            for m in names {
                                o.step();
                                let (x, y) = (cust(n, *a), PointAttributeDefinition::custom(std::borrow::Cow::Owned(m.to_string()), *b));
                                let eq = same && n == m;
                                ensure!((x == y) == eq && (x != y) == !eq, "attributes {x} and {y}: equal {}", x == y);
                                ensure!(!eq || hash_of(&x) == hash_of(&y), "hashes of {x}");
                                for (p, q) in [(0, 0), (0, 8), (8, 8), (1 << 40, 1 << 41)] {
                                    let (u, w) = (x.at_offset_in_type(p), y.at_offset_in_type(q));
                                    ensure!((u == w) == (eq && p == q), "members {u} and {w}");
                                    ensure!(u != w || hash_of(&u) == hash_of(&w), "hashes of {u}");
                                }
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
    }));
    v
}
