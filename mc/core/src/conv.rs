//! C17: the attribute conversion table. C18: BufferLayoutConverter. C19: RawPointConverter.
//! C11: converting attribute views and untyped points.
use crate::lay::*;
use crate::with_type;
use fw::*;
use pasture_core::containers::*;
use pasture_core::layout::conversion::*;
use pasture_core::layout::*;
use std::ops::Range;
use PointAttributeDataType as D;

pub fn scalars() -> Vec<D> {
    vec![D::U8, D::I8, D::U16, D::I16, D::U32, D::I32, D::U64, D::I64, D::F32, D::F64]
}
pub fn vec3s() -> Vec<D> {
    vec![D::Vec3u8, D::Vec3u16, D::Vec3f32, D::Vec3i32, D::Vec3f64]
}
/// Every datatype that has a Rust type.
pub fn all_types() -> Vec<D> {
    let mut v = scalars();
    v.extend(vec3s());
    v.push(D::Vec4u8);
    v
}
fn component(d: D) -> Option<D> {
    Some(match d {
        D::Vec3u8 => D::U8,
        D::Vec3u16 => D::U16,
        D::Vec3f32 => D::F32,
        D::Vec3i32 => D::I32,
        D::Vec3f64 => D::F64,
        _ => return None,
    })
}
pub fn size(d: D) -> usize {
    match d {
        D::U8 | D::I8 => 1,
        D::U16 | D::I16 => 2,
        D::U32 | D::I32 | D::F32 | D::Vec4u8 => 4,
        D::U64 | D::I64 | D::F64 => 8,
        D::Vec3u8 => 3,
        D::Vec3u16 => 6,
        D::Vec3f32 | D::Vec3i32 => 12,
        D::Vec3f64 => 24,
        _ => panic!(),
    }
}

/// Is there a conversion between the two (different) types?
pub fn convertible(a: D, b: D) -> bool {
    (scalars().contains(&a) && scalars().contains(&b)) || (vec3s().contains(&a) && vec3s().contains(&b))
}

#[derive(Clone, Copy, Debug)]
enum Num {
    I(i128),
    F(f64),
}
fn decode(d: D, b: &[u8]) -> Num {
    macro_rules! n {
        ($t:ty) => {
            <$t>::from_ne_bytes(b.try_into().unwrap())
        };
    }
    match d {
        D::U8 => Num::I(n!(u8) as i128),
        D::I8 => Num::I(n!(i8) as i128),
        D::U16 => Num::I(n!(u16) as i128),
        D::I16 => Num::I(n!(i16) as i128),
        D::U32 => Num::I(n!(u32) as i128),
        D::I32 => Num::I(n!(i32) as i128),
        D::U64 => Num::I(n!(u64) as i128),
        D::I64 => Num::I(n!(i64) as i128),
        D::F32 => Num::F(n!(f32) as f64),
        D::F64 => Num::F(n!(f64)),
        _ => panic!(),
    }
}
/// Value semantics of Rust's `as`, defined on exact values: integers wrap, floats truncate and saturate.
fn encode(d: D, v: Num) -> Vec<u8> {
    fn wrap(v: i128, bits: u32) -> i128 {
        v.rem_euclid(1i128 << bits)
    }
    fn sat(f: f64, lo: i128, hi: i128) -> i128 {
        if f.is_nan() {
            0
        } else if f <= lo as f64 {
            lo
        } else if f >= hi as f64 {
            hi
        } else {
            f.trunc() as i128
        }
    }
    let int = |bits: u32, signed: bool| -> i128 {
        match v {
            Num::I(i) => wrap(i, bits),
            Num::F(f) => {
                let (lo, hi) = if signed { (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1) } else { (0, (1i128 << bits) - 1) };
                wrap(sat(f, lo, hi), bits)
            }
        }
    };
    match d {
        D::U8 | D::I8 => vec![int(8, d == D::I8) as u8],
        D::U16 | D::I16 => (int(16, d == D::I16) as u16).to_ne_bytes().to_vec(),
        D::U32 | D::I32 => (int(32, d == D::I32) as u32).to_ne_bytes().to_vec(),
        D::U64 | D::I64 => (int(64, d == D::I64) as u64).to_ne_bytes().to_vec(),
        D::F32 => match v {
            Num::I(i) => (i as f32).to_ne_bytes().to_vec(),
            Num::F(f) => (f as f32).to_ne_bytes().to_vec(),
        },
        D::F64 => match v {
            Num::I(i) => (i as f64).to_ne_bytes().to_vec(),
            Num::F(f) => f.to_ne_bytes().to_vec(),
        },
        _ => panic!(),
    }
}
/// The converted value, or None if there is no conversion.
pub fn oracle(from: D, to: D, b: &[u8]) -> Option<Vec<u8>> {
    if from == to {
        return Some(b.to_vec());
    }
    if !convertible(from, to) {
        return None;
    }
    Some(match (component(from), component(to)) {
        (Some(cf), Some(ct)) => b.chunks(size(cf)).flat_map(|c| if cf == ct { c.to_vec() } else { encode(ct, decode(cf, c)) }).collect(),
        _ => encode(to, decode(from, b)),
    })
}
/// Byte equality, except that any NaN equals any other NaN.
pub fn same(d: D, a: &[u8], b: &[u8]) -> bool {
    if a == b {
        return true;
    }
    if a.len() != b.len() {
        return false;
    }
    match component(d).unwrap_or(d) {
        D::F32 => a.chunks(4).zip(b.chunks(4)).all(|(x, y)| x == y || (f32::from_ne_bytes(x.try_into().unwrap()).is_nan() && f32::from_ne_bytes(y.try_into().unwrap()).is_nan())),
        D::F64 => a.chunks(8).zip(b.chunks(8)).all(|(x, y)| x == y || (f64::from_ne_bytes(x.try_into().unwrap()).is_nan() && f64::from_ne_bytes(y.try_into().unwrap()).is_nan())),
        _ => false,
    }
}

/// Boundary values of a scalar type.
pub fn values(d: D) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    let bits = size(d) as u32 * 8;
    match d {
        D::F32 => {
            for f in float_values() {
                v.push((f as f32).to_ne_bytes().to_vec());
            }
            for e in 0..=255u32 {
                for m in [0u32, 1, 0x400000, 0x7fffff] {
                    for s in [0, 1u32 << 31] {
                        v.push((s | e << 23 | m).to_ne_bytes().to_vec());
                    }
                }
            }
        }
        D::F64 => {
            for f in float_values() {
                v.push(f.to_ne_bytes().to_vec());
            }
            for e in 0..=2047u64 {
                for m in [0u64, 1, 1 << 51, (1 << 52) - 1, 0x10000000] {
                    for s in [0, 1u64 << 63] {
                        v.push((s | e << 52 | m).to_ne_bytes().to_vec());
                    }
                }
            }
        }
        _ => {
            for k in 0..bits {
                for x in [1i128 << k, (1i128 << k) - 1, (1i128 << k) + 1, -(1i128 << k), -(1i128 << k) - 1, -(1i128 << k) + 1, 3i128 << k, 0x55 << k] {
                    v.push(x.to_le_bytes()[..size(d)].to_vec());
                }
            }
            // next to the middle between two floating point numbers, where rounding twice goes wrong
            for lead in 0..bits {
                for half in [24u32, 53] {
                    if lead >= half {
                        for (odd, near) in [(0i128, -1i128), (0, 0), (0, 1), (1, -1), (1, 0), (1, 1)] {
                            let x = (1i128 << lead) + (odd << (lead - half + 1)) + (1i128 << (lead - half)) + near;
                            for x in [x, -x] {
                                v.push(x.to_le_bytes()[..size(d)].to_vec());
                            }
                        }
                    }
                }
            }
            for x in [0i128, 16777217, 9007199254740993, 127, 128, 255, 256, 1000, -1000] {
                v.push(x.to_le_bytes()[..size(d)].to_vec());
            }
        }
    }
    v.sort();
    v.dedup();
    v
}
fn float_values() -> Vec<f64> {
    let mut v = vec![f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, 0.1, 0.5, 0.999999, 1.5, 2.5, 1e10, 1e20, 1e300, f64::MIN_POSITIVE, f64::EPSILON, 16777217.0];
    for b in [7, 8, 15, 16, 31, 32, 63, 64] {
        let p = 2f64.powi(b);
        for d in [-1.0, -0.5, 0.0, 0.5, 1.0] {
            v.push(p + d);
            v.push(p * (1.0 + d * f64::EPSILON));
        }
    }
    v.iter().flat_map(|x| [*x, -*x]).collect()
}

fn call(f: AttributeConversionFn, b: &[u8], to: D) -> Vec<u8> {
    // deliberately unaligned memory on both sides, guarded
    let n = size(to);
    let mut src = vec![0x11u8; b.len() + 2];
    src[1..1 + b.len()].copy_from_slice(b);
    let mut dst = vec![0xA7u8; n + 2];
    unsafe { f(&src[1..1 + b.len()], &mut dst[1..1 + n]) };
    assert!(dst[0] == 0xA7 && dst[n + 1] == 0xA7, "converter wrote outside of the target value");
    assert!(&src[1..1 + b.len()] == b, "converter changed the source value");
    dst[1..1 + n].to_vec()
}

fn converters(from: D, to: D) -> Vec<(&'static str, Box<dyn Fn() -> Option<AttributeConversionFn>>)> {
    vec![
        ("get_generic_converter", Box::new(move || get_generic_converter(from, to))),
        ("get_converter_for_attributes", Box::new(move || get_converter_for_attributes(&cust("X", from), &cust("X", to)))),
    ]
}

fn c17_pair(cx: &mut Cx, from: D, to: D, exhaustive: bool) {
    for (name, get) in converters(from, to) {
        if !convertible(from, to) {
            cx.case(
                || format!("{name}({from}, {to}): no such conversion"),
                |o| {
                    o.step();
                    o.state(&(from, to));
                    match guard(|| get()) {
                        Err(_) | Ok(None) => Ok(()),
                        Ok(Some(_)) => Err("a conversion between types that cannot be converted was offered".into()),
                    }
                },
            );
            continue;
        }
        let chunk = |cx: &mut Cx, what: String, vals: &mut dyn Iterator<Item = Vec<u8>>| {
            let vals: Vec<Vec<u8>> = vals.collect();
            cx.case(
                || format!("{name}({from}, {to}) on {what}"),
                |o| {
                    let f = get().ok_or("no converter offered")?;
                    o.state(&(from, to, &what));
                    for b in &vals {
                        o.step();
                        let got = call(f, b, to);
                        let exp = oracle(from, to, b).unwrap();
                        ensure!(same(to, &got, &exp), "{from} value {:?} {b:?} becomes {to} {got:?}, expected {exp:?}", show(from, b));
                    }
                    Ok(())
                },
            );
        };
        if let Some(c) = component(from) {
            let vs: Vec<Vec<u8>> = {
                let all = values(c);
                let k = (all.len() / 7).max(1);
                let mut s: Vec<Vec<u8>> = all.iter().step_by(k).cloned().collect();
                s.push(all[all.len() - 1].clone());
                s
            };
            let mut it = (0..vs.len().pow(3)).map(|i| {
                let (x, y, z) = (i % vs.len(), i / vs.len() % vs.len(), i / vs.len() / vs.len());
                [vs[x].clone(), vs[y].clone(), vs[z].clone()].concat()
            });
            chunk(cx, "all triples of boundary components".into(), &mut it);
            // every boundary value in every component position
            for p in 0..3 {
                let mut it = values(c).into_iter().map(|x| (0..3).flat_map(|i| if i == p { x.clone() } else { vs[i + 1].clone() }).collect::<Vec<u8>>());
                chunk(cx, format!("every boundary value in component {p}"), &mut it);
            }
        } else {
            match size(from) {
                1 => chunk(cx, "all 256 values".into(), &mut (0..=255u8).map(|b| vec![b])),
                2 => chunk(cx, "all 65536 values".into(), &mut (0..=65535u16).map(|b| b.to_ne_bytes().to_vec())),
                _ => chunk(cx, "boundary values".into(), &mut values(from).into_iter()),
            }
            if exhaustive && size(from) == 4 {
                for hi in 0..=255u32 {
                    cx.case(
                        || format!("{name}({from}, {to}) on all values {hi:02x}......"),
                        |o| {
                            let f = get().ok_or("no converter offered")?;
                            o.state(&(from, to, hi));
                            let n = size(to);
                            let mut dst = [0u8; 8];
                            for lo in 0..1u32 << 24 {
                                let b = (hi << 24 | lo).to_ne_bytes();
                                unsafe { f(&b, &mut dst[..n]) };
                                if !fast_same(from, to, b, &dst[..n]) {
                                    return Err(format!("{from} value {:?} {b:?} becomes {to} {:?}", show(from, &b), &dst[..n]));
                                }
                            }
                            o.steps(1 << 24);
                            Ok(())
                        },
                    );
                }
            }
        }
    }
}
fn fast_same(from: D, to: D, b: [u8; 4], got: &[u8]) -> bool {
    macro_rules! go {
        ($v:expr) => {{
            let v = $v;
            match to {
                D::U8 => got == (v as u8).to_ne_bytes(),
                D::I8 => got == (v as i8).to_ne_bytes(),
                D::U16 => got == (v as u16).to_ne_bytes(),
                D::I16 => got == (v as i16).to_ne_bytes(),
                D::U32 => got == (v as u32).to_ne_bytes(),
                D::I32 => got == (v as i32).to_ne_bytes(),
                D::U64 => got == (v as u64).to_ne_bytes(),
                D::I64 => got == (v as i64).to_ne_bytes(),
                D::F32 => same(to, got, &(v as f32).to_ne_bytes()),
                D::F64 => same(to, got, &(v as f64).to_ne_bytes()),
                _ => false,
            }
        }};
    }
    match from {
        D::U32 => go!(u32::from_ne_bytes(b)),
        D::I32 => go!(i32::from_ne_bytes(b)),
        _ => go!(f32::from_ne_bytes(b)),
    }
}
fn show(d: D, b: &[u8]) -> String {
    match component(d) {
        Some(c) => b.chunks(size(c)).map(|x| show(c, x)).collect::<Vec<_>>().join(","),
        None if d == D::Vec4u8 => format!("{b:?}"),
        None => format!("{:?}", decode(d, b)),
    }
}

pub fn c17(thorough: bool) -> Vec<Shard> {
    let mut v = vec![];
    let mut all = all_types();
    all.push(D::ByteArray(4));
    all.push(D::ByteArray(1));
    all.push(D::Custom { size: 4, min_alignment: 4, name: uuid::Uuid::from_u128(1) });
    for a in &all {
        for b in &all {
            if a == b {
                continue;
            }
            let (a, b) = (*a, *b);
            v.push(shard(format!("{a}->{b}"), move |cx| c17_pair(cx, a, b, thorough)));
        }
    }
    v
}

// ---------------------------------------------------------------------------------------------
// C11

/// Three values of each type, told apart in every component.
pub fn sample(d: D, k: usize) -> Vec<u8> {
    let c = component(d).unwrap_or(d);
    if d == D::Vec4u8 {
        return (0..4).map(|i| (k * 10 + i + 1) as u8).collect();
    }
    let n = size(d) / size(c);
    (0..n)
        .flat_map(|i| {
            let x = match c {
                D::F32 | D::F64 => Num::F([1.5, -300.75, 70000.25][k % 3] * (i as f64 + 1.0) + (k / 3) as f64 * 0.25),
                _ => Num::I([1, 200, -3][k % 3] * (i as i128 + 1) + (k / 3) as i128 * 11),
            };
            encode(c, x)
        })
        .collect()
}

/// Every boundary value of a type; of vectors: each in every component. At most about `cap`
pub fn wide(d: D, cap: usize) -> Vec<Vec<u8>> {
    let c = component(d).unwrap_or(d);
    let all = values(c);
    let step = all.len() / cap + 1;
    // the ends of the list and the simple values (all bits zero, all bits one) always
    let mut pick: Vec<Vec<u8>> = vec![vec![0; size(c)], vec![0xff; size(c)], all[0].clone(), all[all.len() - 1].clone()];
    if step == 1 {
        pick.extend(all);
    } else {
        pick.extend(all.into_iter().step_by(step));
    }
    let n = size(d) / size(c);
    let k = pick.len();
    let mut v: Vec<Vec<u8>> = (0..k).map(|i| (0..n).flat_map(|j| pick[(i + j * (k / 3 + 1)) % k].clone()).collect()).collect();
    if n > 1 {
        v.push(vec![0xff; size(d)]);
        v.push(vec![0; size(d)]);
    }
    v
}
fn wide_pts(l: &Lay, which: usize, cap: usize) -> Vec<Pt> {
    wide(l.attrs[which].datatype(), cap)
        .into_iter()
        .enumerate()
        .map(|(i, x)| {
            let mut p = l.pt((i % 250) as u8);
            p[which] = x;
            p
        })
        .collect()
}
fn three(from: D) -> Lay {
    Lay::new("conv", PointLayout::from_attributes_packed(&[cust("Front", D::U8), cust("X", from), cust("Back", D::U16)], 1))
}
fn three_pts(l: &Lay, from: D, n: usize) -> Vec<Pt> {
    (0..n)
        .map(|i| {
            let mut p = l.pt(1 + i as u8);
            p[1] = sample(from, i);
            p
        })
        .collect()
}

fn c11_pair(cx: &mut Cx, from: D, to: D) {
    let l = three(from);
    let n = 3;
    let m = three_pts(&l, from, n);
    let asked = cust("X", to);
    let here = cust("X", from);
    let exp: Vec<Option<Vec<u8>>> = m.iter().map(|p| oracle(from, to, &p[1])).collect();
    for which in 0..5 {
        cx.case(
            || format!("view_attribute_with_conversion: {from} attribute as {to}, buffer kind {which}"),
            |o| {
                o.step();
                o.state(&(from, to, which));
                with_type!(to, T, {
                    macro_rules! go {
                        ($b:expr, $off:expr) => {{
                            let b = $b;
                            if exp[0].is_none() {
                                ensure!(!matches!(guard(|| b.view_attribute_with_conversion::<T>(&asked).map(|_| ())), Ok(Ok(()))), "a view with an impossible conversion was created");
                            } else {
                                let v = b.view_attribute_with_conversion::<T>(&asked).map_err(|e| e.to_string())?;
                                for i in 0..b.len() {
                                    let got = v.at(i);
                                    ensure!(same(to, bytemuck::bytes_of(&got), exp[$off + i].as_ref().unwrap()), "at({i}) is {:?}, expected {:?}", bytemuck::bytes_of(&got), exp[$off + i]);
                                }
                                must_panic(|| "at(len)".into(), || v.at(b.len()))?;
                                must_panic(|| "at(len)+1".into(), || v.at(b.len() + 1))?;
                                let mut k = 0;
                                for got in v {
                                    ensure!(same(to, bytemuck::bytes_of(&got), exp[$off + k].as_ref().unwrap()), "iteration: item {k} is {:?}", bytemuck::bytes_of(&got));
                                    k += 1;
                                }
                                ensure_eq!(k, b.len(), "number of iterated values");
                                // equality of converting views is equality of the converted values
                                let other = l.hashmap(&m);
                                let s = other.slice($off..$off + b.len());
                                ensure!(b.view_attribute_with_conversion::<T>(&asked).unwrap() == s.view_attribute_with_conversion::<T>(&asked).unwrap() || from_nan(&exp), "equal views compare unequal");
                            }
                        }};
                    }
                    match which {
                        0 => go!(l.vector(&m), 0),
                        1 => go!(l.hashmap(&m), 0),
                        2 => go!(l.external(&m), 0),
                        3 => {
                            let v = l.vector(&m);
                            go!(v.slice(1..3), 1)
                        }
                        _ => {
                            let v = l.hashmap(&m);
                            go!(v.slice(1..3), 1)
                        }
                    }
                });
                Ok(())
            },
        );
    }
    // untyped points
    for kind in 0..2 {
        cx.case(
            || format!("UntypedPoint{}: {from} attribute read and written as {to}", ["Buffer", "Slice"][kind]),
            |o| {
                o.steps(2 * n as u64);
                o.state(&(from, to, kind, 1));
                for p in &m {
                    let mut mem = l.bytes(p, 0xEE);
                    let mut buf = UntypedPointBuffer::new(&l.layout);
                    use std::io::Write;
                    buf.get_cursor().write_all(&mem).map_err(|e| e.to_string())?;
                    let mut sl = UntypedPointSlice::new(&l.layout, &mut mem);
                    with_type!(to, T, {
                        if kind == 0 {
                            untyped::<T>(&mut buf, &l, p, from, to, &here)?;
                        } else {
                            untyped::<T>(&mut sl, &l, p, from, to, &here)?;
                        }
                    });
                }
                Ok(())
            },
        );
    }
}
/// Every boundary value through the converting view and the untyped points, in both directions
fn c11_wide(cx: &mut Cx, from: D, to: D) {
    if from != to && !convertible(from, to) {
        return;
    }
    let l = three(from);
    let m = wide_pts(&l, 1, cx.tier(600, 20000));
    let (asked, here) = (cust("X", to), cust("X", from));
    cx.case(
        || format!("all boundary values of {from} as {to}"),
        |o| {
            o.steps(4 * m.len() as u64);
            o.state(&(from, to, "wide"));
            let exp: Vec<Vec<u8>> = m.iter().map(|p| oracle(from, to, &p[1]).unwrap()).collect();
            let vals = wide(to, m.len());
            with_type!(to, T, {
                macro_rules! go {
                    ($b:expr) => {{
                        let b = $b;
                        let v = b.view_attribute_with_conversion::<T>(&asked).map_err(|e| e.to_string())?;
                        for (i, e) in exp.iter().enumerate() {
                            let got = v.at(i);
                            ensure!(same(to, bytemuck::bytes_of(&got), e), "at({i}) for {:?} is {:?}, expected {e:?}", m[i][1], bytemuck::bytes_of(&got));
                        }
                        let mut k = 0;
                        for got in v {
                            ensure!(same(to, bytemuck::bytes_of(&got), &exp[k]), "iteration: {:?} comes out as {:?}", m[k][1], bytemuck::bytes_of(&got));
                            k += 1;
                        }
                        ensure_eq!(k, m.len(), "number of iterated values");
                    }};
                }
                go!(l.vector(&m));
                go!(l.hashmap(&m));
                let mut buf = UntypedPointBuffer::new(&l.layout);
                for (p, e) in m.iter().zip(&exp) {
                    let mut mem = l.bytes(p, 0xEE);
                    {
                        use std::io::Write;
                        buf.get_cursor().write_all(&mem).map_err(|e| e.to_string())?;
                    }
                    let got = buf.get_attribute::<T>(&here).map_err(|e| e.to_string())?;
                    ensure!(same(to, bytemuck::bytes_of(&got), e), "UntypedPointBuffer: {:?} is {:?}, expected {e:?}", p[1], bytemuck::bytes_of(&got));
                    let got = UntypedPointSlice::new(&l.layout, &mut mem).get_attribute::<T>(&here).map_err(|e| e.to_string())?;
                    ensure!(same(to, bytemuck::bytes_of(&got), e), "UntypedPointSlice: {:?} is {:?}, expected {e:?}", p[1], bytemuck::bytes_of(&got));
                }
                if from == to || convertible(to, from) {
                    for (i, x) in vals.iter().enumerate() {
                        let e = oracle(to, from, x).unwrap();
                        let p = &m[i % m.len()];
                        let mut mem = l.bytes(p, 0xEE);
                        let t: T = bytemuck::pod_read_unaligned(x);
                        UntypedPointSlice::new(&l.layout, &mut mem).set_attribute::<T>(&here, &t).map_err(|e| e.to_string())?;
                        let mut q = p.clone();
                        q[1] = e;
                        for a in 0..3 {
                            let got = &mem[l.offs[a]..l.offs[a] + l.sizes[a]];
                            ensure!(same(l.attrs[a].datatype(), got, &q[a]), "set_attribute of {x:?} into {:?}: attribute {a} is {got:?}, expected {:?}", p[1], q[a]);
                        }
                    }
                }
            });
            Ok(())
        },
    );
}
fn from_nan(e: &[Option<Vec<u8>>]) -> bool {
    e.iter().flatten().any(|b| (b.len() % 4 == 0 && b.chunks(4).any(|c| f32::from_ne_bytes(c.try_into().unwrap()).is_nan())) || (b.len() % 8 == 0 && b.chunks(8).any(|c| f64::from_ne_bytes(c.try_into().unwrap()).is_nan())))
}

fn untyped<T: PrimitiveType>(u: &mut impl UntypedPoint, l: &Lay, p: &Pt, from: D, to: D, here: &PointAttributeDefinition) -> R {
    ensure!(*u.get_layout() == l.layout, "layout");
    let all = |u: &dyn Fn(usize) -> Result<Vec<u8>, String>, p: &Pt| -> R {
        for a in 0..p.len() {
            ensure_eq!(u(a)?, p[a], "raw attribute {}", l.attrs[a]);
        }
        Ok(())
    };
    all(&|a| u.get_raw_attribute(&l.attrs[a]).map(|x| x.to_vec()).map_err(|e| e.to_string()), p)?;
    for a in 0..p.len() {
        ensure_eq!(&u.get_buffer()[l.offs[a]..l.offs[a] + l.sizes[a]], p[a].as_slice(), "get_buffer()");
    }
    // read the attribute (identified as it is in the layout) as T
    let exp = oracle(from, to, &p[1]);
    let got = guard(|| u.get_attribute::<T>(here).map_err(|e| e.to_string()));
    match (&exp, got) {
        (Some(e), Ok(Ok(g))) => ensure!(same(to, bytemuck::bytes_of(&g), e), "get_attribute as {to}: {:?}, expected {e:?}", bytemuck::bytes_of(&g)),
        (Some(_), Ok(Err(e))) => return Err(format!("get_attribute as {to}: {e}")),
        (Some(_), Err(e)) => return Err(format!("get_attribute as {to}: panicked {e}")),
        (None, Ok(Ok(_))) => return Err(format!("get_attribute of {from} as {to} must be refused")),
        (None, _) => {}
    }
    // write a T: converted to the type of the attribute, nothing else changes
    let mut q = p.clone();
    // (the all-zero value comes after values that left something else behind)
    for v in [sample(to, 0), sample(to, 1), sample(to, 2), vec![0; to.size() as usize], sample(to, 1)] {
        let exp = oracle(to, from, &v);
        let t: T = bytemuck::pod_read_unaligned(&v);
        let got = guard(|| u.set_attribute::<T>(here, &t).map_err(|e| e.to_string()));
        match (&exp, got) {
            (Some(e), Ok(Ok(()))) => q[1] = e.clone(),
            (Some(_), Ok(Err(e))) => return Err(format!("set_attribute from {to}: {e}")),
            (Some(_), Err(e)) => return Err(format!("set_attribute from {to}: panicked {e}")),
            (None, Ok(Ok(()))) => return Err(format!("set_attribute of {from} from {to} must be refused")),
            (None, _) => {}
        }
        let now = u.get_raw_attribute(here).unwrap().to_vec();
        ensure!(same(from, &now, &q[1]), "set_attribute from {to} {v:?}: attribute is {now:?}, expected {:?}", q[1]);
        q[1] = now;
        all(&|a| u.get_raw_attribute(&l.attrs[a]).map(|x| x.to_vec()).map_err(|e| e.to_string()), &q)?;
    }
    // raw writes
    for a in 0..q.len() {
        let v = l.val(99, a);
        u.set_raw_attribute(&l.attrs[a], &v).map_err(|e| e.to_string())?;
        q[a] = v;
        all(&|a| u.get_raw_attribute(&l.attrs[a]).map(|x| x.to_vec()).map_err(|e| e.to_string()), &q)?;
        let v = l.val(55, a);
        u.get_raw_attribute_mut(&l.attrs[a]).map_err(|e| e.to_string())?.copy_from_slice(&v);
        q[a] = v;
        all(&|a| u.get_raw_attribute(&l.attrs[a]).map(|x| x.to_vec()).map_err(|e| e.to_string()), &q)?;
    }
    // the cursor is at the start of the memory and leads to the attributes
    for a in 0..q.len() {
        use std::io::{Read, Write};
        let whole = u.get_buffer().to_vec();
        let mut c = u.get_cursor();
        ensure_eq!(c.position(), 0, "position of the cursor");
        let mut got = vec![];
        c.read_to_end(&mut got).map_err(|e| e.to_string())?;
        ensure!(got == whole, "the cursor reads {got:?}, the buffer is {whole:?}");
        let v = l.val(77, a);
        c.set_position(l.offs[a] as u64);
        c.write_all(&v).map_err(|e| e.to_string())?;
        q[a] = v;
        all(&|a| u.get_raw_attribute(&l.attrs[a]).map(|x| x.to_vec()).map_err(|e| e.to_string()), &q)?;
    }
    // unknown attributes are errors
    let un = cust("NoSuchAttribute", to);
    ensure!(u.get_raw_attribute(&un).is_err(), "get_raw_attribute of an unknown attribute");
    ensure!(u.get_raw_attribute_mut(&un).is_err(), "get_raw_attribute_mut of an unknown attribute");
    ensure!(u.set_raw_attribute(&un, &sample(to, 0)).is_err(), "set_raw_attribute of an unknown attribute");
    ensure!(u.get_attribute::<T>(&un).is_err(), "get_attribute of an unknown attribute");
    let t: T = bytemuck::pod_read_unaligned(&sample(to, 0));
    ensure!(u.set_attribute::<T>(&un, &t).is_err(), "set_attribute of an unknown attribute");
    if to != from {
        // an attribute that is in the layout, but with another datatype
        let un = cust("X", to);
        ensure!(u.get_raw_attribute(&un).is_err(), "get_raw_attribute with another datatype");
        ensure!(u.set_raw_attribute(&un, &sample(to, 0)).is_err(), "set_raw_attribute with another datatype");
        ensure!(u.get_raw_attribute_mut(&un).is_err(), "get_raw_attribute_mut with another datatype");
        ensure!(!matches!(guard(|| u.get_attribute::<T>(&un).map(|_| ())), Ok(Ok(()))), "get_attribute with another datatype");
        ensure!(!matches!(guard(|| u.set_attribute::<T>(&un, &t)), Ok(Ok(()))), "set_attribute with another datatype");
    }
    all(&|a| u.get_raw_attribute(&l.attrs[a]).map(|x| x.to_vec()).map_err(|e| e.to_string()), &q)
}

fn c11_short(cx: &mut Cx) {
    for l in lays().into_iter().chain(lays_more()) {
        for len in 0..l.entry {
            cx.case(
                || format!("UntypedPointSlice layout={} over {len} of {} bytes", l.name, l.entry),
                |o| {
                    o.step();
                    o.state(&(l.name, len));
                    let full = l.bytes(&l.pt(3), 0xEE);
                    let mut mem = full[..len].to_vec();
                    let mut u = UntypedPointSlice::new(&l.layout, &mut mem);
                    for a in 0..l.attrs.len() {
                        let fits = l.offs[a] + l.sizes[a] <= len;
                        ensure_eq!(u.get_raw_attribute(&l.attrs[a]).ok().map(|x| x.to_vec()), fits.then(|| l.val(3, a)), "get_raw_attribute {}", l.attrs[a]);
                        ensure_eq!(u.get_raw_attribute_mut(&l.attrs[a]).ok().map(|x| x.to_vec()), fits.then(|| l.val(3, a)), "get_raw_attribute_mut {}", l.attrs[a]);
                        ensure_eq!(u.set_raw_attribute(&l.attrs[a], &l.val(3, a)).is_ok(), fits, "set_raw_attribute {}", l.attrs[a]);
                    }
                    ensure!(u.get_buffer() == &full[..len], "get_buffer()");
                    Ok(())
                },
            );
        }
    }
}

pub fn c11(_t: bool) -> Vec<Shard> {
    let mut v = vec![shard("short", c11_short)];
    for a in all_types() {
        v.push(shard(format!("{a}"), move |cx| {
            for b in all_types() {
                c11_pair(cx, a, b);
                c11_wide(cx, a, b)
            }
        }));
    }
    v
}

// ---------------------------------------------------------------------------------------------
// C18

fn tweak(b: &mut [u8], k: u8) {
    // low-order byte of the first component only: never turns a number into NaN or infinity
    b[0] ^= 0x15 + k;
}
fn set_xf(c: &mut BufferLayoutConverter, from: &PointAttributeDefinition, to: &PointAttributeDefinition, k: u8, on_source: bool) {
    let d = if on_source { from.datatype() } else { to.datatype() };
    let ok = with_type!(d, T, {
        c.set_custom_mapping_with_transformation::<T, _>(
            from,
            to,
            move |mut v: T| {
                tweak(bytemuck::bytes_of_mut(&mut v), k);
                v
            },
            on_source,
        )
    });
    assert!(ok);
}

/// (source attribute, target attribute, transformation applied to the source attribute?)
type Map = (usize, usize, Option<(u8, bool)>);

fn expected(fl: &Lay, tl: &Lay, maps: &[Map], src: &Pt, old: &Pt) -> Pt {
    let mut t = old.clone();
    for (s, d, x) in maps {
        let (fd, td) = (fl.attrs[*s].datatype(), tl.attrs[*d].datatype());
        let mut v = src[*s].clone();
        if let Some((k, true)) = x {
            tweak(&mut v, *k);
        }
        let mut w = if fd == td { v } else { oracle(fd, td, &v).unwrap() };
        if let Some((k, false)) = x {
            tweak(&mut w, *k);
        }
        t[*d] = w;
    }
    t
}

fn samples_of(l: &Lay, n: usize, shift: usize) -> Vec<Pt> {
    (0..n).map(|i| l.attrs.iter().enumerate().map(|(k, a)| if crate::conv::all_types().contains(&a.datatype()) { sample(a.datatype(), i + shift + 31 * k) } else { l.val((i + shift) as u8, k) }).collect()).collect()
}

fn obs_conv<'a, B: BorrowedBuffer<'a>>(b: &B, tl: &Lay, exp: &[Pt]) -> R {
    ensure_eq!(b.len(), exp.len(), "number of points");
    for (i, p) in exp.iter().enumerate() {
        for (a, at) in tl.attrs.iter().enumerate() {
            let mut v = vec![0; tl.sizes[a]];
            b.get_attribute(at, i, &mut v);
            ensure!(same(at.datatype(), &v, &p[a]), "attribute {at} of point {i}: got {v:?}, expected {:?}", p[a]);
        }
    }
    Ok(())
}

/// Runs one configured converter over every combination of memory layouts.
fn all_memory(c: &BufferLayoutConverter, fl: &Lay, tl: &Lay, maps: &[Map], n: usize, rs: &[(Range<usize>, Range<usize>)], o: &mut Obs) -> R {
    all_memory_of(c, fl, tl, maps, samples_of(fl, n, 0), rs, o)
}
fn all_memory_of(c: &BufferLayoutConverter, fl: &Lay, tl: &Lay, maps: &[Map], src: Vec<Pt>, rs: &[(Range<usize>, Range<usize>)], o: &mut Obs) -> R {
    let n = src.len();
    let zero: Pt = tl.sizes.iter().map(|s| vec![0; *s]).collect();
    let exp: Vec<Pt> = src.iter().map(|p| expected(fl, tl, maps, p, &zero)).collect();
    let old = samples_of(tl, n, 1);
    macro_rules! from {
        ($b:expr, $what:expr) => {{
            let b = $b;
            o.steps(2);
            obs_conv(&c.convert::<VectorBuffer, _>(&b), tl, &exp).map_err(|e| format!("convert {} to VectorBuffer: {e}", $what))?;
            obs_conv(&c.convert::<HashMapBuffer, _>(&b), tl, &exp).map_err(|e| format!("convert {} to HashMapBuffer: {e}", $what))?;
            let full: Vec<Pt> = src.iter().zip(&old).map(|(p, q)| expected(fl, tl, maps, p, q)).collect();
            macro_rules! into {
                ($t:expr, $w2:expr) => {{
                    let mut t = $t;
                    o.step();
                    c.convert_into(&b, &mut t);
                    obs_conv(&t, tl, &full).map_err(|e| format!("convert_into {} -> {}: {e}", $what, $w2))?;
                    for (rs, rt) in rs {
                        let mut t = $t;
                        o.step();
                        c.convert_into_range(&b, rs.clone(), &mut t, rt.clone());
                        let mut x = old.clone();
                        for (i, j) in rs.clone().zip(rt.clone()) {
                            x[j] = expected(fl, tl, maps, &src[i], &old[j]);
                        }
                        obs_conv(&t, tl, &x).map_err(|e| format!("convert_into_range {} {rs:?} -> {} {rt:?}: {e}", $what, $w2))?;
                    }
                }};
            }
            into!(tl.vector(&old), "VectorBuffer");
            into!(tl.hashmap(&old), "HashMapBuffer");
            into!(tl.external(&old), "ExternalMemoryBuffer");
            // into the middle of a larger buffer, through a mutable slice
            let mut big = samples_of(tl, 2, 2);
            let margin = big.clone();
            big.splice(1..1, old.iter().cloned());
            let mut e2 = full.clone();
            e2.insert(0, margin[0].clone());
            e2.push(margin[1].clone());
            let mut t = tl.vector(&big);
            c.convert_into(&b, &mut t.slice_mut(1..1 + n));
            obs_conv(&t, tl, &e2).map_err(|e| format!("convert_into {} -> mutable slice of VectorBuffer: {e}", $what))?;
            let mut t = tl.hashmap(&big);
            c.convert_into(&b, &mut t.slice_mut(1..1 + n));
            obs_conv(&t, tl, &e2).map_err(|e| format!("convert_into {} -> mutable slice of HashMapBuffer: {e}", $what))?;
            o.steps(2);
        }};
    }
    from!(fl.vector(&src), "VectorBuffer");
    from!(fl.hashmap(&src), "HashMapBuffer");
    from!(fl.external(&src), "ExternalMemoryBuffer");
    let mut big = src.clone();
    big.insert(0, samples_of(fl, 1, 2)[0].clone());
    big.push(samples_of(fl, 1, 1)[0].clone());
    let v = fl.vector(&big);
    from!(v.slice(1..1 + n), "slice of VectorBuffer");
    let v = fl.hashmap(&big);
    from!(v.slice(1..1 + n), "slice of HashMapBuffer");
    Ok(())
}

fn range_pairs(n: usize) -> Vec<(Range<usize>, Range<usize>)> {
    let mut v = vec![];
    for a in ranges(n) {
        for b in ranges(n) {
            if a.len() == b.len() {
                v.push((a.clone(), b));
            }
        }
    }
    v
}

#[derive(Clone, Debug)]
enum Cfg {
    Map(usize, usize),
    Xf(usize, usize, bool),
}

fn c18_layouts() -> Vec<(&'static str, Lay, Lay)> {
    let p = |a: &[(&'static str, D)], k: u64| PointLayout::from_attributes_packed(&a.iter().map(|(n, d)| cust(n, *d)).collect::<Vec<_>>(), k);
    let c = |a: &[(&'static str, D)]| PointLayout::from_attributes(&a.iter().map(|(n, d)| cust(n, *d)).collect::<Vec<_>>());
    vec![
        ("same", Lay::new("f", c(&[("A", D::U8), ("B", D::U32)])), Lay::new("t", c(&[("A", D::U8), ("B", D::U32)]))),
        ("reordered", Lay::new("f", c(&[("A", D::U8), ("B", D::U32), ("C", D::Vec3f64)])), Lay::new("t", p(&[("C", D::Vec3f64), ("B", D::U32), ("A", D::U8)], 1))),
        ("retyped", Lay::new("f", p(&[("A", D::U16), ("B", D::F64)], 1)), Lay::new("t", c(&[("B", D::I16), ("A", D::F32)]))),
        ("subset", Lay::new("f", c(&[("A", D::I16), ("B", D::Vec3f64), ("C", D::U8)])), Lay::new("t", c(&[("B", D::Vec3f32)]))),
        ("superset", Lay::new("f", c(&[("B", D::Vec3i32)])), Lay::new("t", p(&[("A", D::U8), ("B", D::Vec3f64), ("C", D::I64)], 2))),
        // names that are almost equal are different names
        ("similar", Lay::new("f", c(&[("Ab", D::U8), ("ab", D::U16), ("Ab ", D::F32)])), Lay::new("t", c(&[("AB", D::U16), ("Ab", D::F32), ("A", D::U8)]))),
        ("case", Lay::new("f", c(&[("intensity", D::U16), ("Intensity", D::U16)])), Lay::new("t", p(&[("Intensity", D::U16), ("intensity", D::U16)], 1))),
        ("prefix", Lay::new("f", c(&[("Position3D", D::U8), ("Position", D::U8)])), Lay::new("t", c(&[("Position", D::U8), ("Position3D", D::I8)]))),
        ("opaque", Lay::new("f", c(&[("A", D::ByteArray(5)), ("B", D::ByteArray(3))])), Lay::new("t", c(&[("B", D::ByteArray(3)), ("C", D::U8), ("A", D::ByteArray(5))]))),
        ("disjoint", Lay::new("f", c(&[("A", D::U8), ("B", D::F32)])), Lay::new("t", c(&[("C", D::U16), ("E", D::F64)]))),
    ]
}

fn c18_maps(cx: &mut Cx, fl: &Lay, tl: &Lay, depth: usize) {
    let n = 3;
    // default mappings
    let default: Vec<Map> = tl.attrs.iter().enumerate().filter_map(|(d, t)| fl.attrs.iter().position(|f| f.name() == t.name()).map(|s| (s, d, None))).collect();
    let complete = default.len() == tl.attrs.len();
    let mut alpha = vec![];
    for s in 0..fl.attrs.len() {
        for d in 0..tl.attrs.len() {
            let (a, b) = (fl.attrs[s].datatype(), tl.attrs[d].datatype());
            if a == b || convertible(a, b) {
                alpha.push(Cfg::Map(s, d));
                if all_types().contains(&a) {
                    alpha.push(Cfg::Xf(s, d, true));
                    alpha.push(Cfg::Xf(s, d, false));
                }
            }
        }
    }
    let rp = range_pairs(n);
    for with_default in [false, true] {
        if !with_default && !complete {
            cx.case(
                || "for_layouts with a target attribute that the source does not have".into(),
                |o| {
                    o.step();
                    must_panic(|| "for_layouts without a source for every target attribute".into(), || BufferLayoutConverter::for_layouts(&fl.layout, &tl.layout))
                },
            );
            continue;
        }
        for d in 0..=depth {
            for i in 0..alpha.len().pow(d as u32) {
                let mut k = i;
                let cfg: Vec<Cfg> = (0..d)
                    .map(|_| {
                        let c = alpha[k % alpha.len()].clone();
                        k /= alpha.len();
                        c
                    })
                    .collect();
                cx.case(
                    || format!("{} -> {}, {}, {cfg:?}", fl.layout, tl.layout, if with_default { "for_layouts_with_default" } else { "for_layouts" }),
                    |o| {
                        let mut c = if with_default { BufferLayoutConverter::for_layouts_with_default(&fl.layout, &tl.layout) } else { BufferLayoutConverter::for_layouts(&fl.layout, &tl.layout) };
                        let mut maps = default.clone();
                        for (i, x) in cfg.iter().enumerate() {
                            let new: Map = match x {
                                Cfg::Map(s, d) => {
                                    c.set_custom_mapping(&fl.attrs[*s], &tl.attrs[*d]);
                                    (*s, *d, None)
                                }
                                Cfg::Xf(s, d, src) => {
                                    set_xf(&mut c, &fl.attrs[*s], &tl.attrs[*d], i as u8, *src);
                                    (*s, *d, Some((i as u8, *src)))
                                }
                            };
                            maps.retain(|m| m.1 != new.1);
                            maps.push(new);
                        }
                        o.state(&maps);
                        all_memory(&c, fl, tl, &maps, n, if d < 2 { &rp } else { &rp[..rp.len() / 2] }, o)
                    },
                );
            }
        }
    }
    for n in [15usize, 16, 17, 33, 64, 65, 130, 257, 1025] {
        let h = n / 2;
        let rp = [(0..n, 0..n), (1..n, 0..n - 1), (0..n - 1, 1..n), (h..n, 0..n - h), (0..h, n - h..n), (n - 1..n, 0..1)];
        cx.case(
            || format!("{} -> {}, {n} points", fl.layout, tl.layout),
            |o| {
                let mut c = BufferLayoutConverter::for_layouts_with_default(&fl.layout, &tl.layout);
                let mut maps = default.clone();
                o.state(&n);
                all_memory(&c, fl, tl, &maps, n, &rp, o)?;
                if let Some((s, d, _)) = default.first().copied().filter(|m| all_types().contains(&fl.attrs[m.0].datatype())) {
                    set_xf(&mut c, &fl.attrs[s], &tl.attrs[d], 1, false);
                    maps[0].2 = Some((1, false));
                    all_memory(&c, fl, tl, &maps, n, &rp, o)?;
                }
                Ok(())
            },
        );
    }
    // ranges that do not fit and buffers of other layouts are refused
    for (rs, rt) in [(0..2, 0..3), (0..n + 1, 0..n + 1), (0..1, n..n + 1), (n..n + 1, 0..1), (1..3, 0..1)] {
        cx.case(
            || format!("convert_into_range {rs:?} -> {rt:?} of {n} points"),
            |o| {
                o.step();
                let c = BufferLayoutConverter::for_layouts_with_default(&fl.layout, &tl.layout);
                must_panic(|| "range mismatch".into(), || c.convert_into_range(&fl.vector(&samples_of(fl, n, 0)), rs.clone(), &mut tl.hashmap(&samples_of(tl, n, 1)), rt.clone()))?;
                must_panic(|| "range mismatch".into(), || c.convert_into_range(&fl.hashmap(&samples_of(fl, n, 0)), rs.clone(), &mut tl.vector(&samples_of(tl, n, 1)), rt.clone()))
            },
        );
    }
    cx.case(
        || "buffers whose layouts are not those of the converter".into(),
        |o| {
            o.step();
            let c = BufferLayoutConverter::for_layouts_with_default(&fl.layout, &tl.layout);
            let ol = Lay::new("other", PointLayout::from_attributes(&[attributes::NIR]));
            must_panic(|| "source layout mismatch".into(), || c.convert_into(&ol.vector(&ol.pts(&[1, 2])), &mut tl.vector(&samples_of(tl, 2, 0))))?;
            must_panic(|| "target layout mismatch".into(), || c.convert_into(&fl.vector(&samples_of(fl, 2, 0)), &mut ol.vector(&ol.pts(&[1, 2]))))?;
            must_panic(|| "source layout mismatch".into(), || c.convert::<VectorBuffer, _>(&ol.hashmap(&ol.pts(&[1, 2]))).len())?;
            must_panic(|| "target too short".into(), || c.convert_into(&fl.vector(&samples_of(fl, 3, 0)), &mut tl.vector(&samples_of(tl, 2, 0))))
        },
    );
}

/// Every sequence of source values out of zero and two other values, so that equal neighbours,
/// returning values and leading or trailing zeros all appear, with every kind of transformation
fn c18_values(cx: &mut Cx, a: D, b: D, max: usize) {
    if a != b && !convertible(a, b) {
        return;
    }
    let fl = three(a);
    let tl = Lay::new("t", PointLayout::from_attributes(&[cust("Back", D::I32), cust("X", b)]));
    for x in [None, Some((1, true)), Some((1, false))] {
        let mut c = BufferLayoutConverter::for_layouts(&fl.layout, &tl.layout);
        let mut maps: Vec<Map> = vec![(2, 0, None), (1, 1, None)];
        if let Some((k, s)) = x {
            set_xf(&mut c, &fl.attrs[1], &tl.attrs[1], k, s);
            maps[1].2 = Some((k, s));
        }
        for n in 0..=max {
            for i in 0..3usize.pow(n as u32) {
                let seq: Vec<usize> = (0..n).map(|k| i / 3usize.pow(k as u32) % 3).collect();
                cx.case(
                    || format!("{a} -> {b}, transformation {x:?}, values {seq:?}"),
                    |o| {
                        o.state(&(a, b, x, &seq));
                        let mut src = samples_of(&fl, n, 0);
                        for (p, k) in src.iter_mut().zip(&seq) {
                            p[1] = if *k == 0 { vec![0; fl.sizes[1]] } else { sample(a, *k) };
                        }
                        let r: &[(Range<usize>, Range<usize>)] = if n > 1 { &[(0..n - 1, 1..n), (1..n, 0..n - 1)] } else { &[] };
                        all_memory_of(&c, &fl, &tl, &maps, src, r, o)
                    },
                );
            }
        }
    }
}

pub fn c18(thorough: bool) -> Vec<Shard> {
    let mut v = vec![];
    for a in all_types() {
        v.push(shard(format!("values/{a}"), move |cx| {
            let bs = if thorough { all_types() } else { vec![a, D::U8, D::I32, D::F32, D::F64, D::Vec3f32, D::Vec3f64, D::Vec3i32] };
            for (i, b) in bs.iter().enumerate() {
                if i == 0 || *b != a || thorough {
                    c18_values(cx, a, *b, if thorough { 5 } else { 3 })
                }
            }
        }));
    }
    for (name, f, t) in c18_layouts() {
        let depth = if thorough { 3 } else { 2 };
        v.push(shard(format!("maps/{name}"), move |cx| c18_maps(cx, &f, &t, depth)));
    }
    for a in all_types() {
        v.push(shard(format!("pair/{a}"), move |cx| {
            for b in all_types() {
                let fl = three(a);
                let tl = Lay::new("t", PointLayout::from_attributes(&[cust("Back", D::I32), cust("X", b)]));
                let maps: Vec<Map> = vec![(2, 0, None), (1, 1, None)];
                if a == b || convertible(a, b) {
                    for x in [None, Some((1, true)), Some((1, false))] {
                        cx.case(
                            || format!("{a} -> {b}, transformation {x:?}"),
                            |o| {
                                let mut c = BufferLayoutConverter::for_layouts(&fl.layout, &tl.layout);
                                let mut maps = maps.clone();
                                if let Some((k, s)) = x {
                                    set_xf(&mut c, &fl.attrs[1], &tl.attrs[1], k, s);
                                    maps[1].2 = Some((k, s));
                                }
                                o.state(&(a, b, x));
                                all_memory(&c, &fl, &tl, &maps, 3, &[(0..2, 1..3), (2..3, 0..1)], o)
                            },
                        );
                        cx.case(
                            || format!("{a} -> {b}, transformation {x:?}, all boundary values"),
                            |o| {
                                let mut c = BufferLayoutConverter::for_layouts(&fl.layout, &tl.layout);
                                let mut maps = maps.clone();
                                if let Some((k, s)) = x {
                                    set_xf(&mut c, &fl.attrs[1], &tl.attrs[1], k, s);
                                    maps[1].2 = Some((k, s));
                                }
                                let first = samples_of(&fl, 1, 0).remove(0);
                                let vals = wide(a, if thorough { 20000 } else { 400 });
                                let src: Vec<Pt> = vals.into_iter().map(|x| first.iter().cloned().enumerate().map(|(i, v)| if i == 1 { x.clone() } else { v }).collect()).collect();
                                let n = src.len();
                                all_memory_of(&c, &fl, &tl, &maps, src, &[(0..n - 1, 1..n)], o)
                            },
                        );
                    }
                } else {
                    cx.case(
                        || format!("{a} -> {b}: impossible"),
                        |o| {
                            o.step();
                            must_panic(|| format!("for_layouts {a} -> {b}"), || BufferLayoutConverter::for_layouts(&fl.layout, &tl.layout))?;
                            must_panic(|| format!("for_layouts_with_default {a} -> {b}"), || BufferLayoutConverter::for_layouts_with_default(&fl.layout, &tl.layout))
                        },
                    );
                }
            }
        }));
    }
    v
}

// ---------------------------------------------------------------------------------------------
// C19

fn c19_case(fl: &Lay, tl: &Lay, cap: usize, o: &mut Obs) -> R {
    let c = RawPointConverter::from_to(&fl.layout, &tl.layout);
    let maps: Vec<Map> = tl.attrs.iter().enumerate().filter_map(|(d, t)| fl.attrs.iter().position(|f| f.name() == t.name()).map(|s| (s, d, None))).collect();
    o.state(&maps);
    let mut pts = samples_of(fl, 3, 0);
    for a in 0..fl.attrs.len() {
        if all_types().contains(&fl.attrs[a].datatype()) {
            let p = pts[0].clone();
            pts.extend(wide(fl.attrs[a].datatype(), cap).into_iter().map(|x| {
                let mut p = p.clone();
                p[a] = x;
                p
            }));
        }
    }
    let olds = samples_of(tl, 3, 1);
    for (i, p) in pts.iter().enumerate() {
        o.step();
        let old = &olds[i % 3];
        let src = fl.bytes(p, 0xEE);
        let before = tl.bytes(old, 0xDD);
        let mut dst = before.clone();
        unsafe { c.convert(&src, &mut dst) };
        let e = expected(fl, tl, &maps, p, old);
        let exp = tl.bytes(&e, 0xDD);
        for (a, at) in tl.attrs.iter().enumerate() {
            let r = tl.offs[a]..tl.offs[a] + tl.sizes[a];
            ensure!(same(at.datatype(), &dst[r.clone()], &exp[r.clone()]), "attribute {at}: got {:?}, expected {:?}", &dst[r.clone()], &exp[r]);
        }
        for k in 0..tl.entry {
            if !(0..tl.attrs.len()).any(|a| (tl.offs[a]..tl.offs[a] + tl.sizes[a]).contains(&k)) {
                ensure_eq!(dst[k], before[k], "byte {k}, which belongs to no attribute");
            }
        }
    }
    Ok(())
}
pub fn c19(t: bool) -> Vec<Shard> {
    let mut v = vec![];
    let cap = if t { 20000 } else { 600 };
    for (name, f, t) in c18_layouts() {
        v.push(shard(format!("layouts/{name}"), move |cx| {
            cx.case(|| format!("{} -> {}", f.layout, t.layout), |o| c19_case(&f, &t, cap, o));
            cx.case(|| format!("{} -> {}", t.layout, f.layout), |o| c19_case(&t, &f, cap, o));
            cx.case(|| format!("{} -> {}", f.layout, f.layout), |o| c19_case(&f, &f, cap, o));
        }));
    }
    for a in all_types() {
        v.push(shard(format!("pair/{a}"), move |cx| {
            for b in all_types() {
                if a != b && !convertible(a, b) {
                    continue;
                }
                for pos in 0..3 {
                    let fl = three(a);
                    let mut at = vec![cust("Back", D::U16), cust("Other", D::U64)];
                    at.insert(pos, cust("X", b));
                    let tl = Lay::new("t", PointLayout::from_attributes(&at));
                    cx.case(|| format!("{a} -> {b}, target position {pos}"), |o| c19_case(&fl, &tl, cap, o));
                }
            }
        }));
    }
    v
}
