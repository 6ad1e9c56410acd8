//! Reference model of points for the readers and writers: every attribute value is a list of numbers.
use pasture_core::containers::*;
use pasture_core::layout::*;
use std::collections::BTreeMap;
use PointAttributeDataType as D;

/// Attribute name → components
pub type Pt = BTreeMap<String, Vec<f64>>;

/// Type of the components and their number
pub fn parts(d: D) -> (D, usize) {
    match d {
        D::Vec3u8 => (D::U8, 3),
        D::Vec3u16 => (D::U16, 3),
        D::Vec3f32 => (D::F32, 3),
        D::Vec3i32 => (D::I32, 3),
        D::Vec3f64 => (D::F64, 3),
        D::Vec4u8 => (D::U8, 4),
        D::ByteArray(n) => (D::U8, n as usize),
        d => (d, 1),
    }
}
pub fn width(d: D) -> usize {
    match d {
        D::U8 | D::I8 => 1,
        D::U16 | D::I16 => 2,
        D::U32 | D::I32 | D::F32 => 4,
        _ => 8,
    }
}
pub fn encode(d: D, v: &[f64]) -> Vec<u8> {
    let (c, n) = parts(d);
    assert_eq!(n, v.len(), "{d}");
    let mut b = vec![];
    for v in v {
        let v = *v;
        match c {
            D::U8 => b.push(v as u8),
            D::I8 => b.push(v as i8 as u8),
            D::U16 => b.extend((v as u16).to_ne_bytes()),
            D::I16 => b.extend((v as i16).to_ne_bytes()),
            D::U32 => b.extend((v as u32).to_ne_bytes()),
            D::I32 => b.extend((v as i32).to_ne_bytes()),
            D::U64 => b.extend((v as u64).to_ne_bytes()),
            D::I64 => b.extend((v as i64).to_ne_bytes()),
            D::F32 => b.extend((v as f32).to_ne_bytes()),
            D::F64 => b.extend(v.to_ne_bytes()),
            _ => unreachable!(),
        }
    }
    b
}
pub fn decode(d: D, b: &[u8]) -> Vec<f64> {
    let (c, _) = parts(d);
    b.chunks(width(c))
        .map(|x| match c {
            D::U8 => x[0] as f64,
            D::I8 => x[0] as i8 as f64,
            D::U16 => u16::from_ne_bytes(x.try_into().unwrap()) as f64,
            D::I16 => i16::from_ne_bytes(x.try_into().unwrap()) as f64,
            D::U32 => u32::from_ne_bytes(x.try_into().unwrap()) as f64,
            D::I32 => i32::from_ne_bytes(x.try_into().unwrap()) as f64,
            D::U64 => u64::from_ne_bytes(x.try_into().unwrap()) as f64,
            D::I64 => i64::from_ne_bytes(x.try_into().unwrap()) as f64,
            D::F32 => f32::from_ne_bytes(x.try_into().unwrap()) as f64,
            D::F64 => f64::from_ne_bytes(x.try_into().unwrap()),
            _ => unreachable!(),
        })
        .collect()
}
/// The value after a conversion to the given type and back
pub fn cast(d: D, v: &[f64]) -> Vec<f64> {
    decode(d, &encode(d, v))
}

pub fn put<'a, B: BorrowedMutBuffer<'a>>(b: &mut B, i: usize, a: &PointAttributeDefinition, v: &[f64]) {
    unsafe { b.set_attribute(a, i, &encode(a.datatype(), v)) }
}
pub fn take<'a, B: BorrowedBuffer<'a>>(b: &B, i: usize, a: &PointAttributeDefinition) -> Vec<f64> {
    let mut m = vec![0; a.size() as usize];
    b.get_attribute(a, i, &mut m);
    decode(a.datatype(), &m)
}

pub fn defs(l: &PointLayout) -> Vec<PointAttributeDefinition> {
    l.attributes().map(|a| a.attribute_definition().clone()).collect()
}
pub fn fill<'a, B: BorrowedMutBuffer<'a>>(b: &mut B, p: &[Pt]) {
    for a in defs(b.point_layout()) {
        for (i, p) in p.iter().enumerate() {
            if let Some(v) = p.get(a.name()) {
                put(b, i, &a, v);
            }
        }
    }
}
pub fn vector(l: &PointLayout, p: &[Pt]) -> VectorBuffer {
    let mut b = VectorBuffer::new_from_layout(l.clone());
    b.resize(p.len());
    fill(&mut b, p);
    b
}
pub fn hashmap(l: &PointLayout, p: &[Pt]) -> HashMapBuffer {
    let mut b = HashMapBuffer::new_from_layout(l.clone());
    b.resize(p.len());
    fill(&mut b, p);
    b
}
pub fn external(l: &PointLayout, p: &[Pt]) -> ExternalMemoryBuffer<Vec<u8>> {
    let mut b = ExternalMemoryBuffer::new(vec![0xEE; l.size_of_point_entry() as usize * p.len()], l.clone());
    fill(&mut b, p);
    b
}
pub fn contents<'a, B: BorrowedBuffer<'a>>(b: &B) -> Vec<Pt> {
    let d = defs(b.point_layout());
    (0..b.len()).map(|i| d.iter().map(|a| (a.name().to_string(), take(b, i, a))).collect()).collect()
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Vector,
    HashMap,
    External,
    Slice,
    HashMapSlice,
}
pub const KINDS: [Kind; 5] = [Kind::Vector, Kind::HashMap, Kind::External, Kind::Slice, Kind::HashMapSlice];
/// Runs `$e` with `$b` bound to a reference to a buffer of the given kind, layout and contents
#[macro_export]
macro_rules! with_buf {
    ($kind:expr, $l:expr, $p:expr, $b:ident, $e:expr) => {{
        use pasture_core::containers::*;
        let around = |p: &[$crate::pts::Pt]| -> Vec<$crate::pts::Pt> {
            let pad = p.first().cloned().unwrap_or_default();
            let mut v = vec![pad.clone()];
            v.extend(p.iter().cloned());
            v.push(pad);
            v
        };
        let n = $p.len();
        match $kind {
            $crate::pts::Kind::Vector => {
                let b = $crate::pts::vector($l, $p);
                let $b = &b;
                $e
            }
            $crate::pts::Kind::HashMap => {
                let b = $crate::pts::hashmap($l, $p);
                let $b = &b;
                $e
            }
            $crate::pts::Kind::External => {
                let b = $crate::pts::external($l, $p);
                let $b = &b;
                $e
            }
            $crate::pts::Kind::Slice => {
                let b = $crate::pts::vector($l, &around($p));
                let s = b.slice(1..1 + n);
                let $b = &s;
                $e
            }
            $crate::pts::Kind::HashMapSlice => {
                let b = $crate::pts::hashmap($l, &around($p));
                let s = b.slice(1..1 + n);
                let $b = &s;
                $e
            }
        }
    }};
}
/// NaN equals NaN
pub fn same(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a == b || (a.is_nan() && b.is_nan()))
}
