//! Layout alphabet and the reference model of a point buffer: a plain sequence of points, each
//! point being the list of its attribute values (as bytes).
use fw::*;
use pasture_core::containers::*;
use pasture_core::layout::attributes::*;
use pasture_core::layout::*;
use std::borrow::Cow;
use std::ops::Range;

pub type Pt = Vec<Vec<u8>>;

#[derive(Clone)]
pub struct Lay {
    pub name: &'static str,
    pub layout: PointLayout,
    pub attrs: Vec<PointAttributeDefinition>,
    pub offs: Vec<usize>,
    pub sizes: Vec<usize>,
    pub entry: usize,
}

impl Lay {
    pub fn new(name: &'static str, layout: PointLayout) -> Lay {
        let attrs: Vec<_> = layout.attributes().map(|a| a.attribute_definition().clone()).collect();
        let offs = layout.attributes().map(|a| a.offset() as usize).collect();
        let sizes = layout.attributes().map(|a| a.size() as usize).collect();
        let entry = layout.size_of_point_entry() as usize;
        Lay { name, layout, attrs, offs, sizes, entry }
    }
    /// Point number `k`; `k == 0` is the zero point.
    pub fn pt(&self, k: u8) -> Pt {
        self.sizes
            .iter()
            .enumerate()
            .map(|(a, s)| (0..*s).map(|b| if k == 0 { 0 } else { aval(k, a, b) }).collect())
            .collect()
    }
    pub fn val(&self, k: u8, a: usize) -> Vec<u8> {
        self.pt(k)[a].clone()
    }
    /// Interleaved memory of one point; bytes that belong to no attribute get `pad`.
    pub fn bytes(&self, p: &Pt, pad: u8) -> Vec<u8> {
        let mut v = vec![pad; self.entry];
        for (a, x) in p.iter().enumerate() {
            v[self.offs[a]..self.offs[a] + self.sizes[a]].copy_from_slice(x);
        }
        v
    }
    pub fn bytes_of(&self, ps: &[Pt], pad: u8) -> Vec<u8> {
        ps.iter().flat_map(|p| self.bytes(p, pad)).collect()
    }
    pub fn pts(&self, ids: &[u8]) -> Vec<Pt> {
        ids.iter().map(|k| self.pt(*k)).collect()
    }
    pub fn entry_eq(&self, mem: &[u8], p: &Pt) -> bool {
        mem.len() == self.entry
            && p.iter().enumerate().all(|(a, x)| &mem[self.offs[a]..self.offs[a] + self.sizes[a]] == x.as_slice())
    }
    pub fn vector(&self, ps: &[Pt]) -> VectorBuffer {
        let mut b = VectorBuffer::new_from_layout(self.layout.clone());
        if self.entry > 0 {
            unsafe { b.push_points(&self.bytes_of(ps, 0xEE)) };
        } else {
            b.resize(ps.len());
        }
        b
    }
    pub fn hashmap(&self, ps: &[Pt]) -> HashMapBuffer {
        let mut b = HashMapBuffer::new_from_layout(self.layout.clone());
        b.resize(ps.len());
        for (i, p) in ps.iter().enumerate() {
            for (a, x) in p.iter().enumerate() {
                unsafe { b.set_attribute(&self.attrs[a], i, x) };
            }
        }
        b
    }
    pub fn external(&self, ps: &[Pt]) -> ExternalMemoryBuffer<Vec<u8>> {
        ExternalMemoryBuffer::new(self.bytes_of(ps, 0xEE), self.layout.clone())
    }
}

fn aval(k: u8, a: usize, b: usize) -> u8 {
    // distinct for every (point, attribute) pair, also in the first byte
    k.wrapping_mul(0x31).wrapping_add((a as u8).wrapping_mul(0x0b)).wrapping_add((b as u8).wrapping_mul(0x47)) | 1
}

pub fn cust(name: &'static str, d: PointAttributeDataType) -> PointAttributeDefinition {
    PointAttributeDefinition::custom(Cow::Borrowed(name), d)
}

/// The layout alphabet of the buffer explorations.
pub fn lays() -> Vec<Lay> {
    use PointAttributeDataType as D;
    vec![
        Lay::new("u8", PointLayout::from_attributes(&[CLASSIFICATION])),
        // repr(C) with inner and trailing padding
        Lay::new("c_padded", PointLayout::from_attributes(&[INTENSITY, cust("W", D::U64), CLASSIFICATION])),
        // packed(1), odd offsets
        Lay::new(
            "packed",
            PointLayout::from_attributes_packed(&[CLASSIFICATION, INTENSITY, cust("I", D::I32), cust("B", D::ByteArray(3))], 1),
        ),
        // member order differs from memory order, gap in front, in the middle and at the end
        Lay::new(
            "reordered",
            PointLayout::from_members_and_alignment(
                &[
                    INTENSITY.at_offset_in_type(10),
                    cust("F", D::F32).at_offset_in_type(4),
                    CLASSIFICATION.at_offset_in_type(1),
                ],
                4,
            ),
        ),
    ]
}
pub fn lays_more() -> Vec<Lay> {
    use PointAttributeDataType as D;
    vec![
        Lay::new("vecs", PointLayout::from_attributes(&[POSITION_3D, COLOR_RGB])),
        // also: names that are almost equal
        Lay::new("same_type", PointLayout::from_attributes(&[RETURN_NUMBER, cust("returnNumber", D::U8), cust("ReturnNumber ", D::U8)])),
        Lay::new(
            "custom",
            PointLayout::from_attributes(&[
                cust("C", D::Custom { size: 5, min_alignment: 1, name: uuid::Uuid::from_u128(7) }),
                cust("V", D::Vec4u8),
            ]),
        ),
        Lay::new("packed2", PointLayout::from_attributes_packed(&[CLASSIFICATION, cust("W", D::U64), INTENSITY], 2)),
    ]
}
pub fn empty_lay() -> Lay {
    Lay::new("empty", PointLayout::default())
}

#[derive(Copy, Clone, PartialEq, Eq, Debug, Hash)]
pub enum Mem {
    Inter,
    Col,
    /// neither advertised
    Any,
}

/// 0..=n for small n, otherwise the positions around powers of two, the middle and both ends.
pub fn picks(n: usize) -> Vec<usize> {
    if n <= 10 {
        return (0..=n).collect();
    }
    let mut v = vec![0, 1, 2, n / 2, n - 2, n - 1, n];
    for p in [8usize, 16, 32, 64, 128, 256, 1024] {
        v.extend([p - 1, p, p + 1]);
    }
    v.retain(|i| *i <= n);
    v.sort();
    v.dedup();
    v
}
/// Indices of `n` points, as `picks`.
pub fn indices(n: usize) -> Vec<usize> {
    picks(n).into_iter().filter(|i| *i < n).collect()
}
pub fn ranges(n: usize) -> Vec<Range<usize>> {
    let mut v = vec![];
    let mut p = picks(n);
    if n > 200 {
        p = vec![0, 1, 63, 128, n - 1, n];
    }
    for (k, s) in p.iter().enumerate() {
        for e in &p[k..] {
            v.push(*s..*e);
        }
    }
    v
}

/// Compares everything readable through the buffer traits with the model.
pub fn observe<'a, B: BorrowedBuffer<'a>>(b: &B, l: &Lay, m: &[Pt], mem: Mem) -> R {
    let n = m.len();
    ensure_eq!(b.len(), n, "len()");
    ensure_eq!(b.is_empty(), n == 0, "is_empty()");
    ensure!(*b.point_layout() == l.layout, "point_layout() changed");
    let mut tmp = vec![0u8; l.entry];
    for i in 0..n {
        tmp.fill(0x5A);
        b.get_point(i, &mut tmp);
        ensure!(l.entry_eq(&tmp, &m[i]), "get_point({i}): got {:?}, expected attributes {:?}", tmp, m[i]);
        for (a, at) in l.attrs.iter().enumerate() {
            let mut v = vec![0x5Au8; l.sizes[a]];
            b.get_attribute(at, i, &mut v);
            ensure_eq!(v, m[i][a], "get_attribute({at}, {i})");
            v.fill(0xA5);
            let member = b.point_layout().get_attribute(at).unwrap().clone();
            unsafe { b.get_attribute_unchecked(&member, i, &mut v) };
            ensure_eq!(v, m[i][a], "get_attribute_unchecked({at}, {i})");
        }
    }
    for r in ranges(n) {
        let mut v = vec![0x5Au8; l.entry * r.len()];
        b.get_point_range(r.clone(), &mut v);
        if l.entry > 0 {
            for (k, c) in v.chunks(l.entry).enumerate() {
                ensure!(l.entry_eq(c, &m[r.start + k]), "get_point_range({r:?})[{k}]: got {:?}, expected {:?}", c, m[r.start + k]);
            }
        }
        for (a, at) in l.attrs.iter().enumerate() {
            let exp: Vec<u8> = m[r.clone()].iter().flat_map(|p| p[a].clone()).collect();
            let mut v = vec![0x5Au8; exp.len()];
            b.get_attribute_range(at, r.clone(), &mut v);
            ensure_eq!(v, exp, "get_attribute_range({at}, {r:?})");
        }
    }
    match (mem, b.as_interleaved().is_some(), b.as_columnar().is_some()) {
        (Mem::Inter, true, false) | (Mem::Col, false, true) | (Mem::Any, _, _) => {}
        (m, i, c) => return Err(format!("memory layout {m:?}: as_interleaved={i} as_columnar={c}")),
    }
    if let Some(ib) = b.as_interleaved() {
        observe_inter(ib, l, m)?;
    }
    if let Some(cb) = b.as_columnar() {
        observe_col(cb, l, m)?;
    }
    Ok(())
}

pub fn observe_inter<'a, B: InterleavedBuffer<'a> + ?Sized>(b: &B, l: &Lay, m: &[Pt]) -> R {
    let n = m.len();
    for i in 0..n {
        let p = b.get_point_ref(i);
        ensure!(l.entry_eq(p, &m[i]), "get_point_ref({i}): got {:?}, expected {:?}", p, m[i]);
    }
    for r in ranges(n) {
        let p = b.get_point_range_ref(r.clone());
        ensure_eq!(p.len(), r.len() * l.entry, "get_point_range_ref({r:?}).len()");
        if l.entry > 0 {
            for (k, c) in p.chunks(l.entry).enumerate() {
                ensure!(l.entry_eq(c, &m[r.start + k]), "get_point_range_ref({r:?})[{k}]: got {:?}, expected {:?}", c, m[r.start + k]);
            }
        }
    }
    for (a, at) in l.attrs.iter().enumerate() {
        let member = b.point_layout().get_attribute(at).unwrap().clone();
        let v = b.view_raw_attribute(&member);
        ensure_eq!(v.len(), n, "raw view len({at})");
        ensure_eq!(v.is_empty(), n == 0, "raw view is_empty({at})");
        for i in 0..n {
            ensure_eq!(&v[i], m[i][a].as_slice(), "raw view({at})[{i}]");
        }
    }
    Ok(())
}

pub fn observe_col<'a, B: ColumnarBuffer<'a> + ?Sized>(b: &B, l: &Lay, m: &[Pt]) -> R {
    let n = m.len();
    for (a, at) in l.attrs.iter().enumerate() {
        for i in 0..n {
            ensure_eq!(b.get_attribute_ref(at, i), m[i][a].as_slice(), "get_attribute_ref({at}, {i})");
        }
        for r in ranges(n) {
            let exp: Vec<u8> = m[r.clone()].iter().flat_map(|p| p[a].clone()).collect();
            ensure_eq!(b.get_attribute_range_ref(at, r.clone()), exp.as_slice(), "get_attribute_range_ref({at}, {r:?})");
        }
        let member = b.point_layout().get_attribute(at).unwrap().clone();
        let v = b.view_raw_attribute(&member);
        ensure_eq!(v.len(), n, "raw view len({at})");
        ensure_eq!(v.is_empty(), n == 0, "raw view is_empty({at})");
        for i in 0..n {
            ensure_eq!(&v[i], m[i][a].as_slice(), "raw view({at})[{i}]");
        }
    }
    Ok(())
}

/// Out-of-range reads must be refused.
pub fn observe_oob<'a, B: BorrowedBuffer<'a>>(b: &B, l: &Lay, n: usize) -> R {
    if l.attrs.is_empty() {
        return Ok(());
    }
    let e = l.entry;
    for i in [n, n + 1, n + 7] {
        let mut t = vec![0u8; e];
        must_panic(|| format!("get_point({i}) with len {n}"), || b.get_point(i, &mut t))?;
        for (a, at) in l.attrs.iter().enumerate() {
            let mut t = vec![0u8; l.sizes[a]];
            must_panic(|| format!("get_attribute({at}, {i}) with len {n}"), || b.get_attribute(at, i, &mut t))?;
            must_panic(|| format!("get_attribute_range({at}, {i}..{}) with len {n}", i + 1), || b.get_attribute_range(at, i..i + 1, &mut t))?;
        }
        let mut t = vec![0u8; e];
        must_panic(|| format!("get_point_range({i}..{}) with len {n}", i + 1), || b.get_point_range(i..i + 1, &mut t))?;
        if let Some(ib) = b.as_interleaved() {
            must_panic(|| format!("get_point_ref({i}) with len {n}"), || ib.get_point_ref(i).len())?;
            must_panic(|| format!("get_point_range_ref({i}..{}) with len {n}", i + 1), || ib.get_point_range_ref(i..i + 1).len())?;
            for at in l.attrs.iter() {
                let member = b.point_layout().get_attribute(at).unwrap().clone();
                must_panic(|| format!("raw view({at})[{i}] with len {n}"), || ib.view_raw_attribute(&member)[i].len())?;
            }
        }
        if let Some(cb) = b.as_columnar() {
            for at in l.attrs.iter() {
                let member = b.point_layout().get_attribute(at).unwrap().clone();
                must_panic(|| format!("get_attribute_ref({at},{i}) with len {n}"), || cb.get_attribute_ref(at, i).len())?;
                must_panic(|| format!("get_attribute_range_ref({at},{i}..{}) with len {n}", i + 1), || cb.get_attribute_range_ref(at, i..i + 1).len())?;
                must_panic(|| format!("raw view({at})[{i}] with len {n}"), || cb.view_raw_attribute(&member)[i].len())?;
            }
        }
    }
    let mut t = vec![0u8; e * (n + 1)];
    must_panic(|| format!("get_point_range(0..{}) with len {n}", n + 1), || b.get_point_range(0..n + 1, &mut t))?;
    // attributes that are not part of the layout: unknown name, known name with another datatype
    let mut t = vec![0u8; 24];
    let unknown = cust("NoSuchAttribute", l.attrs[0].datatype());
    let s = unknown.size() as usize;
    must_panic(|| format!("get_attribute({unknown})"), || b.get_attribute(&unknown, 0, &mut t[..s]))?;
    let other = l.attrs[0].with_custom_datatype(if l.attrs[0].datatype() == PointAttributeDataType::I8 { PointAttributeDataType::U8 } else { PointAttributeDataType::I8 });
    must_panic(|| format!("get_attribute({other})"), || b.get_attribute(&other, 0, &mut t[..1]))?;
    Ok(())
}
