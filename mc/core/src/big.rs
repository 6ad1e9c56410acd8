//! Buffer sizes around powers of two up to 65537 points, points with many attributes and points
//! with long attributes, for the properties whose exhaustive explorations use a few small points.
//! Every check is linear in the number of points; the values of neighbouring, distant and
//! power-of-two-distant points differ.
use crate::all_types;
use crate::conv::{oracle, same};
use crate::lay::*;
use crate::types::*;
use fw::*;
use pasture_core::containers::*;
use pasture_core::layout::attributes::*;
use pasture_core::layout::conversion::*;
use pasture_core::layout::*;
use std::ops::Range;

fn mix(a: u64) -> u64 {
    let mut z = a.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(0x1234_5678_9ABC_DEF1);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
/// Value of attribute `a` of point number `i`; a number below 65521 in the representation of the type.
fn value(d: PointAttributeDataType, size: usize, a: usize, i: usize) -> Vec<u8> {
    use PointAttributeDataType as D;
    let x = mix(i as u64 * 64 + a as u64) % 65521;
    match d {
        D::F32 => (x as f32 * 0.5).to_ne_bytes().to_vec(),
        D::F64 => (x as f64 * 0.5).to_ne_bytes().to_vec(),
        D::Vec3f32 => (0..3).flat_map(|k| (x as f32 * 0.25 + k as f32).to_ne_bytes()).collect(),
        D::Vec3f64 => (0..3).flat_map(|k| (x as f64 * 0.25 + k as f64).to_ne_bytes()).collect(),
        D::U8 | D::I8 => vec![x as u8],
        D::U16 | D::I16 => (x as u16).to_ne_bytes().to_vec(),
        D::U32 | D::I32 => (x as u32).to_ne_bytes().to_vec(),
        D::U64 | D::I64 => x.to_ne_bytes().to_vec(),
        _ => (0..size).map(|b| (mix(x * 512 + b as u64) & 0xff) as u8).collect(),
    }
}

/// A sequence of points, one byte column per attribute.
#[derive(Clone, PartialEq)]
struct Flat {
    n: usize,
    cols: Vec<Vec<u8>>,
}
impl Flat {
    /// Points with the numbers in `ids`.
    fn of(l: &Lay, ids: impl Iterator<Item = usize> + Clone) -> Flat {
        Flat { n: ids.clone().count(), cols: (0..l.attrs.len()).map(|a| ids.clone().flat_map(|i| value(l.attrs[a].datatype(), l.sizes[a], a, i)).collect()).collect() }
    }
    fn sub(&self, l: &Lay, r: Range<usize>) -> Flat {
        Flat { n: r.len(), cols: (0..l.attrs.len()).map(|a| self.cols[a][r.start * l.sizes[a]..r.end * l.sizes[a]].to_vec()).collect() }
    }
    fn put(&mut self, l: &Lay, at: usize, o: &Flat) {
        for a in 0..l.attrs.len() {
            self.cols[a][at * l.sizes[a]..(at + o.n) * l.sizes[a]].copy_from_slice(&o.cols[a]);
        }
    }
    fn extend(&mut self, o: &Flat) {
        self.n += o.n;
        for (c, d) in self.cols.iter_mut().zip(&o.cols) {
            c.extend_from_slice(d);
        }
    }
    fn resize(&mut self, l: &Lay, n: usize) {
        self.n = n;
        for a in 0..l.attrs.len() {
            self.cols[a].resize(n * l.sizes[a], 0);
        }
    }
    fn keep(&self, l: &Lay, f: impl Fn(usize) -> bool) -> Flat {
        let mut r = Flat { n: 0, cols: vec![vec![]; l.attrs.len()] };
        for i in (0..self.n).filter(|i| f(*i)) {
            r.n += 1;
            for a in 0..l.attrs.len() {
                r.cols[a].extend_from_slice(self.val(l, a, i));
            }
        }
        r
    }
    fn val(&self, l: &Lay, a: usize, i: usize) -> &[u8] {
        &self.cols[a][i * l.sizes[a]..(i + 1) * l.sizes[a]]
    }
    fn swap(&mut self, l: &Lay, i: usize, j: usize) {
        let (x, y) = (self.sub(l, i..i + 1), self.sub(l, j..j + 1));
        self.put(l, i, &y);
        self.put(l, j, &x);
    }
    fn mem(&self, l: &Lay, pad: u8) -> Vec<u8> {
        let mut v = vec![pad; l.entry * self.n];
        for a in 0..l.attrs.len() {
            for (i, x) in self.cols[a].chunks_exact(l.sizes[a]).enumerate() {
                v[i * l.entry + l.offs[a]..][..l.sizes[a]].copy_from_slice(x);
            }
        }
        v
    }
    fn vector(&self, l: &Lay) -> VectorBuffer {
        let mut b = VectorBuffer::new_from_layout(l.layout.clone());
        unsafe { b.push_points(&self.mem(l, 0xEE)) };
        b
    }
    fn hashmap(&self, l: &Lay) -> HashMapBuffer {
        let mut b = HashMapBuffer::new_from_layout(l.layout.clone());
        b.resize(self.n);
        for a in 0..l.attrs.len() {
            unsafe { b.set_attribute_range(&l.attrs[a], 0..self.n, &self.cols[a]) };
        }
        b
    }
    fn external(&self, l: &Lay) -> ExternalMemoryBuffer<Vec<u8>> {
        ExternalMemoryBuffer::new(self.mem(l, 0xEE), l.layout.clone())
    }
}

/// The first differing attribute value of interleaved memory.
fn cmp_mem(l: &Lay, mem: &[u8], e: &Flat, what: &dyn Fn() -> String) -> R {
    ensure_eq!(mem.len(), e.n * l.entry, "bytes of {}", what());
    if l.sizes.iter().sum::<usize>() == l.entry && mem == e.mem(l, 0) {
        return Ok(());
    }
    for a in 0..l.attrs.len() {
        for (i, x) in e.cols[a].chunks_exact(l.sizes[a]).enumerate() {
            let got = &mem[i * l.entry + l.offs[a]..][..l.sizes[a]];
            if got != x {
                return Err(format!("{}: attribute {} of point {i} of {}: got {got:?}, expected {x:?}", what(), l.attrs[a], e.n));
            }
        }
    }
    Ok(())
}
fn cmp_col(l: &Lay, a: usize, col: &[u8], e: &Flat, what: &dyn Fn() -> String) -> R {
    ensure_eq!(col.len(), e.cols[a].len(), "bytes of {}", what());
    if col != e.cols[a].as_slice() {
        let i = col.iter().zip(&e.cols[a]).position(|(x, y)| x != y).unwrap() / l.sizes[a];
        return Err(format!("{}: attribute {} of point {i} of {}: got {:?}, expected {:?}", what(), l.attrs[a], e.n, &col[i * l.sizes[a]..(i + 1) * l.sizes[a]], e.val(l, a, i)));
    }
    Ok(())
}
fn spots(n: usize) -> Vec<usize> {
    let mut v = vec![0, 1, 2, n / 3, n / 2, n.saturating_sub(2), n.saturating_sub(1)];
    for k in 3..18 {
        let p = 1usize << k;
        v.extend([p - 1, p, p + 1]);
    }
    v.retain(|i| *i < n);
    v.sort();
    v.dedup();
    v
}
fn windows(n: usize) -> Vec<Range<usize>> {
    if n > 5000 {
        // fewer of them: every one costs time in proportion to the number of points
        let mut v = vec![0..n, 1..n - 1, 0..0, n..n, n - 1..n];
        for k in [8, 10, 12, 15, 16] {
            let p = 1usize << k;
            if n > p {
                v.extend([p - 1..p + 1]);
            }
        }
        if n > 1 << 16 {
            v.push(1 << 16..n);
        }
        return v;
    }
    let mut v = vec![0..n, 0..0, n..n, 0..n / 2, n / 2..n];
    if n > 2 {
        v.extend([1..n, 0..n - 1, 1..n - 1, n - 1..n]);
    }
    for k in [8, 10, 12, 15, 16] {
        let p = 1usize << k;
        if n > p {
            v.extend([p..n, 0..p, p - 1..p + 1, 1..p + 1]);
        }
    }
    v
}

fn look<'a, B: BorrowedBuffer<'a>>(b: &B, l: &Lay, e: &Flat) -> R {
    let n = e.n;
    ensure_eq!(b.len(), n, "len()");
    ensure_eq!(b.is_empty(), n == 0, "is_empty()");
    for r in windows(n) {
        let s = e.sub(l, r.clone());
        let mut v = vec![0x5A; r.len() * l.entry];
        b.get_point_range(r.clone(), &mut v);
        cmp_mem(l, &v, &s, &|| format!("get_point_range({r:?})"))?;
        for a in 0..l.attrs.len() {
            let mut v = vec![0x5A; r.len() * l.sizes[a]];
            b.get_attribute_range(&l.attrs[a], r.clone(), &mut v);
            cmp_col(l, a, &v, &s, &|| format!("get_attribute_range({r:?})"))?;
        }
    }
    let mut t = vec![0u8; l.entry];
    for i in if n <= 5000 { (0..n).collect() } else { spots(n) } {
        b.get_point(i, &mut t);
        cmp_mem(l, &t, &e.sub(l, i..i + 1), &|| format!("get_point({i})"))?;
        for a in 0..l.attrs.len() {
            let mut v = vec![0x5A; l.sizes[a]];
            b.get_attribute(&l.attrs[a], i, &mut v);
            ensure_eq!(v.as_slice(), e.val(l, a, i), "get_attribute({}, {i})", l.attrs[a]);
        }
    }
    if let Some(b) = b.as_interleaved() {
        look_inter(b, l, e)?;
    }
    if let Some(b) = b.as_columnar() {
        look_col(b, l, e)?;
    }
    for i in [n, n + 1, 2 * n + 1] {
        let mut t = vec![0u8; l.entry];
        must_panic(|| format!("get_point({i}) with len {n}"), || b.get_point(i, &mut t))?;
        let mut t = vec![0u8; l.sizes[0]];
        must_panic(|| format!("get_attribute({i}) with len {n}"), || b.get_attribute(&l.attrs[0], i, &mut t))?;
    }
    Ok(())
}
fn look_inter<'a, B: InterleavedBuffer<'a> + ?Sized>(b: &B, l: &Lay, e: &Flat) -> R {
    let n = e.n;
    for r in windows(n) {
        cmp_mem(l, b.get_point_range_ref(r.clone()), &e.sub(l, r.clone()), &|| format!("get_point_range_ref({r:?})"))?;
    }
    for i in spots(n) {
        cmp_mem(l, b.get_point_ref(i), &e.sub(l, i..i + 1), &|| format!("get_point_ref({i})"))?;
    }
    for a in 0..l.attrs.len() {
        let m = b.point_layout().get_attribute(&l.attrs[a]).unwrap().clone();
        let v = b.view_raw_attribute(&m);
        ensure_eq!(v.len(), n, "raw view len");
        for i in spots(n) {
            ensure_eq!(&v[i], e.val(l, a, i), "raw view of {} [{i}]", l.attrs[a]);
        }
    }
    must_panic(|| format!("get_point_ref({n}) with len {n}"), || b.get_point_ref(n).len())
}
fn look_col<'a, B: ColumnarBuffer<'a> + ?Sized>(b: &B, l: &Lay, e: &Flat) -> R {
    let n = e.n;
    for a in 0..l.attrs.len() {
        for r in windows(n) {
            cmp_col(l, a, b.get_attribute_range_ref(&l.attrs[a], r.clone()), &e.sub(l, r.clone()), &|| format!("get_attribute_range_ref({r:?})"))?;
        }
        let m = b.point_layout().get_attribute(&l.attrs[a]).unwrap().clone();
        let v = b.view_raw_attribute(&m);
        ensure_eq!(v.len(), n, "raw view len");
        for i in spots(n) {
            ensure_eq!(b.get_attribute_ref(&l.attrs[a], i), e.val(l, a, i), "get_attribute_ref({}, {i})", l.attrs[a]);
            ensure_eq!(&v[i], e.val(l, a, i), "raw view of {} [{i}]", l.attrs[a]);
        }
    }
    must_panic(|| format!("get_attribute_ref({n}) with len {n}"), || b.get_attribute_ref(&l.attrs[0], n).len())
}

/// Many attributes of varying size; one very long attribute; points of more than a kibibyte.
pub fn odd_lays() -> Vec<Lay> {
    use PointAttributeDataType as D;
    const NAMES: [&str; 33] = [
        "A00", "A01", "A02", "A03", "A04", "A05", "A06", "A07", "A08", "A09", "A10", "A11", "A12", "A13", "A14", "A15", "A16", "A17", "A18", "A19", "A20", "A21", "A22", "A23", "A24", "A25", "A26",
        "A27", "A28", "A29", "A30", "A31", "A32",
    ];
    let types = [D::U8, D::U16, D::Vec3f64, D::I32, D::Vec3u8, D::F32, D::U64, D::ByteArray(5), D::I8, D::Vec4u8];
    let wide: Vec<_> = NAMES.iter().enumerate().map(|(i, n)| cust(n, types[i * 7 % 10])).collect();
    vec![
        Lay::new("wide", PointLayout::from_attributes(&wide)),
        Lay::new("wide_packed", PointLayout::from_attributes_packed(&wide, 1)),
        Lay::new("bulk", PointLayout::from_attributes(&[CLASSIFICATION, cust("Bulk", D::ByteArray(300)), INTENSITY])),
        Lay::new("bulk_packed", PointLayout::from_attributes_packed(&[cust("Wave", D::ByteArray(1025)), CLASSIFICATION, cust("B", D::ByteArray(255)), cust("C", D::ByteArray(256)), INTENSITY], 1)),
    ]
}
fn sizes(l: &Lay, thorough: bool) -> Vec<usize> {
    if l.entry > 100 {
        return vec![0, 1, 2, 3, 4, 5, 16, 17, 255, 256, 257];
    }
    if thorough {
        let mut v: Vec<usize> = (7..17).flat_map(|k| [(1 << k) - 1, 1 << k, (1 << k) + 1]).collect();
        v.extend([1000, 10_000, 100_000]);
        return v;
    }
    vec![100, 255, 256, 257, 512, 1000, 1023, 1024, 1025, 2049, 4095, 4096, 4097, 8193, 16385, 32769, 65535, 65536, 65537]
}

/// Runs `f` for every layout, size and kind of buffer.
fn each(prop: &'static str, thorough: bool, kinds: &'static [&'static str], f: fn(&Lay, usize, &str, &mut Obs) -> R) -> Vec<Shard> {
    let mut v = vec![];
    for l in lays().into_iter().chain(lays_more().into_iter().take(if thorough { 9 } else { 2 })).chain(odd_lays()) {
        for part in 0..4 {
        let l = l.clone();
        v.push(shard(format!("big/{prop}/{}/{part}", l.name), move |cx| {
            for n in sizes(&l, thorough).into_iter().rev().skip(part).step_by(4) {
                for k in kinds {
                    cx.case(
                        || format!("{k} of {n} points, layout={} (big)", l.name),
                        |o| {
                            o.state(&(n, k));
                            f(&l, n, k, o)
                        },
                    );
                }
            }
        }));
        }
    }
    v
}

// C01 -----------------------------------------------------------------------------------------

fn grow<B: for<'a> OwningBuffer<'a> + Clone + PartialEq>(b: B, l: &Lay, n: usize, o: &mut Obs) -> R {
    let e = Flat::of(l, 0..n);
    let check = |b: &B, e: &Flat, w: &str, o: &mut Obs| {
        o.step();
        look(b, l, e).map_err(|m| format!("after {w}: {m}"))
    };
    let mut all: Vec<(&str, B)> = vec![];
    let mut x = b.clone();
    unsafe { x.push_points(&e.mem(l, 0x11)) };
    all.push(("push_points", x));
    let mut x = b.clone();
    for c in e.mem(l, 0x11).chunks((n / 5 + 1) * l.entry) {
        unsafe { x.push_points(c) };
    }
    all.push(("five times push_points", x));
    let mut x = b.clone();
    x.append(&e.vector(l));
    all.push(("append of VectorBuffer", x));
    let mut x = b.clone();
    x.append(&e.hashmap(l));
    all.push(("append of HashMapBuffer", x));
    let mut x = b.clone();
    x.append(&e.external(l));
    all.push(("append of ExternalMemoryBuffer", x));
    let mut x = b.clone();
    x.append_interleaved(&e.external(l));
    all.push(("append_interleaved", x));
    let mut x = b.clone();
    x.append_columnar(&e.hashmap(l));
    all.push(("append_columnar", x));
    let more = Flat::of(l, 500_000..500_000 + n + 2);
    let mut m2 = Flat::of(l, 499_999..500_000);
    m2.extend(&e);
    m2.extend(&more);
    let v = m2.vector(l);
    let mut x = b.clone();
    x.append(&v.slice(1..1 + n));
    all.push(("append of a slice", x));
    let v = m2.hashmap(l);
    let mut x = b.clone();
    x.append(&v.slice(1..1 + n));
    all.push(("append of a columnar slice", x));
    for (w, x) in &all {
        check(x, &e, w, o)?;
    }
    // continue with a history that grows by doubling, shrinks and grows again
    let mut x = all.swap_remove(n % all.len()).1;
    let mut m = e.clone();
    if n > 0 {
        x.swap(0, n - 1);
        m.swap(l, 0, n - 1);
        x.resize(n - 1);
        m.resize(l, n - 1);
        check(&x, &m, "swap and resize down", o)?;
    }
    unsafe { x.push_points(&more.mem(l, 0x22)) };
    m.extend(&more);
    check(&x, &m, "push_points onto points", o)?;
    let c = x.clone();
    ensure!(c.len() == x.len(), "length of a clone");
    x.append(&more.hashmap(l));
    m.extend(&more);
    check(&x, &m, "append onto points", o)?;
    x.append(&more.vector(l));
    m.extend(&more);
    check(&x, &m, "append onto points", o)?;
    x.resize(m.n + n + 3);
    let k = m.n + n + 3;
    m.resize(l, k);
    check(&x, &m, "resize up", o)?;
    x.resize(2);
    m.resize(l, 2);
    x.resize(n + 1);
    m.resize(l, n + 1);
    check(&x, &m, "resize down and up", o)?;
    x.clear();
    m.resize(l, 0);
    check(&x, &m, "clear", o)?;
    x.resize(n);
    m.resize(l, n);
    check(&x, &m, "clear and resize", o)
}
pub fn c01(t: bool) -> Vec<Shard> {
    each("C01", t, &["VectorBuffer", "HashMapBuffer", "VectorBuffer with capacity", "HashMapBuffer with capacity"], |l, n, k, o| match k {
        "VectorBuffer" => grow(VectorBuffer::new_from_layout(l.layout.clone()), l, n, o),
        "HashMapBuffer" => grow(HashMapBuffer::new_from_layout(l.layout.clone()), l, n, o),
        "VectorBuffer with capacity" => grow(VectorBuffer::with_capacity(n, l.layout.clone()), l, n, o),
        _ => grow(HashMapBuffer::with_capacity(n, l.layout.clone()), l, n, o),
    })
}

// C02, C07, C08 -------------------------------------------------------------------------------

fn write<'a, B: BorrowedMutBuffer<'a>>(b: &mut B, l: &Lay, e: &mut Flat, o: &mut Obs) -> R {
    let n = e.n;
    macro_rules! check { ($($w:tt)*) => {{ o.step(); look(b, l, e).map_err(|m| format!("after {}: {m}", format!($($w)*)))? }}; }
    for (k, r) in windows(n).into_iter().enumerate() {
        let x = Flat::of(l, (k + 2) * 200_000..(k + 2) * 200_000 + r.len());
        unsafe { b.set_point_range(r.clone(), &x.mem(l, 0x31)) };
        e.put(l, r.start, &x);
        check!("set_point_range({r:?})");
        let a = k % l.attrs.len();
        let x = Flat::of(l, (k + 40) * 200_000..(k + 40) * 200_000 + r.len());
        unsafe { b.set_attribute_range(&l.attrs[a], r.clone(), &x.cols[a]) };
        e.cols[a][r.start * l.sizes[a]..r.end * l.sizes[a]].copy_from_slice(&x.cols[a]);
        check!("set_attribute_range({}, {r:?})", l.attrs[a]);
    }
    let s = spots(n);
    for (k, i) in s.iter().enumerate() {
        let x = Flat::of(l, 77_000_000 + k..77_000_001 + k);
        unsafe { b.set_point(*i, &x.mem(l, 0x41)) };
        e.put(l, *i, &x);
        let j = s[(k * 5 + 1) % s.len()];
        b.swap(*i, j);
        e.swap(l, *i, j);
        let a = k % l.attrs.len();
        let x = Flat::of(l, 78_000_000 + k..78_000_001 + k);
        unsafe { b.set_attribute(&l.attrs[a], j, &x.cols[a]) };
        e.cols[a][j * l.sizes[a]..(j + 1) * l.sizes[a]].copy_from_slice(&x.cols[a]);
    }
    check!("set_point, swap and set_attribute at {s:?}");
    for a in 0..l.attrs.len().min(8) {
        let done = crate::with_type!(l.attrs[a].datatype(), T, {
            b.transform_attribute::<T, _>(&l.attrs[a], |i, mut v: T| {
                for (k, x) in bytemuck::bytes_of_mut(&mut v).iter_mut().enumerate() {
                    *x ^= (mix(i as u64) >> (8 * (k % 8))) as u8;
                }
                v
            })
        });
        if done {
            let s = l.sizes[a];
            for (i, c) in e.cols[a].chunks_exact_mut(s).enumerate() {
                for (k, x) in c.iter_mut().enumerate() {
                    *x ^= (mix(i as u64) >> (8 * (k % 8))) as u8;
                }
            }
        }
    }
    check!("transform_attribute of every attribute");
    Ok(())
}
pub fn c02(t: bool) -> Vec<Shard> {
    each("C02", t, &["vector", "hashmap", "external"], |l, n, k, o| {
        let mut e = Flat::of(l, 0..n);
        match k {
            "vector" => write(&mut e.vector(l), l, &mut e, o),
            "hashmap" => write(&mut e.hashmap(l), l, &mut e, o),
            _ => write(&mut e.external(l), l, &mut e, o),
        }
    })
}
pub fn c07(t: bool) -> Vec<Shard> {
    each("C07", t, &["vector", "hashmap", "external"], |l, n, k, o| {
        let e = Flat::of(l, 0..n);
        // slices of columnar slices do not exist
        macro_rules! nest {
            (true, $b:ident, $r:ident, $x:ident) => {{
                let s = $b.slice($r.clone());
                for q in windows($r.len()).into_iter().take(7) {
                    look(&s.slice(q.clone()), l, &$x.sub(l, q.clone())).map_err(|m| format!("slice({:?}).slice({q:?}): {m}", $r))?;
                }
            }};
            (false, $b:ident, $r:ident, $x:ident) => {};
        }
        macro_rules! go {
            ($b:expr, $nest:tt) => {{
                let mut b = $b;
                for r in windows(n) {
                    let x = e.sub(l, r.clone());
                    o.steps(3);
                    look(&b.slice(r.clone()), l, &x).map_err(|m| format!("slice({r:?}): {m}"))?;
                    look(&b.slice_mut(r.clone()), l, &x).map_err(|m| format!("slice_mut({r:?}): {m}"))?;
                    nest!($nest, b, r, x);
                }
                look(&b, l, &e)
            }};
        }
        match k {
            "vector" => go!(e.vector(l), true),
            "hashmap" => go!(e.hashmap(l), false),
            _ => go!(e.external(l), true),
        }
    })
}
pub fn c08(t: bool) -> Vec<Shard> {
    each("C08", t, &["vector", "hashmap", "external"], |l, n, k, o| {
        let mut e = Flat::of(l, 0..n);
        macro_rules! go {
            ($b:expr) => {{
                let mut b = $b;
                let ws: Vec<_> = windows(n).into_iter().filter(|r| r.len() > 0).collect();
                for r in [ws.first(), ws.get(5), ws.last()].into_iter().flatten() {
                    let mut x = e.sub(l, r.clone());
                    write(&mut b.slice_mut(r.clone()), l, &mut x, o).map_err(|m| format!("slice_mut({r:?}): {m}"))?;
                    e.put(l, r.start, &x);
                    look(&b, l, &e).map_err(|m| format!("the whole buffer after writing through slice_mut({r:?}): {m}"))?;
                }
                Ok(())
            }};
        }
        match k {
            "vector" => go!(e.vector(l)),
            "hashmap" => go!(e.hashmap(l)),
            _ => go!(e.external(l)),
        }
    })
}

// C04, C05 ------------------------------------------------------------------------------------

pub fn c04(t: bool) -> Vec<Shard> {
    each("C04", t, &["0", "3"], |l, n, k, o| {
        if l.attrs.iter().any(|a| matches!(a.datatype(), PointAttributeDataType::ByteArray(_) | PointAttributeDataType::Custom { .. })) {
            return Ok(());
        }
        let mut m = Flat::of(l, 900_000..900_000 + k.parse::<usize>().unwrap());
        let mut b = m.hashmap(l);
        for round in 0..2 {
            let e = Flat::of(l, round * 300_000..round * 300_000 + n);
            let mut p = b.begin_push_attributes();
            for a in (0..l.attrs.len()).map(|a| if round == 0 { a } else { l.attrs.len() - 1 - a }) {
                crate::with_type!(l.attrs[a].datatype(), T, {
                    let d: Vec<T> = e.cols[a].chunks(l.sizes[a]).map(|c| bytemuck::pod_read_unaligned::<T>(c)).collect();
                    p.push_attribute_range::<T>(&l.attrs[a], &d)
                });
            }
            p.done();
            m.extend(&e);
            o.step();
            look(&b, l, &m)?;
        }
        Ok(())
    })
}
fn preds(n: usize) -> Vec<(&'static str, Box<dyn Fn(usize) -> bool>)> {
    vec![
        ("all", Box::new(|_| true)),
        ("none", Box::new(|_| false)),
        ("even", Box::new(|i| i % 2 == 0)),
        ("every third", Box::new(|i| i % 3 == 1)),
        ("first half", Box::new(move |i| i < n / 2)),
        ("second half", Box::new(move |i| i >= n / 2)),
        ("last", Box::new(move |i| i + 1 == n)),
        ("all but the last", Box::new(move |i| i + 1 != n)),
        ("all but the middle", Box::new(move |i| i != n / 2)),
        ("blocks of 256", Box::new(|i| i / 256 % 2 == 0)),
        ("blocks of 100 shifted", Box::new(|i| (i + 33) / 100 % 2 == 0)),
        ("scattered", Box::new(|i| mix(i as u64) % 5 < 2)),
    ]
}
pub fn c05(t: bool) -> Vec<Shard> {
    each("C05", t, &["HashMapBuffer"], |l, n, _, o| {
        let e = Flat::of(l, 0..n);
        let b = e.hashmap(l);
        for (w, f) in preds(n) {
            let k = e.keep(l, &f);
            let ctx = |m: String| format!("filter keeping {w} ({} of {n}): {m}", k.n);
            o.steps(6);
            look(&b.filter::<VectorBuffer, _>(&f), l, &k).map_err(ctx)?;
            look(&b.filter::<HashMapBuffer, _>(&f), l, &k).map_err(ctx)?;
            for (extra, hint) in [(0, None), (3, Some(k.n))] {
                let old = Flat::of(l, 800_000..800_000 + k.n + extra);
                let mut x = old.clone();
                x.put(l, 0, &k);
                let mut t = old.vector(l);
                b.filter_into(&mut t, &f, hint);
                look(&t, l, &x).map_err(ctx)?;
                let mut t = old.hashmap(l);
                b.filter_into(&mut t, &f, hint);
                look(&t, l, &x).map_err(ctx)?;
                let mut t = old.external(l);
                b.filter_into(&mut t, &f, hint);
                look(&t, l, &x).map_err(ctx)?;
            }
        }
        look(&b, l, &e)
    })
}

// C03, C09, C10 -------------------------------------------------------------------------------

fn ty<T: Ty>(l: &Lay, i: usize) -> T {
    let mut v = vec![0u8; l.entry];
    for a in 0..l.attrs.len() {
        v[l.offs[a]..l.offs[a] + l.sizes[a]].copy_from_slice(&value(l.attrs[a].datatype(), l.sizes[a], a, i));
    }
    bytemuck::pod_read_unaligned(&v)
}
fn ty_sizes(thorough: bool) -> Vec<usize> {
    sizes(&lays()[0], thorough)
}
fn bytes_of<T: Ty>(p: &[T]) -> Vec<u8> {
    bytemuck::cast_slice(p).to_vec()
}
fn typed_each<T: Ty>(prop: &'static str, thorough: bool, f: fn(&Lay, usize, &mut Obs) -> R) -> Vec<Shard> {
    vec![shard(format!("big/{prop}/{}", T::NAME), move |cx| {
        let l = Lay::new(T::NAME, T::layout());
        for n in ty_sizes(thorough) {
            cx.case(
                || format!("{n} {} points (big)", T::NAME),
                |o| {
                    o.state(&n);
                    f(&l, n, o)
                },
            );
        }
    })]
}
fn c03_case<T: Ty>(l: &Lay, n: usize, o: &mut Obs) -> R {
    let e: Vec<T> = (0..n).map(|i| ty(l, i)).collect();
    let m = Flat::of(l, 0..n);
    o.steps(6);
    look(&e.iter().copied().collect::<VectorBuffer>(), l, &m).map_err(|m| format!("VectorBuffer from a slice: {m}"))?;
    look(&e.iter().copied().collect::<HashMapBuffer>(), l, &m).map_err(|m| format!("HashMapBuffer from a slice: {m}"))?;
    look(&e.iter().copied().filter(|_| true).collect::<VectorBuffer>(), l, &m).map_err(|m| format!("VectorBuffer without a lower bound: {m}"))?;
    look(&e.iter().copied().filter(|_| true).collect::<HashMapBuffer>(), l, &m).map_err(|m| format!("HashMapBuffer without a lower bound: {m}"))?;
    let half = || e[..n / 2].iter().copied().chain(e[n / 2..].iter().copied().filter(|_| true));
    look(&half().collect::<VectorBuffer>(), l, &m).map_err(|m| format!("VectorBuffer with half the lower bound: {m}"))?;
    look(&half().collect::<HashMapBuffer>(), l, &m).map_err(|m| format!("HashMapBuffer with half the lower bound: {m}"))?;
    // typed appending one by one
    let mut b = VectorBuffer::new_from_layout(T::layout());
    let mut h = HashMapBuffer::new_from_layout(T::layout());
    let k = n.min(5000);
    for x in &e[..k] {
        b.view_mut::<T>().push_point(*x);
        h.view_mut::<T>().push_point(*x);
    }
    let m = m.sub(l, 0..k);
    look(&b, l, &m).map_err(|m| format!("push_point: {m}"))?;
    look(&h, l, &m).map_err(|m| format!("push_point: {m}"))
}
fn c03_t<T: Ty>(t: bool) -> Vec<Shard> {
    typed_each::<T>("C03", t, c03_case::<T>)
}
pub fn c03(t: bool) -> Vec<Shard> {
    let mut v = vec![];
    all_types!(v, c03_t, t);
    v
}

fn c09_case<T: Ty>(l: &Lay, n: usize, o: &mut Obs) -> R {
    let e: Vec<T> = (0..n).map(|i| ty(l, i)).collect();
    let ext = |e: &[T]| ExternalMemoryBuffer::new(bytes_of(e), T::layout());
    let bytes = |b: &VectorBuffer| b.get_point_range_ref(0..n).to_vec();
    // sorting
    let keys = |k: usize, x: &T| -> u64 {
        let h = hash_of(bytemuck::bytes_of(x));
        match k {
            0 => h,
            1 => u64::MAX - h,
            2 => h % 5,
            3 => h % 300,
            _ => 0,
        }
    };
    let by = |k: usize| move |x: &T, y: &T| keys(k, x).cmp(&keys(k, y));
    for k in 0..5 {
        let mut s = e.clone();
        s.sort_by(by(k));
        for again in 0..2 {
            // sort the unsorted points, then sorted ones (ascending and rotated)
            let mut b: VectorBuffer = if again == 0 { e.iter().copied().collect() } else { s[n / 3..].iter().chain(&s[..n / 3]).copied().collect() };
            let mut s2 = s.clone();
            if again == 1 {
                s2.rotate_left(n / 3);
                s2.sort_by(by(k));
            }
            b.view_mut::<T>().sort_by(by(k));
            o.step();
            ensure!(bytes(&b) == bytes_of(&s2), "VectorBuffer of {n} points sorted by key {k}, round {again}: wrong order");
        }
        let mut b = ext(&e);
        b.view_mut::<T>().sort_by(by(k));
        o.step();
        ensure!(b.get_point_range_ref(0..n) == bytes_of(&s), "ExternalMemoryBuffer of {n} points sorted by key {k}: wrong order");
        if n > 3 {
            let r = 1..n - 1;
            let mut s = e.clone();
            s[r.clone()].sort_by(by(k));
            let mut b: VectorBuffer = e.iter().copied().collect();
            b.slice_mut(r).view_mut::<T>().sort_by(by(k));
            o.step();
            ensure!(bytes(&b) == bytes_of(&s), "slice of VectorBuffer of {n} points sorted by key {k}: wrong order");
        }
    }
    // equality: one attribute of one point differs
    let v: VectorBuffer = e.iter().copied().collect();
    let h: HashMapBuffer = e.iter().copied().collect();
    ensure!(v.view::<T>() == h.view::<T>() && v == v.clone() && h == h.clone(), "equal views of {n} points");
    for (k, i) in spots(n).into_iter().enumerate() {
        let a = k % l.attrs.len();
        let mut d = e.clone();
        let p = l.offs[a] + l.sizes[a] - 1;
        bytemuck::bytes_of_mut(&mut d[i])[p] ^= 1;
        let v2: VectorBuffer = d.iter().copied().collect();
        let h2: HashMapBuffer = d.iter().copied().collect();
        o.steps(4);
        ensure!(v.view::<T>() != v2.view::<T>(), "views of {n} points that differ in point {i} are equal");
        ensure!(h.view::<T>() != h2.view::<T>(), "columnar views of {n} points that differ in point {i} are equal");
        ensure!(v.view::<T>() != h2.view::<T>(), "mixed views of {n} points that differ in point {i} are equal");
        ensure!(v != v2 && h != h2, "buffers of {n} points that differ in point {i} are equal");
        for b in 0..l.attrs.len() {
            crate::with_few!(l.attrs[b].datatype(), A, {
                ensure_eq!(v.view_attribute::<A>(&l.attrs[b]) == h2.view_attribute::<A>(&l.attrs[b]), a != b, "equality of the views of {}", l.attrs[b]);
                ensure_eq!(h.view_attribute::<A>(&l.attrs[b]) == h2.view_attribute::<A>(&l.attrs[b]), a != b, "equality of the views of {}", l.attrs[b]);
            });
        }
    }
    if n > 0 {
        let s: VectorBuffer = e[..n - 1].iter().copied().collect();
        ensure!(v.view::<T>() != s.view::<T>() && s.view::<T>() != v.view::<T>() && h.view::<T>() != s.view::<T>(), "views of {n} and {} points are equal", n - 1);
    }
    Ok(())
}
fn c09_t<T: Ty>(t: bool) -> Vec<Shard> {
    typed_each::<T>("C09", t, c09_case::<T>)
}
pub fn c09(t: bool) -> Vec<Shard> {
    let mut v = vec![];
    all_types!(v, c09_t, t);
    v
}

fn same_items<T: bytemuck::NoUninit>(got: impl Iterator<Item = T>, e: impl Iterator<Item = T>, what: &str) -> R {
    let (a, b): (Vec<T>, Vec<T>) = (got.collect(), e.collect());
    ensure_eq!(a.len(), b.len(), "number of items of {what}");
    for i in 0..a.len() {
        ensure_eq!(bytemuck::bytes_of(&a[i]), bytemuck::bytes_of(&b[i]), "item {i} of {} of {what}", b.len());
    }
    Ok(())
}
fn c10_case<T: Ty>(l: &Lay, n: usize, o: &mut Obs) -> R {
    let e: Vec<T> = (0..n).map(|i| ty(l, i)).collect();
    let mut v: VectorBuffer = e.iter().copied().collect();
    let mut h: HashMapBuffer = e.iter().copied().collect();
    let mut s = spots(n);
    s.extend([n, n + 1, usize::MAX]);
    macro_rules! go {
        ($what:expr, $v:expr, $w:ident => $it:expr, $e:expr, $X:ty) => {{
            let e: &[$X] = $e;
            #[allow(unused_mut)]
            let mut $w = $v;
            go!(@ $what, $it, e)
        }};
        ($what:expr, $it:expr, $e:expr, $X:ty) => {{
            let e: &[$X] = $e;
            go!(@ $what, $it, e)
        }};
        (@ $what:expr, $it:expr, $es:ident) => {{
            let e = $es;
            let w = $what;
            o.steps(s.len() as u64 + 4);
            same_items($it, e.iter().copied(), &w)?;
            same_items($it.step_by(255), e.iter().copied().step_by(255), &format!("{w}.step_by(255)"))?;
            same_items($it.step_by(256), e.iter().copied().step_by(256), &format!("{w}.step_by(256)"))?;
            ensure_eq!($it.count(), e.len(), "{w}.count()");
            for k in &s {
                let mut i = $it;
                let mut j = e.iter().copied();
                let (x, y) = (i.nth(*k), j.nth(*k));
                ensure!(x.as_ref().map(bytemuck::bytes_of) == y.as_ref().map(bytemuck::bytes_of), "{w}.nth({k})");
                let (lo, hi) = i.size_hint();
                ensure!(lo <= j.len() && hi.is_none_or(|h| h >= j.len()), "{w}: size_hint {:?} with {} items left", (lo, hi), j.len());
                let (x, y) = (i.next(), j.next());
                ensure!(x.as_ref().map(bytemuck::bytes_of) == y.as_ref().map(bytemuck::bytes_of), "{w}.nth({k}), then next()");
                let (x, y) = (i.nth(n / 3), j.nth(n / 3));
                ensure!(x.as_ref().map(bytemuck::bytes_of) == y.as_ref().map(bytemuck::bytes_of), "{w}.nth({k}), then next(), then nth({})", n / 3);
                ensure_eq!(i.count(), j.count(), "items of {w} left");
            }
        }};
    }
    go!("VectorBuffer view into_iter", v.view::<T>().into_iter(), &e, T);
    go!("HashMapBuffer view into_iter", h.view::<T>().into_iter(), &e, T);
    go!("VectorBuffer view iter", v.view::<T>(), z => z.iter().copied(), &e, T);
    go!("VectorBuffer view iter_mut", v.view_mut::<T>(), z => z.iter_mut().map(|x| *x), &e, T);
    if n > 2 {
        let n = n - 2;
        let (sv, sh) = (v.slice(1..n + 1), h.slice(1..n + 1));
        go!("slice of VectorBuffer view into_iter", sv.view::<T>().into_iter(), &e[1..n + 1], T);
        go!("slice of HashMapBuffer view into_iter", sh.view::<T>().into_iter(), &e[1..n + 1], T);
        go!("slice of VectorBuffer view iter", sv.view::<T>(), z => z.iter().copied(), &e[1..n + 1], T);
    }
    for a in 0..l.attrs.len() {
        let at = &l.attrs[a];
        crate::with_few!(at.datatype(), A, {
            let x: Vec<A> = e.iter().map(|p| bytemuck::pod_read_unaligned(&bytemuck::bytes_of(p)[l.offs[a]..l.offs[a] + l.sizes[a]])).collect();
            go!(format!("VectorBuffer view of {at} into_iter"), v.view_attribute::<A>(at).into_iter(), &x, A);
            go!(format!("HashMapBuffer view of {at} into_iter"), h.view_attribute::<A>(at).into_iter(), &x, A);
            go!(format!("HashMapBuffer view of {at} iter"), h.view_attribute::<A>(at), z => z.iter().copied(), &x, A);
            for k in &s {
                let mut z = h.view_attribute_mut::<A>(at);
                let (mut i, mut j) = (z.iter_mut().map(|x| *x), x.iter().copied());
                let (p, q) = (i.nth(*k), j.nth(*k));
                o.step();
                ensure!(p.as_ref().map(bytemuck::bytes_of) == q.as_ref().map(bytemuck::bytes_of), "HashMapBuffer view of {at} iter_mut().nth({k})");
                same_items(i, j, &format!("HashMapBuffer view of {at} iter_mut() after nth({k})"))?;
            }
            go!(format!("converting view of {at} into_iter"), v.view_attribute_with_conversion::<A>(at).unwrap().into_iter(), &x, A);
        });
    }
    Ok(())
}
fn c10_t<T: Ty>(t: bool) -> Vec<Shard> {
    typed_each::<T>("C10", t, c10_case::<T>)
}
pub fn c10(t: bool) -> Vec<Shard> {
    let mut v = vec![];
    all_types!(v, c10_t, t);
    v
}

// C11, C18 ------------------------------------------------------------------------------------

use PointAttributeDataType as D;
const PAIRS: &[(D, D)] = &[
    (D::U16, D::F64),
    (D::F64, D::U16),
    (D::U32, D::U8),
    (D::I32, D::F32),
    (D::F32, D::I32),
    (D::U8, D::U64),
    (D::Vec3f64, D::Vec3f32),
    (D::Vec3f32, D::Vec3f64),
    (D::U64, D::U64),
    (D::Vec3u16, D::Vec3u16),
];
pub fn c11(t: bool) -> Vec<Shard> {
    vec![shard("big/C11", move |cx| {
        for &(from, to) in PAIRS {
            let l = Lay::new("pair", PointLayout::from_attributes_packed(&[cust("B", D::U8), cust("X", from), INTENSITY], 1));
            for n in ty_sizes(t) {
                cx.case(
                    || format!("view of {n} {from} values as {to} (big)"),
                    |o| {
                        let e = Flat::of(&l, 0..n);
                        o.steps(4);
                        o.state(&(from, to, n));
                        let asked = cust("X", to);
                        let exp: Vec<Vec<u8>> = (0..n).map(|i| if from == to { e.val(&l, 1, i).to_vec() } else { oracle(from, to, e.val(&l, 1, i)).unwrap() }).collect();
                        let (v, h, x) = (e.vector(&l), e.hashmap(&l), e.external(&l));
                        crate::with_type!(to, T, {
                            macro_rules! go {
                                ($b:expr, $r:expr, $w:expr) => {{
                                    let (b, r): (_, Range<usize>) = ($b, $r);
                                    let view = b.view_attribute_with_conversion::<T>(&asked).map_err(|e| e.to_string())?;
                                    for i in if n <= 5000 { (0..r.len()).collect() } else { spots(r.len()) } {
                                        ensure!(same(to, bytemuck::bytes_of(&view.at(i)), &exp[r.start + i]), "{} at({i})", $w);
                                    }
                                    let mut k = r.start;
                                    for x in view.into_iter() {
                                        ensure!(k < r.end && same(to, bytemuck::bytes_of(&x), &exp[k]), "{} item {}", $w, k - r.start);
                                        k += 1;
                                    }
                                    ensure_eq!(k, r.end, "{} items", $w);
                                }};
                            }
                            go!(&v, 0..n, "VectorBuffer");
                            go!(&h, 0..n, "HashMapBuffer");
                            go!(&x, 0..n, "ExternalMemoryBuffer");
                            go!(&v.slice(1..n), 1..n, "slice of VectorBuffer");
                            go!(&h.slice(1..n), 1..n, "slice of HashMapBuffer");
                        });
                        Ok(())
                    },
                );
            }
        }
    })]
}
fn layout_pairs() -> Vec<(&'static str, Lay, Lay)> {
    let p = |a: &[(&'static str, D)], k: u64| PointLayout::from_attributes_packed(&a.iter().map(|(n, d)| cust(n, *d)).collect::<Vec<_>>(), k);
    let c = |a: &[(&'static str, D)]| PointLayout::from_attributes(&a.iter().map(|(n, d)| cust(n, *d)).collect::<Vec<_>>());
    let w = &odd_lays()[0];
    let mut rev: Vec<_> = w.attrs.clone();
    rev.reverse();
    let mut some: Vec<_> = rev.iter().step_by(2).cloned().collect();
    some.push(cust("New", D::U32));
    vec![
        ("same", Lay::new("f", c(&[("A", D::U8), ("B", D::U32)])), Lay::new("t", c(&[("A", D::U8), ("B", D::U32)]))),
        ("reordered", Lay::new("f", c(&[("A", D::U8), ("B", D::U32), ("C", D::Vec3f64)])), Lay::new("t", p(&[("C", D::Vec3f64), ("B", D::U32), ("A", D::U8)], 1))),
        ("retyped", Lay::new("f", p(&[("A", D::U16), ("B", D::F64)], 1)), Lay::new("t", c(&[("B", D::I16), ("A", D::F32), ("E", D::U8)]))),
        ("wide", Lay::new("f", w.layout.clone()), Lay::new("t", PointLayout::from_attributes_packed(&rev, 1))),
        ("wide_some", Lay::new("f", w.layout.clone()), Lay::new("t", PointLayout::from_attributes(&some))),
        ("bulk", Lay::new("f", odd_lays()[2].layout.clone()), Lay::new("t", PointLayout::from_attributes_packed(&[cust("Bulk", D::ByteArray(300)), cust("Z", D::F64)], 1))),
    ]
}
pub fn c18(t: bool) -> Vec<Shard> {
    let mut v = vec![];
    for (name, fl, tl) in layout_pairs() {
        v.push(shard(format!("big/C18/{name}"), move |cx| {
            for n in sizes(&fl, t) {
                for from in ["vector", "hashmap", "external"] {
                    cx.case(
                        || format!("{name}: converting a {from} buffer of {n} points (big)"),
                        |o| {
                            o.state(&(n, from));
                            let src = Flat::of(&fl, 0..n);
                            let c = BufferLayoutConverter::for_layouts_with_default(&fl.layout, &tl.layout);
                            let conv = |r: Range<usize>, mut t: Flat, at: usize| {
                                for d in 0..tl.attrs.len() {
                                    if let Some(s) = fl.attrs.iter().position(|f| f.name() == tl.attrs[d].name()) {
                                        let (a, b) = (fl.attrs[s].datatype(), tl.attrs[d].datatype());
                                        let size = tl.sizes[d];
                                        for (k, i) in r.clone().enumerate() {
                                            let x = src.val(&fl, s, i);
                                            let y = if a == b { x.to_vec() } else { oracle(a, b, x).unwrap() };
                                            t.cols[d][(at + k) * size..(at + k + 1) * size].copy_from_slice(&y);
                                        }
                                    }
                                }
                                t
                            };
                            let zero = {
                                let mut z = Flat::of(&tl, 0..0);
                                z.resize(&tl, n);
                                z
                            };
                            let old = Flat::of(&tl, 700_000..700_000 + n);
                            macro_rules! go {
                                ($b:expr) => {{
                                    let b = $b;
                                    o.steps(2);
                                    look(&c.convert::<VectorBuffer, _>(&b), &tl, &conv(0..n, zero.clone(), 0)).map_err(|m| format!("convert to VectorBuffer: {m}"))?;
                                    look(&c.convert::<HashMapBuffer, _>(&b), &tl, &conv(0..n, zero.clone(), 0)).map_err(|m| format!("convert to HashMapBuffer: {m}"))?;
                                    let mut rs = vec![(0..n, 0)];
                                    if n > 2 {
                                        rs.extend([(1..n, 0), (0..n - 1, 1), (n / 2..n, 1), (1..n / 2 + 1, n / 2 - 1)]);
                                    }
                                    for (r, at) in rs {
                                        let e = conv(r.clone(), old.clone(), at);
                                        macro_rules! into {
                                            ($t:expr, $w:expr) => {{
                                                let mut t = $t;
                                                o.step();
                                                if r.len() == n {
                                                    c.convert_into(&b, &mut t);
                                                } else {
                                                    c.convert_into_range(&b, r.clone(), &mut t, at..at + r.len());
                                                }
                                                look(&t, &tl, &e).map_err(|m| format!("converting {r:?} into a {} at {at}: {m}", $w))?;
                                            }};
                                        }
                                        into!(old.vector(&tl), "VectorBuffer");
                                        into!(old.hashmap(&tl), "HashMapBuffer");
                                        into!(old.external(&tl), "ExternalMemoryBuffer");
                                    }
                                }};
                            }
                            match from {
                                "vector" => go!(src.vector(&fl)),
                                "hashmap" => go!(src.hashmap(&fl)),
                                _ => go!(src.external(&fl)),
                            }
                            Ok(())
                        },
                    );
                }
            }
        }));
    }
    v
}
