//! C02: in-place writes change exactly the addressed data. C08: mutable slices stay confined.
use crate::lay::*;
use fw::*;
use pasture_core::containers::*;
use pasture_core::layout::*;
use std::ops::Range;

#[derive(Clone, Debug)]
pub enum W {
    Set(usize, u8),
    SetRange(Range<usize>, u8),
    Attr(usize, usize, u8),
    AttrRange(usize, Range<usize>, u8),
    Swap(usize, usize),
    Transform(usize),
    PointMut(usize, u8),
    PointRangeMut(Range<usize>, u8),
    RawMut(usize, usize, u8),
    ColMut(usize, usize, u8),
    ColRangeMut(usize, Range<usize>, u8),
}

/// Every in-place write of a buffer with `n` points.
pub fn wops(l: &Lay, n: usize, inter: bool, col: bool) -> Vec<W> {
    let mut v = vec![];
    for i in indices(n) {
        v.push(W::Set(i, 30));
        if inter {
            v.push(W::PointMut(i, 33));
        }
        for j in indices(n) {
            v.push(W::Swap(i, j));
        }
        for a in 0..l.attrs.len() {
            v.push(W::Attr(a, i, 36));
            if inter || col {
                v.push(W::RawMut(a, i, 39));
            }
            if col {
                v.push(W::ColMut(a, i, 42));
            }
        }
    }
    for r in ranges(n) {
        v.push(W::SetRange(r.clone(), 45));
        if inter {
            v.push(W::PointRangeMut(r.clone(), 50));
        }
        for a in 0..l.attrs.len() {
            v.push(W::AttrRange(a, r.clone(), 55));
            if col {
                v.push(W::ColRangeMut(a, r.clone(), 60));
            }
        }
    }
    for a in 0..l.attrs.len() {
        v.push(W::Transform(a));
    }
    v
}
/// Writes that address a point that does not exist.
pub fn bad_wops(l: &Lay, n: usize, inter: bool, col: bool) -> Vec<W> {
    let mut v = vec![];
    for i in [n, n + 1] {
        v.push(W::Set(i, 30));
        v.push(W::Swap(i, i));
        if n > 0 {
            v.push(W::Swap(0, i));
            v.push(W::Swap(i, n - 1));
        }
        if inter {
            v.push(W::PointMut(i, 33));
        }
        for a in 0..l.attrs.len() {
            v.push(W::Attr(a, i, 36));
            if inter || col {
                v.push(W::RawMut(a, i, 39));
            }
            if col {
                v.push(W::ColMut(a, i, 42));
            }
        }
    }
    for r in [0..n + 1, n..n + 1, n + 1..n + 2] {
        v.push(W::SetRange(r.clone(), 45));
        if inter {
            v.push(W::PointRangeMut(r.clone(), 50));
        }
        for a in 0..l.attrs.len() {
            v.push(W::AttrRange(a, r.clone(), 55));
            if col {
                v.push(W::ColRangeMut(a, r.clone(), 60));
            }
        }
    }
    v
}

fn ids(l: &Lay, k: u8, n: usize) -> Vec<Pt> {
    (0..n).map(|i| l.pt(k + i as u8)).collect()
}
fn col(l: &Lay, k: u8, n: usize, a: usize) -> Vec<u8> {
    ids(l, k, n).into_iter().flat_map(|p| p[a].clone()).collect()
}

fn xf<T: PrimitiveType>(i: usize, mut v: T) -> T {
    for b in bytemuck::bytes_of_mut(&mut v) {
        *b = b.wrapping_add(3 + i as u8);
    }
    v
}

/// Calls `$f::<T>` with the Rust type of the datatype; evaluates to false for types without one.
#[macro_export]
macro_rules! with_type {
    ($d:expr, $T:ident, $body:expr) => {{
        use pasture_core::nalgebra::{Vector3 as V3, Vector4 as V4};
        use PointAttributeDataType as D;
        match $d {
            D::U8 => { type $T = u8; $body; true }
            D::I8 => { type $T = i8; $body; true }
            D::U16 => { type $T = u16; $body; true }
            D::I16 => { type $T = i16; $body; true }
            D::U32 => { type $T = u32; $body; true }
            D::I32 => { type $T = i32; $body; true }
            D::U64 => { type $T = u64; $body; true }
            D::I64 => { type $T = i64; $body; true }
            D::F32 => { type $T = f32; $body; true }
            D::F64 => { type $T = f64; $body; true }
            D::Vec3u8 => { type $T = V3<u8>; $body; true }
            D::Vec3u16 => { type $T = V3<u16>; $body; true }
            D::Vec3f32 => { type $T = V3<f32>; $body; true }
            D::Vec3i32 => { type $T = V3<i32>; $body; true }
            D::Vec3f64 => { type $T = V3<f64>; $body; true }
            D::Vec4u8 => { type $T = V4<u8>; $body; true }
            _ => false,
        }
    }};
}

/// The effect of a write on the model.
pub fn model(m: &mut [Pt], l: &Lay, op: &W) {
    match op {
        W::Set(i, k) | W::PointMut(i, k) => m[*i] = l.pt(*k),
        W::SetRange(r, k) | W::PointRangeMut(r, k) => {
            for (p, i) in ids(l, *k, r.len()).into_iter().zip(r.clone()) {
                m[i] = p;
            }
        }
        W::Attr(a, i, k) | W::RawMut(a, i, k) | W::ColMut(a, i, k) => m[*i][*a] = l.val(*k, *a),
        W::AttrRange(a, r, k) | W::ColRangeMut(a, r, k) => {
            for (p, i) in ids(l, *k, r.len()).into_iter().zip(r.clone()) {
                m[i][*a] = p[*a].clone();
            }
        }
        W::Swap(i, j) => m.swap(*i, *j),
        W::Transform(a) => {
            for (i, p) in m.iter_mut().enumerate() {
                for b in p[*a].iter_mut() {
                    *b = b.wrapping_add(3 + i as u8);
                }
            }
        }
    }
}

/// Performs a write through the by-value interface, or by reference if the layout is advertised
/// through `as_interleaved_mut` / `as_columnar_mut`.
pub fn perform<'a, B: BorrowedMutBuffer<'a>>(b: &mut B, l: &Lay, op: &W) -> bool {
    unsafe {
        match op {
            W::Set(i, k) => b.set_point(*i, &l.bytes(&l.pt(*k), 0x3C)),
            W::SetRange(r, k) => b.set_point_range(r.clone(), &l.bytes_of(&ids(l, *k, r.len()), 0x3C)),
            W::Attr(a, i, k) => b.set_attribute(&l.attrs[*a], *i, &l.val(*k, *a)),
            W::AttrRange(a, r, k) => b.set_attribute_range(&l.attrs[*a], r.clone(), &col(l, *k, r.len(), *a)),
            W::Swap(i, j) => b.swap(*i, *j),
            W::Transform(a) => return with_type!(l.attrs[*a].datatype(), T, b.transform_attribute::<T, _>(&l.attrs[*a], xf::<T>)),
            W::PointMut(..) | W::PointRangeMut(..) | W::RawMut(..) | W::ColMut(..) | W::ColRangeMut(..) => {
                if let Some(i) = b.as_interleaved_mut() {
                    return perform_inter(i, l, op);
                }
                if let Some(c) = b.as_columnar_mut() {
                    return perform_col(c, l, op);
                }
                return false;
            }
        }
    }
    true
}
pub fn perform_inter<'a, B: InterleavedBufferMut<'a> + ?Sized>(b: &mut B, l: &Lay, op: &W) -> bool {
    match op {
        W::PointMut(i, k) => b.get_point_mut(*i).copy_from_slice(&l.bytes(&l.pt(*k), 0x3C)),
        W::PointRangeMut(r, k) => b.get_point_range_mut(r.clone()).copy_from_slice(&l.bytes_of(&ids(l, *k, r.len()), 0x3C)),
        W::RawMut(a, i, k) => {
            let member = b.point_layout().get_attribute(&l.attrs[*a]).unwrap().clone();
            let mut v = b.view_raw_attribute_mut(&member);
            v[*i].copy_from_slice(&l.val(*k, *a));
            let v = &v;
            assert!(v[*i] == l.val(*k, *a)[..], "the mutable raw view does not show what was written through it");
        }
        _ => return false,
    }
    true
}
pub fn perform_col<'a, B: ColumnarBufferMut<'a> + ?Sized>(b: &mut B, l: &Lay, op: &W) -> bool {
    match op {
        W::ColMut(a, i, k) => b.get_attribute_mut(&l.attrs[*a], *i).copy_from_slice(&l.val(*k, *a)),
        W::ColRangeMut(a, r, k) => b.get_attribute_range_mut(&l.attrs[*a], r.clone()).copy_from_slice(&col(l, *k, r.len(), *a)),
        W::RawMut(a, i, k) => {
            let member = b.point_layout().get_attribute(&l.attrs[*a]).unwrap().clone();
            let mut v = b.view_raw_attribute_mut(&member);
            v[*i].copy_from_slice(&l.val(*k, *a));
            let v = &v;
            assert!(v[*i] == l.val(*k, *a)[..], "the mutable raw view does not show what was written through it");
        }
        _ => return false,
    }
    true
}
fn by_ref(op: &W) -> bool {
    matches!(op, W::PointMut(..) | W::PointRangeMut(..) | W::RawMut(..) | W::ColMut(..) | W::ColRangeMut(..))
}

/// Bytes of the interleaved memory a write may touch.
fn mask(l: &Lay, n: usize, op: &W) -> Vec<bool> {
    let mut v = vec![false; l.entry * n];
    let mut whole = |i: usize| v[i * l.entry..(i + 1) * l.entry].fill(true);
    match op {
        W::Set(i, _) | W::PointMut(i, _) => whole(*i),
        W::SetRange(r, _) | W::PointRangeMut(r, _) => r.clone().for_each(whole),
        W::Swap(i, j) => {
            whole(*i);
            whole(*j)
        }
        W::Attr(a, i, _) | W::RawMut(a, i, _) | W::ColMut(a, i, _) => {
            let o = i * l.entry + l.offs[*a];
            v[o..o + l.sizes[*a]].fill(true)
        }
        W::AttrRange(a, r, _) | W::ColRangeMut(a, r, _) => {
            for i in r.clone() {
                let o = i * l.entry + l.offs[*a];
                v[o..o + l.sizes[*a]].fill(true)
            }
        }
        W::Transform(a) => {
            for i in 0..n {
                let o = i * l.entry + l.offs[*a];
                v[o..o + l.sizes[*a]].fill(true)
            }
        }
    }
    v
}

fn raw<'a, B: BorrowedBuffer<'a>>(b: &B, l: &Lay) -> Option<Vec<u8>> {
    b.as_interleaved().map(|i| {
        let r = i.get_point_range_ref(0..b.len()).to_vec();
        debug_assert_eq!(r.len(), l.entry * b.len());
        r
    })
}

fn run<'a, B: BorrowedMutBuffer<'a>>(b: &mut B, l: &Lay, n: usize, mem: Mem, ops: &[W], from: usize, o: &mut Obs) -> R {
    let mut m: Vec<Pt> = ids(l, 1, n);
    for (k, op) in ops.iter().enumerate() {
        let before = raw(b, l);
        if !perform(b, l, op) {
            return Ok(());
        }
        model(&mut m, l, op);
        if k < from {
            continue;
        }
        o.step();
        o.state(&m);
        observe(b, l, &m, mem).map_err(|e| format!("after step {k} {op:?}: {e}"))?;
        if let (Some(x), Some(y)) = (before, raw(b, l)) {
            let mk = mask(l, n, op);
            for i in 0..x.len() {
                ensure!(x[i] == y[i] || mk[i], "step {k} {op:?} changed byte {i} of the point memory, which it does not address");
            }
        }
    }
    Ok(())
}

fn seqs(n: usize, depth: usize, mut f: impl FnMut(&[usize], usize)) {
    let mut s = vec![0; depth];
    let mut new = 0;
    if n == 0 {
        return;
    }
    loop {
        f(&s, new);
        let mut p = depth;
        loop {
            if p == 0 {
                return;
            }
            p -= 1;
            s[p] += 1;
            if s[p] < n {
                new = p;
                break;
            }
            s[p] = 0;
        }
    }
}

const GUARD: usize = 24;
fn with_external(l: &Lay, n: usize, f: impl FnOnce(&mut ExternalMemoryBuffer<&mut [u8]>) -> R) -> R {
    let mut mem = vec![0xD7u8; GUARD];
    mem.extend(l.bytes_of(&ids(l, 1, n), 0xEE));
    mem.resize(mem.len() + GUARD, 0xD7);
    let end = mem.len() - GUARD;
    let r = {
        let mut e = ExternalMemoryBuffer::new(&mut mem[GUARD..end], l.layout.clone());
        f(&mut e)
    };
    ensure!(mem[..GUARD].iter().chain(&mem[end..]).all(|b| *b == 0xD7), "memory outside the external buffer was changed");
    r
}

fn c02_shard(cx: &mut Cx, kind: &'static str, l: &Lay, n: usize, depth: usize) {
    let ops = wops(l, n, kind != "hashmap", kind == "hashmap");
    seqs(ops.len(), depth, |s, new| {
        let seq: Vec<W> = s.iter().map(|i| ops[*i].clone()).collect();
        cx.case(
            || format!("{kind} layout={} n={n} writes={seq:?}", l.name),
            |o| {
                let p = ids(l, 1, n);
                match kind {
                    "vector" => run(&mut l.vector(&p), l, n, Mem::Inter, &seq, new, o),
                    "hashmap" => run(&mut l.hashmap(&p), l, n, Mem::Col, &seq, new, o),
                    _ => with_external(l, n, |e| run(e, l, n, Mem::Inter, &seq, new, o)),
                }
            },
        );
    });
}

pub fn c02(thorough: bool) -> Vec<Shard> {
    let mut v = vec![];
    for (li, l) in lays().into_iter().chain(lays_more()).enumerate() {
        for kind in ["vector", "hashmap", "external"] {
            for (n, depth) in [(1, 2), (3, if thorough && li < 4 { 3 } else if li < 4 || thorough { 2 } else { 1 }), (5, 1), (33, 1), (if thorough { 130 } else { 66 }, 1)] {
                let l = l.clone();
                v.push(shard(format!("write/{kind}/{}/n{n}", l.name), move |cx| c02_shard(cx, kind, &l, n, depth)));
            }
        }
    }
    v
}

// ---------------------------------------------------------------------------------------------
// C08

/// One write through a slice, compared with the model of the slice.
fn through<'a, B: BorrowedMutBuffer<'a>>(
    s: &mut B,
    l: &Lay,
    sub: &mut [Pt],
    mem: Mem,
    op: &W,
    special: impl Fn(&mut B, &W) -> bool,
) -> R<bool> {
    observe(s, l, sub, mem).map_err(|e| format!("slice before: {e}"))?;
    if mem == Mem::Any && by_ref(op) {
        if !special(s, op) {
            return Ok(false);
        }
    } else if !perform(s, l, op) {
        return Ok(false);
    }
    model(sub, l, op);
    observe(s, l, sub, mem).map_err(|e| format!("slice after: {e}"))?;
    Ok(true)
}

/// An out-of-range write through a slice: refused.
fn refused<'a, B: BorrowedMutBuffer<'a>>(s: &mut B, l: &Lay, mem: Mem, op: &W, special: impl Fn(&mut B, &W) -> bool) -> R {
    let r = guard(|| if mem == Mem::Any && by_ref(op) { special(s, op) } else { perform(s, l, op) });
    match r {
        Ok(true) => Err(format!("{op:?} addresses points outside of the slice and must be refused")),
        Ok(false) | Err(_) => Ok(()),
    }
}


#[derive(Copy, Clone, Debug, PartialEq)]
enum Kind {
    /// typed slice type returned by slice_mut of the buffer
    Typed,
    /// BufferSliceMut::new over the buffer
    Generic,
    /// BufferSliceMut::new over the typed slice
    Mixed,
}

pub fn snapshot<'a, B: BorrowedBuffer<'a>>(b: &B, l: &Lay) -> Vec<Pt> {
    (0..b.len())
        .map(|i| {
            l.attrs
                .iter()
                .zip(&l.sizes)
                .map(|(a, s)| {
                    let mut v = vec![0; *s];
                    b.get_attribute(a, i, &mut v);
                    v
                })
                .collect()
        })
        .collect()
}

struct Job<'x> {
    l: &'x Lay,
    n: usize,
    good: bool,
    ops: &'x [W],
    path: &'x [Range<usize>],
    kind: Kind,
    base: usize,
    len: usize,
}

fn job<'a, B: BorrowedMutBuffer<'a>>(s: &mut B, j: &Job, m: &mut Vec<Pt>, mem: Mem, special: impl Fn(&mut B, &Lay, &W) -> bool) -> R<bool> {
    for op in j.ops {
        if j.good {
            if !through(s, j.l, &mut m[j.base..j.base + j.len], mem, op, |x, w| special(x, j.l, w))? {
                return Ok(false);
            }
        } else {
            refused(s, j.l, mem, op, |x, w| special(x, j.l, w))?;
        }
    }
    Ok(true)
}
fn none<B>(_: &mut B, _: &Lay, _: &W) -> bool {
    false
}

macro_rules! c08_body {
    ($name:ident, $make:expr, $mem:expr, $by_ref:ident, $nested_typed:ident) => {
        fn $name(j: &Job, o: &mut Obs) -> R {
            let l = j.l;
            let mut m = ids(l, 1, j.n);
            let orig = m.clone();
            let mut b = $make(l, &m);
            let path = j.path;
            let applied = match (path.len(), j.kind) {
                (1, Kind::Typed) => job(&mut b.slice_mut(path[0].clone()), j, &mut m, $mem, none)?,
                (1, _) => job(&mut BufferSliceMut::new(&mut b, path[0].clone()), j, &mut m, Mem::Any, $by_ref)?,
                (_, Kind::Typed) => $nested_typed!(b, path, j, m),
                (_, Kind::Generic) => {
                    let mut s1 = BufferSliceMut::new(&mut b, path[0].clone());
                    let mut s = s1.slice_mut(path[1].clone());
                    job(&mut s, j, &mut m, Mem::Any, $by_ref)?
                }
                (_, Kind::Mixed) => {
                    let mut s1 = b.slice_mut(path[0].clone());
                    let mut s = BufferSliceMut::new(&mut s1, path[1].clone());
                    job(&mut s, j, &mut m, Mem::Any, $by_ref)?
                }
            };
            if !applied {
                return Ok(());
            }
            o.steps(j.ops.len() as u64);
            o.state(&m);
            if j.good {
                observe(&b, l, &m, $mem).map_err(|e| format!("parent buffer: {e}"))?;
            }
            let left = snapshot(&b, l);
            ensure_eq!(left.len(), j.n, "length of the parent buffer");
            for i in (0..j.base).chain(j.base + j.len..j.n) {
                ensure_eq!(left[i], orig[i], "point {i} of the parent lies outside of the slice but was changed");
            }
            Ok(())
        }
    };
}
macro_rules! nested_inter {
    ($b:ident, $path:ident, $j:ident, $m:ident) => {{
        let mut s1 = $b.slice_mut($path[0].clone());
        let mut s = s1.slice_mut($path[1].clone());
        job(&mut s, $j, &mut $m, Mem::Inter, none)?
    }};
}
macro_rules! nested_col {
    ($b:ident, $path:ident, $j:ident, $m:ident) => {{
        // columnar slices cannot be sliced again
        let mut s1 = $b.slice_mut($path[0].clone());
        let mut s = BufferSliceColumnarMut::new(&mut s1, $path[1].clone());
        job(&mut s, $j, &mut $m, Mem::Col, none)?
    }};
}
fn mk_v(l: &Lay, p: &[Pt]) -> VectorBuffer {
    l.vector(p)
}
fn mk_h(l: &Lay, p: &[Pt]) -> HashMapBuffer {
    l.hashmap(p)
}
fn mk_e(l: &Lay, p: &[Pt]) -> ExternalMemoryBuffer<Vec<u8>> {
    l.external(p)
}
c08_body!(body_vector, mk_v, Mem::Inter, perform_inter, nested_inter);
c08_body!(body_hashmap, mk_h, Mem::Col, perform_col, nested_col);
c08_body!(body_external, mk_e, Mem::Inter, perform_inter, nested_inter);

fn c08_shard(cx: &mut Cx, which: &'static str, l: &Lay, n: usize, nested: bool, depth: usize) {
    let inter = which != "hashmap";
    let mut paths: Vec<Vec<Range<usize>>> = vec![];
    for r in ranges(n) {
        if nested {
            for q in ranges(r.len()) {
                paths.push(vec![r.clone(), q]);
            }
        } else {
            paths.push(vec![r]);
        }
    }
    for path in &paths {
        for kind in [Kind::Typed, Kind::Generic, Kind::Mixed] {
            if path.len() == 1 && kind == Kind::Mixed {
                continue;
            }
            let len = path.last().unwrap().len();
            let base = path.iter().map(|r| r.start).sum();
            let good = wops(l, len, inter, !inter);
            let bad = bad_wops(l, len, inter, !inter);
            let mut one = |good: bool, ops: &[W]| {
                cx.case(
                    || format!("{which} layout={} n={n} slice_mut path={path:?} via {kind:?}: {ops:?}{}", l.name, if good { "" } else { " (must be refused)" }),
                    |o| {
                        let j = Job { l, n, good, ops, path, kind, base, len };
                        match which {
                            "vector" => body_vector(&j, o),
                            "hashmap" => body_hashmap(&j, o),
                            _ => body_external(&j, o),
                        }
                    },
                );
            };
            seqs(good.len(), depth, |s, _| one(true, &s.iter().map(|i| good[*i].clone()).collect::<Vec<_>>()));
            seqs(bad.len(), 1, |s, _| one(false, &[bad[s[0]].clone()]));
        }
    }
}

pub fn c08(thorough: bool) -> Vec<Shard> {
    let mut v = vec![];
    for l in lays().into_iter().chain(if thorough { lays_more() } else { vec![] }) {
        for which in ["vector", "hashmap", "external"] {
            for (nested, n, depth) in [(false, 18, 1), (false, 4, 1), (true, 3, 1), (false, 2, 2), (true, if thorough { 4 } else { 2 }, if thorough { 2 } else { 1 })] {
                let l = l.clone();
                v.push(shard(format!("slice_mut/{which}/{}/{}{n}x{depth}", l.name, if nested { "nested" } else { "" }), move |cx| c08_shard(cx, which, &l, n, nested, depth)));
            }
        }
    }
    v
}

/// Does the write address point `i`?
pub fn addresses(op: &W, i: usize) -> bool {
    match op {
        W::Set(j, _) | W::PointMut(j, _) | W::Attr(_, j, _) | W::RawMut(_, j, _) | W::ColMut(_, j, _) => i == *j,
        W::SetRange(r, _) | W::PointRangeMut(r, _) | W::AttrRange(_, r, _) | W::ColRangeMut(_, r, _) => r.contains(&i),
        W::Swap(a, b) => i == *a || i == *b,
        W::Transform(_) => true,
    }
}
