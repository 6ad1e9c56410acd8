//! C07: immutable slices (of slices) show exactly the selected points. C06: out-of-range and
//! ill-typed access is refused.
use crate::lay::*;
use crate::types::*;
use crate::all_types;
use fw::*;
use pasture_core::containers::*;
use pasture_core::layout::*;
use std::ops::Range;

fn ids(l: &Lay, n: usize) -> Vec<Pt> {
    (0..n).map(|i| l.pt(1 + i as u8)).collect()
}

/// `BufferSlice` does not advertise its memory layout at runtime, but its type does
fn see_i<'a, B: InterleavedBuffer<'a>>(s: &B, l: &Lay, m: &[Pt], mem: Mem) -> R {
    see(s, l, m, mem)?;
    observe_inter(s, l, m)
}
fn see_c<'a, B: ColumnarBuffer<'a>>(s: &B, l: &Lay, m: &[Pt], mem: Mem) -> R {
    see(s, l, m, mem)?;
    observe_col(s, l, m)
}
fn see<'a, B: BorrowedBuffer<'a>>(s: &B, l: &Lay, m: &[Pt], mem: Mem) -> R {
    observe(s, l, m, mem)?;
    observe_oob(s, l, m.len())
}

macro_rules! slices_body {
    ($name:ident, $make:ident, $mem:expr, $see:ident, $Typed:ident, $TypedMut:ident, $deep:tt) => {
        fn $name(l: &Lay, n: usize, p: &[Range<usize>], o: &mut Obs) -> R {
            let m = ids(l, n);
            let b = l.$make(&m);
            let s0 = &m[p[0].clone()];
            o.steps(4);
            o.state(&(n, p));
            let what = |w: &'static str| move |e: String| format!("{w}: {e}");
            match p.len() {
                1 => {
                    $see(&b.slice(p[0].clone()), l, s0, $mem).map_err(what("slice()"))?;
                    $see(&BufferSlice::new(&b, p[0].clone()), l, s0, Mem::Any).map_err(what("BufferSlice"))?;
                    let mut b2 = l.$make(&m);
                    $see(&b2.slice_mut(p[0].clone()), l, s0, $mem).map_err(what("slice_mut()"))?;
                    let mut b2 = l.$make(&m);
                    $see(&BufferSliceMut::new(&mut b2, p[0].clone()), l, s0, Mem::Any).map_err(what("BufferSliceMut"))?;
                }
                2 => {
                    let s1 = &s0[p[1].clone()];
                    let x = b.slice(p[0].clone());
                    let y = BufferSlice::new(&b, p[0].clone());
                    $see(&y.slice(p[1].clone()), l, s1, Mem::Any).map_err(what("BufferSlice.slice()"))?;
                    $see(&BufferSlice::new(&x, p[1].clone()), l, s1, Mem::Any).map_err(what("BufferSlice of slice()"))?;
                    $see(&$Typed::new(&x, p[1].clone()), l, s1, $mem).map_err(what("typed slice of slice()"))?;
                    let mut b2 = l.$make(&m);
                    let z = BufferSliceMut::new(&mut b2, p[0].clone());
                    $see(&z.slice(p[1].clone()), l, s1, Mem::Any).map_err(what("BufferSliceMut.slice()"))?;
                    slices_body!(@deep2 $deep, b, x, p, l, s1, m, $see, what);
                }
                _ => {
                    let s2 = &s0[p[1].clone()][p[2].clone()];
                    let y = BufferSlice::new(&b, p[0].clone());
                    let y1 = y.slice(p[1].clone());
                    $see(&y1.slice(p[2].clone()), l, s2, Mem::Any).map_err(what("BufferSlice.slice().slice()"))?;
                    let x = b.slice(p[0].clone());
                    let x1 = BufferSlice::new(&x, p[1].clone());
                    $see(&$Typed::new(&x1, p[2].clone()), l, s2, $mem).map_err(what("typed slice of BufferSlice of slice()"))?;
                    slices_body!(@deep3 $deep, b, x, p, l, s2, m, $see, what);
                }
            }
            Ok(())
        }
    };
    (@deep2 yes, $b:ident, $x:ident, $p:ident, $l:ident, $s1:ident, $m:ident, $see:ident, $what:ident) => {
        $see(&$x.slice($p[1].clone()), $l, $s1, Mem::Inter).map_err($what("slice().slice()"))?;
        let mut b3 = $l.vector(&$m);
        let z = b3.slice_mut($p[0].clone());
        $see(&z.slice($p[1].clone()), $l, $s1, Mem::Inter).map_err($what("slice_mut().slice()"))?;
        let mut b3 = $l.vector(&$m);
        let mut z = b3.slice_mut($p[0].clone());
        $see(&z.slice_mut($p[1].clone()), $l, $s1, Mem::Inter).map_err($what("slice_mut().slice_mut()"))?;
    };
    (@deep2 no, $b:ident, $x:ident, $p:ident, $l:ident, $s1:ident, $m:ident, $see:ident, $what:ident) => {};
    (@deep3 yes, $b:ident, $x:ident, $p:ident, $l:ident, $s1:ident, $m:ident, $see:ident, $what:ident) => {
        let x1 = $x.slice($p[1].clone());
        $see(&x1.slice($p[2].clone()), $l, $s1, Mem::Inter).map_err($what("slice().slice().slice()"))?;
        let mut b3 = $l.vector(&$m);
        let mut z = b3.slice_mut($p[0].clone());
        let z1 = z.slice_mut($p[1].clone());
        $see(&z1.slice($p[2].clone()), $l, $s1, Mem::Inter).map_err($what("slice_mut().slice_mut().slice()"))?;
    };
    (@deep3 no, $b:ident, $x:ident, $p:ident, $l:ident, $s1:ident, $m:ident, $see:ident, $what:ident) => {};
}
slices_body!(body_v, vector, Mem::Inter, see_i, BufferSliceInterleaved, BufferSliceInterleavedMut, yes);
slices_body!(body_e, external, Mem::Inter, see_i, BufferSliceInterleaved, BufferSliceInterleavedMut, yes);
slices_body!(body_h, hashmap, Mem::Col, see_c, BufferSliceColumnar, BufferSliceColumnarMut, no);

macro_rules! reversed_body {
    ($name:ident, $make:ident) => {
        #[allow(clippy::reversed_empty_ranges)]
        fn $name(l: &Lay, n: usize, r: Range<usize>) -> R {
            let m = ids(l, n);
            let b = l.$make(&m);
            macro_rules! check {
                ($what:expr, $s:expr) => {
                    // refused by a panic, or a slice without points
                    if let Ok(len) = guard(|| $s.len()) {
                        ensure_eq!(len, 0, "{}: points", $what);
                        see(&$s, l, &[], Mem::Any).map_err(|e| format!("{}: {e}", $what))?;
                    }
                };
            }
            check!("slice()", b.slice(r.clone()));
            check!("BufferSlice", BufferSlice::new(&b, r.clone()));
            let inner = BufferSlice::new(&b, 0..n);
            check!("BufferSlice.slice()", inner.slice(r.clone()));
            check!("BufferSlice.slice().slice()", inner.slice(r.clone()).slice(0..0));
            let mut c = l.$make(&m);
            let z = BufferSliceMut::new(&mut c, 0..n);
            check!("BufferSliceMut.slice()", z.slice(r.clone()));
            let mut c = l.$make(&m);
            let mut z = BufferSliceMut::new(&mut c, 0..n);
            if let Ok(res) = guard(|| {
                let s = z.slice_mut(r.clone());
                let len = s.len();
                ensure_eq!(len, 0, "BufferSliceMut.slice_mut(): points");
                see(&s, l, &[], Mem::Any)
            }) {
                res?;
            }
            let mut c = l.$make(&m);
            check!("slice_mut()", c.slice_mut(r.clone()));
            Ok(())
        }
    };
}
reversed_body!(reversed_v, vector);
reversed_body!(reversed_e, external);
reversed_body!(reversed_h, hashmap);

macro_rules! beyond_body {
    ($name:ident, $make:ident, $deep:ident) => {
        /// No kind of slice of a slice of the points `r` gives access to a point behind the end of `r`
        fn $name(l: &Lay, n: usize, r: Range<usize>, q: Range<usize>) -> R {
            let m = ids(l, n);
            let mut t = vec![0u8; l.entry];
            // indices into the inner slice
            let first = r.len().saturating_sub(q.start);
            for j in [first, q.len() - 1] {
                let b = l.$make(&m);
                macro_rules! read {
                    ($what:expr, $s:expr) => {
                        must_panic(|| format!("reading point {j} of {}, beyond the parent slice,", $what), || $s.get_point(j, &mut t))?;
                        must_panic(|| format!("reading point {j} of {}, beyond the parent slice,", $what), || $s.get_point_range(j..j + 1, &mut t))?;
                    };
                }
                read!("slice of BufferSlice", BufferSlice::new(&b, r.clone()).slice(q.clone()));
                let x = BufferSlice::new(&b, r.clone());
                read!("slice of slice of BufferSlice", x.slice(0..r.len()).slice(q.clone()));
                let x = b.slice(r.clone());
                read!("BufferSlice of slice()", BufferSlice::new(&x, q.clone()));
                let mut c = l.$make(&m);
                let z = BufferSliceMut::new(&mut c, r.clone());
                read!("slice() of BufferSliceMut", z.slice(q.clone()));
                let mut c = l.$make(&m);
                let z = c.slice_mut(r.clone());
                read!("BufferSlice of slice_mut()", BufferSlice::new(&z, q.clone()));
                let mut c = l.$make(&m);
                let t2 = t.clone();
                must_panic(
                    || "writing beyond the parent slice, slice_mut() of BufferSliceMut,".into(),
                    || {
                        let mut z = BufferSliceMut::new(&mut c, r.clone());
                        let mut s = z.slice_mut(q.clone());
                        unsafe { s.set_point(j, &t2) }
                    },
                )?;
                beyond_body!(@$deep, l, $make, m, r, q, j, t, read);
            }
            Ok(())
        }
    };
    (@yes, $l:ident, $make:ident, $m:ident, $r:ident, $q:ident, $j:ident, $t:ident, $read:ident) => {
        let b = $l.$make(&$m);
        let x = b.slice($r.clone());
        $read!("slice() of slice()", x.slice($q.clone()));
        let mut c = $l.$make(&$m);
        let z = c.slice_mut($r.clone());
        $read!("slice() of slice_mut()", z.slice($q.clone()));
        let mut c = $l.$make(&$m);
        let t2 = $t.clone();
        must_panic(
            || "writing beyond the parent slice, slice_mut() of slice_mut(),".into(),
            || {
                let mut z = c.slice_mut($r.clone());
                let mut s = z.slice_mut($q.clone());
                unsafe { s.set_point($j, &t2) }
            },
        )?;
    };
    (@no, $l:ident, $make:ident, $m:ident, $r:ident, $q:ident, $j:ident, $t:ident, $read:ident) => {};
}
beyond_body!(beyond_v, vector, yes);
beyond_body!(beyond_e, external, yes);
beyond_body!(beyond_h, hashmap, no);

fn paths(n: usize, depth: usize) -> Vec<Vec<Range<usize>>> {
    let mut v: Vec<Vec<Range<usize>>> = vec![vec![]];
    for _ in 0..depth {
        v = v
            .into_iter()
            .flat_map(|p| {
                let len = p.last().map(|r| r.len()).unwrap_or(n);
                ranges(len).into_iter().map(move |r| {
                    let mut q = p.clone();
                    q.push(r);
                    q
                })
            })
            .collect();
    }
    v
}

pub fn c07(thorough: bool) -> Vec<Shard> {
    let mut v = vec![];
    for l in lays().into_iter().chain(lays_more()) {
        for which in ["vector", "hashmap", "external"] {
            for (n, depth) in [(6, 1), (33, 1), (130, 1), (18, 2), (4, 2), (if thorough { 5 } else { 3 }, 3)] {
                let l = l.clone();
                v.push(shard(format!("slice/{which}/{}/{n}x{depth}", l.name), move |cx| {
                    for p in paths(n, depth) {
                        cx.case(
                            || format!("{which} layout={} n={n} slices={p:?}", l.name),
                            |o| match which {
                                "vector" => body_v(&l, n, &p, o),
                                "hashmap" => body_h(&l, n, &p, o),
                                _ => body_e(&l, n, &p, o),
                            },
                        );
                    }
                    // slicing beyond the end must not give access to anything
                    if depth == 1 {
                        for r in [0..n + 1, n..n + 2, 2..n + 3] {
                            cx.case(
                                || format!("{which} layout={} n={n} slice {r:?} beyond the end", l.name),
                                |o| {
                                    o.step();
                                    let m = ids(&l, n);
                                    let mut t = vec![0u8; l.entry];
                                    let k = n - r.start;
                                    macro_rules! beyond {
                                        ($b:expr) => {
                                            must_panic(|| "access to a point behind the end through a slice".into(), || $b.slice(r.clone()).get_point(k, &mut t))?;
                                            must_panic(|| "write to a point behind the end through a slice".into(), || unsafe { $b.slice_mut(r.clone()).set_point(k, &t) })?;
                                        };
                                    }
                                    match which {
                                        "vector" => { beyond!(l.vector(&m)); }
                                        "hashmap" => { beyond!(l.hashmap(&m)); }
                                        _ => { beyond!(l.external(&m)); }
                                    }
                                    Ok(())
                                },
                            );
                        }
                    }
                    // a range that ends before it starts selects nothing, or is refused
                    if depth == 2 && n < 5 {
                        for a in 0..=n {
                            for b in 0..a {
                                cx.case(
                                    || format!("{which} layout={} n={n} reversed slice {a}..{b}", l.name),
                                    |o| {
                                        o.step();
                                        match which {
                                            "vector" => reversed_v(&l, n, a..b),
                                            "hashmap" => reversed_h(&l, n, a..b),
                                            _ => reversed_e(&l, n, a..b),
                                        }
                                    },
                                );
                            }
                        }
                    }
                    if depth == 2 {
                        // a nested slice cannot reach beyond its parent slice
                        for r in ranges(n) {
                            let k = r.len();
                            for q in [0..k + 1, k..k + 1, k + 1..k + 2, 0..n + 1] {
                                if q.end <= k {
                                    continue;
                                }
                                cx.case(
                                    || format!("{which} layout={} n={n} slice {r:?} sliced again with {q:?}", l.name),
                                    |o| {
                                        o.step();
                                        match which {
                                            "vector" => beyond_v(&l, n, r.clone(), q.clone()),
                                            "hashmap" => beyond_h(&l, n, r.clone(), q.clone()),
                                            _ => beyond_e(&l, n, r.clone(), q.clone()),
                                        }
                                    },
                                );
                            }
                        }
                    }
                }));
            }
        }
    }
    v
}

// ---------------------------------------------------------------------------------------------
// C06

/// Layouts that differ from `T` in one respect each.
fn other_layouts(l: &PointLayout) -> Vec<(String, PointLayout)> {
    let members: Vec<PointAttributeMember> = l.attributes().cloned().collect();
    let size = l.size_of_point_entry();
    let mut v: Vec<(String, PointLayout)> = vec![];
    v.push(("additional attribute".into(), PointLayout::from_attributes(
        &members.iter().map(|m| m.attribute_definition().clone()).chain([attributes::NIR]).collect::<Vec<_>>())));
    for (i, m) in members.iter().enumerate() {
        let mut x = members.clone();
        x[i] = m.attribute_definition().with_custom_datatype(if m.datatype() == PointAttributeDataType::I8 { PointAttributeDataType::U8 } else { PointAttributeDataType::I8 }).at_offset_in_type(m.offset());
        v.push((format!("{} with another datatype", m.name()), PointLayout::from_members_and_alignment(&x, 1)));
        let mut x = members.clone();
        x[i] = cust("Renamed", m.datatype()).at_offset_in_type(m.offset());
        v.push((format!("{} renamed", m.name()), PointLayout::from_members_and_alignment(&x, 1)));
        let mut x = members.clone();
        x.remove(i);
        v.push((format!("{} missing", m.name()), PointLayout::from_members_and_alignment(&x, 1)));
    }
    if members.len() > 1 {
        let defs: Vec<_> = members.iter().rev().map(|m| m.attribute_definition().clone()).collect();
        v.push(("attributes in reverse order".into(), PointLayout::from_attributes_packed(&defs, 1)));
        let shifted: Vec<_> = members.iter().map(|m| m.attribute_definition().at_offset_in_type(m.offset() + 8)).collect();
        v.push(("attributes shifted by 8 bytes".into(), PointLayout::from_members_and_alignment(&shifted, 1)));
    }
    // another datatype of the same size
    for (i, m) in members.iter().enumerate() {
        use PointAttributeDataType as D;
        let d = match m.datatype() {
            D::U8 => D::I8,
            D::U16 => D::I16,
            D::U32 => D::F32,
            D::U64 => D::F64,
            D::F64 => D::I64,
            D::F32 => D::I32,
            D::I16 => D::U16,
            D::I32 => D::U32,
            D::I64 => D::U64,
            D::I8 => D::U8,
            D::Vec3f32 => D::Vec3i32,
            d => D::ByteArray(d.size()),
        };
        let mut x = members.clone();
        x[i] = m.attribute_definition().with_custom_datatype(d).at_offset_in_type(m.offset());
        v.push((format!("{} with another datatype of the same size", m.name()), PointLayout::from_members_and_alignment(&x, 1)));
    }
    // two attributes change places
    for i in 0..members.len() {
        for j in 0..i {
            if members[i].size() == members[j].size() {
                let mut x = members.clone();
                x[i] = members[i].attribute_definition().at_offset_in_type(members[j].offset());
                x[j] = members[j].attribute_definition().at_offset_in_type(members[i].offset());
                v.push((format!("{} and {} at each other's place", members[i].name(), members[j].name()), PointLayout::from_members_and_alignment(&x, 1)));
                x.swap(i, j);
                v.push((format!("{} and {} at each other's place and in this order", members[i].name(), members[j].name()), PointLayout::from_members_and_alignment(&x, 1)));
            }
        }
    }
    v.push(("larger points".into(), PointLayout::from_members_and_alignment(&members, 128)));
    // the same size, and one attribute more, at the end of the point or in its padding
    for at in (0..size).rev() {
        if !members.iter().any(|m| (m.offset()..m.offset() + m.size()).contains(&at)) {
            let mut x = members.clone();
            x.push(cust("InPadding", PointAttributeDataType::U8).at_offset_in_type(at));
            v.push((format!("an attribute at the padding byte {at}"), PointLayout::from_members_and_alignment(&x, 1)));
            break;
        }
    }
    if !members.is_empty() {
        v.push(("empty".into(), PointLayout::default()));
    }
    let same = |o: &PointLayout| {
        let places = |l: &PointLayout| {
            let mut v: Vec<_> = l.attributes().map(|m| (m.name().to_string(), m.datatype(), m.offset())).collect();
            v.sort_by(|a, b| a.0.cmp(&b.0));
            v
        };
        places(o) == places(l) && o.size_of_point_entry() == size
    };
    v.retain(|x| !same(&x.1));
    v
}

fn refuse_view<T: Ty>(what: &str, layout: &PointLayout) -> R {
    let mut b = VectorBuffer::new_from_layout(layout.clone());
    b.resize(2);
    let mut h = HashMapBuffer::new_from_layout(layout.clone());
    h.resize(2);
    must_panic(|| format!("view::<{}> of a VectorBuffer with layout: {what}", T::NAME), || b.view::<T>().into_iter().count())?;
    must_panic(|| format!("view_mut::<{}> of a VectorBuffer with layout: {what}", T::NAME), || b.view_mut::<T>().at(0).key())?;
    must_panic(|| format!("view::<{}> of a HashMapBuffer with layout: {what}", T::NAME), || h.view::<T>().into_iter().count())?;
    must_panic(|| format!("view_mut::<{}> of a HashMapBuffer with layout: {what}", T::NAME), || h.view_mut::<T>().at(0).key())?;
    must_panic(|| format!("view::<{}> of a slice with layout: {what}", T::NAME), || b.slice(0..1).view::<T>().into_iter().count())?;
    Ok(())
}

fn c06_typed<T: Ty>() -> Vec<Shard> {
    vec![shard(format!("typed/{}", T::NAME), |cx| {
        let t = T::layout();
        for (what, layout) in other_layouts(&t) {
            cx.case(
                || format!("view::<{}> of a buffer whose layout has: {what}", T::NAME),
                |o| {
                    o.steps(5);
                    o.state(&what);
                    refuse_view::<T>(&what, &layout)
                },
            );
        }
        for n in 0..4 {
            for i in [n, n + 1, usize::MAX / 64] {
                cx.case(
                    || format!("{} typed access to point {i} of {n}", T::NAME),
                    |o| {
                        o.steps(8);
                        o.state(&(n, i));
                        let p = pts::<T>(n);
                        let mut v = p.iter().copied().collect::<VectorBuffer>();
                        let mut h = p.iter().copied().collect::<HashMapBuffer>();
                        let w = || format!("point {i} of {n}");
                        must_panic(w, || v.view::<T>().at(i))?;
                        must_panic(w, || v.view::<T>().at_ref(i).key())?;
                        must_panic(w, || v.view_mut::<T>().at(i))?;
                        must_panic(w, || v.view_mut::<T>().at_ref(i).key())?;
                        must_panic(w, || v.view_mut::<T>().at_mut(i).key())?;
                        must_panic(w, || v.view_mut::<T>().set_at(i, T::mk(1, 1)))?;
                        must_panic(w, || h.view::<T>().at(i))?;
                        must_panic(w, || h.view_mut::<T>().at(i))?;
                        must_panic(w, || h.view_mut::<T>().set_at(i, T::mk(1, 1)))?;
                        Ok(())
                    },
                );
            }
        }
    })]
}

/// Typed attribute views: every (attribute, Rust type) combination.
fn c06_attr(l: &Lay) -> Shard {
    let l = l.clone();
    shard(format!("attr/{}", l.name), move |cx| {
        let n = 2;
        for a in 0..l.attrs.len() {
            for d in crate::conv::all_types() {
                let here = l.attrs[a].datatype();
                cx.case(
                    || format!("layout={} typed view of {} as {d}", l.name, l.attrs[a]),
                    |o| {
                        o.steps(8);
                        o.state(&(a, d));
                        let m = ids(&l, n);
                        let mut v = l.vector(&m);
                        let mut h = l.hashmap(&m);
                        let asked = l.attrs[a].with_custom_datatype(d);
                        crate::with_type!(d, T, {
                            // the attribute as it is in the layout, viewed as T
                            let ok = guard(|| v.view_attribute::<T>(&l.attrs[a]).at(0)).is_ok();
                            ensure_eq!(ok, d == here, "VectorBuffer::view_attribute accepted");
                            let ok = guard(|| h.view_attribute::<T>(&l.attrs[a]).at(0)).is_ok();
                            ensure_eq!(ok, d == here, "HashMapBuffer::view_attribute accepted");
                            let ok = guard(|| v.view_attribute_mut::<T>(&l.attrs[a]).at(0)).is_ok();
                            ensure_eq!(ok, d == here, "VectorBuffer::view_attribute_mut accepted");
                            let ok = guard(|| h.view_attribute_mut::<T>(&l.attrs[a]).at(0)).is_ok();
                            ensure_eq!(ok, d == here, "HashMapBuffer::view_attribute_mut accepted");
                            // same name with datatype T
                            let ok = guard(|| v.view_attribute::<T>(&asked).at(0)).is_ok();
                            ensure_eq!(ok, d == here, "VectorBuffer::view_attribute of {asked} accepted");
                            let ok = guard(|| h.view_attribute::<T>(&asked).at(0)).is_ok();
                            ensure_eq!(ok, d == here, "HashMapBuffer::view_attribute of {asked} accepted");
                            // unknown attribute
                            let un = cust("NoSuchAttribute", d);
                            must_panic(|| format!("view_attribute({un})"), || v.view_attribute::<T>(&un).at(0))?;
                            must_panic(|| format!("view_attribute({un})"), || h.view_attribute::<T>(&un).at(0))?;
                            must_panic(|| format!("view_attribute_mut({un})"), || v.view_attribute_mut::<T>(&un).at(0))?;
                            must_panic(|| format!("transform_attribute({un})"), || v.transform_attribute::<T, _>(&un, |_, x| x))?;
                            if d == here {
                                for i in [n, n + 1] {
                                    must_panic(|| format!("at({i})"), || v.view_attribute::<T>(&l.attrs[a]).at(i))?;
                                    must_panic(|| format!("at({i})"), || h.view_attribute::<T>(&l.attrs[a]).at(i))?;
                                    must_panic(|| format!("at_ref({i})"), || *h.view_attribute::<T>(&l.attrs[a]).at_ref(i))?;
                                    let z = v.view_attribute::<T>(&l.attrs[a]).at(0);
                                    must_panic(|| format!("set_at({i})"), || v.view_attribute_mut::<T>(&l.attrs[a]).set_at(i, z))?;
                                    must_panic(|| format!("set_at({i})"), || h.view_attribute_mut::<T>(&l.attrs[a]).set_at(i, z))?;
                                    must_panic(|| format!("at_mut({i})"), || *h.view_attribute_mut::<T>(&l.attrs[a]).at_mut(i))?;
                                }
                            } else {
                                must_panic(|| format!("transform_attribute as {d}"), || v.transform_attribute::<T, _>(&l.attrs[a], |_, x| x))?;
                                must_panic(|| format!("transform_attribute as {d}"), || h.transform_attribute::<T, _>(&l.attrs[a], |_, x| x))?;
                            }
                        });
                        observe(&v, &l, &m, Mem::Inter)?;
                        observe(&h, &l, &m, Mem::Col)
                    },
                );
            }
        }
    })
}

fn c06_untyped(l: &Lay) -> Shard {
    let l = l.clone();
    shard(format!("untyped/{}", l.name), move |cx| {
        for n in 0..4usize {
            for which in ["vector", "hashmap", "external"] {
                cx.case(
                    || format!("{which} layout={} n={n}: reads out of range or of unknown attributes", l.name),
                    |o| {
                        o.step();
                        o.state(&(n, which));
                        let m = ids(&l, n);
                        match which {
                            "vector" => observe_oob(&l.vector(&m), &l, n),
                            "hashmap" => observe_oob(&l.hashmap(&m), &l, n),
                            _ => observe_oob(&l.external(&m), &l, n),
                        }
                    },
                );
                for w in crate::write::bad_wops(&l, n, which != "hashmap", which == "hashmap") {
                    cx.case(
                        || format!("{which} layout={} n={n}: {w:?}", l.name),
                        |o| {
                            o.step();
                            let m = ids(&l, n);
                            macro_rules! bad {
                                ($b:expr, $mem:expr) => {{
                                    let mut b = $b;
                                    if let Ok(true) = guard(|| crate::write::perform(&mut b, &l, &w)) {
                                        return Err(format!("{w:?} must be refused"));
                                    }
                                    // the points that were not addressed are untouched
                                    let left = crate::write::snapshot(&b, &l);
                                    ensure_eq!(left.len(), n, "length");
                                    for i in 0..n {
                                        if !crate::write::addresses(&w, i) {
                                            ensure_eq!(left[i], m[i], "point {i}, which was not addressed");
                                        }
                                    }
                                }};
                            }
                            match which {
                                "vector" => bad!(l.vector(&m), Mem::Inter),
                                "hashmap" => bad!(l.hashmap(&m), Mem::Col),
                                _ => bad!(l.external(&m), Mem::Inter),
                            }
                            Ok(())
                        },
                    );
                }
            }
            // external memory that is not a whole number of points
            if l.entry > 1 {
                for extra in 1..l.entry {
                    cx.case(
                        || format!("ExternalMemoryBuffer layout={} over {} bytes", l.name, n * l.entry + extra),
                        |o| {
                            o.step();
                            must_panic(|| "ExternalMemoryBuffer over a fraction of a point".into(), || ExternalMemoryBuffer::new(vec![0u8; n * l.entry + extra], l.layout.clone()).len())
                        },
                    );
                }
            }
        }
    })
}

/// Operations between buffers of layouts that differ in one respect: refused, and nothing changes
fn c06_between(l: Lay) -> Shard {
    shard(format!("between/{}", l.name), move |cx| {
        for (what, layout) in other_layouts(&l.layout) {
            let ol = Lay::new("near", layout);
            for (to, from, dir) in [(&l, &ol, "into"), (&ol, &l, "from")] {
                for old in [0usize, 1, 3] {
                    for n in [0usize, 1, 2] {
                        cx.case(
                            || format!("{n} points into {old} ones: layout {} {dir} a layout with {what}", l.name),
                            |o| {
                                o.steps(13);
                                o.state(&(&what, dir, old, n));
                                let (before, new) = (to.pts(&vec![7u8; old]), from.pts(&vec![9u8; n]));
                                let (sv, sh, se) = (from.vector(&new), from.hashmap(&new), from.external(&new));
                                let mut tv = to.vector(&before);
                                let mut th = to.hashmap(&before);
                                macro_rules! refuse {
                                    ($t:ident, $m:ident, $s:expr, $name:expr) => {{
                                        must_panic(|| format!("{}: {} of points with another layout", stringify!($m), $name), || $t.$m($s))?;
                                        ensure_eq!($t.len(), old, "{}: number of points after the refusal", $name);
                                    }};
                                }
                                refuse!(tv, append, &sv, "VectorBuffer <- VectorBuffer");
                                refuse!(tv, append, &sh, "VectorBuffer <- HashMapBuffer");
                                refuse!(tv, append, &se, "VectorBuffer <- ExternalMemoryBuffer");
                                refuse!(tv, append, &sv.slice(0..n), "VectorBuffer <- slice");
                                refuse!(tv, append_interleaved, &sv, "VectorBuffer <- VectorBuffer");
                                refuse!(tv, append_interleaved, &se, "VectorBuffer <- ExternalMemoryBuffer");
                                refuse!(tv, append_columnar, &sh, "VectorBuffer <- HashMapBuffer");
                                refuse!(th, append, &sv, "HashMapBuffer <- VectorBuffer");
                                refuse!(th, append, &sh, "HashMapBuffer <- HashMapBuffer");
                                refuse!(th, append_interleaved, &sv, "HashMapBuffer <- VectorBuffer");
                                refuse!(th, append_columnar, &sh, "HashMapBuffer <- HashMapBuffer");
                                if old >= n {
                                    for hint in [None, Some(n)] {
                                        must_panic(|| "filter_into a VectorBuffer with another layout".into(), || sh.filter_into(&mut tv, |_| true, hint))?;
                                        must_panic(|| "filter_into a HashMapBuffer with another layout".into(), || sh.filter_into(&mut th, |_| true, hint))?;
                                    }
                                }
                                observe(&tv, to, &before, Mem::Inter)?;
                                observe(&th, to, &before, Mem::Col)
                            },
                        );
                    }
                }
            }
        }
    })
}

pub fn c06(_thorough: bool) -> Vec<Shard> {
    let mut v = vec![];
    for l in lays().into_iter().chain(lays_more()) {
        v.push(c06_between(l));
    }
    all_types!(v, c06_typed);
    for l in lays().into_iter().chain(lays_more()) {
        v.push(c06_attr(&l));
        v.push(c06_untyped(&l));
    }
    v
}
