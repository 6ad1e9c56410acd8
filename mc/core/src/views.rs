//! C09: typed point and attribute views against a plain `Vec<T>`.
use crate::all_types;
use crate::lay::*;
use crate::types::*;
use fw::*;
use pasture_core::containers::*;
use pasture_core::layout::*;
use std::cmp::Ordering;

fn lay_of<T: Ty>() -> Lay {
    Lay::new(T::NAME, T::layout())
}
/// The model of a typed buffer as untyped points.
fn untyped<T: Ty>(l: &Lay, p: &[T]) -> Vec<Pt> {
    p.iter().map(|p| (0..l.attrs.len()).map(|a| bytemuck::bytes_of(p)[l.offs[a]..l.offs[a] + l.sizes[a]].to_vec()).collect()).collect()
}
fn ext<T: Ty>(p: &[T]) -> ExternalMemoryBuffer<Vec<u8>> {
    ExternalMemoryBuffer::new(p.iter().flat_map(|p| bytemuck::bytes_of(p).to_vec()).collect(), T::layout())
}
fn vals<A: PrimitiveType>(l: &Lay, p: &[Pt], a: usize) -> Vec<A> {
    let _ = l;
    p.iter().map(|p| bytemuck::pod_read_unaligned(&p[a])).collect()
}

fn read_any<'a, T: Ty, B: BorrowedBuffer<'a> + 'a>(b: &B, e: &[T]) -> R {
    let l = lay_of::<T>();
    let v = b.view::<T>();
    for (i, x) in e.iter().enumerate() {
        ensure_eq!(v.at(i), *x, "view().at({i})");
    }
    must_panic(|| format!("view().at({}) with {} points", e.len(), e.len()), || b.view::<T>().at(e.len()))?;
    ensure_eq!(b.view::<T>().into_iter().collect::<Vec<_>>(), e, "view().into_iter()");
    let m = untyped(&l, e);
    for a in 0..l.attrs.len() {
        crate::with_few!(l.attrs[a].datatype(), A, {
            let x: Vec<A> = vals(&l, &m, a);
            let v = b.view_attribute::<A>(&l.attrs[a]);
            for i in 0..e.len() {
                ensure_eq!(v.at(i), x[i], "view_attribute({}).at({i})", l.attrs[a]);
            }
            must_panic(|| format!("view_attribute({}).at({}) with {} points", l.attrs[a], e.len(), e.len()), || b.view_attribute::<A>(&l.attrs[a]).at(e.len()))?;
            ensure_eq!(b.view_attribute::<A>(&l.attrs[a]).into_iter().collect::<Vec<_>>(), x, "view_attribute({}).into_iter()", l.attrs[a]);
        });
    }
    Ok(())
}
fn read_inter<'a, T: Ty, B: InterleavedBuffer<'a> + 'a>(b: &B, e: &[T]) -> R {
    read_any(b, e)?;
    let v = b.view::<T>();
    for (i, x) in e.iter().enumerate() {
        ensure_eq!(*v.at_ref(i), *x, "view().at_ref({i})");
    }
    must_panic(|| "view().at_ref(len)".into(), || *b.view::<T>().at_ref(e.len()))?;
    ensure_eq!(v.iter().copied().collect::<Vec<_>>(), e, "view().iter()");
    Ok(())
}
fn read_col<'a, T: Ty, B: ColumnarBuffer<'a> + 'a>(b: &B, e: &[T]) -> R {
    read_any(b, e)?;
    let l = lay_of::<T>();
    let m = untyped(&l, e);
    for a in 0..l.attrs.len() {
        crate::with_few!(l.attrs[a].datatype(), A, {
            let x: Vec<A> = vals(&l, &m, a);
            let v = b.view_attribute::<A>(&l.attrs[a]);
            for i in 0..e.len() {
                ensure_eq!(*v.at_ref(i), x[i], "view_attribute({}).at_ref({i})", l.attrs[a]);
            }
            must_panic(|| "view_attribute().at_ref(len)".into(), || *b.view_attribute::<A>(&l.attrs[a]).at_ref(e.len()))?;
            ensure_eq!(v.iter().copied().collect::<Vec<_>>(), x, "view_attribute({}).iter()", l.attrs[a]);
        });
    }
    Ok(())
}

fn flip<A: PrimitiveType>(x: &A) -> A {
    let mut y = *x;
    bytemuck::bytes_of_mut(&mut y)[0] ^= 0x24;
    y
}

/// Writes through the typed views; every write is followed by a full read.
fn write_any<'a, T: Ty, B: BorrowedMutBuffer<'a> + 'a>(b: &mut B, e: &mut Vec<T>, o: &mut Obs) -> R {
    let l = lay_of::<T>();
    for i in 0..e.len() {
        let x = T::mk((i as u8 * 2 + 1) % 3, 9 + i as u8 % 5);
        b.view_mut::<T>().set_at(i, x);
        e[i] = x;
        ensure_eq!(b.view_mut::<T>().at(i), x, "view_mut().at({i}) after set_at({i})");
        o.step();
        read_any(b, e).map_err(|m| format!("after view_mut().set_at({i}): {m}"))?;
        for a in 0..l.attrs.len() {
            crate::with_few!(l.attrs[a].datatype(), A, {
                let mut v = b.view_attribute_mut::<A>(&l.attrs[a]);
                let x = flip(&v.at(i));
                v.set_at(i, x);
                ensure_eq!(v.at(i), x, "view_attribute_mut({}).at({i}) after set_at", l.attrs[a]);
                bytemuck::bytes_of_mut(&mut e[i])[l.offs[a]..l.offs[a] + l.sizes[a]].copy_from_slice(bytemuck::bytes_of(&x));
                o.step();
                read_any(b, e).map_err(|m| format!("after view_attribute_mut({}).set_at({i}): {m}", l.attrs[a]))?;
            });
        }
    }
    let n = e.len();
    must_panic(|| "view_mut().at(len)".into(), || b.view_mut::<T>().at(n))?;
    must_panic(|| "view_mut().set_at(len)".into(), || b.view_mut::<T>().set_at(n, T::mk(0, 1)))?;
    for a in 0..l.attrs.len() {
        crate::with_few!(l.attrs[a].datatype(), A, {
            must_panic(|| format!("view_attribute_mut({}).at(len)", l.attrs[a]), || b.view_attribute_mut::<A>(&l.attrs[a]).at(n))?;
            must_panic(|| format!("view_attribute_mut({}).set_at(len)", l.attrs[a]), || b.view_attribute_mut::<A>(&l.attrs[a]).set_at(n, bytemuck::Zeroable::zeroed()))?;
        });
    }
    read_any(b, e).map_err(|m| format!("after refused accesses: {m}"))
}
fn write_inter<'a, T: Ty, B: InterleavedBufferMut<'a> + 'a>(b: &mut B, e: &mut Vec<T>, o: &mut Obs) -> R {
    write_any(b, e, o)?;
    for i in 0..e.len() {
        let x = T::mk((i as u8 + 2) % 3, 3 + i as u8 % 5);
        *b.view_mut::<T>().at_mut(i) = x;
        e[i] = x;
        o.step();
        let now = *b.view_mut::<T>().at_ref(i);
        ensure_eq!(now, x, "view_mut().at_ref({i})");
        read_inter(b, e).map_err(|m| format!("after *view_mut().at_mut({i}) = ..: {m}"))?;
    }
    ensure_eq!(b.view_mut::<T>().iter().copied().collect::<Vec<_>>(), *e, "view_mut().iter()");
    let mut k = 0;
    for x in b.view_mut::<T>().iter_mut() {
        ensure_eq!(*x, e[k], "view_mut().iter_mut() item {k}");
        *x = T::mk(2 - x.key() % 3, 1 + k as u8 % 7);
        e[k] = *x;
        k += 1;
    }
    ensure_eq!(k, e.len(), "view_mut().iter_mut() items");
    o.step();
    read_inter(b, e).map_err(|m| format!("after writing through iter_mut: {m}"))?;
    b.view_mut::<T>().sort_by(|x, y| x.key().cmp(&y.key()));
    e.sort_by_key(|x| x.key());
    o.step();
    read_inter(b, e).map_err(|m| format!("after sort_by: {m}"))
}
fn write_col<'a, T: Ty, B: ColumnarBufferMut<'a> + 'a>(b: &mut B, e: &mut Vec<T>, o: &mut Obs) -> R {
    write_any(b, e, o)?;
    let l = lay_of::<T>();
    for a in 0..l.attrs.len() {
        crate::with_few!(l.attrs[a].datatype(), A, {
            for i in 0..e.len() {
                let x = {
                    let mut v = b.view_attribute_mut::<A>(&l.attrs[a]);
                    let p = v.at_mut(i);
                    *p = flip(p);
                    *p
                };
                let now = *b.view_attribute_mut::<A>(&l.attrs[a]).at_ref(i);
                ensure_eq!(now, x, "view_attribute_mut().at_ref({i})");
                bytemuck::bytes_of_mut(&mut e[i])[l.offs[a]..l.offs[a] + l.sizes[a]].copy_from_slice(bytemuck::bytes_of(&x));
                o.step();
                read_col(b, e).map_err(|m| format!("after *view_attribute_mut({}).at_mut({i}) = ..: {m}", l.attrs[a]))?;
            }
            let now: Vec<A> = vals(&l, &untyped(&l, e), a);
            ensure_eq!(b.view_attribute_mut::<A>(&l.attrs[a]).iter().copied().collect::<Vec<_>>(), now, "view_attribute_mut().iter()");
            let mut k = 0;
            {
                let mut v = b.view_attribute_mut::<A>(&l.attrs[a]);
                for x in v.iter_mut() {
                    ensure_eq!(*x, now[k], "view_attribute_mut().iter_mut() item {k}");
                    *x = flip(x);
                    bytemuck::bytes_of_mut(&mut e[k])[l.offs[a]..l.offs[a] + l.sizes[a]].copy_from_slice(bytemuck::bytes_of(&*x));
                    k += 1;
                }
            }
            ensure_eq!(k, e.len(), "view_attribute_mut().iter_mut() items");
            o.step();
            read_col(b, e).map_err(|m| format!("after writing {} through iter_mut: {m}", l.attrs[a]))?;
        });
    }
    Ok(())
}
fn owner<'a, T: Ty, B: OwningBuffer<'a> + 'a>(b: &mut B, e: &mut Vec<T>, o: &mut Obs) -> R {
    for k in 0..3 {
        let x = T::mk(k, 11 - k);
        b.view_mut::<T>().push_point(x);
        e.push(x);
        o.step();
        read_any(b, e).map_err(|m| format!("after push_point: {m}"))?;
    }
    Ok(())
}

fn kinds<T: Ty>(kind: &str, n: usize, o: &mut Obs) -> R {
    let all = pts::<T>(n + 3);
    let mut e = all[1..n + 1].to_vec();
    o.state(&(kind, n));
    o.step();
    match kind {
        "vector" => {
            let mut b = e.iter().copied().collect::<VectorBuffer>();
            read_inter(&b, &e)?;
            write_inter(&mut b, &mut e, o)?;
            owner(&mut b, &mut e, o)?;
            read_inter(&b, &e)
        }
        "hashmap" => {
            let mut b = e.iter().copied().collect::<HashMapBuffer>();
            read_col(&b, &e)?;
            write_col(&mut b, &mut e, o)?;
            owner(&mut b, &mut e, o)?;
            read_col(&b, &e)
        }
        "external" => {
            let mut b = ext(&e);
            read_inter(&b, &e)?;
            write_inter(&mut b, &mut e, o)?;
            read_inter(&b, &e)
        }
        "slice_vector" => {
            let mut b = all.iter().copied().collect::<VectorBuffer>();
            read_inter(&b.slice(1..n + 1), &e)?;
            write_inter(&mut b.slice_mut(1..n + 1), &mut e, o)?;
            read_inter(&b.slice_mut(1..n + 1), &e)?;
            outside(&b, &all, n, &e)
        }
        "slice_hashmap" => {
            let mut b = all.iter().copied().collect::<HashMapBuffer>();
            read_col(&b.slice(1..n + 1), &e)?;
            write_col(&mut b.slice_mut(1..n + 1), &mut e, o)?;
            read_col(&b.slice_mut(1..n + 1), &e)?;
            outside(&b, &all, n, &e)
        }
        _ => {
            let mut b = ext(&all);
            read_inter(&b.slice(1..n + 1), &e)?;
            write_inter(&mut b.slice_mut(1..n + 1), &mut e, o)?;
            read_inter(&b.slice_mut(1..n + 1), &e)?;
            outside(&b, &all, n, &e)
        }
    }
}
fn outside<'a, T: Ty, B: BorrowedBuffer<'a> + 'a>(b: &B, all: &[T], n: usize, e: &[T]) -> R {
    let mut x = vec![all[0]];
    x.extend_from_slice(e);
    x.extend_from_slice(&all[n + 1..]);
    read_any(b, &x).map_err(|m| format!("the whole buffer after writing through a slice: {m}"))
}

type Cmp = (&'static str, fn(u8, u8) -> Ordering);
fn cmps() -> Vec<Cmp> {
    vec![
        ("ascending", |a, b| a.cmp(&b)),
        ("descending", |a, b| b.cmp(&a)),
        ("zero last", |a, b| (a == 0).cmp(&(b == 0))),
        ("all equal", |_, _| Ordering::Equal),
    ]
}
fn sort_case<T: Ty>(keys: &[u8], c: &Cmp, o: &mut Obs) -> R {
    let e: Vec<T> = keys.iter().enumerate().map(|(i, k)| T::mk(*k, i as u8 % 16)).collect();
    let mut s = e.clone();
    s.sort_by(|x, y| c.1(x.key(), y.key()));
    o.state(&(keys, c.0));
    o.steps(3);
    let cmp = |x: &T, y: &T| c.1(x.key(), y.key());
    let mut b = e.iter().copied().collect::<VectorBuffer>();
    b.view_mut::<T>().sort_by(cmp);
    ensure_eq!(b.view::<T>().into_iter().collect::<Vec<_>>(), s, "sorted VectorBuffer");
    let mut b = ext(&e);
    b.view_mut::<T>().sort_by(cmp);
    ensure_eq!(b.view::<T>().into_iter().collect::<Vec<_>>(), s, "sorted ExternalMemoryBuffer");
    if e.len() >= 2 {
        let r = 1..e.len();
        let mut s = e.clone();
        s[r.clone()].sort_by(cmp);
        let mut b = e.iter().copied().collect::<VectorBuffer>();
        b.slice_mut(r).view_mut::<T>().sort_by(cmp);
        ensure_eq!(b.view::<T>().into_iter().collect::<Vec<_>>(), s, "VectorBuffer whose tail was sorted");
    }
    Ok(())
}
fn sorts<T: Ty>(cx: &mut Cx) {
    let maxn = cx.tier(5, 8);
    for n in 0..=maxn {
        let total = 3u32.pow(n);
        for code in 0..total {
            let keys: Vec<u8> = (0..n).map(|i| (code / 3u32.pow(i) % 3) as u8).collect();
            for c in cmps() {
                cx.case(|| format!("{} keys {keys:?} sorted {}", T::NAME, c.0), |o| sort_case::<T>(&keys, &c, o));
            }
        }
    }
    // beyond the sizes for which sorting algorithms switch to insertion sort
    for n in [19usize, 20, 21, 22, 32, 33, 50, 64, 65, 100] {
        for (name, f) in [("i%3", (|i, _| i % 3) as fn(usize, usize) -> usize), ("reverse", |i, n| (n - i) % 7), ("blocks", |i, n| i * 3 / n), ("saw", |i, _| (i * 7 + 3) % 5), ("const", |_, _| 1), ("two runs", |i, n| if i < n / 2 { i * 4 / n } else { (i - n / 2) * 4 / n })] {
            let keys: Vec<u8> = (0..n).map(|i| f(i, n) as u8).collect();
            for c in cmps() {
                cx.case(|| format!("{} n={n} keys {name} sorted {}", T::NAME, c.0), |o| sort_case::<T>(&keys, &c, o));
            }
        }
    }
}

/// Equality of views is equality of the viewed values, whatever the memory layouts are.
fn equality<T: Ty>(cx: &mut Cx) {
    let l = lay_of::<T>();
    // one point, and points that differ from it in exactly one attribute
    let base = T::mk(1, 5);
    let mut alpha = vec![base];
    for a in 0..l.attrs.len() {
        let mut p = base;
        let b = &mut bytemuck::bytes_of_mut(&mut p)[l.offs[a]..l.offs[a] + l.sizes[a]];
        let k = b.len() - 1;
        b[k] ^= 1;
        alpha.push(p);
    }
    let mut seqs: Vec<Vec<T>> = vec![vec![]];
    for x in &alpha {
        seqs.push(vec![*x]);
        for y in &alpha {
            seqs.push(vec![*x, *y]);
        }
    }
    seqs.push(vec![base; 3]);
    for x in 0..seqs.len() {
        for y in 0..seqs.len() {
            let (s, t) = (&seqs[x], &seqs[y]);
            cx.case(
                || format!("{} view of {s:?} == view of {t:?}", T::NAME),
                |o| {
                    o.steps(9);
                    o.state(&(x, y));
                    let mut v1 = s.iter().copied().collect::<VectorBuffer>();
                    let mut h1 = s.iter().copied().collect::<HashMapBuffer>();
                    let e1 = ext(s);
                    let mut v2 = t.iter().copied().collect::<VectorBuffer>();
                    let mut h2 = t.iter().copied().collect::<HashMapBuffer>();
                    let e2 = ext(t);
                    let e = s == t;
                    ensure_eq!(v1.view::<T>() == v2.view::<T>(), e, "vector == vector");
                    ensure_eq!(v1.view::<T>() == h2.view::<T>(), e, "vector == hashmap");
                    ensure_eq!(v1.view::<T>() == e2.view::<T>(), e, "vector == external");
                    ensure_eq!(h1.view::<T>() == v2.view::<T>(), e, "hashmap == vector");
                    ensure_eq!(h1.view::<T>() == h2.view::<T>(), e, "hashmap == hashmap");
                    ensure_eq!(e1.view::<T>() == h2.view::<T>(), e, "external == hashmap");
                    ensure_eq!(v1.view_mut::<T>() == v2.view_mut::<T>(), e, "vector mut == vector mut");
                    ensure_eq!(v1.view_mut::<T>() == h2.view_mut::<T>(), e, "vector mut == hashmap mut");
                    ensure_eq!(h1.view_mut::<T>() == h2.view_mut::<T>(), e, "hashmap mut == hashmap mut");
                    ensure_eq!(v1 == v2, e, "VectorBuffer == VectorBuffer");
                    ensure_eq!(h1 == h2, e, "HashMapBuffer == HashMapBuffer");
                    let (p1, p2) = (untyped(&l, s), untyped(&l, t));
                    // the same values in buffers of other layouts: attributes in reverse order, and
                    // each attribute alone
                    let rev: Vec<_> = l.attrs.iter().rev().cloned().collect();
                    for a in 0..l.attrs.len() {
                        let at = &l.attrs[a];
                        crate::with_few!(at.datatype(), A, {
                            let (x1, x2) = (vals::<A>(&l, &p1, a), vals::<A>(&l, &p2, a));
                            let e = x1 == x2;
                            for (which, other) in [("reversed", PointLayout::from_attributes(&rev)), ("packed and reversed", PointLayout::from_attributes_packed(&rev, 1)), ("single", PointLayout::from_attributes(&[at.clone()]))] {
                                let mut v3 = VectorBuffer::new_from_layout(other.clone());
                                let mut h3 = HashMapBuffer::new_from_layout(other);
                                v3.resize(t.len());
                                h3.resize(t.len());
                                for (i, x) in x2.iter().enumerate() {
                                    v3.view_attribute_mut::<A>(at).set_at(i, *x);
                                    h3.view_attribute_mut::<A>(at).set_at(i, *x);
                                }
                                o.steps(5);
                                ensure_eq!(v1.view_attribute::<A>(at) == v3.view_attribute::<A>(at), e, "{at}: vector == vector with {which} layout");
                                ensure_eq!(v3.view_attribute::<A>(at) == h1.view_attribute::<A>(at), e, "{at}: vector with {which} layout == hashmap");
                                ensure_eq!(h3.view_attribute::<A>(at) == v1.view_attribute::<A>(at), e, "{at}: hashmap with {which} layout == vector");
                                ensure_eq!(h1.view_attribute_mut::<A>(at) == v3.view_attribute_mut::<A>(at), e, "{at}: hashmap mut == vector mut with {which} layout");
                                ensure_eq!(
                                    v1.view_attribute_with_conversion::<A>(at).unwrap() == h3.view_attribute_with_conversion::<A>(at).unwrap(),
                                    e,
                                    "{at}: converting views, {which} layout"
                                );
                            }
                        });
                    }
                    for a in 0..l.attrs.len() {
                        let at = &l.attrs[a];
                        crate::with_few!(at.datatype(), A, {
                            let e = vals::<A>(&l, &p1, a) == vals::<A>(&l, &p2, a);
                            ensure_eq!(v1.view_attribute::<A>(at) == v2.view_attribute::<A>(at), e, "{at}: vector == vector");
                            ensure_eq!(v1.view_attribute::<A>(at) == h2.view_attribute::<A>(at), e, "{at}: vector == hashmap");
                            ensure_eq!(h1.view_attribute::<A>(at) == e2.view_attribute::<A>(at), e, "{at}: hashmap == external");
                            ensure_eq!(v1.view_attribute_mut::<A>(at) == v2.view_attribute_mut::<A>(at), e, "{at}: vector mut == vector mut");
                            ensure_eq!(v1.view_attribute_mut::<A>(at) == h2.view_attribute_mut::<A>(at), e, "{at}: vector mut == hashmap mut");
                            ensure_eq!(
                                v1.view_attribute_with_conversion::<A>(at).unwrap() == h2.view_attribute_with_conversion::<A>(at).unwrap(),
                                e,
                                "{at}: converting views"
                            );
                        });
                    }
                    Ok(())
                },
            );
        }
    }
}

/// Equality follows the values where it is not equality of the bytes: NaN differs from itself, and the two
/// zeros are equal.
fn equality_floats<T: Ty>(cx: &mut Cx) {
    let l = lay_of::<T>();
    let base = T::mk(1, 5);
    let mut alpha = vec![base];
    for a in 0..l.attrs.len() {
        let (step, v): (usize, Vec<Vec<u8>>) = match l.attrs[a].datatype() {
            PointAttributeDataType::F64 | PointAttributeDataType::Vec3f64 => (8, [f64::NAN, 0.0, -0.0, f64::INFINITY].iter().map(|x| x.to_ne_bytes().to_vec()).collect()),
            PointAttributeDataType::Vec3f32 => (4, [f32::NAN, 0.0, -0.0, f32::INFINITY].iter().map(|x| x.to_ne_bytes().to_vec()).collect()),
            _ => continue,
        };
        for c in (0..l.sizes[a]).step_by(step) {
            for v in &v {
                let mut p = base;
                bytemuck::bytes_of_mut(&mut p)[l.offs[a] + c..l.offs[a] + c + step].copy_from_slice(v);
                alpha.push(p);
            }
        }
    }
    let mut seqs: Vec<Vec<T>> = vec![];
    for x in &alpha {
        seqs.push(vec![*x]);
        seqs.push(vec![base, *x]);
        seqs.push(vec![*x, base]);
    }
    for x in 0..seqs.len() {
        for y in 0..seqs.len() {
            let (s, t) = (&seqs[x], &seqs[y]);
            if s.len() != t.len() {
                continue;
            }
            cx.case(
                || format!("{} view of {s:?} == view of {t:?}", T::NAME),
                |o| {
                    o.steps(9);
                    o.state(&(x, y));
                    let mut v1 = s.iter().copied().collect::<VectorBuffer>();
                    let mut h1 = s.iter().copied().collect::<HashMapBuffer>();
                    let e1 = ext(s);
                    let mut v2 = t.iter().copied().collect::<VectorBuffer>();
                    let mut h2 = t.iter().copied().collect::<HashMapBuffer>();
                    let e = s == t;
                    ensure_eq!(v1.view::<T>() == v2.view::<T>(), e, "vector == vector");
                    ensure_eq!(v1.view::<T>() == v1.view::<T>(), s == s, "vector == itself");
                    ensure_eq!(h1.view::<T>() == v2.view::<T>(), e, "hashmap == vector");
                    ensure_eq!(h1.view::<T>() == h2.view::<T>(), e, "hashmap == hashmap");
                    ensure_eq!(e1.view::<T>() == h2.view::<T>(), e, "external == hashmap");
                    ensure_eq!(v1.view_mut::<T>() == v2.view_mut::<T>(), e, "vector mut == vector mut");
                    ensure_eq!(v1.view_mut::<T>() == h2.view_mut::<T>(), e, "vector mut == hashmap mut");
                    let (p1, p2) = (untyped(&l, s), untyped(&l, t));
                    for a in 0..l.attrs.len() {
                        let at = &l.attrs[a];
                        crate::with_few!(at.datatype(), A, {
                            let e = vals::<A>(&l, &p1, a) == vals::<A>(&l, &p2, a);
                            ensure_eq!(v1.view_attribute::<A>(at) == v2.view_attribute::<A>(at), e, "{at}: vector == vector");
                            ensure_eq!(h1.view_attribute::<A>(at) == h2.view_attribute::<A>(at), e, "{at}: hashmap == hashmap");
                            ensure_eq!(h1.view_attribute::<A>(at) == v2.view_attribute::<A>(at), e, "{at}: hashmap == vector");
                            ensure_eq!(v1.view_attribute_mut::<A>(at) == v2.view_attribute_mut::<A>(at), e, "{at}: vector mut == vector mut");
                            ensure_eq!(h1.view_attribute_mut::<A>(at) == h2.view_attribute_mut::<A>(at), e, "{at}: hashmap mut == hashmap mut");
                            ensure_eq!(
                                v1.view_attribute_with_conversion::<A>(at).unwrap() == h2.view_attribute_with_conversion::<A>(at).unwrap(),
                                e,
                                "{at}: converting views"
                            );
                        });
                    }
                    Ok(())
                },
            );
        }
    }
}

/// Views of two different attributes are not views of the same thing, even when all values are the same.
fn equality_names(cx: &mut Cx) {
    fn one<A: PrimitiveType + PartialEq>(n: usize, o: &mut Obs) -> R {
        let (a, b) = (PointAttributeDefinition::custom("A".into(), A::data_type()), PointAttributeDefinition::custom("B".into(), A::data_type()));
        let lay = PointLayout::from_attributes(&[a.clone(), b.clone()]);
        let (mut v, mut h) = (VectorBuffer::new_from_layout(lay.clone()), HashMapBuffer::new_from_layout(lay.clone()));
        v.resize(n);
        h.resize(n);
        let (mut w, mut g) = (v.clone(), h.clone());
        o.steps(14);
        for (x, y) in [(&a, &a), (&a, &b), (&b, &a), (&b, &b)] {
            let e = x == y;
            ensure_eq!(v.view_attribute::<A>(x) == w.view_attribute::<A>(y), e, "vector {x} == vector {y}");
            ensure_eq!(v.view_attribute::<A>(x) == v.view_attribute::<A>(y), e, "vector {x} == same vector {y}");
            ensure_eq!(h.view_attribute::<A>(x) == w.view_attribute::<A>(y), e, "hashmap {x} == vector {y}");
            ensure_eq!(h.view_attribute::<A>(x) == g.view_attribute::<A>(y), e, "hashmap {x} == hashmap {y}");
            ensure_eq!(v.view_attribute_mut::<A>(x) == w.view_attribute_mut::<A>(y), e, "vector mut {x} == vector mut {y}");
            ensure_eq!(h.view_attribute_mut::<A>(x) == w.view_attribute_mut::<A>(y), e, "hashmap mut {x} == vector mut {y}");
            ensure_eq!(h.view_attribute_mut::<A>(x) == g.view_attribute_mut::<A>(y), e, "hashmap mut {x} == hashmap mut {y}");
            let (q, r) = (v.view_attribute_with_conversion::<A>(x).unwrap(), w.view_attribute_with_conversion::<A>(y).unwrap());
            ensure_eq!(q == r, e, "converting {x} == converting {y}");
        }
        Ok(())
    }
    for d in crate::conv::all_types() {
        for n in [1usize, 2, 9] {
            cx.case(|| format!("views of two attributes of type {d}, {n} points"), |o| {
                o.state(&(format!("{d}"), n));
                let mut r = Ok(());
                crate::with_type!(d, A, { r = one::<A>(n, o) });
                r
            });
        }
    }
}

fn c09_t<T: Ty>() -> Vec<Shard> {
    let mut v = vec![];
    for kind in ["vector", "hashmap", "external", "slice_vector", "slice_hashmap", "slice_external"] {
        v.push(shard(format!("access/{}/{kind}", T::NAME), move |cx| {
            let ns: Vec<usize> = if cx.thorough { (0..=40).collect() } else { vec![0, 1, 2, 3, 4, 5, 9, 17] };
            for n in ns {
                cx.case(|| format!("{kind} of {n} {} points", T::NAME), |o| kinds::<T>(kind, n, o));
            }
        }));
    }
    v.push(shard(format!("sort/{}", T::NAME), sorts::<T>));
    v.push(shard(format!("equality/{}", T::NAME), equality::<T>));
    v.push(shard(format!("equality of floats/{}", T::NAME), equality_floats::<T>));
    v
}
pub fn c09(_t: bool) -> Vec<Shard> {
    let mut v = vec![];
    all_types!(v, c09_t);
    v.push(shard("equality of names", equality_names));
    v
}
