//! C03: buffers collected from iterators. C04: attribute pusher. C05: filter.
use crate::lay::*;
use crate::types::*;
use crate::{all_types, with_type};
use fw::*;
use pasture_core::containers::*;
use pasture_core::layout::*;

/// Yields `items` and reports `hint` minus what was already taken, i.e. a hint that is correct for the whole run.
struct Hinted<T> {
    items: std::vec::IntoIter<T>,
    slack_lo: usize,
    slack_hi: Option<usize>,
}
impl<T> Iterator for Hinted<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.items.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.items.len();
        (n.saturating_sub(self.slack_lo), self.slack_hi.map(|s| n + s))
    }
}
/// The hint of an iterator is only a hint: a wrong one must not affect what is collected.
struct Wrong<T>(std::vec::IntoIter<T>, (usize, Option<usize>));
impl<T> Iterator for Wrong<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.1
    }
}

fn typed<'a, T: Ty, B: BorrowedBuffer<'a>>(b: &B, e: &[T]) -> R {
    ensure_eq!(b.len(), e.len(), "len()");
    ensure!(*b.point_layout() == T::layout(), "layout of the collected buffer is not the layout of the point type");
    for (i, x) in e.iter().enumerate() {
        let mut v = vec![0u8; std::mem::size_of::<T>()];
        b.get_point(i, &mut v);
        ensure_eq!(v.as_slice(), bytemuck::bytes_of(x), "point {i} ({x:?})");
        for at in T::layout().attributes() {
            let mut w = vec![0u8; at.size() as usize];
            b.get_attribute(at.attribute_definition(), i, &mut w);
            ensure_eq!(w.as_slice(), &v[at.byte_range_within_point()], "attribute {} of point {i}", at.name());
        }
    }
    Ok(())
}

/// collected buffers must remain fully usable
fn usable<T: Ty, B: for<'a> OwningBuffer<'a>>(b: &mut B, e: &[T]) -> R {
    typed(b, e)?;
    let mut e = e.to_vec();
    let x = T::mk(2, 9);
    unsafe { b.push_points(bytemuck::bytes_of(&x)) };
    e.push(x);
    typed(b, &e)?;
    b.swap(0, e.len() - 1);
    let n = e.len() - 1;
    e.swap(0, n);
    typed(b, &e)?;
    b.resize(1);
    typed(b, &e[..1])
}

fn c03_t<T: Ty>(maxn: usize) -> Vec<Shard> {
    let mut v = vec![];
    for hm in [false, true] {
        v.push(shard(format!("collect/{}/{}", T::NAME, if hm { "HashMapBuffer" } else { "VectorBuffer" }), move |cx| {
            for n in (0..=maxn).chain([16, 17, 33, 64, 65, 130, 200]) {
                let e = pts::<T>(n);
                let mut one = |what: String, it: &mut dyn FnMut() -> Box<dyn Iterator<Item = T>>| {
                    let i = it();
                    cx.case(
                        || format!("{} collect {} points from {what}", T::NAME, n),
                        |o| {
                            o.step();
                            o.state(&(n, &what));
                            if hm {
                                usable(&mut i.collect::<HashMapBuffer>(), &e)
                            } else {
                                usable(&mut i.collect::<VectorBuffer>(), &e)
                            }
                        },
                    );
                };
                for lo in picks(n) {
                    for hi in [None, Some(0), Some(1), Some(3)] {
                        one(format!("size_hint (len-{lo}, {hi:?} above len)"), &mut || {
                            Box::new(Hinted { items: pts::<T>(n).into_iter(), slack_lo: lo, slack_hi: hi })
                        });
                    }
                }
                for h in [(0, Some(0)), (0, Some(1)), (n + 1, Some(n + 1)), (n + 3, None), (n / 2, Some(n / 2))] {
                    one(format!("wrong size_hint {h:?}"), &mut || Box::new(Wrong(pts::<T>(n).into_iter(), h)));
                }
                for mask in 0..if n > 10 { 0 } else { 1u32 << n } {
                    // std adaptors: filter (unknown lower bound), skip_while, chain, take, flat_map
                    let e2: Vec<T> = e.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|x| *x.1).collect();
                    cx.case(
                        || format!("{} collect from filter mask {mask:b} of {n}", T::NAME),
                        |o| {
                            o.step();
                            o.state(&(n, mask));
                            let it = || e.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|x| *x.1);
                            let ch = || it().chain(it()).skip(e2.len());
                            let fm = || (0..n).flat_map(|i| if mask >> i & 1 == 1 { Some(e[i]) } else { None });
                            if hm {
                                usable(&mut it().collect::<HashMapBuffer>(), &e2)?;
                                usable(&mut ch().collect::<HashMapBuffer>(), &e2)?;
                                usable(&mut fm().collect::<HashMapBuffer>(), &e2)
                            } else {
                                usable(&mut it().collect::<VectorBuffer>(), &e2)?;
                                usable(&mut ch().collect::<VectorBuffer>(), &e2)?;
                                usable(&mut fm().collect::<VectorBuffer>(), &e2)
                            }
                        },
                    );
                }
            }
        }));
    }
    v
}
pub fn c03(thorough: bool) -> Vec<Shard> {
    let mut v = vec![];
    let n = if thorough { 9 } else { 6 };
    all_types!(v, c03_t, n);
    v
}

// ---------------------------------------------------------------------------------------------
// C04

#[derive(Clone, Debug)]
enum P {
    Push(usize, usize),
    /// known name, other datatype
    WrongType(usize),
    Unknown,
}

fn push<'x>(p: &mut HashMapBufferAttributePusher<'x>, l: &Lay, a: usize, from: usize, k: usize) {
    let bytes: Vec<u8> = (0..k).flat_map(|i| l.val((from + i) as u8, a)).collect();
    let ok = with_type!(l.attrs[a].datatype(), T, {
        let d: Vec<T> = bytes.chunks(l.sizes[a]).map(|c| bytemuck::pod_read_unaligned::<T>(c)).collect();
        p.push_attribute_range::<T>(&l.attrs[a], &d)
    });
    assert!(ok);
}

fn c04_shard(cx: &mut Cx, l: &Lay, before: usize, depth: usize) {
    let na = l.attrs.len();
    let mut alpha: Vec<P> = vec![];
    for a in 0..na {
        for k in 0..3 {
            alpha.push(P::Push(a, k));
        }
    }
    alpha.push(P::WrongType(0));
    alpha.push(P::Unknown);
    for len in 0..=depth {
        let mut s = vec![0usize; len];
        'all: loop {
            for commit in [true, false] {
                let seq: Vec<P> = s.iter().map(|i| alpha[*i].clone()).collect();
                cx.case(
                    || format!("layout={} {before} points, begin_push_attributes {seq:?} {}", l.name, if commit { "done" } else { "dropped" }),
                    |o| {
                        let m0: Vec<Pt> = (0..before).map(|i| l.pt(90 + i as u8)).collect();
                        let mut b = l.hashmap(&m0);
                        // model: count given by the first push; every push must agree; each attribute exactly once
                        let mut count: Option<usize> = None;
                        let mut pushed = vec![0usize; na];
                        let mut must_refuse = false;
                        for p in &seq {
                            match p {
                                P::Push(a, k) => {
                                    if *count.get_or_insert(*k) != *k {
                                        must_refuse = true;
                                        break;
                                    }
                                    pushed[*a] += 1;
                                }
                                _ => {
                                    must_refuse = true;
                                    break;
                                }
                            }
                        }
                        let k = count.unwrap_or(0);
                        let complete = !must_refuse && (k == 0 || pushed.iter().all(|p| *p == 1));
                        let res = guard(|| {
                            let mut p = b.begin_push_attributes();
                            for op in &seq {
                                match op {
                                    P::Push(a, k) => push(&mut p, l, *a, 10, *k),
                                    P::WrongType(a) => {
                                        if l.attrs[*a].datatype() == PointAttributeDataType::I8 {
                                            p.push_attribute_range::<u8>(&l.attrs[*a], &[1])
                                        } else {
                                            p.push_attribute_range::<i8>(&l.attrs[*a], &[1])
                                        }
                                    }
                                    P::Unknown => p.push_attribute_range::<u8>(&cust("Unknown", PointAttributeDataType::U8), &[1]),
                                }
                            }
                            if commit {
                                p.done()
                            }
                        });
                        o.step();
                        let mut m = m0.clone();
                        if commit && complete {
                            res.map_err(|e| format!("a complete push of {k} points was refused: {e}"))?;
                            m.extend((0..k).map(|i| l.pt(10 + i as u8)));
                        } else if must_refuse || commit {
                            ensure!(res.is_err(), "an inconsistent or incomplete push must be refused");
                        } else {
                            res.map_err(|e| format!("refused: {e}"))?;
                        }
                        o.state(&(&m, &pushed));
                        observe(&b, l, &m, Mem::Col)?;
                        // and the buffer goes on working
                        unsafe { b.push_points(&l.bytes(&l.pt(77), 0)) };
                        m.push(l.pt(77));
                        observe(&b, l, &m, Mem::Col)
                    },
                );
            }
            let mut p = len;
            loop {
                if p == 0 {
                    break 'all;
                }
                p -= 1;
                s[p] += 1;
                if s[p] < alpha.len() {
                    break;
                }
                s[p] = 0;
            }
        }
    }
}
pub fn c04(thorough: bool) -> Vec<Shard> {
    let mut v = vec![];
    // every datatype alone and next to another one
    use PointAttributeDataType as D;
    let all = [D::U8, D::I8, D::U16, D::I16, D::U32, D::I32, D::U64, D::I64, D::F32, D::F64, D::Vec3u8, D::Vec3u16, D::Vec3i32, D::Vec3f32, D::Vec3f64, D::Vec4u8];
    let each = all.into_iter().flat_map(|d| {
        let other = if d == D::U16 { D::Vec3u8 } else { D::U16 };
        [
            Lay::new(Box::leak(format!("{d}").into_boxed_str()), PointLayout::from_attributes(&[cust("D", d)])),
            Lay::new(Box::leak(format!("{d}+").into_boxed_str()), PointLayout::from_attributes(&[cust("D", d), cust("E", other)])),
        ]
    });
    for l in lays().into_iter().chain(lays_more()).chain(each) {
        if l.attrs.iter().any(|a| matches!(a.datatype(), PointAttributeDataType::ByteArray(_) | PointAttributeDataType::Custom { .. })) {
            continue;
        }
        for before in [0, 2] {
            let depth = l.attrs.len() + if thorough { 2 } else { 1 };
            let l = l.clone();
            v.push(shard(format!("pusher/{}/{before}", l.name), move |cx| c04_shard(cx, &l, before, depth.min(5))));
        }
    }
    v
}

// ---------------------------------------------------------------------------------------------
// C05

/// All predicates over n points for small n, regular and single-point ones otherwise.
fn masks(n: usize) -> Vec<Vec<bool>> {
    if n <= 10 {
        return (0..1u32 << n).map(|m| (0..n).map(|i| m >> i & 1 == 1).collect()).collect();
    }
    let mut v: Vec<Vec<bool>> = vec![];
    for k in picks(n) {
        v.push((0..n).map(|i| i == k).collect());
        v.push((0..n).map(|i| i != k).collect());
        v.push((0..n).map(|i| i < k).collect());
        v.push((0..n).map(|i| i >= k).collect());
    }
    for d in 2..5 {
        for r in 0..d {
            v.push((0..n).map(|i| i % d == r).collect());
        }
    }
    v
}
fn c05_shard(cx: &mut Cx, l: &Lay, maxn: usize) {
    for n in (0..=maxn).chain([16, 17, 33, 64, 65, 130]) {
        for mask in masks(n) {
            let bits: String = mask.iter().map(|b| if *b { '1' } else { '0' }).collect();
            let src: Vec<Pt> = (0..n).map(|i| l.pt(1 + i as u8)).collect();
            let keep: Vec<Pt> = (0..n).filter(|i| mask[*i]).map(|i| src[i].clone()).collect();
            let pred = |i: usize| {
                assert!(i < n, "predicate called with index {i} of {n} points");
                mask[i]
            };
            cx.case(
                || format!("layout={} filter of {n} points keeping {bits}", l.name),
                |o| {
                    let b = l.hashmap(&src);
                    o.steps(2);
                    o.state(&(n, &mask));
                    observe(&b.filter::<VectorBuffer, _>(pred), l, &keep, Mem::Inter)?;
                    observe(&b.filter::<HashMapBuffer, _>(pred), l, &keep, Mem::Col)?;
                    observe(&b, l, &src, Mem::Col)
                },
            );
            for extra in 0..3usize {
                for hint in [None, Some(keep.len())] {
                    cx.case(
                        || format!("layout={} filter_into of {n} points keeping {bits} into {} points, hint {hint:?}", l.name, keep.len() + extra),
                        |o| {
                            let b = l.hashmap(&src);
                            let old: Vec<Pt> = (0..keep.len() + extra).map(|i| l.pt(70 + i as u8)).collect();
                            let mut exp = keep.clone();
                            exp.extend_from_slice(&old[keep.len()..]);
                            o.steps(3);
                            o.state(&(n, &mask, extra));
                            let mut t = l.vector(&old);
                            b.filter_into(&mut t, pred, hint);
                            observe(&t, l, &exp, Mem::Inter)?;
                            let mut t = l.hashmap(&old);
                            b.filter_into(&mut t, pred, hint);
                            observe(&t, l, &exp, Mem::Col)?;
                            let mut t = l.external(&old);
                            b.filter_into(&mut t, pred, hint);
                            observe(&t, l, &exp, Mem::Inter)
                        },
                    );
                }
            }
            if !keep.is_empty() {
                cx.case(
                    || format!("layout={} filter_into of {n} points keeping {bits} into too few points", l.name),
                    |o| {
                        let b = l.hashmap(&src);
                        o.step();
                        for hint in [None, Some(keep.len())] {
                            let mut t = l.vector(&src[..keep.len() - 1]);
                            must_panic(|| "filter_into a buffer that is too small".into(), || b.filter_into(&mut t, pred, hint))?;
                            let mut t = l.hashmap(&src[..keep.len() - 1]);
                            must_panic(|| "filter_into a buffer that is too small".into(), || b.filter_into(&mut t, pred, hint))?;
                        }
                        let ol = Lay::new("other", PointLayout::from_attributes(&[attributes::NIR, attributes::USER_DATA]));
                        let mut t = ol.vector(&ol.pts(&[1, 2, 3, 4, 5, 6, 7, 8]));
                        must_panic(|| "filter_into a buffer with another layout".into(), || b.filter_into(&mut t, pred, None))
                    },
                );
            }
        }
    }
}
pub fn c05(thorough: bool) -> Vec<Shard> {
    lays()
        .into_iter()
        .chain(lays_more())
        .map(|l| shard(format!("filter/{}", l.name), move |cx| c05_shard(cx, &l, if thorough { 9 } else { 6 })))
        .collect()
}
