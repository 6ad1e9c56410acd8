//! C10: iterators over points and attributes against `std`'s slice iterators.
use crate::all_types;
use crate::lay::*;
use crate::types::*;
use fw::*;
use pasture_core::containers::*;
use pasture_core::layout::*;

#[derive(Copy, Clone, Debug)]
enum Op {
    Next,
    Nth(usize),
}
const OPS: [Op; 6] = [Op::Next, Op::Nth(0), Op::Nth(1), Op::Nth(2), Op::Nth(9), Op::Nth(usize::MAX)];

fn apply<I: Iterator + ?Sized>(i: &mut I, o: Op) -> Option<I::Item> {
    match o {
        Op::Next => i.next(),
        Op::Nth(n) => i.nth(n),
    }
}

/// Turns items into values; forwards every call (`Iterator::map` would not forward `nth`).
struct Val<I, F>(I, F);
impl<X, I: Iterator, F: Fn(I::Item) -> X> Iterator for Val<I, F> {
    type Item = X;
    fn next(&mut self) -> Option<X> {
        self.0.next().map(&self.1)
    }
    fn nth(&mut self, n: usize) -> Option<X> {
        self.0.nth(n).map(&self.1)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
type It<'x, X> = Box<dyn Iterator<Item = X> + 'x>;
fn val_of<'x, X, I: Iterator + 'x>(i: I, f: impl Fn(I::Item) -> X + 'x) -> It<'x, X> {
    Box::new(Val(i, f))
}

/// One sequence of calls, then drain; compared item by item with the iterator of a `Vec`.
fn drive<X: PartialEq + std::fmt::Debug + Copy>(mut it: It<X>, e: &[X], seq: &[Op]) -> R {
    let mut m = e.iter().copied();
    for (k, o) in seq.iter().enumerate() {
        let (lo, hi) = it.size_hint();
        ensure!(lo <= m.len() && hi.is_none_or(|h| h >= m.len()), "size_hint {:?} with {} items left", (lo, hi), m.len());
        ensure_eq!(apply(&mut it, *o), apply(&mut m, *o), "call {k} {o:?}");
    }
    let rest: Vec<X> = it.by_ref().take(e.len() + 2).collect();
    ensure_eq!(rest, m.collect::<Vec<_>>(), "items left after {seq:?}");
    ensure!(it.next().is_none(), "item after the end");
    ensure!(it.nth(0).is_none(), "item after the end");
    Ok(())
}
/// The standard adaptors, which are built from `next`, `nth` and `size_hint`.
fn adaptors<'x, X: PartialEq + std::fmt::Debug + Copy + 'x>(mk: &dyn Fn() -> It<'x, X>, e: &[X]) -> R {
    ensure_eq!(mk().count(), e.len(), "count()");
    ensure_eq!(mk().last(), e.last().copied(), "last()");
    for k in 0..4 {
        ensure_eq!(mk().skip(k).collect::<Vec<_>>(), e.iter().copied().skip(k).collect::<Vec<_>>(), "skip({k})");
        ensure_eq!(mk().take(k).collect::<Vec<_>>(), e.iter().copied().take(k).collect::<Vec<_>>(), "take({k})");
        ensure_eq!(mk().step_by(k + 1).collect::<Vec<_>>(), e.iter().copied().step_by(k + 1).collect::<Vec<_>>(), "step_by({})", k + 1);
        ensure_eq!(mk().skip(k).step_by(2).collect::<Vec<_>>(), e.iter().copied().skip(k).step_by(2).collect::<Vec<_>>(), "skip({k}).step_by(2)");
        ensure_eq!(mk().step_by(2).skip(k).collect::<Vec<_>>(), e.iter().copied().step_by(2).skip(k).collect::<Vec<_>>(), "step_by(2).skip({k})");
    }
    ensure_eq!(mk().zip(mk().skip(1)).collect::<Vec<_>>(), e.iter().copied().zip(e.iter().copied().skip(1)).collect::<Vec<_>>(), "zip");
    ensure_eq!(mk().fold(0usize, |a, _| a + 1), e.len(), "fold");
    Ok(())
}

fn seqs(depth: usize) -> Vec<Vec<Op>> {
    let mut v: Vec<Vec<Op>> = vec![vec![]];
    let mut all = vec![vec![]];
    for _ in 0..depth {
        v = v.iter().flat_map(|s| OPS.iter().map(move |o| { let mut s = s.clone(); s.push(*o); s })).collect();
        all.extend(v.iter().cloned());
    }
    all
}

fn val<A: PrimitiveType, T: Ty>(p: &T, l: &Lay, a: usize) -> A {
    bytemuck::pod_read_unaligned(&bytemuck::bytes_of(p)[l.offs[a]..l.offs[a] + l.sizes[a]])
}

fn any<'a, T: Ty, B: BorrowedBuffer<'a> + 'a>(b: &B, l: &Lay, e: &[T], seq: Option<&[Op]>, o: &mut Obs) -> R {
    macro_rules! go {
        ($what:expr, $mk:expr, $e:expr, $f:expr) => {{
            let r = match seq { Some(s) => { o.steps(s.len() as u64 + 1); drive(val_of($mk, $f), $e, s) } None => { o.step(); adaptors(&|| val_of($mk, $f), $e) } };
            r.map_err(|m| format!("{}: {m}", $what))?;
        }};
    }
    go!("view().into_iter()", b.view::<T>().into_iter(), e, |x| x);
    for a in 0..l.attrs.len() {
        let at = &l.attrs[a];
        crate::with_few!(at.datatype(), A, {
            let x: Vec<A> = e.iter().map(|p| val(p, l, a)).collect();
            go!(format!("view_attribute({at}).into_iter()"), b.view_attribute::<A>(at).into_iter(), &x, |x| x);
            go!(format!("view_attribute_with_conversion({at}).into_iter()"), b.view_attribute_with_conversion::<A>(at).unwrap().into_iter(), &x, |x| x);
        });
        if at.datatype() == PointAttributeDataType::U16 {
            let x: Vec<f64> = e.iter().map(|p| val::<u16, T>(p, l, a) as f64).collect();
            let asked = at.with_custom_datatype(PointAttributeDataType::F64);
            go!("view_attribute_with_conversion::<f64>().into_iter()", b.view_attribute_with_conversion::<f64>(&asked).unwrap().into_iter(), &x, |x| x);
        }
    }
    Ok(())
}
fn inter<'a, T: Ty, B: InterleavedBuffer<'a> + 'a>(b: &B, e: &[T], seq: Option<&[Op]>, o: &mut Obs) -> R {
    let v = b.view::<T>();
    match seq {
        Some(s) => { o.steps(s.len() as u64 + 1); drive(val_of(v.iter(), |x| *x), e, s) }
        None => { o.step(); adaptors(&|| val_of(v.iter(), |x| *x), e) }
    }
    .map_err(|m| format!("view().iter(): {m}"))
}
fn inter_mut<'a, T: Ty, B: InterleavedBufferMut<'a> + 'a>(b: &mut B, e: &[T], seq: Option<&[Op]>, o: &mut Obs) -> R {
    o.step();
    if let Some(s) = seq {
        let mut v = b.view_mut::<T>();
        drive(val_of(v.iter(), |x| *x), e, s).map_err(|m| format!("view_mut().iter(): {m}"))?;
        drive(val_of(v.iter_mut(), |x| *x), e, s).map_err(|m| format!("view_mut().iter_mut(): {m}"))?;
        // what is written through the yielded references lands in the yielded points, and only there
        let mut exp = e.to_vec();
        {
            let (mut i, mut m) = (v.iter_mut(), exp.iter_mut());
            let mut k = 0;
            for op in s {
                match (apply(&mut i, *op), apply(&mut m, *op)) {
                    (Some(x), Some(y)) => { *x = T::mk(2 - y.key() % 3, k + 1); *y = *x; }
                    (None, None) => {}
                    _ => return Err(format!("iter_mut(): {op:?} disagrees with a slice iterator")),
                }
                k += 1;
            }
        }
        ensure_eq!(v.iter().copied().collect::<Vec<_>>(), exp, "points after writing through iter_mut");
    }
    Ok(())
}
fn col<'a, T: Ty, B: ColumnarBuffer<'a> + 'a>(b: &B, l: &Lay, e: &[T], seq: Option<&[Op]>, o: &mut Obs) -> R {
    for a in 0..l.attrs.len() {
        let at = &l.attrs[a];
        crate::with_few!(at.datatype(), A, {
            let x: Vec<A> = e.iter().map(|p| val(p, l, a)).collect();
            let v = b.view_attribute::<A>(at);
            match seq {
                Some(s) => { o.steps(s.len() as u64 + 1); drive(val_of(v.iter(), |x| *x), &x, s) }
                None => { o.step(); adaptors(&|| val_of(v.iter(), |x| *x), &x) }
            }
            .map_err(|m| format!("view_attribute({at}).iter(): {m}"))?;
        });
    }
    Ok(())
}
fn col_mut<'a, T: Ty, B: ColumnarBufferMut<'a> + 'a>(b: &mut B, l: &Lay, e: &[T], seq: Option<&[Op]>, o: &mut Obs) -> R {
    o.step();
    if let Some(s) = seq {
        for a in 0..l.attrs.len() {
            let at = &l.attrs[a];
            crate::with_few!(at.datatype(), A, {
                let x: Vec<A> = e.iter().map(|p| val(p, l, a)).collect();
                let mut exp = x.clone();
                drive(val_of(b.view_attribute_mut::<A>(at).iter(), |x| *x), &x, s).map_err(|m| format!("view_attribute_mut({at}).iter(): {m}"))?;
                drive(val_of(b.view_attribute_mut::<A>(at).iter_mut(), |x| *x), &x, s).map_err(|m| format!("view_attribute_mut({at}).iter_mut(): {m}"))?;
                {
                    let mut v = b.view_attribute_mut::<A>(at);
                    let (mut i, mut m) = (v.iter_mut(), exp.iter_mut());
                    for op in s {
                        match (apply(&mut i, *op), apply(&mut m, *op)) {
                            (Some(x), Some(y)) => { bytemuck::bytes_of_mut(x)[0] ^= 0x11; *y = *x; }
                            (None, None) => {}
                            _ => return Err(format!("iter_mut(): {op:?} disagrees with a slice iterator")),
                        }
                    }
                }
                ensure_eq!(b.view_attribute::<A>(at).into_iter().collect::<Vec<_>>(), exp, "{at} after writing through iter_mut");
            });
        }
    }
    Ok(())
}

fn one<T: Ty>(kind: &str, l: &Lay, n: usize, seq: Option<&[Op]>, o: &mut Obs) -> R {
    let all = pts::<T>(n + 3);
    let r = 1..n + 1;
    let e = all[r.clone()].to_vec();
    let ext = |p: &[T]| ExternalMemoryBuffer::new(p.iter().flat_map(|p| bytemuck::bytes_of(p).to_vec()).collect::<Vec<u8>>(), T::layout());
    o.state(&(kind, n, seq.map(|s| format!("{s:?}"))));
    match kind {
        "vector" => {
            let mut b = e.iter().copied().collect::<VectorBuffer>();
            any(&b, l, &e, seq, o)?;
            inter(&b, &e, seq, o)?;
            inter_mut(&mut b, &e, seq, o)
        }
        "hashmap" => {
            let mut b = e.iter().copied().collect::<HashMapBuffer>();
            any(&b, l, &e, seq, o)?;
            col(&b, l, &e, seq, o)?;
            col_mut(&mut b, l, &e, seq, o)
        }
        "external" => {
            let mut b = ext(&e);
            any(&b, l, &e, seq, o)?;
            inter(&b, &e, seq, o)?;
            inter_mut(&mut b, &e, seq, o)
        }
        "slice_vector" => {
            let mut b = all.iter().copied().collect::<VectorBuffer>();
            any(&b.slice(r.clone()), l, &e, seq, o)?;
            inter(&b.slice(r.clone()), &e, seq, o)?;
            any(&b.slice_mut(r.clone()), l, &e, seq, o)?;
            inter_mut(&mut b.slice_mut(r.clone()), &e, seq, o)?;
            ensure_eq!((b.view::<T>().at(0), b.view::<T>().at(n + 1)), (all[0], all[n + 1]), "neighbours of the slice");
            Ok(())
        }
        _ => {
            let mut b = all.iter().copied().collect::<HashMapBuffer>();
            any(&b.slice(r.clone()), l, &e, seq, o)?;
            col(&b.slice(r.clone()), l, &e, seq, o)?;
            any(&b.slice_mut(r.clone()), l, &e, seq, o)?;
            col_mut(&mut b.slice_mut(r.clone()), l, &e, seq, o)?;
            ensure_eq!((b.view::<T>().at(0), b.view::<T>().at(n + 1)), (all[0], all[n + 1]), "neighbours of the slice");
            Ok(())
        }
    }
}

fn c10_t<T: Ty>(depth: usize, maxn: usize) -> Vec<Shard> {
    let mut v = vec![];
    for kind in ["vector", "hashmap", "external", "slice_vector", "slice_hashmap"] {
        v.push(shard(format!("{}/{kind}", T::NAME), move |cx| {
            let l = Lay::new(T::NAME, T::layout());
            let all = seqs(depth);
            for n in 0..=maxn {
                for s in &all {
                    cx.case(|| format!("{kind} of {n} {} points, calls {s:?}, then drain", T::NAME), |o| one::<T>(kind, &l, n, Some(s), o));
                }
                cx.case(|| format!("{kind} of {n} {} points, standard adaptors", T::NAME), |o| one::<T>(kind, &l, n, None, o));
            }
            for n in [15, 16, 17, 31, 64, 65, 130] {
                cx.case(|| format!("{kind} of {n} {} points, standard adaptors", T::NAME), |o| one::<T>(kind, &l, n, None, o));
                for s in seqs(2) {
                    cx.case(|| format!("{kind} of {n} {} points, calls {s:?}, then drain", T::NAME), |o| one::<T>(kind, &l, n, Some(&s), o));
                }
            }
        }));
    }
    v
}
pub fn c10(thorough: bool) -> Vec<Shard> {
    let mut v = vec![];
    let (d, n) = if thorough { (5, 6) } else { (4, 4) };
    all_types!(v, c10_t, d, n);
    v
}
