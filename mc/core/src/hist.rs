//! C01: growth histories of owning buffers against `Vec<point>`.
use crate::lay::*;
use fw::*;
use pasture_core::containers::*;
use pasture_core::layout::*;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Src {
    Vector,
    Hash,
    Ext,
    SliceV,
    SliceH,
    SliceVM,
    SliceHM,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Push(Vec<u8>),
    PushBad(usize),
    Append(Src, Vec<u8>),
    AppendI(Src, Vec<u8>),
    AppendC(Src, Vec<u8>),
    AppendMismatch(u8),
    Resize(usize),
    Clear,
    Swap(usize, usize),
    Set(usize, u8),
    CloneSwap,
}

pub fn ops(thorough: bool) -> Vec<Op> {
    use Op::*;
    let mut v = vec![
        Push(vec![]),
        Push(vec![1]),
        Push(vec![2, 3]),
        PushBad(1),
        Clear,
        Resize(0),
        Resize(1),
        Resize(3),
        Swap(0, 1),
        Swap(1, 1),
        Set(0, 4),
        CloneSwap,
        AppendMismatch(0),
        AppendMismatch(1),
        AppendMismatch(2),
    ];
    for s in [Src::Vector, Src::Hash, Src::Ext, Src::SliceV, Src::SliceH] {
        v.push(Append(s, vec![5, 6]));
    }
    for s in [Src::Vector, Src::Ext, Src::SliceV] {
        v.push(AppendI(s, vec![7, 8]));
    }
    for s in [Src::Hash, Src::SliceH] {
        v.push(AppendC(s, vec![7, 8]));
    }
    v.push(Append(Src::Vector, vec![]));
    v.push(AppendI(Src::Vector, vec![]));
    v.push(AppendC(Src::Hash, vec![]));
    if thorough {
        v.push(Append(Src::SliceVM, vec![5]));
        v.push(Append(Src::SliceHM, vec![5]));
        v.push(AppendI(Src::SliceVM, vec![9]));
        v.push(AppendC(Src::SliceHM, vec![9]));
        v.push(Resize(2));
        v.push(Swap(0, 2));
        v.push(Set(1, 9));
        v.push(PushBad(0));
    }
    v
}

fn appi<'b, B: for<'a> OwningBuffer<'a>, S: InterleavedBuffer<'b>>(b: &mut B, s: &S) {
    b.append_interleaved(s)
}
fn appc<'b, B: for<'a> OwningBuffer<'a>, S: ColumnarBuffer<'b>>(b: &mut B, s: &S) {
    b.append_columnar(s)
}

/// Applies `op`; Ok(true) if the model was changed by a successful call, Ok(false) if the call was
/// (correctly) refused.
fn apply<B: for<'a> OwningBuffer<'a> + Clone>(b: &mut B, m: &mut Vec<Pt>, l: &Lay, op: &Op) -> R<bool> {
    let margin = |ids: &[u8]| {
        let mut v = vec![21u8];
        v.extend_from_slice(ids);
        v.push(22);
        l.pts(&v)
    };
    match op {
        Op::Push(ids) => {
            let ps = l.pts(ids);
            unsafe { b.push_points(&l.bytes_of(&ps, 0xC3)) };
            // points without any data cannot be counted in a byte slice
            if l.entry > 0 {
                m.extend(ps);
            }
        }
        Op::PushBad(extra) => {
            if l.entry < 2 && !(l.entry == 0) {
                return Ok(true);
            }
            let bytes = vec![0x77u8; l.entry * extra + if l.entry == 0 { 1 } else { l.entry - 1 }];
            must_panic(|| format!("push_points of {} bytes into {}-byte points", bytes.len(), l.entry), || unsafe { b.push_points(&bytes) })?;
            return Ok(false);
        }
        Op::Append(s, ids) => {
            let ps = l.pts(ids);
            let k = ps.len();
            match s {
                Src::Vector => b.append(&l.vector(&ps)),
                Src::Hash => b.append(&l.hashmap(&ps)),
                Src::Ext => b.append(&l.external(&ps)),
                Src::SliceV => {
                    let v = l.vector(&margin(ids));
                    let s = v.slice(1..1 + k);
                    b.append(&s)
                }
                Src::SliceH => {
                    let v = l.hashmap(&margin(ids));
                    let s = v.slice(1..1 + k);
                    b.append(&s)
                }
                Src::SliceVM => {
                    let mut v = l.vector(&margin(ids));
                    let s = v.slice_mut(1..1 + k);
                    b.append(&s)
                }
                Src::SliceHM => {
                    let mut v = l.hashmap(&margin(ids));
                    let s = v.slice_mut(1..1 + k);
                    b.append(&s)
                }
            }
            // external memory cannot hold points without any data
            if !(l.entry == 0 && *s == Src::Ext) {
                m.extend(ps);
            }
        }
        Op::AppendI(s, ids) => {
            let ps = l.pts(ids);
            let k = ps.len();
            match s {
                Src::Vector => appi(b, &l.vector(&ps)),
                Src::Ext => appi(b, &l.external(&ps)),
                Src::SliceV => {
                    let v = l.vector(&margin(ids));
                    appi(b, &v.slice(1..1 + k))
                }
                Src::SliceVM => {
                    let mut v = l.vector(&margin(ids));
                    appi(b, &v.slice_mut(1..1 + k))
                }
                _ => unreachable!(),
            }
            if !(l.entry == 0 && *s == Src::Ext) {
                m.extend(ps);
            }
        }
        Op::AppendC(s, ids) => {
            let ps = l.pts(ids);
            let k = ps.len();
            match s {
                Src::Hash => appc(b, &l.hashmap(&ps)),
                Src::SliceH => {
                    let v = l.hashmap(&margin(ids));
                    appc(b, &v.slice(1..1 + k))
                }
                Src::SliceHM => {
                    let mut v = l.hashmap(&margin(ids));
                    appc(b, &v.slice_mut(1..1 + k))
                }
                _ => unreachable!(),
            }
            m.extend(ps);
        }
        Op::AppendMismatch(k) => {
            let ol = Lay::new("other", PointLayout::from_attributes(&[attributes::NIR, attributes::USER_DATA]));
            let ps = ol.pts(&[1]);
            must_panic(
                || format!("append({k}) of a buffer with another layout"),
                || match k {
                    0 => b.append(&ol.vector(&ps)),
                    1 => b.append_interleaved(&ol.vector(&ps)),
                    _ => b.append_columnar(&ol.hashmap(&ps)),
                },
            )?;
            return Ok(false);
        }
        Op::Resize(n) => {
            b.resize(*n);
            m.resize(*n, l.pt(0));
        }
        Op::Clear => {
            b.clear();
            m.clear();
        }
        Op::Swap(i, j) => {
            if *i < m.len() && *j < m.len() {
                b.swap(*i, *j);
                m.swap(*i, *j);
            } else {
                must_panic(|| format!("swap({i},{j}) with len {}", m.len()), || b.swap(*i, *j))?;
                return Ok(false);
            }
        }
        Op::Set(i, k) => {
            if *i >= m.len() || l.attrs.is_empty() {
                return Ok(true);
            }
            let p = l.pt(*k);
            unsafe { b.set_point(*i, &l.bytes(&p, 0x3C)) };
            m[*i] = p;
        }
        Op::CloneSwap => {
            // a clone is an independent copy: continue with the clone, scribble over the original
            let mut c = b.clone();
            std::mem::swap(b, &mut c);
            c.resize(m.len() + 2);
            let p = l.pt(60);
            for i in 0..c.len() {
                unsafe { c.set_point(i, &l.bytes(&p, 0x99)) };
            }
        }
    }
    Ok(true)
}

pub trait Make: for<'a> OwningBuffer<'a> + Clone + PartialEq {
    const MEM: Mem;
    const NAME: &'static str;
    fn cap(n: usize, l: PointLayout) -> Self;
    fn fresh(l: PointLayout) -> Self;
    fn from(l: &Lay, ps: &[Pt]) -> Self;
}
impl Make for VectorBuffer {
    const MEM: Mem = Mem::Inter;
    const NAME: &'static str = "VectorBuffer";
    fn cap(n: usize, l: PointLayout) -> Self {
        VectorBuffer::with_capacity(n, l)
    }
    fn fresh(l: PointLayout) -> Self {
        VectorBuffer::new_from_layout(l)
    }
    fn from(l: &Lay, ps: &[Pt]) -> Self {
        l.vector(ps)
    }
}
impl Make for HashMapBuffer {
    const MEM: Mem = Mem::Col;
    const NAME: &'static str = "HashMapBuffer";
    fn cap(n: usize, l: PointLayout) -> Self {
        HashMapBuffer::with_capacity(n, l)
    }
    fn fresh(l: PointLayout) -> Self {
        HashMapBuffer::new_from_layout(l)
    }
    fn from(l: &Lay, ps: &[Pt]) -> Self {
        l.hashmap(ps)
    }
}

fn explore<B: Make>(cx: &mut Cx, l: &Lay, depth: usize, cap: Option<usize>, maxlen: usize) {
    let ops = ops(cx.thorough);
    let init = || match cap {
        None => B::fresh(l.layout.clone()),
        Some(n) => B::cap(n, l.layout.clone()),
    };
    // one case per operation sequence of exactly `depth` operations; only the part that differs
    // from the previous sequence needs to be observed again
    let mut seq = vec![0usize; depth];
    let mut first_new = 0usize;
    let mut done = false;
    while !done {
        let s = seq.clone();
        let only_last = first_new;
        cx.case(
            || format!("{} layout={} cap={:?} history={:?}", B::NAME, l.name, cap, s.iter().map(|i| &ops[*i]).collect::<Vec<_>>()),
            |o| {
                let mut b = init();
                let mut m: Vec<Pt> = vec![];
                for (k, i) in s.iter().enumerate() {
                    if m.len() > maxlen {
                        break;
                    }
                    apply(&mut b, &mut m, l, &ops[*i]).map_err(|e| format!("step {k} {:?}: {e}", ops[*i]))?;
                    if k >= only_last {
                        o.step();
                        observe(&b, l, &m, B::MEM).map_err(|e| format!("after step {k} {:?}: {e}", ops[*i]))?;
                        // equality is equality of content
                        let fresh = B::from(l, &m);
                        let mut other = m.clone();
                        if l.attrs.len() > 0 && B::MEM == Mem::Col {
                            ensure!(b == fresh, "after step {k}: not equal to a buffer built from the same points");
                        }
                        if let Some(x) = other.last_mut() {
                            if !l.attrs.is_empty() {
                                let la = x.len() - 1;
                                let lb = x[la].len() - 1;
                                x[la][lb] ^= 0x80;
                                ensure!(b != B::from(l, &other), "after step {k}: equal to a buffer with different content");
                            }
                        }
                        if o.states.insert(hash_of(&m)) {
                            observe_oob(&b, l, m.len()).map_err(|e| format!("after step {k} {:?}: {e}", ops[*i]))?;
                        }
                    }
                }
                Ok(())
            },
        );
        // odometer
        let mut p = depth;
        loop {
            if p == 0 {
                done = true;
                break;
            }
            p -= 1;
            seq[p] += 1;
            if seq[p] < ops.len() {
                first_new = p;
                break;
            }
            seq[p] = 0;
        }
    }
}

/// Histories of two operations on sizes around powers of two.
fn large<B: Make>(cx: &mut Cx, l: &Lay, big: bool) {
    let ids = |k: usize, s: usize| (0..k).map(|i| ((i + s) % 251) as u8).collect::<Vec<u8>>();
    let sizes: &[usize] = match (big, cx.thorough) {
        (false, false) => &[16, 17, 33, 65],
        (true, false) => &[129, 257, 1025],
        (false, true) => &[15, 16, 17, 31, 32, 33, 63, 64, 65],
        (true, true) => &[127, 128, 129, 255, 256, 257, 1025],
    };
    for &k in sizes {
        let grow = |k: usize| {
            let mut v = vec![Op::Push(ids(k, 3)), Op::Resize(k)];
            for s in [Src::Vector, Src::Hash, Src::Ext, Src::SliceV, Src::SliceH] {
                v.push(Op::Append(s, ids(k, 5)));
            }
            for s in [Src::Vector, Src::SliceV] {
                v.push(Op::AppendI(s, ids(k, 7)));
            }
            for s in [Src::Hash, Src::SliceH] {
                v.push(Op::AppendC(s, ids(k, 9)));
            }
            v
        };
        let mut second = grow(if k > 1000 || k > 100 && !cx.thorough { 1 } else { k });
        if cx.thorough || k == 33 || k == 65 {
            second.extend(grow(1));
            second.extend(grow(k / 2 + 1));
        }
        second.extend([Op::Resize(k - 1), Op::Resize(k + 1), Op::Resize(2 * k + 1), Op::Resize(1), Op::Clear, Op::Swap(0, k - 1), Op::Swap(k / 2, k - 2), Op::Set(k - 1, 77), Op::CloneSwap]);
        for a in grow(k) {
            for b in &second {
                if l.entry == 0 && (matches!(a, Op::Append(Src::Ext, _) | Op::Push(_)) || matches!(b, Op::Append(Src::Ext, _) | Op::Push(_))) {
                    continue;
                }
                let short = |o: &Op| {
                    let s = format!("{o:?}");
                    if s.len() > 60 { format!("{}...", &s[..60]) } else { s }
                };
                cx.case(
                    || format!("{} layout={} {} points: {} then {}", B::NAME, l.name, k, short(&a), short(b)),
                    |o| {
                        let mut x = B::fresh(l.layout.clone());
                        let mut m: Vec<Pt> = vec![];
                        for (i, op) in [&a, b].into_iter().enumerate() {
                            apply(&mut x, &mut m, l, op).map_err(|e| format!("step {i}: {e}"))?;
                            o.step();
                            observe(&x, l, &m, B::MEM).map_err(|e| format!("after step {i}: {e}"))?;
                        }
                        o.state(&m);
                        observe_oob(&x, l, m.len())
                    },
                );
            }
        }
    }
}

/// Deep, pruned exploration: breadth-first over reachable (model) states.
fn bfs<B: Make>(cx: &mut Cx, l: &Lay, maxlen: usize, maxdepth: usize) {
    use std::collections::HashSet;
    let ops = ops(true);
    let mut seen: HashSet<u64> = HashSet::new();
    let mut front: Vec<(B, Vec<Pt>, Vec<Op>)> = vec![(B::fresh(l.layout.clone()), vec![], vec![])];
    seen.insert(hash_of(&Vec::<Pt>::new()));
    for _d in 0..maxdepth {
        let mut next = vec![];
        for (b, m, h) in &front {
            for op in &ops {
                let res = std::cell::RefCell::new(None);
                cx.case(
                    || format!("{} layout={} bfs history={:?} then {:?}", B::NAME, l.name, h, op),
                    |o| {
                        let mut b = b.clone();
                        let mut m = m.clone();
                        apply(&mut b, &mut m, l, op)?;
                        o.step();
                        o.state(&m);
                        observe(&b, l, &m, B::MEM)?;
                        *res.borrow_mut() = Some((b, m));
                        Ok(())
                    },
                );
                if let Some((b, m)) = res.into_inner() {
                    if m.len() <= maxlen && seen.insert(hash_of(&m)) {
                        let mut h = h.clone();
                        h.push(op.clone());
                        next.push((b, m, h));
                    }
                }
            }
        }
        front = next;
        if front.is_empty() {
            break;
        }
    }
}

pub fn c01(thorough: bool) -> Vec<Shard> {
    let mut v = vec![];
    let mut ls = lays();
    ls.push(empty_lay());
    if thorough {
        ls.extend(lays_more());
    }
    for l in ls {
        for cap in [None, Some(2)] {
            let depth = if cap.is_some() { 2 } else { 3 };
            let l1 = l.clone();
            v.push(shard(format!("hist/vector/{}/{:?}", l.name, cap), move |cx| explore::<VectorBuffer>(cx, &l1, depth, cap, 6)));
            let l1 = l.clone();
            v.push(shard(format!("hist/hashmap/{}/{:?}", l.name, cap), move |cx| explore::<HashMapBuffer>(cx, &l1, depth, cap, 6)));
        }
        for big in [false, true] {
            let l1 = l.clone();
            v.push(shard(format!("large/vector/{}/{big}", l.name), move |cx| large::<VectorBuffer>(cx, &l1, big)));
            let l1 = l.clone();
            v.push(shard(format!("large/hashmap/{}/{big}", l.name), move |cx| large::<HashMapBuffer>(cx, &l1, big)));
        }
        let d = if thorough { 6 } else { 4 };
        let l1 = l.clone();
        v.push(shard(format!("bfs/vector/{}", l.name), move |cx| bfs::<VectorBuffer>(cx, &l1, 4, d)));
        let l1 = l.clone();
        v.push(shard(format!("bfs/hashmap/{}", l.name), move |cx| bfs::<HashMapBuffer>(cx, &l1, 4, d)));
    }
    v
}
