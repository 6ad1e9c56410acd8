//! C22 bounding boxes, C23 minima and maxima of attributes, C27 centroids.
use crate::pts::*;
use crate::with_raw;
use fw::*;
use pasture_algorithms::bounds::calculate_bounds;
use pasture_algorithms::minmax::minmax_attribute;
use pasture_algorithms::normal_estimation::compute_centroid;
use pasture_core::layout::attributes::*;
use pasture_core::layout::*;
use pasture_core::math::MinMax;
use pasture_core::nalgebra::Vector3;

/// A layout with attribute `d` between two others, and its points with the given values of `d`.
fn points_of<T: bytemuck::NoUninit>(d: &PointAttributeDefinition, values: &[T]) -> (PointLayout, Vec<Vec<u8>>) {
    let l = PointLayout::from_attributes_packed(&[CLASSIFICATION, d.clone(), GPS_TIME], 1);
    let o = l.get_attribute_by_name(d.name()).unwrap().offset() as usize;
    let s = l.size_of_point_entry() as usize;
    let pts = values
        .iter()
        .enumerate()
        .map(|(i, v)| {
            let mut p: Vec<u8> = (0..s).map(|j| (i * 31 + j * 7 + 3) as u8).collect();
            let b = bytemuck::bytes_of(v);
            p[o..o + b.len()].copy_from_slice(b);
            p
        })
        .collect();
    (l, pts)
}

trait Coord: Copy + PartialEq + std::fmt::Debug + Send + Sync + 'static {
    const LOW: &'static [Self];
    fn f(self) -> f64;
}
macro_rules! coord {
    ($($t:ty: [$($v:expr),*]),*) => {$(
        impl Coord for $t {
            const LOW: &'static [$t] = &[$($v),*];
            fn f(self) -> f64 { self as f64 }
        }
    )*};
}
coord!(
    f64: [0.0, -2.5, 3.25, f64::MAX, f64::MIN],
    f32: [0.0, -2.5, 3.25, f32::MAX, f32::MIN],
    i32: [0, -7, 12, i32::MAX, i32::MIN],
    u16: [0, 9, 500, 65535, 3],
    u8: [0, 9, 200, 255, 3]
);

fn bounds_case<T: Coord>(kind: Kind, v: &[Vector3<T>], o: &mut Obs) -> R
where
    Vector3<T>: PrimitiveType + bytemuck::NoUninit,
{
    let d = PointAttributeDefinition::custom(std::borrow::Cow::Borrowed(POSITION_3D.name()), <Vector3<T>>::data_type());
    let (l, p) = points_of(&d, v);
    o.step();
    let got = with_raw!(kind, &l, &p, b, {
        let r = calculate_bounds(b);
        ensure_eq!(raw_points(b), p, "points after calculating the bounds");
        r
    });
    if v.is_empty() {
        ensure!(got.is_none(), "bounds of an empty buffer: {got:?}");
        return Ok(());
    }
    let got = got.ok_or("no bounds")?;
    for a in 0..3 {
        let (mut lo, mut hi) = (v[0][a].f(), v[0][a].f());
        for q in v {
            lo = if q[a].f() < lo { q[a].f() } else { lo };
            hi = if q[a].f() > hi { q[a].f() } else { hi };
        }
        ensure_eq!(got.min()[a], lo, "lower bound on axis {a}");
        ensure_eq!(got.max()[a], hi, "upper bound on axis {a}");
    }
    Ok(())
}

fn bounds_shards<T: Coord>(v: &mut Vec<Shard>, name: &'static str)
where
    Vector3<T>: PrimitiveType + bytemuck::NoUninit,
{
    for kind in KINDS {
        v.push(shard(format!("{name}-{kind:?}"), move |cx| {
            let val = |i: usize| T::LOW[i % 5];
            // one and two points: every combination on every axis
            let go = |cx: &mut Cx, p: Vec<Vector3<T>>| {
                cx.case(|| format!("{name} {kind:?} {p:?}"), |o| {
                    o.state(&format!("{p:?}"));
                    bounds_case(kind, &p, o)
                })
            };
            go(cx, vec![]);
            words(5, 3, &mut |w| go(cx, vec![Vector3::new(val(w[0]), val(w[1]), val(w[2]))]));
            words(5, 6, &mut |w| go(cx, (0..2).map(|i| Vector3::new(val(w[3 * i]), val(w[3 * i + 1]), val(w[3 * i + 2]))).collect()));
            // more points: every sequence on every axis, the axes being permuted images of each other
            for n in 3..=cx.tier(5, 7) {
                words(5, n, &mut |w| {
                    go(cx, (0..n).map(|i| Vector3::new(val(w[i]), val(2 * w[(i + 1) % n] + 1), val(3 * w[(i + 2) % n] + 2))).collect());
                });
            }
            // the extreme point at every position of larger buffers
            for n in [17usize, 33, 64, 65, 130] {
                for i in 0..n {
                    for a in 0..3 {
                        for e in [3usize, 4] {
                            let mut p = vec![Vector3::new(val(0), val(1), val(2)); n];
                            p[i][a] = val(e);
                            go(cx, p);
                        }
                    }
                }
            }
            let kind_index = KINDS.iter().position(|k| *k == kind).unwrap();
            for (si, n) in large_sizes(cx.tier(10_000, 65_537)).into_iter().enumerate() {
                let s = spots(n);
                for (k, i) in s.iter().copied().enumerate() {
                    if !cx.thorough && (k + si) % 5 != kind_index {
                        continue;
                    }
                    let (a, e) = (k % 3, 3 + (k + si) % 2);
                    cx.case(|| format!("{name} {kind:?} {n} points, the extreme {:?} at {i} on axis {a}", val(e)), |o| {
                        o.state(&(n, i));
                        let mut p: Vec<_> = (0..n).map(|j| Vector3::new(val(j % 3), val((j + 1) % 3), val((j / 3) % 3))).collect();
                        p[i][a] = val(e);
                        p[s[(k * 3 + 1) % s.len()]][(a + 1) % 3] = val(7 - e);
                        bounds_case(kind, &p, o)
                    });
                }
            }
        }));
    }
}

pub fn c22(_: bool) -> Vec<Shard> {
    let mut v = vec![];
    bounds_shards::<f64>(&mut v, "f64");
    bounds_shards::<f32>(&mut v, "f32");
    bounds_shards::<i32>(&mut v, "i32");
    bounds_shards::<u16>(&mut v, "u16");
    bounds_shards::<u8>(&mut v, "u8");
    // infinite coordinates are the extremes where they occur, also where there are no others
    v.push(shard("infinite", |cx| {
        const X: [f64; 5] = [f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, 1.5];
        for kind in KINDS {
            for n in 1..=cx.tier(4usize, 5) {
                words(5, n, &mut |w| {
                    for turn in 1..5 {
                        let p: Vec<V> = w.iter().map(|&i| V::new(X[i], X[(i * turn + 1) % 5], X[(i + turn) % 5])).collect();
                        cx.case(|| format!("{kind:?} {p:?}"), |o| {
                            o.state(&(w, turn));
                            bounds_case(kind, &p, o)
                        });
                        let p: Vec<Vector3<f32>> = p.iter().map(|p| p.map(|c| if c.is_finite() { c.clamp(f32::MIN as f64, f32::MAX as f64) as f32 } else { c as f32 })).collect();
                        cx.case(|| format!("{kind:?} f32 {p:?}"), |o| {
                            o.state(&(w, turn));
                            bounds_case(kind, &p, o)
                        });
                    }
                });
            }
        }
    }));
    v.push(shard("without-positions", |cx| {
        for kind in KINDS {
            for n in 0..4usize {
                cx.case(|| format!("{kind:?} {n} points without positions"), |o| {
                    o.step();
                    let (l, p) = points_of(&NORMAL, &vec![Vector3::new(1.0f32, 2.0, 3.0); n]);
                    let r = with_raw!(kind, &l, &p, b, calculate_bounds(b));
                    ensure!(r.is_none(), "bounds without positions: {r:?}");
                    Ok(())
                });
            }
        }
    }));
    v
}

// ------------------------------------------------------------------------------------------------ C23
trait Prim: PrimitiveType + MinMax + Copy + PartialEq + std::fmt::Debug + bytemuck::NoUninit + Send + Sync + 'static {
    const NAME: &'static str;
    const N: usize;
    /// The alphabet.
    fn value(i: usize) -> Self;
    fn lower(a: Self, b: Self) -> Self;
    fn upper(a: Self, b: Self) -> Self;
    /// A small number as a value of this type (different components of vectors are permuted images of it).
    fn small(i: usize) -> Self;
}
macro_rules! prim {
    ($($t:ty: [$($v:expr),*]),*) => {$(
        impl Prim for $t {
            const NAME: &'static str = stringify!($t);
            const N: usize = [$($v as $t),*].len();
            fn value(i: usize) -> $t { [$($v as $t),*][i] }
            fn lower(a: $t, b: $t) -> $t { if b < a { b } else { a } }
            fn upper(a: $t, b: $t) -> $t { if b > a { b } else { a } }
            fn small(i: usize) -> $t { i as $t }
        }
    )*};
}
prim!(
    u8: [0, 1, 77, u8::MAX],
    i8: [0, -1, i8::MIN, i8::MAX],
    u16: [0, 1, 256, u16::MAX],
    i16: [0, -1, i16::MIN, i16::MAX],
    u32: [0, 1, 65536, u32::MAX],
    i32: [0, -1, i32::MIN, i32::MAX],
    u64: [0, 1, 9007199254740993u64, u64::MAX],
    i64: [0, -1, i64::MIN, i64::MAX],
    f32: [0.0, -1.5, f32::INFINITY, f32::MIN],
    f64: [0.0, -1.5, f64::NEG_INFINITY, f64::MAX]
);
impl<T: Prim + PartialEq> Prim for Vector3<T>
where
    Vector3<T>: PrimitiveType + bytemuck::NoUninit + MinMax,
    T: pasture_core::nalgebra::Scalar,
{
    const NAME: &'static str = T::NAME;
    const N: usize = 6;
    fn value(i: usize) -> Self {
        let f = |i: usize| T::value(i % T::N);
        [[0, 1, 2], [3, 2, 1], [2, 0, 3], [1, 3, 0], [0, 0, 0], [3, 1, 2]].map(|w: [usize; 3]| Vector3::new(f(w[0]), f(w[1]), f(w[2])))[i]
    }
    fn lower(a: Self, b: Self) -> Self {
        Vector3::new(T::lower(a.x, b.x), T::lower(a.y, b.y), T::lower(a.z, b.z))
    }
    fn upper(a: Self, b: Self) -> Self {
        Vector3::new(T::upper(a.x, b.x), T::upper(a.y, b.y), T::upper(a.z, b.z))
    }
    fn small(i: usize) -> Self {
        Vector3::new(T::small(i), T::small((i * 7 + 3) % 11), T::small((i * 5 + 1) % 11))
    }
}
fn expected<T: Prim>(v: &[T]) -> Option<(T, T)> {
    let mut it = v.iter().copied();
    let f = it.next()?;
    Some(it.fold((f, f), |(a, b), x| (T::lower(a, x), T::upper(b, x))))
}

fn same<T: Prim>(v: &mut Vec<Shard>, vec: &'static str) {
    v.push(shard(format!("{vec}{}", T::NAME), move |cx| {
        let d = PointAttributeDefinition::custom(std::borrow::Cow::Borrowed("Value"), T::data_type());
        let go = |cx: &mut Cx, vals: Vec<T>, kind: Kind| {
            cx.case(|| format!("{vec}{} {kind:?} {vals:?}", T::NAME), |o| {
                o.step();
                o.state(&format!("{vals:?}"));
                let (l, p) = points_of(&d, &vals);
                with_raw!(kind, &l, &p, b, {
                    ensure_eq!(minmax_attribute::<T, _>(b, &d), expected(&vals), "minimum and maximum");
                    ensure_eq!(raw_points(b), p, "points afterwards");
                });
                Ok(())
            });
        };
        let max = if T::N == 4 { cx.tier(5, 7) } else { cx.tier(4, 5) };
        for n in 0..=max {
            words(T::N, n, &mut |w| {
                let vals: Vec<T> = w.iter().map(|i| T::value(*i)).collect();
                if n < 4 {
                    for k in KINDS {
                        go(cx, vals.clone(), k);
                    }
                } else {
                    go(cx, vals, KINDS[(w[0] + w[1]) % 5]);
                }
            });
        }
        for n in [17usize, 64, 130] {
            for i in 0..n {
                for e in 1..T::N {
                    let mut vals = vec![T::value(0); n];
                    vals[i] = T::value(e);
                    go(cx, vals, KINDS[i % 5]);
                }
            }
        }
        for (si, n) in large_sizes(cx.tier(4097, 65_537)).into_iter().enumerate() {
            for (j, i) in spots(n).into_iter().enumerate() {
                if !cx.thorough && (si + j) % 3 > 0 {
                    continue;
                }
                let (kind, e) = (KINDS[(si + j) % 5], 1 + (si + j) % (T::N - 1));
                cx.case(|| format!("{vec}{} {kind:?} {n} values, number {i} is {:?}", T::NAME, T::value(e)), |o| {
                    o.step();
                    o.state(&(n, i));
                    let mut vals: Vec<T> = (0..n).map(|k| T::small(k * 7 % 11)).collect();
                    vals[i] = T::value(e);
                    let (l, p) = points_of(&d, &vals);
                    with_raw!(kind, &l, &p, b, ensure_eq!(minmax_attribute::<T, _>(b, &d), expected(&vals), "minimum and maximum"));
                    Ok(())
                });
            }
        }
        for k in KINDS {
            cx.case(|| format!("{vec}{} {k:?} unknown attribute", T::NAME), |o| {
                o.step();
                let other = PointAttributeDefinition::custom(std::borrow::Cow::Borrowed("Valu"), T::data_type());
                let (l, p) = points_of(&d, &[T::value(0)]);
                with_raw!(k, &l, &p, b, must_panic(|| "attribute that is not part of the layout".into(), || minmax_attribute::<T, _>(b, &other)))
            });
        }
    }));
}
/// Asking for the values as another type than the one that is stored is refused.
fn mismatched<F: Prim, T: Prim>(v: &mut Vec<Shard>) {
    v.push(shard(format!("{}-{}-as-{}", F::NAME, F::data_type(), T::data_type()), move |cx| {
        for n in 1..4 {
            for k in KINDS {
                for stored in [true, false] {
                    cx.case(|| format!("{} as {} {k:?} {n} points, definition of the stored attribute: {stored}", F::data_type(), T::data_type()), |o| {
                        o.step();
                        let d = PointAttributeDefinition::custom(std::borrow::Cow::Borrowed("Value"), F::data_type());
                        let e = PointAttributeDefinition::custom(std::borrow::Cow::Borrowed("Value"), T::data_type());
                        let vals: Vec<F> = (0..n).map(|x| F::small(x + 1)).collect();
                        let (l, p) = points_of(&d, &vals);
                        with_raw!(k, &l, &p, b, must_panic(|| "attribute of another type".into(), || minmax_attribute::<T, _>(b, if stored { &d } else { &e })))
                    });
                }
            }
        }
    }));
}
pub fn c23(_: bool) -> Vec<Shard> {
    let mut v = vec![];
    macro_rules! all { ($($t:ty),*) => {$(
        same::<$t>(&mut v, "");
    )*} }
    all!(u8, i8, u16, i16, u32, i32, u64, i64, f32, f64);
    macro_rules! vecs { ($($t:ty),*) => {$(
        same::<Vector3<$t>>(&mut v, "Vec3");
    )*} }
    vecs!(u8, u16, i32, f32, f64);
    macro_rules! conv { ($($f:ty => $t:ty),*) => {$(
        mismatched::<$f, $t>(&mut v);
    )*} }
    conv!(u8 => u16, u8 => f64, u16 => u8, u16 => f32, i8 => i64, i16 => f64, u32 => u64, i32 => i16, i32 => f64, u64 => u32, i64 => f64, f32 => f64, f64 => f32, f32 => i32, f64 => u16);
    conv!(Vector3<u8> => Vector3<u16>, Vector3<u16> => Vector3<f32>, Vector3<i32> => Vector3<f64>, Vector3<f32> => Vector3<f64>, Vector3<f64> => Vector3<f32>);
    v
}

// ------------------------------------------------------------------------------------------------ C27
fn mean(v: &[V]) -> V {
    let fin: Vec<&V> = v.iter().filter(|p| p.iter().all(|c| c.is_finite())).collect();
    let n = fin.len() as f64;
    fin.iter().fold(V::zeros(), |a, p| a + **p) / n
}
fn centroid_case(kind: Kind, v: &[V], o: &mut Obs) -> R {
    o.step();
    let (l, p) = points_of(&POSITION_3D, v);
    let got = with_raw!(kind, &l, &p, b, {
        let c = compute_centroid(b);
        ensure!(raw_points(b) == p, "the points were changed");
        c
    });
    let want = mean(v);
    for a in 0..3 {
        let scale = v.iter().filter(|p| p.iter().all(|c| c.is_finite())).map(|p| p[a].abs()).fold(0.0, f64::max);
        // a few units of the smallest number for coordinates near it
        ensure!((got[a] - want[a]).abs() <= 1e-12 * scale + f64::from_bits(8), "centroid {got:?}, the mean is {want:?}");
    }
    Ok(())
}
pub fn c27(_: bool) -> Vec<Shard> {
    let mut v = vec![];
    for kind in KINDS {
        v.push(shard(format!("mean-{kind:?}"), move |cx| {
            let val = |i: usize| [0.0, 1.0, -2.5, 1024.25, 7.0][i % 5];
            let go = |cx: &mut Cx, p: Vec<V>| {
                cx.case(|| format!("{kind:?} {p:?}"), |o| {
                    o.state(&format!("{p:?}"));
                    centroid_case(kind, &p, o)
                })
            };
            words(5, 3, &mut |w| go(cx, vec![V::new(val(w[0]), val(w[1]), val(w[2]))]));
            for n in 2..=cx.tier(5, 7) {
                words(5, n, &mut |w| go(cx, (0..n).map(|i| V::new(val(w[i]), val(2 * w[(i + 1) % n] + 1), val(3 * w[(i + 2) % n] + 2))).collect()));
            }
            for n in [16usize, 63, 64, 65, 200] {
                for i in 0..n {
                    go(cx, (0..n).map(|j| V::new(if i == j { 640.0 } else { 1.0 }, j as f64, (j * j) as f64 - 7.0)).collect());
                }
            }
            for n in large_sizes(65_537) {
                cx.case(|| format!("{kind:?} {n} points"), |o| {
                    o.state(&n);
                    // integers: the sums are exact in every order
                    let p: Vec<V> = (0..n).map(|j| V::new((j * 7919 % 10007) as f64, -((j % 4096) as f64) - 1.0, if j + 1 == n { 1e9 } else { (j / 256) as f64 })).collect();
                    centroid_case(kind, &p, o)
                });
            }
            cx.case(|| format!("{kind:?} no points"), |o| {
                o.step();
                let (l, p) = points_of::<V>(&POSITION_3D, &[]);
                with_raw!(kind, &l, &p, b, must_panic(|| "centroid of an empty buffer".into(), || compute_centroid(b)))
            });
        }));
        v.push(shard(format!("tiny-{kind:?}"), move |cx| {
            // coordinates of small magnitude, alone and next to NaN
            let alphabet = [V::new(2f64.powi(-60), -2f64.powi(-61), 0.0), V::new(-1e-9, 1e-300, 3e-11), V::new(1e-320, 5e-310, -1e-15), V::new(1e-5, 1e-8, -2f64.powi(-1000)), V::new(f64::NAN, 0.0, 0.0)];
            for n in 1..=cx.tier(4, 6) {
                words(alphabet.len(), n, &mut |w| {
                    if w.iter().all(|i| *i == 4) {
                        return;
                    }
                    let p: Vec<V> = w.iter().map(|i| alphabet[*i]).collect();
                    cx.case(|| format!("{kind:?} {p:?}"), |o| {
                        o.state(&format!("{p:?}"));
                        centroid_case(kind, &p, o)
                    });
                });
            }
        }));
        v.push(shard(format!("large-undefined-{kind:?}"), move |cx| {
            for n in large_sizes(cx.tier(10_000, 65_537)) {
                // one undefined point (at either end, in the middle) or one of every so many
                for bad in [vec![0], vec![n - 1], vec![n / 2], (0..n).step_by(97).collect(), (0..n).filter(|i| i % 3 != 1).collect()] {
                    let mut p: Vec<V> = (0..n).map(|j| V::new((j * 7919 % 10007) as f64, -((j % 4096) as f64) - 1.0, if j + 1 == n { 1e9 } else { (j / 256) as f64 })).collect();
                    bad.iter().for_each(|i| p[*i][i % 3] = f64::NAN);
                    if bad.len() == n {
                        continue;
                    }
                    cx.case(|| format!("{kind:?} {n} points, {} of them undefined, the first is {}", bad.len(), bad[0]), |o| {
                        o.state(&(n, bad.len(), bad[0]));
                        centroid_case(kind, &p, o)
                    });
                }
            }
        }));
        v.push(shard(format!("huge-{kind:?}"), move |cx| {
            // coordinates of every magnitude whose sum over the cloud is still finite, alone and next to NaN
            let big = 2f64.powi(1020);
            let huge = 2f64.powi(1023);
            let tiny = f64::MIN_POSITIVE;
            let alphabet = [
                V::new(big, big, big),
                V::new(-big, -big, -big),
                V::new(big, -big, 1.0),
                V::new(tiny, big, tiny),
                V::new(-3.0, 0.5, 1e300),
                V::new(f64::NAN, 0.0, 0.0),
                V::new(0.0, f64::INFINITY, f64::NAN),
                V::new(huge, huge, huge),
                V::new(-huge, -huge, -huge),
                V::new(huge, -huge, huge),
            ];
            for n in 1..=cx.tier(4, 5) {
                words(alphabet.len(), n, &mut |w| {
                    let p: Vec<V> = w.iter().map(|i| alphabet[*i]).collect();
                    let fin = |p: &V| p.iter().all(|c| c.is_finite());
                    let mut sum = V::zeros();
                    // points that can be added up in every order
                    p.iter().filter(|p| fin(p)).for_each(|p| sum += p.abs());
                    if !p.iter().any(fin) || !fin(&sum) {
                        return;
                    }
                    cx.case(|| format!("{kind:?} {p:?}"), |o| {
                        o.state(&format!("{p:?}"));
                        centroid_case(kind, &p, o)
                    });
                });
            }
        }));
        v.push(shard(format!("nan-{kind:?}"), move |cx| {
            // points with a NaN or an infinity in one coordinate, at least one NaN and at least one finite point
            let alphabet: Vec<V> = {
                let mut a = vec![V::new(1.0, 2.0, 4.0), V::new(-3.0, 0.5, 100.0)];
                for x in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY] {
                    for c in 0..3 {
                        let mut p = V::new(8.0, 16.0, 32.0);
                        p[c] = x;
                        a.push(p);
                    }
                }
                a
            };
            // all combinations of undefined and infinite coordinates
            for x in 0..64usize {
                let p = V::from_fn(|i, _| [8.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY][x >> (2 * i) & 3]);
                if !p.iter().any(|c| c.is_nan()) {
                    continue;
                }
                for (at, n) in [(0usize, 2usize), (1, 2), (1, 3), (2, 3)] {
                    let q: Vec<V> = (0..n).map(|i| if i == at { p } else { alphabet[i & 1] }).collect();
                    cx.case(|| format!("{kind:?} {q:?}"), |o| {
                        o.state(&format!("{q:?}"));
                        centroid_case(kind, &q, o)
                    });
                }
            }
            for n in 2..=cx.tier(4, 5) {
                words(alphabet.len(), n, &mut |w| {
                    let p: Vec<V> = w.iter().map(|i| alphabet[*i]).collect();
                    if !p.iter().any(|p| p.iter().any(|c| c.is_nan())) || !p.iter().any(|p| p.iter().all(|c| c.is_finite())) {
                        return;
                    }
                    cx.case(|| format!("{kind:?} {p:?}"), |o| {
                        o.state(&format!("{p:?}"));
                        centroid_case(kind, &p, o)
                    });
                });
            }
        }));
    }
    v
}
