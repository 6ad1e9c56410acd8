//! C20: bounding boxes as sets of points. C21: min/max, alignment and bit manipulation.
use fw::*;
use pasture_core::math::*;
use pasture_core::nalgebra::{Point3, Vector3};

type Bx = ([i32; 3], [i32; 3]);
fn intervals(k: i32) -> Vec<(i32, i32)> {
    let mut v = vec![];
    for a in 0..k {
        for b in a..k {
            v.push((a, b));
        }
    }
    v
}
fn boxes(k: i32) -> Vec<Bx> {
    let iv = intervals(k);
    let mut v = vec![];
    for x in &iv {
        for y in &iv {
            for z in &iv {
                v.push(([x.0, y.0, z.0], [x.1, y.1, z.1]));
            }
        }
    }
    v
}
fn inside(b: &Bx, p: &[i32; 3]) -> bool {
    (0..3).all(|i| b.0[i] <= p[i] && p[i] <= b.1[i])
}

/// Maps the grid to coordinates of the checked type: negative, zero and positive values.
trait Co: pasture_core::nalgebra::Scalar + PartialOrd + Copy {
    fn co(i: i32) -> Self;
}
impl Co for f64 {
    fn co(i: i32) -> f64 {
        [-2.5, -1.0, 0.0, 0.75, 4.0][i as usize]
    }
}
impl Co for f32 {
    fn co(i: i32) -> f32 {
        [-1.5, 0.0, 0.25, 8.0, 9.0][i as usize]
    }
}
impl Co for i32 {
    fn co(i: i32) -> i32 {
        [-7, 0, 3, 10, 11][i as usize]
    }
}
fn pt<T: Co>(p: &[i32; 3]) -> Point3<T> {
    Point3::new(T::co(p[0]), T::co(p[1]), T::co(p[2]))
}

macro_rules! aabb_shards {
    ($v:ident, $t:ty, $k:expr) => {
        $v.push(shard(concat!("pairs/", stringify!($t)), move |cx| {
            let bs = boxes($k);
            let pts: Vec<[i32; 3]> = (0..$k * $k * $k).map(|c| [c % $k, c / $k % $k, c / $k / $k]).collect();
            for a in &bs {
                cx.case(|| format!("{} box {a:?}: points and pairs", stringify!($t)), |o| {
                    let x = AABB::<$t>::from_min_max(pt(&a.0), pt(&a.1));
                    o.state(a);
                    ensure_eq!((*x.min(), *x.max()), (pt(&a.0), pt(&a.1)), "min/max");
                    let e = x.extent();
                    for i in 0..3 {
                        ensure_eq!(e[i], <$t>::co(a.1[i]) - <$t>::co(a.0[i]), "extent axis {i}");
                    }
                    for p in &pts {
                        o.steps(2);
                        ensure_eq!(x.contains(&pt(p)), inside(a, p), "contains({p:?})");
                        let y = AABB::extend_with_point(&x, &pt(p));
                        let mut e = *a;
                        for i in 0..3 {
                            e.0[i] = e.0[i].min(p[i]);
                            e.1[i] = e.1[i].max(p[i]);
                        }
                        ensure_eq!((*y.min(), *y.max()), (pt(&e.0), pt(&e.1)), "extend_with_point({p:?})");
                    }
                    for b in &bs {
                        o.steps(2);
                        let y = AABB::<$t>::from_min_max_unchecked(pt(&b.0), pt(&b.1));
                        let u = AABB::union(&x, &y);
                        let mut e = *a;
                        let mut meet = true;
                        for i in 0..3 {
                            e.0[i] = e.0[i].min(b.0[i]);
                            e.1[i] = e.1[i].max(b.1[i]);
                            meet &= a.0[i].max(b.0[i]) <= a.1[i].min(b.1[i]);
                        }
                        ensure_eq!((*u.min(), *u.max()), (pt(&e.0), pt(&e.1)), "union with {b:?}");
                        ensure_eq!(x.intersects(&y), meet, "intersects {b:?}");
                    }
                    Ok(())
                });
            }
            for lo in &pts {
                for hi in &pts {
                    if (0..3).all(|i| lo[i] <= hi[i]) {
                        continue;
                    }
                    cx.case(|| format!("{} from_min_max({lo:?}, {hi:?})", stringify!($t)), |o| {
                        o.step();
                        must_panic(|| "a box whose minimum is greater than its maximum".into(), || AABB::<$t>::from_min_max(pt(lo), pt(hi)))
                    });
                }
            }
        }));
    };
}

macro_rules! float_shard {
    ($v:ident, $t:ty) => {
        $v.push(shard(concat!("cubic/", stringify!($t)), move |cx| {
            for b in boxes(5) {
                cx.case(|| format!("{} box {b:?}", stringify!($t)), |o| {
                    o.steps(2);
                    o.state(&b);
                    let x = AABB::<$t>::from_min_max(pt(&b.0), pt(&b.1));
                    let c = x.center();
                    let q = x.as_cubic();
                    let mut ext: $t = 0.0;
                    for i in 0..3 {
                        // the coordinates are dyadic, so that everything below is exact
                        ensure_eq!(c[i], (<$t>::co(b.0[i]) + <$t>::co(b.1[i])) / 2.0, "center axis {i}");
                        ext = ext.max(<$t>::co(b.1[i]) - <$t>::co(b.0[i]));
                    }
                    for i in 0..3 {
                        ensure_eq!((q.min()[i], q.max()[i]), (c[i] - ext / 2.0, c[i] + ext / 2.0), "as_cubic axis {i}");
                    }
                    Ok(())
                });
            }
        }));
    };
}

/// The same operations on coordinates of very different magnitudes. Everything that selects coordinates is exact,
/// everything that computes new ones is allowed some rounding.
macro_rules! magnitude_shard {
    ($v:ident, $t:ty, $k:expr) => {
        $v.push(shard(concat!("magnitudes/", stringify!($t)), move |cx| {
            const T: &str = stringify!($t);
            let big = <$t>::MAX / 8.0;
            let maps: Vec<[$t; 4]> = vec![
                [1000000.1, 1000000.2, 1000000.7, 1000003.9],
                [-5412345.67, -652341.123, 652341.123, 5412345.67],
                [-1e-7, 0.0, 1e-9, 3e-6],
                [-123456.789, -123456.7, 1e-3, 33.3],
                [-2e5, -1e5, 1e5, 3e5],
                [-1e9, -1e7 - 1.0, 1e7 + 1.0, 7e9],
                [-255.5, 255.25, 256.125, 65536.0],
                [-big, -big / 2.0, big / 4.0, big],
                [<$t>::MIN_POSITIVE, <$t>::MIN_POSITIVE * 2.0, <$t>::EPSILON, 1.0],
                [-big, -big * 0.9, -big * 0.5, -big * 0.25],
                [big * 0.1, big * 0.2, big * 0.9, big],
            ];
            let bs = boxes($k);
            for (mi, m) in maps.iter().enumerate() {
                let p = |p: &[i32; 3], turn: usize| Point3::new(m[p[0] as usize], maps[(mi + turn) % maps.len()][p[1] as usize], maps[(mi + 2 * turn) % maps.len()][p[2] as usize]);
                for turn in 0..2 {
                    for a in &bs {
                        cx.case(|| format!("{T} box {:?}..{:?}", p(&a.0, turn), p(&a.1, turn)), |o| {
                            let (lo, hi) = (p(&a.0, turn), p(&a.1, turn));
                            let x = AABB::<$t>::from_min_max(lo, hi);
                            o.state(&(mi, turn, a));
                            ensure_eq!((*x.min(), *x.max()), (lo, hi), "min/max");
                            let size = (0..3).map(|i| lo[i].abs().max(hi[i].abs())).fold(0.0, <$t>::max);
                            let (c, q, e) = (x.center(), x.as_cubic(), x.extent());
                            let ext = (0..3).map(|i| hi[i] - lo[i]).fold(0.0, <$t>::max);
                            for i in 0..3 {
                                let mag = lo[i].abs().max(hi[i].abs());
                                ensure_eq!(e[i], hi[i] - lo[i], "extent axis {i}");
                                let mid = lo[i] / 2.0 + hi[i] / 2.0;
                                ensure!((c[i] - mid).abs() <= 4.0 * <$t>::EPSILON * mag + 4.0 * <$t>::MIN_POSITIVE, "center axis {i}: {} instead of {mid}", c[i]);
                                let tol = 8.0 * <$t>::EPSILON * (size + ext) + 8.0 * <$t>::MIN_POSITIVE;
                                ensure!((q.min()[i] - (mid - ext / 2.0)).abs() <= tol, "as_cubic axis {i}: minimum {}, expected {}", q.min()[i], mid - ext / 2.0);
                                ensure!((q.max()[i] - (mid + ext / 2.0)).abs() <= tol, "as_cubic axis {i}: maximum {}, expected {}", q.max()[i], mid + ext / 2.0);
                            }
                            for c in 0..64 {
                                o.steps(2);
                                let r = [c % 4, c / 4 % 4, c / 16];
                                let at = p(&r, turn);
                                let inn = (0..3).all(|i| lo[i] <= at[i] && at[i] <= hi[i]);
                                ensure_eq!(x.contains(&at), inn, "contains({at:?})");
                                for i in 0..3 {
                                    let mut nan = at;
                                    nan[i] = <$t>::NAN;
                                    ensure!(!x.contains(&nan), "contains({nan:?})");
                                }
                                let y = AABB::extend_with_point(&x, &at);
                                for i in 0..3 {
                                    ensure_eq!((y.min()[i], y.max()[i]), (lo[i].min(at[i]), hi[i].max(at[i])), "extend_with_point({at:?}) axis {i}");
                                }
                                let one = AABB::<$t>::from_min_max(at, at);
                                ensure_eq!(x.intersects(&one), inn, "intersects the box of only {at:?}");
                                let u = AABB::union(&one, &x);
                                ensure_eq!((*u.min(), *u.max()), (*y.min(), *y.max()), "union with the box of only {at:?}");
                            }
                            Ok(())
                        });
                    }
                }
            }
        }));
    };
}

pub fn c20(thorough: bool) -> Vec<Shard> {
    let mut v = vec![];
    magnitude_shard!(v, f64, 4);
    magnitude_shard!(v, f32, 4);
    // the bounds of points in many orders of magnitude, including the extreme ones
    v.push(shard("collect/magnitudes", |cx| {
        let c = [f64::NEG_INFINITY, -f64::MAX, -1e305, -1e17, -5412345.67, -1e-300, 0.0, 5e-324, 0.1, 652341.123, 1e16 + 2.0, 1e305, f64::MAX, f64::INFINITY];
        for n in 1..=3usize {
            for code in 0..c.len().pow(n as u32) {
                for turn in 0..4usize {
                    let s: Vec<[f64; 3]> = (0..n)
                        .map(|i| {
                            let k = code / c.len().pow(i as u32) % c.len();
                            [c[k], c[(k + turn) % c.len()], c[(k * 5 + turn) % c.len()]]
                        })
                        .collect();
                    cx.case(|| format!("bounds of {s:?}"), |o| {
                        o.step();
                        o.state(&(n, code, turn));
                        let b: AABB<f64> = s.iter().map(|p| Point3::new(p[0], p[1], p[2])).collect();
                        for i in 0..3 {
                            let lo = s.iter().map(|p| p[i]).fold(f64::INFINITY, f64::min);
                            let hi = s.iter().map(|p| p[i]).fold(f64::NEG_INFINITY, f64::max);
                            ensure_eq!((b.min()[i], b.max()[i]), (lo, hi), "axis {i}");
                        }
                        Ok(())
                    });
                }
            }
        }
    }));
    let k = if thorough { 5 } else { 4 };
    aabb_shards!(v, f64, k);
    aabb_shards!(v, f32, k);
    aabb_shards!(v, i32, k);
    float_shard!(v, f64);
    float_shard!(v, f32);
    v.push(shard("approx", |cx| {
        let ps = [-3.0f64, -2.75, -2.5, -2.25, -2.0, 0.0, 3.75, 4.0, 4.25, 4.5, 4.75];
        for eps in [0.0f64, 0.25, 0.5] {
            for (lo, hi) in [([-2.5, -2.5, -2.5], [4.0, 4.0, 4.0]), ([-2.5, 4.0, -2.5], [-2.5, 4.25, 4.0]), ([4.0; 3], [4.0; 3])] {
                cx.case(|| format!("box {lo:?}..{hi:?} epsilon {eps}"), |o| {
                    let b = AABB::from_min_max(Point3::from(lo), Point3::from(hi));
                    for x in ps {
                        for y in ps {
                            for z in ps {
                                o.step();
                                o.state(&[x.to_bits(), y.to_bits(), z.to_bits(), eps.to_bits()]);
                                let p = [x, y, z];
                                let e = (0..3).all(|i| lo[i] - eps <= p[i] && p[i] <= hi[i] + eps);
                                ensure_eq!(b.contains_approx(&Point3::from(p), eps), e, "contains_approx({p:?}, {eps})");
                            }
                        }
                    }
                    Ok(())
                });
            }
        }
    }));
    // the bounds of a set of points are the smallest box around it
    for n in 1..=3usize {
        v.push(shard(format!("collect/{n}"), move |cx| {
            let pts: Vec<[i32; 3]> = (0..27).map(|c| [c % 3 * 2, c / 3 % 3 + 1, c / 9 * 2]).collect();
            for code in 0..27usize.pow(n as u32) {
                let s: Vec<[i32; 3]> = (0..n).map(|i| pts[code / 27usize.pow(i as u32) % 27]).collect();
                cx.case(|| format!("bounds of {s:?}"), |o| {
                    o.step();
                    let b: AABB<f64> = s.iter().map(|p| pt::<f64>(p)).collect();
                    let lo = [0, 1, 2].map(|i| s.iter().map(|p| p[i]).min().unwrap());
                    let hi = [0, 1, 2].map(|i| s.iter().map(|p| p[i]).max().unwrap());
                    o.state(&(lo, hi));
                    ensure_eq!((*b.min(), *b.max()), (pt(&lo), pt(&hi)), "bounds");
                    let b2: AABB<f64> = s.iter().map(|p| pt::<f64>(p).coords).collect();
                    ensure_eq!((*b2.min(), *b2.max()), (pt(&lo), pt(&hi)), "bounds of vectors");
                    Ok(())
                });
            }
        }));
    }
    v
}

// ---------------------------------------------------------------------------------------------
// C21

macro_rules! int_minmax {
    ($cx:ident, $t:ty, $vals:expr) => {{
        let vals: Vec<$t> = $vals;
        for a in &vals {
            $cx.case(|| format!("{} {a}: infimum and supremum with {} values", stringify!($t), vals.len()), |o| {
                for b in &vals {
                    o.steps(2);
                    let (lo, hi) = if a < b { (*a, *b) } else { (*b, *a) };
                    ensure_eq!(a.infimum(b), lo, "{a}.infimum({b})");
                    ensure_eq!(a.supremum(b), hi, "{a}.supremum({b})");
                }
                o.state(&(stringify!($t), format!("{a}")));
                Ok(())
            });
        }
        // component-wise for vectors
        let few: Vec<$t> = [0, vals.len() / 2, vals.len() - 1].iter().map(|i| vals[*i]).collect();
        for c in 0..27usize {
            $cx.case(|| format!("vectors of {}: {c}", stringify!($t)), |o| {
                let a = Vector3::new(few[c % 3], few[c / 3 % 3], few[c / 9]);
                for d in 0..27usize {
                    o.steps(2);
                    let b = Vector3::new(few[d % 3], few[d / 3 % 3], few[d / 9]);
                    let lo = a.zip_map(&b, |x, y| if x < y { x } else { y });
                    let hi = a.zip_map(&b, |x, y| if x > y { x } else { y });
                    ensure_eq!(a.infimum(&b), lo, "{a:?}.infimum({b:?})");
                    ensure_eq!(a.supremum(&b), hi, "{a:?}.supremum({b:?})");
                }
                Ok(())
            });
        }
    }};
}
macro_rules! bounds_of {
    ($t:ty) => {{
        let mut v: Vec<$t> = vec![<$t>::MIN, <$t>::MIN + 1, <$t>::MIN / 2, 0, 1, 2, 7, <$t>::MAX / 2, <$t>::MAX - 1, <$t>::MAX];
        v.sort();
        v.dedup();
        v
    }};
}
macro_rules! align_vals {
    ($cx:ident, $t:ty, $vals:expr, $als:expr) => {{
        for al in $als {
            let al: $t = al;
            $cx.case(|| format!("{} values aligned to {al}", stringify!($t)), |o| {
                for x in $vals {
                    let x: $t = x;
                    // the smallest multiple of the alignment that is not smaller than the value, if representable
                    let e = if al == 0 { Some(x) } else { x.checked_add(al - 1).map(|y| y / al * al).or_else(|| (x / al).checked_mul(al).filter(|y| *y == x).or_else(|| (x / al).checked_add(1).and_then(|q| q.checked_mul(al)))) };
                    if let Some(e) = e {
                        o.step();
                        ensure_eq!(x.align_to(al), e, "{x}.align_to({al})");
                    }
                }
                o.state(&(stringify!($t), al));
                Ok(())
            });
        }
    }};
}
/// Alignments of every magnitude, powers of two and others, with the values around their multiples
macro_rules! align_wide {
    ($v:ident, $t:ident, $all:expr) => {
        $v.push(shard(concat!("align/wide/", stringify!($t)), move |cx| {
            let mut s: Vec<$t> = vec![];
            if $all {
                s.extend((0..=65535u32).map(|x| x as $t));
            } else {
                for b in 0..$t::BITS {
                    for f in [1 as $t, 3, 5, 7, 11, 1000, 65_537u32 as $t] {
                        if f.leading_zeros() >= b {
                            let x = f << b;
                            s.extend([x.wrapping_sub(1), x, x.wrapping_add(1)]);
                        }
                    }
                }
                let mut p: $t = 1;
                while let Some(q) = p.checked_mul(10) {
                    p = q;
                    s.push(p);
                }
                s.sort();
                s.dedup();
            }
            let some: Vec<$t> = if $all { vec![] } else { s.clone() };
            for al in s {
                let mut vals = some.clone();
                if al > 0 {
                    let top = $t::MAX / al;
                    for m in [0, 1, 2, 3, 4, 5, 7, 100, top / 3, top / 2, top / 2 + 1, top.wrapping_sub(1), top] {
                        if m <= top {
                            let x = m * al;
                            vals.extend([x.saturating_sub(2), x.saturating_sub(1), x, x.saturating_add(1), x.saturating_add(2), x.saturating_add(al / 2)]);
                        }
                    }
                } else {
                    vals.extend([0, 1, 2, $t::MAX]);
                }
                align_vals!(cx, $t, vals.iter().copied(), [al]);
            }
        }));
    };
}

pub fn c21(thorough: bool) -> Vec<Shard> {
    let mut v = vec![];
    v.push(shard("minmax", move |cx| {
        int_minmax!(cx, u8, (0..=255).collect());
        int_minmax!(cx, i8, (-128..=127).collect());
        int_minmax!(cx, u16, bounds_of!(u16));
        int_minmax!(cx, i16, bounds_of!(i16));
        int_minmax!(cx, u32, bounds_of!(u32));
        int_minmax!(cx, i32, bounds_of!(i32));
        int_minmax!(cx, u64, bounds_of!(u64));
        int_minmax!(cx, i64, bounds_of!(i64));
        int_minmax!(cx, f32, vec![f32::NEG_INFINITY, f32::MIN, -1.5, -f32::MIN_POSITIVE, 0.0, 1e-45, 0.1, 1.0, 1.0000001, f32::MAX, f32::INFINITY]);
        int_minmax!(cx, f64, vec![f64::NEG_INFINITY, f64::MIN, -1.5, -f64::MIN_POSITIVE, 0.0, 5e-324, 0.1, 1.0, 1.0000000000000002, f64::MAX, f64::INFINITY]);
        for a in [false, true] {
            for b in [false, true] {
                cx.case(|| format!("{a} {b}"), |o| {
                    o.steps(2);
                    ensure_eq!((a.infimum(&b), a.supremum(&b)), (a && b, a || b), "bool");
                    Ok(())
                });
            }
        }
    }));
    align_wide!(v, u16, true);
    align_wide!(v, u32, false);
    align_wide!(v, u64, false);
    align_wide!(v, u128, false);
    align_wide!(v, usize, false);
    v.push(shard("align", move |cx| {
        align_vals!(cx, u8, 0..=255u8, 0..=255u8);
        if thorough {
            align_vals!(cx, u16, 0..=65535u16, 0..=65535u16);
        } else {
            align_vals!(cx, u16, (0..=65535u16).step_by(7), (0..=257u16).chain([1024, 4096, 32768, 65535]));
        }
        align_vals!(cx, u32, (0..70000u32).step_by(13).chain(u32::MAX - 300..=u32::MAX), (0..70u32).chain([256, 1 << 16, 1 << 31, u32::MAX]));
        align_vals!(cx, u64, (0..9000u64).chain((1 << 32) - 80..(1 << 32) + 80).chain(u64::MAX - 300..=u64::MAX), (0..70u64).chain([256, 1 << 16, 1 << 32, 1 << 63, u64::MAX]));
        align_vals!(cx, u128, (0..3000u128).chain((1 << 64) - 80..(1 << 64) + 80).chain(u128::MAX - 300..=u128::MAX), (0..70u128).chain([256, 1 << 64, 1 << 127, u128::MAX]));
        align_vals!(cx, usize, (0..9000usize).chain(usize::MAX - 300..=usize::MAX), (0..70usize).chain([256, 1 << 16, 1 << 32, 1 << 63]));
    }));
    for hi in 0..8u64 {
        v.push(shard(format!("expand/{hi}"), move |cx| {
            for chunk in 0..64u64 {
                cx.case(|| format!("expand_bits_by_3 of 21-bit values with high bits {hi},{chunk}"), |o| {
                    for low in 0..4096u64 {
                        let x = hi << 18 | chunk << 12 | low;
                        let mut e = 0u64;
                        for b in 0..21 {
                            e |= (x >> b & 1) << (3 * b);
                        }
                        o.step();
                        ensure_eq!(expand_bits_by_3(x), e, "expand_bits_by_3({x:#x})");
                        // bits above the 21st are ignored
                        ensure_eq!(expand_bits_by_3(x | 1 << 21 | 1 << 63 | chunk << 30), e, "expand_bits_by_3({x:#x} with high bits set)");
                    }
                    o.state(&(hi, chunk));
                    Ok(())
                });
            }
        }));
    }
    v.push(shard("reverse", |cx| {
        let rev = |x: u64| (0..64).fold(0u64, |r, b| r | (x >> b & 1) << (63 - b));
        for byte in 0..8u32 {
            for bg in [0u64, u64::MAX, 0x0123_4567_89ab_cdef] {
                cx.case(|| format!("reverse_bits: every value of byte {byte} in {bg:#x}"), |o| {
                    for x in 0..256u64 {
                        let y = bg & !(0xff << (8 * byte)) | x << (8 * byte);
                        o.step();
                        o.state(&y);
                        ensure_eq!(reverse_bits(y), rev(y), "reverse_bits({y:#x})");
                    }
                    Ok(())
                });
            }
        }
        cx.case(|| "reverse_bits: every pair of bits".into(), |o| {
            for a in 0..64 {
                for b in 0..64 {
                    let y = 1u64 << a | 1 << b;
                    o.step();
                    ensure_eq!(reverse_bits(y), rev(y), "reverse_bits({y:#x})");
                }
            }
            Ok(())
        });
    }));
    v
}
