//! C24: convex hulls of integer points, decided with exact integer arithmetic.
use crate::pts::*;
use crate::with_buffer;
use fw::*;
use pasture_algorithms::convexhull::*;
use pasture_core::nalgebra::Vector3;
use std::collections::{BTreeMap, BTreeSet};

pub type P = [i64; 3];
fn sub(a: P, b: P) -> P {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
fn cross(a: P, b: P) -> P {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn dot(a: P, b: P) -> i128 {
    (0..3).map(|d| a[d] as i128 * b[d] as i128).sum()
}
fn normal(a: P, b: P, c: P) -> P {
    cross(sub(b, a), sub(c, a))
}
pub fn rank(p: &[P]) -> usize {
    let Some(a) = p.first() else { return 0 };
    let Some(b) = p.iter().find(|b| *b != a) else { return 0 };
    let Some(c) = p.iter().find(|c| normal(*a, *b, **c) != [0; 3]) else { return 1 };
    let n = normal(*a, *b, *c);
    if p.iter().any(|d| dot(n, sub(*d, *a)) != 0) {
        3
    } else {
        2
    }
}
/// Is point `i` an extreme point of the set (not in the convex hull of the others)?
pub fn extreme(p: &[P], q: P) -> bool {
    let o: Vec<P> = p.iter().copied().filter(|x| *x != q).collect();
    !inside(&o, q)
}
/// q in conv(o), by Caratheodory: in some point, segment, triangle or tetrahedron.
fn inside(o: &[P], q: P) -> bool {
    let n = o.len();
    for i in 0..n {
        if o[i] == q {
            return true;
        }
        for j in i + 1..n {
            let (u, v) = (sub(o[i], q), sub(o[j], q));
            if cross(u, v) == [0; 3] && dot(u, v) <= 0 {
                return true;
            }
            for k in j + 1..n {
                let m = normal(o[i], o[j], o[k]);
                if m != [0; 3] && dot(m, sub(q, o[i])) == 0 {
                    let s = [
                        dot(m, cross(sub(o[j], o[i]), sub(q, o[i]))),
                        dot(m, cross(sub(o[k], o[j]), sub(q, o[j]))),
                        dot(m, cross(sub(o[i], o[k]), sub(q, o[k]))),
                    ];
                    if s.iter().all(|x| *x >= 0) {
                        return true;
                    }
                }
                for l in k + 1..n {
                    let d = dot(m, sub(o[l], o[i]));
                    if d == 0 {
                        continue;
                    }
                    let t = [o[i], o[j], o[k], o[l]];
                    let vol = |a: P, b: P, c: P, d: P| dot(normal(a, b, c), sub(d, a));
                    let s = d.signum();
                    let all = [
                        vol(q, t[1], t[2], t[3]),
                        vol(t[0], q, t[2], t[3]),
                        vol(t[0], t[1], q, t[3]),
                        vol(t[0], t[1], t[2], q),
                    ];
                    if all.iter().all(|x| x * s >= 0) {
                        return true;
                    }
                }
            }
        }
    }
    false
}

pub fn check_mesh(p: &[P], tris: &[Vector3<usize>], small: bool, strict: bool) -> R {
    let n = p.len();
    let mut edges: BTreeMap<(usize, usize), i64> = BTreeMap::new();
    for t in tris {
        for i in 0..3 {
            ensure!(t[i] < n, "triangle {t:?} refers to a point that does not exist");
        }
        let m = normal(p[t[0]], p[t[1]], p[t[2]]);
        ensure!(m != [0; 3], "triangle {:?} {:?} has no area", t, [p[t[0]], p[t[1]], p[t[2]]]);
        for (i, q) in p.iter().enumerate() {
            let d = dot(m, sub(*q, p[t[0]]));
            ensure!(d <= 0, "point {i} {q:?} lies outside of triangle {:?} {:?}", t, [p[t[0]], p[t[1]], p[t[2]]]);
        }
        for (a, b) in [(0, 1), (1, 2), (2, 0)] {
            *edges.entry((t[a], t[b])).or_insert(0) += 1;
        }
    }
    // A planar hull covers both sides of a polygon: an inner edge borders two triangles per side.
    let planar = rank(p) == 2;
    for ((a, b), k) in &edges {
        ensure!(*k == 1 || planar && *k == 2, "edge {a}->{b} is used by {k} triangles of the same orientation");
        ensure!(edges.get(&(*b, *a)) == Some(k), "the mesh is open at the edge {a}->{b}");
    }
    let used: BTreeSet<P> = tris.iter().flat_map(|t| [p[t[0]], p[t[1]], p[t[2]]]).collect();
    for q in p.iter().filter(|_| small) {
        let e = extreme(p, *q);
        ensure!(!e || used.contains(q), "extreme point {q:?} is not part of the hull");
        if strict {
            ensure!(e || !used.contains(q), "point {q:?} is part of the hull although it is not extreme");
        }
    }
    if rank(p) == 2 {
        // both sides of the polygon are covered exactly once
        let n0 = normal(p[tris[0][0]], p[tris[0][1]], p[tris[0][2]]);
        let l2 = |m: P| (dot(m, m) as f64).sqrt();
        let (mut pos, mut neg) = (0.0, 0.0);
        for t in tris {
            let m = normal(p[t[0]], p[t[1]], p[t[2]]);
            if dot(m, n0) > 0 {
                pos += l2(m)
            } else {
                neg += l2(m)
            }
        }
        ensure!((pos - neg as f64).abs() < 1e-9 * f64::max(1.0, pos), "planar hull covers an area of {pos} on one side and {neg} on the other");
    }
    Ok(())
}

pub fn check(k: Kind, p: &[P]) -> R {
    let pts = plain(&p.iter().map(|q| V::new(q[0] as f64, q[1] as f64, q[2] as f64)).collect::<Vec<_>>());
    let other = Plain { class: 99, position: V::new(50.0, -70.0, 90.0), intensity: 1 };
    let (mesh, points) = with_buffer!(k, pts, other, b, (convex_hull_as_triangle_mesh(b), convex_hull_as_points(b)));
    verify(p, mesh, points, p.len() <= 9)
}
/// Positions that are stored with another datatype.
pub fn check_f32(k: Kind, p: &[P]) -> R {
    let pts: Vec<Plain32> = p
        .iter()
        .enumerate()
        .map(|(i, q)| Plain32 { class: i as u8, position: Vector3::new(q[0] as f32, q[1] as f32, q[2] as f32) })
        .collect();
    let other = Plain32 { class: 99, position: Vector3::new(50.0, -70.0, 90.0) };
    let (mesh, points) = with_buffer!(k, pts, other, b, (convex_hull_as_triangle_mesh(b), convex_hull_as_points(b)));
    verify(p, mesh, points, p.len() <= 9)
}
macro_rules! other_positions {
    ($($name:ident, $f:ident, $t:tt, $doc:expr);*) => {$(
        #[derive(pasture_derive::PointType, Copy, Clone, PartialEq, Debug, bytemuck::AnyBitPattern, bytemuck::NoUninit)]
        #[repr(C, packed)]
        pub struct $name {
            #[pasture(BUILTIN_CLASSIFICATION)]
            pub class: u8,
            #[pasture(attribute = "Position3D")]
            pub position: Vector3<$t>,
        }
        /// Positions of another datatype, scaled by `f` and moved by `at`.
        fn $f(k: Kind, p: &[P], f: f64, at: f64) -> R {
            let pts: Vec<$name> = p
                .iter()
                .map(|q| $name { class: 5, position: Vector3::new((q[0] as f64 * f + at) as $t, (q[1] as f64 * f + at) as $t, (q[2] as f64 * f + at) as $t) })
                .collect();
            let other = $name { class: 99, position: Vector3::new(50 as $t, 70 as $t, 90 as $t) };
            let (mesh, points) = with_buffer!(k, pts, other, b, (convex_hull_as_triangle_mesh(b), convex_hull_as_points(b)));
            verify(p, mesh, points, p.len() <= 9).map_err(|e| format!("{}, scaled by {f} and moved by {at}: {e}", $doc))
        }
    )*};
}
other_positions!(PlainF32, check_f32_at, f32, "f32 positions"; PlainI32, check_i32_at, i32, "i32 positions"; PlainU16, check_u16_at, u16, "u16 positions"; PlainU8, check_u8_at, u8, "u8 positions");
/// The same integer points in another unit: scaling by a power of two is exact.
pub fn check_scaled(k: Kind, p: &[P], e: i32) -> R {
    let f = 2f64.powi(e);
    let pts = plain(&p.iter().map(|q| V::new(q[0] as f64 * f, q[1] as f64 * f, q[2] as f64 * f)).collect::<Vec<_>>());
    let other = Plain { class: 99, position: V::new(50.0, -70.0, 90.0), intensity: 1 };
    let (mesh, points) = with_buffer!(k, pts, other, b, (convex_hull_as_triangle_mesh(b), convex_hull_as_points(b)));
    verify(p, mesh, points, p.len() <= 9)
}
pub fn verify(p: &[P], mesh: anyhow::Result<Vec<Vector3<usize>>>, mut points: Vec<usize>, small: bool) -> R {
    let r = rank(p);
    points.sort();
    for w in points.windows(2) {
        ensure!(w[0] != w[1], "point {} is returned twice", w[0]);
    }
    ensure!(points.iter().all(|i| *i < p.len()), "hull points {points:?} of {} points", p.len());
    if small {
        for q in p {
            ensure!(!extreme(p, *q) || points.iter().any(|i| p[*i] == *q), "extreme point {q:?} is not among the hull points {points:?}");
        }
    }
    if r < 2 {
        ensure!(mesh.is_err(), "a mesh was returned for points on a line: {mesh:?}");
        ensure!(points.iter().all(|i| extreme(p, p[*i])), "hull points {points:?} of points on a line");
        return Ok(());
    }
    let mesh = mesh.map_err(|e| format!("refused although the points are not on a line: {e}"))?;
    let mut used: Vec<usize> = mesh.iter().flat_map(|t| [t[0], t[1], t[2]]).collect();
    used.sort();
    used.dedup();
    ensure_eq!(points, used, "hull points and vertices of the hull mesh");
    ensure!(mesh.len() >= 2, "mesh of {} triangles", mesh.len());
    check_mesh(p, &mesh, small, small && general(p))
}
/// No four points in a plane (and no three on a line).
pub fn general(p: &[P]) -> bool {
    let n = p.len();
    for i in 0..n {
        for j in i + 1..n {
            for k in j + 1..n {
                let m = normal(p[i], p[j], p[k]);
                if m == [0; 3] {
                    return false;
                }
                for l in k + 1..n {
                    if dot(m, sub(p[l], p[i])) == 0 {
                        return false;
                    }
                }
            }
        }
    }
    true
}

fn seqs(n: usize, k: usize, f: &mut dyn FnMut(&[usize])) {
    fn rec(n: usize, k: usize, cur: &mut Vec<usize>, f: &mut dyn FnMut(&[usize])) {
        if cur.len() == k {
            return f(cur);
        }
        for i in 0..n {
            if !cur.contains(&i) {
                cur.push(i);
                rec(n, k, cur, f);
                cur.pop();
            }
        }
    }
    rec(n, k, &mut vec![], f)
}
fn grid(d: [i64; 3]) -> Vec<P> {
    let mut v = vec![];
    for x in 0..d[0] {
        for y in 0..d[1] {
            for z in 0..d[2] {
                v.push([x, y, z]);
            }
        }
    }
    v
}

pub fn c24(thorough: bool) -> Vec<Shard> {
    let mut v = vec![];
    let mut seq_shard = |name: String, g: Vec<P>, k: usize, first: Option<usize>, scale: P, at: P| {
        v.push(shard(name, move |cx| {
            seqs(g.len(), k, &mut |s| {
                if first.map_or(false, |f| s[0] != f) {
                    return;
                }
                let p: Vec<P> = s.iter().map(|i| [0, 1, 2].map(|d| g[*i][d] * scale[d] + at[d])).collect();
                cx.case(|| format!("{p:?}"), |o| {
                    o.step();
                    o.state(&p);
                    check(Kind::Vector, &p)
                });
            });
        }));
    };
    // lines, planes, cubes and slabs: every insertion order of every subset of a grid
    for k in 1..=5 {
        seq_shard(format!("line{k}"), grid([5, 1, 1]), k, None, [1; 3], [0; 3]);
        seq_shard(format!("line-skew{k}"), (0..5).map(|i| [i, 2 * i, -3 * i]).collect(), k, None, [1; 3], [7, -11, 5]);
    }
    for k in 3..=6 {
        seq_shard(format!("plane{k}"), grid([3, 3, 1]), k, None, [1; 3], [0; 3]);
    }
    for k in 3..=5 {
        seq_shard(format!("plane-skew{k}"), grid([3, 3, 1]).iter().map(|q| [q[0] + q[1], 2 * q[0] - q[1], q[1] - 3 * q[0]]).collect(), k, None, [1; 3], [-4, 9, 100]);
    }
    for k in 4..=8 {
        seq_shard(format!("cube{k}"), grid([2, 2, 2]), k, None, if k % 2 == 0 { [1; 3] } else { [3, 5, 7] }, [-1, -2, 6]);
    }
    seq_shard("slab5".into(), grid([3, 2, 2]), 5, None, [1; 3], [0; 3]);
    // far away from the origin, as projected coordinates are
    for (i, at) in [[500_000, 5_412_345, 120], [65_534, 65_535, 65_536], [-8_388_609, 16_777_215, 4_294_967_295], [-2_147_483_649, 0, 32_767]].into_iter().enumerate() {
        for k in 2..=5 {
            seq_shard(format!("far-cube{i}-{k}"), grid([2, 2, 2]), k, None, [1, 2, 3], at);
            seq_shard(format!("far-general{i}-{k}"), general_set(9, 7), k, None, [1; 3], at);
        }
        for k in 2..=4 {
            seq_shard(format!("far-plane{i}-{k}"), grid([3, 3, 1]), k, None, [1; 3], at);
        }
    }
    for s in 0..6u64 {
        for k in 4..8 {
            seq_shard(format!("general{s}-{k}"), general_set(s, 8), k, None, [1; 3], [0; 3]);
        }
    }
    if thorough {
        for f in 0..9 {
            seq_shard(format!("plane7-{f}"), grid([3, 3, 1]), 7, Some(f), [1; 3], [0; 3]);
            seq_shard(format!("plane8-{f}"), grid([3, 3, 1]), 8, Some(f), [1; 3], [0; 3]);
        }
        for f in 0..12 {
            seq_shard(format!("slab6-{f}"), grid([3, 2, 2]), 6, Some(f), [1; 3], [0; 3]);
            seq_shard(format!("wide4-{f}"), grid([4, 3, 1]), 5, Some(f), [1; 3], [0; 3]);
        }
        for f in 0..27 {
            seq_shard(format!("grid4-{f}"), grid([3, 3, 3]), 4, Some(f), [1; 3], [0; 3]);
            seq_shard(format!("grid5-{f}"), grid([3, 3, 3]), 5, Some(f), [1; 3], [0; 3]);
        }
        for s in 0..24u64 {
            seq_shard(format!("general{s}-8"), general_set(s, 8), 8, None, [1; 3], [0; 3]);
        }
    }
    // repeated points
    v.push(shard("repeated", move |cx| {
        let g: Vec<P> = vec![[0, 0, 0], [2, 0, 0], [0, 3, 0], [0, 0, 4], [1, 1, 0]];
        for k in 0..=cx.tier(6, 7) {
            words(g.len(), k, &mut |w| {
                let p: Vec<P> = w.iter().map(|i| g[*i]).collect();
                cx.case(|| format!("{p:?}"), |o| {
                    o.step();
                    o.state(&p);
                    check(Kind::Vector, &p)
                });
            });
        }
    }));
    // every kind of buffer and positions of another datatype
    v.push(shard("buffers", move |cx| {
        for (g, ks) in [(general_set(3, 6), 1..6), (grid([3, 2, 1]), 1..5)] {
            for k in ks {
                seqs(g.len(), k, &mut |s| {
                    let p: Vec<P> = s.iter().map(|i| g[*i]).collect();
                    for kind in KINDS {
                        cx.case(|| format!("{kind:?} {p:?}"), |o| {
                            o.steps(2);
                            o.state(&(kind, &p));
                            check(kind, &p)?;
                            check_f32(kind, &p)?;
                            // large values of the datatype, |coordinates| <= 8
                            check_f32_at(kind, &p, 65536.0, 1048576.0)?;
                            check_f32_at(kind, &p, 2f64.powi(-60), 0.0)?;
                            check_i32_at(kind, &p, 65536.0 * 2048.0, -7.0)?;
                            check_u16_at(kind, &p, 4000.0, 32500.0)?;
                            check_u8_at(kind, &p, 15.0, 128.0)?;
                            // across the ends of the smaller types
                            o.steps(10);
                            for at in [0.0, 127.5, 255.5, 32767.5, 65535.5, 16777000.5] {
                                check_f32_at(kind, &p, 1.0, (at as f64).floor())?;
                                check_i32_at(kind, &p, 1.0, (at as f64).floor())?;
                            }
                            check_i32_at(kind, &p, 1.0, -32768.0)?;
                            check_u16_at(kind, &p, 1.0, 255.0)?;
                            check_u16_at(kind, &p, 1.0, 32767.0)?;
                            check_u8_at(kind, &p, 1.0, 127.0)
                        });
                    }
                });
            }
        }
        for kind in KINDS {
            cx.case(|| format!("{kind:?} without points / without positions"), |o| {
                o.steps(2);
                check(kind, &[])?;
                check_f32(kind, &[])?;
                check_i32_at(kind, &[], 1.0, 0.0)?;
                let pts = vec![NoPosition { class: 3, intensity: 2 }];
                with_buffer!(kind, pts, NoPosition { class: 9, intensity: 9 }, b, {
                    must_panic(|| "mesh without positions".into(), || convex_hull_as_triangle_mesh(b))?;
                    must_panic(|| "points without positions".into(), || convex_hull_as_points(b))
                })
            });
        }
    }));
    // the unit of the coordinates does not matter
    for e in [-200, -40, -20, 20, 200] {
        v.push(shard(format!("unit{e}"), move |cx| {
            for (g, ks) in [(grid([3, 2, 1]), 3..6), (grid([2, 2, 2]), 4..6), (general_set(5, 6), 4..7), (grid([5, 1, 1]), 2..5)] {
                for k in ks {
                    seqs(g.len(), k, &mut |s| {
                        let p: Vec<P> = s.iter().map(|i| g[*i]).collect();
                        cx.case(|| format!("{p:?} * 2^{e}"), |o| {
                            o.step();
                            o.state(&p);
                            check_scaled(Kind::Vector, &p, e)
                        });
                    });
                }
            }
        }));
    }
    // points hardly outside of, on or inside of wide and thin hulls
    for (i, w) in [32767i64, 20000].into_iter().enumerate() {
        v.push(shard(format!("thin{w}"), move |cx| {
            let g: Vec<P> = if i == 0 {
                vec![[-w, -w, 0], [w, -w, 0], [w, w, 0], [-w, w, 0], [w - 1, w - 1, 1], [0, 0, 1], [1, 0, -1], [w, w - 1, 0]]
            } else {
                vec![[-w, -w, -w], [w, w, w], [w, w, w - 1], [w - 1, w, w], [0, 0, 1], [0, 0, 0], [-w, w, 1 - w], [-w, w, -w]]
            };
            for k in 3..=cx.tier(6, 8) {
                seqs(g.len(), k, &mut |s| {
                    let p: Vec<P> = s.iter().map(|i| g[*i]).collect();
                    cx.case(|| format!("{p:?}"), |o| {
                        o.step();
                        o.state(&p);
                        check(Kind::Vector, &p)
                    });
                });
            }
        }));
    }
    // all points are corners: many vertices on the horizon of a new point
    for (n, step) in [(7i64, 1usize), (20, 1), (41, 7), (41, 1)] {
        v.push(shard(format!("bowl{n}-{step}"), move |cx| {
            let mut g: Vec<P> = vec![];
            for x in 0..n {
                for y in 0..n {
                    g.push([x, y, x * x + y * y]);
                }
            }
            let m = g.len();
            // every step-th point first, then the others; at last a far point that sees nearly the whole bowl
            for last in [None, Some([n / 2, n / 2, 100000]), Some([n / 2, n / 2, -100000])] {
                let mut p: Vec<P> = (0..m).map(|i| g[i * step % m]).collect();
                if step > 1 && m as usize % step == 0 {
                    p = g.clone();
                    p.reverse();
                }
                if let Some(q) = last {
                    p.push(q);
                }
                cx.case(|| format!("{m} points of a bowl, step {step}, then {last:?}"), |o| {
                    o.step();
                    o.state(&(m, step, last));
                    check(KINDS[step % 5], &p)?;
                    let b = with_buffer!(Kind::Vector, plain(&p.iter().map(|q| V::new(q[0] as f64, q[1] as f64, q[2] as f64)).collect::<Vec<_>>()), Plain { class: 99, position: V::new(50.0, -70.0, 90.0), intensity: 1 }, b, convex_hull_as_points(b));
                    if last != Some([n / 2, n / 2, -100000]) {
                        ensure_eq!(b.len(), p.len(), "corners of the hull although every point is one");
                    }
                    Ok(())
                });
            }
        }));
    }
    // larger sets in general position: rotations and reversals of the insertion order
    v.push(shard("large", move |cx| {
        for s in 0..cx.tier(12, 80u64) {
            let n = [12, 17, 24, 33][(s % 4) as usize];
            let g = large_set(s, n);
            for rot in 0..n {
                for rev in [false, true] {
                    let mut p = g.clone();
                    p.rotate_left(rot);
                    if rev {
                        p.reverse();
                    }
                    cx.case(|| format!("{p:?}"), |o| {
                        o.step();
                        o.state(&p);
                        check(if rot % 2 == 0 { Kind::Vector } else { Kind::HashMap }, &p)
                    });
                }
            }
        }
    }));
    for n in [60usize, 65, 90, 130] {
        v.push(shard(format!("large{n}"), move |cx| {
            if n > 100 && !cx.thorough {
                return;
            }
            for s in 0..cx.tier(2, 6u64) {
                let g = set_within(s, n, 700);
                for rot in (0..n).step_by(cx.tier(7, 1)) {
                    let mut p = g.clone();
                    p.rotate_left(rot);
                    cx.case(|| format!("{p:?}"), |o| {
                        o.step();
                        o.state(&p);
                        check(KINDS[rot % 5], &p)
                    });
                }
            }
        }));
    }
    v
}
/// A fixed set of `n` points in general position with coordinates up to 40.
pub fn large_set(s: u64, n: usize) -> Vec<P> {
    set_within(s, n, 40)
}
fn set_within(s: u64, n: usize, size: i64) -> Vec<P> {
    let mut x = s * 104729 + 777;
    let mut next = move || {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (x >> 33) as i64 % (2 * size + 1) - size
    };
    let mut v: Vec<P> = vec![];
    while v.len() < n {
        let q = [next(), next(), next()];
        let ok = (0..v.len()).all(|i| {
            (i + 1..v.len()).all(|j| {
                normal(v[i], v[j], q) != [0; 3] && (j + 1..v.len()).all(|k| dot(normal(v[i], v[j], v[k]), sub(q, v[i])) != 0)
            })
        });
        if ok {
            v.push(q);
        }
    }
    v
}
/// A fixed set of points in general position, some of them inside the hull of the others.
pub fn general_set(s: u64, n: usize) -> Vec<P> {
    let mut x = s * 7919 + 12345;
    let mut next = move || {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((x >> 33) % 13) as i64 - 6
    };
    let mut v: Vec<P> = vec![];
    while v.len() < n {
        let mut p = [next(), next(), next()];
        if v.len() >= 5 {
            p = [p[0] / 3, p[1] / 3, p[2] / 3];
        }
        v.push(p);
        if !general(&v) {
            v.pop();
        }
    }
    v
}
