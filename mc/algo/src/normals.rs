//! C26: estimated normals and curvatures.
use crate::pts::*;
use crate::with_buffer;
use fw::*;
use kd_tree::KdPoint;
use pasture_algorithms::normal_estimation::compute_normals;

impl KdPoint for Plain {
    type Scalar = f64;
    type Dim = typenum::U3;
    fn at(&self, k: usize) -> f64 {
        let p = self.position;
        p[k]
    }
}

type P = [i64; 3];

/// Eigenvalues (ascending) and eigenvectors of a symmetric matrix by Jacobi rotations.
fn jacobi(mut a: [[f64; 3]; 3]) -> ([f64; 3], [[f64; 3]; 3]) {
    let mut v = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]];
    for _ in 0..60 {
        for (p, q) in [(0, 1), (0, 2), (1, 2)] {
            if a[p][q] == 0.0 {
                continue;
            }
            let theta = (a[q][q] - a[p][p]) / (2.0 * a[p][q]);
            let t = if theta >= 0.0 { 1.0 } else { -1.0 } / (theta.abs() + (theta * theta + 1.0).sqrt());
            let c = 1.0 / (t * t + 1.0).sqrt();
            let s = t * c;
            let r = |m: &mut [[f64; 3]; 3], cols: bool| {
                for k in 0..3 {
                    if cols {
                        let (x, y) = (m[k][p], m[k][q]);
                        m[k][p] = c * x - s * y;
                        m[k][q] = s * x + c * y;
                    } else {
                        let (x, y) = (m[p][k], m[q][k]);
                        m[p][k] = c * x - s * y;
                        m[q][k] = s * x + c * y;
                    }
                }
            };
            r(&mut a, true);
            r(&mut a, false);
            r(&mut v, true);
        }
    }
    let mut o = [0, 1, 2];
    o.sort_by(|x, y| a[*x][*x].partial_cmp(&a[*y][*y]).unwrap());
    (o.map(|i| a[i][i]), o.map(|i| [v[0][i], v[1][i], v[2][i]]))
}
/// n^2 times the covariance matrix of integer points, exactly.
fn covariance(p: &[P]) -> [[f64; 3]; 3] {
    let n = p.len() as i64;
    let mut m = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            let s: i64 = p.iter().map(|q| q[i] * q[j]).sum();
            let (a, b): (i64, i64) = (p.iter().map(|q| q[i]).sum(), p.iter().map(|q| q[j]).sum());
            m[i][j] = (n * s - a * b) as f64;
        }
    }
    m
}
/// Does the result fit the neighbourhood? `None` if the neighbourhood has no well-defined normal.
fn fits(nb: &[P], normal: V, curvature: f64) -> Option<R> {
    let (l, v) = jacobi(covariance(nb));
    let trace = l[0] + l[1] + l[2];
    if trace == 0.0 || (l[1] - l[0]) < 0.05 * trace {
        return None;
    }
    let check = || {
        let len = normal.norm();
        ensure!(len > 0.0 && len.is_finite(), "the normal is {normal:?}");
        let e = V::new(v[0][0], v[0][1], v[0][2]);
        let sin = normal.cross(&e).norm() / len;
        ensure!(sin < 1e-4, "the normal {normal:?} is not parallel to {e:?}, the direction of least variance of {nb:?}");
        let want = (l[0] / trace).max(0.0);
        ensure!((curvature - want).abs() < 1e-6, "curvature {curvature}, the share of the variance along the normal is {want} for {nb:?}");
        Ok(())
    };
    Some(check())
}
fn choose(from: &[P], k: usize, f: &mut dyn FnMut(&[P])) {
    fn rec(from: &[P], k: usize, cur: &mut Vec<P>, f: &mut dyn FnMut(&[P])) {
        if k == 0 {
            return f(cur);
        }
        for i in 0..from.len() {
            if from.len() - i < k {
                break;
            }
            cur.push(from[i]);
            rec(&from[i + 1..], k - 1, cur, f);
            cur.pop();
        }
    }
    rec(from, k, &mut vec![], f)
}

fn case(kind: Kind, p: &[P], k: usize, scale: f64, at: V, o: &mut Obs) -> R {
    o.step();
    let pts = plain(&p.iter().map(|q| V::new(q[0] as f64, q[1] as f64, q[2] as f64) * scale + at).collect::<Vec<_>>());
    let other = Plain { class: 9, position: V::new(0.5, 0.5, 0.5), intensity: 0 };
    let n = pts.len();
    let got = with_buffer!(kind, pts, other, b, {
        let before = raw_points(b);
        let r = normals_of(b, k);
        ensure!(raw_points(b) == before, "the points were changed");
        r
    });
    ensure_eq!(got.len(), n, "number of results");
    for (i, (normal, curvature)) in got.iter().enumerate() {
        let d = |q: &P| (0..3).map(|a| (q[a] - p[i][a]).pow(2)).sum::<i64>();
        let mut s: Vec<P> = p.to_vec();
        s.sort_by_key(d);
        let m = k.min(n);
        let far = d(&s[m - 1]);
        let sure: Vec<P> = s.iter().copied().filter(|q| d(q) < far).collect();
        let tied: Vec<P> = s.iter().copied().filter(|q| d(q) == far).collect();
        // any choice among the points that are equally far away is a set of nearest neighbours
        let mut ok = false;
        let mut why = String::new();
        choose(&tied, m - sure.len(), &mut |c| {
            if ok {
                return;
            }
            let nb: Vec<P> = sure.iter().chain(c).copied().collect();
            match fits(&nb, *normal, *curvature) {
                None | Some(Ok(())) => ok = true,
                Some(Err(e)) => why = e,
            }
        });
        ensure!(ok, "point {i} of {n}, {k} neighbours: {why}");
        o.state(&(sure.len(), tied.len(), (*curvature * 1e6) as i64));
    }
    Ok(())
}
/// `bad` points whose coordinates `nan` are undefined among the points, all of them in every neighbourhood
fn undefined(kind: Kind, p: &[P], bad: usize, place: usize, nan: usize, k: usize, o: &mut Obs) -> R {
    o.step();
    let mut q: Vec<V> = p.iter().map(|q| V::new(q[0] as f64, q[1] as f64, q[2] as f64)).collect();
    for i in 0..bad {
        let c = |a: usize, v: f64| if nan >> a & 1 == 1 { f64::NAN } else { v };
        q.insert(if i == 0 { place } else { (place * 2) % (p.len() + 1) }, V::new(c(0, 1.0), c(1, 4.0), c(2, -1.0)));
    }
    let pts = plain(&q);
    let other = Plain { class: 9, position: V::new(0.5, 0.5, 0.5), intensity: 0 };
    let got = with_buffer!(kind, pts, other, b, normals_of(b, k));
    ensure_eq!(got.len(), q.len(), "number of results");
    for (i, (normal, curvature)) in got.iter().enumerate() {
        if let Some(r) = fits(p, *normal, *curvature) {
            r.map_err(|e| format!("point {i} of {}, all are neighbours: {e}", q.len()))?;
        }
        o.state(&((*curvature * 1e6) as i64));
    }
    Ok(())
}
fn normals_of<'a, B: pasture_core::containers::BorrowedBuffer<'a>>(b: &'a B, k: usize) -> Vec<(V, f64)> {
    compute_normals::<B, Plain>(b, k)
}

fn subsets(n: usize, k: usize, f: &mut dyn FnMut(&[usize])) {
    fn rec(s: usize, n: usize, k: usize, cur: &mut Vec<usize>, f: &mut dyn FnMut(&[usize])) {
        if k == 0 {
            return f(cur);
        }
        for i in s..n {
            cur.push(i);
            rec(i + 1, n, k - 1, cur, f);
            cur.pop();
        }
    }
    rec(0, n, k, &mut vec![], f)
}

pub fn c26(thorough: bool) -> Vec<Shard> {
    let mut v = vec![];
    let mut grid: Vec<P> = vec![];
    for x in 0..3 {
        for y in 0..3 {
            for z in 0..3 {
                grid.push([x, y * 2 + (x == 1) as i64, z * 3 - (y == 2) as i64]);
            }
        }
    }
    for (si, (scale, at)) in [(1.0, V::zeros()), (0.125, V::new(4.0, -2.0, 1.0)), (64.0, V::new(1024.0, 0.0, -4096.0))].into_iter().enumerate() {
        for n in 3..=if thorough { 6usize } else { 5 } {
            let g = grid.clone();
            v.push(shard(format!("grid{si}-n{n}"), move |cx| {
                let mut count = 0usize;
                subsets(27, n, &mut |s| {
                    // a third of the sets of five points in the quick tier
                    if n == 5 && !cx.thorough && s[0] % 3 != si {
                        return;
                    }
                    let p: Vec<P> = s.iter().map(|i| g[*i]).collect();
                    for k in 3..=n {
                        count += 1;
                        let kind = KINDS[count % 5];
                        cx.case(|| format!("{kind:?} k={k} scale {scale} at {at:?} {p:?}"), |o| case(kind, &p, k, scale, at, o));
                    }
                });
            }));
        }
    }
    // the same at other magnitudes: all the arithmetic scales exactly
    for e in [-300i32, -100, -40, -20, 20, 100, 300] {
        let g = grid.clone();
        v.push(shard(format!("scaled-2^{e}"), move |cx| {
            let mut count = 0usize;
            for n in 4..=5usize {
                subsets(27, n, &mut |s| {
                    if s.iter().sum::<usize>() % if cx.thorough { 2 } else if n == 4 { 11 } else { 83 } > 0 {
                        return;
                    }
                    let p: Vec<P> = s.iter().map(|i| g[*i]).collect();
                    for k in 3..=n {
                        count += 1;
                        let kind = KINDS[count % 5];
                        let scale = 2f64.powi(e);
                        cx.case(|| format!("{kind:?} k={k} scale 2^{e} {p:?}"), |o| case(kind, &p, k, scale, V::new(-scale, 0.0, 2.0 * scale), o));
                    }
                });
            }
        }));
    }
    // sheets: points of a tilted plane with small integer deviations
    v.push(shard("sheets", |cx| {
        for (a, b) in [(0i64, 0i64), (1, 0), (1, 2), (-3, 1), (5, -7)] {
            for dev in 0..cx.tier(64u64, 1024) {
                for side in [3i64, 4, 5] {
                    let p: Vec<P> = (0..side * side)
                        .map(|i| {
                            let (x, y) = (i % side, i / side);
                            let d = (dev >> ((x * 3 + y * 5) % 10) & 1) as i64;
                            [x * 20, y * 20 + x, (x * 20 * a + (y * 20 + x) * b) + d * 3]
                        })
                        .collect();
                    for k in [4usize, 9, 30] {
                        let kind = KINDS[(dev % 5) as usize];
                        cx.case(|| format!("{kind:?} k={k} {p:?}"), |o| case(kind, &p, k, 1.0, V::zeros(), o));
                    }
                }
            }
        }
    }));
    // neighbourhoods that contain points with undefined coordinates
    for n in 3..=5usize {
        let g = grid.clone();
        v.push(shard(format!("undefined-n{n}"), move |cx| {
            let mut count = 0usize;
            subsets(27, n, &mut |s| {
                // a part of the sets of four and five points in the quick tier
                if !cx.thorough && (n == 4 && s[1] % 3 > 0 || n == 5 && s.iter().sum::<usize>() % 41 > 0) {
                    return;
                }
                let p: Vec<P> = s.iter().map(|i| g[*i]).collect();
                for bad in 1..=2usize {
                    for place in 0..=n {
                        for more in [0usize, 1, 5] {
                            count += 1;
                            let kind = KINDS[count % 5];
                            let nan = count / 5 % 7 + 1;
                            cx.case(
                                || format!("{kind:?} {p:?}, {bad} points with undefined coordinates {nan:03b} from {place}, k={}", n + bad + more),
                                |o| undefined(kind, &p, bad, place, nan, n + bad + more, o),
                            );
                        }
                    }
                }
            });
        }));
    }
    // larger clouds, larger neighbourhoods, no two neighbours equally far away
    for (ni, n) in [60usize, 130, 257, 400, 1025].into_iter().enumerate() {
        v.push(shard(format!("cloud-n{n}"), move |cx| {
            for seed in 0..cx.tier(if n > 500 { 1u64 } else { 6 }, 12) {
                let mut x = seed * 7919 + n as u64;
                let mut next = move |m: i64| {
                    x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    (x >> 33) as i64 % m
                };
                let p: Vec<P> = (0..n)
                    .map(|_| {
                        let (a, b) = (next(10007), next(10009));
                        [a, b, match seed % 3 { 0 => a + 2 * b + next(900), 1 => a * a / 5000 - b + next(50), _ => next(6000) }]
                    })
                    .collect();
                for k in [3usize, 8, 31, 32, 33, 64, 100, 129, n - 1, n] {
                    if k > n {
                        continue;
                    }
                    let kind = KINDS[(seed as usize + ni) % 5];
                    cx.case(|| format!("{kind:?} cloud {seed} of {n} points, k={k}"), |o| case(kind, &p, k, 1.0, V::zeros(), o));
                }
            }
        }));
    }
    v.push(shard("refused", |cx| {
        for kind in KINDS {
            for n in 0..6usize {
                for k in 0..5usize {
                    if n >= 3 && k >= 3 {
                        continue;
                    }
                    cx.case(|| format!("{kind:?} {n} points, {k} neighbours"), |o| {
                        o.step();
                        let pts = plain(&[V::new(0.0, 0.0, 0.0), V::new(1.0, 0.0, 0.0), V::new(0.0, 1.0, 0.0), V::new(0.0, 0.0, 1.0), V::new(3.0, 3.0, 3.0)][..n.min(5)]);
                        let other = Plain { class: 9, position: V::zeros(), intensity: 0 };
                        with_buffer!(kind, pts, other, b, must_panic(|| "too few points or neighbours".into(), || normals_of(b, k)))
                    });
                }
            }
        }
    }));
    v
}
