//! C28/C29: RANSAC segmentation. The explorer owns every random choice of the algorithms (see /verif/shims/rand).
use crate::pts::*;
use crate::with_buffer;
use fw::*;
use pasture_algorithms::segmentation::*;
use pasture_core::containers::BorrowedBuffer;
use rand::rngs::model;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::{Arc, Mutex};

type P = [i64; 3];

/// The choice source: the script first, then an endless walk over all residues (so that rejection loops end).
fn source(script: Vec<u64>, used: Rc<RefCell<usize>>) -> Box<dyn FnMut() -> u64> {
    let mut i = 0;
    let mut extra = 0u64;
    Box::new(move || {
        let v = script.get(i).copied();
        i += 1;
        *used.borrow_mut() = i;
        v.unwrap_or_else(|| {
            extra += 1;
            // golden ratio walk: reaches every residue within a few steps
            extra.wrapping_mul(0x9E3779B97F4A7C15)
        })
    })
}
/// The raw generator output for which `gen_range(0..n)` is `k`.
fn raw(k: u64, n: u64) -> u64 {
    ((k as u128 * (1u128 << 64) / n as u128) + (1u128 << 62) / n as u128) as u64
}

#[derive(Clone, Debug, PartialEq)]
struct Res {
    /// a, b, c, d of a plane or the two points of a line, and the ranking, as printed
    model: Option<(Vec<f64>, usize)>,
    inliers: Vec<usize>,
}
fn numbers(s: &str) -> Option<(Vec<f64>, usize)> {
    let (m, r) = s.rsplit_once("ranking:")?;
    let rank = r.trim().trim_end_matches('}').trim().parse().ok()?;
    let m: String = m.chars().map(|c| if c.is_ascii_digit() || "+-.eE".contains(c) { c } else if c.is_ascii_alphabetic() { 'x' } else { ' ' }).collect();
    let v: Vec<f64> = m.split_whitespace().filter_map(|w| w.parse().ok()).collect();
    Some((v, rank))
}
#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
enum Algo {
    PlaneSerial,
    PlanePar,
    LineSerial,
    LinePar,
}
fn run<'a, B: BorrowedBuffer<'a> + Sync>(a: Algo, b: &'a B, t: f64, k: usize) -> Res {
    match a {
        Algo::PlaneSerial => res(ransac_plane_serial(b, t, k)),
        Algo::PlanePar => res(ransac_plane_par(b, t, k)),
        Algo::LineSerial => res(ransac_line_serial(b, t, k)),
        Algo::LinePar => res(ransac_line_par(b, t, k)),
    }
}
fn res<M: std::fmt::Debug>((m, inliers): (M, Vec<usize>)) -> Res {
    Res { model: numbers(&format!("{m:?}")), inliers }
}
fn serial(a: Algo) -> Algo {
    match a {
        Algo::PlanePar => Algo::PlaneSerial,
        Algo::LinePar => Algo::LineSerial,
        x => x,
    }
}
fn arity(a: Algo) -> usize {
    match a {
        Algo::PlaneSerial | Algo::PlanePar => 3,
        _ => 2,
    }
}

fn cross(a: P, b: P) -> P {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn sub(a: P, b: P) -> P {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
fn dot(a: P, b: P) -> i128 {
    (0..3).map(|i| a[i] as i128 * b[i] as i128).sum()
}
/// The points whose distance to the plane or line through the chosen points is less than t4 / 4, exactly.
/// A degenerate choice (repeated points, points on a line) has no inliers.
fn inliers(p: &[P], choice: &[usize], t4: i64) -> Vec<usize> {
    let t2 = t4 as i128 * t4 as i128;
    (0..p.len())
        .filter(|i| {
            let a = p[choice[0]];
            let (num, den) = if choice.len() == 3 {
                let n = cross(sub(p[choice[1]], a), sub(p[choice[2]], a));
                let d = dot(n, sub(p[*i], a));
                (d * d, dot(n, n))
            } else {
                let u = sub(p[choice[1]], a);
                let c = cross(u, sub(p[*i], a));
                (dot(c, c), dot(u, u))
            };
            den != 0 && 16 * num < t2 * den
        })
        .collect()
}
fn choices(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut v = vec![];
    words(n, k, &mut |w| {
        if (0..k).all(|i| (0..i).all(|j| w[i] != w[j])) {
            v.push(w.to_vec());
        }
    });
    v
}

/// The result has to be consistent in itself, and the model of some choice of points of the buffer.
fn consistent(a: Algo, p: &[P], t4: i64, r: &Res) -> R {
    ensure!(r.inliers.windows(2).all(|w| w[0] < w[1]), "the inliers {:?} are not increasing", r.inliers);
    if let Some((m, rank)) = &r.model {
        ensure_eq!(*rank, r.inliers.len(), "ranking of the model and number of inliers {:?}", r.inliers);
        let t = t4 as f64 / 4.0;
        let near: Option<Vec<(usize, f64)>> = match (arity(a), &m[..]) {
            (3, [a, b, c, d]) => Some((0..p.len()).map(|i| (i, (a * p[i][0] as f64 + b * p[i][1] as f64 + c * p[i][2] as f64 + d).abs() / (a * a + b * b + c * c).sqrt())).collect()),
            (2, [x0, y0, z0, x1, y1, z1]) => {
                let (f, u) = (V::new(*x0, *y0, *z0), V::new(x1 - x0, y1 - y0, z1 - z0));
                Some((0..p.len()).map(|i| (i, u.cross(&(V::new(p[i][0] as f64, p[i][1] as f64, p[i][2] as f64) - f)).norm() / u.norm())).collect())
            }
            _ => None,
        };
        for (i, d) in near.into_iter().flatten() {
            if (d - t).abs() > 1e-9 {
                ensure_eq!(r.inliers.contains(&i), d < t, "point {i} {:?} with distance {d} from the returned model {m:?} is an inlier (threshold {t})", p[i]);
            } else if d.is_nan() {
                ensure!(!r.inliers.contains(&i), "point {i} is an inlier of a model without a direction");
            }
        }
    }
    if p.len() > 40 {
        // decided by comparison with the single iterations instead
        return Ok(());
    }
    ensure!(
        choices(p.len(), arity(a)).iter().any(|c| inliers(p, c, t4) == r.inliers),
        "the inliers {:?} are not those of a plane or line through points of the buffer", r.inliers
    );
    Ok(())
}

/// One execution under a script of choices (indices into the points).
fn case(a: Algo, kind: Kind, p: &[P], t4: i64, iterations: usize, script: &[usize], o: &mut Obs) -> R {
    o.step();
    let n = p.len();
    let t = t4 as f64 / 4.0;
    let pts = plain(&p.iter().map(|q| V::new(q[0] as f64, q[1] as f64, q[2] as f64)).collect::<Vec<_>>());
    let other = Plain { class: 9, position: V::new(0.25, 0.75, 0.5), intensity: 0 };
    let raws: Vec<u64> = script.iter().map(|k| raw(*k as u64, n as u64)).collect();
    with_buffer!(kind, pts, other, b, {
        let used = Rc::new(RefCell::new(0));
        let total;
        let r;
        if matches!(a, Algo::PlanePar | Algo::LinePar) {
            // one worker: the order of the iterations is the order of the choices
            let out = Arc::new(Mutex::new(0usize));
            let (o2, raws2) = (out.clone(), raws.clone());
            r = one_worker(move || {
                let used = Rc::new(RefCell::new(0));
                model::set(Some(source(raws2, used.clone())));
                Box::new(move || {
                    *o2.lock().unwrap() = *used.borrow();
                })
            }, || run(a, b, t, iterations));
            total = *out.lock().unwrap();
        } else {
            model::set(Some(source(raws.clone(), used.clone())));
            let x = guard(|| run(a, b, t, iterations));
            model::set(None);
            r = x.map_err(|e| format!("panicked: {e}"))?;
            total = *used.borrow();
        }
        consistent(a, p, t4, &r)?;
        o.state(&(n, &r.inliers, total));
        if total == 0 {
            // the choices are not made with the thread-local generator: nothing more can be decided
            return Ok(());
        }
        // The same choices as a sequence of single iterations
        let used1 = Rc::new(RefCell::new(0));
        model::set(Some(source(raws, used1.clone())));
        let singles = guard(|| (0..iterations).map(|_| run(serial(a), b, t, 1)).collect::<Vec<_>>());
        model::set(None);
        let singles = singles.map_err(|e| format!("panicked: {e}"))?;
        for s in &singles {
            consistent(a, p, t4, s)?;
        }
        let single = *used1.borrow();
        if n > 40 && single >= iterations * arity(a) {
            // the choices of the script are distinct points: the inliers are known exactly
            let distinct = script.chunks(arity(a)).take(iterations).all(|c| c.len() == arity(a) && (0..c.len()).all(|i| (0..i).all(|j| c[i] != c[j])));
            if distinct && single == iterations * arity(a) {
                for (s, c) in singles.iter().zip(script.chunks(arity(a))) {
                    let mut orders = vec![inliers(p, c, t4)];
                    orders.dedup();
                    ensure!(orders.contains(&s.inliers), "the model through the points {c:?} has {} inliers, expected {}", s.inliers.len(), orders[0].len());
                }
            }
        }
        // a run that ends early (all points are inliers) makes fewer choices
        if total <= single {
            let best = singles.iter().map(|s| s.inliers.len()).max().unwrap();
            ensure_eq!(r.inliers.len(), best, "inliers of the best of {iterations} iterations {:?}", singles.iter().map(|s| &s.inliers).collect::<Vec<_>>());
            ensure!(singles.iter().any(|s| s.inliers == r.inliers), "the result {:?} is not one of the models {singles:?}", r.inliers);
        }
    });
    Ok(())
}

/// The distance of every point to the plane or line through the chosen points
fn distances(p: &[P], choice: &[usize]) -> Vec<f64> {
    let a = p[choice[0]];
    p.iter()
        .map(|q| {
            let (num, den) = if choice.len() == 3 {
                let n = cross(sub(p[choice[1]], a), sub(p[choice[2]], a));
                let d = dot(n, sub(*q, a));
                (d * d, dot(n, n))
            } else {
                let u = sub(p[choice[1]], a);
                let c = cross(u, sub(*q, a));
                (dot(c, c), dot(u, u))
            };
            if den == 0 { f64::NAN } else { (num as f64 / den as f64).sqrt() }
        })
        .collect()
}
/// A threshold a little (1e-9 of it) above or below the distance of one of the points
fn precise(a: Algo, p: &[P], unit: f64, script: &[usize], o: &mut Obs) -> R {
    let n = p.len();
    let pts = plain(&p.iter().map(|q| V::new(q[0] as f64, q[1] as f64, q[2] as f64) * unit).collect::<Vec<_>>());
    let buf: pasture_core::containers::VectorBuffer = pts.iter().copied().collect();
    let b = &buf;
    let raws: Vec<u64> = script.iter().map(|k| raw(*k as u64, n as u64)).collect();
    let all: Vec<Vec<f64>> = choices(n, arity(a)).iter().map(|c| distances(p, c)).collect();
    let mut ds: Vec<f64> = distances(p, script).into_iter().filter(|d| *d > 0.0).collect();
    ds.sort_by(f64::total_cmp);
    ds.dedup_by(|a, b| (*a - *b).abs() < 1e-12);
    for d in ds {
        for f in [1.0 - 1e-9, 1.0 + 1e-9] {
            o.step();
            let t = d * f * unit;
            let (r, total);
            if a != serial(a) {
                let out = Arc::new(Mutex::new(0usize));
                let (o2, raws2) = (out.clone(), raws.clone());
                r = one_worker(
                    move || {
                        let used = Rc::new(RefCell::new(0));
                        model::set(Some(source(raws2, used.clone())));
                        Box::new(move || {
                            *o2.lock().unwrap() = *used.borrow();
                        })
                    },
                    || run(a, b, t, 1),
                );
                total = *out.lock().unwrap();
            } else {
                let used = Rc::new(RefCell::new(0));
                model::set(Some(source(raws.clone(), used.clone())));
                let x = guard(|| run(a, b, t, 1));
                model::set(None);
                r = x.map_err(|e| format!("panicked: {e}"))?;
                total = *used.borrow();
            }
            o.state(&(n, &r.inliers, total));
            let near = |ds: &Vec<f64>| -> Vec<usize> { (0..n).filter(|i| ds[*i] * unit < t).collect() };
            ensure!(all.iter().any(|ds| near(ds) == r.inliers), "threshold {t:e}: the inliers {:?} are not those of a plane or line through points of the buffer", r.inliers);
            // the scripted choice as a plane or line that was drawn
            if total == arity(a) {
                let mut c: Vec<usize> = script.to_vec();
                c.dedup();
                if c.len() == arity(a) {
                    ensure_eq!(r.inliers, near(&distances(p, script)), "threshold {t:e}, {f} of the distance of a point: inliers of {script:?}");
                }
            }
        }
    }
    Ok(())
}

thread_local!(static POOL: RefCell<Option<rayon::ThreadPool>> = const { RefCell::new(None) });
/// Runs `f` on a rayon pool with a single worker; `before` runs on the worker first, its result afterwards.
fn one_worker<T: Send>(before: impl FnOnce() -> Box<dyn FnOnce()> + Send, f: impl FnOnce() -> T + Send) -> T {
    POOL.with(|p| {
        let mut p = p.borrow_mut();
        let pool = p.get_or_insert_with(|| rayon::ThreadPoolBuilder::new().num_threads(1).build().unwrap());
        pool.install(|| {
            let after = before();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            model::set(None);
            after();
            match r {
                Ok(r) => r,
                Err(e) => std::panic::resume_unwind(e),
            }
        })
    })
}

/// Several workers: every worker has its own script; whatever iterations a worker executes, its choices are decoded by
/// single iterations afterwards and the result has to be the best of all of them.
fn parallel(a: Algo, p: &[P], t4: i64, iterations: usize, workers: usize, seed: usize, o: &mut Obs) -> R {
    o.step();
    let n = p.len();
    let t = t4 as f64 / 4.0;
    let pts = plain(&p.iter().map(|q| V::new(q[0] as f64, q[1] as f64, q[2] as f64)).collect::<Vec<_>>());
    let script = |w: usize| -> Vec<u64> { (0..400).map(|i| raw(((i * i + i * (w + 2) + seed * (i / 3 + w + 1) + w) % n) as u64, n as u64)).collect() };
    let buf: pasture_core::containers::VectorBuffer = pts.iter().copied().collect();
    let b = &buf;
    let pool = rayon::ThreadPoolBuilder::new().num_threads(workers).build().unwrap();
    let counts: Arc<Mutex<Vec<usize>>> = Arc::new(Mutex::new(vec![0; workers]));
    let r = {
        let c = counts.clone();
        pool.broadcast(move |ctx| {
            let w = ctx.index();
            let s = script(w);
            let mut i = 0;
            let c = c.clone();
            model::set(Some(Box::new(move || {
                let v = s[i % s.len()];
                i += 1;
                c.lock().unwrap()[w] = i;
                v
            })));
        });
        pool.install(|| run(a, b, t, iterations))
    };
    drop(pool);
    consistent(a, p, t4, &r)?;
    let counts = counts.lock().unwrap().clone();
    if counts.iter().sum::<usize>() == 0 {
        return Ok(());
    }
    let mut all: Vec<Res> = vec![];
    for (w, c) in counts.iter().enumerate() {
        let s = script(w);
        let used = Rc::new(RefCell::new(0usize));
        let u = used.clone();
        model::set(Some(Box::new(move || {
            let mut i = u.borrow_mut();
            let v = s[*i % s.len()];
            *i += 1;
            v
        })));
        while *used.borrow() < *c {
            all.push(run(serial(a), b, t, 1));
        }
        model::set(None);
        if *used.borrow() != *c {
            // the parallel run chooses in a different way than the serial one
            return Ok(());
        }
    }
    o.state(&(counts.len(), r.inliers.len()));
    ensure!(all.len() == iterations || r.inliers.len() == n, "{} instead of {iterations} iterations on {workers} workers (choices {counts:?})", all.len());
    let best = all.iter().map(|s| s.inliers.len()).max().unwrap();
    ensure_eq!(r.inliers.len(), best, "inliers of the best of {iterations} iterations on {workers} workers");
    ensure!(all.iter().any(|s| s.inliers == r.inliers), "the result {:?} is not one of the models of the iterations", r.inliers);
    Ok(())
}

fn clouds(plane: bool) -> Vec<Vec<P>> {
    let mut v: Vec<Vec<P>> = vec![
        vec![[0, 0, 0], [4, 0, 0], [0, 4, 0], [0, 0, 4]],
        // points at exactly the threshold distance, on both sides
        vec![[0, 0, 0], [4, 0, 0], [0, 4, 0], [1, 1, 1], [1, 2, -1]],
        // points on a line (no plane), repeated points
        vec![[0, 0, 0], [1, 1, 1], [2, 2, 2], [3, 3, 3], [3, 0, 0]],
        vec![[5, 5, 5], [5, 5, 5], [5, 5, 5], [6, 5, 5]],
        vec![[-2, 3, 7], [10, -4, 2], [0, 9, -8], [3, 3, 3], [1, -6, 5]],
    ];
    if !plane {
        v.push(vec![[0, 0, 0], [3, 4, 0]]);
        v.push(vec![[0, 0, 0], [8, 0, 0], [3, 1, 0]]);
        v.push(vec![[1, 2, 3], [1, 2, 3]]);
        v.push(vec![[0, 0, 0], [0, 0, 8], [3, 0, 1], [0, -3, 2], [0, 1, 4], [1, 0, 7]]);
    } else {
        v.push(vec![[0, 0, 0], [1, 0, 0], [0, 1, 0]]);
        v.push(vec![[0, 0, 0], [6, 0, 0], [0, 6, 0], [2, 3, 4], [2, 2, 0], [1, 0, -1]]);
    }
    v
}

fn shards(algos: [Algo; 2], thorough: bool) -> Vec<Shard> {
    let mut v = vec![];
    let plane = arity(algos[0]) == 3;
    for a in algos {
        for (ci, p) in clouds(plane).into_iter().enumerate() {
            let n = p.len();
            let par = a != serial(a);
            for t4 in [1i64, 4, 5, 12] {
                let p = p.clone();
                v.push(shard(format!("{a:?}-cloud{ci}-t{t4}"), move |cx| {
                    for iterations in 1..=cx.tier(3, 4usize) {
                        // all sequences of choices up to the bound, including repeated ones that have to be drawn again
                        let budget: f64 = cx.tier(if par { 1500.0 } else { 5000.0 }, 60000.0);
                        let most = ((budget.ln() / (n as f64).ln()) as usize).max(1);
                        let len = (iterations * arity(a) + 1).min(most);
                        let mut c = 0usize;
                        words(n, len, &mut |w| {
                            c += 1;
                            let kind = KINDS[c % 5];
                            cx.case(|| format!("{a:?} {kind:?} threshold {}/4, {iterations} iterations, choices {w:?} of {p:?}", t4), |o| case(a, kind, &p, t4, iterations, w, o));
                        });
                        // the last iteration is the one that the explored choices decide
                        if iterations > 1 {
                            let free = (arity(a) + 1).min(most);
                            for prefix in 0..3usize {
                                let pre: Vec<usize> = (0..(iterations - 1)).flat_map(|i| (0..arity(a)).map(move |j| (prefix * (i + 1) + j * (1 + prefix % 2 * 0)) % n)).collect();
                                words(n, free, &mut |w| {
                                    c += 1;
                                    let kind = KINDS[c % 5];
                                    let s: Vec<usize> = pre.iter().chain(w).copied().collect();
                                    cx.case(|| format!("{a:?} {kind:?} threshold {}/4, {iterations} iterations, choices {s:?} of {p:?}", t4), |o| case(a, kind, &p, t4, iterations, &s, o));
                                });
                            }
                        }
                    }
                }));
            }
        }
        let p: Vec<P> = (0..24).map(|i: i64| if i % 4 == 0 { [i, i * i % 17, 3 * i % 11] } else { [i, 2 * i, (i * 7) % 3 - 1] }).collect();
        v.push(shard(format!("{a:?}-many"), move |cx| {
            for iterations in [1usize, 5, 16, 33] {
                for s in 0..cx.tier(30, 300usize) {
                    let script: Vec<usize> = (0..iterations * 4).map(|i| (i * i + i * (s + 1) + s) % 24).collect();
                    for t4 in [4i64, 9] {
                        cx.case(|| format!("{a:?} threshold {t4}/4, {iterations} iterations, choices {script:?} of {p:?}"), |o| case(a, KINDS[s % 5], &p, t4, iterations, &script, o));
                    }
                }
            }
        }));
        // only one of many iterations draws a good model
        let p: Vec<P> = (0..42).map(|i: i64| if i < 27 { [i, (i * i) % 13 * (plane as i64), 0] } else { [i * i % 31, 3 * i % 17 + 40, i * i * i % 101 + 10] }).collect();
        v.push(shard(format!("{a:?}-late"), move |cx| {
            for iterations in [64usize, 65, 100, 130, 257, cx.tier(300, 1025)] {
                for at in [0, 1, iterations / 2, iterations - 2, iterations - 1] {
                    let bad = [28 + at % 3, 33 + iterations % 4, 41];
                    let script: Vec<usize> = (0..iterations).flat_map(|i| if i == at { vec![0, 1, 3] } else { bad.to_vec() }.into_iter().take(arity(a))).collect();
                    cx.case(|| format!("{a:?} iteration {at} of {iterations} draws a good model of {p:?}"), |o| case(a, KINDS[at % 5], &p, 4, iterations, &script, o));
                }
            }
        }));
        // a good model that is drawn after more iterations than some counter or batch holds
        let p: Vec<P> = (0..42).map(|i: i64| if i < 27 { [i, (i * i) % 13 * (plane as i64), 0] } else { [i * i % 31, 3 * i % 17 + 40, i * i * i % 101 + 10] }).collect();
        v.push(shard(format!("{a:?}-very-late"), move |cx| {
            for (iterations, at) in [(1025usize, 1024usize), (4097, 4096), (10_001, 10_000), (66_000, 65_990)] {
                let script: Vec<usize> = (0..iterations).flat_map(|i| if i == at { vec![0, 1, 3] } else { vec![28, 33, 41] }.into_iter().take(arity(a))).collect();
                cx.case(|| format!("{a:?} iteration {at} of {iterations} draws a good model of {p:?}"), |o| case(a, Kind::Vector, &p, 4, iterations, &script, o));
            }
        }));
        // models through close points of a cloud that is many times as wide
        let far: Vec<P> = if plane {
            vec![[0, 0, 0], [1, 0, 0], [0, 1, 0], [1 << 18, 1 << 18, 0], [-(1 << 18), 3, 0], [1 << 18, -5, 2], [7, 1 << 17, -1], [2, 3, 40]]
        } else {
            vec![[0, 0, 0], [1, 0, 0], [1 << 22, 0, 0], [-(1 << 22), 0, 0], [(1 << 22) + 3, 1, 0], [5, 2, 0], [3, 1 << 21, 1 << 21], [4, (1 << 21) + 1, (1 << 21) + 1]]
        };
        v.push(shard(format!("{a:?}-far"), move |cx| {
            for t4 in [3i64, 9] {
                for (c, w) in choices(far.len(), arity(a)).iter().enumerate() {
                    cx.case(|| format!("{a:?} threshold {t4}/4, choices {w:?} of {far:?}"), |o| case(a, KINDS[c % 5], &far, t4, 1, w, o));
                    let two = [&w[..], &[0, 1, 2][..arity(a)]].concat();
                    cx.case(|| format!("{a:?} threshold {t4}/4, choices {two:?} of {far:?}"), |o| case(a, KINDS[c % 5], &far, t4, 2, &two, o));
                }
            }
        }));
        v.push(shard(format!("{a:?}-precise"), move |cx| {
            for p in clouds(plane) {
                for w in choices(p.len(), arity(a)) {
                    for unit in [1.0, 0.01, 1e-7, 12345.6] {
                        cx.case(|| format!("{a:?} thresholds next to the distances, choices {w:?} of {p:?} in units of {unit}"), |o| precise(a, &p, unit, &w, o));
                    }
                }
            }
        }));
        v.push(shard(format!("{a:?}-large"), move |cx| {
            for n in large_sizes(cx.tier(10_000, 65_537)) {
                // a third of the points near a plane and line, which is interrupted around powers of two
                let p: Vec<P> = (0..n as i64)
                    .map(|i| if i % 3 == 0 || i & 0xff > 0xfc { [i % 97, (i * i) % 89, i * 5 % 83 + 40] } else if plane { [i % 101, i * 7 % 103, i % 4] } else { [i % 1009, i % 4, i / 2 % 3] })
                    .collect();
                for s in 0..cx.tier(3, 12usize) {
                    let iterations = [1usize, 3, 6][s % 3];
                    let script: Vec<usize> = (0..iterations * arity(a)).map(|i| (i * 7919 + s * 131 + i * i * 17 + n / 2) % n).collect();
                    for t4 in [5i64, 9] {
                        cx.case(|| format!("{a:?} threshold {t4}/4, {iterations} iterations, choices {script:?} of {n} points"), |o| case(a, KINDS[s % 5], &p, t4, iterations, &script, o));
                    }
                }
            }
        }));
        if a != serial(a) {
            let p: Vec<P> = (0..12).map(|i: i64| [i, i * i % 7, (i * 5) % 3]).collect();
            v.push(shard(format!("{a:?}-workers"), move |cx| {
                for workers in [1usize, 2, 3, 8] {
                    for iterations in [1usize, 2, 7, 32, 65, 129] {
                        for seed in 0..cx.tier(12, 200usize) {
                            cx.case(|| format!("{a:?} {workers} workers, {iterations} iterations, script family {seed}"), |o| parallel(a, &p, 5, iterations, workers, seed, o));
                        }
                    }
                }
            }));
        }
        v.push(shard(format!("{a:?}-too-few"), move |cx| {
            for kind in KINDS {
                for n in 0..arity(a) {
                    cx.case(|| format!("{a:?} {kind:?} {n} points"), |o| {
                        o.step();
                        let pts = plain(&vec![V::new(1.0, 2.0, 3.0); n]);
                        with_buffer!(kind, pts, Plain { class: 0, position: V::zeros(), intensity: 0 }, b, must_panic(|| "too few points".into(), || run(a, b, 1.0, 3)))
                    });
                }
            }
        }));
    }
    let _ = thorough;
    v
}
pub fn c28(thorough: bool) -> Vec<Shard> {
    shards([Algo::PlaneSerial, Algo::PlanePar], thorough)
}
pub fn c29(thorough: bool) -> Vec<Shard> {
    shards([Algo::LineSerial, Algo::LinePar], thorough)
}
