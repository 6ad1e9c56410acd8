//! C30: reprojection of point clouds.
use crate::pts::*;
use crate::with_raw;
use fw::*;
use pasture_algorithms::reprojection::*;
use pasture_core::layout::attributes::*;
use pasture_core::layout::*;
use pasture_core::math::AABB;
use pasture_core::nalgebra::{Point3, Vector3};

const LONGLAT: &str = "+proj=longlat +R=6371000 +no_defs +type=crs";
const MERC: &str = "+proj=merc +R=6371000 +units=m +no_defs +type=crs";
const EQC: &str = "+proj=eqc +R=6371000 +units=m +no_defs +type=crs";
const EQC2: &str = "+proj=eqc +lon_0=90 +R=6371000 +units=m +no_defs +type=crs";
const GEOC: &str = "+proj=geocent +R=6371000 +units=m +no_defs +type=crs";
const RAD: f64 = 6371000.0;

/// Closed forms of the transformations between systems on a sphere.
fn forward(crs: &str, p: V) -> V {
    let (l, f) = (p.x.to_radians(), p.y.to_radians());
    match crs {
        LONGLAT => p,
        MERC => V::new(RAD * l, RAD * (std::f64::consts::FRAC_PI_4 + f / 2.0).tan().ln(), p.z),
        EQC => V::new(RAD * l, RAD * f, p.z),
        EQC2 => V::new(RAD * (l - std::f64::consts::FRAC_PI_2), RAD * f, p.z),
        GEOC => {
            let r = RAD + p.z;
            V::new(r * f.cos() * l.cos(), r * f.cos() * l.sin(), r * f.sin())
        }
        _ => unreachable!(),
    }
}
fn close(a: V, b: V, crs: &str) -> bool {
    let tol = if crs == LONGLAT { 1e-8 } else { 1e-3 };
    (0..3).all(|i| (a[i] - b[i]).abs() <= if i == 2 { 1e-3 } else { tol })
}
/// Longitudes, latitudes and heights on a grid.
fn lattice() -> Vec<V> {
    let mut v = vec![];
    for x in [-45.0, 0.0, 10.5, 80.0] {
        for y in [-60.0, 0.0, 33.25, 51.0] {
            for z in [-12.0, 0.0, 1234.5] {
                v.push(V::new(x, y, z));
            }
        }
    }
    v
}
fn layouts() -> Vec<PointLayout> {
    vec![
        PointLayout::from_attributes(&[POSITION_3D]),
        PointLayout::from_attributes_packed(&[CLASSIFICATION, POSITION_3D, INTENSITY, GPS_TIME], 1),
        PointLayout::from_attributes(&[GPS_TIME, COLOR_RGB, POSITION_3D, RETURN_NUMBER]),
    ]
}
fn bytes(l: &PointLayout, positions: &[V], salt: usize) -> Vec<Vec<u8>> {
    let o = l.get_attribute_by_name(POSITION_3D.name()).unwrap().offset() as usize;
    positions
        .iter()
        .enumerate()
        .map(|(i, p)| {
            let mut b: Vec<u8> = (0..l.size_of_point_entry() as usize).map(|j| (i * 37 + j * 11 + salt * 101 + 1) as u8).collect();
            b[o..o + 24].copy_from_slice(bytemuck::bytes_of(p));
            b
        })
        .collect()
}
/// A buffer that can still be read after it was borrowed mutably for the whole lifetime of its memory, which is what
/// the signatures of the functions under test ask for.
struct Raw<T>(*mut T);
impl<T> Raw<T> {
    fn new(b: &mut T) -> Self {
        Raw(b)
    }
    fn get<'x>(&self) -> &'x mut T {
        // one borrow is used at a time, and none after the buffer is gone
        unsafe { &mut *self.0 }
    }
}
/// The values of all attributes except the positions, and the positions.
fn split(l: &PointLayout, p: &[Vec<u8>]) -> (Vec<Vec<u8>>, Vec<V>) {
    let o = l.get_attribute_by_name(POSITION_3D.name()).unwrap().offset() as usize;
    let rest = p
        .iter()
        .map(|b| {
            l.attributes()
                .filter(|a| a.name() != POSITION_3D.name())
                .flat_map(|a| b[a.offset() as usize..][..a.size() as usize].to_vec())
                .collect()
        })
        .collect();
    (rest, p.iter().map(|b| bytemuck::pod_read_unaligned::<V>(&b[o..o + 24])).collect())
}
fn within_case(kind: Kind, l: &PointLayout, src: &str, dst: &str, pos: &[V], want: &[V], exact: bool, o: &mut Obs) -> R {
    o.step();
    let p = bytes(l, pos, 1);
    let after = with_raw!(kind, l, &p, b, {
        let b = Raw::new(b);
        reproject_point_cloud_within(b.get(), src, dst);
        raw_points(b.get())
    });
    let ((r0, _), (r1, q)) = (split(l, &p), split(l, &after));
    ensure_eq!(q.len(), want.len(), "number of points");
    ensure!(r0 == r1, "attributes other than the position were changed");
    for i in 0..q.len() {
        if exact {
            ensure!((0..3).all(|a| q[i][a].to_bits() == want[i][a].to_bits() || q[i][a].is_nan() && want[i][a].is_nan()), "point {i} {:?} became {:?}, Projection::transform makes it {:?}", pos[i], q[i], want[i]);
        } else {
            ensure!(close(q[i], want[i], dst), "point {i} {:?} became {:?}, expected {:?}", pos[i], q[i], want[i]);
        }
    }
    Ok(())
}
fn between_case(kinds: (Kind, Kind), ls: (&PointLayout, &PointLayout), src: &str, dst: &str, pos: &[V], want: &[V], o: &mut Obs) -> R {
    o.step();
    let p = bytes(ls.0, pos, 1);
    let t = bytes(ls.1, &vec![V::new(-1.0, -2.0, -3.0); pos.len()], 2);
    let (src_after, dst_after) = with_raw!(kinds.0, ls.0, &p, s, with_raw!(kinds.1, ls.1, &t, d, {
        let (s, d) = (Raw::new(s), Raw::new(d));
        reproject_point_cloud_between(s.get(), d.get(), src, dst);
        (raw_points(s.get()), raw_points(d.get()))
    }));
    let ((s0, p0), (s1, p1)) = (split(ls.0, &p), split(ls.0, &src_after));
    ensure!(s0 == s1 && p0.len() == p1.len() && p0.iter().zip(&p1).all(|(a, b)| bytemuck::bytes_of(a) == bytemuck::bytes_of(b)), "the source was changed");
    let ((r0, _), (r1, q)) = (split(ls.1, &t), split(ls.1, &dst_after));
    ensure!(r0 == r1, "attributes of the target other than the position were changed");
    for i in 0..q.len() {
        ensure!((0..3).all(|a| q[i][a].to_bits() == want[i][a].to_bits() || q[i][a].is_nan() && want[i][a].is_nan()), "point {i} {:?} became {:?}, Projection::transform makes it {:?}", pos[i], q[i], want[i]);
    }
    Ok(())
}

pub fn c30(_: bool) -> Vec<Shard> {
    let mut v = vec![];
    let systems = [LONGLAT, MERC, EQC, EQC2, GEOC];
    for (si, src) in systems.into_iter().enumerate() {
        for (di, dst) in systems.into_iter().enumerate() {
            v.push(shard(format!("transform-{si}-{di}"), move |cx| {
                let prepared = Projection::new(src, dst);
                cx.case(|| format!("{src} to {dst}"), |o| {
                    let proj = prepared.as_ref().map_err(|e| format!("valid reference systems are refused: {e}"))?;
                    for g in lattice() {
                        o.step();
                        o.state(&format!("{g:?}"));
                        let (from, to) = (forward(src, g), forward(dst, g));
                        let got = proj.transform(from);
                        ensure!(close(got, to, dst), "{from:?} became {got:?}, expected {to:?}");
                    }
                    Ok(())
                });
                let Ok(proj) = prepared else { return };
                // all boxes between lattice points: the corners of the box have to be inside of the result, and the
                // result may not be larger than the box around the corners
                let l = lattice();
                for i in 0..l.len() {
                    for j in 0..l.len() {
                        if (0..3).any(|a| l[i][a] > l[j][a]) {
                            continue;
                        }
                        cx.case(|| format!("bounds {:?} {:?} from {src} to {dst}", l[i], l[j]), |o| {
                            o.step();
                            let (a, b) = (forward(src, l[i]), forward(src, l[j]));
                            bounds_case(&proj, a, b, true, o)
                        });
                    }
                }
            }));
        }
    }
    // axes are swapped, a rotation: the extremes are not at the images of the minimum and the maximum
    for (name, src, dst) in [
        ("swap", "EPSG:4326", LONGLAT),
        ("rotated", LONGLAT, "+proj=omerc +lat_0=10 +lonc=20 +alpha=45 +R=6371000 +units=m +no_defs +type=crs"),
        ("conic", "EPSG:4326", "EPSG:3309"),
        ("polar", LONGLAT, "+proj=laea +lat_0=90 +R=6371000 +units=m +no_defs +type=crs"),
    ] {
        v.push(shard(format!("bounds-{name}"), move |cx| {
            let Ok(proj) = Projection::new(src, dst) else {
                cx.case(|| format!("{src} to {dst}"), |_| Err("valid reference systems are refused".into()));
                return;
            };
            let c = [-20.0, -1.0, 0.0, 15.0, 40.0];
            words(5, 6, &mut |w| {
                if w[0] > w[3] || w[1] > w[4] || w[2] > w[5] {
                    return;
                }
                let (a, b) = (V::new(c[w[0]], c[w[1]], c[w[2]]), V::new(c[w[3]], c[w[4]], c[w[5]]));
                cx.case(|| format!("bounds {a:?} {b:?} from {src} to {dst}"), |o| {
                    o.step();
                    bounds_case(&proj, a, b, false, o)
                });
            });
        }));
    }
    for (pi, (src, dst)) in [(LONGLAT, MERC), ("EPSG:4326", "EPSG:3309"), (EQC, LONGLAT), (MERC, EQC2), (GEOC, MERC), (EQC2, GEOC)].into_iter().enumerate() {
        for kind in KINDS {
            v.push(shard(format!("within{pi}-{kind:?}"), move |cx| {
                let l = lattice();
                let proj = Projection::new(src, dst).unwrap();
                let ls = layouts();
                for n in 0..=cx.tier(2, 3usize) {
                    // every sequence of up to two (three) of twelve (with EPSG systems: four) positions
                    words(if pi == 1 { 4 } else { 12 }, n, &mut |w| {
                        let pos: Vec<V> = w.iter().map(|i| place(src, l[i * 4 + i / 3])).collect();
                        let want: Vec<V> = pos.iter().map(|p| proj.transform(*p)).collect();
                        let layout = &ls[w.iter().sum::<usize>() % 3];
                        cx.case(|| format!("{kind:?} {src} to {dst} {pos:?} {layout}"), |o| {
                            o.state(&(n, w.to_vec()));
                            within_case(kind, layout, src, dst, &pos, &want, true, o)
                        });
                    });
                }
                for n in [16usize, 48, 65, 100].into_iter().chain(if pi == 1 { vec![257, 1025] } else { large_sizes(cx.tier(4097, 65_537)) }) {
                    let pos: Vec<V> = (0..n).map(|i| place(src, l[i * 7 % l.len()])).collect();
                    let want: Vec<V> = pos.iter().map(|p| proj.transform(*p)).collect();
                    for layout in &ls {
                        cx.case(|| format!("{kind:?} {src} to {dst} {n} points {layout}"), |o| {
                            o.state(&n);
                            within_case(kind, layout, src, dst, &pos, &want, true, o)
                        });
                    }
                }
            }));
            v.push(shard(format!("between{pi}-{kind:?}"), move |cx| {
                let l = lattice();
                let proj = Projection::new(src, dst).unwrap();
                let ls = layouts();
                // every sequence of positions out of five, so that positions repeat with and without others in between
                if pi != 1 {
                    // (positions that differ in one coordinate only, and in several)
                    let g = [V::new(0.0, 0.0, 0.0), V::new(0.0, 0.0, 1234.5), V::new(0.0, 33.25, 0.0), V::new(10.5, 0.0, 0.0), V::new(10.5, 33.25, -12.0)];
                    for n in 1..=cx.tier(4, 6) {
                        let mut k = 0;
                        words(if n > 3 { cx.tier(3, 5) } else { 5 }, n, &mut |w| {
                            let pos: Vec<V> = w.iter().map(|i| place(src, g[*i])).collect();
                            let want: Vec<V> = pos.iter().map(|p| proj.transform(*p)).collect();
                            k += 1;
                            let (other, a, b) = (KINDS[k % KINDS.len()], &ls[k % 3], &ls[k / 3 % 3]);
                            cx.case(|| format!("{kind:?} to {other:?} {src} to {dst} {pos:?}"), |o| {
                                o.state(&(n, w.to_vec()));
                                between_case((kind, other), (a, b), src, dst, &pos, &want, o)?;
                                within_case(kind, a, src, dst, &pos, &want, true, o)
                            });
                        });
                    }
                }
                for (ni, n) in large_sizes(cx.tier(4097, 65_537)).into_iter().enumerate() {
                    if pi == 1 {
                        continue;
                    }
                    let other = KINDS[(ni + pi) % 5];
                    let pos: Vec<V> = (0..n).map(|k| place(src, l[(k * 5 + k / l.len()) % l.len()])).collect();
                    let want: Vec<V> = pos.iter().map(|p| proj.transform(*p)).collect();
                    cx.case(|| format!("{kind:?} to {other:?} {src} to {dst} {n} points"), |o| {
                        o.state(&n);
                        between_case((kind, other), (&ls[ni % 3], &ls[(ni + 1) % 3]), src, dst, &pos, &want, o)
                    });
                }
                for other in KINDS {
                    // creating the projection between the systems of the database takes a quarter of a second
                    let sizes: &[usize] = if pi == 1 { &[3] } else { &[0, 1, 2, 3, 17, 64, 65] };
                    for &n in sizes {
                        for (i, a) in ls.iter().enumerate() {
                            for (j, b) in ls.iter().enumerate() {
                                if pi == 1 && i == j {
                                    continue;
                                }
                                let pos: Vec<V> = (0..n).map(|k| place(src, l[(k * 5 + i + 3 * j) % l.len()])).collect();
                                let want: Vec<V> = pos.iter().map(|p| proj.transform(*p)).collect();
                                cx.case(|| format!("{kind:?} to {other:?} {src} to {dst} {n} points, layouts {i} {j}"), |o| {
                                    o.state(&(n, i, j));
                                    between_case((kind, other), (a, b), src, dst, &pos, &want, o)
                                });
                            }
                        }
                    }
                    for (n, m) in [(0usize, 1usize), (1, 0), (2, 3), (3, 2), (5, 4)].into_iter().take(if pi == 1 { 1 } else { 5 }) {
                        cx.case(|| format!("{kind:?} to {other:?}: {n} and {m} points"), |o| {
                            o.step();
                            let (p, q) = (bytes(&ls[1], &vec![place(src, l[5]); n], 1), bytes(&ls[0], &vec![V::zeros(); m], 2));
                            with_raw!(kind, &ls[1], &p, s, with_raw!(other, &ls[0], &q, d, {
                                let (s, d) = (Raw::new(s), Raw::new(d));
                                must_panic(|| "clouds of different sizes".into(), || reproject_point_cloud_between(s.get(), d.get(), src, dst))?;
                                ensure!(raw_points(d.get()) == q && raw_points(s.get()) == p, "the clouds were changed by the refused operation");
                            }));
                            Ok(())
                        });
                    }
                }
            }));
        }
    }
    // positions that have no image next to others that do
    for (pi, (src, dst)) in [(LONGLAT, MERC), (MERC, EQC2), (EQC, LONGLAT)].into_iter().enumerate() {
        for kind in KINDS {
            v.push(shard(format!("outside{pi}-{kind:?}"), move |cx| {
                let proj = Projection::new(src, dst).unwrap();
                let ls = layouts();
                let (nan, inf) = (f64::NAN, f64::INFINITY);
                let g = [
                    place(src, V::new(10.5, 33.25, 5.0)),
                    place(src, V::new(-45.0, 51.0, 0.0)),
                    V::new(10.5, 90.0, 1.0),
                    V::new(-45.0, 95.0, 2.0),
                    V::new(1e300, 1e10, 3.0),
                    V::new(nan, 1.0, 4.0),
                    V::new(1.0, inf, 6.0),
                    V::new(2.0, 1.0, nan),
                ];
                for n in 1..=cx.tier(3, 4) {
                    let mut k = 0;
                    words(g.len(), n, &mut |w| {
                        let pos: Vec<V> = w.iter().map(|i| g[*i]).collect();
                        let want: Vec<V> = pos.iter().map(|p| proj.transform(*p)).collect();
                        k += 1;
                        let (other, a, b) = (KINDS[k % KINDS.len()], &ls[k % 3], &ls[k / 3 % 3]);
                        cx.case(|| format!("{kind:?} to {other:?} {src} to {dst} {pos:?}"), |o| {
                            o.state(&(n, w.to_vec()));
                            between_case((kind, other), (a, b), src, dst, &pos, &want, o)?;
                            within_case(kind, a, src, dst, &pos, &want, true, o)
                        });
                    });
                }
            }));
        }
    }
    v.push(shard("refused", |cx| {
        for bad in ["", "nonsense", "EPSG:0", "EPSG:999999999", "+proj=nothing +type=crs", "nul\0byte"] {
            for (src, dst) in [(bad, LONGLAT), (LONGLAT, bad), (bad, bad)] {
                cx.case(|| format!("{src:?} to {dst:?}"), |o| {
                    o.step();
                    ensure!(Projection::new(src, dst).is_err(), "a projection between invalid reference systems was created");
                    for kind in KINDS {
                        let l = &layouts()[1];
                        let p = bytes(l, &lattice()[..3], 1);
                        with_raw!(kind, l, &p, b, {
                            let b = Raw::new(b);
                            must_panic(|| "invalid reference systems".into(), || reproject_point_cloud_within(b.get(), src, dst))?;
                            ensure!(raw_points(b.get()) == p, "the cloud was changed by the refused operation");
                        });
                    }
                    Ok(())
                });
            }
        }
        for kind in KINDS {
            cx.case(|| format!("{kind:?} without positions"), |o| {
                o.step();
                let l = PointLayout::from_attributes(&[INTENSITY, CLASSIFICATION]);
                let p = vec![vec![7u8; l.size_of_point_entry() as usize]; 2];
                with_raw!(kind, &l, &p, b, must_panic(|| "cloud without positions".into(), || reproject_point_cloud_within(b, LONGLAT, MERC)))
            });
        }
    }));
    v
}
/// A position of the lattice in the coordinates of `crs` (systems without a closed form take longitude and latitude).
fn place(crs: &str, g: V) -> V {
    if [LONGLAT, MERC, EQC, EQC2].contains(&crs) {
        forward(crs, g)
    } else {
        g
    }
}
/// `monotone`: every axis is transformed on its own and monotonously, so that the corners determine the box.
fn bounds_case(proj: &Projection, a: V, b: V, monotone: bool, o: &mut Obs) -> R {
    let (lo, hi) = (a.inf(&b), a.sup(&b));
    let got = proj.transform_bounds(&AABB::from_min_max(Point3::from(lo), Point3::from(hi)));
    let mut corners = vec![];
    for x in [lo.x, hi.x] {
        for y in [lo.y, hi.y] {
            for z in [lo.z, hi.z] {
                corners.push(proj.transform(Vector3::new(x, y, z)));
            }
        }
    }
    if corners.iter().any(|c| c.iter().any(|x| !x.is_finite())) {
        return Ok(());
    }
    o.state(&format!("{got:?}"));
    for c in &corners {
        let tol = 1e-9 * (1.0 + c.amax());
        ensure!((0..3).all(|i| got.min()[i] <= c[i] + tol && c[i] <= got.max()[i] + tol), "the transformed corner {c:?} is not inside of the transformed bounds {got:?}");
    }
    if monotone {
        for i in 0..3 {
            let (l, h) = corners.iter().fold((f64::MAX, f64::MIN), |a, c| (a.0.min(c[i]), a.1.max(c[i])));
            let tol = 1e-9 * (1.0 + l.abs().max(h.abs()));
            ensure!((got.min()[i] - l).abs() <= tol && (got.max()[i] - h).abs() <= tol, "the transformed bounds {got:?} are larger than the box of the transformed corners {corners:?}");
        }
    }
    Ok(())
}
