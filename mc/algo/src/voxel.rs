//! C25: the voxel grid filter.
use crate::pts::*;
use crate::with_buffer;
use fw::*;
use pasture_algorithms::voxel_grid::voxelgrid_filter;
use pasture_core::containers::*;
use pasture_core::layout::attributes::*;
use pasture_core::layout::*;
use pasture_core::nalgebra::Vector3;
use pasture_derive::PointType;
use std::collections::BTreeMap;

#[derive(PointType, Copy, Clone, PartialEq, Debug, bytemuck::AnyBitPattern, bytemuck::NoUninit)]
#[repr(C, packed)]
pub struct Full {
    #[pasture(BUILTIN_INTENSITY)]
    pub intensity: u16,
    #[pasture(BUILTIN_RETURN_NUMBER)]
    pub return_number: u8,
    #[pasture(BUILTIN_NUMBER_OF_RETURNS)]
    pub number_of_returns: u8,
    #[pasture(BUILTIN_CLASSIFICATION_FLAGS)]
    pub classification_flags: u8,
    #[pasture(BUILTIN_SCANNER_CHANNEL)]
    pub scanner_channel: u8,
    #[pasture(BUILTIN_SCAN_DIRECTION_FLAG)]
    pub scan_direction_flag: u8,
    #[pasture(BUILTIN_EDGE_OF_FLIGHT_LINE)]
    pub edge_of_flight_line: u8,
    #[pasture(BUILTIN_POSITION_3D)]
    pub position: Vector3<f64>,
    #[pasture(BUILTIN_CLASSIFICATION)]
    pub classification: u8,
    #[pasture(BUILTIN_SCAN_ANGLE_RANK)]
    pub scan_angle_rank: i8,
    #[pasture(BUILTIN_SCAN_ANGLE)]
    pub scan_angle: i16,
    #[pasture(BUILTIN_USER_DATA)]
    pub user_data: u8,
    #[pasture(BUILTIN_POINT_SOURCE_ID)]
    pub point_source_id: u16,
    #[pasture(BUILTIN_COLOR_RGB)]
    pub color_rgb: Vector3<u16>,
    #[pasture(BUILTIN_GPS_TIME)]
    pub gps_time: f64,
    #[pasture(BUILTIN_NIR)]
    pub nir: u16,
    #[pasture(BUILTIN_POINT_ID)]
    pub point_id: u64,
    #[pasture(BUILTIN_NORMAL)]
    pub normal: Vector3<f32>,
}

#[derive(PointType, Copy, Clone, PartialEq, Debug, bytemuck::AnyBitPattern, bytemuck::NoUninit)]
#[repr(C)]
pub struct Some4 {
    #[pasture(BUILTIN_GPS_TIME)]
    pub gps_time: f64,
    #[pasture(BUILTIN_POINT_SOURCE_ID)]
    pub point_source_id: u16,
    #[pasture(BUILTIN_COLOR_RGB)]
    pub color_rgb: Vector3<u16>,
    #[pasture(BUILTIN_POSITION_3D)]
    pub position: Vector3<f64>,
}

/// The attributes of point `i` of pattern `p`; all values are chosen such that sums and means are exact.
fn full(i: usize, p: usize, position: V) -> Full {
    // every attribute follows its own sequence, so that an attribute that is aggregated from another one is noticed
    let c = |k: usize, m: usize| (i * (k + 1) + p * (2 * k + 3) + i * i * (p % 3) + k) % m;
    Full {
        position,
        intensity: (c(1, 5) * 16000 + 1503) as u16,
        return_number: 1 + c(2, 3) as u8,
        number_of_returns: 4 + c(3, 2) as u8,
        classification_flags: c(4, 7) as u8 * 30,
        scanner_channel: c(5, 3) as u8,
        scan_direction_flag: c(6, 2) as u8,
        edge_of_flight_line: c(7, 2) as u8,
        classification: c(8, 4) as u8 * 60,
        scan_angle_rank: c(9, 3) as i8 - 120,
        scan_angle: c(10, 3) as i16 * 10000 - 15000,
        user_data: 250 + c(11, 3) as u8,
        point_source_id: 65000 + c(12, 2) as u16,
        color_rgb: Vector3::new(c(13, 4) as u16 * 20000, c(14, 3) as u16, 65535 - c(15, 2) as u16),
        // no value of single precision
        gps_time: c(16, 5) as f64 * 100.25 + if p % 2 == 0 { -350.015625 - 1e9 } else { 1e9 + 0.015625 },
        nir: 65535 - c(17, 3) as u16,
        point_id: (1u64 << 60) + c(18, 5) as u64,
        normal: Vector3::new(c(19, 3) as f32 - 1.0, c(20, 5) as f32 * 0.5, -(c(21, 2) as f32)),
    }
}

/// Grid lines at min + k * leaf, k >= 1, up to the first one that is not smaller than the maximum.
fn lines(min: f64, max: f64, leaf: f64) -> Vec<f64> {
    let mut v = vec![];
    let mut c = min;
    while c < max {
        c += leaf;
        v.push(c);
    }
    v
}
/// The nearest grid line, the upper one of two that are equally far away.
fn cell(x: f64, l: &[f64]) -> usize {
    let mut best = 0;
    for i in 0..l.len() {
        if (x - l[i]).abs() <= (x - l[best]).abs() {
            best = i;
        }
    }
    best
}
fn modes<T: PartialEq + Copy>(v: &[T]) -> Vec<T> {
    let count = |x: &T| v.iter().filter(|y| *y == x).count();
    let m = v.iter().map(count).max().unwrap();
    v.iter().copied().filter(|x| count(x) == m).collect()
}
fn mean(v: impl Iterator<Item = f64> + Clone) -> f64 {
    v.clone().sum::<f64>() / v.count() as f64
}

/// Checks one output point against the points of a cell.
fn check_centroid(g: &Full, c: &[Full]) -> R {
    macro_rules! by_mean { ($($f:ident: $t:ty),*) => {$( ensure_eq!({ g.$f }, mean(c.iter().map(|p| p.$f as f64)) as $t, "{} (mean)", stringify!($f)); )*} }
    macro_rules! by_mode { ($($f:ident),*) => {$(
        let m = modes(&c.iter().map(|p| p.$f).collect::<Vec<_>>());
        ensure!(m.contains(&{ g.$f }), "{} is {:?}, the most common values are {:?}", stringify!($f), { g.$f }, m);
    )*} }
    macro_rules! by_max { ($($f:ident),*) => {$(
        let m = c.iter().map(|p| p.$f).fold(c[0].$f, |a, b| if b > a { b } else { a });
        ensure_eq!({ g.$f }, m, "{} (maximum)", stringify!($f));
    )*} }
    macro_rules! by_mean3 { ($($f:ident: $t:ty),*) => {$( for a in 0..3 {
        ensure_eq!({ g.$f }[a], mean(c.iter().map(|p| { p.$f }[a] as f64)) as $t, "{}[{a}] (mean)", stringify!($f));
    } )*} }
    by_mean3!(position: f64, color_rgb: u16, normal: f32);
    by_mean!(intensity: u16, nir: u16);
    by_mode!(return_number, number_of_returns, scanner_channel, scan_direction_flag, edge_of_flight_line, classification, scan_angle_rank, scan_angle, user_data, point_source_id);
    by_max!(classification_flags, gps_time, point_id);
    Ok(())
}

/// The output points have to be the centroids of the cells, in any order.
fn assign(out: &[Full], cells: &[Vec<Full>], used: &mut Vec<bool>, k: usize) -> R {
    if k == out.len() {
        return Ok(());
    }
    let mut why = String::new();
    // the natural order first
    for j in std::iter::once(k).chain(0..cells.len()) {
        if used[j] {
            continue;
        }
        match check_centroid(&out[k], &cells[j]) {
            Ok(()) => {
                used[j] = true;
                match assign(out, cells, used, k + 1) {
                    Ok(()) => return Ok(()),
                    Err(e) => why = e,
                }
                used[j] = false;
            }
            Err(e) if why.is_empty() => why = format!("output point {k} {:?} is not the centroid of a cell: cell {j} {:?}: {e}", out[k], cells[j]),
            Err(_) => {}
        }
    }
    Err(why)
}

/// Fills the attributes that a smaller target does not have from a cell with the same position.
fn case(kind: Kind, target: usize, pts: &[Full], leaf: [f64; 3], o: &mut Obs) -> R {
    o.step();
    let mut cells: BTreeMap<[usize; 3], Vec<Full>> = BTreeMap::new();
    let axis: Vec<Vec<f64>> = (0..3)
        .map(|a| {
            let c: Vec<f64> = pts.iter().map(|p| { p.position }[a]).collect();
            lines(c.iter().copied().fold(f64::MAX, f64::min), c.iter().copied().fold(f64::MIN, f64::max), leaf[a])
        })
        .collect();
    for p in pts {
        let q = p.position;
        cells.entry([0, 1, 2].map(|a| if axis[a].is_empty() { 0 } else { cell(q[a], &axis[a]) })).or_default().push(*p);
    }
    o.state(&format!("{:?}", cells.iter().map(|(k, v)| (*k, v.len())).collect::<Vec<_>>()));
    let cells: Vec<Vec<Full>> = cells.into_values().collect();
    let other = full(99, 99, V::new(-1e6, 1e6, 3.0));
    let owned = pts.to_vec();
    with_buffer!(kind, owned, other, b, {
        let before = raw_points(b);
        match target {
            0 | 1 => {
                // the same attributes, appended to a point that is already there
                let got: Vec<Full> = if target == 0 {
                    let mut t = VectorBuffer::new_from_layout(Full::layout());
                    voxelgrid_filter(b, leaf[0], leaf[1], leaf[2], &mut t);
                    t.view::<Full>().into_iter().collect()
                } else {
                    let mut t: HashMapBuffer = hashmap(&[full(7, 7, V::new(1.0, 2.0, 3.0))]);
                    voxelgrid_filter(b, leaf[0], leaf[1], leaf[2], &mut t);
                    let v: Vec<Full> = t.view::<Full>().into_iter().collect();
                    ensure_eq!(v[0], full(7, 7, V::new(1.0, 2.0, 3.0)), "point that was already in the target");
                    v[1..].to_vec()
                };
                ensure_eq!(got.len(), cells.len(), "number of output points (occupied cells)");
                assign(&got, &cells, &mut vec![false; cells.len()], 0)?;
            }
            _ => {
                let got: Vec<Some4> = if target == 2 {
                    let mut t = VectorBuffer::new_from_layout(Some4::layout());
                    voxelgrid_filter(b, leaf[0], leaf[1], leaf[2], &mut t);
                    t.view::<Some4>().into_iter().collect()
                } else {
                    let mut t = HashMapBuffer::new_from_layout(Some4::layout());
                    voxelgrid_filter(b, leaf[0], leaf[1], leaf[2], &mut t);
                    t.view::<Some4>().into_iter().collect()
                };
                ensure_eq!(got.len(), cells.len(), "number of output points (occupied cells)");
                let mut full_cells: Vec<Full> = vec![];
                let mut left: Vec<&Vec<Full>> = cells.iter().collect();
                for s in &got {
                    // the attributes that the target lacks are taken from the cell itself
                    let fits = |c: &&Vec<Full>| {
                        let mut f = c[0];
                        f.gps_time = c.iter().map(|p| p.gps_time).fold(f64::MIN, f64::max);
                        let m = modes(&c.iter().map(|p| p.point_source_id).collect::<Vec<_>>());
                        let pos = (0..3).all(|a| s.position[a] == mean(c.iter().map(|p| { p.position }[a])));
                        let col = (0..3).all(|a| s.color_rgb[a] == mean(c.iter().map(|p| { p.color_rgb }[a] as f64)) as u16);
                        pos && col && s.gps_time == { f.gps_time } && m.contains(&s.point_source_id)
                    };
                    let j = left.iter().position(|c| fits(c)).ok_or_else(|| format!("output point {s:?} is not the centroid of one of the cells {left:?}"))?;
                    full_cells.push(left.remove(j)[0]);
                }
            }
        }
        ensure!(raw_points(b) == before, "the source was changed");
    });
    Ok(())
}

pub fn c25(thorough: bool) -> Vec<Shard> {
    let mut v = vec![];
    let leafs = [[1.0, 1.0, 1.0], [0.5, 1.0, 2.0], [2.0, 0.75, 0.5], [1.5, 4.0, 0.25], [100.0, 100.0, 100.0], [0.25, 0.25, 8.0]];
    for (li, leaf) in leafs.into_iter().enumerate() {
        for n in 0..if thorough { 7usize } else { 6 } {
            v.push(shard(format!("leaf{li}-n{n}"), move |cx| {
                let xs = [-0.75, 0.0, 0.25, 0.5, 1.0, 1.75, 3.0];
                let alphabet = if n < 5 { 7 } else { cx.tier(6, 7) };
                let mut count = 0;
                words(alphabet, n, &mut |w| {
                    for (yz, pattern) in [(0, 0), (1, 1), (2, 2)] {
                        count += 1;
                        let pts: Vec<Full> = (0..n)
                            .map(|i| {
                                let y = w[(i + yz) % n];
                                let z = w[(i + 2 * yz) % n];
                                full(i, count % 11 * 3 + pattern, V::new(xs[w[i]], 2.0 * xs[(y + yz) % 7] + 10.0, -xs[(z * 2 + yz) % 7]))
                            })
                            .collect();
                        let kind = KINDS[count % 5];
                        let target = count / 5 % 4;
                        cx.case(
                            || format!("{kind:?} target {target} leaf {leaf:?} {pts:?}"),
                            |o| {
                                if n == 0 {
                                    o.step();
                                    let mut t = VectorBuffer::new_from_layout(Full::layout());
                                    let none: Vec<Full> = vec![];
                                    with_buffer!(kind, none, full(0, 0, V::zeros()), b, voxelgrid_filter(b, leaf[0], leaf[1], leaf[2], &mut t));
                                    ensure_eq!(t.len(), 0, "points of an empty cloud");
                                    return Ok(());
                                }
                                case(kind, target, &pts, leaf, o)
                            },
                        );
                    }
                });
            }));
        }
    }
    // every pattern of attributes of one cell: modes with every multiplicity, negative maxima, large IDs
    v.push(shard("one-cell", |cx| {
        for n in 1..=12usize {
            for p in 0..cx.tier(60, 2000) {
                let pts: Vec<Full> = (0..n).map(|i| full(i, p, V::new(i as f64 * 0.25, 1.0, 2.0 - i as f64 * 0.5))).collect();
                let kind = KINDS[p % 5];
                cx.case(|| format!("{kind:?} {pts:?}"), |o| case(kind, p / 5 % 2, &pts, [64.0; 3], o));
            }
        }
    }));
    // crowded cells: sums beyond the range of the attributes, counts beyond a byte
    v.push(shard("crowded", move |cx| {
        for n in [200usize, 255, 256, 257, 300, 1025] {
            for p in 0..cx.tier(5, 30) {
                let pts: Vec<Full> = (0..n).map(|i| full(i, p, V::new((i % 128) as f64 * 0.25, 1.0, 2.0 - (i % 64) as f64 * 0.5))).collect();
                let kind = KINDS[p % 5];
                cx.case(|| format!("{kind:?} {n} points in few cells, pattern {p}"), |o| case(kind, p % 4, &pts, [64.0; 3], o));
            }
        }
    }));
    // many points
    v.push(shard("many", move |cx| {
        for n in [9usize, 17, 33, 64, 100] {
            for p in 0..cx.tier(12, 120) {
                let pts: Vec<Full> = (0..n)
                    .map(|i| full(i, p, V::new((i * (p + 3) % 13) as f64 * 0.25, (i * i % 7) as f64 * 0.5, (i * 5 % 3) as f64 + p as f64)))
                    .collect();
                let leaf = leafs[p % leafs.len()];
                let kind = KINDS[p % 5];
                cx.case(|| format!("{kind:?} leaf {leaf:?} {n} points, pattern {p}"), |o| case(kind, p / 5 % 4, &pts, leaf, o));
            }
        }
    }));
    // many cells along an axis
    v.push(shard("long", move |cx| {
        for n in cx.tier(vec![40usize, 300], vec![40, 300, 700]) {
            for p in 0..18 {
                let (axis, step) = (p % 3, [0.75, 1.0, 4.5][p / 3 % 3]);
                let pts: Vec<Full> = (0..n)
                    .map(|i| {
                        let mut q = V::new(0.5, -2.0, 7.0);
                        q[axis] = if p < 9 { i } else { (i * 7) % n } as f64 * step - 20.0;
                        q[(axis + 1) % 3] += (i % 2) as f64;
                        full(i, p, q)
                    })
                    .collect();
                let kind = KINDS[p % 5];
                for leaf in [[1.0; 3], [1.0, 2.0, 0.5], [0.5, 1.0, 4.0], [8.0, 0.5, 1.0]] {
                    cx.case(|| format!("{kind:?} {n} points along axis {axis}, distance {step}, leaf {leaf:?}, pattern {p}"), |o| case(kind, p / 5 % 4, &pts, leaf, o));
                }
            }
        }
    }));
    // real world coordinates: far from the origin, leaf sizes that no float represents
    v.push(shard("far", move |cx| {
        let offs = [V::zeros(), V::new(4194304.25, -1048576.5, 1024.0), V::new(-500000.75, 5400000.125, 2.0)];
        for (oi, off) in offs.iter().enumerate() {
            for (li, leaf) in [[0.25; 3], [0.1, 0.3, 0.7], [0.7, 0.1, 0.03125], [1.1, 1.3, 0.9]].iter().enumerate() {
                for n in cx.tier(vec![1usize, 2, 5, 30], vec![1, 2, 3, 5, 9, 30, 100]) {
                    for p in 0..cx.tier(6usize, 30) {
                        let mut pts: Vec<Full> = (0..n)
                            .map(|i| full(i, p + li, off + V::new((i * (p + 3) % 13) as f64 * 0.375, (i * i % 7) as f64 * 0.625, (i * 5 % 11) as f64 * 0.21875)))
                            .collect();
                        // nothing on the border between two cells, where rounding decides
                        for a in 0..3 {
                            let c: Vec<f64> = pts.iter().map(|p| { p.position }[a]).collect();
                            let (min, max) = (c.iter().copied().fold(f64::MAX, f64::min), c.iter().copied().fold(f64::MIN, f64::max));
                            pts.retain(|p| {
                                let x = { p.position }[a];
                                let t = (x - min) / leaf[a];
                                x == min || x == max || leaf[a] == 0.25 || ((t - 0.5).fract() - 0.0).abs().min(1.0 - (t - 0.5).fract().abs()) > 1e-3
                            });
                        }
                        let kind = KINDS[p % 5];
                        cx.case(|| format!("{kind:?} {} points, offset {oi}, leaf {leaf:?}, pattern {p}", pts.len()), |o| case(kind, p / 5 % 4, &pts, *leaf, o));
                    }
                }
            }
        }
    }));
    v.push(shard("refused", |cx| {
        for kind in KINDS {
            for bad in [
                PointAttributeDefinition::custom("Unknown".into(), PointAttributeDataType::U16),
                PointAttributeDefinition::custom("Unknown".into(), PointAttributeDataType::Vec4u8),
                INTENSITY.with_custom_datatype(PointAttributeDataType::U8),
            ] {
                cx.case(|| format!("{kind:?} target with {bad}"), |o| {
                    o.step();
                    let mut t = VectorBuffer::new_from_layout(PointLayout::from_attributes(&[POSITION_3D, bad.clone()]));
                    let pts = vec![full(1, 2, V::new(1.0, 2.0, 3.0))];
                    with_buffer!(kind, pts, full(0, 0, V::zeros()), b, must_panic(|| "attribute without a rule in the target".into(), || voxelgrid_filter(b, 1.0, 1.0, 1.0, &mut t)))
                });
            }
            for bad in [WAVEFORM_DATA_OFFSET, WAVEFORM_PACKET_SIZE, WAVEFORM_PARAMETERS, WAVE_PACKET_DESCRIPTOR_INDEX, RETURN_POINT_WAVEFORM_LOCATION] {
                cx.case(|| format!("{kind:?} target with {bad}"), |o| {
                    o.step();
                    let l = PointLayout::from_attributes(&[POSITION_3D, bad.clone()]);
                    let mut t = VectorBuffer::new_from_layout(l);
                    let pts = vec![full(1, 2, V::new(1.0, 2.0, 3.0))];
                    with_buffer!(kind, pts, full(0, 0, V::zeros()), b, must_panic(|| "waveform attribute in the target".into(), || voxelgrid_filter(b, 1.0, 1.0, 1.0, &mut t)))
                });
            }
            cx.case(|| format!("{kind:?} source without positions"), |o| {
                o.step();
                let mut t = VectorBuffer::new_from_layout(NoPosition::layout());
                let pts = vec![NoPosition { class: 1, intensity: 2 }];
                with_buffer!(kind, pts, NoPosition { class: 0, intensity: 0 }, b, must_panic(|| "source without positions".into(), || voxelgrid_filter(b, 1.0, 1.0, 1.0, &mut t)))
            });
        }
    }));
    v
}
