//! C33: the 3D Tiles point writer. C34: the 3D Tiles point reader. C35: table headers. C36: tilesets.
use crate::io::*;
use crate::pts::*;
use crate::with_buf;
use fw::*;
use pasture_core::containers::*;
use pasture_core::layout::attributes::*;
use pasture_core::layout::*;
use pasture_core::math::AABB;
use pasture_core::nalgebra::{Matrix4, Point3, Vector3, Vector4};
use pasture_io::base::*;
use pasture_io::tiles3d::attributes::COLOR_RGBA;
use pasture_io::tiles3d::*;
use serde_json::{json, Map, Value};
use std::io::{BufReader, BufWriter, Cursor, ErrorKind, Seek, SeekFrom, Write};
use PointAttributeDataType as D;

/// (attribute name, name in the file, type in the file, alignment of the type in the file)
pub fn semantics() -> [(PointAttributeDefinition, &'static str, D, usize); 4] {
    [
        (POSITION_3D, "POSITION", D::Vec3f32, 4),
        (COLOR_RGBA, "RGBA", D::Vec4u8, 1),
        (COLOR_RGB, "RGB", D::Vec3u8, 1),
        (NORMAL, "NORMAL", D::Vec3f32, 4),
    ]
}
fn point(k: usize) -> Pt {
    let k = k as f64;
    let mut p = Pt::new();
    p.insert(POSITION_3D.name().into(), vec![k + 1.0, -2.0 * k, 100.0 + k]);
    p.insert(COLOR_RGBA.name().into(), vec![k, 255.0 - k, 17.0 + k, 200.0 - k]);
    p.insert(COLOR_RGB.name().into(), vec![3.0 * k, 254.0 - k, 99.0 - k]);
    p.insert(NORMAL.name().into(), vec![k, 1.0 - k, 3.0]);
    p.insert(INTENSITY.name().into(), vec![1000.0 + k]);
    p.insert(CLASSIFICATION.name().into(), vec![7.0 + k]);
    p
}

// ------------------------------------------------------------------------------- reading a file ourselves

pub struct Parsed {
    pub points: Vec<Pt>,
    pub rtc: Option<Vec<f64>>,
}
/// The contents of a file by the 3D Tiles specification
pub fn parse(b: &[u8]) -> R<Parsed> {
    ensure!(b.len() >= 28, "the file has {} bytes, less than a header", b.len());
    ensure!(&b[..4] == b"pnts", "magic bytes {:?}", &b[..4]);
    let h: Vec<usize> = b[4..28].chunks(4).map(|x| u32::from_le_bytes(x.try_into().unwrap()) as usize).collect();
    ensure_eq!(h[0], 1, "version");
    ensure_eq!(h[1], b.len(), "byteLength against the size of the file");
    ensure_eq!(28 + h[2] + h[3] + h[4] + h[5], b.len(), "sum of the section lengths against the size of the file");
    ensure!((28 + h[2]) % 8 == 0, "the feature table binary starts at {}, which is not 8-byte aligned", 28 + h[2]);
    ensure!((28 + h[2] + h[3]) % 8 == 0, "the batch table starts at {}, which is not 8-byte aligned", 28 + h[2] + h[3]);
    ensure!(b.len() % 8 == 0, "the file ends at {}, which is not 8-byte aligned", b.len());
    let ft: Value = serde_json::from_slice(&b[28..28 + h[2]]).map_err(|e| format!("feature table JSON: {e}"))?;
    let ft = ft.as_object().ok_or("the feature table is no object")?;
    let body = &b[28 + h[2]..28 + h[2] + h[3]];
    if h[4] > 0 {
        let at = 28 + h[2] + h[3];
        let bt: Value = serde_json::from_slice(&b[at..at + h[4]]).map_err(|e| format!("batch table JSON: {e}"))?;
        ensure!(bt.as_object().is_some_and(|o| o.is_empty()), "batch table {bt}");
    }
    let n = ft.get("POINTS_LENGTH").and_then(|v| v.as_u64()).ok_or("POINTS_LENGTH is missing")? as usize;
    let mut points = vec![Pt::new(); n];
    let mut used: Vec<(usize, usize)> = vec![];
    for (key, v) in ft {
        if key == "POINTS_LENGTH" || key == "RTC_CENTER" {
            continue;
        }
        let (a, _, d, align) = semantics().into_iter().find(|s| s.1 == key).ok_or(format!("unknown semantic {key}"))?;
        let off = v.get("byteOffset").and_then(|v| v.as_u64()).ok_or(format!("{key} has no byteOffset"))? as usize;
        let size = d.size() as usize;
        ensure!(off % align == 0, "{key} at {off} is not aligned to {align} bytes");
        ensure!(off + size * n <= body.len(), "{key} at {off} with {n} values is outside the body of {} bytes", body.len());
        if n > 0 {
            for (f, t) in &used {
                ensure!(off + size * n <= *f || off >= *t, "{key} overlaps another attribute");
            }
            used.push((off, off + size * n));
        }
        for (i, p) in points.iter_mut().enumerate() {
            p.insert(a.name().into(), decode(d, &body[off + i * size..off + (i + 1) * size]));
        }
    }
    let rtc = match ft.get("RTC_CENTER") {
        None => None,
        Some(v) => Some(v.as_array().ok_or("RTC_CENTER is no array")?.iter().map(|v| v.as_f64().unwrap_or(f64::NAN)).collect::<Vec<_>>()),
    };
    Ok(Parsed { points, rtc })
}
/// What the file must contain after writing `p`, stored with `l`
pub fn file_ok(b: &[u8], l: &PointLayout, p: &[Pt], rtc: Option<[f64; 3]>) -> R {
    let f = parse(b)?;
    ensure_eq!(f.points.len(), p.len(), "number of points in the file");
    ensure_eq!(f.rtc, rtc.map(|r| r.to_vec()), "RTC_CENTER");
    for (i, (got, p)) in f.points.iter().zip(p).enumerate() {
        for (a, key, d, _) in semantics() {
            match l.get_attribute_by_name(a.name()) {
                None => ensure!(!got.contains_key(a.name()), "the file has {key} although the points have no such attribute"),
                Some(m) => {
                    let want = cast(d, &cast(m.datatype(), &p[a.name()]));
                    let got = got.get(a.name()).ok_or(format!("{key} is missing"))?;
                    ensure!(same(got, &want), "point {i}: {key} is {got:?}, expected {want:?}");
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C33

/// All sequences without repetition of up to `max` of `k` things
fn arrangements(k: usize, max: usize, f: &mut dyn FnMut(&[usize])) {
    fn go(k: usize, max: usize, cur: &mut Vec<usize>, f: &mut dyn FnMut(&[usize])) {
        f(cur);
        if cur.len() < max {
            for i in 0..k {
                if !cur.contains(&i) {
                    cur.push(i);
                    go(k, max, cur, f);
                    cur.pop();
                }
            }
        }
    }
    go(k, max, &mut vec![], f)
}
/// Attributes by name; the second component selects between the types
fn stored(i: usize, alt: usize) -> PointAttributeDefinition {
    let (a, t): (_, &[D]) = match i {
        0 => (POSITION_3D, &[D::Vec3f32, D::Vec3f64, D::Vec3i32]),
        1 => (COLOR_RGB, &[D::Vec3u8, D::Vec3u16, D::Vec3f32]),
        2 => (COLOR_RGBA, &[D::Vec4u8]),
        3 => (NORMAL, &[D::Vec3f32, D::Vec3f64]),
        4 => (INTENSITY, &[D::U16]),
        _ => (CLASSIFICATION, &[D::U8]),
    };
    a.with_custom_datatype(t[alt % t.len()])
}

#[derive(Clone, Debug, Hash)]
enum WOp {
    Write(usize),
    Flush,
    Center(bool),
}
const CENTERS: [[f64; 3]; 2] = [[100.1, -20.3, 3.0], [0.0, 1e6 + 0.1, -0.7]];

fn write_history<W: Write + Seek>(w: W, dev: &Chan, l: &PointLayout, h: &[WOp], o: &mut Obs) -> R {
    let mut w = PntsWriter::from_write_and_layout(w, l.clone());
    let mut model: Vec<Pt> = vec![];
    let mut rtc = None;
    let mut k = 0;
    for op in h {
        o.step();
        match op {
            WOp::Write(n) => {
                let p: Vec<Pt> = (k..k + n).map(point).collect();
                k += n;
                with_buf!(KINDS[(k + n) % 5], l, &p, b, w.write(b).map_err(|e| format!("write: {e:?}"))?);
                model.extend(p);
            }
            WOp::Center(c) => {
                rtc = Some(CENTERS[*c as usize]);
                w.set_rtc_center(Vector3::from(rtc.unwrap()));
            }
            WOp::Flush => {
                w.flush().map_err(|e| format!("flush: {e:?}"))?;
                file_ok(&dev.bytes(), l, &model, rtc).map_err(|e| format!("after flush: {e}"))?;
            }
        }
    }
    no_panic(|| "drop".into(), || drop(w))?;
    file_ok(&dev.bytes(), l, &model, rtc).map_err(|e| format!("at the end: {e}"))
}

pub fn c33(_: bool) -> Vec<Shard> {
    let mut v = vec![];
    for packed in 0..3 {
        v.push(shard(format!("layouts-{packed}"), move |cx| {
            let max = cx.tier(4, 6);
            arrangements(6, max, &mut |w| {
                for alt in 0..3 {
                    let defs: Vec<_> = w.iter().map(|i| stored(*i, alt)).collect();
                    let l = match packed {
                        0 => PointLayout::from_attributes(&defs),
                        1 => PointLayout::from_attributes_packed(&defs, 1),
                        _ => PointLayout::from_attributes_packed(&defs, 2),
                    };
                    for counts in [&[][..], &[1], &[3], &[2, 3]] {
                        // empty points have no number
                        if w.is_empty() && !counts.is_empty() {
                            continue;
                        }
                        cx.case(
                            || format!("attributes {w:?}, types {alt}, counts {counts:?}"),
                            |o| {
                                o.state(&(w, alt, counts));
                                let dev = Chan::new(vec![]);
                                let mut h: Vec<WOp> = counts.iter().map(|n| WOp::Write(*n)).collect();
                                h.push(WOp::Flush);
                                write_history(dev.handle(), &dev, &l, &h, o)
                            },
                        );
                    }
                }
            });
        }));
    }
    for alt in 0..3usize {
        for mode in 0..4usize {
            v.push(shard(format!("history-{alt}-{mode}"), move |cx| {
                let l = match alt {
                    0 => PointLayout::from_attributes(&[POSITION_3D.with_custom_datatype(D::Vec3f32), COLOR_RGB.with_custom_datatype(D::Vec3u8)]),
                    1 => PointLayout::from_attributes(&[COLOR_RGB, INTENSITY, POSITION_3D]),
                    _ => PointLayout::from_attributes_packed(&[NORMAL, COLOR_RGBA], 1),
                };
                let ops = [WOp::Write(0), WOp::Write(1), WOp::Write(2), WOp::Write(5), WOp::Flush, WOp::Center(false), WOp::Center(true)];
                for n in 0..=cx.tier(5, 6) {
                    words(ops.len(), n, &mut |w| {
                        let h: Vec<WOp> = w.iter().map(|i| ops[*i].clone()).collect();
                        cx.case(
                            || format!("layout {alt}, output mode {mode}, history {h:?}"),
                            |o| {
                                o.state(&(alt, mode, &h));
                                let dev = Chan::new(vec![]);
                                match mode {
                                    0 => write_history(dev.handle(), &dev, &l, &h, o),
                                    1 => write_history(dev.handle().chunked(5), &dev, &l, &h, o),
                                    2 => write_history(BufWriter::with_capacity(64, dev.handle()), &dev, &l, &h, o),
                                    _ => write_history(BufWriter::with_capacity(1 << 16, dev.handle().chunked(7)), &dev, &l, &h, o),
                                }
                            },
                        );
                    });
                }
            }));
        }
    }
    // the tile does not have to be at the start of the output
    v.push(shard("embedded", |cx| {
        let l = PointLayout::from_attributes(&[COLOR_RGB, INTENSITY, POSITION_3D]);
        let ops = [WOp::Write(1), WOp::Write(2), WOp::Flush, WOp::Center(true)];
        for start in [1usize, 4, 8, 13, 16, 64, 1000] {
            for n in 0..=cx.tier(3, 5) {
                words(ops.len(), n, &mut |w| {
                    let h: Vec<WOp> = w.iter().map(|i| ops[*i].clone()).collect();
                    cx.case(
                        || format!("output that starts at byte {start}, history {h:?}"),
                        |o| {
                            o.state(&(start, &h));
                            let dev = Chan::new(vec![0x5A; start]);
                            let mut out = dev.handle();
                            out.seek(SeekFrom::End(0)).map_err(|e| e.to_string())?;
                            let mut w = PntsWriter::from_write_and_layout(out, l.clone());
                            let mut model: Vec<Pt> = vec![];
                            let mut rtc = None;
                            for op in &h {
                                o.step();
                                match op {
                                    WOp::Write(n) => {
                                        let p: Vec<Pt> = (model.len()..model.len() + n).map(point).collect();
                                        w.write(&vector(&l, &p)).map_err(|e| format!("{e:?}"))?;
                                        model.extend(p);
                                    }
                                    WOp::Flush => w.flush().map_err(|e| format!("{e:?}"))?,
                                    WOp::Center(c) => {
                                        rtc = Some(CENTERS[*c as usize]);
                                        w.set_rtc_center(Vector3::from(CENTERS[*c as usize]));
                                    }
                                }
                            }
                            drop(w);
                            let b = dev.bytes();
                            ensure!(b[..start].iter().all(|b| *b == 0x5A), "bytes in front of the tile were changed");
                            file_ok(&b[start..], &l, &model, rtc)
                        },
                    );
                });
            }
        }
    }));
    // many points in different portions
    for (k, counts) in [vec![70_000], vec![65_535, 2], vec![1000, 24, 1, 1100, 3], vec![255, 1, 256, 4000], vec![1; 300]].into_iter().enumerate() {
        v.push(shard(format!("large-{k}"), move |cx| {
            for alt in 0..2 {
                cx.case(
                    || format!("layout {alt}, {} writes, the first ones of {:?} points", counts.len(), &counts[..counts.len().min(5)]),
                    |o| {
                        o.state(&(&counts, alt));
                        let dev = Chan::new(vec![]);
                        let l = if alt == 0 { PointLayout::from_attributes(&[POSITION_3D.with_custom_datatype(D::Vec3f32)]) } else { PointLayout::from_attributes(&[INTENSITY, POSITION_3D]) };
                        let mut w = PntsWriter::from_write_and_layout(BufWriter::new(dev.handle()), l.clone());
                        let mut model: Vec<Pt> = vec![];
                        for n in &counts {
                            o.step();
                            let p: Vec<Pt> = (model.len()..model.len() + n).map(point).collect();
                            w.write(&vector(&l, &p)).map_err(|e| format!("{e:?}"))?;
                            model.extend(p);
                        }
                        w.flush().map_err(|e| format!("{e:?}"))?;
                        file_ok(&dev.bytes(), &l, &model, None)
                    },
                );
            }
        }));
    }
    v.push(shard("refused", |cx| {
        // attributes whose type cannot be converted into the type of the semantic must not end up in the file
        for (a, types) in [
            (POSITION_3D, vec![D::F64, D::U8, D::Vec4u8, D::ByteArray(12)]),
            (COLOR_RGB, vec![D::U8, D::Vec4u8, D::ByteArray(3), D::U32]),
            (COLOR_RGBA, vec![D::Vec3u8, D::U32, D::ByteArray(4), D::Vec3u16]),
            (NORMAL, vec![D::F32, D::Vec4u8, D::ByteArray(12)]),
        ] {
            for d in types {
                for kind in KINDS {
                    cx.case(
                        || format!("{} stored as {d}, {kind:?}", a.name()),
                        |o| {
                            o.step();
                            o.state(&(a.name(), d, kind));
                            let l = PointLayout::from_attributes(&[a.with_custom_datatype(d), INTENSITY]);
                            let dev = Chan::new(vec![]);
                            let x = guard(|| {
                                let mut w = PntsWriter::from_write_and_layout(dev.handle(), l.clone());
                                let p = [Pt::new(), Pt::new()];
                                with_buf!(kind, &l, &p, b, w.write(b))
                            });
                            ensure!(!matches!(x, Ok(Ok(()))), "writing must be refused");
                            Ok(())
                        },
                    );
                }
            }
        }
        // another layout than the one of the writer
        for kind in KINDS {
            for defs in [vec![POSITION_3D, INTENSITY], vec![COLOR_RGB], vec![POSITION_3D.with_custom_datatype(D::Vec3f32)]] {
                cx.case(
                    || format!("{kind:?} with another layout {defs:?}"),
                    |o| {
                        o.step();
                        let l = PointLayout::from_attributes(&defs);
                        let x = guard(|| {
                            let mut w = PntsWriter::from_write_and_layout(Chan::new(vec![]), PointLayout::from_attributes(&[POSITION_3D]));
                            let p = [Pt::new()];
                            with_buf!(kind, &l, &p, b, w.write(b))
                        });
                        ensure!(!matches!(x, Ok(Ok(()))), "writing must be refused");
                        Ok(())
                    },
                );
            }
        }
    }));
    v.push(shard("faults", |cx| {
        // every operation of the output fails: the file is complete or the failure is reported
        let l = PointLayout::from_attributes(&[POSITION_3D, COLOR_RGB, NORMAL, CLASSIFICATION]);
        let run = |dev: &Chan, mode: usize| -> R<bool> {
            fn go<W: Write + Seek>(w: W, l: &PointLayout) -> bool {
                let mut w = PntsWriter::from_write_and_layout(w, l.clone());
                let p: Vec<Pt> = (0..3).map(point).collect();
                let mut ok = w.write(&vector(l, &p)).is_ok() && w.flush().is_ok();
                ok &= w.write(&hashmap(l, &p)).is_ok() && w.flush().is_ok();
                ok &= guard(|| drop(w)).is_ok();
                ok
            }
            let d = dev.handle();
            guard(|| match mode {
                0 => go(d, &l),
                1 => go(d.chunked(16), &l),
                _ => go(BufWriter::with_capacity(32, d), &l),
            })
        };
        let p: Vec<Pt> = (0..3).chain(0..3).map(point).collect();
        for mode in 0..3 {
            let probe = Chan::new(vec![]);
            let _ = run(&probe, mode);
            let total = probe.ops();
            let size = probe.bytes().len();
            for k in 0..=total {
                for once in [false, true] {
                    for kind in [ErrorKind::Other, ErrorKind::Interrupted, ErrorKind::WriteZero] {
                        cx.case(
                            || format!("output mode {mode}: operation {k} of {total} fails with {kind:?} (once: {once})"),
                            |o| {
                                o.step();
                                o.state(&(mode, k, once, kind));
                                let once = once || kind == ErrorKind::Interrupted;
                                let dev = Chan::new(vec![]).failing(k, once, kind);
                                if run(&dev, mode)? {
                                    // everything was reported as done
                                    file_ok(&dev.bytes(), &l, &p, None)
                                } else {
                                    ensure!(dev.failures() > 0, "an error without a fault");
                                    Ok(())
                                }
                            },
                        );
                    }
                }
            }
            for capacity in 0..size {
                cx.case(
                    || format!("output mode {mode}: the device is full after {capacity} bytes"),
                    |o| {
                        o.step();
                        o.state(&(mode, capacity));
                        let dev = Chan::new(vec![]);
                        dev.s.lock().unwrap().capacity = capacity;
                        ensure!(!run(&dev, mode)?, "nothing reports that the device is full");
                        Ok(())
                    },
                );
            }
        }
    }));
    v
}

// ------------------------------------------------------------------------------------------ C34

struct FileSpec {
    /// Semantics in the order of their data
    order: Vec<usize>,
    /// Bytes between the data of two semantics
    gap: usize,
    rtc: Option<[f64; 3]>,
    extra: bool,
    batch: bool,
}
fn build(s: &FileSpec, p: &[Pt]) -> Vec<u8> {
    let sem = semantics();
    let mut body = vec![];
    let mut ft = Map::new();
    for i in &s.order {
        let (a, key, d, _) = &sem[*i];
        while body.len() % 8 != 0 {
            body.push(0xAB);
        }
        body.extend(std::iter::repeat(0xCD).take(s.gap));
        ft.insert(key.to_string(), json!({ "byteOffset": body.len() }));
        for p in p {
            body.extend(encode(*d, &p[a.name()]));
        }
    }
    while body.len() % 8 != 0 {
        body.push(0xAB);
    }
    ft.insert("POINTS_LENGTH".into(), json!(p.len()));
    if let Some(c) = s.rtc {
        ft.insert("RTC_CENTER".into(), json!(c));
    }
    if s.extra {
        ft.insert("BATCH_LENGTH".into(), json!(3));
        ft.insert("CONSTANT_RGBA".into(), json!([1, 2, 3, 255]));
        ft.insert("QUANTIZED_VOLUME_OFFSET".into(), json!([1.5, -2.0, 3.0]));
        ft.insert("QUANTIZED_VOLUME_SCALE".into(), json!([0.5, 0.25, 2.0]));
    }
    let pad = |mut t: Vec<u8>, at: usize| {
        while (t.len() + at) % 8 != 0 {
            t.push(b' ');
        }
        t
    };
    let ft = pad(serde_json::to_vec(&Value::Object(ft)).unwrap(), 28);
    let bt = if s.batch { pad(br#"{"id":[1,2,3]}"#.to_vec(), 28 + ft.len() + body.len()) } else { vec![] };
    let mut f = b"pnts".to_vec();
    for n in [1, 28 + ft.len() + body.len() + bt.len(), ft.len(), body.len(), bt.len(), 0] {
        f.extend((n as u32).to_le_bytes());
    }
    f.extend(ft);
    f.extend(body);
    f.extend(bt);
    f
}
fn with_center(p: &Pt, rtc: Option<[f64; 3]>, absolute: bool) -> Pt {
    let mut p = p.clone();
    if let (Some(c), true) = (rtc, absolute) {
        for (i, v) in p.get_mut(POSITION_3D.name()).unwrap().iter_mut().enumerate() {
            *v += c[i];
        }
    }
    p
}
#[derive(Clone, Debug, Hash)]
enum ROp {
    Read(usize),
    Into(usize, usize),
    Seek(u8, i64),
    Index,
    Count,
    Mode(bool),
}
/// The target layouts of `read_into`
fn target(i: usize) -> PointLayout {
    match i {
        0 => PointLayout::from_attributes(&[NORMAL, COLOR_RGBA, POSITION_3D, COLOR_RGB]),
        1 => PointLayout::from_attributes_packed(&[COLOR_RGB.with_custom_datatype(D::Vec3u8), POSITION_3D.with_custom_datatype(D::Vec3f32)], 1),
        _ => PointLayout::from_attributes(&[INTENSITY, NORMAL.with_custom_datatype(D::Vec3f64), POSITION_3D]),
    }
}
/// `n` points with values that no file contains
fn old(l: &PointLayout, n: usize) -> Vec<Pt> {
    let p: Pt = defs(l).iter().map(|a| (a.name().to_string(), vec![77.0; parts(a.datatype()).1])).collect();
    vec![p; n]
}
fn check_points<'a, B: BorrowedBuffer<'a>>(b: &B, from: usize, n: usize, s: &FileSpec, p: &[Pt], absolute: bool) -> R {
    for i in 0..b.len() {
        for a in defs(b.point_layout()) {
            let got = take(b, i, &a);
            let want = if i >= n {
                vec![77.0; got.len()]
            } else if s.order.iter().any(|k| semantics()[*k].0.name() == a.name()) {
                cast(a.datatype(), &with_center(&p[from + i], s.rtc, absolute)[a.name()])
            } else {
                continue;
            };
            ensure!(same(&got, &want), "buffer point {i} (point {} of the file): {} is {got:?}, expected {want:?}", from + i, a.name());
        }
    }
    Ok(())
}
fn read_history<R2: std::io::BufRead + Seek>(r: R2, s: &FileSpec, p: &[Pt], h: &[ROp], o: &mut Obs) -> R {
    let mut r = PntsReader::from_read(r).map_err(|e| format!("open: {e:?}"))?;
    let e = |e: anyhow::Error| format!("{e:?}");
    {
        let l = r.get_default_point_layout();
        ensure_eq!(l.attributes().count(), s.order.len(), "number of attributes of the default layout");
        for k in &s.order {
            let (a, _, d, _) = &semantics()[*k];
            ensure!(l.has_attribute(&a.with_custom_datatype(*d)), "the default layout lacks {}", a.name());
        }
    }
    ensure_eq!(r.get_metadata().number_of_points(), Some(p.len()), "number of points in the metadata");
    let n = p.len();
    let mut cur = 0usize;
    let mut absolute = true;
    for op in h {
        o.step();
        match op {
            ROp::Read(k) => {
                let b = r.read::<VectorBuffer>(*k).map_err(e)?;
                let want = (*k).min(n - cur);
                ensure_eq!(b.len(), want, "points read by {op:?} at {cur}");
                check_points(&b, cur, want, s, p, absolute)?;
                cur += want;
            }
            ROp::Into(k, t) => {
                let l = target(*t);
                let want = (*k).min(n - cur);
                // one more point than needed, it stays as it is
                if *t % 2 == 0 {
                    let mut b = vector(&l, &old(&l, *k + 1));
                    let got = r.read_into(&mut b, *k).map_err(e)?;
                    ensure_eq!(got, want, "points read by {op:?} at {cur}");
                    check_points(&b, cur, want, s, p, absolute)?;
                } else {
                    let mut b = hashmap(&l, &old(&l, *k + 1));
                    let got = r.read_into(&mut b, *k).map_err(e)?;
                    ensure_eq!(got, want, "points read by {op:?} at {cur}");
                    check_points(&b, cur, want, s, p, absolute)?;
                }
                cur += want;
            }
            ROp::Seek(from, d) => {
                let (pos, t) = match from {
                    0 => (SeekFrom::Start(*d as u64), *d),
                    1 => (SeekFrom::Current(*d), cur as i64 + d),
                    _ => (SeekFrom::End(*d), n as i64 + d),
                };
                let x = r.seek_point(pos);
                if t < 0 {
                    ensure!(x.is_err(), "{op:?} at {cur} must be an error");
                } else {
                    cur = (t as usize).min(n);
                    ensure_eq!(x.map_err(e)?, cur, "{op:?}");
                }
            }
            ROp::Index => ensure_eq!(r.point_index().map_err(e)?, cur, "point_index"),
            ROp::Count => {
                ensure_eq!(r.point_count().map_err(e)?, n, "point_count");
                ensure_eq!(r.point_index().map_err(e)?, cur, "point_index after point_count");
            }
            ROp::Mode(a) => {
                absolute = *a;
                r.set_read_positions_mode(if *a { PntsReadPositionsMode::Absolute } else { PntsReadPositionsMode::RelativeToCenter });
            }
        }
    }
    Ok(())
}

pub fn c34(_: bool) -> Vec<Shard> {
    let mut v = vec![];
    v.push(shard("files", |cx| {
        arrangements(4, 4, &mut |w| {
            for gap in [0, 8, 24] {
                for flags in 0..8u32 {
                    for n in [0usize, 1, 3] {
                        let s = FileSpec { order: w.to_vec(), gap, rtc: (flags & 1 != 0).then_some(CENTERS[0]), extra: flags & 2 != 0, batch: flags & 4 != 0 };
                        if w.is_empty() && n > 0 {
                            continue;
                        }
                        for mode in 0..3 {
                            cx.case(
                                || format!("semantics {w:?}, gap {gap}, flags {flags}, {n} points, input mode {mode}"),
                                |o| {
                                    o.state(&(w, gap, flags, n));
                                    let p: Vec<Pt> = (0..n).map(point).collect();
                                    let f = build(&s, &p);
                                    let mut h = vec![];
                                    if !w.is_empty() {
                                        h.push(ROp::Read(n));
                                    }
                                    for t in 0..3 {
                                        h.extend([ROp::Seek(0, 0), ROp::Into(n, t), ROp::Mode(false), ROp::Seek(0, 0), ROp::Into(n, t), ROp::Mode(true)]);
                                    }
                                    match mode {
                                        0 => read_history(Cursor::new(f), &s, &p, &h, o),
                                        1 => read_history(BufReader::with_capacity(7, Chan::new(f).chunked(5)), &s, &p, &h, o),
                                        _ => read_history(BufReader::new(Chan::new(f)), &s, &p, &h, o),
                                    }
                                },
                            );
                        }
                    }
                }
            }
        });
    }));
    for total in 0..4usize {
        v.push(shard(format!("history-{total}"), move |cx| {
            let t = total as i64;
            let mut ops = vec![ROp::Read(0), ROp::Read(1), ROp::Read(2), ROp::Read(total + 2), ROp::Into(1, 0), ROp::Into(2, 1), ROp::Into(3, 2), ROp::Index, ROp::Count, ROp::Mode(false), ROp::Mode(true)];
            for (from, ds) in [(0, vec![0, 1, t, t + 3]), (1, vec![0, 1, -1, 5, -5]), (2, vec![0, -1, -t, -t - 1, 2])] {
                ops.extend(ds.into_iter().map(|d| ROp::Seek(from, d)));
            }
            let s = FileSpec { order: vec![2, 0, 3], gap: 8, rtc: Some(CENTERS[0]), extra: true, batch: true };
            let p: Vec<Pt> = (0..total).map(point).collect();
            let f = build(&s, &p);
            for n in 1..=cx.tier(3, 4) {
                words(ops.len(), n, &mut |w| {
                    let h: Vec<ROp> = w.iter().map(|i| ops[*i].clone()).collect();
                    cx.case(
                        || format!("{total} points, history {h:?}"),
                        |o| {
                            o.state(&h);
                            read_history(Cursor::new(&f[..]), &s, &p, &h, o)
                        },
                    );
                });
            }
            // no points without attributes are made up
            let s = FileSpec { order: vec![0], gap: 0, rtc: None, extra: false, batch: false };
            for extreme in [SeekFrom::Start(u64::MAX), SeekFrom::End(i64::MAX), SeekFrom::Current(i64::MAX), SeekFrom::End(i64::MIN), SeekFrom::Current(i64::MIN)] {
                cx.case(
                    || format!("{total} points, seek {extreme:?}"),
                    |o| {
                        o.step();
                        let mut r = PntsReader::from_read(Cursor::new(build(&s, &p))).map_err(|e| e.to_string())?;
                        let _ = r.seek_point(SeekFrom::Start(1)).map_err(|e| e.to_string())?;
                        match r.seek_point(extreme) {
                            Ok(i) => ensure_eq!(i, total, "position"),
                            Err(_) => ensure!(matches!(extreme, SeekFrom::End(_) | SeekFrom::Current(_)), "an error"),
                        }
                        Ok(())
                    },
                );
            }
        }));
    }
    // many points in different portions
    v.push(shard("large", |cx| {
        let total = 70_000;
        let s = FileSpec { order: vec![2, 0], gap: 8, rtc: Some(CENTERS[0]), extra: false, batch: false };
        let p: Vec<Pt> = (0..total)
            .map(|k| {
                let mut p = point(k % 80);
                p.insert(POSITION_3D.name().into(), vec![k as f64, 1e6 - k as f64, 0.5]);
                p
            })
            .collect();
        let f = build(&s, &p);
        for h in [
            vec![ROp::Read(total)],
            vec![ROp::Read(total + 1), ROp::Read(1)],
            vec![ROp::Read(65_535), ROp::Read(1), ROp::Read(2), ROp::Into(5, 1), ROp::Index],
            vec![ROp::Into(65_536, 0), ROp::Into(3, 2), ROp::Into(10_000, 1)],
            vec![ROp::Seek(0, 65_537), ROp::Read(3), ROp::Seek(1, -65_538), ROp::Read(2), ROp::Seek(2, -1), ROp::Into(4, 0)],
            vec![ROp::Seek(0, 255), ROp::Read(2), ROp::Read(300), ROp::Seek(1, 65_000), ROp::Read(700), ROp::Count],
        ] {
            cx.case(
                || format!("{total} points, history {h:?}"),
                |o| {
                    o.state(&h);
                    read_history(Cursor::new(&f[..]), &s, &p, &h, o)
                },
            );
        }
    }));
    // centers and positions that need double precision
    v.push(shard("precise centers", |cx| {
        for center in [[16777217.0, -16777219.0, 0.1], [4194304.3, 5e15 + 1.0, -1e-9], [652341.123456789, 5412345.987654321, -123.000001]] {
            for pos in [[-16777216.0, 16777216.0, -0.125], [0.5, -0.25, 1.0], [1024.0, 2.0, 3.0]] {
                for t in 0..3usize {
                    cx.case(
                        || format!("center {center:?}, position {pos:?}, target {t}"),
                        |o| {
                            o.state(&(center.map(f64::to_bits), pos.map(f64::to_bits), t));
                            let s = FileSpec { order: vec![0], gap: 0, rtc: Some(center), extra: false, batch: false };
                            let p: Vec<Pt> = (0..2)
                                .map(|k| {
                                    let mut p = point(k);
                                    p.insert(POSITION_3D.name().into(), pos.to_vec());
                                    p
                                })
                                .collect();
                            let f = build(&s, &p);
                            read_history(Cursor::new(&f[..]), &s, &p, &[ROp::Into(2, t), ROp::Seek(0, 0), ROp::Read(1), ROp::Mode(false), ROp::Into(1, t)], o)
                        },
                    );
                }
            }
        }
    }));
    v.push(shard("targets", |cx| {
        let all = [D::U8, D::I16, D::U32, D::F32, D::F64, D::Vec3u8, D::Vec3u16, D::Vec3i32, D::Vec3f32, D::Vec3f64, D::Vec4u8, D::ByteArray(3), D::ByteArray(4), D::ByteArray(12)];
        for (k, (a, _, d, _)) in semantics().into_iter().enumerate() {
            for t in all {
                for with_rtc in [false, true] {
                    cx.case(
                        || format!("{} into {t}, RTC_CENTER: {with_rtc}", a.name()),
                        |o| {
                            o.step();
                            o.state(&(k, t, with_rtc));
                            let s = FileSpec { order: vec![0, 1, 2, 3], gap: 0, rtc: with_rtc.then_some([2.0, 4.0, 8.0]), extra: false, batch: false };
                            let p: Vec<Pt> = (1..4)
                                .map(|k| {
                                    let mut p = point(k);
                                    p.insert(POSITION_3D.name().into(), vec![k as f64, 2.0, 3.0]);
                                    p.insert(NORMAL.name().into(), vec![k as f64, 0.0, 1.0]);
                                    p
                                })
                                .collect();
                            let l = PointLayout::from_attributes(&[INTENSITY, a.with_custom_datatype(t)]);
                            let mut r = PntsReader::from_read(Cursor::new(build(&s, &p))).map_err(|e| e.to_string())?;
                            let mut b = vector(&l, &old(&l, 4));
                            let x = guard(|| r.read_into(&mut b, 3));
                            let possible = t == d || (parts(d).1 == 3 && parts(t).1 == 3 && !matches!(t, D::ByteArray(_)));
                            let center = with_rtc && k == 0;
                            match (possible, x) {
                                (true, Ok(Ok(n))) => {
                                    ensure_eq!(n, 3, "points");
                                    check_points(&b, 0, 3, &s, &p, true)
                                }
                                // the offset needs a type of positions
                                (true, Ok(Err(_))) if center && !matches!(t, D::Vec3f32 | D::Vec3f64) => Ok(()),
                                (true, x) => Err(format!("reading fails: {x:?}")),
                                (false, Ok(Ok(_))) => Err("reading into a type without a conversion must be refused".into()),
                                (false, _) => Ok(()),
                            }
                        },
                    );
                }
            }
        }
    }));
    v.push(shard("broken", |cx| {
        // damaged files: an error or points, never a panic, and never points that are not there
        let s = FileSpec { order: vec![0, 2], gap: 0, rtc: Some(CENTERS[0]), extra: true, batch: false };
        let p: Vec<Pt> = (0..3).map(point).collect();
        let f = build(&s, &p);
        for cut in 0..f.len() {
            cx.case(
                || format!("file cut at {cut} of {}", f.len()),
                |o| {
                    o.step();
                    o.state(&cut);
                    let mut r = match PntsReader::from_read(Cursor::new(&f[..cut])) {
                        Err(_) => return Ok(()),
                        Ok(r) => r,
                    };
                    match r.read::<VectorBuffer>(3) {
                        Err(_) => Ok(()),
                        // the padding at the end is not needed
                        Ok(b) => {
                            ensure_eq!(b.len(), 3, "points");
                            check_points(&b, 0, 3, &s, &p, true)
                        }
                    }
                },
            );
        }
        for at in 0..28 {
            for bit in 0..8 {
                cx.case(
                    || format!("bit {bit} of header byte {at} flipped"),
                    |o| {
                        o.step();
                        o.state(&(at, bit));
                        let mut f = f.clone();
                        f[at] ^= 1 << bit;
                        // lengths of gigabytes are not part of the space
                        if (12..16).contains(&at) && at >= 15 {
                            return Ok(());
                        }
                        match PntsReader::from_read(Cursor::new(&f[..])) {
                            Err(_) => Ok(()),
                            Ok(_) if at < 4 => Err("wrong magic bytes are accepted".into()),
                            Ok(mut r) => {
                                let _ = r.read::<VectorBuffer>(3);
                                Ok(())
                            }
                        }
                    },
                );
            }
        }
        // feature tables that are not what the specification asks for
        for (what, ft) in [
            ("no POINTS_LENGTH", json!({"POSITION": {"byteOffset": 0}})),
            ("POINTS_LENGTH is text", json!({"POSITION": {"byteOffset": 0}, "POINTS_LENGTH": "3"})),
            ("POINTS_LENGTH is negative", json!({"POSITION": {"byteOffset": 0}, "POINTS_LENGTH": -3})),
            ("POINTS_LENGTH is an array", json!({"POSITION": {"byteOffset": 0}, "POINTS_LENGTH": [3]})),
            ("RTC_CENTER has two values", json!({"POSITION": {"byteOffset": 0}, "POINTS_LENGTH": 1, "RTC_CENTER": [1, 2]})),
            ("RTC_CENTER has four values", json!({"POSITION": {"byteOffset": 0}, "POINTS_LENGTH": 1, "RTC_CENTER": [1, 2, 3, 4]})),
            ("RTC_CENTER has text", json!({"POSITION": {"byteOffset": 0}, "POINTS_LENGTH": 1, "RTC_CENTER": [1, 2, "3"]})),
            ("RTC_CENTER is a number", json!({"POSITION": {"byteOffset": 0}, "POINTS_LENGTH": 1, "RTC_CENTER": 1})),
            ("POSITION is a number", json!({"POSITION": 0, "POINTS_LENGTH": 1})),
            ("RGB is an array", json!({"RGB": [1, 2, 3], "POINTS_LENGTH": 1})),
            ("RGBA is an object without an offset", json!({"RGBA": {"offset": 0}, "POINTS_LENGTH": 1})),
            ("NORMAL has a negative offset", json!({"NORMAL": {"byteOffset": -8}, "POINTS_LENGTH": 1})),
            ("CONSTANT_RGBA has three values", json!({"POSITION": {"byteOffset": 0}, "POINTS_LENGTH": 1, "CONSTANT_RGBA": [1, 2, 3]})),
            ("CONSTANT_RGBA has five values", json!({"POSITION": {"byteOffset": 0}, "POINTS_LENGTH": 1, "CONSTANT_RGBA": [1, 2, 3, 4, 5]})),
            ("CONSTANT_RGBA is out of range", json!({"POSITION": {"byteOffset": 0}, "POINTS_LENGTH": 1, "CONSTANT_RGBA": [1, 2, 3, 256]})),
            ("BATCH_LENGTH is text", json!({"POSITION": {"byteOffset": 0}, "POINTS_LENGTH": 1, "BATCH_LENGTH": "x"})),
            ("an array", json!([1, 2, 3])),
            ("a number", json!(17)),
        ] {
            cx.case(
                || format!("feature table: {what}"),
                |o| {
                    o.step();
                    o.state(what);
                    let mut t = serde_json::to_vec(&ft).unwrap();
                    while (28 + t.len()) % 8 != 0 {
                        t.push(b' ');
                    }
                    let mut f = b"pnts".to_vec();
                    for n in [1, 28 + t.len() + 16, t.len(), 16, 0, 0] {
                        f.extend((n as u32).to_le_bytes());
                    }
                    f.extend(t);
                    f.extend([0; 16]);
                    ensure!(PntsReader::from_read(Cursor::new(f)).is_err(), "must be refused");
                    Ok(())
                },
            );
        }
    }));
    v.push(shard("roundtrip", |cx| {
        // what the writer writes is what the reader reads
        arrangements(4, 4, &mut |w| {
            if w.is_empty() {
                return;
            }
            for alt in 0..3 {
                for counts in [&[][..], &[1], &[4], &[2, 0, 3], &[7]] {
                    for rtc in [None, Some(CENTERS[0])] {
                        cx.case(
                            || format!("attributes {w:?}, types {alt}, counts {counts:?}, center {rtc:?}"),
                            |o| {
                                o.step();
                                o.state(&(w, alt, counts, rtc.is_some()));
                                let defs: Vec<_> = w.iter().map(|i| stored(*i, alt)).collect();
                                let l = PointLayout::from_attributes(&defs);
                                let dev = Chan::new(vec![]);
                                let mut k = 0;
                                {
                                    let mut wr = PntsWriter::from_write_and_layout(dev.handle(), l.clone());
                                    if let Some(c) = rtc {
                                        wr.set_rtc_center(Vector3::from(c));
                                    }
                                    for n in counts {
                                        let p: Vec<Pt> = (k..k + n).map(point).collect();
                                        wr.write(&vector(&l, &p)).map_err(|e| e.to_string())?;
                                        k += n;
                                    }
                                }
                                let p: Vec<Pt> = (0..k).map(point).collect();
                                // order of `stored` → order of `semantics`
                                let s = FileSpec { order: w.iter().map(|i| [0, 2, 1, 3][*i]).collect(), gap: 0, rtc, extra: false, batch: false };
                                read_history(BufReader::new(dev.handle()), &s, &p, &[ROp::Read(k + 1), ROp::Seek(0, 0), ROp::Into(2, 0), ROp::Into(k, 1)], o)
                            },
                        );
                    }
                }
            }
        });
    }));
    v.push(shard("metadata", |cx| {
        for flags in 0..32u32 {
            cx.case(
                || format!("global semantics {flags:05b}"),
                |o| {
                    o.step();
                    o.state(&flags);
                    let m = PntsMetadata::new(
                        flags as usize,
                        (flags & 1 != 0).then_some(Vector3::new(1.0, 2.0, 3.0)),
                        (flags & 2 != 0).then_some(Vector3::new(4.0, 5.0, 6.0)),
                        (flags & 4 != 0).then_some(Vector3::new(7.0, 8.0, 9.0)),
                        (flags & 8 != 0).then_some(Vector4::new(1, 2, 3, 4)),
                        (flags & 16 != 0).then_some(12),
                    );
                    let m = pasture_core::meta::Metadata::clone_into_box(&m);
                    ensure_eq!(m.number_of_points(), Some(flags as usize), "number of points");
                    let v3 = |k: &str| m.get_named_field(k).map(|b| *b.downcast::<Vector3<f32>>().unwrap());
                    ensure_eq!(m.get_named_field("RTC_CENTER").map(|b| *b.downcast::<Vector3<f64>>().unwrap()), (flags & 1 != 0).then_some(Vector3::new(1.0, 2.0, 3.0)), "RTC_CENTER");
                    ensure_eq!(v3("QUANTIZED_VOLUME_OFFSET"), (flags & 2 != 0).then_some(Vector3::new(4.0, 5.0, 6.0)), "QUANTIZED_VOLUME_OFFSET");
                    ensure_eq!(v3("QUANTIZED_VOLUME_SCALE"), (flags & 4 != 0).then_some(Vector3::new(7.0, 8.0, 9.0)), "QUANTIZED_VOLUME_SCALE");
                    ensure_eq!(m.get_named_field("CONSTANT_RGBA").map(|b| *b.downcast::<Vector4<u8>>().unwrap()), (flags & 8 != 0).then_some(Vector4::new(1u8, 2, 3, 4)), "CONSTANT_RGBA");
                    ensure!(m.get_named_field("POINTS").is_none(), "an unknown field");
                    Ok(())
                },
            );
        }
    }));
    v
}

// ------------------------------------------------------------------------------------------ C35

/// A text that moves in steps of one byte through the alignments
fn key(n: usize) -> String {
    "k".repeat(n)
}
fn json_values() -> Vec<Value> {
    vec![
        json!(null),
        json!(true),
        json!(17),
        json!(-3),
        json!(u64::MAX),
        json!(0.5),
        json!("text"),
        json!("ä→ \"\\\n"),
        json!({}),
        json!({"a": {"b": [1]}}),
        json!([]),
        json!([1, 2, 3]),
        json!([[1], "x", null]),
    ]
}
pub fn c35(_: bool) -> Vec<Shard> {
    let mut v = vec![];
    for at in 0..8usize {
        v.push(shard(format!("feature-{at}"), move |cx| {
            let mut entries: Vec<FeatureTableValue> = json_values()
                .into_iter()
                .map(|v| match v {
                    Value::Array(a) => FeatureTableValue::Array(a),
                    v => FeatureTableValue::SingleValue(v),
                })
                .collect();
            for o in [0, 8, usize::MAX] {
                for t in [None, Some("FLOAT".to_string()), Some("".into())] {
                    entries.push(FeatureTableValue::DataReference(FeatureTableDataReference { byte_offset: o, component_type: t }));
                }
            }
            for n in 0..=cx.tier(2, 3) {
                words(entries.len(), n, &mut |w| {
                    for len in 1..=8 {
                        if n == 0 && len > 1 {
                            continue;
                        }
                        for chunk in [usize::MAX, 1, 3] {
                            cx.case(
                                || format!("feature table at {at}, entries {w:?}, keys of {len} bytes and more, {chunk} bytes per write"),
                                |o| {
                                    o.step();
                                    o.state(&(w, len));
                                    let h: FeatureTableHeader = w.iter().enumerate().map(|(i, k)| (format!("{i}{}", key(len + i)), entries[*k].clone())).collect();
                                    let dev = Chan::new(vec![0x55; at]).chunked(chunk);
                                    let mut out = dev.handle();
                                    out.pos = at as u64;
                                    ser_feature_table_header(&mut out, &h, at).map_err(|e| e.to_string())?;
                                    let b = dev.bytes();
                                    let size = b.len() - at;
                                    ensure!(b.len() % 8 == 0, "the table ends at {}", b.len());
                                    let j: Value = serde_json::from_slice(&b[at..]).map_err(|e| e.to_string())?;
                                    ensure_eq!(j.as_object().ok_or("no object")?.len(), h.len(), "entries in the JSON");
                                    let used = serde_json::to_vec(&j).unwrap().len();
                                    ensure!(size - used < 8 && b[at + used..].iter().all(|b| *b == b' '), "padding {:?}", &b[at + used..]);
                                    let mut r = Cursor::new([b.clone(), vec![1, 2, 3]].concat());
                                    r.set_position(at as u64);
                                    let again = deser_feature_table_header(&mut r, size, at).map_err(|e| e.to_string())?;
                                    ensure_eq!(again, h, "the table after reading it");
                                    ensure_eq!(r.position() as usize, b.len(), "position of the reader");
                                    // one byte less than the file has
                                    let mut r = Cursor::new(&b[at..b.len() - 1]);
                                    ensure!(deser_feature_table_header(&mut r, size, at).is_err(), "a table that is cut must be refused");
                                    Ok(())
                                },
                            );
                        }
                    }
                });
            }
        }));
        v.push(shard(format!("batch-{at}"), move |cx| {
            let mut entries: Vec<BatchTableEntry> = json_values()
                .into_iter()
                .filter_map(|v| match v {
                    Value::Array(a) => Some(BatchTableEntry::ArrayData(a)),
                    v => Some(BatchTableEntry::ArrayData(vec![v])),
                })
                .collect();
            for o in [0, 8, usize::MAX] {
                for (t, s) in [("FLOAT", "SCALAR"), ("UNSIGNED_BYTE", "VEC3"), ("", "")] {
                    entries.push(BatchTableEntry::DataReference(BatchTableDataReference { byte_offset: o, component_type: t.into(), scalar_or_vector_type: s.into() }));
                }
            }
            for n in 0..=cx.tier(2, 3) {
                words(entries.len(), n, &mut |w| {
                    for len in 1..=8 {
                        if n == 0 && len > 1 {
                            continue;
                        }
                        for chunk in [usize::MAX, 1, 3] {
                            cx.case(
                                || format!("batch table at {at}, entries {w:?}, keys of {len} bytes and more, {chunk} bytes per write"),
                                |o| {
                                    o.step();
                                    o.state(&(w, len));
                                    let h: BatchTableHeader = w.iter().enumerate().map(|(i, k)| (format!("{i}{}", key(len + i)), entries[*k].clone())).collect();
                                    let dev = Chan::new(vec![0x55; at]).chunked(chunk);
                                    let mut out = dev.handle();
                                    out.pos = at as u64;
                                    ser_batch_table_header(&mut out, &h, at).map_err(|e| e.to_string())?;
                                    let b = dev.bytes();
                                    let size = b.len() - at;
                                    ensure!(b.len() % 8 == 0, "the table ends at {}", b.len());
                                    let j: Value = serde_json::from_slice(&b[at..]).map_err(|e| e.to_string())?;
                                    ensure_eq!(j.as_object().ok_or("no object")?.len(), h.len(), "entries in the JSON");
                                    let used = serde_json::to_vec(&j).unwrap().len();
                                    ensure!(size - used < 8 && b[at + used..].iter().all(|b| *b == b' '), "padding {:?}", &b[at + used..]);
                                    // with the padding as part of the header and without
                                    for size in used..=size {
                                        let mut r = Cursor::new([b.clone(), vec![1, 2, 3]].concat());
                                        r.set_position(at as u64);
                                        let again = deser_batch_table_header(&mut r, size, at).map_err(|e| e.to_string())?;
                                        ensure_eq!(again, h, "the table after reading it");
                                        ensure_eq!(r.position() as usize, b.len(), "position of the reader");
                                    }
                                    Ok(())
                                },
                            );
                        }
                    }
                });
            }
            for bad in json_values().into_iter().filter(|v| !v.is_array()).chain([json!({"byteOffset": 0}), json!({"byteOffset": 0, "componentType": "FLOAT"})]) {
                cx.case(
                    || format!("batch table entry {bad}"),
                    |o| {
                        o.step();
                        let t = serde_json::to_vec(&json!({ "a": bad })).unwrap();
                        let mut r = Cursor::new([t.clone(), vec![b' '; 8]].concat());
                        ensure!(deser_batch_table_header(&mut r, t.len(), at).is_err(), "must be refused");
                        ensure!(BatchTableEntry::try_from(bad.clone()).is_err() && BatchTableEntry::try_from(&bad).is_err(), "must be refused");
                        Ok(())
                    },
                );
            }
        }));
    }
    v.push(shard("faults", |cx| {
        let h: FeatureTableHeader = [("POINTS_LENGTH".to_string(), FeatureTableValue::SingleValue(json!(3)))].into_iter().collect();
        let g: BatchTableHeader = [("POINTS".to_string(), BatchTableEntry::ArrayData(vec![json!(3)]))].into_iter().collect();
        for chunk in [1usize, 4, usize::MAX] {
            for k in 0..60 {
                for kind in [ErrorKind::Other, ErrorKind::Interrupted] {
                    for table in 0..2 {
                        cx.case(
                            || format!("table {table}: write {k} of {chunk} bytes fails with {kind:?}"),
                            |o| {
                                o.step();
                                o.state(&(chunk, k, kind, table));
                                let dev = Chan::new(vec![]).chunked(chunk).failing(k, kind == ErrorKind::Interrupted, kind);
                                let x = if table == 0 { ser_feature_table_header(dev.handle(), &h, 28) } else { ser_batch_table_header(dev.handle(), &g, 28) };
                                if dev.failures() == 0 || kind == ErrorKind::Interrupted {
                                    x.map_err(|e| e.to_string())?;
                                    ensure!((28 + dev.bytes().len()) % 8 == 0, "padding");
                                    if table == 0 {
                                        ensure_eq!(deser_feature_table_header(Cursor::new(dev.bytes()), dev.bytes().len(), 28).map_err(|e| e.to_string())?, h, "table");
                                    } else {
                                        ensure_eq!(deser_batch_table_header(Cursor::new(dev.bytes()), dev.bytes().len(), 28).map_err(|e| e.to_string())?, g, "table");
                                    }
                                } else {
                                    ensure!(x.is_err(), "the failure of the output must be reported");
                                }
                                Ok(())
                            },
                        );
                    }
                }
            }
        }
    }));
    v.push(shard("conversions", |cx| {
        let refer = |o: usize, t: Option<&str>, s: Option<&str>| {
            let mut j = json!({ "byteOffset": o });
            t.map(|t| j["componentType"] = json!(t));
            s.map(|s| j["type"] = json!(s));
            j
        };
        let offsets = [0, 1, 8, u32::MAX as usize, usize::MAX];
        let mut f: Vec<(FeatureTableValue, Value)> = vec![];
        let mut b: Vec<(BatchTableEntry, Value)> = vec![];
        for v in json_values().into_iter().chain([json!({"byteoffset": 1}), json!({"componentType": "FLOAT"}), json!([{"byteOffset": 1}]), json!("byteOffset")]) {
            match v.clone() {
                Value::Array(a) => {
                    f.push((FeatureTableValue::Array(a.clone()), v.clone()));
                    b.push((BatchTableEntry::ArrayData(a), v));
                }
                w => f.push((FeatureTableValue::SingleValue(w), v)),
            }
        }
        for o in offsets {
            for t in [None, Some("FLOAT"), Some("")] {
                f.push((FeatureTableValue::DataReference(FeatureTableDataReference { byte_offset: o, component_type: t.map(|t| t.to_string()) }), refer(o, t, None)));
                if let Some(t) = t {
                    b.push((
                        BatchTableEntry::DataReference(BatchTableDataReference { byte_offset: o, component_type: t.into(), scalar_or_vector_type: "VEC3".into() }),
                        refer(o, Some(t), Some("VEC3")),
                    ));
                }
            }
        }
        for (e, j) in f {
            cx.case(
                || format!("feature table value {j}"),
                |o| {
                    o.step();
                    o.state(&j.to_string());
                    ensure_eq!(Value::from(e.clone()), j, "JSON of {e:?}");
                    ensure_eq!(Value::from(&e), j, "JSON of a borrowed {e:?}");
                    ensure_eq!(FeatureTableValue::try_from(j.clone()).map_err(|e| e.to_string())?, e, "value of {j}");
                    ensure_eq!(FeatureTableValue::try_from(&j).map_err(|e| e.to_string())?, e, "value of a borrowed {j}");
                    Ok(())
                },
            );
        }
        for (e, j) in b {
            cx.case(
                || format!("batch table entry {j}"),
                |o| {
                    o.step();
                    o.state(&j.to_string());
                    ensure_eq!(Value::from(e.clone()), j, "JSON of {e:?}");
                    ensure_eq!(Value::from(&e), j, "JSON of a borrowed {e:?}");
                    ensure_eq!(BatchTableEntry::try_from(j.clone()).map_err(|e| e.to_string())?, e, "entry of {j}");
                    ensure_eq!(BatchTableEntry::try_from(&j).map_err(|e| e.to_string())?, e, "entry of a borrowed {j}");
                    Ok(())
                },
            );
        }
        for j in [json!({"byteOffset": "1"}), json!({"byteOffset": -1}), json!({"byteOffset": 0.5}), json!({"byteOffset": null}), json!({"byteOffset": 0, "componentType": 3})] {
            cx.case(
                || format!("malformed reference {j}"),
                |o| {
                    o.step();
                    ensure!(FeatureTableValue::try_from(j.clone()).is_err() && FeatureTableValue::try_from(&j).is_err(), "a malformed reference must be refused");
                    let mut k = j.clone();
                    k["type"] = json!("SCALAR");
                    if k.get("componentType").is_none() {
                        k["componentType"] = json!("FLOAT");
                    }
                    ensure!(BatchTableEntry::try_from(k.clone()).is_err() && BatchTableEntry::try_from(&k).is_err(), "a malformed reference must be refused");
                    Ok(())
                },
            );
        }
    }));
    v
}

// ------------------------------------------------------------------------------------------ C36

fn volume(i: usize) -> Option<(BoundingVolume, Value)> {
    let f = |n: usize, base: f64| -> Vec<f64> { (0..n).map(|i| base + 0.25 * i as f64).collect() };
    match i {
        0 => None,
        1 => {
            let v = f(6, -1.5);
            Some((BoundingVolume::Region(BoundingRegion::new(v[0], v[1], v[2], v[3], v[4], v[5])), json!({ "region": v })))
        }
        2 => {
            let v = f(12, 3.0);
            let g = |k: usize| Vector3::new(v[k], v[k + 1], v[k + 2]);
            Some((BoundingVolume::Box(BoundingBox::new(g(0), g(3), g(6), g(9))), json!({ "box": v })))
        }
        3 => {
            let v = f(4, 100.0);
            Some((BoundingVolume::Sphere(BoundingSphere::new(Vector3::new(v[0], v[1], v[2]), v[3])), json!({ "sphere": v })))
        }
        _ => {
            let b = AABB::from_min_max(Point3::new(-2.0, 0.0, 8.0), Point3::new(4.0, 1.0, 8.5));
            Some((BoundingVolume::Box((&b).into()), json!({ "box": [1.0, 0.5, 8.25, 3.0, 0.0, 0.0, 0.0, 0.5, 0.0, 0.0, 0.0, 0.25] })))
        }
    }
}
/// A tileset and its JSON by the specification; the digits of `w` choose its fields
fn tileset(w: &[usize]) -> (Tileset, Value) {
    let mut b = TilesetBuilder::default();
    let mut j = Map::new();
    let err = [0.0, 16.5][w[0]];
    b = b.geometric_error(err);
    j.insert("geometricError".into(), json!(err));
    if w[1] > 0 {
        b = b.refinement([Refinement::Replace, Refinement::Add][w[1] - 1]);
        j.insert("refine".into(), json!(["REPLACE", "ADD"][w[1] - 1]));
    }
    let (bv, bj) = volume(w[2] + 1).unwrap();
    b = b.bounding_volume(bv);
    j.insert("boundingVolume".into(), bj);
    if let Some((v, vj)) = volume(w[3]) {
        b = b.viewer_request_volume(v);
        j.insert("viewerRequestVolume".into(), vj);
    }
    if w[4] > 0 {
        let v = volume(w[4] - 1);
        b = b.content("a/b \"c\".pnts".into(), v.as_ref().map(|v| v.0));
        let mut c = Map::new();
        c.insert("uri".into(), json!("a/b \"c\".pnts"));
        if let Some((_, vj)) = v {
            c.insert("boundingVolume".into(), vj);
        }
        j.insert("content".into(), Value::Object(c));
    }
    if w[5] > 0 {
        // column-major
        let v: Vec<f64> = (0..16).map(|i| i as f64 + 0.5).collect();
        b = b.transform(Matrix4::from_column_slice(&v));
        j.insert("transform".into(), json!(v));
    }
    (b.into(), Value::Object(j))
}
/// Numbers are compared as numbers
fn json_same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(a), Value::Number(b)) => a.as_f64() == b.as_f64(),
        (Value::Array(a), Value::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| json_same(a, b)),
        (Value::Object(a), Value::Object(b)) => a.len() == b.len() && a.iter().all(|(k, v)| b.get(k).is_some_and(|w| json_same(v, w))),
        (a, b) => a == b,
    }
}
const DIGITS: [usize; 6] = [2, 3, 4, 5, 6, 2];
fn each_tileset(f: &mut dyn FnMut(&[usize])) {
    let total: usize = DIGITS.iter().product();
    for mut n in 0..total {
        let w: Vec<usize> = DIGITS
            .iter()
            .map(|d| {
                let x = n % d;
                n /= d;
                x
            })
            .collect();
        f(&w);
    }
}
fn tileset_ok(t: &Tileset, j: &Value) -> R {
    let text = serde_json::to_string(t).map_err(|e| e.to_string())?;
    let got: Value = serde_json::from_str(&text).map_err(|e| e.to_string())?;
    ensure!(json_same(&got, j), "JSON {got}, expected {j}");
    let again: Tileset = serde_json::from_value(j.clone()).map_err(|e| e.to_string())?;
    ensure_eq!(again, *t, "tileset from its JSON");
    Ok(())
}
pub fn c36(_: bool) -> Vec<Shard> {
    let mut v = vec![];
    v.push(shard("tilesets", |cx| {
        each_tileset(&mut |w| {
            cx.case(
                || format!("tileset {w:?}"),
                |o| {
                    o.step();
                    o.state(w);
                    let (t, j) = tileset(w);
                    tileset_ok(&t, &j)
                },
            );
        });
    }));
    v.push(shard("trees", |cx| {
        // every tree shape with up to 5 (6) nodes, as the list of the parents
        for n in 1..=cx.tier(5usize, 7) {
            let total: usize = (1..n).product::<usize>().max(1);
            for code in 0..total {
                let mut parents = vec![];
                let mut c = code;
                for i in 1..n {
                    parents.push(c % i);
                    c /= i;
                }
                for at_once in 0..4usize {
                    cx.case(
                        || format!("parents {parents:?}, children added {}", ["one by one", "at once", "one by one from lists", "first one, then a list"][at_once]),
                        |o| {
                            o.step();
                            o.state(&(&parents, at_once));
                            fn make(i: usize, parents: &[usize], at_once: usize) -> (Tileset, Value) {
                                let w = [i % 2, i % 3, i % 4, 0, 1, 0];
                                let (t, mut j) = tileset(&w);
                                let mut b = TilesetBuilder::default().geometric_error(t.geometric_error).bounding_volume(t.bounding_volume).content(format!("{i}"), None);
                                j["content"]["uri"] = json!(format!("{i}"));
                                if let Some(r) = t.refinement {
                                    b = b.refinement(r);
                                }
                                let kids: Vec<(Tileset, Value)> = parents.iter().enumerate().filter(|(_, p)| **p == i).map(|(k, _)| make(k + 1, parents, at_once)).collect();
                                if !kids.is_empty() {
                                    j["children"] = Value::Array(kids.iter().map(|k| k.1.clone()).collect());
                                }
                                let mut kids = kids.into_iter().map(|k| k.0);
                                match at_once {
                                    0 => {
                                        for k in kids {
                                            b = b.add_child(k);
                                        }
                                    }
                                    1 => b = b.add_children(kids),
                                    2 => {
                                        for k in kids {
                                            b = b.add_children([k]);
                                        }
                                    }
                                    _ => {
                                        if let Some(k) = kids.next() {
                                            b = b.add_child(k);
                                        }
                                        b = b.add_children(kids);
                                    }
                                }
                                (b.into(), j)
                            }
                            let (t, j) = make(0, &parents, at_once);
                            tileset_ok(&t, &j)
                        },
                    );
                }
            }
        }
    }));
    v.push(shard("root", |cx| {
        for version in ["1.0", "1.1", ""] {
            for tv in [None, Some("v2".to_string())] {
                for props in 0..4usize {
                    cx.case(
                        || format!("root tileset {version:?} {tv:?}, {props} properties"),
                        |o| {
                            o.step();
                            o.state(&(version, &tv, props));
                            let (t, j) = tileset(&[1, 1, 2, 0, 3, 1]);
                            let map: std::collections::HashMap<String, TilesetProperty> = (1..props).map(|i| (format!("p{i}"), TilesetProperty { minimum: -1.5 * i as f64, maximum: i as f64 })).collect();
                            let r = RootTileset {
                                asset: TilesetAssetInfo { version: version.into(), tileset_version: tv.clone() },
                                properties: (props > 0).then_some(map.clone()),
                                geometric_error: 12.25,
                                root: t,
                            };
                            let text = serde_json::to_string(&r).map_err(|e| e.to_string())?;
                            let mut got: Value = serde_json::from_str(&text).map_err(|e| e.to_string())?;
                            let mut want = json!({ "asset": { "version": version }, "geometricError": 12.25, "root": j });
                            if let Some(tv) = &tv {
                                want["asset"]["tilesetVersion"] = json!(tv);
                            }
                            if props > 0 {
                                want["properties"] = Value::Object(map.iter().map(|(k, p)| (k.clone(), json!({ "minimum": p.minimum, "maximum": p.maximum }))).collect());
                            } else if got.get("properties") == Some(&Value::Null) {
                                got.as_object_mut().unwrap().remove("properties");
                            }
                            ensure!(json_same(&got, &want), "JSON {got}, expected {want}");
                            let again: RootTileset = serde_json::from_value(want).map_err(|e| e.to_string())?;
                            ensure_eq!(again, r, "root tileset from its JSON");
                            Ok(())
                        },
                    );
                }
            }
        }
    }));
    v.push(shard("parts", |cx| {
        for i in 1..5usize {
            cx.case(
                || format!("volume {i}"),
                |o| {
                    o.step();
                    o.state(&i);
                    let (b, j) = volume(i).unwrap();
                    let a: Vec<f64> = j.as_object().unwrap().values().next().unwrap().as_array().unwrap().iter().map(|v| v.as_f64().unwrap()).collect();
                    let got = match b {
                        BoundingVolume::Region(r) => vec![r.west(), r.south(), r.east(), r.north(), r.min_height(), r.max_height()],
                        BoundingVolume::Box(b) => [b.center(), b.x(), b.y(), b.z()].iter().flat_map(|v| [v.x, v.y, v.z]).collect(),
                        BoundingVolume::Sphere(s) => vec![s.center().x, s.center().y, s.center().z, s.radius()],
                    };
                    ensure_eq!(got, a, "accessors");
                    Ok(())
                },
            );
        }
        for bad in [
            json!({"boundingVolume": {"sphere": [1, 2, 3, 4]}}),
            json!({"geometricError": 1}),
            json!({"geometricError": 1, "boundingVolume": {"sphere": [1, 2, 3]}}),
            json!({"geometricError": 1, "boundingVolume": {"cube": [1, 2, 3]}}),
            json!({"geometricError": 1, "boundingVolume": {"region": [1, 2, 3, 4, 5, 6]}, "refine": "MERGE"}),
            json!({"geometricError": 1, "boundingVolume": {"region": [1, 2, 3, 4, 5, 6]}, "content": {}}),
            json!({"geometricError": 1, "boundingVolume": {"region": [1, 2, 3, 4, 5, 6]}, "transform": [1, 2]}),
        ] {
            cx.case(
                || format!("JSON {bad}"),
                |o| {
                    o.step();
                    ensure!(serde_json::from_value::<Tileset>(bad.clone()).is_err(), "must be refused");
                    Ok(())
                },
            );
        }
        cx.case(|| "negative geometric error".into(), |o| {
            o.step();
            must_panic(|| "geometric error -1".into(), || TilesetBuilder::default().geometric_error(-1.0))
        });
    }));
    v
}
