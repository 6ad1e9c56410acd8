//! C41: files by path: the type of a file by its extension, and reading and writing whole files.
use crate::las::{self as model, layout_of, File};
use crate::pnts;
use crate::pts::*;
use crate::with_buf;
use fw::*;
use pasture_core::containers::*;
use pasture_core::layout::attributes as at;
use pasture_core::layout::*;
use pasture_io::base::*;
use pasture_io::las::*;
use pasture_io::tiles3d::attributes::COLOR_RGBA;
use pasture_io::tiles3d::PntsReader;
use std::io::SeekFrom;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use PointAttributeDataType as D;

/// A directory that goes away
pub struct Dir(pub PathBuf);
impl Dir {
    pub fn new() -> Dir {
        static N: AtomicU64 = AtomicU64::new(0);
        let p = std::env::temp_dir().join(format!("mc-io-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir(&p).expect("a scratch directory");
        Dir(p)
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Type {
    Las,
    Laz,
    Pnts,
}
const NAMES: [(&str, Type); 12] = [
    ("a.las", Type::Las),
    ("a.LAS", Type::Las),
    ("a.Las", Type::Las),
    ("a.b.las", Type::Las),
    ("a.laz.las", Type::Las),
    ("a.laz", Type::Laz),
    ("a.LAZ", Type::Laz),
    ("a.lAz", Type::Laz),
    ("las.laz", Type::Laz),
    ("a.pnts", Type::Pnts),
    ("a.PNTS", Type::Pnts),
    ("a.las.Pnts", Type::Pnts),
];
const WRONG: [&str; 11] = ["a", "las", ".las", "a.", "a.txt", "a.lasx", "a.la", "a.xyz", "a.laz~", "las.d/a", "a.pnt"];

pub fn point(k: usize) -> Pt {
    let mut p = model::point(&File::new(10), 4 + k);
    p.insert(at::POSITION_3D.name().into(), vec![k as f64 * 0.5 - 3., 7. - k as f64, 100.25 + k as f64]);
    p.insert(at::COLOR_RGB.name().into(), vec![(3 * k % 256) as f64, (254 - k % 200) as f64, 99.]);
    p.insert(COLOR_RGBA.name().into(), vec![(k % 256) as f64, (250 - k % 200) as f64, 17., 200.]);
    p.insert(at::NORMAL.name().into(), vec![k as f64, 0.5, -1.]);
    p.insert(at::SCAN_ANGLE_RANK.name().into(), vec![(k % 100) as f64 - 50.]);
    p
}
fn layouts() -> Vec<(&'static str, PointLayout)> {
    let p32 = at::POSITION_3D.with_custom_datatype(D::Vec3f32);
    vec![
        ("position", layout_of(&[at::POSITION_3D])),
        ("position and color", PointLayout::from_attributes(&[at::COLOR_RGB, at::POSITION_3D])),
        ("time and position", layout_of(&[at::GPS_TIME, at::POSITION_3D])),
        ("position and infrared", layout_of(&[at::POSITION_3D, at::NIR])),
        ("position and scan angle", PointLayout::from_attributes(&[at::SCAN_ANGLE, at::POSITION_3D])),
        ("everything of LAS format 7", layout_of(&model::attrs(model::fmt(7)))),
        ("other types", layout_of(&[at::INTENSITY, at::COLOR_RGB.with_custom_datatype(D::Vec3u8), p32, at::NORMAL.with_custom_datatype(D::Vec3f64)])),
        ("normal, RGBA and class", PointLayout::from_attributes(&[at::NORMAL, COLOR_RGBA, at::CLASSIFICATION, at::POSITION_3D])),
    ]
}
fn e(e: anyhow::Error) -> String {
    format!("{e:#}")
}
/// What is in the file, without pasture's readers
fn check_file(t: Type, path: &Path, l: &PointLayout, pts: &[Pt]) -> R {
    let b = std::fs::read(path).map_err(|e| format!("reading {path:?}: {e}"))?;
    if t == Type::Pnts {
        return pnts::file_ok(&b, l, pts, None);
    }
    ensure!(b.len() > 104 && &b[..4] == b"LASF", "the file is no LAS file");
    ensure_eq!(b[104] & 0x80 != 0, t == Type::Laz, "the file is compressed");
    let (file, f) = las_file(t, &b)?;
    ensure_eq!(f.minor, 4, "version");
    ensure_eq!(f.points.len(), pts.len(), "points in the file");
    for (i, (g, w)) in f.points.iter().zip(model::stored(&file, l, pts)).enumerate() {
        model::compare(&file, &format!("point {i} in the file"), g, &w)?;
    }
    Ok(())
}
fn las_file(t: Type, b: &[u8]) -> R<(File, model::Parsed)> {
    let file = File { scale: [0.001; 3], laz: t == Type::Laz, ..File::new(b[104] & 0x3F) };
    let f = model::parse(&file, b)?;
    Ok((file, f))
}
/// What comes back in a buffer with the default layout of the reader
fn check_back<'a, B: BorrowedBuffer<'a>>(t: Type, b: &B, path: &Path, l: &PointLayout, pts: &[Pt]) -> R {
    ensure_eq!(b.len(), pts.len(), "points read back");
    let got = contents(b);
    if t == Type::Pnts {
        for (i, (g, p)) in got.iter().zip(pts).enumerate() {
            for (a, key, d, _) in pnts::semantics() {
                let Some(m) = l.get_attribute_by_name(a.name()) else {
                    ensure!(!g.contains_key(a.name()), "{key} comes out of nowhere");
                    continue;
                };
                let w = cast(d, &cast(m.datatype(), &p[a.name()]));
                let g = g.get(a.name()).ok_or_else(|| format!("{key} is missing"))?;
                ensure!(same(g, &w), "point {i}: {key} is {g:?}, expected {w:?}");
            }
        }
        return Ok(());
    }
    let bytes = std::fs::read(path).map_err(|e| e.to_string())?;
    let (file, _) = las_file(t, &bytes)?;
    ensure_eq!(*b.point_layout(), layout_of(&model::attrs(file.fmt())), "layout");
    for (i, (g, w)) in got.iter().zip(model::stored(&file, l, pts)).enumerate() {
        model::compare(&file, &format!("point {i} read back"), g, &w)?;
    }
    Ok(())
}
fn default_layout(path: &Path) -> R<PointLayout> {
    Ok(GenericPointReader::open_file(path).map_err(e)?.get_default_point_layout().clone())
}
/// Layouts to append to
fn targets(path: &Path) -> R<Vec<(&'static str, PointLayout)>> {
    let d = default_layout(path)?;
    let a: Vec<_> = defs(&d).into_iter().rev().collect();
    Ok(vec![
        ("the default", d.clone()),
        ("reversed and aligned", PointLayout::from_attributes(&a)),
        ("position and something else", layout_of(&[PointAttributeDefinition::custom("x".into(), D::U16), at::POSITION_3D])),
    ])
}
fn append<'a, B: OwningBuffer<'a>>(b: &'a mut B, path: &Path) -> Result<usize, String> {
    read_all_into(b, path).map_err(e)
}
fn check_append(t: Type, path: &Path, l: &PointLayout, pts: &[Pt], name: &str, tl: &PointLayout, old: usize, map: bool) -> R {
    let before: Vec<Pt> = (0..old).map(|k| point(50 + k)).collect();
    let (n, now) = if map {
        let mut b = hashmap(tl, &before);
        let n = append(&mut b, path)?;
        (n, contents(&b))
    } else {
        let mut b = vector(tl, &before);
        let n = append(&mut b, path)?;
        (n, contents(&b))
    };
    let what = format!("appending to {old} points of the layout {name:?}, map {map}");
    ensure_eq!(n, pts.len(), "{what}: points read");
    ensure_eq!(now.len(), old + pts.len(), "{what}: points in the buffer");
    for (i, (g, w)) in now.iter().zip(&before).enumerate() {
        for a in defs(tl) {
            let z = vec![0.; parts(a.datatype()).1];
            let w = cast(a.datatype(), w.get(a.name()).unwrap_or(&z));
            ensure!(same(&g[a.name()], &w), "{what}: {} of the old point {i} is {:?}, it was {w:?}", a.name(), g[a.name()]);
        }
    }
    // the new points against the reader itself
    let mut r = GenericPointReader::open_file(path).map_err(e)?;
    let mut direct = vector(tl, &vec![Pt::new(); pts.len()]);
    r.read_into(&mut direct, pts.len()).map_err(e)?;
    for (i, (g, w)) in now[old..].iter().zip(contents(&direct)).enumerate() {
        ensure_eq!(*g, w, "{what}: new point {i}");
    }
    let _ = (t, l);
    Ok(())
}

pub fn c41(_: bool) -> Vec<Shard> {
    let mut v = vec![];
    for (name, t) in NAMES {
        v.push(shard(format!("whole files {name}"), move |cx| {
            let dir = Dir::new();
            let counts = cx.tier(&[0usize, 1, 2, 5][..], &[0, 1, 2, 3, 5, 17, 1000, 50_001][..]);
            for (ln, l) in layouts() {
                for count in counts {
                    for kind in KINDS {
                        let path = dir.0.join(name);
                        cx.case(
                            || format!("{count} points, layout {ln}, {kind:?}"),
                            |o| {
                                let pts: Vec<Pt> = (0..*count).map(point).collect();
                                let _ = std::fs::remove_file(&path);
                                // an older and longer file must not shine through
                                if kind == Kind::Vector {
                                    std::fs::write(&path, vec![0x5A; 100_000]).map_err(|e| e.to_string())?;
                                }
                                with_buf!(kind, &l, &pts, b, write_all(b, &path)).map_err(e)?;
                                check_file(t, &path, &l, &pts)?;
                                let b: VectorBuffer = read_all(&path).map_err(e)?;
                                check_back(t, &b, &path, &l, &pts)?;
                                let b: HashMapBuffer = read_all(&path).map_err(e)?;
                                check_back(t, &b, &path, &l, &pts)?;
                                for (tn, tl) in targets(&path)? {
                                    for old in [0, 1, 3] {
                                        for map in [false, true] {
                                            check_append(t, &path, &l, &pts, tn, &tl, old, map)?;
                                            o.step();
                                        }
                                    }
                                }
                                o.state(&(ln, *count));
                                Ok(())
                            },
                        );
                    }
                }
            }
        }));
        v.push(shard(format!("readers and writers of {name}"), move |cx| {
            let dir = Dir::new();
            let depth = cx.tier(2, 3);
            for (ln, l) in layouts() {
                for n in 0..=depth {
                    crate::io::words(3, n, &mut |h| {
                        let path = dir.0.join(name);
                        cx.case(
                            || format!("layout {ln}, writes of {h:?} points"),
                            |o| {
                                let mut pts: Vec<Pt> = vec![];
                                let of_writer;
                                {
                                    let mut w = GenericPointWriter::open_file(&path, &l).map_err(e)?;
                                    of_writer = w.get_default_point_layout().clone();
                                    match &w {
                                        GenericPointWriter::LAS(_) => ensure!(t != Type::Pnts, "a LAS writer"),
                                        GenericPointWriter::Tiles3D(_) => ensure_eq!(t, Type::Pnts, "type of the writer"),
                                    }
                                    for (i, k) in h.iter().enumerate() {
                                        let new: Vec<Pt> = (pts.len()..pts.len() + k).map(point).collect();
                                        with_buf!(KINDS[(i + k) % 5], &l, &new, b, w.write(b)).map_err(e)?;
                                        pts.extend(new);
                                    }
                                    w.flush().map_err(e)?;
                                }
                                check_file(t, &path, &l, &pts)?;
                                // a walk through the file
                                let mut r = GenericPointReader::open_file(&path).map_err(e)?;
                                match &r {
                                    GenericPointReader::LAS(_) => ensure!(t != Type::Pnts, "a LAS reader"),
                                    GenericPointReader::Tiles3D(_) => ensure_eq!(t, Type::Pnts, "type of the reader"),
                                }
                                let total = pts.len();
                                ensure_eq!(GenericPointReader::point_count(&r), Some(total), "point_count");
                                ensure_eq!(SeekToPoint::point_count(&mut r).map_err(e)?, total, "point_count by seeking");
                                ensure_eq!(r.get_metadata().number_of_points(), Some(total), "points of the metadata");
                                let all: VectorBuffer = read_all(&path).map_err(e)?;
                                check_back(t, &all, &path, &l, &pts)?;
                                let all = contents(&all);
                                ensure_eq!(*r.get_default_point_layout(), default_layout(&path)?, "default layout");
                                if t == Type::Pnts {
                                    let d = defs(r.get_default_point_layout());
                                    ensure!(defs(&of_writer).len() == d.len() && defs(&of_writer).iter().all(|a| d.contains(a)), "default layout of the writer: {of_writer}");
                                } else {
                                    ensure_eq!(of_writer, *r.get_default_point_layout(), "default layout of the writer");
                                }
                                for at in 0..=total {
                                    for n in [0, 1, total + 2] {
                                        ensure_eq!(r.seek_point(SeekFrom::Start(at as u64)).map_err(e)?, at, "seek to {at}");
                                        ensure_eq!(r.point_index().map_err(e)?, at, "index after the seek");
                                        let n = n.min(total - at);
                                        let b: HashMapBuffer = r.read(n).map_err(e)?;
                                        ensure_eq!(contents(&b)[..], all[at..at + n], "{n} points from {at}");
                                        ensure_eq!(r.point_index().map_err(e)?, at + n, "index after reading");
                                        o.step();
                                    }
                                }
                                Ok(())
                            },
                        );
                    });
                }
            }
        }));
    }
    v.push(shard("names without a type", |cx| {
        let dir = Dir::new();
        std::fs::create_dir(dir.0.join("las.d")).expect("a scratch directory");
        for (i, name) in WRONG.iter().enumerate() {
            for exists in [false, true] {
                for (ln, l) in layouts() {
                    let path = dir.0.join(name);
                    cx.case(
                        || format!("{name}, exists {exists}, layout {ln}"),
                        |o| {
                            let _ = std::fs::remove_file(&path);
                            let old = File::new(0).bytes(&[model::point(&File::new(0), i)]);
                            if exists {
                                std::fs::write(&path, &old).map_err(|e| e.to_string())?;
                            }
                            let b = vector(&l, &[point(1)]);
                            ensure!(write_all(&b, &path).is_err(), "write_all");
                            ensure!(GenericPointWriter::open_file(&path, &l).is_err(), "GenericPointWriter");
                            ensure_eq!(std::fs::read(&path).ok(), exists.then_some(old), "the file");
                            ensure!(read_all::<VectorBuffer, _>(&path).is_err(), "read_all");
                            ensure!(GenericPointReader::open_file(&path).is_err(), "GenericPointReader");
                            let mut into = vector(&l, &[point(2)]);
                            let before = contents(&into);
                            ensure!(append(&mut into, &path).is_err(), "read_all_into");
                            ensure_eq!(contents(&into), before, "the buffer");
                            let none = ["a", "las", ".las", "las.d/a"].contains(name);
                            match path_is_compressed_las_file(&path) {
                                Ok(c) => ensure!(!none && !c, "{name} is compressed: {c}"),
                                Err(_) => ensure!(none, "{name}: error"),
                            }
                            o.state(name);
                            o.step();
                            Ok(())
                        },
                    );
                }
            }
        }
    }));
    v.push(shard("files that are missing or something else", |cx| {
        let dir = Dir::new();
        for (name, t) in NAMES {
            for what in ["missing", "directory", "empty", "text", "half a header", "missing directory"] {
                let path = if what == "missing directory" { dir.0.join("no").join(name) } else { dir.0.join(name) };
                cx.case(
                    || format!("{name}: {what}"),
                    |o| {
                        let _ = std::fs::remove_file(&path);
                        let _ = std::fs::remove_dir(&path);
                        match what {
                            "directory" => std::fs::create_dir(&path).map_err(|e| e.to_string())?,
                            "empty" => std::fs::write(&path, b"").map_err(|e| e.to_string())?,
                            "text" => std::fs::write(&path, "some text\n".repeat(100)).map_err(|e| e.to_string())?,
                            "half a header" => std::fs::write(&path, &File::new(0).bytes(&[])[..100]).map_err(|e| e.to_string())?,
                            _ => (),
                        }
                        ensure!(read_all::<VectorBuffer, _>(&path).is_err(), "read_all");
                        ensure!(GenericPointReader::open_file(&path).is_err(), "GenericPointReader");
                        let l = layout_of(&[at::POSITION_3D]);
                        let mut into = vector(&l, &[point(2)]);
                        let before = contents(&into);
                        ensure!(append(&mut into, &path).is_err(), "read_all_into");
                        ensure_eq!(contents(&into), before, "the buffer");
                        match t {
                            Type::Pnts => ensure!(PntsReader::from_path(&path).is_err(), "PntsReader"),
                            _ => ensure!(LASReader::from_path(&path, false).is_err(), "LASReader"),
                        }
                        let b = vector(&l, &[point(1)]);
                        let written = write_all(&b, &path);
                        ensure_eq!(written.is_ok(), !["directory", "missing directory"].contains(&what), "write_all");
                        if written.is_ok() {
                            check_file(t, &path, &l, &[point(1)])?;
                        }
                        ensure_eq!(path_is_compressed_las_file(&path).ok(), Some(t == Type::Laz), "compressed");
                        o.state(&(name, what));
                        o.step();
                        Ok(())
                    },
                );
                let _ = std::fs::remove_dir(&path);
            }
        }
    }));
    v
}
