//! C46: the command line tool `info` of pasture-tools, run as a program on real files
use crate::base::Dir;
use crate::las::{self as model, attrs, vlr, File};
use crate::pnts;
use crate::pts::*;
use fw::*;
use pasture_core::layout::attributes as at;
use pasture_core::layout::*;
use pasture_io::tiles3d::attributes::COLOR_RGBA;
use std::path::Path;
use std::process::{Command, Stdio};
use PointAttributeDataType as D;

struct Run {
    ok: bool,
    out: String,
    err: String,
}
fn run(args: &[&str]) -> R<Run> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?.with_file_name("pasture-info");
    let o = Command::new(exe).args(args).env("RUST_BACKTRACE", "0").stdin(Stdio::null()).output().map_err(|e| format!("running the tool: {e}"))?;
    let s = |b: Vec<u8>| String::from_utf8_lossy(&b).into_owned();
    Ok(Run { ok: o.status.success(), out: s(o.stdout), err: s(o.stderr) })
}
/// The value behind a label, wherever the line is
fn value<'a>(out: &'a str, label: &str) -> R<&'a str> {
    let mut l = out.lines().filter_map(|l| l.trim().strip_prefix(label)).filter_map(|l| l.strip_prefix(':'));
    l.next().map(str::trim).ok_or_else(|| format!("no line {label:?} in\n{out}"))
}
fn numbers(s: &str) -> R<Vec<f64>> {
    s.split(|c: char| c.is_whitespace() || "{}[](),".contains(c))
        .filter(|w| !w.is_empty())
        .map(|w| w.parse::<f64>().map_err(|_| format!("{w:?} in {s:?} is no number")))
        .collect()
}
/// What the tool has a line for: the attribute and its labels, one per component
fn labels() -> Vec<(PointAttributeDefinition, &'static [&'static str])> {
    vec![
        (at::POSITION_3D, &["X", "Y", "Z"]),
        (at::INTENSITY, &["Intensity"]),
        (at::RETURN_NUMBER, &["Return number"]),
        (at::NUMBER_OF_RETURNS, &["Number of returns"]),
        (at::SCAN_DIRECTION_FLAG, &["Scan direction flag"]),
        (at::EDGE_OF_FLIGHT_LINE, &["Edge of flight line"]),
        (at::CLASSIFICATION, &["Classification"]),
        (at::SCAN_ANGLE_RANK, &["Scan angle rank"]),
        (at::USER_DATA, &["User data"]),
        (at::POINT_SOURCE_ID, &["Point source ID"]),
        (at::COLOR_RGB, &["Color R", "Color G", "Color B"]),
        (at::GPS_TIME, &["GPS time"]),
        (at::NIR, &["NIR"]),
    ]
}
/// The part of the report with the attributes: their names, then minimum and maximum of each
fn check_details(out: &str, names: &[String], pts: &[Pt], o: &mut Obs) -> R {
    let Some((_, d)) = out.split_once("\nAttributes\n") else {
        return Err(format!("no attributes in\n{out}"));
    };
    let listed: Vec<&str> = d.lines().take_while(|l| l.starts_with('\t')).map(|l| l.trim()).collect();
    ensure_eq!(listed, names.iter().map(|s| &s[..]).collect::<Vec<_>>(), "attributes listed");
    let d = d.split_once("Analyzing").map(|d| d.1);
    ensure_eq!(d.is_some(), !pts.is_empty(), "minimum and maximum are analyzed");
    let Some(d) = d else { return Ok(()) };
    for (a, ls) in labels() {
        for (i, l) in ls.iter().enumerate() {
            let has = names.iter().any(|n| n == a.name());
            let count = d.lines().filter(|x| x.trim().starts_with(&format!("{l}:"))).count();
            ensure_eq!(count, has as usize, "lines of {l}");
            if !has {
                continue;
            }
            let got = numbers(value(d, l)?)?;
            let v = pts.iter().map(|p| p[a.name()][i]);
            let want = [v.clone().fold(f64::INFINITY, f64::min), v.fold(f64::NEG_INFINITY, f64::max)];
            ensure_eq!(got.len(), 2, "numbers of {l}");
            for k in 0..2 {
                let same = if a.name() == at::POSITION_3D.name() { model::near(0., got[k], want[k], 0.) } else { got[k] == want[k] };
                ensure!(same, "{l}: minimum and maximum are {got:?}, expected {want:?}");
            }
            o.step();
        }
    }
    Ok(())
}
fn check_las(file: &File, path: &Path, pts: &[Pt], detailed: Option<&str>, o: &mut Obs) -> R {
    let path = path.to_str().unwrap();
    let mut args = vec!["-i", path];
    args.extend(detailed);
    let r = run(&args)?;
    ensure!(r.ok, "the tool fails: {}", r.err);
    let out = &r.out;
    ensure!(out.starts_with(&format!("pasture info report for {path}\n")), "the report starts with {:?}", out.lines().next());
    let n = pts.len() as f64;
    let c = |i: usize| pts.iter().map(move |p| p[at::POSITION_3D.name()][i]);
    let ends = |f: fn(f64, f64) -> f64| -> Vec<f64> { (0..3).map(|i| c(i).reduce(f).unwrap_or(0.)).collect() };
    let (min, max) = (ends(f64::min), ends(f64::max));
    let by = |k: usize| pts.iter().filter(|p| p[at::RETURN_NUMBER.name()][0] as usize == k).count() as f64;
    for (label, want) in [
        ("Number of point records", vec![n]),
        ("Number of points by return", (1..=5).map(by).collect()),
        ("Bounds (min)", min.clone()),
        ("Bounds (max)", max.clone()),
        ("Min (x y z)", min),
        ("Max (x y z)", max),
        ("Scale (x y z)", file.scale.to_vec()),
        ("Offset (x y z)", file.off.to_vec()),
        ("File source ID", vec![7.]),
    ] {
        ensure_eq!(numbers(value(out, label)?)?, want, "{label}");
    }
    // both lines with the number of points
    let all = out.lines().filter(|l| l.contains("Number of point records")).collect::<Vec<_>>();
    ensure!(all.len() == 2 && all.iter().all(|l| l.ends_with(&format!(" {}", pts.len()))), "number of points: {all:?}");
    for (label, want) in [
        ("Version", format!("1.{}", file.minor)),
        ("System identifier", "system".into()),
        ("Generating software", "software".into()),
        ("File creation date", "2021-03-01".into()),
        ("GUID", "01020304-0506-0708-090a-0b0c0d0e0f10".into()),
    ] {
        ensure_eq!(value(out, label)?, want, "{label}");
    }
    let extra = file.extra_len();
    ensure!(
        value(out, "Point record size")?.starts_with(&format!("{} ({} + {extra}", file.record(), file.record() - extra)),
        "size of the records: {}",
        value(out, "Point record size")?
    );
    for v in &file.vlrs {
        if v.user == "LASF_Spec" && v.id == 3 {
            ensure!(out.contains(std::str::from_utf8(&v.data).unwrap()), "no text area description in\n{out}");
        }
    }
    if detailed.is_some() {
        let names: Vec<String> = attrs(file.fmt()).iter().chain(&file.extra_layout()).map(|a| a.name().to_string()).collect();
        check_details(out, &names, pts, o)?;
    } else {
        ensure!(!out.contains("\nAttributes\n") && !out.contains("Analyzing"), "details that nobody asked for:\n{out}");
    }
    Ok(())
}
fn files(n: u8, laz: bool) -> Vec<(&'static str, File)> {
    let base = File { laz, ..File::new(n) };
    let extra = vec![("a".to_string(), D::U16), ("b".into(), D::F64), ("c".into(), D::U8)];
    let mut v = vec![
        ("plain", base.clone()),
        ("scale and offset", File { scale: [0.001, 0.01, 0.25], off: [1000.25, -3., 1e6], ..base.clone() }),
        ("VLRs", File { vlrs: vec![vlr("user", 1, "first", vec![1, 2, 255]), vlr("LASF_Spec", 3, "text", b"words of a text".to_vec())], ..base.clone() }),
    ];
    if !laz {
        v.push(("described extra bytes", File { extra: extra.clone(), described: 3, ..base.clone() }));
        v.push(("undescribed extra bytes", File { extra, described: 1, ..base }));
    }
    v
}
fn name_of(laz: bool) -> &'static str {
    if laz {
        "a.laz"
    } else {
        "a.las"
    }
}

pub fn c46(_: bool) -> Vec<Shard> {
    let mut v = vec![];
    for n in 0..11u8 {
        for laz in [false, true] {
            if laz && n > 8 {
                continue; // refused by the reader: see the documentation of RawLAZReader
            }
            v.push(shard(format!("reports of format {n}, compressed {laz}"), move |cx| {
                let dir = Dir::new();
                let path = dir.0.join(name_of(laz));
                let (deep, alphabet) = cx.tier((3, 4), (4, 5));
                for (sn, file) in files(n, laz) {
                    let pool: Vec<Pt> = (0..alphabet).map(|k| model::point(&file, k)).collect();
                    for len in 0..=deep - (sn != "plain") as usize {
                        crate::io::words(alphabet, len, &mut |w| {
                            let kinds: &[Option<&str>] = if len <= 1 { &[None, Some("-d"), Some("--detailed")] } else { &[Some("-d")] };
                            for d in kinds {
                                cx.case(
                                    || format!("format {n}, {sn}, compressed {laz}: points {w:?}, {d:?}"),
                                    |o| {
                                        let pts: Vec<Pt> = w.iter().map(|k| pool[*k].clone()).collect();
                                        std::fs::write(&path, file.bytes(&pts)).map_err(|e| e.to_string())?;
                                        o.state(w);
                                        check_las(&file, &path, &pts, *d, o)
                                    },
                                );
                            }
                        });
                    }
                }
            }));
        }
    }
    // the tool reads a million points at a time: the extreme one on every side of the seam
    for (n, laz) in [(0u8, false), (3, true), (7, false)] {
        v.push(shard(format!("long files of format {n}, compressed {laz}"), move |cx| {
            let dir = Dir::new();
            let path = dir.0.join(name_of(laz));
            const C: usize = 1_000_000;
            let counts: &[usize] = cx.tier(&[C + 2], &[C - 1, C, C + 1, C + 2, 2 * C, 2 * C + 1]);
            let file = File { laz, ..File::new(n) };
            let usual = model::point(&file, 5);
            for count in counts {
                let mut at: Vec<usize> = vec![0, C - 1, C, 2 * C - 1, 2 * C, count - 1];
                at.retain(|i| i < count);
                at.sort();
                at.dedup();
                for i in at {
                    // not alone in its chunk, a point below and a point above the usual one
                    for k in cx.tier(if i == C { &[0usize, 1][..] } else { &[1][..] }, &[0, 1, 2][..]) {
                        let extreme = model::point(&file, *k);
                        cx.case(
                            || format!("{count} points of format {n}, compressed {laz}, the different one ({k}) is {i}"),
                            |o| {
                                let pts = [usual.clone(), extreme.clone()];
                                std::fs::write(&path, big(&file, &usual, &extreme, *count, i)).map_err(|e| e.to_string())?;
                                o.state(&(*count, i, *k));
                                let path = path.to_str().unwrap();
                                let r = run(&["-i", path, "-d"])?;
                                ensure!(r.ok, "the tool fails: {}", r.err);
                                ensure_eq!(numbers(value(&r.out, "Number of point records")?)?, vec![*count as f64], "number of points");
                                let names: Vec<String> = attrs(file.fmt()).iter().map(|a| a.name().to_string()).collect();
                                check_details(&r.out, &names, &pts, o)
                            },
                        );
                    }
                }
            }
        }));
    }
    v.push(shard("tiles", |cx| {
        let dir = Dir::new();
        let path = dir.0.join("a.pnts");
        let layouts = [
            vec![at::POSITION_3D],
            vec![at::POSITION_3D, at::COLOR_RGB],
            vec![at::COLOR_RGB, at::POSITION_3D, at::NORMAL],
            vec![at::NORMAL, COLOR_RGBA, at::POSITION_3D],
        ];
        let deep = cx.tier(3, 4);
        for l in layouts {
            let l = PointLayout::from_attributes(&l);
            for n in 0..=deep {
                crate::io::words(4, n, &mut |w| {
                    for d in [false, true] {
                        cx.case(
                            || format!("{l}: points {w:?}, detailed {d}"),
                            |o| {
                                let pts: Vec<Pt> = w.iter().map(|k| crate::base::point(*k)).collect();
                                pasture_io::base::write_all(&vector(&l, &pts), &path).map_err(|e| format!("{e:#}"))?;
                                let p = path.to_str().unwrap();
                                let r = run(&["-i", p, "-d"][..2 + d as usize])?;
                                ensure!(r.ok, "the tool fails: {}", r.err);
                                ensure!(r.out.starts_with(&format!("pasture info report for {p}\n")), "start of {}", r.out);
                                ensure_eq!(numbers(value(&r.out, "\"points_length\"")?)?, vec![n as f64], "number of points");
                                ensure_eq!(r.out.contains("\nAttributes\n"), d, "details");
                                o.state(&(w, d));
                                if d {
                                    let names: Vec<String> = pnts::semantics()
                                        .iter()
                                        .filter(|s| l.has_attribute_with_name(s.0.name()))
                                        .map(|s| s.0.name().to_string())
                                        .collect();
                                    let mut listed: Vec<String> = r.out.split_once("\nAttributes\n").unwrap().1.lines().take_while(|l| l.starts_with('\t')).map(|l| l.trim().to_string()).collect();
                                    let in_order = listed.clone();
                                    listed.sort();
                                    let mut sorted = names;
                                    sorted.sort();
                                    ensure_eq!(listed, sorted, "attributes listed");
                                    check_details(&r.out, &in_order, &pts, o)?;
                                }
                                Ok(())
                            },
                        );
                    }
                });
            }
        }
    }));
    v.push(shard("calls that cannot be answered", |cx| {
        let dir = Dir::new();
        let good = dir.0.join("a.las");
        let file = File::new(0);
        std::fs::write(&good, file.bytes(&[model::point(&file, 1)])).unwrap();
        std::fs::write(dir.0.join("a.txt"), "1 2 3\n").unwrap();
        std::fs::write(dir.0.join("noext"), "1 2 3\n").unwrap();
        std::fs::write(dir.0.join("empty.las"), "").unwrap();
        std::fs::write(dir.0.join("text.las"), "some text\n".repeat(100)).unwrap();
        std::fs::write(dir.0.join("half.las"), &file.bytes(&[])[..100]).unwrap();
        std::fs::write(dir.0.join("text.pnts"), "some text\n".repeat(100)).unwrap();
        std::fs::create_dir(dir.0.join("dir.las")).unwrap();
        let p = |n: &str| dir.0.join(n).to_str().unwrap().to_string();
        let good = good.to_str().unwrap();
        let mut calls: Vec<(Vec<String>, bool)> = vec![
            (vec!["-i".into(), good.into()], true),
            (vec![format!("-i{good}")], true),
            (vec!["-di".into(), good.into()], true),
            (vec![], false),
            (vec!["-d".into()], false),
            (vec!["-i".into()], false),
            (vec![good.into()], false),
            (vec!["-i".into(), good.into(), "--unknown".into()], false),
        ];
        for n in ["missing.las", "no/a.las", "a.txt", "noext", "empty.las", "text.las", "half.las", "text.pnts", "dir.las", "missing.pnts", "missing.laz"] {
            calls.push((vec!["-i".into(), p(n)], false));
            calls.push((vec!["-d".into(), "-i".into(), p(n)], false));
        }
        for (c, ok) in calls {
            cx.case(
                || format!("{c:?}"),
                |o| {
                    let r = run(&c.iter().map(|s| &s[..]).collect::<Vec<_>>())?;
                    ensure_eq!(r.ok, ok, "the tool succeeds ({})", r.err);
                    ensure_eq!(r.out.contains("pasture info report for"), ok, "there is a report: {}", r.out);
                    ensure!(!r.err.contains("panicked"), "{}", r.err);
                    ensure!(ok || !r.err.is_empty(), "no message");
                    o.state(&c);
                    o.step();
                    Ok(())
                },
            );
        }
    }));
    v
}
/// `count` points, all of them usual but number `i`
fn big(file: &File, usual: &Pt, extreme: &Pt, count: usize, i: usize) -> Vec<u8> {
    if file.laz {
        let mut pts = vec![usual.clone(); count];
        pts[i] = extreme.clone();
        return file.bytes(&pts);
    }
    let mut b = file.bytes(&[usual.clone(), extreme.clone()]);
    let size = file.record();
    let tail = b.len() - 2 * size;
    let (u, e) = (b[tail..tail + size].to_vec(), b[tail + size..].to_vec());
    b.truncate(tail);
    for k in 0..count {
        b.extend(if k == i { &e } else { &u });
    }
    let mut set = |at: usize, v: &[u8]| b[at..at + v.len()].copy_from_slice(v);
    if file.n < 6 {
        set(107, &(count as u32).to_le_bytes());
    }
    set(247, &(count as u64).to_le_bytes());
    b
}
