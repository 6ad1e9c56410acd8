//! C31: the ASCII writer. C32: the ASCII reader.
use crate::base::Dir;
use crate::io::*;
use crate::pts::*;
use crate::with_buf;
use fw::*;
use pasture_core::containers::*;
use pasture_core::layout::attributes::*;
use pasture_core::layout::*;
use pasture_io::ascii::*;
use pasture_io::base::*;
use std::io::{BufReader, BufWriter, ErrorKind};
use PointAttributeDataType as D;

const LITERALS: &str = "sxyzirncuRGBtpedaI";
/// (attribute, component) of a literal; `None` for the skipped column
fn col(c: char) -> Option<(PointAttributeDefinition, usize)> {
    Some(match c {
        's' => return None,
        'x' => (POSITION_3D, 0),
        'y' => (POSITION_3D, 1),
        'z' => (POSITION_3D, 2),
        'i' => (INTENSITY, 0),
        'r' => (RETURN_NUMBER, 0),
        'n' => (NUMBER_OF_RETURNS, 0),
        'c' => (CLASSIFICATION, 0),
        't' => (GPS_TIME, 0),
        'u' => (USER_DATA, 0),
        'p' => (POINT_SOURCE_ID, 0),
        'R' => (COLOR_RGB, 0),
        'G' => (COLOR_RGB, 1),
        'B' => (COLOR_RGB, 2),
        'e' => (EDGE_OF_FLIGHT_LINE, 0),
        'd' => (SCAN_DIRECTION_FLAG, 0),
        'a' => (SCAN_ANGLE_RANK, 0),
        'I' => (NIR, 0),
        _ => unreachable!(),
    })
}
fn attrs() -> Vec<PointAttributeDefinition> {
    vec![
        POSITION_3D,
        INTENSITY,
        RETURN_NUMBER,
        NUMBER_OF_RETURNS,
        CLASSIFICATION,
        GPS_TIME,
        USER_DATA,
        POINT_SOURCE_ID,
        COLOR_RGB,
        EDGE_OF_FLIGHT_LINE,
        SCAN_DIRECTION_FLAG,
        SCAN_ANGLE_RANK,
        NIR,
    ]
}
fn is_float(c: char) -> bool {
    "xyzt".contains(c)
}
fn is_flag(c: char) -> bool {
    "ed".contains(c)
}
/// Point number `k`: all attributes have different values, all of them integers below 128 (so that
/// they survive a conversion into any type), except for the flags
fn point(k: usize) -> Pt {
    let mut p = Pt::new();
    for (i, a) in attrs().iter().enumerate() {
        let n = parts(a.datatype()).1;
        let v = (0..n)
            .map(|c| if *a == EDGE_OF_FLIGHT_LINE { (k % 2) as f64 } else if *a == SCAN_DIRECTION_FLAG { (k / 2 % 2) as f64 } else { ((7 + 13 * i + 29 * c + 37 * k) % 127 + 1) as f64 })
            .collect();
        p.insert(a.name().into(), v);
    }
    p
}
/// The same with values that use the whole range of the default types
fn wide(k: usize) -> Pt {
    let mut p = point(k);
    let s = if k % 2 == 0 { 1.0 } else { -1.0 };
    p.insert(POSITION_3D.name().into(), vec![s * 12345.6789, s * -0.015625, s * 1e9]);
    p.insert(GPS_TIME.name().into(), vec![s * 3.0625 + k as f64]);
    p.insert(INTENSITY.name().into(), vec![65535.0 - k as f64]);
    p.insert(NIR.name().into(), vec![32768.0 + k as f64]);
    p.insert(POINT_SOURCE_ID.name().into(), vec![256.0 + k as f64]);
    p.insert(COLOR_RGB.name().into(), vec![65535.0, 0.0, 255.0 + k as f64]);
    p.insert(CLASSIFICATION.name().into(), vec![255.0 - k as f64]);
    p.insert(SCAN_ANGLE_RANK.name().into(), vec![s * 127.0]);
    p
}
fn layout(which: usize) -> PointLayout {
    let a = attrs();
    match which {
        0 => PointLayout::from_attributes(&a),
        1 => PointLayout::from_attributes_packed(&a.into_iter().rev().collect::<Vec<_>>(), 1),
        2 => PointLayout::from_attributes(&a.into_iter().map(|d| if parts(d.datatype()).1 == 3 { d.with_custom_datatype(D::Vec3i32) } else { d.with_custom_datatype(D::F64) }).collect::<Vec<_>>()),
        _ => PointLayout::from_attributes_packed(&a.into_iter().map(|d| if parts(d.datatype()).1 == 3 { d.with_custom_datatype(D::Vec3f32) } else { d.with_custom_datatype(D::I32) }).collect::<Vec<_>>(), 2),
    }
}

// ------------------------------------------------------------------------------------------ C31

fn column_ok(c: char, text: &str, v: f64, precision: usize) -> R {
    if is_float(c) {
        let want: f64 = format!("{v:.precision$}").parse().unwrap();
        let got: f64 = text.trim().parse().map_err(|_| format!("column {c}: {text:?} is no number, expected {want}"))?;
        ensure!(same(&[got], &[want]), "column {c}: text {text:?}, expected {want} ({v} with {precision} decimals)");
    } else {
        let want = if is_flag(c) { (v != 0.0) as i64 } else { v as i64 };
        let got: i64 = text.trim().parse().map_err(|_| format!("column {c}: {text:?} is no integer, expected {want}"))?;
        ensure!(got == want, "column {c}: text {text:?}, expected {want}");
    }
    Ok(())
}
/// The text must have one line per point and one column per literal with the value of the attribute
fn text_ok(text: &[u8], format: &str, delimiter: &str, precision: usize, l: &PointLayout, p: &[Pt]) -> R {
    let text = std::str::from_utf8(text).map_err(|e| e.to_string())?;
    ensure!(text.is_empty() || text.ends_with('\n'), "the last line is not terminated: {text:?}");
    let lines: Vec<&str> = text.lines().collect();
    ensure_eq!(lines.len(), p.len(), "number of lines");
    for (line, p) in lines.iter().zip(p) {
        line_ok(line, format, delimiter, precision, l, p).map_err(|e| format!("line {line:?}: {e}"))?;
    }
    Ok(())
}
fn line_ok(line: &str, format: &str, delimiter: &str, precision: usize, l: &PointLayout, p: &Pt) -> R {
    let cols: Vec<&str> = line.split(delimiter).collect();
    ensure_eq!(cols.len(), format.chars().count(), "number of columns");
    for (text, c) in cols.iter().zip(format.chars()) {
        if let Some((a, i)) = col(c) {
            let d = l.get_attribute_by_name(a.name()).unwrap().datatype();
            let v = cast(a.datatype(), &cast(d, &p[a.name()]))[i];
            column_ok(c, text, v, precision)?;
        }
    }
    Ok(())
}
fn write_case(kind: Kind, l: &PointLayout, format: &str, p: &[Pt], o: &mut Obs) -> R {
    o.step();
    let dev = Chan::new(vec![]);
    let mut w = AsciiWriter::from_write(dev.handle(), format).map_err(|e| e.to_string())?;
    with_buf!(kind, l, p, b, w.write(b).map_err(|e| format!("refused: {e}"))?);
    w.flush().map_err(|e| e.to_string())?;
    text_ok(&dev.bytes(), format, ", ", 5, l, p)
}
fn formats(n: usize, f: &mut dyn FnMut(String)) {
    let l: Vec<char> = LITERALS.chars().collect();
    words(l.len(), n, &mut |w| f(w.iter().map(|i| l[*i]).collect()));
}

#[derive(Clone, Debug, Hash)]
enum WOp {
    Write(usize),
    Flush,
    Delimiter(&'static str),
    Precision(usize),
}

fn c31_history(cx: &mut Cx, first: usize) {
    let alphabet = [WOp::Write(0), WOp::Write(1), WOp::Write(2), WOp::Flush, WOp::Delimiter(";"), WOp::Delimiter(" | "), WOp::Precision(0), WOp::Precision(2)];
    let l = layout(0);
    let format = "xtciB";
    for n in 0..=cx.tier(3, 4) {
        words(alphabet.len(), n, &mut |w| {
            let mut h = vec![alphabet[first].clone()];
            h.extend(w.iter().map(|i| alphabet[*i].clone()));
            for mode in 0..3 {
                cx.case(
                    || format!("history {h:?}, {}", ["device", "3 bytes per write", "buffered"][mode]),
                    |o| {
                        o.state(&(&h, mode));
                        let dev = Chan::new(vec![]);
                        match mode {
                            0 => run_history(AsciiWriter::from_write(dev.handle(), format), &dev, &h, &l, format, true, o),
                            1 => run_history(AsciiWriter::from_write(dev.handle().chunked(3), format), &dev, &h, &l, format, true, o),
                            _ => run_history(AsciiWriter::from_write(BufWriter::with_capacity(64, dev.handle()), format), &dev, &h, &l, format, false, o),
                        }
                    },
                );
            }
        });
    }
}
fn run_history<W: std::io::Write + std::io::Seek>(w: anyhow::Result<AsciiWriter<W>>, dev: &Chan, h: &[WOp], l: &PointLayout, format: &str, unbuffered: bool, o: &mut Obs) -> R {
    let mut w = w.map_err(|e| e.to_string())?;
    let (mut del, mut prec) = (", ", 5);
    let mut k = 0;
    // (delimiter, precision, point) of every line
    let mut model: Vec<(&str, usize, Pt)> = vec![];
    let check = |model: &[(&str, usize, Pt)]| -> R {
        let bytes = dev.bytes();
        let text = std::str::from_utf8(&bytes).map_err(|e| e.to_string())?;
        let lines: Vec<&str> = text.split_inclusive('\n').collect();
        ensure_eq!(lines.len(), model.len(), "number of lines");
        for (t, (d, pr, p)) in lines.iter().zip(model) {
            ensure!(t.ends_with('\n'), "unterminated line");
            line_ok(t.trim_end_matches('\n'), format, d, *pr, l, p)?;
        }
        Ok(())
    };
    for op in h {
        o.step();
        match op {
            WOp::Write(n) => {
                let p: Vec<Pt> = (k..k + n).map(wide).collect();
                k += n;
                with_buf!(KINDS[k % 5], l, &p, b, w.write(b).map_err(|e| e.to_string())?);
                model.extend(p.into_iter().map(|p| (del, prec, p)));
                if unbuffered {
                    check(&model)?;
                }
            }
            WOp::Flush => {
                w.flush().map_err(|e| e.to_string())?;
                check(&model)?;
            }
            WOp::Delimiter(d) => {
                w.set_delimiter(d);
                del = *d;
            }
            WOp::Precision(p) => {
                w.set_precision(*p);
                prec = *p;
            }
        }
    }
    drop(w);
    check(&model)
}

pub fn c31(_: bool) -> Vec<Shard> {
    let mut v = vec![];
    for first in LITERALS.chars() {
        v.push(shard(format!("formats-{first}"), move |cx| {
            let l = layout(0);
            for n in 0..=cx.tier(2, 3) {
                formats(n, &mut |f| {
                    let f = format!("{first}{f}");
                    for kind in if n < 2 { &KINDS[..] } else { &KINDS[..2] } {
                        cx.case(
                            || format!("format {f:?} {kind:?}"),
                            |o| {
                                o.state(&f);
                                write_case(*kind, &l, &f, &[wide(0), wide(1), wide(2)], o)
                            },
                        );
                    }
                });
            }
            // attribute datatypes
            let Some((a, _)) = col(first) else { return };
            let types: Vec<D> = if parts(a.datatype()).1 == 3 { vec![D::Vec3u8, D::Vec3u16, D::Vec3i32, D::Vec3f32, D::Vec3f64] } else { vec![D::U8, D::I8, D::U16, D::I16, D::U32, D::I32, D::U64, D::I64, D::F32, D::F64] };
            for d in &types {
                for kind in KINDS {
                    for n in [0usize, 1, 3] {
                        cx.case(
                            || format!("{first} stored as {d}, {n} points, {kind:?}"),
                            |o| {
                                o.state(&(first, d, n, kind));
                                let l = PointLayout::from_attributes(&[WAVEFORM_PACKET_SIZE, a.with_custom_datatype(*d)]);
                                let mut p: Vec<Pt> = (0..n).map(point).collect();
                                for p in &mut p {
                                    p.insert(WAVEFORM_PACKET_SIZE.name().into(), vec![9.0]);
                                }
                                match write_case(kind, &l, &first.to_string(), &p, o) {
                                    // points with another datatype may be refused, but not written as something else
                                    Err(e) if *d != a.datatype() && e.starts_with("refused") => Ok(()),
                                    r => r,
                                }
                            },
                        );
                    }
                }
            }
            // values that need the width of the stored type
            if parts(a.datatype()).1 == 1 && !is_float(first) {
                let values: Vec<f64> = if is_flag(first) { vec![2.0, 4.0, 128.0, 254.0, 255.0] } else { vec![255.0, 256.0, 65535.0, 65536.0, 2147483648.0, 4294967296.0, 1099511627777.0, 9007199254740992.0, -1.0, -129.0, -40000.0] };
                for d in [D::U8, D::U16, D::I16, D::U32, D::I32, D::U64, D::I64] {
                    for v in &values {
                        if cast(d, &[*v]) != [*v] || (is_flag(first) && d != a.datatype()) || (*v < 0.0 && first != 'a') {
                            continue;
                        }
                        cx.case(
                            || format!("{first} stored as {d} with the value {v}"),
                            |o| {
                                o.state(&(first, d, v.to_bits(), "wide"));
                                o.step();
                                let l = PointLayout::from_attributes(&[a.with_custom_datatype(d), WAVEFORM_PACKET_SIZE]);
                                let mut p = Pt::new();
                                p.insert(a.name().into(), vec![*v]);
                                let dev = Chan::new(vec![]);
                                let mut w = AsciiWriter::from_write(dev.handle(), &first.to_string()).map_err(|e| e.to_string())?;
                                if w.write(&vector(&l, &[p])).is_err() && d != a.datatype() {
                                    return Ok(());
                                }
                                let bytes = dev.bytes();
                                let text = std::str::from_utf8(&bytes).map_err(|e| e.to_string())?;
                                column_ok(first, text, *v, 5)
                            },
                        );
                    }
                }
            }
            // columns that the points cannot provide are errors, not made-up text
            let mut bad = vec![("without the attribute".to_string(), PointLayout::from_attributes(&[WAVEFORM_PACKET_SIZE]))];
            let other = if parts(a.datatype()).1 == 3 { vec![D::U8, D::F64, D::Vec4u8] } else { vec![D::Vec3f64, D::Vec3u8, D::Vec4u8] };
            for d in other {
                bad.push((format!("stored as {d}"), PointLayout::from_attributes(&[a.with_custom_datatype(d)])));
            }
            for (what, l) in bad {
                for kind in KINDS {
                    cx.case(
                        || format!("{first} from points {what}, {kind:?}"),
                        |o| {
                            o.step();
                            let mut w = AsciiWriter::from_write(Chan::new(vec![]), &first.to_string()).map_err(|e| e.to_string())?;
                            let r = with_buf!(kind, &l, &[Pt::new(), Pt::new()], b, guard(|| w.write(b)));
                            ensure!(!matches!(r, Ok(Ok(()))), "write must be refused");
                            Ok(())
                        },
                    );
                }
            }
        }));
    }
    v.push(shard("precision", |cx| {
        let values = [
            0.0, -0.0, 1.0, 10.0, 100.0, 1000.0, 20.0, 1000.5, 0.1, 0.05, 0.5, 1.5, 2.5, -0.004, 0.04, 0.004, 123456.789, -987654.321, 1e15, 1e-7, 99.99, 9.995, 0.99999999, 1.0 / 3.0, 123.012345678901, -1e-11, 5e-12, 4294967296.0, 1e22, f64::MAX, f64::MIN_POSITIVE, f64::NAN, f64::INFINITY, f64::NEG_INFINITY,
        ];
        for c in ['x', 'y', 'z', 't'] {
            for precision in 0..=12usize {
                for value in values {
                    for f in [format!("{c}"), format!("{c}i"), format!("i{c}c")] {
                        cx.case(
                            || format!("{value} in format {f} with {precision} decimals"),
                            |o| {
                                o.step();
                                o.state(&(c, precision, value.to_bits()));
                                let l = layout(0);
                                let mut p = point(1);
                                let (a, i) = col(c).unwrap();
                                p.get_mut(a.name()).unwrap()[i] = value;
                                let dev = Chan::new(vec![]);
                                let mut w = AsciiWriter::from_write(dev.handle(), &f).map_err(|e| e.to_string())?;
                                w.set_precision(precision);
                                w.write(&vector(&l, &[p.clone()])).map_err(|e| e.to_string())?;
                                text_ok(&dev.bytes(), &f, ", ", precision, &l, &[p])
                            },
                        );
                    }
                }
            }
        }
    }));
    v.push(shard("delimiter", |cx| {
        for d in [",", ", ", ";", " ", "\t", " | ", "#", "::", "x", "ä", "→"] {
            for n in 1..=2 {
                formats(n, &mut |f| {
                    cx.case(
                        || format!("delimiter {d:?}, format {f:?}"),
                        |o| {
                            o.step();
                            o.state(&(d, &f));
                            let dev = Chan::new(vec![]);
                            let mut w = AsciiWriter::from_write(dev.handle(), &f).map_err(|e| e.to_string())?;
                            w.set_delimiter(d);
                            let (l, p) = (layout(0), [wide(0), wide(1)]);
                            w.write(&hashmap(&l, &p)).map_err(|e| e.to_string())?;
                            text_ok(&dev.bytes(), &f, d, 5, &l, &p)
                        },
                    );
                });
            }
        }
    }));
    for first in 0..8 {
        v.push(shard(format!("history-{first}"), move |cx| c31_history(cx, first)));
    }
    for n in [49_999usize, 50_000, 50_001, 100_000, 100_001] {
        v.push(shard(format!("large-{n}"), move |cx| {
            for kind in [Kind::Vector, Kind::HashMap] {
                cx.case(
                    || format!("{n} points, {kind:?}"),
                    |o| {
                        o.state(&n);
                        let l = PointLayout::from_attributes(&[CLASSIFICATION, POINT_SOURCE_ID, GPS_TIME]);
                        let p: Vec<Pt> = (0..n)
                            .map(|i| {
                                let mut p = Pt::new();
                                p.insert(POINT_SOURCE_ID.name().into(), vec![(i % 65536) as f64]);
                                p.insert(CLASSIFICATION.name().into(), vec![(i / 65536) as f64]);
                                p
                            })
                            .collect();
                        let dev = Chan::new(vec![]);
                        let mut w = AsciiWriter::from_write(BufWriter::new(dev.handle()), "pcu".trim_end_matches('u')).map_err(|e| e.to_string())?;
                        with_buf!(kind, &l, &p, b, w.write(b).map_err(|e| e.to_string())?);
                        w.flush().map_err(|e| e.to_string())?;
                        let bytes = dev.bytes();
                        let text = std::str::from_utf8(&bytes).unwrap();
                        let mut k = 0;
                        for (i, line) in text.lines().enumerate() {
                            ensure_eq!(line, format!("{}, {}", i % 65536, i / 65536), "line {i}");
                            k += 1;
                        }
                        o.steps(k as u64);
                        ensure_eq!(k, n, "number of lines");
                        Ok(())
                    },
                );
            }
        }));
    }
    v.push(shard("short writes", |cx| {
        // an output that takes only some bytes at a time: every literal alone and all of them
        let mut formats: Vec<String> = LITERALS.chars().filter(|c| *c != 's').map(String::from).collect();
        formats.push(LITERALS.replace('s', ""));
        formats.push(LITERALS.chars().rev().filter(|c| *c != 's').collect());
        for f in formats {
            for chunk in [1usize, 2, 4] {
                for (delimiter, precision) in [(", ", 5usize), (" -- ", 0), ("", 3), ("\u{20ac}", 12)] {
                    if delimiter.is_empty() && f.len() > 1 {
                        continue;
                    }
                    cx.case(
                        || format!("format {f:?}, {chunk} bytes per write, delimiter {delimiter:?}, precision {precision}"),
                        |o| {
                            o.step();
                            o.state(&(&f, chunk, delimiter));
                            let l = layout(0);
                            let p: Vec<Pt> = (0..4).map(|k| if k < 2 { wide(k) } else { point(k) }).collect();
                            let dev = Chan::new(vec![]);
                            let mut w = AsciiWriter::from_write(dev.handle().chunked(chunk), &f).map_err(|e| e.to_string())?;
                            w.set_delimiter(delimiter);
                            w.set_precision(precision);
                            w.write(&vector(&l, &p)).map_err(|e| format!("refused: {e}"))?;
                            w.flush().map_err(|e| e.to_string())?;
                            text_ok(&dev.bytes(), &f, if delimiter.is_empty() { "no delimiter" } else { delimiter }, precision, &l, &p)
                        },
                    );
                }
            }
        }
    }));
    v.push(shard("literals", |cx| format_strings(cx, |f| AsciiWriter::from_write(Chan::new(vec![]), f).is_ok())));
    v.push(shard("by path", |cx| {
        let dir = Dir::new();
        let l = layout(0);
        for n in 1..=2 {
            formats(n, &mut |f| {
                for (kind, before) in [(0, None), (1, Some(1usize)), (2, Some(5000))] {
                    for counts in [&[][..], &[0], &[3], &[1, 2]] {
                        let path = dir.0.join(["a.txt", "b", "c.las"][kind]);
                        cx.case(
                            || format!("format {f:?}, {before:?} bytes before, writes of {counts:?} points"),
                            |o| {
                                o.state(&(&f, before, counts));
                                o.step();
                                let _ = std::fs::remove_file(&path);
                                if let Some(n) = before {
                                    std::fs::write(&path, vec![b'7'; n]).map_err(|e| e.to_string())?;
                                }
                                let mut p: Vec<Pt> = vec![];
                                {
                                    let mut w = AsciiWriter::from_path(&path, &f).map_err(|e| e.to_string())?;
                                    for n in counts {
                                        let new: Vec<Pt> = (p.len()..p.len() + n).map(point).collect();
                                        with_buf!(KINDS[kind], &l, &new, b, w.write(b).map_err(|e| format!("refused: {e}"))?);
                                        p.extend(new);
                                    }
                                    w.flush().map_err(|e| e.to_string())?;
                                    let bytes = std::fs::read(&path).map_err(|e| e.to_string())?;
                                    text_ok(&bytes, &f, ", ", 5, &l, &p)?;
                                }
                                text_ok(&std::fs::read(&path).map_err(|e| e.to_string())?, &f, ", ", 5, &l, &p)
                            },
                        );
                    }
                }
            });
        }
        for f in ["xyz", "?"] {
            for what in ["a directory", "in no directory"] {
                let path = if what == "a directory" { dir.0.clone() } else { dir.0.join("none").join("a.txt") };
                cx.case(
                    || format!("format {f}, path is {what}"),
                    |o| {
                        o.step();
                        ensure!(no_panic(|| "from_path".into(), || AsciiWriter::from_path(&path, f).is_err())?, "must be an error");
                        Ok(())
                    },
                );
            }
        }
    }));
    v
}

/// Exactly the documented literals are accepted
fn format_strings(cx: &mut Cx, accepted: impl Fn(&str) -> bool) {
    let chars: Vec<char> = (0u32..0x300).chain([0x3b1, 0x1d4c1, 0xff58]).filter_map(char::from_u32).collect();
    for c in &chars {
        for f in [format!("{c}"), format!("x{c}"), format!("{c}x"), format!("xy{c}i")] {
            cx.case(
                || format!("format {f:?}"),
                |o| {
                    o.step();
                    o.state(&f);
                    ensure_eq!(accepted(&f), LITERALS.contains(*c), "format {f:?} accepted");
                    Ok(())
                },
            );
        }
    }
}

// ------------------------------------------------------------------------------------------ C32

fn token(c: char, v: f64) -> String {
    if is_float(c) {
        format!("{v:?}")
    } else {
        format!("{v}")
    }
}
fn line(format: &str, delimiter: &str, p: &Pt) -> String {
    format.chars().map(|c| col(c).map(|(a, i)| token(c, p[a.name()][i])).unwrap_or("?".into())).collect::<Vec<_>>().join(delimiter)
}
/// Attribute name → component values that a file with this format stores (`None`: the column is missing)
fn stored(format: &str) -> Vec<(PointAttributeDefinition, Vec<bool>)> {
    let mut v: Vec<(PointAttributeDefinition, Vec<bool>)> = vec![];
    for c in format.chars() {
        if let Some((a, i)) = col(c) {
            let k = v.iter().position(|x| x.0 == a).unwrap_or_else(|| {
                v.push((a.clone(), vec![false; parts(a.datatype()).1]));
                v.len() - 1
            });
            v[k].1[i] = true;
        }
    }
    v
}
fn points_ok<'a, B: BorrowedBuffer<'a>>(b: &B, at: usize, format: &str, p: &[Pt]) -> R {
    for (a, comps) in stored(format) {
        let Some(t) = b.point_layout().get_attribute_by_name(a.name()).map(|t| t.attribute_definition().clone()) else { continue };
        for (i, p) in p.iter().enumerate() {
            let got = take(b, at + i, &t);
            let want = cast(t.datatype(), &cast(a.datatype(), &p[a.name()]));
            for (c, present) in comps.iter().enumerate() {
                ensure!(!present || same(&got[c..c + 1], &want[c..c + 1]), "component {c} of {t} of point {}: got {got:?}, expected {want:?}", at + i);
            }
        }
    }
    Ok(())
}
fn default_ok(l: &PointLayout, format: &str) -> R {
    let want = stored(format);
    let got = defs(l);
    ensure!(got.len() == want.len() && want.iter().all(|w| got.contains(&w.0)), "default layout of format {format:?} is {l}");
    Ok(())
}
/// Sequence of `read_into` calls with the given counts; returns what was read
fn read_history<R2: std::io::BufRead, B: for<'x> BorrowedMutBuffer<'x>>(r: &mut AsciiReader<R2>, h: &[usize], format: &str, p: &[Pt], mut make: impl FnMut(usize) -> B, o: &mut Obs) -> R {
    let mut at = 0;
    for n in h {
        o.step();
        let mut b = make(n + 1);
        let got = r.read_into(&mut b, *n).map_err(|e| format!("read_into {n} at {at}: {e:?}"))?;
        let want = (*n).min(p.len() - at);
        ensure_eq!(got, want, "number of points returned by read_into({n}) with {} lines left", p.len() - at);
        points_ok(&b, 0, format, &p[at..at + want])?;
        at += want;
    }
    Ok(())
}
fn reader(text: &str, mode: usize, format: &str, delimiter: &str) -> R<AsciiReader<BufReader<Chan>>> {
    let dev = Chan::new(text.as_bytes().to_vec());
    let (chunk, cap) = [(usize::MAX, 8192), (1, 1), (3, 5)][mode];
    AsciiReader::from_read(BufReader::with_capacity(cap, dev.chunked(chunk)), format, delimiter).map_err(|e| format!("{e:?}"))
}

fn c32_bad(c: char) -> Vec<String> {
    let mut v: Vec<&str> = vec!["", "abc", "1x", "--1", "0x10", "1 2", "1,2", ".", "-", "NaN1", "\u{0}", "++5", "+-5", "+", "1_0", "5+"];
    if !is_float(c) {
        v.extend(["1.5", "1.0", "1e3", "NaN", "inf", "99999999999999999999"]);
        match c {
            'a' => v.extend(["128", "-129", "255", "1000"]),
            'e' | 'd' => v.extend(["2", "-1", "255", "256", "true"]),
            'r' | 'n' | 'c' | 'u' => v.extend(["256", "-1", "65536"]),
            _ => v.extend(["65536", "-1", "4294967296"]),
        }
    }
    v.into_iter().map(String::from).collect()
}
fn c32_good(c: char) -> Vec<(String, f64)> {
    let mut v = vec![("0", 0.0), ("1", 1.0)];
    if is_float(c) {
        v.extend([("1.5", 1.5), ("-2.25", -2.25), ("1e3", 1e3), ("1E-2", 1e-2), ("-0", -0.0), ("123456789.125", 123456789.125), ("inf", f64::INFINITY), ("NaN", f64::NAN), ("5", 5.0), (".5", 0.5), ("7.", 7.0), ("3.14159265358979323846264338327950288", 3.141592653589793), ("-0.1234567890123456789012345678", -0.12345678901234568), ("123456789012345678901234567890", 1.2345678901234568e29), ("0000000000000000000000001.1", 1.1)]);
    } else {
        match c {
            'a' => v.extend([("127", 127.0), ("-128", -128.0), ("-1", -1.0), ("+5", 5.0)]),
            'e' | 'd' => {}
            'r' | 'n' | 'c' | 'u' => v.extend([("255", 255.0), ("128", 128.0), ("007", 7.0), ("+5", 5.0)]),
            _ => v.extend([("65535", 65535.0), ("256", 256.0), ("32768", 32768.0)]),
        }
    }
    v.into_iter().map(|(a, b)| (a.to_string(), b)).collect()
}

pub fn c32(_: bool) -> Vec<Shard> {
    let mut v = vec![];
    for first in LITERALS.chars() {
        v.push(shard(format!("formats-{first}"), move |cx| {
            for n in 0..=cx.tier(2, 3) {
                formats(n, &mut |f| {
                    let f = format!("{first}{f}");
                    cx.case(
                        || format!("format {f:?}"),
                        |o| {
                            o.state(&f);
                            let p = [wide(0), wide(1), wide(2)];
                            let text: String = p.iter().map(|p| line(&f, ", ", p) + "\n").collect();
                            // into new buffers of the default layout
                            let mut r = reader(&text, 0, &f, ", ")?;
                            default_ok(r.get_default_point_layout(), &f)?;
                            let b: VectorBuffer = r.read(5).map_err(|e| format!("{e:?}"))?;
                            o.step();
                            ensure_eq!(b.len(), 3, "points in the buffer");
                            points_ok(&b, 0, &f, &p)?;
                            let b: HashMapBuffer = reader(&text, 1, &f, ", ")?.read(2).map_err(|e| format!("{e:?}"))?;
                            o.step();
                            ensure_eq!(b.len(), 2, "points in the buffer");
                            points_ok(&b, 0, &f, &p[..2])?;
                            // into a layout that has all attributes in another order
                            let l = layout(1);
                            let mut r = reader(&text, 2, &f, ", ")?;
                            read_history(&mut r, &[1, 2], &f, &p, |n| hashmap(&l, &vec![Pt::new(); n]), o)?;
                            // and in other types
                            let q = [point(0), point(1), point(2)];
                            let text: String = q.iter().map(|p| line(&f, ", ", p) + "\n").collect();
                            for k in [2, 3] {
                                let l = layout(k);
                                let mut r = reader(&text, 0, &f, ", ")?;
                                read_history(&mut r, &[2, 1], &f, &q, |n| vector(&l, &vec![Pt::new(); n]), o)?;
                            }
                            Ok(())
                        },
                    );
                });
            }
            let Some((a, comp)) = col(first) else { return };
            // tokens: every valid one gives its value, every malformed one is an error
            for (pre, post) in [("", ""), ("x", ""), ("", "i"), ("s", "s")] {
                let f = format!("{pre}{first}{post}");
                let text_of = |t: &str| f.chars().enumerate().map(|(i, c)| if i == pre.len() { t.to_string() } else { token(c, 3.0) }).collect::<Vec<_>>().join(";");
                let ok = "\n".to_string();
                for (t, value) in c32_good(first) {
                    cx.case(
                        || format!("format {f:?} line {:?}", text_of(&t)),
                        |o| {
                            o.step();
                            o.state(&(&f, &t));
                            let b: VectorBuffer = reader(&(text_of(&t) + &ok), 0, &f, ";")?.read(1).map_err(|e| format!("{e:?}"))?;
                            ensure_eq!(b.len(), 1, "points");
                            if (pre.contains(first) || post.contains(first)) && !is_float(first) {
                                return Ok(());
                            }
                            if pre.contains(first) || post.contains(first) {
                                return Ok(());
                            }
                            let got = take(&b, 0, &a)[comp];
                            ensure!(same(&[got], &[value]), "token {t:?}: got {got}, expected {value}");
                            Ok(())
                        },
                    );
                }
                for t in c32_bad(first) {
                    for good_lines in 0..3usize {
                        cx.case(
                            || format!("format {f:?} line {:?} behind {good_lines} valid ones", text_of(&t)),
                            |o| {
                                o.step();
                                o.state(&(&f, &t, good_lines));
                                let mut text: String = (0..good_lines).map(|_| text_of("1") + "\n").collect();
                                text += &(text_of(&t) + "\n" + &text_of("1") + "\n");
                                let mut r = reader(&text, good_lines, &f, ";")?;
                                let x = r.read::<VectorBuffer>(good_lines + 2);
                                ensure!(x.is_err(), "a malformed line must be an error, got {} points", x.unwrap().len());
                                Ok(())
                            },
                        );
                    }
                }
            }
        }));
    }
    v.push(shard("columns", |cx| {
        // lines with too few columns are errors
        for f in ["xy", "xyz", "ic", "xsi", "xyziRGB", "xs", "sxs", "iss"] {
            for have in 0..f.len() {
                cx.case(
                    || format!("format {f:?}, {have} columns"),
                    |o| {
                        o.step();
                        o.state(&(f, have));
                        let t = vec!["1"; have].join(",") + "\n";
                        let x = reader(&t, 0, f, ",")?.read::<VectorBuffer>(1);
                        ensure!(x.is_err(), "must be an error");
                        Ok(())
                    },
                );
            }
        }
        // surplus columns and trailing delimiters do not matter
        for f in ["x", "ic", "xyz", "sxs", "RGBI"] {
            for more in [",", ",,", ",1", ",abc", ",1,2,", ",1.5e"] {
                for lines in 1..4usize {
                    cx.case(
                        || format!("format {f:?}, {lines} lines that go on with {more:?}"),
                        |o| {
                            o.step();
                            o.state(&(f, more, lines));
                            let p: Vec<Pt> = (0..lines).map(wide).collect();
                            let t: String = p.iter().map(|p| line(f, ",", p) + more + "\n").collect();
                            let b: VectorBuffer = reader(&t, 0, f, ",")?.read(lines + 1).map_err(|e| format!("{e:?}"))?;
                            ensure_eq!(b.len(), lines, "points");
                            points_ok(&b, 0, f, &p)
                        },
                    );
                }
            }
        }
        // a line that is no UTF-8
        for f in ["x", "i"] {
            cx.case(
                || format!("invalid UTF-8, format {f}"),
                |o| {
                    o.step();
                    let mut r = AsciiReader::from_read(BufReader::new(&b"1\n\xff\n"[..]), f, ",").map_err(|e| e.to_string())?;
                    ensure!(r.read::<VectorBuffer>(2).is_err(), "must be an error");
                    Ok(())
                },
            );
        }
    }));
    for total in 0..5usize {
        v.push(shard(format!("history-{total}-lines"), move |cx| {
            let f = "xytciRGB";
            let p: Vec<Pt> = (0..total).map(wide).collect();
            let q: Vec<Pt> = (0..total).map(point).collect();
            let counts = [0usize, 1, 2, 4, 7];
            for n in 1..=cx.tier(3, 5) {
                words(counts.len(), n, &mut |w| {
                    let h: Vec<usize> = w.iter().map(|i| counts[*i]).collect();
                    for (ending, last) in [("\n", true), ("\n", false), ("\r\n", true)] {
                        for mode in 0..3 {
                            for target in 0..4usize {
                                cx.case(
                                    || format!("{total} lines ending with {ending:?} (last one: {last}), counts {h:?}, input mode {mode}, target {target}"),
                                    |o| {
                                        o.state(&(&h, ending, last, mode, target));
                                        let p = if target < 2 { &p } else { &q };
                                        let mut text: String = p.iter().map(|p| line(f, ", ", p) + ending).collect();
                                        if !last {
                                            text.truncate(text.trim_end_matches('\n').len());
                                        }
                                        let l = layout(target);
                                        let mut r = reader(&text, mode, f, ", ")?;
                                        if target % 2 == 0 {
                                            read_history(&mut r, &h, f, p, |n| vector(&l, &vec![Pt::new(); n]), o)
                                        } else {
                                            read_history(&mut r, &h, f, p, |n| hashmap(&l, &vec![Pt::new(); n]), o)
                                        }
                                    },
                                );
                            }
                        }
                    }
                });
            }
        }));
    }
    v.push(shard("targets", |cx| {
        // every column into every type of its attribute; impossible types are refused
        for c in LITERALS.chars().filter(|c| *c != 's') {
            let (a, _) = col(c).unwrap();
            let three = parts(a.datatype()).1 == 3;
            for d in [D::U8, D::I8, D::U16, D::I16, D::U32, D::I32, D::U64, D::I64, D::F32, D::F64, D::Vec3u8, D::Vec3u16, D::Vec3i32, D::Vec3f32, D::Vec3f64, D::Vec4u8] {
                for others in 0..3 {
                    cx.case(
                        || format!("column {c} into {d}, variant {others}"),
                        |o| {
                            o.step();
                            o.state(&(c, d, others));
                            let t = a.with_custom_datatype(d);
                            let l = match others {
                                0 => PointLayout::from_attributes(&[t.clone()]),
                                1 => PointLayout::from_attributes(&[WAVEFORM_PACKET_SIZE, t.clone()]),
                                _ => PointLayout::from_attributes_packed(&[t.clone(), WAVEFORM_PACKET_SIZE], 1),
                            };
                            let f = c.to_string();
                            let p = [point(0), point(1), point(2)];
                            let text: String = p.iter().map(|p| line(&f, ", ", p) + "\n").collect();
                            let possible = d == a.datatype() || (d != D::Vec4u8 && (parts(d).1 == 3) == three);
                            let mut r = reader(&text, 0, &f, ", ")?;
                            if possible {
                                read_history(&mut r, &[1, 4], &f, &p, |n| vector(&l, &vec![Pt::new(); n]), o)?;
                                let mut r = reader(&text, 0, &f, ", ")?;
                                return read_history(&mut r, &[2, 4], &f, &p, |n| hashmap(&l, &vec![Pt::new(); n]), o);
                            }
                            let mut b = vector(&l, &vec![Pt::new(); 3]);
                            let x = guard(|| r.read_into(&mut b, 3));
                            ensure!(!matches!(x, Ok(Ok(_))), "reading into a type without a conversion must be refused");
                            Ok(())
                        },
                    );
                }
            }
        }
    }));
    for first in LITERALS.chars() {
        v.push(shard(format!("roundtrip-{first}"), move |cx| {
            // what the writer writes is what the reader reads
            for n in 0..=cx.tier(1, 2) {
                formats(n, &mut |f| {
                    let f = format!("{first}{f}");
                    if f.contains('s') {
                        return;
                    }
                    cx.case(
                        || format!("write and read {f:?}"),
                        |o| {
                            o.step();
                            o.state(&f);
                            let p: Vec<Pt> = (0..4).map(wide).collect();
                            let l = layout(0);
                            let dev = Chan::new(vec![]);
                            let mut w = AsciiWriter::from_write(dev.handle(), &f).map_err(|e| e.to_string())?;
                            w.set_precision(8);
                            w.set_delimiter(";");
                            w.write(&vector(&l, &p)).map_err(|e| e.to_string())?;
                            let mut r = AsciiReader::from_read(BufReader::new(dev.handle()), &f, ";").map_err(|e| e.to_string())?;
                            read_history(&mut r, &[1, 3, 1], &f, &p, |n| vector(&l, &vec![Pt::new(); n]), o)
                        },
                    );
                });
            }
        }));
    }
    v.push(shard("literals", |cx| format_strings(cx, |f| AsciiReader::from_read(BufReader::new(&b""[..]), f, ",").is_ok())));
    v.push(shard("by path", |cx| {
        let dir = Dir::new();
        for n in 1..=2 {
            formats(n, &mut |f| {
                for (i, delimiter) in [", ", " | "].into_iter().enumerate() {
                    for total in [0usize, 1, 3] {
                        let path = dir.0.join(["a.txt", "b"][i]);
                        cx.case(
                            || format!("format {f:?}, delimiter {delimiter:?}, {total} lines"),
                            |o| {
                                o.state(&(&f, delimiter, total));
                                let p: Vec<Pt> = (0..total).map(point).collect();
                                let text: String = p.iter().map(|p| line(&f, delimiter, p) + "\n").collect();
                                std::fs::write(&path, text).map_err(|e| e.to_string())?;
                                let mut r = AsciiReader::from_path(&path, &f, delimiter).map_err(|e| e.to_string())?;
                                default_ok(r.get_default_point_layout(), &f)?;
                                for m in [r.get_metadata().clone_into_box().as_ref(), r.get_metadata()] {
                                    // Nothing is known about a text before reading it
                                    ensure!(m.bounds().is_none(), "bounds");
                                    ensure!(m.number_of_points().is_none_or(|n| n == total), "number of points");
                                    ensure!(m.get_named_field("").is_none(), "a field without name");
                                }
                                let l = r.get_default_point_layout().clone();
                                let at = total / 2;
                                read_history(&mut r, &[at, total - at, 1], &f, &p, |n| {
                                    let mut b = VectorBuffer::new_from_layout(l.clone());
                                    b.resize(n);
                                    b
                                }, o)
                            },
                        );
                    }
                }
            });
        }
        for (f, what) in [("xyz", "a directory"), ("xyz", "missing"), ("xyz", "in no directory"), ("?", "missing"), ("?", "a file")] {
            let path = match what {
                "a directory" => dir.0.clone(),
                "missing" => dir.0.join("missing"),
                "a file" => dir.0.join("file"),
                _ => dir.0.join("none").join("a.txt"),
            };
            cx.case(
                || format!("format {f}, path is {what}"),
                |o| {
                    o.step();
                    std::fs::write(dir.0.join("file"), "1\n").map_err(|e| e.to_string())?;
                    let failed = no_panic(
                        || "from_path".into(),
                        || match AsciiReader::from_path(&path, f, ", ") {
                            Ok(mut r) => {
                                let mut b = VectorBuffer::new_from_layout(r.get_default_point_layout().clone());
                                b.resize(1);
                                r.read_into(&mut b, 1).is_err()
                            }
                            Err(_) => true,
                        },
                    )?;
                    ensure!(failed, "must be an error");
                    Ok(())
                },
            );
        }
    }));
    v.push(shard("faults", |cx| {
        let p: Vec<Pt> = (0..6).map(wide).collect();
        let f = "xyzic";
        let text: String = p.iter().map(|p| line(f, ", ", p) + "\n").collect();
        let l = layout(0);
        for cap in [1usize, 7, 16, 64] {
            let ops = text.len().div_ceil(cap) + 2;
            for k in 0..ops {
                for kind in [ErrorKind::Other, ErrorKind::Interrupted, ErrorKind::UnexpectedEof] {
                    cx.case(
                        || format!("read operation {k} of {cap} bytes fails with {kind:?}"),
                        |o| {
                            o.step();
                            o.state(&(cap, k, kind));
                            let dev = Chan::new(text.clone().into_bytes()).failing(k, kind == ErrorKind::Interrupted, kind);
                            let mut r = AsciiReader::from_read(BufReader::with_capacity(cap, dev.handle()), f, ", ").map_err(|e| e.to_string())?;
                            let mut b = vector(&l, &vec![Pt::new(); 6]);
                            let x = r.read_into(&mut b, 6);
                            if dev.failures() == 0 || kind == ErrorKind::Interrupted {
                                ensure_eq!(x.map_err(|e| format!("{e:?}"))?, 6, "points");
                                points_ok(&b, 0, f, &p)
                            } else {
                                ensure!(x.is_err(), "the failure of the input must be reported");
                                Ok(())
                            }
                        },
                    );
                }
            }
        }
    }));
    v
}
