//! LAS metadata (variable length records, named fields) and point formats against layouts.
use crate::io::{words, Chan};
use crate::las::{attrs, exact, fmt, layout_of, vlr, File, Rec, SIZES};
use fw::*;
use las::point::Format;
use pasture_core::layout::attributes as at;
use pasture_core::layout::*;
use pasture_core::math::AABB;
use pasture_core::meta::Metadata;
use pasture_core::nalgebra::Point3;
use pasture_io::base::PointReader;
use pasture_io::las::*;
use std::convert::{TryFrom, TryInto};
use PointAttributeDataType as D;

fn to_las(v: &Rec) -> las::Vlr {
    las::Vlr { user_id: v.user.clone(), record_id: v.id, description: v.desc.clone(), data: v.data.clone() }
}
fn type_of(n: u8) -> Option<D> {
    Some(match n {
        1 => D::U8,
        2 => D::I8,
        3 => D::U16,
        4 => D::I16,
        5 => D::U32,
        6 => D::I32,
        7 => D::U64,
        8 => D::I64,
        9 => D::F32,
        10 => D::F64,
        _ => return None,
    })
}
/// An entry of the Extra Bytes VLR, as in table 27 of the specification
#[derive(Clone, Debug)]
struct Entry {
    kind: u8,
    options: u8,
    name: Vec<u8>,
    desc: Vec<u8>,
    no_data: [u8; 8],
    min: [u8; 8],
    max: [u8; 8],
    scale: f64,
    offset: f64,
}
impl Entry {
    fn bytes(&self) -> Vec<u8> {
        let mut b = vec![0u8; 192];
        b[2] = self.kind;
        b[3] = self.options;
        b[4..4 + self.name.len()].copy_from_slice(&self.name);
        b[40..48].copy_from_slice(&self.no_data);
        b[64..72].copy_from_slice(&self.min);
        b[88..96].copy_from_slice(&self.max);
        b[112..120].copy_from_slice(&self.scale.to_le_bytes());
        b[136..144].copy_from_slice(&self.offset.to_le_bytes());
        b[160..160 + self.desc.len()].copy_from_slice(&self.desc);
        b
    }
}
fn check_entry(what: &str, e: &ExtraBytesEntry, w: &Entry) -> R {
    let code: u8 = e.data_type().into();
    ensure_eq!(code, w.kind, "{what}: data type");
    let bit = |i: u32| w.options >> i & 1 == 1;
    let o = e.options();
    ensure_eq!(
        [o.no_data_is_relevant(), o.min_is_relevant(), o.max_is_relevant(), o.use_scale(), o.use_offset()],
        [bit(0), bit(1), bit(2), bit(3), bit(4)],
        "{what}: options"
    );
    ensure_eq!(e.name().as_bytes(), &w.name[..], "{what}: name");
    ensure_eq!(e.description().as_bytes(), &w.desc[..], "{what}: description");
    ensure_eq!(e.scale().map(f64::to_bits), bit(3).then_some(w.scale.to_bits()), "{what}: scale");
    ensure_eq!(e.offset().map(f64::to_bits), bit(4).then_some(w.offset.to_bits()), "{what}: offset");
    ensure_eq!(e.min_value_raw(), w.min, "{what}: raw minimum");
    ensure_eq!(e.max_value_raw(), w.max, "{what}: raw maximum");
    ensure_eq!(e.no_data_value_raw(), w.no_data, "{what}: raw no-data value");
    let (un, sig, fl) = ([1, 3, 5, 7].contains(&w.kind), [2, 4, 6, 8].contains(&w.kind), [9, 10].contains(&w.kind));
    ensure_eq!(
        (e.data_type().is_unsigned(), e.data_type().is_signed(), e.data_type().is_floating_point()),
        (un, sig, fl),
        "{what}: kind of the type"
    );
    ensure_eq!(e.data_type().size(), type_of(w.kind).map(|d| d.size() as usize), "{what}: size of the type");
    for (n, raw, u, s, f) in [
        ("minimum", w.min, e.min_as_unsigned(), e.min_as_signed(), e.min_as_float()),
        ("maximum", w.max, e.max_as_unsigned(), e.max_as_signed(), e.max_as_float()),
        ("no-data value", w.no_data, e.no_data_value_as_unsigned(), e.no_data_value_as_signed(), e.no_data_value_as_float()),
    ] {
        ensure_eq!(u.ok(), un.then(|| u64::from_le_bytes(raw)), "{what}: {n} as unsigned");
        ensure_eq!(s.ok(), sig.then(|| i64::from_le_bytes(raw)), "{what}: {n} as signed");
        ensure_eq!(f.ok().map(f64::to_bits), fl.then(|| u64::from_le_bytes(raw)), "{what}: {n} as float");
    }
    match (e.get_point_attribute(), type_of(w.kind)) {
        (Ok(a), Some(d)) => {
            ensure_eq!(a.name().as_bytes(), &w.name[..], "{what}: name of the attribute");
            ensure_eq!(a.datatype(), d, "{what}: type of the attribute");
        }
        (Err(_), None) => (),
        (a, d) => return Err(format!("{what}: attribute {a:?}, expected type {d:?}")),
    }
    // the text names what is relevant
    let text = no_panic(|| format!("{what}: Display"), || format!("{e}"))?;
    ensure!(text.contains(e.name()), "{what}: {text:?} has no name");
    let shown = |raw: [u8; 8]| {
        if un {
            format!("{}", u64::from_le_bytes(raw))
        } else if sig {
            format!("{}", i64::from_le_bytes(raw))
        } else if fl {
            format!("{}", f64::from_le_bytes(raw))
        } else {
            format!("{raw:#?}")
        }
    };
    for (i, label, v) in [
        (0, "No-data value", shown(w.no_data)),
        (1, "Min", shown(w.min)),
        (2, "Max", shown(w.max)),
        (3, "Scale", w.scale.to_string()),
        (4, "Offset", w.offset.to_string()),
    ] {
        ensure_eq!(text.contains(label), bit(i), "{what}: {label} in {text:?}");
        if bit(i) {
            let raw = if !un && !sig && !fl && i < 3 { " (raw bytes)" } else { "" };
            ensure!(text.contains(&format!("{label}{raw}: {v}")), "{what}: {label} is {v}, the text is {text:?}");
        }
    }
    Ok(())
}
fn check_vlr(what: &str, v: &ExtraBytesVlr, want: &[Entry], o: &mut Obs) -> R {
    ensure_eq!(v.entries().len(), want.len(), "{what}: entries");
    for (i, (e, w)) in v.entries().iter().zip(want).enumerate() {
        check_entry(&format!("{what}, entry {i}"), e, w)?;
        o.step();
    }
    no_panic(|| format!("{what}: Display of the VLR"), || format!("{v}"))?;
    let back: las::Vlr = v.try_into().map_err(|e: anyhow::Error| format!("{what}: into a VLR: {e:#}"))?;
    ensure_eq!((&back.user_id[..], back.record_id), ("LASF_Spec", 4), "{what}: ID of the VLR");
    let bytes: Vec<u8> = want.iter().flat_map(|w| w.bytes()).collect();
    ensure!(back.data == bytes, "{what}: the written VLR is {:?}, expected {bytes:?}", back.data);
    o.state(&bytes);
    Ok(())
}
fn names() -> Vec<String> {
    let mut v: Vec<String> = ["", "a", "height above ground", "ü"].iter().map(|s| s.to_string()).collect();
    v.push("n".repeat(31));
    v.push("m".repeat(32));
    v
}
fn raw(k: usize, kind: u8) -> [u8; 8] {
    if kind == 9 || kind == 10 {
        return [0.5f64, -1e300, f64::NAN, f64::INFINITY, -0.0, 123456.75][k % 6].to_le_bytes();
    }
    [7u64, u64::MAX - 5, 1 << 63, 300][k % 4].to_le_bytes()
}

/// Variable length records and named fields
pub fn c43(_: bool) -> Vec<Shard> {
    let mut v = vec![shard("extra bytes: every type and option", |cx| {
        for kind in 0..=255u8 {
            for options in (0..32u8).chain([0x20, 0x40, 0x80, 0xe5, 0xff]) {
                for k in 0..cx.tier(2, 12) {
                    cx.case(
                        || format!("type {kind}, options {options:05b}, values {k}"),
                        |o| {
                            let w = Entry {
                                kind,
                                options,
                                name: names()[(k + 1 + options as usize) % names().len()].clone().into_bytes(),
                                desc: names()[(k + kind as usize) % names().len()].clone().into_bytes(),
                                no_data: raw(k, kind),
                                min: raw(k + 1, kind),
                                max: raw(k + 2, kind),
                                scale: [0.5, -2.25, 1e9][k % 3],
                                offset: [100.5, 0.125, -1e-3][k % 3],
                            };
                            let r = vlr("LASF_Spec", 4, "", w.bytes());
                            let v = ExtraBytesVlr::try_from(&to_las(&r)).map_err(|e| format!("{e:#}"))?;
                            check_vlr("entry from its bytes", &v, &[w], o)
                        },
                    );
                }
            }
        }
    })];
    v.push(shard("extra bytes: histories of the builder", |cx| {
        let top = cx.tier(3, 4);
        for kind in 0..=10u8 {
            for n in 0..=top {
                words(10, n, &mut |h| {
                    cx.case(
                        || format!("type {kind}, calls {h:?}"),
                        |o| {
                            let mut w = Entry {
                                kind,
                                options: 0,
                                name: names()[1 + h.len()].clone().into_bytes(),
                                desc: names()[5 - h.len()].clone().into_bytes(),
                                no_data: [0; 8],
                                min: [0; 8],
                                max: [0; 8],
                                scale: 0.,
                                offset: 0.,
                            };
                            let text = |b: &[u8]| String::from_utf8(b.to_vec()).unwrap();
                            let mut b = ExtraBytesEntryBuilder::new(kind.into(), text(&w.name), text(&w.desc));
                            for i in h {
                                let (which, k) = (i / 2, i % 2);
                                let (f, r) = ([2.5, -0.75][k], raw(k, kind));
                                w.options |= 1 << which;
                                match which {
                                    0 => (b, w.no_data) = (b.no_data_value(r), r),
                                    1 => (b, w.min) = (b.min_data_value(r), r),
                                    2 => (b, w.max) = (b.max_data_value(r), r),
                                    3 => (b, w.scale) = (b.with_scale(f), f),
                                    _ => (b, w.offset) = (b.with_offset(f), f),
                                }
                            }
                            let one = b.build();
                            check_entry("built", &one, &w)?;
                            for n in 0..3 {
                                let v: ExtraBytesVlr = std::iter::repeat(one.clone()).take(n).collect();
                                check_vlr("built", &v, &vec![w.clone(); n], o)?;
                                let back: las::Vlr = (&v).try_into().map_err(|e: anyhow::Error| format!("{e:#}"))?;
                                let v = ExtraBytesVlr::try_from(&back).map_err(|e| format!("parsing what was written: {e:#}"))?;
                                check_vlr("built, written and parsed", &v, &vec![w.clone(); n], o)?;
                            }
                            Ok(())
                        },
                    );
                });
            }
        }
    }));
    v.push(shard("extra bytes: long names", |cx| {
        // only the first bytes fit into the record; it can still be read
        for n in [33usize, 34, 63, 64, 65, 200] {
            for k in 0..8 {
                let mut name: Vec<char> = (0..n).map(|i| char::from(b'a' + (i % 26) as u8)).collect();
                if k > 0 {
                    // a character of several bytes at the end of what fits
                    name[[0, 31, 30, 29, 28, 31, 30, 29][k]] = if k < 5 { 'ü' } else { '→' };
                }
                let name: String = name.into_iter().collect();
                for (a, b) in [(&name[..], "short"), ("short", &name[..]), (&name, &name)] {
                    cx.case(
                        || format!("name {a:?}, description {b:?}"),
                        |o| {
                            o.step();
                            o.state(&(a, b));
                            let one = ExtraBytesEntryBuilder::new(3.into(), a.into(), b.into()).build();
                            let v: ExtraBytesVlr = [one.clone(), one].into_iter().collect();
                            let back: las::Vlr = (&v).try_into().map_err(|e: anyhow::Error| format!("{e:#}"))?;
                            ensure_eq!(back.data.len(), 384, "size of the record");
                            let v = ExtraBytesVlr::try_from(&back).map_err(|e| format!("parsing what was written: {e:#}"))?;
                            ensure_eq!(v.entries().len(), 2, "entries");
                            let cut = |s: &str| s.char_indices().take_while(|(i, c)| i + c.len_utf8() <= 32).map(|x| x.1).collect::<String>();
                            for e in v.entries() {
                                ensure_eq!(e.name(), cut(a), "name");
                                ensure_eq!(e.description(), cut(b), "description");
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
    }));
    v.push(shard("wrong records", |cx| {
        let lookup: usize = 256 * 16;
        for user in ["LASF_Spec", "LASF_Projection", "", "lasf_spec"] {
            for id in [0u16, 1, 3, 4, 5, 65535] {
                for len in [0usize, 1, 15, 16, 191, 192, 193, 384, lookup - 1, lookup, lookup + 1, 2 * lookup] {
                    cx.case(
                        || format!("user {user:?}, record {id}, {len} bytes"),
                        |o| {
                            let r = to_las(&vlr(user, id, "", vec![b'x'; len]));
                            let spec = user == "LASF_Spec";
                            let c = no_panic(|| "lookup".into(), || ClassificationLookup::try_from(&r).is_ok())?;
                            ensure_eq!(c, spec && id == 0 && len == lookup, "a Classification Lookup");
                            let t = no_panic(|| "text".into(), || TextAreaDescription::try_from(&r).is_ok())?;
                            ensure_eq!(t, spec && id == 3, "a Text Area Description");
                            let e = no_panic(|| "extra".into(), || ExtraBytesVlr::try_from(&r).is_ok())?;
                            ensure_eq!(e, spec && id == 4 && len % 192 == 0, "an Extra Bytes record");
                            o.step();
                            Ok(())
                        },
                    );
                }
            }
        }
    }));
    v.push(shard("classification lookup", |cx| {
        for len in 0..=15usize {
            for order in 0..3u8 {
                cx.case(
                    || format!("descriptions of {len} bytes, order {order}"),
                    |o| {
                        let class = |i: usize| match order {
                            0 => i as u8,
                            1 => 255 - i as u8,
                            _ => (i as u8).wrapping_mul(7),
                        };
                        let word = |i: usize| -> String { (0..(len + i) % 16).map(|j| (b'a' + ((i + j) % 26) as u8) as char).collect() };
                        let data: Vec<u8> = (0..256)
                            .flat_map(|i| {
                                let mut b = vec![class(i)];
                                b.extend(word(i).bytes());
                                b.resize(16, 0);
                                b
                            })
                            .collect();
                        o.state(&data);
                        let l = ClassificationLookup::try_from(&to_las(&vlr("LASF_Spec", 0, "", data))).map_err(|e| format!("{e:#}"))?;
                        ensure_eq!(l.entries().len(), 256, "entries");
                        let text = no_panic(|| "Display".into(), || format!("{l}"))?;
                        let lines: Vec<&str> = text.lines().collect();
                        for (i, e) in l.entries().iter().enumerate() {
                            ensure_eq!(e.classification, class(i), "class of entry {i}");
                            ensure_eq!(e.description, word(i), "description of entry {i}");
                            ensure!(lines[i + 1].contains(&word(i)), "line {i} of the text: {:?}", lines[i + 1]);
                            o.step();
                        }
                        Ok(())
                    },
                );
            }
        }
    }));
    v.push(shard("metadata of files", |cx| {
        let mut table = vec![0u8; 4096];
        for i in 0..256 {
            table[i * 16] = i as u8;
            table[i * 16 + 1] = b'd';
        }
        let good = [vlr("LASF_Spec", 0, "c", table), vlr("LASF_Spec", 3, "t", b"some text".to_vec())];
        let bad = [vlr("LASF_Spec", 0, "c", vec![1, 2]), vlr("LASF_Spec", 3, "t", vec![0xFF, 0xFE]), vlr("LASF_Spec", 4, "e", vec![0; 191])];
        let other = [vlr("user", 3, "u", vec![0xFF]), vlr("user", 4, "u", vec![1]), vlr("user", 0, "u", vec![])];
        let entry = Entry { kind: 3, options: 0, name: b"x".to_vec(), desc: vec![], no_data: [0; 8], min: [0; 8], max: [0; 8], scale: 0., offset: 0. };
        let extra = vlr("LASF_Spec", 4, "e", entry.bytes());
        let all: Vec<Rec> = good.iter().chain([&extra]).chain(&bad).chain(&other).cloned().collect();
        for n in 0..=cx.tier(3, 4) {
            words(all.len(), n, &mut |h| {
                cx.case(
                    || format!("records {h:?}"),
                    |o| {
                        let file = File { vlrs: h.iter().map(|i| all[*i].clone()).collect(), ..File::new(1) };
                        let pts: Vec<_> = (0..n).map(|k| crate::las::point(&file, 4 + k)).collect();
                        let bytes = file.bytes(&pts);
                        o.state(&h.to_vec());
                        // the first record of each kind decides
                        let first = |id: u16| file.vlrs.iter().find(|v| v.user == "LASF_Spec" && v.id == id);
                        let fine = [0, 3, 4].iter().all(|id| first(*id).map_or(true, |v| !bad.contains(v)));
                        let r = no_panic(|| "opening".into(), || LASReader::from_read(Chan::new(bytes.clone()), false, false))?;
                        ensure_eq!(r.is_ok(), fine, "the file opens");
                        let Ok(r) = r else { return Ok(()) };
                        let m = r.las_metadata();
                        ensure_eq!(m.classification_lookup_vlr().is_some(), first(0).is_some(), "has a Classification Lookup");
                        ensure_eq!(m.text_area_description_vlr().map(|t| t.text().trim_end_matches('\0')), first(3).map(|_| "some text"), "text");
                        ensure_eq!(m.extra_bytes_vlr().map(|e| e.entries().len()), first(4).map(|v| v.data.len() / 192), "entries of the Extra Bytes");
                        ensure_eq!(m.point_count(), n, "number of points");
                        ensure_eq!(m.number_of_points(), Some(n), "number of points");
                        ensure_eq!(m.point_format(), Format::new(1).unwrap(), "format");
                        ensure_eq!(r.get_metadata().number_of_points(), Some(n), "number of points of the reader");
                        let text = no_panic(|| "Display".into(), || format!("{m}"))?;
                        ensure!(text.contains("some text") == (first(3).is_some()), "text area in {text:?}");
                        let copy = m.clone_into_box();
                        ensure_eq!(copy.bounds(), m.bounds(), "bounds of the copy");
                        if n > 0 {
                            let b = m.bounds().ok_or("no bounds")?;
                            let p: Vec<Point3<f64>> = pts.iter().map(|p| &p["Position3D"]).map(|v| Point3::new(v[0], v[1], v[2])).collect();
                            let w = p.iter().fold(AABB::from_min_max(p[0], p[0]), |b, p| AABB::union(&b, &AABB::from_min_max(*p, *p)));
                            ensure_eq!(b, w, "bounds");
                        }
                        Ok(())
                    },
                );
            });
        }
    }));
    v.push(shard("named fields", |cx| {
        use named_fields::*;
        let leap = |y: u16| y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
        for year in cx.tier(&[0u16, 1900, 2000, 2020, 2021][..], &[0, 1, 1900, 1999, 2000, 2020, 2021, 2100, 9999, 65535][..]) {
            for day in 0..=367u16 {
                cx.case(
                    || format!("day {day} of {year}"),
                    |o| {
                        let file = File::new((day % 11) as u8);
                        let mut b = file.bytes(&[]);
                        let id = day * 178 + 3;
                        b[4..6].copy_from_slice(&id.to_le_bytes());
                        b[90..92].copy_from_slice(&day.to_le_bytes());
                        b[92..94].copy_from_slice(&year.to_le_bytes());
                        let Ok(r) = LASReader::from_read(Chan::new(b), false, false) else {
                            // a date that does not exist; las-rs decides
                            ensure!(day == 0 || day > 365, "a file of day {day} of {year} does not open");
                            return Ok(());
                        };
                        let m = r.las_metadata();
                        let field = |n: &str| m.get_named_field(n);
                        let u = |n: &str| field(n).and_then(|b| b.downcast::<u16>().ok()).map(|b| *b);
                        let s = |n: &str| field(n).and_then(|b| b.downcast::<String>().ok()).map(|b| *b);
                        let exists = day > 0 && day <= 365 + leap(*year) as u16;
                        if exists && *year > 0 {
                            ensure_eq!(u(FILE_CREATION_DAY_OF_YEAR), Some(day), "day of the year");
                            ensure_eq!(u(FILE_CREATION_YEAR), Some(*year), "year");
                        }
                        if day == 0 && *year == 0 {
                            ensure!(field(FILE_CREATION_YEAR).is_none() && field(FILE_CREATION_DAY_OF_YEAR).is_none(), "a date without a date");
                        }
                        ensure_eq!(u(FILE_SOURCE_I_D), Some(id), "file source ID");
                        ensure_eq!(s(VERSION), Some("1.4".to_string()), "version");
                        ensure_eq!(s(SYSTEM_IDENTIFIER), Some("system".to_string()), "system identifier");
                        ensure_eq!(s(GENERATING_SOFTWARE), Some("software".to_string()), "generating software");
                        ensure!(field("").is_none() && field("LASFIELD_version").is_none(), "an unknown field exists");
                        no_panic(|| "Display".into(), || format!("{m}"))?;
                        let c = m.clone();
                        ensure!(c.raw_las_header().is_some(), "no raw header");
                        let made = LASMetadata::new(m.bounds().unwrap(), day as usize, m.point_format());
                        ensure_eq!((made.point_count(), made.bounds(), made.point_format()), (day as usize, m.bounds(), m.point_format()), "made from parts");
                        for f in [FILE_CREATION_DAY_OF_YEAR, FILE_CREATION_YEAR, FILE_SOURCE_I_D, VERSION, SYSTEM_IDENTIFIER, GENERATING_SOFTWARE] {
                            ensure!(made.get_named_field(f).is_none(), "{f} without a header");
                        }
                        o.step();
                        Ok(())
                    },
                );
            }
        }
    }));
    v.push(shard("bounds", |cx| {
        let a = [-2.5, 0., 1.25, 1e300];
        for i in 0..4usize.pow(6) {
            let c: Vec<f64> = (0..6).map(|k| a[i / 4usize.pow(k) % 4]).collect();
            if (0..3).any(|k| c[k] > c[k + 3]) {
                continue;
            }
            cx.case(
                || format!("box {c:?}"),
                |o| {
                    let b = AABB::from_min_max(Point3::new(c[0], c[1], c[2]), Point3::new(c[3], c[4], c[5]));
                    let l = pasture_bounds_to_las_bounds(&b);
                    ensure_eq!([l.min.x, l.min.y, l.min.z, l.max.x, l.max.y, l.max.z], [c[0], c[1], c[2], c[3], c[4], c[5]], "las bounds");
                    ensure_eq!(las_bounds_to_pasture_bounds(l), b, "there and back");
                    o.step();
                    Ok(())
                },
            );
        }
    }));
    v
}

/// Point formats and layouts
pub fn c45(_: bool) -> Vec<Shard> {
    let mut v = vec![shard("layouts of formats", |cx| {
        for bits in 0..64u32 {
            for extra in [0u16, 1, 7] {
                cx.case(
                    || format!("flags {bits:06b}, {extra} extra bytes"),
                    |o| {
                        let mut f = Format::new(0).unwrap();
                        f.has_gps_time = bits & 1 > 0;
                        f.has_color = bits & 2 > 0;
                        f.is_extended = bits & 4 > 0;
                        f.has_waveform = bits & 8 > 0;
                        f.has_nir = bits & 16 > 0;
                        f.is_compressed = bits & 32 > 0;
                        f.extra_bytes = extra;
                        let n = (0..11u8).find(|n| {
                            let g = fmt(*n);
                            [g.gps, g.rgb, g.ext, g.wave, g.nir] == [f.has_gps_time, f.has_color, f.is_extended, f.has_waveform, f.has_nir]
                        });
                        ensure_eq!(offset_to_extra_bytes(f).is_some(), extra > 0, "an offset to the extra bytes");
                        for raw in [false, true] {
                            let l = no_panic(|| format!("exact {raw}"), || point_layout_from_las_point_format(&f, raw))?;
                            let Some(n) = n else {
                                ensure!(l.is_err(), "exact {raw}: a layout of no format");
                                continue;
                            };
                            if extra > 0 && l.is_err() {
                                continue; // documented
                            }
                            let l = l.map_err(|e| format!("{e:#}"))?;
                            let want = layout_of(&if raw { exact(fmt(n)) } else { attrs(fmt(n)) });
                            ensure_eq!(l, want, "exact {raw}: format {n}");
                            if raw {
                                ensure_eq!(l.size_of_point_entry() as usize, SIZES[n as usize], "size of format {n}");
                                if extra > 0 {
                                    ensure_eq!(offset_to_extra_bytes(f), Some(SIZES[n as usize]), "offset to the extra bytes");
                                }
                            }
                            o.state(&(n, raw));
                            o.step();
                        }
                        Ok(())
                    },
                );
            }
        }
    })];
    v.push(shard("formats of layouts", |cx| {
        let pool = [
            at::GPS_TIME,
            at::COLOR_RGB,
            at::NIR,
            at::WAVE_PACKET_DESCRIPTOR_INDEX,
            at::WAVEFORM_DATA_OFFSET,
            at::WAVEFORM_PACKET_SIZE,
            at::RETURN_POINT_WAVEFORM_LOCATION,
            at::WAVEFORM_PARAMETERS,
            at::SCAN_ANGLE,
            at::SCANNER_CHANNEL,
            at::CLASSIFICATION_FLAGS,
            at::SCAN_ANGLE_RANK,
            at::POSITION_3D,
            at::NORMAL,
        ];
        for bits in 0..1u32 << pool.len() {
            for style in 0..3 {
                if style > 0 && bits % 5 != 0 && cx.tier(true, false) {
                    continue;
                }
                cx.case(
                    || format!("attributes {bits:014b}, style {style}"),
                    |o| {
                        let mut a: Vec<_> = (0..pool.len()).filter(|i| bits >> i & 1 == 1).map(|i| pool[i].clone()).collect();
                        match style {
                            1 => a.reverse(),
                            2 => {
                                a = a.iter().map(|a| a.with_custom_datatype(if parts3(a.datatype()) { D::Vec3f32 } else { D::F32 })).collect();
                                a.push(at::INTENSITY);
                                a.push(PointAttributeDefinition::custom("gpstime".into(), D::F64));
                            }
                            _ => (),
                        }
                        let l = PointLayout::from_attributes(&a);
                        let f = no_panic(|| "format".into(), || las_point_format_from_point_layout(&l))?;
                        let code = f.to_u8().map_err(|e| format!("{f:?} is no LAS format: {e}"))?;
                        ensure_eq!(f.extra_bytes, 0, "extra bytes");
                        let held = |n: u8| attrs(fmt(n)).iter().filter(|b| a.iter().any(|a| a.name() == b.name())).count();
                        let best = (0..11).map(held).max().unwrap();
                        // "as many as possible": a scan angle rank alone may be given up for a scan angle
                        ensure_eq!(held(code), best, "number of attributes that format {code} holds");
                        let of = |n: u8| -> Vec<_> { attrs(fmt(n)).into_iter().filter(|b| a.iter().any(|a| a.name() == b.name())).collect() };
                        for n in 0..11u8 {
                            ensure!(
                                of(n) != of(code) || SIZES[n as usize] >= SIZES[code as usize],
                                "format {code} although format {n} is smaller and holds the same attributes"
                            );
                        }
                        o.state(&code);
                        if style == 0 && bits & 0b10001111 == bits & 0b111111111111 {
                            // a writer for the layout
                            let ch = Chan::new(vec![]);
                            let w = LASWriter::from_writer_and_point_layout(ch.handle(), &l, false).map_err(|e| format!("writer: {e:#}"))?;
                            w.into_inner().map_err(|e| format!("writer: {e:#}"))?;
                            let r = LASReader::from_read(Chan::new(ch.bytes()), false, false).map_err(|e| format!("reader: {e:#}"))?;
                            let h = r.header();
                            ensure_eq!((h.version().major, h.version().minor), (1, 4), "version");
                            for t in [h.transforms().x, h.transforms().y, h.transforms().z] {
                                ensure_eq!((t.scale, t.offset), (0.001, 0.), "scale and offset");
                            }
                            ensure_eq!(h.point_format().to_u8().ok(), Some(code), "format of the file");
                        }
                        o.step();
                        Ok(())
                    },
                );
            }
        }
    }));
    v.push(shard("known attributes", |cx| {
        let builtin2 = || (0..11).flat_map(|n| attrs(fmt(n))).map(|a| a.name().to_string()).collect::<Vec<_>>();
        let builtin = [
            at::POSITION_3D,
            at::INTENSITY,
            at::RETURN_NUMBER,
            at::NUMBER_OF_RETURNS,
            at::CLASSIFICATION_FLAGS,
            at::SCANNER_CHANNEL,
            at::SCAN_DIRECTION_FLAG,
            at::EDGE_OF_FLIGHT_LINE,
            at::CLASSIFICATION,
            at::SCAN_ANGLE_RANK,
            at::SCAN_ANGLE,
            at::USER_DATA,
            at::POINT_SOURCE_ID,
            at::COLOR_RGB,
            at::GPS_TIME,
            at::NIR,
            at::WAVE_PACKET_DESCRIPTOR_INDEX,
            at::WAVEFORM_DATA_OFFSET,
            at::WAVEFORM_PACKET_SIZE,
            at::RETURN_POINT_WAVEFORM_LOCATION,
            at::WAVEFORM_PARAMETERS,
            at::POINT_ID,
            at::NORMAL,
        ];
        for a in builtin {
            for d in [D::U8, D::F64, D::Vec3f32, D::ByteArray(3), a.datatype()] {
                cx.case(
                    || format!("{} as {d}", a.name()),
                    |o| {
                        let known = (0..11).any(|n| attrs(fmt(n)).iter().any(|b| b.name() == a.name()));
                        ensure_eq!(is_known_las_attribute(&a.with_custom_datatype(d)), known, "known");
                        for odd in [format!("{}x", a.name()), format!("{}_", a.name()), format!(" {}", a.name()), format!("{} ", a.name()), a.name().to_lowercase(), a.name().to_uppercase(), a.name()[1..].to_string()] {
                            let odd = PointAttributeDefinition::custom(odd.into(), d);
                            ensure!(builtin2().contains(&odd.name().to_string()) || !is_known_las_attribute(&odd), "{} is known", odd.name());
                        }
                        o.step();
                        Ok(())
                    },
                );
            }
        }
    }));
    v
}
fn parts3(d: D) -> bool {
    crate::pts::parts(d).1 == 3
}
