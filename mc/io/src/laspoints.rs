//! Points of the `las` crate become points of pasture's record types.
use crate::las::{attrs, fmt};
use fw::*;
use las::point::{Classification, ScanDirection, Waveform};
use las::{Color, Point};
use pasture_core::containers::*;
use pasture_core::layout::attributes as at;
use pasture_core::layout::*;
use pasture_io::las::*;

fn base() -> Point {
    Point {
        x: 1.5,
        y: -2.25,
        z: 1e9 + 0.125,
        intensity: 0x1234,
        return_number: 3,
        number_of_returns: 5,
        scan_direction: ScanDirection::RightToLeft,
        is_edge_of_flight_line: false,
        classification: Classification(6),
        is_synthetic: false,
        is_key_point: false,
        is_withheld: false,
        is_overlap: false,
        scanner_channel: 2,
        scan_angle: -17.0,
        user_data: 77,
        point_source_id: 0x5678,
        gps_time: Some(123456.75),
        color: Some(Color { red: 0x0102, green: 0x0304, blue: 0x0506 }),
        waveform: Some(Waveform {
            wave_packet_descriptor_index: 9,
            byte_offset_to_waveform_data: 0x1122334455667788,
            waveform_packet_size_in_bytes: 0x99aabbcc,
            return_point_waveform_location: 0.5,
            x_t: 0.75,
            y_t: -1.75,
            z_t: 2.75,
        }),
        nir: Some(0x0708),
        extra_bytes: vec![],
    }
}

const FIELDS: usize = 25;
/// The `v`th value of field `field` (None: no more values)
fn vary(p: &mut Point, field: usize, v: usize) -> Option<()> {
    let f = *[0.0, -0.0, 1e-300, f64::MAX, f64::MIN, f64::INFINITY, 0.1, -123.456].get(v % 8)?;
    let s = *[0.0f32, -0.0, 1e-30, f32::MAX, f32::MIN, f32::INFINITY, 0.1, -123.456].get(v % 8)?;
    // 0, all ones and every single bit of a word of `bits` bits
    let word = |bits: u32| -> Option<u64> {
        let m = u64::MAX >> (64 - bits);
        match v as u32 {
            0 => Some(0),
            1 => Some(m),
            i if i < bits + 2 => Some(1 << (i - 2)),
            _ => None,
        }
    };
    let w = p.waveform.as_mut().unwrap();
    let c = p.color.as_mut().unwrap();
    let eight = (v < 8).then_some(());
    let two = (v < 2).then_some(());
    let byte = u8::try_from(v).ok();
    match field {
        0 => eight.map(|_| p.x = f),
        1 => eight.map(|_| p.y = f),
        2 => eight.map(|_| p.z = f),
        3 => (v < 65536).then(|| p.intensity = v as u16),
        4 => byte.map(|b| p.return_number = b),
        5 => byte.map(|b| p.number_of_returns = b),
        6 => two.map(|_| p.scan_direction = [ScanDirection::RightToLeft, ScanDirection::LeftToRight][v]),
        7 => two.map(|_| p.is_edge_of_flight_line = v == 1),
        8 => byte.map(|b| p.classification = Classification(b)),
        9 => (v < 16).then(|| {
            p.is_synthetic = v & 1 > 0;
            p.is_key_point = v & 2 > 0;
            p.is_withheld = v & 4 > 0;
            p.is_overlap = v & 8 > 0;
        }),
        10 => (v < 1401).then(|| p.scan_angle = (v as f32 - 700.0) / 4.0),
        11 => byte.map(|b| p.user_data = b),
        12 => word(16).map(|x| p.point_source_id = x as u16),
        13 => (v < 9).then(|| p.gps_time = (v < 8).then_some(f)),
        14 => word(16).map(|x| c.red = x as u16),
        15 => word(16).map(|x| c.green = x as u16),
        16 => word(16).map(|x| c.blue = x as u16),
        17 => byte.map(|b| w.wave_packet_descriptor_index = b),
        18 => word(64).map(|x| w.byte_offset_to_waveform_data = x),
        19 => word(32).map(|x| w.waveform_packet_size_in_bytes = x as u32),
        20 => eight.map(|_| w.return_point_waveform_location = s),
        21 => eight.map(|_| w.x_t = s),
        22 => eight.map(|_| w.y_t = s),
        23 => eight.map(|_| w.z_t = s),
        24 => (v < 2).then(|| p.scanner_channel = [0, 255][v]),
        _ => None,
    }
}

/// The bytes of attribute `a` of the point
fn expected(p: &Point, a: &str) -> Option<Vec<u8>> {
    let w = p.waveform.unwrap_or_default();
    let c = p.color.unwrap_or_default();
    Some(match a {
        "Position3D" => [p.x, p.y, p.z].iter().flat_map(|v| v.to_le_bytes()).collect(),
        "Intensity" => p.intensity.to_le_bytes().to_vec(),
        "ReturnNumber" => vec![p.return_number],
        "NumberOfReturns" => vec![p.number_of_returns],
        "ScanDirectionFlag" => vec![(p.scan_direction == ScanDirection::LeftToRight) as u8],
        "EdgeOfFlightLine" => vec![p.is_edge_of_flight_line as u8],
        "Classification" => vec![p.classification.0],
        "UserData" => vec![p.user_data],
        "PointSourceID" => p.point_source_id.to_le_bytes().to_vec(),
        "GpsTime" => p.gps_time.unwrap_or(0.0).to_le_bytes().to_vec(),
        "ColorRGB" => [c.red, c.green, c.blue].iter().flat_map(|v| v.to_le_bytes()).collect(),
        "WavePacketDescriptorIndex" => vec![w.wave_packet_descriptor_index],
        "WaveformDataOffset" => w.byte_offset_to_waveform_data.to_le_bytes().to_vec(),
        "WaveformPacketSize" => w.waveform_packet_size_in_bytes.to_le_bytes().to_vec(),
        "ReturnPointWaveformLocation" => w.return_point_waveform_location.to_le_bytes().to_vec(),
        "WaveformParameters" => [w.x_t, w.y_t, w.z_t].iter().flat_map(|v| v.to_le_bytes()).collect(),
        _ => return None,
    })
}

fn judge<T: PointType + From<Point> + Copy>(p: &Point, n: u8, o: &mut Obs) -> R {
    let (color, wave) = ([2, 3, 5].contains(&n), [4, 5].contains(&n));
    if (color && p.color.is_none()) || (wave && p.waveform.is_none()) {
        // The point does not have what the format needs, and conversions cannot fail in another way
        return must_panic(|| format!("format {n} made of a point without colour or waveform"), || T::from(p.clone()));
    }
    let t = no_panic(|| format!("{p:?}"), || T::from(p.clone()))?;
    let mut b = VectorBuffer::new_from_layout(T::layout());
    b.view_mut::<T>().push_point(t);
    let want = attrs(fmt(n));
    ensure_eq!(b.point_layout().attributes().count(), want.len(), "attributes of format {n}");
    for a in want.iter() {
        let mut got = vec![0u8; a.size() as usize];
        b.get_attribute(a, 0, &mut got);
        match expected(p, a.name()) {
            Some(bytes) => ensure!(got == bytes, "format {n}: {} of {p:?} is {got:?}, not {bytes:?}", a.name()),
            None => {
                ensure_eq!(a, &at::SCAN_ANGLE_RANK, "an attribute of format {n}");
                let (rank, angle) = (got[0] as i8 as f32, p.scan_angle);
                let near = (rank - angle.clamp(-128.0, 127.0)).abs();
                ensure!(near < 1.0, "format {n}: scan angle rank of {angle} is {rank}");
            }
        }
        o.state(&(n, a.name(), got));
        o.step();
    }
    Ok(())
}
fn all(p: &Point, o: &mut Obs) -> R {
    judge::<LasPointFormat0>(p, 0, o)?;
    judge::<LasPointFormat1>(p, 1, o)?;
    judge::<LasPointFormat2>(p, 2, o)?;
    judge::<LasPointFormat3>(p, 3, o)?;
    judge::<LasPointFormat4>(p, 4, o)?;
    judge::<LasPointFormat5>(p, 5, o)
}

pub fn c47(_: bool) -> Vec<Shard> {
    let mut v = vec![];
    for field in 0..FIELDS {
        v.push(shard(format!("field {field}"), move |cx| {
            for value in 0.. {
                let mut p = base();
                if vary(&mut p, field, value).is_none() {
                    break;
                }
                if field == 3 && cx.tier(value % 251 > 1 && value & (value - 1) > 0, false) {
                    continue;
                }
                cx.case(|| format!("field {field}, value {value}"), |o| all(&p, o));
            }
        }));
    }
    v.push(shard("optional fields", |cx| {
        for bits in 0..64u32 {
            let mut p = base();
            cx.case(
                || format!("present: {bits:06b}"),
                |o| {
                    p.gps_time = p.gps_time.filter(|_| bits & 1 > 0);
                    p.color = p.color.filter(|_| bits & 2 > 0);
                    p.waveform = p.waveform.filter(|_| bits & 4 > 0);
                    p.nir = p.nir.filter(|_| bits & 8 > 0);
                    p.scan_direction = [ScanDirection::RightToLeft, ScanDirection::LeftToRight][(bits >> 4 & 1) as usize];
                    p.is_edge_of_flight_line = bits & 32 > 0;
                    all(&p, o)
                },
            );
        }
    }));
    v.push(shard("pairs of fields", |cx| {
        for a in 0..FIELDS {
            for b in a + 1..FIELDS {
                for (x, y) in [(0, 0), (0, 1), (1, 0), (1, 1)] {
                    let mut p = base();
                    if vary(&mut p, a, x).is_some() && vary(&mut p, b, y).is_some() {
                        cx.case(|| format!("fields {a} and {b}, values {x} and {y}"), |o| all(&p, o));
                    }
                }
            }
        }
    }));
    v.push(shard("types of the records", |cx| {
        fn one<T: PointType>(n: u8, o: &mut Obs) -> R {
            let l = T::layout();
            let want = attrs(fmt(n));
            ensure_eq!(l.attributes().count(), want.len(), "attributes of format {n}");
            let mut end = 0;
            for (m, a) in l.attributes().zip(&want) {
                ensure_eq!(m.attribute_definition(), a, "attribute of format {n}");
                ensure_eq!(m.offset(), end, "offset of {} in format {n}", a.name());
                end += a.size();
                o.step();
            }
            ensure_eq!(l.size_of_point_entry() as usize, std::mem::size_of::<T>(), "size of format {n}");
            o.state(&n);
            Ok(())
        }
        let f: [fn(u8, &mut Obs) -> R; 11] = [
            one::<LasPointFormat0>,
            one::<LasPointFormat1>,
            one::<LasPointFormat2>,
            one::<LasPointFormat3>,
            one::<LasPointFormat4>,
            one::<LasPointFormat5>,
            one::<LasPointFormat6>,
            one::<LasPointFormat7>,
            one::<LasPointFormat8>,
            one::<LasPointFormat9>,
            one::<LasPointFormat10>,
        ];
        for (n, f) in f.iter().enumerate() {
            cx.case(|| format!("format {n}"), |o| f(n as u8, o));
        }
    }));
    v
}
