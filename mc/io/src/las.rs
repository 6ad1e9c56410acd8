//! LAS: an encoder and a decoder of files, written from the ASPRS LAS 1.4 specification and
//! independent of pasture and of the las crate, against the readers and writers of pasture-io.
use crate::io::{words, Chan};
use crate::pts::*;
use crate::with_buf;
use fw::*;
use las::{Builder, Vector as LV};
use pasture_core::containers::*;
use pasture_core::layout::attributes as at;
use pasture_core::layout::*;
use pasture_io::base::{PointReader, PointWriter, SeekToPoint};
use pasture_io::las::*;
use std::io::{BufWriter, ErrorKind, SeekFrom};
use PointAttributeDataType as D;

#[derive(Clone, Copy, Debug)]
pub struct Fmt {
    pub n: u8,
    pub ext: bool,
    pub gps: bool,
    pub rgb: bool,
    pub nir: bool,
    pub wave: bool,
}
pub const SIZES: [usize; 11] = [20, 28, 26, 34, 57, 63, 30, 36, 38, 59, 67];
pub fn fmt(n: u8) -> Fmt {
    Fmt {
        n,
        ext: n >= 6,
        gps: ![0, 2].contains(&n),
        rgb: [2, 3, 5, 7, 8, 10].contains(&n),
        nir: [8, 10].contains(&n),
        wave: [4, 5, 9, 10].contains(&n),
    }
}
/// The attributes of a record of the format, in the order of the specification
pub fn attrs(f: Fmt) -> Vec<PointAttributeDefinition> {
    let mut v = vec![at::POSITION_3D, at::INTENSITY, at::RETURN_NUMBER, at::NUMBER_OF_RETURNS];
    if f.ext {
        v.extend([at::CLASSIFICATION_FLAGS, at::SCANNER_CHANNEL]);
    }
    v.extend([at::SCAN_DIRECTION_FLAG, at::EDGE_OF_FLIGHT_LINE, at::CLASSIFICATION]);
    if f.ext {
        v.extend([at::USER_DATA, at::SCAN_ANGLE]);
    } else {
        v.extend([at::SCAN_ANGLE_RANK, at::USER_DATA]);
    }
    v.push(at::POINT_SOURCE_ID);
    if f.gps {
        v.push(at::GPS_TIME);
    }
    if f.rgb {
        v.push(at::COLOR_RGB);
    }
    if f.nir {
        v.push(at::NIR);
    }
    if f.wave {
        v.extend([
            at::WAVE_PACKET_DESCRIPTOR_INDEX,
            at::WAVEFORM_DATA_OFFSET,
            at::WAVEFORM_PACKET_SIZE,
            at::RETURN_POINT_WAVEFORM_LOCATION,
            at::WAVEFORM_PARAMETERS,
        ]);
    }
    v
}
/// Raw members: the record as it is in the file
pub fn exact(f: Fmt) -> Vec<PointAttributeDefinition> {
    let mut v = vec![ATTRIBUTE_LOCAL_LAS_POSITION, at::INTENSITY];
    v.push(if f.ext { ATTRIBUTE_EXTENDED_FLAGS } else { ATTRIBUTE_BASIC_FLAGS });
    v.push(at::CLASSIFICATION);
    let bits = [
        at::RETURN_NUMBER,
        at::NUMBER_OF_RETURNS,
        at::CLASSIFICATION_FLAGS,
        at::SCANNER_CHANNEL,
        at::SCAN_DIRECTION_FLAG,
        at::EDGE_OF_FLIGHT_LINE,
        at::CLASSIFICATION,
        at::POSITION_3D,
        at::INTENSITY,
    ];
    v.extend(attrs(f).into_iter().filter(|a| !bits.contains(a)));
    v
}
pub fn extra_defs(f: &File) -> Vec<PointAttributeDefinition> {
    f.extra.iter().map(|(n, d)| PointAttributeDefinition::custom(n.to_string().into(), *d)).collect()
}

fn get(p: &Pt, a: &PointAttributeDefinition) -> f64 {
    p.get(a.name()).map_or(0., |v| v[0])
}
fn get3(p: &Pt, a: &PointAttributeDefinition) -> [f64; 3] {
    p.get(a.name()).map_or([0.; 3], |v| [v[0], v[1], v[2]])
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Rec {
    pub user: String,
    pub id: u16,
    pub desc: String,
    pub data: Vec<u8>,
}
pub fn vlr(user: &str, id: u16, desc: &str, data: Vec<u8>) -> Rec {
    Rec { user: user.into(), id, desc: desc.into(), data }
}

#[derive(Clone, Debug)]
pub struct File {
    pub n: u8,
    pub minor: u8,
    pub scale: [f64; 3],
    pub off: [f64; 3],
    pub vlrs: Vec<Rec>,
    pub evlrs: Vec<Rec>,
    pub header_pad: usize,
    pub vlr_pad: usize,
    /// Extra bytes: name and type
    pub extra: Vec<(String, D)>,
    /// Describe them in an Extra Bytes VLR (the first `described` ones)
    pub described: usize,
    pub laz: bool,
    /// The header that the writer gets is from a LAZ file
    pub from_laz: bool,
}
impl File {
    pub fn new(n: u8) -> File {
        File {
            n,
            minor: 4,
            scale: [0.5; 3],
            off: [0.; 3],
            vlrs: vec![],
            evlrs: vec![],
            header_pad: 0,
            vlr_pad: 0,
            extra: vec![],
            described: 0,
            laz: false,
            from_laz: false,
        }
    }
    pub fn fmt(&self) -> Fmt {
        fmt(self.n)
    }
    pub fn extra_len(&self) -> usize {
        extra_defs(self).iter().map(|a| a.size() as usize).sum()
    }
    pub fn record(&self) -> usize {
        SIZES[self.n as usize] + self.extra_len()
    }
    pub fn all_vlrs(&self) -> Vec<Rec> {
        let mut v = self.vlrs.clone();
        if self.described > 0 {
            let mut data = vec![];
            for (n, d) in &self.extra[..self.described] {
                let mut e = vec![0u8; 192];
                e[2] = match d {
                    D::U8 => 1,
                    D::I8 => 2,
                    D::U16 => 3,
                    D::I16 => 4,
                    D::U32 => 5,
                    D::I32 => 6,
                    D::U64 => 7,
                    D::I64 => 8,
                    D::F32 => 9,
                    D::F64 => 10,
                    _ => unreachable!(),
                };
                e[4..4 + n.len()].copy_from_slice(n.as_bytes());
                data.extend(e);
            }
            v.push(vlr("LASF_Spec", 4, "Extra Bytes", data));
        }
        if self.laz {
            let mut d = b"mc".to_vec();
            d.extend((self.record() as u16).to_le_bytes());
            v.push(vlr("laszip encoded", 22204, "https://laszip.org", d));
        }
        v
    }
    /// Names of the attributes as pasture presents the extra bytes
    pub fn extra_layout(&self) -> Vec<PointAttributeDefinition> {
        let mut v: Vec<_> = extra_defs(self).into_iter().take(self.described).collect();
        let rest: usize = extra_defs(self).iter().skip(self.described).map(|a| a.size() as usize).sum();
        if rest > 0 {
            v.push(PointAttributeDefinition::custom("UndescribedExtraBytes".into(), D::ByteArray(rest as u64)));
        }
        v
    }
    /// Completes a point: world position, flags, undescribed bytes. Everything that the format
    /// does not have goes away
    pub fn complete(&self, p: &Pt) -> Pt {
        let f = self.fmt();
        let mut o = Pt::new();
        let l = get3(p, &ATTRIBUTE_LOCAL_LAS_POSITION);
        o.insert(ATTRIBUTE_LOCAL_LAS_POSITION.name().into(), l.to_vec());
        for a in attrs(f).iter().chain(&extra_defs(self)) {
            let n = parts(a.datatype()).1;
            o.insert(a.name().into(), p.get(a.name()).cloned().unwrap_or(vec![0.; n]));
        }
        o.insert(at::POSITION_3D.name().into(), (0..3).map(|i| l[i] * self.scale[i] + self.off[i]).collect());
        let b = |a: &PointAttributeDefinition| get(&o, a) as u64;
        let (dir, edge) = (b(&at::SCAN_DIRECTION_FLAG), b(&at::EDGE_OF_FLIGHT_LINE));
        let (rn, nr) = (b(&at::RETURN_NUMBER), b(&at::NUMBER_OF_RETURNS));
        if f.ext {
            let w = rn | nr << 4 | b(&at::CLASSIFICATION_FLAGS) << 8 | b(&at::SCANNER_CHANNEL) << 12 | dir << 14 | edge << 15;
            o.insert(ATTRIBUTE_EXTENDED_FLAGS.name().into(), vec![w as f64]);
        } else {
            let w = rn | nr << 3 | dir << 6 | edge << 7;
            o.insert(ATTRIBUTE_BASIC_FLAGS.name().into(), vec![w as f64]);
        }
        let mut rest = vec![];
        for a in extra_defs(self).iter().skip(self.described) {
            rest.extend(encode(a.datatype(), &o[a.name()]).into_iter().map(|b| b as f64));
        }
        if !rest.is_empty() {
            o.insert("UndescribedExtraBytes".into(), rest);
        }
        o
    }
    fn put_record(&self, p: &Pt, out: &mut Vec<u8>) {
        let f = self.fmt();
        for c in get3(p, &ATTRIBUTE_LOCAL_LAS_POSITION) {
            out.extend((c as i32).to_le_bytes());
        }
        out.extend((get(p, &at::INTENSITY) as u16).to_le_bytes());
        if f.ext {
            out.extend((get(p, &ATTRIBUTE_EXTENDED_FLAGS) as u16).to_le_bytes());
        } else {
            out.push(get(p, &ATTRIBUTE_BASIC_FLAGS) as u8);
        }
        out.push(get(p, &at::CLASSIFICATION) as u8);
        if f.ext {
            out.push(get(p, &at::USER_DATA) as u8);
            out.extend((get(p, &at::SCAN_ANGLE) as i16).to_le_bytes());
        } else {
            out.push(get(p, &at::SCAN_ANGLE_RANK) as i8 as u8);
            out.push(get(p, &at::USER_DATA) as u8);
        }
        out.extend((get(p, &at::POINT_SOURCE_ID) as u16).to_le_bytes());
        if f.gps {
            out.extend(get(p, &at::GPS_TIME).to_le_bytes());
        }
        if f.rgb {
            for c in get3(p, &at::COLOR_RGB) {
                out.extend((c as u16).to_le_bytes());
            }
        }
        if f.nir {
            out.extend((get(p, &at::NIR) as u16).to_le_bytes());
        }
        if f.wave {
            out.push(get(p, &at::WAVE_PACKET_DESCRIPTOR_INDEX) as u8);
            out.extend((get(p, &at::WAVEFORM_DATA_OFFSET) as u64).to_le_bytes());
            out.extend((get(p, &at::WAVEFORM_PACKET_SIZE) as u32).to_le_bytes());
            out.extend((get(p, &at::RETURN_POINT_WAVEFORM_LOCATION) as f32).to_le_bytes());
            for c in get3(p, &at::WAVEFORM_PARAMETERS) {
                out.extend((c as f32).to_le_bytes());
            }
        }
        for a in extra_defs(self) {
            out.extend(encode(a.datatype(), &p[a.name()]));
        }
    }
    /// The file with the (completed) points
    pub fn bytes(&self, pts: &[Pt]) -> Vec<u8> {
        let vlrs = self.all_vlrs();
        let hs = [227, 227, 227, 235, 375][self.minor as usize] + self.header_pad;
        let start = hs + vlrs.iter().map(|v| 54 + v.data.len()).sum::<usize>() + self.vlr_pad;
        let mut o = b"LASF".to_vec();
        o.extend(7u16.to_le_bytes()); // file source ID
        o.extend(1u16.to_le_bytes()); // global encoding: standard GPS time
        o.extend((1u8..=16).collect::<Vec<_>>());
        o.extend([1, self.minor]);
        let fixed = |s: &str, n: usize| {
            let mut b = s.as_bytes().to_vec();
            b.resize(n, 0);
            b
        };
        o.extend(fixed("system", 32));
        o.extend(fixed("software", 32));
        o.extend(60u16.to_le_bytes());
        o.extend(2021u16.to_le_bytes());
        o.extend((hs as u16).to_le_bytes());
        o.extend((start as u32).to_le_bytes());
        o.extend((vlrs.len() as u32).to_le_bytes());
        o.push(self.n | if self.laz { 0x80 } else { 0 });
        o.extend((self.record() as u16).to_le_bytes());
        let mut by = [0u64; 15];
        for p in pts {
            let r = get(p, &at::RETURN_NUMBER) as usize;
            if r > 0 {
                by[r - 1] += 1;
            }
        }
        let legacy = self.n < 6;
        o.extend((if legacy { pts.len() as u32 } else { 0 }).to_le_bytes());
        for i in 0..5 {
            o.extend((if legacy { by[i] as u32 } else { 0 }).to_le_bytes());
        }
        for f in self.scale.iter().chain(&self.off) {
            o.extend(f.to_le_bytes());
        }
        for i in 0..3 {
            let c: Vec<f64> = pts.iter().map(|p| p[at::POSITION_3D.name()][i]).collect();
            let (min, max) = c.iter().fold((f64::MAX, f64::MIN), |(a, b), c| (a.min(*c), b.max(*c)));
            let (min, max) = if c.is_empty() { (0., 0.) } else { (min, max) };
            o.extend(max.to_le_bytes());
            o.extend(min.to_le_bytes());
        }
        if self.minor >= 3 {
            o.extend(0u64.to_le_bytes());
        }
        if self.minor >= 4 {
            let end = (start + self.record() * pts.len()) as u64;
            o.extend((if self.evlrs.is_empty() { 0 } else { end }).to_le_bytes());
            o.extend((self.evlrs.len() as u32).to_le_bytes());
            o.extend((pts.len() as u64).to_le_bytes());
            for n in by {
                o.extend(n.to_le_bytes());
            }
        }
        o.extend(vec![0xAB; self.header_pad]);
        for v in &vlrs {
            o.extend([0, 0]);
            o.extend(fixed(&v.user, 16));
            o.extend(v.id.to_le_bytes());
            o.extend((v.data.len() as u16).to_le_bytes());
            o.extend(fixed(&v.desc, 32));
            o.extend(&v.data);
        }
        o.extend(vec![0xCD; self.vlr_pad]);
        assert_eq!(o.len(), start);
        for p in pts {
            self.put_record(p, &mut o);
        }
        for v in &self.evlrs {
            o.extend([0, 0]);
            o.extend(fixed(&v.user, 16));
            o.extend(v.id.to_le_bytes());
            o.extend((v.data.len() as u64).to_le_bytes());
            o.extend(fixed(&v.desc, 32));
            o.extend(&v.data);
        }
        o
    }
}

#[derive(Debug)]
pub struct Parsed {
    pub n: u8,
    pub minor: u8,
    pub record: usize,
    pub legacy: u32,
    pub legacy_by: Vec<u32>,
    pub count: u64,
    pub by: Vec<u64>,
    pub min: [f64; 3],
    pub max: [f64; 3],
    pub vlrs: Vec<Rec>,
    pub evlrs: Vec<Rec>,
    pub points: Vec<Pt>,
}
struct Cur<'a>(&'a [u8], usize);
impl<'a> Cur<'a> {
    fn take(&mut self, n: usize) -> R<&'a [u8]> {
        ensure!(self.1 + n <= self.0.len(), "file ends at byte {}, {} bytes wanted at {}", self.0.len(), n, self.1);
        self.1 += n;
        Ok(&self.0[self.1 - n..self.1])
    }
    fn u8(&mut self) -> R<u8> {
        Ok(self.take(1)?[0])
    }
    fn u16(&mut self) -> R<u16> {
        Ok(u16::from_le_bytes(self.take(2)?.try_into().unwrap()))
    }
    fn u32(&mut self) -> R<u32> {
        Ok(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
    fn u64(&mut self) -> R<u64> {
        Ok(u64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
    fn f64(&mut self) -> R<f64> {
        Ok(f64::from_bits(self.u64()?))
    }
    fn text(&mut self, n: usize) -> R<String> {
        let b = self.take(n)?;
        let e = b.iter().position(|b| *b == 0).unwrap_or(n);
        String::from_utf8(b[..e].to_vec()).map_err(|e| e.to_string())
    }
    fn rec(&mut self, extended: bool) -> R<Rec> {
        self.take(2)?;
        let user = self.text(16)?;
        let id = self.u16()?;
        let n = if extended { self.u64()? as usize } else { self.u16()? as usize };
        let desc = self.text(32)?;
        Ok(Rec { user, id, desc, data: self.take(n)?.to_vec() })
    }
}
/// Reads a file as the specification says. `spec` only contributes the extra bytes' description
pub fn parse(spec: &File, b: &[u8]) -> R<Parsed> {
    let mut c = Cur(b, 0);
    ensure!(c.take(4)? == b"LASF", "no signature");
    c.take(2 + 2 + 16)?;
    ensure_eq!(c.u8()?, 1, "major version");
    let minor = c.u8()?;
    ensure!(minor <= 4, "minor version {minor}");
    c.take(32 + 32 + 4)?;
    let hs = c.u16()? as usize;
    let start = c.u32()? as usize;
    let nv = c.u32()?;
    let n = c.u8()?;
    let laz = n & 0xC0 != 0;
    ensure_eq!(laz, spec.laz, "compression bit of the format number {n}");
    let n = n & 0x3f;
    ensure!(n <= 10, "format {n}");
    let record = c.u16()? as usize;
    let legacy = c.u32()?;
    let legacy_by: Vec<u32> = (0..5).map(|_| c.u32()).collect::<R<_>>()?;
    let mut sc = [0.; 3];
    let mut of = [0.; 3];
    for s in &mut sc {
        *s = c.f64()?;
    }
    for s in &mut of {
        *s = c.f64()?;
    }
    let (mut min, mut max) = ([0.; 3], [0.; 3]);
    for i in 0..3 {
        max[i] = c.f64()?;
        min[i] = c.f64()?;
    }
    if minor >= 3 {
        c.u64()?;
    }
    let (mut ev, mut nev, mut count, mut by) = (0, 0, legacy as u64, vec![]);
    if minor >= 4 {
        ev = c.u64()?;
        nev = c.u32()?;
        count = c.u64()?;
        by = (0..15).map(|_| c.u64()).collect::<R<_>>()?;
    }
    ensure!(hs >= c.1, "header size {hs}, the header has {} bytes", c.1);
    c.1 = hs;
    let vlrs: Vec<Rec> = (0..nv).map(|_| c.rec(false)).collect::<R<_>>()?;
    ensure!(c.1 <= start, "points start at {start}, inside the VLRs, which end at {}", c.1);
    let f = fmt(n);
    let file = File { n, minor, scale: sc, off: of, ..spec.clone() };
    ensure!(record >= SIZES[n as usize], "record length {record} for format {n}");
    let mut points = vec![];
    for i in 0..count {
        c.1 = start + i as usize * record;
        let end = c.1 + record;
        let mut p = Pt::new();
        let mut put = |a: &PointAttributeDefinition, v: Vec<f64>| {
            p.insert(a.name().into(), v);
        };
        put(&ATTRIBUTE_LOCAL_LAS_POSITION, vec![c.u32()? as i32 as f64, c.u32()? as i32 as f64, c.u32()? as i32 as f64]);
        put(&at::INTENSITY, vec![c.u16()? as f64]);
        if f.ext {
            let w = c.u16()?;
            put(&at::RETURN_NUMBER, vec![(w & 15) as f64]);
            put(&at::NUMBER_OF_RETURNS, vec![(w >> 4 & 15) as f64]);
            put(&at::CLASSIFICATION_FLAGS, vec![(w >> 8 & 15) as f64]);
            put(&at::SCANNER_CHANNEL, vec![(w >> 12 & 3) as f64]);
            put(&at::SCAN_DIRECTION_FLAG, vec![(w >> 14 & 1) as f64]);
            put(&at::EDGE_OF_FLIGHT_LINE, vec![(w >> 15) as f64]);
        } else {
            let w = c.u8()?;
            put(&at::RETURN_NUMBER, vec![(w & 7) as f64]);
            put(&at::NUMBER_OF_RETURNS, vec![(w >> 3 & 7) as f64]);
            put(&at::SCAN_DIRECTION_FLAG, vec![(w >> 6 & 1) as f64]);
            put(&at::EDGE_OF_FLIGHT_LINE, vec![(w >> 7) as f64]);
        }
        put(&at::CLASSIFICATION, vec![c.u8()? as f64]);
        if f.ext {
            put(&at::USER_DATA, vec![c.u8()? as f64]);
            put(&at::SCAN_ANGLE, vec![c.u16()? as i16 as f64]);
        } else {
            put(&at::SCAN_ANGLE_RANK, vec![c.u8()? as i8 as f64]);
            put(&at::USER_DATA, vec![c.u8()? as f64]);
        }
        put(&at::POINT_SOURCE_ID, vec![c.u16()? as f64]);
        if f.gps {
            put(&at::GPS_TIME, vec![c.f64()?]);
        }
        if f.rgb {
            put(&at::COLOR_RGB, vec![c.u16()? as f64, c.u16()? as f64, c.u16()? as f64]);
        }
        if f.nir {
            put(&at::NIR, vec![c.u16()? as f64]);
        }
        if f.wave {
            put(&at::WAVE_PACKET_DESCRIPTOR_INDEX, vec![c.u8()? as f64]);
            put(&at::WAVEFORM_DATA_OFFSET, vec![c.u64()? as f64]);
            put(&at::WAVEFORM_PACKET_SIZE, vec![c.u32()? as f64]);
            let mut g = || -> R<f64> { Ok(f32::from_bits(c.u32()?) as f64) };
            put(&at::RETURN_POINT_WAVEFORM_LOCATION, vec![g()?]);
            put(&at::WAVEFORM_PARAMETERS, vec![g()?, g()?, g()?]);
        }
        for a in extra_defs(spec) {
            if c.1 + a.size() as usize <= end {
                put(&a, decode(a.datatype(), c.take(a.size() as usize)?));
            }
        }
        ensure!(end <= b.len(), "point {i} of {count} ends at byte {end}, the file at {}", b.len());
        points.push(file.complete(&p));
    }
    let mut evlrs = vec![];
    if nev > 0 {
        ensure!(
            ev as usize >= start + record * count as usize,
            "first EVLR at byte {ev}, the points end at {}",
            start + record * count as usize
        );
        c.1 = ev as usize;
        evlrs = (0..nev).map(|_| c.rec(true)).collect::<R<_>>()?;
    }
    Ok(Parsed { n, minor, record, legacy, legacy_by, count, by, min, max, vlrs, evlrs, points })
}

/// Points of the alphabet: `k` chooses the values, `f` what exists
pub fn point(file: &File, k: usize) -> Pt {
    let f = file.fmt();
    let top = |a: &PointAttributeDefinition, bits: u32| (a.clone(), ((1u64 << bits) - 1) as f64);
    let (rb, flags) = if f.ext { (4, true) } else { (3, false) };
    let mut lim = vec![
        top(&at::INTENSITY, 16),
        top(&at::RETURN_NUMBER, rb),
        top(&at::NUMBER_OF_RETURNS, rb),
        top(&at::SCAN_DIRECTION_FLAG, 1),
        top(&at::EDGE_OF_FLIGHT_LINE, 1),
        top(&at::CLASSIFICATION, 8),
        top(&at::USER_DATA, 8),
        top(&at::POINT_SOURCE_ID, 16),
        top(&at::NIR, 16),
        top(&at::WAVE_PACKET_DESCRIPTOR_INDEX, 8),
        top(&at::WAVEFORM_DATA_OFFSET, 52),
        top(&at::WAVEFORM_PACKET_SIZE, 32),
    ];
    if flags {
        lim.extend([top(&at::CLASSIFICATION_FLAGS, 4), top(&at::SCANNER_CHANNEL, 2)]);
    }
    let mut p = Pt::new();
    for (i, (a, max)) in lim.iter().enumerate() {
        let v = match k {
            0 => 0.,
            1 => *max,
            2 => (if i % 2 == 0 { *max } else { 0. }).max(0.),
            3 => (if i % 2 == 0 { 0. } else { *max }).max(0.),
            k => ((k * 37 + i * 11 + 1) as u64 & *max as u64) as f64,
        };
        p.insert(a.name().into(), vec![v]);
    }
    let pick = |v: [f64; 4]| v[k % 4];
    p.insert(at::SCAN_ANGLE_RANK.name().into(), vec![pick([0., 127., -128., -5.])]);
    p.insert(at::SCAN_ANGLE.name().into(), vec![pick([0., 30000., -30000., -5.])]);
    p.insert(at::GPS_TIME.name().into(), vec![pick([0., 1e300, -2.5, 123456.0625]) + if k > 3 { k as f64 } else { 0. }]);
    p.insert(at::COLOR_RGB.name().into(), vec![k as f64, pick([0., 65535., 1., 256.]), 300. + k as f64]);
    p.insert(at::RETURN_POINT_WAVEFORM_LOCATION.name().into(), vec![k as f64 + 0.25]);
    p.insert(at::WAVEFORM_PARAMETERS.name().into(), vec![k as f64, -0.5, pick([0., 2f64.powi(100), 1., 2.])]);
    let l = match k {
        0 => [0., 0., 0.],
        1 => [i32::MAX as f64, i32::MIN as f64, 1.],
        2 => [-1., 2., i32::MAX as f64 - 1.],
        3 => [1001., -1003., 4099.],
        k => [k as f64 * 7., -(k as f64) * 3., k as f64 + 1000.],
    };
    p.insert(ATTRIBUTE_LOCAL_LAS_POSITION.name().into(), l.to_vec());
    for (i, a) in extra_defs(file).iter().enumerate() {
        let (c, n) = parts(a.datatype());
        let v: Vec<f64> = (0..n).map(|j| (3 + k * 5 + i * 3 + j) as f64 % 120.).collect();
        p.insert(a.name().into(), cast(a.datatype(), &v));
        let _ = c;
    }
    file.complete(&p)
}

pub fn near(scale: f64, a: f64, b: f64, units: f64) -> bool {
    (a - b).abs() <= scale.abs() * units + (a.abs() + b.abs()) * 1e-14
}
pub fn layout_of(a: &[PointAttributeDefinition]) -> PointLayout {
    PointLayout::from_attributes_packed(a, 1)
}
fn retype(a: &[PointAttributeDefinition], t: &[(PointAttributeDefinition, D)]) -> Vec<PointAttributeDefinition> {
    a.iter()
        .map(|a| match t.iter().find(|t| t.0.name() == a.name()) {
            Some((_, d)) => a.with_custom_datatype(*d),
            None => a.clone(),
        })
        .collect()
}
/// Other types than the LAS ones, none of which narrows a value of the alphabet
fn wide() -> Vec<(PointAttributeDefinition, D)> {
    vec![
        (at::INTENSITY, D::U32),
        (at::RETURN_NUMBER, D::U16),
        (at::NUMBER_OF_RETURNS, D::I32),
        (at::CLASSIFICATION_FLAGS, D::U32),
        (at::SCANNER_CHANNEL, D::U64),
        (at::SCAN_DIRECTION_FLAG, D::I16),
        (at::EDGE_OF_FLIGHT_LINE, D::F32),
        (at::CLASSIFICATION, D::F64),
        (at::SCAN_ANGLE_RANK, D::I32),
        (at::SCAN_ANGLE, D::F32),
        (at::USER_DATA, D::I64),
        (at::POINT_SOURCE_ID, D::F64),
        (at::NIR, D::U32),
        (at::COLOR_RGB, D::Vec3f64),
        (at::WAVE_PACKET_DESCRIPTOR_INDEX, D::U16),
        (at::WAVEFORM_PACKET_SIZE, D::U64),
        (at::RETURN_POINT_WAVEFORM_LOCATION, D::F64),
        (at::WAVEFORM_PARAMETERS, D::Vec3f64),
    ]
}
/// Other types than the LAS ones with which the record keeps its size
fn shifted() -> Vec<(PointAttributeDefinition, D)> {
    vec![(pasture_io::las::ATTRIBUTE_LOCAL_LAS_POSITION, D::Vec3f32), (at::GPS_TIME, D::I64), (at::WAVEFORM_PACKET_SIZE, D::F32)]
}
/// Layouts that points can be written from and read into: name and layout
pub fn layouts(file: &File) -> Vec<(&'static str, PointLayout)> {
    let mut a = attrs(file.fmt());
    a.extend(file.extra_layout());
    let rev: Vec<_> = a.iter().rev().cloned().collect();
    let mut odd = vec![PointAttributeDefinition::custom("Unrelated".into(), D::U32)];
    odd.extend(a.iter().skip(2).step_by(2).cloned());
    odd.push(at::POSITION_3D);
    odd.push(at::NORMAL);
    vec![
        ("as in the file", layout_of(&a)),
        ("reversed", layout_of(&rev)),
        ("aligned", PointLayout::from_attributes(&a)),
        ("other types", layout_of(&retype(&a, &wide()))),
        ("other types, aligned", PointLayout::from_attributes(&retype(&rev, &wide()))),
        ("every second attribute", layout_of(&odd)),
        ("position only", layout_of(&[at::POSITION_3D])),
        ("attributes of other formats", {
            let mut b = attrs(fmt(10));
            b.push(at::SCAN_ANGLE_RANK);
            layout_of(&b)
        }),
    ]
}

fn header(file: &File) -> las::Header {
    let mut b = Builder::from((1, file.minor));
    b.point_format = las::point::Format::new(file.n).unwrap();
    b.point_format.extra_bytes = file.extra_len() as u16;
    let t = |i: usize| las::Transform { scale: file.scale[i], offset: file.off[i] };
    b.transforms = LV { x: t(0), y: t(1), z: t(2) };
    let v = |v: &Rec| las::Vlr { user_id: v.user.clone(), record_id: v.id, description: v.desc.clone(), data: v.data.clone() };
    let plain = File { laz: false, ..file.clone() };
    b.vlrs = plain.all_vlrs().iter().map(v).collect();
    if file.from_laz {
        b.point_format.is_compressed = true;
        b.vlrs.insert(b.vlrs.len() / 2, v(&vlr("laszip encoded", 22204, "old", vec![1; 6])));
    }
    b.evlrs = file.evlrs.iter().map(v).collect();
    b.padding = vec![0xAB; file.header_pad];
    b.vlr_padding = vec![0xCD; file.vlr_pad];
    b.into_header().unwrap()
}

/// What the file must hold after `pts` were written from a layout
pub fn stored(file: &File, l: &PointLayout, pts: &[Pt]) -> Vec<Pt> {
    pts.iter()
        .map(|p| {
            let mut o = Pt::new();
            for a in attrs(file.fmt()).iter().chain(&file.extra_layout()) {
                if let Some(s) = l.get_attribute_by_name(a.name()) {
                    if let Some(v) = p.get(a.name()) {
                        o.insert(a.name().into(), cast(a.datatype(), &cast(s.datatype(), v)));
                    }
                }
            }
            o
        })
        .collect()
}
pub fn compare(file: &File, what: &str, got: &Pt, want: &Pt) -> R {
    for a in attrs(file.fmt()).iter().chain(extra_defs(file).iter().take(file.described)) {
        let g = got.get(a.name()).ok_or_else(|| format!("{what}: no {}", a.name()))?;
        let n = parts(a.datatype()).1;
        if a.name() == at::POSITION_3D.name() {
            let z = vec![0.; 3];
            let w = want.get(a.name()).unwrap_or(&z);
            for i in 0..3 {
                ensure!(
                    near(file.scale[i], g[i], w[i], 0.5 + 1e-6),
                    "{what}: position {g:?}, written {w:?}: component {i} is off by more than half a scale ({:?})",
                    file.scale
                );
            }
            continue;
        }
        let z = vec![0.; n];
        let w = want.get(a.name()).unwrap_or(&z);
        ensure!(same(g, w), "{what}: {} is {g:?}, expected {w:?}", a.name());
    }
    if let Some(w) = want.get("UndescribedExtraBytes") {
        let g = got.get("UndescribedExtraBytes").cloned().unwrap_or_default();
        ensure!(same(&g, w), "{what}: undescribed extra bytes are {g:?}, expected {w:?}");
    }
    Ok(())
}
fn check_header(file: &File, f: &Parsed, pts: &[Pt]) -> R {
    let n = pts.len() as u64;
    ensure_eq!(f.count, n, "number of points in the header");
    let mut by = [0u64; 15];
    for p in &f.points {
        let r = get(p, &at::RETURN_NUMBER) as usize;
        if r > 0 {
            by[r - 1] += 1;
        }
    }
    if f.minor >= 4 {
        ensure_eq!(f.by, by.to_vec(), "points by return");
    }
    if file.n < 6 {
        ensure_eq!(f.legacy as u64, n, "legacy number of points");
        ensure_eq!(f.legacy_by, by[..5].iter().map(|n| *n as u32).collect::<Vec<_>>(), "legacy points by return");
    } else {
        ensure_eq!(f.legacy, 0, "legacy number of points of an extended format");
        ensure_eq!(f.legacy_by, vec![0; 5], "legacy points by return of an extended format");
    }
    if !pts.is_empty() {
        for i in 0..3 {
            let c: Vec<f64> = pts.iter().map(|p| p.get(at::POSITION_3D.name()).map_or(0., |v| v[i])).collect();
            let (lo, hi) = c.iter().fold((f64::MAX, f64::MIN), |(a, b), c| (a.min(*c), b.max(*c)));
            ensure!(near(file.scale[i], f.min[i], lo, 1.0), "header minimum {:?}, component {i} of the points is at least {lo}", f.min);
            ensure!(near(file.scale[i], f.max[i], hi, 1.0), "header maximum {:?}, component {i} of the points is at most {hi}", f.max);
        }
    }
    Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum W {
    Write(usize),
    Flush,
}
enum Out {
    Plain(LASWriter<Chan>),
    Buffered(LASWriter<BufWriter<Chan>>),
}
impl Out {
    fn write(&mut self, k: Kind, l: &PointLayout, p: &[Pt]) -> anyhow::Result<()> {
        with_buf!(k, l, p, b, match self {
            Out::Plain(w) => w.write(b),
            Out::Buffered(w) => w.write(b),
        })
    }
    fn flush(&mut self) -> anyhow::Result<()> {
        match self {
            Out::Plain(w) => w.flush(),
            Out::Buffered(w) => w.flush(),
        }
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum What {
    Points,
    Header,
}
/// Writes a history and judges the file after every flush
fn write_history(file: &File, l: &PointLayout, kind: Kind, buffered: bool, h: &[W], pool: &[Pt], what: What, o: &mut Obs) -> R {
    let ch = Chan::new(vec![]);
    let hd = header(file);
    let mut w = if buffered {
        Out::Buffered(LASWriter::from_writer_and_header(BufWriter::new(ch.handle()), hd, file.laz).map_err(|e| format!("{e:#}"))?)
    } else {
        Out::Plain(LASWriter::from_writer_and_header(ch.handle(), hd, file.laz).map_err(|e| format!("{e:#}"))?)
    };
    let d = match &w {
        Out::Plain(w) => w.get_default_point_layout(),
        Out::Buffered(w) => w.get_default_point_layout(),
    };
    for a in attrs(file.fmt()) {
        ensure!(d.has_attribute(&a), "{a} is not in the writer's default layout {d}");
    }
    let mut pts: Vec<Pt> = vec![];
    for (i, op) in h.iter().enumerate() {
        match op {
            W::Write(n) => {
                let from = pts.len();
                let new: Vec<Pt> = (from..from + n).map(|j| pool[j % pool.len()].clone()).collect();
                w.write(kind, l, &new).map_err(|e| format!("write {i}: {e:#}"))?;
                pts.extend(new);
            }
            W::Flush => {
                w.flush().map_err(|e| format!("flush {i}: {e:#}"))?;
                judge(file, l, &ch.bytes(), &pts, what, o)?;
            }
        }
        o.step();
    }
    // the writer's remains
    match w {
        Out::Plain(w) => {
            w.into_inner().map_err(|e| format!("into_inner: {e:#}"))?;
        }
        Out::Buffered(w) => {
            w.into_inner().map_err(|e| format!("into_inner: {e:#}"))?.into_inner().map_err(|e| e.to_string())?;
        }
    }
    judge(file, l, &ch.bytes(), &pts, what, o)
}
fn judge(file: &File, l: &PointLayout, bytes: &[u8], pts: &[Pt], what: What, o: &mut Obs) -> R {
    let f = parse(file, bytes)?;
    o.state(bytes);
    let want = stored(file, l, pts);
    if what == What::Header {
        let here: Vec<Pt> = want;
        return check_header(file, &f, &here);
    }
    ensure_eq!(f.n, file.n, "point format");
    ensure_eq!(f.minor, file.minor, "minor version");
    ensure_eq!(f.record, file.record(), "record length");
    ensure_eq!(f.points.len(), pts.len(), "number of points");
    for (i, (g, w)) in f.points.iter().zip(&want).enumerate() {
        compare(file, &format!("point {i} of {}", pts.len()), g, w)?;
    }
    ensure_eq!(f.vlrs, file.all_vlrs(), "VLRs");
    ensure_eq!(f.evlrs, file.evlrs, "EVLRs");
    // and through the reader
    let mut r = LASReader::from_read(Chan::new(bytes.to_vec()), file.laz, false).map_err(|e| format!("reading back: {e:#}"))?;
    ensure_eq!(r.remaining_points(), pts.len(), "points of the file, read back");
    let b: VectorBuffer = r.read(pts.len()).map_err(|e| format!("reading back: {e:#}"))?;
    ensure_eq!(b.len(), pts.len(), "points read back");
    for (i, (g, w)) in contents(&b).iter().zip(&want).enumerate() {
        for a in attrs(file.fmt()) {
            ensure!(g.contains_key(a.name()), "reading back: the layout has no {}", a.name());
        }
        compare(file, &format!("point {i} of {} read back", pts.len()), g, w)?;
    }
    o.step();
    Ok(())
}
fn extras() -> Vec<(String, D)> {
    vec![("height".into(), D::F64), ("a".into(), D::U8), ("b".into(), D::I16)]
}
/// Files with and without every optional part
fn shapes(n: u8, laz: bool) -> Vec<(String, File)> {
    let base = File { laz, ..File::new(n) };
    let mut v = vec![("plain".to_string(), base.clone())];
    let minors: &[u8] = if n >= 6 { &[4] } else if [4, 5].contains(&n) { &[3] } else { &[2, 3] };
    for m in minors {
        if *m != 4 && !laz {
            v.push((format!("version 1.{m}"), File { minor: *m, ..base.clone() }));
        }
    }
    v.push(("scale and offset".into(), File { scale: [0.001, 0.01, 0.25], off: [1000.25, -3., 1e6], ..base.clone() }));
    let some = vec![vlr("user", 1, "first", vec![1, 2, 3]), vlr("laszip encoded", 22203, "no laszip", vec![4, 5]), vlr("LASF_Spec", 22204, "nor this", vec![6]), vlr("LASF_Spec", 3, "text", b"words".to_vec()), vlr("e", 9, "", vec![])];
    v.push(("VLRs".into(), File { vlrs: some.clone(), ..base.clone() }));
    for pad in [1, 2, 5] {
        v.push((format!("{pad} bytes between the VLRs and the points"), File { vlrs: some.clone(), vlr_pad: pad, ..base.clone() }));
    }
    v.push(("header of a LAZ file".into(), File { vlrs: some.clone(), from_laz: true, ..base.clone() }));
    if !laz {
        v.push(("header padding".into(), File { vlrs: some.clone(), header_pad: 3, ..base.clone() }));
        v.push(("described extra bytes".into(), File { extra: extras(), described: 3, ..base.clone() }));
        v.push(("partly described extra bytes".into(), File { extra: extras(), described: 2, ..base.clone() }));
        v.push(("undescribed extra bytes".into(), File { extra: extras(), described: 0, vlrs: some.clone(), ..base.clone() }));
    }
    v.push(("EVLRs".into(), File { evlrs: vec![vlr("x", 77, "long one", vec![9; 40]), vlr("y", 78, "", vec![1])], ..base.clone() }));
    let many = |m: usize| (0..m).map(|i| vlr(&format!("id{i}"), 100 + i as u16, &"d".repeat(i * 4), vec![i as u8; 7 * i])).collect::<Vec<_>>();
    v.push(("many VLRs and EVLRs".into(), File { vlrs: many(6), evlrs: many(5), ..base }));
    v
}
fn write_words(n: usize, max: usize) -> Vec<Vec<W>> {
    let ops = [W::Write(0), W::Write(1), W::Write(2), W::Flush];
    let _ = max;
    let mut v = vec![];
    for n in 0..=n {
        words(ops.len(), n, &mut |w| v.push(w.iter().map(|i| ops[*i]).collect()));
    }
    v
}

fn writer_shards(what: What, laz: bool) -> Vec<Shard> {
    let mut v = vec![];
    for n in 0..11u8 {
        if laz && n > 8 {
            continue; // refused by the reader: see the documentation of RawLAZReader
        }
        v.push(shard(format!("histories of format {n}"), move |cx| {
            for (sn, file) in shapes(n, laz) {
                let pool: Vec<Pt> = [3, 1, 2, 0, 4, 5, 6].iter().map(|k| point(&file, *k)).collect();
                let deep = cx.tier(2, 4) + (sn == "plain") as usize;
                for (ln, l) in layouts(&file) {
                    for h in write_words(deep, 2) {
                        // a LAZ writer is done after its first flush if there is something behind the points
                        if laz && !file.evlrs.is_empty() && h.contains(&W::Flush) {
                            continue;
                        }
                        let kinds: &[Kind] = if h.len() <= 2 { &KINDS } else { &[Kind::Vector] };
                        for kind in kinds {
                            cx.case(
                                || format!("format {n}, {sn}, layout {ln}, {kind:?}: {h:?}"),
                                |o| write_history(&file, &l, *kind, (h.len() + *kind as usize) % 2 == 1, &h, &pool, what, o),
                            );
                        }
                    }
                }
            }
        }));
    }
    v
}
/// Every pair of values of a scale and an offset with local coordinates
fn grid_shards(what: What, laz: bool) -> Vec<Shard> {
    vec![shard("positions on and between the grid", move |cx| {
        let scales = [1.0, 0.5, 0.1, 0.01, 0.001, 0.0001, 1e-7, 3.0, 0.3];
        let offs = [0.0, 1000.25, -500000.1, 1e7];
        let top = cx.tier(2000i64, 40000);
        for (si, s) in scales.iter().enumerate() {
            for off in offs {
                let file = File { scale: [*s, scales[(si + 1) % scales.len()], *s], off: [off, 0., -off], laz, ..File::new(0) };
                for (ln, l) in [("as in the file", layout_of(&attrs(fmt(0)))), ("position only", layout_of(&[at::POSITION_3D]))] {
                    for frac in [0.0, 0.25, -0.25, 0.49, -0.49] {
                        cx.case(
                            || format!("scale {s}, offset {off}, layout {ln}, coordinates {frac} off the grid"),
                            |o| {
                                let mut pool: Vec<Pt> = vec![];
                                let ends = [i32::MAX as i64, i32::MIN as i64, i32::MAX as i64 - 1, i32::MIN as i64 + 1];
                                for k in (-top..=top).step_by(3).chain(ends) {
                                    let f = if ends.contains(&k) { 0. } else { frac };
                                    let pos: Vec<f64> = (0..3).map(|i| (k as f64 + f) * file.scale[i] + file.off[i]).collect();
                                    let mut p = Pt::new();
                                    p.insert(at::POSITION_3D.name().into(), pos);
                                    p.insert(at::RETURN_NUMBER.name().into(), vec![(k.rem_euclid(8)) as f64]);
                                    pool.push(p);
                                }
                                o.steps(pool.len() as u64);
                                write_history(&file, &l, Kind::Vector, false, &[W::Write(pool.len()), W::Flush], &pool, what, o)
                            },
                        );
                    }
                }
            }
        }
    })]
}
fn large_shards(what: What, laz: bool) -> Vec<Shard> {
    [49_999usize, 50_000, 50_001, 100_001]
        .into_iter()
        .map(|count| {
            shard(format!("{count} points"), move |cx| {
                for n in cx.tier(&[7u8][..], &[0, 1, 2, 3, 4, 5, 6, 7, 8][..]) {
                    let extra = if laz { vec![] } else { extras() };
                    let file = File { laz, described: extra.len(), extra, ..File::new(*n) };
                    let pool: Vec<Pt> = (0..251).map(|k| point(&file, k)).collect();
                    let two = [layouts(&file)[0].clone(), layouts(&file)[2].clone(), layouts(&file)[5].clone()];
                    for (ln, l) in two.iter().cloned().skip(cx.tier(count % 2, 0)) {
                        for h in [vec![W::Write(count), W::Flush], vec![W::Write(3), W::Write(count), W::Flush, W::Write(2)]] {
                            cx.case(
                                || format!("format {n}, layout {ln}: {h:?}"),
                                |o| write_history(&file, &l, if ln == "as in the file" { Kind::HashMap } else { Kind::Vector }, false, &h, &pool, what, o),
                            );
                        }
                    }
                }
            })
        })
        .collect()
}

/// The points of a file
pub fn c37(_: bool) -> Vec<Shard> {
    let mut v = writer_shards(What::Points, false);
    v.extend(grid_shards(What::Points, false));
    v.extend(large_shards(What::Points, false));
    v
}
/// The header of a file
pub fn c38(_: bool) -> Vec<Shard> {
    let mut v = writer_shards(What::Header, false);
    v.extend(grid_shards(What::Header, false));
    v.extend(large_shards(What::Header, false));
    for n in [0u8, 3, 6] {
        v.push(shard(format!("many points of one return, format {n}"), move |cx| {
            let file = File::new(n);
            for (ln, l) in [layouts(&file)[0].clone(), layouts(&file)[5].clone()] {
                for r in cx.tier(&[1u8, 5][..], &[1, 2, 3, 4, 5][..]) {
                    let mut p = point(&file, 4);
                    p.insert(at::RETURN_NUMBER.name().into(), vec![*r as f64]);
                    for h in [vec![W::Write(65_536)], vec![W::Write(65_535), W::Flush, W::Write(5)]] {
                        cx.case(
                            || format!("layout {ln}, return {r}: {h:?}"),
                            |o| write_history(&file, &l, Kind::Vector, false, &h, &[p.clone()], What::Header, o),
                        );
                    }
                }
            }
        }));
    }
    v.push(shard("every return number", |cx| {
        for n in 0..11u8 {
            let file = File::new(n);
            let top = if n < 6 { 7 } else { 15 };
            for (ln, l) in [layouts(&file)[0].clone(), layouts(&file)[3].clone()] {
                for from in 0..=top {
                    for count in [1, 2, top + 3] {
                        let pool: Vec<Pt> = (0..count)
                            .map(|i| {
                                let mut p = point(&file, 4);
                                p.insert(at::RETURN_NUMBER.name().into(), vec![((from + i * (1 + from % 2)) % (top + 1)) as f64]);
                                p
                            })
                            .collect();
                        cx.case(
                            || format!("format {n}, layout {ln}, {count} points from return {from}"),
                            |o| write_history(&file, &l, Kind::Vector, false, &[W::Write(count), W::Flush, W::Write(1)], &pool, What::Header, o),
                        );
                    }
                }
            }
        }
    }));
    v
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Read(usize),
    Into(usize, usize),
    Start(u64),
    End(i64),
    Current(i64),
    Index,
    Count,
}
fn expected(file: &File, l: &PointLayout, p: &Pt) -> Pt {
    let _ = file;
    l.attributes()
        .map(|a| {
            let v = p.get(a.name()).cloned().unwrap_or(vec![0.; parts(a.datatype()).1]);
            (a.name().to_string(), cast(a.datatype(), &v))
        })
        .collect()
}
fn filled(l: &PointLayout, n: usize, kind: Kind) -> Box<dyn FnOnce(&mut dyn FnMut(&mut dyn Target) -> R) -> R> {
    let l = l.clone();
    Box::new(move |f| match kind {
        Kind::HashMap => {
            let mut b = HashMapBuffer::new_from_layout(l);
            b.resize(n);
            f(&mut b)
        }
        Kind::External => {
            let mut b = ExternalMemoryBuffer::new(vec![0u8; l.size_of_point_entry() as usize * n], l);
            f(&mut b)
        }
        Kind::Slice => {
            let mut b = VectorBuffer::new_from_layout(l);
            b.resize(n + 2);
            let mut s = b.slice_mut(1..1 + n);
            f(&mut s)
        }
        Kind::HashMapSlice => {
            let mut b = HashMapBuffer::new_from_layout(l);
            b.resize(n + 2);
            let mut s = b.slice_mut(1..1 + n);
            f(&mut s)
        }
        Kind::Vector => {
            let mut b = VectorBuffer::new_from_layout(l);
            b.resize(n);
            f(&mut b)
        }
    })
}
/// Object-safe view of the buffers
trait Target {
    fn fill_from(&mut self, r: &mut LASReader<'static, Chan>, n: usize) -> anyhow::Result<usize>;
    fn all(&self) -> Vec<Pt>;
}
impl<'a, B: BorrowedMutBuffer<'a>> Target for B {
    fn fill_from(&mut self, r: &mut LASReader<'static, Chan>, n: usize) -> anyhow::Result<usize> {
        r.read_into(self, n)
    }
    fn all(&self) -> Vec<Pt> {
        contents(self)
    }
}
fn same_points(what: &str, l: &PointLayout, got: &[Pt], want: &[Pt], file: &File) -> R {
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        let e = expected(file, l, w);
        for (name, v) in &e {
            let g = &g[name];
            let ok = if name == at::POSITION_3D.name() {
                let single = l.get_attribute_by_name(name).unwrap().datatype() == D::Vec3f32;
                (0..3).all(|k| {
                    // single precision: the file coordinate and the result are rounded, nothing else
                    let tol = if single { ((w[name][k] - file.off[k]).abs() + w[name][k].abs()) * 6e-8 + 1e-12 } else { (v[k].abs() + file.off[k].abs()) * 1e-15 };
                    (g[k] - v[k]).abs() <= tol
                })
            } else {
                same(g, v)
            };
            ensure!(ok, "{what}: {name} of point {i} is {g:?}, expected {v:?}");
        }
    }
    Ok(())
}
fn read_history(file: &File, bytes: &[u8], pts: &[Pt], matching: bool, target: Option<&PointLayout>, kind: Kind, h: &[Op], chunk: usize, o: &mut Obs) -> R {
    let mut r = LASReader::from_read(Chan::new(bytes.to_vec()).chunked(chunk), file.laz, matching).map_err(|e| format!("opening: {e:#}"))?;
    let total = pts.len();
    ensure_eq!(r.get_metadata().number_of_points(), Some(total), "number of points in the metadata");
    let hd = r.header();
    ensure_eq!(hd.vlr_padding().len(), file.vlr_pad, "bytes between the VLRs and the points in the header");
    let of = |v: &las::Vlr| (v.user_id.clone(), v.record_id, v.description.clone(), v.data.clone());
    let all = file.all_vlrs();
    ensure_eq!(hd.vlrs().len(), all.len(), "VLRs in the header");
    for (g, w) in hd.vlrs().iter().zip(&all) {
        ensure_eq!(of(g), (w.user.clone(), w.id, w.desc.clone(), w.data.clone()), "VLR");
    }
    let l = r.get_default_point_layout().clone();
    let mut want = if matching { exact(file.fmt()) } else { attrs(file.fmt()) };
    want.extend(file.extra_layout());
    ensure_eq!(l.attributes().count(), want.len(), "number of attributes of the default layout");
    for a in &want {
        ensure!(l.has_attribute(a), "the default layout has no {a:?}: {l}");
    }
    let mut at = 0usize;
    let target = target.unwrap_or(&l);
    for (i, op) in h.iter().enumerate() {
        let what = format!("operation {i}, {op:?}");
        match op {
            Op::Read(n) => {
                let b: VectorBuffer = r.read(*n).map_err(|e| format!("{what}: {e:#}"))?;
                let k = (*n).min(total - at);
                ensure_eq!(b.len(), k, "{what}: points");
                same_points(&what, &l, &contents(&b), &pts[at..at + k], file)?;
                at += k;
            }
            Op::Into(len, n) => {
                let k = (*n).min(total - at);
                filled(target, *len, kind)(&mut |b| {
                    let before = b.all();
                    let got = b.fill_from(&mut r, *n).map_err(|e| format!("{what}: {e:#}"))?;
                    ensure_eq!(got, k, "{what}: number of points read");
                    let after = b.all();
                    same_points(&what, target, &after[..k], &pts[at..at + k], file)?;
                    for j in k..*len {
                        ensure!(after[j] == before[j], "{what}: point {j} behind the {k} points that were read changed");
                    }
                    Ok(())
                })?;
                at += k;
            }
            Op::Start(_) | Op::End(_) | Op::Current(_) => {
                let (s, p) = match op {
                    Op::Start(p) => (SeekFrom::Start(*p), *p as i128),
                    Op::End(d) => (SeekFrom::End(*d), total as i128 + *d as i128),
                    Op::Current(d) => (SeekFrom::Current(*d), at as i128 + *d as i128),
                    _ => unreachable!(),
                };
                if p < 0 {
                    // an error by the documentation of the reader: refused in one way or the other
                    let res = guard(|| r.seek_point(s));
                    ensure!(!matches!(res, Ok(Ok(_))), "{what}: a seek to {p} succeeded");
                    return Ok(());
                }
                let e = p.min(total as i128) as usize;
                let g = no_panic(|| what.clone(), || r.seek_point(s))?.map_err(|e| format!("{what}: {e:#}"))?;
                ensure_eq!(g, e, "{what}: position");
                at = e;
            }
            Op::Index => {
                let g = r.point_index().map_err(|e| format!("{what}: {e:#}"))?;
                ensure_eq!(g, at, "{what}");
            }
            Op::Count => {
                let g = r.point_count().map_err(|e| format!("{what}: {e:#}"))?;
                ensure_eq!(g, total, "{what}");
            }
        }
        ensure_eq!(r.remaining_points(), total - at, "{what}: remaining points");
        o.state(&(at, i, total, matching, file.n, bytes.len()));
        o.step();
    }
    Ok(())
}
fn read_ops(total: usize) -> Vec<Op> {
    vec![
        Op::Read(0),
        Op::Read(1),
        Op::Read(2),
        Op::Read(total + 2),
        Op::Into(1, 1),
        Op::Into(3, 2),
        Op::Into(total + 3, total + 1),
        Op::Start(0),
        Op::Start(1),
        Op::Start(total as u64 + 5),
        Op::End(0),
        Op::End(-1),
        Op::End(2),
        Op::End(-(total as i64) - 1),
        Op::Current(1),
        Op::Current(-1),
        Op::Index,
        Op::Count,
    ]
}
fn reader_shards(laz: bool) -> Vec<Shard> {
    let mut v = vec![];
    for n in 0..11u8 {
        if laz && n > 8 {
            continue;
        }
        v.push(shard(format!("histories of format {n}"), move |cx| {
            for (sn, file) in shapes(n, laz) {
                for total in [0usize, 1, 4] {
                    let pts: Vec<Pt> = [3, 1, 2, 5].iter().take(total).map(|k| point(&file, *k)).collect();
                    let bytes = file.bytes(&pts);
                    let ops = read_ops(total);
                    let plain = sn == "plain" && total == 4;
                    for depth in 0..=(cx.tier(1, 2) + plain as usize) {
                        words(ops.len(), depth, &mut |w| {
                            let h: Vec<Op> = w.iter().map(|i| ops[*i]).collect();
                            for matching in [false, true] {
                                cx.case(
                                    || format!("format {n}, {sn}, {total} points, exact {matching}: {h:?}"),
                                    |o| read_history(&file, &bytes, &pts, matching, None, Kind::Vector, &h, usize::MAX, o),
                                );
                            }
                        });
                    }
                    // every layout and kind of target
                    for (ln, l) in layouts(&file).into_iter().chain([("exact", layout_of(&exact(file.fmt()))), ("exact, other types of the same total size", layout_of(&retype(&exact(file.fmt()), &shifted())))]) {
                        for kind in KINDS {
                            for h in [vec![Op::Into(total + 1, total)], vec![Op::Start(1), Op::Into(3, 2), Op::Into(2, 2), Op::End(-1), Op::Into(2, 1)]] {
                                if total == 0 && h.len() > 1 {
                                    continue;
                                }
                                for matching in [false, true] {
                                    for chunk in [usize::MAX, 1, 7] {
                                        cx.case(
                                            || format!("format {n}, {sn}, {total} points into {ln} ({kind:?}), exact {matching}, {chunk} bytes per read: {h:?}"),
                                            |o| read_history(&file, &bytes, &pts, matching, Some(&l), kind, &h, chunk, o),
                                        );
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }));
    }
    v.push(shard("single precision positions", move |cx| {
        for (scale, off) in [([0.5, 0.25, 2.0], [16., -8., 0.]), ([0.001, 0.01, 0.1], [652341.123, 5412345.987, -12.3]), ([0.01, 1e-7, 0.3], [-1e6 - 1. / 3., 0.1, 16777217.]), ([1., 0.001, 1e-4], [1e9 + 1., -999.999, 3e-5])] {
            let file = File { scale, off, laz, ..File::new(1) };
            let pts: Vec<Pt> = (3..40).map(|k| point(&file, k)).collect();
            let bytes = file.bytes(&pts);
            let l = layout_of(&[at::POSITION_3D.with_custom_datatype(D::Vec3f32), at::CLASSIFICATION]);
            for kind in KINDS {
                cx.case(
                    || format!("{kind:?}, scale {scale:?}, offset {off:?}"),
                    |o| read_history(&file, &bytes, &pts, false, Some(&l), kind, &[Op::Into(37, 37), Op::Start(1), Op::Into(4, 2)], usize::MAX, o),
                );
            }
        }
    }));
    v.push(shard("reads that must be refused", move |cx| {
        let types = [D::U8, D::I8, D::U16, D::I16, D::U32, D::I32, D::U64, D::I64, D::F32, D::F64, D::Vec3u8, D::Vec3u16, D::Vec3i32, D::Vec4u8, D::ByteArray(24), D::ByteArray(3)];
        for n in 0..if laz { 9u8 } else { 11 } {
            let file = File { laz, ..File::new(n) };
            let pts: Vec<Pt> = (1..4).map(|k| point(&file, k)).collect();
            let bytes = file.bytes(&pts);
            for kind in KINDS {
                for matching in [false, true] {
                    for before in [0usize, 1] {
                        // (layout or the default layout, length of the buffer, points to read)
                        let mut cases: Vec<(Option<PointLayout>, usize, usize)> = vec![];
                        for len in 0..3 {
                            for count in [len + 1, len + 2, usize::MAX] {
                                cases.push((None, len, count));
                                cases.push((Some(layout_of(&[at::CLASSIFICATION, at::POSITION_3D])), len, count));
                            }
                        }
                        for t in types {
                            cases.push((Some(layout_of(&[at::CLASSIFICATION, at::POSITION_3D.with_custom_datatype(t)])), 2, 2));
                        }
                        for t in [D::Vec3u16, D::Vec3f64, D::ByteArray(2), D::Vec4u8] {
                            cases.push((Some(layout_of(&[at::INTENSITY.with_custom_datatype(t), at::CLASSIFICATION])), 2, 2));
                        }
                        for (l, len, count) in cases {
                            cx.case(
                                || format!("format {n}, {kind:?}, exact {matching}, after {before} points, {count} points into {len} of {}", l.as_ref().map(|l| l.to_string()).unwrap_or("the default layout".into())),
                                |o| {
                                    let mut r = LASReader::from_read(Chan::new(bytes.clone()), laz, matching).map_err(|e| format!("{e:#}"))?;
                                    r.seek_point(SeekFrom::Start(before as u64)).map_err(|e| e.to_string())?;
                                    let l = l.clone().unwrap_or(r.get_default_point_layout().clone());
                                    filled(&l, len, kind)(&mut |b: &mut dyn Target| {
                                        let old = b.all();
                                        let refused = guard(|| b.fill_from(&mut r, count).is_err()).unwrap_or(true);
                                        ensure!(refused, "{count} points into a buffer of {len} points with {l} must be refused");
                                        ensure_eq!(b.all(), old, "the buffer");
                                        Ok(())
                                    })?;
                                    o.state(&(n, len, count));
                                    o.step();
                                    // a reader may have passed points by then, but it must know where it is
                                    let before = r.point_index().map_err(|e| e.to_string())?;
                                    ensure!(before <= 3, "the position after the refusal is {before} of 3");
                                    let l = r.get_default_point_layout().clone();
                                    let mut b = VectorBuffer::new_from_layout(l.clone());
                                    b.resize(3 - before);
                                    let k = r.read_into(&mut b, 3 - before).map_err(|e| format!("reading after the refusal: {e:#}"))?;
                                    ensure_eq!(k, 3 - before, "points read after the refusal");
                                    let whole: Vec<Pt> = pts[before..].iter().map(|p| file.complete(p)).collect();
                                    same_points("after the refusal", &l, &contents(&b), &whole, &file)
                                },
                            );
                        }
                    }
                }
            }
        }
    }));
    if laz {
        v.push(shard("compressed files that cannot be read", |cx| {
            for n in 0..11u8 {
                for vlrs in 0..3usize {
                    for total in [0usize, 2] {
                        cx.case(
                            || format!("format {n}, {vlrs} other VLRs, {total} points"),
                            |o| {
                                let mut file = File { laz: n >= 9, ..File::new(n) };
                                file.vlrs = (0..vlrs).map(|i| vlr(["laszip", "LASF_Spec"][i], [22204, 3][i], "text", vec![65; 8])).collect();
                                let pts: Vec<Pt> = (0..total).map(|k| point(&file, k)).collect();
                                let mut b = file.bytes(&pts);
                                b[104] |= 0x80; // compressed
                                o.state(&(n, vlrs, total));
                                o.step();
                                let r = no_panic(|| "opening".into(), || LASReader::from_read(Chan::new(b), true, false).is_err())?;
                                if n < 9 {
                                    ensure!(r, "a compressed file without a LASzip VLR must be refused");
                                }
                                Ok(())
                            },
                        );
                    }
                }
            }
        }));
    }
    v.push(shard("extreme seeks", move |cx| {
        let near = |x: u64| (x.saturating_sub(2)..=x.saturating_add(2)).collect::<Vec<_>>();
        for n in [0u8, 7] {
            let file = File { laz, ..File::new(n) };
            for total in [0usize, 1, 4] {
                let pts: Vec<Pt> = [3, 1, 2, 5].iter().take(total).map(|k| point(&file, *k)).collect();
                let bytes = file.bytes(&pts);
                let mut seeks = vec![];
                for b in [1u64 << 31, 1 << 32, i64::MAX as u64, u64::MAX, u64::MAX / file.record() as u64, i64::MAX as u64 / file.record() as u64] {
                    for x in near(b) {
                        seeks.push(Op::Start(x));
                        for y in [x as i64, (x as i64).wrapping_neg()] {
                            seeks.extend([Op::End(y), Op::Current(y)]);
                        }
                    }
                }
                for s in seeks {
                    for first in [Op::Index, Op::Read(1)] {
                        for matching in [false, true] {
                            let h = [first, s, Op::Index, Op::Read(2), Op::Start(1), Op::Read(1)];
                            cx.case(
                                || format!("format {n}, {total} points, exact {matching}: {h:?}"),
                                |o| read_history(&file, &bytes, &pts, matching, None, Kind::Vector, &h, usize::MAX, o),
                            );
                        }
                    }
                }
            }
        }
    }));
    // the chunks of the reader: 1 MiB of records
    for n in 0..9u8 {
        v.push(shard(format!("many points of format {n}"), move |cx| {
            let file = File { laz, ..File::new(n) };
            let per = (1 << 20) / file.record();
            let pool: Vec<Pt> = (0..251).map(|k| point(&file, k)).collect();
            let sizes = cx.tier(
                match n {
                    1 => vec![per, 2 * per + 1],
                    4 => vec![per - 1, 2 * per + 2],
                    7 => vec![per + 1, 2 * per],
                    _ => vec![],
                },
                vec![per - 1, per, per + 1, 2 * per, 2 * per + 1],
            );
            for total in sizes {
                let pts: Vec<Pt> = (0..total).map(|i| pool[i % pool.len()].clone()).collect();
                let bytes = file.bytes(&pts);
                let all = layouts(&file);
                for (ln, l) in [all[0].clone(), all[6].clone(), ("exact", layout_of(&exact(file.fmt())))] {
                    for kind in [Kind::Vector, Kind::HashMap] {
                        let far = (total - 2) as u64;
                        for h in [
                            vec![Op::Into(total + 1, total), Op::Start(3), Op::Into(total, total)],
                            vec![Op::Start(far), Op::Into(3, 2), Op::Start(far / 2 + 7), Op::Into(2, 2), Op::Current(far as i64 / 3), Op::Into(3, 3), Op::End(-(total as i64) + 9), Op::Read(1)],
                        ] {
                            cx.case(
                                || format!("format {n}, {total} points into {ln} ({kind:?}): {h:?}"),
                                |o| read_history(&file, &bytes, &pts, false, Some(&l), kind, &h, usize::MAX, o),
                            );
                        }
                    }
                }
            }
        }));
    }
    for n in [0u8, 3, 6, 8] {
        v.push(shard(format!("descriptions of extra bytes, format {n}"), move |cx| odd_extra_bytes(n, laz, cx)));
    }
    v
}
/// Extra Bytes records that are complete, incomplete, ambiguous or not meant for points at all: the file is
/// read as described, or it is refused
fn odd_extra_bytes(n: u8, laz: bool, cx: &mut Cx) {
    let kinds: [(u8, u8, Option<D>); 8] =
        [(1, 0, Some(D::U8)), (4, 0, Some(D::I16)), (9, 0, Some(D::F32)), (0, 1, None), (0, 3, None), (11, 0, None), (30, 0, None), (255, 255, None)];
    let names: Vec<Vec<u8>> = [&b"a"[..], b"b", b"", b"Intensity", b"Position3D", b"PointFlags", b"UndescribedExtraBytes", "\u{e4}\u{2192}".as_bytes(), &[b'x'; 32], &[b'x', 0xff, 0xc0]].iter().map(|n| n.to_vec()).collect();
    let top = cx.tier(2, 3);
    let base = File { laz, ..File::new(n) };
    for len in 1..=top {
        words(kinds.len() * names.len(), len, &mut |w| {
            if len == 3 && w.iter().any(|i| i % kinds.len() > 3 || i / kinds.len() == 9) {
                return;
            }
            let entries: Vec<_> = w.iter().map(|i| (&kinds[i % kinds.len()], &names[i / kinds.len()])).collect();
            let known: Option<Vec<(String, D)>> = entries.iter().map(|(k, n)| Some((String::from_utf8(n.to_vec()).ok()?, k.2?))).collect();
            let size: usize = known.iter().flatten().map(|k| k.1.size() as usize).sum();
            let mut data = vec![];
            for (k, name) in &entries {
                let mut e = vec![0u8; 192];
                (e[2], e[3]) = (k.0, k.1);
                e[4..4 + name.len()].copy_from_slice(name);
                data.extend(e);
            }
            for there in [size.saturating_sub(1), size, size + 1, size + 3] {
                let mut taken: Vec<String> = attrs(base.fmt()).iter().chain(&exact(base.fmt())).map(|a| a.name().to_string()).collect();
                if there > size {
                    taken.push("UndescribedExtraBytes".into());
                }
                let plain = known.as_ref().filter(|k| size <= there && k.iter().enumerate().all(|(i, a)| !taken.contains(&a.0) && k[..i].iter().all(|b| b.0 != a.0)));
                let file = match plain {
                    Some(k) => {
                        let mut extra = k.clone();
                        extra.extend((0..there - size).map(|i| (format!("rest {i}"), D::U8)));
                        File { extra, described: k.len(), ..base.clone() }
                    }
                    None => File { extra: (0..there).map(|i| (format!("rest {i}"), D::U8)).collect(), vlrs: vec![vlr("LASF_Spec", 4, "", data.clone())], ..base.clone() },
                };
                let pts: Vec<Pt> = [3, 1].iter().map(|k| point(&file, *k)).collect();
                let bytes = file.bytes(&pts);
                for matching in [false, true] {
                    cx.case(
                        || format!("format {n}, exact {matching}, {there} extra bytes, described as {:?}", entries.iter().map(|(k, n)| (k.0, k.1, String::from_utf8_lossy(n))).collect::<Vec<_>>()),
                        |o| {
                            if plain.is_some() {
                                return read_history(&file, &bytes, &pts, matching, None, Kind::Vector, &[Op::Read(2), Op::Start(1), Op::Into(1, 1)], usize::MAX, o);
                            }
                            o.step();
                            o.state(&(w, there, matching));
                            let r = no_panic(|| "opening".into(), || LASReader::from_read(Chan::new(bytes.clone()), laz, matching))?;
                            let Ok(mut r) = r else { return Ok(()) };
                            // whatever it makes of the extra bytes, the points are the points
                            let b: VectorBuffer = match no_panic(|| "reading".into(), || r.read(2))? {
                                Ok(b) => b,
                                Err(_) => return Ok(()),
                            };
                            let l = layout_of(&if matching { exact(file.fmt()) } else { attrs(file.fmt()) });
                            let got: Vec<Pt> = contents(&b);
                            ensure_eq!(got.len(), 2, "points");
                            same_points("read", &l, &got, &pts, &file)
                        },
                    );
                }
            }
        });
    }
}
/// Reading
pub fn c39(_: bool) -> Vec<Shard> {
    let mut v = reader_shards(false);
    for n in 0..11u8 {
        v.push(shard(format!("cut files of format {n}"), move |cx| {
            for (sn, file) in shapes(n, false) {
                let pts: Vec<Pt> = [3, 1, 2].iter().map(|k| point(&file, *k)).collect();
                let file = File { evlrs: vec![], ..file };
                let bytes = file.bytes(&pts);
                let start = bytes.len() - 3 * file.record();
                let cuts: Vec<usize> = (0..bytes.len()).filter(|c| cx.thorough || *c % 5 == 0 || *c + 2 >= start).collect();
                for cut in cuts {
                    cx.case(
                        || format!("format {n}, {sn}, first {cut} of {} bytes", bytes.len()),
                        |o| {
                            let r = no_panic(|| "opening".into(), || LASReader::from_read(Chan::new(bytes[..cut].to_vec()), false, false))?;
                            let Ok(mut r) = r else {
                                ensure!(cut < start, "the header and the VLRs are complete, but the file does not open");
                                return Ok(());
                            };
                            ensure!(cut + file.vlr_pad >= start, "a file without all of its header and VLRs opens");
                            let whole = cut.saturating_sub(start) / file.record();
                            for k in 1..=3usize {
                                r.seek_point(SeekFrom::Start(0)).map_err(|e| e.to_string())?;
                                let mut b = VectorBuffer::new_from_layout(r.get_default_point_layout().clone());
                                b.resize(k);
                                let g = no_panic(|| format!("reading {k}"), || r.read_into(&mut b, k))?;
                                match g {
                                    Ok(g) => {
                                        ensure!(k <= whole, "{g} points read, {whole} are there");
                                        same_points("read", b.point_layout(), &contents(&b)[..g], &pts, &file)?;
                                    }
                                    Err(_) => {
                                        ensure!(k > whole, "{k} points are there, but reading them fails");
                                        return Ok(());
                                    }
                                }
                                o.step();
                            }
                            Ok(())
                        },
                    );
                }
            }
        }));
    }
    v
}
/// LAZ
pub fn c40(_: bool) -> Vec<Shard> {
    let pre = |p: &str, v: Vec<Shard>| -> Vec<Shard> {
        v.into_iter().map(|s| Shard { name: format!("{p}: {}", s.name), run: s.run }).collect()
    };
    let mut v = pre("points", writer_shards(What::Points, true));
    v.extend(pre("header", writer_shards(What::Header, true)));
    v.extend(pre("points", grid_shards(What::Points, true)));
    v.extend(pre("points", large_shards(What::Points, true)));
    v.extend(pre("header", large_shards(What::Header, true)));
    v.extend(pre("read", reader_shards(true)));
    v
}
/// Faults
pub fn c42(_: bool) -> Vec<Shard> {
    let mut v = vec![];
    for laz in [false, true] {
        v.push(shard(format!("reading, compressed {laz}"), move |cx| {
            for n in [0u8, 3, 5, 7, 8] {
                for (sn, file) in shapes(n, laz) {
                    let pts: Vec<Pt> = [3, 1, 2].iter().map(|k| point(&file, *k)).collect();
                    let bytes = file.bytes(&pts);
                    let all = layouts(&file);
                    for (ln, l) in [all[0].clone(), all[5].clone(), ("exact", layout_of(&exact(file.fmt())))] {
                        for once in [true, false] {
                            for at in 0..cx.tier(70, 400) {
                                let chunk = if at % 2 == 0 { usize::MAX } else { 11 };
                                cx.case(
                                    || format!("format {n}, {sn} into {ln}: operation {at} fails (once {once}), {chunk} bytes per read"),
                                    |o| {
                                        let ch = Chan::new(bytes.clone()).chunked(chunk).failing(at, once, ErrorKind::Other);
                                        let st = ch.handle();
                                        let run = || -> anyhow::Result<Vec<Pt>> {
                                            let mut r = LASReader::from_read(ch, laz, false)?;
                                            let mut b = VectorBuffer::new_from_layout(l.clone());
                                            b.resize(3);
                                            r.read_into(&mut b, 1)?;
                                            r.seek_point(SeekFrom::Start(0))?;
                                            r.read_into(&mut b, 3)?;
                                            Ok(contents(&b))
                                        };
                                        let res = no_panic(|| "reading".into(), run)?;
                                        o.step();
                                        o.state(&(st.ops(), res.is_ok()));
                                        match res {
                                            Ok(p) => {
                                                ensure!(st.failures() == 0, "a failed operation was not reported");
                                                same_points("read", &l, &p, &pts, &file)
                                            }
                                            Err(e) => {
                                                ensure!(st.failures() > 0, "reading fails without a fault: {e:#}");
                                                Ok(())
                                            }
                                        }
                                    },
                                );
                            }
                        }
                    }
                }
            }
        }));
        v.push(shard(format!("writing, compressed {laz}"), move |cx| {
            for n in [0u8, 3, 5, 7, 8] {
                for (sn, file) in shapes(n, laz) {
                    let pool: Vec<Pt> = [3, 1, 2].iter().map(|k| point(&file, *k)).collect();
                    let all = layouts(&file);
                    for (ln, l) in [all[0].clone(), all[5].clone()] {
                        let write = |ch: Chan| -> anyhow::Result<()> {
                            let mut w = LASWriter::from_writer_and_header(ch, header(&file), laz)?;
                            w.write(&vector(&l, &pool[..1]))?;
                            w.write(&vector(&l, &pool[1..]))?;
                            w.flush()?;
                            Ok(())
                        };
                        let clean = Chan::new(vec![]);
                        let h = clean.handle();
                        if guard(|| write(clean)).map_or(true, |r| r.is_err()) {
                            continue; // the histories of C37 report it
                        }
                        let (total, size) = (h.ops(), h.bytes().len());
                        let step = cx.tier(3, 1);
                        for at in (0..total).filter(|a| a % step == 0 || *a + 12 > total) {
                            for once in [true, false] {
                                cx.case(
                                    || format!("format {n}, {sn} from {ln}: operation {at} of {total} fails (once {once})"),
                                    |o| {
                                        let ch = Chan::new(vec![]).failing(at, once, ErrorKind::Other);
                                        let st = ch.handle();
                                        let res = no_panic(|| "writing".into(), || write(ch))?;
                                        ensure!(st.failures() > 0, "harness: the operation was not reached");
                                        ensure!(res.is_err(), "a failed operation was not reported");
                                        o.step();
                                        o.state(&st.bytes());
                                        Ok(())
                                    },
                                );
                            }
                        }
                        let each = cx.tier(7, 1);
                        for cap in (0..size).filter(|c| c % each == 0 || c + 2 > size) {
                            cx.case(
                                || format!("format {n}, {sn} from {ln}: the device holds {cap} of {size} bytes"),
                                |o| {
                                    let ch = Chan::new(vec![]);
                                    ch.s.lock().unwrap().capacity = cap;
                                    let st = ch.handle();
                                    let res = no_panic(|| "writing".into(), || write(ch))?;
                                    ensure!(res.is_err(), "a full device was not reported");
                                    o.step();
                                    o.state(&st.bytes());
                                    Ok(())
                                },
                            );
                        }
                    }
                }
            }
        }));
    }
    v
}
/// The packed bits of a record
pub fn c44(_: bool) -> Vec<Shard> {
    vec![
        shard("legacy", |cx| {
            let top = cx.tier(18u32, 256);
            let vals: Vec<u8> = (0..top).map(|v| v as u8).chain([31, 64, 127, 128, 129, 200, 254, 255]).collect();
            for rn in vals.clone() {
                cx.case(
                    || format!("return number {rn} and every other combination"),
                    |o| {
                        for nr in &vals {
                            for dir in [0u8, 1, 2, 3, 255] {
                                for edge in [0u8, 1, 2, 3, 255] {
                                    let mut out = vec![];
                                    write_las_bit_attributes(
                                        BitAttributes::Regular(BitAttributesRegular {
                                            return_number: rn,
                                            number_of_returns: *nr,
                                            scan_direction_flag: dir,
                                            edge_of_flight_line: edge,
                                        }),
                                        &mut out,
                                    )
                                    .map_err(|e| e.to_string())?;
                                    ensure_eq!(out.len(), 1, "bytes written");
                                    let w = out[0];
                                    o.step();
                                    ensure_eq!(
                                        [w & 7, w >> 3 & 7, w >> 6 & 1, w >> 7],
                                        [rn & 7, nr & 7, dir & 1, edge & 1],
                                        "return {rn}, returns {nr}, direction {dir}, edge {edge}"
                                    );
                                    o.state(&w);
                                }
                            }
                        }
                        Ok(())
                    },
                );
            }
        }),
        shard("extended", |cx| {
            let top = cx.tier(18u32, 64);
            let vals: Vec<u8> = (0..top).map(|v| v as u8).chain([31, 64, 127, 128, 200, 255]).collect();
            for rn in vals.clone() {
                for nr in vals.clone() {
                    cx.case(
                        || format!("return number {rn}, returns {nr} and every other combination"),
                        |o| {
                            for fl in &vals {
                                for ch in [0u8, 1, 2, 3, 4, 7, 255] {
                                    for (dir, edge) in [(0u8, 0u8), (0, 1), (1, 0), (1, 1), (2, 3), (255, 254)] {
                                        let mut out = vec![];
                                        write_las_bit_attributes(
                                            BitAttributes::Extended(BitAttributesExtended {
                                                return_number: rn,
                                                number_of_returns: nr,
                                                classification_flags: *fl,
                                                scanner_channel: ch,
                                                scan_direction_flag: dir,
                                                edge_of_flight_line: edge,
                                            }),
                                            &mut out,
                                        )
                                        .map_err(|e| e.to_string())?;
                                        ensure_eq!(out.len(), 2, "bytes written");
                                        let (a, b) = (out[0], out[1]);
                                        o.step();
                                        ensure_eq!(
                                            [a & 15, a >> 4, b & 15, b >> 4 & 3, b >> 6 & 1, b >> 7],
                                            [rn & 15, nr & 15, fl & 15, ch & 3, dir & 1, edge & 1],
                                            "return {rn}, returns {nr}, flags {fl}, channel {ch}, direction {dir}, edge {edge}"
                                        );
                                        o.state(&(a, b));
                                    }
                                }
                            }
                            Ok(())
                        },
                    );
                }
            }
        }),
    ]
}
