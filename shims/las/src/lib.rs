//! Offline stand-in for the `las` crate, version 0.8 (las-rs): the part of its interface that
//! pasture-io uses, written from the ASPRS LAS 1.4 R15 specification (record layouts) and the
//! published behaviour of las-rs (which features a version supports, how a raw header becomes a
//! header and back). It is bound to real files by pasture's own test resources, see DESIGN.md.
#![allow(clippy::too_many_arguments)]
use std::fmt;

pub type Result<T> = std::result::Result<T, Error>;

#[derive(Debug)]
pub enum Error {
    Io(std::io::Error),
    Other(String),
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Error::Io(e) => write!(f, "{e}"),
            Error::Other(e) => write!(f, "{e}"),
        }
    }
}
impl std::error::Error for Error {}
impl From<std::io::Error> for Error {
    fn from(e: std::io::Error) -> Self {
        Error::Io(e)
    }
}
fn err<T>(s: impl Into<String>) -> Result<T> {
    Err(Error::Other(s.into()))
}

#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Vector<T> {
    pub x: T,
    pub y: T,
    pub z: T,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Transform {
    pub scale: f64,
    pub offset: f64,
}
impl Default for Transform {
    fn default() -> Self {
        Transform {
            scale: 0.001,
            offset: 0.,
        }
    }
}
impl Transform {
    pub fn direct(&self, n: i32) -> f64 {
        self.scale * f64::from(n) + self.offset
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Bounds {
    pub min: Vector<f64>,
    pub max: Vector<f64>,
}
impl Default for Bounds {
    fn default() -> Self {
        Bounds {
            min: Vector {
                x: f64::INFINITY,
                y: f64::INFINITY,
                z: f64::INFINITY,
            },
            max: Vector {
                x: f64::NEG_INFINITY,
                y: f64::NEG_INFINITY,
                z: f64::NEG_INFINITY,
            },
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Version {
    pub major: u8,
    pub minor: u8,
}
impl Default for Version {
    fn default() -> Self {
        Version { major: 1, minor: 2 }
    }
}
impl Version {
    pub fn new(major: u8, minor: u8) -> Self {
        Version { major, minor }
    }
    fn at_least(&self, minor: u8) -> bool {
        self.major == 1 && self.minor >= minor
    }
    pub fn supports_waveforms(&self) -> bool {
        self.at_least(3)
    }
    pub fn supports_evlrs(&self) -> bool {
        self.at_least(4)
    }
    pub fn supports_large_files(&self) -> bool {
        self.at_least(4)
    }
    pub fn supports_point_format(&self, format: point::Format) -> bool {
        if format.is_extended {
            return self.at_least(4);
        }
        if format.has_waveform && !self.at_least(3) {
            return false;
        }
        if format.has_color && !self.at_least(2) {
            return false;
        }
        true
    }
    pub fn header_size(&self) -> u16 {
        if self.at_least(4) {
            375
        } else if self.at_least(3) {
            235
        } else {
            227
        }
    }
}
impl From<(u8, u8)> for Version {
    fn from(v: (u8, u8)) -> Self {
        Version::new(v.0, v.1)
    }
}
impl fmt::Display for Version {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}.{}", self.major, self.minor)
    }
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Guid(pub [u8; 16]);
impl fmt::Display for Guid {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for (i, b) in self.0.iter().enumerate() {
            if [4, 6, 8, 10].contains(&i) {
                write!(f, "-")?;
            }
            write!(f, "{b:02x}")?;
        }
        Ok(())
    }
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub enum GpsTimeType {
    #[default]
    Week,
    Standard,
}

fn fixed_str(bytes: &[u8]) -> Result<String> {
    let n = bytes.iter().position(|b| *b == 0).unwrap_or(bytes.len());
    if bytes[n..].iter().any(|b| *b != 0) {
        return err("string is not filled with zeros");
    }
    match std::str::from_utf8(&bytes[..n]) {
        Ok(s) => Ok(s.to_owned()),
        Err(e) => err(e.to_string()),
    }
}
fn str_lossy(bytes: &[u8]) -> String {
    let n = bytes.iter().position(|b| *b == 0).unwrap_or(bytes.len());
    String::from_utf8_lossy(&bytes[..n]).into_owned()
}
fn fixed_bytes<const N: usize>(s: &str) -> Result<[u8; N]> {
    if s.len() > N {
        return err(format!("string is too long: {s}"));
    }
    let mut out = [0u8; N];
    out[..s.len()].copy_from_slice(s.as_bytes());
    Ok(out)
}

pub mod point {
    use super::{err, Result};
    use std::fmt;

    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
    pub struct Format {
        pub has_gps_time: bool,
        pub has_color: bool,
        pub is_extended: bool,
        pub has_waveform: bool,
        pub has_nir: bool,
        pub extra_bytes: u16,
        pub is_compressed: bool,
    }
    impl Format {
        pub fn new(n: u8) -> Result<Format> {
            let is_compressed = n >> 7 == 1 || (n >> 6) & 1 == 1;
            let n = n & 0x3f;
            if n > 10 {
                return err(format!("invalid point format number {n}"));
            }
            Ok(Format {
                has_gps_time: ![0, 2].contains(&n),
                has_color: [2, 3, 5, 7, 8, 10].contains(&n),
                is_extended: n > 5,
                has_waveform: [4, 5, 9, 10].contains(&n),
                has_nir: [8, 10].contains(&n),
                extra_bytes: 0,
                is_compressed,
            })
        }
        pub fn len(&self) -> u16 {
            let mut len = if self.is_extended { 22 } else { 20 } + self.extra_bytes;
            if self.has_gps_time {
                len += 8;
            }
            if self.has_color {
                len += 6;
            }
            if self.has_nir {
                len += 2;
            }
            if self.has_waveform {
                len += 29;
            }
            len
        }
        pub fn is_empty(&self) -> bool {
            false
        }
        pub fn to_u8(&self) -> Result<u8> {
            let n = match (
                self.is_extended,
                self.has_gps_time,
                self.has_color,
                self.has_nir,
                self.has_waveform,
            ) {
                (false, false, false, false, false) => 0,
                (false, true, false, false, false) => 1,
                (false, false, true, false, false) => 2,
                (false, true, true, false, false) => 3,
                (false, true, false, false, true) => 4,
                (false, true, true, false, true) => 5,
                (true, true, false, false, false) => 6,
                (true, true, true, false, false) => 7,
                (true, true, true, true, false) => 8,
                (true, true, false, false, true) => 9,
                (true, true, true, true, true) => 10,
                _ => return err(format!("{self:?} is not a point format of the standard")),
            };
            Ok(n)
        }
        pub(crate) fn to_writable_u8(self) -> Result<u8> {
            self.to_u8()
                .map(|n| if self.is_compressed { n | 0x80 } else { n })
        }
    }
    impl fmt::Display for Format {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            match self.to_u8() {
                Ok(n) => write!(f, "point format {n}"),
                Err(_) => write!(f, "point format that does not map onto a code: {self:?}"),
            }
        }
    }

    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
    pub enum ScanDirection {
        #[default]
        RightToLeft,
        LeftToRight,
    }
    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
    pub struct Classification(pub u8);
    impl From<Classification> for u8 {
        fn from(c: Classification) -> u8 {
            c.0
        }
    }
    #[derive(Clone, Copy, Debug, Default, PartialEq)]
    pub struct Waveform {
        pub wave_packet_descriptor_index: u8,
        pub byte_offset_to_waveform_data: u64,
        pub waveform_packet_size_in_bytes: u32,
        pub return_point_waveform_location: f32,
        pub x_t: f32,
        pub y_t: f32,
        pub z_t: f32,
    }
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Color {
    pub red: u16,
    pub green: u16,
    pub blue: u16,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Point {
    pub x: f64,
    pub y: f64,
    pub z: f64,
    pub intensity: u16,
    pub return_number: u8,
    pub number_of_returns: u8,
    pub scan_direction: point::ScanDirection,
    pub is_edge_of_flight_line: bool,
    pub classification: point::Classification,
    pub is_synthetic: bool,
    pub is_key_point: bool,
    pub is_withheld: bool,
    pub is_overlap: bool,
    pub scanner_channel: u8,
    pub scan_angle: f32,
    pub user_data: u8,
    pub point_source_id: u16,
    pub gps_time: Option<f64>,
    pub color: Option<Color>,
    pub waveform: Option<point::Waveform>,
    pub nir: Option<u16>,
    pub extra_bytes: Vec<u8>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Vlr {
    pub user_id: String,
    pub record_id: u16,
    pub description: String,
    pub data: Vec<u8>,
}
impl Vlr {
    pub fn new(raw: raw::Vlr) -> Vlr {
        Vlr {
            user_id: str_lossy(&raw.user_id),
            record_id: raw.record_id,
            description: str_lossy(&raw.description),
            data: raw.data,
        }
    }
    pub fn into_raw(self, is_extended: bool) -> Result<raw::Vlr> {
        let n = self.data.len();
        Ok(raw::Vlr {
            reserved: 0,
            user_id: fixed_bytes(&self.user_id)?,
            record_id: self.record_id,
            record_length_after_header: if is_extended {
                raw::vlr::RecordLength::Evlr(n as u64)
            } else {
                if n > u16::MAX as usize {
                    return err(format!("VLR of {n} bytes is too large"));
                }
                raw::vlr::RecordLength::Vlr(n as u16)
            },
            description: fixed_bytes(&self.description)?,
            data: self.data,
        })
    }
    pub fn len(&self, is_extended: bool) -> usize {
        self.data.len() + if is_extended { 60 } else { 54 }
    }
    pub fn has_large_data(&self) -> bool {
        self.data.len() > u16::MAX as usize
    }
}

#[derive(Clone, Debug)]
pub struct Header {
    file_source_id: u16,
    gps_time_type: GpsTimeType,
    global_encoding_rest: u16,
    guid: Guid,
    version: Version,
    system_identifier: String,
    generating_software: String,
    date: Option<chrono::NaiveDate>,
    padding: Vec<u8>,
    vlr_padding: Vec<u8>,
    point_padding: Vec<u8>,
    vlrs: Vec<Vlr>,
    evlrs: Vec<Vlr>,
    point_format: point::Format,
    transforms: Vector<Transform>,
    bounds: Bounds,
    number_of_points: u64,
    number_of_points_by_return: Vec<u64>,
    start_of_first_evlr: Option<u64>,
}

impl Header {
    pub fn file_source_id(&self) -> u16 {
        self.file_source_id
    }
    pub fn gps_time_type(&self) -> GpsTimeType {
        self.gps_time_type
    }
    pub fn guid(&self) -> Guid {
        self.guid
    }
    pub fn version(&self) -> Version {
        self.version
    }
    pub fn system_identifier(&self) -> &str {
        &self.system_identifier
    }
    pub fn generating_software(&self) -> &str {
        &self.generating_software
    }
    pub fn date(&self) -> Option<chrono::NaiveDate> {
        self.date
    }
    pub fn padding(&self) -> &Vec<u8> {
        &self.padding
    }
    pub fn vlr_padding(&self) -> &Vec<u8> {
        &self.vlr_padding
    }
    pub fn point_padding(&self) -> &Vec<u8> {
        &self.point_padding
    }
    pub fn vlrs(&self) -> &Vec<Vlr> {
        &self.vlrs
    }
    pub fn evlrs(&self) -> &Vec<Vlr> {
        &self.evlrs
    }
    pub fn point_format(&self) -> &point::Format {
        &self.point_format
    }
    pub fn transforms(&self) -> &Vector<Transform> {
        &self.transforms
    }
    pub fn bounds(&self) -> Bounds {
        self.bounds
    }
    pub fn number_of_points(&self) -> u64 {
        self.number_of_points
    }
    /// 1-based return number
    pub fn number_of_points_by_return(&self, n: u8) -> Option<u64> {
        if n == 0 {
            return None;
        }
        self.number_of_points_by_return
            .get(n as usize - 1)
            .copied()
            .filter(|c| *c > 0)
    }
    pub fn into_raw(self) -> Result<raw::Header> {
        use chrono::Datelike;
        let header_size = self.version.header_size() as usize + self.padding.len();
        let vlr_len: usize = self.vlrs.iter().map(|v| v.len(false)).sum();
        let offset_to_point_data = header_size + vlr_len + self.vlr_padding.len();
        let total = self.number_of_points;
        let legacy = !self.point_format.is_extended && total <= u32::MAX as u64;
        let mut by_return = [0u32; 5];
        let mut by_return_large = [0u64; 15];
        for (i, n) in self.number_of_points_by_return.iter().enumerate().take(15) {
            by_return_large[i] = *n;
            if i < 5 && legacy {
                by_return[i] = *n as u32;
            }
        }
        if !legacy && !self.version.supports_large_files() {
            return err("too many points for this version");
        }
        let evlr = if self.evlrs.is_empty() {
            None
        } else {
            if !self.version.supports_evlrs() {
                return err("this version does not support EVLRs");
            }
            let end = offset_to_point_data as u64 + total * self.point_format.len() as u64;
            Some(raw::header::Evlr {
                start_of_first_evlr: self
                    .start_of_first_evlr
                    .unwrap_or(end + self.point_padding.len() as u64),
                number_of_evlrs: self.evlrs.len() as u32,
            })
        };
        let t = self.transforms;
        Ok(raw::Header {
            file_signature: *b"LASF",
            file_source_id: self.file_source_id,
            global_encoding: self.global_encoding_rest
                | if self.gps_time_type == GpsTimeType::Standard {
                    1
                } else {
                    0
                },
            guid: self.guid.0,
            version: self.version,
            system_identifier: fixed_bytes(&self.system_identifier)?,
            generating_software: fixed_bytes(&self.generating_software)?,
            file_creation_day_of_year: self.date.map_or(0, |d| d.ordinal() as u16),
            file_creation_year: self.date.map_or(0, |d| d.year() as u16),
            header_size: header_size as u16,
            offset_to_point_data: offset_to_point_data as u32,
            number_of_variable_length_records: self.vlrs.len() as u32,
            point_data_record_format: self.point_format.to_writable_u8()?,
            point_data_record_length: self.point_format.len(),
            number_of_point_records: if legacy { total as u32 } else { 0 },
            number_of_points_by_return: by_return,
            x_scale_factor: t.x.scale,
            y_scale_factor: t.y.scale,
            z_scale_factor: t.z.scale,
            x_offset: t.x.offset,
            y_offset: t.y.offset,
            z_offset: t.z.offset,
            max_x: self.bounds.max.x,
            min_x: self.bounds.min.x,
            max_y: self.bounds.max.y,
            min_y: self.bounds.min.y,
            max_z: self.bounds.max.z,
            min_z: self.bounds.min.z,
            start_of_waveform_data_packet_record: None,
            evlr,
            large_file: if self.version.supports_large_files() {
                Some(raw::header::LargeFile {
                    number_of_point_records: total,
                    number_of_points_by_return: by_return_large,
                })
            } else {
                None
            },
            padding: self.padding,
        })
    }
}

#[derive(Clone, Debug, Default)]
pub struct Builder {
    pub date: Option<chrono::NaiveDate>,
    pub evlrs: Vec<Vlr>,
    pub file_source_id: u16,
    pub generating_software: String,
    pub gps_time_type: GpsTimeType,
    pub guid: Guid,
    pub has_synthetic_return_numbers: bool,
    pub padding: Vec<u8>,
    pub point_format: point::Format,
    pub point_padding: Vec<u8>,
    pub system_identifier: String,
    pub transforms: Vector<Transform>,
    pub version: Version,
    pub vlr_padding: Vec<u8>,
    pub vlrs: Vec<Vlr>,
    global_encoding_rest: u16,
    bounds: Bounds,
    number_of_points: u64,
    number_of_points_by_return: Vec<u64>,
    start_of_first_evlr: Option<u64>,
}

impl Builder {
    pub fn new(raw: raw::Header) -> Result<Builder> {
        let number_of_points = if raw.number_of_point_records > 0 {
            u64::from(raw.number_of_point_records)
        } else {
            raw.large_file.map_or(0, |l| l.number_of_point_records)
        };
        let number_of_points_by_return = if raw.number_of_points_by_return.iter().any(|n| *n > 0) {
            raw.number_of_points_by_return
                .iter()
                .map(|n| u64::from(*n))
                .collect()
        } else {
            raw.large_file
                .map_or(vec![], |l| l.number_of_points_by_return.to_vec())
        };
        let mut point_format = point::Format::new(raw.point_data_record_format)?;
        let n = point_format.len();
        if raw.point_data_record_length < n {
            return err(format!(
                "point record of {} bytes, the format needs {n}",
                raw.point_data_record_length
            ));
        }
        point_format.extra_bytes = raw.point_data_record_length - n;
        let date = if raw.file_creation_year == 0 && raw.file_creation_day_of_year == 0 {
            None
        } else {
            chrono::NaiveDate::from_yo_opt(
                i32::from(raw.file_creation_year),
                u32::from(raw.file_creation_day_of_year),
            )
        };
        Ok(Builder {
            date,
            evlrs: vec![],
            file_source_id: raw.file_source_id,
            generating_software: fixed_str(&raw.generating_software)?,
            gps_time_type: if raw.global_encoding & 1 == 1 {
                GpsTimeType::Standard
            } else {
                GpsTimeType::Week
            },
            guid: Guid(raw.guid),
            has_synthetic_return_numbers: raw.global_encoding & 8 == 8,
            padding: raw.padding.clone(),
            point_format,
            point_padding: vec![],
            system_identifier: fixed_str(&raw.system_identifier)?,
            transforms: Vector {
                x: Transform {
                    scale: raw.x_scale_factor,
                    offset: raw.x_offset,
                },
                y: Transform {
                    scale: raw.y_scale_factor,
                    offset: raw.y_offset,
                },
                z: Transform {
                    scale: raw.z_scale_factor,
                    offset: raw.z_offset,
                },
            },
            version: raw.version,
            vlr_padding: vec![],
            vlrs: vec![],
            global_encoding_rest: raw.global_encoding & !1,
            bounds: Bounds {
                min: Vector {
                    x: raw.min_x,
                    y: raw.min_y,
                    z: raw.min_z,
                },
                max: Vector {
                    x: raw.max_x,
                    y: raw.max_y,
                    z: raw.max_z,
                },
            },
            number_of_points,
            number_of_points_by_return,
            start_of_first_evlr: None,
        })
    }
    pub fn into_header(self) -> Result<Header> {
        if !self.version.supports_point_format(self.point_format) {
            return err(format!(
                "version {} does not support {}",
                self.version, self.point_format
            ));
        }
        if !self.evlrs.is_empty() && !self.version.supports_evlrs() {
            return err("this version does not support EVLRs");
        }
        Ok(Header {
            file_source_id: self.file_source_id,
            gps_time_type: self.gps_time_type,
            global_encoding_rest: self.global_encoding_rest
                | if self.has_synthetic_return_numbers {
                    8
                } else {
                    0
                },
            guid: self.guid,
            version: self.version,
            system_identifier: self.system_identifier,
            generating_software: self.generating_software,
            date: self.date,
            padding: self.padding,
            vlr_padding: self.vlr_padding,
            point_padding: self.point_padding,
            vlrs: self.vlrs,
            evlrs: self.evlrs,
            point_format: self.point_format,
            transforms: self.transforms,
            bounds: self.bounds,
            number_of_points: self.number_of_points,
            number_of_points_by_return: self.number_of_points_by_return,
            start_of_first_evlr: self.start_of_first_evlr,
        })
    }
}
impl From<(u8, u8)> for Builder {
    fn from(v: (u8, u8)) -> Self {
        Builder {
            version: v.into(),
            ..Default::default()
        }
    }
}
impl From<Header> for Builder {
    fn from(h: Header) -> Self {
        Builder {
            date: h.date,
            evlrs: h.evlrs,
            file_source_id: h.file_source_id,
            generating_software: h.generating_software,
            gps_time_type: h.gps_time_type,
            guid: h.guid,
            has_synthetic_return_numbers: h.global_encoding_rest & 8 == 8,
            padding: h.padding,
            point_format: h.point_format,
            point_padding: h.point_padding,
            system_identifier: h.system_identifier,
            transforms: h.transforms,
            version: h.version,
            vlr_padding: h.vlr_padding,
            vlrs: h.vlrs,
            global_encoding_rest: h.global_encoding_rest,
            bounds: h.bounds,
            number_of_points: h.number_of_points,
            number_of_points_by_return: h.number_of_points_by_return,
            start_of_first_evlr: h.start_of_first_evlr,
        }
    }
}

pub mod raw {
    pub use header::Header;
    pub use vlr::Vlr;

    pub mod vlr {
        use crate::Result;
        use byteorder::{LittleEndian, ReadBytesExt, WriteBytesExt};
        use std::io::{Read, Write};

        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub enum RecordLength {
            Vlr(u16),
            Evlr(u64),
        }
        impl Default for RecordLength {
            fn default() -> Self {
                RecordLength::Vlr(0)
            }
        }
        #[derive(Clone, Debug, Default, PartialEq, Eq)]
        pub struct Vlr {
            pub reserved: u16,
            pub user_id: [u8; 16],
            pub record_id: u16,
            pub record_length_after_header: RecordLength,
            pub description: [u8; 32],
            pub data: Vec<u8>,
        }
        impl Vlr {
            pub fn read_from<R: Read>(mut read: R, extended: bool) -> Result<Vlr> {
                let mut vlr = Vlr {
                    reserved: read.read_u16::<LittleEndian>()?,
                    ..Default::default()
                };
                read.read_exact(&mut vlr.user_id)?;
                vlr.record_id = read.read_u16::<LittleEndian>()?;
                let n = if extended {
                    let n = read.read_u64::<LittleEndian>()?;
                    vlr.record_length_after_header = RecordLength::Evlr(n);
                    n as usize
                } else {
                    let n = read.read_u16::<LittleEndian>()?;
                    vlr.record_length_after_header = RecordLength::Vlr(n);
                    n as usize
                };
                read.read_exact(&mut vlr.description)?;
                vlr.data.resize(n, 0);
                read.read_exact(&mut vlr.data)?;
                Ok(vlr)
            }
            pub fn write_to<W: Write>(&self, mut w: W) -> Result<()> {
                w.write_u16::<LittleEndian>(self.reserved)?;
                w.write_all(&self.user_id)?;
                w.write_u16::<LittleEndian>(self.record_id)?;
                match self.record_length_after_header {
                    RecordLength::Vlr(n) => w.write_u16::<LittleEndian>(n)?,
                    RecordLength::Evlr(n) => w.write_u64::<LittleEndian>(n)?,
                }
                w.write_all(&self.description)?;
                w.write_all(&self.data)?;
                Ok(())
            }
        }
    }

    pub mod header {
        use crate::{err, Result, Version};
        use byteorder::{LittleEndian, ReadBytesExt, WriteBytesExt};
        use std::io::{Read, Write};

        #[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
        pub struct Evlr {
            pub start_of_first_evlr: u64,
            pub number_of_evlrs: u32,
        }
        #[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
        pub struct LargeFile {
            pub number_of_point_records: u64,
            pub number_of_points_by_return: [u64; 15],
        }
        #[derive(Clone, Debug, PartialEq)]
        pub struct Header {
            pub file_signature: [u8; 4],
            pub file_source_id: u16,
            pub global_encoding: u16,
            pub guid: [u8; 16],
            pub version: Version,
            pub system_identifier: [u8; 32],
            pub generating_software: [u8; 32],
            pub file_creation_day_of_year: u16,
            pub file_creation_year: u16,
            pub header_size: u16,
            pub offset_to_point_data: u32,
            pub number_of_variable_length_records: u32,
            pub point_data_record_format: u8,
            pub point_data_record_length: u16,
            pub number_of_point_records: u32,
            pub number_of_points_by_return: [u32; 5],
            pub x_scale_factor: f64,
            pub y_scale_factor: f64,
            pub z_scale_factor: f64,
            pub x_offset: f64,
            pub y_offset: f64,
            pub z_offset: f64,
            pub max_x: f64,
            pub min_x: f64,
            pub max_y: f64,
            pub min_y: f64,
            pub max_z: f64,
            pub min_z: f64,
            pub start_of_waveform_data_packet_record: Option<u64>,
            pub evlr: Option<Evlr>,
            pub large_file: Option<LargeFile>,
            pub padding: Vec<u8>,
        }
        impl Header {
            pub fn read_from<R: Read>(mut r: R) -> Result<Header> {
                let mut file_signature = [0u8; 4];
                r.read_exact(&mut file_signature)?;
                if &file_signature != b"LASF" {
                    return err("not a LAS file");
                }
                let file_source_id = r.read_u16::<LittleEndian>()?;
                let global_encoding = r.read_u16::<LittleEndian>()?;
                let mut guid = [0u8; 16];
                r.read_exact(&mut guid)?;
                let version = Version::new(r.read_u8()?, r.read_u8()?);
                let mut system_identifier = [0u8; 32];
                r.read_exact(&mut system_identifier)?;
                let mut generating_software = [0u8; 32];
                r.read_exact(&mut generating_software)?;
                let file_creation_day_of_year = r.read_u16::<LittleEndian>()?;
                let file_creation_year = r.read_u16::<LittleEndian>()?;
                let header_size = r.read_u16::<LittleEndian>()?;
                let offset_to_point_data = r.read_u32::<LittleEndian>()?;
                let number_of_variable_length_records = r.read_u32::<LittleEndian>()?;
                let point_data_record_format = r.read_u8()?;
                let point_data_record_length = r.read_u16::<LittleEndian>()?;
                let number_of_point_records = r.read_u32::<LittleEndian>()?;
                let mut number_of_points_by_return = [0u32; 5];
                r.read_u32_into::<LittleEndian>(&mut number_of_points_by_return)?;
                let mut f = [0f64; 12];
                r.read_f64_into::<LittleEndian>(&mut f)?;
                let start_of_waveform_data_packet_record = if version.supports_waveforms() {
                    Some(r.read_u64::<LittleEndian>()?)
                } else {
                    None
                };
                let evlr = if version.supports_evlrs() {
                    let e = Evlr {
                        start_of_first_evlr: r.read_u64::<LittleEndian>()?,
                        number_of_evlrs: r.read_u32::<LittleEndian>()?,
                    };
                    if e.number_of_evlrs > 0 {
                        Some(e)
                    } else {
                        None
                    }
                } else {
                    None
                };
                let large_file = if version.supports_large_files() {
                    let n = r.read_u64::<LittleEndian>()?;
                    let mut by = [0u64; 15];
                    r.read_u64_into::<LittleEndian>(&mut by)?;
                    Some(LargeFile {
                        number_of_point_records: n,
                        number_of_points_by_return: by,
                    })
                } else {
                    None
                };
                if header_size < version.header_size() {
                    return err("header size is too small");
                }
                let mut padding = vec![0u8; (header_size - version.header_size()) as usize];
                r.read_exact(&mut padding)?;
                Ok(Header {
                    file_signature,
                    file_source_id,
                    global_encoding,
                    guid,
                    version,
                    system_identifier,
                    generating_software,
                    file_creation_day_of_year,
                    file_creation_year,
                    header_size,
                    offset_to_point_data,
                    number_of_variable_length_records,
                    point_data_record_format,
                    point_data_record_length,
                    number_of_point_records,
                    number_of_points_by_return,
                    x_scale_factor: f[0],
                    y_scale_factor: f[1],
                    z_scale_factor: f[2],
                    x_offset: f[3],
                    y_offset: f[4],
                    z_offset: f[5],
                    max_x: f[6],
                    min_x: f[7],
                    max_y: f[8],
                    min_y: f[9],
                    max_z: f[10],
                    min_z: f[11],
                    start_of_waveform_data_packet_record,
                    evlr,
                    large_file,
                    padding,
                })
            }
            pub fn write_to<W: Write>(&self, mut w: W) -> Result<()> {
                w.write_all(&self.file_signature)?;
                w.write_u16::<LittleEndian>(self.file_source_id)?;
                w.write_u16::<LittleEndian>(self.global_encoding)?;
                w.write_all(&self.guid)?;
                w.write_u8(self.version.major)?;
                w.write_u8(self.version.minor)?;
                w.write_all(&self.system_identifier)?;
                w.write_all(&self.generating_software)?;
                w.write_u16::<LittleEndian>(self.file_creation_day_of_year)?;
                w.write_u16::<LittleEndian>(self.file_creation_year)?;
                w.write_u16::<LittleEndian>(self.header_size)?;
                w.write_u32::<LittleEndian>(self.offset_to_point_data)?;
                w.write_u32::<LittleEndian>(self.number_of_variable_length_records)?;
                w.write_u8(self.point_data_record_format)?;
                w.write_u16::<LittleEndian>(self.point_data_record_length)?;
                w.write_u32::<LittleEndian>(self.number_of_point_records)?;
                for n in self.number_of_points_by_return {
                    w.write_u32::<LittleEndian>(n)?;
                }
                for f in [
                    self.x_scale_factor,
                    self.y_scale_factor,
                    self.z_scale_factor,
                    self.x_offset,
                    self.y_offset,
                    self.z_offset,
                    self.max_x,
                    self.min_x,
                    self.max_y,
                    self.min_y,
                    self.max_z,
                    self.min_z,
                ] {
                    w.write_f64::<LittleEndian>(f)?;
                }
                if self.version.supports_waveforms() {
                    w.write_u64::<LittleEndian>(
                        self.start_of_waveform_data_packet_record.unwrap_or(0),
                    )?;
                }
                if self.version.supports_evlrs() {
                    let e = self.evlr.unwrap_or_default();
                    w.write_u64::<LittleEndian>(e.start_of_first_evlr)?;
                    w.write_u32::<LittleEndian>(e.number_of_evlrs)?;
                }
                if self.version.supports_large_files() {
                    let l = self.large_file.unwrap_or_default();
                    w.write_u64::<LittleEndian>(l.number_of_point_records)?;
                    for n in l.number_of_points_by_return {
                        w.write_u64::<LittleEndian>(n)?;
                    }
                }
                w.write_all(&self.padding)?;
                Ok(())
            }
        }
    }
}
