//! Offline stand-in for the `laz` crate. LASzip compression itself is not available offline, so
//! this crate keeps the interface that pasture-io uses and stores the point records as they are:
//! one record after the other, uncompressed. What pasture does around the compressor (chunking,
//! conversion, counting, seeking, headers) is then checked; LASzip is not.
use std::io::{Read, Seek, SeekFrom, Write};
use std::marker::PhantomData;

#[derive(Debug)]
pub enum LasZipError {
    UnsupportedPointFormat(u8),
    InvalidVlr,
    IoError(std::io::Error),
}
impl std::fmt::Display for LasZipError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl std::error::Error for LasZipError {}
impl From<std::io::Error> for LasZipError {
    fn from(e: std::io::Error) -> Self {
        LasZipError::IoError(e)
    }
}

#[derive(Clone, Debug)]
pub struct LazItem {
    size: u16,
}
pub struct LazItemRecordBuilder;
impl LazItemRecordBuilder {
    pub fn default_for_point_format_id(id: u8, extra: u16) -> Result<Vec<LazItem>, LasZipError> {
        const SIZES: [u16; 11] = [20, 28, 26, 34, 57, 63, 30, 36, 38, 59, 67];
        match id {
            0..=10 => Ok(vec![LazItem {
                size: SIZES[id as usize] + extra,
            }]),
            _ => Err(LasZipError::UnsupportedPointFormat(id)),
        }
    }
}
#[derive(Clone, Debug)]
pub struct LazVlr {
    record: u16,
}
impl LazVlr {
    pub const USER_ID: &'static str = "laszip encoded";
    pub const RECORD_ID: u16 = 22204;
    pub const DESCRIPTION: &'static str = "https://laszip.org";
    pub fn from_laz_items(items: Vec<LazItem>) -> Self {
        LazVlr {
            record: items.iter().map(|i| i.size).sum(),
        }
    }
    pub fn from_buffer(b: &[u8]) -> Result<Self, LasZipError> {
        if b.len() != 4 || b[0..2] != *b"mc" {
            return Err(LasZipError::InvalidVlr);
        }
        Ok(LazVlr {
            record: u16::from_le_bytes([b[2], b[3]]),
        })
    }
    pub fn write_to<W: Write>(&self, w: &mut W) -> std::io::Result<()> {
        w.write_all(b"mc")?;
        w.write_all(&self.record.to_le_bytes())
    }
}
pub mod las {
    pub mod laszip {
        pub use crate::LazVlr;
    }
}

pub struct LasZipDecompressor<'a, R: Read + Seek + Send + 'a> {
    r: R,
    start: u64,
    record: usize,
    _p: PhantomData<&'a ()>,
}
impl<'a, R: Read + Seek + Send + 'a> LasZipDecompressor<'a, R> {
    pub fn new(mut r: R, vlr: LazVlr) -> Result<Self, LasZipError> {
        let start = r.stream_position()?;
        Ok(Self {
            r,
            start,
            record: vlr.record as usize,
            _p: PhantomData,
        })
    }
    /// Whole records only, as in `laz`: a rest that is smaller than a record is left alone
    pub fn decompress_many(&mut self, out: &mut [u8]) -> std::io::Result<()> {
        for record in out.chunks_exact_mut(self.record) {
            self.r.read_exact(record)?;
        }
        Ok(())
    }
    pub fn seek(&mut self, point: u64) -> std::io::Result<()> {
        self.r
            .seek(SeekFrom::Start(self.start + point * self.record as u64))?;
        Ok(())
    }
}
pub struct LasZipCompressor<'a, W: Write + Seek + Send + 'a> {
    w: W,
    record: usize,
    _p: PhantomData<&'a ()>,
}
impl<'a, W: Write + Seek + Send + 'a> LasZipCompressor<'a, W> {
    pub fn new(w: W, vlr: LazVlr) -> Result<Self, LasZipError> {
        Ok(Self {
            w,
            record: vlr.record as usize,
            _p: PhantomData,
        })
    }
    pub fn compress_many(&mut self, points: &[u8]) -> std::io::Result<()> {
        for record in points.chunks_exact(self.record) {
            self.w.write_all(record)?;
        }
        Ok(())
    }
    pub fn done(&mut self) -> std::io::Result<()> {
        Ok(())
    }
    pub fn get(&self) -> &W {
        &self.w
    }
    pub fn get_mut(&mut self) -> &mut W {
        &mut self.w
    }
    pub fn into_inner(self) -> W {
        self.w
    }
}
