//! Stands in for the laz crate, which is not available offline. Its compressor is the identity: the records are stored
//! as they are after eight bytes for the offset of the chunk table, so that what pasture hands to the compressor, and
//! in which order, decides what the decompressor gives back.
use std::io::{self, Read, Seek, SeekFrom, Write};

#[derive(Debug)]
pub enum LasZipError { Io(io::Error), Unsupported(String) }
impl std::fmt::Display for LasZipError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{self:?}") }
}
impl std::error::Error for LasZipError {}
impl From<io::Error> for LasZipError { fn from(e: io::Error) -> Self { LasZipError::Io(e) } }

pub mod las { pub mod laszip { pub use crate::LazVlr; } }

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct LazItem { pub kind: u16, pub size: u16 }

pub struct LazItemRecordBuilder;
impl LazItemRecordBuilder {
    pub fn default_for_point_format_id(format: u8, extra_bytes: u16) -> Result<Vec<LazItem>, LasZipError> {
        let size = match format {
            0 => 20, 1 => 28, 2 => 26, 3 => 34, 6 => 30, 7 => 36, 8 => 38, 4 => 57, 5 => 63,
            _ => return Err(LasZipError::Unsupported(format!("point format {format}"))),
        };
        Ok(vec![LazItem { kind: format as u16, size: size + extra_bytes }])
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct LazVlr { items: Vec<LazItem> }
impl LazVlr {
    pub const USER_ID: &'static str = "laszip encoded";
    pub const RECORD_ID: u16 = 22204;
    pub const DESCRIPTION: &'static str = "https://laszip.org";
    pub fn from_laz_items(items: Vec<LazItem>) -> LazVlr { LazVlr { items } }
    pub fn from_buffer(b: &[u8]) -> Result<LazVlr, LasZipError> {
        if b.len() % 4 != 0 { return Err(LasZipError::Unsupported("record of the wrong size".into())) }
        Ok(LazVlr { items: b.chunks(4).map(|c| LazItem { kind: u16::from_le_bytes([c[0], c[1]]), size: u16::from_le_bytes([c[2], c[3]]) }).collect() })
    }
    pub fn write_to<W: Write>(&self, w: &mut W) -> io::Result<()> {
        for i in &self.items { w.write_all(&i.kind.to_le_bytes())?; w.write_all(&i.size.to_le_bytes())? }
        Ok(())
    }
    pub fn items_size(&self) -> u64 { self.items.iter().map(|i| i.size as u64).sum() }
}

pub struct LasZipCompressor<'a, W: Write + Send + 'a> { w: W, vlr: LazVlr, started: bool, done: bool, phantom: std::marker::PhantomData<&'a ()> }
impl<'a, W: Write + Seek + Send + 'a> LasZipCompressor<'a, W> {
    pub fn new(w: W, vlr: LazVlr) -> Result<Self, LasZipError> { Ok(Self { w, vlr, started: false, done: false, phantom: Default::default() }) }
    fn start(&mut self) -> io::Result<()> {
        if !self.started { self.started = true; self.w.write_all(&(-1i64).to_le_bytes())? }
        Ok(())
    }
    pub fn compress_many(&mut self, points: &[u8]) -> io::Result<()> {
        self.start()?;
        if points.len() as u64 % self.vlr.items_size() != 0 { return Err(io::Error::new(io::ErrorKind::InvalidInput, "not a whole number of points")) }
        self.w.write_all(points)
    }
    pub fn compress_one(&mut self, point: &[u8]) -> io::Result<()> { self.compress_many(point) }
    /// The codec writes its chunk table, which the identity does not have; a second one is too many
    pub fn done(&mut self) -> io::Result<()> {
        self.start()?;
        if self.done { self.w.write_all(&[0xDD; 8])? }
        self.done = true;
        Ok(())
    }
    pub fn vlr(&self) -> &LazVlr { &self.vlr }
    pub fn get_mut(&mut self) -> &mut W { &mut self.w }
    pub fn get(&self) -> &W { &self.w }
    pub fn into_inner(self) -> W { self.w }
}

pub struct LasZipDecompressor<'a, R: Read + Seek + Send + 'a> { r: R, start: u64, vlr: LazVlr, phantom: std::marker::PhantomData<&'a ()> }
impl<'a, R: Read + Seek + Send + 'a> LasZipDecompressor<'a, R> {
    pub fn new(mut r: R, vlr: LazVlr) -> Result<Self, LasZipError> {
        let mut b = [0; 8];
        r.read_exact(&mut b)?;
        let start = r.stream_position()?;
        Ok(Self { r, start, vlr, phantom: Default::default() })
    }
    pub fn decompress_many(&mut self, out: &mut [u8]) -> io::Result<()> {
        if out.len() as u64 % self.vlr.items_size() != 0 { return Err(io::Error::new(io::ErrorKind::InvalidInput, "not a whole number of points")) }
        self.r.read_exact(out)
    }
    pub fn decompress_one(&mut self, out: &mut [u8]) -> io::Result<()> { self.decompress_many(out) }
    pub fn seek(&mut self, point: u64) -> io::Result<()> { self.r.seek(SeekFrom::Start(self.start + point * self.vlr.items_size())).map(|_| ()) }
    pub fn vlr(&self) -> &LazVlr { &self.vlr }
    pub fn into_inner(self) -> R { self.r }
}
