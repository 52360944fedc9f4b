//! Stands in for the las crate, which is not available offline: the header and the variable length records of LAS
//! files, versions 1.0 to 1.4, as their specification lays them out, under the names and rules of las 0.8.
pub mod point;
pub mod raw;
pub use point::Point;
use std::io;

#[derive(Debug)]
pub enum Error {
    Io(io::Error),
    Invalid(String),
}
pub type Result<T> = std::result::Result<T, Error>;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self { Error::Io(e) => e.fmt(f), Error::Invalid(s) => f.write_str(s) }
    }
}
impl std::error::Error for Error {}
impl From<io::Error> for Error { fn from(e: io::Error) -> Self { Error::Io(e) } }
fn invalid<T>(s: impl Into<String>) -> Result<T> { Err(Error::Invalid(s.into())) }

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash, PartialOrd)]
pub struct Version { pub major: u8, pub minor: u8 }
impl Version {
    pub fn new(major: u8, minor: u8) -> Version { Version { major, minor } }
    pub fn header_size(&self) -> u16 { match self.minor { 0..=2 => 227, 3 => 235, _ => 375 } }
}
impl From<(u8, u8)> for Version { fn from((major, minor): (u8, u8)) -> Self { Version { major, minor } } }
impl std::fmt::Display for Version {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}.{}", self.major, self.minor) }
}

#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Vector<T> { pub x: T, pub y: T, pub z: T }

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Transform { pub scale: f64, pub offset: f64 }
impl Default for Transform { fn default() -> Self { Transform { scale: 0.001, offset: 0.0 } } }

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Bounds { pub min: Vector<f64>, pub max: Vector<f64> }
impl Default for Bounds {
    fn default() -> Self {
        Bounds { min: Vector { x: f64::INFINITY, y: f64::INFINITY, z: f64::INFINITY }, max: Vector { x: f64::NEG_INFINITY, y: f64::NEG_INFINITY, z: f64::NEG_INFINITY } }
    }
}

fn text(b: &[u8]) -> String {
    let n = b.iter().position(|c| *c == 0).unwrap_or(b.len());
    String::from_utf8_lossy(&b[..n]).into_owned()
}
fn bytes<const N: usize>(s: &str) -> Result<[u8; N]> {
    let mut b = [0; N];
    if s.len() > N { return invalid(format!("{s:?} has more than {N} bytes")) }
    b[..s.len()].copy_from_slice(s.as_bytes());
    Ok(b)
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Vlr { pub user_id: String, pub record_id: u16, pub description: String, pub data: Vec<u8> }
impl Vlr {
    pub fn new(raw: raw::Vlr) -> Vlr {
        Vlr { user_id: text(&raw.user_id), record_id: raw.record_id, description: text(&raw.description), data: raw.data }
    }
    pub fn into_raw(self, is_extended: bool) -> Result<raw::Vlr> {
        let n = self.data.len();
        Ok(raw::Vlr {
            reserved: 0,
            user_id: bytes(&self.user_id)?,
            record_id: self.record_id,
            record_length_after_header: if is_extended { raw::vlr::RecordLength::Evlr(n as u64) } else {
                match u16::try_from(n) { Ok(n) => raw::vlr::RecordLength::Vlr(n), Err(_) => return invalid("the data of the record is too long") }
            },
            description: bytes(&self.description)?,
            data: self.data,
        })
    }
    pub fn len(&self, is_extended: bool) -> usize { self.data.len() + if is_extended { 60 } else { 54 } }
    pub fn has_large_data(&self) -> bool { self.data.len() > u16::MAX as usize }
}

/// What a header is built from
#[derive(Clone, Debug, PartialEq)]
pub struct Builder {
    pub date: Option<chrono::NaiveDate>,
    pub evlrs: Vec<Vlr>,
    pub file_source_id: u16,
    pub generating_software: String,
    pub gps_time_type: u16,
    pub guid: uuid::Uuid,
    pub has_synthetic_return_numbers: bool,
    pub has_wkt_crs: bool,
    pub padding: Vec<u8>,
    pub point_format: point::Format,
    pub point_padding: Vec<u8>,
    pub system_identifier: String,
    pub transforms: Vector<Transform>,
    pub version: Version,
    pub vlr_padding: Vec<u8>,
    pub vlrs: Vec<Vlr>,
    bounds: Bounds,
    global_encoding: u16,
    number_of_points: u64,
    number_of_points_by_return: [u64; 15],
    start_of_first_evlr: u64,
}
impl Default for Builder {
    fn default() -> Self {
        Builder {
            date: chrono::NaiveDate::from_yo_opt(2026, 1), evlrs: vec![], file_source_id: 0, generating_software: "las-rs".into(), gps_time_type: 0,
            guid: uuid::Uuid::nil(), has_synthetic_return_numbers: false, has_wkt_crs: false, padding: vec![], point_format: Default::default(),
            point_padding: vec![], system_identifier: "las-rs".into(), transforms: Default::default(), version: Version::new(1, 2), vlr_padding: vec![],
            vlrs: vec![], bounds: Default::default(), global_encoding: 0, number_of_points: 0, number_of_points_by_return: [0; 15], start_of_first_evlr: 0,
        }
    }
}
impl<V: Into<Version>> From<V> for Builder {
    fn from(v: V) -> Self { Builder { version: v.into(), ..Default::default() } }
}
impl Builder {
    pub fn new(raw: raw::Header) -> Result<Builder> {
        let mut point_format = point::Format::new(raw.point_data_record_format)?;
        let Some(extra) = raw.point_data_record_length.checked_sub(point_format.len()) else {
            return invalid(format!("point records of {} bytes are too short for {point_format}", raw.point_data_record_length));
        };
        point_format.extra_bytes = extra;
        let legacy = raw.number_of_points_by_return.iter().any(|n| *n > 0);
        let mut by_return = [0; 15];
        if legacy { for (a, b) in by_return.iter_mut().zip(raw.number_of_points_by_return) { *a = b as u64 } } else if let Some(l) = raw.large_file { by_return = l.number_of_points_by_return }
        Ok(Builder {
            date: chrono::NaiveDate::from_yo_opt(raw.file_creation_year as i32, raw.file_creation_day_of_year as u32),
            evlrs: vec![],
            file_source_id: raw.file_source_id,
            generating_software: text(&raw.generating_software),
            gps_time_type: raw.global_encoding & 1,
            guid: uuid::Uuid::from_bytes_le(raw.guid),
            has_synthetic_return_numbers: raw.global_encoding & 8 != 0,
            has_wkt_crs: raw.global_encoding & 16 != 0,
            padding: raw.padding,
            point_format,
            point_padding: vec![],
            system_identifier: text(&raw.system_identifier),
            transforms: Vector {
                x: Transform { scale: raw.x_scale_factor, offset: raw.x_offset },
                y: Transform { scale: raw.y_scale_factor, offset: raw.y_offset },
                z: Transform { scale: raw.z_scale_factor, offset: raw.z_offset },
            },
            version: raw.version,
            vlr_padding: vec![],
            vlrs: vec![],
            bounds: Bounds { min: Vector { x: raw.min_x, y: raw.min_y, z: raw.min_z }, max: Vector { x: raw.max_x, y: raw.max_y, z: raw.max_z } },
            global_encoding: raw.global_encoding,
            number_of_points: if raw.number_of_point_records > 0 { raw.number_of_point_records as u64 } else { raw.large_file.map_or(0, |l| l.number_of_point_records) },
            number_of_points_by_return: by_return,
            start_of_first_evlr: raw.evlr.map_or(0, |e| e.start_of_first_evlr),
        })
    }
    pub fn into_header(self) -> Result<Header> {
        let n = self.point_format.to_u8()?;
        let least = match n { 0 | 1 => 0, 2 | 3 => 2, 4 | 5 => 3, _ => 4 };
        if self.version.minor < least { return invalid(format!("version {} does not support {}", self.version, self.point_format)) }
        Ok(Header(self))
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Header(Builder);
impl Default for Header { fn default() -> Self { Header(Builder::default()) } }
impl From<Header> for Builder { fn from(h: Header) -> Builder { h.0 } }
impl Header {
    pub fn bounds(&self) -> Bounds { self.0.bounds }
    pub fn number_of_points(&self) -> u64 { self.0.number_of_points }
    /// Returns are counted from one
    pub fn number_of_points_by_return(&self, n: u8) -> Option<u64> { if (1..=15).contains(&n) { Some(self.0.number_of_points_by_return[n as usize - 1]) } else { None } }
    pub fn point_format(&self) -> &point::Format { &self.0.point_format }
    pub fn transforms(&self) -> &Vector<Transform> { &self.0.transforms }
    pub fn vlrs(&self) -> &Vec<Vlr> { &self.0.vlrs }
    pub fn evlrs(&self) -> &Vec<Vlr> { &self.0.evlrs }
    pub fn vlr_padding(&self) -> &Vec<u8> { &self.0.vlr_padding }
    pub fn padding(&self) -> &Vec<u8> { &self.0.padding }
    pub fn version(&self) -> Version { self.0.version }
    pub fn date(&self) -> Option<chrono::NaiveDate> { self.0.date }
    pub fn file_source_id(&self) -> u16 { self.0.file_source_id }
    pub fn guid(&self) -> uuid::Uuid { self.0.guid }
    pub fn system_identifier(&self) -> &str { &self.0.system_identifier }
    pub fn generating_software(&self) -> &str { &self.0.generating_software }
    pub fn has_wkt_crs(&self) -> bool { self.0.has_wkt_crs }
    pub fn into_raw(self) -> Result<raw::Header> {
        use chrono::Datelike;
        let b = self.0;
        let header_size = b.version.header_size() as usize + b.padding.len();
        let vlrs: usize = b.vlrs.iter().map(|v| v.len(false)).sum();
        let small = b.number_of_points <= u32::MAX as u64;
        let mut by_return = [0; 5];
        for (a, n) in by_return.iter_mut().zip(b.number_of_points_by_return) { *a = u32::try_from(n).unwrap_or(0) }
        Ok(raw::Header {
            file_signature: *b"LASF",
            file_source_id: b.file_source_id,
            global_encoding: b.global_encoding & !0x19 | b.gps_time_type & 1 | (b.has_synthetic_return_numbers as u16) << 3 | (b.has_wkt_crs as u16) << 4,
            guid: b.guid.to_bytes_le(),
            version: b.version,
            system_identifier: bytes(&b.system_identifier)?,
            generating_software: bytes(&b.generating_software)?,
            file_creation_day_of_year: b.date.map_or(0, |d| d.ordinal() as u16),
            file_creation_year: b.date.map_or(0, |d| d.year() as u16),
            header_size: header_size as u16,
            offset_to_point_data: (header_size + vlrs + b.vlr_padding.len()) as u32,
            number_of_variable_length_records: b.vlrs.len() as u32,
            point_data_record_format: b.point_format.to_writable_u8()?,
            point_data_record_length: b.point_format.len(),
            number_of_point_records: if small { b.number_of_points as u32 } else { 0 },
            number_of_points_by_return: by_return,
            x_scale_factor: b.transforms.x.scale, y_scale_factor: b.transforms.y.scale, z_scale_factor: b.transforms.z.scale,
            x_offset: b.transforms.x.offset, y_offset: b.transforms.y.offset, z_offset: b.transforms.z.offset,
            max_x: b.bounds.max.x, min_x: b.bounds.min.x,
            max_y: b.bounds.max.y, min_y: b.bounds.min.y,
            max_z: b.bounds.max.z, min_z: b.bounds.min.z,
            start_of_waveform_data_packet_record: None,
            evlr: (b.version.minor >= 4 && !b.evlrs.is_empty()).then_some(raw::header::Evlr { start_of_first_evlr: b.start_of_first_evlr, number_of_evlrs: b.evlrs.len() as u32 }),
            large_file: (b.version.minor >= 4).then_some(raw::header::LargeFile { number_of_point_records: b.number_of_points, number_of_points_by_return: b.number_of_points_by_return }),
            padding: b.padding,
        })
    }
}
