use crate::{invalid, Result};

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash)]
pub struct Format {
    pub has_gps_time: bool,
    pub has_color: bool,
    pub is_extended: bool,
    pub has_waveform: bool,
    pub has_nir: bool,
    pub extra_bytes: u16,
    pub is_compressed: bool,
}
impl Format {
    pub fn new(n: u8) -> Result<Format> {
        // the two highest bits mark compressed records
        let is_compressed = n & 0x80 != 0;
        let n = n & 0x3f;
        if n > 10 { return invalid(format!("point format {n}")) }
        Ok(Format {
            has_gps_time: n == 1 || n >= 3,
            has_color: matches!(n, 2 | 3 | 5 | 7 | 8 | 10),
            is_extended: n >= 6,
            has_waveform: matches!(n, 4 | 5 | 9 | 10),
            has_nir: matches!(n, 8 | 10),
            extra_bytes: 0,
            is_compressed,
        })
    }
    pub fn to_u8(&self) -> Result<u8> {
        let f = (self.is_extended, self.has_gps_time, self.has_color, self.has_nir, self.has_waveform);
        Ok(match f {
            (false, t, c, false, false) => t as u8 + 2 * c as u8,
            (false, true, c, false, true) => 4 + c as u8,
            (true, true, false, false, w) => if w { 9 } else { 6 },
            (true, true, true, false, false) => 7,
            (true, true, true, true, w) => if w { 10 } else { 8 },
            _ => return invalid(format!("no point format has {self:?}")),
        })
    }
    pub(crate) fn to_writable_u8(self) -> Result<u8> { Ok(self.to_u8()? | if self.is_compressed { 0x80 } else { 0 }) }
    pub fn len(&self) -> u16 {
        let f = |b, n| if b { n } else { 0 };
        20 + f(self.is_extended, 2) + f(self.has_gps_time, 8) + f(self.has_color, 6) + f(self.has_nir, 2) + f(self.has_waveform, 29) + self.extra_bytes
    }
    pub fn is_empty(&self) -> bool { false }
}
impl std::fmt::Display for Format {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self.to_u8() { Ok(n) => write!(f, "point format {n}"), Err(_) => write!(f, "point format that does not map onto a code: {self:?}") }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub enum ScanDirection { #[default] RightToLeft, LeftToRight }

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Classification(pub u8);
impl From<Classification> for u8 { fn from(c: Classification) -> u8 { c.0 } }

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Color { pub red: u16, pub green: u16, pub blue: u16 }

#[derive(Clone, Copy, Debug, PartialEq, Default)]
pub struct Waveform {
    pub wave_packet_descriptor_index: u8,
    pub byte_offset_to_waveform_data: u64,
    pub waveform_packet_size_in_bytes: u32,
    pub return_point_waveform_location: f32,
    pub x_t: f32,
    pub y_t: f32,
    pub z_t: f32,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Point {
    pub x: f64,
    pub y: f64,
    pub z: f64,
    pub intensity: u16,
    pub return_number: u8,
    pub number_of_returns: u8,
    pub scan_direction: ScanDirection,
    pub is_edge_of_flight_line: bool,
    pub classification: Classification,
    pub is_synthetic: bool,
    pub is_key_point: bool,
    pub is_withheld: bool,
    pub is_overlap: bool,
    pub scanner_channel: u8,
    pub scan_angle: f32,
    pub user_data: u8,
    pub point_source_id: u16,
    pub gps_time: Option<f64>,
    pub color: Option<Color>,
    pub waveform: Option<Waveform>,
    pub nir: Option<u16>,
    pub extra_bytes: Vec<u8>,
}
