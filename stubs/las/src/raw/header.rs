use crate::{invalid, Result, Version};
use std::io::{Read, Write};

#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Evlr { pub start_of_first_evlr: u64, pub number_of_evlrs: u32 }
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct LargeFile { pub number_of_point_records: u64, pub number_of_points_by_return: [u64; 15] }

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Header {
    pub file_signature: [u8; 4],
    pub file_source_id: u16,
    pub global_encoding: u16,
    pub guid: [u8; 16],
    pub version: Version,
    pub system_identifier: [u8; 32],
    pub generating_software: [u8; 32],
    pub file_creation_day_of_year: u16,
    pub file_creation_year: u16,
    pub header_size: u16,
    pub offset_to_point_data: u32,
    pub number_of_variable_length_records: u32,
    pub point_data_record_format: u8,
    pub point_data_record_length: u16,
    pub number_of_point_records: u32,
    pub number_of_points_by_return: [u32; 5],
    pub x_scale_factor: f64,
    pub y_scale_factor: f64,
    pub z_scale_factor: f64,
    pub x_offset: f64,
    pub y_offset: f64,
    pub z_offset: f64,
    pub max_x: f64,
    pub min_x: f64,
    pub max_y: f64,
    pub min_y: f64,
    pub max_z: f64,
    pub min_z: f64,
    pub start_of_waveform_data_packet_record: Option<u64>,
    pub evlr: Option<Evlr>,
    pub large_file: Option<LargeFile>,
    pub padding: Vec<u8>,
}

struct In<R>(R);
impl<R: Read> In<R> {
    fn a<const N: usize>(&mut self) -> Result<[u8; N]> { let mut b = [0; N]; self.0.read_exact(&mut b)?; Ok(b) }
    fn u8(&mut self) -> Result<u8> { Ok(self.a::<1>()?[0]) }
    fn u16(&mut self) -> Result<u16> { Ok(u16::from_le_bytes(self.a()?)) }
    fn u32(&mut self) -> Result<u32> { Ok(u32::from_le_bytes(self.a()?)) }
    fn u64(&mut self) -> Result<u64> { Ok(u64::from_le_bytes(self.a()?)) }
    fn f64(&mut self) -> Result<f64> { Ok(f64::from_le_bytes(self.a()?)) }
}

impl Header {
    pub fn read_from<R: Read>(read: R) -> Result<Header> {
        let mut r = In(read);
        let mut h = Header { file_signature: r.a()?, ..Default::default() };
        if &h.file_signature != b"LASF" { return invalid("the file signature is not LASF") }
        h.file_source_id = r.u16()?;
        h.global_encoding = r.u16()?;
        h.guid = r.a()?;
        h.version = Version::new(r.u8()?, r.u8()?);
        h.system_identifier = r.a()?;
        h.generating_software = r.a()?;
        h.file_creation_day_of_year = r.u16()?;
        h.file_creation_year = r.u16()?;
        h.header_size = r.u16()?;
        h.offset_to_point_data = r.u32()?;
        h.number_of_variable_length_records = r.u32()?;
        h.point_data_record_format = r.u8()?;
        h.point_data_record_length = r.u16()?;
        h.number_of_point_records = r.u32()?;
        for n in &mut h.number_of_points_by_return { *n = r.u32()? }
        for f in [&mut h.x_scale_factor, &mut h.y_scale_factor, &mut h.z_scale_factor, &mut h.x_offset, &mut h.y_offset, &mut h.z_offset,
            &mut h.max_x, &mut h.min_x, &mut h.max_y, &mut h.min_y, &mut h.max_z, &mut h.min_z] { *f = r.f64()? }
        if h.version.minor >= 3 { h.start_of_waveform_data_packet_record = Some(r.u64()?) }
        if h.version.minor >= 4 {
            h.evlr = Some(Evlr { start_of_first_evlr: r.u64()?, number_of_evlrs: r.u32()? });
            let mut l = LargeFile { number_of_point_records: r.u64()?, ..Default::default() };
            for n in &mut l.number_of_points_by_return { *n = r.u64()? }
            h.large_file = Some(l);
        }
        let Some(more) = h.header_size.checked_sub(h.version.header_size()) else { return invalid("the header is too short for its version") };
        h.padding = vec![0; more as usize];
        r.0.read_exact(&mut h.padding)?;
        Ok(h)
    }
    pub fn write_to<W: Write>(&self, mut w: W) -> Result<()> {
        let mut b: Vec<u8> = vec![];
        b.extend(self.file_signature);
        b.extend(self.file_source_id.to_le_bytes());
        b.extend(self.global_encoding.to_le_bytes());
        b.extend(self.guid);
        b.extend([self.version.major, self.version.minor]);
        b.extend(self.system_identifier);
        b.extend(self.generating_software);
        b.extend(self.file_creation_day_of_year.to_le_bytes());
        b.extend(self.file_creation_year.to_le_bytes());
        b.extend(self.header_size.to_le_bytes());
        b.extend(self.offset_to_point_data.to_le_bytes());
        b.extend(self.number_of_variable_length_records.to_le_bytes());
        b.push(self.point_data_record_format);
        b.extend(self.point_data_record_length.to_le_bytes());
        b.extend(self.number_of_point_records.to_le_bytes());
        for n in self.number_of_points_by_return { b.extend(n.to_le_bytes()) }
        for f in [self.x_scale_factor, self.y_scale_factor, self.z_scale_factor, self.x_offset, self.y_offset, self.z_offset,
            self.max_x, self.min_x, self.max_y, self.min_y, self.max_z, self.min_z] { b.extend(f.to_le_bytes()) }
        if self.version.minor >= 3 { b.extend(self.start_of_waveform_data_packet_record.unwrap_or(0).to_le_bytes()) }
        if self.version.minor >= 4 {
            let e = self.evlr.unwrap_or_default();
            b.extend(e.start_of_first_evlr.to_le_bytes());
            b.extend(e.number_of_evlrs.to_le_bytes());
            let l = self.large_file.unwrap_or_default();
            b.extend(l.number_of_point_records.to_le_bytes());
            for n in l.number_of_points_by_return { b.extend(n.to_le_bytes()) }
        }
        b.extend(&self.padding);
        w.write_all(&b)?;
        Ok(())
    }
}
