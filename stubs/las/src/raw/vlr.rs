use crate::Result;
use std::io::{Read, Write};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum RecordLength { Vlr(u16), Evlr(u64) }

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Vlr {
    pub reserved: u16,
    pub user_id: [u8; 16],
    pub record_id: u16,
    pub record_length_after_header: RecordLength,
    pub description: [u8; 32],
    pub data: Vec<u8>,
}
impl Default for Vlr {
    fn default() -> Self { Vlr { reserved: 0, user_id: [0; 16], record_id: 0, record_length_after_header: RecordLength::Vlr(0), description: [0; 32], data: vec![] } }
}
impl Vlr {
    pub fn read_from<R: Read>(mut read: R, extended: bool) -> Result<Vlr> {
        let mut v = Vlr::default();
        let mut two = [0; 2];
        read.read_exact(&mut two)?;
        v.reserved = u16::from_le_bytes(two);
        read.read_exact(&mut v.user_id)?;
        read.read_exact(&mut two)?;
        v.record_id = u16::from_le_bytes(two);
        let n;
        if extended {
            let mut eight = [0; 8];
            read.read_exact(&mut eight)?;
            n = u64::from_le_bytes(eight);
            v.record_length_after_header = RecordLength::Evlr(n);
        } else {
            read.read_exact(&mut two)?;
            n = u16::from_le_bytes(two) as u64;
            v.record_length_after_header = RecordLength::Vlr(n as u16);
        }
        read.read_exact(&mut v.description)?;
        if read.take(n).read_to_end(&mut v.data)? as u64 != n { return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into()) }
        Ok(v)
    }
    pub fn write_to<W: Write>(&self, mut write: W) -> Result<()> {
        write.write_all(&self.reserved.to_le_bytes())?;
        write.write_all(&self.user_id)?;
        write.write_all(&self.record_id.to_le_bytes())?;
        match self.record_length_after_header {
            RecordLength::Vlr(n) => write.write_all(&n.to_le_bytes())?,
            RecordLength::Evlr(n) => write.write_all(&n.to_le_bytes())?,
        }
        write.write_all(&self.description)?;
        write.write_all(&self.data)?;
        Ok(())
    }
}
