//! Stands in for the crate of this name, which is not available offline: a day of a year
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct NaiveDate { year: i32, ordinal: u32 }
pub trait Datelike {
    fn year(&self) -> i32;
    fn ordinal(&self) -> u32;
}
impl NaiveDate {
    pub fn from_yo_opt(year: i32, ordinal: u32) -> Option<NaiveDate> {
        let leap = year % 4 == 0 && (year % 100 != 0 || year % 400 == 0);
        (1..=365 + leap as u32).contains(&ordinal).then_some(NaiveDate { year, ordinal })
    }
}
impl Datelike for NaiveDate {
    fn year(&self) -> i32 { self.year }
    fn ordinal(&self) -> u32 { self.ordinal }
}
impl std::fmt::Display for NaiveDate {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:04}-{:03}", self.year, self.ordinal) }
}
