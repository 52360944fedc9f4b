pub mod header;
pub mod vlr;
pub use header::Header;
pub use vlr::Vlr;
