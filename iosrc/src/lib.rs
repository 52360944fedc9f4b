#![allow(dead_code, unused_imports, mismatched_lifetime_syntaxes)]
#[path = "/repo/pasture-io/src/ascii/mod.rs"]
pub mod ascii;
#[path = "/repo/pasture-io/src/tiles3d/mod.rs"]
pub mod tiles3d;
pub mod base {
    #[path = "/repo/pasture-io/src/base/reader.rs"]
    mod reader;
    pub use self::reader::*;
    #[path = "/repo/pasture-io/src/base/writer.rs"]
    mod writer;
    pub use self::writer::*;
    #[path = "/repo/pasture-io/src/base/seek.rs"]
    mod seek;
    pub use self::seek::*;
}
