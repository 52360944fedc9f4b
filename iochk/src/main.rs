//! Runtime monitors for pasture-io. One feature per property.
#![allow(dead_code, unused_imports, unused_macros, clippy::all)]
#[path = "../../corechk/src/gen.rs"]
mod gen;
#[path = "../../algochk/src/common.rs"]
mod common;
#[path = "../../corechk/src/num.rs"]
mod num;
mod io;
mod mutbuf;
#[cfg(any(feature = "all", feature = "P23", feature = "P24"))]
mod text;
#[cfg(any(feature = "all", feature = "P25", feature = "P26"))]
mod pnts;
#[cfg(any(feature = "all", feature = "P27"))]
mod json;

macro_rules! list {
    ($v:ident, $($f:literal => $p:path),* $(,)?) => { $( #[cfg(any(feature = "all", feature = $f))] $v.push($p); )* };
}

fn main() {
    let mut v: Vec<mon::Property> = vec![];
    list!(v,
        "P23" => text::P23,
        "P24" => text::P24,
        "P25" => pnts::P25,
        "P26" => pnts::P26,
        "P27" => json::P27,
    );
    mon::main(&v)
}
