//! Runtime monitors for the LAS part of pasture-io. One feature per property.
#![allow(dead_code, unused_imports, unused_macros, clippy::all)]
#[path = "../../corechk/src/gen.rs"]
mod gen;
#[path = "../../algochk/src/common.rs"]
mod common;
#[path = "../../corechk/src/num.rs"]
mod num;
#[path = "../../iochk/src/io.rs"]
mod io;
#[path = "../../iochk/src/mutbuf.rs"]
mod mutbuf;
mod model;
mod reading;
mod writing;
mod meta;
mod whole;
mod tool;


macro_rules! list {
    ($v:ident, $($f:literal => $p:path),* $(,)?) => { $( #[cfg(any(feature = "all", feature = $f))] $v.push($p); )* };
}

fn main() {
    let mut v: Vec<mon::Property> = vec![];
    list!(v,

        "P28" => writing::P28,
        "P30" => reading::P30,
        "P31" => meta::P31,
        "P32" => whole::P32,
        "P33" => tool::P33,
    );
    mon::main(&v)
}
