//! Runtime monitors for pasture-algorithms. One feature per property.
#![allow(dead_code, unused_imports, unused_macros, clippy::all)]
#[path = "../../corechk/src/gen.rs"]
mod gen;
mod common;
#[cfg(any(feature = "all", feature = "P15"))]
mod ranges;
#[cfg(any(feature = "all", feature = "P16"))]
mod voxel;
#[cfg(any(feature = "all", feature = "P17"))]
mod ransac;
#[cfg(any(feature = "all", feature = "P18"))]
mod hull;
#[cfg(any(feature = "all", feature = "P19"))]
mod normals;
#[cfg(any(feature = "all", feature = "P20"))]
mod reproj;

macro_rules! list {
    ($v:ident, $($f:literal => $p:path),* $(,)?) => { $( #[cfg(any(feature = "all", feature = $f))] $v.push($p); )* };
}

fn main() {
    let mut v: Vec<mon::Property> = vec![];
    list!(v,
        "P15" => ranges::P15,
        "P16" => voxel::P16,
        "P17" => ransac::P17,
        "P18" => hull::P18,
        "P19" => normals::P19,
        "P20" => reproj::P20,
    );
    mon::main(&v)
}
