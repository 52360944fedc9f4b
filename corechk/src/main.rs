//! Runtime monitors for pasture-core and pasture-derive. One feature per property, so that a check
//! compiles only what it needs; feature "all" has all of them.
#![allow(dead_code, unused_imports, clippy::all)]
mod bufs;
mod collect;
mod conv;
mod gen;
#[cfg(any(feature = "all", feature = "P05"))]
mod gen_types;
mod layouts;
mod mathp;
mod num;
mod reads;
mod views;

macro_rules! list {
    ($v:ident, $($f:literal => $p:path),* $(,)?) => { $( #[cfg(any(feature = "all", feature = $f))] $v.push($p); )* };
}

fn main() {
    let mut v: Vec<mon::Property> = vec![];
    list!(v,
        "P01" => bufs::P01,
        "P02" => bufs::P02,
        "P21" => bufs::P21,
        "P03" => views::P03,
        "P06" => conv::P06,
        "P07" => conv::P07,
        "P08" => conv::P08,
        "P04" => layouts::P04,
        "P05" => layouts::P05,
        "P22" => layouts::P22,
        "P11" => conv::P11,
        "P13" => mathp::P13,
        "P14" => mathp::P14,
        "P09" => collect::P09,
        "P10" => collect::P10,
    );
    mon::main(&v)
}
