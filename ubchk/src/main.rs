//! Runtime monitor of memory safety (P12). All workloads of the other checks and one of its own run under
//! AddressSanitizer and Miri. What the calls return is the business of the other checks and is ignored here.
#![allow(dead_code, unused_imports, unused_macros, clippy::all)]
#[path = "../../corechk/src/gen.rs"]
mod gen;
#[path = "../../corechk/src/num.rs"]
mod num;
#[path = "../../corechk/src/reads.rs"]
mod reads;
#[path = "../../corechk/src/bufs.rs"]
mod bufs;
#[path = "../../corechk/src/views.rs"]
mod views;
#[path = "../../corechk/src/conv.rs"]
mod conv;
#[path = "../../corechk/src/layouts.rs"]
mod layouts;
#[path = "../../corechk/src/collect.rs"]
mod collect;
#[path = "../../corechk/src/mathp.rs"]
mod mathp;
#[path = "../../algochk/src/common.rs"]
mod common;
#[path = "../../algochk/src/ranges.rs"]
mod ranges;
#[path = "../../algochk/src/voxel.rs"]
mod voxel;
#[path = "../../algochk/src/ransac.rs"]
mod ransac;
#[path = "../../algochk/src/hull.rs"]
mod hull;
#[path = "../../algochk/src/normals.rs"]
mod normals;
#[path = "../../iochk/src/io.rs"]
mod io;
#[path = "../../iochk/src/mutbuf.rs"]
mod mutbuf;
#[path = "../../iochk/src/text.rs"]
mod text;
#[path = "../../iochk/src/pnts.rs"]
mod pnts;
mod hostile;

use mon::{attempt, Obs, Property, Rng, Verdict};

/// Workloads of the other properties, with their weights
const NATIVE: usize = if cfg!(miri) { 0 } else { 1 };
const OTHERS: &[(usize, &Property)] = &[
    (4, &bufs::P01),
    (4, &bufs::P02),
    (4, &bufs::P21),
    (5, &views::P03),
    (2, &conv::P06),
    (3, &conv::P07),
    (3, &conv::P08),
    (2, &conv::P11),
    (2, &collect::P09),
    (2, &collect::P10),
    (1, &layouts::P04),
    (1, &ranges::P15),
    (2 * NATIVE, &voxel::P16),
    (2 * NATIVE, &ransac::P17),
    (2 * NATIVE, &hull::P18),
    (2 * NATIVE, &normals::P19),
    (1, &text::P23),
    (1, &text::P24),
    (2, &pnts::P25),
    (2, &pnts::P26),
];

fn other(p: &Property, rng: &mut Rng, obs: &mut Obs) {
    obs.step(|| format!("workload {}", p.id));
    let mut inner = Obs::default();
    let _ = attempt(|| (p.case)(rng, &mut inner));
    obs.ev(&format!("workload_{}", p.id));
    for (e, n) in inner.events {
        obs.evn(&format!("{}_{e}", p.id), n);
    }
}

fn mixed(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    obs.mix(&rng.u64().to_ne_bytes());
    // the interpreter is slow: most of its time belongs to the directed workload
    if rng.chance(if cfg!(miri) { 3 } else { 2 }, 4) {
        hostile::case(rng, obs);
    } else {
        let all: usize = OTHERS.iter().map(|x| x.0).sum();
        let mut k = rng.below(all);
        obs.nontrivial();
        for (w, p) in OTHERS {
            if k < *w {
                other(p, rng, obs);
                break;
            }
            k -= w;
        }
    }
    Ok(())
}

pub const P12: Property = Property {
    id: "P12",
    rule: "Every second case is a random sequence of valid and invalid calls to the safe interface of buffers, slices, views, iterators and conversions of random layouts, with closures that panic half way; the others are cases of the checks of the other properties. Every case that makes calls is non-trivial; cases are distinct by their calls and arguments.",
    assumptions: &[
        "unsafe functions are called with data of the size their documentation asks for",
        "what is not executed under the sanitizers is not judged",
    ],
    quick_cases: 60_000,
    thorough_cases: 2_000_000,
    case: mixed,
    required_events: &["hostile_reads", "hostile_writes", "hostile_views", "hostile_iter_mut", "hostile_conversion", "refused", "accepted"],
};

fn main() {
    mon::main(&[P12])
}
