//! Building buffers of every kind for the algorithms
use crate::gen::*;
use mon::{ensure, must, Obs, Rng, Verdict};
use nalgebra::Vector3;
use pasture_core::containers::*;
use pasture_core::layout::*;

pub fn fill<'a, B: BorrowedMutBuffer<'a>>(b: &mut B, l: &L, m: &[Pt], rng: &mut Rng) {
    for (i, p) in m.iter().enumerate() {
        let d = l.encode(p, rng);
        unsafe { b.set_point(i, &d) };
    }
}
pub fn vbuf(l: &L, m: &[Pt], rng: &mut Rng) -> VectorBuffer {
    let mut b = VectorBuffer::new_from_layout(l.layout.clone());
    b.resize(m.len());
    fill(&mut b, l, m, rng);
    b
}
pub fn hbuf(l: &L, m: &[Pt], rng: &mut Rng) -> HashMapBuffer {
    let mut b = HashMapBuffer::new_from_layout(l.layout.clone());
    b.resize(m.len());
    fill(&mut b, l, m, rng);
    b
}

/// Every point of the buffer, as the model sees it
pub fn snapshot<'a, B: BorrowedBuffer<'a>>(b: &B, l: &L) -> Vec<Pt> {
    let mut d = vec![0u8; l.size];
    (0..b.len())
        .map(|i| {
            b.get_point(i, &mut d);
            l.decode(&d)
        })
        .collect()
}

pub fn unchanged<'a, B: BorrowedBuffer<'a>>(what: &str, b: &B, l: &L, m: &[Pt]) -> Verdict {
    let s = must(&format!("{what}:read"), || snapshot(b, l))?;
    ensure!(s == m, format!("{what}:input changed"), "{what} changed its input from {m:?} to {s:?}");
    Ok(())
}

/// Calls `$f!(buffer)` with one of the kinds of buffer that hold the points `$m` of layout `$l`
#[macro_export]
macro_rules! any_buffer {
    ($l:expr, $m:expr, $rng:expr, $b:ident, $who:ident => $body:expr) => {{
        use pasture_core::containers::*;
        match $rng.below(6) {
            0 => { let $who = "VectorBuffer"; let $b = &$crate::common::vbuf($l, $m, $rng); $body }
            1 => { let $who = "HashMapBuffer"; let $b = &$crate::common::hbuf($l, $m, $rng); $body }
            2 => {
                let $who = "ExternalMemoryBuffer";
                let d = ($l).encode_all($m, $rng);
                let $b = &ExternalMemoryBuffer::new(d, ($l).layout.clone());
                $body
            }
            k => {
                // a window with other points around it
                let pre = $rng.below(4);
                let post = $rng.below(4);
                let mut all = ($l).rand_pts($rng, pre);
                all.extend_from_slice($m);
                all.extend(($l).rand_pts($rng, post));
                let r = pre..pre + ($m).len();
                match k {
                    3 => { let $who = "interleaved slice"; let o = $crate::common::vbuf($l, &all, $rng); let $b = &o.slice(r); $body }
                    4 => { let $who = "columnar slice"; let o = $crate::common::hbuf($l, &all, $rng); let $b = &o.slice(r); $body }
                    _ => { let $who = "slice"; let o = $crate::common::hbuf($l, &all, $rng); let $b = &BufferSlice::new(&o, r); $body }
                }
            }
        }
    }};
}

pub fn v3(p: &[f64; 3]) -> Vec<u8> {
    p.iter().flat_map(|x| x.to_ne_bytes()).collect()
}

/// A layout with POSITION_3D and some further attributes, in any order; also the index of the position
pub fn layout_with_position(rng: &mut Rng, more: &[PointAttributeDefinition], max: usize) -> (L, usize) {
    let mut defs: Vec<PointAttributeDefinition> = vec![attributes::POSITION_3D];
    for d in more {
        if defs.len() <= max && rng.bool() { defs.push(d.clone()) }
    }
    rng.shuffle(&mut defs);
    let (layout, _) = rand_layout_of(rng, &defs);
    let l = L::of(layout);
    let i = l.attrs.iter().position(|a| a.def.name() == attributes::POSITION_3D.name()).unwrap();
    (l, i)
}
