//! Runtime monitor of concurrent use (P29). Threads run random jobs on shared buffers, slices, views and layouts at the
//! same time, under ThreadSanitizer; every job is run once more without company and has to give the same result.
#![allow(dead_code, unused_imports, unused_macros, clippy::all)]
#[path = "../../corechk/src/gen.rs"]
mod gen;

use gen::*;
use kd_tree::KdPoint;
use mon::{attempt, ensure, must, Obs, Property, Rng, Verdict};
use nalgebra::Vector3;
use pasture_algorithms::{bounds::*, convexhull::*, minmax::*, normal_estimation::*, segmentation::*, voxel_grid::*};
use pasture_core::containers::*;
use pasture_core::layout::conversion::*;
use pasture_core::layout::*;
use pasture_derive::PointType;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{mpsc, Barrier};

#[repr(C)]
#[derive(PointType, Copy, Clone, Debug, PartialEq, bytemuck::NoUninit, bytemuck::AnyBitPattern)]
struct P3 {
    #[pasture(BUILTIN_POSITION_3D)]
    p: Vector3<f64>,
    #[pasture(BUILTIN_INTENSITY)]
    i: u16,
    #[pasture(BUILTIN_CLASSIFICATION)]
    c: u8,
    #[pasture(BUILTIN_USER_DATA)]
    u: u8,
    #[pasture(BUILTIN_POINT_SOURCE_ID)]
    s: u16,
    #[pasture(BUILTIN_NIR)]
    n: u16,
}

#[repr(C)]
#[derive(PointType, Copy, Clone, Debug, PartialEq, bytemuck::NoUninit, bytemuck::AnyBitPattern)]
struct Pos {
    #[pasture(BUILTIN_POSITION_3D)]
    p: Vector3<f64>,
}
impl KdPoint for Pos {
    type Scalar = f64;
    type Dim = typenum::U3;
    fn at(&self, k: usize) -> f64 {
        self.p[k]
    }
}

/// What the threads share. The layouts differ, so that anything remembered for one of them is wrong for the others.
struct Ctx {
    l: Vec<L>,
    vec: VectorBuffer,
    hash: HashMapBuffer,
    ext: ExternalMemoryBuffer<Vec<u8>>,
    typed: VectorBuffer,
    typed_h: HashMapBuffer,
    /// positions: first `flat` of them on the plane z = 0, `line` of those on the x axis
    cloud: HashMapBuffer,
    cloud_v: VectorBuffer,
    flat: usize,
    line: usize,
    tl: L,
    cl: L,
}

struct Digest(u64);
impl Digest {
    fn b(&mut self, b: &[u8]) {
        self.0 = mon::fnv(self.0, b);
        self.0 = mon::fnv(self.0, &(b.len() as u64).to_ne_bytes());
    }
    fn n(&mut self, n: usize) {
        self.b(&n.to_ne_bytes())
    }
    fn s(&mut self, s: &str) {
        self.b(s.as_bytes())
    }
}

fn all_points<'a, B: BorrowedBuffer<'a>>(b: &B, d: &mut Digest) {
    let mut p = vec![0u8; b.point_layout().size_of_point_entry() as usize];
    let attrs: Vec<_> = b.point_layout().attributes().map(|a| (a.offset() as usize, a.size() as usize)).collect();
    for i in 0..b.len() {
        b.get_point(i, &mut p);
        for (o, s) in &attrs {
            d.b(&p[*o..o + s]);
        }
    }
}

/// Reads a shared buffer in some way
fn probe<'a, B: BorrowedBuffer<'a> + 'a>(b: &B, l: &L, rng: &mut Rng, d: &mut Digest) {
    let n = b.len();
    match rng.below(9) {
        0 => all_points(b, d),
        1 => {
            let r = rng.subrange(n);
            for a in &l.attrs {
                let mut v = vec![0u8; r.len() * a.size];
                b.get_attribute_range(&a.def, r.clone(), &mut v);
                d.b(&v);
            }
        }
        2 => {
            for a in &l.attrs {
                let mut v = vec![0u8; a.size];
                for i in 0..n {
                    b.get_attribute(&a.def, i, &mut v);
                    d.b(&v);
                }
            }
        }
        3 => {
            if l.attrs.is_empty() { return }
            let a = &rng.pick(&l.attrs).def;
            with_prim!(a.datatype(), T => for x in b.view_attribute::<T>(a).into_iter() { d.b(bytemuck::bytes_of(&x)) }, ());
        }
        4 => {
            if l.attrs.is_empty() { return }
            let a = &rng.pick(&l.attrs).def;
            let to = prim_datatype(rng);
            let a = &a.with_custom_datatype(to);
            with_prim!(to, T => match b.view_attribute_with_conversion::<T>(a) {
                Ok(v) => for x in v.into_iter() { d.b(bytemuck::bytes_of(&x)) },
                Err(_) => d.n(77),
            }, ());
        }
        5 => {
            let pl = b.point_layout();
            for a in &l.attrs {
                d.n(pl.offset_of(&a.def).unwrap() as usize);
                d.n(pl.index_of(&a.def).unwrap());
                d.n(pl.get_attribute_by_name(a.def.name()).unwrap().size() as usize);
                d.n(pl.has_attribute_with_name(a.def.name()) as usize);
            }
            d.s(&format!("{pl}"));
            d.n((pl == &l.layout) as usize);
            d.n(pl.size_of_point_entry() as usize);
        }
        6 => {
            // own copies in buffers of one's own
            let mut v = VectorBuffer::new_from_layout(l.layout.clone());
            let mut h = HashMapBuffer::new_from_layout(l.layout.clone());
            if l.attrs.is_empty() { return }
            v.append(b);
            h.append(b);
            if n > 1 { v.swap(0, n - 1); h.swap(0, n - 1) }
            all_points(&v, d);
            all_points(&h, d);
        }
        7 => {
            let mut defs: Vec<PointAttributeDefinition> = vec![];
            for a in &l.attrs {
                if rng.chance(3, 4) {
                    let to = prim_datatype(rng);
                    let ok = get_generic_converter(a.def.datatype(), to).is_some();
                    defs.push(if ok { a.def.with_custom_datatype(to) } else { a.def.clone() });
                }
            }
            defs.reverse();
            let to = PointLayout::from_attributes_packed(&defs, [1, 2, 4, 8][rng.below(4)]);
            let mut c = BufferLayoutConverter::for_layouts(&l.layout, &to);
            for a in &defs {
                if rng.chance(1, 4) {
                    if let PointAttributeDataType::F64 = a.datatype() {
                        c.set_custom_mapping_with_transformation(l.layout.get_attribute_by_name(a.name()).unwrap().attribute_definition(), a, |x: f64| x * 0.5, false);
                    }
                }
            }
            all_points(&c.convert::<HashMapBuffer, _>(b), d);
            all_points(&c.convert::<VectorBuffer, _>(b), d);
        }
        _ => {
            if let Some(o) = b.as_interleaved() {
                d.n(n);
                for i in 0..n { d.n(o.get_point_ref(i).len()) }
                for a in &l.attrs {
                    let v = o.view_raw_attribute(l.layout.get_attribute(&a.def).unwrap());
                    for i in 0..n { d.b(&v[i]) }
                }
            }
            if let Some(o) = b.as_columnar() {
                for a in &l.attrs {
                    d.b(o.get_attribute_range_ref(&a.def, 0..n));
                    let v = o.view_raw_attribute(l.layout.get_attribute(&a.def).unwrap());
                    for i in 0..n { d.b(&v[i]) }
                }
            }
        }
    }
}

fn v3s(v: &Vector3<f64>) -> Vec<u8> {
    v.iter().flat_map(|x| x.to_ne_bytes()).collect()
}

fn algorithms<'a, B: BorrowedBuffer<'a> + Sync>(b: &'a B, c: &Ctx, rng: &mut Rng, d: &mut Digest) -> Result<(), String> {
    let whole: Vec<usize> = (0..b.len()).collect();
    let inliers = |what: &str, got: &Vec<usize>, n: usize| if got[..] == whole[..n] { Ok(()) } else { Err(format!("{what} found the inliers {got:?} instead of the first {n} points")) };
    match rng.below(11) {
        0 => d.s(&format!("{:?}", calculate_bounds(b))),
        1 => d.s(&format!("{:?}", minmax_attribute::<u16, _>(b, &attributes::INTENSITY))),
        2 => d.s(&format!("{:?}", minmax_attribute::<Vector3<f64>, _>(b, &attributes::POSITION_3D))),
        3 => d.b(&v3s(&compute_centroid(b))),
        4 => {
            let mut h = convex_hull_as_points(b);
            h.sort();
            d.s(&format!("{h:?}"));
        }
        5 => {
            let mut out = HashMapBuffer::new_from_layout(c.cl.layout.clone());
            voxelgrid_filter(b, 30.0, 20.0, 25.0, &mut out);
            let mut ps: Vec<Vec<u8>> = vec![];
            let mut p = vec![0u8; c.cl.size];
            for i in 0..out.len() { out.get_point(i, &mut p); ps.push(c.cl.decode(&p).concat()) }
            ps.sort();
            for p in ps { d.b(&p) }
        }
        6 => for (n, k) in compute_normals::<B, Pos>(b, 5) { d.b(&v3s(&n)); d.b(&k.to_ne_bytes()) },
        7 | 8 => {
            inliers("ransac_plane_par", &ransac_plane_par(b, 0.01, 120).1, c.flat)?;
            d.n(c.flat);
        }
        9 => {
            // few iterations: any model may come out, but with the inliers of one model
            let (_, v) = ransac_plane_par(b, 0.01, 3);
            if v.windows(2).any(|w| w[0] >= w[1]) || v.iter().any(|i| *i >= b.len()) { return Err(format!("inliers {v:?}")) }
            inliers("ransac_plane_serial", &ransac_plane_serial(b, 0.01, 120).1, c.flat)?;
        }
        _ => {
            let (par, ser) = (ransac_line_par(b, 0.01, 160).1, ransac_line_serial(b, 0.01, 160).1);
            inliers("ransac_line_par", &par, c.line)?;
            inliers("ransac_line_serial", &ser, c.line)?;
        }
    }
    Ok(())
}

fn job(seed: u64, c: &Ctx) -> Result<u64, String> {
    let mut rng = Rng::new(seed);
    let rng = &mut rng;
    let mut d = Digest(0);
    let r = match rng.below(16) {
        0 | 1 => { probe(&c.vec, &c.l[0], rng, &mut d); Ok(()) }
        2 | 3 => { probe(&c.hash, &c.l[1], rng, &mut d); Ok(()) }
        4 | 5 => { probe(&c.ext, &c.l[2], rng, &mut d); Ok(()) }
        6 => { let r = rng.subrange(c.vec.len()); probe(&c.vec.slice(r), &c.l[0], rng, &mut d); Ok(()) }
        7 => { let r = rng.subrange(c.hash.len()); probe(&c.hash.slice(r), &c.l[1], rng, &mut d); Ok(()) }
        8 => {
            let m = rng.range(2, 4);
            let f = |i: usize| i % m == 0;
            if rng.bool() { all_points(&c.hash.filter::<VectorBuffer, _>(f), &mut d) } else { all_points(&c.typed_h.filter::<HashMapBuffer, _>(f), &mut d) }
            Ok(())
        }
        9 => {
            for p in c.typed.view::<P3>().iter() { d.b(bytemuck::bytes_of(p)) }
            for p in c.typed_h.view::<P3>().into_iter() { d.b(bytemuck::bytes_of(&p)) }
            for i in c.typed_h.view_attribute::<u16>(&attributes::INTENSITY).iter() { d.b(bytemuck::bytes_of(i)) }
            let v: VectorBuffer = c.typed.view::<P3>().into_iter().collect();
            all_points(&v, &mut d);
            d.n((c.typed == v) as usize);
            Ok(())
        }
        10 => {
            // clones are independent
            let (mut v, mut h) = (c.vec.clone(), c.hash.clone());
            let (n, m) = (v.len(), h.len());
            v.resize(n + 2);
            h.resize(m / 2);
            if n > 0 { let mut p = vec![0u8; c.l[0].size]; v.get_point(0, &mut p); unsafe { v.set_point(n, &p) } }
            all_points(&v, &mut d);
            all_points(&h, &mut d);
            d.n(c.vec.len());
            d.n(c.hash.len());
            Ok(())
        }
        11 => { probe(&c.typed, &c.tl, rng, &mut d); probe(&c.typed_h, &c.tl, rng, &mut d); Ok(()) }
        12 => {
            // layouts are built and compared
            let i = rng.below(3);
            let l = PointLayout::from_attributes(&c.l[i].attrs.iter().map(|a| a.def.clone()).collect::<Vec<_>>());
            d.s(&format!("{l}"));
            for a in c.l[i].layout.attributes() { d.n(l.offset_of(a.attribute_definition()).unwrap() as usize) }
            d.s(&format!("{}", P3::layout()));
            Ok(())
        }
        13 => algorithms(&c.cloud_v, c, rng, &mut d),
        _ => algorithms(&c.cloud, c, rng, &mut d),
    };
    r.map(|_| d.0)
}

fn fill<B: for<'x> OwningBuffer<'x> + for<'x> MakeBufferFromLayout<'x>>(l: &L, n: usize, rng: &mut Rng) -> B {
    let mut b = B::new_from_layout(l.layout.clone());
    let ps = l.rand_pts(rng, n);
    let d = l.encode_all(&ps, rng);
    unsafe { b.push_points(&d) };
    b
}

fn make(rng: &mut Rng, obs: &mut Obs) -> Ctx {
    let base = rand_defs(rng, 1, 6, false);
    // the same names with other datatypes in other orders
    let mut l = vec![];
    for k in 0..3 {
        let mut defs: Vec<_> = base.iter().map(|d| if k > 0 && rng.bool() { d.with_custom_datatype(rand_datatype(rng)) } else { d.clone() }).collect();
        rng.shuffle(&mut defs);
        let (pl, how) = rand_layout_of(rng, &defs);
        let x = L::of(pl);
        obs.step(|| format!("layout {k} {how} {}", x.show()));
        l.push(x);
    }
    let n = count(rng, obs, 41);
    let vec = fill::<VectorBuffer>(&l[0], n, rng);
    let hash = fill::<HashMapBuffer>(&l[1], n, rng);
    let ps = l[2].rand_pts(rng, n);
    let ext = ExternalMemoryBuffer::new(l[2].encode_all(&ps, rng), l[2].layout.clone());
    let tl = L::of(P3::layout());
    let k = rng.range(0, 40);
    let typed = fill::<VectorBuffer>(&tl, k, rng);
    let typed_h = fill::<HashMapBuffer>(&tl, k, rng);
    let line = rng.range(20, 30);
    let flat = line + rng.range(12, 20);
    let total = flat + rng.range(0, 4);
    let pts: Vec<P3> = (0..total)
        .map(|i| P3 {
            p: Vector3::new(rng.f64(-100.0, 100.0), if i < line { 0.0 } else { rng.f64(5.0, 100.0) * if rng.bool() { 1.0 } else { -1.0 } }, if i < flat { 0.0 } else { rng.f64(20.0, 90.0) }),
            i: rng.u64() as u16,
            c: rng.below(5) as u8,
            u: rng.below(4) as u8,
            s: rng.u64() as u16,
            n: rng.u64() as u16,
        })
        .collect();
    let cloud: HashMapBuffer = pts.iter().copied().collect();
    let cloud_v: VectorBuffer = pts.iter().copied().collect();
    // attributes that are averaged: the most common value may be a draw
    let cl = L::of(PointLayout::from_attributes(&[attributes::NIR, attributes::POSITION_3D, attributes::INTENSITY]));
    obs.step(|| format!("{n} points, {k} typed points, cloud of {total} points, {flat} on a plane, {line} on a line"));
    Ctx { l, vec, hash, ext, typed, typed_h, cloud, cloud_v, flat, line, tl, cl }
}

fn case(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let c = make(rng, obs);
    let threads = rng.range(2, 6);
    let per = rng.range(2, 8);
    // some threads run the same jobs, so that they do the same at the same time
    let same = rng.bool();
    let base: Vec<u64> = (0..per).map(|_| rng.u64()).collect();
    let jobs: Vec<Vec<u64>> = (0..threads).map(|_| if same { let mut v = base.clone(); if rng.bool() { rng.shuffle(&mut v) } v } else { (0..per).map(|_| rng.u64()).collect() }).collect();
    obs.step(|| format!("{threads} threads, {per} jobs each, same {same}: {jobs:?}"));
    let alone_first = rng.bool();
    let run_alone = || -> Vec<Vec<Result<Result<u64, String>, String>>> { jobs.iter().map(|v| v.iter().map(|s| attempt(|| job(*s, &c))).collect()) .collect() };
    let mut alone = if alone_first { run_alone() } else { vec![] };
    let barrier = Barrier::new(threads);
    let running = AtomicUsize::new(0);
    let overlap = AtomicUsize::new(0);
    let results: Vec<Vec<Result<Result<u64, String>, String>>> = std::thread::scope(|s| {
        let hs: Vec<_> = jobs
            .iter()
            .map(|v| {
                let (c, barrier, running, overlap) = (&c, &barrier, &running, &overlap);
                s.spawn(move || {
                    barrier.wait();
                    v.iter()
                        .map(|s| {
                            if running.fetch_add(1, Ordering::Relaxed) > 0 { overlap.fetch_add(1, Ordering::Relaxed); }
                            let r = attempt(|| job(*s, c));
                            running.fetch_sub(1, Ordering::Relaxed);
                            if s % 3 == 0 { std::thread::yield_now() }
                            r
                        })
                        .collect()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    if !alone_first {
        alone = run_alone();
    }
    for (t, (v, w)) in results.iter().zip(&alone).enumerate() {
        for (i, (a, b)) in v.iter().zip(w).enumerate() {
            if let Ok(Err(e)) = b { mon::violation("alone", format!("without company: {e}"))?; }
            if let Ok(Err(e)) = a { mon::violation("inliers", format!("thread {t} of {threads}: {e}"))?; }
            let k = match (a, b) { (Ok(x), Ok(y)) => x == y, (Err(_), Err(_)) => true, _ => false };
            ensure!(k, "result", "thread {t} of {threads}, job {i} (seed {}): the result is {a:?}, without company it is {b:?}", jobs[t][i]);
            if std::env::var_os("DBG").is_some() { if let Err(e) = a { eprintln!("{e}") } }
            obs.ev(if a.is_ok() { "jobs_compared" } else { "jobs_refused" });
        }
    }
    obs.evn("overlapping_jobs", overlap.load(Ordering::Relaxed) as u64);
    obs.evn("threads", threads as u64);
    // buffers are handed from thread to thread
    if rng.chance(1, 3) {
        let mut v = c.vec;
        let mut h = c.hash;
        let (before_v, before_h) = (v.clone(), h.clone());
        let hops = rng.range(1, 4);
        obs.step(|| format!("handed over {hops} times"));
        for _ in 0..hops {
            let (tx, rx) = mpsc::channel::<(VectorBuffer, HashMapBuffer)>();
            let t = std::thread::spawn(move || {
                let (mut v, mut h) = rx.recv().unwrap();
                let (n, m) = (v.len(), h.len());
                v.resize(n + 1);
                h.resize(m + 1);
                if n > 0 { v.swap(0, n); v.swap(0, n); h.swap(0, m); h.swap(0, m); }
                (v, h)
            });
            tx.send((v, h)).unwrap();
            (v, h) = match t.join() { Ok(x) => x, Err(_) => return mon::violation("hand over", "a thread that changes buffers handed to it panics") };
        }
        let n = before_v.len();
        v.resize(n);
        h.resize(n);
        let (mut d, mut e) = (Digest(0), Digest(0));
        all_points(&v, &mut d);
        all_points(&h, &mut d);
        all_points(&before_v, &mut e);
        all_points(&before_h, &mut e);
        ensure!(d.0 == e.0, "hand over", "buffers changed while they were handed from thread to thread");
        obs.ev("handed_over");
    }
    obs.nontrivial();
    Ok(())
}

const P29: Property = Property {
    id: "P29",
    rule: "Two to six threads start at a barrier and run random jobs (reads, views, conversions, copies, layouts, filters, serial and parallel algorithms) on buffers, slices and layouts they share; each job is repeated without company and has to give the same digest. Many short processes, so that what is set up on first use is set up by competing threads. Non-trivial: every case; distinct by layouts, points and jobs.",
    assumptions: &["the C library behind reprojection is not instrumented and left out", "interleavings are those the scheduler gave, they are not enumerated"],
    quick_cases: 6_000,
    thorough_cases: 100_000,
    case,
    required_events: &["jobs_compared", "overlapping_jobs", "handed_over"],
};

fn main() {
    mon::main(&[P29])
}
