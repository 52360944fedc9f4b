//! Random sequences of calls, valid or not. Nothing is expected of their results; the sanitizers watch.
use crate::gen::*;
use crate::views::{Color, Ints, Mid, Odd, Small, Tiny};
use crate::with_prim;
use mon::{attempt, Obs, Rng};
use nalgebra::Vector3;
use pasture_core::containers::*;
use pasture_core::layout::conversion::*;
use pasture_core::layout::*;
use std::hint::black_box;
use std::ops::Range;

/// Looks at every byte, so that uninitialised or freed memory is noticed
fn look(b: &[u8]) -> u64 {
    let mut s = 0u64;
    for x in b {
        s = s.wrapping_mul(31).wrapping_add(*x as u64);
    }
    if black_box(s) == 0x1234_5678_9abc { black_box(1) } else { s }
}

fn idx(rng: &mut Rng, n: usize) -> usize {
    match rng.below(8) {
        0 => n,
        1 => n + 1,
        2 => n.saturating_sub(1),
        3 => usize::MAX,
        4 => usize::MAX / 2 + rng.below(3),
        5 => n + rng.below(40),
        _ => rng.below(n + 1),
    }
}

fn range(rng: &mut Rng, n: usize) -> Range<usize> {
    if rng.bool() {
        return rng.subrange(n);
    }
    let (a, b) = (idx(rng, n), idx(rng, n));
    a..b
}

fn size(rng: &mut Rng, right: usize) -> usize {
    if right > 1 << 16 {
        return rng.below(100);
    }
    match rng.below(6) {
        0 => right + rng.range(1, 9),
        1 => rng.below(right + 1),
        _ => right,
    }
}

fn done<T>(r: Result<T, String>, obs: &mut Obs) -> Option<T> {
    obs.ev(if r.is_ok() { "accepted" } else { "refused" });
    r.ok()
}

fn def(l: &L, rng: &mut Rng) -> PointAttributeDefinition {
    if l.attrs.is_empty() || rng.chance(1, 6) {
        return rand_defs(rng, 1, 1, false).remove(0);
    }
    let d = rng.pick(&l.attrs).def.clone();
    if rng.chance(1, 6) { d.with_custom_datatype(rand_datatype(rng)) } else { d }
}

fn reads<'a, B: BorrowedBuffer<'a> + 'a>(b: &B, l: &L, rng: &mut Rng, obs: &mut Obs) {
    let n = b.len();
    obs.ev("hostile_reads");
    for _ in 0..rng.range(1, 4) {
        match rng.below(7) {
            0 => {
                let i = idx(rng, n);
                let mut d = vec![7u8; size(rng, l.size)];
                obs.step(|| format!("get_point({i}, {} bytes)", d.len()));
                done(attempt(|| b.get_point(i, &mut d)), obs);
                look(&d);
            }
            1 => {
                let r = range(rng, n);
                let mut d = vec![7u8; size(rng, r.len().saturating_mul(l.size))];
                obs.step(|| format!("get_point_range({r:?}, {} bytes)", d.len()));
                done(attempt(|| b.get_point_range(r, &mut d)), obs);
                look(&d);
            }
            2 => {
                let a = def(l, rng);
                let i = idx(rng, n);
                let mut d = vec![7u8; size(rng, a.size() as usize)];
                obs.step(|| format!("get_attribute({a}, {i}, {} bytes)", d.len()));
                done(attempt(|| b.get_attribute(&a, i, &mut d)), obs);
                look(&d);
            }
            3 => {
                let a = def(l, rng);
                let r = range(rng, n);
                let mut d = vec![7u8; size(rng, r.len().saturating_mul(a.size() as usize))];
                obs.step(|| format!("get_attribute_range({a}, {r:?}, {} bytes)", d.len()));
                done(attempt(|| b.get_attribute_range(&a, r, &mut d)), obs);
                look(&d);
            }
            4 => {
                let a = def(l, rng);
                let dt = if rng.bool() { a.datatype() } else { prim_datatype(rng) };
                let i = idx(rng, n);
                let k = rng.below(3);
                obs.step(|| format!("attribute view {k} of {a} as {dt}, {i}"));
                let r = attempt(|| {
                    with_prim!(dt, T => match k {
                        0 => { look(bytemuck::bytes_of(&b.view_attribute::<T>(&a).at(i))); }
                        1 => for x in b.view_attribute::<T>(&a).into_iter().skip(i % (n + 2)) { look(bytemuck::bytes_of(&x)); },
                        _ => {
                            let v = b.view_attribute_with_conversion::<T>(&a).unwrap();
                            look(bytemuck::bytes_of(&v.at(i)));
                            for x in v.into_iter().take(i) { look(bytemuck::bytes_of(&x)); }
                        }
                    }, ())
                });
                done(r, obs);
            }
            5 => {
                if let Some(o) = b.as_interleaved() {
                    let (i, r) = (idx(rng, n), range(rng, n));
                    obs.step(|| format!("point refs {i}, {r:?}"));
                    done(attempt(|| look(o.get_point_ref(i))), obs);
                    done(attempt(|| look(o.get_point_range_ref(r))), obs);
                    if !l.attrs.is_empty() {
                        let d = &rng.pick(&l.attrs).def;
                        let m = l.layout.get_attribute(d).unwrap();
                        done(attempt(|| { let v = o.view_raw_attribute(m); if n > 0 { look(&v[i]); } v.len() }), obs);
                    }
                }
                if let Some(o) = b.as_columnar() {
                    let (i, r) = (idx(rng, n), range(rng, n));
                    let a = def(l, rng);
                    obs.step(|| format!("attribute refs {a} {i}, {r:?}"));
                    done(attempt(|| look(o.get_attribute_ref(&a, i))), obs);
                    done(attempt(|| look(o.get_attribute_range_ref(&a, r))), obs);
                    if let Some(m) = l.layout.get_attribute(&a) {
                        done(attempt(|| { let v = o.view_raw_attribute(m); look(&v[i]); v.len() }), obs);
                    }
                }
            }
            _ => {
                let v: Vec<usize> = (0..3).map(|_| idx(rng, n)).collect();
                for i in v {
                    let mut d = vec![7u8; l.size];
                    let _ = attempt(|| b.get_point(i, &mut d));
                    look(&d);
                }
            }
        }
    }
}

/// Slices that may not fit, and slices of them: their reads are to be refused at the latest
macro_rules! slices {
    ($b:expr, $l:expr, $rng:expr, $obs:expr) => {{
        let n = $b.len();
        let r = range($rng, n);
        let t = range($rng, r.len().min(50));
        $obs.step(|| format!("slice {r:?} of {n}, slice {t:?} of that"));
        let res = attempt(|| {
            let s = $b.slice(r.clone());
            let mut d = vec![7u8; $l.size];
            for i in 0..6 {
                let _ = attempt(|| s.get_point(i, &mut d));
                look(&d);
            }
            let i = idx($rng, n);
            let _ = attempt(|| s.get_point(i, &mut d));
            if r.start <= r.end && r.end <= n { reads(&s, $l, $rng, $obs); }
            let q = BufferSlice::new(&s, t.clone());
            for i in 0..4 {
                let _ = attempt(|| q.get_point(i, &mut d));
                look(&d);
            }
            for a in &$l.attrs {
                let mut d = vec![7u8; a.size];
                let _ = attempt(|| q.get_attribute(&a.def, i, &mut d));
                let _ = attempt(|| s.get_attribute(&a.def, i, &mut d));
                look(&d);
            }
        });
        done(res, $obs);
    }};
}

fn writes<'a, B: BorrowedMutBuffer<'a> + 'a>(b: &mut B, l: &L, rng: &mut Rng, obs: &mut Obs) {
    let n = b.len();
    obs.ev("hostile_writes");
    for _ in 0..rng.range(1, 4) {
        match rng.below(8) {
            0 => {
                let i = idx(rng, n);
                let d = rng.bytes(l.size);
                obs.step(|| format!("set_point({i})"));
                done(attempt(|| unsafe { b.set_point(i, &d) }), obs);
            }
            1 => {
                let r = range(rng, n);
                let k = r.len().saturating_mul(l.size);
                if k > 1 << 16 { continue }
                let d = rng.bytes(k);
                obs.step(|| format!("set_point_range({r:?})"));
                done(attempt(|| unsafe { b.set_point_range(r, &d) }), obs);
            }
            2 => {
                if l.attrs.is_empty() { continue }
                let a = rng.pick(&l.attrs).clone();
                let i = idx(rng, n);
                let d = rng.bytes(a.size);
                obs.step(|| format!("set_attribute({}, {i})", a.def));
                done(attempt(|| unsafe { b.set_attribute(&a.def, i, &d) }), obs);
            }
            3 => {
                if l.attrs.is_empty() { continue }
                let a = rng.pick(&l.attrs).clone();
                let r = range(rng, n);
                let k = r.len().saturating_mul(a.size);
                if k > 1 << 16 { continue }
                let d = rng.bytes(k);
                obs.step(|| format!("set_attribute_range({}, {r:?})", a.def));
                done(attempt(|| unsafe { b.set_attribute_range(&a.def, r, &d) }), obs);
            }
            4 => {
                let (i, j) = (idx(rng, n), idx(rng, n));
                obs.step(|| format!("swap({i}, {j})"));
                done(attempt(|| b.swap(i, j)), obs);
            }
            5 => {
                let a = def(l, rng);
                let dt = if rng.chance(4, 5) { a.datatype() } else { prim_datatype(rng) };
                let stop = if rng.bool() { usize::MAX } else { rng.below(n + 1) };
                obs.step(|| format!("transform {a} as {dt}, panics at {stop}"));
                let r = attempt(|| {
                    with_prim!(dt, T => b.transform_attribute::<T, _>(&a, |i, v| {
                        if i == stop { panic!("planned") }
                        look(bytemuck::bytes_of(&v));
                        v
                    }), ())
                });
                done(r, obs);
            }
            6 => {
                let a = def(l, rng);
                let dt = if rng.chance(4, 5) { a.datatype() } else { prim_datatype(rng) };
                let (i, j) = (idx(rng, n), idx(rng, n));
                obs.step(|| format!("attribute view mut {a} as {dt}: {i} to {j}"));
                let r = attempt(|| {
                    with_prim!(dt, T => {
                        let mut v = b.view_attribute_mut::<T>(&a);
                        let x = v.at(i);
                        look(bytemuck::bytes_of(&x));
                        v.set_at(j, x);
                    }, ())
                });
                done(r, obs);
            }
            _ => {
                if let Some(o) = b.as_interleaved_mut() {
                    let (i, r) = (idx(rng, n), range(rng, n));
                    obs.step(|| format!("point muts {i}, {r:?}"));
                    done(attempt(|| o.get_point_mut(i).fill(3)), obs);
                    done(attempt(|| o.get_point_range_mut(r).fill(4)), obs);
                    if !l.attrs.is_empty() {
                        let d = &rng.pick(&l.attrs).def;
                        let m = l.layout.get_attribute(d).unwrap();
                        done(attempt(|| o.view_raw_attribute_mut(m)[i].fill(5)), obs);
                    }
                }
                if let Some(o) = b.as_columnar_mut() {
                    let (i, r) = (idx(rng, n), range(rng, n));
                    let a = def(l, rng);
                    obs.step(|| format!("attribute muts {a} {i}, {r:?}"));
                    done(attempt(|| o.get_attribute_mut(&a, i).fill(3)), obs);
                    done(attempt(|| o.get_attribute_range_mut(&a, r).fill(4)), obs);
                    if let Some(m) = l.layout.get_attribute(&a) {
                        done(attempt(|| o.view_raw_attribute_mut(m)[i].fill(5)), obs);
                    }
                }
            }
        }
    }
}

/// References into columnar memory, several at once
fn columnar<'a, B: ColumnarBufferMut<'a> + 'a>(b: &mut B, l: &L, rng: &mut Rng, obs: &mut Obs) {
    let n = b.len();
    let a = def(l, rng);
    let dt = a.datatype();
    let (k, j) = (idx(rng, n), idx(rng, n));
    obs.step(|| format!("columnar refs {a}: {k}, {j}"));
    let r = attempt(|| {
        with_prim!(dt, T => {
            {
                let v = b.view_attribute::<T>(&a);
                let all: Vec<&T> = v.iter().collect();
                for x in &all { look(bytemuck::bytes_of(*x)); }
                let mut it = v.iter();
                if let Some(x) = it.nth(k) { look(bytemuck::bytes_of(x)); }
                if let Some(x) = it.next() { look(bytemuck::bytes_of(x)); }
            }
            {
                let mut v = b.view_attribute_mut::<T>(&a);
                let mut all: Vec<&mut T> = v.iter_mut().collect();
                let m = all.len();
                if m > 1 {
                    let (x, y) = all.split_at_mut(m / 2);
                    std::mem::swap(&mut *x[0], &mut *y[0]);
                }
                for x in &all { look(bytemuck::bytes_of(&**x)); }
            }
            {
                let mut v = b.view_attribute_mut::<T>(&a);
                let mut it = v.iter_mut();
                let p = it.nth(j);
                let q = it.nth(k % (n + 2));
                if let (Some(p), Some(q)) = (p, q) { std::mem::swap(p, q); }
            }
            {
                let mut v = b.view_attribute_mut::<T>(&a);
                let x = *v.at_mut(j);
                look(bytemuck::bytes_of(&x));
            }
            {
                let v = b.view_attribute::<T>(&a);
                look(bytemuck::bytes_of(v.at_ref(k)));
            }
        }, ())
    });
    obs.ev("hostile_iter_mut");
    done(r, obs);
}

fn defs_of<T: PointType>() -> L {
    L::of(T::layout())
}

fn typed_mut<'a, T: PointType + PartialEq, B: InterleavedBufferMut<'a> + 'a>(b: &mut B, rng: &mut Rng, obs: &mut Obs) {
    let n = b.len();
    let (k, j) = (idx(rng, n), idx(rng, n));
    let stop = if rng.bool() { usize::MAX } else { rng.below(2 * n + 1) };
    obs.step(|| format!("typed views {k}, {j}, comparator panics at {stop}"));
    obs.ev("hostile_views");
    obs.ev("hostile_iter_mut");
    let r = attempt(|| {
        let v = b.view::<T>();
        let all: Vec<&T> = v.iter().collect();
        for x in &all { look(bytemuck::bytes_of(*x)); }
        let mut it = v.iter();
        if let Some(x) = it.nth(k) { look(bytemuck::bytes_of(x)); }
        look(bytemuck::bytes_of(v.at_ref(j)));
    });
    done(r, obs);
    let r = attempt(|| {
        let mut v = b.view_mut::<T>();
        {
            let mut all: Vec<&mut T> = v.iter_mut().collect();
            let m = all.len();
            if m > 1 {
                let (x, y) = all.split_at_mut(m / 2);
                std::mem::swap(&mut *x[0], &mut *y[0]);
            }
        }
        {
            let mut it = v.iter_mut();
            let p = it.nth(j);
            let q = it.nth(k % (n + 2));
            if let (Some(p), Some(q)) = (p, q) { std::mem::swap(p, q); }
        }
        let x = v.at(j);
        v.set_at(k, x);
        *v.at_mut(k) = x;
    });
    done(r, obs);
    let r = attempt(|| {
        let mut v = b.view_mut::<T>();
        let c = std::cell::Cell::new(0usize);
        v.sort_by(|x, y| {
            c.set(c.get() + 1);
            if c.get() > stop { panic!("planned") }
            bytemuck::bytes_of(x).cmp(bytemuck::bytes_of(y))
        });
    });
    done(r, obs);
    for x in b.view::<T>().into_iter() { look(bytemuck::bytes_of(&x)); }
}

fn typed<T: PointType + PartialEq>(rng: &mut Rng, obs: &mut Obs) {
    let l = defs_of::<T>();
    let n = rng.below(6);
    let d: Vec<u8> = rng.bytes(n * l.size);
    match rng.below(4) {
        0 => {
            let mut b = VectorBuffer::new_from_layout(l.layout.clone());
            unsafe { b.push_points(&d) };
            typed_mut::<T, _>(&mut b, rng, obs);
            let r = attempt(|| {
                let mut v = b.view_mut::<T>();
                if n > 0 { let x = v.at(0); v.push_point(x); v.push_point(x); }
            });
            done(r, obs);
            let r = range(rng, n);
            let _ = attempt(|| { let mut s = b.slice_mut(r); let _ = attempt(|| typed_mut::<T, _>(&mut s, rng, obs)); });
        }
        1 => {
            // memory that is not aligned for the type
            let shift = rng.below(9);
            let mut mem = vec![0u8; shift + d.len()];
            mem[shift..].copy_from_slice(&d);
            let r = attempt(|| ExternalMemoryBuffer::new(&mut mem[shift..], l.layout.clone()));
            if let Some(mut b) = done(r, obs) { let _ = attempt(|| typed_mut::<T, _>(&mut b, rng, obs)); }
        }
        2 => {
            let pts: Vec<T> = d.chunks(l.size).map(bytemuck::pod_read_unaligned).collect();
            let stop = if rng.bool() { usize::MAX } else { rng.below(n + 1) };
            let it = || pts.iter().enumerate().map(|(i, x)| { if i == stop { panic!("planned") } *x });
            let r = attempt(|| { let b: VectorBuffer = it().collect(); reads(&b, &l, rng, obs); });
            done(r, obs);
            let r = attempt(|| { let b: HashMapBuffer = it().filter(|x| bytemuck::bytes_of(x)[0] & 1 == 0).collect(); reads(&b, &l, rng, obs); });
            done(r, obs);
        }
        _ => {
            let mut b = HashMapBuffer::new_from_layout(l.layout.clone());
            unsafe { b.push_points(&d) };
            let (i, j) = (idx(rng, n), idx(rng, n));
            let r = attempt(|| {
                let mut v = b.view_mut::<T>();
                let x = v.at(i);
                v.set_at(j, x);
                v.push_point(x);
            });
            done(r, obs);
            for x in b.view::<T>().into_iter().step_by(1 + n / 3) { look(bytemuck::bytes_of(&x)); }
            reads(&b, &l, rng, obs);
        }
    }
}

fn conversion<'a, S: BorrowedBuffer<'a> + 'a>(src: &S, l: &L, rng: &mut Rng, obs: &mut Obs) {
    obs.ev("hostile_conversion");
    let defs: Vec<_> = (0..rng.range(1, 4)).map(|_| def(l, rng)).fold(vec![], |mut v: Vec<PointAttributeDefinition>, d| { if !v.iter().any(|x| x.name() == d.name()) { v.push(d) } v });
    let (to, _) = rand_layout_of(rng, &defs);
    let to = L::of(to);
    let n = src.len();
    let (r, t) = (range(rng, n), range(rng, n));
    let with_default = rng.bool();
    let stop = if rng.bool() { u32::MAX } else { rng.below(n + 1) as u32 };
    let m = if rng.bool() { Some((def(l, rng), def(&to, rng))) } else { None };
    let side = rng.bool();
    obs.step(|| format!("convert to {} range {r:?} to {t:?} mapping {m:?}, transformation panics at {stop}", to.show()));
    let res = attempt(|| {
        let mut c = if with_default { BufferLayoutConverter::for_layouts_with_default(&l.layout, &to.layout) } else { BufferLayoutConverter::for_layouts(&l.layout, &to.layout) };
        if let Some((a, b)) = &m {
            let calls = std::cell::Cell::new(0u32);
            let dt = if side { a.datatype() } else { b.datatype() };
            let _ = attempt(|| with_prim!(dt, T => c.set_custom_mapping_with_transformation::<T, _>(a, b, move |v: T| {
                calls.set(calls.get() + 1);
                if calls.get() > stop { panic!("planned") }
                look(bytemuck::bytes_of(&v));
                v
            }, side), c.set_custom_mapping(a, b)));
        }
        let v = attempt(|| c.convert::<VectorBuffer, _>(src));
        if let Ok(v) = v { reads(&v, &to, rng, obs); }
        let v = attempt(|| c.convert::<HashMapBuffer, _>(src));
        if let Ok(v) = v { reads(&v, &to, rng, obs); }
        let mut o = HashMapBuffer::new_from_layout(to.layout.clone());
        o.resize(rng.below(n + 3));
        let _ = attempt(|| c.convert_into_range(src, r.clone(), &mut o, t.clone()));
        reads(&o, &to, rng, obs);
        let mut o = VectorBuffer::new_from_layout(to.layout.clone());
        o.resize(rng.below(n + 3));
        let _ = attempt(|| c.convert_into_range(src, r, &mut o, t));
        reads(&o, &to, rng, obs);
    });
    done(res, obs);
    let rp = attempt(|| RawPointConverter::from_to(&l.layout, &to.layout));
    if let Ok(rp) = rp {
        let s = rng.bytes(l.size);
        let mut t = vec![0u8; to.size];
        unsafe { rp.convert(&s, &mut t) };
        look(&t);
    }
}

fn all_on<'a, B: BorrowedMutBuffer<'a> + 'a>(b: &mut B, l: &L, rng: &mut Rng, obs: &mut Obs) {
    for _ in 0..rng.range(1, 4) {
        match rng.below(5) {
            0 | 1 => reads(b, l, rng, obs),
            2 | 3 => writes(b, l, rng, obs),
            _ => conversion(b, l, rng, obs),
        }
    }
}

fn owning<'a, B: OwningBuffer<'a> + MakeBufferFromLayout<'a> + 'a>(b: &mut B, l: &L, rng: &mut Rng, obs: &mut Obs) {
    match rng.below(5) {
        0 => {
            // data that is no multiple of the size of a point is refused
            let k = rng.below(4) * l.size;
            let n = size(rng, k);
            let d = rng.bytes(n);
            obs.step(|| format!("push {n} bytes"));
            done(attempt(|| unsafe { b.push_points(&d) }), obs);
        }
        1 => {
            let n = rng.below(9);
            obs.step(|| format!("resize {n}"));
            done(attempt(|| b.resize(n)), obs);
        }
        2 => b.clear(),
        _ => {
            let l2 = if rng.bool() { l.clone() } else { rand_layout(rng, obs, 0, 4, false) };
            let mut o = VectorBuffer::new_from_layout(l2.layout.clone());
            o.resize(rng.below(5));
            let mut h = HashMapBuffer::new_from_layout(l2.layout.clone());
            h.resize(rng.below(5));
            obs.step(|| format!("append {} or {}", o.len(), h.len()));
            done(attempt(|| b.append(&o)), obs);
            done(attempt(|| b.append(&h)), obs);
            // also ranges that do not fit, but none that asks for more memory than there is
            let (x, y) = (rng.below(6), rng.below(60));
            let r = x.min(y)..y;
            let _ = attempt(|| b.append(&o.slice(r.clone())));
            let _ = attempt(|| b.append(&h.slice(r)));
        }
    }
}

pub fn case(rng: &mut Rng, obs: &mut Obs) {
    obs.nontrivial();
    if rng.chance(1, 4) {
        if std::env::var_os("MON_TRACE").is_some() { eprintln!("typed"); }
        match rng.below(6) {
            0 => typed::<Small>(rng, obs),
            1 => typed::<Tiny>(rng, obs),
            2 => typed::<Color>(rng, obs),
            3 => typed::<Mid>(rng, obs),
            4 => typed::<Odd>(rng, obs),
            _ => typed::<Ints>(rng, obs),
        }
        return;
    }
    let l = rand_layout(rng, obs, 0, if cfg!(miri) { 3 } else { 5 }, false);
    let n = rng.below(if cfg!(miri) { 4 } else { 6 });
    let m = l.rand_pts(rng, n);
    let kind = rng.below(5);
    if std::env::var_os("MON_TRACE").is_some() { eprintln!("kind {kind}"); }
    match kind {
        0 => {
            let mut b = crate::bufs::vbuf(&l, &m, rng);
            for _ in 0..rng.range(1, if cfg!(miri) { 2 } else { 5 }) {
                all_on(&mut b, &l, rng, obs);
                if rng.bool() { slices!(b, &l, rng, obs) }
                owning(&mut b, &l, rng, obs);
            }
            all_on(&mut b, &l, rng, obs);
        }
        1 => {
            let mut b = crate::bufs::hbuf(&l, &m, rng);
            for _ in 0..rng.range(1, if cfg!(miri) { 2 } else { 5 }) {
                all_on(&mut b, &l, rng, obs);
                columnar(&mut b, &l, rng, obs);
                if rng.bool() { slices!(b, &l, rng, obs) }
                owning(&mut b, &l, rng, obs);
                if rng.chance(1, 3) {
                    let stop = if rng.bool() { usize::MAX } else { rng.below(n + 1) };
                    let f = |i: usize| { if i == stop { panic!("planned") } i % 2 == 0 };
                    if let Ok(v) = attempt(|| b.filter::<VectorBuffer, _>(f)) { reads(&v, &l, rng, obs); }
                    if let Ok(v) = attempt(|| b.filter::<HashMapBuffer, _>(f)) { reads(&v, &l, rng, obs); }
                    let mut o = VectorBuffer::new_from_layout(l.layout.clone());
                    o.resize(rng.below(6));
                    let hint = if rng.bool() { None } else { Some(rng.below(7)) };
                    obs.step(|| format!("filter_into {} points, hint {hint:?}", o.len()));
                    done(attempt(|| b.filter_into(&mut o, f, hint)), obs);
                    reads(&o, &l, rng, obs);
                }
                if rng.chance(1, 3) {
                    let k = rng.below(4);
                    let r = attempt(|| {
                        let mut p = b.begin_push_attributes();
                        for a in &l.attrs {
                            let c = if rng.chance(1, 5) { rng.below(5) } else { k };
                            let _ = attempt(|| with_prim!(a.def.datatype(), T => {
                                let v: Vec<T> = (0..c).map(|_| typed_value::<T>(&rand_value(rng, a.def.datatype()))).collect();
                                p.push_attribute_range::<T>(&a.def, &v);
                            }, ()));
                        }
                        if rng.bool() { p.done() }
                    });
                    done(r, obs);
                }
            }
            all_on(&mut b, &l, rng, obs);
        }
        2 => {
            let shift = rng.below(9);
            let mut mem = vec![0u8; shift];
            mem.extend(l.encode_all(&m, rng));
            if rng.chance(1, 3) { let k = rng.below(5); mem.extend(rng.bytes(k)) }
            obs.step(|| format!("external memory shifted by {shift}, {} bytes", mem.len() - shift));
            let r = attempt(|| ExternalMemoryBuffer::new(&mut mem[shift..], l.layout.clone()));
            if let Some(mut b) = done(r, obs) {
                if rng.chance(1, 4) && b.len() > 0 {
                    let r = rng.subrange(b.len());
                    let mut s = b.slice_mut(r);
                    all_on(&mut s, &l, rng, obs);
                } else {
                    all_on(&mut b, &l, rng, obs);
                }
            }
        }
        3 => {
            let mut b = crate::bufs::vbuf(&l, &m, rng);
            let r = rng.subrange(n);
            obs.step(|| format!("slice {r:?} of {n}"));
            let mut s = b.slice_mut(r.clone());
            all_on(&mut s, &l, rng, obs);
            if r.len() > 0 && rng.bool() {
                let q = rng.subrange(r.len());
                let mut t = s.slice_mut(q);
                all_on(&mut t, &l, rng, obs);
            }
        }
        _ => {
            let mut b = crate::bufs::hbuf(&l, &m, rng);
            let r = rng.subrange(n);
            obs.step(|| format!("slice {r:?} of {n}"));
            let mut s = b.slice_mut(r.clone());
            all_on(&mut s, &l, rng, obs);
            columnar(&mut s, &l, rng, obs);
        }
    }
}

fn typed_value<T: bytemuck::AnyBitPattern>(b: &[u8]) -> T {
    bytemuck::pod_read_unaligned(b)
}
