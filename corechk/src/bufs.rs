//! P01 (buffer = sequence), P02 (slices), P21 (invalid requests)
use crate::gen::*;
use crate::reads::*;
use crate::with_prim;
use mon::{attempt, ensure, must, must_refuse, violation, Obs, Property, Rng, Verdict};
use pasture_core::containers::*;
use pasture_core::layout::conversion::BufferLayoutConverter;
use pasture_core::layout::*;

pub trait Own: for<'x> OwningBuffer<'x> + for<'x> MakeBufferFromLayout<'x> + Clone + PartialEq {}
impl<T: for<'x> OwningBuffer<'x> + for<'x> MakeBufferFromLayout<'x> + Clone + PartialEq> Own for T {}

pub fn vbuf(l: &L, m: &[Pt], rng: &mut Rng) -> VectorBuffer {
    filled::<VectorBuffer>(l, m, rng)
}
pub fn hbuf(l: &L, m: &[Pt], rng: &mut Rng) -> HashMapBuffer {
    filled::<HashMapBuffer>(l, m, rng)
}
/// A buffer holding the model's points, filled in one of several ways that P01 watches one by one
pub fn filled<B: Own>(l: &L, m: &[Pt], rng: &mut Rng) -> B {
    let mut b = B::new_from_layout(l.layout.clone());
    b.resize(m.len());
    for (i, p) in m.iter().enumerate() {
        let d = l.encode(p, rng);
        unsafe { b.set_point(i, &d) };
    }
    b
}

fn append_other<B: Own>(who: &str, b: &mut B, l: &L, m: &mut Vec<Pt>, rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let k = count(rng, obs, 6);
    let src = l.rand_pts(rng, k);
    let r = rng.subrange(k);
    let way = rng.below(10);
    let mut take = src.clone();
    let sig = format!("{who}:append#{way}");
    obs.step(|| format!("{who}.append way {way} of {k} points, slice {r:?}: {src:?}"));
    match way {
        0 => { let o = vbuf(l, &src, rng); must(&sig, || b.append(&o))? }
        1 => { let o = hbuf(l, &src, rng); must(&sig, || b.append(&o))? }
        2 => { let o = vbuf(l, &src, rng); must(&sig, || b.append_interleaved(&o))? }
        3 => { let o = hbuf(l, &src, rng); must(&sig, || b.append_columnar(&o))? }
        4 if !l.attrs.is_empty() => {
            let d = l.encode_all(&src, rng);
            let o = ExternalMemoryBuffer::new(d.as_slice(), l.layout.clone());
            if rng.bool() { must(&sig, || b.append_interleaved(&o))? } else { must(&sig, || b.append(&o))? }
        }
        5 => { let o = vbuf(l, &src, rng); take = src[r.clone()].to_vec(); must(&sig, || b.append_interleaved(&o.slice(r)))? }
        6 => { let o = hbuf(l, &src, rng); take = src[r.clone()].to_vec(); must(&sig, || b.append_columnar(&o.slice(r)))? }
        7 => { let o = vbuf(l, &src, rng); take = src[r.clone()].to_vec(); must(&sig, || b.append(&o.slice(r)))? }
        8 => { let o = hbuf(l, &src, rng); take = src[r.clone()].to_vec(); must(&sig, || b.append(&BufferSlice::new(&o, r)))? }
        9 => { let o = b.clone(); take = m.clone(); if take.len() > 40 && rng.chance(9, 10) { return Ok(()) } must(&sig, || b.append(&o))? }
        _ => return Ok(()),
    }
    m.extend(take);
    obs.ev("append");
    Ok(())
}

fn history<B: Own>(who: &str, mut b: B, l: &L, rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let mut m: Vec<Pt> = vec![];
    read_all(who, &b, l, &m, rng, obs)?;
    let mut steps = rng.range(1, 30);
    let first = count(rng, obs, 4);
    let most = first + 60;
    if first > 4 {
        // a history of a large buffer
        if first > 64 { steps = steps.min(10) }
        let ps = l.rand_pts(rng, first);
        let d = l.encode_all(&ps, rng);
        obs.step(|| format!("{who}.push_points({first} points, {d:?})"));
        must(&format!("{who}:push_points"), || unsafe { b.push_points(&d) })?;
        if !l.attrs.is_empty() { m.extend(ps) }
    }
    for _ in 0..steps {
        match rng.below(16) {
            0..=2 => {
                let k = rng.below(5);
                let ps = l.rand_pts(rng, k);
                let d = l.encode_all(&ps, rng);
                obs.step(|| format!("{who}.push_points({k} points, {d:?})"));
                must(&format!("{who}:push_points"), || unsafe { b.push_points(&d) })?;
                if !l.attrs.is_empty() {
                    m.extend(ps);
                }
                obs.ev("push");
            }
            // what appending points without attributes does is not specified
            3 | 4 if !l.attrs.is_empty() => append_other(who, &mut b, l, &mut m, rng, obs)?,
            5 => {
                let k = if rng.bool() { rng.below(m.len() + 1) } else { m.len() + rng.below(6) };
                obs.step(|| format!("{who}.resize({k})"));
                must(&format!("{who}:resize"), || b.resize(k))?;
                obs.ev(if k < m.len() { "resize_down" } else { "resize_up" });
                m.resize(k, l.zero());
            }
            6 if rng.chance(1, 3) => {
                obs.step(|| format!("{who}.clear()"));
                must(&format!("{who}:clear"), || b.clear())?;
                m.clear();
                obs.ev("clear");
            }
            7 => {
                // a clone is equal and independent
                let mut c = must(&format!("{who}:clone"), || b.clone())?;
                ensure!(c == b, format!("{who}:clone"), "{who}: a clone is not equal to its original");
                let mut mc = m.clone();
                for _ in 0..2 {
                    write_some(who, &mut c, l, &mut mc, rng, obs)?;
                }
                read_some(who, &c, l, &mc, rng, obs)?;
                if rng.bool() {
                    obs.step(|| "continue with the clone".into());
                    b = c;
                    m = mc;
                }
                obs.ev("clone");
            }
            _ => write_some(who, &mut b, l, &mut m, rng, obs)?,
        }
        if m.len() > most {
            must(&format!("{who}:resize"), || b.resize(10))?;
            m.truncate(10);
            obs.step(|| format!("{who}.resize(10)"));
        }
        read_some(who, &b, l, &m, rng, obs)?;
        read_some(who, &b, l, &m, rng, obs)?;
    }
    read_all(who, &b, l, &m, rng, obs)?;
    if m.len() >= 2 && steps >= 4 && !l.attrs.is_empty() {
        obs.nontrivial();
    }
    Ok(())
}

pub fn p01(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let min = if rng.chance(1, 12) { 0 } else { 1 };
    let l = rand_layout(rng, obs, min, 7, false);
    match rng.below(8) {
        0..=2 => {
            let b = if rng.bool() { VectorBuffer::new_from_layout(l.layout.clone()) } else { VectorBuffer::with_capacity(rng.below(9), l.layout.clone()) };
            obs.ev("kind_vector");
            history("VectorBuffer", b, &l, rng, obs)
        }
        3..=5 => {
            let b = if rng.bool() { HashMapBuffer::new_from_layout(l.layout.clone()) } else { HashMapBuffer::with_capacity(rng.below(9), l.layout.clone()) };
            obs.ev("kind_hashmap");
            history("HashMapBuffer", b, &l, rng, obs)
        }
        6 => {
            // memory owned elsewhere: reads and writes go to exactly that memory
            if l.attrs.is_empty() { return Ok(()) }
            let k = count(rng, obs, 12);
            let mut m = l.rand_pts(rng, k);
            let mut mem = l.encode_all(&m, rng);
            let who = "ExternalMemoryBuffer";
            {
                let mut b = must("external:new", || ExternalMemoryBuffer::new(mem.as_mut_slice(), l.layout.clone()))?;
                for _ in 0..rng.range(1, 20) {
                    write_some(who, &mut b, &l, &mut m, rng, obs)?;
                    read_some(who, &b, &l, &m, rng, obs)?;
                }
                read_all(who, &b, &l, &m, rng, obs)?;
            }
            for (i, p) in m.iter().enumerate() {
                if let Err(e) = eq_pt(&l, &mem[i * l.size..(i + 1) * l.size], p) {
                    return violation("external:memory", format!("the external memory does not hold point {i}: {e}"));
                }
            }
            obs.ev("kind_external");
            if k >= 2 { obs.nontrivial() }
            Ok(())
        }
        _ => {
            if l.attrs.is_empty() { return Ok(()) }
            let k = count(rng, obs, 12);
            let m = l.rand_pts(rng, k);
            let mem = l.encode_all(&m, rng);
            let b = must("external:new", || ExternalMemoryBuffer::new(mem.as_slice(), l.layout.clone()))?;
            read_all("ExternalMemoryBuffer", &b, &l, &m, rng, obs)?;
            obs.ev("kind_external_shared");
            if k >= 2 { obs.nontrivial() }
            Ok(())
        }
    }
}

// ---------------------------------------------------------------- P02

/// A range that ends before it starts has no points
fn backwards(who: &str, n: usize, rng: &mut Rng, obs: &mut Obs, f: impl FnOnce(std::ops::Range<usize>) -> usize) -> Verdict {
    let r = rng.subrange(n);
    if r.is_empty() { return Ok(()) }
    let got = attempt(|| f(r.end..r.start));
    ensure!(!matches!(got, Ok(k) if k > 0), format!("{who}:backwards"), "{who}: {}..{} of {n} points has {got:?} points", r.end, r.start);
    obs.ev("backwards_range");
    Ok(())
}

/// Requests just outside of the window must be refused, although the buffer behind it has more points
fn outside_refused<'a, B: BorrowedBuffer<'a> + 'a>(who: &str, b: &B, l: &L, n: usize, parent: usize, rng: &mut Rng, obs: &mut Obs) -> Verdict {
    if l.attrs.is_empty() { return Ok(()) }
    let i = n + rng.below(parent + 3);
    let a = rng.pick(&l.attrs).clone();
    let lo = rng.below(n + 1);
    let hi = n + 1 + rng.below(parent + 2);
    must_refuse(&format!("{who}:outside get_point"), || b.get_point(i, &mut vec![0; l.size]))?;
    must_refuse(&format!("{who}:outside get_point_range"), || b.get_point_range(lo..hi, &mut vec![0; l.size * (hi - lo)]))?;
    must_refuse(&format!("{who}:outside get_attribute"), || b.get_attribute(&a.def, i, &mut vec![0; a.size]))?;
    must_refuse(&format!("{who}:outside get_attribute_range"), || b.get_attribute_range(&a.def, lo..hi, &mut vec![0; a.size * (hi - lo)]))?;
    let mem = l.layout.get_attribute(&a.def).unwrap();
    must_refuse(&format!("{who}:outside get_attribute_unchecked"), || unsafe { b.get_attribute_unchecked(mem, i, &mut vec![0; a.size]) })?;
    if let Some(ib) = b.as_interleaved() {
        must_refuse(&format!("{who}:outside get_point_ref"), || ib.get_point_ref(i).len())?;
        must_refuse(&format!("{who}:outside get_point_range_ref"), || ib.get_point_range_ref(lo..hi).len())?;
    }
    if let Some(cb) = b.as_columnar() {
        must_refuse(&format!("{who}:outside get_attribute_ref"), || cb.get_attribute_ref(&a.def, i).len())?;
        must_refuse(&format!("{who}:outside get_attribute_range_ref"), || cb.get_attribute_range_ref(&a.def, lo..hi).len())?;
    }
    with_prim!(a.def.datatype(), T => {
        let v = must(&format!("{who}:view_attribute"), || b.view_attribute::<T>(&a.def))?;
        must_refuse(&format!("{who}:outside view_attribute.at"), || v.at(i))?;
    }, ());
    obs.ev("outside_read_refused");
    Ok(())
}

fn outside_write_refused<'a, B: BorrowedMutBuffer<'a> + 'a>(who: &str, b: &mut B, l: &L, n: usize, parent: usize, rng: &mut Rng, obs: &mut Obs) -> Verdict {
    if l.attrs.is_empty() { return Ok(()) }
    let i = n + rng.below(parent + 3);
    let a = rng.pick(&l.attrs).clone();
    let hi = n + 1 + rng.below(parent + 2);
    let lo = n + rng.below(hi - n);
    let p = rng.bytes(l.size * (hi - lo));
    let v = rng.bytes(a.size * (hi - lo));
    obs.step(|| format!("{who}: requests outside of the window: {i}, {lo}..{hi}"));
    must_refuse(&format!("{who}:outside set_point"), || unsafe { b.set_point(i, &p[..l.size]) })?;
    must_refuse(&format!("{who}:outside set_point_range"), || unsafe { b.set_point_range(lo..hi, &p) })?;
    must_refuse(&format!("{who}:outside set_attribute"), || unsafe { b.set_attribute(&a.def, i, &v[..a.size]) })?;
    must_refuse(&format!("{who}:outside set_attribute_range"), || unsafe { b.set_attribute_range(&a.def, lo..hi, &v) })?;
    must_refuse(&format!("{who}:outside swap"), || b.swap(0, i))?;
    must_refuse(&format!("{who}:outside swap"), || b.swap(i, 0))?;
    if let Some(ib) = b.as_interleaved_mut() {
        must_refuse(&format!("{who}:outside get_point_mut"), || ib.get_point_mut(i).len())?;
        must_refuse(&format!("{who}:outside get_point_range_mut"), || ib.get_point_range_mut(lo..hi).len())?;
    }
    if let Some(cb) = b.as_columnar_mut() {
        must_refuse(&format!("{who}:outside get_attribute_mut"), || cb.get_attribute_mut(&a.def, i).len())?;
        must_refuse(&format!("{who}:outside get_attribute_range_mut"), || cb.get_attribute_range_mut(&a.def, lo..hi).len())?;
    }
    obs.ev("outside_write_refused");
    Ok(())
}

fn window<'a, B: BorrowedBuffer<'a> + 'a>(who: &str, s: &B, l: &L, m: &[Pt], parent: usize, rng: &mut Rng, obs: &mut Obs) -> Verdict {
    read_all(who, s, l, m, rng, obs)?;
    outside_refused(who, s, l, m.len(), parent, rng, obs)?;
    obs.ev("window");
    Ok(())
}

fn window_mut<'a, B: BorrowedMutBuffer<'a> + 'a>(who: &str, s: &mut B, l: &L, m: &mut [Pt], parent: usize, rng: &mut Rng, obs: &mut Obs) -> Verdict {
    read_all(who, s, l, m, rng, obs)?;
    outside_refused(who, s, l, m.len(), parent, rng, obs)?;
    for _ in 0..rng.range(1, 6) {
        write_some(who, s, l, m, rng, obs)?;
        read_some(who, s, l, m, rng, obs)?;
    }
    outside_write_refused(who, s, l, m.len(), parent, rng, obs)?;
    read_all(who, s, l, m, rng, obs)?;
    obs.ev("window_mut");
    Ok(())
}

pub fn p02(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let l = rand_layout(rng, obs, 1, 5, false);
    let n = count(rng, obs, 14);
    let mut m = l.rand_pts(rng, n);
    let r = rng.subrange(n);
    let r2 = rng.subrange(r.len());
    let r3 = rng.subrange(r2.len());
    let (g2, g3) = (r.start + r2.start..r.start + r2.end, r.start + r2.start + r3.start..r.start + r2.start + r3.end);
    let kind = rng.below(16);
    obs.step(|| format!("kind {kind}, {n} points {m:?}, {r:?} then {r2:?} then {r3:?}"));
    match kind {
        0 | 1 => {
            let b = vbuf(&l, &m, rng);
            let s = must("slice", || b.slice(r.clone()))?;
            window("interleaved slice", &s, &l, &m[r.clone()], n, rng, obs)?;
            if kind == 1 {
                backwards("nested interleaved slice", r.len(), rng, obs, |q| s.slice(q).len())?;
            let t = must("nested interleaved slice", || s.slice(r2.clone()))?;
                window("nested interleaved slice", &t, &l, &m[g2.clone()], n, rng, obs)?;
                let u = must("nested interleaved slice", || t.slice(r3.clone()))?;
                window("nested interleaved slice", &u, &l, &m[g3.clone()], n, rng, obs)?;
                obs.ev("nested");
            }
        }
        2 => {
            let b = hbuf(&l, &m, rng);
            let s = must("slice", || b.slice(r.clone()))?;
            window("columnar slice", &s, &l, &m[r.clone()], n, rng, obs)?;
            let t = BufferSliceColumnar::new(&s, r2.clone());
            window("columnar slice of a slice", &t, &l, &m[g2.clone()], n, rng, obs)?;
        }
        3 => {
            let d = l.encode_all(&m, rng);
            let b = ExternalMemoryBuffer::new(d.as_slice(), l.layout.clone());
            let s = must("slice", || b.slice(r.clone()))?;
            window("external slice", &s, &l, &m[r.clone()], n, rng, obs)?;
            backwards("nested interleaved slice", r.len(), rng, obs, |q| s.slice(q).len())?;
            let t = must("nested interleaved slice", || s.slice(r2.clone()))?;
            window("nested external slice", &t, &l, &m[g2.clone()], n, rng, obs)?;
        }
        4 => {
            let b = vbuf(&l, &m, rng);
            let s = BufferSlice::new(&b, r.clone());
            window("BufferSlice", &s, &l, &m[r.clone()], n, rng, obs)?;
            backwards("nested BufferSlice", r.len(), rng, obs, |q| s.slice(q).len())?;
            let t = must("nested BufferSlice", || s.slice(r2.clone()))?;
            window("nested BufferSlice", &t, &l, &m[g2.clone()], n, rng, obs)?;
            let u = BufferSlice::new(&t, r3.clone());
            window("BufferSlice of a slice", &u, &l, &m[g3.clone()], n, rng, obs)?;
            // refs of the plain slice type
            if !g2.is_empty() {
                let i = rng.below(g2.len());
                let d = must("BufferSlice:get_point_ref", || t.get_point_ref(i).to_vec())?;
                if let Err(e) = eq_pt(&l, &d, &m[g2.start + i]) { return violation("BufferSlice:get_point_ref", e) }
            }
            must_refuse("BufferSlice:outside get_point_ref", || t.get_point_ref(g2.len()).len())?;
        }
        5 => {
            let b = hbuf(&l, &m, rng);
            let s = BufferSlice::new(&b, r.clone());
            window("BufferSlice", &s, &l, &m[r.clone()], n, rng, obs)?;
            backwards("nested BufferSlice", r.len(), rng, obs, |q| s.slice(q).len())?;
            let t = must("nested BufferSlice", || s.slice(r2.clone()))?;
            window("nested BufferSlice", &t, &l, &m[g2.clone()], n, rng, obs)?;
            let a = rng.below(l.attrs.len());
            let d = must("BufferSlice:get_attribute_range_ref", || t.get_attribute_range_ref(&l.attrs[a].def, 0..g2.len()).to_vec())?;
            let want: Vec<u8> = m[g2.clone()].iter().flat_map(|p| p[a].clone()).collect();
            ensure!(d == want, "BufferSlice:get_attribute_range_ref", "got {d:?}, want {want:?}");
            must_refuse("BufferSlice:outside get_attribute_ref", || t.get_attribute_ref(&l.attrs[a].def, g2.len()).len())?;
        }
        6..=8 => {
            let mut b = vbuf(&l, &m, rng);
            {
                let mut s = must("slice_mut", || b.slice_mut(r.clone()))?;
                if kind == 6 {
                    window_mut("interleaved slice_mut", &mut s, &l, &mut m[r.clone()], n, rng, obs)?;
                    let t = must("slice of slice_mut", || s.slice(r2.clone()))?;
                    window("slice of slice_mut", &t, &l, &m[g2.clone()], n, rng, obs)?;
                } else {
                    let mut t = must("nested interleaved slice_mut", || s.slice_mut(r2.clone()))?;
                    if kind == 7 {
                        window_mut("nested interleaved slice_mut", &mut t, &l, &mut m[g2.clone()], n, rng, obs)?;
                    } else {
                        let mut u = must("nested interleaved slice_mut", || t.slice_mut(r3.clone()))?;
                        window_mut("nested interleaved slice_mut", &mut u, &l, &mut m[g3.clone()], n, rng, obs)?;
                    }
                    obs.ev("nested_mut");
                }
            }
            read_all("buffer behind a slice", &b, &l, &m, rng, obs)?;
        }
        9 | 10 => {
            let mut b = hbuf(&l, &m, rng);
            {
                let mut s = must("slice_mut", || b.slice_mut(r.clone()))?;
                if kind == 9 {
                    window_mut("columnar slice_mut", &mut s, &l, &mut m[r.clone()], n, rng, obs)?;
                } else {
                    let mut t = BufferSliceColumnarMut::new(&mut s, r2.clone());
                    window_mut("columnar slice_mut of a slice_mut", &mut t, &l, &mut m[g2.clone()], n, rng, obs)?;
                }
            }
            read_all("buffer behind a slice", &b, &l, &m, rng, obs)?;
        }
        11 => {
            let mut d = l.encode_all(&m, rng);
            let mut b = ExternalMemoryBuffer::new(d.as_mut_slice(), l.layout.clone());
            {
                let mut s = must("slice_mut", || b.slice_mut(r.clone()))?;
                window_mut("external slice_mut", &mut s, &l, &mut m[r.clone()], n, rng, obs)?;
            }
            read_all("buffer behind a slice", &b, &l, &m, rng, obs)?;
        }
        12 | 13 => {
            let mut b = vbuf(&l, &m, rng);
            {
                let mut s = BufferSliceMut::new(&mut b, r.clone());
                if kind == 12 {
                    window_mut("BufferSliceMut", &mut s, &l, &mut m[r.clone()], n, rng, obs)?;
                    if !r.is_empty() {
                        let i = rng.below(r.len());
                        let p = l.rand_pt(rng);
                        let e = l.encode(&p, rng);
                        must("BufferSliceMut:get_point_mut", || s.get_point_mut(i).copy_from_slice(&e))?;
                        m[r.start + i] = p;
                    }
                } else {
                    let mut t = must("nested BufferSliceMut", || s.slice_mut(r2.clone()))?;
                    window_mut("nested BufferSliceMut", &mut t, &l, &mut m[g2.clone()], n, rng, obs)?;
                }
            }
            read_all("buffer behind a slice", &b, &l, &m, rng, obs)?;
        }
        _ => {
            let mut b = hbuf(&l, &m, rng);
            {
                let mut s = BufferSliceMut::new(&mut b, r.clone());
                let mut t = must("nested BufferSliceMut", || s.slice_mut(r2.clone()))?;
                if kind == 14 {
                    window_mut("nested BufferSliceMut", &mut t, &l, &mut m[g2.clone()], n, rng, obs)?;
                } else {
                    let u = must("slice of BufferSliceMut", || t.slice(r3.clone()))?;
                    window("slice of BufferSliceMut", &u, &l, &m[g3.clone()], n, rng, obs)?;
                }
            }
            read_all("buffer behind a slice", &b, &l, &m, rng, obs)?;
        }
    }
    if n >= 3 && r.len() < n && !r.is_empty() {
        obs.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- P21

/// A definition that the layout does not have: unknown name, or known name with another datatype
fn foreign(l: &L, rng: &mut Rng) -> PointAttributeDefinition {
    if rng.bool() {
        PointAttributeDefinition::custom(std::borrow::Cow::Borrowed("NotThere"), prim_datatype(rng))
    } else {
        let a = rng.pick(&l.attrs);
        loop {
            let d = prim_datatype(rng);
            if d != a.def.datatype() {
                return a.def.with_custom_datatype(d);
            }
        }
    }
}

fn bad_reads<'a, B: BorrowedBuffer<'a> + 'a>(who: &str, b: &B, l: &L, n: usize, rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let f = foreign(l, rng);
    let i = rng.below(n + 1);
    let a = rng.pick(&l.attrs).clone();
    obs.step(|| format!("{who}: foreign attribute {f}"));
    must_refuse(&format!("{who}:foreign get_attribute"), || b.get_attribute(&f, i, &mut vec![0; f.size() as usize]))?;
    if n > 0 {
        must_refuse(&format!("{who}:foreign get_attribute_range"), || b.get_attribute_range(&f, 0..1, &mut vec![0; f.size() as usize]))?;
    }
    with_prim!(f.datatype(), T => {
        must_refuse(&format!("{who}:foreign view_attribute"), || { b.view_attribute::<T>(&f); })?;
    }, ());
    // a view of another type than the attribute it names
    if a.def.datatype() != PointAttributeDataType::F32 {
        must_refuse(&format!("{who}:wrong type view_attribute"), || { b.view_attribute::<f32>(&a.def); })?;
        must_refuse(&format!("{who}:wrong type view_attribute_with_conversion"), || b.view_attribute_with_conversion::<f32>(&a.def).map(|_| ()))?;
    }
    let gone = PointAttributeDefinition::custom(std::borrow::Cow::Borrowed("NotThere"), PointAttributeDataType::F32);
    match attempt(|| b.view_attribute_with_conversion::<f32>(&gone).is_ok()) {
        Ok(true) => return violation(format!("{who}:foreign view_attribute_with_conversion"), "a converting view of a missing attribute was given"),
        _ => {}
    }
    if l.layout != crate::views::Small::layout() {
        must_refuse(&format!("{who}:wrong type view"), || { b.view::<crate::views::Small>(); })?;
    }
    if n > 0 {
        let k = rng.below(n);
        let wrong = if rng.bool() { a.size + 1 + rng.below(3) } else { a.size - 1 };
        must_refuse(&format!("{who}:wrong size get_attribute"), || b.get_attribute(&a.def, k, &mut vec![0; wrong]))?;
        let need = l.attrs.iter().map(|a| a.off + a.size).max().unwrap();
        let short = rng.below(need);
        must_refuse(&format!("{who}:short get_point"), || b.get_point(k, &mut vec![0; short]))?;
        must_refuse(&format!("{who}:short get_attribute_range"), || b.get_attribute_range(&a.def, 0..n, &mut vec![0; a.size * n - 1]))?;
    }
    obs.ev("bad_reads_refused");
    Ok(())
}

fn bad_writes<'a, B: BorrowedMutBuffer<'a> + 'a>(who: &str, b: &mut B, l: &L, n: usize, rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let f = foreign(l, rng);
    let a = rng.pick(&l.attrs).clone();
    let v = rng.bytes(f.size() as usize);
    if n > 0 {
        let i = rng.below(n);
        must_refuse(&format!("{who}:foreign set_attribute"), || unsafe { b.set_attribute(&f, i, &v) })?;
        must_refuse(&format!("{who}:foreign set_attribute_range"), || unsafe { b.set_attribute_range(&f, i..i + 1, &v) })?;
    }
    with_prim!(f.datatype(), T => {
        must_refuse(&format!("{who}:foreign view_attribute_mut"), || { b.view_attribute_mut::<T>(&f); })?;
        must_refuse(&format!("{who}:foreign transform_attribute"), || b.transform_attribute::<T, _>(&f, |_, x| x))?;
    }, ());
    if a.def.datatype() != PointAttributeDataType::F32 {
        must_refuse(&format!("{who}:wrong type view_attribute_mut"), || { b.view_attribute_mut::<f32>(&a.def); })?;
        must_refuse(&format!("{who}:wrong type transform_attribute"), || b.transform_attribute::<f32, _>(&a.def, |_, x| x))?;
    }
    if l.layout != crate::views::Small::layout() {
        must_refuse(&format!("{who}:wrong type view_mut"), || { b.view_mut::<crate::views::Small>(); })?;
    }
    obs.ev("bad_writes_refused");
    Ok(())
}

fn bad_growth<B: Own>(who: &str, b: &mut B, l: &L, rng: &mut Rng, obs: &mut Obs) -> Verdict {
    if l.size > 1 {
        let k = l.size * rng.below(4) + rng.range(1, l.size - 1);
        let d = rng.bytes(k);
        must_refuse(&format!("{who}:uneven push_points"), || unsafe { b.push_points(&d) })?;
    }
    // a buffer of another layout, possibly with the same attributes at other places
    let defs: Vec<_> = l.attrs.iter().map(|a| a.def.clone()).collect();
    let other = loop {
        let o = match rng.below(3) {
            0 => rand_layout_of(rng, &defs).0,
            1 => {
                let mut d = defs.clone();
                rng.shuffle(&mut d);
                d.truncate(rng.range(0, d.len()));
                rand_layout_of(rng, &d).0
            }
            _ => { let d = rand_defs(rng, 1, 4, false); rand_layout_of(rng, &d).0 }
        };
        if o != l.layout {
            break L::of(o);
        }
        if defs.len() < 2 && rng.chance(1, 4) {
            break L::of(PointLayout::from_attributes(&[PointAttributeDefinition::custom("Z".into(), PointAttributeDataType::U8), l.attrs[0].def.with_custom_datatype(PointAttributeDataType::U16)]));
        }
    };
    let k = rng.below(4);
    let om = other.rand_pts(rng, k);
    obs.step(|| format!("{who}: append of a buffer with layout {}", other.show()));
    let (ov, oh) = (vbuf(&other, &om, rng), hbuf(&other, &om, rng));
    must_refuse(&format!("{who}:other layout append"), || b.append(&ov))?;
    must_refuse(&format!("{who}:other layout append"), || b.append(&oh))?;
    must_refuse(&format!("{who}:other layout append_interleaved"), || b.append_interleaved(&ov))?;
    must_refuse(&format!("{who}:other layout append_columnar"), || b.append_columnar(&oh))?;
    obs.ev("bad_growth_refused");
    Ok(())
}

pub fn p21(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let l = rand_layout(rng, obs, 1, 5, false);
    let n = count(rng, obs, 9);
    let m = l.rand_pts(rng, n);
    let r = rng.subrange(n);
    let kind = rng.below(9);
    obs.step(|| format!("kind {kind}, {n} points {m:?}, slice {r:?}"));
    macro_rules! ro {
        ($who:expr, $b:expr, $m:expr) => {{
            let k = $m.len();
            outside_refused($who, $b, &l, k, 4, rng, obs)?;
            bad_reads($who, $b, &l, k, rng, obs)?;
            read_all($who, $b, &l, $m, rng, obs)?;
        }};
    }
    macro_rules! rw {
        ($who:expr, $b:expr, $m:expr) => {{
            let k = $m.len();
            outside_refused($who, $b, &l, k, 4, rng, obs)?;
            bad_reads($who, $b, &l, k, rng, obs)?;
            outside_write_refused($who, $b, &l, k, 4, rng, obs)?;
            read_all($who, $b, &l, $m, rng, obs)?;
            bad_writes($who, $b, &l, k, rng, obs)?;
            read_all($who, $b, &l, $m, rng, obs)?;
        }};
    }
    match kind {
        0 | 1 => {
            let mut b = vbuf(&l, &m, rng);
            rw!("VectorBuffer", &mut b, &m);
            bad_growth("VectorBuffer", &mut b, &l, rng, obs)?;
            read_all("VectorBuffer", &b, &l, &m, rng, obs)?;
            // and it still works
            let p = l.rand_pt(rng);
            let d = l.encode(&p, rng);
            must("VectorBuffer:push_points", || unsafe { b.push_points(&d) })?;
            let mut m2 = m.clone();
            m2.push(p);
            read_all("VectorBuffer", &b, &l, &m2, rng, obs)?;
        }
        2 | 3 => {
            let mut b = hbuf(&l, &m, rng);
            rw!("HashMapBuffer", &mut b, &m);
            bad_growth("HashMapBuffer", &mut b, &l, rng, obs)?;
            read_all("HashMapBuffer", &b, &l, &m, rng, obs)?;
            let p = l.rand_pt(rng);
            let d = l.encode(&p, rng);
            must("HashMapBuffer:push_points", || unsafe { b.push_points(&d) })?;
            let mut m2 = m.clone();
            m2.push(p);
            read_all("HashMapBuffer", &b, &l, &m2, rng, obs)?;
            // filtering into a target that does not fit
            let hits = rng.below(n + 1);
            if hits > 0 {
                let mut t = vbuf(&l, &m[..hits - 1], rng);
                must_refuse("filter_into:small target", || b.filter_into(&mut t, |i| i < hits, None))?;
                read_all("filter target", &t, &l, &m[..hits - 1], rng, obs)?;
            }
        }
        4 => {
            let mut d = l.encode_all(&m, rng);
            let mut b = ExternalMemoryBuffer::new(d.as_mut_slice(), l.layout.clone());
            rw!("ExternalMemoryBuffer", &mut b, &m);
            if l.size > 1 {
                let k = l.size * rng.below(4) + rng.range(1, l.size - 1);
                let junk = rng.bytes(k);
                must_refuse("ExternalMemoryBuffer:uneven memory", || ExternalMemoryBuffer::new(junk.as_slice(), l.layout.clone()).len())?;
            }
        }
        5 => {
            let mut b = vbuf(&l, &m, rng);
            {
                let mut s = b.slice_mut(r.clone());
                rw!("interleaved slice_mut", &mut s, &m[r.clone()]);
            }
            read_all("VectorBuffer", &b, &l, &m, rng, obs)?;
            let s = b.slice(r.clone());
            ro!("interleaved slice", &s, &m[r.clone()]);
        }
        6 => {
            let mut b = hbuf(&l, &m, rng);
            {
                let mut s = b.slice_mut(r.clone());
                rw!("columnar slice_mut", &mut s, &m[r.clone()]);
            }
            read_all("HashMapBuffer", &b, &l, &m, rng, obs)?;
            let s = b.slice(r.clone());
            ro!("columnar slice", &s, &m[r.clone()]);
        }
        7 => {
            // a slice that reaches past its buffer: whatever is refused, and when, no data comes from outside
            let b = vbuf(&l, &m, rng);
            let h = hbuf(&l, &m, rng);
            let over = r.start..n + 1 + rng.below(4);
            let i = n - r.start.min(n) + rng.below(3);
            if r.start <= n {
                must_refuse("slice past the end", || { let s = b.slice(over.clone()); s.get_point(i, &mut vec![0; l.size]) })?;
                must_refuse("slice past the end", || { let s = h.slice(over.clone()); s.get_point(i, &mut vec![0; l.size]) })?;
            }
            obs.ev("slice_past_end");
        }
        _ => {
            // converters: buffers of a wrong layout or length
            let defs: Vec<_> = l.attrs.iter().map(|a| a.def.clone()).collect();
            let to = L::of(rand_layout_of(rng, &defs).0);
            let conv = must("converter", || BufferLayoutConverter::for_layouts(&l.layout, &to.layout))?;
            let src = vbuf(&l, &m, rng);
            let k = n + 1 + rng.below(3);
            let tm = to.rand_pts(rng, k);
            let mut t = hbuf(&to, &tm, rng);
            let k = tm.len();
            must_refuse("convert_into_range:lengths", || conv.convert_into_range(&src, 0..n, &mut t, 0..n + 1))?;
            must_refuse("convert_into_range:source range", || conv.convert_into_range(&src, 0..n + 1, &mut t, 0..n + 1))?;
            must_refuse("convert_into_range:target range", || conv.convert_into_range(&src, 0..n, &mut t, k + 1 - n.min(k)..k + 1 - n.min(k) + n))
                .or_else(|e| if n == 0 { Ok(()) } else { Err(e) })?;
            if l.layout != to.layout {
                let wrong = vbuf(&to, &tm[..n], rng);
                must_refuse("convert_into:source layout", || conv.convert_into_range(&wrong, 0..n, &mut t, 0..n))?;
                let mut wrong = vbuf(&l, &m, rng);
                must_refuse("convert_into:target layout", || conv.convert_into_range(&src, 0..n, &mut wrong, 0..n))?;
                read_all("conversion target", &wrong, &l, &m, rng, obs)?;
            }
            read_all("conversion target", &t, &to, &tm, rng, obs)?;
            read_all("conversion source", &src, &l, &m, rng, obs)?;
            // attributes the layouts do not have
            let f = foreign(&l, rng);
            let mut conv = BufferLayoutConverter::for_layouts(&l.layout, &to.layout);
            must_refuse("set_custom_mapping:foreign source", || conv.set_custom_mapping(&f, &defs[0]))?;
            let f2 = foreign(&to, rng);
            must_refuse("set_custom_mapping:foreign target", || conv.set_custom_mapping(&defs[0], &f2))?;
            let mut more = defs.clone();
            more.push(PointAttributeDefinition::custom("NotThere".into(), PointAttributeDataType::U8));
            let more = PointLayout::from_attributes(&more);
            must_refuse("for_layouts:missing attribute", || { BufferLayoutConverter::for_layouts(&l.layout, &more); })?;
            obs.ev("bad_conversion_refused");
        }
    }
    if n >= 2 {
        obs.nontrivial();
    }
    Ok(())
}

pub const P01: Property = Property {
    id: "P01",
    rule: "random layout (natural, packed, hand-placed with gaps, reordered), random history of up to 30 operations on one of the buffer kinds, every way of reading compared with a list of points after each; non-trivial: at least two points after at least four operations",
    assumptions: &["bytes of a point between its attributes have no specified content", "buffers hold at most 60 points"],
    quick_cases: 320_000,
    thorough_cases: 20_000_000,
    case: p01,
    required_events: &["kind_vector", "kind_hashmap", "kind_external", "kind_external_shared", "push", "append", "resize_up", "resize_down", "clear", "clone", "swap", "transform", "write_point", "write_point_range", "write_attribute", "write_attribute_range", "write_typed_view", "read_point", "read_point_range", "read_attribute", "read_attribute_range", "read_ref_interleaved", "read_ref_columnar", "read_raw_view", "read_typed_view", "read_typed_iter"],
};

pub const P02: Property = Property {
    id: "P02",
    rule: "random layout and points, one of the slice types over one of the buffer kinds, nested up to three deep, reads and writes inside and refused requests outside of the window, then the whole buffer compared; non-trivial: a window that is neither empty nor the whole of three points or more",
    assumptions: &["buffers hold at most 13 points"],
    quick_cases: 320_000,
    thorough_cases: 20_000_000,
    case: p02,
    required_events: &["window", "window_mut", "nested", "outside_read_refused", "outside_write_refused"],
};

pub const P21: Property = Property {
    id: "P21",
    rule: "random layout and points, each buffer kind and slice kind, each class of invalid request, the whole buffer compared afterwards; non-trivial: at least two points",
    assumptions: &["data of the wrong size in calls of unsafe functions violates their contract and is not tested, apart from push_points"],
    quick_cases: 320_000,
    thorough_cases: 20_000_000,
    case: p21,
    required_events: &["bad_reads_refused", "bad_writes_refused", "bad_growth_refused", "bad_conversion_refused", "slice_past_end", "outside_read_refused", "outside_write_refused"],
};

