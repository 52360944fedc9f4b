//! P03 (typed views and iterators)
use crate::bufs::*;
use crate::gen::*;
use crate::with_prim;
use mon::{attempt, ensure, must, must_refuse, Obs, Property, Rng, Verdict};
use nalgebra::Vector3;
use pasture_core::containers::*;
use pasture_core::layout::*;
use pasture_derive::PointType;

macro_rules! point_type {
    ($(#[$m:meta])* $name:ident { $($body:tt)* }) => {
        $(#[$m])*
        #[derive(PointType, Copy, Clone, Debug, PartialEq, bytemuck::NoUninit, bytemuck::AnyBitPattern)]
        pub struct $name { $($body)* }
    };
}

point_type! { #[repr(C, packed)] Small { #[pasture(BUILTIN_INTENSITY)] a: u16, #[pasture(BUILTIN_CLASSIFICATION)] b: u8 } }
point_type! { #[repr(C)] Tiny { #[pasture(BUILTIN_CLASSIFICATION)] a: u8 } }
point_type! { #[repr(C)] Color { #[pasture(BUILTIN_COLOR_RGB)] a: Vector3<u16> } }
point_type! { #[repr(C)] Mid {
    #[pasture(BUILTIN_POSITION_3D)] p: Vector3<f64>, #[pasture(BUILTIN_GPS_TIME)] t: f64,
    #[pasture(BUILTIN_INTENSITY)] i: u16, #[pasture(BUILTIN_NIR)] n: u16, #[pasture(BUILTIN_WAVEFORM_PACKET_SIZE)] w: u32,
} }
point_type! { #[repr(C, packed(2))] Odd {
    #[pasture(BUILTIN_USER_DATA)] u: u8, #[pasture(attribute = "Own")] o: i8, #[pasture(BUILTIN_POSITION_3D)] p: Vector3<f64>, #[pasture(BUILTIN_POINT_ID)] q: u64,
} }
point_type! { #[repr(C)] Ints {
    #[pasture(attribute = "A")] a: i64, #[pasture(attribute = "B")] b: u64, #[pasture(attribute = "C")] c: i32, #[pasture(attribute = "D")] d: f32,
    #[pasture(attribute = "E")] e: Vector3<i32>, #[pasture(attribute = "F")] f: Vector3<f32>,
} }

/// Drives an iterator in a random way and compares each element with the model
fn drive<I: Iterator>(sig: &str, mut it: I, bytes: impl Fn(&I::Item) -> Vec<u8>, want: &[Vec<u8>], rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let n = want.len();
    let mut pos = 0usize;
    for _ in 0..rng.below(6) {
        let (lo, hi) = must(&format!("{sig}.size_hint"), || it.size_hint())?;
        let left = n - pos.min(n);
        ensure!(lo <= left && hi.map_or(true, |h| h >= left), format!("{sig}.size_hint"), "{sig}: size_hint {:?} with {left} elements left", (lo, hi));
        let (what, skip) = match rng.below(8) {
            0..=2 => ("next", 0),
            3 => ("nth", 0),
            4 => ("nth", rng.below(n + 2)),
            5 => ("nth", rng.below(3)),
            6 => ("nth", left + rng.below(4)),
            _ => ("nth", if rng.chance(1, 6) { usize::MAX } else { rng.below(2) }),
        };
        obs.step(|| format!("{sig}.{what}({skip}) at {pos}"));
        let got = must(&format!("{sig}.{what}"), || if what == "next" { it.next() } else { it.nth(skip) }.map(|x| bytes(&x)))?;
        let at = pos.saturating_add(skip);
        let w = want.get(at).cloned();
        ensure!(got == w, format!("{sig}.{what}"), "{sig}.{what}({skip}) at position {pos} of {n}: got {got:?}, want {w:?}");
        pos = if at >= n { n } else { at + 1 };
        if at > n {
            obs.ev("nth_past_end");
        } else if at == n {
            obs.ev("iter_end");
        }
    }
    let rest = &want[pos..];
    match rng.below(9) {
        0 => {
            let got: Vec<_> = must(&format!("{sig}.collect"), || it.map(|x| bytes(&x)).collect())?;
            ensure!(got == rest, format!("{sig}.collect"), "{sig}: collected {got:?} from position {pos} of {n}, want {rest:?}");
        }
        1 => {
            let got = must(&format!("{sig}.count"), || it.count())?;
            ensure!(got == rest.len(), format!("{sig}.count"), "{sig}: count {got} from position {pos} of {n}");
        }
        2 => {
            let got = must(&format!("{sig}.last"), || it.last().map(|x| bytes(&x)))?;
            ensure!(got.as_ref() == rest.last(), format!("{sig}.last"), "{sig}: last {got:?}, want {:?}", rest.last());
        }
        3 => {
            let k = rng.below(n + 4);
            obs.step(|| format!("{sig}.skip({k})"));
            let got: Vec<_> = must(&format!("{sig}.skip"), || it.skip(k).map(|x| bytes(&x)).collect())?;
            let w: Vec<_> = rest.iter().skip(k).cloned().collect();
            ensure!(got == w, format!("{sig}.skip"), "{sig}.skip({k}) from position {pos} of {n}: got {got:?}, want {w:?}");
        }
        4 => {
            let k = rng.range(1, n + 3);
            obs.step(|| format!("{sig}.step_by({k})"));
            let got: Vec<_> = must(&format!("{sig}.step_by"), || it.step_by(k).map(|x| bytes(&x)).collect())?;
            let w: Vec<_> = rest.iter().step_by(k).cloned().collect();
            ensure!(got == w, format!("{sig}.step_by"), "{sig}.step_by({k}) from position {pos} of {n}: got {got:?}, want {w:?}");
        }
        5 => {
            let k = rng.below(n + 3);
            let got: Vec<_> = must(&format!("{sig}.take"), || it.by_ref().take(k).map(|x| bytes(&x)).collect())?;
            let w: Vec<_> = rest.iter().take(k).cloned().collect();
            ensure!(got == w, format!("{sig}.take"), "{sig}.take({k}) from position {pos} of {n}: got {got:?}, want {w:?}");
            let got: Vec<_> = must(&format!("{sig}.take"), || it.map(|x| bytes(&x)).collect())?;
            let w: Vec<_> = rest.iter().skip(k).cloned().collect();
            ensure!(got == w, format!("{sig}.take"), "{sig}: after take({k}) from position {pos} of {n}: got {got:?}, want {w:?}");
        }
        6 => {
            let mut got = vec![];
            must(&format!("{sig}.for_each"), || it.for_each(|x| got.push(bytes(&x))))?;
            ensure!(got == rest, format!("{sig}.for_each"), "{sig}: for_each saw {got:?} from position {pos} of {n}, want {rest:?}");
        }
        7 => {
            let got: Vec<_> = must(&format!("{sig}.zip"), || it.zip(0..).map(|(x, i)| (bytes(&x), i)).collect())?;
            let w: Vec<_> = rest.iter().cloned().zip(0..).collect();
            ensure!(got == w, format!("{sig}.zip"), "{sig}: zip gave {got:?} from position {pos} of {n}");
        }
        _ => {
            for w in rest {
                let got = must(&format!("{sig}.next"), || it.next().map(|x| bytes(&x)))?;
                ensure!(got.as_ref() == Some(w), format!("{sig}.next"), "{sig}.next(): got {got:?}, want {w:?}");
            }
            for _ in 0..2 {
                let got = must(&format!("{sig}.next at end"), || it.next().map(|x| bytes(&x)))?;
                ensure!(got.is_none(), format!("{sig}.next at end"), "{sig}: the iterator gives {got:?} after its end");
            }
        }
    }
    obs.ev("iterator_driven");
    Ok(())
}

pub trait TP: PointType + PartialEq + std::fmt::Debug + 'static {}
impl<T: PointType + PartialEq + std::fmt::Debug + 'static> TP for T {}

pub fn bv<T: bytemuck::NoUninit>(t: &T) -> Vec<u8> {
    bytemuck::bytes_of(t).to_vec()
}

pub fn point<T: TP>(l: &L, p: &Pt) -> T {
    let mut v = vec![0u8; l.size];
    for (a, d) in l.attrs.iter().zip(p) {
        v[a.off..a.off + a.size].copy_from_slice(d);
    }
    bytemuck::pod_read_unaligned(&v)
}

pub fn pts_bytes<T: TP>(l: &L, m: &[Pt]) -> Vec<Vec<u8>> {
    m.iter().map(|p| bv(&point::<T>(l, p))).collect()
}

/// Everything readable through point views and attribute views of any buffer
fn read_views<'a, T: TP, B: BorrowedBuffer<'a> + 'a>(who: &str, b: &B, l: &L, m: &[Pt], rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let want = pts_bytes::<T>(l, m);
    let n = m.len();
    let sig = format!("{who}:PointView");
    let v = must(&sig, || b.view::<T>())?;
    for i in 0..n {
        let g = must(&sig, || v.at(i))?;
        ensure!(bv(&g) == want[i], format!("{sig}.at"), "{sig}.at({i}) of {n}: {g:?}");
    }
    must_refuse(&format!("{sig}.at outside"), || v.at(n + rng.below(3)))?;
    drive(&format!("{sig}.into_iter"), must(&sig, || v.into_iter())?, bv, &want, rng, obs)?;
    for (ai, a) in l.attrs.iter().enumerate() {
        let want: Vec<Vec<u8>> = m.iter().map(|p| p[ai].clone()).collect();
        with_prim!(a.def.datatype(), P => {
            let sig = format!("{who}:AttributeView");
            let v = must(&sig, || b.view_attribute::<P>(&a.def))?;
            for i in 0..n {
                let g = must(&sig, || v.at(i))?;
                ensure!(bv(&g) == want[i], format!("{sig}.at"), "{sig}.at({i}) of {} in {n}: {g:?}", a.def);
            }
            must_refuse(&format!("{sig}.at outside"), || v.at(n + rng.below(3)))?;
            drive(&format!("{sig}.into_iter"), must(&sig, || v.into_iter())?, bv, &want, rng, obs)?;
            // converting view of the same type
            let sig = format!("{who}:AttributeViewConverting");
            let v = must(&sig, || b.view_attribute_with_conversion::<P>(&a.def))?;
            let Ok(v) = v else { return mon::violation(sig, "a converting view of the attribute's own type is refused") };
            for i in 0..n {
                let g = must(&sig, || v.at(i))?;
                ensure!(bv(&g) == want[i], format!("{sig}.at"), "{sig}.at({i}) of {} in {n}: {g:?}", a.def);
            }
            drive(&format!("{sig}.into_iter"), must(&sig, || v.into_iter())?, bv, &want, rng, obs)?;
        }, ());
        // converting views of another type
        convert_view(who, b, a, &want, rng, obs)?;
    }
    obs.ev("views_read");
    Ok(())
}

fn convert_view<'a, B: BorrowedBuffer<'a> + 'a>(who: &str, b: &B, a: &A, have: &[Vec<u8>], rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let to = prim_datatype(rng);
    if !crate::conv::convertible(a.def.datatype(), to) {
        with_prim!(to, P => {
            let def = a.def.with_custom_datatype(to);
            let r = attempt(|| b.view_attribute_with_conversion::<P>(&def).is_ok());
            ensure!(r != Ok(true), format!("{who}:AttributeViewConverting impossible"), "{who}: a converting view from {} to {to}", a.def);
            obs.ev("impossible_view");
        }, ());
        return Ok(());
    }
    let Some(want) = have.iter().map(|v| crate::conv::reference(a.def.datatype(), to, v)).collect::<Option<Vec<_>>>() else { return Ok(()) };
    let sig = format!("{who}:AttributeViewConverting");
    with_prim!(to, P => {
        let def = a.def.with_custom_datatype(to);
        let v = must(&sig, || b.view_attribute_with_conversion::<P>(&def))?;
        let Ok(v) = v else { return mon::violation(sig, format!("no converting view from {} to {to}", a.def)) };
        let same = |g: &P, w: &Vec<u8>| crate::conv::same(to, &bv(g), w);
        for (i, w) in want.iter().enumerate() {
            let g = must(&sig, || v.at(i))?;
            ensure!(same(&g, w), format!("{sig}.at"), "{sig}: {} as {to}, point {i}: got {g:?}, want bytes {w:?} from {:?}", a.def, have[i]);
        }
        // order of reads does not matter
        if want.len() > 1 {
            let i = rng.below(want.len());
            let g = must(&sig, || v.at(i))?;
            ensure!(same(&g, &want[i]), format!("{sig}.at"), "{sig}: {} as {to}, point {i} read again: got {g:?}", a.def);
        }
        let got: Vec<P> = must(&sig, || v.into_iter().collect())?;
        ensure!(got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| same(g, w)), format!("{sig}.iter"), "{sig}: {} as {to}: got {got:?}", a.def);
        obs.ev("converting_view");
    }, ());
    Ok(())
}

/// Memory of heap buffers is aligned for every primitive type here; Miri chooses other addresses
fn refs_ok(align: usize) -> bool {
    !cfg!(miri) || align == 1
}

fn interleaved_views<'a, T: TP, B: InterleavedBuffer<'a> + 'a>(who: &str, b: &B, l: &L, m: &[Pt], rng: &mut Rng, obs: &mut Obs) -> Verdict {
    if !refs_ok(std::mem::align_of::<T>()) { return Ok(()) }
    let want = pts_bytes::<T>(l, m);
    let n = m.len();
    let sig = format!("{who}:PointView.ref");
    let v = must(&sig, || b.view::<T>())?;
    for i in 0..n {
        let g = must(&sig, || bv(v.at_ref(i)))?;
        ensure!(g == want[i], sig, "{sig} at_ref({i}) of {n}: {g:?}");
    }
    must_refuse(&format!("{sig} outside"), || bv(v.at_ref(n + rng.below(3))))?;
    drive(&format!("{sig}.iter"), must(&format!("{sig}.iter"), || v.iter())?, |x| bv(*x), &want, rng, obs)?;
    obs.ev("views_read_ref");
    Ok(())
}

fn columnar_views<'a, B: ColumnarBuffer<'a> + 'a>(who: &str, b: &B, l: &L, m: &[Pt], rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let n = m.len();
    for (ai, a) in l.attrs.iter().enumerate() {
        if !refs_ok(size_align(a.def.datatype()).1) { continue }
        let want: Vec<Vec<u8>> = m.iter().map(|p| p[ai].clone()).collect();
        let sig = format!("{who}:AttributeView.ref");
        with_prim!(a.def.datatype(), P => {
            let v = must(&sig, || b.view_attribute::<P>(&a.def))?;
            for i in 0..n {
                let g = must(&sig, || bv(v.at_ref(i)))?;
                ensure!(g == want[i], sig, "{sig} at_ref({i}) of {} in {n}: {g:?}", a.def);
            }
            must_refuse(&format!("{sig} outside"), || bv(v.at_ref(n + rng.below(3))))?;
            drive(&format!("{sig}.iter"), must(&format!("{sig}.iter"), || v.iter())?, |x| bv(*x), &want, rng, obs)?;
        }, ());
    }
    obs.ev("views_read_ref");
    Ok(())
}

pub fn rand_t<T: TP>(l: &L, rng: &mut Rng) -> (T, Pt) {
    let p = l.rand_pt(rng);
    (point::<T>(l, &p), p)
}

/// Writes through views of any mutable buffer
fn write_views<'a, T: TP, B: BorrowedMutBuffer<'a> + 'a>(who: &str, b: &mut B, l: &L, m: &mut [Pt], rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let n = m.len();
    if n > 0 {
        let i = rng.below(n);
        let (t, p) = rand_t::<T>(l, rng);
        let sig = format!("{who}:PointViewMut");
        obs.step(|| format!("{sig}.set_at({i}, {p:?})"));
        let old = must(&sig, || {
            let mut v = b.view_mut::<T>();
            let old = v.at(i);
            v.set_at(i, t);
            (bv(&old), bv(&v.at(i)))
        })?;
        ensure!(old.0 == bv(&point::<T>(l, &m[i])), format!("{sig}.at"), "{sig}.at({i}) of {n}: {:?}", old.0);
        ensure!(old.1 == bv(&t), format!("{sig}.set_at"), "{sig}.at({i}) after set_at: {:?}, want {:?}", old.1, bv(&t));
        m[i] = p;
        must_refuse(&format!("{sig}.set_at outside"), || b.view_mut::<T>().set_at(n, t))?;
        let ai = rng.below(l.attrs.len());
        let a = &l.attrs[ai];
        let x = rand_value(rng, a.def.datatype());
        let i = rng.below(n);
        let sig = format!("{who}:AttributeViewMut");
        obs.step(|| format!("{sig}({}).set_at({i}, {x:?})", a.def));
        with_prim!(a.def.datatype(), P => {
            let (old, new) = must(&sig, || {
                let mut v = b.view_attribute_mut::<P>(&a.def);
                let old = v.at(i);
                v.set_at(i, typed::<P>(&x));
                (bv(&old), bv(&v.at(i)))
            })?;
            ensure!(old == m[i][ai], format!("{sig}.at"), "{sig}.at({i}) of {}: {old:?}, want {:?}", a.def, m[i][ai]);
            ensure!(new == x, format!("{sig}.set_at"), "{sig}.at({i}) after set_at: {new:?}, want {x:?}");
            m[i][ai] = x;
            must_refuse(&format!("{sig}.set_at outside"), || { let mut v = b.view_attribute_mut::<P>(&a.def); v.set_at(n, bytemuck::Zeroable::zeroed()) })?;
        }, ());
        obs.ev("views_written");
    }
    Ok(())
}

fn interleaved_views_mut<'a, T: TP, B: InterleavedBufferMut<'a> + 'a>(who: &str, b: &mut B, l: &L, m: &mut [Pt], rng: &mut Rng, obs: &mut Obs) -> Verdict {
    if !refs_ok(std::mem::align_of::<T>()) { return Ok(()) }
    let n = m.len();
    let sig = format!("{who}:PointViewMut.ref");
    let want = pts_bytes::<T>(l, m);
    match rng.below(5) {
        0 => {
            let v = must(&sig, || b.view_mut::<T>())?;
            drive(&format!("{sig}.iter"), must(&format!("{sig}.iter"), || v.iter())?, |x| bv(*x), &want, rng, obs)?;
            for i in 0..n {
                ensure!(must(&sig, || bv(v.at_ref(i)))? == want[i], sig, "{sig} at_ref({i}) of {n}");
            }
        }
        1 => {
            let mut v = must(&sig, || b.view_mut::<T>())?;
            drive(&format!("{sig}.iter_mut"), must(&format!("{sig}.iter_mut"), || v.iter_mut())?, |x| bv(*x), &want, rng, obs)?;
        }
        2 => {
            // all elements at once, written afterwards
            let new: Vec<_> = (0..n).map(|_| rand_t::<T>(l, rng)).collect();
            obs.step(|| format!("{sig}: write all through iter_mut"));
            let step = rng.range(1, 3);
            let skip = rng.below(n + 2);
            must(&sig, || {
                let mut v = b.view_mut::<T>();
                let mut refs: Vec<&mut T> = v.iter_mut().skip(skip).step_by(step).collect();
                for (k, r) in refs.iter_mut().enumerate() {
                    **r = new[skip + k * step].0;
                }
            })?;
            for i in (skip..n).step_by(step) {
                m[i] = new[i].1.clone();
            }
        }
        3 if n > 0 => {
            let i = rng.below(n);
            let (t, p) = rand_t::<T>(l, rng);
            obs.step(|| format!("{sig}: at_mut({i}) = {p:?}"));
            must(&sig, || *b.view_mut::<T>().at_mut(i) = t)?;
            m[i] = p;
            must_refuse(&format!("{sig} at_mut outside"), || *b.view_mut::<T>().at_mut(n) = t)?;
        }
        _ => {
            // sorting by a coarse key is a stable sort
            let a = l.attrs[0].clone();
            let key = |t: &T| bytemuck::bytes_of(t)[a.off] & 7;
            obs.step(|| format!("{sig}: sort_by"));
            must(&format!("{who}:sort_by"), || b.view_mut::<T>().sort_by(|x, y| key(x).cmp(&key(y))))?;
            m.sort_by_key(|p| p[0][0] & 7);
            obs.ev("sort");
        }
    }
    obs.ev("views_written_ref");
    Ok(())
}

fn columnar_views_mut<'a, B: ColumnarBufferMut<'a> + 'a>(who: &str, b: &mut B, l: &L, m: &mut [Pt], rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let n = m.len();
    let ai = rng.below(l.attrs.len());
    let a = l.attrs[ai].clone();
    if !refs_ok(size_align(a.def.datatype()).1) { return Ok(()) }
    let want: Vec<Vec<u8>> = m.iter().map(|p| p[ai].clone()).collect();
    let sig = format!("{who}:AttributeViewMut.ref");
    with_prim!(a.def.datatype(), P => {
        match rng.below(4) {
            0 => {
                let v = must(&sig, || b.view_attribute_mut::<P>(&a.def))?;
                drive(&format!("{sig}.iter"), must(&format!("{sig}.iter"), || v.iter())?, |x| bv(*x), &want, rng, obs)?;
                for i in 0..n {
                    ensure!(must(&sig, || bv(v.at_ref(i)))? == want[i], sig, "{sig} at_ref({i}) of {n}");
                }
            }
            1 => {
                let mut v = must(&sig, || b.view_attribute_mut::<P>(&a.def))?;
                drive(&format!("{sig}.iter_mut"), must(&format!("{sig}.iter_mut"), || v.iter_mut())?, |x| bv(*x), &want, rng, obs)?;
            }
            2 => {
                let new: Vec<_> = (0..n).map(|_| rand_value(rng, a.def.datatype())).collect();
                let step = rng.range(1, 3);
                let skip = rng.below(n + 2);
                obs.step(|| format!("{sig}: write {} through iter_mut", a.def));
                must(&sig, || {
                    let mut v = b.view_attribute_mut::<P>(&a.def);
                    let mut refs: Vec<&mut P> = v.iter_mut().skip(skip).step_by(step).collect();
                    for (k, r) in refs.iter_mut().enumerate() {
                        **r = typed::<P>(&new[skip + k * step]);
                    }
                })?;
                for i in (skip..n).step_by(step) {
                    m[i][ai] = new[i].clone();
                }
            }
            _ => if n > 0 {
                let i = rng.below(n);
                let x = rand_value(rng, a.def.datatype());
                obs.step(|| format!("{sig}: {} at_mut({i}) = {x:?}", a.def));
                must(&sig, || { let mut v = b.view_attribute_mut::<P>(&a.def); *v.at_mut(i) = typed::<P>(&x); })?;
                m[i][ai] = x;
            }
        }
    }, ());
    obs.ev("views_written_ref");
    Ok(())
}

fn compare_views<'a, 'b, T: TP, B: BorrowedBuffer<'a> + 'a, C: BorrowedBuffer<'b> + 'b>(b: &B, c: &C, l: &L, m: &[Pt], k: &[Pt], rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let x: Vec<T> = m.iter().map(|p| point(l, p)).collect();
    let y: Vec<T> = k.iter().map(|p| point(l, p)).collect();
    let want = x == y;
    let got = must("views:eq", || b.view::<T>() == c.view::<T>())?;
    ensure!(got == want, "views:eq", "point views of {m:?} and {k:?} compare {got}, want {want}");
    for (ai, a) in l.attrs.iter().enumerate() {
        with_prim!(a.def.datatype(), P => {
            let x: Vec<P> = m.iter().map(|p| typed(&p[ai])).collect();
            let y: Vec<P> = k.iter().map(|p| typed(&p[ai])).collect();
            let got = must("views:eq", || b.view_attribute::<P>(&a.def) == c.view_attribute::<P>(&a.def))?;
            ensure!(got == (x == y), "views:eq", "attribute views {} of {x:?} and {y:?} compare {got}", a.def);
        }, ());
        let to = prim_datatype(rng);
        if !crate::conv::convertible(a.def.datatype(), to) { continue }
        let conv = |m: &[Pt]| m.iter().map(|p| crate::conv::reference(a.def.datatype(), to, &p[ai])).collect::<Option<Vec<_>>>();
        let (Some(x), Some(y)) = (conv(m), conv(k)) else { continue };
        with_prim!(to, P => {
            let def = a.def.with_custom_datatype(to);
            let x: Vec<P> = x.iter().map(|p| typed(p)).collect();
            let y: Vec<P> = y.iter().map(|p| typed(p)).collect();
            let (Ok(v), Ok(w)) = (b.view_attribute_with_conversion::<P>(&def), c.view_attribute_with_conversion::<P>(&def)) else { continue };
            let got = must("views:eq converting", || v == w)?;
            ensure!(got == (x == y), "views:eq converting", "converting views {} as {to} of {x:?} and {y:?} compare {got}", a.def);
        }, ());
    }
    obs.ev("views_compared");
    Ok(())
}

fn p03_t<T: TP>(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let l = L::of(T::layout());
    let n = if rng.chance(1, 8) { 0 } else { count(rng, obs, 12) };
    let mut m = l.rand_pts(rng, n);
    let kind = rng.below(9);
    let r = rng.subrange(n);
    obs.step(|| format!("{} kind {kind} {n} points {m:?} slice {r:?}", std::any::type_name::<T>()));
    if n >= 2 { obs.nontrivial() }
    macro_rules! ro_i { ($w:expr, $b:expr, $m:expr) => {{ read_views::<T, _>($w, $b, &l, $m, rng, obs)?; interleaved_views::<T, _>($w, $b, &l, $m, rng, obs)?; }} }
    macro_rules! ro_c { ($w:expr, $b:expr, $m:expr) => {{ read_views::<T, _>($w, $b, &l, $m, rng, obs)?; columnar_views($w, $b, &l, $m, rng, obs)?; }} }
    macro_rules! rw_i { ($w:expr, $b:expr, $m:expr) => {{ for _ in 0..rng.range(1, 4) { write_views::<T, _>($w, $b, &l, $m, rng, obs)?; interleaved_views_mut::<T, _>($w, $b, &l, $m, rng, obs)?; } }} }
    macro_rules! rw_c { ($w:expr, $b:expr, $m:expr) => {{ for _ in 0..rng.range(1, 4) { write_views::<T, _>($w, $b, &l, $m, rng, obs)?; columnar_views_mut($w, $b, &l, $m, rng, obs)?; } }} }
    match kind {
        0 | 1 => {
            let mut b = VectorBuffer::new_from_layout(l.layout.clone());
            for p in &m { let t = point::<T>(&l, p); must("VectorBuffer:push_point", || b.view_mut::<T>().push_point(t))?; }
            ro_i!("VectorBuffer", &b, &m);
            rw_i!("VectorBuffer", &mut b, &mut m);
            ro_i!("VectorBuffer", &b, &m);
        }
        2 | 3 => {
            let mut b = HashMapBuffer::new_from_layout(l.layout.clone());
            for p in &m { let t = point::<T>(&l, p); must("HashMapBuffer:push_point", || b.view_mut::<T>().push_point(t))?; }
            ro_c!("HashMapBuffer", &b, &m);
            rw_c!("HashMapBuffer", &mut b, &mut m);
            ro_c!("HashMapBuffer", &b, &m);
        }
        4 => {
            let mut b = vbuf(&l, &m, rng);
            { let mut s = b.slice_mut(r.clone()); rw_i!("interleaved slice_mut", &mut s, &mut m[r.clone()]); ro_i!("interleaved slice_mut", &s, &m[r.clone()]); }
            ro_i!("VectorBuffer", &b, &m);
            let s = b.slice(r.clone());
            ro_i!("interleaved slice", &s, &m[r.clone()]);
        }
        5 => {
            let mut b = hbuf(&l, &m, rng);
            { let mut s = b.slice_mut(r.clone()); rw_c!("columnar slice_mut", &mut s, &mut m[r.clone()]); ro_c!("columnar slice_mut", &s, &m[r.clone()]); }
            ro_c!("HashMapBuffer", &b, &m);
            let s = b.slice(r.clone());
            ro_c!("columnar slice", &s, &m[r.clone()]);
        }
        6 => {
            // memory with room for any alignment
            let mut raw: Vec<u64> = vec![0; (n * l.size + 7) / 8 + 1];
            let d = l.encode_all(&m, rng);
            let bytes: &mut [u8] = bytemuck::cast_slice_mut(&mut raw);
            bytes[..d.len()].copy_from_slice(&d);
            let mut b = ExternalMemoryBuffer::new(&mut bytes[..d.len()], l.layout.clone());
            rw_i!("ExternalMemoryBuffer", &mut b, &mut m);
            ro_i!("ExternalMemoryBuffer", &b, &m);
        }
        7 => {
            let (mut b, mut c) = (vbuf(&l, &m, rng), hbuf(&l, &m, rng));
            let mut k = m.clone();
            compare_views::<T, _, _>(&b, &c, &l, &m, &k, rng, obs)?;
            if n > 0 {
                write_views::<T, _>("HashMapBuffer", &mut c, &l, &mut k, rng, obs)?;
                compare_views::<T, _, _>(&b, &c, &l, &m, &k, rng, obs)?;
                compare_views::<T, _, _>(&c, &b, &l, &k, &m, rng, obs)?;
            }
            let got = must("views:eq mut", || b.view_mut::<T>() == c.view_mut::<T>())?;
            let x: Vec<T> = m.iter().map(|p| point(&l, p)).collect();
            let y: Vec<T> = k.iter().map(|p| point(&l, p)).collect();
            ensure!(got == (x == y), "views:eq mut", "mutable point views of {m:?} and {k:?} compare {got}");
            let j = rng.below(n + 1);
            c.resize(j);
            k.truncate(j);
            compare_views::<T, _, _>(&b, &c, &l, &m, &k, rng, obs)?;
        }
        _ => {
            // emptied and grown again
            let mut b = vbuf(&l, &m, rng);
            let mut h = hbuf(&l, &m, rng);
            b.clear();
            h.clear();
            ro_i!("VectorBuffer", &b, &[]);
            ro_c!("HashMapBuffer", &h, &[]);
            let (b0, h0) = (VectorBuffer::new_from_layout(l.layout.clone()), HashMapBuffer::new_from_layout(l.layout.clone()));
            ro_i!("VectorBuffer", &b0, &[]);
            ro_c!("HashMapBuffer", &h0, &[]);
            let (mut b0, mut h0) = (b0, h0);
            let mut e: [Pt; 0] = [];
            rw_i!("VectorBuffer", &mut b0, &mut e);
            rw_c!("HashMapBuffer", &mut h0, &mut e);
            let s = b.slice(0..0);
            ro_i!("interleaved slice", &s, &[]);
            obs.ev("views_empty");
        }
    }
    Ok(())
}

pub fn p03(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    match rng.below(6) {
        0 => p03_t::<Small>(rng, obs),
        1 => p03_t::<Tiny>(rng, obs),
        2 => p03_t::<Color>(rng, obs),
        3 => p03_t::<Mid>(rng, obs),
        4 => p03_t::<Odd>(rng, obs),
        _ => p03_t::<Ints>(rng, obs),
    }
}

pub const P03: Property = Property {
        id: "P03",
        rule: "points of six derived types in every kind of buffer and slice, read and written through point and attribute views, iterators driven by random sequences of next, nth and adaptors; non-trivial: two points or more",
        assumptions: &["references into memory that is not aligned for the point type may be refused"],
        quick_cases: 300_000,
        thorough_cases: 30_000_000,
        case: p03,
        required_events: &["views_read", "views_read_ref", "views_written", "views_written_ref", "iterator_driven", "iter_end", "nth_past_end", "views_compared", "views_empty", "sort", "converting_view"],
    };

