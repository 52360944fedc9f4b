//! P15: bounds and attribute ranges
use crate::common::*;
use crate::gen::*;
use crate::{any_buffer, with_prim};
use mon::{attempt, ensure, must, must_refuse, Obs, Property, Rng, Verdict};
use nalgebra::Vector3;
use pasture_algorithms::{bounds::calculate_bounds, minmax::minmax_attribute};
use pasture_core::containers::*;
use pasture_core::layout::*;
use pasture_core::math::MinMax;
use PointAttributeDataType as D;

/// Components of a value as f64 (exact for positions)
fn comp(d: D, b: &[u8]) -> Vec<f64> {
    macro_rules! c { ($t:ty) => { b.chunks_exact(std::mem::size_of::<$t>()).map(|c| bytemuck::pod_read_unaligned::<$t>(c) as f64).collect() } }
    match d {
        D::Vec3u8 | D::U8 | D::Vec4u8 => c!(u8),
        D::Vec3u16 | D::U16 => c!(u16),
        D::Vec3i32 | D::I32 => c!(i32),
        D::Vec3f32 | D::F32 => c!(f32),
        _ => c!(f64),
    }
}

fn finite(d: D, b: &[u8], limit: f64) -> bool {
    match d {
        D::F32 | D::F64 | D::Vec3f32 | D::Vec3f64 => comp(d, b).iter().all(|x| x.abs() <= limit),
        _ => true,
    }
}

/// Values without NaN (and without infinities where asked)
fn tame(rng: &mut Rng, d: D, limit: f64) -> Vec<u8> {
    loop {
        let v = rand_value(rng, d);
        if finite(d, &v, limit) { return v }
    }
}

fn sizes(rng: &mut Rng, obs: &mut Obs) -> usize {
    match rng.below(40) { 0..=3 => 0, 4..=6 => 1, 7 => rng.range(60, 400), _ => count(rng, obs, 14).max(1) }
}

fn p15_bounds(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let mut defs = rand_defs(rng, 0, 4, false);
    defs.retain(|d| d.name() != attributes::POSITION_3D.name());
    let dt = [D::Vec3f64, D::Vec3f64, D::Vec3f64, D::Vec3f32, D::Vec3i32, D::Vec3u16, D::Vec3u8][rng.below(7)];
    let has = !rng.chance(1, 8);
    if has {
        let at = rng.below(defs.len() + 1);
        defs.insert(at, attributes::POSITION_3D.with_custom_datatype(dt));
    }
    if defs.is_empty() { return Ok(()) }
    let (layout, _) = rand_layout_of(rng, &defs);
    let l = L::of(layout);
    let n = sizes(rng, obs);
    let mut m = l.rand_pts(rng, n);
    let pi = l.attrs.iter().position(|a| a.def.name() == attributes::POSITION_3D.name());
    if let Some(pi) = pi {
        // all in one octant now and then
        let mode = rng.below(4);
        for p in m.iter_mut() {
            p[pi] = tame(rng, dt, 1e300);
            if dt == D::Vec3f64 && mode < 2 {
                let s = if mode == 0 { -1.0 } else { 1.0 };
                let c: Vec<u8> = comp(dt, &p[pi]).iter().flat_map(|x| (x.abs() * s).to_ne_bytes()).collect();
                p[pi] = c;
            }
        }
    }
    obs.step(|| format!("bounds of {} points {m:?} layout {}", n, l.show()));
    if n > 1 && has { obs.nontrivial() }
    any_buffer!(&l, &m, rng, b, who => {
        obs.step(|| who.to_string());
        let got = must("calculate_bounds", || calculate_bounds(b))?;
        match pi {
            Some(pi) if n > 0 => {
                let cs: Vec<Vec<f64>> = m.iter().map(|p| comp(dt, &p[pi])).collect();
                let Some(g) = got else { return mon::violation("calculate_bounds:none", format!("no bounds for {n} points ({who}, positions {dt})")) };
                for k in 0..3 {
                    let lo = cs.iter().map(|c| c[k]).fold(f64::INFINITY, f64::min);
                    let hi = cs.iter().map(|c| c[k]).fold(f64::NEG_INFINITY, f64::max);
                    ensure!(g.min()[k] == lo && g.max()[k] == hi, "calculate_bounds:value", "bounds of {who}, positions {dt}: axis {k} {}..{}, want {lo}..{hi}", g.min()[k], g.max()[k]);
                }
                obs.ev(if dt == D::Vec3f64 { "bounds" } else { "bounds_converted" });
                if who.contains("slice") { obs.ev("bounds_slice") }
            }
            _ => {
                ensure!(got.is_none(), "calculate_bounds:some", "bounds {got:?} of {n} points, position attribute: {has}");
                obs.ev("bounds_none");
            }
        }
        unchanged("calculate_bounds", b, &l, &m)?;
        // reading the bounds twice gives the same
        ensure!(must("calculate_bounds", || calculate_bounds(b))? == got, "calculate_bounds:value", "two calls differ");
    });
    Ok(())
}

trait Val: PrimitiveType + MinMax + Copy + PartialEq + std::fmt::Debug {
    fn parts(&self) -> Vec<i128>;
}
macro_rules! ival { ($($t:ty),*) => { $(impl Val for $t { fn parts(&self) -> Vec<i128> { vec![*self as i128] } })* } }
ival!(u8, i8, u16, i16, u32, i32, u64, i64);
/// A float as an integer in the order of the values (both zeros alike)
fn ord64(x: f64) -> i128 { let b = x.to_bits() as i64; (if b < 0 { i64::MIN - b } else { b }) as i128 }
impl Val for f64 { fn parts(&self) -> Vec<i128> { vec![ord64(*self)] } }
impl Val for f32 { fn parts(&self) -> Vec<i128> { vec![ord64(*self as f64)] } }
impl<T: Val + nalgebra::Scalar> Val for Vector3<T> where Vector3<T>: PrimitiveType {
    fn parts(&self) -> Vec<i128> { vec![self.x.parts()[0], self.y.parts()[0], self.z.parts()[0]] }
}

fn minmax_t<'a, T: Val, B: BorrowedBuffer<'a>>(b: &'a B, who: &str, def: &PointAttributeDefinition, vals: &[Vec<u8>], obs: &mut Obs) -> Verdict {
    let got = must("minmax_attribute", || minmax_attribute::<T, B>(b, def))?;
    if vals.is_empty() {
        ensure!(got.is_none(), "minmax_attribute:some", "{got:?} for no points");
        obs.ev("minmax_none");
        return Ok(());
    }
    let Some((lo, hi)) = got else { return mon::violation("minmax_attribute:none", format!("no range of {def} for {} points ({who})", vals.len())) };
    let parts: Vec<Vec<i128>> = vals.iter().map(|v| bytemuck::pod_read_unaligned::<T>(v).parts()).collect();
    let k = parts[0].len();
    let wlo: Vec<i128> = (0..k).map(|c| parts.iter().map(|p| p[c]).min().unwrap()).collect();
    let whi: Vec<i128> = (0..k).map(|c| parts.iter().map(|p| p[c]).max().unwrap()).collect();
    ensure!(lo.parts() == wlo && hi.parts() == whi, "minmax_attribute:value", "range of {def} in {who}: {lo:?} to {hi:?} for the values {:?}", vals.iter().map(|v| bytemuck::pod_read_unaligned::<T>(v)).collect::<Vec<_>>());
    obs.ev("minmax");
    Ok(())
}

fn p15_minmax(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let mut defs = rand_defs(rng, 1, 5, true);
    for d in defs.iter_mut() {
        if d.datatype() == D::Vec4u8 { *d = d.with_custom_datatype(D::Vec3u8) }
    }
    let (layout, _) = rand_layout_of(rng, &defs);
    let l = L::of(layout);
    let n = sizes(rng, obs);
    let mut m = l.rand_pts(rng, n);
    for p in m.iter_mut() {
        for (ai, a) in l.attrs.iter().enumerate() { p[ai] = tame(rng, a.def.datatype(), f64::INFINITY) }
    }
    obs.step(|| format!("minmax of {} points {m:?} layout {}", n, l.show()));
    if n > 1 { obs.nontrivial() }
    any_buffer!(&l, &m, rng, b, who => {
        obs.step(|| who.to_string());
        for (ai, a) in l.attrs.iter().enumerate() {
            let vals: Vec<Vec<u8>> = m.iter().map(|p| p[ai].clone()).collect();
            macro_rules! go { ($($d:ident => $t:ty),*) => { match a.def.datatype() { $(D::$d => minmax_t::<$t, _>(b, who, &a.def, &vals, obs)?,)* _ => () } } }
            go!(U8 => u8, I8 => i8, U16 => u16, I16 => i16, U32 => u32, I32 => i32, U64 => u64, I64 => i64, F32 => f32, F64 => f64,
                Vec3u8 => Vector3<u8>, Vec3u16 => Vector3<u16>, Vec3i32 => Vector3<i32>, Vec3f32 => Vector3<f32>, Vec3f64 => Vector3<f64>);
            // a wrong type is never answered with a wrong range
            if a.def.datatype() == D::U16 {
                if let Ok(Some(r)) = attempt(|| minmax_attribute::<f64, _>(b, &a.def)) {
                    let w: Vec<u16> = vals.iter().map(|v| typed(v)).collect();
                    ensure!(r == (*w.iter().min().unwrap() as f64, *w.iter().max().unwrap() as f64), "minmax_attribute:converted", "{r:?} as f64 range of {w:?}");
                }
            }
        }
        let gone = PointAttributeDefinition::custom("not in any layout".into(), D::U8);
        must_refuse("minmax_attribute of a missing attribute", || minmax_attribute::<u8, _>(b, &gone))?;
        unchanged("minmax_attribute", b, &l, &m)?;
    });
    Ok(())
}

fn p15(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    if rng.bool() { p15_bounds(rng, obs) } else { p15_minmax(rng, obs) }
}

pub const P15: Property = Property {
    id: "P15",
    rule: "clouds of random layouts in every kind of buffer and slice, positions and attributes of every datatype; non-trivial: two points or more",
    assumptions: &["positions are finite, attribute values are not NaN"],
    quick_cases: 600_000,
    thorough_cases: 10_000_000,
    case: p15,
    required_events: &["bounds", "bounds_converted", "bounds_none", "bounds_slice", "minmax", "minmax_none"],
};
