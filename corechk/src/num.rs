//! The reference for attribute conversions: numeric casts as the language defines them
use crate::gen::*;
use pasture_core::layout::PointAttributeDataType as D;

#[derive(Clone, Copy)]
pub enum Num {
    I(i128),
    F(f64),
}

/// Scalar type of the components: (is float, signed, bytes)
pub fn scalar(d: D) -> Option<(bool, bool, usize)> {
    Some(match d {
        D::U8 | D::Vec3u8 | D::Vec4u8 => (false, false, 1),
        D::I8 => (false, true, 1),
        D::U16 | D::Vec3u16 => (false, false, 2),
        D::I16 => (false, true, 2),
        D::U32 => (false, false, 4),
        D::I32 | D::Vec3i32 => (false, true, 4),
        D::U64 => (false, false, 8),
        D::I64 => (false, true, 8),
        D::F32 | D::Vec3f32 => (true, true, 4),
        D::F64 | D::Vec3f64 => (true, true, 8),
        _ => return None,
    })
}

pub fn load(d: D, b: &[u8]) -> Num {
    let (float, signed, w) = scalar(d).unwrap();
    if float {
        return Num::F(if w == 4 { f32::from_le_bytes(b.try_into().unwrap()) as f64 } else { f64::from_le_bytes(b.try_into().unwrap()) });
    }
    let mut x: i128 = 0;
    for (k, y) in b.iter().enumerate() {
        x |= (*y as i128) << (8 * k);
    }
    if signed && x >= 1i128 << (8 * w - 1) {
        x -= 1i128 << (8 * w);
    }
    Num::I(x)
}

pub fn store(d: D, n: Num) -> Vec<u8> {
    let (float, signed, w) = scalar(d).unwrap();
    if float {
        return match (n, w) {
            (Num::I(i), 4) => (i as f32).to_le_bytes().to_vec(),
            (Num::I(i), _) => (i as f64).to_le_bytes().to_vec(),
            (Num::F(f), 4) => (f as f32).to_le_bytes().to_vec(),
            (Num::F(f), _) => f.to_le_bytes().to_vec(),
        };
    }
    let x: i128 = match n {
        Num::I(i) => i,
        Num::F(f) if f.is_nan() => 0,
        Num::F(f) => {
            let (lo, hi) = if signed { (-(1i128 << (8 * w - 1)), (1i128 << (8 * w - 1)) - 1) } else { (0, (1i128 << (8 * w)) - 1) };
            if f >= 1e30 { hi } else if f <= -1e30 { lo } else { (f.trunc() as i128).clamp(lo, hi) }
        }
    };
    (0..w).map(|k| (x >> (8 * k)) as u8).collect()
}

pub fn is_vec3(d: D) -> bool {
    matches!(d, D::Vec3u8 | D::Vec3u16 | D::Vec3i32 | D::Vec3f32 | D::Vec3f64)
}

pub fn convertible(a: D, b: D) -> bool {
    a == b || (is_vec3(a) && is_vec3(b)) || (scalar(a).is_some() && scalar(b).is_some() && comps(a) == 1 && comps(b) == 1)
}

/// The value `v` of type `from` as type `to`; `None` if the types are not numbers of the same shape
pub fn reference(from: D, to: D, v: &[u8]) -> Option<Vec<u8>> {
    if from == to {
        return Some(v.to_vec());
    }
    if comps(from) != comps(to) {
        return None;
    }
    let (s, _) = (scalar(from)?, scalar(to)?);
    Some(v.chunks(s.2).flat_map(|c| store(to, load(from, c))).collect())
}

/// Equal bytes, where one NaN is as good as another
pub fn same(d: D, a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    match scalar(d) {
        Some((true, _, w)) => a.chunks(w).zip(b.chunks(w)).all(|(x, y)| {
            x == y || matches!((load(d, x), load(d, y)), (Num::F(f), Num::F(g)) if f.is_nan() && g.is_nan())
        }),
        _ => a == b,
    }
}

/// A value at which the rounding or the range of a conversion turns: halfway between two floats of some precision,
/// next to a power of two, next to the limits of an integer type
pub fn turning_value(rng: &mut mon::Rng, from: D) -> Vec<u8> {
    let (float, signed, w) = scalar(from).unwrap();
    let mut v = vec![];
    for _ in 0..comps(from) {
        if float {
            // neighbours of a power of two, of its half steps, of the middle between two single precision numbers
            let base = match rng.below(4) {
                0 => 2f64.powi(rng.irange(-3, 66) as i32),
                1 => 2f64.powi(rng.irange(0, 52) as i32) - 0.5,
                2 => rng.irange(0, 1 << 33) as f64 + 0.5,
                _ => {
                    let f = f32::from_bits((rng.u64() as u32 & 0x7fff_ffff) % 0x7f7f_ffff);
                    (f as f64 + f32::from_bits(f.to_bits() + 1) as f64) / 2.0
                }
            };
            let step = rng.irange(-2, 2);
            let sign = if rng.bool() { -1.0 } else { 1.0 };
            if w == 4 {
                v.extend((sign as f32 * f32::from_bits(((base as f32).to_bits() as i64 + step).max(0) as u32)).to_le_bytes());
            } else {
                v.extend((sign * f64::from_bits((base.to_bits() as i64 + step).max(0) as u64)).to_le_bytes());
            }
        } else {
            let bits = 8 * w as u32;
            let x: u128 = match rng.below(3) {
                0 => (1u128 << rng.below(bits as usize)).wrapping_add(rng.irange(-2, 2) as u128),
                m => {
                    let m = if m == 1 { 24 } else { 53 };
                    if bits <= m { rng.u64() as u128 } else {
                        let s = rng.range(1, (bits - m) as usize) as u32;
                        let mantissa = (1u128 << (m - 1)) | (rng.u64() as u128 & ((1u128 << (m - 1)) - 1));
                        // the smallest steps vanish in a detour over another precision
                        let d = [0i64, 1, -1, 2, -2][rng.below(5)];
                        ((mantissa << s) + (1 << (s - 1))).wrapping_add(d as i128 as u128)
                    }
                }
            };
            let x = if signed && rng.bool() { x.wrapping_neg() } else { x };
            v.extend(&x.to_le_bytes()[..w]);
        }
    }
    v
}
