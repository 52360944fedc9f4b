//! P19: centroids and normals
use crate::any_buffer;
use crate::common::*;
use crate::gen::*;
use kd_tree::KdPoint;
use mon::{attempt, ensure, must, must_refuse, Obs, Property, Rng, Verdict};
use nalgebra::{Matrix3, Vector3};
use pasture_algorithms::normal_estimation::{compute_centroid, compute_normals};
use pasture_core::containers::*;
use pasture_core::layout::*;
use pasture_derive::PointType;

#[repr(C, packed)]
#[derive(PointType, Debug, Clone, Copy, bytemuck::AnyBitPattern, bytemuck::NoUninit)]
struct Pn {
    #[pasture(BUILTIN_POSITION_3D)]
    pub position: Vector3<f64>,
}
impl KdPoint for Pn {
    type Scalar = f64;
    type Dim = typenum::U3;
    fn at(&self, k: usize) -> f64 {
        let p = self.position;
        p[k]
    }
}

type V = [f64; 3];

fn cloud(ps: &[V], rng: &mut Rng) -> (L, Vec<Pt>) {
    let (l, pi) = layout_with_position(rng, &[attributes::INTENSITY, attributes::COLOR_RGB, attributes::NORMAL], 2);
    let mut m = l.rand_pts(rng, ps.len());
    for (p, c) in m.iter_mut().zip(ps) { p[pi] = v3(c) }
    (l, m)
}

fn centroid(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let n = match rng.below(10) { 0 => 0, 1 => 1, _ => count(rng, obs, 60).max(2) };
    let s = 10f64.powi(rng.irange(-8, 8) as i32);
    let off = if rng.bool() { 0.0 } else { s * 1e3 };
    let holes = rng.chance(1, 3);
    let bad = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY];
    let ps: Vec<V> = (0..n).map(|_| {
        let mut p = [off + rng.f64(-s, s), rng.f64(-s, s), rng.f64(-s, s) - off];
        if holes && rng.chance(1, 4) { let k = rng.below(3); p[k] = *rng.pick(&bad) }
        p
    }).collect();
    let (l, m) = cloud(&ps, rng);
    obs.step(|| format!("centroid of {ps:?} layout {}", l.show()));
    let fin: Vec<V> = ps.iter().copied().filter(|p| p.iter().all(|x| x.is_finite())).collect();
    any_buffer!(&l, &m, rng, b, who => {
        obs.step(|| who.to_string());
        if n == 0 {
            must_refuse("compute_centroid", || compute_centroid(b))?;
            obs.ev("empty cloud refused");
        } else {
            let c = must("compute_centroid", || compute_centroid(b))?;
            if fin.len() < ps.len() { obs.ev("points that are not finite left out") }
            if !fin.is_empty() {
                for k in 0..3 {
                    // exact sum of the doubles up to 2^-100 of the largest
                    let big = fin.iter().map(|p| p[k].abs()).fold(0.0, f64::max);
                    let (mut hi, mut lo) = (0.0f64, 0.0f64);
                    for p in &fin { let t = hi + p[k]; let z = t - hi; lo += (hi - (t - z)) + (p[k] - z); hi = t; }
                    let mean = (hi + lo) / fin.len() as f64;
                    ensure!((c[k] - mean).abs() <= 1e-12 * big.max(mean.abs()) + f64::MIN_POSITIVE, "compute_centroid:mean", "component {k} of the centroid is {} instead of {mean} ({} finite points of {})", c[k], fin.len(), ps.len());
                }
                obs.ev("centroid");
                if fin.len() > 1 { obs.nontrivial() }
            }
        }
        unchanged("compute_centroid", b, &l, &m)?;
    });
    Ok(())
}

/// Eigen values and vectors of a symmetric matrix by Jacobi rotations
fn jacobi(mut a: Matrix3<f64>) -> Vec<(f64, Vector3<f64>)> {
    let mut v = Matrix3::identity();
    for _ in 0..60 {
        let off = a[(0, 1)].abs() + a[(0, 2)].abs() + a[(1, 2)].abs();
        if off <= 1e-300 { break }
        for (p, q) in [(0, 1), (0, 2), (1, 2)] {
            if a[(p, q)] == 0.0 { continue }
            let th = (a[(q, q)] - a[(p, p)]) / (2.0 * a[(p, q)]);
            let t = th.signum() / (th.abs() + (th * th + 1.0).sqrt());
            let c = 1.0 / (t * t + 1.0).sqrt();
            let s = t * c;
            let mut j = Matrix3::identity();
            j[(p, p)] = c; j[(q, q)] = c; j[(p, q)] = s; j[(q, p)] = -s;
            a = j.transpose() * a * j;
            a[(p, q)] = 0.0; a[(q, p)] = 0.0;
            v = v * j;
        }
    }
    (0..3).map(|i| (a[(i, i)], v.column(i).into_owned())).collect()
}

fn normals(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let n = match rng.below(12) { 0 => rng.range(0, 2), 1 => 3, 2 => rng.range(40, 80), _ => rng.range(3, 24) };
    let k = match rng.below(10) { 0 => rng.range(0, 2), 1 => n + rng.below(3), 2 => 3, _ => rng.range(3, 10) };
    let s = 10f64.powi(rng.irange(-4, 4) as i32);
    let off = if rng.bool() { 0.0 } else { s * 100.0 };
    // two directions and the thickness in the third
    let mut dir = |rng: &mut Rng| Vector3::new(rng.f64(-1.0, 1.0), rng.f64(-1.0, 1.0), rng.f64(-1.0, 1.0));
    let (u, v, w) = match rng.below(4) {
        0 => (Vector3::x(), Vector3::y(), Vector3::z()),
        1 => (Vector3::z(), Vector3::y(), Vector3::x()),
        _ => (dir(rng), dir(rng), dir(rng)),
    };
    let thick = [0.0, 1e-6, 1e-3, 0.03, 0.3, 1.0][rng.below(6)];
    let curved = rng.chance(1, 4);
    let mut ps: Vec<V> = (0..n).map(|_| {
        let (a, b) = (rng.f64(-1.0, 1.0), rng.f64(-1.0, 1.0));
        let c = if curved { a * a + 0.5 * b } else { 0.0 } + thick * rng.f64(-1.0, 1.0);
        let p = (u * a + v * b + w * c) * s;
        [p.x + off, p.y, p.z - off]
    }).collect();
    // points on a grid share coordinates, so neighbours lie on the borders of the search
    if rng.chance(1, 4) {
        let g = s * [0.5, 0.25, 0.1][rng.below(3)];
        for p in ps.iter_mut() { for c in 0..3 { if c < 2 || rng.bool() { p[c] = (p[c] / g).round() * g } } }
        obs.ev("grid");
    }
    if n > 4 && rng.chance(1, 10) { let x = *rng.pick(&ps); let at = rng.below(n); ps[at] = x }
    let (l, m) = cloud(&ps, rng);
    obs.step(|| format!("normals from {k} of {n} points, thickness {thick} scale {s} {ps:?} layout {}", l.show()));
    any_buffer!(&l, &m, rng, b, who => {
        obs.step(|| who.to_string());
        fn run<'a, B: BorrowedBuffer<'a>>(b: &'a B, k: usize) -> Vec<(Vector3<f64>, f64)> { compute_normals::<B, Pn>(b, k) }
        if k < 3 || n < 3 {
            must_refuse("compute_normals", || run(b, k))?;
            obs.ev("too few neighbours refused");
        } else {
            let r = must("compute_normals", || run(b, k))?;
            ensure!(r.len() == n, "compute_normals:count", "{} normals for {n} points", r.len());
            for (i, (nn, curv)) in r.iter().enumerate() {
                let q = ps[i];
                let mut d: Vec<(f64, usize)> = ps.iter().enumerate().map(|(j, p)| ((0..3).map(|c| (p[c] - q[c]) * (p[c] - q[c])).sum::<f64>(), j)).collect();
                d.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
                if k < n && (d[k].0 - d[k - 1].0) <= 1e-9 * d[k].0.max(1e-300) { obs.ev("neighbourhood not unique"); continue }
                if k < n && d[k].0 == d[k - 1].0 { continue }
                let near: Vec<Vector3<f64>> = d.iter().take(k).map(|x| Vector3::new(ps[x.1][0], ps[x.1][1], ps[x.1][2])).collect();
                let mean = near.iter().sum::<Vector3<f64>>() / near.len() as f64;
                let mut c = Matrix3::zeros();
                for p in &near { let x = (p - mean) / s; c += x * x.transpose() }
                let mut ev = jacobi(c);
                ev.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
                let trace: f64 = ev.iter().map(|x| x.0).sum();
                if !(trace > 1e-12) { obs.ev("no variance"); continue }
                let what = || format!("point {i} {q:?} of {n}, k {k}: normal {nn:?} curvature {curv}, eigen values {:?} direction of least variance {:?}, neighbours {near:?}", ev.iter().map(|x| x.0).collect::<Vec<_>>(), ev[0].1);
                ensure!((curv - ev[0].0.max(0.0) / trace).abs() <= 1e-5, "compute_normals:curvature", "{}", what());
                // the direction is defined only if one variance is clearly the least
                if ev[1].0 - ev[0].0 < 0.02 * trace { obs.ev("no unique direction"); continue }
                let len = nn.norm();
                ensure!(len.is_finite() && len > 0.0, "compute_normals:length", "{}", what());
                let cos = (nn / len).dot(&ev[0].1).abs();
                ensure!(cos >= 1.0 - 1e-6, "compute_normals:direction", "cosine {cos}: {}", what());
                obs.ev(if ev[0].0 > 1e-3 * trace { "normal of a thick neighbourhood" } else { "normal of a flat neighbourhood" });
                obs.nontrivial();
            }
        }
        unchanged("compute_normals", b, &l, &m)?;
    });
    Ok(())
}

fn p19(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    if rng.chance(1, 3) { centroid(rng, obs) } else { normals(rng, obs) }
}

pub const P19: Property = Property {
    id: "P19",
    rule: "centroids against a compensated mean of the finite points; normals and curvatures against a Jacobi eigen decomposition of the covariance of the brute force nearest neighbours; non-trivial: the direction of least variance is unique",
    assumptions: &["neighbourhoods with ties and without a unique direction are only counted", "tolerances 1e-5 on the curvature, 1e-6 on the cosine"],
    quick_cases: 60_000,
    thorough_cases: 5_000_000,
    case: p19,
    required_events: &["centroid", "points that are not finite left out", "empty cloud refused", "too few neighbours refused", "normal of a thick neighbourhood", "normal of a flat neighbourhood"],
};
