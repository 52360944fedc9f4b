//! P18: convex hulls, decided exactly on lattice clouds and with a tolerance on random ones
use crate::any_buffer;
use crate::common::*;
use crate::gen::*;
use mon::{attempt, ensure, must, must_refuse, Obs, Property, Rng, Verdict};
use nalgebra::Vector3;
use pasture_algorithms::convexhull::*;
use pasture_core::containers::*;
use pasture_core::layout::*;
use std::collections::{BTreeMap, BTreeSet};
use PointAttributeDataType as D;

type I = [i64; 3];
type I2 = [i128; 3];
fn sub(a: I, b: I) -> I2 { [(a[0] - b[0]) as i128, (a[1] - b[1]) as i128, (a[2] - b[2]) as i128] }
fn cross(a: I2, b: I2) -> I2 { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
fn dot(a: I2, b: I2) -> i128 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
fn vol(a: I, b: I, c: I, d: I) -> i128 { dot(cross(sub(b, a), sub(c, a)), sub(d, a)) }

/// Dimension of the affine hull: 0 (one place), 1 (collinear), 2 (flat), 3; -1 without points
fn dim(p: &[I]) -> i32 {
    let Some(a) = p.first() else { return -1 };
    let Some(b) = p.iter().find(|q| *q != a) else { return 0 };
    let Some(c) = p.iter().find(|q| cross(sub(*b, *a), sub(**q, *a)) != [0, 0, 0]) else { return 1 };
    if p.iter().any(|q| vol(*a, *b, *c, *q) != 0) { 3 } else { 2 }
}

fn general(p: &[I]) -> bool {
    let n = p.len();
    for i in 0..n {
        for j in i + 1..n {
            for k in j + 1..n {
                if cross(sub(p[j], p[i]), sub(p[k], p[i])) == [0, 0, 0] { return false }
                for m in k + 1..n {
                    if vol(p[i], p[j], p[k], p[m]) == 0 { return false }
                }
            }
        }
    }
    true
}

fn shuffle_dup(p: &mut Vec<I>, rng: &mut Rng) {
    for _ in 0..rng.range(1, 4) {
        let x = *rng.pick(p);
        // often right at the beginning
        let at = if rng.bool() { rng.below(4.min(p.len() + 1)) } else { rng.below(p.len() + 1) };
        p.insert(at, x);
    }
}

/// A lattice cloud for positions of type `dt`; all arithmetic of the algorithm is exact on it
fn lattice(rng: &mut Rng, dt: D) -> (Vec<I>, &'static str) {
    let (lo, hi): (i64, i64) = match dt {
        D::Vec3u8 => (0, 255),
        D::Vec3u16 => (0, 16000),
        _ => (-16000, 16000),
    };
    let span = [2i64, 3, 5, 20, 100, 1000, 16000][rng.below(7)].min((hi - lo) / 2);
    let mid = rng.irange(lo + span, hi - span);
    let n = match rng.below(30) { 0 => rng.range(0, 3), 1 | 2 => rng.range(40, 120), _ => rng.range(4, 16) };
    let pt = |rng: &mut Rng| -> I { [mid + rng.irange(-span, span), mid + rng.irange(-span, span), mid + rng.irange(-span, span)] };
    let mut p: Vec<I> = (0..n).map(|_| pt(rng)).collect();
    let mut kind = "lattice";
    match rng.below(10) {
        0 => {
            // flat, in an arbitrary lattice plane
            kind = "flat";
            let (o, u, v) = (pt(rng), [rng.irange(-3, 3), rng.irange(-3, 3), rng.irange(-3, 3)], [rng.irange(-3, 3), rng.irange(-3, 3), rng.irange(-3, 3)]);
            let r = [1i64, 3, 10][rng.below(3)];
            for q in p.iter_mut() {
                let (s, t) = (rng.irange(-r, r), rng.irange(-r, r));
                for k in 0..3 { q[k] = (o[k] + s * u[k] + t * v[k]).clamp(lo, hi) }
            }
        }
        1 => {
            kind = "collinear";
            let (o, u) = (pt(rng), [rng.irange(-3, 3), rng.irange(-3, 3), rng.irange(-3, 3)]);
            for q in p.iter_mut() {
                let s = rng.irange(-9, 9);
                for k in 0..3 { q[k] = (o[k] + s * u[k]).clamp(lo, hi) }
            }
        }
        2 if span <= 1000 => {
            kind = "box";
            // corners, edges and faces of a box in any order
            for q in p.iter_mut() {
                for k in 0..3 { if rng.chance(3, 4) { q[k] = if rng.bool() { mid - span } else { mid + span } } }
            }
        }
        3 if span <= 1000 => {
            kind = "flat start";
            let z = p.first().map_or(0, |q| q[2]);
            let m = p.len();
            for q in p.iter_mut().take(m * 2 / 3) { q[2] = z }
        }
        _ => {}
    }
    if !p.is_empty() && rng.chance(1, 4) { shuffle_dup(&mut p, rng) }
    (p, kind)
}

fn encode(dt: D, p: &I) -> Vec<u8> {
    match dt {
        D::Vec3u8 => p.iter().map(|x| *x as u8).collect(),
        D::Vec3u16 => p.iter().flat_map(|x| (*x as u16).to_ne_bytes()).collect(),
        D::Vec3i32 => p.iter().flat_map(|x| (*x as i32).to_ne_bytes()).collect(),
        D::Vec3f32 => p.iter().flat_map(|x| (*x as f32).to_ne_bytes()).collect(),
        _ => p.iter().flat_map(|x| (*x as f64).to_ne_bytes()).collect(),
    }
}

fn layout_with(rng: &mut Rng, dt: D) -> (L, usize) {
    let mut defs = vec![attributes::POSITION_3D.with_custom_datatype(dt)];
    for d in [attributes::INTENSITY, attributes::COLOR_RGB, attributes::GPS_TIME] { if rng.chance(1, 3) { defs.push(d) } }
    rng.shuffle(&mut defs);
    let (layout, _) = rand_layout_of(rng, &defs);
    let l = L::of(layout);
    let i = l.attrs.iter().position(|a| a.def.name() == attributes::POSITION_3D.name()).unwrap();
    (l, i)
}

/// Directed edges, counted
fn edges(t: &[Vector3<usize>]) -> BTreeMap<(usize, usize), usize> {
    let mut m = BTreeMap::new();
    for t in t {
        for (a, b) in [(t.x, t.y), (t.y, t.z), (t.z, t.x)] { *m.entry((a, b)).or_insert(0) += 1 }
    }
    m
}
fn vertices(t: &[Vector3<usize>]) -> BTreeSet<usize> { t.iter().flat_map(|t| [t.x, t.y, t.z]).collect() }

/// The surface is closed, consistently oriented and, if `strict`, a manifold that is a sphere
fn closed(what: &str, t: &[Vector3<usize>], strict: bool) -> Verdict {
    let e = edges(t);
    for ((a, b), c) in &e {
        let back = e.get(&(*b, *a)).copied().unwrap_or(0);
        ensure!(back == *c, format!("{what}:open"), "edge {a}-{b} occurs {c} times, {b}-{a} {back} times in {t:?}");
        ensure!(!strict || *c == 1, format!("{what}:edge"), "edge {a}-{b} belongs to {c} triangles in this direction: {t:?}");
    }
    if strict {
        let (v, e, f) = (vertices(t).len() as i64, e.len() as i64 / 2, t.len() as i64);
        ensure!(v - e + f == 2, format!("{what}:surface"), "{v} vertices, {e} edges, {f} triangles: {t:?}");
    }
    Ok(())
}

fn as_points<'a, B: BorrowedBuffer<'a>>(b: &'a B) -> Result<BTreeSet<usize>, mon::Violation> {
    let v = must("convex_hull_as_points", || convex_hull_as_points(b))?;
    let s: BTreeSet<usize> = v.iter().copied().collect();
    ensure!(s.len() == v.len(), "convex_hull_as_points:repeated", "{v:?} lists a point twice");
    Ok(s)
}

fn p18_lattice(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let dt = [D::Vec3f64, D::Vec3f64, D::Vec3f64, D::Vec3f32, D::Vec3i32, D::Vec3u16, D::Vec3u8][rng.below(7)];
    let (p, kind) = lattice(rng, dt);
    let (l, pi) = layout_with(rng, dt);
    let mut m = l.rand_pts(rng, p.len());
    for (q, c) in m.iter_mut().zip(&p) { q[pi] = encode(dt, c) }
    let d = dim(&p);
    obs.step(|| format!("hull of {} {kind} points {p:?} ({dt}, layout {})", p.len(), l.show()));
    any_buffer!(&l, &m, rng, b, who => {
        obs.step(|| who.to_string());
        let r = must("convex_hull_as_triangle_mesh", || convex_hull_as_triangle_mesh(b))?;
        let pts = as_points(b)?;
        unchanged("convex_hull", b, &l, &m)?;
        ensure!(pts.iter().all(|i| *i < p.len()), "convex_hull_as_points:index", "{pts:?} of {} points", p.len());
        match r {
            Err(e) => {
                ensure!(d < 2, "convex_hull:refused", "{} points that span {d} dimensions: {e}", p.len());
                obs.ev("too few independent points refused");
                // the hull of a line are its two ends
                let lo = p.iter().min();
                let hi = p.iter().max();
                if let (Some(lo), Some(hi)) = (lo, hi) {
                    ensure!(pts.iter().any(|i| p[*i] == *lo) && pts.iter().any(|i| p[*i] == *hi), "convex_hull_as_points:line", "{pts:?} are not the ends of the line {p:?}");
                    ensure!(pts.len() <= 2, "convex_hull_as_points:line", "{pts:?} are more than the ends of the line {p:?}");
                } else {
                    ensure!(pts.is_empty(), "convex_hull_as_points:empty", "{pts:?} of an empty cloud");
                }
            }
            Ok(t) => {
                ensure!(d >= 2, "convex_hull:degenerate", "{t:?} for points that span {d} dimensions");
                ensure!(vertices(&t).iter().all(|i| *i < p.len()), "convex_hull:index", "{t:?} of {} points", p.len());
                for x in &t {
                    let (a, b, c) = (p[x.x], p[x.y], p[x.z]);
                    ensure!(cross(sub(b, a), sub(c, a)) != [0, 0, 0], "convex_hull:no area", "triangle {x:?} {a:?} {b:?} {c:?} has no area");
                    for (i, q) in p.iter().enumerate() {
                        ensure!(vol(a, b, c, *q) <= 0, "convex_hull:outside", "point {i} {q:?} lies outside of triangle {x:?} {a:?} {b:?} {c:?} of {t:?}");
                    }
                }
                closed("convex_hull", &t, d == 3)?;
                let vs = vertices(&t);
                ensure!(vs == pts, "convex_hull_as_points:vertices", "points {pts:?}, mesh vertices {vs:?}");
                if d == 3 { obs.ev("solid hull checked exactly") } else { obs.ev("flat hull checked exactly") }
                if vs.len() < p.len() { obs.ev("points inside") }
                if d == 3 && p.len() < 14 && general(&p) {
                    // every vertex of a cloud in general position is extreme: dropping it makes the hull smaller
                    obs.ev("general position");
                    for v in &vs {
                        let q = p[*v];
                        // visible from the vertex, some triangle of the hull of the others separates it
                        let rest: Vec<usize> = vs.iter().copied().filter(|i| i != v).collect();
                        let mut inside = rest.len() >= 4;
                        if inside {
                            // q is inside of the others iff no plane through three of them has q alone on one side
                            'o: for i in 0..rest.len() { for j in i + 1..rest.len() { for k in j + 1..rest.len() {
                                let (a, b, c) = (p[rest[i]], p[rest[j]], p[rest[k]]);
                                let s = vol(a, b, c, q).signum();
                                if rest.iter().all(|r| vol(a, b, c, p[*r]).signum() != s) { inside = false; break 'o }
                            } } }
                        }
                        ensure!(!inside, "convex_hull:vertex", "vertex {v} {q:?} lies inside of the hull of the others");
                    }
                }
                obs.nontrivial();
            }
        }
    });
    Ok(())
}

type V = [f64; 3];

fn p18_random(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let n = match rng.below(20) { 0 => if rng.chance(1, 10) { obs.large(rng.u64()); rng.range(300, 1300) } else { rng.range(100, 300) }, 1 => 4, _ => rng.range(5, 40) };
    let scale = 10f64.powi(rng.irange(-30, 30) as i32);
    let off: V = if rng.bool() { [0.0; 3] } else { [rng.f64(-1e3, 1e3) * scale, rng.f64(-1e3, 1e3) * scale, rng.f64(-1e3, 1e3) * scale] };
    let sphere = rng.chance(1, 3);
    let stretch = [1.0, if rng.chance(1, 4) { 1e-2 } else { 1.0 }, if rng.chance(1, 4) { 1e-2 } else { 1.0 }];
    let mut p: Vec<V> = (0..n).map(|_| {
        let mut v = [rng.f64(-1.0, 1.0), rng.f64(-1.0, 1.0), rng.f64(-1.0, 1.0)];
        if sphere { let r = (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt().max(1e-3); for k in 0..3 { v[k] /= r } }
        [off[0] + v[0] * scale * stretch[0], off[1] + v[1] * scale * stretch[1], off[2] + v[2] * scale * stretch[2]]
    }).collect();
    if rng.chance(1, 6) {
        // the beginning again
        let k = rng.range(0, 2);
        let x = p[k];
        p.insert(k + 1, x);
    }
    let (l, pi) = layout_with(rng, D::Vec3f64);
    let mut m = l.rand_pts(rng, p.len());
    for (q, c) in m.iter_mut().zip(&p) { q[pi] = v3(c) }
    obs.step(|| format!("hull of {} points scale {scale} sphere {sphere}: {p:?}", p.len()));
    any_buffer!(&l, &m, rng, b, who => {
        obs.step(|| who.to_string());
        let t = match must("convex_hull_as_triangle_mesh", || convex_hull_as_triangle_mesh(b))? {
            Ok(t) => t,
            Err(e) => return mon::violation("convex_hull:refused", format!("{n} random points: {e}")),
        };
        let pts = as_points(b)?;
        unchanged("convex_hull", b, &l, &m)?;
        ensure!(vertices(&t).iter().all(|i| *i < p.len()), "convex_hull:index", "{t:?} of {} points", p.len());
        let s = |a: V, b: V| -> V { [(a[0] - b[0]) / scale, (a[1] - b[1]) / scale, (a[2] - b[2]) / scale] };
        for x in &t {
            let (a, b, c) = (p[x.x], p[x.y], p[x.z]);
            let (u, v) = (s(b, a), s(c, a));
            let nrm = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]];
            let len = (nrm[0] * nrm[0] + nrm[1] * nrm[1] + nrm[2] * nrm[2]).sqrt();
            for (i, q) in p.iter().enumerate() {
                let w = s(*q, a);
                let vol = nrm[0] * w[0] + nrm[1] * w[1] + nrm[2] * w[2];
                ensure!(vol <= 1e-9 * len.max(1e-3), "convex_hull:outside", "point {i} {q:?} lies {} (of {scale}) outside of triangle {x:?} {a:?} {b:?} {c:?}", vol / len);
            }
        }
        closed("convex_hull", &t, true)?;
        let vs = vertices(&t);
        ensure!(vs == pts, "convex_hull_as_points:vertices", "points {pts:?}, mesh vertices {vs:?}");
        if sphere { obs.ev("sphere") }
        obs.ev("random hull");
        obs.nontrivial();
    });
    Ok(())
}

fn p18_case(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    match rng.below(20) {
        0 => {
            let mut defs = rand_defs(rng, 1, 4, false);
            defs.retain(|d| d.name() != attributes::POSITION_3D.name());
            if defs.is_empty() { return Ok(()) }
            let (layout, _) = rand_layout_of(rng, &defs);
            let l = L::of(layout);
            let n = rng.below(5);
            let m = l.rand_pts(rng, n);
            obs.step(|| format!("no positions: {}", l.show()));
            any_buffer!(&l, &m, rng, b, who => {
                obs.step(|| who.to_string());
                must_refuse("convex_hull_as_triangle_mesh", || convex_hull_as_triangle_mesh(b).unwrap())?;
                must_refuse("convex_hull_as_points", || convex_hull_as_points(b))?;
            });
            obs.ev("no positions refused");
            Ok(())
        }
        1..=4 => p18_random(rng, obs),
        _ => p18_lattice(rng, obs),
    }
}

pub const P18: Property = Property {
    id: "P18",
    rule: "hull consists of input points, is closed, oriented outwards and encloses all points",
    assumptions: &["lattice coordinates up to 16000, where the arithmetic of the algorithm is exact", "random clouds of doubles are in general position; tolerance 1e-9 of the extent"],
    quick_cases: 100_000,
    thorough_cases: 5_000_000,
    case: p18_case,
    required_events: &["solid hull checked exactly", "flat hull checked exactly", "general position", "points inside", "too few independent points refused", "random hull", "sphere", "no positions refused"],
};
