//! P17: RANSAC segmentation
use crate::any_buffer;
use crate::common::*;
use crate::gen::*;
use mon::{attempt, ensure, must, must_refuse, Obs, Property, Rng, Verdict};
use nalgebra::Vector3;
use pasture_algorithms::segmentation::*;
use pasture_core::containers::*;
use pasture_core::layout::*;

type V = [f64; 3];
fn sub(a: V, b: V) -> V { [a[0] - b[0], a[1] - b[1], a[2] - b[2]] }
fn cross(a: V, b: V) -> V { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
fn dot(a: V, b: V) -> f64 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
fn norm(a: V) -> f64 { dot(a, a).sqrt() }

fn line_dist(p: V, a: V, b: V) -> f64 { norm(cross(sub(b, a), sub(a, p))) / norm(sub(b, a)) }
fn plane_dist(p: V, a: V, b: V, c: V) -> f64 { let n = cross(sub(b, a), sub(c, a)); dot(n, sub(p, a)).abs() / norm(n) }

/// The numbers of the debug output of a model
fn numbers(s: &str) -> Vec<f64> {
    let mut v = vec![];
    let mut cur = String::new();
    let mut prev = ' ';
    for ch in s.chars().chain(" ".chars()) {
        let num = ch.is_ascii_digit() || (ch == '.' && !cur.is_empty()) || (ch == '-' && (cur.is_empty() || prev == 'e')) || (ch == 'e' && !cur.is_empty());
        if num { cur.push(ch) } else {
            if let Ok(x) = cur.parse() { v.push(x) }
            cur.clear();
        }
        prev = ch;
    }
    v
}

/// All models through the input points with their inlier sets; None if a distance is too close to the threshold
fn all_models(ps: &[V], plane: bool, thr: f64) -> Option<Vec<Vec<usize>>> {
    let n = ps.len();
    let mut out = vec![];
    let mut one = |d: &dyn Fn(V) -> f64| -> Option<Vec<usize>> {
        let mut r = vec![];
        for (i, p) in ps.iter().enumerate() {
            let x = d(*p);
            if (x - thr).abs() < 1e-7 * (1.0 + thr) { return None }
            if x < thr { r.push(i) }
        }
        Some(r)
    };
    for i in 0..n {
        for j in i + 1..n {
            if plane {
                for k in j + 1..n {
                    let nn = norm(cross(sub(ps[j], ps[i]), sub(ps[k], ps[i])));
                    if nn == 0.0 { out.push(vec![]); continue }
                    // every order of the three gives the same plane up to rounding
                    out.push(one(&|p| plane_dist(p, ps[i], ps[j], ps[k]))?);
                }
            } else {
                if ps[i] == ps[j] { out.push(vec![]); continue }
                out.push(one(&|p| line_dist(p, ps[i], ps[j]))?);
            }
        }
    }
    Some(out)
}

fn cloud(ps: &[V], rng: &mut Rng) -> (L, usize, Vec<Pt>) {
    let (l, pi) = layout_with_position(rng, &[attributes::INTENSITY, attributes::COLOR_RGB, attributes::CLASSIFICATION], 2);
    let mut m = l.rand_pts(rng, ps.len());
    for (p, c) in m.iter_mut().zip(ps) { p[pi] = v3(c) }
    (l, pi, m)
}

/// Runs one of the four variants
fn run<'a, B: BorrowedBuffer<'a> + Sync>(b: &'a B, plane: bool, par: bool, thr: f64, it: usize) -> (String, Vec<usize>) {
    match (plane, par) {
        (true, true) => { let (m, i) = ransac_plane_par(b, thr, it); (format!("{m:?}"), i) }
        (true, false) => { let (m, i) = ransac_plane_serial(b, thr, it); (format!("{m:?}"), i) }
        (false, true) => { let (m, i) = ransac_line_par(b, thr, it); (format!("{m:?}"), i) }
        (false, false) => { let (m, i) = ransac_line_serial(b, thr, it); (format!("{m:?}"), i) }
    }
}

fn name(plane: bool, par: bool) -> &'static str {
    match (plane, par) { (true, true) => "ransac_plane_par", (true, false) => "ransac_plane_serial", (false, true) => "ransac_line_par", _ => "ransac_line_serial" }
}

/// The model that the debug output shows goes through input points and has these inliers
fn shown_model(what: &str, plane: bool, shown: &str, ps: &[V], thr: f64, inl: &[usize]) -> Verdict {
    let x = numbers(shown);
    if x.iter().any(|v| !v.is_finite()) { return Ok(()) }
    if !plane && x.len() == 7 {
        let (a, b) = ([x[0], x[1], x[2]], [x[3], x[4], x[5]]);
        ensure!(ps.contains(&a) && ps.contains(&b), format!("{what}:model"), "{shown} does not go through input points");
        if a != b {
            for (i, p) in ps.iter().enumerate() {
                let d = line_dist(*p, a, b);
                if (d - thr).abs() < 1e-7 * (1.0 + thr) { continue }
                ensure!((d < thr) == inl.contains(&i), format!("{what}:inliers"), "{shown}: point {i} {p:?} has distance {d}, threshold {thr}, inliers {inl:?}");
            }
        }
        ensure!(x[6] == inl.len() as f64, format!("{what}:ranking"), "{shown} has {} inliers", inl.len());
    }
    if plane && x.len() == 5 {
        let n = [x[0], x[1], x[2]];
        if norm(n) > 0.0 {
            let dist = |p: V| (dot(n, p) + x[3]).abs() / norm(n);
            let scale = ps.iter().map(|p| norm(*p)).fold(1.0, f64::max);
            let through = ps.iter().filter(|p| dist(**p) <= 1e-7 * scale).count();
            ensure!(through >= 3, format!("{what}:model"), "{shown} goes through {through} input points");
            for (i, p) in ps.iter().enumerate() {
                let d = dist(*p);
                if (d - thr).abs() < 1e-7 * (1.0 + thr + scale) { continue }
                ensure!((d < thr) == inl.contains(&i), format!("{what}:inliers"), "{shown}: point {i} {p:?} has distance {d}, threshold {thr}, inliers {inl:?}");
            }
        }
        ensure!(x[4] == inl.len() as f64, format!("{what}:ranking"), "{shown} has {} inliers", inl.len());
    }
    Ok(())
}

/// Few points, so many iterations that every model is tried
fn p17_small(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let plane = rng.bool();
    let n = if plane { rng.range(3, 6) } else { rng.range(2, 7) };
    let off = [0.0, 0.0, 500.0, -3000.0][rng.below(4)];
    let ps: Vec<V> = (0..n)
        .map(|_| match rng.below(4) {
            0 => [rng.below(6) as f64 + off, 0.0, off],
            1 => [rng.irange(-9, 9) as f64, rng.irange(-9, 9) as f64, 1.0],
            2 => [rng.f64(-10.0, 10.0), rng.f64(-10.0, 10.0), rng.f64(-10.0, 10.0)],
            _ => [rng.irange(-9, 9) as f64 + off, rng.irange(-9, 9) as f64, rng.irange(-9, 9) as f64],
        })
        .collect();
    let thr = [0.1, 0.37, 1.03, 3.3, 1e-4][rng.below(5)];
    let par = rng.chance(1, 3);
    obs.step(|| format!("{} threshold {thr} points {ps:?}", name(plane, par)));
    let (l, _, m) = cloud(&ps, rng);
    let models = all_models(&ps, plane, thr);
    // 35 models at most: the chance to miss one in 1500 samples is below 1e-18
    let it = if rng.chance(1, 4) { 1 } else { 1500 };
    any_buffer!(&l, &m, rng, b, who => {
        obs.step(|| format!("in {who}, {it} iterations"));
        let what = name(plane, par);
        let (shown, inl) = must(what, || run(b, plane, par, thr, it))?;
        unchanged(what, b, &l, &m)?;
        ensure!(inl.windows(2).all(|w| w[0] < w[1]) && inl.iter().all(|i| *i < n), format!("{what}:indices"), "indices {inl:?} of {n} points");
        let Some(models) = models else { obs.ev("too_close_to_call"); return Ok(()) };
        shown_model(what, plane, &shown, &ps, thr, &inl)?;
        ensure!(models.contains(&inl), format!("{what}:inliers"), "{inl:?} are not the inliers of any model through input points; {ps:?} threshold {thr}");
        if it > 1 {
            let best = models.iter().map(|x| x.len()).max().unwrap();
            ensure!(inl.len() == best, format!("{what}:best"), "{} inliers after {it} iterations, the best model has {best}; {ps:?} threshold {thr}", inl.len());
            obs.ev("best_of_all_models");
            if models.iter().any(|x| x.len() != best) { obs.nontrivial() }
        } else { obs.ev("one_iteration") }
        obs.ev(what);
        if who.contains("slice") { obs.ev("in_slice") }
    });
    Ok(())
}

/// Many points, most of them on one plane or line
fn p17_planted(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let plane = rng.bool();
    let par = rng.bool();
    let n = if rng.chance(1, 60) { obs.large(rng.u64()); rng.range(500, 2100) } else { rng.range(20, 120) };
    let mut on = vec![];
    let ps: Vec<V> = (0..n)
        .map(|i| {
            if rng.chance(4, 5) {
                on.push(i);
                let (s, t) = (rng.irange(-1000, 1000) as f64, rng.irange(-1000, 1000) as f64);
                if plane { [s, t, s - 2.0 * t + 7.0] } else { [s, 2.0 * s + 1.0, -s] }
            } else { [rng.f64(-1000.0, 1000.0), rng.f64(-1000.0, 1000.0), rng.f64(-1000.0, 1000.0)] }
        })
        .collect();
    let it = rng.range(150, 200);
    obs.step(|| format!("{} {n} points, {} planted: {ps:?}", name(plane, par), on.len()));
    if on.len() < n / 2 { return Ok(()) }
    obs.nontrivial();
    let (l, _, m) = cloud(&ps, rng);
    let thr = 0.01;
    any_buffer!(&l, &m, rng, b, who => {
        let what = name(plane, par);
        let (shown, inl) = must(what, || run(b, plane, par, thr, it))?;
        ensure!(inl.windows(2).all(|w| w[0] < w[1]) && inl.iter().all(|i| *i < n), format!("{what}:indices"), "indices {inl:?} of {n} points");
        ensure!(inl.len() >= on.len(), format!("{what}:best"), "{} inliers in {who}, but {} points lie on one model", inl.len(), on.len());
        shown_model(what, plane, &shown, &ps, thr, &inl)?;
        obs.ev("planted");
        obs.ev(what);
    });
    Ok(())
}

fn p17_refused(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let plane = rng.bool();
    let par = rng.bool();
    let n = rng.below(if plane { 3 } else { 2 });
    let ps: Vec<V> = (0..n).map(|i| [i as f64, 1.0, 2.0]).collect();
    obs.step(|| format!("{} of {n} points", name(plane, par)));
    let (l, _, m) = cloud(&ps, rng);
    let b = vbuf(&l, &m, rng);
    must_refuse(&format!("{} of too few points", name(plane, par)), || run(&b, plane, par, 0.1, 10))?;
    obs.ev("too_few_refused");
    Ok(())
}

fn p17(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    match rng.below(12) {
        0 => p17_refused(rng, obs),
        1..=3 => p17_planted(rng, obs),
        _ => p17_small(rng, obs),
    }
}

pub const P17: Property = Property {
    id: "P17",
    rule: "small clouds sampled so often that every model through input points is tried, compared with the enumeration of all models, and larger clouds with a planted plane or line, serial and parallel; non-trivial: models of different quality exist",
    assumptions: &["clouds with a distance too close to the threshold are only counted", "the random number generator of the library is fair; the chance of an alarm by bad luck is below 1e-15 per run"],
    quick_cases: 10_000,
    thorough_cases: 1_000_000,
    case: p17,
    required_events: &["ransac_plane_par", "ransac_plane_serial", "ransac_line_par", "ransac_line_serial", "best_of_all_models", "one_iteration", "planted", "in_slice", "too_few_refused"],
};
