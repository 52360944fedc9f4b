//! P13 (bounding boxes) and P14 (alignment, bit and min/max helpers)
use mon::{attempt, ensure, must, must_refuse, Obs, Property, Rng, Verdict};
use nalgebra::{Point3, Vector3};
use pasture_core::math::*;

pub trait Num: nalgebra::Scalar + nalgebra::ClosedSub + PartialOrd + Copy + std::fmt::Debug {
    fn any(rng: &mut Rng) -> Self;
    fn name() -> &'static str;
}
fn coarse(rng: &mut Rng) -> i64 {
    match rng.below(4) {
        0 => rng.irange(-2, 2),
        1 => rng.irange(-100, 100),
        2 => 0,
        _ => rng.irange(-1_000_000_000, 1_000_000_000),
    }
}
impl Num for f64 {
    fn any(rng: &mut Rng) -> f64 {
        match rng.below(8) {
            0 => -0.0,
            1 => rng.f64(-1e12, 1e12),
            2 => rng.f64(-1e100, 1e100),
            3 => rng.f64(-1e-300, 1e-300),
            4 => rng.unit(),
            5 => coarse(rng) as f64 + 0.5,
            _ => coarse(rng) as f64,
        }
    }
    fn name() -> &'static str { "f64" }
}
impl Num for f32 {
    fn any(rng: &mut Rng) -> f32 {
        match rng.below(6) {
            0 => -0.0,
            1 => rng.f64(-1e9, 1e9) as f32,
            2 => rng.f64(-1e-30, 1e-30) as f32,
            3 => rng.unit() as f32,
            _ => coarse(rng) as f32,
        }
    }
    fn name() -> &'static str { "f32" }
}
impl Num for i32 {
    fn any(rng: &mut Rng) -> i32 { coarse(rng) as i32 }
    fn name() -> &'static str { "i32" }
}
impl Num for i64 {
    fn any(rng: &mut Rng) -> i64 { if rng.chance(1, 5) { (rng.u64() as i64) / 3 } else { coarse(rng) } }
    fn name() -> &'static str { "i64" }
}
impl Num for u16 {
    fn any(rng: &mut Rng) -> u16 { [0, 1, 2, 3, 500, 65535, rng.u64() as u16][rng.below(7)] }
    fn name() -> &'static str { "u16" }
}

type P3<T> = [T; 3];
fn pt<T: Num>(p: P3<T>) -> Point3<T> { Point3::new(p[0], p[1], p[2]) }
fn un<T: Num>(p: &Point3<T>) -> P3<T> { [p.x, p.y, p.z] }
fn any3<T: Num>(rng: &mut Rng) -> P3<T> { [T::any(rng), T::any(rng), T::any(rng)] }
fn lo<T: Num>(a: T, b: T) -> T { if b < a { b } else { a } }
fn hi<T: Num>(a: T, b: T) -> T { if b > a { b } else { a } }
fn box_of<T: Num>(ps: &[P3<T>]) -> (P3<T>, P3<T>) {
    let mut r = (ps[0], ps[0]);
    for p in ps {
        for c in 0..3 {
            r.0[c] = lo(r.0[c], p[c]);
            r.1[c] = hi(r.1[c], p[c]);
        }
    }
    r
}

/// A probe that is likely to be inside, on the faces, or just outside
fn probe<T: Num>(b: &(P3<T>, P3<T>), rng: &mut Rng) -> P3<T> {
    let mut p = b.0;
    for c in 0..3 {
        p[c] = match rng.below(6) { 0 => b.0[c], 1 => b.1[c], 2 => T::any(rng), _ => { let x = T::any(rng); lo(hi(x, b.0[c]), b.1[c]) } };
    }
    p
}

fn same_box<T: Num>(what: &str, got: &AABB<T>, want: &(P3<T>, P3<T>)) -> Verdict {
    ensure!(un(got.min()) == want.0 && un(got.max()) == want.1, format!("AABB:{what}"), "{what} of {}: got {got:?}, want {want:?}", T::name());
    Ok(())
}

fn p13_t<T: Num>(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let n = rng.range(1, 5);
    let ps: Vec<P3<T>> = (0..n).map(|_| any3(rng)).collect();
    let m = rng.range(1, 4);
    let mut qs: Vec<P3<T>> = (0..m).map(|_| any3(rng)).collect();
    let (a, b0) = (box_of(&ps), box_of(&qs));
    // sometimes the second box touches or nearly touches the first
    if rng.bool() { for q in qs.iter_mut() { *q = probe(&a, rng) } }
    let b = if rng.bool() { box_of(&qs) } else { b0 };
    obs.step(|| format!("{} boxes {a:?} {b:?}", T::name()));
    if n > 1 && m > 1 { obs.nontrivial() }
    let ba = must("AABB:from_min_max", || AABB::from_min_max(pt(a.0), pt(a.1)))?;
    let bb = must("AABB:from_min_max", || AABB::from_min_max(pt(b.0), pt(b.1)))?;
    same_box("from_min_max", &ba, &a)?;
    same_box("from_min_max_unchecked", &AABB::from_min_max_unchecked(pt(b.0), pt(b.1)), &b)?;
    // an inverted box is refused
    let c = rng.below(3);
    if a.0[c] < a.1[c] {
        let (mut x, mut y) = a;
        std::mem::swap(&mut x[c], &mut y[c]);
        must_refuse("AABB:from_min_max inverted", || AABB::from_min_max(pt(x), pt(y)))?;
        obs.ev("inverted_refused");
    }
    let e = must("AABB:extent", || ba.extent())?;
    for c in 0..3 {
        ensure!(e[c] == a.1[c] - a.0[c], "AABB:extent", "extent of {a:?} is {e:?}");
    }
    // union: the smallest box around both
    let w = box_of(&[a.0, a.1, b.0, b.1]);
    same_box("union", &AABB::union(&ba, &bb), &w)?;
    same_box("union", &AABB::union(&bb, &ba), &w)?;
    // intersection test, both ways
    let want = (0..3).all(|c| a.0[c] <= b.1[c] && b.0[c] <= a.1[c]);
    ensure!(ba.intersects(&bb) == want && bb.intersects(&ba) == want, "AABB:intersects", "{a:?} and {b:?}: {} / {}, want {want}", ba.intersects(&bb), bb.intersects(&ba));
    obs.ev(if want { "boxes_meet" } else { "boxes_apart" });
    for _ in 0..4 {
        let p = probe(&a, rng);
        let want = (0..3).all(|c| a.0[c] <= p[c] && p[c] <= a.1[c]);
        ensure!(ba.contains(&pt(p)) == want, "AABB:contains", "{a:?} contains {p:?}: {}", !want);
        obs.ev(if want { "point_inside" } else { "point_outside" });
        let x = AABB::extend_with_point(&ba, &pt(p));
        same_box("extend_with_point", &x, &box_of(&[a.0, a.1, p]))?;
        ensure!(x.contains(&pt(p)), "AABB:extend_with_point", "the extended box {x:?} misses {p:?}");
        if want { same_box("extend_with_point inside", &x, &a)?; }
    }
    Ok(())
}

fn p13_f64(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let n = rng.range(1, 12);
    let ps: Vec<P3<f64>> = (0..n).map(|_| any3(rng)).collect();
    let a = box_of(&ps);
    obs.step(|| format!("points {ps:?}"));
    if n > 1 { obs.nontrivial() }
    // collected from points, in every order
    let b: AABB<f64> = must("AABB:from_iter", || ps.iter().map(|p| pt(*p)).collect())?;
    same_box("from_iter", &b, &a)?;
    let b2: AABB<f64> = must("AABB:from_iter", || ps.iter().rev().map(|p| Vector3::new(p[0], p[1], p[2])).collect())?;
    same_box("from_iter", &b2, &a)?;
    obs.ev("collected_bounds");
    let bytes = bincode::serialize(&b).map_err(|e| mon::Violation { sig: "AABB:serde".into(), detail: format!("{e}") })?;
    match bincode::deserialize::<AABB<f64>>(&bytes) {
        Ok(x) => same_box("serde", &x, &a)?,
        Err(e) => return mon::violation("AABB:serde", format!("{a:?} does not deserialize: {e}")),
    }
    let c = b.center();
    for k in 0..3 {
        let (l, h) = (a.0[k], a.1[k]);
        let tol = 1e-12 * l.abs().max(h.abs());
        let want = l + (h / 2.0 - l / 2.0);
        ensure!((c[k] - want).abs() <= tol && c[k] >= l && c[k] <= h, "AABB:center", "center of {a:?} is {c:?}");
    }
    cubic(&[a.0, a.1], &un(b.as_cubic().min()), &un(b.as_cubic().max()), 1e-12)?;
    obs.ev("cubic");
    // approximate containment
    for _ in 0..6 {
        let mut p = probe(&a, rng);
        let eps = match rng.below(5) { 0 => 0.0, 1 => 1e-9, 2 => rng.unit(), 3 => 10.0 * rng.unit(), _ => 0.5 };
        // place one coordinate near the boundary of the extended box
        if rng.bool() {
            let k = rng.below(3);
            let f = [0.0, 0.5, 0.99, 1.0, 1.01, 2.0][rng.below(6)] * eps;
            p[k] = if rng.bool() { a.0[k] - f } else { a.1[k] + f };
        }
        // how far outside is it?
        let (mut sure_in, mut sure_out) = (true, false);
        for k in 0..3 {
            let d = (a.0[k] - p[k]).max(p[k] - a.1[k]);
            let slack = 1e-12 * (eps + a.0[k].abs().max(a.1[k].abs()).max(p[k].abs()));
            if d > eps - slack && d > 0.0 { sure_in = false }
            if d > eps + slack { sure_out = true }
        }
        let got = b.contains_approx(&pt(p), eps);
        obs.step(|| format!("contains_approx({p:?}, {eps})"));
        ensure!(!(sure_in && !got) && !(sure_out && got), "AABB:contains_approx", "{a:?} contains {p:?} with tolerance {eps}: {got}");
        if sure_in { obs.ev("approx_inside") }
        if sure_out { obs.ev("approx_outside") }
        if b.contains(&pt(p)) { ensure!(got, "AABB:contains_approx", "{a:?} contains {p:?}, but not with tolerance {eps}") }
    }
    // single precision: center and cube
    let fs: Vec<P3<f32>> = (0..rng.range(1, 4)).map(|_| any3(rng)).collect();
    let f = box_of(&fs);
    let bf = AABB::from_min_max(pt(f.0), pt(f.1));
    let c = bf.center();
    for k in 0..3 {
        let want = (f.0[k] as f64 + f.1[k] as f64) / 2.0;
        ensure!((c[k] as f64 - want).abs() <= 1e-6 * f.0[k].abs().max(f.1[k].abs()) as f64 && c[k] >= f.0[k] && c[k] <= f.1[k], "AABB:center", "center of {f:?} is {c:?}");
    }
    let w = |p: P3<f32>| [p[0] as f64, p[1] as f64, p[2] as f64];
    let q = bf.as_cubic();
    cubic(&[w(f.0), w(f.1)], &w(un(q.min())), &w(un(q.max())), 1e-5)
}

/// The cube has the center of the box and its longest side
fn cubic(b: &[P3<f64>; 2], min: &P3<f64>, max: &P3<f64>, rel: f64) -> Verdict {
    let side = (0..3).map(|k| b[1][k] - b[0][k]).fold(0.0, f64::max);
    let scale = (0..3).map(|k| b[0][k].abs().max(b[1][k].abs())).fold(side, f64::max);
    let tol = rel * scale;
    for k in 0..3 {
        ensure!((max[k] - min[k] - side).abs() <= tol, "AABB:as_cubic", "side {k} of the cube {min:?} {max:?} around {b:?} is {}, want {side}", max[k] - min[k]);
        ensure!(((max[k] + min[k]) - (b[0][k] + b[1][k])).abs() <= 2.0 * tol, "AABB:as_cubic", "the cube {min:?} {max:?} around {b:?} has another center");
        ensure!(min[k] <= b[0][k] + tol && max[k] >= b[1][k] - tol, "AABB:as_cubic", "the cube {min:?} {max:?} does not contain {b:?}");
    }
    Ok(())
}

fn p13(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    match rng.below(8) {
        0 => p13_t::<f64>(rng, obs),
        1 => p13_t::<f32>(rng, obs),
        2 => p13_t::<i32>(rng, obs),
        3 => p13_t::<i64>(rng, obs),
        4 => p13_t::<u16>(rng, obs),
        _ => p13_f64(rng, obs),
    }
}

pub const P13: Property = Property {
    id: "P13",
    rule: "pairs of boxes over five number types from random points, probes inside, on the faces and just outside; non-trivial: boxes spanned by several points",
    assumptions: &["coordinates are finite and their sums and differences representable", "center and cube are compared up to rounding"],
    quick_cases: 3_000_000,
    thorough_cases: 60_000_000,
    case: p13,
    required_events: &["inverted_refused", "boxes_meet", "boxes_apart", "point_inside", "point_outside", "collected_bounds", "cubic", "approx_inside", "approx_outside"],
};

macro_rules! align { ($t:ty, $rng:expr, $obs:expr) => {{
    let a: $t = match $rng.below(5) { 0 => 1 << $rng.below(<$t>::BITS as usize), 1 => $rng.below(20) as $t, 2 => $rng.u64() as $t, 3 => 0, _ => $rng.range(1, 100) as $t };
    let v: $t = match $rng.below(5) { 0 => $rng.below(70) as $t, 1 => $rng.u64() as $t, 2 => a.wrapping_mul($rng.below(9) as $t), 3 => a.wrapping_mul($rng.below(9) as $t).wrapping_sub(1), _ => <$t>::MAX / 2 };
    // the sum has to be representable
    if a == 0 || v.checked_add(a).is_some() {
        $obs.step(|| format!("{v}{}.align_to({a})", stringify!($t)));
        let got = must("align_to", || v.align_to(a))?;
        let want: u128 = if a == 0 { v as u128 } else { let (v, a) = (v as u128, a as u128); if v % a == 0 { v } else { v - v % a + a } };
        ensure!(got as u128 == want, "align_to", "{v}{}.align_to({a}) = {got}, want {want}", stringify!($t));
        $obs.ev("aligned");
        if a > 1 { $obs.nontrivial() }
    }
}} }

macro_rules! minmax { ($t:ty, $rng:expr, $obs:expr) => {{
    let (x, y): ($t, $t) = match $rng.below(4) {
        0 => ($rng.u64() as $t, $rng.u64() as $t),
        1 => { let x = $rng.u64() as $t; (x, x) }
        2 => (<$t>::MIN, $rng.u64() as $t),
        _ => ($rng.below(3) as $t, <$t>::MAX),
    };
    ensure!(x.infimum(&y) == if y < x { y } else { x }, "infimum", "infimum of {x} and {y}");
    ensure!(x.supremum(&y) == if y > x { y } else { x }, "supremum", "supremum of {x} and {y}");
    let (v, w) = (Vector3::new(x, y, x), Vector3::new(y, x, y));
    let (i, s) = (v.infimum(&w), v.supremum(&w));
    let (l, h) = if x < y { (x, y) } else { (y, x) };
    ensure!(i == Vector3::new(l, l, l) && s == Vector3::new(h, h, h), "infimum vector", "{v:?} {w:?}: {i:?} {s:?}");
    let (a, b) = ([x, y, x], [$rng.u64() as $t, $rng.u64() as $t, $rng.u64() as $t]);
    let (i, s) = (Vector3::from(a).infimum(&Vector3::from(b)), Vector3::from(a).supremum(&Vector3::from(b)));
    for k in 0..3 {
        ensure!(i[k] == lo2(a[k], b[k]) && s[k] == hi2(a[k], b[k]), "infimum vector", "{a:?} {b:?}: {i:?} {s:?}");
    }
    $obs.mix(&(x as f64).to_ne_bytes());
    $obs.mix(&(y as f64).to_ne_bytes());
    $obs.nontrivial();
    $obs.ev("minmax");
}} }
fn lo2<T: PartialOrd>(a: T, b: T) -> T { if b < a { b } else { a } }
fn hi2<T: PartialOrd>(a: T, b: T) -> T { if b > a { b } else { a } }

fn p14(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    for _ in 0..4 {
        match rng.below(18) {
            0 => align!(u8, rng, obs),
            1 => align!(u16, rng, obs),
            2 => align!(u32, rng, obs),
            3 => align!(u64, rng, obs),
            4 => align!(u128, rng, obs),
            5 => align!(usize, rng, obs),
            6 => minmax!(u8, rng, obs),
            7 => minmax!(i8, rng, obs),
            8 => minmax!(u16, rng, obs),
            9 => minmax!(i16, rng, obs),
            10 => minmax!(u32, rng, obs),
            11 => minmax!(i32, rng, obs),
            12 => minmax!(u64, rng, obs),
            13 => minmax!(i64, rng, obs),
            14 => {
                for (x, y) in [(false, false), (false, true), (true, false), (true, true)] {
                    ensure!(x.infimum(&y) == (x && y) && x.supremum(&y) == (x || y), "infimum", "bool {x} {y}");
                }
                let (x, y) = (<f64 as Num>::any(rng), <f64 as Num>::any(rng));
                ensure!(x.infimum(&y) == x.min(y) && x.supremum(&y) == x.max(y), "infimum", "f64 {x} {y}");
                let (v, w) = (any3::<f64>(rng), any3::<f64>(rng));
                let (i, s) = (Vector3::from(v).infimum(&Vector3::from(w)), Vector3::from(v).supremum(&Vector3::from(w)));
                for k in 0..3 { ensure!(i[k] == v[k].min(w[k]) && s[k] == v[k].max(w[k]), "infimum vector", "{v:?} {w:?}: {i:?} {s:?}"); }
                let (x, y) = (<f32 as Num>::any(rng), <f32 as Num>::any(rng));
                ensure!(x.infimum(&y) == x.min(y) && x.supremum(&y) == x.max(y), "infimum", "f32 {x} {y}");
                let (v, w) = (any3::<f32>(rng), any3::<f32>(rng));
                let (i, s) = (Vector3::from(v).infimum(&Vector3::from(w)), Vector3::from(v).supremum(&Vector3::from(w)));
                for k in 0..3 { ensure!(i[k] == v[k].min(w[k]) && s[k] == v[k].max(w[k]), "infimum vector", "{v:?} {w:?}: {i:?} {s:?}"); }
                obs.ev("minmax_float");
            }
            _ => {
                let v = match rng.below(5) { 0 => 1u64 << rng.below(64), 1 => (1u64 << rng.below(22)) - 1, 2 => rng.u64() & 0x1FFFFF, 3 => !(1u64 << rng.below(64)), _ => rng.u64() };
                obs.mix(&v.to_ne_bytes());
                let e = must("expand_bits_by_3", || expand_bits_by_3(v))?;
                let mut want = 0u64;
                for i in 0..21 { if v >> i & 1 == 1 { want |= 1 << (3 * i) } }
                ensure!(e == want, "expand_bits_by_3", "expand_bits_by_3({v:#x}) = {e:#x}, want {want:#x}");
                let r = must("reverse_bits", || reverse_bits(v))?;
                let mut want = 0u64;
                for i in 0..64 { if v >> i & 1 == 1 { want |= 1 << (63 - i) } }
                ensure!(r == want, "reverse_bits", "reverse_bits({v:#x}) = {r:#x}, want {want:#x}");
                obs.nontrivial();
                obs.ev("bits");
            }
        }
    }
    Ok(())
}

pub const P14: Property = Property {
    id: "P14",
    rule: "random, power-of-two and extreme operands for every integer width; non-trivial: an alignment above one, or a bit or minimum operation",
    assumptions: &["value plus alignment is representable in the type", "no NaN operands"],
    quick_cases: 3_000_000,
    thorough_cases: 60_000_000,
    case: p14,
    required_events: &["aligned", "minmax", "minmax_float", "bits"],
};
