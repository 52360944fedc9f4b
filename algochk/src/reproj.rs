//! P20: reprojection
use crate::any_buffer;
use crate::common::*;
use crate::gen::*;
use mon::{attempt, ensure, must, must_refuse, Obs, Property, Rng, Verdict};
use nalgebra::{Point3, Vector3};
use pasture_algorithms::reprojection::*;
use pasture_core::containers::*;
use pasture_core::layout::*;
use pasture_core::math::AABB;

type V = [f64; 3];

/// Reference systems and where their coordinates usually lie
const CRS: &[(&str, V, V)] = &[
    ("EPSG:4326", [-80.0, -179.0, -100.0], [80.0, 179.0, 3000.0]),
    ("EPSG:4979", [-80.0, -179.0, -100.0], [80.0, 179.0, 3000.0]),
    ("EPSG:3857", [-2e7, -2e7, 0.0], [2e7, 2e7, 1000.0]),
    ("EPSG:32632", [200000.0, 1000000.0, 0.0], [800000.0, 8000000.0, 1000.0]),
    ("EPSG:25832", [300000.0, 5000000.0, 0.0], [700000.0, 7000000.0, 1000.0]),
    ("EPSG:4978", [-7e6, -7e6, -7e6], [7e6, 7e6, 7e6]),
    ("+proj=longlat +datum=WGS84 +no_defs", [-179.0, -80.0, 0.0], [179.0, 80.0, 1000.0]),
    ("+proj=utm +zone=33 +datum=WGS84", [200000.0, 1000000.0, 0.0], [800000.0, 8000000.0, 1000.0]),
    ("+proj=laea +lat_0=52 +lon_0=10 +datum=WGS84", [-1e6, -1e6, 0.0], [1e6, 1e6, 1000.0]),
    ("EPSG:2154", [200000.0, 6100000.0, 0.0], [1200000.0, 7000000.0, 1000.0]),
];
const UNKNOWN: &[&str] = &["EPSG:1", "EPSG:999999", "nonsense", "", "+proj=nonsense", "EPSG:4326\0"];

const A: f64 = 6378137.0;
const F: f64 = 1.0 / 298.257223563;

/// Formulas of the map projections, written out; degrees, latitude first
fn formula(target: &str, p: V) -> Option<V> {
    let (lat, lon) = (p[0].to_radians(), p[1].to_radians());
    let e2 = F * (2.0 - F);
    match target {
        "EPSG:3857" => Some([A * lon, A * (std::f64::consts::FRAC_PI_4 + lat / 2.0).tan().ln(), p[2]]),
        "EPSG:4978" => {
            let n = A / (1.0 - e2 * lat.sin() * lat.sin()).sqrt();
            Some([(n + p[2]) * lat.cos() * lon.cos(), (n + p[2]) * lat.cos() * lon.sin(), (n * (1.0 - e2) + p[2]) * lat.sin()])
        }
        "EPSG:32632" => {
            // Krueger's series
            let l = lon - 9f64.to_radians();
            if l.abs() > 3f64.to_radians() { return None }
            let n = F / (2.0 - F);
            let aa = A / (1.0 + n) * (1.0 + n * n / 4.0 + n.powi(4) / 64.0);
            let al = [n / 2.0 - 2.0 / 3.0 * n * n + 5.0 / 16.0 * n.powi(3), 13.0 / 48.0 * n * n - 3.0 / 5.0 * n.powi(3), 61.0 / 240.0 * n.powi(3)];
            let e = e2.sqrt();
            let s = lat.sin();
            let t = (s.atanh() - e * (e * s).atanh()).sinh();
            let xi1 = (t / l.cos()).atan();
            let eta1 = (l.sin() / (t * t + l.cos() * l.cos()).sqrt()).asinh();
            let (mut x, mut y) = (xi1, eta1);
            for (j, a) in al.iter().enumerate() {
                let k = 2.0 * (j as f64 + 1.0);
                x += a * (k * xi1).sin() * (k * eta1).cosh();
                y += a * (k * xi1).cos() * (k * eta1).sinh();
            }
            Some([500000.0 + 0.9996 * aa * y, 0.9996 * aa * x, p[2]])
        }
        _ => None,
    }
}

fn bits(v: V) -> [u64; 3] { [v[0].to_bits(), v[1].to_bits(), v[2].to_bits()] }
fn a3(v: Vector3<f64>) -> V { [v.x, v.y, v.z] }
fn rand_in(rng: &mut Rng, lo: V, hi: V) -> V { [rng.f64(lo[0], hi[0]), rng.f64(lo[1], hi[1]), rng.f64(lo[2], hi[2])] }

fn single(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    if rng.chance(1, 3) {
        let u = *rng.pick(UNKNOWN);
        let k = rng.pick(CRS).0;
        let (s, t) = if rng.bool() { (u, k) } else { (k, u) };
        obs.step(|| format!("projection {s:?} -> {t:?}"));
        let r = must("Projection::new", || Projection::new(s, t).is_err())?;
        ensure!(r, "Projection::new:unknown", "a projection from {s:?} to {t:?} was made");
        obs.ev("unknown reference system refused");
        return Ok(());
    }
    let target = *rng.pick(&["EPSG:3857", "EPSG:4978", "EPSG:32632"]);
    let source = if target == "EPSG:4978" { "EPSG:4979" } else { "EPSG:4326" };
    obs.step(|| format!("formulas of {source} -> {target}"));
    let p = match must("Projection::new", || Projection::new(source, target))? { Ok(p) => p, Err(e) => return mon::violation("Projection::new:known", format!("{source} to {target}: {e}")) };
    for _ in 0..10 {
        let q = if target == "EPSG:32632" { [rng.f64(-75.0, 80.0), rng.f64(6.1, 11.9), rng.f64(-100.0, 1000.0)] } else { rand_in(rng, CRS[0].1, CRS[0].2) };
        let got = a3(must("transform", || p.transform(Vector3::new(q[0], q[1], q[2])))?);
        let Some(want) = formula(target, q) else { continue };
        for k in 0..3 { ensure!((got[k] - want[k]).abs() <= 1e-3, "transform:formula", "{q:?} from {source} to {target} is {got:?}, the formula gives {want:?}") }
        obs.ev(&format!("formula {target}"));
    }
    // bounds contain the transformed corners, and nothing beyond them
    let (a, b) = (rand_in(rng, [-60.0, 6.5, 0.0], [60.0, 11.5, 500.0]), rand_in(rng, [-60.0, 6.5, 0.0], [60.0, 11.5, 500.0]));
    let lo = [a[0].min(b[0]), a[1].min(b[1]), a[2].min(b[2])];
    let hi = [a[0].max(b[0]), a[1].max(b[1]), a[2].max(b[2])];
    let bb = AABB::from_min_max(Point3::from(Vector3::from(lo)), Point3::from(Vector3::from(hi)));
    let r = must("transform_bounds", || p.transform_bounds(&bb))?;
    let (tl, th) = (a3(p.transform(Vector3::from(lo))), a3(p.transform(Vector3::from(hi))));
    for k in 0..3 {
        ensure!(r.min()[k] == tl[k].min(th[k]) && r.max()[k] == tl[k].max(th[k]), "transform_bounds:corners", "{lo:?} {hi:?} from {source} to {target}: bounds {:?} {:?}, corners {tl:?} {th:?}", r.min(), r.max());
    }
    obs.ev("bounds");
    obs.nontrivial();
    Ok(())
}

/// Kinds of writable buffers
const KINDS: &[&str] = &["VectorBuffer", "HashMapBuffer", "ExternalMemoryBuffer", "interleaved slice", "columnar slice"];

/// Runs `f` on a writable buffer of one kind with these points, returns the points afterwards
macro_rules! with_mut {
    ($kind:expr, $l:expr, $m:expr, $rng:expr, $b:ident => $body:expr) => {{
        let l: &L = $l;
        let m: &[Pt] = $m;
        match $kind {
            0 => { let mut o = vbuf(l, m, $rng); let out = { let $b = &mut o; $body }; (out, snapshot(&o, l)) }
            1 => { let mut o = hbuf(l, m, $rng); let out = { let $b = &mut o; $body }; (out, snapshot(&o, l)) }
            2 => {
                let mut d = l.encode_all(m, $rng);
                let out = { let mut o = ExternalMemoryBuffer::new(&mut d[..], l.layout.clone()); let $b = &mut o; $body };
                let o = ExternalMemoryBuffer::new(d, l.layout.clone());
                (out, snapshot(&o, l))
            }
            k => {
                let pre = $rng.below(3);
                let post = $rng.below(3);
                let mut all = l.rand_pts($rng, pre);
                all.extend_from_slice(m);
                all.extend(l.rand_pts($rng, post));
                let r = pre..pre + m.len();
                let (out, s) = if k == 3 {
                    let mut o = vbuf(l, &all, $rng);
                    let out = { let mut w = o.slice_mut(r.clone()); let $b = &mut w; $body };
                    (out, snapshot(&o, l))
                } else {
                    let mut o = hbuf(l, &all, $rng);
                    let out = { let mut w = o.slice_mut(r.clone()); let $b = &mut w; $body };
                    (out, snapshot(&o, l))
                };
                ensure!(s[..pre] == all[..pre] && s[r.end..] == all[r.end..], "reproject:outside", "points outside of the slice {r:?} changed from {all:?} to {s:?}");
                (out, s[r].to_vec())
            }
        }
    }};
}

fn layout_pos(rng: &mut Rng, with: bool) -> (L, Option<usize>) {
    let mut defs = rand_defs(rng, if with { 0 } else { 1 }, 4, false);
    defs.retain(|d| d.name() != attributes::POSITION_3D.name());
    if !with && defs.is_empty() { defs.push(attributes::INTENSITY) }
    if with { let at = rng.below(defs.len() + 1); defs.insert(at, attributes::POSITION_3D) }
    let (layout, _) = rand_layout_of(rng, &defs);
    let l = L::of(layout);
    let i = l.attrs.iter().position(|a| a.def.name() == attributes::POSITION_3D.name());
    (l, i)
}

fn place(m: &mut [Pt], pi: Option<usize>, ps: &[V]) { if let Some(pi) = pi { for (p, c) in m.iter_mut().zip(ps) { p[pi] = v3(c) } } }
fn pos(p: &Pt, pi: usize) -> V { let v: Vec<f64> = p[pi].chunks_exact(8).map(|c| f64::from_ne_bytes(c.try_into().unwrap())).collect(); [v[0], v[1], v[2]] }

fn clouds(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let mut s = *rng.pick(CRS);
    let mut t = *rng.pick(CRS);
    // systems of three dimensions, where the height takes part
    match rng.below(8) { 0 => { s = CRS[1]; t = CRS[5] } 1 => { s = CRS[5]; t = CRS[1] } 2 => t = CRS[5], _ => () }
    let unknown = rng.chance(1, 12);
    let (sn, tn) = if unknown { let u = *rng.pick(UNKNOWN); if rng.bool() { (u, t.0) } else { (s.0, u) } } else { (s.0, t.0) };
    let n = match rng.below(10) { 0 => 0, 1 => rng.range(30, 80), _ => count(rng, obs, 12).max(1) };
    let mut ps: Vec<V> = (0..n).map(|_| {
        if rng.chance(1, 15) { let x = [f64::NAN, f64::INFINITY, 1e30, 0.0, -91.0][rng.below(5)]; [x, rng.f64(-400.0, 400.0), x] } else { rand_in(rng, s.1, s.2) }
    }).collect();
    // points that agree with the one before them in some coordinates, as columns and repeated points do
    if rng.chance(1, 3) {
        for i in 1..n {
            if rng.bool() {
                let keep = rng.range(1, 7);
                for c in 0..3 { if keep >> c & 1 == 1 { ps[i][c] = ps[i - 1][c] } }
                obs.ev("shared coordinates");
            }
        }
    }
    let k = rng.below(5);
    let has = !rng.chance(1, 12);
    let (l, pi) = layout_pos(rng, has);
    let mut m = l.rand_pts(rng, n);
    place(&mut m, pi, &ps);
    // what the single point transformation says, in another order
    let want: Option<Vec<V>> = if unknown { None } else {
        let p = match must("Projection::new", || Projection::new(sn, tn))? { Ok(p) => p, Err(e) => return mon::violation("Projection::new:known", format!("{sn} to {tn}: {e}")) };
        Some(ps.iter().map(|q| a3(p.transform(Vector3::from(*q)))).collect())
    };
    let check = |what: &str, l: &L, pi: usize, before: &[Pt], after: &[Pt], from: &[V]| -> Verdict {
        ensure!(after.len() == before.len(), format!("{what}:length"), "{} points, {} before", after.len(), before.len());
        for (i, (a, b)) in after.iter().zip(before).enumerate() {
            for j in 0..a.len() {
                if j != pi { ensure!(a[j] == b[j], format!("{what}:other attribute"), "point {i}: {} changed from {:?} to {:?}", l.attrs[j].def, b[j], a[j]) }
            }
            let (got, w) = (pos(a, pi), want.as_ref().unwrap()[i]);
            let same = (0..3).all(|c| got[c].to_bits() == w[c].to_bits() || (got[c].is_nan() && w[c].is_nan()));
            ensure!(same, format!("{what}:position"), "point {i} {:?} from {sn} to {tn} became {got:?} instead of {w:?}", from[i]);
        }
        Ok(())
    };
    if rng.bool() {
        obs.step(|| format!("within {} {sn:?} -> {tn:?}: {ps:?} layout {}", KINDS[k], l.show()));
        let (r, after) = with_mut!(k, &l, &m, rng, b => attempt(|| reproject_point_cloud_within(b, sn, tn)));
        if unknown || pi.is_none() {
            ensure!(r.is_err(), "reproject_within:accepted", "reprojection from {sn:?} to {tn:?}, positions {pi:?}");
            ensure!(after == m, "reproject_within:refused but changed", "{m:?} became {after:?}");
            obs.ev(if unknown { "cloud with unknown system refused" } else { "cloud without positions refused" });
        } else {
            must("reproject_within", || r.unwrap())?;
            check("reproject_within", &l, pi.unwrap(), &m, &after, &ps)?;
            obs.ev("within");
            if n > 0 && sn != tn { obs.nontrivial() }
        }
    } else {
        let k2 = rng.below(5);
        let has2 = !rng.chance(1, 12);
        let n2 = if rng.chance(1, 10) { rng.range(0, n + 2) } else { n };
        let (l2, pi2) = layout_pos(rng, has2);
        let m2 = l2.rand_pts(rng, n2);
        obs.step(|| format!("between {} -> {} {sn:?} -> {tn:?}: {ps:?} layout {}, target of {n2} points, layout {}", KINDS[k], KINDS[k2], l.show(), l2.show()));
        let ((r, after2), after) = with_mut!(k, &l, &m, rng, b => with_mut!(k2, &l2, &m2, rng, b2 => attempt(|| reproject_point_cloud_between(b, b2, sn, tn))));
        ensure!(after == m, "reproject_between:source", "the source changed from {m:?} to {after:?}");
        if unknown || pi.is_none() || pi2.is_none() || n != n2 {
            ensure!(r.is_err(), "reproject_between:accepted", "reprojection from {sn:?} to {tn:?}, positions {pi:?} {pi2:?}, {n} to {n2} points");
            ensure!(after2 == m2, "reproject_between:refused but changed", "{m2:?} became {after2:?}");
            obs.ev(if n != n2 { "different lengths refused" } else if unknown { "cloud with unknown system refused" } else { "cloud without positions refused" });
        } else {
            must("reproject_between", || r.unwrap())?;
            check("reproject_between", &l2, pi2.unwrap(), &m2, &after2, &ps)?;
            obs.ev("between");
            if n > 0 && sn != tn { obs.nontrivial() }
        }
    }
    Ok(())
}

fn p20(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    if rng.chance(1, 5) { single(rng, obs) } else { clouds(rng, obs) }
}

pub const P20: Property = Property {
    id: "P20",
    rule: "clouds of every storage kind reprojected within and between buffers against the transformation of the single points, single points against written out map projection formulas; non-trivial: different reference systems and at least one point",
    assumptions: &["the PROJ library transforms single points deterministically", "formulas are compared up to a millimetre"],
    quick_cases: 6_000,
    thorough_cases: 1_000_000,
    case: p20,
    required_events: &["shared coordinates", "within", "between", "bounds", "formula EPSG:3857", "formula EPSG:4978", "formula EPSG:32632", "unknown reference system refused", "cloud with unknown system refused", "cloud without positions refused", "different lengths refused"],
};
