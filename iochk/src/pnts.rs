//! P25 (3D Tiles point files hold what was written) and P26 (partial reads and seeks)
use crate::any_buffer;
use crate::common::*;
use crate::gen::*;
use crate::io::*;
use crate::num::*;
use crate::with_mut_buffer;
use crate::mutbuf::KINDS;
use iosrc::base::*;
use iosrc::tiles3d::*;
use mon::{attempt, ensure, must, violation, Obs, Property, Rng, Verdict};
use nalgebra::Vector3;
use pasture_core::containers::*;
use pasture_core::layout::PointAttributeDataType as D;
use pasture_core::layout::{attributes, *};
use pasture_core::meta::Metadata;
use serde_json::{json, Map, Value};
use std::io::{BufReader, SeekFrom};

/// The point semantics that pasture supports: name in the file, attribute, type in the file
fn semantics() -> Vec<(&'static str, PointAttributeDefinition, D)> {
    use pasture_core::layout::attributes::*;
    vec![
        ("POSITION", POSITION_3D, D::Vec3f32),
        ("RGBA", iosrc::tiles3d::attributes::COLOR_RGBA, D::Vec4u8),
        ("RGB", COLOR_RGB, D::Vec3u8),
        ("NORMAL", NORMAL, D::Vec3f32),
    ]
}

fn near(a: f64, b: f64, ulps: f64) -> bool {
    a == b || (a - b).abs() <= ulps * f64::EPSILON * a.abs().max(b.abs()) + f64::from_bits(2)
}
fn near3(a: &Vector3<f64>, b: &Vector3<f64>) -> bool {
    (0..3).all(|i| near(a[i], b[i], 3.0))
}

fn rand_center(rng: &mut Rng) -> Vector3<f64> {
    let mut f = || match rng.below(6) {
        0 => 0.0,
        1 => rng.irange(-1000, 1000) as f64,
        2 => rng.f64(-1e7, 1e7),
        3 => rng.f64(-1.0, 1.0) * 1e-8,
        4 => rng.f64(-1e15, 1e15),
        _ => rng.f64(-1e4, 1e4),
    };
    Vector3::new(f(), f(), f())
}

/// What a file holds, from its bytes alone
struct File {
    n: usize,
    center: Option<Vector3<f64>>,
    /// attribute name, its values in the type of the file
    cols: Vec<(PointAttributeDefinition, Vec<Vec<u8>>)>,
}

/// Parses a file as the 3D Tiles specification describes it
fn parse(b: &[u8]) -> Result<File, String> {
    let u = |i: usize| u32::from_le_bytes(b[i..i + 4].try_into().unwrap()) as usize;
    if b.len() < 28 || &b[..4] != b"pnts" { return Err(format!("no header in {} bytes", b.len())) }
    let (version, total, fj, fb, bj, bb) = (u(4), u(8), u(12), u(16), u(20), u(24));
    if version != 1 { return Err(format!("version {version}")) }
    if total != b.len() || total != 28 + fj + fb + bj + bb {
        return Err(format!("declared lengths: total {total} feature table {fj}+{fb} batch table {bj}+{bb}, the file has {} bytes", b.len()));
    }
    let (s1, s2, s3) = (28 + fj, 28 + fj + fb, 28 + fj + fb + bj);
    for (what, at) in [("feature table body", s1), ("batch table", s2), ("batch table body", s3)] {
        if at % 8 != 0 { return Err(format!("the {what} starts at byte {at}")) }
    }
    let head = std::str::from_utf8(&b[28..s1]).map_err(|e| e.to_string())?;
    let v: Value = serde_json::from_str(head).map_err(|e| format!("feature table {head:?}: {e}"))?;
    let Some(o) = v.as_object() else { return Err(format!("feature table {head:?}")) };
    if bj > 0 {
        let t = std::str::from_utf8(&b[s2..s3]).map_err(|e| e.to_string())?;
        let v: Value = serde_json::from_str(t).map_err(|e| format!("batch table {t:?}: {e}"))?;
        if !v.is_object() { return Err(format!("batch table {t:?}")) }
    }
    let Some(n) = o.get("POINTS_LENGTH").and_then(|v| v.as_u64()) else { return Err(format!("no POINTS_LENGTH in {head:?}")) };
    let n = n as usize;
    let center = match o.get("RTC_CENTER") {
        None => None,
        Some(v) => {
            let a: Vec<f64> = v.as_array().map(|a| a.iter().filter_map(|x| x.as_f64()).collect()).unwrap_or_default();
            if a.len() != 3 { return Err(format!("RTC_CENTER {v}")) }
            Some(Vector3::new(a[0], a[1], a[2]))
        }
    };
    let mut cols = vec![];
    let mut used: Vec<(usize, usize)> = vec![];
    for (key, val) in o {
        if key == "POINTS_LENGTH" || key == "RTC_CENTER" { continue }
        let Some((_, def, dt)) = semantics().into_iter().find(|s| s.0 == key) else { return Err(format!("unexpected key {key} in {head:?}")) };
        let Some(off) = val.get("byteOffset").and_then(|v| v.as_u64()) else { return Err(format!("{key} is {val}")) };
        let off = off as usize;
        let (size, _) = size_align(dt);
        let comp = size / comps(dt);
        if off % comp != 0 { return Err(format!("{key} starts at byte {off} of the body")) }
        if off + n * size > fb { return Err(format!("{key} at {off} with {n} points leaves the body of {fb} bytes")) }
        used.push((off, off + n * size));
        cols.push((def.with_custom_datatype(dt), b[s1 + off..s1 + off + n * size].chunks(size).map(|c| c.to_vec()).collect()));
    }
    used.sort();
    if used.windows(2).any(|w| w[0].1 > w[1].0) { return Err(format!("the attributes overlap: {head:?}")) }
    Ok(File { n, center, cols })
}

/// The value of a file's attribute in a target attribute
fn expected(def: &PointAttributeDefinition, v: &[u8], to: D) -> Option<Vec<u8>> {
    reference(def.datatype(), to, v)
}

fn position_ok(to: D, got: &[u8], base: &[u8], c: &Vector3<f64>) -> bool {
    let w = size_align(to).0 / 3;
    (0..3).all(|k| {
        let (g, p) = (&got[k * w..k * w + w], &base[k * w..k * w + w]);
        let (Num::F(g), Num::F(p)) = (load(to, g), load(to, p)) else { return false };
        let want = p + c[k];
        if want.is_nan() { return g.is_nan() }
        let eps = if w == 4 { f32::EPSILON as f64 } else { f64::EPSILON };
        let want_t = if w == 4 { want as f32 as f64 } else { want };
        g == want_t || (g - want).abs() <= 2.0 * eps * want.abs().max(p.abs()).max(c[k].abs()) + 1e-40
    })
}

/// Whether `got` is what reading point `i` of the file into a point that was `old` gives
fn point_ok(f: &File, i: usize, tl: &L, absolute: bool, center: Option<Vector3<f64>>, got: &Pt, old: &Pt) -> Result<(), String> {
    for (k, a) in tl.attrs.iter().enumerate() {
        match f.cols.iter().find(|c| c.0.name() == a.def.name()) {
            None => {
                if got[k] != old[k] { return Err(format!("{}, which is not in the file, changed from {:?} to {:?}", a.def, old[k], got[k])) }
            }
            Some((def, vals)) => {
                let base = expected(def, &vals[i], a.def.datatype()).unwrap();
                let ok = match center {
                    Some(c) if absolute && def.name() == attributes::POSITION_3D.name() => position_ok(a.def.datatype(), &got[k], &base, &c),
                    _ => same(a.def.datatype(), &got[k], &base),
                };
                if !ok { return Err(format!("{} is {:?}; the file has {:?} as {}, center {center:?}, absolute {absolute}", a.def, got[k], vals[i], def.datatype())) }
            }
        }
    }
    Ok(())
}

/// A target for reading `f`; what may be asked of it
#[derive(PartialEq, Clone, Copy, Debug)]
enum Target {
    Fine,
    /// an attribute can't be converted
    Impossible,
    /// a position that no center can be added to
    NoCenter,
}

fn rand_target(f: &File, rng: &mut Rng) -> (L, Target) {
    let mut t = Target::Fine;
    let mut defs: Vec<PointAttributeDefinition> = vec![];
    for (d, _) in &f.cols {
        let pos = d.name() == attributes::POSITION_3D.name();
        match rng.below(8) {
            0 => {}
            1 | 2 => {
                let dt = *rng.pick(&DT);
                if convertible(d.datatype(), dt) {
                    defs.push(d.with_custom_datatype(dt));
                    if pos && f.center.is_some() && !matches!(dt, D::Vec3f32 | D::Vec3f64) && t == Target::Fine { t = Target::NoCenter }
                } else if rng.chance(1, 10) {
                    defs.push(d.with_custom_datatype(dt));
                    t = Target::Impossible;
                } else {
                    defs.push(d.clone())
                }
            }
            3 | 4 if pos => defs.push(d.with_custom_datatype(D::Vec3f64)),
            _ => defs.push(d.clone()),
        }
    }
    let more = rand_defs(rng, 0, 3, false);
    let special: Vec<_> = semantics().into_iter().map(|s| s.1).collect();
    for d in more.into_iter().chain(special) {
        if !f.cols.iter().any(|c| c.0.name() == d.name()) && !defs.iter().any(|x| x.name() == d.name()) && rng.bool() { defs.push(d) }
    }
    if defs.is_empty() { defs.push(PointAttributeDefinition::custom("Filler".into(), D::U16)) }
    rng.shuffle(&mut defs);
    let (pl, _) = rand_layout_of(rng, &defs);
    (L::of(pl), t)
}

type R = PntsReader<BufReader<Source>>;

fn open(bytes: &[u8], rng: &mut Rng) -> Result<anyhow_free::R<R>, mon::Violation> {
    let src = Source::new(bytes.to_vec(), rng);
    open_source(src, rng)
}
fn open_source(src: Source, rng: &mut Rng) -> Result<anyhow_free::R<R>, mon::Violation> {
    let cap = *rng.pick(&[1usize, 3, 16, 64, 8192]);
    let r = must("PntsReader::from_read", || PntsReader::from_read(BufReader::with_capacity(cap, src)))?;
    Ok(r.map_err(|e| format!("{e:#}")))
}
/// Errors as text
mod anyhow_free {
    pub type R<T> = Result<T, String>;
}

fn mode(absolute: bool) -> PntsReadPositionsMode {
    if absolute { PntsReadPositionsMode::Absolute } else { PntsReadPositionsMode::RelativeToCenter }
}

/// What a reader says about its file
fn check_reader(r: &mut R, f: &File) -> Verdict {
    let l = L::of(r.get_default_point_layout().clone());
    let want: Vec<_> = f.cols.iter().map(|c| c.0.clone()).collect();
    ensure!(l.attrs.len() == want.len() && want.iter().all(|d| l.attrs.iter().any(|a| a.def == *d)), "PntsReader:layout", "the file has {want:?}, the reader's layout is {}", l.show());
    let md = r.get_metadata();
    ensure!(md.number_of_points() == Some(f.n), "PntsReader:number_of_points", "{} points, the metadata say {:?}", f.n, md.number_of_points());
    let c = md.get_named_field("RTC_CENTER").and_then(|b| b.downcast_ref::<Vector3<f64>>().copied());
    ensure!(c.is_some() == f.center.is_some() && c.iter().zip(&f.center).all(|(a, b)| near3(a, b)), "PntsReader:RTC_CENTER", "the center is {:?}, the metadata say {c:?}", f.center);
    let n = must("point_count", || r.point_count())?;
    ensure!(matches!(n, Ok(k) if k == f.n), "point_count", "{} points, point_count says {n:?}", f.n);
    Ok(())
}

/// One read_into call at point `at`; gives the number of points read, or `None` after an error
fn read_into(r: &mut R, f: &File, at: usize, absolute: bool, count: usize, rng: &mut Rng, obs: &mut Obs) -> Result<Option<usize>, mon::Violation> {
    let k = count.min(f.n - at);
    let (tl, t) = rand_target(f, rng);
    let m0 = count + rng.below(4);
    let m = tl.rand_pts(rng, m0);
    let kind = rng.below(5);
    obs.step(|| format!("read_into {} of {m0} points {}: {count} at {at}, absolute {absolute}", KINDS[kind], tl.show()));
    let (res, s) = with_mut_buffer!(kind, &tl, &m, rng, b => must("read_into", || r.read_into(b, count))?);
    let bad = k > 0 && (t == Target::Impossible || (t == Target::NoCenter && absolute));
    match res {
        Err(e) => {
            if k == 0 && t != Target::Fine { return Ok(None) }
            ensure!(bad, "read_into:error", "reading {count} at point {at} of {} is an error: {e:#}", f.n);
            if t == Target::Impossible { ensure!(s == m, "read_into:impossible conversion:changed", "a refused read changed {m:?} to {s:?}") }
            ensure!(s[k..] == m[k..], "read_into:error:beyond", "a failing read of {k} points changed points beyond: {m:?} to {s:?}");
            obs.ev(if t == Target::Impossible { "impossible_refused" } else { "center_refused" });
            Ok(None)
        }
        Ok(c) => {
            ensure!(!bad, "read_into:impossible conversion", "the file was read into {} ({t:?})", tl.show());
            ensure!(c == k, "read_into:count", "reading {count} at point {at} of {} reports {c}", f.n);
            for (j, (g, o)) in s.iter().zip(&m).enumerate() {
                if j >= k {
                    ensure!(g == o, "read_into:beyond", "point {j} changed from {o:?} to {g:?} though {c} points were read");
                } else if let Err(e) = point_ok(f, at + j, &tl, absolute, f.center, g, o) {
                    return violation("read_into:value", format!("point {} of the file as point {j} of a {}: {e}", at + j, KINDS[kind]));
                }
            }
            obs.evn("points_read", k as u64);
            if f.center.is_some() && k > 0 && f.cols.iter().any(|c| c.0.name() == attributes::POSITION_3D.name()) { obs.ev(if absolute { "absolute" } else { "relative" }) }
            obs.ev(&format!("into_{}", KINDS[kind].replace(' ', "_")));
            Ok(Some(k))
        }
    }
}

/// One read call
fn read_new(r: &mut R, f: &File, at: usize, absolute: bool, count: usize, rng: &mut Rng, obs: &mut Obs) -> Result<usize, mon::Violation> {
    let k = count.min(f.n - at);
    let rl = L::of(r.get_default_point_layout().clone());
    obs.step(|| format!("read {count} at {at}, absolute {absolute}"));
    let got = if rng.bool() {
        match must("read", || r.read::<VectorBuffer>(count))? { Ok(b) => Ok(snapshot(&b, &rl)), Err(e) => Err(e) }
    } else {
        match must("read", || r.read::<HashMapBuffer>(count))? { Ok(b) => Ok(snapshot(&b, &rl)), Err(e) => Err(e) }
    };
    match got {
        Err(e) => violation("read:error", format!("reading {count} at point {at} of {} is an error: {e:#}", f.n)),
        Ok(s) => {
            ensure!(s.len() == k, "read:count", "reading {count} at point {at} of {} gives {} points", f.n, s.len());
            for (j, g) in s.iter().enumerate() {
                if let Err(e) = point_ok(f, at + j, &rl, absolute, f.center, g, &rl.zero()) {
                    return violation("read:value", format!("point {} of the file: {e}", at + j));
                }
            }
            obs.evn("points_read", k as u64);
            Ok(k)
        }
    }
}

pub fn p25(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    // a layout with some of the supported attributes, in types that can be converted, and others
    let mut defs: Vec<PointAttributeDefinition> = vec![];
    let exact = rng.chance(1, 5);
    for (_, d, dt) in semantics() {
        if rng.chance(2, 3) {
            let t = if exact || rng.bool() { dt } else { *rng.pick(&DT) };
            defs.push(d.with_custom_datatype(if convertible(t, dt) { t } else { dt }));
        }
    }
    if !exact {
        for d in rand_defs(rng, 0, 4, false) {
            if !semantics().iter().any(|s| s.1.name() == d.name()) { defs.push(d) }
        }
    }
    if defs.is_empty() { defs.push(attributes::POSITION_3D) }
    rng.shuffle(&mut defs);
    let (pl, how) = if exact && rng.bool() { (PointLayout::from_attributes(&defs), "natural") } else { rand_layout_of(rng, &defs) };
    let l = L::of(pl);
    obs.step(|| format!("layout {how} {}", l.show()));

    let sink = if rng.chance(1, 12) { let at = rng.below(600); Sink::failing(rng, at) } else { Sink::new(rng) };
    // the file may start anywhere in the output
    let lead = if rng.chance(1, 6) { rng.range(1, 40) } else { 0 };
    sink.lead(lead);
    let out = sink.clone();
    let mut w = must("PntsWriter::from_write_and_layout", || PntsWriter::from_write_and_layout(sink, l.layout.clone()))?;
    let center = if rng.chance(1, 2) { Some(rand_center(rng)) } else { None };
    if let Some(c) = center {
        obs.step(|| format!("center {c:?}"));
        w.set_rtc_center(c);
    }
    let dl = L::of(w.get_default_point_layout().clone());
    let sup: Vec<PointAttributeDefinition> = semantics().into_iter().filter(|s| l.attrs.iter().any(|a| a.def.name() == s.1.name())).map(|s| s.1.with_custom_datatype(s.2)).collect();
    ensure!(dl.attrs.len() == sup.len() && sup.iter().all(|d| dl.attrs.iter().any(|a| a.def == *d)), "PntsWriter:layout", "a writer for {} has the layout {}", l.show(), dl.show());

    let mut all: Vec<Pt> = vec![];
    let steps = rng.range(0, 5);
    let mut dropped = false;
    let mut broken = false;
    for i in 0..=steps {
        let last = i == steps;
        if !last && rng.chance(2, 3) {
            let n = if rng.chance(1, 40) { rng.range(100, 2000) } else { count(rng, obs, 12).min(9000) };
            let m = l.rand_pts(rng, n);
            let r = any_buffer!(&l, &m, rng, b, who => {
                obs.step(|| format!("write {who} {}", if m.len() > 20 { format!("{} points", m.len()) } else { format!("{m:?}") }));
                let r = must("PntsWriter::write", || w.write(b).is_ok())?;
                unchanged("PntsWriter::write", b, &l, &m)?;
                obs.ev(&format!("src_{}", who.replace(' ', "_")));
                r
            });
            ensure!(r, "PntsWriter::write", "writing {} points is an error", m.len());
            all.extend(m);
        } else if last && rng.bool() && !out.will_fail() {
            // dropping the writer writes what is missing
            obs.step(|| "drop".into());
            dropped = true;
            break;
        } else {
            obs.step(|| "flush".into());
            let r = must("PntsWriter::flush", || w.flush().is_ok())?;
            if out.failed() {
                ensure!(!r, "PntsWriter::flush:lost output", "the output failed, flush reported nothing");
                obs.ev("output_failed");
                broken = true;
                break;
            }
            ensure!(r, "PntsWriter::flush", "flushing {} points is an error", all.len());
            check_file(&out, lead, &l, &all, center, obs)?;
            if i < steps { obs.ev("flush_in_between") }
        }
    }
    if broken {
        std::mem::forget(w);
        return Ok(());
    }
    must("drop of PntsWriter", move || drop(w))?;
    if dropped { obs.ev("flushed_by_drop") }
    let f = check_file(&out, lead, &l, &all, center, obs)?;

    // and back, in both modes
    let bytes = out.bytes()[lead..].to_vec();
    for absolute in [true, false] {
        let mut r = match open(&bytes, rng)? {
            Ok(r) => r,
            Err(e) => return violation("PntsReader::from_read", format!("the file that was written can't be read: {e}")),
        };
        ensure!(matches!(r.read_positions_mode(), PntsReadPositionsMode::Absolute), "read_positions_mode", "positions are not absolute by default");
        if !absolute { r.set_read_positions_mode(mode(false)) }
        check_reader(&mut r, &f)?;
        if rng.bool() {
            let n = f.n + rng.below(3);
            read_new(&mut r, &f, 0, absolute, n, rng, obs)?;
        } else {
            let n = f.n + rng.below(3);
            read_into(&mut r, &f, 0, absolute, n, rng, obs)?;
        }
    }
    if !all.is_empty() { obs.nontrivial() }
    Ok(())
}

/// What is in the output after a flush
fn check_file(out: &Sink, lead: usize, l: &L, all: &[Pt], center: Option<Vector3<f64>>, obs: &mut Obs) -> Result<File, mon::Violation> {
    let (a, b) = (out.flushed(), out.bytes());
    ensure!(a == b, "PntsWriter::flush:underlying", "after the flush {} of {} bytes are flushed", a.len(), b.len());
    ensure!(b.len() >= lead && b[..lead].iter().all(|x| *x == 0xEE), "PntsWriter:before the file", "bytes before the start of the file changed");
    let f = match parse(&b[lead..]) {
        Ok(f) => f,
        Err(e) => return violation("file", format!("{} points written: {e}", all.len())),
    };
    ensure!(f.n == all.len(), "file:points", "{} points were written, the file has {}", all.len(), f.n);
    ensure!(f.center.is_some() == center.is_some() && f.center.iter().zip(&center).all(|(a, b)| near3(a, b)), "file:center", "center {center:?}, in the file {:?}", f.center);
    for (key, def, dt) in semantics() {
        let src = l.attrs.iter().position(|a| a.def.name() == def.name());
        let col = f.cols.iter().find(|c| c.0.name() == def.name());
        match (src, col) {
            (None, None) => {}
            (Some(i), Some((_, vals))) => {
                for (j, (v, p)) in vals.iter().zip(all).enumerate() {
                    let want = reference(l.attrs[i].def.datatype(), dt, &p[i]).unwrap();
                    ensure!(same(dt, v, &want), format!("file:{key}"), "{key} of point {j} is {v:?}, want {want:?} from {:?} ({})", p[i], l.attrs[i].def);
                    obs.evn("values_in_file", 1);
                }
            }
            (s, c) => return violation(format!("file:{key}"), format!("{key}: in the cloud {}, in the file {}", s.is_some(), c.is_some())),
        }
    }
    Ok(f)
}

/// A file as another program might write it
fn build(rng: &mut Rng) -> (Vec<u8>, File) {
    let n = match rng.below(8) {
        0 => 0,
        1 => 1,
        _ => rng.range(1, 20),
    };
    let mut sem: Vec<_> = semantics().into_iter().filter(|_| rng.chance(3, 4)).collect();
    rng.shuffle(&mut sem);
    let mut body: Vec<u8> = vec![];
    let mut o = Map::new();
    let mut cols = vec![];
    for (key, def, dt) in sem {
        let (size, _) = size_align(dt);
        let al = size / comps(dt);
        let gap = rng.below(3) * 4;
        body.extend(rng.bytes(gap));
        while body.len() % al != 0 { body.push(0xAA) }
        let vals: Vec<Vec<u8>> = (0..n).map(|_| rand_value(rng, dt)).collect();
        let mut r = Map::new();
        r.insert("byteOffset".into(), json!(body.len()));
        if rng.chance(1, 4) { r.insert("componentType".into(), json!(if al == 4 { "FLOAT" } else { "UNSIGNED_BYTE" })); }
        o.insert(key.into(), Value::Object(r));
        body.extend(vals.iter().flatten());
        cols.push((def.with_custom_datatype(dt), vals));
    }
    o.insert("POINTS_LENGTH".into(), json!(n));
    let center = if rng.chance(1, 2) {
        let c = if rng.chance(1, 4) { Vector3::new(rng.irange(-50, 50) as f64, 0.0, rng.irange(-50, 50) as f64) } else { rand_center(rng) };
        // integers are numbers too
        let j = |x: f64| if x.fract() == 0.0 && x.abs() < 1e9 { json!(x as i64) } else { json!(x) };
        o.insert("RTC_CENTER".into(), json!([j(c.x), j(c.y), j(c.z)]));
        Some(c)
    } else {
        None
    };
    if rng.chance(1, 6) { o.insert("CONSTANT_RGBA".into(), json!([1, 2, 255, 0])); }
    if rng.chance(1, 6) { o.insert("BATCH_LENGTH".into(), json!(rng.below(9))); }
    if rng.chance(1, 6) {
        o.insert("QUANTIZED_VOLUME_OFFSET".into(), json!([1.5, -2.0, 3]));
        o.insert("QUANTIZED_VOLUME_SCALE".into(), json!([0.5, 2.0, 3.25]));
    }
    let mut head = serde_json::to_string(&Value::Object(o)).unwrap().into_bytes();
    // most programs pad the header, not all of them
    let pad = rng.chance(5, 6);
    while pad && (28 + head.len()) % 8 != 0 { head.push(b' ') }
    while (28 + head.len() + body.len()) % 8 != 0 { body.push(0) }
    let batch: &[u8] = if rng.bool() { b"{}      " } else { b"" };
    let mut b = b"pnts".to_vec();
    for x in [1, 28 + head.len() + body.len() + batch.len(), head.len(), body.len(), batch.len(), 0] {
        b.extend((x as u32).to_le_bytes());
    }
    b.extend(&head);
    b.extend(&body);
    b.extend(batch);
    (b, File { n, center, cols })
}

pub fn p26(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let (bytes, f) = build(rng);
    obs.step(|| format!("{} points {:?} center {:?}", f.n, f.cols.iter().map(|c| c.0.to_string()).collect::<Vec<_>>(), f.center));
    obs.mix(&bytes);
    if rng.chance(1, 12) {
        // a damaged file: what can be read of it is right, the rest is an error
        let mut b = bytes.clone();
        let what = rng.below(3);
        match what {
            0 => b[rng.below(4)] ^= 1 << rng.below(8),
            1 => { let at = rng.below(b.len()); b.truncate(at) }
            _ => {}
        }
        let needed = {
            let u = |i: usize| u32::from_le_bytes(bytes[i..i + 4].try_into().unwrap()) as usize;
            28 + u(12)
        };
        let at = rng.below(bytes.len());
        let src = if what == 2 { Source::failing(b.clone(), rng, at) } else { Source::new(b.clone(), rng) };
        let failed = src.failed.clone();
        obs.step(|| format!("damage {what}: {} of {} bytes, source fails at {at}", b.len(), bytes.len()));
        let r = open_source(src, rng)?;
        match r {
            Err(_) => {
                ensure!(what == 0 || (what == 1 && b.len() < needed) || (what == 2 && *failed.borrow()), "PntsReader::from_read", "a good file can't be opened");
                obs.ev("damaged_refused");
            }
            Ok(mut r) => {
                ensure!(what != 0, "PntsReader:magic", "a file that starts with {:?} was opened", &b[..4]);
                ensure!(what != 1 || b.len() >= needed, "PntsReader:truncated", "a file of {} bytes without its whole header was opened", b.len());
                let rl = L::of(r.get_default_point_layout().clone());
                match must("read", || r.read::<VectorBuffer>(f.n))? {
                    Err(_) => obs.ev("damaged_refused"),
                    Ok(v) => {
                        ensure!(!*failed.borrow(), "read:lost input", "the source failed, no error was reported");
                        ensure!(v.len() == f.n, "read:truncated", "{} of {} points were read from {} of {} bytes", v.len(), f.n, b.len(), bytes.len());
                        for (j, g) in snapshot(&v, &rl).iter().enumerate() {
                            if let Err(e) = point_ok(&f, j, &rl, true, f.center, g, &rl.zero()) {
                                return violation("read:damaged", format!("point {j} of a damaged file: {e}"));
                            }
                        }
                    }
                }
            }
        }
        return Ok(());
    }
    let mut r = match open(&bytes, rng)? {
        Ok(r) => r,
        Err(e) => return violation("PntsReader::from_read", format!("a good file can't be opened: {e}")),
    };
    check_reader(&mut r, &f)?;
    let mut at = 0usize;
    let mut absolute = true;
    for _ in 0..rng.range(1, 14) {
        match rng.below(10) {
            0..=3 => {
                let count = if rng.chance(1, 6) { f.n + rng.below(4) } else { rng.below(7) };
                match read_into(&mut r, &f, at, absolute, count, rng, obs)? {
                    Some(k) => at += k,
                    // the position after an error is left open
                    None => {
                        at = rng.below(f.n + 1);
                        let g = must("seek_point", || r.seek_point(SeekFrom::Start(at as u64)))?;
                        ensure!(matches!(g, Ok(x) if x == at), "seek_point", "Start({at}) of {} after an error gives {g:?}", f.n);
                    }
                }
            }
            4 | 5 => {
                let count = if rng.chance(1, 6) { f.n + rng.below(4) } else { rng.below(7) };
                at += read_new(&mut r, &f, at, absolute, count, rng, obs)?;
            }
            6 | 7 => {
                let far = rng.chance(1, 5);
                let d = if far { *rng.pick(&[i64::MAX, i64::MIN, 1 << 40, -(1 << 40), i64::MAX - 1, i64::MIN + 1]) } else { rng.irange(-8, 8) };
                let (to, t) = match rng.below(3) {
                    0 => {
                        let s = if far { *rng.pick(&[u64::MAX, 1 << 40, i64::MAX as u64 + 1]) } else { rng.below(f.n + 4) as u64 };
                        (SeekFrom::Start(s), s as i128)
                    }
                    1 => (SeekFrom::End(d), f.n as i128 + d as i128),
                    _ => (SeekFrom::Current(d), at as i128 + d as i128),
                };
                obs.step(|| format!("seek {to:?} at {at}"));
                let g = must("seek_point", || r.seek_point(to))?;
                if t < 0 {
                    // before the first point: an error, or the first point
                    match g {
                        Err(_) => obs.ev("seek_refused"),
                        Ok(x) => {
                            ensure!(x == 0, "seek_point", "{to:?} at {at} of {} gives {x}", f.n);
                            at = 0;
                        }
                    }
                } else {
                    let want = t.min(f.n as i128) as usize;
                    ensure!(matches!(g, Ok(x) if x == want), "seek_point", "{to:?} at {at} of {} gives {g:?}", f.n);
                    at = want;
                    obs.ev("seek");
                }
            }
            8 => {
                absolute = rng.bool();
                r.set_read_positions_mode(mode(absolute));
                ensure!(matches!(r.read_positions_mode(), PntsReadPositionsMode::Absolute) == absolute, "read_positions_mode", "set to absolute {absolute}");
            }
            _ => {
                let n = must("point_count", || r.point_count())?;
                ensure!(matches!(n, Ok(k) if k == f.n), "point_count", "{} points, point_count says {n:?}", f.n);
            }
        }
        let p = must("point_index", || r.point_index())?;
        ensure!(matches!(p, Ok(k) if k == at), "point_index", "should be at point {at} of {}, is at {p:?}", f.n);
    }
    if f.n > 0 && !f.cols.is_empty() { obs.nontrivial() }
    Ok(())
}

pub const P25: Property = Property {
    id: "P25",
    rule: "clouds with any of the supported attributes in convertible types and others, in every kind of buffer, written in several writes with flushes in between and at the end or by dropping the writer, to sinks that take few bytes at a time, hold data back until a flush, or fail, at any position of the output; the bytes are parsed independently after every flush and the file is read back in both modes into many targets; non-trivial: points were written",
    assumptions: &[
        "supported attributes have datatypes that can be converted to those of the format; the center is finite and set before the first write",
        "JSON numbers keep doubles to 3 ulp",
    ],
    quick_cases: 100_000,
    thorough_cases: 5_000_000,
    case: p25,
    required_events: &["values_in_file", "points_read", "absolute", "relative", "flush_in_between", "flushed_by_drop", "output_failed", "src_VectorBuffer", "src_HashMapBuffer", "src_ExternalMemoryBuffer", "src_columnar_slice", "impossible_refused", "center_refused"],
};

pub const P26: Property = Property {
    id: "P26",
    rule: "point files built byte by byte as the format allows (order, gaps, further header entries, padding), read by random histories of reads, reads into targets of every kind and layout, seeks (also far out of range), mode changes and position queries against a cursor model; truncated, damaged and failing sources; non-trivial: a file with points and attributes",
    assumptions: &["seeking before the first point is an error or goes to the first point; where a reader stands after an error is left open"],
    quick_cases: 200_000,
    thorough_cases: 10_000_000,
    case: p26,
    required_events: &["points_read", "absolute", "relative", "seek", "seek_refused", "damaged_refused", "impossible_refused", "center_refused", "into_VectorBuffer", "into_HashMapBuffer", "into_ExternalMemoryBuffer", "into_interleaved_slice", "into_columnar_slice"],
};
