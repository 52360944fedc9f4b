//! Partial reads and seeks in LAS and LAZ files that were built byte by byte
use crate::common::*;
use crate::gen::*;
use crate::io::*;
use crate::model::*;
use crate::mutbuf::KINDS;
use crate::num::*;
use crate::{any_buffer, with_mut_buffer};
use mon::*;
use pasture_core::containers::*;
use pasture_core::layout::attributes::*;
use pasture_core::layout::PointAttributeDataType as D;
use pasture_core::layout::*;
use pasture_io::base::{PointReader, SeekToPoint};
use pasture_io::las::LASReader;
use std::io::{BufReader, SeekFrom};

pub type R = LASReader<'static, BufReader<Source>>;

pub fn open(src: Source, compressed: bool, exact: bool, rng: &mut Rng) -> Result<Result<R, String>, Violation> {
    let cap = *rng.pick(&[1usize, 3, 16, 64, 8192]);
    let r = must("LASReader::from_read", || LASReader::from_read(BufReader::with_capacity(cap, src), compressed, exact))?;
    Ok(r.map_err(|e| format!("{e:#}")))
}

pub fn check_reader(r: &mut R, f: &Las, exact: bool) -> Verdict {
    let l = L::of(r.get_default_point_layout().clone());
    let want = f.fields(exact);
    ensure!(l.attrs.len() == want.len() && want.iter().all(|w| l.attrs.iter().any(|a| a.def == w.def)), "LASReader:layout", "the file has {:?}, the reader's layout is {}", want.iter().map(|w| w.def.to_string()).collect::<Vec<_>>(), l.show());
    if exact {
        let mut at = 0;
        for (a, w) in l.attrs.iter().zip(&want) {
            ensure!(a.def == w.def && a.off == at, "LASReader:exact layout", "byte {at} of the records is {}, the layout is {}", w.def, l.show());
            at += a.size;
        }
        ensure!(l.size == at, "LASReader:exact layout", "records of {at} bytes, points of {}", l.size);
    }
    ensure!(r.get_metadata().number_of_points() == Some(f.n), "LASReader:number_of_points", "{} points, the metadata say {:?}", f.n, r.get_metadata().number_of_points());
    ensure!(r.remaining_points() == f.n, "remaining_points", "{} points, {} remain at the start", f.n, r.remaining_points());
    let n = must("point_count", || r.point_count())?;
    ensure!(matches!(n, Ok(k) if k == f.n), "point_count", "{} points, point_count says {n:?}", f.n);
    let b = r.get_metadata().bounds();
    let Some(b) = b else { return violation("LASReader:bounds", "no bounds") };
    let (x, y) = (b.min(), b.max());
    ensure!([x.x, x.y, x.z] == f.min && [y.x, y.y, y.z] == f.max, "LASReader:bounds", "bounds {:?} to {:?}, the metadata say {b:?}", f.min, f.max);
    Ok(())
}

/// A layout to read into, and whether that is impossible
pub fn rand_target(f: &Las, exact: bool, rng: &mut Rng) -> (L, bool) {
    if rng.chance(1, 6) {
        // the layout of the records, or the other default
        let defs: Vec<_> = f.fields(rng.bool()).into_iter().map(|x| x.def).collect();
        return (L::of(PointLayout::from_attributes_packed(&defs, 1)), false);
    }
    let mut bad = false;
    let mut defs: Vec<PointAttributeDefinition> = vec![];
    for x in f.known() {
        if x.at == Place::World {
            match rng.below(8) {
                0 => {}
                1 if rng.chance(1, 8) => { let dt = *rng.pick(&DT); bad |= !matches!(dt, D::Vec3f64 | D::Vec3f32); defs.push(x.def.with_custom_datatype(dt)) }
                2 | 3 => defs.push(x.def.with_custom_datatype(D::Vec3f32)),
                _ => defs.push(x.def.clone()),
            }
            continue;
        }
        match rng.below(8) {
            0 | 1 => {}
            2 | 3 => {
                let dt = *rng.pick(&DT);
                if convertible(x.def.datatype(), dt) {
                    defs.push(x.def.with_custom_datatype(dt))
                } else if rng.chance(1, 25) {
                    defs.push(x.def.with_custom_datatype(dt));
                    bad = true
                } else {
                    defs.push(x.def.clone())
                }
            }
            _ => defs.push(x.def.clone()),
        }
    }
    let known = f.known();
    for d in rand_defs(rng, 0, 3, false) {
        if !known.iter().any(|c| c.def.name() == d.name()) { defs.push(d) }
    }
    for x in fields(rng.below(11) as u8, &[], rng.bool()) {
        // attributes of other formats
        if rng.chance(1, 6) && !known.iter().any(|c| c.def.name() == x.def.name()) && !defs.iter().any(|d| d.name() == x.def.name()) { defs.push(x.def) }
    }
    if defs.is_empty() { defs.push(PointAttributeDefinition::custom("Filler".into(), D::U16)) }
    let _ = exact;
    rng.shuffle(&mut defs);
    let (pl, _) = rand_layout_of(rng, &defs);
    (L::of(pl), bad)
}

pub struct File<'a> { pub f: &'a Las, pub known: Vec<Field>, pub exact: bool }

/// One read_into call at point `at`; gives the number of points read, or `None` after an error
pub fn read_into(r: &mut R, x: &File, at: usize, count: usize, rng: &mut Rng, obs: &mut Obs) -> Result<Option<usize>, Violation> {
    let f = x.f;
    let k = count.min(f.n - at);
    let (tl, bad) = rand_target(f, x.exact, rng);
    let m0 = count + rng.below(4);
    let m = tl.rand_pts(rng, m0);
    let kind = rng.below(5);
    obs.step(|| format!("read_into {} of {m0} points {}: {count} at {at}", KINDS[kind], tl.show()));
    let (res, s) = with_mut_buffer!(kind, &tl, &m, rng, b => must("read_into", || r.read_into(b, count))?);
    match res {
        Err(e) => {
            ensure!(bad, "read_into:error", "reading {count} at point {at} of {} is an error: {e:#}", f.n);
            ensure!(s == m, "read_into:impossible conversion:changed", "a refused read changed {m:?} to {s:?}");
            obs.ev("impossible_refused");
            Ok(None)
        }
        Ok(c) => {
            ensure!(!bad || k == 0, "read_into:impossible conversion", "the file was read into {}", tl.show());
            ensure!(c == k, "read_into:count", "reading {count} at point {at} of {} reports {c}", f.n);
            for (j, (g, o)) in s.iter().zip(&m).enumerate() {
                if j >= k {
                    ensure!(g == o, "read_into:beyond", "point {j} changed from {o:?} to {g:?} though {c} points were read");
                } else if let Err(e) = point_ok(f, &x.known, &f.recs[at + j], &tl, g, o) {
                    return violation("read_into:value", format!("point {} of the file as point {j} of a {}: {e}", at + j, KINDS[kind]));
                }
            }
            obs.evn("points_read", k as u64);
            if k > 15000 { obs.ev("large_read") }
            if k > 0 { obs.ev(&format!("into_{}", KINDS[kind].replace(' ', "_"))); }
            Ok(Some(k))
        }
    }
}

/// One read call
pub fn read_new(r: &mut R, x: &File, at: usize, count: usize, rng: &mut Rng, obs: &mut Obs) -> Result<usize, Violation> {
    let f = x.f;
    let k = count.min(f.n - at);
    let rl = L::of(r.get_default_point_layout().clone());
    obs.step(|| format!("read {count} at {at}"));
    let got = if rng.bool() {
        match must("read", || r.read::<VectorBuffer>(count))? { Ok(b) => Ok(snapshot(&b, &rl)), Err(e) => Err(e) }
    } else {
        match must("read", || r.read::<HashMapBuffer>(count))? { Ok(b) => Ok(snapshot(&b, &rl)), Err(e) => Err(e) }
    };
    match got {
        Err(e) => violation("read:error", format!("reading {count} at point {at} of {} is an error: {e:#}", f.n)),
        Ok(s) => {
            ensure!(s.len() == k, "read:count", "reading {count} at point {at} of {} gives {} points", f.n, s.len());
            for (j, g) in s.iter().enumerate() {
                let rec = &f.recs[at + j];
                if let Err(e) = point_ok(f, &x.known, rec, &rl, g, &rl.zero()) {
                    return violation("read:value", format!("point {} of the file: {e}", at + j));
                }
                if x.exact { ensure!(g.concat() == *rec, "read:exact", "point {} of the file is {rec:?}, was read as {g:?}", at + j) }
            }
            obs.evn("points_read", k as u64);
            if k > 15000 { obs.ev("large_read") }
            if x.exact && k > 0 { obs.ev("exact_records") }
            Ok(k)
        }
    }
}

pub fn p30(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let compressed = rng.chance(1, 3);
    let large = rng.chance(1, 2000);
    let n = match rng.below(8) { _ if large => rng.range(16_000, 60_000), 0 => 0, 1 => 1, _ => rng.range(1, 20) };
    let bytes = build(rng, compressed, n);
    let f = parse(&bytes, compressed).expect("a file of this program's own");
    let exact = rng.bool();
    obs.step(|| format!("{n} points of format {} in 1.{} compressed {compressed} exact {exact} scale {:?} offset {:?} extras {:?}", f.fmt, f.minor, f.scale, f.offset, f.extras.iter().map(|d| d.to_string()).collect::<Vec<_>>()));
    obs.mix(&bytes[..bytes.len().min(3000)]);
    let x = File { known: f.known(), f: &f, exact };
    if !large && rng.chance(1, 12) {
        let mut b = bytes.clone();
        let what = rng.below(3);
        let at = rng.below(bytes.len());
        match what {
            0 => b[rng.below(4)] ^= 1 << rng.below(8),
            1 => b.truncate(at),
            _ => {}
        }
        // all but the points, and padding before them
        let needed = u16::from_le_bytes([bytes[94], bytes[95]]) as usize + f.vlrs.iter().map(|v| 54 + v.data.len()).sum::<usize>();
        let src = if what == 2 { Source::failing(b.clone(), rng, at) } else { Source::new(b.clone(), rng) };
        let failed = src.failed.clone();
        obs.step(|| format!("damage {what}: {} of {} bytes, source fails at {at}", b.len(), bytes.len()));
        match open(src, compressed, exact, rng)? {
            Err(e) => {
                ensure!(what != 2 || *failed.borrow(), "LASReader::from_read", "a good file can't be opened: {e}");
                obs.ev("damaged_refused");
            }
            Ok(mut r) => {
                ensure!(what != 0, "LASReader:signature", "a file that starts with {:?} was opened", &b[..4]);
                ensure!(what != 1 || b.len() >= needed, "LASReader:truncated", "a file of {} bytes without its whole header was opened", b.len());
                let rl = L::of(r.get_default_point_layout().clone());
                let k = rng.range(0, f.n);
                match must("read", || r.read::<VectorBuffer>(k))? {
                    Err(_) => obs.ev("damaged_refused"),
                    Ok(v) => {
                        ensure!(v.len() == k, "read:truncated", "{} of {k} points were read from {} of {} bytes", v.len(), b.len(), bytes.len());
                        for (j, g) in snapshot(&v, &rl).iter().enumerate() {
                            if let Err(e) = point_ok(&f, &x.known, &f.recs[j], &rl, g, &rl.zero()) {
                                return violation("read:damaged", format!("point {j} of a damaged file: {e}"));
                            }
                        }
                        let have = b.len().min(at.max(if what == 1 { 0 } else { usize::MAX }));
                        ensure!(what != 1 || k == 0 || have >= f.at + k * f.recs[0].len(), "read:truncated", "{k} points were read from {} of {} bytes", b.len(), bytes.len());
                    }
                }
            }
        }
        return Ok(());
    }
    let src = Source::new(bytes.clone(), rng);
    let mut r = match open(src, compressed, exact, rng)? {
        Ok(r) => r,
        Err(e) => return violation("LASReader::from_read", format!("a good file can't be opened: {e}")),
    };
    check_reader(&mut r, &f, exact)?;
    let mut at = 0usize;
    let steps = if large { rng.range(1, 4) } else { rng.range(1, 12) };
    for _ in 0..steps {
        let count = if large { if rng.chance(1, 4) { rng.below(100) } else { rng.range(14_000, f.n + 3) } } else if rng.chance(1, 6) { f.n + rng.below(4) } else { rng.below(7) };
        match rng.below(10) {
            0..=3 => match read_into(&mut r, &x, at, count, rng, obs)? {
                Some(k) => at += k,
                // where the reader stands after an error is left open
                None => {
                    at = rng.below(f.n + 1);
                    let other = must("seek_point", || r.seek_point(SeekFrom::Start(if at == 0 { f.n as u64 } else { 0 })))?;
                    let g = must("seek_point", || r.seek_point(SeekFrom::Start(at as u64)))?;
                    ensure!(other.is_ok() && matches!(g, Ok(x) if x == at), "seek_point", "Start({at}) of {} after an error gives {g:?}", f.n);
                }
            },
            4 | 5 => at += read_new(&mut r, &x, at, count, rng, obs)?,
            6..=8 => {
                let far = rng.chance(1, 5);
                let reach = if large { f.n as i64 } else { 8 };
                let d = if far { *rng.pick(&[i64::MAX, i64::MIN, 1 << 40, -(1 << 40), i64::MAX - 1, i64::MIN + 1]) } else { rng.irange(-reach, reach) };
                let (to, t) = match rng.below(3) {
                    0 => {
                        let s = if far { *rng.pick(&[u64::MAX, 1 << 40, i64::MAX as u64 + 1]) } else { rng.below(f.n + 4) as u64 };
                        (SeekFrom::Start(s), s as i128)
                    }
                    1 => (SeekFrom::End(d), f.n as i128 + d as i128),
                    _ => (SeekFrom::Current(d), at as i128 + d as i128),
                };
                obs.step(|| format!("seek {to:?} at {at}"));
                let g = must("seek_point", || r.seek_point(to))?;
                if t < 0 {
                    match g {
                        Err(_) => obs.ev("seek_refused"),
                        Ok(x) => {
                            ensure!(x == 0, "seek_point", "{to:?} at {at} of {} gives {x}", f.n);
                            at = 0;
                        }
                    }
                } else {
                    let want = t.min(f.n as i128) as usize;
                    ensure!(matches!(g, Ok(x) if x == want), "seek_point", "{to:?} at {at} of {} gives {g:?}", f.n);
                    at = want;
                    obs.ev("seek");
                }
            }
            _ => {
                let n = must("point_count", || r.point_count())?;
                ensure!(matches!(n, Ok(k) if k == f.n), "point_count", "{} points, point_count says {n:?}", f.n);
            }
        }
        let p = must("point_index", || r.point_index())?;
        ensure!(matches!(p, Ok(k) if k == at), "point_index", "should be at point {at} of {}, is at {p:?}", f.n);
        let left = must("remaining_points", || r.remaining_points())?;
        ensure!(left == f.n - at, "remaining_points", "{left} points remain at point {at} of {}", f.n);
    }
    if f.n > 0 {
        obs.nontrivial();
        obs.ev(&format!("format_{}{}", f.fmt, if compressed { "_compressed" } else { "" }));
        if !f.extras.is_empty() { obs.ev("extra_bytes") }
    }
    Ok(())
}

pub const P30: Property = Property {
    id: "P30",
    rule: "LAS and LAZ files of every point format and version built byte by byte from the specification (header and record padding, variable length records, described and undescribed extra bytes, any transform), read in both layout modes by random histories of reads, reads into targets of every kind and layout, seeks (also far out of range) and position queries against a cursor model with an independent decoder of the records; truncated, damaged and failing sources; non-trivial: a file with points",
    assumptions: &["seeking before the first point is an error or goes to the first point; where a reader stands after an error is left open", "las, laz, chrono, bitfield and array-init are stand-ins; the LAZ codec is the identity"],
    quick_cases: 100_000,
    thorough_cases: 5_000_000,
    case: p30,
    required_events: &["points_read", "seek", "seek_refused", "damaged_refused", "impossible_refused", "exact_records", "extra_bytes", "format_0", "format_10", "format_8_compressed", "into_VectorBuffer", "into_HashMapBuffer", "into_ExternalMemoryBuffer", "into_interleaved_slice", "into_columnar_slice", "large_read"],
};
