//! Writing LAS and LAZ files and reading them back
use crate::common::*;
use crate::gen::*;
use crate::io::*;
use crate::model::*;
use crate::num::*;
use crate::reading::*;
use crate::any_buffer;
use mon::*;
use pasture_core::containers::*;
use pasture_core::layout::attributes::*;
use pasture_core::layout::PointAttributeDataType as D;
use pasture_core::layout::*;
use pasture_io::base::{PointReader, PointWriter};
use pasture_io::las::LASWriter;

/// What the file that is written should be
pub struct Target {
    pub compressed: bool,
    pub minor: u8,
    pub fmt: u8,
    pub scale: [f64; 3],
    pub offset: [f64; 3],
    pub extras: Vec<PointAttributeDefinition>,
    pub vlrs: Vec<Record>,
    pub evlrs: Vec<Record>,
    pub pad: Vec<u8>,
    pub source_id: u16,
    pub system: Vec<u8>,
}

pub fn vlr(r: &Record) -> las::Vlr {
    let t = |b: &[u8]| String::from_utf8(b.to_vec()).unwrap();
    las::Vlr { user_id: t(&r.user), record_id: r.id, description: t(&r.desc), data: r.data.clone() }
}
fn no_laz(v: &[Record]) -> Vec<Record> { v.iter().filter(|r| !(r.user == b"laszip encoded" && r.id == 22204)).cloned().collect() }

/// A header to write with
fn rand_header(rng: &mut Rng, compressed: bool) -> (las::Header, Target) {
    let (mut b, mut t);
    if rng.bool() {
        // the header of another file
        let (n, other) = (rng.below(6), rng.chance(1, 4));
        let (bytes, f) = loop {
            let bytes = build(rng, other, n);
            let f = parse(&bytes, other).expect("a file of this program's own");
            if !f.overfull && !(compressed && (!f.extras.is_empty() || f.fmt > 8)) { break (bytes, f) }
        };
        let mut cur = std::io::Cursor::new(&bytes[..]);
        let raw = las::raw::Header::read_from(&mut cur).unwrap();
        b = las::Builder::new(raw).unwrap();
        b.vlrs = f.vlrs.iter().map(vlr).collect();
        b.vlr_padding = f.pad.clone();
        t = Target { compressed, minor: f.minor, fmt: f.fmt, scale: f.scale, offset: f.offset, extras: f.extras, vlrs: f.vlrs, evlrs: vec![], pad: f.pad, source_id: f.source_id, system: f.system };
    } else {
        let fmt = rng.below(if compressed { 9 } else { 11 }) as u8;
        let minor = if rng.bool() { 4 } else { rng.range(least_minor(fmt) as usize, 4) as u8 };
        let (scale, offset) = rand_transform(rng);
        let (xr, extra) = if !compressed && rng.chance(1, 3) { rand_extras(rng) } else { (None, 0) };
        b = las::Builder::from((1, minor));
        b.point_format = las::point::Format::new(fmt).unwrap();
        b.point_format.extra_bytes = extra as u16;
        let tr = |k: usize| las::Transform { scale: scale[k], offset: offset[k] };
        b.transforms = las::Vector { x: tr(0), y: tr(1), z: tr(2) };
        let mut vlrs = vec![];
        if rng.chance(1, 3) { for _ in 0..rng.below(3) { let r = rand_record(rng); if !vlrs.iter().any(|v: &Record| v.user == r.user && v.id == r.id) { vlrs.push(r) } } }
        vlrs.extend(xr);
        rng.shuffle(&mut vlrs);
        b.vlrs = vlrs.iter().map(vlr).collect();
        let pad = if rng.chance(1, 4) { let n = rng.range(1, 20); rng.bytes(n) } else { vec![] };
        b.vlr_padding = pad.clone();
        if rng.chance(1, 4) { let n = rng.range(1, 20); b.padding = rng.bytes(n) }
        let extras = extras_of(&vlrs, extra).unwrap();
        t = Target { compressed, minor, fmt, scale, offset, extras, vlrs, evlrs: vec![], pad, source_id: b.file_source_id, system: b.system_identifier.clone().into_bytes() };
    }
    if t.minor >= 4 && rng.chance(1, 3) {
        for _ in 0..rng.range(1, 3) {
            let mut r = rand_record(rng);
            if rng.chance(1, 30) { let n = rng.range(65_536, 70_000); r.data = rng.bytes(n) }
            t.evlrs.push(r);
        }
        b.evlrs = t.evlrs.iter().map(vlr).collect();
    }
    (b.into_header().unwrap(), t)
}

/// All the attributes that LAS has, whatever the format
pub fn native() -> Vec<Field> {
    let mut v = fields(5, &[], false);
    for f in fields(10, &[], false) { if !v.iter().any(|x| x.def.name() == f.def.name()) { v.push(f) } }
    v
}

/// A layout for which a writer is made, and the format that has all of it
pub fn rand_own_layout(rng: &mut Rng, compressed: bool) -> (L, u8) {
    let want = rng.below(11) as u8;
    let mut defs: Vec<PointAttributeDefinition> = fields(want, &[], false).into_iter().filter(|_| rng.chance(3, 5)).map(|f| f.def).collect();
    if compressed { defs.retain(|d| !fields(5, &[], false).iter().rev().take(5).any(|w| w.def.name() == d.name()) || !extended(want)) }
    if !defs.iter().any(|d| d.name() == POSITION_3D.name()) && rng.chance(4, 5) { defs.push(POSITION_3D) }
    for d in rand_defs(rng, 0, 2, false) { if !native().iter().any(|n| n.def.name() == d.name()) { defs.push(d) } }
    if defs.is_empty() { defs.push(INTENSITY) }
    rng.shuffle(&mut defs);
    let l = L::of(if rng.bool() { PointLayout::from_attributes(&defs) } else { rand_layout_of(rng, &defs).0 });
    (l, want)
}

/// A layout to write points in
fn rand_source(t: &Target, fs: &[Field], dl: &L, rng: &mut Rng) -> L {
    if rng.chance(2, 5) { return dl.clone() }
    let in_range = |lo: f64, hi: f64| (0..3).all(|k| [lo, hi].iter().all(|p| ((p - t.offset[k]) / t.scale[k]).abs() < 2.0e9));
    let mut defs: Vec<PointAttributeDefinition> = vec![];
    for f in fs {
        if f.at == Place::World {
            let dt = match rng.below(8) {
                0 if in_range(0.0, 0.0) => continue,
                1 | 2 => D::Vec3f32,
                3 if in_range(0.0, 255.0) => D::Vec3u8,
                4 if in_range(0.0, 65535.0) => D::Vec3u16,
                5 if in_range(-1e5, 1e5) => D::Vec3i32,
                _ => D::Vec3f64,
            };
            defs.push(f.def.with_custom_datatype(dt));
            continue;
        }
        match rng.below(6) {
            0 => {}
            1 | 2 => {
                let dt = *rng.pick(&DT);
                defs.push(if convertible(f.def.datatype(), dt) && convertible(dt, f.def.datatype()) { f.def.with_custom_datatype(dt) } else { f.def.clone() });
            }
            _ => defs.push(f.def.clone()),
        }
    }
    for n in native() {
        // attributes of other formats
        if rng.chance(1, 8) && !fs.iter().any(|f| f.def.name() == n.def.name()) { defs.push(n.def) }
    }
    for d in rand_defs(rng, 0, 3, false) { if !native().iter().chain(fs).any(|n| n.def.name() == d.name()) { defs.push(d) } }
    if defs.is_empty() { defs.push(PointAttributeDefinition::custom("Filler".into(), D::U16)) }
    rng.shuffle(&mut defs);
    L::of(rand_layout_of(rng, &defs).0)
}

/// A point in a layout with values that fit into the file
pub fn rand_point(t: &Target, fs: &[Field], l: &L, rng: &mut Rng) -> Pt {
    l.attrs.iter().map(|a| {
        let to = a.def.datatype();
        match fs.iter().find(|f| f.def.name() == a.def.name()) {
            None => rand_value(rng, to),
            Some(f) if f.at == Place::World => {
                let far = to == D::Vec3f64 && rng.chance(1, 10);
                let mut v = vec![];
                for k in 0..3 {
                    let local = if far { rng.irange(-2_000_000_000, 2_000_000_000) } else { rng.irange(-100_000, 100_000) };
                    let mut p = local as f64 * t.scale[k] + t.offset[k];
                    if rng.bool() { p += t.scale[k] * rng.f64(-0.5, 0.5) }
                    match to {
                        D::Vec3f32 => v.extend((p as f32).to_ne_bytes()),
                        D::Vec3u8 => v.push(rng.below(256) as u8),
                        D::Vec3u16 => v.extend((rng.below(65536) as u16).to_ne_bytes()),
                        D::Vec3i32 => v.extend((rng.irange(-100_000, 100_000) as i32).to_ne_bytes()),
                        _ => v.extend(p.to_ne_bytes()),
                    }
                }
                v
            }
            Some(f) => {
                let from = f.def.datatype();
                let v = match f.at {
                    Place::Bits(_, _, _, n) => vec![rng.below(1 << n) as u8],
                    _ => rand_value(rng, from),
                };
                if from == to { v } else { reference(from, to, &v).unwrap() }
            }
        }
    }).collect()
}

/// The value of a field of a point, in the type of the file
pub fn expected(f: &Field, l: &L, p: &Pt) -> Vec<u8> {
    let to = f.def.datatype();
    match l.attrs.iter().position(|a| a.def.name() == f.def.name()) {
        None => vec![0; size_align(to).0],
        Some(k) => {
            let from = l.attrs[k].def.datatype();
            if from == to { p[k].clone() } else { reference(from, to, &p[k]).unwrap() }
        }
    }
}

fn f3(b: &[u8]) -> [f64; 3] { [0, 1, 2].map(|k| f64::from_ne_bytes(b[8 * k..8 * k + 8].try_into().unwrap())) }

/// What is in the output after a flush
pub fn check_file(bytes: &[u8], t: &Target, all: &[Vec<Vec<u8>>], obs: &mut Obs) -> Result<Las, Violation> {
    let f = match parse(bytes, t.compressed) { Ok(f) => f, Err(e) => return violation("file", format!("{} points written: {e}", all.len())) };
    ensure!(f.n == all.len() && f.fmt == t.fmt && f.minor == t.minor, "file:header", "{} points of format {} were written in version 1.{}, the file has {} of format {} in 1.{}", all.len(), t.fmt, t.minor, f.n, f.fmt, f.minor);
    ensure!(f.scale == t.scale && f.offset == t.offset, "file:transform", "scale {:?} and offset {:?}, in the file {:?} and {:?}", t.scale, t.offset, f.scale, f.offset);
    ensure!(f.source_id == t.source_id && f.system == t.system, "file:header", "source {} and system {:?}, in the file {} and {:?}", t.source_id, t.system, f.source_id, f.system);
    ensure!(no_laz(&f.vlrs) == no_laz(&t.vlrs), "file:records", "the header has the records {:?}, the file has {:?}", t.vlrs, f.vlrs);
    ensure!(!t.compressed || f.vlrs.len() == no_laz(&f.vlrs).len() + 1, "file:records", "the file has {} records for the codec", f.vlrs.len() - no_laz(&f.vlrs).len());
    ensure!(f.evlrs == t.evlrs, "file:extended records", "the header has {} extended records, the file has {}: {:?} and {:?}", t.evlrs.len(), f.evlrs.len(), t.evlrs.iter().map(|r| (&r.user, r.id, r.data.len())).collect::<Vec<_>>(), f.evlrs.iter().map(|r| (&r.user, r.id, r.data.len())).collect::<Vec<_>>());
    ensure!(f.pad == t.pad, "file:padding", "padding {:?}, in the file {:?}", t.pad, f.pad);
    ensure!(f.extras == t.extras, "file:extra bytes", "extra bytes {:?}, in the file {:?}", t.extras, f.extras);
    let fs = f.fields(false);
    let mut by = [0u64; 15];
    let (mut min, mut max) = ([f64::INFINITY; 3], [f64::NEG_INFINITY; 3]);
    for (i, (r, e)) in f.recs.iter().zip(all).enumerate() {
        for (x, want) in fs.iter().zip(e) {
            if x.at == Place::World {
                let (p, l) = (f3(want), f.local(r));
                for k in 0..3 {
                    let q = (p[k] - f.offset[k]) / f.scale[k];
                    let tol = 0.5 + 1e-9 + 4.0 * f64::EPSILON * (q.abs() + (p[k].abs() + f.offset[k].abs()) / f.scale[k]);
                    ensure!((l[k] as f64 - q).abs() <= tol, "file:position", "coordinate {k} of point {i} is {}, in the file {}, which is {} steps of {} from {}", p[k], l[k], l[k] as f64 - q, f.scale[k], f.offset[k]);
                    min[k] = min[k].min(p[k]);
                    max[k] = max[k].max(p[k]);
                }
            } else {
                let got = f.value(x, r);
                let ok = if matches!(x.def.datatype(), D::ByteArray(_)) { got == *want } else { same(x.def.datatype(), &got, want) };
                ensure!(ok, "file:value", "{} of point {i} was written as {want:?}, the file has {got:?}", x.def);
            }
            if x.def.name() == RETURN_NUMBER.name() && want[0] > 0 { by[want[0] as usize - 1] += 1 }
        }
    }
    for k in 0..3 {
        if all.is_empty() { break }
        let tol = f.scale[k] * 1.01 + 4.0 * f64::EPSILON * (f.offset[k].abs() + min[k].abs().max(max[k].abs()));
        ensure!(near(f.min[k], min[k], tol) && near(f.max[k], max[k], tol), "file:bounds", "coordinate {k} goes from {} to {}, the file says {} to {}", min[k], max[k], f.min[k], f.max[k]);
    }
    let n = all.len() as u64;
    let legacy = !extended(f.fmt);
    ensure!(f.legacy_n == if legacy { n } else { 0 }, "file:legacy count", "{n} points of format {}, the legacy count is {}", f.fmt, f.legacy_n);
    ensure!((0..5).all(|k| f.legacy_by_return[k] == if legacy { by[k] } else { 0 }), "file:legacy returns", "points by return {by:?} in format {}, in the file {:?}", f.fmt, f.legacy_by_return);
    if let Some((ln, lby)) = &f.large {
        ensure!(*ln == n, "file:count", "{n} points, the file says {ln}");
        ensure!(lby[..] == by, "file:returns", "points by return {by:?}, in the file {lby:?}");
    }
    if by.iter().any(|k| *k > 0) { obs.ev("returns_counted") }
    obs.ev("file_checked");
    Ok(f)
}

pub fn p28(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let compressed = rng.chance(1, 3);
    let large = rng.chance(1, 2500);
    let sink = if !large && rng.chance(1, 12) { let at = rng.below(900); Sink::failing(rng, at) } else { Sink::new(rng) };
    let out = sink.clone();
    let own = rng.chance(1, 4);
    let (made, mut t);
    if own {
        let (l, want) = rand_own_layout(rng, compressed);
        obs.step(|| format!("writer for {} compressed {compressed}", l.show()));
        made = must("LASWriter::from_writer_and_point_layout", || LASWriter::from_writer_and_point_layout(sink, &l.layout, compressed))?;
        t = Target { compressed, minor: 4, fmt: want, scale: [0.001; 3], offset: [0.0; 3], extras: vec![], vlrs: vec![], evlrs: vec![], pad: vec![], source_id: 0, system: vec![] };
        if let Ok(w) = &made {
            // one of the formats that has all of it
            let dl = L::of(w.get_default_point_layout().clone());
            let is = (0..11u8).find(|f| { let v = fields(*f, &[], false); v.len() == dl.attrs.len() && v.iter().all(|x| dl.attrs.iter().any(|a| a.def == x.def)) });
            let Some(is) = is else { return violation("LASWriter:layout", format!("the layout of the writer is that of no format: {}", dl.show())) };
            let has = fields(is, &[], false);
            for a in &l.attrs {
                let asked = native().iter().any(|n| n.def.name() == a.def.name());
                let lost = asked && !has.iter().any(|h| h.def.name() == a.def.name()) && !(extended(is) && a.def.name() == SCAN_ANGLE_RANK.name());
                ensure!(!lost, "LASWriter:format", "the format {is} was chosen for {}, it has no {}", l.show(), a.def.name());
            }
            t.fmt = is;
        }
    } else {
        let (h, x) = rand_header(rng, compressed);
        obs.step(|| format!("writer for format {} in 1.{} compressed {compressed} scale {:?} offset {:?} extras {:?} {} vlrs {} evlrs {} padding", x.fmt, x.minor, x.scale, x.offset, x.extras.iter().map(|d| d.to_string()).collect::<Vec<_>>(), x.vlrs.len(), x.evlrs.len(), x.pad.len()));
        made = must("LASWriter::from_writer_and_header", || LASWriter::from_writer_and_header(sink, h, compressed))?;
        t = x;
    }
    let mut w = match made {
        Ok(w) => w,
        Err(e) => {
            ensure!(out.failed(), "LASWriter::new", "a writer can't be made: {e:#}");
            obs.ev("output_failed");
            return Ok(());
        }
    };
    if own {
        let b = out.bytes();
        if b.len() > 90 && !out.failed() { t.source_id = u16::from_le_bytes([b[4], b[5]]); t.system = b[26..58].iter().copied().take_while(|c| *c != 0).collect() }
    }
    let fs = fields(t.fmt, &t.extras, false);
    let dl = L::of(w.get_default_point_layout().clone());
    ensure!(dl.attrs.len() == fs.len() && fs.iter().all(|f| dl.attrs.iter().any(|a| a.def == f.def)), "LASWriter:layout", "a writer for {:?} has the layout {}", fs.iter().map(|f| f.def.to_string()).collect::<Vec<_>>(), dl.show());

    let mut all: Vec<Vec<Vec<u8>>> = vec![];
    let steps = if large { rng.range(1, 2) } else { rng.range(0, 4) };
    for i in 0..steps {
        let l = rand_source(&t, &fs, &dl, rng);
        let n = if large && i == 0 { rng.range(50_001, 60_000) } else { rng.below(10) };
        let few: Vec<Pt> = (0..n.min(97)).map(|_| rand_point(&t, &fs, &l, rng)).collect();
        let m: Vec<Pt> = (0..n).map(|k| few[k % 97].clone()).collect();
        let default = l.layout == dl.layout;
        let r = any_buffer!(&l, &m, rng, b, who => {
            obs.step(|| format!("write {who} {} {}", l.show(), if m.len() > 20 { format!("{} points", m.len()) } else { format!("{m:?}") }));
            let r = must("LASWriter::write", || w.write(b).map_err(|e| format!("{e:#}")))?;
            if n <= 100 { unchanged("LASWriter::write", b, &l, &m)?; }
            if n > 0 { obs.ev(&format!("src_{}", who.replace(' ', "_"))) }
            r
        });
        if let Err(e) = r {
            ensure!(out.failed(), "LASWriter::write", "writing {n} points is an error: {e}");
            obs.ev("output_failed");
            return Ok(());
        }
        let e: Vec<Vec<Vec<u8>>> = few.iter().map(|p| fs.iter().map(|f| expected(f, &l, p)).collect()).collect();
        all.extend((0..n).map(|k| e[k % 97].clone()));
        if n > 0 { obs.ev(match (default, compressed) { (true, false) => "default_layout", (true, true) => "default_layout_compressed", (false, false) => "custom_layout", _ => "custom_layout_compressed" }) }
        if n > 50_000 { obs.ev(if compressed { "large_write_compressed" } else { "large_write" }) }
        if !compressed && rng.chance(1, 4) {
            obs.step(|| "flush".into());
            let r = must("LASWriter::flush", || w.flush().is_ok())?;
            if !r {
                ensure!(out.failed(), "LASWriter::flush", "flushing {} points is an error", all.len());
                obs.ev("output_failed");
                return Ok(());
            }
            ensure!(!out.failed(), "LASWriter:lost output", "the output failed, nothing was reported");
            ensure!(out.flushed() == out.bytes(), "LASWriter::flush:underlying", "after the flush {} of {} bytes are flushed", out.flushed().len(), out.bytes().len());
            check_file(&out.bytes(), &t, &all, obs)?;
            if i + 1 < steps { obs.ev("flush_in_between") }
        }
    }
    let r = if rng.bool() {
        obs.step(|| "into_inner".into());
        must("LASWriter::into_inner", move || w.into_inner().map(|_| ()))?
    } else {
        obs.step(|| "flush".into());
        let mut r = must("LASWriter::flush", || w.flush())?;
        if r.is_ok() && rng.bool() { r = must("LASWriter::flush", || w.flush())?; }
        if r.is_ok() && rng.bool() { r = must("LASWriter::into_inner", move || w.into_inner().map(|_| ()))?; }
        r
    };
    if let Err(e) = r {
        ensure!(out.failed(), "LASWriter::flush", "flushing {} points is an error: {e:#}", all.len());
        obs.ev("output_failed");
        return Ok(());
    }
    ensure!(!out.failed(), "LASWriter:lost output", "the output failed, nothing was reported");
    let bytes = out.bytes();
    ensure!(out.flushed() == bytes, "LASWriter::flush:underlying", "after the flush {} of {} bytes are flushed", out.flushed().len(), bytes.len());
    let f = check_file(&bytes, &t, &all, obs)?;
    obs.mix(&bytes[..bytes.len().min(3000)]);

    // and back, in both modes
    for exact in [false, true] {
        let mut r = match open(Source::new(bytes.clone(), rng), compressed, exact, rng)? {
            Ok(r) => r,
            Err(e) => return violation("LASReader::from_read", format!("the file that was written can't be opened: {e}")),
        };
        check_reader(&mut r, &f, exact)?;
        let x = File { known: f.known(), f: &f, exact };
        let n = f.n + rng.below(3);
        if rng.bool() { read_new(&mut r, &x, 0, n, rng, obs)?; } else { read_into(&mut r, &x, 0, n, rng, obs)?; }
    }
    if !all.is_empty() {
        obs.nontrivial();
        obs.ev(&format!("format_{}{}", t.fmt, if compressed { "_compressed" } else { "" }));
        if !t.extras.is_empty() { obs.ev("extra_bytes") }
        if !t.evlrs.is_empty() { obs.ev("extended_records") }
    }
    Ok(())
}

pub const P28: Property = Property {
    id: "P28",
    rule: "LAS and LAZ files of every point format and version written through writers made from a header (built, or that of another file with its counts, records and padding) or from a point layout, with random histories of writes of buffers of every storage kind in the default and in random other layouts (subsets, other types, order and alignment, other attributes), flushes and large writes, into outputs that take few bytes at a time, are interrupted or fail; the bytes are decoded by an independent parser of the specification and compared with what was written, then read back in both layout modes; non-trivial: a file with points",
    assumptions: &["positions are in the range of the transform and bit fields in that of the format; the bounds may be off by one step of the scale; a LAZ file is flushed once, after the last write; the file starts at the start of the output", "las, laz, chrono, bitfield and array-init are stand-ins; the LAZ codec is the identity"],
    quick_cases: 80_000,
    thorough_cases: 4_000_000,
    case: p28,
    required_events: &["file_checked", "flush_in_between", "output_failed", "returns_counted", "default_layout", "custom_layout", "default_layout_compressed", "custom_layout_compressed", "extra_bytes", "extended_records", "format_0", "format_10", "format_8_compressed", "large_write", "large_write_compressed", "points_read"],
};
