//! Whole files, with the kind of file given by the extension
use crate::any_buffer;
use crate::common::*;
use crate::gen::*;
use crate::io::*;
use crate::model::*;
use crate::num::*;
use crate::writing::*;
use mon::*;
use pasture_core::containers::*;
use pasture_core::layout::attributes::*;
use pasture_core::layout::PointAttributeDataType as D;
use pasture_core::layout::*;
use pasture_io::base::*;
use pasture_io::las::{LASReader, LASWriter};
use pasture_io::tiles3d::{PntsReader, PntsWriter};
use std::io::{Cursor, SeekFrom};
use std::path::Path;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { Las, Laz, Pnts }

pub fn rand_ext(rng: &mut Rng) -> (Kind, String) {
    let k = *rng.pick(&[Kind::Las, Kind::Laz, Kind::Pnts]);
    let s = match k { Kind::Las => "las", Kind::Laz => "laz", Kind::Pnts => "pnts" };
    let s = match rng.below(4) { 0 => s.to_uppercase(), 1 => s.chars().map(|c| if rng.bool() { c.to_ascii_uppercase() } else { c }).collect(), _ => s.to_string() };
    (k, s)
}

pub fn rand_points(k: Kind, rng: &mut Rng, n: usize) -> (L, Vec<Pt>, Target) {
    let t = Target { compressed: k == Kind::Laz, minor: 4, fmt: 0, scale: [0.001; 3], offset: [0.0; 3], extras: vec![], vlrs: vec![], evlrs: vec![], pad: vec![], source_id: 0, system: vec![] };
    if k == Kind::Pnts {
        let mut defs = vec![POSITION_3D.with_custom_datatype(*rng.pick(&[D::Vec3f64, D::Vec3f32]))];
        if rng.bool() { defs.push(COLOR_RGB.with_custom_datatype(*rng.pick(&[D::Vec3u8, D::Vec3u16]))) }
        if rng.bool() { defs.push(NORMAL) }
        if rng.bool() { defs.push(INTENSITY) }
        rng.shuffle(&mut defs);
        let l = L::of(rand_layout_of(rng, &defs).0);
        let m = l.rand_pts(rng, n);
        return (l, m, t);
    }
    let (l, _) = rand_own_layout(rng, k == Kind::Laz);
    let fs: Vec<Field> = native();
    let m = (0..n).map(|_| rand_point(&t, &fs, &l, rng)).collect();
    (l, m, t)
}

/// What a file has to contain, and what is in it, by the reader and writer of its kind
pub fn direct_write(k: Kind, l: &L, m: &[Pt], rng: &mut Rng) -> Result<Vec<u8>, String> {
    let b = vbuf(l, m, rng);
    let e = |e: anyhow::Error| format!("{e:#}");
    match k {
        Kind::Pnts => {
            let sink = Sink::new(rng);
            let mut w = PntsWriter::from_write_and_layout(sink.clone(), l.layout.clone());
            w.write(&b).map_err(e)?;
            w.flush().map_err(e)?;
            drop(w);
            Ok(sink.bytes())
        }
        _ => {
            let mut w = LASWriter::from_writer_and_point_layout(Cursor::new(vec![]), &l.layout, k == Kind::Laz).map_err(e)?;
            w.write(&b).map_err(e)?;
            Ok(w.into_inner().map_err(e)?.into_inner())
        }
    }
}
pub fn direct_read(k: Kind, bytes: &[u8]) -> Result<(L, Vec<Pt>), String> {
    let e = |e: anyhow::Error| format!("{e:#}");
    let b: VectorBuffer = match k {
        Kind::Pnts => {
            let mut r = PntsReader::from_read(Cursor::new(bytes.to_vec())).map_err(e)?;
            let n = r.get_metadata().number_of_points().unwrap();
            r.read(n).map_err(e)?
        }
        _ => {
            let mut r = LASReader::from_read(Cursor::new(bytes.to_vec()), k == Kind::Laz, false).map_err(e)?;
            let n = r.get_metadata().number_of_points().unwrap();
            r.read(n).map_err(e)?
        }
    };
    let l = L::of(b.point_layout().clone());
    let s = snapshot(&b, &l);
    Ok((l, s))
}

fn same_pts(a: &L, x: &[Pt], b: &L, y: &[Pt]) -> bool { a.attrs.len() == b.attrs.len() && a.attrs.iter().zip(&b.attrs).all(|(p, q)| p.def == q.def) && x == y }

fn refused(path: &Path, l: &L, m: &[Pt], why: &str, rng: &mut Rng) -> Verdict {
    let b = vbuf(l, m, rng);
    ensure!(must("write_all", || write_all(&b, path).is_err())?, "write_all:refuse", "writing to {path:?} is no error: {why}");
    ensure!(must("read_all", || read_all::<VectorBuffer, _>(path).is_err())?, "read_all:refuse", "reading {path:?} is no error: {why}");
    let mut d = vbuf(l, m, rng);
    ensure!(must("read_all_into", || read_all_into(&mut d, path).is_err())?, "read_all_into:refuse", "reading {path:?} is no error: {why}");
    unchanged("read_all_into", &d, l, m)?;
    ensure!(must("GenericPointReader", || GenericPointReader::open_file(path).is_err())?, "GenericPointReader:refuse", "opening {path:?} is no error: {why}");
    ensure!(must("GenericPointWriter", || GenericPointWriter::open_file(path, &l.layout).is_err())?, "GenericPointWriter:refuse", "opening {path:?} is no error: {why}");
    Ok(())
}

pub fn p32(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let dir = Scratch::new(rng);
    let (k, ext) = rand_ext(rng);
    let n = if rng.chance(1, 60) { rng.range(100, 1500) } else { rng.below(10) };
    let (l, m, mut t) = rand_points(k, rng, n);
    let stem = *rng.pick(&["points", "a.b", "las.pnts", "x.las", " "]);
    let path = dir.0.join(format!("{stem}.{ext}"));
    obs.step(|| format!("{n} points {} to {stem}.{ext}", l.show()));
    if rng.chance(1, 8) {
        let (p, why) = match rng.below(4) {
            0 => (dir.0.join("points"), "it has no extension"),
            1 => (dir.0.join(*rng.pick(&["points.xyz", "points.las2", "points.la", "laz", ".las", "points.pntsx", "points.json", "points.las.txt"])), "its extension is that of no kind of file"),
            2 => (dir.0.join("missing").join(format!("points.{ext}")), "there is no such directory"),
            _ => { let d = dir.0.join(format!("dir.{ext}")); std::fs::create_dir(&d).unwrap(); (d, "it is a directory") }
        };
        refused(&p, &l, &m, why, rng)?;
        let missing = dir.0.join(format!("missing.{ext}"));
        ensure!(must("read_all", || read_all::<VectorBuffer, _>(&missing).is_err())?, "read_all:missing", "a missing file was read");
        ensure!(!missing.exists(), "read_all:missing", "reading made a file");
        obs.ev("refused");
        return Ok(());
    }
    if rng.chance(1, 4) {
        // an old file is replaced
        let j = rng.below(5000);
        std::fs::write(&path, rng.bytes(j)).unwrap();
    }
    let want = match must("direct write", || direct_write(k, &l, &m, rng))? { Ok(b) => b, Err(e) => return violation("direct write", e) };
    let steps = rng.bool();
    let own = !steps && k != Kind::Pnts && rng.bool();
    any_buffer!(&l, &m, rng, b, who => {
        if steps {
            obs.step(|| format!("GenericPointWriter {who}"));
            let mut w = match must("GenericPointWriter", || GenericPointWriter::open_file(&path, &l.layout))? { Ok(w) => w, Err(e) => return violation("GenericPointWriter::open_file", format!("{e:#}")) };
            ensure!(w.get_default_point_layout().attributes().count() > 0 || l.attrs.is_empty(), "GenericPointWriter:layout", "the layout of the writer is empty");
            let at = rng.below(n + 1);
            let (b1, b2) = (vbuf(&l, &m[..at], rng), vbuf(&l, &m[at..], rng));
            let r = must("GenericPointWriter::write", || w.write(&b1).and_then(|_| w.write(&b2)).and_then(|_| w.flush()).map_err(|e| format!("{e:#}")))?;
            if let Err(e) = r { return violation("GenericPointWriter::write", e) }
            let now = std::fs::read(&path).unwrap();
            ensure!(now == want, "GenericPointWriter::flush", "after the flush the file has {} bytes, should have {}", now.len(), want.len());
            drop(w);
        } else if own {
            // by the LAS writer, with the layout or with a header, here the one of the file that should come out
            let header = rng.bool();
            obs.step(|| format!("LASWriter {who}, header {header}"));
            let r = must("LASWriter::from_path", || {
                let mut w = if header {
                    let h = LASReader::from_read(Cursor::new(want.clone()), k == Kind::Laz, false)?.header().clone();
                    LASWriter::from_path_and_header(&path, h)?
                } else {
                    LASWriter::from_path_and_point_layout(&path, &l.layout)?
                };
                w.write(b)?;
                w.flush()
            })?;
            if let Err(e) = r { return violation("LASWriter::from_path", format!("{e:#}")) }
            unchanged("LASWriter::write", b, &l, &m)?;
            obs.ev(if header { "from_path_and_header" } else { "from_path_and_point_layout" });
        } else {
            obs.step(|| format!("write_all {who}"));
            let r = must("write_all", || write_all(b, &path).map_err(|e| format!("{e:#}")))?;
            if let Err(e) = r { return violation("write_all", e) }
            unchanged("write_all", b, &l, &m)?;
        }
    });
    let bytes = std::fs::read(&path).unwrap();
    ensure!(bytes == want, "write_all:file", "the file {stem}.{ext} has {} bytes, the writer of its kind makes {}; the first difference is at {:?}", bytes.len(), want.len(), bytes.iter().zip(&want).position(|(a, b)| a != b));
    let (fl, pts) = match must("direct read", || direct_read(k, &want))? { Ok(x) => x, Err(e) => return violation("direct read", e) };
    ensure!(pts.len() == n, "write_all:points", "{n} points were written, the file has {}", pts.len());
    if k != Kind::Pnts {
        // the values, by the specification
        let f = match parse(&bytes, k == Kind::Laz) { Ok(f) => f, Err(e) => return violation("file", e) };
        t.fmt = f.fmt;
        t.source_id = f.source_id;
        t.system = f.system.clone();
        let fs = fields(f.fmt, &[], false);
        let all: Vec<Vec<Vec<u8>>> = m.iter().map(|p| fs.iter().map(|x| expected(x, &l, p)).collect()).collect();
        check_file(&bytes, &t, &all, obs)?;
    }

    // reading
    let r = must("read_all", || if rng.bool() { read_all::<VectorBuffer, _>(&path).map(|b| { let l = L::of(b.point_layout().clone()); let s = snapshot(&b, &l); (l, s) }) } else { read_all::<HashMapBuffer, _>(&path).map(|b| { let l = L::of(b.point_layout().clone()); let s = snapshot(&b, &l); (l, s) }) })?;
    match r {
        Err(e) => return violation("read_all", format!("{e:#}")),
        Ok((gl, s)) => ensure!(same_pts(&gl, &s, &fl, &pts), "read_all", "{} with points {s:?}, the reader of this kind of file gives {} with {pts:?}", gl.show(), fl.show()),
    }
    // appending, in the layout of the file or another
    let tl = if rng.bool() { fl.clone() } else {
        let mut d: Vec<_> = fl.attrs.iter().filter(|_| rng.bool()).map(|a| a.def.clone()).collect();
        for x in rand_defs(rng, 0, 2, false) { if !native().iter().any(|n| n.def.name() == x.name()) && x.name() != NORMAL.name() && x.name() != COLOR_RGB.name() { d.push(x) } }
        if d.is_empty() { d.push(POSITION_3D) }
        L::of(rand_layout_of(rng, &d).0)
    };
    let j = rng.below(4);
    let old = tl.rand_pts(rng, j);
    obs.step(|| format!("read_all_into {} with {j} points", tl.show()));
    let (r, s) = if rng.bool() {
        let mut d = vbuf(&tl, &old, rng);
        let r = must("read_all_into", || read_all_into(&mut d, &path))?;
        (r, snapshot(&d, &tl))
    } else {
        let mut d = hbuf(&tl, &old, rng);
        let r = must("read_all_into", || read_all_into(&mut d, &path))?;
        (r, snapshot(&d, &tl))
    };
    ensure!(matches!(r, Ok(c) if c == n), "read_all_into:count", "{n} points in the file, {r:?}");
    ensure!(s.len() == j + n && s[..j] == old[..], "read_all_into:append", "{j} points, {n} in the file, then {} points; the first are {:?}, were {old:?}", s.len(), &s[..j.min(s.len())]);
    for (i, g) in s[j..].iter().enumerate() {
        for (x, a) in tl.attrs.iter().enumerate() {
            match fl.attrs.iter().position(|b| b.def.name() == a.def.name()) {
                Some(y) => {
                    let (from, to) = (fl.attrs[y].def.datatype(), a.def.datatype());
                    let want = if from == to { pts[i][y].clone() } else { reference(from, to, &pts[i][y]).unwrap() };
                    ensure!(g[x] == want || same(to, &g[x], &want), "read_all_into:value", "{} of point {i} is {:?}, the file has {:?}", a.def, g[x], pts[i][y])
                }
                None => ensure!(g[x].iter().all(|b| *b == 0), "read_all_into:value", "{} of point {i}, which is not in the file, is {:?}", a.def, g[x]),
            }
        }
    }
    if j > 0 && n > 0 { obs.ev("appended") }
    if k != Kind::Pnts {
        // in the layout of the records, or the default one
        let exact = rng.bool();
        let r = must("LASReader::from_path", || LASReader::from_path(&path, exact).and_then(|mut r| { let b: VectorBuffer = r.read(n)?; Ok((r.header().point_format().to_u8().unwrap_or(99), b)) }))?;
        match r {
            Err(e) => return violation("LASReader::from_path", format!("{e:#}")),
            Ok((f, b)) => {
                let s = snapshot(&b, &L::of(b.point_layout().clone()));
                ensure!(f == t.fmt && s.len() == n && (exact || s == pts), "LASReader::from_path", "format {f} with points {s:?}, the file has format {} and {pts:?}", t.fmt);
            }
        }
        obs.ev("from_path");
    }
    // a reader step by step
    let mut r = match must("GenericPointReader", || GenericPointReader::open_file(&path))? { Ok(r) => r, Err(e) => return violation("GenericPointReader::open_file", format!("{e:#}")) };
    ensure!(GenericPointReader::point_count(&r) == Some(n) && r.get_metadata().number_of_points() == Some(n), "GenericPointReader:point_count", "{n} points, {:?}", GenericPointReader::point_count(&r));
    ensure!(*r.get_default_point_layout() == fl.layout, "GenericPointReader:layout", "{} is {}", fl.show(), L::of(r.get_default_point_layout().clone()).show());
    let mut at = 0;
    for _ in 0..rng.below(4) {
        if rng.bool() {
            let to = rng.below(n + 1);
            let g = must("seek_point", || r.seek_point(SeekFrom::Start(to as u64)))?;
            ensure!(matches!(g, Ok(x) if x == to), "GenericPointReader:seek_point", "Start({to}) of {n} gives {g:?}");
            at = to;
        } else {
            let c = rng.below(n - at + 2);
            let g = match must("read", || r.read::<VectorBuffer>(c))? { Ok(b) => snapshot(&b, &fl), Err(e) => return violation("GenericPointReader:read", format!("{e:#}")) };
            let e = (at + c).min(n);
            ensure!(g[..] == pts[at..e], "GenericPointReader:read", "{c} points at {at} are {g:?}, should be {:?}", &pts[at..e]);
            at = e;
        }
    }
    obs.ev(&format!("{k:?}"));
    if ext.chars().any(|c| c.is_ascii_uppercase()) { obs.ev(&format!("{k:?}_upper_case")) }
    if n > 0 { obs.nontrivial() }
    obs.mix(&bytes[..bytes.len().min(2000)]);
    Ok(())
}

pub const P32: Property = Property {
    id: "P32",
    rule: "whole LAS, LAZ and PNTS files written by write_all and GenericPointWriter into a scratch directory (extensions in any case, odd names, old contents), from buffers of every storage kind; the file has the bytes that the writer of its kind makes in memory and, for LAS and LAZ, the values that were written by an independent parser; read back by read_all, read_all_into behind earlier points in the same and in other layouts, and GenericPointReader with seeks; missing files, directories, and unknown extensions are refused; non-trivial: a file with points",
    assumptions: &["positions are in the range of the default LAS transform", "las, laz, chrono, bitfield and array-init are stand-ins; the LAZ codec is the identity"],
    quick_cases: 40_000,
    thorough_cases: 2_000_000,
    case: p32,
    required_events: &["refused", "appended", "Las", "Laz", "Pnts", "Las_upper_case", "Laz_upper_case", "Pnts_upper_case", "file_checked", "from_path", "from_path_and_header", "from_path_and_point_layout"],
};
