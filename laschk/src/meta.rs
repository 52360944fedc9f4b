//! What pasture says about LAS files: metadata, records, layouts and formats
use crate::gen::*;
use crate::io::*;
use crate::model::*;
use crate::num::*;
use crate::reading::*;
use crate::writing::{native, vlr};
use mon::*;
use pasture_core::layout::attributes::*;
use pasture_core::layout::PointAttributeDataType as D;
use pasture_core::layout::*;
use pasture_core::math::AABB;
use pasture_core::meta::Metadata;
use pasture_core::nalgebra::Point3;
use pasture_io::base::PointReader;
use pasture_io::las::*;
use std::convert::{TryFrom, TryInto};

fn text(b: &[u8]) -> String { String::from_utf8(b.iter().copied().take_while(|c| *c != 0).collect()).unwrap() }

/// One 192 byte entry against what was made of it
fn check_entry(e: &ExtraBytesEntry, b: &[u8]) -> Verdict {
    let t = b[2];
    let raw = |i: usize| -> [u8; 8] { b[i..i + 8].try_into().unwrap() };
    let class = match e.data_type() { ExtraBytesDataType::Undocumented => 0, ExtraBytesDataType::Deprecated(_) => 2, ExtraBytesDataType::Reserved(_) => 3, _ => 1 };
    ensure!(class == match t { 0 => 0, 1..=10 => 1, 11..=30 => 2, _ => 3 }, "ExtraBytesDataType:class", "type {t} is {:?}", e.data_type());
    ensure!(u8::from(e.data_type()) == t, "ExtraBytesEntry:data_type", "type {t} is {:?}", e.data_type());
    let size = extra_type(t).map(|d| size_align(d).0);
    ensure!(e.data_type().size() == size, "ExtraBytesDataType:size", "type {t} has {:?} bytes", e.data_type().size());
    let (u, s, f) = (matches!(t, 1 | 3 | 5 | 7), matches!(t, 2 | 4 | 6 | 8), matches!(t, 9 | 10));
    let k = e.data_type();
    ensure!((k.is_unsigned(), k.is_signed(), k.is_floating_point()) == (u, s, f), "ExtraBytesDataType:kind", "type {t} is unsigned {} signed {} float {}", k.is_unsigned(), k.is_signed(), k.is_floating_point());
    ensure!(e.name() == text(&b[4..36]) && e.description() == text(&b[160..192]), "ExtraBytesEntry:strings", "name {:?} description {:?} of {b:?}", e.name(), e.description());
    let o = e.options();
    let bits = [o.no_data_is_relevant(), o.min_is_relevant(), o.max_is_relevant(), o.use_scale(), o.use_offset()];
    ensure!((0..5).all(|i| bits[i] == (b[3] >> i & 1 == 1)), "ExtraBytesEntry:options", "options {:#b} are {bits:?}", b[3]);
    let opt = |bit: bool, at: usize| if bit { Some(f64::from_le_bytes(raw(at))) } else { None };
    let same_f = |a: Option<f64>, b: Option<f64>| a.map(f64::to_bits) == b.map(f64::to_bits);
    ensure!(same_f(e.scale(), opt(bits[3], 112)) && same_f(e.offset(), opt(bits[4], 136)), "ExtraBytesEntry:transform", "scale {:?} offset {:?} of {b:?}", e.scale(), e.offset());
    type U = anyhow::Result<u64>;
    type I = anyhow::Result<i64>;
    type F = anyhow::Result<f64>;
    let all: [(&str, usize, [u8; 8], U, I, F); 3] = [
        ("no data", 40, e.no_data_value_raw(), e.no_data_value_as_unsigned(), e.no_data_value_as_signed(), e.no_data_value_as_float()),
        ("min", 64, e.min_value_raw(), e.min_as_unsigned(), e.min_as_signed(), e.min_as_float()),
        ("max", 88, e.max_value_raw(), e.max_as_unsigned(), e.max_as_signed(), e.max_as_float()),
    ];
    for (what, at, r, gu, gi, gf) in all {
        let w = raw(at);
        ensure!(r == w, "ExtraBytesEntry:raw value", "{what} {w:?} is {r:?}");
        ensure!(gu.as_ref().ok().copied() == u.then(|| u64::from_le_bytes(w)), "ExtraBytesEntry:unsigned value", "{what} {w:?} of type {t} as unsigned is {gu:?}");
        ensure!(gi.as_ref().ok().copied() == s.then(|| i64::from_le_bytes(w)), "ExtraBytesEntry:signed value", "{what} {w:?} of type {t} as signed is {gi:?}");
        ensure!(same_f(gf.as_ref().ok().copied(), f.then(|| f64::from_le_bytes(w))), "ExtraBytesEntry:float value", "{what} {w:?} of type {t} as float is {gf:?}");
    }
    let a = e.get_point_attribute();
    match extra_type(t) {
        Some(d) => ensure!(matches!(&a, Ok(a) if *a == PointAttributeDefinition::custom(text(&b[4..36]).into(), d)), "ExtraBytesEntry:attribute", "entry {:?} of type {t} is {a:?}", e.name()),
        None => ensure!(a.is_err(), "ExtraBytesEntry:attribute", "type {t} is {a:?}"),
    }
    let shown = must("ExtraBytesEntry:Display", || e.to_string())?;
    ensure!(shown.contains(e.name()), "ExtraBytesEntry:Display", "{shown} has no name {:?}", e.name());
    for (bit, at, label) in [(bits[1], 64, "Min"), (bits[2], 88, "Max"), (bits[0], 40, "No-data value")] {
        let w = raw(at);
        let v = if u { u64::from_le_bytes(w).to_string() } else if s { i64::from_le_bytes(w).to_string() } else if f { f64::from_le_bytes(w).to_string() } else {
            let list = w.map(|x| x.to_string()).join(",");
            let plain: String = shown.chars().filter(|c| !c.is_whitespace()).collect();
            ensure!(!bit || plain.contains(&list), "ExtraBytesEntry:Display", "{label} {w:?} is relevant, shown is {shown}");
            continue;
        };
        ensure!(shown.contains(&format!("{label}: {v}")) == bit, "ExtraBytesEntry:Display", "{label} {v} is relevant: {bit}, shown is {shown}");
    }
    Ok(())
}

fn named<T: 'static + Clone>(m: &dyn Metadata, name: &str) -> Result<Option<T>, Violation> {
    match must("get_named_field", || m.get_named_field(name))? {
        None => Ok(None),
        Some(b) => match b.downcast_ref::<T>() { Some(x) => Ok(Some(x.clone())), None => violation("get_named_field:type", format!("{name} has another type")) },
    }
}

fn check_meta(m: &LASMetadata, f: &Las, bytes: &[u8], n: usize) -> Verdict {
    ensure!(m.point_count() == n && m.number_of_points() == Some(n), "LASMetadata:points", "{n} points, {} in the metadata", m.point_count());
    ensure!(matches!(m.point_format().to_u8(), Ok(k) if k & 0x3f == f.fmt), "LASMetadata:format", "format {}, {:?} in the metadata", f.fmt, m.point_format());
    let Some(b) = m.bounds() else { return violation("LASMetadata:bounds", "no bounds") };
    ensure!([b.min().x, b.min().y, b.min().z] == f.min && [b.max().x, b.max().y, b.max().z] == f.max, "LASMetadata:bounds", "bounds {:?} to {:?} are {b:?}", f.min, f.max);
    let t = |b: &[u8]| String::from_utf8(b.to_vec()).unwrap();
    let g = named::<u16>(m, named_fields::FILE_SOURCE_I_D)?;
    ensure!(g == Some(f.source_id), "named field:FILE_SOURCE_I_D", "{} is {g:?}", f.source_id);
    let g = named::<String>(m, named_fields::VERSION)?;
    ensure!(g == Some(format!("1.{}", f.minor)), "named field:VERSION", "1.{} is {g:?}", f.minor);
    let g = named::<String>(m, named_fields::SYSTEM_IDENTIFIER)?;
    ensure!(g == Some(t(&f.system)), "named field:SYSTEM_IDENTIFIER", "{:?} is {g:?}", t(&f.system));
    let g = named::<String>(m, named_fields::GENERATING_SOFTWARE)?;
    ensure!(g == Some(t(&f.software)), "named field:GENERATING_SOFTWARE", "{:?} is {g:?}", t(&f.software));
    let date = f.date != (0, 0);
    let g = named::<u16>(m, named_fields::FILE_CREATION_DAY_OF_YEAR)?;
    ensure!(g == date.then_some(f.date.0), "named field:FILE_CREATION_DAY_OF_YEAR", "{:?} is {g:?}", f.date);
    let g = named::<u16>(m, named_fields::FILE_CREATION_YEAR)?;
    ensure!(g == date.then_some(f.date.1), "named field:FILE_CREATION_YEAR", "{:?} is {g:?}", f.date);
    ensure!(m.get_named_field("LASFIELD_Nothing").is_none(), "named field:unknown", "a field that does not exist has a value");
    ensure!(m.raw_las_header().map(|h| h.number_of_points()) == Some(n as u64), "LASMetadata:raw_las_header", "the header is {:?}", m.raw_las_header().map(|h| h.number_of_points()));
    let spec = |id: u16| f.vlrs.iter().find(|r| r.user == b"LASF_Spec" && r.id == id);
    match (spec(0), m.classification_lookup_vlr()) {
        (None, None) => {}
        (Some(r), Some(c)) => {
            ensure!(c.entries().len() == 256, "ClassificationLookup", "{} entries", c.entries().len());
            for (e, b) in c.entries().iter().zip(r.data.chunks(16)) {
                ensure!(e.classification == b[0] && e.description == text(&b[1..]), "ClassificationLookup", "{b:?} is {e:?}");
            }
            must("ClassificationLookup:Display", || c.to_string())?;
        }
        (r, c) => return violation("ClassificationLookup", format!("in the file: {}, in the metadata: {}", r.is_some(), c.is_some())),
    }
    match (spec(3), m.text_area_description_vlr()) {
        (None, None) => {}
        (Some(r), Some(c)) => ensure!(c.text().as_bytes() == &r.data[..], "TextAreaDescription", "{:?} is {:?}", r.data, c.text()),
        (r, c) => return violation("TextAreaDescription", format!("in the file: {}, in the metadata: {}", r.is_some(), c.is_some())),
    }
    match (spec(4), m.extra_bytes_vlr()) {
        (None, None) => {}
        (Some(r), Some(c)) => {
            ensure!(c.entries().len() * 192 == r.data.len(), "ExtraBytesVlr", "{} entries from {} bytes", c.entries().len(), r.data.len());
            for (e, b) in c.entries().iter().zip(r.data.chunks(192)) { check_entry(e, b)? }
        }
        (r, c) => return violation("ExtraBytesVlr", format!("in the file: {}, in the metadata: {}", r.is_some(), c.is_some())),
    }
    let shown = must("LASMetadata:Display", || m.to_string())?;
    ensure!(shown.contains(&n.to_string()), "LASMetadata:Display", "{n} points are not in {shown}");
    let c = must("clone_into_box", || m.clone_into_box())?;
    ensure!(c.number_of_points() == Some(n) && c.bounds() == Some(b), "clone_into_box", "the clone has {:?} points", c.number_of_points());
    let _ = bytes;
    Ok(())
}

fn check_layout(l: &PointLayout, want: &[Field], exact: bool) -> Verdict {
    let l = L::of(l.clone());
    ensure!(l.attrs.len() == want.len() && want.iter().all(|w| l.attrs.iter().any(|a| a.def == w.def)), "layout", "records of {:?}, the layout is {}", want.iter().map(|w| w.def.to_string()).collect::<Vec<_>>(), l.show());
    if exact {
        for (a, w) in l.attrs.iter().zip(want) {
            let at = match w.at { Place::At(o) => o, _ => 0 };
            ensure!(a.def == w.def && a.off == at, "layout:exact", "byte {at} of the records is {}, the layout is {}", w.def, l.show());
        }
    }
    Ok(())
}

fn a_file(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let compressed = rng.chance(1, 4);
    let n = rng.below(8);
    let bytes = build(rng, compressed, n);
    let f = parse(&bytes, compressed).expect("a file of this program's own");
    obs.step(|| format!("file: {n} points of format {} in 1.{} vlrs {:?}", f.fmt, f.minor, f.vlrs));
    obs.mix(&bytes[..bytes.len().min(3000)]);
    let exact = rng.bool();
    let r = match open(Source::new(bytes.clone(), rng), compressed, exact, rng)? { Ok(r) => r, Err(e) => return violation("LASReader::from_read", format!("a good file can't be opened: {e}")) };
    check_meta(r.las_metadata(), &f, &bytes, n)?;
    let m2: LASMetadata = match LASMetadata::try_from(r.header()) { Ok(m) => m, Err(e) => return violation("LASMetadata::try_from", format!("{e:#}")) };
    check_meta(&m2, &f, &bytes, n)?;
    for exact in [false, true] {
        let l = must("point_layout_from_las_metadata", || point_layout_from_las_metadata(&m2, exact))?;
        match l { Ok(l) => check_layout(&l, &f.fields(exact), exact)?, Err(e) => return violation("point_layout_from_las_metadata", format!("{e:#}")) }
    }
    let extra = f.recs.first().map_or(0, |r| r.len() - LEN[f.fmt as usize]);
    if n > 0 {
        let o = offset_to_extra_bytes(m2.point_format());
        ensure!(o == (extra > 0).then_some(LEN[f.fmt as usize]), "offset_to_extra_bytes", "format {} with {extra} extra bytes: {o:?}", f.fmt);
    }
    if f.vlrs.iter().any(|r| r.user == b"LASF_Spec" && r.id == 4) { obs.ev("extra_bytes_record") }
    if f.vlrs.iter().any(|r| r.user == b"LASF_Spec" && r.id == 0) { obs.ev("classification_record") }
    if f.vlrs.iter().any(|r| r.user == b"LASF_Spec" && r.id == 3) { obs.ev("text_record") }
    obs.nontrivial();
    Ok(())
}

/// Records as damaged files may have them
fn hostile(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let fmt = rng.below(11) as u8;
    let mut b = las::Builder::from((1, 4));
    b.point_format = las::point::Format::new(fmt).unwrap();
    let mut data = vec![];
    let mut used = 0;
    let mut bad = false;
    let mut defs: Vec<PointAttributeDefinition> = vec![];
    for _ in 0..rng.below(4) {
        let t = if rng.chance(1, 8) { rng.below(256) as u8 } else { rng.range(1, 10) as u8 };
        let name = match rng.below(12) { 0 => "Intensity".to_string(), 1 => "a".into(), 2 => String::new(), k => format!("extra {k}") };
        data.extend(extra_entry(rng, name.as_bytes(), t));
        match extra_type(t) {
            None => bad = true,
            Some(d) => {
                used += size_align(d).0;
                if defs.iter().any(|x| x.name() == name) || fields(fmt, &[], false).iter().any(|x| x.def.name() == name) { bad = true }
                defs.push(PointAttributeDefinition::custom(name.into(), d));
            }
        }
    }
    let extra = match rng.below(4) { 0 => used, 1 => used + rng.range(1, 20), 2 => rng.below(used + 1), _ => rng.below(30) };
    b.point_format.extra_bytes = extra as u16;
    bad |= used > extra;
    let damage = rng.chance(1, 4);
    let mut vlrs = vec![Record { user: b"LASF_Spec".to_vec(), id: 4, desc: vec![], data }];
    if rng.chance(1, 3) { vlrs.push(rand_record(rng)) }
    if damage {
        let k = rng.below(vlrs.len());
        match rng.below(5) {
            0 => { let n = rng.below(vlrs[k].data.len() + 1); vlrs[k].data.truncate(n) }
            1 => { let n = rng.range(1, 40); let x = rng.bytes(n); vlrs[k].data.extend(x) }
            2 => vlrs[k].id = rng.below(6) as u16,
            3 => { let n = vlrs[k].data.len(); if n > 0 { let i = rng.below(n); vlrs[k].data[i] ^= 0x80 } }
            _ => vlrs[k].data.clear(),
        }
    }
    b.vlrs = vlrs.iter().map(vlr).collect();
    let h = b.into_header().unwrap();
    obs.step(|| format!("records {vlrs:?} in format {fmt} with {extra} extra bytes, damaged {damage}"));
    for r in &h.vlrs()[..] {
        let c = must("ClassificationLookup::try_from", || ClassificationLookup::try_from(r))?;
        let is = r.user_id == "LASF_Spec" && r.record_id == 0 && r.data.len() == 4096;
        ensure!(c.is_ok() == is, "ClassificationLookup::try_from", "record {} {} of {} bytes: {}", r.user_id, r.record_id, r.data.len(), c.is_ok());
        let c = must("TextAreaDescription::try_from", || TextAreaDescription::try_from(r))?;
        let is = r.user_id == "LASF_Spec" && r.record_id == 3 && String::from_utf8(r.data.clone()).is_ok();
        ensure!(c.is_ok() == is, "TextAreaDescription::try_from", "record {} {} of {} bytes: {}", r.user_id, r.record_id, r.data.len(), c.is_ok());
        let c = must("ExtraBytesVlr::try_from", || ExtraBytesVlr::try_from(r))?;
        let is = r.user_id == "LASF_Spec" && r.record_id == 4 && r.data.len() % 192 == 0;
        ensure!(is || c.is_err(), "ExtraBytesVlr::try_from", "record {} {} of {} bytes was accepted", r.user_id, r.record_id, r.data.len());
        if let Ok(c) = c { ensure!(c.entries().len() * 192 == r.data.len(), "ExtraBytesVlr::try_from", "{} entries from {} bytes", c.entries().len(), r.data.len()); }
    }
    let m = must("LASMetadata::try_from", || LASMetadata::try_from(&h))?;
    let m = match m {
        Err(e) => {
            ensure!(damage, "LASMetadata::try_from", "a header with good records is an error: {e:#}");
            obs.ev("records_refused");
            return Ok(());
        }
        Ok(m) => m,
    };
    must("LASMetadata:Display", || m.to_string())?;
    for exact in [false, true] {
        let l = must("point_layout_from_las_metadata", || point_layout_from_las_metadata(&m, exact))?;
        if damage { continue }
        match l {
            Ok(l) => {
                if extra == 0 { check_layout(&l, &fields(fmt, &[], exact), exact)?; continue }
                let clash = exact && fields(fmt, &[], true).iter().any(|x| defs.iter().any(|d| d.name() == x.def.name()));
                ensure!(!bad && !clash, "point_layout_from_las_metadata", "{} extra bytes as {vlrs:?} give {}", extra, L::of(l).show());
                let mut d = defs.clone();
                if used < extra { d.push(undescribed(extra - used)) }
                check_layout(&l, &fields(fmt, &d, exact), exact)?;
            }
            Err(e) => {
                ensure!(bad && extra > 0, "point_layout_from_las_metadata", "good extra bytes are an error: {e:#}");
                obs.ev("extra_bytes_refused");
            }
        }
    }
    obs.nontrivial();
    Ok(())
}

/// Entries made with the builder, written and read
fn built(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let n = if rng.chance(1, 100) { rng.range(339, 345) } else { rng.below(5) };
    let mut es = vec![];
    let mut raw = vec![];
    for i in 0..n {
        let top = if rng.chance(1, 5) { 256 } else { 11 };
        let t = rng.below(top) as u8;
        let k = rng.below(33);
        let name = if k == 32 { "n".repeat(32) } else { format!("n{i}") };
        let desc = if k == 31 { "d".repeat(32) } else { "d".repeat(k) };
        let mut x = vec![0u8; 192];
        x[2] = t;
        x[4..4 + name.len()].copy_from_slice(name.as_bytes());
        x[160..160 + desc.len()].copy_from_slice(desc.as_bytes());
        let mut b = ExtraBytesEntryBuilder::new(ExtraBytesDataType::from(t), name, desc);
        for what in 0..5usize {
            if rng.bool() { continue }
            let v: [u8; 8] = if what >= 3 || matches!(t, 9 | 10) { rng.f64(-1e9, 1e9).to_le_bytes() } else { rng.u64().to_le_bytes() };
            x[3] |= 1 << what;
            let at = [40, 64, 88, 112, 136][what];
            x[at..at + 8].copy_from_slice(&v);
            b = match what { 0 => b.no_data_value(v), 1 => b.min_data_value(v), 2 => b.max_data_value(v), 3 => b.with_scale(f64::from_le_bytes(v)), _ => b.with_offset(f64::from_le_bytes(v)) };
        }
        let e = b.build();
        check_entry(&e, &x)?;
        es.push(e);
        raw.extend(x);
    }
    obs.step(|| format!("{n} built entries {:?}", es.iter().take(6).collect::<Vec<_>>()));
    let v: ExtraBytesVlr = es.into_iter().collect();
    let r = must("ExtraBytesVlr:try_into", || -> anyhow::Result<las::Vlr> { (&v).try_into() })?;
    match r {
        Err(e) => {
            ensure!(n * 192 > u16::MAX as usize, "ExtraBytesVlr:try_into", "{n} entries are an error: {e:#}");
            obs.ev("too_long_refused");
        }
        Ok(r) => {
            ensure!(n * 192 <= u16::MAX as usize, "ExtraBytesVlr:try_into", "{n} entries became a record of {} bytes", r.data.len());
            ensure!(r.user_id == "LASF_Spec" && r.record_id == 4, "ExtraBytesVlr:try_into", "the record is {} {}", r.user_id, r.record_id);
            ensure!(r.data == raw, "ExtraBytesVlr:bytes", "the record should be {raw:?}, is {:?}", r.data);
            let back = must("ExtraBytesVlr::try_from", || ExtraBytesVlr::try_from(&r))?;
            match back {
                Err(e) => return violation("ExtraBytesVlr::try_from", format!("a record that was made can't be read: {e:#}")),
                Ok(b) => {
                    ensure!(b.entries().len() == n, "ExtraBytesVlr::try_from", "{n} entries, {} after writing and reading", b.entries().len());
                    for (e, x) in b.entries().iter().zip(raw.chunks(192)) { check_entry(e, x)? }
                    must("ExtraBytesVlr:Display", || b.to_string())?;
                }
            }
            if n > 0 { obs.ev("record_made") }
        }
    }
    if n > 0 { obs.nontrivial() }
    Ok(())
}

fn formats(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let fmt = rng.below(11) as u8;
    let format = las::point::Format::new(fmt).unwrap();
    for exact in [false, true] {
        match must("point_layout_from_las_point_format", || point_layout_from_las_point_format(&format, exact))? {
            Ok(l) => {
                check_layout(&l, &fields(fmt, &[], exact), exact)?;
                if !exact { let g = las_point_format_from_point_layout(&l); ensure!(g == format, "las_point_format_from_point_layout:inverse", "the layout of {format} gives {g}"); }
            }
            Err(e) => return violation("point_layout_from_las_point_format", format!("{format}: {e:#}")),
        }
    }
    // any attributes
    let mut defs: Vec<PointAttributeDefinition> = vec![];
    let pool = if rng.bool() { fields(fmt, &[], false) } else { native() };
    let share = rng.range(1, 8);
    for f in pool { if rng.chance(share, 8) { let dt = *rng.pick(&DT); defs.push(if rng.chance(1, 4) { f.def.with_custom_datatype(dt) } else { f.def }) } }
    for d in rand_defs(rng, 0, 3, false) { if !native().iter().any(|n| n.def.name() == d.name()) { defs.push(d) } }
    rng.shuffle(&mut defs);
    let (l, _) = rand_layout_of(rng, &defs);
    obs.step(|| format!("format for {}", L::of(l.clone()).show()));
    let g = must("las_point_format_from_point_layout", || las_point_format_from_point_layout(&l))?;
    let Ok(g) = g.to_u8() else { return violation("las_point_format_from_point_layout", format!("{} gives {g:?}, which does not exist", L::of(l).show())) };
    let has = |f: u8, d: &PointAttributeDefinition| fields(f, &[], false).iter().any(|x| x.def.name() == d.name());
    let asked: Vec<_> = defs.iter().filter(|d| native().iter().any(|n| n.def.name() == d.name())).collect();
    let ext = asked.iter().any(|d| !(0..6).any(|f| has(f, d)));
    let fits = |f: u8| asked.iter().all(|d| has(f, d) || (ext && d.name() == SCAN_ANGLE_RANK.name()));
    ensure!(fits(g), "las_point_format_from_point_layout", "{} gives format {g}, which does not have all of it", L::of(l).show());
    let least = (0..11).filter(|f| fits(*f)).min_by_key(|f| LEN[*f as usize]).unwrap();
    ensure!(g == least, "las_point_format_from_point_layout:smallest", "{} gives format {g}, {least} has all of it", L::of(l).show());
    for d in defs.iter() {
        let k = native().iter().any(|n| n.def.name() == d.name());
        ensure!(is_known_las_attribute(d) == k, "is_known_las_attribute", "{d}: {}", !k);
    }
    let p = |rng: &mut Rng| [rng.f64(-1e6, 1e6), rng.f64(-1e6, 1e6), rng.f64(-1e6, 1e6)];
    let (a, b) = (p(rng), p(rng));
    let bb = AABB::from_min_max(Point3::new(a[0].min(b[0]), a[1].min(b[1]), a[2].min(b[2])), Point3::new(a[0].max(b[0]), a[1].max(b[1]), a[2].max(b[2])));
    let x = pasture_bounds_to_las_bounds(&bb);
    ensure!([x.min.x, x.min.y, x.min.z, x.max.x, x.max.y, x.max.z] == [bb.min().x, bb.min().y, bb.min().z, bb.max().x, bb.max().y, bb.max().z], "pasture_bounds_to_las_bounds", "{bb:?} is {x:?}");
    ensure!(las_bounds_to_pasture_bounds(x) == bb, "las_bounds_to_pasture_bounds", "{x:?} is not {bb:?}");
    let stem = *rng.pick(&["a", "a.b", "dir.laz/a", "laz", "a.las", ".x"]);
    let ext = *rng.pick(&["las", "laz", "LAZ", "Laz", "LAS", "lazy", "la", ""]);
    let path = if ext.is_empty() { "dir.laz/name".to_string() } else { format!("{stem}.{ext}") };
    let c = must("path_is_compressed_las_file", || path_is_compressed_las_file(&path))?;
    if ext.is_empty() { ensure!(c.is_err(), "path_is_compressed_las_file", "{path} has no extension: {c:?}"); } else { ensure!(matches!(c, Ok(c) if c == (ext.to_lowercase() == "laz")), "path_is_compressed_las_file", "{path}: {c:?}"); }
    obs.ev(&format!("smallest_format_{g}"));
    obs.nontrivial();
    Ok(())
}

pub fn p31(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    match rng.below(4) { 0 => a_file(rng, obs), 1 => hostile(rng, obs), 2 => built(rng, obs), _ => formats(rng, obs) }
}

pub const P31: Property = Property {
    id: "P31",
    rule: "the metadata, named fields, records, layouts and displayed text of LAS files built byte by byte, of headers with damaged or contradictory records, and of extra bytes records made with the builder, compared with the bytes by the specification; layouts and formats in both directions, with the smallest format that has every attribute of random layouts; non-trivial: any case but an empty record",
    assumptions: &["names are ASCII and have at most 32 bytes", "las, laz, chrono, bitfield and array-init are stand-ins"],
    quick_cases: 150_000,
    thorough_cases: 8_000_000,
    case: p31,
    required_events: &["extra_bytes_record", "classification_record", "text_record", "records_refused", "extra_bytes_refused", "record_made", "too_long_refused", "smallest_format_0", "smallest_format_10"],
};
