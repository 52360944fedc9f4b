//! P16: the voxel grid filter
use crate::any_buffer;
use crate::common::*;
use crate::gen::*;
use mon::{attempt, ensure, must, must_refuse, Obs, Property, Rng, Verdict};
use nalgebra::Vector3;
use pasture_algorithms::voxel_grid::voxelgrid_filter;
use pasture_core::containers::*;
use pasture_core::layout::*;
use std::collections::BTreeMap;

fn supported() -> Vec<PointAttributeDefinition> {
    use attributes::*;
    vec![
        INTENSITY, RETURN_NUMBER, NUMBER_OF_RETURNS, CLASSIFICATION_FLAGS, SCANNER_CHANNEL, SCAN_DIRECTION_FLAG, EDGE_OF_FLIGHT_LINE,
        CLASSIFICATION, SCAN_ANGLE_RANK, SCAN_ANGLE, USER_DATA, POINT_SOURCE_ID, COLOR_RGB, GPS_TIME, NIR, POINT_ID, NORMAL,
    ]
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Red { Avg(f64), Common, Max }

fn reduction(name: &str) -> Red {
    use attributes::*;
    if name == POSITION_3D.name() { Red::Avg(1e-9) }
    else if name == NORMAL.name() { Red::Avg(1e-4) }
    else if name == INTENSITY.name() || name == NIR.name() || name == COLOR_RGB.name() { Red::Avg(1.0) }
    else if name == CLASSIFICATION_FLAGS.name() || name == GPS_TIME.name() || name == POINT_ID.name() { Red::Max }
    else { Red::Common }
}

fn comps_f64(d: PointAttributeDataType, b: &[u8]) -> Vec<f64> {
    use PointAttributeDataType as D;
    macro_rules! c { ($t:ty) => { b.chunks_exact(std::mem::size_of::<$t>()).map(|c| bytemuck::pod_read_unaligned::<$t>(c) as f64).collect() } }
    match d {
        D::U8 | D::Vec3u8 => c!(u8),
        D::I8 => c!(i8),
        D::U16 | D::Vec3u16 => c!(u16),
        D::I16 => c!(i16),
        D::F32 | D::Vec3f32 => c!(f32),
        _ => c!(f64),
    }
}

/// The value of one attribute of a generated point. Few different values, so that there are majorities.
fn value(rng: &mut Rng, d: &PointAttributeDefinition) -> Vec<u8> {
    use PointAttributeDataType as D;
    let n = d.name();
    if n == attributes::SCAN_DIRECTION_FLAG.name() || n == attributes::EDGE_OF_FLIGHT_LINE.name() { return vec![rng.below(2) as u8] }
    if n == attributes::GPS_TIME.name() {
        let t = match rng.below(4) { 0 => rng.f64(-1e6, 0.0), 1 => -(rng.below(50) as f64) - 1.0, 2 => rng.f64(-1e6, 1e9), _ => rng.below(100) as f64 };
        return t.to_ne_bytes().to_vec();
    }
    if n == attributes::NORMAL.name() { return (0..3).flat_map(|_| (rng.f64(-1.0, 1.0) as f32).to_ne_bytes()).collect() }
    match d.datatype() {
        D::U8 => vec![if rng.chance(1, 4) { rng.u64() as u8 } else { rng.below(4) as u8 }],
        D::I8 => vec![if rng.chance(1, 4) { rng.u64() as u8 } else { (rng.irange(-2, 1) as i8) as u8 }],
        D::I16 => if rng.chance(1, 4) { rng.u64() as i16 } else { rng.irange(-2, 1) as i16 }.to_ne_bytes().to_vec(),
        D::U16 => if rng.chance(1, 2) { rng.u64() as u16 } else { rng.below(4) as u16 }.to_ne_bytes().to_vec(),
        D::U64 => match rng.below(3) { 0 => rng.u64(), 1 => (1u64 << 53) + rng.below(100) as u64, _ => rng.below(1000) as u64 }.to_ne_bytes().to_vec(),
        D::Vec3u16 => (0..3).flat_map(|_| if rng.bool() { rng.u64() as u16 } else { 65535 }.to_ne_bytes()).collect(),
        d => rand_value(rng, d),
    }
}

/// The marker of the grid that a coordinate is nearest to; None if that is too close to call
fn marker(p: f64, min: f64, max: f64, leaf: f64) -> Option<i64> {
    if !(min < max) { return Some(0) }
    // the markers are at min + k * leaf for k = 1, 2, .. up to the first one that is not below the maximum
    let x = (p - min) / leaf;
    let slack = 1e-7 * (1.0 + x.abs());
    let f = x - x.floor();
    if (f - 0.5).abs() < slack { return None }
    let last = (max - min) / leaf;
    // beyond the middle of the last two markers there is only the last one, and none is at the minimum itself
    let k = (x.round() as i64).max(1);
    let top = { let c = last.round(); if (last - c).abs() < slack { c as i64 } else { last.ceil() as i64 } };
    // whether a marker lies on the maximum or just beside it only matters above the last one
    if k > top { return None }
    Some(k)
}

pub fn p16(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let more = supported();
    // the source may have more than the target
    let k = rng.below(8);
    let (l, pi) = layout_with_position(rng, &more, k);
    let mut tdefs: Vec<PointAttributeDefinition> = l.attrs.iter().map(|a| a.def.clone()).filter(|d| d.name() == "Position3D" || rng.chance(3, 4)).collect();
    if rng.bool() { rng.shuffle(&mut tdefs) }
    if tdefs.is_empty() { tdefs.push(attributes::POSITION_3D) }
    let t = if rng.bool() { L::of(l.layout.clone()) } else { L::of(rand_layout_of(rng, &tdefs).0) };

    let n = match rng.below(20) { 0 => 0, 1 => 1, 2 => rng.range(40, 150), _ => count(rng, obs, 30).clamp(2, 2100) };
    let mode = rng.below(5);
    let base = [0.0, -10.0, 1000.0, 1e6, -77.25][rng.below(5)];
    let span = [4.0, 0.0, 1.0, 10.0][rng.below(4)];
    let flat = [rng.chance(1, 5), rng.chance(1, 5), rng.chance(1, 5)];
    let mut m = vec![];
    for _ in 0..n {
        let mut p: Pt = l.attrs.iter().map(|a| value(rng, &a.def)).collect();
        let mut c = [0.0f64; 3];
        for (k, x) in c.iter_mut().enumerate() {
            *x = base + match mode {
                _ if flat[k] => 0.0,
                0 => rng.below(33) as f64 / 8.0 * span / 4.0,
                1 => rng.f64(0.0, span),
                // clusters
                2 => [0.0, 1.1, 3.3, 4.0][rng.below(4)] + rng.f64(0.0, 0.2),
                3 => rng.below(5) as f64,
                _ => rng.f64(-span, span),
            };
        }
        p[pi] = v3(&c);
        m.push(p);
    }
    let leaf = [0, 1, 2].map(|_| match rng.below(6) { 0 => 1.0, 1 => 0.5, 2 => 100.0, 3 => 0.75, 4 => rng.f64(0.3, 3.0), _ => 1.5 });
    let extra = rng.below(3);
    let before = t.rand_pts(rng, extra);
    obs.step(|| format!("source {}\ntarget {} with {extra} points\nleaf {leaf:?}\n{n} points {m:?}", l.show(), t.show()));

    // the partition
    let pos: Vec<[f64; 3]> = m.iter().map(|p| bytemuck::pod_read_unaligned(&p[pi])).collect();
    let mut cells: BTreeMap<[i64; 3], Vec<usize>> = BTreeMap::new();
    let mut clear = true;
    for (i, p) in pos.iter().enumerate() {
        let mut key = [0; 3];
        for k in 0..3 {
            let min = pos.iter().map(|q| q[k]).fold(f64::INFINITY, f64::min);
            let max = pos.iter().map(|q| q[k]).fold(f64::NEG_INFINITY, f64::max);
            match marker(p[k], min, max, leaf[k]) { Some(x) => key[k] = x, None => clear = false }
        }
        cells.entry(key).or_default().push(i);
    }
    if cells.len() > 1 && cells.len() < n { obs.nontrivial() }

    any_buffer!(&l, &m, rng, b, who => {
        obs.step(|| format!("from {who}"));
        let out = if rng.bool() {
            let mut o = vbuf(&t, &before, rng);
            must("voxelgrid_filter", || voxelgrid_filter(b, leaf[0], leaf[1], leaf[2], &mut o))?;
            snapshot(&o, &t)
        } else {
            let mut o = hbuf(&t, &before, rng);
            must("voxelgrid_filter", || voxelgrid_filter(b, leaf[0], leaf[1], leaf[2], &mut o))?;
            snapshot(&o, &t)
        };
        unchanged("voxelgrid_filter", b, &l, &m)?;
        ensure!(out.len() >= extra && out[..extra] == before, "voxelgrid_filter:target", "the points that were in the target are gone or changed");
        let out = &out[extra..];
        if !clear {
            obs.ev("too_close_to_call");
            ensure!(out.len() <= n && (n == 0) == out.is_empty(), "voxelgrid_filter:count", "{} points out of {n}", out.len());
            return Ok(());
        }
        ensure!(out.len() == cells.len(), "voxelgrid_filter:count", "{} points for {} occupied cells ({n} points, leaf {leaf:?}): {cells:?}", out.len(), cells.len());
        // each output point represents one cell, each cell has one
        let mut free: Vec<&Vec<usize>> = cells.values().collect();
        for o in out {
            let mut why = String::new();
            let hit = free.iter().position(|c| match represents(&l, &t, &m, c, o) { Ok(()) => true, Err(e) => { if why.len() < 2000 { why.push_str(&format!("cell {c:?}: {e}; ")) } false } });
            let Some(h) = hit else { return mon::violation(format!("voxelgrid_filter:{}", if cells.len() == 1 { &why[why.find(": ").map_or(0, |x| x + 2)..why.find(" is ").unwrap_or(why.len())] } else { "representative" }), format!("output {o:?} represents no remaining cell: {why}")) };
            free.remove(h);
        }
        obs.evn("cells", cells.len() as u64);
        obs.evn("merged_points", (n - cells.len()) as u64);
        if who.contains("slice") { obs.ev("from_slice") }
        if t.layout != l.layout { obs.ev("other_target_layout") }
        if n == 0 { obs.ev("empty_cloud") }
    });
    Ok(())
}

fn represents(l: &L, t: &L, m: &[Pt], cell: &[usize], o: &Pt) -> Result<(), String> {
    for (ta, a) in t.attrs.iter().enumerate() {
        let si = l.attrs.iter().position(|s| s.def.name() == a.def.name()).unwrap();
        let dt = a.def.datatype();
        let vals: Vec<&Vec<u8>> = cell.iter().map(|i| &m[*i][si]).collect();
        match reduction(a.def.name()) {
            Red::Avg(tol) => {
                let got = comps_f64(dt, &o[ta]);
                for (k, g) in got.iter().enumerate() {
                    let s: Vec<f64> = vals.iter().map(|v| comps_f64(dt, v)[k]).collect();
                    let mean = s.iter().sum::<f64>() / s.len() as f64;
                    let scale = s.iter().fold(1.0f64, |x, y| x.max(y.abs()));
                    let tol = if tol < 1.0 { tol * scale } else { 1.0 };
                    if !((g - mean).abs() <= tol) || (tol >= 1.0 && *g > mean + 0.5 + 1e-6) { return Err(format!("average of {} is {g}, want {mean}", a.def.name())) }
                }
            }
            Red::Common => {
                let n = |v: &Vec<u8>| vals.iter().filter(|x| **x == v).count();
                let best = vals.iter().map(|v| n(v)).max().unwrap();
                if n(&o[ta]) != best { return Err(format!("most common {} is {:?}, of {vals:?}", a.def.name(), o[ta])) }
            }
            Red::Max => {
                let ok = match dt {
                    PointAttributeDataType::U64 => vals.iter().map(|v| typed::<u64>(v)).max().unwrap() == typed::<u64>(&o[ta]),
                    PointAttributeDataType::U8 => vals.iter().map(|v| v[0]).max().unwrap() == o[ta][0],
                    _ => vals.iter().map(|v| typed::<f64>(v)).fold(f64::NEG_INFINITY, f64::max) == typed::<f64>(&o[ta]),
                };
                if !ok { return Err(format!("maximum of {} is {:?}, of {vals:?}", a.def.name(), o[ta])) }
            }
        }
    }
    Ok(())
}

fn p16_refused(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    // no positions
    let l = L::of(PointLayout::from_attributes(&[attributes::INTENSITY]));
    let m = l.rand_pts(rng, 3);
    let b = vbuf(&l, &m, rng);
    let mut o = VectorBuffer::new_from_layout(l.layout.clone());
    must_refuse("voxelgrid_filter without positions", || voxelgrid_filter(&b, 1.0, 1.0, 1.0, &mut o))?;
    // a cell without extent
    let l = L::of(PointLayout::from_attributes(&[attributes::POSITION_3D]));
    let m: Vec<Pt> = (0..4).map(|i| vec![v3(&[i as f64, 2.0 * i as f64, -(i as f64)])]).collect();
    let b = vbuf(&l, &m, rng);
    let mut leaf = [1.0; 3];
    leaf[rng.below(3)] = [0.0, -1.0, f64::NEG_INFINITY, f64::NAN, -0.0][rng.below(5)];
    obs.step(|| format!("leaf {leaf:?}"));
    let mut o = VectorBuffer::new_from_layout(l.layout.clone());
    must_refuse("voxelgrid_filter with a cell without extent", || voxelgrid_filter(&b, leaf[0], leaf[1], leaf[2], &mut o))?;
    ensure!(o.len() == 0, "voxelgrid_filter refused", "a refused filter left {} points", o.len());
    obs.ev("refused");
    Ok(())
}

fn p16_any(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    if rng.chance(1, 50) { p16_refused(rng, obs) } else { p16(rng, obs) }
}

pub const P16: Property = Property {
    id: "P16",
    rule: "clouds of dyadic, random and clustered positions with random sets of the supported attributes, few-valued so that majorities exist, from every kind of buffer into both owning kinds; non-trivial: more than one cell and fewer cells than points",
    assumptions: &["a cell is the set of points nearest to one marker; clouds with a point too close to the middle of two markers are only counted", "any of several equally common values is right"],
    quick_cases: 300_000,
    thorough_cases: 5_000_000,
    case: p16_any,
    required_events: &["cells", "merged_points", "from_slice", "other_target_layout", "empty_cloud", "refused"],
};
