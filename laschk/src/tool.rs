//! The command line tool of pasture-tools
use crate::common::*;
use crate::gen::*;
use crate::io::*;
use crate::model::*;
use crate::num::*;
use crate::whole::*;
use mon::*;
use pasture_core::layout::attributes::*;
use pasture_core::layout::*;
use pasture_io::base::{GenericPointReader, PointReader};
use std::path::Path;
use std::process::Command;

/// What the detailed report shows, in the datatype of the attribute it is for
fn labels() -> Vec<(PointAttributeDefinition, Vec<&'static str>)> {
    vec![
        (POSITION_3D, vec!["X", "Y", "Z"]),
        (INTENSITY, vec!["Intensity"]),
        (RETURN_NUMBER, vec!["Return number"]),
        (NUMBER_OF_RETURNS, vec!["Number of returns"]),
        (SCAN_DIRECTION_FLAG, vec!["Scan direction flag"]),
        (EDGE_OF_FLIGHT_LINE, vec!["Edge of flight line"]),
        (CLASSIFICATION, vec!["Classification"]),
        (SCAN_ANGLE_RANK, vec!["Scan angle rank"]),
        (USER_DATA, vec!["User data"]),
        (POINT_SOURCE_ID, vec!["Point source ID"]),
        (COLOR_RGB, vec!["Color R", "Color G", "Color B"]),
        (GPS_TIME, vec!["GPS time"]),
        (NIR, vec!["NIR"]),
    ]
}

fn val(n: Num) -> f64 { match n { Num::I(i) => i as f64, Num::F(f) => f } }

struct Out { ok: bool, text: String, err: String }
fn info(args: &[&std::ffi::OsStr]) -> Out {
    let exe = std::env::current_exe().unwrap().parent().unwrap().join("pasture-info");
    let o = Command::new(&exe).args(args).env_remove("RUST_BACKTRACE").output().unwrap_or_else(|e| panic!("{}: {e}", exe.display()));
    Out { ok: o.status.success(), text: String::from_utf8_lossy(&o.stdout).into_owned(), err: String::from_utf8_lossy(&o.stderr).into_owned() }
}
fn run(path: &Path, detailed: bool, rng: &mut Rng, obs: &mut Obs) -> Out {
    let mut a: Vec<&std::ffi::OsStr> = vec![(*rng.pick(&["-i", "--INPUT"])).as_ref(), path.as_ref()];
    if a[0] == "--INPUT" { a[0] = "-i".as_ref() }
    if detailed {
        let d: &std::ffi::OsStr = (*rng.pick(&["-d", "--detailed"])).as_ref();
        if rng.bool() { a.push(d) } else { a.insert(0, d) }
    }
    obs.step(|| format!("info {a:?}"));
    info(&a)
}

/// The lines behind the metadata: attributes and ranges
fn check_detailed(text: &str, l: &L, pts: &[&Pt], n: usize, obs: &mut Obs) -> Verdict {
    let lines: Vec<&str> = text.lines().map(|s| s.strip_prefix("\t").unwrap_or(s)).collect();
    let Some(at) = lines.iter().position(|x| *x == "Attributes") else { return violation("info:attributes", format!("no list of attributes in {text:?}")) };
    for (i, a) in l.attrs.iter().enumerate() {
        ensure!(lines.get(at + 1 + i) == Some(&a.def.name()), "info:attributes", "attribute {i} of the file is {}, in the report {:?}", a.def.name(), lines.get(at + 1 + i));
    }
    let rest = &lines[(at + 1 + l.attrs.len()).min(lines.len())..];
    for (d, names) in labels() {
        let k = l.attrs.iter().position(|a| a.def.name() == d.name());
        for (c, name) in names.iter().enumerate() {
            let tag = format!("{name}:");
            let got: Vec<Vec<&str>> = rest.iter().filter_map(|x| x.strip_prefix(&tag[..])).map(|x| x.split_whitespace().collect()).collect();
            let Some(k) = k.filter(|_| n > 0) else {
                ensure!(got.is_empty(), "info:ranges", "there is no {name} in the file, the report has {got:?}");
                continue;
            };
            ensure!(got.len() == 1 && got[0].len() == 2, "info:ranges", "a line for {name} with two values is missing: {rest:?}");
            let t = l.attrs[k].def.datatype();
            let w = scalar(t).unwrap().2;
            let f: Vec<f64> = pts.iter().map(|p| {
                let b = &p[k][c * w..c * w + w];
                val(load(t, b))
            }).collect();
            if f.iter().any(|x| x.is_nan()) { obs.ev("nan"); continue }
            let (lo, hi) = (f.iter().cloned().fold(f64::INFINITY, f64::min), f.iter().cloned().fold(f64::NEG_INFINITY, f64::max));
            let g: Vec<Result<f64, _>> = got[0].iter().map(|x| x.parse::<f64>()).collect();
            ensure!(matches!(g[..], [Ok(a), Ok(b)] if a == lo && b == hi), "info:ranges", "{name} lies between {lo} and {hi}, the report says {:?}", got[0]);
            obs.ev("range");
        }
    }
    Ok(())
}

fn large(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let dir = Scratch::new(rng);
    let n = 1_000_000 + rng.range(1, 3);
    let mut b = loop { let b = build(rng, false, 101); if b[104] & 15 == 0 { break b } };
    let f = match parse(&b, false) { Ok(f) => f, Err(e) => return violation("harness", e) };
    let (at, len) = (f.at, f.recs[0].len());
    let first: Vec<u8> = b[at..at + len].to_vec();
    let mut more: Vec<u8> = Vec::with_capacity((n - 101) * len);
    for _ in 101..n - 1 { more.extend_from_slice(&first) }
    // the last point, alone or nearly so in the second part, has the largest and smallest values
    let mut last = first.clone();
    last[12..14].copy_from_slice(&65535u16.to_le_bytes());
    last[17] = *rng.pick(&[0, 255]);
    more.extend_from_slice(&last);
    b.truncate(at + 101 * len);
    b.extend(more);
    b[107..111].copy_from_slice(&(n as u32).to_le_bytes());
    if f.minor >= 4 { b[247..255].copy_from_slice(&(n as u64).to_le_bytes()) }
    let path = dir.0.join("large.las");
    std::fs::write(&path, &b).unwrap();
    obs.step(|| format!("{n} points"));
    let o = run(&path, true, rng, obs);
    ensure!(o.ok, "info:fails", "{}", o.err);
    // the layout and the points that matter
    let mut small = b[..at + 101 * len].to_vec();
    small.extend(&last);
    small[107..111].copy_from_slice(&102u32.to_le_bytes());
    if f.minor >= 4 { small[247..255].copy_from_slice(&102u64.to_le_bytes()) }
    let (l, pts) = match must("direct read", || direct_read(Kind::Las, &small))? { Ok(x) => x, Err(e) => return violation("direct read", e) };
    check_detailed(&o.text, &l, &pts.iter().collect::<Vec<_>>(), n, obs)?;
    obs.ev("large");
    obs.nontrivial();
    Ok(())
}

pub fn p33(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    if rng.chance(1, 300) { return large(rng, obs) }
    let dir = Scratch::new(rng);
    let (k, ext) = rand_ext(rng);
    let stem = *rng.pick(&["points", "a.b", "las.pnts", "with space"]);
    let path = dir.0.join(format!("{stem}.{ext}"));
    if rng.chance(1, 10) {
        let bad = match rng.below(3) { 0 => path.clone(), 1 => dir.0.join("points"), _ => { let p = dir.0.join("points.xyz"); std::fs::write(&p, "1 2 3\n").unwrap(); p } };
        let d = rng.bool();
        let o = run(&bad, d, rng, obs);
        ensure!(!o.ok, "info:refuse", "{bad:?} is no error, the output is {:?}", o.text);
        ensure!(!o.err.trim().is_empty() && !o.err.contains("panicked at"), "info:refuse", "{bad:?} ends with {:?}", o.err);
        obs.ev("refused");
        return Ok(());
    }
    let n = if rng.chance(1, 8) { 0 } else { rng.range(1, 60) };
    let bytes = if k == Kind::Pnts || rng.chance(1, 4) {
        let (l, m, _) = rand_points(k, rng, n);
        match must("direct write", || direct_write(k, &l, &m, rng))? { Ok(b) => b, Err(e) => return violation("direct write", e) }
    } else { build(rng, k == Kind::Laz, n) };
    std::fs::write(&path, &bytes).unwrap();
    let detailed = rng.chance(3, 4);
    let o = run(&path, detailed, rng, obs);
    ensure!(o.ok, "info:fails", "{n} points, detailed {detailed}: {}", o.err);
    let meta = match must("GenericPointReader", || GenericPointReader::open_file(&path))? { Ok(r) => format!("{}", r.get_metadata()), Err(e) => return violation("GenericPointReader::open_file", format!("{e:#}")) };
    ensure!(o.text.lines().next().map_or(false, |x| x.contains(&*path.to_string_lossy())), "info:path", "the report begins with {:?}", o.text.lines().next());
    ensure!(o.text.contains(meta.trim()), "info:metadata", "the metadata of the file is {meta:?}, the report {:?}", o.text);
    let now = std::fs::read(&path).unwrap();
    ensure!(now == bytes, "info:changed", "the file has changed");
    if detailed {
        let (l, pts) = match must("direct read", || direct_read(k, &bytes))? { Ok(x) => x, Err(e) => return violation("direct read", e) };
        check_detailed(&o.text[o.text.find(meta.trim()).unwrap() + meta.trim().len()..], &l, &pts.iter().collect::<Vec<_>>(), n, obs)?;
        obs.ev(&format!("{k:?}_detailed"));
    }
    if n > 0 && detailed { obs.nontrivial() }
    obs.mix(&bytes[..bytes.len().min(3000)]);
    Ok(())
}

pub const P33: Property = Property {
    id: "P33",
    rule: "the info tool, run on LAS, LAZ and PNTS files in a scratch directory, some from pasture's writers, others from an independent generator with every point format, transform and extra bytes, files without points and with more than a million points (several chunks) included; the report has the path, the metadata as the reader shows it, and with -d every attribute of the file in order and, for each attribute the tool knows, the least and greatest value of all points, computed independently; the file is unchanged; missing files and unknown kinds end with an error; non-trivial: a detailed report of a file with points",
    assumptions: &["attributes with NaN values are counted only", "las, laz, chrono, bitfield and array-init are stand-ins; the LAZ codec is the identity"],
    quick_cases: 8_000,
    thorough_cases: 100_000,
    case: p33,
    required_events: &["refused", "range", "Las_detailed", "Laz_detailed", "Pnts_detailed"],
};
