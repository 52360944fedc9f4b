//! P23 (text output reads back) and P24 (reading text)
use crate::common::*;
use crate::gen::*;
use crate::io::*;
use crate::num::*;
use crate::any_buffer;
use crate::mutbuf::KINDS;
use crate::with_mut_buffer;
use iosrc::ascii::*;
use iosrc::base::*;
use mon::{attempt, ensure, must, violation, Obs, Property, Rng, Verdict};
use pasture_core::containers::*;
use pasture_core::layout::*;
use std::collections::BTreeMap;
use std::io::BufReader;

const LETTERS: [char; 18] = ['s', 'x', 'y', 'z', 'i', 'r', 'n', 'c', 'u', 'R', 'G', 'B', 't', 'p', 'e', 'd', 'a', 'I'];

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Dec,
    Int(i128, i128),
    Flag,
}

/// What the documentation says a format literal stands for: attribute, component, kind of number
fn literal(c: char) -> Option<(PointAttributeDefinition, usize, Kind)> {
    use attributes::*;
    let (u8s, u16s) = (Kind::Int(0, 255), Kind::Int(0, 65535));
    Some(match c {
        'x' => (POSITION_3D, 0, Kind::Dec),
        'y' => (POSITION_3D, 1, Kind::Dec),
        'z' => (POSITION_3D, 2, Kind::Dec),
        'i' => (INTENSITY, 0, u16s),
        'r' => (RETURN_NUMBER, 0, u8s),
        'n' => (NUMBER_OF_RETURNS, 0, u8s),
        'c' => (CLASSIFICATION, 0, u8s),
        'u' => (USER_DATA, 0, u8s),
        'R' => (COLOR_RGB, 0, u16s),
        'G' => (COLOR_RGB, 1, u16s),
        'B' => (COLOR_RGB, 2, u16s),
        't' => (GPS_TIME, 0, Kind::Dec),
        'p' => (POINT_SOURCE_ID, 0, u16s),
        'e' => (EDGE_OF_FLIGHT_LINE, 0, Kind::Flag),
        'd' => (SCAN_DIRECTION_FLAG, 0, Kind::Flag),
        'a' => (SCAN_ANGLE_RANK, 0, Kind::Int(-128, 127)),
        'I' => (NIR, 0, u16s),
        _ => return None,
    })
}

fn needed(fmt: &[char]) -> Vec<PointAttributeDefinition> {
    let mut v: Vec<PointAttributeDefinition> = vec![];
    for (d, _, _) in fmt.iter().filter_map(|c| literal(*c)) {
        if !v.iter().any(|x| x.name() == d.name()) { v.push(d) }
    }
    v
}

fn rand_fmt(rng: &mut Rng) -> Vec<char> {
    match rng.below(6) {
        0 => {
            let mut v = LETTERS.to_vec();
            rng.shuffle(&mut v);
            let k = rng.range(1, v.len());
            v.truncate(k);
            v
        }
        1 => "xyzirncuRGBtpedaI".chars().collect(),
        2 => vec![*rng.pick(&LETTERS)],
        3 if rng.chance(1, 8) => vec![],
        _ => (0..rng.range(1, 12)).map(|_| *rng.pick(&LETTERS)).collect(),
    }
}

/// Delimiters that no number contains
fn rand_delim(rng: &mut Rng) -> String {
    const C: [char; 11] = [',', ';', ' ', '\t', '|', '/', ':', '_', '#', '→', 'é'];
    match rng.below(4) {
        0 => ", ".into(),
        1 => (*rng.pick(&[",", ";", " ", "\t"])).into(),
        _ => (0..rng.range(1, 3)).map(|_| *rng.pick(&C)).collect(),
    }
}

fn f64_of(b: &[u8]) -> f64 {
    f64::from_le_bytes(b.try_into().unwrap())
}

fn component(def: &PointAttributeDefinition, k: usize, v: &[u8]) -> Vec<u8> {
    let w = v.len() / comps(def.datatype());
    v[k * w..(k + 1) * w].to_vec()
}

/// Whether a decimal number is right to `prec` digits
fn close(got: f64, v: f64, prec: usize) -> bool {
    if v.is_nan() || v.is_infinite() {
        return got.to_bits() == v.to_bits() || (v.is_nan() && got.is_nan());
    }
    let ulp = (v.abs() * f64::EPSILON).max(f64::from_bits(1));
    (got - v).abs() <= 0.5 * 10f64.powi(-(prec as i32)) * (1.0 + 1e-9) + 4.0 * ulp
}

/// Whether the text of a column says what the point holds
fn column_ok(c: char, text: &str, l: &L, p: &Pt, prec: usize) -> Result<(), String> {
    let Some((def, k, kind)) = literal(c) else {
        return if text.is_empty() { Ok(()) } else { Err(format!("skipped column holds {text:?}")) };
    };
    let i = l.attrs.iter().position(|a| a.def == def).unwrap();
    let v = component(&def, k, &p[i]);
    let ok = match kind {
        Kind::Dec => text.parse::<f64>().map(|g| close(g, f64_of(&v), prec)).unwrap_or(false),
        Kind::Flag => text == if v[0] > 0 { "1" } else { "0" },
        Kind::Int(..) => {
            let Num::I(x) = load(def.datatype(), &component(&def, 0, &v_as_full(&def, &v))) else { unreachable!() };
            text.parse::<i128>() == Ok(x)
        }
    };
    if ok { Ok(()) } else { Err(format!("column {c} of {} is {text:?}, the point has {}", def.name(), if kind == Kind::Dec { format!("{:?}", f64_of(&v)) } else { format!("{v:?}") })) }
}

/// `load` wants a component of the scalar width of the datatype, which `component` gives
fn v_as_full(def: &PointAttributeDefinition, v: &[u8]) -> Vec<u8> {
    v.repeat(comps(def.datatype()))
}

fn rand_text_pt(l: &L, rng: &mut Rng) -> Pt {
    let mut p = l.rand_pt(rng);
    for (a, v) in l.attrs.iter().zip(p.iter_mut()) {
        if a.def == attributes::POSITION_3D && rng.bool() {
            // coordinates as they occur, also with many zeros at their end
            let s = *rng.pick(&[1.0, 10.0, 1000.0, 1e5, 1e7]);
            *v = v3(&[(); 3].map(|_| if rng.bool() { (rng.f64(-1.0, 1.0) * s).round() * s } else { rng.f64(-1.0, 1.0) * s }));
        } else if a.def == attributes::GPS_TIME && rng.bool() {
            *v = (if rng.bool() { rng.irange(-50, 5_000_000) as f64 * 10.0 } else { rng.f64(0.0, 4e8) }).to_le_bytes().to_vec();
        }
    }
    p
}

fn show_text(t: &[u8]) -> String {
    let s = String::from_utf8_lossy(t);
    let mut s: String = s.chars().take(1500).collect();
    if s.len() < t.len() { s.push('…') }
    format!("{s:?}")
}

pub fn p23(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let big = rng.chance(1, 500);
    let fmt: Vec<char> = if big { (0..rng.range(1, 2)).map(|_| *rng.pick(&LETTERS)).collect() } else { rand_fmt(rng) };
    let fs: String = fmt.iter().collect();
    let default_delim = rng.chance(1, 5);
    let delim = if default_delim { ", ".to_string() } else { rand_delim(rng) };
    let default_prec = rng.chance(1, 5);
    let prec = if default_prec { 5 } else { rng.below(18) };
    obs.step(|| format!("format {fs:?} delimiter {delim:?} precision {prec}"));

    if rng.chance(1, 40) {
        // a literal that does not exist
        let mut bad = fmt.clone();
        let c = *rng.pick(&['Q', 'X', 'Y', 'Z', 'S', 'b', 'g', 'f', 'N', '?', ' ', ',', '1', 'ö', 'A', 'T']);
        let at = rng.below(bad.len() + 1);
        bad.insert(at, c);
        let bad: String = bad.iter().collect();
        let w = must("AsciiWriter:bad format", || AsciiWriter::from_write(Sink::new(rng), &bad).is_ok())?;
        ensure!(!w, "AsciiWriter:bad format", "a writer for format {bad:?}");
        let src = BufReader::new(Source::new(vec![], rng));
        let r = must("AsciiReader:bad format", || AsciiReader::from_read(src, &bad, &delim).is_ok())?;
        ensure!(!r, "AsciiReader:bad format", "a reader for format {bad:?}");
        obs.ev("unknown_literal");
        return Ok(());
    }

    let mut defs = needed(&fmt);
    let missing = !defs.is_empty() && rng.chance(1, 25);
    if missing {
        let i = rng.below(defs.len());
        defs.remove(i);
    }
    let have: Vec<&str> = defs.iter().map(|d| d.name()).collect();
    let own = needed(&fmt);
    let mut extra = rand_defs(rng, if defs.is_empty() { 1 } else { 0 }, if big { 1 } else { 4 }, false);
    extra.retain(|d| !have.contains(&d.name()) && !own.iter().any(|x| x.name() == d.name()));
    if extra.is_empty() && defs.is_empty() { extra.push(PointAttributeDefinition::custom("Filler".into(), PointAttributeDataType::U32)) }
    defs.extend(extra);
    rng.shuffle(&mut defs);
    let (pl, how) = rand_layout_of(rng, &defs);
    let l = L::of(pl);
    obs.step(|| format!("layout {how} {}", l.show()));

    // one cloud in several writes
    let writes = if big { 1 } else { rng.range(1, 3) };
    let mut all: Vec<Pt> = vec![];
    let sink = if rng.chance(1, 12) { let at = rng.below(400); Sink::failing(rng, at) } else { Sink::new(rng) };
    let scratch = if !big && rng.chance(1, 60) { Some(Scratch::new(rng)) } else { None };
    let path = scratch.as_ref().map(|s| s.0.join("points.txt"));
    let out = sink.clone();
    enum W {
        S(AsciiWriter<Sink>),
        F(AsciiWriter<std::io::BufWriter<std::fs::File>>),
    }
    macro_rules! w {
        ($w:expr, $v:ident => $b:expr) => { match &mut $w { W::S($v) => $b, W::F($v) => $b } };
    }
    let made = must("AsciiWriter::from_write", || match &path {
        Some(p) => AsciiWriter::from_path(p, &fs).map(W::F),
        None => AsciiWriter::from_write(sink, &fs).map(W::S),
    })?;
    let Ok(mut writer) = made else { return violation("AsciiWriter::from_write", format!("no writer for format {fs:?}")) };
    if !default_delim { w!(writer, v => v.set_delimiter(&delim)) }
    if !default_prec { w!(writer, v => v.set_precision(prec)) }
    let mut refused = false;
    for _ in 0..writes {
        let n = if big { *rng.pick(&[49_999, 50_000, 50_001, 50_003, 100_000, 100_007]) } else if rng.chance(1, 6) { 0 } else { rng.range(1, 12) };
        let m: Vec<Pt> = (0..n).map(|_| rand_text_pt(&l, rng)).collect();
        let kind;
        let r = any_buffer!(&l, &m, rng, b, who => {
            kind = who;
            let r = must("AsciiWriter::write", || w!(writer, v => v.write(b)).is_ok())?;
            unchanged("AsciiWriter::write", b, &l, &m)?;
            r
        });
        obs.step(|| if big { format!("write {n} points from {kind}") } else { format!("write {kind} {m:?}") });
        obs.ev(&format!("src_{}", kind.replace(' ', "_")));
        if n > 50_000 { obs.ev("over_a_chunk") }
        all.extend(m);
        if missing && !all.is_empty() {
            ensure!(!r, "AsciiWriter::write:missing attribute", "a cloud without an attribute of format {fs:?} was written: {}", l.show());
            obs.ev("missing_attribute");
            return Ok(());
        }
        if !r { refused = true; break }
    }
    if !refused {
        refused = !must("AsciiWriter::flush", || w!(writer, v => v.flush()).is_ok())?;
        if !refused && path.is_none() {
            let (a, b) = (out.flushed(), out.bytes());
            ensure!(a == b, "AsciiWriter::flush", "after the flush {} of {} bytes are flushed", a.len(), b.len());
        }
    }
    if out.failed() {
        ensure!(refused, "AsciiWriter:lost output", "the output took only {} bytes of format {fs:?}, no error was reported", out.bytes().len());
        obs.ev("output_failed");
        return Ok(());
    }
    ensure!(!refused, "AsciiWriter::write", "writing {} points of {} as {fs:?} is an error", all.len(), l.show());
    drop(writer);
    let bytes = match &path {
        Some(p) => { obs.ev("file"); std::fs::read(p).unwrap_or_default() }
        None => out.bytes(),
    };

    // the text itself
    let Ok(text) = String::from_utf8(bytes.clone()) else { return violation("text", format!("not UTF-8: {}", show_text(&bytes))) };
    let mut lines: Vec<&str> = text.split('\n').collect();
    ensure!(lines.pop() == Some(""), "text:last line", "format {fs:?}: the text does not end with a line end: {}", show_text(&bytes));
    ensure!(lines.len() == all.len(), "text:lines", "{} points as {fs:?} give {} lines: {}", all.len(), lines.len(), show_text(&bytes));
    for (i, (line, p)) in lines.iter().zip(&all).enumerate() {
        let cols: Vec<&str> = if fmt.is_empty() { vec![] } else { line.split(delim.as_str()).collect() };
        ensure!(cols.len() == fmt.len() && (!fmt.is_empty() || line.is_empty()), "text:columns", "point {i} as {fs:?} with delimiter {delim:?} is {line:?}");
        for (c, t) in fmt.iter().zip(&cols) {
            if let Err(e) = column_ok(*c, t, &l, p, prec) {
                return violation(format!("text:{c}"), format!("point {i}, format {fs:?}, delimiter {delim:?}, precision {prec}: {e}; line {line:?}"));
            }
        }
    }
    obs.evn("columns", (lines.len() * fmt.len()) as u64);

    // and back
    let own = needed(&fmt);
    if own.is_empty() { return Ok(()) }
    let src = BufReader::with_capacity(*rng.pick(&[1usize, 2, 5, 16, 8192]), Source::new(bytes.clone(), rng));
    let more = rng.below(4);
    let cnt = all.len() + more;
    let as_vec = rng.bool();
    let (rl, got, lay) = if path.is_some() {
        let p = path.as_ref().unwrap();
        let Ok(mut r) = must("AsciiReader::from_path", || AsciiReader::from_path(p, &fs, &delim))? else { return violation("AsciiReader::from_path", "no reader for the file just written") };
        read_all(&mut r, cnt, as_vec)?
    } else {
        let Ok(mut r) = must("AsciiReader::from_read", || AsciiReader::from_read(src, &fs, &delim))? else { return violation("AsciiReader::from_read", format!("no reader for format {fs:?}")) };
        read_all(&mut r, cnt, as_vec)?
    };
    ensure!(same_attributes(&rl, &own), "AsciiReader:layout", "the layout for format {fs:?} is {}", rl.show());
    ensure!(lay == rl.layout, "AsciiReader:layout", "read() gives a buffer of layout {lay} from a reader of layout {}", rl.layout);
    ensure!(got.len() == all.len(), "AsciiReader::read:count", "{} points read back as {}", all.len(), got.len());
    for (i, (g, p)) in got.iter().zip(&all).enumerate() {
        for (ai, a) in rl.attrs.iter().enumerate() {
            let src = l.attrs.iter().position(|x| x.def == a.def).unwrap();
            let w = g[ai].len() / comps(a.def.datatype());
            for k in 0..comps(a.def.datatype()) {
                let (x, y) = (&g[ai][k * w..(k + 1) * w], &p[src][k * w..(k + 1) * w]);
                let lit = fmt.iter().find_map(|c| literal(*c).filter(|t| t.0 == a.def && t.1 == k).map(|t| t.2));
                let ok = match lit {
                    None => x.iter().all(|b| *b == 0),
                    Some(Kind::Dec) => close(f64_of(x), f64_of(y), prec),
                    Some(Kind::Flag) => x[0] == (y[0] > 0) as u8,
                    Some(_) => x == y,
                };
                ensure!(ok, format!("read back:{}", a.def.name()), "format {fs:?}, delimiter {delim:?}, precision {prec}: component {k} of {} of point {i} was {y:?} and reads back as {x:?} (line {:?})", a.def, lines[i]);
            }
        }
    }
    obs.evn("points_read_back", got.len() as u64);
    if !all.is_empty() { obs.nontrivial() }
    Ok(())
}

fn same_attributes(l: &L, want: &[PointAttributeDefinition]) -> bool {
    l.attrs.len() == want.len() && want.iter().all(|d| l.attrs.iter().any(|a| a.def == *d))
}

fn read_all<R: PointReader>(r: &mut R, cnt: usize, as_vec: bool) -> Result<(L, Vec<Pt>, PointLayout), mon::Violation> {
    let rl = L::of(r.get_default_point_layout().clone());
    let got = if as_vec {
        match must("read", || r.read::<VectorBuffer>(cnt))? { Ok(b) => Ok((snapshot(&b, &rl), b.point_layout().clone())), Err(e) => Err(e) }
    } else {
        match must("read", || r.read::<HashMapBuffer>(cnt))? { Ok(b) => Ok((snapshot(&b, &rl), b.point_layout().clone())), Err(e) => Err(e) }
    };
    match got {
        Ok((p, lay)) => Ok((rl, p, lay)),
        Err(e) => violation("read", format!("reading back failed: {e:#}")),
    }
}

// ---------------------------------------------------------------- P24

struct Line {
    text: Vec<u8>,
    /// the values of the columns in the attributes of the format, or `None` if the line is bad
    vals: Option<BTreeMap<String, Vec<u8>>>,
}

fn good_int(rng: &mut Rng, lo: i128, hi: i128) -> (String, i128) {
    let x = match rng.below(5) {
        0 => lo,
        1 => hi,
        2 => 0.max(lo),
        _ => lo + (rng.u64() as i128) % (hi - lo + 1),
    };
    let s = if x >= 0 && rng.chance(1, 8) { format!("{:04}", x) } else { x.to_string() };
    (s, x)
}

fn good_dec(rng: &mut Rng) -> (String, f64) {
    let v = if rng.bool() { rand_f64(rng) } else { rng.f64(-1e6, 1e6) };
    let s = match rng.below(8) {
        0 => format!("{v:e}"),
        1 => { let p = rng.below(9); format!("{v:.p$}") }
        2 => rng.irange(-1000, 100_000).to_string(),
        3 => (*rng.pick(&[".5", "5.", "1e-5", "1E5", "-0", "-.25", "00012.50", "inf", "-inf", "NaN", "1e400", "123456789012345678901234567890"])).to_string(),
        _ => format!("{v}"),
    };
    let v = s.parse().unwrap();
    (s, v)
}

fn bad_text(rng: &mut Rng, kind: Kind) -> String {
    let mut c: Vec<String> = ["", "abc", "0x1F", "--1", "1.2.3", "1-", "ß"].iter().map(|s| s.to_string()).collect();
    match kind {
        Kind::Dec => c.extend(["1e", "e5", "."].iter().map(|s| s.to_string())),
        Kind::Flag => c.extend(["2", "255", "256", "-1", "1.0", "true"].iter().map(|s| s.to_string())),
        Kind::Int(lo, hi) => {
            c.extend([(hi + 1).to_string(), (lo - 1).to_string(), (hi + 1 + rng.below(1 << 20) as i128).to_string(), (lo - 1 - rng.below(1 << 20) as i128).to_string()]);
            c.extend(["1.0", "1e2", "99999999999999999999999999"].iter().map(|s| s.to_string()));
        }
    }
    c[rng.below(c.len())].clone()
}

/// The text of a column that nobody reads
fn filler(rng: &mut Rng, delim: &str) -> Vec<u8> {
    let c: Vec<&str> = ["", "0", "junk", "-1e9", "é", "1.5", "x;y"].into_iter().filter(|t| !t.chars().any(|c| delim.contains(c))).collect();
    rng.pick(&c).as_bytes().to_vec()
}

fn make_line(fmt: &[char], delim: &str, bad: bool, rng: &mut Rng, obs: &mut Obs) -> Line {
    let mut cols: Vec<Vec<u8>> = vec![];
    let mut vals: BTreeMap<String, Vec<u8>> = needed(fmt).iter().map(|d| (d.name().to_string(), vec![0u8; size_align(d.datatype()).0])).collect();
    for c in fmt {
        let Some((def, k, kind)) = literal(*c) else {
            cols.push(filler(rng, delim));
            continue;
        };
        let (s, v) = match kind {
            Kind::Dec => { let (s, v) = good_dec(rng); (s, v.to_le_bytes().to_vec()) }
            Kind::Flag => { let b = rng.bool() as u8; (b.to_string(), vec![b]) }
            Kind::Int(lo, hi) => {
                let (s, x) = good_int(rng, lo, hi);
                let w = size_align(def.datatype()).0 / comps(def.datatype());
                (s, x.to_le_bytes()[..w].to_vec())
            }
        };
        let slot = vals.get_mut(def.name()).unwrap();
        slot[k * v.len()..(k + 1) * v.len()].copy_from_slice(&v);
        cols.push(s.into_bytes());
    }
    let d = delim.as_bytes();
    if !bad {
        for _ in 0..if rng.chance(1, 4) { rng.range(1, 3) } else { 0 } {
            cols.push(filler(rng, delim));
            obs.ev("extra_columns");
        }
        return Line { text: cols.join(d), vals: Some(vals) };
    }
    let typed: Vec<usize> = (0..fmt.len()).filter(|i| literal(fmt[*i]).is_some()).collect();
    match rng.below(6) {
        0 if fmt.len() > 1 => {
            // fewer columns
            let k = rng.range(1, fmt.len() - 1);
            cols.truncate(k);
            obs.ev("bad_too_few_columns");
        }
        1 => {
            // no text at all
            let at = rng.below(cols.len());
            cols[at].extend(*rng.pick(&[&b"\xff"[..], &b"\xc3"[..], &b"1\x80"[..]]));
            obs.ev("bad_utf8");
        }
        _ if !typed.is_empty() => {
            let i = *rng.pick(&typed);
            let kind = literal(fmt[i]).unwrap().2;
            cols[i] = bad_text(rng, kind).into_bytes();
            obs.ev(match kind { Kind::Dec => "bad_decimal", Kind::Flag => "bad_flag", _ => "bad_integer" });
        }
        _ => {
            cols[0].push(0xff);
            obs.ev("bad_utf8");
        }
    }
    Line { text: cols.join(d), vals: None }
}

/// A target layout for a reader of `own`; `true` if every attribute in both can be converted
fn rand_target(own: &[PointAttributeDefinition], rng: &mut Rng) -> (L, bool) {
    let mut ok = true;
    let mut defs: Vec<PointAttributeDefinition> = vec![];
    for d in own {
        match rng.below(8) {
            0 => {}
            1 | 2 => {
                let t = *rng.pick(&DT);
                if convertible(d.datatype(), t) { defs.push(d.with_custom_datatype(t)) }
                else if rng.chance(1, 12) { ok = false; defs.push(d.with_custom_datatype(t)) }
                else { defs.push(d.clone()) }
            }
            _ => defs.push(d.clone()),
        }
    }
    for d in rand_defs(rng, 0, 3, false) {
        if !own.iter().any(|x| x.name() == d.name()) && rng.bool() { defs.push(d) }
    }
    if defs.is_empty() { defs.push(PointAttributeDefinition::custom("Filler".into(), PointAttributeDataType::U16)) }
    rng.shuffle(&mut defs);
    let (pl, _) = rand_layout_of(rng, &defs);
    (L::of(pl), ok)
}

/// Whether `got` is what reading `vals` (attribute name -> bytes of the default type) into `old` may give
pub fn read_point_ok(tl: &L, own: &[PointAttributeDefinition], vals: &BTreeMap<String, Vec<u8>>, got: &Pt, old: &Pt) -> Result<(), String> {
    for (i, a) in tl.attrs.iter().enumerate() {
        match own.iter().find(|d| d.name() == a.def.name()) {
            Some(d) => {
                let v = &vals[d.name()];
                let want = reference(d.datatype(), a.def.datatype(), v).unwrap();
                if !same(a.def.datatype(), &got[i], &want) {
                    return Err(format!("{} is {:?}, should be {want:?} ({v:?} as {})", a.def, got[i], d.datatype()));
                }
            }
            // an attribute that was not read keeps its value or has none
            None => {
                if got[i] != old[i] && got[i].iter().any(|b| *b != 0) {
                    return Err(format!("{}, which is not in the source, is {:?} (was {:?})", a.def, got[i], old[i]));
                }
            }
        }
    }
    Ok(())
}

pub fn p24(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let fmt = loop {
        let f = rand_fmt(rng);
        if !f.is_empty() { break f }
    };
    let fs: String = fmt.iter().collect();
    let delim = rand_delim(rng);
    let own = needed(&fmt);
    let n = count(rng, obs, 15);
    let with_bad = rng.chance(1, 3);
    let lines: Vec<Line> = (0..n)
        .map(|_| { let bad = with_bad && rng.chance(1, 5); make_line(&fmt, &delim, bad, rng, obs) })
        .collect();
    let crlf = rng.below(3);
    let mut text: Vec<u8> = vec![];
    for (i, l) in lines.iter().enumerate() {
        text.extend(&l.text);
        if i + 1 == n && rng.bool() && !l.text.is_empty() { obs.ev("unterminated"); break }
        text.extend(if crlf == 1 || (crlf == 2 && rng.bool()) { &b"\r\n"[..] } else { &b"\n"[..] });
    }
    obs.step(|| format!("format {fs:?} delimiter {delim:?} text {}", show_text(&text)));
    let src = if rng.chance(1, 10) { let at = rng.below(text.len() + 1); Source::failing(text.clone(), rng, at) } else { Source::new(text.clone(), rng) };
    let failed = src.failed.clone();
    let src = BufReader::with_capacity(*rng.pick(&[1usize, 2, 5, 16, 8192]), src);
    let Ok(mut r) = must("AsciiReader::from_read", || AsciiReader::from_read(src, &fs, &delim))? else { return violation("AsciiReader::from_read", format!("no reader for format {fs:?}")) };
    let rl = L::of(r.get_default_point_layout().clone());
    ensure!(same_attributes(&rl, &own), "AsciiReader:layout", "the layout for format {fs:?} is {}", rl.show());

    let mut at = 0;
    let calls = rng.range(1, 6);
    for _ in 0..calls {
        let count = match rng.below(6) {
            0 => 0,
            1 => n - at,
            2 => n - at + rng.range(1, 4),
            _ => rng.below(n + 2),
        };
        let k = count.min(n - at);
        let bad = lines[at..at + k].iter().position(|l| l.vals.is_none());
        if rng.chance(1, 4) && !own.is_empty() {
            // into a new buffer
            obs.step(|| format!("read {count} at line {at}"));
            let res = must("read", || r.read::<VectorBuffer>(count))?;
            let dead = *failed.borrow();
            match res {
                Err(e) => {
                    ensure!(bad.is_some() || dead, "read:error", "reading {count} at line {at} of {n} is an error: {e:#}");
                    obs.ev(if dead { "source_failed" } else { "bad_line_refused" });
                    return Ok(());
                }
                Ok(b) => {
                    ensure!(!dead, "read:lost input", "the source failed, no error was reported");
                    ensure!(bad.is_none(), "read:bad line accepted", "line {} is bad for format {fs:?}: {}", at + bad.unwrap(), show_text(&lines[at + bad.unwrap()].text));
                    let got = snapshot(&b, &rl);
                    ensure!(got.len() == k, "read:count", "reading {count} at line {at} of {n} gives {} points", got.len());
                    for (j, g) in got.iter().enumerate() {
                        if let Err(e) = read_point_ok(&rl, &own, lines[at + j].vals.as_ref().unwrap(), g, &rl.zero()) {
                            return violation("read:value", format!("line {} of format {fs:?} {}: {e}", at + j, show_text(&lines[at + j].text)));
                        }
                    }
                    obs.evn("lines_read", k as u64);
                }
            }
            at += k;
            continue;
        }
        let (tl, ok) = if rng.chance(1, 3) && !own.is_empty() { (rl.clone(), true) } else { rand_target(&own, rng) };
        let m = tl.rand_pts(rng, count);
        let extra = rng.below(4);
        let mut m = m;
        m.extend(tl.rand_pts(rng, extra));
        let kind = rng.below(5);
        obs.step(|| format!("read_into {} of {} points {}, count {count} at line {at}", KINDS[kind], m.len(), tl.show()));
        let (res, s) = with_mut_buffer!(kind, &tl, &m, rng, b => must("read_into", || r.read_into(b, count))?);
        let dead = *failed.borrow();
        match res {
            Err(e) => {
                ensure!(bad.is_some() || dead || !ok, "read_into:error", "reading {count} at line {at} of {n} is an error: {e:#}");
                // good lines before the problem may have been stored
                let upto = if !ok { 0 } else if dead { k } else { bad.unwrap() };
                for (j, (g, o)) in s.iter().zip(&m).enumerate() {
                    let stored = j < upto && lines[at + j].vals.as_ref().map_or(false, |v| read_point_ok(&tl, &own, v, g, o).is_ok());
                    ensure!(g == o || stored, "read_into:error:changed", "point {j} changed from {o:?} to {g:?} by a call that failed ({e:#})");
                }
                obs.ev(if !ok { "conversion_refused" } else if dead { "source_failed" } else { "bad_line_refused" });
                return Ok(());
            }
            Ok(c) => {
                ensure!(!dead, "read_into:lost input", "the source failed, no error was reported");
                ensure!(ok, "read_into:impossible conversion", "format {fs:?} was read into {}", tl.show());
                ensure!(bad.is_none(), "read_into:bad line accepted", "line {} is bad for format {fs:?}: {}", at + bad.unwrap(), show_text(&lines[at + bad.unwrap()].text));
                ensure!(c == k, "read_into:count", "reading {count} at line {at} of {n} reports {c} points");
                for (j, (g, o)) in s.iter().zip(&m).enumerate() {
                    if j >= k {
                        ensure!(g == o, "read_into:beyond", "point {j} changed from {o:?} to {g:?} though {c} points were read");
                    } else if let Err(e) = read_point_ok(&tl, &own, lines[at + j].vals.as_ref().unwrap(), g, o) {
                        return violation("read_into:value", format!("line {} of format {fs:?} {}: {e}", at + j, show_text(&lines[at + j].text)));
                    }
                }
                obs.evn("lines_read", k as u64);
                if k < count { obs.ev("short_read") }
                if tl.attrs.iter().any(|a| own.iter().any(|d| d.name() == a.def.name() && d.datatype() != a.def.datatype())) && k > 0 { obs.ev("converted") }
            }
        }
        obs.ev(&format!("into_{}", KINDS[kind].replace(' ', "_")));
        at += k;
    }
    if n > 0 { obs.nontrivial() }
    Ok(())
}

pub const P23: Property = Property {
    id: "P23",
    rule: "random format strings (all literals, repeats, skips), delimiters of one to three characters, precisions 0 to 17, clouds with extra attributes in every kind of buffer, one to three writes (some of more points than an internal chunk holds), sinks that take few bytes at a time or fail; non-trivial: points were written and read back",
    assumptions: &[
        "the attributes of the format have their default types in the cloud; delimiters contain no character of a number and no line end",
        "flags are written as 0 or 1; a column that is skipped is written empty",
    ],
    quick_cases: 60_000,
    thorough_cases: 3_000_000,
    case: p23,
    required_events: &["columns", "points_read_back", "over_a_chunk", "missing_attribute", "unknown_literal", "output_failed", "file", "src_VectorBuffer", "src_HashMapBuffer", "src_ExternalMemoryBuffer", "src_columnar_slice"],
};

pub const P24: Property = Property {
    id: "P24",
    rule: "generated texts (numbers in several notations, extra columns, mixed line ends, unterminated last lines, bad lines of every kind) read by sequences of read and read_into calls into every kind of buffer and target layout, through sources that give few bytes at a time, are interrupted or fail; non-trivial: the text has lines",
    assumptions: &[
        "numbers are written as Rust parses them; whether surrounding spaces or a plus sign are accepted is left open",
        "attributes of the target that the text does not have may keep their value or become zero; what is read after an error is left open",
    ],
    quick_cases: 150_000,
    thorough_cases: 8_000_000,
    case: p24,
    required_events: &["lines_read", "short_read", "converted", "conversion_refused", "bad_line_refused", "bad_too_few_columns", "bad_utf8", "bad_decimal", "bad_integer", "bad_flag", "source_failed", "extra_columns", "unterminated", "into_columnar_slice"],
};
