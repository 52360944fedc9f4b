//! LAS files as their specification describes them, from the bytes alone
use crate::gen::*;
use crate::num::*;
use mon::Rng;
use pasture_core::layout::attributes::*;
use pasture_core::layout::PointAttributeDataType as D;
use pasture_core::layout::*;

pub fn extended(f: u8) -> bool { f >= 6 }
pub fn has_gps(f: u8) -> bool { f == 1 || f >= 3 }
pub fn has_color(f: u8) -> bool { matches!(f, 2 | 3 | 5 | 7 | 8 | 10) }
pub fn has_nir(f: u8) -> bool { matches!(f, 8 | 10) }
pub fn has_wave(f: u8) -> bool { matches!(f, 4 | 5 | 9 | 10) }
pub const LEN: [usize; 11] = [20, 28, 26, 34, 57, 63, 30, 36, 38, 59, 67];
/// The smallest minor version that has a format
pub fn least_minor(f: u8) -> u8 { match f { 0 | 1 => 0, 2 | 3 => 2, 4 | 5 => 3, _ => 4 } }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Place {
    /// bytes from an offset on
    At(usize),
    /// bits of a little endian number: offset, bytes, first bit, count
    Bits(usize, usize, u32, u32),
    World,
}
#[derive(Clone, Debug)]
pub struct Field { pub def: PointAttributeDefinition, pub at: Place }

pub fn local_position() -> PointAttributeDefinition { PointAttributeDefinition::custom("LASLocalPosition".into(), D::Vec3i32) }
pub fn undescribed(n: usize) -> PointAttributeDefinition { PointAttributeDefinition::custom("UndescribedExtraBytes".into(), D::ByteArray(n as u64)) }

/// The attributes of the records of a format, in the order of pasture's default layout, or as the records have them
pub fn fields(f: u8, extras: &[PointAttributeDefinition], exact: bool) -> Vec<Field> {
    let mut v: Vec<Field> = vec![];
    let mut add = |def: PointAttributeDefinition, at: Place| v.push(Field { def, at });
    if exact { add(local_position(), Place::At(0)) } else { add(POSITION_3D, Place::World) }
    add(INTENSITY, Place::At(12));
    let e = extended(f);
    if exact {
        if e { add(PointAttributeDefinition::custom("LASExtendedFlags".into(), D::U16), Place::At(14)) } else { add(PointAttributeDefinition::custom("LASBasicFlags".into(), D::U8), Place::At(14)) }
    } else if e {
        for (d, s, n) in [(RETURN_NUMBER, 0, 4), (NUMBER_OF_RETURNS, 4, 4), (CLASSIFICATION_FLAGS, 8, 4), (SCANNER_CHANNEL, 12, 2), (SCAN_DIRECTION_FLAG, 14, 1), (EDGE_OF_FLIGHT_LINE, 15, 1)] { add(d, Place::Bits(14, 2, s, n)) }
    } else {
        for (d, s, n) in [(RETURN_NUMBER, 0, 3), (NUMBER_OF_RETURNS, 3, 3), (SCAN_DIRECTION_FLAG, 6, 1), (EDGE_OF_FLIGHT_LINE, 7, 1)] { add(d, Place::Bits(14, 1, s, n)) }
    }
    let mut at = if e { 16 } else { 15 };
    let mut next = |def: PointAttributeDefinition| {
        let n = size_align(def.datatype()).0;
        add(def, Place::At(at));
        at += n;
    };
    next(CLASSIFICATION);
    if e { next(USER_DATA); next(SCAN_ANGLE) } else { next(SCAN_ANGLE_RANK); next(USER_DATA) }
    next(POINT_SOURCE_ID);
    if has_gps(f) { next(GPS_TIME) }
    if has_color(f) { next(COLOR_RGB) }
    if has_nir(f) { next(NIR) }
    if has_wave(f) { for d in [WAVE_PACKET_DESCRIPTOR_INDEX, WAVEFORM_DATA_OFFSET, WAVEFORM_PACKET_SIZE, RETURN_POINT_WAVEFORM_LOCATION, WAVEFORM_PARAMETERS] { next(d) } }
    assert_eq!(at, LEN[f as usize]);
    for d in extras { let n = size_align(d.datatype()).0; add(d.clone(), Place::At(at)); at += n; }
    v
}

#[derive(Clone, Debug, PartialEq)]
pub struct Record { pub user: Vec<u8>, pub id: u16, pub desc: Vec<u8>, pub data: Vec<u8> }

#[derive(Clone, Debug)]
pub struct Las {
    pub minor: u8,
    pub fmt: u8,
    pub n: usize,
    pub legacy_n: u64,
    pub legacy_by_return: Vec<u64>,
    pub large: Option<(u64, Vec<u64>)>,
    pub scale: [f64; 3],
    pub offset: [f64; 3],
    pub min: [f64; 3],
    pub max: [f64; 3],
    pub source_id: u16,
    pub system: Vec<u8>,
    pub software: Vec<u8>,
    pub date: (u16, u16),
    pub vlrs: Vec<Record>,
    pub evlrs: Vec<Record>,
    pub extras: Vec<PointAttributeDefinition>,
    /// the described extra bytes don't fit into the records
    pub overfull: bool,
    pub recs: Vec<Vec<u8>>,
    pub at: usize,
    /// what is between the records and the points
    pub pad: Vec<u8>,
}

fn text(b: &[u8]) -> Vec<u8> { b.iter().copied().take_while(|c| *c != 0).collect() }

pub fn extra_type(t: u8) -> Option<D> {
    Some(match t { 1 => D::U8, 2 => D::I8, 3 => D::U16, 4 => D::I16, 5 => D::U32, 6 => D::I32, 7 => D::U64, 8 => D::I64, 9 => D::F32, 10 => D::F64, _ => return None })
}

pub fn extras_of(vlrs: &[Record], extra: usize) -> Option<Vec<PointAttributeDefinition>> {
    let mut v = vec![];
    if extra == 0 { return Some(v) }
    let mut used = 0;
    if let Some(r) = vlrs.iter().find(|r| r.user == b"LASF_Spec" && r.id == 4) {
        for e in r.data.chunks(192) {
            let d = extra_type(e[2])?;
            used += size_align(d).0;
            v.push(PointAttributeDefinition::custom(String::from_utf8(text(&e[4..36])).ok()?.into(), d));
        }
    }
    if used > extra { return None }
    if used < extra { v.push(undescribed(extra - used)) }
    Some(v)
}

pub fn parse(b: &[u8], compressed: bool) -> Result<Las, String> {
    if b.len() < 227 || &b[..4] != b"LASF" { return Err(format!("no header in {} bytes", b.len())) }
    let u16a = |i: usize| u16::from_le_bytes(b[i..i + 2].try_into().unwrap());
    let u32a = |i: usize| u32::from_le_bytes(b[i..i + 4].try_into().unwrap());
    let u64a = |i: usize| u64::from_le_bytes(b[i..i + 8].try_into().unwrap());
    let f64a = |i: usize| f64::from_le_bytes(b[i..i + 8].try_into().unwrap());
    let (major, minor) = (b[24], b[25]);
    if major != 1 || minor > 4 { return Err(format!("version {major}.{minor}")) }
    let least = match minor { 0..=2 => 227, 3 => 235, _ => 375 };
    let hs = u16a(94) as usize;
    if hs < least || b.len() < hs { return Err(format!("a header of {hs} bytes in version 1.{minor}, the file has {}", b.len())) }
    let at = u32a(96) as usize;
    let nv = u32a(100) as usize;
    let fmt = b[104] & 0x3f;
    if fmt > 10 || least_minor(fmt) > minor { return Err(format!("format {fmt} in version 1.{minor}")) }
    let len = u16a(105) as usize;
    if len < LEN[fmt as usize] { return Err(format!("records of {len} bytes in format {fmt}")) }
    let legacy_n = u32a(107) as u64;
    let legacy_by_return: Vec<u64> = (0..5).map(|i| u32a(111 + 4 * i) as u64).collect();
    let three = |i: usize| [f64a(i), f64a(i + 8), f64a(i + 16)];
    let large = (minor >= 4).then(|| (u64a(247), (0..15).map(|i| u64a(255 + 8 * i)).collect::<Vec<_>>()));
    let record = |p: &mut usize, ext: bool| -> Result<Record, String> {
        let h = if ext { 60 } else { 54 };
        if *p + h > b.len() { return Err(format!("no record at {p}")) }
        let n = if ext { u64a(*p + 20) as usize } else { u16a(*p + 20) as usize };
        let d = *p + if ext { 28 } else { 22 };
        if *p + h + n > b.len() { return Err(format!("the record at {p} with {n} bytes ends after the file")) }
        let r = Record { user: text(&b[*p + 2..*p + 18]), id: u16a(*p + 18), desc: text(&b[d..d + 32]), data: b[*p + h..*p + h + n].to_vec() };
        *p += h + n;
        Ok(r)
    };
    let mut p = hs;
    let mut vlrs = vec![];
    for _ in 0..nv { vlrs.push(record(&mut p, false)?) }
    if p > at { return Err(format!("the records reach to byte {p}, the points start at {at}")) }
    let n = match large { Some((n, _)) => n as usize, None => legacy_n as usize };
    let first = at + if compressed { 8 } else { 0 };
    if first + n * len > b.len() && !(compressed && n == 0) { return Err(format!("{n} points of {len} bytes from {first} on don't fit into {} bytes", b.len())) }
    let recs: Vec<Vec<u8>> = if n == 0 { vec![] } else { b[first..first + n * len].chunks(len).map(|c| c.to_vec()).collect() };
    let mut evlrs = vec![];
    let mut end = if n == 0 && compressed { b.len().min(first) } else { first + n * len };
    if minor >= 4 && u32a(243) > 0 {
        let mut p = u64a(235) as usize;
        if p < end { return Err(format!("extended records at byte {p}, the points end at {end}")) }
        for _ in 0..u32a(243) { evlrs.push(record(&mut p, true)?) }
        end = p;
    }
    if end != b.len() { return Err(format!("the file has {} bytes, its contents {end}", b.len())) }
    let x = extras_of(&vlrs, len - LEN[fmt as usize]);
    Ok(Las {
        minor, fmt, n, legacy_n, legacy_by_return, large,
        scale: three(131), offset: three(155),
        max: [f64a(179), f64a(195), f64a(211)], min: [f64a(187), f64a(203), f64a(219)],
        source_id: u16a(4), system: text(&b[26..58]), software: text(&b[58..90]), date: (u16a(90), u16a(92)),
        vlrs, evlrs, overfull: x.is_none(), extras: x.unwrap_or_default(), recs, at, pad: b[p..at].to_vec(),
    })
}

impl Las {
    pub fn world(&self, r: &[u8]) -> [f64; 3] { let p = self.local(r); [0, 1, 2].map(|k| p[k] as f64 * self.scale[k] + self.offset[k]) }
    pub fn local(&self, r: &[u8]) -> [i32; 3] { [0, 1, 2].map(|k| i32::from_le_bytes(r[4 * k..4 * k + 4].try_into().unwrap())) }
    pub fn value(&self, f: &Field, r: &[u8]) -> Vec<u8> {
        match f.at {
            Place::At(o) => r[o..o + size_align(f.def.datatype()).0].to_vec(),
            Place::Bits(o, bytes, s, n) => {
                let x = (0..bytes).map(|i| (r[o + i] as u32) << (8 * i)).sum::<u32>();
                vec![(x >> s & ((1 << n) - 1)) as u8]
            }
            Place::World => self.world(r).iter().flat_map(|x| x.to_ne_bytes()).collect(),
        }
    }
    pub fn fields(&self, exact: bool) -> Vec<Field> { fields(self.fmt, &self.extras, exact) }
    /// Every attribute that can be asked for
    pub fn known(&self) -> Vec<Field> {
        let mut v = self.fields(false);
        for f in self.fields(true) { if !v.iter().any(|g| g.def.name() == f.def.name()) { v.push(f) } }
        v
    }
}

pub fn near(a: f64, b: f64, tol: f64) -> bool { a == b || (a - b).abs() <= tol || (a.is_nan() && b.is_nan()) }

/// Whether `got` is record `r` read into a point with layout `tl` that was `old`
pub fn point_ok(f: &Las, known: &[Field], r: &[u8], tl: &L, got: &Pt, old: &Pt) -> Result<(), String> {
    for (k, a) in tl.attrs.iter().enumerate() {
        let to = a.def.datatype();
        match known.iter().find(|x| x.def.name() == a.def.name()) {
            None => {
                if got[k] != old[k] && got[k].iter().any(|b| *b != 0) { return Err(format!("{}, which is not in the file, changed from {:?} to {:?}", a.def, old[k], got[k])) }
            }
            Some(x) if x.at == Place::World => {
                let (l, w) = (f.local(r), f.world(r));
                let s = size_align(to).0 / 3;
                for c in 0..3 {
                    let g = match load(to, &got[k][c * s..c * s + s]) { Num::F(g) => g, _ => f64::NAN };
                    let size = (l[c] as f64 * f.scale[c]).abs().max(w[c].abs()).max(f.offset[c].abs());
                    let eps = if s == 4 { f32::EPSILON as f64 } else { f64::EPSILON };
                    let want = if s == 4 { w[c] as f32 as f64 } else { w[c] };
                    if !near(g, want, 2.0 * eps * size + if s == 4 { 1e-44 } else { 1e-320 }) { return Err(format!("{} coordinate {c} is {g}, want {want} from {} with scale {} and offset {}", a.def, l[c], f.scale[c], f.offset[c])) }
                }
            }
            Some(x) => {
                let v = f.value(x, r);
                let want = if x.def.datatype() == to { v.clone() } else { reference(x.def.datatype(), to, &v).unwrap() };
                let ok = if matches!(to, D::ByteArray(_)) { got[k] == want } else { same(to, &got[k], &want) };
                if !ok { return Err(format!("{} is {:?}, want {want:?}: the record {r:?} has {v:?} as {}", a.def, got[k], x.def)) }
            }
        }
    }
    Ok(())
}

/// A name for a record or an attribute
fn word(rng: &mut Rng, max: usize) -> Vec<u8> { (0..rng.range(1, max)).map(|_| *rng.pick(b"abcdefghijklmnop_ XYZ0123456789")).collect() }

pub fn extra_entry(rng: &mut Rng, name: &[u8], t: u8) -> Vec<u8> {
    let mut e = vec![0u8; 192];
    e[2] = t;
    e[3] = rng.below(32) as u8;
    e[4..4 + name.len()].copy_from_slice(name);
    for o in [40, 64, 88] {
        // no data, min and max are widened to 64 bits
        let v: [u8; 8] = match t {
            9 | 10 => rng.f64(-1e6, 1e6).to_le_bytes(),
            2 | 4 | 6 | 8 => rng.irange(-1000, 1000).to_le_bytes(),
            _ => rng.u64().to_le_bytes(),
        };
        e[o..o + 8].copy_from_slice(&v);
    }
    e[112..120].copy_from_slice(&rng.f64(-10.0, 10.0).to_le_bytes());
    e[136..144].copy_from_slice(&rng.f64(-10.0, 10.0).to_le_bytes());
    if rng.bool() { let d = word(rng, 32); e[160..160 + d.len()].copy_from_slice(&d) }
    e
}

/// Extra bytes: their record, if any, and their number
pub fn rand_extras(rng: &mut Rng) -> (Option<Record>, usize) {
    let mut data = vec![];
    let mut n = 0;
    let mut names: Vec<Vec<u8>> = vec![];
    let k = rng.below(4);
    for _ in 0..k {
        let t = rng.range(1, 10) as u8;
        let name = if rng.chance(1, 5) { vec![b'n'; 32] } else { word(rng, 20) };
        if names.contains(&name) { continue }
        data.extend(extra_entry(rng, &name, t));
        names.push(name);
        n += size_align(extra_type(t).unwrap()).0;
    }
    if rng.bool() || n == 0 { n += rng.range(1, 9) }
    let r = (!data.is_empty()).then(|| Record { user: b"LASF_Spec".to_vec(), id: 4, desc: b"extra".to_vec(), data });
    (r, n)
}

pub fn rand_record(rng: &mut Rng) -> Record {
    match rng.below(6) {
        0 => Record { user: b"LASF_Spec".to_vec(), id: 3, desc: vec![], data: word(rng, 60) },
        1 => {
            let mut data = vec![];
            for i in 0..256 { let mut e = vec![0u8; 16]; e[0] = i as u8; if i < 20 { let w = word(rng, 16); let n = w.len().min(15); e[1..1 + n].copy_from_slice(&w[..n]) } data.extend(e) }
            Record { user: b"LASF_Spec".to_vec(), id: 0, desc: b"classes".to_vec(), data }
        }
        k => Record { user: if k == 2 { b"LASF_Projection".to_vec() } else { word(rng, 16) }, id: rng.range(100, 60000) as u16, desc: word(rng, 32), data: { let n = rng.below(90); rng.bytes(n) } },
    }
}

pub fn rand_transform(rng: &mut Rng) -> ([f64; 3], [f64; 3]) {
    let mut s = [0.0; 3];
    let mut o = [0.0; 3];
    for k in 0..3 {
        s[k] = match rng.below(6) { 0 => 1.0, 1 => 0.5, 2 => 0.01, 3 => rng.f64(1e-7, 2.0), 4 => 1e-7, _ => 0.001 };
        o[k] = match rng.below(5) { 0 | 1 => 0.0, 2 => rng.irange(-10, 10) as f64 * 1e5, 3 => rng.f64(-1e6, 1e6), _ => rng.f64(-10.0, 10.0) };
    }
    if rng.bool() { s = [s[0]; 3] }
    (s, o)
}

fn put_record(b: &mut Vec<u8>, r: &Record, ext: bool) {
    b.extend([0, 0]);
    let mut f = |x: &[u8], n: usize| { let mut v = x.to_vec(); v.resize(n, 0); v };
    b.extend(f(&r.user, 16));
    b.extend(r.id.to_le_bytes());
    if ext { b.extend((r.data.len() as u64).to_le_bytes()) } else { b.extend((r.data.len() as u16).to_le_bytes()) }
    b.extend(f(&r.desc, 32));
    b.extend(&r.data);
}

/// A file as another program might write it
pub fn build(rng: &mut Rng, compressed: bool, n: usize) -> Vec<u8> {
    let fmt = if compressed { rng.below(9) } else { rng.below(11) } as u8;
    let least = least_minor(fmt);
    let minor = rng.range(least as usize, 4) as u8;
    let (scale, offset) = rand_transform(rng);
    let (xr, extra) = if rng.chance(1, 3) { rand_extras(rng) } else { (None, 0) };
    let mut vlrs: Vec<Record> = vec![];
    if rng.bool() { for _ in 0..rng.below(3) { let r = rand_record(rng); if !vlrs.iter().any(|v| v.user == r.user && v.id == r.id) { vlrs.push(r) } } }
    vlrs.extend(xr);
    let len = LEN[fmt as usize] + extra;
    if compressed {
        // what the stand-in for the codec wants to know
        let mut data = (fmt as u16).to_le_bytes().to_vec();
        data.extend((len as u16).to_le_bytes());
        vlrs.push(Record { user: b"laszip encoded".to_vec(), id: 22204, desc: b"https://laszip.org".to_vec(), data });
    }
    rng.shuffle(&mut vlrs);
    let hs = match minor { 0..=2 => 227, 3 => 235, _ => 375 } + if rng.chance(1, 6) { rng.range(1, 20) } else { 0 };
    let mut v: Vec<u8> = vec![];
    for r in &vlrs { put_record(&mut v, r, false) }
    if rng.chance(1, 4) { let k = rng.range(1, 30); v.extend(rng.bytes(k)) }
    let at = hs + v.len();
    let mut recs = vec![];
    for _ in 0..n.min(101) {
        let mut r = rng.bytes(len);
        // most points lie close together
        if rng.chance(2, 3) { for k in 0..3 { r[4 * k..4 * k + 4].copy_from_slice(&(rng.irange(-100000, 100000) as i32).to_le_bytes()) } }
        recs.push(r);
    }
    for i in recs.len()..n { let r = recs[i % 101].clone(); recs.push(r) }
    let mut by = [0u64; 15];
    for r in &recs {
        let k = (r[14] & if extended(fmt) { 15 } else { 7 }) as usize;
        if k > 0 { by[k - 1] += 1 }
    }
    let (mut min, mut max) = ([f64::MAX; 3], [f64::MIN; 3]);
    for r in &recs {
        for k in 0..3 {
            let p = i32::from_le_bytes(r[4 * k..4 * k + 4].try_into().unwrap()) as f64 * scale[k] + offset[k];
            min[k] = min[k].min(p);
            max[k] = max[k].max(p);
        }
    }
    let mut b = b"LASF".to_vec();
    b.extend(rng.bytes(2));
    b.extend([rng.below(2) as u8, 0]);
    b.extend(rng.bytes(16));
    b.extend([1, minor]);
    for _ in 0..2 { let mut w = if rng.chance(1, 6) { vec![b's'; 32] } else { word(rng, 20) }; w.resize(32, 0); b.extend(w) }
    let (day, year) = if rng.chance(1, 5) { (0, 0) } else { (rng.range(1, 365), rng.range(1990, 2030)) };
    b.extend((day as u16).to_le_bytes());
    b.extend((year as u16).to_le_bytes());
    b.extend((hs as u16).to_le_bytes());
    b.extend((at as u32).to_le_bytes());
    b.extend((vlrs.len() as u32).to_le_bytes());
    b.push(fmt | if compressed { 0x80 } else { 0 });
    b.extend((len as u16).to_le_bytes());
    let legacy = fmt < 6;
    b.extend((if legacy { n as u32 } else { 0 }).to_le_bytes());
    for k in 0..5 { b.extend((if legacy { by[k] as u32 } else { 0 }).to_le_bytes()) }
    for x in scale.iter().chain(&offset) { b.extend(x.to_le_bytes()) }
    for k in 0..3 { b.extend(max[k].to_le_bytes()); b.extend(min[k].to_le_bytes()) }
    if minor >= 3 { b.extend(0u64.to_le_bytes()) }
    if minor >= 4 {
        b.extend(0u64.to_le_bytes());
        b.extend(0u32.to_le_bytes());
        b.extend((n as u64).to_le_bytes());
        for k in by { b.extend(k.to_le_bytes()) }
    }
    let more = hs - b.len();
    b.extend(rng.bytes(more));
    b.extend(v);
    if compressed { b.extend((-1i64).to_le_bytes()) }
    b.extend(recs.iter().flatten());
    b
}
