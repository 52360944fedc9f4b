//! Generators shared by the checks of pasture-core: attributes, layouts, points, raw data.
use mon::{Obs, Rng};
use nalgebra::{Vector3, Vector4};
use pasture_core::layout::*;
use std::borrow::Cow;

/// One attribute of a layout as the model sees it
#[derive(Clone, Debug)]
pub struct A {
    pub def: PointAttributeDefinition,
    pub off: usize,
    pub size: usize,
}

/// A layout together with the model's own idea of it
#[derive(Clone, Debug)]
pub struct L {
    pub layout: PointLayout,
    pub attrs: Vec<A>,
    pub size: usize,
}

impl L {
    pub fn of(layout: PointLayout) -> L {
        let attrs = layout
            .attributes()
            .map(|a| A { def: a.attribute_definition().clone(), off: a.offset() as usize, size: a.size() as usize })
            .collect();
        let size = layout.size_of_point_entry() as usize;
        L { layout, attrs, size }
    }
    pub fn show(&self) -> String {
        let mut s = format!("[size {}:", self.size);
        for a in &self.attrs {
            s.push_str(&format!(" {}@{}", a.def, a.off));
        }
        s.push(']');
        s
    }
    pub fn encode(&self, p: &Pt, rng: &mut Rng) -> Vec<u8> {
        let mut v = if rng.bool() { vec![0u8; self.size] } else { rng.bytes(self.size) };
        for (a, d) in self.attrs.iter().zip(p) {
            v[a.off..a.off + a.size].copy_from_slice(d);
        }
        v
    }
    pub fn encode_all(&self, ps: &[Pt], rng: &mut Rng) -> Vec<u8> {
        let mut v = vec![];
        for p in ps {
            v.extend(self.encode(p, rng));
        }
        v
    }
    pub fn decode(&self, b: &[u8]) -> Pt {
        self.attrs.iter().map(|a| b[a.off..a.off + a.size].to_vec()).collect()
    }
    pub fn zero(&self) -> Pt {
        self.attrs.iter().map(|a| vec![0; a.size]).collect()
    }
    pub fn rand_pt(&self, rng: &mut Rng) -> Pt {
        self.attrs.iter().map(|a| rand_value(rng, a.def.datatype())).collect()
    }
    pub fn rand_pts(&self, rng: &mut Rng, n: usize) -> Vec<Pt> {
        (0..n).map(|_| self.rand_pt(rng)).collect()
    }
}

/// A point of the model: the bytes of every attribute, in the order of the layout
pub type Pt = Vec<Vec<u8>>;

pub const DT: [PointAttributeDataType; 16] = [
    PointAttributeDataType::U8,
    PointAttributeDataType::I8,
    PointAttributeDataType::U16,
    PointAttributeDataType::I16,
    PointAttributeDataType::U32,
    PointAttributeDataType::I32,
    PointAttributeDataType::U64,
    PointAttributeDataType::I64,
    PointAttributeDataType::F32,
    PointAttributeDataType::F64,
    PointAttributeDataType::Vec3u8,
    PointAttributeDataType::Vec3u16,
    PointAttributeDataType::Vec3i32,
    PointAttributeDataType::Vec3f32,
    PointAttributeDataType::Vec3f64,
    PointAttributeDataType::Vec4u8,
];

/// Size and alignment of a datatype, from the language and not from pasture
pub fn size_align(d: PointAttributeDataType) -> (usize, usize) {
    use PointAttributeDataType::*;
    match d {
        U8 | I8 => (1, 1),
        U16 | I16 => (2, 2),
        U32 | I32 | F32 => (4, 4),
        U64 | I64 | F64 => (8, std::mem::align_of::<u64>()),
        Vec3u8 => (3, 1),
        Vec3u16 => (6, 2),
        Vec3i32 | Vec3f32 => (12, 4),
        Vec3f64 => (24, 8),
        Vec4u8 => (4, 1),
        ByteArray(n) => (n as usize, 1),
        Custom { size, min_alignment, .. } => (size as usize, min_alignment as usize),
    }
}

/// Calls `$f!(T)` / runs `$body` with `$T` bound to the Rust type of a datatype; `$none` for raw types
#[macro_export]
macro_rules! with_prim {
    ($dt:expr, $T:ident => $body:expr, $none:expr) => {{
        use pasture_core::layout::PointAttributeDataType as D;
        match $dt {
            D::U8 => { type $T = u8; $body }
            D::I8 => { type $T = i8; $body }
            D::U16 => { type $T = u16; $body }
            D::I16 => { type $T = i16; $body }
            D::U32 => { type $T = u32; $body }
            D::I32 => { type $T = i32; $body }
            D::U64 => { type $T = u64; $body }
            D::I64 => { type $T = i64; $body }
            D::F32 => { type $T = f32; $body }
            D::F64 => { type $T = f64; $body }
            D::Vec3u8 => { type $T = nalgebra::Vector3<u8>; $body }
            D::Vec3u16 => { type $T = nalgebra::Vector3<u16>; $body }
            D::Vec3i32 => { type $T = nalgebra::Vector3<i32>; $body }
            D::Vec3f32 => { type $T = nalgebra::Vector3<f32>; $body }
            D::Vec3f64 => { type $T = nalgebra::Vector3<f64>; $body }
            D::Vec4u8 => { type $T = nalgebra::Vector4<u8>; $body }
            _ => $none,
        }
    }};
}

pub fn comps(d: PointAttributeDataType) -> usize {
    use PointAttributeDataType::*;
    match d {
        Vec3u8 | Vec3u16 | Vec3i32 | Vec3f32 | Vec3f64 => 3,
        Vec4u8 => 4,
        _ => 1,
    }
}

pub fn rand_f64(rng: &mut Rng) -> f64 {
    match rng.below(14) {
        0 => 0.0,
        1 => -0.0,
        2 => f64::NAN,
        3 => f64::INFINITY,
        4 => f64::NEG_INFINITY,
        5 => rng.irange(-300, 300) as f64,
        6 => rng.irange(-300, 300) as f64 + 0.5,
        7 => [127.0, 127.5, 128.0, 255.0, 255.9, 256.0, -1.0, -0.9, 32767.0, 32768.0, 65535.0, 65535.99, 65536.0, -32768.0, -32769.0][rng.below(15)],
        8 => [2147483647.0, 2147483648.0, 4294967295.0, 4294967296.0, -2147483648.0, -2147483649.0, 9.223372036854775807e18, 1.8446744073709552e19, -9.3e18][rng.below(9)],
        9 => f64::from_bits(rng.u64()),
        10 => rng.f64(-5e5, 5e5),
        11 => f32::MAX as f64 * (1.0 + rng.unit()),
        12 => rng.unit() * 1e-40,
        _ => rng.f64(-100.0, 100.0),
    }
}

/// Random bytes of one value. Integers lean to the edges of their range, floats to special values.
pub fn rand_value(rng: &mut Rng, d: PointAttributeDataType) -> Vec<u8> {
    use PointAttributeDataType::*;
    let (size, _) = size_align(d);
    match d {
        F32 | Vec3f32 => (0..comps(d)).flat_map(|_| if rng.chance(1, 10) { f32::from_bits(rng.u64() as u32) } else { rand_f64(rng) as f32 }.to_ne_bytes()).collect(),
        F64 | Vec3f64 => (0..comps(d)).flat_map(|_| rand_f64(rng).to_ne_bytes()).collect(),
        _ => {
            let n = comps(d);
            let w = size / n;
            let mut v = vec![];
            for _ in 0..n {
                match rng.below(6) {
                    0 => v.extend(vec![0u8; w]),
                    1 => v.extend(vec![0xffu8; w]),
                    2 => {
                        let mut x = vec![0xffu8; w];
                        if w > 0 { x[w - 1] = 0x7f }
                        v.extend(x)
                    }
                    3 => {
                        let mut x = vec![0u8; w];
                        if w > 0 { x[w - 1] = 0x80 }
                        v.extend(x)
                    }
                    _ => v.extend(rng.bytes(w)),
                }
            }
            v
        }
    }
}

pub fn builtin() -> Vec<PointAttributeDefinition> {
    use attributes::*;
    vec![
        POSITION_3D, INTENSITY, RETURN_NUMBER, NUMBER_OF_RETURNS, CLASSIFICATION_FLAGS, SCANNER_CHANNEL, SCAN_DIRECTION_FLAG,
        EDGE_OF_FLIGHT_LINE, CLASSIFICATION, SCAN_ANGLE_RANK, SCAN_ANGLE, USER_DATA, POINT_SOURCE_ID, COLOR_RGB, GPS_TIME, NIR,
        WAVE_PACKET_DESCRIPTOR_INDEX, WAVEFORM_DATA_OFFSET, WAVEFORM_PACKET_SIZE, RETURN_POINT_WAVEFORM_LOCATION,
        WAVEFORM_PARAMETERS, POINT_ID, NORMAL,
    ]
}

pub fn rand_datatype(rng: &mut Rng) -> PointAttributeDataType {
    match rng.below(12) {
        0 => PointAttributeDataType::ByteArray(rng.range(1, 20) as u64),
        1 => {
            let al = 1u64 << rng.below(5);
            PointAttributeDataType::Custom { size: al * rng.range(1, 4) as u64, min_alignment: al, name: uuid::Uuid::from_u128(rng.u64() as u128) }
        }
        _ => *rng.pick(&DT),
    }
}

pub fn prim_datatype(rng: &mut Rng) -> PointAttributeDataType {
    *rng.pick(&DT)
}

/// A number of points: mostly less than `lim`, now and then many more, often around a power of two
pub fn count(rng: &mut Rng, obs: &mut Obs, lim: usize) -> usize {
    let z = rng.below(6001);
    let n = match z {
        _ if cfg!(miri) => return rng.below(lim),
        0..=99 => rng.range(lim, 70),
        100..=139 => *rng.pick(&[127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 700]),
        140..=149 => rng.range(70, 700),
        150..=169 => *rng.pick(&[999, 1000, 1001, 1023, 1024, 1025, 1500, 2047, 2048, 2049]),
        170 | 171 => *rng.pick(&[3000, 4095, 4096, 4097, 5000, 8193]),
        6000 => *rng.pick(&[16385, 32769, 65535, 65536, 65537, 70000]),
        _ => return rng.below(lim),
    };
    if n > 64 { obs.large(rng.u64()) }
    n
}
/// Attribute definitions with distinct names. Mostly primitive datatypes, under built-in and own names.
pub fn rand_defs(rng: &mut Rng, lo: usize, hi: usize, prim_only: bool) -> Vec<PointAttributeDefinition> {
    let n = rng.range(lo, hi);
    let mut v: Vec<PointAttributeDefinition> = vec![];
    let b = builtin();
    while v.len() < n {
        let d = match rng.below(3) {
            0 => rng.pick(&b).clone(),
            1 => rng.pick(&b).with_custom_datatype(if prim_only { prim_datatype(rng) } else { rand_datatype(rng) }),
            _ => PointAttributeDefinition::custom(Cow::Owned(format!("Own{}", rng.below(30))), if prim_only { prim_datatype(rng) } else { rand_datatype(rng) }),
        };
        if !v.iter().any(|x| x.name() == d.name()) {
            v.push(d);
        }
    }
    v
}

/// Hand-placed members: shuffled in memory, with gaps, at aligned or unaligned offsets.
pub fn place_members(rng: &mut Rng, defs: &[PointAttributeDefinition], aligned: bool) -> (Vec<PointAttributeMember>, u64) {
    let mut order: Vec<usize> = (0..defs.len()).collect();
    if rng.bool() {
        rng.shuffle(&mut order);
    }
    let mut offs = vec![0u64; defs.len()];
    let mut at = 0u64;
    let mut max_al = 1u64;
    for i in order {
        let (s, al) = size_align(defs[i].datatype());
        if rng.chance(1, 3) {
            at += rng.below(9) as u64;
        }
        if aligned {
            at = (at + al as u64 - 1) / al as u64 * al as u64;
            max_al = max_al.max(al as u64);
        }
        offs[i] = at;
        at += s as u64;
    }
    let members = defs.iter().zip(&offs).map(|(d, o)| d.at_offset_in_type(*o)).collect();
    let ta = if aligned { max_al } else { 1 << rng.below(4) };
    (members, ta)
}

/// A random layout. `how` goes to the trace.
pub fn rand_layout_of(rng: &mut Rng, defs: &[PointAttributeDefinition]) -> (PointLayout, &'static str) {
    match rng.below(5) {
        0 | 1 => (PointLayout::from_attributes(defs), "natural"),
        2 => (PointLayout::from_attributes_packed(defs, 1), "packed1"),
        3 => {
            let (m, a) = place_members(rng, defs, true);
            (PointLayout::from_members_and_alignment(&m, a), "placed-aligned")
        }
        _ => {
            let (m, a) = place_members(rng, defs, false);
            (PointLayout::from_members_and_alignment(&m, a), "placed")
        }
    }
}

pub fn rand_layout(rng: &mut Rng, obs: &mut Obs, min: usize, max: usize, prim_only: bool) -> L {
    let defs = rand_defs(rng, min, max, prim_only);
    let (l, how) = rand_layout_of(rng, &defs);
    let l = L::of(l);
    obs.step(|| format!("layout {how} {}", l.show()));
    l
}

pub fn eq_pt(l: &L, got: &[u8], want: &Pt) -> Result<(), String> {
    for (a, w) in l.attrs.iter().zip(want) {
        let g = &got[a.off..a.off + a.size];
        if g != &w[..] {
            return Err(format!("attribute {}: got {:?}, want {:?}", a.def, g, w));
        }
    }
    Ok(())
}

/// A Pod wrapper to read a typed value out of bytes
pub fn typed<T: bytemuck::Pod>(b: &[u8]) -> T {
    bytemuck::pod_read_unaligned(b)
}

pub type V3<T> = Vector3<T>;
pub type V4<T> = Vector4<T>;
