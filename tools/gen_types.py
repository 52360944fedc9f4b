#!/usr/bin/env python3
"""Writes corechk/src/gen_types.rs: structs that derive PointType, of every representation, with the
facts about them that the compiler (offset_of!, size_of, align_of) and the source text know."""
import random, os
R = random.Random(20261119)
TY = [("u8",1,1,"U8"),("i8",1,1,"I8"),("u16",2,2,"U16"),("i16",2,2,"I16"),("u32",4,4,"U32"),("i32",4,4,"I32"),("u64",8,8,"U64"),("i64",8,8,"I64"),
      ("f32",4,4,"F32"),("f64",8,8,"F64"),("Vector3<u8>",3,1,"Vec3u8"),("Vector3<u16>",6,2,"Vec3u16"),("Vector3<i32>",12,4,"Vec3i32"),
      ("Vector3<f32>",12,4,"Vec3f32"),("Vector3<f64>",24,8,"Vec3f64"),("Vector4<u8>",4,1,"Vec4u8")]
BUILTIN = {"POSITION_3D":"Position3D","INTENSITY":"Intensity","RETURN_NUMBER":"ReturnNumber","NUMBER_OF_RETURNS":"NumberOfReturns",
 "CLASSIFICATION_FLAGS":"ClassificationFlags","SCANNER_CHANNEL":"ScannerChannel","SCAN_DIRECTION_FLAG":"ScanDirectionFlag","EDGE_OF_FLIGHT_LINE":"EdgeOfFlightLine",
 "CLASSIFICATION":"Classification","SCAN_ANGLE_RANK":"ScanAngleRank","SCAN_ANGLE":"ScanAngle","USER_DATA":"UserData","POINT_SOURCE_ID":"PointSourceID",
 "COLOR_RGB":"ColorRGB","GPS_TIME":"GpsTime","NIR":"NIR","WAVE_PACKET_DESCRIPTOR_INDEX":"WavePacketDescriptorIndex","WAVEFORM_DATA_OFFSET":"WaveformDataOffset",
 "WAVEFORM_PACKET_SIZE":"WaveformPacketSize","RETURN_POINT_WAVEFORM_LOCATION":"ReturnPointWaveformLocation","WAVEFORM_PARAMETERS":"WaveformParameters","POINT_ID":"PointID","NORMAL":"Normal"}
def up(x, a): return (x + a - 1) // a * a
def lay(fields, cap):
    off = 0; al = 1; data = 0; offs = []
    for t in fields:
        a = min(t[2], cap); off = up(off, a); offs.append(off); off += t[1]; al = max(al, a); data += t[1]
    return offs, up(off, al), al, data
out = ["// Written by tools/gen_types.py", "use nalgebra::{Vector3, Vector4};", "use pasture_core::layout::*;", "use pasture_derive::PointType;",
       "use PointAttributeDataType as D;", "", "use super::layouts::{padded, whole, Desc};", ""]
REPR = [("C",99),("C, packed",1),("C, packed(1)",1),("packed(2), C",2),("C, packed(2)",2),("C, packed(4)",4),("packed(4), C",4),("C, packed(8)",8),("C, packed(16)",16),("C)]\n#[repr(packed(2)",2),("packed(2)",0),("packed(4)",0),("packed",0),("C, align(16)",-1),("align(4), C",-1),("packed(8)",0),("C)]\n#[repr(align(32)",-1)]
names = []
N = 198
bi = list(BUILTIN)
for k in range(N):
    r, cap = REPR[k % len(REPR)] if k % 3 else ("C", 99)
    free, cap = cap <= 0, cap if cap > 0 else 99
    n = [1,2,2,3,3,4,5,6,8,12][R.randrange(10)]
    fs = [R.choice(TY) for _ in range(n)]
    if k < 16: fs = [TY[0], TY[k]] if k % 2 else [TY[k], TY[0]]
    offs, size, al, data = lay(fs, cap)
    # every second C struct gets ordered so that it has no padding
    if size != data and R.random() < 0.6:
        fs.sort(key=lambda t: -t[2]); offs, size, al, data = lay(fs, cap)
        if size != data:
            while size != data:
                fs.append(TY[R.randrange(2)]); offs, size, al, data = lay(fs, cap)
                if len(fs) > 14: break
    used = set(); attrs = []
    for i, t in enumerate(fs):
        if R.random() < 0.6 or (k < 23 and i == 0):
            b = bi[k % 23] if (k < 23 and i == 0) else R.choice(bi)
            if BUILTIN[b] in used: b = None
        else: b = None
        if b: nm = BUILTIN[b]; attrs.append((f"BUILTIN_{b}", nm))
        else:
            nm = R.choice(["Own %d", "x%d", "Ä%d", "Attr_%d"]) % i
            attrs.append((f'attribute = "{nm}"', nm))
        used.add(nm)
    out.append("#[derive(Copy, Clone, PointType)]")
    out.append(f"#[repr({r})]")
    out.append(f"pub struct T{k} {{")
    for i, t in enumerate(fs): out.append(f"    #[pasture({attrs[i][0]})] f{i}: {t[0]},")
    out.append("}")
    out.append(f"unsafe impl bytemuck::Zeroable for T{k} {{}}\nunsafe impl bytemuck::AnyBitPattern for T{k} {{}}\nunsafe impl bytemuck::NoUninit for T{k} {{}}")
    f = ", ".join(f'("{attrs[i][1]}", D::{t[3]}, std::mem::offset_of!(T{k}, f{i}))' for i, t in enumerate(fs))
    typed = (f"Some(whole::<T{k}>)" if not free and size == data and (k % 2 == 0 or k % 7 == 0) else "None")
    names.append(f'    Desc {{ name: "T{k} repr({r.replace(")]" + chr(10) + "#[repr(", " and ")})", size: std::mem::size_of::<T{k}>(), align: std::mem::align_of::<T{k}>(), fields: &[{f}], layout: <T{k} as PointType>::layout, typed: {typed} }},')
out.append("pub static TYPES: &[Desc] = &[")
out += names
out.append("];")
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "corechk/src/gen_types.rs"), "w").write("\n".join(out).replace("{padded, whole, Desc}", "{whole, Desc}") + "\n")
print(N, "types", sum("Some(" in n for n in names), "typed")
