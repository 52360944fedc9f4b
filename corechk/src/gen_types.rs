// Written by tools/gen_types.py
use nalgebra::{Vector3, Vector4};
use pasture_core::layout::*;
use pasture_derive::PointType;
use PointAttributeDataType as D;

use super::layouts::{whole, Desc};

#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T0 {
    #[pasture(BUILTIN_POSITION_3D)] f0: u8,
    #[pasture(BUILTIN_POINT_ID)] f1: u8,
}
unsafe impl bytemuck::Zeroable for T0 {}
unsafe impl bytemuck::AnyBitPattern for T0 {}
unsafe impl bytemuck::NoUninit for T0 {}
#[derive(Copy, Clone, PointType)]
#[repr(C, packed)]
pub struct T1 {
    #[pasture(BUILTIN_INTENSITY)] f0: u8,
    #[pasture(BUILTIN_SCAN_ANGLE_RANK)] f1: i8,
}
unsafe impl bytemuck::Zeroable for T1 {}
unsafe impl bytemuck::AnyBitPattern for T1 {}
unsafe impl bytemuck::NoUninit for T1 {}
#[derive(Copy, Clone, PointType)]
#[repr(C, packed(1))]
pub struct T2 {
    #[pasture(BUILTIN_RETURN_NUMBER)] f0: u16,
    #[pasture(BUILTIN_INTENSITY)] f1: u8,
}
unsafe impl bytemuck::Zeroable for T2 {}
unsafe impl bytemuck::AnyBitPattern for T2 {}
unsafe impl bytemuck::NoUninit for T2 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T3 {
    #[pasture(BUILTIN_NUMBER_OF_RETURNS)] f0: i16,
    #[pasture(attribute = "Attr_1")] f1: u8,
    #[pasture(attribute = "x2")] f2: i8,
}
unsafe impl bytemuck::Zeroable for T3 {}
unsafe impl bytemuck::AnyBitPattern for T3 {}
unsafe impl bytemuck::NoUninit for T3 {}
#[derive(Copy, Clone, PointType)]
#[repr(C, packed(2))]
pub struct T4 {
    #[pasture(BUILTIN_CLASSIFICATION_FLAGS)] f0: u32,
    #[pasture(attribute = "Ä1")] f1: u8,
    #[pasture(BUILTIN_EDGE_OF_FLIGHT_LINE)] f2: i8,
}
unsafe impl bytemuck::Zeroable for T4 {}
unsafe impl bytemuck::AnyBitPattern for T4 {}
unsafe impl bytemuck::NoUninit for T4 {}
#[derive(Copy, Clone, PointType)]
#[repr(C, packed(4))]
pub struct T5 {
    #[pasture(BUILTIN_SCANNER_CHANNEL)] f0: u8,
    #[pasture(BUILTIN_GPS_TIME)] f1: i32,
}
unsafe impl bytemuck::Zeroable for T5 {}
unsafe impl bytemuck::AnyBitPattern for T5 {}
unsafe impl bytemuck::NoUninit for T5 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T6 {
    #[pasture(BUILTIN_SCAN_DIRECTION_FLAG)] f0: u64,
    #[pasture(attribute = "Ä1")] f1: u8,
    #[pasture(BUILTIN_WAVE_PACKET_DESCRIPTOR_INDEX)] f2: i8,
    #[pasture(BUILTIN_EDGE_OF_FLIGHT_LINE)] f3: i8,
    #[pasture(attribute = "Ä4")] f4: i8,
    #[pasture(BUILTIN_RETURN_POINT_WAVEFORM_LOCATION)] f5: i8,
    #[pasture(attribute = "Ä6")] f6: i8,
    #[pasture(BUILTIN_NIR)] f7: i8,
    #[pasture(BUILTIN_SCAN_ANGLE_RANK)] f8: i8,
}
unsafe impl bytemuck::Zeroable for T6 {}
unsafe impl bytemuck::AnyBitPattern for T6 {}
unsafe impl bytemuck::NoUninit for T6 {}
#[derive(Copy, Clone, PointType)]
#[repr(C, packed(8))]
pub struct T7 {
    #[pasture(BUILTIN_EDGE_OF_FLIGHT_LINE)] f0: u8,
    #[pasture(BUILTIN_RETURN_NUMBER)] f1: i64,
}
unsafe impl bytemuck::Zeroable for T7 {}
unsafe impl bytemuck::AnyBitPattern for T7 {}
unsafe impl bytemuck::NoUninit for T7 {}
#[derive(Copy, Clone, PointType)]
#[repr(C, packed(16))]
pub struct T8 {
    #[pasture(BUILTIN_CLASSIFICATION)] f0: f32,
    #[pasture(attribute = "Attr_1")] f1: u8,
}
unsafe impl bytemuck::Zeroable for T8 {}
unsafe impl bytemuck::AnyBitPattern for T8 {}
unsafe impl bytemuck::NoUninit for T8 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T9 {
    #[pasture(BUILTIN_SCAN_ANGLE_RANK)] f0: u8,
    #[pasture(attribute = "Attr_1")] f1: f64,
}
unsafe impl bytemuck::Zeroable for T9 {}
unsafe impl bytemuck::AnyBitPattern for T9 {}
unsafe impl bytemuck::NoUninit for T9 {}
#[derive(Copy, Clone, PointType)]
#[repr(packed(2))]
pub struct T10 {
    #[pasture(BUILTIN_SCAN_ANGLE)] f0: Vector3<u8>,
    #[pasture(attribute = "Own 1")] f1: u8,
}
unsafe impl bytemuck::Zeroable for T10 {}
unsafe impl bytemuck::AnyBitPattern for T10 {}
unsafe impl bytemuck::NoUninit for T10 {}
#[derive(Copy, Clone, PointType)]
#[repr(packed(4))]
pub struct T11 {
    #[pasture(BUILTIN_USER_DATA)] f0: Vector3<u16>,
    #[pasture(attribute = "x1")] f1: u8,
    #[pasture(BUILTIN_GPS_TIME)] f2: i8,
}
unsafe impl bytemuck::Zeroable for T11 {}
unsafe impl bytemuck::AnyBitPattern for T11 {}
unsafe impl bytemuck::NoUninit for T11 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T12 {
    #[pasture(BUILTIN_POINT_SOURCE_ID)] f0: Vector3<i32>,
    #[pasture(BUILTIN_NIR)] f1: u8,
    #[pasture(attribute = "Own 2")] f2: u8,
    #[pasture(BUILTIN_GPS_TIME)] f3: i8,
    #[pasture(BUILTIN_WAVEFORM_PACKET_SIZE)] f4: i8,
}
unsafe impl bytemuck::Zeroable for T12 {}
unsafe impl bytemuck::AnyBitPattern for T12 {}
unsafe impl bytemuck::NoUninit for T12 {}
#[derive(Copy, Clone, PointType)]
#[repr(C, align(16))]
pub struct T13 {
    #[pasture(BUILTIN_COLOR_RGB)] f0: Vector3<f32>,
    #[pasture(attribute = "x1")] f1: u8,
    #[pasture(attribute = "Own 2")] f2: i8,
    #[pasture(BUILTIN_POINT_SOURCE_ID)] f3: i8,
    #[pasture(attribute = "Attr_4")] f4: i8,
}
unsafe impl bytemuck::Zeroable for T13 {}
unsafe impl bytemuck::AnyBitPattern for T13 {}
unsafe impl bytemuck::NoUninit for T13 {}
#[derive(Copy, Clone, PointType)]
#[repr(align(4), C)]
pub struct T14 {
    #[pasture(BUILTIN_GPS_TIME)] f0: Vector3<f64>,
    #[pasture(BUILTIN_SCAN_ANGLE)] f1: u8,
}
unsafe impl bytemuck::Zeroable for T14 {}
unsafe impl bytemuck::AnyBitPattern for T14 {}
unsafe impl bytemuck::NoUninit for T14 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T15 {
    #[pasture(BUILTIN_NIR)] f0: u8,
    #[pasture(attribute = "Attr_1")] f1: Vector4<u8>,
}
unsafe impl bytemuck::Zeroable for T15 {}
unsafe impl bytemuck::AnyBitPattern for T15 {}
unsafe impl bytemuck::NoUninit for T15 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
#[repr(align(32))]
pub struct T16 {
    #[pasture(BUILTIN_WAVE_PACKET_DESCRIPTOR_INDEX)] f0: u32,
    #[pasture(attribute = "x1")] f1: Vector3<f64>,
    #[pasture(BUILTIN_SCANNER_CHANNEL)] f2: Vector3<f64>,
}
unsafe impl bytemuck::Zeroable for T16 {}
unsafe impl bytemuck::AnyBitPattern for T16 {}
unsafe impl bytemuck::NoUninit for T16 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T17 {
    #[pasture(BUILTIN_WAVEFORM_DATA_OFFSET)] f0: Vector3<f32>,
    #[pasture(BUILTIN_SCANNER_CHANNEL)] f1: Vector3<i32>,
    #[pasture(attribute = "x2")] f2: u64,
    #[pasture(BUILTIN_WAVEFORM_PACKET_SIZE)] f3: i16,
    #[pasture(BUILTIN_USER_DATA)] f4: Vector3<u8>,
    #[pasture(BUILTIN_WAVE_PACKET_DESCRIPTOR_INDEX)] f5: Vector3<u16>,
    #[pasture(attribute = "x6")] f6: Vector3<f64>,
    #[pasture(BUILTIN_POINT_SOURCE_ID)] f7: Vector3<u16>,
    #[pasture(attribute = "Attr_8")] f8: f32,
    #[pasture(BUILTIN_WAVEFORM_PARAMETERS)] f9: i64,
    #[pasture(BUILTIN_RETURN_POINT_WAVEFORM_LOCATION)] f10: Vector3<u16>,
    #[pasture(attribute = "Ä11")] f11: Vector3<u8>,
}
unsafe impl bytemuck::Zeroable for T17 {}
unsafe impl bytemuck::AnyBitPattern for T17 {}
unsafe impl bytemuck::NoUninit for T17 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T18 {
    #[pasture(BUILTIN_WAVEFORM_PACKET_SIZE)] f0: Vector3<f64>,
}
unsafe impl bytemuck::Zeroable for T18 {}
unsafe impl bytemuck::AnyBitPattern for T18 {}
unsafe impl bytemuck::NoUninit for T18 {}
#[derive(Copy, Clone, PointType)]
#[repr(C, packed(1))]
pub struct T19 {
    #[pasture(BUILTIN_RETURN_POINT_WAVEFORM_LOCATION)] f0: i32,
    #[pasture(attribute = "x1")] f1: i64,
    #[pasture(BUILTIN_WAVEFORM_DATA_OFFSET)] f2: Vector3<u16>,
    #[pasture(attribute = "Own 3")] f3: Vector4<u8>,
    #[pasture(attribute = "x4")] f4: u32,
    #[pasture(attribute = "Own 5")] f5: u8,
    #[pasture(attribute = "Attr_6")] f6: Vector3<u16>,
    #[pasture(BUILTIN_NIR)] f7: i32,
    #[pasture(attribute = "Attr_8")] f8: i8,
    #[pasture(attribute = "Ä9")] f9: f32,
    #[pasture(BUILTIN_NORMAL)] f10: u32,
    #[pasture(BUILTIN_USER_DATA)] f11: f64,
}
unsafe impl bytemuck::Zeroable for T19 {}
unsafe impl bytemuck::AnyBitPattern for T19 {}
unsafe impl bytemuck::NoUninit for T19 {}
#[derive(Copy, Clone, PointType)]
#[repr(packed(2), C)]
pub struct T20 {
    #[pasture(BUILTIN_WAVEFORM_PARAMETERS)] f0: Vector3<f64>,
    #[pasture(attribute = "Own 1")] f1: i16,
    #[pasture(BUILTIN_SCAN_DIRECTION_FLAG)] f2: u16,
    #[pasture(BUILTIN_POINT_ID)] f3: i16,
    #[pasture(BUILTIN_COLOR_RGB)] f4: u32,
    #[pasture(attribute = "Own 5")] f5: i16,
}
unsafe impl bytemuck::Zeroable for T20 {}
unsafe impl bytemuck::AnyBitPattern for T20 {}
unsafe impl bytemuck::NoUninit for T20 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T21 {
    #[pasture(BUILTIN_POINT_ID)] f0: u64,
    #[pasture(attribute = "Ä1")] f1: Vector3<i32>,
    #[pasture(BUILTIN_WAVEFORM_PACKET_SIZE)] f2: i32,
    #[pasture(attribute = "Own 3")] f3: Vector3<u16>,
    #[pasture(BUILTIN_POINT_SOURCE_ID)] f4: u16,
}
unsafe impl bytemuck::Zeroable for T21 {}
unsafe impl bytemuck::AnyBitPattern for T21 {}
unsafe impl bytemuck::NoUninit for T21 {}
#[derive(Copy, Clone, PointType)]
#[repr(C, packed(4))]
pub struct T22 {
    #[pasture(BUILTIN_NORMAL)] f0: f32,
    #[pasture(BUILTIN_COLOR_RGB)] f1: Vector3<f64>,
    #[pasture(BUILTIN_SCAN_ANGLE)] f2: f64,
    #[pasture(attribute = "x3")] f3: Vector3<f64>,
    #[pasture(BUILTIN_USER_DATA)] f4: Vector3<i32>,
}
unsafe impl bytemuck::Zeroable for T22 {}
unsafe impl bytemuck::AnyBitPattern for T22 {}
unsafe impl bytemuck::NoUninit for T22 {}
#[derive(Copy, Clone, PointType)]
#[repr(packed(4), C)]
pub struct T23 {
    #[pasture(BUILTIN_NORMAL)] f0: Vector3<f32>,
    #[pasture(attribute = "Attr_1")] f1: i32,
}
unsafe impl bytemuck::Zeroable for T23 {}
unsafe impl bytemuck::AnyBitPattern for T23 {}
unsafe impl bytemuck::NoUninit for T23 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T24 {
    #[pasture(attribute = "Attr_0")] f0: u64,
    #[pasture(BUILTIN_CLASSIFICATION_FLAGS)] f1: i64,
    #[pasture(BUILTIN_POINT_SOURCE_ID)] f2: Vector3<f32>,
    #[pasture(BUILTIN_POINT_ID)] f3: f32,
    #[pasture(attribute = "x4")] f4: Vector3<u8>,
    #[pasture(BUILTIN_CLASSIFICATION)] f5: i8,
    #[pasture(BUILTIN_SCAN_ANGLE)] f6: u8,
    #[pasture(attribute = "Ä7")] f7: i8,
    #[pasture(attribute = "x8")] f8: u8,
    #[pasture(attribute = "Ä9")] f9: i8,
}
unsafe impl bytemuck::Zeroable for T24 {}
unsafe impl bytemuck::AnyBitPattern for T24 {}
unsafe impl bytemuck::NoUninit for T24 {}
#[derive(Copy, Clone, PointType)]
#[repr(C, packed(16))]
pub struct T25 {
    #[pasture(attribute = "Attr_0")] f0: Vector3<f64>,
    #[pasture(BUILTIN_USER_DATA)] f1: Vector3<u16>,
    #[pasture(BUILTIN_EDGE_OF_FLIGHT_LINE)] f2: Vector3<u16>,
    #[pasture(attribute = "x3")] f3: u8,
    #[pasture(BUILTIN_GPS_TIME)] f4: u8,
    #[pasture(BUILTIN_COLOR_RGB)] f5: u8,
    #[pasture(attribute = "Attr_6")] f6: u8,
}
unsafe impl bytemuck::Zeroable for T25 {}
unsafe impl bytemuck::AnyBitPattern for T25 {}
unsafe impl bytemuck::NoUninit for T25 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
#[repr(packed(2))]
pub struct T26 {
    #[pasture(attribute = "Ä0")] f0: u32,
    #[pasture(BUILTIN_POINT_SOURCE_ID)] f1: Vector3<i32>,
    #[pasture(BUILTIN_POSITION_3D)] f2: i16,
    #[pasture(BUILTIN_RETURN_POINT_WAVEFORM_LOCATION)] f3: i16,
    #[pasture(attribute = "Own 4")] f4: Vector3<u8>,
    #[pasture(attribute = "Own 5")] f5: i8,
}
unsafe impl bytemuck::Zeroable for T26 {}
unsafe impl bytemuck::AnyBitPattern for T26 {}
unsafe impl bytemuck::NoUninit for T26 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T27 {
    #[pasture(BUILTIN_WAVEFORM_PACKET_SIZE)] f0: f64,
    #[pasture(BUILTIN_POSITION_3D)] f1: Vector3<i32>,
    #[pasture(BUILTIN_INTENSITY)] f2: Vector3<f32>,
    #[pasture(attribute = "Own 3")] f3: u16,
    #[pasture(attribute = "x4")] f4: u8,
    #[pasture(BUILTIN_SCAN_DIRECTION_FLAG)] f5: Vector3<u8>,
    #[pasture(attribute = "Attr_6")] f6: i8,
    #[pasture(attribute = "Own 7")] f7: u8,
}
unsafe impl bytemuck::Zeroable for T27 {}
unsafe impl bytemuck::AnyBitPattern for T27 {}
unsafe impl bytemuck::NoUninit for T27 {}
#[derive(Copy, Clone, PointType)]
#[repr(packed(4))]
pub struct T28 {
    #[pasture(attribute = "x0")] f0: u8,
    #[pasture(BUILTIN_NIR)] f1: i8,
}
unsafe impl bytemuck::Zeroable for T28 {}
unsafe impl bytemuck::AnyBitPattern for T28 {}
unsafe impl bytemuck::NoUninit for T28 {}
#[derive(Copy, Clone, PointType)]
#[repr(packed)]
pub struct T29 {
    #[pasture(BUILTIN_SCAN_ANGLE_RANK)] f0: f32,
    #[pasture(attribute = "Attr_1")] f1: Vector3<i32>,
    #[pasture(BUILTIN_COLOR_RGB)] f2: Vector3<f32>,
    #[pasture(attribute = "Ä3")] f3: u32,
    #[pasture(BUILTIN_USER_DATA)] f4: f32,
    #[pasture(BUILTIN_INTENSITY)] f5: u16,
    #[pasture(attribute = "Attr_6")] f6: i16,
    #[pasture(BUILTIN_SCAN_ANGLE)] f7: i16,
    #[pasture(attribute = "x8")] f8: u8,
    #[pasture(BUILTIN_WAVEFORM_PACKET_SIZE)] f9: i8,
    #[pasture(attribute = "Attr_10")] f10: Vector3<u8>,
    #[pasture(BUILTIN_RETURN_POINT_WAVEFORM_LOCATION)] f11: Vector4<u8>,
    #[pasture(attribute = "x12")] f12: u8,
}
unsafe impl bytemuck::Zeroable for T29 {}
unsafe impl bytemuck::AnyBitPattern for T29 {}
unsafe impl bytemuck::NoUninit for T29 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T30 {
    #[pasture(BUILTIN_RETURN_POINT_WAVEFORM_LOCATION)] f0: u32,
    #[pasture(BUILTIN_WAVEFORM_DATA_OFFSET)] f1: Vector3<i32>,
    #[pasture(BUILTIN_CLASSIFICATION)] f2: u8,
    #[pasture(BUILTIN_RETURN_NUMBER)] f3: i16,
    #[pasture(attribute = "Own 4")] f4: i16,
}
unsafe impl bytemuck::Zeroable for T30 {}
unsafe impl bytemuck::AnyBitPattern for T30 {}
unsafe impl bytemuck::NoUninit for T30 {}
#[derive(Copy, Clone, PointType)]
#[repr(align(4), C)]
pub struct T31 {
    #[pasture(BUILTIN_NUMBER_OF_RETURNS)] f0: Vector3<f64>,
    #[pasture(attribute = "Attr_1")] f1: Vector3<f32>,
    #[pasture(attribute = "Attr_2")] f2: Vector3<f32>,
    #[pasture(attribute = "x3")] f3: i16,
    #[pasture(attribute = "Attr_4")] f4: Vector3<u16>,
}
unsafe impl bytemuck::Zeroable for T31 {}
unsafe impl bytemuck::AnyBitPattern for T31 {}
unsafe impl bytemuck::NoUninit for T31 {}
#[derive(Copy, Clone, PointType)]
#[repr(packed(8))]
pub struct T32 {
    #[pasture(BUILTIN_COLOR_RGB)] f0: Vector3<u16>,
    #[pasture(BUILTIN_WAVE_PACKET_DESCRIPTOR_INDEX)] f1: i32,
    #[pasture(BUILTIN_POINT_ID)] f2: Vector3<u8>,
}
unsafe impl bytemuck::Zeroable for T32 {}
unsafe impl bytemuck::AnyBitPattern for T32 {}
unsafe impl bytemuck::NoUninit for T32 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T33 {
    #[pasture(BUILTIN_RETURN_NUMBER)] f0: i8,
    #[pasture(BUILTIN_NIR)] f1: f32,
    #[pasture(BUILTIN_WAVE_PACKET_DESCRIPTOR_INDEX)] f2: u32,
}
unsafe impl bytemuck::Zeroable for T33 {}
unsafe impl bytemuck::AnyBitPattern for T33 {}
unsafe impl bytemuck::NoUninit for T33 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T34 {
    #[pasture(BUILTIN_RETURN_POINT_WAVEFORM_LOCATION)] f0: u64,
    #[pasture(attribute = "Own 1")] f1: Vector3<f32>,
    #[pasture(attribute = "Ä2")] f2: f32,
    #[pasture(BUILTIN_NORMAL)] f3: f32,
    #[pasture(attribute = "Attr_4")] f4: Vector3<u16>,
    #[pasture(BUILTIN_NUMBER_OF_RETURNS)] f5: Vector3<u8>,
    #[pasture(attribute = "Attr_6")] f6: i8,
    #[pasture(attribute = "Ä7")] f7: u8,
    #[pasture(BUILTIN_RETURN_NUMBER)] f8: i8,
}
unsafe impl bytemuck::Zeroable for T34 {}
unsafe impl bytemuck::AnyBitPattern for T34 {}
unsafe impl bytemuck::NoUninit for T34 {}
#[derive(Copy, Clone, PointType)]
#[repr(C, packed)]
pub struct T35 {
    #[pasture(attribute = "Own 0")] f0: f32,
    #[pasture(attribute = "Own 1")] f1: i32,
    #[pasture(attribute = "Own 2")] f2: i64,
    #[pasture(attribute = "Attr_3")] f3: i16,
    #[pasture(BUILTIN_POSITION_3D)] f4: i32,
}
unsafe impl bytemuck::Zeroable for T35 {}
unsafe impl bytemuck::AnyBitPattern for T35 {}
unsafe impl bytemuck::NoUninit for T35 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T36 {
    #[pasture(attribute = "Ä0")] f0: Vector4<u8>,
    #[pasture(BUILTIN_POINT_SOURCE_ID)] f1: i16,
}
unsafe impl bytemuck::Zeroable for T36 {}
unsafe impl bytemuck::AnyBitPattern for T36 {}
unsafe impl bytemuck::NoUninit for T36 {}
#[derive(Copy, Clone, PointType)]
#[repr(packed(2), C)]
pub struct T37 {
    #[pasture(attribute = "x0")] f0: f32,
    #[pasture(BUILTIN_USER_DATA)] f1: Vector3<u16>,
}
unsafe impl bytemuck::Zeroable for T37 {}
unsafe impl bytemuck::AnyBitPattern for T37 {}
unsafe impl bytemuck::NoUninit for T37 {}
#[derive(Copy, Clone, PointType)]
#[repr(C, packed(2))]
pub struct T38 {
    #[pasture(BUILTIN_NIR)] f0: i32,
    #[pasture(BUILTIN_WAVEFORM_DATA_OFFSET)] f1: u64,
}
unsafe impl bytemuck::Zeroable for T38 {}
unsafe impl bytemuck::AnyBitPattern for T38 {}
unsafe impl bytemuck::NoUninit for T38 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T39 {
    #[pasture(BUILTIN_RETURN_POINT_WAVEFORM_LOCATION)] f0: i64,
    #[pasture(BUILTIN_CLASSIFICATION)] f1: Vector3<f64>,
    #[pasture(BUILTIN_POSITION_3D)] f2: Vector3<f64>,
    #[pasture(BUILTIN_POINT_SOURCE_ID)] f3: u32,
    #[pasture(attribute = "Ä4")] f4: i32,
    #[pasture(BUILTIN_CLASSIFICATION_FLAGS)] f5: Vector3<f32>,
    #[pasture(attribute = "Own 6")] f6: i16,
    #[pasture(BUILTIN_WAVEFORM_PACKET_SIZE)] f7: Vector3<u8>,
    #[pasture(BUILTIN_EDGE_OF_FLIGHT_LINE)] f8: i8,
    #[pasture(attribute = "Own 9")] f9: u8,
    #[pasture(attribute = "Attr_10")] f10: i8,
    #[pasture(BUILTIN_SCAN_DIRECTION_FLAG)] f11: u8,
    #[pasture(attribute = "Own 12")] f12: i8,
    #[pasture(attribute = "Attr_13")] f13: u8,
    #[pasture(attribute = "Own 14")] f14: i8,
}
unsafe impl bytemuck::Zeroable for T39 {}
unsafe impl bytemuck::AnyBitPattern for T39 {}
unsafe impl bytemuck::NoUninit for T39 {}
#[derive(Copy, Clone, PointType)]
#[repr(packed(4), C)]
pub struct T40 {
    #[pasture(BUILTIN_POSITION_3D)] f0: f32,
    #[pasture(BUILTIN_EDGE_OF_FLIGHT_LINE)] f1: Vector4<u8>,
}
unsafe impl bytemuck::Zeroable for T40 {}
unsafe impl bytemuck::AnyBitPattern for T40 {}
unsafe impl bytemuck::NoUninit for T40 {}
#[derive(Copy, Clone, PointType)]
#[repr(C, packed(8))]
pub struct T41 {
    #[pasture(attribute = "Own 0")] f0: Vector3<i32>,
    #[pasture(BUILTIN_SCAN_ANGLE)] f1: u8,
    #[pasture(BUILTIN_COLOR_RGB)] f2: Vector4<u8>,
    #[pasture(attribute = "Ä3")] f3: Vector3<f32>,
}
unsafe impl bytemuck::Zeroable for T41 {}
unsafe impl bytemuck::AnyBitPattern for T41 {}
unsafe impl bytemuck::NoUninit for T41 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T42 {
    #[pasture(BUILTIN_POSITION_3D)] f0: u16,
    #[pasture(BUILTIN_NIR)] f1: f32,
}
unsafe impl bytemuck::Zeroable for T42 {}
unsafe impl bytemuck::AnyBitPattern for T42 {}
unsafe impl bytemuck::NoUninit for T42 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
#[repr(packed(2))]
pub struct T43 {
    #[pasture(BUILTIN_RETURN_NUMBER)] f0: Vector3<u16>,
    #[pasture(BUILTIN_RETURN_POINT_WAVEFORM_LOCATION)] f1: Vector3<u16>,
    #[pasture(attribute = "Ä2")] f2: Vector3<i32>,
    #[pasture(BUILTIN_POSITION_3D)] f3: Vector3<u8>,
    #[pasture(BUILTIN_GPS_TIME)] f4: Vector3<u8>,
    #[pasture(attribute = "x5")] f5: u16,
}
unsafe impl bytemuck::Zeroable for T43 {}
unsafe impl bytemuck::AnyBitPattern for T43 {}
unsafe impl bytemuck::NoUninit for T43 {}
#[derive(Copy, Clone, PointType)]
#[repr(packed(2))]
pub struct T44 {
    #[pasture(BUILTIN_SCAN_ANGLE_RANK)] f0: f64,
    #[pasture(attribute = "Ä1")] f1: u8,
}
unsafe impl bytemuck::Zeroable for T44 {}
unsafe impl bytemuck::AnyBitPattern for T44 {}
unsafe impl bytemuck::NoUninit for T44 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T45 {
    #[pasture(BUILTIN_WAVE_PACKET_DESCRIPTOR_INDEX)] f0: f64,
    #[pasture(BUILTIN_COLOR_RGB)] f1: u64,
}
unsafe impl bytemuck::Zeroable for T45 {}
unsafe impl bytemuck::AnyBitPattern for T45 {}
unsafe impl bytemuck::NoUninit for T45 {}
#[derive(Copy, Clone, PointType)]
#[repr(packed)]
pub struct T46 {
    #[pasture(BUILTIN_EDGE_OF_FLIGHT_LINE)] f0: u32,
    #[pasture(attribute = "x1")] f1: i8,
    #[pasture(BUILTIN_SCANNER_CHANNEL)] f2: i64,
    #[pasture(BUILTIN_WAVEFORM_PACKET_SIZE)] f3: Vector3<i32>,
    #[pasture(attribute = "x4")] f4: Vector3<f32>,
}
unsafe impl bytemuck::Zeroable for T46 {}
unsafe impl bytemuck::AnyBitPattern for T46 {}
unsafe impl bytemuck::NoUninit for T46 {}
#[derive(Copy, Clone, PointType)]
#[repr(C, align(16))]
pub struct T47 {
    #[pasture(BUILTIN_WAVE_PACKET_DESCRIPTOR_INDEX)] f0: i16,
    #[pasture(BUILTIN_RETURN_POINT_WAVEFORM_LOCATION)] f1: Vector3<u8>,
}
unsafe impl bytemuck::Zeroable for T47 {}
unsafe impl bytemuck::AnyBitPattern for T47 {}
unsafe impl bytemuck::NoUninit for T47 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T48 {
    #[pasture(attribute = "Ä0")] f0: i16,
    #[pasture(BUILTIN_SCAN_ANGLE)] f1: Vector3<u16>,
}
unsafe impl bytemuck::Zeroable for T48 {}
unsafe impl bytemuck::AnyBitPattern for T48 {}
unsafe impl bytemuck::NoUninit for T48 {}
#[derive(Copy, Clone, PointType)]
#[repr(packed(8))]
pub struct T49 {
    #[pasture(BUILTIN_SCAN_DIRECTION_FLAG)] f0: i64,
    #[pasture(BUILTIN_WAVEFORM_PARAMETERS)] f1: u32,
    #[pasture(BUILTIN_SCANNER_CHANNEL)] f2: i8,
    #[pasture(attribute = "Own 3")] f3: i8,
    #[pasture(BUILTIN_COLOR_RGB)] f4: u8,
    #[pasture(attribute = "Own 5")] f5: i8,
}
unsafe impl bytemuck::Zeroable for T49 {}
unsafe impl bytemuck::AnyBitPattern for T49 {}
unsafe impl bytemuck::NoUninit for T49 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
#[repr(align(32))]
pub struct T50 {
    #[pasture(attribute = "Own 0")] f0: Vector3<i32>,
    #[pasture(BUILTIN_POINT_SOURCE_ID)] f1: i8,
    #[pasture(attribute = "Ä2")] f2: u8,
    #[pasture(attribute = "Attr_3")] f3: u8,
    #[pasture(BUILTIN_RETURN_NUMBER)] f4: i8,
}
unsafe impl bytemuck::Zeroable for T50 {}
unsafe impl bytemuck::AnyBitPattern for T50 {}
unsafe impl bytemuck::NoUninit for T50 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T51 {
    #[pasture(attribute = "Own 0")] f0: Vector3<f64>,
}
unsafe impl bytemuck::Zeroable for T51 {}
unsafe impl bytemuck::AnyBitPattern for T51 {}
unsafe impl bytemuck::NoUninit for T51 {}
#[derive(Copy, Clone, PointType)]
#[repr(C, packed)]
pub struct T52 {
    #[pasture(BUILTIN_CLASSIFICATION)] f0: f32,
    #[pasture(attribute = "x1")] f1: f32,
    #[pasture(BUILTIN_CLASSIFICATION_FLAGS)] f2: i8,
    #[pasture(attribute = "Ä3")] f3: Vector3<f64>,
    #[pasture(BUILTIN_WAVEFORM_DATA_OFFSET)] f4: i8,
    #[pasture(BUILTIN_NORMAL)] f5: u16,
    #[pasture(BUILTIN_SCANNER_CHANNEL)] f6: Vector3<i32>,
    #[pasture(BUILTIN_NUMBER_OF_RETURNS)] f7: Vector3<f32>,
}
unsafe impl bytemuck::Zeroable for T52 {}
unsafe impl bytemuck::AnyBitPattern for T52 {}
unsafe impl bytemuck::NoUninit for T52 {}
#[derive(Copy, Clone, PointType)]
#[repr(C, packed(1))]
pub struct T53 {
    #[pasture(BUILTIN_SCAN_ANGLE_RANK)] f0: Vector3<u16>,
    #[pasture(BUILTIN_GPS_TIME)] f1: i32,
    #[pasture(BUILTIN_INTENSITY)] f2: Vector3<f32>,
}
unsafe impl bytemuck::Zeroable for T53 {}
unsafe impl bytemuck::AnyBitPattern for T53 {}
unsafe impl bytemuck::NoUninit for T53 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T54 {
    #[pasture(attribute = "Ä0")] f0: i8,
}
unsafe impl bytemuck::Zeroable for T54 {}
unsafe impl bytemuck::AnyBitPattern for T54 {}
unsafe impl bytemuck::NoUninit for T54 {}
#[derive(Copy, Clone, PointType)]
#[repr(C, packed(2))]
pub struct T55 {
    #[pasture(BUILTIN_INTENSITY)] f0: u32,
    #[pasture(attribute = "Own 1")] f1: Vector3<u16>,
}
unsafe impl bytemuck::Zeroable for T55 {}
unsafe impl bytemuck::AnyBitPattern for T55 {}
unsafe impl bytemuck::NoUninit for T55 {}
#[derive(Copy, Clone, PointType)]
#[repr(C, packed(4))]
pub struct T56 {
    #[pasture(attribute = "Ä0")] f0: i8,
    #[pasture(attribute = "Ä1")] f1: i8,
    #[pasture(BUILTIN_POSITION_3D)] f2: Vector3<u16>,
}
unsafe impl bytemuck::Zeroable for T56 {}
unsafe impl bytemuck::AnyBitPattern for T56 {}
unsafe impl bytemuck::NoUninit for T56 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T57 {
    #[pasture(attribute = "x0")] f0: i32,
    #[pasture(BUILTIN_GPS_TIME)] f1: u16,
    #[pasture(attribute = "Ä2")] f2: Vector3<u16>,
    #[pasture(BUILTIN_POSITION_3D)] f3: i16,
    #[pasture(BUILTIN_NUMBER_OF_RETURNS)] f4: i8,
    #[pasture(attribute = "x5")] f5: i8,
}
unsafe impl bytemuck::Zeroable for T57 {}
unsafe impl bytemuck::AnyBitPattern for T57 {}
unsafe impl bytemuck::NoUninit for T57 {}
#[derive(Copy, Clone, PointType)]
#[repr(C, packed(8))]
pub struct T58 {
    #[pasture(attribute = "Attr_0")] f0: u64,
    #[pasture(BUILTIN_GPS_TIME)] f1: f64,
    #[pasture(BUILTIN_NUMBER_OF_RETURNS)] f2: Vector3<i32>,
    #[pasture(attribute = "Attr_3")] f3: Vector3<f32>,
    #[pasture(attribute = "Ä4")] f4: u16,
    #[pasture(attribute = "Own 5")] f5: i16,
    #[pasture(BUILTIN_POSITION_3D)] f6: i8,
    #[pasture(attribute = "x7")] f7: u8,
    #[pasture(BUILTIN_POINT_SOURCE_ID)] f8: i8,
    #[pasture(attribute = "x9")] f9: u8,
}
unsafe impl bytemuck::Zeroable for T58 {}
unsafe impl bytemuck::AnyBitPattern for T58 {}
unsafe impl bytemuck::NoUninit for T58 {}
#[derive(Copy, Clone, PointType)]
#[repr(C, packed(16))]
pub struct T59 {
    #[pasture(BUILTIN_POINT_SOURCE_ID)] f0: Vector3<i32>,
}
unsafe impl bytemuck::Zeroable for T59 {}
unsafe impl bytemuck::AnyBitPattern for T59 {}
unsafe impl bytemuck::NoUninit for T59 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T60 {
    #[pasture(BUILTIN_POINT_SOURCE_ID)] f0: Vector3<i32>,
    #[pasture(attribute = "Ä1")] f1: Vector3<u16>,
    #[pasture(BUILTIN_WAVE_PACKET_DESCRIPTOR_INDEX)] f2: Vector3<u8>,
    #[pasture(attribute = "Own 3")] f3: u8,
    #[pasture(attribute = "x4")] f4: i8,
    #[pasture(BUILTIN_WAVEFORM_DATA_OFFSET)] f5: u8,
}
unsafe impl bytemuck::Zeroable for T60 {}
unsafe impl bytemuck::AnyBitPattern for T60 {}
unsafe impl bytemuck::NoUninit for T60 {}
#[derive(Copy, Clone, PointType)]
#[repr(packed(2))]
pub struct T61 {
    #[pasture(BUILTIN_RETURN_NUMBER)] f0: Vector3<u16>,
    #[pasture(attribute = "Own 1")] f1: u8,
}
unsafe impl bytemuck::Zeroable for T61 {}
unsafe impl bytemuck::AnyBitPattern for T61 {}
unsafe impl bytemuck::NoUninit for T61 {}
#[derive(Copy, Clone, PointType)]
#[repr(packed(4))]
pub struct T62 {
    #[pasture(BUILTIN_RETURN_POINT_WAVEFORM_LOCATION)] f0: f32,
    #[pasture(BUILTIN_NUMBER_OF_RETURNS)] f1: i16,
    #[pasture(BUILTIN_COLOR_RGB)] f2: Vector3<i32>,
    #[pasture(attribute = "x3")] f3: u8,
}
unsafe impl bytemuck::Zeroable for T62 {}
unsafe impl bytemuck::AnyBitPattern for T62 {}
unsafe impl bytemuck::NoUninit for T62 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T63 {
    #[pasture(BUILTIN_POINT_SOURCE_ID)] f0: Vector3<f64>,
    #[pasture(BUILTIN_WAVEFORM_PARAMETERS)] f1: i32,
    #[pasture(BUILTIN_CLASSIFICATION)] f2: i32,
    #[pasture(BUILTIN_EDGE_OF_FLIGHT_LINE)] f3: f32,
    #[pasture(attribute = "Attr_4")] f4: u32,
    #[pasture(attribute = "x5")] f5: Vector4<u8>,
    #[pasture(BUILTIN_SCANNER_CHANNEL)] f6: u8,
    #[pasture(BUILTIN_WAVEFORM_DATA_OFFSET)] f7: i8,
    #[pasture(BUILTIN_SCAN_DIRECTION_FLAG)] f8: i8,
    #[pasture(attribute = "Attr_9")] f9: u8,
}
unsafe impl bytemuck::Zeroable for T63 {}
unsafe impl bytemuck::AnyBitPattern for T63 {}
unsafe impl bytemuck::NoUninit for T63 {}
#[derive(Copy, Clone, PointType)]
#[repr(C, align(16))]
pub struct T64 {
    #[pasture(BUILTIN_EDGE_OF_FLIGHT_LINE)] f0: f64,
    #[pasture(attribute = "Own 1")] f1: u32,
    #[pasture(BUILTIN_SCAN_DIRECTION_FLAG)] f2: i32,
    #[pasture(attribute = "Own 3")] f3: Vector3<u16>,
    #[pasture(BUILTIN_WAVEFORM_PACKET_SIZE)] f4: u16,
    #[pasture(BUILTIN_POINT_ID)] f5: Vector4<u8>,
    #[pasture(attribute = "x6")] f6: u8,
    #[pasture(BUILTIN_WAVEFORM_DATA_OFFSET)] f7: u8,
    #[pasture(BUILTIN_CLASSIFICATION_FLAGS)] f8: i8,
    #[pasture(BUILTIN_NORMAL)] f9: u8,
}
unsafe impl bytemuck::Zeroable for T64 {}
unsafe impl bytemuck::AnyBitPattern for T64 {}
unsafe impl bytemuck::NoUninit for T64 {}
#[derive(Copy, Clone, PointType)]
#[repr(align(4), C)]
pub struct T65 {
    #[pasture(attribute = "x0")] f0: i64,
    #[pasture(BUILTIN_POINT_SOURCE_ID)] f1: i64,
    #[pasture(BUILTIN_RETURN_NUMBER)] f2: Vector3<i32>,
    #[pasture(BUILTIN_INTENSITY)] f3: f32,
    #[pasture(BUILTIN_WAVE_PACKET_DESCRIPTOR_INDEX)] f4: Vector3<f32>,
    #[pasture(BUILTIN_POINT_ID)] f5: u16,
    #[pasture(attribute = "x6")] f6: i8,
    #[pasture(attribute = "Own 7")] f7: Vector4<u8>,
    #[pasture(BUILTIN_CLASSIFICATION_FLAGS)] f8: u8,
    #[pasture(BUILTIN_GPS_TIME)] f9: i8,
    #[pasture(BUILTIN_WAVEFORM_PACKET_SIZE)] f10: i8,
    #[pasture(attribute = "Own 11")] f11: i8,
    #[pasture(BUILTIN_SCAN_ANGLE)] f12: u8,
}
unsafe impl bytemuck::Zeroable for T65 {}
unsafe impl bytemuck::AnyBitPattern for T65 {}
unsafe impl bytemuck::NoUninit for T65 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T66 {
    #[pasture(attribute = "Own 0")] f0: i8,
}
unsafe impl bytemuck::Zeroable for T66 {}
unsafe impl bytemuck::AnyBitPattern for T66 {}
unsafe impl bytemuck::NoUninit for T66 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
#[repr(align(32))]
pub struct T67 {
    #[pasture(attribute = "Ä0")] f0: f64,
    #[pasture(BUILTIN_WAVEFORM_PARAMETERS)] f1: u32,
    #[pasture(attribute = "Own 2")] f2: u16,
    #[pasture(BUILTIN_INTENSITY)] f3: i16,
    #[pasture(attribute = "Ä4")] f4: Vector4<u8>,
    #[pasture(attribute = "Attr_5")] f5: u8,
    #[pasture(attribute = "x6")] f6: u8,
    #[pasture(BUILTIN_POINT_SOURCE_ID)] f7: i8,
    #[pasture(attribute = "x8")] f8: u8,
}
unsafe impl bytemuck::Zeroable for T67 {}
unsafe impl bytemuck::AnyBitPattern for T67 {}
unsafe impl bytemuck::NoUninit for T67 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T68 {
    #[pasture(BUILTIN_NUMBER_OF_RETURNS)] f0: i16,
    #[pasture(BUILTIN_WAVEFORM_DATA_OFFSET)] f1: u8,
    #[pasture(attribute = "Attr_2")] f2: u8,
    #[pasture(BUILTIN_RETURN_NUMBER)] f3: Vector4<u8>,
    #[pasture(BUILTIN_WAVE_PACKET_DESCRIPTOR_INDEX)] f4: u8,
    #[pasture(attribute = "Ä5")] f5: Vector3<f64>,
    #[pasture(BUILTIN_WAVEFORM_PARAMETERS)] f6: Vector4<u8>,
    #[pasture(BUILTIN_EDGE_OF_FLIGHT_LINE)] f7: f32,
    #[pasture(BUILTIN_SCAN_ANGLE)] f8: f32,
    #[pasture(attribute = "Ä9")] f9: i8,
    #[pasture(BUILTIN_NIR)] f10: u16,
    #[pasture(attribute = "Ä11")] f11: i8,
}
unsafe impl bytemuck::Zeroable for T68 {}
unsafe impl bytemuck::AnyBitPattern for T68 {}
unsafe impl bytemuck::NoUninit for T68 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T69 {
    #[pasture(BUILTIN_CLASSIFICATION_FLAGS)] f0: Vector3<u8>,
    #[pasture(BUILTIN_POINT_SOURCE_ID)] f1: u32,
    #[pasture(attribute = "Attr_2")] f2: u32,
    #[pasture(attribute = "Own 3")] f3: i64,
    #[pasture(attribute = "Own 4")] f4: Vector3<u16>,
    #[pasture(attribute = "x5")] f5: Vector3<f64>,
    #[pasture(BUILTIN_WAVEFORM_DATA_OFFSET)] f6: i16,
    #[pasture(attribute = "Attr_7")] f7: Vector3<i32>,
    #[pasture(BUILTIN_NORMAL)] f8: u8,
    #[pasture(BUILTIN_CLASSIFICATION)] f9: i8,
    #[pasture(BUILTIN_NUMBER_OF_RETURNS)] f10: u16,
    #[pasture(attribute = "Own 11")] f11: Vector3<i32>,
}
unsafe impl bytemuck::Zeroable for T69 {}
unsafe impl bytemuck::AnyBitPattern for T69 {}
unsafe impl bytemuck::NoUninit for T69 {}
#[derive(Copy, Clone, PointType)]
#[repr(C, packed(1))]
pub struct T70 {
    #[pasture(BUILTIN_POINT_SOURCE_ID)] f0: f32,
    #[pasture(attribute = "Own 1")] f1: i32,
    #[pasture(attribute = "Attr_2")] f2: i64,
    #[pasture(BUILTIN_INTENSITY)] f3: f32,
    #[pasture(attribute = "Attr_4")] f4: i32,
}
unsafe impl bytemuck::Zeroable for T70 {}
unsafe impl bytemuck::AnyBitPattern for T70 {}
unsafe impl bytemuck::NoUninit for T70 {}
#[derive(Copy, Clone, PointType)]
#[repr(packed(2), C)]
pub struct T71 {
    #[pasture(BUILTIN_NUMBER_OF_RETURNS)] f0: i64,
    #[pasture(attribute = "Attr_1")] f1: Vector3<f32>,
    #[pasture(attribute = "Attr_2")] f2: u16,
    #[pasture(attribute = "Ä3")] f3: i8,
    #[pasture(attribute = "Ä4")] f4: Vector4<u8>,
    #[pasture(attribute = "Own 5")] f5: u8,
}
unsafe impl bytemuck::Zeroable for T71 {}
unsafe impl bytemuck::AnyBitPattern for T71 {}
unsafe impl bytemuck::NoUninit for T71 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T72 {
    #[pasture(BUILTIN_SCAN_ANGLE)] f0: Vector4<u8>,
    #[pasture(BUILTIN_NUMBER_OF_RETURNS)] f1: u8,
}
unsafe impl bytemuck::Zeroable for T72 {}
unsafe impl bytemuck::AnyBitPattern for T72 {}
unsafe impl bytemuck::NoUninit for T72 {}
#[derive(Copy, Clone, PointType)]
#[repr(C, packed(4))]
pub struct T73 {
    #[pasture(BUILTIN_CLASSIFICATION)] f0: Vector3<u16>,
}
unsafe impl bytemuck::Zeroable for T73 {}
unsafe impl bytemuck::AnyBitPattern for T73 {}
unsafe impl bytemuck::NoUninit for T73 {}
#[derive(Copy, Clone, PointType)]
#[repr(packed(4), C)]
pub struct T74 {
    #[pasture(BUILTIN_POSITION_3D)] f0: Vector3<f64>,
    #[pasture(BUILTIN_CLASSIFICATION_FLAGS)] f1: f64,
    #[pasture(BUILTIN_SCAN_DIRECTION_FLAG)] f2: i32,
    #[pasture(BUILTIN_WAVE_PACKET_DESCRIPTOR_INDEX)] f3: Vector3<u16>,
    #[pasture(BUILTIN_RETURN_NUMBER)] f4: u8,
    #[pasture(attribute = "Attr_5")] f5: Vector4<u8>,
    #[pasture(attribute = "x6")] f6: u8,
}
unsafe impl bytemuck::Zeroable for T74 {}
unsafe impl bytemuck::AnyBitPattern for T74 {}
unsafe impl bytemuck::NoUninit for T74 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T75 {
    #[pasture(attribute = "Own 0")] f0: u32,
    #[pasture(attribute = "Ä1")] f1: f32,
    #[pasture(BUILTIN_GPS_TIME)] f2: Vector4<u8>,
}
unsafe impl bytemuck::Zeroable for T75 {}
unsafe impl bytemuck::AnyBitPattern for T75 {}
unsafe impl bytemuck::NoUninit for T75 {}
#[derive(Copy, Clone, PointType)]
#[repr(C, packed(16))]
pub struct T76 {
    #[pasture(BUILTIN_WAVEFORM_DATA_OFFSET)] f0: Vector3<f32>,
    #[pasture(BUILTIN_WAVE_PACKET_DESCRIPTOR_INDEX)] f1: Vector3<f32>,
    #[pasture(attribute = "Ä2")] f2: f32,
    #[pasture(BUILTIN_POINT_SOURCE_ID)] f3: i16,
    #[pasture(BUILTIN_SCAN_ANGLE)] f4: u8,
    #[pasture(BUILTIN_RETURN_NUMBER)] f5: i8,
}
unsafe impl bytemuck::Zeroable for T76 {}
unsafe impl bytemuck::AnyBitPattern for T76 {}
unsafe impl bytemuck::NoUninit for T76 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
#[repr(packed(2))]
pub struct T77 {
    #[pasture(BUILTIN_POINT_ID)] f0: Vector4<u8>,
    #[pasture(attribute = "Own 1")] f1: Vector3<u8>,
}
unsafe impl bytemuck::Zeroable for T77 {}
unsafe impl bytemuck::AnyBitPattern for T77 {}
unsafe impl bytemuck::NoUninit for T77 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T78 {
    #[pasture(attribute = "Ä0")] f0: u16,
}
unsafe impl bytemuck::Zeroable for T78 {}
unsafe impl bytemuck::AnyBitPattern for T78 {}
unsafe impl bytemuck::NoUninit for T78 {}
#[derive(Copy, Clone, PointType)]
#[repr(packed(4))]
pub struct T79 {
    #[pasture(BUILTIN_SCAN_ANGLE_RANK)] f0: u64,
    #[pasture(attribute = "Own 1")] f1: f32,
    #[pasture(BUILTIN_GPS_TIME)] f2: u8,
    #[pasture(attribute = "Own 3")] f3: u8,
    #[pasture(attribute = "Ä4")] f4: i8,
    #[pasture(attribute = "Attr_5")] f5: u8,
}
unsafe impl bytemuck::Zeroable for T79 {}
unsafe impl bytemuck::AnyBitPattern for T79 {}
unsafe impl bytemuck::NoUninit for T79 {}
#[derive(Copy, Clone, PointType)]
#[repr(packed)]
pub struct T80 {
    #[pasture(BUILTIN_WAVEFORM_DATA_OFFSET)] f0: u8,
    #[pasture(BUILTIN_WAVEFORM_PACKET_SIZE)] f1: i8,
    #[pasture(attribute = "Ä2")] f2: i64,
    #[pasture(BUILTIN_CLASSIFICATION_FLAGS)] f3: Vector3<f32>,
}
unsafe impl bytemuck::Zeroable for T80 {}
unsafe impl bytemuck::AnyBitPattern for T80 {}
unsafe impl bytemuck::NoUninit for T80 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T81 {
    #[pasture(BUILTIN_EDGE_OF_FLIGHT_LINE)] f0: Vector3<f64>,
    #[pasture(attribute = "Own 1")] f1: f32,
    #[pasture(attribute = "Ä2")] f2: Vector3<u16>,
    #[pasture(attribute = "Attr_3")] f3: u8,
    #[pasture(attribute = "Attr_4")] f4: i8,
    #[pasture(BUILTIN_WAVE_PACKET_DESCRIPTOR_INDEX)] f5: u8,
    #[pasture(attribute = "Ä6")] f6: i8,
    #[pasture(BUILTIN_POSITION_3D)] f7: i8,
    #[pasture(BUILTIN_RETURN_NUMBER)] f8: i8,
}
unsafe impl bytemuck::Zeroable for T81 {}
unsafe impl bytemuck::AnyBitPattern for T81 {}
unsafe impl bytemuck::NoUninit for T81 {}
#[derive(Copy, Clone, PointType)]
#[repr(align(4), C)]
pub struct T82 {
    #[pasture(attribute = "x0")] f0: Vector3<f64>,
    #[pasture(BUILTIN_WAVEFORM_PARAMETERS)] f1: Vector3<i32>,
    #[pasture(attribute = "Attr_2")] f2: Vector3<i32>,
    #[pasture(BUILTIN_CLASSIFICATION_FLAGS)] f3: u32,
    #[pasture(BUILTIN_CLASSIFICATION)] f4: u16,
    #[pasture(BUILTIN_USER_DATA)] f5: i16,
}
unsafe impl bytemuck::Zeroable for T82 {}
unsafe impl bytemuck::AnyBitPattern for T82 {}
unsafe impl bytemuck::NoUninit for T82 {}
#[derive(Copy, Clone, PointType)]
#[repr(packed(8))]
pub struct T83 {
    #[pasture(BUILTIN_WAVEFORM_DATA_OFFSET)] f0: u8,
}
unsafe impl bytemuck::Zeroable for T83 {}
unsafe impl bytemuck::AnyBitPattern for T83 {}
unsafe impl bytemuck::NoUninit for T83 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T84 {
    #[pasture(attribute = "x0")] f0: Vector3<f32>,
}
unsafe impl bytemuck::Zeroable for T84 {}
unsafe impl bytemuck::AnyBitPattern for T84 {}
unsafe impl bytemuck::NoUninit for T84 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T85 {
    #[pasture(BUILTIN_POSITION_3D)] f0: i64,
    #[pasture(BUILTIN_EDGE_OF_FLIGHT_LINE)] f1: Vector3<f64>,
    #[pasture(BUILTIN_NUMBER_OF_RETURNS)] f2: u64,
    #[pasture(attribute = "Ä3")] f3: Vector3<f64>,
    #[pasture(BUILTIN_WAVEFORM_DATA_OFFSET)] f4: f64,
    #[pasture(BUILTIN_SCAN_DIRECTION_FLAG)] f5: Vector3<i32>,
    #[pasture(attribute = "Own 6")] f6: Vector3<u16>,
    #[pasture(BUILTIN_SCAN_ANGLE_RANK)] f7: u16,
    #[pasture(BUILTIN_RETURN_NUMBER)] f8: Vector4<u8>,
    #[pasture(BUILTIN_CLASSIFICATION)] f9: i8,
    #[pasture(attribute = "Own 10")] f10: Vector3<u8>,
    #[pasture(attribute = "Ä11")] f11: i8,
    #[pasture(BUILTIN_INTENSITY)] f12: u8,
    #[pasture(BUILTIN_CLASSIFICATION_FLAGS)] f13: u8,
    #[pasture(attribute = "x14")] f14: u8,
}
unsafe impl bytemuck::Zeroable for T85 {}
unsafe impl bytemuck::AnyBitPattern for T85 {}
unsafe impl bytemuck::NoUninit for T85 {}
#[derive(Copy, Clone, PointType)]
#[repr(C, packed)]
pub struct T86 {
    #[pasture(BUILTIN_GPS_TIME)] f0: Vector3<f64>,
    #[pasture(BUILTIN_RETURN_NUMBER)] f1: Vector3<f32>,
    #[pasture(attribute = "Own 2")] f2: i8,
    #[pasture(attribute = "x3")] f3: u16,
    #[pasture(attribute = "Ä4")] f4: Vector4<u8>,
}
unsafe impl bytemuck::Zeroable for T86 {}
unsafe impl bytemuck::AnyBitPattern for T86 {}
unsafe impl bytemuck::NoUninit for T86 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T87 {
    #[pasture(BUILTIN_GPS_TIME)] f0: Vector4<u8>,
    #[pasture(BUILTIN_COLOR_RGB)] f1: Vector3<u8>,
}
unsafe impl bytemuck::Zeroable for T87 {}
unsafe impl bytemuck::AnyBitPattern for T87 {}
unsafe impl bytemuck::NoUninit for T87 {}
#[derive(Copy, Clone, PointType)]
#[repr(packed(2), C)]
pub struct T88 {
    #[pasture(BUILTIN_NIR)] f0: i32,
    #[pasture(attribute = "Attr_1")] f1: Vector3<u8>,
    #[pasture(BUILTIN_RETURN_NUMBER)] f2: u8,
    #[pasture(BUILTIN_WAVE_PACKET_DESCRIPTOR_INDEX)] f3: Vector3<u8>,
    #[pasture(attribute = "Ä4")] f4: u8,
}
unsafe impl bytemuck::Zeroable for T88 {}
unsafe impl bytemuck::AnyBitPattern for T88 {}
unsafe impl bytemuck::NoUninit for T88 {}
#[derive(Copy, Clone, PointType)]
#[repr(C, packed(2))]
pub struct T89 {
    #[pasture(attribute = "Own 0")] f0: u64,
    #[pasture(BUILTIN_EDGE_OF_FLIGHT_LINE)] f1: u64,
    #[pasture(attribute = "Own 2")] f2: u16,
}
unsafe impl bytemuck::Zeroable for T89 {}
unsafe impl bytemuck::AnyBitPattern for T89 {}
unsafe impl bytemuck::NoUninit for T89 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T90 {
    #[pasture(BUILTIN_WAVE_PACKET_DESCRIPTOR_INDEX)] f0: u32,
    #[pasture(attribute = "Ä1")] f1: Vector3<f64>,
}
unsafe impl bytemuck::Zeroable for T90 {}
unsafe impl bytemuck::AnyBitPattern for T90 {}
unsafe impl bytemuck::NoUninit for T90 {}
#[derive(Copy, Clone, PointType)]
#[repr(packed(4), C)]
pub struct T91 {
    #[pasture(BUILTIN_POINT_ID)] f0: Vector3<f64>,
    #[pasture(BUILTIN_WAVEFORM_DATA_OFFSET)] f1: f64,
    #[pasture(BUILTIN_POSITION_3D)] f2: u32,
    #[pasture(BUILTIN_EDGE_OF_FLIGHT_LINE)] f3: Vector3<i32>,
    #[pasture(attribute = "x4")] f4: Vector3<u8>,
    #[pasture(attribute = "Attr_5")] f5: u8,
}
unsafe impl bytemuck::Zeroable for T91 {}
unsafe impl bytemuck::AnyBitPattern for T91 {}
unsafe impl bytemuck::NoUninit for T91 {}
#[derive(Copy, Clone, PointType)]
#[repr(C, packed(8))]
pub struct T92 {
    #[pasture(attribute = "Ä0")] f0: i8,
    #[pasture(BUILTIN_SCAN_DIRECTION_FLAG)] f1: f32,
    #[pasture(BUILTIN_WAVE_PACKET_DESCRIPTOR_INDEX)] f2: Vector3<u8>,
    #[pasture(BUILTIN_INTENSITY)] f3: i8,
}
unsafe impl bytemuck::Zeroable for T92 {}
unsafe impl bytemuck::AnyBitPattern for T92 {}
unsafe impl bytemuck::NoUninit for T92 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T93 {
    #[pasture(attribute = "Attr_0")] f0: Vector4<u8>,
    #[pasture(BUILTIN_SCAN_DIRECTION_FLAG)] f1: Vector3<u8>,
    #[pasture(BUILTIN_NORMAL)] f2: u16,
    #[pasture(attribute = "Attr_3")] f3: Vector3<i32>,
    #[pasture(attribute = "Own 4")] f4: Vector3<u8>,
    #[pasture(BUILTIN_CLASSIFICATION_FLAGS)] f5: Vector4<u8>,
    #[pasture(BUILTIN_CLASSIFICATION)] f6: Vector4<u8>,
    #[pasture(attribute = "Ä7")] f7: Vector3<u8>,
    #[pasture(BUILTIN_NUMBER_OF_RETURNS)] f8: Vector3<u8>,
    #[pasture(BUILTIN_COLOR_RGB)] f9: i8,
    #[pasture(attribute = "x10")] f10: i8,
    #[pasture(BUILTIN_USER_DATA)] f11: i16,
}
unsafe impl bytemuck::Zeroable for T93 {}
unsafe impl bytemuck::AnyBitPattern for T93 {}
unsafe impl bytemuck::NoUninit for T93 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
#[repr(packed(2))]
pub struct T94 {
    #[pasture(attribute = "Ä0")] f0: Vector3<i32>,
    #[pasture(attribute = "Own 1")] f1: Vector3<f32>,
    #[pasture(attribute = "Ä2")] f2: i32,
}
unsafe impl bytemuck::Zeroable for T94 {}
unsafe impl bytemuck::AnyBitPattern for T94 {}
unsafe impl bytemuck::NoUninit for T94 {}
#[derive(Copy, Clone, PointType)]
#[repr(packed(2))]
pub struct T95 {
    #[pasture(BUILTIN_GPS_TIME)] f0: u64,
    #[pasture(BUILTIN_USER_DATA)] f1: i32,
    #[pasture(BUILTIN_SCAN_ANGLE)] f2: u16,
    #[pasture(attribute = "Own 3")] f3: u8,
    #[pasture(attribute = "Attr_4")] f4: i8,
}
unsafe impl bytemuck::Zeroable for T95 {}
unsafe impl bytemuck::AnyBitPattern for T95 {}
unsafe impl bytemuck::NoUninit for T95 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T96 {
    #[pasture(attribute = "Ä0")] f0: i16,
    #[pasture(BUILTIN_NUMBER_OF_RETURNS)] f1: Vector4<u8>,
}
unsafe impl bytemuck::Zeroable for T96 {}
unsafe impl bytemuck::AnyBitPattern for T96 {}
unsafe impl bytemuck::NoUninit for T96 {}
#[derive(Copy, Clone, PointType)]
#[repr(packed)]
pub struct T97 {
    #[pasture(attribute = "Ä0")] f0: f32,
}
unsafe impl bytemuck::Zeroable for T97 {}
unsafe impl bytemuck::AnyBitPattern for T97 {}
unsafe impl bytemuck::NoUninit for T97 {}
#[derive(Copy, Clone, PointType)]
#[repr(C, align(16))]
pub struct T98 {
    #[pasture(attribute = "Attr_0")] f0: i64,
    #[pasture(BUILTIN_SCAN_ANGLE)] f1: Vector3<f64>,
    #[pasture(BUILTIN_CLASSIFICATION_FLAGS)] f2: i32,
    #[pasture(attribute = "Own 3")] f3: i32,
    #[pasture(BUILTIN_NORMAL)] f4: f32,
    #[pasture(BUILTIN_RETURN_POINT_WAVEFORM_LOCATION)] f5: u16,
    #[pasture(attribute = "Own 6")] f6: Vector3<u16>,
    #[pasture(attribute = "Own 7")] f7: u8,
    #[pasture(attribute = "x8")] f8: i8,
    #[pasture(BUILTIN_GPS_TIME)] f9: i8,
    #[pasture(BUILTIN_POSITION_3D)] f10: u8,
}
unsafe impl bytemuck::Zeroable for T98 {}
unsafe impl bytemuck::AnyBitPattern for T98 {}
unsafe impl bytemuck::NoUninit for T98 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T99 {
    #[pasture(BUILTIN_CLASSIFICATION_FLAGS)] f0: u32,
}
unsafe impl bytemuck::Zeroable for T99 {}
unsafe impl bytemuck::AnyBitPattern for T99 {}
unsafe impl bytemuck::NoUninit for T99 {}
#[derive(Copy, Clone, PointType)]
#[repr(packed(8))]
pub struct T100 {
    #[pasture(BUILTIN_WAVEFORM_PACKET_SIZE)] f0: Vector4<u8>,
}
unsafe impl bytemuck::Zeroable for T100 {}
unsafe impl bytemuck::AnyBitPattern for T100 {}
unsafe impl bytemuck::NoUninit for T100 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
#[repr(align(32))]
pub struct T101 {
    #[pasture(attribute = "x0")] f0: u32,
    #[pasture(BUILTIN_NORMAL)] f1: i16,
    #[pasture(BUILTIN_POSITION_3D)] f2: u8,
    #[pasture(attribute = "Own 3")] f3: u8,
}
unsafe impl bytemuck::Zeroable for T101 {}
unsafe impl bytemuck::AnyBitPattern for T101 {}
unsafe impl bytemuck::NoUninit for T101 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T102 {
    #[pasture(BUILTIN_INTENSITY)] f0: f64,
    #[pasture(BUILTIN_CLASSIFICATION_FLAGS)] f1: f64,
}
unsafe impl bytemuck::Zeroable for T102 {}
unsafe impl bytemuck::AnyBitPattern for T102 {}
unsafe impl bytemuck::NoUninit for T102 {}
#[derive(Copy, Clone, PointType)]
#[repr(C, packed)]
pub struct T103 {
    #[pasture(BUILTIN_WAVEFORM_DATA_OFFSET)] f0: i16,
    #[pasture(attribute = "Ä1")] f1: u8,
    #[pasture(attribute = "Ä2")] f2: u16,
}
unsafe impl bytemuck::Zeroable for T103 {}
unsafe impl bytemuck::AnyBitPattern for T103 {}
unsafe impl bytemuck::NoUninit for T103 {}
#[derive(Copy, Clone, PointType)]
#[repr(C, packed(1))]
pub struct T104 {
    #[pasture(attribute = "Ä0")] f0: i16,
    #[pasture(BUILTIN_SCAN_ANGLE)] f1: u8,
    #[pasture(attribute = "x2")] f2: u64,
}
unsafe impl bytemuck::Zeroable for T104 {}
unsafe impl bytemuck::AnyBitPattern for T104 {}
unsafe impl bytemuck::NoUninit for T104 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T105 {
    #[pasture(BUILTIN_EDGE_OF_FLIGHT_LINE)] f0: Vector3<i32>,
    #[pasture(BUILTIN_SCAN_ANGLE)] f1: u16,
    #[pasture(attribute = "Own 2")] f2: u8,
    #[pasture(BUILTIN_NORMAL)] f3: u8,
}
unsafe impl bytemuck::Zeroable for T105 {}
unsafe impl bytemuck::AnyBitPattern for T105 {}
unsafe impl bytemuck::NoUninit for T105 {}
#[derive(Copy, Clone, PointType)]
#[repr(C, packed(2))]
pub struct T106 {
    #[pasture(BUILTIN_POINT_ID)] f0: u64,
    #[pasture(BUILTIN_NORMAL)] f1: i8,
    #[pasture(BUILTIN_NIR)] f2: u8,
}
unsafe impl bytemuck::Zeroable for T106 {}
unsafe impl bytemuck::AnyBitPattern for T106 {}
unsafe impl bytemuck::NoUninit for T106 {}
#[derive(Copy, Clone, PointType)]
#[repr(C, packed(4))]
pub struct T107 {
    #[pasture(BUILTIN_GPS_TIME)] f0: i64,
    #[pasture(BUILTIN_POINT_ID)] f1: u64,
    #[pasture(BUILTIN_POINT_SOURCE_ID)] f2: Vector3<f64>,
    #[pasture(attribute = "Attr_3")] f3: Vector3<f64>,
    #[pasture(attribute = "x4")] f4: i32,
    #[pasture(BUILTIN_WAVEFORM_PACKET_SIZE)] f5: i32,
    #[pasture(BUILTIN_INTENSITY)] f6: u32,
    #[pasture(attribute = "Ä7")] f7: u16,
    #[pasture(BUILTIN_RETURN_POINT_WAVEFORM_LOCATION)] f8: u16,
    #[pasture(BUILTIN_SCANNER_CHANNEL)] f9: Vector3<u8>,
    #[pasture(attribute = "Attr_10")] f10: u8,
    #[pasture(attribute = "Attr_11")] f11: Vector4<u8>,
}
unsafe impl bytemuck::Zeroable for T107 {}
unsafe impl bytemuck::AnyBitPattern for T107 {}
unsafe impl bytemuck::NoUninit for T107 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T108 {
    #[pasture(attribute = "x0")] f0: i32,
}
unsafe impl bytemuck::Zeroable for T108 {}
unsafe impl bytemuck::AnyBitPattern for T108 {}
unsafe impl bytemuck::NoUninit for T108 {}
#[derive(Copy, Clone, PointType)]
#[repr(C, packed(8))]
pub struct T109 {
    #[pasture(BUILTIN_SCAN_ANGLE)] f0: Vector3<u16>,
    #[pasture(attribute = "x1")] f1: i16,
    #[pasture(BUILTIN_SCANNER_CHANNEL)] f2: u16,
    #[pasture(attribute = "Attr_3")] f3: Vector3<i32>,
    #[pasture(BUILTIN_SCAN_ANGLE_RANK)] f4: Vector3<f32>,
}
unsafe impl bytemuck::Zeroable for T109 {}
unsafe impl bytemuck::AnyBitPattern for T109 {}
unsafe impl bytemuck::NoUninit for T109 {}
#[derive(Copy, Clone, PointType)]
#[repr(C, packed(16))]
pub struct T110 {
    #[pasture(BUILTIN_WAVEFORM_PACKET_SIZE)] f0: f32,
}
unsafe impl bytemuck::Zeroable for T110 {}
unsafe impl bytemuck::AnyBitPattern for T110 {}
unsafe impl bytemuck::NoUninit for T110 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T111 {
    #[pasture(BUILTIN_WAVEFORM_PACKET_SIZE)] f0: Vector3<f32>,
    #[pasture(attribute = "Attr_1")] f1: i8,
    #[pasture(attribute = "Ä2")] f2: i32,
    #[pasture(attribute = "Own 3")] f3: u64,
    #[pasture(attribute = "Own 4")] f4: Vector3<i32>,
    #[pasture(BUILTIN_NORMAL)] f5: Vector3<f32>,
    #[pasture(attribute = "Own 6")] f6: i32,
    #[pasture(BUILTIN_GPS_TIME)] f7: Vector4<u8>,
    #[pasture(attribute = "Ä8")] f8: i16,
    #[pasture(attribute = "Ä9")] f9: u64,
    #[pasture(attribute = "x10")] f10: i32,
    #[pasture(attribute = "Ä11")] f11: u64,
}
unsafe impl bytemuck::Zeroable for T111 {}
unsafe impl bytemuck::AnyBitPattern for T111 {}
unsafe impl bytemuck::NoUninit for T111 {}
#[derive(Copy, Clone, PointType)]
#[repr(packed(2))]
pub struct T112 {
    #[pasture(attribute = "Ä0")] f0: Vector3<f32>,
    #[pasture(attribute = "Own 1")] f1: i32,
}
unsafe impl bytemuck::Zeroable for T112 {}
unsafe impl bytemuck::AnyBitPattern for T112 {}
unsafe impl bytemuck::NoUninit for T112 {}
#[derive(Copy, Clone, PointType)]
#[repr(packed(4))]
pub struct T113 {
    #[pasture(BUILTIN_NORMAL)] f0: Vector3<f64>,
    #[pasture(attribute = "Attr_1")] f1: Vector3<u8>,
    #[pasture(BUILTIN_SCAN_ANGLE)] f2: i32,
}
unsafe impl bytemuck::Zeroable for T113 {}
unsafe impl bytemuck::AnyBitPattern for T113 {}
unsafe impl bytemuck::NoUninit for T113 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T114 {
    #[pasture(BUILTIN_SCAN_DIRECTION_FLAG)] f0: Vector3<f64>,
    #[pasture(attribute = "Ä1")] f1: Vector3<f32>,
    #[pasture(BUILTIN_CLASSIFICATION_FLAGS)] f2: u32,
    #[pasture(attribute = "x3")] f3: f32,
    #[pasture(BUILTIN_CLASSIFICATION)] f4: Vector3<u16>,
    #[pasture(attribute = "Attr_5")] f5: Vector4<u8>,
    #[pasture(attribute = "Ä6")] f6: u8,
    #[pasture(attribute = "Own 7")] f7: i8,
}
unsafe impl bytemuck::Zeroable for T114 {}
unsafe impl bytemuck::AnyBitPattern for T114 {}
unsafe impl bytemuck::NoUninit for T114 {}
#[derive(Copy, Clone, PointType)]
#[repr(C, align(16))]
pub struct T115 {
    #[pasture(BUILTIN_WAVEFORM_DATA_OFFSET)] f0: Vector3<f64>,
    #[pasture(attribute = "Ä1")] f1: u16,
    #[pasture(attribute = "x2")] f2: i16,
    #[pasture(attribute = "Attr_3")] f3: i32,
}
unsafe impl bytemuck::Zeroable for T115 {}
unsafe impl bytemuck::AnyBitPattern for T115 {}
unsafe impl bytemuck::NoUninit for T115 {}
#[derive(Copy, Clone, PointType)]
#[repr(align(4), C)]
pub struct T116 {
    #[pasture(BUILTIN_EDGE_OF_FLIGHT_LINE)] f0: i64,
    #[pasture(BUILTIN_USER_DATA)] f1: i64,
    #[pasture(BUILTIN_CLASSIFICATION)] f2: f32,
    #[pasture(BUILTIN_GPS_TIME)] f3: Vector3<i32>,
    #[pasture(attribute = "Attr_4")] f4: u16,
    #[pasture(attribute = "Own 5")] f5: u16,
    #[pasture(BUILTIN_POSITION_3D)] f6: Vector3<u8>,
    #[pasture(BUILTIN_SCAN_ANGLE)] f7: Vector4<u8>,
    #[pasture(BUILTIN_COLOR_RGB)] f8: i8,
    #[pasture(BUILTIN_NIR)] f9: i8,
    #[pasture(attribute = "x10")] f10: i8,
    #[pasture(BUILTIN_RETURN_NUMBER)] f11: i8,
    #[pasture(BUILTIN_SCAN_ANGLE_RANK)] f12: u8,
}
unsafe impl bytemuck::Zeroable for T116 {}
unsafe impl bytemuck::AnyBitPattern for T116 {}
unsafe impl bytemuck::NoUninit for T116 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T117 {
    #[pasture(attribute = "Attr_0")] f0: Vector3<f64>,
    #[pasture(BUILTIN_SCANNER_CHANNEL)] f1: u8,
}
unsafe impl bytemuck::Zeroable for T117 {}
unsafe impl bytemuck::AnyBitPattern for T117 {}
unsafe impl bytemuck::NoUninit for T117 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
#[repr(align(32))]
pub struct T118 {
    #[pasture(BUILTIN_INTENSITY)] f0: Vector3<i32>,
    #[pasture(BUILTIN_RETURN_POINT_WAVEFORM_LOCATION)] f1: Vector3<u16>,
    #[pasture(attribute = "Attr_2")] f2: Vector3<f32>,
    #[pasture(attribute = "Own 3")] f3: u64,
    #[pasture(BUILTIN_SCANNER_CHANNEL)] f4: i32,
    #[pasture(attribute = "Ä5")] f5: i64,
    #[pasture(BUILTIN_WAVEFORM_PARAMETERS)] f6: Vector3<i32>,
    #[pasture(BUILTIN_NORMAL)] f7: u16,
    #[pasture(attribute = "Ä8")] f8: f32,
    #[pasture(BUILTIN_GPS_TIME)] f9: i32,
    #[pasture(attribute = "Own 10")] f10: u8,
    #[pasture(attribute = "Own 11")] f11: u16,
}
unsafe impl bytemuck::Zeroable for T118 {}
unsafe impl bytemuck::AnyBitPattern for T118 {}
unsafe impl bytemuck::NoUninit for T118 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T119 {
    #[pasture(attribute = "Attr_0")] f0: i64,
}
unsafe impl bytemuck::Zeroable for T119 {}
unsafe impl bytemuck::AnyBitPattern for T119 {}
unsafe impl bytemuck::NoUninit for T119 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T120 {
    #[pasture(BUILTIN_WAVEFORM_PACKET_SIZE)] f0: i64,
    #[pasture(attribute = "Attr_1")] f1: Vector3<u16>,
    #[pasture(attribute = "x2")] f2: i8,
    #[pasture(BUILTIN_POSITION_3D)] f3: i8,
}
unsafe impl bytemuck::Zeroable for T120 {}
unsafe impl bytemuck::AnyBitPattern for T120 {}
unsafe impl bytemuck::NoUninit for T120 {}
#[derive(Copy, Clone, PointType)]
#[repr(C, packed(1))]
pub struct T121 {
    #[pasture(attribute = "Attr_0")] f0: i16,
    #[pasture(BUILTIN_CLASSIFICATION_FLAGS)] f1: f64,
    #[pasture(BUILTIN_EDGE_OF_FLIGHT_LINE)] f2: i64,
    #[pasture(BUILTIN_SCANNER_CHANNEL)] f3: u16,
    #[pasture(attribute = "Ä4")] f4: Vector3<f64>,
}
unsafe impl bytemuck::Zeroable for T121 {}
unsafe impl bytemuck::AnyBitPattern for T121 {}
unsafe impl bytemuck::NoUninit for T121 {}
#[derive(Copy, Clone, PointType)]
#[repr(packed(2), C)]
pub struct T122 {
    #[pasture(BUILTIN_WAVEFORM_PARAMETERS)] f0: Vector3<u16>,
    #[pasture(attribute = "Ä1")] f1: Vector4<u8>,
    #[pasture(BUILTIN_SCAN_ANGLE)] f2: f64,
    #[pasture(attribute = "Attr_3")] f3: Vector3<f64>,
    #[pasture(attribute = "Attr_4")] f4: f64,
}
unsafe impl bytemuck::Zeroable for T122 {}
unsafe impl bytemuck::AnyBitPattern for T122 {}
unsafe impl bytemuck::NoUninit for T122 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T123 {
    #[pasture(BUILTIN_POINT_ID)] f0: i8,
}
unsafe impl bytemuck::Zeroable for T123 {}
unsafe impl bytemuck::AnyBitPattern for T123 {}
unsafe impl bytemuck::NoUninit for T123 {}
#[derive(Copy, Clone, PointType)]
#[repr(C, packed(4))]
pub struct T124 {
    #[pasture(BUILTIN_NIR)] f0: Vector3<u16>,
    #[pasture(attribute = "x1")] f1: Vector3<u8>,
    #[pasture(attribute = "Ä2")] f2: i32,
    #[pasture(BUILTIN_NORMAL)] f3: u32,
    #[pasture(BUILTIN_CLASSIFICATION)] f4: i16,
    #[pasture(attribute = "x5")] f5: i16,
}
unsafe impl bytemuck::Zeroable for T124 {}
unsafe impl bytemuck::AnyBitPattern for T124 {}
unsafe impl bytemuck::NoUninit for T124 {}
#[derive(Copy, Clone, PointType)]
#[repr(packed(4), C)]
pub struct T125 {
    #[pasture(BUILTIN_SCAN_ANGLE)] f0: Vector3<i32>,
    #[pasture(attribute = "Attr_1")] f1: f64,
    #[pasture(BUILTIN_CLASSIFICATION_FLAGS)] f2: f32,
}
unsafe impl bytemuck::Zeroable for T125 {}
unsafe impl bytemuck::AnyBitPattern for T125 {}
unsafe impl bytemuck::NoUninit for T125 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T126 {
    #[pasture(BUILTIN_NUMBER_OF_RETURNS)] f0: i64,
    #[pasture(attribute = "Attr_1")] f1: u64,
    #[pasture(attribute = "Own 2")] f2: Vector3<f64>,
    #[pasture(BUILTIN_SCAN_ANGLE_RANK)] f3: u16,
    #[pasture(attribute = "Ä4")] f4: u8,
    #[pasture(BUILTIN_INTENSITY)] f5: u8,
    #[pasture(BUILTIN_COLOR_RGB)] f6: i8,
    #[pasture(BUILTIN_WAVEFORM_PACKET_SIZE)] f7: u8,
    #[pasture(BUILTIN_WAVEFORM_DATA_OFFSET)] f8: u8,
    #[pasture(BUILTIN_WAVEFORM_PARAMETERS)] f9: i8,
}
unsafe impl bytemuck::Zeroable for T126 {}
unsafe impl bytemuck::AnyBitPattern for T126 {}
unsafe impl bytemuck::NoUninit for T126 {}
#[derive(Copy, Clone, PointType)]
#[repr(C, packed(16))]
pub struct T127 {
    #[pasture(attribute = "x0")] f0: f64,
    #[pasture(BUILTIN_NUMBER_OF_RETURNS)] f1: i64,
    #[pasture(BUILTIN_GPS_TIME)] f2: Vector3<f64>,
    #[pasture(BUILTIN_WAVEFORM_DATA_OFFSET)] f3: i8,
    #[pasture(attribute = "x4")] f4: u8,
    #[pasture(attribute = "Attr_5")] f5: u8,
    #[pasture(attribute = "Own 6")] f6: u8,
    #[pasture(attribute = "x7")] f7: u8,
    #[pasture(BUILTIN_COLOR_RGB)] f8: u8,
    #[pasture(attribute = "x9")] f9: i8,
    #[pasture(attribute = "Own 10")] f10: i8,
}
unsafe impl bytemuck::Zeroable for T127 {}
unsafe impl bytemuck::AnyBitPattern for T127 {}
unsafe impl bytemuck::NoUninit for T127 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
#[repr(packed(2))]
pub struct T128 {
    #[pasture(BUILTIN_NUMBER_OF_RETURNS)] f0: Vector3<i32>,
    #[pasture(attribute = "Own 1")] f1: Vector3<u8>,
    #[pasture(attribute = "Attr_2")] f2: u8,
    #[pasture(attribute = "x3")] f3: f32,
    #[pasture(attribute = "Ä4")] f4: Vector3<f32>,
}
unsafe impl bytemuck::Zeroable for T128 {}
unsafe impl bytemuck::AnyBitPattern for T128 {}
unsafe impl bytemuck::NoUninit for T128 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T129 {
    #[pasture(attribute = "Attr_0")] f0: Vector3<u16>,
    #[pasture(attribute = "x1")] f1: Vector3<f32>,
    #[pasture(attribute = "x2")] f2: i16,
    #[pasture(BUILTIN_WAVEFORM_PARAMETERS)] f3: Vector3<f32>,
    #[pasture(attribute = "Attr_4")] f4: i32,
    #[pasture(BUILTIN_GPS_TIME)] f5: i32,
    #[pasture(attribute = "Own 6")] f6: i8,
    #[pasture(BUILTIN_NORMAL)] f7: Vector3<f32>,
}
unsafe impl bytemuck::Zeroable for T129 {}
unsafe impl bytemuck::AnyBitPattern for T129 {}
unsafe impl bytemuck::NoUninit for T129 {}
#[derive(Copy, Clone, PointType)]
#[repr(packed(4))]
pub struct T130 {
    #[pasture(BUILTIN_CLASSIFICATION_FLAGS)] f0: i64,
    #[pasture(attribute = "Ä1")] f1: Vector4<u8>,
    #[pasture(attribute = "Ä2")] f2: Vector4<u8>,
}
unsafe impl bytemuck::Zeroable for T130 {}
unsafe impl bytemuck::AnyBitPattern for T130 {}
unsafe impl bytemuck::NoUninit for T130 {}
#[derive(Copy, Clone, PointType)]
#[repr(packed)]
pub struct T131 {
    #[pasture(BUILTIN_SCAN_DIRECTION_FLAG)] f0: f64,
    #[pasture(attribute = "Ä1")] f1: Vector3<f32>,
    #[pasture(BUILTIN_NORMAL)] f2: Vector3<u8>,
    #[pasture(BUILTIN_GPS_TIME)] f3: i64,
    #[pasture(BUILTIN_WAVEFORM_PARAMETERS)] f4: u16,
    #[pasture(BUILTIN_POINT_ID)] f5: u16,
}
unsafe impl bytemuck::Zeroable for T131 {}
unsafe impl bytemuck::AnyBitPattern for T131 {}
unsafe impl bytemuck::NoUninit for T131 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T132 {
    #[pasture(BUILTIN_SCAN_DIRECTION_FLAG)] f0: u32,
    #[pasture(BUILTIN_SCAN_ANGLE)] f1: Vector3<u8>,
    #[pasture(attribute = "Ä2")] f2: Vector3<u8>,
}
unsafe impl bytemuck::Zeroable for T132 {}
unsafe impl bytemuck::AnyBitPattern for T132 {}
unsafe impl bytemuck::NoUninit for T132 {}
#[derive(Copy, Clone, PointType)]
#[repr(align(4), C)]
pub struct T133 {
    #[pasture(attribute = "x0")] f0: u16,
    #[pasture(BUILTIN_GPS_TIME)] f1: i64,
    #[pasture(attribute = "Attr_2")] f2: u64,
    #[pasture(attribute = "Ä3")] f3: Vector4<u8>,
    #[pasture(attribute = "Attr_4")] f4: Vector3<u16>,
    #[pasture(BUILTIN_NIR)] f5: Vector3<f64>,
    #[pasture(BUILTIN_RETURN_NUMBER)] f6: Vector3<i32>,
    #[pasture(BUILTIN_CLASSIFICATION_FLAGS)] f7: Vector3<i32>,
}
unsafe impl bytemuck::Zeroable for T133 {}
unsafe impl bytemuck::AnyBitPattern for T133 {}
unsafe impl bytemuck::NoUninit for T133 {}
#[derive(Copy, Clone, PointType)]
#[repr(packed(8))]
pub struct T134 {
    #[pasture(BUILTIN_COLOR_RGB)] f0: Vector3<u8>,
    #[pasture(BUILTIN_NUMBER_OF_RETURNS)] f1: u64,
}
unsafe impl bytemuck::Zeroable for T134 {}
unsafe impl bytemuck::AnyBitPattern for T134 {}
unsafe impl bytemuck::NoUninit for T134 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T135 {
    #[pasture(BUILTIN_SCAN_DIRECTION_FLAG)] f0: f64,
    #[pasture(attribute = "x1")] f1: i8,
    #[pasture(attribute = "Ä2")] f2: u64,
    #[pasture(BUILTIN_CLASSIFICATION)] f3: i32,
    #[pasture(BUILTIN_POINT_ID)] f4: Vector3<f64>,
    #[pasture(attribute = "Attr_5")] f5: Vector3<u16>,
    #[pasture(BUILTIN_RETURN_NUMBER)] f6: i64,
    #[pasture(BUILTIN_INTENSITY)] f7: Vector3<u8>,
    #[pasture(attribute = "Attr_8")] f8: f32,
    #[pasture(attribute = "Ä9")] f9: f64,
    #[pasture(BUILTIN_WAVEFORM_DATA_OFFSET)] f10: i8,
    #[pasture(BUILTIN_SCAN_ANGLE)] f11: Vector3<i32>,
}
unsafe impl bytemuck::Zeroable for T135 {}
unsafe impl bytemuck::AnyBitPattern for T135 {}
unsafe impl bytemuck::NoUninit for T135 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T136 {
    #[pasture(BUILTIN_NORMAL)] f0: u64,
    #[pasture(BUILTIN_WAVE_PACKET_DESCRIPTOR_INDEX)] f1: f64,
    #[pasture(BUILTIN_CLASSIFICATION)] f2: f64,
    #[pasture(attribute = "Own 3")] f3: i32,
    #[pasture(BUILTIN_WAVEFORM_DATA_OFFSET)] f4: Vector3<i32>,
    #[pasture(BUILTIN_INTENSITY)] f5: i32,
    #[pasture(BUILTIN_SCAN_ANGLE)] f6: u32,
    #[pasture(attribute = "Attr_7")] f7: Vector3<u16>,
    #[pasture(attribute = "Own 8")] f8: i16,
    #[pasture(BUILTIN_RETURN_NUMBER)] f9: u16,
    #[pasture(attribute = "Attr_10")] f10: i8,
    #[pasture(attribute = "Attr_11")] f11: Vector4<u8>,
    #[pasture(BUILTIN_CLASSIFICATION_FLAGS)] f12: u8,
}
unsafe impl bytemuck::Zeroable for T136 {}
unsafe impl bytemuck::AnyBitPattern for T136 {}
unsafe impl bytemuck::NoUninit for T136 {}
#[derive(Copy, Clone, PointType)]
#[repr(C, packed)]
pub struct T137 {
    #[pasture(BUILTIN_EDGE_OF_FLIGHT_LINE)] f0: u64,
    #[pasture(BUILTIN_RETURN_POINT_WAVEFORM_LOCATION)] f1: i16,
    #[pasture(BUILTIN_CLASSIFICATION)] f2: Vector4<u8>,
    #[pasture(attribute = "Attr_3")] f3: u64,
    #[pasture(BUILTIN_SCAN_ANGLE)] f4: i64,
    #[pasture(BUILTIN_NIR)] f5: i8,
    #[pasture(attribute = "Attr_6")] f6: u8,
    #[pasture(attribute = "Ä7")] f7: u32,
}
unsafe impl bytemuck::Zeroable for T137 {}
unsafe impl bytemuck::AnyBitPattern for T137 {}
unsafe impl bytemuck::NoUninit for T137 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T138 {
    #[pasture(BUILTIN_GPS_TIME)] f0: i64,
    #[pasture(attribute = "Ä1")] f1: Vector3<i32>,
    #[pasture(attribute = "x2")] f2: Vector3<i32>,
    #[pasture(attribute = "Ä3")] f3: u16,
    #[pasture(BUILTIN_INTENSITY)] f4: Vector3<u8>,
    #[pasture(BUILTIN_POSITION_3D)] f5: u8,
    #[pasture(attribute = "Ä6")] f6: u8,
    #[pasture(attribute = "x7")] f7: u8,
}
unsafe impl bytemuck::Zeroable for T138 {}
unsafe impl bytemuck::AnyBitPattern for T138 {}
unsafe impl bytemuck::NoUninit for T138 {}
#[derive(Copy, Clone, PointType)]
#[repr(packed(2), C)]
pub struct T139 {
    #[pasture(attribute = "Own 0")] f0: Vector3<u16>,
    #[pasture(BUILTIN_INTENSITY)] f1: Vector4<u8>,
    #[pasture(attribute = "x2")] f2: i8,
    #[pasture(attribute = "Ä3")] f3: i8,
}
unsafe impl bytemuck::Zeroable for T139 {}
unsafe impl bytemuck::AnyBitPattern for T139 {}
unsafe impl bytemuck::NoUninit for T139 {}
#[derive(Copy, Clone, PointType)]
#[repr(C, packed(2))]
pub struct T140 {
    #[pasture(attribute = "Ä0")] f0: Vector3<f64>,
}
unsafe impl bytemuck::Zeroable for T140 {}
unsafe impl bytemuck::AnyBitPattern for T140 {}
unsafe impl bytemuck::NoUninit for T140 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T141 {
    #[pasture(BUILTIN_INTENSITY)] f0: f64,
    #[pasture(attribute = "Own 1")] f1: Vector3<f32>,
    #[pasture(attribute = "x2")] f2: i32,
    #[pasture(BUILTIN_WAVEFORM_PACKET_SIZE)] f3: i64,
    #[pasture(BUILTIN_WAVE_PACKET_DESCRIPTOR_INDEX)] f4: u16,
    #[pasture(attribute = "Attr_5")] f5: i8,
    #[pasture(attribute = "x6")] f6: Vector3<i32>,
    #[pasture(attribute = "Attr_7")] f7: Vector3<f64>,
}
unsafe impl bytemuck::Zeroable for T141 {}
unsafe impl bytemuck::AnyBitPattern for T141 {}
unsafe impl bytemuck::NoUninit for T141 {}
#[derive(Copy, Clone, PointType)]
#[repr(packed(4), C)]
pub struct T142 {
    #[pasture(attribute = "Ä0")] f0: Vector3<f64>,
    #[pasture(BUILTIN_RETURN_POINT_WAVEFORM_LOCATION)] f1: u32,
    #[pasture(attribute = "Own 2")] f2: Vector3<u8>,
    #[pasture(BUILTIN_POSITION_3D)] f3: u64,
    #[pasture(attribute = "Attr_4")] f4: i16,
    #[pasture(attribute = "Attr_5")] f5: i64,
    #[pasture(BUILTIN_CLASSIFICATION)] f6: Vector3<f64>,
    #[pasture(attribute = "x7")] f7: i64,
    #[pasture(attribute = "Own 8")] f8: i32,
    #[pasture(BUILTIN_EDGE_OF_FLIGHT_LINE)] f9: i32,
    #[pasture(BUILTIN_RETURN_NUMBER)] f10: u32,
    #[pasture(BUILTIN_POINT_SOURCE_ID)] f11: f64,
}
unsafe impl bytemuck::Zeroable for T142 {}
unsafe impl bytemuck::AnyBitPattern for T142 {}
unsafe impl bytemuck::NoUninit for T142 {}
#[derive(Copy, Clone, PointType)]
#[repr(C, packed(8))]
pub struct T143 {
    #[pasture(BUILTIN_CLASSIFICATION)] f0: i64,
    #[pasture(attribute = "Ä1")] f1: Vector3<f32>,
    #[pasture(BUILTIN_WAVEFORM_PARAMETERS)] f2: Vector3<f32>,
    #[pasture(attribute = "Attr_3")] f3: Vector4<u8>,
    #[pasture(BUILTIN_NIR)] f4: f32,
}
unsafe impl bytemuck::Zeroable for T143 {}
unsafe impl bytemuck::AnyBitPattern for T143 {}
unsafe impl bytemuck::NoUninit for T143 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T144 {
    #[pasture(BUILTIN_GPS_TIME)] f0: u64,
    #[pasture(BUILTIN_SCANNER_CHANNEL)] f1: f32,
    #[pasture(attribute = "x2")] f2: i8,
    #[pasture(BUILTIN_NIR)] f3: i8,
    #[pasture(attribute = "x4")] f4: u8,
    #[pasture(attribute = "Own 5")] f5: i8,
}
unsafe impl bytemuck::Zeroable for T144 {}
unsafe impl bytemuck::AnyBitPattern for T144 {}
unsafe impl bytemuck::NoUninit for T144 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
#[repr(packed(2))]
pub struct T145 {
    #[pasture(BUILTIN_SCAN_ANGLE_RANK)] f0: f32,
    #[pasture(attribute = "x1")] f1: i32,
    #[pasture(BUILTIN_WAVEFORM_DATA_OFFSET)] f2: Vector3<i32>,
    #[pasture(BUILTIN_POSITION_3D)] f3: f32,
    #[pasture(attribute = "x4")] f4: Vector3<u16>,
    #[pasture(attribute = "x5")] f5: Vector3<u8>,
    #[pasture(BUILTIN_WAVE_PACKET_DESCRIPTOR_INDEX)] f6: u8,
}
unsafe impl bytemuck::Zeroable for T145 {}
unsafe impl bytemuck::AnyBitPattern for T145 {}
unsafe impl bytemuck::NoUninit for T145 {}
#[derive(Copy, Clone, PointType)]
#[repr(packed(2))]
pub struct T146 {
    #[pasture(BUILTIN_POINT_SOURCE_ID)] f0: Vector4<u8>,
    #[pasture(BUILTIN_NIR)] f1: Vector3<f64>,
    #[pasture(attribute = "x2")] f2: f64,
    #[pasture(BUILTIN_SCAN_ANGLE)] f3: u32,
    #[pasture(BUILTIN_RETURN_POINT_WAVEFORM_LOCATION)] f4: i8,
    #[pasture(BUILTIN_SCAN_ANGLE_RANK)] f5: Vector3<i32>,
    #[pasture(attribute = "Ä6")] f6: Vector3<i32>,
    #[pasture(attribute = "Attr_7")] f7: Vector3<f64>,
    #[pasture(BUILTIN_CLASSIFICATION_FLAGS)] f8: Vector3<f32>,
    #[pasture(attribute = "Attr_9")] f9: Vector3<f32>,
    #[pasture(BUILTIN_SCAN_DIRECTION_FLAG)] f10: f32,
    #[pasture(attribute = "x11")] f11: Vector3<f32>,
}
unsafe impl bytemuck::Zeroable for T146 {}
unsafe impl bytemuck::AnyBitPattern for T146 {}
unsafe impl bytemuck::NoUninit for T146 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T147 {
    #[pasture(attribute = "x0")] f0: Vector3<f64>,
    #[pasture(BUILTIN_SCAN_DIRECTION_FLAG)] f1: u64,
    #[pasture(BUILTIN_POSITION_3D)] f2: Vector3<f64>,
    #[pasture(BUILTIN_SCAN_ANGLE_RANK)] f3: i32,
    #[pasture(attribute = "Own 4")] f4: f32,
    #[pasture(attribute = "x5")] f5: f32,
    #[pasture(BUILTIN_WAVEFORM_PARAMETERS)] f6: i32,
    #[pasture(attribute = "Own 7")] f7: u32,
    #[pasture(attribute = "Own 8")] f8: Vector3<u16>,
    #[pasture(BUILTIN_GPS_TIME)] f9: i16,
    #[pasture(attribute = "Own 10")] f10: u8,
    #[pasture(attribute = "x11")] f11: u8,
    #[pasture(BUILTIN_EDGE_OF_FLIGHT_LINE)] f12: i8,
    #[pasture(BUILTIN_POINT_ID)] f13: i8,
}
unsafe impl bytemuck::Zeroable for T147 {}
unsafe impl bytemuck::AnyBitPattern for T147 {}
unsafe impl bytemuck::NoUninit for T147 {}
#[derive(Copy, Clone, PointType)]
#[repr(packed)]
pub struct T148 {
    #[pasture(attribute = "Attr_0")] f0: u16,
    #[pasture(attribute = "Attr_1")] f1: f32,
}
unsafe impl bytemuck::Zeroable for T148 {}
unsafe impl bytemuck::AnyBitPattern for T148 {}
unsafe impl bytemuck::NoUninit for T148 {}
#[derive(Copy, Clone, PointType)]
#[repr(C, align(16))]
pub struct T149 {
    #[pasture(BUILTIN_GPS_TIME)] f0: Vector3<f32>,
    #[pasture(BUILTIN_SCAN_DIRECTION_FLAG)] f1: Vector3<u8>,
    #[pasture(attribute = "Ä2")] f2: i16,
}
unsafe impl bytemuck::Zeroable for T149 {}
unsafe impl bytemuck::AnyBitPattern for T149 {}
unsafe impl bytemuck::NoUninit for T149 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T150 {
    #[pasture(BUILTIN_RETURN_NUMBER)] f0: i32,
    #[pasture(attribute = "x1")] f1: i32,
    #[pasture(BUILTIN_SCAN_ANGLE)] f2: u32,
    #[pasture(attribute = "Own 3")] f3: u16,
    #[pasture(attribute = "Attr_4")] f4: u8,
    #[pasture(attribute = "x5")] f5: u8,
}
unsafe impl bytemuck::Zeroable for T150 {}
unsafe impl bytemuck::AnyBitPattern for T150 {}
unsafe impl bytemuck::NoUninit for T150 {}
#[derive(Copy, Clone, PointType)]
#[repr(packed(8))]
pub struct T151 {
    #[pasture(BUILTIN_POINT_SOURCE_ID)] f0: u8,
    #[pasture(BUILTIN_NIR)] f1: Vector3<f64>,
    #[pasture(attribute = "Own 2")] f2: i16,
}
unsafe impl bytemuck::Zeroable for T151 {}
unsafe impl bytemuck::AnyBitPattern for T151 {}
unsafe impl bytemuck::NoUninit for T151 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
#[repr(align(32))]
pub struct T152 {
    #[pasture(attribute = "x0")] f0: Vector3<f64>,
    #[pasture(attribute = "x1")] f1: f64,
    #[pasture(BUILTIN_SCAN_DIRECTION_FLAG)] f2: u64,
    #[pasture(BUILTIN_NORMAL)] f3: f64,
    #[pasture(attribute = "x4")] f4: Vector3<i32>,
    #[pasture(BUILTIN_SCAN_ANGLE)] f5: Vector3<f32>,
}
unsafe impl bytemuck::Zeroable for T152 {}
unsafe impl bytemuck::AnyBitPattern for T152 {}
unsafe impl bytemuck::NoUninit for T152 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T153 {
    #[pasture(BUILTIN_WAVEFORM_PACKET_SIZE)] f0: u32,
    #[pasture(attribute = "Own 1")] f1: i16,
    #[pasture(BUILTIN_SCAN_ANGLE_RANK)] f2: u8,
    #[pasture(attribute = "Attr_3")] f3: Vector4<u8>,
    #[pasture(attribute = "x4")] f4: u8,
}
unsafe impl bytemuck::Zeroable for T153 {}
unsafe impl bytemuck::AnyBitPattern for T153 {}
unsafe impl bytemuck::NoUninit for T153 {}
#[derive(Copy, Clone, PointType)]
#[repr(C, packed)]
pub struct T154 {
    #[pasture(BUILTIN_NORMAL)] f0: i32,
    #[pasture(BUILTIN_SCAN_ANGLE)] f1: Vector3<i32>,
}
unsafe impl bytemuck::Zeroable for T154 {}
unsafe impl bytemuck::AnyBitPattern for T154 {}
unsafe impl bytemuck::NoUninit for T154 {}
#[derive(Copy, Clone, PointType)]
#[repr(C, packed(1))]
pub struct T155 {
    #[pasture(BUILTIN_RETURN_POINT_WAVEFORM_LOCATION)] f0: Vector3<f64>,
    #[pasture(attribute = "x1")] f1: u16,
    #[pasture(BUILTIN_NIR)] f2: Vector3<u16>,
    #[pasture(BUILTIN_SCAN_ANGLE)] f3: i32,
    #[pasture(attribute = "Own 4")] f4: Vector3<i32>,
    #[pasture(BUILTIN_RETURN_NUMBER)] f5: u8,
}
unsafe impl bytemuck::Zeroable for T155 {}
unsafe impl bytemuck::AnyBitPattern for T155 {}
unsafe impl bytemuck::NoUninit for T155 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T156 {
    #[pasture(attribute = "x0")] f0: Vector3<f32>,
    #[pasture(attribute = "x1")] f1: u32,
    #[pasture(attribute = "Own 2")] f2: u64,
}
unsafe impl bytemuck::Zeroable for T156 {}
unsafe impl bytemuck::AnyBitPattern for T156 {}
unsafe impl bytemuck::NoUninit for T156 {}
#[derive(Copy, Clone, PointType)]
#[repr(C, packed(2))]
pub struct T157 {
    #[pasture(BUILTIN_POSITION_3D)] f0: f64,
    #[pasture(BUILTIN_WAVE_PACKET_DESCRIPTOR_INDEX)] f1: u32,
    #[pasture(BUILTIN_NUMBER_OF_RETURNS)] f2: Vector3<f64>,
    #[pasture(attribute = "x3")] f3: u16,
    #[pasture(BUILTIN_COLOR_RGB)] f4: u8,
    #[pasture(BUILTIN_POINT_SOURCE_ID)] f5: Vector4<u8>,
}
unsafe impl bytemuck::Zeroable for T157 {}
unsafe impl bytemuck::AnyBitPattern for T157 {}
unsafe impl bytemuck::NoUninit for T157 {}
#[derive(Copy, Clone, PointType)]
#[repr(C, packed(4))]
pub struct T158 {
    #[pasture(BUILTIN_WAVEFORM_PARAMETERS)] f0: i64,
    #[pasture(BUILTIN_USER_DATA)] f1: i64,
}
unsafe impl bytemuck::Zeroable for T158 {}
unsafe impl bytemuck::AnyBitPattern for T158 {}
unsafe impl bytemuck::NoUninit for T158 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T159 {
    #[pasture(attribute = "Own 0")] f0: Vector3<f64>,
    #[pasture(BUILTIN_WAVEFORM_DATA_OFFSET)] f1: Vector3<f64>,
    #[pasture(attribute = "Attr_2")] f2: Vector3<i32>,
    #[pasture(BUILTIN_GPS_TIME)] f3: u32,
    #[pasture(BUILTIN_WAVEFORM_PACKET_SIZE)] f4: i8,
    #[pasture(attribute = "Own 5")] f5: u8,
    #[pasture(BUILTIN_WAVE_PACKET_DESCRIPTOR_INDEX)] f6: u8,
    #[pasture(attribute = "Own 7")] f7: u8,
    #[pasture(BUILTIN_POSITION_3D)] f8: i8,
    #[pasture(BUILTIN_COLOR_RGB)] f9: i8,
    #[pasture(attribute = "Attr_10")] f10: u8,
    #[pasture(BUILTIN_RETURN_POINT_WAVEFORM_LOCATION)] f11: u8,
}
unsafe impl bytemuck::Zeroable for T159 {}
unsafe impl bytemuck::AnyBitPattern for T159 {}
unsafe impl bytemuck::NoUninit for T159 {}
#[derive(Copy, Clone, PointType)]
#[repr(C, packed(8))]
pub struct T160 {
    #[pasture(BUILTIN_NIR)] f0: Vector4<u8>,
    #[pasture(attribute = "x1")] f1: u8,
}
unsafe impl bytemuck::Zeroable for T160 {}
unsafe impl bytemuck::AnyBitPattern for T160 {}
unsafe impl bytemuck::NoUninit for T160 {}
#[derive(Copy, Clone, PointType)]
#[repr(C, packed(16))]
pub struct T161 {
    #[pasture(attribute = "x0")] f0: Vector3<i32>,
    #[pasture(BUILTIN_GPS_TIME)] f1: f64,
    #[pasture(BUILTIN_USER_DATA)] f2: Vector3<i32>,
    #[pasture(attribute = "x3")] f3: i32,
}
unsafe impl bytemuck::Zeroable for T161 {}
unsafe impl bytemuck::AnyBitPattern for T161 {}
unsafe impl bytemuck::NoUninit for T161 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T162 {
    #[pasture(BUILTIN_SCAN_DIRECTION_FLAG)] f0: i16,
}
unsafe impl bytemuck::Zeroable for T162 {}
unsafe impl bytemuck::AnyBitPattern for T162 {}
unsafe impl bytemuck::NoUninit for T162 {}
#[derive(Copy, Clone, PointType)]
#[repr(packed(2))]
pub struct T163 {
    #[pasture(attribute = "Ä0")] f0: i16,
    #[pasture(attribute = "Own 1")] f1: i8,
    #[pasture(BUILTIN_SCAN_DIRECTION_FLAG)] f2: Vector4<u8>,
    #[pasture(attribute = "Attr_3")] f3: u8,
}
unsafe impl bytemuck::Zeroable for T163 {}
unsafe impl bytemuck::AnyBitPattern for T163 {}
unsafe impl bytemuck::NoUninit for T163 {}
#[derive(Copy, Clone, PointType)]
#[repr(packed(4))]
pub struct T164 {
    #[pasture(BUILTIN_RETURN_POINT_WAVEFORM_LOCATION)] f0: f64,
    #[pasture(BUILTIN_RETURN_NUMBER)] f1: Vector3<i32>,
    #[pasture(BUILTIN_SCAN_DIRECTION_FLAG)] f2: Vector3<u8>,
    #[pasture(BUILTIN_NORMAL)] f3: u8,
}
unsafe impl bytemuck::Zeroable for T164 {}
unsafe impl bytemuck::AnyBitPattern for T164 {}
unsafe impl bytemuck::NoUninit for T164 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T165 {
    #[pasture(BUILTIN_USER_DATA)] f0: u8,
    #[pasture(attribute = "Ä1")] f1: u32,
    #[pasture(BUILTIN_COLOR_RGB)] f2: f64,
    #[pasture(attribute = "Ä3")] f3: Vector3<u16>,
}
unsafe impl bytemuck::Zeroable for T165 {}
unsafe impl bytemuck::AnyBitPattern for T165 {}
unsafe impl bytemuck::NoUninit for T165 {}
#[derive(Copy, Clone, PointType)]
#[repr(C, align(16))]
pub struct T166 {
    #[pasture(BUILTIN_SCAN_ANGLE)] f0: Vector4<u8>,
}
unsafe impl bytemuck::Zeroable for T166 {}
unsafe impl bytemuck::AnyBitPattern for T166 {}
unsafe impl bytemuck::NoUninit for T166 {}
#[derive(Copy, Clone, PointType)]
#[repr(align(4), C)]
pub struct T167 {
    #[pasture(attribute = "x0")] f0: f64,
    #[pasture(BUILTIN_NIR)] f1: Vector3<f32>,
    #[pasture(BUILTIN_RETURN_POINT_WAVEFORM_LOCATION)] f2: i8,
    #[pasture(attribute = "Own 3")] f3: i8,
    #[pasture(attribute = "Attr_4")] f4: u8,
    #[pasture(BUILTIN_WAVEFORM_PARAMETERS)] f5: i8,
}
unsafe impl bytemuck::Zeroable for T167 {}
unsafe impl bytemuck::AnyBitPattern for T167 {}
unsafe impl bytemuck::NoUninit for T167 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T168 {
    #[pasture(BUILTIN_NUMBER_OF_RETURNS)] f0: Vector4<u8>,
    #[pasture(BUILTIN_POSITION_3D)] f1: Vector3<u16>,
    #[pasture(BUILTIN_USER_DATA)] f2: Vector3<f32>,
}
unsafe impl bytemuck::Zeroable for T168 {}
unsafe impl bytemuck::AnyBitPattern for T168 {}
unsafe impl bytemuck::NoUninit for T168 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
#[repr(align(32))]
pub struct T169 {
    #[pasture(attribute = "x0")] f0: f32,
    #[pasture(attribute = "Ä1")] f1: u32,
}
unsafe impl bytemuck::Zeroable for T169 {}
unsafe impl bytemuck::AnyBitPattern for T169 {}
unsafe impl bytemuck::NoUninit for T169 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T170 {
    #[pasture(BUILTIN_WAVEFORM_DATA_OFFSET)] f0: Vector3<i32>,
    #[pasture(attribute = "Ä1")] f1: u16,
    #[pasture(attribute = "Attr_2")] f2: i8,
    #[pasture(BUILTIN_COLOR_RGB)] f3: u8,
}
unsafe impl bytemuck::Zeroable for T170 {}
unsafe impl bytemuck::AnyBitPattern for T170 {}
unsafe impl bytemuck::NoUninit for T170 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T171 {
    #[pasture(BUILTIN_CLASSIFICATION_FLAGS)] f0: f64,
    #[pasture(BUILTIN_SCAN_ANGLE)] f1: Vector3<f32>,
    #[pasture(BUILTIN_WAVE_PACKET_DESCRIPTOR_INDEX)] f2: f32,
    #[pasture(attribute = "Ä3")] f3: u16,
    #[pasture(attribute = "Attr_4")] f4: u8,
    #[pasture(attribute = "x5")] f5: u8,
    #[pasture(BUILTIN_NIR)] f6: u8,
    #[pasture(BUILTIN_WAVEFORM_PARAMETERS)] f7: i8,
    #[pasture(attribute = "x8")] f8: i8,
    #[pasture(attribute = "x9")] f9: u8,
}
unsafe impl bytemuck::Zeroable for T171 {}
unsafe impl bytemuck::AnyBitPattern for T171 {}
unsafe impl bytemuck::NoUninit for T171 {}
#[derive(Copy, Clone, PointType)]
#[repr(C, packed(1))]
pub struct T172 {
    #[pasture(attribute = "x0")] f0: Vector3<f32>,
    #[pasture(BUILTIN_NORMAL)] f1: i8,
    #[pasture(attribute = "x2")] f2: i32,
    #[pasture(attribute = "Own 3")] f3: f64,
    #[pasture(attribute = "Attr_4")] f4: Vector3<f64>,
    #[pasture(attribute = "Own 5")] f5: f64,
    #[pasture(attribute = "Own 6")] f6: u64,
    #[pasture(attribute = "x7")] f7: Vector3<f64>,
    #[pasture(BUILTIN_SCAN_DIRECTION_FLAG)] f8: Vector3<u16>,
    #[pasture(attribute = "x9")] f9: i8,
    #[pasture(BUILTIN_WAVEFORM_PACKET_SIZE)] f10: Vector4<u8>,
    #[pasture(attribute = "Ä11")] f11: Vector3<i32>,
}
unsafe impl bytemuck::Zeroable for T172 {}
unsafe impl bytemuck::AnyBitPattern for T172 {}
unsafe impl bytemuck::NoUninit for T172 {}
#[derive(Copy, Clone, PointType)]
#[repr(packed(2), C)]
pub struct T173 {
    #[pasture(BUILTIN_POINT_ID)] f0: u32,
    #[pasture(BUILTIN_WAVEFORM_PACKET_SIZE)] f1: u32,
    #[pasture(BUILTIN_COLOR_RGB)] f2: i8,
    #[pasture(attribute = "Ä3")] f3: u8,
}
unsafe impl bytemuck::Zeroable for T173 {}
unsafe impl bytemuck::AnyBitPattern for T173 {}
unsafe impl bytemuck::NoUninit for T173 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T174 {
    #[pasture(BUILTIN_GPS_TIME)] f0: Vector3<f32>,
    #[pasture(attribute = "Ä1")] f1: i64,
    #[pasture(attribute = "Attr_2")] f2: u64,
}
unsafe impl bytemuck::Zeroable for T174 {}
unsafe impl bytemuck::AnyBitPattern for T174 {}
unsafe impl bytemuck::NoUninit for T174 {}
#[derive(Copy, Clone, PointType)]
#[repr(C, packed(4))]
pub struct T175 {
    #[pasture(BUILTIN_SCAN_ANGLE)] f0: u64,
    #[pasture(BUILTIN_NORMAL)] f1: u16,
}
unsafe impl bytemuck::Zeroable for T175 {}
unsafe impl bytemuck::AnyBitPattern for T175 {}
unsafe impl bytemuck::NoUninit for T175 {}
#[derive(Copy, Clone, PointType)]
#[repr(packed(4), C)]
pub struct T176 {
    #[pasture(BUILTIN_RETURN_POINT_WAVEFORM_LOCATION)] f0: u32,
}
unsafe impl bytemuck::Zeroable for T176 {}
unsafe impl bytemuck::AnyBitPattern for T176 {}
unsafe impl bytemuck::NoUninit for T176 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T177 {
    #[pasture(BUILTIN_EDGE_OF_FLIGHT_LINE)] f0: u64,
    #[pasture(BUILTIN_NORMAL)] f1: Vector3<f32>,
    #[pasture(BUILTIN_USER_DATA)] f2: f32,
    #[pasture(BUILTIN_WAVEFORM_PACKET_SIZE)] f3: Vector3<u8>,
    #[pasture(BUILTIN_WAVEFORM_DATA_OFFSET)] f4: u8,
    #[pasture(BUILTIN_WAVEFORM_PARAMETERS)] f5: u8,
    #[pasture(BUILTIN_SCAN_ANGLE)] f6: u8,
    #[pasture(attribute = "Own 7")] f7: i8,
    #[pasture(BUILTIN_SCAN_ANGLE_RANK)] f8: u8,
}
unsafe impl bytemuck::Zeroable for T177 {}
unsafe impl bytemuck::AnyBitPattern for T177 {}
unsafe impl bytemuck::NoUninit for T177 {}
#[derive(Copy, Clone, PointType)]
#[repr(C, packed(16))]
pub struct T178 {
    #[pasture(attribute = "x0")] f0: Vector3<f64>,
    #[pasture(BUILTIN_WAVEFORM_DATA_OFFSET)] f1: Vector3<f64>,
    #[pasture(BUILTIN_INTENSITY)] f2: Vector3<u16>,
    #[pasture(BUILTIN_RETURN_POINT_WAVEFORM_LOCATION)] f3: i8,
    #[pasture(BUILTIN_POINT_ID)] f4: i8,
}
unsafe impl bytemuck::Zeroable for T178 {}
unsafe impl bytemuck::AnyBitPattern for T178 {}
unsafe impl bytemuck::NoUninit for T178 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
#[repr(packed(2))]
pub struct T179 {
    #[pasture(attribute = "Own 0")] f0: u16,
    #[pasture(attribute = "Ä1")] f1: i32,
    #[pasture(BUILTIN_NORMAL)] f2: u32,
}
unsafe impl bytemuck::Zeroable for T179 {}
unsafe impl bytemuck::AnyBitPattern for T179 {}
unsafe impl bytemuck::NoUninit for T179 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T180 {
    #[pasture(BUILTIN_INTENSITY)] f0: f64,
    #[pasture(attribute = "Ä1")] f1: i64,
    #[pasture(attribute = "Attr_2")] f2: u32,
    #[pasture(attribute = "Attr_3")] f3: Vector3<u16>,
    #[pasture(BUILTIN_SCAN_ANGLE)] f4: Vector4<u8>,
    #[pasture(BUILTIN_EDGE_OF_FLIGHT_LINE)] f5: i8,
    #[pasture(attribute = "x6")] f6: u8,
}
unsafe impl bytemuck::Zeroable for T180 {}
unsafe impl bytemuck::AnyBitPattern for T180 {}
unsafe impl bytemuck::NoUninit for T180 {}
#[derive(Copy, Clone, PointType)]
#[repr(packed(4))]
pub struct T181 {
    #[pasture(BUILTIN_SCAN_ANGLE_RANK)] f0: u64,
    #[pasture(BUILTIN_RETURN_POINT_WAVEFORM_LOCATION)] f1: f32,
    #[pasture(BUILTIN_POINT_ID)] f2: u8,
    #[pasture(attribute = "Own 3")] f3: u8,
    #[pasture(BUILTIN_SCAN_DIRECTION_FLAG)] f4: u8,
    #[pasture(BUILTIN_CLASSIFICATION_FLAGS)] f5: u8,
}
unsafe impl bytemuck::Zeroable for T181 {}
unsafe impl bytemuck::AnyBitPattern for T181 {}
unsafe impl bytemuck::NoUninit for T181 {}
#[derive(Copy, Clone, PointType)]
#[repr(packed)]
pub struct T182 {
    #[pasture(attribute = "Own 0")] f0: Vector3<i32>,
    #[pasture(BUILTIN_WAVE_PACKET_DESCRIPTOR_INDEX)] f1: u32,
    #[pasture(BUILTIN_EDGE_OF_FLIGHT_LINE)] f2: Vector3<u8>,
    #[pasture(BUILTIN_POSITION_3D)] f3: i8,
}
unsafe impl bytemuck::Zeroable for T182 {}
unsafe impl bytemuck::AnyBitPattern for T182 {}
unsafe impl bytemuck::NoUninit for T182 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T183 {
    #[pasture(BUILTIN_RETURN_NUMBER)] f0: f32,
    #[pasture(BUILTIN_WAVEFORM_PACKET_SIZE)] f1: Vector3<i32>,
    #[pasture(BUILTIN_SCAN_DIRECTION_FLAG)] f2: i8,
    #[pasture(attribute = "x3")] f3: Vector3<i32>,
    #[pasture(attribute = "Own 4")] f4: f64,
    #[pasture(attribute = "Attr_5")] f5: Vector4<u8>,
    #[pasture(BUILTIN_WAVEFORM_DATA_OFFSET)] f6: i32,
    #[pasture(attribute = "Ä7")] f7: Vector3<f32>,
}
unsafe impl bytemuck::Zeroable for T183 {}
unsafe impl bytemuck::AnyBitPattern for T183 {}
unsafe impl bytemuck::NoUninit for T183 {}
#[derive(Copy, Clone, PointType)]
#[repr(align(4), C)]
pub struct T184 {
    #[pasture(attribute = "Own 0")] f0: Vector3<u16>,
    #[pasture(BUILTIN_USER_DATA)] f1: f32,
    #[pasture(BUILTIN_RETURN_POINT_WAVEFORM_LOCATION)] f2: Vector3<u16>,
    #[pasture(attribute = "x3")] f3: Vector3<i32>,
    #[pasture(BUILTIN_NORMAL)] f4: Vector3<u8>,
    #[pasture(BUILTIN_WAVEFORM_DATA_OFFSET)] f5: Vector3<f64>,
    #[pasture(attribute = "Own 6")] f6: Vector3<u16>,
    #[pasture(attribute = "x7")] f7: u16,
    #[pasture(BUILTIN_SCAN_ANGLE_RANK)] f8: i8,
    #[pasture(BUILTIN_NIR)] f9: f32,
    #[pasture(attribute = "Ä10")] f10: i8,
    #[pasture(BUILTIN_POINT_SOURCE_ID)] f11: Vector3<u8>,
}
unsafe impl bytemuck::Zeroable for T184 {}
unsafe impl bytemuck::AnyBitPattern for T184 {}
unsafe impl bytemuck::NoUninit for T184 {}
#[derive(Copy, Clone, PointType)]
#[repr(packed(8))]
pub struct T185 {
    #[pasture(BUILTIN_SCAN_ANGLE_RANK)] f0: i16,
    #[pasture(attribute = "x1")] f1: Vector3<u16>,
    #[pasture(BUILTIN_RETURN_POINT_WAVEFORM_LOCATION)] f2: Vector3<u8>,
    #[pasture(attribute = "x3")] f3: i8,
}
unsafe impl bytemuck::Zeroable for T185 {}
unsafe impl bytemuck::AnyBitPattern for T185 {}
unsafe impl bytemuck::NoUninit for T185 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T186 {
    #[pasture(BUILTIN_NUMBER_OF_RETURNS)] f0: u64,
    #[pasture(BUILTIN_WAVE_PACKET_DESCRIPTOR_INDEX)] f1: u64,
    #[pasture(BUILTIN_SCANNER_CHANNEL)] f2: f32,
    #[pasture(BUILTIN_INTENSITY)] f3: i8,
    #[pasture(BUILTIN_CLASSIFICATION_FLAGS)] f4: i8,
    #[pasture(BUILTIN_POINT_ID)] f5: i8,
    #[pasture(attribute = "Attr_6")] f6: u8,
}
unsafe impl bytemuck::Zeroable for T186 {}
unsafe impl bytemuck::AnyBitPattern for T186 {}
unsafe impl bytemuck::NoUninit for T186 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T187 {
    #[pasture(attribute = "Attr_0")] f0: u32,
    #[pasture(BUILTIN_SCAN_ANGLE)] f1: u16,
    #[pasture(attribute = "Ä2")] f2: u16,
    #[pasture(BUILTIN_CLASSIFICATION)] f3: u16,
    #[pasture(BUILTIN_RETURN_NUMBER)] f4: i16,
    #[pasture(BUILTIN_GPS_TIME)] f5: u8,
    #[pasture(attribute = "Ä6")] f6: u8,
    #[pasture(attribute = "Own 7")] f7: Vector3<u8>,
    #[pasture(BUILTIN_POINT_SOURCE_ID)] f8: u8,
    #[pasture(attribute = "Ä9")] f9: i8,
    #[pasture(BUILTIN_SCANNER_CHANNEL)] f10: u8,
}
unsafe impl bytemuck::Zeroable for T187 {}
unsafe impl bytemuck::AnyBitPattern for T187 {}
unsafe impl bytemuck::NoUninit for T187 {}
#[derive(Copy, Clone, PointType)]
#[repr(C, packed)]
pub struct T188 {
    #[pasture(attribute = "x0")] f0: f32,
    #[pasture(BUILTIN_RETURN_POINT_WAVEFORM_LOCATION)] f1: i16,
}
unsafe impl bytemuck::Zeroable for T188 {}
unsafe impl bytemuck::AnyBitPattern for T188 {}
unsafe impl bytemuck::NoUninit for T188 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T189 {
    #[pasture(BUILTIN_COLOR_RGB)] f0: Vector3<f64>,
    #[pasture(BUILTIN_CLASSIFICATION)] f1: f32,
    #[pasture(attribute = "x2")] f2: i8,
    #[pasture(attribute = "Attr_3")] f3: u8,
    #[pasture(BUILTIN_NIR)] f4: i8,
    #[pasture(BUILTIN_NORMAL)] f5: u8,
}
unsafe impl bytemuck::Zeroable for T189 {}
unsafe impl bytemuck::AnyBitPattern for T189 {}
unsafe impl bytemuck::NoUninit for T189 {}
#[derive(Copy, Clone, PointType)]
#[repr(packed(2), C)]
pub struct T190 {
    #[pasture(BUILTIN_SCAN_ANGLE_RANK)] f0: Vector3<u16>,
    #[pasture(BUILTIN_WAVEFORM_DATA_OFFSET)] f1: f64,
    #[pasture(attribute = "Ä2")] f2: u64,
    #[pasture(attribute = "x3")] f3: i16,
    #[pasture(attribute = "Attr_4")] f4: u16,
    #[pasture(attribute = "Ä5")] f5: Vector3<u16>,
    #[pasture(attribute = "Own 6")] f6: u64,
    #[pasture(attribute = "Attr_7")] f7: Vector3<f32>,
}
unsafe impl bytemuck::Zeroable for T190 {}
unsafe impl bytemuck::AnyBitPattern for T190 {}
unsafe impl bytemuck::NoUninit for T190 {}
#[derive(Copy, Clone, PointType)]
#[repr(C, packed(2))]
pub struct T191 {
    #[pasture(attribute = "Attr_0")] f0: i32,
    #[pasture(attribute = "Ä1")] f1: u8,
    #[pasture(BUILTIN_POINT_ID)] f2: u8,
}
unsafe impl bytemuck::Zeroable for T191 {}
unsafe impl bytemuck::AnyBitPattern for T191 {}
unsafe impl bytemuck::NoUninit for T191 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T192 {
    #[pasture(BUILTIN_POSITION_3D)] f0: Vector4<u8>,
    #[pasture(BUILTIN_EDGE_OF_FLIGHT_LINE)] f1: Vector3<u8>,
    #[pasture(BUILTIN_NIR)] f2: u16,
    #[pasture(BUILTIN_SCAN_ANGLE)] f3: u8,
    #[pasture(attribute = "x4")] f4: i16,
    #[pasture(attribute = "Own 5")] f5: Vector3<i32>,
    #[pasture(attribute = "x6")] f6: f64,
    #[pasture(attribute = "x7")] f7: i32,
    #[pasture(BUILTIN_RETURN_NUMBER)] f8: i8,
    #[pasture(BUILTIN_WAVE_PACKET_DESCRIPTOR_INDEX)] f9: i64,
    #[pasture(attribute = "x10")] f10: i64,
    #[pasture(attribute = "Attr_11")] f11: i32,
}
unsafe impl bytemuck::Zeroable for T192 {}
unsafe impl bytemuck::AnyBitPattern for T192 {}
unsafe impl bytemuck::NoUninit for T192 {}
#[derive(Copy, Clone, PointType)]
#[repr(packed(4), C)]
pub struct T193 {
    #[pasture(BUILTIN_POSITION_3D)] f0: f64,
    #[pasture(BUILTIN_WAVEFORM_DATA_OFFSET)] f1: Vector3<f64>,
    #[pasture(BUILTIN_WAVEFORM_PARAMETERS)] f2: i64,
    #[pasture(attribute = "Ä3")] f3: Vector3<i32>,
    #[pasture(attribute = "x4")] f4: Vector3<i32>,
    #[pasture(BUILTIN_USER_DATA)] f5: u16,
    #[pasture(BUILTIN_POINT_SOURCE_ID)] f6: u8,
    #[pasture(attribute = "x7")] f7: i8,
}
unsafe impl bytemuck::Zeroable for T193 {}
unsafe impl bytemuck::AnyBitPattern for T193 {}
unsafe impl bytemuck::NoUninit for T193 {}
#[derive(Copy, Clone, PointType)]
#[repr(C, packed(8))]
pub struct T194 {
    #[pasture(BUILTIN_SCAN_ANGLE)] f0: Vector3<i32>,
    #[pasture(attribute = "x1")] f1: i16,
    #[pasture(attribute = "Ä2")] f2: f64,
    #[pasture(attribute = "Own 3")] f3: Vector3<f64>,
    #[pasture(BUILTIN_SCAN_DIRECTION_FLAG)] f4: Vector3<u16>,
}
unsafe impl bytemuck::Zeroable for T194 {}
unsafe impl bytemuck::AnyBitPattern for T194 {}
unsafe impl bytemuck::NoUninit for T194 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
pub struct T195 {
    #[pasture(BUILTIN_CLASSIFICATION_FLAGS)] f0: u16,
    #[pasture(attribute = "Attr_1")] f1: u8,
    #[pasture(attribute = "Own 2")] f2: u8,
}
unsafe impl bytemuck::Zeroable for T195 {}
unsafe impl bytemuck::AnyBitPattern for T195 {}
unsafe impl bytemuck::NoUninit for T195 {}
#[derive(Copy, Clone, PointType)]
#[repr(C)]
#[repr(packed(2))]
pub struct T196 {
    #[pasture(BUILTIN_USER_DATA)] f0: i64,
    #[pasture(attribute = "Attr_1")] f1: u16,
    #[pasture(BUILTIN_WAVEFORM_PACKET_SIZE)] f2: u16,
    #[pasture(BUILTIN_POINT_SOURCE_ID)] f3: Vector4<u8>,
    #[pasture(attribute = "x4")] f4: Vector3<u8>,
    #[pasture(BUILTIN_INTENSITY)] f5: u8,
}
unsafe impl bytemuck::Zeroable for T196 {}
unsafe impl bytemuck::AnyBitPattern for T196 {}
unsafe impl bytemuck::NoUninit for T196 {}
#[derive(Copy, Clone, PointType)]
#[repr(packed(2))]
pub struct T197 {
    #[pasture(attribute = "Own 0")] f0: Vector3<i32>,
}
unsafe impl bytemuck::Zeroable for T197 {}
unsafe impl bytemuck::AnyBitPattern for T197 {}
unsafe impl bytemuck::NoUninit for T197 {}
pub static TYPES: &[Desc] = &[
    Desc { name: "T0 repr(C)", size: std::mem::size_of::<T0>(), align: std::mem::align_of::<T0>(), fields: &[("Position3D", D::U8, std::mem::offset_of!(T0, f0)), ("PointID", D::U8, std::mem::offset_of!(T0, f1))], layout: <T0 as PointType>::layout, typed: Some(whole::<T0>) },
    Desc { name: "T1 repr(C, packed)", size: std::mem::size_of::<T1>(), align: std::mem::align_of::<T1>(), fields: &[("Intensity", D::U8, std::mem::offset_of!(T1, f0)), ("ScanAngleRank", D::I8, std::mem::offset_of!(T1, f1))], layout: <T1 as PointType>::layout, typed: None },
    Desc { name: "T2 repr(C, packed(1))", size: std::mem::size_of::<T2>(), align: std::mem::align_of::<T2>(), fields: &[("ReturnNumber", D::U16, std::mem::offset_of!(T2, f0)), ("Intensity", D::U8, std::mem::offset_of!(T2, f1))], layout: <T2 as PointType>::layout, typed: Some(whole::<T2>) },
    Desc { name: "T3 repr(C)", size: std::mem::size_of::<T3>(), align: std::mem::align_of::<T3>(), fields: &[("NumberOfReturns", D::I16, std::mem::offset_of!(T3, f0)), ("Attr_1", D::U8, std::mem::offset_of!(T3, f1)), ("x2", D::I8, std::mem::offset_of!(T3, f2))], layout: <T3 as PointType>::layout, typed: None },
    Desc { name: "T4 repr(C, packed(2))", size: std::mem::size_of::<T4>(), align: std::mem::align_of::<T4>(), fields: &[("ClassificationFlags", D::U32, std::mem::offset_of!(T4, f0)), ("Ä1", D::U8, std::mem::offset_of!(T4, f1)), ("EdgeOfFlightLine", D::I8, std::mem::offset_of!(T4, f2))], layout: <T4 as PointType>::layout, typed: Some(whole::<T4>) },
    Desc { name: "T5 repr(C, packed(4))", size: std::mem::size_of::<T5>(), align: std::mem::align_of::<T5>(), fields: &[("ScannerChannel", D::U8, std::mem::offset_of!(T5, f0)), ("GpsTime", D::I32, std::mem::offset_of!(T5, f1))], layout: <T5 as PointType>::layout, typed: None },
    Desc { name: "T6 repr(C)", size: std::mem::size_of::<T6>(), align: std::mem::align_of::<T6>(), fields: &[("ScanDirectionFlag", D::U64, std::mem::offset_of!(T6, f0)), ("Ä1", D::U8, std::mem::offset_of!(T6, f1)), ("WavePacketDescriptorIndex", D::I8, std::mem::offset_of!(T6, f2)), ("EdgeOfFlightLine", D::I8, std::mem::offset_of!(T6, f3)), ("Ä4", D::I8, std::mem::offset_of!(T6, f4)), ("ReturnPointWaveformLocation", D::I8, std::mem::offset_of!(T6, f5)), ("Ä6", D::I8, std::mem::offset_of!(T6, f6)), ("NIR", D::I8, std::mem::offset_of!(T6, f7)), ("ScanAngleRank", D::I8, std::mem::offset_of!(T6, f8))], layout: <T6 as PointType>::layout, typed: Some(whole::<T6>) },
    Desc { name: "T7 repr(C, packed(8))", size: std::mem::size_of::<T7>(), align: std::mem::align_of::<T7>(), fields: &[("EdgeOfFlightLine", D::U8, std::mem::offset_of!(T7, f0)), ("ReturnNumber", D::I64, std::mem::offset_of!(T7, f1))], layout: <T7 as PointType>::layout, typed: None },
    Desc { name: "T8 repr(C, packed(16))", size: std::mem::size_of::<T8>(), align: std::mem::align_of::<T8>(), fields: &[("Classification", D::F32, std::mem::offset_of!(T8, f0)), ("Attr_1", D::U8, std::mem::offset_of!(T8, f1))], layout: <T8 as PointType>::layout, typed: None },
    Desc { name: "T9 repr(C)", size: std::mem::size_of::<T9>(), align: std::mem::align_of::<T9>(), fields: &[("ScanAngleRank", D::U8, std::mem::offset_of!(T9, f0)), ("Attr_1", D::F64, std::mem::offset_of!(T9, f1))], layout: <T9 as PointType>::layout, typed: None },
    Desc { name: "T10 repr(packed(2))", size: std::mem::size_of::<T10>(), align: std::mem::align_of::<T10>(), fields: &[("ScanAngle", D::Vec3u8, std::mem::offset_of!(T10, f0)), ("Own 1", D::U8, std::mem::offset_of!(T10, f1))], layout: <T10 as PointType>::layout, typed: None },
    Desc { name: "T11 repr(packed(4))", size: std::mem::size_of::<T11>(), align: std::mem::align_of::<T11>(), fields: &[("UserData", D::Vec3u16, std::mem::offset_of!(T11, f0)), ("x1", D::U8, std::mem::offset_of!(T11, f1)), ("GpsTime", D::I8, std::mem::offset_of!(T11, f2))], layout: <T11 as PointType>::layout, typed: None },
    Desc { name: "T12 repr(C)", size: std::mem::size_of::<T12>(), align: std::mem::align_of::<T12>(), fields: &[("PointSourceID", D::Vec3i32, std::mem::offset_of!(T12, f0)), ("NIR", D::U8, std::mem::offset_of!(T12, f1)), ("Own 2", D::U8, std::mem::offset_of!(T12, f2)), ("GpsTime", D::I8, std::mem::offset_of!(T12, f3)), ("WaveformPacketSize", D::I8, std::mem::offset_of!(T12, f4))], layout: <T12 as PointType>::layout, typed: Some(whole::<T12>) },
    Desc { name: "T13 repr(C, align(16))", size: std::mem::size_of::<T13>(), align: std::mem::align_of::<T13>(), fields: &[("ColorRGB", D::Vec3f32, std::mem::offset_of!(T13, f0)), ("x1", D::U8, std::mem::offset_of!(T13, f1)), ("Own 2", D::I8, std::mem::offset_of!(T13, f2)), ("PointSourceID", D::I8, std::mem::offset_of!(T13, f3)), ("Attr_4", D::I8, std::mem::offset_of!(T13, f4))], layout: <T13 as PointType>::layout, typed: None },
    Desc { name: "T14 repr(align(4), C)", size: std::mem::size_of::<T14>(), align: std::mem::align_of::<T14>(), fields: &[("GpsTime", D::Vec3f64, std::mem::offset_of!(T14, f0)), ("ScanAngle", D::U8, std::mem::offset_of!(T14, f1))], layout: <T14 as PointType>::layout, typed: None },
    Desc { name: "T15 repr(C)", size: std::mem::size_of::<T15>(), align: std::mem::align_of::<T15>(), fields: &[("NIR", D::U8, std::mem::offset_of!(T15, f0)), ("Attr_1", D::Vec4u8, std::mem::offset_of!(T15, f1))], layout: <T15 as PointType>::layout, typed: None },
    Desc { name: "T16 repr(C and align(32))", size: std::mem::size_of::<T16>(), align: std::mem::align_of::<T16>(), fields: &[("WavePacketDescriptorIndex", D::U32, std::mem::offset_of!(T16, f0)), ("x1", D::Vec3f64, std::mem::offset_of!(T16, f1)), ("ScannerChannel", D::Vec3f64, std::mem::offset_of!(T16, f2))], layout: <T16 as PointType>::layout, typed: None },
    Desc { name: "T17 repr(C)", size: std::mem::size_of::<T17>(), align: std::mem::align_of::<T17>(), fields: &[("WaveformDataOffset", D::Vec3f32, std::mem::offset_of!(T17, f0)), ("ScannerChannel", D::Vec3i32, std::mem::offset_of!(T17, f1)), ("x2", D::U64, std::mem::offset_of!(T17, f2)), ("WaveformPacketSize", D::I16, std::mem::offset_of!(T17, f3)), ("UserData", D::Vec3u8, std::mem::offset_of!(T17, f4)), ("WavePacketDescriptorIndex", D::Vec3u16, std::mem::offset_of!(T17, f5)), ("x6", D::Vec3f64, std::mem::offset_of!(T17, f6)), ("PointSourceID", D::Vec3u16, std::mem::offset_of!(T17, f7)), ("Attr_8", D::F32, std::mem::offset_of!(T17, f8)), ("WaveformParameters", D::I64, std::mem::offset_of!(T17, f9)), ("ReturnPointWaveformLocation", D::Vec3u16, std::mem::offset_of!(T17, f10)), ("Ä11", D::Vec3u8, std::mem::offset_of!(T17, f11))], layout: <T17 as PointType>::layout, typed: None },
    Desc { name: "T18 repr(C)", size: std::mem::size_of::<T18>(), align: std::mem::align_of::<T18>(), fields: &[("WaveformPacketSize", D::Vec3f64, std::mem::offset_of!(T18, f0))], layout: <T18 as PointType>::layout, typed: Some(whole::<T18>) },
    Desc { name: "T19 repr(C, packed(1))", size: std::mem::size_of::<T19>(), align: std::mem::align_of::<T19>(), fields: &[("ReturnPointWaveformLocation", D::I32, std::mem::offset_of!(T19, f0)), ("x1", D::I64, std::mem::offset_of!(T19, f1)), ("WaveformDataOffset", D::Vec3u16, std::mem::offset_of!(T19, f2)), ("Own 3", D::Vec4u8, std::mem::offset_of!(T19, f3)), ("x4", D::U32, std::mem::offset_of!(T19, f4)), ("Own 5", D::U8, std::mem::offset_of!(T19, f5)), ("Attr_6", D::Vec3u16, std::mem::offset_of!(T19, f6)), ("NIR", D::I32, std::mem::offset_of!(T19, f7)), ("Attr_8", D::I8, std::mem::offset_of!(T19, f8)), ("Ä9", D::F32, std::mem::offset_of!(T19, f9)), ("Normal", D::U32, std::mem::offset_of!(T19, f10)), ("UserData", D::F64, std::mem::offset_of!(T19, f11))], layout: <T19 as PointType>::layout, typed: None },
    Desc { name: "T20 repr(packed(2), C)", size: std::mem::size_of::<T20>(), align: std::mem::align_of::<T20>(), fields: &[("WaveformParameters", D::Vec3f64, std::mem::offset_of!(T20, f0)), ("Own 1", D::I16, std::mem::offset_of!(T20, f1)), ("ScanDirectionFlag", D::U16, std::mem::offset_of!(T20, f2)), ("PointID", D::I16, std::mem::offset_of!(T20, f3)), ("ColorRGB", D::U32, std::mem::offset_of!(T20, f4)), ("Own 5", D::I16, std::mem::offset_of!(T20, f5))], layout: <T20 as PointType>::layout, typed: Some(whole::<T20>) },
    Desc { name: "T21 repr(C)", size: std::mem::size_of::<T21>(), align: std::mem::align_of::<T21>(), fields: &[("PointID", D::U64, std::mem::offset_of!(T21, f0)), ("Ä1", D::Vec3i32, std::mem::offset_of!(T21, f1)), ("WaveformPacketSize", D::I32, std::mem::offset_of!(T21, f2)), ("Own 3", D::Vec3u16, std::mem::offset_of!(T21, f3)), ("PointSourceID", D::U16, std::mem::offset_of!(T21, f4))], layout: <T21 as PointType>::layout, typed: Some(whole::<T21>) },
    Desc { name: "T22 repr(C, packed(4))", size: std::mem::size_of::<T22>(), align: std::mem::align_of::<T22>(), fields: &[("Normal", D::F32, std::mem::offset_of!(T22, f0)), ("ColorRGB", D::Vec3f64, std::mem::offset_of!(T22, f1)), ("ScanAngle", D::F64, std::mem::offset_of!(T22, f2)), ("x3", D::Vec3f64, std::mem::offset_of!(T22, f3)), ("UserData", D::Vec3i32, std::mem::offset_of!(T22, f4))], layout: <T22 as PointType>::layout, typed: Some(whole::<T22>) },
    Desc { name: "T23 repr(packed(4), C)", size: std::mem::size_of::<T23>(), align: std::mem::align_of::<T23>(), fields: &[("Normal", D::Vec3f32, std::mem::offset_of!(T23, f0)), ("Attr_1", D::I32, std::mem::offset_of!(T23, f1))], layout: <T23 as PointType>::layout, typed: None },
    Desc { name: "T24 repr(C)", size: std::mem::size_of::<T24>(), align: std::mem::align_of::<T24>(), fields: &[("Attr_0", D::U64, std::mem::offset_of!(T24, f0)), ("ClassificationFlags", D::I64, std::mem::offset_of!(T24, f1)), ("PointSourceID", D::Vec3f32, std::mem::offset_of!(T24, f2)), ("PointID", D::F32, std::mem::offset_of!(T24, f3)), ("x4", D::Vec3u8, std::mem::offset_of!(T24, f4)), ("Classification", D::I8, std::mem::offset_of!(T24, f5)), ("ScanAngle", D::U8, std::mem::offset_of!(T24, f6)), ("Ä7", D::I8, std::mem::offset_of!(T24, f7)), ("x8", D::U8, std::mem::offset_of!(T24, f8)), ("Ä9", D::I8, std::mem::offset_of!(T24, f9))], layout: <T24 as PointType>::layout, typed: Some(whole::<T24>) },
    Desc { name: "T25 repr(C, packed(16))", size: std::mem::size_of::<T25>(), align: std::mem::align_of::<T25>(), fields: &[("Attr_0", D::Vec3f64, std::mem::offset_of!(T25, f0)), ("UserData", D::Vec3u16, std::mem::offset_of!(T25, f1)), ("EdgeOfFlightLine", D::Vec3u16, std::mem::offset_of!(T25, f2)), ("x3", D::U8, std::mem::offset_of!(T25, f3)), ("GpsTime", D::U8, std::mem::offset_of!(T25, f4)), ("ColorRGB", D::U8, std::mem::offset_of!(T25, f5)), ("Attr_6", D::U8, std::mem::offset_of!(T25, f6))], layout: <T25 as PointType>::layout, typed: None },
    Desc { name: "T26 repr(C and packed(2))", size: std::mem::size_of::<T26>(), align: std::mem::align_of::<T26>(), fields: &[("Ä0", D::U32, std::mem::offset_of!(T26, f0)), ("PointSourceID", D::Vec3i32, std::mem::offset_of!(T26, f1)), ("Position3D", D::I16, std::mem::offset_of!(T26, f2)), ("ReturnPointWaveformLocation", D::I16, std::mem::offset_of!(T26, f3)), ("Own 4", D::Vec3u8, std::mem::offset_of!(T26, f4)), ("Own 5", D::I8, std::mem::offset_of!(T26, f5))], layout: <T26 as PointType>::layout, typed: Some(whole::<T26>) },
    Desc { name: "T27 repr(C)", size: std::mem::size_of::<T27>(), align: std::mem::align_of::<T27>(), fields: &[("WaveformPacketSize", D::F64, std::mem::offset_of!(T27, f0)), ("Position3D", D::Vec3i32, std::mem::offset_of!(T27, f1)), ("Intensity", D::Vec3f32, std::mem::offset_of!(T27, f2)), ("Own 3", D::U16, std::mem::offset_of!(T27, f3)), ("x4", D::U8, std::mem::offset_of!(T27, f4)), ("ScanDirectionFlag", D::Vec3u8, std::mem::offset_of!(T27, f5)), ("Attr_6", D::I8, std::mem::offset_of!(T27, f6)), ("Own 7", D::U8, std::mem::offset_of!(T27, f7))], layout: <T27 as PointType>::layout, typed: None },
    Desc { name: "T28 repr(packed(4))", size: std::mem::size_of::<T28>(), align: std::mem::align_of::<T28>(), fields: &[("x0", D::U8, std::mem::offset_of!(T28, f0)), ("NIR", D::I8, std::mem::offset_of!(T28, f1))], layout: <T28 as PointType>::layout, typed: None },
    Desc { name: "T29 repr(packed)", size: std::mem::size_of::<T29>(), align: std::mem::align_of::<T29>(), fields: &[("ScanAngleRank", D::F32, std::mem::offset_of!(T29, f0)), ("Attr_1", D::Vec3i32, std::mem::offset_of!(T29, f1)), ("ColorRGB", D::Vec3f32, std::mem::offset_of!(T29, f2)), ("Ä3", D::U32, std::mem::offset_of!(T29, f3)), ("UserData", D::F32, std::mem::offset_of!(T29, f4)), ("Intensity", D::U16, std::mem::offset_of!(T29, f5)), ("Attr_6", D::I16, std::mem::offset_of!(T29, f6)), ("ScanAngle", D::I16, std::mem::offset_of!(T29, f7)), ("x8", D::U8, std::mem::offset_of!(T29, f8)), ("WaveformPacketSize", D::I8, std::mem::offset_of!(T29, f9)), ("Attr_10", D::Vec3u8, std::mem::offset_of!(T29, f10)), ("ReturnPointWaveformLocation", D::Vec4u8, std::mem::offset_of!(T29, f11)), ("x12", D::U8, std::mem::offset_of!(T29, f12))], layout: <T29 as PointType>::layout, typed: None },
    Desc { name: "T30 repr(C)", size: std::mem::size_of::<T30>(), align: std::mem::align_of::<T30>(), fields: &[("ReturnPointWaveformLocation", D::U32, std::mem::offset_of!(T30, f0)), ("WaveformDataOffset", D::Vec3i32, std::mem::offset_of!(T30, f1)), ("Classification", D::U8, std::mem::offset_of!(T30, f2)), ("ReturnNumber", D::I16, std::mem::offset_of!(T30, f3)), ("Own 4", D::I16, std::mem::offset_of!(T30, f4))], layout: <T30 as PointType>::layout, typed: None },
    Desc { name: "T31 repr(align(4), C)", size: std::mem::size_of::<T31>(), align: std::mem::align_of::<T31>(), fields: &[("NumberOfReturns", D::Vec3f64, std::mem::offset_of!(T31, f0)), ("Attr_1", D::Vec3f32, std::mem::offset_of!(T31, f1)), ("Attr_2", D::Vec3f32, std::mem::offset_of!(T31, f2)), ("x3", D::I16, std::mem::offset_of!(T31, f3)), ("Attr_4", D::Vec3u16, std::mem::offset_of!(T31, f4))], layout: <T31 as PointType>::layout, typed: None },
    Desc { name: "T32 repr(packed(8))", size: std::mem::size_of::<T32>(), align: std::mem::align_of::<T32>(), fields: &[("ColorRGB", D::Vec3u16, std::mem::offset_of!(T32, f0)), ("WavePacketDescriptorIndex", D::I32, std::mem::offset_of!(T32, f1)), ("PointID", D::Vec3u8, std::mem::offset_of!(T32, f2))], layout: <T32 as PointType>::layout, typed: None },
    Desc { name: "T33 repr(C)", size: std::mem::size_of::<T33>(), align: std::mem::align_of::<T33>(), fields: &[("ReturnNumber", D::I8, std::mem::offset_of!(T33, f0)), ("NIR", D::F32, std::mem::offset_of!(T33, f1)), ("WavePacketDescriptorIndex", D::U32, std::mem::offset_of!(T33, f2))], layout: <T33 as PointType>::layout, typed: None },
    Desc { name: "T34 repr(C)", size: std::mem::size_of::<T34>(), align: std::mem::align_of::<T34>(), fields: &[("ReturnPointWaveformLocation", D::U64, std::mem::offset_of!(T34, f0)), ("Own 1", D::Vec3f32, std::mem::offset_of!(T34, f1)), ("Ä2", D::F32, std::mem::offset_of!(T34, f2)), ("Normal", D::F32, std::mem::offset_of!(T34, f3)), ("Attr_4", D::Vec3u16, std::mem::offset_of!(T34, f4)), ("NumberOfReturns", D::Vec3u8, std::mem::offset_of!(T34, f5)), ("Attr_6", D::I8, std::mem::offset_of!(T34, f6)), ("Ä7", D::U8, std::mem::offset_of!(T34, f7)), ("ReturnNumber", D::I8, std::mem::offset_of!(T34, f8))], layout: <T34 as PointType>::layout, typed: Some(whole::<T34>) },
    Desc { name: "T35 repr(C, packed)", size: std::mem::size_of::<T35>(), align: std::mem::align_of::<T35>(), fields: &[("Own 0", D::F32, std::mem::offset_of!(T35, f0)), ("Own 1", D::I32, std::mem::offset_of!(T35, f1)), ("Own 2", D::I64, std::mem::offset_of!(T35, f2)), ("Attr_3", D::I16, std::mem::offset_of!(T35, f3)), ("Position3D", D::I32, std::mem::offset_of!(T35, f4))], layout: <T35 as PointType>::layout, typed: Some(whole::<T35>) },
    Desc { name: "T36 repr(C)", size: std::mem::size_of::<T36>(), align: std::mem::align_of::<T36>(), fields: &[("Ä0", D::Vec4u8, std::mem::offset_of!(T36, f0)), ("PointSourceID", D::I16, std::mem::offset_of!(T36, f1))], layout: <T36 as PointType>::layout, typed: Some(whole::<T36>) },
    Desc { name: "T37 repr(packed(2), C)", size: std::mem::size_of::<T37>(), align: std::mem::align_of::<T37>(), fields: &[("x0", D::F32, std::mem::offset_of!(T37, f0)), ("UserData", D::Vec3u16, std::mem::offset_of!(T37, f1))], layout: <T37 as PointType>::layout, typed: None },
    Desc { name: "T38 repr(C, packed(2))", size: std::mem::size_of::<T38>(), align: std::mem::align_of::<T38>(), fields: &[("NIR", D::I32, std::mem::offset_of!(T38, f0)), ("WaveformDataOffset", D::U64, std::mem::offset_of!(T38, f1))], layout: <T38 as PointType>::layout, typed: Some(whole::<T38>) },
    Desc { name: "T39 repr(C)", size: std::mem::size_of::<T39>(), align: std::mem::align_of::<T39>(), fields: &[("ReturnPointWaveformLocation", D::I64, std::mem::offset_of!(T39, f0)), ("Classification", D::Vec3f64, std::mem::offset_of!(T39, f1)), ("Position3D", D::Vec3f64, std::mem::offset_of!(T39, f2)), ("PointSourceID", D::U32, std::mem::offset_of!(T39, f3)), ("Ä4", D::I32, std::mem::offset_of!(T39, f4)), ("ClassificationFlags", D::Vec3f32, std::mem::offset_of!(T39, f5)), ("Own 6", D::I16, std::mem::offset_of!(T39, f6)), ("WaveformPacketSize", D::Vec3u8, std::mem::offset_of!(T39, f7)), ("EdgeOfFlightLine", D::I8, std::mem::offset_of!(T39, f8)), ("Own 9", D::U8, std::mem::offset_of!(T39, f9)), ("Attr_10", D::I8, std::mem::offset_of!(T39, f10)), ("ScanDirectionFlag", D::U8, std::mem::offset_of!(T39, f11)), ("Own 12", D::I8, std::mem::offset_of!(T39, f12)), ("Attr_13", D::U8, std::mem::offset_of!(T39, f13)), ("Own 14", D::I8, std::mem::offset_of!(T39, f14))], layout: <T39 as PointType>::layout, typed: None },
    Desc { name: "T40 repr(packed(4), C)", size: std::mem::size_of::<T40>(), align: std::mem::align_of::<T40>(), fields: &[("Position3D", D::F32, std::mem::offset_of!(T40, f0)), ("EdgeOfFlightLine", D::Vec4u8, std::mem::offset_of!(T40, f1))], layout: <T40 as PointType>::layout, typed: Some(whole::<T40>) },
    Desc { name: "T41 repr(C, packed(8))", size: std::mem::size_of::<T41>(), align: std::mem::align_of::<T41>(), fields: &[("Own 0", D::Vec3i32, std::mem::offset_of!(T41, f0)), ("ScanAngle", D::U8, std::mem::offset_of!(T41, f1)), ("ColorRGB", D::Vec4u8, std::mem::offset_of!(T41, f2)), ("Ä3", D::Vec3f32, std::mem::offset_of!(T41, f3))], layout: <T41 as PointType>::layout, typed: None },
    Desc { name: "T42 repr(C)", size: std::mem::size_of::<T42>(), align: std::mem::align_of::<T42>(), fields: &[("Position3D", D::U16, std::mem::offset_of!(T42, f0)), ("NIR", D::F32, std::mem::offset_of!(T42, f1))], layout: <T42 as PointType>::layout, typed: None },
    Desc { name: "T43 repr(C and packed(2))", size: std::mem::size_of::<T43>(), align: std::mem::align_of::<T43>(), fields: &[("ReturnNumber", D::Vec3u16, std::mem::offset_of!(T43, f0)), ("ReturnPointWaveformLocation", D::Vec3u16, std::mem::offset_of!(T43, f1)), ("Ä2", D::Vec3i32, std::mem::offset_of!(T43, f2)), ("Position3D", D::Vec3u8, std::mem::offset_of!(T43, f3)), ("GpsTime", D::Vec3u8, std::mem::offset_of!(T43, f4)), ("x5", D::U16, std::mem::offset_of!(T43, f5))], layout: <T43 as PointType>::layout, typed: None },
    Desc { name: "T44 repr(packed(2))", size: std::mem::size_of::<T44>(), align: std::mem::align_of::<T44>(), fields: &[("ScanAngleRank", D::F64, std::mem::offset_of!(T44, f0)), ("Ä1", D::U8, std::mem::offset_of!(T44, f1))], layout: <T44 as PointType>::layout, typed: None },
    Desc { name: "T45 repr(C)", size: std::mem::size_of::<T45>(), align: std::mem::align_of::<T45>(), fields: &[("WavePacketDescriptorIndex", D::F64, std::mem::offset_of!(T45, f0)), ("ColorRGB", D::U64, std::mem::offset_of!(T45, f1))], layout: <T45 as PointType>::layout, typed: None },
    Desc { name: "T46 repr(packed)", size: std::mem::size_of::<T46>(), align: std::mem::align_of::<T46>(), fields: &[("EdgeOfFlightLine", D::U32, std::mem::offset_of!(T46, f0)), ("x1", D::I8, std::mem::offset_of!(T46, f1)), ("ScannerChannel", D::I64, std::mem::offset_of!(T46, f2)), ("WaveformPacketSize", D::Vec3i32, std::mem::offset_of!(T46, f3)), ("x4", D::Vec3f32, std::mem::offset_of!(T46, f4))], layout: <T46 as PointType>::layout, typed: None },
    Desc { name: "T47 repr(C, align(16))", size: std::mem::size_of::<T47>(), align: std::mem::align_of::<T47>(), fields: &[("WavePacketDescriptorIndex", D::I16, std::mem::offset_of!(T47, f0)), ("ReturnPointWaveformLocation", D::Vec3u8, std::mem::offset_of!(T47, f1))], layout: <T47 as PointType>::layout, typed: None },
    Desc { name: "T48 repr(C)", size: std::mem::size_of::<T48>(), align: std::mem::align_of::<T48>(), fields: &[("Ä0", D::I16, std::mem::offset_of!(T48, f0)), ("ScanAngle", D::Vec3u16, std::mem::offset_of!(T48, f1))], layout: <T48 as PointType>::layout, typed: Some(whole::<T48>) },
    Desc { name: "T49 repr(packed(8))", size: std::mem::size_of::<T49>(), align: std::mem::align_of::<T49>(), fields: &[("ScanDirectionFlag", D::I64, std::mem::offset_of!(T49, f0)), ("WaveformParameters", D::U32, std::mem::offset_of!(T49, f1)), ("ScannerChannel", D::I8, std::mem::offset_of!(T49, f2)), ("Own 3", D::I8, std::mem::offset_of!(T49, f3)), ("ColorRGB", D::U8, std::mem::offset_of!(T49, f4)), ("Own 5", D::I8, std::mem::offset_of!(T49, f5))], layout: <T49 as PointType>::layout, typed: None },
    Desc { name: "T50 repr(C and align(32))", size: std::mem::size_of::<T50>(), align: std::mem::align_of::<T50>(), fields: &[("Own 0", D::Vec3i32, std::mem::offset_of!(T50, f0)), ("PointSourceID", D::I8, std::mem::offset_of!(T50, f1)), ("Ä2", D::U8, std::mem::offset_of!(T50, f2)), ("Attr_3", D::U8, std::mem::offset_of!(T50, f3)), ("ReturnNumber", D::I8, std::mem::offset_of!(T50, f4))], layout: <T50 as PointType>::layout, typed: None },
    Desc { name: "T51 repr(C)", size: std::mem::size_of::<T51>(), align: std::mem::align_of::<T51>(), fields: &[("Own 0", D::Vec3f64, std::mem::offset_of!(T51, f0))], layout: <T51 as PointType>::layout, typed: None },
    Desc { name: "T52 repr(C, packed)", size: std::mem::size_of::<T52>(), align: std::mem::align_of::<T52>(), fields: &[("Classification", D::F32, std::mem::offset_of!(T52, f0)), ("x1", D::F32, std::mem::offset_of!(T52, f1)), ("ClassificationFlags", D::I8, std::mem::offset_of!(T52, f2)), ("Ä3", D::Vec3f64, std::mem::offset_of!(T52, f3)), ("WaveformDataOffset", D::I8, std::mem::offset_of!(T52, f4)), ("Normal", D::U16, std::mem::offset_of!(T52, f5)), ("ScannerChannel", D::Vec3i32, std::mem::offset_of!(T52, f6)), ("NumberOfReturns", D::Vec3f32, std::mem::offset_of!(T52, f7))], layout: <T52 as PointType>::layout, typed: Some(whole::<T52>) },
    Desc { name: "T53 repr(C, packed(1))", size: std::mem::size_of::<T53>(), align: std::mem::align_of::<T53>(), fields: &[("ScanAngleRank", D::Vec3u16, std::mem::offset_of!(T53, f0)), ("GpsTime", D::I32, std::mem::offset_of!(T53, f1)), ("Intensity", D::Vec3f32, std::mem::offset_of!(T53, f2))], layout: <T53 as PointType>::layout, typed: None },
    Desc { name: "T54 repr(C)", size: std::mem::size_of::<T54>(), align: std::mem::align_of::<T54>(), fields: &[("Ä0", D::I8, std::mem::offset_of!(T54, f0))], layout: <T54 as PointType>::layout, typed: Some(whole::<T54>) },
    Desc { name: "T55 repr(C, packed(2))", size: std::mem::size_of::<T55>(), align: std::mem::align_of::<T55>(), fields: &[("Intensity", D::U32, std::mem::offset_of!(T55, f0)), ("Own 1", D::Vec3u16, std::mem::offset_of!(T55, f1))], layout: <T55 as PointType>::layout, typed: None },
    Desc { name: "T56 repr(C, packed(4))", size: std::mem::size_of::<T56>(), align: std::mem::align_of::<T56>(), fields: &[("Ä0", D::I8, std::mem::offset_of!(T56, f0)), ("Ä1", D::I8, std::mem::offset_of!(T56, f1)), ("Position3D", D::Vec3u16, std::mem::offset_of!(T56, f2))], layout: <T56 as PointType>::layout, typed: Some(whole::<T56>) },
    Desc { name: "T57 repr(C)", size: std::mem::size_of::<T57>(), align: std::mem::align_of::<T57>(), fields: &[("x0", D::I32, std::mem::offset_of!(T57, f0)), ("GpsTime", D::U16, std::mem::offset_of!(T57, f1)), ("Ä2", D::Vec3u16, std::mem::offset_of!(T57, f2)), ("Position3D", D::I16, std::mem::offset_of!(T57, f3)), ("NumberOfReturns", D::I8, std::mem::offset_of!(T57, f4)), ("x5", D::I8, std::mem::offset_of!(T57, f5))], layout: <T57 as PointType>::layout, typed: None },
    Desc { name: "T58 repr(C, packed(8))", size: std::mem::size_of::<T58>(), align: std::mem::align_of::<T58>(), fields: &[("Attr_0", D::U64, std::mem::offset_of!(T58, f0)), ("GpsTime", D::F64, std::mem::offset_of!(T58, f1)), ("NumberOfReturns", D::Vec3i32, std::mem::offset_of!(T58, f2)), ("Attr_3", D::Vec3f32, std::mem::offset_of!(T58, f3)), ("Ä4", D::U16, std::mem::offset_of!(T58, f4)), ("Own 5", D::I16, std::mem::offset_of!(T58, f5)), ("Position3D", D::I8, std::mem::offset_of!(T58, f6)), ("x7", D::U8, std::mem::offset_of!(T58, f7)), ("PointSourceID", D::I8, std::mem::offset_of!(T58, f8)), ("x9", D::U8, std::mem::offset_of!(T58, f9))], layout: <T58 as PointType>::layout, typed: Some(whole::<T58>) },
    Desc { name: "T59 repr(C, packed(16))", size: std::mem::size_of::<T59>(), align: std::mem::align_of::<T59>(), fields: &[("PointSourceID", D::Vec3i32, std::mem::offset_of!(T59, f0))], layout: <T59 as PointType>::layout, typed: None },
    Desc { name: "T60 repr(C)", size: std::mem::size_of::<T60>(), align: std::mem::align_of::<T60>(), fields: &[("PointSourceID", D::Vec3i32, std::mem::offset_of!(T60, f0)), ("Ä1", D::Vec3u16, std::mem::offset_of!(T60, f1)), ("WavePacketDescriptorIndex", D::Vec3u8, std::mem::offset_of!(T60, f2)), ("Own 3", D::U8, std::mem::offset_of!(T60, f3)), ("x4", D::I8, std::mem::offset_of!(T60, f4)), ("WaveformDataOffset", D::U8, std::mem::offset_of!(T60, f5))], layout: <T60 as PointType>::layout, typed: Some(whole::<T60>) },
    Desc { name: "T61 repr(packed(2))", size: std::mem::size_of::<T61>(), align: std::mem::align_of::<T61>(), fields: &[("ReturnNumber", D::Vec3u16, std::mem::offset_of!(T61, f0)), ("Own 1", D::U8, std::mem::offset_of!(T61, f1))], layout: <T61 as PointType>::layout, typed: None },
    Desc { name: "T62 repr(packed(4))", size: std::mem::size_of::<T62>(), align: std::mem::align_of::<T62>(), fields: &[("ReturnPointWaveformLocation", D::F32, std::mem::offset_of!(T62, f0)), ("NumberOfReturns", D::I16, std::mem::offset_of!(T62, f1)), ("ColorRGB", D::Vec3i32, std::mem::offset_of!(T62, f2)), ("x3", D::U8, std::mem::offset_of!(T62, f3))], layout: <T62 as PointType>::layout, typed: None },
    Desc { name: "T63 repr(C)", size: std::mem::size_of::<T63>(), align: std::mem::align_of::<T63>(), fields: &[("PointSourceID", D::Vec3f64, std::mem::offset_of!(T63, f0)), ("WaveformParameters", D::I32, std::mem::offset_of!(T63, f1)), ("Classification", D::I32, std::mem::offset_of!(T63, f2)), ("EdgeOfFlightLine", D::F32, std::mem::offset_of!(T63, f3)), ("Attr_4", D::U32, std::mem::offset_of!(T63, f4)), ("x5", D::Vec4u8, std::mem::offset_of!(T63, f5)), ("ScannerChannel", D::U8, std::mem::offset_of!(T63, f6)), ("WaveformDataOffset", D::I8, std::mem::offset_of!(T63, f7)), ("ScanDirectionFlag", D::I8, std::mem::offset_of!(T63, f8)), ("Attr_9", D::U8, std::mem::offset_of!(T63, f9))], layout: <T63 as PointType>::layout, typed: Some(whole::<T63>) },
    Desc { name: "T64 repr(C, align(16))", size: std::mem::size_of::<T64>(), align: std::mem::align_of::<T64>(), fields: &[("EdgeOfFlightLine", D::F64, std::mem::offset_of!(T64, f0)), ("Own 1", D::U32, std::mem::offset_of!(T64, f1)), ("ScanDirectionFlag", D::I32, std::mem::offset_of!(T64, f2)), ("Own 3", D::Vec3u16, std::mem::offset_of!(T64, f3)), ("WaveformPacketSize", D::U16, std::mem::offset_of!(T64, f4)), ("PointID", D::Vec4u8, std::mem::offset_of!(T64, f5)), ("x6", D::U8, std::mem::offset_of!(T64, f6)), ("WaveformDataOffset", D::U8, std::mem::offset_of!(T64, f7)), ("ClassificationFlags", D::I8, std::mem::offset_of!(T64, f8)), ("Normal", D::U8, std::mem::offset_of!(T64, f9))], layout: <T64 as PointType>::layout, typed: None },
    Desc { name: "T65 repr(align(4), C)", size: std::mem::size_of::<T65>(), align: std::mem::align_of::<T65>(), fields: &[("x0", D::I64, std::mem::offset_of!(T65, f0)), ("PointSourceID", D::I64, std::mem::offset_of!(T65, f1)), ("ReturnNumber", D::Vec3i32, std::mem::offset_of!(T65, f2)), ("Intensity", D::F32, std::mem::offset_of!(T65, f3)), ("WavePacketDescriptorIndex", D::Vec3f32, std::mem::offset_of!(T65, f4)), ("PointID", D::U16, std::mem::offset_of!(T65, f5)), ("x6", D::I8, std::mem::offset_of!(T65, f6)), ("Own 7", D::Vec4u8, std::mem::offset_of!(T65, f7)), ("ClassificationFlags", D::U8, std::mem::offset_of!(T65, f8)), ("GpsTime", D::I8, std::mem::offset_of!(T65, f9)), ("WaveformPacketSize", D::I8, std::mem::offset_of!(T65, f10)), ("Own 11", D::I8, std::mem::offset_of!(T65, f11)), ("ScanAngle", D::U8, std::mem::offset_of!(T65, f12))], layout: <T65 as PointType>::layout, typed: None },
    Desc { name: "T66 repr(C)", size: std::mem::size_of::<T66>(), align: std::mem::align_of::<T66>(), fields: &[("Own 0", D::I8, std::mem::offset_of!(T66, f0))], layout: <T66 as PointType>::layout, typed: Some(whole::<T66>) },
    Desc { name: "T67 repr(C and align(32))", size: std::mem::size_of::<T67>(), align: std::mem::align_of::<T67>(), fields: &[("Ä0", D::F64, std::mem::offset_of!(T67, f0)), ("WaveformParameters", D::U32, std::mem::offset_of!(T67, f1)), ("Own 2", D::U16, std::mem::offset_of!(T67, f2)), ("Intensity", D::I16, std::mem::offset_of!(T67, f3)), ("Ä4", D::Vec4u8, std::mem::offset_of!(T67, f4)), ("Attr_5", D::U8, std::mem::offset_of!(T67, f5)), ("x6", D::U8, std::mem::offset_of!(T67, f6)), ("PointSourceID", D::I8, std::mem::offset_of!(T67, f7)), ("x8", D::U8, std::mem::offset_of!(T67, f8))], layout: <T67 as PointType>::layout, typed: None },
    Desc { name: "T68 repr(C)", size: std::mem::size_of::<T68>(), align: std::mem::align_of::<T68>(), fields: &[("NumberOfReturns", D::I16, std::mem::offset_of!(T68, f0)), ("WaveformDataOffset", D::U8, std::mem::offset_of!(T68, f1)), ("Attr_2", D::U8, std::mem::offset_of!(T68, f2)), ("ReturnNumber", D::Vec4u8, std::mem::offset_of!(T68, f3)), ("WavePacketDescriptorIndex", D::U8, std::mem::offset_of!(T68, f4)), ("Ä5", D::Vec3f64, std::mem::offset_of!(T68, f5)), ("WaveformParameters", D::Vec4u8, std::mem::offset_of!(T68, f6)), ("EdgeOfFlightLine", D::F32, std::mem::offset_of!(T68, f7)), ("ScanAngle", D::F32, std::mem::offset_of!(T68, f8)), ("Ä9", D::I8, std::mem::offset_of!(T68, f9)), ("NIR", D::U16, std::mem::offset_of!(T68, f10)), ("Ä11", D::I8, std::mem::offset_of!(T68, f11))], layout: <T68 as PointType>::layout, typed: None },
    Desc { name: "T69 repr(C)", size: std::mem::size_of::<T69>(), align: std::mem::align_of::<T69>(), fields: &[("ClassificationFlags", D::Vec3u8, std::mem::offset_of!(T69, f0)), ("PointSourceID", D::U32, std::mem::offset_of!(T69, f1)), ("Attr_2", D::U32, std::mem::offset_of!(T69, f2)), ("Own 3", D::I64, std::mem::offset_of!(T69, f3)), ("Own 4", D::Vec3u16, std::mem::offset_of!(T69, f4)), ("x5", D::Vec3f64, std::mem::offset_of!(T69, f5)), ("WaveformDataOffset", D::I16, std::mem::offset_of!(T69, f6)), ("Attr_7", D::Vec3i32, std::mem::offset_of!(T69, f7)), ("Normal", D::U8, std::mem::offset_of!(T69, f8)), ("Classification", D::I8, std::mem::offset_of!(T69, f9)), ("NumberOfReturns", D::U16, std::mem::offset_of!(T69, f10)), ("Own 11", D::Vec3i32, std::mem::offset_of!(T69, f11))], layout: <T69 as PointType>::layout, typed: None },
    Desc { name: "T70 repr(C, packed(1))", size: std::mem::size_of::<T70>(), align: std::mem::align_of::<T70>(), fields: &[("PointSourceID", D::F32, std::mem::offset_of!(T70, f0)), ("Own 1", D::I32, std::mem::offset_of!(T70, f1)), ("Attr_2", D::I64, std::mem::offset_of!(T70, f2)), ("Intensity", D::F32, std::mem::offset_of!(T70, f3)), ("Attr_4", D::I32, std::mem::offset_of!(T70, f4))], layout: <T70 as PointType>::layout, typed: Some(whole::<T70>) },
    Desc { name: "T71 repr(packed(2), C)", size: std::mem::size_of::<T71>(), align: std::mem::align_of::<T71>(), fields: &[("NumberOfReturns", D::I64, std::mem::offset_of!(T71, f0)), ("Attr_1", D::Vec3f32, std::mem::offset_of!(T71, f1)), ("Attr_2", D::U16, std::mem::offset_of!(T71, f2)), ("Ä3", D::I8, std::mem::offset_of!(T71, f3)), ("Ä4", D::Vec4u8, std::mem::offset_of!(T71, f4)), ("Own 5", D::U8, std::mem::offset_of!(T71, f5))], layout: <T71 as PointType>::layout, typed: None },
    Desc { name: "T72 repr(C)", size: std::mem::size_of::<T72>(), align: std::mem::align_of::<T72>(), fields: &[("ScanAngle", D::Vec4u8, std::mem::offset_of!(T72, f0)), ("NumberOfReturns", D::U8, std::mem::offset_of!(T72, f1))], layout: <T72 as PointType>::layout, typed: Some(whole::<T72>) },
    Desc { name: "T73 repr(C, packed(4))", size: std::mem::size_of::<T73>(), align: std::mem::align_of::<T73>(), fields: &[("Classification", D::Vec3u16, std::mem::offset_of!(T73, f0))], layout: <T73 as PointType>::layout, typed: None },
    Desc { name: "T74 repr(packed(4), C)", size: std::mem::size_of::<T74>(), align: std::mem::align_of::<T74>(), fields: &[("Position3D", D::Vec3f64, std::mem::offset_of!(T74, f0)), ("ClassificationFlags", D::F64, std::mem::offset_of!(T74, f1)), ("ScanDirectionFlag", D::I32, std::mem::offset_of!(T74, f2)), ("WavePacketDescriptorIndex", D::Vec3u16, std::mem::offset_of!(T74, f3)), ("ReturnNumber", D::U8, std::mem::offset_of!(T74, f4)), ("Attr_5", D::Vec4u8, std::mem::offset_of!(T74, f5)), ("x6", D::U8, std::mem::offset_of!(T74, f6))], layout: <T74 as PointType>::layout, typed: Some(whole::<T74>) },
    Desc { name: "T75 repr(C)", size: std::mem::size_of::<T75>(), align: std::mem::align_of::<T75>(), fields: &[("Own 0", D::U32, std::mem::offset_of!(T75, f0)), ("Ä1", D::F32, std::mem::offset_of!(T75, f1)), ("GpsTime", D::Vec4u8, std::mem::offset_of!(T75, f2))], layout: <T75 as PointType>::layout, typed: None },
    Desc { name: "T76 repr(C, packed(16))", size: std::mem::size_of::<T76>(), align: std::mem::align_of::<T76>(), fields: &[("WaveformDataOffset", D::Vec3f32, std::mem::offset_of!(T76, f0)), ("WavePacketDescriptorIndex", D::Vec3f32, std::mem::offset_of!(T76, f1)), ("Ä2", D::F32, std::mem::offset_of!(T76, f2)), ("PointSourceID", D::I16, std::mem::offset_of!(T76, f3)), ("ScanAngle", D::U8, std::mem::offset_of!(T76, f4)), ("ReturnNumber", D::I8, std::mem::offset_of!(T76, f5))], layout: <T76 as PointType>::layout, typed: Some(whole::<T76>) },
    Desc { name: "T77 repr(C and packed(2))", size: std::mem::size_of::<T77>(), align: std::mem::align_of::<T77>(), fields: &[("PointID", D::Vec4u8, std::mem::offset_of!(T77, f0)), ("Own 1", D::Vec3u8, std::mem::offset_of!(T77, f1))], layout: <T77 as PointType>::layout, typed: Some(whole::<T77>) },
    Desc { name: "T78 repr(C)", size: std::mem::size_of::<T78>(), align: std::mem::align_of::<T78>(), fields: &[("Ä0", D::U16, std::mem::offset_of!(T78, f0))], layout: <T78 as PointType>::layout, typed: Some(whole::<T78>) },
    Desc { name: "T79 repr(packed(4))", size: std::mem::size_of::<T79>(), align: std::mem::align_of::<T79>(), fields: &[("ScanAngleRank", D::U64, std::mem::offset_of!(T79, f0)), ("Own 1", D::F32, std::mem::offset_of!(T79, f1)), ("GpsTime", D::U8, std::mem::offset_of!(T79, f2)), ("Own 3", D::U8, std::mem::offset_of!(T79, f3)), ("Ä4", D::I8, std::mem::offset_of!(T79, f4)), ("Attr_5", D::U8, std::mem::offset_of!(T79, f5))], layout: <T79 as PointType>::layout, typed: None },
    Desc { name: "T80 repr(packed)", size: std::mem::size_of::<T80>(), align: std::mem::align_of::<T80>(), fields: &[("WaveformDataOffset", D::U8, std::mem::offset_of!(T80, f0)), ("WaveformPacketSize", D::I8, std::mem::offset_of!(T80, f1)), ("Ä2", D::I64, std::mem::offset_of!(T80, f2)), ("ClassificationFlags", D::Vec3f32, std::mem::offset_of!(T80, f3))], layout: <T80 as PointType>::layout, typed: None },
    Desc { name: "T81 repr(C)", size: std::mem::size_of::<T81>(), align: std::mem::align_of::<T81>(), fields: &[("EdgeOfFlightLine", D::Vec3f64, std::mem::offset_of!(T81, f0)), ("Own 1", D::F32, std::mem::offset_of!(T81, f1)), ("Ä2", D::Vec3u16, std::mem::offset_of!(T81, f2)), ("Attr_3", D::U8, std::mem::offset_of!(T81, f3)), ("Attr_4", D::I8, std::mem::offset_of!(T81, f4)), ("WavePacketDescriptorIndex", D::U8, std::mem::offset_of!(T81, f5)), ("Ä6", D::I8, std::mem::offset_of!(T81, f6)), ("Position3D", D::I8, std::mem::offset_of!(T81, f7)), ("ReturnNumber", D::I8, std::mem::offset_of!(T81, f8))], layout: <T81 as PointType>::layout, typed: None },
    Desc { name: "T82 repr(align(4), C)", size: std::mem::size_of::<T82>(), align: std::mem::align_of::<T82>(), fields: &[("x0", D::Vec3f64, std::mem::offset_of!(T82, f0)), ("WaveformParameters", D::Vec3i32, std::mem::offset_of!(T82, f1)), ("Attr_2", D::Vec3i32, std::mem::offset_of!(T82, f2)), ("ClassificationFlags", D::U32, std::mem::offset_of!(T82, f3)), ("Classification", D::U16, std::mem::offset_of!(T82, f4)), ("UserData", D::I16, std::mem::offset_of!(T82, f5))], layout: <T82 as PointType>::layout, typed: None },
    Desc { name: "T83 repr(packed(8))", size: std::mem::size_of::<T83>(), align: std::mem::align_of::<T83>(), fields: &[("WaveformDataOffset", D::U8, std::mem::offset_of!(T83, f0))], layout: <T83 as PointType>::layout, typed: None },
    Desc { name: "T84 repr(C)", size: std::mem::size_of::<T84>(), align: std::mem::align_of::<T84>(), fields: &[("x0", D::Vec3f32, std::mem::offset_of!(T84, f0))], layout: <T84 as PointType>::layout, typed: Some(whole::<T84>) },
    Desc { name: "T85 repr(C)", size: std::mem::size_of::<T85>(), align: std::mem::align_of::<T85>(), fields: &[("Position3D", D::I64, std::mem::offset_of!(T85, f0)), ("EdgeOfFlightLine", D::Vec3f64, std::mem::offset_of!(T85, f1)), ("NumberOfReturns", D::U64, std::mem::offset_of!(T85, f2)), ("Ä3", D::Vec3f64, std::mem::offset_of!(T85, f3)), ("WaveformDataOffset", D::F64, std::mem::offset_of!(T85, f4)), ("ScanDirectionFlag", D::Vec3i32, std::mem::offset_of!(T85, f5)), ("Own 6", D::Vec3u16, std::mem::offset_of!(T85, f6)), ("ScanAngleRank", D::U16, std::mem::offset_of!(T85, f7)), ("ReturnNumber", D::Vec4u8, std::mem::offset_of!(T85, f8)), ("Classification", D::I8, std::mem::offset_of!(T85, f9)), ("Own 10", D::Vec3u8, std::mem::offset_of!(T85, f10)), ("Ä11", D::I8, std::mem::offset_of!(T85, f11)), ("Intensity", D::U8, std::mem::offset_of!(T85, f12)), ("ClassificationFlags", D::U8, std::mem::offset_of!(T85, f13)), ("x14", D::U8, std::mem::offset_of!(T85, f14))], layout: <T85 as PointType>::layout, typed: None },
    Desc { name: "T86 repr(C, packed)", size: std::mem::size_of::<T86>(), align: std::mem::align_of::<T86>(), fields: &[("GpsTime", D::Vec3f64, std::mem::offset_of!(T86, f0)), ("ReturnNumber", D::Vec3f32, std::mem::offset_of!(T86, f1)), ("Own 2", D::I8, std::mem::offset_of!(T86, f2)), ("x3", D::U16, std::mem::offset_of!(T86, f3)), ("Ä4", D::Vec4u8, std::mem::offset_of!(T86, f4))], layout: <T86 as PointType>::layout, typed: Some(whole::<T86>) },
    Desc { name: "T87 repr(C)", size: std::mem::size_of::<T87>(), align: std::mem::align_of::<T87>(), fields: &[("GpsTime", D::Vec4u8, std::mem::offset_of!(T87, f0)), ("ColorRGB", D::Vec3u8, std::mem::offset_of!(T87, f1))], layout: <T87 as PointType>::layout, typed: None },
    Desc { name: "T88 repr(packed(2), C)", size: std::mem::size_of::<T88>(), align: std::mem::align_of::<T88>(), fields: &[("NIR", D::I32, std::mem::offset_of!(T88, f0)), ("Attr_1", D::Vec3u8, std::mem::offset_of!(T88, f1)), ("ReturnNumber", D::U8, std::mem::offset_of!(T88, f2)), ("WavePacketDescriptorIndex", D::Vec3u8, std::mem::offset_of!(T88, f3)), ("Ä4", D::U8, std::mem::offset_of!(T88, f4))], layout: <T88 as PointType>::layout, typed: Some(whole::<T88>) },
    Desc { name: "T89 repr(C, packed(2))", size: std::mem::size_of::<T89>(), align: std::mem::align_of::<T89>(), fields: &[("Own 0", D::U64, std::mem::offset_of!(T89, f0)), ("EdgeOfFlightLine", D::U64, std::mem::offset_of!(T89, f1)), ("Own 2", D::U16, std::mem::offset_of!(T89, f2))], layout: <T89 as PointType>::layout, typed: None },
    Desc { name: "T90 repr(C)", size: std::mem::size_of::<T90>(), align: std::mem::align_of::<T90>(), fields: &[("WavePacketDescriptorIndex", D::U32, std::mem::offset_of!(T90, f0)), ("Ä1", D::Vec3f64, std::mem::offset_of!(T90, f1))], layout: <T90 as PointType>::layout, typed: None },
    Desc { name: "T91 repr(packed(4), C)", size: std::mem::size_of::<T91>(), align: std::mem::align_of::<T91>(), fields: &[("PointID", D::Vec3f64, std::mem::offset_of!(T91, f0)), ("WaveformDataOffset", D::F64, std::mem::offset_of!(T91, f1)), ("Position3D", D::U32, std::mem::offset_of!(T91, f2)), ("EdgeOfFlightLine", D::Vec3i32, std::mem::offset_of!(T91, f3)), ("x4", D::Vec3u8, std::mem::offset_of!(T91, f4)), ("Attr_5", D::U8, std::mem::offset_of!(T91, f5))], layout: <T91 as PointType>::layout, typed: Some(whole::<T91>) },
    Desc { name: "T92 repr(C, packed(8))", size: std::mem::size_of::<T92>(), align: std::mem::align_of::<T92>(), fields: &[("Ä0", D::I8, std::mem::offset_of!(T92, f0)), ("ScanDirectionFlag", D::F32, std::mem::offset_of!(T92, f1)), ("WavePacketDescriptorIndex", D::Vec3u8, std::mem::offset_of!(T92, f2)), ("Intensity", D::I8, std::mem::offset_of!(T92, f3))], layout: <T92 as PointType>::layout, typed: None },
    Desc { name: "T93 repr(C)", size: std::mem::size_of::<T93>(), align: std::mem::align_of::<T93>(), fields: &[("Attr_0", D::Vec4u8, std::mem::offset_of!(T93, f0)), ("ScanDirectionFlag", D::Vec3u8, std::mem::offset_of!(T93, f1)), ("Normal", D::U16, std::mem::offset_of!(T93, f2)), ("Attr_3", D::Vec3i32, std::mem::offset_of!(T93, f3)), ("Own 4", D::Vec3u8, std::mem::offset_of!(T93, f4)), ("ClassificationFlags", D::Vec4u8, std::mem::offset_of!(T93, f5)), ("Classification", D::Vec4u8, std::mem::offset_of!(T93, f6)), ("Ä7", D::Vec3u8, std::mem::offset_of!(T93, f7)), ("NumberOfReturns", D::Vec3u8, std::mem::offset_of!(T93, f8)), ("ColorRGB", D::I8, std::mem::offset_of!(T93, f9)), ("x10", D::I8, std::mem::offset_of!(T93, f10)), ("UserData", D::I16, std::mem::offset_of!(T93, f11))], layout: <T93 as PointType>::layout, typed: None },
    Desc { name: "T94 repr(C and packed(2))", size: std::mem::size_of::<T94>(), align: std::mem::align_of::<T94>(), fields: &[("Ä0", D::Vec3i32, std::mem::offset_of!(T94, f0)), ("Own 1", D::Vec3f32, std::mem::offset_of!(T94, f1)), ("Ä2", D::I32, std::mem::offset_of!(T94, f2))], layout: <T94 as PointType>::layout, typed: Some(whole::<T94>) },
    Desc { name: "T95 repr(packed(2))", size: std::mem::size_of::<T95>(), align: std::mem::align_of::<T95>(), fields: &[("GpsTime", D::U64, std::mem::offset_of!(T95, f0)), ("UserData", D::I32, std::mem::offset_of!(T95, f1)), ("ScanAngle", D::U16, std::mem::offset_of!(T95, f2)), ("Own 3", D::U8, std::mem::offset_of!(T95, f3)), ("Attr_4", D::I8, std::mem::offset_of!(T95, f4))], layout: <T95 as PointType>::layout, typed: None },
    Desc { name: "T96 repr(C)", size: std::mem::size_of::<T96>(), align: std::mem::align_of::<T96>(), fields: &[("Ä0", D::I16, std::mem::offset_of!(T96, f0)), ("NumberOfReturns", D::Vec4u8, std::mem::offset_of!(T96, f1))], layout: <T96 as PointType>::layout, typed: Some(whole::<T96>) },
    Desc { name: "T97 repr(packed)", size: std::mem::size_of::<T97>(), align: std::mem::align_of::<T97>(), fields: &[("Ä0", D::F32, std::mem::offset_of!(T97, f0))], layout: <T97 as PointType>::layout, typed: None },
    Desc { name: "T98 repr(C, align(16))", size: std::mem::size_of::<T98>(), align: std::mem::align_of::<T98>(), fields: &[("Attr_0", D::I64, std::mem::offset_of!(T98, f0)), ("ScanAngle", D::Vec3f64, std::mem::offset_of!(T98, f1)), ("ClassificationFlags", D::I32, std::mem::offset_of!(T98, f2)), ("Own 3", D::I32, std::mem::offset_of!(T98, f3)), ("Normal", D::F32, std::mem::offset_of!(T98, f4)), ("ReturnPointWaveformLocation", D::U16, std::mem::offset_of!(T98, f5)), ("Own 6", D::Vec3u16, std::mem::offset_of!(T98, f6)), ("Own 7", D::U8, std::mem::offset_of!(T98, f7)), ("x8", D::I8, std::mem::offset_of!(T98, f8)), ("GpsTime", D::I8, std::mem::offset_of!(T98, f9)), ("Position3D", D::U8, std::mem::offset_of!(T98, f10))], layout: <T98 as PointType>::layout, typed: None },
    Desc { name: "T99 repr(C)", size: std::mem::size_of::<T99>(), align: std::mem::align_of::<T99>(), fields: &[("ClassificationFlags", D::U32, std::mem::offset_of!(T99, f0))], layout: <T99 as PointType>::layout, typed: None },
    Desc { name: "T100 repr(packed(8))", size: std::mem::size_of::<T100>(), align: std::mem::align_of::<T100>(), fields: &[("WaveformPacketSize", D::Vec4u8, std::mem::offset_of!(T100, f0))], layout: <T100 as PointType>::layout, typed: None },
    Desc { name: "T101 repr(C and align(32))", size: std::mem::size_of::<T101>(), align: std::mem::align_of::<T101>(), fields: &[("x0", D::U32, std::mem::offset_of!(T101, f0)), ("Normal", D::I16, std::mem::offset_of!(T101, f1)), ("Position3D", D::U8, std::mem::offset_of!(T101, f2)), ("Own 3", D::U8, std::mem::offset_of!(T101, f3))], layout: <T101 as PointType>::layout, typed: None },
    Desc { name: "T102 repr(C)", size: std::mem::size_of::<T102>(), align: std::mem::align_of::<T102>(), fields: &[("Intensity", D::F64, std::mem::offset_of!(T102, f0)), ("ClassificationFlags", D::F64, std::mem::offset_of!(T102, f1))], layout: <T102 as PointType>::layout, typed: Some(whole::<T102>) },
    Desc { name: "T103 repr(C, packed)", size: std::mem::size_of::<T103>(), align: std::mem::align_of::<T103>(), fields: &[("WaveformDataOffset", D::I16, std::mem::offset_of!(T103, f0)), ("Ä1", D::U8, std::mem::offset_of!(T103, f1)), ("Ä2", D::U16, std::mem::offset_of!(T103, f2))], layout: <T103 as PointType>::layout, typed: None },
    Desc { name: "T104 repr(C, packed(1))", size: std::mem::size_of::<T104>(), align: std::mem::align_of::<T104>(), fields: &[("Ä0", D::I16, std::mem::offset_of!(T104, f0)), ("ScanAngle", D::U8, std::mem::offset_of!(T104, f1)), ("x2", D::U64, std::mem::offset_of!(T104, f2))], layout: <T104 as PointType>::layout, typed: Some(whole::<T104>) },
    Desc { name: "T105 repr(C)", size: std::mem::size_of::<T105>(), align: std::mem::align_of::<T105>(), fields: &[("EdgeOfFlightLine", D::Vec3i32, std::mem::offset_of!(T105, f0)), ("ScanAngle", D::U16, std::mem::offset_of!(T105, f1)), ("Own 2", D::U8, std::mem::offset_of!(T105, f2)), ("Normal", D::U8, std::mem::offset_of!(T105, f3))], layout: <T105 as PointType>::layout, typed: Some(whole::<T105>) },
    Desc { name: "T106 repr(C, packed(2))", size: std::mem::size_of::<T106>(), align: std::mem::align_of::<T106>(), fields: &[("PointID", D::U64, std::mem::offset_of!(T106, f0)), ("Normal", D::I8, std::mem::offset_of!(T106, f1)), ("NIR", D::U8, std::mem::offset_of!(T106, f2))], layout: <T106 as PointType>::layout, typed: Some(whole::<T106>) },
    Desc { name: "T107 repr(C, packed(4))", size: std::mem::size_of::<T107>(), align: std::mem::align_of::<T107>(), fields: &[("GpsTime", D::I64, std::mem::offset_of!(T107, f0)), ("PointID", D::U64, std::mem::offset_of!(T107, f1)), ("PointSourceID", D::Vec3f64, std::mem::offset_of!(T107, f2)), ("Attr_3", D::Vec3f64, std::mem::offset_of!(T107, f3)), ("x4", D::I32, std::mem::offset_of!(T107, f4)), ("WaveformPacketSize", D::I32, std::mem::offset_of!(T107, f5)), ("Intensity", D::U32, std::mem::offset_of!(T107, f6)), ("Ä7", D::U16, std::mem::offset_of!(T107, f7)), ("ReturnPointWaveformLocation", D::U16, std::mem::offset_of!(T107, f8)), ("ScannerChannel", D::Vec3u8, std::mem::offset_of!(T107, f9)), ("Attr_10", D::U8, std::mem::offset_of!(T107, f10)), ("Attr_11", D::Vec4u8, std::mem::offset_of!(T107, f11))], layout: <T107 as PointType>::layout, typed: None },
    Desc { name: "T108 repr(C)", size: std::mem::size_of::<T108>(), align: std::mem::align_of::<T108>(), fields: &[("x0", D::I32, std::mem::offset_of!(T108, f0))], layout: <T108 as PointType>::layout, typed: Some(whole::<T108>) },
    Desc { name: "T109 repr(C, packed(8))", size: std::mem::size_of::<T109>(), align: std::mem::align_of::<T109>(), fields: &[("ScanAngle", D::Vec3u16, std::mem::offset_of!(T109, f0)), ("x1", D::I16, std::mem::offset_of!(T109, f1)), ("ScannerChannel", D::U16, std::mem::offset_of!(T109, f2)), ("Attr_3", D::Vec3i32, std::mem::offset_of!(T109, f3)), ("ScanAngleRank", D::Vec3f32, std::mem::offset_of!(T109, f4))], layout: <T109 as PointType>::layout, typed: None },
    Desc { name: "T110 repr(C, packed(16))", size: std::mem::size_of::<T110>(), align: std::mem::align_of::<T110>(), fields: &[("WaveformPacketSize", D::F32, std::mem::offset_of!(T110, f0))], layout: <T110 as PointType>::layout, typed: Some(whole::<T110>) },
    Desc { name: "T111 repr(C)", size: std::mem::size_of::<T111>(), align: std::mem::align_of::<T111>(), fields: &[("WaveformPacketSize", D::Vec3f32, std::mem::offset_of!(T111, f0)), ("Attr_1", D::I8, std::mem::offset_of!(T111, f1)), ("Ä2", D::I32, std::mem::offset_of!(T111, f2)), ("Own 3", D::U64, std::mem::offset_of!(T111, f3)), ("Own 4", D::Vec3i32, std::mem::offset_of!(T111, f4)), ("Normal", D::Vec3f32, std::mem::offset_of!(T111, f5)), ("Own 6", D::I32, std::mem::offset_of!(T111, f6)), ("GpsTime", D::Vec4u8, std::mem::offset_of!(T111, f7)), ("Ä8", D::I16, std::mem::offset_of!(T111, f8)), ("Ä9", D::U64, std::mem::offset_of!(T111, f9)), ("x10", D::I32, std::mem::offset_of!(T111, f10)), ("Ä11", D::U64, std::mem::offset_of!(T111, f11))], layout: <T111 as PointType>::layout, typed: None },
    Desc { name: "T112 repr(packed(2))", size: std::mem::size_of::<T112>(), align: std::mem::align_of::<T112>(), fields: &[("Ä0", D::Vec3f32, std::mem::offset_of!(T112, f0)), ("Own 1", D::I32, std::mem::offset_of!(T112, f1))], layout: <T112 as PointType>::layout, typed: None },
    Desc { name: "T113 repr(packed(4))", size: std::mem::size_of::<T113>(), align: std::mem::align_of::<T113>(), fields: &[("Normal", D::Vec3f64, std::mem::offset_of!(T113, f0)), ("Attr_1", D::Vec3u8, std::mem::offset_of!(T113, f1)), ("ScanAngle", D::I32, std::mem::offset_of!(T113, f2))], layout: <T113 as PointType>::layout, typed: None },
    Desc { name: "T114 repr(C)", size: std::mem::size_of::<T114>(), align: std::mem::align_of::<T114>(), fields: &[("ScanDirectionFlag", D::Vec3f64, std::mem::offset_of!(T114, f0)), ("Ä1", D::Vec3f32, std::mem::offset_of!(T114, f1)), ("ClassificationFlags", D::U32, std::mem::offset_of!(T114, f2)), ("x3", D::F32, std::mem::offset_of!(T114, f3)), ("Classification", D::Vec3u16, std::mem::offset_of!(T114, f4)), ("Attr_5", D::Vec4u8, std::mem::offset_of!(T114, f5)), ("Ä6", D::U8, std::mem::offset_of!(T114, f6)), ("Own 7", D::I8, std::mem::offset_of!(T114, f7))], layout: <T114 as PointType>::layout, typed: Some(whole::<T114>) },
    Desc { name: "T115 repr(C, align(16))", size: std::mem::size_of::<T115>(), align: std::mem::align_of::<T115>(), fields: &[("WaveformDataOffset", D::Vec3f64, std::mem::offset_of!(T115, f0)), ("Ä1", D::U16, std::mem::offset_of!(T115, f1)), ("x2", D::I16, std::mem::offset_of!(T115, f2)), ("Attr_3", D::I32, std::mem::offset_of!(T115, f3))], layout: <T115 as PointType>::layout, typed: None },
    Desc { name: "T116 repr(align(4), C)", size: std::mem::size_of::<T116>(), align: std::mem::align_of::<T116>(), fields: &[("EdgeOfFlightLine", D::I64, std::mem::offset_of!(T116, f0)), ("UserData", D::I64, std::mem::offset_of!(T116, f1)), ("Classification", D::F32, std::mem::offset_of!(T116, f2)), ("GpsTime", D::Vec3i32, std::mem::offset_of!(T116, f3)), ("Attr_4", D::U16, std::mem::offset_of!(T116, f4)), ("Own 5", D::U16, std::mem::offset_of!(T116, f5)), ("Position3D", D::Vec3u8, std::mem::offset_of!(T116, f6)), ("ScanAngle", D::Vec4u8, std::mem::offset_of!(T116, f7)), ("ColorRGB", D::I8, std::mem::offset_of!(T116, f8)), ("NIR", D::I8, std::mem::offset_of!(T116, f9)), ("x10", D::I8, std::mem::offset_of!(T116, f10)), ("ReturnNumber", D::I8, std::mem::offset_of!(T116, f11)), ("ScanAngleRank", D::U8, std::mem::offset_of!(T116, f12))], layout: <T116 as PointType>::layout, typed: None },
    Desc { name: "T117 repr(C)", size: std::mem::size_of::<T117>(), align: std::mem::align_of::<T117>(), fields: &[("Attr_0", D::Vec3f64, std::mem::offset_of!(T117, f0)), ("ScannerChannel", D::U8, std::mem::offset_of!(T117, f1))], layout: <T117 as PointType>::layout, typed: None },
    Desc { name: "T118 repr(C and align(32))", size: std::mem::size_of::<T118>(), align: std::mem::align_of::<T118>(), fields: &[("Intensity", D::Vec3i32, std::mem::offset_of!(T118, f0)), ("ReturnPointWaveformLocation", D::Vec3u16, std::mem::offset_of!(T118, f1)), ("Attr_2", D::Vec3f32, std::mem::offset_of!(T118, f2)), ("Own 3", D::U64, std::mem::offset_of!(T118, f3)), ("ScannerChannel", D::I32, std::mem::offset_of!(T118, f4)), ("Ä5", D::I64, std::mem::offset_of!(T118, f5)), ("WaveformParameters", D::Vec3i32, std::mem::offset_of!(T118, f6)), ("Normal", D::U16, std::mem::offset_of!(T118, f7)), ("Ä8", D::F32, std::mem::offset_of!(T118, f8)), ("GpsTime", D::I32, std::mem::offset_of!(T118, f9)), ("Own 10", D::U8, std::mem::offset_of!(T118, f10)), ("Own 11", D::U16, std::mem::offset_of!(T118, f11))], layout: <T118 as PointType>::layout, typed: None },
    Desc { name: "T119 repr(C)", size: std::mem::size_of::<T119>(), align: std::mem::align_of::<T119>(), fields: &[("Attr_0", D::I64, std::mem::offset_of!(T119, f0))], layout: <T119 as PointType>::layout, typed: Some(whole::<T119>) },
    Desc { name: "T120 repr(C)", size: std::mem::size_of::<T120>(), align: std::mem::align_of::<T120>(), fields: &[("WaveformPacketSize", D::I64, std::mem::offset_of!(T120, f0)), ("Attr_1", D::Vec3u16, std::mem::offset_of!(T120, f1)), ("x2", D::I8, std::mem::offset_of!(T120, f2)), ("Position3D", D::I8, std::mem::offset_of!(T120, f3))], layout: <T120 as PointType>::layout, typed: Some(whole::<T120>) },
    Desc { name: "T121 repr(C, packed(1))", size: std::mem::size_of::<T121>(), align: std::mem::align_of::<T121>(), fields: &[("Attr_0", D::I16, std::mem::offset_of!(T121, f0)), ("ClassificationFlags", D::F64, std::mem::offset_of!(T121, f1)), ("EdgeOfFlightLine", D::I64, std::mem::offset_of!(T121, f2)), ("ScannerChannel", D::U16, std::mem::offset_of!(T121, f3)), ("Ä4", D::Vec3f64, std::mem::offset_of!(T121, f4))], layout: <T121 as PointType>::layout, typed: None },
    Desc { name: "T122 repr(packed(2), C)", size: std::mem::size_of::<T122>(), align: std::mem::align_of::<T122>(), fields: &[("WaveformParameters", D::Vec3u16, std::mem::offset_of!(T122, f0)), ("Ä1", D::Vec4u8, std::mem::offset_of!(T122, f1)), ("ScanAngle", D::F64, std::mem::offset_of!(T122, f2)), ("Attr_3", D::Vec3f64, std::mem::offset_of!(T122, f3)), ("Attr_4", D::F64, std::mem::offset_of!(T122, f4))], layout: <T122 as PointType>::layout, typed: Some(whole::<T122>) },
    Desc { name: "T123 repr(C)", size: std::mem::size_of::<T123>(), align: std::mem::align_of::<T123>(), fields: &[("PointID", D::I8, std::mem::offset_of!(T123, f0))], layout: <T123 as PointType>::layout, typed: None },
    Desc { name: "T124 repr(C, packed(4))", size: std::mem::size_of::<T124>(), align: std::mem::align_of::<T124>(), fields: &[("NIR", D::Vec3u16, std::mem::offset_of!(T124, f0)), ("x1", D::Vec3u8, std::mem::offset_of!(T124, f1)), ("Ä2", D::I32, std::mem::offset_of!(T124, f2)), ("Normal", D::U32, std::mem::offset_of!(T124, f3)), ("Classification", D::I16, std::mem::offset_of!(T124, f4)), ("x5", D::I16, std::mem::offset_of!(T124, f5))], layout: <T124 as PointType>::layout, typed: None },
    Desc { name: "T125 repr(packed(4), C)", size: std::mem::size_of::<T125>(), align: std::mem::align_of::<T125>(), fields: &[("ScanAngle", D::Vec3i32, std::mem::offset_of!(T125, f0)), ("Attr_1", D::F64, std::mem::offset_of!(T125, f1)), ("ClassificationFlags", D::F32, std::mem::offset_of!(T125, f2))], layout: <T125 as PointType>::layout, typed: None },
    Desc { name: "T126 repr(C)", size: std::mem::size_of::<T126>(), align: std::mem::align_of::<T126>(), fields: &[("NumberOfReturns", D::I64, std::mem::offset_of!(T126, f0)), ("Attr_1", D::U64, std::mem::offset_of!(T126, f1)), ("Own 2", D::Vec3f64, std::mem::offset_of!(T126, f2)), ("ScanAngleRank", D::U16, std::mem::offset_of!(T126, f3)), ("Ä4", D::U8, std::mem::offset_of!(T126, f4)), ("Intensity", D::U8, std::mem::offset_of!(T126, f5)), ("ColorRGB", D::I8, std::mem::offset_of!(T126, f6)), ("WaveformPacketSize", D::U8, std::mem::offset_of!(T126, f7)), ("WaveformDataOffset", D::U8, std::mem::offset_of!(T126, f8)), ("WaveformParameters", D::I8, std::mem::offset_of!(T126, f9))], layout: <T126 as PointType>::layout, typed: Some(whole::<T126>) },
    Desc { name: "T127 repr(C, packed(16))", size: std::mem::size_of::<T127>(), align: std::mem::align_of::<T127>(), fields: &[("x0", D::F64, std::mem::offset_of!(T127, f0)), ("NumberOfReturns", D::I64, std::mem::offset_of!(T127, f1)), ("GpsTime", D::Vec3f64, std::mem::offset_of!(T127, f2)), ("WaveformDataOffset", D::I8, std::mem::offset_of!(T127, f3)), ("x4", D::U8, std::mem::offset_of!(T127, f4)), ("Attr_5", D::U8, std::mem::offset_of!(T127, f5)), ("Own 6", D::U8, std::mem::offset_of!(T127, f6)), ("x7", D::U8, std::mem::offset_of!(T127, f7)), ("ColorRGB", D::U8, std::mem::offset_of!(T127, f8)), ("x9", D::I8, std::mem::offset_of!(T127, f9)), ("Own 10", D::I8, std::mem::offset_of!(T127, f10))], layout: <T127 as PointType>::layout, typed: None },
    Desc { name: "T128 repr(C and packed(2))", size: std::mem::size_of::<T128>(), align: std::mem::align_of::<T128>(), fields: &[("NumberOfReturns", D::Vec3i32, std::mem::offset_of!(T128, f0)), ("Own 1", D::Vec3u8, std::mem::offset_of!(T128, f1)), ("Attr_2", D::U8, std::mem::offset_of!(T128, f2)), ("x3", D::F32, std::mem::offset_of!(T128, f3)), ("Ä4", D::Vec3f32, std::mem::offset_of!(T128, f4))], layout: <T128 as PointType>::layout, typed: Some(whole::<T128>) },
    Desc { name: "T129 repr(C)", size: std::mem::size_of::<T129>(), align: std::mem::align_of::<T129>(), fields: &[("Attr_0", D::Vec3u16, std::mem::offset_of!(T129, f0)), ("x1", D::Vec3f32, std::mem::offset_of!(T129, f1)), ("x2", D::I16, std::mem::offset_of!(T129, f2)), ("WaveformParameters", D::Vec3f32, std::mem::offset_of!(T129, f3)), ("Attr_4", D::I32, std::mem::offset_of!(T129, f4)), ("GpsTime", D::I32, std::mem::offset_of!(T129, f5)), ("Own 6", D::I8, std::mem::offset_of!(T129, f6)), ("Normal", D::Vec3f32, std::mem::offset_of!(T129, f7))], layout: <T129 as PointType>::layout, typed: None },
    Desc { name: "T130 repr(packed(4))", size: std::mem::size_of::<T130>(), align: std::mem::align_of::<T130>(), fields: &[("ClassificationFlags", D::I64, std::mem::offset_of!(T130, f0)), ("Ä1", D::Vec4u8, std::mem::offset_of!(T130, f1)), ("Ä2", D::Vec4u8, std::mem::offset_of!(T130, f2))], layout: <T130 as PointType>::layout, typed: None },
    Desc { name: "T131 repr(packed)", size: std::mem::size_of::<T131>(), align: std::mem::align_of::<T131>(), fields: &[("ScanDirectionFlag", D::F64, std::mem::offset_of!(T131, f0)), ("Ä1", D::Vec3f32, std::mem::offset_of!(T131, f1)), ("Normal", D::Vec3u8, std::mem::offset_of!(T131, f2)), ("GpsTime", D::I64, std::mem::offset_of!(T131, f3)), ("WaveformParameters", D::U16, std::mem::offset_of!(T131, f4)), ("PointID", D::U16, std::mem::offset_of!(T131, f5))], layout: <T131 as PointType>::layout, typed: None },
    Desc { name: "T132 repr(C)", size: std::mem::size_of::<T132>(), align: std::mem::align_of::<T132>(), fields: &[("ScanDirectionFlag", D::U32, std::mem::offset_of!(T132, f0)), ("ScanAngle", D::Vec3u8, std::mem::offset_of!(T132, f1)), ("Ä2", D::Vec3u8, std::mem::offset_of!(T132, f2))], layout: <T132 as PointType>::layout, typed: None },
    Desc { name: "T133 repr(align(4), C)", size: std::mem::size_of::<T133>(), align: std::mem::align_of::<T133>(), fields: &[("x0", D::U16, std::mem::offset_of!(T133, f0)), ("GpsTime", D::I64, std::mem::offset_of!(T133, f1)), ("Attr_2", D::U64, std::mem::offset_of!(T133, f2)), ("Ä3", D::Vec4u8, std::mem::offset_of!(T133, f3)), ("Attr_4", D::Vec3u16, std::mem::offset_of!(T133, f4)), ("NIR", D::Vec3f64, std::mem::offset_of!(T133, f5)), ("ReturnNumber", D::Vec3i32, std::mem::offset_of!(T133, f6)), ("ClassificationFlags", D::Vec3i32, std::mem::offset_of!(T133, f7))], layout: <T133 as PointType>::layout, typed: None },
    Desc { name: "T134 repr(packed(8))", size: std::mem::size_of::<T134>(), align: std::mem::align_of::<T134>(), fields: &[("ColorRGB", D::Vec3u8, std::mem::offset_of!(T134, f0)), ("NumberOfReturns", D::U64, std::mem::offset_of!(T134, f1))], layout: <T134 as PointType>::layout, typed: None },
    Desc { name: "T135 repr(C)", size: std::mem::size_of::<T135>(), align: std::mem::align_of::<T135>(), fields: &[("ScanDirectionFlag", D::F64, std::mem::offset_of!(T135, f0)), ("x1", D::I8, std::mem::offset_of!(T135, f1)), ("Ä2", D::U64, std::mem::offset_of!(T135, f2)), ("Classification", D::I32, std::mem::offset_of!(T135, f3)), ("PointID", D::Vec3f64, std::mem::offset_of!(T135, f4)), ("Attr_5", D::Vec3u16, std::mem::offset_of!(T135, f5)), ("ReturnNumber", D::I64, std::mem::offset_of!(T135, f6)), ("Intensity", D::Vec3u8, std::mem::offset_of!(T135, f7)), ("Attr_8", D::F32, std::mem::offset_of!(T135, f8)), ("Ä9", D::F64, std::mem::offset_of!(T135, f9)), ("WaveformDataOffset", D::I8, std::mem::offset_of!(T135, f10)), ("ScanAngle", D::Vec3i32, std::mem::offset_of!(T135, f11))], layout: <T135 as PointType>::layout, typed: None },
    Desc { name: "T136 repr(C)", size: std::mem::size_of::<T136>(), align: std::mem::align_of::<T136>(), fields: &[("Normal", D::U64, std::mem::offset_of!(T136, f0)), ("WavePacketDescriptorIndex", D::F64, std::mem::offset_of!(T136, f1)), ("Classification", D::F64, std::mem::offset_of!(T136, f2)), ("Own 3", D::I32, std::mem::offset_of!(T136, f3)), ("WaveformDataOffset", D::Vec3i32, std::mem::offset_of!(T136, f4)), ("Intensity", D::I32, std::mem::offset_of!(T136, f5)), ("ScanAngle", D::U32, std::mem::offset_of!(T136, f6)), ("Attr_7", D::Vec3u16, std::mem::offset_of!(T136, f7)), ("Own 8", D::I16, std::mem::offset_of!(T136, f8)), ("ReturnNumber", D::U16, std::mem::offset_of!(T136, f9)), ("Attr_10", D::I8, std::mem::offset_of!(T136, f10)), ("Attr_11", D::Vec4u8, std::mem::offset_of!(T136, f11)), ("ClassificationFlags", D::U8, std::mem::offset_of!(T136, f12))], layout: <T136 as PointType>::layout, typed: Some(whole::<T136>) },
    Desc { name: "T137 repr(C, packed)", size: std::mem::size_of::<T137>(), align: std::mem::align_of::<T137>(), fields: &[("EdgeOfFlightLine", D::U64, std::mem::offset_of!(T137, f0)), ("ReturnPointWaveformLocation", D::I16, std::mem::offset_of!(T137, f1)), ("Classification", D::Vec4u8, std::mem::offset_of!(T137, f2)), ("Attr_3", D::U64, std::mem::offset_of!(T137, f3)), ("ScanAngle", D::I64, std::mem::offset_of!(T137, f4)), ("NIR", D::I8, std::mem::offset_of!(T137, f5)), ("Attr_6", D::U8, std::mem::offset_of!(T137, f6)), ("Ä7", D::U32, std::mem::offset_of!(T137, f7))], layout: <T137 as PointType>::layout, typed: None },
    Desc { name: "T138 repr(C)", size: std::mem::size_of::<T138>(), align: std::mem::align_of::<T138>(), fields: &[("GpsTime", D::I64, std::mem::offset_of!(T138, f0)), ("Ä1", D::Vec3i32, std::mem::offset_of!(T138, f1)), ("x2", D::Vec3i32, std::mem::offset_of!(T138, f2)), ("Ä3", D::U16, std::mem::offset_of!(T138, f3)), ("Intensity", D::Vec3u8, std::mem::offset_of!(T138, f4)), ("Position3D", D::U8, std::mem::offset_of!(T138, f5)), ("Ä6", D::U8, std::mem::offset_of!(T138, f6)), ("x7", D::U8, std::mem::offset_of!(T138, f7))], layout: <T138 as PointType>::layout, typed: Some(whole::<T138>) },
    Desc { name: "T139 repr(packed(2), C)", size: std::mem::size_of::<T139>(), align: std::mem::align_of::<T139>(), fields: &[("Own 0", D::Vec3u16, std::mem::offset_of!(T139, f0)), ("Intensity", D::Vec4u8, std::mem::offset_of!(T139, f1)), ("x2", D::I8, std::mem::offset_of!(T139, f2)), ("Ä3", D::I8, std::mem::offset_of!(T139, f3))], layout: <T139 as PointType>::layout, typed: None },
    Desc { name: "T140 repr(C, packed(2))", size: std::mem::size_of::<T140>(), align: std::mem::align_of::<T140>(), fields: &[("Ä0", D::Vec3f64, std::mem::offset_of!(T140, f0))], layout: <T140 as PointType>::layout, typed: Some(whole::<T140>) },
    Desc { name: "T141 repr(C)", size: std::mem::size_of::<T141>(), align: std::mem::align_of::<T141>(), fields: &[("Intensity", D::F64, std::mem::offset_of!(T141, f0)), ("Own 1", D::Vec3f32, std::mem::offset_of!(T141, f1)), ("x2", D::I32, std::mem::offset_of!(T141, f2)), ("WaveformPacketSize", D::I64, std::mem::offset_of!(T141, f3)), ("WavePacketDescriptorIndex", D::U16, std::mem::offset_of!(T141, f4)), ("Attr_5", D::I8, std::mem::offset_of!(T141, f5)), ("x6", D::Vec3i32, std::mem::offset_of!(T141, f6)), ("Attr_7", D::Vec3f64, std::mem::offset_of!(T141, f7))], layout: <T141 as PointType>::layout, typed: None },
    Desc { name: "T142 repr(packed(4), C)", size: std::mem::size_of::<T142>(), align: std::mem::align_of::<T142>(), fields: &[("Ä0", D::Vec3f64, std::mem::offset_of!(T142, f0)), ("ReturnPointWaveformLocation", D::U32, std::mem::offset_of!(T142, f1)), ("Own 2", D::Vec3u8, std::mem::offset_of!(T142, f2)), ("Position3D", D::U64, std::mem::offset_of!(T142, f3)), ("Attr_4", D::I16, std::mem::offset_of!(T142, f4)), ("Attr_5", D::I64, std::mem::offset_of!(T142, f5)), ("Classification", D::Vec3f64, std::mem::offset_of!(T142, f6)), ("x7", D::I64, std::mem::offset_of!(T142, f7)), ("Own 8", D::I32, std::mem::offset_of!(T142, f8)), ("EdgeOfFlightLine", D::I32, std::mem::offset_of!(T142, f9)), ("ReturnNumber", D::U32, std::mem::offset_of!(T142, f10)), ("PointSourceID", D::F64, std::mem::offset_of!(T142, f11))], layout: <T142 as PointType>::layout, typed: None },
    Desc { name: "T143 repr(C, packed(8))", size: std::mem::size_of::<T143>(), align: std::mem::align_of::<T143>(), fields: &[("Classification", D::I64, std::mem::offset_of!(T143, f0)), ("Ä1", D::Vec3f32, std::mem::offset_of!(T143, f1)), ("WaveformParameters", D::Vec3f32, std::mem::offset_of!(T143, f2)), ("Attr_3", D::Vec4u8, std::mem::offset_of!(T143, f3)), ("NIR", D::F32, std::mem::offset_of!(T143, f4))], layout: <T143 as PointType>::layout, typed: None },
    Desc { name: "T144 repr(C)", size: std::mem::size_of::<T144>(), align: std::mem::align_of::<T144>(), fields: &[("GpsTime", D::U64, std::mem::offset_of!(T144, f0)), ("ScannerChannel", D::F32, std::mem::offset_of!(T144, f1)), ("x2", D::I8, std::mem::offset_of!(T144, f2)), ("NIR", D::I8, std::mem::offset_of!(T144, f3)), ("x4", D::U8, std::mem::offset_of!(T144, f4)), ("Own 5", D::I8, std::mem::offset_of!(T144, f5))], layout: <T144 as PointType>::layout, typed: Some(whole::<T144>) },
    Desc { name: "T145 repr(C and packed(2))", size: std::mem::size_of::<T145>(), align: std::mem::align_of::<T145>(), fields: &[("ScanAngleRank", D::F32, std::mem::offset_of!(T145, f0)), ("x1", D::I32, std::mem::offset_of!(T145, f1)), ("WaveformDataOffset", D::Vec3i32, std::mem::offset_of!(T145, f2)), ("Position3D", D::F32, std::mem::offset_of!(T145, f3)), ("x4", D::Vec3u16, std::mem::offset_of!(T145, f4)), ("x5", D::Vec3u8, std::mem::offset_of!(T145, f5)), ("WavePacketDescriptorIndex", D::U8, std::mem::offset_of!(T145, f6))], layout: <T145 as PointType>::layout, typed: None },
    Desc { name: "T146 repr(packed(2))", size: std::mem::size_of::<T146>(), align: std::mem::align_of::<T146>(), fields: &[("PointSourceID", D::Vec4u8, std::mem::offset_of!(T146, f0)), ("NIR", D::Vec3f64, std::mem::offset_of!(T146, f1)), ("x2", D::F64, std::mem::offset_of!(T146, f2)), ("ScanAngle", D::U32, std::mem::offset_of!(T146, f3)), ("ReturnPointWaveformLocation", D::I8, std::mem::offset_of!(T146, f4)), ("ScanAngleRank", D::Vec3i32, std::mem::offset_of!(T146, f5)), ("Ä6", D::Vec3i32, std::mem::offset_of!(T146, f6)), ("Attr_7", D::Vec3f64, std::mem::offset_of!(T146, f7)), ("ClassificationFlags", D::Vec3f32, std::mem::offset_of!(T146, f8)), ("Attr_9", D::Vec3f32, std::mem::offset_of!(T146, f9)), ("ScanDirectionFlag", D::F32, std::mem::offset_of!(T146, f10)), ("x11", D::Vec3f32, std::mem::offset_of!(T146, f11))], layout: <T146 as PointType>::layout, typed: None },
    Desc { name: "T147 repr(C)", size: std::mem::size_of::<T147>(), align: std::mem::align_of::<T147>(), fields: &[("x0", D::Vec3f64, std::mem::offset_of!(T147, f0)), ("ScanDirectionFlag", D::U64, std::mem::offset_of!(T147, f1)), ("Position3D", D::Vec3f64, std::mem::offset_of!(T147, f2)), ("ScanAngleRank", D::I32, std::mem::offset_of!(T147, f3)), ("Own 4", D::F32, std::mem::offset_of!(T147, f4)), ("x5", D::F32, std::mem::offset_of!(T147, f5)), ("WaveformParameters", D::I32, std::mem::offset_of!(T147, f6)), ("Own 7", D::U32, std::mem::offset_of!(T147, f7)), ("Own 8", D::Vec3u16, std::mem::offset_of!(T147, f8)), ("GpsTime", D::I16, std::mem::offset_of!(T147, f9)), ("Own 10", D::U8, std::mem::offset_of!(T147, f10)), ("x11", D::U8, std::mem::offset_of!(T147, f11)), ("EdgeOfFlightLine", D::I8, std::mem::offset_of!(T147, f12)), ("PointID", D::I8, std::mem::offset_of!(T147, f13))], layout: <T147 as PointType>::layout, typed: Some(whole::<T147>) },
    Desc { name: "T148 repr(packed)", size: std::mem::size_of::<T148>(), align: std::mem::align_of::<T148>(), fields: &[("Attr_0", D::U16, std::mem::offset_of!(T148, f0)), ("Attr_1", D::F32, std::mem::offset_of!(T148, f1))], layout: <T148 as PointType>::layout, typed: None },
    Desc { name: "T149 repr(C, align(16))", size: std::mem::size_of::<T149>(), align: std::mem::align_of::<T149>(), fields: &[("GpsTime", D::Vec3f32, std::mem::offset_of!(T149, f0)), ("ScanDirectionFlag", D::Vec3u8, std::mem::offset_of!(T149, f1)), ("Ä2", D::I16, std::mem::offset_of!(T149, f2))], layout: <T149 as PointType>::layout, typed: None },
    Desc { name: "T150 repr(C)", size: std::mem::size_of::<T150>(), align: std::mem::align_of::<T150>(), fields: &[("ReturnNumber", D::I32, std::mem::offset_of!(T150, f0)), ("x1", D::I32, std::mem::offset_of!(T150, f1)), ("ScanAngle", D::U32, std::mem::offset_of!(T150, f2)), ("Own 3", D::U16, std::mem::offset_of!(T150, f3)), ("Attr_4", D::U8, std::mem::offset_of!(T150, f4)), ("x5", D::U8, std::mem::offset_of!(T150, f5))], layout: <T150 as PointType>::layout, typed: Some(whole::<T150>) },
    Desc { name: "T151 repr(packed(8))", size: std::mem::size_of::<T151>(), align: std::mem::align_of::<T151>(), fields: &[("PointSourceID", D::U8, std::mem::offset_of!(T151, f0)), ("NIR", D::Vec3f64, std::mem::offset_of!(T151, f1)), ("Own 2", D::I16, std::mem::offset_of!(T151, f2))], layout: <T151 as PointType>::layout, typed: None },
    Desc { name: "T152 repr(C and align(32))", size: std::mem::size_of::<T152>(), align: std::mem::align_of::<T152>(), fields: &[("x0", D::Vec3f64, std::mem::offset_of!(T152, f0)), ("x1", D::F64, std::mem::offset_of!(T152, f1)), ("ScanDirectionFlag", D::U64, std::mem::offset_of!(T152, f2)), ("Normal", D::F64, std::mem::offset_of!(T152, f3)), ("x4", D::Vec3i32, std::mem::offset_of!(T152, f4)), ("ScanAngle", D::Vec3f32, std::mem::offset_of!(T152, f5))], layout: <T152 as PointType>::layout, typed: None },
    Desc { name: "T153 repr(C)", size: std::mem::size_of::<T153>(), align: std::mem::align_of::<T153>(), fields: &[("WaveformPacketSize", D::U32, std::mem::offset_of!(T153, f0)), ("Own 1", D::I16, std::mem::offset_of!(T153, f1)), ("ScanAngleRank", D::U8, std::mem::offset_of!(T153, f2)), ("Attr_3", D::Vec4u8, std::mem::offset_of!(T153, f3)), ("x4", D::U8, std::mem::offset_of!(T153, f4))], layout: <T153 as PointType>::layout, typed: None },
    Desc { name: "T154 repr(C, packed)", size: std::mem::size_of::<T154>(), align: std::mem::align_of::<T154>(), fields: &[("Normal", D::I32, std::mem::offset_of!(T154, f0)), ("ScanAngle", D::Vec3i32, std::mem::offset_of!(T154, f1))], layout: <T154 as PointType>::layout, typed: Some(whole::<T154>) },
    Desc { name: "T155 repr(C, packed(1))", size: std::mem::size_of::<T155>(), align: std::mem::align_of::<T155>(), fields: &[("ReturnPointWaveformLocation", D::Vec3f64, std::mem::offset_of!(T155, f0)), ("x1", D::U16, std::mem::offset_of!(T155, f1)), ("NIR", D::Vec3u16, std::mem::offset_of!(T155, f2)), ("ScanAngle", D::I32, std::mem::offset_of!(T155, f3)), ("Own 4", D::Vec3i32, std::mem::offset_of!(T155, f4)), ("ReturnNumber", D::U8, std::mem::offset_of!(T155, f5))], layout: <T155 as PointType>::layout, typed: None },
    Desc { name: "T156 repr(C)", size: std::mem::size_of::<T156>(), align: std::mem::align_of::<T156>(), fields: &[("x0", D::Vec3f32, std::mem::offset_of!(T156, f0)), ("x1", D::U32, std::mem::offset_of!(T156, f1)), ("Own 2", D::U64, std::mem::offset_of!(T156, f2))], layout: <T156 as PointType>::layout, typed: Some(whole::<T156>) },
    Desc { name: "T157 repr(C, packed(2))", size: std::mem::size_of::<T157>(), align: std::mem::align_of::<T157>(), fields: &[("Position3D", D::F64, std::mem::offset_of!(T157, f0)), ("WavePacketDescriptorIndex", D::U32, std::mem::offset_of!(T157, f1)), ("NumberOfReturns", D::Vec3f64, std::mem::offset_of!(T157, f2)), ("x3", D::U16, std::mem::offset_of!(T157, f3)), ("ColorRGB", D::U8, std::mem::offset_of!(T157, f4)), ("PointSourceID", D::Vec4u8, std::mem::offset_of!(T157, f5))], layout: <T157 as PointType>::layout, typed: None },
    Desc { name: "T158 repr(C, packed(4))", size: std::mem::size_of::<T158>(), align: std::mem::align_of::<T158>(), fields: &[("WaveformParameters", D::I64, std::mem::offset_of!(T158, f0)), ("UserData", D::I64, std::mem::offset_of!(T158, f1))], layout: <T158 as PointType>::layout, typed: Some(whole::<T158>) },
    Desc { name: "T159 repr(C)", size: std::mem::size_of::<T159>(), align: std::mem::align_of::<T159>(), fields: &[("Own 0", D::Vec3f64, std::mem::offset_of!(T159, f0)), ("WaveformDataOffset", D::Vec3f64, std::mem::offset_of!(T159, f1)), ("Attr_2", D::Vec3i32, std::mem::offset_of!(T159, f2)), ("GpsTime", D::U32, std::mem::offset_of!(T159, f3)), ("WaveformPacketSize", D::I8, std::mem::offset_of!(T159, f4)), ("Own 5", D::U8, std::mem::offset_of!(T159, f5)), ("WavePacketDescriptorIndex", D::U8, std::mem::offset_of!(T159, f6)), ("Own 7", D::U8, std::mem::offset_of!(T159, f7)), ("Position3D", D::I8, std::mem::offset_of!(T159, f8)), ("ColorRGB", D::I8, std::mem::offset_of!(T159, f9)), ("Attr_10", D::U8, std::mem::offset_of!(T159, f10)), ("ReturnPointWaveformLocation", D::U8, std::mem::offset_of!(T159, f11))], layout: <T159 as PointType>::layout, typed: None },
    Desc { name: "T160 repr(C, packed(8))", size: std::mem::size_of::<T160>(), align: std::mem::align_of::<T160>(), fields: &[("NIR", D::Vec4u8, std::mem::offset_of!(T160, f0)), ("x1", D::U8, std::mem::offset_of!(T160, f1))], layout: <T160 as PointType>::layout, typed: Some(whole::<T160>) },
    Desc { name: "T161 repr(C, packed(16))", size: std::mem::size_of::<T161>(), align: std::mem::align_of::<T161>(), fields: &[("x0", D::Vec3i32, std::mem::offset_of!(T161, f0)), ("GpsTime", D::F64, std::mem::offset_of!(T161, f1)), ("UserData", D::Vec3i32, std::mem::offset_of!(T161, f2)), ("x3", D::I32, std::mem::offset_of!(T161, f3))], layout: <T161 as PointType>::layout, typed: None },
    Desc { name: "T162 repr(C)", size: std::mem::size_of::<T162>(), align: std::mem::align_of::<T162>(), fields: &[("ScanDirectionFlag", D::I16, std::mem::offset_of!(T162, f0))], layout: <T162 as PointType>::layout, typed: Some(whole::<T162>) },
    Desc { name: "T163 repr(packed(2))", size: std::mem::size_of::<T163>(), align: std::mem::align_of::<T163>(), fields: &[("Ä0", D::I16, std::mem::offset_of!(T163, f0)), ("Own 1", D::I8, std::mem::offset_of!(T163, f1)), ("ScanDirectionFlag", D::Vec4u8, std::mem::offset_of!(T163, f2)), ("Attr_3", D::U8, std::mem::offset_of!(T163, f3))], layout: <T163 as PointType>::layout, typed: None },
    Desc { name: "T164 repr(packed(4))", size: std::mem::size_of::<T164>(), align: std::mem::align_of::<T164>(), fields: &[("ReturnPointWaveformLocation", D::F64, std::mem::offset_of!(T164, f0)), ("ReturnNumber", D::Vec3i32, std::mem::offset_of!(T164, f1)), ("ScanDirectionFlag", D::Vec3u8, std::mem::offset_of!(T164, f2)), ("Normal", D::U8, std::mem::offset_of!(T164, f3))], layout: <T164 as PointType>::layout, typed: None },
    Desc { name: "T165 repr(C)", size: std::mem::size_of::<T165>(), align: std::mem::align_of::<T165>(), fields: &[("UserData", D::U8, std::mem::offset_of!(T165, f0)), ("Ä1", D::U32, std::mem::offset_of!(T165, f1)), ("ColorRGB", D::F64, std::mem::offset_of!(T165, f2)), ("Ä3", D::Vec3u16, std::mem::offset_of!(T165, f3))], layout: <T165 as PointType>::layout, typed: None },
    Desc { name: "T166 repr(C, align(16))", size: std::mem::size_of::<T166>(), align: std::mem::align_of::<T166>(), fields: &[("ScanAngle", D::Vec4u8, std::mem::offset_of!(T166, f0))], layout: <T166 as PointType>::layout, typed: None },
    Desc { name: "T167 repr(align(4), C)", size: std::mem::size_of::<T167>(), align: std::mem::align_of::<T167>(), fields: &[("x0", D::F64, std::mem::offset_of!(T167, f0)), ("NIR", D::Vec3f32, std::mem::offset_of!(T167, f1)), ("ReturnPointWaveformLocation", D::I8, std::mem::offset_of!(T167, f2)), ("Own 3", D::I8, std::mem::offset_of!(T167, f3)), ("Attr_4", D::U8, std::mem::offset_of!(T167, f4)), ("WaveformParameters", D::I8, std::mem::offset_of!(T167, f5))], layout: <T167 as PointType>::layout, typed: None },
    Desc { name: "T168 repr(C)", size: std::mem::size_of::<T168>(), align: std::mem::align_of::<T168>(), fields: &[("NumberOfReturns", D::Vec4u8, std::mem::offset_of!(T168, f0)), ("Position3D", D::Vec3u16, std::mem::offset_of!(T168, f1)), ("UserData", D::Vec3f32, std::mem::offset_of!(T168, f2))], layout: <T168 as PointType>::layout, typed: None },
    Desc { name: "T169 repr(C and align(32))", size: std::mem::size_of::<T169>(), align: std::mem::align_of::<T169>(), fields: &[("x0", D::F32, std::mem::offset_of!(T169, f0)), ("Ä1", D::U32, std::mem::offset_of!(T169, f1))], layout: <T169 as PointType>::layout, typed: None },
    Desc { name: "T170 repr(C)", size: std::mem::size_of::<T170>(), align: std::mem::align_of::<T170>(), fields: &[("WaveformDataOffset", D::Vec3i32, std::mem::offset_of!(T170, f0)), ("Ä1", D::U16, std::mem::offset_of!(T170, f1)), ("Attr_2", D::I8, std::mem::offset_of!(T170, f2)), ("ColorRGB", D::U8, std::mem::offset_of!(T170, f3))], layout: <T170 as PointType>::layout, typed: Some(whole::<T170>) },
    Desc { name: "T171 repr(C)", size: std::mem::size_of::<T171>(), align: std::mem::align_of::<T171>(), fields: &[("ClassificationFlags", D::F64, std::mem::offset_of!(T171, f0)), ("ScanAngle", D::Vec3f32, std::mem::offset_of!(T171, f1)), ("WavePacketDescriptorIndex", D::F32, std::mem::offset_of!(T171, f2)), ("Ä3", D::U16, std::mem::offset_of!(T171, f3)), ("Attr_4", D::U8, std::mem::offset_of!(T171, f4)), ("x5", D::U8, std::mem::offset_of!(T171, f5)), ("NIR", D::U8, std::mem::offset_of!(T171, f6)), ("WaveformParameters", D::I8, std::mem::offset_of!(T171, f7)), ("x8", D::I8, std::mem::offset_of!(T171, f8)), ("x9", D::U8, std::mem::offset_of!(T171, f9))], layout: <T171 as PointType>::layout, typed: None },
    Desc { name: "T172 repr(C, packed(1))", size: std::mem::size_of::<T172>(), align: std::mem::align_of::<T172>(), fields: &[("x0", D::Vec3f32, std::mem::offset_of!(T172, f0)), ("Normal", D::I8, std::mem::offset_of!(T172, f1)), ("x2", D::I32, std::mem::offset_of!(T172, f2)), ("Own 3", D::F64, std::mem::offset_of!(T172, f3)), ("Attr_4", D::Vec3f64, std::mem::offset_of!(T172, f4)), ("Own 5", D::F64, std::mem::offset_of!(T172, f5)), ("Own 6", D::U64, std::mem::offset_of!(T172, f6)), ("x7", D::Vec3f64, std::mem::offset_of!(T172, f7)), ("ScanDirectionFlag", D::Vec3u16, std::mem::offset_of!(T172, f8)), ("x9", D::I8, std::mem::offset_of!(T172, f9)), ("WaveformPacketSize", D::Vec4u8, std::mem::offset_of!(T172, f10)), ("Ä11", D::Vec3i32, std::mem::offset_of!(T172, f11))], layout: <T172 as PointType>::layout, typed: Some(whole::<T172>) },
    Desc { name: "T173 repr(packed(2), C)", size: std::mem::size_of::<T173>(), align: std::mem::align_of::<T173>(), fields: &[("PointID", D::U32, std::mem::offset_of!(T173, f0)), ("WaveformPacketSize", D::U32, std::mem::offset_of!(T173, f1)), ("ColorRGB", D::I8, std::mem::offset_of!(T173, f2)), ("Ä3", D::U8, std::mem::offset_of!(T173, f3))], layout: <T173 as PointType>::layout, typed: None },
    Desc { name: "T174 repr(C)", size: std::mem::size_of::<T174>(), align: std::mem::align_of::<T174>(), fields: &[("GpsTime", D::Vec3f32, std::mem::offset_of!(T174, f0)), ("Ä1", D::I64, std::mem::offset_of!(T174, f1)), ("Attr_2", D::U64, std::mem::offset_of!(T174, f2))], layout: <T174 as PointType>::layout, typed: None },
    Desc { name: "T175 repr(C, packed(4))", size: std::mem::size_of::<T175>(), align: std::mem::align_of::<T175>(), fields: &[("ScanAngle", D::U64, std::mem::offset_of!(T175, f0)), ("Normal", D::U16, std::mem::offset_of!(T175, f1))], layout: <T175 as PointType>::layout, typed: None },
    Desc { name: "T176 repr(packed(4), C)", size: std::mem::size_of::<T176>(), align: std::mem::align_of::<T176>(), fields: &[("ReturnPointWaveformLocation", D::U32, std::mem::offset_of!(T176, f0))], layout: <T176 as PointType>::layout, typed: Some(whole::<T176>) },
    Desc { name: "T177 repr(C)", size: std::mem::size_of::<T177>(), align: std::mem::align_of::<T177>(), fields: &[("EdgeOfFlightLine", D::U64, std::mem::offset_of!(T177, f0)), ("Normal", D::Vec3f32, std::mem::offset_of!(T177, f1)), ("UserData", D::F32, std::mem::offset_of!(T177, f2)), ("WaveformPacketSize", D::Vec3u8, std::mem::offset_of!(T177, f3)), ("WaveformDataOffset", D::U8, std::mem::offset_of!(T177, f4)), ("WaveformParameters", D::U8, std::mem::offset_of!(T177, f5)), ("ScanAngle", D::U8, std::mem::offset_of!(T177, f6)), ("Own 7", D::I8, std::mem::offset_of!(T177, f7)), ("ScanAngleRank", D::U8, std::mem::offset_of!(T177, f8))], layout: <T177 as PointType>::layout, typed: None },
    Desc { name: "T178 repr(C, packed(16))", size: std::mem::size_of::<T178>(), align: std::mem::align_of::<T178>(), fields: &[("x0", D::Vec3f64, std::mem::offset_of!(T178, f0)), ("WaveformDataOffset", D::Vec3f64, std::mem::offset_of!(T178, f1)), ("Intensity", D::Vec3u16, std::mem::offset_of!(T178, f2)), ("ReturnPointWaveformLocation", D::I8, std::mem::offset_of!(T178, f3)), ("PointID", D::I8, std::mem::offset_of!(T178, f4))], layout: <T178 as PointType>::layout, typed: Some(whole::<T178>) },
    Desc { name: "T179 repr(C and packed(2))", size: std::mem::size_of::<T179>(), align: std::mem::align_of::<T179>(), fields: &[("Own 0", D::U16, std::mem::offset_of!(T179, f0)), ("Ä1", D::I32, std::mem::offset_of!(T179, f1)), ("Normal", D::U32, std::mem::offset_of!(T179, f2))], layout: <T179 as PointType>::layout, typed: None },
    Desc { name: "T180 repr(C)", size: std::mem::size_of::<T180>(), align: std::mem::align_of::<T180>(), fields: &[("Intensity", D::F64, std::mem::offset_of!(T180, f0)), ("Ä1", D::I64, std::mem::offset_of!(T180, f1)), ("Attr_2", D::U32, std::mem::offset_of!(T180, f2)), ("Attr_3", D::Vec3u16, std::mem::offset_of!(T180, f3)), ("ScanAngle", D::Vec4u8, std::mem::offset_of!(T180, f4)), ("EdgeOfFlightLine", D::I8, std::mem::offset_of!(T180, f5)), ("x6", D::U8, std::mem::offset_of!(T180, f6))], layout: <T180 as PointType>::layout, typed: Some(whole::<T180>) },
    Desc { name: "T181 repr(packed(4))", size: std::mem::size_of::<T181>(), align: std::mem::align_of::<T181>(), fields: &[("ScanAngleRank", D::U64, std::mem::offset_of!(T181, f0)), ("ReturnPointWaveformLocation", D::F32, std::mem::offset_of!(T181, f1)), ("PointID", D::U8, std::mem::offset_of!(T181, f2)), ("Own 3", D::U8, std::mem::offset_of!(T181, f3)), ("ScanDirectionFlag", D::U8, std::mem::offset_of!(T181, f4)), ("ClassificationFlags", D::U8, std::mem::offset_of!(T181, f5))], layout: <T181 as PointType>::layout, typed: None },
    Desc { name: "T182 repr(packed)", size: std::mem::size_of::<T182>(), align: std::mem::align_of::<T182>(), fields: &[("Own 0", D::Vec3i32, std::mem::offset_of!(T182, f0)), ("WavePacketDescriptorIndex", D::U32, std::mem::offset_of!(T182, f1)), ("EdgeOfFlightLine", D::Vec3u8, std::mem::offset_of!(T182, f2)), ("Position3D", D::I8, std::mem::offset_of!(T182, f3))], layout: <T182 as PointType>::layout, typed: None },
    Desc { name: "T183 repr(C)", size: std::mem::size_of::<T183>(), align: std::mem::align_of::<T183>(), fields: &[("ReturnNumber", D::F32, std::mem::offset_of!(T183, f0)), ("WaveformPacketSize", D::Vec3i32, std::mem::offset_of!(T183, f1)), ("ScanDirectionFlag", D::I8, std::mem::offset_of!(T183, f2)), ("x3", D::Vec3i32, std::mem::offset_of!(T183, f3)), ("Own 4", D::F64, std::mem::offset_of!(T183, f4)), ("Attr_5", D::Vec4u8, std::mem::offset_of!(T183, f5)), ("WaveformDataOffset", D::I32, std::mem::offset_of!(T183, f6)), ("Ä7", D::Vec3f32, std::mem::offset_of!(T183, f7))], layout: <T183 as PointType>::layout, typed: None },
    Desc { name: "T184 repr(align(4), C)", size: std::mem::size_of::<T184>(), align: std::mem::align_of::<T184>(), fields: &[("Own 0", D::Vec3u16, std::mem::offset_of!(T184, f0)), ("UserData", D::F32, std::mem::offset_of!(T184, f1)), ("ReturnPointWaveformLocation", D::Vec3u16, std::mem::offset_of!(T184, f2)), ("x3", D::Vec3i32, std::mem::offset_of!(T184, f3)), ("Normal", D::Vec3u8, std::mem::offset_of!(T184, f4)), ("WaveformDataOffset", D::Vec3f64, std::mem::offset_of!(T184, f5)), ("Own 6", D::Vec3u16, std::mem::offset_of!(T184, f6)), ("x7", D::U16, std::mem::offset_of!(T184, f7)), ("ScanAngleRank", D::I8, std::mem::offset_of!(T184, f8)), ("NIR", D::F32, std::mem::offset_of!(T184, f9)), ("Ä10", D::I8, std::mem::offset_of!(T184, f10)), ("PointSourceID", D::Vec3u8, std::mem::offset_of!(T184, f11))], layout: <T184 as PointType>::layout, typed: None },
    Desc { name: "T185 repr(packed(8))", size: std::mem::size_of::<T185>(), align: std::mem::align_of::<T185>(), fields: &[("ScanAngleRank", D::I16, std::mem::offset_of!(T185, f0)), ("x1", D::Vec3u16, std::mem::offset_of!(T185, f1)), ("ReturnPointWaveformLocation", D::Vec3u8, std::mem::offset_of!(T185, f2)), ("x3", D::I8, std::mem::offset_of!(T185, f3))], layout: <T185 as PointType>::layout, typed: None },
    Desc { name: "T186 repr(C)", size: std::mem::size_of::<T186>(), align: std::mem::align_of::<T186>(), fields: &[("NumberOfReturns", D::U64, std::mem::offset_of!(T186, f0)), ("WavePacketDescriptorIndex", D::U64, std::mem::offset_of!(T186, f1)), ("ScannerChannel", D::F32, std::mem::offset_of!(T186, f2)), ("Intensity", D::I8, std::mem::offset_of!(T186, f3)), ("ClassificationFlags", D::I8, std::mem::offset_of!(T186, f4)), ("PointID", D::I8, std::mem::offset_of!(T186, f5)), ("Attr_6", D::U8, std::mem::offset_of!(T186, f6))], layout: <T186 as PointType>::layout, typed: Some(whole::<T186>) },
    Desc { name: "T187 repr(C)", size: std::mem::size_of::<T187>(), align: std::mem::align_of::<T187>(), fields: &[("Attr_0", D::U32, std::mem::offset_of!(T187, f0)), ("ScanAngle", D::U16, std::mem::offset_of!(T187, f1)), ("Ä2", D::U16, std::mem::offset_of!(T187, f2)), ("Classification", D::U16, std::mem::offset_of!(T187, f3)), ("ReturnNumber", D::I16, std::mem::offset_of!(T187, f4)), ("GpsTime", D::U8, std::mem::offset_of!(T187, f5)), ("Ä6", D::U8, std::mem::offset_of!(T187, f6)), ("Own 7", D::Vec3u8, std::mem::offset_of!(T187, f7)), ("PointSourceID", D::U8, std::mem::offset_of!(T187, f8)), ("Ä9", D::I8, std::mem::offset_of!(T187, f9)), ("ScannerChannel", D::U8, std::mem::offset_of!(T187, f10))], layout: <T187 as PointType>::layout, typed: None },
    Desc { name: "T188 repr(C, packed)", size: std::mem::size_of::<T188>(), align: std::mem::align_of::<T188>(), fields: &[("x0", D::F32, std::mem::offset_of!(T188, f0)), ("ReturnPointWaveformLocation", D::I16, std::mem::offset_of!(T188, f1))], layout: <T188 as PointType>::layout, typed: Some(whole::<T188>) },
    Desc { name: "T189 repr(C)", size: std::mem::size_of::<T189>(), align: std::mem::align_of::<T189>(), fields: &[("ColorRGB", D::Vec3f64, std::mem::offset_of!(T189, f0)), ("Classification", D::F32, std::mem::offset_of!(T189, f1)), ("x2", D::I8, std::mem::offset_of!(T189, f2)), ("Attr_3", D::U8, std::mem::offset_of!(T189, f3)), ("NIR", D::I8, std::mem::offset_of!(T189, f4)), ("Normal", D::U8, std::mem::offset_of!(T189, f5))], layout: <T189 as PointType>::layout, typed: Some(whole::<T189>) },
    Desc { name: "T190 repr(packed(2), C)", size: std::mem::size_of::<T190>(), align: std::mem::align_of::<T190>(), fields: &[("ScanAngleRank", D::Vec3u16, std::mem::offset_of!(T190, f0)), ("WaveformDataOffset", D::F64, std::mem::offset_of!(T190, f1)), ("Ä2", D::U64, std::mem::offset_of!(T190, f2)), ("x3", D::I16, std::mem::offset_of!(T190, f3)), ("Attr_4", D::U16, std::mem::offset_of!(T190, f4)), ("Ä5", D::Vec3u16, std::mem::offset_of!(T190, f5)), ("Own 6", D::U64, std::mem::offset_of!(T190, f6)), ("Attr_7", D::Vec3f32, std::mem::offset_of!(T190, f7))], layout: <T190 as PointType>::layout, typed: Some(whole::<T190>) },
    Desc { name: "T191 repr(C, packed(2))", size: std::mem::size_of::<T191>(), align: std::mem::align_of::<T191>(), fields: &[("Attr_0", D::I32, std::mem::offset_of!(T191, f0)), ("Ä1", D::U8, std::mem::offset_of!(T191, f1)), ("PointID", D::U8, std::mem::offset_of!(T191, f2))], layout: <T191 as PointType>::layout, typed: None },
    Desc { name: "T192 repr(C)", size: std::mem::size_of::<T192>(), align: std::mem::align_of::<T192>(), fields: &[("Position3D", D::Vec4u8, std::mem::offset_of!(T192, f0)), ("EdgeOfFlightLine", D::Vec3u8, std::mem::offset_of!(T192, f1)), ("NIR", D::U16, std::mem::offset_of!(T192, f2)), ("ScanAngle", D::U8, std::mem::offset_of!(T192, f3)), ("x4", D::I16, std::mem::offset_of!(T192, f4)), ("Own 5", D::Vec3i32, std::mem::offset_of!(T192, f5)), ("x6", D::F64, std::mem::offset_of!(T192, f6)), ("x7", D::I32, std::mem::offset_of!(T192, f7)), ("ReturnNumber", D::I8, std::mem::offset_of!(T192, f8)), ("WavePacketDescriptorIndex", D::I64, std::mem::offset_of!(T192, f9)), ("x10", D::I64, std::mem::offset_of!(T192, f10)), ("Attr_11", D::I32, std::mem::offset_of!(T192, f11))], layout: <T192 as PointType>::layout, typed: None },
    Desc { name: "T193 repr(packed(4), C)", size: std::mem::size_of::<T193>(), align: std::mem::align_of::<T193>(), fields: &[("Position3D", D::F64, std::mem::offset_of!(T193, f0)), ("WaveformDataOffset", D::Vec3f64, std::mem::offset_of!(T193, f1)), ("WaveformParameters", D::I64, std::mem::offset_of!(T193, f2)), ("Ä3", D::Vec3i32, std::mem::offset_of!(T193, f3)), ("x4", D::Vec3i32, std::mem::offset_of!(T193, f4)), ("UserData", D::U16, std::mem::offset_of!(T193, f5)), ("PointSourceID", D::U8, std::mem::offset_of!(T193, f6)), ("x7", D::I8, std::mem::offset_of!(T193, f7))], layout: <T193 as PointType>::layout, typed: None },
    Desc { name: "T194 repr(C, packed(8))", size: std::mem::size_of::<T194>(), align: std::mem::align_of::<T194>(), fields: &[("ScanAngle", D::Vec3i32, std::mem::offset_of!(T194, f0)), ("x1", D::I16, std::mem::offset_of!(T194, f1)), ("Ä2", D::F64, std::mem::offset_of!(T194, f2)), ("Own 3", D::Vec3f64, std::mem::offset_of!(T194, f3)), ("ScanDirectionFlag", D::Vec3u16, std::mem::offset_of!(T194, f4))], layout: <T194 as PointType>::layout, typed: None },
    Desc { name: "T195 repr(C)", size: std::mem::size_of::<T195>(), align: std::mem::align_of::<T195>(), fields: &[("ClassificationFlags", D::U16, std::mem::offset_of!(T195, f0)), ("Attr_1", D::U8, std::mem::offset_of!(T195, f1)), ("Own 2", D::U8, std::mem::offset_of!(T195, f2))], layout: <T195 as PointType>::layout, typed: None },
    Desc { name: "T196 repr(C and packed(2))", size: std::mem::size_of::<T196>(), align: std::mem::align_of::<T196>(), fields: &[("UserData", D::I64, std::mem::offset_of!(T196, f0)), ("Attr_1", D::U16, std::mem::offset_of!(T196, f1)), ("WaveformPacketSize", D::U16, std::mem::offset_of!(T196, f2)), ("PointSourceID", D::Vec4u8, std::mem::offset_of!(T196, f3)), ("x4", D::Vec3u8, std::mem::offset_of!(T196, f4)), ("Intensity", D::U8, std::mem::offset_of!(T196, f5))], layout: <T196 as PointType>::layout, typed: Some(whole::<T196>) },
    Desc { name: "T197 repr(packed(2))", size: std::mem::size_of::<T197>(), align: std::mem::align_of::<T197>(), fields: &[("Own 0", D::Vec3i32, std::mem::offset_of!(T197, f0))], layout: <T197 as PointType>::layout, typed: None },
];
