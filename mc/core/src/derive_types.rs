// generated by tools/gen_derive.py
use super::derive::*;
use pasture_core::layout::{attributes as at, PointAttributeDataType as D, PointType};
use pasture_core::nalgebra::{Vector3, Vector4};
use pasture_derive::PointType;
use std::mem::offset_of;

#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S0 { #[pasture(attribute = "Alpha")] f0: u8, } unsafe impl bytemuck::NoUninit for S0 {} unsafe impl bytemuck::Zeroable for S0 {} unsafe impl bytemuck::AnyBitPattern for S0 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S1 { #[pasture(attribute = "Alpha")] f0: i8, } unsafe impl bytemuck::NoUninit for S1 {} unsafe impl bytemuck::Zeroable for S1 {} unsafe impl bytemuck::AnyBitPattern for S1 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S2 { #[pasture(attribute = "Alpha")] f0: u16, } unsafe impl bytemuck::NoUninit for S2 {} unsafe impl bytemuck::Zeroable for S2 {} unsafe impl bytemuck::AnyBitPattern for S2 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S3 { #[pasture(attribute = "Alpha")] f0: i16, } unsafe impl bytemuck::NoUninit for S3 {} unsafe impl bytemuck::Zeroable for S3 {} unsafe impl bytemuck::AnyBitPattern for S3 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S4 { #[pasture(attribute = "Alpha")] f0: u32, } unsafe impl bytemuck::NoUninit for S4 {} unsafe impl bytemuck::Zeroable for S4 {} unsafe impl bytemuck::AnyBitPattern for S4 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S5 { #[pasture(attribute = "Alpha")] f0: i32, } unsafe impl bytemuck::NoUninit for S5 {} unsafe impl bytemuck::Zeroable for S5 {} unsafe impl bytemuck::AnyBitPattern for S5 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S6 { #[pasture(attribute = "Alpha")] f0: u64, } unsafe impl bytemuck::NoUninit for S6 {} unsafe impl bytemuck::Zeroable for S6 {} unsafe impl bytemuck::AnyBitPattern for S6 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S7 { #[pasture(attribute = "Alpha")] f0: i64, } unsafe impl bytemuck::NoUninit for S7 {} unsafe impl bytemuck::Zeroable for S7 {} unsafe impl bytemuck::AnyBitPattern for S7 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S8 { #[pasture(attribute = "Alpha")] f0: f32, } unsafe impl bytemuck::NoUninit for S8 {} unsafe impl bytemuck::Zeroable for S8 {} unsafe impl bytemuck::AnyBitPattern for S8 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S9 { #[pasture(attribute = "Alpha")] f0: f64, } unsafe impl bytemuck::NoUninit for S9 {} unsafe impl bytemuck::Zeroable for S9 {} unsafe impl bytemuck::AnyBitPattern for S9 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S10 { #[pasture(attribute = "Alpha")] f0: Vector3<u8>, } unsafe impl bytemuck::NoUninit for S10 {} unsafe impl bytemuck::Zeroable for S10 {} unsafe impl bytemuck::AnyBitPattern for S10 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S11 { #[pasture(attribute = "Alpha")] f0: Vector3<u16>, } unsafe impl bytemuck::NoUninit for S11 {} unsafe impl bytemuck::Zeroable for S11 {} unsafe impl bytemuck::AnyBitPattern for S11 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S12 { #[pasture(attribute = "Alpha")] f0: Vector3<f32>, } unsafe impl bytemuck::NoUninit for S12 {} unsafe impl bytemuck::Zeroable for S12 {} unsafe impl bytemuck::AnyBitPattern for S12 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S13 { #[pasture(attribute = "Alpha")] f0: Vector3<i32>, } unsafe impl bytemuck::NoUninit for S13 {} unsafe impl bytemuck::Zeroable for S13 {} unsafe impl bytemuck::AnyBitPattern for S13 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S14 { #[pasture(attribute = "Alpha")] f0: Vector3<f64>, } unsafe impl bytemuck::NoUninit for S14 {} unsafe impl bytemuck::Zeroable for S14 {} unsafe impl bytemuck::AnyBitPattern for S14 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S15 { #[pasture(attribute = "Alpha")] f0: Vector4<u8>, } unsafe impl bytemuck::NoUninit for S15 {} unsafe impl bytemuck::Zeroable for S15 {} unsafe impl bytemuck::AnyBitPattern for S15 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S16 { #[pasture(attribute = "Alpha")] f0: u8, } unsafe impl bytemuck::NoUninit for S16 {} unsafe impl bytemuck::Zeroable for S16 {} unsafe impl bytemuck::AnyBitPattern for S16 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S17 { #[pasture(attribute = "Alpha")] f0: i8, } unsafe impl bytemuck::NoUninit for S17 {} unsafe impl bytemuck::Zeroable for S17 {} unsafe impl bytemuck::AnyBitPattern for S17 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S18 { #[pasture(attribute = "Alpha")] f0: u16, } unsafe impl bytemuck::NoUninit for S18 {} unsafe impl bytemuck::Zeroable for S18 {} unsafe impl bytemuck::AnyBitPattern for S18 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S19 { #[pasture(attribute = "Alpha")] f0: i16, } unsafe impl bytemuck::NoUninit for S19 {} unsafe impl bytemuck::Zeroable for S19 {} unsafe impl bytemuck::AnyBitPattern for S19 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S20 { #[pasture(attribute = "Alpha")] f0: u32, } unsafe impl bytemuck::NoUninit for S20 {} unsafe impl bytemuck::Zeroable for S20 {} unsafe impl bytemuck::AnyBitPattern for S20 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S21 { #[pasture(attribute = "Alpha")] f0: i32, } unsafe impl bytemuck::NoUninit for S21 {} unsafe impl bytemuck::Zeroable for S21 {} unsafe impl bytemuck::AnyBitPattern for S21 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S22 { #[pasture(attribute = "Alpha")] f0: u64, } unsafe impl bytemuck::NoUninit for S22 {} unsafe impl bytemuck::Zeroable for S22 {} unsafe impl bytemuck::AnyBitPattern for S22 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S23 { #[pasture(attribute = "Alpha")] f0: i64, } unsafe impl bytemuck::NoUninit for S23 {} unsafe impl bytemuck::Zeroable for S23 {} unsafe impl bytemuck::AnyBitPattern for S23 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S24 { #[pasture(attribute = "Alpha")] f0: f32, } unsafe impl bytemuck::NoUninit for S24 {} unsafe impl bytemuck::Zeroable for S24 {} unsafe impl bytemuck::AnyBitPattern for S24 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S25 { #[pasture(attribute = "Alpha")] f0: f64, } unsafe impl bytemuck::NoUninit for S25 {} unsafe impl bytemuck::Zeroable for S25 {} unsafe impl bytemuck::AnyBitPattern for S25 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S26 { #[pasture(attribute = "Alpha")] f0: Vector3<u8>, } unsafe impl bytemuck::NoUninit for S26 {} unsafe impl bytemuck::Zeroable for S26 {} unsafe impl bytemuck::AnyBitPattern for S26 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S27 { #[pasture(attribute = "Alpha")] f0: Vector3<u16>, } unsafe impl bytemuck::NoUninit for S27 {} unsafe impl bytemuck::Zeroable for S27 {} unsafe impl bytemuck::AnyBitPattern for S27 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S28 { #[pasture(attribute = "Alpha")] f0: Vector3<f32>, } unsafe impl bytemuck::NoUninit for S28 {} unsafe impl bytemuck::Zeroable for S28 {} unsafe impl bytemuck::AnyBitPattern for S28 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S29 { #[pasture(attribute = "Alpha")] f0: Vector3<i32>, } unsafe impl bytemuck::NoUninit for S29 {} unsafe impl bytemuck::Zeroable for S29 {} unsafe impl bytemuck::AnyBitPattern for S29 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S30 { #[pasture(attribute = "Alpha")] f0: Vector3<f64>, } unsafe impl bytemuck::NoUninit for S30 {} unsafe impl bytemuck::Zeroable for S30 {} unsafe impl bytemuck::AnyBitPattern for S30 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S31 { #[pasture(attribute = "Alpha")] f0: Vector4<u8>, } unsafe impl bytemuck::NoUninit for S31 {} unsafe impl bytemuck::Zeroable for S31 {} unsafe impl bytemuck::AnyBitPattern for S31 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S32 { #[pasture(attribute = "Alpha")] f0: u8, } unsafe impl bytemuck::NoUninit for S32 {} unsafe impl bytemuck::Zeroable for S32 {} unsafe impl bytemuck::AnyBitPattern for S32 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S33 { #[pasture(attribute = "Alpha")] f0: i8, } unsafe impl bytemuck::NoUninit for S33 {} unsafe impl bytemuck::Zeroable for S33 {} unsafe impl bytemuck::AnyBitPattern for S33 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S34 { #[pasture(attribute = "Alpha")] f0: u16, } unsafe impl bytemuck::NoUninit for S34 {} unsafe impl bytemuck::Zeroable for S34 {} unsafe impl bytemuck::AnyBitPattern for S34 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S35 { #[pasture(attribute = "Alpha")] f0: i16, } unsafe impl bytemuck::NoUninit for S35 {} unsafe impl bytemuck::Zeroable for S35 {} unsafe impl bytemuck::AnyBitPattern for S35 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S36 { #[pasture(attribute = "Alpha")] f0: u32, } unsafe impl bytemuck::NoUninit for S36 {} unsafe impl bytemuck::Zeroable for S36 {} unsafe impl bytemuck::AnyBitPattern for S36 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S37 { #[pasture(attribute = "Alpha")] f0: i32, } unsafe impl bytemuck::NoUninit for S37 {} unsafe impl bytemuck::Zeroable for S37 {} unsafe impl bytemuck::AnyBitPattern for S37 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S38 { #[pasture(attribute = "Alpha")] f0: u64, } unsafe impl bytemuck::NoUninit for S38 {} unsafe impl bytemuck::Zeroable for S38 {} unsafe impl bytemuck::AnyBitPattern for S38 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S39 { #[pasture(attribute = "Alpha")] f0: i64, } unsafe impl bytemuck::NoUninit for S39 {} unsafe impl bytemuck::Zeroable for S39 {} unsafe impl bytemuck::AnyBitPattern for S39 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S40 { #[pasture(attribute = "Alpha")] f0: f32, } unsafe impl bytemuck::NoUninit for S40 {} unsafe impl bytemuck::Zeroable for S40 {} unsafe impl bytemuck::AnyBitPattern for S40 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S41 { #[pasture(attribute = "Alpha")] f0: f64, } unsafe impl bytemuck::NoUninit for S41 {} unsafe impl bytemuck::Zeroable for S41 {} unsafe impl bytemuck::AnyBitPattern for S41 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S42 { #[pasture(attribute = "Alpha")] f0: Vector3<u8>, } unsafe impl bytemuck::NoUninit for S42 {} unsafe impl bytemuck::Zeroable for S42 {} unsafe impl bytemuck::AnyBitPattern for S42 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S43 { #[pasture(attribute = "Alpha")] f0: Vector3<u16>, } unsafe impl bytemuck::NoUninit for S43 {} unsafe impl bytemuck::Zeroable for S43 {} unsafe impl bytemuck::AnyBitPattern for S43 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S44 { #[pasture(attribute = "Alpha")] f0: Vector3<f32>, } unsafe impl bytemuck::NoUninit for S44 {} unsafe impl bytemuck::Zeroable for S44 {} unsafe impl bytemuck::AnyBitPattern for S44 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S45 { #[pasture(attribute = "Alpha")] f0: Vector3<i32>, } unsafe impl bytemuck::NoUninit for S45 {} unsafe impl bytemuck::Zeroable for S45 {} unsafe impl bytemuck::AnyBitPattern for S45 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S46 { #[pasture(attribute = "Alpha")] f0: Vector3<f64>, } unsafe impl bytemuck::NoUninit for S46 {} unsafe impl bytemuck::Zeroable for S46 {} unsafe impl bytemuck::AnyBitPattern for S46 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S47 { #[pasture(attribute = "Alpha")] f0: Vector4<u8>, } unsafe impl bytemuck::NoUninit for S47 {} unsafe impl bytemuck::Zeroable for S47 {} unsafe impl bytemuck::AnyBitPattern for S47 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S48 { #[pasture(attribute = "Alpha")] f0: u8, } unsafe impl bytemuck::NoUninit for S48 {} unsafe impl bytemuck::Zeroable for S48 {} unsafe impl bytemuck::AnyBitPattern for S48 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S49 { #[pasture(attribute = "Alpha")] f0: i8, } unsafe impl bytemuck::NoUninit for S49 {} unsafe impl bytemuck::Zeroable for S49 {} unsafe impl bytemuck::AnyBitPattern for S49 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S50 { #[pasture(attribute = "Alpha")] f0: u16, } unsafe impl bytemuck::NoUninit for S50 {} unsafe impl bytemuck::Zeroable for S50 {} unsafe impl bytemuck::AnyBitPattern for S50 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S51 { #[pasture(attribute = "Alpha")] f0: i16, } unsafe impl bytemuck::NoUninit for S51 {} unsafe impl bytemuck::Zeroable for S51 {} unsafe impl bytemuck::AnyBitPattern for S51 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S52 { #[pasture(attribute = "Alpha")] f0: u32, } unsafe impl bytemuck::NoUninit for S52 {} unsafe impl bytemuck::Zeroable for S52 {} unsafe impl bytemuck::AnyBitPattern for S52 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S53 { #[pasture(attribute = "Alpha")] f0: i32, } unsafe impl bytemuck::NoUninit for S53 {} unsafe impl bytemuck::Zeroable for S53 {} unsafe impl bytemuck::AnyBitPattern for S53 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S54 { #[pasture(attribute = "Alpha")] f0: u64, } unsafe impl bytemuck::NoUninit for S54 {} unsafe impl bytemuck::Zeroable for S54 {} unsafe impl bytemuck::AnyBitPattern for S54 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S55 { #[pasture(attribute = "Alpha")] f0: i64, } unsafe impl bytemuck::NoUninit for S55 {} unsafe impl bytemuck::Zeroable for S55 {} unsafe impl bytemuck::AnyBitPattern for S55 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S56 { #[pasture(attribute = "Alpha")] f0: f32, } unsafe impl bytemuck::NoUninit for S56 {} unsafe impl bytemuck::Zeroable for S56 {} unsafe impl bytemuck::AnyBitPattern for S56 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S57 { #[pasture(attribute = "Alpha")] f0: f64, } unsafe impl bytemuck::NoUninit for S57 {} unsafe impl bytemuck::Zeroable for S57 {} unsafe impl bytemuck::AnyBitPattern for S57 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S58 { #[pasture(attribute = "Alpha")] f0: Vector3<u8>, } unsafe impl bytemuck::NoUninit for S58 {} unsafe impl bytemuck::Zeroable for S58 {} unsafe impl bytemuck::AnyBitPattern for S58 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S59 { #[pasture(attribute = "Alpha")] f0: Vector3<u16>, } unsafe impl bytemuck::NoUninit for S59 {} unsafe impl bytemuck::Zeroable for S59 {} unsafe impl bytemuck::AnyBitPattern for S59 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S60 { #[pasture(attribute = "Alpha")] f0: Vector3<f32>, } unsafe impl bytemuck::NoUninit for S60 {} unsafe impl bytemuck::Zeroable for S60 {} unsafe impl bytemuck::AnyBitPattern for S60 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S61 { #[pasture(attribute = "Alpha")] f0: Vector3<i32>, } unsafe impl bytemuck::NoUninit for S61 {} unsafe impl bytemuck::Zeroable for S61 {} unsafe impl bytemuck::AnyBitPattern for S61 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S62 { #[pasture(attribute = "Alpha")] f0: Vector3<f64>, } unsafe impl bytemuck::NoUninit for S62 {} unsafe impl bytemuck::Zeroable for S62 {} unsafe impl bytemuck::AnyBitPattern for S62 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S63 { #[pasture(attribute = "Alpha")] f0: Vector4<u8>, } unsafe impl bytemuck::NoUninit for S63 {} unsafe impl bytemuck::Zeroable for S63 {} unsafe impl bytemuck::AnyBitPattern for S63 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S64 { #[pasture(attribute = "Alpha")] f0: u8, } unsafe impl bytemuck::NoUninit for S64 {} unsafe impl bytemuck::Zeroable for S64 {} unsafe impl bytemuck::AnyBitPattern for S64 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S65 { #[pasture(attribute = "Alpha")] f0: i8, } unsafe impl bytemuck::NoUninit for S65 {} unsafe impl bytemuck::Zeroable for S65 {} unsafe impl bytemuck::AnyBitPattern for S65 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S66 { #[pasture(attribute = "Alpha")] f0: u16, } unsafe impl bytemuck::NoUninit for S66 {} unsafe impl bytemuck::Zeroable for S66 {} unsafe impl bytemuck::AnyBitPattern for S66 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S67 { #[pasture(attribute = "Alpha")] f0: i16, } unsafe impl bytemuck::NoUninit for S67 {} unsafe impl bytemuck::Zeroable for S67 {} unsafe impl bytemuck::AnyBitPattern for S67 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S68 { #[pasture(attribute = "Alpha")] f0: u32, } unsafe impl bytemuck::NoUninit for S68 {} unsafe impl bytemuck::Zeroable for S68 {} unsafe impl bytemuck::AnyBitPattern for S68 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S69 { #[pasture(attribute = "Alpha")] f0: i32, } unsafe impl bytemuck::NoUninit for S69 {} unsafe impl bytemuck::Zeroable for S69 {} unsafe impl bytemuck::AnyBitPattern for S69 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S70 { #[pasture(attribute = "Alpha")] f0: u64, } unsafe impl bytemuck::NoUninit for S70 {} unsafe impl bytemuck::Zeroable for S70 {} unsafe impl bytemuck::AnyBitPattern for S70 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S71 { #[pasture(attribute = "Alpha")] f0: i64, } unsafe impl bytemuck::NoUninit for S71 {} unsafe impl bytemuck::Zeroable for S71 {} unsafe impl bytemuck::AnyBitPattern for S71 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S72 { #[pasture(attribute = "Alpha")] f0: f32, } unsafe impl bytemuck::NoUninit for S72 {} unsafe impl bytemuck::Zeroable for S72 {} unsafe impl bytemuck::AnyBitPattern for S72 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S73 { #[pasture(attribute = "Alpha")] f0: f64, } unsafe impl bytemuck::NoUninit for S73 {} unsafe impl bytemuck::Zeroable for S73 {} unsafe impl bytemuck::AnyBitPattern for S73 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S74 { #[pasture(attribute = "Alpha")] f0: Vector3<u8>, } unsafe impl bytemuck::NoUninit for S74 {} unsafe impl bytemuck::Zeroable for S74 {} unsafe impl bytemuck::AnyBitPattern for S74 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S75 { #[pasture(attribute = "Alpha")] f0: Vector3<u16>, } unsafe impl bytemuck::NoUninit for S75 {} unsafe impl bytemuck::Zeroable for S75 {} unsafe impl bytemuck::AnyBitPattern for S75 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S76 { #[pasture(attribute = "Alpha")] f0: Vector3<f32>, } unsafe impl bytemuck::NoUninit for S76 {} unsafe impl bytemuck::Zeroable for S76 {} unsafe impl bytemuck::AnyBitPattern for S76 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S77 { #[pasture(attribute = "Alpha")] f0: Vector3<i32>, } unsafe impl bytemuck::NoUninit for S77 {} unsafe impl bytemuck::Zeroable for S77 {} unsafe impl bytemuck::AnyBitPattern for S77 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S78 { #[pasture(attribute = "Alpha")] f0: Vector3<f64>, } unsafe impl bytemuck::NoUninit for S78 {} unsafe impl bytemuck::Zeroable for S78 {} unsafe impl bytemuck::AnyBitPattern for S78 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S79 { #[pasture(attribute = "Alpha")] f0: Vector4<u8>, } unsafe impl bytemuck::NoUninit for S79 {} unsafe impl bytemuck::Zeroable for S79 {} unsafe impl bytemuck::AnyBitPattern for S79 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S80 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u8, } unsafe impl bytemuck::NoUninit for S80 {} unsafe impl bytemuck::Zeroable for S80 {} unsafe impl bytemuck::AnyBitPattern for S80 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S81 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: i8, } unsafe impl bytemuck::NoUninit for S81 {} unsafe impl bytemuck::Zeroable for S81 {} unsafe impl bytemuck::AnyBitPattern for S81 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S82 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u16, } unsafe impl bytemuck::NoUninit for S82 {} unsafe impl bytemuck::Zeroable for S82 {} unsafe impl bytemuck::AnyBitPattern for S82 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S83 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: i16, } unsafe impl bytemuck::NoUninit for S83 {} unsafe impl bytemuck::Zeroable for S83 {} unsafe impl bytemuck::AnyBitPattern for S83 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S84 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u32, } unsafe impl bytemuck::NoUninit for S84 {} unsafe impl bytemuck::Zeroable for S84 {} unsafe impl bytemuck::AnyBitPattern for S84 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S85 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: i32, } unsafe impl bytemuck::NoUninit for S85 {} unsafe impl bytemuck::Zeroable for S85 {} unsafe impl bytemuck::AnyBitPattern for S85 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S86 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u64, } unsafe impl bytemuck::NoUninit for S86 {} unsafe impl bytemuck::Zeroable for S86 {} unsafe impl bytemuck::AnyBitPattern for S86 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S87 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: i64, } unsafe impl bytemuck::NoUninit for S87 {} unsafe impl bytemuck::Zeroable for S87 {} unsafe impl bytemuck::AnyBitPattern for S87 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S88 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: f32, } unsafe impl bytemuck::NoUninit for S88 {} unsafe impl bytemuck::Zeroable for S88 {} unsafe impl bytemuck::AnyBitPattern for S88 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S89 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: f64, } unsafe impl bytemuck::NoUninit for S89 {} unsafe impl bytemuck::Zeroable for S89 {} unsafe impl bytemuck::AnyBitPattern for S89 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S90 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: Vector3<u8>, } unsafe impl bytemuck::NoUninit for S90 {} unsafe impl bytemuck::Zeroable for S90 {} unsafe impl bytemuck::AnyBitPattern for S90 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S91 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: Vector3<u16>, } unsafe impl bytemuck::NoUninit for S91 {} unsafe impl bytemuck::Zeroable for S91 {} unsafe impl bytemuck::AnyBitPattern for S91 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S92 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: Vector3<f32>, } unsafe impl bytemuck::NoUninit for S92 {} unsafe impl bytemuck::Zeroable for S92 {} unsafe impl bytemuck::AnyBitPattern for S92 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S93 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: Vector3<i32>, } unsafe impl bytemuck::NoUninit for S93 {} unsafe impl bytemuck::Zeroable for S93 {} unsafe impl bytemuck::AnyBitPattern for S93 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S94 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: Vector3<f64>, } unsafe impl bytemuck::NoUninit for S94 {} unsafe impl bytemuck::Zeroable for S94 {} unsafe impl bytemuck::AnyBitPattern for S94 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S95 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: Vector4<u8>, } unsafe impl bytemuck::NoUninit for S95 {} unsafe impl bytemuck::Zeroable for S95 {} unsafe impl bytemuck::AnyBitPattern for S95 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S96 { #[pasture(attribute = "Alpha")] f0: i8, #[pasture(attribute = "Beta 2")] f1: u8, } unsafe impl bytemuck::NoUninit for S96 {} unsafe impl bytemuck::Zeroable for S96 {} unsafe impl bytemuck::AnyBitPattern for S96 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S97 { #[pasture(attribute = "Alpha")] f0: i8, #[pasture(attribute = "Beta 2")] f1: u16, } unsafe impl bytemuck::NoUninit for S97 {} unsafe impl bytemuck::Zeroable for S97 {} unsafe impl bytemuck::AnyBitPattern for S97 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S98 { #[pasture(attribute = "Alpha")] f0: i8, #[pasture(attribute = "Beta 2")] f1: i64, } unsafe impl bytemuck::NoUninit for S98 {} unsafe impl bytemuck::Zeroable for S98 {} unsafe impl bytemuck::AnyBitPattern for S98 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S99 { #[pasture(attribute = "Alpha")] f0: i8, #[pasture(attribute = "Beta 2")] f1: f32, } unsafe impl bytemuck::NoUninit for S99 {} unsafe impl bytemuck::Zeroable for S99 {} unsafe impl bytemuck::AnyBitPattern for S99 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S100 { #[pasture(attribute = "Alpha")] f0: i8, #[pasture(attribute = "Beta 2")] f1: Vector3<u8>, } unsafe impl bytemuck::NoUninit for S100 {} unsafe impl bytemuck::Zeroable for S100 {} unsafe impl bytemuck::AnyBitPattern for S100 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S101 { #[pasture(attribute = "Alpha")] f0: i8, #[pasture(attribute = "Beta 2")] f1: Vector3<u16>, } unsafe impl bytemuck::NoUninit for S101 {} unsafe impl bytemuck::Zeroable for S101 {} unsafe impl bytemuck::AnyBitPattern for S101 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S102 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u8, } unsafe impl bytemuck::NoUninit for S102 {} unsafe impl bytemuck::Zeroable for S102 {} unsafe impl bytemuck::AnyBitPattern for S102 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S103 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: i8, } unsafe impl bytemuck::NoUninit for S103 {} unsafe impl bytemuck::Zeroable for S103 {} unsafe impl bytemuck::AnyBitPattern for S103 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S104 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u16, } unsafe impl bytemuck::NoUninit for S104 {} unsafe impl bytemuck::Zeroable for S104 {} unsafe impl bytemuck::AnyBitPattern for S104 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S105 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: i16, } unsafe impl bytemuck::NoUninit for S105 {} unsafe impl bytemuck::Zeroable for S105 {} unsafe impl bytemuck::AnyBitPattern for S105 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S106 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u32, } unsafe impl bytemuck::NoUninit for S106 {} unsafe impl bytemuck::Zeroable for S106 {} unsafe impl bytemuck::AnyBitPattern for S106 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S107 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: i32, } unsafe impl bytemuck::NoUninit for S107 {} unsafe impl bytemuck::Zeroable for S107 {} unsafe impl bytemuck::AnyBitPattern for S107 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S108 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u64, } unsafe impl bytemuck::NoUninit for S108 {} unsafe impl bytemuck::Zeroable for S108 {} unsafe impl bytemuck::AnyBitPattern for S108 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S109 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: i64, } unsafe impl bytemuck::NoUninit for S109 {} unsafe impl bytemuck::Zeroable for S109 {} unsafe impl bytemuck::AnyBitPattern for S109 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S110 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: f32, } unsafe impl bytemuck::NoUninit for S110 {} unsafe impl bytemuck::Zeroable for S110 {} unsafe impl bytemuck::AnyBitPattern for S110 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S111 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: f64, } unsafe impl bytemuck::NoUninit for S111 {} unsafe impl bytemuck::Zeroable for S111 {} unsafe impl bytemuck::AnyBitPattern for S111 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S112 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: Vector3<u8>, } unsafe impl bytemuck::NoUninit for S112 {} unsafe impl bytemuck::Zeroable for S112 {} unsafe impl bytemuck::AnyBitPattern for S112 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S113 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: Vector3<u16>, } unsafe impl bytemuck::NoUninit for S113 {} unsafe impl bytemuck::Zeroable for S113 {} unsafe impl bytemuck::AnyBitPattern for S113 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S114 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: Vector3<f32>, } unsafe impl bytemuck::NoUninit for S114 {} unsafe impl bytemuck::Zeroable for S114 {} unsafe impl bytemuck::AnyBitPattern for S114 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S115 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: Vector3<i32>, } unsafe impl bytemuck::NoUninit for S115 {} unsafe impl bytemuck::Zeroable for S115 {} unsafe impl bytemuck::AnyBitPattern for S115 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S116 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: Vector3<f64>, } unsafe impl bytemuck::NoUninit for S116 {} unsafe impl bytemuck::Zeroable for S116 {} unsafe impl bytemuck::AnyBitPattern for S116 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S117 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: Vector4<u8>, } unsafe impl bytemuck::NoUninit for S117 {} unsafe impl bytemuck::Zeroable for S117 {} unsafe impl bytemuck::AnyBitPattern for S117 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S118 { #[pasture(attribute = "Alpha")] f0: i16, #[pasture(attribute = "Beta 2")] f1: u8, } unsafe impl bytemuck::NoUninit for S118 {} unsafe impl bytemuck::Zeroable for S118 {} unsafe impl bytemuck::AnyBitPattern for S118 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S119 { #[pasture(attribute = "Alpha")] f0: i16, #[pasture(attribute = "Beta 2")] f1: u16, } unsafe impl bytemuck::NoUninit for S119 {} unsafe impl bytemuck::Zeroable for S119 {} unsafe impl bytemuck::AnyBitPattern for S119 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S120 { #[pasture(attribute = "Alpha")] f0: i16, #[pasture(attribute = "Beta 2")] f1: i64, } unsafe impl bytemuck::NoUninit for S120 {} unsafe impl bytemuck::Zeroable for S120 {} unsafe impl bytemuck::AnyBitPattern for S120 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S121 { #[pasture(attribute = "Alpha")] f0: i16, #[pasture(attribute = "Beta 2")] f1: f32, } unsafe impl bytemuck::NoUninit for S121 {} unsafe impl bytemuck::Zeroable for S121 {} unsafe impl bytemuck::AnyBitPattern for S121 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S122 { #[pasture(attribute = "Alpha")] f0: i16, #[pasture(attribute = "Beta 2")] f1: Vector3<u8>, } unsafe impl bytemuck::NoUninit for S122 {} unsafe impl bytemuck::Zeroable for S122 {} unsafe impl bytemuck::AnyBitPattern for S122 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S123 { #[pasture(attribute = "Alpha")] f0: i16, #[pasture(attribute = "Beta 2")] f1: Vector3<u16>, } unsafe impl bytemuck::NoUninit for S123 {} unsafe impl bytemuck::Zeroable for S123 {} unsafe impl bytemuck::AnyBitPattern for S123 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S124 { #[pasture(attribute = "Alpha")] f0: u32, #[pasture(attribute = "Beta 2")] f1: u8, } unsafe impl bytemuck::NoUninit for S124 {} unsafe impl bytemuck::Zeroable for S124 {} unsafe impl bytemuck::AnyBitPattern for S124 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S125 { #[pasture(attribute = "Alpha")] f0: u32, #[pasture(attribute = "Beta 2")] f1: u16, } unsafe impl bytemuck::NoUninit for S125 {} unsafe impl bytemuck::Zeroable for S125 {} unsafe impl bytemuck::AnyBitPattern for S125 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S126 { #[pasture(attribute = "Alpha")] f0: u32, #[pasture(attribute = "Beta 2")] f1: i64, } unsafe impl bytemuck::NoUninit for S126 {} unsafe impl bytemuck::Zeroable for S126 {} unsafe impl bytemuck::AnyBitPattern for S126 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S127 { #[pasture(attribute = "Alpha")] f0: u32, #[pasture(attribute = "Beta 2")] f1: f32, } unsafe impl bytemuck::NoUninit for S127 {} unsafe impl bytemuck::Zeroable for S127 {} unsafe impl bytemuck::AnyBitPattern for S127 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S128 { #[pasture(attribute = "Alpha")] f0: u32, #[pasture(attribute = "Beta 2")] f1: Vector3<u8>, } unsafe impl bytemuck::NoUninit for S128 {} unsafe impl bytemuck::Zeroable for S128 {} unsafe impl bytemuck::AnyBitPattern for S128 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S129 { #[pasture(attribute = "Alpha")] f0: u32, #[pasture(attribute = "Beta 2")] f1: Vector3<u16>, } unsafe impl bytemuck::NoUninit for S129 {} unsafe impl bytemuck::Zeroable for S129 {} unsafe impl bytemuck::AnyBitPattern for S129 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S130 { #[pasture(attribute = "Alpha")] f0: i32, #[pasture(attribute = "Beta 2")] f1: u8, } unsafe impl bytemuck::NoUninit for S130 {} unsafe impl bytemuck::Zeroable for S130 {} unsafe impl bytemuck::AnyBitPattern for S130 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S131 { #[pasture(attribute = "Alpha")] f0: i32, #[pasture(attribute = "Beta 2")] f1: u16, } unsafe impl bytemuck::NoUninit for S131 {} unsafe impl bytemuck::Zeroable for S131 {} unsafe impl bytemuck::AnyBitPattern for S131 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S132 { #[pasture(attribute = "Alpha")] f0: i32, #[pasture(attribute = "Beta 2")] f1: i64, } unsafe impl bytemuck::NoUninit for S132 {} unsafe impl bytemuck::Zeroable for S132 {} unsafe impl bytemuck::AnyBitPattern for S132 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S133 { #[pasture(attribute = "Alpha")] f0: i32, #[pasture(attribute = "Beta 2")] f1: f32, } unsafe impl bytemuck::NoUninit for S133 {} unsafe impl bytemuck::Zeroable for S133 {} unsafe impl bytemuck::AnyBitPattern for S133 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S134 { #[pasture(attribute = "Alpha")] f0: i32, #[pasture(attribute = "Beta 2")] f1: Vector3<u8>, } unsafe impl bytemuck::NoUninit for S134 {} unsafe impl bytemuck::Zeroable for S134 {} unsafe impl bytemuck::AnyBitPattern for S134 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S135 { #[pasture(attribute = "Alpha")] f0: i32, #[pasture(attribute = "Beta 2")] f1: Vector3<u16>, } unsafe impl bytemuck::NoUninit for S135 {} unsafe impl bytemuck::Zeroable for S135 {} unsafe impl bytemuck::AnyBitPattern for S135 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S136 { #[pasture(attribute = "Alpha")] f0: u64, #[pasture(attribute = "Beta 2")] f1: u8, } unsafe impl bytemuck::NoUninit for S136 {} unsafe impl bytemuck::Zeroable for S136 {} unsafe impl bytemuck::AnyBitPattern for S136 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S137 { #[pasture(attribute = "Alpha")] f0: u64, #[pasture(attribute = "Beta 2")] f1: u16, } unsafe impl bytemuck::NoUninit for S137 {} unsafe impl bytemuck::Zeroable for S137 {} unsafe impl bytemuck::AnyBitPattern for S137 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S138 { #[pasture(attribute = "Alpha")] f0: u64, #[pasture(attribute = "Beta 2")] f1: i64, } unsafe impl bytemuck::NoUninit for S138 {} unsafe impl bytemuck::Zeroable for S138 {} unsafe impl bytemuck::AnyBitPattern for S138 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S139 { #[pasture(attribute = "Alpha")] f0: u64, #[pasture(attribute = "Beta 2")] f1: f32, } unsafe impl bytemuck::NoUninit for S139 {} unsafe impl bytemuck::Zeroable for S139 {} unsafe impl bytemuck::AnyBitPattern for S139 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S140 { #[pasture(attribute = "Alpha")] f0: u64, #[pasture(attribute = "Beta 2")] f1: Vector3<u8>, } unsafe impl bytemuck::NoUninit for S140 {} unsafe impl bytemuck::Zeroable for S140 {} unsafe impl bytemuck::AnyBitPattern for S140 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S141 { #[pasture(attribute = "Alpha")] f0: u64, #[pasture(attribute = "Beta 2")] f1: Vector3<u16>, } unsafe impl bytemuck::NoUninit for S141 {} unsafe impl bytemuck::Zeroable for S141 {} unsafe impl bytemuck::AnyBitPattern for S141 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S142 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: u8, } unsafe impl bytemuck::NoUninit for S142 {} unsafe impl bytemuck::Zeroable for S142 {} unsafe impl bytemuck::AnyBitPattern for S142 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S143 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: i8, } unsafe impl bytemuck::NoUninit for S143 {} unsafe impl bytemuck::Zeroable for S143 {} unsafe impl bytemuck::AnyBitPattern for S143 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S144 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: u16, } unsafe impl bytemuck::NoUninit for S144 {} unsafe impl bytemuck::Zeroable for S144 {} unsafe impl bytemuck::AnyBitPattern for S144 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S145 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: i16, } unsafe impl bytemuck::NoUninit for S145 {} unsafe impl bytemuck::Zeroable for S145 {} unsafe impl bytemuck::AnyBitPattern for S145 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S146 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: u32, } unsafe impl bytemuck::NoUninit for S146 {} unsafe impl bytemuck::Zeroable for S146 {} unsafe impl bytemuck::AnyBitPattern for S146 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S147 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: i32, } unsafe impl bytemuck::NoUninit for S147 {} unsafe impl bytemuck::Zeroable for S147 {} unsafe impl bytemuck::AnyBitPattern for S147 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S148 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: u64, } unsafe impl bytemuck::NoUninit for S148 {} unsafe impl bytemuck::Zeroable for S148 {} unsafe impl bytemuck::AnyBitPattern for S148 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S149 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: i64, } unsafe impl bytemuck::NoUninit for S149 {} unsafe impl bytemuck::Zeroable for S149 {} unsafe impl bytemuck::AnyBitPattern for S149 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S150 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: f32, } unsafe impl bytemuck::NoUninit for S150 {} unsafe impl bytemuck::Zeroable for S150 {} unsafe impl bytemuck::AnyBitPattern for S150 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S151 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: f64, } unsafe impl bytemuck::NoUninit for S151 {} unsafe impl bytemuck::Zeroable for S151 {} unsafe impl bytemuck::AnyBitPattern for S151 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S152 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: Vector3<u8>, } unsafe impl bytemuck::NoUninit for S152 {} unsafe impl bytemuck::Zeroable for S152 {} unsafe impl bytemuck::AnyBitPattern for S152 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S153 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: Vector3<u16>, } unsafe impl bytemuck::NoUninit for S153 {} unsafe impl bytemuck::Zeroable for S153 {} unsafe impl bytemuck::AnyBitPattern for S153 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S154 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: Vector3<f32>, } unsafe impl bytemuck::NoUninit for S154 {} unsafe impl bytemuck::Zeroable for S154 {} unsafe impl bytemuck::AnyBitPattern for S154 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S155 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: Vector3<i32>, } unsafe impl bytemuck::NoUninit for S155 {} unsafe impl bytemuck::Zeroable for S155 {} unsafe impl bytemuck::AnyBitPattern for S155 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S156 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: Vector3<f64>, } unsafe impl bytemuck::NoUninit for S156 {} unsafe impl bytemuck::Zeroable for S156 {} unsafe impl bytemuck::AnyBitPattern for S156 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S157 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: Vector4<u8>, } unsafe impl bytemuck::NoUninit for S157 {} unsafe impl bytemuck::Zeroable for S157 {} unsafe impl bytemuck::AnyBitPattern for S157 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S158 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: u8, } unsafe impl bytemuck::NoUninit for S158 {} unsafe impl bytemuck::Zeroable for S158 {} unsafe impl bytemuck::AnyBitPattern for S158 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S159 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: i8, } unsafe impl bytemuck::NoUninit for S159 {} unsafe impl bytemuck::Zeroable for S159 {} unsafe impl bytemuck::AnyBitPattern for S159 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S160 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: u16, } unsafe impl bytemuck::NoUninit for S160 {} unsafe impl bytemuck::Zeroable for S160 {} unsafe impl bytemuck::AnyBitPattern for S160 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S161 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: i16, } unsafe impl bytemuck::NoUninit for S161 {} unsafe impl bytemuck::Zeroable for S161 {} unsafe impl bytemuck::AnyBitPattern for S161 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S162 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: u32, } unsafe impl bytemuck::NoUninit for S162 {} unsafe impl bytemuck::Zeroable for S162 {} unsafe impl bytemuck::AnyBitPattern for S162 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S163 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: i32, } unsafe impl bytemuck::NoUninit for S163 {} unsafe impl bytemuck::Zeroable for S163 {} unsafe impl bytemuck::AnyBitPattern for S163 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S164 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: u64, } unsafe impl bytemuck::NoUninit for S164 {} unsafe impl bytemuck::Zeroable for S164 {} unsafe impl bytemuck::AnyBitPattern for S164 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S165 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: i64, } unsafe impl bytemuck::NoUninit for S165 {} unsafe impl bytemuck::Zeroable for S165 {} unsafe impl bytemuck::AnyBitPattern for S165 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S166 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: f32, } unsafe impl bytemuck::NoUninit for S166 {} unsafe impl bytemuck::Zeroable for S166 {} unsafe impl bytemuck::AnyBitPattern for S166 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S167 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: f64, } unsafe impl bytemuck::NoUninit for S167 {} unsafe impl bytemuck::Zeroable for S167 {} unsafe impl bytemuck::AnyBitPattern for S167 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S168 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: Vector3<u8>, } unsafe impl bytemuck::NoUninit for S168 {} unsafe impl bytemuck::Zeroable for S168 {} unsafe impl bytemuck::AnyBitPattern for S168 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S169 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: Vector3<u16>, } unsafe impl bytemuck::NoUninit for S169 {} unsafe impl bytemuck::Zeroable for S169 {} unsafe impl bytemuck::AnyBitPattern for S169 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S170 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: Vector3<f32>, } unsafe impl bytemuck::NoUninit for S170 {} unsafe impl bytemuck::Zeroable for S170 {} unsafe impl bytemuck::AnyBitPattern for S170 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S171 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: Vector3<i32>, } unsafe impl bytemuck::NoUninit for S171 {} unsafe impl bytemuck::Zeroable for S171 {} unsafe impl bytemuck::AnyBitPattern for S171 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S172 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: Vector3<f64>, } unsafe impl bytemuck::NoUninit for S172 {} unsafe impl bytemuck::Zeroable for S172 {} unsafe impl bytemuck::AnyBitPattern for S172 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S173 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: Vector4<u8>, } unsafe impl bytemuck::NoUninit for S173 {} unsafe impl bytemuck::Zeroable for S173 {} unsafe impl bytemuck::AnyBitPattern for S173 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S174 { #[pasture(attribute = "Alpha")] f0: f64, #[pasture(attribute = "Beta 2")] f1: u8, } unsafe impl bytemuck::NoUninit for S174 {} unsafe impl bytemuck::Zeroable for S174 {} unsafe impl bytemuck::AnyBitPattern for S174 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S175 { #[pasture(attribute = "Alpha")] f0: f64, #[pasture(attribute = "Beta 2")] f1: u16, } unsafe impl bytemuck::NoUninit for S175 {} unsafe impl bytemuck::Zeroable for S175 {} unsafe impl bytemuck::AnyBitPattern for S175 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S176 { #[pasture(attribute = "Alpha")] f0: f64, #[pasture(attribute = "Beta 2")] f1: i64, } unsafe impl bytemuck::NoUninit for S176 {} unsafe impl bytemuck::Zeroable for S176 {} unsafe impl bytemuck::AnyBitPattern for S176 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S177 { #[pasture(attribute = "Alpha")] f0: f64, #[pasture(attribute = "Beta 2")] f1: f32, } unsafe impl bytemuck::NoUninit for S177 {} unsafe impl bytemuck::Zeroable for S177 {} unsafe impl bytemuck::AnyBitPattern for S177 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S178 { #[pasture(attribute = "Alpha")] f0: f64, #[pasture(attribute = "Beta 2")] f1: Vector3<u8>, } unsafe impl bytemuck::NoUninit for S178 {} unsafe impl bytemuck::Zeroable for S178 {} unsafe impl bytemuck::AnyBitPattern for S178 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S179 { #[pasture(attribute = "Alpha")] f0: f64, #[pasture(attribute = "Beta 2")] f1: Vector3<u16>, } unsafe impl bytemuck::NoUninit for S179 {} unsafe impl bytemuck::Zeroable for S179 {} unsafe impl bytemuck::AnyBitPattern for S179 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S180 { #[pasture(attribute = "Alpha")] f0: Vector3<u8>, #[pasture(attribute = "Beta 2")] f1: u8, } unsafe impl bytemuck::NoUninit for S180 {} unsafe impl bytemuck::Zeroable for S180 {} unsafe impl bytemuck::AnyBitPattern for S180 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S181 { #[pasture(attribute = "Alpha")] f0: Vector3<u8>, #[pasture(attribute = "Beta 2")] f1: i8, } unsafe impl bytemuck::NoUninit for S181 {} unsafe impl bytemuck::Zeroable for S181 {} unsafe impl bytemuck::AnyBitPattern for S181 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S182 { #[pasture(attribute = "Alpha")] f0: Vector3<u8>, #[pasture(attribute = "Beta 2")] f1: u16, } unsafe impl bytemuck::NoUninit for S182 {} unsafe impl bytemuck::Zeroable for S182 {} unsafe impl bytemuck::AnyBitPattern for S182 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S183 { #[pasture(attribute = "Alpha")] f0: Vector3<u8>, #[pasture(attribute = "Beta 2")] f1: i16, } unsafe impl bytemuck::NoUninit for S183 {} unsafe impl bytemuck::Zeroable for S183 {} unsafe impl bytemuck::AnyBitPattern for S183 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S184 { #[pasture(attribute = "Alpha")] f0: Vector3<u8>, #[pasture(attribute = "Beta 2")] f1: u32, } unsafe impl bytemuck::NoUninit for S184 {} unsafe impl bytemuck::Zeroable for S184 {} unsafe impl bytemuck::AnyBitPattern for S184 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S185 { #[pasture(attribute = "Alpha")] f0: Vector3<u8>, #[pasture(attribute = "Beta 2")] f1: i32, } unsafe impl bytemuck::NoUninit for S185 {} unsafe impl bytemuck::Zeroable for S185 {} unsafe impl bytemuck::AnyBitPattern for S185 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S186 { #[pasture(attribute = "Alpha")] f0: Vector3<u8>, #[pasture(attribute = "Beta 2")] f1: u64, } unsafe impl bytemuck::NoUninit for S186 {} unsafe impl bytemuck::Zeroable for S186 {} unsafe impl bytemuck::AnyBitPattern for S186 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S187 { #[pasture(attribute = "Alpha")] f0: Vector3<u8>, #[pasture(attribute = "Beta 2")] f1: i64, } unsafe impl bytemuck::NoUninit for S187 {} unsafe impl bytemuck::Zeroable for S187 {} unsafe impl bytemuck::AnyBitPattern for S187 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S188 { #[pasture(attribute = "Alpha")] f0: Vector3<u8>, #[pasture(attribute = "Beta 2")] f1: f32, } unsafe impl bytemuck::NoUninit for S188 {} unsafe impl bytemuck::Zeroable for S188 {} unsafe impl bytemuck::AnyBitPattern for S188 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S189 { #[pasture(attribute = "Alpha")] f0: Vector3<u8>, #[pasture(attribute = "Beta 2")] f1: f64, } unsafe impl bytemuck::NoUninit for S189 {} unsafe impl bytemuck::Zeroable for S189 {} unsafe impl bytemuck::AnyBitPattern for S189 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S190 { #[pasture(attribute = "Alpha")] f0: Vector3<u8>, #[pasture(attribute = "Beta 2")] f1: Vector3<u8>, } unsafe impl bytemuck::NoUninit for S190 {} unsafe impl bytemuck::Zeroable for S190 {} unsafe impl bytemuck::AnyBitPattern for S190 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S191 { #[pasture(attribute = "Alpha")] f0: Vector3<u8>, #[pasture(attribute = "Beta 2")] f1: Vector3<u16>, } unsafe impl bytemuck::NoUninit for S191 {} unsafe impl bytemuck::Zeroable for S191 {} unsafe impl bytemuck::AnyBitPattern for S191 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S192 { #[pasture(attribute = "Alpha")] f0: Vector3<u8>, #[pasture(attribute = "Beta 2")] f1: Vector3<f32>, } unsafe impl bytemuck::NoUninit for S192 {} unsafe impl bytemuck::Zeroable for S192 {} unsafe impl bytemuck::AnyBitPattern for S192 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S193 { #[pasture(attribute = "Alpha")] f0: Vector3<u8>, #[pasture(attribute = "Beta 2")] f1: Vector3<i32>, } unsafe impl bytemuck::NoUninit for S193 {} unsafe impl bytemuck::Zeroable for S193 {} unsafe impl bytemuck::AnyBitPattern for S193 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S194 { #[pasture(attribute = "Alpha")] f0: Vector3<u8>, #[pasture(attribute = "Beta 2")] f1: Vector3<f64>, } unsafe impl bytemuck::NoUninit for S194 {} unsafe impl bytemuck::Zeroable for S194 {} unsafe impl bytemuck::AnyBitPattern for S194 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S195 { #[pasture(attribute = "Alpha")] f0: Vector3<u8>, #[pasture(attribute = "Beta 2")] f1: Vector4<u8>, } unsafe impl bytemuck::NoUninit for S195 {} unsafe impl bytemuck::Zeroable for S195 {} unsafe impl bytemuck::AnyBitPattern for S195 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S196 { #[pasture(attribute = "Alpha")] f0: Vector3<u16>, #[pasture(attribute = "Beta 2")] f1: u8, } unsafe impl bytemuck::NoUninit for S196 {} unsafe impl bytemuck::Zeroable for S196 {} unsafe impl bytemuck::AnyBitPattern for S196 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S197 { #[pasture(attribute = "Alpha")] f0: Vector3<u16>, #[pasture(attribute = "Beta 2")] f1: i8, } unsafe impl bytemuck::NoUninit for S197 {} unsafe impl bytemuck::Zeroable for S197 {} unsafe impl bytemuck::AnyBitPattern for S197 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S198 { #[pasture(attribute = "Alpha")] f0: Vector3<u16>, #[pasture(attribute = "Beta 2")] f1: u16, } unsafe impl bytemuck::NoUninit for S198 {} unsafe impl bytemuck::Zeroable for S198 {} unsafe impl bytemuck::AnyBitPattern for S198 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S199 { #[pasture(attribute = "Alpha")] f0: Vector3<u16>, #[pasture(attribute = "Beta 2")] f1: i16, } unsafe impl bytemuck::NoUninit for S199 {} unsafe impl bytemuck::Zeroable for S199 {} unsafe impl bytemuck::AnyBitPattern for S199 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S200 { #[pasture(attribute = "Alpha")] f0: Vector3<u16>, #[pasture(attribute = "Beta 2")] f1: u32, } unsafe impl bytemuck::NoUninit for S200 {} unsafe impl bytemuck::Zeroable for S200 {} unsafe impl bytemuck::AnyBitPattern for S200 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S201 { #[pasture(attribute = "Alpha")] f0: Vector3<u16>, #[pasture(attribute = "Beta 2")] f1: i32, } unsafe impl bytemuck::NoUninit for S201 {} unsafe impl bytemuck::Zeroable for S201 {} unsafe impl bytemuck::AnyBitPattern for S201 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S202 { #[pasture(attribute = "Alpha")] f0: Vector3<u16>, #[pasture(attribute = "Beta 2")] f1: u64, } unsafe impl bytemuck::NoUninit for S202 {} unsafe impl bytemuck::Zeroable for S202 {} unsafe impl bytemuck::AnyBitPattern for S202 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S203 { #[pasture(attribute = "Alpha")] f0: Vector3<u16>, #[pasture(attribute = "Beta 2")] f1: i64, } unsafe impl bytemuck::NoUninit for S203 {} unsafe impl bytemuck::Zeroable for S203 {} unsafe impl bytemuck::AnyBitPattern for S203 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S204 { #[pasture(attribute = "Alpha")] f0: Vector3<u16>, #[pasture(attribute = "Beta 2")] f1: f32, } unsafe impl bytemuck::NoUninit for S204 {} unsafe impl bytemuck::Zeroable for S204 {} unsafe impl bytemuck::AnyBitPattern for S204 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S205 { #[pasture(attribute = "Alpha")] f0: Vector3<u16>, #[pasture(attribute = "Beta 2")] f1: f64, } unsafe impl bytemuck::NoUninit for S205 {} unsafe impl bytemuck::Zeroable for S205 {} unsafe impl bytemuck::AnyBitPattern for S205 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S206 { #[pasture(attribute = "Alpha")] f0: Vector3<u16>, #[pasture(attribute = "Beta 2")] f1: Vector3<u8>, } unsafe impl bytemuck::NoUninit for S206 {} unsafe impl bytemuck::Zeroable for S206 {} unsafe impl bytemuck::AnyBitPattern for S206 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S207 { #[pasture(attribute = "Alpha")] f0: Vector3<u16>, #[pasture(attribute = "Beta 2")] f1: Vector3<u16>, } unsafe impl bytemuck::NoUninit for S207 {} unsafe impl bytemuck::Zeroable for S207 {} unsafe impl bytemuck::AnyBitPattern for S207 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S208 { #[pasture(attribute = "Alpha")] f0: Vector3<u16>, #[pasture(attribute = "Beta 2")] f1: Vector3<f32>, } unsafe impl bytemuck::NoUninit for S208 {} unsafe impl bytemuck::Zeroable for S208 {} unsafe impl bytemuck::AnyBitPattern for S208 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S209 { #[pasture(attribute = "Alpha")] f0: Vector3<u16>, #[pasture(attribute = "Beta 2")] f1: Vector3<i32>, } unsafe impl bytemuck::NoUninit for S209 {} unsafe impl bytemuck::Zeroable for S209 {} unsafe impl bytemuck::AnyBitPattern for S209 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S210 { #[pasture(attribute = "Alpha")] f0: Vector3<u16>, #[pasture(attribute = "Beta 2")] f1: Vector3<f64>, } unsafe impl bytemuck::NoUninit for S210 {} unsafe impl bytemuck::Zeroable for S210 {} unsafe impl bytemuck::AnyBitPattern for S210 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S211 { #[pasture(attribute = "Alpha")] f0: Vector3<u16>, #[pasture(attribute = "Beta 2")] f1: Vector4<u8>, } unsafe impl bytemuck::NoUninit for S211 {} unsafe impl bytemuck::Zeroable for S211 {} unsafe impl bytemuck::AnyBitPattern for S211 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S212 { #[pasture(attribute = "Alpha")] f0: Vector3<f32>, #[pasture(attribute = "Beta 2")] f1: u8, } unsafe impl bytemuck::NoUninit for S212 {} unsafe impl bytemuck::Zeroable for S212 {} unsafe impl bytemuck::AnyBitPattern for S212 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S213 { #[pasture(attribute = "Alpha")] f0: Vector3<f32>, #[pasture(attribute = "Beta 2")] f1: u16, } unsafe impl bytemuck::NoUninit for S213 {} unsafe impl bytemuck::Zeroable for S213 {} unsafe impl bytemuck::AnyBitPattern for S213 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S214 { #[pasture(attribute = "Alpha")] f0: Vector3<f32>, #[pasture(attribute = "Beta 2")] f1: i64, } unsafe impl bytemuck::NoUninit for S214 {} unsafe impl bytemuck::Zeroable for S214 {} unsafe impl bytemuck::AnyBitPattern for S214 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S215 { #[pasture(attribute = "Alpha")] f0: Vector3<f32>, #[pasture(attribute = "Beta 2")] f1: f32, } unsafe impl bytemuck::NoUninit for S215 {} unsafe impl bytemuck::Zeroable for S215 {} unsafe impl bytemuck::AnyBitPattern for S215 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S216 { #[pasture(attribute = "Alpha")] f0: Vector3<f32>, #[pasture(attribute = "Beta 2")] f1: Vector3<u8>, } unsafe impl bytemuck::NoUninit for S216 {} unsafe impl bytemuck::Zeroable for S216 {} unsafe impl bytemuck::AnyBitPattern for S216 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S217 { #[pasture(attribute = "Alpha")] f0: Vector3<f32>, #[pasture(attribute = "Beta 2")] f1: Vector3<u16>, } unsafe impl bytemuck::NoUninit for S217 {} unsafe impl bytemuck::Zeroable for S217 {} unsafe impl bytemuck::AnyBitPattern for S217 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S218 { #[pasture(attribute = "Alpha")] f0: Vector3<i32>, #[pasture(attribute = "Beta 2")] f1: u8, } unsafe impl bytemuck::NoUninit for S218 {} unsafe impl bytemuck::Zeroable for S218 {} unsafe impl bytemuck::AnyBitPattern for S218 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S219 { #[pasture(attribute = "Alpha")] f0: Vector3<i32>, #[pasture(attribute = "Beta 2")] f1: u16, } unsafe impl bytemuck::NoUninit for S219 {} unsafe impl bytemuck::Zeroable for S219 {} unsafe impl bytemuck::AnyBitPattern for S219 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S220 { #[pasture(attribute = "Alpha")] f0: Vector3<i32>, #[pasture(attribute = "Beta 2")] f1: i64, } unsafe impl bytemuck::NoUninit for S220 {} unsafe impl bytemuck::Zeroable for S220 {} unsafe impl bytemuck::AnyBitPattern for S220 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S221 { #[pasture(attribute = "Alpha")] f0: Vector3<i32>, #[pasture(attribute = "Beta 2")] f1: f32, } unsafe impl bytemuck::NoUninit for S221 {} unsafe impl bytemuck::Zeroable for S221 {} unsafe impl bytemuck::AnyBitPattern for S221 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S222 { #[pasture(attribute = "Alpha")] f0: Vector3<i32>, #[pasture(attribute = "Beta 2")] f1: Vector3<u8>, } unsafe impl bytemuck::NoUninit for S222 {} unsafe impl bytemuck::Zeroable for S222 {} unsafe impl bytemuck::AnyBitPattern for S222 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S223 { #[pasture(attribute = "Alpha")] f0: Vector3<i32>, #[pasture(attribute = "Beta 2")] f1: Vector3<u16>, } unsafe impl bytemuck::NoUninit for S223 {} unsafe impl bytemuck::Zeroable for S223 {} unsafe impl bytemuck::AnyBitPattern for S223 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S224 { #[pasture(attribute = "Alpha")] f0: Vector3<f64>, #[pasture(attribute = "Beta 2")] f1: u8, } unsafe impl bytemuck::NoUninit for S224 {} unsafe impl bytemuck::Zeroable for S224 {} unsafe impl bytemuck::AnyBitPattern for S224 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S225 { #[pasture(attribute = "Alpha")] f0: Vector3<f64>, #[pasture(attribute = "Beta 2")] f1: u16, } unsafe impl bytemuck::NoUninit for S225 {} unsafe impl bytemuck::Zeroable for S225 {} unsafe impl bytemuck::AnyBitPattern for S225 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S226 { #[pasture(attribute = "Alpha")] f0: Vector3<f64>, #[pasture(attribute = "Beta 2")] f1: i64, } unsafe impl bytemuck::NoUninit for S226 {} unsafe impl bytemuck::Zeroable for S226 {} unsafe impl bytemuck::AnyBitPattern for S226 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S227 { #[pasture(attribute = "Alpha")] f0: Vector3<f64>, #[pasture(attribute = "Beta 2")] f1: f32, } unsafe impl bytemuck::NoUninit for S227 {} unsafe impl bytemuck::Zeroable for S227 {} unsafe impl bytemuck::AnyBitPattern for S227 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S228 { #[pasture(attribute = "Alpha")] f0: Vector3<f64>, #[pasture(attribute = "Beta 2")] f1: Vector3<u8>, } unsafe impl bytemuck::NoUninit for S228 {} unsafe impl bytemuck::Zeroable for S228 {} unsafe impl bytemuck::AnyBitPattern for S228 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S229 { #[pasture(attribute = "Alpha")] f0: Vector3<f64>, #[pasture(attribute = "Beta 2")] f1: Vector3<u16>, } unsafe impl bytemuck::NoUninit for S229 {} unsafe impl bytemuck::Zeroable for S229 {} unsafe impl bytemuck::AnyBitPattern for S229 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S230 { #[pasture(attribute = "Alpha")] f0: Vector4<u8>, #[pasture(attribute = "Beta 2")] f1: u8, } unsafe impl bytemuck::NoUninit for S230 {} unsafe impl bytemuck::Zeroable for S230 {} unsafe impl bytemuck::AnyBitPattern for S230 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S231 { #[pasture(attribute = "Alpha")] f0: Vector4<u8>, #[pasture(attribute = "Beta 2")] f1: u16, } unsafe impl bytemuck::NoUninit for S231 {} unsafe impl bytemuck::Zeroable for S231 {} unsafe impl bytemuck::AnyBitPattern for S231 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S232 { #[pasture(attribute = "Alpha")] f0: Vector4<u8>, #[pasture(attribute = "Beta 2")] f1: i64, } unsafe impl bytemuck::NoUninit for S232 {} unsafe impl bytemuck::Zeroable for S232 {} unsafe impl bytemuck::AnyBitPattern for S232 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S233 { #[pasture(attribute = "Alpha")] f0: Vector4<u8>, #[pasture(attribute = "Beta 2")] f1: f32, } unsafe impl bytemuck::NoUninit for S233 {} unsafe impl bytemuck::Zeroable for S233 {} unsafe impl bytemuck::AnyBitPattern for S233 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S234 { #[pasture(attribute = "Alpha")] f0: Vector4<u8>, #[pasture(attribute = "Beta 2")] f1: Vector3<u8>, } unsafe impl bytemuck::NoUninit for S234 {} unsafe impl bytemuck::Zeroable for S234 {} unsafe impl bytemuck::AnyBitPattern for S234 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S235 { #[pasture(attribute = "Alpha")] f0: Vector4<u8>, #[pasture(attribute = "Beta 2")] f1: Vector3<u16>, } unsafe impl bytemuck::NoUninit for S235 {} unsafe impl bytemuck::Zeroable for S235 {} unsafe impl bytemuck::AnyBitPattern for S235 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S236 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u8, } unsafe impl bytemuck::NoUninit for S236 {} unsafe impl bytemuck::Zeroable for S236 {} unsafe impl bytemuck::AnyBitPattern for S236 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S237 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: i8, } unsafe impl bytemuck::NoUninit for S237 {} unsafe impl bytemuck::Zeroable for S237 {} unsafe impl bytemuck::AnyBitPattern for S237 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S238 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u16, } unsafe impl bytemuck::NoUninit for S238 {} unsafe impl bytemuck::Zeroable for S238 {} unsafe impl bytemuck::AnyBitPattern for S238 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S239 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: i16, } unsafe impl bytemuck::NoUninit for S239 {} unsafe impl bytemuck::Zeroable for S239 {} unsafe impl bytemuck::AnyBitPattern for S239 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S240 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u32, } unsafe impl bytemuck::NoUninit for S240 {} unsafe impl bytemuck::Zeroable for S240 {} unsafe impl bytemuck::AnyBitPattern for S240 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S241 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: i32, } unsafe impl bytemuck::NoUninit for S241 {} unsafe impl bytemuck::Zeroable for S241 {} unsafe impl bytemuck::AnyBitPattern for S241 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S242 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u64, } unsafe impl bytemuck::NoUninit for S242 {} unsafe impl bytemuck::Zeroable for S242 {} unsafe impl bytemuck::AnyBitPattern for S242 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S243 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: i64, } unsafe impl bytemuck::NoUninit for S243 {} unsafe impl bytemuck::Zeroable for S243 {} unsafe impl bytemuck::AnyBitPattern for S243 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S244 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: f32, } unsafe impl bytemuck::NoUninit for S244 {} unsafe impl bytemuck::Zeroable for S244 {} unsafe impl bytemuck::AnyBitPattern for S244 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S245 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: f64, } unsafe impl bytemuck::NoUninit for S245 {} unsafe impl bytemuck::Zeroable for S245 {} unsafe impl bytemuck::AnyBitPattern for S245 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S246 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: Vector3<u8>, } unsafe impl bytemuck::NoUninit for S246 {} unsafe impl bytemuck::Zeroable for S246 {} unsafe impl bytemuck::AnyBitPattern for S246 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S247 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: Vector3<u16>, } unsafe impl bytemuck::NoUninit for S247 {} unsafe impl bytemuck::Zeroable for S247 {} unsafe impl bytemuck::AnyBitPattern for S247 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S248 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: Vector3<f32>, } unsafe impl bytemuck::NoUninit for S248 {} unsafe impl bytemuck::Zeroable for S248 {} unsafe impl bytemuck::AnyBitPattern for S248 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S249 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: Vector3<i32>, } unsafe impl bytemuck::NoUninit for S249 {} unsafe impl bytemuck::Zeroable for S249 {} unsafe impl bytemuck::AnyBitPattern for S249 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S250 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: Vector3<f64>, } unsafe impl bytemuck::NoUninit for S250 {} unsafe impl bytemuck::Zeroable for S250 {} unsafe impl bytemuck::AnyBitPattern for S250 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S251 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: Vector4<u8>, } unsafe impl bytemuck::NoUninit for S251 {} unsafe impl bytemuck::Zeroable for S251 {} unsafe impl bytemuck::AnyBitPattern for S251 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S252 { #[pasture(attribute = "Alpha")] f0: i8, #[pasture(attribute = "Beta 2")] f1: u8, } unsafe impl bytemuck::NoUninit for S252 {} unsafe impl bytemuck::Zeroable for S252 {} unsafe impl bytemuck::AnyBitPattern for S252 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S253 { #[pasture(attribute = "Alpha")] f0: i8, #[pasture(attribute = "Beta 2")] f1: u16, } unsafe impl bytemuck::NoUninit for S253 {} unsafe impl bytemuck::Zeroable for S253 {} unsafe impl bytemuck::AnyBitPattern for S253 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S254 { #[pasture(attribute = "Alpha")] f0: i8, #[pasture(attribute = "Beta 2")] f1: i64, } unsafe impl bytemuck::NoUninit for S254 {} unsafe impl bytemuck::Zeroable for S254 {} unsafe impl bytemuck::AnyBitPattern for S254 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S255 { #[pasture(attribute = "Alpha")] f0: i8, #[pasture(attribute = "Beta 2")] f1: f32, } unsafe impl bytemuck::NoUninit for S255 {} unsafe impl bytemuck::Zeroable for S255 {} unsafe impl bytemuck::AnyBitPattern for S255 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S256 { #[pasture(attribute = "Alpha")] f0: i8, #[pasture(attribute = "Beta 2")] f1: Vector3<u8>, } unsafe impl bytemuck::NoUninit for S256 {} unsafe impl bytemuck::Zeroable for S256 {} unsafe impl bytemuck::AnyBitPattern for S256 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S257 { #[pasture(attribute = "Alpha")] f0: i8, #[pasture(attribute = "Beta 2")] f1: Vector3<u16>, } unsafe impl bytemuck::NoUninit for S257 {} unsafe impl bytemuck::Zeroable for S257 {} unsafe impl bytemuck::AnyBitPattern for S257 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S258 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u8, } unsafe impl bytemuck::NoUninit for S258 {} unsafe impl bytemuck::Zeroable for S258 {} unsafe impl bytemuck::AnyBitPattern for S258 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S259 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: i8, } unsafe impl bytemuck::NoUninit for S259 {} unsafe impl bytemuck::Zeroable for S259 {} unsafe impl bytemuck::AnyBitPattern for S259 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S260 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u16, } unsafe impl bytemuck::NoUninit for S260 {} unsafe impl bytemuck::Zeroable for S260 {} unsafe impl bytemuck::AnyBitPattern for S260 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S261 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: i16, } unsafe impl bytemuck::NoUninit for S261 {} unsafe impl bytemuck::Zeroable for S261 {} unsafe impl bytemuck::AnyBitPattern for S261 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S262 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u32, } unsafe impl bytemuck::NoUninit for S262 {} unsafe impl bytemuck::Zeroable for S262 {} unsafe impl bytemuck::AnyBitPattern for S262 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S263 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: i32, } unsafe impl bytemuck::NoUninit for S263 {} unsafe impl bytemuck::Zeroable for S263 {} unsafe impl bytemuck::AnyBitPattern for S263 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S264 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u64, } unsafe impl bytemuck::NoUninit for S264 {} unsafe impl bytemuck::Zeroable for S264 {} unsafe impl bytemuck::AnyBitPattern for S264 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S265 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: i64, } unsafe impl bytemuck::NoUninit for S265 {} unsafe impl bytemuck::Zeroable for S265 {} unsafe impl bytemuck::AnyBitPattern for S265 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S266 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: f32, } unsafe impl bytemuck::NoUninit for S266 {} unsafe impl bytemuck::Zeroable for S266 {} unsafe impl bytemuck::AnyBitPattern for S266 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S267 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: f64, } unsafe impl bytemuck::NoUninit for S267 {} unsafe impl bytemuck::Zeroable for S267 {} unsafe impl bytemuck::AnyBitPattern for S267 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S268 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: Vector3<u8>, } unsafe impl bytemuck::NoUninit for S268 {} unsafe impl bytemuck::Zeroable for S268 {} unsafe impl bytemuck::AnyBitPattern for S268 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S269 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: Vector3<u16>, } unsafe impl bytemuck::NoUninit for S269 {} unsafe impl bytemuck::Zeroable for S269 {} unsafe impl bytemuck::AnyBitPattern for S269 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S270 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: Vector3<f32>, } unsafe impl bytemuck::NoUninit for S270 {} unsafe impl bytemuck::Zeroable for S270 {} unsafe impl bytemuck::AnyBitPattern for S270 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S271 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: Vector3<i32>, } unsafe impl bytemuck::NoUninit for S271 {} unsafe impl bytemuck::Zeroable for S271 {} unsafe impl bytemuck::AnyBitPattern for S271 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S272 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: Vector3<f64>, } unsafe impl bytemuck::NoUninit for S272 {} unsafe impl bytemuck::Zeroable for S272 {} unsafe impl bytemuck::AnyBitPattern for S272 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S273 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: Vector4<u8>, } unsafe impl bytemuck::NoUninit for S273 {} unsafe impl bytemuck::Zeroable for S273 {} unsafe impl bytemuck::AnyBitPattern for S273 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S274 { #[pasture(attribute = "Alpha")] f0: i16, #[pasture(attribute = "Beta 2")] f1: u8, } unsafe impl bytemuck::NoUninit for S274 {} unsafe impl bytemuck::Zeroable for S274 {} unsafe impl bytemuck::AnyBitPattern for S274 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S275 { #[pasture(attribute = "Alpha")] f0: i16, #[pasture(attribute = "Beta 2")] f1: u16, } unsafe impl bytemuck::NoUninit for S275 {} unsafe impl bytemuck::Zeroable for S275 {} unsafe impl bytemuck::AnyBitPattern for S275 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S276 { #[pasture(attribute = "Alpha")] f0: i16, #[pasture(attribute = "Beta 2")] f1: i64, } unsafe impl bytemuck::NoUninit for S276 {} unsafe impl bytemuck::Zeroable for S276 {} unsafe impl bytemuck::AnyBitPattern for S276 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S277 { #[pasture(attribute = "Alpha")] f0: i16, #[pasture(attribute = "Beta 2")] f1: f32, } unsafe impl bytemuck::NoUninit for S277 {} unsafe impl bytemuck::Zeroable for S277 {} unsafe impl bytemuck::AnyBitPattern for S277 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S278 { #[pasture(attribute = "Alpha")] f0: i16, #[pasture(attribute = "Beta 2")] f1: Vector3<u8>, } unsafe impl bytemuck::NoUninit for S278 {} unsafe impl bytemuck::Zeroable for S278 {} unsafe impl bytemuck::AnyBitPattern for S278 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S279 { #[pasture(attribute = "Alpha")] f0: i16, #[pasture(attribute = "Beta 2")] f1: Vector3<u16>, } unsafe impl bytemuck::NoUninit for S279 {} unsafe impl bytemuck::Zeroable for S279 {} unsafe impl bytemuck::AnyBitPattern for S279 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S280 { #[pasture(attribute = "Alpha")] f0: u32, #[pasture(attribute = "Beta 2")] f1: u8, } unsafe impl bytemuck::NoUninit for S280 {} unsafe impl bytemuck::Zeroable for S280 {} unsafe impl bytemuck::AnyBitPattern for S280 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S281 { #[pasture(attribute = "Alpha")] f0: u32, #[pasture(attribute = "Beta 2")] f1: u16, } unsafe impl bytemuck::NoUninit for S281 {} unsafe impl bytemuck::Zeroable for S281 {} unsafe impl bytemuck::AnyBitPattern for S281 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S282 { #[pasture(attribute = "Alpha")] f0: u32, #[pasture(attribute = "Beta 2")] f1: i64, } unsafe impl bytemuck::NoUninit for S282 {} unsafe impl bytemuck::Zeroable for S282 {} unsafe impl bytemuck::AnyBitPattern for S282 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S283 { #[pasture(attribute = "Alpha")] f0: u32, #[pasture(attribute = "Beta 2")] f1: f32, } unsafe impl bytemuck::NoUninit for S283 {} unsafe impl bytemuck::Zeroable for S283 {} unsafe impl bytemuck::AnyBitPattern for S283 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S284 { #[pasture(attribute = "Alpha")] f0: u32, #[pasture(attribute = "Beta 2")] f1: Vector3<u8>, } unsafe impl bytemuck::NoUninit for S284 {} unsafe impl bytemuck::Zeroable for S284 {} unsafe impl bytemuck::AnyBitPattern for S284 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S285 { #[pasture(attribute = "Alpha")] f0: u32, #[pasture(attribute = "Beta 2")] f1: Vector3<u16>, } unsafe impl bytemuck::NoUninit for S285 {} unsafe impl bytemuck::Zeroable for S285 {} unsafe impl bytemuck::AnyBitPattern for S285 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S286 { #[pasture(attribute = "Alpha")] f0: i32, #[pasture(attribute = "Beta 2")] f1: u8, } unsafe impl bytemuck::NoUninit for S286 {} unsafe impl bytemuck::Zeroable for S286 {} unsafe impl bytemuck::AnyBitPattern for S286 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S287 { #[pasture(attribute = "Alpha")] f0: i32, #[pasture(attribute = "Beta 2")] f1: u16, } unsafe impl bytemuck::NoUninit for S287 {} unsafe impl bytemuck::Zeroable for S287 {} unsafe impl bytemuck::AnyBitPattern for S287 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S288 { #[pasture(attribute = "Alpha")] f0: i32, #[pasture(attribute = "Beta 2")] f1: i64, } unsafe impl bytemuck::NoUninit for S288 {} unsafe impl bytemuck::Zeroable for S288 {} unsafe impl bytemuck::AnyBitPattern for S288 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S289 { #[pasture(attribute = "Alpha")] f0: i32, #[pasture(attribute = "Beta 2")] f1: f32, } unsafe impl bytemuck::NoUninit for S289 {} unsafe impl bytemuck::Zeroable for S289 {} unsafe impl bytemuck::AnyBitPattern for S289 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S290 { #[pasture(attribute = "Alpha")] f0: i32, #[pasture(attribute = "Beta 2")] f1: Vector3<u8>, } unsafe impl bytemuck::NoUninit for S290 {} unsafe impl bytemuck::Zeroable for S290 {} unsafe impl bytemuck::AnyBitPattern for S290 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S291 { #[pasture(attribute = "Alpha")] f0: i32, #[pasture(attribute = "Beta 2")] f1: Vector3<u16>, } unsafe impl bytemuck::NoUninit for S291 {} unsafe impl bytemuck::Zeroable for S291 {} unsafe impl bytemuck::AnyBitPattern for S291 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S292 { #[pasture(attribute = "Alpha")] f0: u64, #[pasture(attribute = "Beta 2")] f1: u8, } unsafe impl bytemuck::NoUninit for S292 {} unsafe impl bytemuck::Zeroable for S292 {} unsafe impl bytemuck::AnyBitPattern for S292 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S293 { #[pasture(attribute = "Alpha")] f0: u64, #[pasture(attribute = "Beta 2")] f1: u16, } unsafe impl bytemuck::NoUninit for S293 {} unsafe impl bytemuck::Zeroable for S293 {} unsafe impl bytemuck::AnyBitPattern for S293 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S294 { #[pasture(attribute = "Alpha")] f0: u64, #[pasture(attribute = "Beta 2")] f1: i64, } unsafe impl bytemuck::NoUninit for S294 {} unsafe impl bytemuck::Zeroable for S294 {} unsafe impl bytemuck::AnyBitPattern for S294 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S295 { #[pasture(attribute = "Alpha")] f0: u64, #[pasture(attribute = "Beta 2")] f1: f32, } unsafe impl bytemuck::NoUninit for S295 {} unsafe impl bytemuck::Zeroable for S295 {} unsafe impl bytemuck::AnyBitPattern for S295 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S296 { #[pasture(attribute = "Alpha")] f0: u64, #[pasture(attribute = "Beta 2")] f1: Vector3<u8>, } unsafe impl bytemuck::NoUninit for S296 {} unsafe impl bytemuck::Zeroable for S296 {} unsafe impl bytemuck::AnyBitPattern for S296 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S297 { #[pasture(attribute = "Alpha")] f0: u64, #[pasture(attribute = "Beta 2")] f1: Vector3<u16>, } unsafe impl bytemuck::NoUninit for S297 {} unsafe impl bytemuck::Zeroable for S297 {} unsafe impl bytemuck::AnyBitPattern for S297 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S298 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: u8, } unsafe impl bytemuck::NoUninit for S298 {} unsafe impl bytemuck::Zeroable for S298 {} unsafe impl bytemuck::AnyBitPattern for S298 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S299 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: i8, } unsafe impl bytemuck::NoUninit for S299 {} unsafe impl bytemuck::Zeroable for S299 {} unsafe impl bytemuck::AnyBitPattern for S299 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S300 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: u16, } unsafe impl bytemuck::NoUninit for S300 {} unsafe impl bytemuck::Zeroable for S300 {} unsafe impl bytemuck::AnyBitPattern for S300 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S301 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: i16, } unsafe impl bytemuck::NoUninit for S301 {} unsafe impl bytemuck::Zeroable for S301 {} unsafe impl bytemuck::AnyBitPattern for S301 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S302 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: u32, } unsafe impl bytemuck::NoUninit for S302 {} unsafe impl bytemuck::Zeroable for S302 {} unsafe impl bytemuck::AnyBitPattern for S302 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S303 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: i32, } unsafe impl bytemuck::NoUninit for S303 {} unsafe impl bytemuck::Zeroable for S303 {} unsafe impl bytemuck::AnyBitPattern for S303 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S304 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: u64, } unsafe impl bytemuck::NoUninit for S304 {} unsafe impl bytemuck::Zeroable for S304 {} unsafe impl bytemuck::AnyBitPattern for S304 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S305 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: i64, } unsafe impl bytemuck::NoUninit for S305 {} unsafe impl bytemuck::Zeroable for S305 {} unsafe impl bytemuck::AnyBitPattern for S305 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S306 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: f32, } unsafe impl bytemuck::NoUninit for S306 {} unsafe impl bytemuck::Zeroable for S306 {} unsafe impl bytemuck::AnyBitPattern for S306 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S307 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: f64, } unsafe impl bytemuck::NoUninit for S307 {} unsafe impl bytemuck::Zeroable for S307 {} unsafe impl bytemuck::AnyBitPattern for S307 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S308 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: Vector3<u8>, } unsafe impl bytemuck::NoUninit for S308 {} unsafe impl bytemuck::Zeroable for S308 {} unsafe impl bytemuck::AnyBitPattern for S308 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S309 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: Vector3<u16>, } unsafe impl bytemuck::NoUninit for S309 {} unsafe impl bytemuck::Zeroable for S309 {} unsafe impl bytemuck::AnyBitPattern for S309 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S310 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: Vector3<f32>, } unsafe impl bytemuck::NoUninit for S310 {} unsafe impl bytemuck::Zeroable for S310 {} unsafe impl bytemuck::AnyBitPattern for S310 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S311 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: Vector3<i32>, } unsafe impl bytemuck::NoUninit for S311 {} unsafe impl bytemuck::Zeroable for S311 {} unsafe impl bytemuck::AnyBitPattern for S311 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S312 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: Vector3<f64>, } unsafe impl bytemuck::NoUninit for S312 {} unsafe impl bytemuck::Zeroable for S312 {} unsafe impl bytemuck::AnyBitPattern for S312 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S313 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: Vector4<u8>, } unsafe impl bytemuck::NoUninit for S313 {} unsafe impl bytemuck::Zeroable for S313 {} unsafe impl bytemuck::AnyBitPattern for S313 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S314 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: u8, } unsafe impl bytemuck::NoUninit for S314 {} unsafe impl bytemuck::Zeroable for S314 {} unsafe impl bytemuck::AnyBitPattern for S314 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S315 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: i8, } unsafe impl bytemuck::NoUninit for S315 {} unsafe impl bytemuck::Zeroable for S315 {} unsafe impl bytemuck::AnyBitPattern for S315 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S316 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: u16, } unsafe impl bytemuck::NoUninit for S316 {} unsafe impl bytemuck::Zeroable for S316 {} unsafe impl bytemuck::AnyBitPattern for S316 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S317 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: i16, } unsafe impl bytemuck::NoUninit for S317 {} unsafe impl bytemuck::Zeroable for S317 {} unsafe impl bytemuck::AnyBitPattern for S317 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S318 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: u32, } unsafe impl bytemuck::NoUninit for S318 {} unsafe impl bytemuck::Zeroable for S318 {} unsafe impl bytemuck::AnyBitPattern for S318 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S319 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: i32, } unsafe impl bytemuck::NoUninit for S319 {} unsafe impl bytemuck::Zeroable for S319 {} unsafe impl bytemuck::AnyBitPattern for S319 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S320 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: u64, } unsafe impl bytemuck::NoUninit for S320 {} unsafe impl bytemuck::Zeroable for S320 {} unsafe impl bytemuck::AnyBitPattern for S320 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S321 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: i64, } unsafe impl bytemuck::NoUninit for S321 {} unsafe impl bytemuck::Zeroable for S321 {} unsafe impl bytemuck::AnyBitPattern for S321 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S322 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: f32, } unsafe impl bytemuck::NoUninit for S322 {} unsafe impl bytemuck::Zeroable for S322 {} unsafe impl bytemuck::AnyBitPattern for S322 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S323 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: f64, } unsafe impl bytemuck::NoUninit for S323 {} unsafe impl bytemuck::Zeroable for S323 {} unsafe impl bytemuck::AnyBitPattern for S323 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S324 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: Vector3<u8>, } unsafe impl bytemuck::NoUninit for S324 {} unsafe impl bytemuck::Zeroable for S324 {} unsafe impl bytemuck::AnyBitPattern for S324 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S325 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: Vector3<u16>, } unsafe impl bytemuck::NoUninit for S325 {} unsafe impl bytemuck::Zeroable for S325 {} unsafe impl bytemuck::AnyBitPattern for S325 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S326 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: Vector3<f32>, } unsafe impl bytemuck::NoUninit for S326 {} unsafe impl bytemuck::Zeroable for S326 {} unsafe impl bytemuck::AnyBitPattern for S326 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S327 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: Vector3<i32>, } unsafe impl bytemuck::NoUninit for S327 {} unsafe impl bytemuck::Zeroable for S327 {} unsafe impl bytemuck::AnyBitPattern for S327 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S328 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: Vector3<f64>, } unsafe impl bytemuck::NoUninit for S328 {} unsafe impl bytemuck::Zeroable for S328 {} unsafe impl bytemuck::AnyBitPattern for S328 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S329 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: Vector4<u8>, } unsafe impl bytemuck::NoUninit for S329 {} unsafe impl bytemuck::Zeroable for S329 {} unsafe impl bytemuck::AnyBitPattern for S329 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S330 { #[pasture(attribute = "Alpha")] f0: f64, #[pasture(attribute = "Beta 2")] f1: u8, } unsafe impl bytemuck::NoUninit for S330 {} unsafe impl bytemuck::Zeroable for S330 {} unsafe impl bytemuck::AnyBitPattern for S330 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S331 { #[pasture(attribute = "Alpha")] f0: f64, #[pasture(attribute = "Beta 2")] f1: u16, } unsafe impl bytemuck::NoUninit for S331 {} unsafe impl bytemuck::Zeroable for S331 {} unsafe impl bytemuck::AnyBitPattern for S331 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S332 { #[pasture(attribute = "Alpha")] f0: f64, #[pasture(attribute = "Beta 2")] f1: i64, } unsafe impl bytemuck::NoUninit for S332 {} unsafe impl bytemuck::Zeroable for S332 {} unsafe impl bytemuck::AnyBitPattern for S332 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S333 { #[pasture(attribute = "Alpha")] f0: f64, #[pasture(attribute = "Beta 2")] f1: f32, } unsafe impl bytemuck::NoUninit for S333 {} unsafe impl bytemuck::Zeroable for S333 {} unsafe impl bytemuck::AnyBitPattern for S333 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S334 { #[pasture(attribute = "Alpha")] f0: f64, #[pasture(attribute = "Beta 2")] f1: Vector3<u8>, } unsafe impl bytemuck::NoUninit for S334 {} unsafe impl bytemuck::Zeroable for S334 {} unsafe impl bytemuck::AnyBitPattern for S334 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S335 { #[pasture(attribute = "Alpha")] f0: f64, #[pasture(attribute = "Beta 2")] f1: Vector3<u16>, } unsafe impl bytemuck::NoUninit for S335 {} unsafe impl bytemuck::Zeroable for S335 {} unsafe impl bytemuck::AnyBitPattern for S335 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S336 { #[pasture(attribute = "Alpha")] f0: Vector3<u8>, #[pasture(attribute = "Beta 2")] f1: u8, } unsafe impl bytemuck::NoUninit for S336 {} unsafe impl bytemuck::Zeroable for S336 {} unsafe impl bytemuck::AnyBitPattern for S336 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S337 { #[pasture(attribute = "Alpha")] f0: Vector3<u8>, #[pasture(attribute = "Beta 2")] f1: i8, } unsafe impl bytemuck::NoUninit for S337 {} unsafe impl bytemuck::Zeroable for S337 {} unsafe impl bytemuck::AnyBitPattern for S337 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S338 { #[pasture(attribute = "Alpha")] f0: Vector3<u8>, #[pasture(attribute = "Beta 2")] f1: u16, } unsafe impl bytemuck::NoUninit for S338 {} unsafe impl bytemuck::Zeroable for S338 {} unsafe impl bytemuck::AnyBitPattern for S338 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S339 { #[pasture(attribute = "Alpha")] f0: Vector3<u8>, #[pasture(attribute = "Beta 2")] f1: i16, } unsafe impl bytemuck::NoUninit for S339 {} unsafe impl bytemuck::Zeroable for S339 {} unsafe impl bytemuck::AnyBitPattern for S339 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S340 { #[pasture(attribute = "Alpha")] f0: Vector3<u8>, #[pasture(attribute = "Beta 2")] f1: u32, } unsafe impl bytemuck::NoUninit for S340 {} unsafe impl bytemuck::Zeroable for S340 {} unsafe impl bytemuck::AnyBitPattern for S340 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S341 { #[pasture(attribute = "Alpha")] f0: Vector3<u8>, #[pasture(attribute = "Beta 2")] f1: i32, } unsafe impl bytemuck::NoUninit for S341 {} unsafe impl bytemuck::Zeroable for S341 {} unsafe impl bytemuck::AnyBitPattern for S341 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S342 { #[pasture(attribute = "Alpha")] f0: Vector3<u8>, #[pasture(attribute = "Beta 2")] f1: u64, } unsafe impl bytemuck::NoUninit for S342 {} unsafe impl bytemuck::Zeroable for S342 {} unsafe impl bytemuck::AnyBitPattern for S342 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S343 { #[pasture(attribute = "Alpha")] f0: Vector3<u8>, #[pasture(attribute = "Beta 2")] f1: i64, } unsafe impl bytemuck::NoUninit for S343 {} unsafe impl bytemuck::Zeroable for S343 {} unsafe impl bytemuck::AnyBitPattern for S343 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S344 { #[pasture(attribute = "Alpha")] f0: Vector3<u8>, #[pasture(attribute = "Beta 2")] f1: f32, } unsafe impl bytemuck::NoUninit for S344 {} unsafe impl bytemuck::Zeroable for S344 {} unsafe impl bytemuck::AnyBitPattern for S344 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S345 { #[pasture(attribute = "Alpha")] f0: Vector3<u8>, #[pasture(attribute = "Beta 2")] f1: f64, } unsafe impl bytemuck::NoUninit for S345 {} unsafe impl bytemuck::Zeroable for S345 {} unsafe impl bytemuck::AnyBitPattern for S345 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S346 { #[pasture(attribute = "Alpha")] f0: Vector3<u8>, #[pasture(attribute = "Beta 2")] f1: Vector3<u8>, } unsafe impl bytemuck::NoUninit for S346 {} unsafe impl bytemuck::Zeroable for S346 {} unsafe impl bytemuck::AnyBitPattern for S346 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S347 { #[pasture(attribute = "Alpha")] f0: Vector3<u8>, #[pasture(attribute = "Beta 2")] f1: Vector3<u16>, } unsafe impl bytemuck::NoUninit for S347 {} unsafe impl bytemuck::Zeroable for S347 {} unsafe impl bytemuck::AnyBitPattern for S347 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S348 { #[pasture(attribute = "Alpha")] f0: Vector3<u8>, #[pasture(attribute = "Beta 2")] f1: Vector3<f32>, } unsafe impl bytemuck::NoUninit for S348 {} unsafe impl bytemuck::Zeroable for S348 {} unsafe impl bytemuck::AnyBitPattern for S348 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S349 { #[pasture(attribute = "Alpha")] f0: Vector3<u8>, #[pasture(attribute = "Beta 2")] f1: Vector3<i32>, } unsafe impl bytemuck::NoUninit for S349 {} unsafe impl bytemuck::Zeroable for S349 {} unsafe impl bytemuck::AnyBitPattern for S349 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S350 { #[pasture(attribute = "Alpha")] f0: Vector3<u8>, #[pasture(attribute = "Beta 2")] f1: Vector3<f64>, } unsafe impl bytemuck::NoUninit for S350 {} unsafe impl bytemuck::Zeroable for S350 {} unsafe impl bytemuck::AnyBitPattern for S350 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S351 { #[pasture(attribute = "Alpha")] f0: Vector3<u8>, #[pasture(attribute = "Beta 2")] f1: Vector4<u8>, } unsafe impl bytemuck::NoUninit for S351 {} unsafe impl bytemuck::Zeroable for S351 {} unsafe impl bytemuck::AnyBitPattern for S351 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S352 { #[pasture(attribute = "Alpha")] f0: Vector3<u16>, #[pasture(attribute = "Beta 2")] f1: u8, } unsafe impl bytemuck::NoUninit for S352 {} unsafe impl bytemuck::Zeroable for S352 {} unsafe impl bytemuck::AnyBitPattern for S352 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S353 { #[pasture(attribute = "Alpha")] f0: Vector3<u16>, #[pasture(attribute = "Beta 2")] f1: i8, } unsafe impl bytemuck::NoUninit for S353 {} unsafe impl bytemuck::Zeroable for S353 {} unsafe impl bytemuck::AnyBitPattern for S353 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S354 { #[pasture(attribute = "Alpha")] f0: Vector3<u16>, #[pasture(attribute = "Beta 2")] f1: u16, } unsafe impl bytemuck::NoUninit for S354 {} unsafe impl bytemuck::Zeroable for S354 {} unsafe impl bytemuck::AnyBitPattern for S354 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S355 { #[pasture(attribute = "Alpha")] f0: Vector3<u16>, #[pasture(attribute = "Beta 2")] f1: i16, } unsafe impl bytemuck::NoUninit for S355 {} unsafe impl bytemuck::Zeroable for S355 {} unsafe impl bytemuck::AnyBitPattern for S355 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S356 { #[pasture(attribute = "Alpha")] f0: Vector3<u16>, #[pasture(attribute = "Beta 2")] f1: u32, } unsafe impl bytemuck::NoUninit for S356 {} unsafe impl bytemuck::Zeroable for S356 {} unsafe impl bytemuck::AnyBitPattern for S356 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S357 { #[pasture(attribute = "Alpha")] f0: Vector3<u16>, #[pasture(attribute = "Beta 2")] f1: i32, } unsafe impl bytemuck::NoUninit for S357 {} unsafe impl bytemuck::Zeroable for S357 {} unsafe impl bytemuck::AnyBitPattern for S357 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S358 { #[pasture(attribute = "Alpha")] f0: Vector3<u16>, #[pasture(attribute = "Beta 2")] f1: u64, } unsafe impl bytemuck::NoUninit for S358 {} unsafe impl bytemuck::Zeroable for S358 {} unsafe impl bytemuck::AnyBitPattern for S358 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S359 { #[pasture(attribute = "Alpha")] f0: Vector3<u16>, #[pasture(attribute = "Beta 2")] f1: i64, } unsafe impl bytemuck::NoUninit for S359 {} unsafe impl bytemuck::Zeroable for S359 {} unsafe impl bytemuck::AnyBitPattern for S359 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S360 { #[pasture(attribute = "Alpha")] f0: Vector3<u16>, #[pasture(attribute = "Beta 2")] f1: f32, } unsafe impl bytemuck::NoUninit for S360 {} unsafe impl bytemuck::Zeroable for S360 {} unsafe impl bytemuck::AnyBitPattern for S360 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S361 { #[pasture(attribute = "Alpha")] f0: Vector3<u16>, #[pasture(attribute = "Beta 2")] f1: f64, } unsafe impl bytemuck::NoUninit for S361 {} unsafe impl bytemuck::Zeroable for S361 {} unsafe impl bytemuck::AnyBitPattern for S361 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S362 { #[pasture(attribute = "Alpha")] f0: Vector3<u16>, #[pasture(attribute = "Beta 2")] f1: Vector3<u8>, } unsafe impl bytemuck::NoUninit for S362 {} unsafe impl bytemuck::Zeroable for S362 {} unsafe impl bytemuck::AnyBitPattern for S362 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S363 { #[pasture(attribute = "Alpha")] f0: Vector3<u16>, #[pasture(attribute = "Beta 2")] f1: Vector3<u16>, } unsafe impl bytemuck::NoUninit for S363 {} unsafe impl bytemuck::Zeroable for S363 {} unsafe impl bytemuck::AnyBitPattern for S363 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S364 { #[pasture(attribute = "Alpha")] f0: Vector3<u16>, #[pasture(attribute = "Beta 2")] f1: Vector3<f32>, } unsafe impl bytemuck::NoUninit for S364 {} unsafe impl bytemuck::Zeroable for S364 {} unsafe impl bytemuck::AnyBitPattern for S364 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S365 { #[pasture(attribute = "Alpha")] f0: Vector3<u16>, #[pasture(attribute = "Beta 2")] f1: Vector3<i32>, } unsafe impl bytemuck::NoUninit for S365 {} unsafe impl bytemuck::Zeroable for S365 {} unsafe impl bytemuck::AnyBitPattern for S365 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S366 { #[pasture(attribute = "Alpha")] f0: Vector3<u16>, #[pasture(attribute = "Beta 2")] f1: Vector3<f64>, } unsafe impl bytemuck::NoUninit for S366 {} unsafe impl bytemuck::Zeroable for S366 {} unsafe impl bytemuck::AnyBitPattern for S366 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S367 { #[pasture(attribute = "Alpha")] f0: Vector3<u16>, #[pasture(attribute = "Beta 2")] f1: Vector4<u8>, } unsafe impl bytemuck::NoUninit for S367 {} unsafe impl bytemuck::Zeroable for S367 {} unsafe impl bytemuck::AnyBitPattern for S367 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S368 { #[pasture(attribute = "Alpha")] f0: Vector3<f32>, #[pasture(attribute = "Beta 2")] f1: u8, } unsafe impl bytemuck::NoUninit for S368 {} unsafe impl bytemuck::Zeroable for S368 {} unsafe impl bytemuck::AnyBitPattern for S368 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S369 { #[pasture(attribute = "Alpha")] f0: Vector3<f32>, #[pasture(attribute = "Beta 2")] f1: u16, } unsafe impl bytemuck::NoUninit for S369 {} unsafe impl bytemuck::Zeroable for S369 {} unsafe impl bytemuck::AnyBitPattern for S369 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S370 { #[pasture(attribute = "Alpha")] f0: Vector3<f32>, #[pasture(attribute = "Beta 2")] f1: i64, } unsafe impl bytemuck::NoUninit for S370 {} unsafe impl bytemuck::Zeroable for S370 {} unsafe impl bytemuck::AnyBitPattern for S370 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S371 { #[pasture(attribute = "Alpha")] f0: Vector3<f32>, #[pasture(attribute = "Beta 2")] f1: f32, } unsafe impl bytemuck::NoUninit for S371 {} unsafe impl bytemuck::Zeroable for S371 {} unsafe impl bytemuck::AnyBitPattern for S371 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S372 { #[pasture(attribute = "Alpha")] f0: Vector3<f32>, #[pasture(attribute = "Beta 2")] f1: Vector3<u8>, } unsafe impl bytemuck::NoUninit for S372 {} unsafe impl bytemuck::Zeroable for S372 {} unsafe impl bytemuck::AnyBitPattern for S372 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S373 { #[pasture(attribute = "Alpha")] f0: Vector3<f32>, #[pasture(attribute = "Beta 2")] f1: Vector3<u16>, } unsafe impl bytemuck::NoUninit for S373 {} unsafe impl bytemuck::Zeroable for S373 {} unsafe impl bytemuck::AnyBitPattern for S373 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S374 { #[pasture(attribute = "Alpha")] f0: Vector3<i32>, #[pasture(attribute = "Beta 2")] f1: u8, } unsafe impl bytemuck::NoUninit for S374 {} unsafe impl bytemuck::Zeroable for S374 {} unsafe impl bytemuck::AnyBitPattern for S374 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S375 { #[pasture(attribute = "Alpha")] f0: Vector3<i32>, #[pasture(attribute = "Beta 2")] f1: u16, } unsafe impl bytemuck::NoUninit for S375 {} unsafe impl bytemuck::Zeroable for S375 {} unsafe impl bytemuck::AnyBitPattern for S375 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S376 { #[pasture(attribute = "Alpha")] f0: Vector3<i32>, #[pasture(attribute = "Beta 2")] f1: i64, } unsafe impl bytemuck::NoUninit for S376 {} unsafe impl bytemuck::Zeroable for S376 {} unsafe impl bytemuck::AnyBitPattern for S376 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S377 { #[pasture(attribute = "Alpha")] f0: Vector3<i32>, #[pasture(attribute = "Beta 2")] f1: f32, } unsafe impl bytemuck::NoUninit for S377 {} unsafe impl bytemuck::Zeroable for S377 {} unsafe impl bytemuck::AnyBitPattern for S377 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S378 { #[pasture(attribute = "Alpha")] f0: Vector3<i32>, #[pasture(attribute = "Beta 2")] f1: Vector3<u8>, } unsafe impl bytemuck::NoUninit for S378 {} unsafe impl bytemuck::Zeroable for S378 {} unsafe impl bytemuck::AnyBitPattern for S378 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S379 { #[pasture(attribute = "Alpha")] f0: Vector3<i32>, #[pasture(attribute = "Beta 2")] f1: Vector3<u16>, } unsafe impl bytemuck::NoUninit for S379 {} unsafe impl bytemuck::Zeroable for S379 {} unsafe impl bytemuck::AnyBitPattern for S379 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S380 { #[pasture(attribute = "Alpha")] f0: Vector3<f64>, #[pasture(attribute = "Beta 2")] f1: u8, } unsafe impl bytemuck::NoUninit for S380 {} unsafe impl bytemuck::Zeroable for S380 {} unsafe impl bytemuck::AnyBitPattern for S380 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S381 { #[pasture(attribute = "Alpha")] f0: Vector3<f64>, #[pasture(attribute = "Beta 2")] f1: u16, } unsafe impl bytemuck::NoUninit for S381 {} unsafe impl bytemuck::Zeroable for S381 {} unsafe impl bytemuck::AnyBitPattern for S381 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S382 { #[pasture(attribute = "Alpha")] f0: Vector3<f64>, #[pasture(attribute = "Beta 2")] f1: i64, } unsafe impl bytemuck::NoUninit for S382 {} unsafe impl bytemuck::Zeroable for S382 {} unsafe impl bytemuck::AnyBitPattern for S382 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S383 { #[pasture(attribute = "Alpha")] f0: Vector3<f64>, #[pasture(attribute = "Beta 2")] f1: f32, } unsafe impl bytemuck::NoUninit for S383 {} unsafe impl bytemuck::Zeroable for S383 {} unsafe impl bytemuck::AnyBitPattern for S383 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S384 { #[pasture(attribute = "Alpha")] f0: Vector3<f64>, #[pasture(attribute = "Beta 2")] f1: Vector3<u8>, } unsafe impl bytemuck::NoUninit for S384 {} unsafe impl bytemuck::Zeroable for S384 {} unsafe impl bytemuck::AnyBitPattern for S384 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S385 { #[pasture(attribute = "Alpha")] f0: Vector3<f64>, #[pasture(attribute = "Beta 2")] f1: Vector3<u16>, } unsafe impl bytemuck::NoUninit for S385 {} unsafe impl bytemuck::Zeroable for S385 {} unsafe impl bytemuck::AnyBitPattern for S385 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S386 { #[pasture(attribute = "Alpha")] f0: Vector4<u8>, #[pasture(attribute = "Beta 2")] f1: u8, } unsafe impl bytemuck::NoUninit for S386 {} unsafe impl bytemuck::Zeroable for S386 {} unsafe impl bytemuck::AnyBitPattern for S386 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S387 { #[pasture(attribute = "Alpha")] f0: Vector4<u8>, #[pasture(attribute = "Beta 2")] f1: u16, } unsafe impl bytemuck::NoUninit for S387 {} unsafe impl bytemuck::Zeroable for S387 {} unsafe impl bytemuck::AnyBitPattern for S387 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S388 { #[pasture(attribute = "Alpha")] f0: Vector4<u8>, #[pasture(attribute = "Beta 2")] f1: i64, } unsafe impl bytemuck::NoUninit for S388 {} unsafe impl bytemuck::Zeroable for S388 {} unsafe impl bytemuck::AnyBitPattern for S388 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S389 { #[pasture(attribute = "Alpha")] f0: Vector4<u8>, #[pasture(attribute = "Beta 2")] f1: f32, } unsafe impl bytemuck::NoUninit for S389 {} unsafe impl bytemuck::Zeroable for S389 {} unsafe impl bytemuck::AnyBitPattern for S389 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S390 { #[pasture(attribute = "Alpha")] f0: Vector4<u8>, #[pasture(attribute = "Beta 2")] f1: Vector3<u8>, } unsafe impl bytemuck::NoUninit for S390 {} unsafe impl bytemuck::Zeroable for S390 {} unsafe impl bytemuck::AnyBitPattern for S390 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S391 { #[pasture(attribute = "Alpha")] f0: Vector4<u8>, #[pasture(attribute = "Beta 2")] f1: Vector3<u16>, } unsafe impl bytemuck::NoUninit for S391 {} unsafe impl bytemuck::Zeroable for S391 {} unsafe impl bytemuck::AnyBitPattern for S391 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S392 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S392 {} unsafe impl bytemuck::Zeroable for S392 {} unsafe impl bytemuck::AnyBitPattern for S392 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S393 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S393 {} unsafe impl bytemuck::Zeroable for S393 {} unsafe impl bytemuck::AnyBitPattern for S393 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S394 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S394 {} unsafe impl bytemuck::Zeroable for S394 {} unsafe impl bytemuck::AnyBitPattern for S394 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S395 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S395 {} unsafe impl bytemuck::Zeroable for S395 {} unsafe impl bytemuck::AnyBitPattern for S395 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S396 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S396 {} unsafe impl bytemuck::Zeroable for S396 {} unsafe impl bytemuck::AnyBitPattern for S396 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S397 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S397 {} unsafe impl bytemuck::Zeroable for S397 {} unsafe impl bytemuck::AnyBitPattern for S397 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S398 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S398 {} unsafe impl bytemuck::Zeroable for S398 {} unsafe impl bytemuck::AnyBitPattern for S398 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S399 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S399 {} unsafe impl bytemuck::Zeroable for S399 {} unsafe impl bytemuck::AnyBitPattern for S399 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S400 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S400 {} unsafe impl bytemuck::Zeroable for S400 {} unsafe impl bytemuck::AnyBitPattern for S400 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S401 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S401 {} unsafe impl bytemuck::Zeroable for S401 {} unsafe impl bytemuck::AnyBitPattern for S401 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S402 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S402 {} unsafe impl bytemuck::Zeroable for S402 {} unsafe impl bytemuck::AnyBitPattern for S402 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S403 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S403 {} unsafe impl bytemuck::Zeroable for S403 {} unsafe impl bytemuck::AnyBitPattern for S403 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S404 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S404 {} unsafe impl bytemuck::Zeroable for S404 {} unsafe impl bytemuck::AnyBitPattern for S404 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S405 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S405 {} unsafe impl bytemuck::Zeroable for S405 {} unsafe impl bytemuck::AnyBitPattern for S405 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S406 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S406 {} unsafe impl bytemuck::Zeroable for S406 {} unsafe impl bytemuck::AnyBitPattern for S406 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S407 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S407 {} unsafe impl bytemuck::Zeroable for S407 {} unsafe impl bytemuck::AnyBitPattern for S407 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S408 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S408 {} unsafe impl bytemuck::Zeroable for S408 {} unsafe impl bytemuck::AnyBitPattern for S408 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S409 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S409 {} unsafe impl bytemuck::Zeroable for S409 {} unsafe impl bytemuck::AnyBitPattern for S409 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S410 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S410 {} unsafe impl bytemuck::Zeroable for S410 {} unsafe impl bytemuck::AnyBitPattern for S410 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S411 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S411 {} unsafe impl bytemuck::Zeroable for S411 {} unsafe impl bytemuck::AnyBitPattern for S411 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S412 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S412 {} unsafe impl bytemuck::Zeroable for S412 {} unsafe impl bytemuck::AnyBitPattern for S412 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S413 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S413 {} unsafe impl bytemuck::Zeroable for S413 {} unsafe impl bytemuck::AnyBitPattern for S413 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S414 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S414 {} unsafe impl bytemuck::Zeroable for S414 {} unsafe impl bytemuck::AnyBitPattern for S414 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S415 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S415 {} unsafe impl bytemuck::Zeroable for S415 {} unsafe impl bytemuck::AnyBitPattern for S415 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S416 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S416 {} unsafe impl bytemuck::Zeroable for S416 {} unsafe impl bytemuck::AnyBitPattern for S416 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S417 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S417 {} unsafe impl bytemuck::Zeroable for S417 {} unsafe impl bytemuck::AnyBitPattern for S417 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S418 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S418 {} unsafe impl bytemuck::Zeroable for S418 {} unsafe impl bytemuck::AnyBitPattern for S418 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S419 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S419 {} unsafe impl bytemuck::Zeroable for S419 {} unsafe impl bytemuck::AnyBitPattern for S419 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S420 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S420 {} unsafe impl bytemuck::Zeroable for S420 {} unsafe impl bytemuck::AnyBitPattern for S420 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S421 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S421 {} unsafe impl bytemuck::Zeroable for S421 {} unsafe impl bytemuck::AnyBitPattern for S421 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S422 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S422 {} unsafe impl bytemuck::Zeroable for S422 {} unsafe impl bytemuck::AnyBitPattern for S422 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S423 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S423 {} unsafe impl bytemuck::Zeroable for S423 {} unsafe impl bytemuck::AnyBitPattern for S423 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S424 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S424 {} unsafe impl bytemuck::Zeroable for S424 {} unsafe impl bytemuck::AnyBitPattern for S424 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S425 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S425 {} unsafe impl bytemuck::Zeroable for S425 {} unsafe impl bytemuck::AnyBitPattern for S425 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S426 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S426 {} unsafe impl bytemuck::Zeroable for S426 {} unsafe impl bytemuck::AnyBitPattern for S426 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S427 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S427 {} unsafe impl bytemuck::Zeroable for S427 {} unsafe impl bytemuck::AnyBitPattern for S427 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S428 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S428 {} unsafe impl bytemuck::Zeroable for S428 {} unsafe impl bytemuck::AnyBitPattern for S428 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S429 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S429 {} unsafe impl bytemuck::Zeroable for S429 {} unsafe impl bytemuck::AnyBitPattern for S429 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S430 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S430 {} unsafe impl bytemuck::Zeroable for S430 {} unsafe impl bytemuck::AnyBitPattern for S430 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S431 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S431 {} unsafe impl bytemuck::Zeroable for S431 {} unsafe impl bytemuck::AnyBitPattern for S431 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S432 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S432 {} unsafe impl bytemuck::Zeroable for S432 {} unsafe impl bytemuck::AnyBitPattern for S432 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S433 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S433 {} unsafe impl bytemuck::Zeroable for S433 {} unsafe impl bytemuck::AnyBitPattern for S433 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S434 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S434 {} unsafe impl bytemuck::Zeroable for S434 {} unsafe impl bytemuck::AnyBitPattern for S434 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S435 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S435 {} unsafe impl bytemuck::Zeroable for S435 {} unsafe impl bytemuck::AnyBitPattern for S435 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S436 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S436 {} unsafe impl bytemuck::Zeroable for S436 {} unsafe impl bytemuck::AnyBitPattern for S436 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S437 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S437 {} unsafe impl bytemuck::Zeroable for S437 {} unsafe impl bytemuck::AnyBitPattern for S437 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S438 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S438 {} unsafe impl bytemuck::Zeroable for S438 {} unsafe impl bytemuck::AnyBitPattern for S438 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S439 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S439 {} unsafe impl bytemuck::Zeroable for S439 {} unsafe impl bytemuck::AnyBitPattern for S439 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S440 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S440 {} unsafe impl bytemuck::Zeroable for S440 {} unsafe impl bytemuck::AnyBitPattern for S440 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S441 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S441 {} unsafe impl bytemuck::Zeroable for S441 {} unsafe impl bytemuck::AnyBitPattern for S441 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S442 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S442 {} unsafe impl bytemuck::Zeroable for S442 {} unsafe impl bytemuck::AnyBitPattern for S442 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S443 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S443 {} unsafe impl bytemuck::Zeroable for S443 {} unsafe impl bytemuck::AnyBitPattern for S443 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S444 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S444 {} unsafe impl bytemuck::Zeroable for S444 {} unsafe impl bytemuck::AnyBitPattern for S444 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S445 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S445 {} unsafe impl bytemuck::Zeroable for S445 {} unsafe impl bytemuck::AnyBitPattern for S445 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S446 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S446 {} unsafe impl bytemuck::Zeroable for S446 {} unsafe impl bytemuck::AnyBitPattern for S446 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S447 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S447 {} unsafe impl bytemuck::Zeroable for S447 {} unsafe impl bytemuck::AnyBitPattern for S447 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S448 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S448 {} unsafe impl bytemuck::Zeroable for S448 {} unsafe impl bytemuck::AnyBitPattern for S448 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S449 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S449 {} unsafe impl bytemuck::Zeroable for S449 {} unsafe impl bytemuck::AnyBitPattern for S449 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S450 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S450 {} unsafe impl bytemuck::Zeroable for S450 {} unsafe impl bytemuck::AnyBitPattern for S450 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S451 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S451 {} unsafe impl bytemuck::Zeroable for S451 {} unsafe impl bytemuck::AnyBitPattern for S451 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S452 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S452 {} unsafe impl bytemuck::Zeroable for S452 {} unsafe impl bytemuck::AnyBitPattern for S452 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S453 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S453 {} unsafe impl bytemuck::Zeroable for S453 {} unsafe impl bytemuck::AnyBitPattern for S453 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S454 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S454 {} unsafe impl bytemuck::Zeroable for S454 {} unsafe impl bytemuck::AnyBitPattern for S454 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S455 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S455 {} unsafe impl bytemuck::Zeroable for S455 {} unsafe impl bytemuck::AnyBitPattern for S455 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S456 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S456 {} unsafe impl bytemuck::Zeroable for S456 {} unsafe impl bytemuck::AnyBitPattern for S456 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S457 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S457 {} unsafe impl bytemuck::Zeroable for S457 {} unsafe impl bytemuck::AnyBitPattern for S457 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S458 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S458 {} unsafe impl bytemuck::Zeroable for S458 {} unsafe impl bytemuck::AnyBitPattern for S458 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S459 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S459 {} unsafe impl bytemuck::Zeroable for S459 {} unsafe impl bytemuck::AnyBitPattern for S459 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S460 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S460 {} unsafe impl bytemuck::Zeroable for S460 {} unsafe impl bytemuck::AnyBitPattern for S460 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S461 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S461 {} unsafe impl bytemuck::Zeroable for S461 {} unsafe impl bytemuck::AnyBitPattern for S461 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S462 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S462 {} unsafe impl bytemuck::Zeroable for S462 {} unsafe impl bytemuck::AnyBitPattern for S462 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S463 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S463 {} unsafe impl bytemuck::Zeroable for S463 {} unsafe impl bytemuck::AnyBitPattern for S463 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S464 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S464 {} unsafe impl bytemuck::Zeroable for S464 {} unsafe impl bytemuck::AnyBitPattern for S464 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S465 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S465 {} unsafe impl bytemuck::Zeroable for S465 {} unsafe impl bytemuck::AnyBitPattern for S465 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S466 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S466 {} unsafe impl bytemuck::Zeroable for S466 {} unsafe impl bytemuck::AnyBitPattern for S466 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S467 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S467 {} unsafe impl bytemuck::Zeroable for S467 {} unsafe impl bytemuck::AnyBitPattern for S467 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S468 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S468 {} unsafe impl bytemuck::Zeroable for S468 {} unsafe impl bytemuck::AnyBitPattern for S468 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S469 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S469 {} unsafe impl bytemuck::Zeroable for S469 {} unsafe impl bytemuck::AnyBitPattern for S469 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S470 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S470 {} unsafe impl bytemuck::Zeroable for S470 {} unsafe impl bytemuck::AnyBitPattern for S470 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S471 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S471 {} unsafe impl bytemuck::Zeroable for S471 {} unsafe impl bytemuck::AnyBitPattern for S471 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S472 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S472 {} unsafe impl bytemuck::Zeroable for S472 {} unsafe impl bytemuck::AnyBitPattern for S472 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S473 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S473 {} unsafe impl bytemuck::Zeroable for S473 {} unsafe impl bytemuck::AnyBitPattern for S473 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S474 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S474 {} unsafe impl bytemuck::Zeroable for S474 {} unsafe impl bytemuck::AnyBitPattern for S474 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S475 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S475 {} unsafe impl bytemuck::Zeroable for S475 {} unsafe impl bytemuck::AnyBitPattern for S475 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S476 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S476 {} unsafe impl bytemuck::Zeroable for S476 {} unsafe impl bytemuck::AnyBitPattern for S476 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S477 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S477 {} unsafe impl bytemuck::Zeroable for S477 {} unsafe impl bytemuck::AnyBitPattern for S477 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S478 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S478 {} unsafe impl bytemuck::Zeroable for S478 {} unsafe impl bytemuck::AnyBitPattern for S478 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S479 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S479 {} unsafe impl bytemuck::Zeroable for S479 {} unsafe impl bytemuck::AnyBitPattern for S479 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S480 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S480 {} unsafe impl bytemuck::Zeroable for S480 {} unsafe impl bytemuck::AnyBitPattern for S480 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S481 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S481 {} unsafe impl bytemuck::Zeroable for S481 {} unsafe impl bytemuck::AnyBitPattern for S481 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S482 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S482 {} unsafe impl bytemuck::Zeroable for S482 {} unsafe impl bytemuck::AnyBitPattern for S482 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S483 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S483 {} unsafe impl bytemuck::Zeroable for S483 {} unsafe impl bytemuck::AnyBitPattern for S483 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S484 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S484 {} unsafe impl bytemuck::Zeroable for S484 {} unsafe impl bytemuck::AnyBitPattern for S484 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S485 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S485 {} unsafe impl bytemuck::Zeroable for S485 {} unsafe impl bytemuck::AnyBitPattern for S485 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S486 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S486 {} unsafe impl bytemuck::Zeroable for S486 {} unsafe impl bytemuck::AnyBitPattern for S486 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S487 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S487 {} unsafe impl bytemuck::Zeroable for S487 {} unsafe impl bytemuck::AnyBitPattern for S487 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S488 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S488 {} unsafe impl bytemuck::Zeroable for S488 {} unsafe impl bytemuck::AnyBitPattern for S488 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S489 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S489 {} unsafe impl bytemuck::Zeroable for S489 {} unsafe impl bytemuck::AnyBitPattern for S489 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S490 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S490 {} unsafe impl bytemuck::Zeroable for S490 {} unsafe impl bytemuck::AnyBitPattern for S490 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S491 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S491 {} unsafe impl bytemuck::Zeroable for S491 {} unsafe impl bytemuck::AnyBitPattern for S491 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S492 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S492 {} unsafe impl bytemuck::Zeroable for S492 {} unsafe impl bytemuck::AnyBitPattern for S492 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S493 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S493 {} unsafe impl bytemuck::Zeroable for S493 {} unsafe impl bytemuck::AnyBitPattern for S493 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S494 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S494 {} unsafe impl bytemuck::Zeroable for S494 {} unsafe impl bytemuck::AnyBitPattern for S494 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S495 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S495 {} unsafe impl bytemuck::Zeroable for S495 {} unsafe impl bytemuck::AnyBitPattern for S495 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S496 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S496 {} unsafe impl bytemuck::Zeroable for S496 {} unsafe impl bytemuck::AnyBitPattern for S496 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S497 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S497 {} unsafe impl bytemuck::Zeroable for S497 {} unsafe impl bytemuck::AnyBitPattern for S497 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S498 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S498 {} unsafe impl bytemuck::Zeroable for S498 {} unsafe impl bytemuck::AnyBitPattern for S498 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S499 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S499 {} unsafe impl bytemuck::Zeroable for S499 {} unsafe impl bytemuck::AnyBitPattern for S499 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S500 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S500 {} unsafe impl bytemuck::Zeroable for S500 {} unsafe impl bytemuck::AnyBitPattern for S500 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S501 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S501 {} unsafe impl bytemuck::Zeroable for S501 {} unsafe impl bytemuck::AnyBitPattern for S501 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S502 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S502 {} unsafe impl bytemuck::Zeroable for S502 {} unsafe impl bytemuck::AnyBitPattern for S502 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S503 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S503 {} unsafe impl bytemuck::Zeroable for S503 {} unsafe impl bytemuck::AnyBitPattern for S503 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S504 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S504 {} unsafe impl bytemuck::Zeroable for S504 {} unsafe impl bytemuck::AnyBitPattern for S504 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S505 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S505 {} unsafe impl bytemuck::Zeroable for S505 {} unsafe impl bytemuck::AnyBitPattern for S505 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S506 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S506 {} unsafe impl bytemuck::Zeroable for S506 {} unsafe impl bytemuck::AnyBitPattern for S506 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S507 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S507 {} unsafe impl bytemuck::Zeroable for S507 {} unsafe impl bytemuck::AnyBitPattern for S507 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S508 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S508 {} unsafe impl bytemuck::Zeroable for S508 {} unsafe impl bytemuck::AnyBitPattern for S508 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S509 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S509 {} unsafe impl bytemuck::Zeroable for S509 {} unsafe impl bytemuck::AnyBitPattern for S509 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S510 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S510 {} unsafe impl bytemuck::Zeroable for S510 {} unsafe impl bytemuck::AnyBitPattern for S510 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S511 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S511 {} unsafe impl bytemuck::Zeroable for S511 {} unsafe impl bytemuck::AnyBitPattern for S511 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S512 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S512 {} unsafe impl bytemuck::Zeroable for S512 {} unsafe impl bytemuck::AnyBitPattern for S512 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S513 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S513 {} unsafe impl bytemuck::Zeroable for S513 {} unsafe impl bytemuck::AnyBitPattern for S513 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S514 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S514 {} unsafe impl bytemuck::Zeroable for S514 {} unsafe impl bytemuck::AnyBitPattern for S514 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S515 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S515 {} unsafe impl bytemuck::Zeroable for S515 {} unsafe impl bytemuck::AnyBitPattern for S515 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S516 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S516 {} unsafe impl bytemuck::Zeroable for S516 {} unsafe impl bytemuck::AnyBitPattern for S516 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S517 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S517 {} unsafe impl bytemuck::Zeroable for S517 {} unsafe impl bytemuck::AnyBitPattern for S517 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S518 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S518 {} unsafe impl bytemuck::Zeroable for S518 {} unsafe impl bytemuck::AnyBitPattern for S518 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S519 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S519 {} unsafe impl bytemuck::Zeroable for S519 {} unsafe impl bytemuck::AnyBitPattern for S519 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S520 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S520 {} unsafe impl bytemuck::Zeroable for S520 {} unsafe impl bytemuck::AnyBitPattern for S520 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S521 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S521 {} unsafe impl bytemuck::Zeroable for S521 {} unsafe impl bytemuck::AnyBitPattern for S521 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S522 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S522 {} unsafe impl bytemuck::Zeroable for S522 {} unsafe impl bytemuck::AnyBitPattern for S522 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S523 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S523 {} unsafe impl bytemuck::Zeroable for S523 {} unsafe impl bytemuck::AnyBitPattern for S523 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S524 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S524 {} unsafe impl bytemuck::Zeroable for S524 {} unsafe impl bytemuck::AnyBitPattern for S524 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S525 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S525 {} unsafe impl bytemuck::Zeroable for S525 {} unsafe impl bytemuck::AnyBitPattern for S525 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S526 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S526 {} unsafe impl bytemuck::Zeroable for S526 {} unsafe impl bytemuck::AnyBitPattern for S526 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S527 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S527 {} unsafe impl bytemuck::Zeroable for S527 {} unsafe impl bytemuck::AnyBitPattern for S527 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S528 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S528 {} unsafe impl bytemuck::Zeroable for S528 {} unsafe impl bytemuck::AnyBitPattern for S528 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S529 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S529 {} unsafe impl bytemuck::Zeroable for S529 {} unsafe impl bytemuck::AnyBitPattern for S529 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S530 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S530 {} unsafe impl bytemuck::Zeroable for S530 {} unsafe impl bytemuck::AnyBitPattern for S530 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S531 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S531 {} unsafe impl bytemuck::Zeroable for S531 {} unsafe impl bytemuck::AnyBitPattern for S531 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S532 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S532 {} unsafe impl bytemuck::Zeroable for S532 {} unsafe impl bytemuck::AnyBitPattern for S532 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S533 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S533 {} unsafe impl bytemuck::Zeroable for S533 {} unsafe impl bytemuck::AnyBitPattern for S533 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S534 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S534 {} unsafe impl bytemuck::Zeroable for S534 {} unsafe impl bytemuck::AnyBitPattern for S534 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S535 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S535 {} unsafe impl bytemuck::Zeroable for S535 {} unsafe impl bytemuck::AnyBitPattern for S535 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S536 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S536 {} unsafe impl bytemuck::Zeroable for S536 {} unsafe impl bytemuck::AnyBitPattern for S536 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S537 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S537 {} unsafe impl bytemuck::Zeroable for S537 {} unsafe impl bytemuck::AnyBitPattern for S537 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S538 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S538 {} unsafe impl bytemuck::Zeroable for S538 {} unsafe impl bytemuck::AnyBitPattern for S538 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S539 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S539 {} unsafe impl bytemuck::Zeroable for S539 {} unsafe impl bytemuck::AnyBitPattern for S539 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S540 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S540 {} unsafe impl bytemuck::Zeroable for S540 {} unsafe impl bytemuck::AnyBitPattern for S540 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S541 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S541 {} unsafe impl bytemuck::Zeroable for S541 {} unsafe impl bytemuck::AnyBitPattern for S541 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S542 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S542 {} unsafe impl bytemuck::Zeroable for S542 {} unsafe impl bytemuck::AnyBitPattern for S542 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S543 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S543 {} unsafe impl bytemuck::Zeroable for S543 {} unsafe impl bytemuck::AnyBitPattern for S543 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S544 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S544 {} unsafe impl bytemuck::Zeroable for S544 {} unsafe impl bytemuck::AnyBitPattern for S544 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S545 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S545 {} unsafe impl bytemuck::Zeroable for S545 {} unsafe impl bytemuck::AnyBitPattern for S545 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S546 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S546 {} unsafe impl bytemuck::Zeroable for S546 {} unsafe impl bytemuck::AnyBitPattern for S546 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S547 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S547 {} unsafe impl bytemuck::Zeroable for S547 {} unsafe impl bytemuck::AnyBitPattern for S547 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S548 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S548 {} unsafe impl bytemuck::Zeroable for S548 {} unsafe impl bytemuck::AnyBitPattern for S548 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S549 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S549 {} unsafe impl bytemuck::Zeroable for S549 {} unsafe impl bytemuck::AnyBitPattern for S549 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S550 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S550 {} unsafe impl bytemuck::Zeroable for S550 {} unsafe impl bytemuck::AnyBitPattern for S550 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S551 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S551 {} unsafe impl bytemuck::Zeroable for S551 {} unsafe impl bytemuck::AnyBitPattern for S551 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S552 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S552 {} unsafe impl bytemuck::Zeroable for S552 {} unsafe impl bytemuck::AnyBitPattern for S552 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S553 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S553 {} unsafe impl bytemuck::Zeroable for S553 {} unsafe impl bytemuck::AnyBitPattern for S553 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S554 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S554 {} unsafe impl bytemuck::Zeroable for S554 {} unsafe impl bytemuck::AnyBitPattern for S554 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S555 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S555 {} unsafe impl bytemuck::Zeroable for S555 {} unsafe impl bytemuck::AnyBitPattern for S555 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S556 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S556 {} unsafe impl bytemuck::Zeroable for S556 {} unsafe impl bytemuck::AnyBitPattern for S556 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S557 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S557 {} unsafe impl bytemuck::Zeroable for S557 {} unsafe impl bytemuck::AnyBitPattern for S557 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S558 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S558 {} unsafe impl bytemuck::Zeroable for S558 {} unsafe impl bytemuck::AnyBitPattern for S558 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S559 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S559 {} unsafe impl bytemuck::Zeroable for S559 {} unsafe impl bytemuck::AnyBitPattern for S559 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S560 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S560 {} unsafe impl bytemuck::Zeroable for S560 {} unsafe impl bytemuck::AnyBitPattern for S560 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S561 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S561 {} unsafe impl bytemuck::Zeroable for S561 {} unsafe impl bytemuck::AnyBitPattern for S561 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S562 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S562 {} unsafe impl bytemuck::Zeroable for S562 {} unsafe impl bytemuck::AnyBitPattern for S562 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S563 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S563 {} unsafe impl bytemuck::Zeroable for S563 {} unsafe impl bytemuck::AnyBitPattern for S563 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S564 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S564 {} unsafe impl bytemuck::Zeroable for S564 {} unsafe impl bytemuck::AnyBitPattern for S564 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S565 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S565 {} unsafe impl bytemuck::Zeroable for S565 {} unsafe impl bytemuck::AnyBitPattern for S565 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S566 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S566 {} unsafe impl bytemuck::Zeroable for S566 {} unsafe impl bytemuck::AnyBitPattern for S566 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S567 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S567 {} unsafe impl bytemuck::Zeroable for S567 {} unsafe impl bytemuck::AnyBitPattern for S567 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S568 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S568 {} unsafe impl bytemuck::Zeroable for S568 {} unsafe impl bytemuck::AnyBitPattern for S568 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S569 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S569 {} unsafe impl bytemuck::Zeroable for S569 {} unsafe impl bytemuck::AnyBitPattern for S569 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S570 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S570 {} unsafe impl bytemuck::Zeroable for S570 {} unsafe impl bytemuck::AnyBitPattern for S570 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S571 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S571 {} unsafe impl bytemuck::Zeroable for S571 {} unsafe impl bytemuck::AnyBitPattern for S571 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S572 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S572 {} unsafe impl bytemuck::Zeroable for S572 {} unsafe impl bytemuck::AnyBitPattern for S572 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S573 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S573 {} unsafe impl bytemuck::Zeroable for S573 {} unsafe impl bytemuck::AnyBitPattern for S573 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S574 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S574 {} unsafe impl bytemuck::Zeroable for S574 {} unsafe impl bytemuck::AnyBitPattern for S574 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S575 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S575 {} unsafe impl bytemuck::Zeroable for S575 {} unsafe impl bytemuck::AnyBitPattern for S575 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S576 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S576 {} unsafe impl bytemuck::Zeroable for S576 {} unsafe impl bytemuck::AnyBitPattern for S576 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S577 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S577 {} unsafe impl bytemuck::Zeroable for S577 {} unsafe impl bytemuck::AnyBitPattern for S577 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S578 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S578 {} unsafe impl bytemuck::Zeroable for S578 {} unsafe impl bytemuck::AnyBitPattern for S578 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S579 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S579 {} unsafe impl bytemuck::Zeroable for S579 {} unsafe impl bytemuck::AnyBitPattern for S579 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S580 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S580 {} unsafe impl bytemuck::Zeroable for S580 {} unsafe impl bytemuck::AnyBitPattern for S580 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S581 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S581 {} unsafe impl bytemuck::Zeroable for S581 {} unsafe impl bytemuck::AnyBitPattern for S581 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S582 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S582 {} unsafe impl bytemuck::Zeroable for S582 {} unsafe impl bytemuck::AnyBitPattern for S582 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S583 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S583 {} unsafe impl bytemuck::Zeroable for S583 {} unsafe impl bytemuck::AnyBitPattern for S583 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S584 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S584 {} unsafe impl bytemuck::Zeroable for S584 {} unsafe impl bytemuck::AnyBitPattern for S584 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S585 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S585 {} unsafe impl bytemuck::Zeroable for S585 {} unsafe impl bytemuck::AnyBitPattern for S585 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S586 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S586 {} unsafe impl bytemuck::Zeroable for S586 {} unsafe impl bytemuck::AnyBitPattern for S586 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S587 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S587 {} unsafe impl bytemuck::Zeroable for S587 {} unsafe impl bytemuck::AnyBitPattern for S587 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S588 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S588 {} unsafe impl bytemuck::Zeroable for S588 {} unsafe impl bytemuck::AnyBitPattern for S588 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S589 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S589 {} unsafe impl bytemuck::Zeroable for S589 {} unsafe impl bytemuck::AnyBitPattern for S589 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S590 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S590 {} unsafe impl bytemuck::Zeroable for S590 {} unsafe impl bytemuck::AnyBitPattern for S590 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S591 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S591 {} unsafe impl bytemuck::Zeroable for S591 {} unsafe impl bytemuck::AnyBitPattern for S591 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S592 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S592 {} unsafe impl bytemuck::Zeroable for S592 {} unsafe impl bytemuck::AnyBitPattern for S592 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S593 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S593 {} unsafe impl bytemuck::Zeroable for S593 {} unsafe impl bytemuck::AnyBitPattern for S593 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S594 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S594 {} unsafe impl bytemuck::Zeroable for S594 {} unsafe impl bytemuck::AnyBitPattern for S594 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S595 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S595 {} unsafe impl bytemuck::Zeroable for S595 {} unsafe impl bytemuck::AnyBitPattern for S595 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S596 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S596 {} unsafe impl bytemuck::Zeroable for S596 {} unsafe impl bytemuck::AnyBitPattern for S596 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S597 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S597 {} unsafe impl bytemuck::Zeroable for S597 {} unsafe impl bytemuck::AnyBitPattern for S597 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S598 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S598 {} unsafe impl bytemuck::Zeroable for S598 {} unsafe impl bytemuck::AnyBitPattern for S598 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S599 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S599 {} unsafe impl bytemuck::Zeroable for S599 {} unsafe impl bytemuck::AnyBitPattern for S599 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S600 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S600 {} unsafe impl bytemuck::Zeroable for S600 {} unsafe impl bytemuck::AnyBitPattern for S600 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S601 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S601 {} unsafe impl bytemuck::Zeroable for S601 {} unsafe impl bytemuck::AnyBitPattern for S601 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S602 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S602 {} unsafe impl bytemuck::Zeroable for S602 {} unsafe impl bytemuck::AnyBitPattern for S602 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S603 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S603 {} unsafe impl bytemuck::Zeroable for S603 {} unsafe impl bytemuck::AnyBitPattern for S603 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S604 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S604 {} unsafe impl bytemuck::Zeroable for S604 {} unsafe impl bytemuck::AnyBitPattern for S604 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S605 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S605 {} unsafe impl bytemuck::Zeroable for S605 {} unsafe impl bytemuck::AnyBitPattern for S605 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S606 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S606 {} unsafe impl bytemuck::Zeroable for S606 {} unsafe impl bytemuck::AnyBitPattern for S606 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S607 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S607 {} unsafe impl bytemuck::Zeroable for S607 {} unsafe impl bytemuck::AnyBitPattern for S607 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S608 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S608 {} unsafe impl bytemuck::Zeroable for S608 {} unsafe impl bytemuck::AnyBitPattern for S608 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S609 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S609 {} unsafe impl bytemuck::Zeroable for S609 {} unsafe impl bytemuck::AnyBitPattern for S609 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S610 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S610 {} unsafe impl bytemuck::Zeroable for S610 {} unsafe impl bytemuck::AnyBitPattern for S610 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S611 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S611 {} unsafe impl bytemuck::Zeroable for S611 {} unsafe impl bytemuck::AnyBitPattern for S611 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S612 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S612 {} unsafe impl bytemuck::Zeroable for S612 {} unsafe impl bytemuck::AnyBitPattern for S612 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S613 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S613 {} unsafe impl bytemuck::Zeroable for S613 {} unsafe impl bytemuck::AnyBitPattern for S613 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S614 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S614 {} unsafe impl bytemuck::Zeroable for S614 {} unsafe impl bytemuck::AnyBitPattern for S614 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S615 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S615 {} unsafe impl bytemuck::Zeroable for S615 {} unsafe impl bytemuck::AnyBitPattern for S615 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S616 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S616 {} unsafe impl bytemuck::Zeroable for S616 {} unsafe impl bytemuck::AnyBitPattern for S616 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S617 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S617 {} unsafe impl bytemuck::Zeroable for S617 {} unsafe impl bytemuck::AnyBitPattern for S617 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S618 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S618 {} unsafe impl bytemuck::Zeroable for S618 {} unsafe impl bytemuck::AnyBitPattern for S618 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S619 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S619 {} unsafe impl bytemuck::Zeroable for S619 {} unsafe impl bytemuck::AnyBitPattern for S619 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S620 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S620 {} unsafe impl bytemuck::Zeroable for S620 {} unsafe impl bytemuck::AnyBitPattern for S620 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S621 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S621 {} unsafe impl bytemuck::Zeroable for S621 {} unsafe impl bytemuck::AnyBitPattern for S621 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S622 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S622 {} unsafe impl bytemuck::Zeroable for S622 {} unsafe impl bytemuck::AnyBitPattern for S622 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S623 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S623 {} unsafe impl bytemuck::Zeroable for S623 {} unsafe impl bytemuck::AnyBitPattern for S623 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S624 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S624 {} unsafe impl bytemuck::Zeroable for S624 {} unsafe impl bytemuck::AnyBitPattern for S624 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S625 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S625 {} unsafe impl bytemuck::Zeroable for S625 {} unsafe impl bytemuck::AnyBitPattern for S625 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S626 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S626 {} unsafe impl bytemuck::Zeroable for S626 {} unsafe impl bytemuck::AnyBitPattern for S626 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S627 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S627 {} unsafe impl bytemuck::Zeroable for S627 {} unsafe impl bytemuck::AnyBitPattern for S627 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S628 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S628 {} unsafe impl bytemuck::Zeroable for S628 {} unsafe impl bytemuck::AnyBitPattern for S628 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S629 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S629 {} unsafe impl bytemuck::Zeroable for S629 {} unsafe impl bytemuck::AnyBitPattern for S629 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S630 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S630 {} unsafe impl bytemuck::Zeroable for S630 {} unsafe impl bytemuck::AnyBitPattern for S630 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S631 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S631 {} unsafe impl bytemuck::Zeroable for S631 {} unsafe impl bytemuck::AnyBitPattern for S631 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S632 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S632 {} unsafe impl bytemuck::Zeroable for S632 {} unsafe impl bytemuck::AnyBitPattern for S632 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S633 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S633 {} unsafe impl bytemuck::Zeroable for S633 {} unsafe impl bytemuck::AnyBitPattern for S633 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S634 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S634 {} unsafe impl bytemuck::Zeroable for S634 {} unsafe impl bytemuck::AnyBitPattern for S634 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S635 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S635 {} unsafe impl bytemuck::Zeroable for S635 {} unsafe impl bytemuck::AnyBitPattern for S635 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S636 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S636 {} unsafe impl bytemuck::Zeroable for S636 {} unsafe impl bytemuck::AnyBitPattern for S636 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S637 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S637 {} unsafe impl bytemuck::Zeroable for S637 {} unsafe impl bytemuck::AnyBitPattern for S637 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S638 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S638 {} unsafe impl bytemuck::Zeroable for S638 {} unsafe impl bytemuck::AnyBitPattern for S638 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S639 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S639 {} unsafe impl bytemuck::Zeroable for S639 {} unsafe impl bytemuck::AnyBitPattern for S639 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S640 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S640 {} unsafe impl bytemuck::Zeroable for S640 {} unsafe impl bytemuck::AnyBitPattern for S640 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S641 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S641 {} unsafe impl bytemuck::Zeroable for S641 {} unsafe impl bytemuck::AnyBitPattern for S641 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S642 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S642 {} unsafe impl bytemuck::Zeroable for S642 {} unsafe impl bytemuck::AnyBitPattern for S642 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S643 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S643 {} unsafe impl bytemuck::Zeroable for S643 {} unsafe impl bytemuck::AnyBitPattern for S643 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S644 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S644 {} unsafe impl bytemuck::Zeroable for S644 {} unsafe impl bytemuck::AnyBitPattern for S644 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S645 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S645 {} unsafe impl bytemuck::Zeroable for S645 {} unsafe impl bytemuck::AnyBitPattern for S645 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S646 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S646 {} unsafe impl bytemuck::Zeroable for S646 {} unsafe impl bytemuck::AnyBitPattern for S646 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S647 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S647 {} unsafe impl bytemuck::Zeroable for S647 {} unsafe impl bytemuck::AnyBitPattern for S647 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S648 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S648 {} unsafe impl bytemuck::Zeroable for S648 {} unsafe impl bytemuck::AnyBitPattern for S648 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S649 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S649 {} unsafe impl bytemuck::Zeroable for S649 {} unsafe impl bytemuck::AnyBitPattern for S649 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S650 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S650 {} unsafe impl bytemuck::Zeroable for S650 {} unsafe impl bytemuck::AnyBitPattern for S650 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S651 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S651 {} unsafe impl bytemuck::Zeroable for S651 {} unsafe impl bytemuck::AnyBitPattern for S651 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S652 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S652 {} unsafe impl bytemuck::Zeroable for S652 {} unsafe impl bytemuck::AnyBitPattern for S652 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S653 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S653 {} unsafe impl bytemuck::Zeroable for S653 {} unsafe impl bytemuck::AnyBitPattern for S653 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S654 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S654 {} unsafe impl bytemuck::Zeroable for S654 {} unsafe impl bytemuck::AnyBitPattern for S654 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S655 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S655 {} unsafe impl bytemuck::Zeroable for S655 {} unsafe impl bytemuck::AnyBitPattern for S655 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S656 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S656 {} unsafe impl bytemuck::Zeroable for S656 {} unsafe impl bytemuck::AnyBitPattern for S656 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S657 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S657 {} unsafe impl bytemuck::Zeroable for S657 {} unsafe impl bytemuck::AnyBitPattern for S657 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S658 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S658 {} unsafe impl bytemuck::Zeroable for S658 {} unsafe impl bytemuck::AnyBitPattern for S658 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S659 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S659 {} unsafe impl bytemuck::Zeroable for S659 {} unsafe impl bytemuck::AnyBitPattern for S659 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S660 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S660 {} unsafe impl bytemuck::Zeroable for S660 {} unsafe impl bytemuck::AnyBitPattern for S660 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S661 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S661 {} unsafe impl bytemuck::Zeroable for S661 {} unsafe impl bytemuck::AnyBitPattern for S661 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S662 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S662 {} unsafe impl bytemuck::Zeroable for S662 {} unsafe impl bytemuck::AnyBitPattern for S662 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S663 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S663 {} unsafe impl bytemuck::Zeroable for S663 {} unsafe impl bytemuck::AnyBitPattern for S663 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S664 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S664 {} unsafe impl bytemuck::Zeroable for S664 {} unsafe impl bytemuck::AnyBitPattern for S664 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S665 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S665 {} unsafe impl bytemuck::Zeroable for S665 {} unsafe impl bytemuck::AnyBitPattern for S665 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S666 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S666 {} unsafe impl bytemuck::Zeroable for S666 {} unsafe impl bytemuck::AnyBitPattern for S666 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S667 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S667 {} unsafe impl bytemuck::Zeroable for S667 {} unsafe impl bytemuck::AnyBitPattern for S667 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S668 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S668 {} unsafe impl bytemuck::Zeroable for S668 {} unsafe impl bytemuck::AnyBitPattern for S668 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S669 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S669 {} unsafe impl bytemuck::Zeroable for S669 {} unsafe impl bytemuck::AnyBitPattern for S669 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S670 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S670 {} unsafe impl bytemuck::Zeroable for S670 {} unsafe impl bytemuck::AnyBitPattern for S670 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S671 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S671 {} unsafe impl bytemuck::Zeroable for S671 {} unsafe impl bytemuck::AnyBitPattern for S671 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S672 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S672 {} unsafe impl bytemuck::Zeroable for S672 {} unsafe impl bytemuck::AnyBitPattern for S672 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S673 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S673 {} unsafe impl bytemuck::Zeroable for S673 {} unsafe impl bytemuck::AnyBitPattern for S673 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S674 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S674 {} unsafe impl bytemuck::Zeroable for S674 {} unsafe impl bytemuck::AnyBitPattern for S674 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S675 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S675 {} unsafe impl bytemuck::Zeroable for S675 {} unsafe impl bytemuck::AnyBitPattern for S675 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S676 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S676 {} unsafe impl bytemuck::Zeroable for S676 {} unsafe impl bytemuck::AnyBitPattern for S676 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S677 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S677 {} unsafe impl bytemuck::Zeroable for S677 {} unsafe impl bytemuck::AnyBitPattern for S677 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S678 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S678 {} unsafe impl bytemuck::Zeroable for S678 {} unsafe impl bytemuck::AnyBitPattern for S678 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S679 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S679 {} unsafe impl bytemuck::Zeroable for S679 {} unsafe impl bytemuck::AnyBitPattern for S679 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S680 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S680 {} unsafe impl bytemuck::Zeroable for S680 {} unsafe impl bytemuck::AnyBitPattern for S680 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S681 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S681 {} unsafe impl bytemuck::Zeroable for S681 {} unsafe impl bytemuck::AnyBitPattern for S681 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S682 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S682 {} unsafe impl bytemuck::Zeroable for S682 {} unsafe impl bytemuck::AnyBitPattern for S682 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S683 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S683 {} unsafe impl bytemuck::Zeroable for S683 {} unsafe impl bytemuck::AnyBitPattern for S683 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S684 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S684 {} unsafe impl bytemuck::Zeroable for S684 {} unsafe impl bytemuck::AnyBitPattern for S684 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S685 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S685 {} unsafe impl bytemuck::Zeroable for S685 {} unsafe impl bytemuck::AnyBitPattern for S685 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S686 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S686 {} unsafe impl bytemuck::Zeroable for S686 {} unsafe impl bytemuck::AnyBitPattern for S686 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S687 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S687 {} unsafe impl bytemuck::Zeroable for S687 {} unsafe impl bytemuck::AnyBitPattern for S687 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S688 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S688 {} unsafe impl bytemuck::Zeroable for S688 {} unsafe impl bytemuck::AnyBitPattern for S688 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S689 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S689 {} unsafe impl bytemuck::Zeroable for S689 {} unsafe impl bytemuck::AnyBitPattern for S689 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S690 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S690 {} unsafe impl bytemuck::Zeroable for S690 {} unsafe impl bytemuck::AnyBitPattern for S690 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S691 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S691 {} unsafe impl bytemuck::Zeroable for S691 {} unsafe impl bytemuck::AnyBitPattern for S691 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S692 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S692 {} unsafe impl bytemuck::Zeroable for S692 {} unsafe impl bytemuck::AnyBitPattern for S692 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S693 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S693 {} unsafe impl bytemuck::Zeroable for S693 {} unsafe impl bytemuck::AnyBitPattern for S693 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S694 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S694 {} unsafe impl bytemuck::Zeroable for S694 {} unsafe impl bytemuck::AnyBitPattern for S694 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S695 { #[pasture(attribute = "Alpha")] f0: f32, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S695 {} unsafe impl bytemuck::Zeroable for S695 {} unsafe impl bytemuck::AnyBitPattern for S695 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S696 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S696 {} unsafe impl bytemuck::Zeroable for S696 {} unsafe impl bytemuck::AnyBitPattern for S696 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S697 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S697 {} unsafe impl bytemuck::Zeroable for S697 {} unsafe impl bytemuck::AnyBitPattern for S697 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S698 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S698 {} unsafe impl bytemuck::Zeroable for S698 {} unsafe impl bytemuck::AnyBitPattern for S698 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S699 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S699 {} unsafe impl bytemuck::Zeroable for S699 {} unsafe impl bytemuck::AnyBitPattern for S699 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S700 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S700 {} unsafe impl bytemuck::Zeroable for S700 {} unsafe impl bytemuck::AnyBitPattern for S700 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S701 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S701 {} unsafe impl bytemuck::Zeroable for S701 {} unsafe impl bytemuck::AnyBitPattern for S701 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S702 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S702 {} unsafe impl bytemuck::Zeroable for S702 {} unsafe impl bytemuck::AnyBitPattern for S702 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S703 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S703 {} unsafe impl bytemuck::Zeroable for S703 {} unsafe impl bytemuck::AnyBitPattern for S703 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S704 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S704 {} unsafe impl bytemuck::Zeroable for S704 {} unsafe impl bytemuck::AnyBitPattern for S704 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S705 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S705 {} unsafe impl bytemuck::Zeroable for S705 {} unsafe impl bytemuck::AnyBitPattern for S705 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S706 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S706 {} unsafe impl bytemuck::Zeroable for S706 {} unsafe impl bytemuck::AnyBitPattern for S706 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S707 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S707 {} unsafe impl bytemuck::Zeroable for S707 {} unsafe impl bytemuck::AnyBitPattern for S707 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S708 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S708 {} unsafe impl bytemuck::Zeroable for S708 {} unsafe impl bytemuck::AnyBitPattern for S708 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S709 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: u16, } unsafe impl bytemuck::NoUninit for S709 {} unsafe impl bytemuck::Zeroable for S709 {} unsafe impl bytemuck::AnyBitPattern for S709 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S710 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S710 {} unsafe impl bytemuck::Zeroable for S710 {} unsafe impl bytemuck::AnyBitPattern for S710 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(8), C)] pub struct S711 { #[pasture(attribute = "Alpha")] f0: i64, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: i64, } unsafe impl bytemuck::NoUninit for S711 {} unsafe impl bytemuck::Zeroable for S711 {} unsafe impl bytemuck::AnyBitPattern for S711 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S712 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: Vector3<f64>, #[pasture(attribute = "Position3D")] f2: u16, #[pasture(attribute = "Δ")] f3: u8, } unsafe impl bytemuck::NoUninit for S712 {} unsafe impl bytemuck::Zeroable for S712 {} unsafe impl bytemuck::AnyBitPattern for S712 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S713 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: u32, #[pasture(attribute = "Δ")] f3: u64, } unsafe impl bytemuck::NoUninit for S713 {} unsafe impl bytemuck::Zeroable for S713 {} unsafe impl bytemuck::AnyBitPattern for S713 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S714 { #[pasture(attribute = "Alpha")] f0: f64, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: u16, #[pasture(attribute = "Δ")] f3: u8, } unsafe impl bytemuck::NoUninit for S714 {} unsafe impl bytemuck::Zeroable for S714 {} unsafe impl bytemuck::AnyBitPattern for S714 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S715 { #[pasture(attribute = "Alpha")] f0: Vector4<u8>, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: Vector3<u16>, #[pasture(attribute = "Δ")] f3: i32, } unsafe impl bytemuck::NoUninit for S715 {} unsafe impl bytemuck::Zeroable for S715 {} unsafe impl bytemuck::AnyBitPattern for S715 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S716 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: Vector3<f64>, #[pasture(attribute = "Position3D")] f2: u16, #[pasture(attribute = "Δ")] f3: u8, } unsafe impl bytemuck::NoUninit for S716 {} unsafe impl bytemuck::Zeroable for S716 {} unsafe impl bytemuck::AnyBitPattern for S716 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S717 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: u32, #[pasture(attribute = "Δ")] f3: u64, } unsafe impl bytemuck::NoUninit for S717 {} unsafe impl bytemuck::Zeroable for S717 {} unsafe impl bytemuck::AnyBitPattern for S717 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S718 { #[pasture(attribute = "Alpha")] f0: f64, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: u16, #[pasture(attribute = "Δ")] f3: u8, } unsafe impl bytemuck::NoUninit for S718 {} unsafe impl bytemuck::Zeroable for S718 {} unsafe impl bytemuck::AnyBitPattern for S718 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S719 { #[pasture(attribute = "Alpha")] f0: Vector4<u8>, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: Vector3<u16>, #[pasture(attribute = "Δ")] f3: i32, } unsafe impl bytemuck::NoUninit for S719 {} unsafe impl bytemuck::Zeroable for S719 {} unsafe impl bytemuck::AnyBitPattern for S719 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S720 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: Vector3<f64>, #[pasture(attribute = "Position3D")] f2: u16, #[pasture(attribute = "Δ")] f3: u8, } unsafe impl bytemuck::NoUninit for S720 {} unsafe impl bytemuck::Zeroable for S720 {} unsafe impl bytemuck::AnyBitPattern for S720 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S721 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u16, #[pasture(attribute = "Position3D")] f2: u32, #[pasture(attribute = "Δ")] f3: u64, } unsafe impl bytemuck::NoUninit for S721 {} unsafe impl bytemuck::Zeroable for S721 {} unsafe impl bytemuck::AnyBitPattern for S721 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S722 { #[pasture(attribute = "Alpha")] f0: f64, #[pasture(attribute = "Beta 2")] f1: f32, #[pasture(attribute = "Position3D")] f2: u16, #[pasture(attribute = "Δ")] f3: u8, } unsafe impl bytemuck::NoUninit for S722 {} unsafe impl bytemuck::Zeroable for S722 {} unsafe impl bytemuck::AnyBitPattern for S722 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S723 { #[pasture(attribute = "Alpha")] f0: Vector4<u8>, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: Vector3<u16>, #[pasture(attribute = "Δ")] f3: i32, } unsafe impl bytemuck::NoUninit for S723 {} unsafe impl bytemuck::Zeroable for S723 {} unsafe impl bytemuck::AnyBitPattern for S723 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S724 { #[pasture(BUILTIN_POSITION_3D)] f0: Vector3<f64>, #[pasture(attribute = "Other")] f1: u8, } unsafe impl bytemuck::NoUninit for S724 {} unsafe impl bytemuck::Zeroable for S724 {} unsafe impl bytemuck::AnyBitPattern for S724 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S725 { #[pasture(attribute = "Other")] f0: u8, #[pasture(BUILTIN_POSITION_3D)] f1: Vector3<f64>, } unsafe impl bytemuck::NoUninit for S725 {} unsafe impl bytemuck::Zeroable for S725 {} unsafe impl bytemuck::AnyBitPattern for S725 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S726 { #[pasture(BUILTIN_POSITION_3D)] f0: u8, } unsafe impl bytemuck::NoUninit for S726 {} unsafe impl bytemuck::Zeroable for S726 {} unsafe impl bytemuck::AnyBitPattern for S726 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S727 { #[pasture(BUILTIN_INTENSITY)] f0: u16, #[pasture(attribute = "Other")] f1: u8, } unsafe impl bytemuck::NoUninit for S727 {} unsafe impl bytemuck::Zeroable for S727 {} unsafe impl bytemuck::AnyBitPattern for S727 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S728 { #[pasture(attribute = "Other")] f0: u8, #[pasture(BUILTIN_INTENSITY)] f1: u16, } unsafe impl bytemuck::NoUninit for S728 {} unsafe impl bytemuck::Zeroable for S728 {} unsafe impl bytemuck::AnyBitPattern for S728 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S729 { #[pasture(BUILTIN_INTENSITY)] f0: u8, } unsafe impl bytemuck::NoUninit for S729 {} unsafe impl bytemuck::Zeroable for S729 {} unsafe impl bytemuck::AnyBitPattern for S729 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S730 { #[pasture(BUILTIN_RETURN_NUMBER)] f0: u8, #[pasture(attribute = "Other")] f1: u8, } unsafe impl bytemuck::NoUninit for S730 {} unsafe impl bytemuck::Zeroable for S730 {} unsafe impl bytemuck::AnyBitPattern for S730 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S731 { #[pasture(attribute = "Other")] f0: u8, #[pasture(BUILTIN_RETURN_NUMBER)] f1: u8, } unsafe impl bytemuck::NoUninit for S731 {} unsafe impl bytemuck::Zeroable for S731 {} unsafe impl bytemuck::AnyBitPattern for S731 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S732 { #[pasture(BUILTIN_RETURN_NUMBER)] f0: u16, } unsafe impl bytemuck::NoUninit for S732 {} unsafe impl bytemuck::Zeroable for S732 {} unsafe impl bytemuck::AnyBitPattern for S732 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S733 { #[pasture(BUILTIN_NUMBER_OF_RETURNS)] f0: u8, #[pasture(attribute = "Other")] f1: u8, } unsafe impl bytemuck::NoUninit for S733 {} unsafe impl bytemuck::Zeroable for S733 {} unsafe impl bytemuck::AnyBitPattern for S733 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S734 { #[pasture(attribute = "Other")] f0: u8, #[pasture(BUILTIN_NUMBER_OF_RETURNS)] f1: u8, } unsafe impl bytemuck::NoUninit for S734 {} unsafe impl bytemuck::Zeroable for S734 {} unsafe impl bytemuck::AnyBitPattern for S734 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S735 { #[pasture(BUILTIN_NUMBER_OF_RETURNS)] f0: u16, } unsafe impl bytemuck::NoUninit for S735 {} unsafe impl bytemuck::Zeroable for S735 {} unsafe impl bytemuck::AnyBitPattern for S735 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S736 { #[pasture(BUILTIN_CLASSIFICATION_FLAGS)] f0: u8, #[pasture(attribute = "Other")] f1: u8, } unsafe impl bytemuck::NoUninit for S736 {} unsafe impl bytemuck::Zeroable for S736 {} unsafe impl bytemuck::AnyBitPattern for S736 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S737 { #[pasture(attribute = "Other")] f0: u8, #[pasture(BUILTIN_CLASSIFICATION_FLAGS)] f1: u8, } unsafe impl bytemuck::NoUninit for S737 {} unsafe impl bytemuck::Zeroable for S737 {} unsafe impl bytemuck::AnyBitPattern for S737 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S738 { #[pasture(BUILTIN_CLASSIFICATION_FLAGS)] f0: u16, } unsafe impl bytemuck::NoUninit for S738 {} unsafe impl bytemuck::Zeroable for S738 {} unsafe impl bytemuck::AnyBitPattern for S738 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S739 { #[pasture(BUILTIN_SCANNER_CHANNEL)] f0: u8, #[pasture(attribute = "Other")] f1: u8, } unsafe impl bytemuck::NoUninit for S739 {} unsafe impl bytemuck::Zeroable for S739 {} unsafe impl bytemuck::AnyBitPattern for S739 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S740 { #[pasture(attribute = "Other")] f0: u8, #[pasture(BUILTIN_SCANNER_CHANNEL)] f1: u8, } unsafe impl bytemuck::NoUninit for S740 {} unsafe impl bytemuck::Zeroable for S740 {} unsafe impl bytemuck::AnyBitPattern for S740 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S741 { #[pasture(BUILTIN_SCANNER_CHANNEL)] f0: u16, } unsafe impl bytemuck::NoUninit for S741 {} unsafe impl bytemuck::Zeroable for S741 {} unsafe impl bytemuck::AnyBitPattern for S741 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S742 { #[pasture(BUILTIN_SCAN_DIRECTION_FLAG)] f0: u8, #[pasture(attribute = "Other")] f1: u8, } unsafe impl bytemuck::NoUninit for S742 {} unsafe impl bytemuck::Zeroable for S742 {} unsafe impl bytemuck::AnyBitPattern for S742 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S743 { #[pasture(attribute = "Other")] f0: u8, #[pasture(BUILTIN_SCAN_DIRECTION_FLAG)] f1: u8, } unsafe impl bytemuck::NoUninit for S743 {} unsafe impl bytemuck::Zeroable for S743 {} unsafe impl bytemuck::AnyBitPattern for S743 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S744 { #[pasture(BUILTIN_SCAN_DIRECTION_FLAG)] f0: u16, } unsafe impl bytemuck::NoUninit for S744 {} unsafe impl bytemuck::Zeroable for S744 {} unsafe impl bytemuck::AnyBitPattern for S744 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S745 { #[pasture(BUILTIN_EDGE_OF_FLIGHT_LINE)] f0: u8, #[pasture(attribute = "Other")] f1: u8, } unsafe impl bytemuck::NoUninit for S745 {} unsafe impl bytemuck::Zeroable for S745 {} unsafe impl bytemuck::AnyBitPattern for S745 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S746 { #[pasture(attribute = "Other")] f0: u8, #[pasture(BUILTIN_EDGE_OF_FLIGHT_LINE)] f1: u8, } unsafe impl bytemuck::NoUninit for S746 {} unsafe impl bytemuck::Zeroable for S746 {} unsafe impl bytemuck::AnyBitPattern for S746 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S747 { #[pasture(BUILTIN_EDGE_OF_FLIGHT_LINE)] f0: u16, } unsafe impl bytemuck::NoUninit for S747 {} unsafe impl bytemuck::Zeroable for S747 {} unsafe impl bytemuck::AnyBitPattern for S747 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S748 { #[pasture(BUILTIN_CLASSIFICATION)] f0: u8, #[pasture(attribute = "Other")] f1: u8, } unsafe impl bytemuck::NoUninit for S748 {} unsafe impl bytemuck::Zeroable for S748 {} unsafe impl bytemuck::AnyBitPattern for S748 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S749 { #[pasture(attribute = "Other")] f0: u8, #[pasture(BUILTIN_CLASSIFICATION)] f1: u8, } unsafe impl bytemuck::NoUninit for S749 {} unsafe impl bytemuck::Zeroable for S749 {} unsafe impl bytemuck::AnyBitPattern for S749 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S750 { #[pasture(BUILTIN_CLASSIFICATION)] f0: u16, } unsafe impl bytemuck::NoUninit for S750 {} unsafe impl bytemuck::Zeroable for S750 {} unsafe impl bytemuck::AnyBitPattern for S750 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S751 { #[pasture(BUILTIN_SCAN_ANGLE_RANK)] f0: i8, #[pasture(attribute = "Other")] f1: u8, } unsafe impl bytemuck::NoUninit for S751 {} unsafe impl bytemuck::Zeroable for S751 {} unsafe impl bytemuck::AnyBitPattern for S751 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S752 { #[pasture(attribute = "Other")] f0: u8, #[pasture(BUILTIN_SCAN_ANGLE_RANK)] f1: i8, } unsafe impl bytemuck::NoUninit for S752 {} unsafe impl bytemuck::Zeroable for S752 {} unsafe impl bytemuck::AnyBitPattern for S752 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S753 { #[pasture(BUILTIN_SCAN_ANGLE_RANK)] f0: u8, } unsafe impl bytemuck::NoUninit for S753 {} unsafe impl bytemuck::Zeroable for S753 {} unsafe impl bytemuck::AnyBitPattern for S753 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S754 { #[pasture(BUILTIN_SCAN_ANGLE)] f0: i16, #[pasture(attribute = "Other")] f1: u8, } unsafe impl bytemuck::NoUninit for S754 {} unsafe impl bytemuck::Zeroable for S754 {} unsafe impl bytemuck::AnyBitPattern for S754 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S755 { #[pasture(attribute = "Other")] f0: u8, #[pasture(BUILTIN_SCAN_ANGLE)] f1: i16, } unsafe impl bytemuck::NoUninit for S755 {} unsafe impl bytemuck::Zeroable for S755 {} unsafe impl bytemuck::AnyBitPattern for S755 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S756 { #[pasture(BUILTIN_SCAN_ANGLE)] f0: u8, } unsafe impl bytemuck::NoUninit for S756 {} unsafe impl bytemuck::Zeroable for S756 {} unsafe impl bytemuck::AnyBitPattern for S756 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S757 { #[pasture(BUILTIN_USER_DATA)] f0: u8, #[pasture(attribute = "Other")] f1: u8, } unsafe impl bytemuck::NoUninit for S757 {} unsafe impl bytemuck::Zeroable for S757 {} unsafe impl bytemuck::AnyBitPattern for S757 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S758 { #[pasture(attribute = "Other")] f0: u8, #[pasture(BUILTIN_USER_DATA)] f1: u8, } unsafe impl bytemuck::NoUninit for S758 {} unsafe impl bytemuck::Zeroable for S758 {} unsafe impl bytemuck::AnyBitPattern for S758 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S759 { #[pasture(BUILTIN_USER_DATA)] f0: u16, } unsafe impl bytemuck::NoUninit for S759 {} unsafe impl bytemuck::Zeroable for S759 {} unsafe impl bytemuck::AnyBitPattern for S759 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S760 { #[pasture(BUILTIN_POINT_SOURCE_ID)] f0: u16, #[pasture(attribute = "Other")] f1: u8, } unsafe impl bytemuck::NoUninit for S760 {} unsafe impl bytemuck::Zeroable for S760 {} unsafe impl bytemuck::AnyBitPattern for S760 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S761 { #[pasture(attribute = "Other")] f0: u8, #[pasture(BUILTIN_POINT_SOURCE_ID)] f1: u16, } unsafe impl bytemuck::NoUninit for S761 {} unsafe impl bytemuck::Zeroable for S761 {} unsafe impl bytemuck::AnyBitPattern for S761 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S762 { #[pasture(BUILTIN_POINT_SOURCE_ID)] f0: u8, } unsafe impl bytemuck::NoUninit for S762 {} unsafe impl bytemuck::Zeroable for S762 {} unsafe impl bytemuck::AnyBitPattern for S762 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S763 { #[pasture(BUILTIN_COLOR_RGB)] f0: Vector3<u16>, #[pasture(attribute = "Other")] f1: u8, } unsafe impl bytemuck::NoUninit for S763 {} unsafe impl bytemuck::Zeroable for S763 {} unsafe impl bytemuck::AnyBitPattern for S763 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S764 { #[pasture(attribute = "Other")] f0: u8, #[pasture(BUILTIN_COLOR_RGB)] f1: Vector3<u16>, } unsafe impl bytemuck::NoUninit for S764 {} unsafe impl bytemuck::Zeroable for S764 {} unsafe impl bytemuck::AnyBitPattern for S764 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S765 { #[pasture(BUILTIN_COLOR_RGB)] f0: u8, } unsafe impl bytemuck::NoUninit for S765 {} unsafe impl bytemuck::Zeroable for S765 {} unsafe impl bytemuck::AnyBitPattern for S765 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S766 { #[pasture(BUILTIN_GPS_TIME)] f0: f64, #[pasture(attribute = "Other")] f1: u8, } unsafe impl bytemuck::NoUninit for S766 {} unsafe impl bytemuck::Zeroable for S766 {} unsafe impl bytemuck::AnyBitPattern for S766 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S767 { #[pasture(attribute = "Other")] f0: u8, #[pasture(BUILTIN_GPS_TIME)] f1: f64, } unsafe impl bytemuck::NoUninit for S767 {} unsafe impl bytemuck::Zeroable for S767 {} unsafe impl bytemuck::AnyBitPattern for S767 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S768 { #[pasture(BUILTIN_GPS_TIME)] f0: u8, } unsafe impl bytemuck::NoUninit for S768 {} unsafe impl bytemuck::Zeroable for S768 {} unsafe impl bytemuck::AnyBitPattern for S768 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S769 { #[pasture(BUILTIN_NIR)] f0: u16, #[pasture(attribute = "Other")] f1: u8, } unsafe impl bytemuck::NoUninit for S769 {} unsafe impl bytemuck::Zeroable for S769 {} unsafe impl bytemuck::AnyBitPattern for S769 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S770 { #[pasture(attribute = "Other")] f0: u8, #[pasture(BUILTIN_NIR)] f1: u16, } unsafe impl bytemuck::NoUninit for S770 {} unsafe impl bytemuck::Zeroable for S770 {} unsafe impl bytemuck::AnyBitPattern for S770 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S771 { #[pasture(BUILTIN_NIR)] f0: u8, } unsafe impl bytemuck::NoUninit for S771 {} unsafe impl bytemuck::Zeroable for S771 {} unsafe impl bytemuck::AnyBitPattern for S771 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S772 { #[pasture(BUILTIN_WAVE_PACKET_DESCRIPTOR_INDEX)] f0: u8, #[pasture(attribute = "Other")] f1: u8, } unsafe impl bytemuck::NoUninit for S772 {} unsafe impl bytemuck::Zeroable for S772 {} unsafe impl bytemuck::AnyBitPattern for S772 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S773 { #[pasture(attribute = "Other")] f0: u8, #[pasture(BUILTIN_WAVE_PACKET_DESCRIPTOR_INDEX)] f1: u8, } unsafe impl bytemuck::NoUninit for S773 {} unsafe impl bytemuck::Zeroable for S773 {} unsafe impl bytemuck::AnyBitPattern for S773 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S774 { #[pasture(BUILTIN_WAVE_PACKET_DESCRIPTOR_INDEX)] f0: u16, } unsafe impl bytemuck::NoUninit for S774 {} unsafe impl bytemuck::Zeroable for S774 {} unsafe impl bytemuck::AnyBitPattern for S774 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S775 { #[pasture(BUILTIN_WAVEFORM_DATA_OFFSET)] f0: u64, #[pasture(attribute = "Other")] f1: u8, } unsafe impl bytemuck::NoUninit for S775 {} unsafe impl bytemuck::Zeroable for S775 {} unsafe impl bytemuck::AnyBitPattern for S775 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S776 { #[pasture(attribute = "Other")] f0: u8, #[pasture(BUILTIN_WAVEFORM_DATA_OFFSET)] f1: u64, } unsafe impl bytemuck::NoUninit for S776 {} unsafe impl bytemuck::Zeroable for S776 {} unsafe impl bytemuck::AnyBitPattern for S776 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S777 { #[pasture(BUILTIN_WAVEFORM_DATA_OFFSET)] f0: u8, } unsafe impl bytemuck::NoUninit for S777 {} unsafe impl bytemuck::Zeroable for S777 {} unsafe impl bytemuck::AnyBitPattern for S777 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S778 { #[pasture(BUILTIN_WAVEFORM_PACKET_SIZE)] f0: u32, #[pasture(attribute = "Other")] f1: u8, } unsafe impl bytemuck::NoUninit for S778 {} unsafe impl bytemuck::Zeroable for S778 {} unsafe impl bytemuck::AnyBitPattern for S778 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S779 { #[pasture(attribute = "Other")] f0: u8, #[pasture(BUILTIN_WAVEFORM_PACKET_SIZE)] f1: u32, } unsafe impl bytemuck::NoUninit for S779 {} unsafe impl bytemuck::Zeroable for S779 {} unsafe impl bytemuck::AnyBitPattern for S779 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S780 { #[pasture(BUILTIN_WAVEFORM_PACKET_SIZE)] f0: u8, } unsafe impl bytemuck::NoUninit for S780 {} unsafe impl bytemuck::Zeroable for S780 {} unsafe impl bytemuck::AnyBitPattern for S780 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S781 { #[pasture(BUILTIN_RETURN_POINT_WAVEFORM_LOCATION)] f0: f32, #[pasture(attribute = "Other")] f1: u8, } unsafe impl bytemuck::NoUninit for S781 {} unsafe impl bytemuck::Zeroable for S781 {} unsafe impl bytemuck::AnyBitPattern for S781 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S782 { #[pasture(attribute = "Other")] f0: u8, #[pasture(BUILTIN_RETURN_POINT_WAVEFORM_LOCATION)] f1: f32, } unsafe impl bytemuck::NoUninit for S782 {} unsafe impl bytemuck::Zeroable for S782 {} unsafe impl bytemuck::AnyBitPattern for S782 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S783 { #[pasture(BUILTIN_RETURN_POINT_WAVEFORM_LOCATION)] f0: u8, } unsafe impl bytemuck::NoUninit for S783 {} unsafe impl bytemuck::Zeroable for S783 {} unsafe impl bytemuck::AnyBitPattern for S783 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S784 { #[pasture(BUILTIN_WAVEFORM_PARAMETERS)] f0: Vector3<f32>, #[pasture(attribute = "Other")] f1: u8, } unsafe impl bytemuck::NoUninit for S784 {} unsafe impl bytemuck::Zeroable for S784 {} unsafe impl bytemuck::AnyBitPattern for S784 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S785 { #[pasture(attribute = "Other")] f0: u8, #[pasture(BUILTIN_WAVEFORM_PARAMETERS)] f1: Vector3<f32>, } unsafe impl bytemuck::NoUninit for S785 {} unsafe impl bytemuck::Zeroable for S785 {} unsafe impl bytemuck::AnyBitPattern for S785 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S786 { #[pasture(BUILTIN_WAVEFORM_PARAMETERS)] f0: u8, } unsafe impl bytemuck::NoUninit for S786 {} unsafe impl bytemuck::Zeroable for S786 {} unsafe impl bytemuck::AnyBitPattern for S786 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S787 { #[pasture(BUILTIN_POINT_ID)] f0: u64, #[pasture(attribute = "Other")] f1: u8, } unsafe impl bytemuck::NoUninit for S787 {} unsafe impl bytemuck::Zeroable for S787 {} unsafe impl bytemuck::AnyBitPattern for S787 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S788 { #[pasture(attribute = "Other")] f0: u8, #[pasture(BUILTIN_POINT_ID)] f1: u64, } unsafe impl bytemuck::NoUninit for S788 {} unsafe impl bytemuck::Zeroable for S788 {} unsafe impl bytemuck::AnyBitPattern for S788 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S789 { #[pasture(BUILTIN_POINT_ID)] f0: u8, } unsafe impl bytemuck::NoUninit for S789 {} unsafe impl bytemuck::Zeroable for S789 {} unsafe impl bytemuck::AnyBitPattern for S789 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S790 { #[pasture(BUILTIN_NORMAL)] f0: Vector3<f32>, #[pasture(attribute = "Other")] f1: u8, } unsafe impl bytemuck::NoUninit for S790 {} unsafe impl bytemuck::Zeroable for S790 {} unsafe impl bytemuck::AnyBitPattern for S790 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S791 { #[pasture(attribute = "Other")] f0: u8, #[pasture(BUILTIN_NORMAL)] f1: Vector3<f32>, } unsafe impl bytemuck::NoUninit for S791 {} unsafe impl bytemuck::Zeroable for S791 {} unsafe impl bytemuck::AnyBitPattern for S791 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S792 { #[pasture(BUILTIN_NORMAL)] f0: u8, } unsafe impl bytemuck::NoUninit for S792 {} unsafe impl bytemuck::Zeroable for S792 {} unsafe impl bytemuck::AnyBitPattern for S792 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] #[repr(packed)] pub struct S793 { #[pasture(attribute = "Alpha")] f0: u8, } unsafe impl bytemuck::NoUninit for S793 {} unsafe impl bytemuck::Zeroable for S793 {} unsafe impl bytemuck::AnyBitPattern for S793 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] #[repr(packed)] pub struct S794 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u16, } unsafe impl bytemuck::NoUninit for S794 {} unsafe impl bytemuck::Zeroable for S794 {} unsafe impl bytemuck::AnyBitPattern for S794 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] #[repr(packed)] pub struct S795 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: f64, } unsafe impl bytemuck::NoUninit for S795 {} unsafe impl bytemuck::Zeroable for S795 {} unsafe impl bytemuck::AnyBitPattern for S795 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] #[repr(packed)] pub struct S796 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S796 {} unsafe impl bytemuck::Zeroable for S796 {} unsafe impl bytemuck::AnyBitPattern for S796 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] #[repr(packed)] pub struct S797 { #[pasture(attribute = "Alpha")] f0: Vector3<u8>, #[pasture(attribute = "Beta 2")] f1: Vector3<f64>, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S797 {} unsafe impl bytemuck::Zeroable for S797 {} unsafe impl bytemuck::AnyBitPattern for S797 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] #[repr(packed)] pub struct S798 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: u8, #[pasture(attribute = "Δ")] f3: u32, } unsafe impl bytemuck::NoUninit for S798 {} unsafe impl bytemuck::Zeroable for S798 {} unsafe impl bytemuck::AnyBitPattern for S798 {}
#[derive(PointType, Copy, Clone)] #[repr(packed)] pub struct S799 { #[pasture(attribute = "Alpha")] f0: u8, } unsafe impl bytemuck::NoUninit for S799 {} unsafe impl bytemuck::Zeroable for S799 {} unsafe impl bytemuck::AnyBitPattern for S799 {}
#[derive(PointType, Copy, Clone)] #[repr(packed)] pub struct S800 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u16, } unsafe impl bytemuck::NoUninit for S800 {} unsafe impl bytemuck::Zeroable for S800 {} unsafe impl bytemuck::AnyBitPattern for S800 {}
#[derive(PointType, Copy, Clone)] #[repr(packed)] pub struct S801 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: f64, } unsafe impl bytemuck::NoUninit for S801 {} unsafe impl bytemuck::Zeroable for S801 {} unsafe impl bytemuck::AnyBitPattern for S801 {}
#[derive(PointType, Copy, Clone)] #[repr(packed)] pub struct S802 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S802 {} unsafe impl bytemuck::Zeroable for S802 {} unsafe impl bytemuck::AnyBitPattern for S802 {}
#[derive(PointType, Copy, Clone)] #[repr(packed)] pub struct S803 { #[pasture(attribute = "Alpha")] f0: Vector3<u8>, #[pasture(attribute = "Beta 2")] f1: Vector3<f64>, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S803 {} unsafe impl bytemuck::Zeroable for S803 {} unsafe impl bytemuck::AnyBitPattern for S803 {}
#[derive(PointType, Copy, Clone)] #[repr(packed)] pub struct S804 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: u8, #[pasture(attribute = "Δ")] f3: u32, } unsafe impl bytemuck::NoUninit for S804 {} unsafe impl bytemuck::Zeroable for S804 {} unsafe impl bytemuck::AnyBitPattern for S804 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(2))] pub struct S805 { #[pasture(attribute = "Alpha")] f0: u8, } unsafe impl bytemuck::NoUninit for S805 {} unsafe impl bytemuck::Zeroable for S805 {} unsafe impl bytemuck::AnyBitPattern for S805 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(2))] pub struct S806 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u16, } unsafe impl bytemuck::NoUninit for S806 {} unsafe impl bytemuck::Zeroable for S806 {} unsafe impl bytemuck::AnyBitPattern for S806 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(2))] pub struct S807 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: f64, } unsafe impl bytemuck::NoUninit for S807 {} unsafe impl bytemuck::Zeroable for S807 {} unsafe impl bytemuck::AnyBitPattern for S807 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(2))] pub struct S808 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S808 {} unsafe impl bytemuck::Zeroable for S808 {} unsafe impl bytemuck::AnyBitPattern for S808 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(2))] pub struct S809 { #[pasture(attribute = "Alpha")] f0: Vector3<u8>, #[pasture(attribute = "Beta 2")] f1: Vector3<f64>, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S809 {} unsafe impl bytemuck::Zeroable for S809 {} unsafe impl bytemuck::AnyBitPattern for S809 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(2))] pub struct S810 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: u8, #[pasture(attribute = "Δ")] f3: u32, } unsafe impl bytemuck::NoUninit for S810 {} unsafe impl bytemuck::Zeroable for S810 {} unsafe impl bytemuck::AnyBitPattern for S810 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] #[repr(packed(4))] pub struct S811 { #[pasture(attribute = "Alpha")] f0: u8, } unsafe impl bytemuck::NoUninit for S811 {} unsafe impl bytemuck::Zeroable for S811 {} unsafe impl bytemuck::AnyBitPattern for S811 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] #[repr(packed(4))] pub struct S812 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u16, } unsafe impl bytemuck::NoUninit for S812 {} unsafe impl bytemuck::Zeroable for S812 {} unsafe impl bytemuck::AnyBitPattern for S812 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] #[repr(packed(4))] pub struct S813 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: f64, } unsafe impl bytemuck::NoUninit for S813 {} unsafe impl bytemuck::Zeroable for S813 {} unsafe impl bytemuck::AnyBitPattern for S813 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] #[repr(packed(4))] pub struct S814 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S814 {} unsafe impl bytemuck::Zeroable for S814 {} unsafe impl bytemuck::AnyBitPattern for S814 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] #[repr(packed(4))] pub struct S815 { #[pasture(attribute = "Alpha")] f0: Vector3<u8>, #[pasture(attribute = "Beta 2")] f1: Vector3<f64>, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S815 {} unsafe impl bytemuck::Zeroable for S815 {} unsafe impl bytemuck::AnyBitPattern for S815 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] #[repr(packed(4))] pub struct S816 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: u8, #[pasture(attribute = "Δ")] f3: u32, } unsafe impl bytemuck::NoUninit for S816 {} unsafe impl bytemuck::Zeroable for S816 {} unsafe impl bytemuck::AnyBitPattern for S816 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(1), C)] pub struct S817 { #[pasture(attribute = "Alpha")] f0: u8, } unsafe impl bytemuck::NoUninit for S817 {} unsafe impl bytemuck::Zeroable for S817 {} unsafe impl bytemuck::AnyBitPattern for S817 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(1), C)] pub struct S818 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u16, } unsafe impl bytemuck::NoUninit for S818 {} unsafe impl bytemuck::Zeroable for S818 {} unsafe impl bytemuck::AnyBitPattern for S818 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(1), C)] pub struct S819 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: f64, } unsafe impl bytemuck::NoUninit for S819 {} unsafe impl bytemuck::Zeroable for S819 {} unsafe impl bytemuck::AnyBitPattern for S819 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(1), C)] pub struct S820 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S820 {} unsafe impl bytemuck::Zeroable for S820 {} unsafe impl bytemuck::AnyBitPattern for S820 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(1), C)] pub struct S821 { #[pasture(attribute = "Alpha")] f0: Vector3<u8>, #[pasture(attribute = "Beta 2")] f1: Vector3<f64>, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S821 {} unsafe impl bytemuck::Zeroable for S821 {} unsafe impl bytemuck::AnyBitPattern for S821 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(1), C)] pub struct S822 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: u8, #[pasture(attribute = "Δ")] f3: u32, } unsafe impl bytemuck::NoUninit for S822 {} unsafe impl bytemuck::Zeroable for S822 {} unsafe impl bytemuck::AnyBitPattern for S822 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(16))] pub struct S823 { #[pasture(attribute = "Alpha")] f0: u8, } unsafe impl bytemuck::NoUninit for S823 {} unsafe impl bytemuck::Zeroable for S823 {} unsafe impl bytemuck::AnyBitPattern for S823 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(16))] pub struct S824 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u16, } unsafe impl bytemuck::NoUninit for S824 {} unsafe impl bytemuck::Zeroable for S824 {} unsafe impl bytemuck::AnyBitPattern for S824 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(16))] pub struct S825 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: f64, } unsafe impl bytemuck::NoUninit for S825 {} unsafe impl bytemuck::Zeroable for S825 {} unsafe impl bytemuck::AnyBitPattern for S825 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(16))] pub struct S826 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S826 {} unsafe impl bytemuck::Zeroable for S826 {} unsafe impl bytemuck::AnyBitPattern for S826 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(16))] pub struct S827 { #[pasture(attribute = "Alpha")] f0: Vector3<u8>, #[pasture(attribute = "Beta 2")] f1: Vector3<f64>, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S827 {} unsafe impl bytemuck::Zeroable for S827 {} unsafe impl bytemuck::AnyBitPattern for S827 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(16))] pub struct S828 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: u8, #[pasture(attribute = "Δ")] f3: u32, } unsafe impl bytemuck::NoUninit for S828 {} unsafe impl bytemuck::Zeroable for S828 {} unsafe impl bytemuck::AnyBitPattern for S828 {}
#[derive(PointType, Copy, Clone)] #[repr(C, align(2))] pub struct S829 { #[pasture(attribute = "Alpha")] f0: u8, } unsafe impl bytemuck::NoUninit for S829 {} unsafe impl bytemuck::Zeroable for S829 {} unsafe impl bytemuck::AnyBitPattern for S829 {}
#[derive(PointType, Copy, Clone)] #[repr(C, align(2))] pub struct S830 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u16, } unsafe impl bytemuck::NoUninit for S830 {} unsafe impl bytemuck::Zeroable for S830 {} unsafe impl bytemuck::AnyBitPattern for S830 {}
#[derive(PointType, Copy, Clone)] #[repr(C, align(2))] pub struct S831 { #[pasture(attribute = "Alpha")] f0: f64, #[pasture(attribute = "Beta 2")] f1: f64, } unsafe impl bytemuck::NoUninit for S831 {} unsafe impl bytemuck::Zeroable for S831 {} unsafe impl bytemuck::AnyBitPattern for S831 {}
#[derive(PointType, Copy, Clone)] #[repr(C, align(2))] pub struct S832 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S832 {} unsafe impl bytemuck::Zeroable for S832 {} unsafe impl bytemuck::AnyBitPattern for S832 {}
#[derive(PointType, Copy, Clone)] #[repr(C, align(2))] pub struct S833 { #[pasture(attribute = "Alpha")] f0: Vector3<u8>, #[pasture(attribute = "Beta 2")] f1: Vector3<f64>, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S833 {} unsafe impl bytemuck::Zeroable for S833 {} unsafe impl bytemuck::AnyBitPattern for S833 {}
#[derive(PointType, Copy, Clone)] #[repr(C, align(16))] pub struct S834 { #[pasture(attribute = "Alpha")] f0: u8, } unsafe impl bytemuck::NoUninit for S834 {} unsafe impl bytemuck::Zeroable for S834 {} unsafe impl bytemuck::AnyBitPattern for S834 {}
#[derive(PointType, Copy, Clone)] #[repr(C, align(16))] pub struct S835 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u16, } unsafe impl bytemuck::NoUninit for S835 {} unsafe impl bytemuck::Zeroable for S835 {} unsafe impl bytemuck::AnyBitPattern for S835 {}
#[derive(PointType, Copy, Clone)] #[repr(C, align(16))] pub struct S836 { #[pasture(attribute = "Alpha")] f0: f64, #[pasture(attribute = "Beta 2")] f1: f64, } unsafe impl bytemuck::NoUninit for S836 {} unsafe impl bytemuck::Zeroable for S836 {} unsafe impl bytemuck::AnyBitPattern for S836 {}
#[derive(PointType, Copy, Clone)] #[repr(C, align(16))] pub struct S837 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S837 {} unsafe impl bytemuck::Zeroable for S837 {} unsafe impl bytemuck::AnyBitPattern for S837 {}
#[derive(PointType, Copy, Clone)] #[repr(C, align(16))] pub struct S838 { #[pasture(attribute = "Alpha")] f0: Vector3<u8>, #[pasture(attribute = "Beta 2")] f1: Vector3<f64>, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S838 {} unsafe impl bytemuck::Zeroable for S838 {} unsafe impl bytemuck::AnyBitPattern for S838 {}
#[derive(PointType, Copy, Clone)] #[repr(align(8), C)] pub struct S839 { #[pasture(attribute = "Alpha")] f0: u8, } unsafe impl bytemuck::NoUninit for S839 {} unsafe impl bytemuck::Zeroable for S839 {} unsafe impl bytemuck::AnyBitPattern for S839 {}
#[derive(PointType, Copy, Clone)] #[repr(align(8), C)] pub struct S840 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u16, } unsafe impl bytemuck::NoUninit for S840 {} unsafe impl bytemuck::Zeroable for S840 {} unsafe impl bytemuck::AnyBitPattern for S840 {}
#[derive(PointType, Copy, Clone)] #[repr(align(8), C)] pub struct S841 { #[pasture(attribute = "Alpha")] f0: f64, #[pasture(attribute = "Beta 2")] f1: f64, } unsafe impl bytemuck::NoUninit for S841 {} unsafe impl bytemuck::Zeroable for S841 {} unsafe impl bytemuck::AnyBitPattern for S841 {}
#[derive(PointType, Copy, Clone)] #[repr(align(8), C)] pub struct S842 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S842 {} unsafe impl bytemuck::Zeroable for S842 {} unsafe impl bytemuck::AnyBitPattern for S842 {}
#[derive(PointType, Copy, Clone)] #[repr(align(8), C)] pub struct S843 { #[pasture(attribute = "Alpha")] f0: Vector3<u8>, #[pasture(attribute = "Beta 2")] f1: Vector3<f64>, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S843 {} unsafe impl bytemuck::Zeroable for S843 {} unsafe impl bytemuck::AnyBitPattern for S843 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] #[repr(align(64))] pub struct S844 { #[pasture(attribute = "Alpha")] f0: u8, } unsafe impl bytemuck::NoUninit for S844 {} unsafe impl bytemuck::Zeroable for S844 {} unsafe impl bytemuck::AnyBitPattern for S844 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] #[repr(align(64))] pub struct S845 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u16, } unsafe impl bytemuck::NoUninit for S845 {} unsafe impl bytemuck::Zeroable for S845 {} unsafe impl bytemuck::AnyBitPattern for S845 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] #[repr(align(64))] pub struct S846 { #[pasture(attribute = "Alpha")] f0: f64, #[pasture(attribute = "Beta 2")] f1: f64, } unsafe impl bytemuck::NoUninit for S846 {} unsafe impl bytemuck::Zeroable for S846 {} unsafe impl bytemuck::AnyBitPattern for S846 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] #[repr(align(64))] pub struct S847 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S847 {} unsafe impl bytemuck::Zeroable for S847 {} unsafe impl bytemuck::AnyBitPattern for S847 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] #[repr(align(64))] pub struct S848 { #[pasture(attribute = "Alpha")] f0: Vector3<u8>, #[pasture(attribute = "Beta 2")] f1: Vector3<f64>, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S848 {} unsafe impl bytemuck::Zeroable for S848 {} unsafe impl bytemuck::AnyBitPattern for S848 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] #[repr(align(1))] pub struct S849 { #[pasture(attribute = "Alpha")] f0: u8, } unsafe impl bytemuck::NoUninit for S849 {} unsafe impl bytemuck::Zeroable for S849 {} unsafe impl bytemuck::AnyBitPattern for S849 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] #[repr(align(1))] pub struct S850 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: u16, } unsafe impl bytemuck::NoUninit for S850 {} unsafe impl bytemuck::Zeroable for S850 {} unsafe impl bytemuck::AnyBitPattern for S850 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] #[repr(align(1))] pub struct S851 { #[pasture(attribute = "Alpha")] f0: f64, #[pasture(attribute = "Beta 2")] f1: f64, } unsafe impl bytemuck::NoUninit for S851 {} unsafe impl bytemuck::Zeroable for S851 {} unsafe impl bytemuck::AnyBitPattern for S851 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] #[repr(align(1))] pub struct S852 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: f32, } unsafe impl bytemuck::NoUninit for S852 {} unsafe impl bytemuck::Zeroable for S852 {} unsafe impl bytemuck::AnyBitPattern for S852 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] #[repr(align(1))] pub struct S853 { #[pasture(attribute = "Alpha")] f0: Vector3<u8>, #[pasture(attribute = "Beta 2")] f1: Vector3<f64>, #[pasture(attribute = "Position3D")] f2: u8, } unsafe impl bytemuck::NoUninit for S853 {} unsafe impl bytemuck::Zeroable for S853 {} unsafe impl bytemuck::AnyBitPattern for S853 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S854 ( #[pasture(attribute = "Alpha")] u16, ); unsafe impl bytemuck::NoUninit for S854 {} unsafe impl bytemuck::Zeroable for S854 {} unsafe impl bytemuck::AnyBitPattern for S854 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S855 ( #[pasture(attribute = "Alpha")] u8, #[pasture(attribute = "Beta 2")] Vector4<u8>, ); unsafe impl bytemuck::NoUninit for S855 {} unsafe impl bytemuck::Zeroable for S855 {} unsafe impl bytemuck::AnyBitPattern for S855 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S856 ( #[pasture(attribute = "Alpha")] u8, #[pasture(attribute = "Beta 2")] f64, ); unsafe impl bytemuck::NoUninit for S856 {} unsafe impl bytemuck::Zeroable for S856 {} unsafe impl bytemuck::AnyBitPattern for S856 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S857 ( #[pasture(attribute = "Alpha")] u16, #[pasture(attribute = "Beta 2")] u8, #[pasture(attribute = "Position3D")] f32, ); unsafe impl bytemuck::NoUninit for S857 {} unsafe impl bytemuck::Zeroable for S857 {} unsafe impl bytemuck::AnyBitPattern for S857 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S858 ( #[pasture(attribute = "Alpha")] u8, #[pasture(attribute = "Beta 2")] i64, #[pasture(attribute = "Position3D")] u8, #[pasture(attribute = "Δ")] u32, ); unsafe impl bytemuck::NoUninit for S858 {} unsafe impl bytemuck::Zeroable for S858 {} unsafe impl bytemuck::AnyBitPattern for S858 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S859 ( #[pasture(attribute = "Alpha")] u16, ); unsafe impl bytemuck::NoUninit for S859 {} unsafe impl bytemuck::Zeroable for S859 {} unsafe impl bytemuck::AnyBitPattern for S859 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S860 ( #[pasture(attribute = "Alpha")] u8, #[pasture(attribute = "Beta 2")] Vector4<u8>, ); unsafe impl bytemuck::NoUninit for S860 {} unsafe impl bytemuck::Zeroable for S860 {} unsafe impl bytemuck::AnyBitPattern for S860 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S861 ( #[pasture(attribute = "Alpha")] u8, #[pasture(attribute = "Beta 2")] f64, ); unsafe impl bytemuck::NoUninit for S861 {} unsafe impl bytemuck::Zeroable for S861 {} unsafe impl bytemuck::AnyBitPattern for S861 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S862 ( #[pasture(attribute = "Alpha")] u16, #[pasture(attribute = "Beta 2")] u8, #[pasture(attribute = "Position3D")] f32, ); unsafe impl bytemuck::NoUninit for S862 {} unsafe impl bytemuck::Zeroable for S862 {} unsafe impl bytemuck::AnyBitPattern for S862 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed)] pub struct S863 ( #[pasture(attribute = "Alpha")] u8, #[pasture(attribute = "Beta 2")] i64, #[pasture(attribute = "Position3D")] u8, #[pasture(attribute = "Δ")] u32, ); unsafe impl bytemuck::NoUninit for S863 {} unsafe impl bytemuck::Zeroable for S863 {} unsafe impl bytemuck::AnyBitPattern for S863 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S864 ( #[pasture(attribute = "Alpha")] u16, ); unsafe impl bytemuck::NoUninit for S864 {} unsafe impl bytemuck::Zeroable for S864 {} unsafe impl bytemuck::AnyBitPattern for S864 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S865 ( #[pasture(attribute = "Alpha")] u8, #[pasture(attribute = "Beta 2")] Vector4<u8>, ); unsafe impl bytemuck::NoUninit for S865 {} unsafe impl bytemuck::Zeroable for S865 {} unsafe impl bytemuck::AnyBitPattern for S865 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S866 ( #[pasture(attribute = "Alpha")] u8, #[pasture(attribute = "Beta 2")] f64, ); unsafe impl bytemuck::NoUninit for S866 {} unsafe impl bytemuck::Zeroable for S866 {} unsafe impl bytemuck::AnyBitPattern for S866 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S867 ( #[pasture(attribute = "Alpha")] u16, #[pasture(attribute = "Beta 2")] u8, #[pasture(attribute = "Position3D")] f32, ); unsafe impl bytemuck::NoUninit for S867 {} unsafe impl bytemuck::Zeroable for S867 {} unsafe impl bytemuck::AnyBitPattern for S867 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(2))] pub struct S868 ( #[pasture(attribute = "Alpha")] u8, #[pasture(attribute = "Beta 2")] i64, #[pasture(attribute = "Position3D")] u8, #[pasture(attribute = "Δ")] u32, ); unsafe impl bytemuck::NoUninit for S868 {} unsafe impl bytemuck::Zeroable for S868 {} unsafe impl bytemuck::AnyBitPattern for S868 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S869 ( #[pasture(attribute = "Alpha")] u16, ); unsafe impl bytemuck::NoUninit for S869 {} unsafe impl bytemuck::Zeroable for S869 {} unsafe impl bytemuck::AnyBitPattern for S869 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S870 ( #[pasture(attribute = "Alpha")] u8, #[pasture(attribute = "Beta 2")] Vector4<u8>, ); unsafe impl bytemuck::NoUninit for S870 {} unsafe impl bytemuck::Zeroable for S870 {} unsafe impl bytemuck::AnyBitPattern for S870 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S871 ( #[pasture(attribute = "Alpha")] u8, #[pasture(attribute = "Beta 2")] f64, ); unsafe impl bytemuck::NoUninit for S871 {} unsafe impl bytemuck::Zeroable for S871 {} unsafe impl bytemuck::AnyBitPattern for S871 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S872 ( #[pasture(attribute = "Alpha")] u16, #[pasture(attribute = "Beta 2")] u8, #[pasture(attribute = "Position3D")] f32, ); unsafe impl bytemuck::NoUninit for S872 {} unsafe impl bytemuck::Zeroable for S872 {} unsafe impl bytemuck::AnyBitPattern for S872 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(4))] #[repr(C)] pub struct S873 ( #[pasture(attribute = "Alpha")] u8, #[pasture(attribute = "Beta 2")] i64, #[pasture(attribute = "Position3D")] u8, #[pasture(attribute = "Δ")] u32, ); unsafe impl bytemuck::NoUninit for S873 {} unsafe impl bytemuck::Zeroable for S873 {} unsafe impl bytemuck::AnyBitPattern for S873 {}
#[derive(PointType, Copy, Clone)] #[repr(packed)] pub struct S874 ( #[pasture(attribute = "Alpha")] u16, ); unsafe impl bytemuck::NoUninit for S874 {} unsafe impl bytemuck::Zeroable for S874 {} unsafe impl bytemuck::AnyBitPattern for S874 {}
#[derive(PointType, Copy, Clone)] #[repr(packed)] pub struct S875 ( #[pasture(attribute = "Alpha")] u8, #[pasture(attribute = "Beta 2")] Vector4<u8>, ); unsafe impl bytemuck::NoUninit for S875 {} unsafe impl bytemuck::Zeroable for S875 {} unsafe impl bytemuck::AnyBitPattern for S875 {}
#[derive(PointType, Copy, Clone)] #[repr(packed)] pub struct S876 ( #[pasture(attribute = "Alpha")] u8, #[pasture(attribute = "Beta 2")] f64, ); unsafe impl bytemuck::NoUninit for S876 {} unsafe impl bytemuck::Zeroable for S876 {} unsafe impl bytemuck::AnyBitPattern for S876 {}
#[derive(PointType, Copy, Clone)] #[repr(packed)] pub struct S877 ( #[pasture(attribute = "Alpha")] u16, #[pasture(attribute = "Beta 2")] u8, #[pasture(attribute = "Position3D")] f32, ); unsafe impl bytemuck::NoUninit for S877 {} unsafe impl bytemuck::Zeroable for S877 {} unsafe impl bytemuck::AnyBitPattern for S877 {}
#[derive(PointType, Copy, Clone)] #[repr(packed)] pub struct S878 ( #[pasture(attribute = "Alpha")] u8, #[pasture(attribute = "Beta 2")] i64, #[pasture(attribute = "Position3D")] u8, #[pasture(attribute = "Δ")] u32, ); unsafe impl bytemuck::NoUninit for S878 {} unsafe impl bytemuck::Zeroable for S878 {} unsafe impl bytemuck::AnyBitPattern for S878 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(2))] pub struct S879 ( #[pasture(attribute = "Alpha")] u16, ); unsafe impl bytemuck::NoUninit for S879 {} unsafe impl bytemuck::Zeroable for S879 {} unsafe impl bytemuck::AnyBitPattern for S879 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(2))] pub struct S880 ( #[pasture(attribute = "Alpha")] u8, #[pasture(attribute = "Beta 2")] Vector4<u8>, ); unsafe impl bytemuck::NoUninit for S880 {} unsafe impl bytemuck::Zeroable for S880 {} unsafe impl bytemuck::AnyBitPattern for S880 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(2))] pub struct S881 ( #[pasture(attribute = "Alpha")] u8, #[pasture(attribute = "Beta 2")] f64, ); unsafe impl bytemuck::NoUninit for S881 {} unsafe impl bytemuck::Zeroable for S881 {} unsafe impl bytemuck::AnyBitPattern for S881 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(2))] pub struct S882 ( #[pasture(attribute = "Alpha")] u16, #[pasture(attribute = "Beta 2")] u8, #[pasture(attribute = "Position3D")] f32, ); unsafe impl bytemuck::NoUninit for S882 {} unsafe impl bytemuck::Zeroable for S882 {} unsafe impl bytemuck::AnyBitPattern for S882 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(2))] pub struct S883 ( #[pasture(attribute = "Alpha")] u8, #[pasture(attribute = "Beta 2")] i64, #[pasture(attribute = "Position3D")] u8, #[pasture(attribute = "Δ")] u32, ); unsafe impl bytemuck::NoUninit for S883 {} unsafe impl bytemuck::Zeroable for S883 {} unsafe impl bytemuck::AnyBitPattern for S883 {}
#[derive(PointType, Copy, Clone)] #[repr(C, align(16))] pub struct S884 ( #[pasture(attribute = "Alpha")] u16, ); unsafe impl bytemuck::NoUninit for S884 {} unsafe impl bytemuck::Zeroable for S884 {} unsafe impl bytemuck::AnyBitPattern for S884 {}
#[derive(PointType, Copy, Clone)] #[repr(C, align(16))] pub struct S885 ( #[pasture(attribute = "Alpha")] u8, #[pasture(attribute = "Beta 2")] Vector4<u8>, ); unsafe impl bytemuck::NoUninit for S885 {} unsafe impl bytemuck::Zeroable for S885 {} unsafe impl bytemuck::AnyBitPattern for S885 {}
#[derive(PointType, Copy, Clone)] #[repr(C, align(16))] pub struct S886 ( #[pasture(attribute = "Alpha")] u8, #[pasture(attribute = "Beta 2")] f64, ); unsafe impl bytemuck::NoUninit for S886 {} unsafe impl bytemuck::Zeroable for S886 {} unsafe impl bytemuck::AnyBitPattern for S886 {}
#[derive(PointType, Copy, Clone)] #[repr(C, align(16))] pub struct S887 ( #[pasture(attribute = "Alpha")] u16, #[pasture(attribute = "Beta 2")] u8, #[pasture(attribute = "Position3D")] f32, ); unsafe impl bytemuck::NoUninit for S887 {} unsafe impl bytemuck::Zeroable for S887 {} unsafe impl bytemuck::AnyBitPattern for S887 {}
#[derive(PointType, Copy, Clone)] #[repr(C, align(16))] pub struct S888 ( #[pasture(attribute = "Alpha")] u8, #[pasture(attribute = "Beta 2")] i64, #[pasture(attribute = "Position3D")] u8, #[pasture(attribute = "Δ")] u32, ); unsafe impl bytemuck::NoUninit for S888 {} unsafe impl bytemuck::Zeroable for S888 {} unsafe impl bytemuck::AnyBitPattern for S888 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] #[repr(C)] #[repr(packed(2))] pub struct S889 { #[pasture(attribute = "Alpha")] f0: u8, } unsafe impl bytemuck::NoUninit for S889 {} unsafe impl bytemuck::Zeroable for S889 {} unsafe impl bytemuck::AnyBitPattern for S889 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] #[repr(C)] #[repr(packed(2))] pub struct S890 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: f64, } unsafe impl bytemuck::NoUninit for S890 {} unsafe impl bytemuck::Zeroable for S890 {} unsafe impl bytemuck::AnyBitPattern for S890 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] #[repr(C)] #[repr(packed(2))] pub struct S891 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: u8, #[pasture(attribute = "Δ")] f3: u32, } unsafe impl bytemuck::NoUninit for S891 {} unsafe impl bytemuck::Zeroable for S891 {} unsafe impl bytemuck::AnyBitPattern for S891 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(2))] #[repr(C)] #[repr(C)] pub struct S892 { #[pasture(attribute = "Alpha")] f0: u8, } unsafe impl bytemuck::NoUninit for S892 {} unsafe impl bytemuck::Zeroable for S892 {} unsafe impl bytemuck::AnyBitPattern for S892 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(2))] #[repr(C)] #[repr(C)] pub struct S893 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: f64, } unsafe impl bytemuck::NoUninit for S893 {} unsafe impl bytemuck::Zeroable for S893 {} unsafe impl bytemuck::AnyBitPattern for S893 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(2))] #[repr(C)] #[repr(C)] pub struct S894 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: u8, #[pasture(attribute = "Δ")] f3: u32, } unsafe impl bytemuck::NoUninit for S894 {} unsafe impl bytemuck::Zeroable for S894 {} unsafe impl bytemuck::AnyBitPattern for S894 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(2), C, C, C)] pub struct S895 { #[pasture(attribute = "Alpha")] f0: u8, } unsafe impl bytemuck::NoUninit for S895 {} unsafe impl bytemuck::Zeroable for S895 {} unsafe impl bytemuck::AnyBitPattern for S895 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(2), C, C, C)] pub struct S896 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: f64, } unsafe impl bytemuck::NoUninit for S896 {} unsafe impl bytemuck::Zeroable for S896 {} unsafe impl bytemuck::AnyBitPattern for S896 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(2), C, C, C)] pub struct S897 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: u8, #[pasture(attribute = "Δ")] f3: u32, } unsafe impl bytemuck::NoUninit for S897 {} unsafe impl bytemuck::Zeroable for S897 {} unsafe impl bytemuck::AnyBitPattern for S897 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(2), C, packed(2))] pub struct S898 { #[pasture(attribute = "Alpha")] f0: u8, } unsafe impl bytemuck::NoUninit for S898 {} unsafe impl bytemuck::Zeroable for S898 {} unsafe impl bytemuck::AnyBitPattern for S898 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(2), C, packed(2))] pub struct S899 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: f64, } unsafe impl bytemuck::NoUninit for S899 {} unsafe impl bytemuck::Zeroable for S899 {} unsafe impl bytemuck::AnyBitPattern for S899 {}
#[derive(PointType, Copy, Clone)] #[repr(packed(2), C, packed(2))] pub struct S900 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: u8, #[pasture(attribute = "Δ")] f3: u32, } unsafe impl bytemuck::NoUninit for S900 {} unsafe impl bytemuck::Zeroable for S900 {} unsafe impl bytemuck::AnyBitPattern for S900 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(0x2))] pub struct S901 { #[pasture(attribute = "Alpha")] f0: u8, } unsafe impl bytemuck::NoUninit for S901 {} unsafe impl bytemuck::Zeroable for S901 {} unsafe impl bytemuck::AnyBitPattern for S901 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(0x2))] pub struct S902 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: f64, } unsafe impl bytemuck::NoUninit for S902 {} unsafe impl bytemuck::Zeroable for S902 {} unsafe impl bytemuck::AnyBitPattern for S902 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(0x2))] pub struct S903 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: u8, #[pasture(attribute = "Δ")] f3: u32, } unsafe impl bytemuck::NoUninit for S903 {} unsafe impl bytemuck::Zeroable for S903 {} unsafe impl bytemuck::AnyBitPattern for S903 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(0b100))] pub struct S904 { #[pasture(attribute = "Alpha")] f0: u8, } unsafe impl bytemuck::NoUninit for S904 {} unsafe impl bytemuck::Zeroable for S904 {} unsafe impl bytemuck::AnyBitPattern for S904 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(0b100))] pub struct S905 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: f64, } unsafe impl bytemuck::NoUninit for S905 {} unsafe impl bytemuck::Zeroable for S905 {} unsafe impl bytemuck::AnyBitPattern for S905 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(0b100))] pub struct S906 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: u8, #[pasture(attribute = "Δ")] f3: u32, } unsafe impl bytemuck::NoUninit for S906 {} unsafe impl bytemuck::Zeroable for S906 {} unsafe impl bytemuck::AnyBitPattern for S906 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(0o4))] pub struct S907 { #[pasture(attribute = "Alpha")] f0: u8, } unsafe impl bytemuck::NoUninit for S907 {} unsafe impl bytemuck::Zeroable for S907 {} unsafe impl bytemuck::AnyBitPattern for S907 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(0o4))] pub struct S908 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: f64, } unsafe impl bytemuck::NoUninit for S908 {} unsafe impl bytemuck::Zeroable for S908 {} unsafe impl bytemuck::AnyBitPattern for S908 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(0o4))] pub struct S909 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: u8, #[pasture(attribute = "Δ")] f3: u32, } unsafe impl bytemuck::NoUninit for S909 {} unsafe impl bytemuck::Zeroable for S909 {} unsafe impl bytemuck::AnyBitPattern for S909 {}
#[derive(PointType, Copy, Clone)] #[repr(C, align(0x10))] pub struct S910 { #[pasture(attribute = "Alpha")] f0: u8, } unsafe impl bytemuck::NoUninit for S910 {} unsafe impl bytemuck::Zeroable for S910 {} unsafe impl bytemuck::AnyBitPattern for S910 {}
#[derive(PointType, Copy, Clone)] #[repr(C, align(0x10))] pub struct S911 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: f64, } unsafe impl bytemuck::NoUninit for S911 {} unsafe impl bytemuck::Zeroable for S911 {} unsafe impl bytemuck::AnyBitPattern for S911 {}
#[derive(PointType, Copy, Clone)] #[repr(C, align(0x10))] pub struct S912 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: u8, #[pasture(attribute = "Δ")] f3: u32, } unsafe impl bytemuck::NoUninit for S912 {} unsafe impl bytemuck::Zeroable for S912 {} unsafe impl bytemuck::AnyBitPattern for S912 {}
#[derive(PointType, Copy, Clone)] #[repr(C, align(2), align(8), align(4))] pub struct S913 { #[pasture(attribute = "Alpha")] f0: u8, } unsafe impl bytemuck::NoUninit for S913 {} unsafe impl bytemuck::Zeroable for S913 {} unsafe impl bytemuck::AnyBitPattern for S913 {}
#[derive(PointType, Copy, Clone)] #[repr(C, align(2), align(8), align(4))] pub struct S914 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: f64, } unsafe impl bytemuck::NoUninit for S914 {} unsafe impl bytemuck::Zeroable for S914 {} unsafe impl bytemuck::AnyBitPattern for S914 {}
#[derive(PointType, Copy, Clone)] #[repr(C, align(2), align(8), align(4))] pub struct S915 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: u8, #[pasture(attribute = "Δ")] f3: u32, } unsafe impl bytemuck::NoUninit for S915 {} unsafe impl bytemuck::Zeroable for S915 {} unsafe impl bytemuck::AnyBitPattern for S915 {}
#[derive(PointType, Copy, Clone)] #[repr(align(32))] #[repr(C)] #[repr(align(16))] pub struct S916 { #[pasture(attribute = "Alpha")] f0: u8, } unsafe impl bytemuck::NoUninit for S916 {} unsafe impl bytemuck::Zeroable for S916 {} unsafe impl bytemuck::AnyBitPattern for S916 {}
#[derive(PointType, Copy, Clone)] #[repr(align(32))] #[repr(C)] #[repr(align(16))] pub struct S917 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: f64, } unsafe impl bytemuck::NoUninit for S917 {} unsafe impl bytemuck::Zeroable for S917 {} unsafe impl bytemuck::AnyBitPattern for S917 {}
#[derive(PointType, Copy, Clone)] #[repr(align(32))] #[repr(C)] #[repr(align(16))] pub struct S918 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: u8, #[pasture(attribute = "Δ")] f3: u32, } unsafe impl bytemuck::NoUninit for S918 {} unsafe impl bytemuck::Zeroable for S918 {} unsafe impl bytemuck::AnyBitPattern for S918 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(536870912))] pub struct S919 { #[pasture(attribute = "Alpha")] f0: u8, } unsafe impl bytemuck::NoUninit for S919 {} unsafe impl bytemuck::Zeroable for S919 {} unsafe impl bytemuck::AnyBitPattern for S919 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(536870912))] pub struct S920 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: f64, } unsafe impl bytemuck::NoUninit for S920 {} unsafe impl bytemuck::Zeroable for S920 {} unsafe impl bytemuck::AnyBitPattern for S920 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(536870912))] pub struct S921 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: u8, #[pasture(attribute = "Δ")] f3: u32, } unsafe impl bytemuck::NoUninit for S921 {} unsafe impl bytemuck::Zeroable for S921 {} unsafe impl bytemuck::AnyBitPattern for S921 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(0_2))] pub struct S922 { #[pasture(attribute = "Alpha")] f0: u8, } unsafe impl bytemuck::NoUninit for S922 {} unsafe impl bytemuck::Zeroable for S922 {} unsafe impl bytemuck::AnyBitPattern for S922 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(0_2))] pub struct S923 { #[pasture(attribute = "Alpha")] f0: u16, #[pasture(attribute = "Beta 2")] f1: u8, #[pasture(attribute = "Position3D")] f2: f64, } unsafe impl bytemuck::NoUninit for S923 {} unsafe impl bytemuck::Zeroable for S923 {} unsafe impl bytemuck::AnyBitPattern for S923 {}
#[derive(PointType, Copy, Clone)] #[repr(C, packed(0_2))] pub struct S924 { #[pasture(attribute = "Alpha")] f0: u8, #[pasture(attribute = "Beta 2")] f1: i64, #[pasture(attribute = "Position3D")] f2: u8, #[pasture(attribute = "Δ")] f3: u32, } unsafe impl bytemuck::NoUninit for S924 {} unsafe impl bytemuck::Zeroable for S924 {} unsafe impl bytemuck::AnyBitPattern for S924 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S925 { #[pasture(attribute = "a-b")] f0: u16, #[pasture(attribute = "a-b2")] f1: f32, } unsafe impl bytemuck::NoUninit for S925 {} unsafe impl bytemuck::Zeroable for S925 {} unsafe impl bytemuck::AnyBitPattern for S925 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S926 { #[pasture(attribute = " lead")] f0: u16, #[pasture(attribute = " lead2")] f1: f32, } unsafe impl bytemuck::NoUninit for S926 {} unsafe impl bytemuck::Zeroable for S926 {} unsafe impl bytemuck::AnyBitPattern for S926 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S927 { #[pasture(attribute = "trail ")] f0: u16, #[pasture(attribute = "trail 2")] f1: f32, } unsafe impl bytemuck::NoUninit for S927 {} unsafe impl bytemuck::Zeroable for S927 {} unsafe impl bytemuck::AnyBitPattern for S927 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S928 { #[pasture(attribute = "UPPER")] f0: u16, #[pasture(attribute = "UPPER2")] f1: f32, } unsafe impl bytemuck::NoUninit for S928 {} unsafe impl bytemuck::Zeroable for S928 {} unsafe impl bytemuck::AnyBitPattern for S928 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S929 { #[pasture(attribute = "upper")] f0: u16, #[pasture(attribute = "upper2")] f1: f32, } unsafe impl bytemuck::NoUninit for S929 {} unsafe impl bytemuck::Zeroable for S929 {} unsafe impl bytemuck::AnyBitPattern for S929 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S930 { #[pasture(attribute = "a_b")] f0: u16, #[pasture(attribute = "a_b2")] f1: f32, } unsafe impl bytemuck::NoUninit for S930 {} unsafe impl bytemuck::Zeroable for S930 {} unsafe impl bytemuck::AnyBitPattern for S930 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S931 { #[pasture(attribute = "a.b/c")] f0: u16, #[pasture(attribute = "a.b/c2")] f1: f32, } unsafe impl bytemuck::NoUninit for S931 {} unsafe impl bytemuck::Zeroable for S931 {} unsafe impl bytemuck::AnyBitPattern for S931 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S932 { #[pasture(attribute = "")] f0: u16, #[pasture(attribute = "2")] f1: f32, } unsafe impl bytemuck::NoUninit for S932 {} unsafe impl bytemuck::Zeroable for S932 {} unsafe impl bytemuck::AnyBitPattern for S932 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S933 { #[pasture(attribute = "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx")] f0: u16, #[pasture(attribute = "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx2")] f1: f32, } unsafe impl bytemuck::NoUninit for S933 {} unsafe impl bytemuck::Zeroable for S933 {} unsafe impl bytemuck::AnyBitPattern for S933 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S934 { #[pasture(attribute = "tab\t")] f0: u16, #[pasture(attribute = "tab\t2")] f1: f32, } unsafe impl bytemuck::NoUninit for S934 {} unsafe impl bytemuck::Zeroable for S934 {} unsafe impl bytemuck::AnyBitPattern for S934 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S935 { #[pasture(attribute = "quote\"q")] f0: u16, #[pasture(attribute = "quote\"q2")] f1: f32, } unsafe impl bytemuck::NoUninit for S935 {} unsafe impl bytemuck::Zeroable for S935 {} unsafe impl bytemuck::AnyBitPattern for S935 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S936 { #[pasture(attribute = "0")] f0: u16, #[pasture(attribute = "02")] f1: f32, } unsafe impl bytemuck::NoUninit for S936 {} unsafe impl bytemuck::Zeroable for S936 {} unsafe impl bytemuck::AnyBitPattern for S936 {}
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct S937 { #[pasture(attribute = "ä →")] f0: u16, #[pasture(attribute = "ä →2")] f1: f32, } unsafe impl bytemuck::NoUninit for S937 {} unsafe impl bytemuck::Zeroable for S937 {} unsafe impl bytemuck::AnyBitPattern for S937 {}
pub fn all() -> Vec<S> { vec![
S { desc: "#[repr(C)] struct { u8 }", layout: S0::layout, size: size_of::<S0>(), align: align_of::<S0>(), fields: || vec![F("Alpha", D::U8, offset_of!(S0, f0))] },
S { desc: "#[repr(C)] struct { i8 }", layout: S1::layout, size: size_of::<S1>(), align: align_of::<S1>(), fields: || vec![F("Alpha", D::I8, offset_of!(S1, f0))] },
S { desc: "#[repr(C)] struct { u16 }", layout: S2::layout, size: size_of::<S2>(), align: align_of::<S2>(), fields: || vec![F("Alpha", D::U16, offset_of!(S2, f0))] },
S { desc: "#[repr(C)] struct { i16 }", layout: S3::layout, size: size_of::<S3>(), align: align_of::<S3>(), fields: || vec![F("Alpha", D::I16, offset_of!(S3, f0))] },
S { desc: "#[repr(C)] struct { u32 }", layout: S4::layout, size: size_of::<S4>(), align: align_of::<S4>(), fields: || vec![F("Alpha", D::U32, offset_of!(S4, f0))] },
S { desc: "#[repr(C)] struct { i32 }", layout: S5::layout, size: size_of::<S5>(), align: align_of::<S5>(), fields: || vec![F("Alpha", D::I32, offset_of!(S5, f0))] },
S { desc: "#[repr(C)] struct { u64 }", layout: S6::layout, size: size_of::<S6>(), align: align_of::<S6>(), fields: || vec![F("Alpha", D::U64, offset_of!(S6, f0))] },
S { desc: "#[repr(C)] struct { i64 }", layout: S7::layout, size: size_of::<S7>(), align: align_of::<S7>(), fields: || vec![F("Alpha", D::I64, offset_of!(S7, f0))] },
S { desc: "#[repr(C)] struct { f32 }", layout: S8::layout, size: size_of::<S8>(), align: align_of::<S8>(), fields: || vec![F("Alpha", D::F32, offset_of!(S8, f0))] },
S { desc: "#[repr(C)] struct { f64 }", layout: S9::layout, size: size_of::<S9>(), align: align_of::<S9>(), fields: || vec![F("Alpha", D::F64, offset_of!(S9, f0))] },
S { desc: "#[repr(C)] struct { Vector3<u8> }", layout: S10::layout, size: size_of::<S10>(), align: align_of::<S10>(), fields: || vec![F("Alpha", D::Vec3u8, offset_of!(S10, f0))] },
S { desc: "#[repr(C)] struct { Vector3<u16> }", layout: S11::layout, size: size_of::<S11>(), align: align_of::<S11>(), fields: || vec![F("Alpha", D::Vec3u16, offset_of!(S11, f0))] },
S { desc: "#[repr(C)] struct { Vector3<f32> }", layout: S12::layout, size: size_of::<S12>(), align: align_of::<S12>(), fields: || vec![F("Alpha", D::Vec3f32, offset_of!(S12, f0))] },
S { desc: "#[repr(C)] struct { Vector3<i32> }", layout: S13::layout, size: size_of::<S13>(), align: align_of::<S13>(), fields: || vec![F("Alpha", D::Vec3i32, offset_of!(S13, f0))] },
S { desc: "#[repr(C)] struct { Vector3<f64> }", layout: S14::layout, size: size_of::<S14>(), align: align_of::<S14>(), fields: || vec![F("Alpha", D::Vec3f64, offset_of!(S14, f0))] },
S { desc: "#[repr(C)] struct { Vector4<u8> }", layout: S15::layout, size: size_of::<S15>(), align: align_of::<S15>(), fields: || vec![F("Alpha", D::Vec4u8, offset_of!(S15, f0))] },
S { desc: "#[repr(C, packed)] struct { u8 }", layout: S16::layout, size: size_of::<S16>(), align: align_of::<S16>(), fields: || vec![F("Alpha", D::U8, offset_of!(S16, f0))] },
S { desc: "#[repr(C, packed)] struct { i8 }", layout: S17::layout, size: size_of::<S17>(), align: align_of::<S17>(), fields: || vec![F("Alpha", D::I8, offset_of!(S17, f0))] },
S { desc: "#[repr(C, packed)] struct { u16 }", layout: S18::layout, size: size_of::<S18>(), align: align_of::<S18>(), fields: || vec![F("Alpha", D::U16, offset_of!(S18, f0))] },
S { desc: "#[repr(C, packed)] struct { i16 }", layout: S19::layout, size: size_of::<S19>(), align: align_of::<S19>(), fields: || vec![F("Alpha", D::I16, offset_of!(S19, f0))] },
S { desc: "#[repr(C, packed)] struct { u32 }", layout: S20::layout, size: size_of::<S20>(), align: align_of::<S20>(), fields: || vec![F("Alpha", D::U32, offset_of!(S20, f0))] },
S { desc: "#[repr(C, packed)] struct { i32 }", layout: S21::layout, size: size_of::<S21>(), align: align_of::<S21>(), fields: || vec![F("Alpha", D::I32, offset_of!(S21, f0))] },
S { desc: "#[repr(C, packed)] struct { u64 }", layout: S22::layout, size: size_of::<S22>(), align: align_of::<S22>(), fields: || vec![F("Alpha", D::U64, offset_of!(S22, f0))] },
S { desc: "#[repr(C, packed)] struct { i64 }", layout: S23::layout, size: size_of::<S23>(), align: align_of::<S23>(), fields: || vec![F("Alpha", D::I64, offset_of!(S23, f0))] },
S { desc: "#[repr(C, packed)] struct { f32 }", layout: S24::layout, size: size_of::<S24>(), align: align_of::<S24>(), fields: || vec![F("Alpha", D::F32, offset_of!(S24, f0))] },
S { desc: "#[repr(C, packed)] struct { f64 }", layout: S25::layout, size: size_of::<S25>(), align: align_of::<S25>(), fields: || vec![F("Alpha", D::F64, offset_of!(S25, f0))] },
S { desc: "#[repr(C, packed)] struct { Vector3<u8> }", layout: S26::layout, size: size_of::<S26>(), align: align_of::<S26>(), fields: || vec![F("Alpha", D::Vec3u8, offset_of!(S26, f0))] },
S { desc: "#[repr(C, packed)] struct { Vector3<u16> }", layout: S27::layout, size: size_of::<S27>(), align: align_of::<S27>(), fields: || vec![F("Alpha", D::Vec3u16, offset_of!(S27, f0))] },
S { desc: "#[repr(C, packed)] struct { Vector3<f32> }", layout: S28::layout, size: size_of::<S28>(), align: align_of::<S28>(), fields: || vec![F("Alpha", D::Vec3f32, offset_of!(S28, f0))] },
S { desc: "#[repr(C, packed)] struct { Vector3<i32> }", layout: S29::layout, size: size_of::<S29>(), align: align_of::<S29>(), fields: || vec![F("Alpha", D::Vec3i32, offset_of!(S29, f0))] },
S { desc: "#[repr(C, packed)] struct { Vector3<f64> }", layout: S30::layout, size: size_of::<S30>(), align: align_of::<S30>(), fields: || vec![F("Alpha", D::Vec3f64, offset_of!(S30, f0))] },
S { desc: "#[repr(C, packed)] struct { Vector4<u8> }", layout: S31::layout, size: size_of::<S31>(), align: align_of::<S31>(), fields: || vec![F("Alpha", D::Vec4u8, offset_of!(S31, f0))] },
S { desc: "#[repr(C, packed(2))] struct { u8 }", layout: S32::layout, size: size_of::<S32>(), align: align_of::<S32>(), fields: || vec![F("Alpha", D::U8, offset_of!(S32, f0))] },
S { desc: "#[repr(C, packed(2))] struct { i8 }", layout: S33::layout, size: size_of::<S33>(), align: align_of::<S33>(), fields: || vec![F("Alpha", D::I8, offset_of!(S33, f0))] },
S { desc: "#[repr(C, packed(2))] struct { u16 }", layout: S34::layout, size: size_of::<S34>(), align: align_of::<S34>(), fields: || vec![F("Alpha", D::U16, offset_of!(S34, f0))] },
S { desc: "#[repr(C, packed(2))] struct { i16 }", layout: S35::layout, size: size_of::<S35>(), align: align_of::<S35>(), fields: || vec![F("Alpha", D::I16, offset_of!(S35, f0))] },
S { desc: "#[repr(C, packed(2))] struct { u32 }", layout: S36::layout, size: size_of::<S36>(), align: align_of::<S36>(), fields: || vec![F("Alpha", D::U32, offset_of!(S36, f0))] },
S { desc: "#[repr(C, packed(2))] struct { i32 }", layout: S37::layout, size: size_of::<S37>(), align: align_of::<S37>(), fields: || vec![F("Alpha", D::I32, offset_of!(S37, f0))] },
S { desc: "#[repr(C, packed(2))] struct { u64 }", layout: S38::layout, size: size_of::<S38>(), align: align_of::<S38>(), fields: || vec![F("Alpha", D::U64, offset_of!(S38, f0))] },
S { desc: "#[repr(C, packed(2))] struct { i64 }", layout: S39::layout, size: size_of::<S39>(), align: align_of::<S39>(), fields: || vec![F("Alpha", D::I64, offset_of!(S39, f0))] },
S { desc: "#[repr(C, packed(2))] struct { f32 }", layout: S40::layout, size: size_of::<S40>(), align: align_of::<S40>(), fields: || vec![F("Alpha", D::F32, offset_of!(S40, f0))] },
S { desc: "#[repr(C, packed(2))] struct { f64 }", layout: S41::layout, size: size_of::<S41>(), align: align_of::<S41>(), fields: || vec![F("Alpha", D::F64, offset_of!(S41, f0))] },
S { desc: "#[repr(C, packed(2))] struct { Vector3<u8> }", layout: S42::layout, size: size_of::<S42>(), align: align_of::<S42>(), fields: || vec![F("Alpha", D::Vec3u8, offset_of!(S42, f0))] },
S { desc: "#[repr(C, packed(2))] struct { Vector3<u16> }", layout: S43::layout, size: size_of::<S43>(), align: align_of::<S43>(), fields: || vec![F("Alpha", D::Vec3u16, offset_of!(S43, f0))] },
S { desc: "#[repr(C, packed(2))] struct { Vector3<f32> }", layout: S44::layout, size: size_of::<S44>(), align: align_of::<S44>(), fields: || vec![F("Alpha", D::Vec3f32, offset_of!(S44, f0))] },
S { desc: "#[repr(C, packed(2))] struct { Vector3<i32> }", layout: S45::layout, size: size_of::<S45>(), align: align_of::<S45>(), fields: || vec![F("Alpha", D::Vec3i32, offset_of!(S45, f0))] },
S { desc: "#[repr(C, packed(2))] struct { Vector3<f64> }", layout: S46::layout, size: size_of::<S46>(), align: align_of::<S46>(), fields: || vec![F("Alpha", D::Vec3f64, offset_of!(S46, f0))] },
S { desc: "#[repr(C, packed(2))] struct { Vector4<u8> }", layout: S47::layout, size: size_of::<S47>(), align: align_of::<S47>(), fields: || vec![F("Alpha", D::Vec4u8, offset_of!(S47, f0))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { u8 }", layout: S48::layout, size: size_of::<S48>(), align: align_of::<S48>(), fields: || vec![F("Alpha", D::U8, offset_of!(S48, f0))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { i8 }", layout: S49::layout, size: size_of::<S49>(), align: align_of::<S49>(), fields: || vec![F("Alpha", D::I8, offset_of!(S49, f0))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { u16 }", layout: S50::layout, size: size_of::<S50>(), align: align_of::<S50>(), fields: || vec![F("Alpha", D::U16, offset_of!(S50, f0))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { i16 }", layout: S51::layout, size: size_of::<S51>(), align: align_of::<S51>(), fields: || vec![F("Alpha", D::I16, offset_of!(S51, f0))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { u32 }", layout: S52::layout, size: size_of::<S52>(), align: align_of::<S52>(), fields: || vec![F("Alpha", D::U32, offset_of!(S52, f0))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { i32 }", layout: S53::layout, size: size_of::<S53>(), align: align_of::<S53>(), fields: || vec![F("Alpha", D::I32, offset_of!(S53, f0))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { u64 }", layout: S54::layout, size: size_of::<S54>(), align: align_of::<S54>(), fields: || vec![F("Alpha", D::U64, offset_of!(S54, f0))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { i64 }", layout: S55::layout, size: size_of::<S55>(), align: align_of::<S55>(), fields: || vec![F("Alpha", D::I64, offset_of!(S55, f0))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { f32 }", layout: S56::layout, size: size_of::<S56>(), align: align_of::<S56>(), fields: || vec![F("Alpha", D::F32, offset_of!(S56, f0))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { f64 }", layout: S57::layout, size: size_of::<S57>(), align: align_of::<S57>(), fields: || vec![F("Alpha", D::F64, offset_of!(S57, f0))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { Vector3<u8> }", layout: S58::layout, size: size_of::<S58>(), align: align_of::<S58>(), fields: || vec![F("Alpha", D::Vec3u8, offset_of!(S58, f0))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { Vector3<u16> }", layout: S59::layout, size: size_of::<S59>(), align: align_of::<S59>(), fields: || vec![F("Alpha", D::Vec3u16, offset_of!(S59, f0))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { Vector3<f32> }", layout: S60::layout, size: size_of::<S60>(), align: align_of::<S60>(), fields: || vec![F("Alpha", D::Vec3f32, offset_of!(S60, f0))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { Vector3<i32> }", layout: S61::layout, size: size_of::<S61>(), align: align_of::<S61>(), fields: || vec![F("Alpha", D::Vec3i32, offset_of!(S61, f0))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { Vector3<f64> }", layout: S62::layout, size: size_of::<S62>(), align: align_of::<S62>(), fields: || vec![F("Alpha", D::Vec3f64, offset_of!(S62, f0))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { Vector4<u8> }", layout: S63::layout, size: size_of::<S63>(), align: align_of::<S63>(), fields: || vec![F("Alpha", D::Vec4u8, offset_of!(S63, f0))] },
S { desc: "#[repr(packed(8), C)] struct { u8 }", layout: S64::layout, size: size_of::<S64>(), align: align_of::<S64>(), fields: || vec![F("Alpha", D::U8, offset_of!(S64, f0))] },
S { desc: "#[repr(packed(8), C)] struct { i8 }", layout: S65::layout, size: size_of::<S65>(), align: align_of::<S65>(), fields: || vec![F("Alpha", D::I8, offset_of!(S65, f0))] },
S { desc: "#[repr(packed(8), C)] struct { u16 }", layout: S66::layout, size: size_of::<S66>(), align: align_of::<S66>(), fields: || vec![F("Alpha", D::U16, offset_of!(S66, f0))] },
S { desc: "#[repr(packed(8), C)] struct { i16 }", layout: S67::layout, size: size_of::<S67>(), align: align_of::<S67>(), fields: || vec![F("Alpha", D::I16, offset_of!(S67, f0))] },
S { desc: "#[repr(packed(8), C)] struct { u32 }", layout: S68::layout, size: size_of::<S68>(), align: align_of::<S68>(), fields: || vec![F("Alpha", D::U32, offset_of!(S68, f0))] },
S { desc: "#[repr(packed(8), C)] struct { i32 }", layout: S69::layout, size: size_of::<S69>(), align: align_of::<S69>(), fields: || vec![F("Alpha", D::I32, offset_of!(S69, f0))] },
S { desc: "#[repr(packed(8), C)] struct { u64 }", layout: S70::layout, size: size_of::<S70>(), align: align_of::<S70>(), fields: || vec![F("Alpha", D::U64, offset_of!(S70, f0))] },
S { desc: "#[repr(packed(8), C)] struct { i64 }", layout: S71::layout, size: size_of::<S71>(), align: align_of::<S71>(), fields: || vec![F("Alpha", D::I64, offset_of!(S71, f0))] },
S { desc: "#[repr(packed(8), C)] struct { f32 }", layout: S72::layout, size: size_of::<S72>(), align: align_of::<S72>(), fields: || vec![F("Alpha", D::F32, offset_of!(S72, f0))] },
S { desc: "#[repr(packed(8), C)] struct { f64 }", layout: S73::layout, size: size_of::<S73>(), align: align_of::<S73>(), fields: || vec![F("Alpha", D::F64, offset_of!(S73, f0))] },
S { desc: "#[repr(packed(8), C)] struct { Vector3<u8> }", layout: S74::layout, size: size_of::<S74>(), align: align_of::<S74>(), fields: || vec![F("Alpha", D::Vec3u8, offset_of!(S74, f0))] },
S { desc: "#[repr(packed(8), C)] struct { Vector3<u16> }", layout: S75::layout, size: size_of::<S75>(), align: align_of::<S75>(), fields: || vec![F("Alpha", D::Vec3u16, offset_of!(S75, f0))] },
S { desc: "#[repr(packed(8), C)] struct { Vector3<f32> }", layout: S76::layout, size: size_of::<S76>(), align: align_of::<S76>(), fields: || vec![F("Alpha", D::Vec3f32, offset_of!(S76, f0))] },
S { desc: "#[repr(packed(8), C)] struct { Vector3<i32> }", layout: S77::layout, size: size_of::<S77>(), align: align_of::<S77>(), fields: || vec![F("Alpha", D::Vec3i32, offset_of!(S77, f0))] },
S { desc: "#[repr(packed(8), C)] struct { Vector3<f64> }", layout: S78::layout, size: size_of::<S78>(), align: align_of::<S78>(), fields: || vec![F("Alpha", D::Vec3f64, offset_of!(S78, f0))] },
S { desc: "#[repr(packed(8), C)] struct { Vector4<u8> }", layout: S79::layout, size: size_of::<S79>(), align: align_of::<S79>(), fields: || vec![F("Alpha", D::Vec4u8, offset_of!(S79, f0))] },
S { desc: "#[repr(C)] struct { u8, u8 }", layout: S80::layout, size: size_of::<S80>(), align: align_of::<S80>(), fields: || vec![F("Alpha", D::U8, offset_of!(S80, f0)), F("Beta 2", D::U8, offset_of!(S80, f1))] },
S { desc: "#[repr(C)] struct { u8, i8 }", layout: S81::layout, size: size_of::<S81>(), align: align_of::<S81>(), fields: || vec![F("Alpha", D::U8, offset_of!(S81, f0)), F("Beta 2", D::I8, offset_of!(S81, f1))] },
S { desc: "#[repr(C)] struct { u8, u16 }", layout: S82::layout, size: size_of::<S82>(), align: align_of::<S82>(), fields: || vec![F("Alpha", D::U8, offset_of!(S82, f0)), F("Beta 2", D::U16, offset_of!(S82, f1))] },
S { desc: "#[repr(C)] struct { u8, i16 }", layout: S83::layout, size: size_of::<S83>(), align: align_of::<S83>(), fields: || vec![F("Alpha", D::U8, offset_of!(S83, f0)), F("Beta 2", D::I16, offset_of!(S83, f1))] },
S { desc: "#[repr(C)] struct { u8, u32 }", layout: S84::layout, size: size_of::<S84>(), align: align_of::<S84>(), fields: || vec![F("Alpha", D::U8, offset_of!(S84, f0)), F("Beta 2", D::U32, offset_of!(S84, f1))] },
S { desc: "#[repr(C)] struct { u8, i32 }", layout: S85::layout, size: size_of::<S85>(), align: align_of::<S85>(), fields: || vec![F("Alpha", D::U8, offset_of!(S85, f0)), F("Beta 2", D::I32, offset_of!(S85, f1))] },
S { desc: "#[repr(C)] struct { u8, u64 }", layout: S86::layout, size: size_of::<S86>(), align: align_of::<S86>(), fields: || vec![F("Alpha", D::U8, offset_of!(S86, f0)), F("Beta 2", D::U64, offset_of!(S86, f1))] },
S { desc: "#[repr(C)] struct { u8, i64 }", layout: S87::layout, size: size_of::<S87>(), align: align_of::<S87>(), fields: || vec![F("Alpha", D::U8, offset_of!(S87, f0)), F("Beta 2", D::I64, offset_of!(S87, f1))] },
S { desc: "#[repr(C)] struct { u8, f32 }", layout: S88::layout, size: size_of::<S88>(), align: align_of::<S88>(), fields: || vec![F("Alpha", D::U8, offset_of!(S88, f0)), F("Beta 2", D::F32, offset_of!(S88, f1))] },
S { desc: "#[repr(C)] struct { u8, f64 }", layout: S89::layout, size: size_of::<S89>(), align: align_of::<S89>(), fields: || vec![F("Alpha", D::U8, offset_of!(S89, f0)), F("Beta 2", D::F64, offset_of!(S89, f1))] },
S { desc: "#[repr(C)] struct { u8, Vector3<u8> }", layout: S90::layout, size: size_of::<S90>(), align: align_of::<S90>(), fields: || vec![F("Alpha", D::U8, offset_of!(S90, f0)), F("Beta 2", D::Vec3u8, offset_of!(S90, f1))] },
S { desc: "#[repr(C)] struct { u8, Vector3<u16> }", layout: S91::layout, size: size_of::<S91>(), align: align_of::<S91>(), fields: || vec![F("Alpha", D::U8, offset_of!(S91, f0)), F("Beta 2", D::Vec3u16, offset_of!(S91, f1))] },
S { desc: "#[repr(C)] struct { u8, Vector3<f32> }", layout: S92::layout, size: size_of::<S92>(), align: align_of::<S92>(), fields: || vec![F("Alpha", D::U8, offset_of!(S92, f0)), F("Beta 2", D::Vec3f32, offset_of!(S92, f1))] },
S { desc: "#[repr(C)] struct { u8, Vector3<i32> }", layout: S93::layout, size: size_of::<S93>(), align: align_of::<S93>(), fields: || vec![F("Alpha", D::U8, offset_of!(S93, f0)), F("Beta 2", D::Vec3i32, offset_of!(S93, f1))] },
S { desc: "#[repr(C)] struct { u8, Vector3<f64> }", layout: S94::layout, size: size_of::<S94>(), align: align_of::<S94>(), fields: || vec![F("Alpha", D::U8, offset_of!(S94, f0)), F("Beta 2", D::Vec3f64, offset_of!(S94, f1))] },
S { desc: "#[repr(C)] struct { u8, Vector4<u8> }", layout: S95::layout, size: size_of::<S95>(), align: align_of::<S95>(), fields: || vec![F("Alpha", D::U8, offset_of!(S95, f0)), F("Beta 2", D::Vec4u8, offset_of!(S95, f1))] },
S { desc: "#[repr(C)] struct { i8, u8 }", layout: S96::layout, size: size_of::<S96>(), align: align_of::<S96>(), fields: || vec![F("Alpha", D::I8, offset_of!(S96, f0)), F("Beta 2", D::U8, offset_of!(S96, f1))] },
S { desc: "#[repr(C)] struct { i8, u16 }", layout: S97::layout, size: size_of::<S97>(), align: align_of::<S97>(), fields: || vec![F("Alpha", D::I8, offset_of!(S97, f0)), F("Beta 2", D::U16, offset_of!(S97, f1))] },
S { desc: "#[repr(C)] struct { i8, i64 }", layout: S98::layout, size: size_of::<S98>(), align: align_of::<S98>(), fields: || vec![F("Alpha", D::I8, offset_of!(S98, f0)), F("Beta 2", D::I64, offset_of!(S98, f1))] },
S { desc: "#[repr(C)] struct { i8, f32 }", layout: S99::layout, size: size_of::<S99>(), align: align_of::<S99>(), fields: || vec![F("Alpha", D::I8, offset_of!(S99, f0)), F("Beta 2", D::F32, offset_of!(S99, f1))] },
S { desc: "#[repr(C)] struct { i8, Vector3<u8> }", layout: S100::layout, size: size_of::<S100>(), align: align_of::<S100>(), fields: || vec![F("Alpha", D::I8, offset_of!(S100, f0)), F("Beta 2", D::Vec3u8, offset_of!(S100, f1))] },
S { desc: "#[repr(C)] struct { i8, Vector3<u16> }", layout: S101::layout, size: size_of::<S101>(), align: align_of::<S101>(), fields: || vec![F("Alpha", D::I8, offset_of!(S101, f0)), F("Beta 2", D::Vec3u16, offset_of!(S101, f1))] },
S { desc: "#[repr(C)] struct { u16, u8 }", layout: S102::layout, size: size_of::<S102>(), align: align_of::<S102>(), fields: || vec![F("Alpha", D::U16, offset_of!(S102, f0)), F("Beta 2", D::U8, offset_of!(S102, f1))] },
S { desc: "#[repr(C)] struct { u16, i8 }", layout: S103::layout, size: size_of::<S103>(), align: align_of::<S103>(), fields: || vec![F("Alpha", D::U16, offset_of!(S103, f0)), F("Beta 2", D::I8, offset_of!(S103, f1))] },
S { desc: "#[repr(C)] struct { u16, u16 }", layout: S104::layout, size: size_of::<S104>(), align: align_of::<S104>(), fields: || vec![F("Alpha", D::U16, offset_of!(S104, f0)), F("Beta 2", D::U16, offset_of!(S104, f1))] },
S { desc: "#[repr(C)] struct { u16, i16 }", layout: S105::layout, size: size_of::<S105>(), align: align_of::<S105>(), fields: || vec![F("Alpha", D::U16, offset_of!(S105, f0)), F("Beta 2", D::I16, offset_of!(S105, f1))] },
S { desc: "#[repr(C)] struct { u16, u32 }", layout: S106::layout, size: size_of::<S106>(), align: align_of::<S106>(), fields: || vec![F("Alpha", D::U16, offset_of!(S106, f0)), F("Beta 2", D::U32, offset_of!(S106, f1))] },
S { desc: "#[repr(C)] struct { u16, i32 }", layout: S107::layout, size: size_of::<S107>(), align: align_of::<S107>(), fields: || vec![F("Alpha", D::U16, offset_of!(S107, f0)), F("Beta 2", D::I32, offset_of!(S107, f1))] },
S { desc: "#[repr(C)] struct { u16, u64 }", layout: S108::layout, size: size_of::<S108>(), align: align_of::<S108>(), fields: || vec![F("Alpha", D::U16, offset_of!(S108, f0)), F("Beta 2", D::U64, offset_of!(S108, f1))] },
S { desc: "#[repr(C)] struct { u16, i64 }", layout: S109::layout, size: size_of::<S109>(), align: align_of::<S109>(), fields: || vec![F("Alpha", D::U16, offset_of!(S109, f0)), F("Beta 2", D::I64, offset_of!(S109, f1))] },
S { desc: "#[repr(C)] struct { u16, f32 }", layout: S110::layout, size: size_of::<S110>(), align: align_of::<S110>(), fields: || vec![F("Alpha", D::U16, offset_of!(S110, f0)), F("Beta 2", D::F32, offset_of!(S110, f1))] },
S { desc: "#[repr(C)] struct { u16, f64 }", layout: S111::layout, size: size_of::<S111>(), align: align_of::<S111>(), fields: || vec![F("Alpha", D::U16, offset_of!(S111, f0)), F("Beta 2", D::F64, offset_of!(S111, f1))] },
S { desc: "#[repr(C)] struct { u16, Vector3<u8> }", layout: S112::layout, size: size_of::<S112>(), align: align_of::<S112>(), fields: || vec![F("Alpha", D::U16, offset_of!(S112, f0)), F("Beta 2", D::Vec3u8, offset_of!(S112, f1))] },
S { desc: "#[repr(C)] struct { u16, Vector3<u16> }", layout: S113::layout, size: size_of::<S113>(), align: align_of::<S113>(), fields: || vec![F("Alpha", D::U16, offset_of!(S113, f0)), F("Beta 2", D::Vec3u16, offset_of!(S113, f1))] },
S { desc: "#[repr(C)] struct { u16, Vector3<f32> }", layout: S114::layout, size: size_of::<S114>(), align: align_of::<S114>(), fields: || vec![F("Alpha", D::U16, offset_of!(S114, f0)), F("Beta 2", D::Vec3f32, offset_of!(S114, f1))] },
S { desc: "#[repr(C)] struct { u16, Vector3<i32> }", layout: S115::layout, size: size_of::<S115>(), align: align_of::<S115>(), fields: || vec![F("Alpha", D::U16, offset_of!(S115, f0)), F("Beta 2", D::Vec3i32, offset_of!(S115, f1))] },
S { desc: "#[repr(C)] struct { u16, Vector3<f64> }", layout: S116::layout, size: size_of::<S116>(), align: align_of::<S116>(), fields: || vec![F("Alpha", D::U16, offset_of!(S116, f0)), F("Beta 2", D::Vec3f64, offset_of!(S116, f1))] },
S { desc: "#[repr(C)] struct { u16, Vector4<u8> }", layout: S117::layout, size: size_of::<S117>(), align: align_of::<S117>(), fields: || vec![F("Alpha", D::U16, offset_of!(S117, f0)), F("Beta 2", D::Vec4u8, offset_of!(S117, f1))] },
S { desc: "#[repr(C)] struct { i16, u8 }", layout: S118::layout, size: size_of::<S118>(), align: align_of::<S118>(), fields: || vec![F("Alpha", D::I16, offset_of!(S118, f0)), F("Beta 2", D::U8, offset_of!(S118, f1))] },
S { desc: "#[repr(C)] struct { i16, u16 }", layout: S119::layout, size: size_of::<S119>(), align: align_of::<S119>(), fields: || vec![F("Alpha", D::I16, offset_of!(S119, f0)), F("Beta 2", D::U16, offset_of!(S119, f1))] },
S { desc: "#[repr(C)] struct { i16, i64 }", layout: S120::layout, size: size_of::<S120>(), align: align_of::<S120>(), fields: || vec![F("Alpha", D::I16, offset_of!(S120, f0)), F("Beta 2", D::I64, offset_of!(S120, f1))] },
S { desc: "#[repr(C)] struct { i16, f32 }", layout: S121::layout, size: size_of::<S121>(), align: align_of::<S121>(), fields: || vec![F("Alpha", D::I16, offset_of!(S121, f0)), F("Beta 2", D::F32, offset_of!(S121, f1))] },
S { desc: "#[repr(C)] struct { i16, Vector3<u8> }", layout: S122::layout, size: size_of::<S122>(), align: align_of::<S122>(), fields: || vec![F("Alpha", D::I16, offset_of!(S122, f0)), F("Beta 2", D::Vec3u8, offset_of!(S122, f1))] },
S { desc: "#[repr(C)] struct { i16, Vector3<u16> }", layout: S123::layout, size: size_of::<S123>(), align: align_of::<S123>(), fields: || vec![F("Alpha", D::I16, offset_of!(S123, f0)), F("Beta 2", D::Vec3u16, offset_of!(S123, f1))] },
S { desc: "#[repr(C)] struct { u32, u8 }", layout: S124::layout, size: size_of::<S124>(), align: align_of::<S124>(), fields: || vec![F("Alpha", D::U32, offset_of!(S124, f0)), F("Beta 2", D::U8, offset_of!(S124, f1))] },
S { desc: "#[repr(C)] struct { u32, u16 }", layout: S125::layout, size: size_of::<S125>(), align: align_of::<S125>(), fields: || vec![F("Alpha", D::U32, offset_of!(S125, f0)), F("Beta 2", D::U16, offset_of!(S125, f1))] },
S { desc: "#[repr(C)] struct { u32, i64 }", layout: S126::layout, size: size_of::<S126>(), align: align_of::<S126>(), fields: || vec![F("Alpha", D::U32, offset_of!(S126, f0)), F("Beta 2", D::I64, offset_of!(S126, f1))] },
S { desc: "#[repr(C)] struct { u32, f32 }", layout: S127::layout, size: size_of::<S127>(), align: align_of::<S127>(), fields: || vec![F("Alpha", D::U32, offset_of!(S127, f0)), F("Beta 2", D::F32, offset_of!(S127, f1))] },
S { desc: "#[repr(C)] struct { u32, Vector3<u8> }", layout: S128::layout, size: size_of::<S128>(), align: align_of::<S128>(), fields: || vec![F("Alpha", D::U32, offset_of!(S128, f0)), F("Beta 2", D::Vec3u8, offset_of!(S128, f1))] },
S { desc: "#[repr(C)] struct { u32, Vector3<u16> }", layout: S129::layout, size: size_of::<S129>(), align: align_of::<S129>(), fields: || vec![F("Alpha", D::U32, offset_of!(S129, f0)), F("Beta 2", D::Vec3u16, offset_of!(S129, f1))] },
S { desc: "#[repr(C)] struct { i32, u8 }", layout: S130::layout, size: size_of::<S130>(), align: align_of::<S130>(), fields: || vec![F("Alpha", D::I32, offset_of!(S130, f0)), F("Beta 2", D::U8, offset_of!(S130, f1))] },
S { desc: "#[repr(C)] struct { i32, u16 }", layout: S131::layout, size: size_of::<S131>(), align: align_of::<S131>(), fields: || vec![F("Alpha", D::I32, offset_of!(S131, f0)), F("Beta 2", D::U16, offset_of!(S131, f1))] },
S { desc: "#[repr(C)] struct { i32, i64 }", layout: S132::layout, size: size_of::<S132>(), align: align_of::<S132>(), fields: || vec![F("Alpha", D::I32, offset_of!(S132, f0)), F("Beta 2", D::I64, offset_of!(S132, f1))] },
S { desc: "#[repr(C)] struct { i32, f32 }", layout: S133::layout, size: size_of::<S133>(), align: align_of::<S133>(), fields: || vec![F("Alpha", D::I32, offset_of!(S133, f0)), F("Beta 2", D::F32, offset_of!(S133, f1))] },
S { desc: "#[repr(C)] struct { i32, Vector3<u8> }", layout: S134::layout, size: size_of::<S134>(), align: align_of::<S134>(), fields: || vec![F("Alpha", D::I32, offset_of!(S134, f0)), F("Beta 2", D::Vec3u8, offset_of!(S134, f1))] },
S { desc: "#[repr(C)] struct { i32, Vector3<u16> }", layout: S135::layout, size: size_of::<S135>(), align: align_of::<S135>(), fields: || vec![F("Alpha", D::I32, offset_of!(S135, f0)), F("Beta 2", D::Vec3u16, offset_of!(S135, f1))] },
S { desc: "#[repr(C)] struct { u64, u8 }", layout: S136::layout, size: size_of::<S136>(), align: align_of::<S136>(), fields: || vec![F("Alpha", D::U64, offset_of!(S136, f0)), F("Beta 2", D::U8, offset_of!(S136, f1))] },
S { desc: "#[repr(C)] struct { u64, u16 }", layout: S137::layout, size: size_of::<S137>(), align: align_of::<S137>(), fields: || vec![F("Alpha", D::U64, offset_of!(S137, f0)), F("Beta 2", D::U16, offset_of!(S137, f1))] },
S { desc: "#[repr(C)] struct { u64, i64 }", layout: S138::layout, size: size_of::<S138>(), align: align_of::<S138>(), fields: || vec![F("Alpha", D::U64, offset_of!(S138, f0)), F("Beta 2", D::I64, offset_of!(S138, f1))] },
S { desc: "#[repr(C)] struct { u64, f32 }", layout: S139::layout, size: size_of::<S139>(), align: align_of::<S139>(), fields: || vec![F("Alpha", D::U64, offset_of!(S139, f0)), F("Beta 2", D::F32, offset_of!(S139, f1))] },
S { desc: "#[repr(C)] struct { u64, Vector3<u8> }", layout: S140::layout, size: size_of::<S140>(), align: align_of::<S140>(), fields: || vec![F("Alpha", D::U64, offset_of!(S140, f0)), F("Beta 2", D::Vec3u8, offset_of!(S140, f1))] },
S { desc: "#[repr(C)] struct { u64, Vector3<u16> }", layout: S141::layout, size: size_of::<S141>(), align: align_of::<S141>(), fields: || vec![F("Alpha", D::U64, offset_of!(S141, f0)), F("Beta 2", D::Vec3u16, offset_of!(S141, f1))] },
S { desc: "#[repr(C)] struct { i64, u8 }", layout: S142::layout, size: size_of::<S142>(), align: align_of::<S142>(), fields: || vec![F("Alpha", D::I64, offset_of!(S142, f0)), F("Beta 2", D::U8, offset_of!(S142, f1))] },
S { desc: "#[repr(C)] struct { i64, i8 }", layout: S143::layout, size: size_of::<S143>(), align: align_of::<S143>(), fields: || vec![F("Alpha", D::I64, offset_of!(S143, f0)), F("Beta 2", D::I8, offset_of!(S143, f1))] },
S { desc: "#[repr(C)] struct { i64, u16 }", layout: S144::layout, size: size_of::<S144>(), align: align_of::<S144>(), fields: || vec![F("Alpha", D::I64, offset_of!(S144, f0)), F("Beta 2", D::U16, offset_of!(S144, f1))] },
S { desc: "#[repr(C)] struct { i64, i16 }", layout: S145::layout, size: size_of::<S145>(), align: align_of::<S145>(), fields: || vec![F("Alpha", D::I64, offset_of!(S145, f0)), F("Beta 2", D::I16, offset_of!(S145, f1))] },
S { desc: "#[repr(C)] struct { i64, u32 }", layout: S146::layout, size: size_of::<S146>(), align: align_of::<S146>(), fields: || vec![F("Alpha", D::I64, offset_of!(S146, f0)), F("Beta 2", D::U32, offset_of!(S146, f1))] },
S { desc: "#[repr(C)] struct { i64, i32 }", layout: S147::layout, size: size_of::<S147>(), align: align_of::<S147>(), fields: || vec![F("Alpha", D::I64, offset_of!(S147, f0)), F("Beta 2", D::I32, offset_of!(S147, f1))] },
S { desc: "#[repr(C)] struct { i64, u64 }", layout: S148::layout, size: size_of::<S148>(), align: align_of::<S148>(), fields: || vec![F("Alpha", D::I64, offset_of!(S148, f0)), F("Beta 2", D::U64, offset_of!(S148, f1))] },
S { desc: "#[repr(C)] struct { i64, i64 }", layout: S149::layout, size: size_of::<S149>(), align: align_of::<S149>(), fields: || vec![F("Alpha", D::I64, offset_of!(S149, f0)), F("Beta 2", D::I64, offset_of!(S149, f1))] },
S { desc: "#[repr(C)] struct { i64, f32 }", layout: S150::layout, size: size_of::<S150>(), align: align_of::<S150>(), fields: || vec![F("Alpha", D::I64, offset_of!(S150, f0)), F("Beta 2", D::F32, offset_of!(S150, f1))] },
S { desc: "#[repr(C)] struct { i64, f64 }", layout: S151::layout, size: size_of::<S151>(), align: align_of::<S151>(), fields: || vec![F("Alpha", D::I64, offset_of!(S151, f0)), F("Beta 2", D::F64, offset_of!(S151, f1))] },
S { desc: "#[repr(C)] struct { i64, Vector3<u8> }", layout: S152::layout, size: size_of::<S152>(), align: align_of::<S152>(), fields: || vec![F("Alpha", D::I64, offset_of!(S152, f0)), F("Beta 2", D::Vec3u8, offset_of!(S152, f1))] },
S { desc: "#[repr(C)] struct { i64, Vector3<u16> }", layout: S153::layout, size: size_of::<S153>(), align: align_of::<S153>(), fields: || vec![F("Alpha", D::I64, offset_of!(S153, f0)), F("Beta 2", D::Vec3u16, offset_of!(S153, f1))] },
S { desc: "#[repr(C)] struct { i64, Vector3<f32> }", layout: S154::layout, size: size_of::<S154>(), align: align_of::<S154>(), fields: || vec![F("Alpha", D::I64, offset_of!(S154, f0)), F("Beta 2", D::Vec3f32, offset_of!(S154, f1))] },
S { desc: "#[repr(C)] struct { i64, Vector3<i32> }", layout: S155::layout, size: size_of::<S155>(), align: align_of::<S155>(), fields: || vec![F("Alpha", D::I64, offset_of!(S155, f0)), F("Beta 2", D::Vec3i32, offset_of!(S155, f1))] },
S { desc: "#[repr(C)] struct { i64, Vector3<f64> }", layout: S156::layout, size: size_of::<S156>(), align: align_of::<S156>(), fields: || vec![F("Alpha", D::I64, offset_of!(S156, f0)), F("Beta 2", D::Vec3f64, offset_of!(S156, f1))] },
S { desc: "#[repr(C)] struct { i64, Vector4<u8> }", layout: S157::layout, size: size_of::<S157>(), align: align_of::<S157>(), fields: || vec![F("Alpha", D::I64, offset_of!(S157, f0)), F("Beta 2", D::Vec4u8, offset_of!(S157, f1))] },
S { desc: "#[repr(C)] struct { f32, u8 }", layout: S158::layout, size: size_of::<S158>(), align: align_of::<S158>(), fields: || vec![F("Alpha", D::F32, offset_of!(S158, f0)), F("Beta 2", D::U8, offset_of!(S158, f1))] },
S { desc: "#[repr(C)] struct { f32, i8 }", layout: S159::layout, size: size_of::<S159>(), align: align_of::<S159>(), fields: || vec![F("Alpha", D::F32, offset_of!(S159, f0)), F("Beta 2", D::I8, offset_of!(S159, f1))] },
S { desc: "#[repr(C)] struct { f32, u16 }", layout: S160::layout, size: size_of::<S160>(), align: align_of::<S160>(), fields: || vec![F("Alpha", D::F32, offset_of!(S160, f0)), F("Beta 2", D::U16, offset_of!(S160, f1))] },
S { desc: "#[repr(C)] struct { f32, i16 }", layout: S161::layout, size: size_of::<S161>(), align: align_of::<S161>(), fields: || vec![F("Alpha", D::F32, offset_of!(S161, f0)), F("Beta 2", D::I16, offset_of!(S161, f1))] },
S { desc: "#[repr(C)] struct { f32, u32 }", layout: S162::layout, size: size_of::<S162>(), align: align_of::<S162>(), fields: || vec![F("Alpha", D::F32, offset_of!(S162, f0)), F("Beta 2", D::U32, offset_of!(S162, f1))] },
S { desc: "#[repr(C)] struct { f32, i32 }", layout: S163::layout, size: size_of::<S163>(), align: align_of::<S163>(), fields: || vec![F("Alpha", D::F32, offset_of!(S163, f0)), F("Beta 2", D::I32, offset_of!(S163, f1))] },
S { desc: "#[repr(C)] struct { f32, u64 }", layout: S164::layout, size: size_of::<S164>(), align: align_of::<S164>(), fields: || vec![F("Alpha", D::F32, offset_of!(S164, f0)), F("Beta 2", D::U64, offset_of!(S164, f1))] },
S { desc: "#[repr(C)] struct { f32, i64 }", layout: S165::layout, size: size_of::<S165>(), align: align_of::<S165>(), fields: || vec![F("Alpha", D::F32, offset_of!(S165, f0)), F("Beta 2", D::I64, offset_of!(S165, f1))] },
S { desc: "#[repr(C)] struct { f32, f32 }", layout: S166::layout, size: size_of::<S166>(), align: align_of::<S166>(), fields: || vec![F("Alpha", D::F32, offset_of!(S166, f0)), F("Beta 2", D::F32, offset_of!(S166, f1))] },
S { desc: "#[repr(C)] struct { f32, f64 }", layout: S167::layout, size: size_of::<S167>(), align: align_of::<S167>(), fields: || vec![F("Alpha", D::F32, offset_of!(S167, f0)), F("Beta 2", D::F64, offset_of!(S167, f1))] },
S { desc: "#[repr(C)] struct { f32, Vector3<u8> }", layout: S168::layout, size: size_of::<S168>(), align: align_of::<S168>(), fields: || vec![F("Alpha", D::F32, offset_of!(S168, f0)), F("Beta 2", D::Vec3u8, offset_of!(S168, f1))] },
S { desc: "#[repr(C)] struct { f32, Vector3<u16> }", layout: S169::layout, size: size_of::<S169>(), align: align_of::<S169>(), fields: || vec![F("Alpha", D::F32, offset_of!(S169, f0)), F("Beta 2", D::Vec3u16, offset_of!(S169, f1))] },
S { desc: "#[repr(C)] struct { f32, Vector3<f32> }", layout: S170::layout, size: size_of::<S170>(), align: align_of::<S170>(), fields: || vec![F("Alpha", D::F32, offset_of!(S170, f0)), F("Beta 2", D::Vec3f32, offset_of!(S170, f1))] },
S { desc: "#[repr(C)] struct { f32, Vector3<i32> }", layout: S171::layout, size: size_of::<S171>(), align: align_of::<S171>(), fields: || vec![F("Alpha", D::F32, offset_of!(S171, f0)), F("Beta 2", D::Vec3i32, offset_of!(S171, f1))] },
S { desc: "#[repr(C)] struct { f32, Vector3<f64> }", layout: S172::layout, size: size_of::<S172>(), align: align_of::<S172>(), fields: || vec![F("Alpha", D::F32, offset_of!(S172, f0)), F("Beta 2", D::Vec3f64, offset_of!(S172, f1))] },
S { desc: "#[repr(C)] struct { f32, Vector4<u8> }", layout: S173::layout, size: size_of::<S173>(), align: align_of::<S173>(), fields: || vec![F("Alpha", D::F32, offset_of!(S173, f0)), F("Beta 2", D::Vec4u8, offset_of!(S173, f1))] },
S { desc: "#[repr(C)] struct { f64, u8 }", layout: S174::layout, size: size_of::<S174>(), align: align_of::<S174>(), fields: || vec![F("Alpha", D::F64, offset_of!(S174, f0)), F("Beta 2", D::U8, offset_of!(S174, f1))] },
S { desc: "#[repr(C)] struct { f64, u16 }", layout: S175::layout, size: size_of::<S175>(), align: align_of::<S175>(), fields: || vec![F("Alpha", D::F64, offset_of!(S175, f0)), F("Beta 2", D::U16, offset_of!(S175, f1))] },
S { desc: "#[repr(C)] struct { f64, i64 }", layout: S176::layout, size: size_of::<S176>(), align: align_of::<S176>(), fields: || vec![F("Alpha", D::F64, offset_of!(S176, f0)), F("Beta 2", D::I64, offset_of!(S176, f1))] },
S { desc: "#[repr(C)] struct { f64, f32 }", layout: S177::layout, size: size_of::<S177>(), align: align_of::<S177>(), fields: || vec![F("Alpha", D::F64, offset_of!(S177, f0)), F("Beta 2", D::F32, offset_of!(S177, f1))] },
S { desc: "#[repr(C)] struct { f64, Vector3<u8> }", layout: S178::layout, size: size_of::<S178>(), align: align_of::<S178>(), fields: || vec![F("Alpha", D::F64, offset_of!(S178, f0)), F("Beta 2", D::Vec3u8, offset_of!(S178, f1))] },
S { desc: "#[repr(C)] struct { f64, Vector3<u16> }", layout: S179::layout, size: size_of::<S179>(), align: align_of::<S179>(), fields: || vec![F("Alpha", D::F64, offset_of!(S179, f0)), F("Beta 2", D::Vec3u16, offset_of!(S179, f1))] },
S { desc: "#[repr(C)] struct { Vector3<u8>, u8 }", layout: S180::layout, size: size_of::<S180>(), align: align_of::<S180>(), fields: || vec![F("Alpha", D::Vec3u8, offset_of!(S180, f0)), F("Beta 2", D::U8, offset_of!(S180, f1))] },
S { desc: "#[repr(C)] struct { Vector3<u8>, i8 }", layout: S181::layout, size: size_of::<S181>(), align: align_of::<S181>(), fields: || vec![F("Alpha", D::Vec3u8, offset_of!(S181, f0)), F("Beta 2", D::I8, offset_of!(S181, f1))] },
S { desc: "#[repr(C)] struct { Vector3<u8>, u16 }", layout: S182::layout, size: size_of::<S182>(), align: align_of::<S182>(), fields: || vec![F("Alpha", D::Vec3u8, offset_of!(S182, f0)), F("Beta 2", D::U16, offset_of!(S182, f1))] },
S { desc: "#[repr(C)] struct { Vector3<u8>, i16 }", layout: S183::layout, size: size_of::<S183>(), align: align_of::<S183>(), fields: || vec![F("Alpha", D::Vec3u8, offset_of!(S183, f0)), F("Beta 2", D::I16, offset_of!(S183, f1))] },
S { desc: "#[repr(C)] struct { Vector3<u8>, u32 }", layout: S184::layout, size: size_of::<S184>(), align: align_of::<S184>(), fields: || vec![F("Alpha", D::Vec3u8, offset_of!(S184, f0)), F("Beta 2", D::U32, offset_of!(S184, f1))] },
S { desc: "#[repr(C)] struct { Vector3<u8>, i32 }", layout: S185::layout, size: size_of::<S185>(), align: align_of::<S185>(), fields: || vec![F("Alpha", D::Vec3u8, offset_of!(S185, f0)), F("Beta 2", D::I32, offset_of!(S185, f1))] },
S { desc: "#[repr(C)] struct { Vector3<u8>, u64 }", layout: S186::layout, size: size_of::<S186>(), align: align_of::<S186>(), fields: || vec![F("Alpha", D::Vec3u8, offset_of!(S186, f0)), F("Beta 2", D::U64, offset_of!(S186, f1))] },
S { desc: "#[repr(C)] struct { Vector3<u8>, i64 }", layout: S187::layout, size: size_of::<S187>(), align: align_of::<S187>(), fields: || vec![F("Alpha", D::Vec3u8, offset_of!(S187, f0)), F("Beta 2", D::I64, offset_of!(S187, f1))] },
S { desc: "#[repr(C)] struct { Vector3<u8>, f32 }", layout: S188::layout, size: size_of::<S188>(), align: align_of::<S188>(), fields: || vec![F("Alpha", D::Vec3u8, offset_of!(S188, f0)), F("Beta 2", D::F32, offset_of!(S188, f1))] },
S { desc: "#[repr(C)] struct { Vector3<u8>, f64 }", layout: S189::layout, size: size_of::<S189>(), align: align_of::<S189>(), fields: || vec![F("Alpha", D::Vec3u8, offset_of!(S189, f0)), F("Beta 2", D::F64, offset_of!(S189, f1))] },
S { desc: "#[repr(C)] struct { Vector3<u8>, Vector3<u8> }", layout: S190::layout, size: size_of::<S190>(), align: align_of::<S190>(), fields: || vec![F("Alpha", D::Vec3u8, offset_of!(S190, f0)), F("Beta 2", D::Vec3u8, offset_of!(S190, f1))] },
S { desc: "#[repr(C)] struct { Vector3<u8>, Vector3<u16> }", layout: S191::layout, size: size_of::<S191>(), align: align_of::<S191>(), fields: || vec![F("Alpha", D::Vec3u8, offset_of!(S191, f0)), F("Beta 2", D::Vec3u16, offset_of!(S191, f1))] },
S { desc: "#[repr(C)] struct { Vector3<u8>, Vector3<f32> }", layout: S192::layout, size: size_of::<S192>(), align: align_of::<S192>(), fields: || vec![F("Alpha", D::Vec3u8, offset_of!(S192, f0)), F("Beta 2", D::Vec3f32, offset_of!(S192, f1))] },
S { desc: "#[repr(C)] struct { Vector3<u8>, Vector3<i32> }", layout: S193::layout, size: size_of::<S193>(), align: align_of::<S193>(), fields: || vec![F("Alpha", D::Vec3u8, offset_of!(S193, f0)), F("Beta 2", D::Vec3i32, offset_of!(S193, f1))] },
S { desc: "#[repr(C)] struct { Vector3<u8>, Vector3<f64> }", layout: S194::layout, size: size_of::<S194>(), align: align_of::<S194>(), fields: || vec![F("Alpha", D::Vec3u8, offset_of!(S194, f0)), F("Beta 2", D::Vec3f64, offset_of!(S194, f1))] },
S { desc: "#[repr(C)] struct { Vector3<u8>, Vector4<u8> }", layout: S195::layout, size: size_of::<S195>(), align: align_of::<S195>(), fields: || vec![F("Alpha", D::Vec3u8, offset_of!(S195, f0)), F("Beta 2", D::Vec4u8, offset_of!(S195, f1))] },
S { desc: "#[repr(C)] struct { Vector3<u16>, u8 }", layout: S196::layout, size: size_of::<S196>(), align: align_of::<S196>(), fields: || vec![F("Alpha", D::Vec3u16, offset_of!(S196, f0)), F("Beta 2", D::U8, offset_of!(S196, f1))] },
S { desc: "#[repr(C)] struct { Vector3<u16>, i8 }", layout: S197::layout, size: size_of::<S197>(), align: align_of::<S197>(), fields: || vec![F("Alpha", D::Vec3u16, offset_of!(S197, f0)), F("Beta 2", D::I8, offset_of!(S197, f1))] },
S { desc: "#[repr(C)] struct { Vector3<u16>, u16 }", layout: S198::layout, size: size_of::<S198>(), align: align_of::<S198>(), fields: || vec![F("Alpha", D::Vec3u16, offset_of!(S198, f0)), F("Beta 2", D::U16, offset_of!(S198, f1))] },
S { desc: "#[repr(C)] struct { Vector3<u16>, i16 }", layout: S199::layout, size: size_of::<S199>(), align: align_of::<S199>(), fields: || vec![F("Alpha", D::Vec3u16, offset_of!(S199, f0)), F("Beta 2", D::I16, offset_of!(S199, f1))] },
S { desc: "#[repr(C)] struct { Vector3<u16>, u32 }", layout: S200::layout, size: size_of::<S200>(), align: align_of::<S200>(), fields: || vec![F("Alpha", D::Vec3u16, offset_of!(S200, f0)), F("Beta 2", D::U32, offset_of!(S200, f1))] },
S { desc: "#[repr(C)] struct { Vector3<u16>, i32 }", layout: S201::layout, size: size_of::<S201>(), align: align_of::<S201>(), fields: || vec![F("Alpha", D::Vec3u16, offset_of!(S201, f0)), F("Beta 2", D::I32, offset_of!(S201, f1))] },
S { desc: "#[repr(C)] struct { Vector3<u16>, u64 }", layout: S202::layout, size: size_of::<S202>(), align: align_of::<S202>(), fields: || vec![F("Alpha", D::Vec3u16, offset_of!(S202, f0)), F("Beta 2", D::U64, offset_of!(S202, f1))] },
S { desc: "#[repr(C)] struct { Vector3<u16>, i64 }", layout: S203::layout, size: size_of::<S203>(), align: align_of::<S203>(), fields: || vec![F("Alpha", D::Vec3u16, offset_of!(S203, f0)), F("Beta 2", D::I64, offset_of!(S203, f1))] },
S { desc: "#[repr(C)] struct { Vector3<u16>, f32 }", layout: S204::layout, size: size_of::<S204>(), align: align_of::<S204>(), fields: || vec![F("Alpha", D::Vec3u16, offset_of!(S204, f0)), F("Beta 2", D::F32, offset_of!(S204, f1))] },
S { desc: "#[repr(C)] struct { Vector3<u16>, f64 }", layout: S205::layout, size: size_of::<S205>(), align: align_of::<S205>(), fields: || vec![F("Alpha", D::Vec3u16, offset_of!(S205, f0)), F("Beta 2", D::F64, offset_of!(S205, f1))] },
S { desc: "#[repr(C)] struct { Vector3<u16>, Vector3<u8> }", layout: S206::layout, size: size_of::<S206>(), align: align_of::<S206>(), fields: || vec![F("Alpha", D::Vec3u16, offset_of!(S206, f0)), F("Beta 2", D::Vec3u8, offset_of!(S206, f1))] },
S { desc: "#[repr(C)] struct { Vector3<u16>, Vector3<u16> }", layout: S207::layout, size: size_of::<S207>(), align: align_of::<S207>(), fields: || vec![F("Alpha", D::Vec3u16, offset_of!(S207, f0)), F("Beta 2", D::Vec3u16, offset_of!(S207, f1))] },
S { desc: "#[repr(C)] struct { Vector3<u16>, Vector3<f32> }", layout: S208::layout, size: size_of::<S208>(), align: align_of::<S208>(), fields: || vec![F("Alpha", D::Vec3u16, offset_of!(S208, f0)), F("Beta 2", D::Vec3f32, offset_of!(S208, f1))] },
S { desc: "#[repr(C)] struct { Vector3<u16>, Vector3<i32> }", layout: S209::layout, size: size_of::<S209>(), align: align_of::<S209>(), fields: || vec![F("Alpha", D::Vec3u16, offset_of!(S209, f0)), F("Beta 2", D::Vec3i32, offset_of!(S209, f1))] },
S { desc: "#[repr(C)] struct { Vector3<u16>, Vector3<f64> }", layout: S210::layout, size: size_of::<S210>(), align: align_of::<S210>(), fields: || vec![F("Alpha", D::Vec3u16, offset_of!(S210, f0)), F("Beta 2", D::Vec3f64, offset_of!(S210, f1))] },
S { desc: "#[repr(C)] struct { Vector3<u16>, Vector4<u8> }", layout: S211::layout, size: size_of::<S211>(), align: align_of::<S211>(), fields: || vec![F("Alpha", D::Vec3u16, offset_of!(S211, f0)), F("Beta 2", D::Vec4u8, offset_of!(S211, f1))] },
S { desc: "#[repr(C)] struct { Vector3<f32>, u8 }", layout: S212::layout, size: size_of::<S212>(), align: align_of::<S212>(), fields: || vec![F("Alpha", D::Vec3f32, offset_of!(S212, f0)), F("Beta 2", D::U8, offset_of!(S212, f1))] },
S { desc: "#[repr(C)] struct { Vector3<f32>, u16 }", layout: S213::layout, size: size_of::<S213>(), align: align_of::<S213>(), fields: || vec![F("Alpha", D::Vec3f32, offset_of!(S213, f0)), F("Beta 2", D::U16, offset_of!(S213, f1))] },
S { desc: "#[repr(C)] struct { Vector3<f32>, i64 }", layout: S214::layout, size: size_of::<S214>(), align: align_of::<S214>(), fields: || vec![F("Alpha", D::Vec3f32, offset_of!(S214, f0)), F("Beta 2", D::I64, offset_of!(S214, f1))] },
S { desc: "#[repr(C)] struct { Vector3<f32>, f32 }", layout: S215::layout, size: size_of::<S215>(), align: align_of::<S215>(), fields: || vec![F("Alpha", D::Vec3f32, offset_of!(S215, f0)), F("Beta 2", D::F32, offset_of!(S215, f1))] },
S { desc: "#[repr(C)] struct { Vector3<f32>, Vector3<u8> }", layout: S216::layout, size: size_of::<S216>(), align: align_of::<S216>(), fields: || vec![F("Alpha", D::Vec3f32, offset_of!(S216, f0)), F("Beta 2", D::Vec3u8, offset_of!(S216, f1))] },
S { desc: "#[repr(C)] struct { Vector3<f32>, Vector3<u16> }", layout: S217::layout, size: size_of::<S217>(), align: align_of::<S217>(), fields: || vec![F("Alpha", D::Vec3f32, offset_of!(S217, f0)), F("Beta 2", D::Vec3u16, offset_of!(S217, f1))] },
S { desc: "#[repr(C)] struct { Vector3<i32>, u8 }", layout: S218::layout, size: size_of::<S218>(), align: align_of::<S218>(), fields: || vec![F("Alpha", D::Vec3i32, offset_of!(S218, f0)), F("Beta 2", D::U8, offset_of!(S218, f1))] },
S { desc: "#[repr(C)] struct { Vector3<i32>, u16 }", layout: S219::layout, size: size_of::<S219>(), align: align_of::<S219>(), fields: || vec![F("Alpha", D::Vec3i32, offset_of!(S219, f0)), F("Beta 2", D::U16, offset_of!(S219, f1))] },
S { desc: "#[repr(C)] struct { Vector3<i32>, i64 }", layout: S220::layout, size: size_of::<S220>(), align: align_of::<S220>(), fields: || vec![F("Alpha", D::Vec3i32, offset_of!(S220, f0)), F("Beta 2", D::I64, offset_of!(S220, f1))] },
S { desc: "#[repr(C)] struct { Vector3<i32>, f32 }", layout: S221::layout, size: size_of::<S221>(), align: align_of::<S221>(), fields: || vec![F("Alpha", D::Vec3i32, offset_of!(S221, f0)), F("Beta 2", D::F32, offset_of!(S221, f1))] },
S { desc: "#[repr(C)] struct { Vector3<i32>, Vector3<u8> }", layout: S222::layout, size: size_of::<S222>(), align: align_of::<S222>(), fields: || vec![F("Alpha", D::Vec3i32, offset_of!(S222, f0)), F("Beta 2", D::Vec3u8, offset_of!(S222, f1))] },
S { desc: "#[repr(C)] struct { Vector3<i32>, Vector3<u16> }", layout: S223::layout, size: size_of::<S223>(), align: align_of::<S223>(), fields: || vec![F("Alpha", D::Vec3i32, offset_of!(S223, f0)), F("Beta 2", D::Vec3u16, offset_of!(S223, f1))] },
S { desc: "#[repr(C)] struct { Vector3<f64>, u8 }", layout: S224::layout, size: size_of::<S224>(), align: align_of::<S224>(), fields: || vec![F("Alpha", D::Vec3f64, offset_of!(S224, f0)), F("Beta 2", D::U8, offset_of!(S224, f1))] },
S { desc: "#[repr(C)] struct { Vector3<f64>, u16 }", layout: S225::layout, size: size_of::<S225>(), align: align_of::<S225>(), fields: || vec![F("Alpha", D::Vec3f64, offset_of!(S225, f0)), F("Beta 2", D::U16, offset_of!(S225, f1))] },
S { desc: "#[repr(C)] struct { Vector3<f64>, i64 }", layout: S226::layout, size: size_of::<S226>(), align: align_of::<S226>(), fields: || vec![F("Alpha", D::Vec3f64, offset_of!(S226, f0)), F("Beta 2", D::I64, offset_of!(S226, f1))] },
S { desc: "#[repr(C)] struct { Vector3<f64>, f32 }", layout: S227::layout, size: size_of::<S227>(), align: align_of::<S227>(), fields: || vec![F("Alpha", D::Vec3f64, offset_of!(S227, f0)), F("Beta 2", D::F32, offset_of!(S227, f1))] },
S { desc: "#[repr(C)] struct { Vector3<f64>, Vector3<u8> }", layout: S228::layout, size: size_of::<S228>(), align: align_of::<S228>(), fields: || vec![F("Alpha", D::Vec3f64, offset_of!(S228, f0)), F("Beta 2", D::Vec3u8, offset_of!(S228, f1))] },
S { desc: "#[repr(C)] struct { Vector3<f64>, Vector3<u16> }", layout: S229::layout, size: size_of::<S229>(), align: align_of::<S229>(), fields: || vec![F("Alpha", D::Vec3f64, offset_of!(S229, f0)), F("Beta 2", D::Vec3u16, offset_of!(S229, f1))] },
S { desc: "#[repr(C)] struct { Vector4<u8>, u8 }", layout: S230::layout, size: size_of::<S230>(), align: align_of::<S230>(), fields: || vec![F("Alpha", D::Vec4u8, offset_of!(S230, f0)), F("Beta 2", D::U8, offset_of!(S230, f1))] },
S { desc: "#[repr(C)] struct { Vector4<u8>, u16 }", layout: S231::layout, size: size_of::<S231>(), align: align_of::<S231>(), fields: || vec![F("Alpha", D::Vec4u8, offset_of!(S231, f0)), F("Beta 2", D::U16, offset_of!(S231, f1))] },
S { desc: "#[repr(C)] struct { Vector4<u8>, i64 }", layout: S232::layout, size: size_of::<S232>(), align: align_of::<S232>(), fields: || vec![F("Alpha", D::Vec4u8, offset_of!(S232, f0)), F("Beta 2", D::I64, offset_of!(S232, f1))] },
S { desc: "#[repr(C)] struct { Vector4<u8>, f32 }", layout: S233::layout, size: size_of::<S233>(), align: align_of::<S233>(), fields: || vec![F("Alpha", D::Vec4u8, offset_of!(S233, f0)), F("Beta 2", D::F32, offset_of!(S233, f1))] },
S { desc: "#[repr(C)] struct { Vector4<u8>, Vector3<u8> }", layout: S234::layout, size: size_of::<S234>(), align: align_of::<S234>(), fields: || vec![F("Alpha", D::Vec4u8, offset_of!(S234, f0)), F("Beta 2", D::Vec3u8, offset_of!(S234, f1))] },
S { desc: "#[repr(C)] struct { Vector4<u8>, Vector3<u16> }", layout: S235::layout, size: size_of::<S235>(), align: align_of::<S235>(), fields: || vec![F("Alpha", D::Vec4u8, offset_of!(S235, f0)), F("Beta 2", D::Vec3u16, offset_of!(S235, f1))] },
S { desc: "#[repr(C, packed(2))] struct { u8, u8 }", layout: S236::layout, size: size_of::<S236>(), align: align_of::<S236>(), fields: || vec![F("Alpha", D::U8, offset_of!(S236, f0)), F("Beta 2", D::U8, offset_of!(S236, f1))] },
S { desc: "#[repr(C, packed(2))] struct { u8, i8 }", layout: S237::layout, size: size_of::<S237>(), align: align_of::<S237>(), fields: || vec![F("Alpha", D::U8, offset_of!(S237, f0)), F("Beta 2", D::I8, offset_of!(S237, f1))] },
S { desc: "#[repr(C, packed(2))] struct { u8, u16 }", layout: S238::layout, size: size_of::<S238>(), align: align_of::<S238>(), fields: || vec![F("Alpha", D::U8, offset_of!(S238, f0)), F("Beta 2", D::U16, offset_of!(S238, f1))] },
S { desc: "#[repr(C, packed(2))] struct { u8, i16 }", layout: S239::layout, size: size_of::<S239>(), align: align_of::<S239>(), fields: || vec![F("Alpha", D::U8, offset_of!(S239, f0)), F("Beta 2", D::I16, offset_of!(S239, f1))] },
S { desc: "#[repr(C, packed(2))] struct { u8, u32 }", layout: S240::layout, size: size_of::<S240>(), align: align_of::<S240>(), fields: || vec![F("Alpha", D::U8, offset_of!(S240, f0)), F("Beta 2", D::U32, offset_of!(S240, f1))] },
S { desc: "#[repr(C, packed(2))] struct { u8, i32 }", layout: S241::layout, size: size_of::<S241>(), align: align_of::<S241>(), fields: || vec![F("Alpha", D::U8, offset_of!(S241, f0)), F("Beta 2", D::I32, offset_of!(S241, f1))] },
S { desc: "#[repr(C, packed(2))] struct { u8, u64 }", layout: S242::layout, size: size_of::<S242>(), align: align_of::<S242>(), fields: || vec![F("Alpha", D::U8, offset_of!(S242, f0)), F("Beta 2", D::U64, offset_of!(S242, f1))] },
S { desc: "#[repr(C, packed(2))] struct { u8, i64 }", layout: S243::layout, size: size_of::<S243>(), align: align_of::<S243>(), fields: || vec![F("Alpha", D::U8, offset_of!(S243, f0)), F("Beta 2", D::I64, offset_of!(S243, f1))] },
S { desc: "#[repr(C, packed(2))] struct { u8, f32 }", layout: S244::layout, size: size_of::<S244>(), align: align_of::<S244>(), fields: || vec![F("Alpha", D::U8, offset_of!(S244, f0)), F("Beta 2", D::F32, offset_of!(S244, f1))] },
S { desc: "#[repr(C, packed(2))] struct { u8, f64 }", layout: S245::layout, size: size_of::<S245>(), align: align_of::<S245>(), fields: || vec![F("Alpha", D::U8, offset_of!(S245, f0)), F("Beta 2", D::F64, offset_of!(S245, f1))] },
S { desc: "#[repr(C, packed(2))] struct { u8, Vector3<u8> }", layout: S246::layout, size: size_of::<S246>(), align: align_of::<S246>(), fields: || vec![F("Alpha", D::U8, offset_of!(S246, f0)), F("Beta 2", D::Vec3u8, offset_of!(S246, f1))] },
S { desc: "#[repr(C, packed(2))] struct { u8, Vector3<u16> }", layout: S247::layout, size: size_of::<S247>(), align: align_of::<S247>(), fields: || vec![F("Alpha", D::U8, offset_of!(S247, f0)), F("Beta 2", D::Vec3u16, offset_of!(S247, f1))] },
S { desc: "#[repr(C, packed(2))] struct { u8, Vector3<f32> }", layout: S248::layout, size: size_of::<S248>(), align: align_of::<S248>(), fields: || vec![F("Alpha", D::U8, offset_of!(S248, f0)), F("Beta 2", D::Vec3f32, offset_of!(S248, f1))] },
S { desc: "#[repr(C, packed(2))] struct { u8, Vector3<i32> }", layout: S249::layout, size: size_of::<S249>(), align: align_of::<S249>(), fields: || vec![F("Alpha", D::U8, offset_of!(S249, f0)), F("Beta 2", D::Vec3i32, offset_of!(S249, f1))] },
S { desc: "#[repr(C, packed(2))] struct { u8, Vector3<f64> }", layout: S250::layout, size: size_of::<S250>(), align: align_of::<S250>(), fields: || vec![F("Alpha", D::U8, offset_of!(S250, f0)), F("Beta 2", D::Vec3f64, offset_of!(S250, f1))] },
S { desc: "#[repr(C, packed(2))] struct { u8, Vector4<u8> }", layout: S251::layout, size: size_of::<S251>(), align: align_of::<S251>(), fields: || vec![F("Alpha", D::U8, offset_of!(S251, f0)), F("Beta 2", D::Vec4u8, offset_of!(S251, f1))] },
S { desc: "#[repr(C, packed(2))] struct { i8, u8 }", layout: S252::layout, size: size_of::<S252>(), align: align_of::<S252>(), fields: || vec![F("Alpha", D::I8, offset_of!(S252, f0)), F("Beta 2", D::U8, offset_of!(S252, f1))] },
S { desc: "#[repr(C, packed(2))] struct { i8, u16 }", layout: S253::layout, size: size_of::<S253>(), align: align_of::<S253>(), fields: || vec![F("Alpha", D::I8, offset_of!(S253, f0)), F("Beta 2", D::U16, offset_of!(S253, f1))] },
S { desc: "#[repr(C, packed(2))] struct { i8, i64 }", layout: S254::layout, size: size_of::<S254>(), align: align_of::<S254>(), fields: || vec![F("Alpha", D::I8, offset_of!(S254, f0)), F("Beta 2", D::I64, offset_of!(S254, f1))] },
S { desc: "#[repr(C, packed(2))] struct { i8, f32 }", layout: S255::layout, size: size_of::<S255>(), align: align_of::<S255>(), fields: || vec![F("Alpha", D::I8, offset_of!(S255, f0)), F("Beta 2", D::F32, offset_of!(S255, f1))] },
S { desc: "#[repr(C, packed(2))] struct { i8, Vector3<u8> }", layout: S256::layout, size: size_of::<S256>(), align: align_of::<S256>(), fields: || vec![F("Alpha", D::I8, offset_of!(S256, f0)), F("Beta 2", D::Vec3u8, offset_of!(S256, f1))] },
S { desc: "#[repr(C, packed(2))] struct { i8, Vector3<u16> }", layout: S257::layout, size: size_of::<S257>(), align: align_of::<S257>(), fields: || vec![F("Alpha", D::I8, offset_of!(S257, f0)), F("Beta 2", D::Vec3u16, offset_of!(S257, f1))] },
S { desc: "#[repr(C, packed(2))] struct { u16, u8 }", layout: S258::layout, size: size_of::<S258>(), align: align_of::<S258>(), fields: || vec![F("Alpha", D::U16, offset_of!(S258, f0)), F("Beta 2", D::U8, offset_of!(S258, f1))] },
S { desc: "#[repr(C, packed(2))] struct { u16, i8 }", layout: S259::layout, size: size_of::<S259>(), align: align_of::<S259>(), fields: || vec![F("Alpha", D::U16, offset_of!(S259, f0)), F("Beta 2", D::I8, offset_of!(S259, f1))] },
S { desc: "#[repr(C, packed(2))] struct { u16, u16 }", layout: S260::layout, size: size_of::<S260>(), align: align_of::<S260>(), fields: || vec![F("Alpha", D::U16, offset_of!(S260, f0)), F("Beta 2", D::U16, offset_of!(S260, f1))] },
S { desc: "#[repr(C, packed(2))] struct { u16, i16 }", layout: S261::layout, size: size_of::<S261>(), align: align_of::<S261>(), fields: || vec![F("Alpha", D::U16, offset_of!(S261, f0)), F("Beta 2", D::I16, offset_of!(S261, f1))] },
S { desc: "#[repr(C, packed(2))] struct { u16, u32 }", layout: S262::layout, size: size_of::<S262>(), align: align_of::<S262>(), fields: || vec![F("Alpha", D::U16, offset_of!(S262, f0)), F("Beta 2", D::U32, offset_of!(S262, f1))] },
S { desc: "#[repr(C, packed(2))] struct { u16, i32 }", layout: S263::layout, size: size_of::<S263>(), align: align_of::<S263>(), fields: || vec![F("Alpha", D::U16, offset_of!(S263, f0)), F("Beta 2", D::I32, offset_of!(S263, f1))] },
S { desc: "#[repr(C, packed(2))] struct { u16, u64 }", layout: S264::layout, size: size_of::<S264>(), align: align_of::<S264>(), fields: || vec![F("Alpha", D::U16, offset_of!(S264, f0)), F("Beta 2", D::U64, offset_of!(S264, f1))] },
S { desc: "#[repr(C, packed(2))] struct { u16, i64 }", layout: S265::layout, size: size_of::<S265>(), align: align_of::<S265>(), fields: || vec![F("Alpha", D::U16, offset_of!(S265, f0)), F("Beta 2", D::I64, offset_of!(S265, f1))] },
S { desc: "#[repr(C, packed(2))] struct { u16, f32 }", layout: S266::layout, size: size_of::<S266>(), align: align_of::<S266>(), fields: || vec![F("Alpha", D::U16, offset_of!(S266, f0)), F("Beta 2", D::F32, offset_of!(S266, f1))] },
S { desc: "#[repr(C, packed(2))] struct { u16, f64 }", layout: S267::layout, size: size_of::<S267>(), align: align_of::<S267>(), fields: || vec![F("Alpha", D::U16, offset_of!(S267, f0)), F("Beta 2", D::F64, offset_of!(S267, f1))] },
S { desc: "#[repr(C, packed(2))] struct { u16, Vector3<u8> }", layout: S268::layout, size: size_of::<S268>(), align: align_of::<S268>(), fields: || vec![F("Alpha", D::U16, offset_of!(S268, f0)), F("Beta 2", D::Vec3u8, offset_of!(S268, f1))] },
S { desc: "#[repr(C, packed(2))] struct { u16, Vector3<u16> }", layout: S269::layout, size: size_of::<S269>(), align: align_of::<S269>(), fields: || vec![F("Alpha", D::U16, offset_of!(S269, f0)), F("Beta 2", D::Vec3u16, offset_of!(S269, f1))] },
S { desc: "#[repr(C, packed(2))] struct { u16, Vector3<f32> }", layout: S270::layout, size: size_of::<S270>(), align: align_of::<S270>(), fields: || vec![F("Alpha", D::U16, offset_of!(S270, f0)), F("Beta 2", D::Vec3f32, offset_of!(S270, f1))] },
S { desc: "#[repr(C, packed(2))] struct { u16, Vector3<i32> }", layout: S271::layout, size: size_of::<S271>(), align: align_of::<S271>(), fields: || vec![F("Alpha", D::U16, offset_of!(S271, f0)), F("Beta 2", D::Vec3i32, offset_of!(S271, f1))] },
S { desc: "#[repr(C, packed(2))] struct { u16, Vector3<f64> }", layout: S272::layout, size: size_of::<S272>(), align: align_of::<S272>(), fields: || vec![F("Alpha", D::U16, offset_of!(S272, f0)), F("Beta 2", D::Vec3f64, offset_of!(S272, f1))] },
S { desc: "#[repr(C, packed(2))] struct { u16, Vector4<u8> }", layout: S273::layout, size: size_of::<S273>(), align: align_of::<S273>(), fields: || vec![F("Alpha", D::U16, offset_of!(S273, f0)), F("Beta 2", D::Vec4u8, offset_of!(S273, f1))] },
S { desc: "#[repr(C, packed(2))] struct { i16, u8 }", layout: S274::layout, size: size_of::<S274>(), align: align_of::<S274>(), fields: || vec![F("Alpha", D::I16, offset_of!(S274, f0)), F("Beta 2", D::U8, offset_of!(S274, f1))] },
S { desc: "#[repr(C, packed(2))] struct { i16, u16 }", layout: S275::layout, size: size_of::<S275>(), align: align_of::<S275>(), fields: || vec![F("Alpha", D::I16, offset_of!(S275, f0)), F("Beta 2", D::U16, offset_of!(S275, f1))] },
S { desc: "#[repr(C, packed(2))] struct { i16, i64 }", layout: S276::layout, size: size_of::<S276>(), align: align_of::<S276>(), fields: || vec![F("Alpha", D::I16, offset_of!(S276, f0)), F("Beta 2", D::I64, offset_of!(S276, f1))] },
S { desc: "#[repr(C, packed(2))] struct { i16, f32 }", layout: S277::layout, size: size_of::<S277>(), align: align_of::<S277>(), fields: || vec![F("Alpha", D::I16, offset_of!(S277, f0)), F("Beta 2", D::F32, offset_of!(S277, f1))] },
S { desc: "#[repr(C, packed(2))] struct { i16, Vector3<u8> }", layout: S278::layout, size: size_of::<S278>(), align: align_of::<S278>(), fields: || vec![F("Alpha", D::I16, offset_of!(S278, f0)), F("Beta 2", D::Vec3u8, offset_of!(S278, f1))] },
S { desc: "#[repr(C, packed(2))] struct { i16, Vector3<u16> }", layout: S279::layout, size: size_of::<S279>(), align: align_of::<S279>(), fields: || vec![F("Alpha", D::I16, offset_of!(S279, f0)), F("Beta 2", D::Vec3u16, offset_of!(S279, f1))] },
S { desc: "#[repr(C, packed(2))] struct { u32, u8 }", layout: S280::layout, size: size_of::<S280>(), align: align_of::<S280>(), fields: || vec![F("Alpha", D::U32, offset_of!(S280, f0)), F("Beta 2", D::U8, offset_of!(S280, f1))] },
S { desc: "#[repr(C, packed(2))] struct { u32, u16 }", layout: S281::layout, size: size_of::<S281>(), align: align_of::<S281>(), fields: || vec![F("Alpha", D::U32, offset_of!(S281, f0)), F("Beta 2", D::U16, offset_of!(S281, f1))] },
S { desc: "#[repr(C, packed(2))] struct { u32, i64 }", layout: S282::layout, size: size_of::<S282>(), align: align_of::<S282>(), fields: || vec![F("Alpha", D::U32, offset_of!(S282, f0)), F("Beta 2", D::I64, offset_of!(S282, f1))] },
S { desc: "#[repr(C, packed(2))] struct { u32, f32 }", layout: S283::layout, size: size_of::<S283>(), align: align_of::<S283>(), fields: || vec![F("Alpha", D::U32, offset_of!(S283, f0)), F("Beta 2", D::F32, offset_of!(S283, f1))] },
S { desc: "#[repr(C, packed(2))] struct { u32, Vector3<u8> }", layout: S284::layout, size: size_of::<S284>(), align: align_of::<S284>(), fields: || vec![F("Alpha", D::U32, offset_of!(S284, f0)), F("Beta 2", D::Vec3u8, offset_of!(S284, f1))] },
S { desc: "#[repr(C, packed(2))] struct { u32, Vector3<u16> }", layout: S285::layout, size: size_of::<S285>(), align: align_of::<S285>(), fields: || vec![F("Alpha", D::U32, offset_of!(S285, f0)), F("Beta 2", D::Vec3u16, offset_of!(S285, f1))] },
S { desc: "#[repr(C, packed(2))] struct { i32, u8 }", layout: S286::layout, size: size_of::<S286>(), align: align_of::<S286>(), fields: || vec![F("Alpha", D::I32, offset_of!(S286, f0)), F("Beta 2", D::U8, offset_of!(S286, f1))] },
S { desc: "#[repr(C, packed(2))] struct { i32, u16 }", layout: S287::layout, size: size_of::<S287>(), align: align_of::<S287>(), fields: || vec![F("Alpha", D::I32, offset_of!(S287, f0)), F("Beta 2", D::U16, offset_of!(S287, f1))] },
S { desc: "#[repr(C, packed(2))] struct { i32, i64 }", layout: S288::layout, size: size_of::<S288>(), align: align_of::<S288>(), fields: || vec![F("Alpha", D::I32, offset_of!(S288, f0)), F("Beta 2", D::I64, offset_of!(S288, f1))] },
S { desc: "#[repr(C, packed(2))] struct { i32, f32 }", layout: S289::layout, size: size_of::<S289>(), align: align_of::<S289>(), fields: || vec![F("Alpha", D::I32, offset_of!(S289, f0)), F("Beta 2", D::F32, offset_of!(S289, f1))] },
S { desc: "#[repr(C, packed(2))] struct { i32, Vector3<u8> }", layout: S290::layout, size: size_of::<S290>(), align: align_of::<S290>(), fields: || vec![F("Alpha", D::I32, offset_of!(S290, f0)), F("Beta 2", D::Vec3u8, offset_of!(S290, f1))] },
S { desc: "#[repr(C, packed(2))] struct { i32, Vector3<u16> }", layout: S291::layout, size: size_of::<S291>(), align: align_of::<S291>(), fields: || vec![F("Alpha", D::I32, offset_of!(S291, f0)), F("Beta 2", D::Vec3u16, offset_of!(S291, f1))] },
S { desc: "#[repr(C, packed(2))] struct { u64, u8 }", layout: S292::layout, size: size_of::<S292>(), align: align_of::<S292>(), fields: || vec![F("Alpha", D::U64, offset_of!(S292, f0)), F("Beta 2", D::U8, offset_of!(S292, f1))] },
S { desc: "#[repr(C, packed(2))] struct { u64, u16 }", layout: S293::layout, size: size_of::<S293>(), align: align_of::<S293>(), fields: || vec![F("Alpha", D::U64, offset_of!(S293, f0)), F("Beta 2", D::U16, offset_of!(S293, f1))] },
S { desc: "#[repr(C, packed(2))] struct { u64, i64 }", layout: S294::layout, size: size_of::<S294>(), align: align_of::<S294>(), fields: || vec![F("Alpha", D::U64, offset_of!(S294, f0)), F("Beta 2", D::I64, offset_of!(S294, f1))] },
S { desc: "#[repr(C, packed(2))] struct { u64, f32 }", layout: S295::layout, size: size_of::<S295>(), align: align_of::<S295>(), fields: || vec![F("Alpha", D::U64, offset_of!(S295, f0)), F("Beta 2", D::F32, offset_of!(S295, f1))] },
S { desc: "#[repr(C, packed(2))] struct { u64, Vector3<u8> }", layout: S296::layout, size: size_of::<S296>(), align: align_of::<S296>(), fields: || vec![F("Alpha", D::U64, offset_of!(S296, f0)), F("Beta 2", D::Vec3u8, offset_of!(S296, f1))] },
S { desc: "#[repr(C, packed(2))] struct { u64, Vector3<u16> }", layout: S297::layout, size: size_of::<S297>(), align: align_of::<S297>(), fields: || vec![F("Alpha", D::U64, offset_of!(S297, f0)), F("Beta 2", D::Vec3u16, offset_of!(S297, f1))] },
S { desc: "#[repr(C, packed(2))] struct { i64, u8 }", layout: S298::layout, size: size_of::<S298>(), align: align_of::<S298>(), fields: || vec![F("Alpha", D::I64, offset_of!(S298, f0)), F("Beta 2", D::U8, offset_of!(S298, f1))] },
S { desc: "#[repr(C, packed(2))] struct { i64, i8 }", layout: S299::layout, size: size_of::<S299>(), align: align_of::<S299>(), fields: || vec![F("Alpha", D::I64, offset_of!(S299, f0)), F("Beta 2", D::I8, offset_of!(S299, f1))] },
S { desc: "#[repr(C, packed(2))] struct { i64, u16 }", layout: S300::layout, size: size_of::<S300>(), align: align_of::<S300>(), fields: || vec![F("Alpha", D::I64, offset_of!(S300, f0)), F("Beta 2", D::U16, offset_of!(S300, f1))] },
S { desc: "#[repr(C, packed(2))] struct { i64, i16 }", layout: S301::layout, size: size_of::<S301>(), align: align_of::<S301>(), fields: || vec![F("Alpha", D::I64, offset_of!(S301, f0)), F("Beta 2", D::I16, offset_of!(S301, f1))] },
S { desc: "#[repr(C, packed(2))] struct { i64, u32 }", layout: S302::layout, size: size_of::<S302>(), align: align_of::<S302>(), fields: || vec![F("Alpha", D::I64, offset_of!(S302, f0)), F("Beta 2", D::U32, offset_of!(S302, f1))] },
S { desc: "#[repr(C, packed(2))] struct { i64, i32 }", layout: S303::layout, size: size_of::<S303>(), align: align_of::<S303>(), fields: || vec![F("Alpha", D::I64, offset_of!(S303, f0)), F("Beta 2", D::I32, offset_of!(S303, f1))] },
S { desc: "#[repr(C, packed(2))] struct { i64, u64 }", layout: S304::layout, size: size_of::<S304>(), align: align_of::<S304>(), fields: || vec![F("Alpha", D::I64, offset_of!(S304, f0)), F("Beta 2", D::U64, offset_of!(S304, f1))] },
S { desc: "#[repr(C, packed(2))] struct { i64, i64 }", layout: S305::layout, size: size_of::<S305>(), align: align_of::<S305>(), fields: || vec![F("Alpha", D::I64, offset_of!(S305, f0)), F("Beta 2", D::I64, offset_of!(S305, f1))] },
S { desc: "#[repr(C, packed(2))] struct { i64, f32 }", layout: S306::layout, size: size_of::<S306>(), align: align_of::<S306>(), fields: || vec![F("Alpha", D::I64, offset_of!(S306, f0)), F("Beta 2", D::F32, offset_of!(S306, f1))] },
S { desc: "#[repr(C, packed(2))] struct { i64, f64 }", layout: S307::layout, size: size_of::<S307>(), align: align_of::<S307>(), fields: || vec![F("Alpha", D::I64, offset_of!(S307, f0)), F("Beta 2", D::F64, offset_of!(S307, f1))] },
S { desc: "#[repr(C, packed(2))] struct { i64, Vector3<u8> }", layout: S308::layout, size: size_of::<S308>(), align: align_of::<S308>(), fields: || vec![F("Alpha", D::I64, offset_of!(S308, f0)), F("Beta 2", D::Vec3u8, offset_of!(S308, f1))] },
S { desc: "#[repr(C, packed(2))] struct { i64, Vector3<u16> }", layout: S309::layout, size: size_of::<S309>(), align: align_of::<S309>(), fields: || vec![F("Alpha", D::I64, offset_of!(S309, f0)), F("Beta 2", D::Vec3u16, offset_of!(S309, f1))] },
S { desc: "#[repr(C, packed(2))] struct { i64, Vector3<f32> }", layout: S310::layout, size: size_of::<S310>(), align: align_of::<S310>(), fields: || vec![F("Alpha", D::I64, offset_of!(S310, f0)), F("Beta 2", D::Vec3f32, offset_of!(S310, f1))] },
S { desc: "#[repr(C, packed(2))] struct { i64, Vector3<i32> }", layout: S311::layout, size: size_of::<S311>(), align: align_of::<S311>(), fields: || vec![F("Alpha", D::I64, offset_of!(S311, f0)), F("Beta 2", D::Vec3i32, offset_of!(S311, f1))] },
S { desc: "#[repr(C, packed(2))] struct { i64, Vector3<f64> }", layout: S312::layout, size: size_of::<S312>(), align: align_of::<S312>(), fields: || vec![F("Alpha", D::I64, offset_of!(S312, f0)), F("Beta 2", D::Vec3f64, offset_of!(S312, f1))] },
S { desc: "#[repr(C, packed(2))] struct { i64, Vector4<u8> }", layout: S313::layout, size: size_of::<S313>(), align: align_of::<S313>(), fields: || vec![F("Alpha", D::I64, offset_of!(S313, f0)), F("Beta 2", D::Vec4u8, offset_of!(S313, f1))] },
S { desc: "#[repr(C, packed(2))] struct { f32, u8 }", layout: S314::layout, size: size_of::<S314>(), align: align_of::<S314>(), fields: || vec![F("Alpha", D::F32, offset_of!(S314, f0)), F("Beta 2", D::U8, offset_of!(S314, f1))] },
S { desc: "#[repr(C, packed(2))] struct { f32, i8 }", layout: S315::layout, size: size_of::<S315>(), align: align_of::<S315>(), fields: || vec![F("Alpha", D::F32, offset_of!(S315, f0)), F("Beta 2", D::I8, offset_of!(S315, f1))] },
S { desc: "#[repr(C, packed(2))] struct { f32, u16 }", layout: S316::layout, size: size_of::<S316>(), align: align_of::<S316>(), fields: || vec![F("Alpha", D::F32, offset_of!(S316, f0)), F("Beta 2", D::U16, offset_of!(S316, f1))] },
S { desc: "#[repr(C, packed(2))] struct { f32, i16 }", layout: S317::layout, size: size_of::<S317>(), align: align_of::<S317>(), fields: || vec![F("Alpha", D::F32, offset_of!(S317, f0)), F("Beta 2", D::I16, offset_of!(S317, f1))] },
S { desc: "#[repr(C, packed(2))] struct { f32, u32 }", layout: S318::layout, size: size_of::<S318>(), align: align_of::<S318>(), fields: || vec![F("Alpha", D::F32, offset_of!(S318, f0)), F("Beta 2", D::U32, offset_of!(S318, f1))] },
S { desc: "#[repr(C, packed(2))] struct { f32, i32 }", layout: S319::layout, size: size_of::<S319>(), align: align_of::<S319>(), fields: || vec![F("Alpha", D::F32, offset_of!(S319, f0)), F("Beta 2", D::I32, offset_of!(S319, f1))] },
S { desc: "#[repr(C, packed(2))] struct { f32, u64 }", layout: S320::layout, size: size_of::<S320>(), align: align_of::<S320>(), fields: || vec![F("Alpha", D::F32, offset_of!(S320, f0)), F("Beta 2", D::U64, offset_of!(S320, f1))] },
S { desc: "#[repr(C, packed(2))] struct { f32, i64 }", layout: S321::layout, size: size_of::<S321>(), align: align_of::<S321>(), fields: || vec![F("Alpha", D::F32, offset_of!(S321, f0)), F("Beta 2", D::I64, offset_of!(S321, f1))] },
S { desc: "#[repr(C, packed(2))] struct { f32, f32 }", layout: S322::layout, size: size_of::<S322>(), align: align_of::<S322>(), fields: || vec![F("Alpha", D::F32, offset_of!(S322, f0)), F("Beta 2", D::F32, offset_of!(S322, f1))] },
S { desc: "#[repr(C, packed(2))] struct { f32, f64 }", layout: S323::layout, size: size_of::<S323>(), align: align_of::<S323>(), fields: || vec![F("Alpha", D::F32, offset_of!(S323, f0)), F("Beta 2", D::F64, offset_of!(S323, f1))] },
S { desc: "#[repr(C, packed(2))] struct { f32, Vector3<u8> }", layout: S324::layout, size: size_of::<S324>(), align: align_of::<S324>(), fields: || vec![F("Alpha", D::F32, offset_of!(S324, f0)), F("Beta 2", D::Vec3u8, offset_of!(S324, f1))] },
S { desc: "#[repr(C, packed(2))] struct { f32, Vector3<u16> }", layout: S325::layout, size: size_of::<S325>(), align: align_of::<S325>(), fields: || vec![F("Alpha", D::F32, offset_of!(S325, f0)), F("Beta 2", D::Vec3u16, offset_of!(S325, f1))] },
S { desc: "#[repr(C, packed(2))] struct { f32, Vector3<f32> }", layout: S326::layout, size: size_of::<S326>(), align: align_of::<S326>(), fields: || vec![F("Alpha", D::F32, offset_of!(S326, f0)), F("Beta 2", D::Vec3f32, offset_of!(S326, f1))] },
S { desc: "#[repr(C, packed(2))] struct { f32, Vector3<i32> }", layout: S327::layout, size: size_of::<S327>(), align: align_of::<S327>(), fields: || vec![F("Alpha", D::F32, offset_of!(S327, f0)), F("Beta 2", D::Vec3i32, offset_of!(S327, f1))] },
S { desc: "#[repr(C, packed(2))] struct { f32, Vector3<f64> }", layout: S328::layout, size: size_of::<S328>(), align: align_of::<S328>(), fields: || vec![F("Alpha", D::F32, offset_of!(S328, f0)), F("Beta 2", D::Vec3f64, offset_of!(S328, f1))] },
S { desc: "#[repr(C, packed(2))] struct { f32, Vector4<u8> }", layout: S329::layout, size: size_of::<S329>(), align: align_of::<S329>(), fields: || vec![F("Alpha", D::F32, offset_of!(S329, f0)), F("Beta 2", D::Vec4u8, offset_of!(S329, f1))] },
S { desc: "#[repr(C, packed(2))] struct { f64, u8 }", layout: S330::layout, size: size_of::<S330>(), align: align_of::<S330>(), fields: || vec![F("Alpha", D::F64, offset_of!(S330, f0)), F("Beta 2", D::U8, offset_of!(S330, f1))] },
S { desc: "#[repr(C, packed(2))] struct { f64, u16 }", layout: S331::layout, size: size_of::<S331>(), align: align_of::<S331>(), fields: || vec![F("Alpha", D::F64, offset_of!(S331, f0)), F("Beta 2", D::U16, offset_of!(S331, f1))] },
S { desc: "#[repr(C, packed(2))] struct { f64, i64 }", layout: S332::layout, size: size_of::<S332>(), align: align_of::<S332>(), fields: || vec![F("Alpha", D::F64, offset_of!(S332, f0)), F("Beta 2", D::I64, offset_of!(S332, f1))] },
S { desc: "#[repr(C, packed(2))] struct { f64, f32 }", layout: S333::layout, size: size_of::<S333>(), align: align_of::<S333>(), fields: || vec![F("Alpha", D::F64, offset_of!(S333, f0)), F("Beta 2", D::F32, offset_of!(S333, f1))] },
S { desc: "#[repr(C, packed(2))] struct { f64, Vector3<u8> }", layout: S334::layout, size: size_of::<S334>(), align: align_of::<S334>(), fields: || vec![F("Alpha", D::F64, offset_of!(S334, f0)), F("Beta 2", D::Vec3u8, offset_of!(S334, f1))] },
S { desc: "#[repr(C, packed(2))] struct { f64, Vector3<u16> }", layout: S335::layout, size: size_of::<S335>(), align: align_of::<S335>(), fields: || vec![F("Alpha", D::F64, offset_of!(S335, f0)), F("Beta 2", D::Vec3u16, offset_of!(S335, f1))] },
S { desc: "#[repr(C, packed(2))] struct { Vector3<u8>, u8 }", layout: S336::layout, size: size_of::<S336>(), align: align_of::<S336>(), fields: || vec![F("Alpha", D::Vec3u8, offset_of!(S336, f0)), F("Beta 2", D::U8, offset_of!(S336, f1))] },
S { desc: "#[repr(C, packed(2))] struct { Vector3<u8>, i8 }", layout: S337::layout, size: size_of::<S337>(), align: align_of::<S337>(), fields: || vec![F("Alpha", D::Vec3u8, offset_of!(S337, f0)), F("Beta 2", D::I8, offset_of!(S337, f1))] },
S { desc: "#[repr(C, packed(2))] struct { Vector3<u8>, u16 }", layout: S338::layout, size: size_of::<S338>(), align: align_of::<S338>(), fields: || vec![F("Alpha", D::Vec3u8, offset_of!(S338, f0)), F("Beta 2", D::U16, offset_of!(S338, f1))] },
S { desc: "#[repr(C, packed(2))] struct { Vector3<u8>, i16 }", layout: S339::layout, size: size_of::<S339>(), align: align_of::<S339>(), fields: || vec![F("Alpha", D::Vec3u8, offset_of!(S339, f0)), F("Beta 2", D::I16, offset_of!(S339, f1))] },
S { desc: "#[repr(C, packed(2))] struct { Vector3<u8>, u32 }", layout: S340::layout, size: size_of::<S340>(), align: align_of::<S340>(), fields: || vec![F("Alpha", D::Vec3u8, offset_of!(S340, f0)), F("Beta 2", D::U32, offset_of!(S340, f1))] },
S { desc: "#[repr(C, packed(2))] struct { Vector3<u8>, i32 }", layout: S341::layout, size: size_of::<S341>(), align: align_of::<S341>(), fields: || vec![F("Alpha", D::Vec3u8, offset_of!(S341, f0)), F("Beta 2", D::I32, offset_of!(S341, f1))] },
S { desc: "#[repr(C, packed(2))] struct { Vector3<u8>, u64 }", layout: S342::layout, size: size_of::<S342>(), align: align_of::<S342>(), fields: || vec![F("Alpha", D::Vec3u8, offset_of!(S342, f0)), F("Beta 2", D::U64, offset_of!(S342, f1))] },
S { desc: "#[repr(C, packed(2))] struct { Vector3<u8>, i64 }", layout: S343::layout, size: size_of::<S343>(), align: align_of::<S343>(), fields: || vec![F("Alpha", D::Vec3u8, offset_of!(S343, f0)), F("Beta 2", D::I64, offset_of!(S343, f1))] },
S { desc: "#[repr(C, packed(2))] struct { Vector3<u8>, f32 }", layout: S344::layout, size: size_of::<S344>(), align: align_of::<S344>(), fields: || vec![F("Alpha", D::Vec3u8, offset_of!(S344, f0)), F("Beta 2", D::F32, offset_of!(S344, f1))] },
S { desc: "#[repr(C, packed(2))] struct { Vector3<u8>, f64 }", layout: S345::layout, size: size_of::<S345>(), align: align_of::<S345>(), fields: || vec![F("Alpha", D::Vec3u8, offset_of!(S345, f0)), F("Beta 2", D::F64, offset_of!(S345, f1))] },
S { desc: "#[repr(C, packed(2))] struct { Vector3<u8>, Vector3<u8> }", layout: S346::layout, size: size_of::<S346>(), align: align_of::<S346>(), fields: || vec![F("Alpha", D::Vec3u8, offset_of!(S346, f0)), F("Beta 2", D::Vec3u8, offset_of!(S346, f1))] },
S { desc: "#[repr(C, packed(2))] struct { Vector3<u8>, Vector3<u16> }", layout: S347::layout, size: size_of::<S347>(), align: align_of::<S347>(), fields: || vec![F("Alpha", D::Vec3u8, offset_of!(S347, f0)), F("Beta 2", D::Vec3u16, offset_of!(S347, f1))] },
S { desc: "#[repr(C, packed(2))] struct { Vector3<u8>, Vector3<f32> }", layout: S348::layout, size: size_of::<S348>(), align: align_of::<S348>(), fields: || vec![F("Alpha", D::Vec3u8, offset_of!(S348, f0)), F("Beta 2", D::Vec3f32, offset_of!(S348, f1))] },
S { desc: "#[repr(C, packed(2))] struct { Vector3<u8>, Vector3<i32> }", layout: S349::layout, size: size_of::<S349>(), align: align_of::<S349>(), fields: || vec![F("Alpha", D::Vec3u8, offset_of!(S349, f0)), F("Beta 2", D::Vec3i32, offset_of!(S349, f1))] },
S { desc: "#[repr(C, packed(2))] struct { Vector3<u8>, Vector3<f64> }", layout: S350::layout, size: size_of::<S350>(), align: align_of::<S350>(), fields: || vec![F("Alpha", D::Vec3u8, offset_of!(S350, f0)), F("Beta 2", D::Vec3f64, offset_of!(S350, f1))] },
S { desc: "#[repr(C, packed(2))] struct { Vector3<u8>, Vector4<u8> }", layout: S351::layout, size: size_of::<S351>(), align: align_of::<S351>(), fields: || vec![F("Alpha", D::Vec3u8, offset_of!(S351, f0)), F("Beta 2", D::Vec4u8, offset_of!(S351, f1))] },
S { desc: "#[repr(C, packed(2))] struct { Vector3<u16>, u8 }", layout: S352::layout, size: size_of::<S352>(), align: align_of::<S352>(), fields: || vec![F("Alpha", D::Vec3u16, offset_of!(S352, f0)), F("Beta 2", D::U8, offset_of!(S352, f1))] },
S { desc: "#[repr(C, packed(2))] struct { Vector3<u16>, i8 }", layout: S353::layout, size: size_of::<S353>(), align: align_of::<S353>(), fields: || vec![F("Alpha", D::Vec3u16, offset_of!(S353, f0)), F("Beta 2", D::I8, offset_of!(S353, f1))] },
S { desc: "#[repr(C, packed(2))] struct { Vector3<u16>, u16 }", layout: S354::layout, size: size_of::<S354>(), align: align_of::<S354>(), fields: || vec![F("Alpha", D::Vec3u16, offset_of!(S354, f0)), F("Beta 2", D::U16, offset_of!(S354, f1))] },
S { desc: "#[repr(C, packed(2))] struct { Vector3<u16>, i16 }", layout: S355::layout, size: size_of::<S355>(), align: align_of::<S355>(), fields: || vec![F("Alpha", D::Vec3u16, offset_of!(S355, f0)), F("Beta 2", D::I16, offset_of!(S355, f1))] },
S { desc: "#[repr(C, packed(2))] struct { Vector3<u16>, u32 }", layout: S356::layout, size: size_of::<S356>(), align: align_of::<S356>(), fields: || vec![F("Alpha", D::Vec3u16, offset_of!(S356, f0)), F("Beta 2", D::U32, offset_of!(S356, f1))] },
S { desc: "#[repr(C, packed(2))] struct { Vector3<u16>, i32 }", layout: S357::layout, size: size_of::<S357>(), align: align_of::<S357>(), fields: || vec![F("Alpha", D::Vec3u16, offset_of!(S357, f0)), F("Beta 2", D::I32, offset_of!(S357, f1))] },
S { desc: "#[repr(C, packed(2))] struct { Vector3<u16>, u64 }", layout: S358::layout, size: size_of::<S358>(), align: align_of::<S358>(), fields: || vec![F("Alpha", D::Vec3u16, offset_of!(S358, f0)), F("Beta 2", D::U64, offset_of!(S358, f1))] },
S { desc: "#[repr(C, packed(2))] struct { Vector3<u16>, i64 }", layout: S359::layout, size: size_of::<S359>(), align: align_of::<S359>(), fields: || vec![F("Alpha", D::Vec3u16, offset_of!(S359, f0)), F("Beta 2", D::I64, offset_of!(S359, f1))] },
S { desc: "#[repr(C, packed(2))] struct { Vector3<u16>, f32 }", layout: S360::layout, size: size_of::<S360>(), align: align_of::<S360>(), fields: || vec![F("Alpha", D::Vec3u16, offset_of!(S360, f0)), F("Beta 2", D::F32, offset_of!(S360, f1))] },
S { desc: "#[repr(C, packed(2))] struct { Vector3<u16>, f64 }", layout: S361::layout, size: size_of::<S361>(), align: align_of::<S361>(), fields: || vec![F("Alpha", D::Vec3u16, offset_of!(S361, f0)), F("Beta 2", D::F64, offset_of!(S361, f1))] },
S { desc: "#[repr(C, packed(2))] struct { Vector3<u16>, Vector3<u8> }", layout: S362::layout, size: size_of::<S362>(), align: align_of::<S362>(), fields: || vec![F("Alpha", D::Vec3u16, offset_of!(S362, f0)), F("Beta 2", D::Vec3u8, offset_of!(S362, f1))] },
S { desc: "#[repr(C, packed(2))] struct { Vector3<u16>, Vector3<u16> }", layout: S363::layout, size: size_of::<S363>(), align: align_of::<S363>(), fields: || vec![F("Alpha", D::Vec3u16, offset_of!(S363, f0)), F("Beta 2", D::Vec3u16, offset_of!(S363, f1))] },
S { desc: "#[repr(C, packed(2))] struct { Vector3<u16>, Vector3<f32> }", layout: S364::layout, size: size_of::<S364>(), align: align_of::<S364>(), fields: || vec![F("Alpha", D::Vec3u16, offset_of!(S364, f0)), F("Beta 2", D::Vec3f32, offset_of!(S364, f1))] },
S { desc: "#[repr(C, packed(2))] struct { Vector3<u16>, Vector3<i32> }", layout: S365::layout, size: size_of::<S365>(), align: align_of::<S365>(), fields: || vec![F("Alpha", D::Vec3u16, offset_of!(S365, f0)), F("Beta 2", D::Vec3i32, offset_of!(S365, f1))] },
S { desc: "#[repr(C, packed(2))] struct { Vector3<u16>, Vector3<f64> }", layout: S366::layout, size: size_of::<S366>(), align: align_of::<S366>(), fields: || vec![F("Alpha", D::Vec3u16, offset_of!(S366, f0)), F("Beta 2", D::Vec3f64, offset_of!(S366, f1))] },
S { desc: "#[repr(C, packed(2))] struct { Vector3<u16>, Vector4<u8> }", layout: S367::layout, size: size_of::<S367>(), align: align_of::<S367>(), fields: || vec![F("Alpha", D::Vec3u16, offset_of!(S367, f0)), F("Beta 2", D::Vec4u8, offset_of!(S367, f1))] },
S { desc: "#[repr(C, packed(2))] struct { Vector3<f32>, u8 }", layout: S368::layout, size: size_of::<S368>(), align: align_of::<S368>(), fields: || vec![F("Alpha", D::Vec3f32, offset_of!(S368, f0)), F("Beta 2", D::U8, offset_of!(S368, f1))] },
S { desc: "#[repr(C, packed(2))] struct { Vector3<f32>, u16 }", layout: S369::layout, size: size_of::<S369>(), align: align_of::<S369>(), fields: || vec![F("Alpha", D::Vec3f32, offset_of!(S369, f0)), F("Beta 2", D::U16, offset_of!(S369, f1))] },
S { desc: "#[repr(C, packed(2))] struct { Vector3<f32>, i64 }", layout: S370::layout, size: size_of::<S370>(), align: align_of::<S370>(), fields: || vec![F("Alpha", D::Vec3f32, offset_of!(S370, f0)), F("Beta 2", D::I64, offset_of!(S370, f1))] },
S { desc: "#[repr(C, packed(2))] struct { Vector3<f32>, f32 }", layout: S371::layout, size: size_of::<S371>(), align: align_of::<S371>(), fields: || vec![F("Alpha", D::Vec3f32, offset_of!(S371, f0)), F("Beta 2", D::F32, offset_of!(S371, f1))] },
S { desc: "#[repr(C, packed(2))] struct { Vector3<f32>, Vector3<u8> }", layout: S372::layout, size: size_of::<S372>(), align: align_of::<S372>(), fields: || vec![F("Alpha", D::Vec3f32, offset_of!(S372, f0)), F("Beta 2", D::Vec3u8, offset_of!(S372, f1))] },
S { desc: "#[repr(C, packed(2))] struct { Vector3<f32>, Vector3<u16> }", layout: S373::layout, size: size_of::<S373>(), align: align_of::<S373>(), fields: || vec![F("Alpha", D::Vec3f32, offset_of!(S373, f0)), F("Beta 2", D::Vec3u16, offset_of!(S373, f1))] },
S { desc: "#[repr(C, packed(2))] struct { Vector3<i32>, u8 }", layout: S374::layout, size: size_of::<S374>(), align: align_of::<S374>(), fields: || vec![F("Alpha", D::Vec3i32, offset_of!(S374, f0)), F("Beta 2", D::U8, offset_of!(S374, f1))] },
S { desc: "#[repr(C, packed(2))] struct { Vector3<i32>, u16 }", layout: S375::layout, size: size_of::<S375>(), align: align_of::<S375>(), fields: || vec![F("Alpha", D::Vec3i32, offset_of!(S375, f0)), F("Beta 2", D::U16, offset_of!(S375, f1))] },
S { desc: "#[repr(C, packed(2))] struct { Vector3<i32>, i64 }", layout: S376::layout, size: size_of::<S376>(), align: align_of::<S376>(), fields: || vec![F("Alpha", D::Vec3i32, offset_of!(S376, f0)), F("Beta 2", D::I64, offset_of!(S376, f1))] },
S { desc: "#[repr(C, packed(2))] struct { Vector3<i32>, f32 }", layout: S377::layout, size: size_of::<S377>(), align: align_of::<S377>(), fields: || vec![F("Alpha", D::Vec3i32, offset_of!(S377, f0)), F("Beta 2", D::F32, offset_of!(S377, f1))] },
S { desc: "#[repr(C, packed(2))] struct { Vector3<i32>, Vector3<u8> }", layout: S378::layout, size: size_of::<S378>(), align: align_of::<S378>(), fields: || vec![F("Alpha", D::Vec3i32, offset_of!(S378, f0)), F("Beta 2", D::Vec3u8, offset_of!(S378, f1))] },
S { desc: "#[repr(C, packed(2))] struct { Vector3<i32>, Vector3<u16> }", layout: S379::layout, size: size_of::<S379>(), align: align_of::<S379>(), fields: || vec![F("Alpha", D::Vec3i32, offset_of!(S379, f0)), F("Beta 2", D::Vec3u16, offset_of!(S379, f1))] },
S { desc: "#[repr(C, packed(2))] struct { Vector3<f64>, u8 }", layout: S380::layout, size: size_of::<S380>(), align: align_of::<S380>(), fields: || vec![F("Alpha", D::Vec3f64, offset_of!(S380, f0)), F("Beta 2", D::U8, offset_of!(S380, f1))] },
S { desc: "#[repr(C, packed(2))] struct { Vector3<f64>, u16 }", layout: S381::layout, size: size_of::<S381>(), align: align_of::<S381>(), fields: || vec![F("Alpha", D::Vec3f64, offset_of!(S381, f0)), F("Beta 2", D::U16, offset_of!(S381, f1))] },
S { desc: "#[repr(C, packed(2))] struct { Vector3<f64>, i64 }", layout: S382::layout, size: size_of::<S382>(), align: align_of::<S382>(), fields: || vec![F("Alpha", D::Vec3f64, offset_of!(S382, f0)), F("Beta 2", D::I64, offset_of!(S382, f1))] },
S { desc: "#[repr(C, packed(2))] struct { Vector3<f64>, f32 }", layout: S383::layout, size: size_of::<S383>(), align: align_of::<S383>(), fields: || vec![F("Alpha", D::Vec3f64, offset_of!(S383, f0)), F("Beta 2", D::F32, offset_of!(S383, f1))] },
S { desc: "#[repr(C, packed(2))] struct { Vector3<f64>, Vector3<u8> }", layout: S384::layout, size: size_of::<S384>(), align: align_of::<S384>(), fields: || vec![F("Alpha", D::Vec3f64, offset_of!(S384, f0)), F("Beta 2", D::Vec3u8, offset_of!(S384, f1))] },
S { desc: "#[repr(C, packed(2))] struct { Vector3<f64>, Vector3<u16> }", layout: S385::layout, size: size_of::<S385>(), align: align_of::<S385>(), fields: || vec![F("Alpha", D::Vec3f64, offset_of!(S385, f0)), F("Beta 2", D::Vec3u16, offset_of!(S385, f1))] },
S { desc: "#[repr(C, packed(2))] struct { Vector4<u8>, u8 }", layout: S386::layout, size: size_of::<S386>(), align: align_of::<S386>(), fields: || vec![F("Alpha", D::Vec4u8, offset_of!(S386, f0)), F("Beta 2", D::U8, offset_of!(S386, f1))] },
S { desc: "#[repr(C, packed(2))] struct { Vector4<u8>, u16 }", layout: S387::layout, size: size_of::<S387>(), align: align_of::<S387>(), fields: || vec![F("Alpha", D::Vec4u8, offset_of!(S387, f0)), F("Beta 2", D::U16, offset_of!(S387, f1))] },
S { desc: "#[repr(C, packed(2))] struct { Vector4<u8>, i64 }", layout: S388::layout, size: size_of::<S388>(), align: align_of::<S388>(), fields: || vec![F("Alpha", D::Vec4u8, offset_of!(S388, f0)), F("Beta 2", D::I64, offset_of!(S388, f1))] },
S { desc: "#[repr(C, packed(2))] struct { Vector4<u8>, f32 }", layout: S389::layout, size: size_of::<S389>(), align: align_of::<S389>(), fields: || vec![F("Alpha", D::Vec4u8, offset_of!(S389, f0)), F("Beta 2", D::F32, offset_of!(S389, f1))] },
S { desc: "#[repr(C, packed(2))] struct { Vector4<u8>, Vector3<u8> }", layout: S390::layout, size: size_of::<S390>(), align: align_of::<S390>(), fields: || vec![F("Alpha", D::Vec4u8, offset_of!(S390, f0)), F("Beta 2", D::Vec3u8, offset_of!(S390, f1))] },
S { desc: "#[repr(C, packed(2))] struct { Vector4<u8>, Vector3<u16> }", layout: S391::layout, size: size_of::<S391>(), align: align_of::<S391>(), fields: || vec![F("Alpha", D::Vec4u8, offset_of!(S391, f0)), F("Beta 2", D::Vec3u16, offset_of!(S391, f1))] },
S { desc: "#[repr(C)] struct { u8, u8, u8 }", layout: S392::layout, size: size_of::<S392>(), align: align_of::<S392>(), fields: || vec![F("Alpha", D::U8, offset_of!(S392, f0)), F("Beta 2", D::U8, offset_of!(S392, f1)), F("Position3D", D::U8, offset_of!(S392, f2))] },
S { desc: "#[repr(C)] struct { u8, u8, u16 }", layout: S393::layout, size: size_of::<S393>(), align: align_of::<S393>(), fields: || vec![F("Alpha", D::U8, offset_of!(S393, f0)), F("Beta 2", D::U8, offset_of!(S393, f1)), F("Position3D", D::U16, offset_of!(S393, f2))] },
S { desc: "#[repr(C)] struct { u8, u8, f32 }", layout: S394::layout, size: size_of::<S394>(), align: align_of::<S394>(), fields: || vec![F("Alpha", D::U8, offset_of!(S394, f0)), F("Beta 2", D::U8, offset_of!(S394, f1)), F("Position3D", D::F32, offset_of!(S394, f2))] },
S { desc: "#[repr(C)] struct { u8, u8, i64 }", layout: S395::layout, size: size_of::<S395>(), align: align_of::<S395>(), fields: || vec![F("Alpha", D::U8, offset_of!(S395, f0)), F("Beta 2", D::U8, offset_of!(S395, f1)), F("Position3D", D::I64, offset_of!(S395, f2))] },
S { desc: "#[repr(C)] struct { u8, u16, u8 }", layout: S396::layout, size: size_of::<S396>(), align: align_of::<S396>(), fields: || vec![F("Alpha", D::U8, offset_of!(S396, f0)), F("Beta 2", D::U16, offset_of!(S396, f1)), F("Position3D", D::U8, offset_of!(S396, f2))] },
S { desc: "#[repr(C)] struct { u8, u16, u16 }", layout: S397::layout, size: size_of::<S397>(), align: align_of::<S397>(), fields: || vec![F("Alpha", D::U8, offset_of!(S397, f0)), F("Beta 2", D::U16, offset_of!(S397, f1)), F("Position3D", D::U16, offset_of!(S397, f2))] },
S { desc: "#[repr(C)] struct { u8, u16, f32 }", layout: S398::layout, size: size_of::<S398>(), align: align_of::<S398>(), fields: || vec![F("Alpha", D::U8, offset_of!(S398, f0)), F("Beta 2", D::U16, offset_of!(S398, f1)), F("Position3D", D::F32, offset_of!(S398, f2))] },
S { desc: "#[repr(C)] struct { u8, u16, i64 }", layout: S399::layout, size: size_of::<S399>(), align: align_of::<S399>(), fields: || vec![F("Alpha", D::U8, offset_of!(S399, f0)), F("Beta 2", D::U16, offset_of!(S399, f1)), F("Position3D", D::I64, offset_of!(S399, f2))] },
S { desc: "#[repr(C)] struct { u8, f32, u8 }", layout: S400::layout, size: size_of::<S400>(), align: align_of::<S400>(), fields: || vec![F("Alpha", D::U8, offset_of!(S400, f0)), F("Beta 2", D::F32, offset_of!(S400, f1)), F("Position3D", D::U8, offset_of!(S400, f2))] },
S { desc: "#[repr(C)] struct { u8, f32, u16 }", layout: S401::layout, size: size_of::<S401>(), align: align_of::<S401>(), fields: || vec![F("Alpha", D::U8, offset_of!(S401, f0)), F("Beta 2", D::F32, offset_of!(S401, f1)), F("Position3D", D::U16, offset_of!(S401, f2))] },
S { desc: "#[repr(C)] struct { u8, f32, f32 }", layout: S402::layout, size: size_of::<S402>(), align: align_of::<S402>(), fields: || vec![F("Alpha", D::U8, offset_of!(S402, f0)), F("Beta 2", D::F32, offset_of!(S402, f1)), F("Position3D", D::F32, offset_of!(S402, f2))] },
S { desc: "#[repr(C)] struct { u8, f32, i64 }", layout: S403::layout, size: size_of::<S403>(), align: align_of::<S403>(), fields: || vec![F("Alpha", D::U8, offset_of!(S403, f0)), F("Beta 2", D::F32, offset_of!(S403, f1)), F("Position3D", D::I64, offset_of!(S403, f2))] },
S { desc: "#[repr(C)] struct { u8, i64, u8 }", layout: S404::layout, size: size_of::<S404>(), align: align_of::<S404>(), fields: || vec![F("Alpha", D::U8, offset_of!(S404, f0)), F("Beta 2", D::I64, offset_of!(S404, f1)), F("Position3D", D::U8, offset_of!(S404, f2))] },
S { desc: "#[repr(C)] struct { u8, i64, u16 }", layout: S405::layout, size: size_of::<S405>(), align: align_of::<S405>(), fields: || vec![F("Alpha", D::U8, offset_of!(S405, f0)), F("Beta 2", D::I64, offset_of!(S405, f1)), F("Position3D", D::U16, offset_of!(S405, f2))] },
S { desc: "#[repr(C)] struct { u8, i64, f32 }", layout: S406::layout, size: size_of::<S406>(), align: align_of::<S406>(), fields: || vec![F("Alpha", D::U8, offset_of!(S406, f0)), F("Beta 2", D::I64, offset_of!(S406, f1)), F("Position3D", D::F32, offset_of!(S406, f2))] },
S { desc: "#[repr(C)] struct { u8, i64, i64 }", layout: S407::layout, size: size_of::<S407>(), align: align_of::<S407>(), fields: || vec![F("Alpha", D::U8, offset_of!(S407, f0)), F("Beta 2", D::I64, offset_of!(S407, f1)), F("Position3D", D::I64, offset_of!(S407, f2))] },
S { desc: "#[repr(C)] struct { u16, u8, u8 }", layout: S408::layout, size: size_of::<S408>(), align: align_of::<S408>(), fields: || vec![F("Alpha", D::U16, offset_of!(S408, f0)), F("Beta 2", D::U8, offset_of!(S408, f1)), F("Position3D", D::U8, offset_of!(S408, f2))] },
S { desc: "#[repr(C)] struct { u16, u8, u16 }", layout: S409::layout, size: size_of::<S409>(), align: align_of::<S409>(), fields: || vec![F("Alpha", D::U16, offset_of!(S409, f0)), F("Beta 2", D::U8, offset_of!(S409, f1)), F("Position3D", D::U16, offset_of!(S409, f2))] },
S { desc: "#[repr(C)] struct { u16, u8, f32 }", layout: S410::layout, size: size_of::<S410>(), align: align_of::<S410>(), fields: || vec![F("Alpha", D::U16, offset_of!(S410, f0)), F("Beta 2", D::U8, offset_of!(S410, f1)), F("Position3D", D::F32, offset_of!(S410, f2))] },
S { desc: "#[repr(C)] struct { u16, u8, i64 }", layout: S411::layout, size: size_of::<S411>(), align: align_of::<S411>(), fields: || vec![F("Alpha", D::U16, offset_of!(S411, f0)), F("Beta 2", D::U8, offset_of!(S411, f1)), F("Position3D", D::I64, offset_of!(S411, f2))] },
S { desc: "#[repr(C)] struct { u16, u16, u8 }", layout: S412::layout, size: size_of::<S412>(), align: align_of::<S412>(), fields: || vec![F("Alpha", D::U16, offset_of!(S412, f0)), F("Beta 2", D::U16, offset_of!(S412, f1)), F("Position3D", D::U8, offset_of!(S412, f2))] },
S { desc: "#[repr(C)] struct { u16, u16, u16 }", layout: S413::layout, size: size_of::<S413>(), align: align_of::<S413>(), fields: || vec![F("Alpha", D::U16, offset_of!(S413, f0)), F("Beta 2", D::U16, offset_of!(S413, f1)), F("Position3D", D::U16, offset_of!(S413, f2))] },
S { desc: "#[repr(C)] struct { u16, u16, f32 }", layout: S414::layout, size: size_of::<S414>(), align: align_of::<S414>(), fields: || vec![F("Alpha", D::U16, offset_of!(S414, f0)), F("Beta 2", D::U16, offset_of!(S414, f1)), F("Position3D", D::F32, offset_of!(S414, f2))] },
S { desc: "#[repr(C)] struct { u16, u16, i64 }", layout: S415::layout, size: size_of::<S415>(), align: align_of::<S415>(), fields: || vec![F("Alpha", D::U16, offset_of!(S415, f0)), F("Beta 2", D::U16, offset_of!(S415, f1)), F("Position3D", D::I64, offset_of!(S415, f2))] },
S { desc: "#[repr(C)] struct { u16, f32, u8 }", layout: S416::layout, size: size_of::<S416>(), align: align_of::<S416>(), fields: || vec![F("Alpha", D::U16, offset_of!(S416, f0)), F("Beta 2", D::F32, offset_of!(S416, f1)), F("Position3D", D::U8, offset_of!(S416, f2))] },
S { desc: "#[repr(C)] struct { u16, f32, u16 }", layout: S417::layout, size: size_of::<S417>(), align: align_of::<S417>(), fields: || vec![F("Alpha", D::U16, offset_of!(S417, f0)), F("Beta 2", D::F32, offset_of!(S417, f1)), F("Position3D", D::U16, offset_of!(S417, f2))] },
S { desc: "#[repr(C)] struct { u16, f32, f32 }", layout: S418::layout, size: size_of::<S418>(), align: align_of::<S418>(), fields: || vec![F("Alpha", D::U16, offset_of!(S418, f0)), F("Beta 2", D::F32, offset_of!(S418, f1)), F("Position3D", D::F32, offset_of!(S418, f2))] },
S { desc: "#[repr(C)] struct { u16, f32, i64 }", layout: S419::layout, size: size_of::<S419>(), align: align_of::<S419>(), fields: || vec![F("Alpha", D::U16, offset_of!(S419, f0)), F("Beta 2", D::F32, offset_of!(S419, f1)), F("Position3D", D::I64, offset_of!(S419, f2))] },
S { desc: "#[repr(C)] struct { u16, i64, u8 }", layout: S420::layout, size: size_of::<S420>(), align: align_of::<S420>(), fields: || vec![F("Alpha", D::U16, offset_of!(S420, f0)), F("Beta 2", D::I64, offset_of!(S420, f1)), F("Position3D", D::U8, offset_of!(S420, f2))] },
S { desc: "#[repr(C)] struct { u16, i64, u16 }", layout: S421::layout, size: size_of::<S421>(), align: align_of::<S421>(), fields: || vec![F("Alpha", D::U16, offset_of!(S421, f0)), F("Beta 2", D::I64, offset_of!(S421, f1)), F("Position3D", D::U16, offset_of!(S421, f2))] },
S { desc: "#[repr(C)] struct { u16, i64, f32 }", layout: S422::layout, size: size_of::<S422>(), align: align_of::<S422>(), fields: || vec![F("Alpha", D::U16, offset_of!(S422, f0)), F("Beta 2", D::I64, offset_of!(S422, f1)), F("Position3D", D::F32, offset_of!(S422, f2))] },
S { desc: "#[repr(C)] struct { u16, i64, i64 }", layout: S423::layout, size: size_of::<S423>(), align: align_of::<S423>(), fields: || vec![F("Alpha", D::U16, offset_of!(S423, f0)), F("Beta 2", D::I64, offset_of!(S423, f1)), F("Position3D", D::I64, offset_of!(S423, f2))] },
S { desc: "#[repr(C)] struct { f32, u8, u8 }", layout: S424::layout, size: size_of::<S424>(), align: align_of::<S424>(), fields: || vec![F("Alpha", D::F32, offset_of!(S424, f0)), F("Beta 2", D::U8, offset_of!(S424, f1)), F("Position3D", D::U8, offset_of!(S424, f2))] },
S { desc: "#[repr(C)] struct { f32, u8, u16 }", layout: S425::layout, size: size_of::<S425>(), align: align_of::<S425>(), fields: || vec![F("Alpha", D::F32, offset_of!(S425, f0)), F("Beta 2", D::U8, offset_of!(S425, f1)), F("Position3D", D::U16, offset_of!(S425, f2))] },
S { desc: "#[repr(C)] struct { f32, u8, f32 }", layout: S426::layout, size: size_of::<S426>(), align: align_of::<S426>(), fields: || vec![F("Alpha", D::F32, offset_of!(S426, f0)), F("Beta 2", D::U8, offset_of!(S426, f1)), F("Position3D", D::F32, offset_of!(S426, f2))] },
S { desc: "#[repr(C)] struct { f32, u8, i64 }", layout: S427::layout, size: size_of::<S427>(), align: align_of::<S427>(), fields: || vec![F("Alpha", D::F32, offset_of!(S427, f0)), F("Beta 2", D::U8, offset_of!(S427, f1)), F("Position3D", D::I64, offset_of!(S427, f2))] },
S { desc: "#[repr(C)] struct { f32, u16, u8 }", layout: S428::layout, size: size_of::<S428>(), align: align_of::<S428>(), fields: || vec![F("Alpha", D::F32, offset_of!(S428, f0)), F("Beta 2", D::U16, offset_of!(S428, f1)), F("Position3D", D::U8, offset_of!(S428, f2))] },
S { desc: "#[repr(C)] struct { f32, u16, u16 }", layout: S429::layout, size: size_of::<S429>(), align: align_of::<S429>(), fields: || vec![F("Alpha", D::F32, offset_of!(S429, f0)), F("Beta 2", D::U16, offset_of!(S429, f1)), F("Position3D", D::U16, offset_of!(S429, f2))] },
S { desc: "#[repr(C)] struct { f32, u16, f32 }", layout: S430::layout, size: size_of::<S430>(), align: align_of::<S430>(), fields: || vec![F("Alpha", D::F32, offset_of!(S430, f0)), F("Beta 2", D::U16, offset_of!(S430, f1)), F("Position3D", D::F32, offset_of!(S430, f2))] },
S { desc: "#[repr(C)] struct { f32, u16, i64 }", layout: S431::layout, size: size_of::<S431>(), align: align_of::<S431>(), fields: || vec![F("Alpha", D::F32, offset_of!(S431, f0)), F("Beta 2", D::U16, offset_of!(S431, f1)), F("Position3D", D::I64, offset_of!(S431, f2))] },
S { desc: "#[repr(C)] struct { f32, f32, u8 }", layout: S432::layout, size: size_of::<S432>(), align: align_of::<S432>(), fields: || vec![F("Alpha", D::F32, offset_of!(S432, f0)), F("Beta 2", D::F32, offset_of!(S432, f1)), F("Position3D", D::U8, offset_of!(S432, f2))] },
S { desc: "#[repr(C)] struct { f32, f32, u16 }", layout: S433::layout, size: size_of::<S433>(), align: align_of::<S433>(), fields: || vec![F("Alpha", D::F32, offset_of!(S433, f0)), F("Beta 2", D::F32, offset_of!(S433, f1)), F("Position3D", D::U16, offset_of!(S433, f2))] },
S { desc: "#[repr(C)] struct { f32, f32, f32 }", layout: S434::layout, size: size_of::<S434>(), align: align_of::<S434>(), fields: || vec![F("Alpha", D::F32, offset_of!(S434, f0)), F("Beta 2", D::F32, offset_of!(S434, f1)), F("Position3D", D::F32, offset_of!(S434, f2))] },
S { desc: "#[repr(C)] struct { f32, f32, i64 }", layout: S435::layout, size: size_of::<S435>(), align: align_of::<S435>(), fields: || vec![F("Alpha", D::F32, offset_of!(S435, f0)), F("Beta 2", D::F32, offset_of!(S435, f1)), F("Position3D", D::I64, offset_of!(S435, f2))] },
S { desc: "#[repr(C)] struct { f32, i64, u8 }", layout: S436::layout, size: size_of::<S436>(), align: align_of::<S436>(), fields: || vec![F("Alpha", D::F32, offset_of!(S436, f0)), F("Beta 2", D::I64, offset_of!(S436, f1)), F("Position3D", D::U8, offset_of!(S436, f2))] },
S { desc: "#[repr(C)] struct { f32, i64, u16 }", layout: S437::layout, size: size_of::<S437>(), align: align_of::<S437>(), fields: || vec![F("Alpha", D::F32, offset_of!(S437, f0)), F("Beta 2", D::I64, offset_of!(S437, f1)), F("Position3D", D::U16, offset_of!(S437, f2))] },
S { desc: "#[repr(C)] struct { f32, i64, f32 }", layout: S438::layout, size: size_of::<S438>(), align: align_of::<S438>(), fields: || vec![F("Alpha", D::F32, offset_of!(S438, f0)), F("Beta 2", D::I64, offset_of!(S438, f1)), F("Position3D", D::F32, offset_of!(S438, f2))] },
S { desc: "#[repr(C)] struct { f32, i64, i64 }", layout: S439::layout, size: size_of::<S439>(), align: align_of::<S439>(), fields: || vec![F("Alpha", D::F32, offset_of!(S439, f0)), F("Beta 2", D::I64, offset_of!(S439, f1)), F("Position3D", D::I64, offset_of!(S439, f2))] },
S { desc: "#[repr(C)] struct { i64, u8, u8 }", layout: S440::layout, size: size_of::<S440>(), align: align_of::<S440>(), fields: || vec![F("Alpha", D::I64, offset_of!(S440, f0)), F("Beta 2", D::U8, offset_of!(S440, f1)), F("Position3D", D::U8, offset_of!(S440, f2))] },
S { desc: "#[repr(C)] struct { i64, u8, u16 }", layout: S441::layout, size: size_of::<S441>(), align: align_of::<S441>(), fields: || vec![F("Alpha", D::I64, offset_of!(S441, f0)), F("Beta 2", D::U8, offset_of!(S441, f1)), F("Position3D", D::U16, offset_of!(S441, f2))] },
S { desc: "#[repr(C)] struct { i64, u8, f32 }", layout: S442::layout, size: size_of::<S442>(), align: align_of::<S442>(), fields: || vec![F("Alpha", D::I64, offset_of!(S442, f0)), F("Beta 2", D::U8, offset_of!(S442, f1)), F("Position3D", D::F32, offset_of!(S442, f2))] },
S { desc: "#[repr(C)] struct { i64, u8, i64 }", layout: S443::layout, size: size_of::<S443>(), align: align_of::<S443>(), fields: || vec![F("Alpha", D::I64, offset_of!(S443, f0)), F("Beta 2", D::U8, offset_of!(S443, f1)), F("Position3D", D::I64, offset_of!(S443, f2))] },
S { desc: "#[repr(C)] struct { i64, u16, u8 }", layout: S444::layout, size: size_of::<S444>(), align: align_of::<S444>(), fields: || vec![F("Alpha", D::I64, offset_of!(S444, f0)), F("Beta 2", D::U16, offset_of!(S444, f1)), F("Position3D", D::U8, offset_of!(S444, f2))] },
S { desc: "#[repr(C)] struct { i64, u16, u16 }", layout: S445::layout, size: size_of::<S445>(), align: align_of::<S445>(), fields: || vec![F("Alpha", D::I64, offset_of!(S445, f0)), F("Beta 2", D::U16, offset_of!(S445, f1)), F("Position3D", D::U16, offset_of!(S445, f2))] },
S { desc: "#[repr(C)] struct { i64, u16, f32 }", layout: S446::layout, size: size_of::<S446>(), align: align_of::<S446>(), fields: || vec![F("Alpha", D::I64, offset_of!(S446, f0)), F("Beta 2", D::U16, offset_of!(S446, f1)), F("Position3D", D::F32, offset_of!(S446, f2))] },
S { desc: "#[repr(C)] struct { i64, u16, i64 }", layout: S447::layout, size: size_of::<S447>(), align: align_of::<S447>(), fields: || vec![F("Alpha", D::I64, offset_of!(S447, f0)), F("Beta 2", D::U16, offset_of!(S447, f1)), F("Position3D", D::I64, offset_of!(S447, f2))] },
S { desc: "#[repr(C)] struct { i64, f32, u8 }", layout: S448::layout, size: size_of::<S448>(), align: align_of::<S448>(), fields: || vec![F("Alpha", D::I64, offset_of!(S448, f0)), F("Beta 2", D::F32, offset_of!(S448, f1)), F("Position3D", D::U8, offset_of!(S448, f2))] },
S { desc: "#[repr(C)] struct { i64, f32, u16 }", layout: S449::layout, size: size_of::<S449>(), align: align_of::<S449>(), fields: || vec![F("Alpha", D::I64, offset_of!(S449, f0)), F("Beta 2", D::F32, offset_of!(S449, f1)), F("Position3D", D::U16, offset_of!(S449, f2))] },
S { desc: "#[repr(C)] struct { i64, f32, f32 }", layout: S450::layout, size: size_of::<S450>(), align: align_of::<S450>(), fields: || vec![F("Alpha", D::I64, offset_of!(S450, f0)), F("Beta 2", D::F32, offset_of!(S450, f1)), F("Position3D", D::F32, offset_of!(S450, f2))] },
S { desc: "#[repr(C)] struct { i64, f32, i64 }", layout: S451::layout, size: size_of::<S451>(), align: align_of::<S451>(), fields: || vec![F("Alpha", D::I64, offset_of!(S451, f0)), F("Beta 2", D::F32, offset_of!(S451, f1)), F("Position3D", D::I64, offset_of!(S451, f2))] },
S { desc: "#[repr(C)] struct { i64, i64, u8 }", layout: S452::layout, size: size_of::<S452>(), align: align_of::<S452>(), fields: || vec![F("Alpha", D::I64, offset_of!(S452, f0)), F("Beta 2", D::I64, offset_of!(S452, f1)), F("Position3D", D::U8, offset_of!(S452, f2))] },
S { desc: "#[repr(C)] struct { i64, i64, u16 }", layout: S453::layout, size: size_of::<S453>(), align: align_of::<S453>(), fields: || vec![F("Alpha", D::I64, offset_of!(S453, f0)), F("Beta 2", D::I64, offset_of!(S453, f1)), F("Position3D", D::U16, offset_of!(S453, f2))] },
S { desc: "#[repr(C)] struct { i64, i64, f32 }", layout: S454::layout, size: size_of::<S454>(), align: align_of::<S454>(), fields: || vec![F("Alpha", D::I64, offset_of!(S454, f0)), F("Beta 2", D::I64, offset_of!(S454, f1)), F("Position3D", D::F32, offset_of!(S454, f2))] },
S { desc: "#[repr(C)] struct { i64, i64, i64 }", layout: S455::layout, size: size_of::<S455>(), align: align_of::<S455>(), fields: || vec![F("Alpha", D::I64, offset_of!(S455, f0)), F("Beta 2", D::I64, offset_of!(S455, f1)), F("Position3D", D::I64, offset_of!(S455, f2))] },
S { desc: "#[repr(C, packed)] struct { u8, u8, u8 }", layout: S456::layout, size: size_of::<S456>(), align: align_of::<S456>(), fields: || vec![F("Alpha", D::U8, offset_of!(S456, f0)), F("Beta 2", D::U8, offset_of!(S456, f1)), F("Position3D", D::U8, offset_of!(S456, f2))] },
S { desc: "#[repr(C, packed)] struct { u8, u8, u16 }", layout: S457::layout, size: size_of::<S457>(), align: align_of::<S457>(), fields: || vec![F("Alpha", D::U8, offset_of!(S457, f0)), F("Beta 2", D::U8, offset_of!(S457, f1)), F("Position3D", D::U16, offset_of!(S457, f2))] },
S { desc: "#[repr(C, packed)] struct { u8, u8, f32 }", layout: S458::layout, size: size_of::<S458>(), align: align_of::<S458>(), fields: || vec![F("Alpha", D::U8, offset_of!(S458, f0)), F("Beta 2", D::U8, offset_of!(S458, f1)), F("Position3D", D::F32, offset_of!(S458, f2))] },
S { desc: "#[repr(C, packed)] struct { u8, u8, i64 }", layout: S459::layout, size: size_of::<S459>(), align: align_of::<S459>(), fields: || vec![F("Alpha", D::U8, offset_of!(S459, f0)), F("Beta 2", D::U8, offset_of!(S459, f1)), F("Position3D", D::I64, offset_of!(S459, f2))] },
S { desc: "#[repr(C, packed)] struct { u8, u16, u8 }", layout: S460::layout, size: size_of::<S460>(), align: align_of::<S460>(), fields: || vec![F("Alpha", D::U8, offset_of!(S460, f0)), F("Beta 2", D::U16, offset_of!(S460, f1)), F("Position3D", D::U8, offset_of!(S460, f2))] },
S { desc: "#[repr(C, packed)] struct { u8, u16, u16 }", layout: S461::layout, size: size_of::<S461>(), align: align_of::<S461>(), fields: || vec![F("Alpha", D::U8, offset_of!(S461, f0)), F("Beta 2", D::U16, offset_of!(S461, f1)), F("Position3D", D::U16, offset_of!(S461, f2))] },
S { desc: "#[repr(C, packed)] struct { u8, u16, f32 }", layout: S462::layout, size: size_of::<S462>(), align: align_of::<S462>(), fields: || vec![F("Alpha", D::U8, offset_of!(S462, f0)), F("Beta 2", D::U16, offset_of!(S462, f1)), F("Position3D", D::F32, offset_of!(S462, f2))] },
S { desc: "#[repr(C, packed)] struct { u8, u16, i64 }", layout: S463::layout, size: size_of::<S463>(), align: align_of::<S463>(), fields: || vec![F("Alpha", D::U8, offset_of!(S463, f0)), F("Beta 2", D::U16, offset_of!(S463, f1)), F("Position3D", D::I64, offset_of!(S463, f2))] },
S { desc: "#[repr(C, packed)] struct { u8, f32, u8 }", layout: S464::layout, size: size_of::<S464>(), align: align_of::<S464>(), fields: || vec![F("Alpha", D::U8, offset_of!(S464, f0)), F("Beta 2", D::F32, offset_of!(S464, f1)), F("Position3D", D::U8, offset_of!(S464, f2))] },
S { desc: "#[repr(C, packed)] struct { u8, f32, u16 }", layout: S465::layout, size: size_of::<S465>(), align: align_of::<S465>(), fields: || vec![F("Alpha", D::U8, offset_of!(S465, f0)), F("Beta 2", D::F32, offset_of!(S465, f1)), F("Position3D", D::U16, offset_of!(S465, f2))] },
S { desc: "#[repr(C, packed)] struct { u8, f32, f32 }", layout: S466::layout, size: size_of::<S466>(), align: align_of::<S466>(), fields: || vec![F("Alpha", D::U8, offset_of!(S466, f0)), F("Beta 2", D::F32, offset_of!(S466, f1)), F("Position3D", D::F32, offset_of!(S466, f2))] },
S { desc: "#[repr(C, packed)] struct { u8, f32, i64 }", layout: S467::layout, size: size_of::<S467>(), align: align_of::<S467>(), fields: || vec![F("Alpha", D::U8, offset_of!(S467, f0)), F("Beta 2", D::F32, offset_of!(S467, f1)), F("Position3D", D::I64, offset_of!(S467, f2))] },
S { desc: "#[repr(C, packed)] struct { u8, i64, u8 }", layout: S468::layout, size: size_of::<S468>(), align: align_of::<S468>(), fields: || vec![F("Alpha", D::U8, offset_of!(S468, f0)), F("Beta 2", D::I64, offset_of!(S468, f1)), F("Position3D", D::U8, offset_of!(S468, f2))] },
S { desc: "#[repr(C, packed)] struct { u8, i64, u16 }", layout: S469::layout, size: size_of::<S469>(), align: align_of::<S469>(), fields: || vec![F("Alpha", D::U8, offset_of!(S469, f0)), F("Beta 2", D::I64, offset_of!(S469, f1)), F("Position3D", D::U16, offset_of!(S469, f2))] },
S { desc: "#[repr(C, packed)] struct { u8, i64, f32 }", layout: S470::layout, size: size_of::<S470>(), align: align_of::<S470>(), fields: || vec![F("Alpha", D::U8, offset_of!(S470, f0)), F("Beta 2", D::I64, offset_of!(S470, f1)), F("Position3D", D::F32, offset_of!(S470, f2))] },
S { desc: "#[repr(C, packed)] struct { u8, i64, i64 }", layout: S471::layout, size: size_of::<S471>(), align: align_of::<S471>(), fields: || vec![F("Alpha", D::U8, offset_of!(S471, f0)), F("Beta 2", D::I64, offset_of!(S471, f1)), F("Position3D", D::I64, offset_of!(S471, f2))] },
S { desc: "#[repr(C, packed)] struct { u16, u8, u8 }", layout: S472::layout, size: size_of::<S472>(), align: align_of::<S472>(), fields: || vec![F("Alpha", D::U16, offset_of!(S472, f0)), F("Beta 2", D::U8, offset_of!(S472, f1)), F("Position3D", D::U8, offset_of!(S472, f2))] },
S { desc: "#[repr(C, packed)] struct { u16, u8, u16 }", layout: S473::layout, size: size_of::<S473>(), align: align_of::<S473>(), fields: || vec![F("Alpha", D::U16, offset_of!(S473, f0)), F("Beta 2", D::U8, offset_of!(S473, f1)), F("Position3D", D::U16, offset_of!(S473, f2))] },
S { desc: "#[repr(C, packed)] struct { u16, u8, f32 }", layout: S474::layout, size: size_of::<S474>(), align: align_of::<S474>(), fields: || vec![F("Alpha", D::U16, offset_of!(S474, f0)), F("Beta 2", D::U8, offset_of!(S474, f1)), F("Position3D", D::F32, offset_of!(S474, f2))] },
S { desc: "#[repr(C, packed)] struct { u16, u8, i64 }", layout: S475::layout, size: size_of::<S475>(), align: align_of::<S475>(), fields: || vec![F("Alpha", D::U16, offset_of!(S475, f0)), F("Beta 2", D::U8, offset_of!(S475, f1)), F("Position3D", D::I64, offset_of!(S475, f2))] },
S { desc: "#[repr(C, packed)] struct { u16, u16, u8 }", layout: S476::layout, size: size_of::<S476>(), align: align_of::<S476>(), fields: || vec![F("Alpha", D::U16, offset_of!(S476, f0)), F("Beta 2", D::U16, offset_of!(S476, f1)), F("Position3D", D::U8, offset_of!(S476, f2))] },
S { desc: "#[repr(C, packed)] struct { u16, u16, u16 }", layout: S477::layout, size: size_of::<S477>(), align: align_of::<S477>(), fields: || vec![F("Alpha", D::U16, offset_of!(S477, f0)), F("Beta 2", D::U16, offset_of!(S477, f1)), F("Position3D", D::U16, offset_of!(S477, f2))] },
S { desc: "#[repr(C, packed)] struct { u16, u16, f32 }", layout: S478::layout, size: size_of::<S478>(), align: align_of::<S478>(), fields: || vec![F("Alpha", D::U16, offset_of!(S478, f0)), F("Beta 2", D::U16, offset_of!(S478, f1)), F("Position3D", D::F32, offset_of!(S478, f2))] },
S { desc: "#[repr(C, packed)] struct { u16, u16, i64 }", layout: S479::layout, size: size_of::<S479>(), align: align_of::<S479>(), fields: || vec![F("Alpha", D::U16, offset_of!(S479, f0)), F("Beta 2", D::U16, offset_of!(S479, f1)), F("Position3D", D::I64, offset_of!(S479, f2))] },
S { desc: "#[repr(C, packed)] struct { u16, f32, u8 }", layout: S480::layout, size: size_of::<S480>(), align: align_of::<S480>(), fields: || vec![F("Alpha", D::U16, offset_of!(S480, f0)), F("Beta 2", D::F32, offset_of!(S480, f1)), F("Position3D", D::U8, offset_of!(S480, f2))] },
S { desc: "#[repr(C, packed)] struct { u16, f32, u16 }", layout: S481::layout, size: size_of::<S481>(), align: align_of::<S481>(), fields: || vec![F("Alpha", D::U16, offset_of!(S481, f0)), F("Beta 2", D::F32, offset_of!(S481, f1)), F("Position3D", D::U16, offset_of!(S481, f2))] },
S { desc: "#[repr(C, packed)] struct { u16, f32, f32 }", layout: S482::layout, size: size_of::<S482>(), align: align_of::<S482>(), fields: || vec![F("Alpha", D::U16, offset_of!(S482, f0)), F("Beta 2", D::F32, offset_of!(S482, f1)), F("Position3D", D::F32, offset_of!(S482, f2))] },
S { desc: "#[repr(C, packed)] struct { u16, f32, i64 }", layout: S483::layout, size: size_of::<S483>(), align: align_of::<S483>(), fields: || vec![F("Alpha", D::U16, offset_of!(S483, f0)), F("Beta 2", D::F32, offset_of!(S483, f1)), F("Position3D", D::I64, offset_of!(S483, f2))] },
S { desc: "#[repr(C, packed)] struct { u16, i64, u8 }", layout: S484::layout, size: size_of::<S484>(), align: align_of::<S484>(), fields: || vec![F("Alpha", D::U16, offset_of!(S484, f0)), F("Beta 2", D::I64, offset_of!(S484, f1)), F("Position3D", D::U8, offset_of!(S484, f2))] },
S { desc: "#[repr(C, packed)] struct { u16, i64, u16 }", layout: S485::layout, size: size_of::<S485>(), align: align_of::<S485>(), fields: || vec![F("Alpha", D::U16, offset_of!(S485, f0)), F("Beta 2", D::I64, offset_of!(S485, f1)), F("Position3D", D::U16, offset_of!(S485, f2))] },
S { desc: "#[repr(C, packed)] struct { u16, i64, f32 }", layout: S486::layout, size: size_of::<S486>(), align: align_of::<S486>(), fields: || vec![F("Alpha", D::U16, offset_of!(S486, f0)), F("Beta 2", D::I64, offset_of!(S486, f1)), F("Position3D", D::F32, offset_of!(S486, f2))] },
S { desc: "#[repr(C, packed)] struct { u16, i64, i64 }", layout: S487::layout, size: size_of::<S487>(), align: align_of::<S487>(), fields: || vec![F("Alpha", D::U16, offset_of!(S487, f0)), F("Beta 2", D::I64, offset_of!(S487, f1)), F("Position3D", D::I64, offset_of!(S487, f2))] },
S { desc: "#[repr(C, packed)] struct { f32, u8, u8 }", layout: S488::layout, size: size_of::<S488>(), align: align_of::<S488>(), fields: || vec![F("Alpha", D::F32, offset_of!(S488, f0)), F("Beta 2", D::U8, offset_of!(S488, f1)), F("Position3D", D::U8, offset_of!(S488, f2))] },
S { desc: "#[repr(C, packed)] struct { f32, u8, u16 }", layout: S489::layout, size: size_of::<S489>(), align: align_of::<S489>(), fields: || vec![F("Alpha", D::F32, offset_of!(S489, f0)), F("Beta 2", D::U8, offset_of!(S489, f1)), F("Position3D", D::U16, offset_of!(S489, f2))] },
S { desc: "#[repr(C, packed)] struct { f32, u8, f32 }", layout: S490::layout, size: size_of::<S490>(), align: align_of::<S490>(), fields: || vec![F("Alpha", D::F32, offset_of!(S490, f0)), F("Beta 2", D::U8, offset_of!(S490, f1)), F("Position3D", D::F32, offset_of!(S490, f2))] },
S { desc: "#[repr(C, packed)] struct { f32, u8, i64 }", layout: S491::layout, size: size_of::<S491>(), align: align_of::<S491>(), fields: || vec![F("Alpha", D::F32, offset_of!(S491, f0)), F("Beta 2", D::U8, offset_of!(S491, f1)), F("Position3D", D::I64, offset_of!(S491, f2))] },
S { desc: "#[repr(C, packed)] struct { f32, u16, u8 }", layout: S492::layout, size: size_of::<S492>(), align: align_of::<S492>(), fields: || vec![F("Alpha", D::F32, offset_of!(S492, f0)), F("Beta 2", D::U16, offset_of!(S492, f1)), F("Position3D", D::U8, offset_of!(S492, f2))] },
S { desc: "#[repr(C, packed)] struct { f32, u16, u16 }", layout: S493::layout, size: size_of::<S493>(), align: align_of::<S493>(), fields: || vec![F("Alpha", D::F32, offset_of!(S493, f0)), F("Beta 2", D::U16, offset_of!(S493, f1)), F("Position3D", D::U16, offset_of!(S493, f2))] },
S { desc: "#[repr(C, packed)] struct { f32, u16, f32 }", layout: S494::layout, size: size_of::<S494>(), align: align_of::<S494>(), fields: || vec![F("Alpha", D::F32, offset_of!(S494, f0)), F("Beta 2", D::U16, offset_of!(S494, f1)), F("Position3D", D::F32, offset_of!(S494, f2))] },
S { desc: "#[repr(C, packed)] struct { f32, u16, i64 }", layout: S495::layout, size: size_of::<S495>(), align: align_of::<S495>(), fields: || vec![F("Alpha", D::F32, offset_of!(S495, f0)), F("Beta 2", D::U16, offset_of!(S495, f1)), F("Position3D", D::I64, offset_of!(S495, f2))] },
S { desc: "#[repr(C, packed)] struct { f32, f32, u8 }", layout: S496::layout, size: size_of::<S496>(), align: align_of::<S496>(), fields: || vec![F("Alpha", D::F32, offset_of!(S496, f0)), F("Beta 2", D::F32, offset_of!(S496, f1)), F("Position3D", D::U8, offset_of!(S496, f2))] },
S { desc: "#[repr(C, packed)] struct { f32, f32, u16 }", layout: S497::layout, size: size_of::<S497>(), align: align_of::<S497>(), fields: || vec![F("Alpha", D::F32, offset_of!(S497, f0)), F("Beta 2", D::F32, offset_of!(S497, f1)), F("Position3D", D::U16, offset_of!(S497, f2))] },
S { desc: "#[repr(C, packed)] struct { f32, f32, f32 }", layout: S498::layout, size: size_of::<S498>(), align: align_of::<S498>(), fields: || vec![F("Alpha", D::F32, offset_of!(S498, f0)), F("Beta 2", D::F32, offset_of!(S498, f1)), F("Position3D", D::F32, offset_of!(S498, f2))] },
S { desc: "#[repr(C, packed)] struct { f32, f32, i64 }", layout: S499::layout, size: size_of::<S499>(), align: align_of::<S499>(), fields: || vec![F("Alpha", D::F32, offset_of!(S499, f0)), F("Beta 2", D::F32, offset_of!(S499, f1)), F("Position3D", D::I64, offset_of!(S499, f2))] },
S { desc: "#[repr(C, packed)] struct { f32, i64, u8 }", layout: S500::layout, size: size_of::<S500>(), align: align_of::<S500>(), fields: || vec![F("Alpha", D::F32, offset_of!(S500, f0)), F("Beta 2", D::I64, offset_of!(S500, f1)), F("Position3D", D::U8, offset_of!(S500, f2))] },
S { desc: "#[repr(C, packed)] struct { f32, i64, u16 }", layout: S501::layout, size: size_of::<S501>(), align: align_of::<S501>(), fields: || vec![F("Alpha", D::F32, offset_of!(S501, f0)), F("Beta 2", D::I64, offset_of!(S501, f1)), F("Position3D", D::U16, offset_of!(S501, f2))] },
S { desc: "#[repr(C, packed)] struct { f32, i64, f32 }", layout: S502::layout, size: size_of::<S502>(), align: align_of::<S502>(), fields: || vec![F("Alpha", D::F32, offset_of!(S502, f0)), F("Beta 2", D::I64, offset_of!(S502, f1)), F("Position3D", D::F32, offset_of!(S502, f2))] },
S { desc: "#[repr(C, packed)] struct { f32, i64, i64 }", layout: S503::layout, size: size_of::<S503>(), align: align_of::<S503>(), fields: || vec![F("Alpha", D::F32, offset_of!(S503, f0)), F("Beta 2", D::I64, offset_of!(S503, f1)), F("Position3D", D::I64, offset_of!(S503, f2))] },
S { desc: "#[repr(C, packed)] struct { i64, u8, u8 }", layout: S504::layout, size: size_of::<S504>(), align: align_of::<S504>(), fields: || vec![F("Alpha", D::I64, offset_of!(S504, f0)), F("Beta 2", D::U8, offset_of!(S504, f1)), F("Position3D", D::U8, offset_of!(S504, f2))] },
S { desc: "#[repr(C, packed)] struct { i64, u8, u16 }", layout: S505::layout, size: size_of::<S505>(), align: align_of::<S505>(), fields: || vec![F("Alpha", D::I64, offset_of!(S505, f0)), F("Beta 2", D::U8, offset_of!(S505, f1)), F("Position3D", D::U16, offset_of!(S505, f2))] },
S { desc: "#[repr(C, packed)] struct { i64, u8, f32 }", layout: S506::layout, size: size_of::<S506>(), align: align_of::<S506>(), fields: || vec![F("Alpha", D::I64, offset_of!(S506, f0)), F("Beta 2", D::U8, offset_of!(S506, f1)), F("Position3D", D::F32, offset_of!(S506, f2))] },
S { desc: "#[repr(C, packed)] struct { i64, u8, i64 }", layout: S507::layout, size: size_of::<S507>(), align: align_of::<S507>(), fields: || vec![F("Alpha", D::I64, offset_of!(S507, f0)), F("Beta 2", D::U8, offset_of!(S507, f1)), F("Position3D", D::I64, offset_of!(S507, f2))] },
S { desc: "#[repr(C, packed)] struct { i64, u16, u8 }", layout: S508::layout, size: size_of::<S508>(), align: align_of::<S508>(), fields: || vec![F("Alpha", D::I64, offset_of!(S508, f0)), F("Beta 2", D::U16, offset_of!(S508, f1)), F("Position3D", D::U8, offset_of!(S508, f2))] },
S { desc: "#[repr(C, packed)] struct { i64, u16, u16 }", layout: S509::layout, size: size_of::<S509>(), align: align_of::<S509>(), fields: || vec![F("Alpha", D::I64, offset_of!(S509, f0)), F("Beta 2", D::U16, offset_of!(S509, f1)), F("Position3D", D::U16, offset_of!(S509, f2))] },
S { desc: "#[repr(C, packed)] struct { i64, u16, f32 }", layout: S510::layout, size: size_of::<S510>(), align: align_of::<S510>(), fields: || vec![F("Alpha", D::I64, offset_of!(S510, f0)), F("Beta 2", D::U16, offset_of!(S510, f1)), F("Position3D", D::F32, offset_of!(S510, f2))] },
S { desc: "#[repr(C, packed)] struct { i64, u16, i64 }", layout: S511::layout, size: size_of::<S511>(), align: align_of::<S511>(), fields: || vec![F("Alpha", D::I64, offset_of!(S511, f0)), F("Beta 2", D::U16, offset_of!(S511, f1)), F("Position3D", D::I64, offset_of!(S511, f2))] },
S { desc: "#[repr(C, packed)] struct { i64, f32, u8 }", layout: S512::layout, size: size_of::<S512>(), align: align_of::<S512>(), fields: || vec![F("Alpha", D::I64, offset_of!(S512, f0)), F("Beta 2", D::F32, offset_of!(S512, f1)), F("Position3D", D::U8, offset_of!(S512, f2))] },
S { desc: "#[repr(C, packed)] struct { i64, f32, u16 }", layout: S513::layout, size: size_of::<S513>(), align: align_of::<S513>(), fields: || vec![F("Alpha", D::I64, offset_of!(S513, f0)), F("Beta 2", D::F32, offset_of!(S513, f1)), F("Position3D", D::U16, offset_of!(S513, f2))] },
S { desc: "#[repr(C, packed)] struct { i64, f32, f32 }", layout: S514::layout, size: size_of::<S514>(), align: align_of::<S514>(), fields: || vec![F("Alpha", D::I64, offset_of!(S514, f0)), F("Beta 2", D::F32, offset_of!(S514, f1)), F("Position3D", D::F32, offset_of!(S514, f2))] },
S { desc: "#[repr(C, packed)] struct { i64, f32, i64 }", layout: S515::layout, size: size_of::<S515>(), align: align_of::<S515>(), fields: || vec![F("Alpha", D::I64, offset_of!(S515, f0)), F("Beta 2", D::F32, offset_of!(S515, f1)), F("Position3D", D::I64, offset_of!(S515, f2))] },
S { desc: "#[repr(C, packed)] struct { i64, i64, u8 }", layout: S516::layout, size: size_of::<S516>(), align: align_of::<S516>(), fields: || vec![F("Alpha", D::I64, offset_of!(S516, f0)), F("Beta 2", D::I64, offset_of!(S516, f1)), F("Position3D", D::U8, offset_of!(S516, f2))] },
S { desc: "#[repr(C, packed)] struct { i64, i64, u16 }", layout: S517::layout, size: size_of::<S517>(), align: align_of::<S517>(), fields: || vec![F("Alpha", D::I64, offset_of!(S517, f0)), F("Beta 2", D::I64, offset_of!(S517, f1)), F("Position3D", D::U16, offset_of!(S517, f2))] },
S { desc: "#[repr(C, packed)] struct { i64, i64, f32 }", layout: S518::layout, size: size_of::<S518>(), align: align_of::<S518>(), fields: || vec![F("Alpha", D::I64, offset_of!(S518, f0)), F("Beta 2", D::I64, offset_of!(S518, f1)), F("Position3D", D::F32, offset_of!(S518, f2))] },
S { desc: "#[repr(C, packed)] struct { i64, i64, i64 }", layout: S519::layout, size: size_of::<S519>(), align: align_of::<S519>(), fields: || vec![F("Alpha", D::I64, offset_of!(S519, f0)), F("Beta 2", D::I64, offset_of!(S519, f1)), F("Position3D", D::I64, offset_of!(S519, f2))] },
S { desc: "#[repr(C, packed(2))] struct { u8, u8, u8 }", layout: S520::layout, size: size_of::<S520>(), align: align_of::<S520>(), fields: || vec![F("Alpha", D::U8, offset_of!(S520, f0)), F("Beta 2", D::U8, offset_of!(S520, f1)), F("Position3D", D::U8, offset_of!(S520, f2))] },
S { desc: "#[repr(C, packed(2))] struct { u8, u8, u16 }", layout: S521::layout, size: size_of::<S521>(), align: align_of::<S521>(), fields: || vec![F("Alpha", D::U8, offset_of!(S521, f0)), F("Beta 2", D::U8, offset_of!(S521, f1)), F("Position3D", D::U16, offset_of!(S521, f2))] },
S { desc: "#[repr(C, packed(2))] struct { u8, u8, f32 }", layout: S522::layout, size: size_of::<S522>(), align: align_of::<S522>(), fields: || vec![F("Alpha", D::U8, offset_of!(S522, f0)), F("Beta 2", D::U8, offset_of!(S522, f1)), F("Position3D", D::F32, offset_of!(S522, f2))] },
S { desc: "#[repr(C, packed(2))] struct { u8, u8, i64 }", layout: S523::layout, size: size_of::<S523>(), align: align_of::<S523>(), fields: || vec![F("Alpha", D::U8, offset_of!(S523, f0)), F("Beta 2", D::U8, offset_of!(S523, f1)), F("Position3D", D::I64, offset_of!(S523, f2))] },
S { desc: "#[repr(C, packed(2))] struct { u8, u16, u8 }", layout: S524::layout, size: size_of::<S524>(), align: align_of::<S524>(), fields: || vec![F("Alpha", D::U8, offset_of!(S524, f0)), F("Beta 2", D::U16, offset_of!(S524, f1)), F("Position3D", D::U8, offset_of!(S524, f2))] },
S { desc: "#[repr(C, packed(2))] struct { u8, u16, u16 }", layout: S525::layout, size: size_of::<S525>(), align: align_of::<S525>(), fields: || vec![F("Alpha", D::U8, offset_of!(S525, f0)), F("Beta 2", D::U16, offset_of!(S525, f1)), F("Position3D", D::U16, offset_of!(S525, f2))] },
S { desc: "#[repr(C, packed(2))] struct { u8, u16, f32 }", layout: S526::layout, size: size_of::<S526>(), align: align_of::<S526>(), fields: || vec![F("Alpha", D::U8, offset_of!(S526, f0)), F("Beta 2", D::U16, offset_of!(S526, f1)), F("Position3D", D::F32, offset_of!(S526, f2))] },
S { desc: "#[repr(C, packed(2))] struct { u8, u16, i64 }", layout: S527::layout, size: size_of::<S527>(), align: align_of::<S527>(), fields: || vec![F("Alpha", D::U8, offset_of!(S527, f0)), F("Beta 2", D::U16, offset_of!(S527, f1)), F("Position3D", D::I64, offset_of!(S527, f2))] },
S { desc: "#[repr(C, packed(2))] struct { u8, f32, u8 }", layout: S528::layout, size: size_of::<S528>(), align: align_of::<S528>(), fields: || vec![F("Alpha", D::U8, offset_of!(S528, f0)), F("Beta 2", D::F32, offset_of!(S528, f1)), F("Position3D", D::U8, offset_of!(S528, f2))] },
S { desc: "#[repr(C, packed(2))] struct { u8, f32, u16 }", layout: S529::layout, size: size_of::<S529>(), align: align_of::<S529>(), fields: || vec![F("Alpha", D::U8, offset_of!(S529, f0)), F("Beta 2", D::F32, offset_of!(S529, f1)), F("Position3D", D::U16, offset_of!(S529, f2))] },
S { desc: "#[repr(C, packed(2))] struct { u8, f32, f32 }", layout: S530::layout, size: size_of::<S530>(), align: align_of::<S530>(), fields: || vec![F("Alpha", D::U8, offset_of!(S530, f0)), F("Beta 2", D::F32, offset_of!(S530, f1)), F("Position3D", D::F32, offset_of!(S530, f2))] },
S { desc: "#[repr(C, packed(2))] struct { u8, f32, i64 }", layout: S531::layout, size: size_of::<S531>(), align: align_of::<S531>(), fields: || vec![F("Alpha", D::U8, offset_of!(S531, f0)), F("Beta 2", D::F32, offset_of!(S531, f1)), F("Position3D", D::I64, offset_of!(S531, f2))] },
S { desc: "#[repr(C, packed(2))] struct { u8, i64, u8 }", layout: S532::layout, size: size_of::<S532>(), align: align_of::<S532>(), fields: || vec![F("Alpha", D::U8, offset_of!(S532, f0)), F("Beta 2", D::I64, offset_of!(S532, f1)), F("Position3D", D::U8, offset_of!(S532, f2))] },
S { desc: "#[repr(C, packed(2))] struct { u8, i64, u16 }", layout: S533::layout, size: size_of::<S533>(), align: align_of::<S533>(), fields: || vec![F("Alpha", D::U8, offset_of!(S533, f0)), F("Beta 2", D::I64, offset_of!(S533, f1)), F("Position3D", D::U16, offset_of!(S533, f2))] },
S { desc: "#[repr(C, packed(2))] struct { u8, i64, f32 }", layout: S534::layout, size: size_of::<S534>(), align: align_of::<S534>(), fields: || vec![F("Alpha", D::U8, offset_of!(S534, f0)), F("Beta 2", D::I64, offset_of!(S534, f1)), F("Position3D", D::F32, offset_of!(S534, f2))] },
S { desc: "#[repr(C, packed(2))] struct { u8, i64, i64 }", layout: S535::layout, size: size_of::<S535>(), align: align_of::<S535>(), fields: || vec![F("Alpha", D::U8, offset_of!(S535, f0)), F("Beta 2", D::I64, offset_of!(S535, f1)), F("Position3D", D::I64, offset_of!(S535, f2))] },
S { desc: "#[repr(C, packed(2))] struct { u16, u8, u8 }", layout: S536::layout, size: size_of::<S536>(), align: align_of::<S536>(), fields: || vec![F("Alpha", D::U16, offset_of!(S536, f0)), F("Beta 2", D::U8, offset_of!(S536, f1)), F("Position3D", D::U8, offset_of!(S536, f2))] },
S { desc: "#[repr(C, packed(2))] struct { u16, u8, u16 }", layout: S537::layout, size: size_of::<S537>(), align: align_of::<S537>(), fields: || vec![F("Alpha", D::U16, offset_of!(S537, f0)), F("Beta 2", D::U8, offset_of!(S537, f1)), F("Position3D", D::U16, offset_of!(S537, f2))] },
S { desc: "#[repr(C, packed(2))] struct { u16, u8, f32 }", layout: S538::layout, size: size_of::<S538>(), align: align_of::<S538>(), fields: || vec![F("Alpha", D::U16, offset_of!(S538, f0)), F("Beta 2", D::U8, offset_of!(S538, f1)), F("Position3D", D::F32, offset_of!(S538, f2))] },
S { desc: "#[repr(C, packed(2))] struct { u16, u8, i64 }", layout: S539::layout, size: size_of::<S539>(), align: align_of::<S539>(), fields: || vec![F("Alpha", D::U16, offset_of!(S539, f0)), F("Beta 2", D::U8, offset_of!(S539, f1)), F("Position3D", D::I64, offset_of!(S539, f2))] },
S { desc: "#[repr(C, packed(2))] struct { u16, u16, u8 }", layout: S540::layout, size: size_of::<S540>(), align: align_of::<S540>(), fields: || vec![F("Alpha", D::U16, offset_of!(S540, f0)), F("Beta 2", D::U16, offset_of!(S540, f1)), F("Position3D", D::U8, offset_of!(S540, f2))] },
S { desc: "#[repr(C, packed(2))] struct { u16, u16, u16 }", layout: S541::layout, size: size_of::<S541>(), align: align_of::<S541>(), fields: || vec![F("Alpha", D::U16, offset_of!(S541, f0)), F("Beta 2", D::U16, offset_of!(S541, f1)), F("Position3D", D::U16, offset_of!(S541, f2))] },
S { desc: "#[repr(C, packed(2))] struct { u16, u16, f32 }", layout: S542::layout, size: size_of::<S542>(), align: align_of::<S542>(), fields: || vec![F("Alpha", D::U16, offset_of!(S542, f0)), F("Beta 2", D::U16, offset_of!(S542, f1)), F("Position3D", D::F32, offset_of!(S542, f2))] },
S { desc: "#[repr(C, packed(2))] struct { u16, u16, i64 }", layout: S543::layout, size: size_of::<S543>(), align: align_of::<S543>(), fields: || vec![F("Alpha", D::U16, offset_of!(S543, f0)), F("Beta 2", D::U16, offset_of!(S543, f1)), F("Position3D", D::I64, offset_of!(S543, f2))] },
S { desc: "#[repr(C, packed(2))] struct { u16, f32, u8 }", layout: S544::layout, size: size_of::<S544>(), align: align_of::<S544>(), fields: || vec![F("Alpha", D::U16, offset_of!(S544, f0)), F("Beta 2", D::F32, offset_of!(S544, f1)), F("Position3D", D::U8, offset_of!(S544, f2))] },
S { desc: "#[repr(C, packed(2))] struct { u16, f32, u16 }", layout: S545::layout, size: size_of::<S545>(), align: align_of::<S545>(), fields: || vec![F("Alpha", D::U16, offset_of!(S545, f0)), F("Beta 2", D::F32, offset_of!(S545, f1)), F("Position3D", D::U16, offset_of!(S545, f2))] },
S { desc: "#[repr(C, packed(2))] struct { u16, f32, f32 }", layout: S546::layout, size: size_of::<S546>(), align: align_of::<S546>(), fields: || vec![F("Alpha", D::U16, offset_of!(S546, f0)), F("Beta 2", D::F32, offset_of!(S546, f1)), F("Position3D", D::F32, offset_of!(S546, f2))] },
S { desc: "#[repr(C, packed(2))] struct { u16, f32, i64 }", layout: S547::layout, size: size_of::<S547>(), align: align_of::<S547>(), fields: || vec![F("Alpha", D::U16, offset_of!(S547, f0)), F("Beta 2", D::F32, offset_of!(S547, f1)), F("Position3D", D::I64, offset_of!(S547, f2))] },
S { desc: "#[repr(C, packed(2))] struct { u16, i64, u8 }", layout: S548::layout, size: size_of::<S548>(), align: align_of::<S548>(), fields: || vec![F("Alpha", D::U16, offset_of!(S548, f0)), F("Beta 2", D::I64, offset_of!(S548, f1)), F("Position3D", D::U8, offset_of!(S548, f2))] },
S { desc: "#[repr(C, packed(2))] struct { u16, i64, u16 }", layout: S549::layout, size: size_of::<S549>(), align: align_of::<S549>(), fields: || vec![F("Alpha", D::U16, offset_of!(S549, f0)), F("Beta 2", D::I64, offset_of!(S549, f1)), F("Position3D", D::U16, offset_of!(S549, f2))] },
S { desc: "#[repr(C, packed(2))] struct { u16, i64, f32 }", layout: S550::layout, size: size_of::<S550>(), align: align_of::<S550>(), fields: || vec![F("Alpha", D::U16, offset_of!(S550, f0)), F("Beta 2", D::I64, offset_of!(S550, f1)), F("Position3D", D::F32, offset_of!(S550, f2))] },
S { desc: "#[repr(C, packed(2))] struct { u16, i64, i64 }", layout: S551::layout, size: size_of::<S551>(), align: align_of::<S551>(), fields: || vec![F("Alpha", D::U16, offset_of!(S551, f0)), F("Beta 2", D::I64, offset_of!(S551, f1)), F("Position3D", D::I64, offset_of!(S551, f2))] },
S { desc: "#[repr(C, packed(2))] struct { f32, u8, u8 }", layout: S552::layout, size: size_of::<S552>(), align: align_of::<S552>(), fields: || vec![F("Alpha", D::F32, offset_of!(S552, f0)), F("Beta 2", D::U8, offset_of!(S552, f1)), F("Position3D", D::U8, offset_of!(S552, f2))] },
S { desc: "#[repr(C, packed(2))] struct { f32, u8, u16 }", layout: S553::layout, size: size_of::<S553>(), align: align_of::<S553>(), fields: || vec![F("Alpha", D::F32, offset_of!(S553, f0)), F("Beta 2", D::U8, offset_of!(S553, f1)), F("Position3D", D::U16, offset_of!(S553, f2))] },
S { desc: "#[repr(C, packed(2))] struct { f32, u8, f32 }", layout: S554::layout, size: size_of::<S554>(), align: align_of::<S554>(), fields: || vec![F("Alpha", D::F32, offset_of!(S554, f0)), F("Beta 2", D::U8, offset_of!(S554, f1)), F("Position3D", D::F32, offset_of!(S554, f2))] },
S { desc: "#[repr(C, packed(2))] struct { f32, u8, i64 }", layout: S555::layout, size: size_of::<S555>(), align: align_of::<S555>(), fields: || vec![F("Alpha", D::F32, offset_of!(S555, f0)), F("Beta 2", D::U8, offset_of!(S555, f1)), F("Position3D", D::I64, offset_of!(S555, f2))] },
S { desc: "#[repr(C, packed(2))] struct { f32, u16, u8 }", layout: S556::layout, size: size_of::<S556>(), align: align_of::<S556>(), fields: || vec![F("Alpha", D::F32, offset_of!(S556, f0)), F("Beta 2", D::U16, offset_of!(S556, f1)), F("Position3D", D::U8, offset_of!(S556, f2))] },
S { desc: "#[repr(C, packed(2))] struct { f32, u16, u16 }", layout: S557::layout, size: size_of::<S557>(), align: align_of::<S557>(), fields: || vec![F("Alpha", D::F32, offset_of!(S557, f0)), F("Beta 2", D::U16, offset_of!(S557, f1)), F("Position3D", D::U16, offset_of!(S557, f2))] },
S { desc: "#[repr(C, packed(2))] struct { f32, u16, f32 }", layout: S558::layout, size: size_of::<S558>(), align: align_of::<S558>(), fields: || vec![F("Alpha", D::F32, offset_of!(S558, f0)), F("Beta 2", D::U16, offset_of!(S558, f1)), F("Position3D", D::F32, offset_of!(S558, f2))] },
S { desc: "#[repr(C, packed(2))] struct { f32, u16, i64 }", layout: S559::layout, size: size_of::<S559>(), align: align_of::<S559>(), fields: || vec![F("Alpha", D::F32, offset_of!(S559, f0)), F("Beta 2", D::U16, offset_of!(S559, f1)), F("Position3D", D::I64, offset_of!(S559, f2))] },
S { desc: "#[repr(C, packed(2))] struct { f32, f32, u8 }", layout: S560::layout, size: size_of::<S560>(), align: align_of::<S560>(), fields: || vec![F("Alpha", D::F32, offset_of!(S560, f0)), F("Beta 2", D::F32, offset_of!(S560, f1)), F("Position3D", D::U8, offset_of!(S560, f2))] },
S { desc: "#[repr(C, packed(2))] struct { f32, f32, u16 }", layout: S561::layout, size: size_of::<S561>(), align: align_of::<S561>(), fields: || vec![F("Alpha", D::F32, offset_of!(S561, f0)), F("Beta 2", D::F32, offset_of!(S561, f1)), F("Position3D", D::U16, offset_of!(S561, f2))] },
S { desc: "#[repr(C, packed(2))] struct { f32, f32, f32 }", layout: S562::layout, size: size_of::<S562>(), align: align_of::<S562>(), fields: || vec![F("Alpha", D::F32, offset_of!(S562, f0)), F("Beta 2", D::F32, offset_of!(S562, f1)), F("Position3D", D::F32, offset_of!(S562, f2))] },
S { desc: "#[repr(C, packed(2))] struct { f32, f32, i64 }", layout: S563::layout, size: size_of::<S563>(), align: align_of::<S563>(), fields: || vec![F("Alpha", D::F32, offset_of!(S563, f0)), F("Beta 2", D::F32, offset_of!(S563, f1)), F("Position3D", D::I64, offset_of!(S563, f2))] },
S { desc: "#[repr(C, packed(2))] struct { f32, i64, u8 }", layout: S564::layout, size: size_of::<S564>(), align: align_of::<S564>(), fields: || vec![F("Alpha", D::F32, offset_of!(S564, f0)), F("Beta 2", D::I64, offset_of!(S564, f1)), F("Position3D", D::U8, offset_of!(S564, f2))] },
S { desc: "#[repr(C, packed(2))] struct { f32, i64, u16 }", layout: S565::layout, size: size_of::<S565>(), align: align_of::<S565>(), fields: || vec![F("Alpha", D::F32, offset_of!(S565, f0)), F("Beta 2", D::I64, offset_of!(S565, f1)), F("Position3D", D::U16, offset_of!(S565, f2))] },
S { desc: "#[repr(C, packed(2))] struct { f32, i64, f32 }", layout: S566::layout, size: size_of::<S566>(), align: align_of::<S566>(), fields: || vec![F("Alpha", D::F32, offset_of!(S566, f0)), F("Beta 2", D::I64, offset_of!(S566, f1)), F("Position3D", D::F32, offset_of!(S566, f2))] },
S { desc: "#[repr(C, packed(2))] struct { f32, i64, i64 }", layout: S567::layout, size: size_of::<S567>(), align: align_of::<S567>(), fields: || vec![F("Alpha", D::F32, offset_of!(S567, f0)), F("Beta 2", D::I64, offset_of!(S567, f1)), F("Position3D", D::I64, offset_of!(S567, f2))] },
S { desc: "#[repr(C, packed(2))] struct { i64, u8, u8 }", layout: S568::layout, size: size_of::<S568>(), align: align_of::<S568>(), fields: || vec![F("Alpha", D::I64, offset_of!(S568, f0)), F("Beta 2", D::U8, offset_of!(S568, f1)), F("Position3D", D::U8, offset_of!(S568, f2))] },
S { desc: "#[repr(C, packed(2))] struct { i64, u8, u16 }", layout: S569::layout, size: size_of::<S569>(), align: align_of::<S569>(), fields: || vec![F("Alpha", D::I64, offset_of!(S569, f0)), F("Beta 2", D::U8, offset_of!(S569, f1)), F("Position3D", D::U16, offset_of!(S569, f2))] },
S { desc: "#[repr(C, packed(2))] struct { i64, u8, f32 }", layout: S570::layout, size: size_of::<S570>(), align: align_of::<S570>(), fields: || vec![F("Alpha", D::I64, offset_of!(S570, f0)), F("Beta 2", D::U8, offset_of!(S570, f1)), F("Position3D", D::F32, offset_of!(S570, f2))] },
S { desc: "#[repr(C, packed(2))] struct { i64, u8, i64 }", layout: S571::layout, size: size_of::<S571>(), align: align_of::<S571>(), fields: || vec![F("Alpha", D::I64, offset_of!(S571, f0)), F("Beta 2", D::U8, offset_of!(S571, f1)), F("Position3D", D::I64, offset_of!(S571, f2))] },
S { desc: "#[repr(C, packed(2))] struct { i64, u16, u8 }", layout: S572::layout, size: size_of::<S572>(), align: align_of::<S572>(), fields: || vec![F("Alpha", D::I64, offset_of!(S572, f0)), F("Beta 2", D::U16, offset_of!(S572, f1)), F("Position3D", D::U8, offset_of!(S572, f2))] },
S { desc: "#[repr(C, packed(2))] struct { i64, u16, u16 }", layout: S573::layout, size: size_of::<S573>(), align: align_of::<S573>(), fields: || vec![F("Alpha", D::I64, offset_of!(S573, f0)), F("Beta 2", D::U16, offset_of!(S573, f1)), F("Position3D", D::U16, offset_of!(S573, f2))] },
S { desc: "#[repr(C, packed(2))] struct { i64, u16, f32 }", layout: S574::layout, size: size_of::<S574>(), align: align_of::<S574>(), fields: || vec![F("Alpha", D::I64, offset_of!(S574, f0)), F("Beta 2", D::U16, offset_of!(S574, f1)), F("Position3D", D::F32, offset_of!(S574, f2))] },
S { desc: "#[repr(C, packed(2))] struct { i64, u16, i64 }", layout: S575::layout, size: size_of::<S575>(), align: align_of::<S575>(), fields: || vec![F("Alpha", D::I64, offset_of!(S575, f0)), F("Beta 2", D::U16, offset_of!(S575, f1)), F("Position3D", D::I64, offset_of!(S575, f2))] },
S { desc: "#[repr(C, packed(2))] struct { i64, f32, u8 }", layout: S576::layout, size: size_of::<S576>(), align: align_of::<S576>(), fields: || vec![F("Alpha", D::I64, offset_of!(S576, f0)), F("Beta 2", D::F32, offset_of!(S576, f1)), F("Position3D", D::U8, offset_of!(S576, f2))] },
S { desc: "#[repr(C, packed(2))] struct { i64, f32, u16 }", layout: S577::layout, size: size_of::<S577>(), align: align_of::<S577>(), fields: || vec![F("Alpha", D::I64, offset_of!(S577, f0)), F("Beta 2", D::F32, offset_of!(S577, f1)), F("Position3D", D::U16, offset_of!(S577, f2))] },
S { desc: "#[repr(C, packed(2))] struct { i64, f32, f32 }", layout: S578::layout, size: size_of::<S578>(), align: align_of::<S578>(), fields: || vec![F("Alpha", D::I64, offset_of!(S578, f0)), F("Beta 2", D::F32, offset_of!(S578, f1)), F("Position3D", D::F32, offset_of!(S578, f2))] },
S { desc: "#[repr(C, packed(2))] struct { i64, f32, i64 }", layout: S579::layout, size: size_of::<S579>(), align: align_of::<S579>(), fields: || vec![F("Alpha", D::I64, offset_of!(S579, f0)), F("Beta 2", D::F32, offset_of!(S579, f1)), F("Position3D", D::I64, offset_of!(S579, f2))] },
S { desc: "#[repr(C, packed(2))] struct { i64, i64, u8 }", layout: S580::layout, size: size_of::<S580>(), align: align_of::<S580>(), fields: || vec![F("Alpha", D::I64, offset_of!(S580, f0)), F("Beta 2", D::I64, offset_of!(S580, f1)), F("Position3D", D::U8, offset_of!(S580, f2))] },
S { desc: "#[repr(C, packed(2))] struct { i64, i64, u16 }", layout: S581::layout, size: size_of::<S581>(), align: align_of::<S581>(), fields: || vec![F("Alpha", D::I64, offset_of!(S581, f0)), F("Beta 2", D::I64, offset_of!(S581, f1)), F("Position3D", D::U16, offset_of!(S581, f2))] },
S { desc: "#[repr(C, packed(2))] struct { i64, i64, f32 }", layout: S582::layout, size: size_of::<S582>(), align: align_of::<S582>(), fields: || vec![F("Alpha", D::I64, offset_of!(S582, f0)), F("Beta 2", D::I64, offset_of!(S582, f1)), F("Position3D", D::F32, offset_of!(S582, f2))] },
S { desc: "#[repr(C, packed(2))] struct { i64, i64, i64 }", layout: S583::layout, size: size_of::<S583>(), align: align_of::<S583>(), fields: || vec![F("Alpha", D::I64, offset_of!(S583, f0)), F("Beta 2", D::I64, offset_of!(S583, f1)), F("Position3D", D::I64, offset_of!(S583, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { u8, u8, u8 }", layout: S584::layout, size: size_of::<S584>(), align: align_of::<S584>(), fields: || vec![F("Alpha", D::U8, offset_of!(S584, f0)), F("Beta 2", D::U8, offset_of!(S584, f1)), F("Position3D", D::U8, offset_of!(S584, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { u8, u8, u16 }", layout: S585::layout, size: size_of::<S585>(), align: align_of::<S585>(), fields: || vec![F("Alpha", D::U8, offset_of!(S585, f0)), F("Beta 2", D::U8, offset_of!(S585, f1)), F("Position3D", D::U16, offset_of!(S585, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { u8, u8, f32 }", layout: S586::layout, size: size_of::<S586>(), align: align_of::<S586>(), fields: || vec![F("Alpha", D::U8, offset_of!(S586, f0)), F("Beta 2", D::U8, offset_of!(S586, f1)), F("Position3D", D::F32, offset_of!(S586, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { u8, u8, i64 }", layout: S587::layout, size: size_of::<S587>(), align: align_of::<S587>(), fields: || vec![F("Alpha", D::U8, offset_of!(S587, f0)), F("Beta 2", D::U8, offset_of!(S587, f1)), F("Position3D", D::I64, offset_of!(S587, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { u8, u16, u8 }", layout: S588::layout, size: size_of::<S588>(), align: align_of::<S588>(), fields: || vec![F("Alpha", D::U8, offset_of!(S588, f0)), F("Beta 2", D::U16, offset_of!(S588, f1)), F("Position3D", D::U8, offset_of!(S588, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { u8, u16, u16 }", layout: S589::layout, size: size_of::<S589>(), align: align_of::<S589>(), fields: || vec![F("Alpha", D::U8, offset_of!(S589, f0)), F("Beta 2", D::U16, offset_of!(S589, f1)), F("Position3D", D::U16, offset_of!(S589, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { u8, u16, f32 }", layout: S590::layout, size: size_of::<S590>(), align: align_of::<S590>(), fields: || vec![F("Alpha", D::U8, offset_of!(S590, f0)), F("Beta 2", D::U16, offset_of!(S590, f1)), F("Position3D", D::F32, offset_of!(S590, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { u8, u16, i64 }", layout: S591::layout, size: size_of::<S591>(), align: align_of::<S591>(), fields: || vec![F("Alpha", D::U8, offset_of!(S591, f0)), F("Beta 2", D::U16, offset_of!(S591, f1)), F("Position3D", D::I64, offset_of!(S591, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { u8, f32, u8 }", layout: S592::layout, size: size_of::<S592>(), align: align_of::<S592>(), fields: || vec![F("Alpha", D::U8, offset_of!(S592, f0)), F("Beta 2", D::F32, offset_of!(S592, f1)), F("Position3D", D::U8, offset_of!(S592, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { u8, f32, u16 }", layout: S593::layout, size: size_of::<S593>(), align: align_of::<S593>(), fields: || vec![F("Alpha", D::U8, offset_of!(S593, f0)), F("Beta 2", D::F32, offset_of!(S593, f1)), F("Position3D", D::U16, offset_of!(S593, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { u8, f32, f32 }", layout: S594::layout, size: size_of::<S594>(), align: align_of::<S594>(), fields: || vec![F("Alpha", D::U8, offset_of!(S594, f0)), F("Beta 2", D::F32, offset_of!(S594, f1)), F("Position3D", D::F32, offset_of!(S594, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { u8, f32, i64 }", layout: S595::layout, size: size_of::<S595>(), align: align_of::<S595>(), fields: || vec![F("Alpha", D::U8, offset_of!(S595, f0)), F("Beta 2", D::F32, offset_of!(S595, f1)), F("Position3D", D::I64, offset_of!(S595, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { u8, i64, u8 }", layout: S596::layout, size: size_of::<S596>(), align: align_of::<S596>(), fields: || vec![F("Alpha", D::U8, offset_of!(S596, f0)), F("Beta 2", D::I64, offset_of!(S596, f1)), F("Position3D", D::U8, offset_of!(S596, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { u8, i64, u16 }", layout: S597::layout, size: size_of::<S597>(), align: align_of::<S597>(), fields: || vec![F("Alpha", D::U8, offset_of!(S597, f0)), F("Beta 2", D::I64, offset_of!(S597, f1)), F("Position3D", D::U16, offset_of!(S597, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { u8, i64, f32 }", layout: S598::layout, size: size_of::<S598>(), align: align_of::<S598>(), fields: || vec![F("Alpha", D::U8, offset_of!(S598, f0)), F("Beta 2", D::I64, offset_of!(S598, f1)), F("Position3D", D::F32, offset_of!(S598, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { u8, i64, i64 }", layout: S599::layout, size: size_of::<S599>(), align: align_of::<S599>(), fields: || vec![F("Alpha", D::U8, offset_of!(S599, f0)), F("Beta 2", D::I64, offset_of!(S599, f1)), F("Position3D", D::I64, offset_of!(S599, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { u16, u8, u8 }", layout: S600::layout, size: size_of::<S600>(), align: align_of::<S600>(), fields: || vec![F("Alpha", D::U16, offset_of!(S600, f0)), F("Beta 2", D::U8, offset_of!(S600, f1)), F("Position3D", D::U8, offset_of!(S600, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { u16, u8, u16 }", layout: S601::layout, size: size_of::<S601>(), align: align_of::<S601>(), fields: || vec![F("Alpha", D::U16, offset_of!(S601, f0)), F("Beta 2", D::U8, offset_of!(S601, f1)), F("Position3D", D::U16, offset_of!(S601, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { u16, u8, f32 }", layout: S602::layout, size: size_of::<S602>(), align: align_of::<S602>(), fields: || vec![F("Alpha", D::U16, offset_of!(S602, f0)), F("Beta 2", D::U8, offset_of!(S602, f1)), F("Position3D", D::F32, offset_of!(S602, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { u16, u8, i64 }", layout: S603::layout, size: size_of::<S603>(), align: align_of::<S603>(), fields: || vec![F("Alpha", D::U16, offset_of!(S603, f0)), F("Beta 2", D::U8, offset_of!(S603, f1)), F("Position3D", D::I64, offset_of!(S603, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { u16, u16, u8 }", layout: S604::layout, size: size_of::<S604>(), align: align_of::<S604>(), fields: || vec![F("Alpha", D::U16, offset_of!(S604, f0)), F("Beta 2", D::U16, offset_of!(S604, f1)), F("Position3D", D::U8, offset_of!(S604, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { u16, u16, u16 }", layout: S605::layout, size: size_of::<S605>(), align: align_of::<S605>(), fields: || vec![F("Alpha", D::U16, offset_of!(S605, f0)), F("Beta 2", D::U16, offset_of!(S605, f1)), F("Position3D", D::U16, offset_of!(S605, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { u16, u16, f32 }", layout: S606::layout, size: size_of::<S606>(), align: align_of::<S606>(), fields: || vec![F("Alpha", D::U16, offset_of!(S606, f0)), F("Beta 2", D::U16, offset_of!(S606, f1)), F("Position3D", D::F32, offset_of!(S606, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { u16, u16, i64 }", layout: S607::layout, size: size_of::<S607>(), align: align_of::<S607>(), fields: || vec![F("Alpha", D::U16, offset_of!(S607, f0)), F("Beta 2", D::U16, offset_of!(S607, f1)), F("Position3D", D::I64, offset_of!(S607, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { u16, f32, u8 }", layout: S608::layout, size: size_of::<S608>(), align: align_of::<S608>(), fields: || vec![F("Alpha", D::U16, offset_of!(S608, f0)), F("Beta 2", D::F32, offset_of!(S608, f1)), F("Position3D", D::U8, offset_of!(S608, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { u16, f32, u16 }", layout: S609::layout, size: size_of::<S609>(), align: align_of::<S609>(), fields: || vec![F("Alpha", D::U16, offset_of!(S609, f0)), F("Beta 2", D::F32, offset_of!(S609, f1)), F("Position3D", D::U16, offset_of!(S609, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { u16, f32, f32 }", layout: S610::layout, size: size_of::<S610>(), align: align_of::<S610>(), fields: || vec![F("Alpha", D::U16, offset_of!(S610, f0)), F("Beta 2", D::F32, offset_of!(S610, f1)), F("Position3D", D::F32, offset_of!(S610, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { u16, f32, i64 }", layout: S611::layout, size: size_of::<S611>(), align: align_of::<S611>(), fields: || vec![F("Alpha", D::U16, offset_of!(S611, f0)), F("Beta 2", D::F32, offset_of!(S611, f1)), F("Position3D", D::I64, offset_of!(S611, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { u16, i64, u8 }", layout: S612::layout, size: size_of::<S612>(), align: align_of::<S612>(), fields: || vec![F("Alpha", D::U16, offset_of!(S612, f0)), F("Beta 2", D::I64, offset_of!(S612, f1)), F("Position3D", D::U8, offset_of!(S612, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { u16, i64, u16 }", layout: S613::layout, size: size_of::<S613>(), align: align_of::<S613>(), fields: || vec![F("Alpha", D::U16, offset_of!(S613, f0)), F("Beta 2", D::I64, offset_of!(S613, f1)), F("Position3D", D::U16, offset_of!(S613, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { u16, i64, f32 }", layout: S614::layout, size: size_of::<S614>(), align: align_of::<S614>(), fields: || vec![F("Alpha", D::U16, offset_of!(S614, f0)), F("Beta 2", D::I64, offset_of!(S614, f1)), F("Position3D", D::F32, offset_of!(S614, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { u16, i64, i64 }", layout: S615::layout, size: size_of::<S615>(), align: align_of::<S615>(), fields: || vec![F("Alpha", D::U16, offset_of!(S615, f0)), F("Beta 2", D::I64, offset_of!(S615, f1)), F("Position3D", D::I64, offset_of!(S615, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { f32, u8, u8 }", layout: S616::layout, size: size_of::<S616>(), align: align_of::<S616>(), fields: || vec![F("Alpha", D::F32, offset_of!(S616, f0)), F("Beta 2", D::U8, offset_of!(S616, f1)), F("Position3D", D::U8, offset_of!(S616, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { f32, u8, u16 }", layout: S617::layout, size: size_of::<S617>(), align: align_of::<S617>(), fields: || vec![F("Alpha", D::F32, offset_of!(S617, f0)), F("Beta 2", D::U8, offset_of!(S617, f1)), F("Position3D", D::U16, offset_of!(S617, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { f32, u8, f32 }", layout: S618::layout, size: size_of::<S618>(), align: align_of::<S618>(), fields: || vec![F("Alpha", D::F32, offset_of!(S618, f0)), F("Beta 2", D::U8, offset_of!(S618, f1)), F("Position3D", D::F32, offset_of!(S618, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { f32, u8, i64 }", layout: S619::layout, size: size_of::<S619>(), align: align_of::<S619>(), fields: || vec![F("Alpha", D::F32, offset_of!(S619, f0)), F("Beta 2", D::U8, offset_of!(S619, f1)), F("Position3D", D::I64, offset_of!(S619, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { f32, u16, u8 }", layout: S620::layout, size: size_of::<S620>(), align: align_of::<S620>(), fields: || vec![F("Alpha", D::F32, offset_of!(S620, f0)), F("Beta 2", D::U16, offset_of!(S620, f1)), F("Position3D", D::U8, offset_of!(S620, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { f32, u16, u16 }", layout: S621::layout, size: size_of::<S621>(), align: align_of::<S621>(), fields: || vec![F("Alpha", D::F32, offset_of!(S621, f0)), F("Beta 2", D::U16, offset_of!(S621, f1)), F("Position3D", D::U16, offset_of!(S621, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { f32, u16, f32 }", layout: S622::layout, size: size_of::<S622>(), align: align_of::<S622>(), fields: || vec![F("Alpha", D::F32, offset_of!(S622, f0)), F("Beta 2", D::U16, offset_of!(S622, f1)), F("Position3D", D::F32, offset_of!(S622, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { f32, u16, i64 }", layout: S623::layout, size: size_of::<S623>(), align: align_of::<S623>(), fields: || vec![F("Alpha", D::F32, offset_of!(S623, f0)), F("Beta 2", D::U16, offset_of!(S623, f1)), F("Position3D", D::I64, offset_of!(S623, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { f32, f32, u8 }", layout: S624::layout, size: size_of::<S624>(), align: align_of::<S624>(), fields: || vec![F("Alpha", D::F32, offset_of!(S624, f0)), F("Beta 2", D::F32, offset_of!(S624, f1)), F("Position3D", D::U8, offset_of!(S624, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { f32, f32, u16 }", layout: S625::layout, size: size_of::<S625>(), align: align_of::<S625>(), fields: || vec![F("Alpha", D::F32, offset_of!(S625, f0)), F("Beta 2", D::F32, offset_of!(S625, f1)), F("Position3D", D::U16, offset_of!(S625, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { f32, f32, f32 }", layout: S626::layout, size: size_of::<S626>(), align: align_of::<S626>(), fields: || vec![F("Alpha", D::F32, offset_of!(S626, f0)), F("Beta 2", D::F32, offset_of!(S626, f1)), F("Position3D", D::F32, offset_of!(S626, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { f32, f32, i64 }", layout: S627::layout, size: size_of::<S627>(), align: align_of::<S627>(), fields: || vec![F("Alpha", D::F32, offset_of!(S627, f0)), F("Beta 2", D::F32, offset_of!(S627, f1)), F("Position3D", D::I64, offset_of!(S627, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { f32, i64, u8 }", layout: S628::layout, size: size_of::<S628>(), align: align_of::<S628>(), fields: || vec![F("Alpha", D::F32, offset_of!(S628, f0)), F("Beta 2", D::I64, offset_of!(S628, f1)), F("Position3D", D::U8, offset_of!(S628, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { f32, i64, u16 }", layout: S629::layout, size: size_of::<S629>(), align: align_of::<S629>(), fields: || vec![F("Alpha", D::F32, offset_of!(S629, f0)), F("Beta 2", D::I64, offset_of!(S629, f1)), F("Position3D", D::U16, offset_of!(S629, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { f32, i64, f32 }", layout: S630::layout, size: size_of::<S630>(), align: align_of::<S630>(), fields: || vec![F("Alpha", D::F32, offset_of!(S630, f0)), F("Beta 2", D::I64, offset_of!(S630, f1)), F("Position3D", D::F32, offset_of!(S630, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { f32, i64, i64 }", layout: S631::layout, size: size_of::<S631>(), align: align_of::<S631>(), fields: || vec![F("Alpha", D::F32, offset_of!(S631, f0)), F("Beta 2", D::I64, offset_of!(S631, f1)), F("Position3D", D::I64, offset_of!(S631, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { i64, u8, u8 }", layout: S632::layout, size: size_of::<S632>(), align: align_of::<S632>(), fields: || vec![F("Alpha", D::I64, offset_of!(S632, f0)), F("Beta 2", D::U8, offset_of!(S632, f1)), F("Position3D", D::U8, offset_of!(S632, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { i64, u8, u16 }", layout: S633::layout, size: size_of::<S633>(), align: align_of::<S633>(), fields: || vec![F("Alpha", D::I64, offset_of!(S633, f0)), F("Beta 2", D::U8, offset_of!(S633, f1)), F("Position3D", D::U16, offset_of!(S633, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { i64, u8, f32 }", layout: S634::layout, size: size_of::<S634>(), align: align_of::<S634>(), fields: || vec![F("Alpha", D::I64, offset_of!(S634, f0)), F("Beta 2", D::U8, offset_of!(S634, f1)), F("Position3D", D::F32, offset_of!(S634, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { i64, u8, i64 }", layout: S635::layout, size: size_of::<S635>(), align: align_of::<S635>(), fields: || vec![F("Alpha", D::I64, offset_of!(S635, f0)), F("Beta 2", D::U8, offset_of!(S635, f1)), F("Position3D", D::I64, offset_of!(S635, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { i64, u16, u8 }", layout: S636::layout, size: size_of::<S636>(), align: align_of::<S636>(), fields: || vec![F("Alpha", D::I64, offset_of!(S636, f0)), F("Beta 2", D::U16, offset_of!(S636, f1)), F("Position3D", D::U8, offset_of!(S636, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { i64, u16, u16 }", layout: S637::layout, size: size_of::<S637>(), align: align_of::<S637>(), fields: || vec![F("Alpha", D::I64, offset_of!(S637, f0)), F("Beta 2", D::U16, offset_of!(S637, f1)), F("Position3D", D::U16, offset_of!(S637, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { i64, u16, f32 }", layout: S638::layout, size: size_of::<S638>(), align: align_of::<S638>(), fields: || vec![F("Alpha", D::I64, offset_of!(S638, f0)), F("Beta 2", D::U16, offset_of!(S638, f1)), F("Position3D", D::F32, offset_of!(S638, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { i64, u16, i64 }", layout: S639::layout, size: size_of::<S639>(), align: align_of::<S639>(), fields: || vec![F("Alpha", D::I64, offset_of!(S639, f0)), F("Beta 2", D::U16, offset_of!(S639, f1)), F("Position3D", D::I64, offset_of!(S639, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { i64, f32, u8 }", layout: S640::layout, size: size_of::<S640>(), align: align_of::<S640>(), fields: || vec![F("Alpha", D::I64, offset_of!(S640, f0)), F("Beta 2", D::F32, offset_of!(S640, f1)), F("Position3D", D::U8, offset_of!(S640, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { i64, f32, u16 }", layout: S641::layout, size: size_of::<S641>(), align: align_of::<S641>(), fields: || vec![F("Alpha", D::I64, offset_of!(S641, f0)), F("Beta 2", D::F32, offset_of!(S641, f1)), F("Position3D", D::U16, offset_of!(S641, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { i64, f32, f32 }", layout: S642::layout, size: size_of::<S642>(), align: align_of::<S642>(), fields: || vec![F("Alpha", D::I64, offset_of!(S642, f0)), F("Beta 2", D::F32, offset_of!(S642, f1)), F("Position3D", D::F32, offset_of!(S642, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { i64, f32, i64 }", layout: S643::layout, size: size_of::<S643>(), align: align_of::<S643>(), fields: || vec![F("Alpha", D::I64, offset_of!(S643, f0)), F("Beta 2", D::F32, offset_of!(S643, f1)), F("Position3D", D::I64, offset_of!(S643, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { i64, i64, u8 }", layout: S644::layout, size: size_of::<S644>(), align: align_of::<S644>(), fields: || vec![F("Alpha", D::I64, offset_of!(S644, f0)), F("Beta 2", D::I64, offset_of!(S644, f1)), F("Position3D", D::U8, offset_of!(S644, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { i64, i64, u16 }", layout: S645::layout, size: size_of::<S645>(), align: align_of::<S645>(), fields: || vec![F("Alpha", D::I64, offset_of!(S645, f0)), F("Beta 2", D::I64, offset_of!(S645, f1)), F("Position3D", D::U16, offset_of!(S645, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { i64, i64, f32 }", layout: S646::layout, size: size_of::<S646>(), align: align_of::<S646>(), fields: || vec![F("Alpha", D::I64, offset_of!(S646, f0)), F("Beta 2", D::I64, offset_of!(S646, f1)), F("Position3D", D::F32, offset_of!(S646, f2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { i64, i64, i64 }", layout: S647::layout, size: size_of::<S647>(), align: align_of::<S647>(), fields: || vec![F("Alpha", D::I64, offset_of!(S647, f0)), F("Beta 2", D::I64, offset_of!(S647, f1)), F("Position3D", D::I64, offset_of!(S647, f2))] },
S { desc: "#[repr(packed(8), C)] struct { u8, u8, u8 }", layout: S648::layout, size: size_of::<S648>(), align: align_of::<S648>(), fields: || vec![F("Alpha", D::U8, offset_of!(S648, f0)), F("Beta 2", D::U8, offset_of!(S648, f1)), F("Position3D", D::U8, offset_of!(S648, f2))] },
S { desc: "#[repr(packed(8), C)] struct { u8, u8, u16 }", layout: S649::layout, size: size_of::<S649>(), align: align_of::<S649>(), fields: || vec![F("Alpha", D::U8, offset_of!(S649, f0)), F("Beta 2", D::U8, offset_of!(S649, f1)), F("Position3D", D::U16, offset_of!(S649, f2))] },
S { desc: "#[repr(packed(8), C)] struct { u8, u8, f32 }", layout: S650::layout, size: size_of::<S650>(), align: align_of::<S650>(), fields: || vec![F("Alpha", D::U8, offset_of!(S650, f0)), F("Beta 2", D::U8, offset_of!(S650, f1)), F("Position3D", D::F32, offset_of!(S650, f2))] },
S { desc: "#[repr(packed(8), C)] struct { u8, u8, i64 }", layout: S651::layout, size: size_of::<S651>(), align: align_of::<S651>(), fields: || vec![F("Alpha", D::U8, offset_of!(S651, f0)), F("Beta 2", D::U8, offset_of!(S651, f1)), F("Position3D", D::I64, offset_of!(S651, f2))] },
S { desc: "#[repr(packed(8), C)] struct { u8, u16, u8 }", layout: S652::layout, size: size_of::<S652>(), align: align_of::<S652>(), fields: || vec![F("Alpha", D::U8, offset_of!(S652, f0)), F("Beta 2", D::U16, offset_of!(S652, f1)), F("Position3D", D::U8, offset_of!(S652, f2))] },
S { desc: "#[repr(packed(8), C)] struct { u8, u16, u16 }", layout: S653::layout, size: size_of::<S653>(), align: align_of::<S653>(), fields: || vec![F("Alpha", D::U8, offset_of!(S653, f0)), F("Beta 2", D::U16, offset_of!(S653, f1)), F("Position3D", D::U16, offset_of!(S653, f2))] },
S { desc: "#[repr(packed(8), C)] struct { u8, u16, f32 }", layout: S654::layout, size: size_of::<S654>(), align: align_of::<S654>(), fields: || vec![F("Alpha", D::U8, offset_of!(S654, f0)), F("Beta 2", D::U16, offset_of!(S654, f1)), F("Position3D", D::F32, offset_of!(S654, f2))] },
S { desc: "#[repr(packed(8), C)] struct { u8, u16, i64 }", layout: S655::layout, size: size_of::<S655>(), align: align_of::<S655>(), fields: || vec![F("Alpha", D::U8, offset_of!(S655, f0)), F("Beta 2", D::U16, offset_of!(S655, f1)), F("Position3D", D::I64, offset_of!(S655, f2))] },
S { desc: "#[repr(packed(8), C)] struct { u8, f32, u8 }", layout: S656::layout, size: size_of::<S656>(), align: align_of::<S656>(), fields: || vec![F("Alpha", D::U8, offset_of!(S656, f0)), F("Beta 2", D::F32, offset_of!(S656, f1)), F("Position3D", D::U8, offset_of!(S656, f2))] },
S { desc: "#[repr(packed(8), C)] struct { u8, f32, u16 }", layout: S657::layout, size: size_of::<S657>(), align: align_of::<S657>(), fields: || vec![F("Alpha", D::U8, offset_of!(S657, f0)), F("Beta 2", D::F32, offset_of!(S657, f1)), F("Position3D", D::U16, offset_of!(S657, f2))] },
S { desc: "#[repr(packed(8), C)] struct { u8, f32, f32 }", layout: S658::layout, size: size_of::<S658>(), align: align_of::<S658>(), fields: || vec![F("Alpha", D::U8, offset_of!(S658, f0)), F("Beta 2", D::F32, offset_of!(S658, f1)), F("Position3D", D::F32, offset_of!(S658, f2))] },
S { desc: "#[repr(packed(8), C)] struct { u8, f32, i64 }", layout: S659::layout, size: size_of::<S659>(), align: align_of::<S659>(), fields: || vec![F("Alpha", D::U8, offset_of!(S659, f0)), F("Beta 2", D::F32, offset_of!(S659, f1)), F("Position3D", D::I64, offset_of!(S659, f2))] },
S { desc: "#[repr(packed(8), C)] struct { u8, i64, u8 }", layout: S660::layout, size: size_of::<S660>(), align: align_of::<S660>(), fields: || vec![F("Alpha", D::U8, offset_of!(S660, f0)), F("Beta 2", D::I64, offset_of!(S660, f1)), F("Position3D", D::U8, offset_of!(S660, f2))] },
S { desc: "#[repr(packed(8), C)] struct { u8, i64, u16 }", layout: S661::layout, size: size_of::<S661>(), align: align_of::<S661>(), fields: || vec![F("Alpha", D::U8, offset_of!(S661, f0)), F("Beta 2", D::I64, offset_of!(S661, f1)), F("Position3D", D::U16, offset_of!(S661, f2))] },
S { desc: "#[repr(packed(8), C)] struct { u8, i64, f32 }", layout: S662::layout, size: size_of::<S662>(), align: align_of::<S662>(), fields: || vec![F("Alpha", D::U8, offset_of!(S662, f0)), F("Beta 2", D::I64, offset_of!(S662, f1)), F("Position3D", D::F32, offset_of!(S662, f2))] },
S { desc: "#[repr(packed(8), C)] struct { u8, i64, i64 }", layout: S663::layout, size: size_of::<S663>(), align: align_of::<S663>(), fields: || vec![F("Alpha", D::U8, offset_of!(S663, f0)), F("Beta 2", D::I64, offset_of!(S663, f1)), F("Position3D", D::I64, offset_of!(S663, f2))] },
S { desc: "#[repr(packed(8), C)] struct { u16, u8, u8 }", layout: S664::layout, size: size_of::<S664>(), align: align_of::<S664>(), fields: || vec![F("Alpha", D::U16, offset_of!(S664, f0)), F("Beta 2", D::U8, offset_of!(S664, f1)), F("Position3D", D::U8, offset_of!(S664, f2))] },
S { desc: "#[repr(packed(8), C)] struct { u16, u8, u16 }", layout: S665::layout, size: size_of::<S665>(), align: align_of::<S665>(), fields: || vec![F("Alpha", D::U16, offset_of!(S665, f0)), F("Beta 2", D::U8, offset_of!(S665, f1)), F("Position3D", D::U16, offset_of!(S665, f2))] },
S { desc: "#[repr(packed(8), C)] struct { u16, u8, f32 }", layout: S666::layout, size: size_of::<S666>(), align: align_of::<S666>(), fields: || vec![F("Alpha", D::U16, offset_of!(S666, f0)), F("Beta 2", D::U8, offset_of!(S666, f1)), F("Position3D", D::F32, offset_of!(S666, f2))] },
S { desc: "#[repr(packed(8), C)] struct { u16, u8, i64 }", layout: S667::layout, size: size_of::<S667>(), align: align_of::<S667>(), fields: || vec![F("Alpha", D::U16, offset_of!(S667, f0)), F("Beta 2", D::U8, offset_of!(S667, f1)), F("Position3D", D::I64, offset_of!(S667, f2))] },
S { desc: "#[repr(packed(8), C)] struct { u16, u16, u8 }", layout: S668::layout, size: size_of::<S668>(), align: align_of::<S668>(), fields: || vec![F("Alpha", D::U16, offset_of!(S668, f0)), F("Beta 2", D::U16, offset_of!(S668, f1)), F("Position3D", D::U8, offset_of!(S668, f2))] },
S { desc: "#[repr(packed(8), C)] struct { u16, u16, u16 }", layout: S669::layout, size: size_of::<S669>(), align: align_of::<S669>(), fields: || vec![F("Alpha", D::U16, offset_of!(S669, f0)), F("Beta 2", D::U16, offset_of!(S669, f1)), F("Position3D", D::U16, offset_of!(S669, f2))] },
S { desc: "#[repr(packed(8), C)] struct { u16, u16, f32 }", layout: S670::layout, size: size_of::<S670>(), align: align_of::<S670>(), fields: || vec![F("Alpha", D::U16, offset_of!(S670, f0)), F("Beta 2", D::U16, offset_of!(S670, f1)), F("Position3D", D::F32, offset_of!(S670, f2))] },
S { desc: "#[repr(packed(8), C)] struct { u16, u16, i64 }", layout: S671::layout, size: size_of::<S671>(), align: align_of::<S671>(), fields: || vec![F("Alpha", D::U16, offset_of!(S671, f0)), F("Beta 2", D::U16, offset_of!(S671, f1)), F("Position3D", D::I64, offset_of!(S671, f2))] },
S { desc: "#[repr(packed(8), C)] struct { u16, f32, u8 }", layout: S672::layout, size: size_of::<S672>(), align: align_of::<S672>(), fields: || vec![F("Alpha", D::U16, offset_of!(S672, f0)), F("Beta 2", D::F32, offset_of!(S672, f1)), F("Position3D", D::U8, offset_of!(S672, f2))] },
S { desc: "#[repr(packed(8), C)] struct { u16, f32, u16 }", layout: S673::layout, size: size_of::<S673>(), align: align_of::<S673>(), fields: || vec![F("Alpha", D::U16, offset_of!(S673, f0)), F("Beta 2", D::F32, offset_of!(S673, f1)), F("Position3D", D::U16, offset_of!(S673, f2))] },
S { desc: "#[repr(packed(8), C)] struct { u16, f32, f32 }", layout: S674::layout, size: size_of::<S674>(), align: align_of::<S674>(), fields: || vec![F("Alpha", D::U16, offset_of!(S674, f0)), F("Beta 2", D::F32, offset_of!(S674, f1)), F("Position3D", D::F32, offset_of!(S674, f2))] },
S { desc: "#[repr(packed(8), C)] struct { u16, f32, i64 }", layout: S675::layout, size: size_of::<S675>(), align: align_of::<S675>(), fields: || vec![F("Alpha", D::U16, offset_of!(S675, f0)), F("Beta 2", D::F32, offset_of!(S675, f1)), F("Position3D", D::I64, offset_of!(S675, f2))] },
S { desc: "#[repr(packed(8), C)] struct { u16, i64, u8 }", layout: S676::layout, size: size_of::<S676>(), align: align_of::<S676>(), fields: || vec![F("Alpha", D::U16, offset_of!(S676, f0)), F("Beta 2", D::I64, offset_of!(S676, f1)), F("Position3D", D::U8, offset_of!(S676, f2))] },
S { desc: "#[repr(packed(8), C)] struct { u16, i64, u16 }", layout: S677::layout, size: size_of::<S677>(), align: align_of::<S677>(), fields: || vec![F("Alpha", D::U16, offset_of!(S677, f0)), F("Beta 2", D::I64, offset_of!(S677, f1)), F("Position3D", D::U16, offset_of!(S677, f2))] },
S { desc: "#[repr(packed(8), C)] struct { u16, i64, f32 }", layout: S678::layout, size: size_of::<S678>(), align: align_of::<S678>(), fields: || vec![F("Alpha", D::U16, offset_of!(S678, f0)), F("Beta 2", D::I64, offset_of!(S678, f1)), F("Position3D", D::F32, offset_of!(S678, f2))] },
S { desc: "#[repr(packed(8), C)] struct { u16, i64, i64 }", layout: S679::layout, size: size_of::<S679>(), align: align_of::<S679>(), fields: || vec![F("Alpha", D::U16, offset_of!(S679, f0)), F("Beta 2", D::I64, offset_of!(S679, f1)), F("Position3D", D::I64, offset_of!(S679, f2))] },
S { desc: "#[repr(packed(8), C)] struct { f32, u8, u8 }", layout: S680::layout, size: size_of::<S680>(), align: align_of::<S680>(), fields: || vec![F("Alpha", D::F32, offset_of!(S680, f0)), F("Beta 2", D::U8, offset_of!(S680, f1)), F("Position3D", D::U8, offset_of!(S680, f2))] },
S { desc: "#[repr(packed(8), C)] struct { f32, u8, u16 }", layout: S681::layout, size: size_of::<S681>(), align: align_of::<S681>(), fields: || vec![F("Alpha", D::F32, offset_of!(S681, f0)), F("Beta 2", D::U8, offset_of!(S681, f1)), F("Position3D", D::U16, offset_of!(S681, f2))] },
S { desc: "#[repr(packed(8), C)] struct { f32, u8, f32 }", layout: S682::layout, size: size_of::<S682>(), align: align_of::<S682>(), fields: || vec![F("Alpha", D::F32, offset_of!(S682, f0)), F("Beta 2", D::U8, offset_of!(S682, f1)), F("Position3D", D::F32, offset_of!(S682, f2))] },
S { desc: "#[repr(packed(8), C)] struct { f32, u8, i64 }", layout: S683::layout, size: size_of::<S683>(), align: align_of::<S683>(), fields: || vec![F("Alpha", D::F32, offset_of!(S683, f0)), F("Beta 2", D::U8, offset_of!(S683, f1)), F("Position3D", D::I64, offset_of!(S683, f2))] },
S { desc: "#[repr(packed(8), C)] struct { f32, u16, u8 }", layout: S684::layout, size: size_of::<S684>(), align: align_of::<S684>(), fields: || vec![F("Alpha", D::F32, offset_of!(S684, f0)), F("Beta 2", D::U16, offset_of!(S684, f1)), F("Position3D", D::U8, offset_of!(S684, f2))] },
S { desc: "#[repr(packed(8), C)] struct { f32, u16, u16 }", layout: S685::layout, size: size_of::<S685>(), align: align_of::<S685>(), fields: || vec![F("Alpha", D::F32, offset_of!(S685, f0)), F("Beta 2", D::U16, offset_of!(S685, f1)), F("Position3D", D::U16, offset_of!(S685, f2))] },
S { desc: "#[repr(packed(8), C)] struct { f32, u16, f32 }", layout: S686::layout, size: size_of::<S686>(), align: align_of::<S686>(), fields: || vec![F("Alpha", D::F32, offset_of!(S686, f0)), F("Beta 2", D::U16, offset_of!(S686, f1)), F("Position3D", D::F32, offset_of!(S686, f2))] },
S { desc: "#[repr(packed(8), C)] struct { f32, u16, i64 }", layout: S687::layout, size: size_of::<S687>(), align: align_of::<S687>(), fields: || vec![F("Alpha", D::F32, offset_of!(S687, f0)), F("Beta 2", D::U16, offset_of!(S687, f1)), F("Position3D", D::I64, offset_of!(S687, f2))] },
S { desc: "#[repr(packed(8), C)] struct { f32, f32, u8 }", layout: S688::layout, size: size_of::<S688>(), align: align_of::<S688>(), fields: || vec![F("Alpha", D::F32, offset_of!(S688, f0)), F("Beta 2", D::F32, offset_of!(S688, f1)), F("Position3D", D::U8, offset_of!(S688, f2))] },
S { desc: "#[repr(packed(8), C)] struct { f32, f32, u16 }", layout: S689::layout, size: size_of::<S689>(), align: align_of::<S689>(), fields: || vec![F("Alpha", D::F32, offset_of!(S689, f0)), F("Beta 2", D::F32, offset_of!(S689, f1)), F("Position3D", D::U16, offset_of!(S689, f2))] },
S { desc: "#[repr(packed(8), C)] struct { f32, f32, f32 }", layout: S690::layout, size: size_of::<S690>(), align: align_of::<S690>(), fields: || vec![F("Alpha", D::F32, offset_of!(S690, f0)), F("Beta 2", D::F32, offset_of!(S690, f1)), F("Position3D", D::F32, offset_of!(S690, f2))] },
S { desc: "#[repr(packed(8), C)] struct { f32, f32, i64 }", layout: S691::layout, size: size_of::<S691>(), align: align_of::<S691>(), fields: || vec![F("Alpha", D::F32, offset_of!(S691, f0)), F("Beta 2", D::F32, offset_of!(S691, f1)), F("Position3D", D::I64, offset_of!(S691, f2))] },
S { desc: "#[repr(packed(8), C)] struct { f32, i64, u8 }", layout: S692::layout, size: size_of::<S692>(), align: align_of::<S692>(), fields: || vec![F("Alpha", D::F32, offset_of!(S692, f0)), F("Beta 2", D::I64, offset_of!(S692, f1)), F("Position3D", D::U8, offset_of!(S692, f2))] },
S { desc: "#[repr(packed(8), C)] struct { f32, i64, u16 }", layout: S693::layout, size: size_of::<S693>(), align: align_of::<S693>(), fields: || vec![F("Alpha", D::F32, offset_of!(S693, f0)), F("Beta 2", D::I64, offset_of!(S693, f1)), F("Position3D", D::U16, offset_of!(S693, f2))] },
S { desc: "#[repr(packed(8), C)] struct { f32, i64, f32 }", layout: S694::layout, size: size_of::<S694>(), align: align_of::<S694>(), fields: || vec![F("Alpha", D::F32, offset_of!(S694, f0)), F("Beta 2", D::I64, offset_of!(S694, f1)), F("Position3D", D::F32, offset_of!(S694, f2))] },
S { desc: "#[repr(packed(8), C)] struct { f32, i64, i64 }", layout: S695::layout, size: size_of::<S695>(), align: align_of::<S695>(), fields: || vec![F("Alpha", D::F32, offset_of!(S695, f0)), F("Beta 2", D::I64, offset_of!(S695, f1)), F("Position3D", D::I64, offset_of!(S695, f2))] },
S { desc: "#[repr(packed(8), C)] struct { i64, u8, u8 }", layout: S696::layout, size: size_of::<S696>(), align: align_of::<S696>(), fields: || vec![F("Alpha", D::I64, offset_of!(S696, f0)), F("Beta 2", D::U8, offset_of!(S696, f1)), F("Position3D", D::U8, offset_of!(S696, f2))] },
S { desc: "#[repr(packed(8), C)] struct { i64, u8, u16 }", layout: S697::layout, size: size_of::<S697>(), align: align_of::<S697>(), fields: || vec![F("Alpha", D::I64, offset_of!(S697, f0)), F("Beta 2", D::U8, offset_of!(S697, f1)), F("Position3D", D::U16, offset_of!(S697, f2))] },
S { desc: "#[repr(packed(8), C)] struct { i64, u8, f32 }", layout: S698::layout, size: size_of::<S698>(), align: align_of::<S698>(), fields: || vec![F("Alpha", D::I64, offset_of!(S698, f0)), F("Beta 2", D::U8, offset_of!(S698, f1)), F("Position3D", D::F32, offset_of!(S698, f2))] },
S { desc: "#[repr(packed(8), C)] struct { i64, u8, i64 }", layout: S699::layout, size: size_of::<S699>(), align: align_of::<S699>(), fields: || vec![F("Alpha", D::I64, offset_of!(S699, f0)), F("Beta 2", D::U8, offset_of!(S699, f1)), F("Position3D", D::I64, offset_of!(S699, f2))] },
S { desc: "#[repr(packed(8), C)] struct { i64, u16, u8 }", layout: S700::layout, size: size_of::<S700>(), align: align_of::<S700>(), fields: || vec![F("Alpha", D::I64, offset_of!(S700, f0)), F("Beta 2", D::U16, offset_of!(S700, f1)), F("Position3D", D::U8, offset_of!(S700, f2))] },
S { desc: "#[repr(packed(8), C)] struct { i64, u16, u16 }", layout: S701::layout, size: size_of::<S701>(), align: align_of::<S701>(), fields: || vec![F("Alpha", D::I64, offset_of!(S701, f0)), F("Beta 2", D::U16, offset_of!(S701, f1)), F("Position3D", D::U16, offset_of!(S701, f2))] },
S { desc: "#[repr(packed(8), C)] struct { i64, u16, f32 }", layout: S702::layout, size: size_of::<S702>(), align: align_of::<S702>(), fields: || vec![F("Alpha", D::I64, offset_of!(S702, f0)), F("Beta 2", D::U16, offset_of!(S702, f1)), F("Position3D", D::F32, offset_of!(S702, f2))] },
S { desc: "#[repr(packed(8), C)] struct { i64, u16, i64 }", layout: S703::layout, size: size_of::<S703>(), align: align_of::<S703>(), fields: || vec![F("Alpha", D::I64, offset_of!(S703, f0)), F("Beta 2", D::U16, offset_of!(S703, f1)), F("Position3D", D::I64, offset_of!(S703, f2))] },
S { desc: "#[repr(packed(8), C)] struct { i64, f32, u8 }", layout: S704::layout, size: size_of::<S704>(), align: align_of::<S704>(), fields: || vec![F("Alpha", D::I64, offset_of!(S704, f0)), F("Beta 2", D::F32, offset_of!(S704, f1)), F("Position3D", D::U8, offset_of!(S704, f2))] },
S { desc: "#[repr(packed(8), C)] struct { i64, f32, u16 }", layout: S705::layout, size: size_of::<S705>(), align: align_of::<S705>(), fields: || vec![F("Alpha", D::I64, offset_of!(S705, f0)), F("Beta 2", D::F32, offset_of!(S705, f1)), F("Position3D", D::U16, offset_of!(S705, f2))] },
S { desc: "#[repr(packed(8), C)] struct { i64, f32, f32 }", layout: S706::layout, size: size_of::<S706>(), align: align_of::<S706>(), fields: || vec![F("Alpha", D::I64, offset_of!(S706, f0)), F("Beta 2", D::F32, offset_of!(S706, f1)), F("Position3D", D::F32, offset_of!(S706, f2))] },
S { desc: "#[repr(packed(8), C)] struct { i64, f32, i64 }", layout: S707::layout, size: size_of::<S707>(), align: align_of::<S707>(), fields: || vec![F("Alpha", D::I64, offset_of!(S707, f0)), F("Beta 2", D::F32, offset_of!(S707, f1)), F("Position3D", D::I64, offset_of!(S707, f2))] },
S { desc: "#[repr(packed(8), C)] struct { i64, i64, u8 }", layout: S708::layout, size: size_of::<S708>(), align: align_of::<S708>(), fields: || vec![F("Alpha", D::I64, offset_of!(S708, f0)), F("Beta 2", D::I64, offset_of!(S708, f1)), F("Position3D", D::U8, offset_of!(S708, f2))] },
S { desc: "#[repr(packed(8), C)] struct { i64, i64, u16 }", layout: S709::layout, size: size_of::<S709>(), align: align_of::<S709>(), fields: || vec![F("Alpha", D::I64, offset_of!(S709, f0)), F("Beta 2", D::I64, offset_of!(S709, f1)), F("Position3D", D::U16, offset_of!(S709, f2))] },
S { desc: "#[repr(packed(8), C)] struct { i64, i64, f32 }", layout: S710::layout, size: size_of::<S710>(), align: align_of::<S710>(), fields: || vec![F("Alpha", D::I64, offset_of!(S710, f0)), F("Beta 2", D::I64, offset_of!(S710, f1)), F("Position3D", D::F32, offset_of!(S710, f2))] },
S { desc: "#[repr(packed(8), C)] struct { i64, i64, i64 }", layout: S711::layout, size: size_of::<S711>(), align: align_of::<S711>(), fields: || vec![F("Alpha", D::I64, offset_of!(S711, f0)), F("Beta 2", D::I64, offset_of!(S711, f1)), F("Position3D", D::I64, offset_of!(S711, f2))] },
S { desc: "#[repr(C)] struct { u8, Vector3<f64>, u16, u8 }", layout: S712::layout, size: size_of::<S712>(), align: align_of::<S712>(), fields: || vec![F("Alpha", D::U8, offset_of!(S712, f0)), F("Beta 2", D::Vec3f64, offset_of!(S712, f1)), F("Position3D", D::U16, offset_of!(S712, f2)), F("Δ", D::U8, offset_of!(S712, f3))] },
S { desc: "#[repr(C)] struct { u8, u16, u32, u64 }", layout: S713::layout, size: size_of::<S713>(), align: align_of::<S713>(), fields: || vec![F("Alpha", D::U8, offset_of!(S713, f0)), F("Beta 2", D::U16, offset_of!(S713, f1)), F("Position3D", D::U32, offset_of!(S713, f2)), F("Δ", D::U64, offset_of!(S713, f3))] },
S { desc: "#[repr(C)] struct { f64, f32, u16, u8 }", layout: S714::layout, size: size_of::<S714>(), align: align_of::<S714>(), fields: || vec![F("Alpha", D::F64, offset_of!(S714, f0)), F("Beta 2", D::F32, offset_of!(S714, f1)), F("Position3D", D::U16, offset_of!(S714, f2)), F("Δ", D::U8, offset_of!(S714, f3))] },
S { desc: "#[repr(C)] struct { Vector4<u8>, i64, Vector3<u16>, i32 }", layout: S715::layout, size: size_of::<S715>(), align: align_of::<S715>(), fields: || vec![F("Alpha", D::Vec4u8, offset_of!(S715, f0)), F("Beta 2", D::I64, offset_of!(S715, f1)), F("Position3D", D::Vec3u16, offset_of!(S715, f2)), F("Δ", D::I32, offset_of!(S715, f3))] },
S { desc: "#[repr(C, packed)] struct { u8, Vector3<f64>, u16, u8 }", layout: S716::layout, size: size_of::<S716>(), align: align_of::<S716>(), fields: || vec![F("Alpha", D::U8, offset_of!(S716, f0)), F("Beta 2", D::Vec3f64, offset_of!(S716, f1)), F("Position3D", D::U16, offset_of!(S716, f2)), F("Δ", D::U8, offset_of!(S716, f3))] },
S { desc: "#[repr(C, packed)] struct { u8, u16, u32, u64 }", layout: S717::layout, size: size_of::<S717>(), align: align_of::<S717>(), fields: || vec![F("Alpha", D::U8, offset_of!(S717, f0)), F("Beta 2", D::U16, offset_of!(S717, f1)), F("Position3D", D::U32, offset_of!(S717, f2)), F("Δ", D::U64, offset_of!(S717, f3))] },
S { desc: "#[repr(C, packed)] struct { f64, f32, u16, u8 }", layout: S718::layout, size: size_of::<S718>(), align: align_of::<S718>(), fields: || vec![F("Alpha", D::F64, offset_of!(S718, f0)), F("Beta 2", D::F32, offset_of!(S718, f1)), F("Position3D", D::U16, offset_of!(S718, f2)), F("Δ", D::U8, offset_of!(S718, f3))] },
S { desc: "#[repr(C, packed)] struct { Vector4<u8>, i64, Vector3<u16>, i32 }", layout: S719::layout, size: size_of::<S719>(), align: align_of::<S719>(), fields: || vec![F("Alpha", D::Vec4u8, offset_of!(S719, f0)), F("Beta 2", D::I64, offset_of!(S719, f1)), F("Position3D", D::Vec3u16, offset_of!(S719, f2)), F("Δ", D::I32, offset_of!(S719, f3))] },
S { desc: "#[repr(C, packed(2))] struct { u8, Vector3<f64>, u16, u8 }", layout: S720::layout, size: size_of::<S720>(), align: align_of::<S720>(), fields: || vec![F("Alpha", D::U8, offset_of!(S720, f0)), F("Beta 2", D::Vec3f64, offset_of!(S720, f1)), F("Position3D", D::U16, offset_of!(S720, f2)), F("Δ", D::U8, offset_of!(S720, f3))] },
S { desc: "#[repr(C, packed(2))] struct { u8, u16, u32, u64 }", layout: S721::layout, size: size_of::<S721>(), align: align_of::<S721>(), fields: || vec![F("Alpha", D::U8, offset_of!(S721, f0)), F("Beta 2", D::U16, offset_of!(S721, f1)), F("Position3D", D::U32, offset_of!(S721, f2)), F("Δ", D::U64, offset_of!(S721, f3))] },
S { desc: "#[repr(C, packed(2))] struct { f64, f32, u16, u8 }", layout: S722::layout, size: size_of::<S722>(), align: align_of::<S722>(), fields: || vec![F("Alpha", D::F64, offset_of!(S722, f0)), F("Beta 2", D::F32, offset_of!(S722, f1)), F("Position3D", D::U16, offset_of!(S722, f2)), F("Δ", D::U8, offset_of!(S722, f3))] },
S { desc: "#[repr(C, packed(2))] struct { Vector4<u8>, i64, Vector3<u16>, i32 }", layout: S723::layout, size: size_of::<S723>(), align: align_of::<S723>(), fields: || vec![F("Alpha", D::Vec4u8, offset_of!(S723, f0)), F("Beta 2", D::I64, offset_of!(S723, f1)), F("Position3D", D::Vec3u16, offset_of!(S723, f2)), F("Δ", D::I32, offset_of!(S723, f3))] },
S { desc: "#[repr(C)] struct { Vector3<f64>, u8 }", layout: S724::layout, size: size_of::<S724>(), align: align_of::<S724>(), fields: || vec![F(at::POSITION_3D.name(), D::Vec3f64, offset_of!(S724, f0)), F("Other", D::U8, offset_of!(S724, f1))] },
S { desc: "#[repr(C, packed)] struct { u8, Vector3<f64> }", layout: S725::layout, size: size_of::<S725>(), align: align_of::<S725>(), fields: || vec![F("Other", D::U8, offset_of!(S725, f0)), F(at::POSITION_3D.name(), D::Vec3f64, offset_of!(S725, f1))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { u8 }", layout: S726::layout, size: size_of::<S726>(), align: align_of::<S726>(), fields: || vec![F(at::POSITION_3D.name(), D::U8, offset_of!(S726, f0))] },
S { desc: "#[repr(C)] struct { u16, u8 }", layout: S727::layout, size: size_of::<S727>(), align: align_of::<S727>(), fields: || vec![F(at::INTENSITY.name(), D::U16, offset_of!(S727, f0)), F("Other", D::U8, offset_of!(S727, f1))] },
S { desc: "#[repr(C, packed)] struct { u8, u16 }", layout: S728::layout, size: size_of::<S728>(), align: align_of::<S728>(), fields: || vec![F("Other", D::U8, offset_of!(S728, f0)), F(at::INTENSITY.name(), D::U16, offset_of!(S728, f1))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { u8 }", layout: S729::layout, size: size_of::<S729>(), align: align_of::<S729>(), fields: || vec![F(at::INTENSITY.name(), D::U8, offset_of!(S729, f0))] },
S { desc: "#[repr(C)] struct { u8, u8 }", layout: S730::layout, size: size_of::<S730>(), align: align_of::<S730>(), fields: || vec![F(at::RETURN_NUMBER.name(), D::U8, offset_of!(S730, f0)), F("Other", D::U8, offset_of!(S730, f1))] },
S { desc: "#[repr(C, packed)] struct { u8, u8 }", layout: S731::layout, size: size_of::<S731>(), align: align_of::<S731>(), fields: || vec![F("Other", D::U8, offset_of!(S731, f0)), F(at::RETURN_NUMBER.name(), D::U8, offset_of!(S731, f1))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { u16 }", layout: S732::layout, size: size_of::<S732>(), align: align_of::<S732>(), fields: || vec![F(at::RETURN_NUMBER.name(), D::U16, offset_of!(S732, f0))] },
S { desc: "#[repr(C)] struct { u8, u8 }", layout: S733::layout, size: size_of::<S733>(), align: align_of::<S733>(), fields: || vec![F(at::NUMBER_OF_RETURNS.name(), D::U8, offset_of!(S733, f0)), F("Other", D::U8, offset_of!(S733, f1))] },
S { desc: "#[repr(C, packed)] struct { u8, u8 }", layout: S734::layout, size: size_of::<S734>(), align: align_of::<S734>(), fields: || vec![F("Other", D::U8, offset_of!(S734, f0)), F(at::NUMBER_OF_RETURNS.name(), D::U8, offset_of!(S734, f1))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { u16 }", layout: S735::layout, size: size_of::<S735>(), align: align_of::<S735>(), fields: || vec![F(at::NUMBER_OF_RETURNS.name(), D::U16, offset_of!(S735, f0))] },
S { desc: "#[repr(C)] struct { u8, u8 }", layout: S736::layout, size: size_of::<S736>(), align: align_of::<S736>(), fields: || vec![F(at::CLASSIFICATION_FLAGS.name(), D::U8, offset_of!(S736, f0)), F("Other", D::U8, offset_of!(S736, f1))] },
S { desc: "#[repr(C, packed)] struct { u8, u8 }", layout: S737::layout, size: size_of::<S737>(), align: align_of::<S737>(), fields: || vec![F("Other", D::U8, offset_of!(S737, f0)), F(at::CLASSIFICATION_FLAGS.name(), D::U8, offset_of!(S737, f1))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { u16 }", layout: S738::layout, size: size_of::<S738>(), align: align_of::<S738>(), fields: || vec![F(at::CLASSIFICATION_FLAGS.name(), D::U16, offset_of!(S738, f0))] },
S { desc: "#[repr(C)] struct { u8, u8 }", layout: S739::layout, size: size_of::<S739>(), align: align_of::<S739>(), fields: || vec![F(at::SCANNER_CHANNEL.name(), D::U8, offset_of!(S739, f0)), F("Other", D::U8, offset_of!(S739, f1))] },
S { desc: "#[repr(C, packed)] struct { u8, u8 }", layout: S740::layout, size: size_of::<S740>(), align: align_of::<S740>(), fields: || vec![F("Other", D::U8, offset_of!(S740, f0)), F(at::SCANNER_CHANNEL.name(), D::U8, offset_of!(S740, f1))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { u16 }", layout: S741::layout, size: size_of::<S741>(), align: align_of::<S741>(), fields: || vec![F(at::SCANNER_CHANNEL.name(), D::U16, offset_of!(S741, f0))] },
S { desc: "#[repr(C)] struct { u8, u8 }", layout: S742::layout, size: size_of::<S742>(), align: align_of::<S742>(), fields: || vec![F(at::SCAN_DIRECTION_FLAG.name(), D::U8, offset_of!(S742, f0)), F("Other", D::U8, offset_of!(S742, f1))] },
S { desc: "#[repr(C, packed)] struct { u8, u8 }", layout: S743::layout, size: size_of::<S743>(), align: align_of::<S743>(), fields: || vec![F("Other", D::U8, offset_of!(S743, f0)), F(at::SCAN_DIRECTION_FLAG.name(), D::U8, offset_of!(S743, f1))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { u16 }", layout: S744::layout, size: size_of::<S744>(), align: align_of::<S744>(), fields: || vec![F(at::SCAN_DIRECTION_FLAG.name(), D::U16, offset_of!(S744, f0))] },
S { desc: "#[repr(C)] struct { u8, u8 }", layout: S745::layout, size: size_of::<S745>(), align: align_of::<S745>(), fields: || vec![F(at::EDGE_OF_FLIGHT_LINE.name(), D::U8, offset_of!(S745, f0)), F("Other", D::U8, offset_of!(S745, f1))] },
S { desc: "#[repr(C, packed)] struct { u8, u8 }", layout: S746::layout, size: size_of::<S746>(), align: align_of::<S746>(), fields: || vec![F("Other", D::U8, offset_of!(S746, f0)), F(at::EDGE_OF_FLIGHT_LINE.name(), D::U8, offset_of!(S746, f1))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { u16 }", layout: S747::layout, size: size_of::<S747>(), align: align_of::<S747>(), fields: || vec![F(at::EDGE_OF_FLIGHT_LINE.name(), D::U16, offset_of!(S747, f0))] },
S { desc: "#[repr(C)] struct { u8, u8 }", layout: S748::layout, size: size_of::<S748>(), align: align_of::<S748>(), fields: || vec![F(at::CLASSIFICATION.name(), D::U8, offset_of!(S748, f0)), F("Other", D::U8, offset_of!(S748, f1))] },
S { desc: "#[repr(C, packed)] struct { u8, u8 }", layout: S749::layout, size: size_of::<S749>(), align: align_of::<S749>(), fields: || vec![F("Other", D::U8, offset_of!(S749, f0)), F(at::CLASSIFICATION.name(), D::U8, offset_of!(S749, f1))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { u16 }", layout: S750::layout, size: size_of::<S750>(), align: align_of::<S750>(), fields: || vec![F(at::CLASSIFICATION.name(), D::U16, offset_of!(S750, f0))] },
S { desc: "#[repr(C)] struct { i8, u8 }", layout: S751::layout, size: size_of::<S751>(), align: align_of::<S751>(), fields: || vec![F(at::SCAN_ANGLE_RANK.name(), D::I8, offset_of!(S751, f0)), F("Other", D::U8, offset_of!(S751, f1))] },
S { desc: "#[repr(C, packed)] struct { u8, i8 }", layout: S752::layout, size: size_of::<S752>(), align: align_of::<S752>(), fields: || vec![F("Other", D::U8, offset_of!(S752, f0)), F(at::SCAN_ANGLE_RANK.name(), D::I8, offset_of!(S752, f1))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { u8 }", layout: S753::layout, size: size_of::<S753>(), align: align_of::<S753>(), fields: || vec![F(at::SCAN_ANGLE_RANK.name(), D::U8, offset_of!(S753, f0))] },
S { desc: "#[repr(C)] struct { i16, u8 }", layout: S754::layout, size: size_of::<S754>(), align: align_of::<S754>(), fields: || vec![F(at::SCAN_ANGLE.name(), D::I16, offset_of!(S754, f0)), F("Other", D::U8, offset_of!(S754, f1))] },
S { desc: "#[repr(C, packed)] struct { u8, i16 }", layout: S755::layout, size: size_of::<S755>(), align: align_of::<S755>(), fields: || vec![F("Other", D::U8, offset_of!(S755, f0)), F(at::SCAN_ANGLE.name(), D::I16, offset_of!(S755, f1))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { u8 }", layout: S756::layout, size: size_of::<S756>(), align: align_of::<S756>(), fields: || vec![F(at::SCAN_ANGLE.name(), D::U8, offset_of!(S756, f0))] },
S { desc: "#[repr(C)] struct { u8, u8 }", layout: S757::layout, size: size_of::<S757>(), align: align_of::<S757>(), fields: || vec![F(at::USER_DATA.name(), D::U8, offset_of!(S757, f0)), F("Other", D::U8, offset_of!(S757, f1))] },
S { desc: "#[repr(C, packed)] struct { u8, u8 }", layout: S758::layout, size: size_of::<S758>(), align: align_of::<S758>(), fields: || vec![F("Other", D::U8, offset_of!(S758, f0)), F(at::USER_DATA.name(), D::U8, offset_of!(S758, f1))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { u16 }", layout: S759::layout, size: size_of::<S759>(), align: align_of::<S759>(), fields: || vec![F(at::USER_DATA.name(), D::U16, offset_of!(S759, f0))] },
S { desc: "#[repr(C)] struct { u16, u8 }", layout: S760::layout, size: size_of::<S760>(), align: align_of::<S760>(), fields: || vec![F(at::POINT_SOURCE_ID.name(), D::U16, offset_of!(S760, f0)), F("Other", D::U8, offset_of!(S760, f1))] },
S { desc: "#[repr(C, packed)] struct { u8, u16 }", layout: S761::layout, size: size_of::<S761>(), align: align_of::<S761>(), fields: || vec![F("Other", D::U8, offset_of!(S761, f0)), F(at::POINT_SOURCE_ID.name(), D::U16, offset_of!(S761, f1))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { u8 }", layout: S762::layout, size: size_of::<S762>(), align: align_of::<S762>(), fields: || vec![F(at::POINT_SOURCE_ID.name(), D::U8, offset_of!(S762, f0))] },
S { desc: "#[repr(C)] struct { Vector3<u16>, u8 }", layout: S763::layout, size: size_of::<S763>(), align: align_of::<S763>(), fields: || vec![F(at::COLOR_RGB.name(), D::Vec3u16, offset_of!(S763, f0)), F("Other", D::U8, offset_of!(S763, f1))] },
S { desc: "#[repr(C, packed)] struct { u8, Vector3<u16> }", layout: S764::layout, size: size_of::<S764>(), align: align_of::<S764>(), fields: || vec![F("Other", D::U8, offset_of!(S764, f0)), F(at::COLOR_RGB.name(), D::Vec3u16, offset_of!(S764, f1))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { u8 }", layout: S765::layout, size: size_of::<S765>(), align: align_of::<S765>(), fields: || vec![F(at::COLOR_RGB.name(), D::U8, offset_of!(S765, f0))] },
S { desc: "#[repr(C)] struct { f64, u8 }", layout: S766::layout, size: size_of::<S766>(), align: align_of::<S766>(), fields: || vec![F(at::GPS_TIME.name(), D::F64, offset_of!(S766, f0)), F("Other", D::U8, offset_of!(S766, f1))] },
S { desc: "#[repr(C, packed)] struct { u8, f64 }", layout: S767::layout, size: size_of::<S767>(), align: align_of::<S767>(), fields: || vec![F("Other", D::U8, offset_of!(S767, f0)), F(at::GPS_TIME.name(), D::F64, offset_of!(S767, f1))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { u8 }", layout: S768::layout, size: size_of::<S768>(), align: align_of::<S768>(), fields: || vec![F(at::GPS_TIME.name(), D::U8, offset_of!(S768, f0))] },
S { desc: "#[repr(C)] struct { u16, u8 }", layout: S769::layout, size: size_of::<S769>(), align: align_of::<S769>(), fields: || vec![F(at::NIR.name(), D::U16, offset_of!(S769, f0)), F("Other", D::U8, offset_of!(S769, f1))] },
S { desc: "#[repr(C, packed)] struct { u8, u16 }", layout: S770::layout, size: size_of::<S770>(), align: align_of::<S770>(), fields: || vec![F("Other", D::U8, offset_of!(S770, f0)), F(at::NIR.name(), D::U16, offset_of!(S770, f1))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { u8 }", layout: S771::layout, size: size_of::<S771>(), align: align_of::<S771>(), fields: || vec![F(at::NIR.name(), D::U8, offset_of!(S771, f0))] },
S { desc: "#[repr(C)] struct { u8, u8 }", layout: S772::layout, size: size_of::<S772>(), align: align_of::<S772>(), fields: || vec![F(at::WAVE_PACKET_DESCRIPTOR_INDEX.name(), D::U8, offset_of!(S772, f0)), F("Other", D::U8, offset_of!(S772, f1))] },
S { desc: "#[repr(C, packed)] struct { u8, u8 }", layout: S773::layout, size: size_of::<S773>(), align: align_of::<S773>(), fields: || vec![F("Other", D::U8, offset_of!(S773, f0)), F(at::WAVE_PACKET_DESCRIPTOR_INDEX.name(), D::U8, offset_of!(S773, f1))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { u16 }", layout: S774::layout, size: size_of::<S774>(), align: align_of::<S774>(), fields: || vec![F(at::WAVE_PACKET_DESCRIPTOR_INDEX.name(), D::U16, offset_of!(S774, f0))] },
S { desc: "#[repr(C)] struct { u64, u8 }", layout: S775::layout, size: size_of::<S775>(), align: align_of::<S775>(), fields: || vec![F(at::WAVEFORM_DATA_OFFSET.name(), D::U64, offset_of!(S775, f0)), F("Other", D::U8, offset_of!(S775, f1))] },
S { desc: "#[repr(C, packed)] struct { u8, u64 }", layout: S776::layout, size: size_of::<S776>(), align: align_of::<S776>(), fields: || vec![F("Other", D::U8, offset_of!(S776, f0)), F(at::WAVEFORM_DATA_OFFSET.name(), D::U64, offset_of!(S776, f1))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { u8 }", layout: S777::layout, size: size_of::<S777>(), align: align_of::<S777>(), fields: || vec![F(at::WAVEFORM_DATA_OFFSET.name(), D::U8, offset_of!(S777, f0))] },
S { desc: "#[repr(C)] struct { u32, u8 }", layout: S778::layout, size: size_of::<S778>(), align: align_of::<S778>(), fields: || vec![F(at::WAVEFORM_PACKET_SIZE.name(), D::U32, offset_of!(S778, f0)), F("Other", D::U8, offset_of!(S778, f1))] },
S { desc: "#[repr(C, packed)] struct { u8, u32 }", layout: S779::layout, size: size_of::<S779>(), align: align_of::<S779>(), fields: || vec![F("Other", D::U8, offset_of!(S779, f0)), F(at::WAVEFORM_PACKET_SIZE.name(), D::U32, offset_of!(S779, f1))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { u8 }", layout: S780::layout, size: size_of::<S780>(), align: align_of::<S780>(), fields: || vec![F(at::WAVEFORM_PACKET_SIZE.name(), D::U8, offset_of!(S780, f0))] },
S { desc: "#[repr(C)] struct { f32, u8 }", layout: S781::layout, size: size_of::<S781>(), align: align_of::<S781>(), fields: || vec![F(at::RETURN_POINT_WAVEFORM_LOCATION.name(), D::F32, offset_of!(S781, f0)), F("Other", D::U8, offset_of!(S781, f1))] },
S { desc: "#[repr(C, packed)] struct { u8, f32 }", layout: S782::layout, size: size_of::<S782>(), align: align_of::<S782>(), fields: || vec![F("Other", D::U8, offset_of!(S782, f0)), F(at::RETURN_POINT_WAVEFORM_LOCATION.name(), D::F32, offset_of!(S782, f1))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { u8 }", layout: S783::layout, size: size_of::<S783>(), align: align_of::<S783>(), fields: || vec![F(at::RETURN_POINT_WAVEFORM_LOCATION.name(), D::U8, offset_of!(S783, f0))] },
S { desc: "#[repr(C)] struct { Vector3<f32>, u8 }", layout: S784::layout, size: size_of::<S784>(), align: align_of::<S784>(), fields: || vec![F(at::WAVEFORM_PARAMETERS.name(), D::Vec3f32, offset_of!(S784, f0)), F("Other", D::U8, offset_of!(S784, f1))] },
S { desc: "#[repr(C, packed)] struct { u8, Vector3<f32> }", layout: S785::layout, size: size_of::<S785>(), align: align_of::<S785>(), fields: || vec![F("Other", D::U8, offset_of!(S785, f0)), F(at::WAVEFORM_PARAMETERS.name(), D::Vec3f32, offset_of!(S785, f1))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { u8 }", layout: S786::layout, size: size_of::<S786>(), align: align_of::<S786>(), fields: || vec![F(at::WAVEFORM_PARAMETERS.name(), D::U8, offset_of!(S786, f0))] },
S { desc: "#[repr(C)] struct { u64, u8 }", layout: S787::layout, size: size_of::<S787>(), align: align_of::<S787>(), fields: || vec![F(at::POINT_ID.name(), D::U64, offset_of!(S787, f0)), F("Other", D::U8, offset_of!(S787, f1))] },
S { desc: "#[repr(C, packed)] struct { u8, u64 }", layout: S788::layout, size: size_of::<S788>(), align: align_of::<S788>(), fields: || vec![F("Other", D::U8, offset_of!(S788, f0)), F(at::POINT_ID.name(), D::U64, offset_of!(S788, f1))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { u8 }", layout: S789::layout, size: size_of::<S789>(), align: align_of::<S789>(), fields: || vec![F(at::POINT_ID.name(), D::U8, offset_of!(S789, f0))] },
S { desc: "#[repr(C)] struct { Vector3<f32>, u8 }", layout: S790::layout, size: size_of::<S790>(), align: align_of::<S790>(), fields: || vec![F(at::NORMAL.name(), D::Vec3f32, offset_of!(S790, f0)), F("Other", D::U8, offset_of!(S790, f1))] },
S { desc: "#[repr(C, packed)] struct { u8, Vector3<f32> }", layout: S791::layout, size: size_of::<S791>(), align: align_of::<S791>(), fields: || vec![F("Other", D::U8, offset_of!(S791, f0)), F(at::NORMAL.name(), D::Vec3f32, offset_of!(S791, f1))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct { u8 }", layout: S792::layout, size: size_of::<S792>(), align: align_of::<S792>(), fields: || vec![F(at::NORMAL.name(), D::U8, offset_of!(S792, f0))] },
S { desc: "#[repr(C)] #[repr(packed)] struct { u8 }", layout: S793::layout, size: size_of::<S793>(), align: align_of::<S793>(), fields: || vec![F("Alpha", D::U8, offset_of!(S793, f0))] },
S { desc: "#[repr(C)] #[repr(packed)] struct { u8, u16 }", layout: S794::layout, size: size_of::<S794>(), align: align_of::<S794>(), fields: || vec![F("Alpha", D::U8, offset_of!(S794, f0)), F("Beta 2", D::U16, offset_of!(S794, f1))] },
S { desc: "#[repr(C)] #[repr(packed)] struct { u8, f64 }", layout: S795::layout, size: size_of::<S795>(), align: align_of::<S795>(), fields: || vec![F("Alpha", D::U8, offset_of!(S795, f0)), F("Beta 2", D::F64, offset_of!(S795, f1))] },
S { desc: "#[repr(C)] #[repr(packed)] struct { u16, u8, f32 }", layout: S796::layout, size: size_of::<S796>(), align: align_of::<S796>(), fields: || vec![F("Alpha", D::U16, offset_of!(S796, f0)), F("Beta 2", D::U8, offset_of!(S796, f1)), F("Position3D", D::F32, offset_of!(S796, f2))] },
S { desc: "#[repr(C)] #[repr(packed)] struct { Vector3<u8>, Vector3<f64>, u8 }", layout: S797::layout, size: size_of::<S797>(), align: align_of::<S797>(), fields: || vec![F("Alpha", D::Vec3u8, offset_of!(S797, f0)), F("Beta 2", D::Vec3f64, offset_of!(S797, f1)), F("Position3D", D::U8, offset_of!(S797, f2))] },
S { desc: "#[repr(C)] #[repr(packed)] struct { u8, i64, u8, u32 }", layout: S798::layout, size: size_of::<S798>(), align: align_of::<S798>(), fields: || vec![F("Alpha", D::U8, offset_of!(S798, f0)), F("Beta 2", D::I64, offset_of!(S798, f1)), F("Position3D", D::U8, offset_of!(S798, f2)), F("Δ", D::U32, offset_of!(S798, f3))] },
S { desc: "#[repr(packed)] struct { u8 }", layout: S799::layout, size: size_of::<S799>(), align: align_of::<S799>(), fields: || vec![F("Alpha", D::U8, offset_of!(S799, f0))] },
S { desc: "#[repr(packed)] struct { u8, u16 }", layout: S800::layout, size: size_of::<S800>(), align: align_of::<S800>(), fields: || vec![F("Alpha", D::U8, offset_of!(S800, f0)), F("Beta 2", D::U16, offset_of!(S800, f1))] },
S { desc: "#[repr(packed)] struct { u8, f64 }", layout: S801::layout, size: size_of::<S801>(), align: align_of::<S801>(), fields: || vec![F("Alpha", D::U8, offset_of!(S801, f0)), F("Beta 2", D::F64, offset_of!(S801, f1))] },
S { desc: "#[repr(packed)] struct { u16, u8, f32 }", layout: S802::layout, size: size_of::<S802>(), align: align_of::<S802>(), fields: || vec![F("Alpha", D::U16, offset_of!(S802, f0)), F("Beta 2", D::U8, offset_of!(S802, f1)), F("Position3D", D::F32, offset_of!(S802, f2))] },
S { desc: "#[repr(packed)] struct { Vector3<u8>, Vector3<f64>, u8 }", layout: S803::layout, size: size_of::<S803>(), align: align_of::<S803>(), fields: || vec![F("Alpha", D::Vec3u8, offset_of!(S803, f0)), F("Beta 2", D::Vec3f64, offset_of!(S803, f1)), F("Position3D", D::U8, offset_of!(S803, f2))] },
S { desc: "#[repr(packed)] struct { u8, i64, u8, u32 }", layout: S804::layout, size: size_of::<S804>(), align: align_of::<S804>(), fields: || vec![F("Alpha", D::U8, offset_of!(S804, f0)), F("Beta 2", D::I64, offset_of!(S804, f1)), F("Position3D", D::U8, offset_of!(S804, f2)), F("Δ", D::U32, offset_of!(S804, f3))] },
S { desc: "#[repr(packed(2))] struct { u8 }", layout: S805::layout, size: size_of::<S805>(), align: align_of::<S805>(), fields: || vec![F("Alpha", D::U8, offset_of!(S805, f0))] },
S { desc: "#[repr(packed(2))] struct { u8, u16 }", layout: S806::layout, size: size_of::<S806>(), align: align_of::<S806>(), fields: || vec![F("Alpha", D::U8, offset_of!(S806, f0)), F("Beta 2", D::U16, offset_of!(S806, f1))] },
S { desc: "#[repr(packed(2))] struct { u8, f64 }", layout: S807::layout, size: size_of::<S807>(), align: align_of::<S807>(), fields: || vec![F("Alpha", D::U8, offset_of!(S807, f0)), F("Beta 2", D::F64, offset_of!(S807, f1))] },
S { desc: "#[repr(packed(2))] struct { u16, u8, f32 }", layout: S808::layout, size: size_of::<S808>(), align: align_of::<S808>(), fields: || vec![F("Alpha", D::U16, offset_of!(S808, f0)), F("Beta 2", D::U8, offset_of!(S808, f1)), F("Position3D", D::F32, offset_of!(S808, f2))] },
S { desc: "#[repr(packed(2))] struct { Vector3<u8>, Vector3<f64>, u8 }", layout: S809::layout, size: size_of::<S809>(), align: align_of::<S809>(), fields: || vec![F("Alpha", D::Vec3u8, offset_of!(S809, f0)), F("Beta 2", D::Vec3f64, offset_of!(S809, f1)), F("Position3D", D::U8, offset_of!(S809, f2))] },
S { desc: "#[repr(packed(2))] struct { u8, i64, u8, u32 }", layout: S810::layout, size: size_of::<S810>(), align: align_of::<S810>(), fields: || vec![F("Alpha", D::U8, offset_of!(S810, f0)), F("Beta 2", D::I64, offset_of!(S810, f1)), F("Position3D", D::U8, offset_of!(S810, f2)), F("Δ", D::U32, offset_of!(S810, f3))] },
S { desc: "#[repr(C)] #[repr(packed(4))] struct { u8 }", layout: S811::layout, size: size_of::<S811>(), align: align_of::<S811>(), fields: || vec![F("Alpha", D::U8, offset_of!(S811, f0))] },
S { desc: "#[repr(C)] #[repr(packed(4))] struct { u8, u16 }", layout: S812::layout, size: size_of::<S812>(), align: align_of::<S812>(), fields: || vec![F("Alpha", D::U8, offset_of!(S812, f0)), F("Beta 2", D::U16, offset_of!(S812, f1))] },
S { desc: "#[repr(C)] #[repr(packed(4))] struct { u8, f64 }", layout: S813::layout, size: size_of::<S813>(), align: align_of::<S813>(), fields: || vec![F("Alpha", D::U8, offset_of!(S813, f0)), F("Beta 2", D::F64, offset_of!(S813, f1))] },
S { desc: "#[repr(C)] #[repr(packed(4))] struct { u16, u8, f32 }", layout: S814::layout, size: size_of::<S814>(), align: align_of::<S814>(), fields: || vec![F("Alpha", D::U16, offset_of!(S814, f0)), F("Beta 2", D::U8, offset_of!(S814, f1)), F("Position3D", D::F32, offset_of!(S814, f2))] },
S { desc: "#[repr(C)] #[repr(packed(4))] struct { Vector3<u8>, Vector3<f64>, u8 }", layout: S815::layout, size: size_of::<S815>(), align: align_of::<S815>(), fields: || vec![F("Alpha", D::Vec3u8, offset_of!(S815, f0)), F("Beta 2", D::Vec3f64, offset_of!(S815, f1)), F("Position3D", D::U8, offset_of!(S815, f2))] },
S { desc: "#[repr(C)] #[repr(packed(4))] struct { u8, i64, u8, u32 }", layout: S816::layout, size: size_of::<S816>(), align: align_of::<S816>(), fields: || vec![F("Alpha", D::U8, offset_of!(S816, f0)), F("Beta 2", D::I64, offset_of!(S816, f1)), F("Position3D", D::U8, offset_of!(S816, f2)), F("Δ", D::U32, offset_of!(S816, f3))] },
S { desc: "#[repr(packed(1), C)] struct { u8 }", layout: S817::layout, size: size_of::<S817>(), align: align_of::<S817>(), fields: || vec![F("Alpha", D::U8, offset_of!(S817, f0))] },
S { desc: "#[repr(packed(1), C)] struct { u8, u16 }", layout: S818::layout, size: size_of::<S818>(), align: align_of::<S818>(), fields: || vec![F("Alpha", D::U8, offset_of!(S818, f0)), F("Beta 2", D::U16, offset_of!(S818, f1))] },
S { desc: "#[repr(packed(1), C)] struct { u8, f64 }", layout: S819::layout, size: size_of::<S819>(), align: align_of::<S819>(), fields: || vec![F("Alpha", D::U8, offset_of!(S819, f0)), F("Beta 2", D::F64, offset_of!(S819, f1))] },
S { desc: "#[repr(packed(1), C)] struct { u16, u8, f32 }", layout: S820::layout, size: size_of::<S820>(), align: align_of::<S820>(), fields: || vec![F("Alpha", D::U16, offset_of!(S820, f0)), F("Beta 2", D::U8, offset_of!(S820, f1)), F("Position3D", D::F32, offset_of!(S820, f2))] },
S { desc: "#[repr(packed(1), C)] struct { Vector3<u8>, Vector3<f64>, u8 }", layout: S821::layout, size: size_of::<S821>(), align: align_of::<S821>(), fields: || vec![F("Alpha", D::Vec3u8, offset_of!(S821, f0)), F("Beta 2", D::Vec3f64, offset_of!(S821, f1)), F("Position3D", D::U8, offset_of!(S821, f2))] },
S { desc: "#[repr(packed(1), C)] struct { u8, i64, u8, u32 }", layout: S822::layout, size: size_of::<S822>(), align: align_of::<S822>(), fields: || vec![F("Alpha", D::U8, offset_of!(S822, f0)), F("Beta 2", D::I64, offset_of!(S822, f1)), F("Position3D", D::U8, offset_of!(S822, f2)), F("Δ", D::U32, offset_of!(S822, f3))] },
S { desc: "#[repr(packed(16))] struct { u8 }", layout: S823::layout, size: size_of::<S823>(), align: align_of::<S823>(), fields: || vec![F("Alpha", D::U8, offset_of!(S823, f0))] },
S { desc: "#[repr(packed(16))] struct { u8, u16 }", layout: S824::layout, size: size_of::<S824>(), align: align_of::<S824>(), fields: || vec![F("Alpha", D::U8, offset_of!(S824, f0)), F("Beta 2", D::U16, offset_of!(S824, f1))] },
S { desc: "#[repr(packed(16))] struct { u8, f64 }", layout: S825::layout, size: size_of::<S825>(), align: align_of::<S825>(), fields: || vec![F("Alpha", D::U8, offset_of!(S825, f0)), F("Beta 2", D::F64, offset_of!(S825, f1))] },
S { desc: "#[repr(packed(16))] struct { u16, u8, f32 }", layout: S826::layout, size: size_of::<S826>(), align: align_of::<S826>(), fields: || vec![F("Alpha", D::U16, offset_of!(S826, f0)), F("Beta 2", D::U8, offset_of!(S826, f1)), F("Position3D", D::F32, offset_of!(S826, f2))] },
S { desc: "#[repr(packed(16))] struct { Vector3<u8>, Vector3<f64>, u8 }", layout: S827::layout, size: size_of::<S827>(), align: align_of::<S827>(), fields: || vec![F("Alpha", D::Vec3u8, offset_of!(S827, f0)), F("Beta 2", D::Vec3f64, offset_of!(S827, f1)), F("Position3D", D::U8, offset_of!(S827, f2))] },
S { desc: "#[repr(packed(16))] struct { u8, i64, u8, u32 }", layout: S828::layout, size: size_of::<S828>(), align: align_of::<S828>(), fields: || vec![F("Alpha", D::U8, offset_of!(S828, f0)), F("Beta 2", D::I64, offset_of!(S828, f1)), F("Position3D", D::U8, offset_of!(S828, f2)), F("Δ", D::U32, offset_of!(S828, f3))] },
S { desc: "#[repr(C, align(2))] struct { u8 }", layout: S829::layout, size: size_of::<S829>(), align: align_of::<S829>(), fields: || vec![F("Alpha", D::U8, offset_of!(S829, f0))] },
S { desc: "#[repr(C, align(2))] struct { u8, u16 }", layout: S830::layout, size: size_of::<S830>(), align: align_of::<S830>(), fields: || vec![F("Alpha", D::U8, offset_of!(S830, f0)), F("Beta 2", D::U16, offset_of!(S830, f1))] },
S { desc: "#[repr(C, align(2))] struct { f64, f64 }", layout: S831::layout, size: size_of::<S831>(), align: align_of::<S831>(), fields: || vec![F("Alpha", D::F64, offset_of!(S831, f0)), F("Beta 2", D::F64, offset_of!(S831, f1))] },
S { desc: "#[repr(C, align(2))] struct { u16, u8, f32 }", layout: S832::layout, size: size_of::<S832>(), align: align_of::<S832>(), fields: || vec![F("Alpha", D::U16, offset_of!(S832, f0)), F("Beta 2", D::U8, offset_of!(S832, f1)), F("Position3D", D::F32, offset_of!(S832, f2))] },
S { desc: "#[repr(C, align(2))] struct { Vector3<u8>, Vector3<f64>, u8 }", layout: S833::layout, size: size_of::<S833>(), align: align_of::<S833>(), fields: || vec![F("Alpha", D::Vec3u8, offset_of!(S833, f0)), F("Beta 2", D::Vec3f64, offset_of!(S833, f1)), F("Position3D", D::U8, offset_of!(S833, f2))] },
S { desc: "#[repr(C, align(16))] struct { u8 }", layout: S834::layout, size: size_of::<S834>(), align: align_of::<S834>(), fields: || vec![F("Alpha", D::U8, offset_of!(S834, f0))] },
S { desc: "#[repr(C, align(16))] struct { u8, u16 }", layout: S835::layout, size: size_of::<S835>(), align: align_of::<S835>(), fields: || vec![F("Alpha", D::U8, offset_of!(S835, f0)), F("Beta 2", D::U16, offset_of!(S835, f1))] },
S { desc: "#[repr(C, align(16))] struct { f64, f64 }", layout: S836::layout, size: size_of::<S836>(), align: align_of::<S836>(), fields: || vec![F("Alpha", D::F64, offset_of!(S836, f0)), F("Beta 2", D::F64, offset_of!(S836, f1))] },
S { desc: "#[repr(C, align(16))] struct { u16, u8, f32 }", layout: S837::layout, size: size_of::<S837>(), align: align_of::<S837>(), fields: || vec![F("Alpha", D::U16, offset_of!(S837, f0)), F("Beta 2", D::U8, offset_of!(S837, f1)), F("Position3D", D::F32, offset_of!(S837, f2))] },
S { desc: "#[repr(C, align(16))] struct { Vector3<u8>, Vector3<f64>, u8 }", layout: S838::layout, size: size_of::<S838>(), align: align_of::<S838>(), fields: || vec![F("Alpha", D::Vec3u8, offset_of!(S838, f0)), F("Beta 2", D::Vec3f64, offset_of!(S838, f1)), F("Position3D", D::U8, offset_of!(S838, f2))] },
S { desc: "#[repr(align(8), C)] struct { u8 }", layout: S839::layout, size: size_of::<S839>(), align: align_of::<S839>(), fields: || vec![F("Alpha", D::U8, offset_of!(S839, f0))] },
S { desc: "#[repr(align(8), C)] struct { u8, u16 }", layout: S840::layout, size: size_of::<S840>(), align: align_of::<S840>(), fields: || vec![F("Alpha", D::U8, offset_of!(S840, f0)), F("Beta 2", D::U16, offset_of!(S840, f1))] },
S { desc: "#[repr(align(8), C)] struct { f64, f64 }", layout: S841::layout, size: size_of::<S841>(), align: align_of::<S841>(), fields: || vec![F("Alpha", D::F64, offset_of!(S841, f0)), F("Beta 2", D::F64, offset_of!(S841, f1))] },
S { desc: "#[repr(align(8), C)] struct { u16, u8, f32 }", layout: S842::layout, size: size_of::<S842>(), align: align_of::<S842>(), fields: || vec![F("Alpha", D::U16, offset_of!(S842, f0)), F("Beta 2", D::U8, offset_of!(S842, f1)), F("Position3D", D::F32, offset_of!(S842, f2))] },
S { desc: "#[repr(align(8), C)] struct { Vector3<u8>, Vector3<f64>, u8 }", layout: S843::layout, size: size_of::<S843>(), align: align_of::<S843>(), fields: || vec![F("Alpha", D::Vec3u8, offset_of!(S843, f0)), F("Beta 2", D::Vec3f64, offset_of!(S843, f1)), F("Position3D", D::U8, offset_of!(S843, f2))] },
S { desc: "#[repr(C)] #[repr(align(64))] struct { u8 }", layout: S844::layout, size: size_of::<S844>(), align: align_of::<S844>(), fields: || vec![F("Alpha", D::U8, offset_of!(S844, f0))] },
S { desc: "#[repr(C)] #[repr(align(64))] struct { u8, u16 }", layout: S845::layout, size: size_of::<S845>(), align: align_of::<S845>(), fields: || vec![F("Alpha", D::U8, offset_of!(S845, f0)), F("Beta 2", D::U16, offset_of!(S845, f1))] },
S { desc: "#[repr(C)] #[repr(align(64))] struct { f64, f64 }", layout: S846::layout, size: size_of::<S846>(), align: align_of::<S846>(), fields: || vec![F("Alpha", D::F64, offset_of!(S846, f0)), F("Beta 2", D::F64, offset_of!(S846, f1))] },
S { desc: "#[repr(C)] #[repr(align(64))] struct { u16, u8, f32 }", layout: S847::layout, size: size_of::<S847>(), align: align_of::<S847>(), fields: || vec![F("Alpha", D::U16, offset_of!(S847, f0)), F("Beta 2", D::U8, offset_of!(S847, f1)), F("Position3D", D::F32, offset_of!(S847, f2))] },
S { desc: "#[repr(C)] #[repr(align(64))] struct { Vector3<u8>, Vector3<f64>, u8 }", layout: S848::layout, size: size_of::<S848>(), align: align_of::<S848>(), fields: || vec![F("Alpha", D::Vec3u8, offset_of!(S848, f0)), F("Beta 2", D::Vec3f64, offset_of!(S848, f1)), F("Position3D", D::U8, offset_of!(S848, f2))] },
S { desc: "#[repr(C)] #[repr(align(1))] struct { u8 }", layout: S849::layout, size: size_of::<S849>(), align: align_of::<S849>(), fields: || vec![F("Alpha", D::U8, offset_of!(S849, f0))] },
S { desc: "#[repr(C)] #[repr(align(1))] struct { u8, u16 }", layout: S850::layout, size: size_of::<S850>(), align: align_of::<S850>(), fields: || vec![F("Alpha", D::U8, offset_of!(S850, f0)), F("Beta 2", D::U16, offset_of!(S850, f1))] },
S { desc: "#[repr(C)] #[repr(align(1))] struct { f64, f64 }", layout: S851::layout, size: size_of::<S851>(), align: align_of::<S851>(), fields: || vec![F("Alpha", D::F64, offset_of!(S851, f0)), F("Beta 2", D::F64, offset_of!(S851, f1))] },
S { desc: "#[repr(C)] #[repr(align(1))] struct { u16, u8, f32 }", layout: S852::layout, size: size_of::<S852>(), align: align_of::<S852>(), fields: || vec![F("Alpha", D::U16, offset_of!(S852, f0)), F("Beta 2", D::U8, offset_of!(S852, f1)), F("Position3D", D::F32, offset_of!(S852, f2))] },
S { desc: "#[repr(C)] #[repr(align(1))] struct { Vector3<u8>, Vector3<f64>, u8 }", layout: S853::layout, size: size_of::<S853>(), align: align_of::<S853>(), fields: || vec![F("Alpha", D::Vec3u8, offset_of!(S853, f0)), F("Beta 2", D::Vec3f64, offset_of!(S853, f1)), F("Position3D", D::U8, offset_of!(S853, f2))] },
S { desc: "#[repr(C)] struct ( u16 );", layout: S854::layout, size: size_of::<S854>(), align: align_of::<S854>(), fields: || vec![F("Alpha", D::U16, offset_of!(S854, 0))] },
S { desc: "#[repr(C)] struct ( u8, Vector4<u8> );", layout: S855::layout, size: size_of::<S855>(), align: align_of::<S855>(), fields: || vec![F("Alpha", D::U8, offset_of!(S855, 0)), F("Beta 2", D::Vec4u8, offset_of!(S855, 1))] },
S { desc: "#[repr(C)] struct ( u8, f64 );", layout: S856::layout, size: size_of::<S856>(), align: align_of::<S856>(), fields: || vec![F("Alpha", D::U8, offset_of!(S856, 0)), F("Beta 2", D::F64, offset_of!(S856, 1))] },
S { desc: "#[repr(C)] struct ( u16, u8, f32 );", layout: S857::layout, size: size_of::<S857>(), align: align_of::<S857>(), fields: || vec![F("Alpha", D::U16, offset_of!(S857, 0)), F("Beta 2", D::U8, offset_of!(S857, 1)), F("Position3D", D::F32, offset_of!(S857, 2))] },
S { desc: "#[repr(C)] struct ( u8, i64, u8, u32 );", layout: S858::layout, size: size_of::<S858>(), align: align_of::<S858>(), fields: || vec![F("Alpha", D::U8, offset_of!(S858, 0)), F("Beta 2", D::I64, offset_of!(S858, 1)), F("Position3D", D::U8, offset_of!(S858, 2)), F("Δ", D::U32, offset_of!(S858, 3))] },
S { desc: "#[repr(C, packed)] struct ( u16 );", layout: S859::layout, size: size_of::<S859>(), align: align_of::<S859>(), fields: || vec![F("Alpha", D::U16, offset_of!(S859, 0))] },
S { desc: "#[repr(C, packed)] struct ( u8, Vector4<u8> );", layout: S860::layout, size: size_of::<S860>(), align: align_of::<S860>(), fields: || vec![F("Alpha", D::U8, offset_of!(S860, 0)), F("Beta 2", D::Vec4u8, offset_of!(S860, 1))] },
S { desc: "#[repr(C, packed)] struct ( u8, f64 );", layout: S861::layout, size: size_of::<S861>(), align: align_of::<S861>(), fields: || vec![F("Alpha", D::U8, offset_of!(S861, 0)), F("Beta 2", D::F64, offset_of!(S861, 1))] },
S { desc: "#[repr(C, packed)] struct ( u16, u8, f32 );", layout: S862::layout, size: size_of::<S862>(), align: align_of::<S862>(), fields: || vec![F("Alpha", D::U16, offset_of!(S862, 0)), F("Beta 2", D::U8, offset_of!(S862, 1)), F("Position3D", D::F32, offset_of!(S862, 2))] },
S { desc: "#[repr(C, packed)] struct ( u8, i64, u8, u32 );", layout: S863::layout, size: size_of::<S863>(), align: align_of::<S863>(), fields: || vec![F("Alpha", D::U8, offset_of!(S863, 0)), F("Beta 2", D::I64, offset_of!(S863, 1)), F("Position3D", D::U8, offset_of!(S863, 2)), F("Δ", D::U32, offset_of!(S863, 3))] },
S { desc: "#[repr(C, packed(2))] struct ( u16 );", layout: S864::layout, size: size_of::<S864>(), align: align_of::<S864>(), fields: || vec![F("Alpha", D::U16, offset_of!(S864, 0))] },
S { desc: "#[repr(C, packed(2))] struct ( u8, Vector4<u8> );", layout: S865::layout, size: size_of::<S865>(), align: align_of::<S865>(), fields: || vec![F("Alpha", D::U8, offset_of!(S865, 0)), F("Beta 2", D::Vec4u8, offset_of!(S865, 1))] },
S { desc: "#[repr(C, packed(2))] struct ( u8, f64 );", layout: S866::layout, size: size_of::<S866>(), align: align_of::<S866>(), fields: || vec![F("Alpha", D::U8, offset_of!(S866, 0)), F("Beta 2", D::F64, offset_of!(S866, 1))] },
S { desc: "#[repr(C, packed(2))] struct ( u16, u8, f32 );", layout: S867::layout, size: size_of::<S867>(), align: align_of::<S867>(), fields: || vec![F("Alpha", D::U16, offset_of!(S867, 0)), F("Beta 2", D::U8, offset_of!(S867, 1)), F("Position3D", D::F32, offset_of!(S867, 2))] },
S { desc: "#[repr(C, packed(2))] struct ( u8, i64, u8, u32 );", layout: S868::layout, size: size_of::<S868>(), align: align_of::<S868>(), fields: || vec![F("Alpha", D::U8, offset_of!(S868, 0)), F("Beta 2", D::I64, offset_of!(S868, 1)), F("Position3D", D::U8, offset_of!(S868, 2)), F("Δ", D::U32, offset_of!(S868, 3))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct ( u16 );", layout: S869::layout, size: size_of::<S869>(), align: align_of::<S869>(), fields: || vec![F("Alpha", D::U16, offset_of!(S869, 0))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct ( u8, Vector4<u8> );", layout: S870::layout, size: size_of::<S870>(), align: align_of::<S870>(), fields: || vec![F("Alpha", D::U8, offset_of!(S870, 0)), F("Beta 2", D::Vec4u8, offset_of!(S870, 1))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct ( u8, f64 );", layout: S871::layout, size: size_of::<S871>(), align: align_of::<S871>(), fields: || vec![F("Alpha", D::U8, offset_of!(S871, 0)), F("Beta 2", D::F64, offset_of!(S871, 1))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct ( u16, u8, f32 );", layout: S872::layout, size: size_of::<S872>(), align: align_of::<S872>(), fields: || vec![F("Alpha", D::U16, offset_of!(S872, 0)), F("Beta 2", D::U8, offset_of!(S872, 1)), F("Position3D", D::F32, offset_of!(S872, 2))] },
S { desc: "#[repr(packed(4))] #[repr(C)] struct ( u8, i64, u8, u32 );", layout: S873::layout, size: size_of::<S873>(), align: align_of::<S873>(), fields: || vec![F("Alpha", D::U8, offset_of!(S873, 0)), F("Beta 2", D::I64, offset_of!(S873, 1)), F("Position3D", D::U8, offset_of!(S873, 2)), F("Δ", D::U32, offset_of!(S873, 3))] },
S { desc: "#[repr(packed)] struct ( u16 );", layout: S874::layout, size: size_of::<S874>(), align: align_of::<S874>(), fields: || vec![F("Alpha", D::U16, offset_of!(S874, 0))] },
S { desc: "#[repr(packed)] struct ( u8, Vector4<u8> );", layout: S875::layout, size: size_of::<S875>(), align: align_of::<S875>(), fields: || vec![F("Alpha", D::U8, offset_of!(S875, 0)), F("Beta 2", D::Vec4u8, offset_of!(S875, 1))] },
S { desc: "#[repr(packed)] struct ( u8, f64 );", layout: S876::layout, size: size_of::<S876>(), align: align_of::<S876>(), fields: || vec![F("Alpha", D::U8, offset_of!(S876, 0)), F("Beta 2", D::F64, offset_of!(S876, 1))] },
S { desc: "#[repr(packed)] struct ( u16, u8, f32 );", layout: S877::layout, size: size_of::<S877>(), align: align_of::<S877>(), fields: || vec![F("Alpha", D::U16, offset_of!(S877, 0)), F("Beta 2", D::U8, offset_of!(S877, 1)), F("Position3D", D::F32, offset_of!(S877, 2))] },
S { desc: "#[repr(packed)] struct ( u8, i64, u8, u32 );", layout: S878::layout, size: size_of::<S878>(), align: align_of::<S878>(), fields: || vec![F("Alpha", D::U8, offset_of!(S878, 0)), F("Beta 2", D::I64, offset_of!(S878, 1)), F("Position3D", D::U8, offset_of!(S878, 2)), F("Δ", D::U32, offset_of!(S878, 3))] },
S { desc: "#[repr(packed(2))] struct ( u16 );", layout: S879::layout, size: size_of::<S879>(), align: align_of::<S879>(), fields: || vec![F("Alpha", D::U16, offset_of!(S879, 0))] },
S { desc: "#[repr(packed(2))] struct ( u8, Vector4<u8> );", layout: S880::layout, size: size_of::<S880>(), align: align_of::<S880>(), fields: || vec![F("Alpha", D::U8, offset_of!(S880, 0)), F("Beta 2", D::Vec4u8, offset_of!(S880, 1))] },
S { desc: "#[repr(packed(2))] struct ( u8, f64 );", layout: S881::layout, size: size_of::<S881>(), align: align_of::<S881>(), fields: || vec![F("Alpha", D::U8, offset_of!(S881, 0)), F("Beta 2", D::F64, offset_of!(S881, 1))] },
S { desc: "#[repr(packed(2))] struct ( u16, u8, f32 );", layout: S882::layout, size: size_of::<S882>(), align: align_of::<S882>(), fields: || vec![F("Alpha", D::U16, offset_of!(S882, 0)), F("Beta 2", D::U8, offset_of!(S882, 1)), F("Position3D", D::F32, offset_of!(S882, 2))] },
S { desc: "#[repr(packed(2))] struct ( u8, i64, u8, u32 );", layout: S883::layout, size: size_of::<S883>(), align: align_of::<S883>(), fields: || vec![F("Alpha", D::U8, offset_of!(S883, 0)), F("Beta 2", D::I64, offset_of!(S883, 1)), F("Position3D", D::U8, offset_of!(S883, 2)), F("Δ", D::U32, offset_of!(S883, 3))] },
S { desc: "#[repr(C, align(16))] struct ( u16 );", layout: S884::layout, size: size_of::<S884>(), align: align_of::<S884>(), fields: || vec![F("Alpha", D::U16, offset_of!(S884, 0))] },
S { desc: "#[repr(C, align(16))] struct ( u8, Vector4<u8> );", layout: S885::layout, size: size_of::<S885>(), align: align_of::<S885>(), fields: || vec![F("Alpha", D::U8, offset_of!(S885, 0)), F("Beta 2", D::Vec4u8, offset_of!(S885, 1))] },
S { desc: "#[repr(C, align(16))] struct ( u8, f64 );", layout: S886::layout, size: size_of::<S886>(), align: align_of::<S886>(), fields: || vec![F("Alpha", D::U8, offset_of!(S886, 0)), F("Beta 2", D::F64, offset_of!(S886, 1))] },
S { desc: "#[repr(C, align(16))] struct ( u16, u8, f32 );", layout: S887::layout, size: size_of::<S887>(), align: align_of::<S887>(), fields: || vec![F("Alpha", D::U16, offset_of!(S887, 0)), F("Beta 2", D::U8, offset_of!(S887, 1)), F("Position3D", D::F32, offset_of!(S887, 2))] },
S { desc: "#[repr(C, align(16))] struct ( u8, i64, u8, u32 );", layout: S888::layout, size: size_of::<S888>(), align: align_of::<S888>(), fields: || vec![F("Alpha", D::U8, offset_of!(S888, 0)), F("Beta 2", D::I64, offset_of!(S888, 1)), F("Position3D", D::U8, offset_of!(S888, 2)), F("Δ", D::U32, offset_of!(S888, 3))] },
S { desc: "#[repr(C)] #[repr(C)] #[repr(packed(2))] struct { u8 }", layout: S889::layout, size: size_of::<S889>(), align: align_of::<S889>(), fields: || vec![F("Alpha", D::U8, offset_of!(S889, f0))] },
S { desc: "#[repr(C)] #[repr(C)] #[repr(packed(2))] struct { u16, u8, f64 }", layout: S890::layout, size: size_of::<S890>(), align: align_of::<S890>(), fields: || vec![F("Alpha", D::U16, offset_of!(S890, f0)), F("Beta 2", D::U8, offset_of!(S890, f1)), F("Position3D", D::F64, offset_of!(S890, f2))] },
S { desc: "#[repr(C)] #[repr(C)] #[repr(packed(2))] struct { u8, i64, u8, u32 }", layout: S891::layout, size: size_of::<S891>(), align: align_of::<S891>(), fields: || vec![F("Alpha", D::U8, offset_of!(S891, f0)), F("Beta 2", D::I64, offset_of!(S891, f1)), F("Position3D", D::U8, offset_of!(S891, f2)), F("Δ", D::U32, offset_of!(S891, f3))] },
S { desc: "#[repr(packed(2))] #[repr(C)] #[repr(C)] struct { u8 }", layout: S892::layout, size: size_of::<S892>(), align: align_of::<S892>(), fields: || vec![F("Alpha", D::U8, offset_of!(S892, f0))] },
S { desc: "#[repr(packed(2))] #[repr(C)] #[repr(C)] struct { u16, u8, f64 }", layout: S893::layout, size: size_of::<S893>(), align: align_of::<S893>(), fields: || vec![F("Alpha", D::U16, offset_of!(S893, f0)), F("Beta 2", D::U8, offset_of!(S893, f1)), F("Position3D", D::F64, offset_of!(S893, f2))] },
S { desc: "#[repr(packed(2))] #[repr(C)] #[repr(C)] struct { u8, i64, u8, u32 }", layout: S894::layout, size: size_of::<S894>(), align: align_of::<S894>(), fields: || vec![F("Alpha", D::U8, offset_of!(S894, f0)), F("Beta 2", D::I64, offset_of!(S894, f1)), F("Position3D", D::U8, offset_of!(S894, f2)), F("Δ", D::U32, offset_of!(S894, f3))] },
S { desc: "#[repr(packed(2), C, C, C)] struct { u8 }", layout: S895::layout, size: size_of::<S895>(), align: align_of::<S895>(), fields: || vec![F("Alpha", D::U8, offset_of!(S895, f0))] },
S { desc: "#[repr(packed(2), C, C, C)] struct { u16, u8, f64 }", layout: S896::layout, size: size_of::<S896>(), align: align_of::<S896>(), fields: || vec![F("Alpha", D::U16, offset_of!(S896, f0)), F("Beta 2", D::U8, offset_of!(S896, f1)), F("Position3D", D::F64, offset_of!(S896, f2))] },
S { desc: "#[repr(packed(2), C, C, C)] struct { u8, i64, u8, u32 }", layout: S897::layout, size: size_of::<S897>(), align: align_of::<S897>(), fields: || vec![F("Alpha", D::U8, offset_of!(S897, f0)), F("Beta 2", D::I64, offset_of!(S897, f1)), F("Position3D", D::U8, offset_of!(S897, f2)), F("Δ", D::U32, offset_of!(S897, f3))] },
S { desc: "#[repr(packed(2), C, packed(2))] struct { u8 }", layout: S898::layout, size: size_of::<S898>(), align: align_of::<S898>(), fields: || vec![F("Alpha", D::U8, offset_of!(S898, f0))] },
S { desc: "#[repr(packed(2), C, packed(2))] struct { u16, u8, f64 }", layout: S899::layout, size: size_of::<S899>(), align: align_of::<S899>(), fields: || vec![F("Alpha", D::U16, offset_of!(S899, f0)), F("Beta 2", D::U8, offset_of!(S899, f1)), F("Position3D", D::F64, offset_of!(S899, f2))] },
S { desc: "#[repr(packed(2), C, packed(2))] struct { u8, i64, u8, u32 }", layout: S900::layout, size: size_of::<S900>(), align: align_of::<S900>(), fields: || vec![F("Alpha", D::U8, offset_of!(S900, f0)), F("Beta 2", D::I64, offset_of!(S900, f1)), F("Position3D", D::U8, offset_of!(S900, f2)), F("Δ", D::U32, offset_of!(S900, f3))] },
S { desc: "#[repr(C, packed(0x2))] struct { u8 }", layout: S901::layout, size: size_of::<S901>(), align: align_of::<S901>(), fields: || vec![F("Alpha", D::U8, offset_of!(S901, f0))] },
S { desc: "#[repr(C, packed(0x2))] struct { u16, u8, f64 }", layout: S902::layout, size: size_of::<S902>(), align: align_of::<S902>(), fields: || vec![F("Alpha", D::U16, offset_of!(S902, f0)), F("Beta 2", D::U8, offset_of!(S902, f1)), F("Position3D", D::F64, offset_of!(S902, f2))] },
S { desc: "#[repr(C, packed(0x2))] struct { u8, i64, u8, u32 }", layout: S903::layout, size: size_of::<S903>(), align: align_of::<S903>(), fields: || vec![F("Alpha", D::U8, offset_of!(S903, f0)), F("Beta 2", D::I64, offset_of!(S903, f1)), F("Position3D", D::U8, offset_of!(S903, f2)), F("Δ", D::U32, offset_of!(S903, f3))] },
S { desc: "#[repr(C, packed(0b100))] struct { u8 }", layout: S904::layout, size: size_of::<S904>(), align: align_of::<S904>(), fields: || vec![F("Alpha", D::U8, offset_of!(S904, f0))] },
S { desc: "#[repr(C, packed(0b100))] struct { u16, u8, f64 }", layout: S905::layout, size: size_of::<S905>(), align: align_of::<S905>(), fields: || vec![F("Alpha", D::U16, offset_of!(S905, f0)), F("Beta 2", D::U8, offset_of!(S905, f1)), F("Position3D", D::F64, offset_of!(S905, f2))] },
S { desc: "#[repr(C, packed(0b100))] struct { u8, i64, u8, u32 }", layout: S906::layout, size: size_of::<S906>(), align: align_of::<S906>(), fields: || vec![F("Alpha", D::U8, offset_of!(S906, f0)), F("Beta 2", D::I64, offset_of!(S906, f1)), F("Position3D", D::U8, offset_of!(S906, f2)), F("Δ", D::U32, offset_of!(S906, f3))] },
S { desc: "#[repr(C, packed(0o4))] struct { u8 }", layout: S907::layout, size: size_of::<S907>(), align: align_of::<S907>(), fields: || vec![F("Alpha", D::U8, offset_of!(S907, f0))] },
S { desc: "#[repr(C, packed(0o4))] struct { u16, u8, f64 }", layout: S908::layout, size: size_of::<S908>(), align: align_of::<S908>(), fields: || vec![F("Alpha", D::U16, offset_of!(S908, f0)), F("Beta 2", D::U8, offset_of!(S908, f1)), F("Position3D", D::F64, offset_of!(S908, f2))] },
S { desc: "#[repr(C, packed(0o4))] struct { u8, i64, u8, u32 }", layout: S909::layout, size: size_of::<S909>(), align: align_of::<S909>(), fields: || vec![F("Alpha", D::U8, offset_of!(S909, f0)), F("Beta 2", D::I64, offset_of!(S909, f1)), F("Position3D", D::U8, offset_of!(S909, f2)), F("Δ", D::U32, offset_of!(S909, f3))] },
S { desc: "#[repr(C, align(0x10))] struct { u8 }", layout: S910::layout, size: size_of::<S910>(), align: align_of::<S910>(), fields: || vec![F("Alpha", D::U8, offset_of!(S910, f0))] },
S { desc: "#[repr(C, align(0x10))] struct { u16, u8, f64 }", layout: S911::layout, size: size_of::<S911>(), align: align_of::<S911>(), fields: || vec![F("Alpha", D::U16, offset_of!(S911, f0)), F("Beta 2", D::U8, offset_of!(S911, f1)), F("Position3D", D::F64, offset_of!(S911, f2))] },
S { desc: "#[repr(C, align(0x10))] struct { u8, i64, u8, u32 }", layout: S912::layout, size: size_of::<S912>(), align: align_of::<S912>(), fields: || vec![F("Alpha", D::U8, offset_of!(S912, f0)), F("Beta 2", D::I64, offset_of!(S912, f1)), F("Position3D", D::U8, offset_of!(S912, f2)), F("Δ", D::U32, offset_of!(S912, f3))] },
S { desc: "#[repr(C, align(2), align(8), align(4))] struct { u8 }", layout: S913::layout, size: size_of::<S913>(), align: align_of::<S913>(), fields: || vec![F("Alpha", D::U8, offset_of!(S913, f0))] },
S { desc: "#[repr(C, align(2), align(8), align(4))] struct { u16, u8, f64 }", layout: S914::layout, size: size_of::<S914>(), align: align_of::<S914>(), fields: || vec![F("Alpha", D::U16, offset_of!(S914, f0)), F("Beta 2", D::U8, offset_of!(S914, f1)), F("Position3D", D::F64, offset_of!(S914, f2))] },
S { desc: "#[repr(C, align(2), align(8), align(4))] struct { u8, i64, u8, u32 }", layout: S915::layout, size: size_of::<S915>(), align: align_of::<S915>(), fields: || vec![F("Alpha", D::U8, offset_of!(S915, f0)), F("Beta 2", D::I64, offset_of!(S915, f1)), F("Position3D", D::U8, offset_of!(S915, f2)), F("Δ", D::U32, offset_of!(S915, f3))] },
S { desc: "#[repr(align(32))] #[repr(C)] #[repr(align(16))] struct { u8 }", layout: S916::layout, size: size_of::<S916>(), align: align_of::<S916>(), fields: || vec![F("Alpha", D::U8, offset_of!(S916, f0))] },
S { desc: "#[repr(align(32))] #[repr(C)] #[repr(align(16))] struct { u16, u8, f64 }", layout: S917::layout, size: size_of::<S917>(), align: align_of::<S917>(), fields: || vec![F("Alpha", D::U16, offset_of!(S917, f0)), F("Beta 2", D::U8, offset_of!(S917, f1)), F("Position3D", D::F64, offset_of!(S917, f2))] },
S { desc: "#[repr(align(32))] #[repr(C)] #[repr(align(16))] struct { u8, i64, u8, u32 }", layout: S918::layout, size: size_of::<S918>(), align: align_of::<S918>(), fields: || vec![F("Alpha", D::U8, offset_of!(S918, f0)), F("Beta 2", D::I64, offset_of!(S918, f1)), F("Position3D", D::U8, offset_of!(S918, f2)), F("Δ", D::U32, offset_of!(S918, f3))] },
S { desc: "#[repr(C, packed(536870912))] struct { u8 }", layout: S919::layout, size: size_of::<S919>(), align: align_of::<S919>(), fields: || vec![F("Alpha", D::U8, offset_of!(S919, f0))] },
S { desc: "#[repr(C, packed(536870912))] struct { u16, u8, f64 }", layout: S920::layout, size: size_of::<S920>(), align: align_of::<S920>(), fields: || vec![F("Alpha", D::U16, offset_of!(S920, f0)), F("Beta 2", D::U8, offset_of!(S920, f1)), F("Position3D", D::F64, offset_of!(S920, f2))] },
S { desc: "#[repr(C, packed(536870912))] struct { u8, i64, u8, u32 }", layout: S921::layout, size: size_of::<S921>(), align: align_of::<S921>(), fields: || vec![F("Alpha", D::U8, offset_of!(S921, f0)), F("Beta 2", D::I64, offset_of!(S921, f1)), F("Position3D", D::U8, offset_of!(S921, f2)), F("Δ", D::U32, offset_of!(S921, f3))] },
S { desc: "#[repr(C, packed(0_2))] struct { u8 }", layout: S922::layout, size: size_of::<S922>(), align: align_of::<S922>(), fields: || vec![F("Alpha", D::U8, offset_of!(S922, f0))] },
S { desc: "#[repr(C, packed(0_2))] struct { u16, u8, f64 }", layout: S923::layout, size: size_of::<S923>(), align: align_of::<S923>(), fields: || vec![F("Alpha", D::U16, offset_of!(S923, f0)), F("Beta 2", D::U8, offset_of!(S923, f1)), F("Position3D", D::F64, offset_of!(S923, f2))] },
S { desc: "#[repr(C, packed(0_2))] struct { u8, i64, u8, u32 }", layout: S924::layout, size: size_of::<S924>(), align: align_of::<S924>(), fields: || vec![F("Alpha", D::U8, offset_of!(S924, f0)), F("Beta 2", D::I64, offset_of!(S924, f1)), F("Position3D", D::U8, offset_of!(S924, f2)), F("Δ", D::U32, offset_of!(S924, f3))] },
S { desc: "#[repr(C)] struct { u16, f32 }", layout: S925::layout, size: size_of::<S925>(), align: align_of::<S925>(), fields: || vec![F("a-b", D::U16, offset_of!(S925, f0)), F("a-b2", D::F32, offset_of!(S925, f1))] },
S { desc: "#[repr(C)] struct { u16, f32 }", layout: S926::layout, size: size_of::<S926>(), align: align_of::<S926>(), fields: || vec![F(" lead", D::U16, offset_of!(S926, f0)), F(" lead2", D::F32, offset_of!(S926, f1))] },
S { desc: "#[repr(C)] struct { u16, f32 }", layout: S927::layout, size: size_of::<S927>(), align: align_of::<S927>(), fields: || vec![F("trail ", D::U16, offset_of!(S927, f0)), F("trail 2", D::F32, offset_of!(S927, f1))] },
S { desc: "#[repr(C)] struct { u16, f32 }", layout: S928::layout, size: size_of::<S928>(), align: align_of::<S928>(), fields: || vec![F("UPPER", D::U16, offset_of!(S928, f0)), F("UPPER2", D::F32, offset_of!(S928, f1))] },
S { desc: "#[repr(C)] struct { u16, f32 }", layout: S929::layout, size: size_of::<S929>(), align: align_of::<S929>(), fields: || vec![F("upper", D::U16, offset_of!(S929, f0)), F("upper2", D::F32, offset_of!(S929, f1))] },
S { desc: "#[repr(C)] struct { u16, f32 }", layout: S930::layout, size: size_of::<S930>(), align: align_of::<S930>(), fields: || vec![F("a_b", D::U16, offset_of!(S930, f0)), F("a_b2", D::F32, offset_of!(S930, f1))] },
S { desc: "#[repr(C)] struct { u16, f32 }", layout: S931::layout, size: size_of::<S931>(), align: align_of::<S931>(), fields: || vec![F("a.b/c", D::U16, offset_of!(S931, f0)), F("a.b/c2", D::F32, offset_of!(S931, f1))] },
S { desc: "#[repr(C)] struct { u16, f32 }", layout: S932::layout, size: size_of::<S932>(), align: align_of::<S932>(), fields: || vec![F("", D::U16, offset_of!(S932, f0)), F("2", D::F32, offset_of!(S932, f1))] },
S { desc: "#[repr(C)] struct { u16, f32 }", layout: S933::layout, size: size_of::<S933>(), align: align_of::<S933>(), fields: || vec![F("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", D::U16, offset_of!(S933, f0)), F("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx2", D::F32, offset_of!(S933, f1))] },
S { desc: "#[repr(C)] struct { u16, f32 }", layout: S934::layout, size: size_of::<S934>(), align: align_of::<S934>(), fields: || vec![F("tab\t", D::U16, offset_of!(S934, f0)), F("tab\t2", D::F32, offset_of!(S934, f1))] },
S { desc: "#[repr(C)] struct { u16, f32 }", layout: S935::layout, size: size_of::<S935>(), align: align_of::<S935>(), fields: || vec![F("quote\"q", D::U16, offset_of!(S935, f0)), F("quote\"q2", D::F32, offset_of!(S935, f1))] },
S { desc: "#[repr(C)] struct { u16, f32 }", layout: S936::layout, size: size_of::<S936>(), align: align_of::<S936>(), fields: || vec![F("0", D::U16, offset_of!(S936, f0)), F("02", D::F32, offset_of!(S936, f1))] },
S { desc: "#[repr(C)] struct { u16, f32 }", layout: S937::layout, size: size_of::<S937>(), align: align_of::<S937>(), fields: || vec![F("ä →", D::U16, offset_of!(S937, f0)), F("ä →2", D::F32, offset_of!(S937, f1))] },
] }
#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct Dup { #[pasture(attribute = "A")] f0: u8, #[pasture(BUILTIN_NIR)] f1: u8, #[pasture(attribute = "A")] f2: u8 } unsafe impl bytemuck::NoUninit for Dup {} unsafe impl bytemuck::Zeroable for Dup {} unsafe impl bytemuck::AnyBitPattern for Dup {}
