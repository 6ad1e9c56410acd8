#!/usr/bin/env python3
"""Generates mc/core/src/derive_types.rs: the programs of C15 (all struct shapes within the bounds)."""
import itertools, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = ["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "f32", "f64",
     "Vector3<u8>", "Vector3<u16>", "Vector3<f32>", "Vector3<i32>", "Vector3<f64>", "Vector4<u8>"]
DT = dict(zip(T, ["U8", "I8", "U16", "I16", "U32", "I32", "U64", "I64", "F32", "F64", "Vec3u8", "Vec3u16", "Vec3f32", "Vec3i32", "Vec3f64", "Vec4u8"]))
SMALL = ["u8", "u16", "f32", "i64", "Vector3<u8>", "Vector3<u16>"]
REPRS = ["#[repr(C)]", "#[repr(C, packed)]", "#[repr(C, packed(2))]", "#[repr(packed(4))] #[repr(C)]", "#[repr(packed(8), C)]"]
BUILTIN = [("POSITION_3D", "Vector3<f64>"), ("INTENSITY", "u16"), ("RETURN_NUMBER", "u8"), ("NUMBER_OF_RETURNS", "u8"),
           ("CLASSIFICATION_FLAGS", "u8"), ("SCANNER_CHANNEL", "u8"), ("SCAN_DIRECTION_FLAG", "u8"), ("EDGE_OF_FLIGHT_LINE", "u8"),
           ("CLASSIFICATION", "u8"), ("SCAN_ANGLE_RANK", "i8"), ("SCAN_ANGLE", "i16"), ("USER_DATA", "u8"), ("POINT_SOURCE_ID", "u16"),
           ("COLOR_RGB", "Vector3<u16>"), ("GPS_TIME", "f64"), ("NIR", "u16"), ("WAVE_PACKET_DESCRIPTOR_INDEX", "u8"),
           ("WAVEFORM_DATA_OFFSET", "u64"), ("WAVEFORM_PACKET_SIZE", "u32"), ("RETURN_POINT_WAVEFORM_LOCATION", "f32"),
           ("WAVEFORM_PARAMETERS", "Vector3<f32>"), ("POINT_ID", "u64"), ("NORMAL", "Vector3<f32>")]
out = ["// generated by tools/gen_derive.py", "use super::derive::*;", "use pasture_core::layout::{attributes as at, PointAttributeDataType as D, PointType};",
       "use pasture_core::nalgebra::{Vector3, Vector4};", "use pasture_derive::PointType;", "use std::mem::offset_of;", ""]
n = 0
names = []


def emit(rep, fields, tuple_struct=False):
    """fields: (pasture attribute, type, expected name expression)"""
    global n
    s = f"S{n}"
    n += 1
    m, o, c = ("", "(", ");") if tuple_struct else ("f", "{", "}")
    body = " ".join(f"#[pasture({a})] {'' if tuple_struct else f'f{i}: '}{t}," for i, (a, t, _) in enumerate(fields))
    fs = ", ".join(f"F({nm}, D::{DT[t]}, offset_of!({s}, {m}{i}))" for i, (a, t, nm) in enumerate(fields))
    desc = f"{rep} struct {o} {', '.join(t for _, t, _ in fields)} {c}"
    out.append(f"#[derive(PointType, Copy, Clone)] {rep} pub struct {s} {o} {body} {c} unsafe impl bytemuck::NoUninit for {s} {{}} "
               f"unsafe impl bytemuck::Zeroable for {s} {{}} unsafe impl bytemuck::AnyBitPattern for {s} {{}}")
    names.append(f"S {{ desc: {desc!r}, layout: {s}::layout, size: size_of::<{s}>(), align: align_of::<{s}>(), fields: || vec![{fs}] }},".replace("'", '"'))


MORE = ["#[repr(C)] #[repr(packed)]", "#[repr(packed)]", "#[repr(packed(2))]", "#[repr(C)] #[repr(packed(4))]", "#[repr(packed(1), C)]", "#[repr(packed(16))]"]
NM = ["Alpha", "Beta 2", "Position3D", "Δ"]
f = lambda ts: [(f'attribute = "{NM[i]}"', t, f'"{NM[i]}"') for i, t in enumerate(ts)]
for r in REPRS:
    for t in T:
        emit(r, f([t]))
for r in (REPRS[0], REPRS[2]):
    for ts in itertools.product(T, T):
        if ts[0] in SMALL or ts[1] in SMALL:
            emit(r, f(ts))
for r in REPRS:
    for ts in itertools.product(SMALL[:4], repeat=3):
        emit(r, f(ts))
for r in REPRS[:3]:
    for ts in [("u8", "Vector3<f64>", "u16", "u8"), ("u8", "u16", "u32", "u64"), ("f64", "f32", "u16", "u8"), ("Vector4<u8>", "i64", "Vector3<u16>", "i32")]:
        emit(r, f(ts))
# every builtin attribute, in front of and behind another field
for b, t in BUILTIN:
    emit(REPRS[0], [(f"BUILTIN_{b}", t, f"at::{b}.name()"), ('attribute = "Other"', "u8", '"Other"')])
    emit(REPRS[1], [('attribute = "Other"', "u8", '"Other"'), (f"BUILTIN_{b}", t, f"at::{b}.name()")])
    emit(REPRS[3], [(f"BUILTIN_{b}", "u8" if t != "u8" else "u16", f"at::{b}.name()")])
# other ways to spell a packed representation; names with every kind of character
for r in MORE:
    for ts in [("u8",), ("u8", "u16"), ("u8", "f64"), ("u16", "u8", "f32"), ("Vector3<u8>", "Vector3<f64>", "u8"), ("u8", "i64", "u8", "u32")]:
        emit(r, f(ts))
for r in ["#[repr(C, align(2))]", "#[repr(C, align(16))]", "#[repr(align(8), C)]", "#[repr(C)] #[repr(align(64))]", "#[repr(C)] #[repr(align(1))]"]:
    for ts in [("u8",), ("u8", "u16"), ("f64", "f64"), ("u16", "u8", "f32"), ("Vector3<u8>", "Vector3<f64>", "u8")]:
        emit(r, f(ts))
for r in REPRS[:4] + MORE[1:3] + ["#[repr(C, align(16))]"]:
    for ts in [("u16",), ("u8", "Vector4<u8>"), ("u8", "f64"), ("u16", "u8", "f32"), ("u8", "i64", "u8", "u32")]:
        emit(r, f(ts), True)
# several representations at once, and numbers in every base
for r in ["#[repr(C)] #[repr(C)] #[repr(packed(2))]", "#[repr(packed(2))] #[repr(C)] #[repr(C)]", "#[repr(packed(2), C, C, C)]", "#[repr(packed(2), C, packed(2))]",
          "#[repr(C, packed(0x2))]", "#[repr(C, packed(0b100))]", "#[repr(C, packed(0o4))]", "#[repr(C, align(0x10))]", "#[repr(C, align(2), align(8), align(4))]", "#[repr(align(32))] #[repr(C)] #[repr(align(16))]", "#[repr(C, packed(536870912))]", "#[repr(C, packed(0_2))]"]:
    for ts in [("u8",), ("u16", "u8", "f64"), ("u8", "i64", "u8", "u32")]:
        emit(r, f(ts))
for nm in ["a-b", " lead", "trail ", "UPPER", "upper", "a_b", "a.b/c", "", "x" * 40, "tab\\t", 'quote\\"q', "0", "\u00e4 \u2192"]:
    emit(REPRS[0], [(f'attribute = "{nm}"', "u16", f'"{nm}"'), (f'attribute = "{nm}2"', "f32", f'"{nm}2"')])
out.append("pub fn all() -> Vec<S> { vec![")
out += names
out.append("] }")
# field accessors need the private fields; duplicates are refused at runtime
out.append('#[derive(PointType, Copy, Clone)] #[repr(C)] pub struct Dup { #[pasture(attribute = "A")] f0: u8, #[pasture(BUILTIN_NIR)] f1: u8, #[pasture(attribute = "A")] f2: u8 } '
           'unsafe impl bytemuck::NoUninit for Dup {} unsafe impl bytemuck::Zeroable for Dup {} unsafe impl bytemuck::AnyBitPattern for Dup {}')
open(os.path.join(HERE, "mc", "core", "src", "derive_types.rs"), "w").write("\n".join(out) + "\n")
print(n, "structs")
