//! Rust point types used where the typed interface is explored.
use pasture_core::layout::PointType;
use pasture_core::nalgebra::Vector3;
use pasture_derive::PointType;

#[derive(PointType, Copy, Clone, PartialEq, Debug, bytemuck::AnyBitPattern, bytemuck::NoUninit)]
#[repr(C)]
pub struct One {
    #[pasture(BUILTIN_CLASSIFICATION)]
    pub key: u8,
}
#[derive(PointType, Copy, Clone, PartialEq, Debug, bytemuck::AnyBitPattern, bytemuck::NoUninit)]
#[repr(C, packed)]
pub struct Packed {
    #[pasture(BUILTIN_CLASSIFICATION)]
    pub key: u8,
    #[pasture(BUILTIN_POSITION_3D)]
    pub position: Vector3<f64>,
    #[pasture(BUILTIN_INTENSITY)]
    pub tag: u16,
}
#[derive(PointType, Copy, Clone, PartialEq, Debug, bytemuck::AnyBitPattern, bytemuck::NoUninit)]
#[repr(C)]
pub struct Aligned {
    #[pasture(BUILTIN_GPS_TIME)]
    pub time: f64,
    #[pasture(BUILTIN_POSITION_3D)]
    pub position: Vector3<f32>,
    #[pasture(BUILTIN_INTENSITY)]
    pub tag: u16,
    #[pasture(BUILTIN_CLASSIFICATION)]
    pub key: u8,
    #[pasture(attribute = "Filler")]
    pub filler: u8,
}

pub trait Ty: PointType + PartialEq + std::fmt::Debug + Send + Sync + 'static {
    const NAME: &'static str;
    /// Point with sort key `key` that is told apart from others with the same key by `tag`.
    fn mk(key: u8, tag: u8) -> Self;
    fn key(&self) -> u8;
}
impl Ty for One {
    const NAME: &'static str = "One";
    fn mk(key: u8, tag: u8) -> Self {
        One { key: key * 16 + tag }
    }
    fn key(&self) -> u8 {
        self.key / 16
    }
}
impl Ty for Packed {
    const NAME: &'static str = "Packed";
    fn mk(key: u8, tag: u8) -> Self {
        Packed { key, position: Vector3::new(tag as f64 + 0.5, -(key as f64), 3.0), tag: 256 + tag as u16 }
    }
    fn key(&self) -> u8 {
        self.key
    }
}
impl Ty for Aligned {
    const NAME: &'static str = "Aligned";
    fn mk(key: u8, tag: u8) -> Self {
        Aligned { time: key as f64 - 1.5, position: Vector3::new(tag as f32, 2.0, key as f32 * 0.25), tag: 500 + tag as u16, key, filler: tag ^ 0xff }
    }
    fn key(&self) -> u8 {
        self.key
    }
}
pub fn pts<T: Ty>(n: usize) -> Vec<T> {
    (0..n).map(|i| T::mk((i * 5 % 3) as u8, i as u8 + 1)).collect()
}

#[macro_export]
macro_rules! all_types {
    ($v:ident, $f:ident $(, $a:expr)*) => {
        $v.extend($f::<$crate::types::One>($($a),*));
        $v.extend($f::<$crate::types::Packed>($($a),*));
        $v.extend($f::<$crate::types::Aligned>($($a),*));
    };
}

/// As `with_type!`, restricted to the datatypes that occur in the typed points (keeps the explorer small).
#[macro_export]
macro_rules! with_few {
    ($d:expr, $T:ident, $body:expr) => {{
        use pasture_core::nalgebra::Vector3 as V3;
        use PointAttributeDataType as D;
        match $d {
            D::U8 => { type $T = u8; $body; true }
            D::U16 => { type $T = u16; $body; true }
            D::F64 => { type $T = f64; $body; true }
            D::Vec3f32 => { type $T = V3<f32>; $body; true }
            D::Vec3f64 => { type $T = V3<f64>; $body; true }
            d => panic!("no point type has an attribute of type {d}"),
        }
    }};
}
