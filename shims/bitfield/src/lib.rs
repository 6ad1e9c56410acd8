//! Offline stand-in for the `bitfield` crate: the one macro form that pasture-io uses
//! (a newtype over an unsigned integer with single bit getters and setters).
#[macro_export]
macro_rules! bitfield {
    ($(#[$m:meta])* pub struct $name:ident($t:ty); impl Debug; $(pub $get:ident, $set:ident: $bit:expr;)*) => {
        $(#[$m])*
        pub struct $name(pub $t);
        impl $name {
            $(
                pub fn $get(&self) -> bool { (self.0 >> $bit) & 1 == 1 }
                pub fn $set(&mut self, value: bool) {
                    if value { self.0 |= 1 << $bit; } else { self.0 &= !(1 << $bit); }
                }
            )*
        }
        impl ::std::fmt::Debug for $name {
            fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                f.debug_struct(stringify!($name)).field(".0", &self.0)$(.field(stringify!($get), &self.$get()))*.finish()
            }
        }
    };
}
