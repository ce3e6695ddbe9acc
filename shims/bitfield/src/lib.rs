//! Offline stand-in for the `bitfield` crate: just the forms bfffs uses
//! (read-only fields of a tuple struct).
pub trait BitRange<T> { fn bit_range(&self, msb: usize, lsb: usize) -> T; }

#[macro_export(local_inner_macros)]
macro_rules! bitfield_fields {
    ($inner:ty, ) => {};
    ($inner:ty, $(#[$m:meta])* $ft:ty; pub $name:ident, _: $msb:expr, $lsb:expr; $($rest:tt)*) => {
        $(#[$m])*
        pub fn $name(&self) -> $ft {
            ((self.0 >> $lsb) & ((!(0 as $inner)) >> (<$inner>::BITS as usize - ($msb - $lsb + 1)))) as $ft
        }
        bitfield_fields!{$inner, $($rest)*}
    };
    ($inner:ty, $(#[$m:meta])* $ft:ty; $name:ident, _: $msb:expr, $lsb:expr; $($rest:tt)*) => {
        $(#[$m])*
        fn $name(&self) -> $ft {
            ((self.0 >> $lsb) & ((!(0 as $inner)) >> (<$inner>::BITS as usize - ($msb - $lsb + 1)))) as $ft
        }
        bitfield_fields!{$inner, $($rest)*}
    };
    ($inner:ty, $(#[$m:meta])* pub $name:ident, _: $msb:expr, $lsb:expr; $($rest:tt)*) => {
        bitfield_fields!{$inner, $(#[$m])* $inner; pub $name, _: $msb, $lsb; $($rest)*}
    };
}
#[macro_export(local_inner_macros)]
macro_rules! bitfield {
    ($(#[$m:meta])* $vis:vis struct $name:ident($inner:ident); impl Debug; $($rest:tt)*) => {
        $(#[$m])* $vis struct $name(pub $inner);
        impl ::std::fmt::Debug for $name {
            fn fmt(&self, f: &mut ::std::fmt::Formatter) -> ::std::fmt::Result {
                ::std::write!(f, "{}({:?})", ::std::stringify!($name), self.0)
            }
        }
        impl $name { bitfield_fields!{$inner, $($rest)*} }
    };
    ($(#[$m:meta])* $vis:vis struct $name:ident($inner:ident); $($rest:tt)*) => {
        $(#[$m])* $vis struct $name(pub $inner);
        impl $name { bitfield_fields!{$inner, $($rest)*} }
    };
}
