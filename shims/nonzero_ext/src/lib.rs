//! Offline stand-in for `nonzero_ext`.
#[doc(hidden)]
pub trait NonZeroAble: Sized { type NZ; fn nz(self) -> Self::NZ; }
macro_rules! imp { ($($t:ty, $n:ident);*) => { $(impl NonZeroAble for $t {
    type NZ = std::num::$n; fn nz(self) -> Self::NZ { std::num::$n::new(self).expect("nonzero!(0)") } })* } }
imp!{u8, NonZeroU8; u16, NonZeroU16; u32, NonZeroU32; u64, NonZeroU64; usize, NonZeroUsize;
     i8, NonZeroI8; i16, NonZeroI16; i32, NonZeroI32; i64, NonZeroI64; isize, NonZeroIsize}
#[macro_export]
macro_rules! nonzero { ($e:expr) => { $crate::NonZeroAble::nz($e) }; }
