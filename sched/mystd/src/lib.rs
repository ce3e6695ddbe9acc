//! std, but with locks and atomics that are scheduled by shuttle
pub use ::std::*;
pub mod sync {
    pub use ::std::sync::*;
    pub use shuttle::sync::{Barrier, Condvar, Mutex, MutexGuard, Once, RwLock, RwLockReadGuard, RwLockWriteGuard};
    pub mod atomic {
        pub use ::std::sync::atomic::*;
        pub use shuttle::sync::atomic::{
            fence, AtomicBool, AtomicI16, AtomicI32, AtomicI64, AtomicI8, AtomicPtr, AtomicU16,
            AtomicU32, AtomicU64, AtomicU8,
        };
        macro_rules! newtype {
            ($n:ident, $t:ty) => {
                /// Shuttle's, plus serialization
                #[derive(Debug, Default)]
                pub struct $n(shuttle::sync::atomic::$n);
                impl $n {
                    #[track_caller]
                    pub const fn new(v: $t) -> Self { Self(shuttle::sync::atomic::$n::new(v)) }
                    pub fn into_inner(self) -> $t { self.0.into_inner() }
                }
                impl ::std::ops::Deref for $n {
                    type Target = shuttle::sync::atomic::$n;
                    fn deref(&self) -> &Self::Target { &self.0 }
                }
                impl ::std::ops::DerefMut for $n {
                    fn deref_mut(&mut self) -> &mut Self::Target { &mut self.0 }
                }
                impl From<$t> for $n { fn from(v: $t) -> Self { Self::new(v) } }
                impl serde::Serialize for $n {
                    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                        unsafe { self.0.raw_load() }.serialize(s)
                    }
                }
                impl<'d> serde::Deserialize<'d> for $n {
                    fn deserialize<D: serde::Deserializer<'d>>(d: D) -> Result<Self, D::Error> {
                        Ok(Self::new(<$t>::deserialize(d)?))
                    }
                }
            };
        }
        newtype!(AtomicIsize, isize);
        newtype!(AtomicUsize, usize);
    }
}
pub mod thread {
    pub use ::std::thread::*;
    pub use shuttle::thread::{spawn, yield_now, sleep};
}
