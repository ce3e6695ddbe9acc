//! nix, with FreeBSD's open flags
pub use nix::{mount, sys, unistd, Error, Result};
pub mod fcntl {
    use nix::sys::stat::Mode;
    use std::{ops::BitOr, os::fd::RawFd, path::Path};
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct OFlag(i32);
    impl OFlag {
        pub const O_EXLOCK: OFlag = OFlag(0x20);
        pub const O_RDWR: OFlag = OFlag(2);
        pub const O_CREAT: OFlag = OFlag(0x200);
    }
    impl BitOr for OFlag { type Output = OFlag; fn bitor(self, o: OFlag) -> OFlag { OFlag(self.0 | o.0) } }
    /// Opens nothing
    pub fn open<P: AsRef<Path> + ?Sized>(_p: &P, _f: OFlag, _m: Mode) -> nix::Result<RawFd> { Err(nix::Error::ENOSYS) }
}
