//! The real libc, plus the FreeBSD constants that bfffs names and Linux lacks,
//! and FreeBSD's 16-bit mode_t.  Only bfffs itself is built against this.
#![no_std]
pub use libc_real::*;
pub const EPROCLIM: c_int = 467;
pub const EBADRPC: c_int = 472;
pub const ERPCMISMATCH: c_int = 473;
pub const EPROGUNAVAIL: c_int = 474;
pub const EPROGMISMATCH: c_int = 475;
pub const EPROCUNAVAIL: c_int = 476;
pub const EFTYPE: c_int = 479;
pub const EAUTH: c_int = 480;
pub const ENEEDAUTH: c_int = 481;
pub const EDOOFUS: c_int = 488;
pub const ENOTCAPABLE: c_int = 493;
pub const ECAPMODE: c_int = 494;
pub const EINTEGRITY: c_int = 497;
pub const EXTATTR_NAMESPACE_EMPTY: c_int = 0;
pub const EXTATTR_NAMESPACE_USER: c_int = 1;
pub const EXTATTR_NAMESPACE_SYSTEM: c_int = 2;
pub const O_EXLOCK: c_int = 0;
#[allow(non_camel_case_types)]
pub type mode_t = u16;
pub const S_IFMT: mode_t = 0o170000;
pub const S_IFIFO: mode_t = 0o010000;
pub const S_IFCHR: mode_t = 0o020000;
pub const S_IFDIR: mode_t = 0o040000;
pub const S_IFBLK: mode_t = 0o060000;
pub const S_IFREG: mode_t = 0o100000;
pub const S_IFLNK: mode_t = 0o120000;
pub const S_IFSOCK: mode_t = 0o140000;
pub const ENOATTR: c_int = 487;
/// The tests' disks are small scratch files; don't insist on direct I/O.
pub const O_DIRECT: c_int = 0;
/// FreeBSD's `struct dirent`
#[repr(C)]
#[derive(Clone, Copy)]
#[allow(non_camel_case_types)]
pub struct dirent {
    pub d_fileno: u64,
    pub d_off: i64,
    pub d_reclen: u16,
    pub d_type: u8,
    pub d_pad0: u8,
    pub d_namlen: u16,
    pub d_pad1: u16,
    pub d_name: [c_char; 256],
}
/// FreeBSD's `struct statvfs`
#[repr(C)]
#[derive(Clone, Copy, Debug)]
#[allow(non_camel_case_types)]
pub struct statvfs {
    pub f_bavail: u64,
    pub f_bfree: u64,
    pub f_blocks: u64,
    pub f_favail: u64,
    pub f_ffree: u64,
    pub f_files: u64,
    pub f_bsize: c_ulong,
    pub f_flag: c_ulong,
    pub f_frsize: c_ulong,
    pub f_fsid: c_ulong,
    pub f_namemax: c_ulong,
}
