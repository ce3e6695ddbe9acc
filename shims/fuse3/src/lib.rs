//! The part of fuse3's interface that bfffsd implements.
#![allow(async_fn_in_trait)]

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Errno(pub i32);
impl From<i32> for Errno { fn from(e: i32) -> Self { Errno(e) } }
pub type Result<T> = std::result::Result<T, Errno>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FileType { NamedPipe, CharDevice, BlockDevice, Directory, RegularFile, Symlink, Socket }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Timestamp { pub sec: i64, pub nsec: u32 }
impl Timestamp { pub fn new(sec: i64, nsec: u32) -> Self { Timestamp { sec, nsec } } }

#[derive(Clone, Copy, Debug, Default)]
pub struct SetAttr {
    pub mode: Option<ModeT>,
    pub uid: Option<u32>,
    pub gid: Option<u32>,
    pub size: Option<u64>,
    pub lock_owner: Option<u64>,
    pub atime: Option<Timestamp>,
    pub mtime: Option<Timestamp>,
    pub ctime: Option<Timestamp>,
}
/// mode_t, on FreeBSD
pub type ModeT = u16;

/// Options are accepted, and ignored
#[derive(Clone, Debug, Default)]
pub struct MountOptions;
impl MountOptions {
    pub fn fs_name(&mut self, _: &str) -> &mut Self { self }
    pub fn allow_other(&mut self, _: bool) -> &mut Self { self }
    pub fn default_permissions(&mut self, _: bool) -> &mut Self { self }
    pub fn no_open_support(&mut self, _: bool) -> &mut Self { self }
    pub fn no_open_dir_support(&mut self, _: bool) -> &mut Self { self }
    pub fn custom_options(&mut self, _: impl Into<std::ffi::OsString>) -> &mut Self { self }
}

pub mod raw {
    use crate::Result;
    use std::{any::Any, cell::RefCell, io, path::{Path, PathBuf}, sync::Mutex};

    /// What is mounted.  Each user's mountpoints have a prefix of their own.
    static MOUNTS: Mutex<Vec<(PathBuf, Box<dyn Any + Send>)>> = Mutex::new(Vec::new());
    thread_local! { static MOUNT_ERROR: RefCell<Option<i32>> = const { RefCell::new(None) } }
    /// Where file systems are mounted
    pub fn mounts(prefix: &str) -> Vec<PathBuf> {
        MOUNTS.lock().unwrap().iter().filter(|x| x.0.starts_with(prefix)).map(|x| x.0.clone()).collect()
    }
    /// End the session that was last mounted there
    pub fn end(p: &Path) -> bool {
        let gone = {
            let mut g = MOUNTS.lock().unwrap();
            g.iter().rposition(|x| x.0 == p).map(|i| g.remove(i))
        };
        gone.is_some()
    }
    pub fn end_all(prefix: &str) {
        let gone: Vec<_> = MOUNTS.lock().unwrap().extract_if(.., |x| x.0.starts_with(prefix)).collect();
        drop(gone);
    }
    /// Do this thread's mounts fail?
    pub fn set_mount_error(e: Option<i32>) { MOUNT_ERROR.with(|x| *x.borrow_mut() = e) }

    #[derive(Debug)]
    pub struct MountHandle;
    pub struct Session;
    impl Session {
        pub fn new(_: super::MountOptions) -> Self { Session }
        pub fn mount<F: Filesystem + Send + 'static, P: AsRef<Path>>(self, fs: F, p: P) -> futures::future::Ready<io::Result<MountHandle>> {
            if let Some(e) = MOUNT_ERROR.with(|x| *x.borrow()) { return futures::future::err(io::Error::from_raw_os_error(e)) }
            MOUNTS.lock().unwrap().push((p.as_ref().to_owned(), Box::new(fs)));
            futures::future::ok(MountHandle)
        }
    }
    use futures::Stream;
    use std::ffi::OsStr;

    #[derive(Clone, Copy, Debug, Default)]
    pub struct Request { pub unique: u64, pub uid: u32, pub gid: u32, pub pid: u32 }

    pub mod reply {
        use crate::{FileType, Timestamp};
        use bytes::Bytes;
        use std::{ffi::OsString, num::NonZeroU32, time::Duration};

        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub struct FileAttr {
            pub ino: u64,
            pub size: u64,
            pub blocks: u64,
            pub atime: Timestamp,
            pub mtime: Timestamp,
            pub ctime: Timestamp,
            pub kind: FileType,
            pub perm: u16,
            pub nlink: u32,
            pub uid: u32,
            pub gid: u32,
            pub rdev: u32,
            pub blksize: u32,
        }
        #[derive(Debug)] pub struct ReplyInit { pub max_write: NonZeroU32 }
        #[derive(Debug)] pub struct ReplyAttr { pub ttl: Duration, pub attr: FileAttr }
        #[derive(Debug)] pub struct ReplyEntry { pub ttl: Duration, pub attr: FileAttr, pub generation: u64 }
        #[derive(Debug)]
        pub struct ReplyCreated { pub ttl: Duration, pub attr: FileAttr, pub generation: u64, pub fh: u64, pub flags: u32 }
        #[derive(Debug)] pub struct ReplyData { pub data: Bytes }
        impl From<Bytes> for ReplyData { fn from(data: Bytes) -> Self { ReplyData { data } } }
        #[derive(Debug)] pub struct ReplyWrite { pub written: u32 }
        #[derive(Debug)] pub struct ReplyLSeek { pub offset: u64 }
        #[derive(Debug)] pub enum ReplyXAttr { Size(u32), Data(Bytes) }
        #[derive(Debug)]
        pub struct ReplyStatFs {
            pub blocks: u64,
            pub bfree: u64,
            pub bavail: u64,
            pub files: u64,
            pub ffree: u64,
            pub bsize: u32,
            pub namelen: u32,
            pub frsize: u32,
        }
        #[derive(Debug)]
        pub struct DirectoryEntry { pub inode: u64, pub kind: FileType, pub name: OsString, pub offset: i64 }
        pub struct ReplyDirectory<S> { pub entries: S }
    }
    use reply::*;

    pub trait Filesystem {
        async fn init(&self, req: Request) -> Result<ReplyInit>;
        async fn destroy(&self, req: Request);
        async fn create(&self, req: Request, parent: u64, name: &OsStr, mode: u32, flags: u32) -> Result<ReplyCreated>;
        async fn fallocate(&self, req: Request, ino: u64, fh: u64, offs: u64, len: u64, mode: u32) -> Result<()>;
        async fn forget(&self, req: Request, ino: u64, nlookup: u64);
        async fn fsync(&self, req: Request, ino: u64, fh: u64, datasync: bool) -> Result<()>;
        async fn getattr(&self, req: Request, ino: u64, fh: Option<u64>, flags: u32) -> Result<ReplyAttr>;
        async fn getxattr(&self, req: Request, ino: u64, name: &OsStr, size: u32) -> Result<ReplyXAttr>;
        async fn link(&self, req: Request, ino: u64, parent: u64, name: &OsStr) -> Result<ReplyEntry>;
        async fn lookup(&self, req: Request, parent: u64, name: &OsStr) -> Result<ReplyEntry>;
        async fn listxattr(&self, req: Request, ino: u64, size: u32) -> Result<ReplyXAttr>;
        async fn lseek(&self, req: Request, ino: u64, fh: u64, offset: u64, whence: u32) -> Result<ReplyLSeek>;
        async fn mkdir(&self, req: Request, parent: u64, name: &OsStr, mode: u32, umask: u32) -> Result<ReplyEntry>;
        async fn mknod(&self, req: Request, parent: u64, name: &OsStr, mode: u32, rdev: u32) -> Result<ReplyEntry>;
        async fn read(&self, req: Request, ino: u64, fh: u64, offset: u64, size: u32) -> Result<ReplyData>;
        async fn readdir<'a>(&'a self, req: Request, ino: u64, fh: u64, offset: i64)
            -> Result<ReplyDirectory<impl Stream<Item = Result<DirectoryEntry>> + Send + 'a>>;
        async fn readlink(&self, req: Request, ino: u64) -> Result<ReplyData>;
        async fn removexattr(&self, req: Request, ino: u64, name: &OsStr) -> Result<()>;
        async fn rename(&self, req: Request, parent: u64, name: &OsStr, newparent: u64, newname: &OsStr) -> Result<()>;
        async fn rmdir(&self, req: Request, parent: u64, name: &OsStr) -> Result<()>;
        async fn setattr(&self, req: Request, ino: u64, fh: Option<u64>, set_attr: crate::SetAttr) -> Result<ReplyAttr>;
        async fn setxattr(&self, req: Request, ino: u64, name: &OsStr, value: &[u8], flags: u32, position: u32) -> Result<()>;
        async fn statfs(&self, req: Request, ino: u64) -> Result<ReplyStatFs>;
        async fn symlink(&self, req: Request, parent: u64, name: &OsStr, link: &OsStr) -> Result<ReplyEntry>;
        async fn unlink(&self, req: Request, parent: u64, name: &OsStr) -> Result<()>;
        async fn write(&self, req: Request, ino: u64, fh: u64, offset: u64, data: &[u8], write_flags: u32, flags: u32)
            -> Result<ReplyWrite>;
    }
}
