//! The real nix, plus FreeBSD's fspacectl(2), which goes to the simulated disk.
pub use nix_real::*;
pub mod fcntl {
    pub use nix_real::fcntl::*;
    use std::os::fd::RawFd;
    pub fn fspacectl_all(fd: RawFd, off: i64, len: i64) -> nix_real::Result<()> {
        tokio_file::sim::erase(fd, off as u64, len as u64)
            .map_err(|e| nix_real::Error::from_raw(e.raw_os_error().unwrap_or(5)))
    }
}
/// Nothing is ever really unmounted: the requests are only recorded.
pub mod mount {
    use std::{path::{Path, PathBuf}, sync::Mutex};
    /// Says whether something is mounted there, and unmounts it
    pub static HOOK: std::sync::OnceLock<fn(&Path) -> bool> = std::sync::OnceLock::new();
    pub static UNMOUNTED: Mutex<Vec<PathBuf>> = Mutex::new(Vec::new());
    /// With what flags were things last unmounted?
    static FLAGS: Mutex<Vec<(PathBuf, i32)>> = Mutex::new(Vec::new());
    /// Was it by force? Forgets it.
    pub fn forced(p: &Path) -> Option<bool> {
        let mut g = FLAGS.lock().unwrap();
        let i = g.iter().rposition(|x| x.0 == p)?;
        Some(g.remove(i).1 & MntFlags::MNT_FORCE.0 != 0)
    }
    #[derive(Clone, Copy, Debug, Default)]
    pub struct MntFlags(pub i32);
    impl MntFlags {
        pub const MNT_FORCE: MntFlags = MntFlags(0x80000);
        pub const fn empty() -> Self { MntFlags(0) }
        pub const fn all() -> Self { MntFlags(-1) }
        pub fn insert(&mut self, o: Self) { self.0 |= o.0 }
    }
    pub fn unmount<P: AsRef<Path> + ?Sized>(p: &P, f: MntFlags) -> nix_real::Result<()> {
        if let Some(h) = HOOK.get() {
            if !h(p.as_ref()) { return Err(nix_real::Error::EINVAL) }
            FLAGS.lock().unwrap().push((p.as_ref().to_owned(), f.0));
            return Ok(());
        }
        FLAGS.lock().unwrap().push((p.as_ref().to_owned(), f.0));
        UNMOUNTED.lock().unwrap().push(p.as_ref().to_owned());
        Ok(())
    }
}
