//! What fsmodel.rs exercises here: a kernel that sends FUSE requests, and
//! verifies what the replies say beyond what the model compares.
use crate::fsmodel::{os, show, Dirent, Ent, Name};
use bfffs_core::{
    fs::{FileData, FileDataMut, Fs as Inner, GetAttr, SeekWhence, SetAttr},
    fs_tree::ExtAttrNamespace,
    property::Property,
};
use bfffs_fusefs::fs::FuseFs;
use fuse3::{
    raw::{reply::*, Filesystem, Request},
    FileType, Timestamp,
};
use futures::{Stream, TryStreamExt};
use std::{
    cell::{Cell, RefCell},
    collections::{BTreeMap, BTreeSet},
    ffi::{OsStr, OsString},
    os::unix::ffi::OsStrExt,
    sync::Arc,
};

#[derive(Default)]
struct State {
    /// Every vnode, and for how many lookups we must be grateful
    vn: BTreeMap<u64, u64>,
    /// Those that something uses
    held: BTreeSet<u64>,
    /// Every name there is
    names: BTreeMap<(u64, Name), u64>,
    /// Those that the name cache knows
    nc: BTreeSet<(u64, Name)>,
    /// Every directory's parent
    dirs: BTreeMap<u64, u64>,
}
impl State {
    fn links(&self, ino: u64) -> usize { self.names.values().filter(|i| **i == ino).count() }
    fn parent(&self, ino: u64) -> Option<u64> { if ino == 1 { None } else { self.dirs.get(&ino).copied() } }
}

/// A mounted file system, as the kernel sees it
pub struct Fs {
    fuse: Arc<FuseFs>,
    pub inner: Arc<Inner>,
    st: RefCell<State>,
    rng: Cell<u64>,
    /// how often to forget: one in so many
    forgetful: u64,
    pub forgets: Cell<u64>,
    /// An NFS server finds files by number, and forgets directories but not what's in them.
    nfs: bool,
}

fn req(uid: u32, gid: u32) -> Request { Request { uid, gid, ..Default::default() } }
fn r0() -> Request { Request::default() }
fn er<T>(r: fuse3::Result<T>) -> Result<T, i32> { r.map_err(|e| e.0) }
pub fn xname(ns: ExtAttrNamespace, name: &OsStr) -> OsString {
    let mut v = OsString::from(if ns as u8 == 1 { "user." } else { "system." });
    v.push(name);
    v
}

impl Fs {
    pub fn mount(inner: Arc<Inner>, seed: u64, forgetful: u64, nfs: bool) -> Self {
        let st = State { dirs: BTreeMap::from([(1, 1)]), ..Default::default() };
        Fs { fuse: Arc::new(FuseFs::new(inner.clone())), inner, st: RefCell::new(st), rng: Cell::new(seed | 1), forgetful, forgets: Cell::new(0), nfs }
    }
    /// Another user of the same mount, who uses other files
    pub fn share(&self, seed: u64) -> Self {
        let st = State { dirs: BTreeMap::from([(1, 1)]), ..Default::default() };
        Fs { fuse: self.fuse.clone(), inner: self.inner.clone(), st: RefCell::new(st), rng: Cell::new(seed | 1), forgetful: self.forgetful, forgets: Cell::new(0), nfs: self.nfs }
    }
    /// Unmount it, and mount it again
    pub async fn remount(self, cleanly: bool, inner: impl std::future::Future<Output = Arc<Inner>>) -> Self {
        if cleanly {
            self.st.borrow_mut().held.clear();
            loop {
                let c = self.evictable();
                if c.is_empty() { break; }
                for i in c { self.forget(i).await }
            }
            self.fuse.destroy(r0()).await;
        }
        let (rng, forgetful, forgets, nfs) = (self.rng.get(), self.forgetful, self.forgets.get(), self.nfs);
        let st = self.st.into_inner();
        drop(self.fuse);
        drop(self.inner);
        let new = Fs::mount(inner.await, rng, forgetful, nfs);
        new.forgets.set(forgets);
        *new.st.borrow_mut() = State { names: st.names, dirs: st.dirs, ..Default::default() };
        new
    }
    fn chance(&self, one_in: u64) -> bool {
        let mut x = self.rng.get();
        x ^= x << 13; x ^= x >> 7; x ^= x << 17;
        self.rng.set(x);
        one_in != 0 && (x >> 20) % one_in == 0
    }

    // vnodes

    fn evictable(&self) -> Vec<u64> {
        let st = self.st.borrow();
        // A vnode needs its parent directory's
        st.vn.keys().copied().filter(|i| !st.held.contains(i) && *i != 1 && (self.nfs || !st.vn.keys().any(|k| st.parent(*k) == Some(*i)))).collect()
    }
    async fn forget(&self, ino: u64) {
        let n = {
            let mut st = self.st.borrow_mut();
            let names: Vec<_> = st.nc.iter().filter(|k| k.0 == ino || st.names.get(k) == Some(&ino)).cloned().collect();
            for k in names { st.nc.remove(&k); }
            st.held.remove(&ino);
            st.vn.remove(&ino)
        };
        if let Some(n) = n {
            self.forgets.set(self.forgets.get() + 1);
            self.fuse.forget(r0(), ino, n).await
        }
    }
    async fn evict(&self) {
        if self.chance(self.forgetful) {
            let c = self.evictable();
            if !c.is_empty() { self.forget(c[(self.rng.get() >> 30) as usize % c.len()]).await }
        }
    }
    /// What's linked no longer, and not used, must go
    async fn reclaim(&self, ino: u64) {
        let gone = { let st = self.st.borrow(); st.links(ino) == 0 && !st.held.contains(&ino) && st.vn.contains_key(&ino) };
        if gone { self.forget(ino).await }
    }
    /// Ask for a name
    async fn ask(&self, dir: u64, name: &[u8]) -> Result<u64, i32> {
        let want = match name {
            b"." => Some(dir),
            b".." => self.st.borrow().dirs.get(&dir).copied(),
            _ => self.st.borrow().names.get(&(dir, name.to_vec())).copied(),
        };
        match er(self.fuse.lookup(r0(), dir, os(name)).await) {
            Ok(e) => {
                let ino = e.attr.ino;
                assert_eq!(Some(ino), want, "lookup of {dir}/{}", show(name));
                assert_eq!(e.generation, 0);
                {
                    let mut st = self.st.borrow_mut();
                    *st.vn.entry(ino).or_default() += 1;
                    if name != b"." && name != b".." { st.nc.insert((dir, name.to_vec())); }
                }
                self.verify(&e.attr, "lookup").await;
                Ok(ino)
            }
            Err(e) => {
                assert!(e == libc::ENOENT && want.is_none(), "lookup of {dir}/{}: error {e}, not {want:?}", show(name));
                Err(e)
            }
        }
    }
    /// Find a name's vnode, perhaps with no need to ask
    async fn find(&self, dir: u64, name: &[u8]) -> Result<u64, i32> {
        let k = (dir, name.to_vec());
        let hit = { let st = self.st.borrow(); if st.nc.contains(&k) { Some(st.names[&k]) } else { None } };
        match hit {
            Some(ino) if !self.chance(5) => Ok(ino),
            _ => self.ask(dir, name).await,
        }
    }
    /// Have a vnode for it
    async fn enter(&self, ino: u64) -> Result<(), i32> {
        let mut todo = vec![];
        {
            let st = self.st.borrow();
            let mut i = ino;
            while i != 1 && !st.vn.contains_key(&i) {
                let Some((k, _)) = st.names.iter().find(|x| *x.1 == i) else { return Err(libc::ENOENT) };
                todo.push((k.clone(), i));
                i = k.0;
            }
        }
        if self.nfs && !todo.is_empty() && !self.chance(3) {
            assert_eq!(self.ask(ino, b".").await, Ok(ino));
            todo.clear();
        }
        for ((p, n), i) in todo.into_iter().rev() { assert_eq!(self.ask(p, &n).await?, i); }
        if self.nfs && self.chance(4) && self.st.borrow().parent(ino).is_some() {
            self.ask(ino, if self.chance(5) { b"." } else { b".." }).await?;
        }
        Ok(())
    }
    async fn must(&self, ino: u64) { self.enter(ino).await.unwrap_or_else(|e| panic!("there's no way to {ino}: {e}")) }

    /// A reply's attributes must be those the file has.
    async fn verify(&self, a: &FileAttr, what: &str) -> GetAttr {
        let g = self.inner.igetattr(a.ino).await.unwrap_or_else(|e| panic!("{what}: getattr({}): error {e}", a.ino));
        let kind = match a.kind {
            FileType::NamedPipe => 0o010000, FileType::CharDevice => 0o020000, FileType::Directory => 0o040000,
            FileType::BlockDevice => 0o060000, FileType::RegularFile => 0o100000, FileType::Symlink => 0o120000,
            FileType::Socket => 0o140000,
        };
        let t = |t: Timestamp| (t.sec, t.nsec);
        assert_eq!((a.size, kind, a.perm, a.nlink as u64), (g.size, g.mode.file_type(), g.mode.perm(), g.nlink), "{what}: attributes of {}", a.ino);
        assert_eq!((a.uid, a.gid, a.rdev as u64, a.blksize as u64), (g.uid, g.gid, g.rdev as u64, g.blksize as u64), "{what}: attributes of {}", a.ino);
        assert_eq!((t(a.atime), t(a.mtime), t(a.ctime)),
            ((g.atime.sec, g.atime.nsec), (g.mtime.sec, g.mtime.nsec), (g.ctime.sec, g.ctime.nsec)), "{what}: times of {}", a.ino);
        assert_eq!(a.blocks, g.bytes.div_ceil(512), "{what}: {} uses {} bytes, which isn't so many blocks", a.ino, g.bytes);
        g
    }
    async fn made(&self, r: fuse3::Result<FileAttr>, dir: u64, name: &OsStr) -> Result<FileDataMut, i32> {
        let a = er(r)?;
        let fd = {
            let mut st = self.st.borrow_mut();
            let isdir = a.kind == FileType::Directory;
            st.names.insert((dir, name.as_bytes().to_vec()), a.ino);
            st.nc.insert((dir, name.as_bytes().to_vec()));
            assert!(st.vn.insert(a.ino, 1).is_none(), "new file {} isn't new", a.ino);
            st.held.insert(a.ino);
            if isdir { st.dirs.insert(a.ino, dir); }
            FileDataMut::new_for_tests(isdir.then_some(dir), a.ino)
        };
        self.verify(&a, "creation").await;
        Ok(fd)
    }
    /// Before creating a name
    async fn prepare(&self, dir: u64, name: &OsStr) {
        self.evict().await;
        self.must(dir).await;
        if !self.chance(4) {
            assert_eq!(self.ask(dir, name.as_bytes()).await, Err(libc::ENOENT), "lookup of what doesn't exist");
        }
    }

    // Fs's interface

    pub async fn create(&self, p: &FileData, name: &OsStr, perm: u16, uid: u32, gid: u32) -> Result<FileDataMut, i32> {
        self.prepare(p.ino(), name).await;
        let r = self.fuse.create(req(uid, gid), p.ino(), name, 0o100000 | perm as u32, 0x202).await;
        self.made(r.map(|e| e.attr), p.ino(), name).await
    }
    pub async fn mkdir(&self, p: &FileData, name: &OsStr, perm: u16, uid: u32, gid: u32) -> Result<FileDataMut, i32> {
        self.prepare(p.ino(), name).await;
        let r = self.fuse.mkdir(req(uid, gid), p.ino(), name, 0o040000 | perm as u32, 0o22).await;
        self.made(r.map(|e| e.attr), p.ino(), name).await
    }
    pub async fn symlink(&self, p: &FileData, name: &OsStr, perm: u16, uid: u32, gid: u32, link: &OsStr) -> Result<FileDataMut, i32> {
        self.prepare(p.ino(), name).await;
        let r = self.fuse.symlink(req(uid, gid), p.ino(), name, link).await;
        let fd = self.made(r.map(|e| e.attr), p.ino(), name).await?;
        self.setattr(&fd.handle(), SetAttr { perm: Some(perm), ..Default::default() }).await?;
        Ok(fd)
    }
    async fn mknod(&self, p: &FileData, name: &OsStr, mode: u32, uid: u32, gid: u32, dev: u32) -> Result<FileDataMut, i32> {
        self.prepare(p.ino(), name).await;
        if self.chance(20) {
            let r = self.fuse.mknod(req(uid, gid), p.ino(), name, 0o160000 | (mode & 0o7777), dev).await;
            assert_eq!(r.map(|_| ()).map_err(|e| e.0), Err(libc::EOPNOTSUPP), "mknod of a whiteout");
        }
        let r = self.fuse.mknod(req(uid, gid), p.ino(), name, mode, dev).await;
        self.made(r.map(|e| e.attr), p.ino(), name).await
    }
    pub async fn mkfifo(&self, p: &FileData, name: &OsStr, perm: u16, uid: u32, gid: u32) -> Result<FileDataMut, i32> {
        self.mknod(p, name, 0o010000 | perm as u32, uid, gid, 0).await
    }
    pub async fn mksock(&self, p: &FileData, name: &OsStr, perm: u16, uid: u32, gid: u32) -> Result<FileDataMut, i32> {
        self.mknod(p, name, 0o140000 | perm as u32, uid, gid, 0).await
    }
    pub async fn mkchar(&self, p: &FileData, name: &OsStr, perm: u16, uid: u32, gid: u32, dev: u32) -> Result<FileDataMut, i32> {
        self.mknod(p, name, 0o020000 | perm as u32, uid, gid, dev).await
    }
    pub async fn mkblock(&self, p: &FileData, name: &OsStr, perm: u16, uid: u32, gid: u32, dev: u32) -> Result<FileDataMut, i32> {
        self.mknod(p, name, 0o060000 | perm as u32, uid, gid, dev).await
    }
    pub async fn link(&self, p: &FileData, fd: &FileData, name: &OsStr) -> Result<(), i32> {
        self.prepare(p.ino(), name).await;
        self.must(fd.ino()).await;
        let e = er(self.fuse.link(r0(), fd.ino(), p.ino(), name).await)?;
        {
            let mut st = self.st.borrow_mut();
            let k = (p.ino(), name.as_bytes().to_vec());
            st.names.insert(k.clone(), fd.ino());
            st.nc.insert(k);
        }
        assert_eq!(e.attr.ino, fd.ino(), "link");
        self.verify(&e.attr, "link").await;
        Ok(())
    }
    pub async fn unlink(&self, p: &FileData, _fd: Option<&FileData>, name: &OsStr) -> Result<(), i32> {
        self.evict().await;
        self.must(p.ino()).await;
        let k = (p.ino(), name.as_bytes().to_vec());
        let ino = self.st.borrow().names.get(&k).copied();
        if ino.is_some() || self.chance(2) { let _ = self.find(p.ino(), name.as_bytes()).await; }
        er(self.fuse.unlink(r0(), p.ino(), name).await)?;
        {
            let mut st = self.st.borrow_mut();
            st.names.remove(&k);
            st.nc.remove(&k);
        }
        if let Some(i) = ino { self.reclaim(i).await }
        Ok(())
    }
    pub async fn rmdir(&self, p: &FileData, name: &OsStr) -> Result<(), i32> {
        self.evict().await;
        self.must(p.ino()).await;
        let k = (p.ino(), name.as_bytes().to_vec());
        let ino = self.st.borrow().names.get(&k).copied();
        if ino.is_some() || self.chance(2) { let _ = self.find(p.ino(), name.as_bytes()).await; }
        er(self.fuse.rmdir(r0(), p.ino(), name).await)?;
        {
            let mut st = self.st.borrow_mut();
            st.names.remove(&k);
            st.nc.remove(&k);
        }
        let ino = ino.expect("rmdir of what doesn't exist");
        self.forget(ino).await;
        self.st.borrow_mut().dirs.remove(&ino);
        Ok(())
    }
    pub async fn rename(&self, p: &FileData, fd: &FileData, name: &OsStr, np: &FileData, old: Option<u64>, newname: &OsStr) -> Result<u64, i32> {
        self.evict().await;
        let (k, nk) = ((p.ino(), name.as_bytes().to_vec()), (np.ino(), newname.as_bytes().to_vec()));
        self.must(k.0).await;
        self.must(nk.0).await;
        assert_eq!(self.find(k.0, &k.1).await, Ok(fd.ino()));
        assert_eq!(self.find(nk.0, &nk.1).await.ok(), old);
        // the kernel leaves this for the file system to notice
        if self.chance(3) {
            let below = { let st = self.st.borrow(); st.vn.keys().copied().filter(|d| st.dirs.contains_key(d)).collect::<Vec<_>>() };
            for d in below {
                let mut x = d;
                let mut loops = false;
                while x != 1 { x = self.st.borrow().dirs[&x]; loops |= x == fd.ino(); }
                if loops {
                    let r = self.fuse.rename(r0(), k.0, name, d, OsStr::new("loop")).await;
                    assert_eq!(r.map_err(|e| e.0), Err(libc::EINVAL), "rename of {} to below itself, in {d}", fd.ino());
                }
            }
        }
        er(self.fuse.rename(r0(), k.0, name, nk.0, newname).await)?;
        {
            let mut st = self.st.borrow_mut();
            st.names.remove(&k);
            st.names.insert(nk.clone(), fd.ino());
            st.nc.remove(&k);
            st.nc.remove(&nk);
            if let Some(d) = st.dirs.get_mut(&fd.ino()) { *d = nk.0 }
            // (its contents are gone even if it's still open)
            if let Some(o) = old { if st.links(o) == 0 { st.held.remove(&o); st.dirs.remove(&o); } }
        }
        if let Some(o) = old { self.reclaim(o).await }
        Ok(fd.ino())
    }
    pub async fn inactive(&self, fd: FileDataMut) {
        self.st.borrow_mut().held.remove(&fd.ino());
        self.reclaim(fd.ino()).await;
        self.evict().await;
    }
    pub async fn lookup(&self, gp: Option<&FileData>, p: &FileData, name: &OsStr) -> Result<FileDataMut, i32> {
        if name == "." || name == ".." { return self.inner.lookup(gp, p, name).await; }
        self.evict().await;
        self.must(p.ino()).await;
        let ino = self.find(p.ino(), name.as_bytes()).await?;
        let mut st = self.st.borrow_mut();
        st.held.insert(ino);
        Ok(FileDataMut::new_for_tests(st.parent(ino), ino))
    }
    pub async fn ilookup(&self, ino: u64) -> Result<FileDataMut, i32> { self.inner.ilookup(ino).await }
    pub async fn igetattr(&self, ino: u64) -> Result<GetAttr, i32> { self.inner.igetattr(ino).await }
    pub async fn getattr(&self, fd: &FileData) -> Result<GetAttr, i32> {
        self.evict().await;
        match self.enter(fd.ino()).await {
            Ok(()) => {
                let r = er(self.fuse.getattr(r0(), fd.ino(), None, 0).await)?;
                assert_eq!(r.attr.ino, fd.ino(), "getattr");
                Ok(self.verify(&r.attr, "getattr").await)
            }
            Err(_) => {
                if self.nfs { assert_eq!(er(self.fuse.lookup(r0(), fd.ino(), OsStr::new(".")).await).map(|_| ()), Err(libc::ENOENT), "lookup of deleted {}", fd.ino()) }
                self.inner.getattr(fd).await
            }
        }
    }
    pub async fn setattr(&self, fd: &FileData, a: SetAttr) -> Result<(), i32> {
        self.evict().await;
        self.must(fd.ino()).await;
        let t = |t: bfffs_core::fs::Timespec| Timestamp::new(t.sec, t.nsec);
        // The kernel may say more than the permissions
        let s = fuse3::SetAttr {
            mode: a.perm.map(|p| if self.chance(2) { p | 0o100000 } else { p }), uid: a.uid, gid: a.gid, size: a.size, lock_owner: None,
            atime: a.atime.map(t), mtime: a.mtime.map(t), ctime: a.ctime.map(t),
        };
        let r = er(self.fuse.setattr(r0(), fd.ino(), None, s).await)?;
        assert_eq!(r.attr.ino, fd.ino(), "setattr");
        self.verify(&r.attr, "setattr").await;
        // What FUSE has no words for
        if a.flags.is_some() || a.birthtime.is_some() {
            let b = SetAttr { flags: a.flags, birthtime: a.birthtime, ctime: a.ctime, ..Default::default() };
            self.inner.setattr(fd, b).await?;
        }
        Ok(())
    }
    pub async fn write(&self, fd: &FileData, off: u64, data: &[u8], _flags: u32) -> Result<u32, i32> {
        self.evict().await;
        self.must(fd.ino()).await;
        er(self.fuse.write(r0(), fd.ino(), 0, off, data, 0, 0).await).map(|w| w.written)
    }
    pub async fn read(&self, fd: &FileData, off: u64, len: usize) -> Result<Vec<Vec<u8>>, i32> {
        self.evict().await;
        self.must(fd.ino()).await;
        er(self.fuse.read(r0(), fd.ino(), 0, off, len as u32).await).map(|r| vec![r.data.to_vec()])
    }
    pub async fn readlink(&self, fd: &FileData) -> Result<OsString, i32> {
        self.must(fd.ino()).await;
        er(self.fuse.readlink(r0(), fd.ino()).await).map(|r| OsStr::from_bytes(&r.data).to_owned())
    }
    pub async fn deallocate(&self, fd: &FileData, off: u64, len: u64) -> Result<(), i32> {
        self.evict().await;
        self.must(fd.ino()).await;
        if self.chance(10) {
            for mode in [0, 1, 2, 7, 0x13] {
                let r = self.fuse.fallocate(r0(), fd.ino(), 0, off, len, mode).await;
                assert_eq!(r.map_err(|e| e.0), Err(libc::EOPNOTSUPP), "fallocate with mode {mode:#x}");
            }
        }
        er(self.fuse.fallocate(r0(), fd.ino(), 0, off, len, 3).await)
    }
    pub async fn lseek(&self, fd: &FileData, off: u64, w: SeekWhence) -> Result<u64, i32> {
        self.must(fd.ino()).await;
        if self.chance(10) {
            for w in [0, 1, 2, 5] {
                let r = self.fuse.lseek(r0(), fd.ino(), 0, off, w).await;
                assert_eq!(r.map(|x| x.offset).map_err(|e| e.0), Err(libc::EINVAL), "lseek with whence {w}");
            }
        }
        let w = match w { SeekWhence::Data => libc::SEEK_DATA, _ => libc::SEEK_HOLE } as u32;
        er(self.fuse.lseek(r0(), fd.ino(), 0, off, w).await).map(|r| r.offset)
    }
    pub async fn fsync(&self, fd: &FileData) -> Result<(), i32> {
        self.must(fd.ino()).await;
        er(self.fuse.fsync(r0(), fd.ino(), 0, self.chance(2)).await)
    }
    pub async fn getextattrlen(&self, fd: &FileData, ns: ExtAttrNamespace, name: &OsStr) -> Result<u32, i32> {
        self.must(fd.ino()).await;
        match er(self.fuse.getxattr(r0(), fd.ino(), &xname(ns, name), 0).await)? {
            ReplyXAttr::Size(n) => Ok(n),
            x => panic!("getxattr of size 0 replied {x:?}"),
        }
    }
    pub async fn getextattr(&self, fd: &FileData, ns: ExtAttrNamespace, name: &OsStr) -> Result<Vec<u8>, i32> {
        self.evict().await;
        self.must(fd.ino()).await;
        let x = xname(ns, name);
        let room = 1 + (self.rng.get() >> 33) as u32 % 4096;
        let big = er(self.fuse.getxattr(r0(), fd.ino(), &x, 1 << 20).await);
        let r = er(self.fuse.getxattr(r0(), fd.ino(), &x, room).await);
        let data = match big? { ReplyXAttr::Data(b) => b.to_vec(), x => panic!("getxattr replied {x:?}") };
        for (room, r) in [(room, r), (data.len() as u32, er(self.fuse.getxattr(r0(), fd.ino(), &x, data.len().max(1) as u32).await))] {
            match r {
                Ok(ReplyXAttr::Data(b)) => assert!(b[..] == data[..] && (b.len() <= room as usize || b.is_empty()), "getxattr with room for {room} bytes replied with {}", b.len()),
                Err(libc::ERANGE) => assert!(data.len() > room as usize, "getxattr of {} bytes with room for {room}: ERANGE", data.len()),
                r => panic!("getxattr of {} bytes with room for {room}: {r:?}", data.len()),
            }
        }
        Ok(data)
    }
    pub async fn setextattr(&self, fd: &FileData, ns: ExtAttrNamespace, name: &OsStr, v: &[u8]) -> Result<(), i32> {
        self.evict().await;
        self.must(fd.ino()).await;
        er(self.fuse.setxattr(r0(), fd.ino(), &xname(ns, name), v, 0, 0).await)
    }
    pub async fn deleteextattr(&self, fd: &FileData, ns: ExtAttrNamespace, name: &OsStr) -> Result<(), i32> {
        self.evict().await;
        self.must(fd.ino()).await;
        er(self.fuse.removexattr(r0(), fd.ino(), &xname(ns, name)).await)
    }
    pub fn readdir(&self, fd: &FileData, off: i64) -> impl Stream<Item = Result<DirEnt, i32>> + '_ {
        let ino = fd.ino();
        let f = async move {
            self.evict().await;
            self.must(ino).await;
            er(self.fuse.readdir(r0(), ino, 0, off).await).map(|r| r.entries.map_ok(DirEnt).map_err(|e| e.0))
        };
        Box::pin(futures::stream::once(f).try_flatten())
    }
    pub async fn set_prop(&self, p: Property) -> Result<(), bfffs_core::Error> { self.inner.set_prop(p).await }
    pub async fn sync(&self) { self.inner.sync().await }
    pub async fn statfs(&self) {
        let a = self.inner.statvfs().await.unwrap();
        let b = er(self.fuse.statfs(r0(), 1).await).unwrap();
        assert_eq!((b.blocks, b.bfree, b.bavail, b.files, b.ffree, b.bsize as u64, b.namelen as u64, b.frsize as u64),
            (a.f_blocks, a.f_bfree, a.f_bavail, a.f_files, a.f_ffree, a.f_bsize as u64, a.f_namemax as u64, a.f_frsize as u64), "statfs");
    }
}

/// Files with links in several directories, each of which somebody uses.  To
/// the kernel those are different vnodes, so it locks them separately.
pub struct Links {
    fuse: Arc<FuseFs>,
    pub dirs: Vec<u64>,
    /// inode numbers and contents
    pub files: Vec<(u64, Vec<u8>)>,
    /// The directories that each is linked in
    linked: RefCell<BTreeSet<(usize, usize)>>,
    /// How many lookups must be forgotten
    counts: RefCell<BTreeMap<u64, u64>>,
    /// Those whose vnodes are locked exclusively
    locked: RefCell<BTreeSet<usize>>,
    nfs: bool,
}
fn lname(f: usize) -> Vec<u8> { format!("l{f}").into_bytes() }
impl Links {
    pub async fn new(fs: &Fs, dirs: usize, files: usize) -> Self {
        let fuse = fs.fuse.clone();
        let mut l = Links { fuse, dirs: vec![], files: vec![], linked: Default::default(), counts: Default::default(), locked: Default::default(), nfs: fs.nfs };
        for d in 0..dirs { l.dirs.push(er(l.fuse.mkdir(r0(), 1, os(format!("links{d}").as_bytes()), 0o755, 0).await).unwrap().attr.ino) }
        for f in 0..files {
            let ino = er(l.fuse.create(r0(), l.dirs[0], os(&lname(f)), 0o100644, 0).await).unwrap().attr.ino;
            let data = vec![f as u8 + 1; 100 * f + 1];
            assert_eq!(er(l.fuse.write(r0(), ino, 0, 0, &data, 0, 0).await).unwrap().written as usize, data.len());
            l.files.push((ino, data));
            l.counts.borrow_mut().insert(ino, 1);
            l.linked.borrow_mut().insert((0, f));
            for d in 1..dirs { l.relink(d, f).await }
        }
        l.settle().await;
        l
    }
    async fn relink(&self, d: usize, f: usize) {
        let e = er(self.fuse.link(r0(), self.files[f].0, self.dirs[d], os(&lname(f))).await).unwrap();
        assert_eq!(e.attr.ino, self.files[f].0, "link");
        self.linked.borrow_mut().insert((d, f));
    }
    /// Something that the user of directory `d` does
    pub async fn step(&self, d: usize, f: usize, what: u64) -> &'static str {
        let (ino, data) = &self.files[f];
        let known = self.counts.borrow().get(ino).is_some_and(|n| *n > 0);
        let linked = self.linked.borrow().contains(&(d, f));
        // Like the kernel, not two such things at once
        let free = !self.locked.borrow().contains(&f);
        match what {
            0 if d > 0 && linked && free => {
                self.locked.borrow_mut().insert(f);
                self.linked.borrow_mut().remove(&(d, f));
                er(self.fuse.unlink(r0(), self.dirs[d], os(&lname(f))).await).unwrap();
                self.locked.borrow_mut().remove(&f);
                "unlink"
            }
            1 if known && !linked && free => {
                self.locked.borrow_mut().insert(f);
                self.relink(d, f).await;
                self.locked.borrow_mut().remove(&f);
                "link"
            }
            2 | 3 if known => {
                let r = er(self.fuse.read(r0(), *ino, 0, 0, data.len() as u32 + 10).await).unwrap();
                assert!(r.data[..] == data[..], "read of a linked file");
                "read"
            }
            4 if self.nfs => {
                let e = er(self.fuse.lookup(r0(), *ino, OsStr::new(".")).await).unwrap();
                assert_eq!(e.attr.ino, *ino, "lookup of .");
                *self.counts.borrow_mut().entry(*ino).or_default() += 1;
                "lookup by number"
            }
            _ => {
                let r = er(self.fuse.lookup(r0(), self.dirs[d], os(&lname(f))).await);
                if linked {
                    let e = r.unwrap_or_else(|e| panic!("lookup of an existing link: error {e}"));
                    assert_eq!((e.attr.ino, e.attr.size), (*ino, data.len() as u64), "lookup of a link");
                    *self.counts.borrow_mut().entry(*ino).or_default() += 1;
                } else {
                    assert_eq!(r.map(|e| e.attr.ino), Err(libc::ENOENT), "lookup of a removed link");
                }
                "lookup"
            }
        }
    }
    /// Between the other things, forget them
    pub async fn settle(&self) {
        for (f, (ino, _)) in self.files.iter().enumerate() {
            let n = self.counts.borrow_mut().remove(ino).unwrap_or(0);
            if n == 0 { continue; }
            let a = er(self.fuse.getattr(r0(), *ino, None, 0).await).unwrap().attr;
            let links = self.linked.borrow().iter().filter(|x| x.1 == f).count();
            assert_eq!(a.nlink as usize, links, "links of {ino}");
            self.fuse.forget(r0(), *ino, n).await;
        }
    }
}

pub struct DirEnt(DirectoryEntry);
impl Dirent for DirEnt {
    fn ent(&self) -> Ent {
        let t = match self.0.kind {
            FileType::NamedPipe => 1, FileType::CharDevice => 2, FileType::Directory => 4, FileType::BlockDevice => 6,
            FileType::RegularFile => 8, FileType::Symlink => 10, FileType::Socket => 12,
        };
        (self.0.name.as_bytes().to_vec(), self.0.inode, self.0.offset, t)
    }
}

/// All extended attributes' namespaces and names
pub async fn listx(fs: &Fs, fd: &FileData) -> Result<Vec<(u8, Vec<u8>)>, String> {
    fs.must(fd.ino()).await;
    let e = |e| format!("error {e}");
    let n = match er(fs.fuse.listxattr(r0(), fd.ino(), 0).await).map_err(e)? {
        ReplyXAttr::Size(n) => n,
        x => return Err(format!("listxattr of size 0 replied {x:?}")),
    };
    let v = match er(fs.fuse.listxattr(r0(), fd.ino(), n + 1).await).map_err(e)? {
        ReplyXAttr::Data(d) => d.to_vec(),
        x => return Err(format!("listxattr replied {x:?}")),
    };
    if v.len() != n as usize { return Err(format!("the length is {n} rather than {}", v.len())); }
    if n > 0 {
        if !matches!(fs.fuse.listxattr(r0(), fd.ino(), n).await, Ok(ReplyXAttr::Data(d)) if d[..] == v[..]) {
            return Err("listxattr with just enough room".into());
        }
        if n > 1 && er(fs.fuse.listxattr(r0(), fd.ino(), n - 1).await).map(|_| ()) != Err(libc::ERANGE) {
            return Err("listxattr with too little room".into());
        }
        if v.last() != Some(&0) { return Err(format!("unterminated list {}", show(&v))); }
    }
    let mut got = vec![];
    for x in v.split(|b| *b == 0).filter(|x| !x.is_empty()) {
        if let Some(n) = x.strip_prefix(b"user.") { got.push((1, n.to_vec())) }
        else if let Some(n) = x.strip_prefix(b"system.") { got.push((2, n.to_vec())) }
        else { return Err(format!("strange name {}", show(x))); }
    }
    Ok(got)
}
