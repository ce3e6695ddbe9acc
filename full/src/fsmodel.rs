//! A model of one file system, and operations on both.
use crate::{collide, fsapi::{listx, Fs}};
use bfffs_core::{
    database::TreeID,
    fs::{FileData, FileDataMut, GetAttr, SeekWhence, SetAttr, Timespec},
    fs_tree::ExtAttrNamespace,
    property::Property,
};
use engine::*;
use futures::{StreamExt, TryStreamExt};
use std::{
    collections::{BTreeMap, BTreeSet},
    ffi::{OsStr, OsString},
    os::unix::ffi::{OsStrExt, OsStringExt},
    sync::Arc,
};

pub type Name = Vec<u8>;
pub type Ts = (i64, u32);
pub const C: u64 = 4096;
const MAX_SMALL: u64 = 8 << 20;

#[derive(Clone, Debug, PartialEq)]
pub enum Kind { Reg(u8), Dir, Link(Vec<u8>), Fifo, Sock, Char(u64), Block(u64) }
impl Kind {
    pub fn dtype(&self) -> u8 {
        match self {
            Kind::Fifo => 1, Kind::Char(_) => 2, Kind::Dir => 4, Kind::Block(_) => 6, Kind::Reg(_) => 8,
            Kind::Link(_) => 10, Kind::Sock => 12,
        }
    }
    pub fn is_dir(&self) -> bool { *self == Kind::Dir }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Node {
    pub kind: Kind,
    pub nlink: u64,
    pub perm: u16,
    pub uid: u32,
    pub gid: u32,
    pub flags: u64,
    pub size: u64,
    pub chunks: BTreeMap<u64, Arc<Vec<u8>>>,
    /// The stored length of each record
    pub recs: BTreeMap<u64, u64>,
    pub xattrs: BTreeMap<(u8, Name), Arc<Vec<u8>>>,
    pub entries: BTreeMap<Name, u64>,
    pub parent: u64,
    /// a, m, c, birth
    pub t: [Ts; 4],
}
impl Node {
    pub fn bytes(&self) -> u64 { self.recs.values().sum() }
    pub fn read(&self, off: u64, len: usize) -> Vec<u8> {
        let end = self.size.min(off.saturating_add(len as u64));
        if off >= end { return vec![]; }
        let mut v = vec![0u8; (end - off) as usize];
        let mut p = off;
        while p < end {
            let c = p / C;
            let n = ((c + 1) * C).min(end) - p;
            if let Some(b) = self.chunks.get(&c) {
                let o = (p % C) as usize;
                v[(p - off) as usize..][..n as usize].copy_from_slice(&b[o..o + n as usize]);
            }
            p += n;
        }
        v
    }
    fn put(&mut self, off: u64, data: Option<&[u8]>, len: u64) {
        let end = off + len;
        let mut p = off;
        while p < end {
            let c = p / C;
            let n = ((c + 1) * C).min(end) - p;
            let o = (p % C) as usize;
            match data {
                Some(d) => {
                    let b = Arc::make_mut(self.chunks.entry(c).or_insert_with(|| Arc::new(vec![0; C as usize])));
                    b[o..o + n as usize].copy_from_slice(&d[(p - off) as usize..][..n as usize]);
                }
                None if n == C => { self.chunks.remove(&c); }
                None => if let Some(b) = self.chunks.get_mut(&c) {
                    Arc::make_mut(b)[o..o + n as usize].fill(0);
                }
            }
            p += n;
        }
    }
    pub fn rs(&self) -> u64 { match self.kind { Kind::Reg(e) => 1 << e, _ => 4096 } }
    pub fn write(&mut self, off: u64, data: &[u8]) {
        self.put(off, Some(data), data.len() as u64);
        let end = off + data.len() as u64;
        self.size = self.size.max(end);
        let rs = self.rs();
        let mut p = off;
        while p < end {
            let r = p / rs * rs;
            let e = end.min(r + rs);
            let l = self.recs.entry(r).or_insert(0);
            *l = (*l).max(e - r);
            p = e;
        }
    }
    /// Zero [off, end), and free the records in it
    pub fn dealloc(&mut self, off: u64, end: u64) {
        if off >= end { return; }
        let rs = self.rs();
        // only where there's data
        let first = off / C;
        let cs: Vec<u64> = self.chunks.range(first..).map(|x| *x.0).take_while(|c| c * C < end).collect();
        for c in cs {
            let (a, b) = (off.max(c * C), end.min((c + 1) * C));
            self.put(a, None, b - a);
        }
        let rr: Vec<u64> = self.recs.range(off / rs * rs..).map(|x| *x.0).take_while(|r| *r < end).collect();
        for r in rr {
            let l = self.recs[&r];
            if end >= r + l {
                // to the end of the record
                if off <= r { self.recs.remove(&r); }
                else if off - r < l { self.recs.insert(r, off - r); }
            }
        }
    }
    pub fn truncate(&mut self, size: u64) {
        if size < self.size { self.dealloc(size, u64::MAX); }
        self.size = size;
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum T { Same, Now, Any, Set(Ts) }
pub const SAME: [T; 4] = [T::Same; 4];
pub const MC: [T; 4] = [T::Same, T::Now, T::Now, T::Same];
pub const CT: [T; 4] = [T::Same, T::Same, T::Now, T::Same];

pub fn now() -> Ts {
    let mut t: libc::timespec = unsafe { std::mem::zeroed() };
    unsafe { libc::clock_gettime(libc::CLOCK_REALTIME, &mut t) };
    (t.tv_sec, t.tv_nsec as u32)
}
fn ts(t: Timespec) -> Ts { (t.sec, t.nsec) }

#[derive(Clone, Debug)]
pub struct Model {
    pub tree: TreeID,
    /// The directory that contains all that the model knows of
    pub root: u64,
    pub nodes: BTreeMap<u64, Node>,
    /// Those for which there is a FileDataMut
    pub open: BTreeSet<u64>,
    pub dead: Vec<u64>,
    pub recsize: u8,
    pub atime: bool,
    pub written: u64,
    pub budget: u64,
    /// families of colliding names to use
    pub fams: Vec<u64>,
    pub ops: u64,
    pub maxdata: usize,
}
pub fn os(n: &[u8]) -> &OsStr { OsStr::from_bytes(n) }
pub fn show(n: &[u8]) -> String { n.escape_ascii().to_string() }
pub fn ns(n: u8) -> ExtAttrNamespace { if n == 1 { ExtAttrNamespace::User } else { ExtAttrNamespace::System } }
pub fn cat<B: std::ops::Deref<Target = [u8]>>(v: &[B]) -> Vec<u8> {
    let mut r = Vec::with_capacity(v.iter().map(|x| x.len()).sum());
    for b in v { r.extend_from_slice(&b[..]); }
    r
}

/// What to do more and less of
#[derive(Clone, Copy, Debug)]
pub enum Profile { Mixed, Data, Names, Attrs }

macro_rules! ops { ($($x:ident),*) => {
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub enum Op { $($x),* }
    impl Op { pub fn name(self) -> &'static str { match self { $(Op::$x => stringify!($x)),* } } }
} }
ops!(Create, Mkdir, Symlink, Mknod, Link, Unlink, Rmdir, Rename, Write, Read, Truncate, Setattr, Dealloc, Lseek, Getattr,
    Readdir, SetX, GetX, DelX, ListX, Lookup, Ilookup, Readlink, Inactive, RecSize, Atime);
use Op::*;
const MIXED: &[(Op, u32)] = &[
    (Create, 8), (Mkdir, 4), (Symlink, 2), (Mknod, 2), (Link, 4), (Unlink, 5), (Rmdir, 3), (Rename, 7), (Write, 14), (Read, 5),
    (Truncate, 5), (Setattr, 3), (Dealloc, 4), (Lseek, 3), (Getattr, 1), (Readdir, 3), (SetX, 4), (GetX, 2), (DelX, 2),
    (ListX, 2), (Lookup, 3), (Ilookup, 1), (Readlink, 1), (Inactive, 3), (RecSize, 1), (Atime, 1),
];
const DATA: &[(Op, u32)] = &[
    (Create, 2), (Unlink, 1), (Rename, 1), (Write, 20), (Read, 8), (Truncate, 7), (Setattr, 1), (Dealloc, 8), (Lseek, 6),
    (Getattr, 1), (RecSize, 1), (Link, 1),
];
const NAMES: &[(Op, u32)] = &[
    (Create, 12), (Mkdir, 8), (Symlink, 3), (Mknod, 2), (Link, 8), (Unlink, 9), (Rmdir, 6), (Rename, 14), (Write, 2),
    (Readdir, 6), (Lookup, 4), (Ilookup, 1), (Inactive, 4), (Readlink, 1), (Truncate, 1),
];
const ATTRS: &[(Op, u32)] = &[
    (Create, 3), (Mkdir, 1), (Unlink, 1), (Rename, 1), (Write, 1), (SetX, 16), (GetX, 6), (DelX, 6), (ListX, 5), (Setattr, 6), (Getattr, 1),
    (Symlink, 1), (Rmdir, 1),
];

impl Model {
    /// A new file system's
    pub async fn new(tree: TreeID, fs: &Fs) -> Self {
        let root = Node {
            kind: Kind::Dir, nlink: 1, perm: 0o755, uid: 0, gid: 0, flags: 0, size: 0, chunks: Default::default(),
            recs: Default::default(), xattrs: Default::default(), entries: Default::default(), parent: 1, t: [(0, 0); 4],
        };
        let mut m = Model {
            tree, root: 1, nodes: BTreeMap::from([(1, root)]), open: Default::default(), dead: vec![], recsize: 17, atime: true,
            written: 0, budget: 4 << 20, fams: vec![], ops: 0, maxdata: 200_000,
        };
        let a = fs.igetattr(1).await.unwrap();
        m.nodes.get_mut(&1).unwrap().t = [ts(a.atime), ts(a.mtime), ts(a.ctime), ts(a.birthtime)];
        m
    }
    /// For what's below a new directory
    pub async fn below(tree: TreeID, fs: &Fs, name: &[u8]) -> Self {
        let mut m = Model::new(tree, fs).await;
        let fd = fs.mkdir(&m.fd(1), os(name), 0o755, 0, 0).await.unwrap();
        let root = fd.ino();
        let mut n = m.nodes.remove(&1).unwrap();
        n.nlink = 2;
        let a = fs.getattr(&fd.handle()).await.unwrap();
        n.t = [ts(a.atime), ts(a.mtime), ts(a.ctime), ts(a.birthtime)];
        m.nodes.insert(root, n);
        m.root = root;
        fs.inactive(fd).await;
        m
    }
    pub fn fd(&self, ino: u64) -> FileData {
        FileDataMut::new_for_tests(self.parent_of(ino), ino).handle()
    }
    fn parent_of(&self, ino: u64) -> Option<u64> {
        match self.nodes.get(&ino) {
            Some(n) if n.kind.is_dir() && ino != 1 => Some(n.parent),
            _ => None,
        }
    }
    pub fn dirs(&self) -> Vec<u64> { self.select(|n| n.kind.is_dir()) }
    pub fn select(&self, f: impl Fn(&Node) -> bool) -> Vec<u64> {
        self.nodes.iter().filter(|x| f(x.1)).map(|x| *x.0).collect()
    }
    /// Every name: (parent, name, ino)
    pub fn all_names(&self) -> Vec<(u64, Name, u64)> {
        self.nodes.iter().flat_map(|(p, n)| n.entries.iter().map(|(k, v)| (*p, k.clone(), *v))).collect()
    }
    fn is_ancestor(&self, a: u64, mut d: u64) -> bool {
        loop {
            if a == d { return true; }
            if d == self.root { return false; }
            d = self.nodes[&d].parent;
        }
    }
    pub fn any_name(&self, s: &mut Src) -> Name {
        match s.weighted(&[8, if self.fams.is_empty() { 0 } else { 6 }, 2, 1, 1]) {
            0 => format!("n{}", s.below(12)).into_bytes(),
            1 => {
                let f = *s.pick(&self.fams);
                collide::dirent(f, s.below(5))
            }
            2 => {
                // any bytes
                let n = s.skew(1, 255) as usize;
                let mut v = s.bytes(n);
                for b in v.iter_mut() { if *b == 0 || *b == b'/' { *b = b'_' } }
                if v == b"." || v == b".." { v = b"_".to_vec() }
                v
            }
            3 => collide::dot(1, s.below(3)),
            _ => collide::dot(2, s.below(3)),
        }
    }
    fn free_name(&self, s: &mut Src, dir: u64) -> Name {
        let mut n = self.any_name(s);
        while self.nodes[&dir].entries.contains_key(&n) {
            n.truncate(200);
            n.extend(format!("{}", s.below(1000)).bytes());
        }
        n
    }
    fn any_xname(&self, s: &mut Src) -> (u8, Name) {
        let n = if s.bool() { 1 } else { 2 };
        let name = match s.weighted(&[5, if self.fams.is_empty() { 0 } else { 5 }, 1]) {
            0 => format!("x{}", s.below(6)).into_bytes(),
            1 => { let f = *s.pick(&self.fams); collide::xattr(ns(n), f, s.below(5)) }
            _ => { let k = s.urange(1, 255); s.bytes(k).iter().map(|b| b | 1).collect() }
        };
        (n, name)
    }
    fn file_off(&self, s: &mut Src, n: &Node) -> u64 {
        let rs = n.rs();
        match s.weighted(&[4, 4, 2, 1, 3]) {
            0 => s.below(6) * rs,
            1 => {
                let r = s.below(6) * rs;
                let d = s.skew(0, rs - 1);
                r + d
            }
            2 => {
                let d = s.below(3);
                (n.size + d).saturating_sub(1)
            }
            3 => *s.pick(&[1u64 << 20, 1 << 30, 1 << 40, (1 << 50) + 5]),
            _ => {
                // where data begin or end
                let v: Vec<u64> = n.recs.iter().flat_map(|(r, l)| [*r, r + l]).collect();
                if v.is_empty() { return 0 }
                let d = s.below(3);
                (*s.pick(&v) + d).saturating_sub(1)
            }
        }
    }
    fn file_len(&self, s: &mut Src, n: &Node) -> u64 {
        let rs = n.rs();
        let max = (3 * rs).min(self.maxdata as u64);
        match s.weighted(&[3, 3, 2]) {
            0 => s.skew(1, max),
            1 => (s.range(1, 3) * rs).min(max),
            _ => s.skew(1, rs.min(max)),
        }
    }

    /// Compare an inode's attributes and store its times
    pub async fn attr(&mut self, fs: &Fs, ino: u64, touch: [T; 4], t0: Ts) -> R {
        let fd = self.fd(ino);
        let n = self.nodes.get_mut(&ino).unwrap();
        let a = match fs.getattr(&fd).await {
            Ok(a) => a,
            Err(e) => return fail(format!("getattr({ino}): error {e}")),
        };
        check_attr(ino, n, &a)?;
        let t1 = now();
        let got = [ts(a.atime), ts(a.mtime), ts(a.ctime), ts(a.birthtime)];
        for i in 0..4 {
            let what = ["atime", "mtime", "ctime", "birthtime"][i];
            match touch[i] {
                T::Same => ensure!(got[i] == n.t[i], "{what} of {ino} changed from {:?} to {:?}", n.t[i], got[i]),
                T::Now => ensure!(got[i] >= t0 && got[i] <= t1, "{what} of {ino} is {:?}, not in {t0:?}..{t1:?}", got[i]),
                T::Any => {}
                T::Set(x) => ensure!(got[i] == x, "{what} of {ino} is {:?}, not {x:?}", got[i]),
            }
        }
        n.t = got;
        Ok(())
    }

    fn gone(&mut self, ino: u64) {
        self.nodes.remove(&ino);
        self.open.remove(&ino);
        self.dead.push(ino);
    }

    pub async fn step(&mut self, s: &mut Src, fs: &Fs, p: Profile) -> R {
        let table = match p { Profile::Mixed => MIXED, Profile::Data => DATA, Profile::Names => NAMES, Profile::Attrs => ATTRS };
        let w: Vec<u32> = table.iter().map(|x| x.1).collect();
        let op = table[s.weighted(&w)].0;
        self.ops += 1;
        s.class(op.name());
        self.apply(s, fs, op).await
    }

    async fn make(&mut self, s: &mut Src, fs: &Fs, what: usize) -> R {
        let dirs = self.dirs();
        let dir = *s.pick(&dirs);
        let name = self.free_name(s, dir);
        let perm = (s.below(0o10000)) as u16;
        let (uid, gid) = (s.skew(0, u32::MAX as u64) as u32, s.skew(0, u32::MAX as u64) as u32);
        let pfd = self.fd(dir);
        let t0 = now();
        let dev = s.skew(0, 0xffff_ffff);
        let (kind, r) = match what {
            0 => (Kind::Reg(self.recsize), fs.create(&pfd, os(&name), perm, uid, gid).await),
            1 => (Kind::Dir, fs.mkdir(&pfd, os(&name), perm, uid, gid).await),
            2 => {
                let l = s.skew(1, 1023) as usize;
                let target = s.bytes(l);
                let r = fs.symlink(&pfd, os(&name), perm, uid, gid, os(&target)).await;
                (Kind::Link(target), r)
            }
            3 => (Kind::Fifo, fs.mkfifo(&pfd, os(&name), perm, uid, gid).await),
            4 => (Kind::Sock, fs.mksock(&pfd, os(&name), perm, uid, gid).await),
            5 => (Kind::Char(dev), fs.mkchar(&pfd, os(&name), perm, uid, gid, dev as _).await),
            _ => (Kind::Block(dev), fs.mkblock(&pfd, os(&name), perm, uid, gid, dev as _).await),
        };
        s.note(format!("make {kind:?} {dir}/{} perm={perm:o} -> {:?}", show(&name), r.as_ref().map(|f| f.ino())));
        let fd = match r { Ok(f) => f, Err(e) => return fail(format!("creating {kind:?}: error {e}")) };
        let ino = fd.ino();
        ensure!(!self.nodes.contains_key(&ino), "inode number {ino} was given to a second file");
        ensure_eq!(fd.parent(), if kind.is_dir() { Some(dir) } else { None }, "a new file's parent");
        let isdir = kind.is_dir();
        self.dead.retain(|x| *x != ino);
        self.nodes.insert(ino, Node {
            nlink: if isdir { 2 } else { 1 }, perm, uid, gid, flags: 0, size: 0, kind, chunks: Default::default(),
            recs: Default::default(), xattrs: Default::default(), entries: Default::default(), parent: dir, t: [(0, 0); 4],
        });
        let pn = self.nodes.get_mut(&dir).unwrap();
        pn.entries.insert(name, ino);
        if isdir { pn.nlink += 1 }
        self.attr(fs, ino, [T::Now; 4], t0).await?;
        self.attr(fs, dir, MC, t0).await?;
        if s.chance(2, 3) { self.open.insert(ino); } else { fs.inactive(fd).await; }
        Ok(())
    }

    pub async fn apply(&mut self, s: &mut Src, fs: &Fs, op: Op) -> R {
        let t0 = now();
        match op {
            Create => self.make(s, fs, 0).await?,
            Mkdir => self.make(s, fs, 1).await?,
            Symlink => self.make(s, fs, 2).await?,
            Mknod => { let w = s.urange(3, 6); self.make(s, fs, w).await? }
            Link => {
                let c = self.select(|n| !n.kind.is_dir() && n.nlink > 0);
                if c.is_empty() { return self.make(s, fs, 0).await; }
                let ino = *s.pick(&c);
                let dirs = self.dirs();
                let dir = *s.pick(&dirs);
                let name = self.free_name(s, dir);
                s.note(format!("link {ino} {dir}/{}", show(&name)));
                if let Err(e) = fs.link(&self.fd(dir), &self.fd(ino), os(&name)).await { return fail(format!("link: error {e}")); }
                self.nodes.get_mut(&dir).unwrap().entries.insert(name, ino);
                self.nodes.get_mut(&ino).unwrap().nlink += 1;
                self.attr(fs, ino, CT, t0).await?;
                self.attr(fs, dir, MC, t0).await?;
            }
            Unlink => {
                let c: Vec<_> = self.all_names().into_iter().filter(|x| !self.nodes[&x.2].kind.is_dir()).collect();
                if c.is_empty() || s.chance(1, 10) {
                    let dirs = self.dirs();
                    let dir = *s.pick(&dirs);
                    let name = self.free_name(s, dir);
                    s.note(format!("unlink missing {dir}/{}", show(&name)));
                    ensure_eq!(fs.unlink(&self.fd(dir), None, os(&name)).await, Err(libc::ENOENT), "unlink of a missing name");
                    return self.attr(fs, dir, SAME, t0).await;
                }
                let (dir, name, ino) = s.pick(&c).clone();
                let open = self.open.contains(&ino);
                s.note(format!("unlink {dir}/{} ({ino}{})", show(&name), if open { ", open" } else { "" }));
                let fd = self.fd(ino);
                ensure_eq!(fs.unlink(&self.fd(dir), open.then_some(&fd), os(&name)).await, Ok(()), "unlink");
                self.nodes.get_mut(&dir).unwrap().entries.remove(&name);
                let n = self.nodes.get_mut(&ino).unwrap();
                n.nlink -= 1;
                if n.nlink == 0 && !open {
                    self.gone(ino);
                    ensure_eq!(fs.getattr(&fd).await, Err(libc::ENOENT), "getattr of a deleted file");
                } else {
                    self.attr(fs, ino, CT, t0).await?;
                }
                self.attr(fs, dir, MC, t0).await?;
            }
            Rmdir => {
                let c: Vec<_> = self.all_names().into_iter().filter(|x| self.nodes[&x.2].kind.is_dir()).collect();
                if c.is_empty() || s.chance(1, 10) {
                    let dirs = self.dirs();
                    let dir = *s.pick(&dirs);
                    let name = self.free_name(s, dir);
                    s.note(format!("rmdir missing {dir}/{}", show(&name)));
                    ensure_eq!(fs.rmdir(&self.fd(dir), os(&name)).await, Err(libc::ENOENT), "rmdir of a missing name");
                    return self.attr(fs, dir, SAME, t0).await;
                }
                let (dir, name, ino) = s.pick(&c).clone();
                let r = fs.rmdir(&self.fd(dir), os(&name)).await;
                s.note(format!("rmdir {dir}/{} ({ino}) -> {r:?}", show(&name)));
                if !self.nodes[&ino].entries.is_empty() {
                    ensure_eq!(r, Err(libc::ENOTEMPTY), "rmdir of a directory with contents");
                    self.attr(fs, dir, SAME, t0).await?;
                    return self.attr(fs, ino, SAME, t0).await;
                }
                ensure_eq!(r, Ok(()), "rmdir");
                let fd = self.fd(ino);
                self.gone(ino);
                let pn = self.nodes.get_mut(&dir).unwrap();
                pn.entries.remove(&name);
                pn.nlink -= 1;
                ensure_eq!(fs.getattr(&fd).await, Err(libc::ENOENT), "getattr of a removed directory");
                self.attr(fs, dir, MC, t0).await?;
            }
            Rename => self.rename(s, fs).await?,
            Write => {
                let c = self.select(|n| matches!(n.kind, Kind::Reg(_)));
                if c.is_empty() || self.written >= self.budget { return self.make(s, fs, 0).await; }
                let ino = *s.pick(&c);
                let n = &self.nodes[&ino];
                let (off, len) = (self.file_off(s, n), self.file_len(s, n));
                let kind = s.below(3);
                let mut data = s.bytes(len as usize);
                if kind == 1 { for b in data.iter_mut() { *b &= 1 } }     // compressible
                s.note(format!("write {ino} off={off} len={len}"));
                self.written += len.next_multiple_of(n.rs());
                let r = fs.write(&self.fd(ino), off, &data[..], 0).await;
                ensure_eq!(r, Ok(len as u32), "write");
                let n = self.nodes.get_mut(&ino).unwrap();
                n.write(off, &data);
                self.attr(fs, ino, MC, t0).await?;
            }
            Read => {
                let c = self.select(|n| matches!(n.kind, Kind::Reg(_)));
                if c.is_empty() { return Ok(()); }
                let ino = *s.pick(&c);
                let n = &self.nodes[&ino];
                let (off, len) = (self.file_off(s, n), self.file_len(s, n));
                s.note(format!("read {ino} off={off} len={len}"));
                let (fd, a) = (self.fd(ino), self.atime);
                let n = &self.nodes[&ino];
                read_cmp(fs, &fd, ino, n, off, len as usize).await?;
                self.attr(fs, ino, [if a { T::Now } else { T::Same }, T::Same, T::Same, T::Same], t0).await?;
            }
            Truncate => {
                let c = self.select(|n| matches!(n.kind, Kind::Reg(_)));
                if c.is_empty() { return Ok(()); }
                let ino = *s.pick(&c);
                let n = &self.nodes[&ino];
                let size = match s.weighted(&[3, 3, 1]) {
                    0 => self.file_off(s, n),
                    1 => s.skew(0, n.size),
                    _ => 0,
                };
                s.note(format!("truncate {ino} {} -> {size}", n.size));
                let r = fs.setattr(&self.fd(ino), SetAttr { size: Some(size), ..Default::default() }).await;
                ensure_eq!(r, Ok(()), "truncate");
                self.nodes.get_mut(&ino).unwrap().truncate(size);
                self.attr(fs, ino, MC, t0).await?;
            }
            Setattr => {
                let c = self.select(|_| true);
                let ino = *s.pick(&c);
                let mut a = SetAttr::default();
                let mut t = [T::Same, T::Same, T::Now, T::Same];
                let n = self.nodes.get_mut(&ino).unwrap();
                if s.bool() { n.perm = s.below(0o10000) as u16; a.perm = Some(n.perm); }
                if s.bool() { n.uid = s.any() as u32; a.uid = Some(n.uid); }
                if s.bool() { n.gid = s.any() as u32; a.gid = Some(n.gid); }
                if s.chance(1, 3) { n.flags = s.any(); a.flags = Some(n.flags); }
                for i in 0..4 {
                    if s.chance(1, 4) {
                        let x = (s.any() as i64 >> 8, s.below(1_000_000_000) as u32);
                        t[i] = T::Set(x);
                        *[&mut a.atime, &mut a.mtime, &mut a.ctime, &mut a.birthtime][i] = Some(Timespec::new(x.0, x.1));
                    }
                }
                s.note(format!("setattr {ino} {a:?}"));
                ensure_eq!(fs.setattr(&self.fd(ino), a).await, Ok(()), "setattr");
                self.attr(fs, ino, t, t0).await?;
            }
            Dealloc => {
                let c = self.select(|n| matches!(n.kind, Kind::Reg(_)));
                if c.is_empty() { return Ok(()); }
                let ino = *s.pick(&c);
                let n = &self.nodes[&ino];
                let off = if s.bool() { s.skew(0, n.size) } else { self.file_off(s, n) };
                let len = self.file_len(s, n);
                s.note(format!("deallocate {ino} off={off} len={len} size={}", n.size));
                ensure_eq!(fs.deallocate(&self.fd(ino), off, len).await, Ok(()), "deallocate");
                let n = self.nodes.get_mut(&ino).unwrap();
                let end = n.size.min(off + len);
                let any = off < end;
                n.dealloc(off, end);
                self.attr(fs, ino, if any { MC } else { SAME }, t0).await?;
            }
            Lseek => {
                let c = self.select(|n| matches!(n.kind, Kind::Reg(_)));
                if c.is_empty() { return Ok(()); }
                let ino = *s.pick(&c);
                let n = &self.nodes[&ino];
                let off = if s.chance(1, 3) { s.skew(0, n.size) } else { self.file_off(s, n) };
                let data = fs.lseek(&self.fd(ino), off, SeekWhence::Data).await;
                let hole = fs.lseek(&self.fd(ino), off, SeekWhence::Hole).await;
                s.note(format!("lseek {ino} off={off} size={} -> data {data:?} hole {hole:?}", n.size));
                lseek_cmp(n, off, data, hole)?;
            }
            Getattr => {
                let c = self.select(|_| true);
                let ino = *s.pick(&c);
                self.attr(fs, ino, SAME, t0).await?;
                if let Some(d) = self.dead.last() {
                    ensure_eq!(fs.igetattr(*d).await, Err(libc::ENOENT), "getattr of a deleted file");
                }
            }
            Readdir => {
                let c = self.dirs();
                let ino = *s.pick(&c);
                let all = self.readdir_cmp(fs, ino).await?;
                let k = s.idx(all.len());
                s.note(format!("readdir {ino}: {} entries, resume after {k}", all.len()));
                let rest: Vec<_> = read_all(fs, &self.fd(ino), all[k].2).await?;
                ensure!(rest[..] == all[k + 1..], "readdir of {ino} resumed after entry {k} of {}: {:?} rather than {:?}",
                    all.len(), names(&rest), names(&all[k + 1..]));
            }
            SetX => {
                let c = self.select(|_| true);
                let ino = *s.pick(&c);
                let (sp, name) = self.any_xname(s);
                let len = match s.below(3) { 0 => s.skew(0, 40), 1 => s.skew(0, 6000), _ => s.range(1000, 1050) } as usize;
                let v = s.bytes(len);
                s.note(format!("setextattr {ino} {sp}:{} len={len}", show(&name)));
                self.written += len as u64 + 4096;
                ensure_eq!(fs.setextattr(&self.fd(ino), ns(sp), os(&name), &v).await, Ok(()), "setextattr");
                self.nodes.get_mut(&ino).unwrap().xattrs.insert((sp, name), Arc::new(v));
                self.attr(fs, ino, [T::Same, T::Same, T::Any, T::Same], t0).await?;
            }
            GetX => {
                let c = self.select(|_| true);
                let ino = *s.pick(&c);
                let (sp, name) = self.xname_of(s, ino);
                let want = self.nodes[&ino].xattrs.get(&(sp, name.clone())).cloned();
                s.note(format!("getextattr {ino} {sp}:{}", show(&name)));
                let got = fs.getextattr(&self.fd(ino), ns(sp), os(&name)).await;
                ensure!(got.as_ref().map(|b| b[..].to_vec()) == want.as_ref().map(|w| w.to_vec()).ok_or(&487),
                    "getextattr {ino} {sp}:{}: got {:?}, want {:?}", show(&name), got.map(|b| b.len()), want.map(|w| w.len()));
                let got = fs.getextattrlen(&self.fd(ino), ns(sp), os(&name)).await;
                ensure_eq!(got, want.map(|w| w.len() as u32).ok_or(487), "getextattrlen");
            }
            DelX => {
                let c = self.select(|_| true);
                let ino = *s.pick(&c);
                let (sp, name) = self.xname_of(s, ino);
                s.note(format!("deleteextattr {ino} {sp}:{}", show(&name)));
                let r = fs.deleteextattr(&self.fd(ino), ns(sp), os(&name)).await;
                let had = self.nodes.get_mut(&ino).unwrap().xattrs.remove(&(sp, name)).is_some();
                ensure_eq!(r, if had { Ok(()) } else { Err(487) }, "deleteextattr");
                self.attr(fs, ino, [T::Same, T::Same, T::Any, T::Same], t0).await?;
            }
            ListX => {
                let c = self.select(|_| true);
                let ino = *s.pick(&c);
                s.note(format!("listextattr {ino}"));
                self.listx_cmp(fs, ino).await?;
            }
            Lookup => self.lookup(s, fs).await?,
            Ilookup => {
                let c = self.select(|_| true);
                let ino = *s.pick(&c);
                s.note(format!("ilookup {ino}"));
                match fs.ilookup(ino).await {
                    Ok(f) => {
                        ensure_eq!(f.ino(), ino, "ilookup");
                        if ino != 1 { ensure_eq!(f.parent(), self.parent_of(ino), "ilookup's parent"); }
                    }
                    Err(e) => return fail(format!("ilookup: error {e}")),
                }
            }
            Readlink => {
                let c = self.select(|n| matches!(n.kind, Kind::Link(_)));
                let c = if c.is_empty() { self.select(|_| true) } else { c };
                let ino = *s.pick(&c);
                let want = match &self.nodes[&ino].kind { Kind::Link(t) => Ok(OsString::from_vec(t.clone())), _ => Err(libc::EINVAL) };
                ensure_eq!(fs.readlink(&self.fd(ino)).await, want, "readlink");
            }
            Inactive => {
                let c: Vec<u64> = self.open.iter().copied().collect();
                if c.is_empty() { return Ok(()); }
                let dying: Vec<u64> = c.iter().copied().filter(|i| self.nodes[i].nlink == 0).collect();
                let ino = if !dying.is_empty() && s.bool() { *s.pick(&dying) } else { *s.pick(&c) };
                s.note(format!("inactive {ino}"));
                self.close(fs, ino).await?;
            }
            RecSize => {
                self.recsize = *s.pick(&[12u8, 13, 14, 16, 17]);
                s.note(format!("recordsize {}", self.recsize));
                fs.set_prop(Property::RecordSize(self.recsize)).await.unwrap();
            }
            Atime => {
                self.atime = s.bool();
                s.note(format!("atime {}", self.atime));
                fs.set_prop(Property::Atime(self.atime)).await.unwrap();
            }
        }
        Ok(())
    }

    pub async fn close(&mut self, fs: &Fs, ino: u64) -> R {
        fs.inactive(FileDataMut::new_for_tests(self.parent_of(ino), ino)).await;
        self.open.remove(&ino);
        if self.nodes[&ino].nlink == 0 {
            let fd = self.fd(ino);
            self.gone(ino);
            ensure_eq!(fs.getattr(&fd).await, Err(libc::ENOENT), "getattr of a file unlinked and closed");
        } else {
            self.attr(fs, ino, SAME, (0, 0)).await?;
        }
        Ok(())
    }

    fn xname_of(&self, s: &mut Src, ino: u64) -> (u8, Name) {
        let have: Vec<_> = self.nodes[&ino].xattrs.keys().cloned().collect();
        if !have.is_empty() && s.chance(2, 3) { s.pick(&have).clone() } else { self.any_xname(s) }
    }

    async fn lookup(&mut self, s: &mut Src, fs: &Fs) -> R {
        let c = self.dirs();
        let dir = *s.pick(&c);
        let fd = self.fd(dir);
        match s.below(4) {
            0 if dir != 1 => {
                let p = self.nodes[&dir].parent;
                let gp = self.fd(p);
                let r = fs.lookup(Some(&gp), &fd, os(b"..")).await;
                s.note(format!("lookup {dir}/.."));
                let Ok(r) = r else { return fail("lookup of .. failed") };
                ensure_eq!((r.ino(), r.parent()), (p, self.parent_of(p)), "lookup of ..");
                let r = fs.lookup(Some(&gp), &fd, os(b".")).await;
                let Ok(r) = r else { return fail("lookup of . failed") };
                ensure_eq!((r.ino(), r.parent()), (dir, Some(p)), "lookup of .");
            }
            1 => {
                let name = self.free_name(s, dir);
                s.note(format!("lookup missing {dir}/{}", show(&name)));
                ensure_eq!(fs.lookup(None, &fd, os(&name)).await.map(|f| f.ino()), Err(libc::ENOENT), "lookup of a missing name");
            }
            _ => {
                let names: Vec<_> = self.nodes[&dir].entries.iter().map(|(k, v)| (k.clone(), *v)).collect();
                if names.is_empty() { return Ok(()); }
                let (name, ino) = s.pick(&names).clone();
                s.note(format!("lookup {dir}/{}", show(&name)));
                match fs.lookup(None, &fd, os(&name)).await {
                    Ok(f) => {
                        ensure_eq!((f.ino(), f.parent()), (ino, self.parent_of(ino)), "lookup");
                        self.open.insert(ino);
                    }
                    Err(e) => return fail(format!("lookup: error {e}")),
                }
            }
        }
        Ok(())
    }

    async fn rename(&mut self, s: &mut Src, fs: &Fs) -> R {
        let t0 = now();
        let all = self.all_names();
        if all.is_empty() { return self.make(s, fs, 0).await; }
        let (sdir, sname, ino) = s.pick(&all).clone();
        let isdir = self.nodes[&ino].kind.is_dir();
        // sometimes an existing name
        let existing: Vec<_> = all.iter().filter(|x| {
            x.2 != ino && self.nodes[&x.2].kind.is_dir() == isdir && !(isdir && self.is_ancestor(ino, x.0))
        }).cloned().collect();
        let (ddir, dname, old) = if !existing.is_empty() && s.chance(2, 5) {
            let x = s.pick(&existing).clone();
            (x.0, x.1, Some(x.2))
        } else {
            let dirs: Vec<u64> = self.dirs().into_iter().filter(|d| !(isdir && self.is_ancestor(ino, *d))).collect();
            let d = if s.chance(1, 3) { sdir } else { *s.pick(&dirs) };
            (d, self.free_name(s, d), None)
        };
        let r = fs.rename(&self.fd(sdir), &self.fd(ino), os(&sname), &self.fd(ddir), old, os(&dname)).await;
        s.note(format!("rename {sdir}/{} ({ino}) -> {ddir}/{} ({old:?}) = {r:?}", show(&sname), show(&dname)));
        if let Some(o) = old {
            if isdir && !self.nodes[&o].entries.is_empty() {
                ensure_eq!(r, Err(libc::ENOTEMPTY), "rename over a directory with contents");
                self.attr(fs, sdir, SAME, t0).await?;
                self.attr(fs, ddir, SAME, t0).await?;
                return self.attr(fs, o, SAME, t0).await;
            }
        }
        ensure_eq!(r, Ok(ino), "rename");
        self.nodes.get_mut(&sdir).unwrap().entries.remove(&sname);
        self.nodes.get_mut(&ddir).unwrap().entries.insert(dname, ino);
        if isdir {
            self.nodes.get_mut(&sdir).unwrap().nlink -= 1;
            self.nodes.get_mut(&ddir).unwrap().nlink += 1;
            self.nodes.get_mut(&ino).unwrap().parent = ddir;
        }
        if let Some(o) = old {
            if isdir {
                self.nodes.get_mut(&ddir).unwrap().nlink -= 1;
                self.gone(o);
                ensure_eq!(fs.igetattr(o).await, Err(libc::ENOENT), "getattr of a directory that was replaced");
            } else {
                let n = self.nodes.get_mut(&o).unwrap();
                n.nlink -= 1;
                if n.nlink == 0 {
                    // KNOWN: even if it's open (renamed-over-open)
                    self.gone(o);
                    ensure_eq!(fs.igetattr(o).await, Err(libc::ENOENT), "getattr of a file that was replaced");
                } else {
                    self.attr(fs, o, CT, t0).await?;
                }
            }
        }
        self.attr(fs, ino, [T::Same, T::Same, T::Any, T::Same], t0).await?;
        self.attr(fs, sdir, MC, t0).await?;
        self.attr(fs, ddir, MC, t0).await
    }

    pub async fn readdir_cmp(&self, fs: &Fs, ino: u64) -> Result<Vec<Ent>, Bad> {
        let all = read_all(fs, &self.fd(ino), 0).await?;
        let n = &self.nodes[&ino];
        let mut want: BTreeMap<Name, (u64, u8)> =
            n.entries.iter().map(|(k, v)| (k.clone(), (*v, self.nodes[v].kind.dtype()))).collect();
        want.insert(b".".to_vec(), (ino, 4));
        want.insert(b"..".to_vec(), (n.parent, 4));
        let got: BTreeMap<Name, (u64, u8)> = all.iter().map(|e| (e.0.clone(), (e.1, e.3))).collect();
        ensure!(got.len() == all.len(), "readdir of {ino} returned a name twice: {:?}", names(&all));
        ensure!(got == want, "readdir of {ino}: got {got:?}, want {want:?}");
        Ok(all)
    }

    pub async fn listx_cmp(&self, fs: &Fs, ino: u64) -> R {
        let mut got = match listx(fs, &self.fd(ino)).await { Ok(v) => v, Err(e) => return fail(format!("listextattr of {ino}: {e}")) };
        got.sort();
        let want: Vec<_> = self.nodes[&ino].xattrs.keys().cloned().collect();
        ensure!(got == want, "listextattr of {ino}: {got:?} rather than {want:?}");
        Ok(())
    }

    /// After the file system was mounted again: what was open isn't any more
    pub fn remounted(&mut self) {
        self.open.clear();
        for i in self.select(|n| n.nlink == 0) { self.gone(i) }
    }

    /// Compare everything
    pub async fn compare(&mut self, fs: &Fs) -> R {
        let inos: Vec<u64> = self.nodes.keys().copied().collect();
        for ino in inos {
            self.attr(fs, ino, SAME, (0, 0)).await?;
            let fd = self.fd(ino);
            let n = &self.nodes[&ino];
            match &n.kind {
                Kind::Dir => { self.readdir_cmp(fs, ino).await?; }
                Kind::Link(t) => ensure_eq!(fs.readlink(&fd).await, Ok(OsString::from_vec(t.clone())), "readlink"),
                Kind::Reg(_) => {
                    let t0 = now();
                    if n.size <= MAX_SMALL {
                        read_cmp(fs, &fd, ino, n, 0, n.size as usize + 10).await?;
                    } else {
                        let mut ps: BTreeSet<u64> = n.recs.keys().copied().collect();
                        ps.extend([0, n.size.saturating_sub(5000)]);
                        for p in ps {
                            read_cmp(fs, &fd, ino, n, p.saturating_sub(10), n.rs() as usize + 20).await?;
                        }
                    }
                    if self.atime {
                        self.attr(fs, ino, [T::Now, T::Same, T::Same, T::Same], t0).await?;
                    }
                }
                _ => {}
            }
            let n = &self.nodes[&ino];
            self.listx_cmp(fs, ino).await?;
            for ((sp, name), v) in &n.xattrs {
                match fs.getextattr(&fd, ns(*sp), os(name)).await {
                    Ok(b) => ensure!(b[..] == v[..], "extended attribute {sp}:{} of {ino} has the wrong value", show(name)),
                    Err(e) => return fail(format!("getextattr {ino} {sp}:{}: error {e}", show(name))),
                }
            }
        }
        for d in self.dead.iter().rev().take(5) {
            ensure_eq!(fs.igetattr(*d).await.map(|_| ()), Err(libc::ENOENT), "getattr of deleted inode {d}");
        }
        Ok(())
    }
}

pub type Ent = (Name, u64, i64, u8);
pub fn names(v: &[Ent]) -> Vec<String> { v.iter().map(|e| show(&e.0)).collect() }
pub async fn read_all(fs: &Fs, fd: &FileData, from: i64) -> Result<Vec<Ent>, Bad> {
    let st = fs.readdir(fd, from).take(100_000);
    match st.try_collect::<Vec<_>>().await {
        Ok(v) if v.len() == 100_000 => fail("readdir doesn't end"),
        Ok(v) => Ok(v.iter().map(ent).collect()),
        Err(e) => fail(format!("readdir: error {e}")),
    }
}
/// What a libc::dirent says
pub fn ent<D: Dirent>(d: &D) -> Ent { d.ent() }
pub trait Dirent { fn ent(&self) -> Ent; }
impl Dirent for bsd::dirent {
    fn ent(&self) -> Ent {
        let n = self.d_namlen as usize;
        (self.d_name[..n].iter().map(|c| *c as u8).collect(), self.d_fileno, self.d_off, self.d_type)
    }
}

pub fn check_attr(ino: u64, n: &Node, a: &GetAttr) -> R {
    ensure_eq!(a.ino, ino, "getattr's ino");
    let (fmt, rdev) = match &n.kind {
        Kind::Fifo => (0o010000, 0), Kind::Char(d) => (0o020000, *d), Kind::Dir => (0o040000, 0), Kind::Block(d) => (0o060000, *d),
        Kind::Reg(_) => (0o100000, 0), Kind::Link(_) => (0o120000, 0), Kind::Sock => (0o140000, 0),
    };
    ensure_eq!((a.mode.file_type(), a.mode.perm()), (fmt, n.perm), "mode of {ino}");
    ensure_eq!(a.rdev as u64, rdev, "device of {ino}");
    ensure_eq!(a.nlink, n.nlink, "link count of {ino}");
    ensure_eq!((a.uid, a.gid, a.flags), (n.uid, n.gid, n.flags), "owner and flags of {ino}");
    ensure_eq!(a.size, n.size, "size of {ino}");
    ensure_eq!(a.bytes, n.bytes(), "space used by {ino}");
    ensure_eq!(a.blksize as u64, n.rs(), "block size of {ino}");
    Ok(())
}

pub async fn read_cmp(fs: &Fs, fd: &FileData, ino: u64, n: &Node, off: u64, len: usize) -> R {
    let want = n.read(off, len);
    match fs.read(fd, off, len).await {
        Ok(v) => {
            let got = cat(&v);
            ensure!(got.len() == want.len(), "read of {ino} at {off}+{len} returned {} bytes, not {}", got.len(), want.len());
            if let Some(i) = (0..got.len()).find(|i| got[*i] != want[*i]) {
                let same = (i..got.len()).take_while(|i| got[*i] != want[*i]).count();
                return fail(format!("read of {ino} at {off}+{len}: wrong from {} for {same} bytes or so: {:#x} rather than {:#x}",
                    off + i as u64, got[i], want[i]));
            }
            Ok(())
        }
        Err(e) => fail(format!("read of {ino} at {off}+{len}: error {e}")),
    }
}

pub fn lseek_cmp(n: &Node, off: u64, data: Result<u64, i32>, hole: Result<u64, i32>) -> R {
    if off > n.size {
        ensure_eq!(data, Err(libc::ENXIO), "SEEK_DATA past the end");
        ensure_eq!(hole, Err(libc::ENXIO), "SEEK_HOLE past the end");
        return Ok(());
    }
    // the next byte that isn't zero
    let next = |from: u64| -> Option<u64> {
        n.chunks.range(from / C..).find_map(|(c, b)| {
            b.iter().enumerate().find(|(i, x)| **x != 0 && c * C + *i as u64 >= from).map(|(i, _)| c * C + i as u64)
        }).filter(|x| *x < n.size)
    };
    let nz = next(off);
    match data {
        Ok(d) => {
            ensure!(d >= off && d <= n.size, "SEEK_DATA from {off} of {} went to {d}", n.size);
            if let Some(x) = nz { ensure!(d <= x, "SEEK_DATA from {off} skipped data at {x}"); }
        }
        Err(libc::ENXIO) => ensure!(nz.is_none(), "SEEK_DATA from {off} says there's none, but there is at {nz:?}"),
        Err(e) => return fail(format!("SEEK_DATA: error {e}")),
    }
    match hole {
        Ok(h) => {
            ensure!(h >= off && h <= n.size, "SEEK_HOLE from {off} of {} went to {h}", n.size);
            if h < n.size { ensure!(next(h) != Some(h), "SEEK_HOLE from {off} went to {h}, where there is data"); }
        }
        Err(e) => return fail(format!("SEEK_HOLE: error {e}")),
    }
    // What has no space is a hole
    let d = n.recs.iter().find(|(r, l)| **r + **l > off).map(|(r, _)| off.max(*r));
    ensure_eq!(data, d.ok_or(libc::ENXIO), "SEEK_DATA from {off} of {}", n.size);
    let mut h = off;
    for (r, l) in &n.recs { if *r <= h && r + l > h { h = r + l } }
    // (POSIX allows the size after the last data)
    if d.is_some() || hole != Ok(n.size) { ensure_eq!(hole, Ok(h), "SEEK_HOLE from {off} of {}", n.size) }
    Ok(())
}
