//! Simulated disks (anonymous memory files) and pools made of them.
use bfffs_core::{
    cache::Cache, cluster::Cluster, database::{Database, Manager, TreeID}, ddml::DDML, fs::Fs, idml::IDML,
    mirror::Mirror, pool::Pool, property::Property,
};
use engine::Src;
use std::{
    fs::File,
    num::NonZeroU64,
    os::{fd::{AsRawFd, FromRawFd}, unix::fs::FileExt},
    path::PathBuf,
    sync::{Arc, Mutex},
};
use tokio_file::sim::{self, World};

pub const LBA: u64 = 4096;

/// A file in memory, that goes away with its last user
pub struct Disk { pub file: File, pub path: PathBuf, pub size: u64 }
impl Disk {
    pub fn new(size: u64) -> Self {
        let fd = unsafe { libc::memfd_create(c"disk".as_ptr(), libc::MFD_CLOEXEC) };
        assert!(fd >= 0, "memfd_create failed");
        let file = unsafe { File::from_raw_fd(fd) };
        file.set_len(size).unwrap();
        let path = PathBuf::from(format!("/proc/self/fd/{}", file.as_raw_fd()));
        Disk { file, path, size }
    }
    pub fn copy(&self) -> Self {
        let d = Disk::new(self.size);
        let mut off = 0i64;
        // copy data only
        loop {
            let s = unsafe { libc::lseek(self.file.as_raw_fd(), off, libc::SEEK_DATA) };
            if s < 0 { break; }
            let e = unsafe { libc::lseek(self.file.as_raw_fd(), s, libc::SEEK_HOLE) };
            let mut buf = vec![0; (e - s) as usize];
            self.file.read_exact_at(&mut buf, s as u64).unwrap();
            d.file.write_all_at(&buf, s as u64).unwrap();
            off = e;
        }
        d
    }
    pub fn read(&self, off: u64, len: usize) -> Vec<u8> {
        let mut b = vec![0; len];
        self.file.read_exact_at(&mut b, off).unwrap();
        b
    }
    /// The LBAs of the blocks in use from `start` on
    pub fn used(&self, start: u64) -> Vec<u64> {
        let mut v = vec![];
        let mut off = (start * LBA) as i64;
        loop {
            let s = unsafe { libc::lseek(self.file.as_raw_fd(), off, libc::SEEK_DATA) };
            if s < 0 { break; }
            let e = unsafe { libc::lseek(self.file.as_raw_fd(), s, libc::SEEK_HOLE) };
            v.extend(s as u64 / LBA..(e as u64).div_ceil(LBA));
            off = e;
        }
        v
    }
    /// Change a byte of one in `q` of the blocks in use from `start` on
    pub fn rot(&self, start: u64, seed: u64, q: u64) {
        let mut off = start as i64;
        loop {
            let s = unsafe { libc::lseek(self.file.as_raw_fd(), off, libc::SEEK_DATA) };
            if s < 0 { break; }
            let e = unsafe { libc::lseek(self.file.as_raw_fd(), s, libc::SEEK_HOLE) };
            let mut b = s as u64 / LBA * LBA;
            while b < e as u64 {
                let h = engine::mix(seed ^ b);
                if b >= start && h % q == 0 {
                    let o = b + (h >> 20) % LBA;
                    let x = self.read(o, 1)[0];
                    self.write(o, &[x ^ (1 + (h >> 40) % 255) as u8]);
                }
                b += LBA;
            }
            off = e;
        }
    }
    pub fn write(&self, off: u64, b: &[u8]) { self.file.write_all_at(b, off).unwrap() }
    pub fn len(&self) -> u64 { self.file.metadata().unwrap().len() }
}

/// How a cluster is laid out
#[derive(Clone, Debug)]
pub struct Raid {
    /// mirrors × children of each
    pub mirrors: Vec<usize>,
    pub chunk: Option<u64>,
    pub k: i16,
    pub f: i16,
}
impl Raid {
    pub fn single() -> Self { Raid { mirrors: vec![1], chunk: None, k: 1, f: 0 } }
    pub fn disks(&self) -> usize { self.mirrors.iter().sum() }
}

#[derive(Clone, Debug)]
pub struct Geometry {
    pub clusters: Vec<Raid>,
    /// LBAs
    pub zone: u64,
    pub disk_lbas: u64,
    pub cache: usize,
    pub writeback: usize,
}

/// The record sizes, chunk sizes, etc. are small so that small disks suffice.
pub fn any_raid(s: &mut Src, max_disks: usize) -> Raid {
    match s.weighted(&[4, 2, 2, 2]) {
        0 => Raid::single(),
        1 if max_disks >= 2 => Raid { mirrors: vec![s.urange(2, max_disks.min(3))], chunk: None, k: 1, f: 0 },
        2 if max_disks >= 3 => {
            let n = *s.pick(if max_disks >= 7 { &[3usize, 5, 7] } else if max_disks >= 5 { &[3, 5] } else { &[3] });
            let k = s.urange(2, n.min(5));
            let f = s.urange(1, (k - 1).min(2));
            let chunk = *s.pick(&[1u64, 2, 4]);
            Raid { mirrors: vec![1; n], chunk: Some(chunk), k: k as i16, f: f as i16 }
        }
        3 if max_disks >= 6 => {
            let k = s.urange(2, 3);
            let f = s.urange(1, k - 1);
            Raid { mirrors: vec![2; 3], chunk: Some(*s.pick(&[1u64, 2])), k: k as i16, f: f as i16 }
        }
        _ => Raid::single(),
    }
}

pub fn any_geometry(s: &mut Src, max_clusters: usize, max_disks: usize) -> Geometry {
    let n = s.urange(1, max_clusters);
    let clusters = (0..n).map(|_| any_raid(s, max_disks)).collect();
    let zone = *s.pick(&[256u64, 128, 64]);
    let zones = s.range(12, 40) * 256 / zone;
    Geometry {
        clusters, zone, disk_lbas: zone * zones,
        cache: *s.pick(&[16 << 20, 1 << 20, 300_000]),
        writeback: *s.pick(&[256 << 20, 64 << 20]),
    }
}

pub struct Rig {
    pub geo: Geometry,
    pub world: World,
    pub disks: Vec<Disk>,
    pub name: String,
}
impl Drop for Rig {
    fn drop(&mut self) { self.world.detach_all() }
}

impl Rig {
    fn world(seed: u64, max_delay: u32) -> World {
        let world = World::new(seed, max_delay);
        // Sometimes there are few resources for asynchronous I/O
        let h = engine::mix(seed ^ 0xa10);
        if max_delay > 0 && h % 4 == 0 { world.set_limit(Some(1 + (h >> 8) as u32 % 8), 0); }
        world
    }
    pub fn new(geo: Geometry, seed: u64, max_delay: u32) -> Self {
        let world = Rig::world(seed, max_delay);
        let n: usize = geo.clusters.iter().map(|c| c.disks()).sum();
        let disks: Vec<Disk> = (0..n).map(|_| Disk::new(geo.disk_lbas * LBA)).collect();
        for d in &disks { world.attach(&d.path); }
        Rig { geo, world, disks, name: "tank".into() }
    }
    /// The same pool on copies of the disks as they are
    pub fn copy(&self, seed: u64, max_delay: u32) -> Self {
        Rig::on(self.geo.clone(), self.disks.iter().map(Disk::copy).collect(), seed, max_delay)
    }
    pub fn on(geo: Geometry, disks: Vec<Disk>, seed: u64, max_delay: u32) -> Self {
        let world = Rig::world(seed, max_delay);
        for d in &disks { world.attach(&d.path); }
        Rig { geo, world, disks, name: "tank".into() }
    }
    /// LBAs for each copy of the free-space map
    pub fn spacemap(&self) -> u64 { self.geo.disk_lbas.div_ceil(self.geo.zone).div_ceil(255) }
    /// Is this byte of a disk in the given copy of the label and the free-space map?
    pub fn in_label(&self, copy: u64, off: u64) -> bool {
        let lba = off / LBA;
        let sm = 8 + copy * self.spacemap();
        (4 * copy..4 * copy + 4).contains(&lba) || (sm..sm + self.spacemap()).contains(&lba)
    }
    /// The numbers of the disks of each cluster, by mirror
    pub fn layout(&self) -> Vec<Vec<Vec<usize>>> {
        let mut i = 0;
        self.geo.clusters.iter().map(|c| c.mirrors.iter().map(|m| {
            let v = (i..i + m).collect();
            i += m;
            v
        }).collect()).collect()
    }
    pub fn pool(&self) -> Pool {
        let layout = self.layout();
        let clusters = self.geo.clusters.iter().zip(layout).map(|(c, l)| {
            Cluster::create(self.raid(c, &l))
        }).collect();
        Pool::create(self.name.clone(), clusters)
    }
    pub fn raid(&self, c: &Raid, l: &[Vec<usize>]) -> bfffs_core::raid::RaidImpl {
        let mirrors = l.iter().map(|m| {
            let paths: Vec<&PathBuf> = m.iter().map(|d| &self.disks[*d].path).collect();
            Mirror::create(&paths, NonZeroU64::new(self.geo.zone)).unwrap()
        }).collect();
        bfffs_core::raid::create(c.chunk.and_then(NonZeroU64::new), c.k, c.f, mirrors)
    }
    pub async fn create(&self) -> Arc<Database> {
        let cache = Arc::new(Mutex::new(Cache::with_capacity(self.geo.cache)));
        let ddml = Arc::new(DDML::create(self.pool(), cache.clone()));
        let idml = IDML::create(ddml, cache);
        Arc::new(Database::create(Arc::new(idml)))
    }
    pub async fn manager(&self) -> Result<Manager, bfffs_core::Error> {
        let all: Vec<usize> = (0..self.disks.len()).collect();
        self.manager_of(&all).await
    }
    pub async fn manager_of(&self, which: &[usize]) -> Result<Manager, bfffs_core::Error> {
        let mut m = Manager::default();
        m.cache_size(self.geo.cache);
        m.writeback_size(self.geo.writeback);
        for d in which { m.taste(&self.disks[*d].path).await?; }
        Ok(m)
    }
    pub async fn import(&self) -> Result<Arc<Database>, bfffs_core::Error> {
        self.manager().await?.import_by_name(&self.name).await.map(Arc::new)
    }
}

/// End this use of the pool in an orderly manner
pub async fn shutdown(db: Arc<Database>) {
    match Arc::try_unwrap(db) {
        Ok(db) => db.shutdown().await,
        Err(_) => panic!("the database is in use"),
    }
}

pub async fn new_fs(db: &Arc<Database>, parent: Option<TreeID>, name: &str, props: &[Property]) -> (TreeID, Fs) {
    let t = db.create_fs(parent, name.to_string()).await.unwrap();
    let fs = Fs::new(db.clone(), t).await;
    for p in props { fs.set_prop(p.clone()).await.unwrap(); }
    (t, fs)
}
