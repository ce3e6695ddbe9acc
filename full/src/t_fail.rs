//! C24: failures of disks lose nothing; C25: nor does replacing them
use crate::{fsmodel::*, rt, t_fs::{Event, Live}, world::*};
use bfffs_core::{database::Manager, fs::Fs, vdev::Health, Error, Uuid};
use engine::*;
use std::{sync::Arc, time::Duration};
use tokio_file::sim::{Fault, Kind};

const EVENTS: &[(Event, u32)] = &[
    (Event::Sync, 4), (Event::Fsync, 3), (Event::Sleep, 3), (Event::DropCache, 4), (Event::Remount, 2), (Event::Reimport, 1),
    (Event::Clean, 2), (Event::Check, 1),
];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum St {
    Good,
    /// Faulted by the administrator, since the last import
    Faulted,
    /// Missing at the last import
    Missing,
    /// All reads of data fail
    Eio,
    /// Some blocks' contents changed
    Rotten,
    /// Being rebuilt
    Rebuilding,
}

struct Leaf {
    st: St,
    uuid: Uuid,
    /// May it come back?
    back: bool,
}
/// A mirror, or a single disk, within a cluster
struct Mir { leaves: Vec<usize>, faulted: bool, uuid: Uuid }
struct Clu { mirrors: Vec<Mir>, f: usize }

struct Arr {
    l: Live,
    disks: Vec<Leaf>,
    clusters: Vec<Clu>,
    replace: bool,
}

impl Arr {
    async fn new(s: &mut Src, rig: Rig, replace: bool) -> Self {
        let layout = rig.layout();
        let l = Live::new(s, rig).await;
        l.fs().sync().await;
        let st = l.db().status().await;
        let mut disks = Vec::new();
        let clusters = layout.iter().zip(&st.clusters).zip(&l.rig.geo.clusters).map(|((lc, sc), g)| {
            let mirrors = lc.iter().zip(&sc.mirrors).map(|(lm, sm)| {
                for (d, leaf) in lm.iter().zip(&sm.leaves) {
                    assert_eq!(disks.len(), *d);
                    assert_eq!(leaf.path, l.rig.disks[*d].path);
                    disks.push(Leaf { st: St::Good, uuid: leaf.uuid, back: true });
                }
                Mir { leaves: lm.clone(), faulted: false, uuid: sm.uuid }
            }).collect();
            Clu { mirrors, f: g.f as usize }
        }).collect();
        Arr { l, disks, clusters, replace }
    }
    fn good(&self, m: &Mir) -> usize { if m.faulted { 0 } else { m.leaves.iter().filter(|d| self.disks[**d].st == St::Good).count() } }
    /// Would everything still be readable if this disk failed in a way that the other disks of its mirror can, or can't, make up for?
    fn may_fail(&self, d: usize, how: St) -> bool {
        for c in &self.clusters {
            let Some(mi) = c.mirrors.iter().position(|m| m.leaves.contains(&d)) else { continue };
            let raid = c.mirrors.len() > 1;
            let failed = |m: &Mir| -> bool {
                let this = m.leaves.contains(&d);
                let st = |x: usize| if x == d { how } else { self.disks[x].st };
                let _ = this;
                let good = m.leaves.iter().filter(|x| st(**x) == St::Good).count();
                m.faulted || good == 0 || raid && m.leaves.iter().any(|x| matches!(st(*x), St::Eio | St::Rotten))
            };
            let _ = mi;
            let n = c.mirrors.iter().filter(|m| failed(m)).count();
            return n <= c.f;
        }
        false
    }
    fn mirror_may_fail(&self, ci: usize, mi: usize) -> bool {
        let c = &self.clusters[ci];
        let n = c.mirrors.iter().enumerate().filter(|(i, m)| {
            *i == mi || m.faulted || self.good(m) == 0 || m.leaves.iter().any(|x| matches!(self.disks[*x].st, St::Eio | St::Rotten))
        }).count();
        c.mirrors.len() > 1 && n <= c.f
    }
    fn in_faulted(&self, d: usize) -> bool {
        self.clusters.iter().flat_map(|c| &c.mirrors).any(|m| m.faulted && m.leaves.contains(&d))
    }
    async fn fault(&self, uuid: Uuid) -> R {
        for _ in 0..1000 {
            match self.l.db().fault(uuid).await {
                Ok(()) => return Ok(()),
                // It's in use for a moment
                Err(Error::EAGAIN) => tokio::time::sleep(Duration::from_millis(10)).await,
                Err(e) => return fail(format!("fault: {e:?}")),
            }
        }
        fail("fault: always EAGAIN")
    }
    async fn reimport(&mut self, s: &mut Src) -> R {
        self.rebuilt().await;
        // KNOWN: a disk that has been rebuilt gets a label only with the next transaction.  And one that hasn't got one
        // without its upper parts.
        if self.disks.iter().any(|d| !d.back) {
            self.l.m.apply(s, self.l.fs.as_ref().unwrap(), Op::Create).await?;
            for d in &mut self.disks { d.back = d.st == St::Good; }
        }
        for d in &mut self.disks { d.back &= d.st != St::Rebuilding; }
        // Disks that fail to read may be left out, faulted ones must
        let mut which = Vec::new();
        let mut returning = Vec::new();
        for d in 0..self.disks.len() {
            let st = self.disks[d].st;
            let mirror_faulted = self.in_faulted(d);
            match st {
                St::Faulted | St::Missing | St::Rebuilding => {
                    // The mirror's other disks can bring it up to date
                    let m = self.clusters.iter().flat_map(|c| &c.mirrors).find(|m| m.leaves.contains(&d)).unwrap();
                    if self.replace && m.leaves.iter().any(|x| self.disks[*x].st == St::Good) && !mirror_faulted && self.disks[d].back && s.chance(1, 2) {
                        returning.push(d);
                    }
                    self.disks[d].st = St::Missing;
                }
                _ if mirror_faulted => self.disks[d].st = St::Missing,
                St::Good if s.chance(1, 6) && self.may_fail(d, St::Missing) => {
                    s.note(format!("without disk {d}"));
                    s.class("missing at import");
                    self.disks[d].st = St::Missing;
                }
                St::Eio if s.bool() => self.disks[d].st = St::Missing,
                _ => which.push(d),
            }
        }
        for m in self.clusters.iter_mut().flat_map(|c| &mut c.mirrors) { m.faulted = false; }
        // unless those were left out, too
        returning.retain(|d| {
            let m = self.clusters.iter().flat_map(|c| &c.mirrors).find(|m| m.leaves.contains(d)).unwrap();
            m.leaves.iter().any(|x| self.disks[*x].st == St::Good)
        });
        for d in &returning {
            s.note(format!("disk {d} returns"));
            s.class("disk returns");
            which.push(*d);
        }
        s.shuffle(&mut which);
        self.l.fs().sync().await;
        self.l.fs = None;
        shutdown(self.l.db.take().unwrap()).await;
        let mut m = Manager::default();
        m.cache_size(self.l.rig.geo.cache);
        m.writeback_size(self.l.rig.geo.writeback);
        for d in which {
            match m.taste(&self.l.rig.disks[d].path).await {
                Ok(()) => if self.disks[d].st == St::Missing { self.disks[d].st = St::Rebuilding },
                Err(e) => return fail(format!("taste of disk {d}: {e:?}")),
            }
        }
        match m.import_by_name(&self.l.rig.name).await.map(Arc::new) {
            Ok(db) => self.l.db = Some(db),
            Err(e) => return fail(format!("import of a pool that was shut down: {e:?}")),
        }
        self.wait(s).await?;
        self.l.fs = Some(Fs::new(self.l.db().clone(), self.l.m.tree).await);
        self.l.m.remounted();
        Ok(())
    }
    async fn rebuilt(&mut self) {
        let st = self.l.db().status().await;
        for leaf in st.clusters.iter().flat_map(|c| &c.mirrors).flat_map(|m| &m.leaves) {
            if let Some(d) = self.l.rig.disks.iter().position(|d| d.path == leaf.path) {
                if self.disks[d].st == St::Rebuilding && leaf.health == Health::Online { self.disks[d].st = St::Good; }
            }
        }
    }
    async fn wait(&mut self, s: &mut Src) -> R {
        for _ in 0..1000 {
            self.rebuilt().await;
            let can = |m: &&Mir| self.good(m) > 0;
            if self.clusters.iter().flat_map(|c| &c.mirrors).filter(can).flat_map(|m| &m.leaves).all(|d| self.disks[*d].st != St::Rebuilding) { return Ok(()); }
            tokio::time::sleep(Duration::from_millis(10)).await;
        }
        fail("the mirror wasn't rebuilt in 10 seconds")
    }
    async fn attach(&mut self, ci: usize, mi: usize, uuid: Uuid) -> R {
        let disk = Disk::new(self.l.rig.geo.disk_lbas * LBA);
        self.l.rig.world.attach(&disk.path);
        let path = disk.path.clone();
        let d = self.disks.len();
        self.l.rig.disks.push(disk);
        for n in 0.. {
            match self.l.db().attach(uuid, &path).await {
                Ok(()) => break,
                Err(Error::EAGAIN) if n < 1000 => tokio::time::sleep(Duration::from_millis(10)).await,
                Err(e) => return fail(format!("attach: {e:?}")),
            }
        }
        let st = self.l.db().status().await;
        let uuid = st.clusters[ci].mirrors[mi].leaves.iter().find(|l| l.path == path).unwrap().uuid;
        self.disks.push(Leaf { st: St::Rebuilding, uuid, back: false });
        self.clusters[ci].mirrors[mi].leaves.push(d);
        Ok(())
    }
    async fn status(&mut self) -> R {
        self.rebuilt().await;
        let st = self.l.db().status().await;
        for (c, sc) in self.clusters.iter().zip(&st.clusters) {
            ensure!(!sc.health.is_faulted(), "a cluster with enough members is {:?}", sc.health);
            for (m, sm) in c.mirrors.iter().zip(&sc.mirrors) {
                ensure_eq!(m.uuid, sm.uuid, "order of mirrors");
                let bad = m.faulted || m.leaves.iter().any(|d| matches!(self.disks[*d].st, St::Faulted | St::Missing | St::Rebuilding));
                ensure_eq!(bad, sm.health != Health::Online, "health of a mirror is {:?}", sm.health);
            }
        }
        Ok(())
    }
    async fn failure(&mut self, s: &mut Src) -> R {
        let r = if self.replace { 4 } else { 0 };
        match s.weighted(&[3, 2, 3, 3, 1, r]) {
            0 => {
                let c: Vec<usize> = (0..self.disks.len()).filter(|d| matches!(self.disks[*d].st, St::Good | St::Eio | St::Rotten) && self.may_fail(*d, St::Faulted) && !self.in_faulted(*d)).collect();
                if c.is_empty() { return Ok(()); }
                let d = *s.pick(&c);
                s.note(format!("fault disk {d}"));
                s.class("fault disk");
                self.fault(self.disks[d].uuid).await?;
                self.disks[d].st = St::Faulted;
            }
            1 => {
                let c: Vec<(usize, usize)> = (0..self.clusters.len()).flat_map(|c| (0..self.clusters[c].mirrors.len()).map(move |m| (c, m)))
                    .filter(|(c, m)| !self.clusters[*c].mirrors[*m].faulted && self.mirror_may_fail(*c, *m)).collect();
                if c.is_empty() { return Ok(()); }
                let (c, m) = *s.pick(&c);
                s.note(format!("fault mirror {m} of cluster {c}"));
                s.class("fault mirror");
                self.fault(self.clusters[c].mirrors[m].uuid).await?;
                self.clusters[c].mirrors[m].faulted = true;
            }
            2 => {
                s.note("reimport");
                s.class("reimport");
                self.reimport(s).await?;
            }
            3 => {
                let how = *s.pick(&[St::Eio, St::Rotten]);
                let c: Vec<usize> = (0..self.disks.len()).filter(|d| self.disks[*d].st == St::Good && self.may_fail(*d, how)).collect();
                if c.is_empty() || self.replace { return Ok(()); }
                let d = *s.pick(&c);
                s.note(format!("disk {d} becomes {how:?}"));
                self.disks[d].st = how;
                let start = (8 + 2 * self.l.rig.spacemap()) * LBA;
                if how == St::Eio {
                    s.class("read errors");
                    let a = start + s.below(2) * s.below(self.l.rig.geo.disk_lbas * LBA / 2);
                    self.l.rig.world.add_fault(Fault { disk: d, kind: Kind::Read, range: a..u64::MAX, skip: 0, count: u64::MAX, errno: libc::EIO });
                } else {
                    s.class("rot");
                    let q = *s.pick(&[1u64, 2, 10]);
                    self.l.rig.disks[d].rot(start, s.any(), q);
                }
            }
            4 => self.status().await?,
            _ => {
                let c: Vec<(usize, usize)> = (0..self.clusters.len()).flat_map(|c| (0..self.clusters[c].mirrors.len()).map(move |m| (c, m)))
                    .filter(|(c, m)| {
                        let m = &self.clusters[*c].mirrors[*m];
                        self.good(m) > 0 && m.leaves.len() < 5 && m.leaves.iter().all(|d| self.disks[*d].st != St::Rebuilding)
                    }).collect();
                if c.is_empty() { return Ok(()); }
                let (ci, mi) = *s.pick(&c);
                let uuid = if s.bool() { self.clusters[ci].mirrors[mi].uuid } else { self.disks[*s.pick(&self.clusters[ci].mirrors[mi].leaves)].uuid };
                s.note(format!("attach disk {} to mirror {mi} of cluster {ci}", self.disks.len()));
                s.class("attach");
                // KNOWN: what's written during rebuilding may not get to the new disk
                self.l.fs().sync().await;
                self.attach(ci, mi, uuid).await?;
                self.wait(s).await?;
            }
        }
        Ok(())
    }
}

fn failures(s: &mut Src, p: Profile, replace: bool) -> R {
    let mut geo = any_geometry(s, 1, 7);
    for _ in 0..3 {
        if geo.clusters[0].disks() > 1 { break; }
        geo.clusters = vec![any_raid(s, 7)];
    }
    if geo.clusters[0].disks() == 1 && !replace { return Err(Bad::Discard); }
    if s.chance(1, 4) { geo.clusters.push(Raid { mirrors: vec![2], chunk: None, k: 1, f: 0 }); }
    let seed = s.any();
    s.note(format!("{geo:?}"));
    let delay = s.below(4) as u32;
    let rig = Rig::new(geo, seed, delay);
    rt::run(async {
        let mut a = Arr::new(s, rig, replace).await;
        let n = s.urange(1, 80);
        let w: Vec<u32> = EVENTS.iter().map(|x| x.1).collect();
        let mut nfail = 0;
        for _ in 0..n {
            if s.chance(1, 7) {
                match EVENTS[s.weighted(&w)].0 {
                    Event::Reimport => a.reimport(s).await?,
                    e => a.l.event(s, e).await?,
                }
            } else if s.chance(1, 12) {
                a.failure(s).await?;
                nfail += 1;
            } else {
                a.l.m.step(s, a.l.fs.as_ref().unwrap(), p).await?;
            }
        }
        if nfail >= 2 { s.nontrivial(); }
        if replace {
            if s.chance(3, 4) {
                // See what the new disks have
                for d in (0..a.disks.len()).rev() {
                    if a.disks[d].st == St::Good && !a.in_faulted(d) && a.may_fail(d, St::Faulted) {
                        s.note(format!("fault disk {d}"));
                        a.fault(a.disks[d].uuid).await?;
                        a.disks[d].st = St::Faulted;
                    }
                }
            }
        }
        s.note("final comparison");
        a.l.m.compare(a.l.fs.as_ref().unwrap()).await?;
        a.l.db().drop_cache();
        a.l.check().await?;
        a.reimport(s).await?;
        a.l.m.compare(a.l.fs.as_ref().unwrap()).await?;
        a.status().await?;
        a.l.finish().await;
        Ok(())
    })
}

fn small(clusters: Vec<Raid>) -> Geometry {
    Geometry { clusters, zone: 256, disk_lbas: 256 * 16, cache: 16 << 20, writeback: 64 << 20 }
}

/// A member that was faulted while the others were written is taken to be up to date at the next import
fn stale_raid_member(s: &mut Src) -> R {
    for first in [true, false] {
        let geo = small(vec![Raid { mirrors: vec![1; 3], chunk: Some(1), k: 2, f: 1 }]);
        rt::run(async {
            let mut a = Arr::new(s, Rig::new(geo, 1, 0), false).await;
            a.fault(a.disks[0].uuid).await?;
            let fd = a.l.fs().create(&a.l.m.fd(1), os(b"f"), 0o644, 0, 0).await.unwrap();
            let b = vec![1u8; 100_000];
            for i in 0..10 { a.l.fs().write(&fd.handle(), i * 100_000, &b[..], 0).await.unwrap(); }
            let ino = a.l.fs().getattr(&fd.handle()).await.unwrap().ino;
            a.l.fs().inactive(fd).await;
            a.l.fs().sync().await;
            a.l.fs = None;
            shutdown(a.l.db.take().unwrap()).await;
            let mut m = a.l.rig.manager_of(if first { &[0, 1, 2] } else { &[1, 2, 0] }).await.unwrap();
            let db = match m.import_by_name(&a.l.rig.name).await.map(Arc::new) {
                Ok(db) => db,
                Err(e) => return fail(format!("import: {e:?}")),
            };
            let fs = Fs::new(db.clone(), a.l.m.tree).await;
            let fd = match fs.lookup(None, &a.l.m.fd(1), os(b"f")).await {
                Ok(fd) => fd,
                Err(e) => return fail(format!("lookup: {e:?}")),
            };
            ensure_eq!(fs.getattr(&fd.handle()).await.unwrap().ino, ino, "inode");
            for i in 0..10 {
                match fs.read(&fd.handle(), i * 100_000, 100_000).await {
                    Ok(r) => ensure!(r.iter().all(|db| db.iter().all(|x| *x == 1)), "contents"),
                    Err(e) => return fail(format!("read: {e:?}")),
                }
            }
            fs.inactive(fd).await;
            drop(fs);
            shutdown(db).await;
            Ok(())
        })?;
    }
    Ok(())
}

/// A rebuilt disk gets its label with the next transaction only
fn rebuilt_unlabelled(s: &mut Src) -> R {
    rt::run(async {
        let mut a = Arr::new(s, Rig::new(small(vec![Raid::single()]), 1, 0), true).await;
        a.attach(0, 0, a.clusters[0].mirrors[0].uuid).await?;
        a.wait(s).await?;
        a.l.reimport().await?;
        let st = a.l.db().status().await;
        ensure_eq!(st.clusters[0].mirrors[0].leaves.len(), 2, "disks of the mirror after import");
        a.l.finish().await;
        Ok(())
    })
}

/// What is written during rebuilding may be missing from the new disk
fn write_during_rebuild(s: &mut Src) -> R {
    for i in 0..20 {
        rt::run(async {
            let mut a = Arr::new(s, Rig::new(small(vec![Raid::single()]), i, 3), true).await;
            let fd = a.l.fs().create(&a.l.m.fd(1), os(b"f"), 0o644, 0, 0).await.unwrap();
            let b = vec![1u8; 100_000];
            a.attach(0, 0, a.clusters[0].mirrors[0].uuid).await?;
            for i in 0..30 {
                a.l.fs().write(&fd.handle(), i * 100_000, &b[..], 0).await.unwrap();
                if i % 5 == 0 { a.l.fs().sync().await }
            }
            a.wait(s).await?;
            a.l.fs().sync().await;
            a.fault(a.disks[0].uuid).await?;
            a.l.db().drop_cache();
            for i in 0..30 {
                match a.l.fs().read(&fd.handle(), i * 100_000, 100_000).await {
                    Ok(r) => ensure!(r.iter().all(|db| db.iter().all(|x| *x == 1)), "contents"),
                    Err(e) => return fail(format!("read: {e:?}")),
                }
            }
            a.l.fs().inactive(fd).await;
            a.l.finish().await;
            Ok(())
        })?;
    }
    Ok(())
}

pub fn checks24() -> Vec<Check> {
    vec![
        Check::known("stale-raid-member", stale_raid_member),
        Check::new("failures", "two failures or more", 40000, 400000, |s| failures(s, Profile::Mixed, false)),
        Check::new("failures-data", "two failures or more", 40000, 400000, |s| failures(s, Profile::Data, false)),
    ]
}

pub fn checks25() -> Vec<Check> {
    vec![
        Check::known("rebuilt-unlabelled", rebuilt_unlabelled),
        Check::known("write-during-rebuild", write_during_rebuild),
        Check::new("replace", "two failures or more", 40000, 400000, |s| failures(s, Profile::Mixed, true)),
        Check::new("replace-data", "two failures or more", 40000, 400000, |s| failures(s, Profile::Data, true)),
    ]
}
