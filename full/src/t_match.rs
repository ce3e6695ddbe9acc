//! C36: every disk is used for the pool that its label names, and for no other
use crate::{fsmodel::*, rt, t_fs::Live, world::*};
use bfffs_core::{database::Manager, fs::Fs, vdev::Health, Error, Uuid};
use engine::*;
use std::{collections::BTreeSet, path::PathBuf, sync::Arc};

const NAMES: &[&str] = &["tank", "tank", "tank2", "tan", "a", "Tank", "pool", "tank "];

/// What becomes of a disk while its pool is exported
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Fate {
    Good,
    /// One of its labels is damaged, which must not matter
    Damaged,
    /// Not there
    Absent,
    /// Both of its labels are damaged
    Unlabelled,
    /// Made part of another pool
    Reused,
}
impl Fate { fn found(self) -> bool { matches!(self, Fate::Good | Fate::Damaged) } }

struct P {
    l: Live,
    uuid: Uuid,
    fate: Vec<Fate>,
    /// The disks of each mirror of each cluster, and the number of mirrors that may be missing
    layout: Vec<(Vec<Vec<usize>>, usize)>,
}
impl P {
    fn missing(&self, fate: &[Fate]) -> bool {
        self.layout.iter().any(|(c, f)| c.iter().filter(|m| !m.iter().any(|d| fate[*d].found())).count() > *f)
    }
    fn complete(&self) -> bool { !self.missing(&self.fate) }
    fn gone(&self) -> bool { self.layout.iter().any(|(c, _)| c.iter().flatten().all(|d| !self.fate[*d].found())) }
    fn listed(&self) -> bool { self.fate.iter().any(|f| f.found()) }
    fn paths(&self) -> BTreeSet<PathBuf> {
        (0..self.fate.len()).filter(|d| self.fate[*d].found()).map(|d| self.l.rig.disks[d].path.clone()).collect()
    }
}

const LABEL: usize = 4 * LBA as usize;

fn spoil(s: &mut Src, d: &Disk, copy: u64) {
    let off = copy * LABEL as u64;
    match s.below(4) {
        0 => d.write(off, &vec![0; LABEL]),
        1 => d.write(off, &fill(s.any(), LABEL)),
        2 => { let i = s.below(16); let x = d.read(off + i, 1)[0]; d.write(off + i, &[x ^ (1 << s.below(8))]) }
        _ => d.write(off, &vec![0xff; LBA as usize]),
    }
}

async fn step(s: &mut Src, p: &mut P, n: usize) -> R {
    for _ in 0..n { p.l.m.step(s, p.l.fs.as_ref().unwrap(), Profile::Mixed).await?; }
    Ok(())
}

async fn matched(s: &mut Src) -> R {
    let mut ps: Vec<P> = vec![];
    let npools = s.urange(1, 4);
    for i in 0..npools {
        let mut geo = any_geometry(s, 2, 7);
        geo.cache = 4 << 20;
        geo.disk_lbas = geo.zone * *s.pick(&[2560 / geo.zone, 4096 / geo.zone]);
        let n: usize = geo.clusters.iter().map(|c| c.disks()).sum();
        let mut disks: Vec<Disk> = (0..n).map(|_| Disk::new(geo.disk_lbas * LBA)).collect();
        // Some disks come from earlier pools, with all that is on them
        for d in disks.iter_mut() {
            if i == 0 || !s.chance(1, 5) { continue }
            let j = s.idx(i);
            let p: &mut P = &mut ps[j];
            let Some(k) = (0..p.fate.len()).find(|k| {
                let mut f = p.fate.clone();
                f[*k] = Fate::Reused;
                p.fate[*k] != Fate::Reused && p.l.rig.disks[*k].size == d.size && !p.missing(&f)
            }) else { continue };
            s.note(format!("disk {k} of pool {j} is used for pool {i}"));
            s.class("reused disk");
            p.fate[k] = Fate::Reused;
            *d = p.l.rig.disks[k].copy();
        }
        let seed = s.any();
        let mut rig = Rig::on(geo.clone(), disks, seed, 0);
        rig.name = s.pick(NAMES).to_string();
        s.note(format!("pool {i}: {:?} {geo:?}", rig.name));
        let layout = rig.layout().into_iter().zip(&geo.clusters).map(|(c, g)| (c, g.f as usize)).collect();
        let l = Live::new(s, rig).await;
        let st = l.db().status().await;
        ensure_eq!(st.name, l.rig.name, "name of the new pool");
        let mut p = P { l, uuid: st.uuid, fate: vec![Fate::Good; n], layout };
        p.l.m.budget = 100_000;
        p.l.m.maxdata = 20_000;
        let k = s.urange(1, 10);
        step(s, &mut p, k).await?;
        p.l.fs().sync().await;
        p.l.finish().await;
        ps.push(p);
    }
    if npools > 1 { s.nontrivial(); }
    // Damage
    for i in 0..ps.len() {
        for d in 0..ps[i].fate.len() {
            if ps[i].fate[d] != Fate::Good { continue }
            let how = [Fate::Good, Fate::Damaged, Fate::Absent, Fate::Unlabelled][s.weighted(&[8, 2, 2, 1])];
            let mut f = ps[i].fate.clone();
            f[d] = how;
            // Mostly, the pool should remain usable
            if ps[i].missing(&f) && !s.chance(1, 20) { continue }
            if how != Fate::Good { s.note(format!("disk {d} of pool {i} becomes {how:?}")); }
            match how {
                Fate::Damaged => { s.class("damaged label"); let c = s.below(2); spoil(s, &ps[i].l.rig.disks[d], c) }
                Fate::Unlabelled => {
                    s.class("no label");
                    for c in 0..2 { spoil(s, &ps[i].l.rig.disks[d], c) }
                }
                Fate::Absent => s.class("absent disk"),
                _ => (),
            }
            ps[i].fate = f;
        }
    }
    let rounds = s.urange(1, 2);
    for round in 0..rounds {
        let mut mgr = Manager::default();
        if s.bool() { mgr.cache_size(4 << 20); }
        if s.bool() { mgr.writeback_size(64 << 20); }
        // Tell it about all of the disks, in any order, and about other things
        let mut all: Vec<(usize, usize)> = ps.iter().enumerate().flat_map(|(i, p)| (0..p.fate.len()).map(move |d| (i, d))).collect();
        all.retain(|(i, d)| !matches!(ps[*i].fate[*d], Fate::Absent | Fate::Reused));
        s.shuffle(&mut all);
        let mut tasted: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); ps.len()];
        for (i, d) in &all {
            if s.chance(1, 8) {
                let x = Disk::new(*s.pick(&[0u64, 1, 512, 4096, 16384, 20000, 32768, 1 << 20]));
                if s.bool() { x.write(0, &fill(s.any(), x.size as usize)); }
                ps[0].l.rig.world.attach(&x.path);
                s.class("other file");
                ensure!(mgr.taste(&x.path).await.is_err(), "taste found a label where there is none");
            }
            if s.chance(1, 20) {
                ensure_eq!(mgr.taste("/nonexistent/disk").await, Err(Error::ENOENT), "taste of a file that doesn't exist");
            }
            let r = mgr.taste(&ps[*i].l.rig.disks[*d].path).await;
            if ps[*i].fate[*d].found() {
                ensure_eq!(r, Ok(()), "taste of disk {d} of pool {i}");
                tasted[*i].insert(*d);
            } else {
                ensure!(r.is_err(), "taste of disk {d} of pool {i}, which has no label");
            }
            if s.chance(1, 10) {
                // Every pool with a disk so far, once
                let mut got = mgr.importable_pools();
                got.sort();
                let mut want: Vec<(String, Uuid)> = ps.iter().zip(&tasted).filter(|(_, t)| !t.is_empty()).map(|(p, _)| (p.l.rig.name.clone(), p.uuid)).collect();
                want.sort();
                ensure_eq!(got, want, "importable pools");
            }
        }
        // Import them, in any order
        let mut todo: Vec<usize> = (0..ps.len()).filter(|i| ps[*i].listed()).collect();
        s.shuffle(&mut todo);
        let mut done = vec![false; ps.len()];
        let mut unknown = BTreeSet::new();
        for _ in 0..todo.len() {
            let list = mgr.importable_pools();
            let got: BTreeSet<(String, Uuid)> = list.iter().filter(|(_, u)| !unknown.contains(u)).cloned().collect();
            let want: BTreeSet<(String, Uuid)> = todo.iter().map(|i| (ps[*i].l.rig.name.clone(), ps[*i].uuid)).collect();
            ensure_eq!(got, want, "importable pools");
            if s.chance(1, 5) {
                // What isn't there, or isn't any more
                let n = s.pick(&["nothing", "tan%", "", "TANK", "tank\0"]).to_string();
                ensure_eq!(mgr.import_by_name(&n).await.err(), Some(Error::ENOENT), "import of {n:?}");
                ensure_eq!(mgr.import_by_uuid(Uuid::new_v4()).await.err(), Some(Error::ENOENT), "import of an unknown uuid");
                for (i, p) in ps.iter().enumerate() {
                    if done[i] { ensure_eq!(mgr.import_by_uuid(p.uuid).await.err(), Some(Error::ENOENT), "second import") }
                    if !todo.iter().any(|j| ps[*j].l.rig.name == p.l.rig.name) && !unknown.iter().any(|u| list.iter().any(|(n, v)| v == u && *n == p.l.rig.name)) {
                        ensure_eq!(mgr.import_by_name(&p.l.rig.name).await.err(), Some(Error::ENOENT), "import by the name of a pool that can't be")
                    }
                }
            }
            let i = todo[0];
            let by_uuid = s.bool();
            let name = ps[i].l.rig.name.clone();
            s.note(format!("import pool {i} by {}", if by_uuid { "uuid" } else { "name" }));
            let usable = |i: usize| ps[i].complete();
            let same: Vec<usize> = todo.iter().copied().filter(|j| ps[*j].l.rig.name == name).collect();
            if !by_uuid && same.iter().any(|j| !usable(*j)) { todo.rotate_left(1); continue }
            let r = if by_uuid { mgr.import_by_uuid(ps[i].uuid).await } else { mgr.import_by_name(&name).await };
            if !usable(i) {
                s.class("too few disks");
                // With some of each cluster's disks it may be imported, with none it can't
                if ps[i].gone() { ensure!(r.is_err(), "import of a pool although a cluster is missing"); }
                if let Ok(db) = r { db.shutdown().await; }
                unknown.insert(ps[i].uuid);
                todo.remove(0);
                continue
            }
            let db = match r { Ok(db) => Arc::new(db), Err(e) => return fail(format!("import of pool {i}: {e:?}")) };
            let st = db.status().await;
            ensure_eq!(st.name, name, "name of the imported pool");
            let i = if by_uuid { i } else {
                match same.iter().find(|j| ps[**j].uuid == st.uuid) { Some(j) => *j, None => return fail("imported another pool") }
            };
            if same.len() > 1 { s.class("same name") }
            ensure_eq!(st.uuid, ps[i].uuid, "uuid of the imported pool");
            let leaves: Vec<_> = st.clusters.iter().flat_map(|c| &c.mirrors).flat_map(|m| &m.leaves).collect();
            let found: BTreeSet<PathBuf> = leaves.iter().filter(|l| l.health == Health::Online).map(|l| l.path.clone()).collect();
            ensure_eq!(found, ps[i].paths(), "disks of pool {i}");
            ensure_eq!(st.clusters.len(), ps[i].layout.len(), "clusters");
            for (c, sc) in ps[i].layout.iter().zip(&st.clusters) {
                ensure_eq!(sc.mirrors.len(), c.0.len(), "mirrors");
                for (m, sm) in c.0.iter().zip(&sc.mirrors) {
                    for l in &sm.leaves {
                        if l.health != Health::Online { continue }
                        ensure!(m.iter().any(|d| ps[i].l.rig.disks[*d].path == l.path), "a disk is in another mirror");
                    }
                }
            }
            todo.retain(|j| *j != i);
            done[i] = true;
            let p = &mut ps[i];
            p.l.fs = Some(Fs::new(db.clone(), p.l.m.tree).await);
            p.l.db = Some(db);
            p.l.m.remounted();
            if s.bool() { p.l.m.compare(p.l.fs.as_ref().unwrap()).await?; }
        }
        // Use all of them
        let n = s.urange(0, 10);
        for _ in 0..n {
            let c: Vec<usize> = (0..ps.len()).filter(|i| done[*i]).collect();
            if c.is_empty() { break }
            let i = *s.pick(&c);
            step(s, &mut ps[i], 1).await?;
            if s.chance(1, 4) { ps[i].l.fs().sync().await; }
        }
        for i in 0..ps.len() {
            if !done[i] { continue }
            let p = &mut ps[i];
            p.l.m.compare(p.l.fs.as_ref().unwrap()).await?;
            p.l.db().drop_cache();
            p.l.check().await?;
            p.l.m.compare(p.l.fs.as_ref().unwrap()).await?;
            p.l.fs().sync().await;
            p.l.finish().await;
            // Both labels have been written
            for f in &mut p.fate { if *f == Fate::Damaged { *f = Fate::Good } }
        }
        let _ = round;
    }
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![Check::new("matched", "two pools or more", 40000, 400000, |s| rt::run(matched(s)))]
}
