//! C37: everything on the disks is accounted for, and the pool's check finds what isn't
use crate::{audit::*, fsmodel::*, rt, t_fs::{Event, Live}, world::*};
use bfffs_core::{
    cache::Cache, database::{Database, TreeID}, ddml::{DDML, DRP}, dml::{Compression, DML}, fs::Fs, idml::IDML, property::Property,
    types::{PBA, TxgT},
};
use divbuf::DivBufShared;
use engine::*;
use std::{collections::BTreeMap, sync::{Arc, Mutex}};

const EVENTS: &[(Event, u32)] = &[
    (Event::Sync, 4), (Event::Fsync, 3), (Event::Sleep, 3), (Event::DropCache, 4), (Event::Remount, 2), (Event::Reimport, 2), (Event::Clean, 4),
];

async fn look(s: &mut Src, l: &Live) -> Result<Report, Bad> {
    l.db().sync_transaction().await.unwrap();
    if s.bool() { l.db().drop_cache(); }
    let r = audit(l.db()).await?;
    l.check().await?;
    Ok(r)
}

/// A file system with many files
struct Bulk { fs: Option<Fs>, files: BTreeMap<u64, u64>, next: u64 }
impl Bulk {
    async fn step(&mut self, s: &mut Src, may_grow: bool) -> R {
        let fs = self.fs.as_ref().unwrap();
        let root = fs.root().handle();
        match s.weighted(&[if may_grow { 5 } else { 0 }, if may_grow { 3 } else { 0 }, 3, 2]) {
            0 => {
                let n = s.skew(1, 200);
                let max = *s.pick(&[0u64, 100, 5000, 10_000]);
                s.note(format!("make {n} files of up to {max} bytes"));
                s.class("many files");
                let seed = s.any();
                for i in 0..n {
                    let name = format!("file number {}", self.next);
                    let fd = fs.create(&root, os(name.as_bytes()), 0o644, 0, 0).await.unwrap();
                    let len = if max == 0 { 0 } else { mix(seed ^ i) % max };
                    if len > 0 { ensure_eq!(fs.write(&fd.handle(), 0, &random(seed ^ i << 20, len as usize)[..], 0).await, Ok(len as u32), "write"); }
                    fs.inactive(fd).await;
                    self.files.insert(self.next, len);
                    self.next += 1;
                }
            }
            1 => {
                let len = s.skew(1, 600_000);
                s.note(format!("make a file of {len} bytes"));
                s.class("large file");
                let fd = fs.create(&root, os(format!("file number {}", self.next).as_bytes()), 0o644, 0, 0).await.unwrap();
                let b = random(s.any(), len as usize);
                for (i, c) in b.chunks(16384).enumerate() { fs.write(&fd.handle(), i as u64 * 16384, c, 0).await.unwrap(); }
                fs.inactive(fd).await;
                self.files.insert(self.next, len);
                self.next += 1;
            }
            2 => {
                if self.files.is_empty() { return Ok(()) }
                let q = *s.pick(&[1u64, 2, 2, 10, 50]);
                s.note(format!("delete one in {q} files"));
                s.class("delete many");
                let seed = s.any();
                let v: Vec<u64> = self.files.keys().copied().filter(|i| mix(seed ^ i) % q == 0).collect();
                for i in v {
                    let name = format!("file number {i}");
                    if mix(seed ^ i << 8) % 3 == 0 {
                        ensure_eq!(fs.unlink(&root, None, os(name.as_bytes())).await, Ok(()), "unlink");
                    } else {
                        let fd = fs.lookup(None, &root, os(name.as_bytes())).await.unwrap();
                        ensure_eq!(fs.unlink(&root, Some(&fd.handle()), os(name.as_bytes())).await, Ok(()), "unlink");
                        fs.inactive(fd).await;
                    }
                    self.files.remove(&i);
                }
            }
            _ => {
                if self.files.is_empty() { return Ok(()) }
                let q = *s.pick(&[1u64, 3, 10, 50]);
                s.note(format!("rewrite one in {q} files"));
                s.class("rewrite many");
                let seed = s.any();
                let v: Vec<u64> = self.files.keys().copied().filter(|i| mix(seed ^ i) % q == 0).collect();
                for i in v {
                    let len = self.files[&i];
                    let fd = fs.lookup(None, &root, os(format!("file number {i}").as_bytes())).await.unwrap();
                    let h = mix(seed ^ i << 12);
                    match h % 3 {
                        0 if len > 0 => {
                            let off = (h >> 8) % len;
                            let n = 1 + (h >> 30) % (len - off).min(9000);
                            fs.write(&fd.handle(), off, &random(h, n as usize)[..], 0).await.unwrap();
                        }
                        1 if len > 0 => {
                            let off = (h >> 8) % len;
                            fs.deallocate(&fd.handle(), off, 1 + (h >> 30) % (len - off)).await.unwrap();
                        }
                        _ => {
                            let n = (h >> 8) % (len + 1);
                            fs.setattr(&fd.handle(), bfffs_core::fs::SetAttr { size: Some(n), ..Default::default() }).await.unwrap();
                            self.files.insert(i, n);
                        }
                    }
                    fs.inactive(fd).await;
                }
            }
        }
        Ok(())
    }
}

/// Data that don't compress
fn random(seed: u64, n: usize) -> Vec<u8> {
    (0..n.div_ceil(8) as u64).flat_map(|i| mix(seed.wrapping_mul(31).wrapping_add(i)).to_le_bytes()).take(n).collect()
}

fn audits(s: &mut Src, p: Profile) -> R {
    let mut geo = any_geometry(s, 2, 7);
    geo.cache = geo.cache.max(4 << 20);
    s.note(format!("{geo:?}"));
    let seed = s.any();
    let delay = s.below(4) as u32;
    let rig = Rig::new(geo, seed, delay);
    rt::run(async {
        let mut l = Live::new(s, rig).await;
        // Other file systems, that may be destroyed
        let mut others: Vec<(TreeID, String, Option<Fs>, Model)> = vec![];
        let mut nds = 0;
        // And one with many files, whose contents don't matter
        let (bt, bfs) = new_fs(l.db(), Some(l.m.tree), "bulk", &[Property::RecordSize(*s.pick(&[12u8, 12, 13, 16]))]).await;
        let mut bulk = Bulk { fs: Some(bfs), files: BTreeMap::new(), next: 0 };
        let room = l.db().stat().await.size / 3;
        let w: Vec<u32> = EVENTS.iter().map(|x| x.1).collect();
        let n = s.urange(1, 120);
        let mut last = Report::default();
        for _ in 0..n {
            match s.weighted(&[50, 8, 3, 2, 5, 8]) {
                0 => l.m.step(s, l.fs.as_ref().unwrap(), p).await?,
                1 => {
                    let e = EVENTS[s.weighted(&w)].0;
                    if matches!(e, Event::Reimport) {
                        for o in &mut others { o.2.take().unwrap().sync().await }
                        bulk.fs.take().unwrap().sync().await;
                    }
                    l.event(s, e).await?;
                    if matches!(e, Event::Reimport) {
                        for o in &mut others {
                            o.2 = Some(Fs::new(l.db().clone(), o.0).await);
                            o.3.remounted();
                        }
                        bulk.fs = Some(Fs::new(l.db().clone(), bt).await);
                    }
                }
                2 => {
                    s.note("audit");
                    last = look(s, &l).await?;
                    if last.records > 20 { s.nontrivial(); }
                }
                3 if others.len() < 3 => {
                    s.class("create_fs");
                    nds += 1;
                    let name = format!("fs{nds}");
                    s.note(format!("create {name}"));
                    let (t, fs) = new_fs(l.db(), Some(l.m.tree), &name, &[Property::Atime(true), Property::RecordSize(*s.pick(&[12u8, 14, 17]))]).await;
                    let mut m = Model::new(t, &fs).await;
                    m.recsize = fs.get_prop(bfffs_core::property::PropertyName::RecordSize).await.unwrap().0.as_u8();
                    m.budget = 50_000;
                    m.maxdata = 20_000;
                    others.push((t, name, Some(fs), m));
                }
                3 => {
                    s.class("destroy_fs");
                    let (t, name, fs, m) = others.swap_remove(s.idx(others.len()));
                    s.note(format!("destroy {name}"));
                    drop((fs, m));
                    let r = l.db().destroy_fs(Some(l.m.tree), t, &name).await;
                    ensure!(r.is_ok(), "destroy_fs: {r:?}");
                }
                5 => {
                    let may_grow = l.db().stat().await.used < room;
                    bulk.step(s, may_grow).await?;
                }
                _ => if !others.is_empty() {
                    let i = s.idx(others.len());
                    let (_, _, fs, m) = &mut others[i];
                    m.step(s, fs.as_ref().unwrap(), p).await?;
                }
            }
        }
        s.note("final audit");
        let r = look(s, &l).await?;
        if r.records > 20 { s.nontrivial(); }
        if r.records > 200 { s.class("200 records"); }
        if r.trees.len() > 2 { s.class("three trees"); }
        drop(last);
        for o in &mut others { o.2 = None; }
        bulk.fs = None;
        l.finish().await;
        Ok(())
    })
}

/// So many records that the tables of records have several levels
fn large(s: &mut Src) -> R {
    let zone = *s.pick(&[256u64, 1024]);
    let geo = Geometry { clusters: vec![Raid::single(); s.urange(1, 2)], zone, disk_lbas: 40 * 1024, cache: 64 << 20, writeback: 256 << 20 };
    let seed = s.any();
    let mut rig = Rig::new(geo, seed, 0);
    rt::run(async {
        let mut db = rig.create().await;
        let (t, fs) = new_fs(&db, None, "", &[Property::RecordSize(12)]).await;
        let mut bulk = Bulk { fs: Some(fs), files: BTreeMap::new(), next: 0 };
        let n = s.urange(3, 25);
        let room = db.stat().await.size / 2;
        for i in 0..n {
            if i > 2 && s.chance(1, 3) {
                match s.below(5) {
                    0 => { s.note("clean"); ensure!(db.clean().await.is_ok(), "clean") }
                    1 => { s.note("sync"); db.sync_transaction().await.unwrap() }
                    2 => db.drop_cache(),
                    3 => {
                        s.note("reimport");
                        bulk.fs.take().unwrap().sync().await;
                        shutdown(db).await;
                        rig = Rig::on(rig.geo.clone(), std::mem::take(&mut rig.disks), s.any(), 0);
                        db = match rig.import().await { Ok(db) => db, Err(e) => return fail(format!("import: {e:?}")) };
                        bulk.fs = Some(Fs::new(db.clone(), t).await);
                    }
                    _ => {
                        s.note("audit");
                        db.sync_transaction().await.unwrap();
                        audit(&db).await?;
                    }
                }
            }
            if i < 3 || s.bool() && db.stat().await.used < room {
                // Many records at once
                let len = s.range(500, 4000) * 4096;
                s.note(format!("a file of {len} bytes"));
                let fs = bulk.fs.as_ref().unwrap();
                let fd = fs.create(&fs.root().handle(), os(format!("file number {}", bulk.next).as_bytes()), 0o644, 0, 0).await.unwrap();
                let b = random(s.any(), len as usize);
                for (i, c) in b.chunks(16384).enumerate() { fs.write(&fd.handle(), i as u64 * 16384, c, 0).await.unwrap(); }
                fs.inactive(fd).await;
                bulk.files.insert(bulk.next, len);
                bulk.next += 1;
            } else {
                let g = db.stat().await.used < room;
                bulk.step(s, g).await?
            }
        }
        db.sync_transaction().await.unwrap();
        let r = audit(&db).await?;
        match db.check().await { Ok(true) => (), x => return fail(format!("check of a pool in order: {x:?}")) }
        if r.direct.len() > 2 { s.nontrivial(); }
        if r.direct.len() > 10 { s.class("ten nodes of the tables"); }
        bulk.fs = None;
        shutdown(db).await;
        Ok(())
    })
}

/// Make a pool inconsistent, and check it
fn noticed(s: &mut Src) -> R {
    let zone = *s.pick(&[256u64, 128]);
    let geo = Geometry { clusters: vec![Raid::single(); s.urange(1, 2)], zone, disk_lbas: 4096, cache: 16 << 20, writeback: 64 << 20 };
    let seed = s.any();
    let rig = Rig::new(geo, seed, 0);
    rt::run(async {
        let cache = Arc::new(Mutex::new(Cache::with_capacity(16 << 20)));
        let ddml = Arc::new(DDML::create(rig.pool(), cache.clone()));
        let idml = IDML::create(ddml.clone(), cache);
        let db = Arc::new(Database::create(Arc::new(idml)));
        let (t, fs) = new_fs(&db, None, "", &[Property::RecordSize(12)]).await;
        let mut bulk = Bulk { fs: Some(fs), files: BTreeMap::new(), next: 0 };
        for _ in 0..s.urange(0, 5) { bulk.step(s, true).await? }
        if s.bool() { new_fs(&db, Some(t), "other", &[]).await; }
        db.sync_transaction().await.unwrap();
        let rep = audit(&db).await?;
        if rep.records > 20 { s.nontrivial(); }
        match db.check().await { Ok(true) => (), x => return fail(format!("check of a pool in order: {x:?}")) }
        if s.bool() { db.drop_cache(); }
        match s.below(4) {
            0 => {
                let mut all = rep.nodes.clone();
                all.extend(&rep.direct);
                let ((c, lba), n) = *s.pick(&all);
                let off = s.below((n - 1) * LBA + 1);
                s.note(format!("damage byte {off} of the node at {lba} of disk {c}, one of {}", all.len()));
                s.class("damaged node");
                let d = &rig.disks[c as usize];
                let x = d.read(lba * LBA + off, 1)[0];
                d.write(lba * LBA + off, &[x ^ (1 << s.below(8))]);
                db.drop_cache();
            }
            1 => {
                s.note("a block without an owner");
                s.class("leaked block");
                let n = s.skew(1, 9000) as usize;
                if ddml.put(DivBufShared::from(random(1, n)), Compression::None, TxgT::from(3)).await.is_err() { return Err(Bad::Discard) }
            }
            _ => {
                // A record whose space is free
                let d = s.pick(&rep.drps);
                s.note(format!("free {d}"));
                s.class("freed record");
                let n = |k: &str| d[k].as_u64().unwrap();
                let pba = PBA::new(d["pba"]["cluster"].as_u64().unwrap() as u16, d["pba"]["lba"].as_u64().unwrap());
                let c = if d["compressed"].as_bool().unwrap() { Compression::LZ4(None) } else { Compression::None };
                let drp = DRP::new(pba, c, n("lsize") as u32, n("csize") as u32, n("checksum"));
                ensure_eq!(ddml.delete(&drp, TxgT::from(3)).await, Ok(()), "delete");
            }
        }
        match db.check().await {
            Ok(true) => fail("the check found nothing wrong"),
            _ => Ok(()),
        }
    })
}

pub fn checks() -> Vec<Check> {
    vec![
        Check::new("audit", "more than 20 records at an audit", 3000, 60000, |s| audits(s, Profile::Mixed)),
        Check::new("audit-data", "more than 20 records at an audit", 3000, 60000, |s| audits(s, Profile::Data)),
        Check::new("audit-names", "more than 20 records at an audit", 3000, 60000, |s| audits(s, Profile::Names)),
        Check::new("audit-large", "the RIDT or the AllocT has several nodes", 150, 3000, large).shrink(50),
        Check::new("noticed-tree", "a tree with several leaves", 4000, 100000, crate::t_tree::noticed),
        Check::new("noticed", "a pool with more than 20 records", 2000, 50000, noticed),
        Check::new("audit-attrs", "more than 20 records at an audit", 3000, 60000, |s| audits(s, Profile::Attrs)),
    ]
}
