//! C28: space that is no longer used is free, and can be used again
use crate::{fsmodel::*, rt, t_fs::Live, world::*};
use bfffs_core::{database::Database, fs::Fs, property::Property};
use engine::*;
use std::time::Duration;

struct Lcg(u64);
impl Lcg {
    fn next(&mut self) -> u64 { self.0 = mix(self.0.wrapping_add(0x9E3779B97F4A7C15)); self.0 }
    /// Data that doesn't compress
    fn fill(&mut self, n: usize) -> Vec<u8> { (0..n.div_ceil(8)).flat_map(|_| self.next().to_le_bytes()).take(n).collect() }
}

async fn used(db: &Database) -> u64 {
    db.sync_transaction().await.unwrap();
    db.stat().await.used
}

/// Delete all files of a file system
async fn delete_all(l: &mut Live) -> R {
    let fs = l.fs.as_ref().unwrap();
    let open: Vec<u64> = l.m.open.iter().copied().collect();
    for ino in open { l.m.close(fs, ino).await? }
    fn rec<'a>(fs: &'a Fs, m: &'a Model, dir: u64) -> futures::future::LocalBoxFuture<'a, R> {
        Box::pin(async move {
            for (name, ino) in &m.nodes[&dir].entries {
                if m.nodes[ino].kind.is_dir() {
                    rec(fs, m, *ino).await?;
                    ensure_eq!(fs.rmdir(&m.fd(dir), os(name)).await, Ok(()), "rmdir at the end");
                } else {
                    ensure_eq!(fs.unlink(&m.fd(dir), None, os(name)).await, Ok(()), "unlink at the end");
                }
            }
            Ok(())
        })
    }
    rec(fs, &l.m, 1).await?;
    let x: Vec<(u8, Name)> = l.m.nodes[&1].xattrs.keys().cloned().collect();
    for (sp, n) in x { ensure_eq!(fs.deleteextattr(&l.m.fd(1), ns(sp), os(&n)).await, Ok(()), "deleteextattr at the end") }
    Ok(())
}

const EVENTS: &[(u32, &str)] = &[(6, "sync"), (4, "sleep"), (3, "drop cache"), (2, "remount"), (2, "reimport"), (3, "clean")];

fn leaks(s: &mut Src, p: Profile) -> R {
    let geo = any_geometry(s, 2, 3);
    s.note(format!("{geo:?}"));
    let seed = s.any();
    let delay = s.below(3) as u32;
    let rig = Rig::new(geo, seed, delay);
    rt::run(async {
        let db = rig.create().await;
        let (root, rfs) = new_fs(&db, None, "", &[]).await;
        drop(rfs);
        let before = used(&db).await;
        let (t, fs) = new_fs(&db, Some(root), "d", &[Property::RecordSize(*s.pick(&[12u8, 12, 13, 14, 17]))]).await;
        let fresh = used(&db).await;
        let m = Model::new(t, &fs).await;
        let mut l = Live { rig, db: Some(db), fs: Some(fs), m };
        l.m.recsize = match l.fs().get_prop(bfffs_core::property::PropertyName::RecordSize).await.unwrap().0 { Property::RecordSize(x) => x, _ => 17 };
        l.m.fams = (0..s.below(2)).map(|_| s.below(100)).collect();
        let n = s.urange(1, 120);
        let w: Vec<u32> = EVENTS.iter().map(|x| x.0).collect();
        for _ in 0..n {
            if s.chance(1, 8) {
                let e = EVENTS[s.weighted(&w)].1;
                s.note(e);
                s.class(e);
                match e {
                    "sync" => l.fs().sync().await,
                    "sleep" => tokio::time::sleep(Duration::from_millis(s.skew(1, 7000))).await,
                    "drop cache" => l.db().drop_cache(),
                    "remount" => l.remount().await,
                    "reimport" => l.reimport().await?,
                    _ => l.clean().await?,
                }
            } else {
                l.m.step(s, l.fs.as_ref().unwrap(), p).await?;
            }
        }
        if n >= 30 { s.nontrivial(); }
        if s.chance(2, 3) {
            s.note("delete all files");
            s.class("delete all files");
            if s.bool() { l.reimport().await?; }
            delete_all(&mut l).await?;
            let u = used(l.db()).await;
            ensure!(u <= fresh + 6, "{fresh} blocks were used by the empty file system, but {u} after deleting all files");
        }
        if s.bool() { l.reimport().await?; }
        l.fs = None;
        s.note("destroy the file system");
        ensure_eq!(l.db().destroy_fs(Some(root), t, "d").await, Ok(()), "destroy");
        let u = used(l.db()).await;
        ensure_eq!(u, before, "blocks used after destroying the file system, and before creating it");
        l.check().await?;
        l.finish().await;
        Ok(())
    })
}

/// The space of deleted and overwritten data can be used again and again
fn reuse(s: &mut Src) -> R {
    let mut geo = any_geometry(s, 2, 3);
    geo.disk_lbas = geo.zone * s.range(8, 16);
    geo.writeback = 256 << 20;
    // The biggest nodes must fit
    geo.cache = geo.cache.max(4 << 20);
    s.note(format!("{geo:?}"));
    let seed = s.any();
    let delay = s.below(2) as u32;
    let rig = Rig::new(geo, seed, delay);
    let mut rng = Lcg(s.any());
    rt::run(async {
        let db = rig.create().await;
        let rs = *s.pick(&[12u8, 14, 15]);
        let (t, fs) = new_fs(&db, None, "", &[Property::RecordSize(rs)]).await;
        let mut m = Model::new(t, &fs).await;
        m.recsize = rs;
        let mut l = Live { rig, db: Some(db), fs: Some(fs), m };
        let empty = used(l.db()).await;
        let size = l.db().stat().await.size;
        let total = s.range(2, 4) * size;
        // Blocks that may be in use at once
        let live = size / *s.pick(&[4u64, 5, 6]);
        // The files, with their sizes and the seed of their contents
        let mut files: Vec<(u64, u64, u64)> = Vec::new();
        let mut written = 0;
        let mut id = 0;
        let mut dirty = 0;
        while written < total {
            let have: u64 = files.iter().map(|f| f.1).sum();
            let max = (live / 4).max(1);
            let n = s.range(1, max);
            if have + n > live || (!files.is_empty() && s.chance(1, 4)) {
                let i = s.idx(files.len());
                if s.chance(1, 3) && have - files[i].1 + n <= live {
                    // overwrite
                    let seed = rng.next();
                    let fd = l.fs().lookup(None, &l.fs().root().handle(), os(format!("f{}", files[i].0).as_bytes())).await.unwrap();
                    let k = n.min(files[i].1);
                    s.note(format!("overwrite f{} with {k} blocks", files[i].0));
                    write(l.fs(), &fd.handle(), seed, k).await?;
                    l.fs().setattr(&fd.handle(), bfffs_core::fs::SetAttr { size: Some(k * 4096), ..Default::default() }).await.unwrap();
                    l.fs().inactive(fd).await;
                    files[i] = (files[i].0, k, seed);
                    written += k;
                    dirty += k;
                } else {
                    let f = files.swap_remove(i);
                    s.note(format!("delete f{}", f.0));
                    let root = l.fs().root();
                    ensure_eq!(l.fs().unlink(&root.handle(), None, os(format!("f{}", f.0).as_bytes())).await, Ok(()), "unlink");
                }
            } else {
                let seed = rng.next();
                s.note(format!("write f{id}, {n} blocks"));
                let root = l.fs().root();
                let fd = l.fs().create(&root.handle(), os(format!("f{id}").as_bytes()), 0o644, 0, 0).await.unwrap();
                write(l.fs(), &fd.handle(), seed, n).await?;
                l.fs().inactive(fd).await;
                files.push((id, n, seed));
                id += 1;
                written += n;
                dirty += n;
            }
            // Cleaning may take a while to bear fruit: zones that were cleaned are reused after the next sync
            if dirty > size / 8 || s.chance(1, 10) {
                s.note("sync, clean, sync");
                l.fs().sync().await;
                l.clean().await?;
                l.fs().sync().await;
                dirty = 0;
            }
            if s.chance(1, 30) { s.note("reimport"); s.class("reimport"); l.reimport().await?; }
            if s.chance(1, 30) { s.note("drop cache"); l.db().drop_cache(); }
        }
        s.nontrivial();
        for (id, n, seed) in &files {
            let fd = l.fs().lookup(None, &l.fs().root().handle(), os(format!("f{id}").as_bytes())).await.unwrap();
            let got = cat(&l.fs().read(&fd.handle(), 0, (*n * 4096) as usize).await.unwrap());
            ensure!(got == Lcg(*seed).fill((*n * 4096) as usize), "contents of f{id}");
            l.fs().inactive(fd).await;
        }
        let u = used(l.db()).await;
        let have: u64 = files.iter().map(|f| f.1).sum();
        ensure!(u >= have + empty - 2 && u <= empty + have + have / 4 + 16, "{u} blocks are used, when files use {have} and an empty pool {empty}");
        l.check().await?;
        l.finish().await;
        Ok(())
    })
}

async fn write(fs: &Fs, fd: &bfffs_core::fs::FileData, seed: u64, blocks: u64) -> R {
    let v = Lcg(seed).fill((blocks * 4096) as usize);
    let mut off = 0;
    // Larger writes would need more credit than there is, with small records
    for c in v.chunks(1 << 16) {
        ensure_eq!(fs.write(fd, off, c, 0).await, Ok(c.len() as u32), "write at {off}");
        off += c.len() as u64;
    }
    Ok(())
}

fn small_pool() -> Rig {
    let geo = Geometry { clusters: vec![Raid::single()], zone: 256, disk_lbas: 256 * 16, cache: 16 << 20, writeback: 64 << 20 };
    Rig::new(geo, 1, 0)
}

/// A write of many records must borrow more credit than there is
fn large_write(_s: &mut Src) -> R {
    let rig = small_pool();
    rt::run(async {
        let db = rig.create().await;
        let (t, fs) = new_fs(&db, None, "", &[Property::RecordSize(12)]).await;
        let m = Model::new(t, &fs).await;
        let mut l = Live { rig, db: Some(db), fs: Some(fs), m };
        l.reimport().await?;
        let root = l.fs().root();
        let fd = l.fs().create(&root.handle(), os(b"f"), 0o644, 0, 0).await.unwrap();
        ensure_eq!(l.fs().write(&fd.handle(), 0, &vec![1u8; 1 << 18][..], 0).await, Ok(1 << 18), "large write");
        Ok(())
    })
}

/// Filling the pool up should only fail the write
fn pool_full(_s: &mut Src) -> R {
    let rig = small_pool();
    rt::run(async {
        let db = rig.create().await;
        let (t, fs) = new_fs(&db, None, "", &[Property::RecordSize(14)]).await;
        let m = Model::new(t, &fs).await;
        let l = Live { rig, db: Some(db), fs: Some(fs), m };
        let root = l.fs().root();
        let fd = l.fs().create(&root.handle(), os(b"f"), 0o644, 0, 0).await.unwrap();
        let size = l.db().stat().await.size;
        let mut rng = Lcg(1);
        for i in 0..size / 16 + 1 {
            match l.fs().write(&fd.handle(), i << 16, &rng.fill(1 << 16)[..], 0).await {
                Ok(n) => ensure_eq!(n, 1 << 16, "short write"),
                Err(_) => break,
            }
            if i % 8 == 7 { l.fs().sync().await }
        }
        l.fs().sync().await;
        Ok(())
    })
}

pub fn checks() -> Vec<Check> {
    vec![
        Check::known("large-write", large_write),
        Check::known("pool-full", pool_full),
        Check::new("leaks-mixed", "30 operations or more", 40000, 1000000, |s| leaks(s, Profile::Mixed)),
        Check::new("leaks-data", "30 operations or more", 40000, 1000000, |s| leaks(s, Profile::Data)),
        Check::new("leaks-attrs", "30 operations or more", 40000, 1000000, |s| leaks(s, Profile::Attrs)),
        Check::new("reuse", "always", 1500, 20000, reuse),
    ]
}
