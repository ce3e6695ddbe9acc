//! C31: damage to the disks is noticed
use crate::{fsmodel::*, rt, t_fs::*, world::*};
use bfffs_core::{database::{Database, Manager}, fs::*, property::Property};
use engine::*;
use futures::{FutureExt, StreamExt};
use std::{panic::AssertUnwindSafe, sync::Arc};

/// What was asked of the damaged pool
#[derive(Default)]
struct Tally { ok: u64, err: u64 }
impl Tally {
    /// Was it refused for a reason that isn't an answer?
    fn err(&mut self, what: &str, e: i32) -> R {
        ensure!(![libc::ENOENT, 487, libc::ENOTDIR, libc::ENOTEMPTY].contains(&e), "{what}: error {e}, as if there were no such thing");
        self.err += 1;
        Ok(())
    }
}

async fn compare(m: &Model, fs: &Fs, t: &mut Tally) -> R {
    for (ino, n) in &m.nodes {
        let fd = m.fd(*ino);
        match fs.getattr(&fd).await {
            Ok(a) => {
                check_attr(*ino, n, &a)?;
                ensure_eq!([a.atime, a.mtime, a.ctime, a.birthtime].map(|t| (t.sec, t.nsec)), n.t, "times of {ino}");
                t.ok += 1;
            }
            Err(e) => t.err(&format!("getattr({ino})"), e)?,
        }
        match &n.kind {
            Kind::Dir => {
                let mut seen = std::collections::BTreeSet::new();
                let mut st = Box::pin(fs.readdir(&fd, 0).take(100_000));
                let mut whole = true;
                while let Some(r) = st.next().await {
                    match r {
                        Ok(d) => {
                            let e = ent(&d);
                            if e.0 == b"." || e.0 == b".." { continue; }
                            ensure_eq!(n.entries.get(&e.0), Some(&e.1), "entry {} of directory {ino}", show(&e.0));
                            ensure_eq!(e.3, m.nodes[&e.1].kind.dtype(), "type of entry {} of directory {ino}", show(&e.0));
                            ensure!(seen.insert(e.0.clone()), "readdir of {ino} returned {} twice", show(&e.0));
                        }
                        Err(e) => { t.err(&format!("readdir of {ino}"), e)?; whole = false; break; }
                    }
                    ensure!(seen.len() < 99_000, "readdir of {ino} doesn't end");
                }
                if whole {
                    ensure!(seen.len() == n.entries.len(), "readdir of {ino} returned {} entries of {}, and no error", seen.len(), n.entries.len());
                    t.ok += 1;
                }
                for (name, i) in &n.entries {
                    let gfd = if *ino == m.root { None } else { Some(m.fd(n.parent)) };
                    match fs.lookup(gfd.as_ref(), &fd, os(name)).await {
                        Ok(f) => {
                            ensure_eq!(f.ino(), *i, "lookup of {} in {ino}", show(name));
                            t.ok += 1;
                        }
                        Err(e) => t.err(&format!("lookup of {} in {ino}", show(name)), e)?,
                    }
                }
            }
            Kind::Link(want) => match fs.readlink(&fd).await {
                Ok(got) => { ensure!(got == os(want), "readlink of {ino}"); t.ok += 1; }
                Err(e) => t.err(&format!("readlink({ino})"), e)?,
            }
            Kind::Reg(_) => {
                let mut ps: std::collections::BTreeSet<u64> = n.recs.keys().copied().collect();
                ps.extend([0, n.size.saturating_sub(5000)]);
                for p in ps {
                    let (off, len) = (p.saturating_sub(10), n.rs() as usize + 20);
                    match fs.read(&fd, off, len).await {
                        Ok(v) => {
                            ensure!(cat(&v) == n.read(off, len), "read of {ino} at {off}+{len} returned something else than was written");
                            t.ok += 1;
                        }
                        Err(e) => t.err(&format!("read of {ino} at {off}+{len}"), e)?,
                    }
                    let (d, h) = (fs.lseek(&fd, p, SeekWhence::Data).await, fs.lseek(&fd, p, SeekWhence::Hole).await);
                    for r in [&d, &h] { if let Err(e) = r { if *e != libc::ENXIO { t.err(&format!("lseek of {ino}"), *e)?; } } }
                    if [&d, &h].iter().all(|r| matches!(r, Ok(_) | Err(libc::ENXIO))) { lseek_cmp(n, p, d, h)?; t.ok += 1; }
                }
            }
            _ => {}
        }
        for ((sp, name), v) in &n.xattrs {
            match fs.getextattr(&fd, ns(*sp), os(name)).await {
                Ok(b) => { ensure!(b[..] == v[..], "extended attribute {sp}:{} of {ino} has the wrong value", show(name)); t.ok += 1; }
                Err(e) => t.err(&format!("getextattr {ino} {sp}:{}", show(name)), e)?,
            }
        }
    }
    Ok(())
}

/// The damage that is done
#[derive(Clone, Copy, Debug, PartialEq)]
enum Damage { Bytes, Blocks, Misdirect, OneLabel, Labels, Map }

fn damage(s: &mut Src, rig: &Rig, kind: Damage) {
    let start = 8 + 2 * rig.spacemap();
    let all: Vec<usize> = (0..rig.disks.len()).collect();
    let which = if s.bool() { all } else { vec![s.idx(rig.disks.len())] };
    for d in which {
        let disk = &rig.disks[d];
        match kind {
            Damage::Bytes => {
                let q = *s.pick(&[20u64, 5, 50, 100, 2, 1]);
                s.note(format!("damage a byte of one in {q} blocks of disk {d}"));
                disk.rot(start * LBA, s.any(), q);
            }
            Damage::Blocks | Damage::Misdirect => {
                let q = *s.pick(&[20u64, 5, 50, 100, 2, 1]);
                let seed = s.any();
                s.note(format!("replace one in {q} blocks of disk {d}"));
                let used = disk.used(start);
                for b in &used {
                    let h = mix(seed ^ b);
                    if h % q != 0 { continue; }
                    let with = match (kind, h >> 20 & 3) {
                        (Damage::Misdirect, _) => disk.read(used[(h >> 24) as usize % used.len()] * LBA, LBA as usize),
                        (_, 0) => vec![0; LBA as usize],
                        (_, 1) => vec![255; LBA as usize],
                        _ => (0..LBA).map(|i| mix(h ^ i) as u8).collect(),
                    };
                    disk.write(b * LBA, &with);
                }
            }
            Damage::OneLabel => { let c = s.below(2); region(s, disk, d, 4 * c, 4) }
            Damage::Labels => { region(s, disk, d, 0, 4); region(s, disk, d, 4, 4) }
            Damage::Map => {
                if s.bool() { region(s, disk, d, 8, rig.spacemap()) }
                if s.bool() { region(s, disk, d, 8 + rig.spacemap(), rig.spacemap()) }
            }
        }
    }
}
/// Damage something in some blocks
fn region(s: &mut Src, disk: &Disk, d: usize, lba: u64, n: u64) {
    let (off, len) = (lba * LBA, (n * LBA) as usize);
    match s.weighted(&[4, 2, 1, 1]) {
        0 => {
            // mostly where there is something
            let o = if s.chance(3, 4) { s.below(300) } else { s.below(len as u64) };
            let x = disk.read(off + o, 1)[0];
            let y = x ^ s.range(1, 255) as u8;
            s.note(format!("byte {o} of LBA {lba} of disk {d}: {x} -> {y}"));
            disk.write(off + o, &[y]);
        }
        1 => {
            let o = s.below(100).min(len as u64 - 1);
            let l = s.urange(1, 100);
            let v = s.bytes(l);
            s.note(format!("{l} bytes from {o} of LBA {lba} of disk {d}"));
            disk.write(off + o, &v);
        }
        2 => { s.note(format!("zero LBA {lba}..{} of disk {d}", lba + n)); disk.write(off, &vec![0; len]) }
        _ => { s.note(format!("overwrite LBA {lba}..{} of disk {d}", lba + n)); let v = s.bytes(len); disk.write(off, &v) }
    }
}

/// Import what there is of the pool
async fn import(rig: &Rig) -> Result<Arc<Database>, bfffs_core::Error> {
    let mut m = Manager::default();
    m.cache_size(rig.geo.cache);
    m.writeback_size(rig.geo.writeback);
    for d in &rig.disks { let _ = m.taste(&d.path).await; }
    m.import_by_name(&rig.name).await.map(Arc::new)
}

fn damaged(s: &mut Src, kinds: &[Damage], live: bool) -> R {
    let mut geo = any_geometry(s, 2, 6);
    if s.bool() { for c in geo.clusters.iter_mut() { *c = Raid::single() } }
    let seed = s.any();
    s.note(format!("{geo:?}"));
    let delay = s.below(4) as u32;
    let rig = Rig::new(geo, seed, delay);
    rt::run(async {
        let mut l = Live::new(s, rig).await;
        let n = s.urange(1, 100);
        for _ in 0..n {
            if s.chance(1, 20) {
                l.event(s, Event::Sync).await?;
            } else {
                l.m.step(s, l.fs.as_ref().unwrap(), Profile::Mixed).await?;
            }
        }
        l.fs().set_prop(Property::Atime(false)).await.unwrap();
        l.m.atime = false;
        // Leave nothing to be done at the next mount
        l.remount().await;
        l.fs().sync().await;
        l.m.compare(l.fs.as_ref().unwrap()).await?;
        l.fs().sync().await;
        if live {
            l.db().drop_cache();
        } else {
            l.finish().await;
        }

        let mut only_one = true;
        for _ in 0..s.urange(1, 2) {
            let k = *s.pick(kinds);
            if k != Damage::OneLabel { only_one = false; }
            s.class(match k {
                Damage::Bytes => "bytes", Damage::Blocks => "blocks", Damage::Misdirect => "misdirected writes", Damage::OneLabel => "one label",
                Damage::Labels => "labels", Damage::Map => "space map",
            });
            damage(s, &l.rig, k);
            if k == Damage::OneLabel { break; }
        }
        if live {
            let mut t = Tally::default();
            for _ in 0..s.urange(1, 3) {
                compare(&l.m, l.fs(), &mut t).await?;
                if s.bool() { l.db().drop_cache(); }
            }
            s.note(format!("{} requests succeeded, {} failed", t.ok, t.err));
            if t.err > 0 { s.class("some requests failed"); s.nontrivial(); }
            l.finish().await;
            return Ok(());
        }
        let db = match import(&l.rig).await {
            Ok(db) => db,
            Err(e) => {
                s.note(format!("import: {e:?}"));
                s.class("not imported");
                ensure!(!only_one, "import with one damaged label failed: {e:?}");
                if kinds.len() > 1 { s.nontrivial(); }
                return Ok(());
            }
        };
        let fs = AssertUnwindSafe(Fs::new(db.clone(), l.m.tree)).catch_unwind().await;
        let fs = match fs {
            Ok(fs) => fs,
            Err(_) => {
                // KNOWN: unmountable
                let m = stray_panic().unwrap_or_default();
                s.class("not mounted");
                ensure!(!only_one, "mounting: {m}");
                ensure!(m.contains("Unhandled error EINTEGRITY") || m.contains("Unhandled error ENXIO"), "mounting: {m}");
                return Ok(());
            }
        };
        let mut t = Tally::default();
        compare(&l.m, &fs, &mut t).await?;
        s.note(format!("{} requests succeeded, {} failed", t.ok, t.err));
        if t.err > 0 { s.class("some requests failed"); s.nontrivial(); }
        if only_one { s.nontrivial(); ensure!(t.err == 0, "with only a label damaged, {} requests failed", t.err); }
        drop(fs);
        shutdown(db).await;
        Ok(())
    })
}

/// A small pool on a disk of which all blocks are damaged
fn ruined(mount: bool) -> R {
    let geo = Geometry { clusters: vec![Raid::single()], zone: 256, disk_lbas: 256 * 12, cache: 1 << 20, writeback: 64 << 20 };
    let rig = Rig::new(geo, 1, 0);
    rt::run(async {
        let db = rig.create().await;
        let (tree, fs) = new_fs(&db, None, "", &[]).await;
        let fd = fs.create(&fs.root().handle(), os(b"x"), 0o644, 0, 0).await.unwrap();
        fs.sync().await;
        let r = if mount {
            drop(fs);
            shutdown(db).await;
            for b in rig.disks[0].used(10) { rig.disks[0].write(b * LBA, &[0x55; LBA as usize]); }
            let db = import(&rig).await.unwrap();
            AssertUnwindSafe(Fs::new(db, tree)).catch_unwind().await.map(|_| ())
        } else {
            db.drop_cache();
            for b in rig.disks[0].used(10) { rig.disks[0].write(b * LBA, &[0x55; LBA as usize]); }
            AssertUnwindSafe(fs.inactive(fd)).catch_unwind().await
        };
        ensure!(r.is_ok(), "{}", stray_panic().unwrap_or_default());
        Ok(())
    })
}

pub fn checks() -> Vec<Check> {
    use Damage::*;
    vec![
        Check::known("unmountable", |_| ruined(true)),
        Check::known("forget-unreadable", |_| ruined(false)),
        Check::new("blocks", "some requests failed", 30000, 300000, |s| damaged(s, &[Bytes, Blocks, Misdirect], false)),
        Check::new("mounted", "some requests failed", 30000, 300000, |s| damaged(s, &[Bytes, Blocks, Misdirect], true)),
        Check::new("labels", "the pool could not be imported, or it was with one damaged label", 30000, 300000, |s| damaged(s, &[OneLabel, OneLabel, Labels], false)),
        Check::new("maps", "the pool could not be imported", 30000, 300000, |s| damaged(s, &[Map, Labels], false)),
    ]
}
