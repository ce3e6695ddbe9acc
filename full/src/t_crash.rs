//! C22: after a crash, the pool is as it was at a sync
use crate::{fsmodel::*, rt::{self, Yield}, t_fs::{Event, Live}, world::*};
use bfffs_core::{fs::Fs, property::{Property, PropertyName}};
use engine::*;
use futures::future::join;
use std::{collections::{BTreeSet, HashMap}, time::Duration};
use tokio::time::Instant;
use tokio_file::sim;

const EVENTS: &[(Event, u32)] = &[
    (Event::Sync, 8), (Event::Fsync, 4), (Event::Sleep, 4), (Event::DropCache, 1), (Event::Remount, 1), (Event::Clean, 3),
];
const SYNCED: u64 = 1 << 32;

/// What a crash leaves of writes that weren't synced
#[derive(Clone, Copy, Debug)]
enum Loss { All, None, Half, Few, Most, PerDisk }

fn crash(s: &mut Src, p: Profile) -> R {
    let geo = any_geometry(s, 2, 6);
    let seed = s.any();
    s.note(format!("{geo:?}"));
    let delay = s.below(5) as u32;
    let rig = Rig::new(geo, seed, delay);
    let (base, log, snaps, mut rig) = {
        let mut out = None;
        rt::run(async {
            let mut l = Live::new(s, rig).await;
            l.m.fams = (0..s.below(2)).map(|_| s.below(100)).collect();
            l.fs().sync().await;
            let base: Vec<Disk> = l.rig.disks.iter().map(Disk::copy).collect();
            let mut snaps = vec![l.m.clone()];
            let mut syncs = 0;
            l.rig.world.set_record(true);
            l.rig.world.mark(SYNCED);
            let n = s.urange(1, 80);
            let w: Vec<u32> = EVENTS.iter().map(|x| x.1).collect();
            for i in 0..=n {
                if i == n || s.chance(1, 7) {
                    let e = if i == n { Event::Sync } else { EVENTS[s.weighted(&w)].0 };
                    // Syncs may overlap with others
                    let other = (matches!(e, Event::Sync | Event::Fsync) && s.chance(1, 3)).then(|| {
                        s.note("another sync begins");
                        s.class("overlapping syncs");
                        let db = l.db().clone();
                        tokio::spawn(async move { db.sync_transaction().await.unwrap() })
                    });
                    if other.is_some() { Yield(s.skew(0, 60) as u32).await }
                    // A sync that began in the background may be going on, so any state may be committed
                    snaps.push(l.m.clone());
                    let k = snaps.len() as u64 - 1;
                    l.rig.world.mark(k);
                    let t0 = Instant::now();
                    l.event(s, e).await?;
                    if matches!(e, Event::Sync | Event::Fsync) { l.rig.world.mark(SYNCED | k); syncs += 1; }
                    if matches!(e, Event::Sleep) {
                        syncs += 1;
                        // It syncs by itself every five seconds
                        if t0.elapsed() > Duration::from_millis(5500) {
                            l.rig.world.mark(SYNCED | k);
                            s.class("synced by itself");
                        }
                    }
                    if let Some(o) = other { ensure!(o.await.is_ok(), "the other sync failed") }
                } else if s.chance(1, 12) {
                    // a sync and an operation at once
                    let k = snaps.len() as u64 - 1;
                    let y = s.skew(0, 60) as u32;
                    s.note(format!("sync after {y}, while"));
                    s.class("sync during operation");
                    let db = l.db().clone();
                    let w = l.rig.world.clone();
                    let sync = async {
                        Yield(y).await;
                        db.sync_transaction().await.unwrap();
                        w.mark(SYNCED | k);
                    };
                    let ((), r) = join(sync, l.m.step(s, l.fs.as_ref().unwrap(), p)).await;
                    r?;
                    syncs += 1;
                    snaps.push(l.m.clone());
                    l.rig.world.mark(snaps.len() as u64 - 1);
                } else {
                    l.m.step(s, l.fs.as_ref().unwrap(), p).await?;
                    snaps.push(l.m.clone());
                    l.rig.world.mark(snaps.len() as u64 - 1);
                }
            }
            l.fs = None;
            let rig = l.rig;
            let log = rig.world.take_log();
            rig.world.set_record(false);
            shutdown(l.db.take().unwrap()).await;
            if syncs >= 3 { s.nontrivial(); }
            out = Some((base, log, snaps, rig));
            Ok(())
        })?;
        out.unwrap()
    };
    rig.world.detach_all();
    rig.disks.clear();
    for _ in 0..s.urange(1, 4) {
        // more often around syncs
        let point = match s.weighted(&[1, 2]) {
            0 => s.urange(0, log.len()),
            _ => {
                let c: Vec<usize> = log.iter().enumerate()
                    .filter(|x| matches!(x.1, sim::Event::SyncStart { .. } | sim::Event::SyncDone { .. } | sim::Event::Erase { .. }))
                    .map(|x| x.0).collect();
                if c.is_empty() { log.len() } else { (*s.pick(&c) + s.urange(0, 3)).min(log.len()) }
            }
        };
        let loss = *s.pick(&[Loss::All, Loss::None, Loss::Half, Loss::Few, Loss::Most, Loss::PerDisk]);
        s.note(format!("crash at {point} of {}, losing {loss:?}", log.len()));
        s.class(match loss { Loss::All => "all lost", Loss::None => "none lost", Loss::PerDisk => "some disks' lost", _ => "torn" });
        let mut rng = s.any();
        let mut next = move |n: u64| { rng = mix(rng.wrapping_add(0x9E3779B97F4A7C15)); rng % n };
        let disks = after_crash(&rig, &base, &log, point, loss, &mut next);
        let mut lo = 0;
        let mut hi = 0;
        for e in &log[..point] {
            if let sim::Event::Mark(m) = e {
                if *m >= SYNCED { lo = lo.max(*m & !SYNCED) } else { hi = hi.max(*m) }
            }
        }
        // the next operation may have been committed, but its mark not be there
        let hi = (hi.max(lo) + 1).min(snaps.len() as u64 - 1);
        s.note(format!("states {lo} to {hi} are allowed"));
        recover(s, Rig::on(rig.geo.clone(), disks, seed, delay), &snaps[lo as usize..=hi as usize], p)?;
    }
    Ok(())
}

/// The disks' contents after a crash just before entry `point`.
///
/// KNOWN: the first copies of the label and of the free-space map aren't
/// replaced atomically, not even when there is one disk (case
/// "spacemap-before-label").  So assume that the hardware replaces them
/// atomically: after a crash all of a transaction's are there, or none are.
fn after_crash(rig: &Rig, base: &[Disk], log: &[sim::Event], point: usize, loss: Loss, next: &mut impl FnMut(u64) -> u64)
    -> Vec<Disk>
{
    let mut group = 0;
    let mut in_first = false;
    let mut of: HashMap<usize, u64> = HashMap::new();
    // the disks whose labels were written, or durably written, in the latest group
    let mut written: HashMap<u64, BTreeSet<usize>> = HashMap::new();
    let mut durable: HashMap<u64, BTreeSet<usize>> = HashMap::new();
    for (i, e) in log[..point].iter().enumerate() {
        if let sim::Event::WriteStart { disk, off, .. } = e {
            if rig.in_label(0, *off) {
                if !in_first { group += 1; in_first = true; }
                of.insert(i, group);
                if *off == 0 { written.entry(group).or_default().insert(*disk); }
            } else {
                in_first &= !rig.in_label(1, *off);
            }
        }
    }
    for d in 0..base.len() {
        sim::crash_writes(log, point, d, |i, off, dur| {
            if dur && off == 0 { durable.entry(of[&i]).or_default().insert(d); }
            false
        });
    }
    let all = |m: &HashMap<u64, BTreeSet<usize>>| m.get(&group).is_some_and(|x| x.len() == base.len());
    let apply = all(&durable) || all(&written) && next(2) == 0;
    base.iter().enumerate().map(|(d, b)| {
        let copy = b.copy();
        let per_disk = next(2) == 0;
        let pick = |i: usize, _: u64, dur: bool| match (of.get(&i), loss) {
            (Some(g), _) => *g < group || apply,
            _ if dur => true,
            (_, Loss::All) => false,
            (_, Loss::None) => true,
            (_, Loss::Half) => next(2) == 0,
            (_, Loss::Few) => next(10) != 0,
            (_, Loss::Most) => next(10) == 0,
            (_, Loss::PerDisk) => per_disk,
        };
        for (off, v) in sim::crash_writes(log, point, d, pick) { copy.write(off, &v) }
        copy
    }).collect()
}

fn recover(s: &mut Src, rig: Rig, snaps: &[Model], p: Profile) -> R {
    rt::run(async {
        let db = match rig.import().await {
            Ok(db) => db,
            Err(e) => return fail(format!("import after a crash: {e:?}")),
        };
        ensure!(matches!(db.check().await, Ok(true)), "check after a crash failed");
        let fs = Fs::new(db.clone(), snaps[0].tree).await;
        let atime = fs.get_prop(PropertyName::Atime).await.unwrap().0.as_bool();
        let recsize = fs.get_prop(PropertyName::RecordSize).await.unwrap().0.as_u8();
        // so that comparing changes nothing
        fs.set_prop(Property::Atime(false)).await.unwrap();
        let mut why = String::new();
        let mut found = None;
        for (i, m) in snaps.iter().enumerate().rev() {
            let mut m = m.clone();
            if (m.atime, m.recsize) != (atime, recsize) {
                why += &format!("\n  not state {i}: atime is {atime} and recordsize {recsize}");
                continue;
            }
            m.remounted();
            m.atime = false;
            match m.compare(&fs).await {
                Ok(()) => { found = Some(m); break; }
                Err(Bad::Fail(e)) => why += &format!("\n  not state {i}: {}", clip(&e)),
                Err(e) => return Err(e),
            }
        }
        let Some(m) = found else { return fail(format!("the file system is as at no sync:{why}")) };
        // It still works
        let mut l = Live { rig, db: Some(db), fs: Some(fs), m };
        for _ in 0..s.urange(0, 20) {
            l.m.step(s, l.fs.as_ref().unwrap(), p).await?;
        }
        l.m.compare(l.fs.as_ref().unwrap()).await?;
        l.check().await?;
        l.reimport().await?;
        l.m.compare(l.fs.as_ref().unwrap()).await?;
        l.finish().await;
        Ok(())
    })
}

/// The free-space map is overwritten before the label that it belongs to.  So
/// after a crash in between, the old trees are used with the new map.
fn spacemap_before_label(s: &mut Src) -> R {
    let geo = Geometry { clusters: vec![Raid::single()], zone: 256, disk_lbas: 256 * 16, cache: 16 << 20, writeback: 64 << 20 };
    let rig = Rig::new(geo, 1, 0);
    let mut out = None;
    rt::run(async {
        let mut l = Live::new(s, rig).await;
        l.fs().sync().await;
        let base: Vec<Disk> = l.rig.disks.iter().map(Disk::copy).collect();
        l.rig.world.set_record(true);
        let fd = l.fs().create(&l.m.fd(1), os(b"f"), 0o644, 0, 0).await.unwrap();
        l.fs().write(&fd.handle(), 0, &[1u8; 10000][..], 0).await.unwrap();
        l.fs().sync().await;
        l.fs().inactive(fd).await;
        l.fs = None;
        let log = l.rig.world.take_log();
        l.rig.world.set_record(false);
        shutdown(l.db.take().unwrap()).await;
        l.rig.world.detach_all();
        out = Some((base, log, l.m));
        Ok(())
    })?;
    let (base, log, m) = out.unwrap();
    // Just before the first label is written
    let point = log.iter().position(|e| matches!(e, sim::Event::WriteStart { off: 0, .. })).unwrap();
    let disks = vec![base[0].copy()];
    for (off, v) in sim::crash_writes(&log, point, 0, |_, _, _| true) { disks[0].write(off, &v) }
    let geo = Geometry { clusters: vec![Raid::single()], zone: 256, disk_lbas: 256 * 16, cache: 16 << 20, writeback: 64 << 20 };
    recover(s, Rig::on(geo, disks, 1, 0), &[m], Profile::Mixed)
}

pub fn checks() -> Vec<Check> {
    vec![
        Check::known("spacemap-before-label", spacemap_before_label),
        Check::new("mixed", "3 syncs or more", 14000, 150000, |s| crash(s, Profile::Mixed)),
        Check::new("data", "3 syncs or more", 14000, 150000, |s| crash(s, Profile::Data)),
        Check::new("names", "3 syncs or more", 9000, 100000, |s| crash(s, Profile::Names)),
    ]
}
