//! C23: a RAID or mirrored device is a flat disk, as long as enough disks work
use crate::{rt, world::*};
use bfffs_core::{
    label::LabelWriter, raid::{Manager, RaidImpl, VdevRaidApi}, vdev::{Health, Vdev}, TxgT, Uuid, ZoneT,
};
use divbuf::DivBufShared;
use engine::*;
use std::{collections::{BTreeMap, BTreeSet}, os::unix::fs::FileExt};
use tokio_file::sim::{Fault, Kind};

const L: usize = LBA as usize;

/// An LBA's contents
fn fill(v: &mut [u8], seed: u64) {
    let mut s = seed;
    for c in v.chunks_mut(8) {
        s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        c.copy_from_slice(&(s ^ (s >> 29)).to_le_bytes()[..c.len()]);
    }
}
fn content(seeds: &[u64]) -> Vec<u8> {
    let mut v = vec![0u8; seeds.len() * L];
    for (c, s) in v.chunks_mut(L).zip(seeds) { if *s != 0 { fill(c, *s) } }
    v
}

struct Zone {
    start: u64,
    end: u64,
    /// Seed of each LBA written (0: zeros)
    data: Vec<u64>,
    open: bool,
    /// where what's surely not in the stripe buffer any more ends
    flushed: u64,
}
struct Sut {
    rig: Rig,
    raid: Raid,
    dev: RaidImpl,
    zones: BTreeMap<ZoneT, Zone>,
    nzones: ZoneT,
    /// UUIDs of the leaves, by mirror
    leaves: Vec<Vec<Uuid>>,
    /// The disks that are gone or faulted
    out: BTreeSet<usize>,
    /// Those whose reads fail
    eio: BTreeSet<usize>,
    /// Those that hold garbage somewhere
    bad: BTreeSet<usize>,
    /// What the space map holds, each copy's blocks
    maps: BTreeMap<(u32, u64), u64>,
    seq: u64,
    txg: u32,
}

impl Sut {
    fn mirror_of(&self, disk: usize) -> usize { self.rig.layout()[0].iter().position(|m| m.contains(&disk)).unwrap() }
    /// How many mirrors are without a good disk, if also these are bad?
    fn lost(&self, sets: &[&BTreeSet<usize>]) -> usize {
        self.rig.layout()[0].iter().filter(|m| m.iter().all(|d| sets.iter().any(|s| s.contains(d)))).count()
    }
    /// Is there a mirror all of whose disks are out?
    fn f(&self) -> usize { self.raid.f as usize }
    fn m(&self) -> u64 { if self.raid.mirrors.len() == 1 { 1 } else { (self.raid.k - self.raid.f) as u64 } }
    fn stripe(&self) -> u64 { self.m() * self.raid.chunk.unwrap_or(1) }
    fn learn(&mut self) {
        let st = self.dev.status();
        self.leaves = st.mirrors.iter().map(|m| m.leaves.iter().map(|l| l.uuid).collect()).collect();
    }
    async fn read(&self, lba: u64, n: u64) -> Result<Vec<u8>, bfffs_core::Error> {
        let dbs = DivBufShared::from(vec![0xa5u8; n as usize * L]);
        self.dev.read_at(dbs.try_mut().unwrap(), lba).await?;
        let v = dbs.try_const().unwrap().to_vec();
        Ok(v)
    }
    /// Read within a zone and compare
    async fn read_cmp(&self, z: ZoneT, from: u64, n: u64) -> R {
        let zone = &self.zones[&z];
        let want = content(&zone.data[from as usize..][..n as usize]);
        let lba = zone.start + from;
        let s = self.stripe();
        match self.read(lba, n).await {
            Ok(got) => {
                if got != want && self.bad.is_subset(&self.out) {
                    let i = (0..n as usize).find(|i| got[i * L..][..L] != want[i * L..][..L]).unwrap();
                    return fail(format!("read of {n} LBAs at {lba} (stripe +{}): wrong from the {i}th: {:x?} rather than {:x?}",
                        lba % s, &got[i * L..][..8], &want[i * L..][..8]));
                }
                Ok(())
            }
            Err(e) => {
                let lost = self.lost(&[&self.out, &self.eio]);
                ensure!(lost > self.f(), "read of {n} LBAs at {lba} (stripe +{}): {e:?}, with {lost} mirrors failing", lba % s);
                Ok(())
            }
        }
    }
    /// Were there enough good disks for reconstruction?
    async fn read_long_cmp(&self, z: ZoneT, from: u64, n: u64) -> Result<bool, Bad> {
        let zone = &self.zones[&z];
        let want = content(&zone.data[from as usize..][..n as usize]);
        let lba = zone.start + from;
        // RAID over mirrors doesn't try the mirrors' other copies
        let bad: BTreeSet<usize> = if self.raid.mirrors.len() == 1 { self.bad.clone() } else {
            self.bad.iter().flat_map(|d| self.rig.layout()[0][self.mirror_of(*d)].clone()).collect()
        };
        let lost = self.lost(&[&self.out, &self.eio, &bad]);
        match self.dev.read_long(n, lba).await {
            Ok(it) => {
                let mut k = 0;
                let mut found = false;
                for d in it {
                    k += 1;
                    let got = d.try_const().unwrap();
                    ensure!(got.len() == want.len(), "a reconstruction of {} bytes, rather than {}", got.len(), want.len());
                    if got[..] == want[..] { found = true; break; }
                }
                if lost <= self.f() {
                    ensure!(found, "none of {k} reconstructions of {n} LBAs at {lba} (stripe +{}) is right", lba % self.stripe());
                }
                Ok(lost <= self.f())
            }
            Err(e) => {
                // it may refuse when there's nothing else to try
                let alone = if self.raid.mirrors.len() == 1 { self.out.len() + 1 >= self.rig.disks.len() }
                    else { self.lost(&[&self.out]) >= self.f() };
                ensure!(alone || lost > self.f(), "read_long of {n} LBAs at {lba}: {e:?}");
                Ok(false)
            }
        }
    }
    fn check_status(&self) -> R {
        let st = self.dev.status();
        let lost = self.lost(&[&self.out]);
        ensure_eq!(st.mirrors.len(), self.raid.mirrors.len(), "number of mirrors");
        let ok = self.out.is_empty();
        ensure_eq!(st.health == Health::Online, ok, "health is {:?}, with {:?} out", st.health, self.out);
        ensure_eq!(st.health.is_faulted(), lost > self.f(), "health is {:?}, with {:?} out", st.health, self.out);
        Ok(())
    }
    async fn write(&mut self, z: ZoneT, n: u64) -> Result<impl std::future::Future<Output = Result<(), bfffs_core::Error>> + use<>, Bad> {
        let zone = self.zones.get_mut(&z).unwrap();
        let lba = zone.start + zone.data.len() as u64;
        let seeds: Vec<u64> = (0..n).map(|i| mix(self.seq + i) | 1).collect();
        self.seq += n;
        let dbs = DivBufShared::from(content(&seeds));
        zone.data.extend(seeds);
        let buf = dbs.try_const().unwrap();
        let fut = self.dev.write_at(buf, z, lba);
        Ok(async move { let r = fut.await; drop(dbs); r })
    }
}

fn run(s: &mut Src, many: bool) -> R {
    // geometry
    let raid = if !many && s.chance(1, 4) {
        Raid { mirrors: vec![s.urange(1, 3)], chunk: None, k: 1, f: 0 }
    } else {
        let n = *s.pick(if many { &[5usize, 7, 11, 13] } else { &[3usize, 2, 5] });
        let k = s.urange(2, n.min(9));
        let f = s.urange(1, (k - 1).min(4));
        let w = if s.chance(1, 4) { 2 } else { 1 };
        Raid { mirrors: vec![w; n], chunk: Some(s.range(1, 5)), k: k as i16, f: f as i16 }
    };
    let per = raid.chunk.unwrap_or(1) * raid.k as u64;
    let jitter = s.below(20);
    let zone = (per * s.range(4, 10)).max(32) + jitter;
    let nz = s.range(2, 6);
    let geo = Geometry { clusters: vec![raid.clone()], zone, disk_lbas: zone * nz, cache: 0, writeback: 0 };
    s.note(format!("{raid:?} zone={zone}"));
    let seed = s.any();
    let delay = s.below(3) as u32;
    let rig = Rig::new(geo, seed, delay);
    rt::run(async {
        let dev = rig.raid(&raid, &rig.layout()[0]);
        let nzones = dev.zones();
        ensure_eq!(nzones as u64, nz, "number of zones");
        let mut t = Sut {
            rig, raid, dev, zones: BTreeMap::new(), nzones, leaves: vec![], out: BTreeSet::new(), eio: BTreeSet::new(),
            bad: BTreeSet::new(), maps: BTreeMap::new(), seq: seed, txg: 1,
        };
        t.learn();
        // the zones are disjoint, and within the device
        let mut last = 0;
        for z in 0..nzones {
            let (b, e) = t.dev.zone_limits(z);
            ensure!(b >= last && e > b, "zone {z} is {b}..{e}, after one that ends at {last}");
            ensure!(e <= t.dev.size(), "zone {z} is {b}..{e}, and the device is of {}", t.dev.size());
            for (l, want) in [(b, Some(z)), (e - 1, Some(z))] {
                ensure_eq!(t.dev.lba2zone(l), want, "zone of LBA {l}");
            }
            if b > last { ensure_eq!(t.dev.lba2zone(b - 1), None, "zone of LBA {} (zone {z} begins at {b})", b - 1); }
            last = e;
        }
        let steps = s.urange(1, 50);
        if steps >= 15 { s.nontrivial(); }
        for _ in 0..steps { step(s, &mut t).await?; }
        // everything
        t.rig.world.clear_faults();
        t.eio.clear();
        let zs: Vec<ZoneT> = t.zones.keys().copied().collect();
        for z in zs {
            let n = t.zones[&z].data.len() as u64;
            if n > 0 { t.read_cmp(z, 0, n).await?; }
        }
        Ok(())
    })
}

async fn step(s: &mut Src, t: &mut Sut) -> R {
    let open: Vec<ZoneT> = t.zones.iter().filter(|x| x.1.open).map(|x| *x.0).collect();
    let op = s.weighted(&[14, 6, 3, 2, 2, 14, 6, 4, 3, 3, 3, 2]);
    match op {
        0 | 1 => {
            // some writes at once
            let room: Vec<ZoneT> = open.iter().copied().filter(|z| {
                let z = &t.zones[z];
                z.start + (z.data.len() as u64) < z.end
            }).collect();
            if room.is_empty() {
                let c: Vec<ZoneT> = (0..t.nzones).filter(|z| !t.zones.contains_key(z)).collect();
                if c.is_empty() { return Ok(()); }
                let z = *s.pick(&c);
                let (start, end) = t.dev.zone_limits(z);
                s.note(format!("open zone {z} ({start}..{end})"));
                s.class("open");
                let r = t.dev.open_zone(z).await;
                ensure!(r.is_ok(), "open_zone: {r:?}");
                t.zones.insert(z, Zone { start, end, data: vec![], open: true, flushed: 0 });
                return Ok(());
            }
            s.class("write");
            let k = if op == 0 { 1 } else { s.urange(1, 4) };
            // What's been written before must stay readable all along
            let st = t.stripe();
            let before: Vec<(ZoneT, u64, u64)> = t.zones.iter().map(|(z, zone)| {
                let len = zone.data.len() as u64;
                (*z, len, if zone.open { zone.flushed.max(len / st * st) } else { len })
            }).filter(|x| x.1 > 0).collect();
            type Fut = std::pin::Pin<Box<dyn std::future::Future<Output = Result<(), bfffs_core::Error>>>>;
            let mut futs: Vec<(&str, Fut)> = vec![];
            for _ in 0..k {
                let z = *s.pick(&room);
                let zone = &t.zones[&z];
                let left = zone.end - zone.start - zone.data.len() as u64;
                if left == 0 || !zone.open { continue; }
                if op == 1 && s.chance(1, 5) {
                    if s.chance(3, 4) {
                        s.class("flush during writes");
                        let f = start_flush(s, t, z)?;
                        futs.push(("flush_zone", Box::pin(f)));
                    } else {
                        s.class("finish during writes");
                        s.note(format!("finish zone {z}"));
                        futs.push(("finish_zone", Box::pin(t.dev.finish_zone(z))));
                        t.zones.get_mut(&z).unwrap().open = false;
                    }
                    continue;
                }
                let n = match s.weighted(&[3, 2, 2]) {
                    0 => s.range(1, st.max(2) * 2),
                    1 => s.range(1, 4) * st,
                    _ => st - zone.data.len() as u64 % st,
                }.min(left);
                s.note(format!("write {n} at {z}:{} (zone +{})", zone.start + zone.data.len() as u64, zone.data.len()));
                futs.push(("write_at", Box::pin(t.write(z, n).await?)));
            }
            let mut reads = vec![];
            let t = &*t;
            if op == 1 && !before.is_empty() {
                for _ in 0..s.below(4) {
                    let (z, len, fl) = *s.pick(&before);
                    let from = s.below(len);
                    let n = s.range(1, 2 * st).min(len - from);
                    let (from, n) = if s.bool() { (len - n, n) } else { (from, n) };
                    let late = s.below(6) as u32;
                    let long = from < fl && s.chance(1, 4);
                    s.note(format!("meanwhile, after {late}, {} {n} at {z}:{}", if long { "read_long" } else { "read" }, t.zones[&z].start + from));
                    s.class(if long { "read_long during writes" } else { "read during writes" });
                    reads.push(async move {
                        rt::Yield(late).await;
                        if long { t.read_long_cmp(z, from, n).await.map(drop) } else { t.read_cmp(z, from, n).await }
                    });
                }
            }
            let writes = futures::future::join_all(futs.into_iter().map(|(what, f)| async move {
                let r = f.await;
                ensure!(r.is_ok(), "{what}: {r:?}");
                Ok(())
            }));
            let (w, r): (Vec<R>, Vec<R>) = futures::future::join(writes, futures::future::join_all(reads)).await;
            for r in w.into_iter().chain(r) { r?; }
        }
        2 => {
            // flush
            if open.is_empty() { return Ok(()); }
            s.class("flush");
            let z = *s.pick(&open);
            flush(s, t, z).await?;
        }
        3 => {
            if open.is_empty() { return Ok(()); }
            s.class("finish");
            let z = *s.pick(&open);
            s.note(format!("finish zone {z}"));
            let r = t.dev.finish_zone(z).await;
            ensure!(r.is_ok(), "finish_zone: {r:?}");
            t.zones.get_mut(&z).unwrap().open = false;
        }
        4 => {
            let c: Vec<ZoneT> = t.zones.iter().filter(|x| !x.1.open).map(|x| *x.0).collect();
            if c.is_empty() { return Ok(()); }
            s.class("erase");
            let z = *s.pick(&c);
            s.note(format!("erase zone {z}"));
            let r = t.dev.erase_zone(z).await;
            ensure!(r.is_ok(), "erase_zone: {r:?}");
            t.zones.remove(&z);
        }
        5 | 6 => {
            let c: Vec<ZoneT> = t.zones.iter().filter(|x| !x.1.data.is_empty()).map(|x| *x.0).collect();
            if c.is_empty() { return Ok(()); }
            let z = *s.pick(&c);
            let len = t.zones[&z].data.len() as u64;
            let from = s.below(len);
            let st = t.stripe();
            if op == 5 {
                s.class("read");
                let n = match s.weighted(&[2, 2, 1]) {
                    0 => s.range(1, st.max(2)),
                    1 => s.range(1, 4 * st),
                    _ => len,
                }.min(len - from);
                s.note(format!("read {n} at {z}:{}", t.zones[&z].start + from));
                t.read_cmp(z, from, n).await?;
            } else {
                // What's in the stripe buffer needs no reconstruction, but may end the range
                let fl = if t.zones[&z].open { t.zones[&z].flushed.max(len / st * st) } else { len };
                if from >= fl { return Ok(()); }
                s.class("read_long");
                let n = s.range(1, 3 * st).min(len - from);
                if from + n > fl { s.class("read_long of the stripe buffer"); }
                s.note(format!("read_long {n} at {z}:{}", t.zones[&z].start + from));
                if t.read_long_cmp(z, from, n).await? { s.class("reconstructed"); }
            }
        }
        7 => {
            // fault a disk or a mirror
            let all: Vec<usize> = (0..t.rig.disks.len()).filter(|d| !t.out.contains(d)).collect();
            if all.is_empty() { return Ok(()); }
            let d = *s.pick(&all);
            let mi = t.mirror_of(d);
            let whole = t.raid.mirrors.len() > 1 && s.chance(1, 4);
            let mut out = t.out.clone();
            if whole { out.extend(t.rig.layout()[0][mi].iter()) } else { out.insert(d); }
            if t.lost(&[&out, &t.bad]) > t.f() { return Ok(()); }
            s.class("fault");
            let st = t.dev.status();
            let uuid = if whole { st.mirrors[mi].uuid } else {
                let i = t.rig.layout()[0][mi].iter().position(|x| *x == d).unwrap();
                t.leaves[mi][i]
            };
            s.note(format!("fault {} {d}", if whole { "the mirror of disk" } else { "disk" }));
            ensure_eq!(t.dev.fault(uuid), Ok(()), "fault");
            t.out = out;
            t.check_status()?;
        }
        8 => {
            // reads of a disk begin to fail, or no longer do
            if !t.eio.is_empty() && s.bool() {
                s.note("reads no longer fail");
                t.rig.world.clear_faults();
                t.eio.clear();
                return Ok(());
            }
            let d = s.idx(t.rig.disks.len());
            let mut eio = t.eio.clone();
            eio.insert(d);
            // A mirror that's part of a RAID array can't retry, so as a whole it counts as a failed member
            if t.raid.mirrors.len() > 1 { eio.extend(t.rig.layout()[0][t.mirror_of(d)].iter()); }
            if t.lost(&[&eio, &t.out, &t.bad]) > t.f() { return Ok(()); }
            s.class("EIO");
            let z = s.below(t.rig.geo.disk_lbas);
            let range = if s.bool() { 0..u64::MAX } else { z * LBA..u64::MAX };
            s.note(format!("reads of disk {d} fail from {}", range.start / LBA));
            for d in eio.difference(&t.eio.clone()) { let d = *d; t.rig.world.add_fault(Fault { disk: d, kind: Kind::Read, range: range.clone(), skip: 0, count: u64::MAX, errno: libc::EIO }); }
            t.eio = eio;
        }
        9 => {
            // reopen, perhaps without some of the disks
            for z in open { flush(s, t, z).await?; }
            let label = t.txg % 2;
            t.txg += 1;
            s.class("reopen");
            s.note("reopen");
            let r = t.dev.write_label(LabelWriter::new(label), TxgT::from(t.txg)).await;
            ensure!(r.is_ok(), "write_label: {r:?}");
            let r = t.dev.write_label(LabelWriter::new(1 - label), TxgT::from(t.txg)).await;
            ensure!(r.is_ok(), "write_label: {r:?}");
            let r = t.dev.sync_all(None).await;
            ensure!(r.is_ok(), "sync_all: {r:?}");
            // those that are out have old labels, or none
            let uuid = t.dev.uuid();
            let mut out = t.out.clone();
            for _ in 0..s.below(3) {
                out.insert(s.idx(t.rig.disks.len()));
                if t.lost(&[&out, &t.bad]) > t.f() { out = t.out.clone(); }
            }
            let cl = t.rig.world.clone();
            cl.clear_faults();
            t.eio.clear();
            s.note(format!("import without {out:?}"));
            let mut man = Manager::default();
            let mut order: Vec<usize> = (0..t.rig.disks.len()).filter(|d| !out.contains(d)).collect();
            s.shuffle(&mut order);
            for d in order {
                let r = man.taste(&t.rig.disks[d].path).await;
                ensure!(r.is_ok(), "taste of disk {d}: {:?}", r.err());
            }
            match man.import(uuid).await {
                Ok((dev, _)) => t.dev = dev,
                Err(e) => return fail(format!("import: {e:?}")),
            }
            t.out = out;
            t.check_status()?;
            let zs: Vec<(ZoneT, u64)> = t.zones.iter().filter(|x| x.1.open).map(|x| (*x.0, x.1.data.len() as u64)).collect();
            for (z, n) in zs {
                let r = t.dev.reopen_zone(z, n).await;
                ensure!(r.is_ok(), "reopen_zone: {r:?}");
                ensure_eq!(t.dev.zone_limits(z), (t.zones[&z].start, t.zones[&z].end), "zone limits after import");
            }
        }
        10 => {
            // The space map
            let idx = s.below(2) as u32;
            let blocks = t.rig.spacemap();
            if s.bool() {
                let b = s.below(blocks);
                let seed = s.any() | 1;
                s.class("spacemap");
                s.note(format!("write space map {idx} block {b}"));
                let dbs = DivBufShared::from(content(&[seed]));
                let r = t.dev.write_spacemap(vec![dbs.try_const().unwrap()], idx, b).await;
                ensure!(r.is_ok(), "write_spacemap: {r:?}");
                t.maps.insert((idx, b), seed);
            } else {
                s.note(format!("read space map {idx}"));
                let dbs = DivBufShared::from(vec![0xa5u8; blocks as usize * L]);
                let r = t.dev.read_spacemap(dbs.try_mut().unwrap(), idx).await;
                if let Err(e) = r {
                    // every disk has it
                    ensure!(t.lost(&[&t.out, &t.eio]) == t.raid.mirrors.len(), "read_spacemap: {e:?}");
                    return Ok(());
                }
                let got = dbs.try_const().unwrap();
                for b in 0..blocks {
                    if let Some(seed) = t.maps.get(&(idx, b)) {
                        ensure!(got[b as usize * L..][..L] == content(&[*seed])[..], "block {b} of space map {idx} is wrong");
                    }
                }
            }
        }
        _ => {
            // garbage on a disk
            let c: Vec<usize> = (0..t.rig.disks.len()).collect();
            let d = *s.pick(&c);
            let mut bad = t.bad.clone();
            bad.insert(d);
            if t.lost(&[&t.out, &bad]) > t.f().max(usize::from(t.raid.mirrors.len() == 1 && t.rig.disks.len() > t.out.len() + 1)) { return Ok(()); }
            if t.lost(&[&t.out, &t.eio, &bad]) > t.f() { return Ok(()); }
            s.class("garbage");
            s.note(format!("garbage on disk {d}"));
            let first = 8 + 2 * t.rig.spacemap();
            let mut v = vec![0u8; L];
            let mut seed = s.any();
            for b in first..t.rig.geo.disk_lbas {
                seed = mix(seed);
                if !seed.is_multiple_of(3) {
                    fill(&mut v, seed);
                    t.rig.disks[d].file.write_all_at(&v, b * LBA).unwrap();
                }
            }
            t.bad = bad;
        }
    }
    Ok(())
}

fn start_flush(s: &mut Src, t: &mut Sut, z: ZoneT) -> Result<impl std::future::Future<Output = Result<(), bfffs_core::Error>> + use<>, Bad> {
    let (pad, fut) = t.dev.flush_zone(z);
    s.note(format!("flush zone {z}: {pad} padded"));
    let zone = t.zones.get_mut(&z).unwrap();
    zone.data.extend(vec![0; pad as usize]);
    zone.flushed = zone.data.len() as u64;
    ensure!(zone.start + zone.flushed <= zone.end, "flush_zone padded beyond the zone's end");
    let st = t.stripe();
    let zone = &t.zones[&z];
    ensure!(pad < st && zone.flushed.is_multiple_of(st) , "flush_zone padded {pad}, to {}", zone.flushed);
    Ok(fut)
}
async fn flush(s: &mut Src, t: &mut Sut, z: ZoneT) -> R {
    let r = start_flush(s, t, z)?.await;
    ensure!(r.is_ok(), "flush_zone: {r:?}");
    Ok(())
}

/// A disk that isn't a whole number of zones
fn partial_zone(s: &mut Src) -> R {
    let raid = Raid::single();
    s.note("a disk of 1.5 zones of 256 LBAs");
    let geo = Geometry { clusters: vec![raid.clone()], zone: 256, disk_lbas: 256 + 128, cache: 0, writeback: 0 };
    let rig = Rig::new(geo, 1, 0);
    rt::run(async {
        let dev = rig.raid(&raid, &rig.layout()[0]);
        for z in 0..dev.zones() {
            let (b, e) = dev.zone_limits(z);
            ensure!(b < e && e <= dev.size(), "zone {z} is {b}..{e}, and the device is of {}", dev.size());
        }
        Ok(())
    })
}

pub fn checks() -> Vec<Check> {
    vec![
        Check::known("partial-zone", partial_zone),
        Check::new("small", "15 steps or more", 90000, 900000, |s| run(s, false)),
        Check::new("large", "15 steps or more", 50000, 500000, |s| run(s, true)),
    ]
}
