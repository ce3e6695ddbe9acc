//! C29: a disk's scheduler
use crate::{rt, rt::Yield, world::*};
use bfffs_core::{vdev::Vdev, vdev_block::VdevBlock, Error};
use divbuf::DivBufShared;
use engine::*;
use futures::{poll, Future};
use std::{
    collections::{BTreeMap, BTreeSet},
    num::NonZeroU64,
    pin::Pin,
    task::Poll,
};
use tokio_file::sim::{Event, Fault, Kind, World};

const L: usize = LBA as usize;

/// The contents of a block: 0 is zeros
fn block(seed: u64) -> Vec<u8> {
    if seed == 0 { return vec![0; L]; }
    let mut v = vec![0; L];
    for (i, c) in v.chunks_mut(8).enumerate() {
        let x = if i == 0 { seed } else { mix(seed.wrapping_add((i as u64) << 32)) };
        c.copy_from_slice(&x.to_le_bytes());
    }
    v
}
fn blocks(seeds: &[u64]) -> Vec<u8> { seeds.iter().flat_map(|s| block(*s)).collect() }

#[derive(Debug)]
enum What {
    Read(Vec<DivBufShared>, Vec<u64>),
    /// Blocks written, with their seeds
    Write(Vec<u64>),
    Sync,
    Erase,
    Other,
}

struct Op {
    pos: usize,
    what: What,
    lba: u64,
    len: u64,
    fut: Pin<Box<dyn Future<Output = Result<(), Error>>>>,
    done: Option<Result<(), Error>>,
    /// Length of the log when it was seen to be complete
    at: usize,
}

struct Sut {
    disk: Disk,
    world: World,
    /// Taken when the disk is removed
    vb: Option<VdevBlock>,
    /// Contents: seed, or None if unknown
    data: Vec<Option<u64>>,
    ops: Vec<Op>,
    /// Blocks that must not be touched any more
    off: BTreeSet<u64>,
    seq: usize,
    seed: u64,
    /// (position, length of the log when it was complete)
    syncs: Vec<(usize, usize)>,
    /// position → blocks and seeds
    writes: BTreeMap<usize, Vec<(u64, u64)>>,
    faults: Vec<(Kind, std::ops::Range<u64>)>,
    removed: bool,
    ndone: usize,
}
impl Drop for Sut { fn drop(&mut self) { self.world.detach_all() } }

impl Sut {
    fn vb(&self) -> &VdevBlock { self.vb.as_ref().unwrap() }
    /// Can an operation that writes or only reads use these?
    fn free(&self, lba: u64, len: u64, write: bool) -> bool {
        self.off.range(lba..lba + len).next().is_none() && !self.ops.iter().any(|o| {
            o.lba < lba + len && lba < o.lba + o.len && (write || !matches!(o.what, What::Read(..)))
        })
    }
    async fn submit(&mut self, what: What, lba: u64, len: u64, fut: impl Future<Output = Result<(), Error>> + 'static) {
        let pos = self.seq;
        self.seq += 1;
        let mut fut: Pin<Box<dyn Future<Output = Result<(), Error>>>> = Box::pin(fut);
        if let What::Write(s) = &what { self.writes.insert(pos, (lba..).zip(s.iter().copied()).collect()); }
        let done = match poll!(fut.as_mut()) { Poll::Ready(r) => Some(r), Poll::Pending => None };
        let at = self.world.log_len();
        self.ops.push(Op { pos, what, lba, len, fut, done, at });
    }
    /// Note when syncs are complete
    async fn watch(&mut self) {
        let at = self.world.log_len();
        for o in &mut self.ops {
            if o.done.is_none() && matches!(o.what, What::Sync) {
                if let Poll::Ready(r) = poll!(o.fut.as_mut()) { o.done = Some(r); o.at = at; }
            }
        }
    }
    async fn wait(&mut self, i: usize) -> R {
        let mut o = self.ops.swap_remove(i);
        let r = match o.done.take() { Some(r) => r, None => { let r = o.fut.as_mut().await; o.at = self.world.log_len(); r } };
        self.finish(o, r)
    }
    fn finish(&mut self, o: Op, r: Result<(), Error>) -> R {
        self.ndone += 1;
        let bytes = o.lba * LBA..(o.lba + o.len) * LBA;
        let kind = match o.what { What::Read(..) => Some(Kind::Read), What::Write(_) => Some(Kind::Write), What::Sync => Some(Kind::Sync), _ => None };
        let hit = self.faults.iter().any(|(k, f)| Some(*k) == kind && (*k == Kind::Sync || (f.start < bytes.end && bytes.start < f.end)));
        let may = self.faults.iter().any(|(k, _)| Some(*k) == kind);
        let all = o.lba..o.lba + o.len;
        match r {
            Ok(()) => {
                ensure!(!hit, "operation {} succeeded, although the disk failed it", o.pos);
                match &o.what {
                    What::Read(bufs, want) => {
                        let got: Vec<u8> = bufs.iter().flat_map(|b| b.try_const().unwrap().to_vec()).collect();
                        let want = blocks(want);
                        if let Some(i) = (0..want.len() / L).find(|i| got[i * L..][..L] != want[i * L..][..L]) {
                            ensure!(false, "operation {} read something else than was written to block {}", o.pos, o.lba + i as u64);
                        }
                    }
                    What::Write(s) => for (b, s) in all.zip(s) { self.data[b as usize] = Some(*s) },
                    What::Sync => self.syncs.push((o.pos, o.at)),
                    // Some disks ignore it
                    What::Erase => for b in all { self.data[b as usize] = None },
                    What::Other => {}
                }
            }
            Err(e) => {
                if self.removed && e == Error::ENXIO {
                    // was not issued, unless it was among those that failed
                } else {
                    ensure!(may && e == Error::EIO, "operation {}: {e:?}", o.pos);
                }
                if matches!(o.what, What::Write(_) | What::Erase) { for b in all { self.data[b as usize] = None } }
            }
        }
        Ok(())
    }
}

struct Mode { faults: bool, cancel: bool, remove: bool }

fn scheduler(s: &mut Src, mode: Mode) -> R {
    let zone = *s.pick(&[32u64, 64, 128]);
    let nz = s.range(3, 8);
    let size = zone * nz;
    let disk = Disk::new(size * LBA);
    let delay = *s.pick(&[0u32, 1, 3, 10]);
    let world = World::new(s.any(), delay);
    world.attach(&disk.path);
    world.set_record(true);
    let limit = if s.chance(1, 2) { Some(s.skew(1, 12) as u32) } else { None };
    let busy = if s.chance(1, 3) { s.range(1, 12) as u32 } else { 0 };
    world.set_limit(limit, busy);
    s.note(format!("{nz} zones of {zone} blocks, delay {delay}, limit {limit:?}, busy {busy}"));
    if limit.is_some() { s.class("limited resources"); }
    if busy > 0 { s.class("busy"); }
    rt::run(async {
        let vb = VdevBlock::create(&disk.path, NonZeroU64::new(zone)).unwrap();
        let seed = s.any() | 1;
        let reserved = vb.zone_limits(0).0;
        let depth = vb.optimum_queue_depth();
        let mut t = Sut {
            disk, world, vb: Some(vb), data: vec![Some(0); size as usize], ops: vec![], off: BTreeSet::new(), seq: 0, seed,
            syncs: vec![], writes: BTreeMap::new(), faults: vec![], removed: false, ndone: 0,
        };
        // Zones that are written in order
        let seqz: Vec<u64> = (1..nz).filter(|_| s.chance(1, 3)).collect();
        let mut wp: BTreeMap<u64, u64> = seqz.iter().map(|z| (*z, z * zone)).collect();
        if mode.faults {
            for _ in 0..s.urange(1, 3) {
                let kind = *s.pick(&[Kind::Read, Kind::Write, Kind::Write, Kind::Sync]);
                let lba = s.range(reserved, size - 1);
                let range = lba * LBA..(lba + s.range(1, 8)) * LBA;
                t.world.add_fault(Fault { disk: 0, kind, range: range.clone(), skip: 0, count: u64::MAX, errno: libc::EIO });
                s.note(format!("{kind:?} of blocks {lba}–{} fails", range.end / LBA));
                t.faults.push((kind, range));
            }
        }
        let n = s.urange(3, 200);
        let mut max = 0;
        let mut cancelled = 0;
        for _ in 0..n {
            max = max.max(t.ops.len());
            t.watch().await;
            match s.weighted(&[8, 6, 6, 3, 2, 8, 4, 1, 1, if mode.cancel { 3 } else { 0 }]) {
                0 => {
                    // read anywhere
                    let (lba, len) = any_range(s, &t, reserved, size);
                    if !t.free(lba, len, false) || t.data[lba as usize..][..len as usize].iter().any(|d| d.is_none()) { continue }
                    // In zones that are written in order only what has been written
                    if wp.get(&(lba / zone)).is_some_and(|w| lba + len > *w) || wp.contains_key(&((lba + len - 1) / zone)) && (lba + len - 1) / zone != lba / zone { continue }
                    let want: Vec<u64> = t.data[lba as usize..][..len as usize].iter().map(|d| d.unwrap()).collect();
                    let bufs: Vec<DivBufShared> = split(s, len).into_iter().map(|n| DivBufShared::from(vec![0x5a; n as usize * L])).collect();
                    let p = t.seq;
                    s.note(format!("{p}: read {len} at {lba} into {}", bufs.len()));
                    let f: Pin<Box<dyn Future<Output = Result<(), Error>>>> = if bufs.len() == 1 && s.bool() {
                        Box::pin(t.vb().read_at(bufs[0].try_mut().unwrap(), lba))
                    } else {
                        Box::pin(t.vb().readv_at(bufs.iter().map(|b| b.try_mut().unwrap()).collect(), lba))
                    };
                    t.submit(What::Read(bufs, want), lba, len, f).await;
                }
                x @ (1 | 2) => {
                    let (lba, len) = if x == 1 || wp.is_empty() {
                        let (lba, len) = any_range(s, &t, reserved, size);
                        if (lba / zone..=(lba + len - 1) / zone).any(|z| wp.contains_key(&z)) { continue }
                        (lba, len)
                    } else {
                        // the next in order
                        let z = seqz[s.idx(seqz.len())];
                        let w = wp[&z];
                        let len = s.skew(1, 16).min((z + 1) * zone - w);
                        if len == 0 { continue }
                        (w, len)
                    };
                    if !t.free(lba, len, true) { continue }
                    if let Some(w) = wp.get_mut(&(lba / zone)) { *w = lba + len }
                    let seeds: Vec<u64> = (0..len).map(|_| { t.seed = mix(t.seed); t.seed | 1 }).collect();
                    let bufs: Vec<DivBufShared> = {
                        let mut i = 0;
                        split(s, len).into_iter().map(|n| { let b = blocks(&seeds[i..i + n as usize]); i += n as usize; DivBufShared::from(b) }).collect()
                    };
                    let p = t.seq;
                    s.note(format!("{p}: write {len} at {lba} from {}", bufs.len()));
                    let f: Pin<Box<dyn Future<Output = Result<(), Error>>>> = if bufs.len() == 1 && s.bool() {
                        Box::pin(t.vb().write_at(bufs[0].try_const().unwrap(), lba))
                    } else {
                        Box::pin(t.vb().writev_at(bufs.iter().map(|b| b.try_const().unwrap()).collect(), lba))
                    };
                    t.submit(What::Write(seeds), lba, len, f).await;
                }
                3 => {
                    let p = t.seq;
                    s.note(format!("{p}: sync"));
                    s.class("sync");
                    let f = t.vb().sync_all();
                    t.submit(What::Sync, 0, 0, f).await;
                }
                4 => {
                    let z = s.range(1, nz - 1);
                    if wp.contains_key(&z) { continue }
                    let (a, b) = t.vb().zone_limits(z as u32);
                    if !t.free(a, b - a, true) { continue }
                    let p = t.seq;
                    match s.below(3) {
                        0 => {
                            s.note(format!("{p}: erase zone {z}"));
                            s.class("erase");
                            let f = t.vb().erase_zone(a, b - 1);
                            t.submit(What::Erase, a, b - a, f).await;
                        }
                        1 => {
                            s.note(format!("{p}: open zone {z}"));
                            let f = t.vb().open_zone(a);
                            t.submit(What::Other, 0, 0, f).await;
                        }
                        _ => {
                            s.note(format!("{p}: finish zone {z}"));
                            let f = t.vb().finish_zone(a, b - 1);
                            t.submit(What::Other, 0, 0, f).await;
                        }
                    }
                }
                5 if !t.ops.is_empty() => {
                    let i = s.idx(t.ops.len());
                    let p = t.ops[i].pos;
                    s.note(format!("wait for {p}"));
                    t.wait(i).await?;
                }
                6 => { let k = s.below(10) as u32; s.note("yield"); Yield(k).await }
                7 => { s.note("wait for all"); while !t.ops.is_empty() { t.wait(0).await? } }
                8 => {
                    let d = *s.pick(&[0u32, 1, 3, 10]);
                    s.note(format!("delay {d}"));
                    t.world.set_max_delay(d);
                }
                9 if !t.ops.is_empty() && cancelled < 30 => {
                    cancelled += 1;
                    let i = s.idx(t.ops.len());
                    let o = t.ops.swap_remove(i);
                    s.note(format!("forget about {}", o.pos));
                    s.class("cancelled");
                    // It may be executed at any later time
                    for b in o.lba..o.lba + o.len {
                        t.off.insert(b);
                        if !matches!(o.what, What::Read(..)) { t.data[b as usize] = None; }
                    }
                }
                _ => {}
            }
        }
        if t.seq >= 10 && max >= 4 { s.nontrivial(); }
        if mode.remove {
            s.note("remove");
            t.removed = true;
            let r = t.vb.take().unwrap().remove();
            r.await;
            ensure_eq!(t.world.inflight(), 0, "operations in flight when the disk was removed");
            let (r, w, sy) = t.world.counts();
            while !t.ops.is_empty() { t.wait(0).await? }
            Yield(50).await;
            ensure_eq!(t.world.counts(), (r, w, sy), "reads, writes and syncs after the disk was removed");
        } else {
            s.note("wait for all");
            while !t.ops.is_empty() { t.wait(0).await? }
            // and for what was cancelled
            let f = t.vb().sync_all();
            let r = f.await;
            ensure!(r.is_ok() || t.faults.iter().any(|f| f.0 == Kind::Sync), "sync at the end: {r:?}");
            for _ in 0..1000 {
                if t.world.inflight() == 0 { break }
                Yield(1).await;
            }
        }
        let (load, again) = t.world.load();
        if again > 0 { s.class("resources were short"); }
        ensure!(load <= depth, "{load} operations were in flight at once, when no more than {depth} should be");
        for b in reserved..size {
            let Some(seed) = t.data[b as usize] else { continue };
            ensure!(t.disk.read(b * LBA, L) == block(seed), "block {b} holds something else than was written to it");
        }
        for b in 0..reserved { ensure!(t.disk.read(b * LBA, L) == block(0), "something was written to block {b}, which holds labels"); }
        // The order of things
        let log = t.world.take_log();
        let mut started: BTreeMap<(u64, u64), usize> = BTreeMap::new();
        let mut last: BTreeMap<u64, u64> = BTreeMap::new();
        let mut open: BTreeMap<u64, usize> = BTreeMap::new();
        let mut syncs: Vec<(usize, usize)> = vec![];
        for (i, e) in log.iter().enumerate() {
            match e {
                Event::WriteStart { off, data, .. } => {
                    let lba = off / LBA;
                    for (j, c) in data.chunks(L).enumerate() {
                        let b = lba + j as u64;
                        started.insert((b, u64::from_le_bytes(c[..8].try_into().unwrap())), i);
                        if wp.contains_key(&(b / zone)) {
                            if let Some(l) = last.insert(b / zone, b) {
                                ensure!(l < b, "zone {} was written in order, but block {b} was issued after {l}", b / zone);
                            }
                        }
                    }
                }
                Event::SyncStart { id, .. } => { open.insert(*id, i); }
                Event::SyncDone { id, ok: true, .. } => syncs.push((open[id], i)),
                _ => {}
            }
        }
        if !mode.faults {
            for (pos, at) in &t.syncs {
                // the last one that it can have been
                let Some(k) = syncs.iter().filter(|k| k.1 < *at).map(|k| k.0).max() else { return fail(format!("sync {pos} did nothing")) };
                for (p, v) in &t.writes {
                    if p >= pos { continue }
                    for x in v {
                        let done = started.get(x).is_some_and(|i| *i < k);
                        ensure!(done, "write {p} wasn't yet issued when sync {pos}, which was requested later, was complete");
                    }
                }
            }
        }
        Ok(())
    })
}

fn fail(m: String) -> R { Err(Bad::Fail(m)) }

fn any_range(s: &mut Src, t: &Sut, reserved: u64, size: u64) -> (u64, u64) {
    let len = s.skew(1, 12);
    // next to one that's waiting, or anywhere
    if !t.ops.is_empty() && s.chance(2, 3) {
        let o = &t.ops[s.idx(t.ops.len())];
        if o.len > 0 {
            let lba = if s.chance(2, 3) { o.lba + o.len } else { o.lba.saturating_sub(len) };
            if lba >= reserved && lba + len <= size { return (lba, len) }
        }
    }
    let lba = s.range(reserved, size - 1);
    (lba, len.min(size - lba))
}

fn split(s: &mut Src, len: u64) -> Vec<u64> {
    let mut v = vec![];
    let mut left = len;
    let one = s.bool();
    while left > 0 {
        let n = if one { left } else { s.range(1, left) };
        v.push(n);
        left -= n;
    }
    v
}

pub fn checks() -> Vec<Check> {
    let rule = "10 operations or more, 4 or more of them at once";
    vec![
        Check::new("scheduler", rule, 60000, 1000000, |s| scheduler(s, Mode { faults: false, cancel: false, remove: false })),
        Check::new("cancel", rule, 40000, 1000000, |s| scheduler(s, Mode { faults: false, cancel: true, remove: false })),
        Check::new("errors", rule, 40000, 1000000, |s| { let c = s.bool(); scheduler(s, Mode { faults: true, cancel: c, remove: false }) }),
        Check::new("remove", rule, 40000, 1000000, |s| { let c = s.bool(); scheduler(s, Mode { faults: false, cancel: c, remove: true }) }),
    ]
}
