//! Simulated disks: delays, faults, and a log for crash simulation.
use std::{
    collections::HashMap,
    fs::File,
    io,
    os::{fd::RawFd, unix::fs::MetadataExt},
    path::Path,
    sync::{Arc, LazyLock, Mutex},
};

pub const BLOCK: u64 = 4096;

#[derive(Clone, Copy, Debug, Eq, PartialEq)]
pub enum Kind { Read, Write, Sync }

#[derive(Clone, Debug)]
pub enum Event {
    /// A write was handed to the disk
    WriteStart { disk: usize, id: u64, off: u64, data: Arc<Vec<u8>> },
    WriteDone { disk: usize, id: u64, ok: bool },
    SyncStart { disk: usize, id: u64 },
    SyncDone { disk: usize, id: u64, ok: bool },
    Erase { disk: usize, off: u64, len: u64 },
    /// Put there by the test
    Mark(u64),
}

/// A rule by which operations fail
#[derive(Clone, Debug)]
pub struct Fault {
    pub disk: usize,
    pub kind: Kind,
    /// Fails if the operation overlaps this byte range
    pub range: std::ops::Range<u64>,
    /// Let this many matching operations through first
    pub skip: u64,
    /// and then fail this many
    pub count: u64,
    pub errno: i32,
}

#[derive(Default)]
struct WorldState {
    rng: u64,
    max_delay: u32,
    next_id: u64,
    record: bool,
    log: Vec<Event>,
    faults: Vec<Fault>,
    keys: Vec<(u64, u64)>,
    pub reads: u64,
    pub writes: u64,
    pub syncs: u64,
    pub erases: Vec<(usize, u64, u64)>,
    pub faults_fired: u64,
    /// How many operations may be in flight at once
    limit: Option<u32>,
    /// How often, of 16 times, something else uses up the resources
    busy: u32,
    inflight: u32,
    max_inflight: u32,
    agains: u64,
    dead: Vec<bool>,
}

/// A set of disks with a common clock.
#[derive(Clone)]
pub struct World(Arc<Mutex<WorldState>>);

static REG: LazyLock<Mutex<HashMap<(u64, u64), (World, usize)>>> = LazyLock::new(Default::default);

fn key_of(fd: RawFd) -> Option<(u64, u64)> {
    unsafe {
        let mut st: libc::stat = std::mem::zeroed();
        if libc::fstat(fd, &mut st) == 0 { Some((st.st_dev, st.st_ino)) } else { None }
    }
}

pub fn lookup(fd: RawFd) -> Option<(World, usize)> {
    let key = key_of(fd)?;
    REG.lock().unwrap().get(&key).cloned()
}

/// Deallocate a byte range.  Reads as zeros afterwards.
pub fn erase(fd: RawFd, off: u64, len: u64) -> io::Result<()> {
    if let Some((w, d)) = lookup(fd) {
        let mut g = w.0.lock().unwrap();
        g.erases.push((d, off, len));
        if g.record { g.log.push(Event::Erase { disk: d, off, len }); }
    }
    let r = unsafe {
        libc::fallocate(fd, libc::FALLOC_FL_PUNCH_HOLE | libc::FALLOC_FL_KEEP_SIZE, off as i64, len as i64)
    };
    if r == 0 { Ok(()) } else { Err(io::Error::last_os_error()) }
}

fn xorshift(s: &mut u64) -> u64 {
    *s ^= *s << 13;
    *s ^= *s >> 7;
    *s ^= *s << 17;
    *s
}

impl World {
    pub fn new(seed: u64, max_delay: u32) -> Self {
        let st = WorldState { rng: seed.wrapping_mul(0x9E3779B97F4A7C15) | 1, max_delay, ..Default::default() };
        World(Arc::new(Mutex::new(st)))
    }

    /// Attach the file as the next disk; returns its number.
    pub fn attach(&self, path: &Path) -> usize {
        let md = File::open(path).unwrap().metadata().unwrap();
        let key = (md.dev(), md.ino());
        let mut g = self.0.lock().unwrap();
        let d = g.keys.len();
        g.keys.push(key);
        g.dead.push(false);
        drop(g);
        REG.lock().unwrap().insert(key, (self.clone(), d));
        d
    }

    /// Forget all of this world's disks
    pub fn detach_all(&self) {
        let keys = self.0.lock().unwrap().keys.clone();
        let mut r = REG.lock().unwrap();
        for k in keys { r.remove(&k); }
    }

    pub fn recording(&self) -> bool { self.0.lock().unwrap().record }

    pub fn set_record(&self, on: bool) { self.0.lock().unwrap().record = on; }
    pub fn set_max_delay(&self, d: u32) { self.0.lock().unwrap().max_delay = d; }

    pub fn mark(&self, m: u64) {
        let mut g = self.0.lock().unwrap();
        if g.record { g.log.push(Event::Mark(m)); }
    }

    pub fn take_log(&self) -> Vec<Event> { std::mem::take(&mut self.0.lock().unwrap().log) }

    pub fn log_len(&self) -> usize { self.0.lock().unwrap().log.len() }

    pub fn add_fault(&self, f: Fault) { self.0.lock().unwrap().faults.push(f); }
    pub fn clear_faults(&self) { self.0.lock().unwrap().faults.clear(); }
    /// Fail everything on this disk with ENXIO
    pub fn kill(&self, disk: usize) { self.0.lock().unwrap().dead[disk] = true; }
    pub fn revive(&self, disk: usize) { self.0.lock().unwrap().dead[disk] = false; }
    pub fn faults_fired(&self) -> u64 { self.0.lock().unwrap().faults_fired }
    /// (reads, writes, syncs)
    pub fn counts(&self) -> (u64, u64, u64) {
        let g = self.0.lock().unwrap();
        (g.reads, g.writes, g.syncs)
    }
    pub fn take_erases(&self) -> Vec<(usize, u64, u64)> { std::mem::take(&mut self.0.lock().unwrap().erases) }

    /// Limit the resources for asynchronous operations
    pub fn set_limit(&self, limit: Option<u32>, busy: u32) {
        let mut g = self.0.lock().unwrap();
        g.limit = limit;
        g.busy = busy;
    }
    /// How many operations were in flight at most, and how often there were no resources for one
    pub fn load(&self) -> (u32, u64) { let g = self.0.lock().unwrap(); (g.max_inflight, g.agains) }
    pub fn inflight(&self) -> u32 { self.0.lock().unwrap().inflight }

    pub(crate) fn admit(&self, _disk: usize) -> bool {
        let mut g = self.0.lock().unwrap();
        let g = &mut *g;
        if g.limit.is_some_and(|l| g.inflight >= l) || (g.busy > 0 && (xorshift(&mut g.rng) >> 20) % 16 < g.busy as u64) {
            g.agains += 1;
            return false;
        }
        g.inflight += 1;
        g.max_inflight = g.max_inflight.max(g.inflight);
        true
    }
    pub(crate) fn cancel(&self) { self.0.lock().unwrap().inflight -= 1; }

    pub(crate) fn submit(&self, disk: usize, kind: Kind, off: u64, len: usize, data: Option<Vec<u8>>)
        -> (u64, u32, Option<i32>)
    {
        let mut g = self.0.lock().unwrap();
        let g = &mut *g;
        let id = g.next_id;
        g.next_id += 1;
        match kind { Kind::Read => g.reads += 1, Kind::Write => g.writes += 1, Kind::Sync => g.syncs += 1 }
        let delay = if g.max_delay == 0 { 0 } else { (xorshift(&mut g.rng) >> 16) as u32 % (g.max_delay + 1) };
        let mut fault = None;
        if g.dead[disk] { fault = Some(libc::ENXIO); }
        let end = off + len as u64;
        for f in g.faults.iter_mut() {
            if f.disk != disk || f.kind != kind { continue; }
            if kind != Kind::Sync && (f.range.start >= end || f.range.end <= off) { continue; }
            if f.skip > 0 { f.skip -= 1; continue; }
            if f.count == 0 { continue; }
            f.count -= 1;
            fault = Some(f.errno);
        }
        if fault.is_some() { g.faults_fired += 1; }
        if g.record {
            match kind {
                Kind::Write => g.log.push(Event::WriteStart { disk, id, off, data: Arc::new(data.unwrap_or_default()) }),
                Kind::Sync => g.log.push(Event::SyncStart { disk, id }),
                Kind::Read => {}
            }
        }
        (id, delay, fault)
    }

    pub(crate) fn complete(&self, disk: usize, id: u64, kind: Kind, ok: bool) {
        let mut g = self.0.lock().unwrap();
        g.inflight -= 1;
        if g.record {
            match kind {
                Kind::Write => g.log.push(Event::WriteDone { disk, id, ok }),
                Kind::Sync => g.log.push(Event::SyncDone { disk, id, ok }),
                Kind::Read => {}
            }
        }
    }
}

/// The writes that a disk may hold after a crash just before log entry `point`.
///
/// Everything completed before the start of a completed sync is durable; of the
/// rest each block is there or not, as `pick` (log entry, offset, durable) decides.  Erased ranges are never
/// part of it: an erased block that isn't rewritten holds garbage.
pub fn crash_writes(log: &[Event], point: usize, disk: usize, mut pick: impl FnMut(usize, u64, bool) -> bool)
    -> Vec<(u64, Vec<u8>)>
{
    let mut done: HashMap<u64, usize> = HashMap::new();
    let mut sync_start: HashMap<u64, usize> = HashMap::new();
    let mut durable_before = 0;
    for (i, e) in log[..point].iter().enumerate() {
        match e {
            Event::WriteDone { disk: d, id, ok: true } if *d == disk => { done.insert(*id, i); }
            Event::SyncStart { disk: d, id } if *d == disk => { sync_start.insert(*id, i); }
            Event::SyncDone { disk: d, id, ok: true } if *d == disk => {
                durable_before = durable_before.max(sync_start[id]);
            }
            _ => {}
        }
    }
    let mut out = Vec::new();
    for (i, e) in log[..point].iter().enumerate() {
        match e {
            Event::WriteStart { disk: d, id, off, data } if *d == disk => {
                let durable = done.get(id).is_some_and(|i| *i < durable_before);
                for (k, b) in data.chunks(BLOCK as usize).enumerate() {
                    let off = off + k as u64 * BLOCK;
                    if pick(i, off, durable) { out.push((off, b.to_vec())); }
                }
            }
            Event::Erase { disk: d, off, len } if *d == disk => {
                out.push((*off, vec![0u8; *len as usize]));
            }
            _ => {}
        }
    }
    out
}
