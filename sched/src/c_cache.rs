//! Several threads that read through the cache, under generated schedules
use crate::{cache::{get_or_insert, Cache, CacheRef, Cacheable, Key}, types::{Error, PBA, RID}};
use divbuf::{DivBuf, DivBufShared};
use engine::{ensure, Check, Property, Src, R};
use futures::{Future, FutureExt};
use shuttle::{future::{block_on, yield_now}, thread};
use std::{pin::Pin, sync::{Arc, Mutex}};
use ::core::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};

#[derive(Clone, Debug)]
enum Op {
    /// Read a key.  The device takes this many steps, if asked, and fails if so told
    Read { key: usize, steps: u64, fail: bool },
    /// Start to read a key, and give up after a while
    GiveUp { key: usize, steps: u64, polls: u64 },
    Remove(usize),
    Drop,
    Peek(usize),
}
type Fut = Pin<Box<dyn Future<Output = Result<Box<DivBuf>, Error>> + Send>>;

#[derive(Default)]
struct Key1 { busy: AtomicI64, fetches: AtomicU64, faults: AtomicU64 }
struct Env { cache: Arc<Mutex<Cache>>, keys: Vec<Key1>, cancels: bool }

struct Busy { env: Arc<Env>, key: usize, done: bool }
impl Drop for Busy {
    fn drop(&mut self) {
        self.env.keys[self.key].busy.fetch_sub(1, SeqCst);
        if !self.done { self.env.keys[self.key].faults.fetch_add(1, SeqCst); }
    }
}
fn content(key: usize) -> Vec<u8> { vec![key as u8; 4 + 3 * key] }
fn key(k: usize) -> Key { if k % 2 == 0 { Key::Rid(RID(k as u64)) } else { Key::PBA(PBA::new(1, k as u64)) } }

fn fetch(env: &Arc<Env>, k: usize, steps: u64, fail: bool) -> impl Future<Output = Result<Box<DivBufShared>, Error>> + Send {
    let st = &env.keys[k];
    let busy = st.busy.fetch_add(1, SeqCst) + 1;
    assert!(busy == 1 || env.cancels, "key {k} is being read {busy} times at once");
    st.fetches.fetch_add(1, SeqCst);
    let b = Busy { env: env.clone(), key: k, done: false };
    async move {
        let mut b = b;
        for _ in 0..steps { yield_now().await }
        b.done = !fail;
        if fail { Err(Error::EIO) } else { Ok(Box::new(DivBufShared::from(content(k)))) }
    }
}
fn lookup(env: &Arc<Env>, k: usize, steps: u64, fail: bool) -> Fut {
    let cache = &env.cache;
    get_or_insert!(DivBufShared, DivBuf, cache, key(k), fetch(env, k, steps, fail))
}
fn run(env: &Arc<Env>, op: &Op) {
    match op {
        Op::Read { key: k, steps, fail } => {
            match block_on(lookup(env, *k, *steps, *fail)) {
                Ok(d) => assert!(d[..] == content(*k)[..], "wrong data for key {k}"),
                Err(e) => assert!(env.keys[*k].faults.load(SeqCst) > 0, "reading key {k}: {e:?}, though no read failed"),
            }
        }
        Op::GiveUp { key: k, steps, polls } => {
            let mut f = lookup(env, *k, *steps, false);
            block_on(async {
                for _ in 0..*polls {
                    if let std::task::Poll::Ready(r) = futures::poll!(&mut f) {
                        if let Ok(d) = r { assert!(d[..] == content(*k)[..], "wrong data for key {k}") }
                        break
                    }
                    yield_now().await
                }
            });
        }
        Op::Remove(k) => { let _ = env.cache.lock().unwrap().remove(&key(*k)); }
        Op::Drop => env.cache.lock().unwrap().drop_cache(),
        Op::Peek(k) => if let Some(r) = env.cache.lock().unwrap().get::<DivBuf>(&key(*k)) {
            assert!(r[..] == content(*k)[..], "wrong data for key {k}")
        },
    }
}

fn case(s: &mut Src) -> R {
    let nkeys = s.urange(1, 3);
    let nthreads = s.urange(2, 4);
    let faults = s.bool();
    let evict = s.chance(1, 3);
    let cap = if evict && s.bool() { 12 } else { 1000 };
    let progs: Vec<Vec<Op>> = (0..nthreads).map(|_| {
        let nops = s.urange(1, 4);
        let p: Vec<Op> = (0..nops).map(|_| {
            let key = s.idx(nkeys);
            let steps = s.below(4);
            match s.weighted(&[8, if faults { 3 } else { 0 }, if evict { 2 } else { 0 }, if evict { 1 } else { 0 }, 1]) {
                0 => Op::Read { key, steps, fail: faults && s.chance(1, 3) },
                1 if faults => Op::GiveUp { key, steps, polls: s.below(4) },
                2 if evict => Op::Remove(key),
                3 if evict => Op::Drop,
                _ => Op::Peek(key),
            }
        }).collect();
        s.note(format!("thread: {p:?}"));
        p
    }).collect();
    let kind = s.below(4);
    let seed = s.any();
    s.note(format!("capacity {cap}, schedule {kind}/{seed}"));
    let all = || progs.iter().flatten();
    for k in 0..nkeys {
        if progs.iter().filter(|p| p.iter().any(|o| matches!(o, Op::Read { key, .. } | Op::GiveUp { key, .. } if *key == k))).count() > 1 { s.nontrivial() }
    }
    if faults { s.class("faults") }
    if evict { s.class("evictions") }
    let cancels = all().any(|o| matches!(o, Op::GiveUp { .. }));
    let calm = !faults && !evict;
    let reads: Vec<bool> = (0..nkeys).map(|k| all().any(|o| matches!(o, Op::Read { key, .. } if *key == k))).collect();
    let progs = Arc::new(progs);
    crate::explore(kind, seed, move || {
        let env = Arc::new(Env { cache: Arc::new(Mutex::new(Cache::with_capacity(cap))), keys: (0..nkeys).map(|_| Key1::default()).collect(), cancels });
        let ts: Vec<_> = (0..progs.len()).map(|i| {
            let (progs, env) = (progs.clone(), env.clone());
            thread::spawn(move || for op in &progs[i] { run(&env, op) })
        }).collect();
        for t in ts { t.join().unwrap() }
        for k in 0..nkeys {
            assert!(env.keys[k].busy.load(SeqCst) == 0);
            if calm {
                let n = env.keys[k].fetches.load(SeqCst);
                assert!(n == reads[k] as u64, "key {k} was read from disk {n} times");
            }
            // And it can be read afterwards
            env.keys[k].faults.store(0, SeqCst);
            match block_on(lookup(&env, k, 0, false)) {
                Ok(d) => assert!(d[..] == content(k)[..], "wrong data for key {k}"),
                Err(e) => panic!("reading key {k} afterwards: {e:?}"),
            }
        }
    });
    Ok(())
}

pub fn property() -> Property {
    Property { id: "C16", assumptions: &["Sequentially consistent interleavings of lock operations."],
        checks: vec![Check::new("cache-schedules", "2-4 threads that read 1-3 keys through the cache, with failing and abandoned reads and evictions, each under one generated schedule; no deadlock, right data, errors only after failed reads, one read at a time; non-trivial = two threads read the same key.",
            500_000, 6_000_000, case)] }
}
