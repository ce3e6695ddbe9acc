use crate::{cache::{get_or_insert, Cache, CacheRef, Cacheable, Key}, types::{Error, PBA, RID}};
use divbuf::{DivBuf, DivBufShared};
use engine::{ensure, ensure_eq, exec::Task, fail, Check, Property, Src, R};
use futures::{channel::oneshot, Future, FutureExt};
use std::{pin::Pin, sync::{Arc, Mutex}};

fn mk(i: u64) -> Key {
    // Distinct keys, some of which differ in only one of their fields
    match i % 4 {
        0 => Key::Rid(RID(i / 4)),
        1 => Key::PBA(PBA::new(0, i / 4)),
        2 => Key::PBA(PBA::new((i / 4) as u16 + 1, 0)),
        _ => Key::Rid(RID(u64::MAX - i / 4)),
    }
}

/// The reference model: entries from least to most recently used
#[derive(Default, Clone)]
struct Model { cap: usize, ents: Vec<(u64, Vec<u8>)> }
impl Model {
    fn size(&self) -> usize { self.ents.iter().map(|e| e.1.len()).sum() }
    fn pos(&self, k: u64) -> Option<usize> { self.ents.iter().position(|e| e.0 == k) }
    fn make_room(&mut self, n: usize) -> usize {
        let mut x = 0;
        while self.size() + n > self.cap { self.ents.remove(0); x += 1 }
        x
    }
    fn touch(&mut self, k: u64) -> Option<Vec<u8>> {
        let p = self.pos(k)?;
        let e = self.ents.remove(p);
        let r = e.1.clone();
        self.ents.push(e);
        Some(r)
    }
}

fn same(c: &Cache, m: &Model, nkeys: u64) -> R {
    ensure_eq!(c.capacity(), m.cap, "capacity changed");
    ensure!(c.size() <= c.capacity(), "size {} is over capacity {}", c.size(), c.capacity());
    for k in 0..nkeys {
        let got = c.get_ref(&mk(k)).map(|r| r.serialize()[..].to_vec());
        let want = m.pos(k).map(|p| m.ents[p].1.clone());
        ensure_eq!(got, want, "contents of key {k}: the cache and the model differ");
    }
    ensure_eq!(c.size(), m.size(), "size accounting");
    Ok(())
}

fn lru_case(s: &mut Src, maxcap: u64, maxops: usize) -> R {
    let cap = s.skew(0, maxcap) as usize;
    let nkeys = s.range(1, 12);
    let nops = s.urange(1, maxops);
    let mut c = Cache::with_capacity(cap);
    let mut m = Model { cap, ents: vec![] };
    let mut handles: Vec<(DivBuf, Vec<u8>)> = vec![];
    let big = s.urange(1, 4);
    s.note(format!("capacity {cap}, {nkeys} keys"));
    same(&c, &m, nkeys)?;
    for _ in 0..nops {
        let k = s.below(nkeys);
        match s.weighted(&[8, 6, 3, 2, 1, 1]) {
            0 => {
                let n = s.skew(0, (cap / big) as u64) as usize;
                if let Some(p) = m.pos(k) {
                    // A duplicate insertion of identical data
                    let v = m.ents[p].1.clone();
                    s.note(format!("insert {k} again"));
                    s.class("duplicate-insert");
                    c.insert(mk(k), Box::new(DivBufShared::from(v.clone())));
                    // It may or may not first make room, in LRU order
                    let mut alt = m.clone();
                    alt.make_room(v.len());
                    ensure!(c.get::<DivBuf>(&mk(k)).is_some(), "key {k} is absent just after its insertion");
                    if alt.pos(k).is_none() { alt.ents.push((k, v.clone())); s.class("duplicate-evicts-itself"); }
                    alt.touch(k);
                    m.touch(k);
                    if c.size() != m.size() || (0..nkeys).any(|k| m.pos(k).is_some() && c.get_ref(&mk(k)).is_none()) { m = alt; }
                } else {
                    let v = s.bytes(n);
                    s.note(format!("insert {k} len {n}"));
                    let ev = m.make_room(n);
                    if ev > 0 { s.nontrivial(); s.class("evict") }
                    if ev > 1 { s.class("evict-many") }
                    m.ents.push((k, v.clone()));
                    c.insert(mk(k), Box::new(DivBufShared::from(v)));
                }
            }
            1 => {
                s.note(format!("get {k}"));
                let hold = s.chance(1, 3);
                let got = c.get::<DivBuf>(&mk(k));
                let want = m.touch(k);
                ensure_eq!(got.as_ref().map(|d| d[..].to_vec()), want, "get({k})");
                if want.is_some() { s.class("hit") } else { s.class("miss") }
                if let (Some(d), Some(w), true) = (got, want, hold) { handles.push((*d, w)) }
            }
            2 => {
                s.note(format!("peek {k}"));
                let got = c.get_ref(&mk(k)).map(|r| r.serialize()[..].to_vec());
                ensure_eq!(got, m.pos(k).map(|p| m.ents[p].1.clone()), "get_ref({k})");
            }
            3 => {
                s.note(format!("remove {k}"));
                let got = c.remove(&mk(k)).map(|b| b.make_ref().serialize()[..].to_vec());
                let want = m.pos(k).map(|p| m.ents.remove(p).1);
                if want.is_some() { s.class("remove") }
                ensure_eq!(got, want, "remove({k})");
            }
            4 => {
                if !s.chance(1, 4) { continue }
                s.note("drop_cache");
                s.class("drop-cache");
                c.drop_cache();
                m.ents.clear();
            }
            _ => { if !handles.is_empty() { let i = s.idx(handles.len()); handles.swap_remove(i); } }
        }
        same(&c, &m, nkeys)?;
        for (h, w) in &handles { ensure!(h[..] == w[..], "a handle's contents changed") }
    }
    // Flush it out completely, one entry at a time, to observe the whole order
    if cap > 0 {
        for x in 0..m.ents.len() {
            let Some((_, v)) = m.ents.first().cloned() else { break };
            if v.is_empty() { break }
            let n = cap - m.size() + v.len();
            if n > cap { break }
            let k = 1000 + x as u64;
            let nv = vec![x as u8; n];
            m.make_room(n);
            m.ents.push((k, nv.clone()));
            c.insert(mk(k), Box::new(DivBufShared::from(nv)));
            same(&c, &m, nkeys)?;
        }
    }
    Ok(())
}

/// Very many small blocks
fn many_case(s: &mut Src) -> R {
    use std::collections::{BTreeMap, HashMap};
    let cap = *s.pick(&[5_000usize, 40_000, 200_000, 1_000_000]);
    let maxlen = s.range(1, 12);
    let nops = s.urange(cap / 8, cap * 2).min(200_000);
    let seed = s.any();
    s.note(format!("capacity {cap}, blocks of up to {maxlen} bytes, {nops} operations, seed {seed}"));
    let mut st = seed;
    let mut rnd = move |n: u64| {
        st = st.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let z = (st ^ (st >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        (z ^ (z >> 29)).wrapping_mul(0x94d0_49bb_1331_11eb) % n
    };
    let val = |k: u64| -> Vec<u8> { (0..(k * 7919) % (maxlen + 1)).map(|i| (k + i) as u8).collect() };
    let mut c = Cache::with_capacity(cap);
    let mut when: HashMap<u64, u64> = HashMap::new();
    let mut order: BTreeMap<u64, u64> = BTreeMap::new();
    let (mut now, mut next, mut size, mut most) = (0u64, 0u64, 0usize, 0usize);
    for _ in 0..nops {
        now += 1;
        match rnd(10) {
            0..=6 => {
                let v = val(next);
                while size + v.len() > cap {
                    let (_, k) = order.pop_first().unwrap();
                    when.remove(&k);
                    size -= val(k).len();
                    s.nontrivial();
                }
                size += v.len();
                when.insert(next, now);
                order.insert(now, next);
                c.insert(mk(next), Box::new(DivBufShared::from(v)));
                next += 1;
            }
            x => {
                // Rather more of the recent ones
                let k = if rnd(2) == 0 { rnd(next + 1) } else { next.saturating_sub(rnd(1 + when.len() as u64 * 2)) };
                let want = when.get(&k).map(|_| val(k));
                if x < 9 {
                    let got = c.get::<DivBuf>(&mk(k)).map(|d| d[..].to_vec());
                    ensure_eq!(got, want, "get({k})");
                    if let Some(w) = when.get_mut(&k) { order.remove(w); order.insert(now, k); *w = now; }
                } else {
                    let got = c.remove(&mk(k)).map(|b| b.make_ref().serialize()[..].to_vec());
                    ensure_eq!(got, want, "remove({k})");
                    if let Some(w) = when.remove(&k) { order.remove(&w); size -= val(k).len(); }
                }
            }
        }
        most = most.max(when.len());
        ensure_eq!(c.size(), size, "size with {} blocks", when.len());
    }
    if most > 4096 { s.class("over-4096-blocks") }
    if most > 65_536 { s.class("over-65536-blocks") }
    for k in 0..next {
        ensure_eq!(c.get_ref(&mk(k)).map(|r| r.serialize()[..].to_vec()), when.get(&k).map(|_| val(k)), "block {k} of {next}");
    }
    Ok(())
}

/// Another kind of block, as the tree's nodes are
#[derive(Debug)]
struct Other(DivBufShared);
struct OtherRef(DivBuf);
impl Cacheable for Other {
    fn deserialize(d: DivBufShared) -> Self { Other(d) }
    fn eq(&self, o: &dyn Cacheable) -> bool {
        o.downcast_ref::<Other>().map(|o| o.0.try_const().unwrap()[..] == self.0.try_const().unwrap()[..]).unwrap_or(false)
    }
    fn cache_space(&self) -> usize { self.0.len() + 7 }
    fn make_ref(&self) -> Box<dyn CacheRef> { Box::new(OtherRef(self.0.try_const().unwrap())) }
    fn wb_space(&self) -> usize { self.0.len() + 3 }
}
impl CacheRef for OtherRef {
    fn deserialize(d: DivBufShared) -> Box<dyn Cacheable> { Box::new(Other(d)) }
    fn serialize(&self) -> DivBuf { self.0.clone() }
    fn into_owned(self) -> Box<dyn Cacheable> { Box::new(Other(DivBufShared::from(self.0[..].to_vec()))) }
}
/// Handles, and blocks of two kinds
fn handle_case(s: &mut Src) -> R {
    let large = s.chance(1, 400);
    let n = if large { s.range(100_000, 3_000_000) } else { s.skew(0, 5000) } as usize;
    let v = if large { engine::fill(s.any(), n) } else { s.bytes(n) };
    let mut c = Cache::with_capacity(if large { 10_000_000 } else { 20_000 });
    let k = mk(s.below(12));
    s.note(format!("{n} bytes, {k:?}"));
    s.nontrivial();
    let new = || DivBufShared::from(v.clone());
    let b: Box<dyn Cacheable> = Box::new(new());
    ensure_eq!(b.cache_space(), n, "cache_space");
    ensure_eq!(b.wb_space(), n, "wb_space");
    ensure!(b.eq(&new()), "a block differs from one with the same data");
    ensure!(!b.eq(&Other(new())), "a block equals one of another kind");
    if n > 0 {
        let mut w = v.clone();
        let i = s.idx(n);
        w[i] ^= 1 << s.below(8);
        ensure!(!b.eq(&DivBufShared::from(w)), "a block equals one with other data");
    }
    ensure!(!b.eq(&DivBufShared::from([&v[..], &[0]].concat())), "a block equals a longer one");
    let r = b.make_ref();
    ensure!(r.serialize()[..] == v[..], "serialize");
    let h: Box<DivBuf> = match r.downcast() { Ok(h) => h, Err(_) => return fail("a handle of the wrong type") };
    let o = h.clone().into_owned();
    let Ok(o) = o.downcast::<DivBufShared>() else { return fail("into_owned: wrong type") };
    if n > 0 {
        let mut m = o.try_mut().unwrap();
        ensure!(m[..] == v[..], "into_owned");
        m[0] ^= 0xff;
    }
    ensure!(h[..] == v[..], "the owned copy shares its data with the cached block");
    ensure!(<DivBuf as CacheRef>::deserialize(new()).make_ref().serialize()[..] == v[..], "deserialize");
    drop((h, o));
    // Both kinds live in one cache
    let other = s.bool();
    if other { c.insert(k, Box::new(Other(new()))) } else { c.insert(k, b) }
    ensure_eq!(c.size(), if other { n + 7 } else { n }, "size");
    let r = engine::catch(|| if other { c.insert(k, Box::new(new())) } else { c.insert(k, Box::new(Other(new()))) });
    ensure!(r.is_err(), "a block of another kind was accepted for a resident key");
    Ok(())
}

pub fn lru() -> Property {
    Property { id: "C01", assumptions: &["Keys are inserted with at most the cache's capacity, as the callers' record sizes are far below it.",
            "Data that is inserted twice under one key is identical, as records are immutable."],
        checks: vec![
            Check::new("lru-model", "Random insert/get/peek/remove/drop histories over 1-12 keys, compared after every step with a list-based LRU model; non-trivial = at least one insertion evicted something.",
                1_200_000, 12_000_000, |s| lru_case(s, 200, 40)),
            Check::new("lru-long", "As lru-model, with up to 400 operations and large entries; non-trivial = at least one insertion evicted something.",
                60_000, 600_000, |s| lru_case(s, 5000, 400)),
            Check::new("lru-many", "Random insert/get/remove histories of up to 200000 operations over ever new keys, in caches that hold up to 100000 small blocks, compared with a model that is ordered by time of use; non-trivial = at least one insertion evicted something.",
                250, 6_000, many_case),
            Check::new("lru-conflict", "A second insertion of different data under a resident key must be refused; non-trivial = always.",
                40_000, 400_000, |s| {
                    let mut c = Cache::with_capacity(10_000);
                    let nk = s.range(1, 6);
                    let mut vals = vec![];
                    for k in 0..nk {
                        let n = s.urange(1, 100);
                        let v = s.bytes(n);
                        c.insert(mk(k), Box::new(DivBufShared::from(v.clone())));
                        vals.push(v);
                    }
                    let k = s.below(nk);
                    let mut v2 = vals[k as usize].clone();
                    match s.below(3) {
                        0 => { let i = s.idx(v2.len()); v2[i] ^= 1 << s.below(8); }
                        1 => v2.push(0),
                        _ => { v2.pop(); }
                    }
                    s.note(format!("key {k} {} -> {} bytes", vals[k as usize].len(), v2.len()));
                    s.nontrivial();
                    let r = engine::catch(|| c.insert(mk(k), Box::new(DivBufShared::from(v2))));
                    ensure!(r.is_err(), "conflicting data was accepted for key {k}");
                    Ok(())
                }),
            Check::new("handles", "Blocks of two kinds, their handles, sizes and copies; non-trivial = always.", 60_000, 600_000, handle_case),
        ] }
}

type Fut = Pin<Box<dyn Future<Output = Result<Box<DivBuf>, Error>> + Send>>;
type Fetch = Result<Box<DivBufShared>, Error>;
/// The way the storage layers use the cache
fn lookup(cache: &Arc<Mutex<Cache>>, key: Key, start: impl FnOnce() -> oneshot::Receiver<Fetch>) -> Fut {
    get_or_insert!(DivBufShared, DivBuf, cache, key, start().map(|r| r.unwrap()))
}

/// Readers of a few keys, whose fetches complete when the test says so.
fn goi_case(s: &mut Src, faults: bool) -> R {
    let nkeys = s.range(1, 3);
    let content: Vec<Vec<u8>> = (0..nkeys).map(|_| { let n = s.urange(1, 64); s.bytes(n) }).collect();
    let cap = if faults && s.chance(1, 3) { 64 } else { 1_000_000 };
    let cache = Arc::new(Mutex::new(Cache::with_capacity(cap)));
    // Failed: a fetch that this reader made or joined failed or was cancelled
    struct Rd<'a> { key: u64, t: Task<'a, Result<Box<DivBuf>, Error>>, fetch: usize, gone: bool }
    enum St { Going(oneshot::Sender<Fetch>), Done, Failed, Cancelled }
    struct Ft { key: u64, st: St, leader: usize }
    let mut readers: Vec<Rd> = vec![];
    let mut fetches: Vec<Ft> = vec![];
    let nops = s.urange(1, 40);
    let mut evictions = cap < 1000;
    // Is a fetch for this key unfinished, or finished but not yet noticed by the reader that made it?
    fn pending(f: &[Ft], r: &[Rd], key: u64) -> Option<usize> {
        f.iter().rposition(|f| f.key == key && !matches!(f.st, St::Cancelled) && r.get(f.leader).is_some_and(|r| !r.t.done()))
    }
    for _ in 0..nops {
        match s.weighted(if faults { &[5, 5, 3, 1, 2, 2] } else { &[5, 5, 4, 1, 0, 0] }) {
            0 => {
                let key = s.below(nkeys);
                let joined = pending(&fetches, &readers, key);
                let resident = cache.lock().unwrap().get_ref(&mk(key)).is_some();
                let mut started = None;
                let fut = lookup(&cache, mk(key), || {
                    let (tx, rx) = oneshot::channel();
                    started = Some(tx);
                    rx
                });
                s.note(format!("reader {} of key {key}{}", readers.len(), if started.is_some() { " (fetches)" } else { "" }));
                let fetch = match started {
                    Some(tx) => {
                        ensure!(joined.is_none(), "key {key} is being fetched twice at once");
                        ensure!(!resident, "key {key} is being fetched although it is cached");
                        fetches.push(Ft { key, st: St::Going(tx), leader: readers.len() });
                        fetches.len() - 1
                    }
                    None => {
                        if joined.is_some() && !resident { s.nontrivial(); s.class("joined") }
                        ensure!(joined.is_some() || resident, "key {key} is neither cached nor being fetched, yet wasn't fetched");
                        if resident { usize::MAX } else { joined.unwrap() }
                    }
                };
                readers.push(Rd { key, t: Task::new(fut), fetch, gone: false });
            }
            1 => {
                let w: Vec<usize> = (0..readers.len()).filter(|i| readers[*i].t.woken()).collect();
                if w.is_empty() { continue }
                let i = *s.pick(&w);
                s.note(format!("poll {i}"));
                readers[i].t.poll();
            }
            2 | 4 => {
                let op_fail = faults && s.chance(1, 3);
                let g: Vec<usize> = (0..fetches.len()).filter(|i| matches!(fetches[*i].st, St::Going(_))).collect();
                if g.is_empty() { continue }
                let i = *s.pick(&g);
                let key = fetches[i].key;
                let new = if op_fail { St::Failed } else { St::Done };
                let St::Going(tx) = std::mem::replace(&mut fetches[i].st, new) else { unreachable!() };
                s.note(format!("fetch of {key} {}", if op_fail { "fails" } else { "completes" }));
                if op_fail { s.class("failed-fetch") }
                let _ = tx.send(if op_fail { Err(Error::EINTEGRITY) } else { Ok(Box::new(DivBufShared::from(content[key as usize].clone()))) });
            }
            3 => {
                let key = s.below(nkeys);
                // Invalidation, when nobody is between a wakeup and its poll
                if faults || readers.iter().all(|r| r.key != key || r.t.done()) {
                    s.note(format!("remove {key}"));
                    evictions |= cache.lock().unwrap().remove(&mk(key)).is_some();
                }
            }
            _ => {
                let w: Vec<usize> = (0..readers.len()).filter(|i| !readers[*i].t.done()).collect();
                if w.is_empty() { continue }
                let i = *s.pick(&w);
                s.note(format!("reader {i} gives up"));
                s.class("cancelled");
                readers[i].t.cancel();
                readers[i].gone = true;
                if let Some(f) = fetches.get_mut(readers[i].fetch) { if f.leader == i { f.st = St::Cancelled } }
            }
        }
    }
    let _ = evictions;
    loop {
        while let Some(i) = (0..readers.len()).find(|i| readers[*i].t.woken()) { readers[i].t.poll(); }
        let Some(i) = fetches.iter().position(|f| matches!(f.st, St::Going(_))) else { break };
        let St::Going(tx) = std::mem::replace(&mut fetches[i].st, St::Done) else { unreachable!() };
        let _ = tx.send(Ok(Box::new(DivBufShared::from(content[fetches[i].key as usize].clone()))));
    }
    for (i, r) in readers.iter_mut().enumerate() {
        if r.gone { continue }
        match r.t.out.take() {
            None => return fail(format!("reader {i} of key {} never finished", r.key)),
            Some(Err(e)) => {
                ensure!(fetches.get(r.fetch).is_some_and(|f| matches!(f.st, St::Failed | St::Cancelled)),
                    "reader {i} failed with {e}, though its fetch did not");
                s.class("error-returned");
            }
            Some(Ok(d)) => {
                ensure!(d[..] == content[r.key as usize][..], "reader {i} of key {} got other data", r.key);
                ensure!(!fetches.get(r.fetch).is_some_and(|f| matches!(f.st, St::Failed)), "reader {i} succeeded though its fetch failed");
            }
        }
    }
    // Afterwards, every key can be read
    for k in 0..nkeys {
        let fut = lookup(&cache, mk(k), || {
            let (tx, rx) = oneshot::channel();
            let _ = tx.send(Ok(Box::new(DivBufShared::from(content[k as usize].clone()))));
            rx
        });
        match engine::exec::block_on(fut) {
            None => return fail(format!("key {k} can never be read again")),
            Some(Err(e)) => return fail(format!("a later read of key {k} failed with {e}")),
            Some(Ok(d)) => ensure!(d[..] == content[k as usize][..], "a later read of key {k} got other data"),
        }
    }
    ensure!(cache.lock().unwrap().size() <= cap, "over capacity");
    Ok(())
}

pub fn goi() -> Property {
    Property { id: "C02", assumptions: &["A reader that joins a fetch which fails or is cancelled may report any error."],
        checks: vec![
            Check::new("readers", "1-3 keys, any number of readers started, polled and completed in random order around fetches the test controls; non-trivial = a reader joined a fetch in flight.",
                1_200_000, 12_000_000, |s| goi_case(s, false)),
            Check::new("readers-faults", "As readers, but fetches may fail, readers may be cancelled, and entries may be evicted at any point; non-trivial = a reader joined a fetch in flight.",
                2_000_000, 20_000_000, |s| goi_case(s, true)),
        ] }
}
