//! The copy-on-write B+tree, on an in-memory DML.
use crate::{
    rt::{self, Delays},
    store::{lba, Store},
};
use bfffs_core::{
    ddml::DRP,
    dml::{Compression, DML},
    tree::{Key, MinValue, Tree, TreeOnDisk, Value},
    types::*,
    Error,
};
use bfffs_core::writeback::Credit as Credit_;
use divbuf::{DivBuf, DivBufShared};
use engine::{ensure, ensure_eq, fail, Bad, Check, Src, R};
use futures::{Future, FutureExt, StreamExt, TryStreamExt};
use serde::{Deserialize, Serialize};
use speedy::{Readable, Writable};
use std::{
    any::Any,
    collections::{BTreeMap, BTreeSet},
    ops::Bound,
    pin::Pin,
    sync::{Arc, Mutex},
};

type Res<T> = std::result::Result<T, Error>;

// ------------------------------------------------------------------ key types
pub trait TKey: Key {
    fn mk(x: u32) -> Self;
    fn un(self) -> u32;
}
macro_rules! key {
    ($n:ident, $credit:expr) => {
        #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize, Readable, Writable)]
        pub struct $n(u32);
        impl TypicalSize for $n { const TYPICAL_SIZE: usize = 4; }
        impl MinValue for $n { fn min_value() -> Self { $n(0) } }
        impl Key for $n { const USES_CREDIT: bool = $credit; }
        impl TKey for $n {
            fn mk(x: u32) -> Self { $n(x) }
            fn un(self) -> u32 { self.0 }
        }
    };
}
key!(KCredit, true);
key!(KFree, false);

// ---------------------------------------------------------------- value types
/// What a value is made from, and stands for
type Id = (u64, u32);
pub trait TValue: Value {
    fn mk(id: Id) -> Self;
    fn id(&self) -> Id;
    /// The record that it owns
    fn owned(&self) -> Option<u64> { None }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Readable, Writable)]
pub struct Plain(u64, u32);
impl TypicalSize for Plain { const TYPICAL_SIZE: usize = 12; }
impl Value for Plain {
    const MAX_ALLOCATED_SPACE: usize = 2000;
    fn allocated_space(&self) -> usize { self.1 as usize }
}
impl TValue for Plain {
    fn mk(id: Id) -> Self { Plain(id.0, id.1) }
    fn id(&self) -> Id { (self.0, self.1) }
}
/// A value whose bulk is written apart from its leaf, if it's at all large
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Readable, Writable)]
pub enum Big {
    Inline(u64, u32),
    Blob(u64, u32, DRP),
}
impl Default for Big { fn default() -> Self { Big::Inline(u64::MAX, 0) } }
impl TypicalSize for Big { const TYPICAL_SIZE: usize = 16; }
fn blob(id: Id) -> Vec<u8> {
    let mut v = vec![0; id.1 as usize];
    v[..8].copy_from_slice(&id.0.to_le_bytes());
    v
}
fn any<T: Copy + 'static, U: Copy + 'static>(t: &T) -> U { *(t as &dyn Any).downcast_ref::<U>().unwrap() }
impl Value for Big {
    const NEEDS_FLUSH: bool = true;
    const MAX_ALLOCATED_SPACE: usize = 2000;
    fn allocated_space(&self) -> usize { match self { Big::Inline(_, n) => *n as usize, _ => 0 } }
    fn ddrop<D>(&self, dml: &D, txg: TxgT) -> Pin<Box<dyn Future<Output = Res<()>> + Send>>
        where D: DML + 'static, D::Addr: 'static
    {
        match self {
            Big::Blob(_, _, a) => dml.delete(&any::<DRP, D::Addr>(a), txg),
            _ => futures::future::ok(()).boxed(),
        }
    }
    fn flush_bt<D, K: Key>(bt: BTreeMap<K, Self>, dml: &D, txg: TxgT)
        -> Pin<Box<dyn Future<Output = Res<BTreeMap<K, Self>>> + Send>>
        where D: DML + 'static, D::Addr: 'static
    {
        let futs: Vec<_> = bt.into_iter().map(|(k, v)| match v {
            Big::Inline(id, n) if n >= 100 => {
                dml.put(DivBufShared::from(blob((id, n))), Compression::None, txg)
                    .map(move |r| r.map(|a| (k, Big::Blob(id, n, any::<D::Addr, DRP>(&a))))).boxed()
            }
            v => futures::future::ok((k, v)).boxed(),
        }).collect();
        futures::future::try_join_all(futs).map(|r| r.map(|v| v.into_iter().collect())).boxed()
    }
    fn dpop<D>(self, dml: &D, txg: TxgT) -> Pin<Box<dyn Future<Output = Res<Self>> + Send>>
        where D: DML + 'static, D::Addr: 'static
    {
        match self {
            Big::Blob(id, n, a) => dml.pop::<DivBufShared, DivBuf>(&any::<DRP, D::Addr>(&a), txg)
                .map(move |r| r.map(|dbs| {
                    assert_eq!(&dbs.try_const().unwrap()[..], &blob((id, n))[..], "blob has another's contents");
                    Big::Inline(id, n)
                })).boxed(),
            v => futures::future::ok(v).boxed(),
        }
    }
    fn needs_flush(&self) -> bool { matches!(self, Big::Inline(_, n) if *n >= 100) }
}
impl TValue for Big {
    fn mk(id: Id) -> Self { Big::Inline(id.0, id.1) }
    fn id(&self) -> Id { match self { Big::Inline(a, b) | Big::Blob(a, b, _) => (*a, *b) } }
    fn owned(&self) -> Option<u64> { match self { Big::Blob(_, _, a) => Some(lba(a)), _ => None } }
}

// -------------------------------------------------------------------- the ops
#[derive(Clone, Debug)]
enum Op {
    Insert(u32, u32),
    /// Ascending run
    InsertRun(u32, u32, u32),
    Remove(u32),
    Get(u32),
    Range(Bound<u32>, Bound<u32>),
    RangeDelete(Bound<u32>, Bound<u32>),
    LastKey,
}
type Tr<K, V> = Arc<Tree<DRP, Store, K, V>>;
const CAP: usize = 1 << 40;

fn gen_bounds(s: &mut Src, lo: u32, hi: u32) -> (Bound<u32>, Bound<u32>) {
    let a = s.range(lo as u64, hi as u64) as u32;
    let b = if s.chance(1, 3) { (a + s.below(6) as u32).min(hi) } else { s.range(a as u64, hi as u64) as u32 };
    let l = match s.weighted(&[3, 2, 1]) { 0 => Bound::Included(a), 1 => Bound::Excluded(a), _ => Bound::Included(lo) };
    let r = match s.weighted(&[3, 2, 1]) { 0 => Bound::Excluded(b), 1 => Bound::Included(b), _ => Bound::Included(hi) };
    (l, r)
}
fn gen_op(s: &mut Src, lo: u32, hi: u32, growing: bool) -> Op {
    let k = |s: &mut Src| s.range(lo as u64, hi as u64) as u32;
    let sz = |s: &mut Src| if s.bool() { 0 } else { s.skew(8, 2000) as u32 };
    match s.weighted(if growing { &[10, 3, 2, 1, 1, 1, 1] } else { &[3, 1, 10, 1, 1, 4, 1] }) {
        0 => Op::Insert(k(s), sz(s)),
        1 => {
            let a = k(s);
            Op::InsertRun(a, (a + s.below(40) as u32).min(hi), sz(s))
        }
        2 => Op::Remove(k(s)),
        3 => Op::Get(k(s)),
        4 => { let (a, b) = gen_bounds(s, lo, hi); Op::Range(a, b) }
        5 => { let (a, b) = gen_bounds(s, lo, hi); Op::RangeDelete(a, b) }
        _ => Op::LastKey,
    }
}
fn mapb<K: TKey>(b: Bound<u32>) -> Bound<K> {
    match b { Bound::Included(x) => Bound::Included(K::mk(x)), Bound::Excluded(x) => Bound::Excluded(K::mk(x)), _ => Bound::Unbounded }
}
/// The API forbids ranges whose end precedes their start
fn legal(r: &(Bound<u32>, Bound<u32>)) -> bool {
    match r {
        (Bound::Excluded(a), Bound::Included(b) | Bound::Excluded(b)) => a < b,
        (Bound::Included(a), Bound::Included(b) | Bound::Excluded(b)) => a <= b,
        _ => true,
    }
}

struct Ctx<K: Key, V: Value> {
    tree: Tr<K, V>,
    store: Store,
    next_id: Arc<Mutex<u64>>,
}
impl<K: TKey, V: TValue> Ctx<K, V> {
    async fn credit(&self, n: usize) -> bfffs_core::writeback::Credit {
        if K::USES_CREDIT { self.store.wb.borrow(n).await } else { bfffs_core::writeback::Credit::null() }
    }
    async fn insert(&self, k: u32, size: u32, txg: TxgT, m: &mut BTreeMap<u32, Id>) -> R {
        let id = { let mut g = self.next_id.lock().unwrap(); *g += 1; *g };
        let v = V::mk((id, size));
        let c = self.credit(self.tree.credit_requirements().insert + v.allocated_space()).await;
        let old = self.tree.clone().insert(K::mk(k), v, txg, c).await.map_err(|e| Bad::Fail(format!("insert: {e:?}")))?;
        ensure_eq!(old.map(|v| v.id()), m.insert(k, (id, size)), "insert of {k} must return what was there");
        Ok(())
    }
    /// `all`: nobody else changes the tree, and so it must agree with m wholly
    async fn apply(&self, op: &Op, lo: u32, hi: u32, txg: TxgT, m: &mut BTreeMap<u32, Id>, all: bool) -> R {
        let e = |e: Error| Bad::Fail(format!("{op:?}: {e:?}"));
        match op {
            Op::Insert(k, sz) => self.insert(*k, *sz, txg, m).await?,
            Op::InsertRun(a, b, sz) => for k in *a..=*b { self.insert(k, *sz, txg, m).await? },
            Op::Remove(k) => {
                let c = self.credit(self.tree.credit_requirements().remove).await;
                let old = self.tree.clone().remove(K::mk(*k), txg, c).await.map_err(e)?;
                ensure_eq!(old.map(|v| v.id()), m.remove(k), "remove of {k} must return what was there");
            }
            Op::Get(k) => {
                let v = self.tree.get(K::mk(*k)).await.map_err(e)?;
                ensure_eq!(v.map(|v| v.id()), m.get(k).copied(), "get({k})");
            }
            Op::Range(a, b) => {
                if !legal(&(*a, *b)) { return Ok(()); }
                let got: Vec<(K, V)> = self.tree.range::<_, K>((mapb::<K>(*a), mapb::<K>(*b))).try_collect().await.map_err(e)?;
                let got: Vec<(u32, Id)> = got.into_iter().map(|(k, v)| (k.un(), v.id())).collect();
                let want: Vec<(u32, Id)> = m.range((*a, *b)).map(|(k, v)| (*k, *v)).collect();
                ensure_eq!(got, want, "range({a:?}, {b:?})");
            }
            Op::RangeDelete(a, b) => {
                let c = self.credit(self.tree.credit_requirements().range_delete).await;
                self.tree.clone().range_delete((mapb::<K>(*a), mapb::<K>(*b)), txg, c).await.map_err(e)?;
                if legal(&(*a, *b)) {
                    let ks: Vec<u32> = m.range((*a, *b)).map(|x| *x.0).collect();
                    for k in ks { m.remove(&k); }
                }
            }
            Op::LastKey => {
                let k = self.tree.last_key().await.map_err(e)?.map(|k| k.un());
                if all { ensure_eq!(k, m.keys().next_back().copied(), "last_key"); }
                else if let Some(l) = m.keys().next_back() { ensure!(k.is_some_and(|k| k >= *l), "last_key {k:?}, but {l} is there"); }
            }
        }
        let _ = (lo, hi);
        Ok(())
    }
    fn sound(&self) -> R {
        let g = self.store.inner.lock().unwrap();
        if let Some(b) = g.bad.first() { return fail(format!("misuse of the DML: {b}")); }
        Ok(())
    }
    async fn audit(&self, m: &BTreeMap<u32, Id>) -> R {
        self.sound()?;
        ensure!(self.tree.clone().check().await.map_err(|e| Bad::Fail(format!("check: {e:?}")))?, "Tree::check found a fault");
        let got: Vec<(K, V)> = self.tree.range::<_, K>(..).try_collect().await.map_err(|e| Bad::Fail(format!("range: {e:?}")))?;
        let got: Vec<(u32, Id)> = got.into_iter().map(|(k, v)| (k.un(), v.id())).collect();
        let want: Vec<(u32, Id)> = m.iter().map(|(k, v)| (*k, *v)).collect();
        if got != want {
            let g: BTreeMap<_, _> = got.iter().copied().collect();
            let missing: Vec<_> = want.iter().filter(|(k, v)| g.get(k) != Some(v)).take(5).collect();
            let extra: Vec<_> = got.iter().filter(|(k, v)| m.get(k) != Some(v)).take(5).collect();
            return fail(format!("the tree's contents are wrong: {} items, not {}; missing {missing:?}; extra {extra:?}", got.len(), want.len()));
        }
        self.sound()
    }
    /// Flush; then nothing may be dirty, no credit be held, and exactly the
    /// tree's records be stored.
    async fn flush(&self, txg: TxgT) -> R {
        self.tree.clone().flush(txg).await.map_err(|e| Bad::Fail(format!("flush: {e:?}")))?;
        self.sound()?;
        ensure!(!self.tree.is_dirty(), "dirty after a flush");
        ensure!(self.store.wb.borrow(CAP).now_or_never().map(|c| self.store.wb.repay(c)).is_some(), "writeback credit leaked: some is outstanding after a flush");
        let mut used: BTreeSet<u64> = BTreeSet::new();
        let a: Vec<DRP> = self.tree.addresses(..).collect().await;
        for a in a { ensure!(used.insert(lba(&a)), "address {} twice in the tree", lba(&a)); }
        let vals: Vec<(K, V)> = self.tree.range::<_, K>(..).try_collect().await.map_err(|e| Bad::Fail(format!("range: {e:?}")))?;
        for (_, v) in &vals {
            if let Some(a) = v.owned() { ensure!(used.insert(a), "record {a} has two owners"); }
        }
        let g = self.store.inner.lock().unwrap();
        let stored: BTreeSet<u64> = g.recs.keys().copied().collect();
        ensure!(used == stored, "stored but not reachable: {:?}; reachable but not stored: {:?}",
            stored.difference(&used).take(5).collect::<Vec<_>>(), used.difference(&stored).take(5).collect::<Vec<_>>());
        Ok(())
    }
}

fn one<K: TKey, V: TValue>(s: &mut Src, concurrent: bool) -> R {
    let seq = s.bool();
    let (lf, ifo) = (s.urange(4, 12), s.urange(5, 12));
    let delays = Delays::new(s.any(), if concurrent || s.bool() { 3 } else { 0 });
    // Concurrent users of a tree rely on a node's readers keeping it in the cache
    let cache = if concurrent { Some(1 << 30) } else { match s.below(3) { 0 => None, 1 => Some(100_000), _ => Some(1 << 20) } };
    let le = K::TYPICAL_SIZE + V::TYPICAL_SIZE;
    let ie = K::TYPICAL_SIZE + 8 + DRP::TYPICAL_SIZE;
    let ratio = |n: usize, e: usize| {
        let n = if seq { (n * 3 + 3) / 4 + 4 } else { n };
        (n * e + 12) as f32 / 4096.0 + 0.0005
    };
    let (lx, ix) = (ratio(lf, le), ratio(ifo, ie));
    s.note(format!("seq={seq} leaf={lf} int={ifo} cache={cache:?} concurrent={concurrent}"));
    let ntasks = if concurrent { s.urange(2, 4) } else { 1 };
    let span = *s.pick(&[40u32, 120, 300]);
    let nphases = s.urange(1, 6);
    let mut growing = true;
    // Phase: (per-task ops, flusher runs, what to do at its end)
    let mut phases = vec![];
    for p in 0..nphases {
        let tasks: Vec<Vec<Op>> = (0..ntasks).map(|t| {
            let lo = t as u32 * span;
            let n = s.urange(1, if concurrent { 20 } else { 40 });
            (0..n).map(|_| gen_op(s, lo, lo + span - 1, growing)).collect()
        }).collect();
        let flushes = if concurrent { s.urange(0, 2) } else { 0 };
        let cleaner = concurrent && s.chance(1, 3);
        let after = s.weighted(&[3, 3, 3, 2]);
        let drop_after = s.chance(1, 12);
        s.note(format!("phase {p}: after={after} flushes={flushes} cleaner={cleaner} drop={drop_after}"));
        for (i, t) in tasks.iter().enumerate() { s.note(format!("  task {i}: {t:?}")); }
        phases.push((tasks, flushes, cleaner, after, drop_after, s.any()));
        if s.chance(1, 3) { growing = !growing; }
    }
    let big = phases.iter().flat_map(|p| p.0.iter()).map(|t| t.len()).sum::<usize>() > 20;
    if big { s.nontrivial(); }
    rt::run(async move {
        let store = Store::new(cache, CAP, delays);
        let tree: Tr<K, V> = Arc::new(Tree::create(Arc::new(store.clone()), seq, lx as f32, ix as f32));
        let mut c = Ctx { tree, store: store.clone(), next_id: Default::default() };
        let mut models: Vec<BTreeMap<u32, Id>> = vec![BTreeMap::new(); ntasks];
        let mut txg = TxgT(1);
        for (tasks, flushes, cleaner, after, drop_after, rnd) in phases {
            if drop_after {
                // Changes that are never flushed are dropped, with their credit.
                let before: Option<TreeOnDisk<DRP>> = None;
                let _ = before;
            }
            let max_addr = store.inner.lock().unwrap().next;
            {
                let (c, models) = (&c, &mut models);
                let work = tasks.iter().zip(models.iter_mut()).enumerate().map(|(i, (ops, m))| async move {
                    let lo = i as u32 * span;
                    for op in ops {
                        c.apply(op, lo, lo + span - 1, txg, m, ntasks == 1).await.map_err(|e| match e {
                            Bad::Fail(m) => Bad::Fail(format!("task {i}, {op:?}: {m}")),
                            e => e,
                        })?;
                    }
                    R::Ok(())
                }.boxed_local());
                let flusher = async move {
                    for _ in 0..flushes {
                        rt::Yield(20).await;
                        c.tree.clone().flush(txg).await.map_err(|e| Bad::Fail(format!("flush: {e:?}")))?;
                    }
                    R::Ok(())
                };
                let cleaning = async move {
                    if cleaner && max_addr > 0 {
                        let a = rnd % (max_addr + 1);
                        let b = a + 1 + (rnd >> 32) % (max_addr - a + 1);
                        c.tree.clone().clean_zone(PBA::new(0, a)..PBA::new(0, b), TxgT(0)..txg + 1, txg).await
                            .map_err(|e| Bad::Fail(format!("clean_zone: {e:?}")))?;
                    }
                    R::Ok(())
                };
                let all: Vec<_> = work.chain([flusher.boxed_local(), cleaning.boxed_local()]).collect();
                for r in futures::future::join_all(all).await { r?; }
            }
            let m: BTreeMap<u32, Id> = models.iter().flat_map(|m| m.iter().map(|(k, v)| (*k, *v))).collect();
            c.audit(&m).await?;
            match after {
                0 => {}
                1 => { c.flush(txg).await?; c.audit(&m).await?; txg = txg + 1; }
                2 => {
                    // Persist, and open anew
                    c.flush(txg).await?;
                    txg = txg + 1;
                    let od = c.tree.serialize().map_err(|e| Bad::Fail(format!("serialize: {e:?}")))?;
                    let bytes = od.write_to_vec().unwrap();
                    let od = TreeOnDisk::<DRP>::read_from_buffer(&bytes).unwrap();
                    if let Some(cache) = &store.cache { cache.lock().unwrap().drop_cache(); }
                    c.tree = Arc::new(Tree::open(Arc::new(store.clone()), seq, od));
                    c.audit(&m).await?;
                }
                _ => {
                    // Clean: afterwards, nothing of the tree may lie in the range
                    c.flush(txg).await?;
                    txg = txg + 1;
                    let max = store.inner.lock().unwrap().next;
                    let a = rnd % (max + 1);
                    let b = a + 1 + (rnd >> 32) % (max - a + 1);
                    let (lo, hi) = {
                        let g = store.inner.lock().unwrap();
                        let ts: Vec<u32> = g.recs.range(a..b).map(|(_, (_, t))| t.0).collect();
                        (ts.iter().min().copied().unwrap_or(0), ts.iter().max().copied().unwrap_or(0))
                    };
                    c.tree.clone().clean_zone(PBA::new(0, a)..PBA::new(0, b), TxgT(lo)..TxgT(hi + 1), txg).await
                        .map_err(|e| Bad::Fail(format!("clean_zone: {e:?}")))?;
                    c.sound()?;
                    let addrs: Vec<DRP> = c.tree.addresses(..).collect().await;
                    if let Some(x) = addrs.iter().find(|x| (a..b).contains(&lba(x))) {
                        return fail(format!("node {} is still in the cleaned zone {a}..{b}", lba(x)));
                    }
                    c.audit(&m).await?;
                    c.flush(txg).await?;
                    txg = txg + 1;
                    c.audit(&m).await?;
                }
            }
            if drop_after { break; }
        }
        // Dropping a tree gives back all of its credit
        let Ctx { tree, store, .. } = c;
        ensure_eq!(Arc::strong_count(&tree), 1, "something still holds the tree");
        drop(tree);
        ensure!(store.wb.borrow(CAP).now_or_never().map(|c| store.wb.repay(c)).is_some(), "writeback credit leaked: some is outstanding after dropping the tree");
        Ok(())
    })
}

pub fn checks() -> Vec<Check> {
    fn f(s: &mut Src, concurrent: bool) -> R {
        match s.below(3) {
            0 => one::<KCredit, Plain>(s, concurrent),
            1 => one::<KCredit, Big>(s, concurrent),
            _ => one::<KFree, Plain>(s, concurrent),
        }
    }
    vec![
        Check::new("model", "a history of inserts, removals, lookups, scans, range deletions, flushes, reopenings and cleanings of one B+tree with small random fan-outs, compared with a BTreeMap after every operation; non-trivial: over 20 operations",
            40000, 600000, |s| f(s, false)),
        Check::new("concurrent", "the same, with 2 to 4 concurrent tasks that own disjoint key ranges, a flusher and a cleaner; non-trivial: over 20 operations",
            30000, 500000, |s| f(s, true)),
    ]
}

// ----------------------------------------------------------- trees in disorder
enum Raw { Leaf(Vec<(u32, [u8; 12])>), Int(Vec<(u32, u32, u32, Vec<u8>)>) }
impl Raw {
    fn parse(b: &[u8]) -> Option<Raw> {
        let u = |o: usize| u32::from_le_bytes(b[o..o + 4].try_into().unwrap());
        if b.len() < 8 { return None }
        let n = u(4) as usize;
        match u(0) {
            0 if b.len() == 8 + n * 16 => Some(Raw::Leaf((0..n).map(|i| (u(8 + i * 16), b[12 + i * 16..24 + i * 16].try_into().unwrap())).collect())),
            1 if b.len() == 8 + n * 39 => Some(Raw::Int((0..n).map(|i| { let o = 8 + i * 39; (u(o), u(o + 4), u(o + 8), b[o + 12..o + 39].to_vec()) }).collect())),
            _ => None,
        }
    }
    fn bytes(&self) -> Vec<u8> {
        let mut v = vec![];
        match self {
            Raw::Leaf(l) => {
                v.extend(0u32.to_le_bytes());
                v.extend((l.len() as u32).to_le_bytes());
                for (k, x) in l { v.extend(k.to_le_bytes()); v.extend(x) }
            }
            Raw::Int(l) => {
                v.extend(1u32.to_le_bytes());
                v.extend((l.len() as u32).to_le_bytes());
                for (k, a, b, x) in l { v.extend(k.to_le_bytes()); v.extend(a.to_le_bytes()); v.extend(b.to_le_bytes()); v.extend(x) }
            }
        }
        v
    }
}

/// Write a tree that violates an invariant, and check it
pub fn noticed(s: &mut Src) -> R {
    let (lf, ifo) = (s.urange(4, 12), s.urange(5, 12));
    let store = Store::new(None, CAP, Delays::new(1, 0));
    let ratio = |n: usize, e: usize| (n * e + 12) as f32 / 4096.0 + 0.0005;
    let (lx, ix) = (ratio(lf, 16), ratio(ifo, 12 + DRP::TYPICAL_SIZE));
    rt::run(async {
        let tree: Arc<Tree<DRP, Store, KFree, Plain>> = Arc::new(Tree::create(Arc::new(store.clone()), false, lx, ix));
        // Keys are even, so that there is room between them
        let n = s.urange(30, 400) as u32;
        let mut txg = TxgT::from(1);
        for i in 0..n {
            let k = (mix32(i) % 2000) * 2 + 2;
            tree.clone().insert(KFree(k), Plain(i as u64, 0), txg, Credit_::null()).await.unwrap();
            if i % 37 == 36 { tree.clone().flush(txg).await.unwrap(); txg = txg + 1; }
        }
        tree.clone().flush(txg).await.unwrap();
        let od = tree.serialize().unwrap();
        let reopen = || { let t: Arc<Tree<DRP, Store, KFree, Plain>> = Arc::new(Tree::open(Arc::new(store.clone()), false, od.clone())); t };
        ensure_eq!(reopen().check().await, Ok(true), "check of a tree in order");
        let mut nodes: BTreeMap<u64, Raw> = BTreeMap::new();
        for (a, (b, _)) in &store.inner.lock().unwrap().recs {
            let Some(r) = Raw::parse(b) else { return fail(format!("can't parse node {a}")) };
            nodes.insert(*a, r);
        }
        let leaves: Vec<u64> = nodes.iter().filter(|n| matches!(n.1, Raw::Leaf(_))).map(|n| *n.0).collect();
        let ints: Vec<u64> = nodes.iter().filter(|n| matches!(n.1, Raw::Int(_))).map(|n| *n.0).collect();
        let child = |x: &[u8]| u64::from_le_bytes(x[2..10].try_into().unwrap());
        if leaves.len() < 2 { return Err(Bad::Discard) }
        s.nontrivial();
        // The addresses of the leaves, in order
        fn order(nodes: &BTreeMap<u64, Raw>, a: u64, out: &mut Vec<u64>) {
            match &nodes[&a] {
                Raw::Leaf(_) => out.push(a),
                Raw::Int(l) => for (_, _, _, x) in l { order(nodes, u64::from_le_bytes(x[2..10].try_into().unwrap()), out) },
            }
        }
        let kids: BTreeSet<u64> = nodes.values().filter_map(|n| if let Raw::Int(l) = n { Some(l) } else { None }).flatten().map(|e| child(&e.3)).collect();
        let root = *ints.iter().find(|a| !kids.contains(a)).unwrap();
        let mut sorted = vec![];
        order(&nodes, root, &mut sorted);
        let leaf = |nodes: &BTreeMap<u64, Raw>, a: u64| if let Raw::Leaf(l) = &nodes[&a] { l.clone() } else { unreachable!() };
        let what = s.below(6);
        match what {
            0 => {
                let i = s.idx(sorted.len() - 1);
                let j = s.urange(i + 1, sorted.len() - 1);
                s.note(format!("exchange leaves {i} and {j}"));
                let (x, y) = (leaf(&nodes, sorted[i]), leaf(&nodes, sorted[j]));
                nodes.insert(sorted[i], Raw::Leaf(y));
                nodes.insert(sorted[j], Raw::Leaf(x));
            }
            1 => {
                let i = s.idx(sorted.len());
                let mut l = leaf(&nodes, sorted[i]);
                let min = (2 * ((lx * 4096.0) as usize - 12).div_euclid(16)).div_ceil(4);
                let n = s.urange(1, min - 1);
                if n >= l.len() { return Err(Bad::Discard) }
                s.note(format!("leaf {i} has only {n} items"));
                l.truncate(n);
                nodes.insert(sorted[i], Raw::Leaf(l));
            }
            2 => {
                let i = s.urange(1, sorted.len() - 1);
                let mut l = leaf(&nodes, sorted[i]);
                let low = leaf(&nodes, sorted[i - 1])[0].0;
                s.note(format!("the first key of leaf {i} is below its range"));
                l[0].0 = s.range(low as u64, leaf(&nodes, sorted[i - 1]).last().unwrap().0 as u64 - 1) as u32;
                nodes.insert(sorted[i], Raw::Leaf(l));
            }
            3 => {
                let i = s.idx(sorted.len() - 1);
                let mut l = leaf(&nodes, sorted[i]);
                let high = leaf(&nodes, sorted[i + 1])[0].0;
                s.note(format!("the last key of leaf {i} is above its range"));
                l.last_mut().unwrap().0 = high + 1 + s.below(10) as u32;
                nodes.insert(sorted[i], Raw::Leaf(l));
            }
            4 => {
                // An interior node whose parent knows of too few of its transactions
                let c: Vec<(u64, usize)> = nodes.iter().flat_map(|(a, n)| match n {
                    Raw::Int(l) => l.iter().enumerate().filter(|(_, e)| ints.contains(&child(&e.3))).map(|(i, _)| (*a, i)).collect(),
                    _ => vec![],
                }).collect();
                if c.is_empty() { return Err(Bad::Discard) }
                let (a, i) = *s.pick(&c);
                let Raw::Int(p) = &nodes[&a] else { unreachable!() };
                let Raw::Int(l) = &nodes[&child(&p[i].3)] else { unreachable!() };
                let (start, end) = (l.iter().map(|e| e.1).min().unwrap(), l.iter().map(|e| e.2).max().unwrap());
                s.note(format!("transactions of child {i} of node {a} are too few"));
                let late = s.bool();
                let Some(Raw::Int(p)) = nodes.get_mut(&a) else { unreachable!() };
                if late { p[i].1 = start + 1 } else { p[i].2 = end - 1 }
            }
            _ => {
                let a = *s.pick(&sorted);
                s.note(format!("node {a} doesn't exist"));
                nodes.remove(&a);
            }
        }
        s.class(["exchanged", "underfull", "key too low", "key too high", "transactions", "missing"][what as usize]);
        {
            let mut g = store.inner.lock().unwrap();
            let t = TxgT::from(0);
            g.recs = nodes.iter().map(|(a, n)| (*a, (n.bytes(), t))).collect();
        }
        match reopen().check().await {
            Ok(true) => fail("the check of the tree found nothing wrong"),
            _ => Ok(()),
        }
    })
}
fn mix32(i: u32) -> u32 { (engine::mix(i as u64) >> 32) as u32 }
