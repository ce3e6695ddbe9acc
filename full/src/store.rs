//! An in-memory DML that checks how it is used.
use crate::rt::Delays;
use bfffs_core::{
    cache::{Cache, Cacheable, CacheRef, Key as CKey},
    ddml::DRP,
    dml::{Compression, DML},
    types::*,
    writeback::{Credit, WriteBack},
    Error,
};
use divbuf::DivBufShared;
use futures::Future;
use std::{
    collections::BTreeMap,
    pin::Pin,
    sync::{Arc, Mutex},
};

#[derive(Default)]
pub struct Inner {
    pub next: u64,
    pub recs: BTreeMap<u64, (Vec<u8>, TxgT)>,
    /// What went wrong
    pub bad: Vec<String>,
    pub gets: u64,
    pub puts: u64,
    pub pops: u64,
    pub deletes: u64,
}

#[derive(Clone)]
pub struct Store {
    pub inner: Arc<Mutex<Inner>>,
    pub cache: Option<Arc<Mutex<Cache>>>,
    pub wb: Arc<WriteBack>,
    pub delays: Delays,
}
pub fn lba(a: &DRP) -> u64 { a.pba().lba }

impl Store {
    pub fn new(cache: Option<usize>, capacity: usize, delays: Delays) -> Self {
        Store {
            inner: Default::default(),
            cache: cache.map(|n| Arc::new(Mutex::new(Cache::with_capacity(n)))),
            wb: Arc::new(WriteBack::with_capacity(capacity)),
            delays,
        }
    }
    fn take(&self, a: u64, what: &str) -> Option<Vec<u8>> {
        let mut g = self.inner.lock().unwrap();
        match g.recs.remove(&a) {
            Some((v, _)) => Some(v),
            None => { g.bad.push(format!("{what} of {a}, which is not stored")); None }
        }
    }
    pub fn peek(&self, a: &DRP) -> Option<Vec<u8>> {
        self.inner.lock().unwrap().recs.get(&lba(a)).map(|x| x.0.clone())
    }
}

impl DML for Store {
    type Addr = DRP;

    fn delete(&self, addr: &DRP, _txg: TxgT) -> Pin<Box<dyn Future<Output = std::result::Result<(), Error>> + Send>> {
        let (s, a) = (self.clone(), *addr);
        Box::pin(async move {
            if let Some(c) = &s.cache { c.lock().unwrap().remove(&CKey::PBA(a.pba())); }
            s.delays.next().await;
            s.inner.lock().unwrap().deletes += 1;
            s.take(lba(&a), "delete").map(|_| ()).ok_or(Error::ENOENT)
        })
    }

    fn evict(&self, addr: &DRP) {
        if let Some(c) = &self.cache { c.lock().unwrap().remove(&CKey::PBA(addr.pba())); }
    }

    fn get<T: Cacheable, R: CacheRef>(&self, addr: &DRP) -> Pin<Box<dyn Future<Output = std::result::Result<Box<R>, Error>> + Send>> {
        let (s, a) = (self.clone(), *addr);
        if let Some(c) = &s.cache {
            if let Some(r) = c.lock().unwrap().get::<R>(&CKey::PBA(a.pba())) {
                return Box::pin(futures::future::ok(r));
            }
        }
        Box::pin(async move {
            s.delays.next().await;
            let v = {
                let mut g = s.inner.lock().unwrap();
                g.gets += 1;
                match g.recs.get(&lba(&a)) {
                    Some(v) => v.0.clone(),
                    None => { g.bad.push(format!("get of {}, which is not stored", lba(&a))); return Err(Error::ENOENT); }
                }
            };
            let t = Box::new(T::deserialize(DivBufShared::from(v)));
            let r = t.make_ref().downcast::<R>().unwrap();
            if let Some(c) = &s.cache {
                let mut g = c.lock().unwrap();
                // somebody else may have done that already
                if let Some(r) = g.get::<R>(&CKey::PBA(a.pba())) { return Ok(r); }
                g.insert(CKey::PBA(a.pba()), t);
            }
            Ok(r)
        })
    }

    fn pop<T: Cacheable, R: CacheRef>(&self, rid: &DRP, _txg: TxgT) -> Pin<Box<dyn Future<Output = std::result::Result<Box<T>, Error>> + Send>> {
        let (s, a) = (self.clone(), *rid);
        let hot = s.cache.as_ref().and_then(|c| c.lock().unwrap().remove(&CKey::PBA(a.pba())));
        Box::pin(async move {
            s.delays.next().await;
            s.inner.lock().unwrap().pops += 1;
            let Some(v) = s.take(lba(&a), "pop") else { return Err(Error::ENOENT) };
            match hot {
                Some(t) => Ok(t.downcast::<T>().unwrap()),
                None => Ok(Box::new(T::deserialize(DivBufShared::from(v)))),
            }
        })
    }

    fn put<T: Cacheable>(&self, t: T, _c: Compression, txg: TxgT) -> Pin<Box<dyn Future<Output = std::result::Result<DRP, Error>> + Send>> {
        let s = self.clone();
        let bytes = t.make_ref().serialize()[..].to_vec();
        Box::pin(async move {
            s.delays.next().await;
            let mut g = s.inner.lock().unwrap();
            g.puts += 1;
            g.next += 1;
            let a = g.next;
            let len = bytes.len() as u32;
            g.recs.insert(a, (bytes, txg));
            drop(g);
            let drp = DRP::new(PBA::new(0, a), Compression::None, len, len, a);
            if let Some(c) = &s.cache { c.lock().unwrap().insert(CKey::PBA(drp.pba()), Box::new(t)); }
            Ok(drp)
        })
    }

    fn repay(&self, credit: Credit) { self.wb.repay(credit) }

    fn sync_all(&self, _txg: TxgT) -> Pin<Box<dyn Future<Output = std::result::Result<(), Error>> + Send>> {
        Box::pin(futures::future::ok(()))
    }
}
