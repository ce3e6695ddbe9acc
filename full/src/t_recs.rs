//! C38: records come back as they were stored, while others are moved and removed
use crate::{rt::{self, Delays}, world::*};
use bfffs_core::{
    cache::Cache, cleaner::Cleaner, ddml::DDML, dml::{Compression, DML}, idml::IDML, types::TxgT, Error,
};
use divbuf::{DivBuf, DivBufShared};
use engine::*;
use futures::{future::{join_all, LocalBoxFuture}, FutureExt};
use std::{cell::{Cell, RefCell}, num::NonZeroU8, sync::{Arc, Mutex}};

const LBA: usize = 4096;

fn data(kind: u64, seed: u64, len: usize) -> Vec<u8> {
    match kind {
        0 => vec![seed as u8; len],
        1 => fill(seed, len),
        2 => (0..len as u64).map(|i| mix(seed ^ (i % 13)) as u8).collect(),
        // The beginning can be compressed, or the end
        3 => { let mut v = fill(seed, len); let n = (mix(seed) % (len as u64 + 1)) as usize; v[..n].fill(0); v }
        4 => { let mut v = fill(seed, len); let n = (mix(seed) % (len as u64 + 1)) as usize; v[n..].fill(0); v }
        // Little-endian numbers that increase
        _ => (0..len as u64).map(|i| ((seed % 65536 + i / 8) >> (8 * (i % 8))) as u8).collect(),
    }
}
fn compression(s: &mut Src) -> Compression {
    let n = if s.bool() { None } else { NonZeroU8::new(*s.pick(&[1u8, 2, 3, 4, 8, 16, 39, 255])) };
    match s.below(3) { 0 => Compression::None, 1 => Compression::LZ4(n), _ => Compression::Zstd(n) }
}
fn length(s: &mut Src) -> usize {
    match s.weighted(&[3, 4, 3, 1]) {
        0 => s.urange(1, 100),
        1 => s.urange(1, 5) * LBA - s.urange(0, 20) + if s.bool() { 15 } else { 0 },
        2 => s.urange(1, 40_000),
        _ => s.urange(1, 130_000),
    }
}

#[derive(Clone)]
struct Rec<A> { addr: A, want: Arc<Vec<u8>> }

struct Env<D> { dml: Arc<D>, idml: Option<Arc<IDML>>, delays: Delays }

async fn read<D: DML>(d: &D, r: &Rec<D::Addr>) -> R {
    match d.get::<DivBufShared, DivBuf>(&r.addr).await {
        Ok(db) => ensure!(db[..] == r.want[..], "get: a record of {} bytes has {} other ones", r.want.len(), db.len()),
        Err(e) => return fail(format!("get of a record of {} bytes: {e:?}", r.want.len())),
    }
    Ok(())
}

/// One user's records
async fn user<D: DML>(s: &mut Src, e: &Env<D>, recs: &mut Vec<Rec<D::Addr>>, gone: &RefCell<Vec<D::Addr>>, shared: &[Rec<D::Addr>], n: u64) -> R {
    let d = &*e.dml;
    for _ in 0..n {
        e.delays.next().await;
        match s.weighted(&[6, 6, 3, 3, 2, 2, 1]) {
            0 => {
                // Several at once, in one transaction
                let m = s.urange(1, 3);
                let g = match &e.idml { Some(i) => Some(i.txg().await), None => None };
                let txg = g.as_ref().map_or(TxgT::from(1), |g| **g);
                let mut futs = vec![];
                for _ in 0..m {
                    let (kind, seed, len, c) = (s.below(6), s.any(), length(s), compression(s));
                    s.note(format!("put {len} bytes of kind {kind} with {c:?}"));
                    let want = Arc::new(data(kind, seed, len));
                    futs.push(async move { (want.clone(), d.put(DivBufShared::from(want.to_vec()), c, txg).await) });
                }
                for (want, r) in join_all(futs).await {
                    match r {
                        Ok(addr) => recs.push(Rec { addr, want }),
                        Err(Error::ENOSPC) => return Err(Bad::Discard),
                        Err(e) => return fail(format!("put: {e:?}")),
                    }
                }
            }
            1 if !recs.is_empty() => {
                let r = s.pick(recs).clone();
                s.class("get");
                if s.chance(1, 4) {
                    s.class("get twice at once");
                    let (a, b) = futures::future::join(read(d, &r), read(d, &r)).await;
                    a?; b?;
                } else { read(d, &r).await? }
            }
            k @ (2 | 3) if !recs.is_empty() => {
                let r = recs.swap_remove(s.below(recs.len() as u64) as usize);
                let g = match &e.idml { Some(i) => Some(i.txg().await), None => None };
                let txg = g.as_ref().map_or(TxgT::from(1), |g| **g);
                if k == 2 {
                    s.note(format!("pop {} bytes", r.want.len()));
                    s.class("pop");
                    match d.pop::<DivBufShared, DivBuf>(&r.addr, txg).await {
                        Ok(b) => { let b = b.try_const().unwrap(); ensure!(b[..] == r.want[..], "pop: a record of {} bytes has {} other ones", r.want.len(), b.len()) }
                        Err(e) => return fail(format!("pop of a record of {} bytes: {e:?}", r.want.len())),
                    }
                } else {
                    s.note(format!("delete {} bytes", r.want.len()));
                    s.class("delete");
                    ensure_eq!(d.delete(&r.addr, txg).await, Ok(()), "delete");
                }
                gone.borrow_mut().push(r.addr);
                if e.idml.is_some() && s.chance(1, 4) {
                    ensure!(matches!(d.get::<DivBufShared, DivBuf>(&r.addr).await, Err(Error::ENOENT)), "a record that was just deleted is still there");
                }
            }
            6 if recs.len() > 1 => {
                // Most of them at once
                let n = s.urange(1, recs.len());
                s.note(format!("pop {n} records"));
                s.class("pop many");
                let g = match &e.idml { Some(i) => Some(i.txg().await), None => None };
                let txg = g.as_ref().map_or(TxgT::from(1), |g| **g);
                let rs = join_all(recs.drain(..n).map(|r| async move { (d.pop::<DivBufShared, DivBuf>(&r.addr, txg).await, r) })).await;
                for (b, r) in rs {
                    match b {
                        Ok(b) => { let b = b.try_const().unwrap(); ensure!(b[..] == r.want[..], "pop: a record of {} bytes has {} other ones", r.want.len(), b.len()) }
                        Err(e) => return fail(format!("pop of a record of {} bytes: {e:?}", r.want.len())),
                    }
                    gone.borrow_mut().push(r.addr);
                }
            }
            4 if !recs.is_empty() => { s.class("evict"); d.evict(&s.pick(recs).addr) }
            _ if !shared.is_empty() => read(d, s.pick(shared)).await?,
            _ => (),
        }
    }
    Ok(())
}

async fn sync(i: &Arc<IDML>) -> R {
    let i2 = i.clone();
    let r = i.advance_transaction(move |txg| async move {
        i2.flush(Some(0), txg).await?;
        i2.sync_all(txg).await
    }).await;
    ensure_eq!(r, Ok(()), "sync");
    Ok(())
}

fn run(s: &mut Src, indirect: bool) -> R {
    let mut geo = any_geometry(s, 2, 3);
    geo.disk_lbas = 12 * 1024;
    geo.zone = *s.pick(&[128u64, 256]);
    let capacity = *s.pick(&[1usize << 20, 4 << 20, 64 << 20]);
    s.note(format!("{geo:?} cache {capacity}"));
    let rig = Rig::new(geo, s.any(), *s.pick(&[0u32, 3, 20]));
    let delays = Delays::new(s.any(), *s.pick(&[0u32, 3, 30]));
    rt::run(async {
        let cache = Arc::new(Mutex::new(Cache::with_capacity(capacity)));
        let ddml = Arc::new(DDML::create(rig.pool(), cache.clone()));
        if indirect {
            let idml = Arc::new(IDML::create(ddml.clone(), cache.clone()));
            let e = Env { dml: idml.clone(), idml: Some(idml.clone()), delays };
            let thresh = *s.pick(&[0.01f32, 0.2, 0.5]);
            let cleaner = Cleaner::new(idml.clone(), Some(thresh));
            let all = go(s, &e, &cache, Some(&cleaner)).await?;
            sync(&idml).await?;
            cache.lock().unwrap().drop_cache();
            ensure!(matches!(idml.check().await, Ok(true)), "the check of the records failed");
            for r in &all.0 { read(&*idml, r).await? }
            for a in all.1 {
                let r = idml.get::<DivBufShared, DivBuf>(&a).await;
                ensure!(matches!(r, Err(Error::ENOENT)), "a record that was deleted is still there");
            }
            cleaner.shutdown().await;
        } else {
            let e = Env { dml: ddml.clone(), idml: None, delays };
            let all = go(s, &e, &cache, None).await?;
            let used: u64 = all.0.iter().map(|r| r.addr.asize()).sum();
            for r in &all.0 { ensure!(r.addr.asize() as usize <= r.want.len().div_ceil(LBA), "a record of {} bytes takes {} blocks", r.want.len(), r.addr.asize()) }
            ensure_eq!(ddml.used().await, used, "used blocks");
            ensure_eq!(ddml.flush(0).await, Ok(()), "flush");
            ensure_eq!(ddml.sync_all(TxgT::from(1)).await, Ok(()), "sync");
            cache.lock().unwrap().drop_cache();
            for r in &all.0 { read(&*ddml, r).await? }
        }
        Ok(())
    })
}

async fn go<D: DML>(s: &mut Src, e: &Env<D>, cache: &Arc<Mutex<Cache>>, cleaner: Option<&Cleaner>) -> Result<(Vec<Rec<D::Addr>>, Vec<D::Addr>), Bad> {
    let gone = RefCell::new(vec![]);
    let mut shared = vec![];
    let n = s.urange(0, 20) as u64;
    user(s, e, &mut shared, &gone, &[], n).await?;
    let mut recs: Vec<Vec<Rec<D::Addr>>> = vec![];
    for _ in 0..s.urange(1, 4) { recs.push(vec![]) }
    for _ in 0..s.urange(1, 4) {
        // What is shared isn't changed while others read it
        if let Some(i) = &e.idml { if s.chance(3, 4) { sync(i).await? } }
        let running = Cell::new(recs.len());
        let mut us: Vec<(Src, u64)> = recs.iter().map(|_| (s.child(), s.range(1, 25))).collect();
        let mut es = s.child();
        let rs = {
            let mut all: Vec<LocalBoxFuture<R>> = vec![];
            for (v, (us, n)) in recs.iter_mut().zip(us.iter_mut()) {
                let (shared, gone, running) = (&shared, &gone, &running);
                all.push(async move { let r = user(us, e, v, gone, shared, *n).await; running.set(running.get() - 1); r }.boxed_local());
            }
            let (running, es) = (&running, &mut es);
            all.push(async move {
                let delay = Delays::new(es.any(), *es.pick(&[5, 100]));
                while running.get() > 0 {
                    delay.next().await;
                    rt::Yield(1).await;
                    match es.weighted(&[if cleaner.is_some() { 3 } else { 0 }, if cleaner.is_some() { 3 } else { 0 }, 2, 2]) {
                        0 => { es.note("clean"); es.class("clean"); let rx = cleaner.unwrap().clean(); if es.bool() { rx.await.ok(); } }
                        1 => { es.note("sync"); es.class("sync"); sync(e.idml.as_ref().unwrap()).await? }
                        2 => { es.note("drop cache"); es.class("drop cache"); cache.lock().unwrap().drop_cache() }
                        _ => tokio::time::sleep(std::time::Duration::from_millis(1)).await,
                    }
                }
                Ok(())
            }.boxed_local());
            join_all(all).await
        };
        for (i, (u, _)) in us.into_iter().enumerate() { s.join(&format!("user {i}"), u) }
        s.join("events", es);
        for r in rs { r? }
        if let Some(c) = cleaner { if s.bool() { ensure!(c.clean().await.is_ok() , "the cleaner is dead") } }
    }
    shared.extend(recs.into_iter().flatten());
    if shared.len() >= 5 && gone.borrow().len() >= 5 { s.nontrivial() }
    Ok((shared, gone.into_inner()))
}

/// Compression alone
fn codec(s: &mut Src) -> R {
    let (kind, seed, len, c) = (s.below(6), s.any(), if s.bool() { length(s) } else { s.urange(0, 1 << 20) }, compression(s));
    s.note(format!("{len} bytes of kind {kind} with {c:?}"));
    let mut want = data(kind, seed, len);
    if s.chance(1, 3) {
        // Compression doesn't change the number of blocks by much
        let k = s.urange(1, 4);
        s.note(format!("about {k} blocks and zeros"));
        want = fill(seed, (k * LBA - s.urange(0, 60)) * 255 / 256);
        want.resize((k + s.urange(0, 1)) * LBA + s.urange(1, 100), 0);
    }
    let len = want.len();
    let input = DivBufShared::from(want.clone());
    let (out, used) = c.compress(input.try_const().unwrap());
    if used == Compression::None {
        ensure!(out[..] == want[..], "data that isn't compressed was changed");
        if kind == 0 && len > 2 * LBA && c != Compression::None && want.iter().all(|b| *b == want[0]) { return fail("equal bytes weren't compressed") }
        return Ok(());
    }
    s.nontrivial();
    ensure_eq!(used, c, "the compression that was used");
    ensure!(out.len().div_ceil(LBA) < len.div_ceil(LBA), "compression saves no block");
    match Compression::decompress(&out, len as u32) {
        Ok(b) => { let b = b.try_const().unwrap(); ensure!(b[..] == want[..], "decompression yields something else") }
        Err(e) => return fail(format!("decompress: {e:?}")),
    }
    // Garbage is an error or any data, not a panic
    let mut bad = out.to_vec();
    for _ in 0..s.urange(1, 4) {
        match s.below(3) {
            0 => { let i = s.below(bad.len() as u64) as usize; bad[i] ^= 1 << s.below(8) }
            1 => { let n = s.urange(5, bad.len().max(5)); bad.truncate(n) }
            _ => { let n = bad.len() - s.urange(1, 5); bad[n] = s.any() as u8 }
        }
        if bad.len() < 5 { break }
    }
    if bad.len() >= 5 { let _ = Compression::decompress(&bad, len as u32); }
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![
        Check::new("indirect", "5 records are left, and 5 gone", 6000, 150000, |s| run(s, true)),
        Check::new("direct", "5 records are left, and 5 gone", 3000, 60000, |s| run(s, false)),
        Check::new("compression", "compression saved blocks", 6000, 100000, codec),
    ]
}
