//! C26: users of a pool don't disturb each other
use crate::{fsmodel::*, rt::{self, Delays}, t_fs::Live, world::*};
use bfffs_core::{database::{Database, TreeID}, fs::Fs, property::Property};
use engine::*;
use futures::{future::join_all, FutureExt};
use std::{cell::Cell, collections::BTreeMap, sync::Arc, time::Duration};

/// Files that don't change, read by everybody
struct Shared { m: Model }

const OPS: &[(Op, u32)] = &[
    (Op::Create, 8), (Op::Mkdir, 4), (Op::Symlink, 2), (Op::Link, 4), (Op::Unlink, 5), (Op::Rmdir, 3), (Op::Rename, 6), (Op::Write, 14),
    (Op::Read, 6), (Op::Truncate, 5), (Op::Setattr, 2), (Op::Dealloc, 4), (Op::Lseek, 2), (Op::Readdir, 3), (Op::SetX, 4), (Op::GetX, 2),
    (Op::DelX, 2), (Op::Lookup, 3), (Op::Inactive, 3), (Op::Ilookup, 1),
];
const DATA: &[(Op, u32)] = &[
    (Op::Create, 2), (Op::Write, 20), (Op::Read, 8), (Op::Truncate, 6), (Op::Dealloc, 6), (Op::Lseek, 2), (Op::Unlink, 1), (Op::SetX, 2),
];

struct User { s: Src, m: Model, f: usize }

async fn user(u: &mut User, fss: &[Fs], ops: &[(Op, u32)], n: u64, d: Delays) -> R {
    let w: Vec<u32> = ops.iter().map(|x| x.1).collect();
    for _ in 0..n {
        d.next().await;
        let op = ops[u.s.weighted(&w)].0;
        u.s.class(op.name());
        u.m.apply(&mut u.s, &fss[u.f], op).await?;
    }
    Ok(())
}

/// Reads the files that don't change
async fn reader(s: &mut Src, sh: &[Shared], fss: &[Fs], n: u64, d: Delays) -> R {
    for _ in 0..n {
        d.next().await;
        let f = s.idx(fss.len());
        let (fs, m) = (&fss[f], &sh[f].m);
        let all: Vec<u64> = m.nodes.keys().copied().collect();
        let ino = *s.pick(&all);
        let n = &m.nodes[&ino];
        let fd = m.fd(ino);
        match &n.kind {
            Kind::Reg(_) => {
                let off = s.skew(0, n.size);
                let len = s.skew(1, 100_000) as usize;
                s.note(format!("read shared {ino} off={off} len={len}"));
                read_cmp(fs, &fd, ino, n, off, len).await?;
            }
            Kind::Dir => {
                s.note(format!("readdir shared {ino}"));
                m.readdir_cmp(fs, ino).await?;
                for (name, i) in &n.entries {
                    match fs.lookup(None, &fd, os(name)).await {
                        Ok(f) => ensure_eq!(f.ino(), *i, "lookup"),
                        Err(e) => return fail(format!("lookup of an existing name: error {e}")),
                    }
                }
            }
            _ => {}
        }
        match fs.getattr(&fd).await {
            Ok(a) => check_attr(ino, n, &a)?,
            Err(e) => return fail(format!("getattr({ino}): error {e}")),
        }
        m.listx_cmp(fs, ino).await?;
    }
    Ok(())
}

/// Flushes, cleans and so on, until the others have finished
async fn events(s: &mut Src, db: &Arc<Database>, fss: &[Fs], running: &Cell<usize>, max: u64, d: Delays) -> R {
    for _ in 0..max {
        d.next().await;
        match s.weighted(&[4, 3, 3, 2, 1]) {
            0 => { s.note("sync"); s.pick(fss).sync().await; }
            1 => {
                let ms = s.skew(1, 6000);
                s.note(format!("sleep {ms}"));
                tokio::time::sleep(Duration::from_millis(ms)).await;
            }
            2 => { s.note("drop cache"); db.drop_cache(); }
            3 => {
                s.note("clean");
                ensure!(db.clean().await.is_ok(), "clean");
            }
            _ => {
                s.note("wait a little");
                rt::Yield(s.below(200) as u32).await;
            }
        }
        if running.get() == 0 { break; }
    }
    Ok(())
}

fn concurrent(s: &mut Src, ops: &'static [(Op, u32)]) -> R {
    let mut geo = any_geometry(s, 2, 6);
    // the smaller, the more often everybody waits
    geo.disk_lbas = geo.zone * (40 * 256 / geo.zone);
    let seed = s.any();
    s.note(format!("{geo:?}"));
    let delay = s.below(5) as u32;
    let rig = Rig::new(geo, seed, delay);
    let nfs = s.urange(1, 3);
    let nusers = s.urange(2, 6);
    let delays = Delays::new(s.any(), *s.pick(&[0, 1, 5, 30]));
    rt::run(async {
        let db = rig.create().await;
        let mut trees: Vec<TreeID> = Vec::new();
        let mut fss = Vec::new();
        for i in 0..nfs {
            let (name, parent): (&'static str, _) = [("", None), ("a", trees.first().copied()), ("b", trees.first().copied())][i];
            let rs = *s.pick(&[12u8, 12, 13, 17]);
            let (t, fs) = new_fs(&db, parent, name, &[Property::RecordSize(rs), Property::Atime(false)]).await;
            trees.push(t);
            fss.push((fs, rs));
        }
        let mut shared = Vec::new();
        for (i, (fs, rs)) in fss.iter().enumerate() {
            let mut m = Model::below(trees[i], fs, b"shared").await;
            (m.recsize, m.atime) = (*rs, false);
            m.budget = 500_000;
            for _ in 0..s.urange(0, 15) { m.step(s, fs, Profile::Mixed).await?; }
            // (that may have changed them)
            for p in [Property::RecordSize(*rs), Property::Atime(false)] { fs.set_prop(p).await.unwrap(); }
            m.atime = false;
            for i in m.open.clone() { m.close(fs, i).await?; }
            shared.push(Shared { m });
        }
        let mut users = Vec::new();
        for i in 0..nusers {
            let f = s.idx(nfs);
            let mut m = Model::below(trees[f], &fss[f].0, format!("u{i}").as_bytes()).await;
            (m.recsize, m.atime) = (fss[f].1, false);
            m.budget = (3 << 20) / nusers as u64;
            m.fams = (0..s.below(2)).map(|_| s.below(100)).collect();
            users.push(User { s: Src::replay(vec![]), m, f });
        }
        let mut fss: Vec<Fs> = fss.into_iter().map(|x| x.0).collect();
        let mut db = Some(db);
        let mut total = 0;
        for phase in 0..s.urange(1, 4) {
            s.note(format!("phase {phase}"));
            let mut rs = s.child();
            let mut es = s.child();
            let nr = s.below(20);
            let ne = s.below(12);
            let counts: Vec<u64> = users.iter_mut().map(|u| { u.s = s.child(); s.below(25) }).collect();
            total += counts.iter().filter(|n| **n > 2).count();
            let running = Cell::new(nusers);
            let mut all = Vec::new();
            for (u, n) in users.iter_mut().zip(&counts) {
                let (fss, delays, running) = (&fss, delays.clone(), &running);
                all.push(async move {
                    let r = user(u, fss, ops, *n, delays).await;
                    running.set(running.get() - 1);
                    r
                }.boxed_local());
            }
            all.push(reader(&mut rs, &shared, &fss, nr, delays.clone()).boxed_local());
            all.push(events(&mut es, db.as_ref().unwrap(), &fss, &running, ne, delays.clone()).boxed_local());
            let r = join_all(all).await;
            for (i, u) in users.iter_mut().enumerate() {
                let c = std::mem::replace(&mut u.s, Src::replay(vec![]));
                s.join(&format!("user {i} (fs {})", u.f), c);
            }
            s.join("reader", rs);
            s.join("events", es);
            for (i, r) in r.into_iter().enumerate() {
                match r {
                    Err(Bad::Fail(e)) => return fail(format!("task {i}: {e}")),
                    r => r?,
                }
            }
            s.note("compare");
            for u in &mut users { u.m.compare(&fss[u.f]).await?; }
            for (f, sh) in shared.iter_mut().enumerate() { sh.m.compare(&fss[f]).await?; }
            match db.as_ref().unwrap().check().await {
                Ok(true) => {}
                x => return fail(format!("check of the pool found {x:?}")),
            }
            if s.chance(1, 3) {
                s.note("reimport");
                fss[0].sync().await;
                fss.clear();
                shutdown(db.take().unwrap()).await;
                match rig.import().await {
                    Ok(d) => db = Some(d),
                    Err(e) => return fail(format!("import: {e:?}")),
                }
                for t in &trees { fss.push(Fs::new(db.clone().unwrap(), *t).await); }
                for u in &mut users { u.m.remounted(); u.m.dead.clear(); }
                for u in &mut users { u.m.compare(&fss[u.f]).await?; }
            }
        }
        if total >= 3 { s.nontrivial(); }
        drop(fss);
        shutdown(db.take().unwrap()).await;
        Ok(())
    })
}

pub fn checks() -> Vec<Check> {
    vec![
        Check::new("mixed", "3 bursts of 3 operations or more", 20000, 200000, |s| concurrent(s, OPS)),
        Check::new("data", "3 bursts of 3 operations or more", 20000, 200000, |s| concurrent(s, DATA)),
    ]
}
