//! C30: a mounted file system
use crate::{fsapi, fsmodel::*, rt::{self, Delays}, world::*};
use bfffs_core::{database::Database, fs::Fs as Inner, property::Property};
use engine::*;
use futures::{future::join_all, FutureExt};
use std::{cell::RefCell, sync::Arc, time::Duration};

fn mounted(s: &mut Src, p: Profile, nfs: bool) -> R {
    let geo = any_geometry(s, 1, 3);
    let seed = s.any();
    let rig = Rig::new(geo, seed, s.below(3) as u32);
    let forgetful = *s.pick(&[3u64, 1, 2, 10, 0]);
    s.note(format!("forgets: one in {forgetful}"));
    rt::run(async {
        let db: RefCell<Option<Arc<Database>>> = RefCell::new(Some(rig.create().await));
        let get = || db.borrow().clone().unwrap();
        let rs = *s.pick(&[12u8, 13, 17]);
        let (t, inner) = new_fs(&get(), None, "", &[Property::RecordSize(rs)]).await;
        let mut fs = fsapi::Fs::mount(Arc::new(inner), s.any(), forgetful, nfs);
        let mut m = Model::new(t, &fs).await;
        m.recsize = rs;
        m.fams = (0..s.below(2)).map(|_| s.below(100)).collect();
        let n = s.urange(1, 120);
        for _ in 0..n {
            if s.chance(1, 12) {
                match s.weighted(&[2, 2, 2, 2, 1, 1]) {
                    0 => { s.note("sync"); fs.sync().await; }
                    1 => {
                        let ms = s.skew(1, 7000);
                        s.note(format!("sleep {ms}"));
                        tokio::time::sleep(Duration::from_millis(ms)).await;
                    }
                    2 => { s.note("drop cache"); get().drop_cache(); }
                    3 => {
                        let c = m.select(|_| true);
                        let ino = *s.pick(&c);
                        s.note(format!("fsync {ino}"));
                        ensure_eq!(fs.fsync(&m.fd(ino)).await, Ok(()), "fsync");
                    }
                    4 => { s.note("statfs"); fs.sync().await; fs.statfs().await; }
                    _ => {
                        // (what isn't unmounted cleanly keeps its orphans until it's mounted again)
                        let cleanly = s.chance(2, 3);
                        s.note(format!("unmount{}, mount", if cleanly { "" } else { " by force" }));
                        s.class("mounted again");
                        let export = cleanly && s.bool();
                        let (db, rig, tree) = (&db, &rig, m.tree);
                        fs = fs.remount(cleanly, async move {
                            if export {
                                let old = db.borrow_mut().take().unwrap();
                                shutdown(old).await;
                                let new = rig.import().await.unwrap();
                                *db.borrow_mut() = Some(new);
                            }
                            let d = db.borrow().clone().unwrap();
                            Arc::new(Inner::new(d, tree).await)
                        }).await;
                        m.remounted();
                    }
                }
            } else {
                m.step(s, &fs, p).await?;
            }
        }
        if n >= 30 && fs.forgets.get() > 3 { s.nontrivial(); }
        s.note("final comparison");
        m.compare(&fs).await?;
        drop(fs);
        let db = db.borrow_mut().take().unwrap();
        shutdown(db).await;
        Ok(())
    })
}

const OPS: &[(Op, u32)] = &[
    (Op::Create, 8), (Op::Mkdir, 5), (Op::Symlink, 2), (Op::Mknod, 2), (Op::Link, 5), (Op::Unlink, 5), (Op::Rmdir, 4), (Op::Rename, 8),
    (Op::Write, 6), (Op::Read, 4), (Op::Truncate, 3), (Op::Setattr, 2), (Op::Dealloc, 2), (Op::Lseek, 1), (Op::Readdir, 3), (Op::SetX, 3),
    (Op::GetX, 2), (Op::DelX, 2), (Op::ListX, 1), (Op::Lookup, 6), (Op::Inactive, 5), (Op::Readlink, 1), (Op::Getattr, 2),
];

/// Several users of one mount at once
fn concurrent(s: &mut Src, nfs: bool) -> R {
    let geo = any_geometry(s, 1, 3);
    let rig = Rig::new(geo, s.any(), s.below(5) as u32);
    let forgetful = *s.pick(&[3u64, 1, 2, 10, 0]);
    let (nusers, nlinks) = (s.idx(4), s.urange(1, 4));
    let delays = Delays::new(s.any(), *s.pick(&[0, 1, 5, 30]));
    rt::run(async {
        let db = rig.create().await;
        let rs = *s.pick(&[12u8, 13, 17]);
        let (t, inner) = new_fs(&db, None, "", &[Property::RecordSize(rs), Property::Atime(false)]).await;
        let fs = fsapi::Fs::mount(Arc::new(inner), s.any(), forgetful, nfs);
        let links = fsapi::Links::new(&fs, nlinks, s.urange(1, 4)).await;
        let mut users = vec![];
        for i in 0..nusers {
            let ufs = fs.share(s.any());
            let mut m = Model::below(t, &ufs, format!("u{i}").as_bytes()).await;
            (m.recsize, m.atime) = (rs, false);
            m.budget = (3 << 20) / nusers as u64;
            m.fams = (0..s.below(2)).map(|_| s.below(100)).collect();
            users.push((ufs, m));
        }
        let mut total = 0;
        for phase in 0..s.urange(1, 5) {
            s.note(format!("phase {phase}"));
            let mut kids: Vec<(Src, u64)> = (0..nusers + nlinks + 1).map(|_| (s.child(), s.below(25))).collect();
            total += kids.iter().filter(|k| k.1 > 2).count();
            let mut all = vec![];
            let (us, rest) = kids.split_at_mut(nusers);
            for ((s, n), (ufs, m)) in us.iter_mut().zip(&mut users) {
                let d = delays.clone();
                let w: Vec<u32> = OPS.iter().map(|x| x.1).collect();
                all.push(async move {
                    for _ in 0..*n {
                        d.next().await;
                        let op = OPS[s.weighted(&w)].0;
                        s.class(op.name());
                        m.apply(s, ufs, op).await?;
                    }
                    R::Ok(())
                }.boxed_local());
            }
            let (ls, es) = rest.split_at_mut(nlinks);
            for (i, (s, n)) in ls.iter_mut().enumerate() {
                let (d, l) = (delays.clone(), &links);
                all.push(async move {
                    for _ in 0..*n {
                        d.next().await;
                        let (f, what) = (s.idx(l.files.len()), s.below(12));
                        s.note(format!("file {f}, {what}"));
                        let done = l.step(i, f, what).await;
                        s.note(done);
                        s.class(done);
                    }
                    R::Ok(())
                }.boxed_local());
            }
            let (s2, n) = &mut es[0];
            let (d, db2, fs2) = (delays.clone(), &db, &fs);
            all.push(async move {
                for _ in 0..*n / 4 {
                    d.next().await;
                    match s2.below(3) {
                        0 => fs2.sync().await,
                        1 => db2.drop_cache(),
                        _ => tokio::time::sleep(Duration::from_millis(s2.skew(1, 6000))).await,
                    }
                }
                R::Ok(())
            }.boxed_local());
            let r = join_all(all).await;
            for (i, (c, _)) in kids.into_iter().enumerate() { s.join(&format!("task {i}"), c); }
            for (i, r) in r.into_iter().enumerate() {
                match r {
                    Err(Bad::Fail(e)) => return fail(format!("task {i}: {e}")),
                    r => r?,
                }
            }
            links.settle().await;
            for (ufs, m) in &mut users { m.compare(ufs).await?; }
        }
        if total >= 3 { s.nontrivial(); }
        drop((users, links, fs));
        shutdown(db).await;
        Ok(())
    })
}

pub fn checks() -> Vec<Check> {
    vec![
        Check::new("mixed", "30 operations or more, and 4 vnodes forgotten", 50000, 400000, |s| mounted(s, Profile::Mixed, false)),
        Check::new("data", "30 operations or more, and 4 vnodes forgotten", 25000, 200000, |s| mounted(s, Profile::Data, false)),
        Check::new("names", "30 operations or more, and 4 vnodes forgotten", 60000, 500000, |s| mounted(s, Profile::Names, false)),
        Check::new("attrs", "30 operations or more, and 4 vnodes forgotten", 25000, 200000, |s| mounted(s, Profile::Attrs, false)),
        Check::new("nfs", "30 operations or more, and 4 vnodes forgotten", 60000, 500000, |s| mounted(s, Profile::Names, true)),
        Check::new("together", "3 bursts of 3 operations or more", 25000, 400000, |s| concurrent(s, false)),
        Check::new("together-nfs", "3 bursts of 3 operations or more", 12000, 200000, |s| concurrent(s, true)),
    ]
}
