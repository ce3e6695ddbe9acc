//! C21: a file system behaves like a POSIX one
use crate::{collide, fsmodel::*, rt, world::*};
use bfffs_core::{database::Database, fs::*, property::Property};
use engine::*;
use std::{ffi::OsStr, sync::Arc, time::Duration};

/// What may happen to the pool between operations, that no one should notice
#[derive(Clone, Copy, Debug)]
pub enum Event { Sync, Fsync, Sleep, DropCache, Remount, Reimport, Clean, Check }
const EVENTS: &[(Event, u32)] = &[
    (Event::Sync, 4), (Event::Fsync, 3), (Event::Sleep, 3), (Event::DropCache, 3), (Event::Remount, 2), (Event::Reimport, 2),
    (Event::Clean, 2), (Event::Check, 1),
];

/// A file system on a pool, that may be remounted
pub struct Live {
    pub rig: Rig,
    pub db: Option<Arc<Database>>,
    pub fs: Option<Fs>,
    pub m: Model,
}
impl Live {
    pub async fn new(s: &mut Src, rig: Rig) -> Self {
        let db = rig.create().await;
        let rs = *s.pick(&[12u8, 12, 13, 14, 17]);
        let (t, fs) = new_fs(&db, None, "", &[Property::RecordSize(rs)]).await;
        let mut m = Model::new(t, &fs).await;
        m.recsize = rs;
        Live { rig, db: Some(db), fs: Some(fs), m }
    }
    pub fn fs(&self) -> &Fs { self.fs.as_ref().unwrap() }
    pub fn db(&self) -> &Arc<Database> { self.db.as_ref().unwrap() }
    pub async fn remount(&mut self) {
        self.fs = None;
        self.fs = Some(Fs::new(self.db().clone(), self.m.tree).await);
        self.m.remounted();
    }
    pub async fn reimport(&mut self) -> R {
        self.fs().sync().await;
        self.fs = None;
        shutdown(self.db.take().unwrap()).await;
        match self.rig.import().await {
            Ok(db) => self.db = Some(db),
            Err(e) => return fail(format!("import of a pool that was shut down: {e:?}")),
        }
        self.fs = Some(Fs::new(self.db().clone(), self.m.tree).await);
        self.m.remounted();
        Ok(())
    }
    pub async fn clean(&self) -> R {
        let r = self.db().clean().await;
        ensure!(r.is_ok(), "clean");
        Ok(())
    }
    pub async fn check(&self) -> R {
        match self.db().check().await {
            Ok(true) => Ok(()),
            x => fail(format!("check of the pool found {x:?}")),
        }
    }
    pub async fn event(&mut self, s: &mut Src, e: Event) -> R {
        s.note(format!("{e:?}"));
        s.class(match e {
            Event::Sync => "sync", Event::Fsync => "fsync", Event::Sleep => "background flush", Event::DropCache => "drop cache",
            Event::Remount => "remount", Event::Reimport => "reimport", Event::Clean => "clean", Event::Check => "check",
        });
        match e {
            Event::Sync => self.fs().sync().await,
            Event::Fsync => {
                let c = self.m.select(|_| true);
                let ino = *s.pick(&c);
                ensure_eq!(self.fs().fsync(&self.m.fd(ino)).await, Ok(()), "fsync");
            }
            Event::Sleep => {
                let ms = if s.chance(1, 3) { 6000 } else { s.skew(1, 7000) };
                tokio::time::sleep(Duration::from_millis(ms)).await
            }
            Event::DropCache => self.db().drop_cache(),
            Event::Remount => self.remount().await,
            Event::Reimport => self.reimport().await?,
            Event::Clean => self.clean().await?,
            Event::Check => self.check().await?,
        }
        Ok(())
    }
    pub async fn finish(&mut self) {
        self.fs = None;
        if let Some(db) = self.db.take() { shutdown(db).await }
    }
}

fn model(s: &mut Src, p: Profile) -> R {
    let geo = any_geometry(s, 2, 6);
    let seed = s.any();
    s.note(format!("{geo:?}"));
    let delay = s.below(4) as u32;
    let rig = Rig::new(geo, seed, delay);
    rt::run(async {
        let mut l = Live::new(s, rig).await;
        l.m.fams = (0..s.below(3)).map(|_| s.below(100)).collect();
        let n = s.urange(1, 120);
        let w: Vec<u32> = EVENTS.iter().map(|x| x.1).collect();
        for _ in 0..n {
            if s.chance(1, 8) {
                let e = EVENTS[s.weighted(&w)].0;
                l.event(s, e).await?;
            } else {
                l.m.step(s, l.fs.as_ref().unwrap(), p).await?;
            }
        }
        if n >= 30 { s.nontrivial(); }
        s.note("final comparison");
        l.m.compare(l.fs.as_ref().unwrap()).await?;
        l.check().await?;
        l.reimport().await?;
        l.m.compare(l.fs.as_ref().unwrap()).await?;
        l.finish().await;
        Ok(())
    })
}

fn collisions(s: &mut Src) -> R {
    let _ = s.bool();
    s.nontrivial();
    collide::self_test()
}

/// A file that's open while another takes its name
fn renamed_over() -> R {
    let geo = Geometry { clusters: vec![Raid::single()], zone: 256, disk_lbas: 256 * 12, cache: 1 << 20, writeback: 64 << 20 };
    let rig = Rig::new(geo, 1, 0);
    rt::run(async {
        let db = rig.create().await;
        let (_t, fs) = new_fs(&db, None, "", &[]).await;
        let root = fs.root();
        let a = fs.create(&root.handle(), OsStr::new("a"), 0o644, 0, 0).await.unwrap();
        let b = fs.create(&root.handle(), OsStr::new("b"), 0o644, 0, 0).await.unwrap();
        fs.write(&b.handle(), 0, &b"contents"[..], 0).await.unwrap();
        ensure_eq!(fs.rename(&root.handle(), &a.handle(), OsStr::new("a"), &root.handle(), Some(b.ino()), OsStr::new("b")).await, Ok(a.ino()), "rename");
        ensure_eq!(fs.getattr(&b.handle()).await.map(|a| (a.nlink, a.size)), Ok((0, 8)), "attributes of an open file that was replaced");
        let r = fs.read(&b.handle(), 0, 8).await.unwrap();
        ensure_eq!(r.concat(), b"contents".to_vec(), "contents of an open file that was replaced");
        Ok(())
    })
}

pub fn checks() -> Vec<Check> {
    vec![
        Check::new("collisions", "always", 1, 1, collisions),
        Check::new("mixed", "30 operations or more", 36000, 400000, |s| model(s, Profile::Mixed)),
        Check::new("data", "30 operations or more", 36000, 400000, |s| model(s, Profile::Data)),
        Check::new("names", "30 operations or more", 36000, 400000, |s| model(s, Profile::Names)),
        Check::new("attrs", "30 operations or more", 36000, 400000, |s| model(s, Profile::Attrs)),
        Check::known("renamed-over-open", |_| renamed_over()),
    ]
}
