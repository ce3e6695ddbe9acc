//! C27: datasets form a hierarchy, from which they inherit properties
use crate::{rt, world::*};
use bfffs_core::{controller::Controller, database::TreeID, fs::Fs, property::{Property, PropertyName, PropertySource}, Error};
use engine::*;
use futures::TryStreamExt;
use std::{collections::BTreeMap, ffi::OsStr, path::Path, sync::Arc, time::Duration};

#[derive(Default)]
struct Ds {
    id: Option<TreeID>,
    children: BTreeMap<String, Ds>,
    atime: Option<bool>,
    recsize: Option<u8>,
    mountpoint: Option<String>,
    /// What's written in its file
    content: Option<u64>,
    mounted: Option<Arc<Fs>>,
}

struct W {
    rig: Rig,
    c: Option<Controller>,
    pool: String,
    root: Option<Ds>,
}

/// A dataset's path within the pool
type P = Vec<String>;

impl W {
    fn c(&self) -> &Controller { self.c.as_ref().unwrap() }
    fn name(&self, p: &P) -> String {
        let mut s = self.pool.clone();
        for x in p { s += "/"; s += x; }
        s
    }
    fn get(&self, p: &P) -> Option<&Ds> {
        let mut d = self.root.as_ref()?;
        for x in p { d = d.children.get(x)?; }
        Some(d)
    }
    fn get_mut(&mut self, p: &P) -> Option<&mut Ds> {
        let mut d = self.root.as_mut()?;
        for x in p { d = d.children.get_mut(x)?; }
        Some(d)
    }
    fn all(&self) -> Vec<P> {
        fn rec(d: &Ds, p: P, out: &mut Vec<P>) {
            for (n, c) in &d.children {
                let mut q = p.clone();
                q.push(n.clone());
                rec(c, q, out);
            }
            out.push(p);
        }
        let mut v = Vec::new();
        if let Some(r) = &self.root { rec(r, Vec::new(), &mut v) }
        v.sort();
        v
    }
    /// The nearest dataset upwards for which `f` gives something
    fn inherit<T>(&self, p: &P, f: impl Fn(&Ds) -> Option<T>) -> Option<(T, u8)> {
        (0..=p.len()).find_map(|up| f(self.get(&p[..p.len() - up].to_vec()).unwrap()).map(|x| (x, up as u8)))
    }
    fn prop(&self, p: &P, n: PropertyName) -> (Property, PropertySource) {
        let src = |x: Option<u8>| x.map_or(PropertySource::Default, PropertySource::Set);
        match n {
            PropertyName::Atime => {
                let x = self.inherit(p, |d| d.atime);
                (Property::Atime(x.is_none_or(|x| x.0)), src(x.map(|x| x.1)))
            }
            PropertyName::RecordSize => {
                let x = self.inherit(p, |d| d.recsize);
                (Property::RecordSize(x.map_or(17, |x| x.0)), src(x.map(|x| x.1)))
            }
            PropertyName::Name => (Property::Name(self.name(p)), PropertySource::None),
            PropertyName::Mountpoint => {
                let x = self.inherit(p, |d| d.mountpoint.clone());
                let mp = match &x {
                    None => format!("/{}", self.name(p)),
                    Some((b, up)) => {
                        let mut s = b.clone();
                        for y in &p[p.len() - *up as usize..] { s += "/"; s += y; }
                        s
                    }
                };
                (Property::Mountpoint(mp), src(x.map(|x| x.1)))
            }
            PropertyName::BaseMountpoint => unreachable!(),
        }
    }
    async fn check_one(&self, p: &P) -> R {
        let name = self.name(p);
        for n in [PropertyName::Atime, PropertyName::RecordSize, PropertyName::Name, PropertyName::Mountpoint] {
            ensure_eq!(self.c().get_prop(name.clone(), n).await, Ok(self.prop(p, n)), "property {n:?} of {name}");
        }
        self.list(p, None).await
    }
    /// List a dataset's children, perhaps in several goes
    async fn list(&self, p: &P, each: Option<&mut Src>) -> R {
        let name = self.name(p);
        let l: Result<Vec<_>, Error> = self.c().list_fs(&name, None).try_collect().await;
        let l = match l { Ok(l) => l, Err(e) => return fail(format!("list of {name}: {e:?}")) };
        let mut got: Vec<(String, TreeID)> = l.iter().map(|d| (d.name.clone(), d.id)).collect();
        got.sort();
        let d = self.get(p).unwrap();
        let want: Vec<(String, TreeID)> = {
            let mut v: Vec<_> = d.children.iter().map(|(n, c)| (format!("{name}/{n}"), c.id.unwrap())).collect();
            v.sort();
            v
        };
        ensure_eq!(got, want, "children of {name}");
        if let Some(s) = each {
            if !l.is_empty() {
                let i = s.idx(l.len());
                let rest: Result<Vec<_>, Error> = self.c().list_fs(&name, Some(l[i].offs)).try_collect().await;
                ensure_eq!(rest, Ok(l[i + 1..].to_vec()), "children of {name} after the one at {i}");
            }
        }
        Ok(())
    }
    async fn check_all(&self) -> R {
        for p in self.all() { self.check_one(&p).await? }
        Ok(())
    }
    async fn mount(&mut self, p: &P) -> R {
        let name = self.name(p);
        let fs = match self.c().new_fs(&name).await {
            Ok(fs) => fs,
            Err(e) => return fail(format!("mount of {name}: {e:?}")),
        };
        let (Property::RecordSize(rs), _) = self.prop(p, PropertyName::RecordSize) else { unreachable!() };
        ensure_eq!(fs.statvfs().await.map(|x| x.f_bsize), Ok(1u64 << rs), "block size of {name}");
        content_cmp(&fs, self.get(p).unwrap().content, &name).await?;
        self.get_mut(p).unwrap().mounted = Some(fs);
        Ok(())
    }
    async fn reimport(&mut self) -> R {
        for p in self.all() { self.get_mut(&p).unwrap().mounted = None }
        ensure_eq!(self.c().sync_transaction().await, Ok(()), "sync");
        self.c = None;
        // The tasks end soon
        tokio::time::sleep(Duration::from_secs(1)).await;
        let m = match self.rig.manager().await { Ok(m) => m, Err(e) => return fail(format!("taste: {e:?}")) };
        let mut m = m;
        match m.import_by_name(&self.rig.name).await {
            Ok(db) => self.c = Some(Controller::new(db)),
            Err(e) => return fail(format!("import: {e:?}")),
        }
        Ok(())
    }
    /// How many blocks does the pool say are used?
    async fn used(&self, fs: &Fs) -> u64 {
        let _ = self.c().sync_transaction().await;
        let v = fs.statvfs().await.unwrap();
        v.f_blocks - v.f_bfree
    }
}

async fn content_cmp(fs: &Fs, content: Option<u64>, name: &str) -> R {
    let root = fs.root();
    match (content, fs.lookup(None, &root.handle(), OsStr::new("f")).await) {
        (None, Err(libc::ENOENT)) => Ok(()),
        (None, r) => fail(format!("{name} has a file, but shouldn't: {}", r.is_ok())),
        (Some(x), Ok(fd)) => {
            let r = fs.read(&fd.handle(), 0, 100).await;
            let b: Vec<u8> = match r { Ok(sg) => sg.iter().flat_map(|x| x.to_vec()).collect(), Err(e) => return fail(format!("{name}: read: error {e}")) };
            ensure_eq!(b, x.to_le_bytes().to_vec(), "contents of the file of {name}");
            fs.inactive(fd).await;
            Ok(())
        }
        (Some(_), Err(e)) => fail(format!("the file of {name} is lost: error {e}")),
    }
}

const NAMES: &[&str] = &["a", "b", "c", "ab", "tank", "x y", "é", "..", "a.b-c_d:e"];

fn any_path(s: &mut Src, w: &W, existing: u64) -> P {
    let all = w.all();
    if !all.is_empty() && s.chance(existing, 10) { return s.pick(&all).clone(); }
    let mut p = if all.is_empty() { vec![] } else { s.pick(&all).clone() };
    if s.chance(1, 8) { p.push((*s.pick(NAMES)).to_string()) }
    p.push((*s.pick(NAMES)).to_string());
    p
}

/// Has anything else of this pool been unmounted?
fn g_unmounted(pool: &str) -> bool {
    nix::mount::UNMOUNTED.lock().unwrap().iter().any(|x| x.to_string_lossy().starts_with(&format!("/{pool}")))
}

/// Names that are of no dataset of this pool
fn bad_name(s: &mut Src, w: &W) -> String {
    let p = any_path(s, w, 8);
    let n = w.name(&p);
    let rest = n[w.pool.len()..].trim_start_matches('/').to_string();
    match s.idx(5) {
        0 => format!("{}{}", w.pool, if rest.is_empty() { "a".into() } else { rest }),
        1 => format!("other/{rest}"),
        2 => n[..w.pool.len() - 1].to_string(),
        3 => format!("/{n}"),
        _ => rest.clone() + "/" + &w.pool,
    }
}

async fn step(s: &mut Src, w: &mut W, token: &mut u64) -> R {
    match s.weighted(&[12, 7, 8, 8, 6, 5, 4, 4, 3, 2, 2, 2, 1, 1]) {
        0 => {
            let p = any_path(s, w, 3);
            let name = w.name(&p);
            let want = if w.get(&p).is_some() { Err(Error::EEXIST) }
                else if !p.is_empty() && w.get(&p[..p.len() - 1].to_vec()).is_none() { Err(Error::ENOENT) }
                else { Ok(()) };
            let r = w.c().create_fs(&name).await;
            s.note(format!("create {name} = {r:?}"));
            s.class(match want { Ok(()) => "create", Err(Error::EEXIST) => "create existing", _ => "create without parent" });
            ensure_eq!(r.map(drop), want, "create {name}");
            if let Ok(id) = r {
                for q in w.all() { ensure!(w.get(&q).unwrap().id != Some(id), "{name} has the same ID as {}", w.name(&q)) }
                let d = Ds { id: Some(id), ..Default::default() };
                match p.split_last() {
                    None => w.root = Some(d),
                    Some((n, q)) => { w.get_mut(&q.to_vec()).unwrap().children.insert(n.clone(), d); }
                }
            }
        }
        1 => {
            let p = any_path(s, w, 8);
            let name = w.name(&p);
            let want = match w.get(&p) {
                None => Err(Error::ENOENT),
                Some(d) if d.mounted.is_some() || !d.children.is_empty() => Err(Error::EBUSY),
                _ => Ok(()),
            };
            let r = w.c().destroy_fs(&name).await;
            s.note(format!("destroy {name} = {r:?}"));
            s.class(match want { Ok(()) => "destroy", Err(Error::EBUSY) => "destroy busy", _ => "destroy missing" });
            ensure_eq!(r, want, "destroy {name}");
            if r.is_ok() {
                match p.split_last() {
                    None => w.root = None,
                    Some((n, q)) => { w.get_mut(&q.to_vec()).unwrap().children.remove(n); }
                }
            }
        }
        2 => {
            let p = any_path(s, w, 9);
            let name = w.name(&p);
            let (atime, rs, mp) = (s.bool(), s.range(12, 20) as u8, format!("/{}.{}", w.pool, s.pick(&["m", "n/o", "a"])));
            // KNOWN: setting the mountpoint of a mounted file system panics (case "mountpoint-mounted")
            let mounted = w.get(&p).is_some_and(|d| d.mounted.is_some());
            let prop = match s.idx(if mounted { 2 } else { 3 }) { 0 => Property::Atime(atime), 1 => Property::RecordSize(rs), _ => Property::Mountpoint(mp) };
            let rel = matches!(prop, Property::Mountpoint(_)) && s.chance(1, 4);
            let prop = if rel { Property::Mountpoint("relative".into()) } else { prop };
            let want = if w.get(&p).is_none() { Err(Error::ENOENT) } else if rel { Err(Error::EINVAL) } else { Ok(()) };
            let r = w.c().set_prop(&name, prop.clone()).await;
            s.note(format!("set {prop:?} on {name} = {r:?}"));
            s.class("set property");
            ensure_eq!(r, want, "set {prop:?} on {name}");
            if r.is_ok() {
                let d = w.get_mut(&p).unwrap();
                match prop {
                    Property::Atime(x) => d.atime = Some(x),
                    Property::RecordSize(x) => d.recsize = Some(x),
                    Property::Mountpoint(x) => d.mountpoint = Some(x),
                    _ => unreachable!(),
                }
            }
        }
        3 => {
            let p = any_path(s, w, 8);
            let name = w.name(&p);
            if w.get(&p).is_none() {
                s.class("mount missing");
                ensure_eq!(w.c().new_fs(&name).await.map(drop), Err(Error::ENOENT), "mount {name}");
            } else if w.get(&p).unwrap().mounted.is_some() {
                s.class("mount mounted");
                s.note(format!("mount {name} again"));
                ensure_eq!(w.c().new_fs(&name).await.map(drop), Err(Error::EBUSY), "mount {name} again");
            } else {
                s.class("mount");
                s.note(format!("mount {name}"));
                w.mount(&p).await?;
            }
        }
        4 => {
            let m: Vec<P> = w.all().into_iter().filter(|p| w.get(p).unwrap().mounted.is_some()).collect();
            if m.is_empty() { return Ok(()) }
            let p = s.pick(&m).clone();
            let name = w.name(&p);
            *token += 1;
            let fs = w.get(&p).unwrap().mounted.clone().unwrap();
            let root = fs.root();
            s.note(format!("write {token} to {name}"));
            s.class("write");
            let fd = match fs.lookup(None, &root.handle(), OsStr::new("f")).await {
                Ok(fd) => fd,
                Err(_) => fs.create(&root.handle(), OsStr::new("f"), 0o644, 0, 0).await.unwrap(),
            };
            ensure_eq!(fs.write(&fd.handle(), 0, &token.to_le_bytes()[..], 0).await, Ok(8), "write");
            fs.inactive(fd).await;
            w.get_mut(&p).unwrap().content = Some(*token);
        }
        5 => {
            let m: Vec<P> = w.all().into_iter().filter(|p| w.get(p).unwrap().mounted.is_some()).collect();
            if m.is_empty() { return Ok(()) }
            let p = s.pick(&m).clone();
            let name = w.name(&p);
            let fs = w.get_mut(&p).unwrap().mounted.take().unwrap();
            if s.bool() {
                s.note(format!("unmount {name}"));
                s.class("unmount by command");
                let force = s.bool();
                ensure_eq!(w.c().unmount(&name, force).await, Ok(()), "unmount");
                let (Property::Mountpoint(mp), _) = w.prop(&p, PropertyName::Mountpoint) else { unreachable!() };
                ensure_eq!(nix::mount::forced(Path::new(&mp)), Some(force), "unmounted by force");
                let mine: Vec<_> = nix::mount::UNMOUNTED.lock().unwrap().extract_if(.., |x| x.to_string_lossy().starts_with(&format!("/{}", w.pool))).collect();
                ensure_eq!(mine, vec![Path::new(&mp).to_owned()], "what was unmounted for {name}");
                drop(fs);
                ensure_eq!(w.c().unmount(&name, s.bool()).await, Err(Error::EINVAL), "unmount again");
                ensure!(!g_unmounted(&w.pool), "an unmounted file system was unmounted");
            } else {
                drop(fs);
                s.note(format!("{name} is unmounted"));
                s.class("unmount by kernel");
            }
        }
        6 => {
            let p = any_path(s, w, 9);
            let name = w.name(&p);
            s.note(format!("list {name}"));
            s.class("list");
            if w.get(&p).is_some() { w.list(&p, Some(s)).await? }
            else {
                let l: Result<Vec<_>, Error> = w.c().list_fs(&name, None).try_collect().await;
                ensure_eq!(l, Err(Error::ENOENT), "list {name}");
            }
        }
        7 => {
            let p = any_path(s, w, 9);
            s.note(format!("properties of {}", w.name(&p)));
            s.class("get properties");
            if w.get(&p).is_some() { w.check_one(&p).await? }
            else { ensure_eq!(w.c().get_prop(w.name(&p), PropertyName::Atime).await, Err(Error::ENOENT), "property of a missing dataset") }
        }
        8 => {
            let n = bad_name(s, w);
            s.note(format!("not a name of this pool's: {n}"));
            s.class("other pools' names");
            match s.idx(4) {
                0 => ensure_eq!(w.c().create_fs(&n).await.map(drop), Err(Error::ENOENT), "create {n}"),
                1 => ensure_eq!(w.c().destroy_fs(&n).await, Err(Error::ENOENT), "destroy {n}"),
                2 => ensure_eq!(w.c().set_prop(&n, Property::Atime(false)).await, Err(Error::ENOENT), "set_prop {n}"),
                _ => ensure_eq!(w.c().new_fs(&n).await.map(drop), Err(Error::ENOENT), "mount {n}"),
            }
        }
        9 => {
            // empty components
            let p = any_path(s, w, 7);
            let n = w.name(&p);
            let bad = if p.is_empty() || s.bool() { n + if s.bool() { "/" } else { "//a" } } else { n.replacen('/', "//", 1) };
            if bad == format!("{}/", w.pool) { return Ok(()) }
            s.note(format!("malformed: {bad}"));
            s.class("malformed names");
            match s.idx(3) {
                0 => ensure!(w.c().create_fs(&bad).await.is_err(), "create {bad} worked"),
                1 => ensure!(w.c().destroy_fs(&bad).await.is_err(), "destroy {bad} worked"),
                _ => ensure!(w.c().new_fs(&bad).await.is_err(), "mount {bad} worked"),
            }
        }
        10 => { s.note("sync"); s.class("sync"); ensure_eq!(w.c().sync_transaction().await, Ok(()), "sync") }
        11 => { s.note("sleep"); tokio::time::sleep(Duration::from_secs(s.range(1, 12))).await }
        12 => { s.note("drop cache"); w.c().drop_cache() }
        _ => {
            if s.bool() {
                s.note("reimport"); s.class("reimport");
                w.reimport().await?;
            } else {
                s.note("clean"); s.class("clean");
                ensure!(w.c().clean(&w.pool).unwrap().await.is_ok(), "clean");
            }
        }
    }
    Ok(())
}

fn datasets(s: &mut Src) -> R {
    let geo = any_geometry(s, 1, 2);
    s.note(format!("{geo:?}"));
    let seed = s.any();
    let delay = s.below(3) as u32;
    let mut rig = Rig::new(geo, seed, delay);
    rig.name = format!("tank{:x}", s.any());
    rt::run(async {
        let db = Arc::try_unwrap(rig.create().await).ok().unwrap();
        let pool = rig.name.clone();
        let mut w = W { rig, c: Some(Controller::new(db)), pool, root: None };
        let mut token = 0;
        if s.chance(9, 10) {
            let id = w.c().create_fs(&w.pool).await.unwrap();
            w.root = Some(Ds { id: Some(id), ..Default::default() });
        }
        let n = s.urange(1, 80);
        let mut most = 0;
        for _ in 0..n {
            step(s, &mut w, &mut token).await?;
            most = most.max(w.all().len());
        }
        if n >= 20 && most >= 4 { s.nontrivial(); }
        s.note("everything");
        w.check_all().await?;
        w.reimport().await?;
        w.check_all().await?;
        for p in w.all() { w.mount(&p).await?; w.get_mut(&p).unwrap().mounted = None; }
        ensure!(matches!(w.c().check().await, Ok(true)), "check of the pool failed");
        Ok(())
    })
}

/// Creating and destroying datasets leaves no space used
fn space(s: &mut Src) -> R {
    let geo = any_geometry(s, 1, 1);
    let mut rig = Rig::new(geo, s.any(), 0);
    rig.name = format!("tank{:x}", s.any());
    s.note(format!("{:?}", rig.geo));
    rt::run(async {
        let db = Arc::try_unwrap(rig.create().await).ok().unwrap();
        let pool = rig.name.clone();
        let mut w = W { rig, c: Some(Controller::new(db)), pool, root: None };
        let mut token = 0;
        let id = w.c().create_fs(&w.pool).await.unwrap();
        w.root = Some(Ds { id: Some(id), ..Default::default() });
        let fs = w.c().new_fs(&w.pool).await.unwrap();
        let before = w.used(&fs).await;
        w.root.as_mut().unwrap().mounted = Some(fs.clone());
        drop(fs);
        let n = s.urange(20, 120);
        let mut created = 0;
        for _ in 0..n {
            let had = w.all().len();
            step(s, &mut w, &mut token).await?;
            if w.all().len() > had { created += 1 }
            if w.root.is_none() { return Ok(()) }
        }
        if created >= 5 { s.nontrivial(); }
        s.note("destroy everything");
        let mut all = w.all();
        all.sort_by_key(|p| std::cmp::Reverse(p.len()));
        for p in &all {
            if p.is_empty() { continue }
            w.get_mut(p).unwrap().mounted = None;
            let name = w.name(p);
            ensure_eq!(w.c().destroy_fs(&name).await, Ok(()), "destroy {name}");
            let (x, q) = p.split_last().unwrap();
            w.get_mut(&q.to_vec()).unwrap().children.remove(x);
        }
        w.root.as_mut().unwrap().mounted = None;
        let fs = w.c().new_fs(&w.pool).await.unwrap();
        let after = w.used(&fs).await;
        // The root file system's file and properties may have been written
        ensure!(after <= before + 2, "{before} blocks were used before, but {after} afterwards");
        Ok(())
    })
}

/// Setting the mountpoint of a mounted file system panics
fn mountpoint_mounted(_s: &mut Src) -> R {
    let geo = Geometry { clusters: vec![Raid::single()], zone: 256, disk_lbas: 256 * 16, cache: 16 << 20, writeback: 64 << 20 };
    let rig = Rig::new(geo, 1, 0);
    rt::run(async {
        let db = Arc::try_unwrap(rig.create().await).ok().unwrap();
        let c = Controller::new(db);
        c.create_fs("tank").await.unwrap();
        let _fs = c.new_fs("tank").await.unwrap();
        let _ = c.set_prop("tank", Property::Mountpoint("/mnt".into())).await;
        Ok(())
    })
}

pub fn checks() -> Vec<Check> {
    vec![
        Check::known("mountpoint-mounted", mountpoint_mounted),
        Check::new("datasets", "20 operations or more, and 4 datasets or more at once", 120000, 2000000, datasets),
        Check::new("space", "5 datasets or more were created", 60000, 1000000, space),
    ]
}
