//! C34: bfffsd answers every request, in kind, and does only what the asker may do
use crate::{rt, world::*};
use bfffs_client::{Bfffs, Error as CError};
use bfffs_core::{
    property::{Property, PropertyName, PropertySource},
    rpc::{self, Request, Response},
    vdev::{FaultedReason, Health},
    Error, Uuid,
};
use bfffs_daemon::Server;
use engine::*;
use futures::{future::join_all, FutureExt, StreamExt};
use speedy::{Readable, Writable};
use std::{collections::BTreeMap, ffi::OsString, num::NonZeroU8, os::unix::ffi::OsStringExt, path::{Path, PathBuf}, time::Duration};
use tokio_seqpacket::UnixSeqpacket;

#[derive(Clone, Debug, Default)]
pub struct Ds {
    pub children: BTreeMap<String, Ds>,
    pub atime: Option<bool>,
    pub recsize: Option<u8>,
    pub mountpoint: Option<String>,
    pub mounted: Option<PathBuf>,
}
pub type P = Vec<String>;

#[derive(Clone, Debug)]
pub struct Model { pub pool: String, pub root: Option<Ds> }

pub const PROPS: &[PropertyName] = &[PropertyName::Atime, PropertyName::RecordSize, PropertyName::Name, PropertyName::Mountpoint, PropertyName::BaseMountpoint];

impl Model {
    pub fn name(&self, p: &[String]) -> String {
        let mut s = self.pool.clone();
        for x in p { s += "/"; s += x; }
        s
    }
    pub fn get(&self, p: &[String]) -> Option<&Ds> {
        let mut d = self.root.as_ref()?;
        for x in p { d = d.children.get(x)?; }
        Some(d)
    }
    pub fn get_mut(&mut self, p: &[String]) -> Option<&mut Ds> {
        let mut d = self.root.as_mut()?;
        for x in p { d = d.children.get_mut(x)?; }
        Some(d)
    }
    /// The dataset and those under it, down to the given depth
    pub fn under(&self, p: &[String], depth: usize) -> Vec<P> {
        let mut v = Vec::new();
        let Some(d) = self.get(p) else { return v };
        v.push(p.to_vec());
        if depth > 0 {
            for n in d.children.keys() {
                let mut q = p.to_vec();
                q.push(n.clone());
                v.extend(self.under(&q, depth - 1));
            }
        }
        v
    }
    pub fn all(&self) -> Vec<P> { self.under(&[], usize::MAX) }
    fn inherit<T>(&self, p: &[String], f: impl Fn(&Ds) -> Option<T>) -> Option<(T, u8)> {
        (0..=p.len()).find_map(|up| f(self.get(&p[..p.len() - up]).unwrap()).map(|x| (x, up as u8)))
    }
    pub fn prop(&self, p: &[String], n: PropertyName) -> (Property, PropertySource) {
        let src = |x: Option<u8>| x.map_or(PropertySource::Default, PropertySource::Set);
        match n {
            PropertyName::Atime => {
                let x = self.inherit(p, |d| d.atime);
                (Property::Atime(x.is_none_or(|x| x.0)), src(x.map(|x| x.1)))
            }
            PropertyName::RecordSize => {
                let x = self.inherit(p, |d| d.recsize);
                (Property::RecordSize(x.map_or(17, |x| x.0)), src(x.map(|x| x.1)))
            }
            PropertyName::Name => (Property::Name(self.name(p)), PropertySource::None),
            PropertyName::Mountpoint => {
                let x = self.inherit(p, |d| d.mountpoint.clone());
                let mp = match &x {
                    None => format!("/{}", self.name(p)),
                    Some((b, up)) => {
                        let mut s = b.clone();
                        for y in &p[p.len() - *up as usize..] { s += "/"; s += y; }
                        s
                    }
                };
                (Property::Mountpoint(mp), src(x.map(|x| x.1)))
            }
            PropertyName::BaseMountpoint => {
                let x = self.inherit(p, |d| d.mountpoint.clone());
                (Property::BaseMountpoint(x.as_ref().map_or(String::new(), |x| x.0.clone())), src(x.map(|x| x.1)))
            }
        }
    }
    fn mountpoint(&self, p: &[String]) -> PathBuf {
        let (Property::Mountpoint(m), _) = self.prop(p, PropertyName::Mountpoint) else { unreachable!() };
        m.into()
    }
    /// Where it is mounted, or would be if it were created
    fn mountpoint_of(&self, p: &P) -> Option<PathBuf> {
        let mut m = self.clone();
        if m.get(p).is_none() && Op::Create(p.clone(), vec![]).apply(&mut m).is_err() { return None }
        Some(m.mountpoint(p))
    }
    /// Is something else mounted where it would be?  File systems can be mounted
    /// over others, but then it's the last one that's unmounted.
    pub fn occupied(&self, p: &P) -> bool {
        let Some(mp) = self.mountpoint_of(p) else { return false };
        self.all().iter().any(|q| q != p && self.get(q).unwrap().mounted.as_ref() == Some(&mp))
    }
    pub fn mounted(&self) -> Vec<PathBuf> {
        let mut v: Vec<_> = self.all().iter().filter_map(|p| self.get(p).unwrap().mounted.clone()).collect();
        v.sort();
        v
    }
    /// Everything that can be seen of it
    pub fn view(&self) -> BTreeMap<String, Vec<(Property, PropertySource)>> {
        self.all().iter().map(|p| (self.name(p), PROPS.iter().map(|n| self.prop(p, *n)).collect())).collect()
    }
}

/// What clients may ask for concerning datasets
#[derive(Clone, Debug)]
pub enum Op {
    Create(P, Vec<Property>),
    Destroy(P),
    Set(P, Vec<Property>),
    Stat(P, Vec<PropertyName>),
    Mount(P, Option<i32>),
    Unmount(P, bool),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Out { Done, Stat(String, Vec<(Property, PropertySource)>) }

impl Op {
    pub fn path(&self) -> &P {
        match self { Op::Create(p, _) | Op::Destroy(p) | Op::Set(p, _) | Op::Stat(p, _) | Op::Mount(p, _) | Op::Unmount(p, _) => p }
    }
    pub fn changes(&self) -> bool { !matches!(self, Op::Stat(..)) }
    pub fn apply(&self, m: &mut Model) -> Result<Out, Error> {
        let set = |d: &mut Ds, props: &[Property]| {
            for x in props {
                match x {
                    Property::Atime(x) => d.atime = Some(*x),
                    Property::RecordSize(x) => d.recsize = Some(*x),
                    Property::Mountpoint(x) if !x.starts_with('/') => return Err(Error::EINVAL),
                    Property::Mountpoint(x) => d.mountpoint = Some(x.clone()),
                    _ => unreachable!(),
                }
            }
            Ok(Out::Done)
        };
        match self {
            Op::Create(p, props) => {
                if m.get(p).is_some() { return Err(Error::EEXIST) }
                let mut d = Ds::default();
                match p.split_last() {
                    None => { set(&mut d, props)?; m.root = Some(d) }
                    Some((n, q)) => match m.get_mut(q) {
                        None => return Err(Error::ENOENT),
                        Some(par) => { set(&mut d, props)?; par.children.insert(n.clone(), d); }
                    }
                }
                Ok(Out::Done)
            }
            Op::Destroy(p) => {
                let d = m.get(p).ok_or(Error::ENOENT)?;
                if d.mounted.is_some() || !d.children.is_empty() { return Err(Error::EBUSY) }
                match p.split_last() {
                    None => m.root = None,
                    Some((n, q)) => { m.get_mut(q).unwrap().children.remove(n); }
                }
                Ok(Out::Done)
            }
            Op::Set(p, props) => set(m.get_mut(p).ok_or(Error::ENOENT)?, props),
            Op::Stat(p, n) => {
                m.get(p).ok_or(Error::ENOENT)?;
                Ok(Out::Stat(m.name(p), n.iter().map(|n| m.prop(p, *n)).collect()))
            }
            Op::Mount(p, error) => {
                let d = m.get(p).ok_or(Error::ENOENT)?;
                if d.mounted.is_some() { return Err(Error::EBUSY) }
                if let Some(e) = error { return Err(Error::from(std::io::Error::from_raw_os_error(*e))) }
                let mp = m.mountpoint(p);
                m.get_mut(p).unwrap().mounted = Some(mp);
                Ok(Out::Done)
            }
            Op::Unmount(p, _) => {
                let d = m.get_mut(p).ok_or(Error::ENOENT)?;
                if d.mounted.take().is_none() { return Err(Error::EINVAL) }
                Ok(Out::Done)
            }
        }
    }
    async fn ask(&self, c: &Bfffs, name: String) -> Result<Out, CError> {
        match self.clone() {
            Op::Create(_, props) => c.fs_create(name, props).await.map(|_| Out::Done),
            Op::Destroy(_) => c.fs_destroy(name).await.map(|_| Out::Done),
            Op::Set(_, props) => c.fs_set(name, props).await.map(|_| Out::Done),
            // Through a list that goes nowhere
            Op::Stat(_, props) => match c.fs_list(name, props, None, 0).boxed().next().await {
                None => Err(CError::NoResponse),
                Some(Err(e)) => Err(e),
                Some(Ok(i)) => Ok(Out::Stat(i.name, i.props)),
            },
            Op::Mount(_, e) => {
                if e.is_some() { fuse3::raw::set_mount_error(e) }
                let r = c.fs_mount(name).await.map(|_| Out::Done);
                if e.is_some() { fuse3::raw::set_mount_error(None) }
                r
            }
            Op::Unmount(_, force) => c.fs_unmount(&name, force).await.map(|_| Out::Done),
        }
    }
}

struct Conn { c: Bfffs, uid: u32 }

struct W {
    rig: Rig,
    server: Server,
    sock: PathBuf,
    conns: Vec<Conn>,
    m: Model,
    me: u32,
}

async fn connect(sock: &Path, uid: u32) -> Conn {
    tokio_seqpacket::set_uid(uid);
    Conn { c: Bfffs::new(sock).await.unwrap(), uid }
}

pub fn euid() -> u32 { unsafe { libc::geteuid() } }

impl W {
    /// A connection of somebody who may do everything
    fn mine(&self) -> &Conn { self.conns.iter().find(|c| c.uid == self.me).unwrap() }
    async fn view(&self, c: &Bfffs) -> Result<BTreeMap<String, Vec<(Property, PropertySource)>>, Bad> {
        let mut out = BTreeMap::new();
        if let Some(v) = list(c, self.m.pool.clone(), PROPS.to_vec(), None, usize::MAX).await? {
            for (n, p, _) in v { ensure!(out.insert(n.clone(), p).is_none(), "{n} is listed twice"); }
        }
        Ok(out)
    }
    async fn check(&self) -> R {
        let got = self.view(&self.mine().c).await?;
        ensure_eq!(got, self.m.view(), "the datasets");
        self.check_mounts()
    }
    fn mounts(&self) -> Vec<PathBuf> {
        let mut v = fuse3::raw::mounts(&format!("/{}", self.m.pool));
        v.sort();
        v
    }
    fn check_mounts(&self) -> R {
        ensure_eq!(self.mounts(), self.m.mounted(), "what is mounted");
        Ok(())
    }
}

type Listing = Vec<(String, Vec<(Property, PropertySource)>, u64)>;
/// None if there's no such dataset
async fn list(c: &Bfffs, name: String, props: Vec<PropertyName>, offs: Option<u64>, depth: usize) -> Result<Option<Listing>, Bad> {
    let mut v = Vec::new();
    let mut st = c.fs_list(name.clone(), props, offs, depth).boxed();
    while let Some(r) = st.next().await {
        match r {
            Ok(i) => v.push((i.name, i.props, i.offset)),
            Err(CError::Other(Error::ENOENT)) if v.is_empty() => return Ok(None),
            Err(e) => return fail(format!("list of {name}, after {} entries: {e:?}", v.len())),
        }
    }
    Ok(Some(v))
}

pub const NAMES: &[&str] = &["a", "b", "c", "ab", "tank", "x y", "é", "a.b-c_d:e"];

fn any_name(s: &mut Src, long: usize) -> String {
    if long > 0 && s.chance(2, 3) {
        let n = s.skew(1, long as u64) as usize;
        let c = *s.pick(&["n", "é", "9"]);
        return format!("{}{}", c.repeat(n / c.len()), s.below(1000));
    }
    (*s.pick(NAMES)).to_string()
}
pub fn any_path(s: &mut Src, m: &Model, existing: u64, long: usize) -> P {
    let all = m.all();
    if !all.is_empty() && s.chance(existing, 10) { return s.pick(&all).clone(); }
    let mut p = if all.is_empty() { vec![] } else { s.pick(&all).clone() };
    if s.chance(1, 8) { p.push(any_name(s, 0)) }
    p.push(any_name(s, long));
    // All that's said about a dataset must fit into one message
    while p.len() > 1 && p.iter().map(|x| x.len() + 1).sum::<usize>() > 1200 { p.pop(); }
    p
}
pub fn any_props(s: &mut Src, m: &Model, p: &P, creating: bool, single: bool) -> Vec<Property> {
    let mut v = Vec::new();
    let n = if single { 1 } else { s.urange(usize::from(!creating), 3) };
    // KNOWN: setting the mountpoint of a mounted file system panics (C27's case "mountpoint-mounted"),
    // and one that has inherited it can't be unmounted ("moved-mountpoint")
    let free = m.under(p, usize::MAX).iter().all(|q| m.get(q).unwrap().mounted.is_none());
    for _ in 0..n {
        let x = match s.idx(if free && !single { 3 } else { 2 }) {
            0 => Property::Atime(s.bool()),
            1 => Property::RecordSize(s.range(12, 20) as u8),
            _ => Property::Mountpoint(if !creating && s.chance(1, 4) { "relative".into() } else { format!("/{}/.{}", m.pool, s.pick(&["m", "n/o", "a"])) }),
        };
        // Creation sets them in no particular order
        if !creating || v.iter().all(|y: &Property| y.name() != x.name()) { v.push(x) }
    }
    v
}
pub fn any_op(s: &mut Src, m: &Model, batch: bool, long: usize) -> Op {
    match s.weighted(&[10, 6, 6, 4, 7, 5]) {
        0 => { let p = any_path(s, m, 2, long); let props = if batch { vec![] } else { any_props(s, m, &p, true, false) }; Op::Create(p, props) }
        1 => Op::Destroy(any_path(s, m, 9, 0)),
        2 => { let p = any_path(s, m, 9, 0); let props = any_props(s, m, &p, false, batch); Op::Set(p, props) }
        3 => { let p = any_path(s, m, 9, 0); let n = if batch { 1 } else { s.urange(1, 5) }; Op::Stat(p, (0..n).map(|_| *s.pick(PROPS)).collect()) }
        4 => Op::Mount(any_path(s, m, 9, 0), if !batch && s.chance(1, 5) { Some(*s.pick(&[libc::ENOENT, libc::EPERM, libc::EBUSY])) } else { None }),
        _ => {
            let up: Vec<P> = m.all().into_iter().filter(|p| m.get(p).unwrap().mounted.is_some()).collect();
            let p = if !up.is_empty() && s.chance(3, 4) { s.pick(&up).clone() } else { any_path(s, m, 9, 0) };
            Op::Unmount(p, s.bool())
        }
    }
}

fn class_of(op: &Op, r: &Result<Out, CError>) -> &'static str {
    match (op, r) {
        (_, Err(CError::Other(Error::EPERM))) => "refused",
        (Op::Create(..), Ok(_)) => "create", (Op::Destroy(..), Ok(_)) => "destroy", (Op::Set(..), Ok(_)) => "set",
        (Op::Stat(..), Ok(_)) => "stat", (Op::Mount(..), Ok(_)) => "mount", (Op::Unmount(..), Ok(_)) => "unmount",
        (_, Err(_)) => "failed",
    }
}

async fn one(s: &mut Src, w: &mut W, long: usize) -> R {
    let op = any_op(s, &w.m, false, long);
    if matches!(&op, Op::Mount(p, _) if w.m.occupied(p)) { return Ok(()) }
    let i = s.idx(w.conns.len());
    let c = &w.conns[i];
    let name = w.m.name(op.path());
    let was = w.m.get(op.path()).and_then(|d| d.mounted.clone());
    let r = op.ask(&c.c, name.clone()).await;
    s.note(format!("{} asks {op:?} = {r:?}", c.uid));
    s.class(class_of(&op, &r));
    let want = if op.changes() && c.uid != w.me { Err(Error::EPERM) } else { op.apply(&mut w.m) };
    let done = want.is_ok();
    ensure_eq!(r, want.map_err(CError::Other), "{} asks {op:?}", c.uid);
    if let (Op::Unmount(_, f), Some(mp), true) = (&op, was, done) { ensure_eq!(nix::mount::forced(&mp), Some(*f), "unmounted by force") }
    w.check_mounts()
}

fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 { return vec![vec![]] }
    permutations(n - 1).into_iter().flat_map(|p| (0..n).map(move |i| { let mut q = p.clone(); q.insert(i, n - 1); q })).collect()
}

/// Several at once, through different connections
async fn several(s: &mut Src, w: &mut W) -> R {
    let n = s.urange(2, 4);
    let mut ops: Vec<Op> = Vec::new();
    for _ in 0..n {
        let mut op = any_op(s, &w.m, true, 0);
        // They'd better concern the same datasets
        if let Some(o) = ops.last() {
            if s.bool() {
                let p = o.path().clone();
                match &mut op { Op::Create(q, _) | Op::Destroy(q) | Op::Set(q, _) | Op::Stat(q, _) | Op::Mount(q, _) | Op::Unmount(q, _) => *q = p }
            }
        }
        if let Op::Mount(p, _) = &op {
            let mp = w.m.mountpoint_of(p);
            if ops.iter().any(|o| matches!(o, Op::Mount(q, _) if q != p && mp.is_some() && w.m.mountpoint_of(q) == mp)) || w.m.occupied(p) {
                op = Op::Stat(p.clone(), vec![PropertyName::Name]);
            }
        }
        ops.push(op);
    }
    let mut conns = Vec::new();
    for _ in 0..n { conns.push(connect(&w.sock, if s.chance(1, 8) { w.me + 1 } else { w.me }).await) }
    let rs = join_all(ops.iter().zip(&conns).map(|(op, c)| op.ask(&c.c, w.m.name(op.path())))).await;
    s.note(format!("at once: {:?}", ops.iter().zip(&rs).collect::<Vec<_>>()));
    s.class("several at once");
    let got = w.view(&w.mine().c).await?;
    let mounts = w.mounts();
    let mut best = None;
    for p in permutations(n) {
        let mut m = w.m.clone();
        let ok = p.iter().all(|i| {
            let want = if ops[*i].changes() && conns[*i].uid != w.me { Err(Error::EPERM) } else { ops[*i].apply(&mut m) };
            rs[*i] == want.map_err(CError::Other)
        });
        if ok {
            if m.view() == got && m.mounted() == mounts { w.m = m; return Ok(()) }
            best = Some(m);
        }
    }
    match best {
        None => fail(format!("no order explains the results of {:?}", ops.iter().zip(&rs).collect::<Vec<_>>())),
        Some(m) => {
            ensure_eq!(got, m.view(), "the datasets after {ops:?}");
            ensure_eq!(mounts, m.mounted(), "what is mounted after {ops:?}");
            Ok(())
        }
    }
}

async fn step(s: &mut Src, w: &mut W, long: usize) -> R {
    match s.weighted(&[30, 6, 6, 4, 4, 4, 3, 3, 1]) {
        0 => one(s, w, long).await?,
        1 => several(s, w).await?,
        2 => {
            // lists, in full and resumed
            let p = any_path(s, &w.m, 9, 0);
            let depth = *s.pick(&[0usize, 1, 1, 2, 3, usize::MAX]);
            let n = s.urange(1, 4);
            let props: Vec<PropertyName> = (0..n).map(|_| *s.pick(PROPS)).collect();
            let c = &w.conns[s.idx(w.conns.len())];
            let name = w.m.name(&p);
            s.note(format!("list {name}, depth {depth}, {props:?}"));
            s.class("list");
            let got = list(&c.c, name.clone(), props.clone(), None, depth).await?;
            let want: Vec<_> = w.m.under(&p, depth).iter().map(|p| (w.m.name(p), props.iter().map(|n| w.m.prop(p, *n)).collect::<Vec<_>>())).collect();
            if w.m.get(&p).is_none() { ensure!(got.is_none(), "list of {name}: {got:?}"); return Ok(()) }
            let Some(got) = got else { return fail(format!("list of {name}: ENOENT")) };
            ensure!(got.first().is_some_and(|x| x.0 == name), "list of {name} does not begin with it");
            for (i, x) in got.iter().enumerate().skip(1) {
                let parent = x.0.rsplit_once('/').unwrap().0;
                ensure!(got[..i].iter().any(|y| y.0 == parent), "{} is listed before its parent", x.0);
            }
            if got.len() > 64 { s.class("long lists") }
            let mut a: Vec<_> = got.iter().map(|x| (x.0.clone(), x.1.clone())).collect();
            a.sort();
            let mut b = want;
            b.sort();
            ensure_eq!(a, b, "list of {name}");
            if depth == 1 && got.len() > 1 {
                let i = s.urange(1, got.len() - 1);
                let rest = list(&c.c, name.clone(), props, Some(got[i].2), 1).await?.unwrap_or_default();
                let a: Vec<_> = rest.iter().skip(1).map(|x| &x.0).collect();
                let b: Vec<_> = got[i + 1..].iter().map(|x| &x.0).collect();
                ensure_eq!(a, b, "list of {name} after the {i}th");
            }
        }
        3 => garbage(s, w).await?,
        4 => {
            // the pool
            let ci = s.idx(w.conns.len());
            let c = &w.conns[ci];
            let own = c.uid == w.me;
            let right = s.chance(3, 4);
            let pool = if right { w.m.pool.clone() } else { "other".into() };
            let perm = |r: Result<(), Error>| if own { r } else { Err(Error::EPERM) }.map_err(CError::Other);
            let there = if right { Ok(()) } else { Err(Error::ENOENT) };
            let st = w.server.controller().get_pool_status(&w.m.pool).await.unwrap();
            match s.weighted(&[3, 3, 3, 3, 3, 3, 3, 2]) {
                0 => {
                    s.class("pool list");
                    let arg = if s.bool() { Some(pool.clone()) } else { None };
                    let want = if arg.is_none() || right { vec![Ok(w.m.pool.clone())] } else { vec![Err(CError::Other(Error::ENOENT))] };
                    let got: Vec<_> = c.c.pool_list(arg, None).boxed().map(|r| r.map(|i| i.name)).collect().await;
                    ensure_eq!(got, want, "pool list");
                }
                1 => {
                    s.class("pool status");
                    let got = c.c.pool_status(pool).await;
                    if !right { ensure_eq!(got.map(drop), Err(CError::Other(Error::ENOENT)), "status of another pool"); return Ok(()) }
                    let Ok(got) = got else { return fail(format!("pool status: {got:?}")) };
                    ensure_eq!((&got.name, got.health, got.uuid), (&st.name, st.health, st.uuid), "pool status");
                    ensure_eq!(&got.name, &w.m.pool, "the pool's name");
                    ensure_eq!(got.clusters.len(), st.clusters.len(), "number of clusters");
                    for (a, b) in got.clusters.iter().zip(&st.clusters) {
                        ensure_eq!((a.health, &a.codec, a.uuid, a.mirrors.len()), (b.health, &b.codec, b.uuid, b.mirrors.len()), "cluster status");
                        for (a, b) in a.mirrors.iter().zip(&b.mirrors) {
                            ensure_eq!((a.health, a.uuid, a.leaves.len()), (b.health, b.uuid, b.leaves.len()), "mirror status");
                            for (a, b) in a.leaves.iter().zip(&b.leaves) {
                                ensure_eq!((a.health, &a.path, a.uuid), (b.health, &b.path, b.uuid), "leaf status");
                            }
                        }
                    }
                }
                2 => {
                    s.class("clean");
                    ensure_eq!(c.c.pool_clean(pool).await, perm(there), "{} cleans", c.uid);
                }
                3 => {
                    s.class("drop cache");
                    ensure_eq!(c.c.drop_cache().await, perm(Ok(())), "{} drops the cache", c.uid);
                }
                4 => {
                    // A disk that isn't the last good one of its mirror
                    let mut v = Vec::new();
                    for cl in &st.clusters { for m in &cl.mirrors {
                        let good: Vec<_> = m.leaves.iter().filter(|l| l.health == Health::Online).collect();
                        if good.len() > 1 { v.extend(good.iter().map(|l| (l.uuid, l.path.clone()))) }
                    } }
                    if v.is_empty() { return Ok(()) }
                    let (uuid, path) = s.pick(&v).clone();
                    let r = if s.bool() { c.c.pool_fault(pool, uuid).await } else if right { c.c.pool_fault(pool, path.clone()).await } else { c.c.pool_fault("other".into(), uuid).await };
                    s.note(format!("{} faults {uuid} = {r:?}", c.uid));
                    s.class("fault");
                    ensure_eq!(r, perm(there), "{} faults a disk", c.uid);
                    let st = w.server.controller().get_pool_status(&w.m.pool).await.unwrap();
                    let h = st.clusters.iter().flat_map(|c| &c.mirrors).flat_map(|m| &m.leaves).find(|l| l.uuid == uuid).map(|l| l.health);
                    if own && right { ensure!(matches!(h, Some(Health::Faulted(_))), "the disk's health is {h:?}") }
                    else { ensure_eq!(h, Some(Health::Online), "health of a disk that nobody may fault") }
                }
                5 => {
                    s.class("fault nothing");
                    let r = c.c.pool_fault(pool.clone(), PathBuf::from("/no such disk")).await;
                    let want = if right { CError::NoDevice } else { CError::Other(Error::ENOENT) };
                    ensure_eq!(r, Err(want), "fault of no disk");
                    let r = c.c.pool_fault(pool, Uuid::new_v4()).await;
                    ensure!(r.is_err(), "fault of no disk worked");
                    if !own { ensure_eq!(r, Err(CError::Other(Error::EPERM)), "{} faults no disk", c.uid) }
                }
                7 => {
                    // One more disk for a mirror
                    let v: Vec<_> = st.clusters.iter().flat_map(|c| &c.mirrors)
                        .filter(|m| m.leaves.len() < 4 && m.leaves.iter().any(|l| l.health == Health::Online)).collect();
                    if v.is_empty() { return Ok(()) }
                    let m = *s.pick(&v);
                    let disk = Disk::new(w.rig.geo.disk_lbas * LBA);
                    w.rig.world.attach(&disk.path);
                    let path = disk.path.clone();
                    w.rig.disks.push(disk);
                    // KNOWN: what's written during rebuilding may not get to the new disk (C25)
                    ensure_eq!(w.server.controller().sync_transaction().await, Ok(()), "sync");
                    let r = if right && s.bool() { c.c.pool_attach(pool.clone(), m.leaves[0].path.clone(), path.clone()).await }
                        else { c.c.pool_attach(pool.clone(), m.uuid, path.clone()).await };
                    s.note(format!("{} attaches {path:?} to a mirror of {pool} = {r:?}", c.uid));
                    ensure_eq!(r, perm(there), "{} attaches a disk", c.uid);
                    let leaf = async || {
                        let st = w.server.controller().get_pool_status(&w.m.pool).await.unwrap();
                        st.clusters.iter().flat_map(|c| &c.mirrors).find(|x| x.uuid == m.uuid).unwrap().leaves.iter().find(|l| l.path == path).map(|l| l.health)
                    };
                    if r.is_err() { ensure_eq!(leaf().await, None, "a disk that was not attached"); return Ok(()) }
                    s.class("attach");
                    for i in 0.. {
                        match leaf().await {
                            Some(Health::Online) => break,
                            x => ensure!(x.is_some() && i < 1000, "the attached disk is {x:?}"),
                        }
                        tokio::time::sleep(Duration::from_millis(10)).await;
                    }
                }
                _ => {
                    s.class("attach nothing");
                    let m = st.clusters[0].mirrors[0].uuid;
                    let r = c.c.pool_attach(pool, m, PathBuf::from("/no such disk")).await;
                    ensure!(r.is_err(), "attaching no disk worked");
                    if !own { ensure_eq!(r, Err(CError::Other(Error::EPERM)), "{} attaches a disk", c.uid) }
                    else if !right { ensure_eq!(r, Err(CError::Other(Error::ENOENT)), "attach to another pool") }
                    let now = w.server.controller().get_pool_status(&w.m.pool).await.unwrap();
                    ensure_eq!(format!("{now:?}"), format!("{st:?}"), "status after attaching nothing");
                }
            }
        }
        5 => {
            // connections come and go
            if w.conns.len() > 2 && s.bool() {
                let i = s.urange(1, w.conns.len() - 1);
                s.note(format!("{} disconnects", w.conns[i].uid));
                w.conns.remove(i);
            } else {
                let uid = w.me + s.below(3) as u32;
                s.note(format!("{uid} connects"));
                w.conns.push(connect(&w.sock, uid).await);
            }
        }
        6 => {
            // The session ends, say by umount(8)
            let up: Vec<P> = w.m.all().into_iter().filter(|p| w.m.get(p).unwrap().mounted.is_some()).collect();
            if up.is_empty() { return Ok(()) }
            let p = s.pick(&up).clone();
            s.note(format!("{} is unmounted", w.m.name(&p)));
            s.class("unmounted by the kernel");
            let mp = w.m.get_mut(&p).unwrap().mounted.take().unwrap();
            ensure!(fuse3::raw::end(&mp), "{mp:?} was not mounted");
        }
        7 => {
            // Someone goes away in the middle
            let op = any_op(s, &w.m, true, 0);
            let c = connect(&w.sock, w.me + 1).await;
            s.note(format!("somebody asks {op:?} and leaves"));
            s.class("gone before the reply");
            let name = w.m.name(op.path());
            let _ = op.ask(&c.c, name).now_or_never();
        }
        _ => {
            s.note("sleep");
            tokio::time::sleep(Duration::from_secs(s.range(1, 12))).await
        }
    }
    Ok(())
}

/// Messages that no client sends
async fn garbage(s: &mut Src, w: &mut W) -> R {
    let (user, daemon) = UnixSeqpacket::between(w.me + s.below(2) as u32, w.me);
    let h = tokio::spawn(w.server.clone().serve(daemon));
    let n = s.urange(1, 3);
    for _ in 0..n {
        // Nothing that could mean something, should it be understood
        let mut b = any_request(s).write_to_vec().unwrap();
        match s.idx(4) {
            0 => { let n = s.urange(1, b.len()); b.truncate(n); if n == b.len() { b.pop(); } }
            1 => { let len = s.urange(1, 40); b = s.bytes(len) }
            2 => { let i = s.idx(b.len()); b[i] ^= 1 << s.below(8) }
            _ => { let len = s.urange(4090, 5000); b = s.bytes(len) }
        }
        if b.is_empty() { continue }
        s.note(format!("garbage of {} bytes: {}", b.len(), clip(&format!("{b:?}"))));
        s.class("garbage");
        if user.send(&b).await.is_err() { break }
        let mut r = vec![0; 65536];
        let n = user.recv(&mut r).await.unwrap();
        if n == 0 { break }
        ensure!(Response::read_from_buffer(&r[..n]).is_ok(), "the response can't be decoded");
    }
    drop(user);
    match tokio::time::timeout(Duration::from_secs(60), h).await {
        Err(_) => fail("a connection does not end after the client's left"),
        Ok(Err(e)) => fail(format!("a message made the daemon panic: {e}")),
        Ok(Ok(())) => Ok(()),
    }
}

fn session(s: &mut Src) -> R {
    let geo = any_geometry(s, 1, 4);
    s.note(format!("{geo:?}"));
    let seed = s.any();
    let delay = s.below(3) as u32;
    let mut rig = Rig::new(geo, seed, delay);
    rig.name = format!("tank{:x}", s.any());
    let prefix = format!("/{}", rig.name);
    let _ = nix::mount::HOOK.set(fuse3::raw::end);
    let r = rt::run(async {
        let db = std::sync::Arc::try_unwrap(rig.create().await).ok().unwrap();
        let m = Model { pool: rig.name.clone(), root: None };
        let sock = PathBuf::from("/var/run/bfffsd.sock");
        let mut listener = tokio_seqpacket::UnixSeqpacketListener::bind(&sock).unwrap();
        let server = Server::new(db);
        let sv = server.clone();
        tokio::spawn(async move {
            while let Ok(peer) = listener.accept().await { tokio::spawn(sv.clone().serve(peer)); }
        });
        let me = euid();
        let first = connect(&sock, me).await;
        let mut w = W { rig, server, sock, conns: vec![first], m, me };
        if s.chance(9, 10) {
            let op = Op::Create(vec![], vec![]);
            ensure_eq!(op.ask(&w.conns[0].c, w.m.pool.clone()).await, Ok(Out::Done), "create the pool's root");
            let _ = op.apply(&mut w.m);
        }
        let long = *s.pick(&[0usize, 0, 30, 90, 250]);
        let n = s.urange(1, 60);
        let bulk = if w.m.root.is_some() && s.chance(1, 4) { s.urange(10, 200) } else { 0 };
        if bulk > 0 {
            s.class("many datasets");
            s.note(format!("{bulk} datasets with names up to {long} long"));
            for i in 0..bulk {
                let mut x = format!("d{i}");
                while x.len() < long && s.chance(9, 10) { x += "xxxxxxxx"; }
                let op = Op::Create(vec![x], vec![]);
                let name = w.m.name(op.path());
                ensure_eq!(op.ask(&w.mine().c, name).await, Ok(Out::Done), "create");
                let _ = op.apply(&mut w.m);
            }
        }
        for _ in 0..n { step(s, &mut w, long).await?; }
        if n >= 15 && w.conns.len() > 1 { s.nontrivial(); }
        w.check().await?;
        fuse3::raw::end_all(&prefix);
        ensure!(matches!(w.server.controller().check().await, Ok(true)), "check of the pool failed");
        Ok(())
    });
    fuse3::raw::set_mount_error(None);
    fuse3::raw::end_all(&prefix);
    tokio_seqpacket::reset();
    r
}

/// A mounted file system can't be unmounted after the mountpoint that it inherited was changed
fn moved_mountpoint(_s: &mut Src) -> R {
    let geo = Geometry { clusters: vec![Raid::single()], zone: 256, disk_lbas: 256 * 16, cache: 16 << 20, writeback: 64 << 20 };
    let mut rig = Rig::new(geo, 1, 0);
    rig.name = "moved".into();
    let _ = nix::mount::HOOK.set(fuse3::raw::end);
    let r = rt::run(async {
        let db = std::sync::Arc::try_unwrap(rig.create().await).ok().unwrap();
        let server = Server::new(db);
        let (user, daemon) = UnixSeqpacket::between(euid(), euid());
        tokio::spawn(server.serve(daemon));
        let ask = async |q: Request| {
            user.send(&q.write_to_vec().unwrap()).await.unwrap();
            let mut b = vec![0; 4096];
            let n = user.recv(&mut b).await.unwrap();
            Response::read_from_buffer(&b[..n]).unwrap()
        };
        ask(rpc::fs::create("moved".into(), vec![])).await.into_fs_create().unwrap();
        ask(rpc::fs::create("moved/a".into(), vec![])).await.into_fs_create().unwrap();
        ask(rpc::fs::mount("moved/a".into())).await.into_fs_mount().unwrap();
        ask(rpc::fs::set("moved".into(), vec![Property::Mountpoint("/moved/b".into())])).await.into_fs_set().unwrap();
        ensure_eq!(ask(rpc::fs::unmount("moved/a".into(), false)).await.into_fs_unmount(), Ok(()), "unmount");
        Ok(())
    });
    fuse3::raw::end_all("/moved");
    r
}

fn any_string(s: &mut Src) -> String {
    let n = s.skew(0, 300) as usize;
    (0..n).map(|_| char::from_u32(s.skew(1, 0x2fff) as u32).unwrap_or('x')).collect()
}
fn any_pathbuf(s: &mut Src) -> PathBuf {
    let n = s.skew(0, 300) as usize;
    OsString::from_vec(s.bytes(n)).into()
}
fn any_uuid(s: &mut Src) -> Uuid { let b = s.bytes(16); Uuid::from_uuid(uuid::Uuid::from_slice(&b).unwrap()) }
fn any_prop(s: &mut Src) -> Property {
    match s.idx(5) {
        0 => Property::Atime(s.bool()),
        1 => Property::RecordSize(s.any() as u8),
        2 => Property::Mountpoint(any_string(s)),
        3 => Property::BaseMountpoint(any_string(s)),
        _ => Property::Name(any_string(s)),
    }
}
fn any_propname(s: &mut Src) -> PropertyName {
    *s.pick(&[PropertyName::Atime, PropertyName::BaseMountpoint, PropertyName::Mountpoint, PropertyName::Name, PropertyName::RecordSize])
}
fn many<T>(s: &mut Src, max: u64, f: impl Fn(&mut Src) -> T) -> Vec<T> {
    let n = s.skew(0, max);
    (0..n).map(|_| f(s)).collect()
}
fn maybe<T>(s: &mut Src, f: impl Fn(&mut Src) -> T) -> Option<T> { if s.bool() { Some(f(s)) } else { None } }
fn any_request(s: &mut Src) -> Request {
    match s.idx(13) {
        0 => Request::DebugDropCache,
        1 => rpc::fs::create(any_string(s), many(s, 5, any_prop)),
        2 => rpc::fs::destroy(any_string(s)),
        3 => rpc::fs::list(any_string(s), many(s, 5, any_propname), maybe(s, Src::any)),
        4 => rpc::fs::mount(any_string(s)),
        5 => rpc::fs::set(any_string(s), many(s, 5, any_prop)),
        6 => rpc::fs::stat(any_string(s), many(s, 5, any_propname)),
        7 => rpc::fs::unmount(any_string(s), s.bool()),
        8 => rpc::pool::clean(any_string(s)),
        9 => rpc::pool::fault(any_string(s), any_uuid(s)),
        10 => rpc::pool::attach(any_string(s), any_uuid(s), any_pathbuf(s)),
        11 => rpc::pool::list(maybe(s, any_string), maybe(s, Src::any)),
        _ => rpc::pool::status(any_string(s)),
    }
}
fn any_health(s: &mut Src) -> Health {
    match s.idx(4) {
        0 => Health::Online,
        1 => Health::Degraded(NonZeroU8::new(s.range(1, 255) as u8).unwrap()),
        _ => Health::Faulted(*s.pick(&[FaultedReason::Removed, FaultedReason::InsufficientRedundancy, FaultedReason::User])),
    }
}
const ERRORS: &[Error] = &[Error::EPERM, Error::ENOENT, Error::EIO, Error::EINVAL, Error::EBUSY, Error::EEXIST, Error::ENXIO, Error::ENOSPC, Error::EINTEGRITY, Error::ENOTEMPTY];
fn any_result<T>(s: &mut Src, f: impl Fn(&mut Src) -> T) -> Result<T, Error> {
    if s.chance(1, 3) { Err(*s.pick(ERRORS)) } else { Ok(f(s)) }
}
fn any_dsinfo(s: &mut Src) -> rpc::fs::DsInfo {
    rpc::fs::DsInfo {
        name: any_string(s),
        props: many(s, 5, |s| (any_prop(s), match s.idx(3) { 0 => PropertySource::None, 1 => PropertySource::Default, _ => PropertySource::Set(s.any() as u8) })),
        offset: s.any(),
    }
}
fn any_status(s: &mut Src) -> rpc::pool::PoolStatus {
    use rpc::pool::*;
    PoolStatus {
        health: any_health(s),
        name: any_string(s),
        clusters: many(s, 3, |s| ClusterStatus {
            health: any_health(s),
            codec: any_string(s),
            mirrors: many(s, 4, |s| MirrorStatus {
                leaves: many(s, 3, |s| LeafStatus { health: any_health(s), path: any_pathbuf(s), uuid: any_uuid(s) }),
                health: any_health(s),
                uuid: any_uuid(s),
            }),
            uuid: any_uuid(s),
        }),
        uuid: any_uuid(s),
    }
}
fn any_response(s: &mut Src) -> Response {
    let unit = |_: &mut Src| ();
    match s.idx(12) {
        0 => Response::DebugDropCache(any_result(s, unit)),
        1 => Response::FsDestroy(any_result(s, unit)),
        2 => Response::FsList(any_result(s, |s| many(s, 6, any_dsinfo))),
        3 => Response::FsMount(any_result(s, unit)),
        4 => Response::FsSet(any_result(s, unit)),
        5 => Response::FsStat(any_result(s, any_dsinfo)),
        6 => Response::FsUnmount(any_result(s, unit)),
        7 => Response::PoolClean(any_result(s, unit)),
        8 => Response::PoolFault(any_result(s, unit)),
        9 => Response::PoolAttach(any_result(s, unit)),
        10 => Response::PoolList(any_result(s, |s| many(s, 4, |s| rpc::pool::PoolInfo { name: any_string(s), offs: s.any() }))),
        _ => Response::PoolStatus(any_result(s, any_status)),
    }
}

/// What is sent is what is received; what isn't a request is refused, or read as another one.
/// (The daemon must be ready for any bytes, but the client may trust the daemon.)
fn messages(s: &mut Src) -> R {
    fn trip<T>(s: &mut Src, x: T, mutate: bool) -> R
        where T: std::fmt::Debug + Writable<speedy::LittleEndian> + for<'a> Readable<'a, speedy::LittleEndian>
    {
        let want = format!("{x:?}");
        s.note(clip(&want));
        let b = x.write_to_vec().unwrap();
        if b.len() > 60 { s.nontrivial() }
        let y = match T::read_from_buffer(&b) { Ok(y) => y, Err(e) => return fail(format!("{want} can't be decoded: {e}")) };
        ensure_eq!(format!("{y:?}"), want, "decoded message");
        ensure_eq!(y.write_to_vec().unwrap(), b, "{want}, encoded again");
        // Something's been cut off
        let n = s.idx(b.len());
        ensure!(T::read_from_buffer(&b[..n]).is_err(), "{n} bytes of {} are taken for a whole message: {want}", b.len());
        if !mutate { return Ok(()) }
        // Something's been changed
        let mut c = b.clone();
        for _ in 0..s.urange(1, 4) { let i = s.idx(c.len()); c[i] = s.any() as u8; }
        if let Ok(z) = T::read_from_buffer(&c) {
            let d = z.write_to_vec().unwrap();
            let t = T::read_from_buffer(&d);
            ensure!(t.is_ok(), "{z:?} can't be decoded");
            ensure_eq!(format!("{:?}", t.ok().unwrap()), format!("{z:?}"), "decoded message");
        }
        Ok(())
    }
    if s.bool() { let x = any_request(s); trip(s, x, true) } else { let x = any_response(s); trip(s, x, false) }
}

pub fn checks() -> Vec<Check> {
    vec![
        Check::known("moved-mountpoint", moved_mountpoint),
        Check::new("session", "15 steps or more, and several clients", 40000, 800000, session),
        Check::new("messages", "messages longer than 60 bytes", 400000, 8000000, messages),
    ]
}
