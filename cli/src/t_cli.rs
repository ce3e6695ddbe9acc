//! C35: the command line does what it is told, and shows what is
use crate::{rt, t_daemon::*, world::*};
use bfffs_client::Error as CError;
use bfffs_core::{
    pool::Status,
    cache::Cache, ddml::DDML, idml::IDML, database::{Database, Manager, TreeID},
    property::{Property, PropertyName, PropertySource},
    vdev::Health,
    Error, TxgT, Uuid,
};
use bfffs_daemon::Server;
use bfffs_tool::{run, Done};
use engine::*;
use std::{path::PathBuf, sync::{Arc, Mutex}, time::Duration};

const SOCK: &str = "/var/run/bfffsd.sock";

fn pname(n: PropertyName) -> &'static str {
    match n {
        PropertyName::Atime => "atime", PropertyName::BaseMountpoint => "basemountpoint", PropertyName::Mountpoint => "mountpoint",
        PropertyName::Name => "name", PropertyName::RecordSize => "recordsize",
    }
}
fn value(p: &Property) -> String {
    match p {
        Property::Atime(x) => (if *x { "on" } else { "off" }).into(),
        Property::RecordSize(x) => (1u64 << x).to_string(),
        Property::Mountpoint(x) | Property::BaseMountpoint(x) | Property::Name(x) => x.clone(),
    }
}
fn human(p: &Property) -> String {
    match p {
        Property::RecordSize(x) if *x >= 20 => format!("{} MiB", 1u64 << (x - 20)),
        Property::RecordSize(x) => format!("{} kiB", 1u64 << (x - 10)),
        p => value(p),
    }
}
fn source(p: PropertySource) -> &'static str {
    match p { PropertySource::None => "none", PropertySource::Default => "default", PropertySource::Set(0) => "local", PropertySource::Set(_) => "inherited" }
}
/// A property setting, as one may write it
fn setting(s: &mut Src, p: &Property) -> String {
    match p {
        Property::Atime(true) => (*s.pick(&["atime=on", "atime=true", "atime"])).into(),
        Property::Atime(false) => (*s.pick(&["atime=off", "atime=false"])).into(),
        Property::RecordSize(x) => format!("{}={}", s.pick(&["recordsize", "recsize"]), 1u64 << x),
        p => format!("{}={}", pname(p.name()), value(p)),
    }
}
fn words(s: &[&str]) -> Vec<String> { s.iter().map(|x| x.to_string()).collect() }
/// An option and its value, in one of the ways to write them
fn opt(s: &mut Src, short: &str, long: &str, v: &str) -> Vec<String> {
    match s.idx(4) {
        0 => vec![short.into(), v.into()],
        1 => vec![format!("{short}{v}")],
        2 => vec![format!("--{long}={v}")],
        _ => vec![format!("--{long}"), v.into()],
    }
}
/// A list for an option: separated by commas, or in several options
fn opts(s: &mut Src, short: &str, long: &str, v: &[String]) -> Vec<String> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < v.len() {
        let n = s.urange(1, v.len() - i);
        out.extend(opt(s, short, long, &v[i..i + n].join(",")));
        i += n;
    }
    out
}

struct W { rig: Rig, server: Server, m: Model, me: u32 }

/// What's expected of a command
struct Want { code: i32, out: Option<Vec<String>>, err: String }
fn fails(e: CError) -> Want { Want { code: 1, out: None, err: format!("{e}\n") } }
fn ok(out: Vec<String>) -> Want { Want { code: 0, out: Some(out), err: String::new() } }

async fn command(s: &mut Src, uid: u32, args: Vec<String>) -> Done {
    tokio_seqpacket::set_uid(uid);
    let shown = args.join(" ");
    let d = run(args).await;
    s.note(format!("{uid}: bfffs {shown} = {} {:?}", d.code, clip(&d.err)));
    d
}
async fn expect(s: &mut Src, uid: u32, args: Vec<String>, want: Want) -> R {
    let shown = args.join(" ");
    let d = command(s, uid, args).await;
    ensure_eq!((d.code, &d.err), (want.code, &want.err), "bfffs {shown}");
    if let Some(o) = want.out {
        let got: Vec<String> = d.out.lines().map(str::to_string).collect();
        ensure_eq!(got, o, "output of bfffs {shown}");
    }
    Ok(())
}

/// The table that shows the status of a pool
fn table(st: &Status, uuid: bool) -> Vec<String> {
    let row = |depth: usize, name: &str, u: Uuid, h: Health| {
        let h = match h {
            Health::Online => "Online".to_string(),
            Health::Degraded(n) => format!("Degraded({n})"),
            Health::Faulted(bfffs_core::vdev::FaultedReason::Removed) => "Faulted(removed)".into(),
            Health::Faulted(bfffs_core::vdev::FaultedReason::User) => "Faulted(administratively)".into(),
            Health::Faulted(_) => "Faulted".into(),
        };
        let n = format!("{}{name}", "  ".repeat(depth));
        if uuid { format!("{n}\t{u}\t{h}") } else { format!("{n}\t{h}") }
    };
    let mut v = vec![(if uuid { "NAME\tUUID\tHEALTH" } else { "NAME\tHEALTH" }).to_string(), row(0, &st.name, st.uuid, st.health)];
    for c in &st.clusters {
        let mut d = 1;
        if c.mirrors.len() > 1 { v.push(row(d, &c.codec, c.uuid, c.health)); d += 1 }
        for m in &c.mirrors {
            let mut d = d;
            if m.leaves.len() > 1 || matches!(m.health, Health::Faulted(_)) { v.push(row(d, "mirror", m.uuid, m.health)); d += 1 }
            for l in &m.leaves { v.push(row(d, l.path.to_str().unwrap(), l.uuid, l.health)) }
        }
    }
    v
}

async fn step(s: &mut Src, w: &mut W) -> R {
    let uid = if s.chance(1, 10) { w.me + 1 } else { w.me };
    let own = uid == w.me;
    match s.weighted(&[12, 6, 6, 8, 1]) {
        0 => {
            // Something about one dataset or several
            let op = any_op(s, &w.m, false, 0);
            if let Op::Mount(p, e) = &op { if e.is_some() || w.m.occupied(p) { return Ok(()) } }
            if matches!(op, Op::Stat(..)) { return Ok(()) }
            let was = w.m.get(op.path()).and_then(|d| d.mounted.clone());
            let name = w.m.name(op.path());
            let (args, all) = match &op {
                Op::Create(_, props) => {
                    let v: Vec<String> = props.iter().map(|p| setting(s, p)).collect();
                    let mut a = words(&["fs", "create"]);
                    let o = opts(s, "-o", "properties", &v);
                    if s.bool() { a.extend(o); a.push(name) } else { a.push(name); a.extend(o) }
                    (a, vec![op.clone()])
                }
                Op::Destroy(_) => (words(&["fs", "destroy", &name]), vec![op.clone()]),
                Op::Set(p, props) => {
                    let v: Vec<String> = props.iter().map(|p| setting(s, p)).collect();
                    let mut a = words(&["fs", "set", &v.join(","), &name]);
                    let mut all = vec![op.clone()];
                    while s.chance(1, 3) {
                        let q = any_path(s, &w.m, 9, 0);
                        // See any_props
                        if props.iter().any(|x| x.name() == PropertyName::Mountpoint) && w.m.under(&q, usize::MAX).iter().any(|q| w.m.get(q).unwrap().mounted.is_some()) { continue }
                        if q == *p { continue }
                        a.push(w.m.name(&q));
                        all.push(Op::Set(q, props.clone()));
                    }
                    (a, all)
                }
                Op::Mount(..) => (words(&["fs", "mount", &name]), vec![op.clone()]),
                Op::Unmount(_, f) => {
                    let mut a = words(&["fs", "unmount"]);
                    if *f { a.push((*s.pick(&["-f", "--force"])).into()) }
                    a.push(name);
                    (a, vec![op.clone()])
                }
                Op::Stat(..) => unreachable!(),
            };
            let mut want = ok(vec![]);
            if matches!(op, Op::Create(..) | Op::Set(..)) && s.chance(1, 12) {
                // Along with something that isn't a setting
                let bad = *s.pick(&["atime=maybe", "recordsize=3000", "name=x", "basemountpoint=/x", "colour=blue", "recordsize", "recsize=2097152", "ATIME=on"]);
                let mut args = args;
                if matches!(op, Op::Create(..)) { args.extend(["-o".into(), bad.into()]) } else { args[2] = format!("{},{bad}", args[2]) }
                s.class("bad settings");
                let shown = args.join(" ");
                let d = command(s, uid, args).await;
                ensure_eq!((d.code, d.out.as_str()), (2, ""), "bfffs {shown}");
                ensure!(d.err.contains(bad), "bfffs {shown} says {:?}", d.err);
                // It did nothing
                let p = op.path();
                let r = w.server.controller().get_prop(w.m.name(p), PropertyName::Atime).await;
                ensure_eq!(r, w.m.get(p).map(|_| w.m.prop(p, PropertyName::Atime)).ok_or(Error::ENOENT), "atime of {}", w.m.name(p));
                return Ok(())
            }
            for o in all {
                let r = if own { o.apply(&mut w.m) } else { Err(Error::EPERM) };
                if let Err(e) = r { want = fails(CError::Other(e)); break }
            }
            s.class(if want.code == 0 { "changes" } else { "refused changes" });
            let done = want.code == 0;
            expect(s, uid, args, want).await?;
            if let (Op::Unmount(_, f), Some(mp), true) = (&op, was, done) { ensure_eq!(nix::mount::forced(&mp), Some(*f), "unmounted by force") }
        }
        1 => {
            // fs get
            s.class("get");
            let props: Vec<PropertyName> = (0..s.urange(1, 4)).map(|_| *s.pick(PROPS)).collect();
            let fields: Option<Vec<usize>> = if s.bool() { None } else { Some((0..s.urange(1, 5)).map(|_| s.idx(4)).collect()) };
            let srcs: Option<Vec<&str>> = if s.chance(2, 3) { None } else { Some((0..s.urange(1, 3)).map(|_| *s.pick(&["local", "default", "inherited", "none"])).collect()) };
            let (parse, depth, dargs) = (s.bool(), s.idx(5), s.bool());
            let depth = match depth { 0 | 1 => 0, 2 => usize::MAX, 3 => 1, _ => 2 };
            let ds: Vec<P> = (0..s.urange(1, 3)).map(|_| any_path(s, &w.m, 9, 0)).collect();
            let mut a = words(&["fs", "get"]);
            let mut o: Vec<Vec<String>> = Vec::new();
            if parse { o.push(words(&[*s.pick(&["-p", "--parseable"])])) }
            let fnames = ["name", "property", "value", "source"];
            if let Some(f) = &fields { let v: Vec<String> = f.iter().map(|f| fnames[*f].to_string()).collect(); o.push(opts(s, "-o", "fields", &v)) }
            if let Some(f) = &srcs { let v: Vec<String> = f.iter().map(|f| f.to_string()).collect(); o.push(opts(s, "-s", "sources", &v)) }
            if depth == usize::MAX { o.push(words(&[*s.pick(&["-r", "--recursive"])])) }
            else if depth > 0 || dargs { o.push(opt(s, "-d", "depth", &depth.to_string())) }
            a.extend(o.concat());
            a.push(props.iter().map(|p| pname(*p)).collect::<Vec<_>>().join(","));
            a.extend(ds.iter().map(|p| w.m.name(p)));
            let fields = fields.unwrap_or(vec![0, 1, 2, 3]);
            if ds.iter().any(|p| w.m.get(p).is_none()) { return expect(s, uid, a, fails(CError::Other(Error::ENOENT))).await }
            let mut all: Vec<P> = ds.iter().flat_map(|p| w.m.under(p, depth)).collect();
            all.sort_by_key(|p| w.m.name(p));
            let mut out = Vec::new();
            if !parse { out.push(fields.iter().map(|f| fnames[*f].to_uppercase()).collect::<Vec<_>>().join("\t")) }
            for p in all { for n in &props {
                let (v, src) = w.m.prop(&p, *n);
                if srcs.as_ref().is_some_and(|x| !x.contains(&source(src))) { continue }
                let cells = [w.m.name(&p), pname(*n).to_string(), if parse { value(&v) } else { human(&v) }, source(src).to_string()];
                out.push(fields.iter().map(|f| cells[*f].clone()).collect::<Vec<_>>().join("\t"));
            } }
            expect(s, uid, a, ok(out)).await?;
        }
        2 => {
            // fs list
            s.class("list");
            let props: Option<Vec<PropertyName>> = if s.bool() { None } else { Some((0..s.urange(1, 4)).map(|_| *s.pick(PROPS)).collect()) };
            let listed = props.clone().unwrap_or(vec![PropertyName::Name]);
            let sort: Option<Vec<PropertyName>> = if s.chance(1, 3) { None } else { Some((0..s.urange(1, 3)).map(|_| if s.chance(9, 10) { *s.pick(&listed) } else { *s.pick(PROPS) }).collect()) };
            let (parse, depth) = (s.bool(), *s.pick(&[0, 0, 1, 2, usize::MAX, usize::MAX]));
            let ds: Vec<P> = if s.bool() { vec![vec![]] } else { (0..s.urange(0, 3)).map(|_| any_path(s, &w.m, 9, 0)).collect() };
            let mut a = words(&["fs", "list"]);
            if parse { a.push((*s.pick(&["-p", "--parseable"])).into()) }
            if let Some(f) = &props { let v: Vec<String> = f.iter().map(|f| pname(*f).to_string()).collect(); a.extend(opts(s, "-o", "properties", &v)) }
            if let Some(f) = &sort { for f in f { a.extend(opt(s, "-s", "sort", pname(*f))) } }
            if depth == usize::MAX { a.push("-r".into()) } else if depth > 0 { a.extend(opt(s, "-d", "depth", &depth.to_string())) }
            a.extend(ds.iter().map(|p| w.m.name(p)));
            let props = props.unwrap_or(vec![PropertyName::Name]);
            let sort = sort.unwrap_or(vec![PropertyName::Name]);
            if sort.iter().any(|x| !props.contains(x)) {
                let mut want = fails(CError::Other(Error::EINVAL));
                want.err = format!("Cannot sort by a property that isn't listed\n{}", want.err);
                return expect(s, uid, a, want).await;
            }
            if ds.iter().any(|p| w.m.get(p).is_none()) { return expect(s, uid, a, fails(CError::Other(Error::ENOENT))).await }
            let mut all: Vec<Vec<Property>> = ds.iter().flat_map(|p| w.m.under(p, depth)).map(|p| props.iter().map(|n| w.m.prop(&p, *n).0).collect()).collect();
            let key = |v: &[Property]| -> Vec<Property> { sort.iter().map(|x| v[props.iter().position(|p| p == x).unwrap()].clone()).collect() };
            all.sort();
            let shown = a.join(" ");
            let d = command(s, uid, a).await;
            ensure_eq!((d.code, d.err.as_str()), (0, ""), "bfffs {shown}");
            let mut got: Vec<String> = d.out.lines().map(str::to_string).collect();
            if !parse {
                let head: Vec<&str> = props.iter().map(|p| match p {
                    PropertyName::Atime => "ATIME", PropertyName::BaseMountpoint => "BASEMOUNTPOINT", PropertyName::Mountpoint => "MOUNTPOINT",
                    PropertyName::Name => "NAME", PropertyName::RecordSize => "RECSIZE",
                }).collect();
                ensure!(!got.is_empty(), "bfffs {shown} prints no header");
                ensure_eq!(got.remove(0), head.join("\t"), "header of bfffs {shown}");
            }
            // Among equals, any order will do
            ensure_eq!(got.len(), all.len(), "lines printed by bfffs {shown}");
            let mut rows = Vec::new();
            for l in &got {
                let i = all.iter().position(|v| *l == v.iter().map(|v| if parse { value(v) } else { human(v) }).collect::<Vec<_>>().join("\t"));
                let Some(i) = i else { return fail(format!("bfffs {shown} prints {l:?}, which it should not, or not again")) };
                rows.push(all.remove(i));
            }
            for x in rows.windows(2) { ensure!(key(&x[0]) <= key(&x[1]), "bfffs {shown} prints {:?} before {:?}", x[0], x[1]) }
        }
        3 => pool_command(s, w, uid).await?,
        _ => {
            s.note("sleep");
            tokio::time::sleep(Duration::from_secs(s.range(1, 12))).await
        }
    }
    let mut v = fuse3::raw::mounts(&format!("/{}", w.m.pool));
    v.sort();
    ensure_eq!(v, w.m.mounted(), "what is mounted");
    Ok(())
}

async fn status(w: &W) -> Status { w.server.controller().get_pool_status(&w.m.pool).await.unwrap() }

async fn pool_command(s: &mut Src, w: &mut W, uid: u32) -> R {
    let own = uid == w.me;
    let right = s.chance(4, 5);
    let pool = if right { w.m.pool.clone() } else { "other".into() };
    let perm = || if !own { fails(CError::Other(Error::EPERM)) } else if right { ok(vec![]) } else { fails(CError::Other(Error::ENOENT)) };
    let st = status(w).await;
    match s.idx(6) {
        0 => {
            s.class("pool list");
            if s.bool() { return expect(s, uid, words(&["pool", "list"]), ok(vec!["NAME".into(), w.m.pool.clone()])).await }
            let mut a = words(&["pool", "list"]);
            let n = s.urange(1, 2);
            for _ in 0..n { a.push(pool.clone()) }
            let mut out = vec!["NAME".to_string()];
            if right { for _ in 0..n { out.push(pool.clone()) } }
            let mut want = if right { ok(vec![]) } else { fails(CError::Other(Error::ENOENT)) };
            want.out = Some(out);
            expect(s, uid, a, want).await
        }
        1 => {
            s.class("pool status");
            let u = s.bool();
            let mut a = words(&["pool", "status"]);
            if u { a.push((*s.pick(&["-u", "--uuid"])).into()) }
            if s.bool() { a.push(pool) } else if !right { return Ok(()) }
            let want = if right { ok(table(&st, u)) } else { fails(CError::Other(Error::ENOENT)) };
            expect(s, uid, a, want).await
        }
        2 => { s.class("clean"); expect(s, uid, words(&["pool", "clean", &pool]), perm()).await }
        3 => {
            let want = if own { ok(vec![]) } else { fails(CError::Other(Error::EPERM)) };
            expect(s, uid, words(&["debug", "drop-cache"]), want).await
        }
        4 => {
            // Disks that aren't the last good ones of their mirrors
            let mut v = Vec::new();
            for m in st.clusters.iter().flat_map(|c| &c.mirrors) {
                let good: Vec<_> = m.leaves.iter().filter(|l| l.health == Health::Online).collect();
                if good.len() > 1 { v.extend(good[1..].iter().map(|l| (l.uuid, l.path.clone()))) }
            }
            let n = s.urange(1, 3).min(v.len());
            let mut a = words(&["pool", "fault", &pool]);
            let mut hit = Vec::new();
            // Or the only disk of a mirror, if its RAID can do without
            if s.chance(1, 3) {
                for (c, g) in st.clusters.iter().zip(&w.rig.geo.clusters) {
                    let all_good = c.mirrors.iter().all(|m| m.leaves.iter().any(|l| l.health == Health::Online));
                    let single: Vec<_> = c.mirrors.iter().filter(|m| m.leaves.len() == 1).collect();
                    if g.f == 0 || !all_good || single.is_empty() { continue }
                    let l = &s.pick(&single).leaves[0];
                    s.class("fault of a whole mirror");
                    v = vec![(l.uuid, l.path.clone())];
                    break
                }
            }
            let n = n.max(1).min(v.len());
            for _ in 0..n {
                let (u, p) = v.remove(s.idx(v.len()));
                a.push(if s.bool() { u.to_string() } else { p.to_str().unwrap().into() });
                hit.push(u);
            }
            // Those before are faulted all the same
            let nothing = n == 0 || s.chance(1, 4);
            if nothing { a.push("/no/such/disk".into()) }
            let first_by_path = a[3].starts_with('/');
            let want = if !right && (!own && first_by_path || own) { fails(CError::Other(Error::ENOENT)) }
                else if !own && n == 0 { fails(CError::NoDevice) }
                else if nothing && own { fails(CError::NoDevice) }
                else { perm() };
            s.class("fault");
            expect(s, uid, a, want).await?;
            for l in status(w).await.clusters.iter().flat_map(|c| &c.mirrors).flat_map(|m| &m.leaves) {
                if own && right && hit.contains(&l.uuid) { ensure!(matches!(l.health, Health::Faulted(_)), "the disk's health is {}", l.health) }
                else if hit.contains(&l.uuid) { ensure_eq!(l.health, Health::Online, "health of a disk that nobody may fault") }
            }
            Ok(())
        }
        _ => {
            let v: Vec<_> = st.clusters.iter().flat_map(|c| &c.mirrors).filter(|m| m.leaves.len() < 4 && m.leaves.iter().all(|l| l.health == Health::Online)).collect();
            if v.is_empty() || !right { return Ok(()) }
            let m = *s.pick(&v);
            let disk = Disk::new(w.rig.geo.disk_lbas * LBA);
            w.rig.world.attach(&disk.path);
            let path = disk.path.clone();
            w.rig.disks.push(disk);
            // KNOWN: what's written during rebuilding may not get to the new disk (C25)
            ensure_eq!(w.server.controller().sync_transaction().await, Ok(()), "sync");
            let l = s.pick(&m.leaves);
            let to = match s.idx(3) { 0 => m.uuid.to_string(), 1 => l.uuid.to_string(), _ => l.path.to_str().unwrap().into() };
            expect(s, uid, words(&["pool", "attach", &pool, &to, path.to_str().unwrap()]), perm()).await?;
            for i in 0.. {
                let st = status(w).await;
                let l = st.clusters.iter().flat_map(|c| &c.mirrors).find(|x| x.uuid == m.uuid).unwrap().leaves.iter().find(|l| l.path == path).map(|l| l.health);
                if !own { ensure_eq!(l, None, "a disk that was not attached"); break }
                s.class("attach");
                if l == Some(Health::Online) { break }
                ensure!(l.is_some() && i < 1000, "the attached disk is {l:?}");
                tokio::time::sleep(Duration::from_millis(10)).await;
            }
            Ok(())
        }
    }
}

/// What "pool create" takes: only disks, only mirrors, or only RAID groups
fn any_spec(s: &mut Src) -> Vec<Raid> {
    match s.idx(3) {
        0 => (0..s.urange(1, 3)).map(|_| Raid::single()).collect(),
        1 => (0..s.urange(1, 3)).map(|_| Raid { mirrors: vec![s.urange(1, 3)], chunk: None, k: 1, f: 0 }).collect(),
        _ => (0..s.urange(1, 2)).map(|_| {
            let n = *s.pick(&[3usize, 3, 5]);
            let k = s.urange(2, n.min(4));
            let f = s.urange(1, (k - 1).min(2));
            let m = if n == 3 && s.bool() { (0..n).map(|_| s.urange(1, 2)).collect() } else { vec![1; n] };
            Raid { mirrors: m, chunk: None, k: k as i16, f: f as i16 }
        }).collect(),
    }
}

fn session(s: &mut Src) -> R {
    let clusters = any_spec(s);
    let mb = s.range(1, 2);
    let zones = s.range(12, 30);
    let geo = Geometry { clusters, zone: mb * 256, disk_lbas: mb * 256 * zones, cache: 16 << 20, writeback: 64 << 20 };
    s.note(format!("{geo:?}"));
    let seed = s.any();
    let delay = s.below(3) as u32;
    let mut rig = Rig::new(geo, seed, delay);
    rig.name = format!("tank{:x}", s.any());
    let prefix = format!("/{}", rig.name);
    let _ = nix::mount::HOOK.set(fuse3::raw::end);

    // Create it
    let kind = if rig.geo.clusters.iter().any(|c| c.mirrors.len() > 1) { 2 } else { usize::from(rig.geo.clusters.iter().any(|c| c.mirrors[0] > 1) || s.bool()) };
    let mut vdevs: Vec<String> = Vec::new();
    for (c, l) in rig.geo.clusters.iter().zip(rig.layout()) {
        let group = c.mirrors.iter().any(|m| *m > 1) || s.bool();
        if kind == 2 { vdevs.extend(["raid".into(), c.k.to_string(), c.f.to_string()]) }
        for m in l {
            if kind == 1 || kind == 2 && group { vdevs.push("mirror".into()) }
            vdevs.extend(m.iter().map(|d| rig.disks[*d].path.to_str().unwrap().to_string()));
        }
    }
    let mut m = Model { pool: rig.name.clone(), root: None };
    let props = any_props(s, &m, &vec![], true, false);
    let v: Vec<String> = props.iter().map(|p| setting(s, p)).collect();
    let mut a = words(&["pool", "create"]);
    a.extend(opts(s, "-p", "properties", &v));
    a.push(format!("--zone-size={mb}"));
    a.push(rig.name.clone());
    if s.chance(1, 4) { a.push(vdevs.join(" ")) } else { a.extend(vdevs) }
    let created = Op::Create(vec![], props.clone()).apply(&mut m).is_ok();
    if !created { return Ok(()) }
    rt::run(async { expect(s, 0, a, ok(vec![])).await })?;

    let mut after = None;
    let r = rt::run(async {
        let r = rig.import().await;
        let Ok(db) = r else { return fail(format!("import of the pool: {:?}", r.err())) };
        let zs = db.dump_fsm().await;
        for (i, z) in zs.iter().enumerate() {
            // The RAID's share of the disks
            let c = &rig.geo.clusters[i];
            if c.mirrors.len() == 1 { ensure!(z.contains(&format!("FreeSpaceMap: {zones} Zones")), "zones of cluster {i}: {}", clip(z)) }
        }
        let db = Arc::try_unwrap(db).ok().unwrap();
        let mut listener = tokio_seqpacket::UnixSeqpacketListener::bind(SOCK).unwrap();
        let server = Server::new(db);
        let sv = server.clone();
        tokio::spawn(async move {
            while let Ok(peer) = listener.accept().await { tokio::spawn(sv.clone().serve(peer)); }
        });
        let st = server.controller().get_pool_status(&rig.name).await.unwrap();
        ensure_eq!(st.health, Health::Online, "the pool's health");
        let mut got: Vec<Vec<Vec<PathBuf>>> = st.clusters.iter().map(|c| c.mirrors.iter().map(|m| m.leaves.iter().map(|l| l.path.clone()).collect()).collect()).collect();
        let mut want: Vec<Vec<Vec<PathBuf>>> = rig.layout().iter().map(|c| c.iter().map(|m| m.iter().map(|d| rig.disks[*d].path.clone()).collect()).collect()).collect();
        // The children of a mirror are in no order
        for v in [&mut got, &mut want] { for c in v { for m in c { m.sort() } } }
        ensure_eq!(got, want, "the pool's disks");
        for (c, g) in st.clusters.iter().zip(&rig.geo.clusters) {
            let codec = if g.mirrors.len() == 1 { "NonRedundant".to_string() } else { format!("PrimeS-{},{},{}", g.mirrors.len(), g.k, g.f) };
            ensure_eq!(c.codec, codec, "the RAID's codec");
        }
        let me = euid();
        let mut w = W { rig: std::mem::replace(&mut rig, Rig::on(Geometry { clusters: vec![], zone: 256, disk_lbas: 0, cache: 0, writeback: 0 }, vec![], 0, 0)), server, m, me };
        let n = s.urange(1, 30);
        for _ in 0..n { step(s, &mut w).await?; }
        if n >= 10 { s.nontrivial() }
        ensure!(matches!(w.server.controller().check().await, Ok(true)), "check of the pool failed");
        // KNOWN: a rebuilt disk is labelled only when something's been written (C25)
        let last = if w.m.root.is_none() { w.m.pool.clone() } else { format!("{}/last", w.m.pool) };
        ensure!(w.server.controller().create_fs(&last).await.is_ok(), "create");
        ensure_eq!(w.server.controller().sync_transaction().await, Ok(()), "sync");
        let good: Vec<PathBuf> = status(&w).await.clusters.iter().flat_map(|c| &c.mirrors).flat_map(|m| &m.leaves).filter(|l| l.health == Health::Online).map(|l| l.path.clone()).collect();
        fuse3::raw::end_all(&prefix);
        after = Some((w.rig, w.m.pool, good));
        Ok(())
    });
    fuse3::raw::end_all(&prefix);
    tokio_seqpacket::reset();
    r?;
    let (rig, pool, good) = after.unwrap();
    let disks: Vec<String> = rig.disks.iter().filter(|d| good.contains(&d.path)).map(|d| d.path.to_str().unwrap().to_string()).collect();
    // Look at it offline
    rt::run(async {
        let mut a = words(&["check", &pool]);
        a.extend(disks.clone());
        expect(s, 0, a, ok(vec![])).await
    })?;
    if s.chance(1, 4) {
        rt::run(async {
            let mut a = words(&["check", &format!("{pool}x")]);
            a.extend(disks.clone());
            expect(s, 0, a, Want { code: 1, out: Some(vec![]), err: "Error: pool not found\n".into() }).await
        })?;
    }
    for what in ["--fsm", "-f", "--alloct", "--forest", "--ridt", "--tree", "-t"] {
        if !s.chance(1, 6) { continue }
        s.class(what);
        rt::run(async {
            let mut a = words(&["debug", "dump", what, &pool]);
            a.extend(disks.clone());
            let d = command(s, 0, a).await;
            ensure_eq!((d.code, d.err.as_str()), (0, ""), "bfffs debug dump {what}");
            let mut manager = Manager::default();
            for d in &good { ensure!(manager.taste(d).await.is_ok(), "taste") }
            let Ok(db) = manager.import_by_name(&pool).await else { return fail("import") };
            let mut want = vec![];
            let r = match what {
                "--alloct" => db.dump_alloct(&mut want).await,
                "--forest" => db.dump_forest(&mut want).await,
                "--ridt" => db.dump_ridt(&mut want).await,
                "--tree" | "-t" => db.dump_fs(&mut want, TreeID(0)).await,
                _ => { for z in db.dump_fsm().await { want.extend_from_slice(format!("{z}\n").as_bytes()) } Ok(()) }
            };
            ensure_eq!(r, Ok(()), "dump {what}");
            ensure!(!want.is_empty(), "bfffs debug dump {what} prints nothing");
            let want = String::from_utf8(want).unwrap();
            ensure!(d.out == want, "bfffs debug dump {what} printed {} instead of {}", clip(&d.out), clip(&want));
            Ok(())
        })?;
    }
    Ok(())
}

/// A pool that isn't as it should be: "check" must say so
fn inconsistent(s: &mut Src) -> R {
    let mut geo = any_geometry(s, 2, 3);
    geo.cache = 16 << 20;
    s.note(format!("{geo:?}"));
    let mut rig = Rig::new(geo, s.any(), 0);
    rig.name = "tank".into();
    let lost = s.skew(0, 4);
    rt::run(async {
        let cache = Arc::new(Mutex::new(Cache::with_capacity(rig.geo.cache)));
        let ddml = Arc::new(DDML::create(rig.pool(), cache.clone()));
        let idml = Arc::new(IDML::create(ddml.clone(), cache));
        let db = Database::create(idml);
        db.create_fs(None, "").await.unwrap();
        for i in 0..lost {
            // A block that no tree knows
            let buf = divbuf::DivBufShared::from(vec![i as u8; s.urange(1, 20000)]);
            use bfffs_core::dml::{Compression, DML};
            let r = ddml.put(buf, Compression::None, TxgT::from(0)).await;
            ensure!(r.is_ok(), "put: {r:?}");
        }
        ensure_eq!(db.sync_transaction().await, Ok(()), "sync");
        Ok(())
    })?;
    if lost > 0 { s.nontrivial() }
    let mut a = words(&["check", "tank"]);
    a.extend(rig.disks.iter().map(|d| d.path.to_str().unwrap().to_string()));
    rt::run(async {
        let d = command(s, 0, a).await;
        if lost == 0 { ensure_eq!(d.code, 0, "check of a good pool") } else { ensure!(d.code != 0, "check of a pool with {lost} lost blocks succeeds") }
        Ok(())
    })
}

pub fn checks() -> Vec<Check> {
    vec![
        Check::new("session", "10 commands or more", 8000, 200000, session),
        Check::new("inconsistent", "pools that leak", 300, 20000, inconsistent),
    ]
}
