//! C33: pools of earlier versions can be read.
//!
//! golden/N.pool holds the contents of a pool's disks and what is in its file systems.  `VERIF_GOLDEN=DIR full` writes
//! new ones.
use crate::{fsmodel::*, rt, t_fs::*, world::*};
use bfffs_core::{database::TreeID, fs::Fs, property::{Property, PropertyName, PropertySource}};
use engine::*;
use serde::{Deserialize, Serialize};
use std::{collections::BTreeMap, io::{Read, Write}, sync::Arc};

#[derive(Serialize, Deserialize)]
struct GRaid { mirrors: Vec<usize>, chunk: Option<u64>, k: i16, f: i16 }
#[derive(Serialize, Deserialize)]
struct GNode {
    ino: u64, kind: u8, arg: u64, link: String, nlink: u64, perm: u16, uid: u32, gid: u32, flags: u64, size: u64,
    chunks: Vec<(u64, String)>, recs: Vec<(u64, u64)>, xattrs: Vec<(u8, String, String)>, entries: Vec<(String, u64)>, parent: u64,
    t: [Ts; 4],
}
#[derive(Serialize, Deserialize)]
struct GFs { name: String, tree: u64, recsize: u8, atime: bool, local: [bool; 2], nodes: Vec<GNode>, dead: Vec<u64> }
#[derive(Serialize, Deserialize)]
struct Golden { name: String, clusters: Vec<GRaid>, zone: u64, disk_lbas: u64, fss: Vec<GFs> }

fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }

fn pack(name: &str, local: [bool; 2], m: &Model) -> GFs {
    let nodes = m.nodes.iter().map(|(ino, n)| {
        let (kind, arg, link) = match &n.kind {
            Kind::Reg(e) => (0, *e as u64, vec![]), Kind::Dir => (1, 0, vec![]), Kind::Link(t) => (2, 0, t.clone()), Kind::Fifo => (3, 0, vec![]),
            Kind::Sock => (4, 0, vec![]), Kind::Char(d) => (5, *d, vec![]), Kind::Block(d) => (6, *d, vec![]),
        };
        GNode {
            ino: *ino, kind, arg, link: hex(&link), nlink: n.nlink, perm: n.perm, uid: n.uid, gid: n.gid, flags: n.flags, size: n.size,
            chunks: n.chunks.iter().map(|(k, v)| (*k, hex(v))).collect(),
            recs: n.recs.iter().map(|(k, v)| (*k, *v)).collect(),
            xattrs: n.xattrs.iter().map(|((s, k), v)| (*s, hex(k), hex(v))).collect(),
            entries: n.entries.iter().map(|(k, v)| (hex(k), *v)).collect(),
            parent: n.parent, t: n.t,
        }
    }).collect();
    GFs { name: name.into(), tree: m.tree.0, recsize: m.recsize, atime: m.atime, local, nodes, dead: m.dead.clone() }
}
fn unpack(g: &GFs) -> BTreeMap<u64, Node> {
    g.nodes.iter().map(|n| {
        let kind = match n.kind {
            0 => Kind::Reg(n.arg as u8), 1 => Kind::Dir, 2 => Kind::Link(unhex(&n.link)), 3 => Kind::Fifo, 4 => Kind::Sock,
            5 => Kind::Char(n.arg), _ => Kind::Block(n.arg),
        };
        (n.ino, Node {
            kind, nlink: n.nlink, perm: n.perm, uid: n.uid, gid: n.gid, flags: n.flags, size: n.size,
            chunks: n.chunks.iter().map(|(k, v)| (*k, Arc::new(unhex(v)))).collect(),
            recs: n.recs.iter().copied().collect(),
            xattrs: n.xattrs.iter().map(|(s, k, v)| ((*s, unhex(k)), Arc::new(unhex(v)))).collect(),
            entries: n.entries.iter().map(|(k, v)| (unhex(k), *v)).collect(),
            parent: n.parent, t: n.t,
        })
    }).collect()
}

fn single(mirrors: Vec<usize>) -> Raid { Raid { mirrors, chunk: None, k: 1, f: 0 } }
fn striped(mirrors: Vec<usize>, chunk: u64, k: i16, f: i16) -> Raid { Raid { mirrors, chunk: Some(chunk), k, f } }

async fn make(i: u64, clusters: Vec<Raid>, zone: u64, zones: u64, dir: &str) -> R {
    let geo = Geometry { clusters, zone, disk_lbas: zone * zones, cache: 4 << 20, writeback: 64 << 20 };
    let s = &mut Src::fresh(1000 + i);
    let mut l = Live::new(s, Rig::new(geo, i, 2)).await;
    l.m.budget = if i == 6 { 700_000 } else { 150_000 };
    l.m.maxdata = 20_000;
    l.m.fams = vec![1, 2];
    let profiles = [Profile::Mixed, Profile::Names, Profile::Attrs, Profile::Data];
    for n in 0..if i == 6 { 1600 } else { 260 } {
        if n % 40 == 39 { let e = *s.pick(&[Event::Sync, Event::Clean, Event::Remount, Event::Reimport]); l.event(s, e).await?; }
        l.m.step(s, l.fs.as_ref().unwrap(), profiles[(n / 20) % 4]).await?;
    }
    // File systems in file systems, with properties of their own
    let mut more: Vec<(String, [bool; 2], Model)> = vec![];
    let mut parent = (l.m.tree, "tank".to_string());
    for (j, p) in [vec![Property::RecordSize(13)], vec![Property::Atime(false)], vec![]].iter().enumerate() {
        let name = format!("{}/fs{j}", parent.1);
        let (t, fs) = new_fs(l.db(), Some(parent.0), &format!("fs{j}"), p).await;
        let mut m = Model::new(t, &fs).await;
        m.recsize = fs.get_prop(PropertyName::RecordSize).await.unwrap().0.as_u8();
        m.atime = fs.get_prop(PropertyName::Atime).await.unwrap().0.as_bool();
        m.budget = 30_000;
        m.maxdata = 10_000;
        for n in 0..40 {
            if n == 20 { fs.sync().await }
            m.step(s, &fs, Profile::Mixed).await?;
        }
        for ino in m.select(|n| n.nlink == 0) { m.close(&fs, ino).await?; }
        m.compare(&fs).await?;
        fs.sync().await;
        let local = [PropertyName::RecordSize, PropertyName::Atime];
        let mut is = [false; 2];
        for (i, n) in local.into_iter().enumerate() { is[i] = fs.get_prop(n).await.unwrap().1 == PropertySource::Set(0); }
        if j < 2 { parent = (t, name.clone()); }
        more.push((name, is, m));
    }
    for ino in l.m.select(|n| n.nlink == 0) { let Live { m, fs, .. } = &mut l; m.close(fs.as_ref().unwrap(), ino).await?; }
    l.reimport().await?;
    { let Live { m, fs, .. } = &mut l; m.compare(fs.as_ref().unwrap()).await?; }
    let mut is = [false; 2];
    for (i, n) in [PropertyName::RecordSize, PropertyName::Atime].into_iter().enumerate() {
        is[i] = l.fs().get_prop(n).await.unwrap().1 == PropertySource::Set(0);
    }
    l.fs().sync().await;
    l.check().await?;
    l.finish().await;
    let mut fss = vec![pack("tank", is, &l.m)];
    fss.extend(more.iter().map(|(n, l, m)| pack(n, *l, m)));
    let g = Golden {
        name: "tank".into(), zone: l.rig.geo.zone, disk_lbas: l.rig.geo.disk_lbas, fss,
        clusters: l.rig.geo.clusters.iter().map(|c| GRaid { mirrors: c.mirrors.clone(), chunk: c.chunk, k: c.k, f: c.f }).collect(),
    };
    let j = serde_json::to_vec(&g).unwrap();
    let mut f = std::fs::File::create(format!("{dir}/{i}.pool")).unwrap();
    f.write_all(&(j.len() as u64).to_le_bytes()).unwrap();
    f.write_all(&j).unwrap();
    for d in &l.rig.disks {
        let used: Vec<u64> = d.used(0).into_iter().filter(|b| d.read(b * LBA, LBA as usize).iter().any(|x| *x != 0)).collect();
        f.write_all(&(used.len() as u64).to_le_bytes()).unwrap();
        for b in used {
            f.write_all(&b.to_le_bytes()).unwrap();
            f.write_all(&d.read(b * LBA, LBA as usize)).unwrap();
        }
    }
    Ok(())
}
pub fn generate(dir: &str) {
    let shapes: [(Vec<Raid>, u64, u64); 7] = [
        (vec![single(vec![1])], 256, 14),
        (vec![single(vec![2])], 128, 24),
        (vec![striped(vec![1; 3], 1, 3, 1)], 256, 12),
        (vec![striped(vec![1; 5], 2, 4, 2)], 128, 20),
        (vec![single(vec![1]), striped(vec![2; 3], 1, 3, 1)], 64, 24),
        (vec![single(vec![1])], 64, 300),
        (vec![single(vec![1])], 256, 30),
    ];
    for (i, (c, z, n)) in shapes.into_iter().enumerate() {
        rt::run(make(i as u64, c, z, n, dir)).unwrap_or_else(|e| panic!("{e:?}"));
    }
}

const POOLS: [&[u8]; 7] = [
    include_bytes!("../golden/0.pool"), include_bytes!("../golden/1.pool"), include_bytes!("../golden/2.pool"),
    include_bytes!("../golden/3.pool"), include_bytes!("../golden/4.pool"), include_bytes!("../golden/5.pool"),
    include_bytes!("../golden/6.pool"),
];

fn u64_of(r: &mut &[u8]) -> u64 { let mut b = [0; 8]; r.read_exact(&mut b).unwrap(); u64::from_le_bytes(b) }

/// Disks that may be missing: whole mirrors as redundancy allows, and all but one of the members of the others
fn lose(s: &mut Src, rig: &Rig) -> Vec<usize> {
    let mut gone = vec![];
    for (c, l) in rig.geo.clusters.iter().zip(rig.layout()) {
        let mut f = if c.k > 1 { c.f } else { 0 };
        for m in l {
            if f > 0 && s.chance(1, 3) { f -= 1; gone.extend(m); continue }
            let keep = s.idx(m.len());
            for (i, d) in m.iter().enumerate() { if i != keep && s.bool() { gone.push(*d) } }
        }
    }
    gone
}

fn old(s: &mut Src) -> R {
    let i = s.idx(POOLS.len());
    let mut r = POOLS[i];
    let n = u64_of(&mut r) as usize;
    let g: Golden = serde_json::from_slice(&r[..n]).unwrap();
    r = &r[n..];
    let clusters: Vec<Raid> = g.clusters.iter().map(|c| Raid { mirrors: c.mirrors.clone(), chunk: c.chunk, k: c.k, f: c.f }).collect();
    let disks: Vec<Disk> = (0..clusters.iter().map(|c| c.disks()).sum()).map(|_| {
        let d = Disk::new(g.disk_lbas * LBA);
        for _ in 0..u64_of(&mut r) {
            let b = u64_of(&mut r);
            d.write(b * LBA, &r[..LBA as usize]);
            r = &r[LBA as usize..];
        }
        d
    }).collect();
    let geo = Geometry { clusters, zone: g.zone, disk_lbas: g.disk_lbas, cache: *s.pick(&[16 << 20, 300_000]), writeback: 64 << 20 };
    let seed = s.any();
    let delay = s.below(4) as u32;
    let rig = Rig::on(geo, disks, seed, delay);
    let gone = if s.chance(1, 3) { lose(s, &rig) } else { vec![] };
    let mut which: Vec<usize> = (0..rig.disks.len()).filter(|d| !gone.contains(d)).collect();
    s.shuffle(&mut which);
    s.note(format!("pool {i}, without disks {gone:?}"));
    s.class(["one disk", "mirror", "3 disks", "5 disks", "two clusters", "many zones", "many files"][i]);
    if !gone.is_empty() { s.class("degraded"); }
    let which_fs = s.idx(g.fss.len());
    rt::run(async {
        let db = match rig.manager_of(&which).await {
            Ok(mut m) => m.import_by_name(&g.name).await,
            Err(e) => return fail(format!("a disk of an older pool isn't recognised: {e:?}")),
        };
        let db = match db { Ok(db) => Arc::new(db), Err(e) => return fail(format!("import of an older pool: {e:?}")) };
        let mut l = Live { rig, db: Some(db), fs: None, m: Model {
            tree: TreeID(0), root: 1, nodes: Default::default(), open: Default::default(), dead: vec![], recsize: 0, atime: false,
            written: 0, budget: 1 << 20, fams: vec![1], ops: 0, maxdata: 50_000,
        } };
        let mut order: Vec<usize> = (0..g.fss.len()).filter(|i| *i != which_fs).collect();
        s.shuffle(&mut order);
        order.push(which_fs);
        for i in order {
            let f = &g.fss[i];
            s.note(format!("{}", f.name));
            ensure_eq!(l.db().lookup_fs(f.name.strip_prefix("tank").unwrap().trim_start_matches("/")).await.map(|x| x.1), Ok(Some(TreeID(f.tree))), "lookup of {}", f.name);
            l.m.tree = TreeID(f.tree);
            l.m.nodes = unpack(f);
            l.m.dead = f.dead.clone();
            (l.m.recsize, l.m.atime) = (f.recsize, f.atime);
            l.fs = None;
            l.fs = Some(Fs::new(l.db().clone(), l.m.tree).await);
            let rs = l.fs().get_prop(PropertyName::RecordSize).await.unwrap();
            ensure_eq!(rs.0, Property::RecordSize(f.recsize), "record size of {}", f.name);
            ensure_eq!(rs.1 == PropertySource::Set(0), f.local[0], "source of the record size of {}: {:?}", f.name, rs.1);
            let at = l.fs().get_prop(PropertyName::Atime).await.unwrap();
            ensure_eq!(at.0, Property::Atime(f.atime), "atime of {}", f.name);
            ensure_eq!(at.1 == PropertySource::Set(0), f.local[1], "source of atime of {}: {:?}", f.name, at.1);
            let Live { m, fs, .. } = &mut l;
            m.compare(fs.as_ref().unwrap()).await?;
        }
        // And go on from there
        let n = if gone.is_empty() { s.urange(0, 60) } else { 0 };
        for _ in 0..n {
            if s.chance(1, 10) {
                let e = *s.pick(&[Event::Sync, Event::Clean, Event::Remount, Event::Reimport, Event::Sleep, Event::DropCache]);
                l.event(s, e).await?;
            } else {
                l.m.step(s, l.fs.as_ref().unwrap(), Profile::Mixed).await?;
            }
        }
        if n > 10 || !gone.is_empty() { s.nontrivial() }
        let Live { m, fs, .. } = &mut l;
        m.compare(fs.as_ref().unwrap()).await?;
        if gone.is_empty() {
            l.check().await?;
            l.reimport().await?;
            let Live { m, fs, .. } = &mut l;
            m.compare(fs.as_ref().unwrap()).await?;
        }
        l.finish().await;
        Ok(())
    })
}

pub fn checks() -> Vec<Check> {
    vec![Check::new("old-pools", "some disks are missing, or more than 10 operations follow", 20000, 200000, old)]
}
