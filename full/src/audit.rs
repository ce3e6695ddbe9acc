//! An independent check of a pool's metadata, from dumps of its trees.
use bfffs_core::database::{Database, TreeID};
use engine::*;
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};

/// A tree's nodes' addresses and the transactions in which they and their descendants were written, and its items
#[derive(Default)]
pub struct Dump { pub nodes: Vec<(String, (u64, u64))>, pub raw: Vec<Value>, pub items: Vec<(Value, Value)>, pub dirty: usize, pub height: u64 }

fn txgs(v: &Value) -> (u64, u64) { (v["start"].as_u64().unwrap(), v["end"].as_u64().unwrap()) }

pub fn tree(what: &str, text: &[u8]) -> Result<Dump, Bad> {
    let docs: Vec<Value> = String::from_utf8(text.to_vec()).unwrap().lines().map(|l| serde_json::from_str(l).unwrap()).collect();
    let mut d = Dump::default();
    ensure!(!docs.is_empty(), "the dump of {what} is empty");
    let mut nodes: BTreeMap<String, &Value> = BTreeMap::new();
    for m in &docs[1..] {
        let Some(m) = m.as_array() else { return fail(format!("dump of {what}: {m}")) };
        for kv in m { ensure!(nodes.insert(kv[0].to_string(), &kv[1]).is_none(), "a node of {what} is in its dump twice"); }
    }
    fn walk(what: &str, d: &mut Dump, nodes: &mut BTreeMap<String, &Value>, elem: &Value, height: u64, within: Option<(u64, u64)>) -> R {
        let t = txgs(&elem["txgs"]);
        if let Some(w) = within { ensure!(w.0 <= t.0 && t.1 <= w.1, "{what}: a node's transactions {t:?} aren't within its parent's, {w:?}"); }
        let p = &elem["ptr"];
        let (node, clean) = match p.get("Addr") {
            Some(a) => {
                ensure!(t.0 < t.1, "{what}: a node was written in no transaction");
                d.nodes.push((a.to_string(), t));
                d.raw.push(a.clone());
                match nodes.remove(&a.to_string()) { Some(n) => (n, true), None => return fail(format!("{what}: node {a} isn't in the dump")) }
            }
            None => { d.dirty += 1; (&p["Mem"], false) }
        };
        let w = if clean { Some(t) } else { None };
        if height > 1 {
            let Some(c) = node["Int"]["children"].as_array() else { return fail(format!("{what}: an interior node was expected")) };
            for c in c { walk(what, d, nodes, c, height - 1, w)?; }
        } else {
            let Some(c) = node["Leaf"]["items"].as_array() else { return fail(format!("{what}: a leaf was expected")) };
            for kv in c { d.items.push((kv[0].clone(), kv[1].clone())); }
        }
        Ok(())
    }
    let root = &docs[0]["root"];
    d.height = root["height"].as_u64().unwrap();
    let h = d.height;
    walk(what, &mut d, &mut nodes, &root["elem"], h, None)?;
    ensure!(nodes.is_empty(), "{what}: the dump has nodes that aren't in the tree");
    Ok(d)
}

/// All pointers to records in a value
fn blobs(v: &Value, out: &mut Vec<(u64, u64)>) {
    match v {
        Value::Object(m) => match (m.get("rid"), m.get("lsize")) {
            (Some(r), Some(l)) => out.push((r.as_u64().unwrap(), l.as_u64().unwrap())),
            _ => m.values().for_each(|v| blobs(v, out)),
        }
        Value::Array(a) => a.iter().for_each(|v| blobs(v, out)),
        _ => (),
    }
}

pub type Extent = ((u64, u64), u64);
fn pba(v: &Value) -> (u64, u64) { (v["cluster"].as_u64().unwrap(), v["lba"].as_u64().unwrap()) }
fn extent(drp: &Value) -> Extent { (pba(&drp["pba"]), drp["csize"].as_u64().unwrap().div_ceil(4096)) }

#[derive(Debug, Default)]
pub struct Report {
    pub trees: Vec<u64>, pub records: usize, pub blobs: usize, pub blocks: u64,
    /// Where nodes of trees are: of the file systems and the forest, and of the tables of records
    pub nodes: Vec<Extent>, pub direct: Vec<Extent>,
    /// Pointers to records
    pub drps: Vec<Value>,
}

/// Nothing else may be using the pool, and it must just have been synced.
pub async fn audit(db: &Database) -> Result<Report, Bad> {
    let mut b = vec![];
    if let Err(e) = db.dump_forest(&mut b).await { return fail(format!("dump of the forest: {e:?}")) }
    let forest = tree("the forest", &b)?;
    let mut refs: BTreeMap<u64, u64> = BTreeMap::new();
    let mut sizes: BTreeMap<u64, u64> = BTreeMap::new();
    let mut inner = vec![];
    let mut rep = Report::default();
    let rid = |a: &str| a.parse::<u64>().unwrap();
    for (a, _) in &forest.nodes { *refs.entry(rid(a)).or_default() += 1; inner.push(rid(a)); }
    let mut trees = vec![];
    for (k, v) in &forest.items {
        if let Some(t) = v.get("Tree") { trees.push((k["tree_id"].as_u64().unwrap(), t.clone())); }
    }
    let ids: BTreeSet<u64> = trees.iter().map(|t| t.0).collect();
    for (id, t) in &trees {
        let mut b = vec![];
        if let Err(e) = db.dump_fs(&mut b, TreeID(*id)).await { return fail(format!("dump of tree {id}: {e:?}")) }
        let d = tree(&format!("tree {id}"), &b)?;
        ensure_eq!(d.dirty, 0, "tree {id} is dirty after a sync");
        ensure_eq!(t["tod"]["root"].to_string(), d.nodes[0].0, "the forest's address of tree {id}");
        ensure_eq!(t["tod"]["height"].as_u64().unwrap(), d.height, "the forest's height of tree {id}");
        if let Some(p) = t["parent"].as_u64() { ensure!(ids.contains(&p), "the parent of tree {id} doesn't exist"); }
        for (a, _) in &d.nodes { *refs.entry(rid(a)).or_default() += 1; inner.push(rid(a)); }
        let mut v = vec![];
        for (_, x) in &d.items { blobs(x, &mut v) }
        rep.blobs += v.len();
        for (r, l) in v { *refs.entry(r).or_default() += 1; sizes.insert(r, l); }
    }
    ensure_eq!(forest.dirty, 0, "the forest is dirty after a sync");
    for (k, v) in &forest.items {
        if let Some(e) = v.get("TreeEnt") {
            let c = e["tree_id"].as_u64().unwrap();
            ensure!(ids.contains(&c) && ids.contains(&k["tree_id"].as_u64().unwrap()), "a dangling entry in the forest");
            let t = &trees.iter().find(|t| t.0 == c).unwrap().1;
            ensure_eq!(t["parent"], k["tree_id"], "the parent of tree {c}");
        }
    }
    let ents: Vec<u64> = forest.items.iter().filter_map(|(_, v)| v.get("TreeEnt")).map(|e| e["tree_id"].as_u64().unwrap()).collect();
    for (id, t) in &trees {
        let n = ents.iter().filter(|e| *e == id).count();
        ensure_eq!(n, if t["parent"].is_null() { 0 } else { 1 }, "entries for tree {id}");
    }

    let mut b = vec![];
    if let Err(e) = db.dump_ridt(&mut b).await { return fail(format!("dump of the RIDT: {e:?}")) }
    let ridt = tree("the RIDT", &b)?;
    let mut b = vec![];
    if let Err(e) = db.dump_alloct(&mut b).await { return fail(format!("dump of the AllocT: {e:?}")) }
    let alloct = tree("the AllocT", &b)?;
    ensure_eq!((ridt.dirty, alloct.dirty), (0, 0), "the RIDT or the AllocT is dirty after a sync");
    let mut extents = vec![];
    let mut where_: BTreeMap<u64, Extent> = BTreeMap::new();
    for (k, v) in &ridt.items {
        let r = k.as_u64().unwrap();
        let n = refs.remove(&r).unwrap_or(0);
        ensure_eq!(v["refcount"].as_u64().unwrap(), n, "references to record {r}");
        if let Some(l) = sizes.get(&r) { ensure_eq!(v["drp"]["lsize"].as_u64().unwrap(), *l, "size of record {r}"); }
        let e = extent(&v["drp"]);
        where_.insert(r, e);
        rep.drps.push(v["drp"].clone());
        extents.push((e, format!("record {r}")));
    }
    ensure!(refs.is_empty(), "records {refs:?} are referred to but don't exist");
    rep.records = where_.len();
    let inv: BTreeMap<(u64, u64), u64> = alloct.items.iter().map(|(k, v)| (pba(k), v.as_u64().unwrap())).collect();
    ensure_eq!(inv.len(), alloct.items.len(), "entries of the AllocT");
    let want: BTreeMap<(u64, u64), u64> = where_.iter().map(|(r, e)| (e.0, *r)).collect();
    ensure!(inv == want, "the AllocT {inv:?} isn't the inverse of the RIDT {want:?}");
    for (t, n) in [(&ridt, "the RIDT"), (&alloct, "the AllocT")] {
        for a in &t.raw { rep.direct.push(extent(a)); extents.push((extent(a), format!("a node of {n}"))); }
    }
    rep.nodes = inner.iter().map(|r| where_[r]).collect();
    extents.sort();
    for w in extents.windows(2) {
        ensure!(w[0].0.0.0 != w[1].0.0.0 || w[0].0.0.1 + w[0].0.1 <= w[1].0.0.1, "{} at {:?} and {} at {:?} overlap", w[0].1, w[0].0, w[1].1, w[1].0);
    }
    rep.blocks = extents.iter().map(|e| e.0.1).sum();
    ensure_eq!(db.stat().await.used, rep.blocks, "used space");
    rep.trees = ids.into_iter().collect();
    Ok(rep)
}
