//! Names whose hashes, by which the file system tree is keyed, are equal.
use bfffs_core::fs_tree::{ExtAttrNamespace, ObjKey};
use std::{ffi::OsStr, os::unix::ffi::OsStrExt};

const K0: u64 = 0xD6D018F5;
const K1: u64 = 0xA2AA033B;
const K2: u64 = 0x62992FC1;
const K3: u64 = 0x30BC5B29;
const SEED: u64 = K2.wrapping_mul(K0);

fn inv(k: u64) -> u64 {
    let mut x = k;
    for _ in 0..6 { x = x.wrapping_mul(2u64.wrapping_sub(k.wrapping_mul(x))); }
    x
}
fn m(a: u64, b: u64) -> u64 { a.wrapping_mul(b) }

/// The state after two words
fn two(w1: u64, w2: u64) -> u64 {
    let v0 = SEED;
    let mut v1 = m(v0.wrapping_add(m(w1, K2)).rotate_right(29), K3);
    let mut v2 = m(v0.wrapping_add(m(w2, K2)).rotate_right(29), K3);
    v1 ^= m(v1, K0).rotate_right(21).wrapping_add(v2);
    v2 ^= m(v2, K3).rotate_right(21).wrapping_add(v1);
    v0.wrapping_add(v2)
}

/// x such that x ^ (rotr(x, 55) * K1) == y
fn uneight(y: u64) -> Option<u64> {
    for top in 0u64..512 {
        let mut x = 0u64;
        let mut r = top;        // the known bits of rotr(x, 55), that is rotl(x, 9)
        for i in 0..64 {
            let p = m(r, K1);
            let b = (y ^ p) >> i & 1;
            x |= b << i;
            if i + 9 < 64 { r |= b << (i + 9); }
        }
        if x >> 55 == top && x ^ m(x.rotate_right(55), K1) == y { return Some(x); }
    }
    None
}

fn ok(name: &[u8]) -> bool { !name.is_empty() && name.iter().all(|b| *b != 0 && *b != b'/') }

fn word(seed: u64) -> u64 {
    // letters
    let v: Vec<u8> = engine::fill(seed | 1, 8).iter().map(|b| b'a' + b % 26).collect();
    u64::from_le_bytes(v.try_into().unwrap())
}

/// Name number `i` of a family of names that all hash alike.  They are 24 bytes.
pub fn dirent(family: u64, mut i: u64) -> Vec<u8> {
    let target = engine::mix(family);
    i = i.wrapping_mul(1000);
    loop {
        let (w1, w2) = (word(engine::mix(i)), word(engine::mix(i ^ 0x5555)));
        let w3 = m(target.wrapping_sub(two(w1, w2)), inv(K3));
        let name: Vec<u8> = [w1, w2, w3].iter().flat_map(|w| w.to_le_bytes()).collect();
        if ok(&name) { return name; }
        i += 1;
    }
}

/// As `dirent`, for extended attributes
pub fn xattr(ns: ExtAttrNamespace, family: u64, mut i: u64) -> Vec<u8> {
    let target = engine::mix(family);
    let w1 = ns as isize as u64;
    i = i.wrapping_mul(1000);
    loop {
        let w2 = word(engine::mix(i));
        let w3 = m(target.wrapping_sub(two(w1, w2)), inv(K3));
        let name: Vec<u8> = [w2, w3].iter().flat_map(|w| w.to_le_bytes()).collect();
        if ok(&name) { return name; }
        i += 1;
    }
}

/// A name that hashes like "." or ".."
pub fn dot(dots: usize, mut i: u64) -> Vec<u8> {
    // Both names are hashed by their last step only: of one or two bytes.
    i = i.wrapping_mul(1000);
    loop {
        let (w1, w2) = (word(engine::mix(i)), word(engine::mix(i ^ 0xaaaa)));
        i += 1;
        // Let the name end like its target
        let Some(x) = uneight(SEED) else { return vec![b'.'; 3] };
        let w3 = m(x.wrapping_sub(two(w1, w2)), inv(K3));
        let mut name: Vec<u8> = [w1, w2, w3].iter().flat_map(|w| w.to_le_bytes()).collect();
        name.extend(vec![b'.'; dots]);
        if ok(&name) { return name; }
    }
}

pub fn self_test() -> engine::R {
    for fam in 0..20 {
        for i in 1..5 {
            let h = |n: Vec<u8>| ObjKey::dir_entry(OsStr::from_bytes(&n));
            engine::ensure_eq!(h(dirent(fam, 0)), h(dirent(fam, i)), "dirent collisions");
            for a in [ExtAttrNamespace::User, ExtAttrNamespace::System] {
                let h = |ns, n: Vec<u8>| ObjKey::extattr(ns, OsStr::from_bytes(&n));
                engine::ensure_eq!(h(ExtAttrNamespace::User, xattr(ExtAttrNamespace::User, fam, 0)), h(a, xattr(a, fam, i)), "xattr collisions");
            }
        }
    }
    Ok(())
}
