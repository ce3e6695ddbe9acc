//! What is written to the disks doesn't change from one version to the next
use crate::{c_isal::{inv, mul}, raid::{codec::Codec, declust::{ChunkId, Chunkloc, Locator}, prime_s::PrimeS}, types::*, util::*};
use divbuf::DivBufShared;
use engine::{ensure, ensure_eq, Check, Property, Src, R};
use std::hash::Hasher;

const PRIMES: &[u64] = &[2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101, 103,
    107, 109, 113, 127, 131, 137, 139, 149, 151, 157, 163, 167, 173, 179, 181, 191, 193, 197, 199, 211];

/// PRIME's disk function, and the offset as the rank among the stripe units that the iteration puts on the disk, in the
/// order of their stripes (see doc/prime-s.tex and tools/declust.rb)
fn place(n: u64, k: u64, f: u64, stripe: u64, b: u64) -> (u64, u64) {
    let m = k - f;
    let (rep, s) = (stripe / (n * (n - 1)), stripe % (n * (n - 1)));
    let z = s / n;
    let y = z + 1;
    let disk = |s: u64, b: u64| (s * m + b) % n * y % n;
    let d = disk(s, b);
    let rank = (z * n..s).filter(|t| (0..k).any(|c| disk(*t, c) == d)).count() as u64;
    (d, rep * k * (n - 1) + z * k + rank)
}

fn place_case(s: &mut Src) -> R {
    let n = PRIMES[match s.below(3) { 0 => s.idx(PRIMES.len()), 1 => s.idx(12), _ => s.idx(5) }];
    let k = match s.below(3) { 0 => n, 1 => s.range(2, n.min(9)), _ => s.range(2, n) };
    let f = match s.below(3) { 0 => 1, 1 => s.range(1, (k - 1).min(3)), _ => s.range(1, k - 1) };
    let m = k - f;
    let l = PrimeS::new(n as i16, k as i16, f as i16);
    let per = n * (n - 1);
    let rep = s.skew(0, 1 << 40);
    let st = rep * per + match s.below(3) { 0 => s.below(per), 1 => (s.below(n - 1) * n + s.below(2)) % per, _ => (s.range(1, n - 1) * n - 1) % per };
    if st % per >= n { s.nontrivial() }
    let b = s.below(k);
    let id = |st: u64, b: u64| if b < m { ChunkId::Data(st * m + b) } else { ChunkId::Parity(st * m, (b - m) as i16) };
    let (disk, offset) = place(n, k, f, st, b);
    s.note(format!("n={n} k={k} f={f} {:?} is at ({disk}, {offset})", id(st, b)));
    let want = Chunkloc { disk: disk as i16, offset };
    ensure_eq!(l.id2loc(id(st, b)), want, "place of {:?}", id(st, b));
    ensure_eq!(l.loc2id(want), id(st, b), "what is at ({disk}, {offset})");
    // A run of chunks, as RAID reads and writes them
    let run = s.urange(1, 2 * k as usize);
    let end = { let u = b as usize + run; id(st + u as u64 / k, u as u64 % k) };
    let (mut cs, mut cb) = (st, b);
    for (i, (c, loc)) in l.iter(id(st, b), end).enumerate() {
        ensure!(i < run, "the run doesn't end at {end:?}");
        let (d, o) = place(n, k, f, cs, cb);
        ensure_eq!((c, loc), (id(cs, cb), Chunkloc { disk: d as i16, offset: o }), "chunk {i} of the run");
        cb += 1;
        if cb == k { cb = 0; cs += 1 }
    }
    ensure_eq!(cs * k + cb, st * k + b + run as u64, "length of the run");
    Ok(())
}

fn parity_case(s: &mut Src) -> R {
    let m = s.skew(2, 40) as u32;
    let f = match s.below(3) { 0 => 1, 1 => s.range(1, (m as u64 - 1).min(4)), _ => s.range(1, m as u64 - 1) } as u32;
    let k = m - f;
    let len = s.skew(1, 300) as usize;
    if f > 1 { s.nontrivial() }
    let data: Vec<Vec<u8>> = (0..k).map(|_| { let seed = s.any(); engine::fill(seed, len) }).collect();
    s.note(format!("{k}+{f}, {len} bytes"));
    let want: Vec<Vec<u8>> = (0..f).map(|p| {
        let mut v = vec![0u8; len];
        for (j, d) in data.iter().enumerate() {
            // Cauchy matrix, except that single parity is the XOR
            let c = if f == 1 { 1 } else { inv(((k + p) ^ j as u32) as u8) };
            let basis: Vec<u8> = (0..8).map(|b| mul(c, 1 << b)).collect();
            for (x, d) in v.iter_mut().zip(d) { for (b, y) in basis.iter().enumerate() { if d >> b & 1 == 1 { *x ^= y } } }
        }
        v
    }).collect();
    let c = Codec::new(m, f);
    let mut got = vec![vec![0u8; len]; f as usize];
    let mut ptrs: Vec<*mut u8> = got.iter_mut().map(|p| p.as_mut_ptr()).collect();
    let refs: Vec<*const u8> = data.iter().map(|d| d.as_ptr()).collect();
    unsafe { c.encode(len, &refs, &mut ptrs) };
    ensure!(got == want, "parity of {k}+{f} isn't what earlier versions wrote");
    // A stripe written by an earlier version can be repaired
    let lost = s.idx(k as usize);
    let mut er = fixedbitset::FixedBitSet::with_capacity(m as usize);
    er.insert(lost);
    while er.count_ones(..) < f as usize && s.bool() { er.insert(s.idx(m as usize)) }
    let surv: Vec<*const u8> = (0..m as usize).filter(|i| !er.contains(*i)).take(k as usize)
        .map(|i| if i < k as usize { data[i].as_ptr() } else { want[i - k as usize].as_ptr() }).collect();
    let missing: Vec<usize> = er.ones().filter(|i| *i < k as usize).collect();
    let mut out = vec![vec![0u8; len]; missing.len()];
    let mut ptrs: Vec<*mut u8> = out.iter_mut().map(|p| p.as_mut_ptr()).collect();
    unsafe { c.decode(len, &surv, &mut ptrs, &er) };
    for (o, i) in out.iter().zip(missing) { ensure!(*o == data[i], "column {i} of an older {k}+{f} stripe was repaired wrongly: {:?}", er.ones().collect::<Vec<_>>()) }
    Ok(())
}

/// MetroHash64 with seed 0, by its definition
fn metro(b: &[u8]) -> u64 {
    const K: [u64; 4] = [0xD6D0_18F5, 0xA2AA_033B, 0x6299_2FC1, 0x30BC_5B29];
    let r = |i: usize, n: usize| b[i..i + n].iter().rev().fold(0u64, |a, x| a << 8 | *x as u64);
    let mut h = 0u64.wrapping_add(K[2]).wrapping_mul(K[0]);
    let mut i = 0;
    if b.len() >= 32 {
        let mut v = [h; 4];
        while i + 32 <= b.len() {
            for (j, p) in [2, 3, 0, 1].iter().enumerate() {
                v[j] = v[j].wrapping_add(r(i + 8 * j, 8).wrapping_mul(K[j])).rotate_right(29).wrapping_add(v[*p]);
            }
            i += 32;
        }
        v[2] ^= v[0].wrapping_add(v[3]).wrapping_mul(K[0]).wrapping_add(v[1]).rotate_right(37).wrapping_mul(K[1]);
        v[3] ^= v[1].wrapping_add(v[2]).wrapping_mul(K[1]).wrapping_add(v[0]).rotate_right(37).wrapping_mul(K[0]);
        v[0] ^= v[0].wrapping_add(v[2]).wrapping_mul(K[0]).wrapping_add(v[3]).rotate_right(37).wrapping_mul(K[1]);
        v[1] ^= v[1].wrapping_add(v[3]).wrapping_mul(K[1]).wrapping_add(v[2]).rotate_right(37).wrapping_mul(K[0]);
        h = h.wrapping_add(v[0] ^ v[1]);
    }
    if b.len() - i >= 16 {
        let v0 = h.wrapping_add(r(i, 8).wrapping_mul(K[2])).rotate_right(29).wrapping_mul(K[3]);
        let v1 = h.wrapping_add(r(i + 8, 8).wrapping_mul(K[2])).rotate_right(29).wrapping_mul(K[3]);
        i += 16;
        let v0 = v0 ^ v0.wrapping_mul(K[0]).rotate_right(21).wrapping_add(v1);
        let v1 = v1 ^ v1.wrapping_mul(K[3]).rotate_right(21).wrapping_add(v0);
        h = h.wrapping_add(v1);
    }
    for (n, rot) in [(8, 55), (4, 26), (2, 48), (1, 37)] {
        if b.len() - i >= n {
            h = h.wrapping_add(r(i, n).wrapping_mul(K[3]));
            i += n;
            h ^= h.rotate_right(rot).wrapping_mul(K[1]);
        }
    }
    h ^= h.rotate_right(28);
    h = h.wrapping_mul(K[0]);
    h ^ h.rotate_right(29)
}

fn sum_case(s: &mut Src) -> R {
    let len = s.skew(0, 10_000) as usize;
    let seed = s.any();
    let data = engine::fill(seed, len);
    let parts = s.partition(len, 5);
    if parts.len() > 1 { s.nontrivial() }
    s.note(format!("{parts:?}"));
    let mut at = 0;
    let l: SGList = parts.iter().map(|n| { at += n; DivBufShared::from(data[at - n..at].to_vec()).try_const().unwrap() }).collect();
    let want = metro(&data);
    let mut h = metrohash::MetroHash64::new();
    checksum_sglist(&l, &mut h);
    ensure_eq!(h.finish(), want, "checksum of {len} bytes, list");
    let mut h = metrohash::MetroHash64::new();
    checksum_iovec(&data, &mut h);
    ensure_eq!(h.finish(), want, "checksum of {len} bytes");
    // Records are padded with zeros to whole blocks
    let p = copy_and_pad_sglist(vec![DivBufShared::from(data.clone()).try_const().unwrap()]);
    let flat: Vec<u8> = p.iter().flat_map(|b| b.iter().copied()).collect();
    ensure!(flat.len() % BYTES_PER_LBA == 0 && flat.len() >= len && flat.len() < len + BYTES_PER_LBA, "{len} bytes became {}", flat.len());
    ensure!(flat[..len] == data[..] && flat[len..].iter().all(|x| *x == 0), "padding changed the data");
    Ok(())
}

pub fn format() -> Property {
    Property { id: "C32", assumptions: &["The format written by the present version is that of earlier ones."],
        checks: vec![
            Check::new("placement", "Random legal geometry, chunk and run of chunks, against the definition of the layout; non-trivial = not in the first iteration of a repetition.", 500_000, 8_000_000, place_case),
            Check::new("parity", "Random data columns, up to 40 disks, against an independent GF(2⁸), then repair of the reference stripe; non-trivial = more than one parity column.", 200_000, 3_000_000, parity_case),
            Check::new("checksum", "Random data in random pieces, against an independent MetroHash64; padding to blocks; non-trivial = several pieces.", 1_500_000, 20_000_000, sum_case),
            Check::new("scalars", "Random addresses, record IDs, transactions and UUIDs, against written-out encodings; non-trivial = always.", 500_000, 5_000_000, crate::c_types::enc_case),
            Check::new("properties", "Random properties and names, against written-out encodings; non-trivial = always.", 1_000_000, 10_000_000, crate::c_types::prop_enc_case),
        ] }
}
