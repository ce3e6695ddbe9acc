use crate::{c_codec::sg, raid::sgcursor::SGCursor, types::SGList, util::*};
use divbuf::DivBufShared;
use engine::{ensure, ensure_eq, Check, Property, Src, R};
use std::{hash::Hasher, ops::{Bound, RangeBounds}};

fn cursor_case(s: &mut Src) -> R {
    let total = s.skew(0, 3000) as usize;
    let v = s.bytes(total);
    let parts = s.partition(total, 8);
    let (_keep, l) = sg(&parts, &v);
    s.note(format!("{parts:?}"));
    let mut c = SGCursor::from(&l);
    let mut pos = 0;
    let mut steps = vec![];
    let (mut seg, mut segpos) = (0, 0);
    loop {
        // What is left of the current buffer
        let left = if seg < parts.len() { parts[seg] - segpos } else { 0 };
        ensure_eq!(c.peek_len(), left, "peek_len at {pos} of {parts:?} after {steps:?}");
        let max = match s.below(4) { 0 => usize::MAX, 1 => left.max(1), _ => s.skew(1, 1000) as usize };
        let r = c.next(max);
        steps.push(max);
        if pos == total {
            ensure!(r.is_none(), "the cursor does not end");
            if steps.len() > parts.len() + 1 { s.nontrivial() }
            break;
        }
        let Some(iov) = r else { return engine::fail(format!("the cursor ended at {pos} of {total}")) };
        let want = left.min(max);
        ensure_eq!(iov.len(), want, "piece at {pos} of {parts:?} with max {max}");
        ensure!(iov[..] == v[pos..pos + want], "wrong data at {pos} of {parts:?}");
        pos += want;
        segpos += want;
        if segpos == parts[seg] { seg += 1; segpos = 0 }
    }
    s.note(format!("next {steps:?}"));
    Ok(())
}

const B: usize = BYTES_PER_LBA;
fn pad_case(s: &mut Src, runs: usize, blocks: usize) -> R {
    // Whole blocks, and runs of fragments that add up to whole blocks save at the end
    let mut parts: Vec<usize> = vec![];
    for _ in 0..s.urange(1, runs) {
        if s.chance(1, 3) { parts.push(B * s.urange(1, blocks)); continue }
        let head = if s.chance(1, 3) { B * s.urange(1, blocks) } else { 0 } + s.skew(1, B as u64 - 1) as usize;
        parts.push(head);
        let mut acc = head % B;
        for _ in 0..s.urange(0, 5) {
            let room = B - acc % B;
            let n = if s.chance(1, 3) { room } else { s.skew(1, B as u64 - 1) as usize };
            if n == B { continue }
            acc += n;
            parts.push(n);
            if acc % B == 0 { break }
        }
        if acc % B != 0 {
            if s.chance(1, 4) { break }
            parts.push(B - acc % B);
        }
    }
    let total: usize = parts.iter().sum();
    let v = s.bytes(total);
    let (_keep, l) = sg(&parts, &v);
    s.note(format!("{parts:?}"));
    if parts.iter().any(|p| p % B != 0) { s.nontrivial() }
    if total % B != 0 { s.class("padded") }
    let before: Vec<Vec<u8>> = l.iter().map(|x| x[..].to_vec()).collect();
    let keep: SGList = l.clone();
    let out = copy_and_pad_sglist(l);
    ensure!(keep.iter().zip(&before).all(|(a, b)| a[..] == b[..]), "the input was modified");
    ensure!(out.iter().all(|x| x.len() % B == 0 && !x.is_empty()), "pieces aren't whole blocks: {:?} from {parts:?}", out.iter().map(|x| x.len()).collect::<Vec<_>>());
    let flat: Vec<u8> = out.iter().flat_map(|x| x.iter().copied()).collect();
    ensure_eq!(flat.len(), total.div_ceil(B) * B, "total length of {parts:?}");
    ensure!(flat[..total] == v[..], "data changed by padding {parts:?}");
    ensure!(flat[total..].iter().all(|x| *x == 0), "padding isn't zero");
    ensure_eq!(sglist_len(&out), flat.len(), "sglist_len");
    Ok(())
}

struct Fnv(u64);
impl Hasher for Fnv {
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3) } }
    fn finish(&self) -> u64 { self.0 }
}

fn sum_case(s: &mut Src, max: u64, pieces: usize) -> R {
    let total = s.skew(0, max) as usize;
    let v = s.bytes(total);
    let mut parts = s.partition(total, pieces);
    for _ in 0..s.below(3) { let i = s.urange(0, parts.len()); parts.insert(i, 0) }
    let (_keep, l) = sg(&parts, &v);
    s.note(format!("{parts:?}"));
    if parts.len() > 1 { s.nontrivial() }
    let m = |f: &dyn Fn(&mut metrohash::MetroHash64)| { let mut h = metrohash::MetroHash64::new(); f(&mut h); h.finish() };
    let whole = DivBufShared::from(v.clone());
    let whole = whole.try_const().unwrap();
    let a = m(&|h| checksum_sglist(&l, h));
    let b = m(&|h| checksum_iovec(&whole, h));
    let c = m(&|h| h.write(&v));
    ensure_eq!(a, b, "checksum depends on how the data is split: {parts:?}");
    ensure_eq!(b, c, "checksum isn't that of the contents");
    let (mut f, mut g) = (Fnv(1), Fnv(1));
    checksum_sglist(&l, &mut f);
    g.write(&v);
    ensure_eq!(f.0, g.0, "checksum_sglist doesn't feed exactly the contents");
    let mut g = Fnv(1);
    checksum_iovec(&whole, &mut g);
    ensure_eq!(f.0, g.0, "checksum_iovec doesn't feed exactly the contents");
    ensure_eq!(sglist_len(&l), total, "sglist_len");
    if total > 0 {
        // Any change is noticed
        let mut w = v.clone();
        let i = s.idx(total);
        w[i] ^= s.range(1, 255) as u8;
        let (_k2, l2) = sg(&parts, &w);
        ensure!(m(&|h| checksum_sglist(&l2, h)) != a, "a corrupt byte {i} wasn't noticed");
    }
    let z = s.skew(1, 400_000) as usize;
    let zl = zero_sglist(z);
    ensure_eq!(sglist_len(&zl), z, "zero_sglist({z})");
    ensure!(zl.iter().all(|x| x.iter().all(|b| *b == 0)), "zero_sglist isn't all zeros");
    ensure!(zl.iter().all(|x| !x.is_empty()), "zero_sglist has empty buffers");
    ensure!(ZERO_REGION.try_const().unwrap().iter().all(|b| *b == 0), "the zero region has been modified");
    Ok(())
}

fn range_case(s: &mut Src) -> R {
    const N: u64 = 6;
    let b = |s: &mut Src| { let x = s.below(N) as i32; match s.below(3) { 0 => Bound::Included(x), 1 => Bound::Excluded(x), _ => Bound::Unbounded } };
    let r = (b(s), b(s));
    s.note(format!("{r:?}"));
    s.nontrivial();
    let got = <(Bound<i32>, Bound<i32>) as RangeBoundsExt<i32>>::is_empty(&r);
    // Every half-open and closed range that is empty by inspection, and no range with members
    let members = (-1..N as i32 + 1).any(|x| RangeBounds::contains(&r, &x));
    if members { ensure!(!got, "{r:?} has members, yet is empty") }
    match r {
        (Bound::Included(s), Bound::Included(e)) => ensure_eq!(got, s > e, "{r:?}"),
        (Bound::Included(s), Bound::Excluded(e)) => ensure_eq!(got, s >= e, "{r:?}"),
        (Bound::Excluded(s), Bound::Included(e)) => ensure_eq!(got, s >= e, "{r:?}"),
        // One that only lacks an integer in between isn't empty: the keys may be anything
        (Bound::Excluded(s), Bound::Excluded(e)) => ensure_eq!(got, s >= e, "{r:?}"),
        (Bound::Unbounded, _) | (_, Bound::Unbounded) => ensure!(!got, "{r:?} is unbounded, yet is empty"),
    }
    Ok(())
}

pub fn bytes() -> Property {
    Property { id: "C09", assumptions: &["Scatter-gather lists for the vectored codec hold no empty buffers.",
            "A list to be padded consists of whole blocks and of runs of fragments, each run adding up to whole blocks unless it is the last, as its callers make them."],
        checks: vec![
            Check::new("cursor", "Random lists and step limits; pieces must tile the data in order; non-trivial = a buffer was split.",
                4_000_000, 40_000_000, cursor_case),
            Check::new("pad", "Random lists of whole blocks and fragments; padded output must be the data plus zeros in whole blocks; non-trivial = there was a fragment.",
                200_000, 2_000_000, |s| pad_case(s, 5, 4)),
            Check::new("pad-long", "As pad, with up to 30 runs of up to 70 blocks.", 1_000, 10_000, |s| pad_case(s, 30, 70)),
            Check::new("checksum", "Random data split at random; checksums, lengths and zero lists; non-trivial = more than one piece.",
                160_000, 1_600_000, |s| sum_case(s, 10_000, 12)),
            Check::new("checksum-long", "As checksum, with up to 2 MB in up to 200 pieces.", 500, 5_000, |s| sum_case(s, 2_000_000, 200)),
            Check::new("range-empty", "Bounds over a small domain; non-trivial = always.", 100_000, 1_000_000, range_case),
        ] }
}
