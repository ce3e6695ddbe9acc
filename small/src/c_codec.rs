use crate::{c_isal::{inv, mul}, raid::codec::Codec, types::SGList};
use divbuf::{DivBuf, DivBufShared};
use engine::{ensure, ensure_eq, fail, Check, Property, Src, R};
use fixedbitset::FixedBitSet;

const GUARD: usize = 64;
const G: u8 = 0xa5;
/// A buffer with guard bytes and a chosen alignment
pub struct Buf { v: Vec<u8>, off: usize, len: usize }
impl Buf {
    pub fn new(s: &mut Src, len: usize, init: u8) -> Buf {
        let off = GUARD + s.below(4) as usize * s.below(9) as usize;
        let mut v = vec![G; off + len + GUARD];
        v[off..off + len].fill(init);
        Buf { v, off, len }
    }
    pub fn ptr(&mut self) -> *mut u8 { unsafe { self.v.as_mut_ptr().add(self.off) } }
    pub fn get(&self) -> &[u8] { &self.v[self.off..self.off + self.len] }
    pub fn intact(&self) -> bool {
        self.v[..self.off].iter().all(|x| *x == G) && self.v[self.off + self.len..].iter().all(|x| *x == G)
    }
}

fn geometry(s: &mut Src, maxm: u64) -> (u32, u32) {
    let m = s.skew(2, maxm) as u32;
    let f = match s.below(3) { 0 => 1, 1 => s.range(1, (m as u64 - 1).min(4)), _ => s.range(1, m as u64 - 1) } as u32;
    (m, f)
}
fn length(s: &mut Src, max: u64) -> usize {
    match s.below(4) { 0 => s.range(1, 70), 1 => (s.range(1, max / 32) * 32).min(max), _ => s.skew(1, max) }.max(1) as usize
}
fn columns(s: &mut Src, k: u32, len: usize) -> Vec<Vec<u8>> {
    let mode = s.below(4);
    (0..k).map(|_| match mode {
        0 => { let b = s.below(256) as u8; vec![b; len] }
        1 => { let mut v = vec![0; len]; let i = s.idx(len); v[i] = s.range(1, 255) as u8; v }
        _ => { let seed = s.any(); engine::fill(seed, len) }
    }).collect()
}
fn encode(s: &mut Src, codec: &Codec, f: u32, len: usize, data: &[Vec<u8>]) -> Result<Vec<Vec<u8>>, engine::Bad> {
    let init = s.below(256) as u8;
    let mut ps: Vec<Buf> = (0..f).map(|_| Buf::new(s, len, init)).collect();
    let refs: Vec<*const u8> = data.iter().map(|d| d.as_ptr()).collect();
    let mut prefs: Vec<*mut u8> = ps.iter_mut().map(|p| p.ptr()).collect();
    unsafe { codec.encode(len, &refs, &mut prefs) };
    ensure!(ps.iter().all(|p| p.intact()), "encode wrote outside of a parity column");
    Ok(ps.iter().map(|p| p.get().to_vec()).collect())
}
fn rebuild(s: &mut Src, codec: &Codec, k: u32, len: usize, data: &[Vec<u8>], parity: &[Vec<u8>], er: &FixedBitSet) -> R {
    let k = k as usize;
    let lost: Vec<usize> = er.ones().filter(|x| *x < k).collect();
    if lost.is_empty() { return Ok(()); }
    let surv: Vec<*const u8> = (0..k + parity.len()).filter(|i| !er.contains(*i)).take(k)
        .map(|i| if i < k { data[i].as_ptr() } else { parity[i - k].as_ptr() }).collect();
    let mut out: Vec<Buf> = lost.iter().map(|_| Buf::new(s, len, 0x77)).collect();
    let mut ptrs: Vec<*mut u8> = out.iter_mut().map(|o| o.ptr()).collect();
    unsafe { codec.decode(len, &surv, &mut ptrs, er) };
    for (o, c) in out.iter().zip(&lost) {
        ensure!(o.intact(), "decode wrote outside of a column");
        ensure!(o.get() == &data[*c][..], "k={k} f={} len={len} erasures={:?}: column {c} was reconstructed wrongly",
            parity.len(), er.ones().collect::<Vec<_>>());
    }
    Ok(())
}

fn recon_case(s: &mut Src, maxm: u64, maxlen: u64) -> R {
    let (m, f) = geometry(s, maxm);
    let k = m - f;
    let len = length(s, maxlen);
    let codec = Codec::new(m, f);
    ensure_eq!((codec.stripesize(), codec.protection()), (m as i16, f as i16), "geometry");
    let data = columns(s, k, len);
    let parity = encode(s, &codec, f, len, &data)?;
    if f == 1 {
        for i in 0..len {
            ensure_eq!(data.iter().fold(0, |a, d| a ^ d[i]), parity[0][i], "single parity isn't the XOR at byte {i}");
        }
    }
    for _ in 0..3 {
        let ne = if s.chance(2, 3) { f as usize } else { s.urange(1, f as usize) };
        let mut cols: Vec<usize> = (0..m as usize).collect();
        let mut er = FixedBitSet::with_capacity(m as usize);
        for j in 0..ne {
            let x = j + s.idx(cols.len() - j);
            cols.swap(j, x);
            er.insert(cols[j]);
        }
        s.note(format!("{k}+{f}, {len} bytes, lost {:?}", er.ones().collect::<Vec<_>>()));
        if er.ones().any(|x| x < k as usize) { s.nontrivial(); }
        if er.count_ones(..k as usize) > 1 { s.class("multiple-data") }
        if er.ones().any(|x| x >= k as usize) { s.class("parity-too") }
        rebuild(s, &codec, k, len, &data, &parity, &er)?;
    }
    Ok(())
}

pub fn recon() -> Property {
    Property { id: "C05", assumptions: &["The surviving columns are given in the documented order: the lowest k of them."],
        checks: vec![
            Check::new("erasures", "Random geometry up to 24 columns, random data, random erasure sets of at most f columns; non-trivial = a data column was lost.",
                800_000, 8_000_000, |s| recon_case(s, 24, 600)),
            Check::new("erasures-wide", "As erasures, up to 255 columns; non-trivial = a data column was lost.",
                3_000, 120_000, |s| recon_case(s, 255, 300)),
            Check::new("erasures-long", "As erasures, up to 8 columns of up to 140 kB; non-trivial = a data column was lost.",
                90_000, 600_000, |s| recon_case(s, 8, 140_000)),
            Check::new("erasures-all", "For one geometry of up to 9 columns, every erasure set of at most f columns; non-trivial = always.",
                6_000, 60_000, |s| {
                    let m = s.range(2, 9) as u32;
                    let f = s.range(1, m as u64 - 1) as u32;
                    let k = m - f;
                    let len = s.urange(1, 40);
                    s.note(format!("{k}+{f} len {len}"));
                    s.nontrivial();
                    let codec = Codec::new(m, f);
                    let data = columns(s, k, len);
                    let parity = encode(s, &codec, f, len, &data)?;
                    for bits in 1u32..1 << m {
                        if bits.count_ones() > f { continue }
                        let mut er = FixedBitSet::with_capacity(m as usize);
                        for i in 0..m { if bits >> i & 1 == 1 { er.insert(i as usize) } }
                        rebuild(s, &codec, k, len, &data, &parity, &er)?;
                    }
                    Ok(())
                }),
        ] }
}

pub fn sg(parts: &[usize], v: &[u8]) -> (Vec<DivBufShared>, SGList) {
    let mut p = 0;
    let (mut dbss, mut l) = (vec![], vec![]);
    for n in parts {
        let dbs = DivBufShared::from(v[p..p + n].to_vec());
        p += n;
        l.push(dbs.try_const().unwrap());
        dbss.push(dbs);
    }
    assert_eq!(p, v.len());
    (dbss, l)
}

fn agree_case(s: &mut Src, maxm: u64, maxlen: u64) -> R {
    let (m, f) = geometry(s, maxm);
    let k = m - f;
    let len = length(s, maxlen);
    let codec = Codec::new(m, f);
    let data = columns(s, k, len);
    let parity = encode(s, &codec, f, len, &data)?;
    s.note(format!("{k}+{f}, {len} bytes"));
    // The combination that the on-disk format defines
    for _ in 0..4 {
        let (i, p) = (s.idx(len), s.below(f as u64) as u32);
        let want = data.iter().enumerate().fold(0, |a, (j, d)| a ^ if f == 1 { d[i] } else { mul(inv(((k + p) ^ j as u32) as u8), d[i]) });
        ensure_eq!(parity[p as usize][i], want, "byte {i} of parity column {p} of {k}+{f}");
    }
    // Vectored
    let same = s.chance(1, 4);
    let common = s.partition(len, 5);
    let mut keep = vec![];
    let lists: Vec<SGList> = data.iter().map(|d| {
        let parts = if same { common.clone() } else { s.partition(len, 5) };
        let (a, l) = sg(&parts, d);
        keep.push(a);
        l
    }).collect();
    s.note(format!("{:?}", lists.iter().map(|l| l.iter().map(|x| x.len()).collect::<Vec<_>>()).collect::<Vec<_>>()));
    if lists.iter().any(|l| l.len() > 1) { s.nontrivial() }
    let mut ps: Vec<Buf> = (0..f).map(|_| Buf::new(s, len, 0x33)).collect();
    let mut prefs: Vec<*mut u8> = ps.iter_mut().map(|p| p.ptr()).collect();
    unsafe { codec.encodev(len, &lists, &mut prefs) };
    for (i, p) in ps.iter().enumerate() {
        ensure!(p.intact(), "encodev wrote outside of a parity column");
        ensure!(p.get() == &parity[i][..], "encodev and encode disagree about parity column {i}");
    }
    for (l, d) in lists.iter().zip(&data) {
        ensure!(l.iter().flat_map(|x| x.iter().copied()).eq(d.iter().copied()), "encodev modified its input");
    }
    // Progressive
    let mut ps: Vec<Buf> = (0..f).map(|_| Buf::new(s, len, 0)).collect();
    let mut prefs: Vec<*mut u8> = ps.iter_mut().map(|p| p.ptr()).collect();
    let mut order: Vec<usize> = (0..k as usize).collect();
    s.shuffle(&mut order);
    for c in order { unsafe { codec.encode_update(len, &data[c], &mut prefs, c as u32) } }
    for (i, p) in ps.iter().enumerate() {
        ensure!(p.intact(), "encode_update wrote outside of a parity column");
        ensure!(p.get() == &parity[i][..], "encode_update and encode disagree about parity column {i}");
    }
    // Byte-wise: each byte position is encoded by itself
    let (a, b) = { let a = s.idx(len); (a, s.urange(a + 1, len)) };
    let sub: Vec<Vec<u8>> = data.iter().map(|d| d[a..b].to_vec()).collect();
    let sp = encode(s, &codec, f, b - a, &sub)?;
    for (i, p) in sp.iter().enumerate() { ensure!(p[..] == parity[i][a..b], "parity of a part of a row isn't that part of its parity") }
    Ok(())
}

pub fn agree() -> Property {
    Property { id: "C06", assumptions: &["Progressive encoding starts from zeroed parity.", "Scatter-gather lists hold no empty buffers, as the callers make none."],
        checks: vec![
            Check::new("encode-variants", "Random geometry up to 24 columns, random data and splits; contiguous, vectored, progressive and piecewise parity must agree; non-trivial = some column was in several pieces.",
                800_000, 8_000_000, |s| agree_case(s, 24, 600)),
            Check::new("encode-variants-long", "As encode-variants, up to 8 columns of up to 70 kB; non-trivial = some column was in several pieces.",
                120_000, 800_000, |s| agree_case(s, 8, 70_000)),
            Check::new("encode-variants-wide", "As encode-variants, up to 255 columns; non-trivial = some column was in several pieces.",
                50_000, 400_000, |s| agree_case(s, 255, 200)),
            Check::new("encode-variants-huge", "As encode-variants, up to 4 columns of up to 5 MB; non-trivial = some column was in several pieces.",
                200, 4_000, |s| agree_case(s, 4, 5_000_000)),
        ] }
}
