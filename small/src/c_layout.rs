use crate::raid::{declust::{ChunkId, Chunkloc, Locator}, prime_s::PrimeS};
use engine::{ensure, ensure_eq, Check, Property, Src, R};

const PRIMES: &[u64] = &[2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101, 103,
    107, 109, 113, 127, 131, 137, 139, 149, 151, 157, 163, 167, 173, 179, 181, 191, 193, 197, 199, 211];

#[derive(Clone, Copy, Debug)]
struct Geo { n: u64, k: u64, f: u64 }
impl Geo {
    fn any(s: &mut Src, maxp: usize) -> Geo {
        let n = PRIMES[match s.below(3) { 0 => maxp - 1 - s.idx(maxp), _ => s.idx(maxp) }];
        let k = match s.below(4) { 0 => n, 1 => s.range(2, n.min(9)), _ => s.range(2, n) };
        let f = match s.below(4) { 0 => 1, 1 => k - 1, 2 => s.range(1, (k - 1).min(4)), _ => s.range(1, k - 1) };
        let g = Geo { n, k, f };
        s.note(format!("{g:?}"));
        g
    }
    fn m(&self) -> u64 { self.k - self.f }
    /// Chunks of data in one repetition of the layout
    fn dc(&self) -> u64 { self.n * (self.n - 1) * self.m() }
    fn depth(&self) -> u64 { self.k * (self.n - 1) }
    /// As many repetitions as fit into 64 bits' worth of bytes, and a few more
    fn maxrep(&self) -> u64 { ((1 << 52) / self.dc().max(self.depth())).max(1 << 40) }
    fn new(&self) -> PrimeS { PrimeS::new(self.n as i16, self.k as i16, self.f as i16) }
    fn chunk(&self, stripe: u64, b: u64) -> ChunkId {
        if b < self.m() { ChunkId::Data(stripe * self.m() + b) } else { ChunkId::Parity(stripe * self.m(), (b - self.m()) as i16) }
    }
    fn some_stripe(&self, s: &mut Src) -> u64 {
        let per = self.n * (self.n - 1);
        let rep = s.skew(0, self.maxrep());
        // Favour the boundaries of iterations and repetitions
        let st = match s.below(4) {
            0 => s.below(per),
            1 => (s.below(self.n - 1) * self.n + s.below(3)) % per,
            2 => (s.range(1, self.n - 1) * self.n).saturating_sub(1 + s.below(2)) % per,
            _ => per - 1 - s.below(per.min(3)),
        };
        rep * per + st
    }
    fn some_chunk(&self, s: &mut Src) -> ChunkId {
        let st = self.some_stripe(s);
        let b = s.below(self.k);
        self.chunk(st, b)
    }
}

fn accessors(g: &Geo, l: &PrimeS) -> R {
    ensure_eq!(l.disks() as u64, g.n, "disks");
    ensure_eq!(l.stripesize() as u64, g.k, "stripesize");
    ensure_eq!(l.protection() as u64, g.f, "protection");
    ensure_eq!(l.datachunks(), g.dc(), "datachunks");
    ensure_eq!(l.depth() as u64, g.depth(), "depth");
    Ok(())
}

/// Numbers of disks that aren't prime, stripes that don't fit or have no data or no parity
fn illegal_case(s: &mut Src) -> R {
    let n = match s.below(3) { 0 => s.range(0, 260) as i64 - 5, 1 => *s.pick(PRIMES) as i64, _ => { let p = *s.pick(&PRIMES[..12]) as i64; let q = *s.pick(&PRIMES[..12]) as i64; if p * q < 256 { p * q } else { p * p % 256 } } };
    let k = if s.chance(1, 4) { s.range(0, n.max(1) as u64 + 3) as i64 - 1 } else { s.range(2, n.max(2) as u64) as i64 };
    let f = if s.chance(1, 4) { s.range(0, k.max(1) as u64 + 3) as i64 - 1 } else { s.range(1, (k - 1).max(1) as u64) as i64 };
    s.note(format!("n={n} k={k} f={f}"));
    let prime = n > 1 && (2..n).all(|d| n % d != 0);
    let legal = prime && k >= 2 && k <= n && f >= 1 && f < k;
    // There may be an upper limit
    if legal && n > 211 { return Ok(()) }
    if !legal { s.nontrivial() }
    if n > 1 && !prime { s.class("composite") }
    let ok = engine::catch(|| PrimeS::new(n as i16, k as i16, f as i16)).is_ok();
    ensure_eq!(ok, legal, "{n} disks, {k} columns, {f} parity accepted");
    Ok(())
}

/// A whole repetition
fn rep_case(s: &mut Src, maxp: usize) -> R {
    let g = Geo::any(s, maxp);
    let l = g.new();
    accessors(&g, &l)?;
    s.nontrivial();
    let rep = s.skew(0, g.maxrep());
    let (n, k, f, depth) = (g.n as usize, g.k, g.f, g.depth());
    let base = rep * depth;
    let mut used = vec![vec![false; depth as usize]; n];
    let mut nparity = vec![0u64; n];
    let mut last: Vec<Option<u64>> = vec![None; n];
    for st in 0..g.n * (g.n - 1) {
        let mut disks = vec![false; n];
        let st = rep * g.n * (g.n - 1) + st;
        for b in 0..k {
            let id = g.chunk(st, b);
            let loc = l.id2loc(id);
            ensure!(loc.disk >= 0 && (loc.disk as usize) < n, "{id:?} is on disk {}", loc.disk);
            let d = loc.disk as usize;
            ensure!(!disks[d], "two chunks of stripe {st} are on disk {d}");
            disks[d] = true;
            ensure!(loc.offset >= base && loc.offset - base < depth, "{id:?} is at {loc:?}, outside of its repetition");
            let o = (loc.offset - base) as usize;
            ensure!(!used[d][o], "{id:?} shares {loc:?} with another chunk");
            used[d][o] = true;
            if b >= g.m() { nparity[d] += 1 }
            ensure!(last[d].is_none_or(|x| x < loc.offset), "{id:?} at {loc:?} lies below an earlier stripe's chunk");
            last[d] = Some(loc.offset);
            let back = l.loc2id(loc.clone());
            ensure_eq!(back, id, "the chunk at {loc:?}");
        }
    }
    ensure!(used.iter().all(|u| u.iter().all(|x| *x)), "the layout leaves holes");
    ensure!(nparity.iter().all(|p| *p == f * (g.n - 1)), "parity is not spread evenly: {nparity:?}");
    Ok(())
}

fn point_case(s: &mut Src) -> R {
    let g = Geo::any(s, PRIMES.len());
    let l = g.new();
    accessors(&g, &l)?;
    s.nontrivial();
    for _ in 0..8 {
        let st = g.some_stripe(s);
        let mut seen = vec![false; g.n as usize];
        for b in 0..g.k {
            let id = g.chunk(st, b);
            let loc = l.id2loc(id);
            ensure!(loc.disk >= 0 && (loc.disk as u64) < g.n, "{id:?} is on disk {}", loc.disk);
            ensure!(!seen[loc.disk as usize], "two chunks of stripe {st} are on disk {}", loc.disk);
            seen[loc.disk as usize] = true;
            let back = l.loc2id(loc.clone());
            ensure_eq!(back, id, "the chunk at {loc:?}");
        }
        s.note(format!("stripe {st}"));
        let loc = Chunkloc { disk: s.below(g.n) as i16, offset: s.skew(0, g.maxrep() * g.depth()) };
        let id = l.loc2id(loc.clone());
        ensure_eq!(l.id2loc(id), loc, "location of {id:?}");
        ensure_eq!(id.is_data(), matches!(id, ChunkId::Data(_)));
        if let ChunkId::Parity(a, i) = id {
            ensure!(a % g.m() == 0 && i >= 0 && (i as u64) < g.f, "there is no chunk {id:?}");
        }
    }
    Ok(())
}

pub fn bijection() -> Property {
    Property { id: "C07", assumptions: &["The number of disks is a prime up to 215, as the constructor demands."],
        checks: vec![
            Check::new("layout-repetition", "Random geometry up to 13 disks; every chunk of one repetition is mapped there and back; non-trivial = always.",
                60_000, 600_000, |s| rep_case(s, 6)),
            Check::new("layout-repetition-wide", "As layout-repetition, up to 61 disks; non-trivial = always.",
                6_000, 60_000, |s| rep_case(s, 18)),
            Check::new("layout-illegal", "Numbers of disks, columns and parity, legal or not; exactly the illegal ones are refused; non-trivial = illegal.",
                60_000, 600_000, illegal_case),
            Check::new("layout-points", "Any legal geometry up to 211 disks; stripes and locations at the boundaries of iterations and repetitions and elsewhere; non-trivial = always.",
                240_000, 1_600_000, point_case),
        ] }
}

fn iter_case(s: &mut Src, maxp: usize) -> R {
    let g = Geo::any(s, maxp);
    let l = g.new();
    let per = g.n * (g.n - 1);
    let st = g.some_stripe(s);
    let b = s.below(g.k);
    // Cross some boundaries
    let len = match s.below(5) { 0 => s.below(3 * g.k), 1 => g.n * g.k + s.below(g.k), 2 if g.n < 20 => per * g.k + s.below(2 * g.k), _ => s.below(500) };
    let start = g.chunk(st, b);
    let endpos = st * g.k + b + len;
    let end = g.chunk(endpos / g.k, endpos % g.k);
    s.note(format!("{start:?} .. {end:?}: {len} chunks"));
    if (st * g.k + b) / g.k != endpos / g.k { s.class("crosses-stripe") }
    if st / g.n != endpos / g.k / g.n { s.nontrivial(); s.class("crosses-iteration") }
    if st / per != endpos / g.k / per { s.class("crosses-repetition") }
    let mut it = l.iter(start, end);
    for i in 0..len {
        let p = st * g.k + b + i;
        let want = g.chunk(p / g.k, p % g.k);
        let Some((id, loc)) = it.next() else { return engine::fail(format!("the iterator ended after {i} of {len} chunks")) };
        ensure_eq!(id, want, "chunk {i} of the iteration");
        ensure_eq!(loc, l.id2loc(id), "location of {id:?}, chunk {i} of the iteration");
    }
    for _ in 0..3 { ensure!(it.next().is_none(), "the iterator does not end at its end"); }
    Ok(())
}

fn parallel_case(s: &mut Src, maxp: usize) -> R {
    let g = Geo::any(s, maxp);
    let l = g.new();
    let id = g.some_stripe(s) * g.m() + s.below(g.m());
    let cnt = s.urange(1, 4 * g.n as usize);
    s.note(format!("{cnt} chunks from {id}"));
    if cnt > 1 { s.nontrivial() }
    let mut per = vec![0usize; g.n as usize];
    for i in 0..cnt {
        per[l.id2loc(ChunkId::Data(id + i as u64)).disk as usize] += 1;
        let bound = l.parallel_read_count(i + 1);
        ensure!(bound >= *per.iter().max().unwrap(), "reading {} chunks takes {} from one disk, more than the promised {bound}", i + 1, per.iter().max().unwrap());
        ensure!(bound <= (i + 1).div_ceil(g.n as usize) + 1, "the bound on reads of one disk is needlessly high: {bound} for {}", i + 1);
    }
    Ok(())
}

pub fn order() -> Property {
    Property { id: "C08", assumptions: &["The number of disks is a prime up to 215, as the constructor demands."],
        checks: vec![
            Check::new("layout-iter", "Random geometry up to 19 disks, ranges crossing stripes, iterations and repetitions; iteration must agree with random access; non-trivial = crossed an iteration.",
                1_200_000, 8_000_000, |s| iter_case(s, 8)),
            Check::new("layout-iter-wide", "As layout-iter, up to 211 disks; non-trivial = crossed an iteration.",
                60_000, 600_000, |s| iter_case(s, PRIMES.len())),
            Check::new("layout-parallel", "Random geometry and runs of consecutive data chunks; no disk may hold more of them than promised; non-trivial = more than one chunk.",
                120_000, 1_200_000, |s| parallel_case(s, 12)),
        ] }
}
