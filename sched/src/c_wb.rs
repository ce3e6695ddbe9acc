//! Several threads that borrow and repay write-back credit, under generated schedules
use crate::writeback::{Credit, WriteBack};
use engine::{ensure, Bad, Check, Property, Src, R};
use futures::FutureExt;
use shuttle::{future::block_on, thread};
use std::sync::Arc;
// These are for bookkeeping only, and not subject to scheduling
use ::core::sync::atomic::{AtomicBool, AtomicI64, Ordering::SeqCst};

#[derive(Clone, Debug)]
enum Op {
    /// Borrow, and give it all back
    Whole(usize),
    /// Borrow, and give it back in pieces
    Pieces(usize, Vec<usize>),
    /// Borrow, take some by atomic_split in another thread, and repay from both
    Share(usize, usize),
    /// Borrow, but give up the n'th time that there isn't enough
    GiveUp(usize, usize),
    /// Do something else in between
    Yield,
}
struct Books { held: AtomicI64, cap: i64, over: AtomicBool }
impl Books {
    fn got(&self, n: usize) {
        let now = self.held.fetch_add(n as i64, SeqCst) + n as i64;
        if now > self.cap { self.over.store(true, SeqCst) }
    }
    fn gave(&self, n: usize) { self.held.fetch_sub(n as i64, SeqCst); }
}

fn run(wb: &Arc<WriteBack>, books: &Arc<Books>, op: &Op) {
    match op {
        Op::Whole(n) => {
            let c = block_on(wb.borrow(*n));
            books.got(*n);
            assert!(c == *n, "asked for {n} bytes of credit and got {c:?}");
            thread::yield_now();
            books.gave(*n);
            wb.repay(c);
        }
        Op::Pieces(n, parts) => {
            let mut c = block_on(wb.borrow(*n));
            books.got(*n);
            let mut left = *n;
            for p in parts {
                let p = (*p).min(left);
                let q = c.split(p);
                left -= p;
                books.gave(p);
                wb.repay(q);
            }
            books.gave(left);
            wb.repay(c);
        }
        Op::Share(n, k) => {
            let c = Arc::new(block_on(wb.borrow(*n)));
            books.got(*n);
            let c2 = c.clone();
            let k = *k;
            let other = thread::spawn(move || c2.atomic_split(k));
            let mine = c.atomic_split(k);
            let theirs = other.join().unwrap();
            let rest = Arc::try_unwrap(c).unwrap();
            let mut all = Credit::null();
            all.extend(mine);
            all.extend(theirs);
            let taken = (2 * k).min(*n);
            assert!(all == taken && rest == n - taken, "{n} bytes of credit were split into {all:?} and {rest:?}");
            books.gave(taken);
            wb.repay(all);
            books.gave(n - taken);
            wb.repay(rest);
        }
        Op::GiveUp(n, tries) => {
            let mut f = Box::pin(wb.borrow(*n));
            for _ in 0..=*tries {
                // He who gives up doesn't do so when he already has it
                if let Some(c) = (&mut f).now_or_never() {
                    books.got(*n);
                    assert!(c == *n, "asked for {n} bytes of credit and got {c:?}");
                    thread::yield_now();
                    books.gave(*n);
                    wb.repay(c);
                    return;
                }
                if *tries > 0 { thread::yield_now() }
            }
            // There's no other thread's turn between the last try and this
            if let Some(c) = (&mut f).now_or_never() { wb.repay(c) }
        }
        Op::Yield => thread::yield_now(),
    }
}

fn case(s: &mut Src) -> R {
    let cap = s.range(1, 12) as usize;
    let nthreads = s.urange(2, 4);
    let mut progs = vec![];
    for _ in 0..nthreads {
        let nops = s.urange(1, 4);
        let prog: Vec<Op> = (0..nops).map(|_| {
            let n = s.skew(0, cap as u64) as usize;
            match s.weighted(&[6, 3, 2, 1, 3]) {
                0 => Op::Whole(n),
                1 => { let m = s.urange(1, 3); Op::Pieces(n, (0..m).map(|_| s.urange(0, n)).collect()) }
                2 => Op::Share(n, s.urange(0, n)),
                3 => Op::Yield,
                _ => Op::GiveUp(n, s.urange(0, 3)),
            }
        }).collect();
        s.note(format!("thread: {prog:?}"));
        progs.push(prog);
    }
    let kind = s.below(4);
    let seed = s.any();
    s.note(format!("capacity {cap}, schedule {kind}/{seed}"));
    let biggest = |p: &Vec<Op>| p.iter().map(|o| match o { Op::Whole(n) | Op::Pieces(n, _) | Op::Share(n, _) | Op::GiveUp(n, _) => *n, _ => 0 }).max().unwrap_or(0);
    if progs.iter().map(biggest).sum::<usize>() > cap { s.nontrivial() }
    let over = Arc::new(AtomicBool::new(false));
    let over2 = over.clone();
    crate::explore(kind, seed, move || {
        let wb = Arc::new(WriteBack::with_capacity(cap));
        let books = Arc::new(Books { held: AtomicI64::new(0), cap: cap as i64, over: AtomicBool::new(false) });
        let ts: Vec<_> = progs.iter().map(|p| {
            let (p, wb, books) = (p.clone(), wb.clone(), books.clone());
            thread::spawn(move || for op in &p { run(&wb, &books, op) })
        }).collect();
        for t in ts { t.join().unwrap() }
        assert!(!books.over.load(SeqCst), "more credit was on loan than the {cap} bytes there are");
        let Some(c) = wb.borrow(cap).now_or_never() else { panic!("not all of the {cap} bytes came back") };
        assert!(wb.borrow(1).now_or_never().map(::core::mem::forget).is_none(), "the limit of {cap} bytes was exceeded");
        wb.repay(c);
    });
    ensure!(!over2.load(SeqCst) && !over.load(SeqCst));
    Ok(())
}

pub fn property() -> Property {
    Property { id: "C15", assumptions: &["A thread waits for credit only while holding none.", "Sequentially consistent interleavings (as on x86); weaker memory orders are not explored.", "A borrower that was already awakened does not give up (that is the known finding of C04)."],
        checks: vec![Check::new("writeback-schedules", "2-4 threads that borrow, split, repay and give up waiting, each under one generated schedule (random or priority-based) of every atomic and lock operation; no deadlock, never over the limit, all credit comes back; non-trivial = the threads' biggest loans don't all fit.",
            500_000, 6_000_000, case)] }
}
