use crate::writeback::{Credit, WriteBack};
use engine::{ensure, ensure_eq, exec::Task, fail, Check, Property, Src, R};
use futures::FutureExt;

/// The whole number of bytes in a credit
fn bytes(c: &mut Credit) -> i64 { (c + 0usize) as i64 }

struct Held { c: Credit, lo: i64 }

fn credit_case(s: &mut Src) -> R {
    let huge = s.chance(1, 8);
    let cap = if huge { s.skew(1, 1 << 61) } else { s.skew(1, 1000) } as usize;
    let limitless = s.chance(1, 50);
    let wb = if limitless { WriteBack::limitless() } else { WriteBack::with_capacity(cap) };
    let cap = wb.capacity().min(if limitless { usize::MAX } else { cap });
    ensure!(!limitless || cap >= 1 << 60, "limitless is {cap}");
    ensure_eq!(wb.capacity(), cap, "capacity");
    // Nobody borrows so much that there could be no more of it
    let cap = cap.min(1 << 61);
    let mut held: Vec<Credit> = vec![];
    // In half bytes
    let mut nops = s.urange(1, 40);
    s.note(format!("capacity {cap}"));
    let mut total: i64 = 0;
    let mut depth = 0;
    // Everything is repaid in the end, whatever happens
    let mut res = Ok(());
    while nops > 0 {
        nops -= 1;
        let r = (|| -> R {
            let sum: i64 = held.iter_mut().map(bytes).sum();
            // Splitting in two may leave half a byte on either side
            ensure!(sum <= total && sum >= total - held.len() as i64, "credits of {total} bytes became {sum}");
            let op = s.weighted(&[6, 4, 4, 4, 3, 3, 3, 3, 1, 2]);
            if op == 0 {
                let free = cap as i64 - total;
                let n = s.skew(0, free as u64) as usize;
                s.note(format!("borrow {n}"));
                match wb.borrow(n).now_or_never() {
                    None => return fail(format!("borrow({n}) slept though {free} of {cap} were free")),
                    Some(mut c) => {
                        let ok = c == n && bytes(&mut c) == n as i64 && c.is_null() == (n == 0);
                        held.push(c);
                        total += n as i64;
                        ensure!(ok, "borrow({n}) gave {:?}", held.last());
                    }
                }
                return Ok(());
            }
            if held.is_empty() { return Ok(()); }
            let i = s.idx(held.len());
            let before = bytes(&mut held[i]);
            match op {
                1 | 2 | 9 => {
                    // Nobody has 2^62 bytes, of which half bytes cannot be counted
                    let n = s.skew(0, (before as u64 + 3).min((1 << 62) - 1)) as usize;
                    s.note(format!("{} {n} off of {before}", if op == 1 { "split" } else { "atomic_split" }));
                    let mut c = if op == 1 { held[i].split(n) } else { held[i].atomic_split(n) };
                    let (a, b) = (bytes(&mut c), bytes(&mut held[i]));
                    held.push(c);
                    if n as i64 > before { s.class("saturated") }
                    let want = before.min(n as i64);
                    ensure_eq!(a, want, "split({n}) of {before}");
                    ensure_eq!(b, before - want, "rest of split({n}) of {before}");
                    ensure!(a >= 0 && b >= 0, "negative credit");
                }
                3 => {
                    let n = s.skew(0, before as u64) as isize;
                    s.note(format!("isplit {n} off of {before}"));
                    let mut c = held[i].isplit(n);
                    let (a, b) = (bytes(&mut c), bytes(&mut held[i]));
                    held.push(c);
                    ensure_eq!(a, n as i64, "isplit({n})");
                    ensure_eq!(b, before - n as i64, "rest of isplit({n})");
                }
                4 => {
                    s.note(format!("halve {before}"));
                    let mut c = held[i].halve();
                    let (a, b) = (bytes(&mut c), bytes(&mut held[i]));
                    held.push(c);
                    depth += 1;
                    ensure!(a + b == before || a + b == before - 1, "halves {a} and {b} of {before}");
                    ensure!((a - b).abs() <= 1, "unequal halves {a} and {b}");
                }
                5 => {
                    s.note(format!("take {before}"));
                    let c = held[i].take();
                    let rest = bytes(&mut held[i]);
                    held.push(c);
                    let (a, z) = (bytes(held.last_mut().unwrap()), rest);
                    ensure_eq!((a, z), (before, 0), "take");
                }
                6 => {
                    if held.len() < 2 { return Ok(()); }
                    let c = held.swap_remove(i);
                    let j = s.idx(held.len());
                    s.note(format!("extend by {before}"));
                    let b = bytes(&mut held[j]);
                    held[j].extend(c);
                    let a = bytes(&mut held[j]);
                    ensure!(a == b + before || a == b + before + 1, "extend of {b} by {before} gave {a}");
                    s.nontrivial();
                }
                7 => {
                    let c = held.swap_remove(i);
                    let rest: i64 = held.iter_mut().map(bytes).sum();
                    s.note(format!("repay {before}"));
                    wb.repay(c);
                    // Half bytes go back too, so just bound it
                    total = total.min(rest + held.len() as i64).min(total - before);
                    if held.is_empty() { total = 0 }
                }
                _ => {
                    let n = s.skew(0, 2 * before as u64 + 2) as usize;
                    let c = &mut held[i];
                    ensure_eq!(&mut *c + n, (before + n as i64) as isize, "credit + {n}");
                    ensure_eq!(&mut *c - n, (before - n as i64) as isize, "credit - {n}");
                    ensure_eq!(*c == n, before == n as i64, "credit == {n}");
                    ensure_eq!(*c < n, before < n as i64, "credit < {n}");
                    ensure_eq!(*c >= n, before >= n as i64, "credit >= {n}");
                    ensure_eq!(*c > n, before > n as i64, "credit > {n}");
                }
            }
            Ok(())
        })();
        if r.is_err() { res = r; break }
    }
    let _ = depth;
    if res.is_err() { held.into_iter().for_each(std::mem::forget); return res; }
    for c in held { wb.repay(c) }
    match wb.borrow(cap).now_or_never() {
        None => fail(format!("not all of the {cap} bytes came back")),
        Some(c) => {
            // Nothing remains.  A zero-byte loan is always free.
            let over = cap < (1 << 60) && wb.borrow(1).now_or_never().map(std::mem::forget).is_some();
            wb.repay(c);
            ensure!(!over, "the limit of {cap} bytes was exceeded");
            Ok(())
        }
    }
}

/// Signed splits of more than there is: what they leave is a debt, and doesn't get lost either
fn debt_case(s: &mut Src) -> R {
    let cap = s.skew(1, 5000) as usize;
    let wb = WriteBack::with_capacity(cap);
    let mut held = vec![(wb.borrow(cap).now_or_never().unwrap(), cap as i64)];
    let nops = s.urange(1, 25);
    s.note(format!("capacity {cap}"));
    let r = (|| -> R {
        for _ in 0..nops {
            let i = s.idx(held.len());
            let before = held[i].1;
            match s.below(6) {
                0 | 1 => {
                    let n = s.range(0, 2 * cap as u64) as i64 - if s.chance(1, 4) { cap as i64 } else { 0 };
                    s.note(format!("isplit {n} off of {before}"));
                    let c = held[i].0.isplit(n as isize);
                    held[i].1 -= n;
                    if held[i].1 < 0 || n < 0 { s.nontrivial() }
                    held.push((c, n));
                }
                2 => {
                    let n = s.skew(0, 2 * cap as u64) as usize;
                    let atomic = s.bool();
                    s.note(format!("split {n} off of {before}, atomically: {atomic}"));
                    let mut c = if atomic { held[i].0.atomic_split(n) } else { held[i].0.split(n) };
                    let (a, b) = (bytes(&mut c), bytes(&mut held[i].0));
                    held.push((c, a));
                    held[i].1 = b;
                    ensure_eq!(a + b, before, "sum of the parts {a} and {b}");
                    if before >= 0 { ensure_eq!(a, before.min(n as i64), "split({n}) of {before}") }
                    else { ensure!(a <= 0, "a debt of {before} was split into {a} and {b}") }
                }
                3 => {
                    s.note(format!("take {before}"));
                    let c = held[i].0.take();
                    held[i].1 = 0;
                    held.push((c, before));
                }
                _ => {
                    if held.len() < 2 { continue }
                    let (c, n) = held.swap_remove(i);
                    let j = s.idx(held.len());
                    s.note(format!("extend {} by {n}", held[j].1));
                    held[j].0.extend(c);
                    held[j].1 += n;
                }
            }
            for (c, n) in &mut held {
                ensure_eq!(bytes(c), *n, "credit");
                ensure_eq!(c.is_null(), *n == 0, "is_null of {n}");
                for x in [0, *n, *n + 1, -*n, cap as i64] {
                    if x < 0 { continue }
                    ensure_eq!(*c == x as usize, *n == x, "{n} == {x}");
                    ensure_eq!(*c < x as usize, *n < x, "{n} < {x}");
                    ensure_eq!(*c > x as usize, *n > x, "{n} > {x}");
                }
            }
        }
        Ok(())
    })();
    if r.is_err() { held.into_iter().for_each(|(c, _)| std::mem::forget(c)); return r }
    let (mut all, _) = held.pop().unwrap();
    for (c, _) in held { all.extend(c) }
    let n = bytes(&mut all);
    if n != cap as i64 { std::mem::forget(all); return fail(format!("{cap} bytes became {n}")) }
    wb.repay(all);
    match wb.borrow(cap).now_or_never() { Some(c) => { wb.repay(c); Ok(()) } None => fail(format!("not all of the {cap} bytes came back")) }
}

pub fn credit() -> Property {
    Property { id: "C03", assumptions: &["Credit is repaid to the cache that it was borrowed from.", "Signed splits that take more than there is leave a debt, which is settled before anything is repaid."],
        checks: vec![Check::new("credit-algebra", "Random borrow/split/atomic_split/isplit/halve/take/extend/repay histories; credits must add up after every step and all of the capacity must come back; non-trivial = some credits were merged again.",
            4_000_000, 40_000_000, credit_case),
            Check::new("credit-debt", "Random isplit/split/atomic_split/take/extend histories in which some signed splits take more than there is; credits and debts must add up; non-trivial = something went negative.",
            1_000_000, 10_000_000, debt_case)] }
}

/// Borrowers that sleep, wake, give up and repay, on one thread
fn limit_case(s: &mut Src) -> R {
    let cap = if s.chance(1, 8) { s.skew(1, 1 << 61) } else { s.skew(1, 40) } as usize;
    let limitless = s.chance(1, 50);
    let wb = if limitless { WriteBack::limitless() } else { WriteBack::with_capacity(cap) };
    let cap = wb.capacity().min(if limitless { usize::MAX } else { cap });
    ensure!(!limitless || cap >= 1 << 60, "limitless is {cap}");
    ensure_eq!(wb.capacity(), cap, "capacity");
    struct B<'a> { t: Task<'a, Credit>, n: usize, born: usize, gone: bool }
    let mut bs: Vec<B> = vec![];
    let mut held: Vec<(Credit, usize)> = vec![];
    let nops = s.urange(1, 60);
    s.note(format!("capacity {cap}"));
    let r = (|| -> R {
        for step in 0..nops {
            let mut repaid = false;
            match s.weighted(&[6, 5, 3, 1]) {
                0 => {
                    let n = s.skew(0, cap as u64) as usize;
                    let waiting = bs.iter().filter(|b| !b.t.done() && !b.gone).count();
                    bs.push(B { t: Task::new(wb.borrow(n)), n, born: step, gone: false });
                    let b = bs.last_mut().unwrap();
                    let now = b.t.poll();
                    s.note(format!("borrow {n} {}", if now { "ok" } else { "sleeps" }));
                    if !now { s.class("sleeps"); if waiting > 0 { s.class("queue>1") } }
                    if now && n > 0 { ensure!(waiting == 0, "borrow({n}) overtook {waiting} waiting borrower(s)"); }
                }
                1 | 2 => {
                    if held.is_empty() { continue }
                    let i = s.idx(held.len());
                    let (mut c, n) = held.swap_remove(i);
                    let part = s.chance(1, 4);
                    repaid = n > 0;
                    if part && n > 1 {
                        let k = s.urange(1, n - 1);
                        held.push((c.split(n - k), n - k));
                        s.note(format!("repay {k} of {n}"));
                        wb.repay(c);
                    } else {
                        s.note(format!("repay {n}"));
                        wb.repay(c);
                    }
                }
                _ => {
                    // Give up before having been granted
                    let w: Vec<usize> = (0..bs.len()).filter(|i| !bs[*i].t.done() && !bs[*i].t.woken()).collect();
                    if w.is_empty() { continue }
                    let i = *s.pick(&w);
                    s.note(format!("borrower of {} gives up", bs[i].n));
                    bs[i].t.cancel();
                    bs[i].gone = true;
                    s.class("gives-up");
                }
            }
            // Poll whoever was woken
            for b in bs.iter_mut() { if b.t.woken() { b.t.poll(); s.nontrivial(); } }
            settle(&mut bs.iter_mut().map(|b| (&mut b.t, b.n, b.gone)).collect::<Vec<_>>(), &mut held)?;
            let out: usize = held.iter().map(|h| h.1).sum();
            ensure!(out <= cap, "{out} bytes are on loan, more than the {cap} there are");
            bs.retain(|b| !b.t.done());
            // Whoever is first in line is served as soon as there is enough for him
            if let Some(b) = bs.iter().find(|b| !b.gone) {
                if repaid { ensure!(b.n > cap - out, "a borrower of {} sleeps though only {out} of {cap} bytes are on loan", b.n) }
            }
            // Nobody may sleep when there is nothing to wait for
            if out == 0 { ensure!(bs.is_empty(), "{} borrower(s) sleep though nothing is on loan", bs.len()) }
        }
        let mut fuel = 10_000;
        while !held.is_empty() || !bs.is_empty() {
            fuel -= 1;
            ensure!(fuel > 0, "no end");
            ensure!(!held.is_empty(), "{} borrower(s) sleep though nothing is on loan", bs.len());
            let (c, _) = held.remove(0);
            wb.repay(c);
            for b in bs.iter_mut() { if b.t.woken() { b.t.poll(); } }
            settle(&mut bs.iter_mut().map(|b| (&mut b.t, b.n, b.gone)).collect::<Vec<_>>(), &mut held)?;
            bs.retain(|b| !b.t.done());
        }
        Ok(())
    })();
    let leaked = r.is_err();
    if leaked { held.into_iter().for_each(|h| std::mem::forget(h.0)); std::mem::forget(bs); return r; }
    drop(bs);
    match wb.borrow(cap).now_or_never() {
        None => fail(format!("not all of the {cap} bytes came back")),
        Some(c) => {
            let over = wb.borrow(1).now_or_never().map(std::mem::forget).is_some();
            wb.repay(c);
            ensure!(!over, "the limit of {cap} bytes was exceeded");
            Ok(())
        }
    }
}
/// Collect new credits, checking that they were granted in the order of arrival
fn settle(bs: &mut [(&mut Task<'_, Credit>, usize, bool)], held: &mut Vec<(Credit, usize)>) -> R {
    let mut waiting: Option<usize> = None;
    let mut res = Ok(());
    for (t, n, gone) in bs.iter_mut() {
        if let Some(c) = t.out.take() {
            let ok = c == *n;
            held.push((c, *n));
            if !ok { res = fail(format!("asked for {n}, got {:?}", held.last())) }
            if let Some(w) = waiting { if *n > 0 { res = fail(format!("a borrower of {n} was served before one of {w} that came first")) } }
        } else if !t.done() && !*gone { waiting.get_or_insert(*n); }
    }
    res
}

/// A borrower that gives up after it was awakened, but before it has taken its credit
fn abandoned_awakened(_s: &mut Src) -> R {
    let wb = WriteBack::with_capacity(10);
    let c = wb.borrow(10).now_or_never().unwrap();
    let mut t = Task::new(wb.borrow(4));
    t.poll();
    wb.repay(c);
    ensure!(t.woken(), "the borrower wasn't awakened");
    drop(t);
    match wb.borrow(10).now_or_never() {
        Some(c) => { wb.repay(c); Ok(()) }
        None => fail("The credit granted to a borrower that gave up before taking it is lost".to_string())
    }
}

pub fn limit() -> Property {
    Property { id: "C04", assumptions: &["No single request exceeds the whole capacity.", "Except in the recorded case, a borrower that gives up does so before it has been granted its credit."],
        checks: vec![Check::new("limit-fifo", "Random borrow/sleep/repay/partial-repay/give-up histories on one thread; never over the limit, FIFO, no sleeper without a reason, all credit returns; non-trivial = a sleeper was woken.",
            3_000_000, 30_000_000, limit_case),
            Check::known("abandoned-after-wakeup", abandoned_awakened)] }
}
