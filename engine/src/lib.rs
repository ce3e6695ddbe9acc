//! A small property-based testing engine.
//!
//! A case is a pure function of a *tape*: the sequence of integers its
//! generators drew.  Fresh cases draw from a seeded PRNG and record what they
//! drew; shrinking edits the tape (deletes blocks, zeroes blocks, lowers single
//! values) and re-runs the case; a replay file is a tape.  A tape that runs out
//! yields zeros, so every generator makes its simplest choice for 0.
use std::{
    any::Any,
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    fmt::Display,
    panic::{catch_unwind, AssertUnwindSafe},
    io::Write,
    path::{Path, PathBuf},
    process::{Command, Stdio},
    sync::{
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering},
        Mutex,
    },
    time::{Duration, Instant},
};

pub mod exec;

#[derive(Debug)]
pub enum Bad {
    /// The generator produced something outside of the property's domain
    Discard,
    Fail(String),
}
pub type R = Result<(), Bad>;

pub fn fail<T>(s: impl Into<String>) -> Result<T, Bad> { Err(Bad::Fail(s.into())) }

#[macro_export]
macro_rules! ensure {
    ($c:expr) => { if !$c { return Err($crate::Bad::Fail(format!("{}:{}: {}", file!(), line!(), stringify!($c)))); } };
    ($c:expr, $($a:tt)+) => { if !$c { return Err($crate::Bad::Fail(format!($($a)+))); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($l:expr, $r:expr) => { $crate::ensure_eq!($l, $r, "") };
    ($l:expr, $r:expr, $($a:tt)+) => {{
        let (l, r) = (&$l, &$r);
        if l != r {
            return Err($crate::Bad::Fail(format!("{} [{} != {}] left={} right={}", format!($($a)+),
                stringify!($l), stringify!($r), $crate::clip(&format!("{l:?}")), $crate::clip(&format!("{r:?}")))));
        }
    }};
}
pub fn clip(s: &str) -> String {
    if s.len() <= 400 { s.to_string() } else {
        let mut i = 400;
        while !s.is_char_boundary(i) { i -= 1 }
        format!("{}...({} bytes)", &s[..i], s.len())
    }
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
pub fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| mix(h ^ b as u64))
}

/// The source of all of a case's choices
pub struct Src {
    tape: Vec<u64>,
    pos: usize,
    rng: Option<u64>,
    pub log: Vec<String>,
    log_bytes: usize,
    interesting: bool,
    classes: Vec<&'static str>,
    /// Where to keep a copy of the tape, for when this case ends the process
    copy: Option<std::fs::File>,
}

impl Src {
    pub fn fresh(seed: u64) -> Self {
        Src { tape: Vec::new(), pos: 0, rng: Some(seed), log: vec![], log_bytes: 0, interesting: false, classes: vec![], copy: None }
    }
    pub fn replay(tape: Vec<u64>) -> Self {
        Src { tape, pos: 0, rng: None, log: vec![], log_bytes: 0, interesting: false, classes: vec![], copy: None }
    }
    /// Another source, for something that runs at the same time
    pub fn child(&mut self) -> Self { Self::fresh(self.any()) }
    /// Its notes and classes, after all
    pub fn join(&mut self, who: &str, c: Src) {
        for l in c.log { self.note(format!("{who}: {l}")) }
        for k in c.classes { self.class(k) }
    }
    fn next_raw(s: &mut u64) -> u64 {
        *s = s.wrapping_add(0x9e3779b97f4a7c15);
        mix(*s)
    }
    /// A number in 0..=max, made by `f` if fresh
    fn draw_with(&mut self, max: u64, f: impl FnOnce(&mut u64) -> u64) -> u64 {
        let v = match &mut self.rng {
            Some(s) => {
                let v = f(s);
                debug_assert!(v <= max);
                self.tape.push(v);
                if let Some(f) = &mut self.copy { let _ = f.write_all(&v.to_le_bytes()); }
                v
            }
            None => {
                let v = self.tape.get(self.pos).copied().unwrap_or(0);
                if v <= max { v } else { v % (max + 1) }
            }
        };
        self.pos += 1;
        v
    }
    /// Uniform in 0..n
    #[track_caller]
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        self.draw_with(n - 1, |s| ((Self::next_raw(s) as u128 * n as u128) >> 64) as u64)
    }
    #[track_caller]
    pub fn idx(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    /// Uniform in lo..=hi
    #[track_caller]
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        if lo == 0 && hi == u64::MAX { return self.any(); }
        lo + self.below(hi - lo + 1)
    }
    #[track_caller]
    pub fn urange(&mut self, lo: usize, hi: usize) -> usize { self.range(lo as u64, hi as u64) as usize }
    /// lo..=hi, favouring the ends and small magnitudes
    #[track_caller]
    pub fn skew(&mut self, lo: u64, hi: u64) -> u64 {
        let span = hi - lo;
        lo + self.draw_with(span, |s| {
            let r = Self::next_raw(s);
            match r % 8 {
                0 => 0,
                1 => span,
                2 => (r >> 8).checked_rem(span.saturating_add(1).min(4)).unwrap_or(0),
                3 => span - ((r >> 8) % span.saturating_add(1).min(4)),
                4 | 5 => {
                    // log-uniform
                    let bits = 64 - span.leading_zeros() as u64;
                    let b = (r >> 8) % (bits + 1);
                    let m = if b == 64 { u64::MAX } else { (1 << b) - 1 };
                    (Self::next_raw(s) & m).min(span)
                }
                _ => if span == u64::MAX { Self::next_raw(s) } else {
                    ((Self::next_raw(s) as u128 * (span as u128 + 1)) >> 64) as u64
                }
            }
        })
    }
    pub fn any(&mut self) -> u64 { self.draw_with(u64::MAX, Self::next_raw) }
    /// True with probability n/d
    #[track_caller]
    pub fn chance(&mut self, n: u64, d: u64) -> bool {
        self.draw_with(1, |s| (Self::next_raw(s) % d < n) as u64) == 1
    }
    pub fn bool(&mut self) -> bool { self.chance(1, 2) }
    #[track_caller]
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.idx(v.len())] }
    /// Index into `w`, with these weights
    #[track_caller]
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|x| *x as u64).sum();
        let i = self.draw_with(w.len() as u64 - 1, |s| {
            let mut r = Self::next_raw(s) % total;
            for (i, x) in w.iter().enumerate() {
                if r < *x as u64 { return i as u64; }
                r -= *x as u64;
            }
            unreachable!()
        }) as usize;
        // an edited tape may say something of no weight
        if w[i] > 0 { i } else { w.iter().position(|x| *x > 0).unwrap() }
    }
    /// `n` bytes, cheap: a single draw seeds them
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let seed = self.any();
        fill(seed, n)
    }
    /// Split `total` into a list of positive parts
    pub fn partition(&mut self, total: usize, max_parts: usize) -> Vec<usize> {
        if total == 0 { return vec![]; }
        let n = self.urange(1, max_parts.min(total));
        let mut cuts: Vec<usize> = (1..n).map(|_| self.urange(1, total - 1)).collect();
        cuts.push(total);
        cuts.sort();
        cuts.dedup();
        let mut p = 0;
        cuts.into_iter().map(|c| { let r = c - p; p = c; r }).collect()
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = i - self.idx(i + 1);
            v.swap(i, j);
        }
    }
    /// A human-readable record of the case, for samples and replay files
    pub fn note(&mut self, s: impl Display) {
        if self.log_bytes < 200_000 {
            let s = s.to_string();
            self.log_bytes += s.len();
            self.log.push(s);
        }
    }
    /// This case is non-trivial by the check's rule
    pub fn nontrivial(&mut self) { self.interesting = true }
    pub fn class(&mut self, c: &'static str) { if !self.classes.contains(&c) { self.classes.push(c) } }
}

pub fn fill(seed: u64, n: usize) -> Vec<u8> {
    match seed {
        0 => return vec![0; n],
        _ => {}
    }
    let mut v = Vec::with_capacity(n + 8);
    let mut s = seed;
    while v.len() < n {
        v.extend_from_slice(&Src::next_raw(&mut s).to_le_bytes());
    }
    v.truncate(n);
    v
}

thread_local! {
    static QUIET: RefCell<Option<String>> = const { RefCell::new(None) };
    static CATCHING: RefCell<bool> = const { RefCell::new(false) };
}
static PANICS_ELSEWHERE: Mutex<Vec<String>> = Mutex::new(Vec::new());

pub fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        let msg = {
            let p: &dyn Any = i.payload();
            let s = p.downcast_ref::<&str>().map(|s| s.to_string())
                .or_else(|| p.downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "panic".into());
            match i.location() {
                Some(l) => format!("panicked at {}:{}: {}", l.file(), l.line(), s),
                None => format!("panicked: {s}"),
            }
        };
        if std::env::var_os("VERIF_BACKTRACE").is_some() {
            eprintln!("{msg}\n{}", std::backtrace::Backtrace::force_capture());
        }
        if CATCHING.with(|c| *c.borrow()) {
            QUIET.with(|q| *q.borrow_mut() = Some(msg));
        } else {
            if let Ok(mut g) = PANICS_ELSEWHERE.lock() { g.push(msg) }
            old(i);
        }
    }));
}

/// Run one case, turning panics into failures
pub fn run_case(f: &dyn Fn(&mut Src) -> R, src: &mut Src) -> R {
    CATCHING.with(|c| *c.borrow_mut() = true);
    QUIET.with(|q| *q.borrow_mut() = None);
    let r = catch_unwind(AssertUnwindSafe(|| f(src)));
    CATCHING.with(|c| *c.borrow_mut() = false);
    match r {
        Ok(r) => r,
        Err(_) => Err(Bad::Fail(QUIET.with(|q| q.borrow_mut().take()).unwrap_or_else(|| "panicked".into()))),
    }
}
/// A panic that somebody else (a task's executor) caught during this case
pub fn stray_panic() -> Option<String> { QUIET.with(|q| q.borrow_mut().take()) }
/// Run `f`, and say whether it panicked
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = CATCHING.with(|c| std::mem::replace(&mut *c.borrow_mut(), true));
    let r = catch_unwind(AssertUnwindSafe(f));
    CATCHING.with(|c| *c.borrow_mut() = was);
    r.map_err(|_| QUIET.with(|q| q.borrow_mut().take()).unwrap_or_else(|| "panicked".into()))
}

pub type CaseFn = Box<dyn Fn(&mut Src) -> R + Sync + Send>;

pub struct Check {
    pub name: &'static str,
    /// What a case is, and what makes it non-trivial
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: CaseFn,
    /// Don't shrink by more than this many executions
    pub shrink: usize,
    pub threads: usize,
    /// A single directed case that shows a recorded defect: it may fail, if
    /// known-findings.txt says so.
    pub known: bool,
}
impl Check {
    pub fn new(name: &'static str, rule: &'static str, quick: u64, thorough: u64,
               f: impl Fn(&mut Src) -> R + Sync + Send + 'static) -> Self {
        Check { name, rule, quick, thorough, f: Box::new(f), shrink: 3000, threads: 8, known: false }
    }
    /// A directed case of a recorded defect
    pub fn known(name: &'static str, f: impl Fn(&mut Src) -> R + Sync + Send + 'static) -> Self {
        Check { known: true, ..Self::new(name, "a directed case of a recorded defect", 1, 1, f) }
    }
    pub fn shrink(mut self, n: usize) -> Self { self.shrink = n; self }
    pub fn threads(mut self, n: usize) -> Self { self.threads = n; self }
}

pub struct Property {
    pub id: &'static str,
    pub checks: Vec<Check>,
    pub assumptions: &'static [&'static str],
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    discarded: u64,
    distinct: HashSet<u64>,
    classes: BTreeMap<&'static str, u64>,
    samples: Vec<serde_json::Value>,
}

/// How much of a tape was used, the message, and the trace
type Failure = (usize, String, Vec<String>);

fn shrink(c: &Check, tape: Vec<u64>, deadline: Instant) -> (Vec<u64>, String, Vec<String>) {
    shrink_with(c.shrink, tape, deadline, |t| {
        let mut s = Src::replay(t.clone());
        match run_case(&*c.f, &mut s) {
            Err(Bad::Fail(m)) => Some((s.pos, m, s.log)),
            _ => None,
        }
    })
}

fn shrink_with(mut budget: usize, tape: Vec<u64>, deadline: Instant, f: impl Fn(&Vec<u64>) -> Option<Failure>)
    -> (Vec<u64>, String, Vec<String>)
{
    let mut best = tape;
    let attempt = |t: &Vec<u64>, budget: &mut usize| -> Option<Failure> {
        if *budget == 0 || Instant::now() > deadline { return None; }
        *budget -= 1;
        f(t)
    };
    let Some((n, mut msg, mut log)) = attempt(&best, &mut budget) else {
        return (best, "NOT REPRODUCED on the second run".into(), vec![]);
    };
    best.truncate(n);
    loop {
        let start = best.clone();
        // delete blocks
        let mut k = best.len() / 2;
        while k > 0 {
            let mut i = best.len().saturating_sub(k);
            loop {
                if i + k <= best.len() {
                    let mut t = best.clone();
                    t.drain(i..i + k);
                    if let Some((n, m, l)) = attempt(&t, &mut budget) {
                        t.truncate(n);
                        best = t; msg = m; log = l;
                    }
                }
                if i == 0 { break; }
                i = i.saturating_sub(k);
            }
            k = if k > 8 { k / 2 } else { k - 1 };
        }
        // zero blocks
        let mut k = 8;
        while k > 0 {
            let mut i = 0;
            while i + k <= best.len() {
                if best[i..i + k].iter().any(|x| *x != 0) {
                    let mut t = best.clone();
                    t[i..i + k].fill(0);
                    if let Some((n, m, l)) = attempt(&t, &mut budget) {
                        t.truncate(n);
                        best = t; msg = m; log = l;
                    }
                }
                i += k;
            }
            k /= 2;
        }
        // lower single values
        let mut i = 0;
        while i < best.len() {
            let (mut lo, mut hi) = (0u64, best[i]);
            while lo < hi {
                let mid = lo + (hi - lo) / 2;
                let mut t = best.clone();
                t[i] = mid;
                match attempt(&t, &mut budget) {
                    Some((n, m, l)) => { t.truncate(n); best = t; msg = m; log = l; hi = mid; }
                    None => lo = mid + 1,
                }
                if i >= best.len() || budget == 0 { break; }
            }
            i += 1;
        }
        if best == start || budget == 0 || Instant::now() > deadline { break; }
    }
    (best, msg, log)
}

fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}

/// What known-findings.txt says of this case
fn listed(id: &str, name: &str) -> Option<String> {
    let s = std::fs::read_to_string(root().join("known-findings.txt")).ok()?;
    let pre = format!("known: property={id} case={name} ");
    s.lines().find_map(|l| l.strip_prefix(&pre).map(|x| x.to_string()))
}

fn write_json(p: &Path, v: &serde_json::Value) {
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    std::fs::write(p, serde_json::to_string_pretty(v).unwrap() + "\n").unwrap();
}

/// The entry point of a harness binary:
///   BIN check <property>      (VERIF_SEED, VERIF_TIER)
///   BIN replay <file>
///   BIN list
pub fn main(props: Vec<Property>) -> ! {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in &props { for c in &p.checks { println!("{} {} quick={} thorough={}", p.id, c.name, c.quick, c.thorough) } }
            0
        }
        Some("replay") => replay(&props, &args[2]),
        Some("check") if std::env::var_os("VERIF_JOURNAL").is_none() => supervise(&props, &args),
        Some("check") => {
            let p = props.iter().find(|p| p.id == args[2]).expect("no such property");
            check(p, args.get(3).map(|s| s.as_str()))
        }
        _ => { eprintln!("usage: check <id> [name] | replay <file> | list"); 2 }
    };
    std::process::exit(code)
}

fn replay(props: &[Property], file: &str) -> i32 {
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    let p = props.iter().find(|p| p.id == v["property"].as_str().unwrap()).expect("no such property");
    let c = p.checks.iter().find(|c| c.name == v["check"].as_str().unwrap()).expect("no such check");
    let mut s = match v["fresh"].as_u64() {
        // A case that isn't known by its choices, but by their seed
        Some(x) => Src::fresh(x),
        None => Src::replay(v["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect()),
    };
    if let Some(p) = std::env::var_os("VERIF_TAPE") { s.copy = Some(std::fs::File::create(p).unwrap()); }
    // with the stack that it has in a check
    std::thread::scope(|sc| std::thread::Builder::new().stack_size(STACK).spawn_scoped(sc, || {
        let r = run_case(&*c.f, &mut s);
        for l in &s.log { println!("  {l}"); }
        println!("{}/{}: {:?}", p.id, c.name, r);
        matches!(r, Err(Bad::Fail(_))) as i32
    }).unwrap().join().unwrap())
}

/// Run the checks in another process, so as to learn of a crash or a hang, too
fn supervise(props: &[Property], args: &[String]) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let t0 = Instant::now();
    let exe = std::env::current_exe().unwrap();
    let dir = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
    let dir = dir.join(format!("verif-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let journal = dir.join("journal");
    let st = Command::new(&exe).args(&args[1..]).env("VERIF_JOURNAL", &journal).status().unwrap();
    let hung = st.code() == Some(HUNG);
    let code = match st.code() {
        Some(c) if !hung => c,
        _ => {
            let how = if hung { "hung".into() } else { format!("was killed by signal {}", st.signal().unwrap_or(0)) };
            eprintln!("the check {how}");
            post_mortem(props, &args[2], &exe, &dir, &journal, &how, hung, t0)
                .unwrap_or_else(|| {
                    eprintln!("no single case does that; inconclusive");
                    // Memory may run out through no fault of the code's
                    if hung || st.signal() == Some(9) { return 3; }
                    let path = root().join("replays").join(format!("{}-crash.json", args[2]));
                    write_json(&path, &serde_json::json!({ "property": args[2], "failure": format!("the check {how}"), "command": args }));
                    println!("VIOLATION property={} replay={}", args[2], path.display());
                    1
                })
        }
    };
    let _ = std::fs::remove_dir_all(&dir);
    code
}
const HUNG: i32 = 3;
const STACK: usize = 256 << 20;

/// Wait for a process, but not too long.  Did it crash or hang?
fn dies(mut c: std::process::Child, limit: Duration) -> Option<String> {
    use std::os::unix::process::ExitStatusExt;
    let t0 = Instant::now();
    loop {
        match c.try_wait().unwrap() {
            Some(st) => return st.signal().map(|s| format!("killed by signal {s}")),
            None if t0.elapsed() > limit => {
                let _ = c.kill();
                let _ = c.wait();
                return Some(format!("did not end within {} s", limit.as_secs()));
            }
            None => std::thread::sleep(Duration::from_millis(2)),
        }
    }
}

/// Which of the cases that were running when a check ended is to blame?
#[allow(clippy::too_many_arguments)]
fn post_mortem(props: &[Property], id: &str, exe: &Path, dir: &Path, journal: &Path, how: &str, hung: bool, t0: Instant) -> Option<i32> {
    let p = props.iter().find(|p| p.id == id)?;
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let j = std::fs::read(journal).ok()?;
    let w: Vec<u64> = j.chunks_exact(8).map(|b| u64::from_le_bytes(b.try_into().unwrap())).collect();
    let (file, tapefile) = (dir.join("case.json"), dir.join("tape"));
    let spawn = || Command::new(exe).arg("replay").arg(&file).env("VERIF_TAPE", &tapefile)
        .stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
    let limit = Duration::from_secs(60);
    for e in w.chunks_exact(3) {
        let Some(c) = (e[0] as usize).checked_sub(1).and_then(|i| p.checks.get(i)) else { continue };
        write_json(&file, &serde_json::json!({ "property": id, "check": c.name, "fresh": e[2] }));
        let Some(what) = dies(spawn(), limit) else { continue };
        let tape: Vec<u64> = std::fs::read(&tapefile).unwrap_or_default().chunks_exact(8)
            .map(|b| u64::from_le_bytes(b.try_into().unwrap())).collect();
        let (tape, what, _) = if hung { (tape, what, vec![]) } else {
            let orig = what.clone();
            let r = shrink_with(500, tape, Instant::now() + Duration::from_secs(60), |t| {
                write_json(&file, &serde_json::json!({ "property": id, "check": c.name, "tape": t }));
                dies(spawn(), limit).map(|m| (t.len(), m, vec![]))
            });
            if r.1.starts_with("NOT") { (r.0, orig, vec![]) } else { r }
        };
        let path = root().join("replays").join(format!("{}-{}.json", id, c.name));
        write_json(&path, &serde_json::json!({
            "property": id, "check": c.name, "seed": seed, "case": e[1], "failure": format!("the check {how}; this case: {what}"),
            "tape": tape,
        }));
        println!("{}/{}: the check {how}; this case: {what}", id, c.name);
        write_json(&root().join("evidence").join(format!("{id}.json")), &serde_json::json!({
            "property": id, "tier": "quick", "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": e[1] + 1, "distinct_nontrivial": 0, "rule": format!("[{}] {}", c.name, c.rule), "samples": [],
                "note": format!("the check {how}"),
            },
            "assumptions": p.assumptions, "wall_s": t0.elapsed().as_secs_f64(), "violations": 1,
        }));
        println!("VIOLATION property={} replay={}", id, path.display());
        return Some(1);
    }
    None
}

fn check(p: &Property, only: Option<&str>) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|s| s == "thorough").unwrap_or(false);
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let mut per_check = Vec::new();
    let mut total = Stats::default();
    let mut rules = Vec::new();
    let mut violation = None;
    let journal = std::env::var_os("VERIF_JOURNAL").map(|j| std::fs::File::create(j).unwrap());
    let note = |slot: usize, check: usize, case: u64, fresh: u64| {
        if let Some(j) = &journal {
            let mut b = [0; 24];
            for (i, x) in [check as u64 + 1, case, fresh].iter().enumerate() { b[i * 8..][..8].copy_from_slice(&x.to_le_bytes()); }
            let _ = std::os::unix::fs::FileExt::write_all_at(j, &b, slot as u64 * 24);
        }
    };
    for (ci, c) in p.checks.iter().enumerate() {
        if only.is_some_and(|o| o != c.name) { continue; }
        if c.known {
            if let Some(what) = listed(p.id, c.name) {
                if let Err(Bad::Fail(m)) = run_case(&*c.f, &mut Src::replay(vec![])) {
                    println!("KNOWN-FINDING: property={} {}: {} ({})", p.id, c.name, what, clip(&m));
                }
                continue;
            }
        }
        let n = ((if thorough { c.thorough } else { c.quick }) as f64 * scale).ceil() as u64;
        let ct0 = Instant::now();
        let (st, bad) = run(p.id, c, seed, n, &|slot, case, fresh| note(slot, ci, case, fresh));
        eprintln!("{}/{}: {} cases, {} non-trivial, {} discarded, {:.1}s{}", p.id, c.name, st.evaluations,
                  st.distinct.len(), st.discarded, ct0.elapsed().as_secs_f64(),
                  if bad.is_some() { " FAILED" } else { "" });
        eprintln!("    classes: {:?}", st.classes);
        per_check.push(serde_json::json!({
            "check": c.name, "evaluations": st.evaluations, "distinct_nontrivial": st.distinct.len(),
            "discarded": st.discarded, "classes": st.classes, "wall_s": ct0.elapsed().as_secs_f64(),
        }));
        rules.push(format!("[{}] {}", c.name, c.rule));
        total.evaluations += st.evaluations;
        let h = hash_str(c.name);
        total.distinct.extend(st.distinct.iter().map(|d| mix(d ^ h)));
        total.samples.extend(st.samples);
        if let Some((idx, tape)) = bad {
            eprintln!("    shrinking case {idx}");
            let path = root().join("replays").join(format!("{}-{}.json", p.id, c.name));
            let save = |tape: &[u64], orig: &[u64], msg: &str, log: &[String]| write_json(&path, &serde_json::json!({
                "property": p.id, "check": c.name, "seed": seed, "case": idx, "failure": msg, "trace": log,
                "tape": tape, "original_tape": orig,
            }));
            save(&tape, &tape, "not shrunk", &[]);
            let orig = tape.clone();
            let limit = Duration::from_secs(90);
            let late = {
                // A simpler case might hang
                let (tx, rx) = std::sync::mpsc::channel::<()>();
                let line = format!("VIOLATION property={} replay={}", p.id, path.display());
                write_evidence(p, thorough, seed, &total, &rules, &per_check, t0, true);
                std::thread::spawn(move || {
                    if rx.recv_timeout(limit + Duration::from_secs(60)) == Err(std::sync::mpsc::RecvTimeoutError::Timeout) {
                        println!("{line}");
                        std::process::exit(1);
                    }
                });
                tx
            };
            let (tape, msg, log) = shrink(c, tape, Instant::now() + limit);
            drop(late);
            save(&tape, &orig, &msg, &log);
            println!("{}/{}: {}", p.id, c.name, clip(&msg));
            for l in log.iter().take(60) { println!("    {}", clip(l)); }
            violation = Some(path);
            break;
        }
    }
    write_evidence(p, thorough, seed, &total, &rules, &per_check, t0, violation.is_some());
    match violation {
        Some(path) => {
            println!("VIOLATION property={} replay={}", p.id, path.display());
            1
        }
        None => { println!("OK property={} cases={}", p.id, total.evaluations); 0 }
    }
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(p: &Property, thorough: bool, seed: u64, total: &Stats, rules: &[String], per_check: &[serde_json::Value],
                  t0: Instant, violated: bool) {
    write_json(&root().join("evidence").join(format!("{}.json", p.id)), &serde_json::json!({
        "property": p.id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": total.evaluations,
            "distinct_nontrivial": total.distinct.len(),
            "rule": rules.join(" "),
            "samples": total.samples,
            "checks": per_check,
        },
        "assumptions": p.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violated as i32,
    }));
}

fn run(id: &str, c: &Check, seed: u64, n: u64, journal: &(dyn Fn(usize, u64, u64) + Sync)) -> (Stats, Option<(u64, Vec<u64>)>) {
    let base = mix(seed) ^ hash_str(id) ^ mix(hash_str(c.name));
    let next = AtomicU64::new(0);
    let stop_at = AtomicU64::new(u64::MAX);
    let stats = Mutex::new(Stats::default());
    let worst: Mutex<Option<(u64, Vec<u64>)>> = Mutex::new(None);
    let nthreads = c.threads.min(std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4));
    // Watchdog
    let progress: Vec<AtomicUsize> = (0..nthreads).map(|_| AtomicUsize::new(0)).collect();
    let done = AtomicBool::new(false);
    let hang: u64 = std::env::var("VERIF_HANG").ok().and_then(|s| s.parse().ok()).unwrap_or(100);
    std::thread::scope(|sc| {
        let hs: Vec<_> = (0..nthreads).map(|tn| {
            let (next, stop_at, stats, worst, progress) = (&next, &stop_at, &stats, &worst, &progress);
            std::thread::Builder::new().stack_size(STACK).spawn_scoped(sc, move || {
                let mut st = Stats::default();
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= n || i > stop_at.load(Ordering::SeqCst) { break; }
                    progress[tn].fetch_add(1, Ordering::SeqCst);
                    let fresh = mix(base ^ mix(i));
                    journal(tn, i, fresh);
                    let mut s = Src::fresh(fresh);
                    let r = run_case(&*c.f, &mut s);
                    match r {
                        Err(Bad::Discard) => { st.discarded += 1; continue; }
                        Err(Bad::Fail(_)) => {
                            stop_at.fetch_min(i, Ordering::SeqCst);
                            let mut g = worst.lock().unwrap();
                            if g.as_ref().is_none_or(|w| w.0 > i) { *g = Some((i, s.tape.clone())); }
                        }
                        Ok(()) => {}
                    }
                    st.evaluations += 1;
                    for k in &s.classes { *st.classes.entry(k).or_default() += 1; }
                    if s.interesting {
                        st.distinct.insert(s.tape.iter().fold(s.tape.len() as u64, |h, x| mix(h ^ x)));
                        if i < 200 && st.samples.is_empty() && (i % 7 == 3 || i > 40) {
                            let log: Vec<String> = s.log.iter().take(40).map(|l| clip(l)).collect();
                            st.samples.push(serde_json::json!({"check": c.name, "case": i, "trace": log,
                                "tape_head": s.tape.iter().take(32).collect::<Vec<_>>()}));
                        }
                    }
                }
                let mut g = stats.lock().unwrap();
                g.evaluations += st.evaluations;
                g.discarded += st.discarded;
                g.distinct.extend(st.distinct);
                for (k, v) in st.classes { *g.classes.entry(k).or_default() += v; }
                if g.samples.len() < 2 { g.samples.extend(st.samples); }
                drop(g);
                progress[tn].store(usize::MAX, Ordering::SeqCst);
            }).unwrap()
        }).collect();
        let dog = sc.spawn(|| {
            let mut last: Vec<(usize, Instant)> = progress.iter().map(|p| (p.load(Ordering::SeqCst), Instant::now())).collect();
            while !done.load(Ordering::SeqCst) {
                std::thread::park_timeout(Duration::from_millis(200));
                for (p, l) in progress.iter().zip(last.iter_mut()) {
                    let v = p.load(Ordering::SeqCst);
                    if v == usize::MAX { continue; }
                    if v != l.0 { *l = (v, Instant::now()); }
                    else if l.1.elapsed() > Duration::from_secs(hang) {
                        eprintln!("{id}/{}: a case ran for over {hang} s; giving up", c.name);
                        std::process::exit(HUNG);
                    }
                }
            }
        });
        for h in hs { h.join().unwrap(); }
        done.store(true, Ordering::SeqCst);
        dog.thread().unpark();
        dog.join().unwrap();
    });
    (stats.into_inner().unwrap(), worst.into_inner().unwrap())
}
