//! Case runner: seeded case generation, violation reporting, coverage accounting.
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { let mut r = Rng(seed ^ 0x9E3779B97F4A7C15); r.next(); r }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn fork(&mut self) -> Rng { Rng::new(self.next()) }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below(hi - lo + 1) }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn byte(&mut self) -> u8 { (self.next() >> 11) as u8 }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T { let i = self.below(s.len()); &s[i] }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.byte()).collect() }
    pub fn shuffle<T>(&mut self, v: &mut [T]) { for i in (1..v.len()).rev() { let j = self.below(i + 1); v.swap(i, j); } }
    /// A size that is usually small, sometimes large.
    pub fn size(&mut self, max: usize) -> usize {
        let m = match self.below(10) { 0..=5 => 16, 6..=8 => 300, _ => max };
        let m = if m > max { max } else { m };
        self.range(0, m)
    }
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 { let mut h = DefaultHasher::new(); t.hash(&mut h); h.finish() }

/// A refuted property: `sig` identifies the failing site/input for the known-findings file.
#[derive(Debug, Clone)]
pub struct Violation { pub sig: String, pub detail: String }
pub type CaseResult = Result<(), Violation>;
pub fn bad<T>(sig: &str, detail: String) -> Result<T, Violation> { Err(Violation { sig: sig.to_string(), detail }) }

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)+) => { if !$cond { return $crate::core::bad($sig, format!($($arg)+)); } };
}

/// Per-worker coverage record.
#[derive(Default)]
pub struct Cov {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
}
impl Cov {
    pub fn count(&mut self, k: &str) { self.add(k, 1) }
    pub fn add(&mut self, k: &str, n: u64) { *self.counters.entry(k.to_string()).or_insert(0) += n; }
    pub fn max(&mut self, k: &str, n: u64) { let e = self.counters.entry(k.to_string()).or_insert(0); if n > *e { *e = n } }
    /// One distinct non-trivial case, identified by its content.
    pub fn nontrivial<T: Hash + ?Sized>(&mut self, t: &T) { self.distinct.insert(hash_of(t)); }
    pub fn sample<F: FnOnce() -> String>(&mut self, f: F) {
        if self.samples.len() < 3 { let mut s = f(); if s.len() > 600 { let mut i = 600; while !s.is_char_boundary(i) { i -= 1 } s.truncate(i); s.push_str("..."); } self.samples.push(s); }
    }
    pub fn merge(&mut self, o: Cov) {
        self.evaluations += o.evaluations;
        self.distinct.extend(o.distinct);
        for (k, v) in o.counters { if k.starts_with("max ") { self.max(&k, v) } else { self.add(&k, v) } }
        for s in o.samples { if self.samples.len() < 5 { self.samples.push(s) } }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier { Quick, Thorough }

pub struct Known { pub entries: Vec<(String, String, String)> } // property, sig, text
impl Known {
    pub fn load(path: &str) -> Known {
        let mut entries = vec![];
        if let Ok(s) = std::fs::read_to_string(path) {
            for l in s.lines() {
                // KNOWN property=<id> sig=<sig> :: text   (lines starting with "fixed:" or '#' suppress nothing)
                if let Some(rest) = l.strip_prefix("KNOWN property=") {
                    if let Some((id, rest)) = rest.split_once(" sig=") {
                        if let Some((sig, text)) = rest.split_once(" :: ") { entries.push((id.to_string(), sig.to_string(), text.to_string())); }
                    }
                }
            }
        }
        Known { entries }
    }
    pub fn find(&self, id: &str, sig: &str) -> Option<&str> {
        self.entries.iter().find(|e| e.0 == id && e.1 == sig).map(|e| &e.2[..])
    }
}

thread_local!(static BIG: std::cell::Cell<bool> = std::cell::Cell::new(false));
/// Whether the current case is one of unusual size.
pub fn big() -> bool { BIG.with(|b| b.get()) }
pub fn set_big(v: bool) { BIG.with(|b| b.set(v)) }
thread_local!(pub static LAST_PANIC: RefCell<Option<String>> = RefCell::new(None));
thread_local!(pub static EXPECT_PANIC: RefCell<bool> = RefCell::new(false));

thread_local!(static ERRORS: RefCell<Vec<String>> = RefCell::new(vec![]));
struct Log;
impl log::Log for Log {
    fn enabled(&self, m: &log::Metadata) -> bool { m.level() <= log::Level::Warn }
    fn log(&self, r: &log::Record) { if r.level() <= log::Level::Warn && r.target().starts_with("rustful") { ERRORS.with(|e| { let mut e = e.borrow_mut(); if e.len() < 1000 { e.push(r.args().to_string()) } }); } }
    fn flush(&self) {}
}
/// What the library logged as an error on this thread since the last call.
pub fn take_errors() -> Vec<String> { ERRORS.with(|e| std::mem::replace(&mut *e.borrow_mut(), vec![])) }

pub fn install_panic_hook() {
    static LOG: Log = Log;
    if log::set_logger(&LOG).is_ok() { log::set_max_level(log::LevelFilter::Warn); }

    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("panic at {}: {}", loc, msg)));
    }));
}
pub fn take_panic() -> String { LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()) }

pub struct Run {
    pub id: String, pub tier: Tier, pub seed: u64, pub known: Known, pub replay_dir: String,
    pub only_case: Option<u64>, pub threads: usize, pub scale: f64,
    pub cov: Cov, pub violations: Vec<(u64, Violation)>, pub known_seen: BTreeMap<String, String>, pub start: Instant,
    pub inconclusive: Vec<String>,
}

impl Run {
    /// Runs `quick` (or `thorough`) cases of `f` on all worker threads. Stops at the first unlisted violation.
    /// The wall-clock cap only ends the generation of further cases; it never decides.
    pub fn cases<F>(&mut self, name: &str, quick: u64, thorough: u64, f: F)
        where F: Fn(&mut Rng, &mut Cov) -> CaseResult + Sync
    {
        if !self.violations.is_empty() || cfg!(miri) && name.starts_with("large") { return; }
        if LEFT_BEHIND.load(Ordering::Relaxed) && name == "clock" { return; }
        let n = match self.tier { Tier::Quick => quick, Tier::Thorough => thorough };
        let n = ((n as f64 * self.scale).ceil() as u64).max(1);
        // all groups of a property together stay well below the time a check gets
        let total = match self.tier { Tier::Quick => Duration::from_secs(150), Tier::Thorough => Duration::from_secs(620) };
        let cap = total.checked_sub(self.start.elapsed()).unwrap_or(Duration::from_secs(2));
        let section = SECTION_SECS.load(Ordering::Relaxed);
        let cap = if section > 0 { Duration::from_secs(section) } else { cap };
        let base = hash_of(&(self.seed, &self.id, name));
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let total = Mutex::new((Cov::default(), Vec::<(u64, Violation)>::new(), BTreeMap::<String, String>::new()));
        let start = Instant::now();
        let one = |case_seed: u64, cov: &mut Cov| -> CaseResult {
            if LEFT_BEHIND.load(Ordering::Relaxed) { return left_behind(name, |cov| { let mut rng = Rng::new(case_seed); f(&mut rng, cov) }, cov); }
            let mut rng = Rng::new(case_seed);
            match catch_unwind(AssertUnwindSafe(|| f(&mut rng, cov))) {
                Ok(r) => r,
                Err(_) => { let p = take_panic(); bad(&format!("panic {}", panic_site(&p)), p) }
            }
        };
        if let Some(c) = self.only_case {
            let mut cov = Cov::default();
            if let Err(v) = one(c, &mut cov) { self.violations.push((c, v)); }
            else if LEFT_BEHIND.load(Ordering::Relaxed) { if let Err(v) = piled_up(name, c, &f, &mut cov) { self.violations.push((c, v)); } }
            self.cov.merge(cov);
            return;
        }
        let threads = self.threads;
        let id = self.id.clone();
        let known = &self.known;
        let slots: Vec<Mutex<Option<(u64, Instant)>>> = (0..threads).map(|_| Mutex::new(None)).collect();
        let done = AtomicU64::new(0);
        std::thread::scope(|s| {
            // Watchdog: a case takes milliseconds; one that does not come back within HANG is reported as such.
            s.spawn(|| {
                while done.load(Ordering::Relaxed) < threads as u64 {
                    std::thread::sleep(Duration::from_millis(5));
                    for sl in &slots {
                        let g = *sl.lock().unwrap();
                        if let Some((c, t)) = g {
                            if t.elapsed() > Duration::from_secs(HANG_SECS.load(Ordering::Relaxed)) {
                                let v = Violation { sig: "hang".into(), detail: format!("case did not finish within {} s (normal: milliseconds)", HANG_SECS.load(Ordering::Relaxed)) };
                                report(&self.id, self.tier, self.seed, &self.replay_dir, c, &v);
                                std::process::exit(1);
                            }
                        }
                    }
                }
            });
            let slots_at = slots.as_ptr() as usize;
            for slot in &slots {
                let (next, stop, total, done, one, id, f) = (&next, &stop, &total, &done, &one, &id, &f);
                s.spawn(move || {
                    let mut cov = Cov::default();
                    let mut viol = vec![];
                    let mut seen = BTreeMap::new();
                    loop {
                        if stop.load(Ordering::Relaxed) { break; }
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= n || ((i & 15 == 0 || section > 0) && start.elapsed() > cap) { break; }
                        let case_seed = base.wrapping_add(i.wrapping_mul(0xD1342543DE82EF95));
                        cov.evaluations += 1;
                        *slot.lock().unwrap() = Some((case_seed, Instant::now()));
                        let r = one(case_seed, &mut cov);
                        *slot.lock().unwrap() = None;
                        if let Err(v) = r {
                            if let Some(text) = known.find(id, &v.sig) { seen.insert(v.sig.clone(), text.to_string()); continue; }
                            viol.push((case_seed, v));
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                    if LEFT_BEHIND.load(Ordering::Relaxed) && viol.is_empty() {
                        let c = hash_of(&(base, slot as *const _ as usize - slots_at));
                        if let Err(v) = piled_up(name, c, &f, &mut cov) { viol.push((c, v)); }
                    }
                    let mut t = total.lock().unwrap_or_else(|e| e.into_inner());
                    t.0.merge(cov); t.1.extend(viol); t.2.extend(seen);
                    done.fetch_add(1, Ordering::Relaxed);
                });
            }
        });
        let (cov, viol, seen) = total.into_inner().unwrap_or_else(|e| e.into_inner());
        self.cov.add(&format!("cases {}", name), cov.evaluations);
        self.cov.merge(cov);
        self.known_seen.extend(seen);
        self.violations.extend(viol);
    }
    /// The same cases, each of them of a size far beyond the usual.
    pub fn large<F>(&mut self, name: &str, quick: u64, thorough: u64, f: F)
        where F: Fn(&mut Rng, &mut Cov) -> CaseResult + Sync
    {
        if cfg!(miri) { return; } // a single one would take minutes
        self.cases(&format!("{} of unusual size", name), quick, thorough, |rng, cov| { BIG.with(|b| b.set(true)); let r = catch_unwind(AssertUnwindSafe(|| f(rng, cov))); BIG.with(|b| b.set(false)); match r { Ok(r) => r, Err(p) => std::panic::resume_unwind(p) } });
    }
    pub fn quick(&self) -> bool { self.tier == Tier::Quick }
}

/// Counts what each thread has allocated and not given back, and what all of them have.
pub struct Counting;
thread_local!(static LIVE: std::cell::Cell<(i64, u64)> = const { std::cell::Cell::new((0, 0)) });
pub static ALL_LIVE: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
pub static COUNT_ALL: AtomicBool = AtomicBool::new(false);
fn counted(n: i64) {
    let _ = LIVE.try_with(|l| { let (a, b) = l.get(); l.set((a + n, b + n.max(0) as u64)); });
    if COUNT_ALL.load(Ordering::Relaxed) { ALL_LIVE.fetch_add(n, Ordering::Relaxed); }
}
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { counted(l.size() as i64); std::alloc::System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 { counted(l.size() as i64); std::alloc::System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { counted(-(l.size() as i64)); std::alloc::System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 { counted(n as i64 - l.size() as i64); std::alloc::System.realloc(p, l, n) }
}
pub static LEFT_BEHIND: AtomicBool = AtomicBool::new(false);
pub static COUNT_FILES: AtomicBool = AtomicBool::new(false);
pub fn live_here() -> i64 { LIVE.with(|l| l.get().0) }
pub fn open_files() -> usize { std::fs::read_dir("/proc/self/fd").map(|d| d.count()).unwrap_or(0) }
/// Runs the same case again and again: what it takes is given back each time. What is kept once is a cache; what is kept
/// every time is lost. How the case itself ends doesn't matter here.
fn left_behind<F: Fn(&mut Cov) -> CaseResult>(name: &str, f: F, cov: &mut Cov) -> CaseResult {
    let files = COUNT_FILES.load(Ordering::Relaxed);
    let mut at = Vec::with_capacity(16);
    let mut kept = None;
    let mut taken = 0;
    for i in 0..7 {
        let mut c = Cov::default();
        let before = LIVE.with(|l| l.get().1);
        let failed = match catch_unwind(AssertUnwindSafe(|| f(&mut c))) { Ok(r) => r.is_err(), Err(e) => { drop(e); true } };
        taken = LIVE.with(|l| l.get().1) - before;
        LAST_PANIC.with(|p| *p.borrow_mut() = None);
        take_errors();
        if i == 0 { kept = Some((c, failed)); } else { drop(c); }
        at.push((LIVE.with(|l| l.get().0), if files { open_files() } else { 0 }));
        // steady
        if i >= 2 && at[i].0 <= at[i - 1].0 && at[i].1 <= at[i - 1].1 { break; }
    }
    if let Some((c, failed)) = kept { cov.merge(c); if failed { cov.count("cases that failed their own oracle"); } }
    cov.count("cases repeated");
    cov.add("bytes allocated and given back", taken);
    let w = &at[1..];
    if at.len() == 7 {
        ensure!(w.windows(2).any(|w| w[1].0 <= w[0].0), "memory", "{}: each run of the same case leaves memory behind: {:?} bytes", name, w.windows(2).map(|w| w[1].0 - w[0].0).collect::<Vec<_>>());
        ensure!(!files || w.windows(2).any(|w| w[1].1 <= w[0].1), "files", "{}: each run of the same case leaves files open: {:?}", name, w.iter().map(|w| w.1).collect::<Vec<_>>());
    }
    Ok(())
}

/// Many different cases, one after the other: what is live doesn't keep growing with them.
fn piled_up<F: Fn(&mut Rng, &mut Cov) -> CaseResult>(name: &str, seed: u64, f: &F, cov: &mut Cov) -> CaseResult {
    let mut at = Vec::with_capacity(16);
    let mut n = 0u64;
    for i in 0..9 {
        let t = Instant::now();
        for j in 0..40 {
            if j >= 5 && t.elapsed() > Duration::from_millis(50) { break; }
            let mut c = Cov::default();
            let mut rng = Rng::new(hash_of(&(seed, i, j)));
            if let Err(e) = catch_unwind(AssertUnwindSafe(|| f(&mut rng, &mut c))) { drop(e); }
            LAST_PANIC.with(|p| *p.borrow_mut() = None);
            take_errors();
            n += 1;
        }
        at.push(LIVE.with(|l| l.get().0));
        if i >= 2 && at[i] <= at[i - 1] { break; }
    }
    cov.count("series of cases"); cov.add("cases in series", n);
    let w: Vec<i64> = at[1..].windows(2).map(|w| w[1] - w[0]).collect();
    ensure!(at.len() < 9 || w.iter().any(|d| *d <= 0), "memory", "{}: memory grows from case to case (in lots of up to 40 different ones): {:?} bytes", name, w);
    Ok(())
}

pub static HANG_SECS: AtomicU64 = AtomicU64::new(120);
pub static SECTION_SECS: AtomicU64 = AtomicU64::new(0);

/// Writes the replay file and prints the VIOLATION line.
pub fn report(id: &str, tier: Tier, seed: u64, dir: &str, case: u64, v: &Violation) {
    use std::io::Write;
    let tier = if tier == Tier::Quick { "quick" } else { "thorough" };
    let _ = std::fs::create_dir_all(dir);
    let path = format!("{}/{}-{:016x}.txt", dir, id, case);
    if let Ok(mut f) = std::fs::File::create(&path) {
        let _ = writeln!(f, "property {}\nsignature {}\nseed {}\ncase {:016x}\nreplay: ./check.sh {} {} --case {:016x}   (from /verif)\n\n{}", id, v.sig, seed, case, id, tier, case, v.detail);
    }
    println!("--- {} [{}]\n{}", id, v.sig, v.detail);
    println!("VIOLATION property={} replay={}", id, path);
}

fn panic_site(p: &str) -> String {
    // file name without line numbers, so that the signature survives edits
    let s = p.trim_start_matches("panic at ");
    s.split(':').next().unwrap_or("?").rsplit('/').next().unwrap_or("?").to_string()
}

pub fn show(b: &[u8]) -> String {
    let mut s = String::new();
    for &c in b { for e in std::ascii::escape_default(c) { s.push(e as char); } }
    s
}
pub fn show_short(b: &[u8]) -> String { let s = show(b); if s.len() > 400 { format!("{}...({} bytes)", &s[..400], b.len()) } else { s } }

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o.push('"'); o
}
