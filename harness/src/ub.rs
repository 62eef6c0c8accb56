//! C29: everything the other monitors do, done under sanitizers and Miri, plus oracles of its own for what those can't see.
use crate::core::*;
use crate::ensure;
use crate::types::{random_char, utf8ish};
use crate::wire::*;
use rustful::context::{MaybeUtf8, MaybeUtf8Owned, MaybeUtf8Slice, Parameters};
use rustful::server::Global;
use rustful::{Context, Handler, Response, Server};
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

/// A string the library handed out. Going through it char by char is what goes wrong if it's no UTF-8.
fn valid(s: &str, from: &str) -> CaseResult {
    let b: &[u8] = s.as_bytes();
    let b = std::hint::black_box(b.to_vec());
    match std::str::from_utf8(&b) {
        Ok(_) => { let n = s.chars().count(); let m = s.chars().rev().count(); ensure!(n == m, "invalid string", "{}: {} and {} chars", from, n, m); let _ = s.to_lowercase(); Ok(()) }
        Err(e) => bad("invalid string", format!("{} is not valid UTF-8 ({}): {}", from, e, show(&b))),
    }
}
fn all_strings(m: &MaybeUtf8Owned) -> CaseResult {
    if let Some(s) = m.as_utf8() { valid(s, "as_utf8")?; }
    valid(&m.as_utf8_lossy(), "as_utf8_lossy")?;
    let s: String = m.clone().into(); valid(&s, "Into<String>")?;
    let sl: MaybeUtf8Slice = m.as_slice();
    if let Some(s) = sl.as_utf8() { valid(s, "as_utf8 of a slice")?; }
    valid(&sl.as_utf8_lossy(), "as_utf8_lossy of a slice")?;
    let s: String = m.as_slice::<str, [u8]>().into_string(); valid(&s, "Into<String> of a slice")?;
    let mixed: MaybeUtf8<&str, Vec<u8>> = match *m { MaybeUtf8::Utf8(ref s) => MaybeUtf8::Utf8(&s[..]), MaybeUtf8::NotUtf8(ref v) => MaybeUtf8::NotUtf8(v.clone()) };
    let s: String = mixed.into(); valid(&s, "Into<String> of a mixed string")?;
    Ok(())
}
trait IntoStr { fn into_string(self) -> String; }
impl<'a> IntoStr for MaybeUtf8Slice<'a> { fn into_string(self) -> String { self.into() } }
fn string_case(rng: &mut Rng, cov: &mut Cov) -> CaseResult {
    let start = utf8ish(rng);
    let mut m: MaybeUtf8Owned = match rng.below(3) { 0 => MaybeUtf8::new(), 1 => String::from_utf8_lossy(&start).into_owned().into(), _ => start.clone().into() };
    let mut ops = format!("{}", show(&start));
    all_strings(&m)?;
    for _ in 0..rng.range(1, 10) {
        match rng.below(8) {
            0 => { m.push_char(random_char(rng)); ops += " char"; }
            1 => { let b = *rng.pick(&[0xC3, 0xA9, 0xE8, 0xAA, 0x9E, 0xED, 0xA0, 0x80, 0xF0, 0xF4, 0x90, 0xC0, b'a']); m.push_byte(b); ops += &format!(" byte {:02x}", b); }
            2 => { let b = utf8ish(rng); m.push_bytes(&b); ops += &format!(" bytes {}", show(&b)); }
            3 => { m.push_str(&String::from_utf8_lossy(&utf8ish(rng))); ops += " str"; }
            4 => { let s: String = m.into(); valid(&s, "Into<String>")?; m = s.into(); ops += " through String"; }
            _ => {
                ops += " buffer[";
                let mut buf = m.as_buffer();
                for _ in 0..rng.range(1, 5) { match rng.below(8) {
                    0 => { let b = utf8ish(rng); buf.push_bytes(&b); ops += " bytes"; }
                    1 => { buf.push_char(random_char(rng)); ops += " char"; }
                    2 => { let n = rng.below(buf.len() + 1); buf.truncate(n); ops += " truncate"; }
                    3 => { let n = rng.below(buf.len() + 1); let b = rng.byte(); buf.insert(n, b); ops += " insert"; }
                    4 => if !buf.is_empty() { let n = rng.below(buf.len()); buf[n] = rng.byte(); ops += " set"; },
                    5 => { buf.clear(); ops += " clear"; }
                    6 => { let b = utf8ish(rng); *buf = b; ops += " replace"; }
                    _ => if !buf.is_empty() { let n = rng.below(buf.len()); buf.remove(n); ops += " remove"; },
                } }
                if rng.chance(1, 10) { std::mem::forget(buf); ops += " ]forgotten"; } else { drop(buf); ops += " ]"; }
            }
        }
        all_strings(&m).map_err(|v| Violation { sig: v.sig, detail: format!("{}\nafter {}", v.detail, ops) })?;
        cov.count("string states");
    }
    let mut p = Parameters::new();
    p.insert("k".to_string(), m.clone()); p.insert(m.clone(), "v".to_string());
    if let Some(s) = p.get("k") { valid(&s, "Parameters::get")?; }
    if let Ok(s) = p.parse::<str, String>("k") { valid(&s, "Parameters::parse")?; }
    let _ = (format!("{:?}", p), p.get_raw("k").map(|r| format!("{:?}", r)));
    cov.nontrivial(&ops);
    cov.sample(|| ops.clone());
    Ok(())
}

/// What a request makes the library hand out as strings.
struct Strings { bad: Arc<Mutex<Vec<Violation>>>, n: Arc<AtomicUsize> }
impl Handler for Strings {
    fn handle(&self, mut c: Context, r: Response) {
        let mut v: Vec<(String, &'static str)> = vec![];
        if let Some(s) = c.uri_path.as_utf8_path() { v.push((s.to_string(), "path")); }
        if let Some(s) = c.uri_path.as_utf8_path_lossy() { v.push((s.into_owned(), "lossy path")); }
        v.push((c.uri_path.to_string(), "displayed path"));
        for (n, p) in [("variable", &c.variables), ("query", &c.query)] { for (k, x) in p.iter() { let _ = n; if let Some(s) = k.as_utf8() { v.push((s.to_string(), "name")); } if let Some(s) = x.as_utf8() { v.push((s.to_string(), "value")); } if let Some(s) = p.get(k.as_bytes()) { v.push((s.into_owned(), "parameter")); } } }
        if let Some(ref f) = c.fragment { if let Some(s) = f.as_utf8() { v.push((s.to_string(), "fragment")); } v.push((f.as_utf8_lossy().into_owned(), "lossy fragment")); }
        for l in &c.hyperlinks { for s in &l.path { v.push((format!("{:?}", s), "link")); } }
        if let Ok(p) = c.body.read_query_body() { for (k, x) in p.iter() { if let Some(s) = k.as_utf8() { v.push((s.to_string(), "form name")); } if let Some(s) = x.as_utf8() { v.push((s.to_string(), "form value")); } } }
        for (s, what) in v { self.n.fetch_add(1, SeqCst); if let Err(e) = valid(&s, what) { self.bad.lock().unwrap().push(e); } }
        drop(c);
        r.send("ok");
    }
}
fn request_case(rng: &mut Rng, cov: &mut Cov) -> CaseResult {
    let (bad, n) = (Arc::new(Mutex::new(vec![])), Arc::new(AtomicUsize::new(0)));
    let mut router = rustful::DefaultRouter::<Strings>::new();
    for r in ["a/:v", "*all", ":x/b/*y"] { router.build().path(r).then().on(rustful::Method::Post, Strings { bad: bad.clone(), n: n.clone() }); }
    router.find_hyperlinks = true;
    let inst = Server::new(router).build();
    let mut esc = |rng: &mut Rng| { let b = utf8ish(rng); let mut o = vec![]; for x in b { if rng.chance(1, 2) || x < 0x21 || b"#?&=/%+ ".contains(&x) || x == 0x7f { o.extend(format!("%{:02x}", x).into_bytes()) } else { o.push(x) } } if rng.chance(1, 8) { o.extend_from_slice(*rng.pick(&[&b"%"[..], b"%f", b"%zz", b"%c3", b"%+9", b"+"])); } o };
    let mut target = b"/".to_vec();
    match rng.below(3) { 0 => { target.extend(b"a/"); target.extend(esc(rng)); } 1 => { target.extend(esc(rng)); target.extend(b"/b/"); target.extend(esc(rng)); } _ => target.extend(esc(rng)) }
    if rng.chance(2, 3) { target.push(b'?'); for i in 0..rng.below(3) { if i > 0 { target.push(b'&'); } target.extend(esc(rng)); target.push(b'='); target.extend(esc(rng)); } }
    // raw bytes above 127 are only let through where hyper takes them for UTF-8
    if std::str::from_utf8(&target).is_err() { target = target.into_iter().flat_map(|b| if b > 127 { format!("%{:02X}", b).into_bytes() } else { vec![b] }).collect(); }
    let mut body = vec![]; for i in 0..rng.below(3) { if i > 0 { body.push(b'&'); } body.extend(esc(rng)); body.push(b'='); body.extend(utf8ish(rng)); }
    let s = serve(&inst, Script::new(request("POST", &target, &[("Host", b"h"), ("Content-Length", body.len().to_string().as_bytes())], &body)), false);
    if let Some(v) = bad.lock().unwrap().pop() { return Err(Violation { sig: v.sig, detail: format!("{}\nPOST {} {}", v.detail, show(&target), show(&body)) }); }
    let _ = s;
    cov.add("strings from requests", n.load(SeqCst) as u64);
    cov.nontrivial(&(&target, &body));
    Ok(())
}

/// Stored values come out as they went in and are dropped once, also when dropping them panics.
struct Loud(u64, Arc<[AtomicUsize; 3]>, Box<u64>, bool);
impl Drop for Loud { fn drop(&mut self) { self.1[if *self.2 == self.0 { 0 } else { 2 }].fetch_add(1, SeqCst); *self.2 = !self.0; if self.3 && !std::thread::panicking() { panic!("planned drop"); } } }
struct A(Loud); struct B(Loud, [u8; 40]); struct C(Vec<Loud>); struct D(String, Loud);
fn store_case(rng: &mut Rng, cov: &mut Cov) -> CaseResult {
    let m: Arc<[AtomicUsize; 3]> = Arc::new([AtomicUsize::new(0), AtomicUsize::new(0), AtomicUsize::new(0)]);
    let made = AtomicUsize::new(0);
    let loud = |n: u64, p: bool| { made.fetch_add(1, SeqCst); Loud(n, m.clone(), Box::new(n), p) };
    let mut log = vec![];
    let mut want: BTreeMap<u8, u64> = BTreeMap::new();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> CaseResult {
        let mut g = match rng.below(4) { 0 => Global::default(), 1 => { want.insert(0, 1); Box::new(A(loud(1, false))).into() } 2 => { want.insert(3, 2); Box::new(D("two".into(), loud(2, false))).into() } _ => { want.insert(0, 3); want.insert(1, 4); (A(loud(3, false)), B(loud(4, false), [4; 40])).into() } };
        for i in 0..rng.below(8) {
            let (k, n, p) = (rng.below(4) as u8, 10 + i as u64, rng.chance(1, 12));
            log.push((k, n, p));
            let old = match k { 0 => g.insert(A(loud(n, p))).map(|v| (v.0).0), 1 => g.insert(B(loud(n, p), [n as u8; 40])).map(|v| (v.0).0), 2 => g.insert(C(vec![loud(n, p)])).map(|v| v.0[0].0), _ => g.insert(D(format!("n{}", n), loud(n, p))).map(|v| (v.1).0) };
            ensure!(old == want.insert(k, n), "wrong value", "insert returned {:?} at {:?}", old, log);
            for k in 0..4 {
                let got = match k { 0 => g.get::<A>().map(|v| *(v.0).2), 1 => g.get::<B>().map(|v| if v.1[39] as u64 == (v.0).0 & 0xff { *(v.0).2 } else { 0 }), 2 => g.get::<C>().map(|v| *v.0[0].2), _ => g.get::<D>().map(|v| *(v.1).2) };
                ensure!(got == want.get(&k).cloned(), "wrong value", "type {}: {:?} want {:?} after {:?}", k, got, want.get(&k), log);
            }
        }
        Ok(())
    }));
    if let Ok(r) = r { r?; } else { let p = take_panic(); ensure!(p.contains("planned drop"), "panic", "{} after {:?}", p, log); cov.count("panicking drops"); }
    ensure!(m[2].load(SeqCst) == 0, "double drop", "{} values dropped again or broken after {:?}", m[2].load(SeqCst), log);
    let (dropped, made) = (m[0].load(SeqCst), made.load(SeqCst));
    ensure!(dropped <= made, "double drop", "{} made, {} dropped after {:?}", made, dropped, log);
    cov.count("stores");
    cov.nontrivial(&log);
    Ok(())
}

const IN_MEMORY: [&str; 32] = ["C13", "C14", "C15", "C16", "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C30", "C31", "C17", "C33", "C34", "C35", "C36", "C37"];
const TCP: [&str; 4] = ["C26", "C27", "C28", "C32"];
/// Runs the workload of another property. What its monitors think of the behaviour is judged by that property's own check.
fn borrow(r: &mut Run, id: &str, scale: f64) {
    let mut sub = Run { id: id.to_string(), tier: Tier::Quick, seed: r.seed ^ 0x29, known: Known { entries: r.known.entries.clone() }, replay_dir: std::env::temp_dir().join("mon-c29").to_string_lossy().into_owned(), only_case: None, threads: r.threads, scale,
        cov: Cov::default(), violations: vec![], known_seen: Default::default(), start: std::time::Instant::now(), inconclusive: vec![] };
    let before = r.cov.evaluations;
    let t = std::time::Instant::now();
    crate::dispatch(&mut sub);
    r.cov.evaluations = before + sub.cov.evaluations;
    r.cov.add(&format!("cases of {}", id), sub.cov.evaluations);
    r.cov.distinct.extend(sub.cov.distinct);
    if !sub.violations.is_empty() { r.cov.add("workloads cut short by their own monitors", 1); }
    eprintln!("{} {:.1}s {} cases", id, t.elapsed().as_secs_f64(), sub.cov.evaluations);
}
pub fn run(r: &mut Run, part: &str) {
    HANG_SECS.store(1_000_000, SeqCst);
    let scale = r.scale;
    match part {
        "own" => { r.cases("strings", 60_000, 1_500_000, string_case); r.cases("requests", 15_000, 400_000, request_case); r.cases("stores", 30_000, 600_000, store_case); }
        "all" => { for id in IN_MEMORY.iter().chain(TCP.iter()) { borrow(r, id, scale); } }
        "strings" => r.cases("strings", 60_000, 1_500_000, string_case),
        "requests" => r.cases("requests", 15_000, 400_000, request_case),
        "stores" => r.cases("stores", 30_000, 600_000, store_case),
        "none" => { println!("built"); std::process::exit(0); }
        "tcp" => { for id in TCP.iter() { borrow(r, id, scale); } borrow(r, "C14", scale); }
        id => for id in id.split(',') { borrow(r, id, scale); },
    }
}

// Miri has no gmtime_r; the library's date stamps need one.
#[cfg(miri)] #[repr(C)] pub struct Tm { sec: i32, min: i32, hour: i32, mday: i32, mon: i32, year: i32, wday: i32, yday: i32, isdst: i32, gmtoff: i64, zone: *const u8 }
#[cfg(miri)] #[no_mangle] pub unsafe extern "C" fn gmtime_r(t: *const i64, out: *mut Tm) -> *mut Tm {
    let (days, s) = ((*t).div_euclid(86400), (*t).rem_euclid(86400) as i32);
    let z = days + 719468; let era = z.div_euclid(146097); let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153; let d = doy - (153 * mp + 2) / 5 + 1; let m = if mp < 10 { mp + 3 } else { mp - 9 };
    let y = yoe + era * 400 + if m <= 2 { 1 } else { 0 };
    *out = Tm { sec: s % 60, min: s / 60 % 60, hour: s / 3600, mday: d as i32, mon: m as i32 - 1, year: (y - 1900) as i32, wday: (days + 4).rem_euclid(7) as i32, yday: 0, isdst: 0, gmtoff: 0, zone: b"UTC\0".as_ptr() };
    out
}
