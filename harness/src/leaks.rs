//! C38: what is over leaves nothing behind.
use crate::core::*;
use crate::wire::*;
use rustful::filter::{FilterContext, ResponseAction, ResponseFilter};
use rustful::header::Headers;
use rustful::response::Data;
use rustful::{Context, Response, Server, StatusCode};
use std::sync::atomic::Ordering::SeqCst;

/// Fails with a message (something that takes memory) at one of its calls, or panics there.
struct Failing { at: u8, panics: bool, msg: String }
impl Failing { fn go<'a>(&'a self, at: u8, next: ResponseAction<'a>) -> ResponseAction<'a> { if self.at != at { return next; } if self.panics { panic!("planned") } ResponseAction::abort(self.msg.clone()) } }
struct Kept(Vec<u8>);
impl ResponseFilter for Failing {
    fn begin(&self, c: FilterContext, s: StatusCode, h: &mut Headers) -> (StatusCode, ResponseAction<'_>) { c.storage.insert(Kept(vec![1; 100])); h.set_raw("X-Kept", vec![vec![b'k'; 100]]); (s, self.go(0, ResponseAction::next(Some(vec![b'b'; 60])))) }
    fn write<'a>(&'a self, c: FilterContext, d: Option<Data<'a>>) -> ResponseAction<'a> { c.storage.insert(Kept(vec![2; 200])); self.go(1, ResponseAction::Next(d)) }
    fn end(&self, c: FilterContext) -> ResponseAction<'_> { c.storage.insert(Kept(vec![3; 300])); self.go(2, ResponseAction::next(Some(vec![b'e'; 60]))) }
}
/// Failures and panics of filters and handlers in every combination.
fn failing(rng: &mut Rng, cov: &mut Cov) -> CaseResult {
    let n = rng.range(1, 3);
    let filters: Vec<(u8, bool)> = (0..n).map(|_| (rng.below(5) as u8, rng.chance(1, 4))).collect();
    let (how, stage, panics, gone) = (rng.below(5), rng.below(4), rng.chance(1, 2), rng.chance(1, 4));
    let mut server = Server::new(move |_: Context, mut r: Response| {
        let go = |s: usize| if panics && stage == s { panic!("planned") };
        r.filter_storage_mut().insert(vec![7u8; 500]);
        go(0);
        match how {
            0 => r.send("sent"),
            1 => { r.try_send(vec![b's'; 3000]).ok(); }
            2 => { let mut w = r.into_chunked(); go(1); w.send("one"); go(2); w.try_send(vec![b't'; 3000]).ok(); go(3); }
            3 => { let mut w = r.into_chunked(); w.filter_storage_mut().insert(vec![8u32; 500]); go(1); w.send("one"); go(2); w.end().ok(); }
            _ => { let mut w = unsafe { r.into_raw(7) }; go(1); w.send("one"); go(2); w.try_send("more").ok(); w.end().ok(); }
        }
        go(3);
    });
    for (k, f) in filters.iter().enumerate() { server.response_filters.push(Box::new(Failing { at: f.0, panics: f.1, msg: format!("failed {} {}", k, "x".repeat(150)) })); }
    let script = Script { write_fail_at: if gone { Some(rng.below(200)) } else { None }, ..Script::new(request("GET", b"/f", &[("Host", b"h")], b"")) };
    let s = serve(&server.build(), script, false);
    cov.count(if let End::HandlerPanic(_) = s.end { "panicked" } else { "went on" });
    cov.nontrivial(&(&filters, how, stage, panics, gone));
    Ok(())
}

/// Requests in which every value a client may choose is another one each time: none of them is kept.
fn differing(rng: &mut Rng, cov: &mut Cov) -> CaseResult {
    use rustful::filter::{ContextAction, ContextFilter};
    struct Asks;
    impl ContextFilter for Asks { fn modify(&self, c: FilterContext, r: &mut Context) -> ContextAction { c.storage.insert(r.headers.len()); ContextAction::next() } }
    let mut router = rustful::DefaultRouter::<Box<dyn rustful::Handler>>::new();
    router.find_hyperlinks = rng.chance(1, 2);
    {
        let mut b = router.build();
        b.many(|node| {
            let h = || Box::new(|mut c: Context, mut r: Response| {
                let n = c.variables.iter().count() + c.query.iter().count() + c.hyperlinks.len() + c.body.read_query_body().map(|q| q.iter().count()).unwrap_or(0);
                let (a, b) = (c.variables.get("a").map(|v| v.into_owned()), c.query.get("a").map(|v| v.into_owned()));
                if let Some(v) = a { r.headers_mut().set_raw("X-Var", vec![v.into_bytes()]); }
                if let Some(q) = b { r.headers_mut().set(rustful::header::SetCookie(vec![q])); }
                r.send(format!("{} {:?}", n, c.uri_path.as_path().map(|p| p.len())));
            }) as Box<dyn rustful::Handler>;
            node.path("v/:a/*b").then().on_get(h());
            node.path("v/:a/*b").then().on_post(h());
            node.path("v/:c").then().on(rustful::Method::Extension("BREW".into()), h());
        });
    }
    let mut server = Server::new(router);
    let filtered = rng.chance(1, 2);
    if filtered { server.context_filters.push(Box::new(Asks)); }
    let keep = rng.chance(1, 2);
    if keep { server.keep_alive = Some(rustful::server::KeepAlive { timeout: std::time::Duration::from_secs(5), free_threads: 0 }); }
    let inst = server.build();
    let kinds: Vec<usize> = (0..rng.range(1, 5)).map(|_| rng.below(12)).collect();
    let tag = rng.below(1 << 30);
    let mut answered = 0;
    let mut lot = |k: usize| {
        for i in 0..40 {
            let u = format!("{:09}{:04}", tag, k * 40 + i);
            let mut input = vec![];
            for &kind in &kinds {
                let host = format!("h{}.example:{}", u, 1000 + k * 40 + i);
                let (ua, bound) = (format!("agent/{}", u), format!("multipart/form-data; boundary=b{}", u));
                let (cookie, name, lang) = (format!("c{}={}", u, u), format!("X-H{}", u), format!("{}{}-x", (b'a' + (i % 26) as u8) as char, (b'a' + k as u8) as char));
                let form = format!("f{}={}&a={}", u, u, u);
                let len = form.len().to_string();
                let mut h: Vec<(&str, &[u8])> = vec![("Host", host.as_bytes())];
                let (m, target, body): (String, String, String) = match kind {
                    0 => ("GET".into(), format!("http://{}/v/{}/{}/z?q{}={}", host, u, u, u, u), "".into()),
                    1 => { h.push(("User-Agent", ua.as_bytes())); h.push(("Cookie", cookie.as_bytes())); ("GET".into(), format!("/v/{}/{}?a={}&x{}", u, u, u, u), "".into()) }
                    2 => { h.push((&name, u.as_bytes())); h.push(("Accept-Language", lang.as_bytes())); ("GET".into(), format!("/none/{}", u), "".into()) }
                    3 => { h.push(("Content-Type", b"application/x-www-form-urlencoded")); h.push(("Content-Length", len.as_bytes())); ("POST".into(), format!("/v/{}/{}", u, u), form.clone()) }
                    4 => { h.push(("Content-Type", bound.as_bytes())); h.push(("Content-Length", len.as_bytes())); ("POST".into(), format!("/v/{}/{}", u, u), form.clone()) }
                    5 => (format!("M{}", u), format!("/v/{}", u), "".into()),
                    6 => ("BREW".into(), format!("/v/%{:02x}{}#f{}", 33 + i, u, u), "".into()),
                    7 => ("CONNECT".into(), host.clone(), "".into()),
                    8 => ("OPTIONS".into(), "*".into(), "".into()),
                    9 => ("GET".into(), format!("https://user{}@{}", u, host), "".into()),
                    10 => ("GET".into(), format!("/v/{}/%ff%{:02x}{}", u, 128 + i, u), "".into()),
                    _ => ("GET".into(), format!("http://[::{:x}]/v/{}/b", k * 40 + i, u), "".into()),
                };
                input.extend(request(&m, target.as_bytes(), &h, body.as_bytes()));
            }
            let s = serve_opt(&inst, Script::new(input), keep, false);
            answered += parse_all(&s.out, &[]).map(|r| r.len()).unwrap_or(0);
            take_errors();
        }
    };
    let mut at = Vec::with_capacity(16);
    for k in 0..9 {
        lot(k);
        at.push(live_here());
        if k >= 2 && at[k] <= at[k - 1] { break; }
    }
    let w: Vec<i64> = at[1..].windows(2).map(|w| w[1] - w[0]).collect();
    cov.add("differing requests answered", answered as u64);
    ensure!(at.len() < 9 || w.iter().any(|d| *d <= 0), "memory", "every 40 conversations with other values (kinds of requests {:?}, keep-alive {}, filter {}) leave memory behind: {:?} bytes", kinds, keep, filtered, w);
    cov.nontrivial(&(&kinds, keep, filtered));
    Ok(())
}

/// Sections that sleep or run threads of their own (memory of other threads isn't counted) are left out.
const CASES: [(&str, f64); 32] = [("C01", 0.05), ("C02", 0.05), ("C03", 0.05), ("C04", 0.05), ("C05", 0.03), ("C06", 0.03), ("C07", 0.05), ("C08", 0.03), ("C09", 0.03), ("C10", 0.03), ("C11", 0.03), ("C12", 0.03), ("C13", 0.02), ("C14", 0.02), ("C15", 0.02),
    ("C16", 0.002), ("C18", 0.1), ("C19", 0.1), ("C20", 0.1), ("C21", 0.1), ("C22", 0.1), ("C23", 0.1), ("C24", 0.05), ("C25", 0.05), ("C26", 0.1), ("C28", 0.1), ("C30", 0.03), ("C31", 0.1), ("C33", 0.1), ("C34", 0.05), ("C35", 0.1), ("C36", 0.05)];

fn borrow(r: &mut Run, id: &str, scale: f64, threads: usize) {
    if !r.violations.is_empty() { return; }
    let mut sub = Run { id: id.to_string(), tier: r.tier, seed: r.seed ^ 0x38, known: Known { entries: Default::default() }, replay_dir: r.replay_dir.clone(), only_case: r.only_case, threads, scale,
        cov: Cov::default(), violations: vec![], known_seen: Default::default(), start: std::time::Instant::now(), inconclusive: vec![] };
    LEFT_BEHIND.store(true, SeqCst);
    let t = std::time::Instant::now();
    crate::dispatch(&mut sub);
    LEFT_BEHIND.store(false, SeqCst);
    r.cov.evaluations += sub.cov.evaluations;
    r.cov.add(&format!("cases of {}", id), sub.cov.evaluations);
    for k in ["cases repeated", "bytes allocated and given back", "cases that failed their own oracle", "series of cases", "cases in series"] { if let Some(n) = sub.cov.counters.get(k) { r.cov.add(k, *n); } }
    r.cov.distinct.extend(sub.cov.distinct);
    r.violations.extend(sub.violations.into_iter().map(|(c, v)| (c, Violation { sig: v.sig, detail: format!("{} {}", id, v.detail) })));
    if std::env::var("MON_TIMES").is_ok() { eprintln!("{} {:.1}s {} cases", id, t.elapsed().as_secs_f64(), sub.cov.evaluations); }
}

pub fn run(r: &mut Run) {
    HANG_SECS.store(1_000_000, SeqCst);
    SECTION_SECS.store(if r.quick() { 3 } else { 7 }, SeqCst);
    for (id, n) in CASES { let (s, t) = (r.scale, r.threads); borrow(r, id, s * n * 0.6, t); }
    r.cases("differing requests", 400, 20_000, differing);
    LEFT_BEHIND.store(true, SeqCst);
    r.cases("failures", 1500, 50_000, failing);
    LEFT_BEHIND.store(false, SeqCst);
    // with the files counted: nothing else may open any meanwhile
    COUNT_FILES.store(true, SeqCst);
    for id in ["C18", "C36"] { let s = r.scale; borrow(r, id, s * 0.02, 1); }
    COUNT_FILES.store(false, SeqCst);
    SECTION_SECS.store(0, SeqCst);
    let t = r.threads;
    r.threads = 1;
    r.cases("tcp", 2, 60, crate::net::returning_case);
    r.threads = t;
}
