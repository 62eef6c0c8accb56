//! C31: what runs against mocks runs the same as against the real thing.
use crate::core::*;
use crate::ensure;
use crate::responses::*;
use crate::routes::*;
use crate::targets::{map_of, snap, Snap};
use crate::wire::*;
use rustful::context::hypermedia::Link;
use rustful::handler::{Environment, HandleRequest};
use rustful::header::Headers;
use rustful::response::FileError;
use rustful::server::Global;
use rustful::{Context, DefaultRouter, Handler, Method, Response, Server, StatusCode};
use std::io::Read;
use std::sync::{Arc, Mutex};

/// A router for a server and for mocks at the same time.
pub struct Shared<H>(pub Arc<H>);
impl<R: HandleRequest> HandleRequest for Shared<R> {
    fn handle_request<'a, 'b, 'l, 'g>(&self, e: Environment<'a, 'b, 'l, 'g>) -> Result<(), Environment<'a, 'b, 'l, 'g>> { self.0.handle_request(e) }
    fn hyperlinks<'a>(&'a self, base: Link<'a>) -> Vec<Link<'a>> { self.0.hyperlinks(base) }
}
pub fn mock_headers(h: &[(String, Vec<u8>)]) -> Headers { let mut m = Headers::new(); for (n, v) in h { m.append_raw(n.clone(), v.clone()); } m }
/// `None` if something handles the request, or else the status it's rejected with.
pub fn run_mock<R: HandleRequest + ?Sized>(r: &R, m: &Method, path: &str, h: &[(String, Vec<u8>)], global: &Global) -> Option<u16> {
    let res = match r.handle_request(Environment { context: Context::mock(m.clone(), path, mock_headers(h), global), response: Response::mock(global), route_state: path.as_bytes().into() }) {
        Ok(()) => None,
        Err(e) => Some(e.response.status().to_u16()),
    };
    res
}
#[derive(Clone, Debug, PartialEq)]
struct Look { id: usize, snap: Snap, links: Vec<String>, status: (u16, u16), headers: Vec<(String, String)>, stored: bool, global: Option<u64>, body: Result<Vec<u8>, String>, query: Option<crate::targets::Map>, multipart: bool, told: Vec<Told> }
struct P { id: usize, prog: Prog, how: u8, log: Arc<Mutex<Vec<Look>>> }
impl Handler for P {
    fn handle(&self, mut c: Context, mut r: Response) {
        let snap = snap(&c);
        let links = links_of(&c);
        let status = r.status().to_u16();
        let global = c.global.get::<u64>().cloned();
        let (mut body, mut query, mut multipart) = (Ok(vec![]), None, false);
        match self.how {
            0 => body = { let mut b = vec![]; c.body.read_to_end(&mut b).map(|_| b).map_err(|e| e.to_string()) },
            1 => query = c.body.read_query_body().ok().map(|m| map_of(&m)),
            2 => { #[cfg(feature = "multipart")] let _ = c.body.as_multipart().is_some(); multipart = true } // a mock body is no multipart body, by design
            3 => body = { let mut b = [7; 10]; c.body.read(&mut b).map(|n| b[..n].to_vec()).map_err(|e| e.to_string()) },
            _ => {}
        }
        for p in &self.prog.pre { apply_pre(&mut r, p); }
        let stored = r.filter_storage().get::<u32>().is_some();
        // the defaults aren't in a mock response, its own headers are
        let names = ["content-type", "server", "date", "connection"];
        let mut headers: Vec<(String, String)> = r.headers().iter().map(|h| (h.name().to_ascii_lowercase(), h.value_string())).filter(|h| !names.contains(&&h.0[..]) || self.prog.pre.iter().any(|p| match p { Pre::Type(_) => h.0 == "content-type", Pre::Server(_) => h.0 == "server", _ => false })).collect();
        headers.sort();
        let after = r.status().to_u16();
        drop(c);
        let told = run_prog(r, &self.prog);
        self.log.lock().unwrap().push(Look { id: self.id, snap, links, status: (status, after), headers, stored, global, body, query, multipart, told });
    }
}
fn handler_case(rng: &mut Rng, cov: &mut Cov) -> CaseResult {
    let n = rng.range(1, 7);
    let regs = table(rng, n, true);
    let log = Arc::new(Mutex::new(vec![]));
    let progs: Vec<(Prog, u8)> = regs.iter().map(|_| (gen_prog(rng, false, false), rng.below(5) as u8)).collect();
    // presets that change a default header and take it away again aren't comparable
    let clean = |mut p: Prog| { let defaults = |x: &Pre| match x { Pre::Remove(n) => n.eq_ignore_ascii_case("content-type") || n.eq_ignore_ascii_case("server"), _ => false }; p.pre.retain(|x| !defaults(x)); p };
    let progs: Vec<(Prog, u8)> = progs.into_iter().map(|(p, h)| (clean(p), h)).collect();
    let mut router: DefaultRouter<P> = regs.iter().map(|r| (r.method.clone().unwrap(), render(rng, &r.route).unwrap(), P { id: r.id, prog: progs[r.id].0.clone(), how: progs[r.id].1, log: log.clone() })).collect();
    router.find_hyperlinks = rng.chance(1, 2);
    let router = Arc::new(router);
    let g = rng.chance(2, 3);
    let global = || if g { Global::from(Box::new(77u64) as Box<_>) } else { Global::default() };
    let mut server = Server::new(Shared(router.clone()));
    server.global = global();
    let inst = server.build();
    let mock_global = global();
    for q in 0..rng.range(1, 6) {
        let segs = path_for(rng, &regs);
        let raw = raw_path(rng, &segs);
        let path = match String::from_utf8(raw.clone()) { Ok(p) => p, Err(_) => { cov.count("skipped: not UTF-8"); continue; } };
        let m = if rng.chance(2, 3) { rng.pick(&regs).method.clone().unwrap() } else { METHODS[rng.below(COMMON)].clone() };
        let mut h: Vec<(String, Vec<u8>)> = vec![("Host".into(), b"h".to_vec()), ("X-Token".into(), format!("t{}", q).into_bytes())];
        if rng.chance(1, 3) { h.push(("Content-Type".into(), rng.pick(&[&b"application/x-www-form-urlencoded"[..], b"multipart/form-data; boundary=xyz", b"multipart/form-data", b"text/plain"]).to_vec())); }
        if rng.chance(1, 3) { h.push(("X-Other".into(), "é a, b".as_bytes().to_vec())); }
        let hs: Vec<(&str, &[u8])> = h.iter().map(|(n, v)| (&n[..], &v[..])).collect();
        let what = format!("[{}] {} {}\n{:?}", show_regs(&regs), m, path, h);
        log.lock().unwrap().clear();
        let s = serve(&inst, Script::new(request(m.as_ref(), &encode_path(rng, &raw), &hs, b"")), false);
        let real = std::mem::replace(&mut *log.lock().unwrap(), vec![]);
        if let End::HandlerPanic(p) = s.end { return bad("panic", format!("real: {}\n{}", p, what)); }
        let rs = parse_all(&s.out, &[]).map_err(|e| Violation { sig: "malformed".into(), detail: format!("{}\n{}", e, what) })?;
        ensure!(rs.len() == 1, "count", "{} responses to {}", rs.len(), what);
        let mock = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_mock(&*router, &m, &path, &h, &mock_global)));
        let rejected = match mock { Ok(r) => r, Err(_) => return bad("panic", format!("mock: {}\n{}\n{:?}", take_panic(), what, progs)) };
        let fake = std::mem::replace(&mut *log.lock().unwrap(), vec![]);
        ensure!(fake == real, "differs", "real {:?}\nmock {:?}\nfor {}\nprograms {:?}", real, fake, what, progs);
        match rejected {
            None => { ensure!(real.len() == 1, "handled", "the mock is handled, {} handlers ran for {}", real.len(), what); let p = &progs[real[0].id]; let mut told = expected_log(&p.0); let _ = &mut told; ensure!(fake[0].told == told, "told", "operations told {:?}, want {:?} for {}\n{:?}", fake[0].told, told, what, p); cov.count("handled"); cov.add("operations", told.len() as u64); cov.nontrivial(&(m.to_string(), &path, &p.0, p.1)); }
            Some(st) => { ensure!(real.is_empty(), "handled", "the mock is rejected, {} handlers ran for {}", real.len(), what); let st = if st == 200 { 404 } else { st }; ensure!(st == rs[0].status, "rejection", "the mock is rejected with {}, the real one with {} for {}", st, rs[0].status, what); cov.count("rejected"); }
        }
        cov.sample(|| what.clone());
    }
    Ok(())
}
/// Files and errors in mocks.
fn file_case(rng: &mut Rng, cov: &mut Cov) -> CaseResult {
    let dir = Scratch::new("mock");
    let there = rng.chance(1, 2);
    let p = dir.0.join("x.txt");
    let len = rng.below(20_000);
    if there { std::fs::write(&p, rng.bytes(len)).unwrap(); }
    let global = Global::default();
    let mut r = Response::mock(&global);
    let status = *rng.pick(&[200u16, 201, 418]);
    r.set_status(StatusCode::from_u16(status));
    let how = rng.below(4);
    let prog = gen_prog(rng, false, false);
    let want = expected_log(&prog);
    let what = format!("file of {} bytes, there {}, how {}", len, there, how);
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || -> CaseResult {
        let res = match how { 0 => r.try_send(&*p), 1 => r.try_send(p.clone()), 2 => r.send_file_with_mime(&p, |_| None), _ => match std::fs::File::open(&p) { Ok(f) => r.try_send(f), Err(_) => return Ok(()) } };
        match res {
            Ok(()) => ensure!(there, "told", "sent"),
            Err(FileError::Open(_, r)) => { ensure!(!there, "told", "not opened"); ensure!(r.status().to_u16() == status, "recover", "status {}", r.status()); let t = run_prog(r, &prog); ensure!(t == want, "told", "{:?} want {:?}", t, want); }
            Err(FileError::Send(e)) => return bad("told", format!("send {:?}", e)),
        }
        Ok(())
    }));
    match res { Ok(r) => r.map_err(|v| Violation { sig: v.sig, detail: format!("{} {}", v.detail, what) })?, Err(_) => return bad("panic", format!("{} {}", take_panic(), what)) }
    cov.count(if there { "files" } else { "missing files" });
    cov.nontrivial(&(there, len, how, status));
    Ok(())
}
pub fn run(r: &mut Run) {
    r.cases("handlers", 6_000, 600_000, handler_case);
    r.cases("routers", 3_000, 300_000, crate::compose::mock_case);
    r.cases("files", 1_000, 50_000, file_case);
}
