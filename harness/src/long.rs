//! One server for thousands of requests: what it answers doesn't depend on how many it has answered before.
use crate::core::*;
use crate::wire::*;
use rustful::filter::{ContextAction, ContextFilter, FilterContext, ResponseAction, ResponseFilter};
use rustful::header::Headers;
use rustful::response::Data;
use rustful::server::Global;
use rustful::{Context, DefaultRouter, Handler, Response, Server, StatusCode};
use std::io::{Read, Write};

struct H(usize);
struct Order(Vec<u8>);
fn header(c: &Context, n: &str) -> String { c.headers.get_raw(n).and_then(|v| v.get(0)).map(|v| String::from_utf8_lossy(v).into_owned()).unwrap_or_default() }
impl Handler for H {
    fn handle(&self, mut c: Context, mut r: Response) {
        let mode = header(&c, "x-mode");
        if mode == "6" { panic!("planned") }
        let var = |n: &str| c.variables.get(n).map(|v| v.into_owned());
        let mut q: Vec<String> = c.query.iter().map(|(k, v)| format!("{}={}", k.as_utf8_lossy(), v.as_utf8_lossy())).collect();
        q.sort();
        let mut body = vec![];
        if mode != "0" { let _ = c.body.read_to_end(&mut body); }
        let text = format!("{};{:?} {:?} {:?};{:?};{:016x};{};{};{};{:?}", self.0, var("a"), var("z"), var("r"), q, hash_of(&body), c.hyperlinks.len(), r.filter_storage_mut().get::<Order>().map(|o| format!("{:?}", o.0)).unwrap_or_default(), header(&c, "x-e"), c.global.get::<String>());
        match &mode[..] {
            "0" | "1" => r.send(text),
            "2" => { let mut w = r.into_chunked(); w.send(&text[..1]); let _ = w.write_all(text[1..].as_bytes()); }
            "3" => { r.set_status(StatusCode::Accepted); r.headers_mut().set_raw("X-Own", vec![b"own".to_vec()]); r.send(text) }
            "4" => {}
            _ => { let mut w = unsafe { r.into_raw(text.len() as u64) }; w.send(text); }
        }
    }
}
struct C(u8);
impl ContextFilter for C {
    fn modify(&self, c: FilterContext, r: &mut Context) -> ContextAction {
        if c.storage.get::<Order>().is_none() { c.storage.insert(Order(vec![])); }
        c.storage.get_mut::<Order>().unwrap().0.push(self.0);
        if header(r, "x-abort") == self.0.to_string() { ContextAction::abort(StatusCode::Conflict) } else { ContextAction::next() }
    }
}
struct R(&'static str, char, char);
impl ResponseFilter for R {
    fn begin(&self, c: FilterContext, s: StatusCode, h: &mut Headers) -> (StatusCode, ResponseAction<'_>) {
        let n = c.storage.get::<Order>().map_or(0, |o| o.0.len());
        h.set_raw(self.0, vec![n.to_string().into_bytes()]);
        (s, ResponseAction::Next(None))
    }
    fn write<'a>(&'a self, _: FilterContext, d: Option<Data<'a>>) -> ResponseAction<'a> {
        ResponseAction::Next(d.map(|d| { if d.as_bytes().is_empty() { return d; } let mut v = vec![self.1 as u8]; v.extend_from_slice(d.as_bytes()); v.push(self.2 as u8); v.into() }))
    }
    fn end(&self, _: FilterContext) -> ResponseAction<'_> { ResponseAction::Next(None) }
}
struct Ask { input: Vec<u8>, kind: usize, mode: usize, abort: u8, want: String }

fn gen(rng: &mut Rng, i: usize) -> Ask {
    let kind = rng.below(11);
    let mode = if kind >= 8 { 0 } else { rng.below(6) };
    let abort = if rng.chance(1, 12) { rng.range(1, 2) as u8 } else { 0 };
    let lots = if rng.chance(1, 2) { 3 } else { 100_000 };
    let (u, q, e) = (format!("u{}", rng.below(lots)), rng.below(4), format!("e{}", i));
    let (m, path, tag, vars): (_, String, _, _) = match kind {
        0 => ("GET", "/s".into(), 0, (None, None, None)),
        1 => ("GET", format!("/v/{}", u), 1, (Some(u.clone()), None, None)),
        2 => ("GET", "/v/x".into(), 2, (None, None, None)),
        3 => ("GET", format!("/w/{}/k", u), 3, (None, None, Some(format!("{}/k", u)))),
        4 => ("POST", "/b".into(), 4, (None, None, None)),
        5 => ("PUT", format!("/v/{}", u), 5, (None, Some(u.clone()), None)),
        6 => ("PUT", "/v/x".into(), 5, (None, Some("x".to_string()), None)),
        7 => ("GET", "/".into(), 6, (None, None, None)),
        8 => ("GET", format!("/none/{}", u), 0, (None, None, None)),
        9 => ("DELETE", "/s".into(), 0, (None, None, None)),
        _ => ("OPTIONS", "*".into(), 0, (None, None, None)),
    };
    let body = if kind == 4 { let n = rng.size(3000); rng.bytes(n) } else { vec![] };
    let mut qs: Vec<String> = (0..q).map(|k| format!("k{}=v{}", k, rng.below(1000))).collect();
    let target = if q > 0 && kind < 10 { format!("{}?{}", path, qs.join("&")) } else { qs.clear(); path };
    let (len, mode_text, abort_text) = (body.len().to_string(), mode.to_string(), abort.to_string());
    let mut h: Vec<(&str, &[u8])> = vec![("Host", b"h"), ("X-Mode", mode_text.as_bytes()), ("X-E", e.as_bytes())];
    if abort > 0 { h.push(("X-Abort", abort_text.as_bytes())); }
    if kind == 4 { h.push(("Content-Length", len.as_bytes())); }
    let links = match kind { 0 => 0, 1 => 1, 2 => 1, 3 => 0, 4 => 0, 5 => 1, 6 => 1, _ => 4 };
    let read: &[u8] = if mode == 0 { b"" } else { &body };
    let want = format!("{};{:?} {:?} {:?};{:?};{:016x};{};[1, 2];{};{:?}", tag, vars.0, vars.1, vars.2, qs, hash_of(&read.to_vec()), links, e, Some("shared".to_string()));
    Ask { input: request(m, target.as_bytes(), &h, &body), kind, mode, abort, want }
}
/// Reports what concerns this property only; anything else ends the case.
pub fn case(id: &str, rng: &mut Rng, cov: &mut Cov) -> CaseResult {
    let total = if rng.chance(1, 12) { rng.range(66_000, 70_000) } else { rng.range(1000, 6000) };
    let mut router = DefaultRouter::<H>::new();
    router.find_hyperlinks = true;
    {
        let mut b = router.build();
        b.many(|n| {
            n.then().on_get(H(6));
            n.path("s").then().on_get(H(0));
            n.path("v/:a").then().on_get(H(1));
            n.path("v/x").then().on_get(H(2));
            n.path("w/*r").then().on_get(H(3));
            n.path("b").then().on_post(H(4));
            n.path("v/:z").then().on_put(H(5));
        });
    }
    let free = rng.range(1, 5);
    let inst = Server { context_filters: vec![Box::new(C(1)), Box::new(C(2))], response_filters: vec![Box::new(R("X-R1", '[', ']')), Box::new(R("X-R2", '(', ')'))], server: "long".into(), keep_alive: crate::bodies::keep(free), threads: Some(free + 1), global: Global::from(Box::new("shared".to_string()) as Box<_>), ..Server::new(router) }.build();
    let mut i = 0;
    let mut panics = 0;
    while i < total {
        let n = if rng.chance(1, 30) { rng.range(50, 400) } else { rng.range(1, 6) };
        let asks: Vec<Ask> = (0..n).map(|k| gen(rng, i + k)).collect();
        let panicking = rng.chance(1, 20);
        let mut input: Vec<u8> = asks.iter().flat_map(|a| a.input.iter().cloned()).collect();
        if panicking { input.extend(request("GET", b"/s", &[("Host", b"h"), ("X-Mode", b"6")], b"")); }
        let s = serve(&inst, Script::new(input), true);
        let what = |k: usize| format!("request {} of a server ({} panics before)", i + k, panics);
        let mine = |ids: &str, detail: String| -> CaseResult { if ids.contains(id) || std::env::var("MON_ALL").is_ok() { bad("long-lived", detail) } else { Ok(()) } };
        if panicking { if let End::HandlerPanic(_) = s.end {} else { return mine("C28 C12 C26", format!("{}: {:?} where the handler panics", what(n), s.end)); } }
        else if let End::HandlerPanic(p) | End::ParsePanic(p) = s.end { return mine("C01 C02 C03 C05 C07 C12 C19 C21 C23 C24 C28", format!("{}: panic {}", what(0), p)); }
        let rs = match parse_all(&s.out, &[]) { Ok(r) => r, Err(e) => return mine("C12 C19", format!("{}: {}", what(0), e)) };
        for (k, (a, r)) in asks.iter().zip(&rs).enumerate() {
            let w = format!("{}: {}\nanswer {:?}", what(k), show_short(&a.input), r);
            let says = |n: &str| r.headers_all(n).iter().map(|v| show(v)).collect::<Vec<_>>();
            if !says("connection").is_empty() { return mine(if panics > 0 { "C26 C28" } else { "C26" }, format!("connection {:?} though a thread is free\n{}", says("connection"), w)); }
            if !r.complete { return mine("C12 C19", w); }
            let handled = a.abort == 0 && a.kind < 8;
            let status = if a.abort > 0 { 409 } else { match a.kind { 8 => 404, 9 => 405, 10 => 200, _ => if a.mode == 3 { 202 } else { 200 } } };
            if r.status != status { return mine(if a.abort > 0 { "C23 C12" } else if a.kind == 8 || a.kind == 9 { "C05 C01 C12" } else if a.mode == 3 || a.mode == 4 || r.status == 200 { "C19 C12" } else { "C01 C12 C19 C23" }, format!("status {} want {}\n{}", r.status, status, w)); }
            if says("server") != ["long"] || says("content-type").len() != 1 || !says("content-type")[0].eq_ignore_ascii_case("text/html; charset=utf-8") || says("date").len() != 1 { return mine("C24 C12", format!("default headers\n{}", w)); }
            if (says("x-own") == ["own"]) != (handled && a.mode == 3) { return mine("C12 C19", w); }
            let raw = handled && a.mode == 5;
            let order = if a.abort == 1 { "1" } else { "2" };
            if !raw && (says("x-r1") != [order] || says("x-r2") != [order]) { return mine(if says("x-r1").is_empty() || says("x-r2").is_empty() { "C21 C23 C12" } else { "C23 C12" }, format!("marks of the filters\n{}", w)); }
            let want = if !handled || a.mode == 4 { String::new() } else { match a.mode { 5 => a.want.clone(), 2 => format!("([{}])([{}])", &a.want[..1], &a.want[1..]), _ => format!("([{}])", a.want) } };
            if r.body == want.as_bytes() { continue; }
            let got = show(&r.body);
            if want.is_empty() { return mine("C05 C12 C19 C23", w); }
            let plain: String = String::from_utf8_lossy(&r.body).replace("([", "").replace("])", "");
            let (g, x): (Vec<&str>, Vec<&str>) = (plain.split(';').collect(), a.want.split(';').collect());
            if g.len() != x.len() || plain == a.want { return mine("C19 C21 C12", format!("body {} want {}\n{}", got, want, w)); }
            let at = (0..g.len()).find(|&f| g[f] != x[f]).unwrap_or(0);
            return mine(["C01 C02", "C03 C12", "C12", "C12", "C07", "C23 C12", "C12", "C27"][at.min(7)], format!("body {} want {}\n{}", got, want, w));
        }
        if rs.len() < n || rs.len() > n + panicking as usize { return mine(if panics > 0 { "C12 C19 C26 C28" } else { "C12 C19 C26" }, format!("{}: {} responses for {} requests", what(0), rs.len(), n)); }
        if let Some(r) = rs.get(n) { if r.status < 500 { return mine("C28", format!("{}: {:?} for a panic", what(n), r)); } }
        i += n;
        panics += panicking as usize;
    }
    cov.count("long-lived servers"); cov.add("requests to long-lived servers", i as u64); cov.max("max requests to one server", i as u64); cov.add("panics of long-lived servers", panics as u64);
    cov.nontrivial(&(total, i, panics));
    Ok(())
}
