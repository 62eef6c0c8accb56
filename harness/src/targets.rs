//! C08 C09 C10: request targets, queries and form bodies.
use crate::core::*;
use crate::routes::model_segments;
use crate::types::{random_char, utf8ish};
use crate::wire::*;
use rustful::context::{Context, UriPath};
use rustful::filter::{ContextAction, ContextFilter, FilterContext};
use rustful::handler::HandleRequest;
use rustful::header::Host;
use rustful::{DefaultRouter, Handler, Method, Response, Server, StatusCode};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

pub type Map = BTreeMap<Vec<u8>, Vec<u8>>;
#[derive(Clone, Debug, PartialEq)]
pub struct Snap { pub method: String, pub path: Option<Vec<u8>>, pub query: Map, pub fragment: Option<Vec<u8>>, pub host: Option<(String, Option<u16>)>, pub headers: Vec<(String, String)>, pub vars: Map, pub version: String, pub body: Option<Map> }
pub fn map_of<'x>(p: &rustful::context::Parameters) -> Map { p.iter().map(|(k, v)| (k.as_bytes().to_vec(), v.as_bytes().to_vec())).collect() }
/// All ways to look at the path of a request show the same.
pub fn views_agree(u: &UriPath) -> bool {
    match *u {
        UriPath::Path(ref p) => u.is_path() && !u.is_asterisk() && u.as_path().map(|p| p.to_vec()) == Some(p.to_vec()) && u.as_utf8_path() == std::str::from_utf8(p).ok() && u.as_utf8_path_lossy() == Some(String::from_utf8_lossy(p)) && u.to_string() == String::from_utf8_lossy(p),
        UriPath::Asterisk => !u.is_path() && u.is_asterisk() && u.as_path().is_none() && u.as_utf8_path().is_none() && u.as_utf8_path_lossy().is_none() && u.to_string() == "*",
    }
}
pub fn snap(c: &Context) -> Snap {
    let mut headers: Vec<(String, String)> = c.headers.iter().map(|h| (h.name().to_ascii_lowercase(), h.value_string())).collect();
    headers.sort();
    Snap { method: if views_agree(&c.uri_path) { c.method.to_string() } else { format!("views of {:?} disagree", c.uri_path) }, path: c.uri_path.as_path().map(|p| p.to_vec()), query: map_of(&c.query), fragment: c.fragment.as_ref().map(|f| f.as_bytes().to_vec()),
        host: c.headers.get::<Host>().map(|h| (h.hostname.clone(), h.port)), headers, vars: map_of(&c.variables), version: c.http_version.to_string(), body: None }
}
pub type Log = Arc<Mutex<Vec<Snap>>>;
struct H { log: Log, read: bool }
impl Handler for H {
    fn handle(&self, mut c: Context, r: Response) {
        let mut s = snap(&c);
        if self.read { s.body = c.body.read_query_body().ok().map(|p| map_of(&p)); }
        self.log.lock().unwrap().push(s);
        r.send("ran");
    }
}
struct F { log: Log, abort: Option<u16> }
impl ContextFilter for F {
    fn modify(&self, _: FilterContext, c: &mut Context) -> ContextAction {
        self.log.lock().unwrap().push(snap(c));
        match self.abort { Some(s) => ContextAction::Abort(StatusCode::from_u16(s)), None => ContextAction::Next }
    }
}

/// Independent reading of a query string.
pub fn model_query(q: &[u8]) -> Map {
    let mut m = Map::new();
    for p in q.split(|&c| c == b'&') {
        if p.is_empty() { continue; }
        let mut cut = p.iter().enumerate().filter(|x| *x.1 == b'=').map(|x| x.0);
        let (name, val) = match (cut.next(), cut.next()) { (None, _) => (p, &b""[..]), (Some(a), None) => (&p[..a], &p[a + 1..]), (Some(a), Some(b)) => (&p[..a], &p[a + 1..b]) };
        let dec = |s: &[u8]| pct_decode(&s.iter().map(|&c| if c == b'+' { b' ' } else { c }).collect::<Vec<u8>>());
        m.insert(dec(name), dec(val));
    }
    m
}
/// path, query, fragment of an origin-form target
pub fn model_target(t: &[u8]) -> (Vec<u8>, Map, Option<Vec<u8>>) {
    let (front, frag) = match t.iter().position(|&c| c == b'#') { Some(i) => (&t[..i], Some(pct_decode(&t[i + 1..]))), None => (t, None) };
    let (path, q) = match front.iter().position(|&c| c == b'?') { Some(i) => (&front[..i], model_query(&front[i + 1..])), None => (front, Map::new()) };
    (pct_decode(path), q, frag)
}
/// bytes that may appear raw in a target
fn piece(rng: &mut Rng, special: &[u8], out: &mut Vec<u8>, raw_utf8: bool) {
    match rng.below(12) {
        0..=3 => out.push(*rng.pick(b"abcXYZ019-._~!$'()*,;:@")),
        4 | 5 => out.push(*rng.pick(special)),
        6 | 7 => { let b = *rng.pick(&[b'/', b'%', b'?', b'#', b'&', b'=', b'+', b' ', 0, 0xC3, 0xA9, 0xFF, b'a', b'\n', b'.']); out.extend_from_slice(if rng.chance(1, 2) { format!("%{:02x}", b) } else { format!("%{:02X}", b) }.as_bytes()); }
        8 => out.extend_from_slice(*rng.pick(&[&b"%"[..], b"%%", b"%4", b"%zz", b"%2", b"%g1", b"%1g", b"%-1", b"%+1"])),
        9 => { let b = rng.byte(); out.extend_from_slice(format!("%{:02X}", b).as_bytes()); }
        10 => out.extend_from_slice(*rng.pick(&[&b"\"<>[]^`{|}\\"[..], b"%2525", b"%25%32%35", b"++", b"&&", b"=="])),
        _ => if raw_utf8 { let c = loop { let c = random_char(rng); if c as u32 > 0x9f { break c; } }; let mut b = [0; 4]; out.extend_from_slice(c.encode_utf8(&mut b).as_bytes()); },
    }
}
fn gen_target(rng: &mut Rng) -> Vec<u8> {
    let mut t = b"/".to_vec();
    let long = if big() { *rng.pick(&[300usize, 3000, 40_000]) } else { 1 };
    let k = if rng.chance(2, 3) { long } else { 1 };
    for _ in 0..rng.below(10 * k) { piece(rng, b"//", &mut t, true); }
    if rng.chance(2, 3) { if rng.chance(9, 10) { t.push(b'?'); } let k = if rng.chance(2, 3) { long / 4 + 1 } else { 1 }; for _ in 0..rng.below(12 * k) { piece(rng, b"&=?+/&=", &mut t, true); } }
    if rng.chance(1, 3) { t.push(b'#'); let k = if rng.chance(1, 2) { long / 8 + 1 } else { 1 }; for _ in 0..rng.below(6 * k) { piece(rng, b"#?&=/+", &mut t, true); } }
    t.truncate(380_000); // hyper takes heads of up to 417 792 bytes
    while std::str::from_utf8(&t).is_err() { t.pop(); }
    t.retain(|&c| c > 32 && c != 127);
    t
}
const METHODS: &[&str] = &["GET", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "TRACE", "XYZZY"];

fn target_case(rng: &mut Rng, cov: &mut Cov) -> CaseResult {
    let log: Log = Default::default();
    let flog: Log = Default::default();
    let routed = rng.chance(1, 2);
    let t = gen_target(rng);
    let method = *rng.pick(METHODS);
    let filters: Vec<Box<dyn ContextFilter>> = vec![Box::new(F { log: flog.clone(), abort: None })];
    let req = request(method, &t, &[("Host", b"h"), ("X-Token", b"t1")], b"");
    let mut script = Script::new(req);
    if rng.chance(1, 4) { script.frag = vec![rng.range(1, if big() { 20_000 } else { 5 })]; if big() { script.frag.push(rng.range(4000, 20_000)); } }
    let served = if routed {
        let mut router = DefaultRouter::<H>::new();
        let m: Method = method.parse().unwrap();
        router.build().many(|mut n| {
            n.then().on(m.clone(), H { log: log.clone(), read: false });
            n.path("*rest").then().on(m.clone(), H { log: log.clone(), read: false });
        });
        serve(&Server { context_filters: filters, ..Server::new(router) }.build(), script, false)
    } else { serve(&Server { context_filters: filters, ..Server::new(H { log: log.clone(), read: false }) }.build(), script, false) };
    let (path, query, fragment) = model_target(&t);
    let (log, flog) = (log.lock().unwrap(), flog.lock().unwrap());
    let what = format!("target {}", if big() { format!("of {} bytes {}", t.len(), show_short(&t)) } else { show(&t) });
    cov.max("max bytes of a target", t.len() as u64);
    ensure!(served.end == End::Closed, "serve", "{}: {:?}", what, served.end);
    ensure!(log.len() == 1 && flog.len() == 1, "calls", "{}: handler ran {} times, filter {} times", what, log.len(), flog.len());
    for (who, s) in vec![("handler", &log[0]), ("filter", &flog[0])] {
        ensure!(s.method == method, "method", "{}: {} sees method {}", what, who, s.method);
        ensure!(s.path.as_ref() == Some(&path), "path", "{}: {} sees path {:?}, it is {}", what, who, s.path.as_ref().map(|p| show(p)), show(&path));
        ensure!(s.query == query, "query", "{}: {} sees query {:?}, it is {:?}", what, who, s.query, query);
        ensure!(s.fragment == fragment, "fragment", "{}: {} sees fragment {:?}, it is {:?}", what, who, s.fragment.as_ref().map(|p| show(p)), fragment.as_ref().map(|p| show(p)));
    }
    if routed {
        let segs = model_segments(&path);
        let want = if segs.is_empty() { None } else { Some(segs.join(&b'/')) };
        ensure!(log[0].vars.get(&b"rest"[..]) == want.as_ref() && log[0].vars.len() == want.iter().count(), "routing", "{}: routed with {:?}, the decoded path is {}", what, log[0].vars, show(&path));
    }
    let rs = parse_all(&served.out, &[]).map_err(|e| Violation { sig: "wire".into(), detail: format!("{}: {}", what, e) })?;
    ensure!(rs.len() == 1 && rs[0].status == 200 && rs[0].body == b"ran", "wire", "{}: answered {:?}", what, rs);
    if !query.is_empty() { cov.count("with query"); }
    if fragment.is_some() { cov.count("with fragment"); }
    if std::str::from_utf8(&path).is_err() { cov.count("path not UTF-8"); }
    if t.contains(&b'%') { cov.count("with escapes"); cov.nontrivial(&t); }
    cov.sample(|| show(&t));
    Ok(())
}

// ---- C09
fn abs_case(rng: &mut Rng, cov: &mut Cov) -> CaseResult {
    match rng.below(10) { 0 => return star_case(rng, cov), 1 => return invalid_case(rng, cov), _ => {} }
    // a path that URL parsing doesn't rewrite
    let mut path = vec![];
    for _ in 0..rng.below(4) {
        path.push(b'/');
        let start = path.len();
        for _ in 0..rng.below(4) { piece(rng, b"+", &mut path, true); }
        path.retain(|&c| c > 32 && c != 127 && c != b'\\' && c != b'?' && c != b'#');
        let seg = pct_decode(&path[start.min(path.len())..]);
        if seg == b"." || seg == b".." { path.push(b'x'); }
    }
    let mut tail = vec![];
    if rng.chance(1, 2) { tail.push(b'?'); for _ in 0..rng.below(8) { piece(rng, b"&=?+/", &mut tail, true); } tail.retain(|&c| c != b'#'); }
    if rng.chance(1, 3) { tail.push(b'#'); for _ in 0..rng.below(5) { piece(rng, b"?&=/+", &mut tail, true); } }
    tail.retain(|&c| c > 32 && c != 127);
    let host = *rng.pick(&["example.com", "a", "localhost", "127.0.0.1", "[::1]", "[2001:db8::7]", "x-y.z.org", "EXAMPLE.org"]);
    let scheme = *rng.pick(&["http", "http", "http", "https", "HTTP"]);
    let port = match rng.below(3) { 0 => Some(rng.range(1024, 65535) as u16), 1 => Some(8080), _ => None };
    let user = *rng.pick(&["", "", "", "u@", "u:p@"]);
    let mut abs = format!("{}://{}{}", scheme, user, host).into_bytes();
    if let Some(p) = port { abs.extend_from_slice(format!(":{}", p).as_bytes()); }
    abs.extend_from_slice(&path);
    abs.extend_from_slice(&tail);
    let mut origin = if path.is_empty() { b"/".to_vec() } else { path.clone() };
    origin.extend_from_slice(&tail);
    let method = *rng.pick(METHODS);
    let mut headers: Vec<(&str, &[u8])> = vec![("X-Token", b"77")];
    for _ in 0..rng.below(3) { headers.push(("Host", *rng.pick(&[&b"other.example:99"[..], b"other", b"", b"[::2]:1"]))); }
    let mut oheaders = headers.clone();
    oheaders.retain(|h| h.0 != "Host");
    let logs: Vec<Log> = vec![Default::default(), Default::default(), Default::default(), Default::default()];
    let mut outs = vec![];
    let routed = rng.chance(2, 3);
    let seg0 = model_segments(&pct_decode(&origin[..origin.iter().position(|&c| c == b'?' || c == b'#').unwrap_or(origin.len())])).into_iter().next();
    for (k, (target, hs)) in vec![(&abs, &headers), (&origin, &oheaders)].into_iter().enumerate() {
        let filters: Vec<Box<dyn ContextFilter>> = vec![Box::new(F { log: logs[k + 2].clone(), abort: None })];
        let script = Script::new(request(method, target, hs, b""));
        let served = if routed {
            let mut router = DefaultRouter::<H>::new();
            let m: Method = method.parse().unwrap();
            router.build().many(|mut n| {
                if let Some(ref s) = seg0 { if !s.is_empty() && s[0] != b'*' && s[0] != b':' && !s.contains(&b'/') { n.path(&s[..]).then().on(m.clone(), H { log: logs[k].clone(), read: false }); } }
                n.path(":first/:second").then().on(m.clone(), H { log: logs[k].clone(), read: false });
                n.path("*rest").then().on(Method::Get, H { log: logs[k].clone(), read: false });
            });
            serve(&Server { context_filters: filters, ..Server::new(router) }.build(), script, false)
        } else { serve(&Server { context_filters: filters, ..Server::new(H { log: logs[k].clone(), read: false }) }.build(), script, false) };
        ensure!(served.end == End::Closed, "serve", "target {}: {:?}", show(target), served.end);
        let rs = parse_all(&served.out, &[]).map_err(|e| Violation { sig: "wire".into(), detail: format!("target {}: {}", show(target), e) })?;
        ensure!(rs.len() == 1, "wire", "target {}: {} responses", show(target), rs.len());
        outs.push((rs[0].status, rs[0].body.clone()));
    }
    let what = format!("absolute {} vs origin {}", show(&abs), show(&origin));
    ensure!(outs[0] == outs[1], "answer", "{}: answered {:?} vs {:?}", what, outs[0].0, outs[1].0);
    let (mpath, mquery, mfrag) = model_target(&origin);
    for i in vec![0, 2] {
        let (a, o) = (logs[i].lock().unwrap(), logs[i + 1].lock().unwrap());
        ensure!(a.len() == o.len() && (i == 0 || a.len() == 1), "dispatch", "{}: {} vs {} calls", what, a.len(), o.len());
        if let (Some(a), Some(o)) = (a.first(), o.first()) {
            ensure!(a.path == o.path && a.query == o.query && a.fragment == o.fragment && a.vars == o.vars && a.method == o.method, "seen", "{}:\n {:?}\n {:?}", what, a, o);
            ensure!(a.path.as_ref() == Some(&mpath) && a.query == mquery && a.fragment == mfrag, "seen", "{}: saw {:?}", what, a);
            let (h, p) = a.host.clone().unwrap_or_default();
            ensure!(h.eq_ignore_ascii_case(host) && p == port, "host", "{}: Host is {:?}, the target names {} {:?}", what, a.host, host, port);
            ensure!(a.headers.iter().filter(|h| h.0 == "host").count() == 1, "host", "{}: headers {:?}", what, a.headers);
            let hv = &a.headers.iter().find(|h| h.0 == "host").unwrap().1;
            ensure!(hv.eq_ignore_ascii_case(&match port { Some(p) => format!("{}:{}", host, p), None => host.to_string() }), "host", "{}: Host reads {:?}", what, hv);
            let rest: Vec<_> = a.headers.iter().filter(|h| h.0 != "host").collect();
            let orest: Vec<_> = o.headers.iter().filter(|h| h.0 != "host").collect();
            ensure!(rest == orest, "headers", "{}: headers {:?} vs {:?}", what, rest, orest);
            ensure!(o.host.is_none(), "host", "{}: Host out of nowhere: {:?}", what, o.host);
        }
    }
    if headers.len() > 1 { cov.count("conflicting Host header"); }
    cov.count(&format!("status {}", outs[0].0));
    cov.count("absolute vs origin");
    if !mquery.is_empty() || mpath.len() > 2 { cov.nontrivial(&abs); }
    cov.sample(|| what.clone());
    Ok(())
}
fn star_case(rng: &mut Rng, cov: &mut Cov) -> CaseResult {
    let log: Log = Default::default();
    let n = rng.below(4);
    let abort = if n > 0 && rng.chance(1, 2) { Some((rng.below(n), *rng.pick(&[401u16, 403, 405, 500, 503, 200, 404]))) } else { None };
    let flogs: Vec<Log> = (0..n).map(|_| Default::default()).collect();
    let filters: Vec<Box<dyn ContextFilter>> = (0..n).map(|i| Box::new(F { log: flogs[i].clone(), abort: abort.and_then(|(k, s)| if k == i { Some(s) } else { None }) }) as Box<dyn ContextFilter>).collect();
    let method = *rng.pick(METHODS);
    let served = if rng.chance(1, 2) {
        let mut router = DefaultRouter::<H>::new();
        let m: Method = method.parse().unwrap();
        router.build().many(|mut n| { n.then().on(m.clone(), H { log: log.clone(), read: false }); n.path("*r").then().on(m.clone(), H { log: log.clone(), read: false }); n.path(":r").then().on(m.clone(), H { log: log.clone(), read: false }); });
        serve(&Server { context_filters: filters, ..Server::new(router) }.build(), Script::new(request(method, b"*", &[("Host", b"h")], b"")), false)
    } else { serve(&Server { context_filters: filters, ..Server::new(H { log: log.clone(), read: false }) }.build(), Script::new(request(method, b"*", &[("Host", b"h")], b"")), false) };
    let rs = parse_all(&served.out, &[]).map_err(|e| Violation { sig: "wire".into(), detail: format!("{} *: {}", method, e) })?;
    ensure!(log.lock().unwrap().is_empty(), "asterisk handled", "{} * reached a handler", method);
    let want = abort.map_or(200, |a| a.1);
    ensure!(rs.len() == 1 && rs[0].status == want && rs[0].body.is_empty() && rs[0].complete && served.end == End::Closed, "asterisk answer", "{} *: {:?} {:?}, wanted an empty {}", method, rs, served.end, want);
    for (i, f) in flogs.iter().enumerate() {
        let f = f.lock().unwrap();
        let ran = abort.map_or(true, |a| i <= a.0);
        ensure!(f.len() == ran as usize, "asterisk filters", "{} *: filter {} ran {} times, abort {:?}", method, i, f.len(), abort);
        if ran { ensure!(f[0].path.is_none() && f[0].query.is_empty() && f[0].fragment.is_none() && f[0].method == method, "asterisk filters", "{} *: filter {} saw {:?}", method, i, f[0]); }
    }
    cov.count("asterisk"); cov.nontrivial(&(method, n, abort));
    Ok(())
}
fn invalid_case(rng: &mut Rng, cov: &mut Cov) -> CaseResult {
    let log: Log = Default::default();
    let flog: Log = Default::default();
    let t = match rng.below(4) { 0 => format!("host{}.example:{}", rng.below(100), rng.range(1, 65535)), 1 => format!("w{}", rng.below(1000)), 2 => format!("10.0.{}.{}:{}", rng.below(255), rng.below(255), rng.range(1, 9999)), _ => format!("a{}.b?x={}", rng.below(100), rng.below(9)) };
    let method = if rng.chance(1, 2) { "CONNECT" } else { *rng.pick(METHODS) };
    let filters: Vec<Box<dyn ContextFilter>> = vec![Box::new(F { log: flog.clone(), abort: None })];
    // a valid request behind it must still be served
    let ka = rng.chance(1, 2);
    let mut input = request(method, t.as_bytes(), &[("Host", b"h")], b"");
    let follow = ka && rng.chance(1, 2);
    if follow { input.extend(request("GET", b"/next", &[("Host", b"h")], b"")); }
    let keep = rustful::server::KeepAlive { timeout: std::time::Duration::from_secs(5), free_threads: 0 };
    let mut server = Server { context_filters: filters, ..Server::new(H { log: log.clone(), read: false }) };
    if ka { server.keep_alive = Some(keep); }
    let served = serve(&server.build(), Script::new(input), ka);
    let rs = parse_all(&served.out, &[]).map_err(|e| Violation { sig: "wire".into(), detail: format!("{} {}: {}", method, t, e) })?;
    ensure!(rs.len() == 1 + follow as usize && rs[0].status == 400 && rs[0].body.is_empty(), "invalid answer", "{} {}: {:?} {:?}", method, t, rs, served.end);
    ensure!(log.lock().unwrap().len() == follow as usize && flog.lock().unwrap().len() == follow as usize, "invalid handled", "{} {}: {} handler and {} filter calls", method, t, log.lock().unwrap().len(), flog.lock().unwrap().len());
    if follow { ensure!(rs[1].status == 200 && rs[1].body == b"ran", "invalid follow", "{} {}: next request answered {:?}", method, t, rs[1]); }
    cov.count("invalid target"); cov.nontrivial(&(method, t));
    Ok(())
}

// ---- C10
pub fn encode_map(rng: &mut Rng, m: &Map) -> Vec<u8> {
    let mut items: Vec<(Vec<u8>, Vec<u8>)> = m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    rng.shuffle(&mut items);
    let style = rng.below(3);
    let mut enc = |s: &[u8], rng: &mut Rng| -> Vec<u8> {
        let mut o = vec![];
        for &c in s {
            let safe = match style { 0 => c.is_ascii_alphanumeric() || b"*-._".contains(&c), 1 => unreserved(c), _ => c > 32 && c < 127 && !b"%&=+#".contains(&c) };
            if c == b' ' && rng.chance(1, 2) { o.push(b'+') } else if safe && rng.chance(7, 8) { o.push(c) } else { o.extend_from_slice(if rng.chance(1, 2) { format!("%{:02X}", c) } else { format!("%{:02x}", c) }.as_bytes()) }
        }
        o
    };
    let mut parts = vec![];
    for (k, v) in items { let mut p = enc(&k, rng); p.push(b'='); p.extend(enc(&v, rng)); parts.push(p); }
    parts.join(&b'&')
}
fn form_case(rng: &mut Rng, cov: &mut Cov) -> CaseResult {
    let in_body = rng.chance(1, 2);
    let (text, want, round) = if rng.chance(1, 2) {
        let mut m: Map = (0..rng.below(if big() { 2000 } else { 6 })).map(|_| (utf8ish(rng), utf8ish(rng))).collect();
        if big() && rng.chance(1, 3) { let names = rng.chance(1, 2); for i in 0..rng.range(2000, 80_000) { m.insert(if names { format!("k{}", i).into_bytes() } else { format!("{:x}", i).into_bytes() }, if rng.chance(1, 9) { utf8ish(rng) } else { vec![] }); } }
        if big() { for _ in 0..rng.below(4) { let n = rng.range(1000, 60_000); let mut v = vec![]; while v.len() < n { v.extend(utf8ish(rng)); } m.insert(utf8ish(rng), v); } }
        if big() && !in_body { let mut n = 0; m = m.into_iter().take_while(|(k, v)| { n += 3 * (k.len() + v.len()) + 2; n < 380_000 }).collect(); }
        let t = encode_map(rng, &m);
        (t, m, true)
    } else {
        let mut t = vec![];
        for _ in 0..rng.below(if big() { 60_000 } else { 16 }) {
            if in_body && rng.chance(1, 12) { t.push(rng.byte()) } else { piece(rng, b"&&==++&=", &mut t, true) }
        }
        if !in_body { t.retain(|&c| c > 32 && c != 127 && c != b'#'); }
        if std::str::from_utf8(&t).is_err() && !in_body { t.clear(); }
        let m = model_query(&t);
        (t, m, false)
    };
    if round { let mm = model_query(&text); if mm != want { return bad("model", format!("oracle: {} does not encode {:?}", show(&text), want)); } }
    let log: Log = Default::default();
    let inst = Server::new(H { log: log.clone(), read: true }).build();
    let mut target = b"/f".to_vec();
    let mut input;
    if in_body {
        let ct = *rng.pick(&["application/x-www-form-urlencoded", "text/plain", "application/x-www-form-urlencoded; charset=utf-8"]);
        if rng.chance(1, 2) {
            input = request("POST", &target, &[("Host", b"h"), ("Content-Type", ct.as_bytes()), ("Content-Length", text.len().to_string().as_bytes())], &text);
        } else {
            let body = chunk_encode(rng, &text);
            input = request("POST", &target, &[("Host", b"h"), ("Content-Type", ct.as_bytes()), ("Transfer-Encoding", b"chunked")], &body);
        }
        input.extend_from_slice(b"GET /trailing?garbage=1 HTTP/1.1\r\n\r\n");
    } else { target.push(b'?'); target.extend_from_slice(&text); input = request("GET", &target, &[("Host", b"h")], b""); }
    let mut script = Script::new(input);
    if rng.chance(1, 3) { script.frag = (0..rng.range(1, 4)).map(|_| rng.range(1, if big() { 3000 } else { 20 })).collect(); }
    let served = serve(&inst, script, false);
    let log = log.lock().unwrap();
    let what = format!("{} {}", if in_body { "body" } else { "query" }, if big() { show_short(&text) } else { show(&text) });
    cov.max("max bytes of a form", text.len() as u64);
    cov.max("max parameters of a form", want.len() as u64);
    ensure!(log.len() == 1 && served.end == End::Closed, "serve", "{}: {} calls {:?}", what, log.len(), served.end);
    let got = if in_body { log[0].body.clone() } else { Some(log[0].query.clone()) };
    ensure!(got.as_ref() == Some(&want), if round { "round trip" } else { "decode" }, "{}\n gives {:?}\n want  {:?}", what, got, want);
    ensure!(if in_body { log[0].query.is_empty() } else { log[0].body == Some(Map::new()) }, "leak", "{}: query {:?} body {:?}", what, log[0].query, log[0].body);
    cov.count(if in_body { "in a body" } else { "in a target" });
    cov.count(if round { "round trips" } else { "decodings" });
    cov.add("parameters", want.len() as u64);
    if want.len() > 1 { cov.nontrivial(&text); }
    cov.sample(|| what.clone());
    Ok(())
}
/// Random valid chunked encoding, with extensions and odd but valid sizes.
pub fn chunk_encode(rng: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    let cap = if rng.chance(1, 3) { *rng.pick(&[8usize, 300, 5000]) } else { b.len() };
    while i < b.len() {
        let n = match rng.below(4) { 0 => 1, 1 => rng.range(1, 8), 2 => rng.range(1, 300), _ => cap }.min(b.len() - i);
        let size = match rng.below(4) { 0 => format!("{:X}", n), 1 => format!("{:04x}", n), _ => format!("{:x}", n) };
        o.extend_from_slice(size.as_bytes());
        match rng.below(12) { 0 => o.extend_from_slice(b";ext=1"), 1 => o.extend_from_slice(b" ;a"), 2 => o.extend_from_slice(b" "), _ => {} }
        o.extend_from_slice(b"\r\n");
        o.extend_from_slice(&b[i..i + n]);
        o.extend_from_slice(b"\r\n");
        i += n;
    }
    o.extend_from_slice(if rng.chance(1, 8) { b"000\r\n\r\n" } else { b"0\r\n\r\n" });
    o
}

pub fn run(r: &mut Run) {
    match &r.id.clone()[..] {
        "C08" => { r.cases("targets", 120_000, 4_000_000, target_case); r.large("targets", 200, 10_000, target_case); }
        "C09" => r.cases("targets", 60_000, 2_000_000, abs_case),
        "C10" => { r.cases("forms", 120_000, 4_000_000, form_case); r.large("forms", 200, 10_000, form_case); }
        _ => unreachable!(),
    }
}
