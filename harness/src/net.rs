//! C26 connection accounting, C27 concurrency over TCP, C28 panics, C32 listening.
use crate::bodies::keep;
use crate::core::*;
use crate::ensure;
use crate::responses::*;
use crate::wire::*;
use rustful::filter::*;
use rustful::header::Headers;
use rustful::net::{HttpStream, NetworkStream, SslServer};
use rustful::response::Data;
use rustful::server::{Global, Host, KeepAlive, Listening, ServerInstance};
use rustful::{Context, DefaultRouter, Handler, Response, Server, StatusCode};
use std::collections::{BTreeMap, HashMap};
use std::io::{self, Read, Write};
use std::net::{Ipv4Addr, Ipv6Addr, Shutdown, SocketAddr, SocketAddrV4, SocketAddrV6, TcpStream};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex, OnceLock, Weak};
use std::time::{Duration, Instant};

/// Patience with a real server, far above what it needs.
const PATIENCE: Duration = Duration::from_secs(40);

// ---- a plain client
pub struct Client { pub s: TcpStream, pub buf: Vec<u8> }
#[derive(Debug)]
pub enum Got { Response(WireResponse), Closed(Vec<u8>), Silence(Vec<u8>), Garbage(String) }
impl Client {
    pub fn connect(a: SocketAddr) -> io::Result<Client> { let s = TcpStream::connect_timeout(&a, PATIENCE)?; s.set_nodelay(true)?; s.set_read_timeout(Some(PATIENCE))?; s.set_write_timeout(Some(PATIENCE))?; Ok(Client { s, buf: vec![] }) }
    pub fn send(&mut self, b: &[u8]) -> io::Result<()> { self.s.write_all(b) }
    pub fn recv(&mut self) -> Got {
        loop {
            let mut rest = None;
            match parse_response(&self.buf, false) {
                Ok((r, left)) => if r.complete && r.framing != Framing::Close { rest = Some((r, left.to_vec())); },
                Err(ref e) if e.contains("incomplete") => {}
                Err(e) => return Got::Garbage(format!("{}: {}", e, show_short(&self.buf))),
            }
            if let Some((r, left)) = rest { self.buf = left; return Got::Response(r); }
            let mut b = [0; 16384];
            match self.s.read(&mut b) {
                Ok(0) => return Got::Closed(std::mem::replace(&mut self.buf, vec![])),
                Ok(n) => self.buf.extend_from_slice(&b[..n]),
                Err(ref e) if e.kind() == io::ErrorKind::WouldBlock || e.kind() == io::ErrorKind::TimedOut => return Got::Silence(self.buf.clone()),
                Err(ref e) if e.kind() == io::ErrorKind::Interrupted => {}
                Err(_) => return Got::Closed(std::mem::replace(&mut self.buf, vec![])),
            }
        }
    }
    /// waits for the server to close its side
    pub fn eof(&mut self) -> bool { match self.recv() { Got::Closed(_) => true, _ => false } }
    /// tells the server that nothing more will come, and waits until it's done with the connection
    pub fn finish(mut self) -> bool { let _ = self.s.shutdown(Shutdown::Write); loop { match self.recv() { Got::Closed(_) => return true, Got::Response(_) => {} _ => return false } } }
}
/// Servers can't be stopped, they stay until the process ends.
pub fn keep_running(l: Listening) -> SocketAddr { let a = l.socket; std::mem::forget(l); a }

// ---- C26, in memory: any history of connections
#[derive(Clone, Copy, Debug, Hash, PartialEq)]
enum Boom { No, Before, Partial, Raw, After, FilterBegin, FilterWrite, FilterEnd, ContextFilter }
#[derive(Clone, Debug, Hash)]
enum Event { Open, Close(usize), Request { conn: usize, kind: u8, boom: Boom, asks: u8, nest: Vec<(bool, usize)> } }
struct Bomber { inst: Arc<OnceLock<Weak<ServerInstance<DefaultRouter<Bomber>>>>>, nest: Arc<Mutex<Vec<bool>>> }
fn boom_of(c: &Context) -> u8 { c.query.get("b").and_then(|b| b.parse().ok()).unwrap_or(0) }
impl Handler for Bomber {
    fn handle(&self, c: Context, r: Response) {
        // other connections come and go while this one is handled
        for open in self.nest.lock().unwrap().drain(..) { let i = self.inst.get().unwrap().upgrade().unwrap(); use hyper::server::Handler as H; if open { i.on_connection_start() } else { i.on_connection_end() } }
        bomb(c, r);
    }
}
struct B(u8);
/// Answers in a style of choice and panics where told to.
fn bomb(c: Context, mut r: Response) {
    let (b, kind) = (boom_of(&c), c.query.get("k").and_then(|k| k.parse().ok()).unwrap_or(0u8));
    drop(c);
    r.headers_mut().set_raw("X-Own", vec![b"1".to_vec()]);
    if b == Boom::Before as u8 { panic!("planned"); }
    if b == Boom::Partial as u8 { let mut w = r.into_chunked(); w.send("part"); if kind % 2 == 0 { w.flush().ok(); } panic!("planned"); }
    if b == Boom::Raw as u8 { let mut w = unsafe { r.into_raw(20) }; w.send("part"); panic!("planned"); }
    match kind {
        0 => r.send("whole"),
        1 => { let mut w = r.into_chunked(); w.send("wh"); w.send("ole"); }
        2 => { let mut w = unsafe { r.into_raw(5) }; w.send("whole"); }
        3 => drop(r),
        4 => { r.set_status(StatusCode::NotFound); r.try_send("whole").ok(); }
        _ => { let w = r.into_chunked(); w.end().ok(); }
    }
    if b == Boom::After as u8 { panic!("planned"); }
}
struct BombFilter;
impl ContextFilter for BombFilter { fn modify(&self, f: FilterContext, c: &mut Context) -> ContextAction { let b = boom_of(c); f.storage.insert(B(b)); if b == Boom::ContextFilter as u8 { panic!("planned") } if c.query.get("refuse").is_some() { ContextAction::abort(StatusCode::Forbidden) } else { ContextAction::next() } } }
impl BombFilter { fn at(c: &FilterContext, b: Boom) { if c.storage.get::<B>().map(|b| b.0) == Some(b as u8) { panic!("planned") } } }
impl ResponseFilter for BombFilter {
    fn begin(&self, c: FilterContext, s: StatusCode, _: &mut Headers) -> (StatusCode, ResponseAction<'_>) { Self::at(&c, Boom::FilterBegin); (s, if c.storage.get::<B>().map(|b| b.0) == Some(100) { ResponseAction::abort("no".into()) } else { ResponseAction::Next(None) }) }
    fn write<'a>(&'a self, c: FilterContext, d: Option<Data<'a>>) -> ResponseAction<'a> { if d.is_some() { Self::at(&c, Boom::FilterWrite) } if c.storage.get::<B>().map(|b| b.0) == Some(101) { return ResponseAction::abort("no".into()) } ResponseAction::Next(d) }
    // a filter whose state is broken by a panic may well panic again
    fn end(&self, c: FilterContext) -> ResponseAction<'_> { Self::at(&c, Boom::FilterEnd); Self::at(&c, Boom::FilterWrite); Self::at(&c, Boom::FilterBegin); ResponseAction::Next(None) }
}
fn bomb_server() -> (Server<DefaultRouter<Bomber>>, Arc<OnceLock<Weak<ServerInstance<DefaultRouter<Bomber>>>>>, Arc<Mutex<Vec<bool>>>) {
    let inst = Arc::new(OnceLock::new());
    let nest = Arc::new(Mutex::new(vec![]));
    let mut router = DefaultRouter::<Bomber>::new();
    router.build().path("h").then().on_get(Bomber { inst: inst.clone(), nest: nest.clone() });
    let mut s = Server::new(router);
    s.context_filters.push(Box::new(BombFilter));
    (s, inst, nest)
}
const BOOMS: [Boom; 8] = [Boom::Before, Boom::Partial, Boom::Raw, Boom::After, Boom::FilterBegin, Boom::FilterWrite, Boom::FilterEnd, Boom::ContextFilter];
fn bomb_request(kind: u8, code: u8, asks: u8) -> (Vec<u8>, bool) {
    let (m, t) = match kind { 0..=5 => ("GET", format!("/h?k={}&b={}", kind, code)), 6 => ("GET", format!("/none?b={}", code)), 7 => ("POST", format!("/h?b={}", code)), 8 => ("GET", format!("/h?refuse=1&b={}", code)), 9 => ("OPTIONS", "*".to_string()), _ => ("CONNECT", "h:1".to_string()) };
    let mut h: Vec<(&str, &[u8])> = vec![("Host", b"h")];
    match asks { 1 => h.push(("Connection", b"close")), 2 => h.push(("Connection", b"keep-alive")), 3 => h.push(("connection", b"Keep-Alive, Close")), _ => {} }
    (request(m, t.as_bytes(), &h, b""), asks == 1 || asks == 3)
}
fn history_case(rng: &mut Rng, cov: &mut Cov) -> CaseResult {
    let threads = rng.range(1, 9);
    let free = match rng.below(8) { 0 => threads, 1 => threads + 1, 2 => *rng.pick(&[usize::MAX, usize::MAX - 1, usize::MAX / 2]), _ => rng.below(threads + 1) };
    let configured = rng.chance(7, 8);
    let (mut server, cell, nest) = bomb_server();
    server.threads = Some(threads);
    if configured { server.keep_alive = keep(free); }
    server.response_filters.push(Box::new(BombFilter));
    let inst = Arc::new(server.build());
    cell.set(Arc::downgrade(&inst)).ok().unwrap();
    use hyper::server::Handler as H;
    let mut open = 0usize; // connections
    let mut history = vec![];
    let steps = rng.range(3, 25);
    for _ in 0..steps {
        let what = |history: &Vec<String>| format!("{} threads, keep-alive {}\nhistory {:?}", threads, if configured { format!("with {} free", free) } else { "off".into() }, history);
        match rng.below(8) {
            0 | 1 if open < threads => { inst.on_connection_start(); open += 1; history.push("open".into()); }
            2 if open > 0 => { inst.on_connection_end(); open -= 1; history.push("close".into()); }
            _ => {
                if open == 0 { inst.on_connection_start(); open += 1; history.push("open".into()); }
                let kind = rng.below(11) as u8;
                let boom = if rng.chance(1, 4) { *rng.pick(&BOOMS) } else { Boom::No };
                let code = if boom == Boom::No && rng.chance(1, 8) { 100 + rng.below(2) as u8 } else { boom as u8 };
                let (req, asks) = bomb_request(kind, code, rng.below(5) as u8);
                let mut inner = vec![];
                if kind < 6 && boom != Boom::ContextFilter { let mut o = open; for _ in 0..rng.below(3) { if rng.chance(1, 2) && o < threads { o += 1; inner.push(true); } else if o > 1 { o -= 1; inner.push(false); } } }
                *nest.lock().unwrap() = inner.clone();
                let served = serve_opt(&*inst, Script::new(req), configured, false);
                let want_close = !configured || asks || threads.checked_sub(open).map_or(true, |f| f < free);
                history.push(format!("request kind {} {:?}/{} asks {} with {} open, meanwhile {:?}", kind, boom, code, asks, open, inner));
                for i in inner { if i { open += 1 } else { open -= 1 } }
                nest.lock().unwrap().clear();
                match served.end {
                    End::HandlerPanic(ref p) => {
                        ensure!(p.contains("planned"), "panic", "{}\n{}", p, what(&history));
                        // hyper loses the connection without telling
                        open -= 1;
                        cov.count("panics");
                    }
                    End::ParsePanic(ref p) => return bad("panic", format!("{}\n{}", p, what(&history))),
                    _ => {
                        let rs = parse_all(&served.out, &[]).map_err(|e| Violation { sig: "malformed".into(), detail: format!("{}\n{}\nout {}", e, what(&history), show_short(&served.out)) })?;
                        ensure!(rs.len() == 1, "count", "{} responses\n{}", rs.len(), what(&history));
                        let says = rs[0].headers_all("connection").iter().any(|v| show(v).to_ascii_lowercase().split(',').any(|t| t.trim() == "close"));
                        ensure!(says == want_close, "connection", "{} connection header, want {}\n{}\n{:?}", if says { "a closing" } else { "no closing" }, want_close, what(&history), rs[0]);
                        cov.count(if want_close { "closed" } else { "kept" });
                        cov.count(["sized", "chunked", "raw", "dropped", "status set", "empty chunked", "no route", "wrong method", "refused", "asterisk", "invalid target"][kind as usize]);
                        if configured && !asks && threads - open.min(threads) <= free.saturating_add(1) { cov.nontrivial(&(threads, free, open, kind, code, history.len())); }
                        if want_close && rng.chance(3, 4) { inst.on_connection_end(); open -= 1; history.push("closed".into()); }
                    }
                }
            }
        }
    }
    cov.max("max longest history", history.len() as u64);
    cov.sample(|| format!("{} threads, {} free: {:?}", threads, free, history));
    Ok(())
}

/// Connections that open, end and break on several threads at the same time, and then the exact count.
fn count_case(rng: &mut Rng, cov: &mut Cov) -> CaseResult {
    use hyper::server::Handler as H;
    let threads = rng.range(9, 30);
    let free = rng.range(1, threads);
    let (mut server, cell, _) = bomb_server();
    server.threads = Some(threads);
    server.keep_alive = keep(free);
    let inst = Arc::new(server.build());
    cell.set(Arc::downgrade(&inst)).ok().unwrap();
    let workers = rng.range(2, 9);
    let n = rng.range(200, 3000);
    let stay = rng.below(2); // whether every worker leaves a connection open
    let stay = stay.min((threads - free) / workers);
    let (busy, panics) = (rng.chance(1, 2), rng.chance(1, 2));
    let start = std::sync::Barrier::new(workers);
    let seeds: Vec<u64> = (0..workers).map(|_| rng.next()).collect();
    let broken: usize = std::thread::scope(|s| {
        let (inst, start) = (&inst, &start);
        let hs: Vec<_> = seeds.iter().map(|&seed| s.spawn(move || {
            let mut rng = Rng::new(seed);
            let mut broken = 0;
            start.wait();
            for _ in 0..n {
                inst.on_connection_start();
                if busy && rng.chance(1, 20) {
                    let code = if panics && rng.chance(1, 3) { *rng.pick(&[Boom::Before, Boom::Partial, Boom::After]) } else { Boom::No };
                    let served = serve_opt(&**inst, Script::new(bomb_request(0, code as u8, 0).0), true, false);
                    if let End::HandlerPanic(_) = served.end { broken += 1; continue; }
                }
                inst.on_connection_end();
            }
            for _ in 0..stay { inst.on_connection_start(); }
            broken
        })).collect();
        hs.into_iter().map(|h| h.join().unwrap_or(0)).sum()
    });
    let what = format!("{} threads, {} to be free; {} threads opened and ended {} connections each ({} with requests, {} panics) and left {} open each", threads, free, workers, n, if busy { "some" } else { "none" }, broken, stay);
    let mut open = workers * stay;
    ensure!(open <= threads - free, "harness", "{}", what);
    while open < threads {
        inst.on_connection_start(); open += 1;
        if open + 1 < threads - free || open > threads - free + 2 { continue; }
        let want_close = threads - open < free;
        let served = serve_opt(&*inst, Script::new(bomb_request(0, Boom::No as u8, 0).0), true, false);
        let rs = parse_all(&served.out, &[]).map_err(|e| Violation { sig: "malformed".into(), detail: format!("{}\n{}", e, what) })?;
        ensure!(rs.len() == 1, "count", "{} responses\n{}", rs.len(), what);
        let says = rs[0].headers_all("connection").iter().any(|v| show(v).to_ascii_lowercase().split(',').any(|t| t.trim() == "close"));
        ensure!(says == want_close, "connection", "{}; with {} open: {} connection header, want {}", what, open, if says { "a closing" } else { "no closing" }, want_close);
        cov.count("counted after concurrent connections");
    }
    cov.add("concurrent connections", (workers * n) as u64);
    cov.add("concurrent connections broken by a panic", broken as u64);
    cov.nontrivial(&(threads, free, workers, n, stay, broken));
    Ok(())
}

// ---- C26 over TCP
struct TcpBomb;
impl Handler for TcpBomb { fn handle(&self, c: Context, r: Response) { bomb(c, r) } }
/// TLS that doesn't encrypt.
#[derive(Clone)]
struct NoTls;
impl hyper::net::SslServer for NoTls {
    type Stream = hyper::net::HttpStream;
    fn wrap_server(&self, stream: hyper::net::HttpStream) -> hyper::Result<hyper::net::HttpStream> { Ok(stream) }
}
static WAYS: AtomicUsize = AtomicUsize::new(0);
fn tcp_server<H: Handler>(h: H, threads: usize, ka: Option<KeepAlive>, filters: bool) -> Result<(SocketAddr, ()), Violation> {
    let mut router = DefaultRouter::<H>::new();
    router.build().path("h").then().on_get(h);
    let mut s = Server::new(router);
    s.host = (Ipv4Addr::new(127, 0, 0, 1), 0).into();
    s.threads = Some(threads);
    s.keep_alive = ka;
    if filters { s.context_filters.push(Box::new(BombFilter)); s.response_filters.push(Box::new(BombFilter)); }
    // every way to start it in turn
    let l = match WAYS.fetch_add(1, SeqCst) % 4 { 0 => s.run(), 1 => s.run_https(NoTls), 2 => s.build().run(), _ => s.build().run_https(NoTls) };
    match l { Ok(l) => Ok((keep_running(l), ())), Err(e) => bad("run", format!("{}", e)).map(|_: ()| unreachable!()) }
}
fn tcp_history_case(rng: &mut Rng, cov: &mut Cov) -> CaseResult {
    let threads = rng.range(1, 6);
    let free = rng.below(threads + 2);
    let configured = rng.chance(5, 6);
    let ka = if configured { Some(KeepAlive { timeout: Duration::from_secs(60), free_threads: free }) } else { None };
    let (addr, _) = tcp_server(TcpBomb, threads, ka, true)?;
    let mut history: Vec<String> = vec![];
    let mut open: Vec<Client> = vec![];
    let conn = |e: io::Error| Violation { sig: "connect".into(), detail: e.to_string() };
    for round in 0..rng.range(2, 6) {
        for _ in 0..rng.range(2, 14) {
            let what = |h: &Vec<String>| format!("{} threads, keep-alive {}\nhistory {:?}", threads, if configured { format!("with {} free", free) } else { "off".into() }, h);
            if !open.is_empty() && rng.chance(1, 5) { let i = rng.below(open.len()); history.push("close".into()); ensure!(open.swap_remove(i).finish(), "close", "the server doesn't close\n{}", what(&history)); continue; }
            let i = if open.is_empty() || (open.len() < threads && rng.chance(1, 2)) { open.push(Client::connect(addr).map_err(conn)?); open.len() - 1 } else { rng.below(open.len()) };
            let kind = rng.below(11) as u8;
            let boom = if rng.chance(1, 4) { *rng.pick(&BOOMS) } else { Boom::No };
            let (req, asks) = bomb_request(kind, boom as u8, rng.below(5) as u8);
            let want_close = !configured || asks || threads - open.len() < free;
            history.push(format!("request kind {} {:?} asks {} on {} of {}", kind, boom, asks, i, open.len()));
            open[i].send(&req).map_err(conn)?;
            let r = open[i].recv();
            // where nothing panics after all, because that part isn't reached
            let planned = planned_panic(kind, boom);
            match r {
                Got::Response(ref r) if !planned => {
                    let says = r.header("connection").map_or(false, |v| show(v).eq_ignore_ascii_case("close"));
                    ensure!(says == want_close, "connection", "{} connection header, want {}\n{}\n{:?}", if says { "a closing" } else { "no closing" }, want_close, what(&history), r);
                    cov.count(if want_close { "closed" } else { "kept" });
                    if want_close { ensure!(open.swap_remove(i).eof(), "close", "the server doesn't close\n{}", what(&history)); }
                    cov.nontrivial(&(threads, free, open.len(), kind, history.len()));
                }
                Got::Response(ref r) if planned => { ensure!(r.status >= 500 || boom == Boom::After, "success", "{:?} to a panic\n{}", r, what(&history)); ensure!(open.swap_remove(i).eof(), "close", "the connection stays after a panic\n{}", what(&history)); cov.count("panics"); }
                Got::Closed(_) if planned => { open.swap_remove(i); cov.count("panics"); }
                other => return bad("answer", format!("{:?}\n{}", other, what(&history))),
            }
        }
        // everything closed, the server is as free as at the start
        for c in open.drain(..) { ensure!(c.finish(), "close", "the server doesn't close at the end of round {}\nhistory {:?}", round, history); }
        history.push("all closed".into());
        cov.count("rounds");
    }
    Ok(())
}
fn planned_panic(kind: u8, boom: Boom) -> bool {
    match boom {
        Boom::No => false,
        Boom::Before | Boom::Partial | Boom::Raw | Boom::After => kind < 6,
        Boom::ContextFilter => kind < 9,
        Boom::FilterBegin | Boom::FilterEnd => kind < 9 && kind != 2,
        Boom::FilterWrite => kind < 9 && kind != 2 && kind != 5 || kind == 5,
    }
}
fn idle_case(rng: &mut Rng, cov: &mut Cov) -> CaseResult {
    let ms = rng.range(600, 3500) as u64;
    let (addr, _) = tcp_server(TcpBomb, 3, Some(KeepAlive { timeout: Duration::from_millis(ms), free_threads: 1 }), false)?;
    let conn = |e: io::Error| Violation { sig: "connect".into(), detail: e.to_string() };
    let mut c = Client::connect(addr).map_err(conn)?;
    for i in 0..rng.range(1, 4) {
        c.send(&bomb_request(0, 0, 0).0).map_err(conn)?;
        let r = c.recv();
        ensure!(if let Got::Response(ref r) = r { r.header("connection").is_none() } else { false }, "answer", "request {}: {:?}", i, r);
    }
    let t = Instant::now();
    let eof = c.eof();
    let d = t.elapsed();
    ensure!(eof && d < Duration::from_millis(ms + 20_000), "idle", "an idle connection is not closed after {} ms ({:?})", ms, d);
    ensure!(d > Duration::from_millis(ms - 200), "idle", "an idle connection is closed after {:?} instead of {} ms", d, ms);
    cov.count("idle connections closed in time");
    cov.nontrivial(&("idle", ms, d.as_micros()));
    Ok(())
}
/// The request that makes hyper itself panic, see known_findings.txt.
fn hyper_panic_case(_: &mut Rng, cov: &mut Cov) -> CaseResult {
    let (addr, _) = tcp_server(TcpBomb, 3, Some(KeepAlive { timeout: Duration::from_secs(60), free_threads: 2 }), false)?;
    let conn = |e: io::Error| Violation { sig: "connect".into(), detail: e.to_string() };
    let probe = || -> Result<bool, Violation> { let mut c = Client::connect(addr).map_err(conn)?; c.send(&bomb_request(0, 0, 0).0).map_err(conn)?; let kept = match c.recv() { Got::Response(r) => r.header("connection").is_none(), o => return bad("answer", format!("{:?}", o)).map(|_: ()| false) }; ensure!(c.finish(), "close", "not closed"); Ok(kept) };
    ensure!(probe()?, "connection", "not kept at first");
    let mut c = Client::connect(addr).map_err(conn)?;
    c.send(b"POST /h HTTP/1.1\r\nHost: h\r\nContent-Length: abc\r\n\r\n").map_err(conn)?;
    c.eof();
    cov.count("bad content lengths");
    ensure!(probe()?, "hyper-content-length-panic", "after a request with Content-Length: abc one connection is counted for ever");
    Ok(())
}

// ---- C28 in memory
#[derive(Default)]
struct Quiet;
fn panic_case(rng: &mut Rng, cov: &mut Cov) -> CaseResult {
    let (mut server, cell, _nest) = bomb_server();
    let threads = rng.range(1, 4);
    server.threads = Some(threads);
    let ka = rng.chance(3, 4);
    if ka { server.keep_alive = keep(0); }
    let filters = rng.below(3);
    for _ in 0..filters { server.response_filters.push(Box::new(BombFilter)); }
    let inst = Arc::new(server.build());
    cell.set(Arc::downgrade(&inst)).ok().unwrap();
    // the same conversation before and after
    let good: Vec<u8> = (0..9u8).filter(|k| *k != 9).flat_map(|k| bomb_request(k, 0, 0).0).collect();
    let strip = |s: &Served| -> Result<Vec<(u16, Vec<(String, Vec<u8>)>, Vec<u8>)>, String> { Ok(parse_all(&s.out, &[])?.into_iter().map(|r| (r.status, r.headers.into_iter().filter(|h| h.0 != "Date").collect(), r.body)).collect()) };
    let mal = |e: String| Violation { sig: "malformed".into(), detail: e };
    let before = strip(&serve(&*inst, Script::new(good.clone()), ka)).map_err(mal)?;
    let mut log = vec![];
    for _ in 0..rng.range(1, 6) {
        let lead = if ka { rng.below(3) } else { 0 };
        let mut input = vec![];
        for _ in 0..lead { input.extend(bomb_request(rng.below(9) as u8, 0, 0).0); }
        let (kind, boom) = (rng.below(9) as u8, *rng.pick(&BOOMS));
        input.extend(bomb_request(kind, boom as u8, 0).0);
        let body = rng.chance(1, 4);
        input.extend(bomb_request(0, 0, 0).0);
        let mut script = Script::new(input);
        if body { script.short_write = rng.range(1, 50); }
        script.write_interrupts = rng.chance(1, 5);
        let planned = match boom { Boom::FilterBegin | Boom::FilterEnd | Boom::FilterWrite => filters > 0 && planned_panic(kind, boom), _ => planned_panic(kind, boom) };
        let served = serve(&*inst, script, ka);
        log.push(format!("{} before, kind {} {:?}", lead, kind, boom));
        let what = format!("{} filters, keep-alive {}, {:?}\nout {}", filters, ka, log, show_short(&served.out));
        let rs = parse_all(&served.out, &[]).or_else(|e| if e.contains("incomplete") { parse_prefix(&served.out, lead) } else { Err(e) }).map_err(|e| Violation { sig: "malformed".into(), detail: format!("{}\n{}", e, what) })?;
        if !planned {
            ensure!(served.end != End::Limit && if let End::HandlerPanic(_) = served.end { false } else { true }, "panic", "{:?}\n{}", served.end, what);
            ensure!(rs.len() == if ka { lead + 2 } else { 1 }, "count", "{} responses\n{}", rs.len(), what);
            continue;
        }
        match served.end { End::HandlerPanic(ref p) if p.contains("planned") => {} ref o => return bad("panic", format!("{:?}\n{}", o, what)) }
        ensure!(rs.len() >= lead && rs.len() <= lead + 1, "count", "{} responses\n{}", rs.len(), what);
        for r in &rs[..lead] { ensure!(r.complete, "incomplete", "an earlier response is cut\n{}", what); }
        if let Some(r) = rs.get(lead) {
            // a filter may fail only once everything is sent
            let sent_whole = boom == Boom::After && kind < 6;
            if r.complete && r.framing != Framing::Close { ensure!(r.status >= 500 || sent_whole, "success", "the panicking request is answered {:?}\n{}", r, what); }
            cov.count(if !r.complete { "cut responses" } else if r.status >= 500 { "error responses" } else { "sent before the panic" });
        } else { cov.count("no response"); }
        cov.nontrivial(&(kind, boom, filters, ka, lead, log.len(), served.out.len()));
    }
    let after = strip(&serve(&*inst, Script::new(good), ka)).map_err(mal)?;
    ensure!(before == after, "changed", "after {:?}\nbefore the panics {:?}\nafter {:?}", log, before, after);
    // all the capacity is there: every other connection but the last may stay
    use hyper::server::Handler as H;
    if ka {
        for _ in 0..threads - 1 { inst.on_connection_start(); }
        let s = serve(&*inst, Script::new(bomb_request(0, 0, 0).0), true);
        let r = parse_all(&s.out, &[]).map_err(mal)?;
        ensure!(r.len() == 1 && r[0].header("connection").is_none(), "drift", "with all of {} threads in use and no need for free ones: {:?}\nafter {:?}", threads, r, log);
        for _ in 0..threads - 1 { inst.on_connection_end(); }
    }
    cov.sample(|| format!("{} filters, keep-alive {}: {:?}", filters, ka, log));
    Ok(())
}
fn parse_prefix(out: &[u8], lead: usize) -> Result<Vec<WireResponse>, String> {
    let mut b = out; let mut v = vec![];
    for _ in 0..lead { let (r, rest) = parse_response(b, false)?; v.push(r); b = rest; }
    Ok(v)
}

// ---- gates for handlers
#[derive(Default)]
struct Gate { state: Mutex<(usize, usize, bool)>, cv: Condvar } // inside, most seen, open
impl Gate {
    /// waits until `n` are inside or the gate is opened
    fn meet(&self, n: usize) -> bool {
        let mut s = self.state.lock().unwrap();
        s.0 += 1; s.1 = s.1.max(s.0);
        if s.0 >= n { s.2 = true; self.cv.notify_all(); }
        let t = Instant::now();
        while !s.2 { let left = match PATIENCE.checked_sub(t.elapsed()) { Some(l) => l, None => { s.0 -= 1; return false; } }; s = self.cv.wait_timeout(s, left).unwrap().0; }
        s.0 -= 1;
        true
    }
    fn open(&self) { self.state.lock().unwrap().2 = true; self.cv.notify_all(); }
    fn shut(&self) { let mut s = self.state.lock().unwrap(); s.2 = false; s.1 = s.0; }
    fn wait_inside(&self, n: usize) -> bool { let t = Instant::now(); while t.elapsed() < PATIENCE { if self.state.lock().unwrap().0 >= n { return true; } std::thread::sleep(Duration::from_micros(200)); } false }
}

// ---- C27
struct Shop { seen: Mutex<HashMap<String, usize>>, inside: AtomicUsize, most: AtomicUsize, gate: Gate, served: AtomicUsize }
struct Desk { name: &'static str }
struct TokenIn(String);
struct Jitter;
impl ContextFilter for Jitter {
    fn modify(&self, f: FilterContext, c: &mut Context) -> ContextAction {
        let t = c.headers.get_raw("x-token").and_then(|v| v.iter().next()).map(|v| show(v)).unwrap_or_default();
        if t.bytes().fold(0u32, |a, b| a.wrapping_mul(31) + b as u32) % 7 == 0 { std::thread::yield_now(); }
        c.query.insert("from-filter".to_string(), t.clone());
        f.storage.insert(TokenIn(t));
        if c.query.get("deny").is_some() { ContextAction::abort(StatusCode::Forbidden) } else { ContextAction::next() }
    }
}
impl ResponseFilter for Jitter {
    fn begin(&self, c: FilterContext, s: StatusCode, h: &mut Headers) -> (StatusCode, ResponseAction<'_>) { let t = c.storage.get::<TokenIn>().map(|t| t.0.clone()).unwrap_or_default(); h.set_raw("X-Token-Out", vec![t.into_bytes()]); (s, ResponseAction::Next(None)) }
    fn write<'a>(&'a self, c: FilterContext, d: Option<Data<'a>>) -> ResponseAction<'a> { if c.storage.get::<TokenIn>().map_or(0, |t| t.0.len()) % 3 == 0 { std::thread::yield_now(); } ResponseAction::Next(d) }
    fn end(&self, c: FilterContext) -> ResponseAction<'_> { ResponseAction::next(c.storage.get::<TokenIn>().map(|t| format!("|end {}", t.0))) }
}
impl Handler for Desk {
    fn handle(&self, mut c: Context, r: Response) {
        let shop: &Arc<Shop> = c.global.get().unwrap();
        let shop = shop.clone();
        let n = shop.inside.fetch_add(1, SeqCst) + 1;
        shop.most.fetch_max(n, SeqCst);
        shop.served.fetch_add(1, SeqCst);
        let mut body = vec![];
        let _ = c.body.read_to_end(&mut body);
        let get = |c: &Context, k: &str| c.query.get(k).map(|v| v.into_owned()).unwrap_or_default();
        let token = get(&c, "t");
        *shop.seen.lock().unwrap().entry(token.clone()).or_insert(0) += 1;
        if self.name == "meet" { let n = get(&c, "n").parse().unwrap_or(1); let ok = shop.gate.meet(n); shop.inside.fetch_sub(1, SeqCst); drop(c); r.send(if ok { "met" } else { "alone" }); return; }
        let spin = get(&c, "spin").parse().unwrap_or(0u64);
        if spin > 0 { if spin < 10 { for _ in 0..spin { std::thread::yield_now(); } } else { std::thread::sleep(Duration::from_micros(spin)); } }
        let text = format!("{} var {} query {} filter {} header {} path {} body {} {}", self.name, c.variables.get("v").map(|v| v.into_owned()).unwrap_or_default(), token, get(&c, "from-filter"), c.headers.get_raw("x-token").and_then(|v| v.iter().next()).map(|v| show(v)).unwrap_or_default(), c.uri_path, body.len(), String::from_utf8_lossy(&body));
        drop(c);
        shop.inside.fetch_sub(1, SeqCst);
        match token.len() % 3 { 0 => r.send(text), 1 => { let mut w = r.into_chunked(); for p in text.as_bytes().chunks(17) { w.send(p); } } _ => { let mut w = r.into_chunked(); write!(w, "{}", text).ok(); } }
    }
}
fn shop_server(threads: usize, ka: Option<KeepAlive>) -> Result<(SocketAddr, Arc<Shop>), Violation> {
    let shop = Arc::new(Shop { seen: Default::default(), inside: AtomicUsize::new(0), most: AtomicUsize::new(0), gate: Gate::default(), served: AtomicUsize::new(0) });
    let mut router = DefaultRouter::<Desk>::new();
    router.find_hyperlinks = true;
    router.build().many(|n| {
        n.path("item/:v").then().on_get(Desk { name: "item-get" });
        n.path("item/:v").then().on_post(Desk { name: "item-post" });
        n.path("item/fixed").then().on_get(Desk { name: "fixed" });
        n.path("deep/:v/*").then().on_get(Desk { name: "deep" });
        n.path("meet").then().on_get(Desk { name: "meet" });
    });
    let mut s = Server::new(router);
    s.host = (Ipv4Addr::new(127, 0, 0, 1), 0).into();
    s.threads = Some(threads);
    s.keep_alive = ka;
    s.global = Global::from((shop.clone(), 5u32));
    s.context_filters.push(Box::new(Jitter));
    s.response_filters.push(Box::new(Jitter));
    match s.run() { Ok(l) => Ok((keep_running(l), shop)), Err(e) => bad("run", format!("{}", e)).map(|_: ()| unreachable!()) }
}
struct Tally { tokens: Vec<String>, maybe: Vec<String>, kinds: [u64; 6], reused: u64 }
fn client_run(mut rng: Rng, addr: SocketAddr, id: usize, requests: usize, stays: bool) -> Result<Tally, Violation> {
    let conn = |e: io::Error| Violation { sig: "connect".into(), detail: e.to_string() };
    let mut t = Tally { tokens: vec![], maybe: vec![], kinds: [0; 6], reused: 0 };
    let mut c: Option<(Client, usize)> = None;
    let mut k = 0;
    while k < requests {
        let fresh = c.is_none();
        let (mut cl, used) = match c.take() { Some(c) => c, None => (Client::connect(addr).map_err(conn)?, 0) };
        // several requests at once sometimes, but not to a server that may close in between: the rest would reset the connection
        let batch = if stays && fresh && rng.chance(1, 5) { rng.range(2, 5) } else { 1 };
        let mut want = vec![]; let mut bytes = vec![];
        for b in 0..batch {
            let tok = format!("c{}r{}b{}{}", id, k, b, "x".repeat(rng.below(4)));
            let body: Vec<u8> = { let n = if rng.chance(1, 20) { rng.below(50_000) } else { rng.below(60) }; let s = tok.as_bytes(); (0..n).map(|i| s[i % s.len()]).collect() };
            let kind = rng.below(6);
            let spin = if rng.chance(1, 4) { rng.below(200) } else { 0 };
            let (m, p, name) = match kind { 0 | 1 => ("GET", format!("/item/v{}", tok), "item-get"), 2 => ("POST", format!("/item/v{}", tok), "item-post"), 3 => ("GET", format!("/deep/v{}/a/b", tok), "deep"), 4 => ("GET", format!("/nowhere/{}", tok), "404"), _ => ("GET", format!("/item/{}", tok), "deny") };
            let target = format!("{}?t={}&spin={}{}", p, tok, spin, if kind == 5 { "&deny=1" } else { "" });
            let len = body.len().to_string();
            let mut h: Vec<(&str, &[u8])> = vec![("Host", b"h"), ("X-Token", tok.as_bytes())];
            let chunked = kind == 2 && rng.chance(1, 2);
            let body = if kind == 2 { body } else { vec![] };
            if chunked { h.push(("Transfer-Encoding", b"chunked")); } else if kind == 2 { h.push(("Content-Length", len.as_bytes())); }
            let enc = if chunked { crate::targets::chunk_encode(&mut rng, &body) } else { body.clone() };
            bytes.extend(request(m, target.as_bytes(), &h, &enc));
            let text = format!("{} var v{} query {} filter {} header {} path {} body {} {}|end {}", name, tok, tok, tok, tok, p, body.len(), String::from_utf8_lossy(&body), tok);
            want.push((tok, kind, text));
            t.kinds[kind] += 1;
        }
        let hang_up = rng.chance(1, 25);
        if hang_up { let n = rng.below(bytes.len() + 1); let _ = cl.send(&bytes[..n]); if rng.chance(1, 2) { let _ = cl.s.shutdown(Shutdown::Both); } for w in want { t.maybe.push(w.0); } k += 1; continue; }
        if rng.chance(1, 5) { let n = rng.below(bytes.len()); cl.send(&bytes[..n]).map_err(conn)?; std::thread::yield_now(); cl.send(&bytes[n..]).map_err(conn)?; } else { cl.send(&bytes).map_err(conn)?; }
        let mut over = false;
        for (tok, kind, text) in want {
            if over { t.maybe.push(tok); continue; }
            match cl.recv() {
                Got::Response(r) => {
                    let out = r.header("x-token-out").map(show).unwrap_or_default();
                    ensure!(out == tok, "mixed up", "client {} asked with {} and got the response for {:?}: {:?}", id, tok, out, r.status);
                    let (st, body) = match kind { 4 => (404, format!("|end {}", tok)), 5 => (403, format!("|end {}", tok)), _ => (200, text) };
                    ensure!(r.status == st && r.body == body.as_bytes(), "mixed up", "client {} asked with {}: {} {}\nwant {} {}", id, tok, r.status, show_short(&r.body), st, body);
                    if kind < 4 { t.tokens.push(tok); }
                    over = r.header("connection").map_or(false, |v| show(v).eq_ignore_ascii_case("close"));
                }
                other => return bad("answer", format!("client {} asked with {}: {:?}", id, tok, other)).map(|_: ()| unreachable!()),
            }
        }
        if over { ensure!(cl.eof(), "close", "not closed"); } else if used < 6 && rng.chance(3, 4) { t.reused += 1; c = Some((cl, used + 1)); }
        k += 1;
    }
    Ok(t)
}
fn storm_case(rng: &mut Rng, cov: &mut Cov, weight: usize) -> CaseResult {
    let threads = rng.range(1, 9);
    let ka = if rng.chance(2, 3) { Some(KeepAlive { timeout: Duration::from_secs(60), free_threads: rng.below(threads + 1) }) } else { None };
    let stays = ka.as_ref().map_or(false, |k| k.free_threads == 0);
    let (addr, shop) = shop_server(threads, ka)?;
    let clients = rng.range(2, threads * 2 + 4);
    let requests = rng.range(5, weight);
    let results: Vec<Result<Tally, Violation>> = {
        let hs: Vec<_> = (0..clients).map(|i| { let r = rng.fork(); std::thread::spawn(move || client_run(r, addr, i, requests, stays)) }).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| bad("panic", take_panic()).map(|_: ()| unreachable!()))).collect()
    };
    let mut all = 0;
    let mut maybe = std::collections::HashSet::new();
    let mut sure = vec![];
    for r in results { let t = r?; all += t.tokens.len(); cov.add("pipelined or reused", t.reused); maybe.extend(t.maybe); sure.extend(t.tokens); }
    let seen = shop.seen.lock().unwrap();
    for t in &sure { ensure!(seen.get(t) == Some(&1), "exactly once", "the handler ran {:?} times for {}", seen.get(t), t); }
    for (t, n) in seen.iter() { ensure!(*n == 1 , "exactly once", "the handler ran {} times for {}", n, t); if !maybe.contains(t) { ensure!(sure.len() > 0, "exactly once", "handler ran for {:?}, which nobody sent", t); } }
    let known: std::collections::HashSet<&String> = sure.iter().collect();
    for t in seen.keys() { ensure!(known.contains(t) || maybe.contains(t), "exactly once", "the handler ran for {:?}, which nobody sent", t); }
    let most = shop.most.load(SeqCst);
    ensure!(most <= threads, "threads", "{} handlers at once with {} threads", most, threads);
    cov.add("handled requests", all as u64); cov.add("abandoned requests", maybe.len() as u64); cov.max("max handlers at once", most as u64); cov.add("clients", clients as u64);
    cov.nontrivial(&(threads, clients, requests, all, most, maybe.len()));
    Ok(())
}
fn meet_case(rng: &mut Rng, cov: &mut Cov) -> CaseResult {
    let threads = rng.range(1, 9);
    let (addr, shop) = shop_server(threads, if rng.chance(1, 2) { keep(0) } else { None })?;
    let conn = |e: io::Error| Violation { sig: "connect".into(), detail: e.to_string() };
    let ask = |n: usize, tok: &str| request("GET", format!("/meet?t={}&n={}", tok, n).as_bytes(), &[("Host", b"h"), ("X-Token", tok.as_bytes())], b"");
    for round in 0..3 {
        shop.gate.shut();
        // as many as there are threads meet
        let mut cs = vec![];
        for i in 0..threads { let mut c = Client::connect(addr).map_err(conn)?; c.send(&ask(threads, &format!("m{}-{}", round, i))).map_err(conn)?; cs.push(c); }
        for c in cs.iter_mut() { match c.recv() { Got::Response(ref r) if r.body.starts_with(b"met|") => {} o => { shop.gate.open(); return bad("progress", format!("{} handlers don't run at the same time with {} threads: {:?}", threads, threads, o)); } } }
        for c in cs { ensure!(c.finish(), "close", "not closed"); }
        // all but one are blocked, and the last serves
        shop.gate.shut();
        let mut cs = vec![];
        for i in 0..threads - 1 { let mut c = Client::connect(addr).map_err(conn)?; c.send(&ask(usize::MAX, &format!("b{}-{}", round, i))).map_err(conn)?; cs.push(c); }
        ensure!(shop.gate.wait_inside(threads - 1), "progress", "{} of {} handlers started", shop.gate.state.lock().unwrap().0, threads - 1);
        for i in 0..5 {
            let tok = format!("s{}-{}", round, i);
            let mut c = Client::connect(addr).map_err(conn)?;
            c.send(&request("GET", format!("/item/{}?t={}", tok, tok).as_bytes(), &[("Host", b"h"), ("Connection", b"close"), ("X-Token", tok.as_bytes())], b"")).map_err(conn)?;
            match c.recv() { Got::Response(ref r) if r.status == 200 && show(&r.body).contains(&tok) => {} o => { shop.gate.open(); return bad("progress", format!("with {} of {} handlers blocked: {:?}", threads - 1, threads, o)); } }
            ensure!(c.eof(), "close", "not closed");
        }
        shop.gate.open();
        for c in cs.iter_mut() { match c.recv() { Got::Response(ref r) if r.status == 200 => {} o => return bad("answer", format!("a blocked request: {:?}", o)) } }
        for c in cs { ensure!(c.finish(), "close", "not closed"); }
        cov.count("meetings");
        cov.nontrivial(&("meet", threads, round, rng.next()));
    }
    Ok(())
}

// ---- C28 over TCP
struct Fuse { gate: Arc<Gate> }
impl Handler for Fuse {
    fn handle(&self, c: Context, r: Response) {
        if let Some(n) = c.query.get("meet").and_then(|n| n.parse().ok()) { let ok = self.gate.meet(n); drop(c); return r.send(if ok { "met" } else { "alone" }); }
        bomb(c, r)
    }
}
fn tcp_panic_case(rng: &mut Rng, cov: &mut Cov) -> CaseResult {
    let threads = rng.range(1, 6);
    let gate = Arc::new(Gate::default());
    let ka = rng.chance(2, 3);
    let (addr, _) = tcp_server(Fuse { gate: gate.clone() }, threads, if ka { Some(KeepAlive { timeout: Duration::from_secs(60), free_threads: 0 }) } else { None }, true)?;
    let conn = |e: io::Error| Violation { sig: "connect".into(), detail: e.to_string() };
    let mut log = vec![];
    for round in 0..rng.range(1, 4) {
        // bystanders: connections that live through the panics, and one busy handler
        let bystanders = if ka && threads > 1 { rng.below(threads) } else { 0 };
        let mut others = vec![];
        for _ in 0..bystanders { let mut c = Client::connect(addr).map_err(conn)?; c.send(&bomb_request(0, 0, 0).0).map_err(conn)?; match c.recv() { Got::Response(ref r) if r.status == 200 && r.header("connection").is_none() => {} o => return bad("answer", format!("bystander: {:?}", o)) } others.push(c); }
        // several at once
        let n = rng.range(1, threads * 3 + 1);
        let mut hs = vec![];
        for _ in 0..n {
            let (kind, boom) = (rng.below(9) as u8, *rng.pick(&BOOMS));
            log.push((kind, boom));
            hs.push((kind, boom, std::thread::spawn(move || { let mut c = Client::connect(addr)?; c.send(&bomb_request(kind, boom as u8, 1).0)?; let r = c.recv(); let more = if let Got::Response(_) = r { !c.eof() } else { false }; Ok::<_, io::Error>((r, more)) })));
        }
        for (kind, boom, h) in hs {
            let planned = planned_panic(kind, boom);
            match h.join().unwrap() {
                Ok((Got::Response(ref r), false)) => { ensure!(!planned || r.status >= 500 || boom == Boom::After, "success", "kind {} {:?} is answered {:?}", kind, boom, r); cov.count(if planned { "panics answered" } else { "no panic" }); }
                Ok((Got::Closed(ref b), _)) => { ensure!(planned, "answer", "kind {} {:?}: closed after {}", kind, boom, show_short(b)); cov.count("panics that close"); }
                // the peer of a connection that's dropped may see a reset
                Err(ref e) if planned && (e.kind() == io::ErrorKind::ConnectionReset || e.kind() == io::ErrorKind::BrokenPipe) => {}
                o => return bad("answer", format!("kind {} {:?}: {:?}", kind, boom, o)),
            }
        }
        // bystanders go on
        for c in others.iter_mut() { c.send(&bomb_request(1, 0, 0).0).map_err(conn)?; match c.recv() { Got::Response(ref r) if r.status == 200 && r.body == b"whole" => {} o => return bad("bystander", format!("after {:?}: {:?}", log, o)) } cov.count("bystanders unharmed"); }
        for c in others { ensure!(c.finish(), "close", "not closed"); }
        // all workers are there
        gate.shut();
        let mut cs = vec![];
        for _ in 0..threads { let mut c = Client::connect(addr).map_err(conn)?; c.send(&request("GET", format!("/h?meet={}", threads).as_bytes(), &[("Host", b"h")], b"")).map_err(conn)?; cs.push(c); }
        for c in cs.iter_mut() { match c.recv() { Got::Response(ref r) if r.body == b"met" => { if ka { ensure!(r.header("connection").is_none(), "drift", "all of {} threads in use, none needed free, but the connection is closed, after {:?}", threads, log); } } o => { gate.open(); return bad("capacity", format!("{} handlers don't meet any more after {:?} (round {}): {:?}", threads, log, round, o)); } } }
        for c in cs { ensure!(c.finish(), "close", "not closed"); }
        cov.count("capacity checks");
        cov.nontrivial(&(threads, bystanders, &log));
    }
    cov.sample(|| format!("{} threads, keep-alive {}: {:?}", threads, ka, log));
    Ok(())
}

// ---- C32
fn host_case(rng: &mut Rng, cov: &mut Cov) -> CaseResult {
    let port = rng.next() as u16; let port2 = rng.next() as u16;
    let ip4 = Ipv4Addr::from(if rng.chance(1, 3) { *rng.pick(&[0u32, 0x7f000001, 0xffffffff, 0x0a000001]) } else { rng.next() as u32 });
    let ip6 = Ipv6Addr::from(if rng.chance(1, 3) { *rng.pick(&[0u128, 1, u128::MAX, 0xfe80 << 112, 0xffff_7f00_0001]) } else { ((rng.next() as u128) << 64) | rng.next() as u128 });
    let v4 = SocketAddrV4::new(ip4, port); let v6 = SocketAddrV6::new(ip6, port, if rng.chance(1, 2) { rng.next() as u32 } else { 0 }, if rng.chance(1, 2) { rng.next() as u32 } else { 0 });
    let any: SocketAddr = format!("0.0.0.0:{}", port).parse().unwrap();
    let check = |h: Host, want: SocketAddr, how: &str| -> CaseResult {
        let got: SocketAddr = h.into();
        ensure!(got == want, "address", "{}: {:?} want {:?}", how, got, want);
        ensure!(h == Host::from(want) && h.clone() == h, "equality", "{}: {:?}", how, h);
        let mut other = h; other.port(port2);
        let mut w = want; w.set_port(port2);
        let g: SocketAddr = other.into();
        ensure!(g == w, "port", "{} with another port: {:?} want {:?}", how, g, w);
        ensure!((other == h) == (port == port2), "equality", "{}: {:?} and {:?}", how, other, h);
        Ok(())
    };
    check(port.into(), any, "port")?;
    check(Host::any_v4(port), any, "any_v4")?;
    check(v4.into(), SocketAddr::V4(v4), "v4")?;
    check(v6.into(), SocketAddr::V6(v6), "v6")?;
    check(SocketAddr::V4(v4).into(), SocketAddr::V4(v4), "address")?;
    check(SocketAddr::V6(v6).into(), SocketAddr::V6(v6), "address")?;
    check((ip4, port).into(), SocketAddr::V4(v4), "pair")?;
    for _ in 0..3 {
        let mut s = match rng.below(6) { 0 => v4.to_string(), 1 => v6.to_string(), 2 => port.to_string(), 3 => format!("{}", ip4), 4 => format!("localhost:{}", port), _ => format!("[{}%{}]:{}", ip6, rng.below(100), port) };
        if rng.chance(1, 3) { let i = rng.below(s.len() + 1); let c = *rng.pick(&['1', ':', '.', '[', ' ', '0', 'f', '%', '-']); if s.is_char_boundary(i) { s.insert(i, c); } }
        let want: Result<SocketAddr, _> = s.parse();
        let got: Result<Host, _> = s.parse();
        match (got, want) { (Ok(g), Ok(w)) => { ensure!(SocketAddr::from(g) == w, "parse", "{:?}: {:?} want {:?}", s, g, w); cov.count("parsed"); } (Err(_), Err(_)) => cov.count("not addresses"), (g, w) => return bad("parse", format!("{:?}: {:?} want {:?}", s, g, w)) }
        cov.nontrivial(&s);
    }
    Ok(())
}
#[derive(Clone)]
struct Through { count: Arc<AtomicUsize>, refuse: bool }
#[derive(Clone)]
struct Wrapped(HttpStream, Arc<AtomicUsize>);
impl Read for Wrapped { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { let n = self.0.read(b)?; for x in &mut b[..n] { *x ^= 0x2a; } self.1.fetch_add(n, SeqCst); Ok(n) } }
impl Write for Wrapped { fn write(&mut self, b: &[u8]) -> io::Result<usize> { let v: Vec<u8> = b.iter().map(|x| x ^ 0x2a).collect(); self.0.write(&v) } fn flush(&mut self) -> io::Result<()> { self.0.flush() } }
impl NetworkStream for Wrapped {
    fn peer_addr(&mut self) -> io::Result<SocketAddr> { self.0.peer_addr() }
    fn set_read_timeout(&self, d: Option<Duration>) -> io::Result<()> { self.0.set_read_timeout(d) }
    fn set_write_timeout(&self, d: Option<Duration>) -> io::Result<()> { self.0.set_write_timeout(d) }
    fn close(&mut self, how: Shutdown) -> io::Result<()> { NetworkStream::close(&mut self.0, how) }
}
impl SslServer<HttpStream> for Through {
    type Stream = Wrapped;
    fn wrap_server(&self, s: HttpStream) -> Result<Wrapped, hyper::Error> { Ok(Wrapped(s, self.count.clone())) }
}
struct Where(Arc<Gate>, AtomicUsize);
impl Handler for Where {
    fn handle(&self, c: Context, r: Response) {
        if let Some(n) = c.query.get("meet").and_then(|n| n.parse().ok()) { let ok = self.0.meet(n); drop(c); return r.send(if ok { "met" } else { "alone" }); }
        let t = format!("{} {} {:?}", c.address.port(), c.address.ip(), c.global.get::<(u8, String)>());
        drop(c);
        r.send(t)
    }
}
fn listen_case(rng: &mut Rng, cov: &mut Cov) -> CaseResult {
    let gate = Arc::new(Gate::default());
    // more than there would be without being told, too
    let threads = if rng.chance(1, 4) { rng.range(num_cpus::get() * 5 / 4 + 1, num_cpus::get() * 5 / 4 + 40) } else { rng.range(1, 7) };
    let last = rng.range(1, 250) as u8;
    let v6 = rng.chance(1, 4) && std::net::TcpListener::bind("[::1]:0").is_ok();
    let ssl = rng.chance(1, 3);
    let default_threads = rng.chance(1, 8);
    let mut attempts = 0;
    let (listening, host) = loop {
        let ip: std::net::IpAddr = if v6 { Ipv6Addr::LOCALHOST.into() } else if rng.chance(1, 4) { Ipv4Addr::UNSPECIFIED.into() } else { Ipv4Addr::new(127, 0, 0, last).into() };
        // a port of its own or one that's free just now
        let port = if rng.chance(1, 2) { 0 } else { std::net::TcpListener::bind((ip, 0)).and_then(|l| l.local_addr()).map(|a| a.port()).unwrap_or(0) };
        let host: SocketAddr = (ip, port).into();
        let mut s = Server::new(Where(gate.clone(), AtomicUsize::new(0)));
        s.host = if ip == std::net::IpAddr::from(Ipv4Addr::UNSPECIFIED) && port > 0 { port.into() } else { let mut h: Host = SocketAddr::from((ip, rng.next() as u16)).into(); h.port(port); h };
        s.threads = if default_threads { None } else { Some(threads) };
        s.global = Global::from(Box::new((7u8, "global".to_string())) as Box<_>);
        let through = Through { count: Arc::new(AtomicUsize::new(0)), refuse: false };
        let l = if ssl { s.run_https(through) } else { s.run() };
        match l { Ok(l) => break (l, host), Err(e) => { attempts += 1; ensure!(attempts < 20, "run", "{}", e); } }
    };
    let socket = keep_running(listening);
    ensure!(socket.ip() == host.ip() && (socket.port() == host.port() || host.port() == 0) && socket.port() != 0, "address", "configured {} and listens on {}", host, socket);
    let conn = |e: io::Error| Violation { sig: "connect".into(), detail: e.to_string() };
    let mut to = socket;
    if socket.ip() == std::net::IpAddr::from(Ipv4Addr::UNSPECIFIED) { to.set_ip(Ipv4Addr::new(127, 0, 0, last).into()); }
    let code = |mut b: Vec<u8>| { if ssl { for x in &mut b { *x ^= 0x2a; } } b };
    let talk = |t: &str| -> Result<(String, SocketAddr), Violation> {
        let mut s = TcpStream::connect_timeout(&to, PATIENCE).map_err(conn)?;
        s.set_read_timeout(Some(PATIENCE)).map_err(conn)?;
        s.write_all(&code(request("GET", t.as_bytes(), &[("Host", b"h")], b""))).map_err(conn)?;
        let mut b = vec![]; s.read_to_end(&mut b).map_err(conn)?;
        let a = s.local_addr().map_err(conn)?;
        let b = code(b);
        let r = parse_response(&b, false).map_err(|e| Violation { sig: "answer".into(), detail: format!("{}: {}", e, show_short(&b)) })?.0;
        ensure!(r.status == 200 && r.complete, "answer", "{:?}", r);
        Ok((String::from_utf8_lossy(&r.body).into_owned(), a))
    };
    for _ in 0..3 { let (t, a) = talk("/x")?; let want = format!("{} {} {:?}", a.port(), a.ip(), Some((7u8, "global".to_string()))); ensure!(t == want, "answer", "the handler saw {:?}, want {:?} (secure {})", t, want, ssl); cov.count(if ssl { "secure answers" } else { "plain answers" }); }
    // nobody else answers, if it was told to listen on one address
    if !v6 && socket.ip() != std::net::IpAddr::from(Ipv4Addr::UNSPECIFIED) { let mut o = socket; o.set_ip(Ipv4Addr::new(127, 0, 1, last).into()); ensure!(TcpStream::connect_timeout(&o, Duration::from_secs(5)).is_err(), "address", "told to listen on {}, {} answers too", socket, o); cov.count("other addresses refused"); }
    {
        gate.shut();
        // the documented number, five for every four cores, if it isn't told
        let threads = if default_threads { num_cpus::get() * 5 / 4 } else { threads };
        let n = threads;
        let hs: Vec<_> = (0..n).map(|_| { let (m, c) = (format!("/m?meet={}", n), code(vec![])); let _ = c; let ssl = ssl; std::thread::spawn(move || -> io::Result<Vec<u8>> {
            let mut s = TcpStream::connect_timeout(&to, PATIENCE)?; s.set_read_timeout(Some(PATIENCE * 2))?;
            let mut r = request("GET", m.as_bytes(), &[("Host", b"h")], b""); if ssl { for x in &mut r { *x ^= 0x2a; } }
            s.write_all(&r)?; let mut b = vec![]; s.read_to_end(&mut b)?; if ssl { for x in &mut b { *x ^= 0x2a; } } Ok(b) }) }).collect();
        for h in hs { let b = h.join().unwrap().map_err(conn)?; ensure!(b.ends_with(b"met"), "threads", "{} handlers don't meet with {} threads: {}", n, threads, show_short(&b)); }
        // one more than there are threads has to wait
        gate.shut();
        let hs: Vec<_> = (0..n + 2).map(|_| { let ssl = ssl; std::thread::spawn(move || -> io::Result<()> { let mut s = TcpStream::connect_timeout(&to, PATIENCE)?; s.set_read_timeout(Some(PATIENCE * 2))?; let mut r = request("GET", b"/m?meet=1000", &[("Host", b"h")], b""); if ssl { for x in &mut r { *x ^= 0x2a; } } s.write_all(&r)?; let mut b = vec![]; s.read_to_end(&mut b)?; Ok(()) }) }).collect();
        let all = gate.wait_inside(n);
        std::thread::sleep(Duration::from_millis(30));
        let most = gate.state.lock().unwrap().1;
        gate.open();
        for h in hs { h.join().unwrap().map_err(conn)?; }
        ensure!(all && most == n, "threads", "{} handlers at once with {} threads (default {})", most, threads, default_threads);
        cov.count(if default_threads { "default thread counts" } else { "thread counts" });
    }
    cov.nontrivial(&(host, ssl, threads, socket.port()));
    cov.sample(|| format!("host {}, {} threads, secure {}", host, threads, ssl));
    Ok(())
}

/// C38: the same conversations again and again; what the process holds returns to what it was.
pub fn returning_case(rng: &mut Rng, cov: &mut Cov) -> CaseResult {
    let threads = rng.range(2, 5);
    let ka = match rng.below(3) { 0 => None, 1 => Some(KeepAlive { timeout: Duration::from_secs(60), free_threads: 0 }), _ => Some(KeepAlive { timeout: Duration::from_millis(30), free_threads: rng.below(3) }) };
    let ops: Vec<(u8, u8, u8, usize, usize)> = (0..rng.range(6, 24)).map(|_| (rng.below(11) as u8, if rng.chance(1, 4) { *rng.pick(&BOOMS) as u8 } else { 0 }, rng.below(4) as u8, rng.below(6), rng.range(1, 80))).collect();
    let (addr, _) = tcp_server(TcpBomb, threads, ka, true)?;
    let conn = |e: io::Error| Violation { sig: "connect".into(), detail: e.to_string() };
    let what = || format!("{} threads, conversations (kind, panic, Connection, behaviour, bytes) {:?}", threads, ops);
    let round = || -> Result<usize, Violation> {
        let mut idle = vec![];
        let mut n = 0;
        for &(kind, code, asks, how, cut) in &ops {
            let (req, _) = bomb_request(kind, code, asks);
            let mut c = Client::connect(addr).map_err(conn)?;
            match how {
                0 | 1 => { c.send(&req).ok(); c.recv(); c.finish(); }
                2 => { c.send(&req[..cut.min(req.len())]).ok(); }
                3 => { c.send(&req).ok(); }
                4 => { c.send(&[&req[..], &req[..]].concat()).ok(); c.recv(); c.finish(); }
                _ => { c.send(&req).ok(); c.recv(); if idle.len() + 1 < threads { idle.push(c); } }
            }
            n += 1;
        }
        Ok(n)
    };
    let settle = |base: Option<usize>| -> usize { let t = Instant::now(); let mut last = open_files(); loop { std::thread::sleep(Duration::from_millis(10)); let now = open_files(); if base.map_or(now == last, |b| now <= b) || t.elapsed() > PATIENCE * 2 { return now; } last = now; } };
    round()?;
    let base = settle(None);
    let mut live = vec![];
    COUNT_ALL.store(true, SeqCst);
    for k in 0..7 {
        let n = match round() { Ok(n) => n, Err(e) => { COUNT_ALL.store(false, SeqCst); return Err(e); } };
        let now = settle(Some(base));
        if now > base { COUNT_ALL.store(false, SeqCst); return bad("sockets", format!("{} files open after round {}, {} before, though all clients are gone\n{}", now, k, base, what())); }
        std::thread::sleep(Duration::from_millis(10));
        live.push(ALL_LIVE.load(SeqCst));
        cov.add("connections over TCP", n as u64);
        if k > 2 && live[k] <= live[k - 1] { break; }
    }
    COUNT_ALL.store(false, SeqCst);
    ensure!(live.len() < 7 || live[1..].windows(2).any(|w| w[1] <= w[0]), "memory", "memory grows with every round of the same conversations: {:?}\n{}", live, what());
    cov.nontrivial(&ops);
    cov.count("rounds that returned");
    Ok(())
}
/// A few cases over TCP, on fewer threads than cores so that the patience is never needed.
fn tcp_cases(r: &mut Run, name: &str, quick: u64, thorough: u64, f: impl Fn(&mut Rng, &mut Cov) -> CaseResult + Sync) {
    if LEFT_BEHIND.load(std::sync::atomic::Ordering::Relaxed) { return; }
    let t = r.threads; r.threads = (t / 2).max(1);
    r.cases(name, quick, thorough, f);
    r.threads = t;
}
pub fn run(r: &mut Run) {
    match &r.id.clone()[..] {
        "C26" => { r.cases("histories", 20_000, 2_000_000, history_case); tcp_cases(r, "concurrent counts", 40, 3000, count_case); tcp_cases(r, "tcp histories", 20, 800, tcp_history_case); tcp_cases(r, "idle", 3, 60, idle_case); tcp_cases(r, "hyper panics", 1, 1, hyper_panic_case); }
        "C27" => { let w = if r.quick() { 400 } else { 3_000 }; tcp_cases(r, "storms", 20, 500, |r, c| storm_case(r, c, w)); tcp_cases(r, "meetings", 10, 200, meet_case); }
        "C28" => { r.cases("panics", 6_000, 600_000, panic_case); tcp_cases(r, "tcp panics", 15, 800, tcp_panic_case); }
        "C32" => { r.cases("hosts", 20_000, 2_000_000, host_case); tcp_cases(r, "listening", 10, 800, listen_case); }
        _ => unreachable!(),
    }
}
