//! C18 files, C19 whole responses, C20 streams, C24 defaults, C25 higher level content.
use crate::core::*;
use crate::ensure;
use crate::wire::*;
use rustful::filter::*;
use rustful::header::{ContentLength, ContentType, Headers, HttpDate};
use rustful::response::{Data, FileError, SendResponse};
use rustful::server::{Global, KeepAlive};
use rustful::{ContentFactory, Context, CreateContent, DefaultRouter, Handler, Method, Response, Server, StatusCode};
use rustful::handler::HandleRequest;
use std::collections::BTreeMap;
use std::io::{self, BufWriter, Cursor, Read, Seek, SeekFrom, Write};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub const FIXED_DATE: &str = "Sun, 06 Nov 1994 08:49:37 GMT";

// ---- programs over the response interface
#[derive(Clone, Debug, Hash)]
pub struct Piece { pub kind: u8, pub data: Vec<u8> }
impl Piece {
    pub fn gen(rng: &mut Rng, max: usize) -> Piece {
        // a large limit asks for pieces beyond every buffer on the way
        let n = if max > 50_000 && rng.chance(1, if max > 500_000 { 6 } else { 3 }) { rng.range(9_000, max) } else { rng.size(max) };
        let kind = rng.below(4) as u8;
        let data = if kind < 2 { let k = rng.below(3); if k == 0 { rng.bytes(n) } else { let b = rng.byte(); (0..n).map(|i| b.wrapping_add((i * 7) as u8)).collect() } }
            else { let mut s = String::new(); let c = ['a', 'é', '\n', '0', '\r', '水', ' '][rng.below(7)]; while s.len() < n { s.push(if s.len() % 5 == 4 { 'b' } else { c }); } s.into_bytes() };
        Piece { kind, data }
    }
    pub fn data<'x>(&'x self) -> Data<'x> { match self.kind { 0 => self.data.clone().into(), 1 => self.data[..].into(), 2 => String::from_utf8(self.data.clone()).unwrap().into(), _ => std::str::from_utf8(&self.data).unwrap().into() } }
}
/// A data value handed over in the type the piece asks for.
macro_rules! give {
    ($p:expr, |$d:ident| $e:expr) => { match $p.kind { 0 => { let $d = $p.data.clone(); $e } 1 => { let $d = &$p.data[..]; $e } 2 => { let $d = String::from_utf8($p.data.clone()).unwrap(); $e } _ => { let $d = std::str::from_utf8(&$p.data).unwrap(); $e } } }
}
#[derive(Clone, Debug, Hash)]
pub enum Op { Send(Piece), Try(Piece), Write(Vec<u8>), WriteAll(Vec<u8>), Fmt(String, i64), Buf(usize, Vec<Vec<u8>>), Copy(Vec<u8>), Vectored(Vec<Vec<u8>>), Flush }
impl Op {
    pub fn gen(rng: &mut Rng, max: usize) -> Op {
        let bytes = |rng: &mut Rng, max: usize| Piece { kind: 0, ..Piece::gen(rng, max) }.data;
        match rng.below(12) {
            0 | 1 => Op::Send(Piece::gen(rng, max)),
            2 | 3 | 4 => Op::Try(Piece::gen(rng, max)),
            5 => Op::Write(bytes(rng, max)),
            6 => Op::WriteAll(bytes(rng, max)),
            7 => Op::Fmt(rng.pick(&["", "x", "hello", "é\r\n"]).to_string(), rng.next() as i64 >> rng.below(60)),
            8 => { let n = rng.below(6); Op::Buf(*rng.pick(&[1usize, 3, 16, 8192]), (0..n).map(|_| bytes(rng, max / 4)).collect()) }
            9 => Op::Copy(bytes(rng, max)),
            10 => { let n = rng.below(4); Op::Vectored((0..n).map(|_| bytes(rng, 40)).collect()) }
            _ => Op::Flush,
        }
    }
    pub fn bytes(&self) -> Vec<u8> { match self { Op::Send(p) | Op::Try(p) => p.data.clone(), Op::Write(b) | Op::WriteAll(b) | Op::Copy(b) => b.clone(), Op::Fmt(s, i) => format!("{}-{:?}:{:>5}|", s, s, i).into_bytes(), Op::Buf(_, v) | Op::Vectored(v) => v.concat(), Op::Flush => vec![] } }
}
/// what an operation told its caller: nothing checked, a length, or an error
#[derive(Clone, Debug, PartialEq)]
pub enum Told { Nothing, Len(usize), Err(String), Wrong(String), Logged(Vec<String>) }
pub trait Sink: Write { fn send_piece(&mut self, p: &Piece); fn try_piece(&mut self, p: &Piece) -> Told; }
impl<'a, 'b> Sink for rustful::response::Chunked<'a, 'b> {
    fn send_piece(&mut self, p: &Piece) { give!(p, |d| self.send(d)) }
    fn try_piece(&mut self, p: &Piece) -> Told { match give!(p, |d| self.try_send(d)) { Ok(n) => Told::Len(n), Err(e) => Told::Err(e.to_string()) } }
}
impl<'a> Sink for rustful::response::Raw<'a> {
    fn send_piece(&mut self, p: &Piece) { give!(p, |d| self.send(d)) }
    fn try_piece(&mut self, p: &Piece) -> Told { match give!(p, |d| self.try_send(d)) { Ok(()) => Told::Len(p.data.len()), Err(e) => Told::Err(e.to_string()) } }
}
fn told<T>(r: io::Result<T>, n: usize) -> Told { match r { Ok(_) => Told::Len(n), Err(e) => Told::Err(e.to_string()) } }
pub fn perform(w: &mut dyn Sink, op: &Op) -> Told {
    match op {
        Op::Send(p) => { w.send_piece(p); Told::Nothing }
        Op::Try(p) => w.try_piece(p),
        Op::Write(b) => {
            let mut at = 0;
            loop {
                match w.write(&b[at..]) {
                    Ok(0) if at < b.len() => return Told::Wrong(format!("write of {} bytes reports 0", b.len() - at)),
                    Ok(n) if n > b.len() - at => return Told::Wrong(format!("write of {} bytes reports {}", b.len() - at, n)),
                    Ok(n) => { at += n; if at == b.len() { return Told::Len(at); } }
                    Err(ref e) if e.kind() == io::ErrorKind::Interrupted => {}
                    Err(e) => return Told::Err(e.to_string()),
                }
            }
        }
        Op::WriteAll(b) => told(w.write_all(b), b.len()),
        Op::Fmt(s, i) => { let n = op.bytes().len(); told(write!(w, "{}-{:?}:{:>5}|", s, s, i), n) }
        Op::Buf(cap, v) => {
            let mut b = BufWriter::with_capacity(*cap, w);
            let mut n = 0;
            for p in v { if let Err(e) = b.write_all(p) { let _ = b.into_parts(); return Told::Err(e.to_string()); } n += p.len(); }
            match b.into_inner() { Ok(_) => Told::Len(n), Err(e) => { let s = e.to_string(); let _ = e.into_inner().into_parts(); Told::Err(s) } }
        }
        Op::Copy(b) => match io::copy(&mut &b[..], w) { Ok(n) => Told::Len(n as usize), Err(e) => Told::Err(e.to_string()) },
        Op::Vectored(v) => {
            // the default implementation takes the first piece that isn't empty
            let all = v.concat();
            let s: Vec<_> = v.iter().map(|b| io::IoSlice::new(b)).collect();
            match w.write_vectored(&s) {
                Ok(n) if n > all.len() => Told::Wrong(format!("vectored write of {} bytes reports {}", all.len(), n)),
                Ok(n) => told(w.write_all(&all[n..]), all.len()),
                Err(ref e) if e.kind() == io::ErrorKind::Interrupted => told(w.write_all(&all), all.len()),
                Err(e) => Told::Err(e.to_string()),
            }
        }
        Op::Flush => { let mut tries = 0; loop { match w.flush() { Err(ref e) if e.kind() == io::ErrorKind::Interrupted && tries < 100 => tries += 1, r => return told(r, 0) } } }
    }
}
#[derive(Clone, Debug, Hash)]
pub enum Pre { Status(u16), Set(String, Vec<u8>), Remove(String), Type(&'static str), BadLen(u64), BadLenRaw(Vec<u8>), Server(String), Store(u32) }
#[derive(Clone, Debug, Hash)]
pub enum Fin { Drop, Data(Piece, u8), Chunked(Vec<Op>, u8), Raw(Vec<Op>, u8) }
#[derive(Clone, Debug, Hash)]
pub struct Prog { pub pre: Vec<Pre>, pub moves: u8, pub fin: Fin }

pub fn gen_header(rng: &mut Rng) -> Pre {
    match rng.below(10) {
        0 | 1 => Pre::Status(*rng.pick(&[200u16, 201, 202, 203, 206, 301, 302, 400, 401, 403, 404, 405, 418, 429, 500, 501, 503])),
        2 | 3 => { let n = format!("{}{}", rng.pick(&["X-A", "x-b", "X-Long-Header-Name", "Location", "Cache-Control", "ETag"]), ""); let v = rng.pick(&["v", "some value", "a, b;q=1", "\"x\"", ""]).as_bytes().to_vec(); Pre::Set(n, if v.is_empty() { b"e".to_vec() } else { v }) }
        4 => Pre::Type(*rng.pick(&["text/plain", "application/json; charset=utf-8", "image/png"])),
        5 => Pre::BadLen(rng.below(1000) as u64),
        6 => Pre::BadLenRaw(rng.pick(&[&b"5"[..], b"0", b"99999", b"abc", b""]).to_vec()),
        7 => Pre::Server(rng.pick(&["other", "x/1.0 (y)"]).to_string()),
        8 => Pre::Remove(rng.pick(&["X-A", "x-a", "Content-Type", "Server", "x-b", "Location"]).to_string()),
        _ => Pre::Store(rng.next() as u32),
    }
}
pub fn gen_prog(rng: &mut Rng, streams: bool, v10: bool) -> Prog {
    let n = rng.below(5);
    let pre = (0..n).map(|_| gen_header(rng)).collect();
    // streams of many pieces or of very large ones
    let many = big() && rng.chance(1, 2);
    let max = if many { *rng.pick(&[3usize, 20, 600]) } else if big() { 3_000_000 } else if rng.chance(1, 40) { 120_000 } else { *rng.pick(&[20usize, 300, 300, 20_000]) };
    let k = if streams { rng.range(3, 9) } else { rng.below(10) };
    let fin = match k {
        0 => Fin::Drop,
        1 | 2 => Fin::Data(Piece::gen(rng, max), rng.below(4) as u8),
        3..=6 if !v10 => { let n = if many { rng.range(300, 10_000) } else { rng.below(8) }; Fin::Chunked((0..n).map(|_| Op::gen(rng, max)).collect(), rng.below(3) as u8) }
        7..=9 => { let n = if many { rng.range(300, 10_000) } else { rng.below(8) }; Fin::Raw((0..n).map(|_| Op::gen(rng, max)).collect(), rng.below(3) as u8) }
        _ => Fin::Data(Piece::gen(rng, max), rng.below(4) as u8),
    };
    Prog { pre, moves: rng.below(5) as u8, fin }
}
pub fn apply_pre(r: &mut Response, p: &Pre) {
    match p {
        Pre::Status(s) => r.set_status(StatusCode::from_u16(*s)),
        Pre::Set(n, v) => r.headers_mut().set_raw(n.clone(), vec![v.clone()]),
        Pre::Remove(n) => { r.headers_mut().remove_raw(n); }
        Pre::Type(t) => { r.headers_mut().set(ContentType(t.parse().unwrap())); }
        Pre::BadLen(n) => { r.headers_mut().set(ContentLength(*n)); }
        Pre::BadLenRaw(v) => r.headers_mut().set_raw("content-length", vec![v.clone()]),
        Pre::Server(s) => r.headers_mut().set(rustful::header::Server(s.clone())),
        Pre::Store(n) => { r.filter_storage_mut().insert(*n); }
    }
}
/// Runs the program; what the checked operations told, the end being last.
pub fn run_prog(mut r: Response, p: &Prog) -> Vec<Told> {
    let mut log = vec![];
    for x in &p.pre { apply_pre(&mut r, x); }
    // a response is a value like any other
    let r = match p.moves {
        0 => r,
        1 => *Box::new(r),
        2 => { let mut o = None; std::mem::swap(&mut o, &mut Some(r)); o.take().unwrap() }
        3 => { let mut v = vec![r]; v.reserve(100); v.pop().unwrap() }
        _ => { let f = move || r; f() }
    };
    match &p.fin {
        Fin::Drop => { let _keep = Box::new(r); }
        Fin::Data(d, how) => match how {
            0 => give!(d, |x| r.send(x)),
            1 => log.push(match give!(d, |x| r.try_send(x)) { Ok(()) => Told::Len(0), Err(e) => Told::Err(e.to_string()) }),
            2 => give!(d, |x| r.send_data(x)),
            _ => log.push(match give!(d, |x| r.try_send_data(x)) { Ok(()) => Told::Len(0), Err(e) => Told::Err(e.to_string()) }),
        },
        Fin::Chunked(ops, end) => {
            let mut w = Box::new(r.into_chunked());
            for o in ops { log.push(perform(&mut *w, o)); }
            match end { 0 => drop(w), 1 => { let o = Some(*w); drop(o); } _ => log.push(match w.end() { Ok(()) => Told::Len(0), Err(e) => Told::Err(e.to_string()) }) }
        }
        Fin::Raw(ops, end) => {
            let n: usize = ops.iter().map(|o| o.bytes().len()).sum();
            let mut w = Box::new(unsafe { r.into_raw(n as u64) });
            for o in ops { log.push(perform(&mut *w, o)); }
            match end { 0 => drop(w), 1 => { let o = Some(*w); drop(o); } _ => log.push(told(w.end(), 0)) }
        }
    }
    log
}
pub fn expected_log(p: &Prog) -> Vec<Told> {
    let ops = |ops: &Vec<Op>, end: u8| -> Vec<Told> {
        let mut v: Vec<Told> = ops.iter().map(|o| if let Op::Send(_) = o { Told::Nothing } else { Told::Len(o.bytes().len()) }).collect();
        if end == 2 { v.push(Told::Len(0)); }
        v
    };
    match &p.fin { Fin::Drop => vec![], Fin::Data(_, h) => if h % 2 == 1 { vec![Told::Len(0)] } else { vec![] }, Fin::Chunked(o, e) => ops(o, *e), Fin::Raw(o, e) => ops(o, *e) }
}
pub fn expected_body(p: &Prog) -> Vec<u8> { match &p.fin { Fin::Drop => vec![], Fin::Data(d, _) => d.data.clone(), Fin::Chunked(o, _) | Fin::Raw(o, _) => o.iter().flat_map(|o| o.bytes()).collect() } }
pub type HeaderMap = BTreeMap<String, Vec<u8>>;
pub fn model_headers(h: &mut HeaderMap, status: &mut u16, pre: &[Pre]) {
    for p in pre { match p {
        Pre::Status(s) => *status = *s,
        Pre::Set(n, v) => { h.insert(n.to_ascii_lowercase(), v.clone()); }
        Pre::Remove(n) => { h.remove(&n.to_ascii_lowercase()); }
        Pre::Type(t) => { h.insert("content-type".into(), t.as_bytes().to_vec()); }
        Pre::Server(s) => { h.insert("server".into(), s.as_bytes().to_vec()); }
        Pre::BadLen(_) | Pre::BadLenRaw(_) | Pre::Store(_) => {}
    } }
}
pub fn default_headers() -> HeaderMap {
    let mut h = HeaderMap::new();
    h.insert("content-type".into(), b"text/html; charset=utf-8".to_vec());
    h.insert("server".into(), b"rustful".to_vec());
    h
}
/// All headers of a response, each once; framing, date and connection headers taken out.
pub fn check_headers(w: &WireResponse, want: &HeaderMap, what: &str) -> CaseResult {
    let mut got = HeaderMap::new();
    for (n, v) in &w.headers {
        let n = n.to_ascii_lowercase();
        ensure!(!got.contains_key(&n), "duplicate header", "{}: header {} twice", what, n);
        got.insert(n, v.clone());
    }
    for n in &["date", "content-length", "transfer-encoding", "connection"] { if !want.contains_key(*n) { got.remove(*n); } }
    ensure!(&got == want, "headers", "{}: headers {:?}, want {:?}", what, got.iter().map(|(k, v)| (k, show(v))).collect::<Vec<_>>(), want.iter().map(|(k, v)| (k, show(v))).collect::<Vec<_>>());
    Ok(())
}
pub fn unix_now() -> i64 { std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as i64 }
/// The date of a response made since `since` is a time since then.
pub fn check_date(w: &WireResponse, since: i64, what: &str) -> CaseResult {
    let d = w.header("date").map(|d| show(d)).unwrap_or_default();
    let b = d.as_bytes();
    // Sun, 06 Nov 1994 08:49:37 GMT
    let ok = b.len() == 29 && &b[3..5] == b", " && &b[25..] == b" GMT" && b[7] == b' ' && b[11] == b' ' && b[16] == b' ' && b[19] == b':' && b[22] == b':' && ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"].contains(&&d[..3]);
    ensure!(ok, "date", "{}: Date {:?}", what, d);
    let num = |a: usize, z: usize| d[a..z].parse::<i64>().map_err(|_| Violation { sig: "date".into(), detail: format!("{}: Date {:?}", what, d) });
    let month = match ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"].iter().position(|m| *m == &d[8..11]) { Some(m) => m as i64 + 1, None => return bad("date", format!("{}: Date {:?}", what, d)) };
    let (y, day) = (num(12, 16)?, num(5, 7)?);
    // days since 1970-01-01 (civil calendar)
    let (yy, mm) = if month <= 2 { (y - 1, month + 9) } else { (y, month - 3) };
    let era = yy.div_euclid(400); let yoe = yy - era * 400; let doy = (153 * mm + 2) / 5 + day - 1; let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    let days = era * 146097 + doe - 719468;
    let t = days * 86400 + num(17, 19)? * 3600 + num(20, 22)? * 60 + num(23, 25)?;
    let now = unix_now();
    ensure!(since - 1 <= t && t <= now + 1, "date", "{}: Date {:?}, but the response is made between {} and {}, not at {}", what, d, since, now, t);
    let weekday = ["Thu", "Fri", "Sat", "Sun", "Mon", "Tue", "Wed"][days.rem_euclid(7) as usize];
    ensure!(weekday == &d[..3], "date", "{}: Date {:?}, which is a {}", what, d, weekday);
    Ok(())
}

struct Player { progs: Vec<Prog>, log: Arc<Mutex<Vec<(usize, Vec<Told>)>>>, date: bool }
impl Handler for Player {
    fn handle(&self, c: Context, mut r: Response) {
        let i: usize = c.query.get("p").and_then(|p| p.parse().ok()).unwrap();
        if self.date { r.headers_mut().set_raw("Date", vec![FIXED_DATE.as_bytes().to_vec()]); }
        drop(c);
        let t = run_prog(r, &self.progs[i]);
        self.log.lock().unwrap().push((i, t));
    }
}
fn check_response(w: &WireResponse, p: &Prog, what: &str) -> CaseResult {
    ensure!(w.complete, "incomplete", "{}: response ends early", what);
    let (mut h, mut st) = (default_headers(), 200);
    model_headers(&mut h, &mut st, &p.pre);
    ensure!(w.status == st, "status", "{}: status {} want {}", what, w.status, st);
    check_headers(w, &h, what)?;
    let body = expected_body(p);
    ensure!(w.body == body, "body", "{}: body of {} bytes {}, want {} bytes {}", what, w.body.len(), show_short(&w.body), body.len(), show_short(&body));
    match p.fin {
        Fin::Chunked(..) => ensure!(w.framing == Framing::Chunked, "framing", "{}: {:?}", what, w.framing),
        _ => ensure!(w.framing == Framing::Length(body.len() as u64), "length", "{}: {:?} want {}", what, w.framing, body.len()),
    }
    Ok(())
}
pub fn program_case(rng: &mut Rng, cov: &mut Cov, streams: bool) -> CaseResult {
    let since = unix_now();
    let n = rng.range(1, 4);
    let v10 = rng.chance(1, 15);
    let progs: Vec<Prog> = (0..n).map(|_| gen_prog(rng, streams, v10)).collect();
    let mut input = vec![];
    for i in 0..n { input.extend_from_slice(format!("{} /?p={} HTTP/1.{}\r\nHost: h\r\nX-A: request\r\n\r\n", rng.pick(&["GET", "POST", "PUT", "DELETE"]), i, if v10 { 0 } else { 1 }).as_bytes()); }
    let log = Arc::new(Mutex::new(vec![]));
    let mut server = Server::new(Player { progs: progs.clone(), log: log.clone(), date: false });
    server.keep_alive = crate::bodies::keep(0);
    let mut script = Script::new(input);
    script.short_write = if rng.chance(1, 3) { let most = if rng.chance(1, 3) { 70_000 } else { 2000 }; rng.range(if most > 2000 { 500 } else { 1 }, most) } else { 0 };
    script.write_interrupts = rng.chance(1, 4);
    let served = serve(&server.build(), script, true);
    if let End::HandlerPanic(p) | End::ParsePanic(p) = served.end { return bad("panic", format!("{}\n{:?}", p, progs.iter().map(brief).collect::<Vec<_>>())); }
    let n = if v10 { 1 } else { n };
    let rs = parse_all(&served.out, &[]).map_err(|e| Violation { sig: "malformed".into(), detail: format!("{}\n{:?}\nout {}", e, progs, show_short(&served.out)) })?;
    ensure!(rs.len() == n, "count", "{} responses to {} requests\n{:?}\nout {}", rs.len(), n, progs, show_short(&served.out));
    let log = log.lock().unwrap();
    for i in 0..n {
        let what = format!("response {} of {}", i, brief(&progs[i]));
        check_response(&rs[i], &progs[i], &what)?;
        check_date(&rs[i], since, &what)?;
        ensure!(log[i].0 == i && log[i].1 == expected_log(&progs[i]), "told", "{}: operations told {}, want {}", what, short(&log[i].1), short(&expected_log(&progs[i])));
        match &progs[i].fin { Fin::Drop => cov.count("dropped"), Fin::Data(..) => cov.count("sized"), Fin::Chunked(o, _) => { cov.count("chunked"); cov.add("stream operations", o.len() as u64); } Fin::Raw(o, _) => { cov.count("raw"); cov.add("stream operations", o.len() as u64); } }
        cov.add("body bytes", rs[i].body.len() as u64);
        cov.max("max body bytes", rs[i].body.len() as u64);
        if !progs[i].pre.is_empty() || rs[i].body.len() > 1 { cov.nontrivial(&progs[i]); }
    }
    cov.max("max operations on a stream", progs.iter().map(|p| if let Fin::Chunked(ref o, _) | Fin::Raw(ref o, _) = p.fin { o.len() as u64 } else { 0 }).max().unwrap_or(0));
    cov.sample(|| brief(&progs[0]));
    Ok(())
}
fn short<T: std::fmt::Debug>(v: &T) -> String { let s = format!("{:?}", v); if s.len() > 4000 { show_short(s.as_bytes()) } else { s } }
fn brief(p: &Prog) -> String { if !big() { return format!("{:?}", p); } match p.fin { Fin::Chunked(ref o, e) | Fin::Raw(ref o, e) => format!("{:?} {} of {} operations (end {}), lengths {}", p.pre, if let Fin::Raw(..) = p.fin { "raw" } else { "chunked" }, o.len(), e, short(&o.iter().map(|o| o.bytes().len()).collect::<Vec<_>>())), ref f => format!("{:?} {}", p.pre, short(f)) } }
/// The peer stops taking data at some point.
pub fn fault_case(rng: &mut Rng, cov: &mut Cov) -> CaseResult {
    let streams = rng.chance(3, 4);
    let mut prog = gen_prog(rng, streams, false);
    if rng.chance(1, 6) { prog.pre.push(Pre::Set("X-Big".into(), vec![b'x'; rng.range(8000, 12_000)])); }
    let req = b"GET /?p=0 HTTP/1.1\r\nHost: h\r\n\r\n".to_vec();
    let run = |script: Script| { let log = Arc::new(Mutex::new(vec![])); let s = Server::new(Player { progs: vec![prog.clone()], log: log.clone(), date: true }).build(); let served = serve(&s, script, false); let l = log.lock().unwrap().clone(); (served, l) };
    let (good, _) = run(Script::new(req.clone()));
    let full = good.out;
    let mut script = Script::new(req);
    let at = if rng.chance(1, 3) { rng.below(full.len()) } else { full.len() - 1 - rng.below(full.len().min(9000)) };
    script.write_fail_at = Some(at);
    script.short_write = if rng.chance(1, 3) { rng.range(1, 500) } else { 0 };
    let (served, log) = run(script);
    let what = format!("peer gone after {} of {} bytes, {}", at, full.len(), brief(&prog));
    if let End::HandlerPanic(p) | End::ParsePanic(p) = served.end { return bad("panic", format!("{}\n{}", p, what)); }
    ensure!(full.starts_with(&served.out), "prefix", "{}\nsent {}\nwant a prefix of {}", what, show_short(&served.out), show_short(&full));
    ensure!(log.len() == 1, "count", "{}: handler ran {} times", what, log.len());
    let log = &log[0].1;
    for t in log { if let Told::Wrong(w) = t { return bad("told", format!("{}: {}", what, w)); } }
    // what was claimed to be delivered must have been
    let explicit_end = match prog.fin { Fin::Data(_, h) => h % 2 == 1, Fin::Chunked(_, e) | Fin::Raw(_, e) => e == 2, Fin::Drop => false };
    if explicit_end { ensure!(if let Some(Told::Err(_)) = log.last() { true } else { false }, "unreported", "{}: only {} bytes went out, the end told {:?}", what, served.out.len(), log); }
    // an operation fails, or tells what it always tells; and what isn't out yet waits in a buffer of 8 kB
    let mut claimed = 0;
    for (t, w) in log.iter().zip(expected_log(&prog)) {
        if let Told::Err(_) = t { break; }
        ensure!(*t == w, "told", "{}: an operation told {}, want {} or an error", what, short(t), short(&w));
        if let Told::Len(n) = t { claimed += n; }
    }
    ensure!(claimed <= served.out.len() + 20_000, "unreported", "{}: {} bytes reported as written, {} are out", what, claimed, served.out.len());
    for (t, w) in log.iter().zip(expected_log(&prog)) { if let Told::Len(_) = t { ensure!(*t == w, "told", "{}: an operation after a failure told {}, want {} or an error", what, short(t), short(&w)); } }
    // a flush that succeeded means that what came before is out
    if let Fin::Chunked(ref ops, _) | Fin::Raw(ref ops, _) = prog.fin {
        let mut sent = 0;
        for (o, t) in ops.iter().zip(log) {
            sent += o.bytes().len();
            if let (Op::Flush, Told::Len(_)) = (o, t) { let body = parse_response(&served.out, false).map(|r| r.0.body.len()).unwrap_or(0); ensure!(body >= sent, "unreported", "{}: flushed {} bytes, {} are out\n{:?}", what, sent, body, log); }
        }
        let first = log.iter().position(|t| if let Told::Err(_) = t { true } else { false });
        if let Some(f) = first { if f + 1 < log.len() { cov.add("operations after a failure", (log.len() - f - 1) as u64); } }
    }
    cov.count(if log.iter().any(|t| if let Told::Err(_) = t { true } else { false }) { "failures reported" } else { "failures nobody asked for" });
    cov.nontrivial(&(at, &prog));
    Ok(())
}

// ---- C24
struct Over { ops: Vec<Pre>, fin: u8 }
impl Handler for Over {
    fn handle(&self, _: Context, mut r: Response) {
        for p in &self.ops { apply_pre(&mut r, p); }
        match self.fin { 0 => drop(r), 1 => r.send("body"), 2 => { let mut w = r.into_chunked(); w.send("body"); } 3 => { let mut w = unsafe { r.into_raw(4) }; w.send("body"); } _ => { r.try_send(Some("body")).ok(); } }
    }
}
struct Refuse(Option<StatusCode>);
impl ContextFilter for Refuse { fn modify(&self, _: FilterContext, c: &mut Context) -> ContextAction { match (self.0, c.headers.get_raw("x-refuse").is_some()) { (Some(s), true) => ContextAction::Abort(s), _ => ContextAction::Next } } }
struct Begin(Vec<Pre>);
impl ResponseFilter for Begin {
    fn begin(&self, _: FilterContext, mut s: StatusCode, h: &mut Headers) -> (StatusCode, ResponseAction<'_>) {
        for p in &self.0 { match p {
            Pre::Status(x) => s = StatusCode::from_u16(*x),
            Pre::Set(n, v) => h.set_raw(n.clone(), vec![v.clone()]),
            Pre::Remove(n) => { h.remove_raw(n); }
            Pre::Type(t) => { h.set(ContentType(t.parse().unwrap())); }
            Pre::Server(s) => h.set(rustful::header::Server(s.clone())),
            Pre::BadLen(n) => h.set(ContentLength(*n)),
            Pre::BadLenRaw(v) => h.set_raw("content-length", vec![v.clone()]),
            Pre::Store(_) => {}
        } }
        (s, ResponseAction::Next(None))
    }
    fn write<'a>(&'a self, _: FilterContext, d: Option<Data<'a>>) -> ResponseAction<'a> { ResponseAction::Next(d) }
    fn end(&self, _: FilterContext) -> ResponseAction<'_> { ResponseAction::Next(None) }
}
fn defaults_case(rng: &mut Rng, cov: &mut Cov) -> CaseResult {
    let since = unix_now();
    let date = |rng: &mut Rng, mut v: Vec<Pre>| { if rng.chance(1, 5) { v.push(Pre::Set(rng.pick(&["Date", "date", "DATE"]).to_string(), FIXED_DATE.as_bytes().to_vec())); } if rng.chance(1, 6) { v.push(Pre::Set(rng.pick(&["server", "SERVER", "Content-type"]).to_string(), b"x/y".to_vec())); } v };
    let k = rng.below(4); let ops: Vec<Pre> = (0..k).map(|_| gen_header(rng)).collect(); let ops = date(rng, ops);
    let k = rng.below(3); let fops: Vec<Pre> = if rng.chance(1, 2) { (0..k).map(|_| gen_header(rng)).collect() } else { vec![] }; let fops = if fops.is_empty() { fops } else { date(rng, fops) };
    let fin = rng.below(5) as u8;
    let mut router = DefaultRouter::<Over>::new();
    router.build().path("h").then().on_get(Over { ops: ops.clone(), fin });
    router.build().path("other").then().on_post(Over { ops: vec![], fin: 0 });
    let mut server = Server::new(router);
    let (name, ctype) = (if rng.chance(3, 4) { Some((0..rng.range(1, 30)).map(|i| if i % 7 == 3 { ' ' } else { rng.range(33, 126) as u8 as char }).collect::<String>().trim().to_string()) } else { None }, if rng.chance(3, 4) { Some(*rng.pick(&["text/plain", "text/css; charset=utf-8", "application/octet-stream", "application/x-thing; a=b"])) } else { None });
    if let Some(ref n) = name { server.server = n.clone(); }
    if let Some(t) = ctype { server.content_type = t.parse().unwrap(); }
    let abort = *rng.pick(&[401u16, 403, 500]);
    server.context_filters.push(Box::new(Refuse(Some(StatusCode::from_u16(abort)))));
    let filtered = rng.chance(1, 2);
    if filtered { server.response_filters.push(Box::new(Begin(fops.clone()))); }
    let ka = rng.chance(1, 2);
    if ka { server.keep_alive = crate::bodies::keep(0); }
    let kinds: Vec<usize> = (0..rng.range(1, 5)).map(|_| rng.below(6)).collect();
    let mut input = vec![];
    for k in &kinds { match k {
        0 | 5 => input.extend(request("GET", b"/h", &[("Host", b"h")], b"")),
        1 => input.extend(request("GET", b"/nothing", &[("Host", b"h")], b"")),
        2 => input.extend(request("GET", b"/other", &[("Host", b"h")], b"")),
        3 => input.extend(request("GET", b"/h", &[("Host", b"h"), ("X-Refuse", b"1")], b"")),
        _ => input.extend(request("CONNECT", b"h:80", &[("Host", b"h")], b"")),
    } }
    let served = serve(&server.build(), Script::new(input), ka);
    let what = format!("server {:?}, type {:?}, ops {:?}, finish {}, filter {:?}, requests {:?}", name, ctype, ops, fin, if filtered { Some(&fops) } else { None }, kinds);
    if let End::HandlerPanic(p) | End::ParsePanic(p) = served.end { return bad("panic", format!("{}\n{}", p, what)); }
    let rs = parse_all(&served.out, &[]).map_err(|e| Violation { sig: "malformed".into(), detail: format!("{}\n{}\nout {}", e, what, show_short(&served.out)) })?;
    ensure!(rs.len() == if ka { kinds.len() } else { 1 }, "count", "{} responses\n{}\n{}", rs.len(), what, show_short(&served.out));
    for (r, k) in rs.iter().zip(&kinds) {
        let mut h = HeaderMap::new();
        h.insert("server".into(), name.clone().unwrap_or("rustful".into()).into_bytes());
        h.insert("content-type".into(), ctype.unwrap_or("text/html; charset=utf-8").as_bytes().to_vec());
        let mut st = match k { 0 | 5 => 200, 1 => 404, 2 => 405, 3 => abort, _ => 400 };
        let handler = *k == 0 || *k == 5;
        if *k == 2 { h.insert("allow".into(), vec![]); }
        if handler { model_headers(&mut h, &mut st, &ops); }
        if filtered && !(handler && fin == 3) { model_headers(&mut h, &mut st, &fops); }
        // the router may say which methods there are
        if *k == 2 { match r.header("allow") { Some(a) => { h.insert("allow".into(), a.to_vec()); } None => { h.remove("allow"); } } }
        if let Some(a) = ctype { if h.get("content-type").map(|t| &t[..]) == Some(a.as_bytes()) { h.insert("content-type".into(), r.header("content-type").filter(|t| t.to_ascii_lowercase() == a.as_bytes()).map(|t| t.to_vec()).unwrap_or(a.as_bytes().to_vec())); } }
        ensure!(r.complete && r.status == st, "status", "request kind {}: {:?} want {}\n{}", k, r, st, what);
        let w = format!("request kind {}: {}", k, what);
        check_headers(r, &h, &w)?;
        if !h.contains_key("date") { check_date(r, since, &w)?; }
        if handler { let want: &[u8] = if fin == 0 { b"" } else { b"body" }; ensure!(r.body == want, "body", "{}: body {}", w, show(&r.body)); }
        cov.count(["handler", "not found", "wrong method", "context filter abort", "bad target", "handler"][*k]);
    }
    cov.nontrivial(&(name, ctype, ops, fin, fops, kinds, ka));
    cov.sample(|| what.clone());
    Ok(())
}
#[derive(Default)]
struct Plain;
impl Handler for Plain { fn handle(&self, _: Context, r: Response) { r.send("x") } }
/// The same server and thread, asked now and then.
fn clock_case(rng: &mut Rng, cov: &mut Cov) -> CaseResult {
    let inst = Server::new(Plain).build();
    let ka = rng.chance(1, 2);
    for i in 0..3 {
        let since = unix_now();
        let served = serve(&inst, Script::new(b"GET / HTTP/1.1\r\nHost: h\r\n\r\n".to_vec()), ka);
        let rs = parse_all(&served.out, &[]).map_err(|e| Violation { sig: "malformed".into(), detail: e })?;
        ensure!(rs.len() == 1, "answer", "{:?}", rs);
        check_date(&rs[0], since, &format!("answer {} of a server", i))?;
        cov.nontrivial(&(ka, rs[0].header("date").map(|d| d.to_vec())));
        cov.count("answers apart in time");
        if i < 2 { std::thread::sleep(std::time::Duration::from_millis(rng.range(2000, 4000) as u64)); }
    }
    Ok(())
}
fn unset_case(rng: &mut Rng, cov: &mut Cov) -> CaseResult {
    let since = unix_now();
    let s = if rng.chance(1, 2) { Server::new(Plain) } else { Server::<Plain>::default() };
    ensure!(s.host == 80.into() && std::net::SocketAddr::from(s.host) == "0.0.0.0:80".parse().unwrap(), "host", "{:?}", s.host);
    ensure!(s.threads.is_none() && s.keep_alive.is_none() && s.server == "rustful" && s.content_type.to_string().to_ascii_lowercase() == "text/html; charset=utf-8", "defaults", "{:?} {:?} {:?}", s.threads, s.server, s.content_type.to_string());
    ensure!(s.context_filters.is_empty() && s.response_filters.is_empty(), "defaults", "filters");
    let served = serve(&s.build(), Script::new(b"GET / HTTP/1.1\r\nHost: h\r\n\r\nGET / HTTP/1.1\r\nHost: h\r\n\r\n".to_vec()), false);
    let rs = parse_all(&served.out, &[]).map_err(|e| Violation { sig: "malformed".into(), detail: e })?;
    ensure!(rs.len() == 1 && rs[0].status == 200 && rs[0].body == b"x", "answer", "{:?}", rs);
    check_headers(&rs[0], &default_headers(), "unset options")?;
    check_date(&rs[0], since, "unset options")?;
    ensure!(rs[0].header("connection") == Some(b"close"), "connection", "{:?}", rs[0]);
    cov.count("unset options");
    Ok(())
}

// ---- C25
/// What a value does to a response, written down independently.
trait Model { fn model(&self, status: &mut u16) -> Vec<u8>; }
impl Model for &'static str { fn model(&self, _: &mut u16) -> Vec<u8> { self.as_bytes().to_vec() } }
impl Model for String { fn model(&self, _: &mut u16) -> Vec<u8> { self.as_bytes().to_vec() } }
impl Model for Vec<u8> { fn model(&self, _: &mut u16) -> Vec<u8> { self.clone() } }
impl Model for &'static [u8] { fn model(&self, _: &mut u16) -> Vec<u8> { self.to_vec() } }
impl Model for io::Error { fn model(&self, s: &mut u16) -> Vec<u8> { if self.kind() == io::ErrorKind::NotFound { *s = 404 } self.to_string().into_bytes() } }
impl<T: Model> Model for Option<T> { fn model(&self, s: &mut u16) -> Vec<u8> { match self { Some(t) => t.model(s), None => { *s = 404; vec![] } } } }
impl<T: Model, U: Model> Model for Result<T, U> { fn model(&self, s: &mut u16) -> Vec<u8> { match self { Ok(t) => { *s = 200; t.model(s) } Err(e) => { *s = 500; e.model(s) } } } }
trait Gen { fn gen(rng: &mut Rng) -> Self; }
impl Gen for &'static str { fn gen(rng: &mut Rng) -> Self { *rng.pick(&["", "a", "text with é", "\r\n"]) } }
impl Gen for String { fn gen(rng: &mut Rng) -> Self { let n = rng.size(3000); "xyé".chars().cycle().take(n).collect() } }
impl Gen for Vec<u8> { fn gen(rng: &mut Rng) -> Self { let n = rng.size(3000); rng.bytes(n) } }
impl Gen for &'static [u8] { fn gen(rng: &mut Rng) -> Self { *rng.pick(&[&b""[..], b"\xff\x00", b"bytes"]) } }
impl Gen for io::Error { fn gen(rng: &mut Rng) -> Self {
    use io::ErrorKind::*;
    let kinds = [NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable, BrokenPipe, AlreadyExists, WouldBlock, InvalidInput, InvalidData, TimedOut, WriteZero, Interrupted, Other, UnexpectedEof, Unsupported, OutOfMemory];
    match rng.below(4) { 0 => io::Error::from_raw_os_error(*rng.pick(&[2, 13, 21, 20, 40, 36, 4, 28])), 1 => io::Error::from(*rng.pick(&kinds)), 2 => io::Error::new(NotFound, "gone"), _ => io::Error::new(*rng.pick(&kinds), "some text") }
} }
impl<T: Gen> Gen for Option<T> { fn gen(rng: &mut Rng) -> Self { if rng.chance(2, 3) { Some(T::gen(rng)) } else { None } } }
impl<T: Gen, U: Gen> Gen for Result<T, U> { fn gen(rng: &mut Rng) -> Self { if rng.chance(1, 2) { Ok(T::gen(rng)) } else { Err(U::gen(rng)) } } }

struct Once<T> { value: Mutex<Option<T>>, pre: Vec<Pre>, how: u8, err: Mutex<Option<String>> }
struct Via<T>(Arc<Once<T>>);
macro_rules! content_types {
    ($($i:expr => $t:ty),+ $(,)?) => {
        fn content_case(rng: &mut Rng, cov: &mut Cov) -> CaseResult {
            let n = [$($i),+].len();
            match rng.below(n) { $($i => { one_content::<$t>(rng, cov, stringify!($t)) })+ _ => unreachable!() }
        }
        $(impl SendIt for $t {
            fn send_it(self, r: Response, how: u8) -> Option<String> { match how { 0 => { r.send(self); None } _ => r.try_send(self).err().map(|e| format!("{:?}", e)) } }
            fn serve_factory(once: Arc<Once<$t>>, filtered: bool) -> Served {
                // made by a function or by an implementation of the trait
                if once.how % 2 == 0 { serve_content(ContentFactory(Via(once)), filtered) } else { serve_content(ContentFactory(move |_: Context| -> $t { once.value.lock().unwrap().take().unwrap() }), filtered) }
            }
        })+
        $(impl CreateContent for Via<$t> { type Output = $t; fn create_content(&self, _: Context) -> $t { self.0.value.lock().unwrap().take().unwrap() } })+
    }
}
trait SendIt: Sized { fn send_it(self, r: Response, how: u8) -> Option<String>; fn serve_factory(once: Arc<Once<Self>>, filtered: bool) -> Served; }
fn serve_content<R: HandleRequest>(handler: R, filtered: bool) -> Served {
    let mut server = Server::new(handler);
    if filtered { server.response_filters.push(Box::new(Begin(vec![Pre::Set("X-F".into(), b"1".to_vec())]))); }
    serve(&server.build(), Script::new(request("GET", b"/", &[("Host", b"h")], b"")), false)
}
type Io = io::Error;
content_types! {
    0 => &'static str, 1 => String, 2 => Vec<u8>, 3 => &'static [u8], 4 => Io,
    5 => Option<String>, 6 => Option<Vec<u8>>, 7 => Option<Io>, 8 => Result<String, Io>, 9 => Result<&'static str, &'static str>, 10 => Result<Vec<u8>, String>, 11 => Result<Io, Io>,
    12 => Option<Option<&'static str>>, 13 => Option<Result<String, Io>>, 14 => Result<Option<String>, Io>, 15 => Result<Option<&'static str>, Option<String>>, 16 => Result<String, Option<Io>>,
    17 => Result<Result<String, Io>, String>, 18 => Result<Result<String, Io>, Io>, 19 => Result<String, Result<String, Io>>, 20 => Option<Option<Option<Vec<u8>>>>, 21 => Result<Result<Option<String>, Io>, Result<&'static str, Option<Io>>>,
    22 => Option<Result<Option<Result<String, Io>>, Io>>, 23 => Result<Option<Option<Io>>, &'static [u8]>,
}
struct Direct<T>(Arc<Once<T>>);
impl<T: SendIt + Send + 'static> Handler for Direct<T> {
    fn handle(&self, _: Context, mut r: Response) {
        for p in &self.0.pre { apply_pre(&mut r, p); }
        let v = self.0.value.lock().unwrap().take().unwrap();
        *self.0.err.lock().unwrap() = v.send_it(r, self.0.how);
    }
}
fn one_content<T: Gen + Model + SendIt + Send + 'static>(rng: &mut Rng, cov: &mut Cov, name: &str) -> CaseResult {
    let v = T::gen(rng);
    let factory = rng.chance(1, 2);
    let pre: Vec<Pre> = if factory { vec![] } else { (0..rng.below(3)).map(|_| gen_header(rng)).collect() };
    let (mut h, mut st) = (default_headers(), 200);
    model_headers(&mut h, &mut st, &pre);
    let before = st;
    let body = v.model(&mut st);
    let how = rng.below(2) as u8;
    let once = Arc::new(Once { value: Mutex::new(Some(v)), pre: pre.clone(), how, err: Mutex::new(None) });
    let filtered = rng.chance(1, 4);
    if filtered { h.insert("x-f".into(), b"1".to_vec()); }
    let served = if factory { T::serve_factory(once.clone(), filtered) } else { serve_content(Direct(once.clone()), filtered) };
    let what = format!("{} {} preset {:?}, expected {} {}", name, if factory { "from a factory" } else { "sent" }, pre, st, show_short(&body));
    if let End::HandlerPanic(p) | End::ParsePanic(p) = served.end { return bad("panic", format!("{}\n{}", p, what)); }
    let rs = parse_all(&served.out, &[]).map_err(|e| Violation { sig: "malformed".into(), detail: format!("{}\n{}", e, what) })?;
    ensure!(rs.len() == 1 && rs[0].complete, "count", "{}: {:?}", what, rs);
    ensure!(rs[0].status == st, "status", "{}: status {}", what, rs[0].status);
    ensure!(rs[0].body == body && rs[0].framing == Framing::Length(body.len() as u64), "body", "{}: {:?} {}", what, rs[0].framing, show_short(&rs[0].body));
    check_headers(&rs[0], &h, &what)?;
    let err = once.err.lock().unwrap().clone();
    ensure!(err.is_none(), "error", "{}: {:?}", what, err);
    cov.count(name);
    if st != before { cov.count("status changed"); }
    cov.nontrivial(&(name, st, &body, pre.len(), factory));
    cov.sample(|| what.clone());
    Ok(())
}

/// Values of the user's own with errors of their own: `send` handles the error once, `try_send` hands it out.
#[derive(Clone, Debug, Hash)]
struct Own { id: u32, kind: u8 }
struct OwnError<'a, 'b>(u32, Option<Response<'a, 'b>>);
thread_local!(static HANDLED: std::cell::RefCell<(Vec<u32>, Vec<u32>)> = Default::default());
impl<'a, 'b> rustful::response::ResponseError for OwnError<'a, 'b> {
    fn handle(self) {
        HANDLED.with(|h| h.borrow_mut().0.push(self.0));
        if let Some(mut r) = self.1 { r.set_status(StatusCode::ServiceUnavailable); r.send(format!("handled {}", self.0)); }
    }
}
impl<'a, 'b> rustful::response::SendResponse<'a, 'b> for Own {
    type Error = OwnError<'a, 'b>;
    fn send_response(self, mut r: Response<'a, 'b>) -> Result<(), OwnError<'a, 'b>> {
        HANDLED.with(|h| h.borrow_mut().1.push(self.id));
        match self.kind {
            0 => { r.send(format!("own {}", self.id)); Ok(()) }
            1 => { r.headers_mut().set_raw("X-Own", vec![self.id.to_string().into_bytes()]); r.send("with a header"); Ok(()) }
            2 => Err(OwnError(self.id, Some(r))),
            _ => { r.set_status(StatusCode::BadGateway); Err(OwnError(self.id, None)) }
        }
    }
}
fn own_case(rng: &mut Rng, cov: &mut Cov) -> CaseResult {
    let v = Own { id: rng.below(1000) as u32, kind: rng.below(4) as u8 };
    let (form, how, factory) = (rng.below(7), rng.below(2), rng.chance(1, 3));
    let preset = if factory { 200 } else { *rng.pick(&[200u16, 201, 404, 418]) };
    let mut st = preset;
    // how the value is wrapped up: the status it gets to see
    match form { 1 | 3 | 5 => st = 200, 2 | 6 => st = 500, _ => {} }
    let wrapped = move |v: Own, r: Response, how: usize| -> Option<(u32, bool)> {
        macro_rules! go { ($x: expr) => { if how == 0 { r.send($x); None } else { r.try_send($x).err().map(|e| (e.0, e.1.map(|r| { let s = r.status(); r.send(format!("after {}", s.to_u16())); }).is_some())) } } }
        match form { 0 => go!(v), 1 => go!(Ok::<Own, Own>(v)), 2 => go!(Err::<Own, Own>(v)), 3 => go!(Some(Ok::<Own, Own>(v))), 4 => go!(Some(Some(v))), 5 => go!(Ok::<Option<Own>, Own>(Some(v))), _ => go!(Err::<Own, Result<Own, Own>>(Err(v))) }
    };
    let got = Arc::new(Mutex::new(None));
    HANDLED.with(|h| *h.borrow_mut() = Default::default());
    let how = if factory { 0 } else { how };
    let served = if factory {
        let w = v.clone();
        match form {
            0 | 4 => serve_content(ContentFactory(move |_: Context| w.clone()), false),
            1 | 5 => serve_content(ContentFactory(move |_: Context| Ok::<Own, Own>(w.clone())), false),
            2 => serve_content(ContentFactory(move |_: Context| Err::<Own, Own>(w.clone())), false),
            3 => serve_content(ContentFactory(move |_: Context| Some(Ok::<Own, Own>(w.clone()))), false),
            _ => serve_content(ContentFactory(move |_: Context| Err::<Own, Result<Own, Own>>(Err(w.clone()))), false),
        }
    } else {
        struct Cell(Own, u16, usize, Arc<Mutex<Option<(u32, bool)>>>, Box<dyn Fn(Own, Response, usize) -> Option<(u32, bool)> + Send + Sync>);
        impl Handler for Cell { fn handle(&self, _: Context, mut r: Response) { r.set_status(StatusCode::from_u16(self.1)); let e = (self.4)(self.0.clone(), r, self.2); *self.3.lock().unwrap() = e; } }
        serve_content(Cell(v.clone(), preset, how, got.clone(), Box::new(wrapped)), false)
    };
    let what = format!("{:?} in form {} {} with status {}", v, form, if factory { "from a factory" } else if how == 0 { "sent" } else { "tried" }, preset);
    if let End::HandlerPanic(p) | End::ParsePanic(p) = served.end { return bad("panic", format!("{}\n{}", p, what)); }
    let rs = parse_all(&served.out, &[]).map_err(|e| Violation { sig: "malformed".into(), detail: format!("{}\n{}", e, what) })?;
    ensure!(rs.len() == 1 && rs[0].complete, "count", "{}: {:?}", what, rs);
    let (handled, asked) = HANDLED.with(|h| h.borrow().clone());
    ensure!(asked == vec![v.id], "asked", "{}: sent as {:?}", what, asked);
    let fails = v.kind >= 2;
    ensure!(handled == if fails && how == 0 { vec![v.id] } else { vec![] }, "handled", "{}: errors handled {:?}", what, handled);
    let e = got.lock().unwrap().clone();
    ensure!(e == if fails && how == 1 { Some((v.id, v.kind == 2)) } else { None }, "error", "{}: got the error {:?}", what, e);
    let (want_st, want) = match (v.kind, how) {
        (0, _) => (st, format!("own {}", v.id)), (1, _) => (st, "with a header".into()),
        (2, 0) => (503, format!("handled {}", v.id)), (2, _) => (st, format!("after {}", st)), _ => (502, String::new()) };
    ensure!(rs[0].status == want_st && rs[0].body == want.as_bytes(), "own", "{}: {} {:?}, expected {} {:?}", what, rs[0].status, show(&rs[0].body), want_st, want);
    cov.count(if !fails { "own values" } else if how == 0 { "own errors handled" } else { "own errors handed out" });
    cov.nontrivial(&(&v, form, how, factory, preset));
    Ok(())
}

// ---- C18
extern "C" { fn setfsuid(uid: u32) -> i32; }
/// Runs `f` with the file rights of an unprivileged user (of this thread only).
fn unprivileged<T, F: FnOnce() -> T>(f: F) -> T { unsafe { setfsuid(65534); } let r = f(); unsafe { setfsuid(0); } r }
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Scratch {
        use std::sync::atomic::{AtomicUsize, Ordering};
        static N: AtomicUsize = AtomicUsize::new(0);
        let p = std::env::temp_dir().join(format!("mon-{}-{}-{}", tag, std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p)
    }
}
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
#[derive(Clone, Debug)]
enum FileKind { Regular, Missing, Dir, NotDir, Loop, Long, Nul, Forbidden, Link, Empty }
#[derive(Clone, Debug)]
enum After { Handle, Recover(Prog), NotFoundMsg(Piece), Ignore(Prog), Forget }
#[derive(Clone, Debug)]
struct FileJob { path: PathBuf, how: u8, seek: u64, mime: Option<&'static str>, pre: Vec<Pre>, after: After, limited: bool }
struct Filer { job: FileJob, log: Arc<Mutex<Vec<String>>> }
impl Handler for Filer {
    fn handle(&self, _: Context, mut r: Response) {
        let j = &self.job;
        let say = |s: String| self.log.lock().unwrap().push(s);
        r.headers_mut().set_raw("Date", vec![FIXED_DATE.as_bytes().to_vec()]);
        for p in &j.pre { apply_pre(&mut r, p); }
        let send = |r| -> Result<(), FileError> { match j.how {
            0 => r_try(r, &*j.path),
            1 => Response::try_send(r, j.path.clone()),
            2 => Response::try_send(r, Some(j.path.clone())),
            3 => Response::try_send(r, Ok::<_, PathBuf>(&*j.path).map_err(|_: PathBuf| j.path.clone())),
            4 => Response::send_file_with_mime(r, &j.path, |ext| { say(format!("ext {:?}", ext)); j.mime.map(|m| m.parse().unwrap()) }),
            5 => { let mut f = match std::fs::File::open(&j.path) { Ok(f) => f, Err(_) => { say("cannot open".into()); return Ok(()); } }; f.seek(SeekFrom::Start(j.seek)).unwrap(); Response::try_send(r, f) }
            _ => unreachable!(),
        } };
        if let After::Handle = j.after { if j.how < 2 { // the unchecked way
            if j.limited { unprivileged(|| if j.how == 0 { r.send(&*j.path) } else { r.send(j.path.clone()) }) } else if j.how == 0 { r.send(&*j.path) } else { r.send(j.path.clone()) }
            return;
        } }
        let res = if j.limited { unprivileged(|| send(r)) } else { send(r) };
        let e = match res { Ok(()) => { say("ok".into()); return; } Err(e) => e };
        say(match e { FileError::Open(ref e, _) => format!("open {:?}", e.kind()), FileError::Send(_) => "send".into() });
        match j.after {
            After::Handle => rustful::response::ResponseError::handle(e),
            After::Recover(ref p) => match e.recover_response() { Ok(r) => { say(format!("status {}", r.status().to_u16())); run_prog(r, p); } Err(_) => say("not recovered".into()) },
            After::NotFoundMsg(ref m) => match give!(m, |d| e.send_not_found(d)) { Ok(()) => say("404 sent".into()), Err(_) => say("other".into()) },
            After::Ignore(ref p) => match e.ignore_send_error() { Ok(()) => say("ignored".into()), Err((_, r)) => { say(format!("status {}", r.status().to_u16())); run_prog(r, p); } },
            After::Forget => drop(e),
        }
    }
}
fn r_try<'a, 'b>(r: Response<'a, 'b>, p: &Path) -> Result<(), FileError<'a, 'b>> { r.try_send(p) }
fn file_case(rng: &mut Rng, cov: &mut Cov) -> CaseResult {
    thread_local!(static MIMES: BTreeMap<String, String> = crate::types::mime_types());
    let dir = Scratch::new("files");
    let ext = MIMES.with(|m| match rng.below(5) { 0 => "".to_string(), 1 => "nosuchext".into(), _ => { let n = rng.below(m.len()); m.keys().nth(n).unwrap().clone() } });
    let stem = *rng.pick(&["file", "a b", "é", "x.tar", ".hidden", "UP"]);
    let name = if ext.is_empty() { stem.to_string() } else { format!("{}.{}", stem, ext) };
    let len = match rng.below(8) { 0 => 0, 1 => *rng.pick(&[8191usize, 8192, 8193, 65536, 16384]), _ if big() => rng.range(300_000, 20_000_000), 2 => rng.below(300_000), _ => rng.below(2000) };
    let data: Vec<u8> = { let b = rng.byte(); (0..len).map(|i| b.wrapping_mul(3).wrapping_add((i ^ (i >> 8)) as u8)).collect() };
    let kind = match rng.below(20) { 0 | 1 => FileKind::Missing, 2 => FileKind::Dir, 3 => FileKind::NotDir, 4 => FileKind::Loop, 5 => FileKind::Long, 6 => FileKind::Nul, 7 | 8 => FileKind::Forbidden, 9 | 10 => FileKind::Link, 11 => FileKind::Empty, _ => FileKind::Regular };
    let p = dir.0.join(&name);
    let write = |p: &Path| std::fs::write(p, &data).expect("scratch file");
    let mut path = p.clone();
    match kind {
        FileKind::Regular => write(&p),
        FileKind::Missing => {}
        FileKind::Dir => std::fs::create_dir(&p).unwrap(),
        FileKind::NotDir => { write(&p); path = p.join("below"); }
        FileKind::Loop => std::os::unix::fs::symlink(&name, &p).unwrap(),
        FileKind::Long => path = dir.0.join("n".repeat(300)),
        FileKind::Nul => path = dir.0.join("a\0b.txt"),
        FileKind::Forbidden => { use std::os::unix::fs::PermissionsExt; write(&p); std::fs::set_permissions(&p, PermissionsExt::from_mode(0o600)).unwrap(); }
        FileKind::Link => { write(&dir.0.join("target")); std::os::unix::fs::symlink(dir.0.join("target"), &p).unwrap(); }
        FileKind::Empty => path = PathBuf::new(),
    }
    // what the system says about it is the reference
    let limited = if let FileKind::Forbidden = kind { true } else { false };
    let look = || std::fs::File::open(&path).and_then(|mut f| { let mut b = vec![]; if f.metadata()?.is_dir() { return Err(io::Error::new(io::ErrorKind::Other, "directory")); } f.read_to_end(&mut b)?; Ok(b) });
    let truth = if limited { unprivileged(look) } else { look() };
    let how = rng.below(6) as u8;
    let seek = if rng.chance(1, 2) { rng.below(len + 10) as u64 } else { 0 };
    let job = FileJob { path: path.clone(), how, seek, mime: if rng.chance(1, 2) { Some(*rng.pick(&["text/plain", "application/x-mine; charset=utf-8"])) } else { None },
        pre: (0..rng.below(4)).map(|_| gen_header(rng)).collect(),
        after: match rng.below(6) { 0 | 1 => After::Handle, 2 => After::Recover(gen_prog(rng, false, false)), 3 => After::NotFoundMsg(Piece::gen(rng, 50)), 4 => After::Ignore(gen_prog(rng, false, false)), _ => After::Forget }, limited };
    let log = Arc::new(Mutex::new(vec![]));
    let mut server = Server::new(Filer { job: job.clone(), log: log.clone() });
    let filtered = rng.chance(1, 3);
    if filtered { server.response_filters.push(Box::new(Wrap)); }
    let script = Script { short_write: if rng.chance(1, 4) { rng.range(1, 3000) } else { 0 }, ..Script::new(request("GET", b"/f", &[("Host", b"h")], b"")) };
    let inst = server.build();
    take_errors();
    let served = serve(&inst, script, false);
    let errors = take_errors();
    let what = format!("{:?} of {} bytes, {:?}, filter {}", kind, len, job, filtered);
    let log1 = log.lock().unwrap().clone();
    if let End::HandlerPanic(p) | End::ParsePanic(p) = served.end { return bad("panic", format!("{}\n{}", p, what)); }
    let rs = parse_all(&served.out, &[]).map_err(|e| Violation { sig: "malformed".into(), detail: format!("{}\n{}\nout {}", e, what, show_short(&served.out)) })?;
    ensure!(rs.len() == 1 && rs[0].complete, "count", "{}: {:?}", what, rs.iter().map(|r| (r.status, r.body.len(), r.complete)).collect::<Vec<_>>());
    let r = &rs[0];
    let (mut h, mut st) = (default_headers(), 200);
    model_headers(&mut h, &mut st, &job.pre);
    h.insert("date".into(), FIXED_DATE.as_bytes().to_vec());
    if how == 3 { st = 200; }
    let unchecked = if let After::Handle = job.after { how < 2 } else { false };
    let extension = path.extension().map(|e| e.to_string_lossy().into_owned());
    if how == 5 && log1.contains(&"cannot open".to_string()) { return Ok(()); }
    let truth = if how == 5 { truth.map(|b| b[(seek as usize).min(b.len())..].to_vec()) } else { truth };
    match truth {
        Ok(bytes) => {
            if how != 5 {
                let t = if how == 4 { if extension.is_some() { job.mime.map(|m| m.to_string()) } else { None } } else { extension.clone().and_then(|e| MIMES.with(|m| m.get(&e).cloned())) };
                if how != 4 && extension.is_some() && t.is_none() { h.insert("content-type".into(), r.header("content-type").unwrap_or(b"").to_vec()); // other spellings are C17's business
                    ensure!(extension.as_ref().map_or(false, |e| e.to_lowercase() != *e) || r.header("content-type") == Some(b"application/octet-stream"), "type", "{}: {:?}", what, r.header("content-type").map(show)); }
                else { h.insert("content-type".into(), t.unwrap_or("application/octet-stream".into()).into_bytes()); }
                if how == 4 { ensure!(log1.first() == extension.as_ref().map(|e| format!("ext {:?}", e)).as_ref() || extension.is_none(), "type", "{}: asked for the type of {:?}", what, log1); }
            }
            ensure!(r.status == st, "status", "{}: status {} want {}", what, r.status, st);
            ensure!(r.framing == Framing::Length(bytes.len() as u64), "length", "{}: {:?} want {}", what, r.framing, bytes.len());
            ensure!(r.body == bytes, "content", "{}: {} bytes {}, want {}", what, r.body.len(), show_short(&r.body), show_short(&bytes));
            check_headers(r, &h, &what)?;
            ensure!(unchecked || log1.last().map(|s| &s[..]) == Some("ok"), "told", "{}: {:?}", what, log1);
            cov.count("files sent"); cov.add("file bytes", bytes.len() as u64); cov.max("max file bytes", bytes.len() as u64);
            if bytes.len() > 1 { cov.nontrivial(&(&name, how, &bytes, job.seek)); }
        }
        Err(e) => {
            let missing = e.kind() == io::ErrorKind::NotFound;
            if !unchecked { let o = log1.iter().find(|l| l.starts_with("open ")); ensure!(o == Some(&format!("open {:?}", e.kind())) || (o.is_some() && e.kind() == io::ErrorKind::Other), "told", "{}: {:?}, the system says {:?}", what, log1, e); }
            let (st2, body, prog): (u16, Vec<u8>, Option<&Prog>) = match job.after {
                After::Handle => {
                    ensure!(missing || !errors.is_empty(), "logged", "{}: nothing logged about {:?}", what, e);
                    (if missing { 404 } else { 500 }, vec![], None)
                }
                After::NotFoundMsg(ref m) if missing => { ensure!(log1.contains(&"404 sent".to_string()), "told", "{}: {:?}", what, log1); (404, m.data.clone(), None) }
                After::NotFoundMsg(_) => { ensure!(log1.contains(&"other".to_string()), "told", "{}: {:?}", what, log1); (st, vec![], None) }
                After::Recover(ref p) | After::Ignore(ref p) => { ensure!(log1.contains(&format!("status {}", st)), "recover", "{}: {:?} want status {}", what, log1, st); let mut s = st; model_headers(&mut h, &mut s, &p.pre); (s, expected_body(p), Some(p)) }
                After::Forget => (st, vec![], None),
            };
            let raw = if let Some(Fin::Raw(..)) = prog.map(|p| &p.fin) { true } else { false };
            let body = if filtered && !raw { [&b"<"[..], &body, b">"].concat() } else { body };
            ensure!(r.status == st2, "status", "{}: status {} want {}", what, r.status, st2);
            ensure!(r.body == body, "recover", "{}: body {} want {}", what, show_short(&r.body), show_short(&body));
            check_headers(r, &h, &what)?;
            cov.count(&format!("not sent: {:?}", kind));
            cov.nontrivial(&(format!("{:?}", kind), how, format!("{:?}", job.after), job.pre.len()));
        }
    }
    cov.sample(|| what.clone());
    // and with the peer gone somewhere on the way
    if rng.chance(1, 3) && !limited {
        let full = served.out;
        let at = rng.below(full.len());
        log.lock().unwrap().clear();
        let served = serve(&inst, Script { write_fail_at: Some(at), ..Script::new(request("GET", b"/f", &[("Host", b"h")], b"")) }, false);
        if let End::HandlerPanic(p) | End::ParsePanic(p) = served.end { return bad("panic", format!("peer gone after {} of {} bytes: {}\n{}", at, full.len(), p, what)); }
        ensure!(full.starts_with(&served.out), "prefix", "peer gone after {} of {} bytes: {}\n{}", at, full.len(), show_short(&served.out), what);
        cov.count("peer gone");
    }
    Ok(())
}
struct Wrap;
impl ResponseFilter for Wrap {
    fn begin(&self, _: FilterContext, s: StatusCode, _: &mut Headers) -> (StatusCode, ResponseAction<'_>) { (s, ResponseAction::next(Some("<"))) }
    fn write<'a>(&'a self, _: FilterContext, d: Option<Data<'a>>) -> ResponseAction<'a> { ResponseAction::Next(d) }
    fn end(&self, _: FilterContext) -> ResponseAction<'_> { ResponseAction::next(Some(">")) }
}

pub fn run(r: &mut Run) {
    match &r.id.clone()[..] {
        "C18" => { r.cases("files", 2_000, 200_000, file_case); r.large("files", 20, 2_000, file_case); }
        "C19" => { r.cases("programs", 20_000, 1_500_000, |r, c| program_case(r, c, false)); r.large("programs", 60, 5_000, |r, c| program_case(r, c, false)); }
        "C20" => { r.cases("filtered streams", 6_000, 400_000, crate::filters::told_case); r.cases("streams", 15_000, 1_000_000, |r, c| program_case(r, c, true)); r.cases("write faults", 15_000, 1_000_000, fault_case); r.large("streams", 40, 4_000, |r, c| program_case(r, c, true)); r.large("write faults", 40, 4_000, fault_case); }
        "C24" => { r.cases("headers", 40_000, 2_000_000, defaults_case); r.cases("unset", 200, 2_000, unset_case); r.cases("clock", 2, 32, clock_case); }
        "C25" => { r.cases("contents", 60_000, 3_000_000, content_case); r.cases("own contents", 10_000, 300_000, own_case); }
        _ => unreachable!(),
    }
}
