//! In-memory connections driven through hyper's request parser and response writer, and a strict, independent
//! HTTP/1.1 response parser for the bytes that come out.
use hyper::buffer::BufReader;
use hyper::header::{Connection, Expect, Headers};
use hyper::net::NetworkStream;
use hyper::server::request::Request;
use hyper::server::response::Response as HyperResponse;
use hyper::server::Handler as HyperHandler;
use rustful::handler::HandleRequest;
use rustful::server::ServerInstance;
use std::io::{self, BufWriter, Read, Write};
use std::net::SocketAddr;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// What the peer does: sends `input` in pieces, then end of stream.
pub struct Script {
    pub input: Vec<u8>,
    /// sizes of successive reads, cycled; empty = everything at once
    pub frag: Vec<usize>,
    /// writes fail once this many bytes have been accepted
    pub write_fail_at: Option<usize>,
    /// at most this many bytes are accepted per write call (short writes); 0 = no limit
    pub short_write: usize,
    /// fail reads with an error instead of end of stream once the input is used up
    pub read_err_at_end: bool,
    /// every third write is interrupted before anything is taken
    pub write_interrupts: bool,
    /// one read fails with this kind of error when this many bytes have been read
    pub err_at: Option<(usize, io::ErrorKind)>,
}
impl Script {
    pub fn new(input: Vec<u8>) -> Script { Script { input, frag: vec![], write_fail_at: None, short_write: 0, read_err_at_end: false, write_interrupts: false, err_at: None } }
}

pub struct Mock {
    script: Arc<Script>,
    pos: usize,
    reads: usize,
    writes: usize,
    failed: bool,
    out: Arc<Mutex<Vec<u8>>>,
}
impl Read for Mock {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let s = &self.script;
        let mut left = s.input.len() - self.pos;
        if let (Some((at, kind)), false) = (s.err_at, self.failed) {
            if self.pos >= at { self.failed = true; return Err(io::Error::new(kind, "scripted read failure")); }
            left = left.min(at - self.pos);
        }
        if left == 0 { return if s.read_err_at_end { Err(io::Error::new(io::ErrorKind::ConnectionReset, "scripted reset")) } else { Ok(0) }; }
        let lim = if s.frag.is_empty() { left } else { s.frag[self.reads % s.frag.len()].max(1) };
        let n = lim.min(left).min(buf.len());
        buf[..n].copy_from_slice(&s.input[self.pos..self.pos + n]);
        self.pos += n;
        self.reads += 1;
        Ok(n)
    }
}
impl Write for Mock {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.writes += 1;
        if self.script.write_interrupts && self.writes % 3 == 0 { return Err(io::ErrorKind::Interrupted.into()); }
        let mut out = self.out.lock().unwrap();
        let mut n = buf.len();
        if self.script.short_write > 0 { n = n.min(self.script.short_write); }
        if let Some(lim) = self.script.write_fail_at {
            if out.len() >= lim { return Err(io::Error::new(io::ErrorKind::BrokenPipe, "scripted write failure")); }
            n = n.min(lim - out.len());
        }
        out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if let Some(lim) = self.script.write_fail_at {
            if self.out.lock().unwrap().len() >= lim { return Err(io::Error::new(io::ErrorKind::BrokenPipe, "scripted write failure")); }
        }
        Ok(())
    }
}
impl NetworkStream for Mock {
    fn peer_addr(&mut self) -> io::Result<SocketAddr> { Ok("127.0.0.1:4711".parse().unwrap()) }
    fn set_read_timeout(&self, _: Option<Duration>) -> io::Result<()> { Ok(()) }
    fn set_write_timeout(&self, _: Option<Duration>) -> io::Result<()> { Ok(()) }
}

#[derive(Debug, Clone, PartialEq)]
pub enum End { Closed, ParseError(String), HandlerPanic(String), ParsePanic(String), Limit }

#[derive(Debug)]
pub struct Served {
    pub out: Vec<u8>,
    /// request heads hyper parsed and handed to the server instance
    pub requests: usize,
    /// length of `out` after each request was handled
    pub marks: Vec<usize>,
    pub end: End,
    /// bytes of the script actually taken off the wire
    pub consumed: usize,
}

/// Runs one connection like hyper's worker does (hyper 0.10 `server::Worker::handle_connection`), including connection
/// accounting callbacks. `keep_alive` mirrors hyper's timeout being set.
pub fn serve<R: HandleRequest + 'static>(inst: &ServerInstance<R>, script: Script, keep_alive: bool) -> Served {
    serve_opt(inst, script, keep_alive, true)
}
pub fn serve_opt<R: HandleRequest + 'static>(inst: &ServerInstance<R>, script: Script, keep_alive: bool, account: bool) -> Served {
    let out = Arc::new(Mutex::new(vec![]));
    let script = Arc::new(script);
    let mut rd = Mock { script: script.clone(), pos: 0, reads: 0, writes: 0, failed: false, out: out.clone() };
    let wr = Mock { script: script.clone(), pos: 0, reads: 0, writes: 0, failed: false, out: out.clone() };
    let addr: SocketAddr = "127.0.0.1:4711".parse().unwrap();
    let mut requests = 0;
    let mut marks = vec![];
    let end;
    if account { inst.on_connection_start(); }
    {
        let mut rdr = BufReader::new(&mut rd as &mut dyn NetworkStream);
        let mut wrt = BufWriter::new(wr);
        let mut budget = 10_000;
        end = loop {
            budget -= 1;
            if budget == 0 { break End::Limit; }
            let parsed = catch_unwind(AssertUnwindSafe(|| unsafe {
                // the borrow of `rdr` has to outlive the closure
                let r: *mut BufReader<&mut dyn NetworkStream> = &mut rdr;
                Request::new(&mut *r, addr)
            }));
            let parsed = match parsed { Ok(p) => p, Err(_) => break End::ParsePanic(crate::core::take_panic()) };
            let req = match parsed {
                Ok(r) => r,
                Err(hyper::Error::Io(ref e)) if e.kind() == io::ErrorKind::ConnectionAborted => break End::Closed,
                Err(e) => break End::ParseError(e.to_string()),
            };
            if req.version == hyper::version::HttpVersion::Http11 && req.headers.get() == Some(&Expect::Continue) {
                let status = inst.check_continue((&req.method, &req.uri, &req.headers));
                if write!(wrt, "{} {}\r\n\r\n", hyper::version::HttpVersion::Http11, status).and_then(|_| wrt.flush()).is_err() { break End::Closed; }
                if status != hyper::status::StatusCode::Continue { break End::Closed; }
            }
            let mut ka = keep_alive && should_keep_alive(req.version, &req.headers);
            let version = req.version;
            let mut headers = Headers::new();
            if !ka { headers.set(Connection::close()); }
            requests += 1;
            let r = catch_unwind(AssertUnwindSafe(|| {
                let mut res = HyperResponse::new(&mut wrt, &mut headers);
                res.version = version;
                inst.handle(req, res);
            }));
            marks.push(out.lock().unwrap().len());
            if r.is_err() { break End::HandlerPanic(crate::core::take_panic()); }
            if ka { ka = should_keep_alive(version, &headers); }
            if !ka { break End::Closed; }
        };
        // A panicking handler unwinds hyper's worker: on_connection_end is not called, the streams are dropped.
        if account { if let End::HandlerPanic(_) = end {} else { inst.on_connection_end(); } }
        let _ = catch_unwind(AssertUnwindSafe(|| drop(wrt)));
    }
    let consumed = rd.pos;
    let out = out.lock().unwrap().clone();
    Served { out, requests, marks, end, consumed }
}

fn should_keep_alive(version: hyper::version::HttpVersion, headers: &Headers) -> bool {
    use hyper::header::ConnectionOption::{Close, KeepAlive};
    use hyper::version::HttpVersion::{Http10, Http11};
    match (version, headers.get::<Connection>()) {
        (Http10, None) => false,
        (Http10, Some(c)) if !c.contains(&KeepAlive) => false,
        (Http11, Some(c)) if c.contains(&Close) => false,
        _ => true,
    }
}

#[derive(Debug, Clone, PartialEq)]
pub struct WireResponse {
    pub version: String, pub status: u16, pub reason: String,
    pub headers: Vec<(String, Vec<u8>)>,
    pub body: Vec<u8>,
    pub framing: Framing,
    pub chunks: Vec<usize>,
    /// false if the stream ended inside this response
    pub complete: bool,
}
#[derive(Debug, Clone, PartialEq)]
pub enum Framing { Length(u64), Chunked, None, Close }
impl WireResponse {
    pub fn header(&self, name: &str) -> Option<&[u8]> { self.headers.iter().find(|h| h.0.eq_ignore_ascii_case(name)).map(|h| &h.1[..]) }
    pub fn headers_all(&self, name: &str) -> Vec<&[u8]> { self.headers.iter().filter(|h| h.0.eq_ignore_ascii_case(name)).map(|h| &h.1[..]).collect() }
}

/// Parses one final response (skipping 100 Continue) from the front of `b`. Strict: anything not conforming to RFC 7230
/// framing is an error. Returns the rest.
pub fn parse_response<'a>(mut b: &'a [u8], head_request: bool) -> Result<(WireResponse, &'a [u8]), String> {
    loop {
        let (r, rest) = parse_one(b, head_request)?;
        if r.status == 100 && r.complete { b = rest; continue; }
        return Ok((r, rest));
    }
}
fn line<'a>(b: &'a [u8]) -> Option<(&'a [u8], &'a [u8])> {
    b.windows(2).position(|w| w == b"\r\n").map(|i| (&b[..i], &b[i + 2..]))
}
fn is_token(b: &[u8]) -> bool { !b.is_empty() && b.iter().all(|c| c.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(c)) }
fn incomplete(why: &str) -> String { format!("incomplete: {}", why) }

fn parse_one<'a>(b: &'a [u8], head_request: bool) -> Result<(WireResponse, &'a [u8]), String> {
    let (sl, mut rest) = line(b).ok_or_else(|| incomplete("status line"))?;
    let s = std::str::from_utf8(sl).map_err(|_| "status line not ascii".to_string())?;
    let mut it = s.splitn(3, ' ');
    let version = it.next().unwrap().to_string();
    if version != "HTTP/1.1" && version != "HTTP/1.0" { return Err(format!("bad version in status line {:?}", s)); }
    let code = it.next().ok_or("no status code")?;
    if code.len() != 3 || !code.bytes().all(|c| c.is_ascii_digit()) { return Err(format!("bad status code {:?}", s)); }
    let status: u16 = code.parse().unwrap();
    let reason = it.next().unwrap_or("").to_string();
    let mut headers = vec![];
    loop {
        let (l, r) = line(rest).ok_or_else(|| incomplete("headers"))?;
        rest = r;
        if l.is_empty() { break; }
        let c = l.iter().position(|&c| c == b':').ok_or_else(|| format!("header without colon {:?}", crate::core::show(l)))?;
        if !is_token(&l[..c]) { return Err(format!("bad header name {:?}", crate::core::show(&l[..c]))); }
        let mut v = &l[c + 1..];
        while let Some(b' ') | Some(b'\t') = v.first() { v = &v[1..]; }
        while let Some(b' ') | Some(b'\t') = v.last() { v = &v[..v.len() - 1]; }
        if v.iter().any(|&c| c == b'\r' || c == b'\n' || c == 0) { return Err("control byte in header value".into()); }
        headers.push((String::from_utf8_lossy(&l[..c]).into_owned(), v.to_vec()));
    }
    let mut r = WireResponse { version, status, reason, headers, body: vec![], framing: Framing::None, chunks: vec![], complete: true };
    let cls: Vec<Vec<u8>> = r.headers_all("content-length").into_iter().map(|v| v.to_vec()).collect();
    let tes: Vec<Vec<u8>> = r.headers_all("transfer-encoding").into_iter().map(|v| v.to_vec()).collect();
    if status / 100 == 1 || status == 204 || status == 304 || head_request {
        return Ok((r, rest));
    }
    if cls.len() > 1 { return Err("several Content-Length headers".into()); }
    if !tes.is_empty() {
        if !cls.is_empty() { return Err("both Content-Length and Transfer-Encoding".into()); }
        if tes.len() > 1 || !tes[0].eq_ignore_ascii_case(b"chunked") { return Err(format!("unexpected Transfer-Encoding {:?}", tes)); }
        r.framing = Framing::Chunked;
        loop {
            let (l, rr) = match line(rest) { Some(x) => x, None => { r.complete = false; return Ok((r, &[])); } };
            let ls = std::str::from_utf8(l).map_err(|_| "chunk size".to_string())?;
            if ls.is_empty() || !ls.bytes().all(|c| c.is_ascii_hexdigit()) { return Err(format!("bad chunk size line {:?}", ls)); }
            let n = usize::from_str_radix(ls, 16).map_err(|e| e.to_string())?;
            rest = rr;
            if n == 0 {
                let (l, rr) = match line(rest) { Some(x) => x, None => { r.complete = false; return Ok((r, &[])); } };
                if !l.is_empty() { return Err(format!("trailer/garbage after last chunk {:?}", crate::core::show(l))); }
                return Ok((r, rr));
            }
            if rest.len() < n { r.body.extend_from_slice(rest); r.complete = false; return Ok((r, &[])); }
            r.body.extend_from_slice(&rest[..n]);
            r.chunks.push(n);
            if rest.len() < n + 2 { r.complete = false; return Ok((r, &[])); }
            if &rest[n..n + 2] != b"\r\n" { return Err("chunk not followed by CRLF".into()); }
            rest = &rest[n + 2..];
        }
    }
    if let Some(v) = cls.first() {
        let s = std::str::from_utf8(v).map_err(|_| "content-length".to_string())?;
        if s.is_empty() || !s.bytes().all(|c| c.is_ascii_digit()) { return Err(format!("bad Content-Length {:?}", s)); }
        let n: u64 = s.parse().map_err(|_| format!("bad Content-Length {:?}", s))?;
        r.framing = Framing::Length(n);
        if (rest.len() as u64) < n { r.body = rest.to_vec(); r.complete = false; return Ok((r, &[])); }
        r.body = rest[..n as usize].to_vec();
        return Ok((r, &rest[n as usize..]));
    }
    r.framing = Framing::Close;
    r.body = rest.to_vec();
    Ok((r, &[]))
}

/// Parses a whole output as a sequence of responses; `heads[i]` tells whether request i was HEAD.
pub fn parse_all(mut b: &[u8], heads: &[bool]) -> Result<Vec<WireResponse>, String> {
    let mut v = vec![];
    while !b.is_empty() {
        let head = heads.get(v.len()).cloned().unwrap_or(false);
        let (r, rest) = parse_response(b, head).map_err(|e| format!("response {}: {}", v.len(), e))?;
        v.push(r);
        b = rest;
    }
    Ok(v)
}

pub fn pct_encode(b: &[u8], keep: &dyn Fn(u8) -> bool) -> Vec<u8> {
    let mut o = vec![];
    for &c in b { if keep(c) { o.push(c) } else { o.extend_from_slice(format!("%{:02X}", c).as_bytes()) } }
    o
}
/// Independent percent decoder: once, malformed escapes left alone.
pub fn pct_decode(b: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    let hex = |c: u8| (c as char).to_digit(16);
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() {
            if let (Some(h), Some(l)) = (hex(b[i + 1]), hex(b[i + 2])) { o.push((h * 16 + l) as u8); i += 3; continue; }
        }
        o.push(b[i]); i += 1;
    }
    o
}
pub fn unreserved(c: u8) -> bool { c.is_ascii_alphanumeric() || b"-._~".contains(&c) }

pub fn request(method: &str, target: &[u8], headers: &[(&str, &[u8])], body: &[u8]) -> Vec<u8> {
    let mut v = method.as_bytes().to_vec();
    v.push(b' '); v.extend_from_slice(target); v.extend_from_slice(b" HTTP/1.1\r\n");
    for (n, val) in headers { v.extend_from_slice(n.as_bytes()); v.extend_from_slice(b": "); v.extend_from_slice(val); v.extend_from_slice(b"\r\n"); }
    v.extend_from_slice(b"\r\n");
    v.extend_from_slice(body);
    v
}
