//! C21 C22 response filter stacks, C23 context filters.
use crate::core::*;
use crate::ensure;
use crate::responses::*;
use crate::wire::*;
use rustful::context::UriPath;
use rustful::filter::*;
use rustful::handler::MethodRouter;
use rustful::header::Headers;
use rustful::response::{Data, Error};
use rustful::server::Global;
use rustful::{Context, DefaultRouter, Handler, Method, Response, Server, StatusCode};
use std::collections::BTreeMap;
use std::io::{self, Read, Write};
use std::sync::{Arc, Mutex};

// ---- what filters do, as data
#[derive(Clone, Debug, Hash, PartialEq)]
pub enum Act { Nothing, Add(Vec<u8>, bool), Silent, Abort }
#[derive(Clone, Debug, Hash)]
pub enum Rule { Pass, Wrap, DropSome, Shorten, Twice, Reverse, SilentSome, AbortSome, Empty }
#[derive(Clone, Debug, Hash)]
pub struct FSpec { begin: Act, status: Option<u16>, rule: Rule, salt: u64, end: Act }
#[derive(Clone, Debug, PartialEq)]
enum Out { Data(Vec<u8>), Dropped, Silent, Abort(String) }
fn pick(b: &[u8], salt: u64, m: u64) -> bool { let mut h = salt; for x in b { h = (h ^ *x as u64).wrapping_mul(0x100000001b3); h ^= h >> 29; } h % m == 0 }
fn apply_rule(i: usize, s: &FSpec, b: &[u8]) -> Out {
    match s.rule {
        Rule::Pass => Out::Data(b.to_vec()),
        Rule::Wrap => Out::Data([format!("<{}:", i).as_bytes(), b, b">"].concat()),
        Rule::DropSome => if pick(b, s.salt, 3) { Out::Dropped } else { Out::Data(b.to_vec()) },
        Rule::Shorten => Out::Data(b[..b.len() / 2].to_vec()),
        Rule::Twice => if b.len() < 5000 { Out::Data([b, b].concat()) } else { Out::Data(b.to_vec()) },
        Rule::Reverse => Out::Data(b.iter().rev().cloned().collect()),
        Rule::SilentSome => if pick(b, s.salt, 3) { Out::Silent } else { Out::Data(b.to_vec()) },
        Rule::AbortSome => if pick(b, s.salt, 4) { Out::Abort(text(format!("w{}-{}", i, b.len()))) } else { Out::Data(b.to_vec()) },
        Rule::Empty => Out::Data(vec![]),
    }
}
/// What an aborting filter says: not always a plain word.
fn text(s: String) -> String {
    match s.bytes().fold(0u32, |h, b| h.wrapping_mul(31).wrapping_add(b as u32)) % 5 { 0 => format!("{}\nsecond line", s), 1 => format!(" {}: {{}} %41 é\t\"x\" ", s), 2 => format!("{}{}", s, "long ".repeat(60)), _ => s }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Ev { Begin { status: u16, chain: String }, Write(Vec<u8>), End }
/// One call of a filter, as seen by the monitor.
#[derive(Clone, Debug)]
struct Call { req: i64, filter: usize, ev: Ev, seq: usize, aborted: Option<String>, mark: Option<u32>, op_mark: usize, op: usize }
pub struct ReqId(i64);
struct Seq(usize);
struct Mark(u32);
struct OpMark(usize);
#[derive(Default)]
struct Shared { calls: Mutex<Vec<Call>>, anon: Mutex<i64>, op: std::sync::atomic::AtomicUsize, results: Mutex<BTreeMap<i64, Vec<Told>>>, global_bad: Mutex<usize> }
struct Probe { i: usize, spec: FSpec, sh: Arc<Shared> }
impl Probe {
    fn note(&self, c: FilterContext, ev: Ev, aborted: Option<String>) {
        if c.global.get::<u64>() != Some(&77) { *self.sh.global_bad.lock().unwrap() += 1; }
        if c.storage.get::<ReqId>().is_none() { let mut a = self.sh.anon.lock().unwrap(); *a -= 1; c.storage.insert(ReqId(*a)); }
        let req = c.storage.get::<ReqId>().unwrap().0;
        let seq = c.storage.remove::<Seq>().map_or(0, |s| s.0);
        c.storage.insert(Seq(seq + 1));
        let mark = c.storage.get::<Mark>().map(|m| m.0);
        let op_mark = c.storage.get::<OpMark>().map_or(0, |m| m.0);
        let mut calls = self.sh.calls.lock().unwrap();
        if calls.len() > 20_000 { drop(calls); panic!("endless calls of a filter"); }
        calls.push(Call { req, filter: self.i, ev, seq, aborted, mark, op_mark, op: self.sh.op.load(std::sync::atomic::Ordering::SeqCst) });
    }
}
fn act<'a>(a: &'a Act, msg: String) -> ResponseAction<'a> {
    match *a {
        Act::Nothing => ResponseAction::Next(None),
        Act::Add(ref b, false) => match std::str::from_utf8(b) { Ok(s) => ResponseAction::next(Some(s)), Err(_) => ResponseAction::next(Some(&b[..])) },
        Act::Add(ref b, true) => ResponseAction::next(Some(b.clone())),
        Act::Silent => ResponseAction::silent_abort(),
        Act::Abort => ResponseAction::abort(msg),
    }
}
impl ResponseFilter for Probe {
    fn begin(&self, c: FilterContext, status: StatusCode, h: &mut Headers) -> (StatusCode, ResponseAction<'_>) {
        let chain = h.get_raw("x-chain").map(|v| v.iter().map(|v| String::from_utf8_lossy(v).into_owned()).collect::<Vec<_>>().join("|")).unwrap_or_default();
        h.set_raw("X-Chain", vec![format!("{}{}", chain, self.i).into_bytes()]);
        let msg = text(format!("b{}", self.i));
        self.note(c, Ev::Begin { status: status.to_u16(), chain }, if self.spec.begin == Act::Abort { Some(msg.clone()) } else { None });
        (self.spec.status.map_or(status, StatusCode::from_u16), act(&self.spec.begin, msg))
    }
    fn write<'a>(&'a self, c: FilterContext, d: Option<Data<'a>>) -> ResponseAction<'a> {
        let d = match d { Some(d) => d, None => return ResponseAction::Next(None) };
        let b = d.as_bytes().to_vec();
        let o = apply_rule(self.i, &self.spec, &b);
        self.note(c, Ev::Write(b.clone()), if let Out::Abort(ref m) = o { Some(m.clone()) } else { None });
        match o {
            // data that isn't changed can be handed on as it is
            Out::Data(ref n) if *n == b && self.spec.salt % 2 == 0 => ResponseAction::next(Some(d)),
            Out::Data(n) => match String::from_utf8(n) { Ok(s) => ResponseAction::next(Some(s)), Err(e) => ResponseAction::next(Some(e.into_bytes())) },
            Out::Dropped => ResponseAction::Next(None),
            Out::Silent => ResponseAction::SilentAbort,
            Out::Abort(m) => ResponseAction::Abort(m),
        }
    }
    fn end(&self, c: FilterContext) -> ResponseAction<'_> {
        let msg = text(format!("e{}", self.i));
        self.note(c, Ev::End, if self.spec.end == Act::Abort { Some(msg.clone()) } else { None });
        act(&self.spec.end, msg)
    }
}
#[derive(Clone, Debug, Hash)]
pub enum FOp { Send(Piece), Try(Piece), Write(Vec<u8>), Once(Vec<u8>), Copy(Vec<u8>), Buf(Vec<u8>), Flush }
/// An I/O error must never ask the writer to try the same again: what a filter refused stays refused.
fn io_err(e: io::Error) -> Told { if e.kind() == io::ErrorKind::Interrupted || e.kind() == io::ErrorKind::WouldBlock { Told::Err(format!("RETRY({:?}): {}", e.kind(), e)) } else { Told::Err(e.to_string()) } }
impl FOp { fn bytes(&self) -> Option<&[u8]> { match self { FOp::Send(p) | FOp::Try(p) => Some(&p.data), FOp::Write(b) | FOp::Once(b) => Some(b), FOp::Copy(b) | FOp::Buf(b) => if b.is_empty() { None } else { Some(b) }, FOp::Flush => None } }
    /// through io::Write: the writer gets to know how much of its data was taken
    fn io(&self) -> bool { match self { FOp::Write(_) | FOp::Once(_) | FOp::Copy(_) | FOp::Buf(_) => true, _ => false } } }
#[derive(Clone, Debug, Hash)]
pub enum FFin { Drop, Sized(Piece, u8), Chunked(Vec<FOp>, bool), Raw(Vec<FOp>) }
/// What is logged by a send whose outcome nobody looks at.
fn logged<F: FnOnce()>(f: F) -> Told { take_errors(); f(); Told::Logged(take_errors()) }
struct Conductor { fins: Vec<FFin>, lens: Vec<Option<u64>>, sh: Arc<Shared> }
fn tell(r: Result<usize, Error>) -> Told { match r { Ok(n) => Told::Len(n), Err(Error::Filter(m)) => Told::Err(format!("F:{}", m)), Err(Error::Io(e)) => Told::Err(format!("IO:{}", e)) } }
impl Handler for Conductor {
    fn handle(&self, c: Context, mut r: Response) {
        let id: i64 = c.query.get("p").and_then(|p| p.parse().ok()).unwrap();
        let next = || { self.sh.op.fetch_add(1, std::sync::atomic::Ordering::SeqCst); };
        self.sh.op.store(0, std::sync::atomic::Ordering::SeqCst);
        r.headers_mut().set_raw("X-Chain", vec![b"h".to_vec()]);
        if r.filter_storage().get::<ReqId>().map(|r| r.0) != Some(id) { *self.sh.global_bad.lock().unwrap() += 1000; }
        r.filter_storage_mut().insert(Mark(id as u32 + 500));
        let mut log = vec![];
        if let Some(n) = self.lens[id as usize] { r.headers_mut().set(hyper::header::ContentLength(n)); }
        match self.fins[id as usize] {
            FFin::Drop => drop(r),
            FFin::Sized(ref p, how) => match how {
                0 => log.push(logged(|| r.send(p.data()))),
                1 => log.push(match r.try_send(p.data()) { Ok(()) => Told::Len(0), Err(Error::Filter(m)) => Told::Err(format!("F:{}", m)), Err(Error::Io(e)) => Told::Err(format!("IO:{}", e)) }),
                _ => log.push(tell(r.try_send_data(p.data()).map(|_| 0))),
            },
            FFin::Chunked(ref ops, end) => {
                let mut w = r.into_chunked();
                // what it stores between the pieces is there for the filters, too
                let next = |w: &mut rustful::response::Chunked| { next(); w.filter_storage_mut().insert(OpMark(self.sh.op.load(std::sync::atomic::Ordering::SeqCst))); };
                for o in ops {
                    next(&mut w);
                    log.push(match o { FOp::Send(p) => logged(|| w.send(p.data())), FOp::Try(p) => tell(w.try_send(p.data())), FOp::Write(b) => match w.write_all(b) { Ok(()) => Told::Len(b.len()), Err(e) => io_err(e) },
                        FOp::Once(b) => match w.write(b) { Ok(n) => Told::Len(n), Err(e) => io_err(e) },
                        FOp::Copy(b) => match io::copy(&mut io::Cursor::new(b), &mut w) { Ok(n) => Told::Len(n as usize), Err(e) => io_err(e) },
                        FOp::Buf(b) => { let mut bw = io::BufWriter::new(&mut w); let o = bw.write_all(b).and_then(|_| bw.flush()); let _ = bw.into_parts(); match o { Ok(()) => Told::Len(b.len()), Err(e) => io_err(e) } }
                        FOp::Flush => match w.flush() { Ok(()) => Told::Len(0), Err(e) => io_err(e) } });
                    if w.filter_storage().get::<Mark>().is_none() { *self.sh.global_bad.lock().unwrap() += 100_000; }
                }
                next(&mut w);
                if end { log.push(tell(w.end().map(|_| 0))); }
            }
            FFin::Raw(ref ops) => {
                let n: usize = ops.iter().map(|o| o.bytes().map_or(0, |b| b.len())).sum();
                let mut w = unsafe { r.into_raw(n as u64) };
                for o in ops { match o { FOp::Send(p) | FOp::Try(p) => w.send(p.data()), FOp::Write(b) | FOp::Once(b) => { w.write_all(b).ok(); } FOp::Copy(b) => { io::copy(&mut &b[..], &mut w).ok(); } FOp::Buf(b) => { io::BufWriter::new(&mut w).write_all(b).ok(); } FOp::Flush => { w.flush().ok(); } } }
            }
        }
        self.sh.results.lock().unwrap().insert(id, log);
    }
}
struct Tag;
impl ContextFilter for Tag {
    fn modify(&self, f: FilterContext, c: &mut Context) -> ContextAction {
        f.storage.insert(ReqId(c.query.get("p").and_then(|p| p.parse().ok()).unwrap()));
        if c.query.get("stop").is_some() { ContextAction::abort(StatusCode::Unauthorized) } else { ContextAction::next() }
    }
}
/// What has to be observed for one response.
#[derive(Debug, Default)]
struct Model {
    /// filters that must (and may) begin: the model's list; only a lower bound when beginning fails
    begun: Vec<usize>,
    writes: Vec<Vec<Vec<u8>>>,
    ended: Vec<usize>,
    /// what reaches the client, piece by piece
    out: Vec<Vec<u8>>,
    /// per operation: a length, an abort message or nothing to check
    told: Vec<Told>,
    begin_failed: Option<String>,
    failed: bool,
    status: u16,
    /// the status each filter finds
    found: Vec<u16>,
}
fn through(specs: &[FSpec], from: usize, to: usize, piece: &[u8], m: &mut Model) -> Out {
    let mut b = piece.to_vec();
    for i in from..to { m.writes[i].push(b.clone()); match apply_rule(i, &specs[i], &b) { Out::Data(n) => b = n, o => return o } }
    Out::Data(b)
}
fn model(specs: &[FSpec], fin: &FFin, status: u16, early: bool) -> Model {
    let n = specs.len();
    let mut m = Model { writes: vec![vec![]; n], status, ..Model::default() };
    if let FFin::Raw(ref ops) = fin { m.out = ops.iter().filter_map(|o| o.bytes().map(|b| b.to_vec())).collect(); return m; }
    // beginning
    let mut queue: Vec<Vec<u8>> = vec![];
    let mut stop = n;
    for i in 0..n {
        m.begun.push(i);
        m.found.push(m.status);
        if let Some(s) = specs[i].status { m.status = s; }
        if specs[i].begin == Act::Abort { m.begin_failed = Some(text(format!("b{}", i))); break; }
        let old = std::mem::replace(&mut queue, vec![]);
        for p in old { match through(specs, i, i + 1, &p, &mut m) { Out::Data(d) => queue.push(d), Out::Abort(e) => { m.begin_failed = Some(e); break; } _ => {} } }
        if m.begin_failed.is_some() { break; }
        match specs[i].begin { Act::Add(ref b, _) => queue.push(b.clone()), Act::Silent => { stop = i + 1; break; } _ => {} }
    }
    if stop < n && early && m.begin_failed.is_none() {
        // the pieces so far may also meet the filters that weren't asked to begin
        let old = std::mem::replace(&mut queue, vec![]);
        for p in old { match through(specs, stop, n, &p, &mut m) { Out::Data(d) => queue.push(d), Out::Abort(e) => { m.begin_failed = Some(e); break; } _ => {} } }
    }
    m.out = queue;
    let fail = |m: &Model| m.begin_failed.as_ref().map(|e| Told::Err(e.clone()));
    if let Some(f) = fail(&m) {
        m.failed = true;
        m.told = match fin { FFin::Sized(..) => vec![f], FFin::Chunked(ops, end) => ops.iter().map(|_| f.clone()).chain(if *end { Some(f.clone()) } else { None }).collect(), _ => vec![] };
        return m;
    }
    // content
    match fin {
        FFin::Drop | FFin::Sized(..) => {
            let p: &[u8] = if let FFin::Sized(p, _) = fin { &p.data } else { b"" };
            match through(specs, 0, n, p, &mut m) { Out::Data(d) => m.out.push(d), Out::Abort(e) => { m.failed = true; if let FFin::Sized(..) = fin { m.told.push(Told::Err(e)); } return m; } _ => {} }
        }
        FFin::Chunked(ops, _) => for o in ops {
            let t = match o.bytes() { None => Told::Len(0), Some(b) => match through(specs, 0, n, b, &mut m) { Out::Data(d) => { let l = d.len(); m.out.push(d); Told::Len(if o.io() { b.len() } else { l }) } Out::Abort(e) => Told::Err(e), _ => Told::Len(if o.io() { b.len() } else { 0 }) } };
            m.told.push(if let (FOp::Send(_), Told::Len(_)) = (o, &t) { Told::Nothing } else { t });
        },
        FFin::Raw(_) => unreachable!(),
    }
    // the end
    let told_end = if let FFin::Chunked(_, end) = fin { *end } else if let FFin::Sized(..) = fin { true } else { false };
    let mut outs = vec![];
    let mut error = None;
    for i in (0..n).rev() { m.ended.push(i); match specs[i].end { Act::Nothing => {} Act::Add(ref b, _) => outs.push((i, b.clone())), Act::Silent => break, Act::Abort => { error = Some(text(format!("e{}", i))); break; } } }
    if error.is_none() { for (i, b) in outs { match through(specs, i + 1, n, &b, &mut m) { Out::Data(d) => m.out.push(d), Out::Abort(e) => { error = Some(e); break; } _ => {} } } }
    if error.is_some() { m.failed = true; }
    if told_end { m.told.push(match error { Some(e) => Told::Err(e), None => if let FFin::Sized(_, 0) = fin { Told::Nothing } else { Told::Len(0) } }); }
    m
}
/// can `body` be made of these pieces in order, leaving some out?
fn subsequence(body: &[u8], pieces: &[Vec<u8>]) -> bool {
    let mut at: std::collections::BTreeSet<usize> = Some(0).into_iter().collect();
    for p in pieces { let more: Vec<usize> = at.iter().filter(|&&a| body[a..].starts_with(p)).map(|a| a + p.len()).collect(); at.extend(more); }
    at.contains(&body.len())
}
fn compare(m: &Model, calls: &[&Call], told: &[Told], r: &WireResponse, fin: &FFin, n: usize, handled: bool) -> Result<(), Violation> {
    // the calls of each filter
    let begun: Vec<usize> = calls.iter().filter(|c| if let Ev::Begin { .. } = c.ev { true } else { false }).map(|c| c.filter).collect();
    let ended: Vec<usize> = calls.iter().filter(|c| c.ev == Ev::End).map(|c| c.filter).collect();
    let early_fail = m.begin_failed.is_some();
    if early_fail { ensure!(begun.iter().enumerate().all(|(k, f)| k == *f) && begun.len() >= m.begun.len(), "begin order", "filters begun {:?}, want {:?}", begun, m.begun); }
    else { ensure!(begun == m.begun, "begin order", "filters begun {:?}, want {:?}", begun, m.begun); }
    ensure!(if m.failed { ended.iter().rev().cloned().eq(n - ended.len()..n) || ended.is_empty() } else { ended == m.ended }, "end order", "filters ended {:?}, want {:?}", ended, m.ended);
    if m.failed && !early_fail && !m.ended.is_empty() { ensure!(ended == m.ended, "end order", "filters ended {:?}, want {:?}", ended, m.ended); }
    for i in 0..n {
        let mine: Vec<&&Call> = calls.iter().filter(|c| c.filter == i).collect();
        let writes: Vec<&Vec<u8>> = mine.iter().filter_map(|c| if let Ev::Write(ref b) = c.ev { Some(b) } else { None }).collect();
        let want: Vec<&Vec<u8>> = m.writes[i].iter().collect();
        if m.failed { ensure!(writes.len() <= want.len() + 3.max(n + 1) && writes.iter().zip(&want).all(|(a, b)| a == b) && (early_fail || writes.len() == want.len()), "pieces", "filter {} saw {:?}, want {:?}", i, writes.iter().map(|b| show_short(b)).collect::<Vec<_>>(), want.iter().map(|b| show_short(b)).collect::<Vec<_>>()); }
        else { ensure!(writes == want, "pieces", "filter {} saw {:?}, want {:?}", i, writes.iter().map(|b| show_short(b)).collect::<Vec<_>>(), want.iter().map(|b| show_short(b)).collect::<Vec<_>>()); }
        // it begins before it gets anything
        if let Some(p) = mine.iter().position(|c| if let Ev::Begin { .. } = c.ev { true } else { false }) { ensure!(p == 0, "begin order", "filter {} got something before its begin: {:?}", i, mine); }
    }
    // storage is shared by all calls of the request
    for (k, c) in calls.iter().enumerate() { ensure!(c.seq == k, "storage", "call {} found {} earlier calls in the storage: {:?}", k, c.seq, c); }
    if handled { for c in calls { ensure!(c.mark == Some(c.req as u32 + 500), "storage", "what the handler stored isn't there: {:?}", c); ensure!(c.op_mark == c.op, "storage", "what the handler stored before operation {} isn't there: {:?}", c.op, c); } }
    else { for c in calls { ensure!(c.mark.is_none(), "storage", "storage of another request: {:?}", c); } }
    // status and headers as left by the filter before
    if !early_fail {
        let mut chain = if handled { "h".to_string() } else { String::new() };
        for c in calls { if let Ev::Begin { status: s, chain: ref ch } = c.ev { ensure!(*ch == chain, "headers", "filter {} finds {:?}, want {:?}", c.filter, ch, chain); chain = format!("{}{}", chain, c.filter); ensure!(s == m.found[c.filter], "status", "filter {} finds status {}, its predecessor left {}", c.filter, s, m.found[c.filter]); } }
        let raw = if let FFin::Raw(_) = fin { true } else { false };
        if !m.failed { let got = r.header("x-chain").map(show).unwrap_or_default(); let want = if raw { "h".to_string() } else { chain }; ensure!(got == want, "headers", "X-Chain {:?} want {:?}", got, want); }
    }
    // what the operations told
    if handled {
        ensure!(told.len() == m.told.len(), "told", "{} results, want {:?}", told.len(), m.told);
        let mut reported = false;
        for (k, (t, w)) in told.iter().zip(&m.told).enumerate() {
            match (t, w) {
                (Told::Logged(l), Told::Nothing) => ensure!(l.is_empty(), "logged", "operation {} logged {:?} though nothing failed", k, l),
                (Told::Logged(l), Told::Err(w)) => {
                    if early_fail && reported { continue; }
                    reported = true;
                    let may: Vec<&str> = if early_fail { calls.iter().filter_map(|c| c.aborted.as_ref().map(|m| &m[..])).collect() } else { vec![&w[..]] };
                    ensure!(l.len() == 1 && may.iter().any(|w| l[0].contains(w)), "logged", "operation {}, which nobody checked, logged {:?}, want the error {:?}", k, l, w);
                }
                (Told::Err(t), Told::Err(w)) => {
                    // a response that couldn't begin says why once, and that it's closed from then on
                    ensure!(!t.starts_with("RETRY"), "error", "operation {} told {:?}: a writer that tries again after that never gets anywhere", k, t);
                    if early_fail && reported { continue; }
                    reported = true;
                    let io = if let FFin::Chunked(ops, _) = fin { match ops.get(k) { Some(FOp::Flush) => true, Some(o) => o.io(), None => false } } else { false };
                    // if several filters abort the beginning, it's one of them
                    let may: Vec<&str> = if early_fail { calls.iter().filter_map(|c| c.aborted.as_ref().map(|m| &m[..])).collect() } else { vec![&w[..]] };
                    ensure!(may.iter().any(|w| if io { t.contains(w) } else { *t == format!("F:{}", w) }), "error", "operation {} told {:?}, want the filter error {:?}", k, t, w);
                }
                (t, w) => ensure!(t == w, "told", "operation {} told {:?}, want {:?}\nall {:?}", k, t, w, told),
            }
        }
    }
    // what the client gets
    ensure!(r.complete, "incomplete", "response incomplete");
    if m.failed { ensure!(subsequence(&r.body, &m.out), "aborted data", "after an error the body is {}, pieces {:?}", show_short(&r.body), m.out.iter().map(|b| show_short(b)).collect::<Vec<_>>()); }
    else {
        let want = m.out.concat();
        ensure!(r.body == want, "body", "body {} want {}", show_short(&r.body), show_short(&want));
        ensure!(r.status == m.status, "status", "status {} want {}", r.status, m.status);
    }
    Ok(())
}
fn token(rng: &mut Rng, i: usize, k: u8) -> Act {
    let n = rng.below(1000);
    let b = match rng.below(4) { 0 => format!("[{}{}{}é]", k as char, i, n).into_bytes(), 1 => vec![0xff, k, i as u8, n as u8], 2 => format!("({}{}{})", k as char, i, n).into_bytes(), _ => vec![] };
    Act::Add(b, rng.chance(1, 2))
}
fn gen_spec(rng: &mut Rng, i: usize, aborts: bool) -> FSpec {
    let a = if aborts { 1 } else { 0 };
    let begin = match rng.below(8) { 0 if a > 0 => Act::Silent, 1 if a > 0 && rng.chance(1, 2) => Act::Abort, 2..=4 => token(rng, i, b'b'), _ => Act::Nothing };
    let end = match rng.below(8) { 0 if a > 0 => Act::Silent, 1 if a > 0 => Act::Abort, 2..=4 => token(rng, i, b'e'), _ => Act::Nothing };
    let rule = match rng.below(13) { 0 | 1 => Rule::Wrap, 2 => Rule::DropSome, 3 => Rule::Shorten, 4 => Rule::Twice, 5 => Rule::Reverse, 6 | 7 if a > 0 => Rule::SilentSome, 8 | 9 if a > 0 => Rule::AbortSome, 10 => Rule::Empty, 11 => Rule::Wrap, _ => Rule::Pass };
    FSpec { begin, status: if rng.chance(1, 4) { Some(*rng.pick(&[200u16, 201, 202, 403, 500, 404])) } else { None }, rule, salt: rng.next(), end }
}
/// C20's share: what the operations of a stream report when filters change the size of the data.
pub fn told_case(rng: &mut Rng, cov: &mut Cov) -> CaseResult {
    match stack_case(rng, cov, false) { Err(v) => match &v.sig[..] { "told" | "panic" | "malformed" => Err(v), _ => Ok(()) }, o => o }
}
fn stack_case(rng: &mut Rng, cov: &mut Cov, aborts: bool) -> CaseResult {
    // many filters, or many pieces
    let many = big() && rng.chance(1, 2);
    let crowd = big() && !many && rng.chance(1, 2);
    let n = if crowd { rng.range(31, 300) } else if big() && !many { rng.range(6, 30) } else { *rng.pick(&[0usize, 1, 1, 2, 2, 2, 3, 3, 3, 4, 5]) };
    let mut specs: Vec<FSpec> = (0..n).map(|i| gen_spec(rng, i, aborts)).collect();
    if crowd { // most of them let everything pass, or nothing would reach the last ones
        let lively = rng.range(1, 12);
        for s in specs.iter_mut() { if !rng.chance(lively, n) { s.rule = if rng.chance(1, 8) { Rule::Wrap } else { Rule::Pass }; s.begin = Act::Nothing; s.end = Act::Nothing; s.status = None; } }
    }
    if aborts { // not everything at once, or only the first would ever be seen
        let keep = rng.below(n.max(1));
        if rng.chance(2, 3) { for (i, s) in specs.iter_mut().enumerate() { if i != keep { if s.begin == Act::Abort || (s.begin == Act::Silent && i % 2 == 0) { s.begin = Act::Nothing } if s.end == Act::Abort { s.end = Act::Nothing } if let Rule::AbortSome = s.rule { s.rule = Rule::Pass } } } }
    }
    let nreq = if many { 1 } else { rng.range(1, 4) };
    let max = if many { *rng.pick(&[3usize, 12, 40]) } else if crowd { *rng.pick(&[12usize, 12, 200]) } else { *rng.pick(&[12usize, 12, 200, 9000]) };
    let fop = |rng: &mut Rng| match rng.below(8) { 0 | 1 => FOp::Send(Piece::gen(rng, max)), 2..=4 => FOp::Try(Piece::gen(rng, max)), 5 | 6 => { let b = Piece { kind: 0, ..Piece::gen(rng, max.min(8000)) }.data; match rng.below(4) { 0 => FOp::Write(b), 1 if !b.is_empty() => FOp::Copy(b), 2 if !b.is_empty() => FOp::Buf(b), _ => FOp::Once(b) } } _ => FOp::Flush };
    let mut kinds = vec![]; let mut fins = vec![]; let mut input = vec![];
    for id in 0..nreq {
        let kind = match rng.below(12) { 0 => 1, 1 => 2, 2 => 3, _ => 0 };
        let fin = if kind > 0 { FFin::Drop } else { match rng.below(10) { 0 => FFin::Drop, 1..=3 => FFin::Sized(Piece::gen(rng, max), rng.below(3) as u8), 4..=8 => { let k = if many { rng.range(200, 2000) } else { rng.below(7) }; FFin::Chunked((0..k).map(|_| fop(rng)).collect(), rng.chance(2, 3)) } _ => { let k = rng.below(4); FFin::Raw((0..k).map(|_| fop(rng)).collect()) } } };
        let (m, t) = match kind { 0 => ("GET", format!("/h?p={}", id)), 1 => ("GET", format!("/h?p={}&stop=1", id)), 2 => ("GET", format!("/nothing?p={}", id)), _ => ("CONNECT", "h:80".to_string()) };
        input.extend(request(m, t.as_bytes(), &[("Host", b"h")], b""));
        kinds.push(kind); fins.push(fin);
    }
    // a handler that announces a length of its own, which is not that of the filtered content
    let lens: Vec<Option<u64>> = fins.iter().map(|f| match f { FFin::Drop | FFin::Sized(..) if rng.chance(1, 6) => Some(*rng.pick(&[0u64, 1, 5, 40, 1_000_000])), _ => None }).collect();
    let sh = Arc::new(Shared::default());
    let mut router = DefaultRouter::<Conductor>::new();
    router.build().path("h").then().on_get(Conductor { fins: fins.clone(), lens: lens.clone(), sh: sh.clone() });
    let mut server = Server::new(router);
    server.global = Global::from(Box::new(77u64) as Box<_>);
    server.keep_alive = crate::bodies::keep(0);
    server.context_filters.push(Box::new(Tag));
    for (i, s) in specs.iter().enumerate() { server.response_filters.push(Box::new(Probe { i, spec: s.clone(), sh: sh.clone() })); }
    let served = serve(&server.build(), Script::new(input), true);
    cov.max("max filters", n as u64);
    let what = format!("filters {:#?}\nlengths announced by the handler {:?}\nrequests {:?}", specs, lens, kinds.iter().zip(&fins).collect::<Vec<_>>());
    if let End::HandlerPanic(p) | End::ParsePanic(p) = served.end { return bad("panic", format!("{}\n{}", p, what)); }
    let rs = parse_all(&served.out, &[]).map_err(|e| Violation { sig: "malformed".into(), detail: format!("{}\n{}\nout {}", e, what, show_short(&served.out)) })?;
    ensure!(rs.len() == nreq, "count", "{} responses to {} requests\n{}\nout {}", rs.len(), nreq, what, show_short(&served.out));
    let bad_global = *sh.global_bad.lock().unwrap();
    ensure!(bad_global == 0, "storage", "storage or global data not there ({})\n{}", bad_global, what);
    let calls = sh.calls.lock().unwrap();
    let mut anon = 0;
    for id in 0..nreq {
        let key = if kinds[id] == 3 { if n > 0 { anon -= 1; } anon } else { id as i64 };
        let mine: Vec<&Call> = calls.iter().filter(|c| c.req == key && n > 0).collect();
        let told = sh.results.lock().unwrap().get(&(id as i64)).cloned().unwrap_or_default();
        let status = match kinds[id] { 0 => 200, 1 => 401, 2 => 404, _ => 400 };
        let handled = kinds[id] == 0;
        let check = |early: bool| { let m = model(&specs, &fins[id], status, early); compare(&m, &mine, &told, &rs[id], &fins[id], n, handled).map(|_| m) };
        let m = match check(false) { Ok(m) => m, Err(v) => match if specs.iter().any(|s| s.begin == Act::Silent) { check(true) } else { Err(v.clone()) } { Ok(m) => m, Err(_) => return bad(&v.sig.clone(), format!("response {} ({:?}): {}\n{}\ncalls {:?}\ntold {:?}", id, fins[id], v.detail, what, mine, told)) } };
        cov.add("filter calls", mine.len() as u64);
        if m.begin_failed.is_some() { cov.count("failed beginnings"); } else if m.failed { cov.count("failed in content or end"); }
        if m.told.iter().any(|t| if let Told::Err(_) = t { true } else { false }) { cov.count("responses with reported errors"); }
        cov.count(match fins[id] { FFin::Drop => if handled { "dropped" } else { "rejected" }, FFin::Sized(..) => "sized", FFin::Chunked(..) => "chunked", FFin::Raw(_) => "raw" });
        cov.max("max longest trace", mine.len() as u64);
        if mine.len() >= 3 && (!aborts || m.failed || specs.iter().any(|s| s.begin == Act::Silent || s.end == Act::Silent || if let Rule::SilentSome = s.rule { true } else { false })) { cov.nontrivial(&(&specs, &fins[id])); }
    }
    ensure!(calls.iter().all(|c| c.req >= anon && c.req < nreq as i64), "storage", "calls outside of any request\n{}", what);
    cov.sample(|| what.replace('\n', " ").split_whitespace().collect::<Vec<_>>().join(" "));
    Ok(())
}

// ---- C23
#[derive(Clone, Debug, Hash)]
enum Edit { Path(Vec<u8>), Asterisk, Method(u8), Header(String), Unheader, Query(String, String), ReadBody(usize), Fragment(String), Address(u16), Abort(u16), AbortIfHeader(usize, u16), Var(String) }
/// The request as a filter or handler sees it.
#[derive(Clone, Debug, PartialEq, Hash)]
struct View { path: Option<Vec<u8>>, method: String, chain: Vec<String>, query: BTreeMap<Vec<u8>, Vec<u8>>, fragment: Option<Vec<u8>>, port: u16, body: Vec<u8>, vars: BTreeMap<Vec<u8>, Vec<u8>>, trail: Vec<usize> }
fn view(c: &Context, trail: Vec<usize>) -> View {
    let params = |p: &rustful::context::Parameters| p.iter().map(|(k, v)| (k.as_bytes().to_vec(), v.as_bytes().to_vec())).collect();
    View { path: c.uri_path.as_path().map(|p| p.as_bytes().to_vec()), method: if super::targets::views_agree(&c.uri_path) { c.method.to_string() } else { format!("views of {:?} disagree", c.uri_path) }, chain: c.headers.get_raw("x-chain").map(|v| v.iter().map(|v| show(v)).collect()).unwrap_or_default(), query: params(&c.query), fragment: c.fragment.as_ref().map(|f| f.as_bytes().to_vec()), port: c.address.port(), body: vec![], vars: params(&c.variables), trail }
}
struct Trail(Vec<usize>);
struct Editor { i: usize, edits: Vec<Edit>, log: Arc<Mutex<Vec<(usize, usize, View)>>>, req: Arc<std::sync::atomic::AtomicUsize> }
const METHODS: [&str; 4] = ["GET", "POST", "PUT", "PATCH"];
fn method(k: u8) -> Method { METHODS[k as usize].parse().unwrap() }
impl ContextFilter for Editor {
    fn modify(&self, f: FilterContext, c: &mut Context) -> ContextAction {
        use std::sync::atomic::Ordering::SeqCst;
        let mut trail = f.storage.remove::<Trail>().map_or(vec![], |t| t.0);
        if self.i == 0 { self.req.fetch_add(1, SeqCst); }
        let mut v = view(c, trail.clone());
        trail.push(self.i);
        f.storage.insert(Trail(trail));
        let mut action = ContextAction::next();
        for e in &self.edits { match e {
            Edit::Path(p) => c.uri_path = UriPath::Path(p.clone().into()),
            Edit::Asterisk => c.uri_path = UriPath::Asterisk,
            Edit::Method(k) => c.method = method(*k),
            Edit::Header(h) => { let mut old = c.headers.get_raw("x-chain").map(|v| v.iter().map(|v| v.to_vec()).collect()).unwrap_or_else(Vec::new); old.push(h.as_bytes().to_vec()); c.headers.set_raw("x-chain", old); }
            Edit::Unheader => { c.headers.remove_raw("x-chain"); }
            Edit::Query(k, x) => { c.query.insert(k.clone(), x.clone()); }
            Edit::ReadBody(n) => { c.body.by_ref().take(*n as u64).read_to_end(&mut v.body).unwrap(); }
            Edit::Fragment(s) => c.fragment = Some(s.clone().into()),
            Edit::Address(p) => c.address.set_port(*p),
            Edit::Var(s) => { c.variables.insert(s.clone(), "filter".to_string()); }
            Edit::Abort(s) => { action = ContextAction::abort(StatusCode::from_u16(*s)); break; }
            Edit::AbortIfHeader(n, s) => if c.headers.get_raw("x-chain").map_or(0, |v| v.iter().count()) >= *n { action = ContextAction::abort(StatusCode::from_u16(*s)); break; },
        } }
        self.log.lock().unwrap().push((self.req.load(SeqCst), self.i, v));
        action
    }
}
struct Witness { name: &'static str, log: Arc<Mutex<Vec<(usize, &'static str, View)>>>, req: Arc<std::sync::atomic::AtomicUsize> }
impl Handler for Witness {
    fn handle(&self, mut c: Context, r: Response) {
        let trail = r.filter_storage().get::<Trail>().map_or(vec![], |t| t.0.clone());
        let mut v = view(&c, trail);
        c.body.read_to_end(&mut v.body).unwrap();
        self.log.lock().unwrap().push((self.req.load(std::sync::atomic::Ordering::SeqCst), self.name, v));
        drop(c);
        r.send(self.name);
    }
}
struct TrailOut(Arc<Mutex<Vec<Vec<usize>>>>);
impl ResponseFilter for TrailOut {
    fn begin(&self, c: FilterContext, s: StatusCode, _: &mut Headers) -> (StatusCode, ResponseAction<'_>) { self.0.lock().unwrap().push(c.storage.get::<Trail>().map_or(vec![], |t| t.0.clone())); (s, ResponseAction::Next(None)) }
    fn write<'a>(&'a self, _: FilterContext, d: Option<Data<'a>>) -> ResponseAction<'a> { ResponseAction::Next(d) }
    fn end(&self, _: FilterContext) -> ResponseAction<'_> { ResponseAction::Next(None) }
}
const PATHS: [&str; 5] = ["/a", "/b/c", "/d/x1", "/d/%zz", "/nothing"];
fn context_case(rng: &mut Rng, cov: &mut Cov) -> CaseResult {
    let crowd = big() && rng.chance(1, 3);
    let n = if crowd { rng.range(41, 400) } else if big() { rng.range(7, 40) } else { rng.range(1, 6) };
    let path = |rng: &mut Rng| -> Vec<u8> { match rng.below(8) { 0..=4 => PATHS[rng.below(5)].as_bytes().to_vec(), 5 => b"/d/\xff\xfe".to_vec(), 6 => "/d/é e".as_bytes().to_vec(), _ => b"/a?not=query".to_vec() } };
    let status = [200u16, 201, 302, 400, 401, 403, 404, 429, 500, 503];
    let edits: Vec<Vec<Edit>> = (0..n).map(|i| { let k = if crowd && !rng.chance(12, n) { 0 } else { rng.below(4) }; (0..k).map(|_| match rng.below(13) {
        0 | 1 => Edit::Path(path(rng)), 2 => if rng.chance(1, 2) { Edit::Asterisk } else { Edit::Path(path(rng)) }, 3 => Edit::Method(rng.below(4) as u8), 4 | 5 => Edit::Header(format!("f{}", i)), 6 => if rng.chance(1, 3) { Edit::Unheader } else { Edit::Header(format!("g{}", i)) },
        7 => Edit::Query(rng.pick(&["q", "r", "é"]).to_string(), format!("v{}", i)), 8 => Edit::ReadBody(rng.below(12)), 9 => Edit::Fragment(format!("s{}", i)), 10 => Edit::Address(rng.range(1, 60000) as u16),
        11 => if rng.chance(1, 3) { Edit::Abort(*rng.pick(&status)) } else { Edit::Header("h".into()) }, _ => Edit::AbortIfHeader(rng.range(1, 5), *rng.pick(&status)) }).collect() }).collect();
    cov.max("max filters", n as u64);
    let nreq = rng.range(1, if big() { 30 } else { 5 });
    let mut input = vec![]; let mut reqs = vec![];
    for _ in 0..nreq {
        let p = PATHS[rng.below(5)]; let m = rng.below(4) as u8; let star = rng.chance(1, 12);
        let nh = rng.below(3); let body: Vec<u8> = { let k = rng.below(30); (0..k).map(|i| b'a' + i as u8 % 26).collect() };
        let q = if rng.chance(1, 2) { "?q=orig&z=1" } else { "" }; let fr = if rng.chance(1, 6) { "#frag" } else { "" };
        let mut hs: Vec<(&str, &[u8])> = vec![("Host", b"h")];
        for _ in 0..nh { hs.push(("X-Chain", b"client")); }
        let len = body.len().to_string();
        hs.push(("Content-Length", len.as_bytes()));
        let t = if star { "*".to_string() } else { format!("{}{}{}", p, q, fr) };
        input.extend(request(METHODS[m as usize], t.as_bytes(), &hs, &body));
        let mut query = BTreeMap::new();
        if !q.is_empty() && !star { query.insert(b"q".to_vec(), b"orig".to_vec()); query.insert(b"z".to_vec(), b"1".to_vec()); }
        reqs.push((View { path: if star { None } else { Some(crate::wire::pct_decode(p.as_bytes())) }, method: METHODS[m as usize].into(), chain: vec!["client".to_string(); nh], query, fragment: if fr.is_empty() || star { None } else { Some(b"frag".to_vec()) }, port: 4711, body: vec![], vars: BTreeMap::new(), trail: vec![] }, body, t));
    }
    let flog = Arc::new(Mutex::new(vec![])); let hlog = Arc::new(Mutex::new(vec![])); let tlog = Arc::new(Mutex::new(vec![]));
    let req = Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let w = |name| Witness { name, log: hlog.clone(), req: req.clone() };
    let mut router = DefaultRouter::<Witness>::new();
    router.build().many(|node| { node.path("a").then().on_get(w("a-get")); node.path("a").then().on_post(w("a-post")); node.path("b/c").then().on_put(w("bc-put")); node.path("b/c").then().on_get(w("bc-get")); node.path("d/:v").then().on_get(w("d-get")); node.path("d/:v").then().on_post(w("d-post")); });
    let mut server = Server::new(router);
    server.keep_alive = crate::bodies::keep(0);
    for (i, e) in edits.iter().enumerate() { server.context_filters.push(Box::new(Editor { i, edits: e.clone(), log: flog.clone(), req: req.clone() })); }
    let watched = rng.chance(3, 4);
    if watched { server.response_filters.push(Box::new(TrailOut(tlog.clone()))); }
    let served = serve(&server.build(), Script::new(input), true);
    let what = format!("filters {:?}\nrequests {:?}", edits, reqs.iter().map(|r| (&r.0.method, &r.2, r.0.chain.len(), r.1.len())).collect::<Vec<_>>());
    if let End::HandlerPanic(p) | End::ParsePanic(p) = served.end { return bad("panic", format!("{}\n{}", p, what)); }
    let rs = parse_all(&served.out, &[]).map_err(|e| Violation { sig: "malformed".into(), detail: format!("{}\n{}\nout {}", e, what, show_short(&served.out)) })?;
    ensure!(rs.len() == nreq, "count", "{} responses to {} requests\n{}\nout {}", rs.len(), nreq, what, show_short(&served.out));
    let (flog, hlog, tlog) = (flog.lock().unwrap(), hlog.lock().unwrap(), tlog.lock().unwrap());
    ensure!(tlog.len() == if watched { nreq } else { 0 }, "response filters", "response filters began {} times for {} requests\n{}", tlog.len(), nreq, what);
    for (k, (v0, body, _)) in reqs.iter().enumerate() {
        let mut v = v0.clone(); let mut body = &body[..];
        let mut seen = vec![]; let mut abort = None;
        for (i, es) in edits.iter().enumerate() {
            let mut s = v.clone(); v.trail.push(i);
            for e in es { match e {
                Edit::Path(p) => v.path = Some(p.clone()), Edit::Asterisk => v.path = None, Edit::Method(m) => v.method = METHODS[*m as usize].into(),
                Edit::Header(h) => v.chain.push(h.clone()), Edit::Unheader => v.chain.clear(), Edit::Query(a, b) => { v.query.insert(a.clone().into_bytes(), b.clone().into_bytes()); }
                Edit::ReadBody(n) => { let n = (*n).min(body.len()); s.body.extend_from_slice(&body[..n]); body = &body[n..]; }
                Edit::Fragment(f) => v.fragment = Some(f.clone().into_bytes()), Edit::Address(p) => v.port = *p, Edit::Var(n) => { v.vars.insert(n.clone().into_bytes(), b"filter".to_vec()); }
                Edit::Abort(st) => { abort = Some(*st); break; }
                Edit::AbortIfHeader(n, st) => if v.chain.len() >= *n { abort = Some(*st); break; },
            } }
            seen.push((i, s));
            if abort.is_some() { break; }
        }
        let got: Vec<(usize, View)> = flog.iter().filter(|l| l.0 == k + 1).map(|l| (l.1, l.2.clone())).collect();
        ensure!(got.len() == seen.len() && got.iter().zip(&seen).all(|(a, b)| a.0 == b.0), "order", "request {}: filters asked {:?}, want {:?}\n{}", k, got.iter().map(|g| g.0).collect::<Vec<_>>(), seen.iter().map(|g| g.0).collect::<Vec<_>>(), what);
        for (g, s) in got.iter().zip(&seen) { ensure!(g == s, "view", "request {}: filter {} sees {:?}\nwant {:?}\n{}", k, g.0, g.1, s.1, what); }
        let handled: Vec<&(usize, &str, View)> = hlog.iter().filter(|l| l.0 == k + 1).collect();
        let r = &rs[k];
        ensure!(!watched || tlog[k] == v.trail, "storage", "request {}: response filters find the trail {:?}, want {:?}\n{}", k, tlog[k], v.trail, what);
        let expect = |names: &[(&str, &str)]| names.iter().find(|n| n.0 == v.method).map(|n| n.1.to_string());
        let want: Result<String, u16> = match (abort, &v.path) {
            (Some(s), _) => Err(s),
            (None, None) => Err(200),
            (None, Some(p)) => {
                let mut segs: Vec<&[u8]> = p.split(|b| *b == b'/').collect(); segs.remove(0);
                let names: &[(&str, &str)] = if segs == [b"a"] { &[("GET", "a-get"), ("POST", "a-post")] } else if segs == [&b"b"[..], b"c"] { &[("PUT", "bc-put"), ("GET", "bc-get")] } else if segs.len() == 2 && segs[0] == b"d" { &[("GET", "d-get"), ("POST", "d-post")] } else { &[] };
                if names.is_empty() { Err(404) } else { if segs[0] == b"d" { v.vars.insert(b"v".to_vec(), segs[1].to_vec()); } expect(names).ok_or(405) }
            }
        };
        match want {
            Ok(name) => {
                ensure!(handled.len() == 1 && handled[0].1 == name, "dispatch", "request {}: handlers {:?}, want {}\n{}", k, handled, name, what);
                v.body = body.to_vec();
                ensure!(handled[0].2 == v, "view", "request {}: handler sees {:?}\nwant {:?}\n{}", k, handled[0].2, v, what);
                ensure!(r.status == 200 && r.body == name.as_bytes(), "answer", "request {}: {:?}\n{}", k, r, what);
                cov.count("handled");
            }
            Err(s) => {
                ensure!(handled.is_empty(), "dispatch", "request {}: handlers {:?}, want none\n{}", k, handled, what);
                ensure!(r.status == s, "answer", "request {}: status {} want {}\n{}", k, r.status, s, what);
                if abort.is_some() { ensure!(r.body.is_empty() && r.framing == Framing::Length(0), "answer", "request {}: {:?} want no body\n{}", k, r, what); }
                cov.count(if abort.is_some() { "aborted" } else if v.path.is_none() { "asterisk" } else { "rejected" });
            }
        }
        cov.add("filter calls", got.len() as u64);
        if got.len() > 1 || abort.is_some() { cov.nontrivial(&(&edits, v0, v)); }
    }
    ensure!(flog.iter().all(|l| l.0 >= 1 && l.0 <= nreq), "order", "filters asked outside of a request\n{}", what);
    cov.sample(|| what.clone());
    Ok(())
}

pub fn run(r: &mut Run) {
    match &r.id.clone()[..] {
        "C21" => { r.cases("stacks", 30_000, 3_000_000, |r, c| stack_case(r, c, false)); r.large("stacks", 300, 30_000, |r, c| stack_case(r, c, false)); }
        "C22" => { r.cases("aborting stacks", 40_000, 4_000_000, |r, c| stack_case(r, c, true)); r.large("aborting stacks", 300, 30_000, |r, c| stack_case(r, c, true)); }
        "C23" => { r.cases("context filters", 30_000, 3_000_000, context_case); r.large("context filters", 300, 30_000, context_case); }
        _ => unreachable!(),
    }
}
