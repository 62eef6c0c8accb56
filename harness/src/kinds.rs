//! C35 C36: handlers of every form; contents and errors converted.
use crate::core::*;
use crate::routes::*;
use crate::wire::*;
use rustful::content_type;
use rustful::handler::{ApplyContext, BuilderContext, FromHandler, HandleRequest};
use rustful::response::{Data, FileError};
use rustful::{Context, DefaultRouter, Handler, Method, Response, Server, StatusCode};
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::error::Error as StdError;
use std::io::{self, Read};
use std::sync::Arc;

/// What a handler of any form was given.
#[derive(Clone, Debug, PartialEq)]
struct Call { id: usize, seen: String, body: Vec<u8>, links: Vec<(String, bool)>, described: Vec<(String, Option<String>)>, forward: Option<String> }
thread_local!(static CALLS: RefCell<Vec<Call>> = RefCell::new(vec![]));

fn run_handler(id: usize, mut c: Context, mut r: Response) {
    let seen = see(id, &c, &r);
    let mut body = vec![];
    let _ = c.body.read_to_end(&mut body);
    let name = |l: &rustful::context::hypermedia::Link| format!("{} {:?}", l.method.as_ref().map(|m| m.to_string()).unwrap_or_default(), l.path.iter().map(|p| (format!("{:?}", p.ty), show(p.label.as_ref()))).collect::<Vec<_>>());
    let links = c.hyperlinks.iter().map(|l| (name(l), l.handler.is_some())).collect();
    let described = c.hyperlinks.iter().filter_map(|l| l.handler.map(|h| (l.method.as_ref().map(|m| m.to_string()).unwrap_or_default(), h.description().map(|d| d.into_owned())))).collect();
    let query: BTreeMap<Vec<u8>, Vec<u8>> = c.query.iter().map(|(k, v)| (k.as_ref().to_vec(), v.as_ref().to_vec())).collect();
    let forwarded = c.headers.get_raw("x-forward").and_then(|v| v.get(0)).and_then(|v| String::from_utf8_lossy(v).parse::<usize>().ok());
    let with_handler: Vec<_> = c.hyperlinks.iter().filter_map(|l| l.handler.map(|h| (l.method.as_ref().map(|m| m.to_string()).unwrap_or_default(), h))).collect();
    let already = CALLS.with(|l| l.borrow().len()) > 0;
    let to = match forwarded { Some(n) if !already && !with_handler.is_empty() => Some(with_handler[n % with_handler.len()].clone()), _ => None };
    CALLS.with(|l| l.borrow_mut().push(Call { id, seen: format!("{:?} {:?}", seen, query), body: body.clone(), links, described, forward: to.as_ref().map(|t| t.0.clone()) }));
    // on to one of the others
    if let Some((_, h)) = to { return h.handle(c, r); }
    r.set_status(StatusCode::from_u16(200 + id as u16 % 4));
    r.headers_mut().set_raw("X-Id", vec![format!("{}", id).into_bytes()]);
    let text = format!("h{} got {} bytes", id, body.len());
    if id % 2 == 0 { r.send(text) } else { let mut ch = r.into_chunked(); ch.send(text); ch.send(&body[..]); }
}
struct Plain(usize);
impl Handler for Plain {
    fn handle(&self, c: Context, r: Response) { run_handler(self.0, c, r) }
    fn description(&self) -> Option<Cow<'static, str>> { Some(format!("described {}", self.0).into()) }
}
type F = fn(Context, Response);
macro_rules! functions { ($($n: ident $i: expr),*) => { $(fn $n(c: Context, r: Response) { run_handler($i, c, r) })* const FUNCTIONS: &[F] = &[$($n),*]; } }
functions!(f0 0, f1 1, f2 2, f3 3, f4 4, f5 5, f6 6, f7 7, f8 8, f9 9, f10 10, f11 11);
fn closure(id: usize) -> impl Fn(Context, Response) + Send + Sync + 'static { move |c: Context, r: Response| run_handler(id, c, r) }
/// One of every form; the second: whether it has a description.
fn boxed(id: usize, form: usize) -> (Box<dyn Handler>, bool) {
    match form % 8 {
        0 => (Box::new(Plain(id)), true),
        1 => (Box::new(closure(id)), false),
        2 => (Box::new(FUNCTIONS[id]), false),
        3 => (Box::new(Arc::new(Plain(id))), true),
        4 => (Box::new(Arc::new(closure(id))), false),
        5 => { let (b, d) = boxed(id, form / 8 % 4); (Box::new(b), d) }
        6 => { let (b, d) = boxed(id, form / 8 % 5); (Box::new(Arc::new(b)), d) }
        _ => (Box::new(Arc::new(Arc::new(Arc::new(Plain(id))))), true),
    }
}
struct Done { calls: Vec<Call>, out: Vec<u8>, end: String }
fn without_date(out: &[u8]) -> Vec<u8> {
    let s: Vec<&[u8]> = out.split(|c| *c == b'\n').filter(|l| !l.starts_with(b"Date:")).collect();
    s.join(&b'\n')
}
fn ask<R: rustful::handler::HandleRequest + 'static>(inst: &rustful::server::ServerInstance<R>, req: &[u8]) -> Done {
    CALLS.with(|l| l.borrow_mut().clear());
    let s = serve(inst, Script::new(req.to_vec()), false);
    Done { calls: CALLS.with(|l| std::mem::take(&mut *l.borrow_mut())), out: without_date(&s.out), end: format!("{:?}", match s.end { End::HandlerPanic(p) => p, End::ParsePanic(p) => p, _ => String::new() }) }
}
fn same(a: &Done, b: &Done, described: &dyn Fn(usize) -> bool, what: &dyn Fn() -> String) -> CaseResult {
    ensure!(b.end == "\"\"", "panic", "{} for {}", b.end, what());
    ensure!(a.calls.len() == b.calls.len(), "calls", "{} calls, {} with plain handlers, for {}", b.calls.len(), a.calls.len(), what());
    for (x, y) in a.calls.iter().zip(&b.calls) {
        ensure!(x.id == y.id && x.seen == y.seen && x.body == y.body && x.links == y.links && x.forward == y.forward, "given", "{:?}\nplain handlers get {:?}\nfor {}", y, x, what());
        ensure!(x.described.len() == y.described.len(), "described", "{:?} {:?} {}", y.described, x.described, what());
        for (p, q) in x.described.iter().zip(&y.described) {
            let id: usize = p.1.as_ref().and_then(|d| d.rsplit(' ').next().and_then(|n| n.parse().ok())).unwrap_or(0);
            let want = if described(id) { p.1.clone() } else { None };
            ensure!(q.0 == p.0 && q.1 == want, "described", "a link describes its handler as {:?}, expected {:?} for {}", q, (&p.0, want), what());
        }
    }
    ensure!(a.out == b.out, "response", "{:?}\nwith plain handlers {:?}\nfor {}", show_short(&b.out), show_short(&a.out), what());
    Ok(())
}
fn table_of<X: Handler, Y: FromHandler<X> + HandleRequest + ApplyContext + 'static>(rng: &mut Rng, cov: &mut Cov, form: &str, make: &dyn Fn(usize) -> X, described: &dyn Fn(usize) -> bool) -> CaseResult {
    let n = rng.range(1, 9);
    let regs = table(rng, n, true);
    let model = Model::new(&regs, &[]);
    let mut plain = DefaultRouter::<Plain>::new();
    let mut router = DefaultRouter::<Y>::new();
    for r in &regs {
        let route = render(rng, &r.route).unwrap();
        plain.build().path(&route).then().on(r.method.clone().unwrap(), Plain(r.id));
        router.build().path(&route).then().on(r.method.clone().unwrap(), make(r.id));
    }
    let links = rng.chance(2, 3);
    plain.find_hyperlinks = links;
    router.find_hyperlinks = links;
    let (p, i) = (Server::new(plain).build(), Server::new(router).build());
    for q in 0..rng.range(2, 6) {
        let path = path_for(rng, &regs);
        let raw = raw_path(rng, &path);
        let segs = model_segments(&raw);
        let m = if rng.chance(3, 4) { rng.pick(&regs).method.clone().unwrap() } else { any_method(rng) };
        if m == Method::Head || m == Method::Connect { continue; }
        let mut target = encode_path(rng, &raw);
        if rng.chance(1, 3) { target.extend_from_slice(b"?k=v&x=%FF"); }
        let body = if rng.chance(1, 2) && m != Method::Get { let n = rng.size(2000); rng.bytes(n) } else { vec![] };
        let token = format!("t{}", q);
        let fwd = format!("{}", rng.below(5));
        let mut h: Vec<(&str, &[u8])> = vec![("X-Token", token.as_bytes())];
        if rng.chance(1, 2) { h.push(("X-Forward", fwd.as_bytes())); }
        let length = format!("{}", body.len());
        if !body.is_empty() || rng.chance(1, 2) && m != Method::Get { h.push(("Content-Length", length.as_bytes())); }
        let req = request(m.as_ref(), &target, &h, &body);
        let (a, b) = (ask(&p, &req), ask(&i, &req));
        let what = || format!("{} {} with {:?} (hyperlinks {}) on handlers as {}: {}", m, show(&target), h.iter().map(|h| format!("{}: {}", h.0, show(h.1))).collect::<Vec<_>>(), links, form, show_regs(&regs));
        same(&a, &b, described, &what)?;
        let want = model.dispatch(&segs, &m);
        ensure!(b.calls.first().map(|c| c.id) == want.as_ref().map(|w| w.id), "wrong handler", "{:?} ran, expected {:?} for {}", b.calls.first().map(|c| c.id), want.map(|w| w.id), what());
        if let Some(c) = b.calls.first() {
            ensure!(c.body == body, "body", "{} bytes of {} for {}", c.body.len(), body.len(), what());
            if let Some(ref to) = c.forward {
                let ok: Vec<usize> = model.candidates(&segs).iter().filter_map(|(pos, _)| METHODS.iter().find(|x| x.to_string() == *to).and_then(|x| model.at(pos, x)).map(|r| r.id)).collect();
                ensure!(b.calls.len() == 2 && ok.contains(&b.calls[1].id), "forwarded", "a link to {} leads to {:?}, expected one of {:?} for {}", to, b.calls.get(1).map(|c| c.id), ok, what());
                cov.count("forwarded through a link");
            } else { ensure!(b.calls.len() == 1, "calls", "{} calls for {}", b.calls.len(), what()); }
            cov.add("descriptions compared", c.described.len() as u64);
            cov.count("handled");
            cov.nontrivial(&(form, &target, m.to_string(), show_regs(&regs)));
            cov.sample(|| format!("{} -> h{}", what(), c.id));
        } else { cov.count("rejected"); }
    }
    // and on its own, without any router
    let id = rng.below(FUNCTIONS.len());
    let (p, i) = (Server::new(Plain(id)).build(), Server::new(Y::from_handler(BuilderContext::new(), make(id))).build());
    let req = request("POST", b"/some/path?x=y", &[("X-Token", b"alone"), ("Content-Length", b"7")], b"content");
    let (a, b) = (ask(&p, &req), ask(&i, &req));
    same(&a, &b, described, &|| format!("h{} alone as {}", id, form))?;
    ensure!(b.calls.len() == 1 && b.calls[0].id == id && b.calls[0].body == b"content", "alone", "{:?} for h{} as {}", b.calls, id, form);
    // the description, asked directly
    let d = make(id).description().map(|d| d.into_owned());
    let want = if described(id) { Some(format!("described {}", id)) } else { None };
    ensure!(d == want, "described", "{:?}, expected {:?} for h{} as {}", d, want, id, form);
    cov.count(form);
    Ok(())
}
fn forms(rng: &mut Rng, cov: &mut Cov) -> CaseResult {
    let pattern: Vec<usize> = (0..FUNCTIONS.len()).map(|_| rng.below(64)).collect();
    let no = |_: usize| false;
    let yes = |_: usize| true;
    let mixed = |i: usize| boxed(i, pattern[i]).1;
    match rng.below(10) {
        0 => table_of::<F, F>(rng, cov, "functions", &|i| FUNCTIONS[i], &no),
        1 => { let i = closure(0); fn go<X: Handler>(_: X, make: &dyn Fn(usize) -> X, rng: &mut Rng, cov: &mut Cov, optional: bool) -> CaseResult {
            if optional { table_of::<X, Option<X>>(rng, cov, "optional closures", make, &|_| false) } else { table_of::<X, X>(rng, cov, "closures", make, &|_| false) } }
            let optional = rng.chance(1, 2); go(i, &closure, rng, cov, optional) }
        2 => table_of::<Arc<Plain>, Arc<Plain>>(rng, cov, "shared handlers", &|i| Arc::new(Plain(i)), &yes),
        3 => table_of::<_, Arc<_>>(rng, cov, "shared closures", &|i| Arc::new(closure(i)), &no),
        4 => table_of::<_, Arc<Box<dyn Handler>>>(rng, cov, "shared boxes", &|i| Arc::new(boxed(i, pattern[i]).0), &mixed),
        5 => table_of::<_, Arc<Arc<F>>>(rng, cov, "shared functions", &|i| Arc::new(Arc::new(FUNCTIONS[i])), &no),
        6 => table_of::<_, Box<dyn Handler>>(rng, cov, "boxed boxes", &|i| -> Box<dyn Handler> { Box::new(boxed(i, pattern[i]).0) }, &mixed),
        7 => table_of::<_, Option<Box<dyn Handler>>>(rng, cov, "optional boxes", &|i| boxed(i, pattern[i]).0, &mixed),
        8 => table_of::<_, Option<Option<Plain>>>(rng, cov, "doubly optional handlers", &Plain, &yes),
        _ => table_of::<_, Box<dyn Handler>>(rng, cov, "boxes", &|i| boxed(i, pattern[i]).0, &mixed),
    }
}

// ---- C36
fn text(rng: &mut Rng) -> String { let n = rng.size(60); (0..n).map(|_| *rng.pick(&['a', 'Z', '0', ' ', '\n', 'é', 'ÿ', '漢', '😀', '\0', '\u{301}'])).collect() }
fn content(rng: &mut Rng) -> Vec<u8> {
    let mut b = if rng.chance(1, 2) { text(rng).into_bytes() } else { let n = rng.size(40); rng.bytes(n) };
    if big() { let n = rng.range(20_000, 2_000_000); while b.len() < n { if b.is_empty() { b.push(b'x'); } let c = b.clone(); b.extend(c); } }
    if rng.chance(1, 3) && !b.is_empty() { let i = rng.below(b.len()); b[i] ^= 1 << rng.below(8); }
    b
}
fn data(rng: &mut Rng, cov: &mut Cov) -> CaseResult {
    let b = content(rng);
    let s = String::from_utf8(b.clone()).ok();
    let copy = s.clone();
    let form = rng.below(9);
    let (name, d): (&str, Data) = match (form, &copy) {
        (0, Some(s)) => ("String", s.clone().into()),
        (1, Some(s)) => ("&str", (&s[..]).into()),
        (2, Some(s)) => ("String variant, owned", Data::String(Cow::Owned(s.clone()))),
        (3, Some(s)) => ("String variant, borrowed", Data::String(Cow::Borrowed(s))),
        (4, _) => ("&[u8]", (&b[..]).into()),
        (5, _) => ("Bytes variant, owned", Data::Bytes(Cow::Owned(b.clone()))),
        (6, _) => ("Bytes variant, borrowed", Data::Bytes(Cow::Borrowed(&b))),
        _ => ("Vec<u8>", b.clone().into()),
    };
    let what = || format!("{} of {:?}", name, show_short(&b));
    ensure!(d.as_bytes() == &b[..], "as_bytes", "{:?} from {}", show_short(d.as_bytes()), what());
    match (d.as_string(), &s) {
        (Ok(x), Some(s)) => ensure!(x == s, "as_string", "{:?} from {}", x, what()),
        (Err(e), None) => ensure!(e.valid_up_to() == std::str::from_utf8(&b).unwrap_err().valid_up_to(), "as_string", "{} from {}", e, what()),
        (x, _) => return bad("as_string", format!("{:?} from {}", x, what())),
    }
    let c = d.clone();
    ensure!(c.as_bytes() == &b[..], "clone", "{:?} from {}", show_short(c.as_bytes()), what());
    match (c.into_string(), &s) {
        (Ok(x), Some(s)) => ensure!(x == *s, "into_string", "{:?} from {}", x, what()),
        (Err(e), None) => ensure!(e.into_bytes() == b, "into_string", "the error lost the bytes of {}", what()),
        (x, _) => return bad("into_string", format!("{:?} from {}", x, what())),
    }
    ensure!(d.clone().into_bytes() == b, "into_bytes", "from {}", what());
    // sent in every form
    let sent = RefCell::new(Some((d.into_bytes(), s.clone())));
    let _ = sent.take();
    cov.count(name);
    cov.count(if s.is_some() { "UTF-8" } else { "not UTF-8" });
    cov.max("max bytes", b.len() as u64);
    if b.len() > 1 { cov.nontrivial(&(form, &b)); cov.sample(what); }
    Ok(())
}
const KINDS: &[io::ErrorKind] = &[io::ErrorKind::NotFound, io::ErrorKind::PermissionDenied, io::ErrorKind::BrokenPipe, io::ErrorKind::TimedOut, io::ErrorKind::Other, io::ErrorKind::UnexpectedEof, io::ErrorKind::InvalidInput];
thread_local!(static ASKED: RefCell<(usize, String, Option<String>)> = RefCell::new((0, String::new(), None)));
#[allow(deprecated)]
fn errors(rng: &mut Rng, cov: &mut Cov) -> CaseResult {
    let (k, msg) = (rng.below(KINDS.len()), text(rng));
    let io_error = || io::Error::new(KINDS[k], msg.clone());
    let shown = io_error().to_string();
    let carries = |e: &dyn StdError, own: &str, cause: bool, name: &str| -> CaseResult {
        let (d, g) = (e.to_string(), format!("{:?}", e));
        ensure!(d.contains(own), "display", "{} {:?} of {:?} {:?}", name, d, KINDS[k], own);
        ensure!(!g.is_empty(), "debug", "{}", name);
        let told = if cause { io_error().description().to_string() } else { own.to_string() };
        ensure!(e.description() == told, "description", "{} describes {:?} as {:?}", name, told, e.description());
        let c = e.cause().map(|c| c.to_string());
        ensure!(c == if cause { Some(own.to_string()) } else { None }, "cause", "{} has the cause {:?}, expected {:?}", name, c, if cause { Some(own) } else { None });
        Ok(())
    };
    carries(&rustful::Error::Filter(msg.clone()), &msg, false, "Filter error")?;
    let e: rustful::Error = io_error().into();
    carries(&e, &shown, true, "Io error")?;
    match e { rustful::Error::Io(e) => ensure!(e.kind() == KINDS[k] && e.to_string() == shown, "from", "{:?} from {:?}", e, shown), e => return bad("from", format!("{:?} from {:?}", e, shown)) }
    let e: FileError = FileError::Send(io_error());
    carries(&e, &shown, true, "Send error")?;
    let e: io::Error = e.into();
    ensure!(e.kind() == KINDS[k] && e.to_string() == shown, "into", "{:?} from a send error with {:?}", e, shown);
    ensure!(FileError::Send(io_error()).ignore_send_error().is_ok(), "ignore", "a send error with {:?} was not ignored", shown);
    match FileError::Send(io_error()).send_not_found("") { Err(FileError::Send(e)) if e.kind() == KINDS[k] && e.to_string() == shown => {}, _ => return bad("send_not_found", format!("changes a send error with {:?}", shown)) }
    ensure!(match FileError::Send(io_error()).recover_response() { Err(FileError::Send(e)) => e.kind() == KINDS[k] && e.to_string() == shown, _ => false }, "recover", "changes a send error with {:?}", shown);
    // the one that carries a response, which is still to be sent
    ASKED.with(|a| *a.borrow_mut() = (k, msg.clone(), None));
    let way = rng.below(4);
    let answer = match way { 0 => &b"recovered"[..], 1 => b"ignored", 2 => b"not found yet", _ => b"" };
    let status = if way == 2 && KINDS[k] == io::ErrorKind::NotFound { 404 } else { 200 };
    let h = move |_c: Context, mut r: Response| {
        let (k, msg) = ASKED.with(|a| { let a = a.borrow(); (a.0, a.1.clone()) });
        r.headers_mut().set_raw("X-Own", vec![b"kept".to_vec()]);
        let e = FileError::Open(io::Error::new(KINDS[k], msg.clone()), r);
        let shown = io::Error::new(KINDS[k], msg).to_string();
        let wrong = |w: String| ASKED.with(|a| a.borrow_mut().2 = Some(w));
        if !e.to_string().contains(&shown) { wrong(format!("displays as {:?}", e.to_string())); }
        if e.cause().map(|c| c.to_string()) != Some(shown.clone()) { wrong(format!("the cause is {:?}", e.cause().map(|c| c.to_string()))); }
        if format!("{:?}", e).is_empty() || !shown.is_empty() && e.description().is_empty() { wrong("no text".into()); }
        let same = |e: &io::Error| e.kind() == KINDS[k] && e.to_string() == shown;
        match way {
            0 => match e.recover_response() { Ok(r) => r.send("recovered"), Err(_) => wrong("nothing to recover".into()) },
            1 => match e.ignore_send_error() { Err((e, r)) => { if !same(&e) { wrong(format!("{:?} instead of being ignored", e)); } r.send("ignored") } Ok(()) => wrong("an error of opening was ignored".into()) },
            2 => match e.send_not_found("not found yet") {
                Ok(()) => if KINDS[k] != io::ErrorKind::NotFound { wrong("sent as not found".into()) },
                Err(FileError::Open(e, r)) => { if KINDS[k] == io::ErrorKind::NotFound || !same(&e) { wrong(format!("{:?} after send_not_found", e)); } r.send("not found yet") }
                Err(_) => wrong("an error of sending after send_not_found".into()),
            },
            _ => { let e: io::Error = e.into(); if !same(&e) { wrong(format!("became {:?}", e)); } }
        }
    };
    let inst = Server::new(h).build();
    let s = serve(&inst, Script::new(request("GET", b"/", &[], b"")), false);
    if let Some(w) = ASKED.with(|a| a.borrow_mut().2.take()) { return bad("open error", format!("an open error with {:?} {:?}: {}", KINDS[k], msg, w)); }
    let rs = match parse_all(&s.out, &[]) { Ok(r) => r, Err(e) => return bad("response", format!("{} for {:?}", e, show(&s.out))) };
    ensure!(rs.len() == 1 && rs[0].complete && rs[0].status == status && rs[0].body == answer && rs[0].headers_all("x-own") == vec![&b"kept"[..]], "open error", "the response of an open error becomes {:?}", show(&s.out));
    cov.count(["recovered", "not ignored", "sent if not found", "converted"][way]);
    cov.nontrivial(&(k, &msg));
    cov.sample(|| format!("{:?} {:?}", KINDS[k], msg));
    Ok(())
}

// ---- C37
type Mime = rustful::mime::Mime;
macro_rules! for_subs { ($v:ident, $top:tt, $t:expr, $($sub:tt $s:expr),*) => { $( $v.push((content_type!($top / $sub), [$t, $s], vec![])); $v.push((content_type!($top / $sub; Charset = Utf8), [$t, $s], vec![["charset", "utf-8"]])); )* } }
macro_rules! for_tops { ($v:ident, $($top:tt $t:expr),*) => { $( for_subs!($v, $top, $t, Star "*", Plain "plain", Html "html", Xml "xml", Javascript "javascript", Css "css", EventStream "event-stream", Json "json", WwwFormUrlEncoded "x-www-form-urlencoded", Msgpack "msgpack", OctetStream "octet-stream", FormData "form-data", Png "png", Gif "gif", Bmp "bmp", Jpeg "jpeg", Mpeg "mpeg", Mp4 "mp4", Ogg "ogg", "html" "html", "png" "png", "x-mine" "x-mine", "HTML" "HTML"); )* } }
type Written<'s> = (Mime, [&'s str; 2], Vec<[&'s str; 2]>);
fn written_out() -> Vec<Written<'static>> {
    let mut v = vec![];
    for_tops!(v, Star "*", Text "text", Image "image", Audio "audio", Video "video", Application "application", Multipart "multipart", Message "message", Model "model", "text" "text", "x-own" "x-own", "Text" "Text");
    v
}
fn name<'s>(rng: &mut Rng, store: &'s [String]) -> &'s str { match rng.below(4) { 0 => *rng.pick(&["text", "html", "image", "plain", "*", "charset", "utf-8", "boundary", "q", "application", "json"]), _ => { let i = rng.below(store.len()); &store[i] } } }
fn written(rng: &mut Rng, cov: &mut Cov) -> CaseResult {
    // mostly tokens; now and then anything
    let odd = rng.chance(1, 4);
    let store: Vec<String> = (0..6).map(|_| { if odd { let n = rng.range(1, 6); return (0..n).map(|_| *rng.pick(&['a', 'B', ' ', '\t', '"', '\\', ';', '=', '/', ',', '\u{e5}', '\u{10348}', '\0', '\n'])).collect(); } let most = if rng.chance(1, 20) { 300 } else { 9 }; let n = rng.range(1, most); (0..n).map(|_| *rng.pick(&b"abcxyzABZ0189-.+_!"[..]) as char).collect() }).collect();
    let (a, b, c, d, e, f) = (name(rng, &store), name(rng, &store), name(rng, &store), name(rng, &store), name(rng, &store), name(rng, &store));
    let w: Written = match rng.below(16) {
        0 => (content_type!(a / b), [a, b], vec![]),
        1 => (content_type!(a / b; c = d), [a, b], vec![[c, d]]),
        2 => (content_type!(a / b; c = d; e = f), [a, b], vec![[c, d], [e, f]]),
        3 => (content_type!(a / b; c = d; e = f; a = b), [a, b], vec![[c, d], [e, f], [a, b]]),
        4 => (content_type!(Text / b; Charset = Utf8), ["text", b], vec![["charset", "utf-8"]]),
        5 => (content_type!(a / Html; Charset = d), [a, "html"], vec![["charset", d]]),
        6 => (content_type!(Multipart / FormData; Boundary = d; Charset = Utf8), ["multipart", "form-data"], vec![["boundary", d], ["charset", "utf-8"]]),
        7 => (content_type!(Application / "octet-stream"; "type" = "image/gif"; "padding" = "4"), ["application", "octet-stream"], vec![["type", "image/gif"], ["padding", "4"]]),
        8 => (content_type!(Image / b; Q = d), ["image", b], vec![["q", d]]),
        9 => (content_type!(a / Png; c = Utf8; e = Utf8), [a, "png"], vec![[c, "utf-8"], [e, "utf-8"]]),
        10 => (content_type!((&a[..]) / (&b[..])), [a, b], vec![]),
        11 => (content_type!(Text / Html; Charset = Utf8; Charset = Utf8; c = d; Q = "1"), ["text", "html"], vec![["charset", "utf-8"], ["charset", "utf-8"], [c, d], ["q", "1"]]),
        12 => (content_type!("text" / "html"; "charset" = "utf-8"), ["text", "html"], vec![["charset", "utf-8"]]),
        _ => { let mut all = written_out(); let i = rng.below(all.len()); all.swap_remove(i) }
    };
    let (mime, [top, sub], params) = w;
    let want: Mime = rustful::mime::Mime(top.parse().unwrap(), sub.parse().unwrap(), params.iter().map(|p| (p[0].parse().unwrap(), p[1].parse().unwrap())).collect());
    ensure!(format!("{:?}", mime) == format!("{:?}", want) && mime == want, "macro", "{:?} want {:?}", mime, want);
    if odd { cov.count("values only"); cov.nontrivial(&format!("{:?}", mime)); return Ok(()); }
    // where it's set it's sent
    let place = rng.below(4);
    let m = mime.clone();
    let mut server = Server::new(move |_: Context, mut r: Response| { if place > 0 { r.headers_mut().set(rustful::header::ContentType(m.clone())); } match place { 3 => { let mut w = r.into_chunked(); w.send("x"); } _ => r.send("x") } });
    if place == 0 { server.content_type = mime.clone(); }
    let s = serve(&server.build(), Script::new(request("GET", b"/", &[], b"")), false);
    let rs = match parse_all(&s.out, &[]) { Ok(r) => r, Err(e) => return bad("response", format!("{} for {:?}", e, show(&s.out))) };
    // a value is a token or in quotes
    let plain = |v: &str| v.trim_matches('"').to_string();
    let text = format!("{}/{}{}", top, sub, params.iter().map(|p| format!("; {}={}", p[0], p[1])).collect::<String>());
    let got = rs.get(0).map(|r| r.headers_all("content-type").iter().map(|v| show(v)).collect::<Vec<_>>()).unwrap_or_default();
    ensure!(got.len() == 1 && got[0].replace('"', "") == plain(&text), "sent", "the content type {:?} is sent as {:?}", text, got);
    cov.count(["as the server's", "as the response's", "as the response's", "as the stream's"][place]);
    cov.nontrivial(&(&text, place));
    cov.sample(|| text.clone());
    Ok(())
}

pub fn run(r: &mut Run) {
    if r.id == "C35" { r.cases("forms of handlers", 20000, 500000, forms); }
    else if r.id == "C37" { r.cases("content types", 20000, 400000, written); }
    else { r.cases("contents", 100000, 3000000, data); r.large("contents", 20, 500, data); r.cases("errors", 20000, 600000, errors); }
}
