//! C11 C12 C30: request bodies, pipelining and hostile byte streams.
use crate::core::*;
use crate::targets::chunk_encode;
use crate::types::utf8ish;
use crate::wire::*;
use rustful::context::Context;
use rustful::filter::{ContextAction, ContextFilter, FilterContext, ResponseAction, ResponseFilter};
use rustful::header::Headers;
use rustful::response::Data;
use rustful::server::{KeepAlive, ServerInstance};
use rustful::{DefaultRouter, Handler, Method, Response, Server, StatusCode};
use std::collections::BTreeMap;
use std::io::{self, BufRead, BufReader, Read, Write};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub fn keep(free: usize) -> Option<KeepAlive> { Some(KeepAlive { timeout: Duration::from_secs(5), free_threads: free }) }

// ---- C11
#[derive(Clone, Debug)]
enum Plan { ToEnd, Sizes(Vec<usize>), Lines, Exact(usize), Copy(usize), Bytes, Text, Take(Vec<u64>), Query }
#[derive(Clone, Debug, Default)]
struct Got { data: Vec<u8>, err: Option<String>, after: Vec<String>, exact_failed: bool, text_failed: bool, form: Option<crate::targets::Map> }
struct Reader { plan: Plan, got: Arc<Mutex<Vec<Got>>> }
impl Handler for Reader {
    fn handle(&self, mut c: Context, r: Response) {
        let mut g = Got::default();
        {
            let b = &mut c.body;
            match self.plan {
                Plan::ToEnd => if let Err(e) = b.read_to_end(&mut g.data) { g.err = Some(e.to_string()) },
                Plan::Sizes(ref s) => {
                    let mut i = 0;
                    loop {
                        let n = s[i % s.len()]; i += 1;
                        let mut buf = vec![0xEE; n + 2];
                        match b.read(&mut buf[1..n + 1]) {
                            Ok(k) => {
                                if k > n || buf[0] != 0xEE || buf[n + 1] != 0xEE { g.err = Some(format!("read into {} bytes gave {}", n, k)); break; }
                                if k == 0 && n > 0 { break; }
                                if n == 0 && i > 10_000_000 { break; }
                                g.data.extend_from_slice(&buf[1..k + 1]);
                            }
                            Err(e) => { g.err = Some(e.to_string()); break; }
                        }
                    }
                }
                Plan::Lines => {
                    let mut br = BufReader::with_capacity(16, &mut *b);
                    loop { let mut l = vec![]; match br.read_until(b'\n', &mut l) { Ok(0) => break, Ok(_) => g.data.extend(l), Err(e) => { g.data.extend(l); g.err = Some(e.to_string()); break; } } }
                }
                Plan::Exact(n) => {
                    let mut buf = vec![0; n];
                    match b.read_exact(&mut buf) {
                        Ok(()) => { g.data.extend_from_slice(&buf); if let Err(e) = b.read_to_end(&mut g.data) { g.err = Some(e.to_string()) } }
                        Err(e) => { g.exact_failed = true; g.err = Some(e.to_string()); }
                    }
                }
                Plan::Copy(n) => { let mut first = vec![]; let r = io::copy(&mut b.by_ref().take(n as u64), &mut first).and_then(|_| io::copy(b, &mut first)); g.data = first; if let Err(e) = r { g.err = Some(e.to_string()) } }
                Plan::Query => { match b.read_query_body() { Ok(m) => g.form = Some(crate::targets::map_of(&m)), Err(e) => g.err = Some(e.to_string()) } }
                Plan::Bytes => for x in b.by_ref().bytes() { match x { Ok(x) => g.data.push(x), Err(e) => { g.err = Some(e.to_string()); break; } } },
                Plan::Text => { let mut s = String::new(); match b.read_to_string(&mut s) { Ok(_) => g.data = s.into_bytes(), Err(e) => { g.text_failed = e.kind() == io::ErrorKind::InvalidData; g.err = Some(e.to_string()) } } }
                Plan::Take(ref v) => { for &n in v { if g.err.is_none() { if let Err(e) = b.by_ref().take(n).read_to_end(&mut g.data) { g.err = Some(e.to_string()) } } } if g.err.is_none() { if let Err(e) = b.read_to_end(&mut g.data) { g.err = Some(e.to_string()) } } }
            }
            if g.err.is_none() { for n in vec![1, 0, 100] { let mut buf = vec![0; n]; g.after.push(match b.read(&mut buf) { Ok(0) => "0".into(), Ok(k) => format!("{} bytes: {}", k, show(&buf[..k])), Err(e) => e.to_string() }); } }
        }
        self.got.lock().unwrap().push(g);
        r.send("done");
    }
}
fn content(rng: &mut Rng) -> Vec<u8> {
    let max = if rng.chance(1, 10) { 70_000 } else { 3000 };
    let n = if big() && rng.chance(1, 3) { rng.range(100_000, 4_000_000) } else { rng.size(max) };
    content_of(rng, n)
}
fn content_of(rng: &mut Rng, n: usize) -> Vec<u8> {
    match rng.below(5) {
        4 => { let mut v = vec![]; while v.len() < n { v.extend_from_slice(format!("k{}=", rng.below(1 + n / 4)).as_bytes()); let k = rng.below(30); for _ in 0..k { v.push(*rng.pick(b"abc+%=02")); } v.push(b'&'); } v.truncate(n); v }
        0 => { let mut v = vec![]; while v.len() < n { v.extend_from_slice(*rng.pick(&[&b"GET /evil HTTP/1.1\r\nHost: x\r\n\r\n"[..], b"0\r\n\r\n", b"\r\n", b"5\r\nabcde\r\n", b"POST", b"\n", b"\0"])); } v.truncate(n); v }
        1 => (0..n).map(|i| b'a' + (i % 26) as u8).collect(),
        2 => { let mut v = vec![]; while v.len() < n { v.extend(utf8ish(rng)); v.push(b'\n'); } v.truncate(n); v }
        _ => rng.bytes(n),
    }
}
fn body_case(rng: &mut Rng, cov: &mut Cov) -> CaseResult {
    let data = if big() { let n = rng.range(400_000, 6_000_000); content_of(rng, n) } else if rng.chance(1, 60) { let n = rng.range(40_000, 400_000); content_of(rng, n) } else { content(rng) };
    let framing = rng.below(5);
    let trailing: &[u8] = *rng.pick(&[&b""[..], b"GET /next HTTP/1.1\r\nHost: h\r\n\r\n", b"garbage that is not http", b"\r\n"]);
    let plan = match rng.below(10) {
        0 => Plan::ToEnd,
        9 => Plan::Query,
        1 | 2 => Plan::Sizes((0..rng.range(1, 4)).map(|_| rng.range(1, 5)).collect()),
        3 => Plan::Sizes({ let mut v: Vec<usize> = (0..rng.range(1, 4)).map(|_| rng.size(9000)).collect(); v.push(rng.range(1, 64)); v }),
        4 => Plan::Lines,
        5 => Plan::Exact(match rng.below(4) { 0 => data.len(), 1 => data.len() + rng.range(1, 5), _ => rng.below(data.len() + 1) }),
        6 => if rng.chance(1, 2) { Plan::Copy(rng.below(data.len() + 2)) } else { Plan::Take((0..rng.below(4)).map(|_| rng.size(300) as u64).collect()) },
        7 => Plan::Bytes,
        _ => Plan::Text,
    };
    let (mut input, body) = match framing {
        0 => (request("POST", b"/b", &[("Host", b"h")], b""), vec![]),
        1 | 2 => (request("POST", b"/b", &[("Host", b"h"), ("Content-Length", data.len().to_string().as_bytes())], b""), data.clone()),
        _ => (request("POST", b"/b", &[("Host", b"h"), ("Transfer-Encoding", *rng.pick(&[&b"chunked"[..], b"Chunked"]))], b""), chunk_encode(rng, &data)),
    };
    let want: Vec<u8> = if framing == 0 { vec![] } else { data.clone() };
    let head = input.len();
    input.extend_from_slice(&body);
    let full = input.len();
    let cut = if framing != 0 && body.len() > 0 && rng.chance(1, 3) { Some(rng.range(head, full - 1)) } else { None };
    if let Some(c) = cut { input.truncate(c); } else { input.extend_from_slice(trailing); }
    let mut script = Script::new(input);
    match rng.below(4) { 0 => {} _ if big() => script.frag = vec![rng.range(1000, 100_000), rng.range(1, 2000)], 1 => script.frag = vec![rng.range(1, 3)], 2 => script.frag = (0..rng.range(1, 5)).map(|_| rng.range(1, 40)).collect(), _ => script.frag = vec![head.max(1), rng.range(1, 5000)] }
    if cut.is_some() { script.read_err_at_end = rng.chance(1, 3); }
    let ka = rng.chance(1, 2);
    let got: Arc<Mutex<Vec<Got>>> = Default::default();
    let mut server = Server::new(Reader { plan: plan.clone(), got: got.clone() });
    if ka { server.keep_alive = keep(0); }
    let served = serve(&server.build(), script, ka);
    let got = got.lock().unwrap();
    let what = format!("{} body of {} bytes {}, {:?}, cut {:?}", ["no", "sized", "sized", "chunked", "chunked"][framing], data.len(), show_short(&data), plan, cut.map(|c| c - head));
    ensure!(if let End::HandlerPanic(_) | End::ParsePanic(_) | End::Limit = served.end { false } else { true }, "serve", "{}: {:?}", what, served.end);
    ensure!(got.len() >= 1, "serve", "{}: handler did not run: {:?}", what, served.end);
    let g = &got[0];
    let exact_too_much = if let Plan::Exact(n) = plan { n > want.len() } else { false };
    if cut.is_none() {
        if exact_too_much { ensure!(g.exact_failed, "beyond end", "{}: read_exact got more than the body", what); }
        else if let (Plan::Text, Err(_)) = (&plan, std::str::from_utf8(&want)) { ensure!(g.text_failed, "text", "{}: {:?}", what, g.err); }
        else if let Plan::Query = plan {
            ensure!(g.err.is_none(), "error", "{}: reading the form failed with {:?}", what, g.err);
            let m = crate::targets::model_query(&want);
            ensure!(g.form.as_ref() == Some(&m), "content", "{}: the form is {} entries, {} were sent: {}", what, g.form.as_ref().map_or(0, |f| f.len()), m.len(), show_short(format!("{:?}", g.form).as_bytes()));
            ensure!(g.after.iter().all(|a| a == "0"), "beyond end", "{}: reads at the end give {:?}", what, g.after);
            cov.count("forms");
        }
        else {
            ensure!(g.err.is_none(), "error", "{}: reading failed with {:?} after {} bytes", what, g.err, g.data.len());
            ensure!(g.data == want, "content", "{}: got {} bytes {}", what, g.data.len(), show_short(&g.data));
            ensure!(g.after.iter().all(|a| a == "0"), "beyond end", "{}: reads at the end give {:?}", what, g.after);
        }
        let expect = if ka && trailing.starts_with(b"GET") { 2 } else { 1 };
        ensure!(got.len() == expect, "requests", "{}: handler ran {} times, {} requests were sent (keep-alive {})", what, got.len(), expect, ka);
        if expect == 2 { ensure!(got[1].data.is_empty() && got[1].form.as_ref().map_or(true, |f| f.is_empty()) && (got[1].err.is_none() || exact_too_much || got[1].exact_failed), "requests", "{}: the next request's body is {:?}", what, got[1]); }
    } else {
        ensure!(g.err.is_some(), "truncated", "{}: truncated body presented as complete with {} bytes", what, g.data.len());
        ensure!(want.starts_with(&g.data), "content", "{}: got {} which is no prefix", what, show_short(&g.data));
        if framing <= 2 && !g.exact_failed { if let Plan::Text | Plan::Query = plan {} else { ensure!(g.data.len() == cut.unwrap() - head, "content", "{}: {} bytes arrived, {} were read", what, cut.unwrap() - head, g.data.len()); } }
        ensure!(got.len() == 1, "requests", "{}: handler ran {} times", what, got.len());
        cov.count("truncated");
    }
    cov.count(["no body", "sized", "sized", "chunked", "chunked"][framing]);
    cov.add("body bytes read", g.data.len() as u64);
    cov.max("max body bytes", g.data.len() as u64);
    if want.len() > 1 { cov.nontrivial(&(framing > 2, &data, format!("{:?} {:?}", plan, cut))); }
    cov.sample(|| what.clone());
    Ok(())
}

#[derive(Clone, Debug, PartialEq)]
struct Field { name: String, file: Option<String>, ctype: Option<String>, data: Vec<u8> }
struct Multi { got: Arc<Mutex<Vec<Option<(Vec<Field>, String)>>>>, buf: usize, stop_after: Option<usize> }
impl Handler for Multi {
    fn handle(&self, mut c: Context, r: Response) {
        #[cfg(not(feature = "multipart"))]
        let res = None;
        // asking for a reader takes nothing away
        #[cfg(feature = "multipart")]
        let before = if self.buf % 3 == 0 { Some(c.body.as_multipart().is_some()) } else { None };
        #[cfg(feature = "multipart")]
        let mut res = c.body.as_multipart().map(|mut m| {
            let mut v = vec![];
            let mut ok = String::new();
            let mut left = self.stop_after.unwrap_or(usize::max_value());
            let res = m.foreach_entry(|mut e| {
                if left == 0 { return; }
                left -= 1;
                let mut data = vec![];
                let mut buf = vec![0; self.buf];
                loop { match e.data.read(&mut buf) { Ok(0) => break, Ok(n) => data.extend_from_slice(&buf[..n]), Err(e) => { ok = e.to_string(); break } } }
                v.push(Field { name: e.headers.name.to_string(), file: e.headers.filename.clone(), ctype: e.headers.content_type.as_ref().map(|m| m.to_string()), data });
            });
            (v, if let Err(e) = res { e.to_string() } else { ok })
        });
        #[cfg(feature = "multipart")]
        { if before.map_or(false, |b| b != res.is_some()) { res = Some((vec![], "another answer when asked again".into())); } }
        #[cfg(feature = "multipart")]
        { let after = c.body.as_multipart().is_some(); if after != res.is_some() { res = Some((vec![], "another answer after reading".into())); } }
        self.got.lock().unwrap().push(res);
        r.send("done");
    }
}
fn multipart_case(rng: &mut Rng, cov: &mut Cov) -> CaseResult {
    // tokens, as browsers and libraries send them, and quoted strings of anything a boundary may have; those the mime crate doesn't understand are below
    let (boundary, param): (String, String) = match rng.below(6) {
        0 => { let n = rng.range(0, 38); let mut s = String::new(); s.push(*rng.pick(b"abXY09-_") as char); for _ in 0..n { s.push(*rng.pick(b"abXY09-_'()+,./:=? ") as char); } s.push('q'); let p = format!("\"{}\"", s); (s, p) }
        1 => { let n = rng.range(1, 40); let mut s = String::new(); s.push(*rng.pick(b"abXY09") as char); for _ in 0..n { s.push(*rng.pick(b"abXY09-_.+&^$#!") as char); } (s.clone(), s) }
        2 if rng.chance(1, 4) => { let s = rng.pick(&["utf-8", "UTF-8", "boundary", "0", "-"]).to_string(); (s.clone(), s) }
        _ => { let n = rng.range(1, 40); let mut s = String::new(); for _ in 0..n { s.push(*rng.pick(b"abcXYZ0129-_") as char); } s = s.trim_matches('-').to_string() + "q"; if rng.chance(1, 3) { s = format!("----WebKitFormBoundary{}", s); } let p = if rng.chance(1, 4) { format!("\"{}\"", s) } else { s.clone() }; (s, p) }
    };
    let large = rng.chance(1, 60);
    let count = if big() { rng.range(20, 400) } else { rng.below(6) };
    let fields: Vec<Field> = (0..count).map(|i| {
        let n = if big() { if rng.chance(1, 50) { rng.range(300_000, 1_500_000) } else { rng.size(500) } } else if large { rng.range(20_000, 150_000) } else { rng.size(6000) };
        let mut data = match rng.below(4) { 0 => rng.bytes(n), 1 => { let mut v = vec![]; while v.len() < n { v.extend_from_slice(*rng.pick(&[&b"\r\n"[..], b"--", b"\r\n--", b"abc", b"\r", b"\n", b"-", b"\0"])); } v } _ => (0..n).map(|i| b'a' + (i % 26) as u8).collect() };
        let bb = boundary.as_bytes();
        // the boundary must not occur in the data
        if data.windows(bb.len()).any(|w| w == bb) { data.clear(); }
        let file = if rng.chance(1, 3) { Some(format!("file {}.txt", i)) } else { None };
        let ctype = if file.is_some() || rng.chance(1, 3) { Some(rng.pick(&["text/plain", "application/octet-stream", "image/png"]).to_string()) } else { None };
        Field { name: format!("{}{}", rng.pick(&["field", "a b", "x", "data[]"]), if rng.chance(1, 2) { i.to_string() } else { String::new() }), file, ctype, data }
    }).collect();
    let mut body = vec![];
    for f in &fields {
        body.extend_from_slice(format!("--{}\r\nContent-Disposition: form-data; name=\"{}\"", boundary, f.name).as_bytes());
        if let Some(ref n) = f.file { body.extend_from_slice(format!("; filename=\"{}\"", n).as_bytes()); }
        body.extend_from_slice(b"\r\n");
        if let Some(ref t) = f.ctype { body.extend_from_slice(format!("Content-Type: {}\r\n", t).as_bytes()); }
        body.extend_from_slice(b"\r\n");
        body.extend_from_slice(&f.data);
        body.extend_from_slice(b"\r\n");
    }
    body.extend_from_slice(format!("--{}--\r\n", boundary).as_bytes());
    let kind = rng.below(10);
    let ct = match kind { 0 => "text/plain".to_string(), 1 => "multipart/form-data".to_string(), _ => format!("{}{} {}={}{}", rng.pick(&["multipart/form-data;", "Multipart/Form-Data;", "MULTIPART/FORM-DATA;"]), rng.pick(&["", "", "", " charset=utf-8;", " charset=x;"]), rng.pick(&["boundary", "boundary", "Boundary", "BOUNDARY"]), param, if param.starts_with('"') { "" } else { rng.pick(&["", "", "; charset=utf-8", "; x=y"]) }) };
    let chunked = rng.chance(1, 2);
    let mut input = if chunked { let b = chunk_encode(rng, &body); request("POST", b"/m", &[("Host", b"h"), ("Content-Type", ct.as_bytes()), ("Transfer-Encoding", b"chunked")], &b) }
        else { request("POST", b"/m", &[("Host", b"h"), ("Content-Type", ct.as_bytes()), ("Content-Length", body.len().to_string().as_bytes())], &body) };
    let trail = rng.chance(1, 2);
    if trail { input.extend_from_slice(b"GET /next HTTP/1.1\r\nHost: h\r\n\r\n"); }
    let mut script = Script::new(input);
    if rng.chance(2, 3) { script.frag = (0..rng.range(1, 4)).map(|_| rng.range(1, 200)).collect(); }
    let frag = script.frag.clone();
    let length = script.input.len(); // hyper reads 4096 bytes at a time
    let got: Arc<Mutex<Vec<_>>> = Default::default();
    let stop_after = if rng.chance(1, 6) { Some(rng.below(3)) } else { None };
    let mut server = Server::new(Multi { got: got.clone(), buf: rng.range(1, 3000), stop_after });
    server.keep_alive = keep(0);
    let served = serve(&server.build(), script, true);
    let got = got.lock().unwrap();
    let what = format!("{} multipart, boundary {:?}, fields {:?}", if chunked { "chunked" } else { "sized" }, boundary, fields.iter().map(|f| format!("{} {:?} {}", f.name, f.file, show_short(&f.data))).collect::<Vec<_>>());
    if let End::HandlerPanic(ref p) = served.end { if (chunked || !frag.is_empty() || length > 4096) && p.contains("/multipart-0.14.2/src/server/boundary.rs:152") { return bad("multipart-crate-boundary-panic", format!("{}: {}", what, p)); } }
    let ended = match served.end { End::Closed | End::ParseError(_) => true, _ => false };
    ensure!(ended && got.len() == 1 + trail as usize, "serve", "{}: {:?}, {} calls, next: {}, read {} of it\nout: {}", what, served.end, got.len(), trail, served.consumed, show(&served.out));
    if trail { ensure!(got[1].is_none(), "requests", "{}: the next request is multipart too", what); }
    match (&got[0], kind < 2) {
        (None, true) => { cov.count("not multipart"); }
        (None, false) => return bad("multipart", format!("{}: no reader", what)),
        (Some(_), true) => return bad("multipart", format!("a reader for {:?}", ct)),
        (Some((v, ok)), false) => {
            // the multipart crate gives up on part headers that reach it in several small pieces
            if ok == "TooLarge" && (chunked || !frag.is_empty() || length > 4096) { cov.count("refused by the multipart crate (fragmented part headers)"); return bad("multipart-crate-small-pieces", what); }
            ensure!(ok.is_empty(), "multipart", "{}: reading failed after {} fields: {}, fragments {:?}", what, v.len(), ok, frag);
            let want = &fields[..stop_after.unwrap_or(fields.len()).min(fields.len())];
            ensure!(v.len() == want.len(), "multipart", "{}: {} fields read", what, v.len());
            for (a, b) in v.iter().zip(want) {
                ensure!(a.name == b.name && a.file == b.file && a.data == b.data && (b.ctype.is_none() || a.ctype == b.ctype), "multipart", "{}\nfield {} {:?} {:?} {} read as {} {:?} {:?} {}", what, b.name, b.file, b.ctype, show_short(&b.data), a.name, a.file, a.ctype, show_short(&a.data));
            }
            cov.count("multipart"); cov.add("multipart fields", v.len() as u64);
            if v.len() > 1 { cov.nontrivial(&body); }
        }
    }
    Ok(())
}

/// Boundary parameters that the mime crate loses.
fn mime_findings(_: &mut Rng, cov: &mut Cov) -> CaseResult {
    let mut lost = vec![];
    for (boundary, ct) in &[("a'b", "multipart/form-data; boundary=a'b"), ("(a", "multipart/form-data; boundary=\"(a\""), ("y", "multipart/form-data; charset=\"x\"; boundary=y")] {
        let body = format!("--{}\r\nContent-Disposition: form-data; name=\"f\"\r\n\r\ndata\r\n--{}--\r\n", boundary, boundary).into_bytes();
        let got: Arc<Mutex<Vec<_>>> = Default::default();
        let served = serve(&Server::new(Multi { got: got.clone(), buf: 100, stop_after: None }).build(), Script::new(request("POST", b"/m", &[("Host", b"h"), ("Content-Type", ct.as_bytes()), ("Content-Length", body.len().to_string().as_bytes())], &body)), true);
        let got = got.lock().unwrap();
        cov.count("special boundaries");
        match got.get(0) {
            Some(None) => lost.push(*ct),
            Some(Some((v, ok))) => ensure!(ok == "" && v.len() == 1 && v[0].name == "f" && v[0].data == b"data", "multipart", "{:?}: {:?} {}", ct, v, ok),
            x => return bad("multipart", format!("{:?}: {:?}, {:?}", ct, served.end, x.is_some())),
        }
    }
    if lost.is_empty() { Ok(()) } else { bad("mime-crate-boundary", format!("no multipart reader for {:?}", lost)) }
}
/// The two recorded defects of the multipart crate, on fixed inputs.
fn multipart_findings(panics: bool, cov: &mut Cov) -> CaseResult {
    let data = vec![b'a'; 1100];
    let mut body = b"--bound\r\nContent-Disposition: form-data; name=\"f\"\r\n\r\n".to_vec();
    body.extend_from_slice(&data);
    let upto = body.len() + 9; // the end of the closing boundary's name
    body.extend_from_slice(b"\r\n--bound--\r\n");
    let mut script = Script::new(request("POST", b"/m", &[("Host", b"h"), ("Content-Type", b"multipart/form-data; boundary=bound"), ("Content-Length", body.len().to_string().as_bytes())], &body));
    let head = script.input.len() - body.len();
    script.frag = if panics { vec![head, upto] } else { vec![head, 9, 1] };
    let got: Arc<Mutex<Vec<_>>> = Default::default();
    let served = serve(&Server::new(Multi { got: got.clone(), buf: 100, stop_after: if panics { Some(0) } else { None } }).build(), script, true);
    let got = got.lock().unwrap();
    cov.count(if panics { "unread field, fragment ends within the closing boundary" } else { "part headers in single bytes" });
    match (&served.end, got.get(0)) {
        (End::HandlerPanic(p), _) if panics && p.contains("/multipart-0.14.2/src/server/boundary.rs:152") => bad("multipart-crate-boundary-panic", p.clone()),
        (_, Some(Some((_, ok)))) if !panics && ok == "TooLarge" => bad("multipart-crate-small-pieces", ok.clone()),
        (End::Closed, Some(Some((v, ok)))) | (End::ParseError(_), Some(Some((v, ok)))) => { ensure!(ok == "" && (panics || v.len() == 1 && v[0].data == data), "multipart", "{:?}", v); Ok(()) }
        x => bad("multipart", show_short(format!("{:?}", x).as_bytes())),
    }
}

/// The third one: a form without its closing boundary keeps the worker busy for ever, so it runs in a process of its own.
fn endless_finding(_: &mut Rng, cov: &mut Cov) -> CaseResult {
    let exe = match std::env::current_exe() { Ok(e) => e, Err(e) => { cov.count(&format!("no endless form: {}", e)); return Ok(()); } };
    let mut child = match std::process::Command::new(exe).arg("endless-form").stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn() { Ok(c) => c, Err(e) => { cov.count(&format!("no endless form: {}", e)); return Ok(()); } };
    cov.count("form without its end");
    let start = Instant::now();
    loop {
        match child.try_wait() {
            Ok(Some(status)) => {
                let mut text = String::new();
                let _ = child.stdout.take().unwrap().read_to_string(&mut text);
                ensure!(status.success() && text.contains("ended"), "multipart", "a form without its end: {} {}", status, text);
                return Ok(());
            }
            _ if start.elapsed() > Duration::from_secs(4) => { let _ = child.kill(); let _ = child.wait(); return bad("multipart-crate-endless", "the reader of a form without its closing boundary does not end".into()); }
            _ => std::thread::sleep(Duration::from_millis(20)),
        }
    }
}
/// What that process does: a complete body of five bytes, which has no boundary.
pub fn endless_form() {
    let got: Arc<Mutex<Vec<_>>> = Default::default();
    let served = serve(&Server::new(Multi { got: got.clone(), buf: 100, stop_after: None }).build(), Script::new(request("POST", b"/m", &[("Host", b"h"), ("Content-Type", b"multipart/form-data; boundary=x"), ("Content-Length", b"5")], b"hello")), true);
    println!("ended {:?}", served.end);
}

// ---- C12 C30: conversations
#[derive(Clone, Debug, PartialEq)]
pub struct Call { pub tok: String, pub method: String, pub vars: BTreeMap<String, String>, pub headers: Vec<(String, String)>, pub query: BTreeMap<String, String>, pub body: Vec<u8>, pub body_err: bool, pub status: u16, pub dirty: bool, pub form: bool }
pub type Calls = Arc<Mutex<Vec<Call>>>;
struct Echo { calls: Calls }
struct Stored(String);
struct ByHandler;
impl Handler for Echo {
    fn handle(&self, mut c: Context, mut r: Response) {
        let tok = c.variables.get("tok").map(|t| t.into_owned()).unwrap_or_default();
        let mut headers: Vec<(String, String)> = c.headers.iter().map(|h| (h.name().to_ascii_lowercase(), h.value_string())).collect();
        headers.sort();
        let mut call = Call { tok: tok.clone(), method: c.method.to_string(), vars: c.variables.iter().map(|(k, v)| (k.as_utf8_lossy().into_owned(), v.as_utf8_lossy().into_owned())).collect(),
            headers, query: c.query.iter().map(|(k, v)| (k.as_utf8_lossy().into_owned(), v.as_utf8_lossy().into_owned())).collect(), body: vec![], body_err: false, status: r.status().to_u16(),
            dirty: r.filter_storage().get::<ByHandler>().is_some() || r.filter_storage().get::<Stored>().map_or(false, |s| s.0 != tok), form: false };
        #[cfg(feature = "multipart")] { call.form = c.body.as_multipart().is_some(); }
        r.filter_storage_mut().insert(ByHandler);
        let q = |k: &str| c.query.get(k).map(|v| v.into_owned());
        let (read, resp) = (q("read").unwrap_or_default(), q("resp").unwrap_or_default());
        let late = q("late").is_some();
        // whether the body (and what is left unread of it) goes before or after the response must not matter
        let body_first = q("order").is_some();
        let mut take_body = |c: &mut Context, call: &mut Call| {
            match &read[..] {
                "none" => {}
                "all" | "" => { call.body_err = c.body.read_to_end(&mut call.body).is_err(); }
                "bits" => { let mut b = [0; 7]; loop { match c.body.read(&mut b) { Ok(0) => break, Ok(n) => call.body.extend_from_slice(&b[..n]), Err(_) => { call.body_err = true; break } } } }
                "query" => { call.body_err = c.body.read_query_body().is_err(); }
                #[cfg(feature = "multipart")]
                "form" => { if let Some(mut m) = c.body.as_multipart() { let _ = m.foreach_entry(|mut e| { let _ = e.data.read_to_end(&mut call.body); }); } }
                #[cfg(not(feature = "multipart"))]
                "form" => {}
                n => { let n: u64 = n.parse().unwrap_or(0); call.body_err = c.body.by_ref().take(n).read_to_end(&mut call.body).is_err(); }
            }
        };
        if !late { take_body(&mut c, &mut call); }
        let text = format!("tok={} method={}", tok, c.method);
        if late { take_body(&mut c, &mut call); }
        self.calls.lock().unwrap().push(call);
        let resp2 = resp.clone();
        let answer = move |mut r: Response| match &resp2[..] {
            "chunked" => { let mut w = r.into_chunked(); for p in text.as_bytes().chunks(5) { w.send(p); } w.end().ok(); }
            "chunkdrop" => { let mut w = r.into_chunked(); for p in text.as_bytes().chunks(3) { w.send(p); } }
            "raw" => { let mut w = unsafe { r.into_raw(text.len() as u64) }; w.send(&text[..4]); w.send(&text[4..]); }
            "drop" => {}
            "status" => { r.set_status(StatusCode::Accepted); r.send(text); }
            "nocontent" => { r.set_status(StatusCode::NoContent); }
            "notmod" => { r.set_status(StatusCode::NotModified); }
            "error" => { r.set_status(StatusCode::InternalServerError); r.send(text); }
            _ => r.send(text),
        };
        if body_first { drop(c); answer(r); } else { answer(r); drop(c); }
    }
}
/// Aborts when told by a header; leaves the token in the storage.
struct Gate { seen: Arc<Mutex<Vec<(String, bool)>>> }
fn raw_header(h: &Headers, name: &str) -> Option<String> { h.iter().find(|x| x.name().eq_ignore_ascii_case(name)).map(|x| x.value_string()) }
impl ContextFilter for Gate {
    fn modify(&self, f: FilterContext, c: &mut Context) -> ContextAction {
        let clean = f.storage.is_empty();
        let tok = raw_header(&c.headers, "x-token").unwrap_or_default();
        self.seen.lock().unwrap().push((tok.clone(), clean));
        f.storage.insert(Stored(tok));
        if let Some(m) = raw_header(&c.headers, "x-rf") { f.storage.insert(RfMode(m)); }
        match raw_header(&c.headers, "x-abort").and_then(|a| a.parse().ok()) { Some(s) => ContextAction::Abort(StatusCode::from_u16(s)), None => ContextAction::Next }
    }
}
struct RfMode(String);
struct Stamp;
fn stored<'x>(f: &'x FilterContext) -> (String, String) { (f.storage.get::<Stored>().map(|s| s.0.clone()).unwrap_or_default(), f.storage.get::<RfMode>().map(|s| s.0.clone()).unwrap_or_default()) }
impl ResponseFilter for Stamp {
    fn begin(&self, f: FilterContext, s: StatusCode, h: &mut Headers) -> (StatusCode, ResponseAction<'_>) {
        let (tok, mode) = stored(&f);
        h.set_raw("x-stored", vec![tok.into_bytes()]);
        (s, match &mode[..] { "begin" => ResponseAction::abort("begin".into()), "quiet" => ResponseAction::silent_abort(), "pre" => ResponseAction::next(Some("<")), _ => ResponseAction::next(None::<&str>) })
    }
    fn write<'a>(&'a self, f: FilterContext, d: Option<Data<'a>>) -> ResponseAction<'a> {
        match &stored(&f).1[..] { "write" => ResponseAction::abort("write".into()), _ => ResponseAction::next(d) }
    }
    fn end(&self, f: FilterContext) -> ResponseAction<'_> { match &stored(&f).1[..] { "end" => ResponseAction::abort("end".into()), "post" | "mute" => ResponseAction::next(Some(">")), _ => ResponseAction::next(None::<&str>) } }
}
/// Comes after Stamp and takes out what that adds at the end, or stops the end.
struct Mute;
impl ResponseFilter for Mute {
    fn begin(&self, _: FilterContext, s: StatusCode, _: &mut Headers) -> (StatusCode, ResponseAction<'_>) { (s, ResponseAction::next(None::<&str>)) }
    fn write<'a>(&'a self, f: FilterContext, d: Option<Data<'a>>) -> ResponseAction<'a> {
        if stored(&f).1 == "mute" && d.as_ref().map_or(false, |d| d.as_bytes() == b">") { ResponseAction::silent_abort() } else { ResponseAction::next(d) }
    }
    fn end(&self, f: FilterContext) -> ResponseAction<'_> { if stored(&f).1 == "stop" { ResponseAction::silent_abort() } else { ResponseAction::next(None::<&str>) } }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Kind { Handler, Missing, WrongMethod, Abort(u16), Star, Invalid }
#[derive(Clone, Debug)]
pub struct Req {
    pub tok: String, pub method: &'static str, pub kind: Kind, pub v10: bool, pub conn: Option<&'static str>, pub framing: u8, pub data: Vec<u8>, pub wire_body: Vec<u8>,
    pub read: String, pub resp: &'static str, pub ctype: u8, pub late: bool, pub order: bool, pub rf: &'static str, pub extra: Vec<(String, String)>, pub expect: bool,
    /// what follows is not a request: the body's framing is broken or cut short
    pub broken: bool,
}
pub fn gen_req(rng: &mut Rng, i: usize, last: bool) -> Req {
    let kind = match rng.below(14) { 0 => Kind::Missing, 1 => Kind::WrongMethod, 2 => Kind::Abort(*rng.pick(&[401, 403, 500, 503])), 3 => Kind::Star, 4 => Kind::Invalid, _ => Kind::Handler };
    let framing = rng.below(4) as u8; // 0 none, 1 sized, 2 chunked, 3 sized
    // the type of the body: none, text, a form with a boundary or without one
    let ctype = match rng.below(12) { 0 => 1, 1 | 2 => 2, 3 => 3, _ => 0 };
    let tok = format!("t{}x{}", i, rng.below(10_000));
    let form = kind == Kind::Handler && ctype == 2 && framing != 0 && rng.chance(1, 2);
    let data = if framing == 0 { vec![] } else if form { format!("--b{}\r\nContent-Disposition: form-data; name=\"f\"\r\n\r\n{}\r\n--b{}--\r\n", tok, "v".repeat(rng.below(20)), tok).into_bytes() } else { content(rng) };
    let resp = *rng.pick(&["send", "send", "chunked", "chunkdrop", "raw", "drop", "status", "nocontent", "notmod", "error"]);
    let v10 = rng.chance(1, 12) && resp != "chunked" && resp != "chunkdrop";
    let wire_body = match framing { 0 => vec![], 2 => chunk_encode(rng, &data), _ => data.clone() };
    let mut extra = vec![];
    for _ in 0..rng.below(3) { extra.push((format!("X-E{}", rng.below(5)), format!("v{}", rng.below(100)))); }
    Req { tok, ctype, method: if kind == Kind::Invalid { "CONNECT" } else if framing == 0 { *rng.pick(&["GET", "DELETE", "POST"]) } else { *rng.pick(&["POST", "PUT", "DELETE"]) }, kind, v10,
        conn: match rng.below(14) { 0 => Some("close"), 1 => Some("keep-alive"), 2 => Some("Keep-Alive"), _ => if v10 { Some("keep-alive") } else { None } },
        framing, read: match rng.below(7) { 0..=4 if form => "form".into(), 0 | 1 => "none".into(), 2 => "bits".into(), 3 => rng.below(data.len() + 3).to_string(), 4 => "query".into(), _ => "all".into() },
        data, wire_body, resp, late: rng.chance(1, 3), order: rng.chance(1, 2), rf: if rng.chance(1, 5) { *rng.pick(&["begin", "write", "end", "pre", "post", "quiet", "mute", "stop"]) } else { "" }, extra, expect: !v10 && framing != 0 && rng.chance(1, 12), broken: false && last }
}
impl Req {
    pub fn target(&self) -> String {
        match self.kind {
            Kind::Star => "*".into(),
            Kind::Invalid => format!("{}.example:443", self.tok),
            Kind::Missing => format!("/nothing/here/{}", self.tok),
            _ => format!("/h/{}?read={}&resp={}{}{}", self.tok, self.read, self.resp, if self.late { "&late=1" } else { "" }, if self.order { "&order=1" } else { "" }),
        }
    }
    pub fn method_sent(&self) -> &'static str { if self.kind == Kind::WrongMethod { "PATCH" } else { self.method } }
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = format!("{} {} HTTP/1.{}\r\nHost: h\r\nX-Token: {}\r\n", self.method_sent(), self.target(), if self.v10 { 0 } else { 1 }, self.tok).into_bytes();
        for (n, x) in &self.extra { v.extend_from_slice(format!("{}: {}\r\n", n, x).as_bytes()); }
        if let Some(c) = self.conn { v.extend_from_slice(format!("Connection: {}\r\n", c).as_bytes()); }
        if let Kind::Abort(s) = self.kind { v.extend_from_slice(format!("X-Abort: {}\r\n", s).as_bytes()); }
        if !self.rf.is_empty() { v.extend_from_slice(format!("X-Rf: {}\r\n", self.rf).as_bytes()); }
        match self.ctype { 0 => {} 1 => v.extend_from_slice(b"Content-Type: text/plain\r\n"), 2 => v.extend_from_slice(format!("Content-Type: multipart/form-data; boundary=b{}\r\n", self.tok).as_bytes()), _ => v.extend_from_slice(b"Content-Type: multipart/form-data\r\n") }
        if self.expect { v.extend_from_slice(b"Expect: 100-continue\r\n"); }
        match self.framing { 0 => {} 2 => v.extend_from_slice(b"Transfer-Encoding: chunked\r\n"), _ => v.extend_from_slice(format!("Content-Length: {}\r\n", self.data.len()).as_bytes()) }
        v.extend_from_slice(b"\r\n");
        v.extend_from_slice(&self.wire_body);
        v
    }
    /// hyper keeps an HTTP/1.0 connection only if the response asks for it
    pub fn closes(&self) -> bool { self.v10 || self.conn == Some("close") }
    /// status and body of the answer; None where only the framing is claimed
    pub fn answer(&self, with_filter: bool) -> (Option<u16>, Option<Vec<u8>>) {
        let text = format!("tok={} method={}", self.tok, self.method_sent()).into_bytes();
        let (st, body) = match self.kind {
            Kind::Missing => (404, vec![]),
            Kind::WrongMethod => (405, vec![]),
            Kind::Abort(s) => (s, vec![]),
            Kind::Star => (200, vec![]),
            Kind::Invalid => (400, vec![]),
            Kind::Handler => match self.resp { "drop" => (200, vec![]), "status" => (202, text), "nocontent" => (204, vec![]), "notmod" => (304, vec![]), "error" => (500, text), _ => (200, text) },
        };
        let raw = self.kind == Kind::Handler && self.resp == "raw";
        let nobody = st == 204 || st == 304;
        if !with_filter || self.kind == Kind::Invalid || raw || self.rf.is_empty() || ["quiet", "mute", "stop"].contains(&self.rf) { return (Some(st), if nobody { None } else { Some(body) }); }
        match self.rf {
            "pre" => (Some(st), if nobody { None } else { Some([&b"<"[..], &body].concat()) }),
            "post" => (Some(st), if nobody { None } else { Some([&body[..], b">"].concat()) }),
            _ => (None, None),
        }
    }
}
fn conversation_server(calls: &Calls, with_filter: bool, ka: bool) -> (ServerInstance<DefaultRouter<Echo>>, Arc<Mutex<Vec<(String, bool)>>>) {
    let seen: Arc<Mutex<Vec<(String, bool)>>> = Default::default();
    let mut router = DefaultRouter::<Echo>::new();
    router.build().many(|mut n| { n.path("h/:tok").many(|mut n| {
        for m in vec![Method::Get, Method::Post, Method::Put, Method::Delete] { n.then().on(m, Echo { calls: calls.clone() }); }
    }); });
    let mut s = Server { context_filters: vec![Box::new(Gate { seen: seen.clone() }) as Box<dyn ContextFilter>], ..Server::new(router) };
    if with_filter { s.response_filters = vec![Box::new(Stamp), Box::new(Mute)]; }
    if ka { s.keep_alive = keep(0); }
    (s.build(), seen)
}

pub fn check_call(c: &Call, r: &Req, body_complete: bool) -> CaseResult {
    let what = format!("request {} {}", r.method_sent(), r.target());
    ensure!(c.tok == r.tok, "order", "{}: handler saw {}", what, c.tok);
    ensure!(c.method == r.method, "method", "{}: handler saw {}", what, c.method);
    ensure!(!c.dirty && c.status == 200, "carry-over", "{}: storage or status of another request (status {})", what, c.status);
    ensure!(c.form == (cfg!(feature = "multipart") && r.ctype == 2), "carry-over", "{}: a form: {}, its content type is number {}", what, c.form, r.ctype);
    ensure!(c.vars.len() == 1, "carry-over", "{}: variables {:?}", what, c.vars);
    let q: Vec<String> = c.query.keys().cloned().collect();
    let mut wq = vec!["read".to_string(), "resp".into()]; if r.late { wq.push("late".into()) } if r.order { wq.push("order".into()) } wq.sort();
    ensure!(q == wq, "carry-over", "{}: query {:?}", what, c.query);
    let mut want: BTreeMap<String, String> = BTreeMap::new();
    for (n, v) in &r.extra { let e = want.entry(n.to_ascii_lowercase()).or_insert(String::new()); if !e.is_empty() { e.push_str(", "); } e.push_str(v); }
    let got: BTreeMap<String, String> = c.headers.iter().filter(|h| h.0.starts_with("x-e")).cloned().collect();
    ensure!(got.keys().eq(want.keys()), "carry-over", "{}: headers {:?} want {:?}", what, got, want);
    ensure!(c.headers.iter().find(|h| h.0 == "x-token").map(|h| &h.1) == Some(&r.tok), "carry-over", "{}: token header {:?}", what, c.headers);
    ensure!(c.headers.iter().any(|h| h.0 == "x-rf") == !r.rf.is_empty() && c.headers.iter().any(|h| h.0 == "connection") == r.conn.is_some(), "carry-over", "{}: headers {:?}", what, c.headers);
    if r.read == "form" {
        // what was read before matters only to the requests that follow
    } else if body_complete {
        let want: &[u8] = match &r.read[..] { "none" | "query" => b"", "all" | "bits" => &r.data, n => { let n: usize = n.parse().unwrap(); &r.data[..n.min(r.data.len())] } };
        ensure!(c.body == want && !c.body_err, "body", "{}: read {} bytes {} (error: {}), want {}", what, c.body.len(), show_short(&c.body), c.body_err, show_short(want));
    } else {
        ensure!(r.data.starts_with(&c.body), "body", "{}: read {}, which is no prefix of the body", what, show_short(&c.body));
        ensure!(!(r.read == "all" || r.read == "bits" || r.read == "query") || c.body_err, "body", "{}: broken body of {} bytes presented as complete ({} read)", what, r.data.len(), c.body.len());
    }
    Ok(())
}
pub fn check_answer(w: &WireResponse, r: &Req, with_filter: bool) -> CaseResult {
    let what = format!("request {} {} (rf {:?})", r.method_sent(), r.target(), r.rf);
    ensure!(w.complete, "framing", "{}: incomplete response {:?}", what, w);
    let (st, body) = r.answer(with_filter);
    if let Some(st) = st { ensure!(w.status == st, "answer", "{}: status {} want {}", what, w.status, st); }
    if let Some(b) = body { ensure!(w.body == b, "answer", "{}: body {} want {}", what, show_short(&w.body), show(&b)); }
    if with_filter && r.kind != Kind::Invalid && !(r.kind == Kind::Handler && r.resp == "raw") { ensure!(w.header("x-stored") == Some(r.tok.as_bytes()), "carry-over", "{}: response filter found the token {:?}", what, w.header("x-stored").map(show)); }
    Ok(())
}

fn pipeline_case(rng: &mut Rng, cov: &mut Cov) -> CaseResult {
    let n = if big() { rng.range(20, 200) } else { rng.range(1, 6) };
    let ka = !rng.chance(1, 12);
    let with_filter = rng.chance(1, 2);
    let few = big() && rng.chance(1, 3);
    let n = if few { rng.range(2, 8) } else { n };
    let mut reqs: Vec<Req> = (0..n).map(|i| { let was = big(); if was && !few { set_big(false); } let mut r = gen_req(rng, i, i + 1 == n); set_big(was); if was && i + 1 < n { r.v10 = false; if !rng.chance(1, 200) { r.conn = None; } } r }).collect();
    // sometimes break the framing of one body
    let mut how = "";
    let broken = if rng.chance(1, 3) { let i = rng.below(n); if reqs[i].framing != 0 && !(reqs[i].framing != 2 && reqs[i].data.is_empty()) { Some(i) } else { None } } else { None };
    // (the multipart crate reads for ever where the end of a form is missing, see endless_form)
    if let Some(i) = broken { if reqs[i].read == "form" { reqs[i].read = "all".into(); } }
    let mut input = vec![];
    let mut cut_here = None;
    let mut fail_here = None;
    for (i, r) in reqs.iter_mut().enumerate() {
        let mut b = r.bytes();
        if Some(i) == broken {
            r.broken = true;
            let head = b.len() - r.wire_body.len();
            let mode = rng.below(4);
            if mode == 0 || r.framing != 2 { how = "cut"; let k = rng.below(r.wire_body.len()); b.truncate(head + k); input.extend_from_slice(&b); cut_here = Some(input.len()); break; }
            if mode == 1 { how = "read failure"; let k = rng.below(r.wire_body.len()); fail_here = Some(input.len() + head + k); }
            else {
                how = "bad chunk";
                // break it at the start, so that every byte that follows is suspicious
                b.truncate(head);
                let (bytes, data): (&[u8], &[u8]) = *rng.pick(&[(&b"zz\r\nGET /h/evil HTTP/1.1\r\nHost: h\r\n\r\n"[..], &b""[..]), (b"\r\nGET /h/evil HTTP/1.1\r\n\r\n", b""), (b"-5\r\n", b""), (b"3\r\nabcGET /h/evil?resp=send HTTP/1.1\r\nHost: h\r\n\r\n", b"abc"),
                    (b"4 4\r\nabcd\r\n0\r\n\r\n", b""), (b"5\rX", b""), (b"1\r\na\r\n0\r\nGET /h/evil HTTP/1.1\r\n\r\n", b"a"), (b"g\r\n", b""), (b"0x3\r\nabc\r\n0\r\n\r\n", b"")]);
                b.extend_from_slice(bytes);
                r.data = data.to_vec();
            }
        }
        input.extend_from_slice(&b);
    }
    let mut script = Script::new(input.clone());
    match rng.below(5) { _ if big() => script.frag = vec![rng.range(1000, 100_000), rng.range(1, 2000)], 0 => script.frag = vec![1], 1 => script.frag = (0..rng.range(1, 5)).map(|_| rng.range(1, 60)).collect(), 2 => script.frag = vec![rng.range(1, 3000)], _ => {} }
    if let Some(at) = fail_here { script.err_at = Some((at, *rng.pick(&[io::ErrorKind::WouldBlock, io::ErrorKind::TimedOut, io::ErrorKind::ConnectionReset, io::ErrorKind::Other]))); }
    let calls: Calls = Default::default();
    let (inst, seen) = conversation_server(&calls, with_filter, ka);
    let served = serve(&inst, script, ka);
    let calls = calls.lock().unwrap();
    let seen = seen.lock().unwrap();
    let dump = || format!("keep-alive {}, filter {}, {} {:?}\n{}\nout: {}", ka, with_filter, how, broken, reqs.iter().map(|r| format!("  {:?} {} {} v10={} conn={:?} framing={} data={} read={} resp={} late={} order={} rf={} expect={}", r.kind, r.method_sent(), r.target(), r.v10, r.conn, r.framing, r.data.len(), r.read, r.resp, r.late, r.order, r.rf, r.expect)).collect::<Vec<_>>().join("\n"), show_short(&served.out));
    let add = |v: Violation| Violation { sig: v.sig, detail: format!("{}\n{}", v.detail, dump()) };
    if let End::HandlerPanic(ref p) | End::ParsePanic(ref p) = served.end { return bad("panic", format!("{}\n{}", p, dump())); }
    ensure!(served.end != End::Limit, "endless", "{}", dump());
    // which requests are to be served
    let mut expect = 0;
    let mut last_certain = true;
    for r in &reqs {
        expect += 1;
        if !ka || r.closes() { break; }
        if r.broken { last_certain = true; break; }
    }
    let _ = last_certain;
    let served_reqs = &reqs[..expect];
    let rs = parse_all(&served.out, &[]).map_err(|e| add(Violation { sig: "framing".into(), detail: e }))?;
    ensure!(rs.len() == expect, "count", "{} responses to {} requests\n{}", rs.len(), expect, dump());
    ensure!(seen.len() == served_reqs.iter().filter(|r| r.kind != Kind::Invalid).count(), "count", "{} requests reached the filter\n{}", seen.len(), dump());
    let mut si = seen.iter();
    let mut ci = calls.iter();
    for (i, r) in served_reqs.iter().enumerate() {
        if r.kind != Kind::Invalid { let s = si.next().unwrap(); ensure!(s.0 == r.tok && s.1, "carry-over", "filter saw {:?} (storage empty: {}) for request {}\n{}", s.0, s.1, i, dump()); }
        if r.kind == Kind::Handler {
            let c = match ci.next() { Some(c) => c, None => return bad("count", format!("handler did not run for request {}\n{}", i, dump())) };
            check_call(c, r, !r.broken).map_err(&add)?;
        }
        check_answer(&rs[i], r, with_filter).map_err(&add)?;
        let close = rs[i].header("connection").map_or(false, |v| v.eq_ignore_ascii_case(b"close"));
        ensure!(close == (!ka || r.closes()) || r.v10, "connection", "request {}: Connection {:?}\n{}", i, rs[i].header("connection").map(show), dump());
    }
    ensure!(ci.next().is_none(), "count", "handler ran {} times\n{}", calls.len(), dump());
    let _ = cut_here;
    cov.add("requests answered", expect as u64);
    cov.add("handler calls", calls.len() as u64);
    if broken.map_or(false, |b| b < expect) { cov.count(&format!("broken body: {}", how)); }
    let unread = served_reqs.iter().filter(|r| !r.data.is_empty() && (r.kind != Kind::Handler || (r.read != "all" && r.read != "bits" && r.read != "query" && r.read != "form"))).count();
    cov.add("forms read", served_reqs.iter().filter(|r| r.read == "form").count() as u64);
    cov.add("requests with unread body", unread as u64);
    for r in served_reqs { match r.kind { Kind::Handler => {} ref k => cov.count(&format!("{:?}", k)) } if r.expect { cov.count("expect continue"); } if r.v10 { cov.count("HTTP/1.0"); } }
    if expect > 1 { cov.nontrivial(&input); }
    cov.sample(|| dump());
    Ok(())
}

// ---- C30
#[derive(Debug, Clone, PartialEq)]
struct Strict { method: Vec<u8>, target: Vec<u8>, headers: Vec<(Vec<u8>, Vec<u8>)>, body: Content, close: bool }
/// Odd: there is something in the body that is not beyond doubt
#[derive(Debug, Clone, PartialEq)]
enum Content { Whole(Vec<u8>), Cut, Odd }
impl std::fmt::Display for Strict { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{} {}", show(&self.method), show_short(&self.target)) } }
fn tok(c: u8) -> bool { c.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&c) }
/// Parses the requests at the front of the stream that are beyond doubt valid; stops at the first that is not. The last one may
/// have an incomplete body (`body` None).
fn strict_requests(mut b: &[u8]) -> Vec<Strict> {
    let mut out = vec![];
    'next: loop {
        let head = match b.windows(4).position(|w| w == b"\r\n\r\n") { Some(i) => &b[..i], None => return out };
        let rest = &b[head.len() + 4..];
        if head.len() > 60_000 { return out; }
        let mut lines = vec![];
        { let mut h = head; while let Some(i) = h.windows(2).position(|w| w == b"\r\n") { lines.push(&h[..i]); h = &h[i + 2..]; } lines.push(h); }
        if lines.len() > 60 || head.iter().enumerate().any(|(i, &c)| (c < 32 && c != b'\r' && c != b'\n') || c == 127 || (c == b'\r' && head.get(i + 1) != Some(&b'\n')) || (c == b'\n' && (i == 0 || head[i - 1] != b'\r'))) { return out; }
        let parts: Vec<&[u8]> = lines[0].split(|&c| c == b' ').collect();
        if parts.len() != 3 || parts[2] != b"HTTP/1.1" || parts[0].is_empty() || !parts[0].iter().all(|&c| c.is_ascii_uppercase()) || parts[0] == b"HEAD" { return out; }
        if !(parts[1].starts_with(b"/")) || !parts[1].iter().all(|&c| c > 32 && c < 127) { return out; }
        let mut headers = vec![];
        let (mut cl, mut te, mut close) = (None, false, false);
        for l in &lines[1..] {
            let c = match l.iter().position(|&c| c == b':') { Some(c) => c, None => return out };
            if c == 0 || !l[..c].iter().all(|&c| tok(c)) { return out; }
            let name = l[..c].to_ascii_lowercase();
            let mut v = &l[c + 1..];
            if v.iter().any(|&c| c > 126) { return out; }
            while v.first() == Some(&b' ') { v = &v[1..]; }
            while v.last() == Some(&b' ') { v = &v[..v.len() - 1]; }
            match &name[..] {
                b"content-length" => { if cl.is_some() || te || v.is_empty() || v.len() > 9 || !v.iter().all(|c| c.is_ascii_digit()) { return out; } cl = Some(std::str::from_utf8(v).unwrap().parse::<usize>().unwrap()); }
                b"transfer-encoding" => { if cl.is_some() || te || !v.eq_ignore_ascii_case(b"chunked") { return out; } te = true; }
                b"connection" => { if close || !(v.eq_ignore_ascii_case(b"close") || v.eq_ignore_ascii_case(b"keep-alive")) { return out; } if headers.iter().any(|h: &(Vec<u8>, Vec<u8>)| h.0 == b"connection") { return out; } close = v.eq_ignore_ascii_case(b"close"); }
                b"expect" | b"upgrade" | b"te" | b"trailer" => return out,
                _ => {}
            }
            headers.push((name, v.to_vec()));
        }
        let mut r = Strict { method: parts[0].to_vec(), target: parts[1].to_vec(), headers, body: Content::Cut, close };
        if let Some(n) = cl {
            if rest.len() < n { out.push(r); return out; }
            r.body = Content::Whole(rest[..n].to_vec()); b = &rest[n..];
        } else if te {
            let mut d = vec![];
            let mut x = rest;
            loop {
                let i = match x.windows(2).position(|w| w == b"\r\n") { Some(i) => i, None => { out.push(r); return out; } };
                let l = &x[..i];
                let mut digits = l.iter().position(|&c| c == b';').unwrap_or(l.len());
                while digits > 0 && l[digits - 1] == b' ' { digits -= 1; }
                if digits == 0 || digits > 7 || !l[..digits].iter().all(|c| c.is_ascii_hexdigit()) || l.iter().any(|&c| c < 32 || c > 126) { r.body = Content::Odd; out.push(r); return out; }
                let n = usize::from_str_radix(std::str::from_utf8(&l[..digits]).unwrap(), 16).unwrap();
                x = &x[i + 2..];
                if n == 0 { if x.starts_with(b"\r\n") { r.body = Content::Whole(d); b = &x[2..]; break; } else { if x.len() >= 2 { r.body = Content::Odd; } out.push(r); return out; } }
                if x.len() >= n + 2 && &x[n..n + 2] != b"\r\n" { r.body = Content::Odd; }
                if x.len() < n + 2 || &x[n..n + 2] != b"\r\n" { out.push(r); return out; }
                d.extend_from_slice(&x[..n]); x = &x[n + 2..];
            }
        } else { r.body = Content::Whole(vec![]); b = rest; }
        let end = r.close;
        out.push(r);
        if end { return out; }
        continue 'next;
    }
}
struct All { calls: Arc<Mutex<Vec<(Vec<u8>, String, Vec<u8>, bool)>>> }
impl Handler for All {
    fn handle(&self, mut c: Context, r: Response) {
        let mut b = vec![];
        let path = c.uri_path.as_path().map(|p| p.to_vec()).unwrap_or_default();
        // the mode of answering depends on the path, so that it is part of the random input
        let sum: usize = path.iter().map(|&c| c as usize).sum();
        let err = if sum % 4 == 0 { false } else { c.body.read_to_end(&mut b).is_err() };
        let nr = { let mut g = self.calls.lock().unwrap(); g.push((path, c.method.to_string(), b.clone(), err)); g.len() };
        if sum % 3 == 0 && c.http_version == rustful::HttpVersion::Http11 { let mut w = r.into_chunked(); w.send(format!("call {}", nr)); } else { r.send(format!("call {}", nr)); }
    }
}
fn hostile_case(rng: &mut Rng, cov: &mut Cov) -> CaseResult {
    let mut input: Vec<u8> = vec![];
    let n = rng.range(1, 4);
    for i in 0..n { match rng.below(6) {
        0 => input.extend(rng.size(400).min(400).pipe(|k| rng.bytes(k))),
        1 => { // a head of odd lines
            input.extend_from_slice(*rng.pick(&[&b"GET / HTTP/1.1\r\n"[..], b"GET /x HTTP/1.0\r\n", b"GET  / HTTP/1.1\r\n", b"GET / HTTP/2.0\r\n", b"\r\n\r\nGET / HTTP/1.1\r\n", b"GET http://[::1/ HTTP/1.1\r\n", b"PUT http:///x HTTP/1.1\r\n", b"GET /%ff%00?%=%&&=# HTTP/1.1\r\n", b"GET x:/// HTTP/1.1\r\n", b"GET \xff\xfe HTTP/1.1\r\n", b"OPTIONS * HTTP/1.1\r\n", b"GET ** HTTP/1.1\r\n", b"GET ?# HTTP/1.1\r\n", b"GET :80 HTTP/1.1\r\n"]));
            for _ in 0..rng.below(6) { input.extend_from_slice(*rng.pick(&[&b"Host: h\r\n"[..], b"Content-Length: 5\r\n", b"Content-Length: -1\r\n", b"Content-Length: 99999999999999999999\r\n", b"Content-Length: 5, 6\r\n", b"Transfer-Encoding: chunked\r\n", b"Transfer-Encoding: gzip, chunked\r\n", b"Connection: close\r\n", b"Connection: keep-alive, \xff\r\n", b": x\r\n", b"A\r\n", b" folded\r\n", b"X:\x00\r\n", b"Content-Type: multipart/form-data; boundary=\r\n", b"Content-Type: multipart/form-data; boundary=\"a\xffb\"\r\n", b"Expect: 100-continue\r\n", b"X-A: \x80\r\n", b"Host: :::::\r\n", b"Host: \xff\r\n"])); }
            if rng.chance(3, 4) { input.extend_from_slice(b"\r\n"); }
            if rng.chance(1, 2) { input.extend_from_slice(*rng.pick(&[&b"hello"[..], b"5\r\nhello\r\n0\r\n\r\n", b"ffffffffffffffffff\r\n", b"\r\n"])); }
        }
        _ => { let mut r = gen_req(rng, i, false); r.expect = false; if r.read == "form" { r.read = "all".into(); } if r.data.len() > 2000 { r.data.truncate(2000); r.wire_body = if r.framing == 2 { chunk_encode(rng, &r.data) } else { r.data.clone() }; } input.extend(r.bytes()); }
    } }
    // mutations
    for _ in 0..if rng.chance(1, 4) { 0 } else { rng.range(1, 4) } {
        if input.is_empty() { break; }
        let at = rng.below(input.len());
        match rng.below(8) {
            0 => { input[at] = rng.byte(); }
            1 => { input[at] ^= 1 << rng.below(8); }
            2 => { let e = (at + rng.range(1, 8)).min(input.len()); input.drain(at..e); }
            3 => { let k = rng.range(1, 6); let b = rng.bytes(k); for x in b { input.insert(at, x); } }
            4 => { let ins: &[u8] = *rng.pick(&[&b"\r\n"[..], b"\r", b"\n", b"\r\n\r\n", b"\0", b":", b" ", b"0\r\n\r\n", b"Content-Length: 3\r\n", b"\r\nTransfer-Encoding: chunked", b"%", b"\xff", b"HTTP/1.1"]); for &x in ins.iter().rev() { input.insert(at, x); } }
            5 => { input.truncate(at); }
            6 => { let e = (at + rng.range(1, 200)).min(input.len()); let part = input[at..e].to_vec(); let to = rng.below(input.len()); for &x in part.iter().rev() { input.insert(to, x); } }
            _ => { let o = rng.below(input.len()); input.swap(at, o); }
        }
    }
    if rng.chance(1, 60) { let mut big = b"GET /big HTTP/1.1\r\n".to_vec(); let k = *rng.pick(&[50usize, 120, 3000]); for i in 0..k { big.extend_from_slice(format!("X-{}: {}\r\n", i, "v".repeat(rng.below(60))).as_bytes()); } big.extend_from_slice(b"\r\n"); big.extend_from_slice(&input); input = big; }
    let mut script = Script::new(input.clone());
    match rng.below(5) { 0 => script.frag = vec![1], 1 => script.frag = vec![rng.range(2, 30), rng.range(1, 500)], 2 => script.frag = vec![rng.range(1, 7)], _ => {} }
    script.read_err_at_end = rng.chance(1, 4);
    let ka = rng.chance(3, 4);
    let calls: Arc<Mutex<Vec<_>>> = Default::default();
    let mut server = Server::new(All { calls: calls.clone() });
    if ka { server.keep_alive = keep(0); }
    let inst = server.build();
    let served = serve(&inst, script, ka);
    let calls = calls.lock().unwrap();
    let what = format!("input {}", if input.len() > 1200 { format!("{}...", show(&input[..1200])) } else { show(&input) });
    let known = match served.end {
        End::HandlerPanic(ref p) => return bad("panic", format!("{}\n{}", p, what)),
        End::Limit => return bad("endless", what),
        End::ParsePanic(ref p) => if p.contains("hyper") && p.contains("server/request.rs") { Some(p.clone()) } else { return bad("parse panic", format!("{}\n{}", p, what)) },
        _ => None,
    };
    // one well-formed response per request that was parsed, in order
    let rs = parse_all(&served.out, &[]).map_err(|e| Violation { sig: "framing".into(), detail: format!("{}\n{}\nout {}", e, what, show_short(&served.out)) })?;
    ensure!(rs.iter().all(|r| r.complete && r.framing != Framing::Close || r.status == 204), "framing", "incomplete response {:?}\n{}", rs, what);
    ensure!(rs.len() == served.requests, "count", "{} responses to {} parsed requests\n{}\nout {}", rs.len(), served.requests, what, show_short(&served.out));
    let mut nr = 0;
    for r in &rs { if r.body.starts_with(b"call ") { nr += 1; ensure!(r.body == format!("call {}", nr).as_bytes() && r.status == 200, "order", "{:?}\n{}", r, what); } }
    ensure!(nr == calls.len(), "count", "{} handler calls, {} answers of theirs\n{}", calls.len(), nr, what);
    // no handler without a complete head
    let heads = input.windows(4).filter(|w| *w == b"\r\n\r\n").count() + input.windows(2).filter(|w| *w == b"\n\n").count() + input.windows(3).filter(|w| *w == b"\n\r\n").count();
    ensure!(calls.len() <= heads, "incomplete head", "{} handler calls, at most {} heads\n{}", calls.len(), heads, what);
    // what is beyond doubt valid must have been handled
    let mut sure = strict_requests(&input);
    if !ka { sure.truncate(1); }
    ensure!(rs.len() >= sure.len(), "unanswered", "{} valid requests, {} responses ({:?})\n{}", sure.len(), rs.len(), served.end, what);
    for (i, s) in sure.iter().enumerate() {
        let (path, _, _) = crate::targets::model_target(&s.target);
        ensure!(calls.len() > i && calls[i].0 == path && calls[i].1.as_bytes() == &s.method[..], "dispatch", "valid request {} {} was handled as {:?}\n{}", i, s, calls.get(i).map(|c| (show(&c.0), &c.1)), what);
        let sum: usize = path.iter().map(|&c| c as usize).sum();
        if sum % 4 != 0 { match s.body {
            Content::Odd => {}
            Content::Whole(ref b) => ensure!(&calls[i].2 == b && !calls[i].3, "body", "valid request {} {}: read {} (error {})\n{}", i, s, show_short(&calls[i].2), calls[i].3, what),
            Content::Cut => ensure!(calls[i].3, "body", "request {} {}: incomplete body presented as complete: {}\n{}", i, s, show_short(&calls[i].2), what),
        } }
        let close = rs[i].header("connection").map_or(false, |v| v.eq_ignore_ascii_case(b"close"));
        ensure!(close == (s.close || !ka), "connection", "valid request {}: Connection {:?}\n{}", i, rs[i].header("connection").map(show), what);
    }
    if let Some(s) = sure.last() { if s.body == Content::Cut || s.close || !ka { ensure!(rs.len() == sure.len(), "beyond", "{} responses, the connection had to be closed after {}\n{}", rs.len(), sure.len(), what); } }
    cov.add("valid requests", sure.len() as u64);
    cov.add("responses", rs.len() as u64);
    match served.end { End::ParseError(ref e) => cov.count(&format!("end: {}", e.chars().take(40).collect::<String>())), End::ParsePanic(_) => cov.count("end: panic inside hyper"), _ => cov.count("end: closed") }
    cov.nontrivial(&input);
    cov.sample(|| show_short(&input));
    if let Some(p) = known { return bad("hyper-content-length-panic", format!("{}\n{}", p, what)); }
    Ok(())
}
trait Pipe: Sized { fn pipe<T, F: FnOnce(Self) -> T>(self, f: F) -> T { f(self) } }
impl Pipe for usize {}
/// Every prefix of a conversation, as a connection that ends there.
fn prefix_case(rng: &mut Rng, cov: &mut Cov) -> CaseResult {
    let n = rng.range(1, 3);
    let mut input = vec![];
    for i in 0..n { let mut r = gen_req(rng, i, false); r.expect = false; r.v10 = false; if r.read == "form" { r.read = "all".into(); } r.data.truncate(40); r.wire_body = if r.framing == 2 { chunk_encode(rng, &r.data) } else { r.data.clone() }; if r.kind == Kind::Star || r.kind == Kind::Invalid { r.kind = Kind::Handler; r.method = "POST"; } input.extend(r.bytes()); }
    for cut in 0..=input.len() {
        let calls: Arc<Mutex<Vec<_>>> = Default::default();
        let mut server = Server::new(All { calls: calls.clone() });
        server.keep_alive = keep(0);
        let mut script = Script::new(input[..cut].to_vec());
        if rng.chance(1, 2) { script.frag = vec![rng.range(1, 50)]; }
        script.read_err_at_end = rng.chance(1, 4);
        let served = serve(&server.build(), script, true);
        let what = format!("input cut at {}: {}", cut, show(&input[..cut]));
        if let End::HandlerPanic(ref p) | End::ParsePanic(ref p) = served.end { return bad("panic", format!("{}\n{}", p, what)); }
        let sure = strict_requests(&input[..cut]);
        let rs = parse_all(&served.out, &[]).map_err(|e| Violation { sig: "framing".into(), detail: format!("{}\n{}", e, what) })?;
        let n = calls.lock().unwrap().len();
        ensure!(rs.len() == sure.len() && n == sure.len() && rs.iter().all(|r| r.complete), "prefix", "{} requests with a complete head, {} handler calls, {} responses\n{}", sure.len(), n, rs.len(), what);
        cov.count("connections cut");
    }
    cov.nontrivial(&input);
    Ok(())
}
/// Unparsable lengths, which hyper does not survive (known finding).
fn length_case(rng: &mut Rng, cov: &mut Cov) -> CaseResult {
    let calls: Arc<Mutex<Vec<_>>> = Default::default();
    let inst = Server::new(All { calls: calls.clone() }).build();
    let v: &[u8] = *rng.pick(&[&b"abc"[..], b"-1", b"5, 6", b"99999999999999999999", b"", b"0x5", b"\xff"]);
    let mut input = request("POST", b"/x", &[("Host", b"h"), ("Content-Length", v)], b"hello");
    if rng.chance(1, 2) { input.extend_from_slice(b"GET /evil HTTP/1.1\r\n\r\n"); }
    let served = serve(&inst, Script::new(input), true);
    cov.count("unparsable length"); cov.nontrivial(v);
    ensure!(calls.lock().unwrap().iter().all(|c| c.0 != b"/evil"), "smuggled", "Content-Length: {}", show(v));
    match served.end {
        End::ParsePanic(ref p) if p.contains("hyper") && p.contains("server/request.rs") => bad("hyper-content-length-panic", format!("Content-Length: {} panics in {}", show(v), p)),
        End::ParsePanic(p) | End::HandlerPanic(p) => bad("panic", format!("Content-Length: {} panics: {}", show(v), p)),
        _ => Ok(()),
    }
}

pub fn run(r: &mut Run) {
    match &r.id.clone()[..] {
        "C11" => {
            r.cases("bodies", 60_000, 2_000_000, body_case); r.large("bodies", 150, 20_000, body_case);
            // the harness is built without the feature too
            if cfg!(feature = "multipart") { r.cases("multipart", 15_000, 400_000, multipart_case); r.large("multipart", 60, 4000, multipart_case); r.cases("recorded defect: boundary panic", 1, 1, |_, c| multipart_findings(true, c)); r.cases("recorded defect: small pieces", 1, 1, |_, c| multipart_findings(false, c)); r.cases("recorded defect: boundary parameters", 1, 1, mime_findings); r.cases("recorded defect: endless form", 1, 1, endless_finding); }
        }
        "C12" => { r.cases("conversations", 60_000, 2_000_000, pipeline_case); r.large("conversations", 400, 20_000, pipeline_case); }
        "C30" => { r.cases("hostile streams", 120_000, 4_000_000, hostile_case); r.cases("cut connections", 150, 5_000, prefix_case); r.cases("unparsable lengths", 50, 500, length_case); }
        _ => unreachable!(),
    }
}
