//! Sizes beyond what the other sections generate: tens of megabytes for real, and more than 32 bits of it as announced.
use crate::core::*;
use crate::wire::*;
use rustful::{Context, Response, Server};
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::sync::{Arc, Mutex};

fn fill(seed: u8, n: usize) -> Vec<u8> { (0..n).map(|i| (i as u32).wrapping_mul(2654435761).wrapping_add(seed as u32).to_be_bytes()[0] ^ (i >> 13) as u8).collect() }
fn amount(rng: &mut Rng) -> usize { match rng.below(3) { 0 => (16usize << 20) + rng.below(9), 1 => (1usize << rng.range(24, 26)) - 1, _ => rng.range(9 << 20, 70 << 20) } }

/// C11: bodies of many megabytes, and lengths beyond 32 bits.
pub fn bodies(rng: &mut Rng, cov: &mut Cov) -> CaseResult {
    let short = rng.chance(1, 2);
    let n = if short { rng.below(2000) } else { amount(rng) };
    let data = fill(rng.byte(), n);
    let announced = if short { *rng.pick(&[1u64 << 32, (1 << 32) - n as u64, 1 << 33, u64::MAX - 10, u64::MAX >> 1, 1 << 31]) + n as u64 % 5 } else { n as u64 };
    let chunked = !short && rng.chance(1, 2);
    let mut input = b"POST / HTTP/1.1\r\nHost: h\r\n".to_vec();
    if chunked {
        input.extend_from_slice(b"Transfer-Encoding: chunked\r\n\r\n");
        let size = *rng.pick(&[4096usize, 70_000, 5_000_000, 1 << 30]);
        for c in data.chunks(size) { input.extend_from_slice(format!("{:x}\r\n", c.len()).as_bytes()); input.extend_from_slice(c); input.extend_from_slice(b"\r\n"); }
        input.extend_from_slice(b"0\r\n\r\n");
    } else { input.extend_from_slice(format!("Content-Length: {}\r\n\r\n", announced).as_bytes()); input.extend_from_slice(&data); }
    let got: Arc<Mutex<Option<(Vec<u8>, bool)>>> = Default::default();
    let g = got.clone();
    let piece = rng.range(1000, 200_000);
    let inst = Server::new(move |mut c: Context, r: Response| {
        let (mut all, mut buf, mut ok) = (vec![], vec![0; piece], true);
        loop { match c.body.read(&mut buf) { Ok(0) => break, Ok(n) => all.extend_from_slice(&buf[..n]), Err(_) => { ok = false; break } } }
        *g.lock().unwrap() = Some((all, ok));
        r.send("done");
    }).build();
    let s = serve(&inst, Script::new(input), false);
    let what = format!("a body of {} bytes, {}", n, if chunked { "chunked".to_string() } else { format!("announced as {}", announced) });
    if let End::HandlerPanic(p) | End::ParsePanic(p) = s.end { return bad("panic", format!("{}: {}", what, p)); }
    match got.lock().unwrap().take() {
        None => { ensure!(short, "body", "{}: not handled: {:?}", what, s.end); cov.count("not handled"); }
        Some((all, ok)) => {
            ensure!(all == data, "body", "{}: {} bytes read, the first {} as sent", what, all.len(), all.iter().zip(&data).take_while(|(a, b)| a == b).count());
            ensure!(ok != short, "complete", "{}: presented as {}", what, if ok { "complete" } else { "broken" });
            cov.max("max body bytes", n as u64);
            cov.count(if short { "announced but not sent" } else { "huge bodies" });
        }
    }
    cov.nontrivial(&(n, announced, chunked));
    Ok(())
}

/// C19, C20: contents of many megabytes, and raw responses announced beyond 32 bits.
pub fn contents(streams: bool, rng: &mut Rng, cov: &mut Cov) -> CaseResult {
    let raw_length = rng.chance(1, 3);
    let n = if raw_length { rng.below(3000) } else { amount(rng) };
    let data = Arc::new(fill(rng.byte(), n));
    let announced = *rng.pick(&[1u64 << 32, (1 << 32) + 5, 1 << 40, (1 << 31) + 7, u64::MAX / 2]) + rng.below(3) as u64;
    let how = if raw_length { 3 } else if streams { rng.range(1, 2) } else { 0 };
    let pieces: Vec<usize> = (0..rng.range(1, 4)).map(|_| *rng.pick(&[7000usize, 65_536, 65_537, 1_000_000, 20_000_000])).collect();
    let (d, p) = (data.clone(), pieces.clone());
    let told: Arc<Mutex<(u64, bool)>> = Default::default();
    let t = told.clone();
    let inst = Server::new(move |_: Context, r: Response| {
        let mut told = (0u64, true);
        let mut rest = &d[..];
        let mut k = 0;
        let mut next = || { let n = p[k % p.len()].min(rest.len()); k += 1; let (a, b) = rest.split_at(n); rest = b; a };
        match how {
            0 => { r.send((*d).clone()); told.0 = d.len() as u64; }
            1 => { let mut w = r.into_chunked(); loop { let a = next(); if a.is_empty() { break; } match w.try_send(a) { Ok(n) => told.0 += n as u64, Err(_) => told.1 = false } } told.1 &= w.end().is_ok(); }
            2 => { let mut w = unsafe { r.into_raw(d.len() as u64) }; loop { let a = next(); if a.is_empty() { break; } match w.write_all(a) { Ok(()) => told.0 += a.len() as u64, Err(_) => told.1 = false } } told.1 &= w.end().is_ok(); }
            _ => { let mut w = unsafe { r.into_raw(announced) }; w.send(&d[..]); told.0 = d.len() as u64; }
        }
        *t.lock().unwrap() = told;
    }).build();
    let s = serve(&inst, Script::new(request("GET", b"/", &[("Host", b"h")], b"")), false);
    let what = format!("{} of {} bytes{}", ["content", "chunked response", "raw response", "raw response"][how], n, if how == 3 { format!(" announced as {}", announced) } else { String::new() });
    if let End::HandlerPanic(p) | End::ParsePanic(p) = s.end { return bad("panic", format!("{}: {}", what, p)); }
    let rs = parse_all(&s.out, &[]).map_err(|e| Violation { sig: "malformed".into(), detail: format!("{}: {}", what, e) })?;
    ensure!(rs.len() == 1 && rs[0].status == 200, "count", "{}: {} responses", what, rs.len());
    let r = &rs[0];
    ensure!(r.body == *data, "content", "{}: {} bytes arrived, the first {} as sent", what, r.body.len(), r.body.iter().zip(data.iter()).take_while(|(a, b)| a == b).count());
    let want = if how == 3 { announced } else { n as u64 };
    if how == 1 { ensure!(r.framing == Framing::Chunked && r.complete, "framing", "{}: {:?}", what, r.framing); }
    else { ensure!(r.framing == Framing::Length(want) && r.complete == (how != 3), "length", "{}: {:?}", what, r.framing); }
    let told = told.lock().unwrap();
    ensure!(*told == (n as u64, true), "told", "{}: told {:?}", what, *told);
    cov.count(if how == 3 { "announced beyond 32 bits" } else { "huge contents" });
    cov.max("max content bytes", n as u64);
    cov.nontrivial(&(n, how, &pieces, announced));
    Ok(())
}

/// C18: sparse files beyond 32 bits; of most only the head and some of the zeros are taken.
pub fn files(rng: &mut Rng, cov: &mut Cov) -> CaseResult {
    let dir = crate::responses::Scratch::new("huge");
    let tail = fill(rng.byte(), rng.range(1, 5000));
    let hole = *rng.pick(&[1u64 << 32, (1 << 32) + 5, (1 << 33) + 1, (1 << 31) - 3, (1 << 32) - 2000]);
    let len = hole + tail.len() as u64;
    let path = dir.0.join("huge.txt");
    let made = std::fs::File::create(&path).and_then(|mut f| { f.set_len(hole)?; f.seek(SeekFrom::Start(hole))?; f.write_all(&tail)?; f.metadata() });
    match made { Ok(ref m) if m.len() == len => {} _ => { cov.count("no sparse files here"); return Ok(()); } }
    let at = if rng.chance(1, 2) { Some(hole - rng.below(3000) as u64 + rng.below(10) as u64) } else { None };
    let p = path.clone();
    let inst = Server::new(move |_: Context, r: Response| match at {
        None => { let _ = r.try_send(&*p); }
        Some(at) => { let mut f = std::fs::File::open(&p).unwrap(); f.seek(SeekFrom::Start(at)).unwrap(); let _ = r.try_send(f); }
    }).build();
    let script = Script { write_fail_at: if at.is_some() { None } else { Some(rng.range(600, 60_000)) }, ..Script::new(request("GET", b"/", &[("Host", b"h")], b"")) };
    let s = serve(&inst, script, false);
    let what = format!("a file of {} bytes, from {:?}", len, at);
    if let End::HandlerPanic(p) | End::ParsePanic(p) = s.end { return bad("panic", format!("{}: {}", what, p)); }
    let rs = parse_all(&s.out, &[]).map_err(|e| Violation { sig: "malformed".into(), detail: format!("{}: {}", what, e) })?;
    ensure!(rs.len() == 1 && rs[0].status == 200, "count", "{}: {} responses", what, rs.len());
    let r = &rs[0];
    let want = len - at.unwrap_or(0);
    ensure!(r.framing == Framing::Length(want), "length", "{}: {:?}, want {}", what, r.framing, want);
    match at {
        Some(at) => {
            let zeros = hole.saturating_sub(at) as usize;
            ensure!(r.complete && r.body[..zeros].iter().all(|b| *b == 0) && r.body[zeros..] == tail[tail.len() - (r.body.len() - zeros)..] && r.body.len() as u64 == want, "content", "{}: {} bytes {}", what, r.body.len(), show_short(&r.body));
        }
        None => ensure!(!r.complete && r.body.iter().all(|b| *b == 0), "content", "{}: {} bytes {}", what, r.body.len(), show_short(&r.body)),
    }
    cov.count(if at.is_some() { "ends of huge files" } else { "heads of huge files" });
    cov.max("max file length", len);
    cov.nontrivial(&(len, at));
    Ok(())
}
