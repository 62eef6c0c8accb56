#![allow(dead_code, unused_imports)]
#[macro_use]
mod core;
mod wire;
mod routes;
mod compose;
mod types;
mod targets;
mod bodies;
mod responses;
mod filters;
mod net;
mod mocks;
mod ub;
mod built;
mod kinds;
mod leaks;
mod long;
mod huge;

#[global_allocator]
static COUNTING: crate::core::Counting = crate::core::Counting;

use crate::core::*;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map_or(false, |a| a == "endless-form") { bodies::endless_form(); return; }
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let id = args.get(1).cloned().unwrap_or_default();
    let tier = if get("--tier").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick };
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let only_case = get("--case").and_then(|s| u64::from_str_radix(s.trim_start_matches("0x"), 16).ok());
    let verif = get("--verif").unwrap_or_else(|| "/verif".into());
    let threads = get("--threads").and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4));
    let scale = get("--scale").and_then(|s| s.parse().ok()).unwrap_or(if tier == Tier::Quick { 10.0 } else { 1.0 });
    if let Some(n) = get("--section-secs").and_then(|s| s.parse().ok()) { SECTION_SECS.store(n, std::sync::atomic::Ordering::Relaxed); }
    install_panic_hook();
    let mut r = Run { id: id.clone(), tier, seed, known: Known::load(&format!("{}/known_findings.txt", verif)), replay_dir: format!("{}/out", verif), only_case, threads, scale,
        cov: Cov::default(), violations: vec![], known_seen: Default::default(), start: std::time::Instant::now(), inconclusive: vec![] };
    if id == "C29" { ub::run(&mut r, &get("--part").unwrap_or("own".into())); } else { dispatch(&mut r); }
    std::process::exit(finish(r, get("--evidence")));
}

pub fn dispatch(r: &mut Run) {
    if !LEFT_BEHIND.load(std::sync::atomic::Ordering::Relaxed) && ["C01", "C02", "C03", "C05", "C07", "C12", "C19", "C21", "C23", "C24", "C26", "C28"].contains(&&r.id[..]) {
        let id = r.id.clone();
        r.cases("long-lived", 5, 800, move |g, c| long::case(&id, g, c));
    }
    if !LEFT_BEHIND.load(std::sync::atomic::Ordering::Relaxed) && !cfg!(miri) {
        let t = r.threads;
        r.threads = t.min(4); // for the memory they take
        match &r.id.clone()[..] {
            "C11" => r.cases("huge", 3, 300, huge::bodies),
            "C18" => r.cases("huge", 20, 1000, huge::files),
            "C19" => r.cases("huge", 3, 300, |g, c| huge::contents(false, g, c)),
            "C20" => r.cases("huge", 3, 300, |g, c| huge::contents(true, g, c)),
            _ => {}
        }
        r.threads = t;
    }
    match &r.id.clone()[..] {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C07" => routes::run(r),
        "C06" => compose::run(r),
        "C08" | "C09" | "C10" => targets::run(r),
        "C11" | "C12" | "C30" => bodies::run(r),
        "C18" | "C19" | "C20" | "C24" | "C25" => responses::run(r),
        "C21" | "C22" | "C23" => filters::run(r),
        "C26" | "C27" | "C28" | "C32" => net::run(r),
        "C31" => mocks::run(r),
        "C38" => leaks::run(r),
        "C33" | "C34" => built::run(r),
        "C35" | "C36" | "C37" => kinds::run(r),
        "C13" | "C14" | "C15" | "C16" | "C17" => types::run(r),
        other => { eprintln!("no such property: {}", other); std::process::exit(2); }
    }
}

/// Rules: how cases are made and what makes one non-trivial.
fn rule(id: &str) -> &'static str {
    match id {
        "C01" => "random overlapping route tables (built twice: random construction, reordered, opposite hyperlink setting) x random requests sent through the server pipeline; non-trivial: distinct (table, method, target) where some position matches or the path has several segments",
        "C02" => "as C01 with 3-9 overlapping routes; non-trivial: distinct (table, method, target) where at least two router positions match and a handler must run",
        "C03" => "as C01; non-trivial: distinct (table, method, target) whose handler must see at least one variable",
        "C04" => "random construction programs (nesting, merging, prefixes, replacement, get_path, from_iter) against the flat registration list; non-trivial: distinct (table, method, target) dispatched in a table with several routes",
        "C05" => "as C01, and the nested routers of C06 (statuses and bodies of what is rejected there); non-trivial: distinct (table, method, target) that is rejected or passes rejecting candidates",
        "C06" => "random nested routers (tree, method, status, option, fallback, variables, rejecting probes, boxed and shared handlers) x requests, the visit trace and everything each part sees compared with an interpreter; non-trivial: distinct (router, request) that visits several parts or falls back",
        "C07" => "as C01 with hyperlinks on; non-trivial: distinct (table, target) whose handler must see at least two links",
        "C08" => "random origin-form targets (raw UTF-8, every kind of escape, malformed escapes, repeated delimiters) sent to a plain handler or a routed one, what filter and handler see compared with an independent decoder; non-trivial: distinct targets with escapes",
        "C09" => "random absolute-form targets vs. the origin-form request for the same path and query (two runs compared), asterisk targets with filter stacks, invalid targets; non-trivial: distinct targets with a query or a path",
        "C10" => "random byte-string maps encoded in different styles and random/malformed parameter strings, sent in the target or in a sized or chunked body, against the map or an independent decoder; non-trivial: distinct texts with several parameters",
        "C11" => "random contents, framings (none, length, chunked with extensions), wire fragmentations, truncations and read patterns, plus multipart forms; non-trivial: distinct (framing, content, read pattern, cut) with several bytes, distinct multipart bodies with several fields",
        "C12" => "random pipelines of 1-6 requests (handled, rejected, aborted, asterisk, invalid) with bodies read in part or not at all, every response style, filters, HTTP/1.0, expectations, and bodies with broken framing, cut or failing; non-trivial: distinct byte streams in which several requests are answered",
        "C30" => "valid, odd and random requests, mutated, fragmented and cut at any point, against a strict independent request parser (what is beyond doubt valid must be handled; everything must be answered well-formed); non-trivial: distinct byte streams",
        "C13" => "random sequences of pushes, buffer edits and conversions around UTF-8 boundaries, every view checked after each step against the byte string, then comparisons with a related string in every type and both orders; non-trivial: distinct final (string, other) whose validity changed on the way or that is invalid",
        "C14" => "random constructor (empty, boxed, every tuple arity, repeated types) and insertions over 12 metered types plus odd ones, all lookups checked after each step, drops counted; some stores read by several threads; non-trivial: distinct histories with at least two stored types",
        "C15" => "random operation sequences over a small key pool, every lookup form, typed access and iteration checked after each step against a byte-string map; non-trivial: distinct final maps with several entries or invalid UTF-8 names",
        "C16" => "random relative and absolute paths with parent, current, empty, odd and invalid components in every input type against a lexical resolver; non-trivial: distinct paths",
        "C17" => "every extension registered in build/apache/mime.types (exhaustive) plus random, mutated and unregistered strings; non-trivial: distinct extensions",
        "C18" => "files of every length class, links, missing, unreadable and impossible paths in scratch directories x every way of sending a file x presets, filters and ways of handling the error, against what the system itself says about the path; also with the peer gone half way; non-trivial: distinct (name, way, content, position) with several bytes sent, distinct (kind, way, handling) of failures",
        "C19" => "random programs over the response interface (presets including wrong lengths, moves, every way of sending and ending), 1-4 per connection, short and interrupted writes; non-trivial: distinct programs with presets or a body of several bytes",
        "C20" => "random operation sequences on chunked and raw responses (send, try_send, write, write_all, vectored, formatting, buffered writers, copying, flushing), then the same kind of programs with the peer gone at a random byte; non-trivial: distinct programs",
        "C21" => "random stacks of 0-5 filters (up to 300 in the large section; adding at begin and end, wrapping, dropping, shortening, doubling, reversing, emptying) x 1-4 requests per connection (handled in every response style, rejected, aborted, invalid), every call logged by the filters themselves with storage sequence numbers and compared per filter with the piece-path model; non-trivial: distinct (stack, program) with at least three calls",
        "C22" => "as C21 with silent and erring aborts at begin, write and end; non-trivial: distinct (stack, program) with at least three calls where an abort of either kind can happen",
        "C23" => "random stacks of 1-6 context filters (up to 400 in the large section; rewriting path, method, headers, query, fragment, address, variables, reading the body, aborting, conditionally) in front of a router x 1-5 requests per connection, what each filter and handler sees compared with a fold; non-trivial: distinct (stack, request, result) that several filters see or that is aborted",
        "C24" => "random configurations x handlers and filters that replace or remove headers x handled, rejected, aborted and invalid requests; non-trivial: distinct (configuration, operations, requests)",
        "C26" => "random histories of connections opening, closing, being served (every kind of answer, Connection header, panics, connections coming and going meanwhile) on one instance, and the same over TCP with real workers; every response's Connection header against the number of open connections; non-trivial: distinct (threads, policy, open, request, history position)",
        "C27" => "storms of concurrent clients (reused, pipelining, slow, abandoning connections) with unique tokens in every part of the request, against the token each response carries and what ran; meetings in which as many handlers as there are threads wait for each other; non-trivial: distinct (threads, clients, requests, handled, most at once)",
        "C28" => "panics at 8 points of handling x 11 kinds of request x 0-2 filters, the same conversation compared before and after, then over TCP with bystanders and a meeting of all workers after each round; non-trivial: distinct (kind, point, filters, position, output length)",
        "C29" => "random edits of possibly-UTF-8 strings, requests full of escapes and stores of heap-owning values with panicking drops, with oracles for invalid strings and double drops; the workloads of all other properties (hostile streams, TCP storms, panics, ... ) under AddressSanitizer, the TCP ones under ThreadSanitizer, the in-memory ones under Miri, whose reports decide; non-trivial: as in the borrowed workloads",
        "C31" => "random routers (flat tables with handlers running random response programs, and nested routers of every kind) x requests, run once through the real server and once with mocks: traces, views, results of every operation and rejections compared; files in mocks; non-trivial: distinct (request, program) handled, distinct (router, request) visiting several parts",
        "C32" => "random addresses in every form a Host is made of, mutated address texts, and real servers on loopback addresses and ports (plain and wrapped streams, given and default thread counts), asked from outside; non-trivial: distinct texts and (address, security, threads)",
        "C33" => "18 typed compositions of routers x random building programs (insertions, sections, merges of separately built routers, own context values); every part's record of what it was told and the parts found compared with a flat description; non-trivial: distinct (type, description)",
        "C34" => "random paths and sequences of operations on the route state, clones and snapshots included, against a list of segments; non-trivial: distinct (path, operations)",
        "C35" => "random routers built twice, of plain handlers and of the same in another form (function, closure, Arc, Box, nestings of them), and the same requests to both, some going on to the handler of a hyperlink; non-trivial: distinct (form, routes, method, target) handled",
        "C36" => "random contents in every form and back (sizes up to megabytes), all kinds of I/O errors and filter messages in every error, opened files that fail; non-trivial: distinct contents and errors",
        "C37" => "content types written with the macro in every combination of names and strings (also computed ones, with up to four parameters), set for a server, a response or a stream; oracle: the type put together from its parts by the mime crate, and the header on the wire",
        "C38" => "the in-memory cases of the other properties, each repeated on the same thread under a counting allocator until what is live is steady (lost: more after each of six repetitions), files and failing opens also with the open files counted; and conversations over TCP (normal, abandoned, panicking, idle) after which sockets and memory of the process have to return; non-trivial: distinct cases of the other properties",
        "C25" => "random values of 24 nested content types, sent directly or from factories with random presets, against an independent model; non-trivial: distinct (type, status, body)",
        _ => "",
    }
}

fn finish(r: Run, evidence: Option<String>) -> i32 {
    let wall = r.start.elapsed().as_secs_f64();
    let tier = if r.tier == Tier::Quick { "quick" } else { "thorough" };
    for (sig, text) in &r.known_seen { println!("KNOWN-FINDING: property={} {} [{}]", r.id, text, sig); }
    let mut code = 0;
    for (case, v) in r.violations.iter().take(3) {
        report(&r.id, r.tier, r.seed, &r.replay_dir, *case, v);
        code = 1;
    }
    if let Some(p) = evidence {
        let mut s = String::new();
        s.push_str(&format!("{{\n \"property\": {}, \"tier\": \"{}\", \"seed\": {}, \"level\": \"exploration\",\n", json_str(&r.id), tier, r.seed));
        s.push_str(&format!(" \"coverage\": {{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {},\n", r.cov.evaluations, r.cov.distinct.len(), json_str(rule(&r.id))));
        s.push_str("  \"observed\": {");
        s.push_str(&r.cov.counters.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", "));
        s.push_str("},\n  \"samples\": [");
        s.push_str(&r.cov.samples.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(",\n   "));
        s.push_str(&format!("]}},\n \"wall_s\": {:.2}, \"violations\": {}\n}}\n", wall, r.violations.len()));
        if std::fs::write(&p, s).is_err() { eprintln!("cannot write {}", p); }
    }
    println!("{} {} seed {}: {} cases, {} distinct non-trivial, {:.1}s, {} violation(s)", r.id, tier, r.seed, r.cov.evaluations, r.cov.distinct.len(), wall, r.violations.len());
    for (k, v) in &r.cov.counters { println!("   {}: {}", k, v); }
    for i in &r.inconclusive { println!("INCONCLUSIVE: {}", i); }
    if code == 0 && r.only_case.is_none() && (r.cov.distinct.len() == 0 || !r.inconclusive.is_empty()) { println!("nothing decided: too little was observed"); code = 2; }
    code
}
