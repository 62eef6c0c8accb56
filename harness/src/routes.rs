//! C01 C02 C03 C04 C05 C07 C31(routing part): route tables against a reference matcher.
use crate::core::*;
use crate::wire::*;
use rustful::context::hypermedia::SegmentType;
use rustful::context::hypermedia::Link;
use rustful::handler::{ApplyContext, Build as Buildable, BuilderContext, Environment, FromHandler, HandleRequest, Merge, MethodRouter, TreeRouter, Variables};
use rustful::{Context, DefaultRouter, Handler, Method, Response, Server, StatusCode};
use rustful::handler::tree_router::Builder;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Seg { Static(Vec<u8>), Var(Vec<u8>), Seq(Vec<u8>) }
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Shape { Static(Vec<u8>), Var, Seq }
impl Seg {
    pub fn shape(&self) -> Shape { match self { Seg::Static(s) => Shape::Static(s.clone()), Seg::Var(_) => Shape::Var, Seg::Seq(_) => Shape::Seq } }
    pub fn bytes(&self) -> Vec<u8> { match self { Seg::Static(s) => s.clone(), Seg::Var(n) => [b":", &n[..]].concat(), Seg::Seq(n) => [b"*", &n[..]].concat() } }
}

/// Independent segmenting of a route or path: one leading and one trailing slash are insignificant.
pub fn model_segments(p: &[u8]) -> Vec<Vec<u8>> {
    let mut s = p;
    if s.first() == Some(&b'/') { s = &s[1..]; }
    if s.last() == Some(&b'/') { s = &s[..s.len() - 1]; }
    if s.is_empty() { return vec![]; }
    let mut v = vec![vec![]];
    for &c in s { if c == b'/' { v.push(vec![]) } else { v.last_mut().unwrap().push(c) } }
    v
}
pub fn parse_route(p: &[u8]) -> Vec<Seg> {
    model_segments(p).into_iter().map(|s| match s.first() { Some(b':') => Seg::Var(s[1..].to_vec()), Some(b'*') => Seg::Seq(s[1..].to_vec()), _ => Seg::Static(s) }).collect()
}
/// A string that segments to exactly `segs`, with random decoration; None if there is none.
pub fn render(rng: &mut Rng, segs: &[Seg]) -> Option<Vec<u8>> {
    let parts: Vec<Vec<u8>> = segs.iter().map(|s| s.bytes()).collect();
    let j = parts.join(&b'/');
    if segs.is_empty() { return Some(if rng.chance(1, 2) { b"/".to_vec() } else { vec![] }); }
    if j.is_empty() { return None; }
    let mut v = vec![];
    if j[0] == b'/' || rng.chance(1, 2) { v.push(b'/'); }
    v.extend_from_slice(&j);
    if *j.last().unwrap() == b'/' || rng.chance(1, 3) { v.push(b'/'); }
    debug_assert_eq!(parse_route(&v), segs);
    Some(v)
}

#[derive(Clone, Debug)]
pub struct Reg { pub method: Option<Method>, pub route: Vec<Seg>, pub id: usize }

pub struct Model { pub regs: Vec<Reg>, pub nodes: BTreeSet<Vec<Shape>> }
pub type Vars = BTreeMap<Vec<u8>, Vec<u8>>;
#[derive(Debug, Clone, PartialEq)]
pub struct Pick { pub id: usize, pub vars: Vars }

impl Model {
    /// `extra_nodes`: positions that exist without a handler.
    pub fn new(regs: &[Reg], extra_nodes: &[Vec<Seg>]) -> Model {
        let mut nodes = BTreeSet::new();
        for r in regs.iter().map(|r| &r.route).chain(extra_nodes.iter()) {
            let sh: Vec<Shape> = r.iter().map(|s| s.shape()).collect();
            for i in 0..=sh.len() { nodes.insert(sh[..i].to_vec()); }
        }
        nodes.insert(vec![]);
        Model { regs: regs.to_vec(), nodes }
    }
    /// The registration in force for a position and method.
    pub fn at(&self, pos: &[Shape], m: &Method) -> Option<&Reg> {
        self.regs.iter().rev().find(|r| r.method.as_ref().map_or(true, |x| x == m) && r.route.len() == pos.len() && r.route.iter().zip(pos).all(|(a, b)| &a.shape() == b))
    }
    pub fn methods_at(&self, pos: &[Shape]) -> BTreeSet<String> {
        self.regs.iter().filter(|r| r.route.len() == pos.len() && r.route.iter().zip(pos).all(|(a, b)| &a.shape() == b)).filter_map(|r| r.method.as_ref().map(|m| m.to_string())).collect()
    }
    /// All positions matching the path in order of preference, each with the path index where every segment starts.
    pub fn candidates(&self, path: &[Vec<u8>]) -> Vec<(Vec<Shape>, Vec<usize>)> {
        let mut out = vec![];
        self.search(path, 0, &mut vec![], &mut vec![], &mut out);
        out
    }
    fn search(&self, path: &[Vec<u8>], i: usize, pos: &mut Vec<Shape>, starts: &mut Vec<usize>, out: &mut Vec<(Vec<Shape>, Vec<usize>)>) {
        if i == path.len() { out.push((pos.clone(), starts.clone())); return; }
        if out.len() > 5000 { return; }
        for (sh, multi) in vec![(Shape::Static(path[i].clone()), false), (Shape::Var, false), (Shape::Seq, true)] {
            pos.push(sh);
            if self.nodes.contains(pos) {
                starts.push(i);
                let last = if multi { path.len() } else { i + 1 };
                for end in i + 1..=last { self.search(path, end, pos, starts, out); }
                starts.pop();
            }
            pos.pop();
        }
    }
    pub fn capture(reg: &Reg, starts: &[usize], path: &[Vec<u8>]) -> Vars {
        let mut v = Vars::new();
        for (k, seg) in reg.route.iter().enumerate() {
            let end = starts.get(k + 1).cloned().unwrap_or(path.len());
            match seg {
                Seg::Var(n) | Seg::Seq(n) if !n.is_empty() => { v.insert(n.clone(), path[starts[k]..end].join(&b'/')); }
                _ => {}
            }
        }
        v
    }
    pub fn dispatch(&self, path: &[Vec<u8>], m: &Method) -> Option<Pick> {
        for (pos, starts) in self.candidates(path) {
            if let Some(r) = self.at(&pos, m) { return Some(Pick { id: r.id, vars: Model::capture(r, &starts, path) }); }
        }
        None
    }
    /// The same as `dispatch`, for large inputs; None if the search takes too long.
    pub fn first(&self, path: &[Vec<u8>], m: &Method) -> Option<Option<Pick>> {
        let mut steps = 0u64;
        let at: BTreeMap<Vec<Shape>, &Reg> = self.regs.iter().filter(|r| r.method.as_ref().map_or(true, |x| x == m)).map(|r| (r.route.iter().map(|s| s.shape()).collect(), r)).collect();
        fn go<'r>(md: &Model, at: &BTreeMap<Vec<Shape>, &'r Reg>, path: &[Vec<u8>], i: usize, pos: &mut Vec<Shape>, starts: &mut Vec<usize>, steps: &mut u64) -> Option<(&'r Reg, Vec<usize>)> {
            *steps += 1;
            if *steps > 60000 { return None; }
            if i == path.len() { return at.get(pos).map(|r| (*r, starts.clone())); }
            for (sh, multi) in vec![(Shape::Static(path[i].clone()), false), (Shape::Var, false), (Shape::Seq, true)] {
                pos.push(sh);
                if md.nodes.contains(pos) {
                    starts.push(i);
                    let last = if multi { path.len() } else { i + 1 };
                    for end in i + 1..=last { if let Some(x) = go(md, at, path, end, pos, starts, steps) { return Some(x); } }
                    starts.pop();
                }
                pos.pop();
            }
            None
        }
        let found = go(self, &at, path, 0, &mut vec![], &mut vec![], &mut steps);
        if steps > 60000 { return None; }
        Some(found.map(|(r, starts)| Pick { id: r.id, vars: Model::capture(r, &starts, path) }))
    }
    /// Independent of `dispatch`: is there any registration matching at all (plain recursive pattern match)?
    pub fn any_match(&self, path: &[Vec<u8>], m: &Method) -> bool {
        fn mt(r: &[Seg], p: &[Vec<u8>]) -> bool {
            match r.first() {
                None => p.is_empty(),
                Some(Seg::Static(s)) => p.first() == Some(s) && mt(&r[1..], &p[1..]),
                Some(Seg::Var(_)) => !p.is_empty() && mt(&r[1..], &p[1..]),
                Some(Seg::Seq(_)) => (1..=p.len()).any(|k| mt(&r[1..], &p[k..])),
            }
        }
        self.regs.iter().any(|r| r.method.as_ref().map_or(true, |x| x == m) && mt(&r.route, path))
    }
    pub fn any_route(&self, path: &[Vec<u8>]) -> bool { METHODS.iter().any(|m| self.any_match(path, m)) }
    pub fn links(&self, path: &[Vec<u8>], m: &Method) -> BTreeSet<String> {
        let mut l = BTreeSet::new();
        for (pos, _) in self.candidates(path) {
            for x in self.methods_at(&pos) { if x != m.to_string() { l.insert(format!("method {}", x)); } }
            for n in &self.nodes {
                if n.len() == pos.len() + 1 && n[..pos.len()] == pos[..] {
                    l.insert(match n.last().unwrap() { Shape::Static(s) => format!("static {}", show(s)), Shape::Var => "variable".into(), Shape::Seq => "sequence".into() });
                }
            }
        }
        l
    }
}

pub const COMMON: usize = 5;
pub static METHODS: std::sync::LazyLock<[Method; 11]> = std::sync::LazyLock::new(|| [Method::Get, Method::Post, Method::Put, Method::Delete, Method::Patch, Method::Options, Method::Head, Method::Connect, Method::Trace, Method::Extension("XYZZY".into()), Method::Extension("get".into())]);
pub fn any_method(rng: &mut Rng) -> Method { METHODS[if rng.chance(3, 4) { rng.below(COMMON) } else { rng.below(METHODS.len()) }].clone() }

/// What a handler saw.
#[derive(Clone, Debug)]
pub struct Seen { pub id: usize, pub token: String, pub method: String, pub path: Vec<u8>, pub vars: Vars, pub links: Vec<String>, pub status: u16 }
pub type Log = Arc<Mutex<Vec<Seen>>>;
#[derive(Clone)]
pub struct H { pub id: usize, pub log: Log }
pub fn vars_of(c: &Context) -> Vars { c.variables.iter().map(|(k, v)| (k.as_ref().to_vec(), v.as_ref().to_vec())).collect() }
pub fn links_of(c: &Context) -> Vec<String> {
    c.hyperlinks.iter().map(|l| {
        let mut s = vec![];
        if let Some(ref m) = l.method { s.push(format!("method {}", m)); }
        for p in &l.path {
            s.push(match p.ty { SegmentType::Static => format!("static {}", show(p.label.as_ref())), SegmentType::VariableSegment => "variable".to_string() + if p.label.is_empty() { "" } else { "!" }, SegmentType::VariableSequence => "sequence".to_string() + if p.label.is_empty() { "" } else { "!" } });
        }
        s.join(" ")
    }).collect()
}
pub fn see(id: usize, c: &Context, r: &Response) -> Seen {
    let token = c.headers.get_raw("x-token").and_then(|v| v.get(0)).map(|v| String::from_utf8_lossy(v).into_owned()).unwrap_or_default();
    Seen { id, token, method: c.method.to_string(), path: c.uri_path.as_path().map(|p| p.as_ref().to_vec()).unwrap_or_else(|| b"*".to_vec()), vars: vars_of(c), links: links_of(c), status: r.status().to_u16() }
}
impl Handler for H {
    fn handle(&self, context: Context, response: Response) {
        let seen = see(self.id, &context, &response);
        let reply = format!("h{} {}", self.id, seen.token);
        self.log.lock().unwrap().push(seen);
        response.send(reply);
    }
}

// ---------------------------------------------------------------- generation
pub const LABELS: [&[u8]; 9] = [b"a", b"b", b"c", b"ab", b"A", b"", b"\xc3\xa5", b"\xff\xfe", b"x.y~z"];
pub fn label(rng: &mut Rng) -> Vec<u8> { if rng.chance(3, 4) { LABELS[rng.below(3)].to_vec() } else { rng.pick(&LABELS).to_vec() } }
pub fn name(rng: &mut Rng) -> Vec<u8> {
    match rng.below(8) { 0 => vec![], 1 => b"\xffn".to_vec(), 2 => b":q".to_vec(), n => vec![b'u' + (n as u8 - 3)] }
}
pub fn seg(rng: &mut Rng) -> Seg { match rng.below(10) { 0..=5 => Seg::Static(label(rng)), 6..=8 => Seg::Var(name(rng)), _ => Seg::Seq(name(rng)) } }
pub fn route(rng: &mut Rng) -> Vec<Seg> {
    loop {
        let n = match rng.below(12) { 0 => 0, 1..=3 => 1, 4..=7 => 2, 8..=10 => 3, _ => 4 };
        let r: Vec<Seg> = (0..n).map(|_| seg(rng)).collect();
        let mut tmp = rng.clone();
        if render(&mut tmp, &r).is_some() { return r; }
    }
}
/// Routes that share positions: variations of earlier ones.
pub fn table(rng: &mut Rng, n: usize, with_method: bool) -> Vec<Reg> {
    let mut regs: Vec<Reg> = vec![];
    while regs.len() < n {
        let mut r = if regs.is_empty() || rng.chance(2, 5) { route(rng) } else {
            let mut r = rng.pick(&regs).route.clone();
            match rng.below(5) {
                0 => { r.push(seg(rng)); }
                1 => { r.pop(); }
                2 if !r.is_empty() => { let i = rng.below(r.len()); r[i] = seg(rng); }
                3 if !r.is_empty() => { for s in r.iter_mut() { match s { Seg::Var(n) | Seg::Seq(n) => *n = name(rng), _ => {} } } }
                _ if !r.is_empty() => { let i = rng.below(r.len()); r[i] = match rng.below(3) { 0 => Seg::Var(name(rng)), 1 => Seg::Seq(name(rng)), _ => Seg::Static(label(rng)) }; }
                _ => {}
            }
            r
        };
        if r.len() > 5 { r.truncate(5); }
        let mut tmp = rng.clone();
        if render(&mut tmp, &r).is_none() { continue; }
        let method = if with_method { Some(if rng.chance(2, 3) { METHODS[rng.below(2)].clone() } else { any_method(rng) }) } else { None };
        regs.push(Reg { method, route: r, id: regs.len() });
    }
    regs
}
pub fn path_for(rng: &mut Rng, regs: &[Reg]) -> Vec<Vec<u8>> {
    let mut p: Vec<Vec<u8>> = vec![];
    if regs.is_empty() || rng.chance(1, 8) { for _ in 0..rng.below(6) { p.push(label(rng)); } }
    else {
        for s in &rng.pick(regs).route.clone() {
            match s {
                Seg::Static(s) => p.push(s.clone()),
                Seg::Var(_) => p.push(any_label(rng)),
                Seg::Seq(_) => for _ in 0..rng.range(1, 3) { p.push(any_label(rng)); },
            }
        }
        match rng.below(8) { 0 => { p.pop(); } 1 => p.push(label(rng)), 2 if !p.is_empty() => { let i = rng.below(p.len()); p[i] = label(rng); } _ => {} }
    }
    if p.len() > 7 { p.truncate(7) }
    // [""] cannot be written as a path
    if p.len() == 1 && p[0].is_empty() { p.clear(); }
    p
}
fn any_label(rng: &mut Rng) -> Vec<u8> {
    match rng.below(6) { 0 => { let n = rng.range(1, 6); (0..n).map(|_| { let b = rng.byte(); if b == b'/' { b'%' } else { b } }).collect() } 1 => b":u".to_vec(), 2 => b"*".to_vec(), _ => label(rng) }
}
/// Raw path bytes (decoded) for segments with random insignificant slashes.
pub fn raw_path(rng: &mut Rng, segs: &[Vec<u8>]) -> Vec<u8> {
    if segs.is_empty() { return b"/".to_vec(); }
    let mut v = b"/".to_vec();
    v.extend(segs.join(&b'/'));
    if segs.last().unwrap().is_empty() || rng.chance(1, 5) { v.push(b'/'); }
    v
}
pub fn encode_path(rng: &mut Rng, raw: &[u8]) -> Vec<u8> {
    let extra = rng.chance(1, 6);
    let mut r2 = rng.clone();
    let mut out = vec![];
    for &c in raw {
        let keep = c == b'/' || (unreserved(c) && !(extra && r2.chance(1, 3))) || (b"!$&'()*+,;=:@".contains(&c) && r2.chance(1, 2));
        if keep { out.push(c) } else { out.extend_from_slice(if r2.chance(1, 2) { format!("%{:02X}", c) } else { format!("%{:02x}", c) }.as_bytes()) }
    }
    *rng = r2;
    out
}

// ---------------------------------------------------------------- construction
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Build { Plain, Program }

pub trait Node: HandleRequest + Sized { 
    fn add(b: &mut Builder<Self>, m: &Option<Method>, route: &[u8], h: H, how: usize);
    fn build(rng: &mut Rng, regs: &[Reg], log: &Log, how: Build, desc: &mut Vec<String>) -> TreeRouter<Self>;
}
pub type M = MethodRouter<Variables<H>>;
pub type O = Option<Variables<H>>;

impl Node for M {
    fn add(b: &mut Builder<M>, m: &Option<Method>, route: &[u8], h: H, how: usize) {
        let m = m.clone().unwrap();
        let mut n = b.path(route);
        match (how, &m) {
            (1, Method::Get) => n.then().on_get(h), (1, Method::Post) => n.then().on_post(h), (1, Method::Put) => n.then().on_put(h),
            (1, Method::Delete) => n.then().on_delete(h), (1, Method::Patch) => n.then().on_patch(h),
            (1, Method::Options) => n.then().on_options(h), (1, Method::Head) => n.then().on_head(h), (1, Method::Connect) => n.then().on_connect(h),
            (2, _) => { n.then().many(|x| x.on(m.clone(), h)); }
            (3, _) => { drop(n); b.get_path(route).expect("get_path after path").then().on(m.clone(), h) }
            _ => n.then().on(m.clone(), h),
        }
    }
    fn build(rng: &mut Rng, regs: &[Reg], log: &Log, how: Build, desc: &mut Vec<String>) -> TreeRouter<M> {
        if how == Build::Plain && rng.chance(1, 2) || how == Build::Program && rng.chance(1, 6) {
            desc.push(format!("from_iter[{}]", regs.len()));
            let v: Vec<_> = regs.iter().map(|r| (r.method.clone().unwrap(), render(rng, &r.route).unwrap(), H { id: r.id, log: log.clone() })).collect();
            return v.into_iter().collect::<DefaultRouter<H>>();
        }
        let mut t = TreeRouter::<M>::new();
        build_into(rng, &mut t, regs, log, how, desc);
        t
    }
}
impl Node for O {
    fn add(b: &mut Builder<O>, _m: &Option<Method>, route: &[u8], h: H, how: usize) {
        match how {
            1 => { b.path(route).handler(h); }
            2 => { b.path(route); b.get_path(route).expect("get_path after path").handler(h); }
            3 if parse_route(route).len() == 1 => { b.on_route(route, h); }
            3 => { let s = parse_route(route);
                if s.len() > 1 {
                    // refused, with nothing changed
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { b.on_route(route, h.clone()); }));
                    take_panic();
                    assert!(r.is_err(), "on_route took the whole path {}", show(route));
                }
                if s.is_empty() { b.handler(h); } else { b.path(route).handler(h); } }
            _ => { b.on_path(route, h); }
        }
    }
    fn build(rng: &mut Rng, regs: &[Reg], log: &Log, how: Build, desc: &mut Vec<String>) -> TreeRouter<O> {
        let mut t = TreeRouter::<O>::new();
        build_into(rng, &mut t, regs, log, how, desc);
        t
    }
}

fn build_into<T: Node + Default + rustful::handler::ApplyContext + rustful::handler::Merge>(rng: &mut Rng, t: &mut TreeRouter<T>, regs: &[Reg], log: &Log, how: Build, desc: &mut Vec<String>) {
    let mut i = 0;
    while i < regs.len() {
        let r = &regs[i];
        let h = H { id: r.id, log: log.clone() };
        if how == Build::Plain {
            T::add(&mut t.get_builder(tagged()), &r.method, &render(rng, &r.route).unwrap(), h, 0);
            i += 1;
            continue;
        }
        // a run of consecutive registrations that share a prefix can be nested or merged
        let k = rng.range(0, r.route.len());
        let prefix = r.route[..k].to_vec();
        let mut j = i + 1;
        while j < regs.len() && regs[j].route.len() >= k && regs[j].route[..k] == prefix[..] && rng.chance(3, 4) { j += 1; }
        let sub: Vec<Reg> = regs[i..j].iter().map(|r| Reg { method: r.method.clone(), route: r.route[k..].to_vec(), id: r.id }).collect();
        let renderable = sub.iter().all(|r| render(&mut rng.clone(), &r.route).is_some());
        let pre = render(rng, &prefix);
        let how_add = rng.below(4);
        if pre.is_none() || !renderable {
            T::add(&mut t.get_builder(tagged()), &r.method, &render(rng, &r.route).unwrap(), h, how_add);
            i += 1;
            continue;
        }
        let pre = pre.unwrap();
        match rng.below(4) {
            0 => {
                desc.push(format!("add {} how {}", show(&render(&mut rng.clone(), &r.route).unwrap()), how_add));
                T::add(&mut t.get_builder(tagged()), &r.method, &render(rng, &r.route).unwrap(), h, how_add);
                i += 1;
            }
            1 => {
                desc.push(format!("nest {} x{}", show(&pre), sub.len()));
                let mut root = t.get_builder(tagged());
                let mut node = root.path(&pre);
                let mut r3 = rng.clone();
                node.many(|n| {
                    for s in &sub {
                        let hh = H { id: s.id, log: log.clone() };
                        // go down one more level segment by segment
                        if s.route.len() >= 2 && r3.chance(1, 2) {
                            if let (Some(a), Some(b)) = (render(&mut r3, &s.route[..1]), render(&mut r3, &s.route[1..])) {
                                let mut n2 = n.path(&a);
                                T::add(&mut n2, &s.method, &b, hh, r3.below(4));
                                continue;
                            }
                        }
                        let ro = render(&mut r3, &s.route).unwrap();
                        T::add(n, &s.method, &ro, hh, r3.below(4));
                    }
                });
                *rng = r3;
                i = j;
            }
            2 => {
                let deep = rng.chance(1, 3);
                desc.push(format!("merge {} x{} {{", show(&pre), sub.len()));
                let other = T::build(rng, &sub, log, if deep { Build::Program } else { Build::Plain }, desc);
                desc.push("}".into());
                t.get_builder(tagged()).path(&pre).merge(other);
                i = j;
            }
            _ => {
                // merge two whole routers with the trait (no prefix)
                desc.push(format!("merge-root x{}", j - i));
                let other = T::build(rng, &regs[i..j], log, Build::Plain, desc);
                if rng.chance(1, 2) { t.get_builder(tagged()).merge(other); } else { rustful::handler::Merge::merge(t, other); }
                i = j;
            }
        }
    }
}

pub fn show_regs(regs: &[Reg]) -> String {
    regs.iter().map(|r| format!("{} /{} -> h{}", r.method.as_ref().map(|m| m.to_string()).unwrap_or("ANY".into()), show(&r.route.iter().map(|s| s.bytes()).collect::<Vec<_>>().join(&b'/')), r.id)).collect::<Vec<_>>().join("; ")
}

#[derive(Clone, Copy, PartialEq)]
pub enum Focus { Dispatch, Precedence, Vars, Building, Reject, Links }

/// One table, many requests.
pub fn table_case<T: Node + Default + rustful::handler::ApplyContext + rustful::handler::Merge + Clone>(rng: &mut Rng, cov: &mut Cov, focus: Focus, with_method: bool) -> CaseResult {
    let n = match focus { Focus::Precedence => rng.range(3, 9), _ => rng.range(0, 9) };
    let mut regs = table(rng, n, with_method);
    if focus == Focus::Building || focus == Focus::Vars {
        // repeated registrations at the same position, with new names
        let extra = rng.below(3);
        for _ in 0..extra { if regs.is_empty() { break; } let mut r = rng.pick(&regs).clone(); for s in r.route.iter_mut() { match s { Seg::Var(n) | Seg::Seq(n) => *n = name(rng), _ => {} } } r.id = regs.len(); regs.push(r); }
    }
    let model = Model::new(&regs, &[]);
    let log: Log = Arc::new(Mutex::new(vec![]));
    let mut routers = vec![];
    let mut desc = vec![];
    let how = if focus == Focus::Building || rng.chance(1, 4) { Build::Program } else { Build::Plain };
    let hyper = if focus == Focus::Links { true } else { rng.chance(1, 3) };
    let mut r0 = T::build(rng, &regs, &log, how, &mut desc);
    r0.find_hyperlinks = hyper;
    routers.push((format!("router[{} hyperlinks={}]", desc.join(", "), hyper), r0, hyper, regs.clone()));
    {
        // the same registrations in another order that keeps later-wins per position and method, other hyperlink setting
        let mut perm = regs.clone();
        rng.shuffle(&mut perm);
        let mut fixed = perm.clone();
        let mut used = vec![false; regs.len()];
        for slot in fixed.iter_mut() {
            // put the earliest unused registration of the same position+method here
            let key = |r: &Reg| (r.method.clone(), r.route.iter().map(|s| s.shape()).collect::<Vec<_>>());
            let k = key(slot);
            let i = (0..regs.len()).find(|&i| !used[i] && key(&regs[i]) == k).unwrap();
            used[i] = true;
            *slot = regs[i].clone();
        }
        let mut desc = vec![];
        let how = if rng.chance(1, 2) { Build::Plain } else { Build::Program };
        let mut r1 = T::build(rng, &fixed, &log, how, &mut desc);
        r1.find_hyperlinks = !hyper;
        routers.push((format!("reordered router[{}; {} hyperlinks={}]", show_regs(&fixed), desc.join(", "), !hyper), r1, !hyper, fixed));
    }
    let servers: Vec<_> = routers.into_iter().map(|(d, r, h, _)| (d, h, Server { threads: Some(4), ..Server::new(r) }.build())).collect();
    let nreq = rng.range(2, 10);
    for q in 0..nreq {
        let segs = path_for(rng, &regs);
        let m = if let (true, Some(r)) = (rng.chance(2, 3), if regs.is_empty() { None } else { Some(rng.pick(&regs)) }) { r.method.clone().unwrap_or(Method::Get) } else { any_method(rng) };
        let raw = raw_path(rng, &segs);
        let segs = model_segments(&raw);
        let target = encode_path(rng, &raw);
        let want = model.dispatch(&segs, &m);
        let cands = model.candidates(&segs);
        let any = model.any_match(&segs, &m);
        if cands.len() > 5000 { cov.count("skipped: too many candidates"); continue; }
        debug_assert_eq!(any, want.is_some());
        let token = format!("t{}", q);
        for (d, hyper, inst) in &servers {
            log.lock().unwrap().clear();
            let s = serve(inst, Script::new(request(m.as_ref(), &target, &[("X-Token", token.as_bytes())], b"")), false);
            let seen = log.lock().unwrap().clone();
            let ctx = || format!("{}\n routes: {}\n request: {} {} (segments {:?})", d, show_regs(&regs), m, show(&target), segs.iter().map(|s| show(s)).collect::<Vec<_>>());
            if let End::HandlerPanic(p) = &s.end { return bad("panic", format!("{} on {}", p, ctx())); }
            let rs = match parse_all(&s.out, &[]) { Ok(r) => r, Err(e) => return bad("response", format!("{} on {}\n out {:?}", e, ctx(), show(&s.out))) };
            ensure!(rs.len() == 1 && rs[0].complete, "response", "{} responses on {}", rs.len(), ctx());
            ensure!(seen.len() <= 1, "twice", "{} handlers ran ({:?}) on {}", seen.len(), seen.iter().map(|s| s.id).collect::<Vec<_>>(), ctx());
            match &want {
                Some(p) => {
                    ensure!(seen.len() == 1, "unreached", "no handler ran (status {}), expected h{} on {}", rs[0].status, p.id, ctx());
                    let s = &seen[0];
                    ensure!(s.id == p.id, "wrong handler", "h{} ran, expected h{} on {}", s.id, p.id, ctx());
                    ensure!(s.vars == p.vars, "variables", "variables {:?}, expected {:?} on {}", show_vars(&s.vars), show_vars(&p.vars), ctx());
                    ensure!(s.method == m.to_string() && s.path == raw, "context", "handler saw {} {:?} on {}", s.method, show(&s.path), ctx());
                    ensure!(s.status == 200 && rs[0].status == 200, "status", "status {} at the handler, {} on the wire on {}", s.status, rs[0].status, ctx());
                    ensure!(rs[0].body == format!("h{} {}", p.id, token).into_bytes(), "body", "body {:?} on {}", show(&rs[0].body), ctx());
                    if with_method {
                        let mut got = s.links.clone(); got.sort();
                        let want_links: Vec<String> = if *hyper { model.links(&segs, &m).into_iter().collect() } else { vec![] };
                        ensure!(got == want_links, "hyperlinks", "hyperlinks {:?}, expected {:?} on {}", got, want_links, ctx());
                        if *hyper { cov.add("links checked", want_links.len() as u64); if want_links.len() >= 2 && focus == Focus::Links { cov.nontrivial(&(show_regs(&regs), &target)); } }
                    }
                    cov.count("dispatched");
                    if !p.vars.is_empty() { cov.count("with variables"); }
                    if cands.len() > 1 { cov.count("overlapping candidates"); }
                }
                None => {
                    ensure!(seen.is_empty(), "must not run", "h{} ran although nothing matches on {}", seen[0].id, ctx());
                    let st = rs[0].status;
                    ensure!(st / 100 == 4 && rs[0].body.is_empty(), "rejection", "status {} body {:?} for an unmatched request on {}", st, show(&rs[0].body), ctx());
                    if cands.is_empty() { ensure!(st == 404, "rejection status", "status {} but nothing is at that path on {}", st, ctx()); cov.count("rejected 404"); }
                    else if with_method && cands.len() == 1 && model.any_route(&segs) { ensure!(st == 405, "rejection status", "status {} but only the method is wrong on {}", st, ctx()); cov.count("rejected 405"); }
                    else { cov.count("rejected otherwise"); }
                }
            }
        }
        let key = (show_regs(&regs), &target, m.to_string());
        let interesting = match focus {
            Focus::Dispatch => !regs.is_empty() && (!cands.is_empty() || segs.len() > 1),
            Focus::Precedence => cands.len() > 1 && want.is_some(),
            Focus::Vars => want.as_ref().map_or(false, |p| !p.vars.is_empty()),
            Focus::Building => want.is_some() && regs.len() > 1,
            Focus::Reject => want.is_none() && !regs.is_empty() || cands.len() > 1,
            Focus::Links => false,
        };
        if interesting { cov.nontrivial(&key); cov.sample(|| format!("{} {} on [{}] -> {:?}", m, show(&target), show_regs(&regs), want.as_ref().map(|p| (p.id, show_vars(&p.vars))))); }
        cov.max("max candidates", cands.len() as u64);
        cov.max("max path segments", segs.len() as u64);
        cov.count("requests");
    }
    Ok(())
}
/// A context of the user's own, given to the root builder.
#[derive(Clone, Debug, PartialEq)]
pub struct Tag(pub u32);
pub fn tagged() -> BuilderContext { let mut c = BuilderContext::new(); c.insert(Tag(42)); c }
/// Keeps what its builders tell it and shows the tag to nobody but the check.
#[derive(Default, Clone)]
pub struct Tagged(O, Option<Tag>);
impl HandleRequest for Tagged {
    fn handle_request<'a, 'b, 'l, 'g>(&self, mut e: Environment<'a, 'b, 'l, 'g>) -> Result<(), Environment<'a, 'b, 'l, 'g>> {
        if self.1 != Some(Tag(42)) { e.response.set_status(StatusCode::ImATeapot); }
        self.0.handle_request(e)
    }
    fn hyperlinks<'a>(&'a self, base: Link<'a>) -> Vec<Link<'a>> { self.0.hyperlinks(base) }
}
impl ApplyContext for Tagged {
    fn apply_context(&mut self, c: BuilderContext) { if let Some(t) = c.get::<Tag>() { self.1 = Some(t.clone()); } self.0.apply_context(c) }
    fn prepend_context(&mut self, c: BuilderContext) { self.0.prepend_context(c) }
}
impl Merge for Tagged { fn merge(&mut self, o: Tagged) { if o.0.is_some() { self.1 = o.1; } self.0.merge(o.0) } }
impl FromHandler<H> for Tagged { fn from_handler(c: BuilderContext, h: H) -> Tagged { let t = c.get::<Tag>().cloned(); Tagged(O::from_handler(c, h), t) } }
impl Node for Tagged {
    fn add(b: &mut Builder<Tagged>, _m: &Option<Method>, route: &[u8], h: H, how: usize) {
        match how {
            1 => { b.path(route).handler(h); }
            2 => { b.path(route); b.get_path(route).expect("get_path after path").handler(h); }
            3 if parse_route(route).len() == 1 => { b.on_route(route, h); }
            _ => { b.on_path(route, h); }
        }
    }
    fn build(rng: &mut Rng, regs: &[Reg], log: &Log, how: Build, desc: &mut Vec<String>) -> TreeRouter<Tagged> {
        let mut t = TreeRouter::<Tagged>::new();
        build_into(rng, &mut t, regs, log, how, desc);
        t
    }
}

/// Takes requests but does not want to be listed (no hyperlinks).
#[derive(Default, Clone)]
pub struct Hidden(O);
impl HandleRequest for Hidden {
    fn handle_request<'a, 'b, 'l, 'g>(&self, e: Environment<'a, 'b, 'l, 'g>) -> Result<(), Environment<'a, 'b, 'l, 'g>> { self.0.handle_request(e) }
    fn hyperlinks<'a>(&'a self, _base: Link<'a>) -> Vec<Link<'a>> { vec![] }
}
impl ApplyContext for Hidden {
    fn apply_context(&mut self, c: BuilderContext) { self.0.apply_context(c) }
    fn prepend_context(&mut self, c: BuilderContext) { self.0.prepend_context(c) }
}
impl Merge for Hidden { fn merge(&mut self, o: Hidden) { self.0.merge(o.0) } }
impl FromHandler<H> for Hidden { fn from_handler(c: BuilderContext, h: H) -> Hidden { Hidden(O::from_handler(c, h)) } }
impl Node for Hidden {
    fn add(b: &mut Builder<Hidden>, _m: &Option<Method>, route: &[u8], h: H, _how: usize) { b.on_path(route, h); }
    fn build(rng: &mut Rng, regs: &[Reg], log: &Log, how: Build, desc: &mut Vec<String>) -> TreeRouter<Hidden> {
        let mut t = TreeRouter::<Hidden>::new();
        build_into(rng, &mut t, regs, log, how, desc);
        t
    }
}

/// Long paths, long routes, wide tables and long labels: the first match in order of preference.
pub fn large_case<T: Node + Default + ApplyContext + Merge + Clone>(rng: &mut Rng, cov: &mut Cov, with_method: bool) -> CaseResult {
    let size = rng.below(4);
    let many = rng.chance(1, 3);
    let nregs = if many { rng.range(50, 400) } else { rng.range(1, 4) };
    let mut regs: Vec<Reg> = vec![];
    for id in 0..nregs {
        let varied = !many && rng.chance(1, 5); // next to nothing but variables
        let n = if many { rng.range(0, 6) } else if varied { rng.range(20, 400) } else { match size { 0 => rng.range(1, 5), 1 => rng.range(5, 40), _ => rng.range(1, 150) } };
        let mut seqs = 0;
        let mut r: Vec<Seg> = (0..n).map(|i| match if varied && rng.chance(9, 10) { 1 } else { rng.below(8) } {
            0 if seqs < 2 && !(many && rng.chance(9, 10)) => { seqs += 1; Seg::Seq(name(rng)) }
            1 => Seg::Var(if rng.chance(1, 2) { format!("v{}", i).into_bytes() } else { name(rng) }),
            2 => Seg::Static(label(rng)),
            3 if !many => Seg::Static(vec![b'l'; rng.range(1, 3000)]),
            _ => Seg::Static(format!("s{}", rng.below(if many { 40 } else { 3 })).into_bytes()),
        }).collect();
        if !many && seqs == 0 { let i = rng.below(r.len() + 1); r.insert(i, Seg::Seq(b"rest".to_vec())); }
        while render(&mut rng.clone(), &r).is_none() { r.push(Seg::Static(b"end".to_vec())); }
        let method = if with_method { Some(any_method(rng)) } else { None };
        regs.push(Reg { method, route: r, id });
    }
    let model = Model::new(&regs, &[]);
    let log: Log = Arc::new(Mutex::new(vec![]));
    let mut servers = vec![];
    let mut desc = vec![];
    let hyper = rng.chance(1, 2);
    let mut t = T::build(rng, &regs, &log, Build::Plain, &mut desc);
    t.find_hyperlinks = hyper;
    servers.push(Server { threads: Some(4), ..Server::new(t) }.build());
    for _ in 0..if many { 12 } else { 4 } {
        let r = rng.pick(&regs).clone();
        let mut segs: Vec<Vec<u8>> = vec![];
        for s in &r.route {
            match s {
                Seg::Static(s) => segs.push(s.clone()),
                Seg::Var(_) => segs.push(any_label(rng)),
                Seg::Seq(_) => { let k = *rng.pick(&[1, 2, 7, 60, 200, 300]); for _ in 0..if many { rng.range(1, 4) } else { rng.range(1, k) } { segs.push(if rng.chance(1, 3) { b"s1".to_vec() } else if rng.chance(1, 6) { any_label(rng) } else { b"w".to_vec() }); } }
            }
        }
        match rng.below(8) { 0 => { segs.pop(); } 1 => segs.push(b"w".to_vec()), 2 if !segs.is_empty() => { let i = rng.below(segs.len()); segs[i] = b"s0".to_vec(); } _ => {} }
        if segs.len() == 1 && segs[0].is_empty() { segs.clear(); }
        let m = if rng.chance(4, 5) { r.method.clone().unwrap_or(Method::Get) } else { any_method(rng) };
        let raw = raw_path(rng, &segs);
        let segs = model_segments(&raw);
        let target = encode_path(rng, &raw);
        if target.len() > 60000 { cov.count("skipped: head too long"); continue; }
        let want = match model.first(&segs, &m) { Some(w) => w, None => { cov.count("skipped: too much to search"); continue } };
        if segs.len() <= 12 { ensure!(model.any_match(&segs, &m) == want.is_some(), "model", "the two models disagree on {}", show_regs(&regs)); }
        log.lock().unwrap().clear();
        let s = serve(&servers[0], Script::new(request(m.as_ref(), &target, &[("X-Token", b"t")], b"")), false);
        let seen = log.lock().unwrap().clone();
        let ctx = || format!("hyperlinks={}\n {} routes: {}\n request: {} {} ({} segments)", hyper, regs.len(), cut(&show_regs(&regs)), m, cut(&show(&target)), segs.len());
        if let End::HandlerPanic(p) = &s.end { return bad("panic", format!("{} on {}", p, ctx())); }
        let rs = match parse_all(&s.out, &[]) { Ok(r) => r, Err(e) => return bad("response", format!("{} on {}", e, ctx())) };
        ensure!(rs.len() == 1 && rs[0].complete, "response", "{} responses on {}", rs.len(), ctx());
        ensure!(seen.len() <= 1, "twice", "{} handlers ran on {}", seen.len(), ctx());
        match &want {
            Some(p) => {
                ensure!(seen.len() == 1, "unreached", "no handler ran (status {}), expected h{} on {}", rs[0].status, p.id, ctx());
                ensure!(seen[0].id == p.id, "wrong handler", "h{} ran, expected h{} on {}", seen[0].id, p.id, ctx());
                ensure!(seen[0].vars == p.vars, "variables", "variables {}, expected {} on {}", cut(&format!("{:?}", show_vars(&seen[0].vars))), cut(&format!("{:?}", show_vars(&p.vars))), ctx());
                ensure!(seen[0].path == raw && rs[0].status == 200, "context", "status {}, path {} on {}", rs[0].status, cut(&show(&seen[0].path)), ctx());
                cov.count("large: dispatched");
                if segs.len() > 100 { cov.count("large: dispatched, over 100 segments"); }
                cov.nontrivial(&(show_regs(&regs), &target));
            }
            None => {
                ensure!(seen.is_empty(), "must not run", "h{} ran although nothing matches on {}", seen[0].id, ctx());
                ensure!(rs[0].status / 100 == 4, "rejection", "status {} for an unmatched request on {}", rs[0].status, ctx());
                cov.count("large: rejected");
            }
        }
        cov.max("max path segments, large", segs.len() as u64);
        cov.max("max variables, large", seen.get(0).map_or(0, |s| s.vars.len()) as u64);
        cov.max("max registrations, large", regs.len() as u64);
        cov.count("requests");
    }
    Ok(())
}
fn cut(s: &str) -> String { if s.len() <= 1500 { s.into() } else { format!("{}... ({} bytes)", s.chars().take(1200).collect::<String>(), s.len()) } }
pub fn show_vars(v: &Vars) -> Vec<String> { v.iter().map(|(k, v)| format!("{}={}", show(k), show(v))).collect() }

/// Arbitrary strings as routes must build and mean what they say.
pub fn wild_strings(rng: &mut Rng, cov: &mut Cov) -> CaseResult {
    let log: Log = Arc::new(Mutex::new(vec![]));
    let n = rng.range(1, 5);
    let strings: Vec<Vec<u8>> = (0..n).map(|_| { let l = rng.below(9); (0..l).map(|_| *rng.pick(b"//::**ab%\xc3.")).collect() }).collect();
    let regs: Vec<Reg> = strings.iter().enumerate().map(|(i, s)| Reg { method: None, route: parse_route(s), id: i }).collect();
    let mut t = TreeRouter::<O>::new();
    for (i, s) in strings.iter().enumerate() { O::add(&mut t.build(), &None, s, H { id: i, log: log.clone() }, rng.below(4)); }
    let _ = t.build().get_path(&strings[0]).map(|_| ()).ok_or(()).map_err(|_| Violation { sig: "get_path".into(), detail: format!("get_path({}) finds nothing", show(&strings[0])) })?;
    let absent = b"q/q/q/q/q/q/q/q/q/q".to_vec();
    ensure!(t.build().get_path(&absent).is_none(), "get_path", "get_path finds a node that was never added");
    let model = Model::new(&regs, &[]);
    let inst = Server::new(t).build();
    for _ in 0..4 {
        let segs = path_for(rng, &regs);
        let raw = raw_path(rng, &segs);
        let segs = model_segments(&raw);
        let target = encode_path(rng, &raw);
        log.lock().unwrap().clear();
        let s = serve(&inst, Script::new(request("GET", &target, &[], b"")), false);
        let seen = log.lock().unwrap().clone();
        let want = model.dispatch(&segs, &Method::Get);
        if let End::HandlerPanic(p) = &s.end { return bad("panic", p.clone()); }
        let got = seen.first().map(|s| Pick { id: s.id, vars: s.vars.clone() });
        ensure!(seen.len() <= 1 && got == want, "wild routes", "routes {:?} request {}: got {:?} want {:?}", strings.iter().map(|s| show(s)).collect::<Vec<_>>(), show(&target), got, want);
        cov.count("requests");
        if want.is_some() { cov.nontrivial(&(&strings, &target)); }
    }
    Ok(())
}

pub fn run(r: &mut Run) {
    let id = r.id.clone();
    match &id[..] {
        "C01" => { r.cases("method tree", 6000, 200000, |g, c| table_case::<M>(g, c, Focus::Dispatch, true)); r.cases("option tree", 2000, 60000, |g, c| table_case::<O>(g, c, Focus::Dispatch, false)); r.cases("wild route strings", 3000, 60000, wild_strings);
                   r.cases("unlisted items", 2000, 60000, |g, c| table_case::<Hidden>(g, c, Focus::Dispatch, false)); r.cases("large", 700, 40000, |g, c| large_case::<M>(g, c, true)); r.cases("large unlisted", 150, 8000, |g, c| large_case::<Hidden>(g, c, false)); }
        "C02" => { r.cases("method tree", 8000, 250000, |g, c| table_case::<M>(g, c, Focus::Precedence, true)); r.cases("option tree", 2000, 60000, |g, c| table_case::<O>(g, c, Focus::Precedence, false)); r.cases("large", 500, 30000, |g, c| large_case::<M>(g, c, true)); }
        "C03" => { r.cases("method tree", 6000, 200000, |g, c| table_case::<M>(g, c, Focus::Vars, true)); r.cases("option tree", 3000, 80000, |g, c| table_case::<O>(g, c, Focus::Vars, false)); r.cases("large", 500, 30000, |g, c| large_case::<M>(g, c, true)); }
        "C04" => { r.cases("method tree", 6000, 200000, |g, c| table_case::<M>(g, c, Focus::Building, true)); r.cases("option tree", 5000, 150000, |g, c| table_case::<O>(g, c, Focus::Building, false)); r.cases("tagged tree", 2000, 60000, |g, c| table_case::<Tagged>(g, c, Focus::Building, false)); r.cases("grown composites", 2000, 60000, crate::compose::grown); r.cases("wild route strings", 4000, 100000, wild_strings); }
        "C05" => { r.cases("method tree", 8000, 250000, |g, c| table_case::<M>(g, c, Focus::Reject, true)); r.cases("option tree", 2000, 60000, |g, c| table_case::<O>(g, c, Focus::Reject, false)); r.cases("compositions", 10000, 300000, crate::compose::compose); }
        "C07" => {
            r.cases("method tree", 8000, 250000, |g, c| table_case::<M>(g, c, Focus::Links, true));
            // of what nested routers do otherwise C06 thinks
            r.cases("nested routers", 20000, 600000, |g, c| match crate::compose::compose(g, c) { Err(v) if v.sig != "hyperlinks" => Ok(()), x => x });
        }
        _ => unreachable!(),
    }
}
