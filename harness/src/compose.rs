//! C06: nested routers against an interpreter of their composition.
use crate::core::*;
use crate::ensure;
use crate::routes::*;
use crate::wire::*;
use rustful::context::hypermedia::Link;
use rustful::handler::{ApplyContext, BuilderContext, Environment, FromHandler, HandleRequest, Merge, MethodRouter, OrElse, StatusRouter, TreeRouter, Variables};
use rustful::{Context, Handler, Method, Response, Server, StatusCode};
use std::collections::BTreeSet;
use std::io::Read;
use std::sync::{Arc, Mutex};

/// A router that can be nested at run time.
pub struct Dyn(pub Box<dyn HandleRequest>);
impl HandleRequest for Dyn {
    fn handle_request<'a, 'b, 'l, 'g>(&self, e: Environment<'a, 'b, 'l, 'g>) -> Result<(), Environment<'a, 'b, 'l, 'g>> { self.0.handle_request(e) }
    fn hyperlinks<'a>(&'a self, base: Link<'a>) -> Vec<Link<'a>> { self.0.hyperlinks(base) }
}
impl FromHandler<Dyn> for Dyn { fn from_handler(_: BuilderContext, d: Dyn) -> Dyn { d } }
impl ApplyContext for Dyn { fn apply_context(&mut self, _: BuilderContext) {} fn prepend_context(&mut self, _: BuilderContext) {} }

/// One observation inside the router.
#[derive(Clone, Debug, PartialEq)]
pub struct Obs { pub id: usize, pub method: String, pub path: Vec<u8>, pub token: String, pub vars: Vars, pub status: u16, pub left: Option<Vec<Vec<u8>>>, pub body: Option<Vec<u8>>, pub query: Vec<(Vec<u8>, Vec<u8>)> }
type Obslog = Arc<Mutex<Vec<(Obs, Vec<String>)>>>;

struct LeafH { id: usize, log: Obslog }
fn look(id: usize, c: &Context, r: &Response) -> (Obs, Vec<String>) {
    let s = see(id, c, r);
    let mut q: Vec<_> = c.query.iter().map(|(k, v)| (k.as_ref().to_vec(), v.as_ref().to_vec())).collect();
    q.sort();
    (Obs { id, method: s.method, path: s.path, token: s.token, vars: s.vars, status: s.status, left: None, body: None, query: q }, s.links)
}
impl Handler for LeafH {
    fn handle(&self, mut c: Context, r: Response) {
        let (mut o, l) = look(self.id, &c, &r);
        let mut b = vec![];
        o.body = c.body.read_to_end(&mut b).ok().map(|_| b);
        self.log.lock().unwrap().push((o, l));
        r.send(format!("leaf {}", self.id));
    }
}
struct Rejecter { id: usize, status: Option<u16>, log: Obslog }
impl HandleRequest for Rejecter {
    fn handle_request<'a, 'b, 'l, 'g>(&self, mut e: Environment<'a, 'b, 'l, 'g>) -> Result<(), Environment<'a, 'b, 'l, 'g>> {
        let (mut o, l) = look(self.id, &e.context, &e.response);
        let mut left = vec![];
        let mut st = e.route_state.clone();
        while let Some(s) = st.get() { left.push(s.to_vec()); st.skip(); }
        o.left = Some(left);
        self.log.lock().unwrap().push((o, l));
        if let Some(s) = self.status { e.response.set_status(StatusCode::from_u16(s)); }
        Err(e)
    }
    fn hyperlinks<'a>(&'a self, _: Link<'a>) -> Vec<Link<'a>> { vec![] }
}

/// What is composed.
#[derive(Clone, Debug, Hash)]
pub enum D {
    Leaf(usize, u8),
    Reject(usize, Option<u16>),
    Method(Vec<(usize, D)>),
    Status(Vec<(u16, D)>),
    Opt(Option<Box<D>>),
    OrElse(Box<D>, Box<D>),
    /// id, hyperlinks, (route, node)
    Tree(usize, bool, Vec<(Vec<Seg>, D)>),
    Vars(Vec<Vec<u8>>, Box<D>),
}
const STATUSES: [u16; 6] = [200, 404, 405, 403, 500, 418];

struct Gen { next: usize }
impl Gen {
    fn id(&mut self) -> usize { self.next += 1; self.next }
    /// `vars`: number of variables captured so far; `tree`: may there be a tree here?
    fn d(&mut self, g: &mut Rng, depth: usize, vars: usize, tree: bool) -> D {
        if depth == 0 { return if g.chance(2, 3) { D::Leaf(self.id(), g.below(3) as u8) } else { D::Reject(self.id(), if g.chance(1, 2) { Some(*g.pick(&STATUSES)) } else { None }) }; }
        match g.below(12) {
            0 => D::Leaf(self.id(), g.below(3) as u8),
            1 => D::Reject(self.id(), if g.chance(2, 3) { Some(*g.pick(&STATUSES)) } else { None }),
            2 | 3 => { let mut ms = vec![0, 1, 2, 3, 4]; g.shuffle(&mut ms); ms.truncate(g.range(0, 3)); D::Method(ms.into_iter().map(|m| (m, self.d(g, depth - 1, vars, tree))).collect()) }
            4 | 5 => { let mut ss = STATUSES.to_vec(); g.shuffle(&mut ss); ss.truncate(g.range(1, 4)); D::Status(ss.into_iter().map(|s| (s, self.d(g, depth - 1, vars, tree))).collect()) }
            6 => D::Opt(if g.chance(1, 3) { None } else { Some(Box::new(self.d(g, depth - 1, vars, tree))) }),
            7 | 8 => D::OrElse(Box::new(self.d(g, depth - 1, vars, tree)), Box::new(self.d(g, depth - 1, vars, tree))),
            9 => D::Vars((0..vars + g.below(2)).map(|_| name(g)).collect(), Box::new(self.d(g, depth - 1, vars, tree))),
            _ if tree => {
                let n = g.range(1, 5);
                let regs = table(g, n, false);
                let id = self.id();
                let links = g.chance(1, 3);
                let mut seen = std::collections::BTreeSet::new();
                let mut v = vec![];
                for r in regs {
                    let sh: Vec<Shape> = r.route.iter().map(|s| s.shape()).collect();
                    if !seen.insert(sh) { continue; }
                    let k = r.route.iter().filter(|s| !matches!(s, Seg::Static(_))).count();
                    let d = self.d(g, depth - 1, k, k == 0);
                    v.push((r.route, d));
                }
                D::Tree(id, links, v)
            }
            _ => D::Leaf(self.id(), g.below(3) as u8),
        }
    }
}

fn build(g: &mut Rng, d: &D, log: &Obslog) -> Dyn {
    match d {
        D::Leaf(id, k) => {
            let h = LeafH { id: *id, log: log.clone() };
            Dyn(match k { 0 => Box::new(h), 1 => Box::new(Arc::new(h)), _ => Box::new(Box::new(h) as Box<dyn Handler>) })
        }
        D::Reject(id, s) => Dyn(Box::new(Rejecter { id: *id, status: *s, log: log.clone() })),
        D::Method(v) => { let mut r = MethodRouter::<Dyn>::new(); for (m, d) in v { let d = build(g, d, log); if g.chance(1, 2) { r.insert(METHODS[*m].clone(), d) } else { r.build().on(METHODS[*m].clone(), d) } } Dyn(Box::new(r)) }
        D::Status(v) => { let mut r = StatusRouter::<Dyn>::new(); for (s, d) in v { let d = build(g, d, log); if g.chance(1, 2) { r.insert(StatusCode::from_u16(*s), d) } else { r.build().on(StatusCode::from_u16(*s), d) } } Dyn(Box::new(r)) }
        D::Opt(o) => Dyn(Box::new(o.as_ref().map(|d| build(g, d, log)))),
        D::OrElse(a, b) => Dyn(Box::new(OrElse::new(build(g, a, log), build(g, b, log)))),
        D::Vars(n, d) => {
            let mut c = BuilderContext::new();
            c.insert(rustful::handler::VariableNames(n.iter().map(|n| n.clone().into()).collect()));
            Dyn(Box::new(<Variables<Dyn> as FromHandler<Dyn>>::from_handler(c, build(g, d, log))))
        }
        D::Tree(_, links, v) => {
            let mut t = TreeRouter::<Option<Variables<Dyn>>>::new();
            t.find_hyperlinks = *links;
            for (r, d) in v { let p = render(g, r).unwrap(); let d = build(g, d, log); t.build().on_path(p, d); }
            Dyn(Box::new(t))
        }
    }
}

// ------------------------------------------------------------ interpreter
/// What a part lists for itself, at a place with that method and path.
fn lists(d: &D, m: &Option<String>, path: &[String], out: &mut BTreeSet<String>) {
    match d {
        D::Leaf(..) => { out.insert(m.iter().cloned().chain(path.iter().cloned()).collect::<Vec<_>>().join(" ")); }
        D::Reject(..) | D::Opt(None) => {}
        D::Method(v) => for (x, d) in v { lists(d, &Some(format!("method {}", METHODS[*x])), path, out) },
        D::Status(v) => for (_, d) in v { lists(d, m, path, out) },
        D::Opt(Some(d)) | D::Vars(_, d) => lists(d, m, path, out),
        D::OrElse(a, b) => { lists(a, m, path, out); lists(b, m, path, out) }
        D::Tree(_, _, v) => { let regs: Vec<Reg> = v.iter().enumerate().map(|(i, (r, _))| Reg { method: None, route: r.clone(), id: i }).collect(); listed(v, &Model::new(&regs, &[]), &[], m, path, out) }
    }
}
/// What is listed for a position of a tree: its item and its children.
fn listed(v: &[(Vec<Seg>, D)], model: &Model, pos: &[Shape], m: &Option<String>, path: &[String], out: &mut BTreeSet<String>) {
    if let Some(r) = model.at(pos, &Method::Get) { lists(&v[r.id].1, m, path, out); }
    for n in &model.nodes {
        if n.len() == pos.len() + 1 && n[..pos.len()] == pos[..] {
            let last = match n.last().unwrap() { Shape::Static(s) => format!("static {}", show(s)), Shape::Var => "variable".into(), Shape::Seq => "sequence".into() };
            out.insert(m.iter().cloned().chain(path.iter().cloned()).chain(Some(last)).collect::<Vec<_>>().join(" "));
        }
    }
}
#[derive(Clone)]
struct Env { pos: usize, status: u16, vars: Vars, captured: Vec<Vec<u8>>, links: Vec<String> }
struct Interp<'a> { path: &'a [Vec<u8>], method: usize, log: Vec<(usize, u16, Vars, Option<Vec<Vec<u8>>>, Vec<String>)>, rejections: u64, fallbacks: u64 }
impl<'a> Interp<'a> {
    /// true: handled
    fn run(&mut self, d: &D, e: &mut Env) -> bool {
        match d {
            D::Leaf(id, _) => { self.log.push((*id, e.status, e.vars.clone(), None, e.links.clone())); true }
            D::Reject(id, s) => {
                self.log.push((*id, e.status, e.vars.clone(), Some(self.path[e.pos..].to_vec()), e.links.clone()));
                if let Some(s) = s { e.status = *s; }
                self.rejections += 1;
                false
            }
            D::Method(v) => match v.iter().find(|x| x.0 == self.method) { Some((_, d)) => self.run(d, e), None => { e.status = 405; false } },
            D::Status(v) => match v.iter().find(|x| x.0 == e.status) { Some((_, d)) => self.run(d, e), None => false },
            D::Opt(Some(d)) => self.run(d, e),
            D::Opt(None) => { e.status = 404; false }
            D::OrElse(a, b) => {
                let before = e.clone();
                if self.run(a, e) { return true; }
                self.fallbacks += 1;
                // the secondary gets the request as the primary got it, plus the error status
                *e = Env { status: e.status, ..before };
                self.run(b, e)
            }
            D::Vars(n, d) => {
                let old = e.vars.clone();
                e.vars = n.iter().zip(e.captured.iter()).filter(|(n, _)| !n.is_empty()).map(|(n, v)| (n.clone(), v.clone())).collect();
                let r = self.run(d, e);
                e.vars = old;
                r
            }
            D::Tree(_, links, v) => {
                let before = e.clone();
                let regs: Vec<Reg> = v.iter().enumerate().map(|(i, (r, _))| Reg { method: None, route: r.clone(), id: i }).collect();
                let model = Model::new(&regs, &[]);
                let path = &self.path[e.pos..];
                let cands = model.candidates(path);
                if cands.is_empty() { e.status = 404; }
                let mut all = BTreeSet::new();
                if *links { for (pos, _) in &cands { listed(v, &model, pos, &None, &[], &mut all); } all.remove(&format!("method {}", METHODS[self.method])); }
                for (pos, starts) in cands {
                    e.status = before.status;
                    e.links = all.iter().cloned().collect();
                    match model.at(&pos, &Method::Get) {
                        None => e.status = 404,
                        Some(r) => {
                            let names: Vec<Vec<u8>> = r.route.iter().filter_map(|s| match s { Seg::Static(_) => None, Seg::Var(n) | Seg::Seq(n) => Some(n.clone()) }).collect();
                            let mut caps = vec![];
                            for (k, s) in r.route.iter().enumerate() {
                                if matches!(s, Seg::Static(_)) { continue; }
                                let end = starts.get(k + 1).cloned().unwrap_or(path.len());
                                caps.push(path[starts[k]..end].join(&b'/'));
                            }
                            let d = D::Vars(names, Box::new(v[r.id].1.clone()));
                            let mut e2 = Env { pos: self.path.len(), captured: caps, ..e.clone() };
                            if self.run(&d, &mut e2) { *e = e2; return true; }
                            e.status = e2.status;
                        }
                    }
                }
                *e = Env { status: e.status, ..before };
                false
            }
        }
    }
}

// paths that fit the trees inside
fn trees<'a>(d: &'a D, out: &mut Vec<Reg>) {
    match d {
        D::Method(v) => for x in v { trees(&x.1, out) }, D::Status(v) => for x in v { trees(&x.1, out) },
        D::Opt(Some(d)) | D::Vars(_, d) => trees(d, out), D::OrElse(a, b) => { trees(a, out); trees(b, out) }
        D::Tree(_, _, v) => for (r, d) in v { out.push(Reg { method: None, route: r.clone(), id: 0 }); trees(d, out) }, _ => {}
    }
}
pub fn compose(g: &mut Rng, cov: &mut Cov) -> CaseResult {
    let depth = g.range(1, 4);
    let d = { let mut ge = Gen { next: 0 }; if g.chance(1, 2) { D::OrElse(Box::new(ge.d(g, depth, 0, true)), Box::new(ge.d(g, depth, 0, true))) } else { ge.d(g, depth, 0, true) } };
    let log: Obslog = Default::default();
    let inst = Server::new(build(g, &d, &log)).build();
    let mut regs = vec![];
    trees(&d, &mut regs);
    for q in 0..g.range(1, 6) {
        let segs = path_for(g, &regs);
        let m = g.below(5);
        let raw = raw_path(g, &segs);
        let segs = model_segments(&raw);
        let mut target = encode_path(g, &raw);
        target.extend_from_slice(b"?q=%FF1");
        let body = g.bytes(q * 3);
        let token = format!("t{}", q);
        log.lock().unwrap().clear();
        let s = serve(&inst, Script::new(request(METHODS[m].as_ref(), &target, &[("X-Token", token.as_bytes()), ("Content-Length", body.len().to_string().as_bytes())], &body)), false);
        let seen = std::mem::take(&mut *log.lock().unwrap());
        let ctx = || format!("{:?}\n request {} {}", d, METHODS[m], show(&target));
        if let End::HandlerPanic(p) = &s.end { return bad("panic", format!("{} on {}", p, ctx())); }
        let mut it = Interp { path: &segs, method: m, log: vec![], rejections: 0, fallbacks: 0 };
        let mut e = Env { pos: 0, status: 200, vars: Vars::new(), captured: vec![], links: vec![] };
        let handled = it.run(&d, &mut e);
        let rs = match parse_all(&s.out, &[]) { Ok(r) => r, Err(e) => return bad("response", format!("{} on {}", e, ctx())) };
        ensure!(rs.len() == 1 && rs[0].complete, "response", "{} responses on {}", rs.len(), ctx());
        ensure!(seen.len() == it.log.len(), "trace", "routers visited {:?}, expected {:?} on {}", seen.iter().map(|s| s.0.id).collect::<Vec<_>>(), it.log.iter().map(|l| l.0).collect::<Vec<_>>(), ctx());
        for ((o, links), (id, status, vars, left, want_links)) in seen.iter().zip(&it.log) {
            let want = Obs { id: *id, method: METHODS[m].to_string(), path: raw.clone(), token: token.clone(), vars: vars.clone(), status: *status, left: left.clone(), body: if left.is_none() { Some(body.clone()) } else { None }, query: vec![(b"q".to_vec(), b"\xff1".to_vec())] };
            ensure!(*o == want, "observation", "router part saw {:?}\n expected {:?}\n on {}", o, want, ctx());
            let mut links = links.clone();
            links.sort();
            ensure!(links == *want_links, "hyperlinks", "hyperlinks {:?}, expected {:?} for part {} on {}", links, want_links, id, ctx());
            if !links.is_empty() { cov.add("hyperlinks", links.len() as u64); }
        }
        if handled {
            let id = it.log.last().unwrap().0;
            ensure!(rs[0].body == format!("leaf {}", id).into_bytes() && rs[0].status == e.status, "answer", "answer {} {:?}, expected {} from leaf {} on {}", rs[0].status, show(&rs[0].body), e.status, id, ctx());
        } else {
            let want = if e.status == 200 { 404 } else { e.status };
            ensure!(rs[0].status == want && rs[0].body.is_empty(), "rejection", "answer {} {:?}, expected an empty {} on {}", rs[0].status, show(&rs[0].body), want, ctx());
            cov.count("rejected by all");
        }
        cov.count("requests");
        cov.add("parts visited", it.log.len() as u64);
        cov.add("rejections", it.rejections);
        cov.add("fallbacks taken", it.fallbacks);
        cov.max("max parts visited", it.log.len() as u64);
        if it.log.len() > 1 || it.fallbacks > 0 { cov.nontrivial(&(&d, m, &target)); cov.sample(|| format!("{} visits {:?} of {:?}", ctx().lines().last().unwrap(), it.log.iter().map(|l| l.0).collect::<Vec<_>>(), d)); }
    }
    Ok(())
}

type OM = OrElse<MethodRouter<Variables<H>>, StatusRouter<Variables<H>>>;
type WM = Variables<OrElse<MethodRouter<H>, StatusRouter<H>>>;
/// Composite nodes built through the tree's builders: both parts of a fallback get the variable names of the route, also after merging.
/// So does a wrapper around the whole composite.
macro_rules! typed { ($f: ident, $om: ident, $wrapped: expr, $what: expr) => {
fn $f(g: &mut Rng, cov: &mut Cov) -> CaseResult {
    let n = g.range(1, 7);
    let mut regs = table(g, n, true);
    // a wrapper has the names of the path that created the node, or was merged into it last: let them all agree
    if $wrapped {
        let names: Vec<Vec<u8>> = (0..32).map(|_| name(g)).collect();
        for r in &mut regs { for (i, s) in r.route.iter_mut().enumerate() { match s { Seg::Var(n) | Seg::Seq(n) => *n = names[i % 32].clone(), _ => {} } } }
    }
    // which part each registration goes to
    let parts: Vec<Option<u16>> = regs.iter().map(|_| if g.chance(1, 2) { None } else { Some(*g.pick(&[405u16, 404])) }).collect();
    let log: Log = Default::default();
    fn add(g: &mut Rng, t: &mut TreeRouter<$om>, regs: &[Reg], parts: &[Option<u16>], log: &Log, skip: usize) {
        for (r, p) in regs.iter().zip(parts) {
            let ro = render(g, &r.route[skip..]).unwrap_or_default();
            let mut b = t.build();
            let h = H { id: r.id, log: log.clone() };
            match p { None => b.path(ro).then().primary().on(r.method.clone().unwrap(), h), Some(s) => b.path(ro).then().secondary().on(StatusCode::from_u16(*s), h) }
        }
    }
    let mut t = TreeRouter::<$om>::new();
    let cut = g.range(0, regs.len());
    add(g, &mut t, &regs[..cut], &parts[..cut], &log, 0);
    let mut i = cut;
    while i < regs.len() {
        let k = g.range(0, regs[i].route.len());
        let ok = render(&mut g.clone(), &regs[i].route[k..]).is_some() && render(&mut g.clone(), &regs[i].route[..k]).is_some();
        if ok && g.chance(2, 3) {
            let mut o = TreeRouter::<$om>::new();
            add(g, &mut o, &regs[i..i + 1], &parts[i..i + 1], &log, k);
            let pre = render(g, &regs[i].route[..k]).unwrap();
            t.build().path(pre).merge(o);
        } else { add(g, &mut t, &regs[i..i + 1], &parts[i..i + 1], &log, 0); }
        i += 1;
    }
    t.find_hyperlinks = g.chance(1, 3);
    let hyper = t.find_hyperlinks;
    let inst = Server::new(t).build();
    let model = Model::new(&regs, &[]);
    for _ in 0..6 {
        let segs = path_for(g, &regs);
        let raw = raw_path(g, &segs);
        let segs = model_segments(&raw);
        let m = if g.chance(9, 10) { METHODS[g.below(3)].clone() } else { any_method(g) };
        let target = encode_path(g, &raw);
        log.lock().unwrap().clear();
        let s = serve(&inst, Script::new(request(m.as_ref(), &target, &[], b"")), false);
        let seen = log.lock().unwrap().clone();
        if let End::HandlerPanic(p) = &s.end { return bad("panic", format!("{} on {} {:?} {} {}", p, show_regs(&regs), parts, m, show(&target))); }
        let mut want: Option<(usize, Vars, u16)> = None;
        for (pos, starts) in model.candidates(&segs) {
            let at = |f: &dyn Fn(usize) -> bool| regs.iter().rev().find(|r| f(r.id) && r.route.len() == pos.len() && r.route.iter().zip(&pos).all(|(a, b)| &a.shape() == b));
            if let Some(r) = at(&|i| parts[i].is_none() && regs[i].method.as_ref() == Some(&m)) { want = Some((r.id, Model::capture(r, &starts, &segs), 200)); break; }
            if let Some(r) = at(&|i| parts[i] == Some(405)) { want = Some((r.id, Model::capture(r, &starts, &segs), 405)); break; }
        }
        let got = seen.first().map(|s| (s.id, s.vars.clone(), s.status));
        ensure!(seen.len() <= 1 && got == want, "typed", "{} runs {:?}, expected {:?} for {} {} on {} {:?} hyperlinks={}", seen.len(), got, want, m, show(&target), show_regs(&regs), parts, hyper);
        cov.count($what);
        if want.is_some() { cov.nontrivial(&(show_regs(&regs), &parts, &target, m.to_string())); }
    }
    Ok(())
}
} }
typed!(typed, OM, false, "requests to built composites");
typed!(wrapped, WM, true, "requests to wrapped composites");

type A = MethodRouter<TreeRouter<O>>;
type B = StatusRouter<TreeRouter<O>>;
/// Registrations of the parts of an `OrElse<A, B>`, in force from first to last.
#[derive(Clone, Default, Debug)]
struct Grown { primary: Vec<(Method, Vec<Reg>)>, secondary: Vec<(u16, Vec<Reg>)> }
fn part<'x, K: PartialEq + Clone>(v: &'x mut Vec<(K, Vec<Reg>)>, k: &K) -> &'x mut Vec<Reg> {
    if let Some(i) = v.iter().position(|x| &x.0 == k) { return &mut v[i].1; }
    v.push((k.clone(), vec![]));
    &mut v.last_mut().unwrap().1
}
fn grow(g: &mut Rng, ops: usize, next: &mut usize, log: &Log, desc: &mut Vec<String>, depth: usize) -> (OrElse<A, B>, Grown) {
    let mut r: OrElse<A, B> = match g.below(4) { 0 => OrElse::default(), 1 => OrElse::with_primary(A::new()), 2 => OrElse::with_secondary(B::default()), _ => OrElse::new(A::default(), B::new()) };
    let mut model = Grown::default();
    for _ in 0..ops {
        let id = *next; *next += 1;
        let h = || H { id, log: log.clone() };
        let ro = route(g);
        let text = render(g, &ro).unwrap();
        let m = METHODS[if g.chance(2, 3) { g.below(2) } else { g.below(METHODS.len()) }].clone();
        let st = *g.pick(&[404u16, 405, 405, 403]);
        let code = StatusCode::from_u16(st);
        let how = g.below(4);
        let reg = Reg { method: None, route: ro.clone(), id };
        match g.below(12) {
            0..=3 => {
                desc.push(format!("p.{}:{}={}/{}", m, show(&text), id, how));
                let one = |b: &mut rustful::handler::tree_router::Builder<O>| O::add(b, &None, &text, h(), how);
                let mut b = r.build();
                let mut p = b.primary();
                match (g.chance(1, 2), &m) {
                    (true, Method::Get) => one(&mut p.get::<H>()), (true, Method::Post) => one(&mut p.post::<H>()), (true, Method::Put) => one(&mut p.put::<H>()), (true, Method::Delete) => one(&mut p.delete::<H>()),
                    (true, Method::Patch) => one(&mut p.patch::<H>()), (true, Method::Options) => one(&mut p.options::<H>()), (true, Method::Head) => one(&mut p.head::<H>()), (true, Method::Connect) => one(&mut p.connect::<H>()),
                    _ => one(&mut p.method::<H>(m.clone())),
                }
                part(&mut model.primary, &m).push(reg);
            }
            4 | 5 => {
                desc.push(format!("s.{}:{}={}/{}", st, show(&text), id, how));
                let mut b = r.build();
                let mut s = b.secondary();
                // a `many` in between changes nothing
                if g.chance(1, 3) { s.many(|_| ()); }
                O::add(&mut s.status(code), &None, &text, h(), how);
                part(&mut model.secondary, &st).push(reg);
            }
            6 => {
                desc.push(format!("p.on({})={}", m, id));
                let mut b = r.build();
                let mut p = b.primary();
                match (g.chance(1, 2), &m) {
                    (true, Method::Get) => p.on_get(h()), (true, Method::Post) => p.on_post(h()), (true, Method::Put) => p.on_put(h()), (true, Method::Delete) => p.on_delete(h()), (true, Method::Patch) => p.on_patch(h()),
                    (true, Method::Options) => p.on_options(h()), (true, Method::Head) => p.on_head(h()), (true, Method::Connect) => p.on_connect(h()), _ => { p.many(|p| p.on(m.clone(), h())); }
                }
                *part(&mut model.primary, &m) = vec![Reg { route: vec![], ..reg }];
            }
            7 => { desc.push(format!("s.on({})={}", st, id)); r.build().secondary().on(code, h()); *part(&mut model.secondary, &st) = vec![Reg { route: vec![], ..reg }]; }
            8 => {
                // a whole tree in place of what was there
                let mut t = TreeRouter::<O>::new();
                t.build().on_path(&text, h());
                desc.push(format!("insert {} {}={}", m, show(&text), id));
                if g.chance(1, 2) { r.primary.insert(m.clone(), t); *part(&mut model.primary, &m) = vec![reg]; } else { r.secondary.insert(code, t); *part(&mut model.secondary, &st) = vec![reg]; }
            }
            _ if depth > 0 => {
                let n = g.range(0, 4);
                desc.push("merge{".into());
                let (o, om) = grow(g, n, next, log, desc, depth - 1);
                let how = g.below(5);
                desc.push(format!("}}/{}", how));
                let (mut wp, mut ws) = (true, true);
                match how {
                    0 => { rustful::handler::Merge::merge(&mut r, o); }
                    1 => { r.build().primary().merge(o.primary); ws = false; }
                    2 => { r.build().secondary().merge(o.secondary); wp = false; }
                    3 => { rustful::handler::Merge::merge(&mut r.primary, o.primary); ws = false; }
                    _ => { let mut b = r.build(); b.primary().merge(o.primary); b.secondary().merge(o.secondary); }
                }
                if wp { for (m, v) in om.primary { part(&mut model.primary, &m).extend(v); } }
                if ws { for (s, v) in om.secondary { part(&mut model.secondary, &s).extend(v); } }
            }
            _ => {}
        }
    }
    (r, model)
}
/// Routers of routers grown by their builders and by merging act like the registrations that are in force.
pub fn grown(g: &mut Rng, cov: &mut Cov) -> CaseResult {
    let log: Log = Default::default();
    let mut desc = vec![];
    let mut next = 0;
    let ops = g.range(1, 10);
    let (r, model) = grow(g, ops, &mut next, &log, &mut desc, 2);
    let r = if g.chance(1, 3) { r.clone() } else { r };
    let inst = Server::new(r).build();
    let all: Vec<Reg> = model.primary.iter().flat_map(|x| &x.1).chain(model.secondary.iter().flat_map(|x| &x.1)).cloned().collect();
    let tried: Vec<Method> = model.primary.iter().map(|x| x.0.clone()).collect();
    for _ in 0..8 {
        let segs = path_for(g, &all);
        let raw = raw_path(g, &segs);
        let segs = model_segments(&raw);
        let m = if !tried.is_empty() && g.chance(3, 4) { g.pick(&tried).clone() } else { any_method(g) };
        let target = encode_path(g, &raw);
        log.lock().unwrap().clear();
        let s = serve(&inst, Script::new(request(m.as_ref(), &target, &[], b"")), false);
        let seen = log.lock().unwrap().clone();
        let ctx = || format!("{} {} on {}", m, show(&target), desc.join(" "));
        if let End::HandlerPanic(p) = &s.end { return bad("panic", format!("{} on {}", p, ctx())); }
        let rs = match parse_all(&s.out, &[]) { Ok(r) => r, Err(e) => return bad("response", format!("{} on {}", e, ctx())) };
        ensure!(rs.len() == 1 && rs[0].complete, "response", "{} responses on {}", rs.len(), ctx());
        let mut status = 200;
        let mut want = None;
        match model.primary.iter().find(|x| x.0 == m) { None => status = 405, Some((_, regs)) => { want = Model::new(regs, &[]).dispatch(&segs, &m); if want.is_none() { status = 404; } } }
        let mut second = false;
        if want.is_none() {
            if let Some((_, regs)) = model.secondary.iter().find(|x| x.0 == status) { want = Model::new(regs, &[]).dispatch(&segs, &m); second = true; }
        }
        match &want {
            Some(p) => {
                ensure!(seen.len() == 1 && seen[0].id == p.id && seen[0].vars == p.vars, "grown", "handlers {:?}, expected h{} {:?} for {}", seen.iter().map(|s| (s.id, show_vars(&s.vars))).collect::<Vec<_>>(), p.id, show_vars(&p.vars), ctx());
                ensure!(seen[0].status == status && rs[0].status == status, "grown status", "status {} at the handler, {} on the wire, expected {} for {}", seen[0].status, rs[0].status, status, ctx());
                if second { cov.count("grown: by the secondary"); } else { cov.count("grown: by the primary"); }
                cov.nontrivial(&(&desc, &target, m.to_string()));
                cov.sample(|| format!("{} -> h{} with {}", ctx(), p.id, status));
            }
            None => {
                let status = if second { 404 } else { status };
                ensure!(seen.is_empty() && rs[0].status == status && rs[0].body.is_empty(), "grown rejection", "h{:?}, status {}, expected {} for {}", seen.first().map(|s| s.id), rs[0].status, status, ctx());
                cov.count("grown: rejected");
            }
        }
    }
    Ok(())
}

pub fn run(r: &mut Run) {
    r.cases("grown composites", 10000, 300000, grown);
    r.cases("compositions", 60000, 1500000, compose);
    r.cases("built composites", 20000, 400000, typed);
    r.cases("wrapped composites", 20000, 400000, wrapped);
}

/// C31: the same trace with mocks as with the real thing.
pub fn mock_case(g: &mut Rng, cov: &mut Cov) -> CaseResult {
    use crate::mocks::*;
    let depth = g.range(1, 4);
    let d = { let mut ge = Gen { next: 0 }; if g.chance(1, 2) { D::OrElse(Box::new(ge.d(g, depth, 0, true)), Box::new(ge.d(g, depth, 0, true))) } else { ge.d(g, depth, 0, true) } };
    let log: Obslog = Default::default();
    let router = Arc::new(build(g, &d, &log));
    let inst = Server::new(Shared(router.clone())).build();
    let global = rustful::server::Global::default();
    let mut regs = vec![];
    trees(&d, &mut regs);
    for q in 0..g.range(1, 5) {
        let segs = path_for(g, &regs);
        let m = METHODS[g.below(COMMON)].clone();
        let raw = raw_path(g, &segs);
        let path = match String::from_utf8(raw.clone()) { Ok(p) => p, Err(_) => continue };
        let target = encode_path(g, &raw);
        let token = format!("t{}", q);
        let h = vec![("X-Token".to_string(), token.clone().into_bytes())];
        log.lock().unwrap().clear();
        let s = serve(&inst, Script::new(request(m.as_ref(), &target, &[("X-Token", token.as_bytes())], b"")), false);
        let real = std::mem::take(&mut *log.lock().unwrap());
        let what = || format!("{:?}\n request {} {}", d, m, show(&target));
        let mock = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_mock(&*router, &m, &path, &h, &global)));
        let rejected = match mock { Ok(r) => r, Err(_) => return bad("panic", format!("mock: {} on {}", take_panic(), what())) };
        let fake = std::mem::take(&mut *log.lock().unwrap());
        ensure!(real == fake, "trace", "real {:?}\nmock {:?}\n on {}", real, fake, what());
        let rs = match parse_all(&s.out, &[]) { Ok(r) => r, Err(e) => return bad("response", format!("{} on {}", e, what())) };
        if let Some(st) = rejected { let st = if st == 200 { 404 } else { st }; ensure!(rs.len() == 1 && rs[0].status == st, "rejection", "the mock is rejected with {}, the real one with {:?} on {}", st, rs.first().map(|r| r.status), what()); }
        cov.count("composed requests");
        cov.add("parts visited", real.len() as u64);
        if real.len() > 1 { cov.nontrivial(&(&d, m.to_string(), &target)); }
    }
    Ok(())
}
