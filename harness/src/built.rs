//! C33 C34: what builders tell the parts below them; the route state as routers of the user's own use it.
use crate::core::*;
use crate::routes::{model_segments, render, Seg};
use rustful::context::MaybeUtf8Owned;
use rustful::handler::routing::{Route, RouteState};
use rustful::handler::{method_router, or_else, status_router, tree_router};
use rustful::handler::{ApplyContext, Build, BuilderContext, FromHandler, Merge, MethodRouter, OrElse, StatusRouter, TreeRouter, VariableNames, Variables};
use rustful::{Method, StatusCode};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

// ---- a part of the user's own, which remembers what it was told
#[derive(Clone)]
struct A(u32);
#[derive(Clone)]
struct B(u32);
/// What a part was told. Values that are prepended come first.
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct Told { names: Vec<Vec<u8>>, a: Vec<u32>, b: Vec<u32> }
#[derive(Clone, Debug, PartialEq)]
struct Scope { names: Option<Vec<Vec<u8>>>, a: Option<u32>, b: Option<u32>, pos: Vec<Step> }
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum Step { Static(Vec<u8>), Var, Seq, Item, M(usize), S(u16), First, Second, Hide }

fn owned(n: &[Vec<u8>]) -> VariableNames { VariableNames(n.iter().map(|n| MaybeUtf8Owned::from(n.clone())).collect()) }
fn bytes(n: &VariableNames) -> Vec<Vec<u8>> { n.0.iter().map(|n| { let b: &[u8] = n.as_ref(); b.to_vec() }).collect() }
impl Scope {
    fn context(&self) -> BuilderContext {
        let mut c = BuilderContext::new();
        if let Some(ref n) = self.names { c.insert(owned(n)); }
        if let Some(a) = self.a { c.insert(A(a)); }
        if let Some(b) = self.b { c.insert(B(b)); }
        c
    }
    fn says(&self, c: &BuilderContext) -> bool {
        c.get::<VariableNames>().map(bytes) == self.names && c.get::<A>().map(|a| a.0) == self.a && c.get::<B>().map(|b| b.0) == self.b
    }
    fn at(&self, s: &[Step]) -> Scope { let mut x = self.clone(); x.pos.extend_from_slice(s); x }
    /// What a new part below, `rel` further down, is told.
    fn told(&self, rel: &[Step]) -> Told {
        let hidden = rel.contains(&Step::Hide);
        Told { names: if hidden { vec![] } else { self.names.clone().unwrap_or_default() }, a: self.a.into_iter().collect(), b: self.b.into_iter().collect() }
    }
}

thread_local!(static LIVE: RefCell<(u64, BTreeMap<u64, (Option<u32>, Told)>)> = RefCell::new((0, BTreeMap::new())));
fn live<R, F: FnOnce(&mut BTreeMap<u64, (Option<u32>, Told)>) -> R>(f: F) -> R { LIVE.with(|l| f(&mut l.borrow_mut().1)) }
struct P(u64);
impl P {
    fn new(id: Option<u32>, told: Told) -> P { LIVE.with(|l| { let mut l = l.borrow_mut(); l.0 += 1; let k = l.0; l.1.insert(k, (id, told)); P(k) }) }
    fn told(&self) -> (Option<u32>, Told) { live(|l| l[&self.0].clone()) }
}
impl Default for P { fn default() -> P { P::new(None, Told::default()) } }
impl Clone for P { fn clone(&self) -> P { let (i, t) = self.told(); P::new(i, t) } }
impl Drop for P { fn drop(&mut self) { let _ = LIVE.try_with(|l| l.borrow_mut().1.remove(&self.0)); } }
impl FromHandler<u32> for P {
    fn from_handler(c: BuilderContext, id: u32) -> P {
        P::new(Some(id), Told { names: c.get().map(bytes).unwrap_or_default(), a: c.get::<A>().map(|a| a.0).into_iter().collect(), b: c.get::<B>().map(|b| b.0).into_iter().collect() })
    }
}
impl ApplyContext for P {
    fn apply_context(&mut self, c: BuilderContext) {
        live(|l| { let t = &mut l.get_mut(&self.0).unwrap().1;
            if let Some(n) = c.get() { t.names = bytes(n); } if let Some(a) = c.get::<A>() { t.a = vec![a.0]; } if let Some(b) = c.get::<B>() { t.b = vec![b.0]; } })
    }
    fn prepend_context(&mut self, c: BuilderContext) {
        live(|l| { let t = &mut l.get_mut(&self.0).unwrap().1;
            if let Some(n) = c.get() { t.names.splice(0..0, bytes(n)); } if let Some(a) = c.get::<A>() { t.a.insert(0, a.0); } if let Some(b) = c.get::<B>() { t.b.insert(0, b.0); } })
    }
}
/// One that was never given a handler leaves what is there.
impl Merge for P { fn merge(&mut self, mut o: P) { if o.told().0.is_some() { std::mem::swap(self, &mut o); } } }
struct PB<'a>(&'a mut P, BuilderContext);
impl<'a> Build<'a> for P { type Builder = PB<'a>; fn get_builder(&'a mut self, c: BuilderContext) -> PB<'a> { PB(self, c) } }
/// The optional part (an `Option` has no builder).
#[derive(Default, Clone)]
struct Maybe(Option<P>);
impl FromHandler<u32> for Maybe { fn from_handler(c: BuilderContext, id: u32) -> Maybe { Maybe(FromHandler::from_handler(c, id)) } }
impl ApplyContext for Maybe { fn apply_context(&mut self, c: BuilderContext) { self.0.apply_context(c) } fn prepend_context(&mut self, c: BuilderContext) { self.0.prepend_context(c) } }
impl Merge for Maybe { fn merge(&mut self, o: Maybe) { self.0.merge(o.0) } }
struct MB<'a>(&'a mut Maybe, BuilderContext);
impl<'a> Build<'a> for Maybe { type Builder = MB<'a>; fn get_builder(&'a mut self, c: BuilderContext) -> MB<'a> { MB(self, c) } }

// ---- the flat description
#[derive(Clone, Debug, Default)]
struct Flat { parts: BTreeMap<Vec<Step>, (Option<u32>, Told)>, nodes: BTreeSet<Vec<Step>> }
impl Flat {
    fn below<'x>(pos: &'x [Step]) -> impl Fn(&Vec<Step>) -> bool + 'x { move |k| k.starts_with(pos) }
    fn create(&mut self, s: &Scope, defaults: &[Vec<Step>]) {
        for d in defaults { self.parts.insert([&s.pos[..], d].concat(), (None, s.told(d))); }
    }
    fn set(&mut self, s: &Scope, direct: &[Step], id: u32) {
        let under = Flat::below(&s.pos);
        self.parts.retain(|k, _| !under(k));
        self.nodes.retain(|k| !under(k) || k.len() == s.pos.len());
        self.parts.insert([&s.pos[..], direct].concat(), (Some(id), s.told(direct)));
    }
    /// `apply_context` with what the scope knows, on everything.
    fn apply(&mut self, s: &Scope) {
        for (k, (_, t)) in self.parts.iter_mut() {
            if let Some(a) = s.a { t.a = vec![a]; }
            if let Some(b) = s.b { t.b = vec![b]; }
            if k.contains(&Step::Hide) { continue; }
            if let Some(ref n) = s.names {
                // only parts that come after a path have names of their own
                if k.iter().any(|x| match x { Step::Item => true, _ => false }) { t.names.splice(0..0, n.clone()); } else { t.names = n.clone(); }
            }
        }
    }
    fn prepend(&mut self, s: &Scope) {
        for (k, (_, t)) in self.parts.iter_mut() {
            if let Some(a) = s.a { t.a.insert(0, a); }
            if let Some(b) = s.b { t.b.insert(0, b); }
            if let (Some(n), false) = (&s.names, k.contains(&Step::Hide)) { t.names.splice(0..0, n.clone()); }
        }
    }
    fn merge(&mut self, pos: &[Step], other: Flat) {
        for (k, v) in other.parts {
            let k = [pos, &k].concat();
            if v.0.is_some() || !self.parts.contains_key(&k) { self.parts.insert(k, v); }
        }
        for n in other.nodes { self.nodes.insert([pos, &n].concat()); }
    }
    /// Creates what is missing on the way along `segs` and returns the scope at the end.
    fn walk(&mut self, s: &Scope, segs: &[Seg], defaults: &[Vec<Step>], create_last: bool) -> Scope {
        let mut s = s.clone();
        for (i, seg) in segs.iter().enumerate() {
            s.pos.push(match seg { Seg::Static(l) => Step::Static(l.clone()), Seg::Var(_) => Step::Var, Seg::Seq(_) => Step::Seq });
            match seg { Seg::Var(n) | Seg::Seq(n) => s.names.as_mut().unwrap().push(n.clone()), _ => {} }
            if self.nodes.insert(s.pos.clone()) && (create_last || i + 1 < segs.len()) { let item = s.at(&[Step::Item]); self.create(&item, defaults); }
        }
        s
    }
}

struct G<'r> { rng: &'r mut Rng, next: u32, ops: usize, desc: Vec<String>, wrong: Option<String> }
impl<'r> G<'r> {
    fn id(&mut self) -> u32 { self.next += 1; self.next }
    fn segs(&mut self, max: usize) -> Vec<Seg> {
        let n = if max > 1 && big() && self.rng.chance(1, 6) { self.rng.range(10, 90) } else { self.rng.range(0, max) };
        (0..n).map(|_| match self.rng.below(8) {
            0..=3 => Seg::Static(self.rng.pick(&[&b"a"[..], b"b", b"c", b"", b"\xff"]).to_vec()),
            4 | 5 => Seg::Var(self.rng.pick(&[&b"x"[..], b"y", b"", b"\xfe"]).to_vec()),
            _ => Seg::Seq(self.rng.pick(&[&b"r"[..], b"x", b""]).to_vec()),
        }).collect()
    }
    fn path(&mut self, max: usize) -> (Vec<Seg>, Vec<u8>) { loop { let s = self.segs(max); if let Some(r) = render(self.rng, &s) { return (s, r); } } }
    fn scope(&mut self) -> Scope {
        let names = if self.rng.chance(1, 4) { Some((0..self.rng.range(0, 2)).map(|i| vec![b'0' + i as u8]).collect()) } else { None };
        let a = if self.rng.chance(2, 3) { Some(self.rng.below(90) as u32) } else { None };
        let b = if self.rng.chance(1, 3) { Some(self.rng.below(90) as u32) } else { None };
        Scope { names, a, b, pos: vec![] }
    }
    fn say(&mut self, s: String) { if self.desc.len() < 60 { self.desc.push(s); } }
}

// ---- every router, built through its own builder
type TB<'x, T> = tree_router::Builder<'x, T>;
trait Part: Default + ApplyContext + Merge + Clone + for<'b> Build<'b> + 'static {
    /// Where the parts of an untouched one are.
    fn defaults() -> Vec<Vec<Step>>;
    fn fill<'b>(b: &mut <Self as Build<'b>>::Builder, g: &mut G, m: &mut Flat, s: &Scope, depth: usize);
    /// Where a handler given directly ends up, for those that are made from one.
    fn direct() -> Option<Vec<Step>> { None }
    fn on_path<'x>(_b: &'x mut TB<Self>, _p: &[u8], _id: u32) -> TB<'x, Self> { unreachable!() }
    fn on_route<'x>(_b: &'x mut TB<Self>, _p: &[u8], _id: u32) -> TB<'x, Self> { unreachable!() }
    fn handler<'x>(_b: &'x mut TB<Self>, _id: u32) -> TB<'x, Self> { unreachable!() }
    fn on_method(_b: &mut method_router::Builder<Self>, _m: Method, _how: bool, _id: u32) { unreachable!() }
    fn in_method<'x, 'y: 'x>(_b: &'x mut method_router::Builder<'y, Self>, _m: Method, _how: bool) -> <Self as Build<'x>>::Builder { unreachable!() }
    fn on_status(_b: &mut status_router::Builder<Self>, _m: StatusCode, _id: u32) { unreachable!() }
}
macro_rules! direct {
    ($d: expr) => {
        fn direct() -> Option<Vec<Step>> { Some($d) }
        fn on_path<'x>(b: &'x mut TB<Self>, p: &[u8], id: u32) -> TB<'x, Self> { b.on_path(p, id) }
        fn on_route<'x>(b: &'x mut TB<Self>, p: &[u8], id: u32) -> TB<'x, Self> { b.on_route(p, id) }
        fn handler<'x>(b: &'x mut TB<Self>, id: u32) -> TB<'x, Self> { b.handler(id) }
        fn on_method(b: &mut method_router::Builder<Self>, m: Method, how: bool, id: u32) {
            if how { return b.on(m, id); }
            match m { Method::Get => b.on_get(id), Method::Post => b.on_post(id), Method::Patch => b.on_patch(id), Method::Put => b.on_put(id), Method::Delete => b.on_delete(id),
                Method::Options => b.on_options(id), Method::Head => b.on_head(id), Method::Connect => b.on_connect(id), m => b.on(m, id) }
        }
        fn in_method<'x, 'y: 'x>(b: &'x mut method_router::Builder<'y, Self>, m: Method, how: bool) -> <Self as Build<'x>>::Builder {
            if how { return b.method::<u32>(m); }
            match m { Method::Get => b.get::<u32>(), Method::Post => b.post::<u32>(), Method::Patch => b.patch::<u32>(), Method::Put => b.put::<u32>(), Method::Delete => b.delete::<u32>(),
                Method::Options => b.options::<u32>(), Method::Head => b.head::<u32>(), Method::Connect => b.connect::<u32>(), m => b.method::<u32>(m) }
        }
        fn on_status(b: &mut status_router::Builder<Self>, s: StatusCode, id: u32) { b.on(s, id) }
    }
}
fn compare(g: &mut G, m: &Flat, s: &Scope, c: &BuilderContext, p: Option<&P>) {
    if !s.says(c) { g.wrong = Some(format!("the builder of the part at {:?} knows {:?} {:?} {:?}, expected {:?}", s.pos, c.get::<VariableNames>().map(bytes), c.get::<A>().map(|a| a.0), c.get::<B>().map(|b| b.0), s)); }
    let is = p.map(|p| p.told());
    if is.as_ref() != m.parts.get(&s.pos) { g.wrong = Some(format!("the part at {:?} is {:?}, expected {:?}", s.pos, is, m.parts.get(&s.pos))); }
}
impl Part for P {
    fn defaults() -> Vec<Vec<Step>> { vec![vec![]] }
    fn fill<'b>(b: &mut PB<'b>, g: &mut G, m: &mut Flat, s: &Scope, _: usize) { compare(g, m, s, &b.1, Some(b.0)) }
    direct!(vec![]);
}
impl Part for Maybe {
    fn defaults() -> Vec<Vec<Step>> { vec![] }
    fn fill<'b>(b: &mut MB<'b>, g: &mut G, m: &mut Flat, s: &Scope, _: usize) { compare(g, m, s, &b.1, (b.0).0.as_ref()) }
    direct!(vec![]);
}
/// A separately built router, to be merged.
fn other<T: Part>(g: &mut G, depth: usize) -> (T, Flat) {
    separate(g, T::defaults(), |t: &mut T, g, m, s| { let mut b = t.get_builder(s.context()); T::fill(&mut b, g, m, s, depth) })
}
fn separate<T: Default, F: Fn(&mut T, &mut G, &mut Flat, &Scope)>(g: &mut G, defaults: Vec<Vec<Step>>, f: F) -> (T, Flat) {
    let mut t = T::default();
    let mut m = Flat::default();
    let s0 = Scope { names: None, a: None, b: None, pos: vec![] };
    for d in defaults { m.parts.insert(d.clone(), (None, s0.told(&d))); }
    for _ in 0..g.rng.range(1, 2) {
        let s = g.scope();
        g.say(format!("[other with {:?} {:?} {:?}:", s.names, s.a, s.b));
        f(&mut t, g, &mut m, &s);
        g.say("]".into());
    }
    (t, m)
}
fn tree_ops<T: Part>(b: &mut TB<T>, g: &mut G, m: &mut Flat, s: &Scope, depth: usize) {
    let direct = T::direct();
    for _ in 0..g.rng.range(1, if depth > 2 { 4 } else { 2 }) {
        g.ops += 1;
        if g.ops > 60 { return; }
        match g.rng.below(9) {
            0 | 1 if direct.is_some() => {
                let ((segs, p), id) = (g.path(3), g.id());
                g.say(format!("on_path({:?}, {})", show(&p), id));
                let s2 = m.walk(s, &segs, &T::defaults(), true);
                m.set(&s2.at(&[Step::Item]), direct.as_ref().unwrap(), id);
                let mut b2 = T::on_path(b, &p, id);
                if depth > 0 && g.rng.chance(1, 3) { tree_ops(&mut b2, g, m, &s2, depth - 1); }
            }
            2 if direct.is_some() => {
                let ((segs, p), id) = (g.path(1), g.id());
                g.say(format!("on_route({:?}, {})", show(&p), id));
                let s2 = m.walk(s, &segs, &T::defaults(), false);
                m.set(&s2.at(&[Step::Item]), direct.as_ref().unwrap(), id);
                let mut b2 = T::on_route(b, &p, id);
                if depth > 0 && g.rng.chance(1, 3) { tree_ops(&mut b2, g, m, &s2, depth - 1); }
            }
            3 if direct.is_some() => {
                let id = g.id();
                g.say(format!("handler({})", id));
                m.set(&s.at(&[Step::Item]), direct.as_ref().unwrap(), id);
                let mut b2 = T::handler(b, id);
                if depth > 0 && g.rng.chance(1, 3) { tree_ops(&mut b2, g, m, s, depth - 1); }
            }
            4 if depth > 0 => {
                g.say("many {".into());
                b.many(|b| tree_ops(b, g, m, s, depth - 1));
                g.say("}".into());
            }
            5 if depth > 0 => {
                let (o, f) = separate(g, tree_defaults::<T>(), |t: &mut TreeRouter<T>, g, m, s| tree_fill(&mut t.get_builder(s.context()), g, m, s, depth - 1));
                let (segs, p) = g.path(2);
                g.say(format!("merge it at {:?}", show(&p)));
                let s2 = m.walk(s, &segs, &T::defaults(), true);
                let mut f = f;
                f.apply(&s2);
                m.merge(&s2.pos, f);
                if segs.is_empty() && g.rng.chance(1, 2) { b.merge(o); } else { b.path(&p).merge(o); }
            }
            6 => {
                let (segs, p) = g.path(2);
                let mut at = s.clone();
                let mut there = true;
                for seg in &segs {
                    at.pos.push(match seg { Seg::Static(l) => Step::Static(l.clone()), Seg::Var(_) => Step::Var, Seg::Seq(_) => Step::Seq });
                    match seg { Seg::Var(n) | Seg::Seq(n) => at.names.as_mut().unwrap().push(n.clone()), _ => {} }
                    there = there && m.nodes.contains(&at.pos);
                }
                g.say(format!("get_path({:?}) {{", show(&p)));
                match b.get_path(&p) {
                    Some(mut b2) => if !there { g.wrong = Some(format!("get_path finds {:?}", show(&p))); } else if depth > 0 { tree_ops(&mut b2, g, m, &at, depth - 1); },
                    None => if there { g.wrong = Some(format!("get_path does not find {:?}", show(&p))); },
                }
                g.say("}".into());
            }
            7 if depth > 0 => {
                let (segs, p) = g.path(3);
                g.say(format!("path({:?}) {{", show(&p)));
                let s2 = m.walk(s, &segs, &T::defaults(), true);
                tree_ops(&mut b.path(&p), g, m, &s2, depth - 1);
                g.say("}".into());
            }
            _ => {
                let (segs, p) = g.path(3);
                g.say(format!("path({:?}).then {{", show(&p)));
                let s2 = m.walk(s, &segs, &T::defaults(), true);
                let mut b2 = b.path(&p);
                T::fill(&mut b2.then(), g, m, &s2.at(&[Step::Item]), depth.saturating_sub(1));
                g.say("}".into());
            }
        }
        if g.wrong.is_some() { return; }
    }
}
fn tree_fill<T: Part>(b: &mut TB<T>, g: &mut G, m: &mut Flat, s: &Scope, depth: usize) {
    let mut s = s.clone();
    if s.names.is_none() { s.names = Some(vec![]); }
    tree_ops(b, g, m, &s, depth)
}
fn tree_defaults<T: Part>() -> Vec<Vec<Step>> { T::defaults().into_iter().map(|mut d| { d.insert(0, Step::Item); d }).collect() }
fn then(s: Step, d: Option<Vec<Step>>) -> Vec<Step> { let mut d = d.unwrap(); d.insert(0, s); d }
/// Trees of what is made from a handler, and of what is not.
macro_rules! made_tree { ($($t: ty),*) => { $(
impl Part for TreeRouter<$t> { fn defaults() -> Vec<Vec<Step>> { tree_defaults::<$t>() } fn fill<'b>(b: &mut TB<'b, $t>, g: &mut G, m: &mut Flat, s: &Scope, d: usize) { tree_fill(b, g, m, s, d) } direct!(then(Step::Item, <$t as Part>::direct())); }
)* } }
made_tree!(P, Maybe, TreeRouter<P>, Variables<P>, Variables<TreeRouter<P>>);
macro_rules! plain_tree { ($($h: ident),*) => { $(
impl<T: Part> Part for TreeRouter<$h<T>> { fn defaults() -> Vec<Vec<Step>> { tree_defaults::<$h<T>>() } fn fill<'b>(b: &mut TB<'b, $h<T>>, g: &mut G, m: &mut Flat, s: &Scope, d: usize) { tree_fill(b, g, m, s, d) } }
)* } }
plain_tree!(MethodRouter, StatusRouter);
impl<T: Part, U: Part> Part for TreeRouter<OrElse<T, U>> { fn defaults() -> Vec<Vec<Step>> { tree_defaults::<OrElse<T, U>>() } fn fill<'b>(b: &mut TB<'b, OrElse<T, U>>, g: &mut G, m: &mut Flat, s: &Scope, d: usize) { tree_fill(b, g, m, s, d) } }

fn hidden<T: Part>() -> Vec<Vec<Step>> { T::defaults().into_iter().map(|mut d| { d.insert(0, Step::Hide); d }).collect() }
fn hide(s: &Scope) -> Scope { let mut s = s.at(&[Step::Hide]); s.names = None; s }
impl Part for Variables<P> { fn defaults() -> Vec<Vec<Step>> { hidden::<P>() } fn fill<'b>(b: &mut PB<'b>, g: &mut G, m: &mut Flat, s: &Scope, d: usize) { P::fill(b, g, m, &hide(s), d) } direct!(then(Step::Hide, P::direct())); }
impl Part for Variables<TreeRouter<P>> { fn defaults() -> Vec<Vec<Step>> { hidden::<TreeRouter<P>>() } fn fill<'b>(b: &mut TB<'b, P>, g: &mut G, m: &mut Flat, s: &Scope, d: usize) { <TreeRouter<P> as Part>::fill(b, g, m, &hide(s), d) } direct!(then(Step::Hide, <TreeRouter<P> as Part>::direct())); }

fn methods() -> Vec<Method> { vec![Method::Get, Method::Post, Method::Patch, Method::Put, Method::Delete, Method::Options, Method::Head, Method::Connect, Method::Trace, Method::Extension("FOO".into())] }
impl<T: Part> Part for MethodRouter<T> {
    fn defaults() -> Vec<Vec<Step>> { vec![] }
    fn fill<'b>(b: &mut method_router::Builder<'b, T>, g: &mut G, m: &mut Flat, s: &Scope, depth: usize) {
        for _ in 0..g.rng.range(1, 3) {
            g.ops += 1;
            if g.ops > 60 { return; }
            let few = g.rng.chance(2, 3);
            let i = g.rng.below(if few { 3 } else { methods().len() });
            let (me, how) = (methods()[i].clone(), g.rng.chance(1, 2));
            let at = s.at(&[Step::M(i)]);
            match g.rng.below(4) {
                0 if depth > 0 => {
                    let (o, mut f) = other::<MethodRouter<T>>(g, depth - 1);
                    g.say("merge it".into());
                    f.apply(s);
                    m.merge(&s.pos, f);
                    b.merge(o);
                }
                1 if T::direct().is_some() && depth > 0 => {
                    g.say(format!("method({}) {{", me));
                    if m.nodes.insert(at.pos.clone()) { m.create(&at, &T::defaults()); }
                    T::fill(&mut T::in_method(b, me, how), g, m, &at, depth - 1);
                    g.say("}".into());
                }
                2 if depth > 0 => { b.many(|b| { if let Some(d) = T::direct() { let id = g.id(); g.say(format!("many on({}, {})", me, id)); m.nodes.insert(at.pos.clone()); m.set(&at, &d, id); T::on_method(b, me, how, id); } }); }
                _ => if let Some(d) = T::direct() {
                    let id = g.id();
                    g.say(format!("on({}, {})", me, id));
                    m.nodes.insert(at.pos.clone());
                    m.set(&at, &d, id);
                    T::on_method(b, me, how, id);
                }
            }
        }
    }
}
impl<T: Part> Part for StatusRouter<T> {
    fn defaults() -> Vec<Vec<Step>> { vec![] }
    fn fill<'b>(b: &mut status_router::Builder<'b, T>, g: &mut G, m: &mut Flat, s: &Scope, depth: usize) {
        for _ in 0..g.rng.range(1, 3) {
            g.ops += 1;
            if g.ops > 60 { return; }
            let st = g.rng.pick(&[StatusCode::NotFound, StatusCode::Ok, StatusCode::MethodNotAllowed, StatusCode::Unregistered(499)]).clone();
            let at = s.at(&[Step::S(st.to_u16())]);
            match g.rng.below(4) {
                0 if depth > 0 => {
                    let (o, mut f) = other::<StatusRouter<T>>(g, depth - 1);
                    g.say("merge it".into());
                    f.apply(s);
                    m.merge(&s.pos, f);
                    b.merge(o);
                }
                1 | 2 if depth > 0 => {
                    g.say(format!("status({}) {{", st));
                    if m.nodes.insert(at.pos.clone()) { m.create(&at, &T::defaults()); }
                    T::fill(&mut b.status(st), g, m, &at, depth - 1);
                    g.say("}".into());
                }
                _ => if let Some(d) = T::direct() {
                    let id = g.id();
                    g.say(format!("on({}, {})", st, id));
                    m.nodes.insert(at.pos.clone());
                    m.set(&at, &d, id);
                    if g.rng.chance(1, 3) { b.many(|b| T::on_status(b, st, id)); } else { T::on_status(b, st, id); }
                }
            }
        }
    }
}
impl<T: Part, U: Part> Part for OrElse<T, U> {
    fn defaults() -> Vec<Vec<Step>> {
        T::defaults().into_iter().map(|mut d| { d.insert(0, Step::First); d }).chain(U::defaults().into_iter().map(|mut d| { d.insert(0, Step::Second); d })).collect()
    }
    fn fill<'b>(b: &mut or_else::Builder<'b, T, U>, g: &mut G, m: &mut Flat, s: &Scope, depth: usize) {
        for _ in 0..g.rng.range(1, 2) {
            if g.rng.chance(1, 2) { g.say("primary {".into()); T::fill(&mut b.primary(), g, m, &s.at(&[Step::First]), depth); }
            else { g.say("secondary {".into()); b.many(|b| U::fill(&mut b.secondary(), g, m, &s.at(&[Step::Second]), depth)); }
            g.say("}".into());
        }
    }
}

fn check(f: &Flat, what: &str, g: &G) -> CaseResult {
    let mut is: Vec<(Option<u32>, Told)> = live(|l| l.values().cloned().collect());
    let mut want: Vec<(Option<u32>, Told)> = f.parts.values().cloned().collect();
    is.sort(); want.sort();
    if is != want {
        let extra: Vec<_> = is.iter().filter(|x| !want.contains(x)).take(4).collect();
        let missing: Vec<_> = f.parts.iter().filter(|x| !is.contains(x.1)).take(4).collect();
        return bad("told", format!("{}: {} parts, expected {}; unexpected {:?}; expected {:?} in: {}", what, is.len(), want.len(), extra, missing, g.desc.join(" ")));
    }
    Ok(())
}
fn built_case<T: Part>(name: &str, rng: &mut Rng, cov: &mut Cov) -> CaseResult {
    live(|l| l.clear());
    let mut g = G { rng, next: 0, ops: 0, desc: vec![name.to_string()], wrong: None };
    let (mut t, mut m) = other::<T>(&mut g, 4);
    for round in 0..g.rng.range(1, 4) {
        if let Some(w) = g.wrong.take() { return bad("told", format!("{} in: {}", w, g.desc.join(" "))); }
        check(&m, "after building", &g)?;
        let s = g.scope();
        let n = |s: &Scope| format!("with {:?} {:?} {:?}", s.names, s.a, s.b);
        match g.rng.below(6) {
            0 => { let (o, f) = other::<T>(&mut g, 3); g.say("Merge::merge".into()); t.merge(o); m.merge(&[], f); cov.count("merged at the root"); }
            1 => { g.say(format!("apply {}", n(&s))); t.apply_context(s.context()); m.apply(&s); cov.count("applied at the root"); }
            2 => { g.say(format!("prepend {}", n(&s))); t.prepend_context(s.context()); m.prepend(&s); cov.count("prepended at the root"); }
            3 => { g.say("clone".into()); let c = t.clone(); if g.rng.chance(1, 2) { t = c; } cov.count("cloned"); }
            _ => { g.say(format!("build {}", n(&s))); let mut b = t.get_builder(s.context()); T::fill(&mut b, &mut g, &mut m, &s, 3); }
        }
        if round > 3 { break; }
    }
    if let Some(w) = g.wrong.take() { return bad("told", format!("{} in: {}", w, g.desc.join(" "))); }
    check(&m, "in the end", &g)?;
    let (registered, named) = (m.parts.values().filter(|p| p.0.is_some()).count(), m.parts.values().filter(|p| p.1.names.len() > 1).count());
    cov.add("parts checked", m.parts.len() as u64);
    cov.add("registered parts", registered as u64);
    cov.add("parts with several names", named as u64);
    cov.max("max parts", m.parts.len() as u64);
    cov.count(name);
    if registered > 1 { cov.nontrivial(&g.desc); cov.sample(|| format!("{} -> {} parts", g.desc.join(" "), m.parts.len())); }
    drop(t);
    ensure!(live(|l| l.is_empty()), "dropped", "{} parts outlive their router: {}", live(|l| l.len()), g.desc.join(" "));
    Ok(())
}
fn built(rng: &mut Rng, cov: &mut Cov) -> CaseResult {
    type T<X> = TreeRouter<X>; type M<X> = MethodRouter<X>; type S<X> = StatusRouter<X>; type V<X> = Variables<X>; type O<X, Y> = OrElse<X, Y>;
    match rng.below(18) {
        0 => built_case::<T<P>>("tree", rng, cov),
        1 => built_case::<T<Maybe>>("tree of options", rng, cov),
        2 => built_case::<T<M<P>>>("tree of methods", rng, cov),
        3 => built_case::<T<M<Maybe>>>("tree of methods of options", rng, cov),
        4 => built_case::<T<S<P>>>("tree of statuses", rng, cov),
        5 => built_case::<T<O<P, M<P>>>>("tree of fallbacks", rng, cov),
        6 => built_case::<T<T<P>>>("tree of trees", rng, cov),
        7 => built_case::<T<M<T<P>>>>("tree of methods of trees", rng, cov),
        8 => built_case::<M<T<P>>>("methods of trees", rng, cov),
        9 => built_case::<M<P>>("methods", rng, cov),
        10 => built_case::<S<T<M<P>>>>("statuses of trees of methods", rng, cov),
        11 => built_case::<O<T<P>, M<T<Maybe>>>>("fallback of trees", rng, cov),
        12 => built_case::<O<O<P, T<P>>, S<P>>>("fallbacks", rng, cov),
        13 => built_case::<T<V<P>>>("tree of named", rng, cov),
        14 => built_case::<T<M<V<P>>>>("tree of named methods", rng, cov),
        15 => built_case::<T<V<T<P>>>>("tree of named trees", rng, cov),
        16 => built_case::<T<S<O<Maybe, T<P>>>>>("tree of statuses of fallbacks", rng, cov),
        _ => built_case::<S<P>>("statuses", rng, cov),
    }
}

// ---- C34
fn state_case(rng: &mut Rng, cov: &mut Cov) -> CaseResult {
    let label = |r: &mut Rng| -> Vec<u8> { match r.below(6) { 0 => vec![], 1 => r.bytes(2).into_iter().filter(|c| *c != b'/').collect(), 2 => "é".into(), _ => r.pick(&[&b"a"[..], b"bc", b":x", b"*", b"..", b"\xff"]).to_vec() } };
    // the route: one string, or a list of them
    let pieces: Vec<Vec<u8>> = (0..if rng.chance(1, 2) { 1 } else { rng.range(0, 4) }).map(|_| {
        let mut v = vec![];
        for i in 0..rng.size(if big() { 3000 } else { 20 }) % if big() { 3000 } else { 7 } { if i > 0 || rng.chance(1, 2) { v.push(b'/'); } v.extend(label(rng)); }
        if rng.chance(1, 3) { v.push(b'/'); }
        v
    }).collect();
    let segs: Vec<Vec<u8>> = pieces.iter().flat_map(|p| model_segments(p)).collect();
    let text: Vec<Option<&str>> = pieces.iter().map(|p| std::str::from_utf8(p).ok()).collect();
    let lists: Vec<&[u8]> = pieces.iter().map(|p| &p[..]).collect();
    let strs: Vec<&str> = if text.iter().all(|t| t.is_some()) { text.iter().map(|t| t.unwrap()).collect() } else { vec![] };
    let way = match rng.below(4) { 0 if pieces.len() == 1 => 0, 1 if pieces.len() == 1 && text[0].is_some() => 1, 2 if !strs.is_empty() => 2, _ => 3 };
    let (mut st, listed): (RouteState, Vec<Vec<u8>>) = match way {
        0 => (RouteState::from(&pieces[0][..]), pieces[0][..].segments().map(|s| s.to_vec()).collect()),
        1 => (RouteState::from(strs[0]), strs[0].segments().map(|s| s.to_vec()).collect()),
        2 => (RouteState::from(&strs), strs.segments().map(|s| s.to_vec()).collect()),
        _ => (RouteState::from(&lists), lists.segments().map(|s| s.to_vec()).collect()),
    };
    let what = |ops: &[String]| format!("{:?} (way {}): {}", lists.iter().take(6).map(|p| show_short(p)).collect::<Vec<_>>(), way, ops.iter().rev().take(40).rev().cloned().collect::<Vec<_>>().join(" "));
    ensure!(listed == segs, "segments", "{} segments, expected {} in {}", listed.len(), segs.len(), what(&[]));
    if way == 0 { let it = pieces[0][..].segments(); let (lo, hi) = it.size_hint(); ensure!(lo <= segs.len() && hi.map_or(true, |h| h >= segs.len()), "size hint", "{:?} for {} segments in {}", (lo, hi), segs.len(), what(&[])); }
    // marks: index of the variable each consumed segment belongs to
    let mut marks: Vec<Option<usize>> = vec![None; segs.len()];
    let (mut at, mut var) = (0, 0);
    let mut snaps: Vec<((usize, usize), usize, usize)> = vec![(st.snapshot(), 0, 0)];
    let mut ops = vec![];
    let mut kept = None;
    let steps = rng.range(0, segs.len() * 2 + 6);
    let mut done = 0;
    loop {
        let finish = done >= steps;
        if finish && at == segs.len() { break; }
        done += 1;
        let op = if finish { rng.below(3) } else { rng.below(9) };
        if at < segs.len() {
            match op {
                0 => { st.skip(); marks[at] = None; at += 1; ops.push("skip".to_string()); }
                1 => { st.keep(); marks[at] = Some(var); at += 1; var += 1; ops.push("keep".to_string()); }
                2 | 3 => { st.fuse(); marks[at] = Some(var); at += 1; ops.push("fuse".to_string()); }
                _ => {}
            }
        }
        match op {
            4 => { snaps.push((st.snapshot(), at, var)); ops.push("snapshot".into()); cov.count("snapshots"); }
            5 | 6 => { let i = rng.below(snaps.len()); snaps.truncate(i + 1); let s = snaps[i]; st.go_to(s.0); at = s.1; var = s.2; ops.push(format!("go_to({},{})", at, var)); cov.count("returns to a snapshot"); }
            7 => { kept = Some((st.clone(), marks.clone(), at, var, snaps.clone())); ops.push("clone".into()); }
            8 => if let Some((s, m, a, v, p)) = kept.take() { st = s; marks = m; at = a; var = v; snaps = p; ops.push("restore".into()); cov.count("restored clones"); },
            _ => {}
        }
        ensure!(st.get() == segs.get(at).map(|s| &s[..]), "get", "{:?} at {} in {}", st.get().map(show), at, what(&ops));
        ensure!(st.is_empty() == (at == segs.len()), "is_empty", "{} at {} of {} in {}", st.is_empty(), at, segs.len(), what(&ops));
    }
    let top = marks.iter().filter_map(|m| *m).max().map_or(0, |m| m + 1);
    let names: Vec<Vec<u8>> = (0..top + rng.below(2)).map(|i| match rng.below(5) { 0 => vec![], 1 => b"same".to_vec(), 2 => vec![0xff, (i % 250) as u8], _ => format!("n{}", i).into_bytes() }).collect();
    let mut want: BTreeMap<Vec<u8>, Vec<u8>> = BTreeMap::new();
    let mut order: Vec<(usize, Vec<Vec<u8>>)> = vec![];
    for (i, m) in marks.iter().enumerate() { if let Some(v) = m { match order.last_mut() { Some(l) if l.0 == *v => l.1.push(segs[i].clone()), _ => order.push((*v, vec![segs[i].clone()])) } } }
        for (v, parts) in &order { if !names[*v].is_empty() { want.insert(names[*v].clone(), parts.join(&b'/')); } }
        let given: Vec<MaybeUtf8Owned> = names.iter().map(|n| n.clone().into()).collect();
        let got: BTreeMap<Vec<u8>, Vec<u8>> = st.variables(&given).into_iter().map(|(k, v)| (k.as_bytes().to_vec(), v.as_bytes().to_vec())).collect();
        ensure!(got == want, "variables", "{:?}, expected {:?} for {:?} in {}", got, want, names.iter().map(|n| show(n)).collect::<Vec<_>>(), what(&ops));
        cov.add("variables", want.len() as u64);
        if want.len() > 1 { cov.nontrivial(&(&segs, &marks, &names)); cov.sample(|| format!("{} -> {:?}", what(&ops), want.iter().map(|(k, v)| (show(k), show_short(v))).collect::<Vec<_>>())); }
    cov.add("operations", ops.len() as u64);
    cov.max("max segments", segs.len() as u64);
    Ok(())
}

pub fn run(r: &mut Run) {
    if r.id == "C33" { r.cases("built routers", 8000, 1000000, built); r.large("built routers", 100, 10_000, built); }
    else { r.cases("route states", 100000, 3000000, state_case); r.large("route states", 20, 500, state_case); }
}
