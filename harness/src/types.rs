//! C13 C14 C15 C16 C17: data types compared operation by operation with small reference models.
use crate::core::*;
use rustful::context::{MaybeUtf8, MaybeUtf8Owned, MaybeUtf8Slice, Parameters};
use rustful::file::{check_path, ext_to_mime};
use rustful::server::Global;
use std::borrow::Cow;
use std::cmp::Ordering;
use std::collections::hash_map::Entry;
use std::collections::{BTreeMap, HashMap};
use std::ffi::OsStr;
use std::os::unix::ffi::OsStrExt;
use std::path::{Component, Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering as AO};
use std::sync::Arc;

/// Byte strings around UTF-8 boundaries.
pub fn utf8ish(rng: &mut Rng) -> Vec<u8> {
    let n = if big() && rng.chance(1, 12) { rng.range(6, 3000) } else { rng.below(6) };
    let mut v = vec![];
    for _ in 0..n {
        match rng.below(12) {
            0..=3 => v.push(*rng.pick(b"ab/ 0+%=&")),
            4 => v.extend_from_slice("é".as_bytes()),
            5 => v.extend_from_slice("語".as_bytes()),
            6 => v.extend_from_slice("😀".as_bytes()),
            7 => v.push(*rng.pick(&[0xC3, 0xE8, 0xF0])),
            8 => v.push(*rng.pick(&[0xA9, 0xAA, 0x9F, 0x98, 0x80])),
            9 => v.extend_from_slice(*rng.pick(&[&[0xED, 0xA0, 0x80][..], &[0xC0, 0x80], &[0xF4, 0x90, 0x80, 0x80], &[0xEF, 0xBB, 0xBF]])),
            10 => { let c = random_char(rng); let mut b = [0; 4]; let s = c.encode_utf8(&mut b).as_bytes(); let k = rng.range(1, s.len()); v.extend_from_slice(&s[..k]); }
            _ => v.push(rng.byte()),
        }
    }
    v
}
pub fn random_char(rng: &mut Rng) -> char {
    loop { if let Some(c) = std::char::from_u32(match rng.below(4) { 0 => rng.below(0x80) as u32, 1 => rng.below(0x800) as u32, 2 => rng.below(0x10000) as u32, _ => rng.below(0x110000) as u32 }) { return c; } }
}

fn check_maybe(m: &MaybeUtf8Owned, want: &[u8]) -> CaseResult {
    let valid = std::str::from_utf8(want);
    ensure!(m.as_bytes() == want, "bytes", "as_bytes {} want {}", show(m.as_bytes()), show(want));
    ensure!(m.as_ref() as &[u8] == want && &m[..] == want && m.len() == want.len(), "bytes", "as_ref/deref {} want {}", show(m.as_ref()), show(want));
    ensure!(m.is_utf8() == valid.is_ok(), "is_utf8", "is_utf8 {} for {}", m.is_utf8(), show(want));
    ensure!(m.as_utf8().map(|s| s.as_bytes()) == valid.ok().map(|s| s.as_bytes()), "as_utf8", "as_utf8 {:?} for {}", m.as_utf8(), show(want));
    let lossy = String::from_utf8_lossy(want);
    ensure!(m.as_utf8_lossy().as_bytes() == lossy.as_bytes(), "lossy", "as_utf8_lossy {:?} want {:?}", m.as_utf8_lossy(), lossy);
    ensure!(std::str::from_utf8(m.as_utf8_lossy().as_bytes()).is_ok(), "lossy", "invalid UTF-8 string for {}", show(want));
    let s: String = m.clone().into();
    ensure!(s.as_bytes() == lossy.as_bytes(), "into_string", "Into<String> {} want {:?}", show(s.as_bytes()), lossy);
    let v: Vec<u8> = m.clone().into();
    ensure!(&v[..] == want, "into_vec", "Into<Vec> {} want {}", show(&v), show(want));
    let sl: MaybeUtf8Slice = m.as_slice();
    ensure!(&sl[..] == want && sl.is_utf8() == m.is_utf8() && sl.as_utf8() == m.as_utf8() && sl.as_utf8_lossy() == m.as_utf8_lossy(), "as_slice", "as_slice {} want {}", show(&sl), show(want));
    ensure!(hash_of(m) == hash_of(want) && hash_of(&sl) == hash_of(want), "hash", "hash differs from that of the bytes {}", show(want));
    let sv: Vec<u8> = sl.into();
    ensure!(&sv[..] == want, "into_vec", "slice Into<Vec> {} want {}", show(&sv), show(want));
    Ok(())
}

macro_rules! cmp_both {
    ($m:expr, $other:expr, $ob:expr, $name:expr) => {{
        let (m, o, a, b) = (&$m, &$other, $m.as_ref() as &[u8], $ob);
        let want = a.cmp(b);
        ensure!((*m == *o) == (a == b) && (*o == *m) == (a == b), concat!("eq ", $name), "{} vs {}: {} / {}", show(a), show(b), *m == *o, *o == *m);
        ensure!((*m).partial_cmp(o) == Some(want), concat!("cmp ", $name), "{}.partial_cmp({}) = {:?}, bytes say {:?}", show(a), show(b), (*m).partial_cmp(o), want);
        ensure!((*o).partial_cmp(m) == Some(want.reverse()), concat!("cmp ", $name), "{}.partial_cmp({}) [{} on the left] = {:?}, bytes say {:?}", show(b), show(a), $name, (*o).partial_cmp(m), want.reverse());
        ensure!((*m < *o) == (want == Ordering::Less) && (*o < *m) == (want == Ordering::Greater) && (*m >= *o) == (want != Ordering::Less), concat!("cmp ", $name), "operators on {} and {}", show(a), show(b));
    }};
}

pub fn maybe_case(rng: &mut Rng, cov: &mut Cov) -> CaseResult {
    let mut model;
    let huge = big() && rng.chance(1, 3);
    let start = if huge { // one piece again and again, mostly text
        let mut unit = utf8ish(rng);
        if rng.chance(5, 6) || unit.is_empty() { unit = String::from_utf8_lossy(&unit).into_owned().into_bytes(); unit.push(b'.'); }
        let mut v = unit.repeat(rng.range(4000, 1_200_000) / unit.len());
        if rng.chance(1, 4) && !v.is_empty() { let i = rng.below(v.len()); v[i] = rng.byte(); }
        v
    } else { utf8ish(rng) };
    let mut m: MaybeUtf8Owned = match rng.below(4) {
        0 => { model = vec![]; MaybeUtf8::new() }
        1 => { let s = String::from_utf8_lossy(&start).into_owned(); model = s.clone().into_bytes(); s.into() }
        2 => { let s = String::from_utf8_lossy(&start).into_owned(); model = s.clone().into_bytes(); (&s[..]).into() }
        _ => { model = start.clone(); start.into() }
    };
    let mut flips = 0;
    check_maybe(&m, &model)?;
    let mut ops = show_short(&model).to_string();
    for _ in 0..if huge { rng.range(2, 12) } else if big() { rng.range(10, 300) } else { rng.range(1, 12) } {
        let was = m.is_utf8();
        match rng.below(9) {
            0 => { let c = random_char(rng); m.push_char(c); let mut b = [0; 4]; model.extend_from_slice(c.encode_utf8(&mut b).as_bytes()); ops += &format!(" char {:x}", c as u32); }
            1 => { let b = if rng.chance(1, 2) { rng.byte() } else { *rng.pick(&[0xC3, 0xA9, 0xE8, 0xAA, 0x9E, 0xF0, 0x9F, 0x98, 0x80, b'a']) }; m.push_byte(b); model.push(b); ops += &format!(" byte {:02x}", b); }
            2 => { let s = String::from_utf8_lossy(&utf8ish(rng)).into_owned(); m.push_str(&s); model.extend_from_slice(s.as_bytes()); ops += " str"; }
            3 | 4 => { let b = utf8ish(rng); m.push_bytes(&b); model.extend_from_slice(&b); ops += &format!(" bytes {}", show(&b)); }
            5 => {
                // finish an unfinished sequence byte by byte
                let c = random_char(rng);
                let mut b = [0; 4];
                for &x in c.encode_utf8(&mut b).as_bytes() { m.push_byte(x); model.push(x); check_maybe(&m, &model)?; }
                ops += " bytewise char";
            }
            6 | 7 => {
                ops += " buffer[";
                let mut buf = m.as_buffer();
                ensure!(&buf[..] == &model[..], "buffer", "buffer starts as {} want {}", show(&buf), show(&model));
                for _ in 0..rng.below(4) {
                    match rng.below(6) {
                        0 => { let b = utf8ish(rng); buf.push_bytes(&b); model.extend_from_slice(&b); ops += " bytes"; }
                        1 => { let c = random_char(rng); buf.push_char(c); let mut b = [0; 4]; model.extend_from_slice(c.encode_utf8(&mut b).as_bytes()); ops += " char"; }
                        2 => { let n = rng.below(model.len() + 1); buf.truncate(n); model.truncate(n); ops += " truncate"; }
                        3 => { let n = rng.below(model.len() + 1); let b = rng.byte(); buf.insert(n, b); model.insert(n, b); ops += " insert"; }
                        4 => if !model.is_empty() { let n = rng.below(model.len()); let b = rng.byte(); buf[n] = b; model[n] = b; ops += " set"; },
                        _ => if !model.is_empty() { let n = rng.below(model.len()); buf.remove(n); model.remove(n); ops += " remove"; },
                    }
                }
                ops += " ]";
                drop(buf);
            }
            _ => { m = m.clone(); ops += " clone"; }
        }
        if was != m.is_utf8() { flips += 1; }
        cov.max("max bytes of a string", model.len() as u64);
        check_maybe(&m, &model).map_err(|v| Violation { sig: v.sig, detail: format!("{}\nafter: {}", v.detail, ops) })?;
        cov.count("operations");
    }
    cov.add("valid/invalid transitions", flips);
    // comparisons with a related string
    let mut other = match rng.below(4) { 0 => model.clone(), 1 => { let mut o = model.clone(); let n = rng.below(o.len() + 1); o.truncate(n); o.extend(utf8ish(rng)); o } 2 => { let mut o = model.clone(); if !o.is_empty() { let i = rng.below(o.len()); o[i] = rng.byte(); } o } _ => utf8ish(rng) };
    if rng.chance(1, 2) { other = String::from_utf8_lossy(&other).into_owned().into_bytes(); }
    let o: MaybeUtf8Owned = other.clone().into();
    let osl: MaybeUtf8Slice = o.as_slice();
    cmp_both!(m, other[..], &other[..], "[u8]");
    { let r: &[u8] = &other; cmp_both!(m, r, &other[..], "&[u8]"); }
    cmp_both!(m, other, &other[..], "Vec<u8>");
    if let Ok(s) = std::str::from_utf8(&other) {
        cmp_both!(m, *s, &other[..], "str");
        cmp_both!(m, s, &other[..], "&str");
        let st = s.to_string();
        cmp_both!(m, st, &other[..], "String");
        for c in vec![Cow::Borrowed(s), Cow::Owned(st.clone())] {
            // Cow is only supported on the left
            ensure!((c == m) == (model == other), "eq Cow", "{} vs {}", show(&other), show(&model));
            ensure!(c.partial_cmp(&m) == Some(other[..].cmp(&model[..])), "cmp Cow", "{:?}.partial_cmp({})", c, show(&model));
        }
    }
    ensure!((m == o) == (model == other) && (o == m) == (model == other), "eq", "{} vs {}", show(&model), show(&other));
    ensure!((m == osl) == (model == other), "eq", "{} vs slice {}", show(&model), show(&other));
    ensure!(m.cmp(&o) == model.cmp(&other) && o.cmp(&m) == other.cmp(&model), "cmp", "{} cmp {} = {:?}", show(&model), show(&other), m.cmp(&o));
    ensure!(m.partial_cmp(&osl) == Some(model.cmp(&other)), "cmp", "{} partial_cmp slice {}", show(&model), show(&other));
    { let msl: MaybeUtf8Slice = m.as_slice(); ensure!(msl.cmp(&osl) == model.cmp(&other), "cmp", "slices {} {}", show(&model), show(&other)); }
    ensure!(model == other || hash_of(&m) == hash_of(&model[..]), "hash", "hash");
    // lookup through Borrow<[u8]>
    let mut map: HashMap<MaybeUtf8Owned, u32> = HashMap::new();
    map.insert(o.clone(), 1);
    map.insert(m.clone(), 2);
    ensure!(map.get(&model[..]) == Some(&2), "lookup", "lookup by bytes of {}", show(&model));
    ensure!(map.get(&other[..]) == Some(if model == other { &2 } else { &1 }), "lookup", "lookup by bytes of {}", show(&other));
    let parameters: Parameters = map.into_iter().map(|(k, v)| (k, v.to_string())).collect();
    ensure!(parameters.get(&model[..]).map(|s| s.into_owned()) == Some("2".into()), "lookup", "parameter lookup by bytes of {}", show(&model));
    cov.count("comparisons");
    if flips > 0 || (!m.is_utf8() && m.len() > 1) { cov.nontrivial(&(&model, &other)); }
    cov.sample(|| ops.clone());
    Ok(())
}

// ---- C14 -------------------------------------------------------------------------------------------------------------
pub struct Meter { made: AtomicUsize, dropped: AtomicUsize, double: AtomicUsize }
pub struct V<const N: usize> { val: u64, pad: [u64; N], meter: Arc<Meter>, alive: u32 }
impl<const N: usize> V<N> {
    fn new(val: u64, meter: &Arc<Meter>) -> V<N> { meter.made.fetch_add(1, AO::SeqCst); V { val, pad: [val; N], meter: meter.clone(), alive: 0xA11CE } }
    fn value(&self) -> u64 { if self.alive == 0xA11CE && self.pad.iter().all(|&p| p == self.val) { self.val } else { u64::max_value() } }
}
impl<const N: usize> Drop for V<N> {
    fn drop(&mut self) { if self.alive != 0xA11CE { self.meter.double.fetch_add(1, AO::SeqCst); } self.alive = 0; self.meter.dropped.fetch_add(1, AO::SeqCst); }
}
#[repr(align(64))] #[derive(Debug, PartialEq)] struct Aligned(u8);
#[derive(Debug, PartialEq)] struct Zst;
macro_rules! each_n { ($n:expr, $N:ident, $body:expr) => { match $n {
    0 => { const $N: usize = 0; $body } 1 => { const $N: usize = 1; $body } 2 => { const $N: usize = 2; $body } 3 => { const $N: usize = 3; $body }
    4 => { const $N: usize = 4; $body } 5 => { const $N: usize = 5; $body } 6 => { const $N: usize = 6; $body } 7 => { const $N: usize = 7; $body }
    8 => { const $N: usize = 8; $body } 9 => { const $N: usize = 9; $body } 10 => { const $N: usize = 10; $body } _ => { const $N: usize = 11; $body } } } }

fn look_global(g: &Global, n: usize) -> Option<u64> { each_n!(n, N, g.get::<V<N>>().map(|v| v.value())) }
fn check_global(g: &Global, model: &BTreeMap<usize, u64>) -> CaseResult {
    for n in 0..12 {
        let got = look_global(g, n);
        ensure!(got.as_ref() == model.get(&n), "get", "type {}: got {:?}, stored {:?} (all stored: {:?})", n, got, model.get(&n), model);
    }
    ensure!(g.get::<u64>().is_none() && g.get::<V<100>>().is_none() && g.get::<()>().is_none() && g.get::<Arc<Meter>>().is_none(), "get", "a type never stored was found");
    Ok(())
}

/// Different types that look alike: the same name, size or shape.
struct Alike { what: &'static str, boxed: fn(u64) -> Global, insert: fn(&mut Global, u64) -> Option<u64>, get: fn(&Global) -> Option<u64> }
fn alike() -> Vec<Alike> {
    macro_rules! local { ($($t:ty)*) => { vec![$({
        struct S($t);
        Alike { what: concat!("local S of ", stringify!($t)), boxed: |v| Box::new(S(v as $t)).into(), insert: |g, v| g.insert(S(v as $t)).map(|s| s.0 as u64), get: |g| g.get::<S>().map(|s| s.0 as u64) }
    }),*] } }
    macro_rules! plain { ($($t:ty)*) => { vec![$( Alike { what: stringify!($t), boxed: |v| Box::new(v as $t).into(), insert: |g, v| g.insert(v as $t).map(|s| s as u64), get: |g| g.get::<$t>().map(|s| *s as u64) } ),*] } }
    macro_rules! wrapped { ($($w:ident $t:ty, $new:expr, $val:expr;)*) => { vec![$( Alike { what: stringify!($t), boxed: |v| { let f: fn(u64) -> $t = $new; Box::new(f(v)).into() }, insert: |g, v| { let f: fn(u64) -> $t = $new; let r: fn(&$t) -> u64 = $val; g.insert(f(v)).map(|x| r(&x)) }, get: |g| { let r: fn(&$t) -> u64 = $val; g.get::<$t>().map(r) } } ),*] } }
    fn a1(_: &'static u8) -> u64 { 1 } fn a2(_: &u8) -> u64 { 2 }
    let mut all: Vec<Alike> = local!(u64 u32 u64 u8);
    all.extend(plain!(u64 i64 usize isize u32 i32));
    all.extend(wrapped!(
        w fn(&'static u8) -> u64, |_| a1, |f| f(&0);
        w for<'a> fn(&'a u8) -> u64, |_| a2, |f| f(&0);
        w Box<u64>, Box::new, |b| **b;
        w Option<u64>, Some, |b| b.unwrap();
        w Arc<u64>, Arc::new, |b| **b;
        w Box<dyn std::any::Any + Send + Sync>, |v| Box::new(v), |b| *b.downcast_ref::<u64>().unwrap();
        w (u64,), |v| (v,), |b| b.0;
        w [u64; 1], |v| [v], |b| b[0];
    ));
    all
}
fn alike_case(rng: &mut Rng, cov: &mut Cov) -> CaseResult {
    let types = alike();
    let mut model: BTreeMap<usize, u64> = BTreeMap::new();
    let value = |i: usize, v: u64| if types[i].what.starts_with("fn(") { 1 } else if types[i].what.starts_with("for<") { 2 } else { v };
    let mut log = String::new();
    let few: Vec<usize> = (0..rng.range(2, 4)).map(|_| rng.below(types.len())).collect();
    let mut g = Global::default();
    for step in 0..rng.range(1, 10) {
        let i = *rng.pick(&few);
        let v = value(i, rng.below(100) as u64);
        if step == 0 && rng.chance(1, 2) { g = (types[i].boxed)(v); model.insert(i, v); log += &format!("boxed {} ({})", types[i].what, i); }
        else { let old = (types[i].insert)(&mut g, v); let want = model.insert(i, v); log += &format!(", insert {} ({})", types[i].what, i); ensure!(old == want, "insert", "{} returned {:?}, the value replaced is {:?}", log, old, want); }
        for (j, t) in types.iter().enumerate() { let got = (t.get)(&g); ensure!(got == model.get(&j).copied(), "get", "{}: {} ({}) is {:?}, want {:?}", log, t.what, j, got, model.get(&j)); }
        cov.count("steps with types alike");
    }
    if model.len() > 1 { cov.nontrivial(&log); }
    cov.sample(|| log.clone());
    Ok(())
}
pub fn global_case(rng: &mut Rng, cov: &mut Cov) -> CaseResult {
    let meter = Arc::new(Meter { made: AtomicUsize::new(0), dropped: AtomicUsize::new(0), double: AtomicUsize::new(0) });
    let mut model: BTreeMap<usize, u64> = BTreeMap::new();
    let mut next = rng.next() >> 8;
    let mut fresh = || { next += 1; next };
    macro_rules! tup { ($($n:expr),*) => {{ let t = ($({ let v = fresh(); model.insert($n, v); V::<$n>::new(v, &meter) },)*); t.into() }} }
    let ctor = rng.below(18);
    let mut g: Global = match ctor {
        0 => Global::default(),
        1 => ().into(),
        2 | 3 => { let n = rng.below(12); let v = fresh(); model.insert(n, v); each_n!(n, N, Box::new(V::<N>::new(v, &meter)).into()) }
        4 => tup!(0), 5 => tup!(0, 1), 6 => tup!(2, 1, 0), 7 => tup!(0, 1, 2, 3), 8 => tup!(0, 1, 2, 3, 4), 9 => tup!(5, 4, 3, 2, 1, 0),
        10 => tup!(0, 1, 2, 3, 4, 5, 6), 11 => tup!(0, 1, 2, 3, 4, 5, 6, 7), 12 => tup!(8, 1, 2, 3, 4, 5, 6, 7, 0), 13 => tup!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9),
        14 => tup!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10), 15 => tup!(11, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 0),
        16 => tup!(3, 3), _ => tup!(3, 4, 3, 4),
    };
    check_global(&g, &model)?;
    let mut log = format!("constructor {}", ctor);
    let pool = rng.range(1, 12);
    for _ in 0..rng.below(14) {
        let n = rng.below(pool);
        let v = fresh();
        let old = model.insert(n, v);
        let got = each_n!(n, N, g.insert(V::<N>::new(v, &meter)).map(|v| v.value()));
        ensure!(got == old, "insert", "insert of type {} returned {:?}, the value replaced is {:?} ({})", n, got, old, log);
        log += &format!(" insert {}", n);
        check_global(&g, &model)?;
        cov.count("inserts");
        if old.is_some() { cov.count("replacements"); }
    }
    if rng.chance(1, 3) {
        // odd types: zero sized, over-aligned, owning
        ensure!(g.insert(Zst).is_none() && g.insert(Zst) == Some(Zst) && g.get::<Zst>() == Some(&Zst), "get", "zero sized type");
        ensure!(g.insert(Aligned(1)).is_none() && g.insert(Aligned(2)) == Some(Aligned(1)) && g.get::<Aligned>() == Some(&Aligned(2)), "get", "aligned type");
        ensure!((g.get::<Aligned>().unwrap() as *const Aligned as usize) % 64 == 0, "get", "misaligned value");
        ensure!(g.insert(String::from("x")).is_none() && g.insert(String::from("y")) == Some("x".into()) && g.get::<String>().map(|s| &s[..]) == Some("y"), "get", "String");
        ensure!(g.insert::<&'static str>("s").is_none() && g.get::<&'static str>() == Some(&"s") && g.get::<String>().is_some(), "get", "&str");
        ensure!(g.insert::<Box<dyn Fn() -> u8 + Send + Sync>>(Box::new(|| 7)).is_none() && g.get::<Box<dyn Fn() -> u8 + Send + Sync>>().map(|f| f()) == Some(7), "get", "boxed function");
        check_global(&g, &model)?;
        cov.count("odd types");
    }
    let live = meter.made.load(AO::SeqCst) - meter.dropped.load(AO::SeqCst);
    ensure!(live == model.len(), "drops", "{} values alive, {} stored ({})", live, model.len(), log);
    if rng.chance(1, 16) && !LEFT_BEHIND.load(AO::Relaxed) {
        let shared = Arc::new(g);
        let readers = rng.range(2, 4);
        let r: Vec<CaseResult> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..readers).map(|_| { let (sh, md) = (shared.clone(), &model); s.spawn(move || { for _ in 0..5 { check_global(&sh, md)?; } Ok(()) }) }).collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| bad("panic", "reader thread panicked".into()))).collect()
        });
        for x in r { x?; }
        cov.count("concurrent reads");
        drop(shared);
    } else { drop(g); }
    ensure!(meter.double.load(AO::SeqCst) == 0, "drops", "a value was dropped twice ({})", log);
    ensure!(meter.made.load(AO::SeqCst) == meter.dropped.load(AO::SeqCst), "drops", "{} values made, {} dropped ({})", meter.made.load(AO::SeqCst), meter.dropped.load(AO::SeqCst), log);
    cov.max("max types stored", model.len() as u64);
    if model.len() >= 2 { cov.nontrivial(&(ctor, log.clone())); }
    cov.sample(|| log.clone());
    Ok(())
}

// ---- C15 -------------------------------------------------------------------------------------------------------------
type M = BTreeMap<Vec<u8>, Vec<u8>>;
fn owned(rng: &mut Rng, b: &[u8]) -> MaybeUtf8Owned {
    match (rng.below(3), std::str::from_utf8(b)) { (0, Ok(s)) => s.into(), (1, Ok(s)) => s.to_string().into(), _ => b.to_vec().into() }
}
fn value(rng: &mut Rng) -> Vec<u8> {
    match rng.below(8) {
        0 => format!("{}", rng.next() as i64 >> rng.below(64)).into_bytes(),
        1 => format!("{:?}", f64::from_bits(rng.next())).into_bytes(),
        2 => rng.pick(&["true", "false", " 1", "1 ", "+5", "-0", "", "0x10", "1e3", "nan", "256", "00012", "x"]).as_bytes().to_vec(),
        _ => utf8ish(rng),
    }
}
fn check_params(rng: &mut Rng, p: &Parameters, m: &M, keys: &[Vec<u8>]) -> CaseResult {
    ensure!(p.len() == m.len(), "len", "len {} want {}", p.len(), m.len());
    for k in keys {
        let want = m.get(k);
        let lossy = want.map(|v| String::from_utf8_lossy(v).into_owned());
        macro_rules! by { ($key:expr, $how:expr) => {{
            ensure!(p.get($key).map(|c| c.into_owned()) == lossy, "get", "get({}) by {}: {:?} want {:?}", show(k), $how, p.get($key), lossy);
            ensure!(p.get_raw($key).map(|v| v.as_bytes().to_vec()).as_ref() == want, "get_raw", "get_raw({}) by {}", show(k), $how);
            ensure!(p.contains_key($key) == want.is_some(), "contains_key", "contains_key({}) by {}", show(k), $how);
        }} }
        by!(&k[..], "[u8]"); by!(k, "Vec<u8>");
        let mo = owned(rng, k); by!(&mo, "MaybeUtf8");
        if let Ok(s) = std::str::from_utf8(k) { by!(s, "str"); by!(&s.to_string(), "String"); }
        macro_rules! typed { ($t:ty, $def:expr) => {{
            let def: $t = $def;
            let want: Result<$t, Option<()>> = match lossy { None => Err(None), Some(ref s) => s.parse::<$t>().map_err(|_| Some(())) };
            let got: Result<$t, Option<()>> = p.parse::<_, $t>(&k[..]).map_err(|e| e.map(|_| ()));
            ensure!(format!("{:?}", got) == format!("{:?}", want), "parse", "parse::<{}>({}) = {:?} want {:?}", stringify!($t), show(k), got, want);
            let w = want.clone().unwrap_or(def.clone());
            let g = p.parse_or(&k[..], def.clone());
            ensure!(format!("{:?}", g) == format!("{:?}", w), "parse_or", "parse_or::<{}>({}) = {:?} want {:?}", stringify!($t), show(k), g, w);
            let mut told = None;
            let g = p.parse_or_else(&k[..], |e: Option<_>| { told = Some(e.is_some()); def.clone() });
            let w_told = match want { Ok(_) => None, Err(e) => Some(e.is_some()) };
            ensure!(format!("{:?}", g) == format!("{:?}", w) && told == w_told, "parse_or_else", "parse_or_else::<{}>({}) = {:?} want {:?}, fallback told {:?} want {:?}", stringify!($t), show(k), g, w, told, w_told);
        }} }
        match rng.below(6) { 0 => typed!(i64, -7), 1 => typed!(u8, 9), 2 => typed!(f64, 0.5), 3 => typed!(bool, true), 4 => typed!(String, "def".to_string()), _ => typed!(char, 'z') }
    }
    let mut a: M = M::new();
    for (k, v) in p { a.insert(k.as_bytes().to_vec(), v.as_bytes().to_vec()); }
    ensure!(&a == m, "iter", "iteration gives {} entries {} want {} {}", a.len(), show_short(format!("{:?}", a).as_bytes()), m.len(), show_short(format!("{:?}", m).as_bytes()));
    Ok(())
}

pub fn params_case(rng: &mut Rng, cov: &mut Cov) -> CaseResult {
    let all: Vec<Vec<u8>> = (0..if big() { rng.range(50, 3000) } else { rng.range(1, 6) }).map(|i| { let mut k = utf8ish(rng); if big() && rng.chance(1, 2) { k.extend_from_slice(format!("{}", i).as_bytes()); } k }).collect();
    let keys = &all;
    let mut m = M::new();
    let mut p = Parameters::new();
    let mut log = String::new();
    for _ in 0..if big() { rng.range(20, 100) } else { rng.range(1, 14) } {
        let k = rng.pick(&keys).clone();
        let v = value(rng);
        let prev;
        match rng.below(14) {
            0..=2 => {
                let old = m.insert(k.clone(), v.clone());
                prev = match rng.below(3) { 0 => p.insert(k.clone(), v.clone()), 1 => { let (k, v) = (owned(rng, &k), owned(rng, &v)); p.insert(k, v) } _ => match (String::from_utf8(k.clone()), String::from_utf8(v.clone())) { (Ok(k), Ok(v)) => p.insert(&k[..], v), (Ok(k), _) => p.insert(k, v.clone()), _ => p.insert(k.clone(), v.clone()) } };
                ensure!(prev.map(|x| x.as_bytes().to_vec()) == old, "insert", "insert({}) returned the wrong previous value ({})", show(&k), log);
                log += " insert";
            }
            3 => {
                let old = m.remove(&k);
                prev = match std::str::from_utf8(&k) { Ok(s) if rng.chance(1, 2) => p.remove(s), _ => p.remove(&k) };
                ensure!(prev.map(|x| x.as_bytes().to_vec()) == old, "remove", "remove({}) returned the wrong value ({})", show(&k), log);
                log += " remove";
            }
            4 => { if let Some(x) = p.get_mut(&k) { x.push_bytes(&v); m.get_mut(&k).unwrap_or(&mut vec![]).extend_from_slice(&v); } else { ensure!(!m.contains_key(&k), "get_mut", "get_mut({}) found nothing", show(&k)); } log += " get_mut"; }
            5 => {
                match p.entry(k.clone()) {
                    Entry::Occupied(mut e) => { ensure!(m.get(&k).map(|x| &x[..]) == Some(e.get().as_bytes()), "entry", "entry({})", show(&k)); e.insert(v.clone().into()); }
                    Entry::Vacant(e) => { ensure!(!m.contains_key(&k), "entry", "entry({}) vacant", show(&k)); e.insert(v.clone().into()); }
                }
                m.insert(k, v); log += " entry";
            }
            6 => {
                let list: Vec<(Vec<u8>, Vec<u8>)> = (0..rng.below(if big() { 2000 } else { 5 })).map(|_| (rng.pick(&keys).clone(), value(rng))).collect();
                for (k, v) in &list { m.insert(k.clone(), v.clone()); }
                p.extend(list); log += " extend";
            }
            7 => {
                let list: Vec<(Vec<u8>, Vec<u8>)> = (0..rng.below(if big() { 4000 } else { 8 })).map(|_| (rng.pick(&keys).clone(), value(rng))).collect();
                m = list.iter().cloned().collect();
                p = if rng.chance(1, 2) { list.into_iter().collect() } else { let mut l2 = vec![]; for (k, v) in list { l2.push((owned(rng, &k), owned(rng, &v))) } l2.into_iter().collect() };
                log += " collect";
            }
            8 => { let h: HashMap<MaybeUtf8Owned, MaybeUtf8Owned> = p.into(); ensure!(h.len() == m.len(), "into map", "into HashMap has {} entries want {}", h.len(), m.len()); p = h.into(); log += " map round trip"; }
            9 => {
                let q = p.clone();
                ensure!(q == p && p == q, "eq", "clone differs");
                let mut q2 = q.clone();
                let other_v = [&v[..], b"!"].concat();
                let same = m.get(&k) == Some(&other_v);
                q2.insert(k.clone(), other_v);
                ensure!((q2 == p) == same, "eq", "equality of maps that {}", if same { "are equal" } else { "differ" });
                p = q; log += " clone";
            }
            // through the map inside
            10 => { let q: &mut HashMap<MaybeUtf8Owned, MaybeUtf8Owned> = if rng.chance(1, 2) { p.as_mut() } else { &mut p }; q.insert(k.clone().into(), v.clone().into()); m.insert(k, v); log += " as_mut"; }
            11 => { let q: &HashMap<MaybeUtf8Owned, MaybeUtf8Owned> = if rng.chance(1, 2) { p.as_ref() } else { &p }; let q: M = q.iter().map(|(k, v)| (k.as_bytes().to_vec(), v.as_bytes().to_vec())).collect(); ensure!(q == m, "as_ref", "the map inside has {} entries want {}", q.len(), m.len()); log += " as_ref"; }
            12 => { for (_, x) in &mut p { x.push_str("~"); } for x in m.values_mut() { x.push(b'~'); } log += " iter_mut"; }
            _ => { let items: Vec<(MaybeUtf8Owned, MaybeUtf8Owned)> = std::mem::replace(&mut p, Parameters::default()).into_iter().collect(); ensure!(items.len() == m.len(), "into_iter", "into_iter gives {} entries want {}", items.len(), m.len()); p = items.into_iter().collect(); log += " into_iter"; }
        }
        cov.max("max entries", m.len() as u64);
        let looked: Vec<Vec<u8>> = if big() { (0..20).map(|_| rng.pick(keys).clone()).collect() } else { keys.clone() };
        check_params(rng, &p, &m, &looked).map_err(|v| Violation { sig: v.sig, detail: format!("{}\nmap {:?}\nafter{}", v.detail, m.iter().take(50).map(|(k, v)| (show(k), show(v))).collect::<Vec<_>>(), log) })?;
        cov.count("operations");
    }
    if m.len() >= 2 || m.keys().any(|k| std::str::from_utf8(k).is_err()) { cov.nontrivial(&m); }
    if m.keys().chain(m.values()).any(|k| std::str::from_utf8(k).is_err()) { cov.count("maps with invalid UTF-8"); }
    cov.sample(|| log.clone());
    Ok(())
}

// ---- C16 -------------------------------------------------------------------------------------------------------------
/// Where `path` leads when it is joined to a directory, component by component; None when it leaves the directory.
pub fn stays_inside(path: &[u8]) -> bool {
    if path.first() == Some(&b'/') { return false; }
    let mut depth = 0i64;
    for c in path.split(|&c| c == b'/') { match c { b"" | b"." => {} b".." => { depth -= 1; if depth < 0 { return false; } } _ => depth += 1 } }
    true
}
pub fn path_case(rng: &mut Rng, cov: &mut Cov) -> CaseResult {
    let mut p: Vec<u8> = vec![];
    let n = if big() { rng.range(9, 3000) } else { rng.below(9) };
    let calm = big() && rng.chance(2, 3); // next to no parents in a long path
    if rng.chance(1, 4) { p.push(b'/'); }
    for i in 0..n {
        if i > 0 { for _ in 0..if rng.chance(1, 6) { rng.range(2, 3) } else { 1 } { p.push(b'/'); } }
        match rng.below(12) {
            0 | 1 if !calm || rng.chance(1, 1000) => p.extend_from_slice(b".."),
            2 => p.extend_from_slice(b"."),
            3 => p.extend_from_slice(*rng.pick(&[&b"..."[..], b"..a", b"a..", ".. ".as_bytes(), b" ..", b"..\\", b"\\..\\..", b"%2e%2e", b"..\0", b"~", b"-", b"C:", b"\xff..", "‥".as_bytes(), b"....", b".\0.", b"..;"])),
            4 => p.extend(utf8ish(rng).into_iter().filter(|&c| c != b'/')),
            5 => {}
            _ => p.extend_from_slice(*rng.pick(&[&b"a"[..], b"etc", b"index.html", b"passwd", b".hidden", b"x y"])),
        }
    }
    if rng.chance(1, 5) { p.push(b'/'); }
    if rng.chance(1, 40) { p.extend(std::iter::repeat(b'a').take(5000)); }
    let parents = p.split(|&c| c == b'/').filter(|c| c == b"..").count();
    let absolute = p.first() == Some(&b'/');
    let want_ok = !absolute && parents == 0;
    let os = OsStr::from_bytes(&p);
    let path = Path::new(os);
    let pb = PathBuf::from(os);
    let mut results = vec![("Path", check_path(path)), ("OsStr", check_path(os)), ("PathBuf", check_path(&pb))];
    let st = String::from_utf8(p.clone());
    if let Ok(ref s) = st { results.push(("str", check_path(&s[..]))); results.push(("String", check_path(s))); }
    for (how, r) in &results {
        match *r {
            Ok(()) => {
                ensure!(stays_inside(&p), "escape", "check_path accepts {} (given as {}), which leads out of the directory", show(&p), how);
                ensure!(want_ok, "accepts", "check_path accepts {} (given as {}), which {}", show(&p), how, if absolute { "is absolute" } else { "contains a parent component" });
                let joined = Path::new("/srv/files").join(path);
                ensure!(joined.starts_with("/srv/files"), "escape", "joined path {:?}", joined);
            }
            Err(c) => {
                ensure!(!want_ok, "rejects", "check_path rejects {} (given as {}) because of {:?}", show(&p), how, c);
                ensure!(match c { Component::RootDir => absolute, Component::ParentDir => parents > 0, _ => false }, "offender", "check_path names {:?} as the offending component of {}", c, show(&p));
            }
        }
    }
    cov.count(if want_ok { "accepted" } else if absolute { "absolute" } else { "with parent component" });
    if p.len() > 2 { cov.nontrivial(&p); }
    cov.sample(|| show(&p));
    Ok(())
}

// ---- C17 -------------------------------------------------------------------------------------------------------------
pub fn mime_types() -> BTreeMap<String, String> {
    let data = std::fs::read_to_string("/repo/build/apache/mime.types").expect("mime.types");
    let mut m = BTreeMap::new();
    for l in data.lines() {
        if l.trim_start().starts_with('#') { continue; }
        let mut w = l.split_whitespace();
        if let Some(t) = w.next() { for e in w { m.insert(e.to_string(), t.to_string()); } }
    }
    m
}
fn mime_one(ext: &str, want: Option<&String>) -> CaseResult {
    use rustful::mime::Mime;
    let got = ext_to_mime(ext);
    match (got, want) {
        (None, None) => Ok(()),
        (Some(m), None) => bad("unknown", format!("unknown extension {:?} gives {}", ext, m)),
        (None, Some(t)) => bad("missing", format!("extension {:?} gives nothing, registered as {}", ext, t)),
        (Some(m), Some(t)) => {
            ensure!(&m.to_string() == t, "type", "extension {:?} gives {}, registered as {}", ext, m, t);
            let (top, sub) = t.split_once('/').unwrap();
            ensure!(m.0.as_str() == top && m.1.as_str() == sub && m.2.is_empty(), "parts", "extension {:?} gives {:?}", ext, m);
            let parsed: Mime = t.parse().unwrap();
            ensure!(m == parsed, "parts", "extension {:?}: {:?} is not equal to the parsed {:?}", ext, m, parsed);
            Ok(())
        }
    }
}
pub fn mime_run(r: &mut Run) {
    let data = mime_types();
    let keys: Vec<&String> = data.keys().collect();
    let n = keys.len() as u64;
    // every registered extension, whatever the seed
    let next = std::sync::atomic::AtomicUsize::new(0);
    let all = r.only_case.is_some();
    r.cases("registered extensions", n, n, |_, cov| {
        let ks: Vec<&String> = if all { keys.clone() } else { let i = next.fetch_add(1, AO::SeqCst); vec![keys[i % keys.len()]] };
        for k in ks { mime_one(k, data.get(k))?; cov.nontrivial(k); cov.count(&format!("type {}", data[k].split('/').next().unwrap())); }
        Ok(())
    });
    r.cases("other strings", 200_000, 5_000_000, |rng, cov| {
        let mut s = match rng.below(5) { 0 => String::new(), 1 | 2 => keys[rng.below(keys.len())].clone(), _ => String::from_utf8_lossy(&utf8ish(rng)).into_owned() };
        for _ in 0..rng.below(3) {
            match rng.below(6) {
                0 => { s.pop(); }
                1 => s.push(random_char(rng)),
                2 => s = s.to_uppercase(),
                3 => s.insert(0, '.'),
                4 => s.push((b'a' + rng.below(26) as u8) as char),
                _ => s.push(' '),
            }
        }
        mime_one(&s, data.get(&s))?;
        cov.count(if data.contains_key(&s) { "registered" } else { "unregistered" });
        if !data.contains_key(&s) { cov.nontrivial(&s); }
        Ok(())
    });
}

pub fn run(r: &mut Run) {
    match &r.id.clone()[..] {
        "C13" => { r.cases("string programs", 300_000, 6_000_000, maybe_case); r.large("string programs", 150, 8_000, maybe_case); }
        "C14" => { r.cases("store programs", 150_000, 3_000_000, global_case); r.cases("types alike", 30_000, 1_000_000, alike_case); }
        "C15" => { r.cases("map programs", 80_000, 2_000_000, params_case); r.large("map programs", 100, 6_000, params_case); }
        "C16" => { r.cases("paths", 1_000_000, 20_000_000, path_case); r.large("paths", 3_000, 300_000, path_case); }
        "C17" => mime_run(r),
        _ => unreachable!(),
    }
}
