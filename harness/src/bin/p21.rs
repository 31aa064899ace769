//! Inconsistent key types: results may be wrong, references must stay inside the collection.
use equivalent::{Comparable, Equivalent};
use frozen_collections as fz;
use frozen_collections_core as fzc;
use fz::{Map, MapExtras, MapIteration, MapQuery, Scalar, Set};
use fzc::hashers::BridgeHasher;
use fzc::traits::{LargeCollection, Len, SmallCollection};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::HashSet;
use std::hash::{BuildHasher, Hash, Hasher};
use vh::ensure;
use vh::runner::*;

/// How one trait of the key type answers.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Mode {
    Honest,
    /// the same answer always
    Const(u64),
    /// a pure function unrelated to the key's identity
    Mixed(u64),
    /// different on every call
    Random(u64),
    /// honest, then the answer above from this call on
    After(u16, u64),
    /// dishonest until this call, then honest
    Until(u16, u64),
    /// not transitive / not symmetric / off by one now and then
    Near(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Script { eq: Mode, ord: Mode, hash: Mode, index: Mode, bh: Mode, text: Mode }
#[derive(Default)]
struct St { calls: [u64; 6], modes: Option<Script> }
thread_local! {
    static ST: RefCell<St> = RefCell::new(St::default());
}
fn mix(mut x: u64) -> u64 {
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    x ^ (x >> 31)
}
/// `None`: answer honestly.
fn answer(which: usize, id: u64) -> Option<u64> {
    ST.with(|s| {
        let s = &mut *s.borrow_mut();
        s.calls[which] += 1;
        let n = s.calls[which];
        let m = s.modes.as_ref()?;
        match [&m.eq, &m.ord, &m.hash, &m.index, &m.bh, &m.text][which] {
            Mode::Honest => None,
            Mode::Const(c) => Some(*c),
            Mode::Mixed(c) => Some(mix(id ^ c)),
            Mode::Random(c) => Some(mix(n ^ c)),
            Mode::After(k, c) => (n > u64::from(*k)).then(|| mix(n ^ c)),
            Mode::Until(k, c) => (n <= u64::from(*k)).then(|| mix(n ^ c)),
            Mode::Near(k) => (n % (u64::from(*k) + 2) == 0).then(|| mix(n)),
        }
    })
}
const MAGIC: u32 = 0xC0DE_5AFE;
#[derive(Clone, Copy, Debug)]
struct Adv { k: i64, tok: u32, magic: u32 }
#[derive(Clone, Copy, Debug, PartialEq)]
struct Val { tok: u32, magic: u32 }
impl Adv {
    fn new(k: i64, tok: u32) -> Self { Adv { k, tok, magic: MAGIC ^ tok } }
}
impl Val {
    fn new(tok: u32) -> Self { Val { tok, magic: MAGIC ^ tok.rotate_left(7) } }
    fn ok(&self) -> bool { self.magic == MAGIC ^ self.tok.rotate_left(7) }
}
fn eq(a: i64, b: i64) -> bool {
    match answer(0, (a as u64) ^ (b as u64).rotate_left(9)) { Some(x) => x & 1 == 0, None => a == b }
}
fn ord(a: i64, b: i64) -> Ordering {
    match answer(1, (a as u64) ^ (b as u64).rotate_left(9)) { Some(x) => [Ordering::Less, Ordering::Equal, Ordering::Greater][(x % 3) as usize], None => a.cmp(&b) }
}
const RANGE: u64 = 3000;
/// Indices stay in a small range where tables are allocated from them; queries use the whole range.
fn index(k: i64, wide: bool) -> usize {
    match answer(3, k as u64) {
        Some(x) if wide => if x % 4 == 0 { (x >> 8) as usize } else { (x >> 8) as usize % (RANGE as usize + 10) },
        Some(x) => (x % RANGE) as usize,
        None => (k.rem_euclid(RANGE as i64)) as usize,
    }
}
fn hash(k: i64) -> u64 {
    match answer(2, k as u64) { Some(x) => x, None => k as u64 }
}
impl PartialEq for Adv { fn eq(&self, o: &Self) -> bool { eq(self.k, o.k) } }
impl Eq for Adv {}
impl PartialOrd for Adv { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Adv { fn cmp(&self, o: &Self) -> Ordering { ord(self.k, o.k) } }
impl Hash for Adv { fn hash<H: Hasher>(&self, h: &mut H) { hash(self.k).hash(h) } }
impl Scalar for Adv { fn index(&self) -> usize { index(self.k, false) } }
impl Len for Adv { fn len(&self) -> usize { hash(self.k) as usize } }
/// A query type with its own answers.
#[derive(Clone, Copy, Debug)]
struct Q(i64);
impl PartialEq for Q { fn eq(&self, o: &Self) -> bool { eq(self.0, o.0) } }
impl Eq for Q {}
impl PartialOrd for Q { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Q { fn cmp(&self, o: &Self) -> Ordering { ord(self.0, o.0) } }
impl Hash for Q { fn hash<H: Hasher>(&self, h: &mut H) { hash(self.0).hash(h) } }
impl Scalar for Q { fn index(&self) -> usize { index(self.0, true) } }
impl Len for Q { fn len(&self) -> usize { hash(self.0) as usize } }
impl Equivalent<Adv> for Q { fn equivalent(&self, k: &Adv) -> bool { eq(self.0, k.k) } }
impl Comparable<Adv> for Q { fn compare(&self, k: &Adv) -> Ordering { ord(self.0, k.k) } }
impl Equivalent<i32> for Q { fn equivalent(&self, k: &i32) -> bool { eq(self.0, i64::from(*k)) } }
impl Comparable<i32> for Q { fn compare(&self, k: &i32) -> Ordering { ord(self.0, i64::from(*k)) } }
/// A text that need not be the same twice.
#[derive(Clone, Debug)]
struct Text { base: String, other: Vec<String> }
impl Text {
    fn now(&self) -> &str {
        match answer(5, self.base.len() as u64) { Some(x) => &self.other[x as usize % self.other.len()], None => &self.base }
    }
}
impl AsRef<str> for Text { fn as_ref(&self) -> &str { self.now() } }
impl Len for Text { fn len(&self) -> usize { match answer(2, 1) { Some(x) => (x % 40) as usize, None => self.now().len() } } }
impl PartialEq for Text { fn eq(&self, o: &Self) -> bool { eq(self.base.len() as i64, o.base.len() as i64) } }
impl Eq for Text {}
impl Hash for Text { fn hash<H: Hasher>(&self, h: &mut H) { h.write(self.now().as_bytes()); h.write_u8(0xff); } }
impl Equivalent<&'static str> for Text { fn equivalent(&self, k: &&'static str) -> bool { match answer(0, 3) { Some(x) => x & 1 == 0, None => self.now() == *k } } }
impl Comparable<&'static str> for Text { fn compare(&self, k: &&'static str) -> Ordering { match answer(1, 3) { Some(x) => [Ordering::Less, Ordering::Equal, Ordering::Greater][(x % 3) as usize], None => self.now().cmp(*k) } } }
impl Equivalent<Box<str>> for Text { fn equivalent(&self, k: &Box<str>) -> bool { match answer(0, 3) { Some(x) => x & 1 == 0, None => self.now() == &**k } } }
impl Comparable<Box<str>> for Text { fn compare(&self, k: &Box<str>) -> Ordering { match answer(1, 3) { Some(x) => [Ordering::Less, Ordering::Equal, Ordering::Greater][(x % 3) as usize], None => self.now().cmp(&**k) } } }
thread_local! {
    /// While set: the only memory a hasher may be handed.
    static AREA: RefCell<Vec<(usize, usize)>> = const { RefCell::new(vec![]) };
    static STRAY: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// A hash builder that need not give the same hash twice.
#[derive(Clone, Default, Debug)]
struct AdvBH;
struct AdvH(u64);
impl BuildHasher for AdvBH {
    type Hasher = AdvH;
    fn build_hasher(&self) -> AdvH { AdvH(17) }
}
impl Hasher for AdvH {
    fn write(&mut self, b: &[u8]) {
        AREA.with(|a| {
            let a = a.borrow();
            if !a.is_empty() && !b.is_empty() {
                let (s, e) = (b.as_ptr() as usize, b.as_ptr() as usize + b.len());
                let inside = a.iter().any(|(x, y)| *x <= s && e <= *y);
                // a copy of a part of a text is as good as the part
                let copy = || a.iter().any(|(x, y)| unsafe { std::slice::from_raw_parts(*x as *const u8, y - x) }.windows(b.len()).any(|w| w == b));
                if !inside && !copy() { STRAY.with(|x| x.set(true)); }
            }
        });
        for x in b { self.0 = mix(self.0 ^ u64::from(*x)); }
    }
    fn write_u8(&mut self, x: u8) { self.0 = mix(self.0 ^ u64::from(x)); }
    fn write_usize(&mut self, x: usize) { self.0 = mix(self.0 ^ x as u64); }
    fn finish(&self) -> u64 { answer(4, self.0).unwrap_or(self.0) }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { keys: Vec<i64>, keys2: Vec<i64>, queries: Vec<i64>, texts: Vec<String>, script: Script, late: bool, route: u8 }

fn ad<T: ?Sized>(x: &T) -> usize { std::ptr::from_ref(x).cast::<u8>() as usize }

trait Tok { fn tok(&self, n: usize) -> Option<u32>; }
impl Tok for Adv { fn tok(&self, n: usize) -> Option<u32> { (self.magic == MAGIC ^ self.tok && (self.tok as usize) < n).then_some(self.tok) } }
/// Keys without tokens: the pairing is checked by the caller's table.
impl Tok for i32 { fn tok(&self, n: usize) -> Option<u32> { ((*self as usize) < n.max(100_000)).then_some(*self as u32) } }
impl Tok for Box<str> { fn tok(&self, _: usize) -> Option<u32> { std::str::from_utf8(self.as_bytes()).ok().and_then(|s| s.rsplit('#').next()).and_then(|s| s.parse().ok()) } }
impl Tok for &'static str { fn tok(&self, _: usize) -> Option<u32> { std::str::from_utf8(self.as_bytes()).ok().and_then(|s| s.rsplit('#').next()).and_then(|s| s.parse().ok()) } }

/// Entries are among those supplied, each at most once and correctly paired; returns their addresses.
fn inventory<K: Tok, M: MapIteration<K, Val> + Len>(nm: &str, m: &M, n: usize) -> Result<(HashSet<usize>, HashSet<usize>), String> {
    let (mut ks, mut vs, mut toks) = (HashSet::new(), HashSet::new(), HashSet::new());
    for (k, v) in MapIteration::iter(m) {
        let Some(t) = k.tok(n) else { return Err(format!("{nm}: iteration yields a key that was never supplied")) };
        ensure!(v.ok(), "{nm}: iteration yields a value that was never supplied: {v:?}");
        ensure!(v.tok == t, "{nm}: key {t} is paired with the value of {}", v.tok);
        ensure!(toks.insert(t), "{nm}: entry {t} appears twice");
        ks.insert(ad(k));
        vs.insert(ad(v));
    }
    ensure!(Len::len(m) == vs.len() || std::mem::size_of::<K>() == 0, "{nm}: len {} but {} entries", Len::len(m), vs.len());
    ensure!(vs.len() <= n, "{nm}: {} entries from {n} supplied", vs.len());
    Ok((ks, vs))
}
fn quiet(f: impl FnOnce() -> Res) -> Res {
    match guarded(f) {
        Ok(r) => r,
        Err(p) if p.contains("unsafe precondition") || p.contains("out of range for slice") && p.contains("unchecked") => Err(p),
        Err(_) => Ok(()),
    }
}
fn poke<K: Tok, QT: ?Sized + Eq, M: Map<K, Val, QT> + Clone>(nm: &str, m: &mut M, qs: &[&QT], n: usize) -> Res {
    let (ks, vs) = inventory(nm, m, n)?;
    for q in qs {
        quiet(|| {
            if let Some(v) = MapQuery::get(m, q) { ensure!(vs.contains(&ad(v)), "{nm}: get returns a reference outside the entries"); ensure!(v.ok(), "{nm}: get returns garbage"); }
            if let Some((k, v)) = MapExtras::get_key_value(m, q) {
                ensure!(ks.contains(&ad(k)) && vs.contains(&ad(v)), "{nm}: get_key_value returns references outside the entries");
                ensure!(k.tok(n) == Some(v.tok), "{nm}: get_key_value pairs a key with another entry's value");
            }
            let _ = MapQuery::contains_key(m, q);
            if let Some(v) = MapQuery::get_mut(m, q) { ensure!(vs.contains(&ad(v)), "{nm}: get_mut returns a reference outside the entries"); *v = Val { ..*v }; }
            Ok(())
        })?;
    }
    for w in qs.windows(4) {
        quiet(|| {
            let r = MapExtras::get_disjoint_mut(m, [w[0], w[1], w[2], w[3]]);
            let a: Vec<usize> = r.iter().flatten().map(|v| ad(&**v)).collect();
            ensure!(a.iter().all(|x| vs.contains(x)), "{nm}: get_disjoint_mut returns a reference outside the entries");
            ensure!(a.iter().collect::<HashSet<_>>().len() == a.len(), "{nm}: get_disjoint_mut returns two references to one value");
            Ok(())
        })?;
    }
    let (ks2, vs2) = inventory(nm, m, n)?;
    ensure!(ks == ks2 && vs == vs2, "{nm}: lookups moved entries");
    Ok(())
}
fn rest<K: Tok, M: MapIteration<K, Val> + Clone + Len + PartialEq>(nm: &str, m: M, n: usize) -> Res {
    let c = m.clone();
    inventory(&format!("clone of {nm}"), &c, n)?;
    quiet(|| { let _ = m == c; Ok(()) })?;
    let have = MapIteration::iter(&m).count();
    let mut seen = HashSet::new();
    for (k, v) in m { ensure!(v.ok() && k.tok(n) == Some(v.tok) && seen.insert(v.tok), "{nm}: into_iter yields a wrong entry"); }
    ensure!(seen.len() == have, "{nm}: into_iter yields {} of {have}", seen.len());
    Ok(())
}
fn honest<T>(f: impl FnOnce() -> T) -> T {
    let old = ST.with(|s| s.borrow_mut().modes.take());
    let r = f();
    ST.with(|s| s.borrow_mut().modes = old);
    r
}
/// Builds (dishonestly unless `late`), then queries.
fn map_case<M: Map<Adv, Val, Adv> + Map<Adv, Val, Q> + Clone + PartialEq>(nm: &str, c: &Case, mk: impl FnOnce(Vec<(Adv, Val)>) -> Option<M>) -> Res {
    let n = c.keys.len();
    let e: Vec<(Adv, Val)> = c.keys.iter().enumerate().map(|(i, k)| (Adv::new(*k, i as u32), Val::new(i as u32))).collect();
    let m = if c.late { honest(|| guarded(|| mk(e))) } else { guarded(|| mk(e)) };
    let Ok(Some(mut m)) = m else { return Ok(()) };
    let a: Vec<Adv> = c.queries.iter().map(|k| Adv::new(*k, 0)).collect();
    let q: Vec<Q> = c.queries.iter().map(|k| Q(*k)).collect();
    poke::<Adv, Adv, M>(nm, &mut m, &a.iter().collect::<Vec<_>>(), n)?;
    poke::<Adv, Q, M>(nm, &mut m, &q.iter().collect::<Vec<_>>(), n)?;
    rest(nm, m, n)
}
fn set_case<S>(nm: &str, c: &Case, mk: impl Fn(Vec<Adv>) -> S) -> Res
where
    S: Set<Adv, Adv> + fz::SetQuery<Q> + fz::SetExtras<Adv, Q> + Clone + PartialEq,
    for<'a> &'a S: std::ops::BitOr<&'a S, Output = hashbrown::HashSet<Adv>> + std::ops::BitAnd<&'a S, Output = hashbrown::HashSet<Adv>> + std::ops::Sub<&'a S, Output = hashbrown::HashSet<Adv>> + std::ops::BitXor<&'a S, Output = hashbrown::HashSet<Adv>>,
{
    let n = c.keys.len() + c.keys2.len();
    let k1: Vec<Adv> = c.keys.iter().enumerate().map(|(i, k)| Adv::new(*k, i as u32)).collect();
    let k2: Vec<Adv> = c.keys2.iter().enumerate().map(|(i, k)| Adv::new(*k, (c.keys.len() + i) as u32)).collect();
    let s = if c.late { honest(|| guarded(|| (mk(k1), mk(k2)))) } else { guarded(|| (mk(k1), mk(k2))) };
    let Ok((a, b)) = s else { return Ok(()) };
    let inv = |s: &S| -> Result<HashSet<usize>, String> {
        let (mut ads, mut toks) = (HashSet::new(), HashSet::new());
        for k in fz::SetIteration::iter(s) {
            let Some(t) = k.tok(n) else { return Err(format!("{nm}: iteration yields a value that was never supplied")) };
            ensure!(toks.insert(t), "{nm}: value {t} appears twice");
            ads.insert(ad(k));
        }
        ensure!(Len::len(s) == ads.len(), "{nm}: len");
        Ok(ads)
    };
    let (x, y) = (inv(&a)?, inv(&b)?);
    for k in &c.queries {
        quiet(|| {
            let (p, q) = (Adv::new(*k, 0), Q(*k));
            for r in [fz::SetExtras::<Adv, Adv>::get(&a, &p), fz::SetExtras::<Adv, Q>::get(&a, &q)].into_iter().flatten() { ensure!(x.contains(&ad(r)), "{nm}: get returns a reference outside the set"); }
            let _ = (fz::SetQuery::<Adv>::contains(&a, &p), fz::SetQuery::<Q>::contains(&a, &q));
            Ok(())
        })?;
    }
    macro_rules! lazy { ($f:ident) => { quiet(|| { for v in fz::SetOps::<Adv>::$f(&a, &b) { ensure!(x.contains(&ad(v)) || y.contains(&ad(v)), "{nm}: {} yields a reference outside both sets", stringify!($f)); } let _ = fz::SetOps::<Adv>::$f(&a, &b).count(); Ok(()) })?; } }
    lazy!(union);
    lazy!(intersection);
    lazy!(difference);
    lazy!(symmetric_difference);
    quiet(|| { let _ = (fz::SetOps::<Adv>::is_disjoint(&a, &b), fz::SetOps::<Adv>::is_subset(&a, &b), fz::SetOps::<Adv>::is_superset(&a, &b), a == b); Ok(()) })?;
    for op in 0..4 {
        quiet(|| { let r = match op { 0 => &a | &b, 1 => &a & &b, 2 => &a - &b, _ => &a ^ &b }; for k in r { ensure!(k.tok(n).is_some(), "{nm}: operator {op} fabricates a value"); } Ok(()) })?;
    }
    quiet(|| { let mut t = HashSet::new(); for k in a { ensure!(k.tok(n).is_some_and(|k| t.insert(k)), "{nm}: into_iter yields a wrong value"); } Ok(()) })
}
fn run(c: &Case, o: &mut Obs) -> Res {
    let set = || ST.with(|s| *s.borrow_mut() = St { calls: [0; 6], modes: Some(c.script.clone()) });
    o.nontrivial_if(c.keys.len() >= 2 && !c.queries.is_empty());
    o.label_if(c.late, "built honestly");
    for (n, m) in [("eq", &c.script.eq), ("ord", &c.script.ord), ("hash", &c.script.hash), ("index", &c.script.index), ("hash builder", &c.script.bh), ("text", &c.script.text)] {
        o.label_if(*m != Mode::Honest, &format!("dishonest {n}"));
    }
    let r = (|| {
        macro_rules! go { ($nm:expr, $f:expr) => { set(); map_case($nm, c, $f)?; } }
        go!("FzHashMap", |e| Some(if c.route % 2 == 0 { fz::FzHashMap::<_, _, AdvBH>::with_hasher(e, AdvBH) } else { e.into_iter().collect() }));
        go!("FzOrderedMap", |e| Some(if c.route % 2 == 0 { fz::FzOrderedMap::new(e) } else { e.into_iter().collect() }));
        go!("FzScalarMap", |e| Some(if c.route % 2 == 0 { fz::FzScalarMap::new(e) } else { e.into_iter().collect() }));
        go!("maps::HashMap small", |e| fzc::maps::HashMap::<_, _, SmallCollection, _>::with_hasher(e, BridgeHasher::new(AdvBH)).ok());
        go!("maps::HashMap large", |e| fzc::maps::HashMap::<_, _, LargeCollection, _>::with_hasher(e, BridgeHasher::new(AdvBH)).ok());
        go!("maps::HashMap by length", |e| fzc::maps::HashMap::<_, _, LargeCollection, _>::with_hasher(e, fzc::hashers::LengthHasher::default()).ok());
        go!("maps::HashMap by index", |e| fzc::maps::HashMap::<_, _, LargeCollection, _>::with_hasher(e, fzc::hashers::ScalarHasher::default()).ok());
        go!("ScanMap", |e| Some(fzc::maps::ScanMap::new(e)));
        go!("EytzingerSearchMap", |e| Some(fzc::maps::EytzingerSearchMap::new(e)));
        go!("DenseScalarLookupMap", |e| fzc::maps::DenseScalarLookupMap::new(e).ok());
        go!("SparseScalarLookupMap", |e| Some(fzc::maps::SparseScalarLookupMap::new(e)));
        macro_rules! gs { ($nm:expr, $f:expr) => { set(); set_case($nm, c, $f)?; } }
        gs!("FzHashSet", |e| if c.route % 2 == 0 { fz::FzHashSet::<_, AdvBH>::with_hasher(e, AdvBH) } else { e.into_iter().collect() });
        gs!("FzOrderedSet", |e| if c.route % 2 == 0 { fz::FzOrderedSet::new(e) } else { e.into_iter().collect() });
        gs!("FzScalarSet", |e| if c.route % 2 == 0 { fz::FzScalarSet::new(e) } else { e.into_iter().collect() });
        set();
        strings(c)?;
        set();
        ranged(c)?;
        set();
        inline(c)
    })();
    ST.with(|s| s.borrow_mut().modes = None);
    r
}
fn strings(c: &Case) -> Res {
    // the number after '#' ties the key to its value
    let e: Vec<(Box<str>, Val)> = c.keys.iter().enumerate().map(|(i, k)| { let t = c.texts.get(*k as usize % c.texts.len().max(1)).map_or("", |s| s.as_str()); (format!("{}{t}#{i}", "p".repeat((k.rem_euclid(5)) as usize)).into(), Val::new(i as u32)) }).collect();
    let mut other: Vec<String> = e.iter().map(|x| x.0.to_string()).collect();
    other.extend(c.texts.iter().cloned());
    other.push(String::new());
    let qs: Vec<Text> = c.queries.iter().map(|q| Text { base: other[q.rem_euclid(other.len() as i64) as usize].clone(), other: other.clone() }).collect();
    let q: Vec<&Text> = qs.iter().collect();
    let n = e.len();
    let bs: Vec<Box<str>> = qs.iter().map(|t| t.base.clone().into()).collect();
    let b: Vec<&Box<str>> = bs.iter().collect();
    let mk = |late: bool| { let e = e.clone(); if late { honest(|| guarded(|| fz::FzStringMap::<Box<str>, Val, AdvBH>::with_hasher(e, AdvBH))) } else { guarded(|| fz::FzStringMap::<Box<str>, Val, AdvBH>::with_hasher(e, AdvBH)) } };
    if let Ok(mut m) = mk(c.late) {
        poke::<Box<str>, Text, _>("FzStringMap", &mut m, &q, n)?;
        poke::<Box<str>, Box<str>, _>("FzStringMap", &mut m, &b, n)?;
        rest("FzStringMap", m, n)?;
    }
    // the source strings may change while the map is built
    let src: Vec<(Text, Val)> = (0..n).map(|i| (Text { base: e[i].0.to_string(), other: vec![e[i].0.to_string()] }, Val::new(i as u32))).collect();
    if let Ok(mut m) = guarded(|| fz::FzStringMap::<Box<str>, Val, AdvBH>::with_hasher(src, AdvBH)) {
        poke::<Box<str>, Text, _>("FzStringMap from texts", &mut m, &q, n)?;
    }
    Ok(())
}
/// The string hashers and tables built on them, asked about texts that change between two looks.
fn ranged(c: &Case) -> Res {
    use fzc::hashers::{InlineLeftRangeHasher, InlineRightRangeHasher, LeftRangeHasher, RightRangeHasher};
    use fzc::traits::Hasher as _;
    let mut other: Vec<String> = vec![String::new(), "a".into(), "bc".into(), "defg".into(), "longer than any of the others".into()];
    other.extend(c.texts.iter().cloned());
    let qs: Vec<Text> = c.queries.iter().map(|q| Text { base: other[q.rem_euclid(other.len() as i64) as usize].clone(), other: other.clone() }).collect();
    let area: Vec<(usize, usize)> = qs.iter().flat_map(|t| t.other.iter().chain([&t.base])).map(|s| (s.as_ptr() as usize, s.as_ptr() as usize + s.len())).collect();
    let (a, b) = (usize::from(c.route) % 5, usize::from(c.route) % 5 + usize::from(c.route / 5) % 9);
    STRAY.with(|s| s.set(false));
    AREA.with(|x| *x.borrow_mut() = area);
    let r = (|| {
        macro_rules! h { ($h:expr) => {{ let h = $h; for q in &qs { for _ in 0..4 { quiet(|| { let _ = h.hash_one(q); Ok(()) })?; ensure!(!STRAY.with(|s| s.get()), "{} hashes memory outside the text", stringify!($h)); } } }} }
        h!(LeftRangeHasher::new(AdvBH, a..b));
        h!(RightRangeHasher::new(AdvBH, a..b));
        h!(InlineLeftRangeHasher::<0, 1, AdvBH>::new(AdvBH));
        h!(InlineLeftRangeHasher::<1, 4, AdvBH>::new(AdvBH));
        h!(InlineLeftRangeHasher::<3, 9, AdvBH>::new(AdvBH));
        h!(InlineRightRangeHasher::<0, 1, AdvBH>::new(AdvBH));
        h!(InlineRightRangeHasher::<1, 4, AdvBH>::new(AdvBH));
        h!(InlineRightRangeHasher::<3, 9, AdvBH>::new(AdvBH));
        h!(BridgeHasher::new(AdvBH));
        // slices
        let bytes: Vec<&[u8]> = qs.iter().map(|t| t.base.as_bytes()).collect();
        for s in &bytes {
            quiet(|| { let _ = (fzc::traits::Hasher::<[u8]>::hash_one(&LeftRangeHasher::new(AdvBH, a..b), s), fzc::traits::Hasher::<[u8]>::hash_one(&RightRangeHasher::new(AdvBH, a..b), s), fzc::traits::Hasher::<[u8]>::hash_one(&InlineLeftRangeHasher::<1, 4, AdvBH>::new(AdvBH), s), fzc::traits::Hasher::<[u8]>::hash_one(&InlineRightRangeHasher::<1, 4, AdvBH>::new(AdvBH), s)); Ok(()) })?;
            ensure!(!STRAY.with(|s| s.get()), "a range hasher hashes memory outside the slice");
        }
        Ok(())
    })();
    AREA.with(|x| x.borrow_mut().clear());
    r?;
    // tables keyed by strings
    let e: Vec<(Box<str>, Val)> = c.keys.iter().enumerate().map(|(i, k)| (format!("{}{}#{i}", "p".repeat(k.rem_euclid(5) as usize), k % 7).into(), Val::new(i as u32))).collect();
    let mut all = other;
    all.extend(e.iter().map(|x| x.0.to_string()));
    let qs: Vec<Text> = c.queries.iter().map(|q| Text { base: all[q.rem_euclid(all.len() as i64) as usize].clone(), other: all.clone() }).collect();
    let q: Vec<&Text> = qs.iter().collect();
    macro_rules! t { ($nm:literal, $h:expr) => {{
        let e = e.clone();
        let mk = || fzc::maps::HashMap::<Box<str>, Val, LargeCollection, _>::with_hasher(e, $h);
        let m = if c.late { honest(|| guarded(mk)) } else { guarded(mk) };
        if let Ok(Ok(mut m)) = m { poke::<Box<str>, Text, _>($nm, &mut m, &q, c.keys.len())?; rest($nm, m, c.keys.len())?; }
    }} }
    match c.route % 6 {
        0 => t!("maps::HashMap by left range", LeftRangeHasher::new(AdvBH, a..b)),
        1 => t!("maps::HashMap by right range", RightRangeHasher::new(AdvBH, a..b)),
        2 => t!("maps::HashMap by inline left range", InlineLeftRangeHasher::<1, 4, AdvBH>::new(AdvBH)),
        3 => t!("maps::HashMap by inline right range", InlineRightRangeHasher::<1, 4, AdvBH>::new(AdvBH)),
        4 => t!("maps::HashMap by length of text", fzc::hashers::LengthHasher::default()),
        _ => t!("maps::HashMap of strings", BridgeHasher::new(AdvBH)),
    }
    Ok(())
}
fn inline(c: &Case) -> Res {
    let n = 8;
    let k = |i: usize| Adv::new(c.keys.get(i).copied().unwrap_or(i as i64), i as u32);
    let v = |i: u32| Val::new(i);
    let a: Vec<Adv> = c.queries.iter().map(|k| Adv::new(*k, 0)).collect();
    let q: Vec<Q> = c.queries.iter().map(|k| Q(*k)).collect();
    let (a, q): (Vec<&Adv>, Vec<&Q>) = (a.iter().collect(), q.iter().collect());
    macro_rules! exprs { ($nm:literal, $mac:ident) => {{
        macro_rules! mk { () => { fz::$mac!({ k(0): v(0), k(1): v(1), k(2): v(2), k(3): v(3), k(4): v(4), k(5): v(5), k(6): v(6), k(7): v(7) }) } }
        let m = if c.late { honest(|| guarded(|| mk!())) } else { guarded(|| mk!()) };
        if let Ok(mut m) = m { poke::<Adv, Adv, _>($nm, &mut m, &a, n)?; poke::<Adv, Q, _>($nm, &mut m, &q, n)?; rest($nm, m, n)?; }
    }} }
    match c.route % 8 {
        0 => exprs!("fz_hash_map! of expressions", fz_hash_map),
        1 => exprs!("fz_ordered_map! of expressions", fz_ordered_map),
        2 => exprs!("fz_scalar_map! of expressions", fz_scalar_map),
        3 => { let mut m = fz::fz_scalar_map!({ 5: v(5), 6: v(6), 7: v(7), 8: v(8), 9: v(9) }); poke::<i32, Q, _>("dense inline map", &mut m, &q, 10)?; rest("dense inline map", m, 10)?; }
        4 => { let mut m = fz::fz_scalar_map!({ 5: v(5), 16: v(16), 17: v(17), 28: v(28), 39: v(39), 60: v(60) }); poke::<i32, Q, _>("sparse inline map", &mut m, &q, 100)?; rest("sparse inline map", m, 100)?; }
        5 => { let mut m = fz::fz_hash_map!({ 5: v(5), 1006: v(1006), 70007: v(70007), 8: v(8), 90: v(90), 91: v(91), 92: v(92) }); poke::<i32, Q, _>("inline hash map", &mut m, &q, 100_000)?; rest("inline hash map", m, 100_000)?; }
        6 => { let mut m = fz::fz_ordered_map!({ 5: v(5), 6: v(6), 7: v(7), 8: v(8), 9: v(9), 10: v(10), 12: v(12), 44: v(44) }); poke::<i32, Q, _>("inline ordered map", &mut m, &q, 100)?; rest("inline ordered map", m, 100)?; }
        _ => {
            let mut other: Vec<String> = ["alpha#1", "bravo!#2", "c#3", "delta-delta#4", "", "echo#5é", "alpha#1zzzzzzzzzz"].iter().map(|s| (*s).to_string()).collect();
            other.extend(c.texts.iter().cloned());
            let qs: Vec<Text> = c.queries.iter().map(|x| Text { base: other[x.rem_euclid(other.len() as i64) as usize].clone(), other: other.clone() }).collect();
            let q: Vec<&Text> = qs.iter().collect();
            let mut m = fz::fz_string_map!({ "alpha#1": v(1), "bravo!#2": v(2), "c#3": v(3), "delta-delta#4": v(4), "ec#5": v(5), "foxtrot#6": v(6) });
            poke::<&'static str, Text, _>("inline string map", &mut m, &q, 100)?;
            rest("inline string map", m, 100)?;
            let mut m = fz::fz_string_map!({ "aaaa1xx#1": v(1), "aaaa2xx#2": v(2), "aaaa3xx#3": v(3), "aaaa4xx#4": v(4), "aaaa5xx#5": v(5) });
            poke::<&'static str, Text, _>("inline string map", &mut m, &q, 100)?;
        }
    }
    Ok(())
}
fn mode() -> impl Strategy<Value = Mode> + Clone {
    prop_oneof![4 => Just(Mode::Honest), 1 => prop_oneof![0u64..4, any::<u64>()].prop_map(Mode::Const), 2 => any::<u64>().prop_map(Mode::Mixed), 2 => any::<u64>().prop_map(Mode::Random), 2 => (0u16..120, any::<u64>()).prop_map(|(n, c)| Mode::After(n, c)), 2 => (0u16..120, any::<u64>()).prop_map(|(n, c)| Mode::Until(n, c)), 2 => (0u8..20).prop_map(Mode::Near)]
}
fn keys(max: usize) -> impl Strategy<Value = Vec<i64>> + Clone {
    prop_oneof![2 => (0i64..50, 0..max).prop_map(|(a, n)| (a..a + n as i64).collect::<Vec<_>>()), 3 => proptest::collection::vec(0i64..40, 0..max), 2 => proptest::collection::vec(0i64..RANGE as i64, 0..max), 1 => proptest::collection::vec(any::<i64>(), 0..max)]
}
fn case() -> impl Strategy<Value = Case> {
    let script = (mode(), mode(), mode(), mode(), mode(), mode()).prop_map(|(eq, ord, hash, index, bh, text)| Script { eq, ord, hash, index, bh, text });
    (keys(40), keys(20), proptest::collection::vec(prop_oneof![3 => 0i64..60, 1 => any::<i64>()], 1..16), proptest::collection::vec(vh::keys::text(12), 1..5), script, proptest::bool::weighted(0.35), any::<u8>()).prop_map(|(keys, keys2, queries, texts, script, late, route)| Case { keys, keys2, queries, texts, script, late, route })
}
fn main() {
    vh::runner::main("P21", vec![
        sub("adversary", 120_000, 1_500_000, case, run, "key types whose equality, order, hash, length, scalar index, string view or hash builder lies (constant, unrelated, random per call, honest first or last, occasionally wrong), in every runtime and macro-built collection: every entry is one supplied, once, correctly paired; every reference returned by lookups, disjoint access, set operations and iteration has the address of an entry; unchecked operations run with their preconditions checked; non-trivial: at least 2 keys and a query."),
    ]);
}
