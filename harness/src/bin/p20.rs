//! Ownership: every key and value is dropped exactly once.
use frozen_collections as fz;
use frozen_collections_core as fzc;
use fz::{MapIteration, Scalar};
use fzc::hashers::BridgeHasher;
use fzc::traits::{LargeCollection, Len, SmallCollection};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
use vh::ensure;
use vh::keys::*;
use vh::runner::*;

// ---------------------------------------------------------------- allocations of this thread
struct Counting;
thread_local! {
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
}
// SAFETY: forwards to the system allocator
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = BLOCKS.try_with(|b| b.set(b.get() + 1));
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = BLOCKS.try_with(|b| b.set(b.get() - 1));
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        unsafe { System.realloc(p, l, n) }
    }
}
#[global_allocator]
static A: Counting = Counting;

// ---------------------------------------------------------------- instrumented objects
#[derive(Default)]
struct Reg {
    /// 1 live, 2 dropped
    state: Vec<u8>,
    bad: Vec<String>,
    /// calls of user code left before one panics
    fuse: Option<u64>,
    calls: u64,
}
thread_local! {
    static REG: RefCell<Reg> = RefCell::new(Reg::default());
}
fn reg<T>(f: impl FnOnce(&mut Reg) -> T) -> T {
    REG.with(|r| f(&mut r.borrow_mut()))
}
fn user_code(what: &str) {
    let blow = reg(|r| {
        r.calls += 1;
        match &mut r.fuse {
            Some(0) => { r.fuse = None; true }
            Some(n) => { *n -= 1; false }
            None => false,
        }
    });
    if blow {
        panic!("injected panic in {what}");
    }
}
const MAGIC: u64 = 0x7AC3_9D51_0000_F00D;
/// A key or value whose life is tracked.
#[derive(Debug)]
struct Tk { key: i64, tok: usize, magic: u64 }
impl Tk {
    fn new(key: i64) -> Self {
        let tok = reg(|r| { r.state.push(1); r.state.len() - 1 });
        Tk { key, tok, magic: MAGIC ^ tok as u64 }
    }
    fn alive(&self, what: &str) {
        let ok = self.magic == MAGIC ^ self.tok as u64;
        reg(|r| {
            if !ok || r.state.get(self.tok) != Some(&1) {
                if r.bad.len() < 8 { r.bad.push(format!("{what} sees an object that is {} (token {})", if !ok { "garbage" } else { "already dropped" }, self.tok)); }
            }
        });
    }
}
impl Drop for Tk {
    fn drop(&mut self) {
        let ok = self.magic == MAGIC ^ self.tok as u64;
        reg(|r| match r.state.get_mut(self.tok) {
            Some(s) if ok && *s == 1 => *s = 2,
            Some(s) if ok && *s == 2 => { if r.bad.len() < 8 { r.bad.push(format!("object {} (key {}) dropped twice", self.tok, self.key)); } }
            _ => { if r.bad.len() < 8 { r.bad.push("something never created is dropped".into()); } }
        });
    }
}
impl Clone for Tk {
    fn clone(&self) -> Self { self.alive("clone"); user_code("clone"); Tk::new(self.key) }
}
impl PartialEq for Tk {
    fn eq(&self, o: &Self) -> bool { self.alive("=="); o.alive("=="); user_code("=="); self.key == o.key }
}
impl Eq for Tk {}
impl PartialOrd for Tk {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) }
}
impl Ord for Tk {
    fn cmp(&self, o: &Self) -> Ordering { self.alive("cmp"); o.alive("cmp"); user_code("cmp"); self.key.cmp(&o.key) }
}
impl Hash for Tk {
    fn hash<H: Hasher>(&self, h: &mut H) { self.alive("hash"); user_code("hash"); self.key.hash(h) }
}
impl Len for Tk {
    fn len(&self) -> usize { user_code("len"); self.key.unsigned_abs() as usize % 37 }
}
impl Serialize for Tk {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { self.alive("serialize"); self.key.serialize(s) }
}
impl<'de> Deserialize<'de> for Tk {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { i64::deserialize(d).map(Tk::new) }
}
/// A scalar key cannot own anything, so only values are tracked there; user code in it can still panic.
#[derive(Clone, Copy, Debug)]
struct Sk(i64);
impl PartialEq for Sk { fn eq(&self, o: &Self) -> bool { user_code("=="); self.0 == o.0 } }
impl Eq for Sk {}
impl PartialOrd for Sk { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Sk { fn cmp(&self, o: &Self) -> Ordering { user_code("cmp"); self.0.cmp(&o.0) } }
impl Scalar for Sk { fn index(&self) -> usize { user_code("index"); Scalar::index(&self.0) } }
impl Hash for Sk { fn hash<H: Hasher>(&self, h: &mut H) { user_code("hash"); self.0.hash(h) } }

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Act { kind: u8, at: u16, how: u8 }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { keys: IntKeys, acts: Vec<Act>, h: HSpec, route: u8, fuse: Option<u32> }

fn consume<X>(mut it: impl Iterator<Item = X>, at: usize, how: u8) {
    for _ in 0..at {
        if it.next().is_none() { break; }
    }
    match how % 8 {
        0 => drop(it),
        1 => drop(it.count()),
        2 => drop(it.last()),
        3 => drop(it.nth(at)),
        4 => drop(it.collect::<Vec<_>>()),
        5 => drop(it.fold(vec![], |mut a, x| { user_code("fold"); a.push(x); a })),
        6 => { let v: Vec<X> = it.by_ref().take(2).collect(); drop(it); drop(v); }
        _ => { let h = it.size_hint(); let x = it.next(); drop(it); drop((h, x)); }
    }
}
/// One history over a map.
fn act_map<K, M>(m: M, acts: &[Act], lookup: &dyn Fn(&mut M, u16)) where M: MapIteration<K, Tk> + Clone + PartialEq + std::fmt::Debug {
    let mut all = vec![m];
    for a in acts {
        let i = a.how as usize % all.len();
        let at = a.at as usize % 40;
        match a.kind % 11 {
            0 => { if all.len() < 4 { let c = all[i].clone(); all.push(c); } }
            1 => { if all.len() > 1 { drop(all.swap_remove(i)); } }
            2 => { let c = all[i].clone(); consume(c.into_iter(), at, a.how / 5); }
            3 => { let c = all[i].clone(); consume(MapIteration::into_keys(c), at, a.how / 5); }
            4 => { let c = all[i].clone(); consume(MapIteration::into_values(c), at, a.how / 5); }
            5 => { for v in MapIteration::values_mut(&mut all[i]).take(at) { *v = Tk::new(v.key + 1); } }
            6 => { for (_, v) in MapIteration::iter_mut(&mut all[i]).skip(at) { *v = v.clone(); } }
            7 => { consume(MapIteration::iter(&all[i]), at, a.how / 5); consume(MapIteration::keys(&all[i]), at, a.how / 5); consume(MapIteration::values(&all[i]), at, a.how / 5); }
            8 => { let j = at % all.len(); let _ = all[i] == all[j]; }
            9 => lookup(&mut all[i], a.at),
            _ => { let c = all.swap_remove(i); consume(c.into_iter(), at, a.how / 5); if all.is_empty() { return; } }
        }
    }
    let last = all.pop().unwrap();
    drop(all);
    for (_, v) in MapIteration::iter(&last) { v.alive("final read"); }
}
fn act_set<S>(s: S, acts: &[Act], lookup: &dyn Fn(&S, u16)) where S: fz::Set<Tk> + Clone + PartialEq, for<'a> &'a S: std::ops::BitOr<&'a S, Output = hashbrown::HashSet<Tk>> + std::ops::BitAnd<&'a S, Output = hashbrown::HashSet<Tk>> + std::ops::Sub<&'a S, Output = hashbrown::HashSet<Tk>> + std::ops::BitXor<&'a S, Output = hashbrown::HashSet<Tk>> {
    let mut all = vec![s];
    for a in acts {
        let i = a.how as usize % all.len();
        let at = a.at as usize % 40;
        match a.kind % 7 {
            0 => { if all.len() < 4 { let c = all[i].clone(); all.push(c); } }
            1 => { if all.len() > 1 { drop(all.swap_remove(i)); } }
            2 => { let c = all[i].clone(); consume(c.into_iter(), at, a.how / 5); }
            3 => { let o = &all[at % all.len()]; match a.how % 4 { 0 => drop(&all[i] | o), 1 => drop(&all[i] & o), 2 => drop(&all[i] - o), _ => drop(&all[i] ^ o) } }
            4 => { consume(fz::SetIteration::iter(&all[i]), at, a.how / 5); let _ = all[i] == all[at % all.len()]; }
            5 => lookup(&all[i], a.at),
            _ => { let c = all.swap_remove(i); consume(c.into_iter(), at, a.how / 5); if all.is_empty() { return; } }
        }
    }
}
const KINDS: [&str; 19] = ["FzHashMap", "FzOrderedMap", "FzScalarMap", "FzStringMap", "maps::HashMap large", "maps::HashMap small", "ScanMap", "EytzingerSearchMap", "DenseScalarLookupMap", "SparseScalarLookupMap", "FzHashSet", "FzOrderedSet", "inline", "inline expressions", "deserialized hash", "deserialized ordered", "deserialized scalar", "FzStringMap by length", "FzScalarSet"];
fn tk(n: i64) -> Tk { Tk::new(n) }
fn one(kind: usize, keys: &[i64], c: &Case) {
    let bh = || DynBH(c.h.clone());
    let ents = || -> Vec<(Tk, Tk)> { keys.iter().enumerate().map(|(i, k)| (tk(*k), tk(i as i64))).collect() };
    let sents = || -> Vec<(Sk, Tk)> { keys.iter().enumerate().map(|(i, k)| (Sk(*k), tk(i as i64))).collect() };
    let key = |at: u16| keys.get(at as usize % keys.len().max(1)).copied().unwrap_or(7).wrapping_add(i64::from(at % 3 == 2));
    macro_rules! look { ($ty:ty, $q:expr) => { &|m: &mut $ty, at: u16| { let q = $q(key(at)); if let Some(v) = m.get_mut(&q) { *v = tk(5); } let _ = m.get(&q).map(|v| v.alive("get")); let _ = m.contains_key(&q); let _ = m.get_key_value(&q); let r = $q(key(at.wrapping_add(1))); if q != r { for v in m.get_disjoint_mut([&q, &r]).into_iter().flatten() { *v = tk(6); } } } } }
    // the same iterator for the FromIterator routes, with user code that may panic
    fn lazy<T>(v: Vec<T>) -> impl Iterator<Item = T> { v.into_iter().map(|x| { user_code("iterator"); x }) }
    match kind {
        0 => { type M = fz::FzHashMap<Tk, Tk, DynBH>; act_map(M::with_hasher(ents(), bh()), &c.acts, look!(M, tk)); type D = fz::FzHashMap<Tk, Tk>; act_map(if c.route % 2 == 0 { D::new(ents()) } else { lazy(ents()).collect::<D>() }, &c.acts, look!(D, tk)) }
        1 => { type M = fz::FzOrderedMap<Tk, Tk>; act_map(if c.route % 2 == 0 { M::new(ents()) } else { lazy(ents()).collect::<M>() }, &c.acts, look!(M, tk)) }
        2 => { type M = fz::FzScalarMap<Sk, Tk>; act_map(if c.route % 2 == 0 { M::new(sents()) } else { lazy(sents()).collect::<M>() }, &c.acts, look!(M, Sk)) }
        3 => {
            type M = fz::FzStringMap<Box<str>, Tk, DynBH>;
            let e: Vec<(Box<str>, Tk)> = keys.iter().enumerate().map(|(i, k)| (format!("key{k}").into(), tk(i as i64))).collect();
            act_map(M::with_hasher(e, bh()), &c.acts, look!(M, |k: i64| -> Box<str> { format!("key{k}").into() }))
        }
        4 => { type M = fzc::maps::HashMap<Tk, Tk, LargeCollection, BridgeHasher<DynBH>>; if let Ok(m) = M::with_hasher(ents(), BridgeHasher::new(bh())) { act_map(m, &c.acts, look!(M, tk)) } }
        5 => { type M = fzc::maps::HashMap<Tk, Tk, SmallCollection, BridgeHasher<DynBH>>; if let Ok(m) = M::with_hasher(ents(), BridgeHasher::new(bh())) { act_map(m, &c.acts, look!(M, tk)) } }
        6 => { type M = fzc::maps::ScanMap<Tk, Tk>; act_map(M::new(ents()), &c.acts, look!(M, tk)) }
        7 => { type M = fzc::maps::EytzingerSearchMap<Tk, Tk>; act_map(M::new(ents()), &c.acts, look!(M, tk)) }
        8 => { type M = fzc::maps::DenseScalarLookupMap<Sk, Tk>; if let Ok(m) = M::new(sents()) { act_map(m, &c.acts, look!(M, Sk)) } }
        9 => {
            type M = fzc::maps::SparseScalarLookupMap<Sk, Tk>;
            let r = keys.iter().max().copied().unwrap_or(0) as i128 - keys.iter().min().copied().unwrap_or(0) as i128;
            if r < 1 << 16 { act_map(M::new(sents()), &c.acts, &|m: &mut M, at| { let q = Sk(key(at)); if let Some(v) = fz::MapQuery::get_mut(m, &q) { *v = tk(5); } let _ = m.get(&q).map(|v| v.alive("get")); }) }
        }
        10 => { let e = || keys.iter().map(|k| tk(*k)).collect::<Vec<_>>(); type S = fz::FzHashSet<Tk>; act_set(if c.route % 2 == 0 { S::new(e()) } else { lazy(e()).collect::<S>() }, &c.acts, &|s: &S, at| { let q = tk(key(at)); let _ = s.contains(&q); }) }
        11 => { let e = || keys.iter().map(|k| tk(*k)).collect::<Vec<_>>(); type S = fz::FzOrderedSet<Tk>; act_set(if c.route % 2 == 0 { S::new(e()) } else { lazy(e()).collect::<S>() }, &c.acts, &|s: &S, at| { let q = tk(key(at)); let _ = s.contains(&q); let _ = s.get(&q); }) }
        12 => {
            macro_rules! run { ($($mac:ident)*) => { [$( { act_map(fz::$mac!({ 3: tk(1), 1: tk(2), 2: tk(3), 9: tk(4), 7: tk(5) }), &c.acts, &|m, at| { let q = i32::from(at) % 12; if let Some(v) = fz::MapQuery::get_mut(m, &q) { *v = tk(8); } let _ = m.get(&q); }); 0 }),*] } }
            match c.route % 3 {
                0 => { run!(fz_hash_map fz_ordered_map fz_scalar_map); }
                1 => act_map(fz::fz_hash_map!({ 300: tk(1), 1: tk(2), 2000: tk(3), 9: tk(4), 7: tk(5), 88: tk(6) }), &c.acts, &|m, at| { let q = i32::from(at) % 12; if let Some(v) = m.get_mut(&q) { *v = tk(8); } }),
                _ => act_map(fz::fz_string_map!({ "a1": tk(1), "b22": tk(2), "c2": tk(3), "d": tk(4), "e0": tk(5), "ff": tk(6) }), &c.acts, &|m, at| { let q = ["a1", "d", "zz"][at as usize % 3]; if let Some(v) = m.get_mut(q) { *v = tk(8); } }),
            }
        }
        13 => {
            let n = |i: usize| key(i as u16).wrapping_mul(8).wrapping_add(i as i64);
            match c.route % 4 {
                0 => act_map(fz::fz_hash_map!({ tk(n(0)): tk(1), tk(n(1)): tk(2), tk(n(2)): tk(3), tk(n(3)): tk(4), tk(n(4)): tk(5), tk(n(5)): tk(6) }), &c.acts, &|_m, _| {}),
                1 => act_map(fz::fz_ordered_map!({ tk(n(0)): tk(1), tk(n(1)): tk(2), tk(n(2)): tk(3), tk(n(3)): tk(4), tk(n(4)): tk(5), tk(n(5)): tk(6) }), &c.acts, &|_m, _| {}),
                2 => act_map(fz::fz_hash_map!({ tk(n(0)): tk(1), tk(n(1)): tk(2) }), &c.acts, &|_m, _| {}),
                _ => act_map(fz::fz_ordered_map!({ tk(n(0)): tk(1), tk(n(1)): tk(2), tk(n(2)): tk(3) }), &c.acts, &|_m, _| {}),
            }
        }
        14 | 15 | 16 => {
            // the input may end or be wrong part-way
            let mut js = format!("[{}", keys.iter().enumerate().map(|(i, k)| format!("[{k},{i}]")).collect::<Vec<_>>().join(","));
            js += match c.route % 4 { 0 => "", 1 => ",[1]]", 2 => ",[\"x\",2]]", _ => "]" };
            // maps deserialize from maps: feed the pairs through a map deserializer
            struct Pairs(Vec<(i64, i64)>, u8);
            impl<'de> serde::Deserializer<'de> for Pairs {
                type Error = serde::de::value::Error;
                fn deserialize_any<W: serde::de::Visitor<'de>>(self, v: W) -> Result<W::Value, Self::Error> { v.visit_map(self) }
                serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
            }
            impl<'de> serde::de::MapAccess<'de> for Pairs {
                type Error = serde::de::value::Error;
                fn next_key_seed<S: serde::de::DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, Self::Error> {
                    use serde::de::IntoDeserializer;
                    user_code("map access");
                    match self.0.first() { None if self.1 % 4 == 0 => Err(serde::de::Error::custom("truncated")), None => Ok(None), Some((k, _)) => s.deserialize((*k).into_deserializer()).map(Some) }
                }
                fn next_value_seed<S: serde::de::DeserializeSeed<'de>>(&mut self, s: S) -> Result<S::Value, Self::Error> {
                    use serde::de::IntoDeserializer;
                    let (_, v) = self.0.remove(0);
                    if self.1 % 4 == 1 && self.0.len() == 3 { return Err(serde::de::Error::custom("bad value")); }
                    s.deserialize(v.into_deserializer())
                }
            }
            let p = || Pairs(keys.iter().enumerate().map(|(i, k)| (*k, i as i64)).collect(), c.route);
            match kind {
                14 => { let _ = fz::FzHashMap::<Tk, Tk>::deserialize(p()).map(|m| act_map(m, &c.acts, &|_m, _| {})); let _ = serde_json::from_str::<fz::FzHashSet<Tk>>(&js); }
                15 => { let _ = fz::FzOrderedMap::<Tk, Tk>::deserialize(p()).map(|m| act_map(m, &c.acts, &|_m, _| {})); let _ = serde_json::from_str::<fz::FzOrderedSet<Tk>>(&format!("[{}", keys.iter().map(i64::to_string).collect::<Vec<_>>().join(","))); }
                _ => { let _ = fz::FzScalarMap::<i64, Tk>::deserialize(p()).map(|m| act_map(m, &c.acts, &|_m, _| {})); }
            }
        }
        17 => {
            type M = fz::FzStringMap<Box<str>, Tk>;
            let e: Vec<(Box<str>, Tk)> = keys.iter().enumerate().map(|(i, k)| ("x".repeat(k.rem_euclid(200) as usize).into(), tk(i as i64))).collect();
            act_map(if c.route % 2 == 0 { M::new(e) } else { lazy(e).collect::<M>() }, &c.acts, look!(M, |k: i64| -> Box<str> { "x".repeat(k.rem_euclid(200) as usize).into() }))
        }
        _ => {
            let s: fz::FzScalarSet<Sk> = lazy(keys.iter().map(|k| Sk(*k)).collect()).collect();
            let t = s.clone();
            let _ = s.into_iter().take(3).count();
            drop(t);
        }
    }
}
fn judge(what: &str) -> Res {
    let bad = reg(|r| std::mem::take(&mut r.bad));
    ensure!(bad.is_empty(), "{what}: {}", bad.join("; "));
    Ok(())
}
fn leaked() -> usize {
    reg(|r| r.state.iter().filter(|s| **s == 1).count())
}
fn clear() {
    reg(|r| { r.state.clear(); r.bad.clear(); r.fuse = None; r.calls = 0; });
}
fn run(c: &Case, o: &mut Obs) -> Res {
    let keys = c.keys.expand();
    let distinct = keys.iter().collect::<std::collections::BTreeSet<_>>().len();
    o.nontrivial_if(distinct >= 2 && !c.acts.is_empty());
    o.label_if(distinct < keys.len(), "with duplicates");
    o.label_if(distinct > 255, "more distinct keys than the small hash table holds");
    for (kind, name) in KINDS.iter().enumerate() {
        clear();
        match c.fuse {
            None => {
                // panic-free: everything dropped once and every allocation returned
                one(kind, &keys, c);
                judge(name)?;
                let n = leaked();
                ensure!(n == 0, "{name}: {n} objects are never dropped");
                clear();
                reg(|r| { r.state.reserve(1 << 17); });
                let before = BLOCKS.with(Cell::get);
                one(kind, &keys, c);
                let after = BLOCKS.with(Cell::get);
                ensure!(after == before, "{name}: {} allocations are not returned", after - before);
            }
            Some(f) => {
                one(kind, &keys, c);
                judge(name)?;
                let calls = reg(|r| r.calls);
                if calls == 0 { continue; }
                // several panic points per case
                for j in 0..4u64 {
                    clear();
                    let at = (u64::from(f).wrapping_mul(j * 2 + 1) + j) % calls;
                    reg(|r| r.fuse = Some(at));
                    let r = guarded(|| one(kind, &keys, c));
                    o.label(if r.is_err() { "user code panicked" } else { "fuse not reached" });
                    if let Err(p) = r { ensure!(p.contains("injected panic"), "{name}: unexpected {p} after an injected panic at call {at}"); }
                    judge(&format!("{name}, user code panics at call {at}"))?;
                }
            }
        }
    }
    clear();
    Ok(())
}
fn acts() -> impl Strategy<Value = Vec<Act>> {
    proptest::collection::vec((any::<u8>(), prop_oneof![0u16..6, any::<u16>()], any::<u8>()).prop_map(|(kind, at, how)| Act { kind, at, how }), 0..7)
}
fn main() {
    vh::runner::main("P20", vec![
        sub("histories", 52_000, 200_000, || (int_keys(60), acts(), any_hasher(), any::<u8>()).prop_map(|(keys, acts, h, route)| Case { keys, acts, h, route, fuse: None }), run,
            "entry lists with duplicates in every map and set (runtime, macro-built, deserialized incl. failing part-way), then clones, updates, consuming iterators abandoned or consumed in 8 ways, comparisons, set operators, drops: every tracked key and value dropped exactly once, none touched after its drop, every allocation returned; non-trivial: 2 distinct keys and an action."),
        sub("many", 1_200, 12_000, || (int_keys(600).prop_filter("many", |k| k.expand().len() > 100), acts(), good_hasher(), any::<u8>()).prop_map(|(keys, acts, h, route)| Case { keys, acts, h, route, fuse: None }), run,
            "the same with more than 100 entries, so that the byte-sized hash table must refuse some of them (same rule)."),
        sub("panics", 39_000, 150_000, || (int_keys(40), acts(), any_hasher(), any::<u8>(), any::<u32>()).prop_map(|(keys, acts, h, route, f)| Case { keys, acts, h, route, fuse: Some(f) }), run,
            "the same histories with a panic injected into one call of comparison, equality, hashing, cloning, the source iterator or a fold closure: nothing is dropped twice or used after its drop (leaks allowed)."),
    ]);
}
