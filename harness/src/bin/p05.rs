use frozen_collections::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use vh::facade::{BMap, BSet, Key, V};
use vh::big::*;
use vh::keys::*;
use vh::oracle::*;
use vh::runner::*;
use vh::with_some_scalar;
use vh::{ensure, ensure_eq};

/// Where the entries of the list come from: positions into a key pool, so repeats are frequent.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Picks { picks: Vec<u16> }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct IntCase { ty: u8, keys: IntKeys, picks: Option<Picks>, h: HSpec }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct StrCase { keys: StrKeys, picks: Option<Picks>, h: HSpec }

type D = DynBH;

/// An iterator that tells nothing about its length.
struct Blind<I>(I);
impl<I: Iterator> Iterator for Blind<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { self.0.next() }
}

fn chosen<K: Clone>(pool: Vec<K>, p: &Option<Picks>) -> Vec<K> {
    match p {
        Some(p) if !pool.is_empty() => p.picks.iter().map(|i| pool[*i as usize % pool.len()].clone()).collect(),
        _ => pool,
    }
}
/// Array routes exist for fixed lengths only; the list is cut to the nearest one.
const NS: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 24, 33, 64];
fn cut<T: Clone>(e: &[T]) -> Vec<T> {
    let n = NS.iter().copied().filter(|n| *n <= e.len()).max().unwrap();
    e[..n].to_vec()
}
macro_rules! from_array {
    ($e:expr, $item:ty, $target:ty, $out:ty) => {{
        let e: Vec<$item> = $e;
        macro_rules! a { ($n:literal) => {{ let x: [$item; $n] = e.try_into().ok().unwrap(); Box::new(<$target>::from(x)) as $out }}; }
        match e.len() { 0 => a!(0), 1 => a!(1), 2 => a!(2), 3 => a!(3), 4 => a!(4), 5 => a!(5), 6 => a!(6), 7 => a!(7), 8 => a!(8), 9 => a!(9), 12 => a!(12), 16 => a!(16), 24 => a!(24), 33 => a!(33), 64 => a!(64), _ => unreachable!() }
    }};
}
fn check_map<K: Key>(route: &str, mut m: BMap<K>, want: &BTreeMap<K, V>) -> Res {
    let probes: Vec<K> = want.keys().cloned().collect();
    ensure_eq!(m.len(0), want.len(), "{} built by {route}: len", m.name());
    contents(&*m, want).map_err(|e| format!("built by {route}: {e}"))?;
    lookups(&mut *m, want, &probes, 0).map_err(|e| format!("built by {route}: {e}"))
}
fn check_set<K: Key>(route: &str, s: BSet<K>, want: &BTreeSet<K>) -> Res {
    let probes: Vec<K> = want.iter().cloned().collect();
    ensure_eq!(s.len(0), want.len(), "{} built by {route}: len", s.name());
    set_contents(&*s, want).map_err(|e| format!("built by {route}: {e}"))?;
    set_lookups(&*s, want, &probes, 0).map_err(|e| format!("built by {route}: {e}"))
}
fn observe<K: Ord + Clone>(e: &[(K, V)], o: &mut Obs) {
    let want = model(e);
    let moved = e.iter().any(|(k, v)| want[k] != *v);
    o.nontrivial_if(moved && want.len() >= 2);
    o.label_if(moved, "a value is overridden");
    o.label_if(e.len() > 20 && moved, "overridden, more than 20 entries");
    o.label_if(e.len() >= 2 * want.len().max(1) && moved, "half or more are duplicates");
    o.label_if(e.is_empty(), "empty");
}
fn any_kinds<K: Key>(e: &[(K, V)], h: &HSpec) -> Res {
    let want = model(e);
    let keys: Vec<K> = e.iter().map(|x| x.0.clone()).collect();
    let kset: BTreeSet<K> = want.keys().cloned().collect();
    let c = cut(e);
    let (cw, ck) = (model(&c), cut(&keys));
    let cs: BTreeSet<K> = ck.iter().cloned().collect();
    check_map("new", Box::new(FzHashMap::new(e.to_vec())), &want)?;
    check_map("with_hasher", Box::new(FzHashMap::with_hasher(e.to_vec(), DynBH(h.clone()))), &want)?;
    check_map("iterator", Box::new(e.iter().cloned().collect::<FzHashMap<K, V>>()), &want)?;
    check_map("blind iterator", Box::new(Blind(e.iter().cloned()).collect::<FzHashMap<K, V, D>>()), &want)?;
    check_map("array", from_array!(c.clone(), (K, V), FzHashMap<K, V>, BMap<K>), &cw)?;
    check_map("array, own hasher type", from_array!(c.clone(), (K, V), FzHashMap<K, V, D>, BMap<K>), &cw)?;
    check_map("new", Box::new(FzOrderedMap::new(e.to_vec())), &want)?;
    check_map("iterator", Box::new(e.iter().cloned().collect::<FzOrderedMap<K, V>>()), &want)?;
    check_map("blind iterator", Box::new(Blind(e.iter().cloned()).collect::<FzOrderedMap<K, V>>()), &want)?;
    check_map("array", from_array!(c.clone(), (K, V), FzOrderedMap<K, V>, BMap<K>), &cw)?;
    check_set("new", Box::new(FzHashSet::new(keys.clone())), &kset)?;
    check_set("with_hasher", Box::new(FzHashSet::with_hasher(keys.clone(), DynBH(h.clone()))), &kset)?;
    check_set("iterator", Box::new(Blind(keys.iter().cloned()).collect::<FzHashSet<K>>()), &kset)?;
    check_set("array", from_array!(ck.clone(), K, FzHashSet<K>, BSet<K>), &cs)?;
    check_set("map", Box::new(FzHashSet::from(FzHashMap::with_hasher(keys.iter().map(|k| (k.clone(), ())).collect(), DynBH(h.clone())))), &kset)?;
    check_set("new", Box::new(FzOrderedSet::new(keys.clone())), &kset)?;
    check_set("iterator", Box::new(Blind(keys.iter().cloned()).collect::<FzOrderedSet<K>>()), &kset)?;
    check_set("array", from_array!(ck, K, FzOrderedSet<K>, BSet<K>), &cs)?;
    check_set("map", Box::new(FzOrderedSet::from(FzOrderedMap::new(keys.iter().map(|k| (k.clone(), ())).collect()))), &kset)?;
    check_map("default", Box::new(FzHashMap::<K, V>::default()), &BTreeMap::new())?;
    check_map("default", Box::new(FzHashMap::<K, V, D>::default()), &BTreeMap::new())?;
    check_map("default", Box::new(FzOrderedMap::<K, V>::default()), &BTreeMap::new())?;
    check_set("default", Box::new(FzHashSet::<K>::default()), &BTreeSet::new())?;
    check_set("default", Box::new(FzOrderedSet::<K>::default()), &BTreeSet::new())?;
    for kind in [Kind::CoreHashL, Kind::CoreHashM, Kind::CoreHashS, Kind::Scan, Kind::Eytz] {
        if let Some(m) = map_any(kind, e.to_vec(), h) {
            check_map("constructor", m, &want)?;
        }
    }
    // the order of distinct keys does not matter
    let mut rev: Vec<(K, V)> = want.iter().map(|(k, v)| (k.clone(), *v)).collect();
    rev.reverse();
    ensure!(FzHashMap::new(rev.clone()) == FzHashMap::new(want.clone().into_iter().collect()), "FzHashMap depends on the order of distinct keys");
    ensure!(FzOrderedMap::new(rev) == FzOrderedMap::new(want.into_iter().collect()), "FzOrderedMap depends on the order of distinct keys");
    Ok(())
}
fn typed<K: Key + Scalar + FromI64>(c: &IntCase, o: &mut Obs) -> Res
where
    K::Alt: Scalar,
{
    let keys: Vec<K> = chosen(c.keys.expand().into_iter().map(K::from_i64).collect(), &c.picks);
    let e = number(keys.clone());
    observe(&e, o);
    any_kinds(&e, &c.h)?;
    let want = model(&e);
    let kset: BTreeSet<K> = want.keys().cloned().collect();
    let cc = cut(&e);
    let ck = cut(&keys);
    let (cw, cs) = (model(&cc), ck.iter().cloned().collect());
    check_map("new", Box::new(FzScalarMap::new(e.clone())), &want)?;
    check_map("iterator", Box::new(e.iter().cloned().collect::<FzScalarMap<K, V>>()), &want)?;
    check_map("blind iterator", Box::new(Blind(e.iter().cloned()).collect::<FzScalarMap<K, V>>()), &want)?;
    check_map("array", from_array!(cc, (K, V), FzScalarMap<K, V>, BMap<K>), &cw)?;
    check_set("new", Box::new(FzScalarSet::new(keys.clone())), &kset)?;
    check_set("iterator", Box::new(Blind(keys.iter().cloned()).collect::<FzScalarSet<K>>()), &kset)?;
    check_set("array", from_array!(ck, K, FzScalarSet<K>, BSet<K>), &cs)?;
    check_set("map", Box::new(FzScalarSet::from(FzScalarMap::new(keys.iter().map(|k| (k.clone(), ())).collect()))), &kset)?;
    check_map("default", Box::new(FzScalarMap::<K, V>::default()), &BTreeMap::new())?;
    check_set("default", Box::new(FzScalarSet::<K>::default()), &BTreeSet::new())?;
    for kind in [Kind::Sparse, Kind::Dense] {
        if let Some(m) = map_scalar(kind, e.clone(), &c.h) {
            check_map("constructor", m, &want)?;
        }
    }
    Ok(())
}
fn ints(c: &IntCase, o: &mut Obs) -> Res {
    with_some_scalar!(c.ty, typed(c, o))
}
type S = Box<str>;
fn strs(c: &StrCase, o: &mut Obs) -> Res {
    let keys = chosen(c.keys.expand(), &c.picks);
    let e = number(keys.clone());
    observe(&e, o);
    any_kinds(&e, &c.h)?;
    let want = model(&e);
    let kset: BTreeSet<S> = want.keys().cloned().collect();
    let cc = cut(&e);
    let ck = cut(&keys);
    let (cw, cs) = (model(&cc), ck.iter().cloned().collect());
    let d = || DynBH(c.h.clone());
    check_map("new", Box::new(FzStringMap::new(e.clone())), &want)?;
    check_map("new from &str", Box::new(FzStringMap::new(e.iter().map(|(k, v)| (&**k, *v)).collect())), &want)?;
    check_map("new from String", Box::new(FzStringMap::new(e.iter().map(|(k, v)| (k.to_string(), *v)).collect())), &want)?;
    check_map("with_hasher", Box::new(FzStringMap::with_hasher(e.clone(), d())), &want)?;
    check_map("iterator", Box::new(Blind(e.iter().map(|(k, v)| (&**k, *v))).collect::<FzStringMap<S, V>>()), &want)?;
    check_map("iterator, own hasher type", Box::new(e.iter().cloned().collect::<FzStringMap<S, V, D>>()), &want)?;
    check_map("array", from_array!(cc, (S, V), FzStringMap<S, V>, BMap<S>), &cw)?;
    check_set("new", Box::new(FzStringSet::new(keys.clone())), &kset)?;
    check_set("with_hasher", Box::new(FzStringSet::with_hasher(keys.clone(), d())), &kset)?;
    check_set("iterator", Box::new(Blind(keys.iter().map(|k| k.to_string())).collect::<FzStringSet<S>>()), &kset)?;
    check_set("array", from_array!(ck, S, FzStringSet<S>, BSet<S>), &cs)?;
    check_set("map", Box::new(FzStringSet::from(FzStringMap::with_hasher(keys.iter().map(|k| (k.clone(), ())).collect(), d()))), &kset)?;
    check_map("default", Box::new(FzStringMap::<S, V>::default()), &BTreeMap::new())?;
    check_set("default", Box::new(FzStringSet::<S>::default()), &BTreeSet::new())?;
    let mut rev: Vec<(S, V)> = want.iter().map(|(k, v)| (k.clone(), *v)).collect();
    rev.reverse();
    let (a, b) = (FzStringMap::new(rev), FzStringMap::new(want.into_iter().collect()));
    ensure!(a == b, "FzStringMap depends on the order of distinct keys");
    Ok(())
}
/// Thousands of entries, many of them repeats, through one constructor at a time.
fn bulk(c: &Huge, o: &mut Obs) -> Res {
    let keys = c.repeated();
    let r = c.order as usize + c.holes.len() + c.n as usize;
    o.label(match keys.len() { 0..=4095 => "<4096 entries", 4096..=65_535 => "4096-65535 entries", _ => ">65535 entries" });
    if c.which & 1 == 0 {
        let e = number(keys.clone());
        let want = model(&e);
        o.nontrivial_if(want.len() < e.len() && want.len() >= 2);
        let d = || DynBH(c.h.clone());
        if c.which & 2 == 0 {
            let (route, mut m): (_, BMap<i64>) = match r % 12 {
                0 => ("new", Box::new(FzHashMap::new(e))),
                1 => ("iterator", Box::new(e.into_iter().collect::<FzHashMap<i64, V>>())),
                2 => ("blind iterator", Box::new(Blind(e.into_iter()).collect::<FzHashMap<i64, V, D>>())),
                3 => ("new", Box::new(FzOrderedMap::new(e))),
                4 => ("iterator", Box::new(e.into_iter().collect::<FzOrderedMap<i64, V>>())),
                5 => ("new", Box::new(FzScalarMap::new(e))),
                6 => ("iterator", Box::new(e.into_iter().collect::<FzScalarMap<i64, V>>())),
                7 => ("blind iterator", Box::new(Blind(e.into_iter()).collect::<FzOrderedMap<i64, V>>())),
                8 => ("blind iterator", Box::new(Blind(e.into_iter()).collect::<FzScalarMap<i64, V>>())),
                9 => ("constructor", map_scalar(Kind::Sparse, e.clone(), &c.h).unwrap_or_else(|| Box::new(FzScalarMap::new(e)))),
                10 => ("constructor", map_scalar(Kind::Dense, e.clone(), &c.h).unwrap_or_else(|| Box::new(FzScalarMap::new(e)))),
                _ => ("constructor", map_any([Kind::Eytz, Kind::CoreHashL, Kind::CoreHashM][c.holes.len() % 3], e.clone(), &HSpec::Fold(3)).unwrap_or_else(|| Box::new(FzHashMap::with_hasher(e, DynBH(HSpec::Sip(4)))))),
            };
            o.label(&m.name());
            return probe_map(&mut *m, &want, &[], c.order).map_err(|e| format!("built by {route}: {e}"));
        }
        let (route, s): (_, BSet<i64>) = match r % 7 {
            0 => ("new", Box::new(FzHashSet::new(keys))),
            1 => ("blind iterator", Box::new(Blind(keys.into_iter()).collect::<FzHashSet<i64>>())),
            2 => ("new", Box::new(FzOrderedSet::new(keys))),
            3 => ("iterator", Box::new(keys.into_iter().collect::<FzOrderedSet<i64>>())),
            4 => ("new", Box::new(FzScalarSet::new(keys))),
            5 => ("iterator", Box::new(keys.into_iter().collect::<FzScalarSet<i64>>())),
            _ => ("map", Box::new(FzHashSet::from(FzHashMap::with_hasher(keys.into_iter().map(|k| (k, ())).collect(), d())))),
        };
        o.label(&s.name());
        return probe_set(&*s, &want, &[], c.order).map_err(|e| format!("built by {route}: {e}"));
    }
    let e: Vec<(S, V)> = number(keys).into_iter().map(|(k, v)| (c.text(k), v)).collect();
    let want = model(&e);
    o.nontrivial_if(want.len() < e.len() && want.len() >= 2);
    if c.which & 2 == 0 {
        let (route, mut m): (_, BMap<S>) = match r % 6 {
            0 => ("new", Box::new(FzStringMap::new(e))),
            1 => ("iterator", Box::new(e.iter().map(|(k, v)| (&**k, *v)).collect::<FzStringMap<S, V>>())),
            2 => ("blind iterator", Box::new(Blind(e.into_iter()).collect::<FzStringMap<S, V>>())),
            3 => ("new from String", Box::new(FzStringMap::new(e.iter().map(|(k, v)| (k.to_string(), *v)).collect()))),
            4 => ("new", Box::new(FzHashMap::new(e))),
            _ => ("new", Box::new(FzOrderedMap::new(e))),
        };
        o.label(&m.name());
        return probe_map(&mut *m, &want, &[], c.order).map_err(|e| format!("built by {route}: {e}"));
    }
    let keys = e.into_iter().map(|x| x.0);
    let (route, s): (_, BSet<S>) = match r % 3 {
        0 => ("new", Box::new(FzStringSet::new(keys.collect::<Vec<S>>()))),
        1 => ("blind iterator", Box::new(Blind(keys).collect::<FzStringSet<S>>())),
        _ => ("iterator", Box::new(keys.collect::<FzStringSet<S>>())),
    };
    o.label(&s.name());
    probe_set(&*s, &want, &[], c.order).map_err(|e| format!("built by {route}: {e}"))
}
fn picks() -> impl Strategy<Value = Option<Picks>> {
    proptest::option::weighted(0.7, (prop_oneof![3 => proptest::collection::vec(any::<u16>(), 0..24), 3 => proptest::collection::vec(any::<u16>(), 20..120), 1 => proptest::collection::vec(any::<u16>(), 100..700)],).prop_map(|(picks,)| Picks { picks }))
}
fn main() {
    vh::runner::main("P05", vec![
        sub("ints", 30_000, 150_000, || (0..9u8, int_keys(120), picks(), good_hasher()).prop_map(|(ty, keys, picks, h)| IntCase { ty, keys, picks, h }), ints,
            "entry lists drawn with repetition from a key pool, over nine scalar types, built through every constructor of every hash, ordered and scalar map and set and building block and compared with a BTreeMap (last value wins); non-trivial: some value is overridden by a later one and at least 2 distinct keys."),
        sub("strings", 15_000, 80_000, || (str_keys(80), picks(), good_hasher()).prop_map(|(keys, picks, h)| StrCase { keys, picks, h }), strs,
            "the same for string keys and the string map and set (same rule)."),
        sub("bulk", 900, 8_000, || mid(65_545).prop_map(|c| Huge { h: HSpec::Fold(c.which.into()), ..c }), bulk,
            "200 to 131,000 entries, most of the lists with a third, half or nine tenths repeats, through one constructor per case, against a BTreeMap by lookup and iteration; non-trivial: a repeat and at least 2 distinct keys."),
    ]);
}
