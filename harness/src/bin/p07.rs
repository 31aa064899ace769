#[path = "../catalog.rs"]
mod catalog;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use vh::facade::{BMap, BSet, Key, V};
use vh::big::*;
use vh::keys::*;
use vh::oracle::*;
use vh::runner::*;
use vh::{ensure, ensure_eq};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct IntCase { keys: IntKeys, plan: Vec<usize>, h: HSpec, narrow: bool }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct StrCase { keys: StrKeys, plan: Vec<usize>, h: HSpec }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct CatCase { which: usize, plan: Vec<usize> }

fn map_iters<K: Key>(mut m: BMap<K>, want: &BTreeMap<K, V>, plan: &[usize]) -> Res {
    let nm = m.name();
    let exp: Vec<(K, V)> = want.iter().map(|(k, v)| (k.clone(), *v)).collect();
    m.iter_protocol(&exp, plan)?;
    // abandoned consuming iterators, through every route, and agreement of the length with iteration
    for r in 0..2 {
        ensure_eq!(m.len(r), exp.len(), "{nm}.len()");
        ensure_eq!(m.is_empty(r), exp.is_empty(), "{nm}.is_empty()");
    }
    for (i, p) in plan.iter().enumerate() {
        let p = p % (exp.len() + 1);
        let mut it = m.clone_box().into_iter();
        let head: Vec<(K, V)> = it.by_ref().take(p).collect();
        ensure!(head.len() == p && head.iter().all(|(k, v)| want.get::<K>(k) == Some(v)), "{nm}: first {p} of the consuming iterator: {head:?}");
        let tail: BTreeMap<K, V> = it.collect();
        ensure!(tail.len() == exp.len() - p && head.iter().all(|(k, _)| !tail.contains_key::<K>(k)), "{nm}: consuming iterator continues with {tail:?} after {head:?}");
        let ks: BTreeSet<K> = m.clone_box().into_keys(i as u8).collect();
        ensure!(ks.iter().eq(want.keys()), "{nm}: into_keys {ks:?}");
    }
    Ok(())
}
fn set_iters<K: Key>(s: BSet<K>, want: &BTreeSet<K>, plan: &[usize]) -> Res {
    let exp: Vec<K> = want.iter().cloned().collect();
    s.iter_protocol(&exp, plan)?;
    ensure_eq!(s.len(0), exp.len(), "{}.len()", s.name());
    for r in 0..3 {
        let mut v: Vec<K> = s.iter(r).cloned().collect();
        v.sort();
        ensure!(v == exp, "{}: iteration by route {r} yields {v:?}", s.name());
    }
    Ok(())
}
fn observe(n: usize, dups: bool, plan: &[usize], o: &mut Obs) {
    o.nontrivial_if(n >= 2 && plan.iter().any(|p| { let q = p % (n + 2); q > 0 && q < n }));
    o.label_if(dups, "built with duplicates");
    o.label(match n { 0 => "empty", 1 => "one", 2..=7 => "len<8", 8..=255 => "len<256", _ => "len>=256" });
}
fn typed<K: Key + frozen_collections::Scalar + FromI64>(c: &IntCase, o: &mut Obs) -> Res where K::Alt: frozen_collections::Scalar {
    let keys: Vec<K> = c.keys.expand().into_iter().map(K::from_i64).collect();
    let e = number(keys.clone());
    let want = model(&e);
    observe(want.len(), want.len() < e.len(), &c.plan, o);
    for kind in INT_KINDS {
        if let Some(m) = map_scalar(*kind, e.clone(), &c.h) {
            map_iters(m, &want, &c.plan)?;
        }
        if let Some(s) = set_scalar(*kind, keys.clone(), &c.h) {
            set_iters(s, &want.keys().cloned().collect(), &c.plan)?;
        }
    }
    Ok(())
}
fn ints(c: &IntCase, o: &mut Obs) -> Res {
    if c.narrow { typed::<u8>(c, o) } else { typed::<i64>(c, o) }
}
fn strs(c: &StrCase, o: &mut Obs) -> Res {
    let keys = c.keys.expand();
    let e = number(keys.clone());
    let want = model(&e);
    observe(want.len(), want.len() < e.len(), &c.plan, o);
    for kind in STR_KINDS {
        if let Some(m) = map_str(*kind, e.clone(), &c.h) {
            map_iters(m, &want, &c.plan)?;
        }
        if let Some(s) = set_str(*kind, keys.clone(), &c.h) {
            set_iters(s, &want.keys().cloned().collect(), &c.plan)?;
        }
    }
    Ok(())
}
fn nth<T>(v: Vec<T>, i: usize) -> T {
    let n = v.len();
    v.into_iter().nth(i % n).unwrap()
}
fn cat(c: &CatCase, o: &mut Obs) -> Res {
    let i = c.which / 4;
    match c.which % 4 {
        0 => { let (m, e) = nth(catalog::int_maps(), i); observe(e.len(), false, &c.plan, o); o.label(m.name().split('<').next().unwrap()); map_iters(m, &model(&e), &c.plan) }
        1 => { let (m, e) = nth(catalog::str_maps(), i); observe(e.len(), false, &c.plan, o); o.label(m.name().split('<').next().unwrap()); map_iters(m, &model(&e), &c.plan) }
        2 => { let (s, e) = nth(catalog::int_sets(), i); observe(e.len(), false, &c.plan, o); o.label(s.name().split('<').next().unwrap()); set_iters(s, &e.into_iter().collect(), &c.plan) }
        _ => { let (s, e) = nth(catalog::str_sets(), i); observe(e.len(), false, &c.plan, o); o.label(s.name().split('<').next().unwrap()); set_iters(s, &e.into_iter().collect(), &c.plan) }
    }
}
/// Entries that take no memory: iterators cannot tell where they are by address.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct UnitCase { copies: usize, keys: Vec<u8> }
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, frozen_collections::Scalar)]
enum One { Only }
fn steps<I: ExactSizeIterator>(what: &str, mut it: I, n: usize) -> Res {
    for i in 0..n {
        ensure!(it.len() == n - i && it.size_hint() == (n - i, Some(n - i)), "{what}: {:?} reported after {i} of {n}", it.size_hint());
        ensure!(it.next().is_some(), "{what}: ends after {i} of {n}");
    }
    for _ in 0..2 { ensure!(it.len() == 0 && it.next().is_none(), "{what}: goes on after {n}"); }
    Ok(())
}
fn units(c: &UnitCase, o: &mut Obs) -> Res {
    use frozen_collections::*;
    use frozen_collections_core::maps::*;
    macro_rules! map {
        ($m:expr, $k:expr, $n:expr) => {{
            let (mut m, n, nm) = ($m, $n, stringify!($m));
            ensure_eq!(m.len(), n, "{nm}.len()");
            ensure_eq!(m.get(&$k).is_some(), n > 0, "{nm}.get");
            steps(nm, m.iter(), n)?;
            steps(nm, m.keys(), n)?;
            steps(nm, m.values(), n)?;
            steps(nm, m.iter_mut(), n)?;
            steps(nm, m.values_mut(), n)?;
            steps(nm, (&m).into_iter(), n)?;
            steps(nm, (&mut m).into_iter(), n)?;
            steps(nm, m.clone().into_iter(), n)?;
            steps(nm, m.clone().into_keys(), n)?;
            steps(nm, m.clone().into_values(), n)?;
            ensure_eq!([m.iter().count(), m.keys().count(), m.values().count(), m.clone().into_iter().count(), m.clone().into_keys().fold(0, |x, _| x + 1)], [n; 5], "{nm}: counts");
            ensure!(m.iter().nth(n).is_none() && (n == 0 || m.iter().nth(n - 1).is_some()), "{nm}: nth");
        }};
    }
    macro_rules! set {
        ($s:expr, $n:expr) => {{
            let (s, n, nm) = ($s, $n, stringify!($s));
            ensure_eq!(s.len(), n, "{nm}.len()");
            steps(nm, s.iter(), n)?;
            steps(nm, (&s).into_iter(), n)?;
            steps(nm, s.clone().into_iter(), n)?;
        }};
    }
    let n = c.copies.min(1);
    let u = vec![((), ()); c.copies];
    let x = vec![(One::Only, ()); c.copies];
    map!(FzHashMap::new(u.clone()), (), n);
    map!(FzOrderedMap::new(u.clone()), (), n);
    map!(FzHashMap::new(x.clone()), One::Only, n);
    map!(FzOrderedMap::new(x.clone()), One::Only, n);
    map!(FzScalarMap::new(x.clone()), One::Only, n);
    map!(ScanMap::new(u.clone()), (), n);
    map!(EytzingerSearchMap::new(u), (), n);
    map!(SparseScalarLookupMap::new(x.clone()), One::Only, n);
    if n > 0 { map!(DenseScalarLookupMap::new(x).map_err(|e| format!("DenseScalarLookupMap: {e}"))?, One::Only, n); }
    set!(FzHashSet::new(vec![(); c.copies]), n);
    set!(FzOrderedSet::new(vec![(); c.copies]), n);
    set!(FzScalarSet::new(vec![One::Only; c.copies]), n);
    // values without size
    let d: BTreeSet<u8> = c.keys.iter().copied().collect();
    let k = c.keys.first().copied().unwrap_or(3);
    let e: Vec<(u8, ())> = c.keys.iter().map(|k| (*k, ())).collect();
    map!(FzHashMap::new(e.clone()), k, d.len());
    map!(FzOrderedMap::new(e.clone()), k, d.len());
    map!(FzScalarMap::new(e.clone()), k, d.len());
    map!(FzStringMap::<Box<str>, ()>::new(c.keys.iter().map(|k| (["", "a", "bb", "ccc", "dddd"][*k as usize % 5], ())).collect()), *["", "a", "bb", "ccc", "dddd"][k as usize % 5], c.keys.iter().map(|k| k % 5).collect::<BTreeSet<_>>().len());
    o.nontrivial_if(d.len() >= 2);
    o.label_if(c.copies > 1, "equal keys without size");
    Ok(())
}
/// Thousands of entries, one collection per case.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct BulkCase { c: Huge, plan: Vec<u16> }
fn bulk(b: &BulkCase, o: &mut Obs) -> Res {
    let c = &b.c;
    let keys = c.repeated();
    let plan: Vec<usize> = b.plan.iter().map(|p| *p as usize).collect();
    let r = c.which as usize + c.order as usize;
    if c.which & 1 == 0 {
        let e = number(keys.clone());
        let want = model(&e);
        observe(want.len(), want.len() < e.len(), &plan, o);
        if c.which & 2 == 0 {
            let kinds = [Kind::FzHash, Kind::CoreHashL, Kind::CoreHashM, Kind::FzOrd, Kind::Eytz, Kind::FzScalar, Kind::Sparse, Kind::Dense];
            let m = map_scalar(kinds[r % kinds.len()], e.clone(), &c.h).unwrap_or_else(|| map_scalar(Kind::FzScalar, e, &c.h).unwrap());
            o.label(&m.name());
            map_iters(m, &want, &plan)
        } else {
            let s = set_scalar([Kind::FzHash, Kind::FzOrd, Kind::FzScalar][r % 3], keys, &c.h).unwrap();
            o.label(&s.name());
            set_iters(s, &want.keys().copied().collect(), &plan)
        }
    } else {
        let keys: Vec<Box<str>> = keys.into_iter().map(|k| c.text(k)).collect();
        let e = number(keys.clone());
        let want = model(&e);
        observe(want.len(), want.len() < e.len(), &plan, o);
        if c.which & 2 == 0 { map_iters(map_str([Kind::FzStr, Kind::FzHash, Kind::FzOrd][r % 3], e, &c.h).unwrap(), &want, &plan) } else { set_iters(set_str([Kind::FzStr, Kind::FzHash, Kind::FzOrd][r % 3], keys, &c.h).unwrap(), &want.keys().cloned().collect(), &plan) }
    }
}
fn plan() -> impl Strategy<Value = Vec<usize>> {
    proptest::collection::vec(0usize..700, 1..4)
}
fn main() {
    vh::runner::main("P07", vec![
        sub("ints", 12_000, 80_000, || (int_keys(300), plan(), any_hasher(), proptest::bool::weighted(0.1)).prop_map(|(keys, plan, h, narrow)| IntCase { keys, plan, h, narrow }), ints,
            "integer entry lists in every map and set type; every iterator kind is stepped with exact size checks at each step, and at planned points folded, counted, collected, cloned and skipped; non-trivial: at least 2 entries and a plan point strictly inside the iteration."),
        sub("strings", 7_500, 50_000, || (str_keys(200), plan(), good_hasher()).prop_map(|(keys, plan, h)| StrCase { keys, plan, h }), strs, "the same for string keys."),
        sub("bulk", 300, 4_000, || (mid(20_000), proptest::collection::vec(any::<u16>(), 1..3)).prop_map(|(c, plan)| BulkCase { c: Huge { h: HSpec::Fold(c.start as u64), ..c }, plan }), bulk, "the same for 200 to 16,390 distinct keys, one collection per case (same rule)."),
        sub("unit", 20_000, 100_000, || (0usize..6, proptest::collection::vec(any::<u8>(), 0..300)).prop_map(|(copies, keys)| UnitCase { copies, keys }), units, "entries, keys or values of no size: every iterator stepped with exact sizes; non-trivial: at least 2 keys."),
        sub("macro-built", 3_600, 20_000, || (0usize..280, plan()).prop_map(|(which, plan)| CatCase { which, plan }), cat, "the same for collections built by the macros (inline types), picked from a catalogue of about 140."),
    ]);
}
