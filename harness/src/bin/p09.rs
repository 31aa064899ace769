#[path = "../catalog.rs"]
mod catalog;
use frozen_collections::MapExtras;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::hash::Hash;
use vh::ensure;
use vh::facade::{BMap, Key, V};
use vh::keys::*;
use vh::oracle::*;
use vh::runner::*;

/// A requested key: `present` picks a stored key, otherwise an absent one; the tag makes equal keys different queries.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pick { present: bool, at: u16, tag: u8 }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Call { picks: Vec<Pick>, route: u8, mode: u8 }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct IntCase { keys: IntKeys, calls: Vec<Call>, h: HSpec }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct StrCase { keys: StrKeys, calls: Vec<Call>, h: HSpec }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct CatCase { which: usize, calls: Vec<Call> }

fn judge<K: Key>(nm: &str, got: Result<Vec<Option<&mut V>>, String>, q: &[(K, u8)], want: &mut BTreeMap<K, V>, o: &mut Obs, salt: u64) -> Res {
    let present_twice = q.iter().enumerate().any(|(i, (k, _))| want.contains_key::<K>(k) && q[..i].iter().any(|(j, _)| j == k));
    let repeated = q.iter().enumerate().any(|(i, (k, _))| q[..i].iter().any(|(j, _)| j == k));
    match got {
        Err(p) => {
            ensure!(present_twice || repeated, "{nm}: panicked for distinct keys {q:?}: {p}");
            o.label("panicked for repeated keys");
            Ok(())
        }
        Ok(v) => {
            ensure!(v.len() == q.len(), "{nm}: {} results for {} keys", v.len(), q.len());
            let ptrs: Vec<*const V> = v.iter().flatten().map(|x| &**x as *const V).collect();
            let mut d = ptrs.clone();
            d.sort();
            d.dedup();
            ensure!(d.len() == ptrs.len(), "{nm}: two references to one value for {q:?}");
            ensure!(!present_twice, "{nm}: did not panic although two keys of {q:?} identify one entry");
            for (i, ((k, _), r)) in q.iter().zip(v).enumerate() {
                match (r, want.get_mut::<K>(k)) {
                    (None, None) => {}
                    (Some(a), Some(w)) => {
                        ensure!(*a == *w, "{nm}: position {i} ({k:?}) refers to {a}, expected {w}");
                        *a = salt.wrapping_mul(31).wrapping_add(i as u64 * 7 + 1);
                        *w = *a;
                    }
                    (a, w) => return Err(format!("{nm}: position {i} ({k:?}) is {a:?}, expected {w:?}")),
                }
            }
            o.label("returned references");
            Ok(())
        }
    }
}
fn run<K: Key>(mut m: BMap<K>, want: &BTreeMap<K, V>, absent: &[K], calls: &[Call], o: &mut Obs) -> Res {
    let nm = m.name();
    let mut want = want.clone();
    let keys: Vec<K> = want.keys().cloned().collect();
    for (ci, c) in calls.iter().enumerate() {
        let mut q: Vec<(K, u8)> = vec![];
        for p in &c.picks {
            let src = if p.present && !keys.is_empty() || absent.is_empty() { &keys } else { absent };
            if let Some(k) = src.get(p.at as usize % src.len().max(1)) {
                q.push((k.clone(), p.tag));
            }
        }
        if q.len() > 6 && q.len() != 12 {
            q.truncate(6);
        }
        let salt = ci as u64 * 1000 + 17;
        match c.mode % 3 {
            0 => {
                let ks: Vec<&K> = q.iter().map(|x| &x.0).collect();
                let got = guarded(|| m.disjoint(c.route, false, &ks));
                judge(&format!("{nm}::get_disjoint_mut"), got, &q, &mut want, o, salt)?;
            }
            1 => {
                // another query type; equal keys with different tags are not equal as queries
                let al: Vec<K::Alt> = q.iter().map(|x| x.0.tagged(x.1)).collect();
                let ks: Vec<&K::Alt> = al.iter().collect();
                let got = guarded(|| m.disjoint_alt(c.route, &ks));
                judge(&format!("{nm}::get_disjoint_mut (equivalent keys)"), got, &q, &mut want, o, salt)?;
            }
            _ => {
                // the unchecked form is only defined for distinct keys
                let mut u: Vec<(K, u8)> = vec![];
                for x in &q {
                    if !u.iter().any(|y| y.0 == x.0) {
                        u.push(x.clone());
                    }
                }
                u.truncate(6);
                let ks: Vec<&K> = u.iter().map(|x| &x.0).collect();
                let got = guarded(|| m.disjoint(c.route, true, &ks));
                judge(&format!("{nm}::get_disjoint_unchecked_mut"), got, &u, &mut want, o, salt)?;
            }
        }
        contents(&*m, &want).map_err(|e| format!("after call {ci} on {q:?}: {e}"))?;
    }
    Ok(())
}
/// Standard maps through the trait.
fn std_maps<K: Key>(want: &BTreeMap<K, V>, absent: &[K], calls: &[Call], o: &mut Obs) -> Res {
    fn one<K: Key, M: MapExtras<K, V, K>>(nm: &str, mut m: M, want: &BTreeMap<K, V>, absent: &[K], calls: &[Call], o: &mut Obs, get: fn(&M, &K) -> Option<V>) -> Res {
        let keys: Vec<K> = want.keys().cloned().collect();
        let mut want = want.clone();
        for (ci, c) in calls.iter().enumerate() {
            let q: Vec<(K, u8)> = c.picks.iter().take(3).filter_map(|p| { let src = if p.present { &keys } else { absent }; src.get(p.at as usize % src.len().max(1)).map(|k| (k.clone(), 0)) }).collect();
            if q.len() < 3 {
                continue;
            }
            let got = guarded(|| Vec::from(m.get_disjoint_mut([&q[0].0, &q[1].0, &q[2].0])));
            judge(nm, got, &q, &mut want, o, ci as u64 + 99)?;
            for (k, v) in &want {
                ensure!(get(&m, k) == Some(*v), "{nm}: after {q:?}, {k:?} is {:?}, expected {v}", get(&m, k));
            }
        }
        Ok(())
    }
    let e: Vec<(K, V)> = want.iter().map(|(k, v)| (k.clone(), *v)).collect();
    fn f<K: Key + Hash>(m: &std::collections::HashMap<K, V>, k: &K) -> Option<V> { m.get::<K>(k).copied() }
    fn g<K: Key + Hash>(m: &hashbrown::HashMap<K, V>, k: &K) -> Option<V> { m.get::<K>(k).copied() }
    fn b<K: Key>(m: &BTreeMap<K, V>, k: &K) -> Option<V> { m.get::<K>(k).copied() }
    one("std BTreeMap", want.clone(), want, absent, calls, o, b)?;
    one("std HashMap", e.iter().cloned().collect::<std::collections::HashMap<K, V>>(), want, absent, calls, o, f)?;
    one("hashbrown HashMap", e.into_iter().collect::<hashbrown::HashMap<K, V>>(), want, absent, calls, o, g)
}
fn observe(n: usize, calls: &[Call], o: &mut Obs) {
    o.nontrivial_if(n >= 2 && calls.iter().any(|c| c.picks.iter().filter(|p| p.present).count() >= 2));
    o.label(match n { 0 => "empty", 1 => "one", 2..=7 => "len<8", 8..=255 => "len<256", _ => "len>=256" });
}
fn ints(c: &IntCase, o: &mut Obs) -> Res {
    let k = c.keys.expand();
    let e = number(k.clone());
    let want = model(&e);
    let absent: Vec<i64> = int_probes(&k, &[]).into_iter().filter(|p| !want.contains_key(p)).collect();
    observe(want.len(), &c.calls, o);
    for kind in INT_KINDS {
        if let Some(m) = map_scalar(*kind, e.clone(), &c.h) {
            run(m, &want, &absent, &c.calls, o)?;
        }
    }
    std_maps(&want, &absent, &c.calls, o)
}
fn strs(c: &StrCase, o: &mut Obs) -> Res {
    let k = c.keys.expand();
    let e = number(k.clone());
    let want = model(&e);
    let absent: Vec<Box<str>> = str_probes(&k, &[]).into_iter().filter(|p| !want.contains_key::<Box<str>>(p)).collect();
    observe(want.len(), &c.calls, o);
    for kind in STR_KINDS {
        if let Some(m) = map_str(*kind, e.clone(), &c.h) {
            run(m, &want, &absent, &c.calls, o)?;
        }
    }
    std_maps(&want, &absent, &c.calls, o)
}
fn cat(c: &CatCase, o: &mut Obs) -> Res {
    let i = c.which / 2;
    if c.which % 2 == 0 {
        let mut v = catalog::int_maps();
        let n = v.len();
        let (m, e) = v.swap_remove(i % n);
        observe(e.len(), &c.calls, o);
        o.label(m.name().split('<').next().unwrap());
        let want = model(&e);
        let absent: Vec<i64> = int_probes(&e.iter().map(|x| x.0).collect::<Vec<_>>(), &[]).into_iter().filter(|p| !want.contains_key(p)).collect();
        run(m, &want, &absent, &c.calls, o)
    } else {
        let mut v = catalog::str_maps();
        let n = v.len();
        let (m, e) = v.swap_remove(i % n);
        observe(e.len(), &c.calls, o);
        o.label(m.name().split('<').next().unwrap());
        let want = model(&e);
        run(m, &want, &["absent", "", "x", "common-head-\u{1}", "item9999"].into_iter().filter(|k| !want.contains_key(k)).collect::<Vec<_>>(), &c.calls, o)
    }
}
// ------------------------------------------------------------------ many keys; values of any size, zero included
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Many { n: u8, stride: u8, kind: u8, shape: u8, order: u8, count: u8, at: Vec<u16>, same: Option<(u16, u16)>, unit: bool, inherent: bool }
trait Val: Clone + PartialEq + std::fmt::Debug + 'static { fn of(i: u64) -> Self; }
impl Val for () { fn of(_: u64) {} }
impl Val for u64 { fn of(i: u64) -> u64 { i * 31 + 5 } }
impl Val for [u8; 3] { fn of(i: u64) -> [u8; 3] { [i as u8, (i >> 8) as u8, 7] } }

fn many_of<X: Val>(c: &Many, o: &mut Obs) -> Res {
    let mut keys: Vec<i64> = (0..i64::from(c.n)).map(|i| 100 + i * (i64::from(c.stride) + 1)).collect();
    let stored = keys.clone();
    reorder(&mut keys, c.order);
    let e: Vec<(i64, X)> = keys.iter().map(|k| (*k, X::of(*k as u64))).collect();
    let count = [2usize, 9, 10, 12, 16, 17, 24, 40, 64][c.count as usize % 9];
    // distinct requests, absent ones between; then perhaps one position repeats another
    let mut q: Vec<i64> = vec![];
    let mut pool: Vec<i64> = stored.clone();
    for i in 0..count {
        let r = *c.at.get(i).unwrap_or(&(i as u16)) as usize;
        if pool.is_empty() || (r % 5 == 4 && c.shape % 2 == 1) { q.push(-(i as i64) - 1); } else { let x = pool.remove(r % pool.len()); q.push(x); }
    }
    if let Some((a, b)) = c.same { let (a, b) = (a as usize % count, b as usize % count); if a != b { q[b] = q[a]; } }
    let dup = (0..count).any(|i| q[..i].contains(&q[i]) && stored.contains(&q[i]));
    let rep = (0..count).any(|i| q[..i].contains(&q[i]));
    o.nontrivial_if(c.n >= 2 && count >= 2);
    o.label(if dup { "present key repeated" } else if rep { "absent key repeated" } else { "distinct" });
    o.label(std::any::type_name::<X>());
    macro_rules! call { ($nm:expr, $m:expr, $n:literal) => {{
        let mut m = $m;
        let ks: [&i64; $n] = std::array::from_fn(|i| &q[i]);
        let r = guarded(|| {
            let r = if c.inherent { m.get_disjoint_mut(ks) } else { MapExtras::<i64, X, i64>::get_disjoint_mut(&mut m, ks) };
            Vec::from(r).into_iter().map(|x| x.map(|x| (x as *mut X as usize, x.clone()))).collect::<Vec<_>>()
        });
        match r {
            Err(p) => ensure!(rep, "{}::get_disjoint_mut panicked for {} distinct keys: {p}", $nm, count),
            Ok(v) => {
                ensure!(!dup, "{}::get_disjoint_mut of {count} keys ({}) did not panic although a present key is requested twice: {q:?}", $nm, std::any::type_name::<X>());
                for (k, r) in q.iter().zip(&v) {
                    let w = stored.contains(k).then(|| X::of(*k as u64));
                    ensure!(r.as_ref().map(|x| x.1.clone()) == w, "{}::get_disjoint_mut: {k} is {r:?}, expected {w:?}", $nm);
                }
                if std::mem::size_of::<X>() > 0 {
                    let mut p: Vec<usize> = v.iter().flatten().map(|x| x.0).collect();
                    let n = p.len();
                    p.sort();
                    p.dedup();
                    ensure!(p.len() == n, "{}::get_disjoint_mut: two references to one value", $nm);
                }
            }
        }
        for k in &stored { ensure!(m.get(k) == Some(&X::of(*k as u64)), "{}: changed by the call", $nm); }
    }}; }
    macro_rules! each { ($nm:expr, $m:expr) => { match count { 2 => call!($nm, $m, 2), 9 => call!($nm, $m, 9), 10 => call!($nm, $m, 10), 12 => call!($nm, $m, 12), 16 => call!($nm, $m, 16), 17 => call!($nm, $m, 17), 24 => call!($nm, $m, 24), 40 => call!($nm, $m, 40), _ => call!($nm, $m, 64) } }; }
    use frozen_collections as fz;
    use frozen_collections_core as fzc;
    o.label(["FzHashMap", "FzOrderedMap", "FzScalarMap", "ScanMap", "EytzingerSearchMap", "SparseScalarLookupMap", "DenseScalarLookupMap", "maps::HashMap"][c.kind as usize % 8]);
    match c.kind % 8 {
        0 => each!("FzHashMap", fz::FzHashMap::<i64, X, DynBH>::with_hasher(e, DynBH(HSpec::Fold(3)))),
        1 => each!("FzOrderedMap", fz::FzOrderedMap::new(e)),
        2 => each!("FzScalarMap", fz::FzScalarMap::new(e)),
        3 => each!("ScanMap", fzc::maps::ScanMap::new(e)),
        4 => each!("EytzingerSearchMap", fzc::maps::EytzingerSearchMap::new(e)),
        5 => each!("SparseScalarLookupMap", fzc::maps::SparseScalarLookupMap::new(e)),
        6 => { if c.stride == 0 { each!("DenseScalarLookupMap", fzc::maps::DenseScalarLookupMap::new(e).unwrap()) } }
        _ => each!("maps::HashMap", fzc::maps::HashMap::<i64, X, fzc::traits::LargeCollection, _>::with_hasher(e, fzc::hashers::BridgeHasher::new(DynBH(HSpec::Fold(1)))).unwrap()),
    }
    Ok(())
}
fn many(c: &Many, o: &mut Obs) -> Res {
    match (c.unit, c.shape % 3) { (true, _) => many_of::<()>(c, o), (_, 0) => many_of::<[u8; 3]>(c, o), _ => many_of::<u64>(c, o) }
}
fn manys() -> impl Strategy<Value = Many> {
    (prop_oneof![3 => 0u8..12, 2 => 12u8..80], prop_oneof![2 => Just(0u8), 1 => 0u8..9], any::<u8>(), any::<u8>(), 0u8..8, any::<u8>(), proptest::collection::vec(any::<u16>(), 0..64), prop_oneof![1 => Just(None), 2 => any::<(u16, u16)>().prop_map(Some)], any::<bool>(), any::<bool>())
        .prop_map(|(n, stride, kind, shape, order, count, at, same, unit, inherent)| Many { n, stride, kind, shape, order, count, at, same, unit, inherent })
}
fn calls() -> impl Strategy<Value = Vec<Call>> {
    // few distinct positions, so that repeats are frequent
    let pick = (proptest::bool::weighted(0.75), prop_oneof![2 => 0u16..4, 1 => any::<u16>()], 0u8..3).prop_map(|(present, at, tag)| Pick { present, at, tag });
    let picks = prop_oneof![8 => proptest::collection::vec(pick.clone(), 0..7), 1 => proptest::collection::vec(pick, 12)];
    let distinct = (1u16..9, any::<u16>(), 0usize..7).prop_map(|(step, base, n)| (0..n as u16).map(|i| Pick { present: i % 4 != 3, at: base.wrapping_add(i * step), tag: 0 }).collect::<Vec<_>>());
    let call = (prop_oneof![picks.boxed(), distinct.boxed()], any::<u8>(), any::<u8>()).prop_map(|(picks, route, mode)| Call { picks, route, mode });
    proptest::collection::vec(call, 1..10)
}
fn main() {
    vh::runner::main("P09", vec![
        sub("ints", 50_000, 150_000, || (int_keys(120), calls(), any_hasher()).prop_map(|(keys, calls, h)| IntCase { keys, calls, h }), ints,
            "sequences of get_disjoint_mut calls (0 to 6, or 12, keys; present, absent, repeated, and different query keys equivalent to one entry) on every map type and the standard maps: references distinct, right position, written through and re-read; a repeat of a present key must panic and change nothing; non-trivial: at least 2 entries and a call with at least 2 present keys."),
        sub("strings", 30_000, 80_000, || (str_keys(60), calls(), good_hasher()).prop_map(|(keys, calls, h)| StrCase { keys, calls, h }), strs, "the same for string keys."),
        sub("many", 60_000, 600_000, manys, many, "2 to 64 keys requested at once, all different or with one repeated at any distance, with values of size zero, three and eight, on every run-time map: a repeat of a present key panics and changes nothing, otherwise every position is right; non-trivial: at least 2 entries and 2 requested keys."),
        sub("macro-built", 15_000, 30_000, || (0usize..140, calls()).prop_map(|(which, calls)| CatCase { which, calls }), cat, "the same for maps built by the macros (inline types)."),
    ]);
}
