#[path = "../catalog.rs"]
mod catalog;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use vh::facade::{BMap, BSet, Key, MQ, SQ, V};
use vh::big::*;
use vh::keys::*;
use vh::oracle::*;
use vh::runner::*;
use vh::{ensure, ensure_eq};

/// How the second collection differs from the first.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Diff {
    Same,
    /// one value changed
    Value { at: u16, xor: u64 },
    /// one key missing
    Less { at: u16 },
    /// a foreign key added
    More { pick: u16 },
    /// one key exchanged for a foreign one, same length
    Swap { at: u16, pick: u16 },
    /// two values exchanged
    Cross { at: u16, by: u16 },
    Empty,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct IntCase { keys: IntKeys, diff: Diff, order: u8, h: HSpec, kinds: (u8, u8) }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct StrCase { keys: StrKeys, diff: Diff, order: u8, h: HSpec, kinds: (u8, u8) }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct CatCase { which: usize, diff: Diff, order: u8, kind: u8 }

fn apply<K: Key>(m: &BTreeMap<K, V>, d: &Diff, foreign: &[K]) -> BTreeMap<K, V> {
    let mut r = m.clone();
    let n = m.len();
    let key = |i: u16| m.keys().nth(i as usize % n.max(1)).cloned();
    let f = |p: u16| foreign.get(p as usize % foreign.len().max(1)).cloned();
    match d {
        Diff::Same => {}
        Diff::Value { at, xor } => { if let Some(k) = key(*at) { *r.get_mut::<K>(&k).unwrap() ^= xor | 1; } }
        Diff::Less { at } => { if let Some(k) = key(*at) { r.remove::<K>(&k); } }
        Diff::More { pick } => { if let Some(k) = f(*pick) { r.insert(k, 5); } }
        Diff::Swap { at, pick } => {
            if let (Some(k), Some(g)) = (key(*at), f(*pick)) {
                let v = r.remove::<K>(&k).unwrap();
                r.insert(g, v);
            }
        }
        Diff::Cross { at, by } => {
            if let (Some(a), Some(b)) = (key(*at), key(at.wrapping_add(by % 7 + 1))) {
                let (x, y) = (r.get::<K>(&a).copied().unwrap(), r.get::<K>(&b).copied().unwrap());
                r.insert(a, y);
                r.insert(b, x);
            }
        }
        Diff::Empty => r.clear(),
    }
    r
}
/// Splits `{a, b, c}` at its top-level commas, minding string literals.
fn items(s: &str) -> Option<Vec<String>> {
    let s = s.strip_prefix('{')?.strip_suffix('}')?;
    let (mut out, mut cur, mut quoted, mut esc) = (vec![], String::new(), false, false);
    for c in s.chars() {
        if quoted {
            cur.push(c);
            if esc { esc = false } else if c == '\\' { esc = true } else if c == '"' { quoted = false }
        } else if c == ',' {
            out.push(cur.trim().to_string());
            cur = String::new();
        } else {
            quoted = c == '"';
            cur.push(c);
        }
    }
    if !cur.trim().is_empty() {
        out.push(cur.trim().to_string());
    }
    out.sort();
    Some(out)
}
fn debug_ok(nm: &str, got: (String, String), mut want: Vec<String>) -> Res {
    want.sort();
    let a = items(&got.0);
    ensure!(a.as_ref() == Some(&want), "{nm}: {{:?}} gives {}, expected the entries {want:?}", got.0);
    let b = items(&got.1);
    ensure!(b.as_ref() == Some(&want), "{nm}: {{:#?}} gives {}, expected the entries {want:?}", got.1);
    // one line per entry in the alternate form
    ensure!(want.is_empty() || got.1.lines().count() == want.len() + 2, "{nm}: {{:#?}} gives {}", got.1);
    Ok(())
}
fn two_maps<K: Key>(x: BMap<K>, y: BMap<K>, a: &BTreeMap<K, V>, b: &BTreeMap<K, V>) -> Res {
    let eq = a == b;
    let (x, y) = (MQ(x), MQ(y));
    let nm = format!("{} and {}", x.0.name(), y.0.name());
    ensure!(x.0.eq_any(&y) == eq, "{nm}: == is {}, contents {a:?} and {b:?}", !eq);
    ensure!(y.0.eq_any(&x) == eq, "{nm}: == the other way round is {}, contents {a:?} and {b:?}", !eq);
    ensure!(x.0.ne_any(&y) != eq && y.0.ne_any(&x) != eq, "{nm}: != disagrees with ==");
    let c = MQ(x.0.clone_box());
    ensure!(x.0.eq_any(&c) && c.0.eq_any(&x), "{}: not equal to its clone", x.0.name());
    for (m, w) in [(&x, a), (&y, b)] {
        debug_ok(&m.0.name(), m.0.dbg(), w.iter().map(|(k, v)| format!("{k:?}: {v:?}")).collect())?;
    }
    Ok(())
}
fn two_sets<K: Key>(x: BSet<K>, y: BSet<K>, a: &BTreeSet<K>, b: &BTreeSet<K>) -> Res {
    let eq = a == b;
    let (x, y) = (SQ(x.into()), SQ(y.into()));
    let nm = format!("{} and {}", x.0.name(), y.0.name());
    ensure!(x.0.eq_any(&y) == eq, "{nm}: == is {}, contents {a:?} and {b:?}", !eq);
    ensure!(y.0.eq_any(&x) == eq, "{nm}: == the other way round is {}, contents {a:?} and {b:?}", !eq);
    ensure!(x.0.ne_any(&y) != eq && y.0.ne_any(&x) != eq, "{nm}: != disagrees with ==");
    for (m, w) in [(&x, a), (&y, b)] {
        debug_ok(&m.0.name(), m.0.dbg(), w.iter().map(|k| format!("{k:?}")).collect())?;
    }
    Ok(())
}
fn observe<K: Ord>(a: &BTreeMap<K, V>, b: &BTreeMap<K, V>, d: &Diff, o: &mut Obs) {
    o.nontrivial_if(a.len() >= 2);
    o.label(if a == b { "equal" } else { "different" });
    let s = format!("{d:?}");
    o.label(s.split([' ', '(']).next().unwrap());
}
fn keyset<K: Ord + Clone>(m: &BTreeMap<K, V>) -> BTreeSet<K> {
    m.keys().cloned().collect()
}
fn ordered<K: Key>(m: &BTreeMap<K, V>, order: u8) -> Vec<(K, V)> {
    let mut v: Vec<(K, V)> = m.clone().into_iter().collect();
    reorder(&mut v, order);
    v
}
fn ints(c: &IntCase, o: &mut Obs) -> Res {
    let k = c.keys.expand();
    let e = number(k.clone());
    let a = model(&e);
    let foreign: Vec<i64> = int_probes(&k, &[]).into_iter().filter(|p| !a.contains_key(p)).collect();
    let b = apply(&a, &c.diff, &foreign);
    observe(&a, &b, &c.diff, o);
    let f = ordered(&b, c.order);
    let ka = INT_KINDS[c.kinds.0 as usize % INT_KINDS.len()];
    for kb in INT_KINDS {
        for (p, q) in [(ka, *kb), (*kb, *kb)] {
            if let (Some(x), Some(y)) = (map_scalar(p, e.clone(), &c.h), map_scalar(q, f.clone(), &HSpec::Fold(5))) {
                two_maps(x, y, &a, &b)?;
            }
        }
    }
    for p in [Kind::FzHash, Kind::FzOrd, Kind::FzScalar] {
        for q in [Kind::FzHash, Kind::FzOrd, Kind::FzScalar] {
            let (x, y) = (set_scalar(p, k.clone(), &c.h).unwrap(), set_scalar(q, f.iter().map(|x| x.0).collect(), &c.h).unwrap());
            two_sets(x, y, &keyset(&a), &keyset(&b))?;
        }
    }
    // standard collections on the right
    use frozen_collections::*;
    let (sh, sb): (std::collections::HashMap<i64, V>, hashbrown::HashMap<i64, V>) = (f.iter().copied().collect(), f.iter().copied().collect());
    let (fh, fo, fs) = (FzHashMap::new(e.clone()), FzOrderedMap::new(e.clone()), FzScalarMap::new(e));
    ensure_eq!([fh == sh, fh == b, fh == sb, fo == sh, fo == b, fo == sb, fs == sh, fs == b, fs == sb], [a == b; 9], "frozen maps == standard maps");
    let (th, tb) = (sh.keys().copied().collect::<std::collections::HashSet<_>>(), keyset(&b));
    let (gh, go, gs) = (FzHashSet::new(k.clone()), FzOrderedSet::new(k.clone()), FzScalarSet::new(k));
    ensure_eq!([gh == th, gh == tb, go == th, go == tb, gs == th, gs == tb], [keyset(&a) == tb; 6], "frozen sets == standard sets");
    Ok(())
}
fn strs(c: &StrCase, o: &mut Obs) -> Res {
    let k = c.keys.expand();
    let e = number(k.clone());
    let a = model(&e);
    let foreign: Vec<Box<str>> = str_probes(&k, &[]).into_iter().filter(|p| !a.contains_key::<Box<str>>(p)).collect();
    let b = apply(&a, &c.diff, &foreign);
    observe(&a, &b, &c.diff, o);
    let f = ordered(&b, c.order);
    let ka = STR_KINDS[c.kinds.0 as usize % STR_KINDS.len()];
    for kb in STR_KINDS {
        for (p, q) in [(ka, *kb), (*kb, *kb), (Kind::FzStr, *kb)] {
            if let (Some(x), Some(y)) = (map_str(p, e.clone(), &c.h), map_str(q, f.clone(), &HSpec::Fold(5))) {
                two_maps(x, y, &a, &b)?;
            }
        }
    }
    for p in [Kind::FzHash, Kind::FzOrd, Kind::FzStr] {
        for q in [Kind::FzHash, Kind::FzOrd, Kind::FzStr] {
            let (x, y) = (set_str(p, k.clone(), &c.h).unwrap(), set_str(q, f.iter().map(|x| x.0.clone()).collect(), &c.h).unwrap());
            two_sets(x, y, &keyset(&a), &keyset(&b))?;
        }
    }
    Ok(())
}
fn cat(c: &CatCase, o: &mut Obs) -> Res {
    let i = c.which / 4;
    match c.which % 4 {
        0 => {
            let mut v = catalog::int_maps();
            let n = v.len();
            let (m, e) = v.swap_remove(i % n);
            o.label(m.name().split('<').next().unwrap());
            let a = model(&e);
            let b = apply(&a, &c.diff, &int_probes(&e.iter().map(|x| x.0).collect::<Vec<_>>(), &[]).into_iter().filter(|p| !a.contains_key(p)).collect::<Vec<_>>());
            observe(&a, &b, &c.diff, o);
            let kinds = [Kind::FzHash, Kind::FzOrd, Kind::FzScalar, Kind::Scan];
            let y = map_scalar(kinds[c.kind as usize % 4], ordered(&b, c.order), &HSpec::Fold(1)).unwrap();
            two_maps(m, y, &a, &b)
        }
        1 => {
            let mut v = catalog::str_maps();
            let n = v.len();
            let (m, e) = v.swap_remove(i % n);
            o.label(m.name().split('<').next().unwrap());
            let a = model(&e);
            let b = apply(&a, &c.diff, &["foreign", "xx\u{7f}", "item-1"]);
            observe(&a, &b, &c.diff, o);
            let y = map_any([Kind::FzHash, Kind::FzOrd, Kind::Scan][c.kind as usize % 3], ordered(&b, c.order), &HSpec::Fold(1)).unwrap();
            two_maps(m, y, &a, &b)
        }
        2 => {
            let mut v = catalog::int_sets();
            let n = v.len();
            let (s, e) = v.swap_remove(i % n);
            o.label(s.name().split('<').next().unwrap());
            let a: BTreeMap<i64, V> = e.iter().map(|k| (*k, 0)).collect();
            let b = apply(&a, &c.diff, &int_probes(&e, &[]).into_iter().filter(|p| !a.contains_key(p)).collect::<Vec<_>>());
            observe(&a, &b, &c.diff, o);
            let y = set_scalar([Kind::FzHash, Kind::FzOrd, Kind::FzScalar][c.kind as usize % 3], ordered(&b, c.order).into_iter().map(|x| x.0).collect(), &HSpec::Fold(1)).unwrap();
            two_sets(s, y, &keyset(&a), &keyset(&b))
        }
        _ => {
            let mut v = catalog::str_sets();
            let n = v.len();
            let (s, e) = v.swap_remove(i % n);
            o.label(s.name().split('<').next().unwrap());
            let a: BTreeMap<&'static str, V> = e.iter().map(|k| (*k, 0)).collect();
            let b = apply(&a, &c.diff, &["foreign", "xx\u{7f}", "item-1"]);
            observe(&a, &b, &c.diff, o);
            let y = set_any([Kind::FzHash, Kind::FzOrd][c.kind as usize % 2], ordered(&b, c.order).into_iter().map(|x| x.0).collect(), &HSpec::Fold(1)).unwrap();
            two_sets(s, y, &keyset(&a), &keyset(&b))
        }
    }
}
/// Values with an equality of their own: not every value equals itself, and different ones may be equal.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct FloatCase { start: i64, step: i64, a: Vec<u8>, b: Vec<u8>, other: bool }
fn float(x: u8) -> f64 {
    [1.0, 2.0, 0.0, -0.0, f64::INFINITY, f64::NAN][x as usize % 6]
}
fn floats(c: &FloatCase, o: &mut Obs) -> Res {
    use frozen_collections::*;
    use frozen_collections_core::maps::*;
    let key = |i: usize| c.start.wrapping_add(c.step.wrapping_mul(i as i64));
    let a: Vec<(i64, f64)> = c.a.iter().enumerate().map(|(i, v)| (key(i), float(*v))).collect();
    let b: Vec<(i64, f64)> = if c.other { c.b.iter().enumerate().map(|(i, v)| (key(i), float(*v))).rev().collect() } else { a.iter().rev().copied().collect() };
    let (ma, mb): (BTreeMap<i64, f64>, BTreeMap<i64, f64>) = (a.iter().copied().collect(), b.iter().copied().collect());
    let (same, other) = (ma == ma, ma == mb);
    o.nontrivial_if(ma.len() >= 2);
    o.label(match (same, other) { (true, true) => "equal", (true, false) => "different", (false, _) => "unequal to itself" });
    macro_rules! one {
        ($($t:expr => $u:expr),* $(,)?) => {$({
            let (x, y) = ($t, $u);
            ensure_eq!([x == x, x != x, x == x.clone(), x == ma], [same, !same, same, same], "{} compared with itself, itself (!=), a clone, the same BTreeMap: {:?}", stringify!($t), ma);
            ensure_eq!([x == y, x != y, y == x, x == mb, y == ma], [other, !other, other, other, other], "{} and {}: {:?} and {:?}", stringify!($t), stringify!($u), ma, mb);
        })*};
    }
    let text = |v: &[(i64, f64)]| v.iter().map(|(k, v)| (k.to_string(), *v)).collect::<Vec<_>>();
    one!(
        FzHashMap::new(a.clone()) => FzHashMap::new(b.clone()),
        FzHashMap::new(a.clone()) => FzOrderedMap::new(b.clone()),
        FzOrderedMap::new(a.clone()) => FzScalarMap::new(b.clone()),
        FzScalarMap::new(a.clone()) => FzHashMap::new(b.clone()),
        FzScalarMap::new(a.clone()) => FzScalarMap::new(b.clone()),
        ScanMap::new(a.clone()) => EytzingerSearchMap::new(b.clone()),
        EytzingerSearchMap::new(a.clone()) => ScanMap::new(b.clone()),
    );
    if ma.iter().next_back().zip(ma.iter().next()).is_none_or(|(y, x)| i128::from(*y.0) - i128::from(*x.0) < 10_000) {
        one!(SparseScalarLookupMap::new(a.clone()) => FzHashMap::new(b.clone()));
    }
    if let (Ok(x), Ok(y)) = (DenseScalarLookupMap::new(a.clone()), DenseScalarLookupMap::new(b.clone())) {
        one!(x.clone() => y.clone());
    }
    let (x, y) = (FzStringMap::<Box<str>, f64>::from_iter(text(&a)), FzStringMap::<Box<str>, f64>::from_iter(text(&b)));
    ensure_eq!([x == x, x != x, x == x.clone()], [same, !same, same], "FzStringMap compared with itself, itself (!=), a clone: {:?}", ma);
    ensure_eq!([x == y, y == x, x != y], [other, other, !other], "FzStringMap: {:?} and {:?}", ma, mb);
    Ok(())
}
/// Thousands of entries that differ in one place at most.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct BulkCase { c: Huge, diff: Diff, kinds: (u8, u8) }
fn bulk(b: &BulkCase, o: &mut Obs) -> Res {
    let c = &b.c;
    let (keys, absent) = c.keys();
    fn go<K: Key>(b: &BulkCase, keys: Vec<K>, foreign: Vec<K>, o: &mut Obs, maps: &[Kind], sets: &[Kind], mk: fn(Kind, Vec<(K, V)>, &HSpec) -> Option<BMap<K>>, mks: fn(Kind, Vec<K>, &HSpec) -> Option<BSet<K>>) -> Res {
        let e = number(keys.clone());
        let a = model(&e);
        let foreign: Vec<K> = foreign.into_iter().filter(|k| !a.contains_key::<K>(k)).collect();
        let w = apply(&a, &b.diff, &foreign);
        observe(&a, &w, &b.diff, o);
        let f = ordered(&w, b.c.order);
        let (i, j) = (b.kinds.0 as usize, b.kinds.1 as usize);
        if b.c.which & 4 == 0 {
            let eq = a == w;
            let (x, y) = (mk(maps[i % maps.len()], e.clone(), &b.c.h).or_else(|| mk(maps[0], e, &b.c.h)), mk(maps[j % maps.len()], f.clone(), &HSpec::Fold(5)).or_else(|| mk(maps[0], f, &HSpec::Fold(5))));
            let (x, y) = (MQ(x.unwrap()), MQ(y.unwrap()));
            let nm = format!("{} of {} entries and {} of {}", x.0.name(), a.len(), y.0.name(), w.len());
            ensure!(x.0.eq_any(&y) == eq && y.0.eq_any(&x) == eq, "{nm}: == is {} and {} the other way round, expected {eq} ({:?})", x.0.eq_any(&y), y.0.eq_any(&x), b.diff);
            ensure!(x.0.ne_any(&y) != eq && y.0.ne_any(&x) != eq, "{nm}: != disagrees with ==");
            let k = MQ(x.0.clone_box());
            ensure!(x.0.eq_any(&k) && k.0.eq_any(&x), "{nm}: the first is not equal to its clone");
            if a.len() <= 5000 { debug_ok(&nm, x.0.dbg(), a.iter().map(|(k, v)| format!("{k:?}: {v:?}")).collect())?; }
        } else {
            let eq = a.keys().eq(w.keys());
            let (x, y) = (SQ(mks(sets[i % sets.len()], keys, &b.c.h).unwrap().into()), SQ(mks(sets[j % sets.len()], f.into_iter().map(|x| x.0).collect(), &HSpec::Fold(5)).unwrap().into()));
            let nm = format!("{} of {} values and {} of {}", x.0.name(), a.len(), y.0.name(), w.len());
            ensure!(x.0.eq_any(&y) == eq && y.0.eq_any(&x) == eq, "{nm}: == is {} and {} the other way round, expected {eq} ({:?})", x.0.eq_any(&y), y.0.eq_any(&x), b.diff);
            ensure!(x.0.ne_any(&y) != eq && y.0.ne_any(&x) != eq, "{nm}: != disagrees with ==");
            if a.len() <= 5000 { debug_ok(&nm, x.0.dbg(), a.keys().map(|k| format!("{k:?}")).collect())?; }
        }
        Ok(())
    }
    if c.which & 1 == 0 {
        go::<i64>(b, keys, absent, o, &[Kind::FzHash, Kind::CoreHashL, Kind::CoreHashM, Kind::FzOrd, Kind::Eytz, Kind::FzScalar, Kind::Sparse, Kind::Dense], &[Kind::FzHash, Kind::FzOrd, Kind::FzScalar], map_scalar, set_scalar)
    } else {
        let t = |v: Vec<i64>| v.into_iter().map(|k| c.text(k)).collect();
        go::<Box<str>>(b, t(keys), t(absent), o, &[Kind::FzStr, Kind::FzHash, Kind::FzOrd], &[Kind::FzStr, Kind::FzHash, Kind::FzOrd], map_str, set_str)
    }
}
fn diff() -> impl Strategy<Value = Diff> {
    prop_oneof![
        3 => Just(Diff::Same),
        2 => any::<(u16, u64)>().prop_map(|(at, xor)| Diff::Value { at, xor }),
        2 => any::<u16>().prop_map(|at| Diff::Less { at }),
        2 => any::<u16>().prop_map(|pick| Diff::More { pick }),
        2 => any::<(u16, u16)>().prop_map(|(at, pick)| Diff::Swap { at, pick }),
        1 => any::<(u16, u16)>().prop_map(|(at, by)| Diff::Cross { at, by }),
        1 => Just(Diff::Empty),
    ]
}
fn main() {
    vh::runner::main("P11", vec![
        sub("ints", 15_000, 100_000, || (int_keys(100), diff(), any::<u8>(), any_hasher(), any::<(u8, u8)>()).prop_map(|(keys, diff, order, h, kinds)| IntCase { keys, diff, order, h, kinds }), ints,
            "pairs of integer collections differing by nothing, one value, one missing, added or exchanged key, in other insertion orders, across all map/set types and standard collections: == and != in both directions against BTreeMap equality, and both debug forms parsed back as an entry multiset; non-trivial: at least 2 entries."),
        sub("strings", 7_500, 50_000, || (str_keys(50), diff(), any::<u8>(), any_hasher(), any::<(u8, u8)>()).prop_map(|(keys, diff, order, h, kinds)| StrCase { keys, diff, order, h, kinds }), strs, "the same for string keys (including quotes, escapes and newlines)."),
        sub("floats", 60_000, 800_000, || (prop_oneof![Just(0i64), edge(), any::<i64>()], prop_oneof![3 => Just(1i64), 1 => 2i64..20, 1 => Just(1 << 33)], proptest::collection::vec(prop_oneof![6 => 0u8..5, 1 => Just(5u8)], 0..12), proptest::collection::vec(0u8..6, 0..12), any::<bool>()).prop_map(|(start, step, a, b, other)| FloatCase { start, step, a, b, other }), floats,
            "maps whose values have an equality of their own (NaN, both zeros): each compared with itself, a clone, another map and standard maps, against BTreeMap equality; non-trivial: at least 2 entries."),
        sub("bulk", 800, 8_000, || (mid(65_545), diff(), any::<(u8, u8)>()).prop_map(|(c, diff, kinds)| BulkCase { c: Huge { h: HSpec::Fold(c.start as u64), ..c }, diff, kinds }), bulk, "pairs of 200 to 65,545 entries, one pair of types per case, that differ in at most one place (same oracle; the debug form up to 5,000 entries)."),
        sub("macro-built", 6_000, 40_000, || (0usize..280, diff(), any::<u8>(), any::<u8>()).prop_map(|(which, diff, order, kind)| CatCase { which, diff, order, kind }), cat, "the same for macro-built collections against frozen ones."),
    ]);
}
