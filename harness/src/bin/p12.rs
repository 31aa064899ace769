#[path = "../catalog.rs"]
mod catalog;
use frozen_collections::*;
use proptest::prelude::*;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use vh::facade::{Key, V};
use vh::big::*;
use vh::keys::*;
use vh::oracle::*;
use vh::runner::*;
use vh::{ensure, ensure_eq};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct IntCase { ty: u8, keys: IntKeys, texts: Vec<String>, h: HSpec }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct StrCase { keys: StrKeys, texts: Vec<String>, h: HSpec }

/// Nested payloads.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
struct Pay { n: u64, text: Option<String>, list: Vec<i16>, inner: BTreeMap<String, Vec<u8>> }

/// A reader that hands out a few bytes at a time and lends nothing.
struct Drip<'a>(&'a [u8], usize);
impl std::io::Read for Drip<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.1 += 1;
        let n = (self.1 % 3 + 1).min(b.len()).min(self.0.len());
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}
type Enc<T> = fn(&T) -> Result<Vec<u8>, String>;
type Dec<T> = fn(&[u8]) -> Result<T, String>;
fn s(e: impl ToString) -> String {
    e.to_string()
}
fn encs<T: Serialize>() -> Vec<(&'static str, Enc<T>)> {
    vec![
        ("json", |t| serde_json::to_vec(t).map_err(s)),
        ("json", |t| serde_json::to_vec_pretty(t).map_err(s)),
        ("json", |t| serde_json::to_vec(&serde_json::to_value(t).map_err(s)?).map_err(s)),
        ("bincode", |t| bincode::serialize(t).map_err(s)),
        ("cbor", |t| {
            let mut v = vec![];
            ciborium::into_writer(t, &mut v).map_err(s)?;
            Ok(v)
        }),
    ]
}
fn decs<T: DeserializeOwned>() -> Vec<(&'static str, &'static str, Dec<T>)> {
    vec![
        ("json", "from_slice", |b| serde_json::from_slice(b).map_err(s)),
        ("json", "from_str", |b| serde_json::from_str(std::str::from_utf8(b).map_err(s)?).map_err(s)),
        ("json", "from_reader", |b| serde_json::from_reader(Drip(b, 0)).map_err(s)),
        ("json", "from_value", |b| serde_json::from_value(serde_json::from_slice::<serde_json::Value>(b).map_err(s)?).map_err(s)),
        ("bincode", "deserialize", |b| bincode::deserialize(b).map_err(s)),
        ("bincode", "deserialize_from", |b| bincode::deserialize_from(Drip(b, 0)).map_err(s)),
        ("cbor", "from_reader", |b| ciborium::from_reader(Drip(b, 0)).map_err(s)),
    ]
}
/// `from` in every format, read back as `T` by every reader, has contents `want`.
fn exchange<S: Serialize, T: DeserializeOwned, M: PartialEq + Debug>(what: &str, from: &S, to_model: fn(T) -> M, want: &M) -> Res {
    for (f, enc) in encs::<S>() {
        let bytes = enc(from).map_err(|e| format!("{what}: serializing as {f}: {e}"))?;
        for (g, how, dec) in decs::<T>() {
            if f == g {
                let t = dec(&bytes).map_err(|e| format!("{what}: {f} {how} of {:?}: {e}", String::from_utf8_lossy(&bytes)))?;
                let m = to_model(t);
                ensure!(m == *want, "{what}: {f} {how} gives {m:?}, expected {want:?}");
            }
        }
    }
    Ok(())
}
fn m_of<K: Ord, X, T: IntoIterator<Item = (K, X)>>(t: T) -> (usize, BTreeMap<K, X>) {
    let v: Vec<(K, X)> = t.into_iter().collect();
    (v.len(), v.into_iter().collect())
}
fn s_of<K: Ord, T: IntoIterator<Item = K>>(t: T) -> (usize, BTreeSet<K>) {
    let v: Vec<K> = t.into_iter().collect();
    (v.len(), v.into_iter().collect())
}
macro_rules! map_all {
    ($fz:ty, $k:ty, $x:ty, $val:expr, $model:expr, $name:literal) => {{
        let (v, w) = (&$val, (($model).len(), $model.clone()));
        exchange::<$fz, $fz, _>(concat!($name, " round trip"), v, m_of, &w)?;
        exchange::<$fz, BTreeMap<$k, $x>, _>(concat!($name, " to BTreeMap"), v, m_of, &w)?;
        exchange::<$fz, std::collections::HashMap<$k, $x>, _>(concat!($name, " to HashMap"), v, m_of, &w)?;
        exchange::<BTreeMap<$k, $x>, $fz, _>(concat!("BTreeMap to ", $name), &w.1, m_of, &w)?;
        let h: std::collections::HashMap<$k, $x> = w.1.clone().into_iter().collect();
        exchange::<std::collections::HashMap<$k, $x>, $fz, _>(concat!("HashMap to ", $name), &h, m_of, &w)?;
        let back: $fz = serde_json::from_slice(&serde_json::to_vec(v).map_err(s)?).map_err(s)?;
        ensure!(back == *v, concat!($name, ": the round trip is not equal to the original"));
    }};
}
macro_rules! set_all {
    ($fz:ty, $k:ty, $val:expr, $model:expr, $name:literal) => {{
        let (v, w) = (&$val, (($model).len(), $model.clone()));
        exchange::<$fz, $fz, _>(concat!($name, " round trip"), v, s_of, &w)?;
        exchange::<$fz, BTreeSet<$k>, _>(concat!($name, " to BTreeSet"), v, s_of, &w)?;
        exchange::<$fz, Vec<$k>, _>(concat!($name, " to Vec"), v, s_of, &w)?;
        exchange::<BTreeSet<$k>, $fz, _>(concat!("BTreeSet to ", $name), &w.1, s_of, &w)?;
        let back: $fz = serde_json::from_slice(&serde_json::to_vec(v).map_err(s)?).map_err(s)?;
        ensure!(back == *v, concat!($name, ": the round trip is not equal to the original"));
    }};
}
fn pay(i: usize, texts: &[String]) -> Pay {
    let t = |j: usize| texts.get(j % texts.len().max(1)).cloned();
    Pay { n: (i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15), text: if i % 3 == 0 { None } else { t(i) }, list: (0..i % 4).map(|x| x as i16 - 1).collect(), inner: (0..i % 3).filter_map(|j| t(i + j)).map(|s| (s.clone(), s.into_bytes())).collect() }
}
fn any_kinds<K: Key + DeserializeOwned>(keys: &[K], texts: &[String]) -> Res {
    let e: Vec<(K, Pay)> = keys.iter().cloned().enumerate().map(|(i, k)| (k, pay(i, texts))).collect();
    let m: BTreeMap<K, Pay> = e.iter().cloned().collect();
    let ks: BTreeSet<K> = m.keys().cloned().collect();
    map_all!(FzHashMap<K, Pay>, K, Pay, FzHashMap::new(e.clone()), m, "FzHashMap");
    map_all!(FzOrderedMap<K, Pay>, K, Pay, FzOrderedMap::new(e), m, "FzOrderedMap");
    set_all!(FzHashSet<K>, K, FzHashSet::new(keys.to_vec()), ks, "FzHashSet");
    set_all!(FzOrderedSet<K>, K, FzOrderedSet::new(keys.to_vec()), ks, "FzOrderedSet");
    Ok(())
}
/// The serialized form of any map type, read by the standard map.
/// Every failing write (a few of them for long outputs) surfaces as an error, even if later writes succeed.
fn reported(nm: &str, ser: &dyn Fn() -> Result<Vec<u8>, String>) -> Res {
    vh::facade::fail_write(u64::MAX);
    ser()?;
    let n = vh::facade::writes();
    let at: Vec<u64> = if n <= 24 { (0..n).collect() } else { (0..12).map(|i| i * 31 % n).chain([n / 3, n / 2, n - 4, n - 3, n - 2, n - 1]).collect() };
    let mut r = Ok(());
    for k in at {
        vh::facade::fail_write(k);
        if ser().is_ok() {
            r = Err(format!("{nm}: write {k} of {n} failed, yet serialization reported success"));
        }
    }
    vh::facade::fail_write(u64::MAX);
    r
}
fn facade_map<K: Key + DeserializeOwned>(m: &dyn vh::facade::DMap<K>, want: &BTreeMap<K, V>) -> Res {
    let nm = m.name();
    let w = (want.len(), want.clone());
    let j = m.json()?;
    let pairs = serde_json::from_slice::<serde_json::Value>(&j).map_err(s)?.as_object().map(|o| o.len());
    ensure_eq!(pairs, Some(want.len()), "{nm}: JSON object size");
    ensure!(m_of(serde_json::from_slice::<BTreeMap<K, V>>(&j).map_err(s)?) == w, "{nm}: JSON {} read by BTreeMap", String::from_utf8_lossy(&j));
    ensure!(m_of(serde_json::from_slice::<FzHashMap<K, V>>(&j).map_err(s)?) == w, "{nm}: JSON read by FzHashMap");
    reported(&nm, &|| m.json())?;
    reported(&nm, &|| m.bin())?;
    let b = m.bin()?;
    ensure!(b.len() >= 8 && u64::from_le_bytes(b[..8].try_into().unwrap()) == want.len() as u64, "{nm}: bincode length prefix");
    ensure!(m_of(bincode::deserialize::<std::collections::HashMap<K, V>>(&b).map_err(s)?) == w, "{nm}: bincode read by HashMap");
    ensure!(m_of(bincode::deserialize::<FzOrderedMap<K, V>>(&b).map_err(s)?) == w, "{nm}: bincode read by FzOrderedMap");
    Ok(())
}
fn facade_set<K: Key + DeserializeOwned>(x: &dyn vh::facade::DSet<K>, want: &BTreeSet<K>) -> Res {
    let nm = x.name();
    let Ok(j) = x.json() else { return Ok(()) };
    let w = (want.len(), want.clone());
    ensure!(s_of(serde_json::from_slice::<Vec<K>>(&j).map_err(s)?) == w, "{nm}: JSON {} read by Vec", String::from_utf8_lossy(&j));
    reported(&nm, &|| x.json())?;
    reported(&nm, &|| x.bin())?;
    let b = x.bin()?;
    ensure!(s_of(bincode::deserialize::<Vec<K>>(&b).map_err(s)?) == w, "{nm}: bincode read by Vec");
    ensure!(s_of(bincode::deserialize::<FzHashSet<K>>(&b).map_err(s)?) == w, "{nm}: bincode read by FzHashSet");
    Ok(())
}
fn observe(n: usize, keys: usize, texts: &[String], o: &mut Obs) {
    o.nontrivial_if(n >= 2);
    o.label_if(n < keys, "built with duplicates");
    o.label_if(texts.iter().any(|t| t.contains(['"', '\\', '\n', '\0'])), "text needing escapes");
    o.label(match n { 0 => "empty", 1 => "one", 2..=7 => "len<8", 8..=255 => "len<256", _ => "len>=256" });
}
fn typed<K: Key + Scalar + FromI64 + DeserializeOwned>(c: &IntCase, o: &mut Obs) -> Res where K::Alt: Scalar {
    let keys: Vec<K> = c.keys.expand().into_iter().map(K::from_i64).collect();
    let e: Vec<(K, Pay)> = keys.iter().cloned().enumerate().map(|(i, k)| (k, pay(i, &c.texts))).collect();
    let m: BTreeMap<K, Pay> = e.iter().cloned().collect();
    observe(m.len(), keys.len(), &c.texts, o);
    any_kinds(&keys, &c.texts)?;
    map_all!(FzScalarMap<K, Pay>, K, Pay, FzScalarMap::new(e), m, "FzScalarMap");
    set_all!(FzScalarSet<K>, K, FzScalarSet::new(keys.clone()), m.keys().cloned().collect::<BTreeSet<K>>(), "FzScalarSet");
    let n = number(keys);
    let want = model(&n);
    for kind in INT_KINDS {
        if let Some(m) = map_scalar(*kind, n.clone(), &c.h) {
            facade_map(&*m, &want)?;
        }
    }
    Ok(())
}
fn ints(c: &IntCase, o: &mut Obs) -> Res {
    // every format, reader and direction, over a selection of key types (each one costs build time)
    match c.ty % 4 {
        0 => typed::<i64>(c, o),
        1 => typed::<u8>(c, o),
        2 => typed::<std::num::NonZero<u32>>(c, o),
        _ => typed::<vh::facade::E>(c, o),
    }
}
type S = Box<str>;
fn strs(c: &StrCase, o: &mut Obs) -> Res {
    let keys = c.keys.expand();
    let e: Vec<(S, Pay)> = keys.iter().cloned().enumerate().map(|(i, k)| (k, pay(i, &c.texts))).collect();
    let m: BTreeMap<S, Pay> = e.iter().cloned().collect();
    observe(m.len(), keys.len(), &c.texts, o);
    any_kinds(&keys, &c.texts)?;
    map_all!(FzStringMap<S, Pay>, S, Pay, FzStringMap::new(e.clone()), m, "FzStringMap");
    set_all!(FzStringSet<S>, S, FzStringSet::new(keys.clone()), m.keys().cloned().collect::<BTreeSet<S>>(), "FzStringSet");
    // a frozen map inside a frozen map
    let nested = FzStringMap::new(vec![("a", FzHashMap::new(e.clone())), ("b\"\n", FzHashMap::default())]);
    for (f, enc) in encs::<FzStringMap<S, FzHashMap<S, Pay>>>() {
        let b = enc(&nested)?;
        for (g, how, dec) in decs::<FzStringMap<S, FzHashMap<S, Pay>>>() {
            ensure!(f != g || dec(&b)? == nested, "nested frozen maps: {f} {how}");
        }
    }
    let n = number(keys);
    let want = model(&n);
    for kind in STR_KINDS {
        if let Some(m) = map_str(*kind, n.clone(), &c.h) {
            facade_map(&*m, &want)?;
        }
    }
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct CatCase { which: usize, vals: Vec<V> }
fn cat(c: &CatCase, o: &mut Obs) -> Res {
    let i = c.which / 4;
    fn nth<T>(mut v: Vec<T>, i: usize) -> T { let n = v.len(); v.swap_remove(i % n) }
    let new = |i: usize, v: V| c.vals.get(i % c.vals.len().max(1)).copied().unwrap_or(v);
    match c.which % 4 {
        0 => {
            let (mut m, e) = nth(catalog::int_maps(), i);
            let w: BTreeMap<i64, V> = e.iter().enumerate().map(|(i, (k, v))| (*k, new(i, *v))).collect();
            observe(w.len(), e.len(), &[], o);
            for (k, v) in &w { *m.get_mut(0, k).unwrap() = *v; }
            o.label(m.name().split('<').next().unwrap());
            facade_map(&*m, &w)
        }
        1 => {
            // string slices cannot be read back by a generic reader; compare with owned keys
            let (mut m, e) = nth(catalog::str_maps(), i);
            let w: BTreeMap<String, V> = e.iter().enumerate().map(|(i, (k, v))| (k.to_string(), new(i, *v))).collect();
            observe(w.len(), e.len(), &[], o);
            for (i, (k, v)) in e.iter().enumerate() { *m.get_mut(0, k).unwrap() = new(i, *v); }
            o.label(m.name().split('<').next().unwrap());
            let (j, b) = (m.json()?, m.bin()?);
            reported(&m.name(), &|| m.json())?;
            reported(&m.name(), &|| m.bin())?;
            let w = (w.len(), w);
            ensure!(m_of(serde_json::from_slice::<BTreeMap<String, V>>(&j).map_err(s)?) == w, "{}: JSON {} read by BTreeMap", m.name(), String::from_utf8_lossy(&j));
            ensure!(m_of(bincode::deserialize::<BTreeMap<String, V>>(&b).map_err(s)?) == w, "{}: bincode read by BTreeMap", m.name());
            ensure!(serde_json::from_slice::<FzStringMap<S, V>>(&j).map_err(s)?.into_iter().map(|(k, v)| (k.into_string(), v)).collect::<BTreeMap<_, _>>() == w.1, "{}: JSON read by FzStringMap", m.name());
            Ok(())
        }
        2 => {
            let (x, e) = nth(catalog::int_sets(), i);
            observe(e.len(), e.len(), &[], o);
            o.label(x.name().split('<').next().unwrap());
            facade_set(&*x, &e.into_iter().collect())
        }
        _ => {
            let (x, e) = nth(catalog::str_sets(), i);
            observe(e.len(), e.len(), &[], o);
            o.label(x.name().split('<').next().unwrap());
            let w = s_of(e.iter().map(|k| k.to_string()));
            reported(&x.name(), &|| x.json())?;
            reported(&x.name(), &|| x.bin())?;
            ensure!(s_of(serde_json::from_slice::<Vec<String>>(&x.json()?).map_err(s)?) == w, "{}: JSON", x.name());
            ensure!(s_of(bincode::deserialize::<Vec<String>>(&x.bin()?).map_err(s)?) == w, "{}: bincode", x.name());
            Ok(())
        }
    }
}
/// Thousands of entries, one type per case.
fn bulk(c: &Huge, o: &mut Obs) -> Res {
    let keys = c.repeated();
    o.label(match keys.len() { 0..=4096 => "up to 4096 entries", _ => ">4096 entries" });
    let r = c.which as usize % 8;
    let short = |r: Res| r.map_err(|m| m.chars().take(400).collect());
    if r < 3 || r == 6 {
        let e = number(keys.clone());
        let m = model(&e);
        o.nontrivial_if(m.len() >= 100);
        let ks: BTreeSet<i64> = m.keys().copied().collect();
        return short((|| {
            match (r, c.order % 2) {
                (0, 0) => map_all!(FzHashMap<i64, V>, i64, V, FzHashMap::new(e), m, "FzHashMap"),
                (0, _) => set_all!(FzHashSet<i64>, i64, FzHashSet::new(keys), ks, "FzHashSet"),
                (1, 0) => map_all!(FzOrderedMap<i64, V>, i64, V, FzOrderedMap::new(e), m, "FzOrderedMap"),
                (1, _) => set_all!(FzOrderedSet<i64>, i64, FzOrderedSet::new(keys), ks, "FzOrderedSet"),
                (2, 0) => map_all!(FzScalarMap<i64, V>, i64, V, FzScalarMap::new(e), m, "FzScalarMap"),
                (2, _) => set_all!(FzScalarSet<i64>, i64, FzScalarSet::new(keys), ks, "FzScalarSet"),
                _ => for kind in INT_KINDS { if let Some(x) = map_scalar(*kind, e.clone(), &HSpec::Fold(2)) { facade_map(&*x, &m)?; } },
            }
            Ok(())
        })());
    }
    let e: Vec<(S, V)> = number(keys).into_iter().map(|(k, v)| (c.text(k), v)).collect();
    let m = model(&e);
    o.nontrivial_if(m.len() >= 100);
    let ks: BTreeSet<S> = m.keys().cloned().collect();
    short((|| {
        match r {
            3 => map_all!(FzStringMap<S, V>, S, V, FzStringMap::new(e), m, "FzStringMap"),
            4 => set_all!(FzStringSet<S>, S, FzStringSet::new(e.into_iter().map(|x| x.0).collect()), ks, "FzStringSet"),
            _ => for kind in STR_KINDS { if let Some(x) = map_str(*kind, e.clone(), &HSpec::Fold(2)) { facade_map(&*x, &m)?; } },
        }
        Ok(())
    })())
}
fn texts() -> impl Strategy<Value = Vec<String>> {
    proptest::collection::vec(text(8), 0..6)
}
fn main() {
    vh::runner::main("P12", vec![
        sub("ints", 4_500, 60_000, || (0..SCALAR_TYPES, int_keys(80), texts(), good_hasher()).prop_map(|(ty, keys, texts, h)| IntCase { ty, keys, texts, h }), ints,
            "collections over i64, u8, NonZero<u32> and derived-scalar enum keys with nested values, written as JSON (compact, pretty, via Value), bincode and CBOR and read back by slice, str, dripping reader and Value, in all directions between frozen and standard collections; non-trivial: at least 2 entries."),
        sub("strings", 3_000, 40_000, || (str_keys(50), texts(), good_hasher()).prop_map(|(keys, texts, h)| StrCase { keys, texts, h }), strs, "the same for string keys, plus frozen maps nested in frozen maps."),
        sub("bulk", 160, 1_500, || mid(9000), bulk, "200 to 9,000 distinct keys, some lists with many repeats, one collection type per case (same oracle); non-trivial: at least 100 distinct keys."),
        sub("macro-built", 1_500, 10_000, || (0usize..280, proptest::collection::vec(any::<V>(), 0..5)).prop_map(|(which, vals)| CatCase { which, vals }), cat, "macro-built collections, serialized and read by standard and frozen collections."),
    ]);
}
