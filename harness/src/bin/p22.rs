use frozen_collections as fz;
use frozen_collections_core as fzc;
use fz::Scalar;
use fzc::hashers::BridgeHasher;
use fzc::traits::{LargeCollection, MediumCollection, SmallCollection};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use vh::facade::Key;
use vh::inv::*;
use vh::keys::*;
use vh::oracle::{Kind::*, *};
use vh::progs::programs;
use vh::runner::*;
use vh::with_scalar;

// ------------------------------------------------------------------ capacity of the hash tables
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cap { class: u8, distinct: u32, dups: Vec<(u16, u16)>, start: i64, step: i64, shuffle: u8, h: HSpec, strings: bool }

fn limit(class: u8) -> usize {
    match class % 3 { 0 => 255, 1 => 65535, _ => usize::MAX }
}
fn capacity(c: &Cap, o: &mut Obs) -> Res {
    let n = c.distinct as usize;
    let mut keys: Vec<i64> = (0..n as i64).map(|i| c.start.wrapping_add(i.wrapping_mul(c.step | 1))).collect();
    reorder(&mut keys, c.shuffle);
    if n > 0 { add_dups(&mut keys, &c.dups); }
    let distinct = keys.iter().collect::<BTreeSet<_>>().len();
    let lim = limit(c.class);
    o.label(["small", "medium", "large"][c.class as usize % 3]);
    o.label(if distinct > lim { "over capacity" } else if distinct == lim { "exactly at capacity" } else if lim < usize::MAX && distinct + 2 >= lim { "just below capacity" } else { "below capacity" });
    o.label_if(keys.len() > lim && distinct <= lim, "fits only because of duplicates");
    o.nontrivial_if(distinct > 1);
    if c.strings {
        cap_of(keys.iter().map(|k| format!("k{k}").into_boxed_str()).collect::<Vec<_>>(), c, distinct <= lim)
    } else {
        cap_of(keys, c, distinct <= lim)
    }
}
fn cap_of<K: Key>(keys: Vec<K>, c: &Cap, fits: bool) -> Res {
    let e = number(keys);
    let want = model(&e);
    macro_rules! one {
        ($cm:ty) => {{
            let r = fzc::maps::HashMap::<K, u64, $cm, _>::with_hasher(e.clone(), BridgeHasher::new(DynBH(c.h.clone())));
            match r {
                Ok(m) => {
                    vh::ensure!(fits, "HashMap<{}> accepted {} distinct entries, more than its capacity", stringify!($cm), want.len());
                    vh::ensure_eq!(m.len(), want.len(), "HashMap<{}>: len", stringify!($cm));
                    for (k, v) in &want { vh::ensure!(m.get::<K>(k) == Some(v), "HashMap<{}> with {} entries: get({k:?}) = {:?}, expected {v}", stringify!($cm), want.len(), m.get::<K>(k)); }
                    let got: BTreeMap<K, u64> = m.iter().map(|(k, v)| (k.clone(), *v)).collect();
                    vh::ensure!(got == want && m.iter().count() == want.len(), "HashMap<{}>: iteration", stringify!($cm));
                }
                Err(m) => vh::ensure!(!fits, "HashMap<{}> refused {} distinct entries ({} given): {m}", stringify!($cm), want.len(), e.len()),
            }
        }};
    }
    match c.class % 3 {
        0 => one!(SmallCollection),
        1 => one!(MediumCollection),
        _ => one!(LargeCollection),
    }
    Ok(())
}
fn cap(class: std::ops::Range<u8>, sizes: BoxedStrategy<u32>) -> impl Strategy<Value = Cap> {
    (class, sizes, proptest::collection::vec(any::<(u16, u16)>(), 0..40), edge(), prop_oneof![Just(1i64), Just(1 << 32), any::<i64>()], 0u8..8, prop_oneof![5 => good_hasher().boxed(), 1 => any_hasher().boxed()], any::<bool>())
        .prop_map(|(class, distinct, dups, start, step, shuffle, h, strings)| Cap { class, distinct, dups, start, step, shuffle, h: if distinct > 2000 && h.poor() { HSpec::Fold(1) } else { h }, strings })
}

// ------------------------------------------------------------------ contiguous ranges
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Rng { ty: u8, start: i64, len: u32, drop: Vec<u16>, extra: Vec<i64>, dups: Vec<(u16, u16)>, order: u8 }

fn range<K: Key + Scalar + FromI64>(c: &Rng, o: &mut Obs) -> Res
where
    K::Alt: Scalar,
{
    let mut raw: Vec<i64> = (0..i64::from(c.len)).map(|i| c.start.wrapping_add(i)).collect();
    for d in &c.drop { if !raw.is_empty() { let i = *d as usize % raw.len(); raw.remove(i); } }
    raw.extend(&c.extra);
    let mut near: Vec<i64> = vec![];
    for r in raw.iter().min().into_iter().chain(raw.iter().max()).copied().chain([c.start, c.start.wrapping_add(i64::from(c.len))]) { near.extend((-2..=2).map(|d| r.wrapping_add(d))); }
    let mut keys: Vec<K> = raw.into_iter().map(K::from_i64).collect();
    reorder(&mut keys, c.order);
    if !keys.is_empty() { add_dups(&mut keys, &c.dups); }
    let e = number(keys);
    let want = model(&e);
    let lo = want.keys().map(index_of).min();
    let hi = want.keys().map(index_of).max();
    let contiguous = match (lo, hi) { (Some(a), Some(b)) => b - a == want.len() - 1, _ => true };
    o.nontrivial_if(want.len() >= 2);
    o.label(if contiguous { "contiguous" } else { "not contiguous" });
    o.label_if(!contiguous && hi.unwrap() - lo.unwrap() == want.len(), "exactly one hole");
    o.label_if(lo == Some(0), "starts at index 0");
    o.label(std::any::type_name::<K>());
    match fzc::maps::DenseScalarLookupMap::new(e.clone()) {
        Ok(m) => {
            vh::ensure!(contiguous, "DenseScalarLookupMap accepted non-contiguous keys: {:?}", want.keys().take(20).collect::<Vec<_>>());
            let mut m = m;
            let mut all: Vec<K> = want.keys().cloned().collect();
            all.extend(near.into_iter().map(K::from_i64));
            lookups(&mut m, &want, &all, 0)?;
            let b: vh::facade::BMap<K> = Box::new(m);
            contents(&*b, &want)?;
        }
        Err(x) => vh::ensure!(!contiguous, "DenseScalarLookupMap refused contiguous keys {:?}..: {x}", want.keys().take(20).collect::<Vec<_>>()),
    }
    Ok(())
}
fn range_test(c: &Rng, o: &mut Obs) -> Res {
    with_scalar!(c.ty, range(c, o))
}

// ------------------------------------------------------------------ every collection at the size boundaries
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Big { n: u32, start: i64, step: i64, dups: Vec<(u16, u16)>, order: u8, kind: u8, h: HSpec }

fn raw_keys(c: &Big) -> Vec<i64> {
    (0..i64::from(c.n)).map(|i| c.start.wrapping_add(i.wrapping_mul(c.step))).collect()
}
fn absent_near(keys: &BTreeSet<i64>, c: &Big) -> Vec<i64> {
    let mut p: Vec<i64> = vec![];
    let (a, b) = (*keys.iter().next().unwrap_or(&0), *keys.iter().last().unwrap_or(&0));
    for d in [1i64, 2, 3, 64, 255, 256, 65535, 65536] { p.extend([a.wrapping_sub(d), b.wrapping_add(d)]); }
    for k in keys.iter().step_by((keys.len() / 300).max(1)) { p.extend([k.wrapping_add(1), k.wrapping_sub(1), k ^ 0x100, k ^ 0x1_0000, k.wrapping_add(c.step / 2)]); }
    p
}
fn big(c: &Big, o: &mut Obs) -> Res {
    let mut keys = raw_keys(c);
    let ks: BTreeSet<i64> = keys.iter().copied().collect();
    reorder(&mut keys, c.order);
    if !keys.is_empty() { add_dups(&mut keys, &c.dups); }
    o.nontrivial_if(ks.len() >= 2);
    o.label(match ks.len() { 0..=16 => "<=16", 17..=253 => "17-253", 254..=257 => "254-257", 258..=4095 => "258-4095", 4096..=65533 => "4096-65533", 65534..=65537 => "65534-65537", _ => ">65537" });
    let p = absent_near(&ks, c);
    if c.kind % 9 >= 6 {
        let f = |k: &i64| -> Box<str> { match c.kind % 9 { 6 => format!("{k:x}"), 7 => format!("prefix-{:08}-suffix", *k as u32), _ => format!("{:06}x", k.rem_euclid(1_000_000)) }.into_boxed_str() };
        let sk: Vec<Box<str>> = keys.iter().map(f).collect();
        let e = number(sk.clone());
        let want = model(&e);
        let mut all: Vec<Box<str>> = want.keys().cloned().collect();
        all.extend(p.iter().map(f));
        for (i, kind) in [FzStr, FzHash, FzOrd].into_iter().enumerate() {
            if i > 0 && i != 1 + c.n as usize % 2 { continue; }
            if let Some(mut m) = map_str(kind, e.clone(), &c.h) { o.label(&format!("{kind:?} strings")); lookups(&mut *m, &want, &all, c.order)?; contents(&*m, &want)?; }
        }
        let s = set_str(FzStr, sk, &c.h).unwrap();
        let ws: BTreeSet<Box<str>> = want.keys().cloned().collect();
        set_lookups(&*s, &ws, &all, c.order)?;
        set_contents(&*s, &ws)
    } else {
        let e = number(keys.clone());
        let want = model(&e);
        let mut all: Vec<i64> = want.keys().copied().collect();
        all.extend(p);
        let kinds: &[_] = match c.kind % 9 { 0 => &[FzHash], 1 => &[FzOrd], 2 => &[FzScalar], 3 => &[Sparse, Dense], 4 => &[CoreHashM, CoreHashS], _ => &[Eytz, CoreHashL] };
        for kind in kinds {
            if let Some(mut m) = map_scalar(*kind, e.clone(), &c.h) { o.label(&format!("{kind:?}")); lookups(&mut *m, &want, &all, c.order)?; contents(&*m, &want)?; }
        }
        let sk = *[FzHash, FzOrd, FzScalar].get(c.kind as usize % 9).unwrap_or(&FzScalar);
        let s = set_scalar(sk, keys, &c.h).unwrap();
        let ws: BTreeSet<i64> = want.keys().copied().collect();
        set_lookups(&*s, &ws, &all, c.order)?;
        set_contents(&*s, &ws)
    }
}
fn bigs(n: BoxedStrategy<u32>) -> impl Strategy<Value = Big> {
    (n, edge(), prop_oneof![3 => Just(1i64), 3 => 2i64..14, 1 => Just(256), 1 => Just(65536), 1 => Just(1 << 40), 1 => Just(-1)], proptest::collection::vec(any::<(u16, u16)>(), 0..12), 0u8..8, any::<u8>(), good_hasher())
        .prop_map(|(n, start, step, dups, order, kind, h)| Big { n, start, step, dups, order, kind, h })
}
fn pow2ish() -> BoxedStrategy<u32> {
    (0u32..14, -2i64..=2).prop_map(|(p, d)| ((1i64 << p) + d).max(0) as u32).boxed()
}
fn wide() -> BoxedStrategy<u32> {
    prop_oneof![3 => 65_530u32..65_542, 2 => 4000u32..20_000, 1 => 65_542u32..80_000, 1 => 32_766u32..32_770].boxed()
}

// ------------------------------------------------------------------ macros at the boundary between capacity classes
fn bound_invs() -> Vec<Inv> {
    let mut v = vec![];
    for (i, n) in [255usize, 256, 257, 1000, 254].into_iter().enumerate() {
        for (j, (mk, kt)) in [(Mk::Hash, 5u8), (Mk::Ordered, 6), (Mk::Scalar, 3), (Mk::Str, STR), (Mk::Hash, STR), (Mk::Scalar, 7)].into_iter().enumerate() {
            if n == 1000 && (i + j) % 2 == 0 { continue; }
            let mul: u64 = match (mk, kt) { (Mk::Scalar, 3) => 1, (Mk::Scalar, _) => 3, _ => 7_919 };
            let ents: Vec<Ent> = (0..n as u64).map(|k| Ent { k: if kt == STR { format!("s{:03}{}", (k * 37) % n as u64, "y".repeat((k % 3) as usize)) } else { (k * mul).to_string() }, spell: 0, style: 0, v: (k as u32 * 31) % 9973 }).collect();
            let probes = if kt == STR { vec!["".into(), "s".into(), "s255".into(), "s000z".into()] } else { (0..6u64).map(|d| (n as u64 * mul + d).to_string()).chain([1u64, 2, 5].map(|d| (mul * 9 + d).to_string())).collect() };
            v.push(Inv { mk, map: (i + j) % 3 != 0, form: [Form::Static(0), Form::Let, Form::Short][(i + 2 * j) % 3], kt, suffix: 0, ents, trailing: false, probes, wrap: 0 });
        }
    }
    // 256 entries of which one repeats: only 255 distinct
    let mut d = v[0].clone();
    d.ents.push(Ent { k: d.ents[9].k.clone(), spell: 0, style: 0, v: 4242 });
    v.push(d);
    if std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough") {
        for (n, mk, mul) in [(65_535u64, Mk::Hash, 104_729u64), (65_536, Mk::Hash, 104_729), (65_537, Mk::Ordered, 3), (65_540, Mk::Scalar, 3)] {
            let ents = (0..n).map(|k| Ent { k: (k * mul % 4_294_967_291).to_string(), spell: 0, style: 0, v: 0 }).collect();
            v.push(Inv { mk, map: false, form: Form::Static(0), kt: 5, suffix: 0, ents, trailing: false, probes: vec!["5".into(), "104730".into(), "4294967295".into()], wrap: 0 });
        }
    }
    v
}

fn main() {
    vh::runner::main_with("P22", vec![
        sub("capacity_small", 12_000, 300_000, || cap(0..1, prop_oneof![8 => 250u32..261, 2 => 0u32..250, 1 => 261u32..600].boxed()), capacity,
            "the hash map building block of the 255-entry class with distinct counts around its capacity, plus duplicates: Ok exactly when the distinct entries fit, and then every entry is found and iterated; non-trivial: at least 2 distinct keys."),
        sub("capacity_medium", 60, 1200, || cap(1..3, prop_oneof![4 => 65_530u32..65_540, 4 => 65_534u32..65_537, 1 => 250u32..261].boxed()), capacity,
            "the same for the 65535-entry and unlimited classes (same rule)."),
        sub("contiguous", 30_000, 900_000, || (0..SCALAR_TYPES, edge(), prop_oneof![6 => 0u32..24, 2 => 24u32..300, 1 => Just(256u32)], proptest::collection::vec(any::<u16>(), 0..2), prop_oneof![3 => Just(vec![]).boxed(), 1 => proptest::collection::vec(edge(), 0..3).boxed()], proptest::collection::vec(any::<(u16, u16)>(), 0..4), 0u8..8)
            .prop_map(|(ty, start, len, drop, extra, dups, order)| Rng { ty, start, len, drop, extra, dups, order }), range_test,
            "the contiguous-range building block over all scalar types with runs, runs with a hole, outliers, duplicates: Ok exactly when the distinct keys are contiguous, and then lookups are right; non-trivial: at least 2 distinct keys."),
        sub("contiguous_wide", 120, 4000, || (prop_oneof![Just(1u8), Just(6), Just(11), Just(16), Just(2), Just(8)], prop_oneof![Just(i64::from(i16::MIN)), Just(0i64), Just(-1), Just(-65_000), edge()], prop_oneof![2 => Just(65_536u32), 1 => 65_530u32..65_540, 1 => 10_000u32..40_000], proptest::collection::vec(any::<u16>(), 0..2), 0u8..8)
            .prop_map(|(ty, start, len, drop, order)| Rng { ty, start, len, drop, extra: vec![], dups: vec![], order }), range_test,
            "the same with whole 16-bit ranges and tens of thousands of keys (same rule)."),
        sub("sizes", 6000, 200_000, || bigs(prop_oneof![3 => pow2ish(), 3 => 250u32..260, 1 => 0u32..1200].boxed()), big,
            "every run-time collection at sizes around powers of two and 255/256: every key and absent neighbours looked up, all entries iterated; non-trivial: at least 2 distinct keys."),
        sub("sizes_wide", 120, 3000, || bigs(wide()), big,
            "the same around 65535/65536 and up to 80 000 entries (same rule)."),
    ], programs("P22", "macro_sizes", 24, 800, bound_invs(), || inv(false).prop_filter("large", |i| i.ents.len() > 100),
        "macro-built collections with 254-257 and 1000 literal entries (and generated ones of over 100), compiled and queried; non-trivial: at least 2 distinct keys."));
}
