use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use vh::facade::{Key, SQ};
use vh::big::*;
use vh::keys::*;
use vh::oracle::{Kind::*, *};
use vh::runner::*;
use vh::{ensure, ensure_eq};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct IntCase { keys: IntKeys, probes: Vec<i64>, h: HSpec, plan: Vec<usize> }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct StrCase { keys: StrKeys, probes: Vec<SProbe>, h: HSpec, plan: Vec<usize> }

fn hash_of<K: std::hash::Hash>(k: &K, h: &HSpec) -> u64 {
    use std::hash::BuildHasher;
    DynBH(h.clone()).hash_one(k)
}
fn run<K: Key>(kinds: &[Kind], keys: Vec<K>, probes: Vec<K>, h: &HSpec, plan: &[usize], o: &mut Obs, mk: fn(Kind, Vec<(K, u64)>, &HSpec) -> Option<vh::facade::BMap<K>>, mks: fn(Kind, Vec<K>, &HSpec) -> Option<vh::facade::BSet<K>>) -> Res {
    let e = number(keys.clone());
    let want = model(&e);
    set_hash_budget(u64::MAX);
    let hashes: BTreeSet<u64> = want.keys().map(|k| hash_of(k, h)).collect();
    o.nontrivial_if(want.len() >= 2 && hashes.len() < want.len() || (want.len() >= 8 && h.poor()));
    o.label_if(hashes.len() == 1 && want.len() > 1, "all keys collide");
    o.label_if(hashes.len() > 1 && hashes.len() < want.len(), "some keys collide");
    o.label_if(want.len() > 255, "len>255");
    let name = format!("{h:?}");
    o.label(name.split('(').next().unwrap());
    let mut all: Vec<K> = want.keys().cloned().collect();
    all.extend(probes);
    let exp: Vec<(K, u64)> = want.iter().map(|(k, v)| (k.clone(), *v)).collect();
    let exps: Vec<K> = want.keys().cloned().collect();
    // generous: the real cost is a few hashes per key and per analysed substring
    let budget = 2_000_000 + 4000 * (keys.len() as u64);
    for kind in kinds {
        set_hash_budget(budget);
        let m = mk(*kind, e.clone(), h);
        set_hash_budget(u64::MAX);
        if let Some(mut m) = m {
            lookups(&mut *m, &want, &all, 3)?;
            contents(&*m, &want)?;
            m.iter_protocol(&exp, plan)?;
            // the same contents under a good hash compare equal, both ways
            let good = mk(*kind, exp.clone(), &HSpec::Fold(9)).unwrap();
            let (a, b) = (vh::facade::MQ(m), vh::facade::MQ(good));
            ensure!(a.0.eq_any(&b) && b.0.eq_any(&a), "{}: not equal to the same contents under another hasher", a.0.name());
        }
        set_hash_budget(budget);
        let s = mks(*kind, keys.clone(), h);
        set_hash_budget(u64::MAX);
        if let Some(s) = s {
            set_lookups(&*s, &want.keys().cloned().collect(), &all, 5)?;
            set_contents(&*s, &want.keys().cloned().collect())?;
            s.iter_protocol(&exps, plan)?;
            // against half of itself
            let half: Vec<K> = exps.iter().step_by(2).cloned().collect();
            let rest: Vec<K> = exps.iter().skip(1).step_by(2).cloned().collect();
            let hs = SQ(mks(*kind, half.clone(), h).unwrap().into());
            s.lazy(1, &hs, &half, &[])?;
            s.lazy(2, &hs, &rest, &[])?;
            ensure_eq!(s.pred(2, &hs), true, "{}: superset of half of itself", s.name());
        }
    }
    Ok(())
}
fn ints(c: &IntCase, o: &mut Obs) -> Res {
    let k = c.keys.expand();
    let p = int_probes(&k, &c.probes);
    run(&[FzHash, CoreHashL, CoreHashM, CoreHashS], k, p, &c.h, &c.plan, o, map_any, set_any)
}
fn strs(c: &StrCase, o: &mut Obs) -> Res {
    let k = c.keys.expand();
    let p = str_probes(&k, &c.probes);
    run(&[FzStr, FzHash], k, p, &c.h, &c.plan, o, map_str, set_str)
}
/// Tables whose slots hold hundreds to tens of thousands of entries.
fn bulk(c: &Huge, o: &mut Obs) -> Res {
    let (keys, absent) = c.keys();
    fn go<K: Key>(c: &Huge, kinds: &[vh::oracle::Kind], keys: Vec<K>, absent: Vec<K>, o: &mut Obs, mk: fn(vh::oracle::Kind, Vec<(K, u64)>, &HSpec) -> Option<vh::facade::BMap<K>>, mks: fn(vh::oracle::Kind, Vec<K>, &HSpec) -> Option<vh::facade::BSet<K>>) -> Res {
        let e = number(keys.clone());
        let want = model(&e);
        let mut codes: Vec<u32> = want.keys().map(|k| hash_of(k, &c.h) as u32 & 0xffff).collect();
        codes.sort_unstable();
        let slots = codes.len() - codes.windows(2).filter(|w| w[0] == w[1]).count();
        o.nontrivial_if(want.len() >= 100 && slots * 4 <= want.len());
        o.label(match want.len() / slots.max(1) { 0..=15 => "<16 per slot", 16..=255 => "16-255 per slot", 256..=65_534 => "256-65534 per slot", _ => ">65534 per slot" });
        // sampled lookups: each may be linear in the slot
        let step = (want.len() / 60).max(1);
        let some: Vec<&K> = want.keys().step_by(step).chain(want.keys().next_back()).collect();
        let gone: Vec<&K> = absent.iter().step_by((absent.len() / 20).max(1)).filter(|k| !want.contains_key::<K>(k)).collect();
        let budget = 2_000_000 + 4000 * keys.len() as u64;
        set_hash_budget(budget);
        if c.which & 0x40 != 0 {
            let s = mks(kinds[0], keys, &c.h).unwrap();
            set_hash_budget(u64::MAX);
            let nm = s.name();
            ensure_eq!(s.len(0), want.len(), "{nm}.len()");
            for (i, k) in some.into_iter().enumerate() { ensure!(s.has(i as u8, k) && s.get(i as u8, k) == Some(k), "{nm} of {} values: does not find {k:?}", want.len()); }
            for (i, k) in gone.into_iter().enumerate() { ensure!(!s.has(i as u8, k), "{nm} of {} values: finds the absent {k:?}", want.len()); }
            let mut seen: Vec<&K> = s.iter(0).collect();
            seen.sort();
            ensure!(seen.into_iter().eq(want.keys()), "{nm} of {} values: iteration differs from the contents", want.len());
            return Ok(());
        }
        let m = mk(kinds[c.which as usize % kinds.len()], e.clone(), &c.h);
        let mut m = m.or_else(|| mk(kinds[0], e, &c.h)).unwrap();
        set_hash_budget(u64::MAX);
        let nm = m.name();
        o.label(&nm);
        ensure_eq!(m.len(0), want.len(), "{nm}.len()");
        for (i, k) in some.into_iter().enumerate() {
            let r = i as u8;
            let v = want.get::<K>(k);
            ensure!(m.get(r, k) == v && m.has(r, k) && m.get_kv(r, k) == v.map(|v| (k, v)) && m.get_mut(r, k).copied() == v.copied(), "{nm} of {} entries: get({k:?}) = {:?}, expected {v:?}", want.len(), m.get(r, k));
        }
        for (i, k) in gone.into_iter().enumerate() { ensure!(m.get(i as u8, k).is_none() && !m.has(i as u8, k), "{nm} of {} entries: finds the absent {k:?}", want.len()); }
        let mut seen: Vec<(&K, &u64)> = m.iter(0).collect();
        seen.sort();
        ensure!(seen.into_iter().eq(want.iter()), "{nm} of {} entries: iteration differs from the contents", want.len());
        Ok(())
    }
    if c.which & 4 == 0 { go::<i64>(c, &[FzHash, CoreHashL, CoreHashM], keys, absent, o, map_any, set_any) } else { go::<Box<str>>(c, &[FzStr, FzHash], keys.into_iter().map(|k| c.text(k)).collect(), absent.into_iter().map(|k| c.text(k)).collect(), o, map_str, set_str) }
}
fn plan() -> impl Strategy<Value = Vec<usize>> {
    proptest::collection::vec(0usize..600, 0..3)
}
fn main() {
    vh::runner::main("P06", vec![
        sub("ints", 15_000, 120_000, || (int_keys(500), proptest::collection::vec(edge(), 0..6), any_hasher(), plan()).prop_map(|(keys, probes, h, plan)| IntCase { keys, probes, h, plan }), ints,
            "integer key sets under consistent but arbitrary hashers (constant, modulo, low/high/middle bits only, byte sums, any seed): construction within a bounded number of hash computations, then lookups, length, iteration, equality and set operations against a BTreeMap; non-trivial: two keys share a hash, or at least 8 keys under a degenerate hasher."),
        sub("strings", 12_000, 100_000, || (str_keys(300), sprobes(), any_hasher(), plan()).prop_map(|(keys, probes, h, plan)| StrCase { keys, probes, h, plan }), strs,
            "the same for the string map and set (same rule)."),
        sub("bulk", 1_200, 10_000, crowded, bulk,
            "200 to 65,545 entries under hashers that put hundreds to all of them in one slot: sampled lookups, and the whole iteration, against a BTreeMap; non-trivial: at least 100 entries and 4 per value of the low 16 bits of the hash."),
    ]);
}
