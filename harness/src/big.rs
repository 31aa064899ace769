//! Tens of thousands of entries: cheap oracles, so that sizes beyond every 16-bit boundary are part of each check.
use crate::facade::Key;
use crate::keys::*;
use crate::oracle::{Kind::*, *};
use crate::runner::{Obs, Res};
use crate::{ensure, ensure_eq};
use frozen_collections::Scalar;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Huge { pub n: u32, pub start: i64, pub step: i64, pub holes: Vec<u16>, pub dups: Vec<(u16, u16)>, pub order: u8, pub which: u8, pub h: HSpec }

fn n() -> BoxedStrategy<u32> {
    prop_oneof![3 => 65_530u32..65_542, 3 => 66_000u32..90_000, 2 => 28_000u32..65_000, 1 => 32_766u32..32_770, 1 => 5000u32..28_000].boxed()
}
pub fn huge() -> BoxedStrategy<Huge> {
    (n(), edge(), prop_oneof![3 => Just(1i64), 3 => 2i64..14, 1 => Just(256), 1 => Just(65536), 1 => Just(1 << 40), 1 => Just(-1)], prop_oneof![2 => Just(vec![]).boxed(), 1 => proptest::collection::vec(any::<u16>(), 1..40).boxed()], proptest::collection::vec(any::<(u16, u16)>(), 0..20), 0u8..8, any::<u8>(), good_hasher())
        .prop_map(|(n, start, step, holes, dups, order, which, h)| Huge { n, start, step, holes, dups, order, which, h })
        .boxed()
}
/// Sizes between what the other generators reach and the largest, around powers of two and the limits the code mentions.
pub fn mid(max: u32) -> BoxedStrategy<Huge> {
    let n = prop_oneof![4 => 200u32..600, 4 => 600u32..4090, 3 => 4090u32..4100, 4 => 4100u32..12_000, 2 => 8185u32..8200, 2 => 16_380u32..16_390, 2 => 65_530u32..65_545].prop_map(move |n| n.min(max)).boxed();
    (n, huge(), any_hasher()).prop_map(|(n, h, hs)| Huge { n, h: hs, ..h }).boxed()
}
/// The same with every entry in few slots of a hash table, or anything else a hasher may do.
pub fn crowded() -> BoxedStrategy<Huge> {
    let shape = prop_oneof![
        4 => (mid(65_540), 40u8..60).prop_map(|(c, s)| (c, HSpec::Shl(s))),
        2 => (mid(65_540), 8u8..40).prop_map(|(c, s)| (c, HSpec::Shl(s))),
        2 => (mid(65_540), 20u8..48, 8u8..17).prop_map(|(c, a, n)| (c, HSpec::Bits(a, n))),
        2 => (mid(65_540), 4000u64..70_000).prop_map(|(c, m)| (c, HSpec::Mod(m))),
        2 => (mid(5000), 30u64..400).prop_map(|(c, m)| (c, HSpec::Mod(m))),
        1 => (mid(1500), any::<u64>()).prop_map(|(c, x)| (c, HSpec::Const(x))),
    ];
    shape.prop_map(|(c, h)| Huge { h, ..c }).boxed()
}
impl Huge {
    /// Keys with many repeats: as given, every key twice in two orders, or drawn from a tenth of the keys.
    pub fn repeated(&self) -> Vec<i64> {
        let (mut k, _) = self.keys();
        match self.which >> 4 & 3 {
            0 => {}
            1 => { let mut again = k.clone(); again.reverse(); k.extend(again); }
            2 => { let n = (k.len() / 10).max(1); k = (0..k.len()).map(|i| k[i * 7 % n]).collect(); }
            _ => { let n = k.len().max(3) / 3; let again: Vec<i64> = k[..n].to_vec(); k.extend(again); }
        }
        k
    }
    pub fn raw(&self) -> Vec<i64> {
        let mut v: Vec<i64> = (0..i64::from(self.n)).map(|i| self.start.wrapping_add(i.wrapping_mul(self.step))).collect();
        for h in &self.holes { if !v.is_empty() { let i = *h as usize % v.len(); v.swap_remove(i); } }
        v
    }
    /// All keys in a scrambled order with repeats, and absent neighbours.
    pub fn keys(&self) -> (Vec<i64>, Vec<i64>) {
        let raw = self.raw();
        let set: BTreeSet<i64> = raw.iter().copied().collect();
        let mut absent = vec![];
        for h in &self.holes { absent.push(self.start.wrapping_add(i64::from(*h).wrapping_mul(self.step))); }
        let (a, b) = (*set.first().unwrap_or(&0), *set.last().unwrap_or(&0));
        for d in [1i64, 2, 64, 255, 256, 65535, 65536, 1 << 32] { absent.extend([a.wrapping_sub(d), b.wrapping_add(d)]); }
        for k in set.iter().step_by((set.len() / 500).max(1)) { absent.extend([k.wrapping_add(1), k.wrapping_sub(1), k ^ 0x100, k ^ 0x1_0000, k.wrapping_add(self.step / 2)]); }
        absent.retain(|k| !set.contains(k));
        let mut keys = raw;
        reorder(&mut keys, self.order);
        if !keys.is_empty() { add_dups(&mut keys, &self.dups); }
        (keys, absent)
    }
    pub fn text(&self, k: i64) -> Box<str> {
        match self.which % 4 { 0 => format!("{k:x}"), 1 => format!("prefix-{:016x}-suffix", k as u64), 2 => format!("{:020}x", i128::from(k)), _ => format!("{}{}", "y".repeat(k.rem_euclid(9) as usize), k) }.into_boxed_str()
    }
    pub fn observe(&self, distinct: usize, o: &mut Obs) {
        o.nontrivial_if(distinct >= 2);
        o.label(match distinct { 0..=4095 => "<4096", 4096..=65533 => "4096-65533", 65534..=65537 => "65534-65537", _ => ">65537" });
    }
}
pub fn probe_map<K: Key>(m: &mut dyn crate::facade::DMap<K>, want: &BTreeMap<K, u64>, absent: &[K], salt: u8) -> Res {
    let nm = m.name();
    ensure_eq!(m.len(0), want.len(), "{nm}.len()");
    for (i, (k, v)) in want.iter().enumerate() {
        let r = (i as u8).wrapping_add(salt) % 12;
        ensure!(m.get(r, k) == Some(v), "{nm} of {} entries: get({k:?}) by route {r} = {:?}, expected {v}", want.len(), m.get(r, k));
        if i % 16 == 0 { ensure!(m.has(r, k) && m.get_kv(r, k) == Some((k, v)) && m.get_mut(r, k).copied() == Some(*v), "{nm} of {} entries: contains_key/get_key_value/get_mut({k:?})", want.len()); }
    }
    for (i, k) in absent.iter().enumerate() {
        let r = (i as u8).wrapping_add(salt) % 12;
        ensure!(m.get(r, k).is_none() && !m.has(r, k), "{nm} of {} entries: finds the absent {k:?}", want.len());
    }
    let mut seen = 0usize;
    for (k, v) in m.iter(salt) {
        seen += 1;
        ensure!(want.get::<K>(k) == Some(v), "{nm} of {} entries: iteration yields {k:?} = {v}, expected {:?}", want.len(), want.get::<K>(k));
    }
    ensure_eq!(seen, want.len(), "{nm}: entries iterated");
    Ok(())
}
pub fn probe_set<K: Key>(s: &dyn crate::facade::DSet<K>, want: &BTreeMap<K, u64>, absent: &[K], salt: u8) -> Res {
    let nm = s.name();
    ensure_eq!(s.len(0), want.len(), "{nm}.len()");
    for (i, k) in want.keys().enumerate() {
        let r = (i as u8).wrapping_add(salt) % 12;
        ensure!(s.has(r, k) && s.get(r, k) == Some(k), "{nm} of {} values: does not find {k:?} by route {r}", want.len());
    }
    for (i, k) in absent.iter().enumerate() {
        let r = (i as u8).wrapping_add(salt) % 12;
        ensure!(!s.has(r, k) && s.get(r, k).is_none(), "{nm} of {} values: finds the absent {k:?}", want.len());
    }
    Ok(())
}
pub fn huge_scalar<K: Key + Scalar + FromI64>(c: &Huge, kinds: &[Kind], sets: &[Kind], o: &mut Obs) -> Res
where
    K::Alt: Scalar,
{
    let (keys, absent) = c.keys();
    let keys: Vec<K> = keys.into_iter().map(K::from_i64).collect();
    let e = number(keys.clone());
    let want = model(&e);
    let absent: Vec<K> = absent.into_iter().map(K::from_i64).filter(|k| !want.contains_key::<K>(k)).collect();
    c.observe(want.len(), o);
    if !sets.is_empty() && c.which & 0x40 != 0 {
        let kind = sets[c.which as usize % sets.len()];
        o.label(&format!("{kind:?} set"));
        let s = set_scalar(kind, keys, &c.h).unwrap();
        return probe_set(&*s, &want, &absent, c.order);
    }
    let kind = kinds[c.which as usize % kinds.len()];
    if let Some(mut m) = map_scalar(kind, e.clone(), &c.h).or_else(|| map_scalar(kinds[0], e, &c.h)) {
        o.label(&m.name());
        probe_map(&mut *m, &want, &absent, c.order)?;
    }
    Ok(())
}
pub fn huge_str(c: &Huge, kinds: &[Kind], sets: &[Kind], o: &mut Obs) -> Res {
    let (keys, absent) = c.keys();
    let keys: Vec<Box<str>> = keys.into_iter().map(|k| c.text(k)).collect();
    let e = number(keys.clone());
    let want = model(&e);
    let absent: Vec<Box<str>> = absent.into_iter().map(|k| c.text(k)).filter(|k| !want.contains_key::<Box<str>>(k)).collect();
    c.observe(want.len(), o);
    if !sets.is_empty() && c.which & 0x40 != 0 {
        let kind = sets[c.which as usize % sets.len()];
        o.label(&format!("{kind:?} set"));
        let s = set_str(kind, keys, &c.h).unwrap();
        return probe_set(&*s, &want, &absent, c.order);
    }
    let kind = kinds[c.which as usize % kinds.len()];
    if let Some(mut m) = map_str(kind, e, &c.h) {
        o.label(&m.name());
        probe_map(&mut *m, &want, &absent, c.order)?;
    }
    Ok(())
}
pub const HASHY: &[Kind] = &[FzHash, CoreHashL, CoreHashM];
pub const ORDERED: &[Kind] = &[FzOrd, Eytz];
pub const SCALARS: &[Kind] = &[FzScalar, Sparse, FzScalar, Dense];
