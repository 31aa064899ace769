//! Builders for every map and set type, and the lookup/content oracles.
use crate::facade::*;
use crate::keys::*;
use crate::runner::{Res, guarded};
use crate::{ensure, ensure_eq};
use frozen_collections as fz;
use frozen_collections_core as fzc;
use fz::Scalar;
use fzc::hashers::BridgeHasher;
use fzc::traits::{LargeCollection, MediumCollection, SmallCollection};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    FzHash,
    CoreHashL,
    CoreHashM,
    CoreHashS,
    Scan,
    FzOrd,
    Eytz,
    FzScalar,
    Sparse,
    Dense,
    FzStr,
}
use Kind::*;

pub fn index_of<T: Scalar>(t: &T) -> usize {
    Scalar::index(t)
}

/// Builds a map of the given kind, or None where the kind cannot hold the entries (by its documented limits).
pub fn map_any<K: Key>(kind: Kind, e: Vec<(K, V)>, h: &HSpec) -> Option<BMap<K>> {
    let distinct = e.iter().map(|x| &x.0).collect::<BTreeSet<_>>().len();
    let bh = DynBH(h.clone());
    Some(match kind {
        FzHash => Box::new(fz::FzHashMap::with_hasher(e, bh)),
        CoreHashL => Box::new(fzc::maps::HashMap::<K, V, LargeCollection, _>::with_hasher(e, BridgeHasher::new(bh)).expect("large map")),
        CoreHashM if distinct <= 65535 => Box::new(fzc::maps::HashMap::<K, V, MediumCollection, _>::with_hasher(e, BridgeHasher::new(bh)).expect("medium map")),
        CoreHashS if distinct <= 255 => Box::new(fzc::maps::HashMap::<K, V, SmallCollection, _>::with_hasher(e, BridgeHasher::new(bh)).expect("small map")),
        Scan if e.len() <= 400 => Box::new(fzc::maps::ScanMap::new(e)),
        FzOrd => Box::new(fz::FzOrderedMap::new(e)),
        Eytz => Box::new(fzc::maps::EytzingerSearchMap::new(e)),
        _ => return None,
    })
}
pub fn map_scalar<K: Key + Scalar>(kind: Kind, e: Vec<(K, V)>, h: &HSpec) -> Option<BMap<K>>
where
    K::Alt: Scalar,
{
    let lo = e.iter().map(|x| index_of(&x.0)).min();
    let hi = e.iter().map(|x| index_of(&x.0)).max();
    let range = match (lo, hi) {
        (Some(a), Some(b)) => b - a,
        _ => 0,
    };
    Some(match kind {
        FzScalar => Box::new(fz::FzScalarMap::new(e)),
        Sparse if range < 1 << 17 => Box::new(fzc::maps::SparseScalarLookupMap::new(e)),
        Dense => {
            let distinct = e.iter().map(|x| &x.0).collect::<BTreeSet<_>>().len();
            if distinct > 0 && range != distinct - 1 {
                return None;
            }
            Box::new(fzc::maps::DenseScalarLookupMap::new(e).expect("contiguous keys"))
        }
        k => return map_any(k, e, h),
    })
}
pub fn map_str(kind: Kind, e: Vec<(Box<str>, V)>, h: &HSpec) -> Option<BMap<Box<str>>> {
    Some(match kind {
        FzStr => Box::new(fz::FzStringMap::with_hasher(e, DynBH(h.clone()))),
        k => return map_any(k, e, h),
    })
}
pub const INT_KINDS: &[Kind] = &[FzHash, CoreHashL, CoreHashM, CoreHashS, Scan, FzOrd, Eytz, FzScalar, Sparse, Dense];
pub const STR_KINDS: &[Kind] = &[FzHash, CoreHashL, CoreHashS, Scan, FzOrd, Eytz, FzStr];

pub fn set_any<K: Key>(kind: Kind, e: Vec<K>, h: &HSpec) -> Option<BSet<K>> {
    Some(match kind {
        FzHash => Box::new(fz::FzHashSet::with_hasher(e, DynBH(h.clone()))),
        FzOrd => Box::new(fz::FzOrderedSet::new(e)),
        _ => return None,
    })
}
pub fn set_scalar<K: Key + Scalar>(kind: Kind, e: Vec<K>, h: &HSpec) -> Option<BSet<K>>
where
    K::Alt: Scalar,
{
    Some(match kind {
        FzScalar => Box::new(fz::FzScalarSet::new(e)),
        k => return set_any(k, e, h),
    })
}
pub fn set_str(kind: Kind, e: Vec<Box<str>>, h: &HSpec) -> Option<BSet<Box<str>>> {
    Some(match kind {
        FzStr => Box::new(fz::FzStringSet::with_hasher(e, DynBH(h.clone()))),
        k => return set_any(k, e, h),
    })
}

/// Values encode the position of the entry, so "the last one wins" is visible.
pub fn number<K>(keys: Vec<K>) -> Vec<(K, V)> {
    keys.into_iter().enumerate().map(|(i, k)| (k, (i as u64).wrapping_mul(2_654_435_761) ^ 0xA5)).collect()
}
pub fn model<K: Ord + Clone>(e: &[(K, V)]) -> BTreeMap<K, V> {
    e.iter().cloned().collect()
}

/// Every probe through rotating routes: inherent, trait, trait object, and each query form.
pub fn lookups<K: Key>(m: &mut dyn DMap<K>, want: &BTreeMap<K, V>, probes: &[K], salt: u8) -> Res {
    let nm = m.name();
    for r in 0..2 {
        ensure_eq!(m.len(r), want.len(), "{nm}.len()");
        ensure_eq!(m.is_empty(r), want.is_empty(), "{nm}.is_empty()");
    }
    let all = probes.len() <= 40;
    let mut panics = 0;
    for (i, p) in probes.iter().enumerate() {
        let w = want.get::<K>(p);
        let routes: &[u8] = if all { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11] } else { &[0, 5] };
        for r in routes {
            let r = if all { *r } else { (r.wrapping_add(i as u8).wrapping_add(salt)) % 12 };
            let g = m.get(r, p).copied();
            ensure!(g == w.copied(), "{nm}.get({p:?}) by route {r} = {g:?}, expected {w:?} (len {})", want.len());
            ensure!(m.has(r, p) == w.is_some(), "{nm}.contains_key({p:?}) by route {r} = {}", !w.is_some());
            let kv = m.get_kv(r, p).map(|(k, v)| (k.clone(), *v));
            ensure!(kv == w.map(|v| (p.clone(), *v)), "{nm}.get_key_value({p:?}) by route {r} = {kv:?}, expected value {w:?}");
            let gm = m.get_mut(r, p).map(|v| *v);
            ensure!(gm == w.copied(), "{nm}.get_mut({p:?}) by route {r} = {gm:?}, expected {w:?}");
        }
        let r = (i as u8).wrapping_add(salt);
        if let Some(w) = w {
            let x = *m.index(r, p);
            ensure!(x == *w, "{nm}[{p:?}] = {x}, expected {w}");
        } else if panics < 2 {
            panics += 1;
            ensure!(guarded(|| *m.index(r, p)).is_err(), "{nm}[{p:?}] returned for an absent key");
        }
    }
    Ok(())
}
pub fn set_lookups<K: Key>(s: &dyn DSet<K>, want: &BTreeSet<K>, probes: &[K], salt: u8) -> Res {
    let nm = s.name();
    for r in 0..2 {
        ensure_eq!(s.len(r), want.len(), "{nm}.len()");
        ensure_eq!(s.is_empty(r), want.is_empty(), "{nm}.is_empty()");
    }
    let all = probes.len() <= 40;
    for (i, p) in probes.iter().enumerate() {
        let w = want.contains::<K>(p);
        let routes: &[u8] = if all { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11] } else { &[0, 5] };
        for r in routes {
            let r = if all { *r } else { (r.wrapping_add(i as u8).wrapping_add(salt)) % 12 };
            ensure!(s.has(r, p) == w, "{nm}.contains({p:?}) by route {r} = {}", !w);
            let g = s.get(r, p).cloned();
            ensure!(g == w.then(|| p.clone()), "{nm}.get({p:?}) by route {r} = {g:?}, expected present={w}");
        }
    }
    Ok(())
}
/// Contents by iteration equal the model (order ignored).
pub fn contents<K: Key>(m: &dyn DMap<K>, want: &BTreeMap<K, V>) -> Res {
    let nm = m.name();
    let got: Vec<(K, V)> = m.iter(0).map(|(k, v)| (k.clone(), *v)).collect();
    ensure_eq!(got.len(), want.len(), "{nm}: number of entries iterated");
    let g: BTreeMap<K, V> = got.into_iter().collect();
    ensure!(g == *want, "{nm}: iteration yields {g:?}, expected {want:?}");
    Ok(())
}
pub fn set_contents<K: Key>(s: &dyn DSet<K>, want: &BTreeSet<K>) -> Res {
    let nm = s.name();
    let got: Vec<K> = s.iter(0).cloned().collect();
    ensure_eq!(got.len(), want.len(), "{nm}: number of values iterated");
    let g: BTreeSet<K> = got.into_iter().collect();
    ensure!(g == *want, "{nm}: iteration yields {g:?}, expected {want:?}");
    Ok(())
}
