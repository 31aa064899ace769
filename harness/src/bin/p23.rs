#[path = "../catalog.rs"]
mod catalog;
use frozen_collections as fz;
use frozen_collections_core as fzc;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::marker::PhantomData;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Mutex, OnceLock};
use vh::facade::*;
use vh::keys::*;
use vh::oracle::{Kind, Kind::*, *};
use vh::runner::*;
use vh::{ensure, ensure_eq};

/// Shares a type-erased collection between threads. Every type shared here is one that "auto-traits" shows to be `Sync`.
struct Share<T>(T);
unsafe impl<T> Sync for Share<T> {}
unsafe impl<T> Send for Share<T> {}
impl<T> Share<T> {
    fn get(&self) -> &T {
        &self.0
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Plan {
    /// One entry per thread: what it does between lookups (bit set) and how it walks the probes.
    threads: Vec<(u8, u16)>,
    rounds: u8,
    ops: u16,
}
fn plan() -> impl Strategy<Value = Plan> {
    (proptest::collection::vec((any::<u8>(), any::<u16>()), 2..6), 1u8..8, 2000u16..40_000).prop_map(|(threads, rounds, ops)| Plan { threads, rounds, ops })
}

/// Runs `body(thread, stop)` in every thread at once, starting together; the first failure is the result.
fn together(plan: &Plan, body: impl Fn(u8, u16, &dyn Fn() -> bool) -> Res + Sync) -> Res {
    let first = Mutex::new(None);
    let stop = AtomicBool::new(false);
    let here = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for &(acts, walk) in &plan.threads {
            let (first, stop, here, body) = (&first, &stop, &here, &body);
            s.spawn(move || {
                here.fetch_add(1, SeqCst);
                while here.load(SeqCst) < plan.threads.len() {
                    std::thread::yield_now();
                }
                let r = match guarded(|| body(acts, walk, &|| stop.load(SeqCst))) {
                    Ok(r) => r,
                    Err(p) => Err(p),
                };
                if let Err(m) = r {
                    stop.store(true, SeqCst);
                    first.lock().unwrap().get_or_insert(format!("while {} threads read one collection: {m}", plan.threads.len()));
                }
            });
        }
    });
    first.into_inner().unwrap().map_or(Ok(()), Err)
}

fn step(walk: u16, n: usize) -> (usize, usize) {
    // any stride coprime with n visits every probe
    let mut st = (walk as usize / 7) % n.max(1) + 1;
    while gcd(st, n) != 1 {
        st += 1;
    }
    (walk as usize % n.max(1), st)
}
fn gcd(a: usize, b: usize) -> usize {
    if b == 0 { a } else { gcd(b, a % b) }
}

fn race_map<K: Key + Send + Sync>(build: &dyn Fn() -> BMap<K>, want: &BTreeMap<K, V>, probes: &[K], plan: &Plan) -> Res {
    for _ in 0..plan.rounds {
        let m = Share(build());
        // cloning, formatting and comparing need an undisturbed copy to compare with
        let calm = build();
        let (dbg, json) = (calm.dbg(), calm.json());
        together(plan, |acts, walk, stop| {
            let m = m.get();
            let nm = m.name();
            let (mut at, st) = step(walk, probes.len());
            let n = probes.len();
            for op in 0..plan.ops as usize {
                if n == 0 || (op % 64 == 63 && stop()) {
                    break;
                }
                at = (at + st) % n;
                let p = &probes[at];
                let w = want.get::<K>(p);
                let r = ((op as u16).wrapping_add(walk) % 12) as u8;
                match op % 4 {
                    0 | 1 => {
                        let g = m.get(r, p).copied();
                        ensure!(g == w.copied(), "{nm}.get({p:?}) by route {r} = {g:?}, expected {w:?}");
                    }
                    2 => ensure!(m.has(r, p) == w.is_some(), "{nm}.contains_key({p:?}) by route {r} = {}", w.is_none()),
                    _ => {
                        let kv = m.get_kv(r, p).map(|(k, v)| (k.clone(), *v));
                        ensure!(kv == w.map(|v| (p.clone(), *v)), "{nm}.get_key_value({p:?}) by route {r} = {kv:?}, expected value {w:?}");
                    }
                }
                if let (Some(w), 5) = (w, op % 8) {
                    let x = *m.index(r, p);
                    ensure!(x == *w, "{nm}[{p:?}] = {x}, expected {w}");
                }
                if op % 512 == 17 {
                    ensure_eq!(m.len(r), want.len(), "{nm}.len()");
                    if acts & 1 != 0 {
                        contents(&**m, want)?;
                    }
                    if acts & 2 != 0 {
                        ensure_eq!(m.keys(r).count(), want.len(), "{nm}.keys()");
                        let s = m.values(r).fold(0u64, |a, v| a.wrapping_add(*v));
                        ensure_eq!(s, want.values().fold(0u64, |a, v| a.wrapping_add(*v)), "{nm}.values() summed");
                    }
                    if acts & 4 != 0 {
                        ensure!(m.dbg() == dbg, "{nm} formats differently while others read it");
                    }
                    if acts & 8 != 0 {
                        ensure!(m.json() == json, "{nm} serializes differently while others read it");
                    }
                    if acts & 16 != 0 {
                        let c = m.clone_box();
                        contents(&*c, want)?;
                        let g = c.get(r, p).copied();
                        ensure!(g == w.copied(), "clone of {nm}.get({p:?}) = {g:?}, expected {w:?}");
                        ensure!(m.eq_any(&MQ(c)), "{nm} differs from its clone");
                    }
                }
            }
            Ok(())
        })?;
        // afterwards, in yet another thread, by value
        let moved = Share(m.0);
        together(&Plan { threads: vec![(0, 0)], ..plan.clone() }, |_, _, _| contents(&*moved.get().clone_box(), want))?;
        let got: BTreeMap<K, V> = std::thread::scope(|s| {
            s.spawn(move || {
                let m = moved;
                let Share(m) = m;
                m.into_iter().collect()
            })
            .join()
            .unwrap()
        });
        ensure!(got == *want, "consumed in another thread: {got:?}, expected {want:?}");
    }
    Ok(())
}

fn race_set<T: Key + Send + Sync>(build: &dyn Fn() -> BSet<T>, other: &dyn Fn() -> BSet<T>, want: &BTreeSet<T>, with: &BTreeSet<T>, probes: &[T], plan: &Plan) -> Res {
    let results: [Vec<T>; 4] = [want | with, want & with, want - with, want ^ with].map(|s| s.into_iter().collect());
    for _ in 0..plan.rounds {
        let m = Share(build());
        let calm = build();
        let (dbg, json) = (calm.dbg(), calm.json());
        let others = Share(plan.threads.iter().map(|_| SQ(std::rc::Rc::from(other()))).collect::<Vec<_>>());
        let me = AtomicUsize::new(0);
        together(plan, |acts, walk, stop| {
            let m = m.get();
            // one per thread: only `m` is shared
            let o = &others.get()[me.fetch_add(1, SeqCst)];
            let nm = m.name();
            let (mut at, st) = step(walk, probes.len());
            let n = probes.len();
            for op in 0..plan.ops as usize {
                if n == 0 || (op % 64 == 63 && stop()) {
                    break;
                }
                at = (at + st) % n;
                let p = &probes[at];
                let w = want.contains::<T>(p);
                let r = ((op as u16).wrapping_add(walk) % 12) as u8;
                if op % 3 == 0 {
                    let g = m.get(r, p).cloned();
                    ensure!(g == w.then(|| p.clone()), "{nm}.get({p:?}) by route {r} = {g:?}, expected present={w}");
                } else {
                    ensure!(m.has(r, p) == w, "{nm}.contains({p:?}) by route {r} = {}", !w);
                }
                if op % 512 == 17 {
                    ensure_eq!(m.len(r), want.len(), "{nm}.len()");
                    if acts & 1 != 0 {
                        set_contents(&**m, want)?;
                    }
                    if acts & 4 != 0 {
                        ensure!(m.dbg() == dbg, "{nm} formats differently while others read it");
                    }
                    if acts & 8 != 0 {
                        ensure!(m.json() == json, "{nm} serializes differently while others read it");
                    }
                    if acts & 16 != 0 {
                        let c = m.clone_box();
                        set_contents(&*c, want)?;
                        ensure!(m.eq_any(&SQ(std::rc::Rc::from(c))), "{nm} differs from its clone");
                    }
                    if acts & 32 != 0 {
                        let op = (op / 512 % 4) as u8;
                        m.lazy(op, o, &results[op as usize], &[0, 1, 3])?;
                    }
                    if acts & 64 != 0 {
                        for (op, e) in [want.is_disjoint(with), want.is_subset(with), want.is_superset(with)].into_iter().enumerate() {
                            ensure!(m.pred(op as u8, o) == e, "{nm}: relation {op} to the other set = {}", !e);
                        }
                    }
                }
            }
            Ok(())
        })?;
        let moved = Share(m.0);
        let got: BTreeSet<T> = std::thread::scope(|s| {
            s.spawn(move || {
                let m = moved;
                let Share(m) = m;
                m.into_iter().collect()
            })
            .join()
            .unwrap()
        });
        ensure!(got == *want, "consumed in another thread: {got:?}, expected {want:?}");
    }
    Ok(())
}

fn describe(o: &mut Obs, plan: &Plan, n: usize, name: String) {
    o.nontrivial_if(n >= 2);
    o.label(match n { 0 => "empty", 1..=3 => "len<4", 4..=63 => "len<64", _ => "len>=64" });
    o.label(&format!("{} threads", plan.threads.len()));
    o.label(name.split('<').next().unwrap());
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct IntCase { keys: IntKeys, probes: Vec<i64>, other: u8, kind: u8, hash: HSpec, plan: Plan }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct StrCase { keys: StrKeys, probes: Vec<SProbe>, other: u8, kind: u8, hash: HSpec, plan: Plan }

/// Mostly hits: every key once or more, then the misses.
fn mix<K: Clone>(keys: &[K], misses: Vec<K>) -> Vec<K> {
    let cap = keys.len() / 3 + 2;
    keys.iter().cloned().chain(misses.into_iter().take(cap)).collect()
}
fn ints(c: &IntCase, o: &mut Obs) -> Res {
    let k = c.keys.expand();
    let p = mix(&k, int_probes(&k, &c.probes));
    let all = INT_KINDS;
    let kind = (0..all.len()).map(|i| all[(c.kind as usize + i) % all.len()]).find(|x| map_scalar(*x, number(k.clone()), &c.hash).is_some()).unwrap();
    let e = number(k.clone());
    let build = || map_scalar(kind, e.clone(), &c.hash).unwrap();
    describe(o, &c.plan, k.iter().collect::<BTreeSet<_>>().len(), build().name());
    race_map(&build, &model(&e), &p, &c.plan)
}
fn int_sets(c: &IntCase, o: &mut Obs) -> Res {
    let k = c.keys.expand();
    let p = mix(&k, int_probes(&k, &c.probes));
    let kind = [FzHash, FzOrd, FzScalar][c.kind as usize % 3];
    let other = [FzHash, FzOrd, FzScalar][c.other as usize % 3];
    let w: Vec<i64> = k.iter().copied().step_by(2).chain(c.probes.iter().copied()).collect();
    let build = || set_scalar(kind, k.clone(), &c.hash).unwrap();
    describe(o, &c.plan, k.iter().collect::<BTreeSet<_>>().len(), build().name());
    race_set(&build, &|| set_scalar(other, w.clone(), &c.hash).unwrap(), &k.iter().copied().collect(), &w.iter().copied().collect(), &p, &c.plan)
}
fn strs(c: &StrCase, o: &mut Obs) -> Res {
    let k = c.keys.expand();
    let p = mix(&k, str_probes(&k, &c.probes));
    let all = STR_KINDS;
    // string maps carry the most analysis: half of the cases
    let kind = if c.kind % 2 == 0 { Kind::FzStr } else { (0..all.len()).map(|i| all[(c.kind as usize + i) % all.len()]).find(|x| map_str(*x, number(k.clone()), &c.hash).is_some()).unwrap() };
    let e = number(k.clone());
    let build = || map_str(kind, e.clone(), &c.hash).unwrap();
    describe(o, &c.plan, k.iter().collect::<BTreeSet<_>>().len(), build().name());
    race_map(&build, &model(&e), &p, &c.plan)?;
    if c.kind % 3 == 0 {
        let w: Vec<Box<str>> = k.iter().cloned().step_by(2).chain(p.iter().rev().take(3).cloned()).collect();
        let sk = [FzStr, FzHash, FzOrd][c.other as usize % 3];
        o.label("set as well");
        race_set(&|| set_str(sk, k.clone(), &c.hash).unwrap(), &|| set_str(FzStr, w.clone(), &c.hash).unwrap(), &k.iter().cloned().collect(), &w.iter().cloned().collect(), &p, &c.plan)?;
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CatCase { group: u8, which: usize, plan: Plan }
fn cat(c: &CatCase, o: &mut Obs) -> Res {
    type Maps<K> = OnceLock<Share<Vec<(BMap<K>, Vec<(K, V)>)>>>;
    type Sets<K> = OnceLock<Share<Vec<(BSet<K>, Vec<K>)>>>;
    static IM: Maps<i64> = OnceLock::new();
    static SM: Maps<&'static str> = OnceLock::new();
    static IS: Sets<i64> = OnceLock::new();
    static SS: Sets<&'static str> = OnceLock::new();
    fn near_i(k: &[i64]) -> Vec<i64> {
        int_probes(k, &[])
    }
    fn near_s(k: &[&'static str]) -> Vec<&'static str> {
        k.iter().map(|s| if s.is_empty() { "x" } else { &s[..s.char_indices().last().unwrap().0] }).collect()
    }
    fn map<K: Key + Send + Sync>(v: &[(BMap<K>, Vec<(K, V)>)], c: &CatCase, near: impl Fn(&[K]) -> Vec<K>, o: &mut Obs) -> Res {
        let (m, e) = &v[c.which % v.len()];
        let k: Vec<K> = e.iter().map(|x| x.0.clone()).collect();
        describe(o, &c.plan, k.len(), m.name());
        race_map(&|| m.clone_box(), &model(e), &mix(&k, near(&k)), &c.plan)
    }
    fn set<K: Key + Send + Sync>(v: &[(BSet<K>, Vec<K>)], c: &CatCase, near: impl Fn(&[K]) -> Vec<K>, o: &mut Obs) -> Res {
        let (m, k) = &v[c.which % v.len()];
        describe(o, &c.plan, k.len(), m.name());
        let w: Vec<K> = mix(k, near(k)).into_iter().step_by(2).collect();
        race_set(&|| m.clone_box(), &|| set_any(FzOrd, w.clone(), &HSpec::Fold(0)).unwrap(), &k.iter().cloned().collect(), &w.iter().cloned().collect(), &mix(k, near(k)), &c.plan)
    }
    match c.group % 4 {
        0 => map(IM.get_or_init(|| Share(catalog::int_maps())).get(), c, near_i, o),
        1 => map(SM.get_or_init(|| Share(catalog::str_maps())).get(), c, near_s, o),
        2 => set(IS.get_or_init(|| Share(catalog::int_sets())).get(), c, near_i, o),
        _ => set(SS.get_or_init(|| Share(catalog::str_sets())).get(), c, near_s, o),
    }
}

// ---- auto traits: a collection may cross threads exactly when its contents may ----
struct W<T: ?Sized>(PhantomData<T>);
trait NotSend { const SEND: bool = false; }
trait NotSync { const SYNC: bool = false; }
impl<T: ?Sized> NotSend for W<T> {}
impl<T: ?Sized> NotSync for W<T> {}
#[allow(dead_code)]
impl<T: ?Sized + Send> W<T> { const SEND: bool = true; }
#[allow(dead_code)]
impl<T: ?Sized + Sync> W<T> { const SYNC: bool = true; }
macro_rules! auto { ($t:ty) => { (<W<$t>>::SEND, <W<$t>>::SYNC) }; }

#[derive(Clone, Copy, PartialEq, Debug)]
enum Rule {
    /// Owns its contents: Send exactly when they are, Sync exactly when they are.
    Own,
    /// Holds shared references: both exactly when the contents are Sync.
    Ref,
    /// Holds exclusive references: like owning.
    Mut,
}
struct Row { ty: &'static str, contents: Vec<(bool, bool)>, rule: Rule, got: (bool, bool), desc: String }

type Both = u32;
type Neither = std::rc::Rc<u32>;
type OnlySend = std::cell::Cell<u32>;
#[derive(Clone)]
struct OnlySync(#[allow(dead_code)] PhantomData<std::sync::MutexGuard<'static, u32>>);

type Br<B> = fzc::hashers::BridgeHasher<B>;
type Lc = fzc::traits::LargeCollection;
type Sc = fzc::traits::SmallCollection;
type Mc = fzc::traits::MediumCollection;

macro_rules! row {
    ($v:ident, $rule:ident, $t:ty, [$($c:ty),*]) => {
        $v.push(Row { ty: stringify!($t), contents: vec![$(auto!($c)),*], rule: Rule::$rule, got: auto!($t), desc: [$(stringify!($c)),*].join(", ") })
    };
}
macro_rules! maps_of {
    ($v:ident; $(($k:ty, $x:ty)),*) => {$(
        row!($v, Own, fz::FzHashMap<$k, $x>, [$k, $x]);
        row!($v, Own, fz::FzOrderedMap<$k, $x>, [$k, $x]);
        row!($v, Own, fz::FzScalarMap<$k, $x>, [$k, $x]);
        row!($v, Own, fz::FzStringMap<$k, $x>, [$k, $x]);
        row!($v, Own, fzc::maps::HashMap<$k, $x, Lc>, [$k, $x]);
        row!($v, Own, fzc::maps::HashMap<$k, $x, Mc>, [$k, $x]);
        row!($v, Own, fzc::maps::HashMap<$k, $x, Sc>, [$k, $x]);
        row!($v, Own, fzc::maps::ScanMap<$k, $x>, [$k, $x]);
        row!($v, Own, fzc::maps::EytzingerSearchMap<$k, $x>, [$k, $x]);
        row!($v, Own, fzc::maps::DenseScalarLookupMap<$k, $x>, [$k, $x]);
        row!($v, Own, fzc::maps::SparseScalarLookupMap<$k, $x>, [$k, $x]);
        row!($v, Own, fzc::inline_maps::InlineScanMap<$k, $x, 3>, [$k, $x]);
        row!($v, Own, fzc::inline_maps::InlineEytzingerSearchMap<$k, $x, 3>, [$k, $x]);
        row!($v, Own, fzc::inline_maps::InlineDenseScalarLookupMap<$k, $x, 3>, [$k, $x]);
        row!($v, Own, fzc::inline_maps::InlineSparseScalarLookupMap<$k, $x, 3, 9, Sc>, [$k, $x]);
        row!($v, Own, fzc::inline_maps::InlineHashMap<$k, $x, 3, 4, Sc>, [$k, $x]);
        row!($v, Own, fzc::inline_maps::InlineHashMapNoCollisions<$k, $x, 3, 4, Sc>, [$k, $x]);
        row!($v, Ref, fzc::maps::Iter<'static, $k, $x>, [$k, $x]);
        row!($v, Ref, fzc::maps::Keys<'static, $k, $x>, [$k, $x]);
        row!($v, Ref, fzc::maps::Values<'static, $k, $x>, [$k, $x]);
        row!($v, Mut, fzc::maps::IterMut<'static, $k, $x>, [$k, $x]);
        row!($v, Mut, fzc::maps::ValuesMut<'static, $k, $x>, [$k, $x]);
        row!($v, Own, fzc::maps::IntoIter<$k, $x>, [$k, $x]);
        row!($v, Own, fzc::maps::IntoKeys<$k, $x>, [$k, $x]);
        row!($v, Own, fzc::maps::IntoValues<$k, $x>, [$k, $x]);
    )*};
}
macro_rules! sets_of {
    ($v:ident; $($t:ty),*) => {$(
        row!($v, Own, fz::FzHashSet<$t>, [$t]);
        row!($v, Own, fz::FzOrderedSet<$t>, [$t]);
        row!($v, Own, fz::FzScalarSet<$t>, [$t]);
        row!($v, Own, fz::FzStringSet<$t>, [$t]);
        row!($v, Own, fzc::inline_sets::InlineScanSet<$t, 3>, [$t]);
        row!($v, Own, fzc::inline_sets::InlineEytzingerSearchSet<$t, 3>, [$t]);
        row!($v, Own, fzc::inline_sets::InlineDenseScalarLookupSet<$t, 3>, [$t]);
        row!($v, Own, fzc::inline_sets::InlineSparseScalarLookupSet<$t, 3, 9, Sc>, [$t]);
        row!($v, Own, fzc::inline_sets::InlineHashSet<$t, 3, 4, Sc>, [$t]);
        row!($v, Own, fzc::inline_sets::InlineHashSetNoCollisions<$t, 3, 4, Sc>, [$t]);
        row!($v, Own, fzc::hash_tables::InlineHashTable<$t, 3, 4, Sc>, [$t]);
        row!($v, Own, fzc::hash_tables::InlineHashTableNoCollisions<$t, 3, 4, Sc>, [$t]);
        row!($v, Ref, fzc::sets::Iter<'static, $t>, [$t]);
        row!($v, Own, fzc::sets::IntoIter<$t>, [$t]);
    )*};
}
macro_rules! hashers_of {
    ($v:ident; $($h:ty),*) => {$(
        row!($v, Own, fz::FzHashMap<u32, u32, $h>, [$h]);
        row!($v, Own, fz::FzHashSet<u32, $h>, [$h]);
        row!($v, Own, fz::FzStringMap<Box<str>, u32, $h>, [$h]);
        row!($v, Own, fz::FzStringSet<Box<str>, $h>, [$h]);
        row!($v, Own, fzc::maps::HashMap<u32, u32, Lc, Br<$h>>, [$h]);
        row!($v, Own, fzc::inline_maps::InlineHashMap<u32, u32, 3, 4, Sc, Br<$h>>, [$h]);
        row!($v, Own, fzc::inline_maps::InlineHashMapNoCollisions<u32, u32, 3, 4, Sc, Br<$h>>, [$h]);
        row!($v, Own, fzc::inline_sets::InlineHashSet<u32, 3, 4, Sc, Br<$h>>, [$h]);
        row!($v, Own, fzc::inline_sets::InlineHashSetNoCollisions<u32, 3, 4, Sc, Br<$h>>, [$h]);
        row!($v, Own, fzc::hashers::LeftRangeHasher<$h>, [$h]);
        row!($v, Own, fzc::hashers::RightRangeHasher<$h>, [$h]);
        row!($v, Own, fzc::hashers::InlineLeftRangeHasher<0, 2, $h>, [$h]);
        row!($v, Own, fzc::hashers::InlineRightRangeHasher<0, 2, $h>, [$h]);
    )*};
}
macro_rules! lazies_of {
    ($v:ident; $($s:ident),*) => {$(
        row!($v, Ref, fzc::sets::$s<'static, fz::FzOrderedSet<u32>, fz::FzHashSet<u32>, u32>, [u32]);
        row!($v, Ref, fzc::sets::$s<'static, fz::FzHashSet<u32, HB<OnlySend>>, fz::FzHashSet<u32>, u32>, [HB<OnlySend>]);
        row!($v, Ref, fzc::sets::$s<'static, fz::FzOrderedSet<u32>, fz::FzHashSet<u32, HB<Neither>>, u32>, [HB<Neither>]);
        row!($v, Ref, fzc::sets::$s<'static, fz::FzOrderedSet<std::rc::Rc<u32>>, fz::FzHashSet<std::rc::Rc<u32>>, std::rc::Rc<u32>>, [Neither]);
    )*};
}
/// A hasher builder with a passenger that decides its auto traits.
#[derive(Clone, Default)]
struct HB<T>(#[allow(dead_code)] PhantomData<T>);
impl<T> std::hash::BuildHasher for HB<T> {
    type Hasher = std::collections::hash_map::DefaultHasher;
    fn build_hasher(&self) -> Self::Hasher {
        Default::default()
    }
}
fn rows() -> &'static Vec<Row> {
    static R: OnceLock<Vec<Row>> = OnceLock::new();
    R.get_or_init(|| {
        let mut v = vec![];
        maps_of!(v; (Both, Both), (Both, Neither), (Both, OnlySend), (Both, OnlySync), (Neither, Both), (OnlySend, Both), (OnlySync, Both),
            (Neither, Neither), (OnlySend, OnlySync), (OnlySync, OnlySend), (String, String), (Box<str>, Both));
        sets_of!(v; Both, Neither, OnlySend, OnlySync, String, Box<str>);
        hashers_of!(v; HB<Both>, HB<Neither>, HB<OnlySend>, HB<OnlySync>);
        lazies_of!(v; Union, Intersection, Difference, SymmetricDifference);
        v
    })
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct RowCase { row: usize }
fn autos(c: &RowCase, o: &mut Obs) -> Res {
    let all = rows();
    let r = &all[c.row % all.len()];
    let send = r.contents.iter().all(|x| x.0);
    let sync = r.contents.iter().all(|x| x.1);
    let want = match r.rule {
        Rule::Own | Rule::Mut => (send, sync),
        Rule::Ref => (sync, sync),
    };
    o.nontrivial_if(!r.contents.is_empty());
    o.label(&format!("{:?}: send={send} sync={sync}", r.rule));
    ensure!(r.got.0 == want.0, "{} (contents: {}) is Send: {}, although its contents call for {}", r.ty, r.desc, r.got.0, want.0);
    ensure!(r.got.1 == want.1, "{} (contents: {}) is Sync: {}, although its contents call for {}", r.ty, r.desc, r.got.1, want.1);
    Ok(())
}

fn main() {
    let n = rows().len();
    vh::runner::main("P23", vec![
        sub("auto-traits", 20_000, 60_000, move || (0..n).prop_map(|row| RowCase { row }), autos,
            "every collection, table, hasher and iterator type over contents that may cross threads, only be moved, only be shared, or neither: Send and Sync exactly as the contents call for; every row is non-trivial."),
        sub("int-maps", 400, 4_000, || (int_keys(300), proptest::collection::vec(edge(), 0..8), any::<u8>(), any::<u8>(), any_hasher(), plan()).prop_map(|(keys, probes, other, kind, hash, plan)| IntCase { keys, probes, other, kind, hash, plan }), ints,
            "2 to 5 threads look up, iterate, format, serialize, compare and clone one freshly built map of each run-time kind at once, then it is consumed in another thread: each answer equals the model's; non-trivial: at least 2 distinct keys."),
        sub("int-sets", 300, 3_000, || (int_keys(300), proptest::collection::vec(edge(), 0..8), any::<u8>(), any::<u8>(), any_hasher(), plan()).prop_map(|(keys, probes, other, kind, hash, plan)| IntCase { keys, probes, other, kind, hash, plan }), int_sets,
            "the same for sets, with set algebra and relations against a private other set (same non-triviality rule)."),
        sub("strings", 400, 4_000, || (str_keys(200), sprobes(), any::<u8>(), any::<u8>(), any_hasher(), plan()).prop_map(|(keys, probes, other, kind, hash, plan)| StrCase { keys, probes, other, kind, hash, plan }), strs,
            "the same for string maps and sets (same rule)."),
        sub("macro-built", 400, 4_000, || (any::<u8>(), any::<usize>(), plan()).prop_map(|(group, which, plan)| CatCase { group, which, plan }), cat,
            "the same for collections of every inline kind built by the macros (same rule)."),
    ]);
}
