//! One object-safe view over every map and set type, so that a single oracle judges all of them.
//! `r` selects the route: inherent methods, trait methods, trait objects, and the form of the query key.
//! Traits of the crate under test are never imported here, so method syntax means the inherent method.
use crate::ensure;
use crate::runner::Res;
use equivalent::{Comparable, Equivalent};
use frozen_collections as fz;
use frozen_collections_core as fzc;
use fz::{Len, MapExtras, MapIteration, MapQuery, Scalar, SetExtras, SetIteration, SetOps, SetQuery};
use fzc::traits::{CollectionMagnitude, Hasher as FzHasher};
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::fmt::Debug;
use std::hash::{BuildHasher, Hash, Hasher};

pub type V = u64;

thread_local! {
    static WRITES: std::cell::Cell<(u64, u64)> = const { std::cell::Cell::new((0, u64::MAX)) };
}
/// Calls of `write` since `fail_write`.
pub fn writes() -> u64 {
    WRITES.get().0
}
/// Makes the n-th write from now on (of serialization output in this thread) fail, and only that one.
pub fn fail_write(n: u64) {
    WRITES.set((0, n));
}
/// Where `json` and `bin` write.
#[derive(Default)]
struct Sink(Vec<u8>);
impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let (n, bad) = WRITES.get();
        WRITES.set((n + 1, bad));
        if n == bad {
            return Err(std::io::Error::other("device error"));
        }
        self.0.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Key types used by the oracles.
pub trait Key: Clone + Debug + Eq + Ord + Hash + Borrow<Self::B> + serde::Serialize + 'static {
    type B: ?Sized + Hash + Eq + Ord;
    /// A different type that is equivalent/comparable to the key.
    type Alt: Hash + Eq + Equivalent<Self> + Comparable<Self>;
    fn tagged(&self, tag: u8) -> Self::Alt;
    fn alt(&self) -> Self::Alt {
        self.tagged(0)
    }
}
/// The tag takes part in `Eq` only: two tags are different query keys for the same entry.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Alt<T>(pub T, pub u8);
impl<T: Hash> Hash for Alt<T> {
    fn hash<H: Hasher>(&self, state: &mut H) {
        self.0.hash(state);
    }
}
macro_rules! int_key {
    ($($t:ty),*) => {$(
        impl Equivalent<$t> for Alt<$t> { fn equivalent(&self, k: &$t) -> bool { self.0 == *k } }
        impl Comparable<$t> for Alt<$t> { fn compare(&self, k: &$t) -> Ordering { self.0.cmp(k) } }
        impl Scalar for Alt<$t> { fn index(&self) -> usize { Scalar::index(&self.0) } }
        impl Key for $t { type B = $t; type Alt = Alt<$t>; fn tagged(&self, t: u8) -> Alt<$t> { Alt(*self, t) } }
    )*};
}
int_key!(i8, i16, i32, i64, isize, u8, u16, u32, u64, usize);
int_key!(std::num::NonZeroU8, std::num::NonZeroU16, std::num::NonZeroU32, std::num::NonZeroU64, std::num::NonZeroUsize);
int_key!(std::num::NonZeroI8, std::num::NonZeroI16, std::num::NonZeroI32, std::num::NonZeroI64, std::num::NonZeroIsize);

/// A unit enum with a derived scalar index and explicit, unsorted-looking names.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, fz::Scalar, serde::Serialize, serde::Deserialize)]
pub enum E { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20 }
pub const ALL_E: [E; 21] = { use E::*; [V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20] };
int_key!(E);

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct AltS(pub String, pub u8);
impl Hash for AltS {
    fn hash<H: Hasher>(&self, state: &mut H) {
        self.0.as_str().hash(state);
    }
}
impl Len for AltS {
    fn len(&self) -> usize {
        self.0.len()
    }
}
impl AsRef<str> for AltS {
    fn as_ref(&self) -> &str {
        &self.0
    }
}
macro_rules! str_key {
    ($($t:ty),*) => {$(
        impl Equivalent<$t> for AltS { fn equivalent(&self, k: &$t) -> bool { self.0.as_str() == &**k } }
        impl Comparable<$t> for AltS { fn compare(&self, k: &$t) -> Ordering { self.0.as_str().cmp(&**k) } }
        impl Key for $t { type B = str; type Alt = AltS; fn tagged(&self, t: u8) -> AltS { AltS(self.to_string(), t) } }
    )*};
}
str_key!(String, Box<str>, &'static str);

pub type BoxIt<'a, X> = Box<dyn Iterator<Item = X> + 'a>;

pub trait DMap<K: Key> {
    fn name(&self) -> String;
    fn len(&self, r: u8) -> usize;
    fn is_empty(&self, r: u8) -> bool;
    fn get(&self, r: u8, k: &K) -> Option<&V>;
    fn get_mut(&mut self, r: u8, k: &K) -> Option<&mut V>;
    fn get_kv(&self, r: u8, k: &K) -> Option<(&K, &V)>;
    fn has(&self, r: u8, k: &K) -> bool;
    fn index(&self, r: u8, k: &K) -> &V;
    /// `unchecked` selects get_disjoint_unchecked_mut; at most 6 keys.
    fn disjoint(&mut self, r: u8, unchecked: bool, ks: &[&K]) -> Vec<Option<&mut V>>;
    /// The same through an equivalent query type; keys with different tags are different query keys.
    fn disjoint_alt(&mut self, r: u8, ks: &[&K::Alt]) -> Vec<Option<&mut V>>;
    fn iter(&self, r: u8) -> BoxIt<'_, (&K, &V)>;
    fn iter_mut(&mut self, r: u8) -> BoxIt<'_, (&K, &mut V)>;
    fn keys(&self, r: u8) -> BoxIt<'_, &K>;
    fn values(&self, r: u8) -> BoxIt<'_, &V>;
    fn values_mut(&mut self, r: u8) -> BoxIt<'_, &mut V>;
    fn into_iter(self: Box<Self>) -> BoxIt<'static, (K, V)>;
    fn into_keys(self: Box<Self>, r: u8) -> BoxIt<'static, K>;
    fn into_values(self: Box<Self>, r: u8) -> BoxIt<'static, V>;
    fn clone_box(&self) -> Box<dyn DMap<K>>;
    fn eq_any(&self, o: &MQ<K>) -> bool;
    fn ne_any(&self, o: &MQ<K>) -> bool;
    fn dbg(&self) -> (String, String);
    fn json(&self) -> Result<Vec<u8>, String>;
    fn bin(&self) -> Result<Vec<u8>, String>;
    fn iter_protocol(&mut self, expected: &[(K, V)], plan: &[usize]) -> Res;
}
pub type BMap<K> = Box<dyn DMap<K>>;
/// Any map as a right-hand side of `==`.
pub struct MQ<K>(pub BMap<K>);
impl<K: Key> Len for MQ<K> {
    fn len(&self) -> usize {
        self.0.len(0)
    }
}
impl<K: Key> MapQuery<K, V> for MQ<K> {
    fn get(&self, key: &K) -> Option<&V> {
        self.0.get(0, key)
    }
    fn get_mut(&mut self, key: &K) -> Option<&mut V> {
        self.0.get_mut(0, key)
    }
    fn contains_key(&self, key: &K) -> bool {
        self.0.has(0, key)
    }
}

/// Exercises one kind of iterator: exactly-once, exact size at every point, rest-consumers, fusedness.
pub fn proto<I, X: Ord + Clone + Debug>(name: &str, mk: &mut dyn FnMut() -> I, f: fn(I::Item) -> X, expected: &[X], plan: &[usize], check_len: fn(&I) -> Option<usize>) -> Res
where
    I: Iterator,
{
    let n = expected.len();
    let sorted = |mut v: Vec<X>| {
        v.sort();
        v
    };
    let mut want = expected.to_vec();
    want.sort();
    // stepping
    let mut it = mk();
    let mut got = Vec::new();
    loop {
        let rem = n.checked_sub(got.len());
        ensure!(rem.is_some(), "{name}: yields more than {n} items");
        let rem = rem.unwrap();
        let sh = it.size_hint();
        ensure!(sh == (rem, Some(rem)), "{name}: size_hint {sh:?} with {rem} of {n} remaining");
        if let Some(l) = check_len(&it) {
            ensure!(l == rem, "{name}: len() {l} with {rem} of {n} remaining");
        }
        match it.next() {
            Some(x) => got.push(f(x)),
            None => break,
        }
    }
    for _ in 0..3 {
        ensure!(it.next().is_none(), "{name}: yields again after the end");
        ensure!(it.size_hint() == (0, Some(0)), "{name}: size_hint after the end {:?}", it.size_hint());
    }
    let got = sorted(got);
    if got != want {
        let miss = want.iter().find(|x| got.binary_search(x).is_err());
        let ex = got.iter().find(|x| want.binary_search(x).is_err());
        return Err(format!("{name}: stepping yields {} items, expected {n}; first missing {miss:?}, first unexpected {ex:?}", got.len()));
    }
    for (j, &p) in plan.iter().enumerate() {
        let p = if n == 0 { p % 2 } else { p % (n + 2) };
        let step = |it: &mut I, k: usize| -> Vec<X> { (0..k).map_while(|_| it.next().map(f)).collect() };
        // fold
        let mut it = mk();
        let mut head = step(&mut it, p);
        let rest = n.saturating_sub(p);
        head = it.fold(head, |mut a, x| {
            a.push(f(x));
            a
        });
        ensure!(sorted(head) == want, "{name}: folding the rest after {p} of {n} differs from stepping");
        // count
        let mut it = mk();
        let _ = step(&mut it, p);
        let c = it.count();
        ensure!(c == rest, "{name}: count after {p} of {n} is {c}");
        // collect
        let mut it = mk();
        let mut head = step(&mut it, p);
        head.extend(it.map(f));
        ensure!(sorted(head) == want, "{name}: collecting the rest after {p} of {n} differs from stepping");
        // last and nth
        let mut it = mk();
        let _ = step(&mut it, p);
        ensure!(it.last().is_some() == (rest > 0), "{name}: last() after {p} of {n}");
        let skip = (p + j) % (rest + 2);
        let mut it = mk();
        let _ = step(&mut it, p);
        ensure!(it.nth(skip).is_some() == (skip < rest), "{name}: nth({skip}) after {p} of {n}");
        let left = rest.saturating_sub(skip + 1);
        ensure!(it.size_hint() == (left, Some(left)), "{name}: size_hint {:?} after nth, {left} remaining", it.size_hint());
        ensure!(it.count() == left, "{name}: count after nth");
    }
    Ok(())
}
pub fn proto_clone<I: Iterator<Item: Debug> + Clone + Debug, X: Ord + Clone + Debug>(name: &str, mk: &mut dyn FnMut() -> I, f: fn(I::Item) -> X, n: usize, plan: &[usize]) -> Res {
    for &p in plan {
        let p = p % (n + 2);
        let mut it = mk();
        for _ in 0..p {
            let _ = it.next();
        }
        let c = it.clone();
        ensure!(c.size_hint() == it.size_hint(), "{name}: clone after {p} of {n} has size_hint {:?}, original {:?}", c.size_hint(), it.size_hint());
        if n <= 40 {
            let left: Vec<_> = it.clone().collect();
            let (shown, want) = (format!("{it:?}"), format!("{left:?}"));
            ensure!(shown == want, "{name}: {{:?}} after {p} of {n} shows {shown}, what is left is {want}");
        }
        let mut a: Vec<X> = it.map(f).collect();
        let mut b: Vec<X> = c.map(f).collect();
        a.sort();
        b.sort();
        ensure!(a == b, "{name}: clone after {p} of {n} yields {b:?}, original {a:?}");
    }
    Ok(())
}

fn exact<I: ExactSizeIterator>(i: &I) -> Option<usize> {
    Some(i.len())
}

macro_rules! pick {
    // runs the expression of the r-th alternative (mod the number of alternatives) and returns its value
    ($r:expr; $($e:expr),+ $(,)?) => {{
        #[allow(unused_mut, unused_assignments)]
        {
            let total = 0u8 $(+ { let _ = stringify!($e); 1 })+;
            let r = $r % total;
            let mut n = 0u8;
            $( if r == n { return $e; } n += 1; )+
            let _ = n;
            unreachable!()
        }
    }};
}
macro_rules! arr {
    ($ks:ident, $n:literal, $a:ident, $f:expr) => {{
        let $a: [&_; $n] = std::array::from_fn(|i| $ks[i]);
        Vec::from($f)
    }};
}
macro_rules! by_len {
    ($ks:ident, $a:ident => $f:expr) => {
        match $ks.len() {
            0 => arr!($ks, 0, $a, $f),
            1 => arr!($ks, 1, $a, $f),
            2 => arr!($ks, 2, $a, $f),
            3 => arr!($ks, 3, $a, $f),
            4 => arr!($ks, 4, $a, $f),
            5 => arr!($ks, 5, $a, $f),
            6 => arr!($ks, 6, $a, $f),
            12 => arr!($ks, 12, $a, $f),
            _ => panic!("too many keys"),
        }
    };
}

macro_rules! dmap {
    ([$($g:tt)*] $ty:ty, $K:ty, [$($w:tt)*], q: [$($qk:ident => $qt:ty : $qe:expr),+], index: [$($ik:ident => $ie:expr),+]) => {
        impl<$($g)*> DMap<$K> for $ty where $($w)* {
            fn name(&self) -> String { short_name(std::any::type_name::<Self>()) }
            fn len(&self, r: u8) -> usize { pick!(r; self.len(), Len::len(self)) }
            fn is_empty(&self, r: u8) -> bool { pick!(r; self.is_empty(), Len::is_empty(self)) }
            fn get(&self, r: u8, k: &$K) -> Option<&V> {
                pick!(r; $({ let $qk = k; self.get($qe) },
                          { let $qk = k; <Self as MapQuery<$qt, V>>::get(self, $qe) },
                          { let $qk = k; (self as &dyn MapQuery<$qt, V>).get($qe) }),+)
            }
            fn get_mut(&mut self, r: u8, k: &$K) -> Option<&mut V> {
                pick!(r; $({ let $qk = k; self.get_mut_inh($qe) },
                          { let $qk = k; <Self as MapQuery<$qt, V>>::get_mut(self, $qe) },
                          { let $qk = k; (self as &mut dyn MapQuery<$qt, V>).get_mut($qe) }),+)
            }
            fn get_kv(&self, r: u8, k: &$K) -> Option<(&$K, &V)> {
                pick!(r; $({ let $qk = k; self.get_key_value($qe) },
                          { let $qk = k; <Self as MapExtras<$K, V, $qt>>::get_key_value(self, $qe) }),+)
            }
            fn has(&self, r: u8, k: &$K) -> bool {
                pick!(r; $({ let $qk = k; self.contains_key($qe) },
                          { let $qk = k; <Self as MapQuery<$qt, V>>::contains_key(self, $qe) },
                          { let $qk = k; (self as &dyn MapQuery<$qt, V>).contains_key($qe) }),+)
            }
            fn index(&self, r: u8, k: &$K) -> &V {
                pick!(r; $({ let $ik = k; &self[$ie] }),+)
            }
            fn disjoint(&mut self, r: u8, unchecked: bool, ks: &[&$K]) -> Vec<Option<&mut V>> {
                match (r % 2, unchecked) {
                    (0, false) => by_len!(ks, a => self.get_disjoint_mut(a)),
                    (0, true) => by_len!(ks, a => unsafe { self.get_disjoint_unchecked_mut(a) }),
                    (_, false) => by_len!(ks, a => <Self as MapExtras<$K, V, $K>>::get_disjoint_mut(self, a)),
                    (_, true) => by_len!(ks, a => unsafe { <Self as MapExtras<$K, V, $K>>::get_disjoint_unchecked_mut(self, a) }),
                }
            }
            fn disjoint_alt(&mut self, r: u8, ks: &[&<$K as Key>::Alt]) -> Vec<Option<&mut V>> {
                match r % 2 {
                    0 => by_len!(ks, a => self.get_disjoint_mut(a)),
                    _ => by_len!(ks, a => <Self as MapExtras<$K, V, <$K as Key>::Alt>>::get_disjoint_mut(self, a)),
                }
            }
            fn iter(&self, r: u8) -> BoxIt<'_, (&$K, &V)> {
                pick!(r; Box::new(self.iter()), Box::new(MapIteration::iter(self)), Box::new(IntoIterator::into_iter(self)))
            }
            fn iter_mut(&mut self, r: u8) -> BoxIt<'_, (&$K, &mut V)> {
                pick!(r; Box::new(self.iter_mut()), Box::new(MapIteration::iter_mut(self)), Box::new(IntoIterator::into_iter(self)))
            }
            fn keys(&self, r: u8) -> BoxIt<'_, &$K> { pick!(r; Box::new(self.keys()), Box::new(MapIteration::keys(self))) }
            fn values(&self, r: u8) -> BoxIt<'_, &V> { pick!(r; Box::new(self.values()), Box::new(MapIteration::values(self))) }
            fn values_mut(&mut self, r: u8) -> BoxIt<'_, &mut V> { pick!(r; Box::new(self.values_mut()), Box::new(MapIteration::values_mut(self))) }
            fn into_iter(self: Box<Self>) -> BoxIt<'static, ($K, V)> { Box::new(IntoIterator::into_iter(*self)) }
            fn into_keys(self: Box<Self>, r: u8) -> BoxIt<'static, $K> {
                pick!(r; Box::new((*self).into_keys()), Box::new(MapIteration::into_keys(*self)))
            }
            fn into_values(self: Box<Self>, r: u8) -> BoxIt<'static, V> {
                pick!(r; Box::new((*self).into_values()), Box::new(MapIteration::into_values(*self)))
            }
            fn clone_box(&self) -> Box<dyn DMap<$K>> { Box::new(self.clone()) }
            fn eq_any(&self, o: &MQ<$K>) -> bool { *self == *o }
            #[allow(clippy::partialeq_ne_impl)]
            fn ne_any(&self, o: &MQ<$K>) -> bool { *self != *o }
            fn dbg(&self) -> (String, String) { (format!("{self:?}"), format!("{self:#?}")) }
            fn json(&self) -> Result<Vec<u8>, String> { let mut w = Sink::default(); serde_json::to_writer(&mut w, self).map_err(|e| e.to_string())?; Ok(w.0) }
            fn bin(&self) -> Result<Vec<u8>, String> { let mut w = Sink::default(); bincode::serialize_into(&mut w, self).map_err(|e| e.to_string())?; Ok(w.0) }
            fn iter_protocol(&mut self, expected: &[($K, V)], plan: &[usize]) -> Res {
                let ks: Vec<$K> = expected.iter().map(|x| x.0.clone()).collect();
                let vs: Vec<V> = expected.iter().map(|x| x.1).collect();
                let n = expected.len();
                let nm = self.name();
                proto(&format!("{nm}::iter"), &mut || self.iter(), |x| (x.0.clone(), *x.1), expected, plan, exact)?;
                proto(&format!("{nm}::MapIteration::iter"), &mut || MapIteration::iter(&*self), |x| (x.0.clone(), *x.1), expected, plan, |_| None)?;
                proto(&format!("&{nm} into_iter"), &mut || IntoIterator::into_iter(&*self), |x| (x.0.clone(), *x.1), expected, plan, exact)?;
                proto_clone(&format!("{nm}::iter"), &mut || self.iter(), |x: (&$K, &V)| (x.0.clone(), *x.1), n, plan)?;
                proto(&format!("{nm}::keys"), &mut || self.keys(), |x| x.clone(), &ks, plan, exact)?;
                proto_clone(&format!("{nm}::keys"), &mut || self.keys(), |x: &$K| x.clone(), n, plan)?;
                proto(&format!("{nm}::values"), &mut || self.values(), |x| *x, &vs, plan, exact)?;
                proto_clone(&format!("{nm}::values"), &mut || self.values(), |x: &V| *x, n, plan)?;
                proto(&format!("{nm}::MapIteration::keys"), &mut || MapIteration::keys(&*self), |x| x.clone(), &ks, &plan[..plan.len().min(1)], |_| None)?;
                proto(&format!("{nm}::MapIteration::values"), &mut || MapIteration::values(&*self), |x| *x, &vs, &plan[..plan.len().min(1)], |_| None)?;
                proto(&format!("{nm}::into_iter"), &mut || IntoIterator::into_iter(self.clone()), |x| x, expected, plan, exact)?;
                proto(&format!("{nm}::into_keys"), &mut || self.clone().into_keys(), |x| x, &ks, plan, exact)?;
                proto(&format!("{nm}::into_values"), &mut || self.clone().into_values(), |x| x, &vs, plan, exact)?;
                // mutable iterators borrow exclusively: work on raw re-borrows of one map, one iterator at a time
                let me: *mut Self = self;
                proto(&format!("{nm}::iter_mut"), &mut || unsafe { &mut *me }.iter_mut(), |x| (x.0.clone(), *x.1), expected, plan, exact)?;
                proto(&format!("{nm}::values_mut"), &mut || unsafe { &mut *me }.values_mut(), |x| *x, &vs, plan, exact)?;
                proto(&format!("&mut {nm} into_iter"), &mut || IntoIterator::into_iter(unsafe { &mut *me }), |x| (x.0.clone(), *x.1), expected, plan, exact)?;
                proto(&format!("{nm}::MapIteration::iter_mut"), &mut || MapIteration::iter_mut(unsafe { &mut *me }), |x| (x.0.clone(), *x.1), expected, &plan[..plan.len().min(1)], |_| None)?;
                proto(&format!("{nm}::MapIteration::values_mut"), &mut || MapIteration::values_mut(unsafe { &mut *me }), |x| *x, &vs, &plan[..plan.len().min(1)], |_| None)?;
                proto(&format!("{nm}::MapIteration::into_keys"), &mut || MapIteration::into_keys(self.clone()), |x| x, &ks, &plan[..plan.len().min(1)], |_| None)?;
                proto(&format!("{nm}::MapIteration::into_values"), &mut || MapIteration::into_values(self.clone()), |x| x, &vs, &plan[..plan.len().min(1)], |_| None)?;
                Ok(())
            }
        }
    };
}

pub fn short_name(s: &str) -> String {
    let mut out = String::new();
    let mut word = String::new();
    for c in s.chars() {
        if c.is_alphanumeric() || c == '_' {
            word.push(c);
        } else if c == ':' {
            word.clear();
        } else {
            out.push_str(&word);
            word.clear();
            out.push(c);
        }
    }
    out.push_str(&word);
    out.replace(' ', "")
}

/// The sparse scalar map keeps its inherent `get_mut` private; everything else has a public one.
trait GetMutInh<Q: ?Sized, X> {
    fn get_mut_inh(&mut self, q: &Q) -> Option<&mut X>;
}
macro_rules! gmi {
    ([$($g:tt)*] $ty:ty, [$($w:tt)*]) => {
        impl<$($g)*, Q: ?Sized> GetMutInh<Q, V> for $ty where $($w)* { fn get_mut_inh(&mut self, q: &Q) -> Option<&mut V> { self.get_mut(q) } }
    };
}

gmi!([K: Key, BH: BuildHasher + Clone + 'static] fz::FzHashMap<K, V, BH>, [Q: Hash + Equivalent<K>]);
dmap!([K: Key, BH: BuildHasher + Clone + 'static] fz::FzHashMap<K, V, BH>, K, [], q: [k => K: k, k => K::B: k.borrow(), k => K::Alt: &k.alt()], index: [k => k, k => <K as Borrow<K::B>>::borrow(k), k => &k.alt()]);
gmi!([K: Key, CM: CollectionMagnitude + Clone + 'static, H: FzHasher<K> + Clone + 'static] fzc::maps::HashMap<K, V, CM, H>, [Q: Equivalent<K>, H: FzHasher<Q>]);
dmap!([K: Key, CM: CollectionMagnitude + Clone + 'static, H: FzHasher<K> + FzHasher<K::B> + FzHasher<K::Alt> + Clone + 'static] fzc::maps::HashMap<K, V, CM, H>, K, [], q: [k => K: k, k => K::B: k.borrow(), k => K::Alt: &k.alt()], index: [k => k, k => &k.alt()]);
gmi!([K: Key] fz::FzOrderedMap<K, V>, [Q: Comparable<K>]);
dmap!([K: Key] fz::FzOrderedMap<K, V>, K, [], q: [k => K: k, k => K::B: k.borrow(), k => K::Alt: &k.alt()], index: [k => k, k => &k.alt()]);
gmi!([K: Key] fzc::maps::EytzingerSearchMap<K, V>, [Q: Comparable<K>]);
dmap!([K: Key] fzc::maps::EytzingerSearchMap<K, V>, K, [], q: [k => K: k, k => K::B: k.borrow(), k => K::Alt: &k.alt()], index: [k => k, k => &k.alt()]);
gmi!([K: Key] fzc::maps::ScanMap<K, V>, [Q: Equivalent<K>]);
dmap!([K: Key] fzc::maps::ScanMap<K, V>, K, [], q: [k => K: k, k => K::B: k.borrow(), k => K::Alt: &k.alt()], index: [k => k, k => &k.alt()]);
impl<K: Key + Scalar, Q: Scalar + Comparable<K>> GetMutInh<Q, V> for fz::FzScalarMap<K, V> {
    fn get_mut_inh(&mut self, q: &Q) -> Option<&mut V> {
        self.get_mut(q)
    }
}
dmap!([K: Key + Scalar] fz::FzScalarMap<K, V>, K, [K::Alt: Scalar], q: [k => K: k, k => K::Alt: &k.alt()], index: [k => k]);
impl<K: Key + Scalar, Q: Scalar + Comparable<K>> GetMutInh<Q, V> for fzc::maps::DenseScalarLookupMap<K, V> {
    fn get_mut_inh(&mut self, q: &Q) -> Option<&mut V> {
        self.get_mut(q)
    }
}
dmap!([K: Key + Scalar] fzc::maps::DenseScalarLookupMap<K, V>, K, [K::Alt: Scalar], q: [k => K: k, k => K::Alt: &k.alt()], index: [k => k]);
impl<K: Key + Scalar, Q: Scalar + Comparable<K>> GetMutInh<Q, V> for fzc::maps::SparseScalarLookupMap<K, V> {
    fn get_mut_inh(&mut self, q: &Q) -> Option<&mut V> {
        MapQuery::get_mut(self, q)
    }
}
dmap!([K: Key + Scalar] fzc::maps::SparseScalarLookupMap<K, V>, K, [K::Alt: Scalar], q: [k => K: k, k => K::Alt: &k.alt()], index: [k => k]);
impl<BH: BuildHasher, Q: AsRef<str>> GetMutInh<Q, V> for fz::FzStringMap<Box<str>, V, BH> {
    fn get_mut_inh(&mut self, q: &Q) -> Option<&mut V> {
        self.get_mut(q)
    }
}
dmap!([BH: BuildHasher + Clone + 'static] fz::FzStringMap<Box<str>, V, BH>, Box<str>, [], q: [k => Box<str>: k, k => std::sync::Arc<str>: &std::sync::Arc::from(&**k), k => String: &k.to_string(), k => AltS: &AltS(k.to_string(), 0)], index: [k => k, k => &&**k, k => &AltS(k.to_string(), 0)]);

// inline (macro/emitter-built) maps
gmi!([K: Key, const SZ: usize] fzc::inline_maps::InlineScanMap<K, V, SZ>, [Q: Equivalent<K>]);
dmap!([K: Key, const SZ: usize] fzc::inline_maps::InlineScanMap<K, V, SZ>, K, [], q: [k => K: k, k => K::B: k.borrow(), k => K::Alt: &k.alt()], index: [k => k, k => &k.alt()]);
gmi!([K: Key, const SZ: usize] fzc::inline_maps::InlineEytzingerSearchMap<K, V, SZ>, [Q: Comparable<K>]);
dmap!([K: Key, const SZ: usize] fzc::inline_maps::InlineEytzingerSearchMap<K, V, SZ>, K, [], q: [k => K: k, k => K::B: k.borrow(), k => K::Alt: &k.alt()], index: [k => k, k => &k.alt()]);
gmi!([K: Key, const SZ: usize, const NHS: usize, CM: CollectionMagnitude + Clone + 'static, H: FzHasher<K> + Clone + 'static] fzc::inline_maps::InlineHashMap<K, V, SZ, NHS, CM, H>, [Q: Equivalent<K>, H: FzHasher<Q>]);
dmap!([K: Key, const SZ: usize, const NHS: usize, CM: CollectionMagnitude + Clone + 'static, H: FzHasher<K> + FzHasher<K::B> + FzHasher<K::Alt> + Clone + 'static] fzc::inline_maps::InlineHashMap<K, V, SZ, NHS, CM, H>, K, [], q: [k => K: k, k => K::B: k.borrow(), k => K::Alt: &k.alt()], index: [k => k, k => &k.alt()]);
gmi!([K: Key, const SZ: usize, const NHS: usize, CM: CollectionMagnitude + Clone + 'static, H: FzHasher<K> + Clone + 'static] fzc::inline_maps::InlineHashMapNoCollisions<K, V, SZ, NHS, CM, H>, [Q: Equivalent<K>, H: FzHasher<Q>]);
dmap!([K: Key, const SZ: usize, const NHS: usize, CM: CollectionMagnitude + Clone + 'static, H: FzHasher<K> + FzHasher<K::B> + FzHasher<K::Alt> + Clone + 'static] fzc::inline_maps::InlineHashMapNoCollisions<K, V, SZ, NHS, CM, H>, K, [], q: [k => K: k, k => K::B: k.borrow(), k => K::Alt: &k.alt()], index: [k => k, k => &k.alt()]);
impl<K: Key + Scalar, Q: Scalar + Comparable<K>, const SZ: usize> GetMutInh<Q, V> for fzc::inline_maps::InlineDenseScalarLookupMap<K, V, SZ> {
    fn get_mut_inh(&mut self, q: &Q) -> Option<&mut V> {
        self.get_mut(q)
    }
}
dmap!([K: Key + Scalar, const SZ: usize] fzc::inline_maps::InlineDenseScalarLookupMap<K, V, SZ>, K, [K::Alt: Scalar], q: [k => K: k, k => K::Alt: &k.alt()], index: [k => k, k => &k.alt()]);
impl<K: Key + Scalar, Q: Scalar + Comparable<K>, const SZ: usize, const L: usize, CM: CollectionMagnitude> GetMutInh<Q, V> for fzc::inline_maps::InlineSparseScalarLookupMap<K, V, SZ, L, CM> {
    fn get_mut_inh(&mut self, q: &Q) -> Option<&mut V> {
        MapQuery::get_mut(self, q)
    }
}
dmap!([K: Key + Scalar, const SZ: usize, const L: usize, CM: CollectionMagnitude + Clone + 'static] fzc::inline_maps::InlineSparseScalarLookupMap<K, V, SZ, L, CM>, K, [K::Alt: Scalar], q: [k => K: k, k => K::Alt: &k.alt()], index: [k => k, k => &k.alt()]);

// ---------------------------------------------------------------- sets

pub trait DSet<T: Key> {
    fn name(&self) -> String;
    fn len(&self, r: u8) -> usize;
    fn is_empty(&self, r: u8) -> bool;
    fn get(&self, r: u8, k: &T) -> Option<&T>;
    fn has(&self, r: u8, k: &T) -> bool;
    fn iter(&self, r: u8) -> BoxIt<'_, &T>;
    fn into_iter(self: Box<Self>) -> BoxIt<'static, T>;
    fn clone_box(&self) -> Box<dyn DSet<T>>;
    fn eq_any(&self, o: &SQ<T>) -> bool;
    fn ne_any(&self, o: &SQ<T>) -> bool;
    fn dbg(&self) -> (String, String);
    fn json(&self) -> Result<Vec<u8>, String>;
    fn bin(&self) -> Result<Vec<u8>, String>;
    fn iter_protocol(&self, expected: &[T], plan: &[usize]) -> Res;
    /// op: 0 union, 1 intersection, 2 difference, 3 symmetric difference. Runs the lazy-iterator oracle.
    fn lazy(&self, op: u8, o: &SQ<T>, expected: &[T], plan: &[usize]) -> Res;
    /// op: 0 |, 1 &, 2 -, 3 ^
    fn operator(&self, op: u8, o: &SQ<T>) -> Option<Vec<T>>;
    /// op: 0 disjoint, 1 subset, 2 superset
    fn pred(&self, op: u8, o: &SQ<T>) -> bool;
}
pub type BSet<T> = Box<dyn DSet<T>>;
/// Any set as an operand.
#[derive(Clone)]
pub struct SQ<T: Key>(pub std::rc::Rc<dyn DSet<T>>);
impl<T: Key> Len for SQ<T> {
    fn len(&self) -> usize {
        self.0.len(0)
    }
}
impl<T: Key> SetQuery<T> for SQ<T> {
    fn contains(&self, v: &T) -> bool {
        self.0.has(0, v)
    }
}
impl<T: Key> SetExtras<T, T> for SQ<T> {
    fn get(&self, v: &T) -> Option<&T> {
        self.0.get(0, v)
    }
}
impl<T: Key> IntoIterator for SQ<T> {
    type Item = T;
    type IntoIter = std::vec::IntoIter<T>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.iter(0).cloned().collect::<Vec<_>>().into_iter()
    }
}
/// Clonable so that the lazy set iterators stay clonable.
pub struct SqIter<'a, T: Key> {
    set: &'a SQ<T>,
    at: usize,
    it: BoxIt<'a, &'a T>,
}
impl<'a, T: Key> Iterator for SqIter<'a, T> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> {
        self.at += 1;
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.it.size_hint()
    }
}
impl<T: Key> Clone for SqIter<'_, T> {
    fn clone(&self) -> Self {
        let mut it = self.set.0.iter(0);
        for _ in 0..self.at {
            let _ = it.next();
        }
        SqIter { set: self.set, at: self.at, it }
    }
}
impl<T: Key> SetIteration<T> for SQ<T> {
    type Iterator<'a> = SqIter<'a, T>;
    fn iter(&self) -> SqIter<'_, T> {
        SqIter { set: self, at: 0, it: self.0.iter(0) }
    }
}
impl<T: Key> fz::Set<T, T> for SQ<T> {}

/// Lazy set iterator: exact contents, no repeats, valid size bounds at every step, fused, clone and fold agree.
pub fn lazy_proto<'a, T: Key, I: Iterator<Item = &'a T> + Clone>(name: &str, mk: &dyn Fn() -> I, expected: &[T], plan: &[usize]) -> Res {
    let n = expected.len();
    let mut it = mk();
    let mut got: Vec<T> = vec![];
    let mut hints = vec![];
    loop {
        hints.push(it.size_hint());
        match it.next() {
            Some(x) => {
                got.push(x.clone());
                ensure!(got.len() <= n + 64, "{name}: yields more than the {n} expected values: {:?}", &got[got.len() - 8..]);
            }
            None => break,
        }
    }
    for _ in 0..3 {
        ensure!(it.next().is_none(), "{name}: yields again after the end");
        let h = it.size_hint();
        ensure!(h.0 == 0, "{name}: size_hint {h:?} after the end");
    }
    for (i, h) in hints.iter().enumerate() {
        let rem = got.len() - i;
        ensure!(h.0 <= rem && h.1.is_none_or(|u| u >= rem), "{name}: size_hint {h:?} but {rem} values remain (after {i})");
    }
    let mut s = got.clone();
    s.sort();
    let mut want = expected.to_vec();
    want.sort();
    if s != want {
        return Err(format!("{name}: yields {s:?}, expected {want:?}"));
    }
    for &p in plan {
        let p = p % (n + 2);
        let mut it = mk();
        let mut head: Vec<T> = (0..p).map_while(|_| it.next().cloned()).collect();
        let c = it.clone();
        let h = c.size_hint();
        let rem = n.saturating_sub(p);
        ensure!(h.0 <= rem && h.1.is_none_or(|u| u >= rem), "{name}: clone after {p} has size_hint {h:?} but {rem} remain");
        let mut head2 = head.clone();
        head2.extend(c.cloned());
        ensure!(it.clone().count() == rem, "{name}: count after {p} of {n}");
        head = it.fold(head, |mut a, x| {
            a.push(x.clone());
            a
        });
        head.sort();
        head2.sort();
        ensure!(head == want, "{name}: folding the rest after {p} of {n} yields {head:?}, expected {want:?}");
        ensure!(head2 == want, "{name}: clone after {p} of {n} continues with {head2:?}, expected {want:?}");
    }
    Ok(())
}

macro_rules! dset_ops {
    ($T:ty) => {
        fn lazy(&self, op: u8, o: &SQ<$T>, expected: &[$T], plan: &[usize]) -> Res {
            let nm = self.name();
            match op {
                0 => lazy_proto(&format!("{nm}.union({})", o.0.name()), &|| SetOps::<$T>::union(self, o), expected, plan),
                1 => lazy_proto(&format!("{nm}.intersection({})", o.0.name()), &|| SetOps::<$T>::intersection(self, o), expected, plan),
                2 => lazy_proto(&format!("{nm}.difference({})", o.0.name()), &|| SetOps::<$T>::difference(self, o), expected, plan),
                _ => lazy_proto(&format!("{nm}.symmetric_difference({})", o.0.name()), &|| SetOps::<$T>::symmetric_difference(self, o), expected, plan),
            }
        }
        fn pred(&self, op: u8, o: &SQ<$T>) -> bool {
            match op {
                0 => SetOps::<$T>::is_disjoint(self, o),
                1 => SetOps::<$T>::is_subset(self, o),
                _ => SetOps::<$T>::is_superset(self, o),
            }
        }
    };
}
macro_rules! dset {
    ([$($g:tt)*] $ty:ty, $T:ty, [$($w:tt)*], q: [$($qk:ident => $qt:ty : $qe:expr),+], ser: $ser:tt, get: $get:tt, ops: $ops:tt) => {
        impl<$($g)*> DSet<$T> for $ty where $($w)* {
            fn name(&self) -> String { short_name(std::any::type_name::<Self>()) }
            fn len(&self, r: u8) -> usize { pick!(r; self.len(), Len::len(self)) }
            fn is_empty(&self, r: u8) -> bool { pick!(r; self.is_empty(), Len::is_empty(self)) }
            fn get(&self, r: u8, k: &$T) -> Option<&$T> {
                pick!(r; $({ let $qk = k; dset!(@get $get, self, $T, $qt, $qe) }, { let $qk = k; <Self as SetExtras<$T, $qt>>::get(self, $qe) }),+)
            }
            fn has(&self, r: u8, k: &$T) -> bool {
                pick!(r; $({ let $qk = k; self.contains($qe) }, { let $qk = k; <Self as SetQuery<$qt>>::contains(self, $qe) },
                           { let $qk = k; (self as &dyn SetQuery<$qt>).contains($qe) }),+)
            }
            fn iter(&self, r: u8) -> BoxIt<'_, &$T> {
                pick!(r; Box::new(self.iter()), Box::new(SetIteration::iter(self)), Box::new(IntoIterator::into_iter(self)))
            }
            fn into_iter(self: Box<Self>) -> BoxIt<'static, $T> { Box::new(IntoIterator::into_iter(*self)) }
            fn clone_box(&self) -> Box<dyn DSet<$T>> { Box::new(self.clone()) }
            fn eq_any(&self, o: &SQ<$T>) -> bool { *self == *o }
            #[allow(clippy::partialeq_ne_impl)]
            fn ne_any(&self, o: &SQ<$T>) -> bool { *self != *o }
            fn dbg(&self) -> (String, String) { (format!("{self:?}"), format!("{self:#?}")) }
            dset!(@ser $ser);
            fn iter_protocol(&self, expected: &[$T], plan: &[usize]) -> Res {
                let nm = self.name();
                proto(&format!("{nm}::iter"), &mut || self.iter(), |x| x.clone(), expected, plan, exact)?;
                proto_clone(&format!("{nm}::iter"), &mut || self.iter(), |x: &$T| x.clone(), expected.len(), plan)?;
                proto(&format!("{nm}::SetIteration::iter"), &mut || SetIteration::iter(self), |x| x.clone(), expected, plan, |_| None)?;
                proto(&format!("&{nm} into_iter"), &mut || IntoIterator::into_iter(self), |x| x.clone(), expected, plan, exact)?;
                proto(&format!("{nm}::into_iter"), &mut || IntoIterator::into_iter(self.clone()), |x| x, expected, plan, exact)
            }
            dset_ops!($T);
            dset!(@ops $ops $T);
        }
    };
    (@ops yes $T:ty) => {
        fn operator(&self, op: u8, o: &SQ<$T>) -> Option<Vec<$T>> {
            let r = match op { 0 => self | o, 1 => self & o, 2 => self - o, _ => self ^ o };
            // the operators' output reports its own length; a wrong one shows up as a wrong vector length
            Some(r.into_iter().collect())
        }
    };
    // the operators of macro-built string sets need a default hasher, which range hashers do not have
    (@ops no $T:ty) => { fn operator(&self, _: u8, _: &SQ<$T>) -> Option<Vec<$T>> { None } };
    (@get inh, $s:ident, $T:ty, $qt:ty, $e:expr) => { $s.get($e) };
    (@get tr, $s:ident, $T:ty, $qt:ty, $e:expr) => { <Self as SetExtras<$T, $qt>>::get($s, $e) };
    (@ser yes) => {
        fn json(&self) -> Result<Vec<u8>, String> { let mut w = Sink::default(); serde_json::to_writer(&mut w, self).map_err(|e| e.to_string())?; Ok(w.0) }
        fn bin(&self) -> Result<Vec<u8>, String> { let mut w = Sink::default(); bincode::serialize_into(&mut w, self).map_err(|e| e.to_string())?; Ok(w.0) }
    };
    (@ser no) => {
        fn json(&self) -> Result<Vec<u8>, String> { Err("unsupported".into()) }
        fn bin(&self) -> Result<Vec<u8>, String> { Err("unsupported".into()) }
    };
}
dset!([T: Key, BH: BuildHasher + Clone + 'static] fz::FzHashSet<T, BH>, T, [], q: [k => T: k, k => T::B: k.borrow(), k => T::Alt: &k.alt()], ser: yes, get: tr, ops: yes);
dset!([T: Key] fz::FzOrderedSet<T>, T, [], q: [k => T: k, k => T::B: k.borrow(), k => T::Alt: &k.alt()], ser: yes, get: inh, ops: yes);
dset!([T: Key + Scalar] fz::FzScalarSet<T>, T, [T::Alt: Scalar], q: [k => T: k, k => T::Alt: &k.alt()], ser: yes, get: inh, ops: yes);
dset!([BH: BuildHasher + Default + Clone + 'static] fz::FzStringSet<Box<str>, BH>, Box<str>, [], q: [k => Box<str>: k, k => std::sync::Arc<str>: &std::sync::Arc::from(&**k), k => String: &k.to_string(), k => AltS: &AltS(k.to_string(), 0)], ser: no, get: inh, ops: yes);
dset!([T: Key, const SZ: usize] fzc::inline_sets::InlineScanSet<T, SZ>, T, [], q: [k => T: k, k => T::B: k.borrow(), k => T::Alt: &k.alt()], ser: yes, get: inh, ops: yes);
dset!([T: Key, const SZ: usize] fzc::inline_sets::InlineEytzingerSearchSet<T, SZ>, T, [], q: [k => T: k, k => T::B: k.borrow(), k => T::Alt: &k.alt()], ser: yes, get: inh, ops: yes);
dset!([T: Key, const SZ: usize, const NHS: usize, CM: CollectionMagnitude + Clone + 'static, BH: BuildHasher + Default + Clone + 'static] fzc::inline_sets::InlineHashSet<T, SZ, NHS, CM, fzc::hashers::BridgeHasher<BH>>, T, [], q: [k => T: k, k => T::B: k.borrow(), k => T::Alt: &k.alt()], ser: yes, get: inh, ops: yes);
dset!([T: Key, const SZ: usize, const NHS: usize, CM: CollectionMagnitude + Clone + 'static] fzc::inline_sets::InlineHashSet<T, SZ, NHS, CM, fzc::hashers::ScalarHasher>, T, [T: Scalar, T::B: Scalar, T::Alt: Scalar], q: [k => T: k, k => T::B: k.borrow(), k => T::Alt: &k.alt()], ser: yes, get: inh, ops: yes);
dset!([T: Key, const SZ: usize, const NHS: usize, CM: CollectionMagnitude + Clone + 'static] fzc::inline_sets::InlineHashSet<T, SZ, NHS, CM, fzc::hashers::LengthHasher>, T, [T: Len, T::B: Len, T::Alt: Len], q: [k => T: k, k => T::B: k.borrow(), k => T::Alt: &k.alt()], ser: yes, get: inh, ops: yes);
dset!([T: Key, const SZ: usize, const NHS: usize, CM: CollectionMagnitude + Clone + 'static, const A: usize, const B: usize, BH: BuildHasher + Clone + 'static] fzc::inline_sets::InlineHashSet<T, SZ, NHS, CM, fzc::hashers::InlineLeftRangeHasher<A, B, BH>>, T, [fzc::hashers::InlineLeftRangeHasher<A, B, BH>: FzHasher<T> + FzHasher<T::B> + FzHasher<T::Alt>], q: [k => T: k, k => T::B: k.borrow(), k => T::Alt: &k.alt()], ser: yes, get: inh, ops: no);
dset!([T: Key, const SZ: usize, const NHS: usize, CM: CollectionMagnitude + Clone + 'static, const A: usize, const B: usize, BH: BuildHasher + Clone + 'static] fzc::inline_sets::InlineHashSet<T, SZ, NHS, CM, fzc::hashers::InlineRightRangeHasher<A, B, BH>>, T, [fzc::hashers::InlineRightRangeHasher<A, B, BH>: FzHasher<T> + FzHasher<T::B> + FzHasher<T::Alt>], q: [k => T: k, k => T::B: k.borrow(), k => T::Alt: &k.alt()], ser: yes, get: inh, ops: no);
dset!([T: Key, const SZ: usize, const NHS: usize, CM: CollectionMagnitude + Clone + 'static, BH: BuildHasher + Default + Clone + 'static] fzc::inline_sets::InlineHashSetNoCollisions<T, SZ, NHS, CM, fzc::hashers::BridgeHasher<BH>>, T, [], q: [k => T: k, k => T::B: k.borrow(), k => T::Alt: &k.alt()], ser: yes, get: inh, ops: yes);
dset!([T: Key, const SZ: usize, const NHS: usize, CM: CollectionMagnitude + Clone + 'static] fzc::inline_sets::InlineHashSetNoCollisions<T, SZ, NHS, CM, fzc::hashers::ScalarHasher>, T, [T: Scalar, T::B: Scalar, T::Alt: Scalar], q: [k => T: k, k => T::B: k.borrow(), k => T::Alt: &k.alt()], ser: yes, get: inh, ops: yes);
dset!([T: Key, const SZ: usize, const NHS: usize, CM: CollectionMagnitude + Clone + 'static] fzc::inline_sets::InlineHashSetNoCollisions<T, SZ, NHS, CM, fzc::hashers::LengthHasher>, T, [T: Len, T::B: Len, T::Alt: Len], q: [k => T: k, k => T::B: k.borrow(), k => T::Alt: &k.alt()], ser: yes, get: inh, ops: yes);
dset!([T: Key, const SZ: usize, const NHS: usize, CM: CollectionMagnitude + Clone + 'static, const A: usize, const B: usize, BH: BuildHasher + Clone + 'static] fzc::inline_sets::InlineHashSetNoCollisions<T, SZ, NHS, CM, fzc::hashers::InlineLeftRangeHasher<A, B, BH>>, T, [fzc::hashers::InlineLeftRangeHasher<A, B, BH>: FzHasher<T> + FzHasher<T::B> + FzHasher<T::Alt>], q: [k => T: k, k => T::B: k.borrow(), k => T::Alt: &k.alt()], ser: yes, get: inh, ops: no);
dset!([T: Key, const SZ: usize, const NHS: usize, CM: CollectionMagnitude + Clone + 'static, const A: usize, const B: usize, BH: BuildHasher + Clone + 'static] fzc::inline_sets::InlineHashSetNoCollisions<T, SZ, NHS, CM, fzc::hashers::InlineRightRangeHasher<A, B, BH>>, T, [fzc::hashers::InlineRightRangeHasher<A, B, BH>: FzHasher<T> + FzHasher<T::B> + FzHasher<T::Alt>], q: [k => T: k, k => T::B: k.borrow(), k => T::Alt: &k.alt()], ser: yes, get: inh, ops: no);
dset!([T: Key + Scalar, const SZ: usize] fzc::inline_sets::InlineDenseScalarLookupSet<T, SZ>, T, [T::Alt: Scalar], q: [k => T: k, k => T::Alt: &k.alt()], ser: yes, get: inh, ops: yes);
dset!([T: Key + Scalar, const SZ: usize, const L: usize, CM: CollectionMagnitude + Clone + 'static] fzc::inline_sets::InlineSparseScalarLookupSet<T, SZ, L, CM>, T, [T::Alt: Scalar], q: [k => T: k, k => T::Alt: &k.alt()], ser: yes, get: inh, ops: yes);
