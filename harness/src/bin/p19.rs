//! The traits agree with the concrete types.
#[path = "../catalog.rs"]
mod catalog;
use frozen_collections as fz;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, LinkedList, VecDeque};
use std::fmt::Debug;
use std::rc::Rc;
use std::sync::Arc;
use vh::facade::{BMap, BSet, Key, V};
use vh::keys::*;
use vh::oracle::*;
use vh::runner::*;
use vh::{ensure, ensure_eq};

/// What an observer sees of a map; addresses identify entries.
#[derive(PartialEq, Debug, Clone)]
struct Seen<K> {
    len: (usize, bool),
    gets: Vec<Option<(usize, V)>>,
    has: Vec<bool>,
    kvs: Vec<Option<(usize, usize, K)>>,
    iter: Vec<(usize, usize, K, V)>,
    keys: Vec<(usize, K)>,
    values: Vec<(usize, V)>,
}
/// What remains of clones of a map after mutation and consumption.
#[derive(PartialEq, Debug, Clone)]
struct Spent<K> {
    got_mut: Vec<Option<V>>,
    after_get_mut: Vec<(K, V)>,
    iter_mut: Vec<(K, V)>,
    after_iter_mut: Vec<(K, V)>,
    values_mut: Vec<V>,
    after_values_mut: Vec<(K, V)>,
    into: Vec<(K, V)>,
    into_keys: Vec<K>,
    into_values: Vec<V>,
    disjoint: Vec<Option<V>>,
}
fn ad<T: ?Sized>(x: &T) -> usize {
    std::ptr::from_ref(x).cast::<u8>() as usize
}
macro_rules! seen {
    ($m:expr, $ps:expr, $len:expr, $empty:expr, $get:expr, $has:expr, $kv:expr, $iter:expr, $keys:expr, $values:expr) => {
        Seen {
            len: ($len($m), $empty($m)),
            gets: $ps.iter().map(|p| $get($m, *p).map(|v| (ad(v), *v))).collect(),
            has: $ps.iter().map(|p| $has($m, *p)).collect(),
            kvs: $ps.iter().map(|p| $kv($m, *p).map(|(k, v)| (ad(k), ad(v), k.clone()))).collect(),
            iter: $iter($m).map(|(k, v)| (ad(k), ad(v), k.clone(), *v)).collect(),
            keys: $keys($m).map(|k| (ad(k), k.clone())).collect(),
            values: $values($m).map(|v| (ad(v), *v)).collect(),
        }
    };
}
/// Generic code over the traits.
fn seen_generic<K: Clone, Q: ?Sized, M: fz::Map<K, V, Q>>(m: &M, ps: &[&Q]) -> Seen<K> {
    seen!(m, ps, fz::Len::len, fz::Len::is_empty, fz::MapQuery::get, fz::MapQuery::contains_key, fz::MapExtras::get_key_value, fz::MapIteration::iter, fz::MapIteration::keys, fz::MapIteration::values)
}
fn spent_generic<K: Clone + Ord, Q: ?Sized + Eq, M: fz::Map<K, V, Q> + Clone>(m: &M, ps: &[&Q]) -> Spent<K> {
    let all = |m: &M| fz::MapIteration::iter(m).map(|(k, v)| (k.clone(), *v)).collect::<Vec<_>>();
    let mut a = m.clone();
    let got_mut = ps.iter().enumerate().map(|(i, p)| fz::MapQuery::get_mut(&mut a, *p).map(|v| { *v ^= 0x55 + i as u64; *v })).collect();
    let mut b = m.clone();
    let iter_mut = fz::MapIteration::iter_mut(&mut b).enumerate().map(|(i, (k, v))| { *v = v.wrapping_mul(3).wrapping_add(i as u64); (k.clone(), *v) }).collect();
    let mut c = m.clone();
    let values_mut = fz::MapIteration::values_mut(&mut c).enumerate().map(|(i, v)| { *v = v.wrapping_mul(5).wrapping_add(i as u64); *v }).collect();
    let mut d = m.clone();
    let disjoint = if ps.len() >= 3 {
        let mut r: Vec<Option<V>> = fz::MapExtras::get_disjoint_mut(&mut d, [ps[0], ps[1], ps[2]]).into_iter().map(|x| x.copied()).collect();
        // SAFETY: the probes are distinct
        r.extend(unsafe { fz::MapExtras::get_disjoint_unchecked_mut(&mut d, [ps[2], ps[0]]) }.into_iter().map(|x| x.copied()));
        r
    } else { vec![] };
    Spent { got_mut, after_get_mut: all(&a), iter_mut, after_iter_mut: all(&b), values_mut, after_values_mut: all(&c), into: m.clone().into_iter().collect(), into_keys: fz::MapIteration::into_keys(m.clone()).collect(), into_values: fz::MapIteration::into_values(m.clone()).collect(), disjoint }
}
/// The same with inherent methods (no trait of the crate under test is in scope here); disjoint access by single lookups.
macro_rules! spent_concrete {
    ($m:expr, $ps:expr) => {{
        let m = $m;
        let ps = $ps;
        macro_rules! all { ($x:expr) => { $x.iter().map(|(k, v)| (k.clone(), *v)).collect::<Vec<_>>() } }
        let mut a = m.clone();
        let got_mut = ps.iter().enumerate().map(|(i, p)| a.get_mut(*p).map(|v| { *v ^= 0x55 + i as u64; *v })).collect();
        let mut b = m.clone();
        let iter_mut = b.iter_mut().enumerate().map(|(i, (k, v))| { *v = v.wrapping_mul(3).wrapping_add(i as u64); (k.clone(), *v) }).collect();
        let mut c = m.clone();
        let values_mut = c.values_mut().enumerate().map(|(i, v)| { *v = v.wrapping_mul(5).wrapping_add(i as u64); *v }).collect();
        let disjoint = if ps.len() >= 3 { [0, 1, 2, 2, 0].iter().map(|i| m.get(ps[*i]).copied()).collect() } else { vec![] };
        Spent { got_mut, after_get_mut: all!(a), iter_mut, after_iter_mut: all!(b), values_mut, after_values_mut: all!(c), into: m.clone().into_iter().collect(), into_keys: m.clone().into_keys().collect(), into_values: m.clone().into_values().collect(), disjoint }
    }};
}
fn same<T: PartialEq + Debug>(nm: &str, what: &str, a: &T, b: &T) -> Res {
    if a != b {
        let (x, y) = (format!("{a:?}"), format!("{b:?}"));
        let at = x.bytes().zip(y.bytes()).take_while(|(p, q)| p == q).count();
        let cut = |s: &str| s.chars().skip(at.saturating_sub(120)).take(300).collect::<String>();
        return Err(format!("{nm}: {what}: through the traits ...{}..., concretely ...{}...", cut(&x), cut(&y)));
    }
    Ok(())
}
/// Trait objects.
fn objects<Q: ?Sized, M: fz::MapQuery<Q, V> + Clone>(nm: &str, m: &M, ps: &[&Q], s: &[Option<(usize, V)>], len: usize) -> Res {
    let o: &dyn fz::MapQuery<Q, V> = m;
    let l: &dyn fz::Len = m;
    ensure!(o.len() == len && l.len() == len && o.is_empty() == (len == 0) && l.is_empty() == (len == 0), "{nm}: length through a trait object");
    let bx: Box<dyn fz::Len + '_> = Box::new(m.clone());
    ensure!(fz::Len::len(&bx) == len && fz::Len::is_empty(&bx) == (len == 0), "{nm}: length of a boxed trait object");
    let mut c = m.clone();
    for (p, w) in ps.iter().zip(s) {
        ensure!(o.get(p).map(|v| (ad(v), *v)) == *w, "{nm}: get through a trait object");
        ensure!(o.contains_key(p) == w.is_some(), "{nm}: contains_key through a trait object");
        let mo: &mut dyn fz::MapQuery<Q, V> = &mut c;
        ensure!(mo.get_mut(p).map(|v| *v) == w.map(|x| x.1), "{nm}: get_mut through a trait object");
    }
    Ok(())
}
macro_rules! map_check {
    ($nm:expr, $m:expr, $ps:expr, $out:expr) => {{
        let m = &$m;
        let ps = $ps;
        let a = seen_generic(m, ps);
        let b = Seen {
            len: (m.len(), m.is_empty()),
            gets: ps.iter().map(|p| m.get(*p).map(|v| (ad(v), *v))).collect(),
            has: ps.iter().map(|p| m.contains_key(*p)).collect(),
            kvs: ps.iter().map(|p| m.get_key_value(*p).map(|(k, v)| (ad(k), ad(v), k.clone()))).collect(),
            iter: m.iter().map(|(k, v)| (ad(k), ad(v), k.clone(), *v)).collect(),
            keys: m.keys().map(|k| (ad(k), k.clone())).collect(),
            values: m.values().map(|v| (ad(v), *v)).collect(),
        };
        same($nm, "lookups and iteration", &a, &b)?;
        objects($nm, m, ps, &b.gets, b.len.0)?;
        let x = spent_generic(m, ps);
        let y = spent_concrete!(m, ps);
        same($nm, "mutation and consumption", &x, &y)?;
        $out.push(($nm, digest(&a, &x)));
    }};
}
/// What generic code may rely on whatever the implementation: no addresses, no order.
fn digest<K: Ord + Clone + Debug>(s: &Seen<K>, x: &Spent<K>) -> String {
    fn so<T: Ord + Clone>(v: &[T]) -> Vec<T> { let mut v = v.to_vec(); v.sort(); v }
    format!(
        "{:?}",
        (s.len, s.gets.iter().map(|g| g.map(|x| x.1)).collect::<Vec<_>>(), &s.has, s.kvs.iter().map(|k| k.clone().map(|x| x.2)).collect::<Vec<_>>(),
         so(&s.iter.iter().map(|i| (i.2.clone(), i.3)).collect::<Vec<_>>()), so(&s.keys.iter().map(|k| k.1.clone()).collect::<Vec<_>>()), so(&s.values.iter().map(|v| v.1).collect::<Vec<_>>()),
         (&x.got_mut, so(&x.after_get_mut), so(&x.into), so(&x.into_keys), so(&x.into_values), &x.disjoint))
    )
}
fn agree(out: &[(&str, String)]) -> Res {
    for (n, d) in out {
        if *d != out[0].1 {
            let at = d.bytes().zip(out[0].1.bytes()).take_while(|(p, q)| p == q).count();
            let cut = |s: &str| s.chars().skip(at.saturating_sub(150)).take(320).collect::<String>();
            return Err(format!("generic code sees {n} and {} differently: ...{}... and ...{}...", out[0].0, cut(d), cut(&out[0].1)));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- sets
#[derive(PartialEq, Debug, Clone)]
struct SeenSet<K> {
    len: (usize, bool),
    gets: Vec<Option<(usize, K)>>,
    has: Vec<bool>,
    iter: Vec<(usize, K)>,
    into: Vec<K>,
}
fn set_generic<K: Clone, Q: ?Sized, S: fz::Set<K, Q> + Clone>(s: &S, ps: &[&Q]) -> SeenSet<K> {
    SeenSet {
        len: (fz::Len::len(s), fz::Len::is_empty(s)),
        gets: ps.iter().map(|p| fz::SetExtras::get(s, *p).map(|v| (ad(v), v.clone()))).collect(),
        has: ps.iter().map(|p| fz::SetQuery::contains(s, *p)).collect(),
        iter: fz::SetIteration::iter(s).map(|k| (ad(k), k.clone())).collect(),
        into: s.clone().into_iter().collect(),
    }
}
fn set_objects<Q: ?Sized, S: fz::SetQuery<Q>>(nm: &str, s: &S, ps: &[&Q], has: &[bool], len: usize) -> Res {
    let o: &dyn fz::SetQuery<Q> = s;
    ensure!(o.len() == len && o.is_empty() == (len == 0), "{nm}: length through a trait object");
    for (p, w) in ps.iter().zip(has) {
        ensure!(o.contains(p) == *w, "{nm}: contains through a trait object");
    }
    Ok(())
}
fn algebra<K: Clone + Ord + Debug, A: fz::Set<K>, B: fz::Set<K>>(nm: &str, a: &A, b: &B, x: &BTreeSet<K>, y: &BTreeSet<K>) -> Res {
    let so = |v: Vec<&K>| { let mut v: Vec<K> = v.into_iter().cloned().collect(); v.sort(); v };
    macro_rules! op { ($f:ident) => { ensure!(so(fz::SetOps::<K>::$f(a, b).collect()) == x.$f(y).cloned().collect::<Vec<_>>(), "{nm}: {} of {x:?} and {y:?} is {:?}", stringify!($f), so(fz::SetOps::<K>::$f(a, b).collect())); } }
    op!(union);
    op!(intersection);
    op!(difference);
    op!(symmetric_difference);
    ensure!(fz::SetOps::<K>::is_disjoint(a, b) == x.is_disjoint(y), "{nm}: is_disjoint of {x:?} and {y:?}");
    ensure!(fz::SetOps::<K>::is_subset(a, b) == x.is_subset(y), "{nm}: is_subset of {x:?} and {y:?}");
    ensure!(fz::SetOps::<K>::is_superset(a, b) == x.is_superset(y), "{nm}: is_superset of {x:?} and {y:?}");
    Ok(())
}
macro_rules! set_check {
    ($nm:expr, $s:expr, $ps:expr, $x:expr, get: $get:expr, with: [$($o:expr),*], $y:expr) => {{
        let s = &$s;
        let ps = $ps;
        let a = set_generic(s, ps);
        #[allow(clippy::redundant_closure_call)]
        let b = SeenSet {
            len: (s.len(), s.is_empty()),
            gets: ps.iter().map(|p| $get(s, *p).map(|v| (ad(v), v.clone()))).collect(),
            has: ps.iter().map(|p| s.contains(*p)).collect(),
            iter: s.iter().map(|k| (ad(k), k.clone())).collect(),
            into: s.clone().into_iter().collect(),
        };
        same($nm, "set", &a, &b)?;
        set_objects($nm, s, ps, &b.has, b.len.0)?;
        let mut got = a.into.clone();
        got.sort();
        ensure!(got == $x.iter().cloned().collect::<Vec<_>>(), "{}: holds {got:?}, expected {:?}", $nm, $x);
        $( algebra(&format!("{} against {}", $nm, stringify!($o)), s, &$o, $x, $y)?; )*
    }};
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct IntCase { keys: IntKeys, keys2: IntKeys, share: bool, h: HSpec }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct StrCase { keys: StrKeys, keys2: StrKeys, share: bool, h: HSpec }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct CatCase { which: usize }

/// Distinct probes: some stored keys first, then near misses.
fn probes<K: Key>(want: &BTreeMap<K, V>, near: Vec<K>) -> Vec<K> {
    let mut ps: Vec<K> = want.keys().take(8).cloned().collect();
    ps.extend(want.keys().rev().take(8).cloned());
    ps.extend(near.into_iter().take(24));
    let mut u: Vec<K> = vec![];
    for p in ps {
        if !u.contains(&p) { u.push(p); }
    }
    if u.len() > 3 { let n = u.len(); u.swap(1, n - 1); }
    u
}
fn label(n: usize, o: &mut Obs) {
    o.nontrivial_if(n >= 2);
    o.label(match n { 0 => "empty", 1 => "one", 2..=7 => "len<8", 8..=255 => "len<256", _ => "len>=256" });
}
fn ints(c: &IntCase, o: &mut Obs) -> Res {
    let k = c.keys.expand();
    let e = number(k.clone());
    let want = model(&e);
    label(want.len(), o);
    let own = probes(&want, int_probes(&k, &[]));
    let ps: Vec<&i64> = own.iter().collect();
    let ps = &ps[..];
    let mut out = vec![];
    let bh = DynBH(c.h.clone());
    map_check!("BTreeMap", want, ps, out);
    map_check!("std HashMap", e.iter().copied().collect::<std::collections::HashMap<i64, V>>(), ps, out);
    map_check!("hashbrown HashMap", e.iter().copied().collect::<hashbrown::HashMap<i64, V>>(), ps, out);
    map_check!("FzHashMap", fz::FzHashMap::with_hasher(e.clone(), bh.clone()), ps, out);
    map_check!("FzOrderedMap", fz::FzOrderedMap::new(e.clone()), ps, out);
    map_check!("FzScalarMap", fz::FzScalarMap::new(e.clone()), ps, out);
    agree(&out)?;
    // sets
    let mut k2 = c.keys2.expand();
    if c.share { k2.extend(k.iter().step_by(2)); }
    let x: BTreeSet<i64> = k.iter().copied().collect();
    let y: BTreeSet<i64> = k2.iter().copied().collect();
    let (sy, hy, fy, oy, cy) = (k2.iter().copied().collect::<std::collections::HashSet<i64>>(), k2.iter().copied().collect::<hashbrown::HashSet<i64>>(), fz::FzHashSet::with_hasher(k2.clone(), bh.clone()), fz::FzOrderedSet::new(k2.clone()), fz::FzScalarSet::new(k2.clone()));
    set_check!("BTreeSet", x, ps, &x, get: |s: &'_ BTreeSet<i64>, p: &i64| -> Option<&'static i64> { ext(s.get(p)) }, with: [y, sy, hy, fy, oy, cy], &y);
    set_check!("std HashSet", k.iter().copied().collect::<std::collections::HashSet<i64>>(), ps, &x, get: |s: &std::collections::HashSet<i64>, p: &i64| ext(s.get(p)), with: [y, sy, hy, fy, oy, cy], &y);
    set_check!("hashbrown HashSet", k.iter().copied().collect::<hashbrown::HashSet<i64>>(), ps, &x, get: |s: &hashbrown::HashSet<i64>, p: &i64| ext(s.get(p)), with: [y, sy, hy, fy, oy, cy], &y);
    set_check!("FzHashSet", fz::FzHashSet::with_hasher(k.clone(), bh), ps, &x, get: |s: &fz::FzHashSet<i64, DynBH>, p: &i64| ext(s.iter().find(|v| *v == p)), with: [y, sy, hy, fy, oy, cy], &y);
    set_check!("FzOrderedSet", fz::FzOrderedSet::new(k.clone()), ps, &x, get: |s: &fz::FzOrderedSet<i64>, p: &i64| ext(s.get(p)), with: [y, sy, hy, fy, oy, cy], &y);
    set_check!("FzScalarSet", fz::FzScalarSet::new(k.clone()), ps, &x, get: |s: &fz::FzScalarSet<i64>, p: &i64| ext(s.get(p)), with: [y, sy, hy, fy, oy, cy], &y);
    // every other map type: all routes of one object
    for kind in INT_KINDS {
        if let Some(m) = map_scalar(*kind, e.clone(), &c.h) { routes(m, &own)?; }
    }
    for kind in [Kind::FzHash, Kind::FzOrd, Kind::FzScalar] {
        if let Some(s) = set_scalar(kind, k.clone(), &c.h) { set_routes(s, &own)?; }
    }
    Ok(())
}
/// Only addresses and copies of what is referred to are used while the set is alive.
fn ext<'a, T>(x: Option<&T>) -> Option<&'a T> {
    x.map(|x| unsafe { &*std::ptr::from_ref(x) })
}
fn strs(c: &StrCase, o: &mut Obs) -> Res {
    let k = c.keys.expand();
    let e = number(k.clone());
    let want = model(&e);
    label(want.len(), o);
    let own = probes(&want, str_probes(&k, &[]));
    let ps: Vec<&Box<str>> = own.iter().collect();
    let ps = &ps[..];
    let bh = DynBH(c.h.clone());
    let mut out = vec![];
    map_check!("BTreeMap", want, ps, out);
    map_check!("std HashMap", e.iter().cloned().collect::<std::collections::HashMap<Box<str>, V>>(), ps, out);
    map_check!("hashbrown HashMap", e.iter().cloned().collect::<hashbrown::HashMap<Box<str>, V>>(), ps, out);
    map_check!("FzHashMap", fz::FzHashMap::with_hasher(e.clone(), bh.clone()), ps, out);
    map_check!("FzOrderedMap", fz::FzOrderedMap::new(e.clone()), ps, out);
    map_check!("FzStringMap", fz::FzStringMap::with_hasher(e.clone(), bh.clone()), ps, out);
    agree(&out)?;
    // borrowed query types through the traits
    let bs: Vec<&str> = own.iter().map(|b| &**b).collect();
    let mut out = vec![];
    map_check!("std HashMap by str", e.iter().cloned().collect::<std::collections::HashMap<Box<str>, V>>(), &bs[..], out);
    map_check!("hashbrown HashMap by str", e.iter().cloned().collect::<hashbrown::HashMap<Box<str>, V>>(), &bs[..], out);
    map_check!("FzHashMap by str", fz::FzHashMap::with_hasher(e.clone(), bh.clone()), &bs[..], out);
    map_check!("FzOrderedMap by str", fz::FzOrderedMap::new(e.clone()), &bs[..], out);
    agree(&out)?;
    objects("BTreeMap by str", &want, &bs, &bs.iter().map(|p| want.get::<str>(p).map(|v| (ad(v), *v))).collect::<Vec<_>>(), want.len())?;
    let x: BTreeSet<Box<str>> = k.iter().cloned().collect();
    let mut k2 = c.keys2.expand();
    if c.share { k2.extend(k.iter().step_by(2).cloned()); }
    let y: BTreeSet<Box<str>> = k2.iter().cloned().collect();
    let (sy, hy, fy, oy, cy) = (k2.iter().cloned().collect::<std::collections::HashSet<Box<str>>>(), k2.iter().cloned().collect::<hashbrown::HashSet<Box<str>>>(), fz::FzHashSet::with_hasher(k2.clone(), bh.clone()), fz::FzOrderedSet::new(k2.clone()), fz::FzStringSet::with_hasher(k2.clone(), bh.clone()));
    set_check!("BTreeSet", x, ps, &x, get: |s: &BTreeSet<Box<str>>, p: &Box<str>| ext(s.get(p)), with: [y, sy, hy, fy, oy, cy], &y);
    set_check!("std HashSet", k.iter().cloned().collect::<std::collections::HashSet<Box<str>>>(), ps, &x, get: |s: &std::collections::HashSet<Box<str>>, p: &Box<str>| ext(s.get(p)), with: [y, sy, hy, fy, oy, cy], &y);
    set_check!("hashbrown HashSet", k.iter().cloned().collect::<hashbrown::HashSet<Box<str>>>(), ps, &x, get: |s: &hashbrown::HashSet<Box<str>>, p: &Box<str>| ext(s.get(p)), with: [y, sy, hy, fy, oy, cy], &y);
    set_check!("hashbrown HashSet by str", k.iter().cloned().collect::<hashbrown::HashSet<Box<str>>>(), &bs[..], &x, get: |s: &hashbrown::HashSet<Box<str>>, p: &str| ext(s.get(p)), with: [], &y);
    set_check!("FzHashSet", fz::FzHashSet::with_hasher(k.clone(), bh.clone()), ps, &x, get: |s: &fz::FzHashSet<Box<str>, DynBH>, p: &Box<str>| ext(s.iter().find(|v| *v == p)), with: [y, sy, hy, fy, oy, cy], &y);
    set_check!("FzHashSet by str", fz::FzHashSet::with_hasher(k.clone(), bh.clone()), &bs[..], &x, get: |s: &fz::FzHashSet<Box<str>, DynBH>, p: &str| ext(s.iter().find(|v| &***v == p)), with: [], &y);
    set_check!("FzOrderedSet", fz::FzOrderedSet::new(k.clone()), ps, &x, get: |s: &fz::FzOrderedSet<Box<str>>, p: &Box<str>| ext(s.get(p)), with: [y, sy, hy, fy, oy, cy], &y);
    set_check!("FzStringSet", fz::FzStringSet::with_hasher(k.clone(), bh), ps, &x, get: |s: &fz::FzStringSet<Box<str>, DynBH>, p: &Box<str>| ext(s.get(p)), with: [y, sy, hy, fy, oy, cy], &y);
    for kind in STR_KINDS {
        if let Some(m) = map_str(*kind, e.clone(), &c.h) { routes(m, &own)?; }
    }
    for kind in [Kind::FzHash, Kind::FzOrd, Kind::FzStr] {
        if let Some(s) = set_str(kind, k.clone(), &c.h) { set_routes(s, &own)?; }
    }
    Ok(())
}
/// Route 0 is the inherent one; all others are trait methods, trait objects and other query types on the same object.
fn routes<K: Key>(mut m: BMap<K>, ps: &[K]) -> Res {
    let nm = m.name();
    for p in ps {
        let g = m.get(0, p).map(|v| (ad(v), *v));
        let kv = m.get_kv(0, p).map(|(k, v)| (ad(k), ad(v)));
        let h = m.has(0, p);
        let gm = m.get_mut(0, p).map(|v| (ad(v), *v));
        for r in 1..12 {
            ensure!(m.get(r, p).map(|v| (ad(v), *v)) == g, "{nm}: get({p:?}) by route {r} gives {:?}, inherent {g:?}", m.get(r, p));
            ensure!(m.get_mut(r, p).map(|v| (ad(v), *v)) == gm, "{nm}: get_mut({p:?}) by route {r} differs");
            ensure!(m.has(r, p) == h, "{nm}: contains_key({p:?}) by route {r} is {}", !h);
            ensure!(m.get_kv(r, p).map(|(k, v)| (ad(k), ad(v))) == kv, "{nm}: get_key_value({p:?}) by route {r} differs");
        }
    }
    for r in 1..3 {
        ensure_eq!((m.len(r), m.is_empty(r)), (m.len(0), m.is_empty(0)), "{nm}: length by route {r}");
        let it = |m: &BMap<K>, r| m.iter(r).map(|(k, v)| (ad(k), ad(v))).collect::<Vec<_>>();
        ensure!(it(&m, r) == it(&m, 0), "{nm}: iter by route {r} differs from the inherent one");
        let ks = |r| m.keys(r).map(ad).collect::<Vec<_>>();
        ensure!(ks(r) == ks(0), "{nm}: keys by route {r} differ");
        let vs = |r| m.values(r).map(ad).collect::<Vec<_>>();
        ensure!(vs(r) == vs(0), "{nm}: values by route {r} differ");
        let im = |m: &mut BMap<K>, r| m.iter_mut(r).map(|(k, v)| (ad(k), ad(v))).collect::<Vec<_>>();
        ensure!(im(&mut m, r) == it(&m, 0), "{nm}: iter_mut by route {r} differs from iter");
        let vm = |m: &mut BMap<K>, r| m.values_mut(r).map(|v| ad(v)).collect::<Vec<_>>();
        ensure!(vm(&mut m, r) == m.values(0).map(ad).collect::<Vec<_>>(), "{nm}: values_mut by route {r} differs from values");
        let (a, b): (Vec<K>, Vec<K>) = (m.clone_box().into_keys(r).collect(), m.clone_box().into_keys(0).collect());
        ensure!(a == b, "{nm}: into_keys by route {r} gives {a:?}, inherent {b:?}");
        let (a, b): (Vec<V>, Vec<V>) = (m.clone_box().into_values(r).collect(), m.clone_box().into_values(0).collect());
        ensure!(a == b, "{nm}: into_values by route {r} gives {a:?}, inherent {b:?}");
    }
    Ok(())
}
fn set_routes<K: Key>(s: BSet<K>, ps: &[K]) -> Res {
    let nm = s.name();
    for p in ps {
        let (g, h) = (s.get(0, p).map(ad), s.has(0, p));
        for r in 1..12 {
            ensure!(s.get(r, p).map(ad) == g, "{nm}: get({p:?}) by route {r} differs from the inherent one");
            ensure!(s.has(r, p) == h, "{nm}: contains({p:?}) by route {r} is {}", !h);
        }
    }
    for r in 1..3 {
        ensure_eq!((s.len(r), s.is_empty(r)), (s.len(0), s.is_empty(0)), "{nm}: length by route {r}");
        ensure!(s.iter(r).map(ad).collect::<Vec<_>>() == s.iter(0).map(ad).collect::<Vec<_>>(), "{nm}: iter by route {r} differs");
    }
    Ok(())
}
fn cat(c: &CatCase, o: &mut Obs) -> Res {
    macro_rules! one {
        ($f:ident, $routes:ident, $key:expr, $near:expr) => {{
            let mut v = catalog::$f();
            let n = v.len();
            let (m, e) = v.swap_remove((c.which / 4) % n);
            label(e.len(), o);
            o.label(m.name().split('<').next().unwrap());
            let ks: Vec<_> = e.iter().map($key).collect();
            let mut ps = ks.clone();
            ps.extend($near(&ks));
            $routes(m, &ps)
        }};
    }
    match c.which % 4 {
        0 => one!(int_maps, routes, |x: &(i64, V)| x.0, |k: &Vec<i64>| int_probes(k, &[])),
        1 => one!(int_sets, set_routes, |x: &i64| *x, |k: &Vec<i64>| int_probes(k, &[])),
        2 => one!(str_maps, routes, |x: &(&'static str, V)| x.0, |_: &Vec<&'static str>| vec!["", "absent", "item9999"]),
        _ => one!(str_sets, set_routes, |x: &&'static str| *x, |_: &Vec<&'static str>| vec!["", "absent", "item9999"]),
    }
}

// ---------------------------------------------------------------- Len
#[derive(Clone, Debug, Serialize, Deserialize)]
struct LenCase { s: String, v: Vec<u8>, front: usize }
fn lens(c: &LenCase, o: &mut Obs) -> Res {
    use std::ffi::{CStr, CString, OsStr, OsString};
    fn chk<T: ?Sized + fz::Len>(what: &str, t: &T, n: usize) -> Res {
        ensure!(fz::Len::len(t) == n && fz::Len::is_empty(t) == (n == 0), "Len of {what}: {} (empty: {}), the type itself says {n}", fz::Len::len(t), fz::Len::is_empty(t));
        Ok(())
    }
    o.nontrivial_if(c.s.len() != c.s.chars().count() || c.v.len() > 1);
    o.label_if(c.s.is_empty() || c.v.is_empty(), "empty");
    let s = &c.s;
    chk("String", s, s.len())?;
    chk::<str>("str", s, s.len())?;
    chk("&str", &s.as_str(), s.len())?;
    chk("Box<str>", &s.clone().into_boxed_str(), s.len())?;
    chk("Rc<str>", &Rc::<str>::from(s.as_str()), s.len())?;
    chk("Arc<str>", &Arc::<str>::from(s.as_str()), s.len())?;
    chk("Box<String>", &Box::new(s.clone()), s.len())?;
    let os = OsString::from(s);
    chk("OsString", &os, os.len())?;
    chk::<OsStr>("OsStr", &os, os.len())?;
    // not necessarily Unicode
    let raw = <OsString as std::os::unix::ffi::OsStringExt>::from_vec(c.v.clone());
    chk("OsString", &raw, raw.len())?;
    chk::<OsStr>("OsStr", &raw, raw.len())?;
    let cs = CString::new(c.v.iter().map(|b| b.max(&1)).copied().collect::<Vec<u8>>()).unwrap();
    chk("CString", &cs, cs.as_bytes().len())?;
    chk::<CStr>("CStr", &cs, cs.count_bytes())?;
    let v = &c.v;
    chk("Vec", v, v.len())?;
    chk::<[u8]>("slice", v, v.len())?;
    chk("Box<[u8]>", &v.clone().into_boxed_slice(), v.len())?;
    chk("Rc<[u8]>", &Rc::<[u8]>::from(v.as_slice()), v.len())?;
    chk("Arc<Vec>", &Arc::new(v.clone()), v.len())?;
    chk("Rc<Box<Vec>>", &Rc::new(Box::new(v.clone())), v.len())?;
    // a deque that wraps around
    let mut d: VecDeque<u8> = v.iter().copied().collect();
    for i in 0..c.front { d.push_front(i as u8); if i % 3 == 0 { d.pop_back(); } }
    chk("VecDeque", &d, d.len())?;
    chk("BinaryHeap", &v.iter().copied().collect::<BinaryHeap<_>>(), v.len())?;
    chk("LinkedList", &v.iter().copied().collect::<LinkedList<_>>(), v.len())?;
    let b: BTreeSet<u8> = v.iter().copied().collect();
    let n = b.len();
    chk("BTreeSet", &b, n)?;
    chk("BTreeMap", &v.iter().map(|x| (*x, 0)).collect::<BTreeMap<_, _>>(), n)?;
    chk("HashSet", &v.iter().copied().collect::<std::collections::HashSet<_>>(), n)?;
    chk("HashMap", &v.iter().map(|x| (*x, 0)).collect::<std::collections::HashMap<_, _>>(), n)?;
    chk("hashbrown HashSet", &v.iter().copied().collect::<hashbrown::HashSet<_>>(), n)?;
    chk("hashbrown HashMap", &v.iter().map(|x| (*x, 0)).collect::<hashbrown::HashMap<_, _>>(), n)?;
    chk("FzScalarSet", &fz::FzScalarSet::new(v.clone()), n)?;
    chk("FzHashSet", &v.iter().copied().collect::<fz::FzHashSet<_>>(), n)?;
    chk("FzOrderedSet", &fz::FzOrderedSet::new(v.clone()), n)
}
fn main() {
    vh::runner::main("P19", vec![
        sub("ints", 12_500, 100_000, || (int_keys(200), int_keys(60), any::<bool>(), good_hasher()).prop_map(|(keys, keys2, share, h)| IntCase { keys, keys2, share, h }), ints,
            "integer key sets in frozen, std and hashbrown maps and sets: generic code over Map/Set/SetOps/Len and trait objects must observe the same entries (addresses, order, values, effects of mutation) as inherent methods on the same object, set operations equal the mathematical result for every pairing, and all types look the same to generic code; non-trivial: at least 2 keys."),
        sub("strings", 10_000, 60_000, || (str_keys(120), str_keys(40), any::<bool>(), good_hasher()).prop_map(|(keys, keys2, share, h)| StrCase { keys, keys2, share, h }), strs, "the same for strings, queried as Box<str> and as str."),
        sub("macro-built", 7_500, 20_000, || (0usize..600).prop_map(|which| CatCase { which }), cat, "the same for macro-built (inline) maps and sets: every route on one object."),
        sub("len", 150_000, 500_000, || (text(12), proptest::collection::vec(prop_oneof![any::<u8>(), 0u8..4], 0..40), 0usize..12).prop_map(|(s, v, front)| LenCase { s, v, front }), lens, "lengths of every type implementing Len against the type's own; non-trivial: multi-byte text or more than one element."),
    ]);
}
