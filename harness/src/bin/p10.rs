#[path = "../catalog.rs"]
mod catalog;
use frozen_collections::{FzHashSet, FzOrderedSet, FzScalarSet, Set, SetOps};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use vh::facade::{BSet, Key, SQ, lazy_proto};
use vh::big::*;
use vh::keys::*;
use vh::oracle::*;
use vh::runner::*;
use vh::{ensure, ensure_eq};

/// How the second operand relates to the first.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Rel<X> {
    Independent(X),
    Equal,
    /// every step-th value of the first, plus the extra ones
    Part { step: u8, from: u8 },
    PartPlus { step: u8, from: u8, plus: X },
    Superset(X),
    Empty,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct IntCase { a: IntKeys, b: Rel<IntKeys>, swap: bool, plan: Vec<usize>, h: HSpec }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct StrCase { a: StrKeys, b: Rel<StrKeys>, swap: bool, plan: Vec<usize>, h: HSpec }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct CatCase { which: usize, rel: Rel<IntKeys>, swap: bool, plan: Vec<usize>, other: u8 }

fn resolve<X, K: Clone>(a: &[K], r: &Rel<X>, ex: impl Fn(&X) -> Vec<K>) -> Vec<K> {
    let part = |step: u8, from: u8| a.iter().skip(from as usize % 5).step_by(step as usize % 6 + 1).cloned().collect::<Vec<K>>();
    match r {
        Rel::Independent(x) => ex(x),
        Rel::Equal => a.to_vec(),
        Rel::Part { step, from } => part(*step, *from),
        Rel::PartPlus { step, from, plus } => {
            let mut v = part(*step, *from);
            v.extend(ex(plus));
            v
        }
        Rel::Superset(x) => {
            let mut v = a.to_vec();
            v.extend(ex(x));
            v
        }
        Rel::Empty => vec![],
    }
}
fn expect<K: Key>(op: u8, a: &BTreeSet<K>, b: &BTreeSet<K>) -> Vec<K> {
    match op {
        0 => a.union(b).cloned().collect(),
        1 => a.intersection(b).cloned().collect(),
        2 => a.difference(b).cloned().collect(),
        _ => a.symmetric_difference(b).cloned().collect(),
    }
}
fn pair<K: Key>(x: &dyn vh::facade::DSet<K>, y: &SQ<K>, a: &BTreeSet<K>, b: &BTreeSet<K>, plan: &[usize]) -> Res {
    let nm = format!("{} with {}", x.name(), y.0.name());
    for op in 0..4 {
        let want = expect(op, a, b);
        x.lazy(op, y, &want, plan)?;
        if let Some(mut got) = x.operator(op, y) {
            got.sort();
            ensure!(got == want, "{nm}: operator {} gives {got:?}, expected {want:?}", ["|", "&", "-", "^"][op as usize]);
        }
    }
    ensure_eq!(x.pred(0, y), a.is_disjoint(b), "{nm}: is_disjoint");
    ensure_eq!(x.pred(1, y), a.is_subset(b), "{nm}: is_subset");
    ensure_eq!(x.pred(2, y), a.is_superset(b), "{nm}: is_superset");
    ensure_eq!(x.eq_any(y), a == b, "{nm}: ==");
    Ok(())
}
/// Formatting a lazy iterator shows what it has left, without using it up.
fn shown<'a, K: Key, I: Iterator<Item = &'a K> + Clone + std::fmt::Debug>(nm: &str, it: I, plan: &[usize]) -> Res {
    let n = it.clone().count();
    if n <= 40 {
        for p in plan.iter().take(3) {
            let mut it = it.clone();
            let p = p % (n + 2);
            (0..p).for_each(|_| drop(it.next()));
            let left: Vec<&K> = it.clone().collect();
            ensure_eq!(format!("{it:?}"), format!("{left:?}"), "{nm}: {{:?}} after {p} of {n}");
        }
    }
    Ok(())
}
/// Concrete operand types, without the facade in between.
fn concrete<K: Key, A: Set<K> + SetOps<K>, B: Set<K>>(nm: &str, x: &A, y: &B, a: &BTreeSet<K>, b: &BTreeSet<K>, plan: &[usize]) -> Res
where
    for<'x> A::Iterator<'x>: Clone,
    for<'x> B::Iterator<'x>: Clone,
{
    lazy_proto(&format!("{nm}: union"), &|| SetOps::<K>::union(x, y), &expect(0, a, b), plan)?;
    lazy_proto(&format!("{nm}: intersection"), &|| SetOps::<K>::intersection(x, y), &expect(1, a, b), plan)?;
    lazy_proto(&format!("{nm}: difference"), &|| SetOps::<K>::difference(x, y), &expect(2, a, b), plan)?;
    lazy_proto(&format!("{nm}: symmetric_difference"), &|| SetOps::<K>::symmetric_difference(x, y), &expect(3, a, b), plan)?;
    shown(&format!("{nm}: union"), SetOps::<K>::union(x, y), plan)?;
    shown(&format!("{nm}: intersection"), SetOps::<K>::intersection(x, y), plan)?;
    shown(&format!("{nm}: difference"), SetOps::<K>::difference(x, y), plan)?;
    ensure_eq!(SetOps::<K>::is_disjoint(x, y), a.is_disjoint(b), "{nm}: is_disjoint");
    ensure_eq!(SetOps::<K>::is_subset(x, y), a.is_subset(b), "{nm}: is_subset");
    ensure_eq!(SetOps::<K>::is_superset(x, y), a.is_superset(b), "{nm}: is_superset");
    Ok(())
}
fn observe<K: Ord>(a: &BTreeSet<K>, b: &BTreeSet<K>, o: &mut Obs) {
    let common = a.intersection(b).count();
    o.nontrivial_if(!a.is_empty() && !b.is_empty() && a.len() + b.len() >= 3);
    o.label(if a.is_empty() || b.is_empty() { "an operand is empty" } else if a == b { "equal" } else if common == 0 { "disjoint" } else if common == a.len() || common == b.len() { "nested" } else { "overlapping" });
    o.label(match a.len().cmp(&b.len()) { std::cmp::Ordering::Less => "first smaller", std::cmp::Ordering::Equal => "same size", _ => "first larger" });
}
fn ints(c: &IntCase, o: &mut Obs) -> Res {
    let mut av = c.a.expand();
    let mut bv = resolve(&av, &c.b, |x| x.expand());
    if c.swap {
        std::mem::swap(&mut av, &mut bv);
    }
    let (a, b): (BTreeSet<i64>, BTreeSet<i64>) = (av.iter().copied().collect(), bv.iter().copied().collect());
    observe(&a, &b, o);
    let kinds = [Kind::FzHash, Kind::FzOrd, Kind::FzScalar];
    for ka in kinds {
        let x = set_scalar(ka, av.clone(), &c.h).unwrap();
        for kb in kinds {
            let y = SQ(set_scalar(kb, bv.clone(), &c.h).unwrap().into());
            pair(&*x, &y, &a, &b, &c.plan)?;
        }
    }
    let (h, hb, f) = (av.iter().copied().collect::<std::collections::HashSet<i64>>(), bv.iter().copied().collect::<hashbrown::HashSet<i64>>(), FzHashSet::new(av.clone()));
    let (fo, fs, hs) = (FzOrderedSet::new(bv.clone()), FzScalarSet::new(av.clone()), bv.iter().copied().collect::<std::collections::HashSet<i64>>());
    concrete("std HashSet with hashbrown HashSet", &h, &hb, &a, &b, &c.plan)?;
    concrete("std HashSet with FzOrderedSet", &h, &fo, &a, &b, &c.plan)?;
    concrete("BTreeSet with FzOrderedSet", &a, &fo, &a, &b, &c.plan)?;
    concrete("FzHashSet with std HashSet", &f, &hs, &a, &b, &c.plan)?;
    concrete("FzScalarSet with BTreeSet", &fs, &b, &a, &b, &c.plan)?;
    concrete("FzHashSet with FzOrderedSet", &f, &fo, &a, &b, &c.plan)
}
fn strs(c: &StrCase, o: &mut Obs) -> Res {
    let mut av = c.a.expand();
    let mut bv = resolve(&av, &c.b, |x| x.expand());
    if c.swap {
        std::mem::swap(&mut av, &mut bv);
    }
    let (a, b): (BTreeSet<Box<str>>, BTreeSet<Box<str>>) = (av.iter().cloned().collect(), bv.iter().cloned().collect());
    observe(&a, &b, o);
    let kinds = [Kind::FzHash, Kind::FzOrd, Kind::FzStr];
    for ka in kinds {
        let x = set_str(ka, av.clone(), &c.h).unwrap();
        for kb in kinds {
            let y = SQ(set_str(kb, bv.clone(), &c.h).unwrap().into());
            pair(&*x, &y, &a, &b, &c.plan)?;
        }
    }
    Ok(())
}
/// A macro-built set with another set of the same key type (macro-built or frozen at run time), either way round.
fn cat(c: &CatCase, o: &mut Obs) -> Res {
    let i = c.which / 2;
    fn go<K: Key>(mut v: Vec<(BSet<K>, Vec<K>)>, i: usize, c: &CatCase, o: &mut Obs, mk: fn(Kind, Vec<K>, &HSpec) -> Option<BSet<K>>, kinds: [Kind; 3], ex: impl Fn(&IntKeys) -> Vec<K>) -> Res {
        let n = v.len();
        let (s, e) = v.swap_remove(i % n);
        o.label(s.name().split('<').next().unwrap());
        let (t, f) = if c.other % 4 == 3 {
            v.swap_remove((c.other / 4) as usize % (n - 1))
        } else {
            let f = resolve(&e, &c.rel, ex);
            (mk(kinds[c.other as usize % 4], f.clone(), &HSpec::Fold(3)).unwrap(), f)
        };
        let (a, b): (BTreeSet<K>, BTreeSet<K>) = (e.into_iter().collect(), f.into_iter().collect());
        observe(&a, &b, o);
        if c.swap {
            pair(&*t, &SQ(s.into()), &b, &a, &c.plan)
        } else {
            pair(&*s, &SQ(t.into()), &a, &b, &c.plan)
        }
    }
    if c.which % 2 == 0 {
        go(catalog::int_sets(), i, c, o, set_scalar, [Kind::FzHash, Kind::FzOrd, Kind::FzScalar], |x| x.expand())
    } else {
        go(catalog::str_sets(), i, c, o, set_any, [Kind::FzHash, Kind::FzOrd, Kind::FzHash], |x| x.expand().into_iter().map(|i| &*format!("item{i}").leak()).collect())
    }
}
fn rel<X: Clone + std::fmt::Debug + 'static>(x: BoxedStrategy<X>) -> BoxedStrategy<Rel<X>> {
    prop_oneof![
        2 => x.clone().prop_map(Rel::Independent),
        1 => Just(Rel::Equal),
        2 => any::<(u8, u8)>().prop_map(|(step, from)| Rel::Part { step, from }),
        4 => (any::<(u8, u8)>(), x.clone()).prop_map(|((step, from), plus)| Rel::PartPlus { step, from, plus }),
        1 => x.prop_map(Rel::Superset),
        1 => Just(Rel::Empty),
    ]
    .boxed()
}
fn plan() -> impl Strategy<Value = Vec<usize>> {
    proptest::collection::vec(0usize..400, 1..3)
}
/// Operands of hundreds to thousands of values, alike or very different in size.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct BulkCase { c: Huge, mode: u8, step: u16, from: u16, more: i64, count: u16, swap: bool, kinds: (u8, u8), plan: Vec<u16> }
fn bulk(b: &BulkCase, o: &mut Obs) -> Res {
    let mut av = b.c.keys().0;
    let step = [1, 2, 3, 7, 64, 1000, 4000][b.step as usize % 7];
    let extra = (0..i64::from(b.count)).map(|i| b.more.wrapping_add(i.wrapping_mul(b.c.step)));
    let mut bv: Vec<i64> = match b.mode % 7 {
        0 => av.iter().copied().skip(b.from as usize % av.len().max(1)).collect(),
        1 => av.iter().copied().skip(b.from as usize % 50).step_by(step).collect(),
        2 => av.iter().copied().skip(b.from as usize % 50).step_by(step).chain(extra).collect(),
        3 => extra.collect(),
        4 => av.iter().copied().chain(extra).collect(),
        5 => { let mut v = av.clone(); if !v.is_empty() { let k = v[b.from as usize % v.len()]; v.retain(|x| *x != k); } v }
        _ => av.iter().copied().take(b.from as usize % 12).chain(Some(b.more)).collect(),
    };
    if b.swap { std::mem::swap(&mut av, &mut bv); }
    let (sa, sb): (BTreeSet<i64>, BTreeSet<i64>) = (av.iter().copied().collect(), bv.iter().copied().collect());
    observe(&sa, &sb, o);
    o.label(if sa.len().max(sb.len()) > 50 * sa.len().min(sb.len()) { "one operand over 50 times the other" } else if sa.len().max(sb.len()) > 4 * sa.len().min(sb.len()) { "one operand over 4 times the other" } else { "comparable sizes" });
    let plan: Vec<usize> = b.plan.iter().map(|p| *p as usize).collect();
    if b.c.which & 1 == 0 {
        let (ka, kb) = (b.kinds.0 as usize % 5, b.kinds.1 as usize % 5);
        if ka < 3 && kb < 3 {
            let kinds = [Kind::FzHash, Kind::FzOrd, Kind::FzScalar];
            let (x, y) = (set_scalar(kinds[ka], av, &b.c.h).unwrap(), SQ(set_scalar(kinds[kb], bv, &b.c.h).unwrap().into()));
            pair(&*x, &y, &sa, &sb, &plan)
        } else {
            let std = |v: &Vec<i64>| v.iter().copied().collect::<std::collections::HashSet<i64>>();
            match (ka + kb) % 5 {
                0 => concrete("std HashSet with FzHashSet", &std(&av), &FzHashSet::new(bv), &sa, &sb, &plan),
                1 => concrete("FzHashSet with FzOrderedSet", &FzHashSet::new(av), &FzOrderedSet::new(bv), &sa, &sb, &plan),
                2 => concrete("FzScalarSet with BTreeSet", &FzScalarSet::new(av), &sb, &sa, &sb, &plan),
                3 => concrete("BTreeSet with FzScalarSet", &sa, &FzScalarSet::new(bv), &sa, &sb, &plan),
                _ => concrete("FzOrderedSet with FzOrderedSet", &FzOrderedSet::new(av), &FzOrderedSet::new(bv), &sa, &sb, &plan),
            }
        }
    } else {
        let t = |v: Vec<i64>| v.into_iter().map(|k| b.c.text(k)).collect::<Vec<Box<str>>>();
        let (ta, tb) = (t(av), t(bv));
        let (sa, sb): (BTreeSet<Box<str>>, BTreeSet<Box<str>>) = (ta.iter().cloned().collect(), tb.iter().cloned().collect());
        let kinds = [Kind::FzStr, Kind::FzHash, Kind::FzOrd];
        let (x, y) = (set_str(kinds[b.kinds.0 as usize % 3], ta, &b.c.h).unwrap(), SQ(set_str(kinds[b.kinds.1 as usize % 3], tb, &b.c.h).unwrap().into()));
        pair(&*x, &y, &sa, &sb, &plan)
    }
}
fn main() {
    vh::runner::main("P10", vec![
        sub("ints", 40_000, 120_000, || (int_keys(120), rel(int_keys(60)), any::<bool>(), plan(), good_hasher()).prop_map(|(a, b, swap, plan, h)| IntCase { a, b, swap, plan, h }), ints,
            "pairs of integer sets (independent, equal, nested, overlapping, empty; either way round) over all combinations of frozen set types and standard sets: lazy iterators stepped, folded and cloned with size bounds checked at each step, operators, and predicates against BTreeSet; non-trivial: both operands non-empty and at least 3 values in total."),
        sub("strings", 20_000, 60_000, || (str_keys(60), rel(str_keys(30)), any::<bool>(), plan(), good_hasher()).prop_map(|(a, b, swap, plan, h)| StrCase { a, b, swap, plan, h }), strs, "the same for string sets."),
        sub("bulk", 700, 6_000, || (mid(9000), any::<(u8, u16, u16)>(), edge(), prop_oneof![0u16..40, 0u16..5000], any::<(bool, u8, u8)>(), proptest::collection::vec(any::<u16>(), 0..2)).prop_map(|(c, (mode, step, from), more, count, (swap, k1, k2), plan)| BulkCase { c: Huge { h: HSpec::Fold(c.start as u64), ..c }, mode, step, from, more, count, swap, kinds: (k1, k2), plan }), bulk,
            "operands of up to 14,000 values, one pair of types per case, equal, nested, overlapping or disjoint, from equally large to a few values against thousands (same oracle and rule)."),
        sub("macro-built", 16_000, 40_000, || (0usize..140, rel(int_keys(20)), any::<bool>(), plan(), any::<u8>()).prop_map(|(which, rel, swap, plan, other)| CatCase { which, rel, swap, plan, other }), cat, "macro-built sets with each other and with frozen sets."),
    ]);
}
