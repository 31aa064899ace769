use frozen_collections::Scalar;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::facade::Key;
use vh::keys::*;
use vh::oracle::{Kind, Kind::*, *};
use vh::runner::*;
use vh::with_scalar;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { ty: u8, keys: IntKeys, probes: Vec<i64> }

fn typed<K: Key + Scalar + FromI64>(c: &Case, o: &mut Obs) -> Res
where
    K::Alt: Scalar,
{
    let raw = c.keys.expand();
    let p: Vec<K> = int_probes(&raw, &c.probes).into_iter().map(K::from_i64).collect();
    let keys: Vec<K> = raw.into_iter().map(K::from_i64).collect();
    let e = number(keys.clone());
    let want = model(&e);
    let idx: std::collections::BTreeSet<usize> = want.keys().map(index_of).collect();
    let range = match (idx.first(), idx.last()) { (Some(a), Some(b)) => b - a, _ => 0 };
    let absent = p.iter().filter(|p| !want.contains_key::<K>(p)).count();
    let near = p.iter().any(|p| !want.contains_key::<K>(p) && want.keys().any(|k| index_of(k).abs_diff(index_of(p)) == 1));
    o.nontrivial_if(want.len() >= 2 && near);
    o.label_if(absent > 0, "absent probe");
    o.label(std::any::type_name::<K>());
    o.label(if want.len() < 2 { "len<2" } else if range == want.len() - 1 { "contiguous" } else if range < want.len() * 20 { "narrow gaps" } else { "wide" });
    o.label_if(range == usize::MAX, "whole usize range");
    let mut all: Vec<K> = want.keys().cloned().collect();
    all.extend(p);
    let h = HSpec::Fold(1);
    for kind in [FzScalar, Sparse, Dense] {
        if let Some(mut m) = map_scalar(kind, e.clone(), &h) {
            lookups(&mut *m, &want, &all, want.len() as u8)?;
        }
    }
    let s = set_scalar(FzScalar, keys, &h).unwrap();
    set_lookups(&*s, &want.keys().cloned().collect(), &all, 0)
}
fn test(c: &Case, o: &mut Obs) -> Res {
    with_scalar!(c.ty, typed(c, o))
}
fn large(c: &(u8, vh::big::Huge), o: &mut Obs) -> Res {
    let s: &[Kind] = &[FzScalar];
    match c.0 % 8 {
        0 => vh::big::huge_scalar::<u16>(&c.1, vh::big::SCALARS, s, o), 1 => vh::big::huge_scalar::<i16>(&c.1, vh::big::SCALARS, s, o),
        2 => vh::big::huge_scalar::<u64>(&c.1, vh::big::SCALARS, s, o), 3 => vh::big::huge_scalar::<i32>(&c.1, vh::big::SCALARS, s, o),
        4 => vh::big::huge_scalar::<std::num::NonZeroI16>(&c.1, vh::big::SCALARS, s, o), 5 => vh::big::huge_scalar::<std::num::NonZeroU32>(&c.1, vh::big::SCALARS, s, o),
        6 => vh::big::huge_scalar::<usize>(&c.1, vh::big::SCALARS, s, o), _ => vh::big::huge_scalar::<i64>(&c.1, vh::big::SCALARS, s, o),
    }
}
fn main() {
    vh::runner::main("P03", vec![
        sub("types", 144_000, 500_000, || (0..SCALAR_TYPES, int_keys(1100), proptest::collection::vec(edge(), 0..16)).prop_map(|(ty, keys, probes)| Case { ty, keys, probes }), test,
            "entry lists over all 20 integer/non-zero types and a derived enum (runs, windows with gaps, extremes; duplicates; orders) looked up through every route of FzScalarMap/FzScalarSet and the dense/sparse building blocks against a BTreeMap; non-trivial: at least 2 distinct keys and an absent probe adjacent to a stored key."),
        sub("narrow", 36_000, 60_000, || (prop_oneof![Just(0u8), Just(5), Just(10), Just(15), Just(20)], int_keys(300)).prop_map(|(ty, keys)| Case { ty, keys, probes: (-128..256).collect() }), test,
            "8-bit types and the enum: every value of the type probed (same rule)."),
        sub("large", 64, 1500, || (any::<u8>(), vh::big::huge()), large,
            "5 000 to 90 000 entries, clustered around 65 535, over several integer types (contiguous, strided, holes, repeats): every key and absent neighbours; non-trivial: at least 2 distinct keys."),
    ]);
}
