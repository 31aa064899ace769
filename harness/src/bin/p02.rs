use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::keys::*;
use vh::oracle::{Kind::*, *};
use vh::runner::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct IntCase { keys: IntKeys, probes: Vec<i64>, narrow: bool }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct StrCase { keys: StrKeys, probes: Vec<SProbe> }

fn run<K: vh::facade::Key>(keys: Vec<K>, probes: Vec<K>, o: &mut Obs) -> Res {
    let e = number(keys.clone());
    let want = model(&e);
    let (lo, hi) = (want.keys().next(), want.keys().next_back());
    let between = probes.iter().any(|p| !want.contains_key::<K>(p) && lo.is_some_and(|l| l < p) && hi.is_some_and(|h| h > p));
    let below = lo.is_some_and(|l| probes.iter().any(|p| p < l));
    let above = hi.is_some_and(|l| probes.iter().any(|p| p > l));
    o.nontrivial_if(want.len() >= 2 && (between || (below && above)));
    o.label_if(between, "probe between keys");
    o.label_if(below, "probe below all keys");
    o.label_if(above, "probe above all keys");
    o.label_if(want.len() < keys.len(), "has duplicates");
    o.label_if((want.len() + 1).is_power_of_two(), "complete tree");
    o.label(match want.len() { 0 => "empty", 1..=7 => "len<8", 8..=255 => "len<256", _ => "len>=256" });
    let mut all: Vec<K> = want.keys().cloned().collect();
    all.extend(probes);
    let h = HSpec::Fold(0);
    for kind in [FzOrd, Eytz] {
        let mut m = map_any(kind, e.clone(), &h).unwrap();
        lookups(&mut *m, &want, &all, want.len() as u8)?;
    }
    let s = set_any(FzOrd, keys, &h).unwrap();
    set_lookups(&*s, &want.keys().cloned().collect(), &all, 0)
}
fn ints(c: &IntCase, o: &mut Obs) -> Res {
    let k = c.keys.expand();
    let p = int_probes(&k, &c.probes);
    if c.narrow {
        run::<u8>(k.into_iter().map(|x| x as u8).collect(), p.into_iter().map(|x| x as u8).collect(), o)
    } else {
        run(k, p, o)
    }
}
fn strs(c: &StrCase, o: &mut Obs) -> Res {
    let k = c.keys.expand();
    let p = str_probes(&k, &c.probes);
    run(k, p, o)
}
/// Every size up to the bound, every key, every gap: exhaustive rather than sampled.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Gaps { n: usize, base: i64, order: u8 }
fn gaps(c: &Gaps, o: &mut Obs) -> Res {
    let mut keys: Vec<i64> = (0..c.n as i64).map(|i| c.base + 2 * i).collect();
    reorder(&mut keys, c.order);
    let probes = (-1..=2 * c.n as i64).map(|i| c.base + i).collect();
    run(keys, probes, o)
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Large { Int(vh::big::Huge), Str(vh::big::Huge) }
fn large(c: &Large, o: &mut Obs) -> Res {
    match c {
        Large::Int(c) => vh::big::huge_scalar::<i64>(c, vh::big::ORDERED, &[FzOrd], o),
        Large::Str(c) => vh::big::huge_str(c, vh::big::ORDERED, &[FzOrd], o),
    }
}
fn main() {
    vh::runner::main("P02", vec![
        sub("ints", 30_000, 300_000, || (int_keys(2100), proptest::collection::vec(edge(), 0..12), proptest::bool::weighted(0.1)).prop_map(|(keys, probes, narrow)| IntCase { keys, probes, narrow }), ints,
            "entry lists of integer keys (runs, windows, wild; duplicates; input orders) looked up through every route of FzOrderedMap/FzOrderedSet and the search building block against a BTreeMap; non-trivial: at least 2 distinct keys and absent probes between keys or on both sides."),
        sub("gaps", 7_500, 40_000, || (size(4100), edge().prop_map(|b| b / 4), any::<u8>()).prop_map(|(n, base, order)| Gaps { n, base, order }), gaps,
            "n evenly spaced keys; every key and every gap probed (same non-triviality rule)."),
        sub("strings", 20_000, 150_000, || (str_keys(500), sprobes()).prop_map(|(keys, probes)| StrCase { keys, probes }), strs,
            "the same with string keys, queried as the key, as str and as a comparable wrapper type."),
        sub("large", 48, 1500, || (vh::big::huge(), any::<bool>()).prop_map(|(c, s)| if s { Large::Int(c) } else { Large::Str(c) }), large,
            "5 000 to 90 000 entries, clustered around 65 535 (integers and strings; runs, strides, holes, repeats): every key and absent neighbours; non-trivial: at least 2 distinct keys."),
    ]);
}
