use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::keys::*;
use vh::oracle::{Kind::*, *};
use vh::runner::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct IntCase { keys: IntKeys, probes: Vec<i64>, h: HSpec, narrow: bool }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct StrCase { keys: StrKeys, probes: Vec<SProbe>, h: HSpec }

fn run<K: vh::facade::Key>(keys: Vec<K>, probes: Vec<K>, h: &HSpec, o: &mut Obs) -> Res {
    let e = number(keys.clone());
    let want = model(&e);
    let absent = probes.iter().filter(|p| !want.contains_key::<K>(p)).count();
    o.nontrivial_if(want.len() >= 2 && absent >= 1);
    o.label_if(want.len() < keys.len(), "has duplicates");
    o.label_if(h.poor(), "poor hash");
    o.label(match want.len() { 0 => "empty", 1..=7 => "len<8", 8..=255 => "len<256", _ => "len>=256" });
    let mut all: Vec<K> = want.keys().cloned().collect();
    all.extend(probes);
    for kind in [FzHash, CoreHashL, CoreHashM, CoreHashS, Scan] {
        if let Some(mut m) = map_any(kind, e.clone(), h) {
            lookups(&mut *m, &want, &all, want.len() as u8)?;
        }
    }
    let s = set_any(FzHash, keys, h).unwrap();
    set_lookups(&*s, &want.keys().cloned().collect(), &all, 0)
}
fn ints(c: &IntCase, o: &mut Obs) -> Res {
    let k = c.keys.expand();
    let p = int_probes(&k, &c.probes);
    if c.narrow {
        run::<u8>(k.into_iter().map(|x| x as u8).collect(), p.into_iter().map(|x| x as u8).collect(), &c.h, o)
    } else {
        run(k, p, &c.h, o)
    }
}
fn strs(c: &StrCase, o: &mut Obs) -> Res {
    let k = c.keys.expand();
    let p = str_probes(&k, &c.probes);
    run(k, p, &c.h, o)
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Large { Int(vh::big::Huge), Str(vh::big::Huge) }
fn large(c: &Large, o: &mut Obs) -> Res {
    match c {
        Large::Int(c) => vh::big::huge_scalar::<i64>(c, vh::big::HASHY, &[FzHash], o),
        Large::Str(c) => vh::big::huge_str(c, vh::big::HASHY, &[FzHash], o),
    }
}
fn main() {
    vh::runner::main("P01", vec![
        sub("ints", 24_000, 200_000, || (int_keys(1100), proptest::collection::vec(edge(), 0..12), prop_oneof![3 => good_hasher().boxed(), 1 => any_hasher().boxed()], proptest::bool::weighted(0.1)).prop_map(|(keys, probes, h, narrow)| IntCase { keys, probes, h, narrow }), ints,
            "entry lists of integer keys (runs, windows, wild; duplicates; orders) looked up through every route of FzHashMap/FzHashSet and the hash/scan building blocks against a BTreeMap; non-trivial: at least 2 distinct keys and at least 1 absent probe."),
        sub("strings", 20_000, 150_000, || (str_keys(500), sprobes(), prop_oneof![3 => good_hasher().boxed(), 1 => any_hasher().boxed()]).prop_map(|(keys, probes, h)| StrCase { keys, probes, h }), strs,
            "the same with string keys, queried as the key, as str and as an equivalent wrapper type."),
        sub("large", 48, 1500, || (vh::big::huge(), any::<bool>()).prop_map(|(c, s)| if s { Large::Int(c) } else { Large::Str(c) }), large,
            "5 000 to 90 000 entries, clustered around 65 535 (integers and strings; runs, strides, holes, repeats): every key and absent neighbours; non-trivial: at least 2 distinct keys."),
    ]);
}
