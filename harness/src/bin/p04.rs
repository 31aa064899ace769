use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::keys::*;
use vh::oracle::{Kind::*, *};
use vh::runner::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct StrCase { keys: StrKeys, probes: Vec<SProbe>, h: HSpec }

fn strs(c: &StrCase, o: &mut Obs) -> Res {
    let keys = c.keys.expand();
    let p = str_probes(&keys, &c.probes);
    let e = number(keys.clone());
    let want = model(&e);
    let lens: std::collections::BTreeSet<usize> = want.keys().map(|k| k.len()).collect();
    let absent_same_len = p.iter().any(|p| !want.contains_key::<Box<str>>(p) && lens.contains(&p.len()));
    let short = lens.first().is_some_and(|l| p.iter().any(|p| p.len() < *l));
    o.nontrivial_if(want.len() >= 2 && absent_same_len);
    o.label_if(absent_same_len, "absent probe of a stored length");
    o.label_if(short, "probe shorter than every key");
    o.label_if(lens.len() == want.len() && want.len() > 1, "all lengths distinct");
    o.label_if(want.keys().any(|k| !k.is_ascii()), "non-ASCII key");
    o.label_if(want.contains_key(""), "empty key");
    o.label(match want.len() { 0 => "empty", 1..=7 => "len<8", 8..=255 => "len<256", _ => "len>=256" });
    let mut all: Vec<Box<str>> = want.keys().cloned().collect();
    all.extend(p);
    let mut m = map_str(FzStr, e.clone(), &c.h).unwrap();
    lookups(&mut *m, &want, &all, want.len() as u8)?;
    let s = set_str(FzStr, keys.clone(), &c.h).unwrap();
    set_lookups(&*s, &want.keys().cloned().collect(), &all, 0)?;
    // the default (randomly seeded) hasher, and keys handed over as &str
    let d = frozen_collections::FzStringMap::<Box<str>, u64>::new(e.iter().map(|(k, v)| (&**k, *v)).collect());
    for q in &all {
        let w = want.get::<Box<str>>(q);
        vh::ensure!(d.get(q) == w && d.contains_key(q) == w.is_some(), "FzStringMap::new: get({q:?}) = {:?}, expected {w:?}", d.get(q));
    }
    vh::ensure_eq!(d.len(), want.len(), "FzStringMap::new: len");
    Ok(())
}
fn case(k: BoxedStrategy<StrKeys>) -> impl Strategy<Value = StrCase> {
    (k, sprobes(), prop_oneof![4 => good_hasher().boxed(), 1 => any_hasher().boxed()]).prop_map(|(keys, probes, h)| StrCase { keys, probes, h })
}
fn large(c: &vh::big::Huge, o: &mut Obs) -> Res {
    vh::big::huge_str(c, &[FzStr], &[FzStr], o)
}
/// Keys of up to 70 000 bytes, each a run of one letter with a few letters replaced.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Long { len: u32, spread: u8, keys: Vec<(u8, Vec<(u32, char)>)>, h: HSpec }
fn long(c: &Long, o: &mut Obs) -> Res {
    let spell = |extra: usize, edits: &[(u32, char)]| {
        let n = c.len as usize + extra;
        let mut v = vec![b'a'; n];
        for (at, ch) in edits {
            // positions count from either end
            let i = *at as usize / 2 % n.max(1);
            let i = if at % 2 == 0 { i } else { n - 1 - i };
            if n > 0 { v[i] = *ch as u8; }
        }
        String::from_utf8(v).unwrap().into_boxed_str()
    };
    let keys: Vec<Box<str>> = c.keys.iter().map(|(x, e)| spell(*x as usize % (c.spread as usize + 1), e)).collect();
    let e = number(keys.clone());
    let want = model(&e);
    let mut all: Vec<Box<str>> = want.keys().cloned().collect();
    for k in want.keys() {
        let n = k.len();
        for cut in [n.saturating_sub(1), n / 2, n % 256, n % 65536, n.saturating_sub(256), n.saturating_sub(65536)] { all.push(k[..cut].into()); all.push(k[n - cut..].into()); }
        all.push(format!("{k}a").into());
        all.push(format!("a{k}").into());
        for p in [0, n / 2, n.saturating_sub(1), 255, 256, 65535, 65536] { if p < n { all.push(set_char(k, p, 'X').into()); } }
        if c.keys.len() < 6 { all.push(format!("{}{k}", "a".repeat(65536 - n % 65536)).into()); }
    }
    all.push("".into());
    o.nontrivial_if(want.len() >= 2);
    o.label(match c.len { 0..=1000 => "hundreds of bytes", _ => "tens of thousands of bytes" });
    let mut m = map_str(FzStr, e.clone(), &c.h).unwrap();
    lookups(&mut *m, &want, &all, 3)?;
    let s = set_str(FzStr, keys, &c.h).unwrap();
    set_lookups(&*s, &want.keys().cloned().collect(), &all, 0)
}
fn longs() -> impl Strategy<Value = Long> {
    let len = prop_oneof![3 => 200u32..700, 3 => 65_520u32..65_560, 1 => 700u32..70_000];
    let edit = (prop_oneof![2 => 0u32..20, 2 => any::<u32>(), 1 => 500u32..520, 1 => 131_060u32..131_090], prop_oneof![Just('a'), Just('b'), Just('c'), Just('Z')]);
    (len, prop_oneof![3 => Just(0u8), 2 => 0u8..4, 1 => 0u8..40], proptest::collection::vec((any::<u8>(), proptest::collection::vec(edit, 0..3)), 1..14), good_hasher()).prop_map(|(len, spread, keys, h)| Long { len, spread, keys, h })
}
fn main() {
    vh::runner::main("P04", vec![
        sub("strings", 50_000, 400_000, || case(str_keys(700)), strs,
            "string key sets (common prefixes/suffixes, numbered, single differing position, lengths only, unicode, empty) looked up through every route of FzStringMap/FzStringSet against a BTreeMap, with probes that share parts of stored keys; non-trivial: at least 2 distinct keys and an absent probe with the length of a stored key."),
        sub("small", 30_000, 200_000, || case(str_keys(16)), strs, "small sets (same rule)."),
        sub("long", 500, 20_000, longs, long, "sets of up to 13 strings of 200 to 70 000 bytes, around 256 and 65 536, that differ in a few places counted from either end or in length; probes cut, extended and edited at those distances; non-trivial: at least 2 distinct keys."),
        sub("large", 32, 1000, vh::big::huge, large,
            "5 000 to 90 000 strings, clustered around 65 535: every key and absent neighbours; non-trivial: at least 2 distinct keys."),
    ]);
}
