#[path = "../catalog.rs"]
mod catalog;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use vh::ensure;
use vh::facade::{BMap, Key, MQ, V};
use vh::keys::*;
use vh::oracle::*;
use vh::runner::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// get_mut on the stored key
    Put { map: u8, route: u8, key: u16, val: V },
    /// get_mut on a key that may be absent
    PutNear { map: u8, route: u8, key: u16, near: u8, val: V },
    /// iter_mut over the first `upto` entries
    IterMut { map: u8, route: u8, upto: u16, add: V },
    ValuesMut { map: u8, route: u8, upto: u16, add: V },
    Disjoint { map: u8, route: u8, unchecked: bool, keys: Vec<u16>, add: V },
    Clone { map: u8 },
    Drop { map: u8 },
    Check { map: u8 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct IntCase { keys: IntKeys, ops: Vec<Op>, h: HSpec }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct StrCase { keys: StrKeys, ops: Vec<Op>, h: HSpec }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct CatCase { which: usize, ops: Vec<Op> }

fn full<K: Key>(m: &dyn DM<K>, want: &BTreeMap<K, V>, when: &str) -> Res {
    contents(m, want).map_err(|e| format!("{when}: {e}"))?;
    for (k, v) in want {
        ensure!(m.get(0, k) == Some(v), "{when}: {}.get({k:?}) = {:?}, expected {v}", m.name(), m.get(0, k));
    }
    Ok(())
}
use vh::facade::DMap as DM;

fn history<K: Key>(m: BMap<K>, start: &BTreeMap<K, V>, ops: &[Op], near: &[K], o: &mut Obs) -> Res {
    let nm = m.name();
    let mut maps: Vec<(BMap<K>, BTreeMap<K, V>)> = vec![(m, start.clone())];
    let keys: Vec<K> = start.keys().cloned().collect();
    let at = |i: u16| keys.get(i as usize % keys.len().max(1));
    for (step, op) in ops.iter().enumerate() {
        let n = maps.len();
        let sel = |m: &u8| *m as usize % n;
        let touched = match op {
            Op::Put { map, route, key, val } => {
                let (m, w) = &mut maps[sel(map)];
                if let Some(k) = at(*key) {
                    match m.get_mut(*route, k) {
                        None => return Err(format!("step {step}: {nm}.get_mut({k:?}) by route {route}: none")),
                        Some(x) => {
                            ensure!(*x == w.get::<K>(k).copied().unwrap(), "step {step}: {nm}.get_mut({k:?}) by route {route} sees {x}, expected {}", w.get::<K>(k).copied().unwrap());
                            *x = *val;
                        }
                    }
                    w.insert(k.clone(), *val);
                }
                Some(sel(map))
            }
            Op::PutNear { map, route, key, near: nr, val } => {
                let (m, w) = &mut maps[sel(map)];
                if let Some(k) = near.get((*key as usize).wrapping_add(*nr as usize) % near.len().max(1)) {
                    let got = m.get_mut(*route, k).map(|x| std::mem::replace(x, *val));
                    ensure!(got == w.get::<K>(k).copied(), "step {step}: {nm}.get_mut({k:?}) by route {route} = {got:?}, expected {:?}", w.get::<K>(k));
                    if got.is_some() {
                        w.insert(k.clone(), *val);
                    }
                }
                Some(sel(map))
            }
            Op::IterMut { map, route, upto, add } => {
                let (m, w) = &mut maps[sel(map)];
                let upto = if *upto % 3 == 0 { usize::MAX } else { *upto as usize % (keys.len() + 1) };
                for (k, v) in m.iter_mut(*route).take(upto) {
                    ensure!(w.get::<K>(k) == Some(&*v), "step {step}: {nm}.iter_mut() pairs {k:?} with {v}, expected {:?}", w.get::<K>(k));
                    *v = v.wrapping_add(*add).rotate_left(7);
                    let nv = *v;
                    w.insert(k.clone(), nv);
                }
                Some(sel(map))
            }
            Op::ValuesMut { map, route, upto, add } => {
                // values only: the result must be some assignment consistent with updating `upto` distinct entries
                let (m, w) = &mut maps[sel(map)];
                let upto = if *upto % 3 == 0 { keys.len() } else { *upto as usize % (keys.len() + 1) };
                let mut n = 0;
                for v in m.values_mut(*route).take(upto) {
                    *v = v.wrapping_add(*add).wrapping_add(1 << 40);
                    n += 1;
                }
                ensure!(n == upto, "step {step}: {nm}.values_mut() yields {n} of {upto}");
                let mut changed = 0;
                for k in &keys {
                    let g = *m.get(0, k).ok_or_else(|| format!("step {step}: {nm} lost {k:?}"))?;
                    if g == w.get::<K>(k).copied().unwrap().wrapping_add(*add).wrapping_add(1 << 40) && g != w.get::<K>(k).copied().unwrap() {
                        changed += 1;
                        w.insert(k.clone(), g);
                    } else {
                        ensure!(g == w.get::<K>(k).copied().unwrap(), "step {step}: after values_mut {nm}.get({k:?}) = {g}, neither updated nor as before ({})", w.get::<K>(k).copied().unwrap());
                    }
                }
                let moves = add.wrapping_add(1 << 40) != 0;
                ensure!(!moves || changed == upto, "step {step}: {nm}.values_mut() on {upto} entries changed {changed}");
                Some(sel(map))
            }
            Op::Disjoint { map, route, unchecked, keys: ks, add } => {
                let (m, w) = &mut maps[sel(map)];
                let mut q: Vec<&K> = vec![];
                for i in ks {
                    if let Some(k) = at(*i) {
                        if !q.contains(&k) {
                            q.push(k);
                        }
                    }
                }
                q.truncate(6);
                let got = m.disjoint(*route, *unchecked, &q);
                for (k, g) in q.iter().zip(got) {
                    match g {
                        None => return Err(format!("step {step}: {nm}.get_disjoint_mut: nothing for {k:?}")),
                        Some(x) => {
                            ensure!(*x == w.get::<K>(k).copied().unwrap(), "step {step}: {nm}.get_disjoint_mut sees {x} for {k:?}, expected {}", w.get::<K>(k).copied().unwrap());
                            *x = x.wrapping_mul(3).wrapping_add(*add);
                        }
                    }
                }
                for k in q {
                    let nv = w.get::<K>(k).copied().unwrap().wrapping_mul(3).wrapping_add(*add);
                    w.insert(k.clone(), nv);
                }
                Some(sel(map))
            }
            Op::Clone { map } => {
                let i = sel(map);
                if n < 4 {
                    let c = maps[i].0.clone_box();
                    let (a, b) = (MQ(c), &maps[i].0);
                    ensure!(b.eq_any(&a), "step {step}: {nm}: a clone is not equal to its original");
                    let w = maps[i].1.clone();
                    maps.push((a.0, w));
                    o.label("clone");
                }
                None
            }
            Op::Drop { map } => {
                if n > 1 {
                    let i = sel(map);
                    maps.remove(i);
                }
                None
            }
            Op::Check { map } => {
                let (m, w) = &maps[sel(map)];
                full(&**m, w, &format!("step {step}"))?;
                None
            }
        };
        if let Some(i) = touched {
            let (m, w) = &maps[i];
            ensure!(m.len(0) == start.len(), "step {step}: {nm}.len() changed to {}", m.len(0));
            if w.len() <= 40 {
                full(&**m, w, &format!("after step {step} ({op:?})"))?;
            }
        }
    }
    for (i, (m, w)) in maps.iter_mut().enumerate() {
        full(&**m, w, &format!("at the end, map {i}"))?;
        lookups(&mut **m, w, near, i as u8)?;
    }
    Ok(())
}
fn observe(n: usize, ops: &[Op], o: &mut Obs) {
    let w = ops.iter().filter(|o| !matches!(o, Op::Clone { .. } | Op::Drop { .. } | Op::Check { .. })).count();
    let c = ops.iter().any(|o| matches!(o, Op::Clone { .. }));
    o.nontrivial_if(n >= 2 && w >= 2);
    o.label_if(c && w >= 2 && n >= 1, "updates and clones");
    o.label(match n { 0 => "empty", 1 => "one", 2..=7 => "len<8", 8..=255 => "len<256", _ => "len>=256" });
}
fn ints(c: &IntCase, o: &mut Obs) -> Res {
    let k = c.keys.expand();
    let near = int_probes(&k, &[]);
    let e = number(k);
    let want = model(&e);
    observe(want.len(), &c.ops, o);
    for kind in INT_KINDS {
        if let Some(m) = map_scalar(*kind, e.clone(), &c.h) {
            history(m, &want, &c.ops, &near, o)?;
        }
    }
    Ok(())
}
fn strs(c: &StrCase, o: &mut Obs) -> Res {
    let k = c.keys.expand();
    let near = str_probes(&k, &[]);
    let e = number(k);
    let want = model(&e);
    observe(want.len(), &c.ops, o);
    for kind in STR_KINDS {
        if let Some(m) = map_str(*kind, e.clone(), &c.h) {
            history(m, &want, &c.ops, &near, o)?;
        }
    }
    Ok(())
}
fn cat(c: &CatCase, o: &mut Obs) -> Res {
    let i = c.which / 2;
    if c.which % 2 == 0 {
        let mut v = catalog::int_maps();
        let n = v.len();
        let (m, e) = v.swap_remove(i % n);
        observe(e.len(), &c.ops, o);
        o.label(m.name().split('<').next().unwrap());
        let near = int_probes(&e.iter().map(|x| x.0).collect::<Vec<_>>(), &[]);
        history(m, &model(&e), &c.ops, &near, o)
    } else {
        let mut v = catalog::str_maps();
        let n = v.len();
        let (m, e) = v.swap_remove(i % n);
        observe(e.len(), &c.ops, o);
        o.label(m.name().split('<').next().unwrap());
        let boxed: Vec<Box<str>> = e.iter().map(|x| x.0.into()).collect();
        let near: Vec<&'static str> = str_probes(&boxed, &[]).into_iter().map(|s| &*s.to_string().leak()).collect();
        history(m, &model(&e), &c.ops, &near, o)
    }
}
fn op() -> impl Strategy<Value = Op> {
    let (m, r, k, v) = (any::<u8>(), any::<u8>(), any::<u16>(), any::<V>());
    prop_oneof![
        4 => (m, r, k, v).prop_map(|(map, route, key, val)| Op::Put { map, route, key, val }),
        2 => (any::<u8>(), any::<u8>(), any::<u16>(), any::<u8>(), any::<V>()).prop_map(|(map, route, key, near, val)| Op::PutNear { map, route, key, near, val }),
        2 => (any::<u8>(), any::<u8>(), any::<u16>(), any::<V>()).prop_map(|(map, route, upto, add)| Op::IterMut { map, route, upto, add }),
        2 => (any::<u8>(), any::<u8>(), any::<u16>(), any::<V>()).prop_map(|(map, route, upto, add)| Op::ValuesMut { map, route, upto, add }),
        3 => (any::<u8>(), any::<u8>(), any::<bool>(), proptest::collection::vec(any::<u16>(), 0..7), any::<V>()).prop_map(|(map, route, unchecked, keys, add)| Op::Disjoint { map, route, unchecked, keys, add }),
        2 => any::<u8>().prop_map(|map| Op::Clone { map }),
        1 => any::<u8>().prop_map(|map| Op::Drop { map }),
        1 => any::<u8>().prop_map(|map| Op::Check { map }),
    ]
}
fn ops() -> impl Strategy<Value = Vec<Op>> {
    proptest::collection::vec(op(), 0..30)
}
fn main() {
    vh::runner::main("P08", vec![
        sub("ints", 12_500, 150_000, || (int_keys(200), ops(), any_hasher()).prop_map(|(keys, ops, h)| IntCase { keys, ops, h }), ints,
            "histories of updates (get_mut by every route, iter_mut, values_mut, get_disjoint_mut checked and unchecked) over up to 4 live clones, on every map type with integer keys, against BTreeMap models checked in full after each step; non-trivial: at least 2 entries and 2 updating operations."),
        sub("strings", 7_500, 80_000, || (str_keys(100), ops(), good_hasher()).prop_map(|(keys, ops, h)| StrCase { keys, ops, h }), strs, "the same for string keys."),
        sub("macro-built", 3_750, 30_000, || (0usize..140, ops()).prop_map(|(which, ops)| CatCase { which, ops }), cat, "the same for maps built by the macros (inline types)."),
    ]);
}
