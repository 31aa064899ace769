#!/usr/bin/env python3
"""Writes harness/src/catalog.rs: macro-built (inline) collections of every kind and of many sizes, with their entries."""
import random
R = random.Random(20240607)
out = []
def ints(pat, n):
    if pat == "dense": b = R.randint(-50, 50); ks = [b + i for i in range(n)]
    elif pat == "sparse": b = R.randint(-50, 50); ks = sorted(R.sample(range(b, b + 3 * n + 2), n))
    elif pat == "wide": ks = R.sample(range(-10**12, 10**12), n)
    elif pat == "high": ks = [i * 4096 for i in R.sample(range(10**6), n)]
    R.shuffle(ks)
    return ks
def strs(pat, n):
    alpha = "abcdefghijklmnopqrstuvwxyz"
    word = lambda l: "".join(R.choice(alpha) for _ in range(l))
    s = set()
    i = 0
    while len(s) < n:
        i += 1
        if pat == "left": s.add(word(3) + "-common-tail")
        elif pat == "right": s.add("common-head-" + word(3))
        elif pat == "len": s.add("x" * (i * 2))
        elif pat == "any": s.add(R.choice(["k", "key", "é", "日本", ""]) + word(R.randint(0, 6)) + R.choice(["", "\\\"", "q"]))
        elif pat == "num": s.add("item%d" % i)
    s = list(s); R.shuffle(s)
    return s
def lit(k): return '"%s"' % k if isinstance(k, str) else ("%di64" % k)
def emit(mac, keys, v, fn):
    vals = [R.randrange(10**9) for _ in keys]
    if v == "map":
        out.append(f"    m!(v, {mac}_map; {', '.join(f'{lit(k)} => {x}u64' for k, x in zip(keys, vals))});")
    else:
        out.append(f"    s!(v, {mac}_set; {', '.join(lit(k) for k in keys)});")
def emit_x(mac, keys, v):
    vals = [R.randrange(10**9) for _ in keys]
    if v == "map":
        out.append(f"    mx!(v, {mac}_map; {', '.join(f'{lit(k)} => {x}u64' for k, x in zip(keys, vals))});")
    else:
        out.append(f"    sx!(v, {mac}_set; {', '.join(lit(k) for k in keys)});")
def neg_free(ks):  # negative literals count as expressions, which the macros treat separately
    return [abs(k) if k != 0 else 7_000_001 for k in ks]
def uniq(ks): return list(dict.fromkeys(ks))
def body(v, kind):
    if kind == "int":
        for mac in ["fz_hash", "fz_ordered"]:
            for n, pat in [(1, "wide"), (2, "dense"), (3, "wide"), (4, "high"), (5, "wide"), (7, "dense"), (8, "wide"), (15, "sparse"), (16, "wide"), (33, "high")]:
                emit(mac, uniq(neg_free(ints(pat, n))), v, kind)
        emit("fz_hash", uniq(neg_free(ints("wide", 300))), v, kind)
        for n, pat in [(1, "dense"), (2, "sparse"), (4, "wide"), (5, "dense"), (8, "dense"), (9, "sparse"), (8, "wide"), (12, "wide"), (16, "high"), (40, "dense"), (60, "sparse"), (300, "sparse"), (64, "high"), (270, "wide")]:
            emit("fz_scalar", uniq(neg_free(ints(pat, n))), v, kind)
        for n, pat in [(2, "wide"), (4, "wide"), (5, "dense"), (7, "wide"), (8, "wide"), (15, "sparse"), (22, "wide")]:
            emit_x("fz_ordered", ints(pat, n), v)
        emit_x("fz_scalar", ints("sparse", 6), v)
        emit_x("fz_hash", ints("wide", 3), v)
    else:
        for n, pat in [(3, "any"), (4, "any"), (6, "num"), (11, "right")]:
            emit_x("fz_ordered", strs(pat, n), v)
        emit_x("fz_hash", strs("any", 3), v)
        for n, pat in [(1, "any"), (2, "left"), (3, "num"), (4, "left"), (5, "right"), (6, "len"), (8, "any"), (12, "num"), (20, "left"), (33, "right"), (60, "any"), (100, "num"), (300, "num")]:
            emit("fz_string", strs(pat, n), v, kind)
        for mac in ["fz_hash", "fz_ordered"]:
            for n, pat in [(2, "any"), (5, "num"), (9, "any"), (30, "left")]:
                emit(mac, strs(pat, n), v, kind)
print_head = '''// Generated by tools/mkcatalog.py. Macro-built collections of every kind with the entries they were written from.
use frozen_collections as fz;
use vh::facade::*;
macro_rules! m {
    ($v:ident, $mac:ident; $($k:tt => $x:tt),*) => { $v.push((Box::new(fz::$mac!({ $($k: $x,)* })) as BMap<_>, vec![$(($k, $x)),*])) };
}
macro_rules! s {
    ($v:ident, $mac:ident; $($k:tt),*) => { $v.push((Box::new(fz::$mac!({ $($k,)* })) as BSet<_>, vec![$($k),*])) };
}
macro_rules! mx {
    ($v:ident, $mac:ident; $($k:expr => $x:tt),*) => { $v.push((Box::new(fz::$mac!({ $(std::hint::black_box($k): $x,)* })) as BMap<_>, vec![$(($k, $x)),*])) };
}
macro_rules! sx {
    ($v:ident, $mac:ident; $($k:expr),*) => { $v.push((Box::new(fz::$mac!({ $(std::hint::black_box($k),)* })) as BSet<_>, vec![$($k),*])) };
}
type St = &'static str;
'''
for fn, ty, v, kind in [("int_maps", "(BMap<i64>, Vec<(i64, V)>)", "map", "int"), ("int_sets", "(BSet<i64>, Vec<i64>)", "set", "int"), ("str_maps", "(BMap<St>, Vec<(St, V)>)", "map", "str"), ("str_sets", "(BSet<St>, Vec<St>)", "set", "str")]:
    out.append(f"#[allow(dead_code)]\npub fn {fn}() -> Vec<{ty}> {{\n    let mut v: Vec<{ty}> = vec![];")
    body(v, kind)
    out.append("    v\n}")
open(__file__.replace("tools/mkcatalog.py", "harness/src/catalog.rs"), "w").write(print_head + "\n".join(out) + "\n")
