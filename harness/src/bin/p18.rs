//! The index contract of scalar types and of derived enums.
use frozen_collections::Scalar;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::num::*;
use vh::ensure;
use vh::progs::{ProgCase, programs};
use vh::runner::*;

const TYPES: [&str; 20] = ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "NonZeroU8", "NonZeroU16", "NonZeroU32", "NonZeroU64", "NonZeroUsize", "NonZeroI8", "NonZeroI16", "NonZeroI32", "NonZeroI64", "NonZeroIsize"];
/// (low, high, index of a value if the type has it)
fn bounds(t: usize) -> (i128, i128) {
    let bits = [8, 16, 32, 64, 64][t % 5];
    if (t / 5) % 2 == 0 { (0, (1i128 << bits) - 1) } else { (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1) }
}
/// The index, if the type has the value.
fn index(t: usize, v: i128) -> Option<usize> {
    fn ix<T: Scalar>(x: T) -> usize { Scalar::index(&x) }
    macro_rules! prim { ($t:ty) => { ix(<$t>::try_from(v).ok()?) } }
    macro_rules! nz { ($n:ty, $t:ty) => { ix(<$n>::new(<$t>::try_from(v).ok()?)?) } }
    Some(match t {
        0 => prim!(u8), 1 => prim!(u16), 2 => prim!(u32), 3 => prim!(u64), 4 => prim!(usize), 5 => prim!(i8), 6 => prim!(i16), 7 => prim!(i32), 8 => prim!(i64), 9 => prim!(isize),
        10 => nz!(NonZeroU8, u8), 11 => nz!(NonZeroU16, u16), 12 => nz!(NonZeroU32, u32), 13 => nz!(NonZeroU64, u64), 14 => nz!(NonZeroUsize, usize),
        15 => nz!(NonZeroI8, i8), 16 => nz!(NonZeroI16, i16), 17 => nz!(NonZeroI32, i32), 18 => nz!(NonZeroI64, i64), _ => nz!(NonZeroIsize, isize),
    })
}
fn pair(t: usize, a: i128, b: i128) -> Res {
    let (Some(x), Some(y)) = (index(t, a), index(t, b)) else { return Ok(()) };
    let n = TYPES[t];
    ensure!(x.cmp(&y) == a.cmp(&b), "{n}: index({a}) = {x:#x}, index({b}) = {y:#x}: not in the order of the values");
    if (b - a).abs() == 1 {
        ensure!(x.abs_diff(y) == 1, "{n}: {a} and {b} differ by one, their indices {x:#x} and {y:#x} do not");
    }
    ensure!(index(t, a) == Some(x), "{n}: index({a}) changes from call to call");
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pairs { t: usize, at: Vec<(u8, i64)> }
fn value(t: usize, how: u8, n: i64) -> i128 {
    let (lo, hi) = bounds(t);
    let small = i128::from(n % 5);
    let v = match how % 8 {
        0 => lo + small.abs(),
        1 => hi - small.abs(),
        2 => small,
        3 => (1i128 << (n.rem_euclid(64))) + small,
        4 => -(1i128 << (n.rem_euclid(64))) + small,
        5 => (lo + hi + 1) / 2 + small,
        _ => i128::from(n) + if how % 2 == 0 { 0 } else { 1i128 << 63 },
    };
    lo + (v - lo).rem_euclid(hi - lo + 1)
}
fn pairs(c: &Pairs, o: &mut Obs) -> Res {
    let v: Vec<i128> = c.at.iter().map(|(h, n)| value(c.t, *h, *n)).collect();
    o.label(TYPES[c.t]);
    o.nontrivial_if(v.iter().collect::<std::collections::BTreeSet<_>>().len() >= 2);
    o.label_if(v.iter().any(|x| *x < 0) && v.iter().any(|x| *x >= 0), "across the sign change");
    for a in &v {
        for b in &v { pair(c.t, *a, *b)?; }
        for d in [-2, -1, 1, 2] { pair(c.t, *a, a + d)?; }
    }
    Ok(())
}
/// Every value of the small types.
fn blocks(c: &(usize, i64), o: &mut Obs) -> Res {
    let t = [0, 1, 5, 6, 10, 11, 15, 16][c.0 % 8];
    let (lo, hi) = bounds(t);
    let from = lo + i128::from(c.1).rem_euclid(hi - lo + 1);
    o.label(TYPES[t]);
    o.nontrivial_if(true);
    for a in from..=(from + 4096).min(hi) {
        pair(t, a, a + 1)?;
        pair(t, a, if a == from { hi } else { from })?;
    }
    Ok(())
}

// ---------------------------------------------------------------- derived enums
#[derive(Clone, Debug, Serialize, Deserialize)]
struct En { n: usize, names: u8, vis: u8, repr: u8, generic: bool, local: bool, seed: u64, keys: Vec<u16> }
impl En {
    fn names(&self) -> Vec<String> {
        (0..self.n)
            .map(|i| match self.names % 5 {
                0 => format!("V{i}"),
                1 => format!("Z{}", self.n - i),
                2 => format!("{}{}", ["Alpha", "beta", "r#type", "Ünï", "_x", "Self_"][(i + self.seed as usize) % 6], i),
                3 => { let w = ["Option", "Some", "Ok", "None", "r#match", "Index", "Scalar", "String", "usize", "r#fn"]; if i < w.len() { w[i].to_string() } else { format!("W{i}") } }
                _ => format!("V{}", (i as u64).wrapping_mul(2_654_435_761).wrapping_add(self.seed) % 1_000_000_007),
            })
            .collect()
    }
}
impl ProgCase for En {
    fn render(&self) -> Result<String, String> {
        let names = self.names();
        let repr = ["", "#[repr(u16)] ", "#[repr(i16)] ", "#[non_exhaustive] ", "#[repr(C)] ", "#[repr(isize)] "][self.repr as usize % 6];
        let (g, ga) = if self.generic { ("<const N: usize>", "<3>") } else { ("", "") };
        let ty = format!("E{ga}");
        let q = if self.generic { "E::<3>" } else { "E" };
        // an order other than that of declaration cannot follow the index contract, so order is always derived
        let decl = format!("{repr}#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash, ::frozen_collections::Scalar)]\n#[allow(non_camel_case_types, uncommon_codepoints)]\n{} enum E{g} {{ {} }}\n", ["", "pub", "pub(crate)"][self.vis as usize % 3], names.iter().map(|n| format!("{}{n}", if self.seed % 3 == 0 { "/** doc */ " } else { "" })).collect::<Vec<_>>().join(", "));
        let all = names.iter().map(|n| format!("{q}::{n}")).collect::<Vec<_>>().join(", ");
        let keys: Vec<usize> = self.keys.iter().map(|k| *k as usize % self.n).collect();
        let (out, inn) = if self.local { ("", decl.as_str()) } else { (decl.as_str(), "") };
        Ok(format!(
            "{out}
pub fn run() -> ::core::result::Result<(), ::std::string::String> {{
    use ::frozen_collections::Scalar as Sc;
    use ::frozen_collections::{{SetQuery as _, MapQuery as _, Len as _}};
    {inn}
    let all: ::std::vec::Vec<{ty}> = ::std::vec![{all}];
    for (i, e) in all.iter().enumerate() {{
        if Sc::index(e) != i {{ return ::core::result::Result::Err(::std::format!(\"variant {{i}} ({{e:?}}) has index {{}}\", Sc::index(e))); }}
    }}
    let keys: ::std::vec::Vec<usize> = ::std::vec!{keys:?};
    let m: ::frozen_collections::FzScalarMap<{ty}, usize> = keys.iter().map(|k| (all[*k], *k)).collect();
    for (i, e) in all.iter().enumerate() {{
        let want = keys.contains(&i);
        if m.get(e).copied() != want.then_some(i) {{ return ::core::result::Result::Err(::std::format!(\"map lookup of variant {{i}} gives {{:?}}\", m.get(e))); }}
    }}
    ::core::result::Result::Ok(())
}}
"
        ))
    }
    fn simpler(&self) -> Vec<Self> {
        let mut v = vec![];
        for n in [1, 2, self.n / 2, self.n.saturating_sub(1)] {
            if n > 0 && n < self.n { v.push(En { n, ..self.clone() }); }
        }
        if self.names % 5 != 0 { v.push(En { names: 0, ..self.clone() }); }
        if self.repr != 0 { v.push(En { repr: 0, ..self.clone() }); }
        if self.generic { v.push(En { generic: false, ..self.clone() }); }
        if self.local { v.push(En { local: false, ..self.clone() }); }
        if !self.keys.is_empty() { v.push(En { keys: vec![], ..self.clone() }); v.push(En { keys: self.keys[..self.keys.len() / 2].to_vec(), ..self.clone() }); }
        v
    }
    fn labels(&self) -> Vec<String> {
        vec![match self.n { 1 => "1 variant", 2..=15 => "2-15 variants", 16..=255 => "16-255 variants", _ => ">=256 variants" }.into(), format!("repr {}", self.repr % 6), format!("names {}", self.names % 5), if self.generic { "const generic".into() } else { "plain".into() }]
    }
    fn nontrivial(&self) -> bool {
        self.n >= 2
    }
}
fn en() -> impl Strategy<Value = En> {
    let n = prop_oneof![3 => 1usize..20, 1 => 20usize..120, 1 => prop_oneof![Just(127usize), Just(128), Just(129), Just(255), Just(256), Just(257), Just(300)]];
    (n, any::<u8>(), 0u8..3, prop_oneof![2 => Just(0u8), 1 => 1u8..6], proptest::bool::weighted(0.15), any::<bool>(), any::<u64>(), proptest::collection::vec(any::<u16>(), 0..20)).prop_map(|(n, names, vis, repr, generic, local, seed, keys)| En { n, names, vis, repr, generic, local, seed, keys })
}
fn main() {
    vh::runner::main_with(
        "P18",
        vec![
            sub("pairs", 400_000, 5_000_000, || (0usize..20, proptest::collection::vec((any::<u8>(), prop_oneof![2 => -300i64..300, 1 => any::<i64>()]), 2..8)).prop_map(|(t, at)| Pairs { t, at }), pairs,
                "groups of values of one of the 20 scalar types (limits, zero, powers of two, sign change, random) and their neighbours: order and identity of indices equal those of the values, difference one is kept; non-trivial: two distinct values."),
            sub("blocks", 800, 4000, || (0usize..8, prop_oneof![Just(0i64), (0i64..17).prop_map(|b| b * 4096), any::<i64>()]), blocks, "runs of 4096 consecutive values of the 8 and 16 bit types (together all of them) with their neighbours and the ends of the run."),
        ],
        programs("P18", "derived", 400, 4000, vec![], en, "enums of 1 to 300 unit variants (names incl. raw and shadowing identifiers, representations, visibility, const generics, local or at module level) deriving Scalar: each is compiled and every variant's index is its position; a scalar map keyed by them answers for all variants; non-trivial: at least 2 variants."),
    );
}
