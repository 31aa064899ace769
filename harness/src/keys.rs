//! Generators of key sets, probes and hashers.
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::hash::{BuildHasher, Hasher};

// ------------------------------------------------------------------ hashers

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum HSpec {
    Fold(u64),
    Sip(u64),
    Const(u64),
    Mod(u64),
    /// only the low n bits vary
    Low(u8),
    /// low n bits are zero
    Shl(u8),
    /// only bits [a, a+n) vary
    Bits(u8, u8),
    /// sum of the bytes fed to the hasher
    Sum,
    /// last byte fed to the hasher
    LastByte,
    /// count of bytes fed to the hasher
    Count,
}
impl HSpec {
    pub fn poor(&self) -> bool {
        !matches!(self, HSpec::Fold(_) | HSpec::Sip(_))
    }
}
#[derive(Clone, Debug)]
pub struct DynBH(pub HSpec);
impl Default for DynBH {
    fn default() -> Self {
        DynBH(HSpec::Fold(0))
    }
}
thread_local! {
    static BUDGET: Cell<u64> = const { Cell::new(u64::MAX) };
}
/// Limits how many hashes may be computed before a panic ("does not terminate").
pub fn set_hash_budget(n: u64) {
    BUDGET.with(|b| b.set(n));
}
enum Inner {
    Fold(foldhash::fast::FoldHasher),
    #[allow(deprecated)]
    Sip(std::hash::SipHasher),
    Sum(u64, u64, u8),
}
pub struct DynHasher {
    inner: Inner,
    spec: HSpec,
}
impl BuildHasher for DynBH {
    type Hasher = DynHasher;
    fn build_hasher(&self) -> DynHasher {
        BUDGET.with(|b| {
            let n = b.get();
            if n == 0 {
                panic!("hash budget exhausted: construction or lookup does not terminate in reasonable work");
            }
            if n != u64::MAX {
                b.set(n - 1);
            }
        });
        let inner = match self.0 {
            HSpec::Fold(s) => Inner::Fold(foldhash::fast::FixedState::with_seed(s).build_hasher()),
            #[allow(deprecated)]
            HSpec::Sip(s) => Inner::Sip(std::hash::SipHasher::new_with_keys(s, !s)),
            HSpec::Sum | HSpec::LastByte | HSpec::Count => Inner::Sum(0, 0, 0),
            _ => Inner::Fold(foldhash::fast::FixedState::with_seed(7).build_hasher()),
        };
        DynHasher { inner, spec: self.0.clone() }
    }
}
impl Hasher for DynHasher {
    fn write(&mut self, b: &[u8]) {
        match &mut self.inner {
            Inner::Fold(h) => h.write(b),
            Inner::Sip(h) => h.write(b),
            Inner::Sum(s, n, l) => {
                for x in b {
                    *s = s.wrapping_add(u64::from(*x));
                }
                *n += b.len() as u64;
                if let Some(x) = b.last() {
                    *l = *x;
                }
            }
        }
    }
    fn finish(&self) -> u64 {
        let h = match &self.inner {
            Inner::Fold(h) => h.finish(),
            Inner::Sip(h) => h.finish(),
            Inner::Sum(s, n, l) => match self.spec {
                HSpec::Sum => *s,
                HSpec::Count => *n,
                _ => u64::from(*l),
            },
        };
        match self.spec {
            HSpec::Const(c) => c,
            HSpec::Mod(m) => h % m.max(1),
            HSpec::Low(n) => h & ((1u64 << (n % 64)) - 1),
            HSpec::Shl(n) => h << (n % 64),
            HSpec::Bits(a, n) => (h & ((1u64 << (n % 64)) - 1)) << (a % 64),
            _ => h,
        }
    }
}
/// Type selector for scalar keys.
pub const SCALAR_TYPES: u8 = 21;
#[macro_export]
macro_rules! with_scalar {
    ($sel:expr, $f:ident ( $($a:expr),* )) => {{
        use std::num::*;
        match $sel % $crate::keys::SCALAR_TYPES {
            0 => $f::<i8>($($a),*), 1 => $f::<i16>($($a),*), 2 => $f::<i32>($($a),*), 3 => $f::<i64>($($a),*), 4 => $f::<isize>($($a),*),
            5 => $f::<u8>($($a),*), 6 => $f::<u16>($($a),*), 7 => $f::<u32>($($a),*), 8 => $f::<u64>($($a),*), 9 => $f::<usize>($($a),*),
            10 => $f::<NonZeroI8>($($a),*), 11 => $f::<NonZeroI16>($($a),*), 12 => $f::<NonZeroI32>($($a),*), 13 => $f::<NonZeroI64>($($a),*), 14 => $f::<NonZeroIsize>($($a),*),
            15 => $f::<NonZeroU8>($($a),*), 16 => $f::<NonZeroU16>($($a),*), 17 => $f::<NonZeroU32>($($a),*), 18 => $f::<NonZeroU64>($($a),*), 19 => $f::<NonZeroUsize>($($a),*),
            _ => $f::<$crate::facade::E>($($a),*),
        }
    }};
}
/// A selection of the scalar types, for code that treats all of them alike and is expensive to compile for each.
#[macro_export]
macro_rules! with_some_scalar {
    ($sel:expr, $f:ident ( $($a:expr),* )) => {{
        use std::num::*;
        match $sel % 9 {
            0 => $f::<i8>($($a),*), 1 => $f::<i32>($($a),*), 2 => $f::<i64>($($a),*),
            3 => $f::<u8>($($a),*), 4 => $f::<u16>($($a),*), 5 => $f::<u64>($($a),*),
            6 => $f::<NonZeroI16>($($a),*), 7 => $f::<NonZeroU64>($($a),*),
            _ => $f::<$crate::facade::E>($($a),*),
        }
    }};
}
pub fn good_hasher() -> impl Strategy<Value = HSpec> + Clone {
    prop_oneof![4 => any::<u64>().prop_map(HSpec::Fold), 1 => any::<u64>().prop_map(HSpec::Sip)]
}
pub fn any_hasher() -> impl Strategy<Value = HSpec> + Clone {
    prop_oneof![
        2 => good_hasher(),
        2 => prop_oneof![Just(0u64), Just(u64::MAX), Just(1), any::<u64>()].prop_map(HSpec::Const),
        3 => (1u64..40).prop_map(HSpec::Mod),
        2 => (0u8..12).prop_map(HSpec::Low),
        2 => (1u8..64).prop_map(HSpec::Shl),
        3 => (0u8..64, 1u8..10).prop_map(|(a, n)| HSpec::Bits(a, n)),
        1 => Just(HSpec::Sum),
        1 => Just(HSpec::LastByte),
        1 => Just(HSpec::Count),
    ]
}
pub fn poor_hasher() -> impl Strategy<Value = HSpec> + Clone {
    any_hasher().prop_map(|h| if h.poor() { h } else { HSpec::Mod(3) })
}

// ------------------------------------------------------------------ sizes

pub const BOUNDARY: &[usize] = &[
    1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 23, 24, 25, 31, 32, 33, 47, 48, 49, 62, 63, 64, 65, 66, 95, 96, 97, 126, 127, 128, 129, 130, 191, 192, 193,
    254, 255, 256, 257, 258, 383, 384, 385, 510, 511, 512, 513, 767, 768, 769, 999, 1000, 1001, 1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 4095, 4096, 4097,
];
pub fn size(max: usize) -> BoxedStrategy<usize> {
    let b: Vec<usize> = BOUNDARY.iter().copied().filter(|x| *x <= max).collect();
    let mid = max.min(300);
    prop_oneof![
        8 => 0usize..=12usize.min(max),
        6 => (0..b.len()).prop_map(move |i| b[i]),
        5 => 0usize..=mid,
        1 => mid..=max,
    ]
    .boxed()
}

// ------------------------------------------------------------------ integer keys

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Part {
    Run { start: i64, step: i64, len: usize },
    Window { base: i64, width: u64, picks: Vec<u64> },
    Wild(Vec<i64>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct IntKeys {
    pub parts: Vec<Part>,
    pub dups: Vec<(u16, u16)>,
    pub order: u8,
}
pub fn reorder<T: Ord>(v: &mut Vec<T>, order: u8) {
    match order {
        0 => {}
        1 => v.reverse(),
        2 => v.sort(),
        3 => {
            v.sort();
            v.reverse();
        }
        s => {
            let mut x = u64::from(s).wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
            for i in (1..v.len()).rev() {
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                v.swap(i, (x % (i as u64 + 1)) as usize);
            }
        }
    }
}
pub fn add_dups<T: Clone>(v: &mut Vec<T>, dups: &[(u16, u16)]) {
    if v.is_empty() {
        return;
    }
    for (a, b) in dups {
        let x = v[*a as usize % v.len()].clone();
        let at = *b as usize % (v.len() + 1);
        v.insert(at, x);
    }
}
impl IntKeys {
    pub fn expand(&self) -> Vec<i64> {
        let mut v = vec![];
        for p in &self.parts {
            match p {
                Part::Run { start, step, len } => v.extend((0..*len as i64).map(|i| start.wrapping_add(step.wrapping_mul(i)))),
                Part::Window { base, width, picks } => v.extend(picks.iter().map(|p| base.wrapping_add((p % (*width).max(1)) as i64))),
                Part::Wild(w) => v.extend(w),
            }
        }
        reorder(&mut v, self.order);
        add_dups(&mut v, &self.dups);
        v
    }
}
pub fn edge() -> impl Strategy<Value = i64> + Clone {
    prop_oneof![
        4 => -20i64..20,
        4 => (proptest::sample::select(vec![0i64, 127, -128, 255, 256, 32767, -32768, 65535, 65536, i32::MAX as i64, i32::MIN as i64, u32::MAX as i64, i64::MAX, i64::MIN, 1 << 40]), -6i64..6).prop_map(|(a, b)| a.wrapping_add(b)),
        2 => -2000i64..2000,
        1 => any::<i64>(),
    ]
}
fn part(max: usize) -> BoxedStrategy<Part> {
    prop_oneof![
        4 => (edge(), prop_oneof![4 => Just(1i64), 2 => 2i64..12, 1 => Just(-1i64), 1 => proptest::sample::select(vec![16i64, 64, 100, 128, 256, 1000, 4096, 65536, 1 << 32, 1 << 58])], size(max)).prop_map(|(start, step, len)| Part::Run { start, step, len }),
        4 => (edge(), prop_oneof![3 => 1u64..=3, 4 => 1u64..=14, 1 => 14u64..2000], size(max), -2i64..3).prop_flat_map(|(base, f, n, adj)| {
            let width = ((n as u64 * f) as i64 + adj).max(1) as u64;
            vec(0..width, n).prop_map(move |mut picks| { if picks.len() >= 2 { picks[0] = 0; picks[1] = width - 1; } Part::Window { base, width, picks } })
        }),
        2 => size(max.min(600)).prop_flat_map(|n| vec(prop_oneof![edge(), any::<i64>()], n)).prop_map(Part::Wild),
    ]
    .boxed()
}
pub fn int_keys(max: usize) -> BoxedStrategy<IntKeys> {
    let parts = prop_oneof![6 => part(max).prop_map(|p| vec![p]), 2 => (part(max), part(20)).prop_map(|(a, b)| vec![a, b]), 1 => vec(part(12), 0..4)];
    (parts, prop_oneof![3 => Just(vec![]), 2 => vec(any::<(u16, u16)>(), 1..8), 1 => vec(any::<(u16, u16)>(), 8..60)], prop_oneof![Just(0u8), 0u8..6, any::<u8>()])
        .prop_map(|(parts, dups, order)| IntKeys { parts, dups, order })
        .boxed()
}
/// Probe keys beyond the stored ones.
pub fn int_probes(keys: &[i64], extra: &[i64]) -> Vec<i64> {
    let mut p: Vec<i64> = vec![];
    let n = keys.len();
    let stride = (n / 48).max(1);
    for k in keys.iter().step_by(stride) {
        for d in [-2i64, -1, 1, 2] {
            p.push(k.wrapping_add(d));
        }
    }
    if let (Some(a), Some(b)) = (keys.iter().min(), keys.iter().max()) {
        for x in [a, b] {
            for d in [-65536i64, -256, -9, -8, -1, 1, 8, 9, 256, 65536, 1 << 32] {
                p.push(x.wrapping_add(d));
            }
        }
        // gaps
        let mut s: Vec<i64> = keys.to_vec();
        s.sort_unstable();
        for w in s.windows(2).step_by(stride) {
            p.push(w[0].wrapping_add(w[1].wrapping_sub(w[0]) / 2));
        }
    }
    p.extend([0, 1, -1, i64::MIN, i64::MAX, i64::MIN + 1, i64::MAX - 1, 255, 256, 65535, 65536, u32::MAX as i64]);
    p.extend(extra);
    p
}

/// Conversion of generated numbers into each scalar type.
pub trait FromI64 {
    fn from_i64(x: i64) -> Self;
}
macro_rules! from_i64 {
    ($($t:ty),*) => {$(impl FromI64 for $t { fn from_i64(x: i64) -> Self { x as $t } })*};
}
from_i64!(i8, i16, i32, i64, isize, u8, u16, u32, u64, usize);
macro_rules! from_i64_nz {
    ($($t:ty : $p:ty),*) => {$(impl FromI64 for $t { fn from_i64(x: i64) -> Self { <$t>::new(x as $p).unwrap_or(<$t>::new(1).unwrap()) } })*};
}
use std::num::*;
from_i64_nz!(NonZeroI8: i8, NonZeroI16: i16, NonZeroI32: i32, NonZeroI64: i64, NonZeroIsize: isize, NonZeroU8: u8, NonZeroU16: u16, NonZeroU32: u32, NonZeroU64: u64, NonZeroUsize: usize);

impl FromI64 for crate::facade::E {
    fn from_i64(x: i64) -> Self {
        crate::facade::ALL_E[x.rem_euclid(21) as usize]
    }
}

// ------------------------------------------------------------------ string keys

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum SPart {
    Words(Vec<String>),
    Affix { prefix: String, suffix: String, mids: Vec<String> },
    Numbered { prefix: String, suffix: String, start: u32, step: u32, len: usize, pad: u8 },
    Lens { ch: char, lens: Vec<u16> },
    /// strings equal but for one character at `pos`
    OneDiff { base: String, pos: u16, chars: Vec<char> },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct StrKeys {
    pub parts: Vec<SPart>,
    pub dups: Vec<(u16, u16)>,
    pub order: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SProbe {
    pub key: u16,
    pub op: u8,
    pub pos: u16,
    pub ch: char,
    pub s: String,
}
pub fn set_char(s: &str, pos: usize, c: char) -> String {
    let mut v: Vec<char> = s.chars().collect();
    if v.is_empty() {
        return c.to_string();
    }
    let n = v.len();
    v[pos % n] = c;
    v.into_iter().collect()
}
impl StrKeys {
    pub fn expand(&self) -> Vec<Box<str>> {
        let mut v: Vec<String> = vec![];
        for p in &self.parts {
            match p {
                SPart::Words(w) => v.extend(w.iter().cloned()),
                SPart::Affix { prefix, suffix, mids } => v.extend(mids.iter().map(|m| format!("{prefix}{m}{suffix}"))),
                SPart::Numbered { prefix, suffix, start, step, len, pad } => {
                    v.extend((0..*len as u32).map(|i| format!("{prefix}{:0w$}{suffix}", start.wrapping_add(i.wrapping_mul(*step)), w = *pad as usize)))
                }
                SPart::Lens { ch, lens } => v.extend(lens.iter().map(|l| ch.to_string().repeat(*l as usize))),
                SPart::OneDiff { base, pos, chars } => v.extend(chars.iter().map(|c| set_char(base, *pos as usize, *c))),
            }
        }
        reorder(&mut v, self.order);
        add_dups(&mut v, &self.dups);
        v.into_iter().map(String::into_boxed_str).collect()
    }
}
pub fn ch() -> impl Strategy<Value = char> + Clone {
    prop_oneof![
        8 => prop_oneof![Just('a'), Just('b'), Just('c')],
        3 => proptest::char::range(' ', '~'),
        1 => prop_oneof![Just('\0'), Just('\u{7f}'), Just('é'), Just('ß'), Just('\u{800}'), Just('日'), Just('😀'), Just('\u{10FFFF}'), Just('\n'), Just('"'), Just('\\')],
        1 => any::<char>(),
    ]
}
pub fn text(max: usize) -> impl Strategy<Value = String> + Clone {
    vec(ch(), 0..=max).prop_map(|v| v.into_iter().collect())
}
pub fn abc(max: usize) -> impl Strategy<Value = String> + Clone {
    vec(prop_oneof![Just('a'), Just('b'), Just('c')], 0..=max).prop_map(|v| v.into_iter().collect::<String>())
}
fn spart(max: usize) -> BoxedStrategy<SPart> {
    let m = max;
    prop_oneof![
        3 => size(m.min(400)).prop_flat_map(|n| vec(prop_oneof![abc(4), abc(8), text(6)], n)).prop_map(SPart::Words),
        1 => size(m.min(60)).prop_flat_map(|n| vec(text(80), n)).prop_map(SPart::Words),
        4 => (prop_oneof![text(3), text(12), text(300)], prop_oneof![text(3), text(12), text(300)], size(m.min(200)).prop_flat_map(|n| vec(prop_oneof![abc(3), abc(6), text(5)], n))).prop_map(|(prefix, suffix, mids)| SPart::Affix { prefix, suffix, mids }),
        4 => (prop_oneof![Just(String::new()), abc(6), text(20)], prop_oneof![Just(String::new()), abc(6), text(20)], prop_oneof![Just(0u32), 0u32..1000, any::<u32>()], prop_oneof![3 => Just(1u32), 1 => 1u32..200], size(m), 0u8..8)
            .prop_map(|(prefix, suffix, start, step, len, pad)| SPart::Numbered { prefix, suffix, start, step, len, pad }),
        1 => (ch(), vec(prop_oneof![0u16..20, 0u16..300], 0..40)).prop_map(|(ch, lens)| SPart::Lens { ch, lens }),
        2 => (text(24), any::<u16>(), vec(ch(), 0..30)).prop_map(|(base, pos, chars)| SPart::OneDiff { base, pos, chars }),
    ]
    .boxed()
}
pub fn str_keys(max: usize) -> BoxedStrategy<StrKeys> {
    let parts = prop_oneof![6 => spart(max).prop_map(|p| vec![p]), 2 => (spart(max.min(300)), spart(12)).prop_map(|(a, b)| vec![a, b]), 1 => vec(spart(8), 0..4)];
    (parts, prop_oneof![3 => Just(vec![]), 2 => vec(any::<(u16, u16)>(), 1..8)], prop_oneof![Just(0u8), 0u8..6, any::<u8>()])
        .prop_map(|(parts, dups, order)| StrKeys { parts, dups, order })
        .boxed()
}
pub fn sprobes() -> impl Strategy<Value = Vec<SProbe>> + Clone {
    vec((any::<u16>(), 0u8..12, any::<u16>(), ch(), abc(4)).prop_map(|(key, op, pos, ch, s)| SProbe { key, op, pos, ch, s }), 0..40)
}
fn cut(s: &str, at: usize) -> usize {
    let mut p = at.min(s.len());
    while !s.is_char_boundary(p) {
        p -= 1;
    }
    p
}
pub fn str_probes(keys: &[Box<str>], ps: &[SProbe]) -> Vec<Box<str>> {
    let mut out: Vec<String> = vec![String::new(), "a".into(), "\0".into(), "日".into(), "zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz".into()];
    let stride = (keys.len() / 24).max(1);
    for k in keys.iter().step_by(stride) {
        let k: &str = k;
        let n = k.len();
        for p in [0, 1, 2, n / 2, n.saturating_sub(1)] {
            let c = cut(k, p);
            out.push(k[..c].into());
            out.push(k[c..].into());
        }
        out.push(format!("{k}a"));
        out.push(format!("a{k}"));
        out.push(format!("{k}{k}"));
        out.push(set_char(k, 0, 'X'));
        out.push(set_char(k, n.saturating_sub(1), 'X'));
        out.push(set_char(k, n / 2, 'X'));
        out.push(k.chars().rev().collect());
        out.push("X".repeat(n));
    }
    for p in ps {
        if keys.is_empty() {
            out.push(p.s.clone());
            continue;
        }
        let k: &str = &keys[p.key as usize % keys.len()];
        let pos = p.pos as usize;
        let c = cut(k, if k.is_empty() { 0 } else { pos % (k.len() + 1) });
        out.push(match p.op {
            0 => k[..c].into(),
            1 => k[c..].into(),
            2 => set_char(k, pos, p.ch),
            3 => format!("{}{}{}", &k[..c], p.ch, &k[c..]),
            4 => format!("{}{}{}", &k[..c], p.s, &k[c..]),
            5 => {
                // another key's head with this key's tail
                let o: &str = &keys[pos % keys.len()];
                let c2 = cut(o, c);
                format!("{}{}", &o[..c2], &k[c..])
            }
            6 => format!("{}{}", &k[..c], "X".repeat(k.len() - c)),
            7 => format!("{}{}", "X".repeat(c), &k[c..]),
            8 => {
                let mut v: Vec<char> = k.chars().collect();
                if v.len() >= 2 {
                    let i = pos % (v.len() - 1);
                    v.swap(i, i + 1);
                }
                v.into_iter().collect()
            }
            9 => {
                let mut v: Vec<char> = k.chars().collect();
                if !v.is_empty() {
                    v.remove(pos % v.len());
                }
                v.into_iter().collect()
            }
            10 => p.s.clone(),
            _ => k.to_uppercase(),
        });
    }
    out.into_iter().map(String::into_boxed_str).collect()
}
