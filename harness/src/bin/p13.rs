//! Deserializing arbitrary input: same verdict and contents as the standard collection, bounded memory, no panic.
use frozen_collections::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::de::{DeserializeOwned, DeserializeSeed, IntoDeserializer, MapAccess, SeqAccess, Visitor};
use serde::{Deserialize, Serialize, forward_to_deserialize_any};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Debug;
use vh::ensure;
use vh::keys::*;
use vh::runner::*;

// ------------------------------------------------------------------ allocation monitor
struct Mon;
thread_local! {
    static CUR: Cell<usize> = const { Cell::new(0) };
    static PEAK: Cell<usize> = const { Cell::new(0) };
}
fn grow(n: usize) {
    let _ = CUR.try_with(|c| {
        c.set(c.get().saturating_add(n));
        let _ = PEAK.try_with(|p| p.set(p.get().max(c.get())));
    });
}
unsafe impl GlobalAlloc for Mon {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > 8 << 30 {
            return std::ptr::null_mut();
        }
        grow(l.size());
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = CUR.try_with(|c| c.set(c.get().saturating_sub(l.size())));
        unsafe { System.dealloc(p, l) }
    }
}
#[global_allocator]
static MON: Mon = Mon;
/// Peak allocation of `f` above what was allocated before.
fn peak<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let before = CUR.with(Cell::get);
    PEAK.with(|p| p.set(before));
    let r = f();
    (r, PEAK.with(Cell::get).saturating_sub(before))
}

// ------------------------------------------------------------------ documents
#[derive(Clone, Debug, Serialize, Deserialize)]
enum T {
    Int(i64),
    Big(u64),
    Str(String),
    Null,
    Bool(bool),
    Float(i32),
    List(Vec<T>),
    Obj(Vec<(String, T)>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Mut {
    Trunc(u16),
    Flip(u16, u8),
    Set(u16, u8),
    Insert(u16, Vec<u8>),
    Dup(u16, u16, u16),
    Del(u16, u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ty: u8,
    fmt: u8,
    entries: Vec<(T, T)>,
    /// added to the length the document claims
    lie: i64,
    indefinite: bool,
    as_map: bool,
    muts: Vec<Mut>,
    err_at: Option<u8>,
}
fn json(t: &T, o: &mut String) {
    match t {
        T::Int(i) => *o += &i.to_string(),
        T::Big(i) => *o += &i.to_string(),
        T::Str(s) => *o += &serde_json::to_string(s).unwrap(),
        T::Null => *o += "null",
        T::Bool(b) => *o += &b.to_string(),
        T::Float(f) => *o += &format!("{:?}", f64::from(*f) / 4.0),
        T::List(l) => {
            o.push('[');
            for (i, t) in l.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                json(t, o);
            }
            o.push(']');
        }
        T::Obj(l) => {
            o.push('{');
            for (i, (k, t)) in l.iter().enumerate() {
                if i > 0 {
                    o.push_str(", ");
                }
                *o += &serde_json::to_string(k).unwrap();
                o.push(':');
                json(t, o);
            }
            o.push('}');
        }
    }
}
fn head(o: &mut Vec<u8>, major: u8, n: u64) {
    let m = major << 5;
    match n {
        0..=23 => o.push(m | n as u8),
        24..=255 => o.extend([m | 24, n as u8]),
        256..=65535 => {
            o.push(m | 25);
            o.extend((n as u16).to_be_bytes());
        }
        65536..=0xffff_ffff => {
            o.push(m | 26);
            o.extend((n as u32).to_be_bytes());
        }
        _ => {
            o.push(m | 27);
            o.extend(n.to_be_bytes());
        }
    }
}
fn cbor(t: &T, o: &mut Vec<u8>) {
    match t {
        T::Int(i) if *i >= 0 => head(o, 0, *i as u64),
        T::Int(i) => head(o, 1, !*i as u64),
        T::Big(n) => head(o, 0, *n),
        T::Str(s) => {
            head(o, 3, s.len() as u64);
            o.extend(s.as_bytes());
        }
        T::Null => o.push(0xf6),
        T::Bool(b) => o.push(0xf4 + u8::from(*b)),
        T::Float(f) => {
            o.push(0xfb);
            o.extend((f64::from(*f) / 4.0).to_be_bytes());
        }
        T::List(l) => {
            head(o, 4, l.len() as u64);
            l.iter().for_each(|t| cbor(t, o));
        }
        T::Obj(l) => {
            head(o, 5, l.len() as u64);
            for (k, t) in l {
                cbor(&T::Str(k.clone()), o);
                cbor(t, o);
            }
        }
    }
}
/// width: bytes of an integer of the target type, 0 for strings
fn binc(t: &T, width: usize, o: &mut Vec<u8>) {
    match t {
        T::Int(i) => o.extend(&i.to_le_bytes()[..if width == 0 { 8 } else { width }]),
        T::Big(i) => o.extend(&i.to_le_bytes()[..if width == 0 { 8 } else { width }]),
        T::Str(s) => {
            o.extend((s.len() as u64).to_le_bytes());
            o.extend(s.as_bytes());
        }
        T::Null => o.push(0),
        T::Bool(b) => o.push(u8::from(*b)),
        T::Float(f) => o.extend((f64::from(*f) / 4.0).to_le_bytes()),
        T::List(l) => {
            o.extend((l.len() as u64).to_le_bytes());
            l.iter().for_each(|t| binc(t, 2, o));
        }
        T::Obj(l) => {
            o.extend((l.len() as u64).to_le_bytes());
            for (k, t) in l {
                binc(&T::Str(k.clone()), 0, o);
                binc(t, 8, o);
            }
        }
    }
}
impl Case {
    fn claimed(&self) -> u64 {
        (self.entries.len() as i64).wrapping_add(self.lie) as u64
    }
    fn bytes(&self, kw: usize, vw: usize) -> Vec<u8> {
        let mut o = vec![];
        match self.fmt % 4 {
            0 => {
                let mut s = String::new();
                s.push(if self.as_map { '{' } else { '[' });
                for (i, (k, v)) in self.entries.iter().enumerate() {
                    if i > 0 {
                        s.push_str(if self.indefinite { " ,\n" } else { "," });
                    }
                    if self.as_map {
                        // JSON keys are strings; integers are written as strings
                        match k {
                            T::Int(n) => s += &format!("\"{n}\""),
                            k => json(k, &mut s),
                        }
                        s.push(':');
                        json(v, &mut s);
                    } else {
                        json(k, &mut s);
                    }
                }
                s.push(if self.as_map { '}' } else { ']' });
                o = s.into_bytes();
            }
            1 => {
                o.extend(self.claimed().to_le_bytes());
                for (k, v) in &self.entries {
                    binc(k, kw, &mut o);
                    if self.as_map {
                        binc(v, vw, &mut o);
                    }
                }
            }
            _ => {
                if self.indefinite {
                    o.push(if self.as_map { 0xbf } else { 0x9f });
                } else {
                    head(&mut o, if self.as_map { 5 } else { 4 }, self.claimed());
                }
                for (k, v) in &self.entries {
                    cbor(k, &mut o);
                    if self.as_map {
                        cbor(v, &mut o);
                    }
                }
                if self.indefinite {
                    o.push(0xff);
                }
            }
        }
        for m in &self.muts {
            let n = o.len();
            let at = |p: u16| if n == 0 { 0 } else { p as usize % n };
            match m {
                Mut::Trunc(p) => o.truncate(at(*p)),
                Mut::Flip(p, b) if n > 0 => o[at(*p)] ^= 1 << (b % 8),
                Mut::Set(p, b) if n > 0 => o[at(*p)] = *b,
                Mut::Insert(p, b) => {
                    let a = at(*p);
                    o.splice(a..a, b.iter().copied());
                }
                Mut::Dup(a, l, to) if n > 0 => {
                    let a = at(*a);
                    let e = (a + *l as usize % 40).min(n);
                    let seg = o[a..e].to_vec();
                    let t = at(*to);
                    o.splice(t..t, seg);
                }
                Mut::Del(a, l) if n > 0 => {
                    let a = at(*a);
                    let e = (a + *l as usize % 12).min(n);
                    o.drain(a..e);
                }
                _ => {}
            }
        }
        o
    }
}

// ------------------------------------------------------------------ an in-memory source with false hints and errors
struct Src<'a>(&'a Case);
struct Acc<'a> {
    c: &'a Case,
    i: usize,
    hint: Option<usize>,
}
#[derive(Debug)]
struct Er(#[allow(dead_code)] String);
impl std::fmt::Display for Er {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Er {}
impl serde::de::Error for Er {
    fn custom<M: std::fmt::Display>(m: M) -> Self {
        Er(m.to_string())
    }
}
struct Tk<'a>(&'a T, usize);
impl<'de> serde::Deserializer<'de> for Tk<'_> {
    type Error = Er;
    fn deserialize_any<X: Visitor<'de>>(self, v: X) -> Result<X::Value, Er> {
        match self.0 {
            T::Int(i) => v.visit_i64(*i),
            T::Big(u) => v.visit_u64(*u),
            T::Str(s) => match self.1 % 3 {
                0 => v.visit_str(s),
                1 => v.visit_string(s.clone()),
                _ => v.visit_bytes(s.as_bytes()),
            },
            T::Null => v.visit_unit(),
            T::Bool(b) => v.visit_bool(*b),
            T::Float(f) => v.visit_f64(f64::from(*f) / 4.0),
            T::List(l) => v.visit_seq(serde::de::value::SeqDeserializer::new(l.iter().map(|t| Re(t.clone())))),
            T::Obj(l) => v.visit_map(serde::de::value::MapDeserializer::new(l.iter().map(|(k, t)| (k.clone(), Re(t.clone()))))),
        }
    }
    fn deserialize_option<X: Visitor<'de>>(self, v: X) -> Result<X::Value, Er> {
        if matches!(self.0, T::Null) { v.visit_none() } else { v.visit_some(self) }
    }
    forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
struct Re(T);
impl<'de> serde::Deserializer<'de> for Re {
    type Error = Er;
    fn deserialize_any<X: Visitor<'de>>(self, v: X) -> Result<X::Value, Er> {
        Tk(&self.0, 0).deserialize_any(v)
    }
    fn deserialize_option<X: Visitor<'de>>(self, v: X) -> Result<X::Value, Er> {
        Tk(&self.0, 0).deserialize_option(v)
    }
    forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
impl IntoDeserializer<'_, Er> for Re {
    type Deserializer = Re;
    fn into_deserializer(self) -> Re {
        self
    }
}
impl Acc<'_> {
    fn step(&self) -> Result<Option<&(T, T)>, Er> {
        if self.c.err_at.is_some_and(|e| e as usize == self.i) {
            return Err(Er("injected".into()));
        }
        Ok(self.c.entries.get(self.i))
    }
}
impl<'de> MapAccess<'de> for Acc<'_> {
    type Error = Er;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, s: K) -> Result<Option<K::Value>, Er> {
        let i = self.i;
        self.step()?.map(|(k, _)| s.deserialize(Tk(k, i))).transpose()
    }
    fn next_value_seed<K: DeserializeSeed<'de>>(&mut self, s: K) -> Result<K::Value, Er> {
        let i = self.i;
        self.i += 1;
        s.deserialize(Tk(&self.c.entries[i].1, i))
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint
    }
}
impl<'de> SeqAccess<'de> for Acc<'_> {
    type Error = Er;
    fn next_element_seed<K: DeserializeSeed<'de>>(&mut self, s: K) -> Result<Option<K::Value>, Er> {
        let i = self.i;
        let r = self.step()?.map(|(k, _)| s.deserialize(Tk(k, i))).transpose();
        self.i += 1;
        r
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint
    }
}
impl<'de> serde::Deserializer<'de> for Src<'_> {
    type Error = Er;
    fn deserialize_any<X: Visitor<'de>>(self, v: X) -> Result<X::Value, Er> {
        let hint = if self.0.indefinite { None } else { Some(self.0.claimed() as usize) };
        let a = Acc { c: self.0, i: 0, hint };
        match self.0.err_at {
            Some(200) => v.visit_unit(),
            Some(201) => v.visit_str("x"),
            Some(202) => v.visit_none(),
            _ if self.0.as_map => v.visit_map(a),
            _ => v.visit_seq(a),
        }
    }
    forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}

// ------------------------------------------------------------------ the differential oracle
fn drip(b: &[u8]) -> impl std::io::Read + '_ {
    struct D<'a>(&'a [u8]);
    impl std::io::Read for D<'_> {
        fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
            let n = 3.min(b.len()).min(self.0.len());
            b[..n].copy_from_slice(&self.0[..n]);
            self.0 = &self.0[n..];
            Ok(n)
        }
    }
    D(b)
}
fn read<X: DeserializeOwned>(c: &Case, how: u8, b: &[u8]) -> Result<X, String> {
    let s = |e: &dyn std::fmt::Display| e.to_string();
    match (c.fmt % 4, how) {
        (0, 0) => serde_json::from_slice(b).map_err(|e| s(&e)),
        (0, _) => serde_json::from_reader(drip(b)).map_err(|e| s(&e)),
        (1, 0) => bincode::deserialize(b).map_err(|e| s(&e)),
        // bincode's stream reader allocates whatever length a string claims, unless limited
        (1, _) => bincode::Options::deserialize_from(bincode::Options::with_limit(bincode::Options::allow_trailing_bytes(bincode::Options::with_fixint_encoding(bincode::DefaultOptions::new())), 1 << 16), drip(b)).map_err(|e| s(&e)),
        (2, _) => ciborium::from_reader(drip(b)).map_err(|e| s(&e)),
        _ => X::deserialize(Src(c)).map_err(|e| s(&e)),
    }
}
fn compare<F: DeserializeOwned, S: DeserializeOwned, M: PartialEq + Debug>(name: &str, c: &Case, kw: usize, vw: usize, cf: fn(&F) -> (usize, M), cs: fn(&S) -> (usize, M), o: &mut Obs) -> Res {
    let b = c.bytes(kw, vw);
    for how in 0..2 {
        let (std, std_used) = peak(|| guarded(|| read::<S>(c, how, &b)));
        let Ok(std) = std else {
            o.label("format itself panics");
            continue;
        };
        let (fz, used) = peak(|| guarded(|| read::<F>(c, how, &b)));
        let fz = fz.map_err(|p| format!("{name}: {p}; input {:?}", String::from_utf8_lossy(&b)))?;
        let bound = (8 << 20) + 2000 * (b.len() + c.entries.len()) + 2 * std_used;
        ensure!(used <= bound, "{name}: reading {} bytes allocated {used} bytes", b.len());
        match (fz, std) {
            (Ok(f), Ok(s)) => {
                let (f, s) = (cf(&f), cs(&s));
                ensure!(f == s, "{name}: contents {f:?}, the standard collection has {s:?}");
                o.label("accepted");
                o.label_if(s.0 < c.entries.len(), "accepted with duplicates");
            }
            (Err(_), Err(_)) => o.label("rejected"),
            (Ok(f), Err(e)) => return Err(format!("{name}: accepts {:?} that the standard collection rejects ({e}): {:?}", String::from_utf8_lossy(&b), cf(&f))),
            (Err(e), Ok(s)) => return Err(format!("{name}: rejects {:?} that the standard collection accepts: {e}; {:?}", String::from_utf8_lossy(&b), cs(&s))),
        }
    }
    Ok(())
}
macro_rules! m {
    ($fz:ty, $k:ty, $v:ty, $kw:expr, $vw:expr, $c:expr, $o:expr) => {
        compare::<$fz, HashMap<$k, $v>, BTreeMap<$k, $v>>(stringify!($fz), $c, $kw, $vw, |f| (f.len(), f.iter().map(|(k, v)| (k.clone(), v.clone())).collect()), |s| (s.len(), s.iter().map(|(k, v)| (k.clone(), v.clone())).collect()), $o)
    };
}
macro_rules! st {
    ($fz:ty, $k:ty, $kw:expr, $c:expr, $o:expr) => {
        compare::<$fz, HashSet<$k>, BTreeSet<$k>>(stringify!($fz), $c, $kw, 0, |f| (f.len(), f.iter().cloned().collect()), |s| (s.len(), s.iter().cloned().collect()), $o)
    };
}
type Str = Box<str>;
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Rec {
    a: u8,
    b: Option<String>,
}
const TYPES: u8 = 18;
fn run(c: &Case, o: &mut Obs) -> Res {
    o.nontrivial_if(!c.muts.is_empty() || c.lie != 0 || c.err_at.is_some() || c.entries.len() >= 2);
    o.label(["json", "bincode", "cbor", "in-memory"][c.fmt as usize % 4]);
    o.label_if(c.lie != 0, "false length");
    match c.ty % TYPES {
        0 => m!(FzHashMap<i32, u64>, i32, u64, 4, 8, c, o),
        1 => m!(FzHashMap<String, u64>, String, u64, 0, 8, c, o),
        2 => m!(FzHashMap<u64, Vec<i16>>, u64, Vec<i16>, 8, 2, c, o),
        3 => m!(FzOrderedMap<i16, Option<String>>, i16, Option<String>, 2, 0, c, o),
        4 => m!(FzOrderedMap<String, u64>, String, u64, 0, 8, c, o),
        5 => m!(FzOrderedMap<u64, Rec>, u64, Rec, 8, 8, c, o),
        6 => m!(FzScalarMap<u8, u64>, u8, u64, 1, 8, c, o),
        7 => m!(FzScalarMap<i64, String>, i64, String, 8, 0, c, o),
        8 => m!(FzScalarMap<std::num::NonZeroI32, u8>, std::num::NonZeroI32, u8, 4, 1, c, o),
        9 => m!(FzStringMap<Str, u64>, Str, u64, 0, 8, c, o),
        10 => m!(FzStringMap<Str, Option<String>>, Str, Option<String>, 0, 0, c, o),
        11 => st!(FzHashSet<i32>, i32, 4, c, o),
        12 => st!(FzHashSet<String>, String, 0, c, o),
        13 => st!(FzOrderedSet<u16>, u16, 2, c, o),
        14 => st!(FzOrderedSet<String>, String, 0, c, o),
        15 => st!(FzScalarSet<i8>, i8, 1, c, o),
        16 => st!(FzScalarSet<u64>, u64, 8, c, o),
        _ => st!(FzStringSet<Str>, Str, 0, c, o),
    }
}
/// (key is a string, value shape: 0 int 1 text/option 2 list 3 rec, map?)
fn shape(ty: u8) -> (bool, u8, bool) {
    match ty % TYPES {
        0 | 6 | 8 => (false, 0, true),
        1 | 4 | 9 => (true, 0, true),
        2 => (false, 2, true),
        3 | 7 => (false, 1, true),
        5 => (false, 3, true),
        10 => (true, 1, true),
        11 | 13 | 15 | 16 => (false, 0, false),
        _ => (true, 0, false),
    }
}
fn wrong() -> impl Strategy<Value = T> {
    prop_oneof![
        Just(T::Null),
        any::<bool>().prop_map(T::Bool),
        (-9i32..9).prop_map(T::Float),
        vec((-9i64..9).prop_map(T::Int), 0..3).prop_map(T::List),
        vec((abc(2), (-9i64..9).prop_map(T::Int)), 0..3).prop_map(T::Obj),
        text(4).prop_map(T::Str),
        (-300i64..300).prop_map(T::Int),
        any::<u64>().prop_map(T::Big),
    ]
}
fn key(string: bool, noise: u32) -> BoxedStrategy<T> {
    let good = if string { prop_oneof![abc(2), text(5)].prop_map(T::Str).boxed() } else { prop_oneof![6 => 0i64..12, 2 => -3i64..130, 1 => edge()].prop_map(T::Int).boxed() };
    prop_oneof![100 => good, noise => wrong()].boxed()
}
fn value(shape: u8, noise: u32) -> BoxedStrategy<T> {
    let good = match shape {
        0 => (0i64..300).prop_map(T::Int).boxed(),
        1 => text(5).prop_map(T::Str).boxed(),
        2 => vec((-9i64..9).prop_map(T::Int), 0..4).prop_map(T::List).boxed(),
        _ => (0i64..260, text(3)).prop_map(|(a, b)| T::Obj(vec![("a".into(), T::Int(a)), ("b".into(), T::Str(b))])).boxed(),
    };
    prop_oneof![100 => good, noise => wrong()].boxed()
}
fn muts() -> impl Strategy<Value = Vec<Mut>> {
    let one = prop_oneof![
        any::<u16>().prop_map(Mut::Trunc),
        (any::<u16>(), 0u8..8).prop_map(|(a, b)| Mut::Flip(a, b)),
        (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Mut::Set(a, b)),
        (any::<u16>(), prop_oneof![vec(any::<u8>(), 1..10), Just(b"{".to_vec()), Just(b"[".to_vec()), Just(b",".to_vec()), Just(b"\"".to_vec()), Just(b"null".to_vec()), Just(b" ".to_vec())]).prop_map(|(a, b)| Mut::Insert(a, b)),
        any::<(u16, u16, u16)>().prop_map(|(a, b, c)| Mut::Dup(a, b, c)),
        (any::<u16>(), 1u8..12).prop_map(|(a, b)| Mut::Del(a, b)),
    ];
    prop_oneof![5 => Just(vec![]), 3 => one.clone().prop_map(|m| vec![m]), 2 => vec(one, 1..5)]
}
fn lie() -> impl Strategy<Value = i64> {
    prop_oneof![
        8 => Just(0i64),
        3 => -3i64..4,
        3 => proptest::sample::select(vec![100i64, 5000, 70_000, 1 << 21, 1 << 24, 1 << 27, 1 << 31, 1 << 33, 1 << 40, 1 << 52, 1 << 60, i64::MAX, i64::MIN, -1 - (1 << 40)]),
        1 => any::<i64>(),
    ]
}
fn case(max: usize) -> impl Strategy<Value = Case> {
    (0..TYPES, prop_oneof![Just(0u32), Just(2), Just(20)], 0u8..20).prop_flat_map(move |(ty, noise, swap)| {
        let (s, v, map) = shape(ty);
        let as_map = map != (swap == 0);
        (Just(ty), 0u8..4, vec((key(s, noise), value(v, noise)), 0..max), lie(), proptest::bool::weighted(0.2), muts(), prop_oneof![9 => Just(None), 1 => prop_oneof![0u8..10, 200u8..203].prop_map(Some)])
            .prop_map(move |(ty, fmt, entries, lie, indefinite, muts, err_at)| Case { ty, fmt, entries, lie, indefinite, as_map, muts, err_at })
    })
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Raw { ty: u8, fmt: u8, pre: Vec<u8>, bytes: Vec<u8> }
fn raw(r: &Raw, o: &mut Obs) -> Res {
    let mut b = r.pre.clone();
    b.extend(&r.bytes);
    let (_, _, map) = shape(r.ty);
    run(&Case { ty: r.ty, fmt: r.fmt, entries: vec![], lie: 0, indefinite: true, as_map: map, muts: vec![Mut::Insert(0, b), Mut::Trunc(0).clone()].into_iter().take(1).collect(), err_at: None }, o)
}
fn main() {
    vh::runner::main("P13", vec![
        sub("documents", 800_000, 3_000_000, || case(14), run, "documents of each format (JSON, bincode, CBOR, in-memory tokens) with right and wrong element types, duplicates, false claimed lengths up to 2^64, injected errors, then byte mutations, read into 18 frozen types and their standard counterparts; non-trivial: mutated, lying, faulty or at least 2 entries."),
        sub("longer", 40_000, 200_000, || case(300), run, "the same with up to 300 entries."),
        sub("bulk", 600, 6_000, || case(9000), run, "the same with up to 9,000 entries."),
        sub("bytes", 200_000, 1_000_000, || (0..TYPES, 0u8..3, proptest::sample::select(vec![vec![], b"{".to_vec(), b"[".to_vec(), vec![0xbf], vec![0x9f], vec![0xa3], vec![0x85], vec![2, 0, 0, 0, 0, 0, 0, 0]]), vec(prop_oneof![any::<u8>(), proptest::sample::select(b"{}[]\",:0123456789-eE.ntfau\\ ".to_vec())], 0..40)).prop_map(|(ty, fmt, pre, bytes)| Raw { ty, fmt, pre, bytes }), raw, "byte soup behind a plausible opening; every case counts."),
    ]);
}
