//! Generated macro invocations: key lists, spellings and declaration forms, with the model they must equal.
use crate::keys::*;
use crate::progs::ProgCase;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::fmt::Write;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Mk { Hash, Ordered, Scalar, Str }
impl Mk {
    pub fn name(self, map: bool) -> &'static str {
        match (self, map) {
            (Mk::Hash, true) => "fz_hash_map", (Mk::Hash, false) => "fz_hash_set",
            (Mk::Ordered, true) => "fz_ordered_map", (Mk::Ordered, false) => "fz_ordered_set",
            (Mk::Scalar, true) => "fz_scalar_map", (Mk::Scalar, false) => "fz_scalar_set",
            (Mk::Str, true) => "fz_string_map", (Mk::Str, false) => "fz_string_set",
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Form { Short, Static(u8), LocalStatic, Let, LetMut }
/// Key types: 0–9 the integer types, 10 &'static str, 11 a derived-scalar enum, 12 a tuple, 13 String, 14 char.
pub type Kt = u8;
pub const STR: Kt = 10;
pub const ENUM: Kt = 11;
pub const TUPLE: Kt = 12;
pub const OWNED: Kt = 13;
pub const CHAR: Kt = 14;
pub const INTS: [&str; 10] = ["i32", "u8", "i8", "u16", "i16", "u32", "i64", "u64", "isize", "usize"];
pub fn bounds(kt: Kt) -> (i128, i128) {
    match INTS[kt as usize] {
        "u8" => (0, 255), "i8" => (-128, 127), "u16" => (0, 65535), "i16" => (-32768, 32767),
        "u32" => (0, u32::MAX as i128), "i32" => (i32::MIN as i128, i32::MAX as i128),
        "u64" | "usize" => (0, u64::MAX as i128), _ => (i64::MIN as i128, i64::MAX as i128),
    }
}
pub fn ty_name(kt: Kt) -> &'static str {
    match kt { STR => "&'static str", ENUM => "crate::rt::E", TUPLE => "(u8, &'static str)", OWNED => "String", CHAR => "char", k => INTS[k as usize] }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Ent {
    /// integer keys (as decimal text), or the string
    pub k: String,
    /// how the literal is spelled
    pub spell: u8,
    /// 0 a plain literal, else the kind of key expression
    pub style: u8,
    pub v: u32,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Inv {
    pub mk: Mk,
    pub map: bool,
    pub form: Form,
    pub kt: Kt,
    /// 0 every literal has a suffix, 1 none has, 2 some have
    pub suffix: u8,
    pub ents: Vec<Ent>,
    pub trailing: bool,
    pub probes: Vec<String>,
    /// 0: invoked directly; else from inside a `macro_rules!` macro which was given the keys and values as
    /// 1 expressions, 2 literals where they are, 3 token trees, 4 a mixture of captured and written-out keys
    #[serde(default)]
    pub wrap: u8,
}
pub fn is_int(kt: Kt) -> bool {
    kt < 10
}
impl Inv {
    /// A key as an unambiguous Rust expression, for expectations and probes.
    pub fn plain(&self, k: &str) -> String {
        match self.kt {
            STR => format!("{k:?}"),
            OWNED => format!("String::from({k:?})"),
            ENUM => format!("crate::rt::E::V{}", k.parse::<i128>().unwrap().rem_euclid(20)),
            TUPLE => { let n = k.parse::<i128>().unwrap(); format!("({}u8, {:?})", n.rem_euclid(7), format!("t{}", n.div_euclid(7))) }
            CHAR => format!("{:?}", char::from_u32((k.parse::<i128>().unwrap().rem_euclid(0xD000)) as u32).unwrap()),
            t => format!("{k}{}", INTS[t as usize]),
        }
    }
    fn spell_int(&self, i: usize, e: &Ent) -> String {
        let n: i128 = e.k.parse().unwrap();
        let suffixed = match self.suffix { 0 => true, 1 => false, _ => i == 0 || e.spell & 0x10 != 0 };
        let t = INTS[self.kt as usize];
        if n < 0 {
            return format!("-{}{}", n.unsigned_abs(), if suffixed { t } else { "" });
        }
        let mut s = match e.spell & 7 {
            1 => format!("0x{n:x}"),
            2 => format!("0o{n:o}"),
            3 => format!("0b{n:b}"),
            4 => { let d = n.to_string(); let mut o = String::new(); for (j, c) in d.chars().enumerate() { if j > 0 && (d.len() - j) % 3 == 0 { o.push('_'); } o.push(c); } o }
            5 => format!("00{n}"),
            6 => format!("0x{n:X}"),
            7 => format!("{n}_"),
            _ => n.to_string(),
        };
        if suffixed {
            if e.spell & 8 != 0 && !s.ends_with('_') { s.push('_'); }
            s += t;
        }
        s
    }
    fn spell_str(e: &Ent) -> String {
        let k = &e.k;
        match e.spell & 7 {
            1 if !k.contains(['"', '\r']) => format!("r\"{k}\""),
            2 if !k.contains('\r') && !k.contains("\"#") => format!("r#\"{k}\"#"),
            3 => { let mut o = String::from("\""); for c in k.chars() { let _ = write!(o, "\\u{{{:x}}}", c as u32); } o + "\"" }
            4 => { let mut o = String::from("\""); for c in k.chars() { if (c as u32) < 0x80 { let _ = write!(o, "\\x{:02x}", c as u32); } else { o.push(c); } } o + "\"" }
            // a line continuation in the middle; it also swallows blanks that follow
            5 if k.chars().count() >= 2 => { let m = k.char_indices().nth(k.chars().count() / 2).unwrap().0; if k[m..].starts_with([' ', '\t', '\n', '\r']) { format!("{k:?}") } else { let q = |s: &str| { let d = format!("{s:?}"); d[1..d.len() - 1].to_string() }; format!("\"{}\\\n    {}\"", q(&k[..m]), q(&k[m..])) } }
            _ => format!("{k:?}"),
        }
    }
    /// Is the key at `i` written as a literal the macros can read?
    pub fn literal(&self, e: &Ent) -> bool {
        e.style == 0 && (self.kt == STR || (is_int(self.kt) && !e.k.starts_with('-')))
    }
    pub fn all_literal(&self) -> bool {
        self.ents.iter().all(|e| self.literal(e))
    }
    fn key(&self, i: usize, e: &Ent, items: &mut String, locals: &mut String) -> String {
        if self.literal(e) {
            return if is_int(self.kt) { self.spell_int(i, e) } else { Self::spell_str(e) };
        }
        let p = self.plain(&e.k);
        let stat = matches!(self.form, Form::Static(_) | Form::LocalStatic);
        match e.style {
            0 if is_int(self.kt) => self.spell_int(i, e),
            0 | 1 => format!("({p})"),
            2 => format!("crate::rt::idf({p})"),
            3 if self.kt != OWNED => { let _ = writeln!(items, "const K{i}: {} = {p};", ty_name(self.kt)); format!("K{i}") }
            4 if !stat => { let _ = writeln!(locals, "let v{i}: {} = {p};", ty_name(self.kt)); format!("v{i}") }
            5 if is_int(self.kt) => { let n: i128 = e.k.parse().unwrap(); let t = INTS[self.kt as usize]; if n >= 1 { format!("{}{t} + 1{t}", n - 1) } else { format!("{p} & {p}") } }
            6 => format!("{{ {p} }}"),
            7 if is_int(self.kt) => format!("{p} as {}", INTS[self.kt as usize]),
            7 => format!("({p}).clone()"),
            8 => format!("({p}, 0).0"),
            // not understood by the macros: a recorded finding
            9 => format!("if true {{ {p} }} else {{ {p} }}"),
            _ => format!("crate::rt::idf({p})"),
        }
    }
    /// Values; those of a static whose keys are all literals have to be constant.
    fn val(&self, i: usize, e: &Ent) -> String {
        let constant = matches!(self.form, Form::Static(_) | Form::LocalStatic) && self.all_literal();
        match (e.v as usize + i) % 10 {
            0 => format!("{}u32", e.v),
            1 => format!("{}", e.v),
            2 => format!("crate::rt::id({}u32)", e.v),
            3 => format!("{{ {} }}", e.v),
            4 => format!("0x{:x}", e.v),
            5 | 6 if !constant => format!("crate::rt::idf({}u32)", e.v),
            5 => format!("({} as u64) as u32", e.v),
            7 => format!("u32::MAX - {}", u32::MAX - e.v),
            8 => format!("({}, \"x\").0", e.v),
            9 if !constant => format!("vec![{}][0]", e.v),
            _ => format!("!{}", !e.v),
        }
    }
    /// The macro's argument text; items and local statements it needs are appended.
    pub fn args(&self, items: &mut String, locals: &mut String) -> String {
        if self.wrapped() { return self.wrapped_args(items, locals); }
        let mut pl = String::from("{ ");
        for (i, e) in self.ents.iter().enumerate() {
            if i > 0 { pl += ", "; }
            pl += &self.key(i, e, items, locals);
            if self.map { pl += ": "; pl += &self.val(i, e); }
        }
        pl += if self.trailing && !self.ents.is_empty() { ", }" } else { " }" };
        self.form_args(pl)
    }
    fn wrapped(&self) -> bool {
        self.wrap % 5 != 0 && !matches!(self.form, Form::Let | Form::LetMut) && !self.ents.is_empty()
    }
    /// Defines `wrap!`, which invokes the macro with what it is given, and returns the invocation of it.
    fn wrapped_args(&self, items: &mut String, locals: &mut String) -> String {
        let keys: Vec<String> = self.ents.iter().enumerate().map(|(i, e)| self.key(i, e, items, locals)).collect();
        let vals: Vec<String> = self.ents.iter().enumerate().map(|(i, e)| self.val(i, e)).collect();
        let mac = format!("frozen_collections::{}", self.mk.name(self.map));
        let comma = if self.trailing { "," } else { "" };
        let (pat, body, call) = match self.wrap % 5 {
            3 => {
                let mut pl = String::new();
                for (i, k) in keys.iter().enumerate() { if i > 0 { pl += ", "; } pl += k; if self.map { pl += ": "; pl += &vals[i]; } }
                ("$($t:tt)*".to_string(), self.form_args(format!("{{ $($t)* {comma} }}")), pl)
            }
            4 => {
                // every other key is captured on its own, the rest are written in the wrapper
                let (mut pat, mut body, mut call) = (String::new(), String::from("{ "), String::new());
                for (i, k) in keys.iter().enumerate() {
                    if i > 0 { body += ", "; }
                    // locals of the caller can only be named by the caller
                    if (i + self.ents.len()) % 2 == 0 || self.ents[i].style == 4 { let _ = write!(pat, "$k{i}:expr,"); let _ = write!(call, "{k},"); let _ = write!(body, "$k{i}"); } else { body += k; }
                    if self.map { let _ = write!(body, ": {}", vals[i]); }
                }
                (pat, self.form_args(format!("{body}{comma} }}")), call)
            }
            w => {
                let frag = if w == 2 && self.all_literal() { "literal" } else { "expr" };
                let call: Vec<String> = keys.iter().zip(&vals).map(|(k, v)| if self.map { format!("{k} => {v}") } else { k.clone() }).collect();
                if self.map { (format!("$($k:{frag} => $v:expr),*"), self.form_args(format!("{{ $($k: $v),* {comma} }}")), call.join(", ")) } else { (format!("$($k:{frag}),*"), self.form_args(format!("{{ $($k),* {comma} }}")), call.join(", ")) }
            }
        };
        let semi = if self.form == Form::Short { "" } else { ";" };
        let _ = writeln!(items, "macro_rules! wrap {{ ({pat}) => {{ {mac}!({body}){semi} }} }}");
        call
    }
    fn form_args(&self, pl: String) -> String {
        let gens = if self.map { format!("<{}, u32>", ty_name(self.kt)) } else { format!("<{}>", ty_name(self.kt)) };
        match self.form {
            Form::Short => pl,
            Form::Static(v) => format!("{} static M: T{gens}, {pl}", ["", "pub", "pub(crate)", "pub(super)"][v as usize % 4]),
            Form::LocalStatic => format!("static M: T{gens}, {pl}"),
            Form::Let => format!("let m: T{gens}, {pl}"),
            Form::LetMut => format!("let mut m: T{gens}, {pl}"),
        }
    }
    fn distinct(&self) -> usize {
        let mut v: Vec<String> = self.ents.iter().map(|e| self.plain(&e.k)).collect();
        v.sort();
        v.dedup();
        v.len()
    }
    pub fn has_dups(&self) -> bool {
        self.distinct() < self.ents.len()
    }
    /// Does the invocation end up in a run-time constructor of a fixed-size inline collection?
    pub fn inline_new(&self) -> bool {
        if self.all_literal() { return false; }
        let lits_int = self.ents.iter().any(|e| self.literal(e) && is_int(self.kt));
        let lits_str = self.ents.iter().any(|e| self.literal(e) && self.kt == STR);
        let n = self.ents.len();
        if lits_int { return n < 8; }
        if lits_str { return n < 4; }
        match self.mk { Mk::Scalar => n < 8, Mk::Ordered => true, _ => n < 4 }
    }
}
impl Inv {
    /// The program that checks the collection `expr` declared by `decl`.
    pub fn program(&self, items: &str, locals: &str, decl: &str, expr: &str, calls: usize) -> String {
        // with distinct keys every key and value expression is evaluated exactly once
        let (before, after) = if self.has_dups() { (String::new(), String::new()) } else { ("crate::rt::reset();\n".to_string(), format!("crate::rt::evaluated({calls})?;\n")) };
        let strs = self.kt == STR;
        let mut probes = self.probes.clone();
        if is_int(self.kt) {
            let (lo, hi) = bounds(self.kt);
            probes.retain(|p| p.parse::<i128>().is_ok_and(|n| lo <= n && n <= hi));
        }
        let pr: Vec<String> = probes.iter().map(|p| self.plain(p)).collect();
        let pr = if pr.is_empty() { String::from("&[]") } else { format!("&[{}]", pr.join(", ")) };
        let t = ty_name(self.kt);
        let q = if strs { "*k" } else { "k" };
        let check = if self.map {
            let ex: Vec<String> = self.ents.iter().map(|e| format!("({}, {})", self.plain(&e.k), e.v)).collect();
            let f = if strs { "smap" } else { "map" };
            let mut c = format!("let e: Vec<({t}, u32)> = vec![{}];\nlet p: &[{t}] = {pr};\ncrate::rt::{f}(m0, &e, p, &|k| m0.get({q}).copied())?;\n", ex.join(", "));
            // updates through the mutable form
            if self.form == Form::LetMut {
                let f = if strs { "&k" } else { "k" };
                let _ = strs;
                c = c.replace("m0", "(&m)");
                c += &format!("let mut e = e;\nfor (k, x) in e.clone().iter() {{ *m.get_mut({f}).ok_or(\"get_mut\")? = x ^ 1; }}\n", f = if strs { "k" } else { f });
                c += "for x in e.iter_mut() { x.1 ^= 1; }\n";
                c += &format!("crate::rt::{}(&m, &e, p, &|k| m.get(k).copied())?;\n", if strs { "smap" } else { "map" });
                return format!("use frozen_collections::*;\n{items}\npub fn run() -> Result<(), String> {{\n{before}{locals}\n{decl}\n{c}{after}Ok(())\n}}");
            }
            c
        } else {
            let ex: Vec<String> = self.ents.iter().map(|e| self.plain(&e.k)).collect();
            let f = if strs { "sset" } else { "set" };
            format!("let e: Vec<{t}> = vec![{}];\nlet p: &[{t}] = {pr};\ncrate::rt::{f}(m0, &e, p, &|k| m0.contains({q}))?;\n", ex.join(", "))
        };
        format!("use frozen_collections::*;\n{items}\npub fn run() -> Result<(), String> {{\n{before}{locals}\n{decl}\nlet m0 = {expr};\n{check}{after}Ok(())\n}}")
    }
}
/// Modules around a declaration of visibility `v` (none, pub, pub(crate), pub(super)), and the path to it.
pub fn nest(v: u8) -> (&'static str, &'static str, &'static str) {
    match v % 4 {
        0 => ("", "", ""),
        3 => ("pub mod inner { use super::*; ", "inner::", "}"),
        _ => ("pub mod outer { use super::*; pub mod inner { use super::*; ", "outer::inner::", "} }"),
    }
}
impl ProgCase for Inv {
    fn render(&self) -> Result<String, String> {
        let (mut items, mut locals) = (String::new(), String::new());
        let args = self.args(&mut items, &mut locals);
        let calls = [&items, &locals, &args].iter().map(|t| t.matches("rt::idf(").count()).sum();
        let mac = format!("frozen_collections::{}", self.mk.name(self.map));
        let (mut decl, mut expr) = (String::new(), "&m".to_string());
        let lazy = !self.all_literal() && !self.ents.is_empty();
        if self.wrapped() {
            let (open, path, close) = match self.form { Form::Static(v) => nest(v), _ => ("", "", "") };
            let call = format!("wrap!{{{args}}}");
            match self.form {
                Form::Short => return Ok(self.program(&items, &locals, &format!("let m = {call};"), "&m", calls)),
                Form::Static(_) => { let _ = writeln!(items, "{open}{call}{close}"); }
                _ => decl = format!("{call};"),
            }
            // works for a plain static and for one initialized on first use
            decl += &format!("let t: &{path}T = &{path}M;");
            return Ok(self.program(&items, &locals, &decl, "t", calls));
        }
        match self.form {
            Form::Short => decl = format!("let m = {mac}!({args});"),
            Form::Let | Form::LetMut => decl = format!("{mac}!({args});\nlet t: &T = &m;"),
            Form::Static(v) => {
                // a static with a visibility is used from outside the module it is declared in, and so is its type
                let star = if lazy { "*" } else { "" };
                let (open, path, close) = nest(v);
                let _ = writeln!(items, "{open}{mac}!({args});{close}");
                decl = format!("let t: &{path}T = &{star}{path}M;");
                expr = format!("&{star}{path}M");
            }
            Form::LocalStatic => { decl = format!("{mac}!({args});"); expr = if lazy { "&*M".into() } else { "&M".into() }; }
        }
        Ok(self.program(&items, &locals, &decl, &expr, calls))
    }
    fn simpler(&self) -> Vec<Self> {
        let mut out = vec![];
        let n = self.ents.len();
        let with = |e: Vec<Ent>| { let mut c = self.clone(); c.ents = e; c };
        if n > 1 {
            out.push(with(self.ents[..n / 2].to_vec()));
            out.push(with(self.ents[n / 2..].to_vec()));
            for q in 0..4 { if n > 4 { let mut e = self.ents.clone(); e.drain(n * q / 4..n * (q + 1) / 4); out.push(with(e)); } }
            for i in 0..n.min(6) { let mut e = self.ents.clone(); e.remove(n - 1 - i); out.push(with(e)); }
        }
        if self.probes.len() > 1 { let mut c = self.clone(); c.probes.clear(); out.push(c); let mut c = self.clone(); c.probes.truncate(self.probes.len() / 2); out.push(c); let mut c = self.clone(); c.probes.drain(..self.probes.len() / 2); out.push(c); }
        if self.ents.iter().any(|e| e.spell != 0) { let mut c = self.clone(); c.ents.iter_mut().for_each(|e| e.spell = 0); out.push(c); }
        if self.form != Form::Let && self.form != Form::Short { let mut c = self.clone(); c.form = Form::Let; out.push(c); }
        if self.map { let mut c = self.clone(); c.map = false; out.push(c); }
        if self.trailing { let mut c = self.clone(); c.trailing = false; out.push(c); }
        if self.wrap != 0 { let mut c = self.clone(); c.wrap = 0; out.push(c); }
        out.retain(|c| c.valid());
        out
    }
    fn labels(&self) -> Vec<String> {
        let n = self.ents.len();
        let mut l = vec![
            format!("macro {}", self.mk.name(self.map)),
            format!("form {}", match self.form { Form::Short => "short", Form::Static(_) => "static", Form::LocalStatic => "local static", Form::Let => "let", Form::LetMut => "let mut" }),
            format!("key {}", ty_name(self.kt)),
            format!("entries {}", match n { 0 => "0", 1..=3 => "1-3", 4..=7 => "4-7", 8..=31 => "8-31", 32..=255 => "32-255", _ => ">255" }),
        ];
        if self.wrapped() { l.push(format!("inside macro_rules, {}", ["", "expr", "literal", "tt", "mixed"][self.wrap as usize % 5])); }
        if self.has_dups() { l.push("with duplicates".into()); }
        if !self.all_literal() { l.push(if self.ents.iter().any(|e| self.literal(e)) { "literals and expressions".into() } else { "expressions".into() }); }
        l
    }
    fn nontrivial(&self) -> bool {
        self.distinct() >= 2
    }
    fn finding(&self, msg: &str) -> Option<String> {
        if self.ents.iter().any(|e| e.style == 9) && msg.contains("unsupported expression; enable syn's features") {
            return Some("keys that are if, match, array or closure expressions are rejected by the macros (unsupported expression; enable syn's features=[\"full\"])".to_string());
        }
        (self.has_dups() && self.inline_new() && msg.contains("Cannot convert to array of size") && msg.contains("length mismatch")).then(|| "computed keys that evaluate equal panic at run time in a fixed-size inline collection (InlineScan*::new / InlineEytzingerSearch*::new: length mismatch) instead of the last entry winning".to_string())
    }
}
impl Inv {
    /// Documented limits of the macros that generated invocations stay within.
    pub fn valid(&self) -> bool {
        let short = self.form == Form::Short;
        if self.ents.is_empty() { return !short; }
        if short && self.suffix == 1 && self.kt != 0 && is_int(self.kt) && self.all_literal() { return false; }
        match self.mk {
            Mk::Scalar => self.kt != STR && self.kt != TUPLE && self.kt != OWNED && self.kt != CHAR,
            Mk::Str => self.kt == STR,
            _ => true,
        }
    }
}

fn form() -> impl Strategy<Value = Form> {
    prop_oneof![4 => Just(Form::Short), 2 => (0u8..4).prop_map(Form::Static), 1 => Just(Form::LocalStatic), 2 => Just(Form::Let), 2 => Just(Form::LetMut)]
}
fn small_size() -> BoxedStrategy<usize> {
    prop_oneof![30 => 0usize..14, 12 => 14usize..40, 3 => 40usize..140, 1 => proptest::sample::select(vec![254usize, 255, 256, 257, 300])].boxed()
}
/// Literal-friendly integer keys of a type, non-negative unless `neg`.
fn int_vals(kt: Kt, neg: bool) -> BoxedStrategy<Vec<i128>> {
    let (lo, hi) = bounds(kt);
    let lo = if neg { lo } else { 0 };
    let fit = move |x: i128| if x < lo || x > hi { lo + (x - lo).rem_euclid(hi - lo + 1) } else { x };
    let at = prop_oneof![4 => 0i128..20, 2 => 0i128..300, 2 => Just(hi), 1 => Just(hi / 2), 1 => Just(hi / 2 + 1), 1 => Just(lo), 1 => 0i128..(1 << 33), 1 => Just(i64::MAX as i128), 1 => Just(u32::MAX as i128), 1 => if neg { (-40i128..40).boxed() } else { (0i128..40).boxed() }];
    let some = small_size();
    prop_oneof![
        // dense and strided runs
        5 => (at.clone(), prop_oneof![5 => Just(1i128), 3 => 2i128..12, 1 => Just(100), 1 => Just(65536), 1 => Just(1 << 40)], some.clone(), any::<bool>()).prop_map(move |(a, s, n, down)| (0..n as i128).map(|i| fit(if down { a - i * s } else { a + i * s })).collect()),
        // a window with holes
        4 => (at.clone(), 1u32..14, some.clone()).prop_flat_map(move |(a, f, n)| vec(0..(n as i128 * i128::from(f)).max(1), n).prop_map(move |v| v.into_iter().map(|x| fit(a + x)).collect())),
        // scattered
        3 => some.prop_flat_map(move |n| vec(prop_oneof![at.clone(), any::<u64>().prop_map(|x| x as i128)], n.min(60)).prop_map(move |v| v.into_iter().map(fit).collect())),
    ]
    .prop_map(move |mut v: Vec<i128>| { v.retain(|x| lo <= *x && *x <= hi); v })
    .boxed()
}
fn strings() -> BoxedStrategy<Vec<String>> {
    (small_size(), str_keys(40)).prop_map(|(n, k)| { let mut v: Vec<String> = k.expand().into_iter().map(String::from).filter(|s| s.len() < 120).collect(); v.truncate(n.max(1)); v }).boxed()
}
/// Lookup tables, hash tables and search arrays of 254 to 257 entries, or with fewer entries over ranges of that size.
pub fn boundary_invs() -> Vec<Inv> {
    let mut out = vec![];
    let mut put = |mk, kt, map, form, keys: Vec<u64>| {
        let probes = keys.iter().max().map(|m| vec![m + 1, m + 2, m + 256]).unwrap_or_default().into_iter().chain((0..40).map(|i| i * 13)).map(|x: u64| x.to_string()).collect();
        let ents = keys.iter().enumerate().map(|(i, k)| Ent { k: if kt == STR { format!("s{:04}{}", k, "y".repeat((k % 3) as usize)) } else { k.to_string() }, spell: 0, style: 0, v: (i as u32 * 31) % 9973 + 1 }).collect();
        let probes = if kt == STR { vec!["".into(), "s".into(), "s9999".into(), "s0000z".into()] } else { probes };
        out.push(Inv { mk, map, form, kt, suffix: 0, ents, trailing: false, probes, wrap: 0 });
    };
    let forms = [Form::Static(0), Form::Let, Form::Short, Form::Static(1), Form::LetMut];
    for (i, n) in [254u64, 255, 256, 257].into_iter().enumerate() {
        // sparse: a few holes anywhere in a range of n plus the number of holes
        for (j, holes) in [1u64, 2, 40].into_iter().enumerate() {
            let range = n + holes;
            let keys: Vec<u64> = (0..range).filter(|k| !(k % (range / holes) == (range / holes) / 2 && k / (range / holes) < holes)).map(|k| k + 3 * j as u64).collect();
            put(Mk::Scalar, [3u8, 5, 7][j], (i + j) % 2 == 0, forms[(i + j) % 5], keys);
        }
        // dense
        put(Mk::Scalar, 3, i % 2 == 0, forms[(i + 1) % 5], (5..5 + n).collect());
        put(Mk::Hash, 5, i % 2 == 1, forms[(i + 2) % 5], (0..n).map(|k| k * 7919 % 65_537 * 11).collect());
        put(Mk::Ordered, 6, i % 2 == 0, forms[(i + 3) % 5], (0..n).map(|k| k * 3).collect());
        put(Mk::Str, STR, i % 2 == 1, forms[i % 5], (0..n).collect());
    }
    // few entries whose indices or ranges are just at a byte
    for (k, (a, b)) in [(0u64, 254u64), (0, 255), (0, 256), (1, 256), (5, 259)].into_iter().enumerate() {
        put(Mk::Scalar, 3, k % 2 == 0, forms[k % 5], std::iter::once(a).chain((a + b) / 2..=b).step_by(1).collect());
    }
    // long texts: what tells them apart lies far from either end, or is only their length
    let mut long = |i: usize, keys: Vec<String>, probes: Vec<String>| {
        let ents = keys.into_iter().enumerate().map(|(i, k)| Ent { k, spell: 0, style: 0, v: i as u32 + 1 }).collect();
        out.push(Inv { mk: [Mk::Str, Mk::Str, Mk::Hash][i % 3], map: i % 2 == 0, form: forms[i % 5], kt: STR, suffix: 0, ents, trailing: false, probes, wrap: 0 });
    };
    let tags = ["qa", "wb", "ec", "rd", "te", "yf", "ug", "ih"];
    for (i, pad) in [120usize, 254, 255, 256, 300, 999, 1000, 1234, 9_999, 66_000].into_iter().enumerate() {
        let (p, n) = ("p".repeat(pad), |j: usize| "z".repeat(j % 3));
        let near = |j: usize| vec![p.clone(), format!("{p}q"), format!("{}qa", &p[1..]), format!("{p}xx"), "qa".to_string(), String::new(), p[..pad % 256].to_string(), format!("{p}{}", n(j))];
        long(i, tags.iter().enumerate().map(|(j, t)| format!("{p}{t}{}", n(j))).collect(), near(1));
        long(i + 1, tags.iter().enumerate().map(|(j, t)| format!("{}{t}{p}", n(j))).collect(), near(2));
        long(i + 2, (0..8).map(|j| "l".repeat(pad + j - 3)).collect(), (0..6).map(|j| "l".repeat((pad + j + 5) % 70_000)).chain([String::new(), "l".repeat(pad % 256), "m".repeat(pad)]).collect());
    }
    out
}
pub fn dedup<T: PartialEq>(v: Vec<T>) -> Vec<T> {
    let mut o: Vec<T> = vec![];
    for x in v { if !o.contains(&x) { o.push(x); } }
    o
}
/// Probes near the keys.
fn probes(kt: Kt, keys: &[String], sp: &[SProbe]) -> Vec<String> {
    if kt == STR || kt == OWNED {
        let ks: Vec<Box<str>> = keys.iter().map(|s| s.as_str().into()).collect();
        let p: Vec<Box<str>> = str_probes(&ks, sp);
        let st = (p.len() / 40).max(1);
        return dedup(p.into_iter().step_by(st).map(String::from).filter(|s| s.len() < 200).collect());
    }
    let n: Vec<i128> = keys.iter().map(|k| k.parse().unwrap()).collect();
    let mut p = vec![0i128, 1, -1, 127, 128, 255, -128, i64::MAX as i128, i64::MIN as i128, u64::MAX as i128, u32::MAX as i128, i32::MAX as i128, i32::MIN as i128];
    if let (Some(a), Some(b)) = (n.iter().min(), n.iter().max()) {
        for d in [-256i128, -128, -9, -2, -1, 1, 2, 8, 128, 256, 1 << 32] { p.push(a + d); p.push(b + d); }
    }
    for k in n.iter().step_by((n.len() / 8).max(1)) { p.push(k + 1); p.push(k - 1); }
    let (lo, hi) = if is_int(kt) { bounds(kt) } else { (0, 200) };
    p.retain(|x| lo <= *x && *x <= hi);
    dedup(p.into_iter().map(|x| x.to_string()).collect())
}
fn entries(kt: Kt, neg: bool) -> BoxedStrategy<Vec<String>> {
    match kt {
        STR | OWNED => strings(),
        ENUM | TUPLE | CHAR => small_size().prop_flat_map(|n| vec(0i128..40, n.min(40))).prop_map(|v| v.into_iter().map(|x| x.to_string()).collect()).boxed(),
        _ => int_vals(kt, neg).prop_map(|v| v.into_iter().map(|x| x.to_string()).collect()).boxed(),
    }
}
/// `exprs`: keys may be computed.
pub fn inv(exprs: bool) -> BoxedStrategy<Inv> {
    let pick = if exprs {
        prop_oneof![
            3 => (proptest::sample::select(vec![Mk::Hash, Mk::Ordered, Mk::Scalar]), 0u8..10),
            3 => (proptest::sample::select(vec![Mk::Hash, Mk::Ordered, Mk::Str, Mk::Str]), Just(STR)),
            1 => (proptest::sample::select(vec![Mk::Hash, Mk::Ordered, Mk::Scalar, Mk::Scalar]), Just(ENUM)),
            1 => (proptest::sample::select(vec![Mk::Hash, Mk::Ordered]), proptest::sample::select(vec![TUPLE, OWNED, CHAR])),
        ].boxed()
    } else {
        prop_oneof![
            3 => (proptest::sample::select(vec![Mk::Hash, Mk::Ordered, Mk::Scalar, Mk::Scalar]), 0u8..10),
            3 => (proptest::sample::select(vec![Mk::Hash, Mk::Ordered, Mk::Str, Mk::Str]), Just(STR)),
        ].boxed()
    };
    (pick, any::<bool>(), form(), prop_oneof![3 => Just(0u8), 2 => Just(1u8), 1 => Just(2u8)], any::<bool>(), (0u8..10, prop_oneof![5 => Just(0u8), 2 => 1u8..5]), vec(any::<(u16, u16)>(), 0..3))
        .prop_flat_map(move |((mk, kt), map, form, suffix, trailing, (mode, wrap), dups)| {
            (entries(kt, exprs), vec(any::<(u8, u8, u32)>(), 40), sprobes()).prop_map(move |(keys, deco, sp)| {
                let mut suffix = suffix;
                if suffix == 1 && form == Form::Short && kt != 0 { suffix = 0; }
                let mut keys = keys;
                let dupes = mode < 3;
                if dupes { add_dups(&mut keys, &dups); }
                let probes = probes(kt, &keys, &sp);
                let mut ents: Vec<Ent> = keys.into_iter().enumerate().map(|(i, k)| {
                    let (a, b, v) = deco[i % deco.len()];
                    // all expressions, or a mixture
                    let style = if !exprs { 0 } else if mode % 2 == 0 { 1 + b % 8 } else { if b % 3 == 0 { 0 } else { 1 + b % 8 } };
                    Ent { k, spell: if a < 90 { 0 } else { a }, style, v: v.wrapping_add(i as u32) % 100_000 }
                }).collect();
                let mut c = Inv { mk, map, form, kt, suffix, ents: vec![], trailing, probes, wrap };
                if exprs {
                    if let Some(e) = ents.first_mut() { if e.style == 0 { e.style = 2; } }
                    // integer literals among expressions in a short form: give every literal its suffix, or leave inference to the expressions
                }
                c.ents = ents;
                // equal computed keys in a fixed-size collection are a recorded finding: keep them rare
                if exprs && c.has_dups() && c.inline_new() && (sp.len() % 8 != 0) {
                    let mut seen: Vec<String> = vec![];
                    let inv = c.clone();
                    c.ents.retain(|e| { let p = inv.plain(&e.k); if seen.contains(&p) { false } else { seen.push(p); true } });
                }
                if c.ents.is_empty() && c.form == Form::Short { c.form = Form::Let; }
                c
            })
        })
        .prop_filter("valid", Inv::valid)
        .boxed()
}
