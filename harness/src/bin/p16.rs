//! Build-script emitter: configurations judged in process, output compiled and executed.
use frozen_collections_core::emit::{CollectionEmitter, CollectionEntry};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use syn::{Type, Visibility, parse_str};
use vh::inv::*;
use vh::keys::FromI64;
use vh::progs::{ProgCase, programs};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Em {
    /// kind, key type, entries, probes
    inv: Inv,
    stat: bool,
    sym: bool,
    alias: bool,
    mutable: bool,
    vis: u8,
    const_keys: bool,
    const_values: bool,
    /// values are calls to a function that is not const
    call_values: bool,
}
impl Em {
    fn invalid(&self) -> bool {
        (self.stat && self.mutable) || (!self.sym && (self.stat || self.mutable || self.alias))
    }
    fn emitter(&self) -> CollectionEmitter {
        let ty: Type = parse_str(ty_name(self.inv.kt)).unwrap();
        let mut e = CollectionEmitter::new(&ty).const_keys(self.const_keys).const_values(self.const_values).static_instance(self.stat).mutable(self.mutable);
        if self.inv.map {
            e = e.value_type(&parse_str("u32").unwrap());
        }
        if self.sym {
            e = e.symbol_name(if self.stat { "M" } else { "m" });
        }
        if self.alias {
            e = e.alias_name("T");
        }
        e.visibility(parse_str::<Visibility>(["", "pub", "pub(crate)"][self.vis as usize % 3]).unwrap())
    }
    fn entries<K>(&self, f: impl Fn(&str) -> K) -> Vec<CollectionEntry<K>> {
        self.inv
            .ents
            .iter()
            .map(|e| {
                let key = parse_str(&self.inv.plain(&e.k)).unwrap();
                if self.inv.map {
                    let v = if self.call_values { format!("crate::rt::idf({}u32)", e.v) } else { e.v.to_string() };
                    CollectionEntry::map_entry(f(&e.k), key, parse_str(&v).unwrap())
                } else {
                    CollectionEntry::set_entry(f(&e.k), key)
                }
            })
            .collect()
    }
    fn ints<K: std::hash::Hash + Ord + frozen_collections::Scalar + TryFrom<i128>>(&self) -> Result<String, String>
    where
        K::Error: std::fmt::Debug,
    {
        let e = self.entries(|k| K::try_from(k.parse::<i128>().unwrap()).unwrap());
        self.emit(e)
    }
    fn emit<K: std::hash::Hash + Ord + frozen_collections::Scalar>(&self, e: Vec<CollectionEntry<K>>) -> Result<String, String> {
        let em = self.emitter();
        match self.inv.mk {
            Mk::Hash => em.emit_hash_collection(e),
            Mk::Ordered => em.emit_ordered_collection(e),
            _ => em.emit_scalar_collection(e),
        }
        .map(|t| t.to_string())
    }
    fn other<K: std::hash::Hash + Ord>(&self, e: Vec<CollectionEntry<K>>) -> Result<String, String> {
        let em = self.emitter();
        if self.inv.mk == Mk::Hash { em.emit_hash_collection(e) } else { em.emit_ordered_collection(e) }.map(|t| t.to_string())
    }
    fn run_emitter(&self) -> Result<String, String> {
        match self.inv.kt {
            STR if self.inv.mk == Mk::Str => self.emitter().emit_string_collection(self.entries(str::to_string)).map(|t| t.to_string()),
            STR if self.vis % 2 == 0 => self.other(self.entries(|k| -> &'static str { Box::leak(k.to_string().into_boxed_str()) })),
            STR | OWNED => self.other(self.entries(str::to_string)),
            TUPLE => self.other(self.entries(|k| { let n = k.parse::<i128>().unwrap(); (n.rem_euclid(7) as u8, format!("t{}", n.div_euclid(7))) })),
            CHAR => self.other(self.entries(|k| char::from_u32(k.parse::<i128>().unwrap().rem_euclid(0xD000) as u32).unwrap())),
            ENUM => self.emit(self.entries(|k| vh::facade::E::from_i64(k.parse::<i128>().unwrap().rem_euclid(20) as i64))),
            k => match INTS[k as usize] {
                "i8" => self.ints::<i8>(), "u8" => self.ints::<u8>(), "i16" => self.ints::<i16>(), "u16" => self.ints::<u16>(), "i32" => self.ints::<i32>(),
                "u32" => self.ints::<u32>(), "i64" => self.ints::<i64>(), "u64" => self.ints::<u64>(), "isize" => self.ints::<isize>(), _ => self.ints::<usize>(),
            },
        }
    }
}
impl ProgCase for Em {
    fn render(&self) -> Result<String, String> {
        let r = vh::runner::guarded(|| self.run_emitter()).map_err(|p| format!("the emitter panics: {p}"))?;
        let code = match (r, self.invalid()) {
            (Ok(_), true) => return Err("an invalid configuration is accepted".into()),
            (Err(e), false) => return Err(format!("a valid configuration is rejected: {e}")),
            (Err(e), true) => return if e.trim().is_empty() { Err("empty error message".into()) } else { Ok("pub fn run() -> Result<(), String> { Ok(()) }".into()) },
            (Ok(c), false) => c,
        };
        let mut inv = self.inv.clone();
        let (mut items, mut decl, mut expr) = (String::new(), String::new(), "&m".to_string());
        inv.form = Form::Short;
        let (mut alias, mut symbol) = (String::from("T"), String::from("M"));
        if self.stat {
            let star = if self.const_keys && self.const_values { "" } else { "*" };
            if self.vis % 2 == 0 {
                // used from outside the module it is declared in
                let (open, path, close) = nest(self.vis % 3);
                items = format!("{open}{code}{close}");
                alias = format!("{path}T");
                symbol = format!("{path}M");
            } else {
                decl = code;
            }
            expr = format!("&{star}{symbol}");
        } else if self.sym {
            decl = code;
            if self.mutable { inv.form = Form::LetMut; }
        } else {
            decl = format!("let m = {code};");
        }
        if self.alias {
            decl += &format!("\nlet t: &{alias} = {expr};");
        }
        if self.stat && self.const_keys && self.const_values {
            decl += "\nfn thread_safe<X: Send + Sync + 'static>(_: &'static X) {} thread_safe(&SYM);";
            decl = decl.replace("&SYM", &format!("&{symbol}"));
        }
        Ok(inv.program(&items, "", &decl, &expr, if self.call_values && inv.map { inv.ents.len() } else { 0 }))
    }
    fn simpler(&self) -> Vec<Self> {
        let mut v: Vec<Self> = self.inv.simpler().into_iter().map(|inv| Em { inv, ..self.clone() }).collect();
        for f in [|e: &mut Em| e.alias = false, |e: &mut Em| e.mutable = false, |e: &mut Em| e.call_values = false, |e: &mut Em| e.vis = 0] {
            let mut c = self.clone();
            f(&mut c);
            if serde_json::to_string(&c).unwrap() != serde_json::to_string(self).unwrap() { v.push(c); }
        }
        v
    }
    fn labels(&self) -> Vec<String> {
        let mut l: Vec<String> = self.inv.labels().into_iter().filter(|l| !l.starts_with("form") && !l.starts_with("macro") && !l.contains("expr")).collect();
        l.push(format!("emit {:?} {}", self.inv.mk, if self.inv.map { "map" } else { "set" }));
        l.push(if self.invalid() { "invalid configuration" } else if self.stat { "static" } else if self.mutable { "let mut" } else if self.sym { "let" } else { "expression" }.into());
        l
    }
    fn nontrivial(&self) -> bool {
        self.inv.nontrivial() && !self.invalid()
    }
}
fn case() -> impl Strategy<Value = Em> {
    // key lists of the literal and of the computed generator; spellings and styles do not matter here
    (prop_oneof![2 => inv(false), 1 => inv(true)], 0u8..10, any::<[bool; 6]>(), 0u8..6).prop_map(|(mut inv, shape, b, vis)| {
        inv.form = Form::Short;
        inv.suffix = 0;
        inv.wrap = 0;
        inv.ents.iter_mut().for_each(|e| { e.spell = 0; e.style = 0; });
        let owned = inv.kt == OWNED;
        let (stat, sym, alias, mutable) = match shape { 0..=2 => (true, true, b[0], false), 3 | 4 => (false, true, b[0], false), 5 | 6 => (false, true, b[0], true), 7 | 8 => (false, false, false, false), _ => (b[0], b[1], b[2], b[3]) };
        let call_values = inv.map && b[4] && b[5];
        // keys and values may only be called const when they are
        Em { inv, stat, sym, alias, mutable, vis, const_keys: !owned && b[4] == b[4] && vis != 5, const_values: !call_values && vis != 4, call_values }
    })
}
fn main() {
    vh::runner::main_with("P16", vec![], programs("P16", "programs", 2500, 40_000, vec![], case,
        "each case is an emitter configuration (kind, map or set, static/let/mutable/expression, alias, visibility, constness; one in ten random, possibly invalid) with entries over integers, strings, enums, tuples, chars and owned strings incl. duplicates; the emitter runs in process, its output is compiled and queried; invalid configurations must be errors; non-trivial: valid and at least 2 distinct keys."));
}
