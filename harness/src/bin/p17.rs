//! Macro front ends fed with token streams, in process.
use frozen_collections_core::macros::*;
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use proptest::collection::vec;
use proptest::prelude::*;
use quote::ToTokens;
use serde::{Deserialize, Serialize};
use vh::ensure;
use vh::inv::*;
use vh::progs::ProgCase;
use vh::runner::*;

const NAMES: [&str; 9] = ["fz_hash_map", "fz_hash_set", "fz_ordered_map", "fz_ordered_set", "fz_scalar_map", "fz_scalar_set", "fz_string_map", "fz_string_set", "derive"];
fn front(f: usize, t: TokenStream) -> syn::Result<TokenStream> {
    match f % 9 {
        0 => fz_hash_map_macro(t),
        1 => fz_hash_set_macro(t),
        2 => fz_ordered_map_macro(t),
        3 => fz_ordered_set_macro(t),
        4 => fz_scalar_map_macro(t),
        5 => fz_scalar_set_macro(t),
        6 => fz_string_map_macro(t),
        7 => fz_string_set_macro(t),
        _ => derive_scalar_macro(t),
    }
}
fn index(mk: Mk, map: bool) -> usize {
    NAMES.iter().position(|n| *n == mk.name(map)).unwrap()
}
/// No panic; what is accepted is Rust syntax; what is rejected carries a message.
fn judge(f: usize, t: TokenStream) -> Result<bool, String> {
    let name = NAMES[f % 9];
    let text = t.to_string();
    match guarded(|| front(f, t)).map_err(|p| format!("{name}! panics on `{text}`: {p}"))? {
        Ok(out) => {
            // a statement list covers expressions, let, items
            let g = TokenTree::Group(Group::new(Delimiter::Brace, out.clone())).to_token_stream();
            // bounds like `'a + T` are types to syn on their own but not inside a tuple: the writer's error, reported by rustc
            if let Err(e) = syn::parse2::<syn::Block>(g) {
                ensure!(text.contains('+'), "{name}! on `{text}` emits what is not Rust: {e}: {out}");
            }
            ensure!(!out.is_empty(), "{name}! on `{text}` accepts and emits nothing");
            Ok(true)
        }
        Err(e) => {
            let m = e.to_string();
            ensure!(!m.trim().is_empty(), "{name}! rejects `{text}` without a message");
            guarded(|| e.to_compile_error()).map_err(|p| format!("{name}!: the error for `{text}` cannot be reported: {p}"))?;
            Ok(false)
        }
    }
}
fn lex(s: &str) -> Option<TokenStream> {
    guarded(|| s.parse::<TokenStream>().ok()).ok().flatten()
}

// ---------------------------------------------------------------- the shape of an invocation
/// Does the stream have the documented shape `[vis] static|let [mut] name: Type<K[, V]>, { entries }` or `{ entries }`?
/// None where invisible groups leave it open. Says nothing about the kinds of the keys.
fn shaped(f: usize, t: &TokenStream) -> Option<bool> {
    fn invisible(t: &TokenStream) -> bool {
        t.clone().into_iter().any(|x| matches!(&x, TokenTree::Group(g) if g.delimiter() == Delimiter::None || invisible(&g.stream())))
    }
    if f % 9 == 8 || invisible(t) { return None; }
    let map = NAMES[f % 9].ends_with("map");
    let mut v: Vec<TokenTree> = t.clone().into_iter().collect();
    let Some(TokenTree::Group(g)) = v.pop() else { return Some(false) };
    if g.delimiter() != Delimiter::Brace { return Some(false); }
    // entries between commas, the last one optionally followed by one
    let entries = |s: syn::parse::ParseStream| -> syn::Result<usize> {
        let mut n = 0;
        while !s.is_empty() {
            s.parse::<syn::Expr>()?;
            if map {
                s.parse::<syn::Token![:]>()?;
                s.parse::<syn::Expr>()?;
            }
            n += 1;
            if !s.is_empty() { s.parse::<syn::Token![,]>()?; }
        }
        Ok(n)
    };
    let Ok(n) = syn::parse::Parser::parse2(entries, g.stream()) else { return Some(false) };
    if v.is_empty() { return Some(n > 0); }
    let mut at = 0;
    let word = |t: Option<&TokenTree>, w: &str| matches!(t, Some(TokenTree::Ident(i)) if i == w);
    let punct = |t: Option<&TokenTree>, c: char| matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c);
    let name = |t: Option<&TokenTree>| matches!(t, Some(TokenTree::Ident(i)) if syn::parse2::<syn::Ident>(TokenTree::Ident(i.clone()).into()).is_ok());
    let vis = word(v.first(), "pub");
    if vis {
        at += 1;
        if matches!(v.get(at), Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Parenthesis) { at += 1; }
    }
    if word(v.get(at), "static") { at += 1; } else if !vis && word(v.get(at), "let") {
        at += 1;
        if word(v.get(at), "mut") { at += 1; }
    } else { return Some(false); }
    if !(name(v.get(at)) && punct(v.get(at + 1), ':') && name(v.get(at + 2)) && punct(v.get(at + 3), '<')) { return Some(false); }
    at += 4;
    let n = v.len();
    if n < at + 2 || !punct(v.get(n - 1), ',') || !punct(v.get(n - 2), '>') { return Some(false); }
    let types = |s: syn::parse::ParseStream| -> syn::Result<()> {
        s.parse::<syn::Type>()?;
        if map {
            s.parse::<syn::Token![,]>()?;
            s.parse::<syn::Type>()?;
        }
        Ok(())
    };
    Some(syn::parse::Parser::parse2(types, v[at..n - 2].iter().cloned().collect()).is_ok())
}
fn judge_shape(f: usize, t: TokenStream) -> Result<bool, String> {
    let (shape, ok) = (shaped(f, &t), judge(f, t.clone())?);
    ensure!(!(ok && shape == Some(false)), "{}! accepts `{t}`, which is not an invocation of it", NAMES[f % 9]);
    Ok(ok)
}

// ---------------------------------------------------------------- soup and mutation
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Soup { front: usize, text: String }
fn vocab() -> impl Strategy<Value = String> + Clone {
    prop_oneof![
        6 => proptest::sample::select(vec!["1", "2", "0", "-1", "-", "255u8", "256u8", "1i8", "-128i8", "0x7f", "0xffu8", "0b101", "0o77", "1_000", "1.5", "1e3", "1f32", "123iXXX", "1u128", "18446744073709551615", "18446744073709551616", "99999999999999999999999999999999999999999999", "9223372036854775808i64", "-0", "0_", "1u8u8", "1usize", "7isize"]).prop_map(String::from),
        4 => proptest::sample::select(vec!["\"a\"", "\"\"", "\"b\\n\"", "r\"x\"", "r#\"y\"#", "b\"z\"", "c\"q\"", "'c'", "b'1'", "true", "\"\\u{1F600}\"", "\"a\"foo"]).prop_map(String::from),
        6 => proptest::sample::select(vec![",", ":", ";", "::", "<", ">", "=", "=>", "..", "#", "!", "?", "&", "*", "+", "|", "@", "$", "'a", "->", ">>", "<<"]).prop_map(String::from),
        6 => proptest::sample::select(vec!["static", "let", "mut", "pub", "pub(crate)", "pub(in x)", "crate", "self", "Self", "super", "fn", "enum", "struct", "union", "const", "impl", "dyn", "where", "for", "as", "if", "match", "_", "r#type", "r#fn", "x", "MAP", "T", "i32", "u8", "str", "String", "Option", "Vec", "E", "A", "B", "C", "unsafe", "async", "move"]).prop_map(String::from),
        2 => proptest::sample::select(vec!["M<i32, i32>", "M<&'static str, u8>", "M<u64>", "&'static str", "vec![1]", "f(1)", "a::b", "{ 1 }", "{ 1: 2 }", "{ 1: 2, 3: 4, }", "enum E { A, B }", "static M: T<i32, i32>,", "let m: T<i32>,", "#[x]", "1: 2", "\"a\": 1"]).prop_map(String::from),
    ]
}
fn soup_text() -> BoxedStrategy<String> {
    vocab().boxed().prop_recursive(4, 60, 8, |inner| {
        prop_oneof![
            2 => vec(inner.clone(), 0..8).prop_map(|v| format!("{{ {} }}", v.join(" "))),
            1 => vec(inner.clone(), 0..6).prop_map(|v| format!("( {} )", v.join(" "))),
            1 => vec(inner.clone(), 0..6).prop_map(|v| format!("[ {} ]", v.join(" "))),
            2 => vec(inner, 0..10).prop_map(|v| v.join(" ")),
        ]
    })
    .boxed()
}
fn soup(c: &Soup, o: &mut Obs) -> Res {
    let Some(t) = lex(&c.text) else {
        o.label("not tokens");
        return Ok(());
    };
    o.nontrivial_if(!t.is_empty());
    for f in 0..9 {
        if judge_shape(f, t.clone())? {
            o.label(&format!("accepted by {}", NAMES[f]));
        }
    }
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Edit { Del(u16), Dup(u16), Swap(u16, u16), Put(u16, String), Rep(u16, String), Wrap(u16, u8) }
fn edits() -> impl Strategy<Value = Vec<Edit>> {
    let e = prop_oneof![
        any::<u16>().prop_map(Edit::Del), any::<u16>().prop_map(Edit::Dup), any::<(u16, u16)>().prop_map(|(a, b)| Edit::Swap(a, b)),
        (any::<u16>(), vocab()).prop_map(|(a, b)| Edit::Put(a, b)), (any::<u16>(), vocab()).prop_map(|(a, b)| Edit::Rep(a, b)), (any::<u16>(), 0u8..4).prop_map(|(a, b)| Edit::Wrap(a, b)),
    ];
    vec(e, 1..4)
}
/// Visits every token tree in order; positions count all levels.
fn edit(ts: TokenStream, n: &mut usize, target: usize, f: &mut dyn FnMut(TokenTree) -> Vec<TokenTree>) -> TokenStream {
    let mut out = vec![];
    for t in ts {
        *n += 1;
        let here = *n - 1 == target;
        let t = match t {
            TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), edit(g.stream(), n, target, f))),
            t => t,
        };
        if here { out.extend(f(t)) } else { out.push(t) }
    }
    out.into_iter().collect()
}
fn count(ts: &TokenStream) -> usize {
    ts.clone().into_iter().map(|t| 1 + if let TokenTree::Group(g) = &t { count(&g.stream()) } else { 0 }).sum()
}
fn apply(mut t: TokenStream, es: &[Edit]) -> TokenStream {
    for e in es {
        let n = count(&t).max(1);
        let mut k = 0;
        let toks = |s: &str| lex(s).unwrap_or_default().into_iter().collect::<Vec<_>>();
        t = match e {
            Edit::Del(p) => edit(t, &mut k, *p as usize % n, &mut |_| vec![]),
            Edit::Dup(p) => edit(t, &mut k, *p as usize % n, &mut |x| vec![x.clone(), x]),
            Edit::Put(p, s) => edit(t, &mut k, *p as usize % n, &mut |x| { let mut v = toks(s); v.push(x); v }),
            Edit::Rep(p, s) => edit(t, &mut k, *p as usize % n, &mut |_| toks(s)),
            Edit::Wrap(p, d) => { let d = [Delimiter::Brace, Delimiter::Parenthesis, Delimiter::Bracket, Delimiter::None][*d as usize % 4]; edit(t, &mut k, *p as usize % n, &mut |x| vec![TokenTree::Group(Group::new(d, x.into()))]) }
            Edit::Swap(a, b) => {
                let mut top: Vec<TokenTree> = t.into_iter().collect();
                if !top.is_empty() { let l = top.len(); top.swap(*a as usize % l, *b as usize % l); }
                top.into_iter().collect()
            }
        };
    }
    t
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Mutated { inv: Inv, edits: Vec<Edit>, other: usize }
fn text_of(inv: &Inv) -> String {
    // as written directly, not from inside another macro
    Inv { wrap: 0, ..inv.clone() }.args(&mut String::new(), &mut String::new())
}
fn mutated(c: &Mutated, o: &mut Obs) -> Res {
    let t = lex(&text_of(&c.inv)).ok_or("harness: generated invocation does not lex")?;
    let t = apply(t, &c.edits);
    o.nontrivial_if(true);
    for f in [index(c.inv.mk, c.inv.map), c.other % 9] {
        let ok = judge_shape(f, t.clone())?;
        o.label(match shaped(f, &t) { Some(true) => "shaped like an invocation", Some(false) => "misshapen", None => "shape left open" });
        o.label(if ok { "accepted" } else { "rejected" });
    }
    Ok(())
}
fn regroup(t: TokenStream, depth: u8) -> TokenStream {
    use proc_macro2::{Delimiter, Group, TokenTree};
    t.into_iter().map(|x| match x {
        TokenTree::Group(g) if depth == 0 && g.delimiter() == Delimiter::Brace => TokenTree::Group(Group::new(Delimiter::Brace, regroup(g.stream(), 1))),
        TokenTree::Literal(l) if depth == 1 => TokenTree::Group(Group::new(Delimiter::None, TokenTree::Literal(l).into())),
        x => x,
    }).collect()
}
/// Does evaluation at macro time accept these literals? (Out-of-range ones are left to rejection tests.)
fn valid(inv: &Inv, o: &mut Obs) -> Res {
    let text = text_of(inv);
    let t = lex(&text).ok_or("harness: generated invocation does not lex")?;
    o.nontrivial_if(!inv.ents.is_empty());
    for l in inv.labels() { o.label(&l); }
    if inv.wrap % 5 != 0 {
        // what another macro passes on arrives in invisible groups
        let g = regroup(t.clone(), 0);
        ensure!(judge(index(inv.mk, inv.map), g)?, "{}! rejects the well-formed `{text}` when its literals are in invisible groups", inv.mk.name(inv.map));
        o.label("literals in invisible groups");
    }
    ensure!(shaped(index(inv.mk, inv.map), &t) != Some(false) || inv.ents.is_empty(), "harness: `{text}` is taken for misshapen");
    ensure!(judge(index(inv.mk, inv.map), t)?, "{}! rejects the well-formed `{text}`: {}", inv.mk.name(inv.map), front(index(inv.mk, inv.map), lex(&text).unwrap()).unwrap_err());
    Ok(())
}

// ---------------------------------------------------------------- clearly malformed
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bad { inv: Inv, defect: u8, at: u16, n: u64, s: String }
const DEFECTS: [&str; 14] = ["conflicting suffixes", "string in scalar macro", "integer in string macro", "out of range", "unknown suffix", "empty short form", "missing value", "value in a set", "missing comma", "no payload", "visibility without static", "unsupported literal", "trailing tokens", "missing type arguments"];
fn bad_text(c: &Bad) -> Option<(usize, String)> {
    let mut inv = c.inv.clone();
    // literal keys only
    inv.ents.iter_mut().for_each(|e| { e.style = 0; if is_int(inv.kt) { e.k = e.k.trim_start_matches('-').to_string(); } });
    let n = inv.ents.len();
    let f = index(inv.mk, inv.map);
    let val = if inv.map { ": 5" } else { "" };
    let put = |inv: &Inv, key: &str| {
        // the payload with an extra entry
        let t = text_of(inv);
        let (head, body) = t.split_at(t.find('{').unwrap());
        let body = body.trim_start_matches('{');
        format!("{head}{{ {key}{val}, {body}")
    };
    Some(match DEFECTS[c.defect as usize % DEFECTS.len()] {
        "conflicting suffixes" if is_int(inv.kt) => {
            let other = INTS[(inv.kt as usize + 1 + c.at as usize % 9) % 10];
            (f, put(&inv, &format!("1{other}, 2{}", INTS[inv.kt as usize]).replace(", ", &format!("{val}, "))))
        }
        "string in scalar macro" if inv.mk == Mk::Scalar => (f, put(&inv, &format!("{:?}", c.s))),
        "integer in string macro" if inv.mk == Mk::Str => (f, put(&inv, &(c.n % 1000).to_string())),
        "out of range" if is_int(inv.kt) => {
            let (_, hi) = bounds(inv.kt);
            let v = hi + 1 + i128::from(c.n);
            (f, put(&inv, &format!("{v}{}", INTS[inv.kt as usize])))
        }
        "unknown suffix" if inv.kt != STR => (f, put(&inv, &format!("{}{}", c.n % 100, ["iXXX", "u9", "i128", "u128", "usized", "zz"][c.at as usize % 6]))),
        "unknown suffix" if inv.mk != Mk::Str => (f, put(&Inv { ents: vec![], ..inv.clone() }, "3zz")),
        "empty short form" => (f, "{ }".into()),
        "missing value" if inv.map => { inv.ents.clear(); (f, text_of(&inv).replace("{  }", &format!("{{ {} }}", if inv.mk == Mk::Str { "\"a\"" } else { "1" }))) }
        "value in a set" if !inv.map => { inv.ents.clear(); (f, text_of(&inv).replace("{  }", &format!("{{ {}: 1 }}", if inv.mk == Mk::Str { "\"a\"" } else { "1" }))) }
        "missing comma" if n >= 1 => { let k = if inv.mk == Mk::Str { "\"a\" \"b\"" } else { "1 2" }; inv.ents.clear(); (f, text_of(&inv).replace("{  }", &format!("{{ {k}{val} }}"))) }
        "no payload" if inv.form != Form::Short => { let t = text_of(&inv); (f, t[..t.find('{').unwrap()].to_string()) }
        "visibility without static" if inv.form == Form::Short => (f, format!("pub {}", text_of(&inv))),
        "visibility without static" if matches!(inv.form, Form::Let | Form::LetMut) => (f, format!("pub(crate) {}", text_of(&inv))),
        "unsupported literal" => (f, put(&inv, ["1.5", "'c'", "b'x'", "b\"xy\"", "true", "2.0f64", "c\"z\""][c.at as usize % 7])),
        "trailing tokens" => (f, format!("{} {}", text_of(&inv), ["x", ", { 1 }", "{ }", "5", ", ,"][c.at as usize % 5])),
        "missing type arguments" if inv.form != Form::Short => { let t = text_of(&inv); let (a, b) = (t.find('<').unwrap(), t[..t.find('{').unwrap()].rfind(">,").unwrap()); (f, format!("{}{}", &t[..a], &t[b + 1..])) }
        _ => return None,
    })
}
fn bad(c: &Bad, o: &mut Obs) -> Res {
    let Some((f, text)) = bad_text(c) else {
        o.label("defect does not apply");
        return Ok(());
    };
    let t = lex(&text).ok_or_else(|| format!("harness: does not lex: {text}"))?;
    o.nontrivial_if(true);
    let d = DEFECTS[c.defect as usize % DEFECTS.len()];
    o.label(d);
    ensure!(!judge(f, t)?, "{}! accepts `{text}` ({d})", NAMES[f]);
    Ok(())
}

// ---------------------------------------------------------------- the derive
#[derive(Clone, Debug, Serialize, Deserialize)]
struct En { vis: u8, name: String, variants: Vec<(String, u8)>, generics: u8, attrs: bool, shape: u8 }
fn en(c: &En, o: &mut Obs) -> Res {
    let mut names: Vec<String> = vec![];
    let mut body = String::new();
    let mut ok = true;
    for (n, d) in &c.variants {
        if names.contains(n) { continue; }
        names.push(n.clone());
        if c.attrs { body += "#[doc = \"x\"] "; }
        body += n;
        match d { 240..=244 => { body += "(u8)"; ok = false; } 245..=248 => { body += " { x: u8 }"; ok = false; } 249 => { body += "()"; ok = false; } 250 => { body += " {}"; ok = false; } 251 => { body += " = 7"; ok = false; } 252 => { body += [" = 3 - 1", " = -1", " = X"][names.len() % 3]; ok = false; } 253 => { body += " = 0"; ok = false; } _ => {} }
        body += ", ";
    }
    if names.is_empty() { ok = false; }
    let vis = ["", "pub", "pub(crate)"][c.vis as usize % 3];
    let attr = if c.attrs { "#[repr(u8)] #[derive(Clone)]" } else { "" };
    let text = match c.shape {
        0 => { ok = false; format!("{attr} {vis} struct {} {{ x: u8 }}", c.name) }
        1 => { ok = false; format!("{attr} {vis} struct {};", c.name) }
        2 => { ok = false; format!("{attr} {vis} union {} {{ x: u8 }}", c.name) }
        _ => format!("{attr} {vis} enum {} {{ {body} }}", c.name),
    };
    let t = lex(&text).ok_or_else(|| format!("harness: does not lex {text}"))?;
    o.nontrivial_if(names.len() >= 2);
    o.label(if ok { "valid enum" } else { "invalid" });
    ensure!(judge(8, t.clone())? == ok, "derive(Scalar) {} `{text}`", if ok { "rejects" } else { "accepts" });
    if ok {
        // variants are numbered from zero in declaration order
        let out = derive_scalar_macro(t).unwrap();
        let file: syn::File = syn::parse2(out.clone()).map_err(|e| format!("{e}: {out}"))?;
        let [syn::Item::Impl(i)] = &file.items[..] else { return Err(format!("derive emits something other than one impl: {out}")) };
        ensure!(i.self_ty.to_token_stream().to_string() == c.name, "derive implements for {}", i.self_ty.to_token_stream());
    }
    Ok(())
}
fn ident() -> impl Strategy<Value = String> + Clone {
    prop_oneof![5 => proptest::sample::select(vec!["A", "B", "C", "Red", "Green", "r#type", "r#Self_", "Ünï", "X1", "_y"]).prop_map(String::from), 2 => (0u32..300).prop_map(|n| format!("V{n}"))]
}
fn main() {
    vh::runner::main("P17", vec![
        sub("soup", 60_000, 2_000_000, || soup_text().prop_map(|text| Soup { front: 0, text }), soup, "token soup with nesting, fed to all nine front ends: no panic, accepted output parses as Rust, errors have a message; non-trivial: at least one token."),
        sub("mutated", 60_000, 2_000_000, || (prop_oneof![inv(false), inv(true)], edits(), 0usize..9).prop_map(|(inv, edits, other)| Mutated { inv, edits, other }), mutated, "well-formed invocations with 1-3 token edits (delete, duplicate, swap, insert, replace, wrap), fed to their own and another front end."),
        sub("valid", 32_000, 500_000, || prop_oneof![inv(false), inv(true)], valid, "well-formed invocations of all macros and forms must be accepted; non-trivial: at least one entry."),
        sub("malformed", 48_000, 1_000_000, || (inv(false), 0u8..14, any::<u16>(), prop_oneof![0u64..3, any::<u64>()], vh::keys::text(5)).prop_map(|(inv, defect, at, n, s)| Bad { inv, defect, at, n, s }), bad, "well-formed invocations given exactly one of 14 defects must be rejected."),
        sub("derive", 20_000, 200_000, || (0u8..3, ident(), vec((ident(), any::<u8>()), 0..12), 0u8..3, any::<bool>(), 0u8..20).prop_map(|(vis, name, variants, generics, attrs, shape)| En { vis, name, variants, generics, attrs, shape }), en, "enums with unit variants must be accepted, other shapes rejected; non-trivial: at least 2 variants."),
    ]);
}
