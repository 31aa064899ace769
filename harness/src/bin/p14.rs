use vh::inv::*;
use vh::progs::programs;
fn main() {
    let mut fixed = vec![
        Inv { mk: Mk::Scalar, map: true, form: Form::Let, kt: 1, suffix: 1, ents: vec![Ent { k: "1".into(), spell: 0, style: 0, v: 1 }, Ent { k: "255".into(), spell: 1, style: 0, v: 2 }], trailing: false, probes: vec!["0".into(), "254".into()], wrap: 0 },
        Inv { mk: Mk::Hash, map: false, form: Form::Static(1), kt: 7, suffix: 1, ents: (0..5).map(|i| Ent { k: (5_000_000_000u64 + i * 1_000_000_007).to_string(), spell: 4, style: 0, v: 0 }).collect(), trailing: true, probes: vec!["0".into()], wrap: 0 },
    ];
    fixed.extend(boundary_invs());
    vh::runner::main_with("P14", vec![], programs("P14", "programs", 2500, 40_000, fixed, || inv(false),
        "each case is a macro invocation over literal keys (8 macros, 10 integer types and strings, all spellings and suffix modes, all declaration forms, 0-300 entries with duplicates), compiled against the repository and queried for every key and near-miss probes; non-trivial: at least 2 distinct keys."));
}
