use vh::inv::*;
use vh::progs::programs;
fn main() {
    let s = |k: &str, style| Ent { k: k.into(), spell: 0, style, v: k.len() as u32 };
    let fixed = vec![
        // the recorded finding: equal computed keys in a fixed-size collection
        Inv { mk: Mk::Hash, map: true, form: Form::Short, kt: 0, suffix: 0, ents: vec![s("1", 2), s("1", 2)], trailing: false, probes: vec!["0".into()], wrap: 0 },
        // the recorded finding: kinds of expressions the macros do not understand
        Inv { mk: Mk::Hash, map: false, form: Form::Short, kt: 0, suffix: 0, ents: vec![s("1", 9)], trailing: false, probes: vec!["0".into()], wrap: 0 },
        Inv { mk: Mk::Ordered, map: true, form: Form::Let, kt: 0, suffix: 0, ents: vec![s("1", 2), s("2", 2), s("3", 2), s("4", 2), s("1", 3)], trailing: false, probes: vec!["0".into()], wrap: 0 },
        Inv { mk: Mk::Str, map: true, form: Form::Let, kt: STR, suffix: 0, ents: vec![s("a", 2), s("bb", 0), s("ccc", 3), s("dddd", 4)], trailing: false, probes: vec!["".into()], wrap: 0 },
        Inv { mk: Mk::Str, map: false, form: Form::Static(2), kt: STR, suffix: 0, ents: vec![s("a", 2), s("bb", 0), s("ccc", 3), s("dddd", 4)], trailing: false, probes: vec!["".into()], wrap: 0 },
    ];
    vh::runner::main_with("P15", vec![], programs("P15", "programs", 2500, 40_000, fixed, || inv(true),
        "each case is a macro invocation whose keys are expressions (calls, constants, locals, arithmetic, blocks, negative numbers) or a mixture with literals, over integers, strings, enums, tuples, chars and owned strings, in every declaration form, compiled and queried; non-trivial: at least 2 distinct keys."));
}
