//! Cases that are programs: rendered to Rust modules, compiled against the repository, executed.
use crate::runner::{Extra, Failure, ProgCheck, Res, case_seed, verif_dir};
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{Serialize, de::DeserializeOwned};
use std::collections::{BTreeMap, HashSet};
use std::fmt::{Debug, Write};
use std::path::PathBuf;
use std::process::Command;
use std::time::{Duration, Instant};

pub trait ProgCase: Clone + Debug + Serialize + DeserializeOwned + Send + Sync + 'static {
    /// The body of a module that defines `pub fn run() -> Result<(), String>`; `crate::rt` holds the oracles.
    /// `Err` is a violation found while rendering (an emitter run in process).
    fn render(&self) -> Result<String, String>;
    /// Simpler variants, most aggressive first.
    fn simpler(&self) -> Vec<Self>;
    fn labels(&self) -> Vec<String>;
    fn nontrivial(&self) -> bool;
    /// The signature of the recorded finding this failure is an instance of.
    fn finding(&self, _msg: &str) -> Option<String> {
        None
    }
}

const BINS: usize = 8;
fn dir(id: &str) -> PathBuf {
    verif_dir().join("gen").join(id.to_lowercase())
}
fn target() -> PathBuf {
    verif_dir().join("harness/target")
}
const RT: &str = include_str!("prog_rt.rs.txt");

/// Compiles and runs all modules; `None` where the case held.
pub fn evaluate(id: &str, sources: &[Result<String, String>]) -> Result<Vec<Option<String>>, String> {
    let mut out: Vec<Option<String>> = sources.iter().map(|s| s.as_ref().err().cloned()).collect();
    let d = dir(id);
    std::fs::create_dir_all(d.join("src/bin")).map_err(|e| e.to_string())?;
    let low = id.to_lowercase();
    std::fs::write(
        d.join("Cargo.toml"),
        format!(
            "[package]\nname = \"gen_{low}\"\nversion = \"0.1.0\"\nedition = \"2024\"\npublish = false\n\n[workspace]\n\n[dependencies]\nfrozen-collections = {{ path = \"/repo/frozen-collections\" }}\nserde = {{ version = \"1\", features = [\"derive\"] }}\n\n[profile.dev]\nopt-level = 1\ndebug = 0\ndebug-assertions = true\noverflow-checks = true\nincremental = false\ncodegen-units = 16\n\n[profile.dev.package.gen_{low}]\nopt-level = 0\n"
        ),
    )
    .map_err(|e| e.to_string())?;
    std::fs::copy(verif_dir().join("harness/Cargo.lock"), d.join("Cargo.lock")).map_err(|e| e.to_string())?;
    for round in 0..6 {
        let live: Vec<usize> = (0..sources.len()).filter(|i| out[*i].is_none()).collect();
        if live.is_empty() {
            return Ok(out);
        }
        // write the bins
        let bins = BINS.min(live.len().div_ceil(4)).max(1);
        let mut ranges: Vec<(usize, usize, usize, usize)> = vec![]; // (bin, first line, last line, case)
        for b in 0..BINS {
            let f = d.join(format!("src/bin/{low}_b{b}.rs"));
            if b >= bins {
                let _ = std::fs::remove_file(f);
                continue;
            }
            let mut s = String::from("#![allow(warnings, text_direction_codepoint_in_literal, text_direction_codepoint_in_comment, overflowing_literals)]\n");
            let mine: Vec<usize> = live.iter().copied().skip(b).step_by(bins).collect();
            let mut line = 2;
            for i in &mine {
                let src = sources[*i].as_ref().unwrap();
                let m = format!("mod c{i} {{\n#![allow(warnings)]\n{src}\n}}\n");
                let n = m.matches('\n').count();
                ranges.push((b, line, line + n - 1, *i));
                line += n;
                s += &m;
            }
            s += "mod rt {\n";
            s += RT;
            s += "}\nfn main() { rt::main(&[";
            for i in &mine {
                let _ = write!(s, "({i}, c{i}::run as fn() -> Result<(), String>), ");
            }
            s += "]); }\n";
            std::fs::write(f, s).map_err(|e| e.to_string())?;
        }
        let o = Command::new("cargo")
            .args(["build", "--offline", "--message-format=json", "--bins", "--keep-going"])
            .current_dir(&d)
            .env("CARGO_TARGET_DIR", target())
            .env("CARGO_NET_OFFLINE", "true")
            .output()
            .map_err(|e| e.to_string())?;
        let mut bad: BTreeMap<usize, String> = BTreeMap::new();
        let mut stray = vec![];
        for l in String::from_utf8_lossy(&o.stdout).lines() {
            let Ok(v) = serde_json::from_str::<serde_json::Value>(l) else { continue };
            if v["reason"] != "compiler-message" || v["message"]["level"] != "error" {
                continue;
            }
            let m = &v["message"];
            let spans = m["spans"].as_array().cloned().unwrap_or_default();
            let mut hit = false;
            for sp in &spans {
                let mut sp = sp;
                loop {
                    let f = sp["file_name"].as_str().unwrap_or("");
                    let ln = sp["line_start"].as_u64().unwrap_or(0) as usize;
                    for (b, lo, hi, i) in &ranges {
                        if f.ends_with(&format!("{low}_b{b}.rs")) && *lo <= ln && ln <= *hi {
                            bad.entry(*i).or_insert_with(|| format!("does not compile: {}", m["rendered"].as_str().unwrap_or("").chars().take(900).collect::<String>()));
                            hit = true;
                        }
                    }
                    if sp["expansion"].is_object() { sp = &sp["expansion"]["span"]; } else { break; }
                }
            }
            let text = m["message"].as_str().unwrap_or("");
            if !hit && !text.starts_with("aborting due to") && !text.starts_with("could not compile") {
                stray.push(m["rendered"].as_str().unwrap_or("").chars().take(900).collect::<String>());
            }
        }
        if !o.status.success() {
            if bad.is_empty() {
                return Err(format!("generated programs do not build: {} {}", stray.join("\n"), String::from_utf8_lossy(&o.stderr).lines().rev().take(12).collect::<Vec<_>>().join("\n")));
            }
            for (i, m) in bad {
                out[i] = Some(m);
            }
            if round < 5 {
                continue;
            }
        }
        // run; a case that kills the process is attributed and the rest rerun
        let done: std::sync::Mutex<Vec<(usize, Option<String>)>> = std::sync::Mutex::new(vec![]);
        let errs: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(vec![]);
        std::thread::scope(|sc| {
            for b in 0..bins {
                let (done, errs, ranges, low, live) = (&done, &errs, &ranges, &low, &live);
                sc.spawn(move || {
                    let exe = target().join("debug").join(format!("{low}_b{b}"));
                    let want: Vec<usize> = ranges.iter().filter(|r| r.0 == b && live.contains(&r.3)).map(|r| r.3).collect();
                    let mut from = 0;
                    while from < want.len() {
                        let p = Command::new("timeout").arg("120").arg(&exe).arg(want[from].to_string()).env("RUST_BACKTRACE", "0").output();
                        let p = match p {
                            Ok(p) => p,
                            Err(e) => { errs.lock().unwrap().push(e.to_string()); return; }
                        };
                        let so = String::from_utf8_lossy(&p.stdout).into_owned();
                        let mut cur = None;
                        let mut got = HashSet::new();
                        for l in so.lines() {
                            if let Some(n) = l.strip_prefix("START ").and_then(|x| x.parse::<usize>().ok()) { cur = Some(n); }
                            if let Some(n) = l.strip_prefix("OK ").and_then(|x| x.parse::<usize>().ok()) { done.lock().unwrap().push((n, None)); got.insert(n); cur = None; }
                            if let Some(r) = l.strip_prefix("FAIL ") {
                                let (n, m) = r.split_once(' ').unwrap_or((r, ""));
                                if let Ok(n) = n.parse::<usize>() { done.lock().unwrap().push((n, Some(m.to_string()))); got.insert(n); cur = None; }
                            }
                        }
                        if p.status.success() && cur.is_none() {
                            if want[from..].iter().any(|i| !got.contains(i)) { errs.lock().unwrap().push(format!("bin {b} skipped cases")); }
                            return;
                        }
                        let Some(c) = cur else {
                            errs.lock().unwrap().push(format!("bin {b} ended with {} outside any case: {}", p.status, String::from_utf8_lossy(&p.stderr)));
                            return;
                        };
                        let tail: String = String::from_utf8_lossy(&p.stderr).lines().rev().take(3).collect::<Vec<_>>().join(" | ");
                        let what = if p.status.code() == Some(124) { "does not terminate".to_string() } else { format!("process died ({})", p.status) };
                        done.lock().unwrap().push((c, Some(format!("{what}: {tail}"))));
                        from = want.iter().position(|x| *x == c).unwrap_or(want.len()) + 1;
                    }
                });
            }
        });
        let errs = errs.into_inner().unwrap();
        if !errs.is_empty() {
            return Err(errs.join("; "));
        }
        for (i, r) in done.into_inner().unwrap() {
            out[i] = r;
        }
        return Ok(out);
    }
    Ok(out)
}

pub struct Programs<C> {
    pub id: String,
    pub name: String,
    pub rule: String,
    pub quick: u64,
    pub thorough: u64,
    pub batch: u64,
    pub strat: Box<dyn Fn() -> BoxedStrategy<C> + Send + Sync>,
    /// fixed corpus run first (regressions and recorded findings)
    pub fixed: Vec<C>,
}
impl<C: ProgCase> Programs<C> {
    fn gen_case(&self, s: &BoxedStrategy<C>, seed: u64, idx: u64) -> C {
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &case_seed(seed, &self.name, idx));
        let mut r = TestRunner::new_with_rng(Config { failure_persistence: None, ..Config::default() }, rng);
        s.new_tree(&mut r).expect("generator").current()
    }
    fn shrink(&self, first: C, msg: String) -> (C, String, u64) {
        let t0 = Instant::now();
        let (mut best, mut msg, mut steps) = (first, msg, 0);
        while t0.elapsed() < Duration::from_secs(90) && steps < 12 {
            steps += 1;
            let mut cand = best.simpler();
            cand.truncate(24);
            if cand.is_empty() {
                break;
            }
            let src: Vec<_> = cand.iter().map(ProgCase::render).collect();
            let Ok(r) = evaluate(&self.id, &src) else { break };
            // stay with the same kind of failure
            let kind = |m: &str| m.starts_with("does not compile");
            match r.iter().position(|x| x.as_ref().is_some_and(|m| kind(m) == kind(&msg))) {
                Some(i) => {
                    best = cand.swap_remove(i);
                    msg = r[i].clone().unwrap();
                }
                None => break,
            }
        }
        (best, msg, steps)
    }
}
impl<C: ProgCase> ProgCheck for Programs<C> {
    fn name(&self) -> &str {
        &self.name
    }
    fn run(&self, seed: u64, thorough: bool, scale: u64) -> Result<Extra, String> {
        let strat = (self.strat)();
        let mut e = Extra::new();
        e.rules.push(format!("[{}] {}", self.name, self.rule));
        let total = (if thorough { self.thorough } else { self.quick } * scale / 100).max(1);
        let listed = crate::runner::known_findings(&self.id);
        let mut known: BTreeMap<String, String> = BTreeMap::new();
        let mut seen = HashSet::new();
        let mut at = 0;
        while at < total {
            let to = (at + self.batch).min(total);
            let mut cases: Vec<C> = vec![];
            if at == 0 {
                cases.extend(self.fixed.iter().cloned());
            }
            cases.extend((at..to).map(|i| self.gen_case(&strat, seed, i)));
            at = to;
            let src: Vec<_> = cases.iter().map(ProgCase::render).collect();
            let res = evaluate(&self.id, &src)?;
            for (c, r) in cases.iter().zip(&res) {
                e.evaluations += 1;
                for l in c.labels() {
                    *e.labels.entry(l).or_default() += 1;
                }
                if c.nontrivial() && seen.insert(serde_json::to_string(c).unwrap()) {
                    e.nontrivial += 1;
                    let v = serde_json::to_value(c).unwrap();
                    if e.samples.len() < 4 && v.to_string().len() < 1200 {
                        e.samples.push(serde_json::json!({"sub": self.name, "case": v}));
                    }
                }
                if let Some(m) = r {
                    if let Some(f) = c.finding(m).filter(|f| listed.contains(f)) {
                        *e.labels.entry(format!("known finding: {f}")).or_default() += 1;
                        known.entry(f).or_insert_with(|| m.clone());
                    } else if e.failure.is_none() {
                        let (case, msg, steps) = self.shrink(c.clone(), m.clone());
                        e.failure = Some(Failure { sub: self.name.clone(), case: serde_json::to_value(&case).unwrap(), message: format!("{msg}\n{}", case.render().unwrap_or_default()), original_message: m.clone(), shrink_steps: steps });
                    }
                }
            }
            if e.failure.is_some() {
                break;
            }
        }
        e.known = known.into_iter().map(|(f, m)| format!("{f} ({})", m.replace('\n', " ").chars().take(160).collect::<String>())).collect();
        Ok(e)
    }
    fn replay(&self, case: &serde_json::Value) -> Res {
        let c: C = serde_json::from_value(case.clone()).map_err(|e| e.to_string())?;
        match evaluate(&self.id, &[c.render()]).map_err(|e| format!("cannot replay: {e}"))?.pop().flatten() {
            None => Ok(()),
            Some(m) => Err(m),
        }
    }
}
pub fn programs<C: ProgCase, S: Strategy<Value = C> + 'static>(id: &str, name: &str, quick: u64, thorough: u64, fixed: Vec<C>, strat: impl Fn() -> S + Send + Sync + 'static, rule: &str) -> Option<Box<dyn ProgCheck>> {
    Some(Box::new(Programs { id: id.into(), name: name.into(), rule: rule.into(), quick, thorough, batch: 400, strat: Box::new(move || strat().boxed()), fixed }))
}
