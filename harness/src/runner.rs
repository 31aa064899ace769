//! Runs generated cases against an oracle, in child processes, with shrinking and replay.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{Deserialize, Serialize, de::DeserializeOwned};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::Hasher;
use std::io::Write;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

/// What a case did: labels for the distribution, and whether it was non-trivial.
#[derive(Default)]
pub struct Obs {
    pub labels: BTreeMap<String, u64>,
    pub nontrivial: bool,
}
impl Obs {
    pub fn label(&mut self, l: &str) {
        if let Some(x) = self.labels.get_mut(l) {
            *x += 1;
        } else {
            self.labels.insert(l.to_string(), 1);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &str) {
        if c {
            self.label(l);
        }
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        if c {
            self.nontrivial = true;
        }
    }
}

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($m:tt)*) => {{ let (a, b) = (&$a, &$b); if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($m)*), a, b)); } }};
}

thread_local! {
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_quiet_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string panic>".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        // a panic that can't unwind aborts the process; leave a trace for the parent
        if m.contains("unsafe precondition") || m.contains("cannot unwind") || m.contains("misaligned pointer") || m.contains("null pointer") {
            eprintln!("FATAL-PANIC {m} at {loc}");
        }
        let _ = PANIC_MSG.try_with(|p| *p.borrow_mut() = format!("panic: {m} (at {loc})"));
    }));
}

/// Runs `f`; a panic becomes `Err(message)`.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(_) => Err(PANIC_MSG.with(|p| p.borrow().clone())),
    }
}

pub trait SubCheck: Send + Sync {
    fn name(&self) -> &str;
    fn rule(&self) -> &str;
    fn cases(&self, thorough: bool) -> u64;
    fn run(&self, seed: u64, from: u64, to: u64, progress: &mut dyn FnMut(u64)) -> SubResult;
    fn replay(&self, case: &serde_json::Value) -> Res;
    /// JSON of the case, then of simplification candidates, driven by `fails` (used when a case kills the process).
    fn shrink_external(&self, seed: u64, idx: u64, fails: &mut dyn FnMut(&serde_json::Value) -> bool) -> serde_json::Value;
}

#[derive(Serialize, Deserialize, Default, Clone)]
pub struct SubResult {
    pub evaluations: u64,
    pub nontrivial_hashes: Vec<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<serde_json::Value>,
    pub failure: Option<Failure>,
}
#[derive(Serialize, Deserialize, Clone)]
pub struct Failure {
    pub sub: String,
    pub case: serde_json::Value,
    pub message: String,
    pub original_message: String,
    pub shrink_steps: u64,
}

pub struct Sub<C> {
    pub name: String,
    pub rule: String,
    pub quick: u64,
    pub thorough: u64,
    pub strat: Box<dyn Fn() -> BoxedStrategy<C> + Send + Sync>,
    pub test: fn(&C, &mut Obs) -> Res,
}

pub fn case_seed(seed: u64, name: &str, idx: u64) -> [u8; 32] {
    let mut out = [0u8; 32];
    for (i, ch) in out.chunks_mut(8).enumerate() {
        #[allow(deprecated)]
        let mut h = std::hash::SipHasher::new_with_keys(seed, 0x5eed + i as u64);
        h.write(name.as_bytes());
        h.write_u64(idx);
        ch.copy_from_slice(&h.finish().to_le_bytes());
    }
    out
}
fn case_hash(v: &[u8]) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new_with_keys(1, 2);
    h.write(v);
    h.finish()
}

impl<C: Clone + Debug + Serialize + DeserializeOwned + 'static> Sub<C> {
    fn tree(&self, strat: &BoxedStrategy<C>, seed: u64, idx: u64) -> Box<dyn ValueTree<Value = C>> {
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &case_seed(seed, &self.name, idx));
        let mut runner = TestRunner::new_with_rng(Config { failure_persistence: None, ..Config::default() }, rng);
        strat.new_tree(&mut runner).expect("generator")
    }
    fn exec(&self, c: &C, obs: &mut Obs) -> Res {
        match guarded(|| (self.test)(c, obs)) {
            Ok(r) => r,
            Err(p) => Err(p),
        }
    }
}

impl<C: Clone + Debug + Serialize + DeserializeOwned + 'static> SubCheck for Sub<C> {
    fn name(&self) -> &str {
        &self.name
    }
    fn rule(&self) -> &str {
        &self.rule
    }
    fn cases(&self, thorough: bool) -> u64 {
        if thorough { self.thorough } else { self.quick }
    }
    fn run(&self, seed: u64, from: u64, to: u64, progress: &mut dyn FnMut(u64)) -> SubResult {
        let strat = (self.strat)();
        let mut out = SubResult::default();
        let mut seen = HashSet::new();
        for idx in from..to {
            progress(idx);
            let mut tree = self.tree(&strat, seed, idx);
            let case = tree.current();
            let mut obs = Obs::default();
            let r = self.exec(&case, &mut obs);
            out.evaluations += 1;
            for (k, v) in obs.labels {
                *out.labels.entry(k).or_default() += v;
            }
            if obs.nontrivial {
                let js = serde_json::to_vec(&case).expect("case json");
                if seen.insert(case_hash(&js)) && out.samples.len() < 2 && js.len() < 1500 && (idx - from) > 4 {
                    out.samples.push(serde_json::from_slice(&js).unwrap());
                }
            }
            if let Err(first) = r {
                let mut best = case;
                let mut msg = first.clone();
                let mut steps = 0;
                let t0 = Instant::now();
                if tree.simplify() {
                    loop {
                        if steps > 4000 || t0.elapsed() > Duration::from_secs(20) {
                            break;
                        }
                        steps += 1;
                        progress(idx);
                        let c = tree.current();
                        match self.exec(&c, &mut Obs::default()) {
                            Err(m) => {
                                best = c;
                                msg = m;
                                if !tree.simplify() {
                                    break;
                                }
                            }
                            Ok(()) => {
                                if !tree.complicate() {
                                    break;
                                }
                            }
                        }
                    }
                }
                out.failure = Some(Failure {
                    sub: self.name.clone(),
                    case: serde_json::to_value(&best).unwrap(),
                    message: msg,
                    original_message: first,
                    shrink_steps: steps,
                });
                break;
            }
        }
        out.nontrivial_hashes = seen.into_iter().collect();
        out
    }
    fn replay(&self, case: &serde_json::Value) -> Res {
        let c: C = serde_json::from_value(case.clone()).map_err(|e| format!("bad replay case: {e}"))?;
        self.exec(&c, &mut Obs::default())
    }
    fn shrink_external(&self, seed: u64, idx: u64, fails: &mut dyn FnMut(&serde_json::Value) -> bool) -> serde_json::Value {
        let strat = (self.strat)();
        let mut tree = self.tree(&strat, seed, idx);
        let mut best = serde_json::to_value(tree.current()).unwrap();
        let t0 = Instant::now();
        let mut steps = 0;
        if tree.simplify() {
            loop {
                steps += 1;
                if steps > 400 || t0.elapsed() > Duration::from_secs(30) {
                    break;
                }
                let v = serde_json::to_value(tree.current()).unwrap();
                if fails(&v) {
                    best = v;
                    if !tree.simplify() {
                        break;
                    }
                } else if !tree.complicate() {
                    break;
                }
            }
        }
        best
    }
}

pub fn sub<C, S>(name: &str, quick: u64, thorough: u64, strat: impl Fn() -> S + Send + Sync + 'static, test: fn(&C, &mut Obs) -> Res, rule: &str) -> Box<dyn SubCheck>
where
    C: Clone + Debug + Serialize + DeserializeOwned + 'static,
    S: Strategy<Value = C> + 'static,
{
    Box::new(Sub { name: name.into(), rule: rule.into(), quick, thorough, strat: Box::new(move || strat().boxed()), test })
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|x| x.trim().parse().ok()).unwrap_or(d)
}

pub fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

struct Job {
    sub: usize,
    from: u64,
    to: u64,
}
enum Outcome {
    Done(SubResult),
    Crash { sub: usize, idx: u64, from: u64, to: u64, stderr: String, status: String },
    Stuck { sub: usize, idx: u64 },
    Timeout(String),
}

/// A finding list line: `known: property=<id> signature=<text>`.
pub fn known_findings(id: &str) -> Vec<String> {
    let p = verif_dir().join("known-findings.txt");
    let Ok(t) = std::fs::read_to_string(p) else { return vec![] };
    let pre = format!("known: property={id} signature=");
    t.lines().filter_map(|l| l.strip_prefix(&pre).map(|s| s.trim().to_string())).collect()
}

pub struct Extra {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<serde_json::Value>,
    pub rules: Vec<String>,
    pub failure: Option<Failure>,
    pub known: Vec<String>,
}
impl Extra {
    pub fn new() -> Self {
        Self { evaluations: 0, nontrivial: 0, labels: BTreeMap::new(), samples: vec![], rules: vec![], failure: None, known: vec![] }
    }
}

/// Entry point of every property binary.
pub fn main(id: &str, subs: Vec<Box<dyn SubCheck>>) -> ! {
    main_with(id, subs, None)
}

/// A search whose cases are whole programs: generated, compiled against the repository and executed.
pub trait ProgCheck: Send + Sync {
    fn name(&self) -> &str;
    fn run(&self, seed: u64, thorough: bool, scale_pct: u64) -> Result<Extra, String>;
    fn replay(&self, case: &serde_json::Value) -> Res;
}

pub fn main_with(id: &str, subs: Vec<Box<dyn SubCheck>>, extra: Option<Box<dyn ProgCheck>>) -> ! {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(String::as_str) {
        Some("child") => child(&subs, &args[2..]),
        Some("one") => one(&subs, &args[2..]),
        Some("replay") => {
            install_quiet_hook();
            let v: serde_json::Value = serde_json::from_slice(&std::fs::read(&args[2]).expect("replay file")).expect("json");
            let name = v["sub"].as_str().unwrap_or_default();
            let r = if let Some(e) = extra.as_ref().filter(|e| e.name() == name) {
                e.replay(&v["case"])
            } else if let Some(s) = subs.iter().find(|s| s.name() == name) {
                s.replay(&v["case"])
            } else {
                eprintln!("no sub-check {name}");
                std::process::exit(2)
            };
            match r {
                Ok(()) => {
                    println!("replay passes");
                    std::process::exit(0)
                }
                Err(m) => {
                    println!("VIOLATION property={id} replay={}\n{m}", args[2]);
                    std::process::exit(1)
                }
            }
        }
        _ => parent(id, &subs, extra),
    }
}

fn child(subs: &[Box<dyn SubCheck>], a: &[String]) -> ! {
    install_quiet_hook();
    let sub: usize = a[0].parse().unwrap();
    let seed: u64 = a[1].parse().unwrap();
    let (from, to): (u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap());
    let out = Path::new(&a[4]);
    let prog = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(out.with_extension("prog")).unwrap();
    use std::os::unix::fs::FileExt;
    // cases run on a thread with a generous stack
    let r = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(s, || {
                let mut beat = 0u64;
                subs[sub].run(seed, from, to, &mut |i| {
                    beat += 1;
                    let mut b = [0u8; 16];
                    b[..8].copy_from_slice(&i.to_le_bytes());
                    b[8..].copy_from_slice(&beat.to_le_bytes());
                    let _ = prog.write_at(&b, 0);
                })
            })
            .unwrap()
            .join()
    });
    match r {
        Ok(r) => {
            std::fs::write(out, serde_json::to_vec(&r).unwrap()).unwrap();
            std::process::exit(0)
        }
        Err(_) => {
            eprintln!("harness thread panicked: {}", PANIC_MSG.with(|p| p.borrow().clone()));
            std::process::exit(3)
        }
    }
}

/// `one <sub> <casefile>`: exit 0 holds, 10 fails; dies if the case kills the process.
fn one(subs: &[Box<dyn SubCheck>], a: &[String]) -> ! {
    install_quiet_hook();
    let v: serde_json::Value = serde_json::from_slice(&std::fs::read(&a[1]).unwrap()).unwrap();
    let s = subs.iter().find(|s| s.name() == a[0]).expect("sub");
    let r = std::thread::scope(|sc| std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, || s.replay(&v)).unwrap().join().unwrap());
    std::process::exit(if r.is_ok() { 0 } else { 10 })
}

/// A single case normally takes milliseconds; one that makes no progress for this long does not terminate.
const STUCK: Duration = Duration::from_secs(60);

fn beat(out: &Path) -> [u8; 16] {
    std::fs::read(out.with_extension("prog")).ok().and_then(|b| b.try_into().ok()).unwrap_or([0; 16])
}
fn at_case(out: &Path, from: u64) -> u64 {
    let b = beat(out);
    if b == [0; 16] { from } else { u64::from_le_bytes(b[..8].try_into().unwrap()) }
}

fn run_job(tmp: &Path, n: usize, seed: u64, j: &Job, limit: Duration) -> Outcome {
    use std::os::unix::process::ExitStatusExt;
    let out = tmp.join(format!("job{n}.json"));
    let errp = tmp.join(format!("job{n}.err"));
    let mut c = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["child", &j.sub.to_string(), &seed.to_string(), &j.from.to_string(), &j.to.to_string()])
        .arg(&out)
        .env("RUST_BACKTRACE", "0")
        .stdout(std::process::Stdio::null())
        .stderr(std::fs::File::create(&errp).unwrap())
        .spawn()
        .unwrap();
    let t0 = Instant::now();
    let (mut last, mut since) = ([0u8; 16], Instant::now());
    let mut polls = 0u32;
    let st = loop {
        if let Some(s) = c.try_wait().unwrap() {
            break s;
        }
        polls += 1;
        if polls % 256 == 0 {
            let b = beat(&out);
            if b != last {
                (last, since) = (b, Instant::now());
            }
        }
        if since.elapsed() > STUCK {
            let _ = c.kill();
            let _ = c.wait();
            return Outcome::Stuck { sub: j.sub, idx: at_case(&out, j.from) };
        }
        if t0.elapsed() > limit {
            let _ = c.kill();
            let _ = c.wait();
            return Outcome::Timeout(format!("sub {} case {} exceeded the watchdog", j.sub, at_case(&out, j.from)));
        }
        std::thread::sleep(Duration::from_millis(3));
    };
    if st.success() {
        return Outcome::Done(serde_json::from_slice(&std::fs::read(&out).unwrap()).unwrap());
    }
    let stderr = String::from_utf8_lossy(&std::fs::read(&errp).unwrap_or_default()).into_owned();
    let idx = at_case(&out, j.from);
    let sig = st.signal();
    if st.code() == Some(3) || sig == Some(9) {
        return Outcome::Timeout(format!("child of sub {} case {idx} ended with {st}: {stderr}", j.sub));
    }
    Outcome::Crash { sub: j.sub, idx, from: j.from, to: j.to, stderr, status: format!("{st}") }
}

fn parent(id: &str, subs: &[Box<dyn SubCheck>], extra: Option<Box<dyn ProgCheck>>) -> ! {
    let t0 = Instant::now();
    let seed = env_u64("VERIF_SEED", 1);
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let scale = env_u64("VH_SCALE_PCT", 100);
    let vd = verif_dir();
    let tmp = std::env::temp_dir().join(format!("vh-{id}-{}", std::process::id()));
    std::fs::create_dir_all(&tmp).unwrap();
    let only = std::env::var("VH_ONLY").ok();

    let mut jobs = vec![];
    for (i, s) in subs.iter().enumerate() {
        if only.as_ref().is_some_and(|o| !s.name().contains(o.as_str())) {
            continue;
        }
        let n = (s.cases(thorough) * scale / 100).max(1);
        let shards = if s.name().contains("large") { n.min(16) } else { 8.min(n.div_ceil(200)) }.max(1);
        for k in 0..shards {
            jobs.push(Job { sub: i, from: n * k / shards, to: n * (k + 1) / shards });
        }
    }
    let limit = Duration::from_secs(if thorough { 6 * 3600 } else { 700 });
    let next = std::sync::atomic::AtomicUsize::new(0);
    let results = std::sync::Mutex::new(Vec::<(usize, Outcome)>::new());
    let extra_res = std::sync::Mutex::new(None);
    std::thread::scope(|s| {
        if let Some(e) = extra.as_ref().filter(|e| only.as_ref().is_none_or(|o| e.name().contains(o.as_str()))) {
            let er = &extra_res;
            s.spawn(move || {
                *er.lock().unwrap() = Some(e.run(seed, thorough, scale));
            });
        }
        for _ in 0..8 {
            s.spawn(|| loop {
                let n = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if n >= jobs.len() {
                    break;
                }
                let o = run_job(&tmp, n, seed, &jobs[n], limit);
                results.lock().unwrap().push((n, o));
            });
        }
    });
    let mut results = results.into_inner().unwrap();
    // cases that failed in process first: they need no attribution
    results.sort_by_key(|x| (!matches!(x.1, Outcome::Done(_)), x.0));

    let mut evaluations = 0;
    let mut per_sub: BTreeMap<String, (u64, HashSet<u64>, BTreeMap<String, u64>)> = BTreeMap::new();
    let mut samples = vec![];
    let mut failures: Vec<Failure> = vec![];
    let mut errors: Vec<String> = vec![];
    for (n, o) in results {
        let name = subs[jobs[n].sub].name().to_string();
        match o {
            Outcome::Done(r) => {
                evaluations += r.evaluations;
                let e = per_sub.entry(name.clone()).or_default();
                e.0 += r.evaluations;
                let first = e.1.is_empty();
                e.1.extend(r.nontrivial_hashes);
                for (k, v) in r.labels {
                    *e.2.entry(k).or_default() += v;
                }
                if first && samples.len() < 40 {
                    samples.extend(r.samples.into_iter().map(|c| serde_json::json!({"sub": name, "case": c})));
                }
                failures.extend(r.failure);
            }
            Outcome::Timeout(m) => errors.push(format!("{name}: {m}")),
            Outcome::Stuck { .. } | Outcome::Crash { .. } if !failures.is_empty() => {}
            Outcome::Stuck { sub, idx } => {
                // on its own, with nothing else running: does the case still not end?
                let first = subs[sub].shrink_external(seed, idx, &mut |_| false);
                let cf = tmp.join("stuck.json");
                std::fs::write(&cf, serde_json::to_vec(&first).unwrap()).unwrap();
                let mut c = std::process::Command::new(std::env::current_exe().unwrap())
                    .args(["one", &name])
                    .arg(&cf)
                    .stdout(std::process::Stdio::null())
                    .stderr(std::process::Stdio::null())
                    .spawn()
                    .unwrap();
                let t = Instant::now();
                let ended = loop {
                    if c.try_wait().unwrap().is_some() {
                        break true;
                    }
                    if t.elapsed() > STUCK {
                        let _ = c.kill();
                        let _ = c.wait();
                        break false;
                    }
                    std::thread::sleep(Duration::from_millis(20));
                };
                if ended {
                    errors.push(format!("{name}: case {idx} was stuck but ends when run alone"));
                } else {
                    failures.push(Failure { sub: name.clone(), case: first, message: format!("the case does not terminate (no result after {} s, twice)", STUCK.as_secs()), original_message: String::new(), shrink_steps: 0 });
                }
            }
            Outcome::Crash { sub, idx, from, to, stderr, status } => {
                // attribute the crash: does the single case kill a fresh process?
                use std::os::unix::process::ExitStatusExt;
                let cf = tmp.join("crash.json");
                let dies = |v: &serde_json::Value| -> bool {
                    std::fs::write(&cf, serde_json::to_vec(v).unwrap()).unwrap();
                    let st = std::process::Command::new(std::env::current_exe().unwrap())
                        .args(["one", &name])
                        .arg(&cf)
                        .stdout(std::process::Stdio::null())
                        .stderr(std::process::Stdio::null())
                        .status()
                        .unwrap();
                    st.signal().is_some_and(|s| s != 9) || st.code() == Some(10)
                };
                let mut d = dies;
                let first = subs[sub].shrink_external(seed, idx, &mut |_| false);
                let tail: String = stderr.lines().filter(|l| !l.starts_with("note:")).rev().take(3).collect::<Vec<_>>().join(" | ");
                if d(&first) {
                    let best = subs[sub].shrink_external(seed, idx, &mut d);
                    failures.push(Failure { sub: name.clone(), case: best, message: format!("process died ({status}): {tail}"), original_message: String::new(), shrink_steps: 0 });
                } else {
                    // not this case alone: is it reproducible as a history of cases?
                    match run_job(&tmp, 1_000_000, seed, &Job { sub, from, to }, limit) {
                        Outcome::Crash { status, .. } => failures.push(Failure {
                            sub: name.clone(),
                            case: serde_json::json!({"seed": seed, "from": from, "upto": idx, "last": first}),
                            message: format!("process died after a history of cases ({status}): {tail}"),
                            original_message: String::new(),
                            shrink_steps: 0,
                        }),
                        _ => errors.push(format!("{name}: child died ({status}) at case {idx} and did not die again: {tail}")),
                    }
                }
            }
        }
    }
    let mut rules: Vec<String> = subs.iter().map(|s| format!("[{}] {}", s.name(), s.rule())).collect();
    let mut distinct: u64 = per_sub.values().map(|x| x.1.len() as u64).sum();
    let mut known = vec![];
    let mut extra_labels = BTreeMap::new();
    match extra_res.into_inner().unwrap() {
        Some(Ok(e)) => {
            evaluations += e.evaluations;
            distinct += e.nontrivial;
            samples.splice(0..0, e.samples);
            rules.extend(e.rules);
            failures.extend(e.failure);
            known = e.known;
            extra_labels = e.labels;
        }
        Some(Err(m)) => errors.push(m),
        None => {}
    }
    let _ = std::fs::remove_dir_all(&tmp);

    let mut code = 0;
    let mut lines = vec![];
    if !failures.is_empty() {
        let f = &failures[0];
        std::fs::create_dir_all(vd.join("replays")).unwrap();
        let js = serde_json::json!({"property": id, "sub": f.sub, "case": f.case, "message": f.message, "original_message": f.original_message, "shrink_steps": f.shrink_steps, "seed": seed});
        let p = vd.join("replays").join(format!("{id}-{}-{:016x}.json", f.sub, case_hash(&serde_json::to_vec(&f.case).unwrap())));
        std::fs::write(&p, serde_json::to_vec_pretty(&js).unwrap()).unwrap();
        for f in &failures {
            lines.push(format!("  [{}] {}", f.sub, f.message.chars().take(1500).collect::<String>()));
        }
        lines.push(format!("VIOLATION property={id} replay={}", p.display()));
        code = 1;
    } else if !errors.is_empty() {
        code = 2;
    }
    samples.truncate(24);
    let ev = serde_json::json!({
        "property": id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": rules.join(" "),
            "samples": samples,
            "per_sub": per_sub.iter().map(|(k, v)| (k.clone(), serde_json::json!({"evaluations": v.0, "distinct_nontrivial": v.1.len(), "labels": v.2}))).collect::<BTreeMap<_, _>>(),
            "programs": extra_labels,
        },
        "assumptions": ["the reference models are std collections (BTreeMap/HashMap) and plain sets", "debug-assertions build: unchecked operations of the standard library check their preconditions"],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": failures.len(),
    });
    std::fs::create_dir_all(vd.join("evidence")).unwrap();
    let mut f = std::fs::File::create(vd.join("evidence").join(format!("{id}.json"))).unwrap();
    f.write_all(&serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
    for k in known {
        println!("KNOWN-FINDING: property={id} {k}");
    }
    for e in &errors {
        println!("ERROR {e}");
    }
    for l in lines {
        println!("{l}");
    }
    println!("{id}: {evaluations} cases, {distinct} distinct non-trivial, {:.1}s, exit {code}", t0.elapsed().as_secs_f64());
    std::process::exit(code)
}
