//! The engine: generates cases with proptest strategies, runs each of them in
//! a thread of its own with deterministic entropy, shrinks the first failure,
//! writes a replay file and the evidence.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{mpsc, Arc, Mutex};
use std::time::{Duration, Instant};

pub const WORKERS: usize = 8;
/// A case that takes this long twice, the second time with the machine to
/// itself, does not terminate (they take milliseconds to a few seconds).
pub const CASE_LIMIT: Duration = Duration::from_secs(200);

pub type Res = Result<(), String>;

/// What a check notes about the case it ran.
#[derive(Default, Clone)]
pub struct Ctx {
    pub tags: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub stats: BTreeMap<String, Vec<u64>>,
}
impl Ctx {
    pub fn tag(&mut self, t: &str) {
        *self.tags.entry(t.to_string()).or_insert(0) += 1;
    }
    pub fn tag_n(&mut self, t: &str, n: u64) {
        *self.tags.entry(t.to_string()).or_insert(0) += n;
    }
    pub fn tag_if(&mut self, c: bool, t: &str) {
        if c {
            self.tag(t)
        }
    }
    /// The case meets the property's rule for being non-trivial.
    pub fn nt(&mut self) {
        self.nontrivial = true;
    }
    /// Adds to a vector of counts that is summed over all cases of a sub-check.
    pub fn count(&mut self, name: &str, cells: &[u64]) {
        let v = self.stats.entry(name.to_string()).or_default();
        if v.len() < cells.len() {
            v.resize(cells.len(), 0);
        }
        for (a, b) in v.iter_mut().zip(cells) {
            *a += b;
        }
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if *a != *b {
            return Err(format!("{}: {} != {}", format!($($t)*), $crate::core::short(a), $crate::core::short(b)));
        }
    }};
}
pub fn short<T: Debug>(t: &T) -> String {
    let s = format!("{:?}", t);
    if s.len() > 240 {
        format!("{}...({} chars)", s.chars().take(240).collect::<String>(), s.len())
    } else {
        s
    }
}
pub fn e2s<T, E: std::fmt::Display>(what: &str, r: Result<T, E>) -> Result<T, String> {
    r.map_err(|e| format!("{} failed: {}", what, e))
}

pub struct Cfg {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub deadline: Instant,
    /// Multiplies every case count (for experiments).
    pub scale: f64,
    pub only: Option<String>,
    pub variant: String,
    pub merge: Vec<std::path::PathBuf>,
    /// Where to note the cases under way, when looking for one that kills the
    /// process.
    pub journal: Option<std::path::PathBuf>,
}

#[derive(Default)]
pub struct SubReport {
    pub name: String,
    pub evaluations: u64,
    pub nontrivial: HashSet<u64>,
    pub tags: BTreeMap<String, u64>,
    pub stats: BTreeMap<String, Vec<u64>>,
    pub samples: Vec<Value>,
    pub cut_short: bool,
    pub wall: f64,
    pub slowest: f64,
}

#[derive(Clone, Debug)]
pub struct Failure {
    pub sub: String,
    pub rng_seed: u64,
    pub case: Value,
    pub msg: String,
    pub shrunk: u32,
}

pub trait SubCheck: Sync {
    fn name(&self) -> &str;
    fn run(&self, cfg: &Cfg) -> (SubReport, Option<Failure>);
    fn replay(&self, rng_seed: u64, case: &Value) -> Result<Res, String>;
}

pub struct Sub<C> {
    pub name: &'static str,
    pub quick: u32,
    pub thorough: u32,
    pub strat: fn() -> BoxedStrategy<C>,
    pub check: fn(&C, &mut Ctx) -> Res,
    /// Judges the counts summed over all cases of the run.
    pub finish: Option<fn(&BTreeMap<String, Vec<u64>>) -> Res>,
    pub workers: usize,
}
impl<C> Sub<C> {
    pub fn new(
        name: &'static str,
        quick: u32,
        thorough: u32,
        strat: fn() -> BoxedStrategy<C>,
        check: fn(&C, &mut Ctx) -> Res,
    ) -> Self {
        Sub { name, quick, thorough, strat, check, finish: None, workers: WORKERS }
    }
    pub fn finish(mut self, f: fn(&BTreeMap<String, Vec<u64>>) -> Res) -> Self {
        self.finish = Some(f);
        self
    }
    pub fn workers(mut self, n: usize) -> Self {
        self.workers = n;
        self
    }
    pub fn boxed(self) -> Box<dyn SubCheck>
    where
        C: Debug + Clone + Serialize + DeserializeOwned + Send + Sync + 'static,
    {
        Box::new(self)
    }
}

thread_local! {
    static PANIC: RefCell<Option<String>> = RefCell::new(None);
    static QUIET: RefCell<bool> = RefCell::new(false);
}
/// Inside this thread, panics are recorded and not printed.
pub fn quiet_panics() {
    QUIET.with(|q| *q.borrow_mut() = true);
}
pub fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let quiet = QUIET.with(|q| *q.borrow());
        if quiet {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            PANIC.with(|p| *p.borrow_mut() = Some(format!("panic at {}: {}", loc, msg)));
        } else {
            old(info)
        }
    }));
}
/// Runs f; Err(description) if it panicked.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(t) => Ok(t),
        Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}
/// Runs f in a fresh thread with its own deterministic entropy.
pub fn in_thread<T: Send + 'static>(seed: u64, f: impl FnOnce() -> T + Send + 'static) -> Result<T, String> {
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            quiet_panics();
            getrandom::det::seed(seed);
            guarded(f)
        })
        .expect("spawn")
        .join()
        .unwrap_or_else(|_| Err("thread died".into()))
}

/// Several cases of a check at once, each in a thread of its own and several
/// times over: none may notice the others.
pub fn together<C: Sync>(cases: &[C], rounds: u64, ctx: &mut Ctx, check: fn(&C, &mut Ctx) -> Res) -> Res {
    let start = std::sync::Barrier::new(cases.len());
    let mut seed = [0u8; 8];
    e2s("getrandom", getrandom::getrandom(&mut seed))?;
    let seed = u64::from_le_bytes(seed);
    let done = std::thread::scope(|sc| {
        let hs: Vec<_> = cases
            .iter()
            .enumerate()
            .map(|(i, c)| {
                let start = &start;
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        quiet_panics();
                        let mut ctx = Ctx::default();
                        start.wait();
                        for r in 0..rounds {
                            getrandom::det::seed(seed.wrapping_add(1000 * i as u64 + r));
                            let res = guarded(|| check(c, &mut ctx)).unwrap_or_else(|p| Err(format!("unexpected {}", p)));
                            if let Err(e) = res {
                                return (Err(format!("case {} of {} at once, round {}: {}", i, cases.len(), r, e)), ctx);
                            }
                        }
                        (Ok(()), ctx)
                    })
                    .expect("spawn")
            })
            .collect();
        hs.into_iter().map(|h| h.join()).collect::<Vec<_>>()
    });
    let mut nontrivial = !cases.is_empty();
    for d in done {
        let (r, c) = d.map_err(|_| "thread died".to_string())?;
        r?;
        nontrivial &= c.nontrivial;
        for (t, n) in c.tags {
            ctx.tag_n(&t, n);
        }
    }
    ctx.tag_n("runs at the same time", cases.len() as u64 * rounds);
    if nontrivial {
        ctx.nt();
    }
    Ok(())
}
/// Two to six cases of a kind.
pub fn several<C: Debug + Clone + 'static>(s: BoxedStrategy<C>) -> BoxedStrategy<Vec<C>> {
    proptest::collection::vec(s, 2..=6).boxed()
}

/// Runs one case in a fresh thread. The outer Err is a case that did not end.
pub fn run_case<C: Clone + Send + 'static>(
    check: fn(&C, &mut Ctx) -> Res,
    case: &C,
    rng_seed: u64,
) -> (Res, Ctx) {
    let (tx, rx) = mpsc::channel();
    let case = case.clone();
    let h = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            quiet_panics();
            getrandom::det::seed(rng_seed);
            let mut ctx = Ctx::default();
            let r = guarded(|| check(&case, &mut ctx)).unwrap_or_else(|p| Err(format!("unexpected {}", p)));
            let _ = tx.send((r, ctx));
        })
        .expect("spawn");
    match rx.recv_timeout(CASE_LIMIT) {
        Ok(x) => {
            let _ = h.join();
            x
        }
        Err(mpsc::RecvTimeoutError::Timeout) => {
            (Err(format!("no result after {} s", CASE_LIMIT.as_secs())), Ctx::default())
        }
        Err(_) => (Err("the thread of the case died".into()), Ctx::default()),
    }
}

fn hash_of(s: &str) -> u64 {
    let mut h = DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}
fn rng_for(seed: u64, prop: &str, sub: &str, worker: usize) -> TestRng {
    let mut bytes = [0u8; 32];
    let mut x = seed ^ hash_of(prop).rotate_left(17) ^ hash_of(sub).rotate_left(31) ^ (worker as u64).wrapping_mul(0x9e3779b97f4a7c15);
    for b in bytes.chunks_mut(8) {
        x = crate::gen::splitmix(&mut x);
        b.copy_from_slice(&x.to_le_bytes());
    }
    TestRng::from_seed(RngAlgorithm::ChaCha, &bytes)
}

impl<C> SubCheck for Sub<C>
where
    C: Debug + Clone + Serialize + DeserializeOwned + Send + Sync + 'static,
{
    fn name(&self) -> &str {
        self.name
    }
    fn replay(&self, rng_seed: u64, case: &Value) -> Result<Res, String> {
        let c: C = serde_json::from_value(case.clone()).map_err(|e| format!("replay file: {}", e))?;
        let (r, ctx) = run_case(self.check, &c, rng_seed);
        if r.is_ok() {
            if let Some(f) = self.finish {
                return Ok(f(&ctx.stats));
            }
        }
        Ok(r)
    }
    fn run(&self, cfg: &Cfg) -> (SubReport, Option<Failure>) {
        let t0 = Instant::now();
        let total = ((if cfg.thorough { self.thorough } else { self.quick }) as f64 * cfg.scale).ceil() as u64;
        let stop = Arc::new(AtomicBool::new(false));
        let report = Mutex::new(SubReport { name: self.name.into(), ..Default::default() });
        let failure: Mutex<Option<Failure>> = Mutex::new(None);
        let slow = AtomicU64::new(0);
        let workers = self.workers.min(total.max(1) as usize);
        std::thread::scope(|s| {
            for w in 0..workers {
                let (stop, report, failure, slow) = (stop.clone(), &report, &failure, &slow);
                let n = total / workers as u64 + ((w as u64) < total % workers as u64) as u64;
                s.spawn(move || {
                    let mut config = Config::default();
                    config.failure_persistence = None;
                    let mut runner = TestRunner::new_with_rng(config, rng_for(cfg.seed, &cfg.prop, self.name, w));
                    let strat = ((self.strat)(), proptest::num::u64::ANY.no_shrink());
                    for i in 0..n {
                        if stop.load(Ordering::Relaxed) {
                            return;
                        }
                        if Instant::now() > cfg.deadline {
                            report.lock().unwrap().cut_short = true;
                            return;
                        }
                        let mut tree = match strat.new_tree(&mut runner) {
                            Ok(t) => t,
                            Err(e) => {
                                eprintln!("generator of {} rejected: {}", self.name, e);
                                std::process::exit(2);
                            }
                        };
                        let (case, rs) = tree.current();
                        let t = Instant::now();
                        let entry = cfg.journal.as_ref().map(|d| {
                            let r = Replay {
                                property: cfg.prop.clone(),
                                sub: self.name.into(),
                                entropy_seed: rs,
                                message: "the process died".into(),
                                variant: format!("{} {}", cfg.variant, profile()),
                                case: serde_json::to_value(&case).unwrap(),
                            };
                            let p = d.join(format!("{}-{}-died-{}.json", cfg.prop, self.name.replace(' ', "-"), w));
                            std::fs::write(&p, serde_json::to_string_pretty(&r).unwrap()).expect("write journal");
                            p
                        });
                        let (r, ctx) = run_case(self.check, &case, rs);
                        if let Some(p) = entry {
                            let _ = std::fs::remove_file(p);
                        }
                        let ms = t.elapsed().as_micros() as u64;
                        slow.fetch_max(ms, Ordering::Relaxed);
                        {
                            let mut rep = report.lock().unwrap();
                            rep.evaluations += 1;
                            if ctx.nontrivial {
                                rep.nontrivial.insert(hash_of(&format!("{} {:?}{:x}", self.name, case, rs)));
                            }
                            for (k, v) in &ctx.tags {
                                *rep.tags.entry(k.clone()).or_insert(0) += v;
                            }
                            for (k, v) in &ctx.stats {
                                let e = rep.stats.entry(k.clone()).or_default();
                                if e.len() < v.len() {
                                    e.resize(v.len(), 0);
                                }
                                for (a, b) in e.iter_mut().zip(v) {
                                    *a += b;
                                }
                            }
                            if (w == 0 && i < 2 || w == 1 && i < 1) && rep.samples.len() < 3 {
                                rep.samples.push(clip(json!({"sub": self.name, "case": case, "entropy_seed": rs})));
                            }
                        }
                        if let Err(msg) = r {
                            if stop.swap(true, Ordering::SeqCst) {
                                return; // another worker is already shrinking
                            }
                            let f = self.shrink(tree.as_mut_tree(), case, rs, msg);
                            *failure.lock().unwrap() = Some(f);
                            return;
                        }
                    }
                });
            }
        });
        let mut rep = report.into_inner().unwrap();
        let mut fail = failure.into_inner().unwrap();
        if fail.is_none() {
            if let Some(f) = self.finish {
                if let Err(msg) = f(&rep.stats) {
                    fail = Some(Failure {
                        sub: self.name.into(),
                        rng_seed: cfg.seed,
                        case: json!({"summed_over_run": true, "thorough": cfg.thorough, "counts": rep.stats}),
                        msg,
                        shrunk: 0,
                    });
                }
            }
        }
        rep.wall = t0.elapsed().as_secs_f64();
        rep.slowest = slow.load(Ordering::Relaxed) as f64 / 1e6;
        (rep, fail)
    }
}

trait TreeMut<T> {
    fn as_mut_tree(&mut self) -> &mut dyn ValueTree<Value = T>;
}
impl<T, V: ValueTree<Value = T>> TreeMut<T> for V {
    fn as_mut_tree(&mut self) -> &mut dyn ValueTree<Value = T> {
        self
    }
}

impl<C> Sub<C>
where
    C: Debug + Clone + Serialize + DeserializeOwned + Send + Sync + 'static,
{
    fn shrink(&self, tree: &mut dyn ValueTree<Value = (C, u64)>, case: C, rs: u64, msg: String) -> Failure {
        let t0 = Instant::now();
        let mut best = (case, rs, msg);
        let mut steps = 0;
        if best.2.starts_with("no result after") {
            // once more, now that the other workers have stopped
            match run_case(self.check, &best.0, best.1).0 {
                Err(m) => best.2 = m,
                Ok(()) => {
                    println!("a case took longer than {} s once, and not when repeated: no verdict", CASE_LIMIT.as_secs());
                    std::process::exit(3);
                }
            }
            return self.failure(best, 0);
        }
        let mut more = tree.simplify();
        while more && t0.elapsed() < Duration::from_secs(45) && steps < 2000 {
            steps += 1;
            let (c, r) = tree.current();
            match run_case(self.check, &c, r).0 {
                Err(m) => {
                    best = (c, r, m);
                    more = tree.simplify();
                }
                Ok(()) => more = tree.complicate(),
            }
        }
        self.failure(best, steps)
    }
    fn failure(&self, best: (C, u64, String), steps: u32) -> Failure {
        Failure {
            sub: self.name.into(),
            case: serde_json::to_value(&best.0).unwrap(),
            rng_seed: best.1,
            msg: best.2,
            shrunk: steps,
        }
    }
}

fn clip(v: Value) -> Value {
    let s = v.to_string();
    if s.len() > 1500 {
        json!({"clipped": s.chars().take(1500).collect::<String>()})
    } else {
        v
    }
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub sub: String,
    pub entropy_seed: u64,
    pub message: String,
    /// how the code was built
    pub variant: String,
    pub case: Value,
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub subs: Vec<Box<dyn SubCheck>>,
}

pub fn profile() -> &'static str {
    if cfg!(debug_assertions) {
        "release"
    } else {
        "plain"
    }
}

/// Runs a property; returns the exit code.
pub fn run_property(p: &Property, cfg: &Cfg, root: &std::path::Path, evidence: Option<std::path::PathBuf>) -> i32 {
    let t0 = Instant::now();
    let mut reports = Vec::new();
    let mut failures = Vec::new();
    for sub in &p.subs {
        if let Some(o) = &cfg.only {
            if o != sub.name() {
                continue;
            }
        }
        let (rep, fail) = sub.run(cfg);
        eprintln!(
            "{} {:<24} {:>8} cases {:>8} non-trivial {:>6.1} s (slowest case {:.2} s){}{}",
            p.id,
            rep.name,
            rep.evaluations,
            rep.nontrivial.len(),
            rep.wall,
            rep.slowest,
            if rep.cut_short { " CUT SHORT" } else { "" },
            if fail.is_some() { " FAILED" } else { "" }
        );
        reports.push(rep);
        if let Some(f) = fail {
            failures.push(f);
            break;
        }
    }
    let mut replay_path = None;
    for f in &failures {
        let dir = root.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let r = Replay {
            property: p.id.into(),
            sub: f.sub.clone(),
            entropy_seed: f.rng_seed,
            message: f.msg.clone(),
            variant: format!("{} {}", cfg.variant, profile()),
            case: f.case.clone(),
        };
        let path = dir.join(format!("{}-{}-{:016x}.json", p.id, f.sub.replace(' ', "-"), hash_of(&f.case.to_string()) ^ f.rng_seed));
        std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap()).expect("write replay");
        println!("sub-check {} after {} shrinking steps: {}", f.sub, f.shrunk, f.msg);
        println!("case: {}", short(&f.case.to_string()));
        println!("VIOLATION property={} replay={}", p.id, path.display());
        replay_path = Some(path.display().to_string());
    }
    let mut merged_violations = 0;
    if let Some(dir) = evidence {
        let mut classes: BTreeMap<String, Value> = reports
            .iter()
            .map(|r| {
                (
                    r.name.clone(),
                    json!({"evaluations": r.evaluations, "distinct_nontrivial": r.nontrivial.len(),
                           "tags": r.tags, "wall_s": r.wall, "slowest_case_s": r.slowest, "cut_short": r.cut_short}),
                )
            })
            .collect();
        let mut evaluations = reports.iter().map(|r| r.evaluations).sum::<u64>();
        let mut nontrivial = reports.iter().map(|r| r.nontrivial.len() as u64).sum::<u64>();
        let mut samples: Vec<Value> = reports.iter().flat_map(|r| r.samples.iter().cloned()).collect();
        let mut wall = t0.elapsed().as_secs_f64();
        let mut builds = vec![format!("{} {}", cfg.variant, profile())];
        for path in &cfg.merge {
            let v: Value = match std::fs::read_to_string(path).ok().and_then(|t| serde_json::from_str(&t).ok()) {
                Some(v) => v,
                None => continue,
            };
            let other = &v["coverage"];
            evaluations += other["evaluations"].as_u64().unwrap_or(0);
            nontrivial += other["distinct_nontrivial"].as_u64().unwrap_or(0);
            wall += v["wall_s"].as_f64().unwrap_or(0.0);
            merged_violations += v["violations"].as_u64().unwrap_or(0);
            let build = other["builds"][0].as_str().unwrap_or("?").to_string();
            for (k, c) in other["classes"].as_object().into_iter().flatten() {
                classes.insert(format!("{} ({})", k, build), c.clone());
            }
            samples.extend(other["samples"].as_array().into_iter().flatten().take(2).cloned());
            builds.push(build);
        }
        let ev = json!({
            "property": p.id,
            "tier": if cfg.thorough {"thorough"} else {"quick"},
            "seed": cfg.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": evaluations,
                "distinct_nontrivial": nontrivial,
                "rule": p.rule,
                "samples": samples,
                "classes": classes,
                "builds": builds,
            },
            "assumptions": [
                "entropy drawn by the code comes from a deterministic stand-in for the getrandom crate, seeded per case",
                "the code under test is compiled with optimisation, overflow checks and debug assertions, unless builds says plain",
            ],
            "wall_s": wall,
            "violations": failures.len() as u64 + merged_violations,
            "violation_details": failures.iter().map(|f| json!({"sub": f.sub, "message": f.msg, "replay": replay_path})).collect::<Vec<_>>(),
        });
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(dir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
    }
    (!failures.is_empty()) as i32
}
