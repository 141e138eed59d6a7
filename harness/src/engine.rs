//! Runner: drives a property's generator with proptest on several workers, shrinks the first
//! failure, writes a replay file and the evidence file.

use crate::watch::{alone, Fate, Watch};
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn pick<T>(self, quick: T, thorough: T) -> T {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
}

/// Why a case did not pass.
#[derive(Debug, Clone)]
pub enum Fail {
    /// The property is broken.
    Violation(String),
    /// The harness could not decide (I/O trouble, a tool that cannot run): an error exit.
    Harness(String),
}

impl From<String> for Fail {
    fn from(s: String) -> Self {
        Fail::Violation(s)
    }
}

pub type Outcome = Result<(), Fail>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !$cond {
            return Err($crate::engine::Fail::Violation(format!($($arg)*)));
        }
    };
}

/// Observations about one case, collected by the check itself.
#[derive(Default, Debug, Clone)]
pub struct Obs {
    pub labels: Vec<&'static str>,
    pub counts: Vec<(&'static str, u64)>,
    pub nontrivial: bool,
}

impl Obs {
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.labels.push(l);
        }
    }
    pub fn count(&mut self, l: &'static str, n: u64) {
        self.counts.push((l, n));
    }
}

pub trait Prop: Sync {
    type Case: Serialize + DeserializeOwned + Debug + Clone + Send + Sync;
    fn id(&self) -> &'static str;
    /// How cases are made and what makes one non-trivial.
    fn rule(&self) -> &'static str;
    fn cases(&self, tier: Tier) -> u32;
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Self::Case>;
    fn check(&self, case: &Self::Case, obs: &mut Obs) -> Outcome;
    /// Fixed cases always run before the generated ones (boundaries, regressions).
    fn fixed(&self, _tier: Tier) -> Vec<Self::Case> {
        Vec::new()
    }
    fn workers(&self) -> usize {
        8
    }
    fn assumptions(&self) -> Vec<String> {
        Vec::new()
    }
}

thread_local! {
    static QUIET: Cell<bool> = const { Cell::new(false) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if QUIET.with(|q| q.get()) {
            LAST_PANIC.with(|p| *p.borrow_mut() = info.to_string());
        } else {
            default(info);
        }
    }));
}

/// Runs code of the library under test; a panic becomes a violation of the property.
pub fn lib<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    let was = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(was));
    r.map_err(|_| {
        let msg = LAST_PANIC.with(|p| p.borrow().clone());
        Fail::Violation(format!("{what} panicked: {}", msg.replace('\n', " ")))
    })
}

fn seed_bytes(seed: u64, id: &str, worker: u64) -> [u8; 32] {
    // Expands (seed, id, worker) with splitmix64.
    let mut s = seed ^ 0x9E37_79B9_7F4A_7C15;
    for b in id.bytes() {
        s = (s ^ b as u64).wrapping_mul(0x100_0000_01B3);
    }
    s ^= worker.wrapping_mul(0xD134_2543_DE82_EF95);
    let mut out = [0u8; 32];
    for c in out.chunks_mut(8) {
        s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^= z >> 31;
        c.copy_from_slice(&z.to_le_bytes());
    }
    out
}

fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01B3);
    }
    h
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    counts: BTreeMap<&'static str, u64>,
    samples: Vec<serde_json::Value>,
}

impl Stats {
    fn add(&mut self, json: &str, obs: &Obs) {
        self.evaluations += 1;
        let mut fresh = false;
        if obs.nontrivial {
            fresh = self.nontrivial.insert(fnv(json));
        }
        for l in &obs.labels {
            *self.labels.entry(l).or_default() += 1;
        }
        for (l, n) in &obs.counts {
            *self.counts.entry(l).or_default() += n;
        }
        if fresh && self.samples.len() < 3 {
            let case = if json.len() > 3000 {
                serde_json::Value::String(format!("{}...", json.chars().take(3000).collect::<String>()))
            } else {
                serde_json::from_str(json).unwrap_or(serde_json::Value::Null)
            };
            self.samples.push(serde_json::json!({"case": case, "labels": obs.labels}));
        }
    }

    fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.nontrivial.extend(o.nontrivial);
        for (k, v) in o.labels {
            *self.labels.entry(k).or_default() += v;
        }
        for (k, v) in o.counts {
            *self.counts.entry(k).or_default() += v;
        }
        if self.samples.len() < 4 {
            self.samples.extend(o.samples.into_iter().take(1));
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct Replay<C> {
    pub property: String,
    pub message: String,
    pub seed: u64,
    pub case: C,
}

/// The case that a worker is at, as kept for the parent process; a replay file as well.
#[derive(Serialize, Deserialize)]
struct Kept<C> {
    property: String,
    message: String,
    seed: u64,
    case: C,
    worker: usize,
    /// The how-manieth case of its worker, if it has been generated and not shrunk.
    nth: Option<u32>,
}

/// Where a case comes from.
#[derive(Clone, Copy)]
struct Source<'a> {
    watch: Option<&'a Watch>,
    seed: u64,
    worker: usize,
    nth: Option<u32>,
}

fn run_case<P: Prop>(p: &P, case: &P::Case, obs: &mut Obs, from: Source) -> Outcome {
    let Some(watch) = from.watch else { return p.check(case, obs) };
    let kept = Kept { property: p.id().into(), message: "ended the process".into(), seed: from.seed, case, worker: from.worker, nth: from.nth };
    watch.begin(from.worker, &serde_json::to_string(&kept).unwrap_or_default());
    let r = p.check(case, obs);
    watch.end(from.worker);
    r
}

enum WorkerResult<C> {
    Fine(Stats),
    Violation(Stats, String, C),
    Harness(String),
}

fn worker_runner(id: &str, seed: u64, worker: usize, cases: u32) -> TestRunner {
    let config = Config {
        cases,
        failure_persistence: None,
        max_shrink_iters: 3000,
        max_shrink_time: 45_000,
        max_global_rejects: 1 << 20,
        ..Config::default()
    };
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(seed, id, worker as u64));
    TestRunner::new_with_rng(config, rng)
}

fn run_worker<P: Prop>(
    p: &P,
    tier: Tier,
    seed: u64,
    worker: usize,
    cases: u32,
    stop: &AtomicBool,
    watch: Option<&Watch>,
) -> WorkerResult<P::Case> {
    let stats = RefCell::new(Stats::default());
    let harness_err: RefCell<Option<String>> = RefCell::new(None);
    let failed = Cell::new(false);
    let nth = Cell::new(0u32);
    let mut runner = worker_runner(p.id(), seed, worker, cases);
    let strategy = p.strategy(tier);
    let result = runner.run(&strategy, |case| {
        if harness_err.borrow().is_some() || (stop.load(Ordering::Relaxed) && !failed.get()) {
            return Ok(());
        }
        let mut obs = Obs::default();
        let from = Source { watch, seed, worker, nth: (!failed.get()).then(|| nth.get()) };
        nth.set(nth.get() + 1);
        let r = run_case(p, &case, &mut obs, from);
        if !failed.get() {
            let json = serde_json::to_string(&case).unwrap_or_default();
            stats.borrow_mut().add(&json, &obs);
        }
        match r {
            Ok(()) => Ok(()),
            Err(Fail::Violation(m)) => {
                if !failed.get() && watch.is_some() {
                    keep_first(p.id(), seed, &m, &case);
                }
                failed.set(true);
                stop.store(true, Ordering::Relaxed);
                Err(TestCaseError::fail(m))
            }
            Err(Fail::Harness(m)) => {
                *harness_err.borrow_mut() = Some(m);
                Ok(())
            }
        }
    });
    let stats = stats.into_inner();
    match result {
        Err(TestError::Fail(reason, case)) => WorkerResult::Violation(stats, reason.message().to_string(), case),
        Err(TestError::Abort(reason)) => WorkerResult::Harness(format!("generator aborted: {}", reason.message())),
        Ok(()) => match harness_err.into_inner() {
            Some(m) => WorkerResult::Harness(m),
            None => WorkerResult::Fine(stats),
        },
    }
}

pub fn verif_dir() -> std::path::PathBuf {
    std::env::var_os("VERIF_DIR").map(Into::into).unwrap_or_else(|| "/verif".into())
}

fn write_replay<C: Serialize>(id: &str, seed: u64, message: &str, case: &C) -> std::io::Result<std::path::PathBuf> {
    let dir = verif_dir().join("replays");
    std::fs::create_dir_all(&dir)?;
    let body = serde_json::to_string(&Replay { property: id.to_string(), message: message.to_string(), seed, case })?;
    let path = dir.join(format!("{id}-{:016x}.json", fnv(&body)));
    std::fs::write(&path, body)?;
    Ok(path)
}

/// Keeps a case that fails until it is shrunk, in case shrinking ends the process.
fn keep_first<C: Serialize>(id: &str, seed: u64, message: &str, case: &C) {
    let Some(dir) = std::env::var_os("VH_CHILD") else { return };
    let r = Replay { property: id.to_string(), message: message.to_string(), seed, case };
    let _ = std::fs::write(std::path::Path::new(&dir).join("first.json"), serde_json::to_string(&r).unwrap_or_default());
}

/// Runs the check of a property in a process of its own and returns the exit code.
pub fn supervise<P: Prop>(p: &P, tier: Tier, seed: u64) -> i32 {
    if std::env::var_os("VH_CHILD").is_some() {
        return run(p, tier, seed);
    }
    let dir = std::env::temp_dir().join(format!("vh-slots-{}-{}", p.id(), std::process::id()));
    if let Err(e) = std::fs::create_dir_all(&dir) {
        eprintln!("ERROR: {}: {e}", dir.display());
        return 2;
    }
    let code = supervised(p, tier, seed, &dir);
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn supervised<P: Prop>(p: &P, tier: Tier, seed: u64, dir: &std::path::Path) -> i32 {
    let t = Instant::now();
    let run = std::env::current_exe()
        .and_then(|exe| std::process::Command::new(exe).args(std::env::args_os().skip(1)).env("VH_CHILD", dir).status());
    let how = match run {
        Err(e) => {
            eprintln!("ERROR: {}: {e}", p.id());
            return 2;
        }
        Ok(s) => match s.code() {
            Some(crate::watch::STUCK) => "a case takes too long".to_string(),
            Some(c) => return c,
            None => s.to_string(),
        },
    };
    eprintln!("{}: the check ended early ({how}); running each case in progress on its own", p.id());
    let mut found: Option<(String, P::Case)> = None;
    let names = (0..p.workers().max(1)).map(|w| format!("{w}.json")).chain(["first.json".to_string()]);
    for name in names {
        let path = dir.join(name);
        let Some(kept) = std::fs::read_to_string(&path).ok().filter(|s| !s.is_empty()) else { continue };
        let Ok(replay) = serde_json::from_str::<Replay<P::Case>>(&kept) else { continue };
        let message = match alone(&path, crate::watch::cpu_limit()) {
            Fate::Passes | Fate::Unknown => continue,
            Fate::Fails(m) => m.strip_prefix(&format!("{}: ", p.id())).unwrap_or(&m).to_string(),
            Fate::Dies(s) => format!("the process is ended by signal {s}"),
            Fate::Endless => format!("does not end within {:.0} s of processor time", crate::watch::cpu_limit()),
        };
        let mut case = replay.case;
        if message.contains("signal") {
            if let Some(c) = serde_json::from_str::<Kept<P::Case>>(&kept).ok().and_then(|k| shrink_alone(p, tier, seed, &k, dir)) {
                case = c;
            }
        }
        found = Some((message, case));
        break;
    }
    let Some((message, case)) = found else {
        eprintln!("ERROR: {}: none of the cases in progress fails on its own", p.id());
        return 2;
    };
    let evidence = serde_json::json!({
        "property": p.id(),
        "tier": match tier { Tier::Quick => "quick", Tier::Thorough => "thorough" },
        "seed": seed,
        "level": "exploration",
        "coverage": { "evaluations": 1, "distinct_nontrivial": 1, "rule": p.rule(), "samples": [serde_json::json!({"case": case, "labels": [message]})] },
        "assumptions": p.assumptions(),
        "wall_s": t.elapsed().as_secs_f64(),
        "violations": 1,
    });
    let _ = std::fs::create_dir_all(verif_dir().join("evidence"));
    let _ = std::fs::write(verif_dir().join("evidence").join(format!("{}.json", p.id())), evidence.to_string() + "\n");
    match write_replay(p.id(), seed, &message, &case) {
        Ok(path) => {
            println!("{}: {message}", p.id());
            println!("VIOLATION property={} replay={}", p.id(), path.display());
            1
        }
        Err(e) => {
            eprintln!("ERROR: {}: cannot write the replay file: {e}", p.id());
            2
        }
    }
}

/// Shrinks a generated case that ends the process, each candidate in a process of its own.
fn shrink_alone<P: Prop>(p: &P, tier: Tier, seed: u64, kept: &Kept<P::Case>, dir: &std::path::Path) -> Option<P::Case> {
    let strategy = p.strategy(tier);
    let mut runner = worker_runner(p.id(), seed, kept.worker, 1);
    let mut tree = None;
    for _ in 0..=kept.nth? {
        tree = strategy.new_tree(&mut runner).ok();
    }
    let mut tree = tree?;
    if serde_json::to_string(&tree.current()).ok()? != serde_json::to_string(&kept.case).ok()? {
        return None;
    }
    let mut best = None;
    let t = Instant::now();
    let mut more = tree.simplify();
    while more && t.elapsed().as_secs() < 60 {
        let case = tree.current();
        let path = dir.join("candidate.json");
        let r = Replay { property: p.id().to_string(), message: String::new(), seed, case: &case };
        std::fs::write(&path, serde_json::to_string(&r).ok()?).ok()?;
        if matches!(alone(&path, 10.0), Fate::Dies(_)) {
            best = Some(case);
            more = tree.simplify();
        } else {
            more = tree.complicate();
        }
    }
    best
}

/// Runs the whole check of one property and returns the exit code.
pub fn run<P: Prop>(p: &P, tier: Tier, seed: u64) -> i32 {
    let start = Instant::now();
    let mut total = Stats::default();
    let mut violation: Option<(String, P::Case)> = None;

    let watch = Watch::new(p.workers().max(1));
    let fixed = p.fixed(tier);
    let n_fixed = fixed.len();
    let next = AtomicUsize::new(0);
    let broken = AtomicBool::new(false);
    let one = |worker| {
        let mut out = Vec::new();
        loop {
            let i = next.fetch_add(1, Ordering::Relaxed);
            if i >= fixed.len() || broken.load(Ordering::Relaxed) {
                return out;
            }
            let mut obs = Obs::default();
            let r = run_case(p, &fixed[i], &mut obs, Source { watch, seed, worker, nth: None });
            if r.is_err() {
                broken.store(true, Ordering::Relaxed);
            }
            out.push((i, serde_json::to_string(&fixed[i]).unwrap_or_default(), obs, r));
        }
    };
    let mut done: Vec<(usize, String, Obs, Outcome)> = std::thread::scope(|s| {
        let one = &one;
        let handles: Vec<_> = (0..p.workers().clamp(1, fixed.len().max(1)))
            .map(|w| std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || one(w)).expect("spawn"))
            .collect();
        handles
            .into_iter()
            .flat_map(|h| h.join().unwrap_or_else(|_| vec![(0, String::new(), Obs::default(), Err(Fail::Harness("worker panicked (bug in the harness)".into())))]))
            .collect()
    });
    done.sort_by_key(|d| d.0);
    let mut harness = None;
    for (i, json, obs, r) in done {
        total.add(&json, &obs);
        match r {
            Ok(()) => {}
            Err(Fail::Harness(m)) => harness = Some(m),
            Err(Fail::Violation(m)) => {
                if violation.is_none() {
                    violation = Some((m, fixed[i].clone()));
                }
            }
        }
    }
    if let (None, Some(m)) = (&violation, harness) {
        eprintln!("ERROR: {}: {m}", p.id());
        return 2;
    }

    if violation.is_none() {
        let workers = p.workers().max(1);
        let mult = std::env::var("VERIF_CASES_MULT").ok().and_then(|s| s.parse::<f64>().ok()).unwrap_or(1.0);
        let cases = ((p.cases(tier) as f64 * mult).ceil() as u32).max(1);
        let per = cases.div_ceil(workers as u32);
        let stop = AtomicBool::new(false);
        let results: Vec<WorkerResult<P::Case>> = std::thread::scope(|s| {
            let handles: Vec<_> = (0..workers)
                .map(|w| {
                    let stop = &stop;
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(s, move || run_worker(p, tier, seed, w, per, stop, watch))
                        .expect("spawn")
                })
                .collect();
            handles
                .into_iter()
                .map(|h| h.join().unwrap_or_else(|_| WorkerResult::Harness("worker panicked (bug in the harness)".into())))
                .collect()
        });
        let mut harness = None;
        for r in results {
            match r {
                WorkerResult::Fine(s) => total.merge(s),
                WorkerResult::Violation(s, m, c) => {
                    total.merge(s);
                    if violation.is_none() {
                        violation = Some((m, c));
                    }
                }
                WorkerResult::Harness(m) => harness = Some(m),
            }
        }
        if violation.is_none() {
            if let Some(m) = harness {
                eprintln!("ERROR: {}: {m}", p.id());
                return 2;
            }
        }
    }

    let evidence = serde_json::json!({
        "property": p.id(),
        "tier": match tier { Tier::Quick => "quick", Tier::Thorough => "thorough" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": total.evaluations,
            "distinct_nontrivial": total.nontrivial.len(),
            "rule": p.rule(),
            "samples": total.samples,
            "fixed_cases": n_fixed,
            "labels": total.labels,
            "measures": total.counts,
        },
        "assumptions": p.assumptions(),
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": violation.is_some() as u32,
    });
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{}.json", p.id())), serde_json::to_string_pretty(&evidence).unwrap() + "\n") {
        eprintln!("ERROR: {}: cannot write evidence: {e}", p.id());
        return 2;
    }

    match violation {
        Some((m, case)) => match write_replay(p.id(), seed, &m, &case) {
            Ok(path) => {
                println!("{}: {}", p.id(), m);
                println!("VIOLATION property={} replay={}", p.id(), path.display());
                1
            }
            Err(e) => {
                eprintln!("ERROR: {}: cannot write the replay file: {e}", p.id());
                2
            }
        },
        None => {
            println!(
                "OK property={} evaluations={} distinct_nontrivial={} wall={:.1}s labels={:?} measures={:?}",
                p.id(),
                total.evaluations,
                total.nontrivial.len(),
                start.elapsed().as_secs_f64(),
                total.labels,
                total.counts
            );
            0
        }
    }
}

/// Runs one saved case, without the property-testing library.
pub fn replay<P: Prop>(p: &P, body: &str) -> i32 {
    let r: Replay<P::Case> = match serde_json::from_str(body) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("ERROR: bad replay file: {e}");
            return 2;
        }
    };
    let mut obs = Obs::default();
    match p.check(&r.case, &mut obs) {
        Ok(()) => {
            println!("replay passes ({:?})", obs);
            0
        }
        Err(Fail::Violation(m)) => {
            println!("{}: {m}", p.id());
            1
        }
        Err(Fail::Harness(m)) => {
            eprintln!("ERROR: {m}");
            2
        }
    }
}

/// Prints a few generated cases (for looking at the distribution).
pub fn show<P: Prop>(p: &P, tier: Tier, seed: u64, n: usize) {
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(seed, p.id(), 0));
    let mut runner = TestRunner::new_with_rng(Config::default(), rng);
    let s = p.strategy(tier);
    for _ in 0..n {
        let t = s.new_tree(&mut runner).expect("case");
        println!("{}", serde_json::to_string(&t.current()).unwrap());
    }
}
