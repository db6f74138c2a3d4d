//! Shared machinery: cases, runner, shrinking, replay files, evidence.
//!
//! A property is a type implementing [`Prop`]: a serialisable case type, a list of fixed (exhaustive sweep)
//! cases, a proptest strategy for random cases, and a `check`.

#![recursion_limit = "512"]
use proptest::strategy::{BoxedStrategy, Strategy};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[cfg(feature = "hashes")]
pub mod refhash;
#[cfg(feature = "maths")]
pub mod field;
pub mod gen;
#[cfg(feature = "sharing")]
pub mod mpc;
#[cfg(feature = "sharing")]
pub mod pace;
#[cfg(feature = "maths")]
pub mod rank;
pub mod stats;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    /// `q` in the quick tier, `t` in the thorough tier.
    pub fn pick<T>(self, q: T, t: T) -> T {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
}

/// Outcome of a successful evaluation: how the case is classified.
#[derive(Default, Debug, Clone)]
pub struct Info {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    /// For cases that bundle many evaluations: how many, and hashes of the distinct non-trivial ones.
    pub sub: Option<(u64, Vec<u64>)>,
}

impl Info {
    pub fn new(nontrivial: bool) -> Self {
        Info { nontrivial, labels: vec![], sub: None }
    }
    pub fn sub(mut self, total: u64, distinct: Vec<u64>) -> Self {
        self.sub = Some((total, distinct));
        self
    }
    pub fn label(mut self, cond: bool, l: &'static str) -> Self {
        if cond {
            self.labels.push(l);
        }
        self
    }
}

pub type Res = Result<Info, String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => { if !$c { return Err(format!($($arg)*)); } };
}

#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($arg)*), a, b)); }
    }};
}

pub trait Prop: Send + Sync + 'static {
    type Case: Serialize + DeserializeOwned + Debug + Clone + Send + Sync + 'static;
    const ID: &'static str;
    /// How cases are made and what makes one non-trivial (goes into the evidence file).
    const RULE: &'static str;
    const ASSUMPTIONS: &'static [&'static str] = &[];
    /// Cases that are always evaluated, smallest first.
    fn fixed(_tier: Tier, _seed: u64) -> Vec<Self::Case> {
        vec![]
    }
    /// Number of random cases.
    fn cases(tier: Tier) -> u32;
    fn strategy(tier: Tier) -> BoxedStrategy<Self::Case>;
    fn check(case: &Self::Case) -> Res;
    /// Whether every case must be evaluated in a process of its own (process-wide state under test).
    const FRESH_PROCESS: bool = false;
    /// Worker threads (1 for properties over process-wide state).
    const SHARDS: usize = 8;
    /// Whether the shards must not share a process (they would meet at process-wide locks).
    const PROCESSES: bool = false;
    /// Seconds after which one case of the quick tier counts as not finishing (thorough: ten times that).
    const CASE_LIMIT: u64 = 240;
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
    static QUIET: Cell<bool> = Cell::new(false);
}

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
        if !QUIET.with(|q| q.get()) {
            eprintln!("thread panicked: {} at {}", msg, loc);
        }
    }));
}

/// Run `f`, turning a panic into an `Err` with its message and location.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let before = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(before));
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

fn eval<P: Prop>(case: &P::Case) -> Res {
    match no_panic(|| P::check(case)) {
        Ok(r) => r,
        Err(p) => Err(format!("panicked: {}", p)),
    }
}

pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in bytes {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

/// splitmix64, used to derive seeds.
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

#[derive(Default, Serialize, serde::Deserialize)]
struct Tally {
    evaluations: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<serde_json::Value>,
}

impl Tally {
    fn record<C: Serialize>(&mut self, case: &C, info: &Info) {
        self.evaluations += info.sub.as_ref().map_or(1, |s| s.0);
        if let Some((_, d)) = &info.sub {
            self.distinct.extend(d.iter().copied());
        }
        for l in &info.labels {
            *self.labels.entry(l.to_string()).or_insert(0) += 1;
        }
        if info.nontrivial {
            let json = serde_json::to_string(case).unwrap();
            let new = info.sub.is_some() || self.distinct.insert(fnv(json.as_bytes()));
            if new && self.samples.len() < 3 && json.len() < 1500 {
                self.samples.push(serde_json::from_str(&json).unwrap());
            }
        }
    }
    fn merge(&mut self, o: Tally) {
        self.evaluations += o.evaluations;
        self.distinct.extend(o.distinct);
        for (k, v) in o.labels {
            *self.labels.entry(k).or_insert(0) += v;
        }
        for s in o.samples {
            if self.samples.len() < 4 {
                self.samples.push(s);
            }
        }
    }
}

#[derive(Serialize, serde::Deserialize)]
struct Failure {
    order: usize,
    json: String,
    message: String,
}

struct Env {
    root: PathBuf,
    seed: u64,
    tier: Tier,
}

fn env() -> Env {
    let root = PathBuf::from(std::env::var("JV_ROOT").unwrap_or_else(|_| "/verif".into()));
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    Env { root, seed, tier }
}

/// Whether this is the pass over the build without debug assertions and overflow checks (`run.sh` makes it after
/// the other one; it evaluates the fixed cases again and a quarter as many other random cases).
fn release_pass() -> bool {
    std::env::var("JV_PASS").as_deref() == Ok("release")
}

fn trace_file() -> Option<PathBuf> {
    std::env::var("JV_TRACE").ok().map(PathBuf::from)
}

fn trace_case<C: Serialize>(path: &Option<PathBuf>, case: &C) {
    if let Some(p) = path {
        let tmp = p.with_extension("tmp");
        if let Ok(mut f) = std::fs::File::create(&tmp) {
            let _ = f.write_all(serde_json::to_string(case).unwrap().as_bytes());
            let _ = std::fs::rename(&tmp, p);
        }
    }
}

fn intern(l: &str) -> &'static str {
    static SEEN: Mutex<BTreeMap<String, &'static str>> = Mutex::new(BTreeMap::new());
    let mut seen = SEEN.lock().unwrap();
    if !seen.contains_key(l) {
        seen.insert(l.into(), Box::leak(l.to_string().into_boxed_str()));
    }
    seen[l]
}

/// Evaluate one case in a fresh process; `Err` on violation, panics of the harness itself abort with 2.
fn eval_fresh<P: Prop>(case: &P::Case) -> Res {
    let exe = std::env::current_exe().unwrap();
    let mut child = std::process::Command::new(exe)
        .arg("case")
        .arg(P::ID)
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .unwrap_or_else(|e| {
            println!("ERROR cannot spawn case process: {}", e);
            std::process::exit(2)
        });
    child.stdin.take().unwrap().write_all(serde_json::to_string(case).unwrap().as_bytes()).unwrap();
    let out = child.wait_with_output().unwrap();
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    match out.status.code() {
        Some(0) => {
            let v: serde_json::Value = serde_json::from_str(text.trim()).unwrap_or(serde_json::Value::Null);
            let mut info = Info::new(v["nontrivial"].as_bool().unwrap_or(false));
            for l in v["labels"].as_array().into_iter().flatten().filter_map(|l| l.as_str()) {
                info.labels.push(intern(l));
            }
            Ok(info)
        }
        Some(1) => Err(text.trim().to_string()),
        Some(c) => {
            println!("ERROR case process exited with {}: {}", c, text);
            std::process::exit(2)
        }
        None => {
            use std::os::unix::process::ExitStatusExt;
            let sig = out.status.signal().unwrap_or(0);
            if matches!(sig, 4 | 6 | 7 | 8 | 11) {
                Err(format!("process crashed with signal {}", sig))
            } else {
                println!("ERROR case process killed by signal {}", sig);
                std::process::exit(2)
            }
        }
    }
}

/// The case each worker thread is evaluating, and since when.
struct Slots<C>(Vec<Mutex<Option<(Instant, C)>>>);

fn run_eval<P: Prop>(slots: &Slots<P::Case>, slot: usize, case: &P::Case) -> Res {
    if P::FRESH_PROCESS {
        return eval_fresh::<P>(case);
    }
    *slots.0[slot].lock().unwrap() = Some((Instant::now(), case.clone()));
    let r = eval::<P>(case);
    *slots.0[slot].lock().unwrap() = None;
    r
}

fn case_limit<P: Prop>(e: &Env) -> Duration {
    Duration::from_secs(P::CASE_LIMIT * e.tier.pick(1, 10))
}

/// Look for cases that do not finish. One that is over the limit is evaluated again alone, in a process of its
/// own with the same limit: if that does not finish either, the code under test hangs on it.
fn watch_for_hangs<P: Prop>(slots: std::sync::Arc<Slots<P::Case>>) {
    let mut cleared: Vec<Option<Instant>> = vec![None; slots.0.len()];
    loop {
        std::thread::sleep(Duration::from_millis(500));
        let e = env();
        for i in 0..slots.0.len() {
            let over = match &*slots.0[i].lock().unwrap() {
                Some((t, c)) if t.elapsed() > case_limit::<P>(&e) && cleared[i] != Some(*t) => Some((*t, c.clone())),
                _ => None,
            };
            if let Some((t, case)) = over {
                match eval_fresh::<P>(&case) {
                    // slow here, but it does finish: leave it to the watchdog
                    Ok(_) => cleared[i] = Some(t),
                    Err(m) => {
                        let json = serde_json::to_string(&case).unwrap();
                        if let Some(out) = shard_output() {
                            let f = vec![Failure { order: 0, json, message: m }];
                            std::fs::write(out, serde_json::to_string(&(Tally::default(), f)).unwrap()).unwrap();
                            std::process::exit(0);
                        }
                        let p = write_replay(&e, P::ID, &json, &m);
                        write_crash_evidence(&e, P::ID, &json);
                        println!("{}: {}", P::ID, m);
                        println!("VIOLATION property={} replay={}", P::ID, p.display());
                        std::process::exit(1);
                    }
                }
            }
        }
    }
}

fn write_crash_evidence(e: &Env, id: &str, case: &str) {
    let ev = serde_json::json!({
        "property": id, "tier": format!("{:?}", e.tier).to_lowercase(), "seed": e.seed, "level": "exploration",
        "coverage": {"evaluations": 1, "distinct_nontrivial": 1,
                     "rule": "crashed or hung; only the case on which it did is recorded",
                     "samples": [serde_json::from_str::<serde_json::Value>(case).unwrap_or_default()]},
        "wall_s": 0.0, "violations": 1});
    let _ = std::fs::create_dir_all(e.root.join("evidence"));
    let _ = std::fs::write(e.root.join("evidence").join(format!("{}.json", id)), ev.to_string());
}

fn replay_path(e: &Env, id: &str) -> PathBuf {
    let d = e.root.join("replays");
    let _ = std::fs::create_dir_all(&d);
    d.join(format!("{}.json", id))
}

fn write_replay(e: &Env, id: &str, case: &str, message: &str) -> PathBuf {
    let p = replay_path(e, id);
    let v = serde_json::json!({
        "property": id, "seed": e.seed,
        "tier": format!("{:?}", e.tier).to_lowercase(),
        "build": if release_pass() { "release" } else { "debug" },
        "message": message,
        "case": serde_json::from_str::<serde_json::Value>(case).unwrap_or(serde_json::Value::Null),
    });
    std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap()).unwrap();
    p
}

fn worker<P: Prop>() -> i32 {
    let e = env();
    let start = Instant::now();
    let limit = Duration::from_secs(e.tier.pick(if release_pass() { 390 } else { 780 }, 6 * 3600));
    std::thread::spawn(move || {
        std::thread::sleep(limit);
        println!("ERROR watchdog: no answer within {:?}", limit);
        std::process::exit(2);
    });

    if std::env::var("JV_NO_RUN").is_ok() {
        return 0;
    }
    let fixed = P::fixed(e.tier, e.seed);
    let (t, f) = if P::PROCESSES && trace_file().is_none() {
        match run_processes(P::ID, P::SHARDS.min(8)) {
            Ok(r) => r,
            Err(code) => return code,
        }
    } else {
        run_shards::<P>(&e, &fixed, None)
    };
    report::<P>(&e, &fixed, start, t, f)
}

/// The file into which a shard in a process of its own writes its results.
fn shard_output() -> Option<PathBuf> {
    std::env::var("JV_OUT").ok().map(PathBuf::from)
}

/// Run every shard in a process of its own.
fn run_processes(id: &str, shards: usize) -> Result<(Tally, Vec<Failure>), i32> {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().unwrap();
    let dir = std::env::temp_dir().join(format!("jv-{}-{}", id, std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let mut running: Vec<(PathBuf, std::process::Child)> = (0..shards)
        .map(|k| {
            let out = dir.join(format!("{}.json", k));
            let mut c = std::process::Command::new(&exe);
            c.arg("shard").arg(id).arg(k.to_string()).env("JV_OUT", &out);
            (out, c.spawn().expect("cannot start a shard"))
        })
        .collect();
    let mut tally = Tally::default();
    let mut failures: Vec<Failure> = vec![];
    let mut grace: Option<Instant> = None;
    let mut result = Ok(());
    while !running.is_empty() && result.is_ok() {
        std::thread::sleep(Duration::from_millis(20));
        let mut k = 0;
        while k < running.len() {
            let status = running[k].1.try_wait().unwrap();
            let st = match status {
                Some(st) => st,
                None => {
                    k += 1;
                    continue;
                }
            };
            let (out, _) = running.remove(k);
            let text = std::fs::read_to_string(&out).unwrap_or_default();
            if st.code() == Some(0) {
                let (t, f): (Tally, Vec<Failure>) = serde_json::from_str(&text).expect("shard result");
                tally.merge(t);
                failures.extend(f);
                if !failures.is_empty() && grace.is_none() {
                    grace = Some(Instant::now());
                }
            } else if matches!(st.signal(), Some(4) | Some(6) | Some(7) | Some(8) | Some(11)) && failures.is_empty() {
                result = Err(st.signal());
            } else if failures.is_empty() {
                println!("ERROR shard ended with {:?}", st);
                result = Err(None);
            }
        }
        // the other shards get some time to find a simpler failing case
        if grace.map_or(false, |g| g.elapsed() > Duration::from_secs(75)) {
            break;
        }
    }
    for (_, c) in running.iter_mut() {
        let _ = c.kill();
        let _ = c.wait();
    }
    let _ = std::fs::remove_dir_all(&dir);
    match result {
        Ok(()) => Ok((tally, failures)),
        // hand the crash on to the supervisor, which looks for the case
        Err(Some(_)) => std::process::abort(),
        Err(None) => Err(2),
    }
}

/// One shard in a process of its own.
fn shard_process<P: Prop>(k: usize) -> i32 {
    let e = env();
    let fixed = P::fixed(e.tier, e.seed);
    let r = run_shards::<P>(&e, &fixed, Some(k));
    std::fs::write(shard_output().unwrap(), serde_json::to_string(&r).unwrap()).unwrap();
    0
}

/// Evaluate the fixed and the random cases, or those of one shard.
fn run_shards<P: Prop>(e: &Env, fixed: &[P::Case], only: Option<usize>) -> (Tally, Vec<Failure>) {
    let tr = trace_file();
    let shards = P::SHARDS;
    let threads = if tr.is_some() || only.is_some() { 1 } else { shards.min(8) };
    let total = P::cases(e.tier) / if release_pass() { 4 } else { 1 };

    let tally = Mutex::new(Tally::default());
    let failures: Mutex<Vec<Failure>> = Mutex::new(vec![]);
    let stop = AtomicBool::new(false);
    let next = AtomicUsize::new(0);
    let next_shard = AtomicUsize::new(0);
    let slots = std::sync::Arc::new(Slots((0..threads).map(|_| Mutex::new(None)).collect::<Vec<_>>()));
    let watched = slots.clone();
    std::thread::spawn(move || watch_for_hangs::<P>(watched));
    std::thread::scope(|s| {
        let slots = &slots;
        let (next, next_shard, stop, fixed, tr, failures, tally, e) =
            (&next, &next_shard, &stop, &fixed, &tr, &failures, &tally, e);
        for slot in 0..threads {
            let b = std::thread::Builder::new().stack_size(64 << 20);
            b.spawn_scoped(s, move || {
                // fixed cases
                let mut local = Tally::default();
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= fixed.len() || stop.load(Ordering::SeqCst) {
                        break;
                    }
                    if only.map_or(false, |k| i % shards != k) {
                        continue;
                    }
                    trace_case(tr, &fixed[i]);
                    match run_eval::<P>(slots, slot, &fixed[i]) {
                        Ok(info) => local.record(&fixed[i], &info),
                        Err(m) => {
                            stop.store(true, Ordering::SeqCst);
                            failures.lock().unwrap().push(Failure {
                                order: i,
                                json: serde_json::to_string(&fixed[i]).unwrap(),
                                message: m,
                            });
                        }
                    }
                }
                // random cases
                loop {
                    let shard = next_shard.fetch_add(1, Ordering::SeqCst);
                    if shard >= shards || stop.load(Ordering::SeqCst) {
                        break;
                    }
                    if only.map_or(false, |k| shard != k) {
                        continue;
                    }
                    let n = total / shards as u32 + u32::from((shard as u32) < total % shards as u32);
                    if n == 0 {
                        continue;
                    }
                    let mut seed = [0u8; 32];
                    let mut z = e.seed ^ fnv(P::ID.as_bytes()) ^ mix(shard as u64 + 1);
                    if release_pass() {
                        z = mix(z ^ 0x5eed);
                    }
                    for c in seed.chunks_mut(8) {
                        z = mix(z);
                        c.copy_from_slice(&z.to_le_bytes());
                    }
                    let cfg = Config {
                        cases: n,
                        failure_persistence: None,
                        max_shrink_iters: if P::FRESH_PROCESS { 1500 } else { 4000 },
                        max_shrink_time: 60_000,
                        max_local_rejects: 1_000_000,
                        max_global_rejects: 1_000_000,
                        ..Config::default()
                    };
                    let mut runner =
                        TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
                    let cell = RefCell::new(std::mem::take(&mut local));
                    let failed = Cell::new(false);
                    let r = runner.run(&P::strategy(e.tier), |case| {
                        if stop.load(Ordering::SeqCst) && !failed.get() {
                            return Ok(());
                        }
                        trace_case(tr, &case);
                        match run_eval::<P>(slots, slot, &case) {
                            Ok(info) => {
                                if !failed.get() {
                                    cell.borrow_mut().record(&case, &info);
                                }
                                Ok(())
                            }
                            Err(m) => {
                                failed.set(true);
                                stop.store(true, Ordering::SeqCst);
                                Err(TestCaseError::fail(m))
                            }
                        }
                    });
                    local = cell.into_inner();
                    match r {
                        Ok(()) => {}
                        Err(TestError::Fail(reason, case)) => {
                            failures.lock().unwrap().push(Failure {
                                order: 1_000_000_000 + shard,
                                json: serde_json::to_string(&case).unwrap(),
                                message: reason.message().to_string(),
                            });
                        }
                        Err(TestError::Abort(reason)) => {
                            println!("ERROR generator aborted: {}", reason.message());
                            std::process::exit(2);
                        }
                    }
                }
                tally.lock().unwrap().merge(local);
            })
            .unwrap();
        }
    });

    (tally.into_inner().unwrap(), failures.into_inner().unwrap())
}

fn report<P: Prop>(e: &Env, fixed: &[P::Case], start: Instant, t: Tally, mut f: Vec<Failure>) -> i32 {
    // simplest failure first
    f.sort_by_key(|x| (x.json.len(), x.order));
    let mut ev = serde_json::json!({
        "property": P::ID,
        "tier": format!("{:?}", e.tier).to_lowercase(),
        "seed": e.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": t.evaluations,
            "distinct_nontrivial": t.distinct.len(),
            "rule": P::RULE,
            "samples": t.samples,
            "fixed_cases": fixed.len(),
            "classes": t.labels,
        },
        "assumptions": P::ASSUMPTIONS,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": f.len().min(1),
    });
    let evdir = e.root.join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    if release_pass() {
        // the evidence of the first pass, and what this one adds to it
        let first = read_opt(&evdir.join(format!("{}.json", P::ID))).and_then(|t| serde_json::from_str::<serde_json::Value>(&t).ok());
        if let Some(mut first) = first.filter(|f| f["property"] == P::ID && f["coverage"].is_object()) {
            let c = &ev["coverage"];
            first["coverage"]["release_build"] = serde_json::json!({
                "evaluations": c["evaluations"], "distinct_nontrivial": c["distinct_nontrivial"], "classes": c["classes"]});
            first["violations"] = ev["violations"].clone();
            first["wall_s"] = (first["wall_s"].as_f64().unwrap_or(0.0) + start.elapsed().as_secs_f64()).into();
            ev = first;
        }
    }
    std::fs::write(evdir.join(format!("{}.json", P::ID)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!(
        "{}{}: {} cases ({} distinct non-trivial), {:.1}s; {:?}",
        P::ID,
        if release_pass() { " without debug assertions" } else { "" },
        t.evaluations,
        t.distinct.len(),
        start.elapsed().as_secs_f64(),
        t.labels
    );
    if let Some(first) = f.first() {
        let p = write_replay(e, P::ID, &first.json, &first.message);
        println!("{}: {}", P::ID, first.message);
        println!("{}: minimal case: {}", P::ID, trunc(&first.json, 2000));
        println!("VIOLATION property={} replay={}", P::ID, p.display());
        return 1;
    }
    0
}

fn trunc(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        format!("{}...", s.chars().take(n).collect::<String>())
    }
}

fn one_case<P: Prop>(json: &str) -> i32 {
    let case: P::Case = match serde_json::from_str(json) {
        Ok(c) => c,
        Err(err) => {
            println!("ERROR cannot parse case: {}", err);
            return 2;
        }
    };
    let limit = case_limit::<P>(&env());
    std::thread::spawn(move || {
        std::thread::sleep(limit);
        println!("no result within {:?} when evaluated alone", limit);
        std::process::exit(1);
    });
    // same stack size as the worker threads
    let r = std::thread::Builder::new().stack_size(64 << 20).spawn(move || eval::<P>(&case)).unwrap().join();
    match r {
        Ok(Ok(i)) => {
            println!("{}", serde_json::json!({"nontrivial": i.nontrivial, "labels": i.labels}));
            0
        }
        Ok(Err(m)) => {
            println!("{}", m);
            1
        }
        Err(_) => 2,
    }
}

pub struct Entry {
    id: &'static str,
    worker: fn() -> i32,
    shard: fn(usize) -> i32,
    case: fn(&str) -> i32,
}

pub fn reg<P: Prop>() -> Entry {
    Entry { id: P::ID, worker: worker::<P>, shard: shard_process::<P>, case: one_case::<P> }
}

/// Entry point of the harness binaries.
pub fn main(entries: &[Entry]) {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let find = |id: &str| {
        entries.iter().find(|e| e.id == id).unwrap_or_else(|| {
            println!("ERROR unknown property {}", id);
            std::process::exit(2)
        })
    };
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("run") => supervise(find(&args[2]).id),
        Some("worker") => (find(&args[2]).worker)(),
        Some("shard") => (find(&args[2]).shard)(args[3].parse().unwrap()),
        Some("case") => {
            let mut s = String::new();
            std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap();
            (find(&args[2]).case)(&s)
        }
        Some("replay") => {
            let text = std::fs::read_to_string(&args[2]).unwrap();
            let v: serde_json::Value = serde_json::from_str(&text).unwrap();
            (find(v["property"].as_str().unwrap()).case)(&v["case"].to_string())
        }
        Some("list") => {
            for e in entries {
                println!("{}", e.id);
            }
            0
        }
        _ => {
            println!("usage: run ID | replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}

/// Run the worker in a child process so that a crash by signal can be attributed to a case.
fn supervise(id: &str) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().unwrap();
    let st = match std::process::Command::new(&exe).arg("worker").arg(id).status() {
        Ok(s) => s,
        Err(e) => {
            println!("ERROR cannot start worker: {}", e);
            return 2;
        }
    };
    if let Some(c) = st.code() {
        return if c == 0 || c == 1 { c } else { 2 };
    }
    let sig = st.signal().unwrap_or(0);
    println!("{}: worker ended by signal {}", id, sig);
    if !matches!(sig, 4 | 6 | 7 | 8 | 11) {
        return 2; // killed from outside (out of memory, timeout)
    }
    let e = env();
    let trace = e.root.join("harness").join(format!("trace-{}.json", id));
    let _ = std::fs::remove_file(&trace);
    let st2 = std::process::Command::new(&exe).arg("worker").arg(id).env("JV_TRACE", &trace).status().unwrap();
    if st2.signal().is_none() {
        // did not crash again: take its own verdict unless it is clean
        let _ = std::fs::remove_file(&trace);
        println!("ERROR crash did not reproduce");
        return if st2.code() == Some(1) { 1 } else { 2 };
    }
    let case = read_opt(&trace);
    let _ = std::fs::remove_file(&trace);
    let case = match case {
        Some(c) => c,
        None => {
            println!("ERROR crash without a traced case");
            return 2;
        }
    };
    let msg = format!("process crashed with signal {} on this case", st2.signal().unwrap());
    let p = write_replay(&e, id, &case, &msg);
    let again = std::process::Command::new(&exe).arg("replay").arg(&p).status().unwrap();
    println!("{}: {}", id, msg);
    if again.signal().is_some() || again.code() == Some(1) {
        write_crash_evidence(&e, id, &case);
        println!("VIOLATION property={} replay={}", id, p.display());
        return 1;
    }
    println!("ERROR crash does not reproduce from the single case");
    2
}

fn read_opt(p: &Path) -> Option<String> {
    std::fs::read_to_string(p).ok()
}

/// Convenience: boxed strategy.
pub fn boxed<S: Strategy + 'static>(s: S) -> BoxedStrategy<S::Value>
where
    S::Value: 'static,
{
    s.boxed()
}

/// Small deterministic generator (xorshift/splitmix) for use inside cases, seeded by the case.
#[derive(Clone, Debug)]
pub struct Sm(pub u64);
impl Sm {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        (((self.next() as u128) * (n as u128)) >> 64) as u64
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.next().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i as u64 + 1) as usize);
        }
    }
}
