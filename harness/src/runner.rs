//! Runs the sub-checks of one property: generation, oracle, shrinking,
//! counting, replay files and evidence.
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Debug;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};

use crate::refhash;

pub const SHARDS: u64 = 16;
const STACK: usize = 8 << 20;

pub type Verdict = Result<(), String>;

/// Labels of one case; `nontrivial` says whether it counts by the rule.
pub struct Class {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
}

pub fn class(nontrivial: bool, labels: Vec<&'static str>) -> Class {
    Class { nontrivial, labels }
}

pub trait Case: Serialize + DeserializeOwned + Debug + Clone + Send + 'static {}
impl<T: Serialize + DeserializeOwned + Debug + Clone + Send + 'static> Case for T {}

pub trait Sub: Send + Sync {
    fn name(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    fn cases(&self, thorough: bool) -> u64;
    fn shard(&self, ctl: &Ctl, shard: u64) -> Shard;
    fn replay(&self, case: &Value) -> Result<Verdict, String>;
}

pub struct SubCheck<C: Case> {
    pub name: &'static str,
    /// How cases are made and which count as non-trivial.
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub strategy: fn() -> BoxedStrategy<C>,
    pub classify: fn(&C) -> Class,
    pub run: fn(&C) -> Verdict,
}

#[derive(Default)]
pub struct Shard {
    evals: u64,
    hashes: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<Value>,
    failure: Option<Failure>,
    error: Option<String>,
    known: BTreeSet<String>,
}

/// The key of an outcome that may be a listed finding.
fn finding_key(e: &str) -> Option<&str> {
    e.strip_prefix("KNOWN:").and_then(|r| r.split(':').next())
}

/// Findings listed for one property: key and description.
fn listed(paths: &Paths, id: &str) -> BTreeMap<String, String> {
    let text = std::fs::read_to_string(paths.verif.join("known_findings.txt")).unwrap_or_default();
    let mut out = BTreeMap::new();
    for l in text.lines() {
        let Some(rest) = l.strip_prefix(&format!("finding: property={id} key=")) else { continue };
        let (key, what) = rest.split_once(' ').unwrap_or((rest, ""));
        out.insert(key.to_string(), what.to_string());
    }
    out
}

pub struct Failure {
    case: Value,
    reason: String,
    shrinks: u64,
}

pub struct Ctl {
    pub property: String,
    pub seed: u64,
    pub thorough: bool,
    pub scale: f64,
    known: BTreeSet<String>,
    stop: AtomicBool,
    /// When to stop starting new cases, so that a slow machine still gets an answer.
    until: Instant,
    curtailed: AtomicBool,
    journal: Option<std::path::PathBuf>,
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = payload_text(info.payload());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} at {loc}")));
    }));
}

fn payload_text(p: &(dyn Any + Send)) -> String {
    p.downcast_ref::<&str>()
        .map(|s| (*s).to_string())
        .or_else(|| p.downcast_ref::<String>().cloned())
        .unwrap_or_else(|| "panic".into())
}

/// Runs `f`; a panic becomes `Err("panicked: ...")`.
pub fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    PANIC.with(|p| *p.borrow_mut() = None);
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        let m = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
        format!("{what} panicked: {m}")
    })
}

fn hash64(b: &[u8]) -> u64 {
    // FNV-1a with a final mix; only used to count distinct cases.
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for x in b {
        h = (h ^ u64::from(*x)).wrapping_mul(0x100_0000_01b3);
    }
    h ^= h >> 29;
    h.wrapping_mul(0xbf58_476d_1ce4_e5b9)
}

fn seed_bytes(ctl: &Ctl, sub: &str, shard: u64, chunk: u64) -> [u8; 32] {
    refhash::sha256(format!("{}|{}|{}|{}|{}", ctl.seed, ctl.property, sub, shard, chunk).as_bytes())
}

fn clip(v: &Value) -> Value {
    let s = v.to_string();
    if s.len() <= 700 {
        v.clone()
    } else {
        let mut cut = 600;
        while !s.is_char_boundary(cut) {
            cut -= 1;
        }
        json!(format!("{}... ({} chars)", &s[..cut], s.len()))
    }
}

impl<C: Case> Sub for SubCheck<C> {
    fn name(&self) -> &'static str {
        self.name
    }
    fn rule(&self) -> &'static str {
        self.rule
    }
    fn cases(&self, thorough: bool) -> u64 {
        if thorough {
            self.thorough
        } else {
            self.quick
        }
    }

    fn shard(&self, ctl: &Ctl, shard: u64) -> Shard {
        let total = ((self.cases(ctl.thorough) as f64) * ctl.scale).ceil() as u64;
        let n = total / SHARDS + u64::from(shard < total % SHARDS);
        let out = RefCell::new(Shard::default());
        let size = (n / 16).clamp(32, 100_000);
        for chunk in 0..n.div_ceil(size) {
            if ctl.stop.load(Ordering::Relaxed) {
                break;
            }
            if Instant::now() > ctl.until {
                ctl.curtailed.store(true, Ordering::Relaxed);
                break;
            }
            self.chunk(ctl, shard, chunk, size.min(n - chunk * size), &out);
            let o = out.borrow();
            if o.failure.is_some() || o.error.is_some() {
                break;
            }
        }
        out.into_inner()
    }

    fn replay(&self, case: &Value) -> Result<Verdict, String> {
        let case: C = serde_json::from_value(case.clone()).map_err(|e| format!("bad case for {}: {e}", self.name))?;
        Ok(no_panic(self.name, || (self.run)(&case)).and_then(|r| r))
    }
}

impl<C: Case> SubCheck<C> {
    fn chunk(&self, ctl: &Ctl, shard: u64, chunk: u64, n: u64, out: &RefCell<Shard>) {
        let config = Config {
            cases: u32::try_from(n).unwrap(),
            failure_persistence: None,
            max_shrink_iters: 20_000,
            max_shrink_time: 60_000,
            max_global_rejects: 1_000_000,
            max_local_rejects: 1_000_000,
            ..Config::default()
        };
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(ctl, self.name, shard, chunk));
        let mut runner = TestRunner::new_with_rng(config, rng);
        let strategy = (self.strategy)();
        let failed = std::cell::Cell::new(false);
        let shrinks = std::cell::Cell::new(0u64);
        let mut journal = ctl.journal.as_ref().map(|d| {
            std::fs::File::create(d.join(format!("{}.{}", self.name, shard))).expect("journal")
        });
        let journal = RefCell::new(journal.take());
        // The smallest failing case so far, in case the shrinker itself gives up.
        let last: RefCell<Option<(C, String)>> = RefCell::new(None);
        let result = catch_unwind(AssertUnwindSafe(|| runner.run(&strategy, |case: C| {
            if ctl.stop.load(Ordering::Relaxed) && !failed.get() {
                return Ok(());
            }
            if let Some(f) = journal.borrow_mut().as_mut() {
                use std::io::Seek;
                let text = json!({"sub": self.name, "case": case}).to_string();
                let _ = f.set_len(0);
                let _ = f.rewind();
                let _ = f.write_all(text.as_bytes());
            }
            if failed.get() {
                shrinks.set(shrinks.get() + 1);
            } else {
                let mut o = out.borrow_mut();
                o.evals += 1;
                let c = (self.classify)(&case);
                for l in c.labels {
                    *o.labels.entry(format!("{}/{}", self.name, l)).or_default() += 1;
                }
                if c.nontrivial {
                    let text = serde_json::to_vec(&case).unwrap_or_default();
                    let new = o.hashes.insert(hash64(&text));
                    // The first samples of a shard tend to be tiny; keep a spread.
                    if new && shard == 0 && o.samples.len() < 3 && o.hashes.len() % 7 == 3 {
                        let v = clip(&serde_json::to_value(&case).unwrap_or(Value::Null));
                        o.samples.push(json!({"check": self.name, "case": v}));
                    }
                }
            }
            match no_panic(self.name, || (self.run)(&case)).and_then(|r| r) {
                Ok(()) => Ok(()),
                Err(e) if finding_key(&e).is_some_and(|k| ctl.known.contains(k)) => {
                    out.borrow_mut().known.insert(finding_key(&e).unwrap_or_default().to_string());
                    Ok(())
                }
                Err(e) => {
                    failed.set(true);
                    *last.borrow_mut() = Some((case, e.clone()));
                    Err(TestCaseError::fail(e))
                }
            }
        })));
        let mut o = out.borrow_mut();
        let result = match (result, last.into_inner()) {
            (Ok(r), _) => r,
            (Err(_), Some((case, e))) => Err(TestError::Fail(e.into(), case)),
            (Err(_), None) => {
                let m = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
                o.error = Some(format!("{}: generator panicked: {m}", self.name));
                return;
            }
        };
        match result {
            Ok(()) => {}
            Err(TestError::Fail(reason, case)) => {
                ctl.stop.store(true, Ordering::Relaxed);
                o.failure = Some(Failure {
                    case: serde_json::to_value(&case).unwrap_or(Value::Null),
                    reason: reason.message().to_string(),
                    shrinks: shrinks.get(),
                });
            }
            Err(TestError::Abort(r)) => o.error = Some(format!("{}: generator gave up: {r}", self.name)),
        }
    }
}

pub struct Property {
    pub id: &'static str,
    pub subs: Vec<Box<dyn Sub>>,
    pub assumptions: &'static [&'static str],
}

pub struct Paths {
    pub verif: std::path::PathBuf,
}

impl Paths {
    fn replay(&self, id: &str, sub: &str) -> std::path::PathBuf {
        self.verif.join("replays").join(format!("{id}-{sub}.json"))
    }
}

pub enum Outcome {
    Clean,
    Violation(std::path::PathBuf),
    Error(String),
}

fn write_replay(paths: &Paths, id: &str, sub: &str, case: &Value, reason: &str, shrinks: u64) -> std::path::PathBuf {
    let p = paths.replay(id, sub);
    let _ = std::fs::create_dir_all(p.parent().unwrap());
    let body = json!({"property": id, "sub": sub, "case": case, "reason": reason, "shrink_steps": shrinks});
    std::fs::write(&p, serde_json::to_string_pretty(&body).unwrap()).expect("write replay");
    p
}

/// Saved cases of repaired defects and earlier finds, replayed before the search.
pub fn regressions(
    paths: &Paths,
    prop: &Property,
    known: &BTreeSet<String>,
    hit: &mut BTreeSet<String>,
) -> Result<(u64, Option<(String, Value, String)>), String> {
    let file = paths.verif.join("harness/regressions").join(format!("{}.jsonl", prop.id));
    let Ok(text) = std::fs::read_to_string(&file) else {
        return Ok((0, None));
    };
    let mut n = 0;
    for line in text.lines().filter(|l| !l.trim().is_empty()) {
        let v: Value = serde_json::from_str(line).map_err(|e| format!("{}: {e}", file.display()))?;
        let name = v["sub"].as_str().unwrap_or_default();
        let sub = prop
            .subs
            .iter()
            .find(|s| s.name() == name)
            .ok_or_else(|| format!("{}: unknown sub {name}", file.display()))?;
        n += 1;
        if let Err(e) = sub.replay(&v["case"])? {
            if let Some(k) = finding_key(&e).filter(|k| known.contains(*k)) {
                hit.insert(k.to_string());
                continue;
            }
            return Ok((n, Some((name.to_string(), v["case"].clone(), e))));
        }
    }
    Ok((n, None))
}

pub fn run(prop: &Property, paths: &Paths, ctl: &mut Ctl, only: Option<&str>) -> Outcome {
    let start = Instant::now();
    let findings = listed(paths, prop.id);
    ctl.known = findings.keys().cloned().collect();
    let mut hit = BTreeSet::new();
    let (reg, bad) = match regressions(paths, prop, &ctl.known, &mut hit) {
        Ok(x) => x,
        Err(e) => return Outcome::Error(e),
    };
    let mut shards: Vec<(usize, Shard)> = vec![];
    if bad.is_none() {
        let subs: Vec<usize> =
            (0..prop.subs.len()).filter(|i| only.map_or(true, |o| prop.subs[*i].name() == o)).collect();
        let tasks: Vec<(usize, u64)> = (0..SHARDS).flat_map(|s| subs.iter().map(move |i| (*i, s))).collect();
        let next = AtomicUsize::new(0);
        let done = Mutex::new(vec![]);
        let ctl_ref: &Ctl = ctl;
        std::thread::scope(|sc| {
            let threads = std::env::var("VP_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize);
            for _ in 0..threads {
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn_scoped(sc, || loop {
                        let k = next.fetch_add(1, Ordering::Relaxed);
                        let Some((i, s)) = tasks.get(k).copied() else { break };
                        let t0 = Instant::now();
                        let r = prop.subs[i].shard(ctl_ref, s);
                        if std::env::var_os("VP_TIMES").is_some() {
                            eprintln!("{} shard {} {:.2}s {} cases", prop.subs[i].name(), s, t0.elapsed().as_secs_f64(), r.evals);
                        }
                        done.lock().unwrap().push((i, r));
                    })
                    .expect("thread");
            }
        });
        shards = done.into_inner().unwrap();
    }
    let mut evals = reg;
    let mut distinct = 0u64;
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = vec![];
    let mut per_sub = serde_json::Map::new();
    let mut failure: Option<(String, Failure)> = None;
    let mut error = None;
    for (i, sub) in prop.subs.iter().enumerate() {
        let mut set: HashSet<u64> = HashSet::new();
        let mut n = 0;
        for (_, s) in shards.iter_mut().filter(|(k, _)| *k == i) {
            n += s.evals;
            hit.append(&mut s.known);
            set.extend(s.hashes.drain());
            for (k, v) in &s.labels {
                *labels.entry(k.clone()).or_default() += v;
            }
            samples.append(&mut s.samples);
            if let Some(e) = s.error.take() {
                error = Some(e);
            }
            if let Some(f) = s.failure.take() {
                let better = match &failure {
                    None => true,
                    Some((_, old)) => f.case.to_string().len() < old.case.to_string().len(),
                };
                if better {
                    failure = Some((sub.name().to_string(), f));
                }
            }
        }
        evals += n;
        distinct += set.len() as u64;
        per_sub.insert(
            sub.name().to_string(),
            json!({"cases": n, "distinct_nontrivial": set.len(), "rule": sub.rule()}),
        );
    }
    if samples.is_empty() {
        samples.push(json!("no non-trivial case was reached before the run stopped"));
    }
    let outcome = if let Some((sub, case, reason)) = bad {
        let p = write_replay(paths, prop.id, &sub, &case, &format!("saved case fails again: {reason}"), 0);
        println!("{}: {}: saved case fails again: {reason}", prop.id, sub);
        Outcome::Violation(p)
    } else if let Some((sub, f)) = failure {
        let p = write_replay(paths, prop.id, &sub, &f.case, &f.reason, f.shrinks);
        println!("{}: {}: {}", prop.id, sub, f.reason);
        println!("minimal case after {} shrink steps: {}", f.shrinks, clip(&f.case));
        Outcome::Violation(p)
    } else if let Some(e) = error {
        Outcome::Error(e)
    } else {
        Outcome::Clean
    };
    for k in &hit {
        println!("KNOWN-FINDING: property={} {}", prop.id, findings.get(k).map_or("", String::as_str));
    }
    let violations = i32::from(matches!(outcome, Outcome::Violation(_)));
    let evidence = json!({
        "property": prop.id,
        "tier": if ctl.thorough { "thorough" } else { "quick" },
        "seed": ctl.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": distinct,
            "rule": prop.subs.iter().map(|s| format!("[{}] {}", s.name(), s.rule())).collect::<Vec<_>>().join(" "),
            "samples": samples,
            "saved_cases_replayed": reg,
            "checks": per_sub,
            "classes": labels,
            "known_findings_met": hit,
            "curtailed_by_time": ctl.curtailed.load(Ordering::Relaxed),
        },
        "assumptions": prop.assumptions,
        "wall_s": (start.elapsed().as_secs_f64() * 1000.0).round() / 1000.0,
        "violations": violations,
    });
    let dir = paths.verif.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(
        dir.join(format!("{}.json", prop.id)),
        serde_json::to_string_pretty(&evidence).unwrap(),
    ) {
        return Outcome::Error(format!("cannot write evidence: {e}"));
    }
    if only.is_none() && matches!(outcome, Outcome::Clean) {
        println!("{}: {} cases, {} distinct non-trivial, {:.1} s", prop.id, evals, distinct, start.elapsed().as_secs_f64());
    }
    outcome
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|s| s.trim().parse().ok()).unwrap_or(d)
}

/// Entry point of every check binary.
///
/// `<bin> <ID>` supervises a worker; `<bin> worker <ID>` does the search;
/// `<bin> replay <file>` re-runs one saved case.
pub fn main_with(props: fn() -> Vec<Property>) -> ! {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let verif = std::env::var("VP_VERIF").unwrap_or_else(|_| "/verif".into());
    let paths = Paths { verif: verif.into() };
    for e in [crate::refhash::self_test(), crate::refc::self_test()] {
        if let Err(e) = e {
            eprintln!("ERROR {e}");
            std::process::exit(2);
        }
    }
    let code = match args.first().map(String::as_str) {
        Some("worker") => worker(props, &paths, &args[1..]),
        Some("replay") => replay(props, &args[1]),
        Some(id) => supervise(&paths, id, &args[1..]),
        None => {
            eprintln!("usage: <ID> | worker <ID> [sub] | replay <file>");
            2
        }
    };
    std::process::exit(code)
}

fn worker(props: fn() -> Vec<Property>, paths: &Paths, args: &[String]) -> i32 {
    install_hook();
    let all = props();
    let Some(prop) = all.iter().find(|p| p.id == args[0]) else {
        eprintln!("ERROR unknown property {}", args[0]);
        return 2;
    };
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let mut ctl = Ctl {
        property: prop.id.to_string(),
        seed: env_u64("VERIF_SEED", 1),
        thorough,
        scale: std::env::var("VP_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0),
        known: BTreeSet::new(),
        stop: AtomicBool::new(false),
        until: Instant::now() + Duration::from_secs(env_u64("VP_BUDGET", if thorough { 5400 } else { 120 })),
        curtailed: AtomicBool::new(false),
        journal: std::env::var_os("VP_JOURNAL").map(Into::into),
    };
    match run(prop, paths, &mut ctl, args.get(1).map(String::as_str)) {
        Outcome::Clean => 0,
        Outcome::Violation(p) => {
            println!("VIOLATION property={} replay={}", prop.id, p.display());
            1
        }
        Outcome::Error(e) => {
            eprintln!("ERROR {e}");
            2
        }
    }
}

fn replay(props: fn() -> Vec<Property>, file: &str) -> i32 {
    install_hook();
    let text = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("ERROR {file}: {e}");
            return 2;
        }
    };
    let v: Value = serde_json::from_str(&text).expect("replay file is JSON");
    let all = props();
    let id = v["property"].as_str().unwrap_or_default();
    let sub = v["sub"].as_str().unwrap_or_default();
    let Some(sub) = all.iter().filter(|p| p.id == id).flat_map(|p| &p.subs).find(|s| s.name() == sub) else {
        eprintln!("ERROR unknown property/sub in {file}");
        return 2;
    };
    // Same stack as the workers have.
    let r = std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(sc, || sub.replay(&v["case"]))
            .expect("thread")
            .join()
    });
    match r {
        Ok(Ok(Ok(()))) => {
            println!("holds on this case");
            0
        }
        Ok(Ok(Err(e))) => {
            println!("{e}");
            println!("VIOLATION property={id} replay={file}");
            1
        }
        Ok(Err(e)) => {
            eprintln!("ERROR {e}");
            2
        }
        Err(_) => 2,
    }
}

/// Signals that mean the code under test brought the process down.
fn crash_signal(st: std::process::ExitStatus) -> Option<i32> {
    use std::os::unix::process::ExitStatusExt;
    // SIGILL, SIGABRT, SIGBUS, SIGSEGV; SIGKILL (memory, time) is not a verdict.
    st.signal().filter(|s| [4, 6, 7, 11].contains(s))
}

/// Waits for a child for at most `limit`; `None`: it was still running and was ended.
fn wait_for(
    c: &mut std::process::Command,
    limit: Duration,
) -> std::io::Result<Option<std::process::ExitStatus>> {
    let mut child = c.spawn()?;
    let start = Instant::now();
    loop {
        if let Some(st) = child.try_wait()? {
            return Ok(Some(st));
        }
        if start.elapsed() > limit {
            let _ = child.kill();
            let _ = child.wait();
            return Ok(None);
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

/// CPU seconds a running child has used.
fn cpu_seconds(pid: u32) -> f64 {
    let stat = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let f: Vec<&str> = stat.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let t = |i: usize| f.get(i).and_then(|s| s.parse::<f64>().ok()).unwrap_or(0.0);
    (t(11) + t(12)) / 100.0
}

/// Replays one case; true if it fails, brings the process down, or burns 30 s
/// of CPU (cases take milliseconds) without an answer. Waiting is no verdict.
fn replay_fails(exe: &std::path::Path, file: &std::path::Path) -> bool {
    let mut c = std::process::Command::new(exe);
    c.arg("replay").arg(file).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
    let Ok(mut child) = c.spawn() else { return false };
    let start = Instant::now();
    loop {
        match child.try_wait() {
            Ok(Some(st)) => return crash_signal(st).is_some() || st.code() == Some(1),
            Ok(None) => {}
            Err(_) => return false,
        }
        let busy = cpu_seconds(child.id()) > 30.0;
        if busy || start.elapsed() > Duration::from_secs(90) {
            let _ = child.kill();
            let _ = child.wait();
            return busy;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn supervise(paths: &Paths, id: &str, rest: &[String]) -> i32 {
    let exe = std::env::current_exe().expect("exe");
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let deadline = Duration::from_secs(env_u64("VP_DEADLINE", if thorough { 7200 } else { 240 }));
    let child = |args: &[&str], journal: Option<&std::path::Path>| {
        let mut c = std::process::Command::new(&exe);
        c.args(args).args(rest);
        if let Some(j) = journal {
            c.env("VP_JOURNAL", j);
        }
        wait_for(&mut c, deadline)
    };
    let st = match child(&["worker", id], None) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("ERROR cannot start worker: {e}");
            return 2;
        }
    };
    let what = match st {
        None => format!("still running after {} s", deadline.as_secs()),
        Some(st) => match crash_signal(st) {
            Some(sig) => format!("ended by signal {sig}"),
            None => return st.code().unwrap_or(2),
        },
    };
    // The worker was brought down or hangs: find the case by journalling every case.
    println!("{id}: worker {what}; searching for the case");
    let dir = paths.verif.join("replays").join(format!(".journal-{id}"));
    let _ = std::fs::remove_dir_all(&dir);
    let _ = std::fs::create_dir_all(&dir);
    let _ = child(&["worker", id], Some(&dir));
    let mut found = None;
    // Saved cases first: they run before the journalled search.
    let mut candidates: Vec<Value> = std::fs::read_to_string(
        paths.verif.join("harness/regressions").join(format!("{id}.jsonl")),
    )
    .unwrap_or_default()
    .lines()
    .filter_map(|l| serde_json::from_str(l).ok())
    .collect();
    if let Ok(rd) = std::fs::read_dir(&dir) {
        let mut files: Vec<_> = rd.filter_map(|e| e.ok().map(|e| e.path())).collect();
        files.sort();
        candidates.extend(
            files.iter().filter_map(|f| serde_json::from_str(&std::fs::read_to_string(f).ok()?).ok()),
        );
    }
    for v in candidates {
        let sub = v["sub"].as_str().unwrap_or_default().to_string();
        let p = write_replay(paths, id, &sub, &v["case"], &format!("worker {what}"), 0);
        let failed = replay_fails(&exe, &p);
        if failed {
            found = Some(p);
            break;
        }
        let _ = std::fs::remove_file(&p);
    }
    let _ = std::fs::remove_dir_all(&dir);
    match found {
        Some(p) => {
            let evidence = json!({
                "property": id,
                "tier": std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()),
                "seed": env_u64("VERIF_SEED", 1),
                "level": "exploration",
                "coverage": {
                    "evaluations": 1, "distinct_nontrivial": 1,
                    "rule": "the process was brought down or did not finish; the journalled case that does so is reported",
                    "samples": [clip(&serde_json::from_str::<Value>(&std::fs::read_to_string(&p).unwrap_or_default()).unwrap_or(Value::Null))],
                },
                "wall_s": 0.0,
                "violations": 1,
            });
            let _ = std::fs::create_dir_all(paths.verif.join("evidence"));
            let _ = std::fs::write(
                paths.verif.join("evidence").join(format!("{id}.json")),
                serde_json::to_string_pretty(&evidence).unwrap(),
            );
            println!("{id}: worker {what}");
            println!("VIOLATION property={id} replay={}", p.display());
            1
        }
        None => {
            eprintln!("ERROR worker {what} and no single case reproduces it");
            2
        }
    }
}

/// Shorthand used by the checks.
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => {
        if !$c {
            return Err(format!($($a)*));
        }
    };
}
