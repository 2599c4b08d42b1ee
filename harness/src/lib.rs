//! Shared driver for the bounded-exhaustive checks.
//!
//! A check enumerates *cases* (inputs, histories, schedules).  Every case is run against the
//! real implementation and its observable outcome is compared with a reference model.  The
//! driver owns: parallel execution of cases, the watchdog (a hang is a violation, not an
//! engine error), crash containment (the exploration runs in a child process; a crash of the
//! code under test is attributed to the case being run), the known-findings filter, replay
//! artefacts and the evidence file.

use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::AssertUnwindSafe;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub mod http;
pub mod reg;

/// Number of worker threads.
pub const WORKERS: usize = 8;
/// A single case running longer than this is reported as a hang.
pub const CASE_LIMIT: Duration = Duration::from_secs(120);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

struct Slot {
    case: Option<(String, Instant)>,
}

struct Inner {
    distinct: HashSet<u64>,
    outcomes: BTreeMap<String, u64>,
    samples: Vec<Value>,
    violations: Vec<Value>,
    known_hits: BTreeMap<String, u64>,
    extra: BTreeMap<String, Value>,
}

/// One running check.
pub struct Check {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    level: &'static str,
    start: Instant,
    scratch: PathBuf,
    evaluations: AtomicU64,
    states: AtomicU64,
    transitions: AtomicU64,
    traces: AtomicU64,
    inner: Mutex<Inner>,
    slots: Vec<Mutex<Slot>>,
    stop: AtomicBool,
    only: Option<String>,
    known: Vec<Value>,
    capped: AtomicBool,
}

pub fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR")
        .map(PathBuf::from)
        .unwrap_or_else(|_| PathBuf::from("/verif"))
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

thread_local! {
    static WORKER: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
    static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Runs `f`, turning a panic of the code under test into `Err(message)`.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let prev = QUIET.with(|q| q.replace(true));
    let r = std::panic::catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(prev));
    r.map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            format!("PANIC: {s}")
        } else if let Some(s) = e.downcast_ref::<String>() {
            format!("PANIC: {s}")
        } else {
            "PANIC".to_owned()
        }
    })
}

impl Check {
    /// True if the case should be explored (always, unless a single case is being replayed).
    pub fn wants(&self, case: &str) -> bool {
        !self.stopped() && self.only.as_deref().map(|o| o == case).unwrap_or(true)
    }
    pub fn replaying(&self) -> bool {
        self.only.is_some()
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Ordering::Relaxed)
    }
    /// The directory everything this run writes is below.
    pub fn scratch_root(&self) -> PathBuf {
        self.scratch.clone()
    }
    /// Scratch directory of the current worker (on tmpfs, removed at the end).
    pub fn scratch(&self) -> PathBuf {
        let d = self.scratch.join(format!("w{}", WORKER.with(|w| w.get())));
        std::fs::create_dir_all(&d).expect("scratch");
        d
    }
    /// Fresh scratch sub-directory.
    pub fn fresh(&self, name: &str) -> PathBuf {
        let d = self.scratch().join(name);
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).expect("fresh");
        d
    }
    /// Count one evaluated case: `canonical` identifies the case + observable outcome.
    pub fn eval<T: Hash + ?Sized>(&self, canonical: &T, nontrivial: bool) {
        let _ = self.evaluations.fetch_add(1, Ordering::Relaxed);
        if nontrivial {
            let h = hash_of(canonical);
            let _ = self.inner.lock().expect("lock").distinct.insert(h);
        }
    }
    /// Count an outcome class (printed; one class out of many cases means a vacuous run).
    pub fn outcome(&self, class: &str) {
        *self
            .inner
            .lock()
            .expect("lock")
            .outcomes
            .entry(class.to_owned())
            .or_insert(0) += 1;
    }
    pub fn add_states(&self, n: u64) {
        let _ = self.states.fetch_add(n, Ordering::Relaxed);
    }
    pub fn add_transitions(&self, n: u64) {
        let _ = self.transitions.fetch_add(n, Ordering::Relaxed);
    }
    pub fn add_traces(&self, n: u64) {
        let _ = self.traces.fetch_add(n, Ordering::Relaxed);
    }
    pub fn note(&self, k: &str, v: Value) {
        let _ = self.inner.lock().expect("lock").extra.insert(k.to_owned(), v);
    }
    /// A cap was hit: the run is not exhaustive within the stated bounds.
    pub fn capped(&self, why: &str) {
        self.capped.store(true, Ordering::Relaxed);
        self.note("cap", json!(why));
    }
    pub fn sample(&self, v: impl FnOnce() -> Value) {
        let mut i = self.inner.lock().expect("lock");
        if i.samples.len() < 4 {
            i.samples.push(v());
        }
    }
    /// Record a violation, unless the known-findings file lists exactly this one.
    /// `signature` is the specific input/history identity a known finding is matched on.
    pub fn violation(&self, case: &str, signature: &str, input: Value, expected: &str, actual: &str) {
        let mut i = self.inner.lock().expect("lock");
        for k in &self.known {
            if k["signature"].as_str() == Some(signature) {
                *i.known_hits
                    .entry(k["what"].as_str().unwrap_or("?").to_owned())
                    .or_insert(0) += 1;
                return;
            }
        }
        if i.violations.len() < 10 {
            i.violations.push(json!({
                "property": self.id, "case": case, "signature": signature, "input": input,
                "expected": expected, "actual": actual,
                "replay_cmd": format!("cd /verif && ./check.sh {} {} --case '{}'", self.id,
                    if self.tier == Tier::Quick {"quick"} else {"thorough"}, case),
            }));
        }
        if i.violations.len() >= 10 {
            self.stop.store(true, Ordering::Relaxed);
        }
    }
    /// Compare and report. Returns true when equal.
    pub fn expect_eq(&self, case: &str, input: impl FnOnce() -> Value, expected: &str, actual: &str) -> bool {
        if self.replaying() {
            eprintln!("--- case {case}\nexpected: {expected}\nactual:   {actual}");
        }
        if expected == actual {
            true
        } else {
            self.violation(case, case, input(), expected, actual);
            false
        }
    }
    fn set_case(&self, c: Option<String>) {
        let w = WORKER.with(|w| w.get());
        if let Some(c) = &c {
            // For crash attribution.
            let _ = std::fs::write(self.scratch.join(format!("case-{w}")), c);
        } else {
            let _ = std::fs::remove_file(self.scratch.join(format!("case-{w}")));
        }
        self.slots[w].lock().expect("lock").case = c.map(|c| (c, Instant::now()));
    }
    /// Runs one named case on the current thread, with watchdog and panic guard.
    /// A panic is a violation: the code under test never panics on enumerated input.
    pub fn case(&self, name: &str, f: impl FnOnce()) {
        if !self.wants(name) {
            return;
        }
        self.set_case(Some(name.to_owned()));
        let r = guarded(f);
        self.set_case(None);
        if let Err(p) = r {
            self.violation(name, name, json!(null), "no panic", &p);
        }
    }
    /// Runs all items in parallel on dedicated workers, each inside its own single-threaded
    /// rayon pool (so that file enumeration inside the code under test is sequential).
    pub fn par<T: Send, I: Iterator<Item = T> + Send>(
        self: &Arc<Self>,
        items: I,
        name: impl Fn(&T) -> String + Sync,
        f: impl Fn(&Arc<Check>, &str, T) + Sync,
    ) {
        let it = Mutex::new(items);
        let next = AtomicUsize::new(0);
        std::thread::scope(|s| {
            for _ in 0..WORKERS {
                let _ = std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, || {
                        let w = next.fetch_add(1, Ordering::Relaxed);
                        let pool = rayon::ThreadPoolBuilder::new()
                            .num_threads(1)
                            .stack_size(64 << 20)
                            .build()
                            .expect("pool");
                        pool.install(|| {
                            WORKER.with(|c| c.set(w));
                            loop {
                                if self.stopped() {
                                    break;
                                }
                                let batch: Vec<T> = {
                                    let mut g = it.lock().expect("lock");
                                    g.by_ref().take(16).collect()
                                };
                                if batch.is_empty() {
                                    break;
                                }
                                for t in batch {
                                    let n = name(&t);
                                    if self.wants(&n) {
                                        self.case(&n, || f(self, &n, t));
                                    }
                                }
                            }
                        });
                    })
                    .expect("spawn");
            }
        });
    }
    fn write_evidence(&self, rule: &str, assumptions: &[&str]) -> i32 {
        let i = self.inner.lock().expect("lock");
        let mut cov = serde_json::Map::new();
        let samples = if i.samples.is_empty() { vec![json!("none")] } else { i.samples.clone() };
        let _ = cov.insert("samples".into(), Value::Array(samples));
        let _ = cov.insert("rule".into(), json!(rule));
        let _ = cov.insert("evaluations".into(), json!(self.evaluations.load(Ordering::Relaxed)));
        let _ = cov.insert("distinct_nontrivial".into(), json!(i.distinct.len()));
        let _ = cov.insert(
            "exhaustive".into(),
            json!(!self.capped.load(Ordering::Relaxed) && i.violations.is_empty() && !self.replaying()),
        );
        if self.level == "model_checking" {
            let _ = cov.insert("states".into(), json!(self.states.load(Ordering::Relaxed)));
            let _ = cov.insert("transitions".into(), json!(self.transitions.load(Ordering::Relaxed)));
            let _ = cov.insert(
                "traces_validated_against_impl".into(),
                json!(self.traces.load(Ordering::Relaxed)),
            );
        }
        let _ = cov.insert("outcomes".into(), json!(i.outcomes));
        let _ = cov.insert("known_finding_hits".into(), json!(i.known_hits));
        for (k, v) in &i.extra {
            let _ = cov.insert(k.clone(), v.clone());
        }
        let ev = json!({
            "property": self.id,
            "tier": if self.tier == Tier::Quick {"quick"} else {"thorough"},
            "seed": self.seed,
            "level": self.level,
            "coverage": cov,
            "assumptions": assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": i.violations.len(),
        });
        let dir = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(
            dir.join(format!("{}.json", self.id)),
            serde_json::to_string_pretty(&ev).expect("json"),
        )
        .expect("evidence");
        println!(
            "{}: evaluations={} distinct={} states={} transitions={} traces={} outcomes={:?} wall={:.1}s",
            self.id,
            self.evaluations.load(Ordering::Relaxed),
            i.distinct.len(),
            self.states.load(Ordering::Relaxed),
            self.transitions.load(Ordering::Relaxed),
            self.traces.load(Ordering::Relaxed),
            i.outcomes,
            self.start.elapsed().as_secs_f64()
        );
        for (what, n) in &i.known_hits {
            println!("KNOWN-FINDING: property={} {} ({} enumerated cases)", self.id, what, n);
        }
        if i.violations.is_empty() {
            return 0;
        }
        let p = write_replay(&self.id, &json!(i.violations));
        for v in i.violations.iter().take(3) {
            println!("  case {}\n    expected {}\n    actual   {}", v["case"], clip(&v["expected"]), clip(&v["actual"]));
        }
        println!("VIOLATION property={} replay={}", self.id, p.display());
        1
    }
}

fn clip(v: &Value) -> String {
    let s = v.as_str().unwrap_or("").to_owned();
    if s.chars().count() > 600 {
        s.chars().take(600).collect::<String>() + "…"
    } else {
        s
    }
}

fn write_replay(id: &str, v: &Value) -> PathBuf {
    let dir = verif_dir().join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{id}.json"));
    let _ = std::fs::write(&p, serde_json::to_string_pretty(v).unwrap_or_default());
    p
}

fn load_known(id: &str) -> Vec<Value> {
    let p = verif_dir().join("known-findings.json");
    let Ok(s) = std::fs::read_to_string(&p) else {
        return vec![];
    };
    let v: Value = serde_json::from_str(&s).expect("known-findings.json is valid JSON");
    v["findings"]
        .as_array()
        .cloned()
        .unwrap_or_default()
        .into_iter()
        .filter(|f| f["property"].as_str() == Some(id))
        .collect()
}

pub struct Spec {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub run: fn(&Arc<Check>),
}

fn scratch_root() -> PathBuf {
    let base = if Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
    PathBuf::from(base).join(format!("weaver-verif-{}", std::process::id()))
}

/// Entry point of every harness binary: `<bin> <ID> <quick|thorough> [--case NAME]`.
pub fn main_with(specs: &[Spec]) -> ! {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 {
        eprintln!("usage: {} ID quick|thorough [--case NAME]", args[0]);
        std::process::exit(2);
    }
    let Some(spec) = specs.iter().find(|s| s.id == args[1]) else {
        eprintln!("unknown property {}", args[1]);
        std::process::exit(2);
    };
    if let Ok(scratch) = std::env::var("VCORE_CHILD") {
        std::process::exit(child(spec, &args, PathBuf::from(scratch)));
    }
    let scratch = scratch_root();
    let _ = std::fs::remove_dir_all(&scratch);
    std::fs::create_dir_all(scratch.join("home")).expect("scratch");
    let status = std::process::Command::new(std::env::current_exe().expect("exe"))
        .args(&args[1..])
        .env("VCORE_CHILD", &scratch)
        .env("HOME", scratch.join("home"))
        .current_dir(&scratch)
        .status()
        .expect("spawn child");
    let code = match status.code() {
        Some(c @ (0 | 1)) => c,
        other => {
            use std::os::unix::process::ExitStatusExt;
            let sig = status.signal();
            // SIGSEGV/SIGABRT/SIGBUS/SIGILL: the code under test crashed (e.g. stack overflow).
            if matches!(sig, Some(4 | 6 | 7 | 11)) {
                let mut cases = vec![];
                for w in 0..=WORKERS {
                    if let Ok(c) = std::fs::read_to_string(scratch.join(format!("case-{w}"))) {
                        cases.push(c);
                    }
                }
                let p = write_replay(
                    spec.id,
                    &json!([{"property": spec.id, "crash_signal": sig, "running_cases": cases}]),
                );
                println!("crash (signal {sig:?}) while running one of {cases:?}");
                println!("VIOLATION property={} replay={}", spec.id, p.display());
                1
            } else {
                eprintln!("engine error: child ended with code={other:?} signal={sig:?}");
                3
            }
        }
    };
    let _ = std::fs::remove_dir_all(&scratch);
    std::process::exit(code);
}

fn child(spec: &Spec, args: &[String], scratch: PathBuf) -> i32 {
    let default_hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if !QUIET.with(|q| q.get()) {
            default_hook(i);
        }
    }));
    let tier = if args[2] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let only = args
        .iter()
        .position(|a| a == "--case")
        .and_then(|p| args.get(p + 1).cloned());
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let chk = Arc::new(Check {
        id: spec.id.to_owned(),
        tier,
        seed,
        level: spec.level,
        start: Instant::now(),
        scratch,
        evaluations: AtomicU64::new(0),
        states: AtomicU64::new(0),
        transitions: AtomicU64::new(0),
        traces: AtomicU64::new(0),
        inner: Mutex::new(Inner {
            distinct: HashSet::new(),
            outcomes: BTreeMap::new(),
            samples: vec![],
            violations: vec![],
            known_hits: BTreeMap::new(),
            extra: BTreeMap::new(),
        }),
        slots: (0..=WORKERS).map(|_| Mutex::new(Slot { case: None })).collect(),
        stop: AtomicBool::new(false),
        only,
        known: load_known(spec.id),
        capped: AtomicBool::new(false),
    });
    let wd = chk.clone();
    let rule = spec.rule;
    let assumptions = spec.assumptions;
    let _ = std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        for s in &wd.slots {
            let c = s.lock().expect("lock").case.clone();
            if let Some((c, t)) = c {
                if t.elapsed() > CASE_LIMIT {
                    wd.violation(&c, &c, json!(null), "terminates", "hang: no result within the case limit");
                    let code = wd.write_evidence(rule, assumptions);
                    let _ = std::io::stdout().flush();
                    std::process::exit(code);
                }
            }
        }
    });
    // Main thread uses the last slot.
    WORKER.with(|w| w.set(WORKERS));
    (spec.run)(&chk);
    chk.write_evidence(spec.rule, spec.assumptions)
}

/// All permutations of 0..n.
pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    fn go(cur: &mut Vec<usize>, left: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if left.is_empty() {
            out.push(cur.clone());
            return;
        }
        for i in 0..left.len() {
            let x = left.remove(i);
            cur.push(x);
            go(cur, left, out);
            let _ = cur.pop();
            left.insert(i, x);
        }
    }
    let mut out = vec![];
    go(&mut vec![], &mut (0..n).collect(), &mut out);
    out
}

/// All vectors in the mixed-radix product of `dims`.
pub fn product(dims: &[usize]) -> impl Iterator<Item = Vec<usize>> + Send + '_ {
    let total: usize = dims.iter().product();
    (0..total).map(move |mut n| {
        let mut v = Vec::with_capacity(dims.len());
        for d in dims.iter().rev() {
            v.push(n % d);
            n /= d;
        }
        v.reverse();
        v
    })
}

pub fn subsets<T: Clone>(items: &[T]) -> Vec<Vec<T>> {
    (0..(1usize << items.len()))
        .map(|m| {
            items
                .iter()
                .enumerate()
                .filter(|(i, _)| m & (1 << i) != 0)
                .map(|(_, t)| t.clone())
                .collect()
        })
        .collect()
}
