//! Case generation, worker processes, shrinking, replay, evidence.

use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Debug, Clone)]
pub struct Fail {
    /// stable identification of *what* fails, compared with known-findings.json
    pub sig: String,
    pub msg: String,
}
pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.into(), msg: msg.into() })
}
pub trait OrFail<T> {
    fn or_fail(self, sig: &str) -> Result<T, Fail>;
}
impl<T, E: std::fmt::Display> OrFail<T> for Result<T, E> {
    fn or_fail(self, sig: &str) -> Result<T, Fail> {
        self.map_err(|e| Fail { sig: sig.into(), msg: format!("{sig}: {e}") })
    }
}

#[derive(Default)]
pub struct Ctx {
    pub nontrivial: bool,
    pub labels: BTreeMap<String, u64>,
    pub counters: BTreeMap<String, u64>,
}
impl Ctx {
    pub fn label(&mut self, s: impl Into<String>) {
        *self.labels.entry(s.into()).or_default() += 1;
    }
    pub fn count(&mut self, s: &str, n: u64) {
        *self.counters.entry(s.into()).or_default() += n;
    }
}

pub trait Tree {
    fn json(&self) -> Value;
    fn check(&self, cx: &mut Ctx) -> Result<(), Fail>;
    fn simplify(&mut self) -> bool;
    fn complicate(&mut self) -> bool;
}

struct T<C> {
    t: Box<dyn ValueTree<Value = C>>,
    f: fn(&C, &mut Ctx) -> Result<(), Fail>,
}
impl<C: Serialize + std::fmt::Debug> Tree for T<C> {
    fn json(&self) -> Value {
        serde_json::to_value(self.t.current()).unwrap()
    }
    fn check(&self, cx: &mut Ctx) -> Result<(), Fail> {
        (self.f)(&self.t.current(), cx)
    }
    fn simplify(&mut self) -> bool {
        self.t.simplify()
    }
    fn complicate(&mut self) -> bool {
        self.t.complicate()
    }
}

/// Start `path` or `path@isa`.
pub fn command(bin: &Path) -> Command {
    let s = bin.to_string_lossy();
    match s.rsplit_once('@') {
        Some((p, isa)) => {
            let mut c = Command::new(p);
            c.env("EZK_ISA", isa);
            c
        }
        None => {
            let mut c = Command::new(bin);
            c.env_remove("EZK_ISA");
            c
        }
    }
}

pub struct Entry {
    pub id: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub gen: Box<dyn Fn(&mut TestRunner) -> Box<dyn Tree>>,
    pub check_json: Box<dyn Fn(&Value, &mut Ctx) -> Result<(), Fail>>,
}

pub fn entry<C>(
    id: &'static str,
    quick: u64,
    thorough: u64,
    rule: &'static str,
    strat: BoxedStrategy<C>,
    check: fn(&C, &mut Ctx) -> Result<(), Fail>,
) -> Entry
where
    C: Serialize + DeserializeOwned + std::fmt::Debug + Clone + 'static,
{
    Entry {
        id,
        rule,
        quick,
        thorough,
        gen: Box::new(move |r| Box::new(T { t: Box::new(strat.new_tree(r).unwrap()), f: check })),
        check_json: Box::new(move |v, cx| {
            let c: C = match serde_json::from_value(v.clone()) {
                Ok(c) => c,
                Err(e) => {
                    println!("case does not parse: {e}");
                    std::process::exit(4);
                }
            };
            check(&c, cx)
        }),
    }
}

fn runner(id: &str, seed: u64, idx: u64) -> TestRunner {
    let mut bytes = [0u8; 32];
    let mut h = seed ^ 0x5EED;
    for b in id.bytes() {
        h = crate::img::mix(h ^ b as u64);
    }
    h = crate::img::mix(h ^ idx.wrapping_mul(0x9E3779B97F4A7C15));
    for ch in bytes.chunks_mut(8) {
        h = crate::img::mix(h);
        ch.copy_from_slice(&h.to_le_bytes());
    }
    let cfg = Config { failure_persistence: None, ..Config::default() };
    TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &bytes))
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
static ANY_PANIC: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let m = format!("{m} at {}", i.location().map(|l| l.to_string()).unwrap_or_default());
        LAST_PANIC.with(|p| *p.borrow_mut() = m.clone());
        if let Ok(mut g) = ANY_PANIC.lock() {
            *g = m;
        }
    }));
}
pub fn last_panic() -> String {
    let s = LAST_PANIC.with(|p| std::mem::take(&mut *p.borrow_mut()));
    if s.is_empty() {
        ANY_PANIC.lock().map(|g| g.clone()).unwrap_or_default()
    } else {
        s
    }
}
/// Run something of the crate; a panic becomes `Err(message)`.
pub fn no_panic<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

fn guarded(f: impl FnOnce(&mut Ctx) -> Result<(), Fail>, cx: &mut Ctx) -> Result<(), Fail> {
    match catch_unwind(AssertUnwindSafe(|| f(cx))) {
        Ok(r) => r,
        Err(_) => {
            let p = last_panic();
            Err(Fail { sig: "panic".into(), msg: format!("panicked: {p}") })
        }
    }
}

pub fn verif_dir() -> PathBuf {
    std::env::var_os("EZK_VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| "/verif".into())
}

fn known(id: &str) -> Vec<(String, String)> {
    let p = verif_dir().join("known-findings.json");
    let v: Value = std::fs::read(p).ok().and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or(json!({}));
    v["findings"]
        .as_array()
        .cloned()
        .unwrap_or_default()
        .iter()
        .filter(|f| f["property"] == id)
        .map(|f| {
            (
                f["signature"].as_str().unwrap_or("").to_string(),
                f["what"].as_str().unwrap_or("").to_string(),
            )
        })
        .collect()
}

// ---- worker -----------------------------------------------------------------------------------

struct Progress(*mut u64);
impl Progress {
    fn open(path: &Path) -> Progress {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(false)
            .open(path)
            .unwrap();
        f.set_len(4096).unwrap();
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                4096,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        assert!(p != libc::MAP_FAILED);
        Progress(p as *mut u64)
    }
    fn set(&self, i: u64, v: u64) {
        unsafe { self.0.add(i as usize).write_volatile(v) }
    }
    fn get(&self, i: u64) -> u64 {
        unsafe { self.0.add(i as usize).read_volatile() }
    }
}

fn hash_json(v: &Value) -> u64 {
    let s = v.to_string();
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    crate::img::mix(h)
}

pub fn worker(e: &Entry, seed: u64, start: u64, stride: u64, n: u64, budget: f64, dir: &Path, name: &str) {
    let pr = Progress::open(&dir.join(format!("{name}.progress")));
    let t0 = Instant::now();
    let known: HashSet<String> = known(e.id).into_iter().map(|k| k.0).collect();
    let mut cx = Ctx::default();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut samples: Vec<Value> = vec![];
    let mut evals = 0u64;
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut failure = Value::Null;
    let mut idx = start;
    while idx < n {
        if t0.elapsed().as_secs_f64() > budget {
            break;
        }
        pr.set(0, idx + 1);
        let tree = (e.gen)(&mut runner(e.id, seed, idx));
        cx.nontrivial = false;
        let r = guarded(|cx| tree.check(cx), &mut cx);
        evals += 1;
        if cx.nontrivial {
            let j = tree.json();
            let h = hash_json(&j);
            if hashes.insert(h) && samples.len() < 2 && evals > 3 {
                samples.push(j);
            }
        }
        if let Err(f) = r {
            if known.contains(&f.sig) {
                *known_hits.entry(f.sig).or_default() += 1;
            } else {
                failure = json!({"index": idx, "sig": f.sig, "msg": f.msg});
                break;
            }
        }
        idx += stride;
    }
    let out = json!({
        "evaluations": evals,
        "isa": crate::isa::effective(),
        "labels": cx.labels,
        "counters": cx.counters,
        "samples": samples,
        "known_hits": known_hits,
        "failure": failure,
    });
    let mut hb = Vec::with_capacity(hashes.len() * 8);
    for h in hashes {
        hb.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(dir.join(format!("{name}.hashes")), hb).unwrap();
    std::fs::write(dir.join(format!("{name}.json")), serde_json::to_vec(&out).unwrap()).unwrap();
    pr.set(0, 0);
}

const CPU_LIMIT: u64 = 30;

/// Run the given cases (usually one; several when only a history of calls fails) one after the
/// other in this process; exit status 0 held, 10 violated.
pub fn exec(e: &Entry, cases: &[Value]) -> i32 {
    // a case takes milliseconds; one that burns this much CPU time does not terminate
    unsafe {
        let cpu = CPU_LIMIT + cases.len() as u64 / 20;
        libc::setrlimit(libc::RLIMIT_CPU, &libc::rlimit { rlim_cur: cpu, rlim_max: cpu + 5 });
    }
    let known: HashSet<String> = known(e.id).into_iter().map(|k| k.0).collect();
    let mut cx = Ctx::default();
    for (i, case) in cases.iter().enumerate() {
        match guarded(|cx| (e.check_json)(case, cx), &mut cx) {
            Ok(()) => {}
            Err(f) if i + 1 < cases.len() && known.contains(&f.sig) => {}
            Err(f) => {
                println!("{}", json!({"sig": f.sig, "msg": f.msg}));
                return 10;
            }
        }
    }
    0
}

/// the case or history of cases in a case file or replay file
pub fn cases_of(v: &Value) -> Vec<Value> {
    if let Some(h) = v.get("history").and_then(|h| h.as_array()) {
        return h.clone();
    }
    vec![v.get("case").cloned().unwrap_or_else(|| v.clone())]
}

// ---- parent -----------------------------------------------------------------------------------

#[derive(Debug, Clone)]
enum Outcome {
    Held,
    Failed(Fail),
    /// no verdict: did not finish in the wall-clock time allowed, or was killed from outside
    Unknown(String),
}

fn run_case(bin: &Path, id: &str, case: &Value, dir: &Path, timeout: f64) -> Outcome {
    run_cases(bin, id, std::slice::from_ref(case), dir, timeout)
}

fn run_cases(bin: &Path, id: &str, cases: &[Value], dir: &Path, timeout: f64) -> Outcome {
    let f = dir.join("case.json");
    std::fs::write(&f, serde_json::to_vec(&json!({ "history": cases })).unwrap()).unwrap();
    let out = dir.join("case.out");
    let of = std::fs::File::create(&out).unwrap();
    let mut ch = command(bin)
        .args(["exec", id])
        .arg(&f)
        .stdout(Stdio::from(of))
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn");
    match wait(&mut ch, timeout) {
        None => {
            let _ = ch.kill();
            let _ = ch.wait();
            Outcome::Unknown(format!("did not finish within {timeout} s"))
        }
        Some(st) => {
            if st.success() {
                return Outcome::Held;
            }
            use std::os::unix::process::ExitStatusExt;
            if st.code() == Some(4) {
                return Outcome::Unknown("case does not parse".into());
            }
            if let Some(s) = st.signal() {
                let n = match s {
                    libc::SIGSEGV => "SIGSEGV (access outside the image's memory)".to_string(),
                    libc::SIGBUS => "SIGBUS".into(),
                    libc::SIGILL => "SIGILL".into(),
                    libc::SIGABRT => "SIGABRT (abort)".into(),
                    libc::SIGXCPU => format!("does not terminate (still running after {CPU_LIMIT} s of CPU time)"),
                    libc::SIGKILL | libc::SIGTERM | libc::SIGINT => {
                        return Outcome::Unknown("killed".into());
                    }
                    s => format!("signal {s}"),
                };
                return Outcome::Failed(Fail { sig: "crash".into(), msg: format!("process died: {n}") });
            }
            let v: Value = std::fs::read(&out)
                .ok()
                .and_then(|b| serde_json::from_slice(&b).ok())
                .unwrap_or(json!({"sig": "exit", "msg": format!("case process ended with {st}")}));
            Outcome::Failed(Fail {
                sig: v["sig"].as_str().unwrap_or("").into(),
                msg: v["msg"].as_str().unwrap_or("").into(),
            })
        }
    }
}

fn wait(ch: &mut Child, timeout: f64) -> Option<std::process::ExitStatus> {
    let t0 = Instant::now();
    loop {
        if let Some(s) = ch.try_wait().unwrap() {
            return Some(s);
        }
        if t0.elapsed().as_secs_f64() > timeout {
            return None;
        }
        std::thread::sleep(Duration::from_micros(500));
    }
}

pub struct RunArgs {
    pub tier: Tier,
    pub seed: u64,
    pub variants: Vec<PathBuf>,
    pub cases: Option<u64>,
    pub jobs: usize,
}

pub fn parent(e: &Entry, a: &RunArgs) -> i32 {
    let t0 = Instant::now();
    let vd = verif_dir();
    let scratch = std::env::temp_dir().join(format!("ezk-verif-{}-{}", e.id, std::process::id()));
    std::fs::create_dir_all(&scratch).unwrap();
    let r = parent_in(e, a, &vd, &scratch, t0);
    let _ = std::fs::remove_dir_all(&scratch);
    r
}

fn parent_in(e: &Entry, a: &RunArgs, vd: &Path, scratch: &Path, t0: Instant) -> i32 {
    let known_list = known(e.id);
    let known_set: HashSet<String> = known_list.iter().map(|k| k.0.clone()).collect();
    let mut known_seen: BTreeMap<String, u64> = BTreeMap::new();
    let mut violation: Option<(Vec<Value>, Fail, PathBuf, u64)> = None;
    let mut infra: Option<String> = None;

    // 1. committed regression cases, on every variant
    let mut regress_n = 0u64;
    let rd = vd.join("regress").join(e.id);
    let mut files: Vec<PathBuf> = std::fs::read_dir(&rd)
        .map(|d| d.filter_map(|x| x.ok()).map(|x| x.path()).collect())
        .unwrap_or_default();
    files.sort();
    'reg: for f in files {
        let v: Value = match std::fs::read(&f).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
            Some(v) => v,
            None => continue,
        };
        for (i, bin) in a.variants.iter().enumerate() {
            if a.variants[..i].contains(bin) {
                continue;
            }
            regress_n += 1;
            let cases = cases_of(&v);
            match run_cases(bin, e.id, &cases, scratch, 100.0) {
                Outcome::Failed(fl) if known_set.contains(&fl.sig) => {
                    *known_seen.entry(fl.sig).or_default() += 1;
                }
                Outcome::Failed(fl) => {
                    violation = Some((cases, fl, bin.clone(), u64::MAX));
                    break 'reg;
                }
                Outcome::Unknown(m) => infra = Some(format!("{}: {m}", f.display())),
                Outcome::Held => {}
            }
        }
    }

    // 2. generated cases
    let n = a.cases.unwrap_or(match a.tier {
        Tier::Quick => e.quick,
        Tier::Thorough => e.thorough,
    });
    let budget = match a.tier {
        Tier::Quick => 240.0,
        Tier::Thorough => 3000.0,
    };
    let mut agg: Vec<Value> = vec![];
    let mut hashes: HashSet<u64> = HashSet::new();
    if violation.is_none() {
        let nv = a.variants.len();
        let jobs = a.jobs.div_ceil(nv) * nv;
        let mut kids: Vec<(usize, Child, Progress, u64, Instant, bool)> = vec![];
        for w in 0..jobs {
            let name = format!("w{w}");
            let bin = &a.variants[w % nv];
            let pr = Progress::open(&scratch.join(format!("{name}.progress")));
            let ch = command(bin)
                .args([
                    "worker",
                    e.id,
                    &a.seed.to_string(),
                    &w.to_string(),
                    &jobs.to_string(),
                    &n.to_string(),
                    &budget.to_string(),
                ])
                .arg(scratch)
                .arg(&name)
                .stdout(Stdio::null())
                .stderr(Stdio::from(
                    std::fs::File::create(scratch.join(format!("{name}.err"))).unwrap(),
                ))
                .spawn()
                .expect("spawn worker");
            kids.push((w, ch, pr, 0, Instant::now(), false));
        }
        // (index, worker, what the worker saw if it lived to tell)
        let mut failed: Vec<(u64, usize, Option<Fail>)> = vec![];
        loop {
            let mut running = 0;
            for k in kids.iter_mut() {
                if k.5 {
                    continue;
                }
                match k.1.try_wait().unwrap() {
                    Some(st) => {
                        k.5 = true;
                        if !st.success() {
                            let at = k.2.get(0);
                            if at == 0 {
                                infra = Some(format!("worker {} ended with {st} outside a case", k.0));
                            } else {
                                use std::os::unix::process::ExitStatusExt;
                                let saw = st.signal().filter(|s| *s != libc::SIGKILL && *s != libc::SIGTERM).map(|s| Fail {
                                    sig: "crash".into(),
                                    msg: format!("process died of signal {s}"),
                                });
                                failed.push((at - 1, k.0, saw));
                            }
                        }
                    }
                    None => {
                        running += 1;
                        let now = k.2.get(0);
                        if now != k.3 {
                            k.3 = now;
                            k.4 = Instant::now();
                        } else if k.4.elapsed().as_secs_f64() > 90.0 {
                            let _ = k.1.kill();
                            if now > 0 {
                                failed.push((now - 1, k.0, None));
                            }
                        }
                    }
                }
            }
            if running == 0 {
                break;
            }
            std::thread::sleep(Duration::from_millis(5));
        }
        for w in 0..jobs {
            let p = scratch.join(format!("w{w}.json"));
            if let Some(v) = std::fs::read(&p).ok().and_then(|b| serde_json::from_slice::<Value>(&b).ok()) {
                if let Some(i) = v["failure"]["index"].as_u64() {
                    let f = |k: &str| v["failure"][k].as_str().unwrap_or("").to_string();
                    failed.push((i, w, Some(Fail { sig: f("sig"), msg: f("msg") })));
                }
                agg.push(v);
                let hb = std::fs::read(scratch.join(format!("w{w}.hashes"))).unwrap_or_default();
                for ch in hb.chunks_exact(8) {
                    hashes.insert(u64::from_le_bytes(ch.try_into().unwrap()));
                }
            }
        }
        failed.sort_by_key(|f| (f.0, f.1));
        failed.dedup_by_key(|f| (f.0, f.1));
        'failed: for (idx, w, saw) in failed {
            let bin = &a.variants[w % nv];
            let mut tree = (e.gen)(&mut runner(e.id, a.seed, idx));
            let case = tree.json();
            // by itself, repeatedly in case it depends on timing
            let mut alone = None;
            for _ in 0..10 {
                match run_case(bin, e.id, &case, scratch, 100.0) {
                    Outcome::Failed(f) if !known_set.contains(&f.sig) => {
                        alone = Some(f);
                        break;
                    }
                    Outcome::Unknown(m) => {
                        infra = Some(format!("case {idx}: {m}"));
                        continue 'failed;
                    }
                    _ => {}
                }
            }
            if let Some(f) = alone {
                let (c, f) = shrink(&mut *tree, bin, e.id, case, f, scratch, &known_set);
                violation = Some((vec![c], f, bin.clone(), idx));
                break;
            }
            // as part of the history of calls the worker made before
            let hist: Vec<u64> = (w as u64..=idx).step_by(jobs).collect();
            if let Some((h, f)) = history(e, a.seed, &hist, bin, scratch, &known_set) {
                violation = Some((h, f, bin.clone(), idx));
                break;
            }
            match saw {
                Some(mut f) => {
                    f.msg += " (seen once in a worker process, not reproduced by running the case again: timing dependent)";
                    violation = Some((vec![case], f, bin.clone(), idx));
                    break;
                }
                None => {
                    let err = std::fs::read_to_string(scratch.join(format!("w{w}.err"))).unwrap_or_default();
                    infra = Some(format!(
                        "case {idx} did not complete in a worker but passes on its own {}",
                        err.lines().last().unwrap_or("")
                    ));
                }
            }
        }
    }

    // 3. evidence
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<Value> = vec![];
    let mut evals = regress_n;
    let mut isas: BTreeMap<String, u64> = BTreeMap::new();
    for v in &agg {
        *isas.entry(v["isa"].as_str().unwrap_or("?").into()).or_default() += v["evaluations"].as_u64().unwrap_or(0);
        evals += v["evaluations"].as_u64().unwrap_or(0);
        for (k, x) in v["labels"].as_object().into_iter().flatten() {
            *labels.entry(k.clone()).or_default() += x.as_u64().unwrap_or(0);
        }
        for (k, x) in v["counters"].as_object().into_iter().flatten() {
            *counters.entry(k.clone()).or_default() += x.as_u64().unwrap_or(0);
        }
        for (k, x) in v["known_hits"].as_object().into_iter().flatten() {
            *known_seen.entry(k.clone()).or_default() += x.as_u64().unwrap_or(0);
        }
        if samples.len() < 4 {
            samples.extend(v["samples"].as_array().into_iter().flatten().take(1).cloned());
        }
    }
    let ev = json!({
        "property": e.id,
        "tier": if a.tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": a.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": hashes.len(),
            "rule": e.rule,
            "samples": samples,
            "regression_cases": regress_n,
            "labels": labels,
            "counters": counters,
            "evaluations_by_instruction_set": isas,
            "known_finding_hits": known_seen,
            "variants": a.variants.iter().map(|v| v.display().to_string()).collect::<Vec<_>>(),
        },
        "assumptions": [
            "x86_64 as found in this sandbox: AVX2, AVX-512 (nightly variant) and, with feature detection masked, the scalar fallback; NEON code is not executed",
        ],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violation.is_some() as u64,
    });
    let evdir = vd.join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    let _ = std::fs::write(evdir.join(format!("{}.json", e.id)), serde_json::to_vec_pretty(&ev).unwrap());

    for (sig, what) in &known_list {
        if known_seen.contains_key(sig) {
            println!("KNOWN-FINDING: property={} {}", e.id, what);
        }
    }
    if let Some((cases, f, bin, idx)) = violation {
        let case = cases.last().unwrap();
        let rdir = vd.join("replays");
        let _ = std::fs::create_dir_all(&rdir);
        let path = rdir.join(format!("{}-seed{}-{}.json", e.id, a.seed, if idx == u64::MAX { "regress".into() } else { idx.to_string() }));
        let v = json!({
            "property": e.id, "seed": a.seed, "index": idx, "signature": f.sig, "message": f.msg,
            "binary": bin, "case": case, "history": cases,
            "how": format!("/verif/check {} --replay {}", e.id, path.display()),
        });
        let _ = std::fs::write(&path, serde_json::to_vec_pretty(&v).unwrap());
        println!("{}: [{}] {}", e.id, f.sig, f.msg);
        if cases.len() > 1 {
            println!("needs {} earlier cases in the same process, see the replay file", cases.len() - 1);
        }
        println!("case: {case}");
        println!("VIOLATION property={} replay={}", e.id, path.display());
        let _ = std::io::stdout().flush();
        return 1;
    }
    if let Some(i) = infra {
        println!("{}: check error: {i}", e.id);
        return 2;
    }
    println!(
        "{}: held on {} cases ({} distinct non-trivial) in {:.1} s",
        e.id,
        evals,
        hashes.len(),
        t0.elapsed().as_secs_f64()
    );
    0
}

/// The last case of `hist` only fails after some of the earlier ones: find a short such history.
fn history(
    e: &Entry,
    seed: u64,
    hist: &[u64],
    bin: &Path,
    dir: &Path,
    known: &HashSet<String>,
) -> Option<(Vec<Value>, Fail)> {
    let t0 = Instant::now();
    let run = |h: &[Value]| match run_cases(bin, e.id, h, dir, 120.0) {
        Outcome::Failed(f) if !known.contains(&f.sig) => Some(f),
        _ => None,
    };
    let mut n = 2;
    let (mut cases, mut f) = loop {
        let from = hist.len().saturating_sub(n);
        let cases: Vec<Value> = hist[from..].iter().map(|i| (e.gen)(&mut runner(e.id, seed, *i)).json()).collect();
        if let Some(f) = run(&cases) {
            break (cases, f);
        }
        if from == 0 || n > 100_000 || t0.elapsed().as_secs_f64() > 120.0 {
            return None;
        }
        n *= 4;
    };
    // drop blocks of earlier cases
    let mut step = cases.len() / 2;
    while step > 0 && t0.elapsed().as_secs_f64() < 200.0 {
        let mut i = 0;
        while i + step < cases.len() {
            let mut c = cases.clone();
            c.drain(i..i + step);
            match run(&c) {
                Some(g) => (cases, f) = (c, g),
                None => i += step,
            }
            if t0.elapsed().as_secs_f64() > 200.0 {
                break;
            }
        }
        step /= 2;
    }
    Some((cases, f))
}

fn shrink(
    tree: &mut dyn Tree,
    bin: &Path,
    id: &str,
    case: Value,
    f: Fail,
    dir: &Path,
    known: &HashSet<String>,
) -> (Value, Fail) {
    let t0 = Instant::now();
    let mut best = (case, f);
    let mut tries = 0;
    if !tree.simplify() {
        return best;
    }
    loop {
        tries += 1;
        if tries > 600 || t0.elapsed().as_secs_f64() > 45.0 {
            break;
        }
        let c = tree.json();
        let still = match run_case(bin, id, &c, dir, 30.0) {
            Outcome::Failed(f) if !known.contains(&f.sig) && f.sig != "exit" => {
                best = (c, f);
                true
            }
            _ => false,
        };
        let more = if still { tree.simplify() } else { tree.complicate() };
        if !more {
            break;
        }
    }
    best
}
