//! Runs a generated-case check: fixed number of cases split over shards, each
//! shard seeded from VERIF_SEED, shrinking on failure, replay file, evidence.
use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::time::Instant;

pub const SHARDS: usize = 16;
/// no new case is started after this many seconds
const SOFT_LIMIT: u64 = 600;
/// a single case (some milliseconds, the right-hand sides have call budgets) that runs
/// longer than this many seconds hangs in the code under test
const HANG: u64 = 90;

/// What a case execution observed; merged into the evidence.
#[derive(Default, Clone)]
pub struct Obs {
    pub labels: BTreeMap<String, u64>,
    pub max: BTreeMap<String, f64>,
    pub nontrivial: bool,
}

impl Obs {
    pub fn long(&mut self, points: usize) {
        if points > 1000 {
            self.label("more than 1000 steps");
        }
    }
    pub fn label(&mut self, s: &str) {
        *self.labels.entry(s.to_string()).or_insert(0) += 1;
    }
    pub fn count(&mut self, s: &str, k: u64) {
        *self.labels.entry(s.to_string()).or_insert(0) += k;
    }
    pub fn maxi(&mut self, s: &str, v: f64) {
        let e = self.max.entry(s.to_string()).or_insert(f64::NEG_INFINITY);
        if v > *e {
            *e = v;
        }
    }
    fn merge(&mut self, o: &Obs) {
        for (k, v) in &o.labels {
            *self.labels.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &o.max {
            self.maxi(k, *v);
        }
    }
}

/// Payload thrown by a right-hand side that exceeded its call budget.
pub struct Budget(pub u64);

/// Run a closure, turning panics into messages.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(b) = e.downcast_ref::<Budget>() {
            format!("runaway: more than {} right-hand side evaluations", b.0)
        } else if let Some(s) = e.downcast_ref::<&str>() {
            format!("panic: {}", s)
        } else if let Some(s) = e.downcast_ref::<String>() {
            format!("panic: {}", s)
        } else {
            "panic: (no message)".to_string()
        }
    })
}

pub struct Env {
    pub dir: PathBuf,
    pub seed: u64,
    pub thorough: bool,
    pub replay: Option<PathBuf>,
    /// multiplies the case count (used while developing)
    pub mult: f64,
}

impl Env {
    pub fn from_env() -> Env {
        let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let thorough = std::env::var("VERIF_TIER").map(|s| s == "thorough").unwrap_or(false);
        let mult = std::env::var("VERIF_MULT").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
        Env { dir: dir.into(), seed, thorough, replay: None, mult }
    }
}

pub struct Def<'a, C: Debug> {
    pub id: &'a str,
    /// what makes a case count as non-trivial
    pub rule: &'a str,
    pub quick: usize,
    pub thorough: usize,
    pub strategy: &'a (dyn Fn() -> BoxedStrategy<C> + Sync),
    pub case: &'a (dyn Fn(&C, &mut Obs) -> Result<(), String> + Sync),
    pub assumptions: &'a [&'a str],
}

/// The case each shard is executing.
type Running = Vec<std::sync::Mutex<Option<(Instant, String)>>>;

struct Shard {
    obs: Obs,
    evals: u64,
    distinct: HashSet<u64>,
    samples: Vec<Value>,
    known: BTreeMap<String, u64>,
    fail: Option<(Value, String)>,
    abort: Option<String>,
}

fn hash(s: &str) -> u64 {
    // FNV-1a
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

/// (signature, description) of unrepaired findings of this property
fn known_findings(dir: &PathBuf, id: &str) -> Vec<(String, String)> {
    let txt = std::fs::read_to_string(dir.join("known_findings.txt")).unwrap_or_default();
    let mut v = vec![];
    for l in txt.lines() {
        if let Some(r) = l.strip_prefix(&format!("known: property={} signature=", id)) {
            let mut it = r.splitn(2, ' ');
            let s = it.next().unwrap_or("").to_string();
            v.push((s, it.next().unwrap_or("").to_string()));
        }
    }
    v
}

fn exec<C: Serialize>(
    def: &dyn Fn(&C, &mut Obs) -> Result<(), String>,
    c: &C,
    o: &mut Obs,
) -> Result<(), String> {
    match guard(|| def(c, o)) {
        Ok(r) => r,
        Err(m) => Err(m),
    }
}

/// Saves the failing case and prints the violation.
fn report(dir: &PathBuf, id: &str, seed: u64, case: &Value, msg: &str) -> Option<PathBuf> {
    let rd = dir.join("replays");
    let _ = std::fs::create_dir_all(&rd);
    let path = rd.join(format!("{}-seed{}.json", id, seed));
    let body = json!({"property": id, "message": msg, "case": case});
    if std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap()).is_err() {
        eprintln!("ERROR: cannot write replay");
        return None;
    }
    println!("VIOLATION property={} replay={}", id, path.display());
    println!("{}", msg);
    Some(path)
}

/// Ends the process with a violation if a case hangs without calling the right-hand side.
fn watch(env: &Env, id: &str, running: std::sync::Arc<Running>) {
    let (dir, seed, id) = (env.dir.clone(), env.seed, id.to_string());
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
        for r in running.iter() {
            let hung = match &*r.lock().unwrap() {
                Some((t, c)) if t.elapsed().as_secs() > HANG => Some(c.clone()),
                _ => None,
            };
            if let Some(c) = hung {
                let case: Value = serde_json::from_str(&c).unwrap_or(Value::Null);
                let msg = format!("hangs: case still running after {} s", HANG);
                let path = report(&dir, &id, seed, &case, &msg);
                let ev = json!({
                    "property": id,
                    "tier": if std::env::var("VERIF_TIER").map(|s| s == "thorough").unwrap_or(false) { "thorough" } else { "quick" },
                    "seed": seed,
                    "level": "exploration",
                    "coverage": {"evaluations": 1, "distinct_nontrivial": 0, "rule": "run ended by a case that hangs", "samples": [case]},
                    "violations": 1,
                    "wall_s": HANG,
                });
                let ed = dir.join("evidence");
                let _ = std::fs::create_dir_all(&ed);
                let _ = std::fs::write(ed.join(format!("{}.json", id)), ev.to_string());
                std::process::exit(if path.is_some() { 1 } else { 3 });
            }
        }
    });
}

/// Runs the check and returns the process exit code.
pub fn run<C>(env: &Env, d: &Def<C>) -> i32
where
    C: Serialize + DeserializeOwned + Debug + Clone + 'static,
{
    std::panic::set_hook(Box::new(|_| {}));
    let start = Instant::now();
    let limit = 870;
    std::thread::spawn(move || {
        std::thread::sleep(std::time::Duration::from_secs(limit));
        eprintln!("ERROR: check did not finish within {} s", limit);
        std::process::exit(3);
    });

    if let Some(p) = &env.replay {
        let v: Value = match std::fs::read_to_string(p).ok().and_then(|s| serde_json::from_str(&s).ok()) {
            Some(v) => v,
            None => {
                eprintln!("ERROR: cannot read {}", p.display());
                return 3;
            }
        };
        let c: C = match serde_json::from_value(v["case"].clone()) {
            Ok(c) => c,
            Err(e) => {
                eprintln!("ERROR: bad case: {}", e);
                return 3;
            }
        };
        let mut o = Obs::default();
        let (id, path) = (d.id.to_string(), p.display().to_string());
        std::thread::spawn(move || {
            std::thread::sleep(std::time::Duration::from_secs(HANG));
            println!("VIOLATION property={} replay={}\nhangs", id, path);
            std::process::exit(1);
        });
        return match exec(d.case, &c, &mut o) {
            Ok(()) => {
                println!("ok labels={:?} max={:?}", o.labels, o.max);
                0
            }
            Err(m) => {
                println!("VIOLATION property={} replay={}", d.id, p.display());
                println!("{}", m);
                1
            }
        };
    }

    let known = known_findings(&env.dir, d.id);
    let known_hit = |m: &str| known.iter().find(|(s, _)| m.starts_with(s.as_str())).cloned();
    let mut total = Shard {
        obs: Obs::default(),
        evals: 0,
        distinct: HashSet::new(),
        samples: vec![],
        known: BTreeMap::new(),
        fail: None,
        abort: None,
    };

    // committed regression cases first
    let mut regress = 0u64;
    let rdir = env.dir.join("regress").join(d.id);
    let mut files: Vec<PathBuf> = std::fs::read_dir(&rdir)
        .map(|it| it.filter_map(|e| e.ok().map(|e| e.path())).collect())
        .unwrap_or_default();
    files.sort();
    for f in files {
        let v: Option<Value> =
            std::fs::read_to_string(&f).ok().and_then(|s| serde_json::from_str(&s).ok());
        let c: Option<C> = v.and_then(|v| serde_json::from_value(v["case"].clone()).ok());
        let c = match c {
            Some(c) => c,
            None => {
                eprintln!("ERROR: bad regression case {}", f.display());
                return 3;
            }
        };
        let mut o = Obs::default();
        regress += 1;
        total.evals += 1;
        match exec(d.case, &c, &mut o) {
            Ok(()) => {
                if o.nontrivial {
                    total.distinct.insert(hash(&serde_json::to_string(&c).unwrap()));
                }
                total.obs.merge(&o);
            }
            Err(m) => match known_hit(&m) {
                Some((s, _)) => *total.known.entry(s).or_insert(0) += 1,
                None => {
                    total.fail = Some((serde_json::to_value(&c).unwrap(), m));
                    break;
                }
            },
        }
    }

    let cases = ((if env.thorough { d.thorough } else { d.quick }) as f64 * env.mult) as usize;
    let per = (cases + SHARDS - 1) / SHARDS;
    if total.fail.is_none() {
        let next = std::sync::atomic::AtomicUsize::new(0);
        let stop = std::sync::atomic::AtomicBool::new(false);
        let results: Vec<std::sync::Mutex<Option<Shard>>> =
            (0..SHARDS).map(|_| std::sync::Mutex::new(None)).collect();
        let running: std::sync::Arc<Running> =
            std::sync::Arc::new((0..SHARDS).map(|_| std::sync::Mutex::new(None)).collect());
        watch(env, d.id, running.clone());
        let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(SHARDS);
        std::thread::scope(|sc| {
            for _ in 0..threads {
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, || loop {
                        let k = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                        if k >= SHARDS {
                            break;
                        }
                        let r = shard(env, d, k, per, &start, &known_hit, &running[k], &stop);
                        *results[k].lock().unwrap() = Some(r);
                    })
                    .unwrap();
            }
        });
        for r in results {
            let s = match r.into_inner().unwrap() {
                Some(s) => s,
                None => {
                    eprintln!("ERROR: shard lost");
                    return 3;
                }
            };
            total.evals += s.evals;
            total.obs.merge(&s.obs);
            total.distinct.extend(s.distinct);
            for (k, v) in s.known {
                *total.known.entry(k).or_insert(0) += v;
            }
            if total.samples.len() < 6 {
                total.samples.extend(s.samples);
            }
            if total.fail.is_none() {
                total.fail = s.fail;
            }
            if total.abort.is_none() {
                total.abort = s.abort;
            }
        }
    }

    for (s, k) in &total.known {
        let what = known.iter().find(|(a, _)| a == s).map(|x| x.1.clone()).unwrap_or_default();
        println!("KNOWN-FINDING: property={} {} ({} cases)", d.id, what, k);
    }
    let mut violations = vec![];
    let mut code = 0;
    if let Some((case, msg)) = &total.fail {
        let path = match report(&env.dir, d.id, env.seed, case, msg) {
            Some(p) => p,
            None => return 3,
        };
        violations.push(json!({"replay": path.display().to_string(), "message": msg}));
        code = 1;
    } else if let Some(a) = &total.abort {
        eprintln!("ERROR: {}", a);
        code = 3;
    }

    let ev = json!({
        "property": d.id,
        "tier": if env.thorough { "thorough" } else { "quick" },
        "seed": env.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": total.evals,
            "distinct_nontrivial": total.distinct.len(),
            "rule": format!("cases drawn by proptest from VERIF_SEED over 16 shards (see samples); non-trivial: {}", d.rule),
            "samples": total.samples.iter().take(6).collect::<Vec<_>>(),
            "labels": total.obs.labels,
            "maxima": total.obs.max,
            "regression_cases": regress,
            "shards": SHARDS,
        },
        "assumptions": d.assumptions,
        "violations": violations.len(),
        "violation_list": violations,
        "wall_s": start.elapsed().as_secs_f64(),
    });
    let ed = env.dir.join("evidence");
    let _ = std::fs::create_dir_all(&ed);
    if std::fs::write(ed.join(format!("{}.json", d.id)), serde_json::to_string_pretty(&ev).unwrap())
        .is_err()
    {
        eprintln!("ERROR: cannot write evidence");
        return 3;
    }
    println!(
        "{} {}: {} evaluations, {} distinct non-trivial, {:.1} s",
        d.id,
        if code == 0 { "ok" } else { "FAILED" },
        total.evals,
        total.distinct.len(),
        start.elapsed().as_secs_f64()
    );
    if std::env::var("VERIF_VERBOSE").is_ok() {
        println!("labels {:#?}\nmax {:#?}", total.obs.labels, total.obs.max);
    }
    code
}

fn shard<C>(
    env: &Env,
    d: &Def<C>,
    k: usize,
    per: usize,
    start: &Instant,
    known_hit: &dyn Fn(&str) -> Option<(String, String)>,
    running: &std::sync::Mutex<Option<(Instant, String)>>,
    stop: &std::sync::atomic::AtomicBool,
) -> Shard
where
    C: Serialize + DeserializeOwned + Debug + Clone + 'static,
{
    let mut seed = [0u8; 32];
    seed[..8].copy_from_slice(&env.seed.to_le_bytes());
    seed[8..16].copy_from_slice(&(k as u64).to_le_bytes());
    seed[16..24].copy_from_slice(&hash(d.id).to_le_bytes());
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed);
    let cfg = Config {
        cases: per as u32,
        failure_persistence: None,
        max_shrink_iters: if std::env::var("VERIF_NOSHRINK").is_ok() { 0 } else { 400 },
        max_shrink_time: 30_000,
        max_global_rejects: 1,
        ..Config::default()
    };
    let mut runner = TestRunner::new_with_rng(cfg, rng);
    let obs = RefCell::new(Obs::default());
    let distinct = RefCell::new(HashSet::new());
    let samples = RefCell::new(vec![]);
    let known = RefCell::new(BTreeMap::new());
    let evals = Cell::new(0u64);
    let failed = Cell::new(false);
    let skipped = Cell::new(0u64);
    let res = runner.run(&(d.strategy)(), |c: C| {
        // a failure elsewhere decides the check
        if !failed.get() && stop.load(std::sync::atomic::Ordering::Relaxed) {
            return Ok(());
        }
        if !failed.get() && start.elapsed().as_secs() > SOFT_LIMIT {
            skipped.set(skipped.get() + 1);
            return Ok(());
        }
        let mut o = Obs::default();
        let text = serde_json::to_string(&c).unwrap();
        *running.lock().unwrap() = Some((Instant::now(), text.clone()));
        let r = exec(d.case, &c, &mut o);
        *running.lock().unwrap() = None;
        if !failed.get() {
            evals.set(evals.get() + 1);
            obs.borrow_mut().merge(&o);
            if o.nontrivial {
                distinct.borrow_mut().insert(hash(&text));
                if samples.borrow().is_empty() && k < 6 {
                    samples.borrow_mut().push(serde_json::to_value(&c).unwrap());
                }
            }
        }
        match r {
            Ok(()) => Ok(()),
            Err(m) => {
                if let Some((s, _)) = known_hit(&m) {
                    if !failed.get() {
                        *known.borrow_mut().entry(s).or_insert(0) += 1;
                    }
                    return Ok(());
                }
                failed.set(true);
                stop.store(true, std::sync::atomic::Ordering::Relaxed);
                Err(TestCaseError::fail(m))
            }
        }
    });
    let (mut fail, mut abort) = (None, None);
    match res {
        Ok(()) => {}
        Err(TestError::Fail(r, c)) => {
            fail = Some((serde_json::to_value(&c).unwrap(), r.message().to_string()))
        }
        Err(TestError::Abort(r)) => abort = Some(r.message().to_string()),
    }
    if skipped.get() > 0 && fail.is_none() {
        abort = Some(format!("{} cases not run within {} s", skipped.get(), SOFT_LIMIT));
    }
    Shard {
        obs: obs.into_inner(),
        evals: evals.get(),
        distinct: distinct.into_inner(),
        samples: samples.into_inner(),
        known: known.into_inner(),
        fail,
        abort,
    }
}
