//! The property-testing framework: sharded, seeded proptest runs, shrinking,
//! replay files, known findings, and evidence.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestError, TestRng, TestRunner, TestCaseError};
use serde::{de::DeserializeOwned, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::Instant;

pub type Res = Result<(), String>;

/// What a check reports about the case it just ran.
#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub labels: Vec<String>,
}
impl Obs {
    pub fn nt(&mut self, c: bool) {
        if c {
            self.nontrivial = true;
        }
    }
    pub fn label(&mut self, l: impl ToString) {
        self.labels.push(l.to_string());
    }
    pub fn label_if(&mut self, c: bool, l: impl ToString) {
        if c {
            self.label(l)
        }
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

#[derive(Clone, Copy, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct ShardOut {
    evaluations: u64,
    hashes: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<serde_json::Value>,
    failure: Option<(String, String)>, // (case json, message)
}

type ShardFn = Box<dyn Fn(u64, u32, u32) -> ShardOut + Sync + Send>;
type ReplayFn = Box<dyn Fn(&serde_json::Value) -> Res + Sync + Send>;

pub struct Sub {
    pub name: &'static str,
    pub quick: u32,
    pub thorough: u32,
    run: ShardFn,
    pub replay: ReplayFn,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn silence_panics() {
    std::panic::set_hook(Box::new(|info| {
        let s = format!("{info}");
        LAST_PANIC.with(|p| *p.borrow_mut() = s);
        if std::env::var_os("MBVERIF_BT").is_some() {
            eprintln!("{info}\n{}", std::backtrace::Backtrace::force_capture());
        }
    }));
}

fn payload(e: Box<dyn std::any::Any + Send>) -> String {
    let m = if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    };
    let loc = LAST_PANIC.with(|p| std::mem::take(&mut *p.borrow_mut()));
    let loc = loc.lines().next().unwrap_or("").to_string();
    format!("{m} [{loc}]")
}

/// Runs library code; a panic becomes `Err(message)`.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(payload)
}

/// Runs library code that must not panic.
pub fn must<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    catch(f).map_err(|m| format!("{what} panicked: {m}"))
}

fn run_check<C>(check: &dyn Fn(&C, &mut Obs) -> Res, c: &C, o: &mut Obs) -> Res {
    match catch_unwind(AssertUnwindSafe(|| check(c, o))) {
        Ok(r) => r,
        Err(e) => Err(format!("unexpected panic: {}", payload(e))),
    }
}

// ---------------------------------------------------------------- hangs and crashes

type Lazy = Box<dyn Fn() -> serde_json::Value + Send>;
/// The case each shard is running now.
struct Running {
    since: Instant,
    /// seconds of processor time this case can have had
    had: f64,
    sub: &'static str,
    case: Lazy,
}
static CURRENT: Mutex<BTreeMap<u32, Running>> = Mutex::new(BTreeMap::new());
/// A case that had this much processor time, or that runs for `STUCK_S` seconds,
/// is reported as not terminating (cases take milliseconds).
/// Processor time and not wall time: a busy machine must not look like a hang.
pub const HANG_S: f64 = 100.0;
pub const STUCK_S: u64 = 700;
/// user and system time of this process in seconds
fn cpu_seconds() -> Option<f64> {
    let t = std::fs::read_to_string("/proc/self/stat").ok()?;
    let v: Vec<&str> = t.rsplit_once(')')?.1.split_whitespace().collect();
    Some((v.get(11)?.parse::<f64>().ok()? + v.get(12)?.parse::<f64>().ok()?) / 100.0)
}

fn begin_case<C: Clone + Serialize + Send + 'static>(sub: &'static str, shard: u32, c: &C) {
    if let Some(dir) = std::env::var_os("MBVERIF_TRACE") {
        let f = std::path::Path::new(&dir).join(format!("{sub}-{shard}.json"));
        let r = Replay { property: std::env::var("MBVERIF_PROP").unwrap_or_default(), sub: sub.into(), message: "the process running this case died".into(), case: serde_json::to_value(c).unwrap() };
        let _ = std::fs::write(f, serde_json::to_string_pretty(&r).unwrap());
    }
    let c = c.clone();
    let lazy: Lazy = Box::new(move || serde_json::to_value(&c).unwrap());
    CURRENT.lock().unwrap().insert(shard, Running { since: Instant::now(), had: 0.0, sub, case: lazy });
}
fn end_case(shard: u32) {
    CURRENT.lock().unwrap().remove(&shard);
}
pub fn write_replay(verif: &str, prop: &str, sub: &str, message: &str, case: serde_json::Value) -> String {
    let js = case.to_string();
    let rp = Replay { property: prop.into(), sub: sub.into(), message: message.into(), case };
    let dir = format!("{verif}/replays/{prop}");
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{:016x}.json", dir, sub, hash64(js.as_bytes()));
    std::fs::write(&path, serde_json::to_string_pretty(&rp).unwrap()).unwrap();
    path
}
/// Reports a case that does not come back as a violation and ends the process.
pub fn watchdog(prop: String, verif: String) {
    let mut last = (Instant::now(), cpu_seconds());
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
        let now = (Instant::now(), cpu_seconds());
        let wall = (now.0 - last.0).as_secs_f64();
        let mut g = CURRENT.lock().unwrap();
        let share = match (last.1, now.1) {
            (Some(a), Some(b)) => ((b - a) / g.len().max(1) as f64).min(wall),
            _ => wall,
        };
        last = now;
        for r in g.values_mut() {
            r.had += share.min(r.since.elapsed().as_secs_f64());
        }
        let Some(r) = g.values().find(|r| r.had >= HANG_S * if ["bottleneck", "sigmoid", "relu", "deep"].contains(&r.sub) { 6.0 } else { 1.0 } || r.since.elapsed().as_secs() >= STUCK_S) else { continue };
        let (sub, lazy) = (r.sub, &r.case);
        let msg = format!("the call did not return within {HANG_S} s");
        let path = write_replay(&verif, &prop, sub, &msg, lazy());
        say(&format!("{sub}: {msg}"));
        say(&format!("VIOLATION property={prop} replay={path}"));
        std::process::exit(1);
    });
}

fn hash64(b: &[u8]) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    b.hash(&mut h);
    h.finish()
}

pub fn sub<C>(
    name: &'static str,
    quick: u32,
    thorough: u32,
    strat: impl Fn() -> BoxedStrategy<C> + Sync + Send + 'static,
    check: impl Fn(&C, &mut Obs) -> Res + Sync + Send + Clone + 'static,
) -> Sub
where
    C: std::fmt::Debug + Clone + Serialize + DeserializeOwned + Send + 'static,
{
    let check2 = check.clone();
    let run: ShardFn = Box::new(move |seed, cases, shard| {
        let out = RefCell::new(ShardOut {
            evaluations: 0,
            hashes: HashSet::new(),
            labels: BTreeMap::new(),
            samples: vec![],
            failure: None,
        });
        if cases == 0 {
            return out.into_inner();
        }
        let config = Config {
            cases,
            failure_persistence: None,
            max_shrink_iters: 3000,
            max_shrink_time: 0,
            max_global_rejects: 65536,
            ..Config::default()
        };
        let mut sd = [0u8; 32];
        for (i, b) in sd.iter_mut().enumerate() {
            *b = (hash64(&[&seed.to_le_bytes()[..], &[i as u8], &shard.to_le_bytes()[..]].concat()) & 0xff) as u8;
        }
        let mut runner = TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &sd));
        let failing = RefCell::new(false);
        // a cap on the wall time spent shrinking (does not affect verdicts)
        let shrink_start: RefCell<Option<Instant>> = RefCell::new(None);
        let last_msg = RefCell::new(String::new());
        let res = runner.run(&strat(), |case| {
            if let Some(t) = *shrink_start.borrow() {
                if t.elapsed().as_secs() > 45 {
                    return Ok(());
                }
            }
            if !*failing.borrow() && late() {
                return Ok(());
            }
            let mut o = Obs::default();
            begin_case(name, shard, &case);
            let r = run_check(&check, &case, &mut o);
            end_case(shard);
            if !*failing.borrow() {
                let mut out = out.borrow_mut();
                out.evaluations += 1;
                for l in &o.labels {
                    *out.labels.entry(l.clone()).or_default() += 1;
                }
                if o.nontrivial {
                    let js = serde_json::to_vec(&case).unwrap();
                    let new = out.hashes.insert(hash64(&js));
                    if new && out.samples.is_empty() && js.len() < 4000 {
                        let v = serde_json::to_value(&case).unwrap();
                        out.samples.push(v);
                    }
                }
            }
            match r {
                Ok(()) => Ok(()),
                Err(m) => {
                    if !*failing.borrow() {
                        *failing.borrow_mut() = true;
                        *shrink_start.borrow_mut() = Some(Instant::now());
                    }
                    *last_msg.borrow_mut() = m.clone();
                    Err(TestCaseError::fail(m))
                }
            }
        });
        let mut out = out.into_inner();
        match res {
            Ok(()) => {}
            Err(TestError::Fail(reason, case)) => {
                let js = serde_json::to_string(&case).unwrap();
                out.failure = Some((js, reason.message().to_string()));
            }
            Err(TestError::Abort(reason)) => {
                // generator problem: an error of the check, not a verdict
                eprintln!("ABORT {name}: {reason}");
                std::process::exit(3);
            }
        }
        out
    });
    let replay: ReplayFn = Box::new(move |v| {
        let c: C = serde_json::from_value(v.clone()).map_err(|e| format!("bad replay file: {e}"))?;
        begin_case(name, u32::MAX, &c);
        let r = run_check(&check2, &c, &mut Obs::default());
        end_case(u32::MAX);
        r
    });
    Sub { name, quick, thorough, run, replay }
}

pub struct Ctx {
    pub verif: String,
    pub seed: u64,
    pub tier: Tier,
    pub scale: f64,
    pub only_sub: Option<String>,
}

pub fn say(line: &str) {
    use std::os::fd::FromRawFd;
    static OUT: Mutex<Option<std::fs::File>> = Mutex::new(None);
    let mut g = OUT.lock().unwrap();
    if g.is_none() {
        let fd = if std::env::var_os("MBVERIF_FD3").is_some() { 3 } else { 2 };
        *g = Some(unsafe { std::fs::File::from_raw_fd(fd) });
    }
    let f = g.as_mut().unwrap();
    let _ = writeln!(f, "{line}");
    let _ = f.flush();
}

/// Quick checks generate no further cases after this many seconds (they need a tenth of it on an idle machine);
/// the evidence counts what was run.
const QUICK_BUDGET_S: u64 = 560;
static DEADLINE: Mutex<Option<Instant>> = Mutex::new(None);
fn late() -> bool {
    DEADLINE.lock().unwrap().is_some_and(|t| Instant::now() > t)
}

const SHARDS: u32 = 8;

fn run_sub(s: &Sub, prop: &str, ctx: &Ctx) -> Vec<ShardOut> {
    let total = if ctx.tier == Tier::Quick { s.quick } else { s.thorough };
    let total = ((total as f64) * ctx.scale).ceil() as u32;
    // single cases that use all cores themselves come one after another
    let shards = SHARDS.min(total);
    let per = total.div_ceil(SHARDS);
    let seed = hash64(format!("{}/{}/{}/{}", ctx.seed, prop, s.name, (ctx.tier == Tier::Quick) as u8).as_bytes());
    let mut outs: Vec<ShardOut> = vec![];
    std::thread::scope(|sc| {
        let hs: Vec<_> = (0..shards)
            .map(|k| {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        // shard 0 exercises a parallel pool, the others a sequential one
                        let n = if k == 0 { 3 } else { 1 };
                        let pool = miniboosts_rayon(n);
                        pool.install(|| (s.run)(seed, per, k))
                    })
                    .unwrap()
            })
            .collect();
        for h in hs {
            match h.join() {
                Ok(o) => outs.push(o),
                Err(e) => {
                    eprintln!("harness shard died: {}", payload(e));
                    std::process::exit(4);
                }
            }
        }
    });
    outs
}

fn miniboosts_rayon(n: usize) -> rayon::ThreadPool {
    rayon::ThreadPoolBuilder::new().num_threads(n).stack_size(64 << 20).build().unwrap()
}

fn in_pool<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    miniboosts_rayon(2).install(f)
}

#[derive(serde::Serialize, serde::Deserialize)]
pub struct Replay {
    pub property: String,
    pub sub: String,
    pub message: String,
    pub case: serde_json::Value,
}

pub fn replay_file(props: &[Prop], path: &str) -> i32 {
    let txt = std::fs::read_to_string(path).expect("replay file");
    let r: Replay = serde_json::from_str(&txt).expect("replay json");
    for p in props {
        if p.id == r.property {
            for s in &p.subs {
                if s.name == r.sub {
                    return match in_pool(|| (s.replay)(&r.case)) {
                        Ok(()) => {
                            say(&format!("replay ok: property={} sub={}", p.id, s.name));
                            0
                        }
                        Err(m) => {
                            say(&format!("{m}"));
                            say(&format!("VIOLATION property={} replay={}", p.id, path));
                            1
                        }
                    };
                }
            }
        }
    }
    say("replay: no such property/sub");
    2
}

fn known_findings(verif: &str, id: &str) -> Vec<(String, String)> {
    // lines: finding: property=<id> replay=<file relative to /verif> <what fails>
    let txt = std::fs::read_to_string(format!("{verif}/known-findings.txt")).unwrap_or_default();
    txt.lines()
        .filter_map(|l| {
            let l = l.trim().strip_prefix("finding:")?.trim();
            let l = l.strip_prefix(&format!("property={id} "))?.trim();
            let l = l.strip_prefix("replay=")?;
            let (p, d) = l.split_once(' ').unwrap_or((l, ""));
            Some((p.to_string(), d.to_string()))
        })
        .collect()
}

pub fn run_prop(p: &Prop, ctx: &Ctx) -> i32 {
    let t0 = Instant::now();
    let mut evaluations = 0u64;
    let mut distinct = 0u64;
    let mut samples: Vec<serde_json::Value> = vec![];
    let mut per_sub = serde_json::Map::new();
    let mut violations: Vec<String> = vec![];

    // 1. known findings: the exact listed inputs
    let mut known_cases: Vec<(String, serde_json::Value)> = vec![];
    for (path, desc) in known_findings(&ctx.verif, p.id) {
        let full = format!("{}/{}", ctx.verif, path);
        let r: Replay = serde_json::from_str(&std::fs::read_to_string(&full).expect("finding file")).expect("finding json");
        for s in p.subs.iter().filter(|s| s.name == r.sub) {
            if in_pool(|| (s.replay)(&r.case)).is_err() {
                say(&format!("KNOWN-FINDING: property={} {}", p.id, desc));
            }
        }
        known_cases.push((r.sub.clone(), r.case.clone()));
    }

    // 2. regression inputs (shrunk reproductions of fixed defects and of planted bugs)
    let dir = format!("{}/regressions/{}", ctx.verif, p.id);
    let mut files: Vec<_> = std::fs::read_dir(&dir)
        .map(|d| d.filter_map(|e| e.ok().map(|e| e.path())).collect())
        .unwrap_or_default();
    files.sort();
    let mut regr = 0u64;
    for f in files {
        let f = f.to_string_lossy().to_string();
        if !f.ends_with(".json") {
            continue;
        }
        let r: Replay = serde_json::from_str(&std::fs::read_to_string(&f).unwrap()).expect("regression json");
        if known_cases.iter().any(|(s, c)| *s == r.sub && *c == r.case) {
            continue;
        }
        for s in p.subs.iter().filter(|s| s.name == r.sub) {
            regr += 1;
            evaluations += 1;
            if let Err(m) = in_pool(|| (s.replay)(&r.case)) {
                say(&format!("{}: {m}", s.name));
                say(&format!("VIOLATION property={} replay={}", p.id, f));
                violations.push(format!("{}: {m}", s.name));
            }
        }
    }

    // 3. generated search
    for (k, s) in p.subs.iter().enumerate() {
        if let Some(o) = &ctx.only_sub {
            if o != s.name {
                continue;
            }
        }
        if ctx.tier == Tier::Quick {
            let part = std::time::Duration::from_secs(QUICK_BUDGET_S * (k as u64 + 1) / p.subs.len() as u64);
            *DEADLINE.lock().unwrap() = Some(t0 + part);
        }
        let ts = Instant::now();
        let outs = run_sub(s, p.id, ctx);
        let mut set: HashSet<u64> = HashSet::new();
        let mut labels: BTreeMap<String, u64> = BTreeMap::new();
        let mut ev = 0;
        let mut failure: Option<(String, String)> = None;
        for o in outs {
            ev += o.evaluations;
            set.extend(&o.hashes);
            for (k, v) in o.labels {
                *labels.entry(k).or_default() += v;
            }
            if let Some(v) = o.samples.into_iter().next() {
                if samples.len() < 2 + per_sub.len() * 2 {
                    samples.push(serde_json::json!({"sub": s.name, "case": v}));
                }
            }
            if let Some(f) = o.failure {
                let better = match &failure {
                    None => true,
                    Some((c, _)) => f.0.len() < c.len(),
                };
                if better {
                    failure = Some(f);
                }
            }
        }
        evaluations += ev;
        distinct += set.len() as u64;
        per_sub.insert(
            s.name.into(),
            serde_json::json!({"evaluations": ev, "distinct_nontrivial": set.len(), "labels": labels,
                "wall_s": (ts.elapsed().as_millis() as f64) / 1000.0}),
        );
        if let Some((js, msg)) = failure {
            let v: serde_json::Value = serde_json::from_str(&js).unwrap();
            if known_cases.iter().any(|(sn, c)| sn == s.name && *c == v) {
                continue;
            }
            let path = write_replay(&ctx.verif, p.id, s.name, &msg, v);
            say(&format!("{}: {}", s.name, msg));
            say(&format!("VIOLATION property={} replay={}", p.id, path));
            violations.push(format!("{}: {}", s.name, msg));
        }
    }
    let wall = (t0.elapsed().as_millis() as f64) / 1000.0;
    let ev = serde_json::json!({
        "property": p.id,
        "tier": if ctx.tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": ctx.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": p.rule,
            "samples": samples,
            "regression_inputs": regr,
            "per_sub": per_sub,
        },
        "assumptions": p.assumptions,
        "violations": violations.len(),
        "violation_messages": violations,
        "wall_s": wall,
    });
    if ctx.only_sub.is_none() {
        let _ = std::fs::create_dir_all(format!("{}/evidence", ctx.verif));
        std::fs::write(
            format!("{}/evidence/{}.json", ctx.verif, p.id),
            serde_json::to_string_pretty(&ev).unwrap(),
        )
        .unwrap();
    } else {
        say(&serde_json::to_string_pretty(&ev["coverage"]["per_sub"]).unwrap());
    }
    say(&format!(
        "{}: {} cases, {} distinct non-trivial, {} violation(s), {:.1}s",
        p.id, evaluations, distinct, violations.len(), wall
    ));
    if violations.is_empty() {
        0
    } else {
        1
    }
}

/// Print a few generated values of a sub (debugging aid).
#[allow(dead_code)]
pub fn peek<C: std::fmt::Debug>(s: BoxedStrategy<C>, n: usize) {
    let mut r = TestRunner::deterministic();
    for _ in 0..n {
        eprintln!("{:?}", s.new_tree(&mut r).unwrap().current());
    }
}
