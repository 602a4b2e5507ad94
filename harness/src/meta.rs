//! P16 (logging) and P30 (determinism, repeated runs).
use crate::boost::*;
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::prog::*;
use miniboosts::prelude::*;
use miniboosts::research::{LoggerBuilder, ObjectiveFunction, Research};
use miniboosts::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::HashMap;

thread_local! {
    static POOLS: RefCell<HashMap<usize, rayon::ThreadPool>> = RefCell::new(HashMap::new());
}
/// Runs `f` in a pool of `n` worker threads.
pub fn within<T: Send>(n: usize, f: impl FnOnce() -> T + Send) -> T {
    if rayon::current_num_threads() == n && rayon::current_thread_index().is_some() {
        return f();
    }
    POOLS.with(|p| {
        let mut p = p.borrow_mut();
        let pool = p.entry(n).or_insert_with(|| rayon::ThreadPoolBuilder::new().num_threads(n).stack_size(16 << 20).build().unwrap());
        pool.install(f)
    })
}

pub const KINDS: u8 = 11;
pub const NAMES: [&str; 11] = ["adaboost", "adaboostv", "madaboost", "smoothboost", "graphsep", "lpboost", "erlpboost", "cerlpboost", "softboost", "totalboost", "mlpboost"];

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Conf {
    pub p: ProgCase,
    pub kind: u8,
    /// rounds forced from outside (AdaBoost, AdaBoostV, MadaBoost)
    pub quit: Option<u8>,
    /// hundredths (SmoothBoost)
    pub kappa: u16,
    pub gamma: u16,
}
impl Conf {
    /// Edges are non-negative for the boosters that assume it.
    pub fn signed(&self) -> bool {
        self.kind < 4
    }
    pub fn oracle(&self) -> Oracle {
        Oracle::new(&self.p.g, self.p.how.clone(), self.signed(), 100_000)
    }
    pub fn tol(&self) -> f64 {
        let lo = match self.kind {
            0 | 1 => 150,
            2 => 300,
            _ => 30,
        };
        // off the grid of attainable margins, so that no comparison is decided by rounding
        self.p.tol.unwrap_or(200).max(lo) as f64 / 1000.0 + 0.000317
    }
}
pub fn conf(mmax: usize, nmax: usize) -> BoxedStrategy<Conf> {
    conf_rows(2, mmax, nmax)
}
pub fn conf_rows(mmin: usize, mmax: usize, nmax: usize) -> BoxedStrategy<Conf> {
    (prog_case_rows(mmin, mmax, nmax, (40..600u16).prop_map(Some).boxed()), 0..KINDS, prop::option::of(1u8..30), 10u16..90, 8u16..50)
        .prop_map(|(p, kind, quit, kappa, gamma)| Conf { p, kind, quit, kappa, gamma })
        .boxed()
}

pub fn fw_rule(k: u8) -> FWType {
    match k % 4 {
        0 => FWType::Classic,
        1 => FWType::ShortStep,
        2 => FWType::LineSearch,
        _ => FWType::BlendedPairwise,
    }
}

/// Everything observable about a combined hypothesis, exactly.
pub trait Show {
    fn show(&self, s: &Sample) -> String;
}
impl Show for WeightedMajority<Table> {
    fn show(&self, s: &Sample) -> String {
        format!("{:?} {:?} {:?}", self.weights, self.hypotheses.iter().map(|h| h.id).collect::<Vec<_>>(), self.confidence_all(s))
    }
}
impl Show for NaiveAggregation<Table> {
    fn show(&self, s: &Sample) -> String {
        format!("{:?}", self.confidence_all(s))
    }
}

/// Work to be done with a booster of any kind; `make` gives a fresh, equally configured instance.
trait Visit {
    fn visit<B, O>(self, make: &(dyn Fn() -> B + Sync)) -> Res
    where
        B: Booster<Table, Output = O> + Research<Output = O> + Send,
        O: Classifier + Show + Send;
}
fn with_booster<V: Visit>(c: &Conf, s: &Sample, v: V) -> Res {
    let tol = c.tol();
    let nu = c.p.nu();
    let q = c.quit.map(|q| q as usize);
    match c.kind {
        0 => v.visit(&|| {
            let b = AdaBoost::init(s).tolerance(tol);
            if let Some(q) = q { b.force_quit_at(q) } else { b }
        }),
        1 => v.visit(&|| {
            let b = AdaBoostV::init(s).tolerance(tol);
            if let Some(q) = q { b.force_quit_at(q) } else { b }
        }),
        2 => v.visit(&|| {
            let b = MadaBoost::init(s).tolerance(tol);
            if let Some(q) = q { b.force_quit_at(q) } else { b }
        }),
        3 => v.visit(&|| SmoothBoost::init(s).tolerance(c.kappa as f64 / 100.0 + 0.000317).gamma(c.gamma as f64 / 100.0)),
        4 => v.visit(&|| GraphSepBoost::init(s)),
        5 => v.visit(&|| LPBoost::init(s).nu(nu).tolerance(tol)),
        6 => v.visit(&|| ERLPBoost::init(s).nu(nu).tolerance(tol)),
        7 => v.visit(&|| CERLPBoost::init(s).nu(nu).fw_type(fw_rule(c.p.fw)).tolerance(tol)),
        8 => v.visit(&|| SoftBoost::init(s).nu(nu).tolerance(tol)),
        9 => v.visit(&|| TotalBoost::init(s).tolerance(tol)),
        _ => v.visit(&|| MLPBoost::init(s).nu(nu).frank_wolfe(fw_rule(c.p.fw)).tolerance(tol)),
    }
}

// ---------------------------------------------------------------- P16

#[derive(Debug, Clone, Serialize, Deserialize)]
struct LogCase {
    c: Conf,
    obj: u8,
    loss: u8,
    every: u8,
    /// labels of the test rows (row k of the test sample looks like row k of the training sample)
    test: Vec<bool>,
    /// the base learner sleeps this long, microseconds
    sleep: u32,
    /// time limit, milliseconds
    limit: Option<u16>,
    /// how the limit is set: milliseconds, seconds, minutes
    unit: u8,
}
fn log_case(timed: bool) -> BoxedStrategy<LogCase> {
    log_sized(conf(8, 6), 1..14, timed)
}
fn log_sized(conf: BoxedStrategy<Conf>, tests: std::ops::Range<usize>, timed: bool) -> BoxedStrategy<LogCase> {
    (conf, 0u8..4, 0u8..3, 0u8..4, prop::collection::vec(any::<bool>(), tests), if timed { (200u32..4000).boxed() } else { Just(0u32).boxed() }, if timed { prop_oneof![1 => Just(None), 4 => (0u16..25).prop_map(Some)].boxed() } else { Just(None).boxed() }, 0u8..4)
        .prop_map(move |(mut c, obj, loss, every, test, sleep, limit, unit)| {
            if timed {
                // enough rounds to reach the limit, few enough to end soon
                c.quit = Some(c.quit.unwrap_or(20).max(8));
                c.kappa = c.kappa.max(40);
                c.gamma = c.gamma.max(25);
                c.p.tol = c.p.tol.map(|t| t.max(100));
                if c.kind < 3 || c.p.fw % 2 == 0 { c.kind %= 3; }
            }
            LogCase { c, obj, loss, every, test, sleep, limit, unit }
        })
        .boxed()
}

/// Rounds around and above a second.
fn slow_case() -> BoxedStrategy<LogCase> {
    (log_case(true), prop_oneof![1 => 200_000u32..1_000_000, 3 => 1_000_000u32..2_200_000], 2u8..5, prop::option::of(0u16..5000), 0u8..4)
        .prop_map(|(mut c, sleep, rounds, limit, unit)| {
            c.c.kind %= 3;
            c.c.quit = Some(if sleep > 1_500_000 { 2 } else { rounds });
            c.sleep = sleep;
            c.limit = limit;
            c.unit = unit;
            c
        })
        .no_shrink()
        .boxed()
}

/// The library's objectives behind one type, and one of ours.
struct Obj(u8, f64);
impl<H: Classifier> ObjectiveFunction<H> for Obj {
    fn name(&self) -> &str {
        "objective"
    }
    fn eval(&self, sample: &Sample, h: &H) -> f64 {
        match self.0 {
            0 => SoftMarginObjective::new(self.1).eval(sample, h),
            1 => HardMarginObjective::new().eval(sample, h),
            2 => ExponentialLoss::new().eval(sample, h),
            _ => own_loss(sample, h, 1.0),
        }
    }
}
/// Depends on every row, its position, and the size of the sample.
fn own_loss<H: Classifier>(sample: &Sample, h: &H, scale: f64) -> f64 {
    let y = sample.target();
    (0..y.len()).map(|i| (i as f64 + 1.0) * (1.0 - y[i] * h.confidence(sample, i)).powi(2)).sum::<f64>() * scale + y.len() as f64
}
fn zero_one<H: Classifier>(sample: &Sample, h: &H) -> f64 {
    let y = sample.target();
    (0..y.len()).filter(|&i| h.predict(sample, i) as f64 != y[i]).count() as f64 / y.len() as f64
}
fn loss_of<H: Classifier>(k: u8, sample: &Sample, h: &H) -> f64 {
    match k {
        0 => zero_one(sample, h),
        1 => own_loss(sample, h, 0.5),
        _ => h.confidence_all(sample).iter().zip(sample.target()).map(|(c, y)| (-c * y).exp()).sum::<f64>(),
    }
}

struct LogVisit<'a> {
    c: &'a LogCase,
    s: &'a Sample,
    t: &'a Sample,
    o: &'a mut Obs,
}
impl Visit for LogVisit<'_> {
    fn visit<B, O>(self, make: &(dyn Fn() -> B + Sync)) -> Res
    where
        B: Booster<Table, Output = O> + Research<Output = O> + Send,
        O: Classifier + Show + Send,
    {
        let LogVisit { c, s, t, o } = self;
        let nu = c.c.p.nu();
        let obj = Obj(c.obj, nu);
        // the second instance, driven by hand
        let w = c.c.oracle();
        let mut b = make();
        let mut want: Vec<[f64; 3]> = vec![];
        let cap = 4000;
        let ended = catch(|| {
            b.preprocess(&w);
            for it in 1..=cap {
                let r = b.boost(&w, it);
                let f = b.current_hypothesis();
                want.push([obj.eval(s, &f), loss_of(c.loss, s, &f), loss_of(c.loss, t, &f)]);
                if r.is_break() {
                    return true;
                }
            }
            false
        });
        // an empty vote cannot be evaluated (a first hypothesis of edge zero)
        let Ok(true) = ended else { return Ok(()) };
        let calls = w.dists.borrow().len();

        let file = Scratch::new("csv", b"left over from before\n1,2,3\n");
        let mut lw = c.c.oracle();
        lw.sleep_us = c.sleep as u64;
        let every = [1usize, 3, 100, usize::MAX][c.every as usize % 4];
        let limit = c.limit.map(|l| if c.unit == 3 && l < 8 { (0u128, 2) } else { (l as u128, c.unit as usize) });
        // the settings may also be changed after the logger was built
        let late = c.test.len() % 2 == 0;
        let t0 = std::time::Instant::now();
        let kind = c.loss;
        let got = must("the logged run", || {
            let mut b = LoggerBuilder::new()
                .booster(make())
                .weak_learner(lw)
                .train_sample(s)
                .test_sample(t)
                .objective_function(Obj(c.obj, nu))
                .loss_function(move |s: &Sample, f: &O| loss_of(kind, s, f))
                .print_every(every);
            macro_rules! limited {
                ($b:expr) => {
                    match limit {
                        Some((l, 1)) if l >= 20 => $b.time_limit_as_secs((l / 1000).max(1) as u64),
                        Some((l, 2)) => $b.time_limit_as_mins((l % 4) as u64),
                        Some((l, _)) => $b.time_limit_as_millis(l),
                        None => $b,
                    }
                };
            }
            let mut l = if late {
                // overwritten below, except if there is none
                if limit.is_some() { b = b.time_limit_as_millis(0); }
                limited!(b.print_every(1).build()).print_every(every)
            } else {
                limited!(b).build()
            };
            l.run(&file.0)
        })?;
        let wall = t0.elapsed().as_millis();
        let limit: u128 = match limit {
            Some((l, 1)) if l >= 20 => (l / 1000).max(1) * 1000,
            Some((l, 2)) => (l % 4) * 60_000,
            Some((l, _)) => l,
            None => u128::MAX,
        };
        let got = got.map_err(|e| format!("the logger failed to write: {e}"))?;
        let txt = std::fs::read_to_string(&file.0).map_err(|e| format!("no log file: {e}"))?;
        let mut lines = txt.split('\n');
        ensure!(lines.next() == Some("ObjectiveValue,TrainLoss,TestLoss,Time"), "header of the log: {:?}", txt.lines().next());
        ensure!(lines.next_back() == Some(""), "the log does not end with a line break");
        let lines: Vec<&str> = lines.collect();
        let mut before = 0u128;
        let mut cut = false;
        for (k, l) in lines.iter().enumerate() {
            let f: Vec<&str> = l.split(',').collect();
            ensure!(f.len() == 4, "line {k}: {l}");
            ensure!(k < want.len(), "the log has {} lines, the run takes {} rounds", lines.len(), want.len());
            for (j, name) in ["objective value", "training loss", "test loss"].iter().enumerate() {
                let v: f64 = f[j].parse().map_err(|e| format!("line {k}: {e}"))?;
                ensure!(v == want[k][j] || (v.is_nan() && want[k][j].is_nan()) || close(v, want[k][j], 1e-9), "round {}: the log says {name} {v}, it is {}", k + 1, want[k][j]);
            }
            let time: u128 = f[3].parse().map_err(|e| format!("line {k}: time {}: {e}", f[3]))?;
            ensure!(time >= before, "round {}: the time went back from {before} to {time}", k + 1);
            // each call of the base learner takes at least this long
            if k < calls {
                let all = (k as u64 + 1) * c.sleep as u64;
                ensure!(time >= (all / 1000) as u128, "round {}: the accumulated time is {time} ms, the base learner alone took {all} us", k + 1);
                ensure!(time >= before + (c.sleep / 1000) as u128, "round {}: the time rose from {before} to {time} ms, the base learner alone took {} us", k + 1, c.sleep);
            }
            ensure!(time <= wall, "round {}: {time} ms logged, but the whole run took {wall} ms", k + 1);
            ensure!(!cut, "round {}: went on although the time limit {limit} was exceeded at {before} ms", k + 1);
            cut = time > limit;
            before = time;
        }
        if !cut {
            ensure!(lines.len() == want.len(), "the log has {} lines, the run takes {} rounds", lines.len(), want.len());
        }
        // the returned hypothesis is the one of the same number of rounds
        let w = c.c.oracle();
        let mut b = make();
        let direct = if cut {
            b.preprocess(&w);
            for it in 1..=lines.len() {
                let _ = b.boost(&w, it);
            }
            b.postprocess(&w)
        } else {
            b.run(&w)
        };
        let (x, y) = (got.show(s), direct.show(s));
        ensure!(x == y, "the logged run returned\n{x}\nthe plain run returns\n{y}");
        let last = want[lines.len() - 1];
        let fin = [obj.eval(s, &got), loss_of(c.loss, s, &got), loss_of(c.loss, t, &got)];
        for j in 0..3 {
            ensure!(last[j] == fin[j] || (last[j].is_nan() && fin[j].is_nan()) || close(last[j], fin[j], 1e-6), "the last line says {last:?}, the returned hypothesis has {fin:?}");
        }
        o.nt(lines.len() >= 3);
        o.label(NAMES[c.c.kind as usize]);
        o.label_if(cut, "cut-by-time");
        o.label_if(cut && lines.len() < want.len(), "cut-before-the-end");
        Ok(())
    }
}
fn check_log(c: &LogCase, o: &mut Obs) -> Res {
    within(1, || {
        let s = c.c.p.g.sample();
        let m = c.c.p.g.m();
        let y: Vec<f64> = c.test.iter().map(|b| if *b { 1.0 } else { -1.0 }).collect();
        // possibly more rows than the training sample has
        let t = dense_sample(&[(0..y.len()).map(|i| (i % m) as f64).collect()], &default_names(1), &y);
        o.label_if(y.len() > m, "more test rows than training rows");
        with_booster(&c.c, &s, LogVisit { c, s: &s, t: &t, o })
    })
}

// ---------------------------------------------------------------- P30

#[derive(Debug, Clone, Serialize, Deserialize)]
struct DetCase {
    c: Conf,
    /// another way to answer
    other: Pick,
    threads: u8,
}
fn det_case() -> BoxedStrategy<DetCase> {
    det_sized(conf(12, 7))
}
fn det_sized(conf: BoxedStrategy<Conf>) -> BoxedStrategy<DetCase> {
    (conf, prop::collection::vec(0usize..7, 1..12), 2u8..7, 0u8..14)
        .prop_map(|(mut c, s, threads, gbm)| {
            if gbm == 0 {
                c.kind = KINDS;
            }
            DetCase { c, other: Pick::Script(s), threads }
        })
        .boxed()
}
struct DetVisit<'a> {
    c: &'a DetCase,
    s: &'a Sample,
    o: &'a mut Obs,
}
pub struct Hist {
    pub dists: Vec<Vec<f64>>,
    pub confs: Vec<Vec<f64>>,
    pub out: Result<(String, Vec<f64>), String>,
}
pub fn history<B, O>(b: &mut B, c: &Conf, how: &Pick, s: &Sample) -> Hist
where
    B: Booster<Table, Output = O>,
    O: Classifier + Show + Send,
{
    let mut w = c.oracle();
    w.how = how.clone();
    // longer runs are compared up to here
    w.limit = 400;
    let out = catch(|| b.run(&w)).map(|f| (f.show(s), f.confidence_all(s)));
    Hist { dists: w.dists.into_inner(), confs: w.picks.into_inner().into_iter().map(|t| t.conf).collect(), out }
}
pub fn same(what: &str, a: &Hist, b: &Hist) -> Res {
    ensure!(a.dists.len() == b.dists.len(), "{what}: {} rounds against {}", a.dists.len(), b.dists.len());
    for t in 0..a.dists.len() {
        ensure!(a.dists[t] == b.dists[t], "{what}: round {} presents {:?} against {:?}", t + 1, a.dists[t], b.dists[t]);
    }
    ensure!(a.out == b.out, "{what}: {:?} against {:?}", a.out, b.out);
    Ok(())
}
fn alike(what: &str, a: &Hist, b: &Hist, out: bool) -> Res {
    ensure!(a.dists.len() == b.dists.len(), "{what}: {} rounds against {}", a.dists.len(), b.dists.len());
    for t in 0..a.dists.len() {
        for (x, y) in a.dists[t].iter().zip(&b.dists[t]) {
            ensure!(x == y || (x - y).abs() <= 1e-5, "{what}: round {} presents {:?} against {:?}", t + 1, a.dists[t], b.dists[t]);
        }
    }
    match (&a.out, &b.out) {
        (Ok((_, x)), Ok((_, y))) if out => {
            for (p, q) in x.iter().zip(y) {
                ensure!(p == q || (p - q).abs() <= 1e-4, "{what}: confidences {x:?} against {y:?}");
            }
        }
        (x, y) => ensure!(x.is_ok() == y.is_ok(), "{what}: one run panicked"),
    }
    Ok(())
}
impl Visit for DetVisit<'_> {
    fn visit<B, O>(self, make: &(dyn Fn() -> B + Sync)) -> Res
    where
        B: Booster<Table, Output = O> + Research<Output = O> + Send,
        O: Classifier + Show + Send,
    {
        determinism(self, make)
    }
}
fn determinism<B, O>(v: DetVisit, make: &(dyn Fn() -> B + Sync)) -> Res
where
    B: Booster<Table, Output = O> + Send,
    O: Classifier + Show + Send,
{
    {
        let DetVisit { c, s, o } = v;
        let how = &c.c.p.how;
        let mut b = make();
        let a = history(&mut b, &c.c, how, s);
        ensure!(a.out.is_ok() || c.c.signed() || matches!(&a.out, Err(e) if e.contains(TOO_MANY)), "the run panicked: {:?}", a.out);
        let again = history(&mut b, &c.c, how, s);
        same("second run of the same instance", &a, &again)?;
        same("another instance", &a, &history(&mut make(), &c.c, how, s))?;
        // a run with other answers leaves nothing behind
        let fresh = history(&mut make(), &c.c, &c.other, s);
        same("run after a run with other answers", &fresh, &history(&mut b, &c.c, &c.other, s))?;
        same("run after a run with other answers", &a, &history(&mut b, &c.c, how, s))?;
        // a run abandoned half way leaves nothing behind
        {
            let w = c.c.oracle();
            let _ = catch(|| {
                b.preprocess(&w);
                for it in 1..=(1 + c.threads as usize) {
                    if b.boost(&w, it).is_break() {
                        break;
                    }
                }
            });
            same("run after an abandoned run", &a, &history(&mut b, &c.c, how, s))?;
        }
        o.label(NAMES.get(c.c.kind as usize).unwrap_or(&"gbm"));
        o.nt(a.dists.len() >= 3);
        // answers that do not depend on the last bits of the distribution
        let here = fresh;
        // whether an edge reaches one is a matter of the last bit
        let y = c.c.p.g.labels();
        let perfect = here.dists.iter().zip(&here.confs).any(|(d, h)| edge(h, &y, d) > 1.0 - 1e-9);
        if c.c.signed() && perfect {
            o.label("edge-one");
            return Ok(());
        }
        // neither are optima of linear programs and ties between hypotheses
        let kind = c.c.kind;
        if kind == 5 || kind == 10 || (kind == 7 && c.c.p.fw % 4 == 3) {
            return Ok(());
        }
        let n = c.threads as usize;
        let par = std::sync::Mutex::new(None);
        within(n, || {
            let h = history(&mut make(), &c.c, &c.other, s);
            *par.lock().unwrap() = Some(h);
        });
        alike(&format!("{n} worker threads against one"), &here, &par.into_inner().unwrap().unwrap(), kind <= 4 || kind == 7)
    }
}
fn check_det(c: &DetCase, o: &mut Obs) -> Res {
    within(1, || {
        let s = c.c.p.g.sample();
        let v = DetVisit { c, s: &s, o };
        if c.c.kind == KINDS {
            let loss = || if c.c.gamma % 2 == 0 { GBMLoss::L2 } else { GBMLoss::L1 };
            return determinism(v, &|| GBM::init_with_loss(&s, loss()));
        }
        with_booster(&c.c, &s, v)
    })
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P16",
            rule: "a logged run of at least three rounds",
            assumptions: &["a combination without positive weight (first edge exactly zero) is not evaluated"],
            subs: vec![sub("log", 60000, 1000000, || log_case(false), check_log), sub("time", 1500, 20000, || log_case(true), check_log), sub("slow", 24, 400, slow_case, check_log), sub("large", 200, 6000, || log_sized(conf_rows(100, 300, 6), 1..100, false), check_log)],
        },
        Prop {
            id: "P30",
            rule: "a run of at least three rounds",
            assumptions: &["last-bit differences of parallel sums are tolerated between different pool sizes"],
            subs: vec![sub("boosters", 40000, 800000, det_case, check_det), sub("large", 200, 4000, || det_sized(conf_rows(130, 400, 7)), check_det)],
        },
    ]
}
