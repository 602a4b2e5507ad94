//! P17..P21: AdaBoost, AdaBoostV, MadaBoost, SmoothBoost, graph separation boosting.
//! A recording base learner answers the booster; an independent model replays the history.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use miniboosts::prelude::*;
use miniboosts::GraphSepBoost;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;

/// How the base learner picks its next hypothesis.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Pick {
    /// the best edge in the pool (lowest index on ties)
    Best,
    /// a fixed cyclic sequence of pool members
    Script(Vec<usize>),
    /// the script's hypothesis when its edge is at least `fraction`/10 of the best, else the best
    Lazy(Vec<usize>, u8),
}
pub fn pick(n: usize) -> BoxedStrategy<Pick> {
    let script = || prop::collection::vec(0..n, 1..12);
    prop_oneof![3 => Just(Pick::Best), 2 => script().prop_map(Pick::Script), 2 => (script(), 0u8..10).prop_map(|(s, f)| Pick::Lazy(s, f))].boxed()
}

/// Recording base learner over a pool of table hypotheses.
pub struct Oracle {
    pub tables: Vec<Table>,
    pub y: Vec<f64>,
    pub how: Pick,
    /// answer the negated hypothesis when the edge is negative
    pub signed: bool,
    /// panics when called more often than this
    pub limit: usize,
    pub dists: RefCell<Vec<Vec<f64>>>,
    pub picks: RefCell<Vec<Table>>,
    pub sleep_us: u64,
}
pub const TOO_MANY: &str = "the base learner was called more often than the round bound allows";
impl Oracle {
    pub fn new(g: &Game, how: Pick, signed: bool, limit: usize) -> Self {
        Self { tables: g.tables(), y: g.labels(), how, signed, limit, dists: RefCell::new(vec![]), picks: RefCell::new(vec![]), sleep_us: 0 }
    }
    fn answer(&self, k: usize, d: &[f64]) -> (f64, Table) {
        let t = &self.tables[k];
        let e = edge(&t.conf, &self.y, d);
        if self.signed && e < 0.0 {
            (-e, Table { id: t.id + 1000, conf: t.conf.iter().map(|c| -c).collect() })
        } else {
            (e, t.clone())
        }
    }
    fn best(&self, d: &[f64]) -> (f64, Table) {
        let mut b = self.answer(0, d);
        for k in 1..self.tables.len() {
            let c = self.answer(k, d);
            if c.0 > b.0 + 1e-12 {
                b = c;
            }
        }
        b
    }
}
impl WeakLearner for Oracle {
    type Hypothesis = Table;
    fn name(&self) -> &str {
        "oracle"
    }
    fn produce(&self, _s: &Sample, d: &[f64]) -> Table {
        let t = self.dists.borrow().len();
        if t >= self.limit {
            panic!("{TOO_MANY} ({})", self.limit);
        }
        if self.sleep_us > 0 {
            std::thread::sleep(std::time::Duration::from_micros(self.sleep_us));
        }
        self.dists.borrow_mut().push(d.to_vec());
        let h = match &self.how {
            Pick::Best => self.best(d).1,
            Pick::Script(s) => self.answer(s[t % s.len()] % self.tables.len(), d).1,
            Pick::Lazy(s, f) => {
                let a = self.answer(s[t % s.len()] % self.tables.len(), d);
                let b = self.best(d);
                if a.0 >= b.0 * (*f as f64) / 10.0 {
                    a.1
                } else {
                    b.1
                }
            }
        };
        self.picks.borrow_mut().push(h.clone());
        h
    }
}

/// The combined hypothesis against weights on the received hypotheses: equal on every row.
pub fn same_vote(f: &WeightedMajority<Table>, w: &[f64], hs: &[Table], s: &Sample, tol: f64) -> Res {
    check_simplex(&f.weights)?;
    let z: f64 = w.iter().filter(|w| **w > 0.0).sum();
    for i in 0..s.shape().0 {
        let want = w.iter().zip(hs).filter(|(w, _)| **w > 0.0).map(|(w, h)| w / z * h.conf[i]).sum::<f64>();
        let got = f.confidence(s, i);
        ensure!((got - want).abs() <= tol, "row {i}: the combined hypothesis says {got}, the weighted vote of the received hypotheses is {want}");
    }
    Ok(())
}
fn alone(f: &WeightedMajority<Table>, h: &Table) -> Res {
    ensure!(f.hypotheses.len() == 1 && f.hypotheses[0] == *h && f.weights[0] == 1.0, "stopped at a perfect hypothesis but returned {:?} of {:?}", f.weights, f.hypotheses.iter().map(|h| h.id).collect::<Vec<_>>());
    Ok(())
}
fn uniform(m: usize) -> Vec<f64> {
    vec![1.0 / m as f64; m]
}
fn softmax(l: &[f64]) -> Vec<f64> {
    let mx = l.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    let z: f64 = l.iter().map(|x| (x - mx).exp()).sum();
    l.iter().map(|x| (x - mx).exp() / z).collect()
}
fn same_dist(t: usize, got: &[f64], want: &[f64], tol: f64) -> Res {
    ensure!(got.len() == want.len(), "round {t}: the distribution has {} entries for {} rows", got.len(), want.len());
    for (i, (a, b)) in got.iter().zip(want).enumerate() {
        ensure!(a.is_finite() && (a - b).abs() <= tol, "round {t}: row {i} has weight {a}, expected {b}\n got {got:?}\nwant {want:?}");
    }
    Ok(())
}

/// The floor of `x`, or both neighbours when `x` is an integer up to rounding.
fn floors(x: f64) -> (usize, usize) {
    let r = x.round();
    if (x - r).abs() < 1e-9 * x.abs().max(1.0) && r >= 1.0 {
        (r as usize - 1, r as usize)
    } else {
        (x.floor() as usize, x.floor() as usize)
    }
}
pub fn ceils(x: f64) -> (usize, usize) {
    let r = x.round();
    if (x - r).abs() < 1e-9 * x.abs().max(1.0) && r >= 0.0 {
        (r as usize, r as usize + 1)
    } else {
        (x.ceil() as usize, x.ceil() as usize)
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct AdaCase {
    g: Game,
    how: Pick,
    /// tolerance in hundredths; None: the default
    tol: Option<u16>,
    /// rounds forced from outside
    quit: Option<usize>,
    /// no answer with a negative edge
    #[serde(default = "yes")]
    signed: bool,
}
fn yes() -> bool {
    true
}
impl AdaCase {
    fn tolerance(&self, default: f64) -> f64 {
        self.tol.map(|t| t as f64 / 100.0).unwrap_or(default)
    }
}
fn ada_case(mmax: usize, quits: std::ops::RangeInclusive<usize>, lo_tol: u16, quit_only: bool) -> BoxedStrategy<AdaCase> {
    ada_sized(2..=mmax, quits, lo_tol, quit_only)
}
fn ada_sized(rows: std::ops::RangeInclusive<usize>, quits: std::ops::RangeInclusive<usize>, lo_tol: u16, quit_only: bool) -> BoxedStrategy<AdaCase> {
    (prop_oneof![Just(false), Just(true)], 1usize..=7)
        .prop_flat_map(move |(pm, n)| (game(rows.clone(), 1..=n, pm), pick(n)))
        .prop_flat_map(move |(g, how)| {
            let tol = lo_tol..99u16;
            let q = quits.clone();
            let stop = if quit_only {
                prop_oneof![1 => (Just(None), q.clone().prop_map(Some)), 1 => (tol.prop_map(Some), q.prop_map(Some))].boxed()
            } else {
                prop_oneof![
                    2 => (Just(None), q.clone().prop_map(Some)).boxed(),
                    1 => (tol.clone().prop_map(Some), q.prop_map(Some)).boxed(),
                    5 => (tol.prop_map(Some), Just(None)).boxed(),
                ]
                .boxed()
            };
            (Just(g), Just(how), stop)
        })
        .prop_map(|(g, how, (tol, quit))| AdaCase { g, how, tol, quit, signed: true })
        .boxed()
}
/// The base learner may answer with hypotheses worse than guessing.
fn worse_case(lo_tol: u16) -> BoxedStrategy<AdaCase> {
    (ada_case(10, 2..=40, lo_tol, true), 0usize..8)
        .prop_map(|(mut c, neg)| {
            c.signed = false;
            for (k, r) in c.g.h.iter_mut().enumerate() {
                if k == neg {
                    // agrees with no label
                    r.iter_mut().zip(&c.g.y).for_each(|(v, &b)| *v = if b { -v.abs() } else { v.abs() });
                }
            }
            c
        })
        .boxed()
}

/// Hypotheses of hardly any confidence: small edges, small weights.
fn tiny_case(lo_tol: u16) -> BoxedStrategy<AdaCase> {
    (ada_case(10, 2..=60, lo_tol, true), 3u32..=6)
        .prop_map(|(mut c, k)| {
            c.g.den = 10i32.pow(k);
            c
        })
        .boxed()
}

/// Exactly representable situation: a perfect hypothesis under the uniform distribution over 2^k rows.
fn surely_perfect(t: usize, margins: &[f64]) -> bool {
    t == 0 && margins.len().is_power_of_two() && margins.iter().all(|x| *x == 1.0)
}

enum Stop {
    Bound,
    Perfect,
    /// an edge within rounding of one that was not taken for one: nothing after it is judged
    Unclear,
}

/// Replays AdaBoost-like runs. `step(edge)` gives the weight of the new hypothesis,
/// `shape` the distribution from the log-weights.
fn replay_ada(w: &Oracle, rounds: (usize, usize), shape: impl Fn(&[f64]) -> Vec<f64>, mut step: impl FnMut(f64) -> f64, o: &mut Obs) -> Result<(Stop, Vec<f64>, Vec<f64>), String> {
    let dists = w.dists.borrow();
    let picks = w.picks.borrow();
    let m = w.y.len();
    let mut l = vec![0.0f64; m];
    let mut weights = vec![];
    let mut edges = vec![];
    let mut low = vec![false; m];
    let mut worse = false;
    for t in 0..dists.len() {
        let want = shape(&l);
        if want.iter().enumerate().any(|(i, d)| low[i] && *d > 1e-250) {
            // a weight that underflowed comes back: beyond double precision
            o.label("underflow-return");
            return Ok((Stop::Unclear, weights, edges));
        }
        for (i, d) in want.iter().enumerate() {
            low[i] |= *d < 1e-290;
        }
        if t == 0 {
            same_dist(t, &dists[t], &uniform(m), 1e-12)?;
        }
        same_dist(t, &dists[t], &want, 1e-7)?;
        let margins: Vec<f64> = picks[t].conf.iter().zip(&w.y).map(|(c, y)| c * y).collect();
        let e: f64 = margins.iter().zip(&want).map(|(a, b)| a * b).sum();
        edges.push(e);
        if surely_perfect(t, &margins) {
            ensure!(dists.len() == 1, "round {t}: a perfect hypothesis (edge one) did not stop the run");
            return Ok((Stop::Perfect, weights, edges));
        }
        if e > 1.0 - 1e-9 {
            o.label("edge-one");
            return Ok((if t + 1 == dists.len() && rounds.0 > t + 1 { Stop::Perfect } else { Stop::Unclear }, weights, edges));
        }
        if e < -1.0 + 1e-9 {
            o.label("edge-minus-one");
            for (u, d) in dists.iter().enumerate().skip(t) {
                check_dist(d, m, 1.0, 1e-9).map_err(|x| format!("round {u}: {x}"))?;
            }
            return Ok((Stop::Unclear, weights, edges));
        }
        if e < -1e-9 && !worse {
            worse = true;
            o.label("worse-than-guessing");
        }
        let a = step(e);
        if !a.is_finite() {
            o.label("no-such-weight");
            for (u, d) in dists.iter().enumerate().skip(t) {
                check_dist(d, m, 1.0, 1e-9).map_err(|x| format!("round {u}: {x}"))?;
            }
            return Ok((Stop::Unclear, weights, edges));
        }
        weights.push(a);
        for (x, yh) in l.iter_mut().zip(&margins) {
            *x -= a * yh;
        }
    }
    ensure!(dists.len() >= rounds.0 && dists.len() <= rounds.1, "stopped after {} rounds, the bound is {:?}", dists.len(), rounds);
    Ok((Stop::Bound, weights, edges))
}

fn atanh_weight(e: f64) -> f64 {
    ((1.0 + e) / (1.0 - e)).ln() / 2.0
}
/// Total weight below which the normalised vote is numerically meaningless.
fn meaningless(w: &[f64]) -> bool {
    w.iter().filter(|x| **x > 0.0).sum::<f64>() < 1e-6
}

fn run_with<B, F>(b: &mut B, w: &Oracle, skip: F) -> Result<Option<WeightedMajority<Table>>, String>
where
    B: Booster<Table, Output = WeightedMajority<Table>>,
    F: Fn() -> bool,
{
    match catch(|| b.run(w)) {
        Ok(f) => Ok(Some(f)),
        Err(_) if skip() => Ok(None),
        Err(m) => Err(format!("the run panicked: {m}")),
    }
}

fn check_adaboost(c: &AdaCase, o: &mut Obs) -> Res {
    let s = c.g.sample();
    let m = c.g.m();
    let tol = c.tolerance(1.0 / (m as f64 + 1.0));
    let mut b = AdaBoost::init(&s);
    if c.tol.is_some() {
        b = b.tolerance(tol);
    }
    let (lo, hi) = floors((m as f64).ln() / (tol * tol));
    let ml = b.max_loop();
    ensure!(ml >= lo && ml <= hi, "max_loop is {ml}, expected {lo}");
    let rounds = if let Some(q) = c.quit {
        b = b.force_quit_at(q);
        (q, q)
    } else {
        (lo, hi)
    };
    let w = Oracle::new(&c.g, c.how.clone(), c.signed, rounds.1 + 1);
    // with no positive weight there is no vote to return
    let f = run_with(&mut b, &w, || w.picks.borrow().len() <= rounds.1 && (!c.signed || w.dists.borrow().iter().zip(w.picks.borrow().iter()).all(|(d, h)| edge(&h.conf, &w.y, d) < 1e-12)))?;
    let (stop, weights, edges) = replay_ada(&w, rounds, softmax, atanh_weight, o)?;
    let picks = w.picks.borrow();
    let Some(f) = f else { return Ok(()) };
    match stop {
        Stop::Perfect => {
            alone(&f, picks.last().unwrap())?;
            o.label("perfect");
            o.nt(true);
        }
        Stop::Unclear => {}
        Stop::Bound => {
            if meaningless(&weights) {
                return Ok(());
            }
            same_vote(&f, &weights, &picks, &s, 1e-6)?;
            let bound: f64 = edges.iter().map(|e| (1.0 - e * e).max(0.0).sqrt()).product();
            let err = margins_of(&f, &s).iter().filter(|x| **x <= 0.0).count() as f64 / m as f64;
            if c.signed && margins_of(&f, &s).iter().all(|x| x.abs() > 1e-9) {
                ensure!(err <= bound + 1e-9, "training error {err} exceeds the product bound {bound}");
                o.label_if(bound < 1.0 / m as f64, "bound-forces-zero-error");
            }
            o.nt(weights.len() >= 3 && edges.iter().any(|e| *e > 0.01));
            o.label_if(weights.len() > 500, "long");
        }
    }
    Ok(())
}

fn check_adaboostv(c: &AdaCase, o: &mut Obs) -> Res {
    let s = c.g.sample();
    let m = c.g.m();
    let tol = c.tolerance(1.0 / m as f64);
    let mut b = AdaBoostV::init(&s);
    if c.tol.is_some() {
        b = b.tolerance(tol);
    }
    let (lo, hi) = ceils(2.0 * (m as f64).ln() / (tol * tol));
    let ml = b.max_loop();
    ensure!(ml >= lo && ml <= hi, "max_loop is {ml}, expected {lo}");
    let rounds = if let Some(q) = c.quit {
        b = b.force_quit_at(q);
        (q, q)
    } else {
        (lo, hi)
    };
    let w = Oracle::new(&c.g, c.how.clone(), c.signed, rounds.1 + 1);
    // the weights are positive whatever the edges are, unless one of them is minus one
    let f = run_with(&mut b, &w, || !c.signed && w.dists.borrow().iter().zip(w.picks.borrow().iter()).any(|(d, h)| edge(&h.conf, &w.y, d) < -1.0 + 1e-6))?;
    let mut gamma = 1.0f64;
    let step = |e: f64| {
        gamma = gamma.min(e);
        if gamma - tol <= -1.0 + 1e-6 {
            // worse than the tolerance allows for
            return f64::NAN;
        }
        atanh_weight(e) - atanh_weight(gamma - tol)
    };
    let (stop, weights, edges) = replay_ada(&w, rounds, softmax, step, o)?;
    let picks = w.picks.borrow();
    let Some(f) = f else { return Ok(()) };
    match stop {
        Stop::Perfect => {
            alone(&f, picks.last().unwrap())?;
            o.label("perfect");
            o.nt(true);
        }
        Stop::Unclear => {}
        Stop::Bound => {
            if meaningless(&weights) {
                return Ok(());
            }
            same_vote(&f, &weights, &picks, &s, 1e-6)?;
            let g = edges.iter().cloned().fold(1.0, f64::min);
            if c.signed && c.quit.is_none_or(|q| q >= hi) {
                let worst = margins_of(&f, &s).into_iter().fold(f64::INFINITY, f64::min);
                ensure!(worst >= g - tol - 1e-6, "the smallest margin {worst} is below the smallest edge {g} minus the tolerance {tol}");
                o.label("completed");
                o.label_if(g > tol, "positive-margin-forced");
            }
            o.nt(weights.len() >= 3 && edges.iter().any(|e| *e > 0.01));
        }
    }
    Ok(())
}

fn check_madaboost(c: &AdaCase, o: &mut Obs) -> Res {
    let s = c.g.sample();
    let m = c.g.m();
    let tol = c.tolerance(1.0 / (m as f64 + 1.0));
    let mut b = MadaBoost::init(&s);
    if c.tol.is_some() {
        b = b.tolerance(tol);
    }
    let (lo, hi) = ceils((m as f64 - 1.0) / (tol * tol));
    let ml = b.max_loop();
    ensure!(ml >= lo && ml <= hi, "max_loop is {ml}, expected {lo}");
    let rounds = if let Some(q) = c.quit {
        b = b.force_quit_at(q);
        (q, q)
    } else {
        (lo, hi)
    };
    let w = Oracle::new(&c.g, c.how.clone(), c.signed, rounds.1 + 1);
    let f = run_with(&mut b, &w, || w.picks.borrow().len() <= rounds.1 && (!c.signed || w.dists.borrow().iter().zip(w.picks.borrow().iter()).all(|(d, h)| edge(&h.conf, &w.y, d) < 1e-12)))?;
    let shape = |l: &[f64]| {
        let v: Vec<f64> = l.iter().map(|x| x.min(0.0)).collect();
        softmax(&v)
    };
    let step = |e: f64| {
        let half = ((1.0 - e) / 2.0 / 2.0).sqrt();
        -((half / (1.0 - half)).sqrt().ln())
    };
    let (stop, weights, edges) = replay_ada(&w, rounds, shape, step, o)?;
    let picks = w.picks.borrow();
    let Some(f) = f else { return Ok(()) };
    match stop {
        Stop::Perfect => {
            alone(&f, picks.last().unwrap())?;
            o.label("perfect");
            o.nt(true);
        }
        Stop::Unclear => {}
        Stop::Bound => {
            if meaningless(&weights) {
                return Ok(());
            }
            same_vote(&f, &weights, &picks, &s, 1e-6)?;
            o.nt(weights.len() >= 3 && edges.iter().any(|e| *e > 0.01));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- P20 SmoothBoost

#[derive(Debug, Clone, Serialize, Deserialize)]
struct SmoothCase {
    g: Game,
    how: Pick,
    /// hundredths
    kappa: u16,
    gamma: u16,
}
fn smooth_case() -> BoxedStrategy<SmoothCase> {
    smooth_sized(2..=10)
}
fn smooth_sized(rows: std::ops::RangeInclusive<usize>) -> BoxedStrategy<SmoothCase> {
    (any::<bool>(), 1usize..=7)
        .prop_flat_map(move |(pm, n)| (game(rows.clone(), 1..=n, pm), pick(n), 3u16..95, prop_oneof![3 => 5u16..50, 2 => 15u16..35]))
        .prop_map(|(g, how, kappa, gamma)| SmoothCase { g, how, kappa, gamma })
        .boxed()
}
fn check_smooth(c: &SmoothCase, o: &mut Obs) -> Res {
    let s = c.g.sample();
    let m = c.g.m();
    let y = c.g.labels();
    let (kappa, gamma) = (c.kappa as f64 / 100.0, c.gamma as f64 / 100.0);
    let theta = gamma / (2.0 + gamma);
    let (lo, hi) = ceils(2.0 / (kappa * gamma * gamma * (1.0 - gamma).sqrt()));
    if lo > 4000 {
        return Ok(());
    }
    let mut b = SmoothBoost::init(&s).tolerance(kappa).gamma(gamma);
    let w = Oracle::new(&c.g, c.how.clone(), true, hi + 1);
    let f = must("the run", || b.run(&w))?;
    let dists = w.dists.borrow();
    let picks = w.picks.borrow();
    let mut n = vec![0.0f64; m];
    let mut mw = vec![1.0f64; m];
    let mut weak = true;
    let mut unclear = false;
    for t in 0..dists.len() {
        let sum: f64 = mw.iter().sum();
        let avg = sum / m as f64;
        ensure!(avg >= kappa - 1e-9, "round {t}: went on although the average weight {avg} is below kappa {kappa}");
        let want: Vec<f64> = mw.iter().map(|x| x / sum).collect();
        same_dist(t, &dists[t], &want, 1e-7)?;
        check_dist(&dists[t], m, 1.0 / (kappa * m as f64), 1e-9)?;
        let e = edge(&picks[t].conf, &y, &want);
        weak &= e >= 2.0 * gamma;
        for i in 0..m {
            n[i] += y[i] * picks[t].conf[i] - theta;
            // at n = 0 both branches give weight one
            mw[i] = if n[i] <= 0.0 { 1.0 } else { (1.0 - gamma).powf(n[i] / 2.0) };
            unclear |= !n[i].is_finite();
        }
    }
    ensure!(!unclear, "non-finite model");
    let avg: f64 = mw.iter().sum::<f64>() / m as f64;
    let early = dists.len() < lo;
    if early {
        ensure!(avg < kappa + 1e-9, "stopped after {} of {lo} rounds although the average weight {avg} is at least kappa {kappa}", dists.len());
    } else {
        ensure!(dists.len() <= hi, "{} rounds, the bound is {hi}", dists.len());
    }
    same_vote(&f, &vec![1.0; picks.len()], &picks, &s, 1e-9)?;
    if weak {
        let bad = margins_of(&f, &s).iter().filter(|x| **x <= theta - 1e-9).count() as f64 / m as f64;
        ensure!(bad < kappa + 1e-9, "the fraction {bad} of rows with margin at most theta is not below kappa {kappa}");
        o.label("weak-learner-guarantee-holds");
        o.label_if(kappa * (m as f64) < 1.0, "all-margins-forced");
    }
    o.label_if(early, "stopped-by-kappa");
    o.nt(picks.len() >= 3);
    Ok(())
}

// ---------------------------------------------------------------- P21 graph separation

#[derive(Debug, Clone, Serialize, Deserialize)]
struct GraphCase {
    g: Game,
    how: Pick,
    again: bool,
}
fn graph_case() -> BoxedStrategy<GraphCase> {
    graph_sized(2..=12)
}
fn graph_sized(rows: std::ops::RangeInclusive<usize>) -> BoxedStrategy<GraphCase> {
    (any::<bool>(), 1usize..=8)
        .prop_flat_map(move |(pm, n)| (game(rows.clone(), 1..=n, pm), pick(n), any::<bool>()))
        .prop_map(|(g, how, again)| GraphCase { g, how, again })
        .boxed()
}
fn check_graph(c: &GraphCase, o: &mut Obs) -> Res {
    let s = c.g.sample();
    let m = c.g.m();
    let y = c.g.labels();
    let w = Oracle::new(&c.g, c.how.clone(), false, m * m + 2);
    let mut b = GraphSepBoost::init(&s);
    let mut f = must("the run", || b.run(&w))?;
    if c.again {
        w.dists.borrow_mut().clear();
        w.picks.borrow_mut().clear();
        f = must("the second run", || b.run(&w))?;
    }
    let dists = w.dists.borrow();
    let picks = w.picks.borrow();
    let mut pairs: Vec<(usize, usize)> = vec![];
    for i in 0..m {
        for j in i + 1..m {
            if y[i] != y[j] {
                pairs.push((i, j));
            }
        }
    }
    let vote = |h: &Table, i: usize| if h.conf[i] >= 0.0 { 1 } else { -1 };
    let mut stalled = false;
    for t in 0..dists.len() {
        ensure!(!pairs.is_empty(), "round {t}: went on although every pair is separated");
        ensure!(!stalled, "round {t}: went on although the last hypothesis separated nothing");
        let mut want = vec![0.0; m];
        for &(i, j) in &pairs {
            want[i] += 1.0;
            want[j] += 1.0;
        }
        let z = 2.0 * pairs.len() as f64;
        want.iter_mut().for_each(|x| *x /= z);
        same_dist(t, &dists[t], &want, 1e-12)?;
        let before = pairs.len();
        pairs.retain(|&(i, j)| vote(&picks[t], i) == vote(&picks[t], j));
        stalled = pairs.len() == before;
    }
    ensure!(pairs.is_empty() || stalled, "stopped with {} unseparated pairs after a hypothesis that separated some", pairs.len());
    // the returned classifier votes by the patterns of the positive rows
    let pattern = |i: usize| picks.iter().map(|h| vote(h, i)).collect::<Vec<_>>();
    let pos: Vec<Vec<i32>> = (0..m).filter(|&i| y[i] > 0.0).map(pattern).collect();
    let got = f.predict_all(&s);
    for i in 0..m {
        let want = if pos.contains(&pattern(i)) { 1 } else { -1 };
        ensure!(got[i] == want, "row {i}: predicted {}, the vote pattern says {want}", got[i]);
        if pairs.is_empty() {
            ensure!(got[i] as f64 == y[i], "row {i}: predicted {} for label {} although every pair is separated", got[i], y[i]);
        }
    }
    o.label_if(pairs.is_empty(), "all-separated");
    o.label_if(stalled, "stalled");
    o.nt(picks.len() >= 2);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let common: &[&str] = &["the base learner's edges are non-negative (it answers the negated hypothesis otherwise), except in the sub-check worse", "edges within 1e-9 of one are only judged where the arithmetic is exact"];
    vec![
        Prop {
            id: "P17",
            rule: "a run of at least 3 rounds with some edge above 0.01, or one stopped by a perfect hypothesis",
            assumptions: common,
            subs: vec![
                sub("replay", 1200000, 6000000, || ada_case(12, 0..=40, 15, false), check_adaboost),
                sub("worse", 240000, 1200000, || worse_case(15), check_adaboost),
                sub("tiny", 150000, 3000000, || tiny_case(15), check_adaboost),
                sub("long", 4800, 20000, || ada_case(8, 2000..=6000, 15, true), check_adaboost),
                sub("large", 8000, 40000, || ada_sized(100..=600, 1..=40, 15, false), check_adaboost),
                sub("thousands", 400, 4000, || ada_sized(1000..=4000, 1..=12, 15, true).boxed(), check_adaboost),
            ],
        },
        Prop {
            id: "P18",
            rule: "a run of at least 3 rounds with some edge above 0.01, or one stopped by a perfect hypothesis",
            assumptions: common,
            subs: vec![
                sub("replay", 900000, 6000000, || ada_case(12, 1..=40, 15, false), check_adaboostv),
                sub("worse", 180000, 1200000, || worse_case(15), check_adaboostv),
                sub("tiny", 150000, 3000000, || tiny_case(15), check_adaboostv),
                sub("long", 3600, 20000, || ada_case(8, 2000..=6000, 5, true), check_adaboostv),
                sub("large", 6000, 40000, || ada_sized(100..=600, 1..=40, 15, false), check_adaboostv),
                sub("thousands", 400, 4000, || ada_sized(1000..=4000, 1..=12, 15, true).boxed(), check_adaboostv),
                sub("guarantee", 90000, 800000, || ada_case(10, 1..=40, 5, false).prop_map(|mut c| { c.quit = None; c.tol = c.tol.or(Some(20)); c }).boxed(), check_adaboostv),
            ],
        },
        Prop {
            id: "P19",
            rule: "a run of at least 3 rounds with some edge above 0.01, or one stopped by a perfect hypothesis",
            assumptions: common,
            subs: vec![
                sub("replay", 600000, 6000000, || ada_case(12, 1..=40, 25, false), check_madaboost),
                sub("worse", 120000, 1200000, || worse_case(25), check_madaboost),
                sub("tiny", 150000, 3000000, || tiny_case(25), check_madaboost),
                sub("long", 2400, 20000, || ada_case(8, 1000..=3000, 15, true), check_madaboost),
                sub("large", 1200, 20000, || ada_sized(100..=600, 1..=40, 25, false), check_madaboost),
                sub("thousands", 400, 4000, || ada_sized(1000..=4000, 1..=12, 25, true).boxed(), check_madaboost),
            ],
        },
        Prop { id: "P20", rule: "a run of at least 3 rounds", assumptions: common, subs: vec![sub("replay", 600000, 6000000, smooth_case, check_smooth), sub("large", 3000, 20000, || smooth_sized(100..=500), check_smooth), sub("thousands", 80, 800, || smooth_sized(1000..=2500), check_smooth)] },
        Prop { id: "P21", rule: "a run of at least 2 rounds", assumptions: &[], subs: vec![sub("replay", 3200000, 16000000, graph_case, check_graph), sub("large", 8000, 40000, || graph_sized(40..=300), check_graph), sub("thousands", 80, 800, || graph_sized(700..=1300), check_graph)] },
    ]
}
