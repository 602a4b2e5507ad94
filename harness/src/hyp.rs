//! P09, P12..P15, P28, P29: naive Bayes, combined hypotheses, serialisation, objectives,
//! gradient boosting and its losses.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::trees;
use miniboosts::prelude::*;
use miniboosts::research::ObjectiveFunction;
use miniboosts::{ExponentialLoss, HardMarginObjective, NaiveAggregation, SoftMarginObjective};
use proptest::prelude::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::cell::RefCell;

// ---------------------------------------------------------------- P12 weighted majority

/// (sign, mantissa, decimal exponent)
#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
struct W(i8, u16, i16);
impl W {
    fn v(self) -> f64 {
        self.0 as f64 * self.1 as f64 * 10f64.powi(self.2 as i32)
    }
}
fn weight() -> BoxedStrategy<W> {
    let e = prop_oneof![6 => Just(0i16), 2 => -3i16..3, 1 => -300i16..286];
    (prop_oneof![1 => Just(-1i8), 6 => Just(1i8)], prop_oneof![1 => Just(0u16), 8 => 1u16..1000], e).prop_map(|(a, b, c)| W(a, b, c)).boxed()
}
#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    Push(W, usize),
    Normalize,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct MajCase {
    g: Game,
    w: Vec<W>,
    ops: Vec<Op>,
}
fn maj_case() -> BoxedStrategy<MajCase> {
    maj_sized(2..=8, 1..=8)
}
fn maj_sized(rows: std::ops::RangeInclusive<usize>, members: std::ops::RangeInclusive<usize>) -> BoxedStrategy<MajCase> {
    game(rows, members, false)
        .prop_flat_map(|g| {
            let n = g.h.len();
            let op = prop_oneof![3 => (weight(), 0..n).prop_map(|(w, k)| Op::Push(w, k)), 1 => Just(Op::Normalize)];
            (Just(g), prop::collection::vec(weight(), n), prop::collection::vec(op, 0..6))
        })
        .prop_map(|(g, w, ops)| MajCase { g, w, ops })
        .boxed()
}
fn compare_majority(f: &WeightedMajority<Table>, weights: &[f64], members: &[Table], s: &Sample, exact: bool) -> Res {
    ensure!(f.weights.len() == weights.len() && f.hypotheses.len() == members.len(), "{} weights and {} members, expected {}", f.weights.len(), f.hypotheses.len(), weights.len());
    for (k, (a, b)) in f.weights.iter().zip(weights).enumerate() {
        let ok = if exact { a == b } else { (a - b).abs() <= 1e-12 * b.abs() + 1e-300 };
        ensure!(ok, "weight {k} is {a}, expected {b}");
        ensure!(f.hypotheses[k] == members[k], "member {k} is hypothesis {}, expected {}", f.hypotheses[k].id, members[k].id);
    }
    let m = s.shape().0;
    let call = f.confidence_all(s);
    let pall = Classifier::predict_all(f, s);
    let rall = Regressor::predict_all(f, s);
    ensure!(call.len() == m && pall.len() == m && rall.len() == m, "batch output lengths {} {} {} for {m} rows", call.len(), pall.len(), rall.len());
    for i in 0..m {
        let terms: Vec<f64> = f.weights.iter().zip(members).map(|(w, h)| w * h.conf[i]).collect();
        let want: f64 = terms.iter().sum();
        let scale: f64 = terms.iter().map(|t| t.abs()).sum();
        let c = f.confidence(s, i);
        let r = Regressor::predict(f, s, i);
        ensure!((c - want).abs() <= 1e-12 * scale + 1e-300, "row {i}: confidence {c}, the vote is {want}");
        ensure!((r - want).abs() <= 1e-12 * scale + 1e-300, "row {i}: regression value {r}, the combination is {want}");
        let p = Classifier::predict(f, s, i);
        ensure!(p == if c >= 0.0 { 1 } else { -1 }, "row {i}: prediction {p} at confidence {c}");
        if want.abs() > 1e-11 * scale + 1e-299 {
            ensure!(p as f64 == want.signum(), "row {i}: prediction {p}, the vote is {want}");
        }
        ensure!(call[i] == c && pall[i] == p && rall[i] == r, "row {i}: the batch output differs from the row output");
    }
    Ok(())
}
fn check_majority(c: &MajCase, o: &mut Obs) -> Res {
    let s = c.g.sample();
    let t = c.g.tables();
    let w: Vec<f64> = c.w.iter().map(|w| w.v()).collect();
    let pos: Vec<usize> = (0..w.len()).filter(|&k| w[k] > 0.0).collect();
    if pos.is_empty() {
        o.label("no positive weight");
        return Ok(());
    }
    let mut f = must("from_slices", || WeightedMajority::from_slices(&w, &t))?;
    let sum: f64 = pos.iter().map(|&k| w[k]).sum();
    let mut weights: Vec<f64> = pos.iter().map(|&k| w[k] / sum).collect();
    let mut members: Vec<Table> = pos.iter().map(|&k| t[k].clone()).collect();
    compare_majority(&f, &weights, &members, &s, false)?;
    check_simplex(&f.weights)?;
    weights = f.weights.clone();
    for op in &c.ops {
        match op {
            Op::Push(w, k) => {
                f.push(w.v(), t[*k].clone());
                weights.push(w.v());
                members.push(t[*k].clone());
                compare_majority(&f, &weights, &members, &s, true)?;
            }
            Op::Normalize => {
                must("normalize", || f.normalize())?;
                let z: f64 = weights.iter().map(|x| x.abs()).sum();
                weights.iter_mut().for_each(|x| *x /= z);
                compare_majority(&f, &weights, &members, &s, false)?;
                weights = f.weights.clone();
            }
        }
    }
    let copy = f.clone();
    let (dw, dh) = f.decompose();
    ensure!(dw == weights && dh == members, "decompose returns {dw:?} / {} members", dh.len());
    compare_majority(&copy, &weights, &members, &s, true)?;
    o.nt(pos.len() >= 2);
    o.label_if(pos.len() < w.len(), "dropped members");
    o.label_if(c.ops.iter().any(|p| matches!(p, Op::Push(..))), "pushed");
    o.label_if(w.iter().any(|x| x.abs() > 1e100 || (*x != 0.0 && x.abs() < 1e-100)), "extreme weights");
    Ok(())
}

// ---------------------------------------------------------------- P13 naive aggregation

/// A hypothesis over rows of any sample whose only feature is a key.
#[derive(Debug, Clone, PartialEq)]
struct Keyed(Vec<f64>);
impl Classifier for Keyed {
    fn confidence(&self, s: &Sample, row: usize) -> f64 {
        self.0[s.at(row).0[0] as usize]
    }
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct AggCase {
    keys: usize,
    h: Vec<Vec<i8>>,
    train: Vec<(usize, bool)>,
    test: Vec<usize>,
    by_slice: bool,
    /// the two labels: a positive one and one that is not
    #[serde(default)]
    labels: Option<(u8, u8)>,
}
fn agg_case() -> BoxedStrategy<AggCase> {
    agg_sized(1..10, prop_oneof![16 => 0usize..6, 2 => 30usize..70, 1 => 100usize..400].boxed(), 1..12)
}
fn agg_sized(keys: std::ops::Range<usize>, members: BoxedStrategy<usize>, rows: std::ops::Range<usize>) -> BoxedStrategy<AggCase> {
    (keys, members)
        .prop_flat_map(move |(keys, n)| {
            // few distinct columns, so that patterns collide
            let h = prop::collection::vec(prop::collection::vec(-2i8..=2, keys), n);
            (Just(keys), h, prop::collection::vec((0..keys, any::<bool>()), rows.clone()), prop::collection::vec(0..keys, rows.clone()), any::<bool>(), prop::option::weighted(0.2, (1u8..9, 0u8..9)), prop::option::weighted(0.3, prop::collection::vec(any::<u16>(), 1..4)))
        })
        .prop_map(|(keys, mut h, train, test, by_slice, labels, telling)| {
            // only these members tell rows apart
            if let Some(t) = telling {
                let n = h.len().max(1);
                let at: Vec<usize> = t.iter().map(|k| *k as usize % n).collect();
                for (k, r) in h.iter_mut().enumerate() {
                    if !at.contains(&k) {
                        let v = r[0];
                        r.iter_mut().for_each(|x| *x = v);
                    }
                }
            }
            AggCase { keys, h, train, test, by_slice, labels }
        })
        .boxed()
}
fn check_agg(c: &AggCase, o: &mut Obs) -> Res {
    let hs: Vec<Keyed> = c.h.iter().map(|r| Keyed(r.iter().map(|&v| v as f64 / 2.0).collect())).collect();
    let mk = |keys: Vec<f64>, y: Vec<f64>| dense_sample(&[keys], &default_names(1), &y);
    let train = mk(c.train.iter().map(|t| t.0 as f64).collect(), c.train.iter().map(|t| if t.1 { c.labels.map_or(1.0, |l| l.0 as f64) } else { c.labels.map_or(-1.0, |l| -(l.1 as f64)) }).collect());
    let test = mk(c.test.iter().map(|&k| k as f64).collect(), vec![-1.0; c.test.len()]);
    let f = must("building the aggregation", || if c.by_slice { NaiveAggregation::from_slice(&hs, &train) } else { NaiveAggregation::new(hs.clone(), &train) })?;
    let pat = |k: usize| -> Vec<bool> { hs.iter().map(|h| h.0[k] >= 0.0).collect() };
    let (mut np, mut nn) = (0, 0);
    for (s, keys) in [(&train, c.train.iter().map(|t| t.0).collect::<Vec<_>>()), (&test, c.test.clone())] {
        let conf = f.confidence_all(s);
        let pred = f.predict_all(s);
        for (i, &k) in keys.iter().enumerate() {
            let want = if c.train.iter().any(|t| t.1 && pat(t.0) == pat(k)) { 1.0 } else { -1.0 };
            if want > 0.0 {
                np += 1
            } else {
                nn += 1
            }
            ensure!(conf[i] == want && pred[i] as f64 == want, "row {i} (key {k}): confidence {}, expected {want}", conf[i]);
            ensure!(f.confidence(s, i) == want && f.predict(s, i) as f64 == want, "row {i}: single-row output differs from {want}");
        }
    }
    o.nt(np > 0 && nn > 0 && !hs.is_empty());
    o.label_if(hs.is_empty(), "no hypotheses");
    o.label_if(hs.len() > 29, "many hypotheses");
    Ok(())
}

// ---------------------------------------------------------------- P15 objectives

#[derive(Debug, Clone, Serialize, Deserialize)]
struct ObjCase {
    g: Game,
    /// nu = 1 + a/1000 * (m - 1)
    a: u16,
    w: Option<Vec<u8>>,
}
fn obj_case() -> BoxedStrategy<ObjCase> {
    obj_sized(2..=20)
}
fn obj_sized(rows: std::ops::RangeInclusive<usize>) -> BoxedStrategy<ObjCase> {
    game(rows, 1..=4, false)
        .prop_flat_map(|g| {
            let n = g.h.len();
            let a = prop_oneof![1 => Just(0u16), 1 => Just(1000u16), 4 => 0u16..=1000];
            (Just(g), a, prop::option::of(prop::collection::vec(1u8..20, n)))
        })
        .prop_map(|(g, a, w)| ObjCase { g, a, w })
        .boxed()
}
fn check_obj(c: &ObjCase, o: &mut Obs) -> Res {
    let s = c.g.sample();
    let t = c.g.tables();
    let m = c.g.m();
    let y = c.g.labels();
    let nu = 1.0 + c.a as f64 / 1000.0 * (m - 1) as f64;
    let nu = nu.min(m as f64);
    let w: Vec<f64> = match &c.w {
        Some(w) => w.iter().map(|&x| x as f64).collect(),
        None => (0..t.len()).map(|k| (k == 0) as u8 as f64).collect(),
    };
    let f = WeightedMajority::from_slices(&w, &t);
    let z: f64 = w.iter().sum();
    let margins: Vec<f64> = (0..m).map(|i| y[i] * (0..t.len()).map(|k| w[k] / z * t[k].conf[i]).sum::<f64>()).collect();
    let soft = must("soft margin", || SoftMarginObjective::new(nu).eval(&s, &f))?;
    let want = capped_min(&margins, nu);
    ensure!((soft - want).abs() <= 1e-9, "soft margin at nu={nu}: {soft}, definition {want}, margins {margins:?}");
    // any other feasible distribution gives at least as much
    let hard = must("hard margin", || HardMarginObjective::new().eval(&s, &f))?;
    let min = margins.iter().cloned().fold(f64::INFINITY, f64::min);
    ensure!((hard - min).abs() <= 1e-9, "hard margin {hard}, smallest margin {min}");
    // single member given directly
    let one = must("soft margin", || SoftMarginObjective::new(nu).eval(&s, &t[0]))?;
    let want1 = capped_min(&(0..m).map(|i| y[i] * t[0].conf[i]).collect::<Vec<_>>(), nu);
    ensure!((one - want1).abs() <= 1e-9, "soft margin of one hypothesis {one}, definition {want1}");
    if c.g.den == 1 {
        let e = must("exponential loss", || ExponentialLoss::new().eval(&s, &t[0]))?;
        let want = (0..m).map(|i| (-y[i] * t[0].conf[i]).exp()).sum::<f64>() / m as f64;
        ensure!((e - want).abs() <= 1e-9, "exponential loss {e}, definition {want}");
        o.label("exponential loss");
    }
    for bad in [0.0, -1.0, 0.999, m as f64 + 0.001, m as f64 * 2.0, f64::NAN, f64::INFINITY] {
        ensure!(catch(|| SoftMarginObjective::new(bad).eval(&s, &f)).is_err(), "nu={bad} with {m} rows is accepted");
    }
    o.nt(margins.iter().any(|x| (x - margins[0]).abs() > 1e-9));
    o.label_if(nu.fract() != 0.0, "fractional nu");
    Ok(())
}

// ---------------------------------------------------------------- P29 losses

/// loss name: 0 = L1, 1 = L2
fn gbmloss(k: u8) -> GBMLoss {
    if k == 0 {
        GBMLoss::L1
    } else {
        GBMLoss::L2
    }
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct LossCase {
    loss: u8,
    den: i32,
    p: Vec<i32>,
    y: Vec<i32>,
    r: Vec<i32>,
    /// the prediction of point i is scaled by 10^-small[i]
    #[serde(default)]
    small: Vec<u8>,
    /// the residuals are scaled by 10^-rs
    #[serde(default)]
    rs: u8,
}
fn loss_sized(rows: std::ops::Range<usize>) -> BoxedStrategy<LossCase> {
    (rows, 0u8..2, prop_oneof![3 => Just(1i32), 2 => Just(7i32), 1 => Just(1000i32)], 0u8..8)
        .prop_flat_map(|(n, loss, den, e)| {
            let v = || prop::collection::vec(prop_oneof![1 => Just(0i32), 3 => -5i32..=5, 2 => -20000i32..20000], n);
            let small = match e {
                0 => prop::collection::vec(0u8..=6, n).boxed(),
                1 | 2 => (1u8..=6).prop_map(move |k| vec![k; n]).boxed(),
                _ => Just(vec![]).boxed(),
            };
            (Just(loss), Just(den), v(), v(), v(), small, prop_oneof![5 => Just(0u8), 1 => 1u8..=6])
        })
        .prop_map(|(loss, den, p, y, r, small, rs)| LossCase { loss, den, p, y, r, small, rs })
        .boxed()
}
fn loss_case() -> BoxedStrategy<LossCase> {
    loss_sized(1..12)
}
fn point(k: u8, p: f64, y: f64) -> f64 {
    if k == 0 {
        (p - y).abs()
    } else {
        (p - y) * (p - y)
    }
}
fn total(k: u8, c: f64, r: &[f64], p: &[f64]) -> f64 {
    r.iter().zip(p).map(|(r, p)| point(k, c * p, *r)).sum()
}
/// The coefficient's loss must be the least; returns (value at c, least value)
fn best_loss(k: u8, r: &[f64], p: &[f64]) -> f64 {
    if k == 0 {
        let mut best = total(0, 0.0, r, p);
        for (r0, p0) in r.iter().zip(p) {
            if *p0 != 0.0 {
                best = best.min(total(0, r0 / p0, r, p));
            }
        }
        best
    } else {
        let a: f64 = r.iter().zip(p).map(|(r, p)| r * p).sum();
        let b: f64 = p.iter().map(|p| p * p).sum();
        total(1, if b > 0.0 { a / b } else { 0.0 }, r, p)
    }
}
fn check_loss(c: &LossCase, o: &mut Obs) -> Res {
    let d = c.den as f64;
    let p: Vec<f64> = c.p.iter().enumerate().map(|(i, &x)| x as f64 / d / 10f64.powi(c.small.get(i).copied().unwrap_or(0) as i32)).collect();
    let y: Vec<f64> = c.y.iter().map(|&x| x as f64 / d).collect();
    let r: Vec<f64> = c.r.iter().map(|&x| x as f64 / d / 10f64.powi(c.rs as i32)).collect();
    let l = gbmloss(c.loss);
    let n = p.len();
    let sum: f64 = (0..n).map(|i| point(c.loss, p[i], y[i])).sum();
    let e = must("eval", || l.eval(&p, &y))?;
    ensure!(close(e, sum / n as f64, 1e-12), "loss {e}, mean of the point losses {}", sum / n as f64);
    for i in 0..n {
        let e = l.eval_at_point(p[i], y[i]);
        ensure!(close(e, point(c.loss, p[i], y[i]), 1e-12), "point loss {e} at ({}, {})", p[i], y[i]);
    }
    let g = must("gradient", || l.gradient(&p, &y))?;
    let h = must("hessian", || l.hessian(&p, &y))?;
    ensure!(g.len() == n && h.len() == n, "gradient {} / hessian {} entries for {n} points", g.len(), h.len());
    // one common positive factor between the gradient and the derivative of the loss
    let mut factor: Option<f64> = None;
    let mut slack = 0.0;
    for i in 0..n {
        let diff = p[i] - y[i];
        if diff == 0.0 {
            ensure!(g[i].abs() <= if c.loss == 0 { 1.0 } else { 0.0 }, "gradient {} at a perfect prediction", g[i]);
            continue;
        }
        let want = if c.loss == 0 { diff.signum() } else { 2.0 * diff };
        let f = g[i] / want;
        ensure!(f > 0.0, "gradient {} at prediction {} target {}: not the direction of increasing loss", g[i], p[i], y[i]);
        match factor {
            None => {
                factor = Some(f);
                slack = 1e-14 * (p[i].abs() + y[i].abs()) / diff.abs();
            }
            // a difference is only as exact as its operands
            Some(f0) => ensure!((f - f0).abs() <= f0 * (1e-9 + 1e-14 * (p[i].abs() + y[i].abs()) / diff.abs()) + f0 * slack, "gradient entries are not a common multiple of the derivative: {f} vs {f0}"),
        }
    }
    let step = 1.0 / 64.0;
    let p2: Vec<f64> = p.iter().map(|x| x + step).collect();
    let g2 = l.gradient(&p2, &y);
    for i in 0..n {
        if c.loss == 0 && (p[i] - y[i] <= 0.0) && (p2[i] - y[i] >= 0.0) {
            continue; // the kink
        }
        let fd = (g2[i] - g[i]) / step;
        ensure!((fd - h[i]).abs() <= 1e-6 * (1.0 + g[i].abs()), "hessian {} but the gradient changes by {fd} per unit", h[i]);
    }
    let b = must("best_coefficient", || l.best_coefficient(&r, &p))?;
    ensure!(b.is_finite(), "best coefficient {b}");
    let (got, best) = (total(c.loss, b, &r, &p), best_loss(c.loss, &r, &p));
    let zero = total(c.loss, 0.0, &r, &p);
    ensure!(got <= best + 1e-9 * zero + 1e-300, "coefficient {b} gives loss {got}, another gives {best}");
    o.nt(n >= 2 && p.iter().any(|x| *x != 0.0) && sum > 0.0);
    o.label(format!("{:?}", c.loss));
    o.label_if(p.iter().all(|x| *x == 0.0), "all predictions zero");
    o.label_if(!c.small.is_empty(), "small outputs");
    o.label_if(n > 100, "over 100 points");
    Ok(())
}

// ---------------------------------------------------------------- P28 gradient boosting

/// A loss whose coefficients are scripted; records what it is asked.
struct ScriptLoss {
    coef: Vec<f64>,
    calls: RefCell<Vec<(Vec<f64>, Vec<f64>)>>,
}
impl LossFunction for &ScriptLoss {
    fn name(&self) -> &str {
        "script"
    }
    fn eval_at_point(&self, p: f64, y: f64) -> f64 {
        (p - y).powi(2)
    }
    fn gradient(&self, p: &[f64], t: &[f64]) -> Vec<f64> {
        p.iter().zip(t).map(|(p, t)| p - t).collect()
    }
    fn hessian(&self, p: &[f64], _t: &[f64]) -> Vec<f64> {
        vec![1.0; p.len()]
    }
    fn best_coefficient(&self, r: &[f64], p: &[f64]) -> f64 {
        let k = self.calls.borrow().len();
        self.calls.borrow_mut().push((r.to_vec(), p.to_vec()));
        self.coef.get(k).copied().unwrap_or(0.0)
    }
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct GbmCase {
    y: Vec<i16>,
    den: u16,
    h: Vec<Vec<i16>>,
    script: Vec<usize>,
    loss: u8, // 0 L1, 1 L2, 2 scripted
    coef: Vec<i16>,
    rounds: usize,
}
fn gbm_case() -> BoxedStrategy<GbmCase> {
    gbm_sized(1..10, 1..6)
}
fn gbm_sized(rows: std::ops::Range<usize>, n: std::ops::Range<usize>) -> BoxedStrategy<GbmCase> {
    (rows, n)
        .prop_flat_map(|(m, n)| {
            let val = || prop_oneof![1 => Just(0i16), 4 => -20i16..=20];
            (
                prop::collection::vec(val(), m),
                prop_oneof![Just(1u16), Just(7u16)],
                prop::collection::vec(prop_oneof![1 => Just(vec![0i16; m]), 12 => prop::collection::vec(val(), m)], n),
                prop::collection::vec(0..n, 1..12),
                0u8..3,
                prop::collection::vec(prop_oneof![1 => Just(0i16), 8 => -30i16..30], 0..12),
                prop_oneof![6 => 1usize..12, 1 => Just(1000usize)],
            )
        })
        .prop_map(|(y, den, h, script, loss, coef, rounds)| GbmCase { y, den, h, script, loss, coef, rounds })
        .boxed()
}
fn check_gbm(c: &GbmCase, o: &mut Obs) -> Res {
    let d = c.den as f64;
    let y: Vec<f64> = c.y.iter().map(|&v| v as f64 / d).collect();
    let s = row_sample(&y);
    let m = y.len();
    let tables: Vec<Table> = c.h.iter().enumerate().map(|(id, r)| Table { id, conf: r.iter().map(|&v| v as f64 / d).collect() }).collect();
    let wl = ScriptLearner::new(tables.clone(), c.script.clone());
    let sl = ScriptLoss { coef: c.coef.iter().map(|&v| v as f64 / 10.0).collect(), calls: RefCell::new(vec![]) };
    let (out, done) = if c.loss == 2 {
        let mut b = GBM::init_with_loss(&s, &sl);
        let r = must("boosting", || drive(&mut b, &wl, c.rounds))?;
        (r.0, r.2)
    } else {
        let mut b = GBM::init_with_loss(&s, gbmloss(c.loss));
        let r = must("boosting", || drive(&mut b, &wl, c.rounds))?;
        (r.0, r.2)
    };
    let seen = wl.dists.borrow().clone(); // the predictions handed to the base learner
    let picks = wl.picks.borrow().clone();
    let calls = picks.len();
    let t = out.weights.len();
    ensure!(out.hypotheses.len() == t, "{t} coefficients, {} members", out.hypotheses.len());
    ensure!(t <= calls && calls <= t + 1, "{calls} hypotheses received, {t} kept");
    ensure!(done || calls == c.rounds, "{calls} rounds played of {}", c.rounds);
    ensure!(!done || t < calls || calls == 100, "stopped after {calls} rounds without reason");
    let mut f = vec![0.0; m];
    let mut scale = 1.0 + y.iter().map(|v| v.abs()).sum::<f64>();
    for k in 0..calls {
        for i in 0..m {
            ensure!((seen[k][i] - f[i]).abs() <= 1e-9 * scale, "round {}: prediction of row {i} handed over as {}, the model gives {}", k + 1, seen[k][i], f[i]);
        }
        let h = &tables[picks[k]].conf;
        let coef = if k < t {
            ensure!(out.hypotheses[k] == tables[picks[k]], "member {k} is hypothesis {}, received {}", out.hypotheses[k].id, picks[k]);
            out.weights[k]
        } else {
            0.0
        };
        let res: Vec<f64> = (0..m).map(|i| y[i] - f[i]).collect();
        if c.loss == 2 {
            let q = sl.calls.borrow();
            let (qr, qp) = &q[k];
            for i in 0..m {
                ensure!((qr[i] - res[i]).abs() <= 1e-9 * scale, "round {}: residual of row {i} given as {}, it is {}", k + 1, qr[i], res[i]);
                ensure!(qp[i] == h[i], "round {}: prediction of row {i} given as {}, it is {}", k + 1, qp[i], h[i]);
            }
            let want = sl.coef.get(k).copied().unwrap_or(0.0);
            ensure!(coef == want, "round {}: coefficient {coef}, the loss asked for {want}", k + 1);
        } else {
            let (now, best, before) = (total(c.loss, coef, &res, h), best_loss(c.loss, &res, h), total(c.loss, 0.0, &res, h));
            let tol = 1e-7 * scale * if c.loss == 1 { scale } else { 1.0 };
            ensure!(now <= before + tol, "round {}: training loss rises from {before} to {now}", k + 1);
            ensure!(now <= best + tol, "round {}: coefficient {coef} gives loss {now}, the best gives {best}", k + 1);
        }
        for i in 0..m {
            f[i] += coef * h[i];
        }
        scale = scale.max(1.0 + f.iter().map(|v| v.abs()).sum::<f64>());
    }
    let out_all = must("predict_all", || Regressor::predict_all(&out, &s))?;
    for i in 0..m {
        ensure!((out_all[i] - f[i]).abs() <= 1e-9 * scale, "row {i}: the result predicts {}, the additive model {}", out_all[i], f[i]);
        ensure!(Regressor::predict(&out, &s, i) == out_all[i], "row {i}: single prediction differs from the batch");
    }
    o.nt(t >= 2 && m >= 2);
    o.label(format!("loss {}", c.loss));
    o.label_if(out.weights.iter().any(|w| *w < 0.0), "negative coefficient");
    o.label_if(done && t < calls, "stopped at zero coefficient");
    o.label_if(calls == 100, "ran all rounds");
    Ok(())
}

// real regression trees as base learner: the training loss does not rise
#[derive(Debug, Clone, Serialize, Deserialize)]
struct GbmTree {
    cols: Vec<trees::Col>,
    y: Vec<i16>,
    loss: u8,
    depth: u8,
    rounds: usize,
}
fn gbm_tree() -> BoxedStrategy<GbmTree> {
    gbm_tree_sized(2..14)
}
fn gbm_tree_sized(rows: std::ops::Range<usize>) -> BoxedStrategy<GbmTree> {
    rows
        .prop_flat_map(|m| (trees::cols(m, 3, false, false), prop::collection::vec(-50i16..50, m), 0u8..2, 1u8..4, 1usize..12))
        .prop_map(|(cols, y, loss, depth, rounds)| GbmTree { cols, y, loss, depth, rounds })
        .boxed()
}
/// Passes everything on to another base learner and keeps what it was given.
struct Watch<W> {
    inner: W,
    seen: RefCell<Vec<Vec<f64>>>,
}
impl<W: WeakLearner> WeakLearner for Watch<W> {
    type Hypothesis = W::Hypothesis;
    fn produce(&self, s: &Sample, d: &[f64]) -> Self::Hypothesis {
        self.seen.borrow_mut().push(d.to_vec());
        self.inner.produce(s, d)
    }
}
fn check_gbm_tree(c: &GbmTree, o: &mut Obs) -> Res {
    let y: Vec<f64> = c.y.iter().map(|&v| v as f64 / 5.0).collect();
    let (s, _, _, _) = trees::build_cols(&c.cols, &y, false);
    let l = gbmloss(c.loss);
    // one run only: ties between splits may be broken differently in another run
    let wl = Watch { inner: RegressionTreeBuilder::new(&s).max_depth(c.depth as usize).loss(l).build(), seen: RefCell::new(vec![]) };
    let mut b = GBM::init_with_loss(&s, l);
    let (f, _, _) = must("boosting", || drive(&mut b, &wl, c.rounds))?;
    let mut preds = wl.seen.borrow().clone();
    preds.push(Regressor::predict_all(&f, &s));
    let start = l.eval(&vec![0.0; y.len()], &y);
    let mut last = start;
    for (r, p) in preds.iter().enumerate() {
        let now = l.eval(p, &y);
        ensure!(now <= last + 1e-9 * (1.0 + start), "training loss rises from {last} to {now} in round {r}");
        last = now;
    }
    o.nt(last < start);
    o.label(format!("loss {}", c.loss));
    Ok(())
}

// ---------------------------------------------------------------- P09 naive Bayes

#[derive(Debug, Clone, Serialize, Deserialize)]
struct NbCase {
    cols: Vec<Vec<i16>>,
    scale: i8,
    far: u8,
    y: Vec<i8>,
    w: Vec<u8>,
    sparse: bool,
    /// the weights of the first row's label are multiplied by ten to this power
    #[serde(default)]
    rare: i8,
}
fn nb_case() -> BoxedStrategy<NbCase> {
    nb_sized(3..14)
}
fn nb_sized(rows: std::ops::Range<usize>) -> BoxedStrategy<NbCase> {
    (rows, prop_oneof![4 => 1usize..5, 1 => 5usize..30], 2i8..5)
        .prop_flat_map(|(m, n, k)| {
            let cell = prop_oneof![2 => Just(0i16), 4 => -9i16..=9, 1 => -300i16..300];
            (
                prop::collection::vec(prop::collection::vec(cell, m), n),
                prop_oneof![6 => Just(0i8), 2 => -3i8..4, 1 => -9i8..=9, 1 => -40i8..=40],
                prop_oneof![6 => Just(0u8), 2 => 1u8..100, 1 => 200u8..=255],
                prop_oneof![3 => prop::collection::vec(prop_oneof![Just(-1i8), Just(1i8)], m).boxed(), 1 => prop::collection::vec(0i8..k, m).boxed()],
                prop::collection::vec(prop_oneof![1 => Just(0u8), 5 => 1u8..30], m),
                any::<bool>(),
                prop_oneof![2 => Just(0i8), 1 => -9i8..=0],
            )
        })
        .prop_map(|(cols, scale, far, y, w, sparse, rare)| NbCase { cols, scale, far, y, w, sparse, rare })
        .boxed()
}
fn check_nb(c: &NbCase, o: &mut Obs) -> Res {
    let sc = 10f64.powi(c.scale as i32);
    let mut cols: Vec<Vec<f64>> = c.cols.iter().map(|v| v.iter().map(|&x| x as f64 * sc).collect()).collect();
    let y: Vec<f64> = c.y.iter().map(|&v| v as f64).collect();
    let m = y.len();
    let mut w: Vec<f64> = c.w.iter().map(|&v| v as f64).collect();
    for i in 0..m {
        if c.y[i] == c.y[0] {
            w[i] *= 10f64.powi(c.rare as i32);
        }
    }
    if c.far > 0 {
        // an unweighted row far away from all the others
        w[m - 1] = 0.0;
        let by = if c.far < 200 { c.far as f64 * 100.0 } else { 10f64.powi((c.far as i32 - 200) * 2) };
        cols.iter_mut().enumerate().for_each(|(j, v)| v[m - 1] += match c.far {
            0..200 => by * sc,
            // not equally far in all columns
            _ => by * sc / [1.0, -1e7, 1e3][(j + c.far as usize) % 3],
        });
    }
    let z: f64 = w.iter().sum();
    if z == 0.0 {
        return Ok(());
    }
    let d: Vec<f64> = w.iter().map(|x| x / z).collect();
    let s = if c.sparse {
        if cols.iter().any(|v| v.iter().all(|x| *x == 0.0)) {
            o.label("empty sparse column");
            return Ok(());
        }
        sparse_sample(&cols, &y)
    } else {
        dense_sample(&cols, &default_names(cols.len()), &y)
    };
    // the model by its definition
    let mut labels = y.clone();
    labels.sort_by(|a, b| a.partial_cmp(b).unwrap());
    labels.dedup();
    let mut model: Vec<(f64, f64, Vec<(f64, f64)>)> = vec![];
    for &l in &labels {
        let rows: Vec<usize> = (0..m).filter(|&i| y[i] == l && d[i] > 0.0).collect();
        let p: f64 = rows.iter().map(|&i| d[i]).sum();
        if p == 0.0 {
            o.label("label without weight");
            continue;
        }
        let mut mv = vec![];
        for col in &cols {
            let mean = rows.iter().map(|&i| d[i] * col[i]).sum::<f64>() / p;
            let var = rows.iter().map(|&i| d[i] * (col[i] - mean).powi(2)).sum::<f64>() / p;
            let mag = rows.iter().map(|&i| col[i].abs()).fold(sc, f64::max);
            if var < 1e-4 * mag * mag {
                o.label("degenerate variance");
                return Ok(());
            }
            mv.push((mean, var));
        }
        model.push((l, p, mv));
    }
    let h = must("training naive Bayes", || {
        let learner = GaussianNB::init();
        if m % 3 == 0 {
            // an earlier request must not matter
            let _ = learner.produce(&s, &vec![1.0 / m as f64; m]);
        }
        learner.produce(&s, &d)
    })?;
    // the rows backwards, in both representations, twice: a sample the classifier has not seen
    if m % 2 == 0 {
        let back: Vec<Vec<f64>> = cols.iter().map(|v| v.iter().rev().chain(v.iter().rev()).copied().collect()).collect();
        let yb = vec![y[0]; 2 * m];
        let qs = [Some(dense_sample(&back, &default_names(cols.len()), &yb)), c.sparse.then(|| sparse_sample(&back, &yb))];
        let own = h.confidence_all(&s);
        for q in qs.iter().flatten() {
            let conf = must("confidence_all on another sample", || h.confidence_all(q))?;
            ensure!(conf.len() == 2 * m, "{} confidences for {} rows", conf.len(), 2 * m);
            for i in 0..2 * m {
                ensure!(conf[i] == own[m - 1 - i % m], "the same row in another sample gets {} instead of {}", conf[i], own[m - 1 - i % m]);
            }
        }
        o.label("another sample");
    }
    let conf = must("confidence_all", || h.confidence_all(&s))?;
    let (mut judged, mut classes) = (0, vec![]);
    for i in 0..m {
        let mut post: Vec<(f64, f64)> = model
            .iter()
            .map(|(l, p, mv)| (p.ln() + mv.iter().enumerate().map(|(j, (mu, v))| -0.5 * ((cols[j][i] - mu).powi(2) / v + (2.0 * std::f64::consts::PI * v).ln())).sum::<f64>(), *l))
            .collect();
        let listed = h.probabilities(&s, i);
        if listed.iter().all(|(_, p)| p.is_finite() && *p > 1e-200) {
            // in the proportions of the posterior, class by class
            let at = |l: f64| listed.iter().find(|(x, _)| *x == l).map(|(_, p)| p.ln());
            let Some(base) = at(post[0].1) else { return Err(format!("row {i}: no probability listed for label {}", post[0].1)) };
            for (lp, l) in &post {
                let Some(p) = at(*l) else { return Err(format!("row {i}: no probability listed for label {l}")) };
                let (got, want) = (p - base, lp - post[0].0);
                ensure!((got - want).abs() <= 1e-6 * (1.0 + want.abs() + lp.abs()), "row {i}: probabilities {listed:?}, log-posteriors {post:?}");
            }
            o.label_if(post.len() > 1, "probabilities");
        }
        post.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
        if post.len() > 1 && post[0].0 - post[1].0 <= 1e-6 * (1.0 + post[0].0.abs()) {
            continue;
        }
        judged += 1;
        classes.push(post[0].1);
        ensure!(conf[i] == post[0].1, "row {i}: label {} predicted, log-posteriors {post:?}", conf[i]);
        ensure!(h.predict(&s, i) == if conf[i] >= 0.0 { 1 } else { -1 }, "row {i}: prediction {} at confidence {}", h.predict(&s, i), conf[i]);
    }
    classes.dedup();
    o.nt(judged > 1 && classes.len() > 1);
    o.label_if(c.sparse, "sparse");
    o.label_if(c.far > 0, "outlier row");
    o.label_if(c.far > 220, "outlier at astronomical distance");
    o.label_if(c.rare < 0, "rare label");
    o.label_if(labels.len() > 2, "many labels");
    Ok(())
}

// ---------------------------------------------------------------- P14 serialisation

#[derive(Debug, Clone, Serialize, Deserialize)]
struct SerCase {
    t: trees::TreeCase,
    kind: u8, // 0 tree, 1 regression tree, 2 bayes, 3..5 majority of each
    w: Vec<W>,
    rounds: usize,
    /// unusual characters in the column names
    #[serde(default)]
    odd: Vec<u8>,
}
/// Names with characters that mean something in JSON or Graphviz.
const ODD: [&str; 8] = ["\"sepal length\"", "a\\", "in \"cm\"", "x -- y", "b];", "\\\"", "größe {1}", "c < 2 ?"];
fn ser_case() -> BoxedStrategy<SerCase> {
    ser_sized(2..=14)
}
fn ser_sized(rows: std::ops::RangeInclusive<usize>) -> BoxedStrategy<SerCase> {
    (trees::tree_case(rows, false), 0u8..6, prop::collection::vec(weight(), 4), 1usize..6, prop_oneof![3 => Just(vec![]), 1 => prop::collection::vec(0u8..8, 1..4)])
        .prop_map(|(t, kind, w, rounds, odd)| SerCase { t, kind, w, rounds, odd })
        .boxed()
}
fn round_trip<H: Serialize + DeserializeOwned + PartialEq + std::fmt::Debug>(h: &H) -> Result<H, String> {
    let txt = must("serialising", || serde_json::to_string(h))?.map_err(|e| format!("serialising: {e}"))?;
    let back: H = must("reading back", || serde_json::from_str(&txt))?.map_err(|e| format!("reading back: {e}"))?;
    let txt2 = serde_json::to_string(&back).map_err(|e| format!("serialising again: {e}"))?;
    ensure!(txt == txt2, "the second serialisation differs:\n{txt}\n{txt2}");
    ensure!(*h == back, "the model read back differs: {h:?} / {back:?}");
    // and through an in-memory value and pretty text
    let v = serde_json::to_value(h).map_err(|e| format!("{e}"))?;
    let b2: H = serde_json::from_value(v).map_err(|e| format!("{e}"))?;
    ensure!(*h == b2, "the model read back from a value differs");
    Ok(back)
}
fn same_outputs<H: Classifier>(a: &H, b: &H, s: &Sample) -> Res {
    for i in 0..s.shape().0 {
        let (x, y) = (a.confidence(s, i), b.confidence(s, i));
        ensure!(x == y || (x.is_nan() && y.is_nan()), "row {i}: confidence {x} before, {y} after the round trip");
        ensure!(a.predict(s, i) == b.predict(s, i), "row {i}: prediction changes");
    }
    Ok(())
}
fn same_values<H: Regressor>(a: &H, b: &H, s: &Sample) -> Res {
    for i in 0..s.shape().0 {
        let (x, y) = (a.predict(s, i), b.predict(s, i));
        ensure!(x == y, "row {i}: prediction {x} before, {y} after the round trip");
    }
    Ok(())
}
fn majority_trip<H: Clone + Serialize + DeserializeOwned + PartialEq + std::fmt::Debug>(f: &WeightedMajority<H>) -> Result<WeightedMajority<H>, String> {
    let txt = serde_json::to_string(f).map_err(|e| format!("serialising: {e}"))?;
    let back: WeightedMajority<H> = must("reading back", || serde_json::from_str(&txt))?.map_err(|e| format!("reading back: {e}"))?;
    ensure!(back.weights == f.weights, "weights {:?} read back as {:?}", f.weights, back.weights);
    ensure!(back.hypotheses == f.hypotheses, "members differ after the round trip");
    ensure!(serde_json::to_string(&back).ok() == Some(txt), "the second serialisation differs");
    Ok(back)
}
/// The Graphviz export read back: node -> (label, is box), edges with their labels.
type Dot = (std::collections::BTreeMap<String, (String, bool)>, Vec<(String, String, String)>);
/// The rest of a quoted string (its escapes undone) and what follows it.
fn quoted(txt: &str) -> Option<(String, &str)> {
    let mut out = String::new();
    let mut it = txt.char_indices();
    while let Some((i, ch)) = it.next() {
        match ch {
            '"' => return Some((out, &txt[i + 1..])),
            '\\' => match it.next()?.1 {
                e @ ('"' | '\\') => out.push(e),
                e => {
                    out.push('\\');
                    out.push(e)
                }
            },
            _ => out.push(ch),
        }
    }
    None
}
fn read_dot(txt: &str) -> Result<Dot, String> {
    let (open, end) = (txt.find('{').ok_or("no {")?, txt.rfind('}').ok_or("no }")?);
    let mut nodes = std::collections::BTreeMap::new();
    let mut edges = vec![];
    for st in txt[open + 1..end].split(";\n") {
        let st = st.trim();
        if st.is_empty() {
            continue;
        }
        let (head, attrs) = st.split_once(" [ ").ok_or(format!("statement {st:?}"))?;
        let (label, rest) = quoted(attrs.split_once("label = \"").ok_or(format!("no label in {st:?}"))?.1).ok_or(format!("unfinished label in {st:?}"))?;
        if rest.contains('"') || !rest.trim_end().ends_with(']') {
            return Err(format!("malformed statement {st:?}"));
        }
        if let Some((a, b)) = head.split_once(" -- ") {
            edges.push((a.trim().to_string(), b.trim().to_string(), label));
        } else if nodes.insert(head.trim().to_string(), (label, rest.contains("box"))).is_some() {
            return Err(format!("node {head} is defined twice"));
        }
    }
    Ok((nodes, edges))
}
fn same_dot(dot: &Dot, node: &str, t: &trees::T) -> Res {
    let (label, leaf) = dot.0.get(node).ok_or(format!("node {node} is not defined"))?;
    let out: Vec<_> = dot.1.iter().filter(|e| e.0 == node).collect();
    match t {
        trees::T::Leaf(v) => {
            ensure!(*leaf && out.is_empty(), "{node} should be a leaf");
            ensure!(label.parse::<f64>().is_ok_and(|x| (x - v).abs() <= 0.00501 + 1e-9 * v.abs()), "leaf {node} is labelled {label}, its value is {v}");
            Ok(())
        }
        trees::T::Branch { feat, thr, l, r } => {
            ensure!(!*leaf && out.len() == 2, "{node} should have two children");
            let want = format!("{feat} < {thr:.2} ?");
            ensure!(*label == want, "{node} is labelled {label:?}, expected {want:?}");
            for (name, child) in [("Yes", l), ("No", r)] {
                let e = out.iter().find(|e| e.2 == name).ok_or(format!("{node} has no {name} edge"))?;
                same_dot(dot, &e.1, child)?;
            }
            Ok(())
        }
    }
}
fn check_dot(write: &dyn Fn(&std::path::Path) -> std::io::Result<()>, t: Option<trees::T>) -> Res {
    let Some(t) = t else { return Ok(()) };
    let f = Scratch::new("dot", b"old contents");
    must("writing the dot file", || write(&f.0))?.map_err(|e| format!("{e}"))?;
    let txt = std::fs::read_to_string(&f.0).map_err(|e| format!("{e}"))?;
    let dot = read_dot(&txt).map_err(|e| format!("dot file: {e}"))?;
    // the root is the node without a parent
    let roots: Vec<_> = dot.0.keys().filter(|n| !dot.1.iter().any(|e| e.1 == **n)).collect();
    ensure!(roots.len() == 1, "the dot file has {} roots", roots.len());
    ensure!(dot.0.len() == 2 * t.branches() + 1, "{} nodes in the dot file of a tree with {} branches", dot.0.len(), t.branches());
    same_dot(&dot, roots[0], &t).map_err(|e| format!("dot file: {e}"))
}
fn check_ser(c: &SerCase, o: &mut Obs) -> Res {
    let (mut s, _, _, _) = c.t.build(c.t.sparse);
    if !c.odd.is_empty() {
        // the position keeps the names apart
        let names: Vec<String> = (0..s.shape().1).map(|j| format!("{}{}", ODD[c.odd[j % c.odd.len()] as usize % 8], if j == 0 { String::new() } else { j.to_string() })).collect();
        s.replace_names(names);
        o.label("unusual column names");
    }
    let m = s.shape().0;
    let d = trees::dist_of(&c.t.w);
    let uni = vec![1.0 / m as f64; m];
    let tree = |d: &[f64], depth: u8| must("training", || DecisionTreeBuilder::new(&s).max_depth(depth as usize).criterion(trees::criterion(c.t.crit)).build().produce(&s, d));
    let rtree = |p: &[f64], depth: u8| must("training", || RegressionTreeBuilder::new(&s).max_depth(depth as usize).loss(GBMLoss::L2).build().produce(&s, p));
    let wts: Vec<f64> = c.w.iter().map(|w| w.v().abs().clamp(1e-30, 1e30)).collect();
    match c.kind {
        0 => {
            let h = tree(&d, c.t.depth)?;
            same_outputs(&h, &round_trip(&h)?, &s)?;
            let t = trees::parse_tree(&h, "confidence");
            o.nt(t.as_ref().is_none_or(|t| t.depth() > 0));
            check_dot(&|p| h.to_dot_file(p), t)?;
            o.label("decision tree");
        }
        1 => {
            let h = rtree(&d, c.t.depth + 1)?;
            same_values(&h, &round_trip(&h)?, &s)?;
            let t = trees::parse_tree(&h, "prediction");
            o.nt(t.as_ref().is_none_or(|t| t.depth() > 0));
            check_dot(&|p| h.to_dot_file(p), t)?;
            o.label("regression tree");
        }
        2 => {
            let h = must("training", || GaussianNB::init().produce(&s, &uni))?;
            if serde_json::to_string(&h).is_ok_and(|t| t.contains("null")) {
                o.label("undefined variance");
                return Ok(());
            }
            same_outputs(&h, &round_trip(&h)?, &s)?;
            o.nt(true);
            o.label("naive bayes");
        }
        3 => {
            let hs = vec![tree(&d, c.t.depth)?, tree(&uni, 1)?, tree(&d, 2)?, tree(&uni, 3)?];
            let f = WeightedMajority::from_slices(&wts, &hs);
            same_outputs(&f, &majority_trip(&f)?, &s)?;
            o.nt(true);
            o.label("majority of trees");
        }
        4 => {
            let mut b = GBM::init_with_loss(&s, GBMLoss::L2);
            let wl = RegressionTreeBuilder::new(&s).max_depth(2).loss(GBMLoss::L2).build();
            let (f, _, _) = must("boosting", || drive(&mut b, &wl, c.rounds))?;
            same_values(&f, &majority_trip(&f)?, &s)?;
            o.nt(f.weights.len() > 1);
            o.label("gradient boosting model");
        }
        _ => {
            if c.t.y.iter().all(|b| *b == c.t.y[0]) {
                return Ok(());
            }
            let mut b = AdaBoost::init(&s).force_quit_at(c.rounds);
            let wl = DecisionTreeBuilder::new(&s).max_depth(1).criterion(trees::criterion(c.t.crit)).build();
            let f: WeightedMajority<DecisionTreeClassifier> = match catch(|| drive(&mut b, &wl, c.rounds)) {
                Ok((f, _, _)) => f,
                // an uninformative sample leaves no hypothesis of positive edge
                Err(_) => return Ok(()),
            };
            same_outputs(&f, &majority_trip(&f)?, &s)?;
            o.nt(f.weights.len() > 1);
            o.label("AdaBoost model");
        }
    }
    o.label_if(c.t.sparse, "sparse");
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P09",
            rule: "generated samples, labels and weights; every row's predicted label compared with the argmax of an independent log-posterior; non-trivial: both classes predicted by the definition on judged rows.",
            assumptions: &["every label with weight has variance at least 1e-4 of its squared magnitude in every feature", "posteriors closer than 1e-6 (relative, in logarithm) are not judged"],
            subs: vec![sub("posterior", 1500000, 10000000, nb_case, check_nb), sub("large", 12000, 80000, || nb_sized(80..600), check_nb), sub("thousands", 800, 8000, || nb_sized(1000..4000).boxed(), check_nb)],
        },
        Prop {
            id: "P12",
            rule: "generated weights, members and push/normalise histories compared with the definition after every step; non-trivial: at least two members of positive weight.",
            assumptions: &["at least one positive weight"],
            subs: vec![sub("majority", 3000000, 12000000, maj_case, check_majority), sub("large", 20000, 80000, || prop_oneof![maj_sized(100..=300, 1..=12), maj_sized(2..=12, 20..=150)].boxed(), check_majority), sub("thousands", 800, 8000, || prop_oneof![maj_sized(1000..=4000, 1..=4), maj_sized(2..=6, 1000..=2500)].boxed(), check_majority)],
        },
        Prop {
            id: "P13",
            rule: "generated hypothesis sets, training rows and query rows compared with the definition; non-trivial: both outcomes occur and there is a hypothesis.",
            assumptions: &[],
            subs: vec![sub("aggregation", 2000000, 12000000, agg_case, check_agg), sub("large", 20000, 80000, || agg_sized(10..80, (1usize..6).boxed(), 40..300), check_agg), sub("thousands", 400, 4000, || agg_sized(10..200, prop_oneof![1usize..12, 65usize..300].boxed(), 1000..3000).boxed(), check_agg)],
        },
        Prop {
            id: "P14",
            rule: "models trained on generated samples, written to JSON and read back (and trees exported to DOT); outputs compared exactly; non-trivial: the model is not a constant.",
            assumptions: &["model parameters are finite (JSON has no NaN)", "network hypotheses and the bad classifier have no serialised form"],
            subs: vec![sub("roundtrip", 1200000, 6000000, ser_case, check_ser), sub("large", 8000, 40000, || ser_sized(60..=300), check_ser)],
        },
        Prop {
            id: "P15",
            rule: "generated samples, hypotheses and nu; objective values compared with a sorting oracle; non-trivial: not all margins equal.",
            assumptions: &["the exponential loss is judged on hypotheses with values -1 and +1"],
            subs: vec![sub("objectives", 1800000, 10000000, obj_case, check_obj), sub("large", 24000, 160000, || obj_sized(80..=800), check_obj), sub("thousands", 1000, 8000, || obj_sized(1000..=5000).boxed(), check_obj)],
        },
        Prop {
            id: "P28",
            rule: "scripted regressors and coefficients replayed against an additive model, and regression trees on generated samples; non-trivial: at least two members on two rows (scripted), the loss decreased (trees).",
            assumptions: &[],
            subs: vec![sub("script", 2000000, 8000000, gbm_case, check_gbm), sub("trees", 600000, 2400000, gbm_tree, check_gbm_tree), sub("large", 15000, 60000, || gbm_sized(100..400, 1..8), check_gbm), sub("largetrees", 5000, 20000, || gbm_tree_sized(60..300), check_gbm_tree), sub("thousands", 1000, 8000, || gbm_sized(1000..3000, 1..4).boxed(), check_gbm)],
        },
        Prop {
            id: "P29",
            rule: "generated prediction, target and residual vectors; values, gradients, hessians and best coefficients compared with definitions and finite differences; non-trivial: positive loss and a non-zero prediction.",
            assumptions: &[],
            subs: vec![sub("losses", 4000000, 40000000, loss_case, check_loss), sub("large", 40000, 400000, || loss_sized(100..1000), check_loss), sub("thousands", 1500, 9000, || loss_sized(2000..4000).boxed(), check_loss)],
        },
    ]
}
