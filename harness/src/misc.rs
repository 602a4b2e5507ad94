//! P10 (neural network) and P11 (bad base learner).
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use miniboosts::prelude::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

// ---------------------------------------------------------------- P10

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct NetCase {
    /// unit-scale coordinates in thousandths, column major
    cols: Vec<Vec<i32>>,
    /// separating direction (signs and sizes) and offset, thousandths
    dir: Vec<i32>,
    off: i32,
    /// features are multiplied by this
    scale: u16,
    /// 0: softmax over two outputs, 1: one sigmoid output
    head: u8,
    /// hidden layers: (width, 0 sigmoid / 1 relu / 2 identity)
    hidden: Vec<(u8, u8)>,
    /// relative weights of the rows
    w: Vec<u8>,
    epochs: u8,
    iters: u8,
    batch: u8,
    /// queries this many powers of ten away from the training data
    #[serde(default)]
    far: u8,
}
fn net_case(sep: bool, hidden: bool) -> BoxedStrategy<NetCase> {
    net_sized(2..=10, sep, hidden)
}
fn net_sized(rows: std::ops::RangeInclusive<usize>, sep: bool, hidden: bool) -> BoxedStrategy<NetCase> {
    (rows, 1usize..=3)
        .prop_flat_map(move |(m, n)| {
            (
                prop::collection::vec(prop::collection::vec(-1000i32..=1000, m), n),
                prop::collection::vec(-1000i32..=1000, n),
                -400i32..=400,
                if sep { (500u16..2000).boxed() } else { prop_oneof![1u16..2000, 1u16..4].boxed() },
                0u8..2,
                prop::collection::vec((1u8..6, 0u8..3), if hidden { 1..=2usize } else { 0..=0usize }),
                prop::collection::vec(1u8..9, m),
                (1u8..4, 1u8..20, 1u8..12, prop_oneof![1 => Just(0u8), 2 => 1u8..10]),
            )
        })
        .prop_map(move |(cols, dir, off, mut scale, head, hidden, w, (epochs, iters, batch, far))| {
            // unbounded activations may legitimately diverge on unscaled features
            if hidden.iter().any(|h| h.1 % 3 != 0) && !sep {
                scale = 1 + scale % 3;
            }
            NetCase { cols, dir, off, scale, head, hidden, w, epochs, iters, batch, far }
        })
        .boxed()
}
impl NetCase {
    /// Sample with labels by the separating direction; rows too close to the border are pushed away from it.
    fn build(&self, sep: bool) -> (Sample, Vec<f64>) {
        let m = self.cols[0].len();
        let mut dir: Vec<f64> = self.dir.iter().map(|v| *v as f64 / 1000.0).collect();
        let z = dir.iter().map(|v| v * v).sum::<f64>().sqrt();
        if z < 1e-3 {
            dir.iter_mut().for_each(|v| *v = 0.0);
            dir[0] = 1.0;
        } else {
            dir.iter_mut().for_each(|v| *v /= z);
        }
        // the bias moves slowly on large features: the border then goes through the origin
        let off = if sep && self.scale >= 100 { 0.0 } else { self.off as f64 / 1000.0 };
        let mut rows: Vec<Vec<f64>> = (0..m).map(|i| self.cols.iter().map(|c| c[i] as f64 / 1000.0).collect()).collect();
        let mut y = vec![];
        for (i, r) in rows.iter_mut().enumerate() {
            let v = r.iter().zip(&dir).map(|(a, b)| a * b).sum::<f64>() + off;
            // both labels occur
            let l = if i == 0 { 1.0 } else if i == 1 { -1.0 } else if v >= 0.0 { 1.0 } else { -1.0 };
            y.push(l);
            if sep {
                // signed distance at least 0.3
                let want = l * (0.3 + (v * l).max(0.0));
                r.iter_mut().zip(&dir).for_each(|(x, d)| *x += (want - v) * d);
            }
        }
        let cols: Vec<Vec<f64>> = (0..self.cols.len()).map(|j| rows.iter().map(|r| r[j] * self.scale as f64).collect()).collect();
        (dense_sample(&cols, &default_names(cols.len()), &y), y)
    }
    fn net(&self, s: &Sample) -> NeuralNetwork {
        let mut b = NeuralNetwork::init(s);
        for (k, a) in &self.hidden {
            let act = match a % 3 {
                0 => Activation::Sigmoid(1.0),
                1 => Activation::ReLu(0.0),
                _ => Activation::Id,
            };
            b = b.append(*k as usize, act);
        }
        if self.head == 0 {
            b.append(2, Activation::SoftMax(1.0))
        } else {
            b.append(1, Activation::Sigmoid(1.0))
        }
    }
}
fn outputs(f: &impl Classifier, s: &Sample, two: bool) -> Result<Vec<i64>, String> {
    let all = must("predict_all", || f.predict_all(s))?;
    let conf = must("confidence_all", || f.confidence_all(s))?;
    for i in 0..s.shape().0 {
        let c = must("confidence", || f.confidence(s, i))?;
        let p = must("predict", || f.predict(s, i))?;
        ensure!(c.is_finite() && (-1.0..=1.0).contains(&c), "row {i}: confidence {c}");
        ensure!(!two || c.abs() >= 0.5 - 1e-9, "row {i}: confidence {c}, but the larger of two probabilities is at least a half");
        ensure!(p == if c >= 0.0 { 1 } else { -1 } || (c == 0.0 && p.abs() == 1), "row {i}: confidence {c} but prediction {p}");
        ensure!(all[i] == p && conf[i] == c, "row {i}: batch prediction {} {} differs from {p} {c}", all[i], conf[i]);
    }
    Ok(all)
}
fn check_net(c: &NetCase, o: &mut Obs) -> Res {
    let (s, y) = c.build(false);
    let m = y.len();
    let z: f64 = c.w.iter().map(|w| *w as f64).sum();
    let d: Vec<f64> = c.w.iter().map(|w| *w as f64 / z).collect();
    let net = c.net(&s).n_epoch(c.epochs as usize).n_iter(c.iters as usize);
    // the default fits into samples of any size
    let net = if c.batch % 4 == 0 { net } else { net.minibatch_size((c.batch as usize).min(m)) };
    let f = must("training", || net.produce(&s, &d))?;
    outputs(&f, &s, c.head == 0)?;
    if c.far > 0 {
        // rows far away from the training data get an answer too
        let cols: Vec<Vec<f64>> = c.cols.iter().map(|v| v.iter().map(|x| *x as f64 * 1e-3 * c.scale as f64 * 10f64.powi(c.far as i32)).collect()).collect();
        outputs(&f, &dense_sample(&cols, &default_names(cols.len()), &y), c.head == 0)?;
        o.label("far queries");
    }
    o.nt(!c.hidden.is_empty());
    o.label(if c.head == 0 { "softmax" } else { "sigmoid" });
    o.label_if(c.hidden.len() == 2, "two-hidden-layers");
    Ok(())
}
/// Runs `f` in a rayon pool of one thread: the vectors are tiny.
fn one_thread<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    thread_local!(static POOL: rayon::ThreadPool = rayon::ThreadPoolBuilder::new().num_threads(1).build().unwrap());
    POOL.with(|p| p.install(f))
}
fn check_learns(c: &NetCase, o: &mut Obs) -> Res {
    let (s, y) = c.build(true);
    let m = y.len();
    // all rows in every batch: full gradient steps
    let d = vec![1.0 / m as f64; m];
    let tries = if c.hidden.is_empty() { 3 } else { 40 };
    let mut best = usize::MAX;
    for t in 0..tries {
        let net = c.net(&s).n_epoch(20).n_iter(1000).minibatch_size(m);
        let f = must("training", || one_thread(|| net.produce(&s, &d)))?;
        let p = outputs(&f, &s, c.head == 0)?;
        let wrong = p.iter().zip(&y).filter(|(p, y)| **p as f64 != **y).count();
        best = best.min(wrong);
        if best == 0 {
            o.label(["first-try", "second-try", "third-try", "later"][t.min(3)]);
            o.label_if(t >= 6, "after-six");
            break;
        }
    }
    o.nt(m >= 3);
    o.label(if c.head == 0 { "softmax" } else { "sigmoid" });
    ensure!(best == 0, "none of {tries} trained networks separates {m} well separated rows (best: {best} wrong)");
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Bottleneck {
    seed: u64,
    /// activation of the bottleneck (2: identity, as in old replays)
    #[serde(default = "identity")]
    act: u8,
}
fn identity() -> u8 {
    2
}
fn narrow(act: u8) -> BoxedStrategy<Bottleneck> {
    any::<u64>().prop_map(move |seed| Bottleneck { seed, act }).no_shrink().boxed()
}
/// A narrow hidden layer: the direction must be found by training that layer.
/// How many trainings succeed with correct gradients, with those of the activation missing, and the least that is
/// accepted, is a matter of measurement; the last is four standard deviations below the first.
fn check_bottleneck(c: &Bottleneck, o: &mut Obs) -> Res {
    use proptest::strategy::ValueTree;
    use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
    let mut seed = [7u8; 32];
    seed[..8].copy_from_slice(&c.seed.to_le_bytes());
    let mut runner = TestRunner::new_with_rng(Config::default(), TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
    // (hidden layers, trainings per task, least percentage); measured: 60% and 20 to 36% without sigmoid gradients,
    // 56% and 45% without relu gradients, 74% and at most a third, 76%
    let (hidden, tries, least): (Vec<(u8, u8)>, usize, usize) = match c.act {
        0 => (vec![(4, 0)], 4, 44),
        1 => (vec![(2, 1)], 16, 49),
        2 => (vec![(1, 2)], 4, 55),
        _ => (vec![(1, 2), (2, 2)], 4, 52),
    };
    let strat = net_case(true, true);
    let mut tasks = vec![];
    while tasks.len() < 60 {
        let mut t = strat.new_tree(&mut runner).map_err(|e| format!("generator: {e}"))?.current();
        if t.cols.len() == 3 && t.cols[0].len() >= 6 {
            t.hidden = hidden.clone();
            t.scale = 1 + t.scale % 4;
            tasks.push(t);
        }
    }
    let each = |t: &NetCase| -> Result<usize, String> {
        let (s, y) = t.build(true);
        let m = y.len();
        let d = vec![1.0 / m as f64; m];
        let mut good = 0;
        for _ in 0..tries {
            let net = t.net(&s).n_epoch(20).n_iter(1000).minibatch_size(m);
            let f = must("training", || one_thread(|| net.produce(&s, &d)))?;
            let p = outputs(&f, &s, t.head == 0)?;
            good += p.iter().zip(&y).all(|(p, y)| *p as f64 == *y) as usize;
        }
        Ok(good)
    };
    let results: Vec<Result<usize, String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = tasks.chunks(8).map(|ch| sc.spawn(move || ch.iter().map(each).collect::<Vec<_>>())).collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    });
    let mut good = 0;
    for r in results {
        good += r?;
    }
    let n = tasks.len() * tries;
    o.nt(true);
    o.label(["0-9%", "10-19%", "20-29%", "30-39%", "40-49%", "50-59%", "60-69%", "70-79%", "80-89%", "90-100%", "90-100%"][good * 10 / n]);
    ensure!(good * 100 >= n * least, "only {good} of {n} trainings through the narrow layers {hidden:?} succeeded");
    Ok(())
}

/// Minibatches smaller than the sample: over the epochs every row is learned from.
fn check_minibatch(c: &NetCase, o: &mut Obs) -> Res {
    let (s, y) = c.build(true);
    let m = y.len();
    let batch = 1 + c.batch as usize % (m - 1);
    let z: f64 = c.w.iter().map(|w| *w as f64).sum();
    let d: Vec<f64> = c.w.iter().map(|w| *w as f64 / z).collect();
    let mut best = usize::MAX;
    for t in 0..12 {
        let net = c.net(&s).n_epoch(2000).n_iter(10).minibatch_size(batch);
        let f = must("training", || one_thread(|| net.produce(&s, &d)))?;
        let p = outputs(&f, &s, c.head == 0)?;
        best = best.min(p.iter().zip(&y).filter(|(p, y)| **p as f64 != **y).count());
        if best == 0 {
            o.label(["first-try", "second-try", "third-try", "later"][t.min(3)]);
            break;
        }
    }
    o.nt(m >= 3);
    o.label(if batch == 1 { "single" } else { "several" });
    ensure!(best == 0, "none of 12 networks trained with minibatches of {batch} separates {m} well separated rows (best: {best} wrong)");
    Ok(())
}

/// Two equal rows with opposite labels, one row per minibatch: the training follows the heavy one.
fn check_heavy(c: &Bottleneck, o: &mut Obs) -> Res {
    let heavy_first = c.seed % 2 == 0;
    let s = dense_sample(&[vec![1.0, 1.0]], &default_names(1), &[1.0, -1.0]);
    let d = if heavy_first { [0.95, 0.05] } else { [0.05, 0.95] };
    let want = if heavy_first { 1 } else { -1 };
    let net = NeuralNetwork::init(&s);
    let net = if c.seed % 4 < 2 { net.append(2, Activation::SoftMax(1.0)) } else { net.append(1, Activation::Sigmoid(1.0)) };
    let net = net.n_epoch(1000).n_iter(10).minibatch_size(1);
    let mut good = 0;
    for _ in 0..60 {
        let f = must("training", || one_thread(|| net.produce(&s, &d)))?;
        good += (f.predict(&s, 0) == want) as usize;
    }
    o.nt(true);
    o.label(["0-9%", "10-19%", "20-29%", "30-39%", "40-49%", "50-59%", "60-69%", "70-79%", "80-89%", "90-100%", "90-100%"][good * 10 / 60]);
    ensure!(good >= 45, "only {good} of 60 trainings followed a row of weight 0.95");
    Ok(())
}

// ---------------------------------------------------------------- P11

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct BadCase {
    n: usize,
    /// nu = 1 + (n - 1) * nu / 1000 (below n)
    nu: Option<u16>,
    /// tolerance 10^-tol / 4
    tol: Option<u8>,
    /// relative weights, cyclic; and the shape of the rounds
    dists: Vec<Vec<u16>>,
}
fn bad_case(nmax: usize) -> BoxedStrategy<BadCase> {
    (
        2usize..=nmax,
        prop::option::of(prop_oneof![Just(0u16), 0u16..1000]),
        prop::option::of(0u8..9),
        prop::collection::vec(prop::collection::vec(prop_oneof![3 => 0u16..1000, 1 => Just(0), 1 => Just(1)], 1..30), 1..6),
    )
        .prop_map(|(n, nu, tol, dists)| BadCase { n, nu, tol, dists })
        .boxed()
}
impl BadCase {
    fn nu(&self) -> f64 {
        self.nu.map(|k| 1.0 + (self.n as f64 - 1.0) * k as f64 / 1000.0).unwrap_or(1.0)
    }
    fn tol(&self) -> f64 {
        self.tol.map(|t| 0.25 * 10f64.powi(-(t as i32))).unwrap_or(1e-9)
    }
    fn learner(&self, s: &Sample) -> BadBaseLearner {
        let mut b = BadBaseLearnerBuilder::new(s);
        if self.nu.is_some() {
            b = b.nu(self.nu());
        }
        if self.tol.is_some() {
            b = b.tolerance(self.tol());
        }
        b.build()
    }
    /// agreement (label times prediction) of every member of the family
    fn family(&self) -> Vec<Vec<f64>> {
        let n = self.n;
        let eps = self.tol() / (2.0 * n as f64);
        let s = self.nu().ceil() as usize;
        let half = (n + 1) / 2;
        let mut fam = vec![];
        fam.push((0..n).map(|i| if i < half { 1.0 } else if i < half + s { -1.0 + 2.0 * eps } else { -1.0 + 3.0 * eps }).collect());
        for k in 1..half {
            let g = 3.0 + 2.0 * k as f64;
            let ix = half + k - 1;
            fam.push(
                (0..n)
                    .map(|i| {
                        if i < ix || i >= ix + 2 * s {
                            -1.0 + g * eps
                        } else if i < ix + s {
                            1.0
                        } else {
                            -1.0 + (g - 1.0) * eps
                        }
                    })
                    .collect(),
            );
        }
        fam.push((0..n).map(|i| if i < half { -1.0 + eps } else { 1.0 - eps }).collect());
        fam
    }
}
fn check_bad(c: &BadCase, o: &mut Obs) -> Res {
    let s = Sample::dummy(c.n);
    let y: Vec<f64> = s.target().to_vec();
    let w = must("building the learner", || c.learner(&s))?;
    let fam = c.family();
    let mut seen = std::collections::BTreeSet::new();
    for (t, d) in c.dists.iter().enumerate() {
        let mut d: Vec<f64> = (0..c.n).map(|i| d[i % d.len()] as f64).collect();
        let z: f64 = d.iter().sum();
        if z == 0.0 {
            d = vec![1.0; c.n];
        }
        let z: f64 = d.iter().sum();
        d.iter_mut().for_each(|x| *x /= z);
        let h = must("produce", || w.produce(&s, &d))?;
        let a: Vec<f64> = (0..c.n).map(|i| y[i] * h.confidence(&s, i)).collect();
        let hit = fam.iter().position(|f| f.iter().zip(&a).all(|(p, q)| (p - q).abs() <= 1e-15));
        let Some(k) = hit else { return Err(format!("answer {t}: {a:?} is not one of the documented hypotheses")) };
        seen.insert(k);
        let e = |f: &[f64]| f.iter().zip(&d).map(|(p, q)| p * q).sum::<f64>();
        let best = fam.iter().map(|f| e(f)).fold(f64::NEG_INFINITY, f64::max);
        ensure!(e(&a) >= best - 1e-12, "answer {t}: edge {} of hypothesis {k}, the best is {best}", e(&a));
    }
    o.nt(c.n >= 4 && c.dists.len() >= 2);
    o.label_if(seen.len() >= 2, "two-answers");
    o.label_if(c.nu() > 1.0, "nu>1");
    Ok(())
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P10",
            rule: "a network with a hidden layer, or at least 3 rows to separate",
            assumptions: &["initial weights and batches come from the thread's generator: training is judged by what holds for every initialisation, or by the best of several trainings"],
            subs: vec![
                sub("outputs", 6000, 200000, || prop_oneof![net_case(false, true), net_case(false, false)].boxed(), check_net),
                sub("large", 200, 4000, || prop_oneof![net_sized(1..=70, false, true), net_sized(100..=300, false, false)].prop_map(|mut c| { c.iters = 1 + c.iters % 3; c }).boxed(), check_net),
                sub("learns", 400, 8000, || net_case(true, false), check_learns),
                sub("hidden", 200, 4000, || net_case(true, true).prop_map(|mut c| { for h in c.hidden.iter_mut() { h.0 += 3; } c.hidden.truncate(1); c.scale = 1 + c.scale % 4; c }).boxed(), check_learns),
                sub("minibatch", 600, 8000, || net_case(true, false).prop_map(|mut c| { c.scale = 4 + c.scale % 20; c }).boxed(), check_minibatch),
                sub("heavy", 8, 100, || any::<u64>().prop_map(|seed| Bottleneck { seed, act: 2 }).no_shrink().boxed(), check_heavy),
                sub("bottleneck", 1, 12, || narrow(2), check_bottleneck),
                sub("sigmoid", 1, 12, || narrow(0), check_bottleneck),
                sub("relu", 1, 6, || narrow(1), check_bottleneck),
                sub("deep", 1, 12, || narrow(3), check_bottleneck),
            ],
        },
        Prop {
            id: "P11",
            rule: "at least 4 rows and two distributions",
            assumptions: &[],
            subs: vec![
                sub("family", 1000000, 4000000, || bad_case(40), check_bad),
                sub("large", 20000, 400000, || bad_case(400), check_bad),
            ],
        },
    ]
}
