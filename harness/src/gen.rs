//! Shared generators, hypotheses, base learners and booster drivers.
use miniboosts::prelude::*;
use polars::prelude::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::ops::ControlFlow;

/// A hypothesis given by its confidences on the training rows.
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Table {
    pub id: usize,
    pub conf: Vec<f64>,
}
impl Classifier for Table {
    fn confidence(&self, s: &Sample, row: usize) -> f64 {
        match self.conf.get(row) {
            Some(c) => *c,
            // a longer sample, whose first column refers to the rows of the training sample
            None => self.conf[s.at(row).0[0] as usize],
        }
    }
}
impl Regressor for Table {
    fn predict(&self, _s: &Sample, row: usize) -> f64 {
        self.conf[row]
    }
}

/// A dense sample built through the dataframe entry point.
pub fn dense_sample(cols: &[Vec<f64>], names: &[String], target: &[f64]) -> Sample {
    let series: Vec<Series> = cols.iter().zip(names).map(|(c, n)| Series::new(n.as_str(), c.clone())).collect();
    let df = DataFrame::new(series).unwrap();
    Sample::from_dataframe(df, Series::new("target", target.to_vec())).unwrap()
}

pub fn default_names(n: usize) -> Vec<String> {
    (0..n).map(|i| format!("x{i}")).collect()
}

/// One feature: the row number. For table hypotheses.
pub fn row_sample(y: &[f64]) -> Sample {
    let c: Vec<f64> = (0..y.len()).map(|i| i as f64).collect();
    dense_sample(&[c], &default_names(1), y)
}

/// Same data as svmlight text (zeros omitted), labels first.
pub fn svmlight_text(cols: &[Vec<f64>], target: &[f64]) -> String {
    let mut s = String::new();
    for (i, y) in target.iter().enumerate() {
        s.push_str(&format!("{y}"));
        for (j, c) in cols.iter().enumerate() {
            if c[i] != 0.0 {
                s.push_str(&format!(" {}:{}", j, c[i]));
            }
        }
        s.push('\n');
    }
    s
}

/// A scratch file that is removed on drop.
pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new(ext: &str, content: &[u8]) -> Self {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let dir = if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm".into() } else { std::env::temp_dir() };
        let mut p: std::path::PathBuf = dir;
        p.push(format!("mbverif-{}-{}.{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed), ext));
        std::fs::write(&p, content).unwrap();
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}

pub fn sparse_sample(cols: &[Vec<f64>], target: &[f64]) -> Sample {
    let f = Scratch::new("svmlight", svmlight_text(cols, target).as_bytes());
    SampleReader::<_, String>::default().file(f.0.clone()).read().unwrap()
}

// ---------------------------------------------------------------- game cases

/// A finite two-player game: labels and a pool of hypotheses.
/// Confidences are `h / den`.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Game {
    pub y: Vec<bool>,
    pub den: i32,
    pub h: Vec<Vec<i32>>,
}
impl Game {
    pub fn m(&self) -> usize {
        self.y.len()
    }
    pub fn labels(&self) -> Vec<f64> {
        self.y.iter().map(|&b| if b { 1.0 } else { -1.0 }).collect()
    }
    pub fn sample(&self) -> Sample {
        row_sample(&self.labels())
    }
    pub fn tables(&self) -> Vec<Table> {
        self.h
            .iter()
            .enumerate()
            .map(|(id, r)| Table { id, conf: r.iter().map(|&v| v as f64 / self.den as f64).collect() })
            .collect()
    }
    /// y_i h_j(x_i), one row per hypothesis
    pub fn yh(&self) -> Vec<Vec<f64>> {
        let y = self.labels();
        self.tables().iter().map(|t| t.conf.iter().zip(&y).map(|(c, y)| c * y).collect()).collect()
    }
}

/// Games with both labels present. `den`=1 gives ±1 predictions.
/// `bias`: probability-like weight that an entry agrees with its label.
pub fn game(m: std::ops::RangeInclusive<usize>, n: std::ops::RangeInclusive<usize>, pm_one_only: bool) -> BoxedStrategy<Game> {
    let dens = if pm_one_only { prop_oneof![Just(1i32)].boxed() } else { prop_oneof![8 => Just(1i32), 4 => Just(8i32), 2 => Just(3i32), 4 => Just(100i32), 1 => Just(100_000i32)].boxed() };
    (m, n, dens, 0u8..4, any::<bool>())
        .prop_flat_map(|(m, n, den, bias, first)| {
            let y = prop::collection::vec(any::<bool>(), m).prop_map(move |mut y| {
                // both labels present, by construction
                if y.iter().all(|b| *b == y[0]) {
                    let k = y.len() - 1;
                    y[k] = !y[0];
                }
                if first {
                    y.reverse();
                }
                y
            });
            // entries are agreement values; multiplied by the label below
            let entry = (0i32..=100, 0u8..8).prop_map(move |(r, b)| {
                let sign = if b < [4u8, 5, 6, 7][bias as usize] { 1 } else { -1 };
                if den == 1 {
                    sign
                } else if den > 100 {
                    // hypotheses that are barely sure of anything
                    sign * r
                } else {
                    // magnitude in 0..=den
                    sign * ((r * den + 50) / 100)
                }
            });
            let h = prop::collection::vec(prop::collection::vec(entry, m), n);
            (y, h).prop_map(move |(y, mut h)| {
                for r in h.iter_mut() {
                    for (v, &b) in r.iter_mut().zip(&y) {
                        if !b {
                            *v = -*v;
                        }
                    }
                }
                Game { y, den, h }
            })
        })
        .boxed()
}

/// Returns the hypothesis with the best edge in the pool (lowest index on ties).
/// Records every distribution it is given.
pub struct PoolLearner {
    pub tables: Vec<Table>,
    pub y: Vec<f64>,
    pub dists: RefCell<Vec<Vec<f64>>>,
    pub picks: RefCell<Vec<usize>>,
}
pub fn edge(conf: &[f64], y: &[f64], d: &[f64]) -> f64 {
    conf.iter().zip(y).zip(d).map(|((c, y), d)| c * y * d).sum()
}
impl PoolLearner {
    pub fn new(g: &Game) -> Self {
        Self { tables: g.tables(), y: g.labels(), dists: RefCell::new(vec![]), picks: RefCell::new(vec![]) }
    }
}
impl WeakLearner for PoolLearner {
    type Hypothesis = Table;
    fn name(&self) -> &str {
        "pool"
    }
    fn produce(&self, _s: &Sample, d: &[f64]) -> Table {
        self.dists.borrow_mut().push(d.to_vec());
        let mut best = 0;
        let mut be = f64::NEG_INFINITY;
        for (k, t) in self.tables.iter().enumerate() {
            let e = edge(&t.conf, &self.y, d);
            if e > be + 1e-12 {
                be = e;
                best = k;
            }
        }
        self.picks.borrow_mut().push(best);
        self.tables[best].clone()
    }
}

/// Returns scripted hypotheses, cyclically, whatever the distribution.
pub struct ScriptLearner {
    pub tables: Vec<Table>,
    pub script: Vec<usize>,
    pub dists: RefCell<Vec<Vec<f64>>>,
    pub picks: RefCell<Vec<usize>>,
}
impl ScriptLearner {
    pub fn new(tables: Vec<Table>, script: Vec<usize>) -> Self {
        Self { tables, script, dists: RefCell::new(vec![]), picks: RefCell::new(vec![]) }
    }
}
impl WeakLearner for ScriptLearner {
    type Hypothesis = Table;
    fn produce(&self, _s: &Sample, d: &[f64]) -> Table {
        let t = self.dists.borrow().len();
        self.dists.borrow_mut().push(d.to_vec());
        let k = self.script[t % self.script.len()] % self.tables.len();
        self.picks.borrow_mut().push(k);
        self.tables[k].clone()
    }
}

/// Drives a booster like `Booster::run`, with a cap on the rounds.
/// Returns the output, the number of `boost` calls and whether it stopped by itself.
pub fn drive<H, B, W>(b: &mut B, w: &W, cap: usize) -> (B::Output, usize, bool)
where
    B: Booster<H>,
    W: WeakLearner<Hypothesis = H>,
{
    b.preprocess(w);
    let mut rounds = 0;
    let mut done = false;
    for it in 1..=cap {
        rounds = it;
        if let ControlFlow::Break(_) = b.boost(w, it) {
            done = true;
            break;
        }
    }
    (b.postprocess(w), rounds, done)
}

// ---------------------------------------------------------------- numeric oracles

pub fn check_dist(d: &[f64], m: usize, cap: f64, tol: f64) -> Result<(), String> {
    if d.len() != m {
        return Err(format!("distribution has {} entries for {} examples", d.len(), m));
    }
    let mut s = 0.0;
    for (i, &v) in d.iter().enumerate() {
        if !v.is_finite() || v < 0.0 {
            return Err(format!("distribution entry {i} is {v}"));
        }
        if v > cap + tol {
            return Err(format!("distribution entry {i} is {v}, above the cap {cap}"));
        }
        s += v;
    }
    if (s - 1.0).abs() > 1e-9 {
        return Err(format!("distribution sums to {s}"));
    }
    Ok(())
}

/// min over the 1/nu-capped simplex of <d, margins>
pub fn capped_min(margins: &[f64], nu: f64) -> f64 {
    let mut v = margins.to_vec();
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let mut left = 1.0f64;
    let mut s = 0.0;
    for x in v {
        let w = (1.0 / nu).min(left);
        s += w * x;
        left -= w;
        if left <= 0.0 {
            break;
        }
    }
    s
}

/// Confidence of the combined hypothesis on every training row, times the label.
pub fn margins_of<C: Classifier>(f: &C, s: &Sample) -> Vec<f64> {
    (0..s.shape().0).map(|i| s.target()[i] * f.confidence(s, i)).collect()
}

pub fn close(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol * (1.0 + a.abs().max(b.abs()))
}

/// `WeightedMajority` weights form a probability vector.
pub fn check_simplex(w: &[f64]) -> Result<(), String> {
    if w.is_empty() {
        return Err("the combined hypothesis has no member".into());
    }
    if let Some(x) = w.iter().find(|x| !x.is_finite() || **x < 0.0) {
        return Err(format!("combined weight {x}"));
    }
    let s: f64 = w.iter().sum();
    if (s - 1.0).abs() > 1e-9 {
        return Err(format!("combined weights sum to {s}"));
    }
    Ok(())
}
