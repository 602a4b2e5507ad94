//! P31 (invalid samples and parameters are refused) and P32 (boosting the library's own base learners).
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::trees;
use miniboosts::prelude::*;
use miniboosts::research::CrossValidation;
use miniboosts::{GraphSepBoost, NaiveAggregation};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};

const NAMES: [&str; 11] = ["AdaBoost", "AdaBoostV", "MadaBoost", "SmoothBoost", "GraphSepBoost", "LPBoost", "ERLPBoost", "CERLPBoost", "SoftBoost", "TotalBoost", "MLPBoost"];

// ---------------------------------------------------------------- P31

/// A base learner that notes that it was asked, and gives up.
struct Asked(Cell<bool>);
impl WeakLearner for Asked {
    type Hypothesis = Table;
    fn produce(&self, _s: &Sample, _d: &[f64]) -> Table {
        self.0.set(true);
        panic!("asked")
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct LabelCase {
    kind: u8,
    /// quarters
    y: Vec<i32>,
    sparse: bool,
}
fn label_case() -> BoxedStrategy<LabelCase> {
    let pool = prop_oneof![
        3 => Just(vec![-4, 4]),
        2 => Just(vec![-4, 4, 0]),
        1 => Just(vec![4, 8, 12]),
        2 => Just(vec![-4, 4, 2]),
        1 => Just(vec![-1, 1]),
        1 => Just(vec![-4]),
        1 => Just(vec![4]),
        1 => Just(vec![0]),
        1 => prop::collection::vec(-12i32..12, 1..5),
    ];
    (0u8..11, prop_oneof![2 => 1usize..4, 3 => 4usize..40], pool, any::<bool>())
        .prop_flat_map(|(kind, m, pool, sparse)| {
            let k = pool.len();
            // the odd label may be rare
            (Just(kind), prop::collection::vec((0usize..k, 0u8..3), m), Just(pool), Just(sparse))
        })
        .prop_map(|(kind, ix, pool, sparse)| {
            let rare = ix[0].1 == 0;
            let last = ix.len() - 1;
            let n = pool.len();
            let y = ix.iter().enumerate().map(|(i, (k, _))| if rare && n > 2 && i < last { pool[k % 2] } else { pool[*k] }).collect();
            LabelCase { kind, y, sparse }
        })
        .boxed()
}
fn start(kind: u8, s: &Sample, w: &Asked) {
    match kind {
        0 => drop(AdaBoost::init(s).run(w)),
        1 => drop(AdaBoostV::init(s).run(w)),
        2 => drop(MadaBoost::init(s).run(w)),
        3 => drop(SmoothBoost::init(s).gamma(0.1).run(w)),
        4 => drop(GraphSepBoost::init(s).run(w)),
        5 => drop(LPBoost::init(s).run(w)),
        6 => drop(ERLPBoost::init(s).run(w)),
        7 => drop(CERLPBoost::init(s).run(w)),
        8 => drop(SoftBoost::init(s).run(w)),
        9 => drop(TotalBoost::init(s).run(w)),
        _ => drop(MLPBoost::init(s).run(w)),
    }
}
fn check_labels(c: &LabelCase, o: &mut Obs) -> Res {
    let y: Vec<f64> = c.y.iter().map(|v| *v as f64 / 4.0).collect();
    let rows: Vec<f64> = (0..y.len()).map(|i| i as f64 + 1.0).collect();
    let s = if c.sparse { sparse_sample(&[rows], &y) } else { row_sample(&y) };
    let mut kinds = c.y.clone();
    kinds.sort();
    kinds.dedup();
    let valid = kinds.len() == 2 && kinds.iter().all(|v| v % 4 == 0);
    let w = Asked(Cell::new(false));
    let r = catch(|| start(c.kind, &s, &w));
    let name = NAMES[c.kind as usize];
    if valid {
        // two labels other than +1 and -1 are let through with a warning
        if kinds == [-4, 4] {
            ensure!(w.0.get(), "{name} refuses a sample with labels +1 and -1: {:?}", r.err());
        }
    } else {
        ensure!(!w.0.get(), "{name} starts training on labels {y:?}");
        ensure!(r.is_err(), "{name} returns a hypothesis on labels {y:?}");
    }
    o.nt(y.len() >= 2 && (!valid || kinds == [-4, 4]));
    o.label(name);
    o.label_if(!valid, "refused");
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct ParamCase {
    what: u8,
    m: usize,
    /// (kind of value, position in thousandths)
    at: (u8, u16),
    n: usize,
}
fn param_case() -> BoxedStrategy<ParamCase> {
    (0u8..13, 2usize..40, (0u8..10, 0u16..=1000), 0usize..40).prop_map(|(what, m, at, n)| ParamCase { what, m, at, n }).boxed()
}
/// A value in, at the end of, just outside or far outside `lo..hi`.
fn value(at: (u8, u16), lo: f64, hi: f64) -> f64 {
    let t = at.1 as f64 / 1000.0;
    match at.0 {
        0 => lo,
        1 => hi,
        2 => lo - 1e-9,
        3 => hi + 1e-9,
        4 => lo - 3.0 * t,
        5 => hi + 100.0 * t,
        6 => [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0][at.1 as usize % 4],
        _ => lo + (hi - lo) * t,
    }
}
fn check_params(c: &ParamCase, o: &mut Obs) -> Res {
    let y: Vec<f64> = (0..c.m).map(|i| if i % 2 == 0 { 1.0 } else { -1.0 }).collect();
    let s = row_sample(&y);
    let m = c.m as f64;
    let w = Asked(Cell::new(false));
    /// Whether setting the parameter and starting the run is refused.
    macro_rules! pre {
        ($b:expr) => {
            catch(|| {
                let mut b = $b;
                Booster::<Table>::preprocess(&mut b, &w);
            })
            .is_err()
        };
    }
    // (what, value, refused, must be refused, must be accepted)
    let nu = value(c.at, 1.0, m);
    let nu_in = (1.0..=m).contains(&nu);
    let (what, v, refused, deny, allow) = match c.what {
        0 => ("LPBoost nu", nu, pre!(LPBoost::init(&s).nu(nu)), !nu_in, nu_in),
        1 => ("ERLPBoost nu", nu, pre!(ERLPBoost::init(&s).nu(nu)), !nu_in, nu_in),
        2 => ("CERLPBoost nu", nu, pre!(CERLPBoost::init(&s).nu(nu)), !nu_in, nu_in),
        3 => ("SoftBoost nu", nu, pre!(SoftBoost::init(&s).nu(nu)), !nu_in, nu_in),
        4 => ("MLPBoost nu", nu, pre!(MLPBoost::init(&s).nu(nu)), !nu_in, nu_in),
        5 => {
            let k = value(c.at, 0.0, 1.0);
            ("SmoothBoost kappa", k, pre!(SmoothBoost::init(&s).gamma(0.2).tolerance(k)), !(k > 0.0 && k < 1.0), k > 1e-3 && k < 1.0)
        }
        6 => {
            let g = value(c.at, 0.0, 0.5);
            ("SmoothBoost gamma", g, pre!(SmoothBoost::init(&s).gamma(g)), !(0.0..0.5).contains(&g), g > 1e-3 && g < 0.5)
        }
        7 => {
            let r = value(c.at, 0.0, 1.0);
            ("training ratio", r, catch(|| { let _ = CrossValidation::new(&s).train_ratio(r); }).is_err(), !(r > 0.0 && r < 1.0), r > 0.0 && r < 1.0)
        }
        8 => ("depth of a decision tree", c.n as f64, catch(|| { let _ = DecisionTreeBuilder::new(&s).max_depth(c.n); }).is_err(), c.n == 0, c.n > 0),
        9 => ("depth of a regression tree", c.n as f64, catch(|| { let _ = RegressionTreeBuilder::<GBMLoss>::new(&s).max_depth(c.n); }).is_err(), c.n == 0, c.n > 0),
        10 => {
            let name = if c.n % 2 == 0 { "x0".to_string() } else { ["x1", "", "x", "x00", "target"][c.n % 5].to_string() };
            ("decision tree bins of an unknown column", c.n as f64, catch(|| DecisionTreeBuilder::new(&s).set_nbins(&name, 3)).is_err(), c.n % 2 == 1, c.n % 2 == 0)
        }
        11 => {
            let name = if c.n % 2 == 0 { "x0".to_string() } else { ["x1", "", "x", "x00", "target"][c.n % 5].to_string() };
            ("regression tree bins of an unknown column", c.n as f64, catch(|| RegressionTreeBuilder::<GBMLoss>::new(&s).set_nbins(&name, 3)).is_err(), c.n % 2 == 1, c.n % 2 == 0)
        }
        _ => ("bad base learner nu", nu, catch(|| { let _ = BadBaseLearnerBuilder::new(&s).nu(nu); }).is_err(), !nu_in, nu_in && nu < m),
    };
    ensure!(refused || !deny, "{what} = {v} is accepted ({} rows)", c.m);
    ensure!(!refused || !allow, "{what} = {v} is refused ({} rows)", c.m);
    ensure!(!w.0.get(), "the base learner was asked before the run");
    o.nt(deny || allow);
    o.label(what);
    o.label_if(deny, "refused");
    Ok(())
}

// ---------------------------------------------------------------- P32

/// Passes everything on to a base learner and keeps what it was given and what it answered.
struct Spy<W: WeakLearner> {
    inner: W,
    seen: RefCell<Vec<(Vec<f64>, W::Hypothesis)>>,
}
impl<W: WeakLearner> WeakLearner for Spy<W>
where
    W::Hypothesis: Clone,
{
    type Hypothesis = W::Hypothesis;
    fn name(&self) -> &str {
        self.inner.name()
    }
    fn info(&self) -> Option<Vec<(&str, String)>> {
        self.inner.info()
    }
    fn produce(&self, s: &Sample, d: &[f64]) -> W::Hypothesis {
        let h = self.inner.produce(s, d);
        self.seen.borrow_mut().push((d.to_vec(), h.clone()));
        h
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct PipeCase {
    t: trees::TreeCase,
    kind: u8,
    bayes: bool,
    cap: u16,
    tol: u16,
    fw: u8,
}
fn pipe_case(ms: std::ops::RangeInclusive<usize>) -> BoxedStrategy<PipeCase> {
    (trees::tree_case(ms, false), 0u8..11, prop::bool::weighted(0.2), prop_oneof![1 => Just(0u16), 4 => 0u16..=1000, 1 => Just(1000u16)], 30u16..400, 0u8..4)
        .prop_map(|(mut t, kind, bayes, cap, tol, fw)| {
            // both labels occur
            if t.y.iter().all(|b| *b == t.y[0]) {
                let k = t.y.len() / 2;
                t.y[k] = !t.y[k];
            }
            t.depth = 1 + t.depth % 3;
            PipeCase { t, kind, bayes, cap, tol, fw }
        })
        .boxed()
}
/// Runs whose base learner offers alike trees again and again, judged to the end.
fn alike_case() -> BoxedStrategy<PipeCase> {
    (pipe_case(4..=10), any::<bool>(), 1u8..=2, 100u16..200, prop::collection::vec(0i16..4, 20))
        .prop_map(|(mut c, mlp, depth, tol, v)| {
            c.kind = if mlp { 10 } else { 7 };
            c.bayes = false;
            c.tol = tol;
            c.cap /= 3;
            c.t.depth = depth;
            c.t.cols.truncate(2);
            for (j, col) in c.t.cols.iter_mut().enumerate() {
                for (i, x) in col.v.iter_mut().enumerate() {
                    *x = v[(j * 10 + i) % v.len()];
                }
                col.nbins = None;
            }
            c
        })
        .boxed()
}
fn text<H: Serialize>(h: &H) -> String {
    serde_json::to_string(h).unwrap_or_default()
}
fn fw(k: u8) -> FWType {
    match k % 4 {
        0 => FWType::Classic,
        1 => FWType::ShortStep,
        2 => FWType::LineSearch,
        _ => FWType::BlendedPairwise,
    }
}

struct Judge<'a> {
    c: &'a PipeCase,
    s: &'a Sample,
    nu: f64,
    tol: f64,
}
impl Judge<'_> {
    /// The distributions handed out, and the edges of the answers on them.
    fn rounds<W: WeakLearner>(&self, w: &Spy<W>, cap: f64) -> Result<Vec<f64>, String>
    where
        W::Hypothesis: Classifier + Clone,
    {
        let y = self.s.target();
        let mut e = vec![];
        for (t, (d, h)) in w.seen.borrow().iter().enumerate() {
            check_dist(d, y.len(), cap, 1e-5).map_err(|e| format!("round {}: {e}", t + 1))?;
            e.push(edge(&h.confidence_all(self.s), y, d));
        }
        Ok(e)
    }

    fn vote<W: WeakLearner>(&self, w: &Spy<W>, f: &WeightedMajority<W::Hypothesis>, edges: &[f64], done: bool, o: &mut Obs) -> Res
    where
        W::Hypothesis: Classifier + Clone + Serialize,
    {
        let c = self.c;
        let name = NAMES[c.kind as usize];
        let s = self.s;
        let m = s.shape().0;
        check_simplex(&f.weights).map_err(|e| format!("{name}: {e}"))?;
        let texts: Vec<String> = w.seen.borrow().iter().map(|(_, h)| text(h)).collect();
        for h in &f.hypotheses {
            ensure!(texts.contains(&text(h)), "{name}: the vote contains a hypothesis that the base learner never gave");
        }
        // the vote on the training rows
        let all: Vec<Vec<f64>> = f.hypotheses.iter().map(|h| h.confidence_all(s)).collect();
        let conf = f.confidence_all(s);
        for i in 0..m {
            let v: f64 = f.weights.iter().zip(&all).map(|(w, c)| w * c[i]).sum();
            ensure!((v - conf[i]).abs() < 1e-9, "{name}: confidence {} on row {i}, the vote is {v}", conf[i]);
            ensure!(f.confidence(s, i) == conf[i] && Classifier::predict(f, s, i) == if conf[i] >= 0.0 { 1 } else { -1 }, "{name}: row {i} single and batch outputs differ");
        }
        let margins = margins_of(f, s);
        let least = edges.iter().copied().fold(f64::INFINITY, f64::min);
        let hard = margins.iter().copied().fold(f64::INFINITY, f64::min);
        match c.kind {
            0 => {
                let bound: f64 = edges.iter().map(|e| (1.0 - e.min(1.0).powi(2)).sqrt()).product();
                let wrong = (0..m).filter(|&i| margins[i] < -1e-9).count() as f64 / m as f64;
                ensure!(wrong <= bound + 1e-6, "{name}: training error {wrong}, the edges {edges:?} bound it by {bound}");
            }
            1 if done => ensure!(hard >= least - self.tol - 1e-6, "{name}: smallest margin {hard}, smallest edge {least}, tolerance {}", self.tol),
            3 if done => {
                let (gamma, kappa) = (0.1, self.tol);
                if least >= 2.0 * gamma {
                    let theta = gamma / (2.0 + gamma);
                    let low = margins.iter().filter(|x| **x <= theta - 1e-9).count() as f64 / m as f64;
                    ensure!(low < kappa + 1e-9, "{name}: a fraction of {low} has margin at most {theta}, promised below {kappa}");
                    o.label("smooth margin");
                }
            }
            5 | 6 | 7 | 8 | 10 if done => {
                let soft = capped_min(&margins, self.nu);
                ensure!(soft >= least - self.tol - 1e-4, "{name}: soft margin {soft} at nu {}, smallest edge {least}, tolerance {}", self.nu, self.tol);
            }
            9 if done => ensure!(hard >= least - self.tol - 1e-4, "{name}: smallest margin {hard}, smallest edge {least}, tolerance {}", self.tol),
            _ => {}
        }
        o.nt(f.hypotheses.len() >= 2);
        o.label_if(done, "completed");
        o.label_if(f.hypotheses.len() == 1, "one member");
        Ok(())
    }
}

/// Runs the case's booster with a base learner; `after` sees the vote.
fn pipeline<W: WeakLearner>(c: &PipeCase, s: &Sample, inner: W, o: &mut Obs, after: &dyn Fn(&WeightedMajority<W::Hypothesis>) -> Res) -> Res
where
    W::Hypothesis: Classifier + Clone + Serialize + PartialEq + std::fmt::Debug,
{
    let m = s.shape().0 as f64;
    let nu = if c.cap >= 1000 { m } else { 1.0 + (m - 1.0) * c.cap as f64 / 1000.0 };
    let tol = (c.tol as f64 / 1000.0 + 0.000317).max([0.2, 0.15, 0.3, 0.03][(c.kind as usize).min(3)]);
    let w = Spy { inner, seen: RefCell::new(vec![]) };
    let j = Judge { c, s, nu, tol };
    let name = NAMES[c.kind as usize];
    o.label(name);
    /// A combination of hypotheses without any positive edge does not exist.
    fn hopeless(e: &[f64]) -> bool {
        e.first().map_or(true, |x| *x < 1e-9)
    }
    macro_rules! run {
        ($b:expr, $rounds:expr, $cap:expr) => {{
            let mut b = $b;
            b.preprocess(&w);
            let mut done = false;
            for t in 1..=$rounds {
                done = must(&format!("{name}: round {t}"), || b.boost(&w, t))?.is_break();
                if done {
                    break;
                }
            }
            let e = j.rounds(&w, $cap)?;
            // the boosters that weigh a hypothesis by its edge assume that it is not negative
            if c.kind < 4 && (hopeless(&e) || e.iter().any(|x| *x < 0.0)) {
                o.label("edge below zero");
                return Ok(());
            }
            let f = must(&format!("{name}: the result"), || b.postprocess(&w))?;
            j.vote(&w, &f, &e, done, o)?;
            after(&f)
        }};
    }
    match c.kind {
        0 => run!(AdaBoost::init(s).tolerance(tol), 400, 1.0),
        1 => run!(AdaBoostV::init(s).tolerance(tol), 400, 1.0),
        2 => run!(MadaBoost::init(s).tolerance(tol), 60, 1.0),
        3 => run!(SmoothBoost::init(s).tolerance(tol).gamma(0.1), 4000, 1.0 / (tol * m)),
        4 => {
            let mut b = GraphSepBoost::init(s);
            let (f, _, _): (NaiveAggregation<W::Hypothesis>, _, _) = must("GraphSepBoost", || drive(&mut b, &w, 400))?;
            j.rounds(&w, 1.0)?;
            // positive exactly on the vote patterns of the positives
            let seen = w.seen.borrow();
            let votes: Vec<Vec<i64>> = (0..s.shape().0).map(|i| seen.iter().map(|(_, h)| h.predict(s, i)).collect()).collect();
            let y = s.target();
            let f_all = must("predict_all", || f.predict_all(s))?;
            for i in 0..y.len() {
                let want = if (0..y.len()).any(|k| y[k] > 0.0 && votes[k] == votes[i]) { 1 } else { -1 };
                // the last hypothesis may have separated nothing: it splits no class of equal votes that matters
                ensure!(f_all[i] == want, "GraphSepBoost: row {i} is predicted {}, its vote pattern says {want}", f_all[i]);
            }
            o.nt(seen.len() >= 2);
            Ok(())
        }
        5 => run!(LPBoost::init(s).nu(nu).tolerance(tol), 400, 1.0 / nu),
        6 => run!(ERLPBoost::init(s).nu(nu).tolerance(tol), 400, 1.0 / nu),
        7 => run!(CERLPBoost::init(s).nu(nu).tolerance(tol).fw_type(fw(c.fw)), if !c.bayes { 3000 } else if m < 15.0 { 600 } else { 200 }, 1.0 / nu),
        8 => run!(SoftBoost::init(s).nu(nu).tolerance(tol), 400, 1.0 / nu),
        9 => run!(TotalBoost::init(s).tolerance(tol), 400, 1.0),
        _ => run!(MLPBoost::init(s).nu(nu).tolerance(tol).frank_wolfe(fw(c.fw)), if m < 15.0 && !c.bayes { 4000 } else { 400 }, 1.0 / nu),
    }
}

fn check_pipe(c: &PipeCase, o: &mut Obs) -> Res {
    let (s, vals, names, nb) = c.t.build(c.t.sparse);
    o.label_if(c.t.sparse, "sparse");
    if c.bayes {
        o.label("naive Bayes");
        // both classes vary in every feature
        let y = c.t.labels();
        for v in &vals {
            for l in [-1.0, 1.0] {
                let x: Vec<f64> = v.iter().zip(&y).filter(|(_, y)| **y == l).map(|(x, _)| *x).collect();
                if x.iter().all(|a| *a == x[0]) {
                    return Ok(());
                }
            }
        }
        return pipeline(c, &s, GaussianNB::init(), o, &|_| Ok(()));
    }
    let mut b = DecisionTreeBuilder::new(&s).max_depth(c.t.depth as usize).criterion(trees::criterion(c.t.crit));
    for (n, k) in names.iter().zip(&nb) {
        if let Some(k) = k {
            b.set_nbins(n.as_str(), *k as usize);
        }
    }
    pipeline(c, &s, b.build(), o, &|f| {
        // the vote on another sample, its columns in another order
        let ts: Vec<trees::T> = match f.hypotheses.iter().map(|h| trees::parse_tree(h, "confidence")).collect::<Option<_>>() {
            Some(t) => t,
            None => return Ok(()),
        };
        for sp in [false, c.t.sparse] {
            let Some((q, qv)) = trees::elsewhere(&ts[ts.len() / 2], &names, &vals, sp) else { continue };
            let conf = must("confidence_all on another sample", || f.confidence_all(&q))?;
            for i in 0..qv[0].len() {
                let v: f64 = f.weights.iter().zip(&ts).map(|(w, t)| w * t.value(&|f| names.iter().position(|n| n == f).map(|j| qv[j][i])).unwrap_or(f64::NAN)).sum();
                ensure!((v - conf[i]).abs() < 1e-9, "row {i} of another sample: confidence {}, the trees vote {v}", conf[i]);
            }
        }
        Ok(())
    })
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P31",
            rule: "labels: every booster started on samples with one, two, three or fractional labels, the base learner must not be asked on an invalid one; parameters: values inside, at the ends of, just and far outside the documented range, NaN and infinities; non-trivial: the outcome is prescribed and the sample has two rows",
            assumptions: &["a value whose acceptance is not documented (nu = n of the bad base learner, gamma = 0) is not judged"],
            subs: vec![sub("labels", 600000, 2400000, label_case, check_labels), sub("parameters", 600000, 2400000, param_case, check_params)],
        },
        Prop {
            id: "P32",
            rule: "eleven boosters with the library's decision trees (four criteria, depths, bin counts) or naive Bayes on generated dense and sparse samples, hypotheses and distributions recorded on the way; non-trivial: a vote of at least two members",
            assumptions: &["boosters that weigh hypotheses by edge are judged when no edge is negative", "naive Bayes gets samples on which each class varies in every feature"],
            subs: vec![sub("trees", 20000, 400000, || pipe_case(3..=14), check_pipe), sub("large", 1500, 30000, || pipe_case(30..=120), check_pipe), sub("alike", 12000, 120000, alike_case, check_pipe), sub("huge", 120, 2400, || pipe_case(130..=500), check_pipe)],
        },
    ]
}
