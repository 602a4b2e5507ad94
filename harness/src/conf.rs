//! P33: the configuration decides the run, whatever the order it was given in, and is reported as it is.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::meta::*;
use crate::trees;
use miniboosts::prelude::*;
use miniboosts::research::CrossValidation;
use miniboosts::GraphSepBoost;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// One call of a setter. Numbers are positions within the legal range, thousandths.
#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
enum Set {
    Tol(u16),
    Nu(u16),
    Fw(u8),
    Quit(u8),
    Gamma(u16),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct ConfCase {
    c: Conf,
    /// further columns, which no hypothesis looks at
    extra: usize,
    /// values that are overwritten later
    decoys: Vec<Set>,
    /// sort keys of the final calls
    order: [u8; 4],
}
fn set() -> BoxedStrategy<Set> {
    prop_oneof![
        (40u16..600).prop_map(Set::Tol),
        (0u16..=1000).prop_map(Set::Nu),
        (0u8..4).prop_map(Set::Fw),
        (1u8..30).prop_map(Set::Quit),
        (80u16..500).prop_map(Set::Gamma)
    ]
    .boxed()
}
fn conf_case(c: BoxedStrategy<Conf>) -> BoxedStrategy<ConfCase> {
    (c, 0usize..4, prop::collection::vec(set(), 0..5), any::<[u8; 4]>()).prop_map(|(c, extra, decoys, order)| ConfCase { c, extra, decoys, order }).boxed()
}

/// A setter call with its value.
#[derive(Debug, Clone, Copy, PartialEq)]
enum Call {
    Tol(f64),
    Nu(f64),
    Fw(u8),
    Quit(usize),
    Gamma(f64),
}
fn has(kind: u8, c: &Call) -> bool {
    match c {
        Call::Tol(_) => kind != 4,
        Call::Nu(_) => matches!(kind, 5..=8 | 10),
        Call::Fw(_) => matches!(kind, 7 | 10),
        Call::Quit(_) => kind < 3,
        Call::Gamma(_) => kind == 3,
    }
}
macro_rules! apply {
    ($b:expr, $calls:expr, $($p:pat => $m:ident($a:expr)),*) => {{
        let mut b = $b;
        for c in $calls {
            b = match *c {
                $($p => b.$m($a),)*
                _ => b,
            };
        }
        b
    }};
}

/// What a booster says about itself.
struct Said {
    info: Option<Vec<(String, String)>>,
    rounds_max: Option<usize>,
    terminated: Option<usize>,
}
fn owned(i: Option<Vec<(&str, String)>>) -> Option<Vec<(String, String)>> {
    i.map(|v| v.into_iter().map(|(k, t)| (k.to_string(), t)).collect())
}
type Told = (Said, Hist, Said);

/// Builds by `calls`, asks, runs, asks again.
fn told(c: &Conf, s: &Sample, calls: &[Call]) -> Told {
    fn go<B, O>(mut b: B, c: &Conf, s: &Sample, max: impl Fn(&mut B) -> Option<usize>, end: impl Fn(&B) -> Option<usize>) -> Told
    where
        B: Booster<Table, Output = O>,
        O: Classifier + Show + Send,
    {
        let before = Said { info: owned(b.info()), rounds_max: max(&mut b), terminated: None };
        let h = history(&mut b, c, &c.p.how, s);
        let after = Said { info: owned(b.info()), rounds_max: max(&mut b), terminated: end(&b) };
        (before, h, after)
    }
    match c.kind {
        0 => go(apply!(AdaBoost::init(s), calls, Call::Tol(v) => tolerance(v), Call::Quit(q) => force_quit_at(q)), c, s, |b| Some(b.max_loop()), |_| None),
        1 => go(apply!(AdaBoostV::init(s), calls, Call::Tol(v) => tolerance(v), Call::Quit(q) => force_quit_at(q)), c, s, |b| Some(b.max_loop()), |_| None),
        2 => go(apply!(MadaBoost::init(s), calls, Call::Tol(v) => tolerance(v), Call::Quit(q) => force_quit_at(q)), c, s, |b| Some(b.max_loop()), |_| None),
        3 => go(apply!(SmoothBoost::init(s), calls, Call::Tol(v) => tolerance(v), Call::Gamma(g) => gamma(g)), c, s, |_| None, |_| None),
        4 => go(GraphSepBoost::init(s), c, s, |_| None, |_| None),
        5 => go(apply!(LPBoost::init(s), calls, Call::Tol(v) => tolerance(v), Call::Nu(v) => nu(v)), c, s, |_| None, |b| Some(b.terminated())),
        6 => go(apply!(ERLPBoost::init(s), calls, Call::Tol(v) => tolerance(v), Call::Nu(v) => nu(v)), c, s, |_| None, |b| Some(b.terminated())),
        7 => go(apply!(CERLPBoost::init(s), calls, Call::Tol(v) => tolerance(v), Call::Nu(v) => nu(v), Call::Fw(k) => fw_type(fw_rule(k))), c, s, |b| Some(b.max_loop()), |_| None),
        8 => go(apply!(SoftBoost::init(s), calls, Call::Tol(v) => tolerance(v), Call::Nu(v) => nu(v)), c, s, |b| Some(b.max_loop()), |_| None),
        9 => go(apply!(TotalBoost::init(s), calls, Call::Tol(v) => tolerance(v)), c, s, |_| None, |_| None),
        _ => go(apply!(MLPBoost::init(s), calls, Call::Tol(v) => tolerance(v), Call::Nu(v) => nu(v), Call::Fw(k) => frank_wolfe(fw_rule(k))), c, s, |b| Some(b.max_loop()), |b| Some(b.terminated())),
    }
}

/// "3.5" or "1.7K": the value and half of its last digit.
fn with_unit(t: &str) -> Result<(f64, f64), String> {
    let t = t.trim();
    for (u, k) in [('K', 1e3), ('M', 1e6), ('G', 1e9)] {
        if let Some(x) = t.strip_suffix(u) {
            return Ok((number(x)? * k, 0.0501 * k));
        }
    }
    Ok((number(t)?, 0.0))
}
fn number(t: &str) -> Result<f64, String> {
    t.trim().parse().map_err(|_| format!("`{t}` is no number"))
}
fn near(what: &str, t: &str, want: f64) -> Res {
    let v = number(t)?;
    ensure!(close(v, want, 1e-9), "`{what}` is reported as {t}, it is {want}");
    Ok(())
}
/// "3.5 (  35.000 %)"
fn capping(t: &str, nu: f64, m: usize) -> Res {
    let bad = || format!("`Capping` is reported as {t}");
    let (a, b) = t.split_once('(').ok_or_else(bad)?;
    // rounded to a tenth of the unit from a thousand on
    let (v, err) = with_unit(a)?;
    ensure!((v - nu).abs() <= err + 1e-9 * nu, "`Capping` is reported as {t}, it is {nu}");
    let p = b.trim_end().strip_suffix(')').and_then(|b| b.trim_end().strip_suffix('%')).ok_or_else(bad)?;
    let want = nu * 100.0 / m as f64;
    ensure!((number(p)? - want).abs() <= 0.00051, "`Capping` is reported as {t}: {nu} of {m} rows are {want} %");
    Ok(())
}
fn check_info(s: &Sample, calls: &[Call], said: &Said, quit: Option<usize>) -> Res {
    let Some(info) = &said.info else { return Err("the booster says nothing about itself".into()) };
    let (m, n) = s.shape();
    let (mut rows, mut cols) = (0, 0);
    for (k, t) in info {
        match k.as_str() {
            "# of examples" => {
                rows += 1;
                near(k, t, m as f64)?
            }
            "# of features" => {
                cols += 1;
                near(k, t, n as f64)?
            }
            "Tolerance" | "Tolerance (Kappa)" => {
                let Some(Call::Tol(v)) = calls.iter().find(|x| matches!(x, Call::Tol(_))) else { continue };
                near(k, t, *v)?
            }
            "Gamma (WL guarantee)" => {
                if let Some(Call::Gamma(v)) = calls.iter().find(|x| matches!(x, Call::Gamma(_))) {
                    near(k, t, *v)?
                }
            }
            "Theta" => {
                if let Some(Call::Gamma(v)) = calls.iter().find(|x| matches!(x, Call::Gamma(_))) {
                    near(k, t, *v / (2.0 + *v))?
                }
            }
            "Capping (outliers)" => match calls.iter().find(|x| matches!(x, Call::Nu(_))) {
                Some(Call::Nu(v)) => capping(t, *v, m)?,
                // TotalBoost: the hard margin
                _ => capping(t, 1.0, m)?,
            },
            "Force quit" => match quit {
                Some(q) => ensure!(t.trim_end().ends_with(&format!(" {q}")), "`{k}` is reported as {t}, it is {q}"),
                None => ensure!(!t.contains(|c: char| c.is_ascii_digit()), "`{k}` is reported as {t}"),
            },
            "Frank-Wolfe" | "Primary" => {
                if let Some(Call::Fw(v)) = calls.iter().find(|x| matches!(x, Call::Fw(_))) {
                    let word = ["classic", "short", "line", "pairwise"][*v as usize % 4];
                    ensure!(t.to_lowercase().contains(word), "`{k}` is reported as {t}, it is {word}");
                }
            }
            _ => {}
        }
    }
    // every configured value is somewhere in the list
    let says = |v: f64| info.iter().any(|(_, t)| t.split(|c: char| c.is_whitespace() || c == '(').any(|w| w.parse::<f64>().map_or(false, |x| close(x, v, 1e-9))));
    for c in calls {
        let (what, there) = match *c {
            Call::Tol(v) => ("tolerance", says(v)),
            Call::Nu(v) => ("capping parameter", says(v) || info.iter().any(|(_, t)| t.split(|c: char| c.is_whitespace() || c == '(').any(|w| with_unit(w).map_or(false, |(x, e)| (x - v).abs() <= e)))),
            Call::Gamma(v) => ("gamma", says(v)),
            Call::Quit(q) => ("forced number of rounds", says(q as f64)),
            Call::Fw(k) => ("Frank-Wolfe rule", info.iter().any(|(_, t)| t.to_lowercase().contains(["classic", "short", "line", "pairwise"][k as usize % 4]))),
        };
        ensure!(there, "the configured {what} {c:?} is missing in {info:?}");
    }
    ensure!(rows == 1 && cols == 1, "the size of the sample is reported {rows}/{cols} times");
    Ok(())
}
fn check_conf(c: &ConfCase, o: &mut Obs) -> Res {
    within(1, || {
        let k = &c.c;
        let y = k.p.g.labels();
        let m = y.len();
        let mut cols: Vec<Vec<f64>> = vec![(0..m).map(|i| i as f64).collect()];
        for j in 0..c.extra {
            cols.push((0..m).map(|i| ((i * (j + 2)) % 5) as f64).collect());
        }
        let s = dense_sample(&cols, &default_names(cols.len()), &y);
        let quit = k.quit.filter(|_| k.kind < 3).map(|q| q as usize);
        let tol = if k.kind == 3 { k.kappa as f64 / 100.0 + 0.000317 } else { k.tol() };
        let mut plain = vec![Call::Tol(tol), Call::Nu(k.p.nu()), Call::Fw(k.p.fw), Call::Gamma(k.gamma as f64 / 100.0)];
        plain.extend(quit.map(Call::Quit));
        plain.retain(|x| has(k.kind, x));
        // the decoys first, then the same calls in another order
        let mut calls: Vec<Call> = c
            .decoys
            .iter()
            .map(|d| match *d {
                Set::Tol(t) => Call::Tol(t as f64 / 1000.0),
                Set::Nu(t) => Call::Nu(1.0 + (m as f64 - 1.0) * t as f64 / 1000.0),
                Set::Fw(f) => Call::Fw(f),
                Set::Quit(q) => Call::Quit(q as usize),
                Set::Gamma(g) => Call::Gamma(g as f64 / 1000.0),
            })
            .filter(|x| has(k.kind, x) && (quit.is_some() || !matches!(x, Call::Quit(_))))
            .collect();
        let decoys = calls.len();
        let mut fin: Vec<(u8, Call)> = plain.iter().enumerate().map(|(i, x)| (c.order[i % 4], *x)).collect();
        fin.sort_by_key(|x| x.0);
        let swapped = fin.iter().map(|x| x.1).ne(plain.iter().copied());
        calls.extend(fin.into_iter().map(|x| x.1));

        let (b0, h0, a0) = told(k, &s, &plain);
        let (b1, h1, a1) = told(k, &s, &calls);
        same(&format!("{calls:?} against {plain:?}"), &h0, &h1)?;
        ensure!(b0.info == b1.info && a0.info == a1.info, "{calls:?} and {plain:?} report {:?} and {:?}", a1.info, a0.info);
        ensure!(a0.rounds_max == a1.rounds_max && a0.terminated == a1.terminated, "{calls:?} and {plain:?}: {:?} and {:?}", (a1.rounds_max, a1.terminated), (a0.rounds_max, a0.terminated));
        check_info(&s, &plain, &a0, quit)?;
        let ran = h0.dists.len();
        if let Some(x) = a0.rounds_max {
            ensure!(b0.rounds_max == Some(x), "max_loop is {:?} before and {x} after the run", b0.rounds_max);
            ensure!(quit.is_some() || ran <= x.max(1), "{ran} rounds, max_loop is {x}");
            for (key, t) in a0.info.iter().flatten() {
                if key == "Max iteration" {
                    near(key, t, x as f64)?;
                }
            }
        }
        if h0.out.is_ok() {
            for (key, t) in a0.info.iter().flatten() {
                if key == "Max iteration" && t != "-" && quit.is_none() {
                    ensure!(ran as f64 <= number(t)?.max(1.0), "{ran} rounds, the reported maximum is {t}");
                }
            }
            if let Some(t) = a0.terminated {
                ensure!(t == ran, "terminated() is {t}, the base learner was asked {ran} times");
                o.label("terminated");
            }
        }
        o.nt(ran >= 2 && (decoys > 0 || swapped));
        o.label(NAMES[k.kind as usize]);
        o.label_if(swapped, "other-order");
        o.label_if(decoys > 0, "overwritten");
        Ok(())
    })
}

// ---------------------------------------------------------------- samples of every size, no run

#[derive(Debug, Clone, Serialize, Deserialize)]
struct SizeCase {
    kind: u8,
    m: usize,
    /// tenths of thousandths
    tol: Option<u16>,
    /// thousandths of the way from 1 to m
    cap: Option<u16>,
    fw: Option<u8>,
    quit: Option<u16>,
    gamma: u16,
}
fn size_case() -> BoxedStrategy<SizeCase> {
    let m = prop_oneof![4 => 2usize..60, 4 => 60usize..1200, 2 => 1200usize..6000, 1 => 6000usize..20000];
    (0u8..11, m, prop::option::of(3u16..6000), prop::option::of(0u16..=1000), prop::option::of(0u8..4), prop::option::of(1u16..3000), 8u16..50)
        .prop_map(|(kind, m, tol, cap, fw, quit, gamma)| SizeCase { kind, m: if kind == 4 { m % 300 + 2 } else { m }, tol, cap, fw, quit, gamma })
        .boxed()
}
struct Idle;
impl WeakLearner for Idle {
    type Hypothesis = Table;
    fn produce(&self, _: &Sample, _: &[f64]) -> Table {
        panic!("asked before the run")
    }
}
/// What the booster says once it is prepared.
fn prepared(kind: u8, s: &Sample, calls: &[Call]) -> Result<Said, String> {
    fn go<B, O>(mut b: B, max: impl Fn(&mut B) -> Option<usize>) -> Said
    where
        B: Booster<Table, Output = O>,
    {
        b.preprocess(&Idle);
        let rounds_max = max(&mut b);
        Said { info: owned(b.info()), rounds_max, terminated: None }
    }
    must(&format!("preparing {}", NAMES[kind as usize]), || match kind {
        0 => go(apply!(AdaBoost::init(s), calls, Call::Tol(v) => tolerance(v), Call::Quit(q) => force_quit_at(q)), |b| Some(b.max_loop())),
        1 => go(apply!(AdaBoostV::init(s), calls, Call::Tol(v) => tolerance(v), Call::Quit(q) => force_quit_at(q)), |b| Some(b.max_loop())),
        2 => go(apply!(MadaBoost::init(s), calls, Call::Tol(v) => tolerance(v), Call::Quit(q) => force_quit_at(q)), |b| Some(b.max_loop())),
        3 => go(apply!(SmoothBoost::init(s), calls, Call::Tol(v) => tolerance(v), Call::Gamma(g) => gamma(g)), |_| None),
        4 => go(GraphSepBoost::init(s), |_| None),
        5 => go(apply!(LPBoost::init(s), calls, Call::Tol(v) => tolerance(v), Call::Nu(v) => nu(v)), |_| None),
        6 => go(apply!(ERLPBoost::init(s), calls, Call::Tol(v) => tolerance(v), Call::Nu(v) => nu(v)), |_| None),
        7 => go(apply!(CERLPBoost::init(s), calls, Call::Tol(v) => tolerance(v), Call::Nu(v) => nu(v), Call::Fw(k) => fw_type(fw_rule(k))), |b| Some(b.max_loop())),
        8 => go(apply!(SoftBoost::init(s), calls, Call::Tol(v) => tolerance(v), Call::Nu(v) => nu(v)), |b| Some(b.max_loop())),
        9 => go(apply!(TotalBoost::init(s), calls, Call::Tol(v) => tolerance(v)), |_| None),
        _ => go(apply!(MLPBoost::init(s), calls, Call::Tol(v) => tolerance(v), Call::Nu(v) => nu(v), Call::Fw(k) => frank_wolfe(fw_rule(k))), |b| Some(b.max_loop())),
    })
}
/// The calls, their completion by the defaults, and the sample.
fn size_calls(c: &SizeCase) -> (Vec<Call>, Vec<Call>, Sample) {
    let y: Vec<f64> = (0..c.m).map(|i| if i % 3 == 0 { 1.0 } else { -1.0 }).collect();
    let mf = c.m as f64;
    let tol = match c.kind {
        0 | 2 => 1.0 / (mf + 1.0),
        1 | 8 | 9 => 1.0 / mf,
        3 => 0.5,
        _ => 0.01,
    };
    // LPBoost documents another tolerance than it uses; SmoothBoost's default gamma cannot be given
    let given = [
        c.tol.or((c.kind == 5).then_some(100)).map(|t| Call::Tol(t as f64 / 1e4)),
        c.cap.map(|k| Call::Nu(if k >= 1000 { mf } else { 1.0 + (mf - 1.0) * k as f64 / 1000.0 })),
        c.fw.map(Call::Fw),
        Some(Call::Gamma(c.gamma as f64 / 100.0)),
    ];
    let dflt = [Call::Tol(tol), Call::Nu(1.0), Call::Fw(1), Call::Gamma(0.5)];
    let keep = |v: &mut Vec<Call>| {
        v.extend(c.quit.map(|q| Call::Quit(q as usize)));
        v.retain(|x| has(c.kind, x));
    };
    let mut few: Vec<Call> = given.iter().flatten().copied().collect();
    let mut all: Vec<Call> = given.iter().zip(dflt).map(|(g, d)| g.unwrap_or(d)).collect();
    keep(&mut few);
    keep(&mut all);
    (few, all, row_sample(&y))
}
fn check_sized_info(c: &SizeCase, o: &mut Obs) -> Res {
    let (_, all, s) = size_calls(c);
    let said = prepared(c.kind, &s, &all)?;
    let quit = all.iter().find_map(|x| if let Call::Quit(q) = x { Some(*q) } else { None });
    check_info(&s, &all, &said, quit)?;
    if let (Some(x), Some(info)) = (said.rounds_max, &said.info) {
        for (key, t) in info {
            if key == "Max iteration" {
                near(key, t, x as f64)?;
            }
        }
    }
    o.nt(!all.is_empty());
    o.label(NAMES[c.kind as usize]);
    o.label_if(c.m > 1000, "thousands");
    Ok(())
}
fn check_sized_defaults(c: &SizeCase, o: &mut Obs) -> Res {
    let (few, all, s) = size_calls(c);
    let (a, b) = (prepared(c.kind, &s, &few)?, prepared(c.kind, &s, &all)?);
    let alike = match (&a.info, &b.info) {
        (Some(x), Some(y)) => x.len() == y.len() && x.iter().zip(y).all(|((k, t), (l, u))| k == l && (t == u || matches!((number(t), number(u)), (Ok(t), Ok(u)) if close(t, u, 1e-12)))),
        (x, y) => x.is_none() && y.is_none(),
    };
    ensure!(alike, "{} rows, {few:?} and {all:?} report {:?} and {:?}", c.m, a.info, b.info);
    let r = |x: &Said| x.rounds_max.map(|x| x as f64);
    ensure!(r(&a).zip(r(&b)).map_or(r(&a).is_none() == r(&b).is_none(), |(x, y)| close(x, y, 1e-12)), "{} rows, {few:?} and {all:?}: {:?} and {:?} rounds", c.m, a.rounds_max, b.rounds_max);
    o.nt(few.len() < all.len());
    o.label(NAMES[c.kind as usize]);
    o.label_if(c.m > 1000, "thousands");
    Ok(())
}

// ---------------------------------------------------------------- base learners

#[derive(Debug, Clone, Serialize, Deserialize)]
struct LearnerCase {
    t: trees::TreeCase,
    order: u8,
    decoy: bool,
    /// thousandths
    lambda: u16,
    bins: Vec<u8>,
    /// batch, iterations, epochs
    net: (u8, u8, u8),
    layers: usize,
}
fn learner_case() -> BoxedStrategy<LearnerCase> {
    (trees::tree_case(2..=12, false), any::<u8>(), any::<bool>(), 1u16..5000, prop::collection::vec(1u8..20, 5), (1u8..200, 1u8..200, 1u8..200), 1usize..5)
        .prop_map(|(t, order, decoy, lambda, bins, net, layers)| LearnerCase { t, order, decoy, lambda, bins, net, layers })
        .boxed()
}
/// The k-th permutation of 0..n.
fn perm(mut k: usize, n: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    let mut v = vec![];
    for i in (1..=n).rev() {
        v.push(left.remove(k % i));
        k /= i;
    }
    v
}
fn lines(name: &str, i: Option<Vec<(&str, String)>>) -> Result<Vec<(String, String)>, String> {
    owned(i).ok_or_else(|| format!("{name} says nothing about itself"))
}
fn sorted(t: &str) -> Vec<&str> {
    let mut v: Vec<&str> = t.lines().collect();
    v.sort();
    v
}
fn check_learner(c: &LearnerCase, o: &mut Obs) -> Res {
    let (s, _, names, _) = c.t.build(c.t.sparse);
    let depth = c.t.depth as usize;
    let crit = c.t.crit % 4;
    let dtree = |k: usize, decoy: bool| {
        let mut b = DecisionTreeBuilder::new(&s);
        if decoy {
            b = b.max_depth(depth + 1).criterion(trees::criterion((crit + 1) % 4));
            b.set_nbins(&names[0], 2);
        }
        for step in perm(k, 2 + names.len()) {
            match step {
                0 => b = b.max_depth(depth),
                1 => b = b.criterion(trees::criterion(crit)),
                j => b.set_nbins(&names[j - 2], 1 + c.bins[(j - 2) % 5] as usize),
            }
        }
        b.build()
    };
    let (a, b) = (dtree(0, false), dtree(c.order as usize, c.decoy));
    let (ia, ib) = (lines("the tree learner", a.info())?, lines("the tree learner", b.info())?);
    ensure!(ia == ib, "the order of the settings changes the tree learner: {ia:?} against {ib:?}");
    for (k, t) in &ia {
        match k.as_str() {
            "Max depth" => near(k, t, depth as f64)?,
            "Split criterion" => {
                let word = ["entropy", "edge", "gini", "twoing"][crit as usize];
                ensure!(t.to_lowercase().contains(word), "`{k}` is reported as {t}, it is {word}");
            }
            "# of bins (max)" => {
                let most = (0..names.len()).map(|j| 1 + c.bins[j % 5] as usize).max().unwrap_or(0);
                // an equal-width partition may get a bin of its own for zero
                ensure!(number(t)? <= (most + 2) as f64 && number(t)? >= 1.0, "`{k}` is reported as {t}, at most {most} were asked for");
            }
            _ => {}
        }
    }
    let text = must("printing the tree learner", || format!("{a}"))?;
    for n in &names {
        ensure!(text.contains(n.as_str()), "the printed tree learner does not show column {n}");
    }
    ensure!(text.contains(&format!("epth: {depth}")), "the printed tree learner does not show its depth {depth}:\n{text}");
    ensure!(sorted(&text) == sorted(&format!("{b}")), "the order of the settings changes the tree learner:\n{text}\n{b}");

    let lambda = c.lambda as f64 / 1000.0;
    let rtree = |k: usize, decoy: bool| {
        let mut b = RegressionTreeBuilder::new(&s).loss(GBMLoss::L2);
        if decoy {
            b = b.max_depth(depth + 1).lambda_l2(lambda + 1.0).loss(GBMLoss::L1);
            b.set_nbins(&names[0], 2);
        }
        for step in perm(k, 3 + names.len()) {
            match step {
                0 => b = b.max_depth(depth),
                1 => b = b.lambda_l2(lambda),
                2 => b = b.loss(GBMLoss::L2),
                j => b.set_nbins(&names[j - 3], 1 + c.bins[(j - 3) % 5] as usize),
            }
        }
        b.build()
    };
    let (a, b) = (rtree(0, false), rtree(c.order as usize, c.decoy));
    let (ia, ib) = (lines("the regression tree learner", a.info())?, lines("the regression tree learner", b.info())?);
    ensure!(ia == ib, "the order of the settings changes the regression tree learner: {ia:?} against {ib:?}");
    for (k, t) in &ia {
        match k.as_str() {
            "Max depth" => near(k, t, depth as f64)?,
            "Split criterion" => ensure!(t.contains("L2"), "`{k}` is reported as {t}, it is the L2 loss"),
            "Regularization param." => near(k, t, lambda)?,
            _ => {}
        }
    }
    let text = must("printing the regression tree learner", || format!("{a}"))?;
    ensure!(names.iter().all(|n| text.contains(n.as_str())), "the printed regression tree learner does not show every column:\n{text}");
    ensure!(sorted(&text) == sorted(&format!("{b}")), "the order of the settings changes the regression tree learner:\n{text}\n{b}");

    let (batch, iter, epoch) = (c.net.0 as usize, c.net.1 as usize, c.net.2 as usize);
    let net = |k: usize, decoy: bool| {
        let mut b = NeuralNetwork::init(&s);
        if decoy {
            b = b.n_epoch(7).n_iter(8).minibatch_size(9);
        }
        for step in perm(k, 3 + c.layers) {
            b = match step {
                0 => b.n_epoch(epoch),
                1 => b.n_iter(iter),
                2 => b.minibatch_size(batch),
                _ => b.append(2, Activation::Id),
            };
        }
        b
    };
    let (a, b) = (net(0, false), net(c.order as usize, c.decoy));
    let (ia, ib) = (lines("the network", a.info())?, lines("the network", b.info())?);
    ensure!(ia == ib, "the order of the settings changes the network: {ia:?} against {ib:?}");
    for (k, t) in &ia {
        match k.as_str() {
            "Mini-batch size" => near(k, t, batch as f64)?,
            "Rounds per epoch" => near(k, t, iter as f64)?,
            "# of epochs" => near(k, t, epoch as f64)?,
            "# of layers" => near(k, t, c.layers as f64)?,
            _ => {}
        }
    }
    o.nt(names.len() >= 2 && (c.order > 0 || c.decoy));
    o.label_if(c.decoy, "overwritten");
    Ok(())
}

// ---------------------------------------------------------------- GBM and sample reader

#[derive(Debug, Clone, Serialize, Deserialize)]
struct GbmConf {
    p: crate::prog::ProgCase,
    tol: u16,
    decoy: u16,
    loss: bool,
    first: bool,
}
fn gbm_conf() -> BoxedStrategy<GbmConf> {
    (crate::prog::prog_case(9, 6, Just(None).boxed()), 1u16..1000, 1u16..1000, any::<bool>(), any::<bool>())
        .prop_map(|(p, tol, decoy, loss, first)| GbmConf { p, tol, decoy, loss, first })
        .boxed()
}
fn check_gbm_conf(c: &GbmConf, o: &mut Obs) -> Res {
    within(1, || {
        let s = c.p.g.sample();
        let conf = Conf { p: c.p.clone(), kind: KINDS, quit: None, kappa: 50, gamma: 20 };
        let loss = |b: bool| if b { GBMLoss::L2 } else { GBMLoss::L1 };
        let tol = c.tol as f64 / 1000.0;
        let mut a = GBM::init_with_loss(&s, loss(c.loss)).tolerance(tol);
        let b = GBM::init_with_loss(&s, loss(!c.loss)).tolerance(c.decoy as f64 / 1000.0);
        let mut b = if c.first { b.loss(loss(c.loss)).tolerance(tol) } else { b.tolerance(tol).loss(loss(c.loss)) };
        let (x, y) = (history(&mut a, &conf, &c.p.how, &s), history(&mut b, &conf, &c.p.how, &s));
        same("the same settings in another order", &x, &y)?;
        let (ia, ib) = (lines("gradient boosting", a.info())?, lines("gradient boosting", b.info())?);
        ensure!(ia == ib, "the order of the settings changes the report: {ia:?} against {ib:?}");
        let (m, n) = s.shape();
        for (k, t) in &ia {
            match k.as_str() {
                "# of examples" => near(k, t, m as f64)?,
                "# of features" => near(k, t, n as f64)?,
                "Tolerance" => near(k, t, tol)?,
                "Loss" => ensure!(t.contains(if c.loss { "L2" } else { "L1" }), "`{k}` is reported as {t}"),
                "Max iteration" => ensure!(x.dists.len() as f64 <= number(t)?, "{} rounds, the reported maximum is {t}", x.dists.len()),
                _ => {}
            }
        }
        o.nt(x.dists.len() >= 2);
        Ok(())
    })
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct ReadConf {
    cells: Vec<Vec<i8>>,
    header: bool,
    target: usize,
    order: u8,
    decoy: bool,
}
fn read_conf() -> BoxedStrategy<ReadConf> {
    (1usize..5, 1usize..6)
        .prop_flat_map(|(n, m)| (prop::collection::vec(prop::collection::vec(any::<i8>(), n + 1), m), any::<bool>(), 0..=n, any::<u8>(), any::<bool>()))
        .prop_map(|(cells, header, target, order, decoy)| ReadConf { cells, header, target, order, decoy })
        .boxed()
}
fn check_read(c: &ReadConf, o: &mut Obs) -> Res {
    let n = c.cells[0].len();
    // without a header the reader names the columns itself
    let names: Vec<String> = (0..n).map(|j| if c.header { format!("c{j}") } else { format!("column_{}", j + 1) }).collect();
    let mut text = if c.header { names.join(",") + "\n" } else { String::new() };
    for r in &c.cells {
        text += &(r.iter().map(|v| format!("{v}.0")).collect::<Vec<_>>().join(",") + "\n");
    }
    let f = Scratch::new("csv", text.as_bytes());
    let other = Scratch::new("csv", b"a,b\n1.0,2.0\n");
    let read = |k: usize, decoy: bool| {
        let mut b = SampleReader::<std::path::PathBuf, String>::default();
        if decoy {
            b = b.file(other.0.clone()).has_header(!c.header).target_feature("nothing".to_string());
        }
        for step in perm(k, 3) {
            b = match step {
                0 => b.file(f.0.clone()),
                1 => b.has_header(c.header),
                _ => b.target_feature(names[c.target].clone()),
            };
        }
        catch(|| b.read().map_err(|e| e.to_string()))
    };
    let (a, b) = (read(0, false), read(c.order as usize, c.decoy));
    let show = |r: &Result<Result<Sample, String>, String>| match r {
        Ok(Ok(s)) => format!("{:?} {:?}", s.target(), (0..s.shape().0).map(|i| s.at(i).0.to_vec()).collect::<Vec<_>>()),
        Ok(Err(e)) => format!("error {e}"),
        Err(_) => "panic".to_string(),
    };
    ensure!(show(&a) == show(&b), "the order of the settings changes the sample: {} against {}", show(&a), show(&b));
    o.nt(matches!(&a, Ok(Ok(_))) && (c.decoy || c.order % 6 != 0));
    Ok(())
}

// ---------------------------------------------------------------- P34: defaults

#[derive(Debug, Clone, Serialize, Deserialize)]
struct DefCase {
    c: Conf,
    /// which parameters are given
    given: [bool; 4],
}
fn def_case(mmax: usize) -> BoxedStrategy<DefCase> {
    (conf(mmax, 6), prop_oneof![1 => Just([false; 4]), 3 => any::<[bool; 4]>()]).prop_map(|(c, given)| DefCase { c, given }).boxed()
}
fn check_defaults(c: &DefCase, o: &mut Obs) -> Res {
    within(1, || {
        let k = &c.c;
        let y = k.p.g.labels();
        let m = y.len();
        let s = dense_sample(&[(0..m).map(|i| i as f64).collect()], &default_names(1), &y);
        let mf = m as f64;
        let tol = match k.kind {
            0 | 2 => 1.0 / (mf + 1.0),
            1 | 8 | 9 => 1.0 / mf,
            3 => 0.5,
            _ => 0.01,
        };
        // parameter, default
        let mut both = vec![
            (Call::Tol(if k.kind == 3 { k.kappa as f64 / 100.0 } else { k.tol() }), Call::Tol(tol)),
            (Call::Nu(k.p.nu()), Call::Nu(1.0)),
            (Call::Fw(k.p.fw), Call::Fw(1)),
            (Call::Gamma(k.gamma as f64 / 100.0), Call::Gamma(0.5)),
        ];
        both.retain(|(x, _)| has(k.kind, x));
        // LPBoost documents another tolerance than it uses; SmoothBoost's default gamma cannot be given
        let must_give = |x: &Call| matches!((k.kind, x), (5, Call::Tol(_)) | (3, Call::Gamma(_)));
        let mut few: Vec<Call> = vec![];
        let mut all: Vec<Call> = vec![];
        for (i, (v, d)) in both.iter().enumerate() {
            if c.given[i] || must_give(v) {
                few.push(*v);
                all.push(*v);
            } else {
                all.push(*d);
            }
        }
        // short runs suffice
        if k.kind < 3 {
            let q = Call::Quit(k.quit.unwrap_or(7) as usize);
            few.push(q);
            all.push(q);
        }
        let missing = both.len() - few.iter().filter(|x| !matches!(x, Call::Quit(_))).count();
        let (b0, h0, a0) = told(k, &s, &few);
        let (b1, h1, a1) = told(k, &s, &all);
        same(&format!("{few:?} against {all:?}"), &h0, &h1)?;
        ensure!(b0.info == b1.info && a0.info == a1.info, "{few:?} and {all:?} report {:?} and {:?}", a0.info, a1.info);
        ensure!(b0.rounds_max == b1.rounds_max && a0.rounds_max == a1.rounds_max && a0.terminated == a1.terminated, "{few:?} and {all:?}: {:?} and {:?}", (a0.rounds_max, a0.terminated), (a1.rounds_max, a1.terminated));
        o.nt(missing > 0 && h0.dists.len() >= 2);
        o.label(NAMES[k.kind as usize]);
        Ok(())
    })
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct ToolCase {
    t: trees::TreeCase,
    given: [bool; 4],
    folds: u8,
    /// hundredths
    ratio: u8,
    seed: u32,
    shuffle: bool,
}
fn tool_case() -> BoxedStrategy<ToolCase> {
    (prop_oneof![4 => trees::tree_case(2..=12, false), 1 => trees::tree_case(15..=60, false)], any::<[bool; 4]>(), 1u8..9, 1u8..100, any::<u32>(), any::<bool>())
        .prop_map(|(t, given, folds, ratio, seed, shuffle)| ToolCase { t, given, folds, ratio, seed, shuffle })
        .boxed()
}
fn check_tools(c: &ToolCase, o: &mut Obs) -> Res {
    let (s, _, _, _) = c.t.build(c.t.sparse);
    let depth = c.t.depth as usize;
    // trees: depth 2, entropy
    let dt = |all: bool| {
        let mut b = DecisionTreeBuilder::new(&s);
        if c.given[0] {
            b = b.max_depth(depth);
        } else if all {
            b = b.max_depth(2);
        }
        if c.given[1] {
            b = b.criterion(trees::criterion(c.t.crit % 4));
        } else if all {
            b = b.criterion(Criterion::Entropy);
        }
        b.build()
    };
    let (a, b) = (dt(false), dt(true));
    ensure!(lines("the tree learner", a.info())? == lines("the tree learner", b.info())?, "defaults: {:?}, explicit: {:?}", a.info(), b.info());
    let text = must("printing the tree learner", || format!("{a}"))?;
    ensure!(sorted(&text) == sorted(&format!("{b}")), "defaults:\n{text}\nexplicit:\n{b}");
    // regression trees: depth 2, lambda 0.01
    let rt = |all: bool| {
        let mut b = RegressionTreeBuilder::new(&s).loss(GBMLoss::L2);
        if c.given[0] {
            b = b.max_depth(depth);
        } else if all {
            b = b.max_depth(2);
        }
        if c.given[1] {
            b = b.lambda_l2(c.ratio as f64 / 100.0);
        } else if all {
            b = b.lambda_l2(0.01);
        }
        b.build()
    };
    let (a, b) = (rt(false), rt(true));
    ensure!(lines("the regression tree learner", a.info())? == lines("the regression tree learner", b.info())?, "defaults: {:?}, explicit: {:?}", a.info(), b.info());
    let p = vec![0.0; s.shape().0];
    let (fa, fb) = (must("training", || a.produce(&s, &p))?, must("training", || b.produce(&s, &p))?);
    ensure!(c.t.cols.len() > 1 || fa.predict_all(&s) == fb.predict_all(&s), "defaults: {:?}, explicit: {:?}", fa.predict_all(&s), fb.predict_all(&s));
    // cross validation: ratio 0.8, 5 folds, seed 1234, no shuffling
    let cv = |all: bool| {
        let mut b = CrossValidation::new(&s);
        if c.given[2] {
            b = b.train_ratio(c.ratio as f64 / 100.0);
        } else if all {
            b = b.train_ratio(0.8);
        }
        if c.given[3] {
            b = b.n_folds(c.folds as usize);
        } else if all {
            b = b.n_folds(5);
        }
        if c.given[0] {
            b = b.seed(c.seed as u64);
        } else if all {
            b = b.seed(1234);
        }
        if c.shuffle {
            b = b.shuffle();
        }
        // the rows in order
        let id = |x: &Sample| (0..x.shape().0).map(|i| x.at(i).0).collect::<Vec<_>>();
        b.map(|(x, y)| (id(&x), id(&y))).collect::<Vec<_>>()
    };
    let (x, z) = (catch(|| cv(false)), catch(|| cv(true)));
    ensure!(x.is_ok() == z.is_ok() && (x.is_err() || x == z), "folds by default: {x:?}, explicit: {z:?}");
    // the default minibatch fits into the sample
    let net = NeuralNetwork::init(&s).append(2, Activation::SoftMax(1.0)).n_epoch(1).n_iter(1);
    for (key, t) in lines("the network", net.info())? {
        if key == "Mini-batch size" {
            let v = number(&t)?;
            ensure!(v >= 1.0 && v <= s.shape().0 as f64 && v <= 128.0, "the default minibatch has {v} of {} rows", s.shape().0);
        }
    }
    o.nt(c.given.iter().any(|g| !g));
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct HeadCase {
    r: ReadConf,
}
fn check_no_header(c: &HeadCase, o: &mut Obs) -> Res {
    let n = c.r.cells[0].len();
    let text: String = c.r.cells.iter().map(|r| r.iter().map(|v| format!("{v}.0")).collect::<Vec<_>>().join(",") + "\n").collect();
    let f = Scratch::new("csv", text.as_bytes());
    let name = format!("Feat. [{}]", c.r.target % n + 1);
    let a = catch(|| SampleReader::<std::path::PathBuf, String>::default().file(f.0.clone()).target_feature(name.clone()).read().map_err(|e| e.to_string()));
    let b = catch(|| SampleReader::<std::path::PathBuf, String>::default().file(f.0.clone()).target_feature(name.clone()).has_header(false).read().map_err(|e| e.to_string()));
    let show = |r: &Result<Result<Sample, String>, String>| match r {
        Ok(Ok(s)) => format!("{:?} {:?}", s.target(), (0..s.shape().0).map(|i| s.at(i).0.to_vec()).collect::<Vec<_>>()),
        Ok(Err(e)) => format!("error {e}"),
        Err(_) => "panic".to_string(),
    };
    ensure!(show(&a) == show(&b), "without has_header: {}, with has_header(false): {}", show(&a), show(&b));
    o.nt(matches!(&a, Ok(Ok(_))));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P34",
        rule: "a booster run of at least two rounds with a parameter left at its default; a tree, cross-validation or reader with one",
        assumptions: &["runs on one worker thread are compared exactly"],
        subs: vec![sub("boosters", 100000, 1000000, || def_case(9), check_defaults), sub("sizes", 20000, 200000, size_case, check_sized_defaults), sub("tools", 100000, 1000000, tool_case, check_tools), sub("reader", 20000, 200000, || read_conf().prop_map(|r| HeadCase { r }).boxed(), check_no_header)],
    },
    Prop {
        id: "P33",
        rule: "a booster of at least two rounds configured by calls in another order or with overwritten values; a base learner with two columns likewise",
        assumptions: &["runs on one worker thread are compared exactly"],
        subs: vec![sub("boosters", 240000, 2400000, || conf_case(conf(9, 6)), check_conf), sub("large", 400, 8000, || conf_case(conf_rows(60, 250, 6)), check_conf), sub("sizes", 20000, 200000, size_case, check_sized_info), sub("learners", 120000, 1000000, learner_case, check_learner), sub("gbm", 40000, 400000, gbm_conf, check_gbm_conf), sub("reader", 40000, 300000, read_conf, check_read)],
    }]
}
