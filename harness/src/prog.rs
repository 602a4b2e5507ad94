//! P22..P27: the boosters that solve a soft or hard margin program.
//! Oracle: the certified value of the game over the hypothesis pool (module lp).
use crate::boost;
use crate::boost::*;
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::lp::*;
use miniboosts::research::Research;
use miniboosts::prelude::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct ProgCase {
    pub g: Game,
    pub how: Pick,
    /// nu = 1 + (m - 1) * cap / 1000
    pub cap: u16,
    /// tolerance in thousandths; None: the default
    pub tol: Option<u16>,
    /// Frank-Wolfe rule
    pub fw: u8,
}
impl ProgCase {
    pub fn nu(&self) -> f64 {
        let m = self.g.m() as f64;
        // exact at both ends
        if self.cap >= 1000 {
            m
        } else {
            1.0 + (m - 1.0) * self.cap as f64 / 1000.0
        }
    }
}
fn cap() -> BoxedStrategy<u16> {
    prop_oneof![2 => Just(0u16), 6 => 0u16..=1000, 1 => 950u16..1000, 1 => Just(1000u16)].boxed()
}
pub fn prog_case(mmax: usize, nmax: usize, tol: BoxedStrategy<Option<u16>>) -> BoxedStrategy<ProgCase> {
    prog_case_rows(2, mmax, nmax, tol)
}
pub fn prog_case_rows(mmin: usize, mmax: usize, nmax: usize, tol: BoxedStrategy<Option<u16>>) -> BoxedStrategy<ProgCase> {
    (any::<bool>(), 1usize..=nmax)
        .prop_flat_map(move |(pm, n)| (game(mmin..=mmax, 1..=n, pm), pick(n), cap(), 0u8..4))
        .prop_flat_map(move |(g, how, cap, fw)| (Just(g), Just(how), Just(cap), tol.clone(), Just(fw)))
        .prop_map(|(mut g, how, cap, tol, fw)| {
            // no hypothesis is worse than guessing on the whole sample (later distributions may differ)
            for h in g.h.iter_mut() {
                let e: i32 = h.iter().zip(&g.y).map(|(v, y)| if *y { *v } else { -*v }).sum();
                if e < 0 {
                    h.iter_mut().for_each(|v| *v = -*v);
                }
            }
            ProgCase { g, how, cap, tol, fw }
        })
        .boxed()
}

/// The documented bound on the number of rounds of the entropy-regularised boosters.
fn bound_is(got: usize, m: usize, nu: f64, tol: f64) -> Res {
    let e2 = tol / 2.0;
    let (lo, hi) = boost::ceils((4.0 / e2).max(8.0 * (m as f64 / nu).ln() / (e2 * e2)));
    ensure!((lo.saturating_sub(1)..=hi).contains(&got), "max_loop() is {got} for {m} rows, nu {nu} and tolerance {tol}, the bound is {hi}");
    Ok(())
}
/// How much the interior-point solver may be off.
const SLACK: f64 = 1e-4;

struct Run<'a> {
    c: &'a ProgCase,
    s: &'a Sample,
    w: &'a Oracle,
    nu: f64,
    tol: f64,
}

/// What every soft margin booster promises about a finished run.
fn judge(r: &Run, f: &WeightedMajority<Table>, slack: f64, o: &mut Obs) -> Res {
    let m = r.c.g.m();
    let dists = r.w.dists.borrow();
    let picks = r.w.picks.borrow();
    let mut least = f64::INFINITY;
    for (t, d) in dists.iter().enumerate() {
        check_dist(d, m, 1.0 / r.nu, 1e-5).map_err(|e| format!("round {}: {e}", t + 1))?;
        least = least.min(edge(&picks[t].conf, &r.w.y, d));
    }
    for (i, x) in dists[0].iter().enumerate() {
        ensure!((x - 1.0 / m as f64).abs() < 1e-9, "round 1: row {i} has weight {x}, not 1/{m}");
    }
    check_simplex(&f.weights)?;
    for h in &f.hypotheses {
        ensure!(picks.contains(h), "the combined hypothesis contains hypothesis {} which was never received", h.id);
    }
    let got = capped_min(&margins_of(f, r.s), r.nu);
    ensure!(got >= least - r.tol - slack, "soft margin {got} at nu {} is below the smallest edge {least} minus the tolerance {}", r.nu, r.tol);
    let yh = r.c.g.yh();
    let v = soft_margin_value(&yh, r.nu);
    ensure!(v.hi - v.lo < 1e-6, "reference LP not certified: {} {}", v.lo, v.hi);
    ensure!(r.w.signed || got <= v.hi + 1e-6, "reference optimum {} below {got}", v.hi);
    if matches!(r.c.how, Pick::Best) && !r.w.signed {
        ensure!(got >= v.lo - r.tol - slack, "soft margin {got} at nu {}, the optimum is {} and the tolerance {}", r.nu, v.lo, r.tol);
        o.label("optimum");
    }
    o.nt(dists.len() >= 2 && f.hypotheses.len() >= 2);
    o.label_if(r.nu == 1.0, "nu=1");
    o.label_if(r.nu == m as f64, "nu=m");
    o.label_if(f.hypotheses.len() >= 3, "three-members");
    Ok(())
}

fn check_lpboost(c: &ProgCase, o: &mut Obs) -> Res {
    let s = c.g.sample();
    let m = c.g.m();
    let nu = c.nu();
    let tol = c.tol.map(|t| t as f64 / 1000.0).unwrap_or(1.0 / m as f64);
    let mut b = LPBoost::init(&s).nu(nu);
    if c.tol.is_some() {
        b = b.tolerance(tol);
    }
    // each answer that does not end the run is new
    let w = Oracle::new(&c.g, c.how.clone(), false, c.g.h.len() + 1);
    let f = must("the run", || b.run(&w))?;
    let r = Run { c, s: &s, w: &w, nu, tol };
    judge(&r, &f, SLACK, o)?;
    // every distribution minimises the largest edge of the hypotheses received before
    let dists = w.dists.borrow();
    let picks = w.picks.borrow();
    let mut least = f64::INFINITY;
    for t in 1..=dists.len() {
        let rows: Vec<Vec<f64>> = picks[..t].iter().map(|h| h.conf.iter().zip(&w.y).map(|(a, b)| a * b).collect()).collect();
        let v = soft_margin_value(&rows, nu);
        least = least.min(edge(&picks[t - 1].conf, &w.y, &dists[t - 1]));
        if t == dists.len() {
            ensure!(v.hi >= least - tol - SLACK, "stopped after round {t} with minimax edge {} while the smallest edge was {least} (tolerance {tol})", v.hi);
            break;
        }
        ensure!(v.lo < least - tol + SLACK, "went on after round {t} with minimax edge {} while the smallest edge was {least} (tolerance {tol})", v.lo);
        let worst = rows.iter().map(|r| r.iter().zip(&dists[t]).map(|(a, b)| a * b).sum::<f64>()).fold(f64::NEG_INFINITY, f64::max);
        ensure!(worst <= v.hi + SLACK, "round {}: a hypothesis received before has edge {worst}, the minimax edge is {}", t + 1, v.hi);
    }
    Ok(())
}

fn check_erlp(c: &ProgCase, o: &mut Obs) -> Res {
    let s = c.g.sample();
    let m = c.g.m();
    let nu = c.nu();
    let tol = c.tol.map(|t| t as f64 / 1000.0).unwrap_or(0.01);
    let mut b = ERLPBoost::init(&s).nu(nu);
    if c.tol.is_some() {
        b = b.tolerance(tol);
    }
    let e2 = tol / 2.0;
    let bound = (4.0 / e2).max(8.0 * (m as f64 / nu).ln() / (e2 * e2)).ceil() as usize;
    let w = Oracle::new(&c.g, c.how.clone(), false, bound + 1);
    let f = must("the run", || b.run(&w))?;
    let r = Run { c, s: &s, w: &w, nu, tol };
    judge(&r, &f, SLACK, o)
}

/// Round by round: each distribution minimises the regularised largest edge, and the run stops on its optimality gap.
fn check_erlp_rounds(c: &ProgCase, o: &mut Obs) -> Res {
    let s = c.g.sample();
    let m = c.g.m();
    let nu = c.nu();
    let tol = c.tol.map(|t| t as f64 / 1000.0).unwrap_or(0.01);
    let e2 = tol / 2.0;
    let eta = ((m as f64 / nu).ln() / e2).max(0.5);
    let mut b = ERLPBoost::init(&s).nu(nu);
    if c.tol.is_some() {
        b = b.tolerance(tol);
    }
    let bound = (4.0 / e2).max(8.0 * (m as f64 / nu).ln() / (e2 * e2)).ceil() as usize;
    let w = Oracle::new(&c.g, c.how.clone(), false, bound + 1);
    let y = c.g.labels();
    b.preprocess(&w);
    let (mut hat, mut star) = (1.0f64, -1.0f64);
    let mut rows: Vec<Vec<f64>> = vec![];
    let most = 30.min(bound);
    let (mut judged, mut far, mut last) = (0, 0, String::new());
    for t in 1..=most {
        let stop = must("the round", || b.boost(&w, t))?.is_break();
        let dists = w.dists.borrow();
        ensure!(dists.len() == t, "round {t} did not ask the base learner");
        let d = &dists[t - 1];
        let obj = |r: &[f64]| -> f64 { r.iter().zip(d).map(|(a, b)| a * b).sum() };
        if t > 1 {
            let f = rows.iter().map(|r| obj(r)).fold(f64::NEG_INFINITY, f64::max) + kl_uniform(d) / eta;
            let (lb, own) = entropic_lower_bound(&rows, nu, Entropic::Eta(eta));
            o.label_if(own - lb > GAP / 10.0, "reference-not-tight");
            if own - lb <= GAP / 10.0 {
                judged += 1;
                if f > lb + GAP {
                    far += 1;
                    last = format!("round {t}: the distribution has regularised largest edge {f}, the optimum is {lb}\n{d:?}");
                }
            }
            star = f;
        }
        let h = w.picks.borrow()[t - 1].clone();
        let r: Vec<f64> = h.conf.iter().zip(&y).map(|(a, b)| a * b).collect();
        hat = hat.min(obj(&r) + kl_uniform(d) / eta);
        rows.push(r);
        if stop {
            ensure!(hat - star <= e2 + GAP, "stopped in round {t} with gap {} above {e2}", hat - star);
            o.label("stopped");
            break;
        }
        ensure!(hat - star > e2 - GAP, "went on in round {t} with gap {} within {e2}", hat - star);
        o.nt(t >= 3);
    }
    mostly_close(judged, far, &last)
}
/// How far a sub-problem's solution may be from the optimum of its sub-problem.
/// (One in a hundred thousand sub-problems ends early because the interior-point solver gives up:
/// those are further off, so no single round is judged alone.)
const GAP: f64 = 1e-4;
fn mostly_close(judged: usize, far: usize, last: &str) -> Res {
    ensure!(judged < 4 || far * 4 < judged * 3, "{far} of {judged} rounds have a distribution away from the optimum of its program, the last: {last}");
    Ok(())
}

/// The same for SoftBoost and TotalBoost: each distribution is the one closest to uniform
/// on which every hypothesis received so far has an edge of at most the smallest edge minus the tolerance.
fn soft_rounds<B>(c: &ProgCase, mut b: B, nu: f64, o: &mut Obs) -> Res
where
    B: Booster<Table, Output = WeightedMajority<Table>>,
{
    let m = c.g.m();
    let tol = c.tol.map(|t| t as f64 / 1000.0).unwrap_or(1.0 / m as f64);
    let bound = (2.0 * (m as f64 / nu).ln() / (tol * tol)).max(1.0).ceil() as usize;
    let w = Oracle::new(&c.g, c.how.clone(), false, bound + 1);
    let y = c.g.labels();
    b.preprocess(&w);
    let mut hat = 1.0f64;
    let (mut judged, mut far, mut last) = (0, 0, String::new());
    let mut rows: Vec<Vec<f64>> = vec![];
    for t in 1..=30.min(bound) {
        let stop = must("the round", || b.boost(&w, t))?.is_break();
        let dists = w.dists.borrow();
        ensure!(dists.len() == t, "round {t} did not ask the base learner");
        let d = &dists[t - 1];
        let obj = |r: &[f64]| -> f64 { r.iter().zip(d).map(|(a, b)| a * b).sum() };
        if t > 1 {
            let level = hat - tol;
            let f = rows.iter().map(|r| obj(r)).fold(f64::NEG_INFINITY, f64::max);
            ensure!(f <= level + 1e-5, "round {t}: a hypothesis received before has edge {f}, above the smallest edge {hat} minus the tolerance {tol}");
            let (lb, own) = entropic_lower_bound(&rows, nu, Entropic::Level(level.max(f)));
            o.label_if(own - lb > GAP / 10.0, "reference-not-tight");
            if own - lb <= GAP / 10.0 {
                judged += 1;
                if kl_uniform(d) > lb + 10.0 * GAP {
                    far += 1;
                    last = format!("round {t}: the distribution has relative entropy {}, the optimum is {lb}\n{d:?}", kl_uniform(d));
                }
            }
        }
        let h = w.picks.borrow()[t - 1].clone();
        let r: Vec<f64> = h.conf.iter().zip(&y).map(|(a, b)| a * b).collect();
        hat = hat.min(obj(&r));
        rows.push(r);
        let v = soft_margin_value(&rows, nu);
        if stop {
            ensure!(v.hi > hat - tol - SLACK, "stopped in round {t} although a distribution lowers every edge to {} (smallest edge {hat}, tolerance {tol})", v.hi);
            o.label("stopped");
            break;
        }
        ensure!(v.lo <= hat - tol + SLACK, "went on in round {t} although no distribution lowers every edge below {} (smallest edge {hat}, tolerance {tol})", v.lo);
        o.nt(t >= 3);
    }
    mostly_close(judged, far, &last)
}
fn check_soft_rounds(c: &ProgCase, o: &mut Obs) -> Res {
    let s = c.g.sample();
    let mut b = SoftBoost::init(&s).nu(c.nu());
    if let Some(t) = c.tol {
        b = b.tolerance(t as f64 / 1000.0);
    }
    soft_rounds(c, b, c.nu(), o)
}
fn check_total_rounds(c: &ProgCase, o: &mut Obs) -> Res {
    let s = c.g.sample();
    let mut b = TotalBoost::init(&s);
    if let Some(t) = c.tol {
        b = b.tolerance(t as f64 / 1000.0);
    }
    soft_rounds(c, b, 1.0, o)
}

fn check_softboost(c: &ProgCase, o: &mut Obs) -> Res {
    let s = c.g.sample();
    let m = c.g.m();
    let nu = c.nu();
    let tol = c.tol.map(|t| t as f64 / 1000.0).unwrap_or(1.0 / m as f64);
    let mut b = SoftBoost::init(&s).nu(nu);
    if c.tol.is_some() {
        b = b.tolerance(tol);
    }
    let bound = (2.0 * (m as f64 / nu).ln() / (tol * tol)).max(1.0).ceil() as usize;
    let (lo, hi) = boost::ceils((2.0 * (m as f64 / nu).ln() / (tol * tol)).max(1.0));
    let got = b.max_loop();
    ensure!((lo.saturating_sub(1)..=hi).contains(&got), "max_loop() is {got} for {m} rows, nu {nu} and tolerance {tol}, the bound is {hi}");
    let w = Oracle::new(&c.g, c.how.clone(), false, bound + 1);
    let f = must("the run", || b.run(&w))?;
    let r = Run { c, s: &s, w: &w, nu, tol };
    judge(&r, &f, SLACK, o)
}

fn check_totalboost(c: &ProgCase, o: &mut Obs) -> Res {
    let s = c.g.sample();
    let m = c.g.m();
    let tol = c.tol.map(|t| t as f64 / 1000.0).unwrap_or(1.0 / m as f64);
    let mut b = TotalBoost::init(&s);
    if c.tol.is_some() {
        b = b.tolerance(tol);
    }
    let bound = (2.0 * (m as f64).ln() / (tol * tol)).ceil() as usize;
    let w = Oracle::new(&c.g, c.how.clone(), false, bound + 1);
    let f = must("the run", || b.run(&w))?;
    let r = Run { c, s: &s, w: &w, nu: 1.0, tol };
    judge(&r, &f, SLACK, o)
}

fn fw(k: u8) -> FWType {
    match k % 4 {
        0 => FWType::Classic,
        1 => FWType::ShortStep,
        2 => FWType::LineSearch,
        _ => FWType::BlendedPairwise,
    }
}
fn check_cerlp(c: &ProgCase, o: &mut Obs) -> Res {
    let s = c.g.sample();
    let m = c.g.m();
    let nu = c.nu();
    let tol = c.tol.map(|t| t as f64 / 1000.0).unwrap_or(0.01);
    let mut b = CERLPBoost::init(&s).nu(nu).fw_type(fw(c.fw));
    if c.tol.is_some() {
        b = b.tolerance(tol);
    }
    bound_is(b.max_loop(), m, nu, tol)?;
    let e2 = tol / 2.0;
    let bound = (4.0 / e2).max(8.0 * (m as f64 / nu).ln() / (e2 * e2)).ceil() as usize;
    let w = Oracle::new(&c.g, c.how.clone(), false, bound + 1);
    let f = must("the run", || b.run(&w))?;
    o.label(["classic", "short-step", "line-search", "blended-pairwise"][(c.fw % 4) as usize]);
    let r = Run { c, s: &s, w: &w, nu, tol };
    judge(&r, &f, 1e-6, o)
}
fn check_mlp(c: &ProgCase, o: &mut Obs) -> Res {
    let s = c.g.sample();
    let m = c.g.m();
    let nu = c.nu();
    let tol = c.tol.map(|t| t as f64 / 1000.0).unwrap_or(0.01);
    let mut b = MLPBoost::init(&s).nu(nu).frank_wolfe(fw(c.fw));
    if c.tol.is_some() {
        b = b.tolerance(tol);
    }
    bound_is(b.max_loop(), m, nu, tol)?;
    let e2 = tol / 2.0;
    let bound = (4.0 / e2).max(8.0 * (m as f64 / nu).ln() / (e2 * e2)).ceil() as usize;
    let w = Oracle::new(&c.g, c.how.clone(), false, bound + 1);
    let f = must("the run", || b.run(&w))?;
    o.label(["classic", "short-step", "line-search", "blended-pairwise"][(c.fw % 4) as usize]);
    let r = Run { c, s: &s, w: &w, nu, tol };
    judge(&r, &f, 1e-6, o)
}

const RULES: [&str; 4] = ["classic", "short-step", "line-search", "blended-pairwise"];

/// Round by round: the distributions follow the combination, and each step follows its rule.
fn steps<B>(c: &ProgCase, mut b: B, mlp: bool, o: &mut Obs) -> Res
where
    B: Booster<Table, Output = WeightedMajority<Table>> + Research<Output = WeightedMajority<Table>>,
{
    let s = c.g.sample();
    let m = c.g.m();
    let nu = c.nu();
    let tol = c.tol.map(|t| t as f64 / 1000.0).unwrap_or(0.01);
    let e2 = tol / 2.0;
    let eta = ((m as f64 / nu).ln() / e2).max(0.5);
    let w = Oracle::new(&c.g, c.how.clone(), false, 80);
    let y = c.g.labels();
    let yh = |h: &Table| -> Vec<f64> { h.conf.iter().zip(&y).map(|(a, b)| a * b).collect() };
    b.preprocess(&w);
    let mut cur = vec![0.0; m];
    let mut rounds = 0;
    for t in 1..=80usize {
        let r = must("the round", || b.boost(&w, t))?;
        if w.dists.borrow().len() < t {
            break;
        }
        let dists = w.dists.borrow();
        let d = &dists[t - 1];
        let want = smooth_dist(&cur, eta, nu);
        for i in 0..m {
            ensure!((d[i] - want[i]).abs() <= 1e-7, "round {t}: row {i} has weight {}, the smoothed worst distribution of the current combination has {}\n got {d:?}\nwant {want:?}", d[i], want[i]);
        }
        if r.is_break() {
            o.label("stopped");
            break;
        }
        rounds += 1;
        let h = w.picks.borrow()[t - 1].clone();
        let a = yh(&h);
        let f = must("the current hypothesis", || b.current_hypothesis())?;
        check_simplex(&f.weights)?;
        let new = margins_of(&f, &s);
        let at = |x: f64| -> Vec<f64> { cur.iter().zip(&a).map(|(p, q)| p + x * (q - p)).collect() };
        if t == 1 {
            for i in 0..m {
                ensure!((new[i] - a[i]).abs() < 1e-9, "round 1: the combination is not the first hypothesis");
            }
        } else {
            let v0 = smooth_value(&cur, eta, nu);
            let v1 = smooth_value(&new, eta, nu);
            // the step each rule prescribes
            let step = match c.fw % 4 {
                0 => Some(2.0 / (t as f64 + 1.0)),
                1 => {
                    let numer: f64 = (0..m).map(|i| d[i] * (a[i] - cur[i])).sum();
                    let denom = (0..m).map(|i| (a[i] - cur[i]).abs()).fold(0.0, f64::max);
                    Some((numer / (eta * denom * denom)).clamp(0.0, 1.0))
                }
                _ => None,
            };
            if let Some(x) = step {
                let p = at(x);
                if mlp {
                    let v = smooth_value(&p, eta, nu);
                    ensure!(v1 >= v - 1e-7, "round {t}: smoothed margin {v1} after the update, the {} step alone gives {v}", RULES[(c.fw % 4) as usize]);
                } else {
                    for i in 0..m {
                        ensure!((new[i] - p[i]).abs() < 1e-7, "round {t}: row {i} has margin {}, the {} step of size {x} gives {}", new[i], RULES[(c.fw % 4) as usize], p[i]);
                    }
                }
            }
            if c.fw % 4 == 2 {
                for k in 0..=20 {
                    let v = smooth_value(&at(k as f64 / 20.0), eta, nu);
                    ensure!(v1 >= v - 1e-7, "round {t}: smoothed margin {v1} after the line search, step {} gives {v}", k as f64 / 20.0);
                }
            }
            if c.fw % 4 != 0 {
                ensure!(v1 >= v0 - 1e-7, "round {t}: the smoothed margin fell from {v0} to {v1}");
            }
        }
        cur = new;
    }
    o.nt(rounds >= 3);
    o.label(RULES[(c.fw % 4) as usize]);
    Ok(())
}
fn check_cerlp_steps(c: &ProgCase, o: &mut Obs) -> Res {
    let s = c.g.sample();
    let mut b = CERLPBoost::init(&s).nu(c.nu()).fw_type(fw(c.fw));
    if let Some(t) = c.tol {
        b = b.tolerance(t as f64 / 1000.0);
    }
    steps(c, b, false, o)
}
fn check_mlp_steps(c: &ProgCase, o: &mut Obs) -> Res {
    let s = c.g.sample();
    let mut b = MLPBoost::init(&s).nu(c.nu()).frank_wolfe(fw(c.fw));
    if let Some(t) = c.tol {
        b = b.tolerance(t as f64 / 1000.0);
    }
    steps(c, b, true, o)
}

fn tols(lo: u16) -> BoxedStrategy<Option<u16>> {
    prop_oneof![1 => Just(None), 6 => (lo..600u16).prop_map(Some)].boxed()
}
fn tols_set(lo: u16) -> BoxedStrategy<Option<u16>> {
    (lo..600u16).prop_map(Some).boxed()
}

fn tols_between(lo: u16, hi: u16) -> BoxedStrategy<Option<u16>> {
    prop_oneof![1 => Just(None), 8 => (lo..hi).prop_map(Some)].boxed()
}

pub fn props() -> Vec<Prop> {
    let rule = "a run of at least two rounds whose result has at least two members";
    let a: &[&str] = &["the interior-point solver may be off by 1e-4"];
    vec![
        Prop { id: "P22", rule, assumptions: a, subs: vec![sub("run", 300000, 4000000, || prog_case(10, 8, tols(1)), check_lpboost),
            sub("large", 15000, 300000, || prog_case_rows(25, 120, 10, tols(10)), check_lpboost),
            sub("huge", 1500, 30000, || prog_case_rows(130, 400, 8, tols_set(60)), check_lpboost),
                sub("thousands", 150, 3000, || prog_case_rows(1000, 2000, 5, tols_set(60)), check_lpboost)] },
        Prop { id: "P23", rule, assumptions: a, subs: vec![
            sub("run", 60000, 1200000, || prog_case(8, 8, tols_set(30)), check_erlp),
            sub("wide", 40000, 800000, || prog_case(20, 12, tols_between(5, 80)), check_erlp),
            sub("large", 8000, 160000, || prog_case_rows(25, 120, 10, tols_between(20, 200)), check_erlp),
            sub("huge", 1000, 20000, || prog_case_rows(130, 400, 8, tols_set(60)), check_erlp),
                sub("thousands", 150, 3000, || prog_case_rows(1000, 2000, 5, tols_set(60)), check_erlp),
            sub("rounds", 20000, 600000, || prog_case(12, 10, tols_between(5, 300)), check_erlp_rounds),
        ] },
        Prop { id: "P24", rule, assumptions: a, subs: vec![
            sub("run", 60000, 1200000, || prog_case(8, 8, tols(30)), check_softboost),
            sub("wide", 15000, 300000, || prog_case(20, 12, tols_between(10, 80)), check_softboost),
            sub("large", 250, 6000, || prog_case_rows(25, 120, 10, tols_between(30, 200)), check_softboost),
            sub("huge", 400, 8000, || prog_case_rows(130, 400, 8, tols_set(60)), check_softboost),
                sub("thousands", 100, 2000, || prog_case_rows(1000, 2000, 5, tols_set(60)), check_softboost),
            sub("rounds", 10000, 300000, || prog_case(12, 10, tols_between(10, 300)), check_soft_rounds),
        ] },
        Prop { id: "P25", rule, assumptions: a, subs: vec![
            sub("run", 30000, 1200000, || prog_case(8, 8, tols(30)), check_totalboost),
            sub("wide", 6000, 200000, || prog_case(20, 12, tols_between(10, 80)), check_totalboost),
            sub("large", 150, 4000, || prog_case_rows(25, 120, 10, tols_between(30, 200)), check_totalboost),
            sub("huge", 400, 8000, || prog_case_rows(130, 400, 8, tols_set(60)), check_totalboost),
                sub("thousands", 60, 1200, || prog_case_rows(1000, 2000, 5, tols_set(60)), check_totalboost),
            sub("rounds", 5000, 200000, || prog_case(12, 10, tols_between(10, 300)), check_total_rounds),
        ] },
        Prop { id: "P26", rule, assumptions: a, subs: vec![
            sub("run", 100000, 3000000, || prog_case(8, 8, tols_set(30)), check_cerlp),
            sub("wide", 15000, 800000, || prog_case(24, 14, tols_between(5, 80)), check_cerlp),
            sub("large", 10000, 200000, || prog_case_rows(25, 120, 10, tols_between(20, 200)), check_cerlp),
            sub("huge", 4000, 80000, || prog_case_rows(130, 400, 8, tols_set(60)), check_cerlp),
                sub("thousands", 600, 12000, || prog_case_rows(1000, 2000, 5, tols_set(60)), check_cerlp),
            sub("steps", 20000, 400000, || prog_case(12, 8, tols_between(2, 60)), check_cerlp_steps),
        ] },
        Prop { id: "P27", rule, assumptions: a, subs: vec![
            sub("run", 60000, 1200000, || prog_case(8, 8, tols_set(30)), check_mlp),
            sub("wide", 30000, 800000, || prog_case(24, 14, tols_between(5, 80)), check_mlp),
            sub("large", 10000, 200000, || prog_case_rows(25, 120, 10, tols_between(20, 200)), check_mlp),
            sub("huge", 1000, 20000, || prog_case_rows(130, 400, 8, tols_set(60)), check_mlp),
                sub("thousands", 400, 8000, || prog_case_rows(1000, 2000, 5, tols_set(60)), check_mlp),
            sub("steps", 20000, 400000, || prog_case(12, 8, tols_between(2, 60)), check_mlp_steps),
        ] },
    ]
}
