//! P06..P08: decision trees and regression trees.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use miniboosts::prelude::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Col {
    pub v: Vec<i16>,
    pub exp: i8,
    pub off: i32,
    pub nbins: Option<u16>,
}
/// Marks of columns with values up to the largest finite number, and next to the smallest.
pub const HUGE: i8 = 127;
pub const TINY: i8 = -127;
impl Col {
    pub fn vals(&self) -> Vec<f64> {
        if self.exp == HUGE {
            // up to the largest finite number
            let top = self.v.iter().map(|x| x.unsigned_abs()).max().unwrap_or(1).max(1) as f64;
            return self.v.iter().map(|&x| if x as f64 == top { f64::MAX } else if x as f64 == -top { f64::MIN } else { x as f64 / top * f64::MAX }).collect();
        }
        if self.exp == TINY {
            return self.v.iter().map(|&x| x as f64 * 1e-300).collect();
        }
        let s = 10f64.powi(self.exp as i32);
        self.v.iter().map(|&x| (self.off as f64 + x as f64) * s).collect()
    }
}
/// Columns of one length. Small integers, sometimes many distinct values, decimal scales, offsets.
pub fn cols(m: usize, max_n: usize, wide: bool, sparse_like: bool) -> BoxedStrategy<Vec<Col>> {
    let range = if wide { prop_oneof![1 => Just(2i16), 2 => Just(20), 4 => Just(1000), 2 => Just(30000)].boxed() } else { prop_oneof![2 => Just(2i16), 3 => Just(6), 2 => Just(1000)].boxed() };
    let col = (range, 0u32..4, prop_oneof![5 => Just(0i8), 1 => -4i8..0, 2 => -12i8..9], prop_oneof![6 => Just(0i32), 1 => -1000i32..1000], prop_oneof![4 => Just(None), 1 => (1u16..12).prop_map(Some), 1 => (1u16..400).prop_map(Some)])
        .prop_flat_map(move |(r, zeros, exp, off, nbins)| {
            let cell = prop_oneof![(zeros + if sparse_like { 2 } else { 0 }) => Just(0i16), 4 => -r..=r];
            prop::collection::vec(cell, m).prop_map(move |v| Col { v, exp, off: if sparse_like { 0 } else { off }, nbins })
        });
    prop::collection::vec(col, 1..=max_n).boxed()
}
/// Weights as (mantissa, negative binary exponent); mantissa 0 = zero weight.
pub fn weights(m: usize) -> BoxedStrategy<Vec<(u8, u8)>> {
    let uniform = Just(vec![(1u8, 0u8); m]);
    let mild = prop::collection::vec((prop_oneof![1 => Just(0u8), 6 => 1u8..100], Just(0u8)), m);
    let skew = prop::collection::vec((prop_oneof![1 => Just(0u8), 8 => 1u8..4], prop_oneof![2 => Just(0u8), 1 => 0u8..70, 1 => 45u8..120]), m);
    let equal = prop::collection::vec((prop_oneof![1 => Just(0u8), 4 => Just(1u8)], Just(0u8)), m);
    prop_oneof![1 => uniform.boxed(), 3 => mild.boxed(), 2 => skew.boxed(), 2 => equal.boxed()].boxed()
}
pub fn dist_of(w: &[(u8, u8)]) -> Vec<f64> {
    let mut v: Vec<f64> = w.iter().map(|&(a, e)| a as f64 * 2f64.powi(-(e as i32))).collect();
    if v.iter().all(|x| *x == 0.0) {
        v[0] = 1.0;
    }
    let s: f64 = v.iter().sum();
    v.iter_mut().for_each(|x| *x /= s);
    v
}

/// Another sample for a trained tree: rows mixed from the training rows, the tree's own thresholds (and
/// their neighbours) and far values; columns in another order, with a column the tree never saw.
/// With `sparse`, the same rows as svmlight (columns keep their index there).
/// Returns the sample and the value of a column of a row.
pub fn elsewhere(t: &T, names: &[String], vals: &[Vec<f64>], sparse: bool) -> Option<(Sample, Vec<Vec<f64>>)> {
    let mut st = 0x9e3779b97f4a7c15u64 ^ (vals.iter().flatten().fold(vals.len() as u64, |a, v| a.rotate_left(7) ^ v.to_bits()));
    let mut rnd = |n: usize| {
        st = st.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((st >> 33) as usize) % n
    };
    let mut thr: Vec<(String, f64)> = vec![];
    fn collect(t: &T, out: &mut Vec<(String, f64)>) {
        if let T::Branch { feat, thr, l, r } = t {
            out.push((feat.clone(), *thr));
            collect(l, out);
            collect(r, out);
        }
    }
    collect(t, &mut thr);
    let m = vals[0].len();
    let rows = m + 4;
    let mut q: Vec<Vec<f64>> = vec![];
    for (j, name) in names.iter().enumerate() {
        let own: Vec<f64> = thr.iter().filter(|(f, _)| f == name).map(|(_, t)| *t).collect();
        q.push(
            (0..rows)
                .map(|_| match rnd(6) {
                    0 | 1 if !own.is_empty() => {
                        let t = own[rnd(own.len())];
                        match rnd(3) {
                            0 => t,
                            1 => f64::from_bits(t.to_bits() + 1),
                            _ => f64::from_bits(t.to_bits().max(1) - 1),
                        }
                    }
                    2 => 0.0,
                    3 => [-1e300, 1e300, -1e9, 1e9][rnd(4)],
                    _ => vals[j][rnd(m)],
                })
                .collect(),
        );
    }
    let y = vec![1.0; rows];
    if sparse {
        // names are the positions in the file plus one
        let at: Vec<usize> = names.iter().map(|n| n.trim_start_matches("Feat. [").trim_end_matches(']').parse::<usize>().ok().map(|k| k - 1)).collect::<Option<_>>()?;
        let width = at.iter().max()? + 3;
        let mut cols = vec![vec![0.0; rows]; width];
        for (j, &k) in at.iter().enumerate() {
            cols[k] = q[j].clone();
            // a column that never occurs is not part of an svmlight sample
            if cols[k].iter().all(|v| *v == 0.0) {
                return None;
            }
        }
        cols[width - 2][0] = 3.0;
        Some((sparse_sample(&cols, &y), q))
    } else {
        let mut order: Vec<usize> = (0..names.len()).collect();
        for i in (1..order.len()).rev() {
            order.swap(i, rnd(i + 1));
        }
        let mut cols: Vec<Vec<f64>> = order.iter().map(|&j| q[j].clone()).collect();
        let mut nm: Vec<String> = order.iter().map(|&j| names[j].clone()).collect();
        let at = rnd(cols.len() + 1);
        cols.insert(at, (0..rows).map(|i| i as f64).collect());
        nm.insert(at, "unseen".into());
        Some((dense_sample(&cols, &nm, &y), q))
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct TreeCase {
    pub cols: Vec<Col>,
    pub y: Vec<bool>,
    pub w: Vec<(u8, u8)>,
    pub sparse: bool,
    pub depth: u8,
    pub crit: u8,
}
pub fn tree_case(ms: std::ops::RangeInclusive<usize>, wide: bool) -> BoxedStrategy<TreeCase> {
    (ms, any::<bool>(), 1usize..5)
        .prop_flat_map(move |(m, sparse, n)| {
            let labels = prop_oneof![4 => prop::collection::vec(any::<bool>(), m).boxed(), 1 => prop::collection::vec(prop::bool::weighted(0.9), m).boxed(), 1 => any::<bool>().prop_map(move |b| vec![b; m]).boxed()];
            (cols(m, n, wide, sparse), labels, weights(m), Just(sparse), prop_oneof![12 => 1u8..5, 2 => 5u8..10, 1 => 10u8..60], 0u8..4)
        })
        .prop_map(|(cols, y, w, sparse, depth, crit)| TreeCase { cols, y, w, sparse, depth, crit })
        .boxed()
}
/// Some columns of a case at the ends of the range of finite numbers.
pub fn extreme(cols: &mut [Col], mask: u16) {
    for (j, c) in cols.iter_mut().enumerate() {
        match (mask >> (2 * j)) & 3 {
            0 => {}
            1 => c.exp = TINY,
            k => {
                c.exp = HUGE;
                if k == 3 {
                    // one sign only
                    c.v.iter_mut().for_each(|x| *x = x.saturating_abs());
                }
            }
        }
    }
}
pub fn criterion(k: u8) -> Criterion {
    match k {
        0 => Criterion::Entropy,
        1 => Criterion::Edge,
        2 => Criterion::Gini,
        _ => Criterion::Twoing,
    }
}
impl TreeCase {
    pub fn labels(&self) -> Vec<f64> {
        self.y.iter().map(|&b| if b { 1.0 } else { -1.0 }).collect()
    }
    /// (sample, columns present, their names, their bins)
    pub fn build(&self, sparse: bool) -> (Sample, Vec<Vec<f64>>, Vec<String>, Vec<Option<u16>>) {
        build_cols(&self.cols, &self.labels(), sparse)
    }
}
pub fn build_cols(cols: &[Col], y: &[f64], sparse: bool) -> (Sample, Vec<Vec<f64>>, Vec<String>, Vec<Option<u16>>) {
    let mut vals: Vec<Vec<f64>> = cols.iter().map(|c| c.vals()).collect();
    let mut nb: Vec<Option<u16>> = cols.iter().map(|c| c.nbins).collect();
    if sparse {
        // a sample needs at least one column
        if vals.iter().all(|c| c.iter().all(|x| *x == 0.0)) {
            vals[0][0] = 1.0;
        }
        let s = sparse_sample(&vals, y);
        let live: Vec<usize> = (0..vals.len()).filter(|&j| vals[j].iter().any(|x| *x != 0.0)).collect();
        let names = live.iter().map(|j| format!("Feat. [{}]", j + 1)).collect();
        nb = live.iter().map(|&j| nb[j]).collect();
        let v = live.iter().map(|&j| vals[j].clone()).collect();
        (s, v, names, nb)
    } else {
        let names = default_names(vals.len());
        let s = dense_sample(&vals, &names, y);
        (s, vals, names, nb)
    }
}

// ---------------------------------------------------------------- reading a serialised tree

#[derive(Debug, Clone)]
pub enum T {
    Leaf(f64),
    Branch { feat: String, thr: f64, l: Box<T>, r: Box<T> },
}
fn node(v: &Value, leaf_key: &str) -> Option<T> {
    if let Some(l) = v.get("Leaf") {
        return Some(T::Leaf(l.get(leaf_key)?.as_f64()?));
    }
    let b = v.get("Branch")?;
    let rule = b.get("rule")?;
    Some(T::Branch {
        feat: rule.get("feature")?.as_str()?.to_string(),
        thr: rule.get("threshold")?.as_f64()?,
        l: Box::new(node(b.get("left")?, leaf_key)?),
        r: Box::new(node(b.get("right")?, leaf_key)?),
    })
}
pub fn parse_tree<H: Serialize>(h: &H, leaf_key: &str) -> Option<T> {
    let v = serde_json::to_value(h).ok()?;
    node(v.get("root")?, leaf_key)
}
impl T {
    pub fn depth(&self) -> usize {
        match self {
            T::Leaf(_) => 0,
            T::Branch { l, r, .. } => 1 + l.depth().max(r.depth()),
        }
    }
    pub fn branches(&self) -> usize {
        match self {
            T::Leaf(_) => 0,
            T::Branch { l, r, .. } => 1 + l.branches() + r.branches(),
        }
    }
    pub fn value(&self, get: &dyn Fn(&str) -> Option<f64>) -> Option<f64> {
        match self {
            T::Leaf(c) => Some(*c),
            T::Branch { feat, thr, l, r } => {
                if get(feat)? < *thr {
                    l.value(get)
                } else {
                    r.value(get)
                }
            }
        }
    }
}

// ---------------------------------------------------------------- bins

/// Equal-width bin edges of a column with a tolerance around each edge.
pub struct Edges {
    pub e: Vec<f64>,
    pub tol: f64,
}
pub fn edges(col: &[f64], nbins: Option<u16>) -> Edges {
    let mut s = col.to_vec();
    s.sort_by(|a, b| a.partial_cmp(b).unwrap());
    s.dedup();
    let n = nbins.map(|x| x as usize).unwrap_or(s.len().min(255));
    let (mut lo, mut hi) = (s[0], s[s.len() - 1]);
    if lo == hi {
        lo -= 0.001;
        hi += 0.001;
    }
    // halves: the range may exceed the largest number
    let w = (hi / 2.0 - lo / 2.0) / n as f64;
    let mag = lo.abs().max(hi.abs());
    let e = (1..n).map(|k| 2.0 * (lo / 2.0 + k as f64 * w)).collect();
    Edges { e, tol: 1e-9 * hi - 1e-9 * lo + 1e-12 * mag }
}

/// For rows `idx` of a node: the partitions {x < edge} that no rounding of the edge can change
/// (as left-membership vectors over idx), for one column.
fn clear_partitions(col: &[f64], ed: &Edges, idx: &[usize]) -> Vec<Vec<bool>> {
    let mut vals: Vec<f64> = idx.iter().map(|&i| col[i]).collect();
    vals.sort_by(|a, b| a.partial_cmp(b).unwrap());
    vals.dedup();
    let mut out: Vec<Vec<bool>> = vec![];
    let mut last_pos = usize::MAX;
    for &e in &ed.e {
        let pos = vals.partition_point(|x| *x < e);
        if pos == 0 || pos == vals.len() || pos == last_pos {
            continue;
        }
        if (vals[pos - 1] - e).abs() <= ed.tol || (vals[pos] - e).abs() <= ed.tol {
            continue;
        }
        last_pos = pos;
        out.push(idx.iter().map(|&i| col[i] < e).collect());
    }
    out
}
/// Every partition {x < e'} with e' within the tolerance of some edge, for one column.
fn any_partitions(col: &[f64], ed: &Edges, idx: &[usize]) -> Vec<Vec<bool>> {
    let mut vals: Vec<f64> = idx.iter().map(|&i| col[i]).collect();
    vals.sort_by(|a, b| a.partial_cmp(b).unwrap());
    vals.dedup();
    let mut out: Vec<Vec<bool>> = vec![];
    let mut seen: Vec<usize> = vec![];
    for &e in &ed.e {
        let a = vals.partition_point(|x| *x < e - ed.tol);
        let b = vals.partition_point(|x| *x <= e + ed.tol);
        for pos in a..=b {
            if pos > 0 && pos < vals.len() && !seen.contains(&pos) {
                seen.push(pos);
                out.push(idx.iter().map(|&i| col[i] < vals[pos]).collect());
            }
        }
    }
    out
}
/// Is {x < thr} one of the equal-width partitions, up to rounding of the edges?
fn is_bin_partition(col: &[f64], ed: &Edges, idx: &[usize], thr: f64) -> bool {
    ed.e.iter().any(|&e| {
        idx.iter().all(|&i| {
            let x = col[i];
            if x < thr {
                x < e + ed.tol
            } else {
                x > e - ed.tol
            }
        })
    })
}

// ---------------------------------------------------------------- criteria

fn entropy2(a: f64, b: f64) -> f64 {
    let t = a + b;
    if t <= 0.0 {
        return 0.0;
    }
    [a / t, b / t].iter().map(|&p| if p <= 0.0 { 0.0 } else { -p * p.ln() }).sum()
}
fn gini2(a: f64, b: f64) -> f64 {
    let t = a + b;
    if t <= 0.0 {
        return 0.0;
    }
    1.0 - (a / t).powi(2) - (b / t).powi(2)
}
/// The larger the better. Weights: left +, left -, right +, right -, already normalised to sum 1.
fn crit_score(k: u8, lp: f64, ln: f64, rp: f64, rn: f64) -> f64 {
    let (l, r) = (lp + ln, rp + rn);
    match k {
        0 => -(l * entropy2(lp, ln) + r * entropy2(rp, rn)),
        1 => ((rp - rn) - (lp - ln)).abs(),
        2 => -(l * gini2(lp, ln) + r * gini2(rp, rn)),
        _ => {
            if l <= 0.0 || r <= 0.0 {
                return 0.0;
            }
            let s = (lp / l - rp / r).abs() + (ln / l - rn / r).abs();
            l * r / 4.0 * s * s
        }
    }
}

struct DtCtx<'a> {
    cols: &'a [Vec<f64>],
    names: &'a [String],
    eds: Vec<Edges>,
    y: &'a [f64],
    d: &'a [f64],
    crit: u8,
    max_depth: usize,
    optimality: bool,
    clear: usize,
    judged: usize,
    /// some node where rounding or a tie may decide between different splits of the weighted rows
    ambiguous: bool,
}
fn walk_dt(t: &T, idx: Vec<usize>, level: usize, c: &mut DtCtx) -> Res {
    let wp: f64 = idx.iter().filter(|&&i| c.y[i] > 0.0).map(|&i| c.d[i]).sum();
    let wn: f64 = idx.iter().filter(|&&i| c.y[i] < 0.0).map(|&i| c.d[i]).sum();
    let tot = wp + wn;
    ensure!(!idx.is_empty(), "a node receives no row of positive weight");
    let norm = |lp: f64, ln: f64, rp: f64, rn: f64| crit_score(c.crit, lp / tot, ln / tot, rp / tot, rn / tot);
    let score = |left: &dyn Fn(usize) -> bool| {
        let (mut lp, mut ln, mut rp, mut rn) = (0.0, 0.0, 0.0, 0.0);
        for (k, &i) in idx.iter().enumerate() {
            match (left(k), c.y[i] > 0.0) {
                (true, true) => lp += c.d[i],
                (true, false) => ln += c.d[i],
                (false, true) => rp += c.d[i],
                (false, false) => rn += c.d[i],
            }
        }
        norm(lp, ln, rp, rn)
    };
    let mut best: Option<(f64, usize)> = None;
    if c.optimality && tot > 1e-100 {
        for j in 0..c.cols.len() {
            for p in clear_partitions(&c.cols[j], &c.eds[j], &idx) {
                c.clear += 1;
                let s = score(&|k| p[k]);
                if best.is_none_or(|b| s > b.0) {
                    best = Some((s, j));
                }
            }
        }
    }
    if !c.ambiguous && level < c.max_depth && wp > 0.0 && wn > 0.0 {
        // all splits a rounded implementation could consider, with the chosen one
        let chosen: Option<Vec<bool>> = match t {
            T::Leaf(_) => None,
            T::Branch { feat, thr, .. } => c.names.iter().position(|n| n == feat).map(|j| idx.iter().map(|&i| c.cols[j][i] < *thr).collect()),
        };
        let own = chosen.as_ref().map(|p| score(&|k| p[k])).unwrap_or(norm(0.0, 0.0, wp, wn));
        let mut amb = tot <= 1e-100 || (chosen.is_some() && (own - norm(0.0, 0.0, wp, wn)).abs() < 1e-9);
        for j in 0..c.cols.len() {
            for p in any_partitions(&c.cols[j], &c.eds[j], &idx) {
                if chosen.as_ref() != Some(&p) && score(&|k| p[k]) > own - 1e-9 {
                    amb = true;
                }
            }
        }
        c.ambiguous = amb;
    }
    match t {
        T::Leaf(conf) => {
            let want = (wp - wn) / tot;
            ensure!((conf - want).abs() <= 1e-9, "leaf confidence {conf}; weights +{wp} -{wn} give {want}");
            if let Some((s, j)) = best {
                if level < c.max_depth {
                    let parent = norm(0.0, 0.0, wp, wn);
                    let impure = wp / tot > 1e-9 && wn / tot > 1e-9;
                    c.judged += 1;
                    ensure!(!(impure && s > parent + 1e-9), "an impure node at level {level} of {} stays a leaf although splitting column {j} improves the criterion from {parent} to {s}", c.max_depth);
                }
            }
            Ok(())
        }
        T::Branch { feat, thr, l, r } => {
            ensure!(level < c.max_depth, "branch at level {level}, maximum depth {}", c.max_depth);
            let Some(j) = c.names.iter().position(|n| n == feat) else {
                return Err(format!("the tree tests an unknown feature {feat:?}"));
            };
            let col = &c.cols[j];
            if c.optimality {
                ensure!(is_bin_partition(col, &c.eds[j], &idx, *thr), "threshold {thr} on {feat} is not a boundary of its equal-width bins");
                if let Some((s, bj)) = best {
                    let got = score(&|k| col[idx[k]] < *thr);
                    c.judged += 1;
                    ensure!(got >= s - 1e-9, "split on {feat} < {thr} scores {got}, column {bj} offers {s}");
                }
            }
            let (li, ri): (Vec<usize>, Vec<usize>) = idx.iter().partition(|&&i| col[i] < *thr);
            walk_dt(l, li, level + 1, c)?;
            walk_dt(r, ri, level + 1, c)
        }
    }
}

fn train_dt(s: &Sample, d: &[f64], names: &[String], nb: &[Option<u16>], depth: u8, crit: u8) -> Result<DecisionTreeClassifier, String> {
    must("training a decision tree", || {
        let mut b = DecisionTreeBuilder::new(s).max_depth(depth as usize).criterion(criterion(crit));
        for (n, k) in names.iter().zip(nb) {
            if let Some(k) = k {
                b.set_nbins(n.as_str(), *k as usize);
            }
        }
        let learner = b.build();
        // an earlier request must not matter
        if d.len() % 3 == 0 {
            let other: Vec<f64> = (0..d.len()).map(|i| d[(i + 1) % d.len()]).collect();
            let _ = learner.produce(s, &other);
        }
        learner.produce(s, d)
    })
}

fn check_tree(c: &TreeCase, o: &mut Obs, optimality: bool) -> Res {
    let (s, vals, names, nb) = c.build(c.sparse);
    let y = c.labels();
    let d = dist_of(&c.w);
    let m = y.len();
    let h = train_dt(&s, &d, &names, &nb, c.depth, c.crit)?;
    let conf = must("confidence_all", || h.confidence_all(&s))?;
    let pred = must("predict_all", || h.predict_all(&s))?;
    ensure!(conf.len() == m && pred.len() == m, "wrong number of outputs");
    let pos: Vec<usize> = (0..m).filter(|&i| d[i] > 0.0).collect();
    for i in 0..m {
        ensure!(conf[i].is_finite() && conf[i].abs() <= 1.0, "confidence {} on row {i}", conf[i]);
        ensure!(pred[i] == if conf[i] >= 0.0 { 1 } else { -1 }, "prediction {} with confidence {}", pred[i], conf[i]);
    }
    // one label only: the constant prediction
    if pos.iter().all(|&i| y[i] == y[pos[0]]) {
        for i in 0..m {
            ensure!((conf[i] - y[pos[0]]).abs() < 1e-9, "all weighted rows are labelled {}, row {i} gets confidence {}", y[pos[0]], conf[i]);
        }
        o.label("one label");
    }
    // never worse than the constant predictor on the training weights
    let err: f64 = pos.iter().filter(|&&i| (pred[i] as f64) != y[i]).map(|&i| d[i]).sum();
    let wp: f64 = pos.iter().filter(|&&i| y[i] > 0.0).map(|&i| d[i]).sum();
    ensure!(err <= wp.min(1.0 - wp) + 1e-9, "weighted error {err}, the constant predictor has {}", wp.min(1.0 - wp));
    let tree = parse_tree(&h, "confidence");
    let mut branches = 0;
    let mut ambiguous = true;
    if let Some(t) = &tree {
        branches = t.branches();
        ensure!(t.depth() <= c.depth as usize, "depth {}, maximum {}", t.depth(), c.depth);
        for i in 0..m {
            let v = t.value(&|f| names.iter().position(|n| n == f).map(|j| vals[j][i]));
            ensure!(v == Some(conf[i]), "row {i}: confidence {}, its leaf says {v:?}", conf[i]);
        }
        if !optimality {
            for sp in [false, c.sparse] {
                if let Some((q, qv)) = elsewhere(t, &names, &vals, sp) {
                    let conf = must("confidence_all on another sample", || h.confidence_all(&q))?;
                    for i in 0..qv[0].len() {
                        let v = t.value(&|f| names.iter().position(|n| n == f).map(|j| qv[j][i]));
                        ensure!(v == Some(conf[i]), "row {i} of another sample ({}): confidence {}, its leaf says {v:?}", if sp { "sparse" } else { "dense" }, conf[i]);
                        ensure!(h.predict(&q, i) == if conf[i] >= 0.0 { 1 } else { -1 }, "row {i} of another sample: wrong sign");
                    }
                    o.label_if(sp, "sparse query");
                }
            }
        }
        let mut ctx = DtCtx {
            cols: &vals,
            names: &names,
            eds: vals.iter().zip(&nb).map(|(c, n)| edges(c, *n)).collect(),
            y: &y,
            d: &d,
            crit: c.crit,
            max_depth: c.depth as usize,
            optimality,
            clear: 0,
            judged: 0,
            ambiguous: false,
        };
        walk_dt(t, pos.clone(), 0, &mut ctx)?;
        ambiguous = ctx.ambiguous;
        if optimality {
            o.nt(ctx.judged > 0 && ctx.clear > 1);
        }
    } else {
        o.label("tree not readable");
    }
    if !optimality {
        o.nt(m >= 3 && branches >= 1);
        // labels of rows without weight do not matter
        if !ambiguous && pos.len() < m {
            let mut y2 = y.clone();
            (0..m).filter(|&i| d[i] == 0.0).for_each(|i| y2[i] = -y2[i]);
            let (s2, _, n2, nb2) = build_cols(&c.cols, &y2, c.sparse);
            let h2 = train_dt(&s2, &d, &n2, &nb2, c.depth, c.crit)?;
            let conf2 = h2.confidence_all(&s2);
            ensure!(pos.iter().all(|&i| (conf[i] - conf2[i]).abs() < 1e-9), "labels of zero-weight rows change the tree: {conf:?} vs {conf2:?}");
            o.label("zero-weight rows relabelled");
        }
        // both representations give the same predictions
        if !ambiguous && c.sparse {
            let (s3, _, n3, nb3) = build_cols(&c.cols, &y, false);
            if s3.shape().1 == s.shape().1 && (0..m).all(|i| s3.at(i) == s.at(i)) {
                let h3 = train_dt(&s3, &d, &n3, &nb3, c.depth, c.crit)?;
                let conf3 = h3.confidence_all(&s3);
                ensure!(pos.iter().all(|&i| (conf[i] - conf3[i]).abs() < 1e-9), "sparse {conf:?} dense {conf3:?}");
                o.label("dense twin");
            }
        }
    }
    o.label(format!("depth used {}", tree.as_ref().map(|t| t.depth()).unwrap_or(0)));
    o.label(format!("{:?}", criterion(c.crit)));
    o.label_if(c.sparse, "sparse");
    o.label_if(d.iter().any(|x| *x > 0.0 && *x < 1e-15), "skewed weights");
    Ok(())
}

// ---------------------------------------------------------------- regression trees

/// A loss with tabulated derivatives: g(prediction) = a + b * prediction per row.
#[derive(Clone)]
struct TabLoss {
    g: Vec<f64>,
    h: Vec<f64>,
}
impl LossFunction for TabLoss {
    fn name(&self) -> &str {
        "tab"
    }
    fn eval_at_point(&self, p: f64, y: f64) -> f64 {
        (p - y).powi(2)
    }
    fn gradient(&self, _p: &[f64], _t: &[f64]) -> Vec<f64> {
        self.g.clone()
    }
    fn hessian(&self, _p: &[f64], _t: &[f64]) -> Vec<f64> {
        self.h.clone()
    }
    fn best_coefficient(&self, _r: &[f64], _p: &[f64]) -> f64 {
        1.0
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct RegCase {
    pub cols: Vec<Col>,
    pub y: Vec<i16>,
    pub p: Vec<i16>,
    pub hess: Vec<u8>,
    pub sparse: bool,
    pub depth: u8,
    pub loss: u8,
    pub lambda: Option<u16>, // hundredths
}
pub fn reg_case(ms: std::ops::RangeInclusive<usize>) -> BoxedStrategy<RegCase> {
    (ms, any::<bool>(), 1usize..5)
        .prop_flat_map(|(m, sparse, n)| {
            let yr = prop_oneof![1 => Just(1i16), 2 => Just(5), 2 => Just(2000)];
            (
                cols(m, n, false, sparse),
                yr.prop_flat_map(move |r| prop::collection::vec(-r..=r, m)),
                prop_oneof![Just(vec![0i16; m]).boxed(), prop::collection::vec(-20i16..20, m).boxed()],
                prop::collection::vec(0u8..5, m),
                Just(sparse),
                prop_oneof![12 => 1u8..6, 1 => 6u8..50],
                0u8..3,
                prop_oneof![2 => Just(None), 1 => Just(Some(0u16)), 3 => (1u16..500).prop_map(Some), 1 => (500u16..=u16::MAX).prop_map(Some)],
            )
        })
        .prop_map(|(cols, y, p, hess, sparse, depth, loss, lambda)| RegCase { cols, y, p, hess, sparse, depth, loss, lambda })
        .boxed()
}
struct RtCtx<'a> {
    cols: &'a [Vec<f64>],
    names: &'a [String],
    eds: Vec<Edges>,
    g: &'a [f64],
    h: &'a [f64],
    lam: f64,
    max_depth: usize,
    judged: usize,
}
fn walk_rt(t: &T, idx: Vec<usize>, level: usize, c: &mut RtCtx) -> Res {
    ensure!(!idx.is_empty(), "a node receives no row");
    let sum = |v: &[f64], it: &dyn Fn(usize) -> bool| idx.iter().enumerate().filter(|(k, _)| it(*k)).map(|(_, &i)| v[i]).sum::<f64>();
    let scale: f64 = idx.iter().map(|&i| c.g[i].abs()).sum::<f64>();
    let term = |g: f64, h: f64| if h + c.lam > 0.0 { g * g / (h + c.lam) } else { f64::NAN };
    let score = |left: &dyn Fn(usize) -> bool| {
        term(sum(c.g, left), sum(c.h, left)) + term(sum(c.g, &|k| !left(k)), sum(c.h, &|k| !left(k)))
    };
    let tol = 1e-9 * (1.0 + scale * scale / (0.01f64).max(c.lam));
    let mut best: Option<(f64, usize)> = None;
    for j in 0..c.cols.len() {
        for p in clear_partitions(&c.cols[j], &c.eds[j], &idx) {
            let s = score(&|k| p[k]);
            if s.is_nan() {
                continue;
            }
            if best.is_none_or(|b| s > b.0) {
                best = Some((s, j));
            }
        }
    }
    let all = |_: usize| true;
    let (g, h) = (sum(c.g, &all), sum(c.h, &all));
    match t {
        T::Leaf(v) => {
            if h + c.lam > 0.0 {
                let want = -g / (h + c.lam);
                let e = 1e-9 * (1.0 + scale / (h + c.lam));
                ensure!((v - want).abs() <= e, "leaf value {v}; gradient sum {g}, hessian sum {h}, lambda {} give {want}", c.lam);
                if let Some((s, j)) = best {
                    if level + 1 < c.max_depth {
                        c.judged += 1;
                        ensure!(s <= term(g, h) + tol, "a node at level {level} of {} stays a leaf although splitting column {j} raises the gain from {} to {s}", c.max_depth, term(g, h));
                    }
                }
            }
            Ok(())
        }
        T::Branch { feat, thr, l, r } => {
            ensure!(level < c.max_depth, "branch at level {level}, maximum depth {}", c.max_depth);
            let Some(j) = c.names.iter().position(|n| n == feat) else {
                return Err(format!("the tree tests an unknown feature {feat:?}"));
            };
            let col = &c.cols[j];
            ensure!(is_bin_partition(col, &c.eds[j], &idx, *thr), "threshold {thr} on {feat} is not a boundary of its equal-width bins");
            if let Some((s, bj)) = best {
                let got = score(&|k| col[idx[k]] < *thr);
                if !got.is_nan() {
                    c.judged += 1;
                    ensure!(got >= s - tol, "split on {feat} < {thr} scores {got}, column {bj} offers {s}");
                }
            }
            let (li, ri): (Vec<usize>, Vec<usize>) = idx.iter().partition(|&&i| col[i] < *thr);
            walk_rt(l, li, level + 1, c)?;
            walk_rt(r, ri, level + 1, c)
        }
    }
}
fn check_reg(c: &RegCase, o: &mut Obs) -> Res {
    let y: Vec<f64> = c.y.iter().map(|v| *v as f64 / 4.0).collect();
    // predictions never coincide with a target, so that the L1 gradient is defined
    let p: Vec<f64> = c.p.iter().map(|v| *v as f64 / 4.0 + 0.125).collect();
    let m = y.len();
    let (s, vals, names, nb) = build_cols(&c.cols, &y, c.sparse);
    let lam = match (c.lambda, c.loss) {
        (Some(0), 0) => 0.01, // hessian of L1 is zero: needs regularisation
        (Some(k), _) => k as f64 / 100.0,
        (None, _) => 0.01,
    };
    let (g, h): (Vec<f64>, Vec<f64>) = match c.loss {
        0 => ((0..m).map(|i| (p[i] - y[i]).signum()).collect(), vec![0.0; m]),
        1 => ((0..m).map(|i| p[i] - y[i]).collect(), vec![1.0; m]),
        _ => ((0..m).map(|i| p[i] * 2.0 - y[i]).collect(), c.hess.iter().map(|x| *x as f64 / 2.0).collect()),
    };
    macro_rules! train {
        ($loss:expr) => {
            must("training a regression tree", || {
                let mut b = RegressionTreeBuilder::new(&s).max_depth(c.depth as usize).loss($loss);
                if c.lambda.is_some() {
                    b = b.lambda_l2(lam);
                }
                for (n, k) in names.iter().zip(&nb) {
                    if let Some(k) = k {
                        b.set_nbins(n.as_str(), *k as usize);
                    }
                }
                let learner = b.build();
                if m % 3 == 0 {
                    let other: Vec<f64> = p.iter().map(|x| 1.5 - x).collect();
                    let _ = learner.produce(&s, &other);
                }
                learner.produce(&s, &p)
            })?
        };
    }
    let f: RegressionTreeRegressor = match c.loss {
        0 => train!(GBMLoss::L1),
        1 => train!(GBMLoss::L2),
        _ => train!(TabLoss { g: g.clone(), h: h.clone() }),
    };
    let out = must("predict_all", || f.predict_all(&s))?;
    ensure!(out.len() == m, "wrong number of predictions");
    if lam > 0.0 {
        ensure!(out.iter().all(|v| v.is_finite()), "non-finite prediction {out:?}");
    }
    if let Some(t) = parse_tree(&f, "prediction") {
        ensure!(t.depth() <= c.depth as usize, "depth {}, maximum {}", t.depth(), c.depth);
        for i in 0..m {
            let v = t.value(&|f| names.iter().position(|n| n == f).map(|j| vals[j][i]));
            ensure!(v == Some(out[i]), "row {i}: prediction {}, its leaf says {v:?}", out[i]);
        }
        for sp in [false, c.sparse] {
            if let Some((q, qv)) = elsewhere(&t, &names, &vals, sp) {
                let out = must("predict_all on another sample", || f.predict_all(&q))?;
                for i in 0..qv[0].len() {
                    let v = t.value(&|f| names.iter().position(|n| n == f).map(|j| qv[j][i]));
                    ensure!(v == Some(out[i]), "row {i} of another sample ({}): prediction {}, its leaf says {v:?}", if sp { "sparse" } else { "dense" }, out[i]);
                }
                o.label_if(sp, "sparse query");
            }
        }
        let mut ctx = RtCtx {
            cols: &vals,
            names: &names,
            eds: vals.iter().zip(&nb).map(|(c, n)| edges(c, *n)).collect(),
            g: &g,
            h: &h,
            lam,
            max_depth: c.depth as usize,
            judged: 0,
        };
        walk_rt(&t, (0..m).collect(), 0, &mut ctx)?;
        o.nt(m >= 3 && ctx.judged > 0);
        o.label(format!("depth used {}", t.depth()));
    } else {
        o.label("tree not readable");
    }
    if c.sparse && lam > 0.0 {
        let (s3, _, n3, nb3) = build_cols(&c.cols, &y, false);
        if s3.shape().1 == s.shape().1 && c.loss == 1 && (0..m).all(|i| s3.at(i) == s.at(i)) {
            let f3 = must("training a regression tree", || {
                let mut b = RegressionTreeBuilder::new(&s3).max_depth(c.depth as usize).loss(GBMLoss::L2);
                if c.lambda.is_some() {
                    b = b.lambda_l2(lam);
                }
                for (n, k) in n3.iter().zip(&nb3) {
                    if let Some(k) = k {
                        b.set_nbins(n.as_str(), *k as usize);
                    }
                }
                b.build().produce(&s3, &p)
            })?;
            let out3 = f3.predict_all(&s3);
            ensure!(out.iter().zip(&out3).all(|(a, b)| close(*a, *b, 1e-9)), "sparse {out:?} dense {out3:?}");
            o.label("dense twin");
        }
    }
    o.label(["L1", "L2", "custom loss"][c.loss as usize]);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P06",
            rule: "generated samples (dense/sparse columns over many scales), labels, distributions (uniform, mild, extremely skewed, zero weights), depth 1..59, four criteria, default and custom bin counts; the produced tree is re-routed row by row; non-trivial: >=3 rows and at least one branch.",
            assumptions: &["labels are +1/-1", "tree structure is read through its serde form; if unreadable only the black-box part is judged"],
            subs: vec![sub("structure", 750000, 4000000, || tree_case(1..=14, false), |c, o| check_tree(c, o, false)),
                sub("large", 20000, 80000, || tree_case(30..=420, false), |c, o| check_tree(c, o, false)),
                sub("extreme", 40000, 300000, || (tree_case(1..=20, true), 1u16..256).prop_map(|(mut c, k)| { extreme(&mut c.cols, k); c }).boxed(), |c, o| check_tree(c, o, false)),
                sub("thousands", 1500, 9000, || tree_case(1000..=3000, true).boxed(), |c, o| check_tree(c, o, false))],
        },
        Prop {
            id: "P07",
            rule: "as P06, and every node's split is compared with every equal-width partition of every column under the chosen criterion; non-trivial: at least one node judged against >=2 candidate partitions.",
            assumptions: &["candidate partitions that depend on how a bin edge is rounded are not held against the tree", "score tolerance 1e-9"],
            subs: vec![
                sub("optimal", 750000, 4000000, || tree_case(2..=14, false), |c, o| check_tree(c, o, true)),
                sub("wide", 25000, 150000, || tree_case(30..=420, true), |c, o| check_tree(c, o, true)),
                sub("extreme", 40000, 300000, || (tree_case(2..=20, true), 1u16..256).prop_map(|(mut c, k)| { extreme(&mut c.cols, k); c }).boxed(), |c, o| check_tree(c, o, true)),
                // weights of the size of the rounding errors of the others
                sub("residue", 200000, 3000000, || (4usize..=24).prop_flat_map(|m| (tree_case(m..=m, false), prop::collection::vec((1u8..5, prop_oneof![2 => Just(0u8), 2 => 48u8..60]), m))).prop_map(|(mut c, w)| { c.w = w; c }).boxed(), |c, o| check_tree(c, o, true)),
                sub("thousands", 1000, 8000, || tree_case(1000..=3000, true).boxed(), |c, o| check_tree(c, o, true)),
            ],
        },
        Prop {
            id: "P08",
            rule: "generated samples, targets, current predictions, losses (L1, L2, a custom loss with arbitrary gradients/hessians), lambda, depth, bins; leaf values and every split compared with definitions; non-trivial: >=3 rows and at least one node judged.",
            assumptions: &["lambda > 0 whenever the hessian of a node is zero", "candidate partitions that depend on how a bin edge is rounded are not held against the tree"],
            subs: vec![sub("regtree", 900000, 4000000, || reg_case(1..=14), check_reg), sub("wide", 30000, 150000, || reg_case(30..=300), check_reg),
                sub("extreme", 40000, 300000, || (reg_case(1..=20), 1u16..256).prop_map(|(mut c, k)| { extreme(&mut c.cols, k); c }).boxed(), check_reg), sub("thousands", 1000, 8000, || reg_case(1000..=3000).boxed(), check_reg)],
        },
    ]
}
