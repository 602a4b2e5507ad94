//! Reference optimum of the soft margin game, certified from both sides:
//! `lo` is the value of an explicit primal point, `hi` of an explicit dual point.
use crate::gen::capped_min;
use clarabel::algebra::*;
use clarabel::solver::*;

pub struct GameValue {
    pub lo: f64,
    pub hi: f64,
    #[allow(dead_code)]
    pub w: Vec<f64>,
    #[allow(dead_code)]
    pub d: Vec<f64>,
}

/// Projects onto {0<=d<=cap, sum d=1} by bisection on a shift.
pub fn project_capped(d: &[f64], cap: f64) -> Vec<f64> {
    let (mut lo, mut hi) = (-2.0f64, 2.0f64);
    let val = |t: f64| d.iter().map(|x| (x + t).clamp(0.0, cap)).sum::<f64>();
    for _ in 0..200 {
        let mid = 0.5 * (lo + hi);
        if val(mid) < 1.0 {
            lo = mid;
        } else {
            hi = mid;
        }
    }
    d.iter().map(|x| (x + hi).clamp(0.0, cap)).collect()
}

/// max_{w in simplex} min_{d in capped simplex} sum_i d_i sum_j w_j yh[j][i]
pub fn soft_margin_value(yh: &[Vec<f64>], nu: f64) -> GameValue {
    let n = yh.len();
    let m = yh[0].len();
    // variables: d (m), gamma.  min gamma  s.t. sum_i d_i yh[j][i] - gamma <= 0,
    // d_i <= 1/nu, -d_i <= 0, sum d = 1
    let nv = m + 1;
    let rows = n + 2 * m + 1;
    let mut colptr = vec![0usize];
    let mut rowval = vec![];
    let mut nzval = vec![];
    for i in 0..m {
        rowval.push(0);
        nzval.push(1.0);
        for (j, r) in yh.iter().enumerate() {
            if r[i] != 0.0 {
                rowval.push(1 + j);
                nzval.push(r[i]);
            }
        }
        rowval.push(1 + n + i);
        nzval.push(1.0);
        rowval.push(1 + n + m + i);
        nzval.push(-1.0);
        colptr.push(rowval.len());
    }
    for j in 0..n {
        rowval.push(1 + j);
        nzval.push(-1.0);
    }
    colptr.push(rowval.len());
    let a = CscMatrix::new(rows, nv, colptr, rowval, nzval);
    let mut b = vec![0.0; rows];
    b[0] = 1.0;
    for i in 0..m {
        b[1 + n + i] = 1.0 / nu;
    }
    let mut q = vec![0.0; nv];
    q[m] = 1.0;
    let p = CscMatrix::<f64>::zeros((nv, nv));
    let cones = [ZeroConeT(1), NonnegativeConeT(rows - 1)];
    let settings = DefaultSettingsBuilder::default()
        .verbose(false)
        .tol_gap_abs(1e-11)
        .tol_gap_rel(1e-11)
        .tol_feas(1e-11)
        .build()
        .unwrap();
    let mut s = DefaultSolver::new(&p, &q, &a, &b, &cones, settings);
    s.solve();
    let d = project_capped(&s.solution.x[..m], 1.0 / nu);
    let hi = yh.iter().map(|r| r.iter().zip(&d).map(|(a, b)| a * b).sum::<f64>()).fold(f64::NEG_INFINITY, f64::max);
    let mut w: Vec<f64> = s.solution.z[1..1 + n].iter().map(|x| x.max(0.0)).collect();
    let t: f64 = w.iter().sum();
    if t > 0.0 {
        w.iter_mut().for_each(|x| *x /= t);
    } else {
        w = vec![1.0 / n as f64; n];
    }
    let margins: Vec<f64> = (0..m).map(|i| (0..n).map(|j| w[j] * yh[j][i]).sum()).collect();
    let lo = capped_min(&margins, nu);
    GameValue { lo, hi, w, d }
}

/// argmin over the 1/nu-capped simplex of <d, margins> + KL(d, uniform) / eta, by bisection on the normaliser
pub fn smooth_dist(margins: &[f64], eta: f64, nu: f64) -> Vec<f64> {
    let cap = 1.0 / nu;
    let m = margins.len() as f64;
    if nu >= m {
        return vec![cap; margins.len()];
    }
    let lo = margins.iter().cloned().fold(f64::INFINITY, f64::min);
    let l: Vec<f64> = margins.iter().map(|x| -eta * (x - lo)).collect();
    let least = l.iter().cloned().fold(0.0, f64::min);
    // largest entry is l = 0
    let d = |lam: f64| -> Vec<f64> { l.iter().map(|x| (x - lam).exp().min(cap)).collect() };
    let (mut a, mut b) = (least - 50.0 - m.ln(), m.ln() + 1.0);
    for _ in 0..300 {
        let c = 0.5 * (a + b);
        if c <= a || c >= b {
            break;
        }
        if d(c).iter().sum::<f64>() > 1.0 {
            a = c;
        } else {
            b = c;
        }
    }
    let mut r = d(0.5 * (a + b));
    let z: f64 = r.iter().sum();
    r.iter_mut().for_each(|x| *x = (*x / z).min(cap));
    r
}
/// Relative entropy to the uniform distribution.
pub fn kl_uniform(d: &[f64]) -> f64 {
    d.iter().map(|d| if *d > 0.0 { d * d.ln() } else { 0.0 }).sum::<f64>() + (d.len() as f64).ln()
}
pub fn smooth_value(margins: &[f64], eta: f64, nu: f64) -> f64 {
    let d = smooth_dist(margins, eta, nu);
    d.iter().zip(margins).map(|(d, x)| d * x).sum::<f64>() + kl_uniform(&d) / eta
}

/// Entropic programs over the 1/nu-capped simplex, by exponential cones; the lower bound is an explicit dual point.
/// `eta`: min over d of (largest row value) + KL(d, uniform) / eta
/// `level`: min over d of KL(d, uniform) subject to every row value <= level (which must be feasible)
pub enum Entropic {
    Eta(f64),
    Level(f64),
}
/// Returns the certified lower bound and the solver's own optimal value (tight when they agree).
pub fn entropic_lower_bound(yh: &[Vec<f64>], nu: f64, kind: Entropic) -> (f64, f64) {
    let n = yh.len();
    let m = yh[0].len();
    // variables: d (m), t (m), gamma
    let nv = 2 * m + 1;
    let rows = 1 + n + m + 3 * m;
    let mut trip: Vec<(usize, usize, f64)> = vec![]; // (col, row, value)
    let mut b = vec![0.0; rows];
    b[0] = 1.0;
    for i in 0..m {
        trip.push((i, 0, 1.0));
        for (j, r) in yh.iter().enumerate() {
            trip.push((i, 1 + j, r[i]));
        }
        trip.push((i, 1 + n + i, 1.0));
        b[1 + n + i] = 1.0 / nu;
        // (-t, d, 1) in the exponential cone: s = b - A x
        let e = 1 + n + m + 3 * i;
        trip.push((m + i, e, 1.0));
        trip.push((i, e + 1, -1.0));
        b[e + 2] = 1.0;
    }
    let mut q = vec![0.0; nv];
    match kind {
        Entropic::Eta(eta) => {
            for j in 0..n {
                trip.push((2 * m, 1 + j, -1.0));
            }
            q[2 * m] = 1.0;
            for i in 0..m {
                q[m + i] = 1.0 / eta;
            }
        }
        Entropic::Level(g) => {
            for j in 0..n {
                b[1 + j] = g;
            }
            for i in 0..m {
                q[m + i] = 1.0;
            }
        }
    }
    trip.sort_by(|a, b| (a.0, a.1).cmp(&(b.0, b.1)));
    let mut colptr = vec![0usize];
    let (mut rowval, mut nzval) = (vec![], vec![]);
    let mut k = 0;
    for c in 0..nv {
        while k < trip.len() && trip[k].0 == c {
            rowval.push(trip[k].1);
            nzval.push(trip[k].2);
            k += 1;
        }
        colptr.push(rowval.len());
    }
    let a = CscMatrix::new(rows, nv, colptr, rowval, nzval);
    let p = CscMatrix::<f64>::zeros((nv, nv));
    let mut cones = vec![ZeroConeT(1), NonnegativeConeT(n + m)];
    cones.extend((0..m).map(|_| ExponentialConeT()));
    let settings = DefaultSettingsBuilder::default().verbose(false).build().unwrap();
    let mut s = DefaultSolver::new(&p, &q, &a, &b, &cones, settings);
    s.solve();
    let mut w: Vec<f64> = s.solution.z[1..1 + n].iter().map(|x| if x.is_finite() { x.max(0.0) } else { 0.0 }).collect();
    let combine = |w: &[f64]| -> Vec<f64> { (0..m).map(|i| (0..n).map(|j| w[j] * yh[j][i]).sum()).collect() };
    let primal = s.solution.obj_val;
    match kind {
        Entropic::Eta(eta) => {
            let z: f64 = w.iter().sum();
            if z > 0.0 {
                w.iter_mut().for_each(|x| *x /= z);
            } else {
                w = vec![1.0 / n as f64; n];
            }
            (smooth_value(&combine(&w), eta, nu), primal + (m as f64).ln() / eta)
        }
        Entropic::Level(g) => (smooth_value(&combine(&w), 1.0, nu) - w.iter().sum::<f64>() * g, primal + (m as f64).ln()),
    }
}
