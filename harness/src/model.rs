//! A reference model of the documented (a)CMA-ES equations that follows an observed run. The
//! distribution is taken from the observations every generation; only the evolution paths and the
//! decomposition used are the model's own.

use crate::linalg::{jacobi, norm, Mat};
use crate::sim::{rank_cmp, Gen, Par, Snap};
use cmaes::{Mode, TerminationReason as R};

pub struct Model {
    pub par: Par,
    pub mode: Mode,
    pub ps: Vec<f64>,
    pub pc: Vec<f64>,
    /// Uncertainty of the paths
    pub perr: f64,
    /// The matrix the decomposition belongs to, its inverse square root and condition number
    pub ce: Mat,
    pub isq: Mat,
    pub cond: f64,
    /// Relative reconstruction error of the dependency's decomposition of `ce`
    pub deco_err: f64,
    /// Whether wrong decompositions of the dependency are not excepted
    pub trusting: bool,
    pub last_refresh: usize,
    pub alive: bool,
    pub why_dead: &'static str,
    /// Generations checked
    pub checked: u64,
    pub hs_zero: u64,
    pub refreshes: u64,
    pub neg_scaled: u64,
    pub worst: f64,
    pub ambiguous: u64,
    /// Number of completed generations
    pub completed: usize,
}

pub fn mat(n: usize, a: &[f64]) -> Mat {
    // Column-major and symmetric
    let mut m = Mat::zeros(n);
    for j in 0..n {
        for i in 0..n {
            m.set(i, j, a[j * n + i]);
        }
    }
    m
}

pub const DEPENDENCY: &str = "dependency";

/// The relative reconstruction error of nalgebra's eigendecomposition of the matrix, called directly.
/// It is wrong for rare matrices (see DESIGN.md), which the equations cannot be compared for.
pub fn dependency_error(n: usize, cov: &[f64]) -> f64 {
    let m = nalgebra::DMatrix::from_column_slice(n, n, cov);
    let max = m.amax();
    match nalgebra::SymmetricEigen::try_new(m.clone(), 1e-20, 0) {
        None => f64::INFINITY,
        Some(e) => {
            let r = &e.eigenvectors
                * nalgebra::DMatrix::from_diagonal(&e.eigenvalues)
                * e.eigenvectors.transpose();
            (r - m).amax() / max
        }
    }
}

pub fn chi_n(n: usize) -> f64 {
    let n = n as f64;
    n.sqrt() * (1.0 - 1.0 / (4.0 * n) + 1.0 / (21.0 * n * n))
}

impl Model {
    pub fn new(par: &Par, mode: Mode) -> Self {
        let n = par.dim;
        Model {
            par: par.clone(),
            mode,
            ps: vec![0.0; n],
            pc: vec![0.0; n],
            perr: 1e-15,
            ce: Mat::identity(n),
            isq: Mat::identity(n),
            cond: 1.0,
            deco_err: 0.0,
            trusting: false,
            last_refresh: 0,
            alive: true,
            why_dead: "",
            checked: 0,
            hs_zero: 0,
            refreshes: 0,
            neg_scaled: 0,
            worst: 0.0,
            ambiguous: 0,
            completed: 0,
        }
    }

    fn die(&mut self, why: &'static str) {
        self.alive = false;
        self.why_dead = why;
    }

    /// Checks one generation against the equations. `Ok` without a check if the model cannot follow.
    pub fn step(&mut self, prev: &Snap, g: &Gen) -> Result<(), String> {
        if !self.alive {
            return Ok(());
        }
        // Nothing happens in a failed generation
        if !g.complete() {
            return Ok(());
        }
        let cur = &g.snap;
        let p = self.par.clone();
        let n = p.dim;
        if g.evs.len() != p.lambda {
            self.die("evaluations are missing");
            return Ok(());
        }
        let sigma = prev.sigma;
        if !(sigma.is_finite() && sigma > 1e-290 && sigma < 1e290)
            || prev.mean.iter().any(|x| !(x.abs() < 1e280))
            || g.evs.iter().any(|e| e.x.iter().any(|x| !(x.abs() < 1e280)))
            || prev.cov.iter().any(|x| !(x.abs() < 1e250))
        {
            self.die("values left the floating-point range");
            return Ok(());
        }
        let mut evs: Vec<&crate::sim::Ev> = g.evs.iter().collect();
        evs.sort_by(|a, b| rank_cmp(self.mode, a.v, b.v));
        // Ranks of ties are unspecified
        for k in 1..evs.len() {
            if evs[k].v == evs[k - 1].v && evs[k].x != evs[k - 1].x {
                self.die("ties");
                return Ok(());
            }
        }
        let xmax = g
            .evs
            .iter()
            .flat_map(|e| e.x.iter())
            .chain(prev.mean.iter())
            .fold(0.0f64, |a, b| a.max(b.abs()));
        let y: Vec<Vec<f64>> = evs
            .iter()
            .map(|e| (0..n).map(|i| (e.x[i] - prev.mean[i]) / sigma).collect())
            .collect();
        let ymax = y.iter().flatten().fold(0.0f64, |a, b| a.max(b.abs()));
        // Absolute error of the steps reconstructed from the points
        let ey = 4.0 * f64::EPSILON * xmax / sigma;
        if ey > 1e-6 * ymax || ymax == 0.0 || !ymax.is_finite() {
            self.die("precision of the steps");
            return Ok(());
        }
        let wabs: f64 = p.w.iter().map(|w| w.abs()).sum::<f64>().max(1.0);
        let mut yw = vec![0.0; n];
        for (k, yk) in y.iter().take(p.mu).enumerate() {
            for i in 0..n {
                yw[i] += p.w[k] * yk[i];
            }
        }
        let fail = |what: &str, exp: f64, got: f64, tol: f64| {
            Err(format!(
                "generation {}: {} is {:e} where the equations give {:e} (tolerance {:e})",
                cur.generation, what, got, exp, tol
            ))
        };

        // Mean
        for i in 0..n {
            let exp = prev.mean[i] + p.cm * sigma * yw[i];
            let tol = p.cm * sigma * ey + 1e-12 * sigma * ymax * p.cm
                + 4.0 * f64::EPSILON * xmax.max(exp.abs());
            if !((exp - cur.mean[i]).abs() <= tol) {
                return fail(&format!("mean[{}]", i), exp, cur.mean[i], tol);
            }
        }

        // Path of the step size
        let s = (p.cs * (2.0 - p.cs) * p.mu_eff).sqrt();
        let iyw = self.isq.mulv(&yw);
        let isq_norm = self.isq.max_abs() * n as f64;
        let lin = (1e-14 + if self.trusting { 0.0 } else { 10.0 * self.deco_err }) * self.cond;
        let e_iyw = isq_norm * (ey + lin * norm(&yw)) + 1e-14 * norm(&iyw);
        let ps: Vec<f64> = (0..n)
            .map(|i| (1.0 - p.cs) * self.ps[i] + s * iyw[i])
            .collect();
        let ps_err = (1.0 - p.cs) * self.perr + s * e_iyw * (n as f64).sqrt() + 1e-15;
        let psn = norm(&ps);
        let cn = chi_n(n);

        // Step size
        let expo = (p.cs / p.ds) * (psn / cn - 1.0);
        let exp = sigma * expo.exp();
        if !(exp > 1e-290 && exp < 1e290) {
            self.die("values left the floating-point range");
            return Ok(());
        }
        let tol_rel = (p.cs / p.ds) * ps_err / cn * 2.0 + 1e-11 + 1e-14 * expo.abs();
        if tol_rel > 1e-3 {
            self.die("precision of the path");
            return Ok(());
        }
        let d = ((cur.sigma - exp) / exp).abs();
        if !(d <= tol_rel) {
            return fail("sigma", exp, cur.sigma, tol_rel * exp);
        }

        // Stall of the other path
        let lhs = psn / (1.0 - (1.0 - p.cs).powi(2 * (self.completed as i32 + 1))).sqrt();
        let rhs = (1.4 + 2.0 / (n as f64 + 1.0)) * cn;
        let slack = 1e-9 * rhs + 4.0 * ps_err;
        let candidates: Vec<f64> = if (lhs - rhs).abs() <= slack {
            self.ambiguous += 1;
            vec![1.0, 0.0]
        } else if lhs < rhs {
            vec![1.0]
        } else {
            vec![0.0]
        };

        // Covariance matrix
        let wsum: f64 = p.w.iter().sum();
        let mut rank_mu = Mat::zeros(n);
        let mut mu_scale = 0.0f64;
        let mut scale_err = 0.0f64;
        for (k, w) in p.w.iter().enumerate() {
            let mut wc = *w;
            if *w < 0.0 {
                let z = norm(&self.isq.mulv(&y[k]));
                wc *= n as f64 / (z * z);
                self.neg_scaled += 1;
                scale_err = scale_err.max(2.0 * (isq_norm * ey / z + 10.0 * lin));
            }
            for i in 0..n {
                for j in 0..n {
                    let v = rank_mu.at(i, j) + wc * y[k][i] * y[k][j];
                    rank_mu.set(i, j, v);
                }
            }
            mu_scale = mu_scale.max(wc.abs() * ymax * ymax);
        }
        let mu_scale = mu_scale * p.w.len() as f64;
        let mut first_err = None;
        let mut matched = None;
        for hs in candidates {
            let q = (p.cc * (2.0 - p.cc) * p.mu_eff).sqrt();
            let pc: Vec<f64> = (0..n)
                .map(|i| (1.0 - p.cc) * self.pc[i] + hs * q * yw[i])
                .collect();
            let dhs = (1.0 - hs) * p.cc * (2.0 - p.cc);
            let f = 1.0 + p.c1 * dhs - p.c1 - p.cmu * wsum;
            let cmax = prev.cov.iter().fold(0.0f64, |a, b| a.max(b.abs()));
            let pcn = norm(&pc);
            let tol = 1e-12 * (cmax * (1.0 + p.c1 + p.cmu * wabs) + p.c1 * pcn * pcn + p.cmu * mu_scale)
                + p.cmu * mu_scale * (2.0 * ey / ymax + scale_err + 10.0 * lin)
                + 2.0 * p.c1 * pcn * (self.perr + q * ey) ;
            if tol > 1e-3 * cmax {
                self.die("precision of the covariance matrix");
                return Ok(());
            }
            let mut err = None;
            'o: for i in 0..n {
                for j in 0..n {
                    let exp = f * prev.cov[j * n + i]
                        + p.c1 * pc[i] * pc[j]
                        + p.cmu * rank_mu.at(i, j);
                    let got = cur.cov[j * n + i];
                    let d = (exp - got).abs();
                    if !(d <= tol) {
                        err = Some(fail(&format!("covariance[{},{}]", i, j), exp, got, tol));
                        break 'o;
                    }
                    self.worst = self.worst.max(d / tol);
                }
            }
            match err {
                None => {
                    matched = Some((pc, hs));
                    break;
                }
                Some(e) => first_err = first_err.or(Some(e)),
            }
        }
        let (pc, hs) = match matched {
            Some(x) => x,
            None => return first_err.unwrap(),
        };
        if hs == 0.0 {
            self.hs_zero += 1;
        }
        self.perr = ps_err.max((1.0 - p.cc) * self.perr + 2.0 * ey + 1e-15);
        self.ps = ps;
        self.pc = pc;
        self.checked += 1;
        self.completed += 1;
        if g.has(R::PosDefCov) {
            self.die("indefinite covariance matrix");
            return Ok(());
        }
        if cur.evals >= self.last_refresh + p.eigen_interval() {
            self.last_refresh = cur.evals;
            self.refreshes += 1;
            self.ce = mat(n, &cur.cov);
            let e = jacobi(&self.ce);
            let (lo, hi) = (e.values[0], e.values[n - 1]);
            if !(lo > 0.0) {
                self.die("not positive definite");
                return Ok(());
            }
            self.cond = hi / lo;
            if self.cond > 1e9 {
                self.die("condition number");
                return Ok(());
            }
            self.isq = e.inv_sqrt();
            self.deco_err = dependency_error(n, &cur.cov);
            if self.deco_err > 1e-10 && !self.trusting {
                self.die(DEPENDENCY);
            }
        }
        Ok(())
    }
}
