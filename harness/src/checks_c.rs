//! C11-C13: tolerance criteria, failing objectives, hostile values and settings.

use cmaes::{Mode, TerminationReason as R, Weights, MAX_HISTORY_LENGTH};
use std::sync::atomic::Ordering;
use std::time::Duration;

use crate::checks_a::{rich_cfg, rich_problem, BestMon};
use crate::core::*;
use crate::linalg::jacobi;
use crate::model::{dependency_error, mat, Model};
use crate::sim::*;
use crate::util::{bits_eq, median, Fnv, Rng};

// ---- C11 ------------------------------------------------------------------------------------

/// The value of a condition, `None` if rounding or an unspecified detail decides
type Tri = Option<bool>;

/// `a < b` unless they agree within the margin
fn less(a: f64, b: f64, margin: f64) -> Tri {
    if a.is_nan() || b.is_nan() {
        return None;
    }
    if a.is_infinite() || b.is_infinite() {
        return if a == b { None } else { Some(a < b) };
    }
    if (a - b).abs() <= margin {
        return None;
    }
    Some(a < b)
}

fn and(a: Tri, b: Tri) -> Tri {
    match (a, b) {
        (Some(false), _) | (_, Some(false)) => Some(false),
        (Some(true), Some(true)) => Some(true),
        _ => None,
    }
}

fn or(a: Tri, b: Tri) -> Tri {
    and(a.map(|x| !x), b.map(|x| !x)).map(|x| !x)
}

fn range(v: impl Iterator<Item = f64>) -> f64 {
    let (mut lo, mut hi) = (f64::INFINITY, f64::NEG_INFINITY);
    for x in v {
        lo = lo.min(x);
        hi = hi.max(x);
    }
    if lo.is_infinite() || hi.is_infinite() {
        return f64::NAN;
    }
    hi - lo
}

/// Whether adding the value changes nothing, with a relative margin on the value
fn no_effect(m: f64, v: f64) -> Tri {
    if !m.is_finite() || !v.is_finite() {
        return None;
    }
    let a = m == m + v * (1.0 - 1e-7);
    let b = m == m + v * (1.0 + 1e-7);
    // Steps up and down differ at powers of two
    let c = m == m - v * (1.0 - 1e-7);
    let d = m == m - v * (1.0 + 1e-7);
    if a == b && c == d && a == c {
        Some(a)
    } else {
        None
    }
}

pub struct Criteria {
    mode: Mode,
    par: Par,
    best: Vec<f64>,
    med: Vec<f64>,
    first_med: Option<f64>,
    best_med: Option<f64>,
    model: Option<Model>,
    /// Matrix of the decomposition in use with the eigenvalues it is known by
    eig: Vec<f64>,
    axes: Option<crate::linalg::Eigen>,
    axes_clear: bool,
    generation: usize,
    /// Check the costly conditions only every so many generations
    pub stride: usize,
    last: Vec<R>,
    /// Whether NoEffectCoord is judged
    pub coord: bool,
}

const TOLS: [R; 9] = [
    R::TolFun,
    R::TolFunRel,
    R::TolFunHist,
    R::TolX,
    R::TolStagnation,
    R::TolXUp,
    R::TolConditionCov,
    R::NoEffectAxis,
    R::NoEffectCoord,
];

impl Criteria {
    pub fn new(s: &Sim, with_model: bool) -> Self {
        let n = s.par.dim;
        Criteria {
            mode: s.cfg.mode,
            par: s.par.clone(),
            best: vec![],
            med: vec![],
            first_med: None,
            best_med: None,
            model: if with_model {
                Some(Model::new(&s.par, s.cfg.mode))
            } else {
                None
            },
            eig: s.last.eig.clone(),
            axes: Some(jacobi(&crate::linalg::Mat::identity(n))),
            axes_clear: false,
            generation: 0,
            stride: 1,
            last: vec![],
            coord: true,
        }
    }

    fn follow_axes(&mut self, s: &Snap) {
        let n = self.par.dim;
        if bits_eq(&self.eig, &s.eig) {
            return;
        }
        self.eig = s.eig.clone();
        self.axes = None;
        self.axes_clear = false;
        let m = mat(n, &s.cov);
        if !m.is_finite() {
            return;
        }
        let e = if n > 20 {
            // Only the lengths
            let mut v = s.eig.clone();
            v.sort_by(f64::total_cmp);
            crate::linalg::Eigen { values: v, vectors: crate::linalg::Mat::identity(n) }
        } else {
            jacobi(&m)
        };
        let top = e.values[n - 1];
        if !(e.values[0] > 1e-13 * top) || !(top > 1e-250 && top < 1e250) {
            return;
        }
        self.axes_clear = n == 1
            || n <= 20 && (e.values.windows(2).all(|w| w[1] - w[0] > 1e-5 * top)
                && dependency_error(n, &s.cov) < 1e-10);
        self.axes = Some(e);
    }

    /// The expected reasons after a complete generation
    pub fn step(&mut self, c: &mut Case, prev: &Snap, g: &Gen) -> Res {
        if !g.complete() {
            return Ok(());
        }
        let n = self.par.dim;
        let s = &g.snap;
        let mut vals: Vec<f64> = g.evs.iter().map(|e| e.v).collect();
        let mode = self.mode;
        vals.sort_by(|a, b| rank_cmp(mode, *a, *b));
        let l = vals.len();
        let m = if l % 2 == 1 {
            vals[l / 2]
        } else {
            let (a, b) = (vals[l / 2 - 1], vals[l / 2]);
            if a == b {
                a
            } else if (a / 2.0 + b / 2.0).is_nan() {
                b
            } else {
                a / 2.0 + b / 2.0
            }
        };
        self.best.push(vals[0]);
        self.med.push(m);
        self.first_med.get_or_insert(m);
        self.best_med = Some(match self.best_med {
            Some(b) if !better(mode, m, b) => b,
            _ => m,
        });
        if let Some(md) = self.model.as_mut() {
            // Deviations are the business of C05
            if md.step(prev, g).is_err() {
                md.alive = false;
            }
        }
        if g.has(R::PosDefCov) {
            return Ok(());
        }
        self.generation += 1;
        self.follow_axes(s);
        let rs = g.reasons();
        for (i, r) in rs.iter().enumerate() {
            if rs[..i].contains(r) {
                return Err(format!("generation {}: {:?} is reported twice", s.generation, r));
            }
        }
        let flipped = TOLS.iter().any(|r| rs.contains(r) != self.last.contains(r));
        self.last = rs.to_vec();
        if self.generation % self.stride != 0 && !flipped {
            return Ok(());
        }
        let p = &self.par;

        let win = 10 + (30.0 * n as f64 / p.lambda as f64).ceil() as usize;
        let (mut tf, mut tr, mut th) = (Some(false), Some(false), Some(false));
        if self.best.len() >= win {
            let w = &self.best[self.best.len() - win..];
            let rh = range(w.iter().cloned());
            let rc = range(vals.iter().cloned());
            let eps = |x: f64| 1e-13 * x.abs();
            th = less(rh, p.tol_fun_hist, eps(p.tol_fun_hist));
            tf = and(
                less(rh, p.tol_fun, eps(p.tol_fun)),
                less(rc, p.tol_fun, eps(p.tol_fun)),
            );
            let (f, b) = (self.first_med.unwrap(), self.best_med.unwrap());
            let t = p.tol_fun_rel * (f - b).abs();
            let e = eps(t) + p.tol_fun_rel * 1e-14 * (f.abs() + b.abs()) + 1e-320;
            tr = and(less(rh, t, e), less(rc, t, e));
            // Without any improvement nothing is smaller than the tolerance
            if f == b && f.is_finite() && l % 2 == 1 {
                tr = Some(false);
            }
        }

        let sd = |i: usize| s.sigma * s.cov[i * n + i].sqrt();
        let mut tx = (0..n).fold(Some(true), |a, i| {
            and(a, less(sd(i), p.tol_x, 1e-11 * p.tol_x))
        });
        match self.model.as_ref().filter(|m| m.alive) {
            Some(m) => {
                for i in 0..n {
                    let v = (s.sigma * m.pc[i]).abs();
                    let e = 1e-7 * p.tol_x + s.sigma * m.perr * 10.0 + 1e-9 * v;
                    let x = less(v, p.tol_x, e);
                    if tx == Some(true) && x == Some(false) {
                        c.count("tol_x_prevented_by_path", 1);
                    }
                    tx = and(tx, x);
                }
            }
            None => {
                if tx == Some(true) {
                    tx = None;
                }
            }
        }

        let cond = s.axis * s.axis;
        let tc = if !s.axis.is_finite() {
            Some(true)
        } else if !cond.is_normal() {
            None
        } else {
            less(p.tol_condition_cov, cond, 1e-11 * cond)
        };

        let top = s.eig.iter().cloned().fold(0.0f64, f64::max).sqrt();
        let up = s.sigma * top / p.sigma0;
        let txu = less(p.tol_x_up, up, 1e-11 * up.abs());

        // Any axis for soundness, all axes for completeness
        let (mut any_axis, mut all_axes) = (None, None);
        if let Some(e) = &self.axes {
            if self.axes_clear {
                any_axis = Some(false);
                all_axes = Some(true);
                for k in 0..n {
                    let len = 0.1 * s.sigma * e.values[k].sqrt();
                    let mut hold = Some(true);
                    for j in 0..n {
                        let b = e.vectors.at(j, k);
                        // Components of unclear size
                        let x = if n > 1 && b.abs() < 1e-4 {
                            let (lo, hi) = (no_effect(s.mean[j], 0.0), no_effect(s.mean[j], len * 1e-4));
                            if lo == hi { lo } else { None }
                        } else {
                            let d = 1e-9 / (if n > 1 { b.abs() } else { 1.0 });
                            let (x, y) = (
                                no_effect(s.mean[j], len * b * (1.0 + d)),
                                no_effect(s.mean[j], len * b * (1.0 - d)),
                            );
                            if x == y { x } else { None }
                        };
                        hold = and(hold, x);
                    }
                    any_axis = or(any_axis, hold);
                    all_axes = and(all_axes, hold);
                }
            } else {
                // Whatever the basis, a component of every axis has this length at least
                let lo = 0.1 * s.sigma * e.values[0].max(0.0).sqrt() / (n as f64).sqrt();
                let hi = 0.1 * s.sigma * e.values[n - 1].sqrt();
                let can_lo = s.mean.iter().all(|m| no_effect(*m, 0.9 * lo) == Some(false));
                let none_hi = s.mean.iter().all(|m| no_effect(*m, 1.1 * hi) == Some(true));
                if can_lo {
                    any_axis = Some(false);
                    all_axes = Some(false);
                } else if none_hi {
                    any_axis = Some(true);
                    all_axes = Some(true);
                }
            }
        }
        let axis = if any_axis == Some(false) {
            Some(false)
        } else if all_axes == Some(true) {
            Some(true)
        } else {
            None
        };

        let coord = |f: &dyn Fn(usize) -> f64| {
            (0..n).fold(Some(false), |a, i| {
                or(a, no_effect(s.mean[i], 0.2 * s.sigma * f(i)))
            })
        };
        let coord_sd = coord(&|i| s.cov[i * n + i].sqrt());
        let coord_var = coord(&|i| s.cov[i * n + i]);

        let gens = (self.generation / 5).min(MAX_HISTORY_LENGTH);
        let mut ts = Some(false);
        if gens >= p.tol_stagnation && gens >= 4 {
            let k = (gens as f64 * 0.3) as usize;
            let worse = |v: &Vec<f64>| -> Tri {
                let w = &v[v.len() - gens..];
                let old = median(&w[..k]);
                let new = median(&w[gens - k..]);
                let (a, b) = match mode {
                    Mode::Minimize => (old, new),
                    Mode::Maximize => (new, old),
                };
                if a == b || !a.is_finite() || !b.is_finite() {
                    return None;
                }
                less(a, b, 1e-13 * (a.abs() + b.abs()))
            };
            ts = and(worse(&self.best), worse(&self.med));
        }

        for (r, exp) in [
            (R::TolFun, tf),
            (R::TolFunRel, tr),
            (R::TolFunHist, th),
            (R::TolX, tx),
            (R::TolStagnation, ts),
            (R::TolXUp, txu),
            (R::TolConditionCov, tc),
            (R::NoEffectAxis, axis),
        ] {
            let got = g.has(r);
            match exp {
                None => c.count("undecided", 1),
                Some(e) => {
                    if e != got {
                        return Err(format!(
                            "generation {}: {:?} is {}reported; reasons {:?}, sigma {:e}, axis ratio {:e}, best {:e}, median {:e}",
                            s.generation, r, if got { "" } else { "not " }, rs, s.sigma, s.axis, vals[0], m
                        ));
                    }
                    if e {
                        c.count(
                            match r {
                                R::TolFun => "TolFun",
                                R::TolFunRel => "TolFunRel",
                                R::TolFunHist => "TolFunHist",
                                R::TolX => "TolX",
                                R::TolStagnation => "TolStagnation",
                                R::TolXUp => "TolXUp",
                                R::TolConditionCov => "TolConditionCov",
                                _ => "NoEffectAxis",
                            },
                            1,
                        );
                    } else {
                        c.count("not_reported", 1);
                    }
                }
            }
        }
        let got = g.has(R::NoEffectCoord);
        if !self.coord {
            // Left to C11
        } else if coord_sd.is_some_and(|e| e != got) {
            if coord_var.is_none_or(|e| e == got) {
                c.finding(
                    "noeffectcoord-variance",
                    format!(
                        "generation {}: NoEffectCoord is {}reported, as the variance is compared instead of the standard deviation; mean {:?} sigma {:e} first variance {:e}",
                        s.generation, if got { "" } else { "not " }, &s.mean[..1], s.sigma, s.cov[0]
                    ),
                );
            } else {
                return Err(format!(
                    "generation {}: NoEffectCoord is {}reported; mean {:?} sigma {:e} covariance {:?}",
                    s.generation, if got { "" } else { "not " }, s.mean, s.sigma, s.cov
                ));
            }
        } else if coord_sd.is_some() && got {
            c.count("NoEffectCoord", 1);
        }
        Ok(())
    }
}

fn tol_cfg(rng: &mut Rng) -> (Cfg, Problem, usize) {
    let n = if rng.chance(0.03) { rng.int(21, 80) } else { *rng.pick(&[1, 2, 2, 3, 4, 5, 8, 12]) };
    let mut cfg = rand_cfg_dim(rng, n);
    cfg.par_update = false;
    if rng.chance(0.5) {
        cfg.mean.iter_mut().for_each(|m| *m /= 100.0);
    }
    let mut p = Problem::new(rand_smooth(rng), *rng.pick(&[0.0, 0.5, 0.5]));
    let gens;
    match rng.below(10) {
        // Function value tolerances of every size
        0 | 1 => {
            cfg.tol_fun = Some(rng.log_range(1e-12, 1e3));
            cfg.tol_fun_hist = Some(rng.log_range(1e-12, 1e3));
            cfg.tol_fun_rel = Some(rng.log_range(1e-12, 0.9));
            gens = rng.int(30, 250);
        }
        // Flat functions
        2 => {
            p.fun = match rng.below(3) {
                0 => Fun::Const(*rng.pick(&[0.0, 1.0, -1e300])),
                1 => Fun::Plateau(rng.log_range(0.1, 10.0)),
                _ => Fun::Step(rng.log_range(0.1, 100.0)),
            };
            if rng.chance(0.5) {
                cfg.tol_fun = Some(*rng.pick(&[0.0, 1e-12, 1.0]));
                cfg.tol_fun_hist = Some(*rng.pick(&[0.0, 1e-12, 2.0]));
            }
            gens = rng.int(30, 150);
        }
        // Step size tolerances that are passed in both directions
        3 | 4 => {
            cfg.tol_x = Some(cfg.sigma * rng.log_range(1e-4, 2.0));
            cfg.tol_x_up = Some(rng.log_range(0.5, 100.0));
            if rng.chance(0.4) {
                p.fun = Fun::Noise;
            } else if rng.chance(0.3) {
                p.fun = Fun::Linear;
            }
            gens = rng.int(30, 250);
        }
        // Condition numbers
        5 => {
            p.fun = match rng.below(4) {
                0 => Fun::Elli(1e8),
                1 => Fun::Cigar,
                2 => Fun::Discus,
                _ => Fun::RotElli(1e6, 1),
            };
            cfg.tol_condition_cov = Some(rng.log_range(1.0, 1e7));
            gens = rng.int(50, 400);
        }
        // Stagnation
        6 | 7 => {
            cfg.tol_stagnation = Some(*rng.pick(&[0, 1, 3, 4, 5, 6, 10, 17, 40]));
            p.fun = match rng.below(6) {
                0 => Fun::Noise,
                1 => Fun::IntNoise(1000),
                2 => Fun::NoisySphere(1.0),
                3 => Fun::NegSphere,
                _ => Fun::Rastrigin,
            };
            gens = rng.int(30, 600);
        }
        // Convergence to the limit of precision
        8 => {
            let k = *rng.pick(&[1.0, 1e3, 1e6]);
            cfg.mean.iter_mut().for_each(|m| *m = k + *m / 1e3);
            p.shift = k;
            p.fun = match rng.below(4) {
                0 => Fun::Elli(1e4),
                1 => Fun::DiffPow,
                _ => Fun::Sphere,
            };
            cfg.sigma = *rng.pick(&[1.0, 1e-3, 1e-8]);
            gens = rng.int(100, 500);
        }
        // Divergence
        _ => {
            p.fun = rng.pick(&[Fun::NegAbs, Fun::Linear, Fun::NegSphere]).clone();
            cfg.tol_x_up = Some(rng.log_range(1.0, 1e12));
            gens = rng.int(50, 400);
        }
    }
    p.neg = cfg.mode == Mode::Maximize;
    if rng.chance(0.1) {
        p.faults.nan_hash = Some(rng.int(30, 300) as u64);
    }
    (cfg, p, gens.min(if n > 20 { 60 } else { gens }))
}

pub fn c11(ctx: &Ctx) {
    ctx.rule("step: runs whose tolerances are of the size of what happens in the run, on converging, diverging, flat, noisy, ill-conditioned and stagnating functions, continued past termination; after every generation the documented conditions are evaluated on the harness's own histories and compared with the reported reasons; near-ties are left undecided; non-trivial if some criterion was reported and not reported");
    ctx.cases("step", ctx.n(1600, 30000), |rng, c| {
        let (cfg, p, gens) = tol_cfg(rng);
        let api = rand_api(rng);
        c.desc = format!("{:?} {:?} {:?} gens={}", cfg, p, api, gens);
        let mut s = Sim::new(&cfg, &p)?;
        let mut m = Criteria::new(&s, true);
        let mut h = Fnv::new();
        let (mut hit, mut miss) = (0u64, 0u64);
        for _ in 0..gens {
            let prev = s.last.clone();
            let g = s.step(api.pick(rng));
            if g.complete() && !g.has(R::PosDefCov) {
                for r in TOLS {
                    if g.has(r) {
                        hit += 1;
                    } else {
                        miss += 1;
                    }
                }
            }
            m.step(c, &prev, &g)?;
            g.snap.hash(&mut h);
            c.count("generations", 1);
            if g.has(R::PosDefCov) {
                break;
            }
        }
        if hit > 0 && miss > 0 {
            c.nontrivial = Some(h.get());
        }
        Ok(())
    });
    ctx.rule("long: runs past the end of the value history (100000 generations and more), with the costly conditions evaluated in every 61st generation and wherever a reason appears or disappears");
    ctx.cases("long", ctx.n(8, 64), |rng, c| {
        let mut cfg = Cfg::new(vec![0.7; *rng.pick(&[1, 1, 2])], 0.5);
        cfg.lambda = Some(rng.int(2, 4));
        cfg.seed = Some(rng.u64());
        cfg.mode = rand_mode(rng);
        cfg.weights = Weights::Positive;
        // One in four runs is followed until the range of generations to judge is the whole history
        let whole = c.idx % 4 == 1;
        let fun = match c.idx % 4 {
            0 => Fun::IntNoise(1_000_000),
            1 => Fun::Noise,
            2 => Fun::NoisySphere(1.0),
            _ => Fun::Const(1.0),
        };
        cfg.tol_stagnation = Some(match c.idx % 3 {
            0 if !whole => 4,
            0 => 10_000,
            1 => 19_990,
            _ => MAX_HISTORY_LENGTH,
        });
        let mut p = Problem::new(fun, 0.0);
        if whole {
            cfg.mean.truncate(1);
            cfg.lambda = Some(rng.int(3, 5));
            // Mostly values that become worse
            let t = *rng.pick(&[1e-6, 1e-5, 1e-5, -1e-6]);
            p.faults.trend = if cfg.mode == Mode::Minimize { t } else { -t };
        }
        let gens = if ctx.thorough() || whole { rng.int(100_100, 102_500) } else { 26_000 };
        c.desc = format!("{:?} {:?} gens={}", cfg, p, gens);
        let mut s = Sim::new(&cfg, &p)?;
        let mut m = Criteria::new(&s, false);
        m.stride = 61;
        for _ in 0..gens {
            let prev = s.last.clone();
            let g = s.step(Api::Seq);
            m.step(c, &prev, &g)?;
            c.count("generations", 1);
            if g.has(R::PosDefCov) {
                break;
            }
        }
        if s.last.generation > 100_000 {
            c.count("judged_whole_history", 1);
        }
        let mut h = Fnv::new();
        s.last.hash(&mut h);
        c.nontrivial = Some(h.get());
        Ok(())
    });
    ctx.rule("axes: until the first decomposition the principal axes are the coordinate axes; in up to 300 dimensions with means that are huge in random coordinates, the generations that report NoEffectAxis must be those of looking at a different axis in every generation (in any order) or at all of them; non-trivial if it was both reported and not reported");
    ctx.cases("axes", ctx.n(60, 1500), |rng, c| {
        let n = match rng.below(3) {
            0 => rng.int(1, 40),
            1 => rng.int(41, 120),
            _ => rng.int(150, 300),
        };
        let mut cfg = rand_cfg_dim(rng, n);
        cfg.lambda = Some(rng.int(2, 6));
        cfg.sigma = 1.0;
        cfg.cm = None;
        let huge = match rng.below(4) {
            0 => 1,
            1 => n - 1,
            _ => rng.int(0, n),
        };
        let mut order: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            order.swap(i, rng.below(i + 1));
        }
        for (i, k) in order.iter().enumerate() {
            cfg.mean[*k] = if i < huge { rng.log_range(1e18, 1e30) } else { rng.range(-10.0, 10.0) };
        }
        let p = Problem::new(if rng.chance(0.5) { Fun::Noise } else { Fun::NoisySphere(1.0) }, 0.0);
        let api = rand_api(rng);
        c.desc = format!("dim={} huge={} {:?} {:?}", n, huge, Cfg { mean: vec![], ..cfg.clone() }, p);
        let mut s = Sim::new(&cfg, &p)?;
        let eig = s.last.eig.clone();
        // For every generation: whether it is reported and the axes that have an effect, if that is clear
        let mut seen: Vec<(bool, Vec<Tri>)> = vec![];
        for _ in 0..n {
            let g = s.step(api.pick(rng));
            if !g.complete() || g.has(R::PosDefCov) || !bits_eq(&g.snap.eig, &eig) {
                break;
            }
            let hold = g.snap.mean.iter().map(|m| no_effect(*m, 0.1 * g.snap.sigma)).collect();
            seen.push((g.has(R::NoEffectAxis), hold));
        }
        // A different axis in every generation?
        let fits = |i: usize, k: usize| seen[i].1[k].is_none_or(|h| h == seen[i].0);
        let mut owner: Vec<Option<usize>> = vec![None; n];
        fn place(i: usize, n: usize, fits: &dyn Fn(usize, usize) -> bool, owner: &mut [Option<usize>], tried: &mut [bool]) -> bool {
            for k in 0..n {
                if tried[k] || !fits(i, k) {
                    continue;
                }
                tried[k] = true;
                if owner[k].is_none_or(|j| place(j, n, fits, owner, tried)) {
                    owner[k] = Some(i);
                    return true;
                }
            }
            false
        }
        let each = (0..seen.len()).all(|i| place(i, n, &fits, &mut owner, &mut vec![false; n]));
        let all = seen.iter().all(|(got, h)| {
            h.iter().fold(Some(false), |a, x| or(a, *x)).is_none_or(|e| e == *got)
        });
        let yes = seen.iter().filter(|s| s.0).count();
        if !each && !all {
            return Err(format!(
                "NoEffectAxis is reported in {} of {} generations, although the mean is out of reach in {} of {} coordinates",
                yes, seen.len(), huge, n
            ));
        }
        c.count("axes_generations", seen.len() as u64);
        c.count("NoEffectAxis", yes as u64);
        if yes > 0 && yes < seen.len() {
            let mut h = Fnv::new();
            s.last.hash(&mut h);
            c.nontrivial = Some(h.get());
        }
        Ok(())
    });
    ctx.rule("coord: a run that meets the known finding about NoEffectCoord");
    ctx.serial("coord", 1, |_, c| {
        let mut cfg = Cfg::new(vec![3.0, 5.0], 1.0);
        cfg.seed = Some(7);
        c.desc = format!("{:?} ellipsoid", cfg);
        let mut s = Sim::new(&cfg, &Problem::new(Fun::Elli(1e8), 2.0))?;
        let mut m = Criteria::new(&s, true);
        for _ in 0..400 {
            let prev = s.last.clone();
            let g = s.step(Api::Seq);
            m.step(c, &prev, &g)?;
            if g.has(R::PosDefCov) {
                break;
            }
        }
        Ok(())
    });
}

// ---- C12 ------------------------------------------------------------------------------------

const NANS: [u64; 5] = [
    0x7ff8_0000_0000_0000,
    0xfff8_0000_0000_0000,
    0x7ff0_0000_0000_0001,
    0xfff0_0000_0000_0001,
    0x7fff_ffff_ffff_ffff,
];

fn opt_eq(a: &Option<(Vec<f64>, f64)>, b: &Option<(Vec<f64>, f64)>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => bits_eq(&a.0, &b.0) && a.1.to_bits() == b.1.to_bits(),
        _ => false,
    }
}

/// Judges a generation that did or did not fail
fn judge_failure(c: &mut Case, l: usize, prev: &Snap, g: &Gen, panics: bool) -> Res {
    let nans = g.evs.iter().filter(|e| e.v.is_nan()).count();
    let calls = g.evs.len();
    let s = &g.snap;
    if let Some(p) = &g.panic {
        if !panics {
            return Err(format!("a panic that was not injected: {}", p.text()));
        }
        s.same_except_evals(prev)
            .map_err(|w| format!("a panic in the objective changed the {}", w))?;
        // The panicking calls are not in the log, and may be counted or not
        if s.evals < prev.evals || s.evals > prev.evals + l {
            return Err(format!(
                "evaluations {} after a panic in a generation that began with {}",
                s.evals, prev.evals
            ));
        }
        c.count("panics", 1);
        return Ok(());
    }
    if nans > 0 {
        let reasons = g.reasons();
        if reasons != [R::InvalidFunctionValue] {
            return Err(format!(
                "a generation with {} NaN values reported {:?}",
                nans, reasons
            ));
        }
        s.same_except_evals(prev)
            .map_err(|w| format!("a generation with NaN values changed the {}", w))?;
        if s.evals != prev.evals + calls {
            return Err(format!(
                "evaluations {} after {} calls in a failing generation that began with {}",
                s.evals, calls, prev.evals
            ));
        }
        let t = g.term.as_ref().unwrap();
        if !opt_eq(&t.cur, &prev.cur) || !opt_eq(&t.best, &prev.best) || !bits_eq(&t.mean, &prev.mean) {
            return Err("the result of a failing generation differs from the state before it".into());
        }
        if calls > l || (g.api == Api::Seq && !g.evs[calls - 1].v.is_nan()) {
            return Err(format!("{} calls in a failing generation", calls));
        }
        c.count("failed_generations", 1);
    } else {
        if g.has(R::InvalidFunctionValue) {
            return Err(format!(
                "InvalidFunctionValue without a NaN value: {:?}",
                g.evs.iter().map(|e| e.v).collect::<Vec<_>>()
            ));
        }
        if calls != l {
            return Err(format!("{} calls in a generation of {}", calls, l));
        }
        if g.has(R::PosDefCov) {
            c.count("indefinite", 1);
        } else if s.generation != prev.generation + 1 || s.evals != prev.evals + l {
            return Err(format!(
                "generation {} -> {}, evaluations {} -> {} in a complete generation of {}",
                prev.generation, s.generation, prev.evals, s.evals, l
            ));
        }
        c.count("complete_generations", 1);
        if g.evs.iter().any(|e| e.v.is_infinite()) {
            c.count("generations_with_infinities", 1);
        }
    }
    Ok(())
}

pub fn c12(ctx: &Ctx) {
    ctx.rule("faults: random runs in which generations fail by NaN (all bit patterns, first/middle/last/all calls, the first generation, many in a row) or by a panic of the objective, sequential and parallel; the state is compared bit by bit, and the monitors of bests, equations and tolerance criteria follow the run across the failures; non-trivial if a failed generation was followed by a complete one");
    ctx.cases("faults", ctx.n(1400, 30000), |rng, c| {
        let mut cfg = rich_cfg(rng);
        if rng.chance(0.3) {
            cfg.max_evals = Some(rng.int(1, 600));
            cfg.max_gens = Some(rng.int(1, 40));
        }
        let mut p = Problem::new(rand_fun(rng), *rng.pick(&[0.0, 0.5]));
        p.neg = cfg.mode == Mode::Maximize;
        if rng.chance(0.2) {
            cfg.fun_target = Some(if p.neg { -1e-2 } else { 1e-2 });
        }
        let with_panics = rng.chance(0.6);
        let with_nan = !with_panics || rng.chance(0.5);
        let rate = *rng.pick(&[0.05, 0.2, 0.6]);
        let api = rand_api(rng);
        let gens = rng.int(5, 150);
        c.desc = format!(
            "{:?} {:?} {:?} gens={} panics={} nan={} rate={}",
            cfg, p, api, gens, with_panics, with_nan, rate
        );
        let mut s = Sim::new(&cfg, &p)?;
        let l = s.par.lambda;
        let mut best = BestMon::new(cfg.mode);
        let mut crit = Criteria::new(&s, !cfg.par_update);
        crit.coord = false;
        let mut model = Model::new(&s.par, cfg.mode);
        let mut failed_before = false;
        let mut failed_points: Vec<Vec<f64>> = vec![];
        let mut recovered = 0;
        let mut h = Fnv::new();
        let mut streak = 0;
        let mut indef = false;
        for gi in 0..gens {
            let prev = s.last.clone();
            let a = api.pick(rng);
            let fail = streak > 0 || rng.chance(rate) || (gi == 0 && rng.chance(0.4));
            if streak > 0 {
                streak -= 1;
            } else if fail && rng.chance(0.1) {
                streak = rng.int(1, 20);
            }
            let mut kind = 0;
            if fail {
                kind = match (with_nan, with_panics) {
                    (true, true) => *rng.pick(&[1, 1, 3, 2, 2, 4]),
                    (true, false) => *rng.pick(&[1, 1, 3]),
                    _ => *rng.pick(&[2, 2, 4]),
                };
            } else if rng.chance(0.1) {
                kind = 5;
            }
            s.rec
                .nan_bits
                .store(*rng.pick(&NANS), Ordering::SeqCst);
            let ahead = match rng.below(4) {
                0 => 0,
                1 => l - 1,
                _ => rng.below(l),
            };
            s.rec.fault(kind, ahead as u64);
            let before = s.rec.count();
            let g = s.step(a);
            let made = (s.rec.count() - before) as usize;
            if s.rec.inflight.load(Ordering::SeqCst) != 0 {
                return Err("calls are still running after the generation returned".into());
            }
            if let Some(pn) = &g.panic {
                // The payload is that of one of the panicking calls
                let k: Option<u64> = pn.msg.rsplit(' ').next().and_then(|x| x.parse().ok());
                if k.is_none_or(|k| k < before || k >= before + made as u64) {
                    return Err(format!("the payload of the panic was changed: {}", pn.msg));
                }
                if g.snap.evals > prev.evals + made {
                    return Err("a panicking generation counted more calls than were made".into());
                }
            } else if (kind == 2 || kind == 4) && made > ahead {
                return Err("the panic of the objective did not reach the caller".into());
            }
            judge_failure(c, l, &prev, &g, with_panics)?;
            best.step(&g)?;
            // Distributions with points that cannot be told apart are left out
            let spread = prev.sigma * prev.eig.iter().fold(f64::INFINITY, |a, b| a.min(*b)).sqrt();
            let scale = prev.mean.iter().fold(0.0, |a: f64, b| a.max(b.abs()));
            if failed_before
                && spread.is_normal()
                && spread > 1e-6 * scale
                && g.evs.iter().any(|e| failed_points.iter().any(|f| bits_eq(f, &e.x)))
            {
                return Err("a resumed generation repeats the points of the failed one".into());
            }
            failed_points = g.evs.iter().map(|e| e.x.clone()).collect();
            if g.has(R::PosDefCov) {
                indef = true;
            }
            if !indef {
                crit.step(c, &prev, &g)?;
                model.step(&prev, &g)?;
            }
            let failed = !g.complete();
            if failed_before && !failed {
                recovered += 1;
            }
            failed_before = failed;
            g.snap.hash(&mut h);
        }
        c.count("recoveries", recovered);
        c.count("equations_checked", model.checked);
        if recovered > 0 {
            c.nontrivial = Some(h.get());
        }
        Ok(())
    });
    ctx.rule("run: complete runs ended by a NaN value at some call and resumed by running again, compared with the result returned");
    ctx.cases("run", ctx.n(300, 6000), |rng, c| {
        let mut cfg = rich_cfg(rng);
        cfg.max_gens = Some(rng.int(20, 200));
        let p = Problem::new(rand_smooth(rng), 0.5);
        let par = rng.chance(0.5);
        c.desc = format!("{:?} {:?} par={}", cfg, p, par);
        let mut s = Sim::new(&cfg, &p)?;
        let mut h = Fnv::new();
        let mut done = 0;
        for _ in 0..rng.int(1, 5) {
            s.rec.nan_bits.store(*rng.pick(&NANS), Ordering::SeqCst);
            let ahead = rng.below(40 * s.par.lambda) as u64;
            s.rec.fault(*rng.pick(&[1, 3]), ahead);
            let before = s.rec.count();
            let t = term(&if par { s.cm.run_parallel() } else { s.cm.run() });
            let now = snap(&s.cm);
            let evs = s.rec.take();
            if let Some(cons) = &s.cons {
                cons.calls.lock().unwrap().clear();
            }
            let made = s.rec.count();
            if now.evals as u64 != made {
                return Err(format!("{} evaluations reported after {} calls", now.evals, made));
            }
            let nan = evs.iter().any(|e| e.v.is_nan());
            if nan != t.reasons.contains(&R::InvalidFunctionValue) {
                return Err(format!("a run with NaN: {} ended with {:?}", nan, t.reasons));
            }
            if nan {
                if t.reasons != [R::InvalidFunctionValue] {
                    return Err(format!("a run with NaN ended with {:?}", t.reasons));
                }
                if made - before > ahead + s.par.lambda as u64 {
                    return Err("the run went on after a NaN value".into());
                }
                done += 1;
            }
            if !opt_eq(&t.cur, &now.cur) || !opt_eq(&t.best, &now.best) || !bits_eq(&t.mean, &now.mean) {
                return Err("the result of the run differs from the state of the optimizer".into());
            }
            now.hash(&mut h);
            c.count("runs", 1);
        }
        c.count("runs_ended_by_nan", done);
        if done > 0 {
            c.nontrivial = Some(h.get());
        }
        Ok(())
    });
    ctx.rule("infinite: objectives mixing infinities of both signs, the largest and smallest finite values and zeros of both signs never cause InvalidFunctionValue");
    ctx.cases("infinite", ctx.n(300, 6000), |rng, c| {
        let cfg = rich_cfg(rng);
        let all = [
            f64::INFINITY,
            f64::NEG_INFINITY,
            f64::MAX,
            f64::MIN,
            5e-324,
            -5e-324,
            0.0,
            -0.0,
            1.0,
            1e308,
            -1e308,
            f64::from_bits(0x7fef_ffff_ffff_fffe),
        ];
        let k = rng.int(1, 5);
        let p = Problem::new(Fun::Hostile((0..k).map(|_| *rng.pick(&all)).collect()), 0.0);
        let api = rand_api(rng);
        c.desc = format!("{:?} {:?} {:?}", cfg, p, api);
        let mut s = Sim::new(&cfg, &p)?;
        let mut best = BestMon::new(cfg.mode);
        let mut h = Fnv::new();
        for _ in 0..rng.int(5, 80) {
            let prev = s.last.clone();
            let g = s.step(api.pick(rng));
            judge_failure(c, s.par.lambda, &prev, &g, false)?;
            best.step(&g)?;
            g.snap.hash(&mut h);
            if g.has(R::PosDefCov) {
                break;
            }
        }
        c.nontrivial = Some(h.get());
        Ok(())
    });
}

// ---- C13 ------------------------------------------------------------------------------------

/// A value from all over the floating-point range
fn wild(rng: &mut Rng) -> f64 {
    match rng.below(12) {
        0 => 0.0,
        1 => -0.0,
        2 => f64::INFINITY,
        3 => f64::NEG_INFINITY,
        4 => *rng.pick(&[f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, -5e-324]),
        5 => *rng.pick(&[1.0, -1.0, 1e300, -1e300, 1e-300]),
        6..=8 => f64::from_bits(rng.u64()),
        _ => rng.range(-10.0, 10.0),
    }
}

fn finite_wild(rng: &mut Rng) -> f64 {
    loop {
        let v = wild(rng);
        if v.is_finite() {
            return v;
        }
    }
}

fn normal_positive(rng: &mut Rng) -> f64 {
    loop {
        let v = wild(rng).abs();
        if v.is_normal() {
            return v;
        }
    }
}

/// Valid options as extreme as they get
fn wild_cfg(rng: &mut Rng) -> Cfg {
    let n = *rng.pick(&[1, 1, 2, 2, 3, 5, 8, 15]);
    let mut cfg = rand_cfg_dim(rng, n);
    if rng.chance(0.4) {
        cfg.sigma = match rng.below(4) {
            0 => f64::MIN_POSITIVE,
            1 => f64::MAX,
            _ => normal_positive(rng),
        };
    }
    if rng.chance(0.3) {
        for m in cfg.mean.iter_mut() {
            *m = if rng.chance(0.1) { wild(rng) } else { finite_wild(rng) };
        }
    }
    if rng.chance(0.3) {
        cfg.lambda = Some(*rng.pick(&[2, 2, 3, 4, 7, 100, 333]));
    }
    if rng.chance(0.2) {
        cfg.cm = Some(*rng.pick(&[f64::MIN_POSITIVE, 1e-300, 1e-16, 0.999999999999]));
    }
    if rng.chance(0.4) {
        let t = |rng: &mut Rng| if rng.chance(0.5) { Some(wild(rng)) } else { None };
        cfg.tol_fun = t(rng);
        cfg.tol_fun_rel = t(rng);
        cfg.tol_fun_hist = t(rng);
        cfg.tol_x = t(rng);
        cfg.tol_x_up = t(rng);
        cfg.tol_condition_cov = t(rng);
        cfg.fun_target = t(rng);
    }
    if rng.chance(0.5) {
        cfg.tol_stagnation = Some(*rng.pick(&[
            0,
            1,
            2,
            3,
            4,
            5,
            7,
            10,
            20_000,
            20_001,
            usize::MAX - 1,
            usize::MAX,
        ]));
    }
    if rng.chance(0.2) {
        cfg.cons = Some(match rng.below(5) {
            0 => Feas::Never,
            1 => Feas::Always,
            2 => {
                // Bounds that cannot be met, met by a point only, or are not ordered
                let l = (0..n).map(|_| wild(rng)).collect();
                let u = (0..n).map(|_| wild(rng)).collect();
                Feas::Box(l, u)
            }
            _ => rand_feas(rng, &cfg),
        });
        cfg.plain_bounds = rng.chance(0.5);
        cfg.max_resamples = Some(Some(*rng.pick(&[0, 1, 3, 20])));
    }
    if rng.chance(0.3) {
        cfg.plot = Some(*rng.pick(&[0, 1, 100, usize::MAX / 2, usize::MAX - 1, usize::MAX]));
    }
    if rng.chance(0.3) {
        cfg.print = Some(*rng.pick(&[0, 1, 100, usize::MAX / 2, usize::MAX - 1, usize::MAX]));
    }
    if rng.chance(0.2) {
        use std::time::Duration as D;
        cfg.max_time = Some(*rng.pick(&[D::ZERO, D::from_nanos(1), D::from_secs(1 << 40), D::from_secs(i64::MAX as u64), D::MAX]));
        cfg.max_evals = Some(*rng.pick(&[0, 1, usize::MAX - 1, usize::MAX]));
        cfg.max_gens = Some(*rng.pick(&[0, 1, usize::MAX - 1, usize::MAX]));
    }
    cfg
}

fn wild_problem(rng: &mut Rng) -> Problem {
    let fun = match rng.below(10) {
        0..=3 => {
            let k = rng.int(1, 8);
            Fun::Hostile((0..k).map(|_| wild(rng)).collect())
        }
        4 => Fun::Const(wild(rng)),
        5 => Fun::Scaled(wild(rng)),
        6 => Fun::HalfInf(rng.range(-1.0, 1.0)),
        _ => rand_fun(rng),
    };
    let mut p = Problem::new(fun, *rng.pick(&[0.0, 0.0, 0.5, 1e10]));
    p.neg = rng.chance(0.5);
    if rng.chance(0.15) {
        p.faults.nan_hash = Some(rng.int(1, 40) as u64);
    }
    p
}

pub fn c13(ctx: &Ctx) {
    ctx.rule("hostile: valid options from all over their range with objectives returning any floating-point values, continued past every termination; a panic of the library, a call without progress, more evaluations or constraint checks than a generation may make, or a generation that neither completes nor reports a reason is a violation; non-trivial if at least 3 generations were made");
    ctx.cases("hostile", ctx.n(5000, 200000), |rng, c| {
        let cfg = wild_cfg(rng);
        let p = wild_problem(rng);
        let api = rand_api(rng);
        let gens = match rng.below(20) {
            0 => rng.int(500, 3000),
            1..=4 => rng.int(100, 400),
            _ => rng.int(5, 100),
        };
        c.desc = format!("{:?} {:?} {:?} gens={}", cfg, p, api, gens);
        let mut s = Sim::new(&cfg, &p)?;
        let l = s.par.lambda;
        let mut h = Fnv::new();
        let mut n = 0;
        for _ in 0..gens {
            let before = s.rec.count();
            s.rec.cap.store(before + l as u64, Ordering::Relaxed);
            let checks = s.cons.as_ref().map(|x| x.n.load(Ordering::Relaxed));
            if let (Some(x), Some(Some(k))) = (&s.cons, cfg.max_resamples) {
                x.cap.store(
                    x.n.load(Ordering::Relaxed) + (l * (k + 1)) as u64,
                    Ordering::Relaxed,
                );
            }
            let prev = s.last.clone();
            let g = s.step(api.pick(rng));
            let done = g.snap.generation == prev.generation + 1;
            if !done && g.snap.generation != prev.generation {
                return Err(format!(
                    "generation {} after generation {}",
                    g.snap.generation, prev.generation
                ));
            }
            if !done && g.reasons().is_empty() {
                return Err("a generation neither completed nor reported a reason".into());
            }
            if g.term.is_some() && g.reasons().is_empty() {
                return Err("a termination without a reason".into());
            }
            if checks.is_some() {
                c.count("generations_with_constraints", 1);
            }
            n += 1;
            c.count("generations", 1);
            for (r, k) in [
                (R::PosDefCov, "indefinite"),
                (R::InvalidFunctionValue, "invalid_value"),
                (R::TolXUp, "diverged"),
            ] {
                if g.has(r) {
                    c.count(k, 1);
                }
            }
            if !g.snap.sigma.is_normal() {
                c.count("generations_out_of_range", 1);
            }
            g.snap.hash(&mut h);
            if n > 200 && g.has(R::PosDefCov) {
                break;
            }
        }
        if n >= 3 {
            c.nontrivial = Some(h.get());
        }
        Ok(())
    });
    ctx.rule("limits: runs to termination with a generation and/or evaluation limit end within it");
    ctx.cases("limits", ctx.n(1500, 40000), |rng, c| {
        let mut cfg = wild_cfg(rng);
        let p = wild_problem(rng);
        let by_gens = rng.chance(0.5);
        if by_gens || rng.chance(0.3) {
            cfg.max_gens = Some(*rng.pick(&[0, 1, 2, 7, 50, 200]));
        }
        if !by_gens || rng.chance(0.3) {
            cfg.max_evals = Some(*rng.pick(&[0, 1, 10, 100, 1000]));
        }
        let par = rng.chance(0.4);
        c.desc = format!("{:?} {:?} par={}", cfg, p, par);
        let mut s = Sim::new(&cfg, &p)?;
        let l = s.par.lambda as u64;
        let a = cfg.max_gens.map(|g| (g.max(1) as u64).saturating_mul(l)).unwrap_or(u64::MAX);
        let b = cfg
            .max_evals
            .map(|e| (e as u64).div_ceil(l).max(1).saturating_mul(l))
            .unwrap_or(u64::MAX);
        s.rec.cap.store(a.min(b), Ordering::Relaxed);
        let t = term(&if par { s.cm.run_parallel() } else { s.cm.run() });
        if t.reasons.is_empty() {
            return Err("a run without a reason".into());
        }
        let end = snap(&s.cm);
        c.count("runs", 1);
        if t.reasons.contains(&R::MaxGenerations) || t.reasons.contains(&R::MaxFunctionEvals) {
            c.count("ended_by_limit", 1);
        }
        let mut h = Fnv::new();
        end.hash(&mut h);
        c.nontrivial = Some(h.get());
        Ok(())
    });
    ctx.rule("stagnation: small populations on constant, noisy and infinite values for thousands of generations, so that the histories of the stagnation and range criteria are evaluated over every length and mixture of values");
    ctx.cases("stagnation", ctx.n(24, 400), |rng, c| {
        let mut cfg = Cfg::new(vec![rng.range(-1.0, 1.0)], 1.0);
        cfg.lambda = Some(rng.int(2, 5));
        cfg.weights = rand_weights(rng);
        cfg.mode = rand_mode(rng);
        cfg.seed = Some(rng.u64());
        cfg.tol_stagnation = Some(rng.int(0, 30));
        let k = rng.int(1, 4);
        let mut vs: Vec<f64> = (0..k).map(|_| wild(rng)).filter(|v| !v.is_nan()).collect();
        vs.push(f64::INFINITY);
        vs.push(*rng.pick(&[f64::NEG_INFINITY, 0.0]));
        let p = Problem::new(Fun::Hostile(vs), 0.0);
        let gens = ctx.n(3000, 45000);
        c.desc = format!("{:?} {:?} gens={}", cfg, p, gens);
        let mut s = Sim::new(&cfg, &p)?;
        let mut h = Fnv::new();
        for _ in 0..gens {
            let prev = s.last.clone();
            let g = s.step(Api::Seq);
            if g.snap.generation != prev.generation + 1 && !g.has(R::PosDefCov) {
                return Err("a generation neither completed nor reported a reason".into());
            }
            c.count("generations", 1);
        }
        s.last.hash(&mut h);
        c.nontrivial = Some(h.get());
        Ok(())
    });
}
