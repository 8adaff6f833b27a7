//! C19: end-to-end performance, compared with an independent implementation.

use cmaes::restart::RestartResults;
use cmaes::{DVector, Mode, TerminationReason, Weights, CMAES};
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

use crate::checks_a::{expected_params, Exp};
use crate::core::{beat, Case, Ctx};
use crate::linalg::{jacobi, norm, Mat};
use crate::model::chi_n;
use crate::rst::*;
use crate::sim::*;
use crate::util::{Fnv, Rng};

type Res = Result<(), String>;

// ---- reference implementation -----------------------------------------------------------------

fn gauss(rng: &mut Rng) -> f64 {
    let u = 1.0 - rng.f();
    let v = rng.f();
    (-2.0 * u.ln()).sqrt() * (2.0 * std::f64::consts::PI * v).cos()
}

/// A textbook implementation of the documented algorithm, which minimizes
struct Reference {
    n: usize,
    l: usize,
    p: Exp,
    mean: Vec<f64>,
    sigma: f64,
    c: Mat,
    b: Mat,
    d: Vec<f64>,
    ps: Vec<f64>,
    pc: Vec<f64>,
    gen: i32,
    stale: usize,
    rng: Rng,
}

impl Reference {
    fn new(mean: &[f64], sigma: f64, l: usize, weights: Weights, seed: u64) -> Self {
        let n = mean.len();
        Reference {
            n,
            l,
            p: expected_params(n, l, weights),
            mean: mean.to_vec(),
            sigma,
            c: Mat::identity(n),
            b: Mat::identity(n),
            d: vec![1.0; n],
            ps: vec![0.0; n],
            pc: vec![0.0; n],
            gen: 0,
            stale: 0,
            rng: Rng::new(seed),
        }
    }

    /// `B D^-1 B^T y`
    fn whiten(&self, y: &[f64]) -> Vec<f64> {
        let n = self.n;
        let t: Vec<f64> = (0..n)
            .map(|k| (0..n).map(|i| self.b.at(i, k) * y[i]).sum::<f64>() / self.d[k])
            .collect();
        (0..n).map(|i| (0..n).map(|k| self.b.at(i, k) * t[k]).sum()).collect()
    }

    /// One generation
    fn step(&mut self, f: &mut dyn FnMut(&[f64]) -> f64, feasible: &dyn Fn(&[f64]) -> bool) {
        let (n, l) = (self.n, self.l);
        let mut pop: Vec<(f64, Vec<f64>)> = (0..l)
            .map(|_| {
                let mut tries = 0;
                loop {
                    let z: Vec<f64> = (0..n).map(|k| self.d[k] * gauss(&mut self.rng)).collect();
                    let y: Vec<f64> = (0..n).map(|i| (0..n).map(|k| self.b.at(i, k) * z[k]).sum()).collect();
                    let x: Vec<f64> = (0..n).map(|i| self.mean[i] + self.sigma * y[i]).collect();
                    tries += 1;
                    if tries > 10 || feasible(&x) {
                        break (f(&x), y);
                    }
                }
            })
            .collect();
        pop.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap_or(std::cmp::Ordering::Equal));
        let p = &self.p;
        let yw: Vec<f64> = (0..n).map(|i| (0..p.mu).map(|k| p.w[k] * pop[k].1[i]).sum()).collect();
        for i in 0..n {
            self.mean[i] += self.sigma * yw[i];
        }
        let iy = self.whiten(&yw);
        let q = (p.cs * (2.0 - p.cs) * p.mu_eff).sqrt();
        for i in 0..n {
            self.ps[i] = (1.0 - p.cs) * self.ps[i] + q * iy[i];
        }
        self.gen += 1;
        let psn = norm(&self.ps);
        let h = psn / (1.0 - (1.0 - p.cs).powi(2 * self.gen)).sqrt() < (1.4 + 2.0 / (n as f64 + 1.0)) * chi_n(n);
        let hs = if h { 1.0 } else { 0.0 };
        let qc = (p.cc * (2.0 - p.cc) * p.mu_eff).sqrt();
        for i in 0..n {
            self.pc[i] = (1.0 - p.cc) * self.pc[i] + hs * qc * yw[i];
        }
        let wc: Vec<f64> = p
            .w
            .iter()
            .zip(&pop)
            .map(|(w, x)| {
                if *w >= 0.0 {
                    *w
                } else {
                    let z = norm(&self.whiten(&x.1));
                    w * n as f64 / (z * z)
                }
            })
            .collect();
        let ws: f64 = p.w.iter().sum();
        let keep = 1.0 + p.c1 * (1.0 - hs) * p.cc * (2.0 - p.cc) - p.c1 - p.cmu * ws;
        for i in 0..n {
            for j in 0..=i {
                let mu: f64 = wc.iter().zip(&pop).map(|(w, x)| w * x.1[i] * x.1[j]).sum();
                let v = keep * self.c.at(i, j) + p.c1 * self.pc[i] * self.pc[j] + p.cmu * mu;
                self.c.set(i, j, v);
                self.c.set(j, i, v);
            }
        }
        self.sigma *= ((p.cs / p.ds) * (psn / chi_n(n) - 1.0)).exp();
        self.stale += 1;
        if self.stale as f64 > 1.0 / ((p.c1 + p.cmu) * n as f64 * 4.0) {
            self.stale = 0;
            beat();
            let e = jacobi(&self.c);
            if e.values[0] > 0.0 {
                self.d = e.values.iter().map(|x| x.sqrt()).collect();
                self.b = e.vectors;
            }
        }
    }

    /// The largest standard deviation
    fn spread(&self) -> f64 {
        self.sigma * jacobi(&self.c).values[self.n - 1].max(0.0).sqrt()
    }
}

// ---- problems ---------------------------------------------------------------------------------

#[derive(Clone, Debug)]
struct Prob {
    fun: Fun,
    shift: f64,
    rot: Option<u64>,
}

impl Prob {
    fn eval(&self, x: &[f64]) -> f64 {
        let y: Vec<f64> = x.iter().map(|a| a - self.shift).collect();
        match self.rot {
            Some(s) => self.fun.eval(&rotate(&y, s)),
            None => self.fun.eval(&y),
        }
    }
}

#[derive(Clone, Debug)]
struct Scenario {
    prob: Prob,
    mean: Vec<f64>,
    sigma: f64,
    lambda: Option<usize>,
    weights: Weights,
    mode: Mode,
    par: bool,
    par_update: bool,
    bound: Option<f64>,
    target: f64,
    cap: usize,
}

impl Scenario {
    fn lambda(&self) -> usize {
        self.lambda.unwrap_or(default_lambda(self.mean.len()))
    }

    fn feasible(&self, x: &[f64]) -> bool {
        match self.bound {
            None => true,
            Some(b) => x.iter().all(|a| (a - self.prob.shift).abs() <= b),
        }
    }

    fn options(&self, seed: u64) -> cmaes::CMAESOptions {
        let mut o = cmaes::CMAESOptions::new(self.mean.clone(), self.sigma)
            .mode(self.mode)
            .weights(self.weights)
            .parallel_update(self.par_update)
            .seed(seed);
        if let Some(l) = self.lambda {
            o = o.population_size(l);
        }
        if let Some(b) = self.bound {
            let n = self.mean.len();
            o = o.bounds(vec![self.prob.shift - b; n], vec![self.prob.shift + b; n]);
        }
        o
    }

    /// Evaluations needed by the library, the cap if the target was not reached
    fn library(&self, seed: u64) -> Result<f64, String> {
        let calls = AtomicU64::new(0);
        let hit = AtomicU64::new(u64::MAX);
        let f = |x: &DVector<f64>| {
            let k = calls.fetch_add(1, Ordering::Relaxed) + 1;
            let v = self.prob.eval(x.as_slice());
            if v <= self.target {
                hit.fetch_min(k, Ordering::Relaxed);
            }
            match self.mode {
                Mode::Minimize => v,
                Mode::Maximize => -v,
            }
        };
        let mut c = self.options(seed).build(f).map_err(|e| format!("valid options were rejected: {:?}", e))?;
        while hit.load(Ordering::Relaxed) == u64::MAX && calls.load(Ordering::Relaxed) < self.cap as u64 {
            let t = if self.par { c.next_parallel() } else { c.next() };
            if t.map_or(false, |t| {
                t.reasons.contains(&TerminationReason::PosDefCov) || t.reasons.contains(&TerminationReason::InvalidFunctionValue)
            }) {
                break;
            }
        }
        beat();
        let h = hit.load(Ordering::Relaxed);
        Ok(if h == u64::MAX { self.cap as f64 } else { h as f64 })
    }

    fn reference(&self, seed: u64) -> f64 {
        let calls = Cell::new(0u64);
        let hit = Cell::new(u64::MAX);
        let mut r = Reference::new(&self.mean, self.sigma, self.lambda(), self.weights, seed);
        while hit.get() == u64::MAX && calls.get() < self.cap as u64 {
            r.step(
                &mut |x| {
                    calls.set(calls.get() + 1);
                    let v = self.prob.eval(x);
                    if v <= self.target && hit.get() == u64::MAX {
                        hit.set(calls.get());
                    }
                    v
                },
                &|x| self.feasible(x),
            );
        }
        beat();
        if hit.get() == u64::MAX {
            self.cap as f64
        } else {
            hit.get() as f64
        }
    }
}

fn scenario(rng: &mut Rng, idx: u64, big: bool) -> Scenario {
    let funs = [
        Fun::Sphere,
        Fun::Elli(1e6),
        Fun::Cigar,
        Fun::Discus,
        Fun::Rosen,
        Fun::DiffPow,
        Fun::Elli(1e3),
    ];
    let fun = funs[idx as usize % funs.len()].clone();
    let dims: &[usize] = if big { &[2, 3, 4, 5, 7, 10, 13, 20, 30] } else { &[2, 3, 4, 5, 8, 10, 12] };
    let n = *rng.pick(dims);
    let weights = rand_weights(rng);
    let shift = rng.range(-3.0, 3.0);
    let rot = if fun != Fun::Rosen && rng.chance(0.6) { Some(rng.u64()) } else { None };
    let sigma = rng.log_range(0.3, 2.0);
    let mean: Vec<f64> = (0..n).map(|_| shift + rng.range(-2.0, 2.0)).collect();
    // A bound that is not in the way of the optimum (at zero, or one for the Rosenbrock function)
    let bound = if rng.chance(0.25) { Some(rng.range(2.5, 6.0)) } else { None };
    Scenario {
        target: if fun == Fun::DiffPow { 1e-12 } else { 1e-10 },
        prob: Prob { fun, shift, rot },
        mean,
        sigma,
        lambda: match rng.below(4) {
            0 => Some(default_lambda(n) * 2),
            1 => Some(default_lambda(n) + rng.below(5)),
            _ => None,
        },
        weights,
        mode: rand_mode(rng),
        par: rng.chance(0.3),
        par_update: rng.chance(0.3),
        bound,
        cap: 0,
    }
}

/// Median and the standard error of the median
fn median_se(v: &mut [f64]) -> (f64, f64) {
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let n = v.len();
    let m = v[n / 2];
    let mut d: Vec<f64> = v.iter().map(|x| (x - m).abs()).collect();
    d.sort_by(|a, b| a.partial_cmp(b).unwrap());
    (m, 1.4826 * d[n / 2] * 1.2533 / (n as f64).sqrt())
}

pub fn c19(ctx: &Ctx) {
    ctx.rule("budget: the median number of evaluations the library needs to reach the optimum of a standard function, over several seeds, is compared with that of an independent implementation of the documented algorithm in the same setting; a suspicious difference is decided with more seeds; non-trivial if the reference reaches the optimum");
    let ratios: Mutex<Vec<f64>> = Mutex::new(vec![]);
    ctx.cases("budget", ctx.n(140, 1500), |rng, c| budget(rng, c, ctx.thorough(), &ratios));
    ctx.rule("overall: the mean logarithm of the ratio of the medians over all budget cases must not be above zero by more than 6 standard errors and 0.06");
    ctx.serial("overall", 1, |_, c| {
        let v = ratios.lock().unwrap();
        let n = v.len() as f64;
        if n < 50.0 {
            return Ok(());
        }
        let m = v.iter().sum::<f64>() / n;
        let se = (v.iter().map(|x| (x - m) * (x - m)).sum::<f64>() / (n - 1.0) / n).sqrt();
        c.desc = format!("mean {:.4} standard error {:.4} of {} logarithms", m, se, n);
        c.nontrivial = Some(v.len() as u64);
        if m > 6.0 * se && m > 0.06 {
            return Err(format!("the evaluations needed are {:.3} times those of the reference in the geometric mean over {} scenarios (standard error of the logarithm {:.4})", m.exp(), n, se));
        }
        Ok(())
    });
    ctx.rule("growth: the growth of the largest standard deviation on linear functions and its decrease on the sphere, compared in the same way");
    ctx.cases("growth", ctx.n(80, 1500), |rng, c| growth(rng, c));
    ctx.rule("run: whole runs with default options end by convergence at the optimum");
    ctx.cases("run", ctx.n(150, 3000), |rng, c| whole(rng, c));
    ctx.rule("restarts: restart strategies find the global optimum of multimodal functions within ample budgets; failures are decided with more seeds");
    ctx.cases("restarts", ctx.n(40, 600), |rng, c| multimodal(rng, c));
}

fn budget(rng: &mut Rng, c: &mut Case, big: bool, ratios: &Mutex<Vec<f64>>) -> Res {
    let mut s = scenario(rng, c.idx, big);
    let n = s.mean.len();
    let base = match s.prob.fun {
        Fun::Sphere => 400,
        Fun::Rosen => 2500 + 250 * n,
        Fun::DiffPow => 2500,
        _ => 2500,
    };
    s.cap = base * n * (s.lambda() / default_lambda(n)).max(1) * 4 * if s.weights == Weights::Uniform { 2 } else { 1 };
    c.desc = format!("{:?}", s);
    let seed = rng.u64() >> 8;
    let sample = |k0: u64, k1: u64| -> Result<(Vec<f64>, Vec<f64>), String> {
        let mut a = vec![];
        let mut b = vec![];
        for k in k0..k1 {
            a.push(s.library(seed + k)?);
            b.push(s.reference(seed ^ (k + 77)));
        }
        Ok((a, b))
    };
    let (mut a, mut b) = sample(0, 9)?;
    let (ma, _) = median_se(&mut a);
    let (mb, _) = median_se(&mut b);
    c.count("library_evaluations", a.iter().sum::<f64>() as u64);
    c.count("reference_evaluations", b.iter().sum::<f64>() as u64);
    // The reference must be able to do it
    if mb >= s.cap as f64 {
        c.inconclusive = true;
        return Ok(());
    }
    ratios.lock().unwrap().push((ma / mb).ln());
    c.count(if ma <= mb { "medians_below_reference" } else { "medians_above_reference" }, 1);
    if ma > 1.3 * mb {
        c.count("suspicions", 1);
        let (mut a, mut b) = sample(1000, 1061)?;
        let (ma, sa) = median_se(&mut a);
        let (mb, sb) = median_se(&mut b);
        if mb < s.cap as f64 && ma > 1.2 * mb && ma - mb > 6.0 * (sa * sa + sb * sb).sqrt() {
            return Err(format!(
                "{} evaluations are needed in the median, {} by the reference (61 seeds, standard errors {:.0} and {:.0}, cap {})",
                ma, mb, sa, sb, s.cap
            ));
        }
    }
    let mut h = Fnv::new();
    h.u64(seed);
    c.nontrivial = Some(h.get());
    Ok(())
}

fn growth(rng: &mut Rng, c: &mut Case) -> Res {
    let n = *rng.pick(&[1, 2, 3, 5, 8, 12, 20]);
    let linear = rng.chance(0.6);
    let mut s = scenario(rng, 0, false);
    s.mean = (0..n).map(|_| rng.range(-2.0, 2.0)).collect();
    if !linear {
        s.prob.shift = 0.0;
    }
    s.prob.fun = if linear { Fun::Linear } else { Fun::Sphere };
    s.prob.rot = None;
    s.bound = None;
    s.lambda = match rng.below(3) {
        0 => Some(default_lambda(n) + rng.below(20)),
        _ => None,
    };
    let gens = if linear { 40 } else { 20 + 10 * n };
    c.desc = format!("{:?} {} generations", s, gens);
    let seed = rng.u64() >> 8;
    let measure = |k0: u64, k1: u64| -> Result<(Vec<f64>, Vec<f64>), String> {
        let (mut a, mut b) = (vec![], vec![]);
        for k in k0..k1 {
            let f = |x: &DVector<f64>| {
                let v = s.prob.eval(x.as_slice());
                if s.mode == Mode::Minimize {
                    v
                } else {
                    -v
                }
            };
            let mut lib: CMAES<_> = s.options(seed + k).build(f).map_err(|e| format!("{:?}", e))?;
            let mut r = Reference::new(&s.mean, s.sigma, s.lambda(), s.weights, seed ^ (k + 99));
            for _ in 0..gens {
                let _ = if s.par { lib.next_parallel() } else { lib.next() };
                r.step(&mut |x| s.prob.eval(x), &|_| true);
            }
            let top = lib.eigenvalues().iter().cloned().fold(0.0, f64::max);
            a.push((lib.sigma() * top.sqrt() / s.sigma).ln());
            b.push((r.spread() / s.sigma).ln());
        }
        beat();
        Ok((a, b))
    };
    // Rates of growth (or decrease)
    let sign = if linear { 1.0 } else { -1.0 };
    let judge = |a: &mut Vec<f64>, b: &mut Vec<f64>, sure: bool| -> Option<String> {
        let (ma, sa) = median_se(a);
        let (mb, sb) = median_se(b);
        let (ma, mb) = (sign * ma, sign * mb);
        if mb < 1.0 {
            return None;
        }
        let se = (sa * sa + sb * sb).sqrt();
        let bad = if sure { ma < 0.85 * mb && mb - ma > 6.0 * se } else { ma < 0.8 * mb };
        if bad {
            Some(format!("the standard deviation changed by e^{:.2} in the median, by e^{:.2} in the reference (standard error {:.2})", sign * ma, sign * mb, se))
        } else {
            None
        }
    };
    let (mut a, mut b) = measure(0, 9)?;
    c.count("generations", 18 * gens as u64);
    if judge(&mut a, &mut b, false).is_some() {
        c.count("suspicions", 1);
        let (mut a, mut b) = measure(1000, 1081)?;
        if let Some(m) = judge(&mut a, &mut b, true) {
            return Err(m);
        }
    }
    let mut h = Fnv::new();
    h.u64(seed);
    c.nontrivial = Some(h.get());
    Ok(())
}

fn whole(rng: &mut Rng, c: &mut Case) -> Res {
    let mut s = scenario(rng, c.idx, false);
    s.lambda = None;
    s.bound = None;
    s.mode = Mode::Minimize;
    if rng.chance(0.5) {
        s.mode = Mode::Maximize;
    }
    let n = s.mean.len();
    c.desc = format!("{:?}", s);
    let seed = rng.u64() >> 8;
    let one = |k: u64| -> Result<(f64, Vec<TerminationReason>, usize), String> {
        let calls = AtomicU64::new(0);
        let f = |x: &DVector<f64>| {
            if calls.fetch_add(1, Ordering::Relaxed) > 3_000_000 {
                panic!("{} the run does not end", crate::core::CAP);
            }
            let v = s.prob.eval(x.as_slice());
            if s.mode == Mode::Minimize {
                v
            } else {
                -v
            }
        };
        let mut lib = s.options(seed + k).build(f).map_err(|e| format!("{:?}", e))?;
        let t = if s.par { lib.run_parallel() } else { lib.run() };
        beat();
        let b = t.overall_best.ok_or("no best individual")?;
        Ok((b.value.abs(), t.reasons, lib.function_evals()))
    };
    // Local optima of the Rosenbrock function and the weaker selection of small populations
    let good = |r: &(f64, Vec<TerminationReason>, usize)| r.0 <= 1e-8 && !r.1.contains(&TerminationReason::PosDefCov);
    let r = one(0)?;
    c.count("evaluations", r.2 as u64);
    if !good(&r) {
        c.count("suspicions", 1);
        let mut bad = 0;
        let total = 20;
        for k in 1..=total {
            if !good(&one(k)?) {
                bad += 1;
            }
        }
        let allowed = if s.prob.fun == Fun::Rosen { 14 } else { 4 };
        if bad > allowed {
            return Err(format!("{} of {} runs did not reach the optimum, e.g. {:e} at {} evaluations for {:?} in dimension {}", bad, total, r.0, r.2, r.1, n));
        }
    }
    let mut h = Fnv::new();
    h.u64(seed);
    h.u64(r.2 as u64);
    c.nontrivial = Some(h.get());
    Ok(())
}

fn multimodal(rng: &mut Rng, c: &mut Case) -> Res {
    // Large populations follow the wide basin, small ones from uniform points find the narrow one
    let (strat, two, n) = match rng.below(4) {
        0 => (Strat::Local(40, None), true, rng.int(1, 3)),
        1 => (Strat::Ipop(None), false, rng.int(1, 4)),
        2 => (Strat::Bipop(None, None), true, rng.int(1, 3)),
        _ => (Strat::Bipop(None, None), false, rng.int(1, 4)),
    };
    let mut rc = RCfg::new(n, -4.0, 5.0, strat.clone());
    rc.print = false;
    rc.mode = rand_mode(rng);
    rc.par_update = rng.chance(0.3);
    rc.max_evals = Some(300_000);
    let target = if rc.mode == Mode::Minimize { 1e-9 } else { -1e-9 };
    rc.fun_target = Some(target);
    let api = *rng.pick(&RAPIS);
    let shift = rng.range(-1.5, 1.5);
    let mode = rc.mode;
    c.desc = format!("{:?} {:?} two basins: {} shift {}", rc, api, two, shift);
    let f = move |x: &DVector<f64>| {
        let y: Vec<f64> = x.iter().map(|a| a - shift).collect();
        let v = if two {
            // A wide basin and a narrower global one
            let a: f64 = y.iter().map(|a| (a - 2.0) * (a - 2.0)).sum();
            let b: f64 = y.iter().map(|a| (a + 1.5) * (a + 1.5)).sum();
            (a + 0.5).min(1.5 * b)
        } else {
            Fun::Rastrigin.eval(&y)
        };
        if mode == Mode::Minimize {
            v
        } else {
            -v
        }
    };
    let seed = rng.u64();
    let one = |k: u64| -> Result<RestartResults, String> {
        let mut rc = rc.clone();
        rc.seed = Some(seed.wrapping_add(k));
        let r = rc.build()?;
        beat();
        Ok(match api {
            RApi::Run => r.run(|| f),
            RApi::Reuse => r.run_with_reuse(f),
            RApi::Par => r.run_parallel(|| f),
            RApi::ParReuse => r.run_parallel_with_reuse(f),
        })
    };
    let good = |r: &RestartResults| r.best.as_ref().map_or(false, |b| b.value.abs() <= 1e-8);
    let r = one(0)?;
    c.count("restart_runs", r.runs as u64);
    c.count("evaluations", r.function_evals as u64);
    if !good(&r) {
        c.count("suspicions", 1);
        let mut bad = 0;
        for k in 1..=16 {
            if !good(&one(k)?) {
                bad += 1;
            }
        }
        if bad > 4 {
            return Err(format!("{} of 16 restart strategies did not find the optimum, e.g. {:?}", bad, r));
        }
    }
    let mut h = Fnv::new();
    h.u64(seed);
    h.u64(r.function_evals as u64);
    c.nontrivial = Some(h.get());
    Ok(())
}
