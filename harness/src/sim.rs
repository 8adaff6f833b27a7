//! Configurations, objectives and constraints with recorders, and the driver that turns an optimizer
//! into a stream of observed generations.

use cmaes::objective_function::{ObjectiveFunction, ParallelObjectiveFunction};
use cmaes::{
    CMAESOptions, Constraints, DVector, Individual, Mode, TerminationData, TerminationReason,
    Weights, CMAES,
};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use crate::core::{beat, guarded, PanicInfo, CAP, INJECTED};
use crate::linalg::{jacobi, norm, Mat};
use crate::util::{Fnv, Rng};

// ---- objectives -----------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
pub enum Fun {
    Sphere,
    Elli(f64),
    /// Ellipsoid rotated by a product of Householder reflections derived from the seed
    RotElli(f64, u64),
    Cigar,
    Discus,
    Rosen,
    DiffPow,
    Rastrigin,
    Linear,
    NegSphere,
    /// Sphere rounded to multiples, so that there are ties
    Step(f64),
    Const(f64),
    /// A hash of the point, uniform in [0, 1)
    Noise,
    NoisySphere(f64),
    /// Integer-valued with values in `-range..=range` (saturating), depends on the sphere
    IntSphere(i64),
    /// Integer-valued hash of the point
    IntNoise(i64),
    /// Integer-valued sum of integer-valued coordinates
    IntLinear,
    /// Infinity outside of a half space
    HalfInf(f64),
    /// A sphere, but one of that many points has the value
    Rare(u64, f64),
    /// Values from a list of hostile values, chosen by a hash of the point
    Hostile(Vec<f64>),
    /// Sphere scaled by a factor
    Scaled(f64),
    /// Negative absolute value: diverges without bound
    NegAbs,
    /// Slow decrease by evaluation count is not pure, so stagnation is provoked by the coordinate
    Plateau(f64),
}

fn hash_x(x: &[f64]) -> u64 {
    let mut h = Fnv::new();
    h.fs(x);
    h.get()
}

fn hash01(x: &[f64]) -> f64 {
    (hash_x(x) >> 11) as f64 / (1u64 << 53) as f64
}

/// Applies the orthogonal matrix of the seed
pub fn rotate(x: &[f64], seed: u64) -> Vec<f64> {
    let n = x.len();
    let mut r = Rng::new(seed);
    let mut y = x.to_vec();
    for _ in 0..n.min(5) {
        let v: Vec<f64> = (0..n).map(|_| r.range(-1.0, 1.0)).collect();
        let vv: f64 = v.iter().map(|a| a * a).sum();
        if vv == 0.0 {
            continue;
        }
        let d: f64 = v.iter().zip(&y).map(|(a, b)| a * b).sum::<f64>() * 2.0 / vv;
        for i in 0..n {
            y[i] -= d * v[i];
        }
    }
    y
}

impl Fun {
    pub fn eval(&self, x: &[f64]) -> f64 {
        let n = x.len();
        let e = |i: usize| {
            if n > 1 {
                i as f64 / (n - 1) as f64
            } else {
                1.0
            }
        };
        let sphere = |x: &[f64]| x.iter().map(|a| a * a).sum::<f64>();
        match self {
            Fun::Sphere => sphere(x),
            Fun::Elli(c) => x
                .iter()
                .enumerate()
                .map(|(i, a)| c.powf(e(i)) * a * a)
                .sum(),
            Fun::RotElli(c, s) => Fun::Elli(*c).eval(&rotate(x, *s)),
            Fun::Cigar => x[0] * x[0] + 1e6 * sphere(&x[1..]),
            Fun::Discus => 1e6 * x[0] * x[0] + sphere(&x[1..]),
            Fun::Rosen => {
                if n == 1 {
                    (1.0 - x[0]).powi(2)
                } else {
                    (0..n - 1)
                        .map(|i| {
                            100.0 * (x[i + 1] - x[i] * x[i]).powi(2) + (1.0 - x[i]).powi(2)
                        })
                        .sum()
                }
            }
            Fun::DiffPow => x
                .iter()
                .enumerate()
                .map(|(i, a)| a.abs().powf(2.0 + 4.0 * e(i)))
                .sum::<f64>(),
            Fun::Rastrigin => {
                10.0 * n as f64
                    + x.iter()
                        .map(|a| a * a - 10.0 * (2.0 * std::f64::consts::PI * a).cos())
                        .sum::<f64>()
            }
            Fun::Linear => x.iter().enumerate().map(|(i, a)| a * (1.0 + i as f64)).sum(),
            Fun::NegSphere => -sphere(x),
            Fun::Step(s) => (sphere(x) / s).floor() * s,
            Fun::Const(c) => *c,
            Fun::Noise => hash01(x),
            Fun::NoisySphere(a) => sphere(x) * (1.0 + a * (hash01(x) - 0.5)),
            Fun::IntSphere(m) => (sphere(x) * 16.0).floor().min(*m as f64),
            Fun::IntNoise(m) => ((hash_x(x) >> 8) % (2 * *m as u64 + 1)) as f64 - *m as f64,
            Fun::IntLinear => x
                .iter()
                .map(|a| (a * 8.0).round().clamp(-1000.0, 1000.0))
                .sum(),
            Fun::HalfInf(t) => {
                if x[0] > *t {
                    f64::INFINITY
                } else {
                    sphere(x)
                }
            }
            Fun::Rare(k, v) => {
                if (hash_x(x) >> 9) % k == 0 {
                    *v
                } else {
                    sphere(x)
                }
            }
            Fun::Hostile(vs) => vs[(hash_x(x) >> 7) as usize % vs.len()],
            Fun::Scaled(s) => sphere(x) * s,
            Fun::NegAbs => -x.iter().map(|a| a.abs()).sum::<f64>(),
            Fun::Plateau(w) => x.iter().map(|a| (a / w).round().abs()).fold(0.0, f64::max),
        }
    }
}

/// Faults that the objective injects
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Faults {
    /// 0-based indices of the calls that return NaN
    pub nan_calls: Vec<u64>,
    /// Points whose hash is 0 modulo this return NaN
    pub nan_hash: Option<u64>,
    pub panic_calls: Vec<u64>,
    /// Return -NaN instead
    pub neg_nan: bool,
    /// Added with every call
    pub trend: f64,
}

#[derive(Clone, Debug)]
pub struct Ev {
    pub x: Vec<f64>,
    pub v: f64,
    pub tid: u64,
    pub at: Option<Instant>,
}

#[derive(Default)]
pub struct Rec {
    pub evs: Mutex<Vec<Ev>>,
    pub n: AtomicU64,
    pub cap: AtomicU64,
    pub inflight: AtomicI64,
    pub max_inflight: AtomicI64,
    pub keep: std::sync::atomic::AtomicBool,
    pub drops: AtomicU64,
    /// Number of calls through the exclusive interface
    pub excl: AtomicU64,
    /// Calls through the exclusive interface while another call was running
    pub overlap: AtomicU64,
    /// Fault injected while the optimizer runs: 0 none, 1 NaN at the call, 2 panic at the call, 3 NaN
    /// from the call on, 4 panic from the call on, 5 infinity at the call
    pub inject: AtomicU64,
    pub inject_at: AtomicU64,
    pub nan_bits: AtomicU64,
}

impl Rec {
    /// Sets the fault of the calls to come, `ahead` calls from now
    pub fn fault(&self, kind: u64, ahead: u64) {
        self.inject.store(kind, Ordering::SeqCst);
        self.inject_at
            .store(self.n.load(Ordering::SeqCst) + ahead, Ordering::SeqCst);
    }
}

impl Rec {
    pub fn new() -> Arc<Rec> {
        let r = Rec::default();
        r.cap.store(50_000_000, Ordering::Relaxed);
        r.keep.store(true, Ordering::Relaxed);
        r.nan_bits.store(f64::NAN.to_bits(), Ordering::Relaxed);
        Arc::new(r)
    }
    pub fn take(&self) -> Vec<Ev> {
        std::mem::take(&mut *self.evs.lock().unwrap_or_else(|e| e.into_inner()))
    }
    pub fn count(&self) -> u64 {
        self.n.load(Ordering::SeqCst)
    }
}

fn thread_id() -> u64 {
    use std::cell::Cell;
    static NEXT: AtomicU64 = AtomicU64::new(1);
    thread_local!(static ID: Cell<u64> = const { Cell::new(0) });
    ID.with(|i| {
        if i.get() == 0 {
            i.set(NEXT.fetch_add(1, Ordering::Relaxed));
        }
        i.get()
    })
}

pub struct Obj {
    pub fun: Fun,
    pub shift: f64,
    pub neg: bool,
    /// Monotone transformation applied to the value
    pub trans: Option<Arc<dyn Fn(f64) -> f64 + Send + Sync>>,
    pub faults: Faults,
    /// Delay in microseconds, varied by a hash
    pub delay: u64,
    pub stamp: bool,
    /// Zeros have one sign or the other
    pub zero_signs: bool,
    pub rec: Arc<Rec>,
}

impl Drop for Obj {
    fn drop(&mut self) {
        self.rec.drops.fetch_add(1, Ordering::SeqCst);
    }
}

impl Obj {
    pub fn new(fun: Fun, shift: f64, rec: Arc<Rec>) -> Self {
        Obj {
            fun,
            shift,
            neg: false,
            trans: None,
            faults: Faults::default(),
            delay: 0,
            stamp: false,
            zero_signs: false,
            rec,
        }
    }

    fn value(&self, x: &[f64], k: u64) -> f64 {
        if self.faults.panic_calls.contains(&k) {
            panic!("{} objective call {}", INJECTED, k);
        }
        let kind = self.rec.inject.load(Ordering::SeqCst);
        if kind != 0 {
            let at = self.rec.inject_at.load(Ordering::SeqCst);
            match kind {
                1 if k == at => return f64::from_bits(self.rec.nan_bits.load(Ordering::SeqCst)),
                3 if k >= at => return f64::from_bits(self.rec.nan_bits.load(Ordering::SeqCst)),
                2 if k == at => panic!("{} objective call {}", INJECTED, k),
                4 if k >= at => panic!("{} objective call {}", INJECTED, k),
                5 if k == at => return f64::INFINITY,
                _ => (),
            }
        }
        let nan = if self.faults.neg_nan {
            f64::from_bits(f64::NAN.to_bits() | (1 << 63))
        } else {
            f64::NAN
        };
        if self.faults.nan_calls.contains(&k) {
            return nan;
        }
        if let Some(m) = self.faults.nan_hash {
            if hash_x(x) % m == 0 {
                return nan;
            }
        }
        let v = if self.shift != 0.0 {
            let y: Vec<f64> = x.iter().map(|a| a - self.shift).collect();
            self.fun.eval(&y)
        } else {
            self.fun.eval(x)
        };
        let v = match &self.trans {
            Some(t) => t(v),
            None => v,
        };
        let v = if self.faults.trend != 0.0 {
            v + self.faults.trend * k as f64
        } else {
            v
        };
        let v = if self.neg { -v } else { v };
        if self.zero_signs && v == 0.0 {
            if hash_x(x) & 64 != 0 {
                -0.0
            } else {
                0.0
            }
        } else {
            v
        }
    }

    fn call(&self, x: &DVector<f64>) -> f64 {
        let i = self.rec.inflight.fetch_add(1, Ordering::SeqCst) + 1;
        self.rec.max_inflight.fetch_max(i, Ordering::SeqCst);
        struct Guard<'a>(&'a AtomicI64);
        impl<'a> Drop for Guard<'a> {
            fn drop(&mut self) {
                self.0.fetch_sub(1, Ordering::SeqCst);
            }
        }
        let _g = Guard(&self.rec.inflight);
        let k = self.rec.n.fetch_add(1, Ordering::SeqCst);
        if k >= self.rec.cap.load(Ordering::Relaxed) {
            panic!("{} more than {} objective calls", CAP, k);
        }
        let xs = x.as_slice();
        if self.delay > 0 {
            let d = hash_x(xs) % (2 * self.delay);
            if d > 0 {
                std::thread::sleep(Duration::from_micros(d));
            }
        }
        let v = self.value(xs, k);
        if self.rec.keep.load(Ordering::Relaxed) {
            let at = if self.stamp { Some(Instant::now()) } else { None };
            self.rec
                .evs
                .lock()
                .unwrap_or_else(|e| e.into_inner())
                .push(Ev {
                    x: xs.to_vec(),
                    v,
                    tid: thread_id(),
                    at,
                });
        }
        v
    }
}

impl ObjectiveFunction for Obj {
    fn evaluate(&mut self, x: &DVector<f64>) -> f64 {
        self.rec.excl.fetch_add(1, Ordering::SeqCst);
        if self.rec.inflight.load(Ordering::SeqCst) != 0 {
            self.rec.overlap.fetch_add(1, Ordering::SeqCst);
        }
        self.call(x)
    }
}

impl ParallelObjectiveFunction for Obj {
    fn evaluate_parallel(&self, x: &DVector<f64>) -> f64 {
        self.call(x)
    }
}

impl ObjectiveFunction for &mut Obj {
    fn evaluate(&mut self, x: &DVector<f64>) -> f64 {
        (**self).evaluate(x)
    }
}

impl ParallelObjectiveFunction for &Obj {
    fn evaluate_parallel(&self, x: &DVector<f64>) -> f64 {
        (**self).call(x)
    }
}

// ---- constraints ----------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
pub enum Feas {
    Box(Vec<f64>, Vec<f64>),
    /// `x[0] >= a`
    Half(f64),
    /// Within a distance of a point
    Ball(f64, f64),
    /// A hash of the point, feasible with this probability
    Hash(f64),
    Always,
    Never,
}

impl Feas {
    pub fn ok(&self, x: &[f64]) -> bool {
        match self {
            Feas::Box(l, u) => (0..x.len()).all(|i| x[i] >= l[i] && x[i] <= u[i]),
            Feas::Half(a) => x[0] >= *a,
            Feas::Ball(c, r) => x.iter().map(|a| (a - c) * (a - c)).sum::<f64>() <= r * r,
            Feas::Hash(p) => hash01(x) < *p,
            Feas::Always => true,
            Feas::Never => false,
        }
    }
}

pub struct ConsRec {
    pub calls: Mutex<Vec<(Vec<f64>, bool)>>,
    pub n: AtomicU64,
    pub cap: AtomicU64,
}

#[derive(Clone)]
pub struct Con {
    pub feas: Feas,
    pub rec: Arc<ConsRec>,
}

impl std::fmt::Debug for Con {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{:?}", self.feas)
    }
}

impl Constraints for Con {
    fn meets_constraints(&self, x: &DVector<f64>) -> bool {
        let k = self.rec.n.fetch_add(1, Ordering::Relaxed);
        if k >= self.rec.cap.load(Ordering::Relaxed) {
            panic!("{} more than {} constraint checks", CAP, k);
        }
        if k % 1024 == 0 {
            beat();
        }
        let ok = self.feas.ok(x.as_slice());
        self.rec
            .calls
            .lock()
            .unwrap_or_else(|e| e.into_inner())
            .push((x.as_slice().to_vec(), ok));
        ok
    }
    fn clone_box(&self) -> Box<dyn Constraints> {
        Box::new(self.clone())
    }
}

// ---- configuration --------------------------------------------------------------------------

#[derive(Clone, Debug)]
pub struct Cfg {
    pub mean: Vec<f64>,
    pub sigma: f64,
    pub lambda: Option<usize>,
    pub weights: Weights,
    pub cm: Option<f64>,
    pub mode: Mode,
    pub par_update: bool,
    pub cons: Option<Feas>,
    /// Through `CMAESOptions::bounds` instead of the recording constraints
    pub plain_bounds: bool,
    pub max_resamples: Option<Option<usize>>,
    pub max_evals: Option<usize>,
    pub max_gens: Option<usize>,
    pub max_time: Option<Duration>,
    pub fun_target: Option<f64>,
    pub tol_fun: Option<f64>,
    pub tol_fun_rel: Option<f64>,
    pub tol_fun_hist: Option<f64>,
    pub tol_x: Option<f64>,
    pub tol_stagnation: Option<usize>,
    pub tol_x_up: Option<f64>,
    pub tol_condition_cov: Option<f64>,
    pub seed: Option<u64>,
    pub plot: Option<usize>,
    pub plot_sci: bool,
    pub print: Option<usize>,
}

impl Cfg {
    pub fn new(mean: Vec<f64>, sigma: f64) -> Self {
        Cfg {
            mean,
            sigma,
            lambda: None,
            weights: Weights::Negative,
            cm: None,
            mode: Mode::Minimize,
            par_update: false,
            cons: None,
            plain_bounds: false,
            max_resamples: None,
            max_evals: None,
            max_gens: None,
            max_time: None,
            fun_target: None,
            tol_fun: None,
            tol_fun_rel: None,
            tol_fun_hist: None,
            tol_x: None,
            tol_stagnation: None,
            tol_x_up: None,
            tol_condition_cov: None,
            seed: Some(1),
            plot: None,
            plot_sci: false,
            print: None,
        }
    }

    pub fn dim(&self) -> usize {
        self.mean.len()
    }

    pub fn lambda(&self) -> usize {
        self.lambda.unwrap_or(default_lambda(self.dim()))
    }

    /// The options without the constraints
    pub fn options(&self) -> CMAESOptions {
        let mut o = CMAESOptions::new(self.mean.clone(), self.sigma)
            .mode(self.mode)
            .weights(self.weights)
            .parallel_update(self.par_update);
        if let Some(l) = self.lambda {
            o = o.population_size(l);
        }
        if let Some(x) = self.cm {
            o = o.cm(x);
        }
        if let Some(x) = self.max_resamples {
            o = o.max_resamples(x);
        }
        if let Some(x) = self.max_evals {
            o = o.max_function_evals(x);
        }
        if let Some(x) = self.max_gens {
            o = o.max_generations(x);
        }
        if let Some(x) = self.max_time {
            o = o.max_time(x);
        }
        if let Some(x) = self.fun_target {
            o = o.fun_target(x);
        }
        if let Some(x) = self.tol_fun {
            o = o.tol_fun(x);
        }
        if let Some(x) = self.tol_fun_rel {
            o = o.tol_fun_rel(x);
        }
        if let Some(x) = self.tol_fun_hist {
            o = o.tol_fun_hist(x);
        }
        if let Some(x) = self.tol_x {
            o = o.tol_x(x);
        }
        if let Some(x) = self.tol_stagnation {
            o = o.tol_stagnation(x);
        }
        if let Some(x) = self.tol_x_up {
            o = o.tol_x_up(x);
        }
        if let Some(x) = self.tol_condition_cov {
            o = o.tol_condition_cov(x);
        }
        if let Some(x) = self.seed {
            o = o.seed(x);
        }
        #[cfg(feature = "plot")]
        if let Some(x) = self.plot {
            o = o.enable_plot(cmaes::PlotOptions::new(x, self.plot_sci));
        }
        if let Some(x) = self.print {
            o = o.enable_printing(x);
        }
        o
    }

    /// The options with the constraints, which are recorded unless `plain_bounds` is set
    pub fn options_with_constraints(&self) -> (CMAESOptions, Option<Arc<ConsRec>>) {
        let o = self.options();
        match &self.cons {
            None => (o, None),
            Some(Feas::Box(l, u)) if self.plain_bounds => (o.bounds(l.clone(), u.clone()), None),
            Some(f) => {
                let rec = Arc::new(ConsRec {
                    calls: Mutex::new(vec![]),
                    n: AtomicU64::new(0),
                    cap: AtomicU64::new(40_000_000),
                });
                (
                    o.constraints(Box::new(Con {
                        feas: f.clone(),
                        rec: rec.clone(),
                    })),
                    Some(rec),
                )
            }
        }
    }
}

pub fn default_lambda(n: usize) -> usize {
    4 + (3.0 * (n as f64).ln()).floor() as usize
}

// ---- observation ----------------------------------------------------------------------------

#[derive(Clone, Debug)]
pub struct Snap {
    pub mean: Vec<f64>,
    pub sigma: f64,
    /// Column-major
    pub cov: Vec<f64>,
    pub eig: Vec<f64>,
    pub axis: f64,
    pub generation: usize,
    pub evals: usize,
    pub cur: Option<(Vec<f64>, f64)>,
    pub best: Option<(Vec<f64>, f64)>,
}

fn ind(i: Option<&Individual>) -> Option<(Vec<f64>, f64)> {
    i.map(|i| (i.point.as_slice().to_vec(), i.value))
}

pub fn snap<F>(c: &CMAES<F>) -> Snap {
    Snap {
        mean: c.mean().as_slice().to_vec(),
        sigma: c.sigma(),
        cov: c.covariance_matrix().as_slice().to_vec(),
        eig: c.eigenvalues().as_slice().to_vec(),
        axis: c.axis_ratio(),
        generation: c.generation(),
        evals: c.function_evals(),
        cur: ind(c.current_best_individual()),
        best: ind(c.overall_best_individual()),
    }
}

fn hash_ind(h: &mut Fnv, i: &Option<(Vec<f64>, f64)>) {
    match i {
        None => h.u64(0),
        Some((x, v)) => {
            h.fs(x);
            h.f(*v);
        }
    }
}

impl Snap {
    pub fn hash(&self, h: &mut Fnv) {
        h.fs(&self.mean);
        h.f(self.sigma);
        h.fs(&self.cov);
        h.fs(&self.eig);
        h.f(self.axis);
        h.u64(self.generation as u64);
        h.u64(self.evals as u64);
        hash_ind(h, &self.cur);
        hash_ind(h, &self.best);
    }
    /// Whether the distribution, counters (except evaluations) and bests are bitwise equal
    /// Distance of a point to the mean in terms of the covariance matrix
    pub fn distance(&self, x: &[f64]) -> f64 {
        let n = self.mean.len();
        let w = jacobi(&Mat {
            n,
            a: self.cov.clone(),
        })
        .inv_sqrt();
        let d: Vec<f64> = x.iter().zip(&self.mean).map(|(a, b)| (a - b) / self.sigma).collect();
        norm(&w.mulv(&d))
    }
    pub fn same_except_evals(&self, o: &Snap) -> Result<(), String> {
        use crate::util::bits_eq;
        let opt = |a: &Option<(Vec<f64>, f64)>, b: &Option<(Vec<f64>, f64)>| match (a, b) {
            (None, None) => true,
            (Some((x, v)), Some((y, w))) => bits_eq(x, y) && v.to_bits() == w.to_bits(),
            _ => false,
        };
        let bad = if !bits_eq(&self.mean, &o.mean) {
            "mean"
        } else if self.sigma.to_bits() != o.sigma.to_bits() {
            "sigma"
        } else if !bits_eq(&self.cov, &o.cov) {
            "covariance matrix"
        } else if !bits_eq(&self.eig, &o.eig) {
            "eigenvalues"
        } else if self.axis.to_bits() != o.axis.to_bits() {
            "axis ratio"
        } else if self.generation != o.generation {
            "generation"
        } else if !opt(&self.cur, &o.cur) {
            "current best"
        } else if !opt(&self.best, &o.best) {
            "overall best"
        } else {
            return Ok(());
        };
        Err(bad.to_string())
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Api {
    Seq,
    Par,
}

#[derive(Clone, Debug)]
pub struct Term {
    pub reasons: Vec<TerminationReason>,
    pub cur: Option<(Vec<f64>, f64)>,
    pub best: Option<(Vec<f64>, f64)>,
    pub mean: Vec<f64>,
}

pub fn term(t: &TerminationData) -> Term {
    Term {
        reasons: t.reasons.clone(),
        cur: ind(t.current_best.as_ref()),
        best: ind(t.overall_best.as_ref()),
        mean: t.final_mean.as_slice().to_vec(),
    }
}

#[derive(Clone, Debug)]
pub struct Gen {
    pub api: Api,
    pub evs: Vec<Ev>,
    pub cons: Vec<(Vec<f64>, bool)>,
    pub term: Option<Term>,
    pub panic: Option<PanicInfo>,
    pub snap: Snap,
    /// `elapsed` since creation before and after the call
    pub t0: Duration,
    pub t1: Duration,
}

impl Gen {
    pub fn reasons(&self) -> &[TerminationReason] {
        self.term.as_ref().map(|t| &t.reasons[..]).unwrap_or(&[])
    }
    pub fn has(&self, r: TerminationReason) -> bool {
        self.reasons().contains(&r)
    }
    /// Whether the generation was evaluated completely without an invalid value
    pub fn complete(&self) -> bool {
        self.panic.is_none() && self.evs.iter().all(|e| !e.v.is_nan())
    }
    pub fn hash(&self, h: &mut Fnv) {
        // The order of parallel evaluations is not part of the behaviour
        let mut e: Vec<u64> = self
            .evs
            .iter()
            .map(|e| {
                let mut h = Fnv::new();
                h.fs(&e.x);
                h.f(e.v);
                h.get()
            })
            .collect();
        e.sort();
        for x in e {
            h.u64(x);
        }
        h.u64(self.reasons().len() as u64);
        for r in self.reasons() {
            h.bytes(format!("{:?}", r).as_bytes());
        }
        self.snap.hash(h);
    }
}

/// The reported strategy parameters
#[derive(Clone, Debug)]
pub struct Par {
    pub dim: usize,
    pub lambda: usize,
    pub mu: usize,
    pub mu_eff: f64,
    pub w: Vec<f64>,
    pub cc: f64,
    pub c1: f64,
    pub cs: f64,
    pub cmu: f64,
    pub cm: f64,
    pub ds: f64,
    pub sigma0: f64,
    pub seed: u64,
    pub tol_fun: f64,
    pub tol_fun_rel: f64,
    pub tol_fun_hist: f64,
    pub tol_x: f64,
    pub tol_stagnation: usize,
    pub tol_x_up: f64,
    pub tol_condition_cov: f64,
}

impl Par {
    pub fn of<F>(c: &CMAES<F>) -> Par {
        let p = c.parameters();
        Par {
            dim: p.dim(),
            lambda: p.lambda(),
            mu: p.mu(),
            mu_eff: p.mu_eff(),
            w: p.weights().as_slice().to_vec(),
            cc: p.cc(),
            c1: p.c1(),
            cs: p.cs(),
            cmu: p.cmu(),
            cm: p.cm(),
            ds: p.damp_s(),
            sigma0: p.initial_sigma(),
            seed: p.seed(),
            tol_fun: p.tol_fun(),
            tol_fun_rel: p.tol_fun_rel(),
            tol_fun_hist: p.tol_fun_hist(),
            tol_x: p.tol_x(),
            tol_stagnation: p.tol_stagnation(),
            tol_x_up: p.tol_x_up(),
            tol_condition_cov: p.tol_condition_cov(),
        }
    }
    /// The documented number of evaluations between two refreshes of the decomposition
    pub fn eigen_interval(&self) -> usize {
        let n = self.dim as f64;
        (0.5 * n * self.lambda as f64 / ((self.c1 + self.cmu) * (self.dim.pow(2)) as f64)).ceil()
            as usize
    }
}

pub struct Sim {
    pub cm: CMAES<Obj>,
    pub rec: Arc<Rec>,
    pub cons: Option<Arc<ConsRec>>,
    pub par: Par,
    pub cfg: Cfg,
    pub last: Snap,
}

#[derive(Clone, Debug)]
pub struct Problem {
    pub fun: Fun,
    pub shift: f64,
    pub neg: bool,
    pub faults: Faults,
    pub delay: u64,
    pub stamp: bool,
    pub zero_signs: bool,
}

impl Problem {
    pub fn new(fun: Fun, shift: f64) -> Self {
        Problem {
            fun,
            shift,
            neg: false,
            faults: Faults::default(),
            delay: 0,
            stamp: false,
            zero_signs: false,
        }
    }
    pub fn obj(&self, rec: Arc<Rec>) -> Obj {
        let mut o = Obj::new(self.fun.clone(), self.shift, rec);
        o.neg = self.neg;
        o.faults = self.faults.clone();
        o.delay = self.delay;
        o.stamp = self.stamp;
        o.zero_signs = self.zero_signs;
        o
    }
}

impl Sim {
    pub fn new(cfg: &Cfg, p: &Problem) -> Result<Sim, String> {
        Self::with(cfg, |rec| p.obj(rec))
    }
    pub fn with(cfg: &Cfg, f: impl FnOnce(Arc<Rec>) -> Obj) -> Result<Sim, String> {
        let rec = Rec::new();
        let (o, cons) = cfg.options_with_constraints();
        let cm = o
            .build(f(rec.clone()))
            .map_err(|e| format!("valid options were rejected: {:?}", e))?;
        let par = Par::of(&cm);
        let last = snap(&cm);
        Ok(Sim {
            cm,
            rec,
            cons,
            par,
            cfg: cfg.clone(),
            last,
        })
    }

    /// Advances one generation. Panics of the library are passed on, injected ones are recorded.
    pub fn step(&mut self, api: Api) -> Gen {
        beat();
        let t0 = self.cm.time_created().elapsed();
        let r = guarded(|| match api {
            Api::Seq => self.cm.next(),
            Api::Par => self.cm.next_parallel(),
        });
        let t1 = self.cm.time_created().elapsed();
        let (term, panic) = match r {
            Ok(t) => (t.as_ref().map(term), None),
            Err(p) if p.is_injected() => (None, Some(p)),
            // Passed on with the original location
            Err(p) if p.is_cap() => panic!("{}", p.msg),
            Err(p) => std::panic::resume_unwind(Box::new(p.text())),
        };
        let cons = match &self.cons {
            Some(c) => std::mem::take(&mut *c.calls.lock().unwrap_or_else(|e| e.into_inner())),
            None => vec![],
        };
        let s = snap(&self.cm);
        self.last = s.clone();
        Gen {
            api,
            evs: self.rec.take(),
            cons,
            term,
            panic,
            snap: s,
            t0,
            t1,
        }
    }
}

// ---- random cases ---------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ApiMode {
    Seq,
    Par,
    Mixed,
}

impl ApiMode {
    pub fn pick(&self, rng: &mut Rng) -> Api {
        match self {
            ApiMode::Seq => Api::Seq,
            ApiMode::Par => Api::Par,
            ApiMode::Mixed => {
                if rng.chance(0.5) {
                    Api::Seq
                } else {
                    Api::Par
                }
            }
        }
    }
}

pub const DIMS: &[usize] = &[1, 2, 2, 3, 3, 4, 5, 5, 7, 10, 13, 20];

pub fn rand_weights(rng: &mut Rng) -> Weights {
    *rng.pick(&[
        Weights::Negative,
        Weights::Negative,
        Weights::Positive,
        Weights::Uniform,
    ])
}

pub fn rand_mode(rng: &mut Rng) -> Mode {
    *rng.pick(&[Mode::Minimize, Mode::Maximize])
}

/// A configuration with random dimension, population, weights, mode, start and step size
pub fn rand_cfg(rng: &mut Rng) -> Cfg {
    if rng.chance(0.02) {
        let n = *rng.pick(&[26, 33, 40, 50, 66, 80, 104, 130]);
        let mut c = rand_cfg_dim(rng, n);
        c.lambda = if rng.chance(0.5) { None } else { Some(rng.int(2, 30)) };
        return c;
    }
    let n = *rng.pick(DIMS);
    let mut c = rand_cfg_dim(rng, n);
    if n <= 7 && rng.chance(0.03) {
        c.lambda = Some(rng.int(60, 300));
    }
    c
}

/// A small problem that goes on for more generations than the history holds
pub fn long_case(rng: &mut Rng) -> (Cfg, Problem, usize) {
    let n = rng.int(1, 3);
    let mut c = rand_cfg_dim(rng, n);
    c.lambda = Some(rng.int(2, 5));
    if rng.chance(0.5) {
        c.weights = Weights::Positive;
    }
    let fun = match rng.below(6) {
        0 => Fun::IntNoise(1_000_000),
        1 => Fun::Noise,
        2 => Fun::NoisySphere(1.0),
        3 => Fun::Const(1.0),
        4 => Fun::Rare(3000, *rng.pick(&[-1.0, f64::INFINITY, f64::NEG_INFINITY])),
        _ => Fun::Sphere,
    };
    let mut p = Problem::new(fun, 0.0);
    p.neg = rng.chance(0.5);
    (c, p, if rng.chance(0.1) { 41_000 } else { 20_000 + rng.int(10, 3000) })
}

/// A huge population, for totals that leave the usual range within a few generations. The single
/// events should not be recorded (`keep`).
pub fn many_case(rng: &mut Rng, lo: usize, hi: usize) -> (Cfg, Problem) {
    let mut c = rand_cfg_dim(rng, 1);
    c.lambda = Some(rng.int(lo, hi) | 1);
    c.cm = None;
    c.weights = Weights::Positive;
    c.par_update = rng.chance(0.5);
    let mut p = Problem::new(Fun::Noise, 0.0);
    p.neg = rng.chance(0.5);
    (c, p)
}

pub fn rand_cfg_dim(rng: &mut Rng, n: usize) -> Cfg {
    let m = *rng.pick(&[0.0, 0.1, 1.0, 1.0, 3.0, 10.0, -5.0, 1000.0]);
    let mean = (0..n).map(|_| m + rng.range(-1.0, 1.0)).collect();
    let mut c = Cfg::new(mean, rng.log_range(1e-2, 10.0));
    c.lambda = match rng.below(8) {
        0..=2 => None,
        3 => Some(2),
        4 => Some(3),
        5 => Some(rng.int(4, 12)),
        6 => Some(5 + 2 * rng.below(6)),
        _ => Some(rng.int(12, 60)),
    };
    c.weights = rand_weights(rng);
    if rng.chance(0.2) {
        c.cm = Some(*rng.pick(&[1.0, 0.5, 0.1, 0.9, 1e-3]));
    }
    c.mode = rand_mode(rng);
    c.par_update = rng.chance(0.2);
    c.seed = Some(match rng.below(6) {
        0 => rng.below(5) as u64,
        1 => u64::MAX - rng.below(3) as u64,
        _ => rng.u64(),
    });
    c
}

/// A well-behaved function for the mode of the configuration, which has an optimum
pub fn rand_smooth(rng: &mut Rng) -> Fun {
    match rng.below(9) {
        0 | 1 => Fun::Sphere,
        2 => Fun::Elli(1e3),
        3 => Fun::RotElli(1e3, rng.below(4) as u64),
        4 => Fun::Cigar,
        5 => Fun::Rosen,
        6 => Fun::DiffPow,
        7 => Fun::Rastrigin,
        _ => Fun::NoisySphere(0.3),
    }
}

/// Any function
pub fn rand_fun(rng: &mut Rng) -> Fun {
    match rng.below(21) {
        0..=8 => rand_smooth(rng),
        20 => Fun::Rare(rng.int(5, 200) as u64, *rng.pick(&[f64::INFINITY, f64::NEG_INFINITY, 1e300, 0.0, -0.0])),
        9 => Fun::Linear,
        10 => Fun::Step(rng.log_range(1e-3, 10.0)),
        11 => Fun::Const(*rng.pick(&[0.0, -0.0, 1.0, -3.5, 1e300])),
        12 => Fun::Noise,
        13 => Fun::IntSphere(1000),
        14 => Fun::IntNoise(rng.int(1, 6) as i64),
        15 => Fun::HalfInf(rng.range(-1.0, 3.0)),
        16 => Fun::IntLinear,
        17 => Fun::Plateau(rng.log_range(1e-2, 1.0)),
        18 => Fun::Hostile(vec![f64::INFINITY, f64::NEG_INFINITY, 0.0, 1.0, -1.0]),
        _ => Fun::Scaled(*rng.pick(&[1e-300, 1e300, 1e-20, 1e20])),
    }
}

pub fn rand_api(rng: &mut Rng) -> ApiMode {
    *rng.pick(&[ApiMode::Seq, ApiMode::Seq, ApiMode::Par, ApiMode::Mixed])
}

/// Constraints that a point near the mean has a fair chance to meet
pub fn rand_feas(rng: &mut Rng, c: &Cfg) -> Feas {
    let n = c.dim();
    match rng.below(5) {
        0 | 1 => {
            let (mut l, mut u) = (vec![], vec![]);
            for i in 0..n {
                let k = rng.range(0.3, 3.0) * (n as f64).sqrt();
                l.push(if rng.chance(0.3) {
                    f64::NEG_INFINITY
                } else {
                    c.mean[i] - c.sigma * k
                });
                u.push(if rng.chance(0.3) {
                    f64::INFINITY
                } else {
                    c.mean[i] + c.sigma * k * rng.range(0.1, 1.0)
                });
            }
            Feas::Box(l, u)
        }
        2 => Feas::Half(c.mean[0] + c.sigma * rng.range(-2.0, 0.8)),
        3 => Feas::Hash(rng.range(0.2, 0.95)),
        _ => Feas::Ball(
            c.mean.iter().sum::<f64>() / n as f64,
            (c.sigma + 1.5) * (n as f64).sqrt() * rng.range(0.8, 2.0),
        ),
    }
}

pub fn better(mode: Mode, a: f64, b: f64) -> bool {
    match mode {
        Mode::Minimize => a < b,
        Mode::Maximize => a > b,
    }
}

/// Sorts values from best to worst
pub fn rank_cmp(mode: Mode, a: f64, b: f64) -> std::cmp::Ordering {
    let o = a.partial_cmp(&b).unwrap_or(std::cmp::Ordering::Equal);
    match mode {
        Mode::Minimize => o,
        Mode::Maximize => o.reverse(),
    }
}
