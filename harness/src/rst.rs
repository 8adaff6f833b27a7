//! Restart strategies: configuration, execution with recorders, and parsing of their output.

use cmaes::restart::{
    Local, RestartOptions, RestartResults, RestartStrategy, RestartTerminationReason, Restarter,
    BIPOP, IPOP,
};
use cmaes::Mode;
use std::collections::HashMap;
use std::sync::atomic::Ordering;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use crate::core::beat;
use crate::sim::*;
use crate::util::Rng;

// ---- capturing the standard output ----------------------------------------------------------

/// Runs `f` and returns what was printed to the standard output meanwhile. Only one at a time.
pub fn capture<T>(f: impl FnOnce() -> T) -> (T, String) {
    static LOCK: Mutex<()> = Mutex::new(());
    use std::io::{Read, Seek, Write};
    use std::os::fd::FromRawFd;
    let _l = LOCK.lock().unwrap_or_else(|e| e.into_inner());
    let _ = std::io::stdout().flush();
    let (old, mem) = unsafe {
        let mem = libc::memfd_create(b"out\0".as_ptr() as *const _, 0);
        assert!(mem >= 0, "memfd_create failed");
        let old = libc::dup(1);
        libc::dup2(mem, 1);
        (old, mem)
    };
    struct Restore(i32);
    impl Drop for Restore {
        fn drop(&mut self) {
            let _ = std::io::stdout().flush();
            unsafe {
                libc::dup2(self.0, 1);
                libc::close(self.0);
            }
        }
    }
    let mut file = unsafe { std::fs::File::from_raw_fd(mem) };
    let r = {
        let _r = Restore(old);
        f()
    };
    let mut s = String::new();
    file.rewind().unwrap();
    file.read_to_string(&mut s).unwrap();
    (r, s)
}

// ---- configuration --------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
pub enum Strat {
    Local(usize, Option<f64>),
    Ipop(Option<usize>),
    Bipop(Option<f64>, Option<usize>),
}

impl Strat {
    pub fn build(&self) -> RestartStrategy {
        match self {
            Strat::Local(n, f) => RestartStrategy::Local(Local::new(*n, *f).unwrap()),
            Strat::Ipop(None) => RestartStrategy::IPOP(IPOP::default()),
            Strat::Ipop(Some(f)) => RestartStrategy::IPOP(IPOP::new(*f).unwrap()),
            Strat::Bipop(None, None) => RestartStrategy::BIPOP(BIPOP::default()),
            Strat::Bipop(f, i) => RestartStrategy::BIPOP(BIPOP::new(*f, *i).unwrap()),
        }
    }
    pub fn step_factor(&self) -> f64 {
        match self {
            Strat::Local(_, f) => f.unwrap_or(0.5),
            Strat::Bipop(f, _) => f.unwrap_or(0.2),
            _ => f64::NAN,
        }
    }
    pub fn pop_factor(&self) -> usize {
        match self {
            Strat::Ipop(f) => f.unwrap_or(2),
            Strat::Bipop(_, f) => f.unwrap_or(2),
            _ => 1,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RApi {
    Run,
    Reuse,
    Par,
    ParReuse,
}

pub const RAPIS: [RApi; 4] = [RApi::Run, RApi::Reuse, RApi::Par, RApi::ParReuse];

impl RApi {
    pub fn reuse(&self) -> bool {
        matches!(self, RApi::Reuse | RApi::ParReuse)
    }
    pub fn par(&self) -> bool {
        matches!(self, RApi::Par | RApi::ParReuse)
    }
}

#[derive(Clone, Debug)]
pub struct RCfg {
    pub dim: usize,
    pub lo: f64,
    pub hi: f64,
    pub strat: Strat,
    pub mode: Mode,
    pub par_update: bool,
    pub defaults: Option<Cfg>,
    pub fun_target: Option<f64>,
    pub max_evals: Option<usize>,
    pub max_time: Option<Duration>,
    pub run_evals: Option<usize>,
    pub run_gens: Option<usize>,
    pub print: bool,
    pub seed: Option<u64>,
}

impl RCfg {
    pub fn new(dim: usize, lo: f64, hi: f64, strat: Strat) -> Self {
        RCfg {
            dim,
            lo,
            hi,
            strat,
            mode: Mode::Minimize,
            par_update: false,
            defaults: None,
            fun_target: None,
            max_evals: None,
            max_time: None,
            run_evals: None,
            run_gens: None,
            print: true,
            seed: Some(1),
        }
    }
    pub fn width(&self) -> f64 {
        (self.hi - self.lo).abs()
    }
    /// The population size of the first run
    pub fn lambda0(&self) -> usize {
        self.defaults
            .as_ref()
            .and_then(|d| d.lambda)
            .unwrap_or(default_lambda(self.dim))
    }
    pub fn options(&self) -> RestartOptions {
        let mut o = RestartOptions::new(self.dim, self.lo..=self.hi, self.strat.build())
            .mode(self.mode)
            .parallel_update(self.par_update)
            .enable_printing(self.print);
        if let Some(d) = &self.defaults {
            o = o.default_options(d.options_with_constraints().0);
        }
        if let Some(x) = self.fun_target {
            o = o.fun_target(x);
        }
        if let Some(x) = self.max_evals {
            o = o.max_function_evals(x);
        }
        if let Some(x) = self.max_time {
            o = o.max_time(x);
        }
        if let Some(x) = self.run_evals {
            o = o.max_function_evals_per_run(x);
        }
        if let Some(x) = self.run_gens {
            o = o.max_generations_per_run(x);
        }
        if let Some(x) = self.seed {
            o = o.seed(x);
        }
        o
    }
    pub fn build(&self) -> Result<Restarter, String> {
        self.options()
            .build()
            .map_err(|e| format!("valid restart options were rejected: {:?}", e))
    }
}

// ---- observation ----------------------------------------------------------------------------

#[derive(Clone, Debug)]
pub struct Printed {
    pub lambda: usize,
    pub sigma0: String,
    pub seed: u64,
    pub best: Option<String>,
    pub reasons: Vec<String>,
    pub evals: usize,
}

#[derive(Clone, Debug)]
pub struct RunObs {
    pub evs: Vec<Ev>,
    pub started: Option<Instant>,
    pub printed: Option<Printed>,
}

pub struct RestObs {
    pub reason: RestartTerminationReason,
    pub evals: usize,
    pub runs_reported: usize,
    pub best: Option<(Vec<f64>, f64)>,
    pub seed: u64,
    pub runs: Vec<RunObs>,
    pub stdout: String,
    pub t0: Instant,
    pub t1: Instant,
    pub factories: usize,
    pub drops: Vec<u64>,
    pub calls: usize,
    pub excl_overlap: u64,
}

/// Parses the lines of the runs
pub fn parse_runs(out: &str) -> Result<Vec<Printed>, String> {
    let mut v: Vec<Printed> = vec![];
    let mut open = false;
    for l in out.lines() {
        let Some(r) = l.strip_prefix("Run ") else {
            continue;
        };
        let (k, rest) = r.split_once(' ').ok_or("cannot parse a line of a run")?;
        let k: usize = k.parse().map_err(|_| format!("run number in {:?}", l))?;
        if let Some(p) = rest.strip_prefix("parameters: ") {
            if open || k != v.len() + 1 {
                return Err(format!("unexpected line {:?}", l));
            }
            let mut m = HashMap::new();
            for kv in p.split(", ") {
                let (a, b) = kv.split_once('=').ok_or(format!("cannot parse {:?}", l))?;
                m.insert(a, b.trim().to_string());
            }
            let get = |x: &str| m.get(x).cloned().ok_or(format!("no {} in {:?}", x, l));
            v.push(Printed {
                lambda: get("lambda")?.parse().map_err(|_| format!("lambda in {:?}", l))?,
                sigma0: get("sigma0")?,
                seed: get("seed")?.parse().map_err(|_| format!("seed in {:?}", l))?,
                best: None,
                reasons: vec![],
                evals: 0,
            });
            open = true;
        } else if let Some(p) = rest.strip_prefix("results: ") {
            if !open || k != v.len() {
                return Err(format!("unexpected line {:?}", l));
            }
            open = false;
            let e = v.last_mut().unwrap();
            let p = p.strip_prefix("best f-val=").ok_or(format!("cannot parse {:?}", l))?;
            let (best, p) = p
                .split_once(", termination_reasons=[")
                .ok_or(format!("cannot parse {:?}", l))?;
            let (rs, p) = p.split_once("], f-evals=").ok_or(format!("cannot parse {:?}", l))?;
            e.best = match best.trim() {
                "None" => None,
                b => Some(b.to_string()),
            };
            e.reasons = rs
                .split(", ")
                .filter(|r| !r.is_empty())
                .map(|r| r.trim_matches('`').to_string())
                .collect();
            e.evals = p.trim().parse().map_err(|_| format!("f-evals in {:?}", l))?;
        } else {
            return Err(format!("unexpected line {:?}", l));
        }
    }
    if open {
        return Err("a run without a line of results".into());
    }
    Ok(v)
}

/// Executes a strategy with an objective from `make(run)` and records everything
pub fn observe(
    cfg: &RCfg,
    api: RApi,
    make: &mut dyn FnMut(usize, Arc<Rec>) -> Obj,
) -> Result<RestObs, String> {
    let r = cfg.build()?;
    observe_restarter(r, api, cfg.print, make)
}

pub fn observe_restarter(
    r: Restarter,
    api: RApi,
    print: bool,
    make: &mut dyn FnMut(usize, Arc<Rec>) -> Obj,
) -> Result<RestObs, String> {
    beat();
    let seed = r.seed();
    let mut recs: Vec<(Arc<Rec>, Instant)> = vec![];
    let t0 = Instant::now();
    let go = || -> RestartResults {
        let mut factory = || {
            let rec = Rec::new();
            recs.push((rec.clone(), Instant::now()));
            beat();
            make(recs.len() - 1, rec)
        };
        match api {
            RApi::Run => r.run(factory),
            RApi::Par => r.run_parallel(factory),
            RApi::Reuse => {
                let o = factory();
                r.run_with_reuse(o)
            }
            RApi::ParReuse => {
                let o = factory();
                r.run_parallel_with_reuse(o)
            }
        }
    };
    let (res, stdout) = if print {
        capture(go)
    } else {
        (go(), String::new())
    };
    let t1 = Instant::now();
    let printed = parse_runs(&stdout)?;
    let calls: u64 = recs.iter().map(|r| r.0.count()).sum();
    let drops = recs.iter().map(|r| r.0.drops.load(Ordering::SeqCst)).collect();
    let excl_overlap = recs.iter().map(|r| r.0.overlap.load(Ordering::SeqCst)).sum();
    let mut runs = vec![];
    let mut k = 0;
    if api.reuse() {
        let mut all = recs[0].0.take().into_iter();
        for p in printed {
            let evs: Vec<Ev> = all.by_ref().take(p.evals).collect();
            runs.push(RunObs {
                evs,
                started: None,
                printed: Some(p),
            });
        }
        let rest: Vec<Ev> = all.collect();
        if !rest.is_empty() {
            runs.push(RunObs {
                evs: rest,
                started: None,
                printed: None,
            });
        }
    } else {
        let mut p = printed.into_iter();
        for (rec, at) in &recs {
            runs.push(RunObs {
                evs: rec.take(),
                started: Some(*at),
                printed: p.next(),
            });
        }
        k = recs.len();
        if p.next().is_some() {
            return Err("more runs were printed than objectives obtained".into());
        }
    }
    Ok(RestObs {
        reason: res.reason,
        evals: res.function_evals,
        runs_reported: res.runs,
        best: res.best.map(|i| (i.point.as_slice().to_vec(), i.value)),
        seed,
        runs,
        stdout,
        t0,
        t1,
        factories: k,
        drops,
        calls: calls as usize,
        excl_overlap,
    })
}

// ---- random cases ---------------------------------------------------------------------------

/// Restart options whose runs end soon
pub fn rand_rcfg(rng: &mut Rng) -> RCfg {
    let dim = if rng.chance(0.08) {
        *rng.pick(&[12, 17, 24, 33, 40])
    } else {
        *rng.pick(&[1, 1, 2, 2, 3, 4, 6, 10])
    };
    let strat = match rng.below(6) {
        0 => Strat::Local(*rng.pick(&[0, 1, 2, 3, 7, 20]), None),
        1 => Strat::Local(rng.int(1, 12), Some(rng.log_range(1e-3, 100.0))),
        2 => Strat::Ipop(None),
        3 => Strat::Ipop(Some(rng.int(1, 2))),
        4 => Strat::Bipop(None, None),
        _ => Strat::Bipop(
            if rng.chance(0.7) { Some(rng.log_range(1e-2, 10.0)) } else { None },
            if rng.chance(0.5) { Some(rng.int(1, 3)) } else { None },
        ),
    };
    let (lo, hi) = match rng.below(5) {
        0 => (-5.0, 5.0),
        1 => (3.0, -2.0),
        2 => (100.0, 101.0),
        3 => (-1e-3, 2e-3),
        _ => {
            let a = rng.range(-10.0, 10.0);
            (a, a + rng.log_range(0.1, 100.0))
        }
    };
    let mut c = RCfg::new(dim, lo, hi, strat);
    c.mode = rand_mode(rng);
    c.par_update = rng.chance(0.1);
    c.seed = Some(match rng.below(5) {
        0 => rng.below(3) as u64,
        1 => u64::MAX - rng.below(2) as u64,
        _ => rng.u64(),
    });
    if rng.chance(0.4) {
        let mut d = Cfg::new(vec![0.0; dim], 0.7);
        d.seed = if rng.chance(0.5) { Some(5) } else { None };
        if rng.chance(0.5) {
            d.lambda = Some(rng.int(2, 20));
        }
        d.weights = rand_weights(rng);
        if rng.chance(0.3) {
            d.cm = Some(0.5);
        }
        if rng.chance(0.3) {
            d.tol_fun_hist = Some(f64::INFINITY);
        }
        // Other reasons for which runs end, at once or never
        if rng.chance(0.35) {
            for _ in 0..rng.int(1, 2) {
                match rng.below(7) {
                    0 => d.tol_x = Some(*rng.pick(&[1e9, 0.0])),
                    1 => d.tol_x_up = Some(*rng.pick(&[1e-3, 1e300])),
                    2 => d.tol_condition_cov = Some(*rng.pick(&[0.5, 1e300])),
                    3 => d.tol_stagnation = Some(*rng.pick(&[0, 1, 10_000])),
                    4 => d.tol_fun = Some(*rng.pick(&[1e300, 0.0])),
                    5 => d.tol_fun_rel = Some(*rng.pick(&[0.9, 0.0])),
                    _ => d.tol_fun_hist = Some(*rng.pick(&[1e300, 0.0])),
                }
            }
        }
        // Overridden by the options of the strategy
        if rng.chance(0.3) {
            d.mode = rand_mode(rng);
            d.par_update = rng.chance(0.2);
        }
        c.defaults = Some(d);
    }
    match rng.below(4) {
        0 => c.run_gens = Some(rng.int(1, 25)),
        1 => c.run_evals = Some(rng.int(1, 400)),
        2 => {
            c.run_gens = Some(rng.int(1, 40));
            c.run_evals = Some(rng.int(1, 600));
        }
        _ => c.run_gens = Some(rng.int(20, 120)),
    }
    // Keeps large populations affordable
    c.max_evals = Some(match rng.below(8) {
        0 => rng.below(3),
        1..=3 => rng.int(10, 3000),
        _ => rng.int(3000, 15_000),
    });
    c
}

/// The problem of a restart case for the mode
pub fn rand_rproblem(rng: &mut Rng, c: &RCfg) -> Problem {
    let fun = match rng.below(11) {
        0..=2 => Fun::Rastrigin,
        3 => Fun::Sphere,
        4 => Fun::Noise,
        5 => Fun::IntNoise(50),
        6 => Fun::Const(2.0),
        7 => Fun::HalfInf(0.5 * (c.lo + c.hi) + rng.range(-0.4, 0.4) * c.width()),
        8 => Fun::Scaled(*rng.pick(&[1e-300, 1e300, 1e308, 5e-324])),
        9 => Fun::Rare(rng.int(20, 400) as u64, *rng.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, 0.0, -0.0])),
        _ => Fun::Elli(1e3),
    };
    let mut p = Problem::new(fun, 0.5 * (c.lo + c.hi) + 0.1 * c.width());
    p.neg = c.mode == Mode::Maximize && rng.chance(0.8);
    p.zero_signs = rng.chance(0.2);
    p
}
