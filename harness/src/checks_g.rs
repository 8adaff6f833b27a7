//! C24: memory and drops.

use cmaes::objective_function::{ObjectiveFunction, ParallelObjectiveFunction, Scale};
use cmaes::{CMAESOptions, Constraints, DVector, TerminationReason, CMAES};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};
use std::sync::Arc;

use crate::core::{beat, guarded, Case, Ctx, CAP, INJECTED};
use crate::rst::*;
use crate::sim::*;
use crate::util::{Fnv, Rng};

type Res = Result<(), String>;

// ---- allocator ------------------------------------------------------------------------------

/// Counts the bytes allocated and not yet released
pub struct Counting;

thread_local!(static LIVE: Cell<i64> = const { Cell::new(0) });
static TRACK: AtomicBool = AtomicBool::new(false);
static GLOBAL: AtomicI64 = AtomicI64::new(0);

#[inline]
fn add(n: i64) {
    let _ = LIVE.try_with(|l| l.set(l.get() + n));
    if TRACK.load(Ordering::Relaxed) {
        GLOBAL.fetch_add(n, Ordering::Relaxed);
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size() as i64);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size() as i64);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        add(-(l.size() as i64));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            add(n as i64 - l.size() as i64);
        }
        q
    }
}

/// Bytes this thread has allocated and not released
fn live() -> i64 {
    LIVE.with(|l| l.get())
}

/// Bytes all threads have allocated and not released while tracking
fn global() -> i64 {
    GLOBAL.load(Ordering::SeqCst)
}

// ---- objective ------------------------------------------------------------------------------

#[derive(Default)]
struct Counts {
    made: AtomicU64,
    dropped: AtomicU64,
    calls: AtomicU64,
    cons_made: AtomicU64,
    cons_dropped: AtomicU64,
    /// Calls and checks made to something already dropped
    dead: AtomicU64,
}

impl Counts {
    fn get(x: &AtomicU64) -> u64 {
        x.load(Ordering::SeqCst)
    }
}

const ALIVE: u64 = 0x6f62_6a65_6374_6976;

/// An objective whose optimum moves, so that the search never ends, with heap memory of its own
struct Hop {
    n: Arc<Counts>,
    id: u64,
    alive: u64,
    bulk: Vec<f64>,
    period: u64,
    nan_at: Option<u64>,
    nan_every: Option<u64>,
    panic_at: Option<u64>,
    fun: Option<Fun>,
    /// Added to the values in every generation
    trend: f64,
    neg: bool,
    /// Called with the number of the call
    probe: Option<Box<dyn Fn(u64) + Send + Sync>>,
}

impl Hop {
    fn new(n: &Arc<Counts>, period: u64) -> Hop {
        let id = n.made.fetch_add(1, Ordering::SeqCst);
        Hop {
            n: n.clone(),
            id,
            alive: ALIVE,
            bulk: vec![1.0; 100],
            period,
            nan_at: None,
            nan_every: None,
            panic_at: None,
            fun: None,
            trend: 0.0,
            neg: false,
            probe: None,
        }
    }
    fn value(&self, x: &[f64]) -> f64 {
        if self.alive != ALIVE {
            self.n.dead.fetch_add(1, Ordering::SeqCst);
        }
        let k = self.n.calls.fetch_add(1, Ordering::SeqCst);
        if k > 20_000_000 {
            panic!("{} calls", CAP);
        }
        if k % 4096 == 0 {
            beat();
        }
        if let Some(p) = &self.probe {
            p(k);
        }
        if Some(k) == self.panic_at {
            panic!("{} objective call {}", INJECTED, k);
        }
        if Some(k) == self.nan_at || self.nan_every.map_or(false, |m| k % m == m - 1) {
            return f64::NAN;
        }
        if let Some(f) = &self.fun {
            return f.eval(x);
        }
        let c = (k as f64 / self.period as f64 * 0.1).sin() * 100.0;
        let v = x
            .iter()
            .enumerate()
            .map(|(i, a)| if i == 0 { (a - c) * (a - c) } else { a * a * self.bulk[i % 100] })
            .sum::<f64>()
            + self.trend * (k / (self.period / 10).max(1)) as f64;
        if self.neg {
            -v
        } else {
            v
        }
    }
}

impl Drop for Hop {
    fn drop(&mut self) {
        if self.alive != ALIVE {
            self.n.dead.fetch_add(1, Ordering::SeqCst);
        }
        self.alive = 0;
        self.n.dropped.fetch_add(1, Ordering::SeqCst);
    }
}

impl ObjectiveFunction for Hop {
    fn evaluate(&mut self, x: &DVector<f64>) -> f64 {
        self.value(x.as_slice())
    }
}

impl ParallelObjectiveFunction for Hop {
    fn evaluate_parallel(&self, x: &DVector<f64>) -> f64 {
        self.value(x.as_slice())
    }
}

struct Fence {
    n: Arc<Counts>,
    alive: u64,
    bulk: Vec<f64>,
    panic_at: Option<u64>,
}

impl Fence {
    fn new(n: &Arc<Counts>, panic_at: Option<u64>) -> Fence {
        n.cons_made.fetch_add(1, Ordering::SeqCst);
        Fence { n: n.clone(), alive: ALIVE, bulk: vec![2.0; 50], panic_at }
    }
}

impl Drop for Fence {
    fn drop(&mut self) {
        if self.alive != ALIVE {
            self.n.dead.fetch_add(1, Ordering::SeqCst);
        }
        self.alive = 0;
        self.n.cons_dropped.fetch_add(1, Ordering::SeqCst);
    }
}

impl std::fmt::Debug for Fence {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "Fence({:?})", self.panic_at)
    }
}

impl Constraints for Fence {
    fn meets_constraints(&self, x: &DVector<f64>) -> bool {
        if self.alive != ALIVE {
            self.n.dead.fetch_add(1, Ordering::SeqCst);
        }
        if let Some(k) = self.panic_at {
            if self.n.calls.load(Ordering::SeqCst) >= k {
                panic!("{} constraint", INJECTED);
            }
        }
        x[0].abs() < self.bulk[0]
    }
    fn clone_box(&self) -> Box<dyn Constraints> {
        Box::new(Fence::new(&self.n, self.panic_at))
    }
}

/// Rejects some of the points
#[derive(Debug)]
struct Sieve {
    checks: AtomicU64,
    every: u64,
}

impl Constraints for Sieve {
    fn meets_constraints(&self, _: &DVector<f64>) -> bool {
        self.checks.fetch_add(1, Ordering::Relaxed) % self.every != 0
    }
    fn clone_box(&self) -> Box<dyn Constraints> {
        Box::new(Sieve { checks: AtomicU64::new(0), every: self.every })
    }
}

// ---- C24 ------------------------------------------------------------------------------------

pub fn c24(ctx: &Ctx) {
    ctx.rule("growth: the bytes held by the thread are read after every generation of optimizers advanced well past 20000 generations on an objective that never lets the search end; non-trivial if at least 1000 generations followed the 20000th");
    ctx.cases("growth", ctx.n(32, 1200), |rng, c| growth(rng, c));
    ctx.rule("plot: the same with recorded and cleared plots");
    ctx.cases("plot", ctx.n(60, 1200), |rng, c| plot_growth(rng, c));
    ctx.rule("restarts: the bytes held at the first call of every run of up to hundreds of runs with constant population");
    ctx.cases("restarts", ctx.n(40, 800), |rng, c| restart_growth(rng, c));
    ctx.rule("release: the bytes held before and after each way of creating, advancing, ending and dropping optimizers and restarters (values that are invalid, panics of the objective and the constraints, rejected options, clones), with the drops of all objectives and constraints; non-trivial if the objective was called");
    ctx.serial("release", ctx.n(700, 30_000), |rng, c| release(rng, c));
    ctx.rule("threads: the same over all threads with parallel evaluation and updates, repeated so that memory lost in each repetition accumulates");
    ctx.serial("threads", ctx.n(24, 800), |rng, c| threads(rng, c));
}

/// Options of optimizers that do not end on their own
fn hop_cfg(rng: &mut Rng, n: usize) -> Cfg {
    let mut cfg = rand_cfg_dim(rng, n);
    cfg.mean = (0..n).map(|_| rng.range(-1.0, 1.0)).collect();
    cfg.sigma = rng.range(0.2, 2.0);
    cfg.lambda = Some(rng.int(4, 12));
    cfg.cm = None;
    cfg.max_evals = None;
    cfg.max_gens = None;
    cfg.max_time = None;
    cfg.fun_target = None;
    cfg.mode = cmaes::Mode::Minimize;
    cfg.tol_x_up = Some(1e300);
    cfg.tol_condition_cov = Some(1e300);
    cfg.tol_stagnation = Some(usize::MAX);
    cfg.tol_fun = Some(0.0);
    cfg.tol_fun_rel = Some(0.0);
    cfg.tol_fun_hist = Some(0.0);
    cfg.tol_x = Some(0.0);
    cfg.cons = None;
    cfg.plot = None;
    cfg.print = None;
    cfg
}

/// What an optimizer may hold without its plot after some generations
fn bound(cfg: &Cfg, generations: usize) -> i64 {
    let (n, l) = (cfg.dim(), cfg.lambda());
    // Two histories of doubles with the slack of growing buffers, matrices and populations
    (generations.min(20_000) * 2 * 8 * 4 + 4096) as i64 + (n * n * 8 * 64 + l * (n + 8) * 8 * 16) as i64 + 65_536
}

fn growth(rng: &mut Rng, c: &mut Case) -> Res {
    let rng_dim = rng.int(6, 14);
    let mut cfg = hop_cfg(rng, rng_dim);
    if rng.chance(0.3) {
        cfg.tol_stagnation = Some(rng.int(1, 30_000));
    }
    // A plot that records nothing more
    if rng.chance(0.3) {
        cfg.plot = Some(usize::MAX);
    }
    let api = rng.chance(0.4);
    // Buffers that double in size with every generation, or with every other, grow once more
    let total = if rng.chance(0.5) { rng.int(33_500, 40_000) } else { rng.int(66_000, 80_000) };
    let sieve = if rng.chance(0.4) { Some(rng.int(2, 40) as u64) } else { None };
    let resamples = *rng.pick(&[None, Some(1), Some(20)]);
    // Generations that fail with a NaN
    let nan_every = if !api && rng.chance(0.3) { Some((rng.int(2, 100) * cfg.lambda() + 1) as u64) } else { None };
    let par = !api && rng.chance(0.3);
    if !par {
        cfg.par_update = false;
    }
    let options = |cfg: &Cfg| {
        let mut o = cfg.options();
        if let Some(every) = sieve {
            o = o.constraints(Box::new(Sieve { checks: AtomicU64::new(0), every })).max_resamples(resamples);
        }
        o
    };
    // The best value improves in every generation, sometimes, or hardly ever
    let trend = *rng.pick(&[0.0, 0.0, -1e3, -1e4, -1.0, 1e3]);
    let neg = rng.chance(0.4);
    if neg {
        cfg.mode = cmaes::Mode::Maximize;
    }
    c.desc = format!(
        "{:?} {} generations, run: {}, trend {}, sieve {:?} {:?}, NaN {:?}, parallel: {}",
        cfg, total, api, trend, sieve, resamples, nan_every, par
    );
    let n = Arc::new(Counts::default());
    let l = cfg.lambda();
    let start = live();
    let mut complete = 0usize;
    if api {
        // The bytes are read by the objective itself
        cfg.max_gens = Some(total);
        let seen: Arc<Vec<AtomicI64>> = Arc::new((0..total + 2).map(|_| AtomicI64::new(i64::MIN)).collect());
        let mut f = Hop::new(&n, 10 * l as u64);
        (f.trend, f.neg) = (trend, neg);
        let s2 = seen.clone();
        f.probe = Some(Box::new(move |k| {
            if k % l as u64 == 0 {
                if let Some(s) = s2.get((k / l as u64) as usize) {
                    s.store(live(), Ordering::Relaxed);
                }
            }
        }));
        let mut cm = options(&cfg).build(f).map_err(|e| format!("{:?}", e))?;
        let base = live() - start - (seen.len() * 8) as i64;
        let t = cm.run();
        if t.reasons != [TerminationReason::MaxGenerations] && cm.generation() < 21_000 {
            c.inconclusive = true;
        }
        let done = cm.generation();
        let v: Vec<i64> = seen.iter().take(done).map(|x| x.load(Ordering::Relaxed) - start - (seen.len() * 8) as i64).collect();
        judge_growth(&cfg, base, &v, 0)?;
        complete += done;
        drop(cm);
    } else {
        let mut f = Hop::new(&n, 10 * l as u64);
        (f.trend, f.neg, f.nan_every) = (trend, neg, nan_every);
        let go = || -> Res {
            // This thread is the only one of its pool
            let start = live();
            let mut cm = options(&cfg).build(f).map_err(|e| format!("{:?}", e))?;
            let base = live() - start;
            let mut v: Vec<i64> = Vec::with_capacity(total);
            let own = (total * 8) as i64;
            let mut failed = 0;
            for i in 0..total {
                if i % 1024 == 0 {
                    beat();
                }
                let t = if par { cm.next_parallel() } else { cm.next() };
                let reasons = |r: &TerminationReason| t.as_ref().map_or(false, |t| t.reasons.contains(r));
                let over = reasons(&TerminationReason::PosDefCov);
                if reasons(&TerminationReason::InvalidFunctionValue) {
                    failed += 1;
                }
                drop(t);
                if over {
                    c.inconclusive = true;
                    break;
                }
                v.push(live() - start - own);
            }
            judge_growth(&cfg, base, &v, failed)?;
            complete += v.len() - failed;
            Ok(())
        };
        if par {
            let pool = rayon::ThreadPoolBuilder::new().num_threads(1).build().unwrap();
            pool.install(go)?;
            c.count("parallel_growths", 1);
        } else {
            go()?;
        }
    }
    if complete >= 21_000 {
        c.count("generations", complete as u64);
        let mut h = Fnv::new();
        h.u64(cfg.seed.unwrap_or(0));
        h.u64(complete as u64);
        c.nontrivial = Some(h.get());
    }
    // Everything was released
    drop(c.desc.clone());
    let d = Counts::get(&n.dropped);
    if d != 1 {
        return Err(format!("the objective was dropped {} times", d));
    }
    Ok(())
}

/// `failed` is the number of generations among `v` that were not recorded in the histories
fn judge_growth(cfg: &Cfg, base: i64, v: &[i64], failed: usize) -> Res {
    for (g, x) in v.iter().enumerate() {
        let b = bound(cfg, g + 1) + 20_000;
        if *x > b {
            return Err(format!("{} bytes are held after {} generations ({} at first), more than {}", x, g + 1, base, b));
        }
    }
    // No later than this the histories are full
    let warm = 20_010 + failed;
    if v.len() > warm + 500 {
        let before = v[warm - 5..warm + 5].iter().max().unwrap();
        for (g, x) in v.iter().enumerate().skip(warm + 5) {
            if *x > before + 2048 {
                return Err(format!("{} bytes are held after {} generations, {} after {}", x, g + 1, before, warm));
            }
        }
    }
    Ok(())
}

#[cfg(not(feature = "plot"))]
fn plot_growth(_: &mut Rng, _: &mut Case) -> Res {
    Ok(())
}

#[cfg(feature = "plot")]
fn plot_growth(rng: &mut Rng, c: &mut Case) -> Res {
    let rng_small = rng.int(1, 4);
    let mut cfg = hop_cfg(rng, rng_small);
    let l = cfg.lambda();
    let gap = if rng.chance(0.5) { rng.below(3 * l) } else { l * rng.int(1, 20) };
    cfg.plot = Some(gap);
    let cycle = rng.int(50, 800);
    let cycles = rng.int(4, 12);
    let clear = rng.chance(0.7);
    c.desc = format!("{:?} {} cycles of {} generations, clear: {}", cfg, cycles, cycle, clear);
    let n = Arc::new(Counts::default());
    let start = live();
    let mut cm = cfg.options().build(Hop::new(&n, 10 * l as u64)).map_err(|e| format!("{:?}", e))?;
    let base = live() - start;
    let per = (5 + 3 * cfg.dim()) as i64 * 8;
    let mut at_end: Vec<i64> = vec![];
    at_end.reserve(64);
    let own = at_end.capacity() as i64 * 8;
    let mut points = 0usize;
    let mut most = 0usize;
    for k in 0..cycles {
        for _ in 0..cycle {
            let t = cm.next();
            let over = t.as_ref().map_or(false, |t| t.reasons.contains(&TerminationReason::PosDefCov) || t.reasons.contains(&TerminationReason::InvalidFunctionValue));
            drop(t);
            if over {
                c.inconclusive = true;
                return Ok(());
            }
            let p = cm.get_plot().unwrap();
            let (len, cap) = (p.len(), p.capacity());
            most = most.max(len);
            if cap < len {
                return Err(format!("{} points in a capacity of {}", len, cap));
            }
            let held = live() - start - own - base;
            // Buffers that grow by doubling
            let b = bound(&cfg, cm.generation()) + per * (2 * most as i64 + 16) * 2;
            if held > b {
                return Err(format!("{} bytes are held with at most {} points after {} generations, more than {}", held, most, cm.generation(), b));
            }
        }
        let p = cm.get_mut_plot().unwrap();
        points += p.len();
        if clear {
            let (cap, before) = (p.capacity(), live());
            let len = p.len();
            p.clear();
            let after = live();
            if p.capacity() < cap || after < before - 64 {
                return Err(format!("clearing {} points released the space: capacity {} to {}, {} bytes", len, cap, p.capacity(), before - after));
            }
            if after > before {
                return Err(format!("clearing {} points allocated {} bytes", len, after - before));
            }
            if p.len() != 1 {
                return Err(format!("{} points after clearing {}", p.len(), len));
            }
        }
        at_end.push(live() - start - own);
        if clear && k >= 2 {
            // The two value histories may double meanwhile
            let hist = bound(&cfg, cm.generation()) - bound(&cfg, 0);
            let first = at_end[1];
            if at_end[k] > first + hist + per * 64 + 2048 {
                return Err(format!("{} bytes are held after {} cycles of at most {} points that were cleared, {} after 2", at_end[k], k + 1, most, first));
            }
        }
    }
    drop(cm);
    drop(at_end);
    if live() - start > c.desc.capacity() as i64 {
        // `n` is the only thing left
        let left = live() - start;
        if left > 1024 {
            return Err(format!("{} bytes are left", left));
        }
    }
    c.count("points", points as u64);
    if points > 20 {
        let mut h = Fnv::new();
        h.u64(cfg.seed.unwrap_or(0));
        h.u64(points as u64);
        c.nontrivial = Some(h.get());
    }
    Ok(())
}

fn restart_growth(rng: &mut Rng, c: &mut Case) -> Res {
    let dim = rng.int(1, 5);
    let runs = rng.int(40, 250);
    let strat = Strat::Local(runs, if rng.chance(0.5) { Some(rng.range(0.2, 0.9)) } else { None });
    let mut rc = RCfg::new(dim, -2.0, 3.0, strat);
    rc.seed = Some(rng.u64());
    rc.print = false;
    rc.run_gens = Some(rng.int(1, 40));
    let api = *rng.pick(&[RApi::Run, RApi::Reuse]);
    let plot = rng.chance(0.3);
    let n = Arc::new(Counts::default());
    let mut d = CMAESOptions::new(vec![0.0; dim], 1.0);
    if rng.chance(0.5) {
        d = d.constraints(Box::new(Fence::new(&n, None)));
    }
    #[cfg(feature = "plot")]
    if plot {
        d = d.enable_plot(cmaes::PlotOptions::new(0, false));
    }
    c.desc = format!("{:?} {:?} plot: {}", rc, api, plot);
    let rest = rc.options().default_options(d).build().map_err(|e| format!("{:?}", e))?;
    let lambda = default_lambda(dim) as u64;
    let per_run = lambda * rc.run_gens.unwrap() as u64;
    let seen: Arc<Vec<AtomicI64>> = Arc::new((0..20_000).map(|_| AtomicI64::new(i64::MIN)).collect());
    let start = live();
    let make = || {
        let mut f = Hop::new(&n, 7 * lambda);
        let s = seen.clone();
        f.probe = Some(Box::new(move |k| {
            // Runs end early at times; the most held in each block is compared
            let s = &s[(k / per_run).min(19_999) as usize];
            s.fetch_max(live(), Ordering::Relaxed);
        }));
        f
    };
    let res = match api {
        RApi::Run => rest.run(make),
        _ => rest.run_with_reuse(make()),
    };
    if res.runs != runs {
        return Err(format!("{} runs instead of {}", res.runs, runs));
    }
    drop(res);
    let v: Vec<i64> = seen.iter().map(|x| x.load(Ordering::Relaxed)).take_while(|x| *x != i64::MIN).map(|x| x - start).collect();
    if v.len() >= 20 {
        let most = *v[..10].iter().max().unwrap();
        let m = v.iter().max().unwrap();
        // Points of a plot and values of a run that was shorter before
        let run = bound(&Cfg::new(vec![0.0; dim], 1.0), rc.run_gens.unwrap()) - 40_000
            + if plot { (rc.run_gens.unwrap() * (5 + 3 * dim) * 8 * 2) as i64 } else { 0 };
        let late = v[10..].iter().rev().take(v.len() / 4).min().unwrap();
        let early = v[..10].iter().max().unwrap();
        if *m > most + run || *late > early + 256 {
            return Err(format!("{} bytes are held in later runs, {} in the first, at least {} in the last", m, most, late));
        }
    }
    c.count("runs", runs as u64);
    let (made, dropped) = (Counts::get(&n.made), Counts::get(&n.dropped));
    let want = if api == RApi::Run { runs as u64 } else { 1 };
    if made != want || dropped != made {
        return Err(format!("{} objectives were made and {} dropped in {} runs", made, dropped, runs));
    }
    let (made, dropped) = (Counts::get(&n.cons_made), Counts::get(&n.cons_dropped));
    if made != dropped || Counts::get(&n.dead) != 0 {
        return Err(format!("{} constraints were made and {} dropped", made, dropped));
    }
    let mut h = Fnv::new();
    h.u64(rc.seed.unwrap());
    h.u64(v.len() as u64);
    if v.len() >= 20 {
        c.nontrivial = Some(h.get());
    }
    Ok(())
}

/// One way of creating, using and dropping
#[derive(Clone, Debug)]
enum Way {
    Drop(usize),
    Run,
    Into(usize),
    Nan(u64),
    Panic(u64),
    ConsPanic(u64),
    Reject(usize),
    Scaled(usize),
    Boxed(usize),
    CloneOptions,
    Convenience,
    Restart(RApi),
    RestartNan(RApi, u64),
    RestartPanic(RApi, u64),
    RestartReject,
    Image,
}

fn rand_way(rng: &mut Rng) -> Way {
    let g = rng.below(30);
    let api = *rng.pick(&RAPIS);
    match rng.below(17) {
        0 => Way::Drop(0),
        1 => Way::Drop(g),
        2 => Way::Run,
        3 => Way::Into(g),
        4 => Way::Nan(rng.below(100) as u64),
        5 => Way::Panic(rng.below(100) as u64),
        6 => Way::ConsPanic(rng.below(100) as u64),
        7 => Way::Reject(rng.below(5)),
        8 => Way::Scaled(g),
        9 => Way::Boxed(g),
        10 => Way::CloneOptions,
        11 => Way::Convenience,
        12 => Way::Restart(api),
        13 => Way::RestartNan(api, rng.below(400) as u64),
        14 => Way::RestartPanic(api, rng.below(400) as u64),
        15 => Way::RestartReject,
        _ => Way::Image,
    }
}

fn step<F: ObjectiveFunction + ParallelObjectiveFunction>(cm: &mut CMAES<F>, par: bool) {
    if par {
        cm.next_parallel();
    } else {
        cm.next();
    }
}

struct Setup {
    cfg: Cfg,
    rc: RCfg,
    fence: bool,
    par: bool,
    way: Way,
    fun: Fun,
}

impl Setup {
    fn random(rng: &mut Rng, par: bool) -> Setup {
        let rng_small = rng.int(1, 4);
        let mut cfg = hop_cfg(rng, rng_small);
        cfg.max_gens = Some(rng.int(1, 60));
        cfg.par_update = par && rng.chance(0.5);
        if rng.chance(0.5) {
            cfg.plot = Some(rng.below(40));
        }
        if rng.chance(0.2) {
            cfg.print = Some(rng.below(100));
        }
        let mut rc = rand_rcfg(rng);
        rc.dim = cfg.dim();
        rc.defaults = None;
        rc.max_time = None;
        rc.print = rng.chance(0.3);
        rc.max_evals = Some(rng.int(1, 1500));
        rc.run_evals = Some(rng.int(20, 400));
        rc.par_update = cfg.par_update;
        let way = loop {
            let w = rand_way(rng);
            let parallel = matches!(w, Way::Restart(a) | Way::RestartNan(a, _) | Way::RestartPanic(a, _) if a.par());
            if par || !parallel {
                break w;
            }
        };
        Setup {
            cfg,
            rc,
            fence: rng.chance(0.5),
            par,
            way,
            fun: rand_fun(rng),
        }
    }

    /// Goes through it once, with everything dropped at the end
    fn go(&self, n: &Arc<Counts>) -> Res {
        let period = 10 * self.cfg.lambda() as u64;
        let opts = |panic_at| {
            let o = self.cfg.options();
            if self.fence {
                o.constraints(Box::new(Fence::new(n, panic_at)))
            } else {
                o
            }
        };
        let dropped = || Counts::get(&n.dropped);
        let build = |f: Hop| opts(None).build(f).map_err(|e| format!("valid options were rejected: {:?}", e));
        match &self.way {
            Way::Drop(g) => {
                let mut cm = build(Hop::new(n, period))?;
                for _ in 0..*g {
                    step(&mut cm, self.par);
                }
                if dropped() != 0 {
                    return Err("the objective was dropped while the optimizer lives".into());
                }
            }
            Way::Run => {
                let mut f = Hop::new(n, period);
                f.fun = Some(self.fun.clone());
                let mut cm = build(f)?;
                let t = if self.par { cm.run_parallel() } else { cm.run() };
                drop(cm);
                if dropped() != 1 {
                    return Err(format!("the objective was dropped {} times with the optimizer", dropped()));
                }
                drop(t);
            }
            Way::Into(g) => {
                let mut cm = build(Hop::new(n, period))?;
                for _ in 0..*g {
                    step(&mut cm, self.par);
                }
                let f = cm.into_objective_function();
                if dropped() != 0 || f.alive != ALIVE || f.id != 0 || f.bulk.len() != 100 {
                    return Err("the objective that was returned is not the one handed over".into());
                }
            }
            Way::Nan(k) => {
                let mut f = Hop::new(n, period);
                f.nan_at = Some(*k);
                let mut cm = build(f)?;
                for _ in 0..20 {
                    step(&mut cm, self.par);
                }
            }
            Way::Panic(k) => {
                let mut f = Hop::new(n, period);
                f.panic_at = Some(*k);
                let mut cm = build(f)?;
                for _ in 0..20 {
                    if let Err(p) = guarded(|| step(&mut cm, self.par)) {
                        if !p.is_injected() {
                            return Err(p.text());
                        }
                    }
                }
                if dropped() != 0 {
                    return Err("the objective was dropped while the optimizer lives".into());
                }
            }
            Way::ConsPanic(k) => {
                let o = self.cfg.options().constraints(Box::new(Fence::new(n, Some(*k))));
                let mut cm = o.build(Hop::new(n, period)).map_err(|e| format!("{:?}", e))?;
                for _ in 0..20 {
                    if let Err(p) = guarded(|| step(&mut cm, self.par)) {
                        if !p.is_injected() {
                            return Err(p.text());
                        }
                    }
                }
            }
            Way::Reject(k) => {
                let mut o = opts(None);
                match k {
                    0 => o = o.population_size(3),
                    1 => o = o.initial_step_size(-1.0),
                    2 => o = o.initial_mean(Vec::<f64>::new()),
                    3 => o = o.cm(2.0),
                    _ => o = o.initial_step_size(f64::NAN),
                }
                let r = o.build(Hop::new(n, period));
                if *k != 0 && r.is_ok() {
                    return Err("invalid options were accepted".into());
                }
                if r.is_err() && dropped() != 1 {
                    return Err("the objective was not dropped with the rejected options".into());
                }
            }
            Way::Scaled(g) => {
                let s = Scale::new(Hop::new(n, period), vec![1.5; self.cfg.dim()]);
                let mut cm = opts(None).build(s).map_err(|e| format!("{:?}", e))?;
                for _ in 0..*g {
                    step(&mut cm, self.par);
                }
                let f = cm.into_objective_function().into_wrapped_function();
                if dropped() != 0 || f.id != 0 {
                    return Err("the objective that was returned is not the one handed over".into());
                }
            }
            Way::Boxed(g) => {
                if self.par {
                    let f: Box<dyn ParallelObjectiveFunction> = Box::new(Hop::new(n, period));
                    let mut cm = opts(None).build(f).map_err(|e| format!("{:?}", e))?;
                    for _ in 0..*g {
                        cm.next_parallel();
                    }
                } else {
                    let f: Box<dyn ObjectiveFunction> = Box::new(Hop::new(n, period));
                    let mut cm = opts(None).build(f).map_err(|e| format!("{:?}", e))?;
                    for _ in 0..*g {
                        cm.next();
                    }
                }
            }
            Way::CloneOptions => {
                let o = opts(None);
                let o2 = o.clone();
                let a = o.build(Hop::new(n, period)).map_err(|e| format!("{:?}", e))?;
                let mut b = o2.clone().build(Hop::new(n, period)).map_err(|e| format!("{:?}", e))?;
                step(&mut b, self.par);
                let p = b.parameters().clone();
                drop(b);
                #[cfg(feature = "plot")]
                let q = a.get_plot().cloned();
                drop(a);
                drop(p);
                #[cfg(feature = "plot")]
                drop(q);
            }
            Way::Convenience => {
                let f = Hop::new(n, period);
                let mean = self.cfg.mean.clone();
                let r = cmaes::fmin(|x: &DVector<f64>| f.value(x.as_slice()) + x.norm_squared() * 100.0, mean, self.cfg.sigma);
                drop(r);
            }
            Way::Restart(a) | Way::RestartNan(a, _) | Way::RestartPanic(a, _) => {
                let mut o = self.rc.options();
                if self.fence {
                    o = o.default_options(CMAESOptions::new(vec![0.0; self.rc.dim], 1.0).constraints(Box::new(Fence::new(n, None))));
                }
                let r = o.build().map_err(|e| format!("{:?}", e))?;
                let r2 = r.clone();
                drop(r);
                let make = || {
                    let mut f = Hop::new(n, 1_000_000);
                    match self.way {
                        Way::RestartNan(_, k) => f.nan_at = Some(k),
                        Way::RestartPanic(_, k) => f.panic_at = Some(k),
                        _ => (),
                    }
                    f
                };
                let res = guarded(|| match a {
                    RApi::Run => r2.run(make),
                    RApi::Reuse => r2.run_with_reuse(make()),
                    RApi::Par => r2.run_parallel(make),
                    RApi::ParReuse => r2.run_parallel_with_reuse(make()),
                });
                match res {
                    Ok(r) => {
                        if !a.reuse() && Counts::get(&n.made) != r.runs as u64 {
                            return Err(format!("{} objectives for {} runs", Counts::get(&n.made), r.runs));
                        }
                    }
                    Err(p) if p.is_injected() => (),
                    Err(p) => return Err(p.text()),
                }
                if dropped() != Counts::get(&n.made) {
                    return Err(format!("{} objectives were made and {} dropped when the restarts ended", Counts::get(&n.made), dropped()));
                }
            }
            Way::RestartReject => {
                let mut rc = self.rc.clone();
                rc.dim = 0;
                let o = rc.options().default_options(opts(None));
                if o.build().is_ok() {
                    return Err("invalid restart options were accepted".into());
                }
            }
            #[cfg(not(feature = "plot"))]
            Way::Image => (),
            #[cfg(feature = "plot")]
            Way::Image => {
                let mut cfg = self.cfg.clone();
                cfg.plot = Some(3);
                let mut cm = cfg.options().build(Hop::new(n, period)).map_err(|e| format!("{:?}", e))?;
                for _ in 0..4 {
                    step(&mut cm, self.par);
                }
                // Nowhere to be written
                let _ = cm.get_plot().unwrap().save_to_file("/nonexistent/vmon/plot.png", true).is_ok();
                let p = cm.get_plot().unwrap().clone();
                cm.get_mut_plot().unwrap().clear();
                if p.len() < 2 {
                    return Err(format!("{} points", p.len()));
                }
            }
        }
        Ok(())
    }

    fn judge(&self, n: &Counts) -> Res {
        let g = Counts::get;
        if g(&n.dropped) != g(&n.made) {
            return Err(format!("{} objectives were made, {} dropped", g(&n.made), g(&n.dropped)));
        }
        if g(&n.cons_dropped) != g(&n.cons_made) {
            return Err(format!("{} constraints were made, {} dropped", g(&n.cons_made), g(&n.cons_dropped)));
        }
        if g(&n.dead) != 0 {
            return Err(format!("{} uses of dropped objects", g(&n.dead)));
        }
        Ok(())
    }
}

fn release(rng: &mut Rng, c: &mut Case) -> Res {
    let s = Setup::random(rng, false);
    c.desc = format!("{:?} {:?} fence: {} rc: {:?} {:?}", s.way, s.cfg, s.fence, s.rc, s.fun);
    let mut lost = [0i64; 3];
    let mut calls = 0;
    for k in 0..3 {
        let n = Arc::new(Counts::default());
        let before = live();
        let r = s.go(&n);
        let after = live();
        r?;
        s.judge(&n)?;
        lost[k] = after - before;
        calls += Counts::get(&n.calls);
        c.count("drops", Counts::get(&n.dropped) + Counts::get(&n.cons_dropped));
    }
    // Memory that is set up once may stay after the first time
    if lost[1] > 0 && lost[2] > 0 {
        return Err(format!("{} bytes were not released ({:?} in each of three repetitions)", lost[2], lost));
    }
    if calls > 0 {
        let mut h = Fnv::new();
        h.u64(calls);
        h.u64(s.cfg.seed.unwrap_or(0));
        c.nontrivial = Some(h.get());
    }
    c.count(
        match s.way {
            Way::Panic(_) | Way::ConsPanic(_) | Way::RestartPanic(..) => "panics",
            Way::Nan(_) | Way::RestartNan(..) => "invalid_values",
            Way::Restart(_) => "restarts",
            Way::Reject(_) | Way::RestartReject => "rejections",
            _ => "others",
        },
        3,
    );
    Ok(())
}

fn threads(rng: &mut Rng, c: &mut Case) -> Res {
    let mut s = Setup::random(rng, true);
    s.cfg.plot = s.cfg.plot.map(|p| p.max(20));
    c.desc = format!("{:?} {:?} fence: {} rc: {:?}", s.way, s.cfg, s.fence, s.rc);
    let reps = 60;
    TRACK.store(true, Ordering::SeqCst);
    let mut v: Vec<i64> = Vec::with_capacity(reps);
    let mut calls = 0;
    let mut r = Ok(());
    for _ in 0..reps {
        let n = Arc::new(Counts::default());
        r = s.go(&n).and_then(|_| s.judge(&n));
        if r.is_err() {
            break;
        }
        calls += Counts::get(&n.calls);
        drop(n);
        beat();
        v.push(global());
    }
    TRACK.store(false, Ordering::SeqCst);
    r?;
    // Thread pools keep some memory for reuse, but do not grow in every repetition
    let up = v.windows(2).filter(|w| w[1] > w[0]).count();
    let grown = v[reps - 1] - v[4];
    if up > reps * 9 / 10 && grown >= (reps as i64 - 5) * 8 {
        return Err(format!("{} bytes were not released in {} repetitions", grown, reps - 5));
    }
    let min = |v: &[i64]| *v.iter().min().unwrap();
    let steady = min(&v[reps - 15..]) - min(&v[..15]);
    if steady > 200_000 {
        return Err(format!("the memory held grew by {} bytes in {} repetitions", steady, reps));
    }
    c.count("parallel_repetitions", reps as u64);
    if calls > 0 {
        let mut h = Fnv::new();
        h.u64(calls);
        h.u64(s.cfg.seed.unwrap_or(0));
        c.nontrivial = Some(h.get());
    }
    Ok(())
}
