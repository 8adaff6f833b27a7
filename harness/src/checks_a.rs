//! C01-C06: best individuals, evaluation accounting, determinism, rank invariance, state update,
//! parameters.

use cmaes::{Mode, TerminationReason as R, Weights};
use std::sync::Arc;

use crate::core::*;
use crate::model::Model;
use crate::sim::*;
use crate::rst::{observe, rand_rcfg, RApi};
use crate::util::{bits_eq, close, hash_str, Fnv, Rng};

/// A configuration for the bookkeeping checks: everything that `rand_cfg` varies plus constraints,
/// tolerances, plotting and printing
pub fn rich_cfg(rng: &mut Rng) -> Cfg {
    let mut c = rand_cfg(rng);
    if rng.chance(0.3) {
        c.cons = Some(rand_feas(rng, &c));
        c.max_resamples = match rng.below(4) {
            0 => Some(Some(0)),
            1 => Some(Some(rng.int(1, 3))),
            _ => None,
        };
    }
    if rng.chance(0.25) {
        c.plot = Some(rng.below(100));
    }
    if rng.chance(0.25) {
        c.print = Some(rng.below(100));
    }
    if rng.chance(0.3) {
        c.tol_x = Some(rng.log_range(1e-12, 1e-1));
        c.tol_fun_hist = Some(rng.log_range(1e-12, 1e-1));
    }
    c
}

pub fn rich_problem(rng: &mut Rng) -> Problem {
    let mut p = Problem::new(rand_fun(rng), *rng.pick(&[0.0, 0.0, 0.5, -2.0, 100.0]));
    p.neg = rng.chance(0.5);
    if rng.chance(0.2) {
        p.faults.nan_hash = Some(rng.int(15, 200) as u64);
        p.faults.neg_nan = rng.chance(0.3);
    }
    p.zero_signs = rng.chance(0.2);
    p
}

fn n_gens(rng: &mut Rng, ctx: &Ctx) -> usize {
    let m = if ctx.thorough() { 3 } else { 1 };
    m * match rng.below(10) {
        0 => rng.int(1, 5),
        1..=6 => rng.int(20, 120),
        7 | 8 => rng.int(100, 400),
        _ => rng.int(400, 1500),
    }
}

fn same_ind(a: &(Vec<f64>, f64), b: &(Vec<f64>, f64)) -> bool {
    bits_eq(&a.0, &b.0) && a.1.to_bits() == b.1.to_bits()
}

fn same_opt(a: &Option<(Vec<f64>, f64)>, b: &Option<(Vec<f64>, f64)>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => same_ind(a, b),
        _ => false,
    }
}

// ---- C01 ------------------------------------------------------------------------------------

/// Follows the best individuals of a run
pub struct BestMon {
    pub mode: Mode,
    pub best: Option<(Vec<f64>, f64)>,
    pub cur: Option<(Vec<f64>, f64)>,
    pub improved: u64,
    pub kept: u64,
    pub tied: u64,
    pub failed: u64,
}

impl BestMon {
    pub fn new(mode: Mode) -> Self {
        BestMon {
            mode,
            best: None,
            cur: None,
            improved: 0,
            kept: 0,
            tied: 0,
            failed: 0,
        }
    }

    pub fn step(&mut self, g: &Gen) -> Res {
        let s = &g.snap;
        if g.complete() && !g.evs.is_empty() {
            let top = g
                .evs
                .iter()
                .fold(g.evs[0].v, |a, e| if better(self.mode, e.v, a) { e.v } else { a });
            let cur = s
                .cur
                .as_ref()
                .ok_or("no current best after a complete generation")?;
            if cur.1 != top {
                return Err(format!(
                    "current best value {:e}, but the best of the generation is {:e}",
                    cur.1, top
                ));
            }
            if !g
                .evs
                .iter()
                .any(|e| bits_eq(&e.x, &cur.0) && e.v.to_bits() == cur.1.to_bits())
            {
                return Err(format!(
                    "current best {:?} = {:e} was not evaluated in this generation",
                    cur.0, cur.1
                ));
            }
            match &self.best {
                Some(b) if !better(self.mode, top, b.1) => {
                    if top == b.1 {
                        self.tied += 1;
                    }
                    self.kept += 1;
                }
                _ => {
                    self.improved += 1;
                    let over = s
                        .best
                        .as_ref()
                        .ok_or("no overall best after a complete generation")?;
                    if !g
                        .evs
                        .iter()
                        .any(|e| bits_eq(&e.x, &over.0) && e.v.to_bits() == over.1.to_bits())
                        || over.1 != top
                    {
                        return Err(format!(
                            "the generation improved the best value to {:e}, but the overall best is {:?}",
                            top, over
                        ));
                    }
                    self.best = Some(over.clone());
                }
            }
            self.cur = Some(cur.clone());
        } else {
            self.failed += 1;
        }
        if !same_opt(&s.best, &self.best) {
            return Err(format!(
                "overall best is {:?}, but the best evaluated so far is {:?}",
                s.best, self.best
            ));
        }
        if !same_opt(&s.cur, &self.cur) {
            return Err(format!(
                "current best is {:?}, but that of the latest complete generation is {:?}",
                s.cur, self.cur
            ));
        }
        if let Some(t) = &g.term {
            if !same_opt(&t.cur, &self.cur) || !same_opt(&t.best, &self.best) {
                return Err(format!(
                    "the termination data has the bests {:?} and {:?}, expected {:?} and {:?}",
                    t.cur, t.best, self.cur, self.best
                ));
            }
            if !bits_eq(&t.mean, &s.mean) {
                return Err("the final mean of the termination data is not the current mean".into());
            }
        }
        Ok(())
    }
}

pub fn c01(ctx: &Ctx) {
    ctx.rule("step: random configuration and objective (smooth, ties, infinities, noise, NaN) advanced through next/next_parallel/mixed for 1..1500 generations, also past termination; the bests reported after every generation are compared with the log of all evaluations; non-trivial if the overall best improved and was also kept over a generation; distinct by hash of the history");
    ctx.cases("step", ctx.n(1500, 30000), |rng, c| {
        let mut cfg = rich_cfg(rng);
        let mut p = rich_problem(rng);
        let mut api = rand_api(rng);
        let mut n = n_gens(rng, ctx);
        if c.idx % 100 == 50 {
            (cfg, p, n) = long_case(rng);
            api = ApiMode::Seq;
            c.count("long_runs", 1);
        }
        c.desc = format!("{:?} {:?} {:?} gens={}", cfg, p, api, n);
        let mut s = Sim::new(&cfg, &p)?;
        if s.last.cur.is_some() || s.last.best.is_some() {
            return Err("a new optimizer already has a best individual".into());
        }
        let mut m = BestMon::new(cfg.mode);
        let mut h = Fnv::new();
        for i in 0..n {
            let g = s.step(api.pick(rng));
            c.count("generations", 1);
            c.count("evaluations", g.evs.len() as u64);
            g.snap.hash(&mut h);
            m.step(&g)
                .map_err(|e| format!("call {}: {} (evaluated {} points)", i, e, g.evs.len()))?;
            if g.has(R::PosDefCov) {
                break;
            }
        }
        c.count("improvements", m.improved);
        c.count("kept", m.kept);
        c.count("kept_on_tie", m.tied);
        c.count("failed_generations", m.failed);
        if m.improved > 0 && m.kept > 0 {
            c.nontrivial = Some(h.get());
        }
        Ok(())
    });
    ctx.rule("run: the result of run/run_parallel is compared with the whole log, split into generations");
    ctx.cases("run", ctx.n(300, 5000), |rng, c| {
        let mut cfg = rich_cfg(rng);
        cfg.max_gens = Some(rng.int(0, 300));
        let p = rich_problem(rng);
        let par = rng.chance(0.5);
        c.desc = format!("{:?} {:?} parallel={}", cfg, p, par);
        let mut s = Sim::new(&cfg, &p)?;
        s.rec
            .cap
            .store(400 * cfg.lambda() as u64, std::sync::atomic::Ordering::Relaxed);
        let t = if par { s.cm.run_parallel() } else { s.cm.run() };
        let t = term(&t);
        let evs = s.rec.take();
        let sn = snap(&s.cm);
        let (mut best, mut cur): (Option<f64>, Option<f64>) = (None, None);
        let l = s.par.lambda;
        let mut complete = 0;
        for ch in evs.chunks(l) {
            if ch.len() < l || ch.iter().any(|e| e.v.is_nan()) {
                break;
            }
            complete += 1;
            let top = ch
                .iter()
                .fold(ch[0].v, |a, e| if better(cfg.mode, e.v, a) { e.v } else { a });
            cur = Some(top);
            best = Some(match best {
                Some(b) if !better(cfg.mode, top, b) => b,
                _ => top,
            });
        }
        let val = |x: &Option<(Vec<f64>, f64)>| x.as_ref().map(|x| x.1);
        if val(&t.best) != best || val(&t.cur) != cur {
            return Err(format!(
                "the result has the values {:?} (overall) and {:?} (current), but the log gives {:?} and {:?}",
                val(&t.best), val(&t.cur), best, cur
            ));
        }
        if !same_opt(&t.best, &sn.best) || !same_opt(&t.cur, &sn.cur) || !bits_eq(&t.mean, &sn.mean) {
            return Err("the result differs from the accessors after the run".into());
        }
        for (what, x) in [("overall", &t.best), ("current", &t.cur)] {
            if let Some((x, v)) = x {
                if !evs
                    .iter()
                    .any(|e| bits_eq(&e.x, x) && e.v.to_bits() == v.to_bits())
                {
                    return Err(format!("the {} best individual was never evaluated", what));
                }
            }
        }
        c.count("generations", complete);
        c.count("evaluations", evs.len() as u64);
        if complete > 1 {
            let mut h = Fnv::new();
            sn.hash(&mut h);
            c.nontrivial = Some(h.get());
        }
        Ok(())
    });
}

// ---- C02 ------------------------------------------------------------------------------------

pub fn c02(ctx: &Ctx) {
    ctx.rule("step: random configurations, objectives with invalid values, constraints, parallel evaluation with random delays; every generation the recorder's number of calls is compared with the reported number, the population size and the generation number; non-trivial if more than one generation was completed");
    ctx.cases("step", ctx.n(1500, 30000), |rng, c| {
        let mut cfg = rich_cfg(rng);
        let mut p = rich_problem(rng);
        let mut api = rand_api(rng);
        let n = n_gens(rng, ctx).min(600);
        if rng.chance(0.5) {
            p.faults.nan_hash = Some(rng.int(3, 100) as u64);
        }
        if api != ApiMode::Seq && rng.chance(0.15) {
            p.delay = rng.int(1, 60) as u64;
        }
        let mut n = if p.delay > 0 { n.min(20) } else { n };
        if c.idx % 100 == 50 {
            (cfg, p, n) = long_case(rng);
            api = ApiMode::Seq;
            c.count("long_runs", 1);
        }
        c.desc = format!("{:?} {:?} {:?} gens={}", cfg, p, api, n);
        let mut s = Sim::new(&cfg, &p)?;
        if s.last.evals != 0 || s.last.generation != 0 || s.rec.count() != 0 {
            return Err("a new optimizer has already evaluated the objective".into());
        }
        let l = cfg.lambda();
        let mut completed = 0;
        let mut h = Fnv::new();
        for i in 0..n {
            let prev = s.last.clone();
            let g = s.step(api.pick(rng));
            let calls = g.evs.len();
            c.count("evaluations", calls as u64);
            if g.snap.evals as u64 != s.rec.count() {
                return Err(format!(
                    "call {}: {} evaluations are reported, {} were made",
                    i, g.snap.evals, s.rec.count()
                ));
            }
            if g.snap.evals - prev.evals != calls {
                return Err("evaluations were made outside of the generation".into());
            }
            if s.rec.inflight.load(std::sync::atomic::Ordering::SeqCst) != 0 {
                return Err("the objective is still running after the generation".into());
            }
            match g.evs.iter().position(|e| e.v.is_nan()) {
                None => {
                    if calls != l {
                        return Err(format!(
                            "call {}: {} evaluations for a population size of {}",
                            i, calls, l
                        ));
                    }
                    let exp = prev.generation + if g.has(R::PosDefCov) { 0 } else { 1 };
                    // Whether the failing generation is counted is not specified
                    if g.snap.generation != exp && !g.has(R::PosDefCov) {
                        return Err(format!(
                            "generation {} is reported after generation {}",
                            g.snap.generation, prev.generation
                        ));
                    }
                    completed += 1;
                    // Every sampled point is evaluated once
                    let spread = (0..cfg.dim())
                        .map(|k| {
                            prev.sigma
                                * prev.cov[k * cfg.dim() + k].sqrt()
                                / (prev.mean[k].abs() + prev.sigma)
                        })
                        .fold(f64::INFINITY, f64::min);
                    let finite = g.evs.iter().all(|e| e.x.iter().all(|a| a.is_finite()));
                    if spread > 1e-4 && spread.is_finite() && finite {
                        let mut xs: Vec<&Vec<f64>> = g.evs.iter().map(|e| &e.x).collect();
                        xs.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
                        if xs.windows(2).any(|w| w[0] == w[1]) {
                            return Err(format!("call {}: the same point was evaluated twice", i));
                        }
                        c.count("generations_with_distinct_points", 1);
                    }
                }
                Some(k) => {
                    c.count("aborted_generations", 1);
                    if calls > l || (g.api == Api::Seq && calls < k + 1) {
                        return Err(format!("call {}: {} evaluations for a population of {}", i, calls, l));
                    }
                    if g.snap.generation != prev.generation {
                        return Err("an aborted generation was counted".into());
                    }
                }
            }
            c.count("generations", 1);
            g.snap.hash(&mut h);
            if g.has(R::PosDefCov) {
                break;
            }
        }
        let total = s.rec.count();
        let obj = s.cm.into_objective_function();
        if obj.rec.count() != total || s.rec.drops.load(std::sync::atomic::Ordering::SeqCst) != 0 {
            return Err("the objective taken out of the optimizer is not the one that was called".into());
        }
        if completed > 1 {
            c.nontrivial = Some(h.get());
        }
        Ok(())
    });
    ctx.rule("run: number of calls made by run and run_parallel against the reported number, the reported generations and the population size");
    ctx.cases("run", ctx.n(400, 6000), |rng, c| {
        let mut cfg = rich_cfg(rng);
        cfg.max_gens = Some(rng.int(1, 300));
        let mut p = rich_problem(rng);
        p.faults = Faults::default();
        let par = rng.chance(0.5);
        c.desc = format!("{:?} {:?} parallel={}", cfg, p, par);
        let mut s = Sim::new(&cfg, &p)?;
        s.rec
            .cap
            .store(400 * cfg.lambda() as u64, std::sync::atomic::Ordering::Relaxed);
        let t = if par { s.cm.run_parallel() } else { s.cm.run() };
        let (calls, evals, gens) = (s.rec.count(), s.cm.function_evals(), s.cm.generation());
        if calls != evals as u64 {
            return Err(format!("{} evaluations are reported, {} were made", evals, calls));
        }
        if !t.reasons.contains(&R::PosDefCov) && gens * cfg.lambda() != evals {
            return Err(format!(
                "{} generations of {} make {} evaluations, but {} were made",
                gens, cfg.lambda(), gens * cfg.lambda(), evals
            ));
        }
        c.count("evaluations", calls);
        c.count("generations", gens as u64);
        let mut h = Fnv::new();
        snap(&s.cm).hash(&mut h);
        c.nontrivial = Some(h.get());
        Ok(())
    });
    ctx.rule("many: populations of about a million points until far more than 2^24 evaluations were made; the reported number is exact after every generation; non-trivial if more than 2^24 evaluations were made");
    ctx.cases_on(4, "many", if ctx.thorough() { 12 } else { 2 }, |rng, c| {
        let (cfg, p) = many_case(rng, 700_000, 1_400_000);
        let total = (1 << 24) + rng.int(1, if ctx.thorough() { 40_000_000 } else { 3_000_000 });
        let api = rand_api(rng);
        c.desc = format!("{:?} {:?} {:?} total={}", cfg, p, api, total);
        let mut s = Sim::new(&cfg, &p)?;
        s.rec.keep.store(false, std::sync::atomic::Ordering::SeqCst);
        let mut gens = 0;
        while s.last.evals < total {
            let g = s.step(api.pick(rng));
            gens += 1;
            let made = s.rec.count();
            if g.snap.evals as u64 != made || made != gens * cfg.lambda() as u64 {
                return Err(format!(
                    "call {}: {} evaluations are reported, {} were made with a population size of {}",
                    gens, g.snap.evals, made, cfg.lambda()
                ));
            }
            if g.has(R::PosDefCov) {
                return Ok(());
            }
            if g.snap.generation as u64 != gens {
                return Err(format!("generation {} is reported after {}", g.snap.generation, gens));
            }
        }
        c.count("evaluations", s.rec.count());
        c.count("generations", gens);
        c.nontrivial = Some(c.idx);
        Ok(())
    });
}

// ---- C03 ------------------------------------------------------------------------------------

/// The hash of the history of a run
fn history(cfg: &Cfg, p: &Problem, n: usize, api: impl FnMut() -> Api) -> Result<Vec<u64>, String> {
    history_with(cfg, p, n, api, |_| ())
}

fn history_with(
    cfg: &Cfg,
    p: &Problem,
    n: usize,
    mut api: impl FnMut() -> Api,
    mut each: impl FnMut(&Gen),
) -> Result<Vec<u64>, String> {
    let mut s = Sim::new(cfg, p)?;
    let mut out = vec![];
    let mut h = Fnv::new();
    for _ in 0..n {
        let g = s.step(api());
        g.hash(&mut h);
        out.push(h.get());
        each(&g);
        if g.has(R::PosDefCov) {
            break;
        }
    }
    Ok(out)
}

fn first_diff(a: &[u64], b: &[u64]) -> Option<usize> {
    if a == b {
        None
    } else {
        Some(
            a.iter()
                .zip(b)
                .position(|(x, y)| x != y)
                .unwrap_or(a.len().min(b.len())),
        )
    }
}

/// One line about a run that only depends on the numbers of the group and the run
fn digest_case(group: u64, k: usize, api: Api) -> String {
    let mut rng = Rng::new(group.wrapping_mul(1_000_003).wrapping_add(k as u64));
    let rng = &mut rng;
    let go = guarded(|| -> Result<String, String> {
        let mut h = Fnv::new();
        if rng.chance(0.25) {
            let mut r = rand_rcfg(rng);
            r.dim = *rng.pick(&[1, 2, 3, 5]);
            r.defaults = None;
            (r.max_time, r.print, r.par_update) = (None, false, false);
            r.seed = Some(rng.below(4) as u64);
            r.max_evals = Some(rng.int(500, 6000));
            let p = Problem::new(rng.pick(&[Fun::Sphere, Fun::Rastrigin]).clone(), 0.5);
            let way = if api == Api::Par { RApi::Par } else { RApi::Run };
            let o = observe(&r, way, &mut |_, rec| p.obj(rec))?;
            h.bytes(format!("{:?} {} {} {:?} {}", o.reason, o.evals, o.runs_reported, o.best, o.seed).as_bytes());
            return Ok(format!("restart {:?} {:x}", o.reason, h.get()));
        }
        let mut cfg = rich_cfg(rng);
        if rng.chance(0.7) {
            let n = *rng.pick(&[1, 2, 3, 5, 10]);
            let old = cfg;
            cfg = Cfg::new(vec![*rng.pick(&[0.0, 1.0]); n], *rng.pick(&[0.1, 1.0, 3.0]));
            cfg.lambda = *rng.pick(&[None, None, Some(4 + n), Some(20), Some(60)]);
            cfg.seed = Some(rng.below(4) as u64);
            (cfg.weights, cfg.mode) = (old.weights, old.mode);
            if rng.chance(0.3) {
                cfg.cons = Some(rand_feas(rng, &cfg));
            }
        }
        if cfg.seed.is_none() {
            cfg.seed = Some(rng.u64());
        }
        (cfg.par_update, cfg.print) = (false, None);
        let mut p = rich_problem(rng);
        // Where a NaN ends the generation depends on the order of evaluation
        p.faults = Faults::default();
        if rng.chance(0.5) {
            p = Problem::new(rng.pick(&[Fun::Sphere, Fun::Rastrigin, Fun::Rosen]).clone(), 0.5);
        }
        let n = rng.int(20, 500) * 10 / (10 + cfg.dim()).max(10);
        let s = Sim::new(&cfg, &p)?;
        h.bytes(format!("{:?}", s.par).as_bytes());
        drop(s);
        let a = history(&cfg, &p, n, || api)?;
        Ok(format!(
            "parameters {:x} history {} {:x} {:x} {:x}",
            h.get(),
            a.len(),
            a[0],
            a[a.len() / 2],
            a[a.len() - 1]
        ))
    });
    match go {
        Ok(Ok(s)) => format!("{} {}", k, s),
        Ok(Err(e)) => format!("{} failed: {}", k, e.replace('\n', " ")),
        Err(p) => format!("{} failed: {}", k, p.text().replace('\n', " ")),
    }
}

/// Executes a group of runs in this process in a given order
pub fn digest(args: &[String]) {
    let group: u64 = args[0].parse().unwrap();
    let n: usize = args[1].parse().unwrap();
    let how = args[2].as_str();
    let api = if how == "parallel" { Api::Par } else { Api::Seq };
    let mut order: Vec<usize> = (0..n).collect();
    if how == "reverse" {
        order.reverse();
    }
    if let Some(k) = how.strip_prefix("only-") {
        order = vec![k.parse().unwrap()];
    }
    // All of this takes less than a second
    std::thread::spawn(|| {
        std::thread::sleep(std::time::Duration::from_secs(300));
        eprintln!("the runs do not end");
        std::process::exit(1);
    });
    let lines: Vec<String> = if how == "threads" {
        std::thread::scope(|s| {
            let hs: Vec<_> = (0..4)
                .map(|t| {
                    let order = &order;
                    s.spawn(move || order.iter().filter(|k| *k % 4 == t).map(|k| digest_case(group, *k, api)).collect::<Vec<_>>())
                })
                .collect();
            hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
        })
    } else {
        order.iter().map(|k| digest_case(group, *k, api)).collect()
    };
    for l in lines {
        println!("{}", l);
    }
    println!("done");
}

pub fn c03(ctx: &Ctx) {
    let pools: Vec<(usize, Arc<rayon::ThreadPool>)> = [1usize, 2, 3, 8, 13, 24, 65]
        .iter()
        .map(|k| {
            (
                *k,
                Arc::new(
                    rayon::ThreadPoolBuilder::new()
                        .num_threads(*k)
                        .build()
                        .unwrap(),
                ),
            )
        })
        .collect();
    ctx.rule("variants: the same options, seed and objective are run sequentially, in parallel on pools of 1/2/3/8/13/24/65 threads with random delays inside the objective, mixed, with plotting and printing toggled, through cloned options and next to 7 other running cases; the hashes of the whole histories must be equal; distinct by history hash, non-trivial if at least 2 generations and 5 variants were compared");
    ctx.cases("variants", ctx.n(260, 6000), |rng, c| {
        let mut cfg = rich_cfg(rng);
        cfg.par_update = false;
        let mut p = rich_problem(rng);
        p.faults = Faults::default();
        if rng.chance(0.3) {
            cfg.max_evals = Some(rng.int(10, 3000));
            cfg.fun_target = Some(rng.log_range(1e-6, 10.0));
        }
        let mut n = rng.int(2, 80);
        if c.idx % 200 == 100 {
            (cfg, p, n) = long_case(rng);
            cfg.par_update = false;
            n = n.min(20_300);
            c.count("long_runs", 1);
        }
        c.desc = format!("{:?} {:?} gens={}", cfg, p, n);
        let base = history(&cfg, &p, n, || Api::Seq)?;
        let check = |what: &str, other: &[u64]| -> Res {
            match first_diff(&base, other) {
                None => Ok(()),
                Some(k) => Err(format!(
                    "the run with {} differs from the sequential run from generation {} on",
                    what,
                    k + 1
                )),
            }
        };
        let mut k = 0;
        check("the same options again", &history(&cfg, &p, n, || Api::Seq)?)?;
        k += 1;
        for (t, pool) in &pools {
            let mut q = p.clone();
            q.delay = if rng.chance(0.3) { rng.int(1, 40) as u64 } else { 0 };
            let m = if q.delay > 0 { n.min(12) } else { n };
            let h = pool.install(|| history(&cfg, &q, m, || Api::Par))?;
            check(
                &format!("next_parallel on {} threads", t),
                &if m < n && h.len() == m { [&h[..], &base[m.min(base.len())..]].concat() } else { h },
            )?;
            k += 1;
        }
        {
            let mut r = rng.clone();
            check(
                "mixed sequential and parallel generations",
                &history(&cfg, &p, n, || if r.chance(0.5) { Api::Seq } else { Api::Par })?,
            )?;
            k += 1;
        }
        let mut d = cfg.clone();
        d.plot = if cfg.plot.is_some() { None } else { Some(rng.below(50)) };
        check("plotting toggled", &history(&d, &p, n, || Api::Seq)?)?;
        let mut d = cfg.clone();
        d.print = if cfg.print.is_some() { None } else { Some(rng.below(50)) };
        check("printing toggled", &history(&d, &p, n, || Api::Par)?)?;
        k += 2;
        // Cloned options, and a second optimizer advanced in between
        {
            let (o, _) = cfg.options_with_constraints();
            let o2 = o.clone();
            let (ra, rb) = (Rec::new(), Rec::new());
            let mut a = o.build(p.obj(ra.clone())).map_err(|e| format!("{:?}", e))?;
            let mut b = o2.build(p.obj(rb.clone())).map_err(|e| format!("{:?}", e))?;
            for i in 0..n {
                let x = a.next();
                let y = b.next_parallel();
                let (x, y) = (x.map(|x| x.reasons), y.map(|x| x.reasons));
                let (mut ha, mut hb) = (Fnv::new(), Fnv::new());
                snap(&a).hash(&mut ha);
                snap(&b).hash(&mut hb);
                if x != y || ha.get() != hb.get() {
                    return Err(format!(
                        "two optimizers of cloned options, advanced in turns, differ in generation {}",
                        i + 1
                    ));
                }
                if x.map_or(false, |r| r.contains(&R::PosDefCov)) {
                    break;
                }
            }
            k += 1;
        }
        c.count("histories_compared", k);
        c.count("generations", base.len() as u64 * (k + 1));
        if base.len() >= 2 {
            c.nontrivial = base.last().cloned();
        }
        Ok(())
    });
    ctx.rule("run: run and run_parallel to termination on several pools end with bit-identical results");
    ctx.cases("run", ctx.n(120, 3000), |rng, c| {
        let mut cfg = rich_cfg(rng);
        cfg.par_update = false;
        cfg.max_gens = Some(rng.int(1, 400));
        let mut p = rich_problem(rng);
        p.faults = Faults::default();
        c.desc = format!("{:?} {:?}", cfg, p);
        let mut res: Vec<(String, u64)> = vec![];
        let mut go = |name: String, par: bool| -> Res {
            let mut s = Sim::new(&cfg, &p)?;
            s.rec.cap.store(500 * cfg.lambda() as u64, std::sync::atomic::Ordering::Relaxed);
            let t = if par { s.cm.run_parallel() } else { s.cm.run() };
            let mut h = Fnv::new();
            snap(&s.cm).hash(&mut h);
            h.bytes(format!("{:?} {:?}", t.reasons, t.final_mean).as_bytes());
            res.push((name, h.get()));
            Ok(())
        };
        go("run".into(), false)?;
        go("run_parallel".into(), true)?;
        for (t, pool) in &pools {
            pool.install(|| go(format!("run_parallel on {} threads", t), true))?;
        }
        for (name, h) in &res {
            if *h != res[0].1 {
                return Err(format!("the result of {} differs from that of {}", name, res[0].0));
            }
        }
        c.count("histories_compared", res.len() as u64);
        c.nontrivial = Some(res[0].1);
        Ok(())
    });
    ctx.rule("process: the same groups of runs and restarts are executed by fresh processes one after another, in reverse, each in a process of its own, on 4 threads, and through next_parallel, in other environments; parameters and histories must be equal, so that nothing remembered from other optimizers, and nothing of the process, has an influence");
    ctx.cases("process", ctx.n(8, 150), |rng, c| {
        let seed = rng.u64() >> 1;
        let n = rng.int(12, 30);
        c.desc = format!("vmon digest {} {} forward", seed, n);
        let run = |args: &str, threads: usize, env: &str| -> Result<Vec<String>, String> {
            beat();
            let exe = std::env::current_exe().map_err(|e| e.to_string())?;
            let mut cmd = std::process::Command::new(exe);
            cmd.arg("digest").args(args.split(' ')).env("RAYON_NUM_THREADS", threads.to_string());
            if !env.is_empty() {
                cmd.env("LC_ALL", env).env("RUST_BACKTRACE", "1").env("TZ", "Asia/Tokyo").env("HOME", "/nonexistent").current_dir("/");
            }
            let o = cmd.output().map_err(|e| e.to_string())?;
            let out = String::from_utf8_lossy(&o.stdout).into_owned();
            if !out.ends_with("done\n") {
                let err = String::from_utf8_lossy(&o.stderr).into_owned();
                return Err(format!("vmon digest {} ended with {:?}: {}", args, o.status, err));
            }
            beat();
            Ok(out.lines().filter(|l| *l != "done").map(|l| l.to_string()).collect())
        };
        let mut base = run(&format!("{} {} forward", seed, n), 4, "")?;
        base.sort();
        if let Some(l) = base.iter().find(|l| l.contains("failed")) {
            return Err(l.clone());
        }
        let mut compared = 0u64;
        let mut compare = |what: &str, other: Vec<String>| -> Res {
            for l in other {
                if base.binary_search(&l).is_err() {
                    let id = format!("{} ", l.split(' ').next().unwrap_or(""));
                    let b = base.iter().find(|b| b.starts_with(&id));
                    return Err(format!("a process {} gives {} instead of {:?}", what, l, b));
                }
                compared += 1;
            }
            Ok(())
        };
        compare("with the opposite order", run(&format!("{} {} reverse", seed, n), 1, "tr_TR.UTF-8")?)?;
        compare("with 4 threads", run(&format!("{} {} threads", seed, n), 3, "")?)?;
        compare("with next_parallel", run(&format!("{} {} parallel", seed, n), 8, "C")?)?;
        for _ in 0..4 {
            let k = rng.below(n);
            compare("of its own", run(&format!("{} {} only-{}", seed, n, k), 2, "")?)?;
        }
        c.count("processes", 8);
        c.count("digests_compared", compared);
        c.nontrivial = Some(hash_str(&base.concat()));
        Ok(())
    });
    ctx.rule("unseeded: the seed reported by an optimizer built without one reproduces its run, and unseeded optimizers differ; seeds: pairwise different seeds (neighbouring, differing in single bits) sample different first generations");
    ctx.cases("unseeded", ctx.n(60, 1000), |rng, c| {
        let mut cfg = rich_cfg(rng);
        cfg.par_update = false;
        cfg.seed = None;
        let mut p = rich_problem(rng);
        p.faults = Faults::default();
        let n = rng.int(2, 40);
        c.desc = format!("{:?} {:?}", cfg, p);
        let mut seeds = vec![];
        for _ in 0..4 {
            let mut s = Sim::new(&cfg, &p)?;
            let seed = s.par.seed;
            let mut h = Fnv::new();
            let mut a = vec![];
            for _ in 0..n {
                let g = s.step(Api::Seq);
                g.hash(&mut h);
                a.push(h.get());
                if g.has(R::PosDefCov) {
                    break;
                }
            }
            let mut d = cfg.clone();
            d.seed = Some(seed);
            let b = history(&d, &p, n, || Api::Seq)?;
            if let Some(k) = first_diff(&a, &b) {
                return Err(format!(
                    "the run with the reported seed {} differs from the unseeded run from generation {} on",
                    seed, k + 1
                ));
            }
            seeds.push(seed);
            c.count("histories_compared", 1);
        }
        seeds.sort();
        if seeds.windows(2).any(|w| w[0] == w[1]) {
            return Err(format!("unseeded optimizers got the same seed: {:?}", seeds));
        }
        c.nontrivial = Some(seeds[0]);
        Ok(())
    });
    ctx.cases("seeds", ctx.n(60, 600), |rng, c| {
        let n = rng.int(1, 6);
        let base = *rng.pick(&[0u64, 1, u64::MAX, 1 << 32, 12345]);
        let mut seeds: Vec<u64> = (0..64).map(|b| base ^ (1u64 << b)).collect();
        seeds.push(base);
        seeds.extend((1..60).map(|k| base.wrapping_add(k * 3)));
        seeds.extend((0..40).map(|_| rng.u64()));
        seeds.sort();
        seeds.dedup();
        c.desc = format!("dim={} base={}", n, base);
        let mut firsts: Vec<(Vec<u64>, u64)> = vec![];
        for s in &seeds {
            let mut cfg = Cfg::new(vec![0.0; n], 1.0);
            cfg.seed = Some(*s);
            let mut sim = Sim::new(&cfg, &Problem::new(Fun::Sphere, 0.0))?;
            if sim.par.seed != *s {
                return Err(format!("seed {} is reported as {}", s, sim.par.seed));
            }
            let g = sim.step(Api::Seq);
            for e in &g.evs {
                firsts.push((e.x.iter().map(|a| a.to_bits()).collect(), *s));
            }
        }
        firsts.sort();
        for w in firsts.windows(2) {
            if w[0].0 == w[1].0 {
                return Err(format!(
                    "the seeds {} and {} sample the same point in the first generation",
                    w[0].1, w[1].1
                ));
            }
        }
        c.count("seeds_compared", seeds.len() as u64);
        c.nontrivial = Some(base ^ n as u64);
        Ok(())
    });
    ctx.rule("update: with the parallel state update, the first generation's points are identical and the next distribution equal up to rounding");
    ctx.cases("update", ctx.n(150, 3000), |rng, c| {
        let mut cfg = rand_cfg(rng);
        cfg.par_update = false;
        // No ties, so that the ranking does not depend on the order
        let mut fun = rand_smooth(rng);
        if matches!(fun, Fun::NoisySphere(_)) {
            fun = Fun::Sphere;
        }
        let p = Problem::new(fun, 0.1);
        c.desc = format!("{:?} {:?}", cfg, p);
        let mut d = cfg.clone();
        d.par_update = true;
        let mut a = Sim::new(&cfg, &p)?;
        let (_, pool) = &pools[rng.below(pools.len())];
        let apis = [*rng.pick(&[Api::Seq, Api::Par])];
        let ys = pool.install(|| -> Result<Vec<Gen>, String> {
            let mut b = Sim::new(&d, &p)?;
            Ok(apis.iter().map(|api| b.step(*api)).collect())
        })?;
        for (i, y) in ys.iter().take(1).enumerate() {
            let x = a.step(Api::Seq);
            if i == 0 {
                let key = |e: &Ev| (e.x.iter().map(|v| v.to_bits()).collect::<Vec<_>>(), e.v.to_bits());
                let (mut ex, mut ey): (Vec<_>, Vec<_>) =
                    (x.evs.iter().map(key).collect(), y.evs.iter().map(key).collect());
                ex.sort();
                ey.sort();
                if ex != ey {
                    return Err("the parallel state update changes the sampled points".into());
                }
            }
            let scale = x.snap.sigma.abs() * x.snap.cov.iter().fold(0.0f64, |a, b| a.max(b.abs())).sqrt();
            let cmax = x.snap.cov.iter().fold(0.0f64, |a, b| a.max(b.abs()));
            let bad = x.snap.mean.iter().zip(&y.snap.mean).any(|(p, q)| (p - q).abs() > 1e-6 * scale)
                || !close(x.snap.sigma, y.snap.sigma, 1e-8, 0.0)
                || x.snap.cov.iter().zip(&y.snap.cov).any(|(p, q)| (p - q).abs() > 1e-7 * cmax);
            if bad {
                return Err(format!(
                    "the parallel state update differs by more than rounding in generation {}",
                    i + 1
                ));
            }
            c.count("updates_compared", 1);
            let mut h = Fnv::new();
            x.snap.hash(&mut h);
            c.nontrivial = Some(h.get());
            if x.has(R::PosDefCov) {
                break;
            }
        }
        Ok(())
    });
}

// ---- C04 ------------------------------------------------------------------------------------

struct Traj {
    gens: Vec<u64>,
    reasons: Vec<Vec<R>>,
    cur: Vec<f64>,
    best: Vec<f64>,
    /// The first generation with values that cannot be scaled exactly
    extreme: usize,
}

fn trajectory(
    cfg: &Cfg,
    p: &Problem,
    neg: bool,
    trans: Option<Arc<dyn Fn(f64) -> f64 + Send + Sync>>,
    n: usize,
    api: Api,
) -> Result<Traj, String> {
    let mut s = Sim::with(cfg, |rec| {
        let mut o = p.obj(rec);
        o.neg = neg;
        o.trans = trans;
        o
    })?;
    let mut t = Traj {
        gens: vec![],
        reasons: vec![],
        cur: vec![],
        best: vec![],
        extreme: usize::MAX,
    };
    let mut h = Fnv::new();
    for i in 0..n {
        let g = s.step(api);
        if t.extreme == usize::MAX
            && g.evs
                .iter()
                .any(|e| !(e.v.abs() < 1e250) || (e.v != 0.0 && e.v.abs() < 1e-250))
        {
            t.extreme = i;
        }
        // Which points are still evaluated in parallel after an invalid value is not fixed
        if api == Api::Par && g.evs.iter().any(|e| e.v.is_nan()) {
            break;
        }
        let mut xs: Vec<u64> = g
            .evs
            .iter()
            .map(|e| {
                let mut h = Fnv::new();
                h.fs(&e.x);
                h.get()
            })
            .collect();
        xs.sort();
        for x in xs {
            h.u64(x);
        }
        h.fs(&g.snap.mean);
        h.f(g.snap.sigma);
        h.fs(&g.snap.cov);
        h.fs(&g.snap.eig);
        if let Some((x, _)) = &g.snap.best {
            h.fs(x);
        }
        t.gens.push(h.get());
        t.reasons.push(g.reasons().to_vec());
        t.cur.push(g.snap.cur.as_ref().map_or(f64::NAN, |x| x.1));
        t.best.push(g.snap.best.as_ref().map_or(f64::NAN, |x| x.1));
        if g.has(R::PosDefCov) {
            break;
        }
    }
    Ok(t)
}

fn int_fun(rng: &mut Rng) -> Fun {
    match rng.below(5) {
        0 | 1 => Fun::IntSphere(*rng.pick(&[50, 1000, 100_000])),
        2 => Fun::IntNoise(*rng.pick(&[1, 3, 1000, 100_000])),
        3 => Fun::IntLinear,
        _ => Fun::IntSphere(100_000),
    }
}

pub fn c04(ctx: &Ctx) {
    ctx.rule("transform: an objective with integer values (with and without ties) is replaced by strictly increasing transformations that are exact in floating point (affine, cubic, adjacent floats, denormals, steps to infinity-sized gaps), signs of zeros are varied, and smooth objectives by exact powers of two; points, means, step sizes and matrices must be bit-identical over the whole run, also past termination; non-trivial if at least 3 generations and 3 transformations were compared");
    ctx.cases("transform", ctx.n(300, 8000), |rng, c| {
        let mut cfg = rand_cfg(rng);
        cfg.par_update = false;
        if rng.chance(0.25) {
            cfg.cons = Some(rand_feas(rng, &cfg));
        }
        let n = if rng.chance(0.2) { rng.int(100, 500) } else { rng.int(3, 100) };
        type T = (&'static str, Arc<dyn Fn(f64) -> f64 + Send + Sync>);
        let int = rng.chance(0.7);
        let fun = if int { int_fun(rng) } else { rand_smooth(rng) };
        let p = Problem::new(fun, *rng.pick(&[0.0, 0.3]));
        let neg = rng.chance(0.5);
        let ts: Vec<T> = if int {
            vec![
                ("3k+7", Arc::new(|k: f64| 3.0 * k + 7.0)),
                ("k^3", Arc::new(|k: f64| k * k * k)),
                ("k*2^900", Arc::new(|k: f64| k * 2f64.powi(900))),
                ("denormal k", Arc::new(|k: f64| k * f64::from_bits(1))),
                (
                    "adjacent floats",
                    Arc::new(|k: f64| f64::from_bits(1.0f64.to_bits().wrapping_add(k as i64 as u64))),
                ),
                (
                    "log-like",
                    Arc::new(|k: f64| if k > 0.0 { 1.0 + (k * 2f64.powi(-30)) } else { k * 2f64.powi(40) }),
                ),
                (
                    "largest to infinity",
                    Arc::new(|k: f64| if k >= 900.0 { k * 1e300 } else { k - 1e6 }),
                ),
                ("k-1e9", Arc::new(|k: f64| k - 1e9)),
            ]
        } else {
            vec![
                ("*2^60", Arc::new(|k: f64| k * 2f64.powi(60))),
                ("*2^-60", Arc::new(|k: f64| k * 2f64.powi(-60))),
                ("*4", Arc::new(|k: f64| k * 4.0)),
            ]
        };
        c.desc = format!("{:?} {:?} neg={} gens={}", cfg, p, neg, n);
        let api = *rng.pick(&[Api::Seq, Api::Par]);
        let base = trajectory(&cfg, &p, neg, None, n, api)?;
        let mut k = 0;
        {
            let mut q = p.clone();
            q.zero_signs = true;
            let o = trajectory(&cfg, &q, neg, None, n, api)?;
            if let Some(g) = first_diff(&base.gens, &o.gens) {
                return Err(format!("the signs of zeros, which are tied, change the trajectory from generation {} on", g + 1));
            }
            c.count("trajectories_compared", 1);
        }
        for (name, t) in ts {
            // "largest to infinity" must stay strictly increasing: 900 * 1e300 overflows to infinity
            if name == "largest to infinity" && !matches!(p.fun, Fun::IntSphere(50)) {
                continue;
            }
            let o = trajectory(&cfg, &p, neg, Some(t), n, api)?;
            let end = if int { usize::MAX } else { base.extreme };
            let cut = |v: &[u64]| v[..v.len().min(end)].to_vec();
            if let Some(g) = first_diff(&cut(&base.gens), &cut(&o.gens)) {
                return Err(format!(
                    "transforming the values by {} changes the trajectory from generation {} on",
                    name, g + 1
                ));
            }
            k += 1;
            c.count("trajectories_compared", 1);
        }
        c.count("generations", base.gens.len() as u64);
        if base.gens.len() >= 3 && k >= 3 {
            c.nontrivial = base.gens.last().cloned();
        }
        Ok(())
    });
    ctx.rule("duality: maximizing f against minimizing -f with mirrored target: equal trajectories, mirrored bests, equal reasons in every generation");
    ctx.cases("duality", ctx.n(500, 12000), |rng, c| {
        let mut cfg = rich_cfg(rng);
        cfg.par_update = false;
        cfg.plot = None;
        let mut n = if rng.chance(0.1) { rng.int(500, 1500) } else { rng.int(3, 150) };
        let mut p = Problem::new(rand_fun(rng), *rng.pick(&[0.0, 0.3]));
        let long = c.idx % 100 == 50;
        if long {
            (cfg, p, n) = long_case(rng);
            cfg.par_update = false;
            c.count("long_runs", 1);
        }
        let target = if rng.chance(0.5) { Some(rng.log_range(1e-6, 1e3) * if rng.chance(0.5) { -1.0 } else { 1.0 }) } else { None };
        cfg.tol_fun_rel = if rng.chance(0.5) { Some(rng.log_range(1e-12, 1e-1)) } else { None };
        if rng.chance(0.3) {
            cfg.tol_stagnation = Some(rng.int(4, 30));
        }
        let neg = rng.chance(0.5);
        c.desc = format!("{:?} {:?} neg={} target={:?} gens={}", cfg, p, neg, target, n);
        let (mut a, mut b) = (cfg.clone(), cfg.clone());
        a.mode = Mode::Minimize;
        b.mode = Mode::Maximize;
        a.fun_target = target;
        b.fun_target = target.map(|t| -t);
        let api = if long { Api::Seq } else { *rng.pick(&[Api::Seq, Api::Par]) };
        let x = trajectory(&a, &p, neg, None, n, api)?;
        let y = trajectory(&b, &p, !neg, None, n, api)?;
        if let Some(g) = first_diff(&x.gens, &y.gens) {
            return Err(format!("maximizing the negated objective diverges in generation {}", g + 1));
        }
        for g in 0..x.gens.len() {
            let eq = |p: f64, q: f64| p == -q || (p.is_nan() && q.is_nan());
            if !eq(x.cur[g], y.cur[g]) || !eq(x.best[g], y.best[g]) {
                return Err(format!("the best values of generation {} are not mirrored", g + 1));
            }
            let (mut r, mut s) = (x.reasons[g].clone(), y.reasons[g].clone());
            r.sort_by_key(|r| format!("{:?}", r));
            s.sort_by_key(|r| format!("{:?}", r));
            if r != s {
                return Err(format!(
                    "generation {}: minimizing reports {:?}, maximizing the negated objective {:?}",
                    g + 1, r, s
                ));
            }
            if !r.is_empty() {
                c.count("generations_with_reasons", 1);
            }
        }
        c.count("generations", x.gens.len() as u64);
        c.count("trajectories_compared", 1);
        if x.gens.len() >= 3 {
            c.nontrivial = x.gens.last().cloned();
        }
        Ok(())
    });
}

// ---- C05 ------------------------------------------------------------------------------------

pub fn c05(ctx: &Ctx) {
    ctx.rule("model: every generation of random runs is compared with the harness's own implementation of the (a)CMA-ES equations, resynchronized to the observed distribution; sequential/parallel evaluation and update, all weights, cm, constraints, dimensions 1..40; the comparison of a run ends when ties or lost precision make the expectation ambiguous; non-trivial if at least 10 generations and 2 refreshes of the decomposition were checked");
    ctx.cases("model", ctx.n(700, 20000), |rng, c| {
        let n = *rng.pick(&[1, 2, 2, 3, 4, 5, 6, 8, 10, 13, 20, 40]);
        let mut cfg = rand_cfg_dim(rng, n);
        cfg.par_update = rng.chance(0.35);
        if rng.chance(0.5) {
            // Precise steps
            for m in cfg.mean.iter_mut() {
                *m *= 1e-1;
            }
        }
        if rng.chance(0.1) {
            cfg.lambda = Some(rng.int(60, 250));
        }
        if rng.chance(0.2) {
            cfg.cons = Some(rand_feas(rng, &cfg));
        }
        if rng.chance(0.1) {
            cfg.sigma = *rng.pick(&[1e-100, 1e100, 1e-12]);
            for m in cfg.mean.iter_mut() {
                *m *= cfg.sigma;
            }
        }
        let fun = match rng.below(12) {
            0..=5 => rand_smooth(rng),
            6 => Fun::Linear,
            7 => Fun::Noise,
            8 => Fun::RotElli(1e4, 3),
            9 => Fun::NegSphere,
            10 => Fun::Elli(1e2),
            _ => Fun::Discus,
        };
        let mut p = Problem::new(fun, if rng.chance(0.3) { 0.5 } else { 0.0 });
        p.neg = cfg.mode == Mode::Maximize && rng.chance(0.8);
        if rng.chance(0.1) {
            p.faults.nan_hash = Some(rng.int(30, 300) as u64);
        }
        let api = rand_api(rng);
        let gens = (if ctx.thorough() { 3 } else { 1 })
            * if n >= 20 { rng.int(20, 80) } else { rng.int(20, 400) };
        let mut gens = gens;
        if c.idx % 400 == 200 {
            // Many generations in many dimensions on values that keep the distribution in shape
            let n = *rng.pick(&[10, 15, 20, 30]);
            cfg = rand_cfg_dim(rng, n);
            cfg.lambda = None;
            cfg.weights = Weights::Positive;
            cfg.par_update = rng.chance(0.3);
            cfg.mean.iter_mut().for_each(|m| *m = 0.0);
            p = Problem::new(Fun::Noise, 0.0);
            gens = rng.int(4200, 9000);
            c.count("long_runs", 1);
        }
        c.desc = format!("{:?} {:?} {:?} gens={}", cfg, p, api, gens);
        let mut s = Sim::new(&cfg, &p)?;
        let mut m = Model::new(&s.par, cfg.mode);
        let mut refreshed_early = None;
        for _ in 0..gens {
            let prev = s.last.clone();
            let g = s.step(api.pick(rng));
            let due_before = m.last_refresh;
            m.step(&prev, &g)?;
            if !m.alive {
                break;
            }
            // Refreshes happen only at the documented intervals
            if g.complete()
                && m.last_refresh == due_before
                && !bits_eq(&prev.eig, &g.snap.eig)
                && refreshed_early.is_none()
            {
                refreshed_early = Some(g.snap.generation);
            }
        }
        if let Some(g) = refreshed_early {
            return Err(format!(
                "generation {}: the decomposition changed before the documented interval of {} evaluations",
                g,
                s.par.eigen_interval()
            ));
        }
        c.count("generations_checked", m.checked);
        c.count("refreshes", m.refreshes);
        c.count("stalled_paths", m.hs_zero);
        c.count("negative_weights_rescaled", m.neg_scaled);
        c.count("ambiguous_stalls", m.ambiguous);
        if cfg.par_update {
            c.count("parallel_updates", m.checked);
        }
        if !m.alive {
            c.count(
                match m.why_dead {
                    "ties" => "ended_by_ties",
                    "condition number" => "ended_by_condition_number",
                    "precision of the steps" => "ended_by_step_precision",
                    "precision of the path" => "ended_by_path_precision",
                    "precision of the covariance matrix" => "ended_by_matrix_precision",
                    "values left the floating-point range" => "ended_by_range",
                    "indefinite covariance matrix" | "not positive definite" => "ended_indefinite",
                    crate::model::DEPENDENCY => "ended_by_wrong_nalgebra_decomposition",
                    _ => "ended_otherwise",
                },
                1,
            );
        }
        if m.checked < 1 {
            c.inconclusive = true;
        }
        if m.checked >= 10 && m.refreshes >= 2 {
            let mut h = Fnv::new();
            s.last.hash(&mut h);
            c.nontrivial = Some(h.get());
        }
        Ok(())
    });
    ctx.rule("dependency: a run in which nalgebra's eigendecomposition of one covariance matrix is wrong (a known finding)");
    ctx.serial("dependency", 1, |_, c| {
        let mean = [
            1000.4116624753223, 999.8420197465496, 999.8983687017829, 999.8157205618315,
            1000.6722043881567, 1000.8912401039314, 999.3393133645379, 1000.8475715088645,
            1000.3389621124078, 999.1664856061785,
        ];
        let mut cfg = Cfg::new(mean.to_vec(), 0.32021815912237916);
        cfg.weights = Weights::Uniform;
        cfg.seed = Some(17717954096816346864);
        c.desc = format!("{:?} cigar", cfg);
        let mut s = Sim::new(&cfg, &Problem::new(Fun::Cigar, 0.0))?;
        let mut m = Model::new(&s.par, cfg.mode);
        m.trusting = true;
        for _ in 0..200 {
            let prev = s.last.clone();
            let g = s.step(Api::Seq);
            match m.step(&prev, &g) {
                Ok(()) => (),
                Err(e) if m.deco_err > 1e-10 => {
                    c.finding(
                        "eigen-2x2",
                        format!("{} (nalgebra's decomposition of the matrix before is off by {:e})", e, m.deco_err),
                    );
                    break;
                }
                Err(e) => return Err(e),
            }
        }
        c.count("generations_checked", m.checked);
        Ok(())
    });
}

// ---- C06 ------------------------------------------------------------------------------------

pub struct Exp {
    pub mu: usize,
    pub mu_eff: f64,
    pub w: Vec<f64>,
    pub cc: f64,
    pub c1: f64,
    pub cmu: f64,
    pub cs: f64,
    pub ds: f64,
}

/// The published formulas (Hansen, "The CMA evolution strategy: a tutorial")
pub fn expected_params(n: usize, l: usize, weights: Weights) -> Exp {
    let nf = n as f64;
    let mu = l / 2;
    let raw: Vec<f64> = match weights {
        Weights::Uniform => vec![1.0; mu],
        _ => (1..=l)
            .map(|i| ((l as f64 + 1.0) / 2.0 / i as f64).ln())
            .collect(),
    };
    let pos = &raw[..mu];
    let s: f64 = pos.iter().sum();
    let mu_eff = s * s / pos.iter().map(|w| w * w).sum::<f64>();
    let cc = (4.0 + mu_eff / nf) / (nf + 4.0 + 2.0 * mu_eff / nf);
    let c1 = 2.0 / ((nf + 1.3) * (nf + 1.3) + mu_eff);
    let cmu = (1.0 - c1)
        .min(2.0 * (mu_eff - 2.0 + 1.0 / mu_eff) / ((nf + 2.0) * (nf + 2.0) + mu_eff));
    let cs = (mu_eff + 2.0) / (nf + mu_eff + 5.0);
    let ds = 1.0 + cs + 2.0 * (((mu_eff - 1.0) / (nf + 1.0)).sqrt() - 1.0).max(0.0);
    let mut w: Vec<f64> = pos.iter().map(|x| x / s).collect();
    if weights == Weights::Negative {
        let neg = &raw[mu..];
        let sn: f64 = neg.iter().sum();
        let mem = sn * sn / neg.iter().map(|w| w * w).sum::<f64>();
        let a = (1.0 + c1 / cmu)
            .min(1.0 + 2.0 * mem / (mu_eff + 2.0))
            .min((1.0 - c1 - cmu) / (nf * cmu));
        for x in neg {
            w.push(if *x < 0.0 { a * x / sn.abs() } else { *x });
        }
    }
    Exp {
        mu,
        mu_eff,
        w,
        cc,
        c1,
        cmu,
        cs,
        ds,
    }
}

pub fn c06(ctx: &Ctx) {
    ctx.rule("formulas: the parameters reported for a dimension (1..=130, some up to 700), a population size (2..=2000, some up to 300000) and a weight setting against the harness's own formulas; distinct by that triple");
    ctx.cases("formulas", ctx.n(12000, 200000), |rng, c| {
        let n = match rng.below(4) {
            0 => rng.int(1, 4),
            1 => rng.int(1, 20),
            _ => rng.int(1, 130),
        };
        let l = match rng.below(4) {
            0 => None,
            1 => Some(rng.int(2, 8)),
            2 => Some(rng.int(2, 100)),
            _ => Some(rng.int(2, 2000)),
        };
        // Huge ones
        let (n, l) = match c.idx % 500 {
            100 => (rng.int(1, 4), Some(rng.int(2000, 300_000))),
            300 => (rng.int(131, 700), l),
            _ => (n, l),
        };
        let weights = rand_weights(rng);
        let mut cfg = Cfg::new((0..n).map(|_| rng.range(-5.0, 5.0)).collect(), rng.log_range(1e-3, 1e3));
        cfg.lambda = l;
        cfg.weights = weights;
        cfg.cm = if rng.chance(0.5) { Some(rng.range(0.01, 1.0)) } else { None };
        c.desc = format!("dim={} lambda={:?} weights={:?} cm={:?}", n, l, weights, cfg.cm);
        let s = Sim::new(&cfg, &Problem::new(Fun::Sphere, 0.0))?;
        let p = &s.par;
        let l = cfg.lambda();
        let e = expected_params(n, l, weights);
        let eqs: &[(&str, f64, f64)] = &[
            ("dim", p.dim as f64, n as f64),
            ("lambda", p.lambda as f64, l as f64),
            ("mu", p.mu as f64, e.mu as f64),
            ("mu_eff", p.mu_eff, e.mu_eff),
            ("cc", p.cc, e.cc),
            ("c1", p.c1, e.c1),
            ("cs", p.cs, e.cs),
            ("damp_s", p.ds, e.ds),
            ("cm", p.cm, cfg.cm.unwrap_or(1.0)),
            ("initial_sigma", p.sigma0, cfg.sigma),
        ];
        for (what, got, exp) in eqs {
            if !close(*got, *exp, 1e-10, 0.0) {
                return Err(format!("{} is {:e}, expected {:e}", what, got, exp));
            }
        }
        // Exactly zero or rounding noise for a single parent
        if !close(p.cmu, e.cmu, 1e-10, 1e-15) {
            return Err(format!("cmu is {:e}, expected {:e}", p.cmu, e.cmu));
        }
        if s.cm.parameters().weights_setting() != weights {
            return Err("the weight setting is reported differently".into());
        }
        if p.w.len() < e.mu {
            return Err(format!("{} weights for {} parents", p.w.len(), e.mu));
        }
        // Weights that are not stored count as zero
        let len = p.w.len().max(e.w.len());
        let at = |v: &Vec<f64>, i: usize| v.get(i).cloned().unwrap_or(0.0);
        // The sum of negative weights is ill-conditioned where cmu is rounding noise
        let tol = if e.cmu < 1e-12 { 1e-2 } else { 1e-8 };
        for i in 0..len {
            let (g, x) = (at(&p.w, i), at(&e.w, i));
            if !close(g, x, tol, 1e-13) {
                return Err(format!("weight {} is {:e}, expected {:e}", i + 1, g, x));
            }
        }
        let sum: f64 = p.w.iter().take(p.mu).sum();
        if !close(sum, 1.0, 1e-10, 0.0) {
            return Err(format!("the positive weights sum to {}", sum));
        }
        let ok = p.w.windows(2).all(|w| w[0] >= w[1])
            && p.w.iter().take(p.mu).all(|w| *w > 0.0)
            && p.w.iter().skip(p.mu).all(|w| *w <= 0.0);
        if !ok {
            return Err(format!("the weights do not decrease with rank: {:?}", p.w));
        }
        // Learning rates form a convex combination
        if !(p.c1 > 0.0 && p.cmu >= -1e-15 && p.c1 + p.cmu <= 1.0 + 1e-12 && p.cc > 0.0 && p.cc <= 1.0 + 1e-12 && p.cs > 0.0 && p.cs < 1.0 && p.ds >= 1.0) {
            return Err("a learning rate is out of range".into());
        }
        c.count("parameter_sets", 1);
        c.count("weights_compared", len as u64);
        let mut h = Fnv::new();
        h.u64(n as u64);
        h.u64(l as u64);
        h.bytes(format!("{:?}", weights).as_bytes());
        c.nontrivial = Some(h.get());
        Ok(())
    });
    ctx.rule("options: a random subset of the options is set; set ones must be reported unchanged, others with their documented default");
    ctx.cases("options", ctx.n(4000, 60000), |rng, c| {
        let n = rng.int(1, 30);
        let mut cfg = Cfg::new((0..n).map(|_| rng.range(-5.0, 5.0)).collect(), rng.log_range(1e-30, 1e30));
        let some = |rng: &mut Rng| rng.chance(0.5);
        let f = |rng: &mut Rng| {
            *rng.pick(&[0.0, 1.0, 1e-12, 1e-300, 1e300, f64::INFINITY, -1.0, 3.7, 1e14, 1e8])
        };
        if some(rng) { cfg.lambda = Some(rng.int(2, 300)); }
        if some(rng) { cfg.max_evals = Some(*rng.pick(&[0, 1, 7, usize::MAX])); }
        if some(rng) { cfg.max_gens = Some(*rng.pick(&[0, 1, 9, usize::MAX])); }
        if some(rng) { cfg.max_time = Some(std::time::Duration::from_micros(rng.below(1 << 30) as u64)); }
        if some(rng) { cfg.fun_target = Some(f(rng)); }
        if some(rng) { cfg.tol_fun = Some(f(rng)); }
        if some(rng) { cfg.tol_fun_rel = Some(f(rng)); }
        if some(rng) { cfg.tol_fun_hist = Some(f(rng)); }
        if some(rng) { cfg.tol_x = Some(f(rng)); }
        if some(rng) { cfg.tol_stagnation = Some(rng.below(100_000)); }
        if some(rng) { cfg.tol_x_up = Some(f(rng)); }
        if some(rng) { cfg.tol_condition_cov = Some(f(rng)); }
        if some(rng) { cfg.cm = Some(rng.range(0.01, 1.0)); }
        if some(rng) { cfg.par_update = true; }
        if some(rng) { cfg.mode = Mode::Maximize; }
        if some(rng) { cfg.weights = *rng.pick(&[Weights::Positive, Weights::Uniform]); }
        if some(rng) { cfg.max_resamples = Some(*rng.pick(&[None, Some(0), Some(3)])); }
        cfg.seed = if some(rng) { Some(rng.u64()) } else { None };
        c.desc = format!("{:?}", cfg);
        let o = cfg.options();
        if o.max_resamples != cfg.max_resamples.unwrap_or(Some(10)) {
            return Err(format!("max_resamples is {:?}", o.max_resamples));
        }
        if o.constraints.is_some() || o.print_gap_evals.is_some() {
            return Err("constraints or printing are set by default".into());
        }
        let s = Sim::new(&cfg, &Problem::new(Fun::Sphere, 0.0))?;
        let q = s.cm.parameters();
        let l = cfg.lambda();
        let same = |a: f64, b: f64| a == b;
        let stag = 100 + (100.0 * (n as f64).powf(1.5) / l as f64).ceil() as usize;
        let checks: &[(&str, bool)] = &[
            ("mode", q.mode() == cfg.mode),
            ("dim", q.dim() == n),
            ("lambda", q.lambda() == l),
            ("initial_sigma", same(q.initial_sigma(), cfg.sigma)),
            ("cm", same(q.cm(), cfg.cm.unwrap_or(1.0))),
            ("max_function_evals", q.max_function_evals() == cfg.max_evals),
            ("max_generations", q.max_generations() == cfg.max_gens),
            ("max_time", q.max_time() == cfg.max_time),
            ("fun_target", q.fun_target() == cfg.fun_target),
            ("tol_fun", same(q.tol_fun(), cfg.tol_fun.unwrap_or(1e-12))),
            ("tol_fun_rel", same(q.tol_fun_rel(), cfg.tol_fun_rel.unwrap_or(0.0))),
            ("tol_fun_hist", same(q.tol_fun_hist(), cfg.tol_fun_hist.unwrap_or(1e-12))),
            ("tol_x", close(q.tol_x(), cfg.tol_x.unwrap_or(1e-12 * cfg.sigma), 1e-12, 0.0)),
            ("tol_stagnation", q.tol_stagnation() == cfg.tol_stagnation.unwrap_or(stag)),
            ("tol_x_up", same(q.tol_x_up(), cfg.tol_x_up.unwrap_or(1e8))),
            ("tol_condition_cov", same(q.tol_condition_cov(), cfg.tol_condition_cov.unwrap_or(1e14))),
            ("seed", cfg.seed.map_or(true, |s| s == q.seed())),
            ("parallel_update", q.parallel_update() == cfg.par_update),
            ("weights", q.weights_setting() == cfg.weights),
            ("mean", bits_eq(&s.last.mean, &cfg.mean)),
            ("sigma", same(s.last.sigma, cfg.sigma)),
        ];
        for (what, ok) in checks {
            if !ok {
                return Err(format!("{} is not reported as set or as its default", what));
            }
        }
        c.count("options_compared", checks.len() as u64);
        c.nontrivial = Some(crate::util::hash_str(&c.desc));
        Ok(())
    });
}
