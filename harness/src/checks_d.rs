//! C14-C18: validation of options, restart strategies.

use cmaes::restart::options::{InvalidRestartOptionsError, InvalidRestartStrategyOptionsError};
use cmaes::restart::{Local, RestartOptions, RestartTerminationReason as RR, BIPOP, IPOP};
use cmaes::{CMAESOptions, DVector, Mode, Weights, CMAES};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::Duration;

use crate::core::*;
use crate::rst::*;
use crate::sim::*;
use crate::util::{bits_eq, hash_str, ks, Fnv, Rng};

// ---- C14 ------------------------------------------------------------------------------------

const STEPS: &[f64] = &[
    0.0,
    -0.0,
    1.0,
    -1.0,
    1e-3,
    f64::NAN,
    f64::INFINITY,
    f64::NEG_INFINITY,
    f64::MIN_POSITIVE,
    2.225073858507201e-308,
    5e-324,
    -5e-324,
    -f64::MIN_POSITIVE,
    f64::MAX,
    f64::MIN,
    f64::EPSILON,
    -f64::NAN,
];

const CMS: &[f64] = &[
    1.0,
    0.5,
    f64::MIN_POSITIVE,
    0.9999999999999999,
    1.0000000000000002,
    2.0,
    0.0,
    -0.0,
    -0.5,
    -1.0,
    f64::NAN,
    f64::INFINITY,
    f64::NEG_INFINITY,
    5e-324,
    2.225073858507201e-308,
    -f64::MIN_POSITIVE,
];

fn positive_normal(x: f64) -> bool {
    x.is_normal() && x > 0.0
}

/// Options from all over, valid or not
fn any_options(rng: &mut Rng, n: usize, l: Option<usize>, sigma: f64, cm: Option<f64>) -> CMAESOptions {
    let mean: Vec<f64> = (0..n).map(|_| rng.range(-1.0, 1.0)).collect();
    let mut o = if rng.chance(0.8) {
        CMAESOptions::new(mean, sigma)
    } else {
        CMAESOptions::new(vec![7.0; 3], 0.3)
            .initial_mean(mean)
            .initial_step_size(sigma)
            .population_size(l.unwrap_or(if n > 0 { default_lambda(n) } else { 4 }))
    };
    if let Some(l) = l {
        if rng.chance(0.8) {
            o = o.population_size(l);
        } else {
            o.population_size = l;
        }
    }
    if let Some(c) = cm {
        if rng.chance(0.8) {
            o = o.cm(c);
        } else {
            o.cm = c;
        }
    }
    o = o.weights(rand_weights(rng)).mode(rand_mode(rng));
    if rng.chance(0.3) {
        o = o.parallel_update(true);
    }
    if rng.chance(0.3) {
        o = o.max_generations(rng.below(3)).max_function_evals(rng.below(3));
    }
    if rng.chance(0.2) {
        o = o.tol_x(f64::NAN).tol_fun(-1.0).fun_target(f64::NAN).tol_stagnation(0);
    }
    if rng.chance(0.2) {
        o = o.max_time(Duration::from_secs(0)).tol_x_up(0.0).tol_condition_cov(-1.0);
    }
    if rng.chance(0.2) {
        o = o.bounds(vec![-1e300; n], vec![f64::INFINITY; n]);
    }
    if rng.chance(0.2) {
        o = o.seed(rng.u64());
    }
    o
}

fn judge_options(
    c: &mut Case,
    rng: &mut Rng,
    n: usize,
    l: Option<usize>,
    sigma: f64,
    cm: Option<f64>,
) -> Result<u64, String> {
    let lambda = l.unwrap_or(if n > 0 { default_lambda(n) } else { 2 });
    let cmv = cm.unwrap_or(1.0);
    let mut exp = vec![];
    if n == 0 {
        exp.push("Dimensions");
    }
    if lambda < 2 {
        exp.push("PopulationSize");
    }
    if !positive_normal(sigma) {
        exp.push("InitialStepSize");
    }
    if !(positive_normal(cmv) && cmv <= 1.0) {
        exp.push("Cm");
    }
    let what = format!("dimension {} population {:?} step size {:e} cm {:?}", n, l, sigma, cm);
    let o = any_options(rng, n, l, sigma, cm);
    let f = |x: &DVector<f64>| x.iter().map(|a| a * a).sum::<f64>();
    let r = match guarded(|| if rng.chance(0.7) { o.build(f) } else { CMAES::new(f, o) }) {
        Ok(r) => r,
        Err(p) => return Err(format!("building with {} panicked: {}", what, p.text())),
    };
    match r {
        Err(e) => {
            let e = format!("{:?}", e);
            if !exp.contains(&e.as_str()) {
                return Err(format!("{} was rejected with {}, expected {:?}", what, e, exp));
            }
            c.count("rejected", 1);
            Ok(hash_str(&e))
        }
        Ok(mut o) => {
            if !exp.is_empty() {
                return Err(format!("{} was accepted, expected {:?}", what, exp));
            }
            c.count("accepted", 1);
            for _ in 0..3 {
                let r = guarded(|| {
                    let _ = if rng.chance(0.5) { o.next() } else { o.next_parallel() };
                });
                if let Err(p) = r {
                    return Err(format!("{} was accepted and panicked: {}", what, p.text()));
                }
            }
            Ok(1)
        }
    }
}

/// Step sizes a strategy may schedule for a range of this size
fn scheduled(strat: &Strat, width: f64) -> Vec<(&'static str, f64)> {
    let f = strat.step_factor();
    match strat {
        Strat::Local(..) => vec![("local-step-size", width * f * 1e-2)],
        Strat::Ipop(_) => vec![("ipop-step-size", width / 2.0)],
        Strat::Bipop(..) => vec![
            ("bipop-step-size", width / 5.0),
            ("bipop-step-size", width * f),
            ("bipop-step-size", width * f * 1e-2),
        ],
    }
}

const EDGES: &[f64] = &[
    0.0,
    -0.0,
    1.0,
    -1.0,
    5.0,
    1.0000000000000002,
    f64::MAX,
    f64::MIN,
    f64::MAX / 2.0,
    f64::MIN / 2.0,
    1e300,
    -1e300,
    5e-324,
    f64::MIN_POSITIVE,
    1e-300,
    f64::INFINITY,
    f64::NEG_INFINITY,
    f64::NAN,
];

fn rand_strat(rng: &mut Rng) -> Strat {
    let f = |rng: &mut Rng| match rng.below(4) {
        0 => None,
        1 => Some(rng.log_range(1e-3, 1e3)),
        2 => Some(*rng.pick(&[f64::MIN_POSITIVE, 1e-150, 1e-300, f64::MAX, 1e300])),
        _ => Some(rng.log_range(0.1, 2.0)),
    };
    match rng.below(3) {
        0 => Strat::Local(rng.below(4), f(rng)),
        1 => Strat::Ipop(if rng.chance(0.5) { None } else { Some(rng.int(1, 3)) }),
        _ => Strat::Bipop(f(rng), if rng.chance(0.5) { None } else { Some(rng.int(1, 3)) }),
    }
}

pub fn c14(ctx: &Ctx) {
    ctx.rule("options: all combinations of edge values of dimension, population size, step size and cm, with random further options; the verdict is compared with the documented conditions (any of the applying errors if several apply), and what is accepted is run for some generations; non-trivial by the set of outcomes");
    let dims = [0usize, 1, 2, 5];
    let pops = [None, Some(0), Some(1), Some(2), Some(3), Some(17)];
    ctx.cases("options", dims.len() * pops.len(), |rng, c| {
        let n = dims[c.idx as usize % dims.len()];
        let l = pops[c.idx as usize / dims.len()];
        c.desc = format!("dimension {} population {:?}", n, l);
        let mut h = Fnv::new();
        h.u64(c.idx);
        for &s in STEPS {
            h.u64(judge_options(c, rng, n, l, s, None)?);
            for &m in CMS {
                h.u64(judge_options(c, rng, n, l, s, Some(m))?);
            }
        }
        for _ in 0..if ctx.thorough() { 20000 } else { 600 } {
            let s = f64::from_bits(rng.u64());
            let m = f64::from_bits(rng.u64());
            judge_options(c, rng, n, l, s, None)?;
            judge_options(c, rng, n, l, 1.0, Some(m))?;
        }
        c.nontrivial = Some(h.get());
        Ok(())
    });
    ctx.rule("large: big dimensions and populations are accepted and run");
    ctx.cases("large", ctx.n(4, 16), |rng, c| {
        let (n, l) = [(300, None), (1, Some(20_000)), (100, Some(500)), (60, Some(2))][c.idx as usize % 4];
        c.desc = format!("dimension {} population {:?}", n, l);
        judge_options(c, rng, n, l, 1.0, None)?;
        c.nontrivial = Some(c.idx);
        Ok(())
    });
    ctx.rule("bounds: bounds shorter than the dimension (the known finding) and longer than it");
    ctx.serial("bounds", 6, |_, c| {
        let (a, b) = [(1, 3), (3, 1), (0, 0), (3, 3), (4, 5), (2, 2)][c.idx as usize];
        c.desc = format!("bounds of {} and {} values in dimension 3", a, b);
        let o = CMAESOptions::new(vec![0.0; 3], 1.0)
            .bounds(vec![-1e9; a], vec![1e9; b])
            .seed(1);
        let mut o = o
            .build(|x: &DVector<f64>| x.magnitude())
            .map_err(|e| format!("rejected with {:?}", e))?;
        match guarded(|| o.next().is_some()) {
            Ok(_) => c.count("accepted", 1),
            Err(p) if a.min(b) < 3 && p.msg.contains("index out of bounds") => {
                c.finding("bounds-length", format!("{}: {}", c.desc.clone(), p.text()))
            }
            Err(p) => return Err(p.text()),
        }
        c.nontrivial = Some(c.idx);
        Ok(())
    });
    ctx.rule("strategies: every edge value of the factors of the strategies");
    ctx.cases("strategies", STEPS.len() + 1, |rng, c| {
        let f = STEPS.get(c.idx as usize).copied();
        let bad_f = f.is_some_and(|f| !positive_normal(f));
        c.desc = format!("factor {:?}", f);
        for k in [0usize, 1, 2, usize::MAX, rng.u64() as usize] {
            let r = guarded(|| Local::new(k, f)).map_err(|p| p.text())?;
            match (&r, bad_f) {
                (Err(InvalidRestartStrategyOptionsError::InitialStepSize), true) | (Ok(_), false) => (),
                _ => return Err(format!("Local::new({}, {:?}) returned {:?}", k, f, r)),
            }
            for k in [None, Some(k)] {
                let r = guarded(|| BIPOP::new(f, k)).map_err(|p| p.text())?;
                let ok = match &r {
                    Err(InvalidRestartStrategyOptionsError::InitialStepSize) => bad_f,
                    Err(InvalidRestartStrategyOptionsError::PopulationSize) => k == Some(0),
                    Ok(_) => !bad_f && k != Some(0),
                };
                if !ok {
                    return Err(format!("BIPOP::new({:?}, {:?}) returned {:?}", f, k, r));
                }
            }
            let r = guarded(|| IPOP::new(k)).map_err(|p| p.text())?;
            match (&r, k == 0) {
                (Err(InvalidRestartStrategyOptionsError::PopulationSize), true) | (Ok(_), false) => (),
                _ => return Err(format!("IPOP::new({}) returned {:?}", k, r)),
            }
            c.count("strategies", 4);
        }
        c.nontrivial = Some(c.idx);
        Ok(())
    });
    ctx.rule("restarts: all pairs of edge values of the search range with random strategies; the verdict is compared with the documented conditions and what is accepted is run (known findings: scheduled step sizes that are not normal, ranges of the size of the largest number)");
    ctx.cases("restarts", EDGES.len() * EDGES.len(), |rng, c| {
        let (a, b) = (
            EDGES[c.idx as usize % EDGES.len()],
            EDGES[c.idx as usize / EDGES.len()],
        );
        let mut h = Fnv::new();
        for _ in 0..ctx.n(25, 400) {
            let strat = rand_strat(rng);
            let n = *rng.pick(&[0, 1, 1, 2, 3]);
            let by_field = rng.chance(0.3);
            let what = format!("{:?} dimension {} range {:e}..={:e} by_field={}", strat, n, a, b, by_field);
            c.desc = what.clone();
            let idx = c.idx;
            let mk = |lo: f64, hi: f64| {
                let mut o = if by_field {
                    let mut o = RestartOptions::new(n, 0.0..=1.0, strat.build());
                    o.search_range = lo..=hi;
                    o
                } else {
                    RestartOptions::new(n, lo..=hi, strat.build())
                };
                o.max_function_evals = Some(150);
                o.max_generations_per_run = Some(2);
                o.seed = Some(idx);
                o
            };
            let width = (b - a).abs();
            let mut exp = vec![];
            if n == 0 {
                exp.push(InvalidRestartOptionsError::Dimensions);
            }
            if !width.is_normal() {
                exp.push(InvalidRestartOptionsError::SearchRange);
            }
            h.u64(exp.len() as u64);
            let o = mk(a, b);
            let r = guarded(|| o.build()).map_err(|p| format!("building {} panicked: {}", what, p.text()))?;
            let r = match r {
                Err(e) if exp.contains(&e) => {
                    c.count("restarts_rejected", 1);
                    continue;
                }
                Err(e) => return Err(format!("{} was rejected with {:?}, expected {:?}", what, e, exp)),
                Ok(_) if !exp.is_empty() => {
                    return Err(format!("{} was accepted, expected {:?}", what, exp))
                }
                Ok(r) => r,
            };
            let total = Arc::new(AtomicU64::new(0));
            let digest = Arc::new(AtomicU64::new(0));
            let run = |r: cmaes::restart::Restarter| {
                total.store(0, Ordering::SeqCst);
                digest.store(0, Ordering::SeqCst);
                guarded(|| {
                    r.run(|| {
                        let (t, d) = (total.clone(), digest.clone());
                        move |x: &DVector<f64>| {
                            t.fetch_add(1, Ordering::SeqCst);
                            let mut h = Fnv::new();
                            h.u64(d.load(Ordering::SeqCst));
                            h.fs(x.as_slice());
                            d.store(h.get(), Ordering::SeqCst);
                            let m = x.iter().fold(0.0, |a: f64, b| a.max(b.abs()));
                            m
                        }
                    })
                })
            };
            let out = run(r);
            let steps = scheduled(&strat, width);
            match &out {
                Ok(x) => {
                    c.count("restarts_run", 1);
                    if x.function_evals as u64 != total.load(Ordering::SeqCst) {
                        return Err(format!("{}: evaluations {:?}", what, x.function_evals));
                    }
                }
                Err(p) if p.msg.contains("InitialStepSize") && steps.iter().any(|s| !positive_normal(s.1)) => {
                    c.count("restarts_with_invalid_step_size", 1);
                    c.finding(steps[0].0, format!("{}: {}", what, p.text()));
                }
                Err(p) if p.msg.contains("range overflow") && width > f64::MAX * (1.0 - 4.0 * f64::EPSILON) => {
                    c.count("restarts_with_range_overflow", 1);
                    c.finding("range-overflow", format!("{}: {}", what, p.text()));
                }
                Err(p) => return Err(format!("{} was accepted and panicked: {}", what, p.text())),
            }
            if out.is_ok() {
                // In reverse
                let d = (total.load(Ordering::SeqCst), digest.load(Ordering::SeqCst));
                let r = mk(b, a)
                    .build()
                    .map_err(|e| format!("{}: the reverse range was rejected with {:?}", what, e))?;
                run(r).map_err(|p| format!("{}: the reverse range panicked: {}", what, p.text()))?;
                if d != (total.load(Ordering::SeqCst), digest.load(Ordering::SeqCst)) {
                    return Err(format!("{}: the reverse range gives another run", what));
                }
                c.count("reversed", 1);
            }
        }
        h.u64(c.idx);
        c.nontrivial = Some(h.get());
        Ok(())
    });
    ctx.rule("defaults: restarts with valid default options run (known findings: invalid default options)");
    ctx.cases("defaults", ctx.n(150, 4000), |rng, c| {
        let strat = loop {
            let s = rand_strat(rng);
            if scheduled(&s, 2.0).iter().all(|x| positive_normal(x.1)) {
                break s;
            }
        };
        let n = rng.int(1, 4);
        let l = *rng.pick(&[None, Some(0), Some(1), Some(2), Some(9)]);
        let cm = *rng.pick(&[None, None, Some(0.0), Some(1.5), Some(0.5), Some(f64::NAN)]);
        // The mean, step size and dimension of the default options do not matter
        let (dn, ds) = (*rng.pick(&[0usize, 1, 3]), *rng.pick(&[1.0, 0.0, f64::NAN]));
        let mut d = any_options(rng, dn, l, ds, cm);
        if l.is_none() {
            d.population_size = 5;
        }
        d.constraints = None;
        let bad = l.is_some_and(|l| l < 2) || cm.is_some_and(|m| !(positive_normal(m) && m <= 1.0));
        c.desc = format!("{:?} dimension {} population {:?} cm {:?}", strat, n, l, cm);
        let o = RestartOptions::new(n, -1.0..=1.0, strat.clone().build())
            .default_options(d)
            .max_function_evals(100)
            .max_generations_per_run(3);
        let r = o.build().map_err(|e| format!("rejected with {:?}", e))?;
        let zero = matches!(strat, Strat::Local(0, _));
        match guarded(|| r.run(|| |x: &DVector<f64>| x.magnitude())) {
            Ok(_) if !bad || zero => c.count("accepted", 1),
            Ok(_) => return Err("invalid default options were run".into()),
            Err(p) if bad && (p.msg.contains("PopulationSize") || p.msg.contains("Cm")) => {
                c.finding("default-options", format!("{}: {}", c.desc.clone(), p.text()))
            }
            Err(p) => return Err(p.text()),
        }
        c.nontrivial = Some(hash_str(&c.desc));
        Ok(())
    });
}

// ---- C15 ------------------------------------------------------------------------------------

/// The order in which points of one generation are logged is not part of the behaviour
fn sorted_points(evs: &[Ev]) -> Vec<(Vec<u64>, u64)> {
    let mut v: Vec<_> = evs
        .iter()
        .map(|e| (e.x.iter().map(|a| a.to_bits()).collect::<Vec<_>>(), e.v.to_bits()))
        .collect();
    v.sort();
    v
}

fn judge_results(cfg: &RCfg, o: &RestObs, reuse: bool) -> Res {
    let calls: usize = o.calls;
    if o.evals != calls {
        return Err(format!("{} evaluations reported, {} calls made", o.evals, calls));
    }
    if !reuse && (o.factories != o.runs_reported) {
        return Err(format!(
            "{} runs reported, the objective was obtained {} times",
            o.runs_reported, o.factories
        ));
    }
    if cfg.print && o.runs.iter().filter(|r| r.printed.is_some()).count() != o.runs_reported {
        return Err(format!("{} runs reported, but others printed", o.runs_reported));
    }
    if o.drops.iter().any(|d| *d != 1) {
        return Err(format!("objectives were dropped {:?} times", o.drops));
    }
    // The points that certainly count, and those of a failing generation
    let mut sure: Vec<&Ev> = vec![];
    let mut maybe: Vec<&Ev> = vec![];
    let last = o.runs.len().saturating_sub(1);
    for (k, r) in o.runs.iter().enumerate() {
        let nan = r.evs.iter().any(|e| e.v.is_nan());
        if !nan {
            sure.extend(r.evs.iter());
            continue;
        }
        if k != last {
            return Err("a run was started after a NaN value".into());
        }
        match &r.printed {
            Some(p) => {
                let full = (r.evs.len() - 1) / p.lambda * p.lambda;
                sure.extend(r.evs[..full].iter());
                maybe.extend(r.evs[full..].iter());
            }
            None => maybe.extend(r.evs.iter()),
        }
    }
    let top = |v: &[&Ev]| {
        v.iter().filter(|e| !e.v.is_nan()).fold(None, |a: Option<f64>, e| match a {
            Some(b) if !better(cfg.mode, e.v, b) => Some(b),
            _ => Some(e.v),
        })
    };
    let sure_top = top(&sure);
    match (&o.best, sure_top) {
        (None, None) => (),
        (None, Some(v)) => return Err(format!("no best individual, although {:e} was evaluated", v)),
        (Some((x, v)), s) => {
            if let Some(s) = s {
                if better(cfg.mode, s, *v) {
                    return Err(format!("the best value is {:e}, but {:e} was evaluated", v, s));
                }
            }
            if !sure
                .iter()
                .chain(maybe.iter())
                .any(|e| bits_eq(&e.x, x) && e.v.to_bits() == v.to_bits())
            {
                return Err(format!("the best individual {:?} = {:e} was not evaluated", x, v));
            }
        }
    }
    Ok(())
}

/// A problem per run: faults in some runs only
fn maker<'a>(p: &'a Problem, nan: Option<(usize, u64)>, reuse: bool) -> impl FnMut(usize, Arc<Rec>) -> Obj + 'a {
    move |k, rec| {
        let mut o = p.obj(rec);
        if let Some((r, call)) = nan {
            if reuse {
                o.faults.nan_calls.push(call * (1 + r as u64));
            } else if r == k {
                o.faults.nan_calls.push(call);
            }
        }
        o
    }
}

fn rest_case(rng: &mut Rng, c: &mut Case, print: bool) -> Result<(RCfg, Problem, RApi, Option<(usize, u64)>), String> {
    let mut cfg = rand_rcfg(rng);
    cfg.print = print;
    let p = rand_rproblem(rng, &cfg);
    if rng.chance(0.25) {
        cfg.fun_target = Some(if p.neg { -1.0 } else { 1.0 } * rng.log_range(1e-8, 10.0));
    }
    let api = *rng.pick(&RAPIS);
    let nan = if rng.chance(0.25) {
        Some((rng.below(6), rng.below(300) as u64))
    } else {
        None
    };
    c.desc = format!("{:?} {:?} {:?} nan={:?}", cfg, p, api, nan);
    Ok((cfg, p, api, nan))
}

fn rest_hash(o: &RestObs) -> u64 {
    let mut h = Fnv::new();
    h.u64(o.evals as u64);
    h.u64(o.runs_reported as u64);
    if let Some((x, v)) = &o.best {
        h.fs(x);
        h.f(*v);
    }
    h.get()
}

pub fn c15(ctx: &Ctx) {
    ctx.rule("accounting: random strategies through all four ways of running, with recorders in every objective obtained; the results are compared with the log of all calls; printed: the same with the boundaries of generations known from the output; non-trivial if at least two runs were made");
    let body = |print: bool| {
        move |rng: &mut Rng, c: &mut Case| {
            let (cfg, p, api, nan) = rest_case(rng, c, print)?;
            let o = observe(&cfg, api, &mut maker(&p, nan, api.reuse()))?;
            judge_results(&cfg, &o, api.reuse())?;
            if o.excl_overlap > 0 {
                return Err("exclusive calls overlapped".into());
            }
            c.count("runs", o.runs_reported as u64);
            c.count("evaluations", o.evals as u64);
            if o.reason == RR::InvalidFunctionValue {
                c.count("ended_by_nan", 1);
            }
            if o.runs_reported >= 2 {
                c.nontrivial = Some(rest_hash(&o));
            }
            Ok(())
        }
    };
    ctx.cases("accounting", ctx.n(1200, 30000), body(false));
    ctx.serial("printed", ctx.n(150, 3000), body(true));
    ctx.rule("many: up to 70000 short runs of local restarts on flat, noisy and rarely improving objectives, with and without a limit of evaluations; runs, evaluations, best value and the reason of the end are exact");
    ctx.cases("many", ctx.n(6, 96), many_runs);
    ctx.rule("apis: the four ways of running the same seed make the same evaluations and give the same results");
    ctx.cases("apis", ctx.n(200, 4000), |rng, c| {
        let mut cfg = rand_rcfg(rng);
        cfg.print = false;
        cfg.par_update = false;
        if let Some(d) = &mut cfg.defaults {
            d.par_update = false;
        }
        let mut p = rand_rproblem(rng, &cfg);
        p.delay = if rng.chance(0.1) { 3 } else { 0 };
        c.desc = format!("{:?} {:?}", cfg, p);
        let mut first: Option<(RestObs, Vec<_>)> = None;
        for api in RAPIS {
            let mut o = observe(&cfg, api, &mut maker(&p, None, api.reuse()))?;
            judge_results(&cfg, &o, api.reuse())?;
            let all: Vec<Ev> = o.runs.iter_mut().flat_map(|r| std::mem::take(&mut r.evs)).collect();
            let pts = sorted_points(&all);
            match &first {
                None => first = Some((o, pts)),
                Some((f, fp)) => {
                    let what = if f.evals != o.evals || f.runs_reported != o.runs_reported || f.reason != o.reason {
                        format!(
                            "results {} {} {:?} and {} {} {:?}",
                            f.evals, f.runs_reported, f.reason, o.evals, o.runs_reported, o.reason
                        )
                    } else if *fp != pts {
                        "the points evaluated".into()
                    } else if f.best.as_ref().map(|b| b.1.to_bits()) != o.best.as_ref().map(|b| b.1.to_bits())
                        || !f.best.iter().zip(o.best.iter()).all(|(a, b)| bits_eq(&a.0, &b.0))
                    {
                        "the best individuals".into()
                    } else {
                        continue;
                    };
                    return Err(format!("{:?} and {:?} differ in {}", RApi::Run, api, what));
                }
            }
        }
        let (f, _) = first.unwrap();
        c.count("compared", 3);
        if f.runs_reported >= 2 {
            c.nontrivial = Some(rest_hash(&f));
        }
        Ok(())
    });
    ctx.rule("state: a reused objective keeps its state across the runs, by value, by mutable reference and by shared reference");
    ctx.cases("state", ctx.n(60, 1000), |rng, c| {
        let mut cfg = rand_rcfg(rng);
        cfg.print = false;
        c.desc = format!("{:?}", cfg);
        let mut n = 0u64;
        let mut sum = 0.0;
        let r = cfg.build()?.run_with_reuse(|x: &DVector<f64>| {
            n += 1;
            sum += x[0];
            x.iter().map(|a| a * a).sum::<f64>()
        });
        if r.function_evals as u64 != n {
            return Err(format!("{} evaluations, the closure counted {}", r.function_evals, n));
        }
        let rec = Rec::new();
        let mut obj = Problem::new(Fun::Rastrigin, 0.1).obj(rec.clone());
        let r = cfg.build()?.run_with_reuse(&mut obj);
        if r.function_evals as u64 != rec.count() {
            return Err(format!("{} evaluations, {} calls by reference", r.function_evals, rec.count()));
        }
        let before = rec.count();
        let shared = &obj;
        let r2 = cfg.build()?.run_parallel_with_reuse(shared);
        if r2.function_evals as u64 != rec.count() - before {
            return Err("calls by shared reference".into());
        }
        if rec.drops.load(Ordering::SeqCst) != 0 {
            return Err("a borrowed objective was dropped".into());
        }
        c.nontrivial = Some(rec.count());
        Ok(())
    });
}

/// Strategies that make very many short runs
fn many_runs(rng: &mut Rng, c: &mut Case) -> Res {
    use std::cell::{Cell, RefCell};
    let runs = match c.idx % 6 {
        0 => 70_000,
        1 => rng.int(9_000, 40_000),
        2 | 3 => rng.int(1000, 9000),
        _ => rng.int(50, 1000),
    };
    let mut cfg = RCfg::new(1, -3.0, 5.0, Strat::Local(runs, None));
    cfg.print = false;
    cfg.seed = Some(rng.u64());
    cfg.mode = rand_mode(rng);
    let gens = rng.int(1, 2);
    cfg.run_gens = Some(gens);
    let l = rng.int(2, 6);
    let mut d = Cfg::new(vec![0.0], 1.0);
    d.lambda = Some(l);
    cfg.defaults = Some(d);
    if rng.chance(0.4) {
        cfg.max_evals = Some(rng.int(1, 2 * runs * gens * l));
    }
    let kind = rng.below(4);
    let sign = if rng.chance(0.5) { 1.0 } else { -1.0 };
    let rare = rng.int(1000, 60_000) as u64;
    c.desc = format!("{:?} objective {} {} {}", cfg, kind, sign, rare);
    let calls = Cell::new(0u64);
    // Evaluations before each run
    let starts = RefCell::new(vec![]);
    let best: Cell<Option<(f64, f64)>> = Cell::new(None);
    let mode = cfg.mode;
    let r = cfg.build()?.run(|| {
        beat();
        starts.borrow_mut().push(calls.get());
        |x: &DVector<f64>| {
            let k = calls.get();
            calls.set(k + 1);
            let v = sign
                * match kind {
                    0 => 7.0,
                    1 => (x[0].to_bits().wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 20) as f64,
                    2 => x[0] * x[0],
                    _ => (k % rare == rare - 1) as u64 as f64 * (1.0 + k as f64),
                };
            if best.get().is_none_or(|(_, b)| better(mode, v, b)) {
                best.set(Some((x[0], v)));
            }
            v
        }
    });
    let starts = starts.into_inner();
    let n = calls.get();
    if r.function_evals as u64 != n || r.runs != starts.len() {
        return Err(format!(
            "{} evaluations in {} runs are reported, {} in {} were made",
            r.function_evals, r.runs, n, starts.len()
        ));
    }
    if r.best.as_ref().map(|b| b.value) != best.get().map(|b| b.1) {
        return Err(format!("the best value is {:?}, {:?} was evaluated", r.best.map(|b| b.value), best.get()));
    }
    let spent = cfg.max_evals.is_some_and(|m| n as usize >= m);
    let (reason, ok) = if starts.len() == runs {
        (RR::MaxRuns, true)
    } else {
        (RR::MaxFunctionEvals, spent)
    };
    if r.reason != reason || !ok || starts.len() > runs {
        return Err(format!("{:?} after {} of {} runs and {} of {:?} evaluations", r.reason, starts.len(), runs, n, cfg.max_evals));
    }
    if starts.last().is_some_and(|s| cfg.max_evals.is_some_and(|m| *s as usize >= m)) {
        return Err(format!("a run was started after the limit of {:?} evaluations", cfg.max_evals));
    }
    c.count("runs", starts.len() as u64);
    c.count("evaluations", n);
    if starts.len() > 40 {
        c.nontrivial = Some(n ^ (r.runs as u64) << 40);
    }
    Ok(())
}

// ---- C16, C17 -------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Local,
    Ipop,
    Lr,
}

/// Follows the documented schedule
struct Schedule {
    strat: Strat,
    lambda0: usize,
    k: usize,
    ipop_runs: usize,
    ipop_evals: usize,
    lr_evals: usize,
    last_ipop: usize,
    mult: usize,
    last_mult: usize,
}

impl Schedule {
    fn new(cfg: &RCfg) -> Self {
        Schedule {
            strat: cfg.strat.clone(),
            lambda0: cfg.lambda0(),
            k: 0,
            ipop_runs: 0,
            ipop_evals: 0,
            lr_evals: 0,
            last_ipop: 0,
            mult: 1,
            last_mult: 1,
        }
    }
    fn kind(&self) -> Kind {
        match self.strat {
            Strat::Local(..) => Kind::Local,
            Strat::Ipop(_) => Kind::Ipop,
            Strat::Bipop(..) => {
                if self.ipop_runs > 0 && self.lr_evals < self.ipop_evals {
                    Kind::Lr
                } else {
                    Kind::Ipop
                }
            }
        }
    }
    /// Range of the population size of the next run
    fn lambda(&self) -> (usize, usize) {
        match self.kind() {
            Kind::Local => (self.lambda0, self.lambda0),
            Kind::Ipop => (self.lambda0 * self.mult, self.lambda0 * self.mult),
            Kind::Lr => {
                let m = (self.last_mult as f64 / 2.0).max(1.0);
                (self.lambda0, (self.lambda0 as f64 * m).floor() as usize)
            }
        }
    }
    fn sigma(&self, width: f64) -> (f64, f64) {
        match (&self.strat, self.kind()) {
            (Strat::Local(..), _) => {
                let s = width * self.strat.step_factor() / 100.0;
                (s, s)
            }
            (Strat::Ipop(_), _) => (width / 2.0, width / 2.0),
            (_, Kind::Lr) => {
                let s = width * self.strat.step_factor();
                (s / 100.0, s)
            }
            _ => (width / 5.0, width / 5.0),
        }
    }
    fn limit(&self, cfg: &RCfg) -> Option<usize> {
        match self.kind() {
            Kind::Lr => Some(cfg.run_evals.unwrap_or(usize::MAX).min(self.last_ipop / 2)),
            _ => cfg.run_evals,
        }
    }
    fn done(&self) -> bool {
        match self.strat {
            Strat::Local(n, _) => self.k >= n,
            Strat::Ipop(_) => self.k >= 10,
            Strat::Bipop(..) => self.ipop_runs >= 10,
        }
    }
    fn step(&mut self, evals: usize) {
        self.k += 1;
        match self.kind() {
            Kind::Lr => self.lr_evals += evals,
            _ => {
                self.ipop_runs += 1;
                self.ipop_evals += evals;
                self.last_ipop = evals;
                self.last_mult = self.mult;
                self.mult *= self.strat.pop_factor();
            }
        }
    }
}

/// Whether a reason was printed for a run
fn printed_reason(r: &RunObs, name: &str) -> Option<bool> {
    r.printed.as_ref().map(|p| p.reasons.iter().any(|x| x == name))
}

/// C16: the reason and the limits
fn judge_reason(c: &mut Case, cfg: &RCfg, o: &RestObs) -> Res {
    let mut s = Schedule::new(cfg);
    let mut total = 0usize;
    let n = o.runs.len();
    let zero = s.done();
    let start = o.runs.first().and_then(|r| r.started);
    let mut last_call: Option<std::time::Instant> = None;
    let mut expected: Option<RR> = None;
    if zero {
        expected = Some(RR::MaxRuns);
    }
    for (k, r) in o.runs.iter().enumerate() {
        if let Some(e) = expected {
            return Err(format!("run {} was started after {:?} held", k + 1, e));
        }
        if cfg.max_evals.is_some_and(|m| total >= m) {
            return Err(format!(
                "run {} was started after {} of {:?} evaluations",
                k + 1,
                total,
                cfg.max_evals
            ));
        }
        if let (Some(m), Some(a), Some(b)) = (cfg.max_time, start, last_call) {
            if b.duration_since(a) >= m {
                return Err(format!("run {} was started after the time limit", k + 1));
            }
        }
        if cfg.max_time == Some(Duration::ZERO) {
            return Err("a run was started without any time".into());
        }
        // The run itself
        let evs = &r.evs;
        let m = evs.len();
        let nan = evs.iter().any(|e| e.v.is_nan());
        let kind = s.kind();
        let (l0, l1) = s.lambda();
        let lambda = match &r.printed {
            Some(p) => Some(p.lambda),
            None if l0 == l1 => Some(l0),
            None => None,
        };
        if let Some(l) = lambda {
            let gens = if nan { (m - 1) / l } else { m / l };
            if !nan && m % l != 0 {
                return Err(format!("run {}: {} evaluations with population {}", k + 1, m, l));
            }
            let full = gens * l;
            // Complete generations before the last
            let before = if nan { full } else { full.saturating_sub(l) };
            if let Some(t) = cfg.fun_target {
                if evs[..before].iter().any(|e| better(cfg.mode, e.v, t)) {
                    return Err(format!("run {} went on after the target was reached", k + 1));
                }
            }
            if let Some(lim) = s.limit(cfg) {
                if before >= lim && gens > 1 {
                    return Err(format!(
                        "run {} ({:?}) of {} evaluations with population {} exceeds its limit of {}",
                        k + 1, kind, m, l, lim
                    ));
                }
                if !nan && printed_reason(r, "MaxFunctionEvals").is_some_and(|x| x != (full >= lim)) {
                    return Err(format!(
                        "run {} of {} evaluations with a limit of {} reports {:?}",
                        k + 1, m, lim, r.printed.as_ref().unwrap().reasons
                    ));
                }
            } else if printed_reason(r, "MaxFunctionEvals") == Some(true) {
                return Err(format!("run {} reports MaxFunctionEvals without a limit", k + 1));
            }
            if let Some(lim) = cfg.run_gens {
                if gens > lim.max(1) {
                    return Err(format!("run {}: {} generations with a limit of {}", k + 1, gens, lim));
                }
                if !nan && printed_reason(r, "MaxGenerations").is_some_and(|x| x != (gens >= lim)) {
                    return Err(format!(
                        "run {} of {} generations with a limit of {} reports {:?}",
                        k + 1, gens, lim, r.printed.as_ref().unwrap().reasons
                    ));
                }
            } else if printed_reason(r, "MaxGenerations") == Some(true) {
                return Err(format!("run {} reports MaxGenerations without a limit", k + 1));
            }
        } else {
            // Generations of local restarts without the output
            if let Some(lim) = s.limit(cfg) {
                if m > lim + l1 {
                    return Err(format!(
                        "run {} of {} evaluations exceeds its limit of {}",
                        k + 1, m, lim
                    ));
                }
            }
            if let Some(lim) = cfg.run_gens {
                if m > lim.max(1) * l1 + if nan { l1 } else { 0 } {
                    return Err(format!(
                        "run {} of {} evaluations exceeds {} generations",
                        k + 1, m, lim
                    ));
                }
            }
        }
        c.count(
            match kind {
                Kind::Local => "local_runs",
                Kind::Ipop => "ipop_runs",
                Kind::Lr => "lr_runs",
            },
            1,
        );
        total += m;
        let hit = cfg
            .fun_target
            .is_some_and(|t| evs.iter().any(|e| better(cfg.mode, e.v, t)));
        s.step(m);
        if nan {
            expected = Some(RR::InvalidFunctionValue);
        } else if hit {
            expected = Some(RR::FunTarget);
        } else if s.done() {
            expected = Some(RR::MaxRuns);
        }
        if printed_reason(r, "InvalidFunctionValue").is_some_and(|x| x != nan) {
            return Err(format!("run {} with NaN: {} reports another reason", k + 1, nan));
        }
        if !nan && printed_reason(r, "FunTarget").is_some_and(|x| x != hit) {
            return Err(format!("run {} with the target reached: {} reports another reason", k + 1, hit));
        }
        last_call = evs.iter().filter_map(|e| e.at).max().or(last_call);
    }
    // The end
    let reason = o.reason;
    let took = o.t1.duration_since(o.t0);
    let ok = match expected {
        Some(e) => reason == e,
        None => match reason {
            RR::MaxFunctionEvals => cfg.max_evals.is_some_and(|m| total >= m),
            RR::MaxTime => cfg.max_time.is_some_and(|m| took >= m),
            _ => false,
        },
    };
    if !ok {
        return Err(format!(
            "ended with {:?} after {} runs and {} evaluations in {:?}, expected {:?}",
            reason, n, total, took, expected
        ));
    }
    c.count(
        match reason {
            RR::MaxRuns => "MaxRuns",
            RR::MaxFunctionEvals => "MaxFunctionEvals",
            RR::MaxTime => "MaxTime",
            RR::FunTarget => "FunTarget",
            RR::InvalidFunctionValue => "InvalidFunctionValue",
        },
        1,
    );
    Ok(())
}

pub fn c16(ctx: &Ctx) {
    ctx.rule("reasons: random strategies whose runs and evaluations are recorded; the documented schedule is simulated on the recorded evaluations and decides after every run which reason has to end the strategy, and each run is compared with its limits; printed: with the population of every run and its reasons known from the output; non-trivial if a run was made");
    let body = |print: bool| {
        move |rng: &mut Rng, c: &mut Case| {
            let (cfg, p, api, nan) = rest_case(rng, c, print)?;
            // Runs are told apart by the objectives obtained
            let api = match api {
                RApi::Reuse if !print => RApi::Run,
                RApi::ParReuse if !print => RApi::Par,
                a => a,
            };
            let mut cfg = cfg;
            if rng.chance(0.15) {
                cfg.max_evals = None;
                cfg.run_gens = Some(rng.int(1, 4));
                if cfg.strat.pop_factor() > 2 || cfg.lambda0() > 10 {
                    cfg.strat = Strat::Bipop(None, Some(1));
                }
            }
            if rng.chance(0.05) {
                cfg.max_time = Some(*rng.pick(&[Duration::ZERO, Duration::from_secs(100_000), Duration::MAX]));
            }
            let c2 = cfg.clone();
            c.desc = format!("{:?} {:?} {:?} nan={:?}", c2, p, api, nan);
            let o = observe(&cfg, api, &mut maker(&p, nan, api.reuse()))?;
            let zero_time = cfg.max_time == Some(Duration::ZERO);
            if zero_time && o.runs_reported > 0 {
                return Err("runs were made without any time".into());
            }
            judge_reason(c, &cfg, &o)?;
            if o.runs_reported != o.runs.len() {
                return Err(format!("{} runs reported, {} made", o.runs_reported, o.runs.len()));
            }
            if o.runs_reported > 0 {
                let mut h = Fnv::new();
                h.u64(rest_hash(&o));
                h.u64(o.reason as u64);
                c.nontrivial = Some(h.get());
            }
            Ok(())
        }
    };
    ctx.cases("reasons", ctx.n(1600, 40000), body(false));
    ctx.serial("printed", ctx.n(200, 4000), body(true));
    ctx.rule("many: up to 70000 short runs of local restarts on flat, noisy and rarely improving objectives, with and without a limit of evaluations; runs, evaluations, best value and the reason of the end are exact");
    ctx.cases("many", ctx.n(6, 96), many_runs);
    ctx.rule("time: strategies with a time limit and delayed objectives; no run may start once the limit has passed since the first run was started, and a strategy that ends with MaxTime must have taken that long");
    ctx.cases("time", ctx.n(24, 200), |rng, c| {
        let strat = rng
            .pick(&[
                Strat::Local(1000, None),
                Strat::Bipop(None, Some(1)),
                Strat::Ipop(Some(1)),
                Strat::Local(3, None),
            ])
            .clone();
        let mut cfg = RCfg::new(2, -1.0, 1.0, strat);
        cfg.print = false;
        cfg.seed = Some(rng.u64());
        cfg.run_gens = Some(rng.int(1, 4));
        cfg.max_time = Some(Duration::from_millis(rng.int(1, 60) as u64));
        let mut p = Problem::new(Fun::Rastrigin, 0.3);
        p.delay = rng.int(100, 1500) as u64;
        p.stamp = true;
        let api = *rng.pick(&[RApi::Run, RApi::Par]);
        c.desc = format!("{:?} {:?} {:?}", cfg, p, api);
        let o = observe(&cfg, api, &mut maker(&p, None, false))?;
        judge_reason(c, &cfg, &o)?;
        c.nontrivial = Some(rest_hash(&o));
        Ok(())
    });
}

/// Recovers step size and mean of a run from its first generation, given its seed
fn recover(cfg: &RCfg, p: &Printed, evs: &[Ev]) -> Result<(f64, Vec<f64>), String> {
    let n = cfg.dim;
    let l = p.lambda;
    if evs.len() < l || l < 2 {
        return Err("no complete generation".into());
    }
    let mut own = Cfg::new(vec![0.0; n], 1.0);
    own.lambda = Some(l);
    own.seed = Some(p.seed);
    let mut s = Sim::new(&own, &Problem::new(Fun::Const(0.0), 0.0))?;
    let g = s.step(Api::Seq);
    let y: Vec<&Vec<f64>> = g.evs.iter().map(|e| &e.x).collect();
    let x: Vec<&Vec<f64>> = evs[..l].iter().map(|e| &e.x).collect();
    let mean = |v: &[&Vec<f64>], j: usize| v.iter().map(|a| a[j]).sum::<f64>() / l as f64;
    let (mut xy, mut yy) = (0.0, 0.0);
    for j in 0..n {
        let (mx, my) = (mean(&x, j), mean(&y, j));
        for i in 0..l {
            xy += (x[i][j] - mx) * (y[i][j] - my);
            yy += (y[i][j] - my).powi(2);
        }
    }
    let sigma = xy / yy;
    let m: Vec<f64> = (0..n).map(|j| mean(&x, j) - sigma * mean(&y, j)).collect();
    let scale = m.iter().fold(0.0, |a: f64, b| a.max(b.abs()));
    for i in 0..l {
        for j in 0..n {
            let e = (m[j] + sigma * y[i][j] - x[i][j]).abs();
            if e > 1e-8 * sigma.abs() + 1e-13 * scale {
                return Err(format!(
                    "the first generation does not consist of the samples of the printed seed {} (off by {:e} with step size {:e})",
                    p.seed, e, sigma
                ));
            }
        }
    }
    Ok((sigma, m))
}

pub fn c17(ctx: &Ctx) {
    ctx.rule("schedule: random strategies in sequential execution whose output gives population and seed of every run; the step size is recovered exactly from the evaluated points and the samples of the run's seed; both and the lengths of runs are compared with the simulated schedule; non-trivial if at least 2 runs were made");
    let lr = std::sync::Mutex::new((vec![], vec![], 0usize, vec![]));
    ctx.serial("schedule", ctx.n(300, 6000), |rng, c| {
        let mut cfg = rand_rcfg(rng);
        cfg.print = true;
        if let Some(d) = &mut cfg.defaults {
            d.cons = None;
        }
        match rng.below(3) {
            0 => {
                cfg.run_gens = Some(rng.int(1, 3));
                cfg.run_evals = None;
                cfg.max_evals = Some(rng.int(2000, 40_000));
            }
            1 => cfg.max_evals = Some(rng.int(2000, 15_000)),
            _ => (),
        }
        // Populations that grow a lot
        if c.idx % 10 == 3 {
            let factor = rng.int(150, 500);
            cfg.dim = rng.int(1, 2);
            cfg.defaults = None;
            cfg.strat = Strat::Bipop(None, Some(factor));
            cfg.run_gens = Some(1);
            cfg.run_evals = None;
            // Ends before the next increase of the population
            cfg.max_evals = Some((4 + 2 * (cfg.dim - 1)) * 2 * factor);
            cfg.fun_target = None;
        }
        let p = rand_rproblem(rng, &cfg);
        let api = *rng.pick(&[RApi::Run, RApi::Reuse]);
        c.desc = format!("{:?} {:?} {:?}", cfg, p, api);
        let o = observe(&cfg, api, &mut maker(&p, None, api.reuse()))?;
        let mut s = Schedule::new(&cfg);
        let width = cfg.width();
        let uniq = cfg.strat.step_factor();
        for (k, r) in o.runs.iter().enumerate() {
            let p = r.printed.as_ref().ok_or("a run was not printed")?;
            let kind = s.kind();
            let (l0, l1) = s.lambda();
            if p.lambda < l0 || p.lambda > l1 {
                return Err(format!(
                    "run {} ({:?}) has population {}, expected {}..={}",
                    k + 1, kind, p.lambda, l0, l1
                ));
            }
            if r.evs.len() % p.lambda != 0 {
                return Err(format!("run {} with population {} made {} evaluations", k + 1, p.lambda, r.evs.len()));
            }
            let (sig, m) = recover(&cfg, p, &r.evs).map_err(|e| format!("run {}: {}", k + 1, e))?;
            let scale = m.iter().fold(0.0, |a: f64, b| a.max(b.abs()));
            let tol = 1e-9 + 1e-13 * scale / sig;
            let (s0, s1) = s.sigma(width);
            if sig < s0 * (1.0 - tol) || sig > s1 * (1.0 + tol) {
                return Err(format!(
                    "run {} ({:?}) has step size {:e}, expected {:e}..={:e}",
                    k + 1, kind, sig, s0, s1
                ));
            }
            let shown: f64 = p.sigma0.parse().map_err(|_| "cannot parse sigma0")?;
            if (shown - sig).abs() > 2e-5 * sig {
                return Err(format!("run {} prints step size {} instead of {:e}", k + 1, p.sigma0, sig));
            }
            if kind == Kind::Lr {
                if let Some(lim) = s.limit(&cfg) {
                    if r.evs.len() > lim.max(1).div_ceil(p.lambda) * p.lambda {
                        return Err(format!(
                            "local run {} made {} evaluations, the last IPOP run made {}",
                            k + 1, r.evs.len(), s.last_ipop
                        ));
                    }
                }
                let mut a = lr.lock().unwrap();
                a.0.push(-(sig / (width * uniq)).log10() / 2.0);
                if l1 >= 110 * l0 {
                    a.3.push((p.lambda as f64 / l0 as f64).ln() / (l1 as f64 / l0 as f64).ln());
                }
                if l1 >= 4 * l0 {
                    a.1.push((p.lambda - l0) as f64 / (l1 - l0) as f64);
                }
                a.2 += 1;
                c.count("lr_runs", 1);
            } else {
                c.count(if kind == Kind::Local { "local_runs" } else { "ipop_runs" }, 1);
            }
            s.step(r.evs.len());
            if s.done() && k + 1 < o.runs.len() {
                return Err("more runs than scheduled".into());
            }
        }
        if o.runs.len() >= 2 {
            c.nontrivial = Some(rest_hash(&o));
        }
        Ok(())
    });
    ctx.rule("distribution: over all local restarts of BIPOP, the step sizes are log-uniform (Kolmogorov-Smirnov statistic below 3, about 1e-8) and the populations spread between their bounds");
    if ctx.only.is_none() {
        let a = std::mem::take(&mut *lr.lock().unwrap());
        ctx.serial("distribution", 1, |_, c| {
            let (mut u, w, n, big) = a.clone();
            c.count("step_sizes", n as u64);
            if n >= 200 {
                let d = ks(&mut u, |x| x.clamp(0.0, 1.0));
                c.extra = serde_json::json!({"ks": d, "populations": w.len()});
                if d > 3.0 {
                    return Err(format!(
                        "the step sizes of {} local restarts are not log-uniform: statistic {}",
                        n, d
                    ));
                }
            }
            if w.len() >= 200 {
                let low = w.iter().filter(|x| **x < 0.1).count();
                let high = w.iter().filter(|x| **x > 0.6).count();
                if low == w.len() || high == 0 {
                    return Err(format!(
                        "the populations of {} local restarts do not spread: {} small, {} large",
                        w.len(), low, high
                    ));
                }
            }
            // The whole range is used
            c.count("populations_of_large_ranges", big.len() as u64);
            let high = big.iter().filter(|x: &&f64| **x > 0.9).count();
            if big.len() >= 400 && high == 0 {
                return Err(format!(
                    "of {} local restarts that may have at least 110 times the default population, none is near the upper bound",
                    big.len()
                ));
            }
            c.nontrivial = Some(n as u64);
            Ok(())
        });
    }
}

// ---- C18 ------------------------------------------------------------------------------------

/// Whether two runs evaluated the same points
fn same_points(a: &RestObs, b: &RestObs) -> bool {
    a.runs.len() == b.runs.len()
        && a.runs.iter().zip(&b.runs).all(|(x, y)| {
            x.evs.len() == y.evs.len()
                && x.evs.iter().zip(&y.evs).all(|(p, q)| bits_eq(&p.x, &q.x))
        })
}

pub fn c18(ctx: &Ctx) {
    ctx.rule("runs: the initial mean of every run is recovered from its points and its printed seed; it must lie in the search range, all run seeds differ, and an optimizer built by hand from the default options, the recovered mean, step size and population and the printed seed reproduces the first generations; defaults that end every run at a known generation do so; non-trivial if at least 2 runs were made");
    let means = std::sync::Mutex::new(vec![]);
    let seeds = std::sync::Mutex::new(std::collections::HashMap::new());
    ctx.serial("runs", ctx.n(300, 5000), |rng, c| {
        let mut cfg = rand_rcfg(rng);
        cfg.seed = Some(rng.u64());
        if rng.chance(0.5) {
            cfg.run_gens = Some(rng.int(1, 12));
            cfg.run_evals = None;
            cfg.max_evals = Some(rng.int(1000, 8000));
        }
        if let Some(d) = &mut cfg.defaults {
            if rng.chance(0.3) {
                d.tol_fun_hist = Some(f64::INFINITY);
            }
            if rng.chance(0.2) {
                // Honoured by every run
                let (a, b) = (cfg.lo.min(cfg.hi), cfg.lo.max(cfg.hi));
                let largest = match &cfg.strat {
                    Strat::Local(_, f) => f.unwrap_or(0.5) / 100.0,
                    Strat::Ipop(_) => 0.5,
                    Strat::Bipop(f, _) => f.unwrap_or(0.2).max(0.2),
                };
                // Most points meet them in the first generation
                let w = (b - a) * (0.2 + 2.0 * largest);
                d.cons = Some(Feas::Box(vec![a - w; cfg.dim], vec![b + w; cfg.dim]));
                d.plain_bounds = rng.chance(0.5);
                d.max_resamples = Some(None);
            }
        }
        let mut p = rand_rproblem(rng, &cfg);
        if cfg.defaults.as_ref().is_some_and(|d| d.cons.is_some()) {
            // Without a limit of resampling, the search has to stay where the constraints can be met
            p.fun = rng.pick(&[Fun::Sphere, Fun::Rastrigin, Fun::Elli(1e3)]).clone();
            p.neg = cfg.mode == Mode::Maximize;
        }
        let api = *rng.pick(&[RApi::Run, RApi::Run, RApi::Reuse]);
        c.desc = format!("{:?} {:?} {:?}", cfg, p, api);
        let o = observe(&cfg, api, &mut maker(&p, None, api.reuse()))?;
        let (a, b) = (cfg.lo.min(cfg.hi), cfg.lo.max(cfg.hi));
        let n = cfg.dim;
        let constrained = cfg.defaults.as_ref().is_some_and(|d| d.cons.is_some());
        for (k, r) in o.runs.iter().enumerate() {
            let pr = r.printed.as_ref().ok_or("a run was not printed")?;
            if let Some(old) = seeds.lock().unwrap().insert(pr.seed, (c.idx, k)) {
                return Err(format!("run {} has the seed {} of case {} run {}", k + 1, pr.seed, old.0, old.1 + 1));
            }
            if constrained {
                if let Some(Feas::Box(l, u)) = cfg.defaults.as_ref().and_then(|d| d.cons.as_ref()) {
                    if r.evs.iter().any(|e| (0..cfg.dim).any(|i| e.x[i] < l[i] || e.x[i] > u[i])) {
                        return Err(format!("run {} ignores the default constraints", k + 1));
                    }
                }
                continue;
            }
            let (sig, m) = recover(&cfg, pr, &r.evs).map_err(|e| format!("run {}: {}", k + 1, e))?;
            let slack = 1e-9 * (sig + b.abs().max(a.abs()));
            if m.iter().any(|x| *x < a - slack || *x > b + slack) {
                return Err(format!("run {} starts at {:?} outside of {}..={}", k + 1, m, a, b));
            }
            // Precise means only
            if sig < 10.0 * (b - a) {
                let mut l = means.lock().unwrap();
                let u: Vec<f64> = m.iter().map(|x| (x - a) / (b - a)).collect();
                l.push((c.idx, k, u));
            }
            // Reproduced with the default options
            let mut own = cfg.defaults.clone().unwrap_or(Cfg::new(vec![], 1.0));
            own.mean = m.clone();
            own.sigma = sig;
            own.lambda = Some(pr.lambda);
            own.seed = Some(pr.seed);
            own.mode = cfg.mode;
            own.par_update = false;
            own.print = None;
            let mut s = Sim::new(&own, &p)?;
            let l = pr.lambda;
            let gens = (r.evs.len() / l).min(4);
            let mut err: f64 = 1e-9;
            let mut exact = gens;
            let mut reasons = vec![];
            for g in 0..gens {
                let pre = s.last.clone();
                let og = s.step(Api::Seq);
                reasons = og.reasons().to_vec();
                let spread = og
                    .evs
                    .iter()
                    .flat_map(|e| e.x.iter().zip(&og.evs[0].x).map(|(a, b)| (a - b).abs()))
                    .fold(0.0, f64::max);
                let scale = og
                    .evs
                    .iter()
                    .flat_map(|e| e.x.iter().map(|a| a.abs()))
                    .fold(0.0, f64::max);
                // Values that agree within rounding may be ranked differently
                let mut vs: Vec<f64> = og.evs.iter().map(|e| e.v).collect();
                vs.sort_by(|a, b| a.partial_cmp(b).unwrap());
                let close = vs.windows(2).any(|w| (w[1] - w[0]).abs() <= 1e-7 * w[0].abs().max(w[1].abs()));
                // The axes of the distribution may be mirrored, as the mean is not recovered to the
                // last bit; the distances of the points to the mean in terms of the covariance
                // matrix are not affected
                let mut mirrored = false;
                for (i, e) in og.evs.iter().enumerate() {
                    let q = &r.evs[g * l + i];
                    let d = e.x.iter().zip(&q.x).map(|(a, b)| (a - b).abs()).fold(0.0, f64::max);
                    if d > err * spread + 1e-12 * scale {
                        if g > 0 {
                            mirrored = true;
                            if n == 2 || s.par.eigen_interval() > l {
                                continue;
                            }
                            let (a, b) = (pre.distance(&e.x), pre.distance(&q.x));
                            if (a - b).abs() <= 1e-4 * a {
                                continue;
                            }
                        }
                        return Err(format!(
                            "run {} generation {}: the optimizer with the same parameters evaluates {:?} instead of {:?} (spread {:e})",
                            k + 1, g + 1, e.x, q.x, spread
                        ));
                    }
                }
                if mirrored {
                    c.count("mirrored", 1);
                    exact = g;
                    break;
                }
                c.count("generations_reproduced", 1);
                // Hash-like objectives change completely with rounding
                if close || matches!(p.fun, Fun::Noise | Fun::IntNoise(_) | Fun::Rare(..) | Fun::HalfInf(_)) {
                    exact = g;
                    break;
                }
                err *= 100.0;
            }
            // The tolerances that hold at once or never, of runs reproduced completely
            if let (Some(d), true) = (&cfg.defaults, exact * l == r.evs.len() && gens > 0) {
                use cmaes::TerminationReason as TR;
                for (set, reason) in [
                    (d.tol_x.is_some(), TR::TolX),
                    (d.tol_condition_cov.is_some(), TR::TolConditionCov),
                    (d.tol_x_up.is_some(), TR::TolXUp),
                    (d.tol_stagnation.is_some(), TR::TolStagnation),
                    (d.tol_fun.is_some_and(|t| t > 0.0), TR::TolFun),
                    (d.tol_fun_hist.is_some_and(|t| t > 0.0), TR::TolFunHist),
                ] {
                    let printed = pr.reasons.iter().any(|x| *x == format!("{:?}", reason));
                    if set && printed != reasons.contains(&reason) {
                        return Err(format!(
                            "run {} ends with {:?}, an optimizer with the default options with {:?}",
                            k + 1, pr.reasons, reasons
                        ));
                    }
                    c.count("default_tolerances", set as u64);
                    c.count("default_tolerances_met", (set && printed) as u64);
                }
            }
            if cfg.defaults.as_ref().is_some_and(|d| d.tol_fun_hist == Some(f64::INFINITY))
                && r.evs.iter().all(|e| e.v.is_finite())
            {
                let end = 10 + (30.0 * cfg.dim as f64 / l as f64).ceil() as usize;
                if r.evs.len() / l > end {
                    return Err(format!("run {} ignores the default tolerance", k + 1));
                }
                c.count("ended_by_default_tolerance", pr.reasons.iter().any(|r| r == "TolFunHist") as u64);
            }
            c.count("runs", 1);
        }
        if o.runs.len() >= 2 {
            c.nontrivial = Some(rest_hash(&o));
        }
        Ok(())
    });
    ctx.rule("uniform: over all runs, the initial means are uniform in every coordinate (Kolmogorov-Smirnov), and coordinates, consecutive runs and first runs of different seeds are uncorrelated (thresholds of 6 standard deviations)");
    if ctx.only.is_none() {
        let l = std::mem::take(&mut *means.lock().unwrap());
        ctx.serial("uniform", 1, |_, c| {
            // The seeds of the runs use all their bits
            let all_seeds: Vec<u64> = seeds.lock().unwrap().keys().cloned().collect();
            if all_seeds.len() >= 1000 {
                let n = all_seeds.len() as f64;
                for b in 0..64 {
                    let ones = all_seeds.iter().filter(|s| *s >> b & 1 == 1).count() as f64;
                    let z = (ones - n / 2.0) / (n / 4.0).sqrt();
                    if z.abs() > 7.0 {
                        return Err(format!(
                            "bit {} is set in {} of the {} seeds of runs",
                            b, ones, all_seeds.len()
                        ));
                    }
                }
            }
            c.count("seeds_of_runs", all_seeds.len() as u64);
            let mut all: Vec<f64> = vec![];
            let mut first: Vec<f64> = vec![];
            let mut ends: Vec<f64> = vec![];
            // By index
            let mut index: Vec<Vec<f64>> = vec![vec![]; 64];
            // Pairs of coordinates by distance, and of runs by distance
            let mut lags: Vec<Vec<(f64, f64)>> = vec![vec![]; 64];
            let mut runs: Vec<Vec<(f64, f64)>> = vec![vec![]; 4];
            let mut equal = 0u64;
            let mut pairs = 0u64;
            for (i, (case, k, u)) in l.iter().enumerate() {
                all.extend(u);
                ends.push(*u.last().unwrap());
                if *k == 0 {
                    first.push(u[0]);
                }
                for (j, x) in u.iter().enumerate() {
                    index[j].push(*x);
                    for (m, y) in u.iter().enumerate().skip(j + 1) {
                        lags[m - j].push((*x, *y));
                        pairs += 1;
                        equal += ((x - y).abs() < 1e-6) as u64;
                    }
                }
                for d in 1..runs.len() {
                    if i >= d && l[i - d].0 == *case && l[i - d].1 + d == *k {
                        let v = &l[i - d].2;
                        for (x, y) in v.iter().zip(u) {
                            runs[d].push((*x, *y));
                            pairs += 1;
                            equal += ((x - y).abs() < 1e-6) as u64;
                        }
                    }
                }
            }
            c.count("coordinates", all.len() as u64);
            c.count("first_runs", first.len() as u64);
            c.count("pairs_of_coordinates", pairs);
            c.count("most_dimensions", l.iter().map(|x| x.2.len()).max().unwrap_or(0) as u64);
            let id = |x: f64| x.clamp(0.0, 1.0);
            let mut sets = vec![
                ("all coordinates".to_string(), all.clone()),
                ("the first coordinate of first runs".to_string(), first),
                ("the last coordinate".to_string(), ends),
            ];
            for (j, v) in index.into_iter().enumerate() {
                sets.push((format!("coordinate {}", j), v));
            }
            for (what, mut v) in sets {
                if v.len() < 30 {
                    continue;
                }
                let d = ks(&mut v, id);
                if d > 3.2 {
                    return Err(format!("{} of {} values are not uniform: statistic {}", what, v.len(), d));
                }
            }
            let mut sets = vec![];
            for (d, v) in lags.into_iter().enumerate() {
                sets.push((format!("coordinates at distance {}", d), v));
            }
            for (d, v) in runs.into_iter().enumerate() {
                sets.push((format!("runs at distance {}", d), v));
            }
            for (what, v) in &sets {
                let n = v.len() as f64;
                if n < 100.0 {
                    continue;
                }
                let r = v.iter().map(|(a, b)| (a - 0.5) * (b - 0.5) * 12.0).sum::<f64>() / n.sqrt();
                // Of the distances to the middle as well
                let m = |a: f64| ((a - 0.5).abs() - 0.25) * 48f64.sqrt();
                let q = v.iter().map(|(a, b)| m(*a) * m(*b)).sum::<f64>() / n.sqrt();
                if r.abs() > 6.5 || q.abs() > 6.5 {
                    return Err(format!("{} are correlated: {} and {} standard deviations of {} pairs", what, r, q, n));
                }
            }
            // 2e-6 of the pairs are expected to be that close
            if equal as f64 > 8.0 + 2e-5 * pairs as f64 {
                return Err(format!("{} of {} pairs of coordinates that should be independent are equal", equal, pairs));
            }
            c.nontrivial = Some(all.len() as u64);
            Ok(())
        });
    }
    ctx.rule("fine: with a step size that vanishes beside the mean every point is the initial mean itself; for up to 300 dimensions the means must lie in the range, not repeat coordinates, be uniform down to the 30th bit, be uncorrelated at all distances, and differ for seeds that differ in one bit");
    let fine = std::sync::Mutex::new(vec![]);
    ctx.cases("fine", ctx.n(150, 3000), |rng, c| {
        let dim = if rng.chance(0.3) { rng.int(60, 300) } else { rng.int(1, 60) };
        let k = rng.int(2, 40);
        let (lo, hi) = *rng.pick(&[(-5.0, 5.0), (0.0, 1.0), (100.0, 101.0), (-1e9, 1e3), (5.0, -5.0), (-3.0, -1.0)]);
        let seed = rng.u64();
        let ways = rng.below(3);
        c.desc = format!("dim={} runs={} range={:?}..={:?} seed={} way={}", dim, k, lo, hi, seed, ways);
        let go = |seed: u64| -> Result<Vec<Vec<f64>>, String> {
            use cmaes::restart::*;
            let out = std::cell::RefCell::new(vec![]);
            let strat = RestartStrategy::Local(Local::new(k, Some(1e-250)).map_err(|e| format!("{:?}", e))?);
            let r = RestartOptions::new(dim, lo..=hi, strat)
                .seed(seed)
                .max_generations_per_run(1)
                .build()
                .map_err(|e| format!("{:?}", e))?;
            let record = |x: &cmaes::DVector<f64>| {
                out.borrow_mut().push(x.as_slice().to_vec());
                x[0]
            };
            let res = match ways {
                0 => r.run_with_reuse(record),
                _ => r.run(|| record),
            };
            let mut v = out.into_inner();
            let l = v.len() / k;
            if res.runs != k || v.len() != l * k || l == 0 {
                return Err(format!("{} runs and {} evaluations", res.runs, v.len()));
            }
            v = v.into_iter().step_by(l).collect();
            Ok(v)
        };
        let a = go(seed)?;
        let (l, h) = (lo.min(hi), lo.max(hi));
        let mut seen = std::collections::HashSet::new();
        let mut repeats = 0;
        for (i, m) in a.iter().enumerate() {
            for x in m {
                if !(*x >= l && *x <= h) {
                    return Err(format!("run {} starts at the coordinate {:e}", i + 1, x));
                }
                repeats += !seen.insert(x.to_bits()) as usize;
            }
        }
        if repeats > 3 {
            return Err(format!("{} coordinates of initial means are those of others", repeats));
        }
        if a != go(seed)? {
            return Err("the same seed gives other means".into());
        }
        let bit = if rng.chance(0.3) { 63 } else { rng.below(64) };
        let b = go(seed ^ 1 << bit)?;
        if a.iter().any(|x| b.contains(x)) {
            return Err(format!("seeds that differ in bit {} lead to the same initial mean", bit));
        }
        c.count("means", a.len() as u64);
        let mut hash = Fnv::new();
        a.iter().flatten().for_each(|x| hash.u64(x.to_bits()));
        c.nontrivial = Some(hash.get());
        if (lo, hi) != (-1e9, 1e3) {
            let v: Vec<Vec<f64>> =
                a.iter().map(|m| m.iter().map(|x| (x - l) / (h - l)).collect()).collect();
            fine.lock().unwrap().push((c.idx, v));
        }
        Ok(())
    });
    if ctx.only.is_none() {
        let mut l = std::mem::take(&mut *fine.lock().unwrap());
        l.sort_by_key(|x| x.0);
        ctx.serial("fine_uniform", 1, |_, c| {
            let mut sum = vec![(0.0, 0.0, 0u64); 300];
            let mut cross = (0.0, 0u64);
            for (_, v) in &l {
                for (i, m) in v.iter().enumerate() {
                    for d in 1..m.len() {
                        let s = &mut sum[d];
                        for (x, y) in m.iter().zip(&m[d..]) {
                            s.0 += (x - 0.5) * (y - 0.5) * 12.0;
                            s.1 += ((x - 0.5).abs() - 0.25) * ((y - 0.5).abs() - 0.25) * 48.0;
                            s.2 += 1;
                        }
                    }
                    if i > 0 {
                        for (x, y) in m.iter().zip(&v[i - 1]) {
                            cross.0 += (x - 0.5) * (y - 0.5) * 12.0;
                            cross.1 += 1;
                        }
                    }
                }
            }
            sum[0] = (cross.0, 0.0, cross.1);
            for (d, (a, b, n)) in sum.into_iter().enumerate() {
                if n >= 200 && (a.abs() / (n as f64).sqrt() > 6.5 || b.abs() / (n as f64).sqrt() > 6.5) {
                    return Err(format!(
                        "coordinates at distance {} (0: of consecutive runs) are correlated: {} and {} of {} pairs",
                        d, a, b, n
                    ));
                }
            }
            let all: Vec<f64> = l.iter().flat_map(|x| x.1.iter().flatten().cloned()).collect();
            for k in [0, 5, 10, 20, 30] {
                let mut v: Vec<f64> = all.iter().map(|u| (u * f64::from(1u32 << k)).fract()).collect();
                let d = ks(&mut v, |x| x.clamp(0.0, 1.0));
                if v.len() >= 200 && d > 3.2 {
                    return Err(format!(
                        "after {} bits {} coordinates of initial means are not uniform: statistic {}",
                        k, v.len(), d
                    ));
                }
            }
            for j in 0..300 {
                let mut v: Vec<f64> = l.iter().flat_map(|x| x.1.iter().filter_map(|m| m.get(j).cloned())).collect();
                let d = ks(&mut v, |x| x.clamp(0.0, 1.0));
                if v.len() >= 100 && d > 3.4 {
                    return Err(format!("coordinate {} of {} means is not uniform: statistic {}", j, v.len(), d));
                }
            }
            c.count("fine_coordinates", all.len() as u64);
            c.nontrivial = Some(all.len() as u64);
            Ok(())
        });
    }
    ctx.rule("seeds: the same seed gives the same runs, the reported seed of an unseeded strategy reproduces it, and different seeds and unseeded strategies differ");
    ctx.cases("seeds", ctx.n(150, 3000), |rng, c| {
        let mut cfg = rand_rcfg(rng);
        cfg.print = false;
        cfg.par_update = false;
        if let Some(d) = &mut cfg.defaults {
            d.par_update = false;
        }
        if matches!(cfg.strat, Strat::Local(0, _)) {
            cfg.strat = Strat::Local(2, None);
        }
        cfg.max_evals = Some(cfg.max_evals.unwrap().max(1));
        let p = rand_rproblem(rng, &cfg);
        c.desc = format!("{:?} {:?}", cfg, p);
        let mut go = |cfg: &RCfg| observe(cfg, RApi::Run, &mut maker(&p, None, false));
        let a = go(&cfg)?;
        if Some(a.seed) != cfg.seed {
            return Err(format!("seed {} reported", a.seed));
        }
        let b = go(&cfg)?;
        if !same_points(&a, &b) {
            return Err("the same seed gives different runs".into());
        }
        // The seed of the default options must not matter
        let mut other = cfg.clone();
        other.seed = None;
        let u = go(&other)?;
        let v = go(&other)?;
        if u.seed == v.seed || same_points(&u, &v) {
            return Err(format!("unseeded strategies with seeds {} and {} are the same", u.seed, v.seed));
        }
        other.seed = Some(u.seed);
        if !same_points(&u, &go(&other)?) {
            return Err(format!("the reported seed {} does not reproduce the runs", u.seed));
        }
        let s = cfg.seed.unwrap();
        for s2 in [s.wrapping_add(1), s ^ (1 << 40), s.wrapping_sub(1)] {
            other.seed = Some(s2);
            if same_points(&a, &go(&other)?) {
                return Err(format!("seeds {} and {} give the same runs", s, s2));
            }
        }
        // A clone of the strategy gives the same runs
        let r = cfg.build()?;
        let cl = observe_restarter(r.clone(), RApi::Run, false, &mut maker(&p, None, false))?;
        if !same_points(&a, &cl) {
            return Err("a clone gives different runs".into());
        }
        c.count("strategies_compared", 7);
        c.nontrivial = Some(rest_hash(&a));
        Ok(())
    });
    let _ = (Mode::Minimize, Weights::Positive);
}
