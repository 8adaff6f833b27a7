//! C21, C22: printed progress; wrappers of objectives and convenience functions.

use cmaes::objective_function::{ObjectiveFunction, ParallelObjectiveFunction, Scale};
use cmaes::{CMAESOptions, DVector, Mode, TerminationReason, Weights, CMAES};
use std::cell::RefCell;
use std::sync::{Arc, Mutex};

use crate::core::{guarded, Case, Ctx};
use crate::rst::*;
use crate::sim::*;
use crate::util::{bits_eq, Fnv, Rng};

type Res = Result<(), String>;

// ---- parsing --------------------------------------------------------------------------------

#[derive(Clone, Debug)]
struct Num {
    text: String,
    v: f64,
    /// Number of decimals of the mantissa
    decimals: usize,
    scientific: bool,
}

fn num(s: &str) -> Option<Num> {
    let t = s.trim();
    let v: f64 = t.parse().ok()?;
    let m = t.split(['e', 'E']).next()?;
    Some(Num {
        text: t.to_string(),
        v,
        decimals: m.split_once('.').map_or(0, |x| x.1.len()),
        scientific: t.contains(['e', 'E']),
    })
}

impl Num {
    /// Whether the value was rounded to this number
    fn shows(&self, x: f64) -> bool {
        if !x.is_finite() || !self.v.is_finite() {
            return self.v == x || (self.v.is_nan() && x.is_nan());
        }
        let unit = if self.scientific {
            // The mantissa lies in 1..10 except for zero
            let e: i32 = self.text.split(['e', 'E']).nth(1).and_then(|e| e.parse().ok()).unwrap_or(0);
            format!("1e{}", e - self.decimals as i32).parse().unwrap()
        } else {
            10f64.powi(-(self.decimals as i32))
        };
        (self.v - x).abs() <= 0.5000001 * unit + 1e-15 * x.abs()
    }
}

#[derive(Clone, Debug)]
enum Item {
    Mark(usize),
    Header(String, usize, usize, u64),
    Title,
    Rule,
    Row(usize, usize, Option<Num>, [Num; 4]),
    Reasons(Vec<String>),
    Current(Num),
    Overall(Num),
    Mean(Vec<Num>),
}

const MARK: &str = "@@";

fn parse(out: &str) -> Result<Vec<Item>, String> {
    let mut v = vec![];
    let mut mean: Option<Vec<Num>> = None;
    for l in out.lines() {
        let bad = || format!("unexpected line {:?}", l);
        if let Some(m) = &mut mean {
            if l.contains(['│', '┌', '└']) || l.trim().is_empty() {
                let t = l.replace(['│', '┌', '┐', '└', '┘'], " ");
                for w in t.split_whitespace() {
                    m.push(num(w).ok_or_else(bad)?);
                }
                continue;
            }
            v.push(Item::Mean(mean.take().unwrap()));
        }
        if l.trim().is_empty() {
            continue;
        }
        if let Some(k) = l.strip_prefix(MARK) {
            v.push(Item::Mark(k.parse().map_err(|_| bad())?));
        } else if let Some(r) = l.strip_prefix("Terminated with reason(s):") {
            v.push(Item::Reasons(
                r.split(',')
                    .map(|x| x.trim().trim_matches('`').to_string())
                    .filter(|x| !x.is_empty())
                    .collect(),
            ));
        } else if let Some(r) = l.strip_prefix("Current best function value:") {
            v.push(Item::Current(num(r).ok_or_else(bad)?));
        } else if let Some(r) = l.strip_prefix("Overall best function value:") {
            v.push(Item::Overall(num(r).ok_or_else(bad)?));
        } else if let Some(r) = l.strip_prefix("Final mean:") {
            let mut m = vec![];
            for w in r.replace(['│', '┌', '┐', '└', '┘'], " ").split_whitespace() {
                m.push(num(w).ok_or_else(bad)?);
            }
            mean = Some(m);
        } else if l.starts_with("---") {
            v.push(Item::Rule);
        } else if let Some((variant, rest)) = l.split_once(" with dimension=") {
            let f: Vec<&str> = rest.split(", ").collect();
            let get = |i: usize, k: &str| f.get(i).and_then(|x| x.strip_prefix(k)).map(|x| x.trim().to_string());
            let n: usize = f.first().and_then(|x| x.parse().ok()).ok_or_else(bad)?;
            let l2: usize = get(1, "lambda=").and_then(|x| x.parse().ok()).ok_or_else(bad)?;
            let s: u64 = get(2, "seed=").and_then(|x| x.parse().ok()).ok_or_else(bad)?;
            v.push(Item::Header(variant.to_string(), n, l2, s));
        } else if l.contains("Gen #") {
            v.push(Item::Title);
        } else {
            let f: Vec<&str> = l.split('|').collect();
            if f.len() != 7 {
                return Err(bad());
            }
            let nums: Vec<Num> = f[3..].iter().filter_map(|x| num(x)).collect();
            let nums: [Num; 4] = nums.try_into().map_err(|_| bad())?;
            let best = if f[2].trim().is_empty() {
                None
            } else {
                Some(num(f[2]).ok_or_else(bad)?)
            };
            v.push(Item::Row(
                f[0].trim().parse().map_err(|_| bad())?,
                f[1].trim().parse().map_err(|_| bad())?,
                best,
                nums,
            ));
        }
    }
    if let Some(m) = mean {
        v.push(Item::Mean(m));
    }
    Ok(v)
}

// ---- C21 ------------------------------------------------------------------------------------

fn judge_row(i: &Item, s: &Snap) -> Res {
    let Item::Row(g, e, best, nums) = i else {
        return Err(format!("{:?} instead of the row of generation {}", i, s.generation));
    };
    let n = s.mean.len();
    let std: Vec<f64> = (0..n).map(|i| s.sigma * s.cov[i * n + i].sqrt()).collect();
    let min = std.iter().cloned().fold(f64::INFINITY, f64::min);
    let max = std.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    let mut bad = vec![];
    if *g != s.generation {
        bad.push(format!("generation {} for {}", g, s.generation));
    }
    if *e != s.evals {
        bad.push(format!("evaluations {} for {}", e, s.evals));
    }
    match (best, &s.cur) {
        (None, None) => (),
        (Some(b), Some(c)) if b.shows(c.1) => (),
        (b, c) => bad.push(format!("best value {:?} for {:?}", b.as_ref().map(|b| &b.text), c.as_ref().map(|c| c.1))),
    }
    for (what, k, x) in [("axis ratio", 0, s.axis), ("step size", 1, s.sigma), ("minimum", 2, min), ("maximum", 3, max)] {
        // Extremes of overflowing matrices are not comparable
        if k >= 2 && std.iter().any(|x| !x.is_finite()) {
            continue;
        }
        if !nums[k].shows(x) {
            bad.push(format!("{} {} for {:e}", what, nums[k].text, x));
        } else if x.is_finite() && nums[k].decimals < 3 {
            bad.push(format!("{} {} has too few digits", what, nums[k].text));
        }
    }
    if bad.is_empty() {
        Ok(())
    } else {
        Err(format!("row of generation {}: {}", s.generation, bad.join(", ")))
    }
}

fn judge_header(items: &mut std::vec::IntoIter<Item>, cfg: &Cfg, seed: u64) -> Res {
    let variant = match cfg.weights {
        Weights::Negative => "aCMA-ES",
        _ => "CMA-ES",
    };
    match items.next() {
        Some(Item::Header(v, n, l, s)) if v == variant && n == cfg.dim() && l == cfg.lambda() && s == seed => (),
        x => {
            return Err(format!(
                "{:?} instead of the header of {} with dimension {}, population {} and seed {}",
                x, variant, cfg.dim(), cfg.lambda(), seed
            ))
        }
    }
    match (items.next(), items.next()) {
        (Some(Item::Title), Some(Item::Rule)) => Ok(()),
        x => Err(format!("{:?} instead of the titles", x)),
    }
}

fn judge_summary(items: &mut std::vec::IntoIter<Item>, reasons: &[TerminationReason], s: &Snap) -> Res {
    let want: Vec<String> = reasons.iter().map(|r| format!("{:?}", r)).collect();
    match items.next() {
        Some(Item::Reasons(r)) if r == want => (),
        x => return Err(format!("{:?} instead of the reasons {:?}", x, want)),
    }
    if let (Some(c), Some(b)) = (&s.cur, &s.best) {
        match items.next() {
            Some(Item::Current(x)) if x.shows(c.1) => (),
            x => return Err(format!("{:?} instead of the current best value {:e}", x, c.1)),
        }
        match items.next() {
            Some(Item::Overall(x)) if x.shows(b.1) => (),
            x => return Err(format!("{:?} instead of the overall best value {:e}", x, b.1)),
        }
    }
    match items.next() {
        Some(Item::Mean(m)) if m.len() == s.mean.len() && m.iter().zip(&s.mean).all(|(a, b)| a.shows(*b)) => Ok(()),
        x => Err(format!("{:?} instead of the mean {:?}", x, s.mean)),
    }
}

/// When rows are printed
struct Cadence {
    gap: usize,
    last: usize,
    printed: usize,
}

impl Cadence {
    fn row(&mut self, s: &Snap) -> bool {
        let r = if s.evals >= self.last.saturating_add(self.gap) {
            self.last = s.evals;
            true
        } else {
            s.generation < 4
        };
        if r {
            self.printed = s.generation;
        }
        r
    }
}

fn print_case(rng: &mut Rng) -> (Cfg, Problem) {
    let mut cfg = rand_cfg(rng);
    cfg.print = Some(match rng.below(7) {
        0 => 0,
        1 => 1,
        2 => cfg.lambda() * rng.int(1, 5),
        3 => cfg.lambda() * rng.int(1, 5) + 1,
        4 => *rng.pick(&[usize::MAX, usize::MAX - 1, 1_000_000]),
        _ => rng.int(1, 200),
    });
    if rng.chance(0.2) {
        cfg.plot = Some(rng.below(30));
    }
    if rng.chance(0.15) {
        cfg.cons = Some(rand_feas(rng, &cfg));
    }
    let mut p = Problem::new(rand_fun(rng), rng.range(-1.0, 1.0));
    if rng.chance(0.15) {
        let vals = [f64::INFINITY, f64::NEG_INFINITY, f64::MAX, -f64::MAX, 5e-324, 0.0, -0.0, 1e-300, -1.0];
        p.fun = Fun::Hostile((0..rng.int(1, 4)).map(|_| *rng.pick(&vals)).collect());
    }
    if rng.chance(0.1) {
        let x = *rng.pick(&[1e15, -1e8, 123456.789, 1e-5]);
        cfg.mean.iter_mut().for_each(|m| *m += x);
    }
    p.neg = cfg.mode == Mode::Maximize && rng.chance(0.8);
    (cfg, p)
}

pub fn c21(ctx: &Ctx) {
    ctx.rule("steps: every generation of random runs is followed by a mark in the captured output; exactly the lines due in each generation must be between the marks and show the true state (within the rounding of the digits printed); also manual rows, headers and summaries, NaN values and generations past termination; non-trivial if at least 3 rows were read");
    ctx.serial("steps", ctx.n(600, 15_000), |rng, c| print_steps(rng, c));
    ctx.rule("run: the whole output of `run` and `run_parallel` is compared with the states of a silent second optimizer advanced generation by generation");
    ctx.serial("run", ctx.n(400, 10_000), |rng, c| print_run(rng, c));
    ctx.rule("restarts: the output of restart strategies is compared with the recorded runs and the returned results");
    ctx.serial("restarts", ctx.n(200, 4000), |rng, c| print_restarts(rng, c));
    ctx.rule("silent: without printing enabled, nothing is written to the standard output");
    ctx.serial("silent", ctx.n(200, 4000), |rng, c| silent(rng, c));
}

fn print_steps(rng: &mut Rng, c: &mut Case) -> Res {
    let (mut cfg, mut p) = print_case(rng);
    let mut api = rand_api(rng);
    let mut total = rng.int(2, 60);
    let long = c.idx % 200 == 100;
    if long {
        (cfg, p, total) = long_case(rng);
        cfg.print = Some(cfg.lambda() * rng.int(1, 5000));
        api = ApiMode::Seq;
        c.count("long_runs", 1);
    }
    let many = c.idx % 3000 == 300;
    if many {
        // More evaluations than the column is wide
        (cfg, p) = many_case(rng, 2_400_000, 2_600_000);
        total = 6;
        cfg.print = Some(rng.int(0, 3_000_000));
        c.count("many_runs", 1);
    }
    c.desc = format!("{:?} {:?} {:?}", cfg, p, api);
    enum Op {
        Gen,
        Row,
        Head,
        Summary(Vec<TerminationReason>),
    }
    let mut log: Vec<(Op, Snap, bool)> = vec![];
    let mut seed = 0;
    let (r, out) = capture(|| -> Res {
        let mut s = Sim::new(&cfg, &p)?;
        seed = s.cm.parameters().seed();
        s.rec
            .keep
            .store(!many, std::sync::atomic::Ordering::SeqCst);
        println!("{}{}", MARK, 0);
        for i in 0..total {
            match if many || long && rng.chance(0.999) { 23 } else { rng.below(24) } {
                0 => {
                    s.cm.print_info();
                    log.push((Op::Row, s.last.clone(), true));
                }
                1 => {
                    s.cm.print_initial_info();
                    log.push((Op::Head, s.last.clone(), true));
                }
                2 => {
                    let all = [TerminationReason::TolX, TerminationReason::FunTarget, TerminationReason::MaxTime];
                    let r = all[..rng.below(4)].to_vec();
                    s.cm.print_final_info(&r);
                    log.push((Op::Summary(r), s.last.clone(), true));
                }
                x => {
                    if x == 3 {
                        s.rec.fault(1, rng.below(cfg.lambda()) as u64);
                    }
                    let g = s.step(api.pick(rng));
                    if g.has(TerminationReason::PosDefCov) {
                        break;
                    }
                    log.push((Op::Gen, g.snap.clone(), g.complete()));
                }
            }
            println!("{}{}", MARK, i + 1);
        }
        Ok(())
    });
    r?;
    let mut items = parse(&out)?.into_iter();
    judge_header(&mut items, &cfg, seed)?;
    let mut cad = Cadence {
        gap: cfg.print.unwrap(),
        last: 0,
        printed: 0,
    };
    let mut rows = 0;
    let mut mark = 0;
    let expect_mark = |items: &mut std::vec::IntoIter<Item>, k: usize| -> Res {
        match items.next() {
            Some(Item::Mark(m)) if m == k => Ok(()),
            x => Err(format!("unexpected or missing line in step {}: {:?}", k, x)),
        }
    };
    expect_mark(&mut items, 0)?;
    for (op, s, complete) in &log {
        mark += 1;
        let what = |e: String| format!("step {}: {}", mark, e);
        let mut row = |items: &mut std::vec::IntoIter<Item>| -> Res {
            let i = items.next().ok_or("the output ends")?;
            judge_row(&i, s).map_err(what)?;
            rows += 1;
            Ok(())
        };
        match op {
            Op::Gen => {
                if *complete && cad.row(s) {
                    row(&mut items)?;
                }
            }
            Op::Row => row(&mut items)?,
            Op::Head => judge_header(&mut items, &cfg, seed).map_err(what)?,
            Op::Summary(r) => {
                if s.generation == 0 {
                    // Nothing to be shown yet, but allowed
                    if let Some(Item::Row(..)) = items.as_slice().first() {
                        row(&mut items)?;
                    }
                } else if cad.printed != s.generation {
                    row(&mut items)?;
                }
                judge_summary(&mut items, r, s).map_err(what)?;
            }
        }
        expect_mark(&mut items, mark)?;
    }
    c.count("rows", rows);
    c.count("generations", log.iter().filter(|l| matches!(l.0, Op::Gen)).count() as u64);
    if rows >= 3 {
        let mut h = Fnv::new();
        h.bytes(out.as_bytes());
        c.nontrivial = Some(h.get());
    }
    Ok(())
}

fn print_run(rng: &mut Rng, c: &mut Case) -> Res {
    let (mut cfg, mut p) = print_case(rng);
    cfg.par_update = false;
    cfg.max_gens = Some(rng.int(1, 80));
    if rng.chance(0.25) {
        p.faults.nan_calls = vec![rng.below(10 * cfg.lambda()) as u64];
    }
    let par = rng.chance(0.3);
    c.desc = format!("{:?} {:?} parallel={}", cfg, p, par);
    let mut quiet = cfg.clone();
    quiet.print = None;
    let mut twin = Sim::new(&quiet, &p)?;
    let mut states = vec![];
    let mut reasons = vec![];
    for _ in 0..100 {
        let g = twin.step(if par { Api::Par } else { Api::Seq });
        if g.has(TerminationReason::PosDefCov) {
            return Ok(());
        }
        reasons = g.reasons().to_vec();
        states.push((g.snap.clone(), g.complete()));
        if g.term.is_some() {
            break;
        }
    }
    let mut end = None;
    let (r, out) = capture(|| -> Res {
        let mut s = Sim::new(&cfg, &p)?;
        let _ = if par { s.cm.run_parallel() } else { s.cm.run() };
        end = Some((snap(&s.cm), s.cm.parameters().seed()));
        Ok(())
    });
    r?;
    let (end, seed) = end.unwrap();
    let mut items = parse(&out)?.into_iter();
    judge_header(&mut items, &cfg, seed)?;
    let mut cad = Cadence {
        gap: cfg.print.unwrap(),
        last: 0,
        printed: 0,
    };
    let mut rows = 0;
    for (s, complete) in &states {
        if *complete && cad.row(s) {
            judge_row(&items.next().ok_or("the output ends")?, s)?;
            rows += 1;
        }
    }
    if end.generation == 0 {
        if let Some(Item::Row(..)) = items.as_slice().first() {
            judge_row(&items.next().unwrap(), &end)?;
        }
    } else if cad.printed != end.generation {
        // The evaluations of an invalid generation made in parallel are not fixed
        judge_row(&items.next().ok_or("the output ends")?, &end)?;
        rows += 1;
    }
    judge_summary(&mut items, &reasons, &end)?;
    if let Some(x) = items.next() {
        return Err(format!("unexpected line {:?}", x));
    }
    c.count("rows", rows);
    c.count("summaries", 1);
    if rows >= 3 {
        let mut h = Fnv::new();
        h.bytes(out.as_bytes());
        c.nontrivial = Some(h.get());
    }
    Ok(())
}

fn print_restarts(rng: &mut Rng, c: &mut Case) -> Res {
    let mut cfg = rand_rcfg(rng);
    cfg.print = true;
    cfg.max_evals = Some(rng.below(6000));
    let p = rand_rproblem(rng, &cfg);
    if rng.chance(0.25) {
        cfg.fun_target = Some(if p.neg { -1.0 } else { 1.0 } * rng.log_range(1e-8, 10.0));
    }
    let api = *rng.pick(&RAPIS);
    c.desc = format!("{:?} {:?} {:?}", cfg, p, api);
    let o = observe(&cfg, api, &mut |_, rec| p.obj(rec))?;
    let mut lines = o.stdout.lines();
    // First line
    let l = lines.next().ok_or("nothing was printed")?;
    let bad = |what: &str| format!("{} in {:?}", what, l);
    let name = match cfg.strat {
        Strat::Local(..) => "LR-aCMA-ES",
        Strat::Ipop(_) => "IPOP-aCMA-ES",
        Strat::Bipop(..) => "BIPOP-aCMA-ES",
    };
    if !l.starts_with(&format!("{} with ", name)) {
        return Err(bad("name of the strategy"));
    }
    let field = |k: &str| -> Option<String> {
        let i = l.find(&format!("{}=", k))? + k.len() + 1;
        let r = &l[i..];
        let end = if r.starts_with('[') {
            r.find(']')? + 1
        } else {
            r.find(", ").unwrap_or(r.len())
        };
        Some(r[..end].to_string())
    };
    if field(" dimension").and_then(|x| x.parse::<usize>().ok()) != Some(cfg.dim) {
        return Err(bad("dimension"));
    }
    if field(" seed").and_then(|x| x.trim().parse::<u64>().ok()) != Some(o.seed) {
        return Err(bad("seed"));
    }
    let range = field("search_range").ok_or_else(|| bad("range"))?;
    let ends: Vec<f64> = range
        .trim_matches(['[', ']'])
        .split(", ")
        .filter_map(|x| x.parse().ok())
        .collect();
    if ends != [cfg.lo.min(cfg.hi), cfg.lo.max(cfg.hi)] {
        return Err(bad("range"));
    }
    let params: Vec<(&str, f64)> = match cfg.strat {
        Strat::Local(..) => vec![("sigma0_factor", cfg.strat.step_factor())],
        Strat::Ipop(_) => vec![("increase_factor", cfg.strat.pop_factor() as f64)],
        Strat::Bipop(..) => vec![
            ("lr_sigma0_factor", cfg.strat.step_factor()),
            ("ipop_increase_factor", cfg.strat.pop_factor() as f64),
        ],
    };
    for (k, x) in params {
        if field(&format!(" {}", k)).and_then(|v| v.parse::<f64>().ok()) != Some(x) {
            return Err(bad(k));
        }
    }
    // Runs
    for (k, r) in o.runs.iter().enumerate() {
        let p = r.printed.as_ref().ok_or_else(|| format!("run {} was not printed", k + 1))?;
        if p.evals != r.evs.len() {
            return Err(format!("run {} made {} evaluations, {} printed", k + 1, r.evs.len(), p.evals));
        }
        let mut best: Option<f64> = None;
        for e in &r.evs {
            if best.is_none_or(|b| better(cfg.mode, e.v, b)) {
                best = Some(e.v);
            }
        }
        match (&p.best, best) {
            (None, None) => (),
            (Some(t), Some(b)) if num(t).is_some_and(|x| x.shows(b)) => (),
            (t, b) => return Err(format!("run {} has the best value {:?}, {:?} printed", k + 1, b, t)),
        }
        if p.reasons.is_empty() {
            return Err(format!("no reasons printed for run {}", k + 1));
        }
        c.count("runs", 1);
    }
    if o.runs.len() != o.runs_reported {
        return Err(format!("{} runs printed, {} reported", o.runs.len(), o.runs_reported));
    }
    // Results
    let want = format!("Terminated in {} f-evals with reason: `{:?}`", o.evals, o.reason);
    let lines: Vec<&str> = o.stdout.lines().collect();
    let i = 1 + 2 * o.runs.len();
    if lines.get(i) != Some(&want.as_str()) {
        return Err(format!("{:?} instead of {:?}", lines.get(i), want));
    }
    let rest = lines[i + 1..].join("\n");
    match &o.best {
        None => {
            if !rest.trim().is_empty() {
                return Err(format!("unexpected output {:?}", rest));
            }
        }
        Some((x, v)) => {
            let r = rest
                .strip_prefix("Best function value:")
                .ok_or_else(|| format!("no best value in {:?}", rest))?;
            let (a, b) = r.split_once("Best point:").ok_or("no best point printed")?;
            if !num(a).is_some_and(|n| n.shows(*v)) {
                return Err(format!("best value {:?} printed for {:e}", a, v));
            }
            let pts: Vec<Num> = b
                .replace(['│', '┌', '┐', '└', '┘'], " ")
                .split_whitespace()
                .filter_map(num)
                .collect();
            if pts.len() != x.len() || !pts.iter().zip(x).all(|(a, b)| a.shows(*b)) {
                return Err(format!("best point {:?} printed for {:?}", b, x));
            }
        }
    }
    c.count("strategies", 1);
    if o.runs.len() >= 2 {
        let mut h = Fnv::new();
        h.bytes(o.stdout.as_bytes());
        c.nontrivial = Some(h.get());
    }
    Ok(())
}

fn silent(rng: &mut Rng, c: &mut Case) -> Res {
    if rng.chance(0.5) {
        let (mut cfg, mut p) = print_case(rng);
        cfg.print = None;
        cfg.max_gens = Some(rng.int(1, 40));
        if rng.chance(0.25) {
            p.faults.nan_calls = vec![rng.below(10 * cfg.lambda()) as u64];
        }
        let par = rng.chance(0.3);
        c.desc = format!("{:?} {:?} parallel={}", cfg, p, par);
        let (r, out) = capture(|| -> Result<u64, String> {
            let mut s = Sim::new(&cfg, &p)?;
            let _ = s.cm.next();
            let _ = if par { s.cm.run_parallel() } else { s.cm.run() };
            Ok(s.rec.count())
        });
        c.nontrivial = Some(r?);
        if !out.is_empty() {
            return Err(format!("printed without being asked: {:?}", &out[..out.len().min(300)]));
        }
    } else {
        let mut cfg = rand_rcfg(rng);
        cfg.print = false;
        cfg.max_evals = Some(rng.below(4000));
        let p = rand_rproblem(rng, &cfg);
        let api = *rng.pick(&RAPIS);
        c.desc = format!("{:?} {:?} {:?}", cfg, p, api);
        let (r, out) = capture(|| observe(&cfg, api, &mut |_, rec| p.obj(rec)));
        c.nontrivial = Some(r?.evals as u64);
        if !out.is_empty() {
            return Err(format!("printed without being asked: {:?}", &out[..out.len().min(300)]));
        }
    }
    Ok(())
}

// ---- C22 ------------------------------------------------------------------------------------

/// What a run looked like from outside
#[derive(Clone, PartialEq)]
struct Trace {
    states: Vec<u64>,
    end: String,
}

fn trace_with<F>(cfg: &Cfg, f: F, gens: usize, mut next: impl FnMut(&mut CMAES<F>) -> Option<cmaes::TerminationData>) -> Result<(Trace, usize, F), String> {
    let (o, _) = cfg.options_with_constraints();
    let mut cm = o.build(f).map_err(|e| format!("valid options were rejected: {:?}", e))?;
    let mut states = vec![];
    let mut end = String::new();
    for _ in 0..gens {
        let t = next(&mut cm);
        let mut h = Fnv::new();
        snap(&cm).hash(&mut h);
        states.push(h.get());
        if let Some(t) = t {
            end = format!("{:?}", t.reasons);
            if t.reasons.contains(&TerminationReason::PosDefCov) {
                break;
            }
        }
    }
    let n = cm.function_evals();
    Ok((Trace { states, end }, n, cm.into_objective_function()))
}

fn trace_seq<F: ObjectiveFunction>(cfg: &Cfg, f: F, gens: usize) -> Result<(Trace, usize, F), String> {
    trace_with(cfg, f, gens, |c| c.next())
}

fn trace_par<F: ParallelObjectiveFunction>(cfg: &Cfg, f: F, gens: usize) -> Result<(Trace, usize, F), String> {
    trace_with(cfg, f, gens, |c| c.next_parallel())
}

/// An objective with state of its own
#[derive(Clone)]
struct Custom {
    fun: Fun,
    neg: bool,
    log: Vec<Vec<f64>>,
    shared: Arc<Mutex<Vec<Vec<f64>>>>,
}

impl Custom {
    fn new(p: &Problem) -> Custom {
        Custom {
            fun: p.fun.clone(),
            neg: p.neg,
            log: vec![],
            shared: Arc::default(),
        }
    }
    fn value(&self, x: &[f64]) -> f64 {
        let v = self.fun.eval(x);
        if self.neg {
            -v
        } else {
            v
        }
    }
}

impl ObjectiveFunction for Custom {
    fn evaluate(&mut self, x: &DVector<f64>) -> f64 {
        self.log.push(x.as_slice().to_vec());
        self.value(x.as_slice())
    }
}

impl ObjectiveFunction for &mut Custom {
    fn evaluate(&mut self, x: &DVector<f64>) -> f64 {
        Custom::evaluate(self, x)
    }
}

impl ParallelObjectiveFunction for Custom {
    fn evaluate_parallel(&self, x: &DVector<f64>) -> f64 {
        self.shared.lock().unwrap().push(x.as_slice().to_vec());
        self.value(x.as_slice())
    }
}

impl ParallelObjectiveFunction for &Custom {
    fn evaluate_parallel(&self, x: &DVector<f64>) -> f64 {
        Custom::evaluate_parallel(self, x)
    }
}

type Value = Arc<dyn Fn(&[f64]) -> f64 + Send + Sync>;

thread_local! {
    static ITEM: RefCell<Option<Value>> = const { RefCell::new(None) };
}
/// The function behind `item_par`, by slot, as parallel calls come from other threads
static SLOTS: Mutex<Option<Value>> = Mutex::new(None);
static SLOT_USE: Mutex<()> = Mutex::new(());

fn item(x: &DVector<f64>) -> f64 {
    ITEM.with(|i| (i.borrow().as_ref().unwrap())(x.as_slice()))
}

fn item_par(x: &DVector<f64>) -> f64 {
    let f = SLOTS.lock().unwrap_or_else(|e| e.into_inner()).clone().unwrap();
    f(x.as_slice())
}

fn sorted_bits(v: &[Vec<f64>]) -> Vec<Vec<u64>> {
    let mut l: Vec<Vec<u64>> = v.iter().map(|x| x.iter().map(|a| a.to_bits()).collect()).collect();
    l.sort();
    l
}

fn rand_scales(rng: &mut Rng, n: usize) -> Vec<f64> {
    if rng.chance(0.45) {
        return structured_scales(rng, n);
    }
    (0..n)
        .map(|_| match rng.below(9) {
            0 => 1.0,
            1 => -1.0,
            2 => 0.0,
            3 => *rng.pick(&[1e300, -1e300, 1e-300, 5e-324, 1e150]),
            4 => -rng.log_range(1e-3, 1e3),
            _ => rng.log_range(1e-3, 1e3),
        })
        .collect()
}

/// Scales that resemble the identity or a uniform scale in some respect: their sum, product, norm,
/// extremes, first or last element, or all but one element
fn structured_scales(rng: &mut Rng, n: usize) -> Vec<f64> {
    let mut v = vec![1.0; n];
    let d = *rng.pick(&[0.5, 0.25, 0.75, 1.0, 2.0, -1.0, 0.125]);
    match rng.below(12) {
        // Sum n
        0 | 1 => {
            for p in v.chunks_exact_mut(2) {
                p[0] = 1.0 - d;
                p[1] = 1.0 + d;
            }
        }
        // Product 1
        2 => {
            let d = *rng.pick(&[2.0, 4.0, -1.0, -2.0, 0.5, 1024.0]);
            for p in v.chunks_exact_mut(2) {
                p[0] = d;
                p[1] = 1.0 / d;
            }
        }
        // Norm sqrt(n)
        3 => {
            for x in v.iter_mut() {
                *x = if rng.chance(0.5) { 1.0 } else { -1.0 };
            }
        }
        // All equal
        4 => v.fill(*rng.pick(&[2.0, 0.5, -1.0, 10.0, 1.0 + 1e-12, 0.0, 1e-20])),
        // All but one
        5 => v[0] = 1.0 + d,
        6 => v[n - 1] = 1.0 + d,
        7 => {
            let i = rng.below(n);
            v[i] = *rng.pick(&[0.0, -1.0, 2.0, f64::EPSILON, 1.0 + f64::EPSILON, 1e9]);
        }
        // First or last is one
        8 => {
            v.fill(1.0 + d);
            v[0] = 1.0;
        }
        9 => {
            v.fill(1.0 + d);
            v[n - 1] = 1.0;
        }
        // Sorted
        10 => {
            for (i, x) in v.iter_mut().enumerate() {
                *x = (i + 1) as f64;
            }
        }
        // Within rounding of one
        _ => {
            for x in v.iter_mut() {
                *x = 1.0 + rng.range(-1.0, 1.0) * *rng.pick(&[1e-15, 1e-10, 1e-6, 1e-3]);
            }
        }
    }
    v
}

pub fn c22(ctx: &Ctx) {
    ctx.rule("forms: the same objective as custom type, closure, function, function pointer, boxed closure, boxed trait object, mutable reference and nested boxes, sequentially and in parallel; states after every generation must be bitwise equal, each form is returned in the state its recorded calls left it in; non-trivial if at least 2 generations were made");
    ctx.cases("forms", ctx.n(400, 10_000), |rng, c| forms(rng, c));
    ctx.rule("scale: scaled objectives (scales of both signs, zero, tiny and huge; nested; by value and by reference; boxed; cloned; sequential and parallel) are called with exactly the products of the points an unscaled run evaluates and the scales; the run equals that of a closure multiplying by itself");
    ctx.cases("scale", ctx.n(500, 12_000), |rng, c| scaled(rng, c));
    ctx.rule("functions: the individual returned by fmin, fmin_parallel, fmax and fmax_parallel is the best of all recorded calls and the one found by the default options with the printed seed and the same evaluations");
    ctx.serial("functions", ctx.n(120, 3000), |rng, c| functions(rng, c));
}

fn forms(rng: &mut Rng, c: &mut Case) -> Res {
    let mut cfg = rand_cfg(rng);
    cfg.par_update = false;
    if rng.chance(0.15) {
        cfg.cons = Some(rand_feas(rng, &cfg));
    }
    let mut p = Problem::new(rand_fun(rng), 0.0);
    p.neg = rng.chance(0.5);
    let gens = rng.int(1, 30);
    c.desc = format!("{:?} {:?} gens={}", cfg, p, gens);
    let (base, n, mut custom) = trace_seq(&cfg, Custom::new(&p), gens)?;
    let points = std::mem::take(&mut custom.log);
    if points.len() != n {
        return Err(format!("the returned objective recorded {} calls of {}", points.len(), n));
    }
    let bits = sorted_bits(&points);
    let cu = Custom::new(&p);
    let value: Value = {
        let cu = cu.clone();
        Arc::new(move |x: &[f64]| cu.value(x))
    };
    let mut count = 0;
    let mut check = |what: &str, t: Trace, m: usize| -> Res {
        count += 1;
        if m != n {
            return Err(format!("{}: {} evaluations instead of {}", what, m, n));
        }
        if t != base {
            let k = t.states.iter().zip(&base.states).position(|(a, b)| a != b);
            return Err(format!(
                "{}: the run differs from that of a custom type, first in generation {:?} ({} and {})",
                what, k, t.end, base.end
            ));
        }
        Ok(())
    };
    let logged = |what: &str, l: &[Vec<f64>]| -> Res {
        if l.len() != points.len() || !l.iter().zip(&points).all(|(a, b)| bits_eq(a, b)) {
            return Err(format!("{}: {} calls were recorded, which differ from those of a custom type", what, l.len()));
        }
        Ok(())
    };
    // A mutable reference to a custom type
    let mut cu1 = cu.clone();
    let (t, m, _) = trace_seq(&cfg, &mut cu1, gens)?;
    check("&mut custom type", t, m)?;
    logged("&mut custom type", &cu1.log)?;
    // Closures with state, by value and by reference
    let mut log = vec![];
    {
        let f = |x: &DVector<f64>| {
            log.push(x.as_slice().to_vec());
            cu.value(x.as_slice())
        };
        let (t, m, mut f) = trace_seq(&cfg, f, gens)?;
        check("closure", t, m)?;
        // The closure that comes back still works on the same state
        let x = DVector::from_element(cfg.dim(), 0.25);
        let v = f(&x);
        if v.to_bits() != cu.value(x.as_slice()).to_bits() {
            return Err("the returned closure returns another value".into());
        }
    }
    let last = log.pop();
    if last != Some(vec![0.25; cfg.dim()]) {
        return Err("the returned closure is not the one handed over".into());
    }
    logged("closure", &log)?;
    log.clear();
    {
        let mut f = |x: &DVector<f64>| {
            log.push(x.as_slice().to_vec());
            cu.value(x.as_slice())
        };
        let (t, m, _) = trace_seq(&cfg, &mut f, gens)?;
        check("&mut closure", t, m)?;
    }
    logged("&mut closure", &log)?;
    // Functions
    ITEM.with(|i| *i.borrow_mut() = Some(value.clone()));
    let (t, m, _) = trace_seq(&cfg, item, gens)?;
    check("function", t, m)?;
    let ptr: fn(&DVector<f64>) -> f64 = item;
    let (t, m, _) = trace_seq(&cfg, ptr, gens)?;
    check("function pointer", t, m)?;
    // Boxes
    let shared: Arc<Mutex<Vec<Vec<f64>>>> = Arc::default();
    let boxed = |shared: &Arc<Mutex<Vec<Vec<f64>>>>| {
        let (s, v) = (shared.clone(), value.clone());
        move |x: &DVector<f64>| {
            s.lock().unwrap().push(x.as_slice().to_vec());
            v(x.as_slice())
        }
    };
    let b: Box<dyn ObjectiveFunction> = Box::new(boxed(&shared));
    let (t, m, b) = trace_seq(&cfg, b, gens)?;
    check("Box<dyn ObjectiveFunction>", t, m)?;
    logged("Box<dyn ObjectiveFunction>", &shared.lock().unwrap().drain(..).collect::<Vec<_>>())?;
    // The same box again, nested
    let b: Box<dyn ObjectiveFunction> = Box::new(b);
    let b: Box<dyn ObjectiveFunction> = Box::new(b);
    let (t, m, _) = trace_seq(&cfg, b, gens)?;
    check("nested boxes", t, m)?;
    logged("nested boxes", &shared.lock().unwrap().drain(..).collect::<Vec<_>>())?;
    let b: Box<dyn ObjectiveFunction> = Box::new(cu.clone());
    let (t, m, _) = trace_seq(&cfg, b, gens)?;
    check("boxed custom type", t, m)?;
    let b: Box<dyn FnMut(&DVector<f64>) -> f64> = Box::new(boxed(&shared));
    let (t, m, _) = trace_seq(&cfg, b, gens)?;
    check("Box<dyn FnMut>", t, m)?;
    logged("Box<dyn FnMut>", &shared.lock().unwrap().drain(..).collect::<Vec<_>>())?;
    // Parallel; the order of calls is not fixed
    let par_logged = |what: &str, l: &Mutex<Vec<Vec<f64>>>| -> Res {
        let l: Vec<Vec<f64>> = l.lock().unwrap().drain(..).collect();
        if sorted_bits(&l) != bits {
            return Err(format!("{}: {} calls were recorded, which differ from those of a custom type", what, l.len()));
        }
        Ok(())
    };
    if p.fun.eval(&points[0]).is_nan() {
        return Ok(());
    }
    let (t, m, f) = trace_par(&cfg, cu.clone(), gens)?;
    check("parallel custom type", t, m)?;
    par_logged("parallel custom type", &f.shared)?;
    let (t, m, _) = trace_par(&cfg, &cu, gens)?;
    check("parallel &custom type", t, m)?;
    par_logged("parallel &custom type", &cu.shared)?;
    let f = boxed(&shared);
    let (t, m, f) = trace_par(&cfg, f, gens)?;
    check("parallel closure", t, m)?;
    par_logged("parallel closure", &shared)?;
    let (t, m, _) = trace_par(&cfg, &f, gens)?;
    check("parallel &closure", t, m)?;
    par_logged("parallel &closure", &shared)?;
    let b: Box<dyn ParallelObjectiveFunction> = Box::new(f);
    let (t, m, b) = trace_par(&cfg, b, gens)?;
    check("Box<dyn ParallelObjectiveFunction>", t, m)?;
    par_logged("Box<dyn ParallelObjectiveFunction>", &shared)?;
    let b: Box<dyn ParallelObjectiveFunction> = Box::new(b);
    let (t, m, _) = trace_par(&cfg, b, gens)?;
    check("nested parallel boxes", t, m)?;
    par_logged("nested parallel boxes", &shared)?;
    if rng.chance(0.3) {
        let _l = SLOT_USE.lock().unwrap_or_else(|e| e.into_inner());
        *SLOTS.lock().unwrap() = Some(value.clone());
        let (t, m, _) = trace_par(&cfg, item_par, gens)?;
        check("parallel function", t, m)?;
    }
    c.count("forms_compared", count);
    if base.states.len() >= 2 {
        let mut h = Fnv::new();
        base.states.iter().for_each(|s| h.u64(*s));
        c.nontrivial = Some(h.get());
    }
    Ok(())
}

fn scaled(rng: &mut Rng, c: &mut Case) -> Res {
    let mut cfg = rand_cfg(rng);
    cfg.par_update = false;
    let n = cfg.dim();
    let s = rand_scales(rng, n);
    let s2 = rand_scales(rng, n);
    let mut p = Problem::new(rand_fun(rng), 0.0);
    p.neg = rng.chance(0.5);
    let gens = rng.int(1, 25);
    c.desc = format!("{:?} {:?} scales={:?} {:?} gens={}", cfg, p, s, s2, gens);
    let mul = |x: &[f64], s: &[f64]| -> Vec<f64> { x.iter().zip(s).map(|(a, b)| a * b).collect() };
    // NaN values of overflowing functions end runs at unspecified points in parallel
    let safe = |v: f64| if v.is_nan() { 7.0 } else { v };
    let cu = Custom::new(&p);
    let mut points = vec![];
    let mut inner = vec![];
    let (base, m, _) = trace_seq(
        &cfg,
        |x: &DVector<f64>| {
            points.push(x.as_slice().to_vec());
            let y = mul(x.as_slice(), &s);
            let v = safe(cu.value(&y));
            inner.push(y);
            v
        },
        gens,
    )?;
    let shared: Arc<Mutex<Vec<Vec<f64>>>> = Arc::default();
    let f = {
        let (l, cu) = (shared.clone(), cu.clone());
        move |x: &DVector<f64>| {
            l.lock().unwrap().push(x.as_slice().to_vec());
            safe(cu.value(x.as_slice()))
        }
    };
    let mut count = 0;
    let mut judge = |what: &str, t: Trace, k: usize, ordered: bool| -> Res {
        count += 1;
        let l: Vec<Vec<f64>> = shared.lock().unwrap().drain(..).collect();
        if k != m || l.len() != m {
            return Err(format!("{}: {} evaluations and {} calls instead of {}", what, k, l.len(), m));
        }
        if ordered {
            for (i, (a, b)) in l.iter().zip(&inner).enumerate() {
                if !bits_eq(a, b) {
                    return Err(format!("{}: called with {:?} for {:?} scaled by {:?}", what, a, points[i], s));
                }
            }
        } else if sorted_bits(&l) != sorted_bits(&inner) {
            return Err(format!("{}: the points differ", what));
        }
        if t != base {
            return Err(format!("{}: the run differs from that of a closure that scales", what));
        }
        Ok(())
    };
    let sc = Scale::new(f.clone(), s.clone());
    if !bits_eq(sc.scales().as_slice(), &s) {
        return Err(format!("the scales are {:?} instead of {:?}", sc.scales(), s));
    }
    let x = DVector::from_fn(n, |i, _| 0.37 * i as f64 - 1.0);
    if !bits_eq(sc.scale(&x).as_slice(), &mul(x.as_slice(), &s)) {
        return Err(format!("{:?} scaled by {:?} is {:?}", x, s, sc.scale(&x)));
    }
    let copy = sc.clone();
    let (t, k, mut back) = trace_seq(&cfg, sc, gens)?;
    judge("Scale", t, k, true)?;
    let (t, k, _) = trace_seq(&cfg, &mut back, gens)?;
    judge("&mut Scale", t, k, true)?;
    let b: Box<dyn ObjectiveFunction> = Box::new(copy.clone());
    let (t, k, _) = trace_seq(&cfg, b, gens)?;
    judge("boxed Scale", t, k, true)?;
    let b: Box<dyn ObjectiveFunction> = Box::new(f.clone());
    let (t, k, _) = trace_seq(&cfg, Scale::new(b, s.clone()), gens)?;
    judge("Scale of a box", t, k, true)?;
    let (t, k, _) = trace_par(&cfg, copy.clone(), gens)?;
    judge("parallel Scale", t, k, false)?;
    let (t, k, _) = trace_par(&cfg, &copy, gens)?;
    judge("parallel &Scale", t, k, false)?;
    let b: Box<dyn ParallelObjectiveFunction> = Box::new(f.clone());
    let (t, k, _) = trace_par(&cfg, Scale::new(b, s.clone()), gens)?;
    judge("parallel Scale of a box", t, k, false)?;
    // The wrapped function comes back
    let g = back.into_wrapped_function();
    g(&x);
    if shared.lock().unwrap().drain(..).next_back().is_none_or(|y| !bits_eq(&y, x.as_slice())) {
        return Err("the wrapped function still scales, or is another one".into());
    }
    // Nested: the outer scale applies first
    let mut twice = vec![];
    let (t1, k1, _) = trace_seq(
        &cfg,
        |x: &DVector<f64>| {
            let y = mul(&mul(x.as_slice(), &s2), &s);
            let v = safe(cu.value(&y));
            twice.push(y);
            v
        },
        gens,
    )?;
    let (t2, k2, _) = trace_seq(&cfg, Scale::new(copy.clone(), s2.clone()), gens)?;
    let l: Vec<Vec<f64>> = shared.lock().unwrap().drain(..).collect();
    if k1 != k2 || t1 != t2 || l.len() != twice.len() || !l.iter().zip(&twice).all(|(a, b)| bits_eq(a, b)) {
        return Err("nested scales differ from two multiplications".into());
    }
    c.count("scaled_runs", count + 1);
    c.count("scaled_points", 8 * inner.len() as u64);
    let mut h = Fnv::new();
    inner.iter().for_each(|x| h.fs(x));
    c.nontrivial = Some(h.get());
    Ok(())
}

fn functions(rng: &mut Rng, c: &mut Case) -> Res {
    let n = if rng.chance(0.15) { rng.int(7, 60) } else { rng.int(1, 6) };
    let mean: Vec<f64> = (0..n).map(|_| rng.range(-5.0, 5.0)).collect();
    let sigma = rng.log_range(0.05, 5.0);
    let which = rng.below(4);
    let max = which >= 2;
    let par = which % 2 == 1;
    let fun = match rng.below(6) {
        0 => Fun::Sphere,
        1 => Fun::Elli(1e3),
        2 => Fun::Rastrigin,
        3 => Fun::Step(0.5),
        4 => Fun::Const(3.0),
        _ => Fun::NegSphere,
    };
    // Diverging objectives end with TolXUp
    let neg = max != (rng.chance(0.1));
    let mut p = Problem::new(fun, 0.3);
    p.neg = neg;
    if rng.chance(0.15) {
        p.faults.nan_calls = vec![rng.int(300, 600) as u64];
    }
    c.desc = format!("{} mean {:?} sigma {} {:?}", ["fmin", "fmin_parallel", "fmax", "fmax_parallel"][which], mean, sigma, p);
    let rec = crate::sim::Rec::new();
    let mut obj = p.obj(rec.clone());
    let m = mean.clone();
    let (r, out) = capture(|| {
        guarded(|| match which {
            0 => cmaes::fmin(&mut obj, m, sigma),
            1 => cmaes::fmin_parallel(&obj, m, sigma),
            2 => cmaes::fmax(&mut obj, m, sigma),
            _ => cmaes::fmax_parallel(&obj, m, sigma),
        })
    });
    let evs = rec.take();
    let got = r.map_err(|e| format!("{} after {} evaluations", e.text(), evs.len()))?;
    let mode = if max { Mode::Maximize } else { Mode::Minimize };
    let nan = evs.iter().any(|e| e.v.is_nan());
    // The best of all calls (those of an invalid generation need not count)
    let l = default_lambda(n);
    let full = if nan { (evs.len() - 1) / l * l } else { evs.len() };
    if !nan && evs.len() % l != 0 {
        return Err(format!("{} evaluations with a population of {}", evs.len(), l));
    }
    let mut best = f64::NAN;
    for e in &evs[..full] {
        if best.is_nan() || better(mode, e.v, best) {
            best = e.v;
        }
    }
    if !(nan && par) && got.value != best {
        return Err(format!("value {:e} returned, the best evaluated is {:e}", got.value, best));
    }
    if !evs.iter().any(|e| e.v.to_bits() == got.value.to_bits() && bits_eq(&e.x, got.point.as_slice())) {
        return Err("the returned individual was not evaluated".into());
    }
    // Equal to the default options with the same seed
    let seed = match parse(&out).ok().and_then(|v| v.first().cloned()) {
        Some(Item::Header(_, _, _, s)) => s,
        _ => {
            c.count("without_seed", 1);
            return Ok(());
        }
    };
    let rec2 = crate::sim::Rec::new();
    let mut cm = CMAESOptions::new(mean, sigma)
        .mode(mode)
        .seed(seed)
        .build(p.obj(rec2.clone()))
        .map_err(|e| format!("{:?}", e))?;
    let t = if par { cm.run_parallel() } else { cm.run() };
    let evs2 = rec2.take();
    if !nan {
        let a: Vec<Vec<f64>> = evs.iter().map(|e| e.x.clone()).collect();
        let b: Vec<Vec<f64>> = evs2.iter().map(|e| e.x.clone()).collect();
        if sorted_bits(&a) != sorted_bits(&b) {
            return Err(format!("{} evaluations differ from the {} of the default options", a.len(), b.len()));
        }
    }
    let want = t.overall_best.ok_or("no best individual")?;
    if want.value.to_bits() != got.value.to_bits() || !bits_eq(want.point.as_slice(), got.point.as_slice()) {
        return Err(format!("{:?} returned instead of {:?}", got, want));
    }
    c.count("calls", evs.len() as u64);
    let mut h = Fnv::new();
    h.u64(seed);
    c.nontrivial = Some(h.get());
    Ok(())
}
