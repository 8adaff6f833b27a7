//! Workloads for the sanitizers and Miri, with oracles for thread affinity, overlap and completion of
//! the calls. Run by the check of C23 in differently instrumented builds.
//!
//! san <workload> <seed> <cases> <tiny|small|big>

use cmaes::objective_function::{ObjectiveFunction, ParallelObjectiveFunction, Scale};
use cmaes::restart::{RestartOptions, RestartStrategy, BIPOP, IPOP};
use cmaes::{CMAESOptions, Constraints, DVector, Mode, TerminationReason, Weights, CMAES};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::thread::ThreadId;
use std::time::Duration;

// ---- helpers --------------------------------------------------------------------------------

struct Rng(u64);

impl Rng {
    fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn f(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    fn below(&mut self, n: usize) -> usize {
        (self.u64() % n as u64) as usize
    }
    fn int(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    fn chance(&mut self, p: f64) -> bool {
        self.f() < p
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Size {
    Tiny,
    Small,
    Big,
}

#[derive(Default)]
struct Stats {
    counters: BTreeMap<&'static str, u64>,
    interleavings: BTreeSet<u64>,
}

impl Stats {
    fn add(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_insert(0) += n;
    }
    fn max(&mut self, k: &'static str, n: u64) {
        let e = self.counters.entry(k).or_insert(0);
        *e = n.max(*e);
    }
}

type Res = Result<(), String>;

/// What the objectives and constraints observe
struct Watch {
    owner: ThreadId,
    running: AtomicI64,
    most: AtomicI64,
    calls: AtomicU64,
    ended: AtomicU64,
    checks: AtomicU64,
    /// Exclusive calls that overlapped with others or were made on another thread
    overlaps: AtomicU64,
    foreign: AtomicU64,
    /// Drops and clones on other threads
    strayed: AtomicU64,
    drops: AtomicU64,
    log: Mutex<Vec<ThreadId>>,
    fault_at: AtomicU64,
    /// 0 none, 1 NaN, 2 panic
    fault: AtomicU64,
}

impl Watch {
    fn new() -> Arc<Watch> {
        Arc::new(Watch {
            owner: std::thread::current().id(),
            running: AtomicI64::new(0),
            most: AtomicI64::new(0),
            calls: AtomicU64::new(0),
            ended: AtomicU64::new(0),
            checks: AtomicU64::new(0),
            overlaps: AtomicU64::new(0),
            foreign: AtomicU64::new(0),
            strayed: AtomicU64::new(0),
            drops: AtomicU64::new(0),
            log: Mutex::new(vec![]),
            fault_at: AtomicU64::new(u64::MAX),
            fault: AtomicU64::new(0),
        })
    }
    fn here(&self) -> bool {
        std::thread::current().id() == self.owner
    }
    fn judge(&self, st: &mut Stats) -> Res {
        if self.overlaps.load(SeqCst) > 0 {
            return Err(format!("{} exclusive calls overlapped with other calls", self.overlaps.load(SeqCst)));
        }
        if self.foreign.load(SeqCst) > 0 {
            return Err(format!("{} exclusive calls were made on other threads", self.foreign.load(SeqCst)));
        }
        if self.strayed.load(SeqCst) > 0 {
            return Err(format!("{} objects that are not Send were dropped or cloned on other threads", self.strayed.load(SeqCst)));
        }
        let l = self.log.lock().unwrap_or_else(|e| e.into_inner());
        if !l.is_empty() {
            // Threads numbered in the order of their appearance
            let mut ids: Vec<ThreadId> = vec![];
            let mut h = 0xcbf29ce484222325u64;
            for t in l.iter() {
                let i = ids.iter().position(|x| x == t).unwrap_or_else(|| {
                    ids.push(*t);
                    ids.len() - 1
                });
                h = (h ^ i as u64).wrapping_mul(0x100000001b3);
            }
            st.interleavings.insert(h);
            st.max("threads", ids.len() as u64);
        }
        st.add("calls", self.calls.load(SeqCst));
        st.add("constraint_checks", self.checks.load(SeqCst));
        st.max("most_overlapping", self.most.load(SeqCst) as u64);
        Ok(())
    }
    /// Nothing may be running between calls
    fn quiet(&self) -> Res {
        let r = self.running.load(SeqCst);
        if r != 0 {
            return Err(format!("{} evaluations are still running", r));
        }
        Ok(())
    }
}

/// An objective with plain memory, which is written by exclusive calls and read by shared ones
struct Obj {
    w: Arc<Watch>,
    /// Written by exclusive calls
    plain: Vec<u64>,
    center: f64,
    delay: u64,
    neg: bool,
}

struct Running<'a>(&'a Watch);

impl Drop for Running<'_> {
    fn drop(&mut self) {
        self.0.running.fetch_sub(1, SeqCst);
        self.0.ended.fetch_add(1, SeqCst);
    }
}

impl Obj {
    fn new(w: &Arc<Watch>, rng: &mut Rng, delay: u64, mode: Mode) -> Obj {
        Obj {
            w: w.clone(),
            plain: vec![1; 4],
            center: rng.f() - 0.5,
            delay,
            neg: mode == Mode::Maximize,
        }
    }

    fn value(&self, x: &DVector<f64>) -> f64 {
        let w = &*self.w;
        let r = w.running.fetch_add(1, SeqCst) + 1;
        let _running = Running(w);
        w.most.fetch_max(r, SeqCst);
        let k = w.calls.fetch_add(1, SeqCst);
        if k > 3_000_000 {
            panic!("the run does not end");
        }
        {
            let mut l = w.log.lock().unwrap_or_else(|e| e.into_inner());
            if l.len() < 4096 {
                l.push(std::thread::current().id());
            }
        }
        let mut s: f64 = self.plain.iter().map(|x| *x as f64).sum::<f64>() * 1e-9;
        for (i, a) in x.iter().enumerate() {
            s += (1.0 + i as f64) * (a - self.center) * (a - self.center);
        }
        if self.delay > 0 {
            let d = s.to_bits().wrapping_mul(0x9e3779b97f4a7c15) >> 48;
            match d % 8 {
                0 => std::thread::sleep(Duration::from_micros(d % self.delay)),
                1 | 2 => std::thread::yield_now(),
                3 => {
                    for _ in 0..d % (self.delay * 8) {
                        std::hint::spin_loop();
                    }
                }
                _ => (),
            }
        }
        if k == w.fault_at.load(SeqCst) {
            match w.fault.load(SeqCst) {
                1 => return f64::NAN,
                2 => panic!("injected"),
                _ => (),
            }
        }
        if self.neg {
            -s
        } else {
            s
        }
    }
}

impl Drop for Obj {
    fn drop(&mut self) {
        if !self.w.here() {
            self.w.strayed.fetch_add(1, SeqCst);
        }
        self.plain[0] = 0;
        self.w.drops.fetch_add(1, SeqCst);
    }
}

impl ObjectiveFunction for Obj {
    fn evaluate(&mut self, x: &DVector<f64>) -> f64 {
        if !self.w.here() {
            self.w.foreign.fetch_add(1, SeqCst);
        }
        let before = self.w.running.load(SeqCst);
        // A race with every other call
        self.plain[1] = self.plain[1] % 3 + 1;
        let r = self.value(x);
        if before != 0 || self.w.running.load(SeqCst) != 0 {
            self.w.overlaps.fetch_add(1, SeqCst);
        }
        r
    }
}

impl ParallelObjectiveFunction for Obj {
    fn evaluate_parallel(&self, x: &DVector<f64>) -> f64 {
        self.value(x)
    }
}

/// Borrows the objective
struct Ref<'a>(&'a Obj);

impl ObjectiveFunction for Ref<'_> {
    fn evaluate(&mut self, x: &DVector<f64>) -> f64 {
        self.0.value(x)
    }
}

impl ParallelObjectiveFunction for Ref<'_> {
    fn evaluate_parallel(&self, x: &DVector<f64>) -> f64 {
        self.0.value(x)
    }
}

/// An objective that may only be used on its thread by one call at a time
struct Local {
    cell: Cell<u64>,
    list: RefCell<Vec<f64>>,
    raw: std::rc::Rc<Cell<u64>>,
    w: Arc<Watch>,
}

impl ObjectiveFunction for Local {
    fn evaluate(&mut self, x: &DVector<f64>) -> f64 {
        if !self.w.here() {
            self.w.foreign.fetch_add(1, SeqCst);
        }
        self.w.calls.fetch_add(1, SeqCst);
        self.cell.set(self.cell.get() + 1);
        self.raw.set(self.raw.get() + 1);
        let mut l = self.list.borrow_mut();
        l.clear();
        l.extend(x.iter());
        l.iter().map(|a| a * a).sum()
    }
}

struct Fence {
    w: Arc<Watch>,
    plain: Vec<f64>,
    panic_at: u64,
}

impl std::fmt::Debug for Fence {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "Fence")
    }
}

impl Constraints for Fence {
    fn meets_constraints(&self, x: &DVector<f64>) -> bool {
        let k = self.w.checks.fetch_add(1, SeqCst);
        if k == self.panic_at {
            panic!("injected");
        }
        if k > 3_000_000 {
            panic!("the sampling does not end");
        }
        if k % 5 == 0 {
            std::thread::yield_now();
        }
        x.iter().zip(self.plain.iter().cycle()).all(|(a, b)| a.abs() < *b)
    }
    fn clone_box(&self) -> Box<dyn Constraints> {
        if !self.w.here() {
            self.w.strayed.fetch_add(1, SeqCst);
        }
        Box::new(Fence { w: self.w.clone(), plain: self.plain.clone(), panic_at: self.panic_at })
    }
}

impl Drop for Fence {
    fn drop(&mut self) {
        if !self.w.here() {
            self.w.strayed.fetch_add(1, SeqCst);
        }
        self.plain[0] = 0.0;
    }
}

#[derive(Clone, Debug)]
struct Cfg {
    dim: usize,
    lambda: usize,
    gens: usize,
    mode: Mode,
    weights: Weights,
    par_update: bool,
    fence: bool,
    bounds: bool,
    plot: bool,
    seed: u64,
    delay: u64,
    threads: usize,
}

fn cfg(rng: &mut Rng, size: Size) -> Cfg {
    let (d, g) = match size {
        Size::Tiny => (2, 2),
        Size::Small => (12, 15),
        Size::Big => (if rng.chance(0.1) { 70 } else { 20 }, 60),
    };
    let dim = rng.int(1, d);
    let lambda = match (size, rng.below(4)) {
        (Size::Tiny, _) => rng.int(2, 5),
        (_, 0) => rng.int(2, 8),
        (Size::Big, 1) => rng.int(20, 300),
        _ => rng.int(4, 40),
    };
    Cfg {
        dim,
        lambda,
        gens: rng.int(1, g),
        mode: if rng.chance(0.5) { Mode::Minimize } else { Mode::Maximize },
        weights: [Weights::Negative, Weights::Positive, Weights::Uniform][rng.below(3)],
        par_update: rng.chance(0.6),
        fence: rng.chance(0.4),
        bounds: rng.chance(0.2),
        plot: rng.chance(0.3),
        seed: rng.u64(),
        delay: [0, 0, 5, 50, 200][rng.below(if size == Size::Tiny { 2 } else { 5 })],
        threads: if size == Size::Tiny { rng.int(1, 3) } else { [1, 2, 3, 4, 7, 8, 16][rng.below(7)] },
    }
}

fn options(c: &Cfg, w: &Arc<Watch>) -> CMAESOptions {
    let mut o = CMAESOptions::new(vec![0.3; c.dim], 0.7)
        .mode(c.mode)
        .weights(c.weights)
        .population_size(c.lambda)
        .parallel_update(c.par_update)
        .max_generations(c.gens)
        .seed(c.seed);
    if c.fence {
        o = o.constraints(Box::new(Fence { w: w.clone(), plain: vec![1.5, 2.0], panic_at: u64::MAX }));
    } else if c.bounds {
        o = o.bounds(vec![-1.0; c.dim], vec![2.0; c.dim]);
    }
    #[cfg(feature = "plot")]
    if c.plot {
        o = o.enable_plot(cmaes::PlotOptions::new(0, false));
    }
    o
}

fn pools(n: usize) -> Arc<rayon::ThreadPool> {
    static POOLS: Mutex<BTreeMap<usize, Arc<rayon::ThreadPool>>> = Mutex::new(BTreeMap::new());
    let mut p = POOLS.lock().unwrap();
    p.entry(n)
        .or_insert_with(|| Arc::new(rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap()))
        .clone()
}

/// A digest of the state
fn digest<F>(c: &CMAES<F>) -> Vec<u64> {
    let mut v: Vec<u64> = c.mean().iter().map(|x| x.to_bits()).collect();
    v.extend(c.covariance_matrix().iter().map(|x| x.to_bits()));
    v.push(c.sigma().to_bits());
    v.push(c.function_evals() as u64);
    v.push(c.generation() as u64);
    if let Some(b) = c.overall_best_individual() {
        v.extend(b.point.iter().map(|x| x.to_bits()));
        v.push(b.value.to_bits());
    }
    v
}

/// Parallel updates reduce in an order that depends on the scheduling
fn same(c: &Cfg, a: &[u64], b: &[u64]) -> bool {
    c.par_update || a == b
}

// ---- workloads ------------------------------------------------------------------------------

/// Sequential runs of an objective bound to its thread
fn local(rng: &mut Rng, size: Size, st: &mut Stats) -> Res {
    let c = cfg(rng, size);
    let w = Watch::new();
    let raw = std::rc::Rc::new(Cell::new(0));
    let f = Local { cell: Cell::new(0), list: RefCell::new(vec![]), raw: raw.clone(), w: w.clone() };
    let mut o = options(&c, &w).build(f).map_err(|e| format!("{:?}", e))?;
    let _ = o.run();
    let n = o.function_evals() as u64;
    let f = o.into_objective_function();
    if f.cell.get() != n || raw.get() != n {
        return Err(format!("{} calls were counted, {} reported", f.cell.get(), n));
    }
    w.judge(st)
}

/// Generations evaluated and updated in parallel by pools of different sizes
fn parallel(rng: &mut Rng, size: Size, st: &mut Stats) -> Res {
    let c = cfg(rng, size);
    let w = Watch::new();
    let mut o = options(&c, &w).build(Obj::new(&w, rng, c.delay, c.mode)).map_err(|e| format!("{:?}", e))?;
    for _ in 0..c.gens {
        let before = w.calls.load(SeqCst);
        let mixed = rng.chance(0.15);
        // The optimizer is not Send, so the pool is entered by the evaluation only
        let t = if mixed { o.next() } else { o.next_parallel() };
        w.quiet()?;
        let made = w.ended.load(SeqCst) - before;
        if made != c.lambda as u64 {
            return Err(format!("{} of {} evaluations had ended with the generation", made, c.lambda));
        }
        st.add("generations", 1);
        if t.is_some() {
            break;
        }
    }
    drop(o);
    if w.drops.load(SeqCst) != 1 {
        return Err(format!("{} drops", w.drops.load(SeqCst)));
    }
    w.judge(st)
}

/// Whole optimizers within pools of different sizes
fn pool(rng: &mut Rng, size: Size, st: &mut Stats) -> Res {
    let c = cfg(rng, size);
    let results: Vec<Vec<u64>> = [c.threads, 1 + rng.below(3)]
        .iter()
        .map(|n| -> Result<Vec<u64>, String> {
            let mut r2 = Rng(c.seed);
            pools(*n).install(|| {
                let w = Watch::new();
                let mut o = options(&c, &w).build(Obj::new(&w, &mut r2, c.delay, c.mode)).map_err(|e| format!("{:?}", e))?;
                let t = o.run_parallel();
                w.quiet()?;
                if t.reasons.is_empty() {
                    return Err("no reason".into());
                }
                let d = digest(&o);
                drop(o);
                let mut s = Stats::default();
                w.judge(&mut s)?;
                Ok(d)
            })
        })
        .collect::<Result<_, _>>()?;
    if !same(&c, &results[0], &results[1]) {
        return Err("the run depends on the number of threads".into());
    }
    st.add("pool_runs", 2);
    Ok(())
}

/// Optimizers that run at the same time on one objective, compared with the same runs alone
fn concurrent(rng: &mut Rng, size: Size, st: &mut Stats) -> Res {
    let k = if size == Size::Tiny { 2 } else { rng.int(2, 6) };
    let wide = size != Size::Tiny && rng.chance(0.3);
    let cs: Vec<(Cfg, bool)> = (0..k)
        .map(|_| {
            let mut c = cfg(rng, size);
            c.mode = Mode::Minimize;
            if wide {
                // Large problems only
                c.dim = rng.int(30, 140);
                c.lambda = rng.int(2, 9);
                c.gens = c.gens.min(6);
            }
            (c, rng.chance(0.7))
        })
        .collect();
    let w = Watch::new();
    let f = Obj::new(&w, rng, 20, Mode::Minimize);
    let run = |c: &Cfg, par: bool| -> Result<Vec<u64>, String> {
        let own = Watch::new();
        let mut o = options(c, &own).build(Ref(&f)).map_err(|e| format!("{:?}", e))?;
        if par {
            let _ = o.run_parallel();
        } else {
            let _ = o.run();
        }
        let d = digest(&o);
        drop(o);
        own.judge(&mut Stats::default())?;
        Ok(d)
    };
    let together: Vec<Result<Vec<u64>, String>> = std::thread::scope(|s| {
        let h: Vec<_> = cs.iter().map(|(c, p)| s.spawn(|| run(c, *p))).collect();
        h.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a concurrent run panicked".into()))).collect()
    });
    w.quiet()?;
    for ((c, p), t) in cs.iter().zip(together) {
        let alone = run(c, *p)?;
        if !same(c, &alone, &t?) {
            return Err(format!("a run changed by others at the same time: {:?}", c));
        }
        st.add("concurrent_runs", 1);
    }
    w.judge(st)
}

/// An optimizer read by several threads at the same time
fn shared(rng: &mut Rng, size: Size, st: &mut Stats) -> Res {
    let c = cfg(rng, size);
    let w = Watch::new();
    let mut o = options(&c, &w).build(Obj::new(&w, rng, 0, c.mode)).map_err(|e| format!("{:?}", e))?;
    for _ in 0..c.gens.min(4) {
        let _ = o.next_parallel();
        let want = digest(&o);
        let bad = AtomicUsize::new(0);
        let r = &o;
        std::thread::scope(|s| {
            for _ in 0..3 {
                s.spawn(|| {
                    let ok = digest(r) == want
                        && r.eigenvalues().len() == c.dim
                        && r.axis_ratio() >= 0.0
                        && r.parameters().lambda() == c.lambda
                        && r.current_best_individual().is_some()
                        && r.elapsed() >= Duration::ZERO
                        && r.generations_per_eigen_update() >= 1;
                    #[cfg(feature = "plot")]
                    let ok = ok && r.get_plot().map_or(true, |p| p.clone().len() == p.len());
                    if !ok {
                        bad.fetch_add(1, SeqCst);
                    }
                });
            }
        });
        if bad.load(SeqCst) > 0 {
            return Err("a shared optimizer is seen differently by other threads".into());
        }
        st.add("shared_reads", 3);
    }
    drop(o);
    w.judge(st)
}

/// Values that are invalid and panics in the middle of parallel evaluations
fn faults(rng: &mut Rng, size: Size, st: &mut Stats) -> Res {
    let mut c = cfg(rng, size);
    c.gens = usize::MAX;
    let w = Watch::new();
    let fence_panics = rng.chance(0.2);
    let mut opt = options(&c, &w);
    if fence_panics {
        opt = opt.constraints(Box::new(Fence { w: w.clone(), plain: vec![2.0], panic_at: rng.below(4 * c.lambda) as u64 }));
    }
    let mut o = opt.build(Obj::new(&w, rng, c.delay, c.mode)).map_err(|e| format!("{:?}", e))?;
    for _ in 0..6 {
        w.fault.store(rng.below(3) as u64, SeqCst);
        w.fault_at.store(w.calls.load(SeqCst) + rng.below(c.lambda) as u64, SeqCst);
        let par = rng.chance(0.8);
        let r = catch_unwind(AssertUnwindSafe(|| if par { o.next_parallel() } else { o.next() }));
        w.quiet().map_err(|e| format!("after a fault: {}", e))?;
        match r {
            Ok(Some(t)) if t.reasons.contains(&TerminationReason::PosDefCov) => break,
            Ok(_) => st.add("generations", 1),
            Err(p) => {
                let m = p.downcast_ref::<&str>().map(|s| s.to_string()).or(p.downcast_ref::<String>().cloned()).unwrap_or_default();
                if m != "injected" {
                    return Err(format!("panic: {}", m));
                }
                st.add("panics", 1);
            }
        }
    }
    drop(o);
    if w.drops.load(SeqCst) != 1 {
        return Err(format!("{} drops", w.drops.load(SeqCst)));
    }
    w.judge(st)
}

/// Restart strategies, also at the same time
fn restarts(rng: &mut Rng, size: Size, st: &mut Stats) -> Res {
    let k = rng.int(1, 3);
    let seeds: Vec<u64> = (0..k).map(|_| rng.u64()).collect();
    let out: Vec<Res> = std::thread::scope(|s| {
        let h: Vec<_> = seeds
            .iter()
            .map(|seed| {
                s.spawn(move || -> Res {
                    let mut rng = Rng(*seed);
                    let w = Watch::new();
                    let strategy = match rng.below(3) {
                        0 => RestartStrategy::BIPOP(BIPOP::default()),
                        1 => RestartStrategy::IPOP(IPOP::default()),
                        _ => RestartStrategy::Local(cmaes::restart::Local::new(3, None).unwrap()),
                    };
                    let d = rng.int(1, if size == Size::Tiny { 2 } else { 8 });
                    let mut o = RestartOptions::new(d, -1.0..=1.0, strategy)
                        .max_function_evals(if size == Size::Tiny { 30 } else { rng.int(100, 2000) })
                        .max_generations_per_run(if size == Size::Tiny { 2 } else { 20 })
                        .parallel_update(rng.chance(0.5))
                        .seed(*seed);
                    if rng.chance(0.4) {
                        o = o.default_options(CMAESOptions::new(vec![0.0; d], 1.0).constraints(Box::new(Fence {
                            w: w.clone(),
                            plain: vec![3.0],
                            panic_at: u64::MAX,
                        })));
                    }
                    let r = o.build().map_err(|e| format!("{:?}", e))?;
                    let f = Obj::new(&w, &mut rng, 10, Mode::Minimize);
                    let res = match rng.below(4) {
                        0 => r.run(|| Ref(&f)),
                        1 => r.run_parallel(|| Ref(&f)),
                        2 => r.run_with_reuse(Ref(&f)),
                        _ => r.run_parallel_with_reuse(Ref(&f)),
                    };
                    w.quiet()?;
                    if res.function_evals as u64 != w.calls.load(SeqCst) {
                        return Err(format!("{} evaluations reported, {} made", res.function_evals, w.calls.load(SeqCst)));
                    }
                    drop(f);
                    w.judge(&mut Stats::default())
                })
            })
            .collect();
        h.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a restarter panicked".into()))).collect()
    });
    for r in out {
        r?;
    }
    st.add("restarters", k as u64);
    Ok(())
}

/// Objectives that optimize themselves in parallel
fn nested(rng: &mut Rng, size: Size, st: &mut Stats) -> Res {
    let w = Watch::new();
    let f = Obj::new(&w, rng, 0, Mode::Minimize);
    let inner = |x: &DVector<f64>| {
        let y = x.clone();
        let mut o = CMAESOptions::new(vec![0.1; 2], 0.5)
            .max_generations(2)
            .population_size(4)
            .seed(3)
            .build(Ref(&f))
            .unwrap();
        let t = o.run_parallel();
        t.overall_best.map_or(1e9, |b| b.value) + y.norm_squared()
    };
    let mut o = CMAESOptions::new(vec![0.5; 2], 0.5)
        .max_generations(if size == Size::Tiny { 1 } else { 3 })
        .population_size(if size == Size::Tiny { 3 } else { rng.int(4, 16) })
        .seed(rng.u64())
        .parallel_update(true)
        .build(inner)
        .map_err(|e| format!("{:?}", e))?;
    let _ = o.run_parallel();
    drop(o);
    w.quiet()?;
    st.add("nested_runs", 1);
    w.judge(st)
}

/// Everything else that is public: wrappers, convenience functions, clones, rejected options
fn misc(rng: &mut Rng, size: Size, st: &mut Stats) -> Res {
    let c = cfg(rng, size);
    let w = Watch::new();
    let s = Scale::new(Obj::new(&w, rng, 0, c.mode), vec![2.0; c.dim]);
    let opt = options(&c, &w);
    let copy = opt.clone();
    let mut o = opt.build(s).map_err(|e| format!("{:?}", e))?;
    let _ = o.next_parallel();
    let _ = o.next();
    let f = o.into_objective_function();
    let _ = f.scale(&DVector::from(vec![1.0; c.dim]));
    let inner = f.into_wrapped_function();
    let b: Box<dyn ParallelObjectiveFunction> = Box::new(inner);
    let mut o = copy.build(b).map_err(|e| format!("{:?}", e))?;
    let p = o.parameters().clone();
    let _ = o.next_parallel();
    drop(o);
    if p.weights().is_empty() {
        return Err("weights".into());
    }
    if CMAESOptions::new(Vec::<f64>::new(), 1.0).build(|_: &DVector<f64>| 0.0).is_ok() {
        return Err("no dimensions".into());
    }
    if size != Size::Tiny {
        let r = cmaes::fmin(|x: &DVector<f64>| x.norm_squared(), vec![0.5; 2], 0.3);
        if !(r.point.norm() < 1.0) {
            return Err("fmin".into());
        }
    }
    #[cfg(feature = "plot")]
    if c.plot {
        let mut o = options(&c, &w).build(|x: &DVector<f64>| x.norm_squared()).map_err(|e| format!("{:?}", e))?;
        let _ = o.run();
        let dir = std::env::temp_dir().join(format!("san-{}-{}", std::process::id(), rng.u64()));
        let r = o.get_plot().unwrap().save_to_file(dir.join("p.png"), true).map_err(|e| format!("{:?}", e));
        std::fs::remove_dir_all(&dir).ok();
        r?;
        o.get_mut_plot().unwrap().clear();
        st.add("images", 1);
    }
    st.add("others", 1);
    w.judge(st)
}

/// Constraints that panic when they are cloned or dropped, or expect other dimensions
#[derive(Debug)]
struct Odd {
    data: Vec<f64>,
    clones: Arc<AtomicUsize>,
    clone_panics: usize,
}

impl Constraints for Odd {
    fn meets_constraints(&self, x: &DVector<f64>) -> bool {
        // Panics with other dimensions
        (0..self.data.len()).all(|i| x[i] <= self.data[i])
    }
    fn clone_box(&self) -> Box<dyn Constraints> {
        if self.clones.fetch_add(1, SeqCst) == self.clone_panics {
            panic!("clone");
        }
        Box::new(Odd { data: self.data.clone(), clones: self.clones.clone(), clone_panics: self.clone_panics })
    }
}

/// Uses that are mistakes: they may be rejected or panic, but not do anything undefined
fn misuse(rng: &mut Rng, size: Size, st: &mut Stats) -> Res {
    let c = cfg(rng, size);
    let n = c.dim;
    let other = |rng: &mut Rng| match rng.below(4) {
        0 => 0,
        1 => n.saturating_sub(1),
        2 => n + 1,
        _ => rng.int(0, 2 * n),
    };
    let odd = [f64::NAN, f64::INFINITY, -f64::INFINITY, 0.0, 5e-324, 1e300, -1e300, f64::MAX, 1.0, -1.0];
    let mut steps = |st: &mut Stats, rng: &mut Rng, opt: CMAESOptions, scales: Option<usize>| {
        let r = catch_unwind(AssertUnwindSafe(|| {
            let f = |x: &DVector<f64>| x.iter().map(|v| v * v).sum::<f64>();
            let scales = vec![1.5; scales.unwrap_or(n)];
            match opt.build(Scale::new(f, scales)) {
                Ok(mut o) => {
                    for _ in 0..3 {
                        let par = rng.chance(0.5);
                        let r = catch_unwind(AssertUnwindSafe(|| if par { o.next_parallel() } else { o.next() }));
                        if r.is_err() {
                            st.add("panics", 1);
                        }
                        let _ = (o.generation(), o.axis_ratio(), o.eigenvalues(), o.overall_best_individual().cloned());
                    }
                    let s = o.into_objective_function();
                    let _ = catch_unwind(AssertUnwindSafe(|| s.scale(&DVector::from_element(n + 1, 1.0))));
                }
                Err(_) => st.add("rejected", 1),
            }
        }));
        if r.is_err() {
            st.add("panics", 1);
        }
        st.add("generations", 3);
    };
    let base = |rng: &mut Rng| {
        let mut o = CMAESOptions::new(vec![0.3; n], 0.7)
            .population_size(c.lambda)
            .weights(c.weights)
            .mode(c.mode)
            .parallel_update(rng.chance(0.5))
            .max_resamples([Some(0), Some(1), Some(3)][rng.below(3)])
            .seed(c.seed);
        if rng.chance(0.3) {
            o = o.tol_stagnation(rng.below(6));
        }
        o
    };
    // Bounds of other lengths
    let (l, u) = (other(rng), other(rng));
    let o = base(rng).bounds(vec![-1.0; l], vec![2.0; u]);
    steps(st, rng, o, None);
    let o = base(rng).bounds(vec![-1e9; l], vec![1e9; n]);
    steps(st, rng, o, None);
    let o = base(rng).bounds(vec![-1e9; n], vec![1e9; u]);
    steps(st, rng, o, None);
    let b = cmaes::Bounds { lower: vec![-1.0; l], upper: vec![1.0; u] };
    let _ = catch_unwind(AssertUnwindSafe(|| b.meets_constraints(&DVector::from_element(n, 0.5))));
    // Bounds without meaning
    let o = base(rng).bounds(vec![odd[rng.below(10)]; n], vec![odd[rng.below(10)]; n]);
    steps(st, rng, o, None);
    // Scales of another length
    let k = other(rng);
    let o = base(rng);
    steps(st, rng, o, Some(k));
    // Numbers without meaning
    let mut o = base(rng);
    o.initial_mean = DVector::from_fn(n, |_, _| odd[rng.below(10)]);
    o.initial_step_size = [0.5, 1e-300, 1e300, f64::MIN_POSITIVE, f64::MAX, f64::NAN, -1.0][rng.below(7)];
    o.cm = [1.0, 0.1, f64::MIN_POSITIVE, 2.0, f64::NAN][rng.below(5)];
    o.population_size = [0, 1, 2, 3, c.lambda][rng.below(5)];
    o.tol_fun = odd[rng.below(10)];
    o.tol_x = Some(odd[rng.below(10)]);
    o.fun_target = Some(odd[rng.below(10)]);
    steps(st, rng, o, None);
    // Constraints that panic
    let o = base(rng).constraints(Box::new(Odd {
        data: vec![1.0; other(rng)],
        clones: Default::default(),
        clone_panics: rng.below(3),
    }));
    let copies: Vec<_> = (0..3).map(|_| catch_unwind(AssertUnwindSafe(|| o.clone()))).collect();
    for o in copies.into_iter().flatten() {
        steps(st, rng, o, None);
    }
    // The same by restarts
    let strategy = match rng.below(3) {
        0 => RestartStrategy::BIPOP(BIPOP::default()),
        1 => RestartStrategy::IPOP(IPOP::default()),
        _ => RestartStrategy::Local(cmaes::restart::Local::new(3, None).unwrap()),
    };
    let mut d = base(rng).bounds(vec![-9.0; other(rng)], vec![9.0; other(rng)]);
    d.population_size = [0, 2, 5, 8][rng.below(4)];
    let par = rng.chance(0.5);
    let r = catch_unwind(AssertUnwindSafe(|| {
        let r = RestartOptions::new(n, -3.0..=[-3.0, 3.0, 1e300, f64::NAN][rng.below(4)], strategy)
            .default_options(d)
            .max_generations_per_run(2)
            .max_function_evals(60)
            .seed(7)
            .build();
        match r {
            Ok(r) => {
                let f = |x: &DVector<f64>| x.iter().map(|v| v.abs()).sum::<f64>();
                let _ = if par { r.run_parallel(|| f) } else { r.run(|| f) };
            }
            Err(_) => (),
        }
    }));
    if r.is_err() {
        st.add("panics", 1);
    }
    #[cfg(feature = "plot")]
    {
        let mut o = base(rng).enable_plot(cmaes::PlotOptions::new([0, usize::MAX, 3][rng.below(3)], true));
        o.initial_mean = DVector::from_fn(n, |_, _| odd[rng.below(10)]);
        if let Ok(mut o) = o.build(|x: &DVector<f64>| x[0] * 1e300) {
            for _ in 0..4 {
                let _ = o.next();
                o.add_plot_point();
                if rng.chance(0.3) {
                    o.get_mut_plot().unwrap().clear();
                }
            }
            let p = o.get_plot().unwrap();
            // A path that cannot be created
            if p.save_to_file("/dev/null/x.png", true).is_ok() {
                return Err("saved into a file that is no folder".into());
            }
        }
    }
    st.add("misuses", 1);
    Ok(())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (what, seed, n) = (a[1].as_str(), a[2].parse::<u64>().unwrap(), a[3].parse::<usize>().unwrap());
    if what == "none" {
        return;
    }
    let size = match a[4].as_str() {
        "tiny" => Size::Tiny,
        "small" => Size::Small,
        _ => Size::Big,
    };
    if size == Size::Tiny {
        rayon::ThreadPoolBuilder::new().num_threads(2).build_global().unwrap();
    } else {
        rayon::ThreadPoolBuilder::new().num_threads(6).build_global().unwrap();
    }
    std::panic::set_hook(Box::new(|_| ()));
    let all: [(&str, fn(&mut Rng, Size, &mut Stats) -> Res); 10] = [
        ("local", local),
        ("parallel", parallel),
        ("pool", pool),
        ("concurrent", concurrent),
        ("shared", shared),
        ("faults", faults),
        ("restarts", restarts),
        ("nested", nested),
        ("misc", misc),
        ("misuse", misuse),
    ];
    let only: Option<usize> = a.get(5).and_then(|x| x.parse().ok());
    if what != "all" && all.iter().all(|(name, _)| *name != what) {
        println!("SAN-FAIL no workload {}", what);
        std::process::exit(1);
    }
    let mut st = Stats::default();
    for (name, f) in all {
        if what != "all" && what != name {
            continue;
        }
        for i in 0..n {
            if only.map_or(false, |o| o != i) {
                continue;
            }
            let mut rng = Rng(seed.wrapping_mul(1_000_003).wrapping_add((i as u64) << 20).wrapping_add(name.len() as u64 * 7 + name.as_bytes()[0] as u64));
            let r = catch_unwind(AssertUnwindSafe(|| f(&mut rng, size, &mut st)));
            let r = r.unwrap_or_else(|p| {
                let m = p.downcast_ref::<&str>().map(|s| s.to_string()).or(p.downcast_ref::<String>().cloned());
                Err(format!("panic: {}", m.unwrap_or_default()))
            });
            if let Err(m) = r {
                println!("SAN-FAIL {} {} {}", name, i, m);
                std::process::exit(1);
            }
            st.add("cases", 1);
        }
    }
    let c: Vec<String> = st.counters.iter().map(|(k, v)| format!("\"{}\": {}", k, v)).collect();
    let il: Vec<String> = st.interleavings.iter().map(|h| format!("\"{:016x}\"", h)).collect();
    println!("SAN-OK {{{}, \"interleavings\": [{}]}}", c.join(", "), il.join(", "));
}
