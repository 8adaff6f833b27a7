//! C07-C10: sampling distribution, distribution state, constraints, limits.

use cmaes::{Bounds, Constraints, DVector, TerminationReason as R, Weights};
use std::sync::{Arc, Mutex};
use std::time::Duration;

use crate::checks_a::{rich_cfg, rich_problem};
use crate::core::*;
use crate::linalg::{jacobi, Mat};
use crate::model::{dependency_error, mat};
use crate::sim::*;
use crate::util::{bits_eq, close, ks, phi, Fnv};

// ---- C07 ------------------------------------------------------------------------------------

/// Standardized sums of products, compared with zero
#[derive(Default, Clone)]
struct Acc {
    sum: f64,
    var: f64,
    n: u64,
}

impl Acc {
    fn add(&mut self, x: f64, var: f64) {
        self.sum += x;
        self.var += var;
        self.n += 1;
    }
    fn z(&self) -> f64 {
        if self.var > 0.0 {
            self.sum / self.var.sqrt()
        } else {
            0.0
        }
    }
}

/// Tests that a stream of vectors is independent standard normal
struct NormalTest {
    n: usize,
    all: Vec<f64>,
    m1: Acc,
    m2: Acc,
    m3: Acc,
    m4: Acc,
    coord_mean: Vec<Acc>,
    coord_var: Vec<Acc>,
    pairs: Vec<Acc>,
    norm_var: Acc,
    neighbour: Acc,
    neighbour_sq: Acc,
    gap2: Acc,
    generation: Acc,
    generation_sq: Acc,
    seed: Acc,
    seed_sq: Acc,
    first_last: Acc,
    gen_sum: Acc,
    gen_var: Acc,
    gen_square: Acc,
}

impl NormalTest {
    fn new(n: usize) -> Self {
        NormalTest {
            n,
            all: vec![],
            m1: Acc::default(),
            m2: Acc::default(),
            m3: Acc::default(),
            m4: Acc::default(),
            coord_mean: vec![Acc::default(); n],
            coord_var: vec![Acc::default(); n],
            pairs: vec![Acc::default(); n * n],
            norm_var: Acc::default(),
            neighbour: Acc::default(),
            neighbour_sq: Acc::default(),
            gap2: Acc::default(),
            generation: Acc::default(),
            generation_sq: Acc::default(),
            seed: Acc::default(),
            seed_sq: Acc::default(),
            first_last: Acc::default(),
            gen_sum: Acc::default(),
            gen_var: Acc::default(),
            gen_square: Acc::default(),
        }
    }

    fn cross(a: &[f64], b: &[f64], lin: &mut Acc, sq: &mut Acc) {
        for (x, y) in a.iter().zip(b) {
            lin.add(x * y, 1.0);
            sq.add((x * x - 1.0) * (y * y - 1.0), 4.0);
        }
    }

    /// A whole generation, the one before it and the same one of the run with the seed before
    fn generation(&mut self, zs: &[Vec<f64>], prev: Option<&Vec<Vec<f64>>>, other: Option<&Vec<Vec<f64>>>) {
        let n = self.n;
        for z in zs {
            for (i, a) in z.iter().enumerate() {
                let a = *a;
                let a2 = a * a;
                self.all.push(a);
                self.m1.add(a, 1.0);
                self.m2.add(a2 - 1.0, 2.0);
                self.m3.add(a2 * a, 15.0);
                self.m4.add(a2 * a2 - 3.0, 96.0);
                self.coord_mean[i].add(a, 1.0);
                self.coord_var[i].add(a2 - 1.0, 2.0);
                for j in 0..i {
                    self.pairs[i * n + j].add(a * z[j], 1.0);
                }
            }
            let nf = n as f64;
            let q: f64 = z.iter().map(|a| a * a).sum();
            self.norm_var
                .add((q - nf).powi(2) - 2.0 * nf, 8.0 * nf * nf + 48.0 * nf);
        }
        let mut unused = Acc::default();
        for w in zs.windows(2) {
            Self::cross(&w[0], &w[1], &mut self.neighbour, &mut self.neighbour_sq);
        }
        for w in zs.windows(3) {
            Self::cross(&w[0], &w[2], &mut self.gap2, &mut unused);
        }
        if zs.len() > 3 {
            let l = zs.len() - 1;
            Self::cross(&zs[0], &zs[l], &mut self.first_last, &mut unused);
        }
        // Sums over a generation: mirrored or recentred samples have too little variance
        let lf = zs.len() as f64;
        for i in 0..n {
            let s: f64 = zs.iter().map(|z| z[i]).sum();
            self.gen_sum.add(s / lf.sqrt(), 1.0);
            self.gen_var.add(s * s / lf - 1.0, 2.0);
        }
        let q: f64 = zs.iter().flatten().map(|a| a * a).sum();
        let k = lf * n as f64;
        self.gen_square
            .add((q - k).powi(2) - 2.0 * k, 8.0 * k * k + 48.0 * k);
        if let Some(p) = prev {
            for (a, b) in p.iter().zip(zs) {
                Self::cross(a, b, &mut self.generation, &mut self.generation_sq);
            }
        }
        if let Some(p) = other {
            for (a, b) in p.iter().zip(zs) {
                Self::cross(a, b, &mut self.seed, &mut self.seed_sq);
            }
        }
    }

    fn judge(&mut self) -> Res {
        let mut bad = vec![];
        // Sums of higher powers converge slowly
        let mut test = |what: String, a: &Acc, limit: f64, min: u64| {
            if a.n >= min && !(a.z().abs() <= limit) {
                bad.push(format!("{}: {:.1} standard deviations over {} values", what, a.z(), a.n));
            }
        };
        test("mean".into(), &self.m1, 6.0, 1000);
        test("variance".into(), &self.m2, 6.2, 5000);
        test("third moment".into(), &self.m3, 6.5, 20000);
        test("fourth moment".into(), &self.m4, 7.0, 50000);
        for i in 0..self.n {
            test(format!("mean of coordinate {}", i), &self.coord_mean[i], 6.2, 1000);
            test(format!("variance of coordinate {}", i), &self.coord_var[i], 6.5, 5000);
            for j in 0..i {
                test(
                    format!("correlation of the coordinates {} and {}", i, j),
                    &self.pairs[i * self.n + j],
                    // Many pairs
                    if self.n > 12 { 7.2 } else { 6.5 },
                    3000,
                );
            }
        }
        test("variance of the lengths".into(), &self.norm_var, 7.5, 20000);
        test("correlation of successive individuals".into(), &self.neighbour, 6.2, 3000);
        test("correlation of the squares of successive individuals".into(), &self.neighbour_sq, 7.0, 20000);
        test("correlation of individuals two apart".into(), &self.gap2, 6.2, 3000);
        test("correlation of the first and last individual".into(), &self.first_last, 6.5, 3000);
        test("correlation of successive generations".into(), &self.generation, 6.2, 3000);
        test("correlation of the squares of successive generations".into(), &self.generation_sq, 7.0, 20000);
        test("correlation of adjacent seeds".into(), &self.seed, 6.2, 3000);
        test("correlation of the squares of adjacent seeds".into(), &self.seed_sq, 7.0, 20000);
        test("sums over generations".into(), &self.gen_sum, 6.2, 1000);
        test("variance of the sums over generations".into(), &self.gen_var, 6.5, 5000);
        test("variance of the sums of squares over generations".into(), &self.gen_square, 7.5, 8000);
        let n = self.all.len() as f64;
        for t in [2.0, 3.0, 4.0] {
            let p = 2.0 * phi(-t);
            if n * p > 20.0 {
                let k = self.all.iter().filter(|x| x.abs() > t).count() as f64;
                let z = (k - n * p) / (n * p * (1.0 - p)).sqrt();
                // Few events are not normally distributed
                if z.abs() > if n * p > 1000.0 { 6.0 } else { 7.5 } {
                    bad.push(format!("values beyond {}: {} instead of {:.0}", t, k, n * p));
                }
            }
        }
        let d = ks(&mut self.all, phi);
        if d > 3.3 {
            bad.push(format!("marginal distribution: Kolmogorov-Smirnov statistic {:.2}", d));
        }
        if bad.is_empty() {
            Ok(())
        } else {
            Err(format!("the standardized samples are not independent standard normal: {}", bad.join("; ")))
        }
    }
}

/// Follows the matrix that is used for sampling
struct Follow {
    n: usize,
    eig: Vec<f64>,
    ce: Mat,
    isq: Mat,
    ok: bool,
}

impl Follow {
    fn new(s: &Snap) -> Self {
        let n = s.mean.len();
        Follow {
            n,
            eig: s.eig.clone(),
            ce: Mat::identity(n),
            isq: Mat::identity(n),
            ok: true,
        }
    }
    fn update(&mut self, s: &Snap) {
        if bits_eq(&self.eig, &s.eig) {
            return;
        }
        self.eig = s.eig.clone();
        self.ce = mat(self.n, &s.cov);
        let e = jacobi(&self.ce);
        self.ok = self.ce.is_finite()
            && e.values[0] > 0.0
            && e.values[self.n - 1] / e.values[0] < 1e8
            // The error may be as large as the shortest axes
            && dependency_error(self.n, &s.cov) * (e.values[self.n - 1] / e.values[0]) < 1e-3;
        if self.ok {
            self.isq = e.inv_sqrt();
        }
    }
}

fn standardize(f: &Follow, prev: &Snap, g: &Gen) -> Option<Vec<Vec<f64>>> {
    if !f.ok || !(prev.sigma > 1e-200 && prev.sigma < 1e200) {
        return None;
    }
    let xmax = prev.mean.iter().fold(0.0f64, |a, b| a.max(b.abs()));
    if xmax > 1e5 * prev.sigma * f.ce.max_abs().sqrt() {
        return None;
    }
    Some(
        g.evs
            .iter()
            .map(|e| {
                let y: Vec<f64> = e
                    .x
                    .iter()
                    .zip(&prev.mean)
                    .map(|(x, m)| (x - m) / prev.sigma)
                    .collect();
                f.isq.mulv(&y)
            })
            .collect(),
    )
}

pub fn c07(ctx: &Ctx) {
    ctx.rule("normal: the points of many runs with consecutive seeds are standardized with the harness's own inverse square root of the matrix in use; moments, tails, marginals (Kolmogorov-Smirnov), coordinate, individual, generation, seed correlations and generation sums are tested with thresholds of at least 6 standard deviations; each case is one configuration with its own sample; non-trivial if over 50000 values were tested");
    let target = if ctx.thorough() { 3_000_000 } else { 200_000 };
    ctx.cases("normal", ctx.n(48, 240), |rng, c| {
        let n = [1, 2, 3, 5, 8, 12][c.idx as usize % 6];
        let variant = (c.idx / 6) % 4;
        let mut cfg = rand_cfg_dim(rng, n);
        cfg.par_update = variant >= 2;
        let api = if variant % 2 == 1 { Api::Par } else { Api::Seq };
        if rng.chance(0.3) {
            cfg.lambda = Some(rng.int(20, 100));
        }
        if rng.chance(0.3) {
            cfg.cons = Some(Feas::Always);
        }
        let fun = match rng.below(4) {
            0 | 1 => Fun::Noise,
            2 => Fun::Linear,
            _ => Fun::Elli(100.0),
        };
        let p = Problem::new(fun, 0.0);
        let gens = *rng.pick(&[1, 10, 40, 100]);
        let base = rng.u64();
        c.desc = format!("{:?} {:?} {:?} gens={} seeds from {}", cfg, p, api, gens, base);
        let mut t = NormalTest::new(n);
        let mut other: Vec<Option<Vec<Vec<f64>>>> = vec![];
        let mut seeds = 0u64;
        while t.all.len() < target && seeds < 20_000 {
            cfg.seed = Some(base.wrapping_add(seeds));
            seeds += 1;
            let mut s = Sim::new(&cfg, &p)?;
            let mut f = Follow::new(&s.last);
            let mut own: Vec<Option<Vec<Vec<f64>>>> = vec![];
            for i in 0..gens {
                let prev = s.last.clone();
                let g = s.step(api);
                let zs = standardize(&f, &prev, &g);
                if let Some(zs) = &zs {
                    let before = if i > 0 { own[i - 1].as_ref() } else { None };
                    t.generation(zs, before, other.get(i).and_then(|x| x.as_ref()));
                    c.count("generations", 1);
                }
                own.push(zs);
                if g.has(R::PosDefCov) {
                    break;
                }
                f.update(&g.snap);
            }
            other = own;
        }
        c.count("values", t.all.len() as u64);
        c.count("seeds", seeds);
        if t.all.len() > 50_000 {
            c.nontrivial = Some(base);
        }
        t.judge()
    });
    ctx.rule("wide: the same in 13 to 160 dimensions or with large populations for the first generations, where in addition the flattened sequence of values shows no correlation at lags up to 300 and no absolute value occurs twice in a generation");
    ctx.cases("wide", ctx.n(8, 60), |rng, c| {
        let n = match c.idx % 4 {
            0 => rng.int(13, 30),
            1 => rng.int(31, 70),
            2 => rng.int(71, 160),
            _ => rng.int(1, 6),
        };
        let mut cfg = rand_cfg_dim(rng, n);
        // The points of the first generation are the standardized values themselves
        cfg.mean = vec![0.0; n];
        cfg.sigma = 2f64.powi(rng.int(0, 40) as i32 - 20);
        cfg.par_update = rng.chance(0.5);
        cfg.lambda = Some(if n < 13 { rng.int(100, 1500) } else { rng.int(4, 300) });
        cfg.cons = if rng.chance(0.3) { Some(Feas::Always) } else { None };
        let api = *rng.pick(&[Api::Seq, Api::Par]);
        let p = Problem::new(Fun::Noise, 0.0);
        let gens = if n < 71 { rng.int(1, 4) } else { 1 };
        let base = rng.u64();
        c.desc = format!("{:?} {:?} gens={} seeds from {}", cfg, api, gens, base);
        let mut t = NormalTest::new(n);
        let mut lags = vec![Acc::default(); 300];
        let mut other: Vec<Option<Vec<Vec<f64>>>> = vec![];
        let target = (if ctx.thorough() { 12_000 } else { 4_000 }) * n.max(20);
        let mut seeds = 0u64;
        while t.all.len() < target && seeds < 20_000 {
            cfg.seed = Some(base.wrapping_add(seeds));
            seeds += 1;
            let mut s = Sim::new(&cfg, &p)?;
            let mut f = Follow::new(&s.last);
            let mut own: Vec<Option<Vec<Vec<f64>>>> = vec![];
            for i in 0..gens {
                let prev = s.last.clone();
                let g = s.step(api);
                let zs = standardize(&f, &prev, &g);
                if let Some(zs) = &zs {
                    let before = if i > 0 { own[i - 1].as_ref() } else { None };
                    t.generation(zs, before, other.get(i).and_then(|x| x.as_ref()));
                    c.count("generations", 1);
                    let flat: Vec<f64> = zs.iter().flatten().cloned().collect();
                    // Parallel evaluation does not tell the order of the points
                    if api == Api::Seq {
                        for (l, a) in lags.iter_mut().enumerate() {
                            for k in l + 1..flat.len() {
                                a.add(flat[k] * flat[k - l - 1], 1.0);
                            }
                        }
                    }
                    if i == 0 {
                        let mut b: Vec<u64> = flat.iter().map(|x| x.abs().to_bits()).collect();
                        b.sort_unstable();
                        let same = b.windows(2).filter(|w| w[0] == w[1]).count();
                        if same > 2 {
                            return Err(format!(
                                "{} absolute values of {} occur more than once in a generation (seed {})",
                                same,
                                flat.len(),
                                base.wrapping_add(seeds - 1)
                            ));
                        }
                    }
                }
                own.push(zs);
                if g.has(R::PosDefCov) {
                    break;
                }
                f.update(&g.snap);
            }
            other = own;
        }
        c.count("values", t.all.len() as u64);
        c.count("seeds", seeds);
        if t.all.len() > 20_000 {
            c.nontrivial = Some(base);
        }
        for (l, a) in lags.iter().enumerate() {
            if a.n > 3000 && a.z().abs() > 6.8 {
                return Err(format!(
                    "values {} apart in the sequence are correlated: {:.1} standard deviations over {} values",
                    l + 1,
                    a.z(),
                    a.n
                ));
            }
        }
        t.judge()
    });
    ctx.rule("repeats: one optimizer in one dimension used for millions of points, with small to huge populations and a step size kept in bounds by the objective; the standardized values never repeat in sequence (pairs of consecutive absolute values in a grid of 1e-8), and their moments and the correlation with the value before stay normal in every block of 200000; non-trivial if more than 1000000 values were compared");
    ctx.cases_on(4, "repeats", ctx.n(1, 12).max(4), |rng, c| {
        use std::sync::atomic::{AtomicBool, Ordering};
        let l = match c.idx % 4 {
            0 => rng.int(10, 50),
            1 => rng.int(300, 2000),
            2 => rng.int(20_000, 100_000),
            _ => rng.int(200_000, 500_000),
        };
        let total = if ctx.thorough() { 12_000_000 } else { 2_600_000 };
        let seed = rng.u64();
        let par = rng.chance(0.5);
        c.desc = format!("lambda={} seed={} parallel_update={}", l, seed, par);
        let grow = Arc::new(AtomicBool::new(false));
        let pts = Arc::new(Mutex::new(Vec::with_capacity(l)));
        let (g2, p2) = (grow.clone(), pts.clone());
        let mut o = cmaes::CMAESOptions::new(vec![0.0], 1.0);
        o.population_size = l;
        o.weights = Weights::Positive;
        o.seed = Some(seed);
        o.parallel_update = par;
        let mut s = o
            .build(move |x: &DVector<f64>| {
                p2.lock().unwrap().push(x[0]);
                // Towards the origin or away from it
                if g2.load(Ordering::Relaxed) { -x[0].abs() } else { x[0].abs() }
            })
            .map_err(|e| format!("{:?}", e))?;
        let mut pairs = std::collections::HashSet::new();
        let mut same = 0u64;
        let (mut n, mut skipped) = (0u64, 0u64);
        let mut before = f64::NAN;
        // Sums of the block
        let (mut k, mut sums) = (0u64, [0.0f64; 4]);
        while n + skipped < total {
            beat();
            let (m, sd, sigma) = (s.mean()[0], s.eigenvalues()[0].sqrt(), s.sigma());
            let _ = s.next();
            let len = sigma * sd;
            let xs: Vec<f64> = pts.lock().unwrap().drain(..).collect();
            if !(len > 1e-5 * m.abs() && len > 1e-200 && len < 1e200) {
                skipped += xs.len() as u64;
                before = f64::NAN;
            } else {
                for x in &xs {
                    let z = (x - m) / len;
                    n += 1;
                    if before.is_finite() {
                        let key = ((z.abs() / 1e-8).round() as u64) << 32 ^ (before.abs() / 1e-8).round() as u64;
                        if !pairs.insert(key) {
                            same += 1;
                        }
                        sums[3] += z * before;
                    }
                    before = z;
                    k += 1;
                    sums[0] += z;
                    sums[1] += z * z;
                    sums[2] += z * z * z * z;
                    if k == 200_000 {
                        let kf = k as f64;
                        for (what, v, var) in [
                            ("mean", sums[0] / kf, 1.0),
                            ("variance", sums[1] / kf - 1.0, 2.0),
                            ("fourth moment", sums[2] / kf - 3.0, 96.0),
                            ("correlation", sums[3] / kf, 1.0),
                        ] {
                            let d = v / (var / kf).sqrt();
                            if d.abs() > 7.5 {
                                return Err(format!("the {} of the values before evaluation {} is off by {:.1} standard deviations", what, n + skipped, d));
                            }
                        }
                        k = 0;
                        sums = [0.0; 4];
                    }
                }
            }
            grow.store(len < 1.0, Ordering::Relaxed);
            if same >= 20 {
                return Err(format!("random values are repeated after {} evaluations ({} of {} pairs)", n + skipped, same, n));
            }
        }
        c.count("repeat_values", n);
        c.count("repeat_skipped", skipped);
        c.count("repeat_pairs_by_chance", same);
        if n > 1_000_000 {
            c.nontrivial = Some(seed);
        }
        Ok(())
    });
    ctx.rule("truncated: with a half space as constraint and unlimited resampling, the probability integral transform of the constrained direction of every individual must be uniform, the other directions of the first generation standard normal, and both independent of the position in the generation");
    ctx.cases("truncated", ctx.n(24, 120), |rng, c| {
        let n = [1, 2, 3, 6][c.idx as usize % 4];
        let mut cfg = rand_cfg_dim(rng, n);
        cfg.par_update = (c.idx / 4) % 2 == 1;
        let api = *rng.pick(&[Api::Seq, Api::Par]);
        for m in cfg.mean.iter_mut() {
            *m = rng.range(-1.0, 1.0);
        }
        let t0 = *rng.pick(&[-1.0, 0.0, 0.5, 1.3, 1.8]);
        let a = cfg.mean[0] + cfg.sigma * t0;
        cfg.cons = Some(Feas::Half(a));
        cfg.max_resamples = Some(None);
        let p = Problem::new(Fun::Noise, 0.0);
        let gens = *rng.pick(&[1, 1, 20]);
        let base = rng.u64();
        c.desc = format!("{:?} {:?} gens={} seeds from {}", cfg, api, gens, base);
        let (mut pit, mut rest) = (vec![], NormalTest::new(n.max(2) - 1));
        let (mut front, mut back) = (Acc::default(), Acc::default());
        let (mut near, mut sums) = (Acc::default(), Acc::default());
        let mut seeds = 0;
        let target = if ctx.thorough() { 600_000 } else { 60_000 };
        while pit.len() < target && seeds < 60_000 {
            cfg.seed = Some(base.wrapping_add(seeds));
            seeds += 1;
            let mut s = Sim::new(&cfg, &p)?;
            let mut f = Follow::new(&s.last);
            for i in 0..gens {
                let prev = s.last.clone();
                let sd = prev.sigma * f.ce.at(0, 0).sqrt();
                let t = (a - prev.mean[0]) / sd;
                if !f.ok || !(phi(-t) > 0.02) || !(sd > 1e-5 * prev.mean[0].abs()) {
                    break;
                }
                let g = s.step(api);
                let l = g.evs.len();
                let (mut sum, mut last) = (0.0, None);
                for (k, e) in g.evs.iter().enumerate() {
                    let u = (e.x[0] - prev.mean[0]) / sd;
                    let q = 1.0 - phi(-u) / phi(-t);
                    pit.push(q);
                    sum += q - 0.5;
                    if let Some(r) = last.replace(q) {
                        near.add((q - 0.5) * (r - 0.5), 1.0 / 144.0);
                    }
                    // Variance of a uniform value
                    if k < l / 2 {
                        front.add(q - 0.5, 1.0 / 12.0);
                    } else {
                        back.add(q - 0.5, 1.0 / 12.0);
                    }
                }
                // The variance of the square is at most that of a normal value
                sums.add(sum * sum * 12.0 / l as f64 - 1.0, 2.0);
                if i == 0 && n > 1 {
                    let zs: Vec<Vec<f64>> = g
                        .evs
                        .iter()
                        .map(|e| (1..n).map(|i| (e.x[i] - prev.mean[i]) / prev.sigma).collect())
                        .collect();
                    rest.generation(&zs, None, None);
                }
                if g.has(R::PosDefCov) {
                    break;
                }
                f.update(&g.snap);
            }
        }
        c.count("values", pit.len() as u64);
        c.count("seeds", seeds);
        if pit.len() > 5_000 {
            c.nontrivial = Some(base);
        }
        if front.z().abs() > 6.2 || back.z().abs() > 6.2 {
            return Err(format!(
                "the constrained coordinate is biased: {:.1} and {:.1} standard deviations in the first and second half of the generation",
                front.z(),
                back.z()
            ));
        }
        if (near.n > 3000 && near.z().abs() > 6.5) || (sums.n > 2000 && sums.z().abs() > 6.8) {
            return Err(format!(
                "the constrained coordinate is not independent: {:.1} standard deviations between successive individuals, {:.1} for the variance of the sum over a generation",
                near.z(),
                sums.z()
            ));
        }
        if pit.len() > 1000 {
            let d = ks(&mut pit, |x| x.clamp(0.0, 1.0));
            if d > 3.3 {
                return Err(format!(
                    "the constrained coordinate does not follow the truncated normal distribution: Kolmogorov-Smirnov statistic {:.2} of {} values",
                    d,
                    pit.len()
                ));
            }
        }
        if n > 1 {
            rest.judge().map_err(|e| format!("unconstrained directions: {}", e))?;
        }
        Ok(())
    });
}

// ---- C08 ------------------------------------------------------------------------------------

pub fn c08(ctx: &Ctx) {
    ctx.rule("state: after every generation of random runs (long, ill-conditioned, invalid values, past termination) symmetry, sign and finiteness are checked, and the reported eigenvalues are compared with the harness's own Jacobi eigenvalues of the covariance matrix as of the latest refresh; non-trivial if at least 3 refreshes were compared");
    ctx.cases("state", ctx.n(900, 20000), |rng, c| {
        let mut cfg = rich_cfg(rng);
        if rng.chance(0.1) {
            cfg.sigma = *rng.pick(&[f64::MIN_POSITIVE, 1e-100, 1e100, 1e300]);
        }
        if rng.chance(0.1) {
            cfg.mean.iter_mut().for_each(|m| *m *= 1e10);
        }
        let mut p = rich_problem(rng);
        if rng.chance(0.2) {
            p = Problem::new(
                match rng.below(3) {
                    0 => Fun::Elli(1e12),
                    1 => Fun::Cigar,
                    _ => Fun::Discus,
                },
                0.0,
            );
            p.neg = cfg.mode == cmaes::Mode::Maximize;
        }
        let api = rand_api(rng);
        let gens = (if ctx.thorough() { 3 } else { 1 })
            * match rng.below(8) {
                0 => rng.int(500, 2000),
                1..=3 => rng.int(100, 400),
                _ => rng.int(5, 100),
            };
        let (mut gens, mut api) = (gens, api);
        if c.idx % 100 == 50 {
            (cfg, p, gens) = long_case(rng);
            api = ApiMode::Seq;
            c.count("long_runs", 1);
        }
        if c.idx % 80 == 30 {
            let n = rng.int(40, 160);
            cfg = Cfg::new((0..n).map(|_| rng.range(-3.0, 3.0)).collect(), rng.log_range(1e-3, 1e3));
            cfg.seed = Some(rng.u64());
            cfg.par_update = rng.chance(0.3);
            cfg.weights = *rng.pick(&[Weights::Positive, Weights::Negative, Weights::Uniform]);
            if rng.chance(0.5) {
                cfg.lambda = Some(rng.int(4, 600));
            }
            p = Problem::new(rand_smooth(rng), 0.3);
            gens = rng.int(5, 60);
            c.count("wide_runs", 1);
        }
        c.desc = format!("{:?} {:?} {:?} gens={}", cfg, p, api, gens);
        let n = cfg.dim();
        let mut s = Sim::new(&cfg, &p)?;
        {
            let i = &s.last;
            let id: Vec<f64> = (0..n * n).map(|k| if k % (n + 1) == 0 { 1.0 } else { 0.0 }).collect();
            if i.generation != 0
                || i.evals != 0
                || !bits_eq(&i.mean, &cfg.mean)
                || i.sigma.to_bits() != cfg.sigma.to_bits()
                || i.cov != id
                || i.eig != vec![1.0; n]
                || i.axis != 1.0
            {
                return Err(format!("wrong initial state {:?}", i));
            }
            if s.cm.elapsed() > Duration::from_secs(3600) {
                return Err("wrong age of a new optimizer".into());
            }
        }
        let interval = s.par.eigen_interval();
        let mut last_refresh = 0;
        let mut h = Fnv::new();
        let mut refreshes = 0;
        for _ in 0..gens {
            let prev = s.last.clone();
            let g = s.step(api.pick(rng));
            let t = &g.snap;
            let finite = t.cov.iter().all(|x| x.is_finite()) && t.sigma.is_finite()
                && prev.cov.iter().all(|x| x.is_finite());
            if g.has(R::PosDefCov) {
                if finite && !bits_eq(&t.cov, &prev.cov) {
                    let e = jacobi(&mat(n, &t.cov));
                    if e.values[0] > 1e-12 * e.values[n - 1].abs() {
                        return Err(format!(
                            "generation {}: a positive definite matrix with the eigenvalues {:?} was reported as indefinite",
                            t.generation, e.values
                        ));
                    }
                    c.count("indefinite_matrices_confirmed", 1);
                    if cfg.weights != Weights::Negative {
                        c.count("indefinite_without_negative_weights", 1);
                    }
                }
                break;
            }
            if !g.complete() {
                continue;
            }
            // Overflow leaves the domain of the statement
            if !finite || t.sigma > 1e300 || t.cov.iter().any(|x| x.abs() > 1e300) {
                c.count("overflows", 1);
                break;
            }
            for i in 0..n {
                for j in 0..i {
                    if t.cov[i * n + j].to_bits() != t.cov[j * n + i].to_bits() {
                        return Err(format!(
                            "generation {}: the covariance matrix is not symmetric: {:e} and {:e}",
                            t.generation, t.cov[i * n + j], t.cov[j * n + i]
                        ));
                    }
                }
            }
            if !(t.sigma >= 0.0) {
                return Err(format!("generation {}: step size {:e}", t.generation, t.sigma));
            }
            if t.eig.iter().any(|x| !(*x > 0.0)) {
                return Err(format!("generation {}: eigenvalues {:?}", t.generation, t.eig));
            }
            let matches_now = || -> Res {
                let e = jacobi(&mat(n, &t.cov));
                let mut a = t.eig.clone();
                a.sort_by(|x, y| x.partial_cmp(y).unwrap());
                let top = e.values[n - 1].abs();
                // A matrix of this size loses eigenvalues to underflow
                let tol = 1e-11 * top + 1e-300;
                for i in 0..n {
                    if !((a[i] - e.values[i]).abs() <= tol) {
                        return Err(format!(
                            "the eigenvalue {:e} is reported for the covariance matrix, which has {:e}",
                            a[i], e.values[i]
                        ));
                    }
                }
                Ok(())
            };
            if t.evals >= last_refresh + interval {
                matches_now().map_err(|e| {
                    format!(
                        "generation {}, {} evaluations after the previous refresh (interval {}): {}",
                        t.generation,
                        t.evals - last_refresh,
                        interval,
                        e
                    )
                })?;
                last_refresh = t.evals;
                refreshes += 1;
            } else if !bits_eq(&t.eig, &prev.eig) {
                matches_now().map_err(|e| format!("generation {}: {}", t.generation, e))?;
                last_refresh = t.evals;
                refreshes += 1;
            }
            let hi = t.eig.iter().cloned().fold(0.0f64, f64::max);
            let lo = t.eig.iter().cloned().fold(f64::INFINITY, f64::min);
            if lo > 1e-290 && !close(t.axis, (hi / lo).sqrt(), 1e-9, 0.0) {
                return Err(format!(
                    "generation {}: the axis ratio is {:e}, the extreme eigenvalues are {:e} and {:e}",
                    t.generation, t.axis, lo, hi
                ));
            }
            c.count("generations", 1);
            t.hash(&mut h);
        }
        c.count("refreshes", refreshes);
        if refreshes >= 3 {
            c.nontrivial = Some(h.get());
        }
        Ok(())
    });
}

// ---- C09 ------------------------------------------------------------------------------------

fn key(x: &[f64]) -> Vec<u64> {
    x.iter().map(|a| a.to_bits()).collect()
}

/// Compares one generation's constraint checks and evaluated points
fn judge_resampling(c: &mut Case, l: usize, limit: Option<usize>, g: &Gen) -> Result<u64, String> {
    use std::collections::HashMap;
    let mut evaluated: HashMap<Vec<u64>, i64> = HashMap::new();
    for e in &g.evs {
        *evaluated.entry(key(&e.x)).or_default() += 1;
    }
    let total = g.evs.len();
    if total != l {
        return Err(format!("{} points were evaluated for a population of {}", total, l));
    }
    let mut pos = 0;
    let mut missing = l;
    let mut round = 0;
    let mut kept = 0usize;
    while missing > 0 && limit.is_none_or(|k| round < k) {
        if pos + missing > g.cons.len() {
            return Err(format!(
                "round {}: {} points are missing, but the constraints were checked for {} more points only",
                round,
                missing,
                g.cons.len() - pos
            ));
        }
        let mut ok = 0;
        for (x, feasible) in &g.cons[pos..pos + missing] {
            if *feasible {
                ok += 1;
                let e = evaluated.entry(key(x)).or_default();
                *e -= 1;
                if *e < 0 {
                    return Err(format!("the feasible point {:?} was not evaluated", x));
                }
            }
        }
        pos += missing;
        missing -= ok;
        kept += ok;
        round += 1;
    }
    if pos < g.cons.len() {
        // Checks of points that are used anyway do no harm
        let harmless = limit.is_some()
            && g.cons[pos..].iter().all(|(x, _)| g.evs.iter().any(|e| bits_eq(&e.x, x)));
        if !harmless {
            return Err(format!(
                "{} points were checked after {} rounds, although {} points were missing",
                g.cons.len() - pos,
                round,
                missing
            ));
        }
    }
    c.count("rounds", round as u64);
    c.count("constraint_checks", g.cons.len() as u64);
    c.count("feasible_points_kept", kept as u64);
    c.count("points_used_unchecked", missing as u64);
    Ok(round as u64)
}

pub fn c09(ctx: &Ctx) {
    ctx.rule("rounds: recording constraints (boxes, half spaces, balls, pseudo-random sets, never met) with and without resample limits; each generation's log of constraint checks is replayed in rounds and matched bit by bit with the evaluated points; non-trivial if some generation needed two rounds or used unchecked points");
    ctx.cases("rounds", ctx.n(1200, 25000), |rng, c| {
        let mut cfg = rand_cfg(rng);
        let mut f = rand_feas(rng, &cfg);
        cfg.max_resamples = match rng.below(5) {
            0 => None,
            1 if rng.chance(0.3) => {
                Some(Some(*rng.pick(&[usize::MAX, usize::MAX - 1, 1 << 40, 1 << 32, 1 << 31, 1 << 16])))
            }
            1 => Some(None),
            2 => Some(Some(rng.below(3))),
            3 => Some(Some(rng.int(1, 20))),
            _ => Some(Some(rng.int(1, 3))),
        };
        // The default is a limit of 10
        let limit = cfg.max_resamples.unwrap_or(Some(10));
        let unlimited = limit.is_none_or(|k| k > 60_000);
        if !unlimited && rng.chance(0.15) {
            f = Feas::Never;
        }
        cfg.cons = Some(f.clone());
        // The optimum lies inside or outside
        let mut p = Problem::new(rand_fun(rng), rng.range(-3.0, 3.0));
        p.neg = cfg.mode == cmaes::Mode::Maximize;
        let api = rand_api(rng);
        let mut gens = if unlimited { rng.int(3, 25) } else { rng.int(3, 80) };
        if c.idx % 200 == 70 {
            cfg.lambda = Some(rng.int(500, 5000));
            gens = rng.int(2, 4);
        }
        c.desc = format!("{:?} {:?} {:?} gens={}", cfg, p, api, gens);
        let mut s = Sim::new(&cfg, &p)?;
        let l = cfg.lambda();
        let mut interesting = false;
        let mut h = Fnv::new();
        for i in 0..gens {
            let g = s.step(api.pick(rng));
            if g.panic.is_some() || !g.complete() {
                return Err("unexpected failure".into());
            }
            let r = judge_resampling(c, l, limit, &g).map_err(|e| format!("generation {}: {}", i, e))?;
            if limit.is_none() {
                if let Some(e) = g.evs.iter().find(|e| !f.ok(&e.x)) {
                    return Err(format!(
                        "generation {}: the point {:?}, which violates the constraints, was evaluated",
                        i, e.x
                    ));
                }
            } else if g.evs.iter().any(|e| !f.ok(&e.x)) {
                c.count("generations_with_infeasible_points", 1);
                interesting = true;
            }
            interesting |= r >= 2;
            c.count("generations", 1);
            g.snap.hash(&mut h);
            if g.has(R::PosDefCov) {
                break;
            }
            // Unlimited resampling must stay affordable
            if limit.is_none() && g.cons.len() > 3000 * l {
                break;
            }
            // With lost precision all points coincide with the mean
            if !(g.snap.sigma > 1e-12 && g.snap.sigma < 1e12) && limit.is_none() {
                break;
            }
        }
        if interesting {
            c.nontrivial = Some(h.get());
        }
        Ok(())
    });

    ctx.rule("bounds: the Bounds type agrees with the inclusive definition on random, boundary, adjacent and special points in every coordinate, and runs with bounds evaluate only points within them");
    ctx.cases("bounds", ctx.n(2000, 40000), |rng, c| {
        let n = rng.int(1, 8);
        let (mut l, mut u) = (vec![], vec![]);
        for _ in 0..n {
            let a = *rng.pick(&[0.0, -0.0, 1.0, -1.0, 1e-300, 1e300, 3.7, -2e-5]);
            let b = a + *rng.pick(&[0.0, 0.0, 1.0, 1e-9, 5.0]);
            l.push(if rng.chance(0.15) { f64::NEG_INFINITY } else { a });
            u.push(if rng.chance(0.15) { f64::INFINITY } else { b });
        }
        let bounds = Bounds {
            lower: l.clone(),
            upper: u.clone(),
        };
        let next = |x: f64, up: bool| -> f64 {
            if x == 0.0 {
                return if up { f64::from_bits(1) } else { -f64::from_bits(1) };
            }
            let b = x.to_bits();
            f64::from_bits(if (x > 0.0) == up { b + 1 } else { b - 1 })
        };
        let mut h = Fnv::new();
        for _ in 0..20 {
            let x: Vec<f64> = (0..n)
                .map(|i| {
                    let fin = |x: f64| if x.is_finite() { x } else { 0.0 };
                    match rng.below(14) {
                        0..=3 => l[i],
                        4..=7 => u[i],
                        8 => next(fin(l[i]), false),
                        9 => next(fin(u[i]), true),
                        10 => fin(l[i]) / 2.0 + fin(u[i]) / 2.0,
                        11 => next(fin(l[i]), true),
                        12 => *rng.pick(&[f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0]),
                        _ => rng.range(-10.0, 10.0),
                    }
                })
                .collect();
            let exp = (0..n).all(|i| l[i] <= x[i] && x[i] <= u[i]);
            let v = DVector::from_vec(x.clone());
            for (what, got) in [
                ("Bounds", bounds.meets_constraints(&v)),
                ("a copy of Bounds", bounds.clone_box().meets_constraints(&v)),
            ] {
                if got != exp {
                    c.desc = format!("lower {:?} upper {:?}", l, u);
                    return Err(format!("{} judges {:?} as {}", what, x, got));
                }
            }
            c.count(if exp { "points_inside" } else { "points_outside" }, 1);
            h.fs(&x);
        }
        c.nontrivial = Some(h.get());
        Ok(())
    });
    ctx.cases("bounded_runs", ctx.n(400, 8000), |rng, c| {
        let mut cfg = rand_cfg(rng);
        let n = cfg.dim();
        let (mut l, mut u) = (vec![], vec![]);
        for i in 0..n {
            let k = (n as f64).sqrt() * cfg.sigma;
            l.push(if rng.chance(0.3) { f64::NEG_INFINITY } else { cfg.mean[i] - k * rng.range(0.0, 2.0) });
            u.push(if rng.chance(0.3) { f64::INFINITY } else { cfg.mean[i] + k * rng.range(0.3, 2.0) });
        }
        let f = Feas::Box(l, u);
        cfg.cons = Some(f.clone());
        cfg.plain_bounds = true;
        // With a limit that is practically never used up nothing changes
        cfg.max_resamples = Some(None);
        if rng.chance(0.3) {
            cfg.max_resamples = Some(Some(*rng.pick(&[100_000, 1 << 32, 1 << 40, usize::MAX])));
        }
        let p = Problem::new(rand_smooth(rng), 0.0);
        let gens = rng.int(2, 12);
        c.desc = format!("{:?} {:?} gens={}", cfg, p, gens);
        // The recording constraints are the reference
        let mut other = cfg.clone();
        other.plain_bounds = false;
        let (mut a, mut b) = (Sim::new(&cfg, &p)?, Sim::new(&other, &p)?);
        let api = rand_api(rng);
        let mut h = Fnv::new();
        for i in 0..gens {
            let which = api.pick(rng);
            let r = b.step(Api::Seq);
            // Too few feasible points are left
            if r.cons.len() > 200 * cfg.lambda() {
                break;
            }
            let g = a.step(which);
            if let Some(e) = g.evs.iter().find(|e| !f.ok(&e.x)) {
                return Err(format!("generation {}: {:?} is out of bounds", i, e.x));
            }
            if !cfg.par_update {
                g.snap.same_except_evals(&r.snap).map_err(|e| {
                    format!("generation {}: bounds and equivalent constraints differ in the {}", i, e)
                })?;
            }
            c.count("generations", 1);
            c.count("resampled_points", r.cons.iter().filter(|x| !x.1).count() as u64);
            g.snap.hash(&mut h);
            if g.has(R::PosDefCov) {
                break;
            }
        }
        c.nontrivial = Some(h.get());
        Ok(())
    });
    ctx.rule("boundary: a step size at the limit of precision puts a large share of the points exactly on degenerate bounds, which must accept them");
    ctx.cases("boundary", ctx.n(100, 1000), |rng, c| {
        let n = rng.int(1, 3);
        let cfg0 = Cfg::new((0..n).map(|_| 1.5).collect(), 2e-16);
        let mut cfg = cfg0.clone();
        cfg.seed = Some(rng.u64());
        cfg.lambda = Some(rng.int(4, 20));
        cfg.par_update = rng.chance(0.3);
        cfg.max_resamples = Some(None);
        let k = rng.below(n);
        let (mut l, mut u) = (vec![1.0; n], vec![2.0; n]);
        match rng.below(3) {
            0 => l[k] = 1.5,
            1 => u[k] = 1.5,
            _ => {
                l[k] = 1.5;
                u[k] = 1.5;
            }
        }
        let f = Feas::Box(l, u);
        cfg.cons = Some(f.clone());
        cfg.plain_bounds = true;
        let p = Problem::new(Fun::Noise, 0.0);
        c.desc = format!("{:?}", cfg);
        let mut s = Sim::new(&cfg, &p)?;
        let g = s.step(*rng.pick(&[Api::Seq, Api::Par]));
        let on = g.evs.iter().filter(|e| e.x[k] == 1.5).count();
        if on == 0 {
            // The chance of this is below 2^-lambda per case: only the sum of all cases counts
            c.inconclusive = true;
        }
        if let Some(e) = g.evs.iter().find(|e| !f.ok(&e.x)) {
            return Err(format!("{:?} is out of bounds", e.x));
        }
        c.count("points_on_the_boundary", on as u64);
        c.count("generations", 1);
        if on > 0 {
            let mut h = Fnv::new();
            g.snap.hash(&mut h);
            h.u64(k as u64);
            c.nontrivial = Some(h.get());
        }
        Ok(())
    });
    ctx.rule("neutral: constraints that are always met, limits that are never used, and a limit of zero leave the run bit-identical to one without constraints");
    ctx.cases("neutral", ctx.n(300, 6000), |rng, c| {
        let mut cfg = rand_cfg(rng);
        cfg.par_update = false;
        let p = Problem::new(rand_fun(rng), 0.2);
        let gens = rng.int(2, 60);
        let api = rand_api(rng);
        c.desc = format!("{:?} {:?} gens={}", cfg, p, gens);
        let n = cfg.dim();
        let wide = Feas::Box(vec![f64::NEG_INFINITY; n], vec![f64::INFINITY; n]);
        let variants: Vec<(Option<Feas>, bool, Option<Option<usize>>)> = vec![
            (None, false, Some(Some(rng.below(5)))),
            (None, false, Some(None)),
            (Some(Feas::Always), false, None),
            (Some(Feas::Always), false, Some(Some(rng.int(1, 10)))),
            (Some(Feas::Always), false, Some(Some(*rng.pick(&[usize::MAX, 1 << 32, 1 << 40])))),
            (Some(wide), true, None),
            (Some(Feas::Never), false, Some(Some(0))),
        ];
        let mut base = vec![];
        let mut s = Sim::new(&cfg, &p)?;
        for _ in 0..gens {
            let g = s.step(api.pick(rng));
            let end = g.has(R::PosDefCov);
            base.push(g);
            if end {
                break;
            }
        }
        let mut h = Fnv::new();
        base.last().unwrap().hash(&mut h);
        for (f, plain, m) in variants {
            let mut d = cfg.clone();
            d.cons = f.clone();
            d.plain_bounds = plain;
            d.max_resamples = m;
            let mut s = Sim::new(&d, &p)?;
            for (i, b) in base.iter().enumerate() {
                let g = s.step(api.pick(rng));
                // Points that are not finite do not meet any bounds
                if g.evs.iter().any(|e| e.x.iter().any(|x| !x.is_finite())) {
                    break;
                }
                let (mut x, mut y) = (Fnv::new(), Fnv::new());
                g.hash(&mut x);
                b.hash(&mut y);
                if x.get() != y.get() {
                    return Err(format!(
                        "generation {}: constraints {:?} with max_resamples {:?}, which are never effective, change the run",
                        i, f, m
                    ));
                }
                if matches!(f, Some(Feas::Never)) && !g.cons.is_empty() {
                    c.count("checks_without_effect", g.cons.len() as u64);
                }
            }
            c.count("runs_compared", 1);
        }
        c.nontrivial = Some(h.get());
        Ok(())
    });
}

// ---- C10 ------------------------------------------------------------------------------------

pub fn c10(ctx: &Ctx) {
    ctx.rule("step: random limits and targets (zero, one below/at/above multiples of the population, values that are hit exactly); each generation's reasons are compared with the recorded number of calls, generations and values; non-trivial if a limit was reached and not reached before");
    ctx.cases("step", ctx.n(1200, 25000), |rng, c| {
        let mut cfg = rich_cfg(rng);
        let l = cfg.lambda();
        let gens = rng.int(2, 60);
        if rng.chance(0.7) {
            let k = rng.below(gens + 3) * l;
            cfg.max_evals = Some(match rng.below(4) {
                0 => k,
                1 => k + 1,
                2 => k.saturating_sub(1),
                _ => rng.below(gens * l + 10),
            });
        }
        if rng.chance(0.7) {
            cfg.max_gens = Some(rng.below(gens + 2));
        }
        let mut p = rich_problem(rng);
        if rng.chance(0.7) {
            cfg.fun_target = Some(match rng.below(6) {
                0 => *rng.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 0.0]),
                1 => rng.range(-3.0, 3.0).round(),
                2 => 1e300,
                3 => -1e300,
                _ => rng.log_range(1e-8, 1e6) * if rng.chance(0.3) { -1.0 } else { 1.0 },
            });
            if rng.chance(0.3) {
                p = Problem::new(Fun::IntNoise(3), 0.0);
                cfg.fun_target = Some(rng.range(-3.0, 3.0).round());
            }
        }
        let (mut gens, mut api) = (gens, rand_api(rng));
        if c.idx % 100 == 50 {
            let (target, evals) = (cfg.fun_target, cfg.max_evals.is_some());
            (cfg, p, gens) = long_case(rng);
            api = ApiMode::Seq;
            cfg.max_gens = Some(gens - rng.below(20));
            cfg.max_evals = if evals { Some((gens - rng.below(20)) * cfg.lambda() - rng.below(2)) } else { None };
            cfg.fun_target = target;
            c.count("long_runs", 1);
        }
        c.desc = format!("{:?} {:?} {:?} gens={}", cfg, p, api, gens);
        let mut s = Sim::new(&cfg, &p)?;
        let mut completed = 0;
        let (mut hit, mut miss) = (0, 0);
        let mut h = Fnv::new();
        for i in 0..gens {
            let g = s.step(api.pick(rng));
            if !g.complete() || g.has(R::PosDefCov) {
                if g.has(R::PosDefCov) {
                    break;
                }
                continue;
            }
            completed += 1;
            c.count("generations", 1);
            let calls = s.rec.count() as usize;
            let mut exp = vec![];
            if let Some(m) = cfg.max_evals {
                exp.push((R::MaxFunctionEvals, calls >= m));
            } else {
                exp.push((R::MaxFunctionEvals, false));
            }
            exp.push((R::MaxGenerations, cfg.max_gens.is_some_and(|m| completed >= m)));
            exp.push((R::MaxTime, false));
            // Equality with the target is left open
            match cfg.fun_target {
                None => exp.push((R::FunTarget, false)),
                Some(t) => {
                    if g.evs.iter().any(|e| better(cfg.mode, e.v, t)) {
                        exp.push((R::FunTarget, true));
                    } else if !g.evs.iter().any(|e| e.v == t) {
                        exp.push((R::FunTarget, false));
                    }
                }
            }
            for (r, want) in exp {
                if g.has(r) != want {
                    return Err(format!(
                        "generation {} ({} completed, {} calls): {:?} is {}reported (reasons {:?}), best value {:?}",
                        i, completed, calls, r, if want { "not " } else { "" }, g.reasons(), g.snap.cur.as_ref().map(|x| x.1)
                    ));
                }
                if want {
                    hit += 1;
                } else {
                    miss += 1;
                }
            }
            g.snap.hash(&mut h);
        }
        c.count("limits_reported", hit);
        c.count("limits_not_reported", miss);
        if hit > 0 && miss > 0 {
            c.nontrivial = Some(h.get());
        }
        Ok(())
    });

    ctx.rule("run: run/run_parallel against a replica with the same seed that is stepped by hand: the run ends with the first generation that reports a reason, with the same reasons and state; limits hold to the generation");
    ctx.cases("run", ctx.n(600, 12000), |rng, c| {
        let mut cfg = rich_cfg(rng);
        cfg.par_update = false;
        let l = cfg.lambda();
        let gens = rng.int(0, 80);
        // At least one of the limits is set
        let which = rng.int(1, 3);
        if which & 1 == 1 {
            cfg.max_evals = Some((gens * l + rng.below(2 * l + 1)).saturating_sub(l));
        }
        if which & 2 == 2 {
            cfg.max_gens = Some(gens);
        }
        if rng.chance(0.4) {
            cfg.fun_target = Some(rng.log_range(1e-6, 1e3) * if rng.chance(0.3) { -1.0 } else { 1.0 });
        }
        let p = rich_problem(rng);
        let par = rng.chance(0.5);
        c.desc = format!("{:?} {:?} parallel={}", cfg, p, par);
        let mut a = Sim::new(&cfg, &p)?;
        let mut b = Sim::new(&cfg, &p)?;
        let api = if par && !cfg!(miri) { Api::Par } else { Api::Seq };
        a.rec
            .cap
            .store((2 * gens as u64 + 10) * l as u64, std::sync::atomic::Ordering::Relaxed);
        let t = if par { a.cm.run_parallel() } else { a.cm.run() };
        let t = term(&t);
        let mut n = 0;
        let last = loop {
            n += 1;
            let g = b.step(api);
            if g.term.is_some() {
                break g;
            }
            if n > gens + 5 {
                return Err(format!("no reason was reported in {} generations", n));
            }
        };
        let mut r: Vec<String> = t.reasons.iter().map(|r| format!("{:?}", r)).collect();
        let mut q: Vec<String> = last.reasons().iter().map(|r| format!("{:?}", r)).collect();
        r.sort();
        q.sort();
        if r != q || r.is_empty() {
            return Err(format!(
                "the run ended with {:?}, but the first generation that reports anything ({}) reports {:?}",
                t.reasons, n, last.reasons()
            ));
        }
        // A parallel generation that fails may evaluate any number of points
        let failed = last.has(R::InvalidFunctionValue) && par;
        let sa = snap(&a.cm);
        sa.same_except_evals(&last.snap)
            .map_err(|e| format!("the {} differs after the run and after {} generations", e, n))?;
        if !failed && a.rec.count() != b.rec.count() {
            return Err(format!(
                "the run made {} evaluations, {} generations make {}",
                a.rec.count(), n, b.rec.count()
            ));
        }
        if let Some(m) = cfg.max_gens {
            if sa.generation > m.max(1) {
                return Err(format!("generation {} was run with a limit of {}", sa.generation, m));
            }
        }
        if let Some(m) = cfg.max_evals {
            if a.rec.count() as usize >= m.max(1) + l {
                return Err(format!("{} evaluations were made with a limit of {}", a.rec.count(), m));
            }
        }
        c.count("runs", 1);
        c.count("generations", n as u64);
        for r in &t.reasons {
            match r {
                R::MaxFunctionEvals => c.count("MaxFunctionEvals", 1),
                R::MaxGenerations => c.count("MaxGenerations", 1),
                R::FunTarget => c.count("FunTarget", 1),
                R::InvalidFunctionValue => c.count("InvalidFunctionValue", 1),
                _ => c.count("other_reasons", 1),
            }
        }
        let mut h = Fnv::new();
        sa.hash(&mut h);
        c.nontrivial = Some(h.get());
        Ok(())
    });

    ctx.rule("many: populations of about a million points with a limit far above 2^24 evaluations; MaxFunctionEvals is reported in exactly the first generation that reaches the limit");
    ctx.cases_on(4, "many", if ctx.thorough() { 12 } else { 2 }, |rng, c| {
        let (mut cfg, p) = many_case(rng, 700_000, 1_400_000);
        let l = cfg.lambda();
        let k = (1 << 24) / l + rng.int(1, 3);
        // Next to a multiple of the population size
        let limit = k * l + rng.below(3) - 1;
        cfg.max_evals = Some(limit);
        let api = rand_api(rng);
        c.desc = format!("{:?} {:?} {:?}", cfg, p, api);
        let mut s = Sim::new(&cfg, &p)?;
        s.rec.keep.store(false, std::sync::atomic::Ordering::SeqCst);
        for i in 1..=k + 2 {
            let g = s.step(api.pick(rng));
            if g.has(R::PosDefCov) {
                return Ok(());
            }
            if g.has(R::MaxFunctionEvals) != (i * l >= limit) {
                return Err(format!(
                    "generation {}: {:?} is reported after {} evaluations with a limit of {}",
                    i, g.reasons(), i * l, limit
                ));
            }
        }
        c.count("evaluations", s.rec.count());
        c.nontrivial = Some(c.idx);
        Ok(())
    });
    ctx.rule("time: time limits with delays before, between and within generations; MaxTime must be reported if the limit had passed when the last point was evaluated and may only be reported if it has passed when the generation returns");
    ctx.cases("time", ctx.n(160, 1600), |rng, c| {
        let mut cfg = rand_cfg_dim(rng, 2);
        cfg.lambda = Some(rng.int(2, 12));
        let ms = *rng.pick(&[0u64, 1, 3, 10, 30, 100_000_000]);
        cfg.max_time = Some(match rng.below(8) {
            0 => Duration::ZERO,
            1 => Duration::MAX,
            2 => Duration::from_nanos(1),
            3 => Duration::from_micros(rng.int(1, 3000) as u64),
            _ => Duration::from_millis(ms),
        });
        let mut p = Problem::new(Fun::Noise, 0.0);
        p.stamp = true;
        p.delay = *rng.pick(&[0, 50, 300, 1000]);
        let api = rand_api(rng);
        // Limits of more than a second, approached with pauses
        let slow = c.idx % 20 == 7;
        if slow {
            cfg.max_time = Some(Duration::from_micros(rng.int(1_050_000, 2_950_000) as u64));
        }
        let max = cfg.max_time.unwrap();
        c.desc = format!("{:?} {:?} {:?}", cfg, p, api);
        let mut s = Sim::new(&cfg, &p)?;
        let created = s.cm.time_created();
        let mut h = Fnv::new();
        h.u64(c.idx);
        let mut seen = (0, 0);
        for i in 0..if slow { 12 } else { rng.int(2, 14) } {
            if slow {
                // Up to somewhat before or after the limit or whole seconds before it
                let target = match (i, rng.below(3)) {
                    (i, _) if i > 8 => max + Duration::from_millis(5),
                    (_, 0) => max.saturating_sub(Duration::from_millis(rng.int(20, 100) as u64)),
                    (_, 1) => Duration::from_millis(max.as_secs() * 1000 + rng.below(50) as u64),
                    _ => Duration::from_millis(max.as_millis() as u64 * i as u64 / 10),
                };
                std::thread::sleep(target.saturating_sub(created.elapsed()));
            } else if rng.chance(0.3) {
                std::thread::sleep(Duration::from_millis(rng.below(8) as u64));
            }
            let e0 = s.cm.elapsed();
            let before = created.elapsed();
            if e0 > before {
                return Err("the reported age is in the future".into());
            }
            let g = s.step(api.pick(rng));
            if g.has(R::PosDefCov) || !g.complete() {
                break;
            }
            if s.cm.time_created() != created {
                return Err("the time of creation changed".into());
            }
            let last = g
                .evs
                .iter()
                .filter_map(|e| e.at)
                .max()
                .map(|a| a.saturating_duration_since(created))
                .unwrap_or(Duration::ZERO);
            let got = g.has(R::MaxTime);
            if got && g.t1 < max {
                return Err(format!(
                    "generation {}: MaxTime is reported after {:?} with a limit of {:?}",
                    i, g.t1, max
                ));
            }
            if !got && last.max(g.t0) >= max {
                return Err(format!(
                    "generation {}: MaxTime is not reported, although the last evaluation was after {:?} with a limit of {:?}",
                    i, last.max(g.t0), max
                ));
            }
            if got {
                seen.0 += 1;
            } else {
                seen.1 += 1;
            }
        }
        c.count("time_limit_reported", seen.0);
        c.count("time_limit_not_reported", seen.1);
        if seen.0 + seen.1 > 1 {
            c.nontrivial = Some(h.get());
        }
        Ok(())
    });
    ctx.rule("time_run: a run limited by time alone ends with MaxTime in the generation in which the limit passes");
    ctx.cases("time_run", ctx.n(24, 240), |rng, c| {
        let mut cfg = Cfg::new(vec![1.0, 2.0], 1.0);
        cfg.seed = Some(rng.u64());
        cfg.lambda = Some(rng.int(4, 10));
        let max = Duration::from_millis(rng.int(0, 60) as u64);
        cfg.max_time = Some(max);
        let mut p = Problem::new(Fun::Noise, 0.0);
        p.stamp = true;
        p.delay = *rng.pick(&[20, 200, 700]);
        let par = rng.chance(0.5);
        c.desc = format!("{:?} {:?} parallel={}", cfg, p, par);
        let mut s = Sim::new(&cfg, &p)?;
        if rng.chance(0.3) {
            std::thread::sleep(Duration::from_millis(rng.below(80) as u64));
        }
        s.rec.cap.store(400_000, std::sync::atomic::Ordering::Relaxed);
        let t = if par { s.cm.run_parallel() } else { s.cm.run() };
        let end = s.cm.elapsed();
        let created = s.cm.time_created();
        let evs = s.rec.take();
        let l = cfg.lambda();
        // Only judged if nothing else ended the run
        if t.reasons.contains(&R::MaxTime) {
            if end < max {
                return Err(format!("MaxTime after {:?} with a limit of {:?}", end, max));
            }
            c.count("ended_by_time", 1);
        } else {
            c.count("ended_otherwise", 1);
        }
        // No generation was started after one whose last evaluation was past the limit
        let at: Vec<Duration> = evs
            .iter()
            .map(|e| e.at.unwrap().saturating_duration_since(created))
            .collect();
        for (i, ch) in at.chunks(l).enumerate() {
            let last = ch.iter().max().unwrap();
            if *last >= max && (i + 1) * l < at.len() {
                return Err(format!(
                    "generation {} ended its evaluations after {:?}, past the limit of {:?}, but another generation was run",
                    i + 1, last, max
                ));
            }
        }
        c.count("generations", (at.len() / l) as u64);
        c.nontrivial = Some(c.idx);
        Ok(())
    });
}

