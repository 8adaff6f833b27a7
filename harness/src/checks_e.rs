//! C20: recorded and drawn plots.

use cmaes::plotting::Plot;
use cmaes::{Mode, TerminationReason};
use std::path::{Path, PathBuf};

use crate::core::{beat, guarded, Case, Ctx};
use crate::sim::*;
use crate::util::{Fnv, Rng};

type Res = Result<(), String>;

/// A directory for the files of a check, removed when dropped
pub struct Scratch(pub PathBuf);

impl Scratch {
    pub fn new(tag: &str) -> Scratch {
        let p = std::env::temp_dir().join(format!("vmon-{}-{}", tag, std::process::id()));
        std::fs::create_dir_all(&p).expect("cannot create a scratch directory");
        Scratch(p)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

// ---- recorded data --------------------------------------------------------------------------

#[derive(Clone, Debug)]
struct Point {
    generation: usize,
    evals: usize,
    best: f64,
    median: (f64, f64),
    sigma: f64,
    axis: f64,
    mean: Vec<f64>,
    axes: Vec<f64>,
    scales: Vec<f64>,
}

/// The two values that may be recorded as the median
fn median_of(mode: Mode, evs: &[Ev]) -> (f64, f64) {
    let mut v: Vec<f64> = evs.iter().map(|e| e.v).collect();
    v.sort_by(|a, b| rank_cmp(mode, *a, *b));
    let k = v.len();
    if k == 0 {
        return (f64::NAN, f64::NAN);
    }
    if k % 2 == 1 {
        return (v[k / 2], v[k / 2]);
    }
    let m = v[k / 2] / 2.0 + v[k / 2 - 1] / 2.0;
    if m.is_nan() {
        (v[k / 2], v[k / 2 - 1])
    } else {
        (m, m)
    }
}

impl Point {
    fn of(s: &Snap, median: (f64, f64)) -> Point {
        let n = s.mean.len();
        let mut axes: Vec<f64> = s.eig.iter().map(|x| x.sqrt()).collect();
        axes.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
        Point {
            generation: s.generation,
            evals: s.evals,
            best: s.cur.as_ref().map_or(f64::NAN, |c| c.1),
            median,
            sigma: s.sigma,
            axis: s.axis,
            mean: s.mean.clone(),
            axes,
            scales: (0..n).map(|i| s.cov[i * n + i].sqrt()).collect(),
        }
    }
}

/// What must have been recorded
#[derive(Clone)]
struct Model {
    gap: usize,
    points: Vec<Point>,
    median: (f64, f64),
}

impl Model {
    fn new(gap: usize, s: &Snap) -> Model {
        let mut m = Model {
            gap,
            points: vec![],
            median: (f64::NAN, f64::NAN),
        };
        m.add(s);
        m
    }
    fn add(&mut self, s: &Snap) {
        if self.points.last().is_none_or(|p| p.generation != s.generation) {
            self.points.push(Point::of(s, self.median));
        }
    }
    /// After a generation
    fn step(&mut self, g: &Gen, mode: Mode) {
        if g.complete() {
            self.median = median_of(mode, &g.evs);
            let last = self.points.last().map_or(0, |p| p.evals);
            if g.snap.generation <= 1 || g.snap.evals >= last.saturating_add(self.gap) {
                self.add(&g.snap);
            }
        }
    }
    fn clear(&mut self) {
        let k = self.points.len();
        self.points.drain(..k - 1);
    }
}

/// The flat lists of numbers in the debug output
fn flat_lists(s: &str) -> Vec<Vec<f64>> {
    let mut out = vec![];
    let b = s.as_bytes();
    let mut open = None;
    for (i, c) in b.iter().enumerate() {
        match c {
            b'[' => open = Some(i + 1),
            b']' => {
                if let Some(o) = open.take() {
                    let v: Option<Vec<f64>> = s[o..i]
                        .split(',')
                        .map(|t| t.trim())
                        .filter(|t| !t.is_empty())
                        .map(|t| t.parse::<f64>().ok())
                        .collect();
                    if let Some(v) = v {
                        out.push(v);
                    }
                }
            }
            _ => (),
        }
    }
    out
}

/// Whether a value was recorded; zero is avoided with an offset of 1e-20
fn same(r: f64, e: f64) -> bool {
    r == e || (r.is_nan() && e.is_nan()) || (e.is_finite() && (r - e).abs() <= 1e-9 * e.abs() + 3e-20)
}

/// Compares the recorded points. Returns whether the recorded values could be read.
fn judge_plot(plot: &Plot, m: &Model) -> Result<bool, String> {
    let k = m.points.len();
    let shown = || {
        let g: Vec<_> = m.points.iter().map(|p| (p.generation, p.evals)).collect();
        format!("{:?}", &g[g.len().saturating_sub(12)..])
    };
    if plot.len() != k || plot.is_empty() {
        return Err(format!(
            "the plot holds {} points instead of {} (generation, evaluations): {}",
            plot.len(),
            k,
            shown()
        ));
    }
    if plot.capacity() < k {
        return Err(format!("capacity {} for {} points", plot.capacity(), k));
    }
    let n = m.points[0].mean.len();
    let mut lists = flat_lists(&format!("{:?}", plot));
    if lists.len() < 5 + 3 * n {
        return Ok(false);
    }
    let mut find = |what: String, f: &dyn Fn(&Point, f64) -> bool| {
        let i = lists
            .iter()
            .position(|l| l.len() == k && l.iter().zip(&m.points).all(|(r, p)| f(p, *r)));
        match i {
            Some(i) => {
                lists.swap_remove(i);
                Ok(())
            }
            None => {
                // The closest one helps to see what is wrong
                let near = lists
                    .iter()
                    .filter(|l| l.len() == k)
                    .max_by_key(|l| l.iter().zip(&m.points).filter(|(r, p)| f(p, **r)).count());
                Err(format!(
                    "{} not recorded correctly, closest {:?}, points {}",
                    what,
                    near.map(|l| &l[l.len().saturating_sub(12)..]),
                    shown()
                ))
            }
        }
    };
    find("evaluations".into(), &|p, r| r == p.evals as f64)?;
    find("the best values".into(), &|p, r| same(r, p.best))?;
    find("the median values".into(), &|p, r| {
        same(r, p.median.0) || same(r, p.median.1)
    })?;
    find("the step sizes".into(), &|p, r| same(r, p.sigma))?;
    find("the axis ratios".into(), &|p, r| same(r, p.axis))?;
    for i in 0..n {
        find(format!("the mean of coordinate {}", i), &|p, r| same(r, p.mean[i]))?;
        find(format!("axis length {}", i), &|p, r| same(r, p.axes[i]))?;
        find(format!("the scale of coordinate {}", i), &|p, r| same(r, p.scales[i]))?;
    }
    Ok(true)
}

fn rand_gap(rng: &mut Rng, lambda: usize) -> usize {
    match rng.below(8) {
        0 | 1 => 0,
        2 => 1,
        3 => lambda,
        4 => lambda * rng.int(2, 4),
        5 => lambda * rng.int(1, 5) + 1,
        6 => rng.int(1, 10 * lambda),
        _ => *rng.pick(&[usize::MAX, usize::MAX - 1, 1_000_000]),
    }
}

fn plot_case(rng: &mut Rng) -> (Cfg, Problem) {
    let mut cfg = rand_cfg(rng);
    if cfg.dim() > 10 && rng.chance(0.7) {
        cfg = rand_cfg_dim(rng, 3);
    }
    cfg.plot = Some(rand_gap(rng, cfg.lambda()));
    cfg.plot_sci = rng.chance(0.5);
    if rng.chance(0.2) {
        cfg.cons = Some(rand_feas(rng, &cfg));
    }
    let mut p = Problem::new(rand_fun(rng), rng.range(-1.0, 1.0));
    p.neg = cfg.mode == Mode::Maximize && rng.chance(0.8);
    (cfg, p)
}

fn hash_snap(s: &Snap) -> u64 {
    let mut h = Fnv::new();
    s.hash(&mut h);
    h.get()
}

// ---- images ---------------------------------------------------------------------------------

struct Image {
    w: usize,
    h: usize,
    rgb: Vec<u8>,
}

fn decode(path: &Path) -> Result<Image, String> {
    let f = std::fs::File::open(path).map_err(|e| format!("cannot open the image: {}", e))?;
    let mut d = png::Decoder::new(std::io::BufReader::new(f));
    d.set_transformations(png::Transformations::EXPAND);
    let mut r = d.read_info().map_err(|e| format!("the image is damaged: {}", e))?;
    let mut buf = vec![0; r.output_buffer_size()];
    let info = r
        .next_frame(&mut buf)
        .map_err(|e| format!("the image is damaged: {}", e))?;
    r.finish().map_err(|e| format!("the image is damaged: {}", e))?;
    if info.color_type != png::ColorType::Rgb || info.bit_depth != png::BitDepth::Eight {
        return Err(format!("unexpected image format {:?}", info.color_type));
    }
    Ok(Image {
        w: info.width as usize,
        h: info.height as usize,
        rgb: buf,
    })
}

impl Image {
    /// Number of dark pixels in a quarter, and the first and last columns with colored ones
    fn look(&self, quarter: usize) -> (usize, Option<(usize, usize)>) {
        let (hw, hh) = (self.w / 2, self.h / 2);
        let (x0, y0) = ((quarter % 2) * hw, (quarter / 2) * hh);
        let mut dark = 0;
        let mut cols: Option<(usize, usize)> = None;
        for x in x0..x0 + hw {
            let mut colored = false;
            for y in y0..y0 + hh {
                let i = 3 * (y * self.w + x);
                let p = &self.rgb[i..i + 3];
                let (lo, hi) = (p.iter().min().unwrap(), p.iter().max().unwrap());
                dark += (*hi < 100) as usize;
                colored |= hi - lo > 30;
            }
            if colored {
                cols = Some((cols.map_or(x, |c| c.0), x));
            }
        }
        (dark, cols)
    }
}

pub fn c20(ctx: &Ctx) {
    ctx.rule("steps: random objectives, gaps and dimensions with a random sequence of generations (sequential and parallel, also past termination and with NaN values), manual points, clearing and copies; after every operation the number of recorded points, and at random moments every recorded value (read from the debug output), is compared with a model fed by the true states; non-trivial if at least 3 points were recorded");
    ctx.cases("steps", ctx.n(700, 20_000), |rng, c| steps(rng, c));
    ctx.rule("run: the plot after `run` or `run_parallel` is compared with the model of a second optimizer advanced generation by generation");
    ctx.cases("run", ctx.n(250, 6000), |rng, c| whole(rng, c));
    ctx.rule("draw: recorded data including infinite, huge, tiny and constant values is saved repeatedly: the call succeeds, the image is complete (1200x1200, every chart drawn, the same bytes each time), the run continues exactly as without saving, and missing directories are created or reported");
    let dir = Scratch::new("c20");
    ctx.cases("draw", ctx.n(160, 4000), |rng, c| draw(rng, c, &dir.0));
}

fn steps(rng: &mut Rng, c: &mut Case) -> Res {
    let (mut cfg, mut p) = plot_case(rng);
    let mut api = rand_api(rng);
    let mut long_gens = 0;
    if c.idx % 200 == 100 {
        let gap = cfg.plot;
        (cfg, p, long_gens) = long_case(rng);
        cfg.plot = if rng.chance(0.5) { Some(cfg.lambda() * rng.int(20, 5000)) } else { gap };
        api = ApiMode::Seq;
    }
    // More points than fit into 16 bits
    let huge = c.idx % 5000 == 500;
    if huge {
        cfg.mean.truncate(1);
        cfg.lambda = Some(2);
        cfg.plot = Some(rng.below(3));
        p = Problem::new(Fun::Const(1.0), 0.0);
        long_gens = rng.int(66_000, 72_000);
        c.count("huge_plots", 1);
    }
    c.desc = format!("{:?} {:?} {:?}", cfg, p, api);
    let mut s = Sim::new(&cfg, &p)?;
    let mut m = Model::new(cfg.plot.unwrap(), &s.last);
    let mut read = 0;
    let mut ops = String::new();
    let mut total = rng.int(3, 60);
    let long = c.idx % 200 == 100;
    if huge {
        total = long_gens;
    } else if long {
        total = long_gens;
        c.count("long_runs", 1);
    }
    for i in 0..total {
        let op = if huge || long && rng.chance(0.99) { 19 } else { rng.below(20) };
        let capacity = s.cm.get_plot().unwrap().capacity();
        match op {
            0 => {
                s.cm.add_plot_point();
                let now = snap(&s.cm);
                m.add(&now);
                ops.push('a');
            }
            1 => {
                s.cm.get_mut_plot().unwrap().clear();
                m.clear();
                ops.push('c');
                let now = s.cm.get_plot().unwrap().capacity();
                if now != capacity {
                    return Err(format!("clearing changes the capacity from {} to {}", capacity, now));
                }
            }
            2 => {
                // A copy is independent
                let mut copy = s.cm.get_plot().unwrap().clone();
                judge_plot(&copy, &m)?;
                copy.clear();
                ops.push('k');
            }
            3 if rng.chance(0.3) => {
                s.rec.fault(1, rng.below(cfg.lambda()) as u64);
                let g = s.step(api.pick(rng));
                m.step(&g, cfg.mode);
                ops.push('n');
            }
            _ => {
                let g = s.step(api.pick(rng));
                if g.reasons().contains(&TerminationReason::PosDefCov) {
                    break;
                }
                m.step(&g, cfg.mode);
                if !long {
                    ops.push('.');
                }
            }
        }
        let plot = s.cm.get_plot().ok_or("the plot is gone")?;
        if plot.len() != m.points.len() || i + 1 == total || rng.chance(if huge { 0.0001 } else if long { 0.0005 } else { 0.15 }) {
            if judge_plot(plot, &m).map_err(|e| format!("after {}: {}", ops, e))? {
                read += 1;
            }
        }
    }
    c.count("plots_compared", read);
    c.count("points", m.points.len() as u64);
    if m.points.len() >= 3 {
        let mut h = Fnv::new();
        h.u64(hash_snap(&s.last));
        h.bytes(ops.as_bytes());
        c.nontrivial = Some(h.get());
    }
    Ok(())
}

fn whole(rng: &mut Rng, c: &mut Case) -> Res {
    let (mut cfg, mut p) = plot_case(rng);
    cfg.max_gens = Some(rng.int(1, 60));
    // Sums made in an order that is not fixed make two runs differ by rounding
    cfg.par_update = false;
    if rng.chance(0.2) {
        p.faults.nan_calls = vec![rng.below(20 * cfg.lambda()) as u64];
    }
    let par = rng.chance(0.3);
    c.desc = format!("{:?} {:?} parallel={}", cfg, p, par);
    let mut twin = Sim::new(&cfg, &p)?;
    let mut m = Model::new(cfg.plot.unwrap(), &twin.last);
    let mut last = twin.last.clone();
    for _ in 0..100 {
        let g = twin.step(if par { Api::Par } else { Api::Seq });
        if g.reasons().contains(&TerminationReason::PosDefCov) {
            return Ok(());
        }
        m.step(&g, cfg.mode);
        last = g.snap.clone();
        if g.term.is_some() {
            break;
        }
    }
    // The number of evaluations made in parallel before an invalid value was noticed is not fixed
    let mut s = Sim::new(&cfg, &p)?;
    let _ = if par { s.cm.run_parallel() } else { s.cm.run() };
    let now = snap(&s.cm);
    last.evals = now.evals;
    m.add(&last);
    if hash_snap(&now) != hash_snap(&last) {
        return Err("the run differs from the one advanced generation by generation".into());
    }
    let plot = s.cm.get_plot().ok_or("no plot")?;
    if judge_plot(plot, &m)? {
        c.count("plots_compared", 1);
    }
    // The final point is not repeated
    s.cm.add_plot_point();
    judge_plot(s.cm.get_plot().unwrap(), &m).map_err(|e| format!("after another final point: {}", e))?;
    c.count("runs", 1);
    if m.points.len() >= 3 {
        c.nontrivial = Some(hash_snap(&now));
    }
    Ok(())
}

fn draw(rng: &mut Rng, c: &mut Case, dir: &Path) -> Res {
    let (mut cfg, mut p) = plot_case(rng);
    cfg.par_update = false;
    if rng.chance(0.6) {
        cfg.plot = Some(rng.below(3));
    }
    if rng.chance(0.5) {
        let vals = [
            f64::INFINITY, f64::NEG_INFINITY, f64::MAX, -f64::MAX, f64::MIN_POSITIVE, 5e-324, 0.0, -0.0,
            1e300, -1e300, 1e301, 1e-300, 1.0, 1e16, 9e299, -1.0, 1e154,
        ];
        let k = rng.int(1, 4);
        p.fun = Fun::Hostile((0..k).map(|_| *rng.pick(&vals)).collect());
    }
    match rng.below(8) {
        0 => {
            let x = *rng.pick(&[1e300, -1e300, 1e-300, 1e150, 1.7e308, 1e250, 9.9e249]);
            cfg.mean.iter_mut().for_each(|m| *m = x);
        }
        2 => {
            // Hardly any floating-point numbers between the values
            let x = *rng.pick(&[1e15, 1e16, -1e16, 1e17, 4e15, 1e200, 1.0, -3.0]);
            let e = f64::EPSILON * x;
            cfg.mean.iter_mut().for_each(|m| *m = x);
            cfg.sigma = e.abs() * rng.log_range(0.1, 1000.0);
        }
        1 => cfg.sigma = *rng.pick(&[1e-300, 1e-150, 1e-20, 1e20, 1e150, 1e300]),
        _ => (),
    }
    let gens = *rng.pick(&[0, 1, 2, 3, 5, 10, 30]);
    c.desc = format!("{:?} {:?} {} generations", cfg, p, gens);
    let mut s = Sim::new(&cfg, &p)?;
    let mut other = Sim::new(&cfg, &p)?;
    let file = dir.join(format!("{}.png", c.idx));
    let file2 = dir.join(format!("{}-b.png", c.idx));
    let mut done = 0;
    let mut broke = None;
    let mut m = Model::new(cfg.plot.unwrap(), &s.last);
    for i in 0..gens {
        let r = guarded(|| s.step(Api::Seq));
        // Overflowing states are the subject of another property
        match r {
            Err(e) => {
                broke = Some(e.text());
                break;
            }
            Ok(g) if g.reasons().contains(&TerminationReason::PosDefCov) => {
                broke = Some("PosDefCov".into());
                other.step(Api::Seq);
                break;
            }
            Ok(g) => m.step(&g, cfg.mode),
        }
        other.step(Api::Seq);
        if rng.chance(0.05) {
            s.cm.get_mut_plot().unwrap().clear();
            m.clear();
        }
        if i + 1 < gens && rng.chance(0.1) {
            s.cm.get_plot().unwrap().save_to_file(&file, false).map_err(|e| format!("saving failed: {}", e))?;
        }
        done += 1;
    }
    beat();
    if broke.is_none() && judge_plot(s.cm.get_plot().unwrap(), &m)? {
        c.count("plots_compared", 1);
    }
    let before = format!("{:?}", s.cm.get_plot().unwrap());
    // Remains of an older file must not be left
    if rng.chance(0.3) {
        std::fs::write(&file, vec![7u8; 3_000_000]).map_err(|e| e.to_string())?;
    }
    let plot = s.cm.get_plot().unwrap();
    plot.save_to_file(&file, false).map_err(|e| format!("saving failed: {}", e))?;
    plot.clone().save_to_file(&file2, rng.chance(0.5)).map_err(|e| format!("saving failed: {}", e))?;
    let (a, b) = (std::fs::read(&file), std::fs::read(&file2));
    match (a, b) {
        (Ok(a), Ok(b)) if a == b => (),
        (Ok(_), Ok(_)) => return Err("the same data gives different images".into()),
        _ => return Err("a saved image cannot be read".into()),
    }
    let im = decode(&file)?;
    if (im.w, im.h) != (1200, 1200) {
        return Err(format!("the image has {}x{} pixels", im.w, im.h));
    }
    // Every chart has its labels, and lines over most of its width if the first and last points can
    // be drawn
    let ok = |x: f64| x.abs() <= 1e240;
    let (first, last) = (&m.points[0], &m.points[m.points.len() - 1]);
    let long = last.evals >= 2 * first.evals && last.evals > 0;
    for q in 0..4 {
        let both = |f: &dyn Fn(&Point) -> f64| ok(f(first)) && ok(f(last));
        let line = long && cfg.dim() <= 17
            && broke.is_none()
            && match q {
                0 => both(&|p| p.sigma),
                1 => both(&|p| p.mean[0]),
                2 => both(&|p| p.axes[0]),
                _ => both(&|p| p.scales[0]),
            };
        let (dark, cols) = im.look(q);
        if dark < 1000 {
            return Err(format!("chart {} is incomplete: {} dark pixels", q, dark));
        }
        if line {
            c.count("charts_with_lines", 1);
            if cols.is_none_or(|c| c.1 - c.0 < 300) {
                return Err(format!("the lines of chart {} cover the columns {:?}", q, cols));
            }
        }
    }
    if format!("{:?}", s.cm.get_plot().unwrap()) != before {
        return Err("saving changes the recorded data".into());
    }
    // The run is not affected
    if done == gens {
        for _ in 0..2 {
            let (x, y) = (guarded(|| s.step(Api::Seq)), guarded(|| other.step(Api::Seq)));
            match (x, y) {
                (Ok(x), Ok(y)) => {
                    if hash_snap(&x.snap) != hash_snap(&y.snap) {
                        return Err("the run differs after saving".into());
                    }
                }
                (Err(_), Err(_)) => break,
                _ => return Err("the run differs after saving".into()),
            }
        }
    }
    // Directories
    let deep = dir.join(format!("{}-d", c.idx)).join("x").join("plot.png");
    let plot = s.cm.get_plot().unwrap();
    if plot.save_to_file(&deep, false).is_ok() && !deep.exists() {
        return Err("saving into a missing directory is reported as success".into());
    }
    if !deep.exists() {
        plot.save_to_file(&deep, true)
            .map_err(|e| format!("saving with a missing directory failed: {}", e))?;
        if decode(&deep)?.rgb.len() != im.rgb.len() {
            return Err("incomplete image".into());
        }
    }
    // A directory is no file
    if plot.save_to_file(deep.parent().unwrap(), rng.chance(0.5)).is_ok() {
        return Err("saving to the path of a directory is reported as success".into());
    }
    if std::env::var_os("VMON_DRAW").is_some() { let _ = std::fs::copy(&file, "/tmp/draw.png"); }
    let _ = std::fs::remove_file(&file);
    let _ = std::fs::remove_file(&file2);
    let _ = std::fs::remove_dir_all(dir.join(format!("{}-d", c.idx)));
    c.count("images", 3);
    c.count("points_drawn", plot.len() as u64);
    let mut h = Fnv::new();
    h.bytes(&im.rgb);
    c.nontrivial = Some(h.get());
    Ok(())
}
