//! Case scheduling, verdicts, watchdog and evidence.

use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

use crate::util::{self, Rng};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// The location of the last panic on this thread
#[derive(Clone, Debug, Default)]
pub struct PanicInfo {
    pub file: String,
    pub line: u32,
    pub msg: String,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<PanicInfo>> = const { RefCell::new(None) };
    static SLOT: RefCell<Option<usize>> = const { RefCell::new(None) };
}
/// The last panic of any thread (rayon resumes panics on the calling thread without the hook)
static LAST_ANY: Mutex<Option<PanicInfo>> = Mutex::new(None);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let (file, line) = info
            .location()
            .map(|l| (l.file().to_string(), l.line()))
            .unwrap_or_default();
        let msg = payload_str(info.payload());
        if std::env::var_os("VMON_PANICS").is_some() {
            eprintln!("panic at {}:{}: {}", file, line, msg);
        }
        let p = PanicInfo { file, line, msg };
        LAST_PANIC.with(|l| *l.borrow_mut() = Some(p.clone()));
        if let Ok(mut l) = LAST_ANY.lock() {
            *l = Some(p);
        }
    }));
}

pub fn payload_str(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}

/// Payloads of the panics injected by the harness start with this
pub const INJECTED: &str = "VMON-INJECTED";
/// Payload of the panic that ends a run that does not end itself
pub const CAP: &str = "VMON-CAP";

/// Runs `f`, returning the panic if there was one
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, PanicInfo> {
    LAST_PANIC.with(|l| *l.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(p) => {
            let msg = payload_str(&*p);
            let own = LAST_PANIC.with(|l| l.borrow_mut().take());
            let any = LAST_ANY.lock().ok().and_then(|l| l.clone());
            let info = match (own, any) {
                (Some(o), _) if o.msg == msg => o,
                (_, Some(a)) if a.msg == msg => a,
                (Some(o), _) => o,
                _ => PanicInfo {
                    msg: msg.clone(),
                    ..Default::default()
                },
            };
            Err(PanicInfo { msg, ..info })
        }
    }
}

impl PanicInfo {
    pub fn is_injected(&self) -> bool {
        self.msg.starts_with(INJECTED)
    }
    pub fn is_cap(&self) -> bool {
        self.msg.starts_with(CAP)
    }
    /// Whether the panic comes from the harness's own code
    pub fn is_harness(&self) -> bool {
        !self.is_injected()
            && !self.is_cap()
            && (self.file.starts_with("src/")
                || self.file.contains("/harness/src/")
                || self.msg.starts_with("panic at src/"))
    }
    pub fn text(&self) -> String {
        format!("panic at {}:{}: {}", self.file, self.line, self.msg)
    }
}

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    pub only: Option<(String, u64)>,
    pub deadline: Instant,
    pub started: Instant,
    pub state: Mutex<State>,
    pub stop: AtomicBool,
    pub known: Vec<(String, String)>,
    pub verbose: bool,
    pub out_dir: std::path::PathBuf,
}

#[derive(Default)]
pub struct State {
    pub evaluations: u64,
    pub nontrivial: HashSet<u64>,
    pub samples: Vec<Value>,
    pub counters: BTreeMap<String, u64>,
    pub violations: Vec<Value>,
    pub known_hits: BTreeMap<String, (u64, String)>,
    pub errors: Vec<String>,
    pub inconclusive: u64,
    pub skipped: u64,
    pub rules: Vec<String>,
}

/// What one case has observed
#[derive(Default)]
pub struct Case {
    pub part: String,
    pub idx: u64,
    pub desc: String,
    pub viol: Option<String>,
    pub nontrivial: Option<u64>,
    pub counters: BTreeMap<&'static str, u64>,
    pub known: Vec<(String, String)>,
    pub inconclusive: bool,
    pub extra: Value,
    pub known_keys: Vec<String>,
}

impl Case {
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_insert(0) += n;
    }
    pub fn fail(&mut self, m: impl Into<String>) {
        if self.viol.is_none() {
            self.viol = Some(m.into());
        }
    }
    pub fn failed(&self) -> bool {
        self.viol.is_some()
    }
    /// Reports a finding: suppressed if listed, a violation otherwise
    pub fn finding(&mut self, key: &str, m: impl Into<String>) {
        let m = m.into();
        if self.known_keys.iter().any(|k| k == key) {
            self.known.push((key.to_string(), m));
        } else {
            self.fail(format!("[{}] {}", key, m));
        }
    }
}

pub type Res = Result<(), String>;

// ---- watchdog -------------------------------------------------------------------------------

struct Slot {
    beat: AtomicU64,
    active: AtomicBool,
    what: Mutex<String>,
}
static SLOTS: OnceLock<Vec<Slot>> = OnceLock::new();
static T0: OnceLock<Instant> = OnceLock::new();

fn now_ms() -> u64 {
    T0.get_or_init(Instant::now).elapsed().as_millis() as u64
}

/// Tells the watchdog that the case of this thread makes progress
pub fn beat() {
    SLOT.with(|s| {
        if let (Some(i), Some(slots)) = (*s.borrow(), SLOTS.get()) {
            slots[i].beat.store(now_ms(), Ordering::Relaxed);
        }
    });
}

fn slots() -> &'static Vec<Slot> {
    SLOTS.get_or_init(|| {
        (0..64)
            .map(|_| Slot {
                beat: AtomicU64::new(0),
                active: AtomicBool::new(false),
                what: Mutex::new(String::new()),
            })
            .collect()
    })
}

/// Wall-clock seconds without any progress of a case before it counts as hanging, provided that the
/// process really consumed processor time meanwhile
const HANG_S: u64 = 100;

impl Ctx {
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// Number of cases for the tier
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        match self.tier {
            // Quick enough to take less than a minute
            Tier::Quick => (quick * if self.id == "C24" { 2 } else { 4 }).min(quick.max(thorough)),
            Tier::Thorough => thorough,
        }
    }
    pub fn rule(&self, r: &str) {
        let mut s = self.state.lock().unwrap();
        if !s.rules.iter().any(|x| x == r) {
            s.rules.push(r.to_string());
        }
    }
    pub fn add(&self, k: &str, n: u64) {
        let mut s = self.state.lock().unwrap();
        *s.counters.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn is_known(&self, key: &str) -> bool {
        self.known.iter().any(|(p, k)| *p == self.id && k == key)
    }

    fn absorb(&self, c: Case) {
        let mut s = self.state.lock().unwrap();
        s.evaluations += 1;
        for (k, n) in &c.counters {
            *s.counters.entry(k.to_string()).or_insert(0) += n;
        }
        if c.inconclusive {
            s.inconclusive += 1;
        }
        if let Some(h) = c.nontrivial {
            if s.nontrivial.insert(h) && (s.samples.len() < 12) {
                let v = json!({"part": c.part, "case": c.idx, "desc": c.desc, "observed": c.counters, "extra": c.extra});
                s.samples.push(v);
            }
        }
        for (k, m) in c.known {
            let e = s.known_hits.entry(k).or_insert((0, m));
            e.0 += 1;
        }
        if let Some(v) = c.viol {
            s.violations.push(json!({
                "property": self.id, "tier": format!("{:?}", self.tier).to_lowercase(), "seed": self.seed,
                "part": c.part, "case": c.idx, "message": v, "desc": c.desc,
            }));
            self.stop.store(true, Ordering::Relaxed);
        }
    }

    /// Runs `n` cases on up to `threads` threads
    pub fn cases_on<F>(&self, threads: usize, part: &str, n: usize, f: F)
    where
        F: Fn(&mut Rng, &mut Case) -> Res + Sync,
    {
        let began = Instant::now();
        let next = AtomicUsize::new(0);
        let first = slots_used().fetch_add(threads, Ordering::Relaxed) % 32;
        let done = AtomicUsize::new(0);
        std::thread::scope(|s| {
            for t in 0..threads {
                let (next, f, done) = (&next, &f, &done);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        let slot = &slots()[(first + t) % 64];
                        SLOT.with(|x| *x.borrow_mut() = Some((first + t) % 64));
                        loop {
                            if self.stop.load(Ordering::Relaxed) {
                                break;
                            }
                            let idx = next.fetch_add(1, Ordering::Relaxed) as u64;
                            if idx >= n as u64 {
                                break;
                            }
                            if let Some((p, i)) = &self.only {
                                if p != part || *i != idx {
                                    continue;
                                }
                            }
                            if self.only.is_none() && Instant::now() > self.deadline {
                                self.state.lock().unwrap().skipped += 1;
                                continue;
                            }
                            let mut rng =
                                Rng::derive(self.seed, &format!("{}/{}", self.id, part), idx);
                            let mut c = Case {
                                part: part.to_string(),
                                idx,
                                known_keys: self
                                    .known
                                    .iter()
                                    .filter(|(p, _)| *p == self.id)
                                    .map(|(_, k)| k.clone())
                                    .collect(),
                                ..Default::default()
                            };
                            *slot.what.lock().unwrap() = format!("{}#{}", part, idx);
                            beat();
                            slot.active.store(true, Ordering::Relaxed);
                            let r = guarded(|| f(&mut rng, &mut c));
                            slot.active.store(false, Ordering::Relaxed);
                            match r {
                                Ok(Ok(())) => (),
                                Ok(Err(m)) => c.fail(m),
                                Err(p) if p.is_harness() => {
                                    let mut s = self.state.lock().unwrap();
                                    s.errors.push(format!("{}#{}: {}", part, idx, p.text()));
                                    self.stop.store(true, Ordering::Relaxed);
                                }
                                Err(p) if p.is_cap() => {
                                    c.fail(format!("the run did not end within its bound: {}", p.msg))
                                }
                                Err(p) => c.fail(format!("the library panicked: {}", p.text())),
                            }
                            if self.verbose {
                                if let Some(v) = &c.viol {
                                    eprintln!("{}#{} {}: {}", part, idx, c.desc, v);
                                }
                            }
                            self.absorb(c);
                            done.fetch_add(1, Ordering::Relaxed);
                        }
                        SLOT.with(|x| *x.borrow_mut() = None);
                    })
                    .unwrap();
            }
        });
        self.add(&format!("ms_{}", part), began.elapsed().as_millis() as u64);
    }

    pub fn cases<F>(&self, part: &str, n: usize, f: F)
    where
        F: Fn(&mut Rng, &mut Case) -> Res + Sync,
    {
        self.cases_on(8, part, n, f)
    }

    /// Cases that must not run next to others
    pub fn serial<F>(&self, part: &str, n: usize, f: F)
    where
        F: Fn(&mut Rng, &mut Case) -> Res + Sync,
    {
        self.cases_on(1, part, n, f)
    }
}

fn slots_used() -> &'static AtomicUsize {
    static U: AtomicUsize = AtomicUsize::new(0);
    &U
}

/// Watches for cases without progress. `on_hang` is called with the case and does not return.
pub fn start_watchdog(limit: Duration, on_hang: impl Fn(Option<String>) + Send + 'static) {
    let started = Instant::now();
    now_ms();
    std::thread::spawn(move || {
        // (time, cpu) samples
        let mut cpu: Vec<(u64, f64)> = Vec::new();
        loop {
            std::thread::sleep(Duration::from_millis(1000));
            let now = now_ms();
            let c = util::cpu_time();
            cpu.push((now, c));
            if cpu.len() > 1000 {
                cpu.remove(0);
            }
            for s in slots() {
                if !s.active.load(Ordering::Relaxed) {
                    continue;
                }
                let b = s.beat.load(Ordering::Relaxed);
                if now.saturating_sub(b) > HANG_S * 1000 {
                    let used = cpu
                        .iter()
                        .find(|(t, _)| *t >= b)
                        .map(|(_, c0)| c - c0)
                        .unwrap_or(0.0);
                    if used > 0.6 * HANG_S as f64 {
                        on_hang(Some(s.what.lock().unwrap().clone()));
                    }
                }
            }
            if started.elapsed() > limit {
                on_hang(None);
            }
        }
    });
}
