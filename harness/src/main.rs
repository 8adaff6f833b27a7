mod checks_a;
mod checks_b;
mod checks_c;
mod checks_d;
mod checks_e;
mod checks_f;
mod checks_g;
mod checks_h;
mod checks_i;
mod core;
mod linalg;
mod model;
mod rst;
mod sim;
mod util;

use crate::core::{Ctx, State, Tier};
use serde_json::{json, Value};
use std::io::Write;
use std::path::PathBuf;
use std::sync::atomic::AtomicBool;
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: checks_g::Counting = checks_g::Counting;

fn checks() -> Vec<(&'static str, fn(&Ctx))> {
    vec![
        ("C01", checks_a::c01),
        ("C02", checks_a::c02),
        ("C03", checks_a::c03),
        ("C04", checks_a::c04),
        ("C05", checks_a::c05),
        ("C06", checks_a::c06),
        ("C07", checks_b::c07),
        ("C08", checks_b::c08),
        ("C09", checks_b::c09),
        ("C10", checks_b::c10),
        ("C11", checks_c::c11),
        ("C12", checks_c::c12),
        ("C13", checks_c::c13),
        ("C14", checks_d::c14),
        ("C15", checks_d::c15),
        ("C16", checks_d::c16),
        ("C17", checks_d::c17),
        ("C18", checks_d::c18),
        ("C19", checks_i::c19),
        ("C20", checks_e::c20),
        ("C21", checks_f::c21),
        ("C22", checks_f::c22),
        ("C23", checks_h::c23),
        ("C24", checks_g::c24),
    ]
}

/// Lets everything that is printed to the standard output disappear, returning a handle to the real
/// one
fn take_stdout() -> std::fs::File {
    use std::os::fd::FromRawFd;
    unsafe {
        let real = libc::dup(1);
        let null = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
        libc::dup2(null, 1);
        libc::close(null);
        std::fs::File::from_raw_fd(real)
    }
}

fn load_known(path: &std::path::Path) -> Vec<(String, String)> {
    // known: property=<id> key=<key> <text>
    let mut out = vec![];
    if let Ok(s) = std::fs::read_to_string(path) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("known: ") {
                let get = |k: &str| {
                    r.split_whitespace()
                        .find_map(|w| w.strip_prefix(k).map(|x| x.to_string()))
                };
                if let (Some(p), Some(k)) = (get("property="), get("key=")) {
                    out.push((p, k));
                }
            }
        }
    }
    out
}

struct Reporter {
    out: Mutex<std::fs::File>,
    replay_dir: PathBuf,
    evidence: PathBuf,
}

impl Reporter {
    fn line(&self, s: &str) {
        let mut o = self.out.lock().unwrap();
        let _ = writeln!(o, "{}", s);
        let _ = o.flush();
    }

    fn finish(&self, ctx: &Ctx, hang: Option<String>) -> i32 {
        let mut st = match ctx.state.lock() {
            Ok(s) => s,
            Err(e) => e.into_inner(),
        };
        if let Some(what) = hang {
            let (part, case) = what.split_once('#').unwrap_or((&what, "0"));
            st.violations.push(json!({
                "property": ctx.id, "tier": format!("{:?}", ctx.tier).to_lowercase(), "seed": ctx.seed,
                "part": part, "case": case.parse::<u64>().unwrap_or(0),
                "message": "a call consumed more than a minute of processor time without any progress", "desc": "",
            }));
        }
        let st: &State = &st;
        let rules = st.rules.join("; ");
        let ev = json!({
            "property": ctx.id,
            "tier": format!("{:?}", ctx.tier).to_lowercase(),
            "seed": ctx.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": st.evaluations,
                "distinct_nontrivial": st.nontrivial.len(),
                "rule": rules,
                "samples": st.samples,
                "observed": st.counters,
                "inconclusive_cases": st.inconclusive,
                "skipped_by_deadline": st.skipped,
            },
            "assumptions": [
                "only the executions that were produced are judged",
            ],
            "known_findings": st.known_hits.iter().map(|(k, (n, m))| json!({"key": k, "hits": n, "example": m})).collect::<Vec<Value>>(),
            "wall_s": ctx.started.elapsed().as_secs_f64(),
            "violations": st.violations.len(),
        });
        if ctx.only.is_none() {
            if let Some(d) = self.evidence.parent() {
                let _ = std::fs::create_dir_all(d);
            }
            if let Err(e) = std::fs::write(&self.evidence, serde_json::to_string_pretty(&ev).unwrap()) {
                eprintln!("cannot write the evidence: {}", e);
                return 2;
            }
        }
        for (k, (n, m)) in &st.known_hits {
            let m: String = m.chars().take(300).collect();
            self.line(&format!(
                "KNOWN-FINDING: property={} {} ({} times), e.g. {}",
                ctx.id, k, n, m.replace('\n', " ")
            ));
        }
        if !st.violations.is_empty() {
            let v = &st.violations[0];
            let _ = std::fs::create_dir_all(&self.replay_dir);
            let path = self.replay_dir.join(format!(
                "{}-{}-{}-{}.json",
                ctx.id,
                v["part"].as_str().unwrap_or("x").replace(['/', ' '], "_"),
                v["case"],
                ctx.seed
            ));
            let _ = std::fs::write(&path, serde_json::to_string_pretty(v).unwrap());
            eprintln!("{}", v["message"].as_str().unwrap_or(""));
            eprintln!("{}", v["desc"].as_str().unwrap_or(""));
            self.line(&format!(
                "VIOLATION property={} replay={}",
                ctx.id,
                path.display()
            ));
            return 1;
        }
        if !st.errors.is_empty() {
            for e in &st.errors {
                eprintln!("harness error: {}", e);
            }
            return 2;
        }
        if ctx.only.is_none() && st.nontrivial.len() < 2 {
            eprintln!(
                "nothing was observed: {} cases, {} distinct and non-trivial",
                st.evaluations,
                st.nontrivial.len()
            );
            return 2;
        }
        self.line(&format!(
            "{} held: {} cases, {} distinct and non-trivial, {:.1} s {:?}",
            ctx.id,
            st.evaluations,
            st.nontrivial.len(),
            ctx.started.elapsed().as_secs_f64(),
            st.counters
        ));
        0
    }
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter()
        .position(|a| a == name)
        .and_then(|i| args.get(i + 1).cloned())
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let root = PathBuf::from(arg(&args, "--root").unwrap_or_else(|| "/verif".into()));
    if let Err(e) = linalg::selftest() {
        eprintln!("self-test: {}", e);
        std::process::exit(2);
    }
    core::install_panic_hook();
    if args.first().map(|s| s.as_str()) == Some("digest") {
        return checks_a::digest(&args[1..]);
    }
    let mut id = args.get(1).cloned().unwrap_or_default();
    let mut seed: u64 = arg(&args, "--seed")
        .or_else(|| std::env::var("VERIF_SEED").ok())
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let mut tier = arg(&args, "--tier")
        .or_else(|| std::env::var("VERIF_TIER").ok())
        .unwrap_or_else(|| "quick".into());
    let mut only = None;
    match args.first().map(|s| s.as_str()) {
        Some("check") => {
            if let (Some(p), Some(c)) = (arg(&args, "--part"), arg(&args, "--case")) {
                only = Some((p, c.parse().unwrap()));
            }
        }
        Some("replay") => {
            let v: Value =
                serde_json::from_str(&std::fs::read_to_string(&id).expect("replay file")).unwrap();
            seed = v["seed"].as_u64().unwrap();
            tier = v["tier"].as_str().unwrap().to_string();
            only = Some((
                v["part"].as_str().unwrap().to_string(),
                v["case"].as_u64().unwrap(),
            ));
            id = v["property"].as_str().unwrap().to_string();
        }
        _ => {
            eprintln!("usage: vmon check <ID> [--tier quick|thorough] [--seed N] | vmon replay <file>");
            std::process::exit(2);
        }
    }
    let tier = if tier == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    };
    let f = match checks().into_iter().find(|(n, _)| *n == id) {
        Some((_, f)) => f,
        None => {
            eprintln!("unknown property {}", id);
            std::process::exit(2);
        }
    };
    let budget: u64 = arg(&args, "--budget")
        .and_then(|s| s.parse().ok())
        .unwrap_or(match tier {
            Tier::Quick => 240,
            Tier::Thorough => 3000,
        });
    let ctx: &'static Ctx = Box::leak(Box::new(Ctx {
        id: id.clone(),
        tier,
        seed,
        only,
        deadline: Instant::now() + Duration::from_secs(budget),
        started: Instant::now(),
        state: Mutex::new(State::default()),
        stop: AtomicBool::new(false),
        known: load_known(&root.join("known-findings.txt")),
        verbose: args.iter().any(|a| a == "--verbose"),
        out_dir: root.clone(),
    }));
    let rep: &'static Reporter = Box::leak(Box::new(Reporter {
        out: Mutex::new(take_stdout()),
        replay_dir: root.join("replays"),
        evidence: root.join("evidence").join(format!("{}.json", id)),
    }));
    core::start_watchdog(Duration::from_secs(budget + 360), move |hang| {
        let code = match hang {
            Some(h) => rep.finish(ctx, Some(h)),
            None => {
                eprintln!("the check did not finish in time");
                3
            }
        };
        std::process::exit(code);
    });
    f(ctx);
    let code = rep.finish(ctx, None);
    std::process::exit(code);
}
