//! C23: the workloads of the `san` crate under sanitizers and Miri.

use serde_json::Value;
use std::collections::HashSet;
use std::io::Read;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use crate::core::{beat, Case, Ctx};
use crate::util::{Fnv, Rng};

const WORKLOADS: [&str; 10] = ["local", "parallel", "pool", "concurrent", "shared", "faults", "restarts", "nested", "misc", "misuse"];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Flavour {
    Plain,
    Thread,
    Address,
    Memory,
    Miri,
}

struct Job {
    flavour: Flavour,
    workload: &'static str,
    seed: u64,
    cases: usize,
    size: &'static str,
    limit: u64,
}

fn san_dir() -> PathBuf {
    // harness/target/release/vmon or anything else below the folder of the harness
    let args: Vec<String> = std::env::args().collect();
    let root = args
        .iter()
        .position(|a| a == "--root")
        .and_then(|i| args.get(i + 1).cloned())
        .unwrap_or_else(|| "/verif".into());
    PathBuf::from(root).join("san")
}

fn command(j: &Job) -> Command {
    let dir = san_dir();
    let t = "x86_64-unknown-linux-gnu";
    let bin = |k: &str, sub: &str| dir.join("target").join(k).join(sub).join("release/san");
    let mut c = match j.flavour {
        Flavour::Plain => Command::new(bin("plain", "")),
        Flavour::Thread => Command::new(bin("thread", t)),
        Flavour::Address => Command::new(bin("address", t)),
        Flavour::Memory => Command::new(bin("memory", t)),
        Flavour::Miri => {
            let mut c = Command::new("cargo");
            c.args(["+nightly", "miri", "run", "--offline", "--quiet", "--"]);
            c.current_dir(&dir).env("CARGO_TARGET_DIR", "target/miri").env("CARGO_NET_OFFLINE", "true").env(
                "MIRIFLAGS",
                format!(
                    "-Zmiri-disable-isolation -Zmiri-tree-borrows -Zmiri-ignore-leaks -Zmiri-permissive-provenance -Zmiri-deterministic-floats -Zmiri-seed={} -Zmiri-preemption-rate=0.05",
                    j.seed % 1000
                ),
            );
            c
        }
    };
    c.args([j.workload, &j.seed.to_string(), &j.cases.to_string(), j.size])
        .env("TSAN_OPTIONS", "halt_on_error=1 exitcode=66")
        .env("ASAN_OPTIONS", "detect_leaks=0:detect_stack_use_after_return=1")
        .env("RUST_BACKTRACE", "0")
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped());
    c
}

struct Outcome {
    out: String,
    err: String,
    code: Option<i32>,
    signal: Option<i32>,
    timeout: bool,
}

fn run(j: &Job) -> Result<Outcome, String> {
    use std::os::unix::process::CommandExt;
    let mut c = command(j);
    c.process_group(0);
    let mut p = c.spawn().map_err(|e| format!("cannot start {:?}: {}", c, e))?;
    let mut so = p.stdout.take().unwrap();
    let mut se = p.stderr.take().unwrap();
    let a = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = so.read_to_end(&mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let b = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = se.read_to_end(&mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let started = Instant::now();
    let mut timeout = false;
    let status = loop {
        beat();
        if let Some(s) = p.try_wait().map_err(|e| e.to_string())? {
            break s;
        }
        if !timeout && started.elapsed() > Duration::from_secs(j.limit) {
            timeout = true;
            unsafe {
                libc::kill(-(p.id() as i32), libc::SIGKILL);
            }
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    Ok(Outcome {
        out: a.join().unwrap_or_default(),
        err: b.join().unwrap_or_default(),
        code: status.code(),
        signal: std::os::unix::process::ExitStatusExt::signal(&status),
        timeout,
    })
}

/// What the instrumentation reported, if anything
fn report(err: &str) -> Option<String> {
    for k in [
        "WARNING: ThreadSanitizer:",
        "ERROR: AddressSanitizer:",
        "WARNING: MemorySanitizer:",
        "error: Undefined Behavior",
        "unsafe precondition(s) violated",
        "error: the evaluated program deadlocked",
    ] {
        if let Some(i) = err.find(k) {
            return Some(err[i..].chars().take(3000).collect());
        }
    }
    None
}

pub fn c23(ctx: &Ctx) {
    let thorough = ctx.thorough();
    let base = ctx.seed.wrapping_mul(1009);
    let mut jobs: Vec<Job> = vec![];
    let mut add = |flavour, workload, k: u64, cases, size, limit| {
        jobs.push(Job { flavour, workload, seed: base.wrapping_add(k) % 1_000_000_007, cases, size, limit })
    };
    if thorough {
        for k in 0..24 {
            for w in WORKLOADS {
                add(Flavour::Miri, w, k, 2, "tiny", 900);
            }
        }
        for k in 0..12 {
            for f in [Flavour::Thread, Flavour::Address, Flavour::Memory] {
                add(f, "all", 100 + k, 60, "big", 900);
                add(f, "all", 200 + k, 60, "small", 900);
            }
            add(Flavour::Plain, "all", 300 + k, 300, "big", 900);
        }
    } else {
        for w in WORKLOADS {
            add(Flavour::Miri, w, 0, 1, "tiny", 400);
        }
        add(Flavour::Thread, "all", 1, 50, "small", 400);
        add(Flavour::Thread, "parallel", 2, 30, "big", 400);
        add(Flavour::Thread, "concurrent", 3, 12, "big", 400);
        add(Flavour::Address, "all", 4, 50, "small", 400);
        add(Flavour::Memory, "all", 5, 50, "small", 400);
        add(Flavour::Plain, "all", 6, 40, "big", 400);
        add(Flavour::Plain, "parallel", 7, 200, "small", 400);
        add(Flavour::Plain, "faults", 8, 200, "small", 400);
        add(Flavour::Plain, "misuse", 9, 400, "small", 400);
        add(Flavour::Address, "misuse", 10, 150, "small", 400);
    }
    ctx.rule("each case is one process of workloads built for ThreadSanitizer, AddressSanitizer, MemorySanitizer, Miri, or without instrumentation (with standard library checks of unsafe preconditions); it fails by a report of the instrumentation, a crash, or an oracle of the workload: overlapping exclusive calls, calls or drops on a thread that were not promised to be allowed, evaluations still running when the generation has returned, runs changed by others; non-trivial if the objective was called; interleavings are the distinct orders in which threads made the calls");
    let seen: Mutex<HashSet<String>> = Mutex::new(HashSet::new());
    let jobs = &jobs;
    let seen = &seen;
    ctx.cases_on(if thorough { 8 } else { 12 }, "process", jobs.len(), |_: &mut Rng, c: &mut Case| {
        let j = &jobs[c.idx as usize];
        c.desc = format!("{:?} {} seed {} cases {} {}", j.flavour, j.workload, j.seed, j.cases, j.size);
        let o = run(j)?;
        if let Some(r) = report(&o.err) {
            // Diagnostics of the harness's own code would not count, but it is free of unsafe code
            return Err(format!("{:?} reported: {}", j.flavour, r));
        }
        if let Some(l) = o.out.lines().find(|l| l.starts_with("SAN-FAIL")) {
            return Err(format!("{:?}: {}", j.flavour, l));
        }
        if o.timeout {
            if j.flavour == Flavour::Plain {
                return Err(format!("the workload did not end within {} s", j.limit));
            }
            c.inconclusive = true;
            c.count("timeouts", 1);
            return Ok(());
        }
        let ok = o.out.lines().rev().find_map(|l| l.strip_prefix("SAN-OK "));
        let v: Value = match ok.and_then(|l| serde_json::from_str(l).ok()) {
            Some(v) => v,
            None => {
                let tail: String = o.err.chars().rev().take(1500).collect::<Vec<_>>().into_iter().rev().collect();
                return match o.code {
                    // Ended from outside when memory ran out
                    None if o.signal == Some(libc::SIGKILL) => {
                        c.inconclusive = true;
                        c.count("killed", 1);
                        Ok(())
                    }
                    _ if tail.contains("FATAL: ThreadSanitizer") || tail.contains("Shadow memory range interleaves") || tail.contains("failed to allocate") => {
                        c.inconclusive = true;
                        c.count("not_started", 1);
                        Ok(())
                    }
                    _ => Err(format!("{:?} ended with {:?}, signal {:?}: {}", j.flavour, o.code, o.signal, tail)),
                };
            }
        };
        for (k, name) in [
            ("calls", "calls"),
            ("cases", "workload_cases"),
            ("generations", "generations"),
            ("constraint_checks", "constraint_checks"),
            ("panics", "panics"),
            ("concurrent_runs", "concurrent_runs"),
            ("restarters", "restarters"),
            ("images", "images"),
            ("misuses", "misuses"),
            ("rejected", "rejected"),
        ] {
            if let Some(n) = v[k].as_u64() {
                c.count(name, n);
            }
        }
        c.count(
            match j.flavour {
                Flavour::Plain => "processes_plain",
                Flavour::Thread => "processes_tsan",
                Flavour::Address => "processes_asan",
                Flavour::Memory => "processes_msan",
                Flavour::Miri => "processes_miri",
            },
            1,
        );
        let mut s = seen.lock().unwrap();
        if let Some(a) = v["interleavings"].as_array() {
            for x in a.iter().filter_map(|x| x.as_str()) {
                if s.insert(x.to_string()) {
                    c.count("distinct_interleavings", 1);
                }
            }
        }
        drop(s);
        let mut v = v;
        if let Some(o) = v.as_object_mut() {
            o.remove("interleavings");
        }
        c.extra = v;
        let mut h = Fnv::new();
        h.u64(c.idx);
        c.nontrivial = Some(h.get());
        Ok(())
    });
}
