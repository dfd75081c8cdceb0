//! Worker processes, one forked process per run, and what is reported about them.

use crate::minimise;
use crate::plan::{self, EdStep, Plan};
use crate::prng::mix;
use crate::report::{self, S, WORKERS};
use crate::{seams, world};
use serde::{Deserialize, Serialize};
use std::sync::atomic::Ordering::Relaxed;
use std::time::{Duration, Instant};

/// How a run ended.
#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Fine,
    Cut,
    Violation { kind: String, msg: String },
    /// The simulator itself failed.
    Broken(String),
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    /// Bit per property number whose violation counts.
    pub accept: u32,
    pub kind: String,
    pub message: String,
    /// Hash of the run's event log.
    pub log: String,
    pub plan: Plan,
}

const CPU_SECONDS: u64 = 30;

/// Addresses must be the same in every process.
fn fix_addresses() {
    const ADDR_NO_RANDOMIZE: u64 = 0x0004_0000;
    unsafe {
        let cur = libc::personality(0xffff_ffff);
        if cur < 0 || cur as u64 & ADDR_NO_RANDOMIZE != 0 || std::env::var_os("ASIM_EXEC").is_some() {
            return;
        }
        if libc::personality(cur as u64 | ADDR_NO_RANDOMIZE) < 0 {
            return;
        }
        std::env::set_var("ASIM_EXEC", "1");
        use std::os::unix::process::CommandExt;
        let _ = std::process::Command::new("/proc/self/exe")
            .args(std::env::args_os().skip(1))
            .exec();
    }
}

pub fn init() {
    fix_addresses();
    report::map_shared();
    seams::install_panic_hook();
}

pub fn seed_of(base: u64, property: u32, run: u64) -> u64 {
    mix(&[base, u64::from(property), run, 0x0072_756e]) >> 16
}

/// Executes a plan in a forked process and says how that ended. The outcome's
/// details are in the worker's slot.
pub fn execute(plan: &Plan, worker: usize, accept: u32) -> End {
    report::set_worker(worker);
    let s = report::slot();
    s.kind = [0; 48];
    s.msg_len.store(0, Relaxed);
    s.call_len.store(0, Relaxed);
    s.ctx.store(0, Relaxed);
    s.log.store(plan.seed, Relaxed);
    s.item.store(u32::MAX, Relaxed);
    s.ndec.store(0, Relaxed);
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            let _ = libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let lim = libc::rlimit { rlim_cur: CPU_SECONDS, rlim_max: CPU_SECONDS + 2 };
            let _ = libc::setrlimit(libc::RLIMIT_CPU, &lim);
            let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            let _ = libc::setrlimit(libc::RLIMIT_CORE, &lim);
            let _ = libc::alarm(200);
            report::set_accept(accept);
            if std::env::var_os("ASIM_TRACE").is_none() {
                // aborting code writes messages
                let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
                if std::env::var_os("ASIM_QUIET").is_some() {
                    let _ = libc::dup2(n, 2);
                }
            }
            world::run(plan);
            libc::_exit(0);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        if libc::WIFSIGNALED(st) {
            let sig = libc::WTERMSIG(st);
            let ctx = s.ctx.load(Relaxed);
            let call = report::read_call(worker);
            let (hit, kind, what) = match sig {
                libc::SIGXCPU | libc::SIGALRM | libc::SIGKILL => (
                    (report::p(11) | report::p(8)) & accept != 0 && sig == libc::SIGXCPU,
                    "hang",
                    format!("did not finish within {CPU_SECONDS} s"),
                ),
                _ => (
                    ctx & accept != 0,
                    "crash",
                    format!("ended the process with signal {sig}"),
                ),
            };
            if hit {
                return End::Violation { kind: kind.into(), msg: format!("{call} {what}") };
            }
            if sig == libc::SIGALRM || sig == libc::SIGKILL {
                return End::Broken(format!("run killed by signal {sig} during {call}"));
            }
            report::add(S::cut_short, 1);
            return End::Cut;
        }
        match libc::WEXITSTATUS(st) {
            0 => End::Fine,
            report::EXIT_CUT => End::Cut,
            report::EXIT_VIOLATION => {
                let (kind, msg) = report::read_slot(worker);
                End::Violation { kind, msg }
            }
            n => End::Broken(format!("run process exited with {n}")),
        }
    }
}

fn parse_property(s: &str) -> u32 {
    s.trim_start_matches('C').parse().expect("property")
}

struct Tier {
    runs: u64,
    wall: Duration,
    shrink: Duration,
}
fn tier(property: u32, thorough: bool) -> Tier {
    // enough that the wall limit, not the count, rarely decides
    let quick = match property {
        4 | 5 | 11 => 25_000,
        _ => 40_000,
    };
    let runs = std::env::var("ASIM_RUNS").ok().and_then(|v| v.parse().ok());
    let wall = std::env::var("ASIM_WALL").ok().and_then(|v| v.parse().ok());
    if thorough {
        Tier {
            runs: runs.unwrap_or(quick * 300),
            wall: Duration::from_secs(wall.unwrap_or(720)),
            shrink: Duration::from_secs(90),
        }
    } else {
        Tier {
            runs: runs.unwrap_or(quick),
            wall: Duration::from_secs(wall.unwrap_or(60)),
            shrink: Duration::from_secs(40),
        }
    }
}

pub struct Found {
    pub run: u64,
    pub seed: u64,
    pub worker: usize,
    pub kind: String,
    pub msg: String,
    pub item: u32,
}

/// Runs simulations on all cores until one violates or the budget is used up.
fn search(property: u32, base: u64, t: &Tier, accept: u32) -> Result<(Option<Found>, u64, f64), String> {
    let start = Instant::now();
    let sh = report::shared();
    let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).clamp(1, WORKERS);
    let mut pids = Vec::new();
    for w in 0..n {
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0, "fork");
        if pid == 0 {
            unsafe {
                let _ = libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            }
            let s = report::slot_of(w);
            loop {
                if sh.stop.load(Relaxed) != 0 || start.elapsed() > t.wall {
                    break;
                }
                let i = sh.next.fetch_add(1, Relaxed);
                if i >= t.runs {
                    break;
                }
                let seed = seed_of(base, property, i);
                let plan = plan::generate(property, seed);
                s.run.store(i, Relaxed);
                match execute(&plan, w, accept) {
                    End::Fine | End::Cut => {}
                    End::Violation { kind, msg } => {
                        if s.msg_len.load(Relaxed) == 0 {
                            report::store(&kind, &msg);
                        }
                        s.state.store(1, Relaxed);
                        sh.stop.store(1, Relaxed);
                        break;
                    }
                    End::Broken(m) => {
                        eprintln!("run {i} (seed {seed}): {m}");
                        s.state.store(2, Relaxed);
                        sh.stop.store(1, Relaxed);
                        break;
                    }
                }
            }
            unsafe { libc::_exit(0) };
        }
        pids.push(pid);
    }
    for p in pids {
        let mut st = 0;
        unsafe {
            while libc::waitpid(p, &mut st, 0) < 0 {}
        }
        if st != 0 {
            return Err(format!("a worker ended with status {st}"));
        }
    }
    let mut found: Option<Found> = None;
    let mut broken = false;
    for w in 0..n {
        let s = report::slot_of(w);
        match s.state.load(Relaxed) {
            1 => {
                let run = s.run.load(Relaxed);
                if found.as_ref().map(|f| f.run > run).unwrap_or(true) {
                    let (kind, msg) = report::read_slot(w);
                    found = Some(Found {
                        run,
                        seed: seed_of(base, property, run),
                        worker: w,
                        kind,
                        msg,
                        item: s.item.load(Relaxed),
                    });
                }
            }
            2 => broken = true,
            _ => {}
        }
    }
    if broken && found.is_none() {
        return Err("the simulator failed".into());
    }
    let runs = sh.next.load(Relaxed).min(t.runs);
    Ok((found, runs, start.elapsed().as_secs_f64()))
}

fn describe(plan: &Plan) -> serde_json::Value {
    let count = |f: &dyn Fn(&EdStep) -> bool| {
        plan.files.iter().map(|x| x.steps.iter().filter(|s| f(s)).count()).collect::<Vec<_>>()
    };
    let short = |v: &dyn std::fmt::Debug| format!("{v:?}").chars().take(700).collect::<String>();
    serde_json::json!({
        "seed": plan.seed,
        "files": plan.files.len(),
        "edits_per_file": count(&|s| matches!(s, EdStep::Edit(_))),
        "saves_per_file": count(&|s| matches!(s, EdStep::Save { .. })),
        "faults": short(&plan.faults),
        "reader_0": short(&plan.readers.first()),
        "readers": plan.readers.len(),
        "strategy": short(&plan.strategy),
    })
}

const FAULTS: &[&str] = &[
    "f_", "blocks_lost", "saves_killed", "editor_restarts", "server_crashes", "stale_size_after_crash",
    "torn_reads", "stalls", "preemptions",
];

fn evidence(
    property: &str,
    num: u32,
    thorough: bool,
    base: u64,
    runs: u64,
    search_s: f64,
    wall: f64,
    violations: u32,
    repeat: (u32, u32),
) -> serde_json::Value {
    let sh = report::shared();
    let stat = |n: &str| {
        let i = report::STAT_NAMES.iter().position(|x| *x == n).unwrap();
        sh.stats[i].load(Relaxed)
    };
    let mut faults = serde_json::Map::new();
    let mut observed = serde_json::Map::new();
    for (i, n) in report::STAT_NAMES.iter().enumerate() {
        let v = sh.stats[i].load(Relaxed);
        if FAULTS.iter().any(|f| n.starts_with(f)) {
            let _ = faults.insert(n.trim_start_matches("f_").into(), v.into());
        } else if !matches!(*n, "runs" | "sim_ns" | "nontrivial" | "ignored_violations" | "switches") {
            let _ = observed.insert((*n).into(), v.into());
        }
    }
    let edges = sh.cov.iter().filter(|c| **c != 0).count();
    let evals = stat("loads") + stat("decodes") + stat("renders") + stat("hashes") + stat("selects") + stat("raw_reads") + stat("churn_loads");
    let samples: Vec<_> = (0..3.min(runs))
        .map(|i| describe(&plan::generate(num, seed_of(base, num, i))))
        .collect();
    serde_json::json!({
        "property": property,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": base,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": stat("nontrivial"),
            "rule": "An evaluation is one library call (load, parse, decode, render, hash, selection) made on the real library inside a simulated run and judged by the oracle. Runs are generated from a seed (editors saving sprites to a simulated disk, crashes and damage, reader tasks under a seeded scheduler). Counted as distinct and non-trivial: distinct triples of stored bytes, call and outcome (result and buffer contents), deduplicated by hash over all runs of this check; failed loads count by their bytes.",
            "samples": samples,
            "simulated_runs": runs,
            "runs_per_hour": (runs as f64 / search_s.max(0.001) * 3600.0) as u64,
            "seeds": format!("seed of run i = f(VERIF_SEED={base}, property, i), i = 0..{runs}"),
            "simulated_seconds": stat("sim_ns") as f64 / 1e9,
            "faults_injected": faults,
            "observed": observed,
            "distinct_interleavings": sh.n_interleavings.load(Relaxed),
            "interleaving_measure": "distinct hashes of the sequence of scheduling decisions (task, number of control-flow edges it ran) of runs with more than one reader task",
            "library_edges_reached": edges,
            "library_edges_instrumented": seams::guards(),
            "determinism_reruns": { "runs": repeat.0, "identical_event_logs": repeat.1 },
            "components": {
                "real": ["aseprite-loader (all of it, rebuilt from /repo)", "nom", "flate2 and miniz_oxide", "std"],
                "simulated": ["editor (writes files)", "disk with volatile cache, crash and damage", "scheduler", "clock, sleep, futex, yield", "process randomness", "memory accounting"],
                "stubbed": []
            }
        },
        "wall_s": wall,
        "violations": violations,
        "assumptions": [
            "Interleavings are explored at control-flow edges and allocations under sequentially consistent memory.",
            "The editor is a model of the file format written for this simulator; the oracle does not use the library's code.",
            "Allocation failure is not injected: the library allocates infallibly, so std aborts by design."
        ]
    })
}

pub fn check(args: &[String]) -> i32 {
    init();
    let start = Instant::now();
    let name = args[0].clone();
    let num = parse_property(&name);
    let thorough = args[1] == "thorough";
    let base: u64 = args[2].parse().unwrap_or(1);
    let dir = args[3].clone();
    // for trials: violations of other properties count as well
    let accept = match std::env::var("ASIM_ACCEPT").ok().and_then(|v| v.parse().ok()) {
        Some(all) => all,
        None => report::p(num),
    };
    let t = tier(num, thorough);
    println!("seed {base}: {name}, {} tier", args[1]);
    let (found, runs, search_s) = match search(num, base, &t, accept) {
        Ok(v) => v,
        Err(m) => {
            eprintln!("error: {m}");
            return 2;
        }
    };
    // the same seeds again: the event logs must be the same
    let mut repeat = (0, 0);
    let keep: Vec<u64> = report::shared().stats.iter().map(|s| s.load(Relaxed)).collect();
    if found.is_none() {
        for i in 0..runs.min(12) {
            let plan = plan::generate(num, seed_of(base, num, i));
            let mut logs = Vec::new();
            for w in 0..2 {
                let _ = execute(&plan, w, accept);
                logs.push(report::slot_of(w).log.load(Relaxed));
            }
            repeat.0 += 1;
            repeat.1 += u32::from(logs[0] == logs[1]);
        }
        for (s, v) in report::shared().stats.iter().zip(keep) {
            s.store(v, Relaxed);
        }
    }
    let write_evidence = |violations: u32| {
        let e = evidence(
            &name, num, thorough, base, runs, search_s, start.elapsed().as_secs_f64(), violations, repeat,
        );
        let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
        std::fs::write(
            format!("{dir}/evidence/{name}.json"),
            serde_json::to_string_pretty(&e).unwrap(),
        )
    };
    if let Err(e) = write_evidence(u32::from(found.is_some())) {
        eprintln!("error: evidence: {e}");
        return 2;
    }
    let sh = report::shared();
    println!(
        "{runs} runs in {search_s:.1} s, {} loads, {} calls, {} ended early, {} identical of {} repeated",
        report::stat(S::loads),
        report::stat(S::decodes) + report::stat(S::renders) + report::stat(S::hashes),
        report::stat(S::cut_short),
        repeat.1,
        repeat.0
    );
    let _ = sh;
    let Some(f) = found else {
        return 0;
    };
    println!("run {} (seed {}) violates {name}: {}: {}", f.run, f.seed, f.kind, f.msg);
    let decisions = {
        let s = report::slot_of(f.worker);
        let n = (s.ndec.load(Relaxed) as usize).min(report::DECISIONS);
        s.dec[..n].to_vec()
    };
    let plan = plan::generate(num, f.seed);
    let original = plan.clone();
    let plan = minimise::minimise(plan, &f, decisions, accept, t.shrink);
    let _ = std::fs::create_dir_all(format!("{dir}/replays"));
    let path = format!("{dir}/replays/{name}-{}.json", f.seed);
    // the smaller plan, and if that fails the one that was found
    for plan in [plan, original] {
        let end = execute(&plan, 0, accept);
        let log = report::slot_of(0).log.load(Relaxed);
        let (kind, message) = match end {
            End::Violation { kind, msg } => (kind, msg),
            _ => (f.kind.clone(), f.msg.clone()),
        };
        let r = Replay {
            property: name.clone(),
            accept,
            kind,
            message: message.clone(),
            log: format!("{log:016x}"),
            plan,
        };
        if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap()) {
            eprintln!("error: {path}: {e}");
            return 2;
        }
        // once more from the file, in a fresh process
        match std::process::Command::new("/proc/self/exe").args(["replay", &path]).output() {
            Ok(o) if o.status.code() == Some(1) => {
                println!("minimised: {message}");
                println!("VIOLATION property={name} replay={path}");
                return 1;
            }
            o => eprintln!("the replay did not reproduce the violation: {o:?}"),
        }
    }
    // It did happen, in a run that only the seed decides: the code under test
    // depends on something no seam covers.
    println!("not reproduced by the replay: the library depends on something outside the simulation");
    println!("VIOLATION property={name} replay={path}");
    1
}

/// Exit 1 if the violation in the file is reproduced.
pub fn replay(args: &[String]) -> i32 {
    init();
    let text = match std::fs::read_to_string(&args[0]) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {e}", args[0]);
            return 2;
        }
    };
    let r: Replay = serde_json::from_str(&text).expect("replay file");
    match execute(&r.plan, 0, r.accept) {
        End::Violation { kind, msg } => {
            let log = format!("{:016x}", report::slot_of(0).log.load(Relaxed));
            println!("{kind}: {msg}");
            println!(
                "{}",
                if kind == r.kind && msg == r.message && log == r.log {
                    "identical to the recorded run"
                } else {
                    "differs from the recorded run"
                }
            );
            println!("VIOLATION property={} replay={}", r.property, args[0]);
            1
        }
        End::Broken(m) => {
            eprintln!("error: {m}");
            2
        }
        e => {
            println!("no violation ({e:?})");
            0
        }
    }
}

/// Prints the event log hash of each run: the same for any number of workers.
pub fn selftest(args: &[String]) -> i32 {
    init();
    let num = parse_property(&args[0]);
    let from: u64 = args[1].parse().unwrap();
    let count: u64 = args[2].parse().unwrap();
    let accept = args.get(3).map(|a| a.parse().unwrap()).unwrap_or(0);
    for i in from..from + count {
        let seed = seed_of(1, num, i);
        let plan = plan::generate(num, seed);
        let t = Instant::now();
        let e = execute(&plan, 0, accept);
        let log = report::slot_of(0).log.load(Relaxed);
        if std::env::var_os("ASIM_TIME").is_some() {
            println!("{i} {seed} {log:016x} {:?} {} ms", e, t.elapsed().as_millis());
        } else {
            println!("{i} {seed} {log:016x} {e:?}");
        }
    }
    if std::env::var_os("ASIM_STATS").is_some() {
        for (i, n) in report::STAT_NAMES.iter().enumerate() {
            println!("{n} {}", report::shared().stats[i].load(Relaxed));
        }
    }
    0
}

pub fn show(args: &[String]) -> i32 {
    let plan = plan::generate(parse_property(&args[0]), args[1].parse().unwrap());
    println!("{}", serde_json::to_string_pretty(&plan).unwrap());
    0
}
