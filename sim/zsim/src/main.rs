//! Seeded search over simulated executions: fork one process per run, collect, minimise, report.
mod evidence;
mod forkrun;
mod shrink;

use drive::Case;
use forkrun::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::time::Instant;
use zsim_rt::Outcome;

#[derive(Serialize, Deserialize, Clone)]
pub struct Replay {
    pub property: String,
    pub class: String,
    pub message: String,
    pub case: Case,
    /// recorded decisions; none = the decisions derive from case.cfg.seed
    pub rec: Option<zsim_rt::Rec>,
    pub original_seed: u64,
    #[serde(default)]
    pub log_hash: u64,
}

#[derive(Serialize, Deserialize, Clone, Default)]
pub struct Stats {
    pub runs: u64,
    pub ticks: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub syscalls: u64,
    pub env_inside: u64,
    pub sim_ns: u64,
    pub max_threads: u64,
    pub faults: BTreeMap<String, u64>,
    pub runs_with_fault: u64,
    pub probes: BTreeMap<String, u64>,
    pub scheds: BTreeSet<u64>,
    pub states: BTreeSet<u64>,
    pub combos: BTreeSet<u64>,
    pub scenarios: BTreeMap<String, u64>,
}
impl Stats {
    fn add(&mut self, c: &Case, o: &Outcome) {
        self.runs += 1;
        self.ticks += o.ticks;
        self.switches += o.switches;
        self.preemptions += o.preemptions;
        self.syscalls += o.syscalls;
        self.env_inside += o.env_inside;
        self.sim_ns += o.sim_ns;
        self.max_threads = self.max_threads.max(o.threads);
        for (k, v) in &o.faults {
            *self.faults.entry(k.clone()).or_insert(0) += v;
        }
        self.runs_with_fault += (!o.faults.is_empty()) as u64;
        for (k, v) in &o.probes {
            *self.probes.entry(k.clone()).or_insert(0) += v;
        }
        self.scheds.insert(o.sched_hash);
        self.states.insert(o.state_hash);
        self.combos.insert(o.log_hash);
        *self.scenarios.entry(c.scenario.clone()).or_insert(0) += 1;
    }
    fn merge(&mut self, s: Stats) {
        self.runs += s.runs;
        self.ticks += s.ticks;
        self.switches += s.switches;
        self.preemptions += s.preemptions;
        self.syscalls += s.syscalls;
        self.env_inside += s.env_inside;
        self.sim_ns += s.sim_ns;
        self.runs_with_fault += s.runs_with_fault;
        self.max_threads = self.max_threads.max(s.max_threads);
        for (k, v) in s.faults {
            *self.faults.entry(k).or_insert(0) += v;
        }
        for (k, v) in s.probes {
            *self.probes.entry(k).or_insert(0) += v;
        }
        self.scheds.extend(s.scheds);
        self.states.extend(s.states);
        self.combos.extend(s.combos);
        for (k, v) in s.scenarios {
            *self.scenarios.entry(k).or_insert(0) += v;
        }
    }
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
}

pub fn die(msg: &str) -> ! {
    eprintln!("zsim: harness error: {msg}");
    std::process::exit(3)
}

/// Outcomes that say the simulator, not the code, is at fault.
pub fn is_harness(class: &str) -> bool {
    class == "harness"
}

pub fn run_seed(property: &str, seed: u64, i: u64) -> u64 {
    let mut r = zsim_rt::rng::Rng::new(seed.wrapping_mul(0x5851_F42D_4C95_7F2D) ^ zsim_rt::hash(property.as_bytes()), i);
    r.next() >> 1
}

#[derive(Serialize, Deserialize, Default)]
struct WorkerOut {
    stats: Stats,
    violation: Option<(u64, Case, Outcome)>,
    error: Option<String>,
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).cloned().unwrap_or_default();
    let tier = arg(&args, "--tier").unwrap_or("quick".into());
    let seed: u64 = arg(&args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let prop = arg(&args, "--property").unwrap_or_default();
    match cmd.as_str() {
        "check" => check(&prop, &tier, seed, &args),
        "run" => {
            let i: u64 = arg(&args, "--index").and_then(|s| s.parse().ok()).unwrap_or(0);
            let c = drive::generate(&prop, run_seed(&prop, seed, i), &tier);
            let o = fork_run(&c, None, args.contains(&"--trace".to_string()));
            println!("{}", serde_json::to_string(&c).unwrap());
            for l in &o.trace {
                println!("{l}");
            }
            println!("violation: {:?} ticks {} switches {} syscalls {} rec {} probes {:?} faults {:?}", o.violation, o.ticks, o.switches, o.syscalls, o.rec.len(), o.probes, o.faults);
        }
        "replay" => {
            let f = args.get(2).cloned().unwrap_or_default();
            let r: Replay = serde_json::from_slice(&std::fs::read(&f).unwrap_or_else(|e| die(&format!("{f}: {e}")))).unwrap_or_else(|e| die(&format!("{f}: {e}")));
            let o = fork_run(&r.case, r.rec.clone(), args.contains(&"--trace".to_string()));
            for l in &o.trace {
                println!("{l}");
            }
            match o.violation {
                Some((c, m)) => {
                    println!("{c}: {m}");
                    println!("reproduced: class {} event log {}", if c == r.class { "same" } else { "DIFFERENT" }, if o.log_hash == r.log_hash { "identical" } else { "differs" });
                    println!("VIOLATION property={} replay={}", r.property, f);
                    std::process::exit(1)
                }
                None => println!("no violation"),
            }
        }
        "determinism" => {
            let n: u64 = arg(&args, "--runs").and_then(|s| s.parse().ok()).unwrap_or(200);
            determinism(&prop, &tier, seed, n);
        }
        _ => die("usage: zsim check|run|replay|determinism"),
    }
}

/// Every case is run in three ways: twice from its seed, once from its recorded decisions.
fn determinism(prop: &str, tier: &str, seed: u64, n: u64) {
    let bad = parallel(8, |w, buf| {
        let mut bad = vec![];
        let mut i = w as u64;
        while i < n {
            let c = drive::generate(prop, run_seed(prop, seed, i), tier);
            let a = fork_run(&c, None, false);
            let b = fork_run(&c, None, false);
            let r = fork_run(&c, Some(a.rec.clone()), false);
            if a.log_hash != b.log_hash || a.ticks != b.ticks || a.violation != b.violation {
                bad.push(format!("index {i}: two seeded runs differ"));
            }
            if a.log_hash != r.log_hash || a.ticks != r.ticks || a.violation != r.violation {
                bad.push(format!("index {i}: replay of the recorded decisions differs ({:?} vs {:?}; {} vs {})", a.violation, r.violation, a.ticks, r.ticks));
            }
            i += 8;
        }
        buf.put(&bad);
    });
    let all: Vec<String> = bad.iter().flat_map(|b| serde_json::from_slice::<Vec<String>>(b).unwrap_or_else(|_| vec!["worker died".into()])).collect();
    for b in &all {
        println!("{b}");
    }
    println!("{prop}: {} differences in {n} cases x 3 runs", all.len());
    if !all.is_empty() {
        std::process::exit(1)
    }
}

fn check(prop: &str, tier: &str, seed: u64, args: &[String]) {
    let t0 = Instant::now();
    let verif = arg(args, "--verif").unwrap_or("/verif".into());
    if unsafe { zsim_rt::interpose::NGUARDS } < 3000 {
        die("the code under test is not instrumented (RUSTC_WRAPPER missing?)");
    }
    let plan = drive::plan(prop, tier);
    let runs = arg(args, "--runs").and_then(|s| s.parse().ok()).unwrap_or(plan.runs);
    let wall = arg(args, "--wall").and_then(|s| s.parse().ok()).unwrap_or(plan.wall_s);
    // known findings are fixed histories, kept out of the search by construction of the workloads
    let mut known_lines = vec![];
    for f in drive::known::load(&verif, prop) {
        let Ok(b) = std::fs::read(format!("{verif}/findings/{}", f.replay)) else { die(&format!("missing findings/{}", f.replay)) };
        let r: Replay = serde_json::from_slice(&b).unwrap_or_else(|e| die(&format!("{}: {e}", f.replay)));
        let o = fork_run(&r.case, r.rec.clone(), false);
        match o.violation {
            Some((c, _)) if c == r.class => known_lines.push(format!("KNOWN-FINDING: property={prop} {}", f.what)),
            Some((c, m)) if is_harness(&c) => die(&m),
            // fails differently: that is not the listed finding
            Some(_) => report(prop, seed, tier, &verif, r.case.clone(), o.clone(), r.rec.clone(), 0, t0, Stats::default(), &plan),
            None => {}
        }
    }
    for l in &known_lines {
        println!("{l}");
    }
    // development aid: look for one class of violation only
    let only = arg(args, "--class");
    let stop = shared_flag();
    let outs = parallel(8, |w, buf| {
        let mut out = WorkerOut::default();
        'all: for phase in 0..if prop == "C15" { 2 } else { 1 } {
            drive::enter_phase(prop, phase);
            let mut i = w as u64;
            while i < runs && !stop.get() && t0.elapsed().as_secs_f64() < wall {
                let c = drive::generate(prop, run_seed(prop, seed, i), tier);
                if drive::phase(&c) != phase {
                    i += 8;
                    continue;
                }
                let o = fork_run(&c, None, false);
                out.stats.add(&c, &o);
                if let Some((k, m)) = &o.violation
                    && only.as_ref().is_none_or(|c| c == k || is_harness(k))
                {
                    if is_harness(k) {
                        out.error = Some(format!("index {i}: {m}"));
                    } else {
                        out.violation = Some((i, c, o));
                    }
                    stop.set();
                    break 'all;
                }
                i += 8;
            }
        }
        buf.put(&out);
    });
    let mut stats = Stats::default();
    let mut first: Option<(u64, Case, Outcome)> = None;
    for b in outs {
        let o: WorkerOut = serde_json::from_slice(&b).unwrap_or_else(|_| die("a worker died"));
        if let Some(e) = o.error {
            die(&e);
        }
        stats.merge(o.stats);
        if let Some(v) = o.violation {
            if first.as_ref().is_none_or(|f| v.0 < f.0) {
                first = Some(v);
            }
        }
    }
    if let Some((i, c, o)) = first {
        report(prop, seed, tier, &verif, c, o, None, i, t0, stats, &plan);
    }
    let wall_s = t0.elapsed().as_secs_f64();
    evidence::write(&verif, prop, tier, seed, &stats, &plan, wall_s, 0, &known_lines);
    println!("{prop}: {} runs, {} distinct executions, {} switches, no violation, {:.1} s", stats.runs, stats.combos.len(), stats.switches, wall_s);
}

#[allow(clippy::too_many_arguments)]
fn report(prop: &str, seed: u64, tier: &str, verif: &str, case: Case, o: Outcome, rec: Option<zsim_rt::Rec>, index: u64, t0: Instant, stats: Stats, plan: &drive::Plan) -> ! {
    let (class, msg) = o.violation.clone().unwrap();
    println!("seed {} (index {index} of VERIF_SEED={seed}): {class}: {msg}", case.cfg.seed);
    let r = shrink::minimise(prop, case, o, rec, 120.0);
    let dir = format!("{verif}/replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{prop}-{:016x}.json", r.case.cfg.seed);
    std::fs::write(&path, serde_json::to_vec_pretty(&r).unwrap()).unwrap_or_else(|e| die(&format!("{path}: {e}")));
    // the file must reproduce the violation exactly
    let again = fork_run(&r.case, r.rec.clone(), false);
    println!("minimised: {}: {}", r.class, r.message);
    println!("workload: {}", serde_json::to_string(&r.case.work).unwrap());
    if let Some(rec) = &r.rec {
        println!("decisions: {} ({} preemptions, {} switches at calls, {} faults, {} outside steps inside calls)", rec.len(), rec.pre.len(), rec.pts.len(), rec.faults.len(), rec.env.len());
    }
    println!("replay check: {}", if again.violation.as_ref().map(|v| &v.0) == Some(&r.class) { "reproduced" } else { "NOT reproduced" });
    evidence::write(verif, prop, tier, seed, &stats, plan, t0.elapsed().as_secs_f64(), 1, &[]);
    println!("VIOLATION property={prop} replay={path}");
    std::process::exit(1)
}
