//! Workloads, clients and oracles for the simulated runs.
pub mod files;
pub mod gen_hist;
pub mod hist;
pub mod ignore;
pub mod known;
pub mod license;
pub mod logs;
pub mod par;
pub mod parse;
pub mod pctx;
pub mod plans;
pub mod prof;
pub mod session;
pub mod table;

use serde::{Deserialize, Serialize};
use zsim_rt::Cfg;
use zsim_rt::rng::Rng;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case {
    pub scenario: String,
    pub cfg: Cfg,
    pub work: serde_json::Value,
}

pub use plans::{Plan, plan};

/// Derives workload, schedule parameters and fault mix of one run from its seed.
pub fn generate(property: &str, seed: u64, tier: &str) -> Case {
    let mut r = Rng::new(seed, 99);
    let deep = tier == "thorough";
    match property {
        "C08" => table::generate(seed, &mut r, deep),
        "C14" => pctx::generate(seed, &mut r, deep),
        "C12" => logs::generate(seed, &mut r, deep),
        "C13" => prof::generate(seed, &mut r, deep),
        "C15" => parse::generate(seed, &mut r, deep),
        "C11" => license::generate(seed, &mut r, deep),
        _ => gen_hist::generate(property, seed, &mut r, deep),
    }
}

/// Cases that need state of the process as at its start come first, then those that may share set-up work.
pub fn phase(case: &Case) -> u32 {
    (case.scenario == "parse" && case.work["warm"] == true) as u32
}
/// Set-up work of the later phases of a worker process, outside the simulation.
pub fn enter_phase(property: &str, phase: u32) {
    if property == "C15" && phase == 1 {
        parse::warm();
    }
}

pub fn run(case: &Case) {
    match case.scenario.as_str() {
        "table" => table::run(case),
        "hist" => hist::run(case),
        "pctx" => pctx::run(case),
        "logs" => logs::run(case),
        "prof" => prof::run(case),
        "parse" => parse::run(case),
        "license" => license::run(case),
        s => zsim_rt::fatal("harness", format!("unknown scenario {s}")),
    }
}

/// Schedule parameters, varied per run.
pub fn base_cfg(seed: u64, r: &mut Rng, threads: bool) -> Cfg {
    let strategy = if threads { *r.pick(&[1u8, 1, 1, 2, 2]) } else { *r.pick(&[0u8, 1, 1, 1, 2]) };
    Cfg {
        seed,
        strategy,
        mean: *r.pick(&[3u64, 10, 40, 150, 600, 3000]),
        pct_depth: 1 + r.below(5) as u32,
        pct_span: *r.pick(&[300u64, 1500, 6000, 30000]),
        sys_switch: *r.pick(&[30u32, 150, 400, 800]),
        env_rate: *r.pick(&[20u32, 100, 300]),
        faults: Default::default(),
        max_ticks: 40_000_000,
        clock_step: 1000,
        wall_base: 1_700_000_000,
        rare: if strategy != 0 && r.chance(1, 3) { *r.pick(&[10u32, 40, 150, 400]) } else { 0 },
    }
}

/// The workload of a case.
pub fn work<T: serde::de::DeserializeOwned>(case: &Case) -> T {
    match serde_json::from_value(case.work.clone()) {
        Ok(w) => w,
        Err(e) => zsim_rt::fatal("harness", format!("workload: {e}")),
    }
}
