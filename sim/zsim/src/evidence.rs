use crate::Stats;
use serde_json::{json, Value};

#[allow(clippy::too_many_arguments)]
pub fn write(verif: &str, prop: &str, tier: &str, seed: u64, s: &Stats, plan: &drive::Plan, wall: f64, violations: u64, known: &[String]) {
    let cov = crate::forkrun::cov();
    let covered = cov.iter().filter(|c| **c != 0).count();
    let total = unsafe { zsim_rt::interpose::NGUARDS };
    let samples: Vec<Value> = (0..2).map(|i| serde_json::to_value(drive::generate(prop, crate::run_seed(prop, seed, i), tier)).unwrap()).collect();
    let per_hour = if wall > 0.0 { s.runs as f64 * 3600.0 / wall } else { 0.0 };
    let v = json!({
        "property": prop, "tier": tier, "seed": seed, "level": plan.level,
        "coverage": {
            "evaluations": s.runs,
            "distinct_nontrivial": s.combos.len(),
            "rule": plan.rule,
            "samples": samples,
            "runs_per_hour": per_hour as u64,
            "seeds_per_hour": per_hour as u64,
            "simulated_seconds": s.sim_ns as f64 / 1e9,
            "basic_blocks_executed": s.ticks,
            "context_switches": s.switches,
            "preemptions": s.preemptions,
            "simulated_system_calls": s.syscalls,
            "outside_changes_inside_operations": s.env_inside,
            "max_threads": s.max_threads,
            "faults_injected": s.faults,
            "runs_with_a_fault": s.runs_with_fault,
            "distinct_schedules": s.scheds.len(),
            "distinct_final_states": s.states.len(),
            "distinct_measure": "executions: hash of the whole event log (scheduling decisions, system calls with arguments, faults, outside steps); schedules: hash of the sequence of context switches; states: hash of what the oracle observed",
            "blocks_covered": covered,
            "blocks_instrumented": total,
            "rare_conditions_reached": s.probes,
            "scenarios": s.scenarios,
            "real_components": plan.real,
            "stubbed_components": plan.stubs,
        },
        "assumptions": plan.assumptions,
        "wall_s": wall,
        "violations": violations,
        "known_findings": known,
    });
    let _ = std::fs::create_dir_all(format!("{verif}/evidence"));
    if let Err(e) = std::fs::write(format!("{verif}/evidence/{prop}.json"), serde_json::to_vec_pretty(&v).unwrap()) {
        crate::die(&format!("evidence: {e}"));
    }
}
