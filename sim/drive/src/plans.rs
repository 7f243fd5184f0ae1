//! How much each check explores, and what its evidence says about it.
pub struct Plan {
    pub runs: u64,
    pub wall_s: f64,
    pub level: &'static str,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stubs: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}
const REAL_VFS: &[&str] = &["crates/vfs", "crates/utils", "notify", "inotify", "mio", "crossbeam-channel", "arc-swap", "tracing", "Rust std (threads, locks, fs)"];
const KERNEL: &str = "kernel: file system, inotify, epoll, futex, clock, random numbers (simulated below libc)";
const STUB_VFS: &[&str] = &[KERNEL, "zuban_python file and import resolution (a small client with the same calls into vfs)", "language server main loop (same order of calls)"];
const STUB_NOWATCH: &[&str] = &[KERNEL, "zuban_python file and import resolution (a small client with the same calls into vfs)"];
const STUB_KERNEL: &[&str] = &[KERNEL];
const SC: &str = "sequentially consistent memory (one thread runs at a time)";
const ASSUME_VFS: &[&str] = &[
    "inotify model: event order, coalescing and watch lifetimes as documented in inotify(7), no queue overflow",
    "the workspace root directory itself is not replaced",
    "file names ending in .py/.pyi are not directories",
    SC,
];
const ASSUME_SC: &[&str] = &[SC];

pub fn plan(prop: &str, tier: &str) -> Plan {
    let deep = tier == "thorough";
    const HIST: &str = "an evaluation is one simulated history of editor, disk and watcher events; distinct = different event log";
    let p = |runs, rule, real, stubs, assumptions| Plan { runs, wall_s: 0.0, level: "exploration", rule, real, stubs, assumptions };
    let mut p = match prop {
        "C07" => p(60_000, "an evaluation is one simulated execution of 2-4 threads that load, resolve and walk one project tree; distinct = different event log", REAL_VFS, STUB_NOWATCH, ASSUME_VFS),
        "C08" => p(120_000, "an evaluation is one simulated execution of 2-4 threads on one table; distinct = different event log", &["crates/utils (InsertOnlyVec)", "Rust std (threads, locks)"], STUB_KERNEL, ASSUME_SC),
        "C09" => p(60_000, "an evaluation is one simulated execution of 2-4 threads that register workspaces and look files up; distinct = different event log", REAL_VFS, STUB_NOWATCH, ASSUME_VFS),
        "C11" => p(60_000, "an evaluation is one simulated life of a license file (creation, edits, clock moves, faults, concurrent checks); distinct = different event log", &["crates/licensing (with the guarded extra key)", "ed25519-dalek", "serde_json", "Rust std (fs, time, threads)"], &[KERNEL, "the private key of the vendor (a test key the guarded hook trusts as well)"], &["the signature scheme itself is sound", "the clock is never before 1970 (Linux refuses that)", SC]),
        "C12" => p(30_000, "an evaluation is one simulated execution of 1-4 threads that log through the configured subscriber, over restarts; distinct = different event log", &["crates/logging_config", "tracing", "tracing-subscriber", "tracing-appender", "Rust std (threads, locks, fs)"], STUB_KERNEL, &["the log directory and file can be created at start-up", SC]),
        "C13" => p(30_000, "an evaluation is one simulated execution of 1-4 threads with nested spans under the simulated clock; distinct = different event log", &["crates/logging_config (hierarchical profile)", "tracing", "tracing-subscriber", "Rust std (threads, locks)"], STUB_KERNEL, ASSUME_SC),
        "C14" => p(40_000, "an evaluation is one simulated execution of 1-4 threads that enter, leave and panic in contexts; distinct = different event log", &["crates/utils (panic_context)", "Rust std (panic machinery, threads, stderr)"], STUB_KERNEL, ASSUME_SC),
        "C15" => p(20_000, "an evaluation is one simulated execution of 2-4 threads that parse generated sources and query the trees; distinct = different event log", &["crates/parsa", "crates/parsa_python", "crates/parsa_python_cst", "regex", "lazy_static", "Rust std (threads, locks)"], STUB_KERNEL, ASSUME_SC),
        _ => p(60_000, HIST, REAL_VFS, STUB_VFS, ASSUME_VFS),
    };
    if deep {
        p.runs *= 40;
    }
    p.wall_s = if deep { 3000.0 } else { 240.0 };
    p
}
