#![allow(unknown_lints, invalid_runtime_symbol_definitions)]
//! Runtime of the simulation: one process, real threads run one at a time, simulated operating system.
pub mod fs;
pub mod interpose;
pub mod rng;
pub mod snap;
pub mod sys;
pub mod world;

use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
pub use world::{active, fatal, world, Cfg, EnvStep, Rec, Wait, World};

/// Everything one simulated run reports back to the driver.
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Outcome {
    /// violation class and description
    pub violation: Option<(String, String)>,
    pub rec: Rec,
    pub ticks: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub syscalls: u64,
    pub threads: u64,
    pub sim_ns: u64,
    pub env_inside: u64,
    pub log_hash: u64,
    pub sched_hash: u64,
    pub state_hash: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub trace: Vec<String>,
}

static mut OUT: (*mut u8, usize) = (std::ptr::null_mut(), 0);
/// Where the child writes its outcome (shared memory): 8 bytes length, then JSON.
pub fn set_out(p: *mut u8, len: usize) {
    unsafe { OUT = (p, len) }
}

fn collect(violation: Option<(String, String)>) -> Outcome {
    let w = world();
    Outcome {
        violation,
        rec: w.rec.clone(),
        ticks: unsafe { world::TICKS },
        switches: w.switches,
        preemptions: w.preemptions,
        syscalls: w.syscalls,
        threads: w.threads.len() as u64,
        sim_ns: w.now - 1_000_000_000,
        env_inside: w.env_inside,
        log_hash: w.log_hash,
        sched_hash: w.sched_hash,
        state_hash: w.state_hash,
        faults: w.fault_counts.clone(),
        probes: w.probes.clone(),
        trace: w.trace.take().unwrap_or_default(),
    }
}
fn write_out(o: &Outcome) {
    let b = serde_json::to_vec(o).unwrap();
    unsafe {
        let (p, len) = OUT;
        if p.is_null() || b.len() + 8 > len {
            sys::eprint("zsim: outcome too large\n");
            libc::_exit(71);
        }
        std::ptr::copy_nonoverlapping(b.as_ptr(), p.add(8), b.len());
        *(p as *mut u64) = b.len() as u64;
    }
}
fn on_fatal(kind: &str, msg: String) -> ! {
    write_out(&collect(Some((kind.to_string(), msg))));
    unsafe { libc::_exit(0) }
}

/// Ends the run early without a verdict.
pub fn end_ok() -> ! {
    unsafe { world::ACTIVE = false };
    write_out(&collect(None));
    unsafe { libc::_exit(0) }
}
/// Ends the run with a property violation.
pub fn violation(class: &str, msg: impl Into<String>) -> ! {
    fatal(class, msg.into())
}
#[macro_export]
macro_rules! check {
    ($cond:expr, $class:expr, $($arg:tt)*) => {
        if !$cond { $crate::violation($class, format!($($arg)*)) }
    };
}

/// Best effort: keep the decisions of a run that dies from a signal. A second signal ends the process.
extern "C" fn on_signal(n: i32) {
    unsafe {
        world::ACTIVE = false;
        libc::alarm(5);
    }
    write_out(&collect(Some(("crash".to_string(), format!("the process died from signal {n}")))));
    unsafe { libc::_exit(0) }
}

/// Runs one simulated execution in this (freshly forked) process and exits.
pub fn run_in_child(cfg: Cfg, rec: Option<Rec>, trace: bool, main: impl FnOnce() + Send + 'static) -> ! {
    unsafe {
        world::FATAL = Some(on_fatal);
        World::install(cfg, rec, trace);
        std::panic::set_hook(Box::new(|i| {
            let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = i.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".to_string()
            };
            let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            if active() {
                world().panics.push((world().current, msg, loc));
            }
        }));
        for n in [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL, libc::SIGFPE] {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = on_signal as *const () as usize;
            a.sa_flags = libc::SA_ONSTACK | libc::SA_NODEFER | libc::SA_RESETHAND;
            libc::sigaction(n, &a, std::ptr::null_mut());
        }
        world::ACTIVE = true;
        // A fresh thread: per-thread state (hash seeds) then comes from the simulated world too.
        let r = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(main));
            if r.is_err() {
                let p = world().panics.last().cloned().unwrap_or_default();
                fatal("panic", format!("thread t{} panicked at {}: {}", p.0, p.2, p.1));
            }
            world::ACTIVE = false;
            write_out(&collect(None));
            libc::_exit(0);
        });
        if r.is_err() {
            sys::eprint("zsim: cannot start\n");
            libc::_exit(71);
        }
        let _ = r.unwrap().join();
        libc::_exit(71)
    }
}

// ------------------------------------------------------------------ scenario side
#[inline(never)]
pub fn probe(name: &str) {
    world().probe(name);
}
/// Mixes an observed state into the state measure.
#[inline(never)]
pub fn state(h: u64) {
    let w = world();
    w.state_hash = world::fnv(w.state_hash, h);
}
/// Waits until every other thread is blocked and no event is left to deliver.
#[inline(never)]
pub fn settle() {
    let w = world();
    w.block(Wait::Settle, None);
}
/// Adds to the trace. The caller's formatting code may be instrumented: it must not count.
pub fn note(s: impl FnOnce() -> String) {
    if world().trace.is_some() {
        let saved = freeze();
        let text = s();
        unfreeze(saved);
        push_note(text);
    }
}
#[inline(never)]
fn push_note(s: String) {
    world().note(move || s);
}
/// Oracle code: no preemption, no faults, no outside steps while it runs.
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    let w = world();
    let (a, b) = (w.faults_enabled, w.env_enabled);
    w.faults_enabled = false;
    w.env_enabled = false;
    w.quiet += 1;
    let r = f();
    let w = world();
    w.quiet -= 1;
    w.faults_enabled = a;
    w.env_enabled = b;
    r
}
/// Set-up code whose amount of work must not count: no steps, no preemption while it runs.
pub fn frozen<T>(f: impl FnOnce() -> T) -> T {
    let s = freeze();
    let r = quiet(f);
    unfreeze(s);
    r
}
#[inline(never)]
fn freeze() -> (u64, u64, bool) {
    unsafe {
        let s = (world::TICKS, world::NEXT_PRE, world::RARE);
        world::RARE = false;
        world::NEXT_PRE = u64::MAX;
        s
    }
}
#[inline(never)]
fn unfreeze(s: (u64, u64, bool)) {
    unsafe {
        world::TICKS = s.0;
        world::NEXT_PRE = s.1;
        world::RARE = s.2;
    }
}
#[inline(never)]
pub fn faults(on: bool) {
    world().faults_enabled = on;
}
#[inline(never)]
pub fn env_enable(on: bool) {
    world().env_enabled = on;
}
/// Not generic on purpose: the simulator's own state must only be changed by code without scheduling points.
#[inline(never)]
pub fn env_push(steps: Vec<EnvStep>) {
    world().env_queue.extend(steps);
}
/// Performs all outside steps that have not happened yet.
#[inline(never)]
pub fn env_flush() {
    while world().env_one() {}
}
pub fn simfs() -> &'static mut fs::Fs {
    &mut world().fs
}
/// Global order of observable events (ticks are strictly increasing between operations).
#[inline(never)]
pub fn stamp() -> u64 {
    let w = world();
    w.stamp += 1;
    w.stamp
}
pub fn panics() -> &'static mut Vec<(usize, String, String)> {
    &mut world().panics
}
pub fn hash(b: &[u8]) -> u64 {
    world::fnv_bytes(0xcbf29ce484222325, b)
}

/// Starts recording what the disk contains below the roots after every outside step.
#[inline(never)]
pub fn snapshots(roots: Vec<String>) {
    let mut s = snap::Snaps { roots, ..Default::default() };
    s.take(&world().fs);
    world().snaps = Some(s);
}
/// Threads other than the calling one that have not ended.
#[inline(never)]
pub fn other_threads() -> Vec<usize> {
    let w = world();
    w.threads.iter().filter(|t| !t.finished && t.id != w.current && t.id != 0).map(|t| t.id).collect()
}

/// One outside step, now.
#[inline(never)]
pub fn env_now(s: EnvStep) {
    world().apply_env(&s);
}
/// Wall clock positions of a window: start, both sides of every jump, end.
#[inline(never)]
pub fn wall_window_start() {
    let w = world();
    w.wall_marks = vec![w.wall()];
}
#[inline(never)]
pub fn wall_window_end() -> Vec<i64> {
    let w = world();
    let mut m = std::mem::take(&mut w.wall_marks);
    m.push(w.wall());
    m
}
#[inline(never)]
pub fn hard_faults() -> u64 {
    world().fault_counts.iter().filter(|(k, _)| !k.ends_with("eintr") && !k.ends_with("short") && *k != "futex_spurious").map(|(_, n)| n).sum()
}
/// The calling simulated thread.
#[inline(never)]
pub fn current() -> usize {
    world().current
}
/// What one thread wrote to standard error.
#[inline(never)]
pub fn stderr_of(t: usize) -> Vec<u8> {
    world().stderr.iter().filter(|(i, _)| *i == t).flat_map(|(_, b)| b.clone()).collect()
}
/// What threads wrote to standard error (path none) or to a file, in order.
#[inline(never)]
pub fn written(path: Option<&str>) -> Vec<(usize, Vec<u8>)> {
    match path {
        None => world().stderr.clone(),
        Some(p) => world().fwrites.iter().filter(|(_, q, _)| q == p.as_bytes()).map(|(t, _, b)| (*t, b.clone())).collect(),
    }
}
/// Simulated monotonic time; reading it this way changes nothing.
#[inline(never)]
pub fn now_ns() -> u64 {
    world().now
}
#[inline(never)]
pub fn fault_count(kind: &str) -> u64 {
    world().fault_counts.get(kind).copied().unwrap_or(0)
}
