//! The simulated world: scheduler, clock, randomness, faults, recorded decisions.
use crate::fs::*;
use crate::rng::Rng;
use crate::sys;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU32, Ordering};

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Cfg {
    pub seed: u64,
    /// 0: never preempt, 1: random walk, 2: priorities with change points (PCT)
    pub strategy: u8,
    /// mean number of instrumented basic blocks between preemptions
    pub mean: u64,
    pub pct_depth: u32,
    pub pct_span: u64,
    /// permille chance to switch at a system call or wake-up
    pub sys_switch: u32,
    /// permille chance that a pending outside step happens at a system call
    pub env_rate: u32,
    /// fault kind -> permille
    pub faults: BTreeMap<String, u32>,
    pub max_ticks: u64,
    pub clock_step: u64,
    pub wall_base: i64,
    /// permille chance to preempt at a basic block that this run has seldom reached so far
    #[serde(default)]
    pub rare: u32,
}

/// Every non-default decision of one run; with the workload this is a complete replay.
#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub struct Rec {
    pub pre: Vec<(u64, u32)>,
    pub pts: Vec<(u64, u32)>,
    pub faults: Vec<(u64, String)>,
    pub env: Vec<u64>,
    pub picks: Vec<(u64, u64)>,
}
impl Rec {
    pub fn len(&self) -> usize {
        self.pre.len() + self.pts.len() + self.faults.len() + self.env.len() + self.picks.len()
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum EnvStep {
    Mkdir(String),
    WOpen(String),
    WAppend(String),
    WBytes(Vec<u8>),
    WClose,
    Unlink(String),
    Rmdir(String),
    Rename(String, String),
    Symlink(String, String),
    Fifo(String),
    Chmod(String, u32),
    Clock(i64),
    /// sets the wall clock
    ClockTo(i64),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Wait {
    None,
    Futex(usize),
    Epoll(i32),
    Join(usize),
    Sleep,
    Settle,
    Gate(u32),
}

pub struct Thr {
    pub id: usize,
    pub runnable: bool,
    pub finished: bool,
    pub wait: Wait,
    pub deadline: Option<u64>,
    pub timed_out: bool,
    pub baton: AtomicU32,
    pub prio: i64,
    pub pthread: u64,
    pub exit_rounds: u32,
    pub holding_settle: bool,
}

pub enum FdKind {
    File { ino: Ino, pos: usize, append: bool, write: bool, parent: Ino, name: Vec<u8>, path: Vec<u8> },
    Dir { ino: Ino, path: Vec<u8> },
    Inotify { inst: usize },
    Epoll { items: Vec<(i32, u64, bool)> }, // fd, data, edge pending
    EventFd { val: u64 },
}

pub struct World {
    pub cfg: Cfg,
    pub snaps: Option<crate::snap::Snaps>,
    /// per thread: calls made so far, and the last path found to be no special file
    pub thr_sys: BTreeMap<usize, (u64, u64, Vec<u8>)>,
    pub rng_sched: Rng,
    pub rng_fault: Rng,
    pub rng_env: Rng,
    pub rng_pick: Rng,
    pub rng_rand: Rng,
    pub threads: Vec<Box<Thr>>,
    pub current: usize,
    pub now: u64,
    pub wall_off: i64, // seconds
    /// wall clock just before and after every jump
    pub wall_marks: Vec<i64>,
    pub dp: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub fault_idx: u64,
    pub env_idx: u64,
    pub pick_idx: u64,
    pub fs: Fs,
    pub fds: BTreeMap<i32, FdKind>,
    pub next_fd: i32,
    /// duplicated descriptors: number -> first number, and how many more share it
    pub alias: BTreeMap<i32, i32>,
    pub shared: BTreeMap<i32, u32>,
    pub env_queue: std::collections::VecDeque<EnvStep>,
    pub env_open: Option<(Ino, Ino, Vec<u8>)>,
    pub env_enabled: bool,
    pub env_inside: u64,
    pub faults_enabled: bool,
    pub fault_paths: Vec<(String, Vec<u8>)>,
    pub fault_counts: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub log_hash: u64,
    pub sched_hash: u64,
    pub replay: Option<Rec>,
    pub r_pre: usize,
    pub r_pts: usize,
    pub r_faults: usize,
    pub r_env: usize,
    pub r_picks: usize,
    pub rec: Rec,
    pub stderr: Vec<(usize, Vec<u8>)>,
    /// file writes: thread, path, bytes
    pub fwrites: Vec<(usize, Vec<u8>, Vec<u8>)>,
    pub pct_points: Vec<u64>,
    pub low_prio: i64,
    pub trace: Option<Vec<String>>,
    pub syscalls: u64,
    pub state_hash: u64,
    pub quiet: u32,
    pub stamp: u64,
    pub panics: Vec<(usize, String, String)>,
}

pub static mut ACTIVE: bool = false;
pub static mut TICKS: u64 = 0;
pub static mut NEXT_PRE: u64 = u64::MAX;
/// Preempt at blocks seldom reached so far; off while no step counts.
pub static mut RARE: bool = false;
/// How often this run reached each block, up to RARE_VISITS + 1.
pub static mut VISITS: [u8; 0x40000] = [0; 0x40000];
pub const RARE_VISITS: u8 = 4;
static mut WORLD: *mut World = std::ptr::null_mut();

#[inline]
pub fn active() -> bool {
    unsafe { ACTIVE }
}
#[inline]
#[allow(clippy::mut_from_ref)]
pub fn world() -> &'static mut World {
    unsafe { &mut *WORLD }
}

pub fn fnv(h: u64, x: u64) -> u64 {
    let mut h = h;
    for i in 0..8 {
        h ^= (x >> (i * 8)) & 0xff;
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    h
}
pub fn fnv_bytes(mut h: u64, b: &[u8]) -> u64 {
    for c in b {
        h ^= *c as u64;
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    fnv(h, b.len() as u64)
}

/// Ends the simulated run from inside the runtime (deadlock, step limit).
pub type FatalHandler = fn(&str, String) -> !;
pub static mut FATAL: Option<FatalHandler> = None;

pub fn fatal(kind: &str, msg: String) -> ! {
    unsafe {
        ACTIVE = false;
        if let Some(f) = FATAL {
            f(kind, msg)
        }
        sys::eprint(&format!("zsim fatal {kind}: {msg}\n"));
        libc::_exit(70)
    }
}

impl World {
    pub fn install(cfg: Cfg, replay: Option<Rec>, trace: bool) -> &'static mut World {
        let s = cfg.seed;
        let mut rng_sched = Rng::new(s, 1);
        let mut pct_points = vec![];
        if cfg.strategy == 2 {
            let span = cfg.pct_span.max(1);
            for _ in 0..cfg.pct_depth {
                pct_points.push(rng_sched.next() % span + 1);
            }
            pct_points.sort();
        }
        let w = Box::new(World {
            rng_fault: Rng::new(s, 2),
            rng_env: Rng::new(s, 3),
            rng_pick: Rng::new(s, 4),
            rng_rand: Rng::new(s, 5),
            threads: vec![],
            current: 0,
            now: 1_000_000_000,
            wall_off: cfg.wall_base,
            wall_marks: vec![],
            dp: 0,
            switches: 0,
            preemptions: 0,
            fault_idx: 0,
            env_idx: 0,
            pick_idx: 0,
            fs: Fs::new(),
            fds: BTreeMap::new(),
            next_fd: 1_000_000,
            alias: BTreeMap::new(),
            shared: BTreeMap::new(),
            env_queue: Default::default(),
            env_open: None,
            snaps: None,
            thr_sys: BTreeMap::new(),
            env_enabled: false,
            env_inside: 0,
            faults_enabled: false,
            fault_paths: vec![],
            fault_counts: BTreeMap::new(),
            probes: BTreeMap::new(),
            log_hash: 0xcbf29ce484222325,
            sched_hash: 0xcbf29ce484222325,
            replay,
            r_pre: 0,
            r_pts: 0,
            r_faults: 0,
            r_env: 0,
            r_picks: 0,
            rec: Rec::default(),
            stderr: vec![],
            fwrites: vec![],
            pct_points,
            low_prio: 0,
            trace: if trace { Some(vec![]) } else { None },
            rng_sched,
            cfg,
            syscalls: 0,
            state_hash: 0xcbf29ce484222325,
            quiet: 0,
            stamp: 0,
            panics: vec![],
        });
        unsafe {
            WORLD = Box::into_raw(w);
            TICKS = 0;
            RARE = world().replay.is_none() && world().cfg.rare > 0 && world().cfg.strategy > 0;
        }
        let w = world();
        w.add_thread();
        w.threads[0].pthread = unsafe { libc::pthread_self() } as u64;
        w.arm();
        w
    }
    pub fn add_thread(&mut self) -> usize {
        let id = self.threads.len();
        let prio = (self.rng_sched.next() % 1_000_000) as i64 + 1;
        self.threads.push(Box::new(Thr {
            id,
            runnable: true,
            finished: false,
            wait: Wait::None,
            deadline: None,
            timed_out: false,
            baton: AtomicU32::new(0),
            prio,
            pthread: 0,
            exit_rounds: 0,
            holding_settle: false,
        }));
        id
    }
    pub fn log(&mut self, kind: u64, a: u64) {
        unsafe {
            RING[RING_POS % 256] = (kind, a, TICKS, self.current as u64);
            RING_POS += 1;
        }
        let h = fnv(fnv(fnv(self.log_hash, kind), a), unsafe { TICKS });
        self.log_hash = fnv(h, self.current as u64);
        if let Some(t) = &mut self.trace {
            t.push(format!("t{} tick={} k={kind} a={a}", self.current, unsafe { TICKS }));
        }
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.trace.is_some() {
            let s = format!("t{} tick={} {}", self.current, unsafe { TICKS }, f());
            self.trace.as_mut().unwrap().push(s);
        }
    }
    pub fn probe(&mut self, name: &str) {
        if let Some(x) = self.probes.get_mut(name) {
            *x += 1;
        } else {
            self.probes.insert(name.to_string(), 1);
        }
    }

    // ------------------------------------------------------------ preemption ticks
    /// Computes the next tick at which the scheduler looks at the current thread.
    pub fn arm(&mut self) {
        let t = unsafe { TICKS };
        let limit = self.cfg.max_ticks;
        let next = if let Some(r) = &self.replay {
            while self.r_pre < r.pre.len() && r.pre[self.r_pre].0 <= t {
                self.r_pre += 1;
            }
            r.pre.get(self.r_pre).map(|x| x.0).unwrap_or(u64::MAX)
        } else {
            match self.cfg.strategy {
                1 => t + self.rng_sched.interval(self.cfg.mean.max(1)),
                2 => {
                    while self.pct_points.first().is_some_and(|p| *p <= t) {
                        self.pct_points.remove(0);
                    }
                    self.pct_points.first().copied().unwrap_or(u64::MAX)
                }
                _ => u64::MAX,
            }
        };
        unsafe { NEXT_PRE = next.min(limit) }
    }
    fn runnables(&self) -> Vec<usize> {
        self.threads.iter().filter(|t| t.runnable && !t.finished).map(|t| t.id).collect()
    }
    /// Called from instrumentation when NEXT_PRE is reached.
    pub fn on_tick(&mut self) {
        let t = unsafe { TICKS };
        if t >= self.cfg.max_ticks {
            let who: Vec<String> = self.threads.iter().map(|t| format!("t{} runnable={} wait={:?}", t.id, t.runnable, t.wait)).collect();
            fatal("no-progress", format!("step limit of {} basic blocks reached; {}", self.cfg.max_ticks, who.join(", ")));
        }
        if self.quiet > 0 {
            self.arm();
            return;
        }
        let target = if let Some(r) = &self.replay {
            match r.pre.get(self.r_pre) {
                Some((tt, tid)) if *tt == t => {
                    let tid = *tid as usize;
                    if tid < self.threads.len() && self.threads[tid].runnable && !self.threads[tid].finished {
                        tid
                    } else {
                        self.current
                    }
                }
                _ => self.current,
            }
        } else {
            match self.cfg.strategy {
                1 => {
                    let r = self.runnables();
                    *self.rng_sched.pick(&r)
                }
                2 => {
                    self.low_prio -= 1;
                    let p = self.low_prio;
                    let c = self.current;
                    self.threads[c].prio = p;
                    self.highest()
                }
                _ => self.current,
            }
        };
        if target != self.current {
            self.rec.pre.push((t, target as u32));
            self.preemptions += 1;
        }
        self.arm();
        self.switch(target);
    }
    /// Called from instrumentation at a block this run has seldom reached.
    pub fn on_rare(&mut self) {
        if self.quiet > 0 || !self.rng_sched.chance(self.cfg.rare, 1000) {
            return;
        }
        let target = match self.cfg.strategy {
            2 => {
                self.low_prio -= 1;
                let p = self.low_prio;
                let c = self.current;
                self.threads[c].prio = p;
                self.highest()
            }
            _ => {
                let r = self.runnables();
                *self.rng_sched.pick(&r)
            }
        };
        if target != self.current {
            self.rec.pre.push((unsafe { TICKS }, target as u32));
            self.preemptions += 1;
            self.switch(target);
        }
    }
    fn highest(&self) -> usize {
        self.threads.iter().filter(|t| t.runnable && !t.finished).max_by_key(|t| (t.prio, -(t.id as i64))).map(|t| t.id).unwrap()
    }

    // ------------------------------------------------------------ explicit points
    /// A scheduling point at a system call, wake-up or yield; `weight` in permille.
    pub fn point(&mut self, weight: u32) {
        if self.quiet > 0 {
            return;
        }
        self.dp += 1;
        if self.threads.iter().filter(|t| t.runnable && !t.finished).count() <= 1 {
            return;
        }
        let dp = self.dp;
        let target = if let Some(r) = &self.replay {
            while self.r_pts < r.pts.len() && r.pts[self.r_pts].0 < dp {
                self.r_pts += 1;
            }
            match r.pts.get(self.r_pts) {
                Some((p, tid)) if *p == dp => {
                    let tid = *tid as usize;
                    if tid < self.threads.len() && self.threads[tid].runnable && !self.threads[tid].finished {
                        tid
                    } else {
                        self.current
                    }
                }
                _ => self.current,
            }
        } else {
            match self.cfg.strategy {
                1 => {
                    if self.rng_sched.chance(weight, 1000) {
                        let r = self.runnables();
                        *self.rng_sched.pick(&r)
                    } else {
                        self.current
                    }
                }
                2 => self.highest(),
                _ => self.current,
            }
        };
        if target != self.current {
            self.rec.pts.push((dp, target as u32));
        }
        self.switch(target);
    }
    pub fn yield_now(&mut self) {
        // A yielding thread must let others run, else spin loops never end.
        self.dp += 1;
        let others: Vec<usize> = self.runnables().into_iter().filter(|t| *t != self.current).collect();
        if others.is_empty() {
            // Nobody else: let time pass so that sleepers may wake
            self.now += 1000;
            return;
        }
        let dp = self.dp;
        let def = *others.iter().find(|t| **t > self.current).unwrap_or(&others[0]);
        let target = self.choose(dp, &others, def);
        if self.cfg.strategy == 2 {
            self.low_prio -= 1;
            let p = self.low_prio;
            let c = self.current;
            self.threads[c].prio = p;
        }
        self.switch(target);
    }
    fn choose(&mut self, dp: u64, cands: &[usize], def: usize) -> usize {
        let target = if let Some(r) = &self.replay {
            while self.r_pts < r.pts.len() && r.pts[self.r_pts].0 < dp {
                self.r_pts += 1;
            }
            match r.pts.get(self.r_pts) {
                Some((p, tid)) if *p == dp && cands.contains(&(*tid as usize)) => *tid as usize,
                _ => def,
            }
        } else {
            match self.cfg.strategy {
                1 => *self.rng_sched.pick(cands),
                2 => *cands.iter().max_by_key(|t| (self.threads[**t].prio, -(**t as i64))).unwrap(),
                _ => def,
            }
        };
        if target != def {
            self.rec.pts.push((dp, target as u32));
        }
        target
    }
    fn switch(&mut self, target: usize) {
        let me = self.current;
        if target == me {
            return;
        }
        self.switches += 1;
        self.sched_hash = fnv(fnv(self.sched_hash, target as u64), self.dp);
        self.log(1, target as u64);
        self.current = target;
        let t = &self.threads[target].baton as *const AtomicU32;
        let m = &self.threads[me].baton as *const AtomicU32;
        unsafe {
            // errno belongs to the thread; the runtime must not disturb it
            let e = *libc::__errno_location();
            (*t).store(1, Ordering::Release);
            sys::futex_wake(t as *const u32);
            wait_baton(m);
            *libc::__errno_location() = e;
        }
    }
    /// Hands the baton over for good (thread exit).
    pub fn leave(&mut self) {
        let next = self.next_when_blocked();
        self.switches += 1;
        self.sched_hash = fnv(fnv(self.sched_hash, next as u64), self.dp);
        self.log(2, next as u64);
        self.current = next;
        let t = &self.threads[next].baton as *const AtomicU32;
        unsafe {
            (*t).store(1, Ordering::Release);
            sys::futex_wake(t as *const u32);
        }
    }
    fn next_when_blocked(&mut self) -> usize {
        self.dp += 1;
        loop {
            let r = self.runnables();
            if !r.is_empty() {
                let dp = self.dp;
                return self.choose(dp, &r, r[0]);
            }
            // settle waiters first, then the earliest timer
            if let Some(t) = self.threads.iter_mut().find(|t| t.wait == Wait::Settle && !t.finished) {
                t.runnable = true;
                t.wait = Wait::None;
                continue;
            }
            let next = self.threads.iter().filter(|t| !t.finished && t.deadline.is_some()).min_by_key(|t| (t.deadline, t.id)).map(|t| t.id);
            if let Some(id) = next {
                let t = &mut self.threads[id];
                let d = t.deadline.take().unwrap();
                t.timed_out = true;
                t.runnable = true;
                t.wait = Wait::None;
                if d > self.now {
                    self.now = d;
                }
                continue;
            }
            let who: Vec<String> = self.threads.iter().filter(|t| !t.finished).map(|t| format!("t{} waits for {}", t.id, match t.wait { Wait::Futex(_) => "a lock or wake-up".to_string(), w => format!("{w:?}") })).collect();
            fatal("deadlock", who.join("; "));
        }
    }
    /// Blocks the current thread; true if it was woken, false on timeout.
    pub fn block(&mut self, wait: Wait, deadline: Option<u64>) -> bool {
        let me = self.current;
        {
            let t = &mut self.threads[me];
            t.runnable = false;
            t.wait = wait;
            t.deadline = deadline;
            t.timed_out = false;
        }
        let next = self.next_when_blocked();
        if next != me {
            self.switch(next);
        }
        let t = &mut self.threads[me];
        t.wait = Wait::None;
        t.deadline = None;
        !t.timed_out
    }
    pub fn wake(&mut self, id: usize) {
        let t = &mut self.threads[id];
        t.runnable = true;
        t.wait = Wait::None;
        t.deadline = None;
    }

    // ------------------------------------------------------------ other choices
    /// Chooses 0..n; 0 is the default.
    pub fn pick(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        self.pick_idx += 1;
        let i = self.pick_idx;
        let v = if let Some(r) = &self.replay {
            while self.r_picks < r.picks.len() && r.picks[self.r_picks].0 < i {
                self.r_picks += 1;
            }
            match r.picks.get(self.r_picks) {
                Some((p, v)) if *p == i => (*v as usize).min(n - 1),
                _ => 0,
            }
        } else {
            self.rng_pick.below(n)
        };
        if v != 0 {
            self.rec.picks.push((i, v as u64));
        }
        v
    }
    /// Asks whether one of the given fault kinds strikes here.
    pub fn wall(&self) -> i64 {
        (self.now / 1_000_000_000) as i64 + self.wall_off
    }
    pub fn fault(&mut self, kinds: &[&'static str], path: &[u8]) -> Option<&'static str> {
        if !self.faults_enabled {
            return None;
        }
        let mut hit = None;
        for k in kinds {
            self.fault_idx += 1;
            let i = self.fault_idx;
            if hit.is_some() {
                continue;
            }
            let strike = if let Some(r) = &self.replay {
                while self.r_faults < r.faults.len() && r.faults[self.r_faults].0 < i {
                    self.r_faults += 1;
                }
                matches!(r.faults.get(self.r_faults), Some((p, kk)) if *p == i && kk == k)
            } else {
                let rate = self.cfg.faults.get(*k).copied().unwrap_or(0);
                rate > 0 && self.rng_fault.chance(rate, 1000)
            };
            if strike {
                self.rec.faults.push((i, k.to_string()));
                *self.fault_counts.entry(k.to_string()).or_insert(0) += 1;
                self.fault_paths.push((k.to_string(), path.to_vec()));
                self.note(|| format!("FAULT {k} {}", String::from_utf8_lossy(path)));
                hit = Some(*k);
            }
        }
        hit
    }
    /// An outside step may happen at this system call.
    pub fn env_point(&mut self) {
        if !self.env_enabled {
            return;
        }
        loop {
            if self.env_queue.is_empty() {
                return;
            }
            self.env_idx += 1;
            let i = self.env_idx;
            let go = if let Some(r) = &self.replay {
                while self.r_env < r.env.len() && r.env[self.r_env] < i {
                    self.r_env += 1;
                }
                r.env.get(self.r_env) == Some(&i)
            } else {
                let rate = self.cfg.env_rate;
                self.rng_env.chance(rate, 1000)
            };
            if !go {
                return;
            }
            self.rec.env.push(i);
            self.env_inside += 1;
            self.env_one();
        }
    }
    pub fn env_one(&mut self) -> bool {
        let Some(s) = self.env_queue.pop_front() else { return false };
        self.note(|| format!("OUTSIDE {s:?}"));
        self.apply_env(&s);
        if let Some(sn) = &mut self.snaps {
            sn.take(&self.fs);
        }
        self.log(3, self.env_queue.len() as u64);
        true
    }
    pub fn apply_env(&mut self, s: &EnvStep) -> i32 {
        let r = match s {
            EnvStep::Mkdir(p) => self.fs.mkdir(&pb(p)).map(|_| ()),
            EnvStep::WOpen(p) => match self.fs.create(&pb(p), true) {
                Ok(x) => {
                    self.fs.inodes[x.0].opens += 1;
                    self.env_open = Some(x);
                    Ok(())
                }
                Err(e) => {
                    self.env_open = None;
                    Err(e)
                }
            },
            EnvStep::WAppend(d) => {
                if let Some((i, p, n)) = self.env_open.clone() {
                    self.fs.append(i, p, &n, d.as_bytes());
                }
                Ok(())
            }
            EnvStep::WBytes(d) => {
                if let Some((i, p, n)) = self.env_open.clone() {
                    self.fs.append(i, p, &n, d);
                }
                Ok(())
            }
            EnvStep::WClose => {
                if let Some((i, p, n)) = self.env_open.take() {
                    self.fs.close_write(i, p, &n);
                    self.fs.inodes[i].opens -= 1;
                    self.fs.maybe_gone(i);
                }
                Ok(())
            }
            EnvStep::Unlink(p) => self.fs.unlink(&pb(p)),
            EnvStep::Rmdir(p) => self.fs.rmdir(&pb(p)),
            EnvStep::Rename(a, b) => self.fs.rename(&pb(a), &pb(b)),
            EnvStep::Symlink(t, p) => self.fs.symlink(&pb(t), &pb(p)),
            EnvStep::Fifo(p) => self.fs.mkfifo(&pb(p)),
            EnvStep::Chmod(p, m) => self.fs.chmod(&pb(p), *m),
            EnvStep::Clock(d) => {
                self.wall_marks.push(self.wall());
                self.wall_off += d;
                self.wall_marks.push(self.wall());
                Ok(())
            }
            EnvStep::ClockTo(t) => {
                self.wall_marks.push(self.wall());
                self.wall_off = t - (self.now / 1_000_000_000) as i64;
                self.wall_marks.push(self.wall());
                Ok(())
            }
        };
        self.after_fs();
        match r {
            Ok(()) => 0,
            Err(e) => e,
        }
    }
    /// Propagates new inotify events to epoll sets and their waiters.
    pub fn after_fs(&mut self) {
        if self.fs.dirty.is_empty() {
            return;
        }
        let dirty = std::mem::take(&mut self.fs.dirty);
        let fds: Vec<i32> = self.fds.iter().filter(|(_, k)| matches!(k, FdKind::Inotify { inst } if dirty.contains(inst))).map(|(f, _)| *f).collect();
        for f in fds {
            self.edge(f);
        }
    }
    /// New readiness edge on a virtual descriptor.
    pub fn edge(&mut self, fd: i32) {
        let mut eps = vec![];
        for (ep, k) in self.fds.iter_mut() {
            if let FdKind::Epoll { items } = k {
                for it in items.iter_mut() {
                    if it.0 == fd {
                        it.2 = true;
                        eps.push(*ep);
                    }
                }
            }
        }
        for ep in eps {
            let ids: Vec<usize> = self.threads.iter().filter(|t| t.wait == Wait::Epoll(ep)).map(|t| t.id).collect();
            for i in ids {
                self.wake(i);
            }
        }
    }
    pub fn readable(&self, fd: i32) -> bool {
        match self.fds.get(&fd) {
            Some(FdKind::Inotify { inst }) => !self.fs.inst[*inst].queue.is_empty(),
            Some(FdKind::EventFd { val }) => *val > 0,
            _ => false,
        }
    }
    pub fn canon(&self, fd: i32) -> i32 {
        self.alias.get(&fd).copied().unwrap_or(fd)
    }
    pub fn dup(&mut self, fd: i32) -> i32 {
        let k = self.canon(fd);
        let f = self.next_fd;
        self.next_fd += 1;
        self.alias.insert(f, k);
        *self.shared.entry(k).or_default() += 1;
        f
    }
    pub fn new_fd(&mut self, k: FdKind) -> i32 {
        let f = self.next_fd;
        self.next_fd += 1;
        self.fds.insert(f, k);
        f
    }
}

pub unsafe fn wait_baton(m: *const AtomicU32) {
    // short spin first: hand-overs are frequent and the machine has several cores
    loop {
        for _ in 0..64 {
            if (*m).swap(0, Ordering::Acquire) == 1 {
                return;
            }
            std::hint::spin_loop();
        }
        sys::futex_wait(m as *const u32, 0);
    }
}

/// The last events, kept without allocating (debugging aid for runs that tracing would disturb).
pub static mut RING: [(u64, u64, u64, u64); 256] = [(0, 0, 0, 0); 256];
pub static mut RING_POS: usize = 0;
