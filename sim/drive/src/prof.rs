//! C13: the profile report of concurrent, nested spans under the simulated clock, against a model.
use crate::{Case, base_cfg};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use zsim_rt::rng::Rng;
use zsim_rt::{check, violation};

const NAMES: [&str; 5] = ["alpha", "beta", "gamma", "delta_long_name", "compute_exhaustiveness_and_usefulness"];

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Act {
    /// name, kind (0 profiled, 1 too detailed, 2 foreign), what happens inside
    Span(u8, u8, Vec<Act>),
    /// like Span, but never entered: nothing becomes its child
    Held(u8, Vec<Act>),
    Sleep(u32),
    Work(u32),
    /// another thread that works inside the current span, or on its own
    Thread(bool, Vec<Act>),
    /// left by a panic
    Panic(Vec<Act>),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Work {
    pub acts: Vec<Vec<Act>>,
    pub names: Option<Vec<u8>>,
    pub depth: Option<usize>,
    pub longer: Option<u64>,
    /// without ZUBAN_PROFILE nothing is reported
    pub off: bool,
}
fn acts(r: &mut Rng, depth: usize) -> Vec<Act> {
    (0..1 + r.below(5))
        .map(|_| match r.below(if depth > 4 { 8 } else { 22 }) {
            0..=5 => Act::Sleep(*r.pick(&[0u32, 1, 1, 2, 3, 7, 10, 11, 40, 120_000])),
            6 | 7 => Act::Work(r.below(5) as u32),
            8..=17 => Act::Span(*r.pick(&[0u8, 0, 0, 1, 1, 2, 3, 4]), *r.pick(&[0u8, 0, 0, 0, 0, 0, 1, 2]), acts(r, depth + 1)),
            18 => Act::Held(r.below(3) as u8, acts(r, depth + 1)),
            19 => Act::Panic(acts(r, depth + 1)),
            _ => Act::Thread(r.chance(2, 3), acts(r, depth + 2)),
        })
        .collect()
}
pub fn generate(seed: u64, r: &mut Rng, _deep: bool) -> Case {
    let a = (0..1 + r.below(3)).map(|_| acts(r, 0)).collect();
    let mut cfg = base_cfg(seed, r, true);
    cfg.mean = *r.pick(&[3, 10, 40]);
    cfg.pct_span = *r.pick(&[50, 300, 1500]);
    cfg.clock_step = *r.pick(&[1, 1000, 200_000]);
    for k in ["stderr_eintr", "stderr_short", "futex_spurious"] {
        if r.chance(1, 5) {
            cfg.faults.insert(k.into(), 250);
        }
    }
    if r.chance(1, 8) {
        cfg.faults.insert("stderr_eio".into(), *r.pick(&[50u32, 400, 1000]));
    }
    let w = Work {
        acts: a,
        names: if r.chance(1, 3) { Some((0..5).filter(|_| r.chance(1, 2)).collect()) } else { None },
        depth: if r.chance(1, 3) { Some(r.below(5)) } else { None },
        longer: if r.chance(1, 3) { Some(*r.pick(&[0u64, 1, 2, 3, 10, 40, 1000])) } else { None },
        off: r.chance(1, 25),
    };
    Case { scenario: "prof".into(), cfg, work: serde_json::to_value(w).unwrap() }
}

fn span(name: u8, kind: u8, id: u64) -> tracing::Span {
    macro_rules! sp {
        ($n:literal) => {
            match kind {
                0 => tracing::info_span!(target: "vfs", $n, id),
                1 => tracing::debug_span!(target: "vfs", $n, id),
                _ => tracing::info_span!(target: "salsa::db", $n, id),
            }
        };
    }
    match name {
        0 => sp!("alpha"),
        1 => sp!("beta"),
        2 => sp!("gamma"),
        3 => sp!("delta_long_name"),
        _ => sp!("compute_exhaustiveness_and_usefulness"),
    }
}

#[derive(Clone, Debug, Default)]
struct N {
    name: usize,
    children: Vec<usize>,
    /// earliest and latest start, earliest and latest end
    t: (u64, u64, u64, u64),
    root: bool,
}
#[derive(Default)]
struct Model {
    nodes: Vec<N>,
}
struct Ctx {
    m: Arc<Mutex<Model>>,
    allowed: Arc<dyn Fn(u8, u8) -> bool + Send + Sync>,
    threads: Arc<Mutex<Vec<std::thread::JoinHandle<()>>>>,
}
impl Clone for Ctx {
    fn clone(&self) -> Self {
        Ctx { m: self.m.clone(), allowed: self.allowed.clone(), threads: self.threads.clone() }
    }
}
struct Boom;

/// A handle of a span was dropped; also counts for the spans around it, which it keeps alive.
fn dropped(m: &Arc<Mutex<Model>>, chain: &[usize], before: u64, after: u64) {
    let mut g = m.lock().unwrap();
    for i in chain {
        let n = &mut g.nodes[*i];
        n.t.2 = n.t.2.max(before);
        n.t.3 = n.t.3.max(after);
    }
}
/// Drops a span handle and records when, also while unwinding.
struct Handle {
    span: Option<tracing::Span>,
    m: Arc<Mutex<Model>>,
    chain: Vec<usize>,
    entered: bool,
}
impl Handle {
    fn enter(&mut self) {
        self.entered = true;
        let s = self.span.as_ref().unwrap();
        s.with_subscriber(|(id, d)| d.enter(id));
    }
}
impl Drop for Handle {
    fn drop(&mut self) {
        let s = self.span.take().unwrap();
        if self.entered {
            s.with_subscriber(|(id, d)| d.exit(id));
        }
        let before = zsim_rt::now_ns();
        drop(s);
        let after = zsim_rt::now_ns();
        dropped(&self.m, &self.chain, before, after);
    }
}
/// `chain`: profiled spans around, innermost first.
fn exec(c: &Ctx, chain: &[usize], list: &[Act]) {
    for a in list {
        match a {
            Act::Span(name, kind, body) => {
                let mut h = open(c, chain, *name, *kind);
                h.enter();
                let inner = h.chain.clone();
                exec(c, &inner, body);
            }
            Act::Held(name, body) => {
                let _h = open(c, chain, *name, 0);
                exec(c, chain, body);
            }
            Act::Sleep(ms) => std::thread::sleep(Duration::from_millis(*ms as u64)),
            Act::Work(k) => {
                for _ in 0..*k {
                    zsim_rt::stamp();
                }
            }
            Act::Thread(inside, body) => {
                let mut cur = tracing::Span::none();
                let mut ch = vec![];
                if *inside {
                    cur = tracing::Span::current();
                    ch = chain.to_vec();
                }
                let (c2, body) = (c.clone(), body.clone());
                let mut h = Handle { span: Some(cur), m: c.m.clone(), chain: ch.clone(), entered: false };
                let t = std::thread::spawn(move || {
                    h.enter();
                    top(&c2, &ch, &body);
                });
                c.threads.lock().unwrap().push(t);
            }
            Act::Panic(body) => {
                let r = catch_unwind(AssertUnwindSafe(|| {
                    exec(c, chain, body);
                    std::panic::resume_unwind(Box::new(Boom));
                }));
                if r.is_err_and(|e| !e.is::<Boom>()) {
                    bad();
                }
            }
        }
    }
}
fn bad() -> ! {
    let p = zsim_rt::panics().last().cloned().unwrap_or_default();
    violation("panic", format!("profiling panicked at {}: {}", p.2, p.1))
}
fn top(c: &Ctx, chain: &[usize], list: &[Act]) {
    if catch_unwind(AssertUnwindSafe(|| exec(c, chain, list))).is_err() {
        bad();
    }
}
fn open(c: &Ctx, chain: &[usize], name: u8, kind: u8) -> Handle {
    let ok = (c.allowed)(name, kind);
    let mut inner = chain.to_vec();
    let id = {
        let mut g = c.m.lock().unwrap();
        let id = g.nodes.len();
        g.nodes.push(N { name: name as usize, root: ok && chain.is_empty(), ..Default::default() });
        if ok {
            if let Some(p) = chain.first() {
                g.nodes[*p].children.push(id);
            }
            inner.insert(0, id);
        }
        id
    };
    let a = zsim_rt::now_ns();
    let s = span(name, kind, id as u64);
    let b = zsim_rt::now_ns();
    if ok {
        let n = &mut c.m.lock().unwrap().nodes[id];
        n.t = (a, b, 0, 0);
    }
    Handle { span: Some(s), m: c.m.clone(), chain: inner, entered: false }
}

#[derive(Debug, Clone)]
struct Line {
    level: usize,
    ms: u64,
    name: String,
    id: usize,
    calls: usize,
}
fn parse_line(l: &str) -> Option<Line> {
    let k = l.find("ms ")?;
    let digits: String = l[..k].chars().rev().take_while(|c| c.is_ascii_digit()).collect::<Vec<_>>().into_iter().rev().collect();
    let ms: u64 = digits.parse().ok()?;
    let lead = k - digits.len();
    if !l[..lead].chars().all(|c| c == ' ') {
        return None;
    }
    let indent = (lead + digits.len()).checked_sub(3 + digits.len().max(5))?;
    let rest = &l[k + 3..];
    let (name, rest) = rest.split_once(" @ id = ")?;
    let mut it = rest.trim_end().splitn(2, ' ');
    let id = it.next()?.parse().ok()?;
    let calls = match it.next() {
        None => 1,
        Some(c) => c.trim().strip_prefix('(')?.strip_suffix(" calls)")?.parse().ok()?,
    };
    Some(Line { level: indent / 2, ms, name: name.trim_end().to_string(), id, calls })
}

/// Follows the report of one group of spans; returns the lines it used.
fn follow(m: &Model, group: &[usize], level: usize, lines: &[Line], depth: usize, longer: u64, exact: bool) -> Result<usize, String> {
    let lo: u64 = group.iter().map(|i| m.nodes[*i].t.2.saturating_sub(m.nodes[*i].t.1)).sum();
    let hi: u64 = group.iter().map(|i| m.nodes[*i].t.3 - m.nodes[*i].t.0).sum();
    let limit = longer * 1_000_000;
    let name = NAMES[m.nodes[group[0]].name];
    let here = lines.first().filter(|l| l.level == level && l.name == name);
    if level >= depth || hi <= limit {
        return match here {
            Some(l) if group.contains(&l.id) => Err(format!("{l:?} is reported although the filter drops it")),
            _ => Ok(0),
        };
    }
    let Some(l) = here else {
        return if lo > limit && exact { Err(format!("{name} ({} calls, at least {lo} ns, depth {level}) is not reported", group.len())) } else { Ok(0) };
    };
    if !group.contains(&l.id) {
        return if lo > limit && exact { Err(format!("{l:?} is reported where one of the spans {group:?} is expected")) } else { Ok(0) };
    }
    if l.calls != group.len() {
        return Err(format!("{l:?} is reported, but {} spans are in this group", group.len()));
    }
    if l.ms < lo / 1_000_000 || l.ms > hi / 1_000_000 {
        return Err(format!("{l:?} is reported, but by the clock it took {lo} to {hi} ns"));
    }
    let mut by: BTreeMap<&str, Vec<usize>> = BTreeMap::new();
    for i in group {
        for c in &m.nodes[*i].children {
            by.entry(NAMES[m.nodes[*c].name]).or_default().push(*c);
        }
    }
    let mut used = 1;
    for g in by.values() {
        used += follow(m, g, level + 1, &lines[used..], depth, longer, exact)?;
    }
    Ok(used)
}

pub fn run(case: &Case) {
    let w: Work = crate::work(case);
    let mut spec = w.names.as_ref().map_or("*".to_string(), |n| n.iter().map(|i| NAMES[*i as usize]).collect::<Vec<_>>().join("|"));
    if let Some(d) = w.depth {
        spec += &format!("@{d}");
    }
    if let Some(l) = w.longer {
        spec += &format!(">{l}");
    }
    unsafe {
        for v in ["ZUBAN_LOG", "ZUBAN_LOG_FILE", "ZUBAN_PROFILE"] {
            std::env::remove_var(v);
        }
        if !w.off {
            std::env::set_var("ZUBAN_PROFILE", &spec);
        }
    }
    if let Err(e) = logging_config::setup_logging(None) {
        violation("setup", format!("profiling with {spec:?} cannot be set up: {e:?}"));
    }
    let (names, off) = (w.names.clone(), w.off);
    let c = Ctx {
        m: Default::default(),
        allowed: Arc::new(move |n, k| !off && k == 0 && n != 4 && names.as_ref().is_none_or(|v| v.contains(&n))),
        threads: Default::default(),
    };
    zsim_rt::faults(true);
    for a in w.acts {
        let c2 = c.clone();
        let t = std::thread::spawn(move || top(&c2, &[], &a));
        c.threads.lock().unwrap().push(t);
    }
    loop {
        let Some(t) = c.threads.lock().unwrap().pop() else { break };
        if t.join().is_err() {
            violation("panic", "a thread ended by a panic");
        }
    }
    zsim_rt::faults(false);
    let m = c.m.lock().unwrap();
    let exact = zsim_rt::fault_count("stderr_eio") == 0;
    let mut per: BTreeMap<usize, Vec<u8>> = BTreeMap::new();
    for (t, b) in zsim_rt::written(None) {
        per.entry(t).or_default().extend(b);
    }
    let (depth, longer) = (w.depth.unwrap_or(999), w.longer.unwrap_or(0));
    let mut reported: BTreeMap<usize, usize> = BTreeMap::new();
    for (t, b) in &per {
        let text = String::from_utf8_lossy(b);
        let mut lines = vec![];
        for l in text.lines() {
            match parse_line(l) {
                Some(l) => lines.push(l),
                None => check!(!exact, "report", "thread t{t} printed {l:?}"),
            }
        }
        if !exact {
            // lines may be missing or cut
            continue;
        }
        let mut at = 0;
        while at < lines.len() {
            let l = &lines[at];
            check!(l.level == 0 && m.nodes.get(l.id).is_some_and(|n| n.root), "report", "the report of thread t{t} contains {l:?} where a root is expected");
            *reported.entry(l.id).or_default() += 1;
            match follow(&m, &[l.id], 0, &lines[at..], depth, longer, true) {
                Err(e) => violation("report", e),
                Ok(0) => violation("report", format!("{l:?} is reported although the filter drops it")),
                Ok(n) => at += n,
            }
        }
    }
    if exact {
        for (i, n) in m.nodes.iter().enumerate() {
            if !n.root {
                continue;
            }
            let k = reported.get(&i).copied().unwrap_or(0);
            let must = depth > 0 && n.t.2.saturating_sub(n.t.1) > longer * 1_000_000;
            check!(k <= 1 && (k == 1 || !must), "report", "the root span {} {i} is reported {k} times", NAMES[n.name]);
            if k == 1 && n.children.len() > 1 {
                zsim_rt::probe("root with several children reported");
            }
        }
    }
    zsim_rt::state(zsim_rt::hash(format!("{:?}", reported).as_bytes()));
}
