//! C12: log records of several threads, under write faults, against a filter model.
use crate::{Case, base_cfg};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::{Arc, Mutex};
use zsim_rt::rng::Rng;
use zsim_rt::{check, simfs, violation};

const LEVELS: [&str; 5] = ["ERROR", "WARN", "INFO", "DEBUG", "TRACE"];
const TARGETS: [&str; 5] = ["vfs", "vfs::tree", "zuban_python", "zuban_python::file", "lsp"];

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Act {
    /// id, level, target, kind of text
    Rec(u32, u8, u8, u8),
    /// inside a span of this level and target
    Span(u8, u8, Vec<Act>),
    /// a record whose text logs another record while it is formatted
    Nested(u32, u8, u8, u32),
    Work(u32),
    /// a panic in the middle, caught
    Panic(Vec<Act>),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Work {
    pub threads: Vec<Vec<Act>>,
    /// ZUBAN_LOG: directives (target or none, level 0 = off)
    pub filter: Option<Vec<(Option<String>, u8)>>,
    pub bad_filter: Option<String>,
    pub env_file: Option<String>,
    pub flag_file: Option<String>,
    pub quiet_default: bool,
    pub profile: Option<String>,
    /// the log file exists with this content
    pub old: Option<String>,
    /// the log file is not writable any more, or its disk is full, after that many records
    pub uid: u8,
}

fn acts(r: &mut Rng, depth: usize, n: &mut u32) -> Vec<Act> {
    (0..1 + r.below(6))
        .map(|_| {
            *n += 1;
            let (l, t) = (r.below(5) as u8, r.below(5) as u8);
            match r.below(if depth > 3 { 12 } else { 18 }) {
                0..=9 => Act::Rec(*n, l, t, r.below(5) as u8),
                10 => Act::Work(r.below(5) as u32),
                11 => {
                    *n += 1;
                    Act::Nested(*n - 1, l, t, *n)
                }
                12 => Act::Panic(acts(r, depth + 1, n)),
                _ => Act::Span(l, t, acts(r, depth + 1, n)),
            }
        })
        .collect()
}

pub fn generate(seed: u64, r: &mut Rng, _deep: bool) -> Case {
    let mut n = 0;
    let threads = (0..1 + r.below(4)).map(|_| acts(r, 0, &mut n)).collect();
    let mut cfg = base_cfg(seed, r, true);
    cfg.mean = *r.pick(&[2, 5, 15, 50]);
    cfg.pct_span = *r.pick(&[50, 300, 1500]);
    for k in ["stderr_eintr", "stderr_short", "stderr_eio", "write_eintr", "write_short", "write_eio", "write_enospc", "futex_spurious"] {
        if r.chance(1, 5) {
            cfg.faults.insert(k.into(), if k.ends_with("eintr") { 250 } else { *r.pick(&[30u32, 200, 1000]) });
        }
    }
    for k in ["stderr_short", "write_short"] {
        if cfg.faults.get(k) == Some(&1000) {
            cfg.faults.insert(k.into(), 400);
        }
    }
    let filter = if r.chance(1, 6) {
        None
    } else {
        let mut seen = BTreeSet::new();
        let mut v = vec![];
        for _ in 0..r.below(4) + 1 {
            let t = if r.chance(1, 2) { None } else { Some(r.pick(&["vfs", "vfs::tree", "vf", "zuban_python", "zuban_python::file", "other", "lsp"]).to_string()) };
            if seen.insert(t.clone()) {
                v.push((t, r.below(6) as u8));
            }
        }
        Some(v)
    };
    let file = |r: &mut Rng| -> Option<String> { if r.chance(1, 2) { Some(r.pick(&["/w/log", "/w/a/b/zuban.log", "rel.log", "sub/rel.log", "/w/lög.txt"]).to_string()) } else { None } };
    let w = Work {
        threads,
        filter,
        bad_filter: if r.chance(1, 30) { Some(r.pick(&["vfs=loud", "a=b=c", "vfs=debug,x=?"]).to_string()) } else { None },
        env_file: file(r),
        flag_file: file(r),
        quiet_default: r.chance(1, 5),
        profile: if r.chance(1, 4) { Some(r.pick(&["*", "*@3>10", "s0|s1"]).to_string()) } else { None },
        old: if r.chance(1, 3) { Some("earlier line\n".repeat(1 + r.below(3))) } else { None },
        uid: 0,
    };
    Case { scenario: "logs".into(), cfg, work: serde_json::to_value(w).unwrap() }
}

fn text(n: u32, kind: u8) -> String {
    match kind {
        0 => format!("m{n};"),
        1 => format!("m{n};é日本 {{}} %s ;"),
        2 => format!("m{n};first\nsecond line of {n}\n"),
        3 => format!("m{n};{}", "x".repeat(5000)),
        _ => format!("m{n}; key=value INFO m: y"),
    }
}
fn emit(level: u8, target: u8, m: &dyn std::fmt::Display) {
    macro_rules! ev {
        ($t:literal) => {
            match level {
                0 => tracing::error!(target: $t, "{}", m),
                1 => tracing::warn!(target: $t, "{}", m),
                2 => tracing::info!(target: $t, "{}", m),
                3 => tracing::debug!(target: $t, "{}", m),
                _ => tracing::trace!(target: $t, "{}", m),
            }
        };
    }
    match target {
        0 => ev!("vfs"),
        1 => ev!("vfs::tree"),
        2 => ev!("zuban_python"),
        3 => ev!("zuban_python::file"),
        _ => ev!("lsp"),
    }
}
fn span(level: u8, target: u8) -> tracing::Span {
    macro_rules! sp {
        ($t:literal, $n:literal) => {
            match level {
                0 => tracing::error_span!(target: $t, $n),
                1 => tracing::warn_span!(target: $t, $n),
                2 => tracing::info_span!(target: $t, $n),
                3 => tracing::debug_span!(target: $t, $n),
                _ => tracing::trace_span!(target: $t, $n),
            }
        };
    }
    match target {
        0 => sp!("vfs", "s0"),
        1 => sp!("vfs::tree", "s1"),
        2 => sp!("zuban_python", "s2"),
        3 => sp!("zuban_python::file", "s3"),
        _ => sp!("lsp", "s4"),
    }
}
struct Nest(u32, u8, u8, u32);
impl std::fmt::Display for Nest {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        emit(self.1, self.2, &text(self.3, 0));
        f.write_str(&text(self.0, 0))
    }
}

/// The most specific directive decides.
fn enabled(filter: &[(Option<String>, u8)], level: u8, target: u8) -> bool {
    let t = TARGETS[target as usize];
    let best = filter.iter().filter(|(d, _)| d.as_ref().is_none_or(|d| t.starts_with(d.as_str()))).max_by_key(|(d, _)| d.as_ref().map_or(0, |d| d.len() + 1));
    best.is_some_and(|(_, l)| level < *l)
}

#[derive(Clone)]
struct Want {
    id: u32,
    level: u8,
    text: String,
}
struct Th {
    filter: Arc<Vec<(Option<String>, u8)>>,
    want: Vec<Want>,
    boom: bool,
}
struct Boom;
fn exec(t: &mut Th, list: &[Act]) {
    for a in list {
        match a {
            Act::Rec(n, l, tg, k) => {
                if enabled(&t.filter, *l, *tg) {
                    t.want.push(Want { id: *n, level: *l, text: text(*n, *k) });
                }
                emit(*l, *tg, &text(*n, *k));
            }
            Act::Nested(n, l, tg, inner) => {
                if enabled(&t.filter, *l, *tg) {
                    t.want.push(Want { id: *inner, level: *l, text: text(*inner, 0) });
                    t.want.push(Want { id: *n, level: *l, text: text(*n, 0) });
                }
                emit(*l, *tg, &Nest(*n, *l, *tg, *inner));
            }
            Act::Span(l, tg, body) => {
                let s = span(*l, *tg);
                let _g = s.enter();
                exec(t, body);
            }
            Act::Work(k) => {
                for _ in 0..*k {
                    zsim_rt::stamp();
                }
            }
            Act::Panic(body) => {
                let r = catch_unwind(AssertUnwindSafe(|| {
                    exec(t, body);
                    t.boom = true;
                    std::panic::resume_unwind(Box::new(Boom));
                }));
                if r.is_err_and(|e| !e.is::<Boom>()) {
                    let p = zsim_rt::panics().last().cloned().unwrap_or_default();
                    violation("panic", format!("logging panicked at {}: {}", p.2, p.1));
                }
            }
        }
    }
}

/// Splits output into records; Err = the output is not a sequence of whole records.
fn parse(out: &[u8], all: &BTreeMap<u32, Want>) -> Result<Vec<u32>, String> {
    let s = String::from_utf8_lossy(out);
    let mut rest: &str = &s;
    let mut got = vec![];
    let snip = |r: &str| r.chars().take(120).collect::<String>();
    while !rest.is_empty() {
        // time stamp
        let Some(sp) = rest.find(' ') else { return Err(format!("no record at {:?}", snip(rest))) };
        let stamp = &rest[..sp];
        if !(stamp.starts_with(|c: char| c.is_ascii_digit()) && stamp.contains('T')) {
            return Err(format!("no time stamp at {:?}", snip(rest)));
        }
        let after = rest[sp..].trim_start_matches(' ');
        let Some(l) = LEVELS.iter().position(|l| after.starts_with(l) && after[l.len()..].starts_with(' ')) else { return Err(format!("no level at {:?}", snip(rest))) };
        let mut body = &after[LEVELS[l].len() + 1..];
        // names of spans
        while body.starts_with('s') && body[1..].starts_with(|c: char| c.is_ascii_digit()) {
            body = &body[2..];
            match body.chars().next() {
                Some(':') => body = body[1..].trim_start_matches(' '),
                _ => return Err(format!("no record at {:?}", snip(rest))),
            }
        }
        let id = body.strip_prefix('m').and_then(|b| b.split(';').next()).and_then(|d| d.parse::<u32>().ok());
        let Some(w) = id.and_then(|i| all.get(&i)) else { return Err(format!("no enabled record at {:?}", snip(rest))) };
        let Some(b) = body.strip_prefix(w.text.as_str()).and_then(|b| b.strip_prefix('\n')) else { return Err(format!("the text of record {} is broken: {:?}", w.id, snip(body))) };
        if w.level as usize != l {
            return Err(format!("record {} has level {}", w.id, LEVELS[l]));
        }
        got.push(w.id);
        rest = b;
    }
    Ok(got)
}

pub fn run(case: &Case) {
    let w: Work = crate::work(case);
    let _ = simfs().mkdir_p(b"/w");
    simfs().cwd_path = b"/w".to_vec();
    let dest = w.env_file.clone().or(w.flag_file.clone()).map(|f| if f.starts_with('/') { f } else { format!("/w/{f}") });
    if let (Some(d), Some(old)) = (&dest, &w.old) {
        if let Some(k) = d.rfind('/') {
            let _ = simfs().mkdir_p(d[..k].as_bytes());
        }
        let _ = simfs().write_all(d.as_bytes(), old.as_bytes());
    }
    let mut filter = match (&w.filter, w.quiet_default) {
        (Some(f), _) => f.clone(),
        (None, false) => vec![(None, 1)],
        (None, true) => vec![(None, 0)],
    };
    let names = ["off", "error", "warn", "info", "debug", "trace"];
    let spec = |f: &[(Option<String>, u8)]| f.iter().map(|(t, l)| t.as_ref().map_or(names[*l as usize].to_string(), |t| format!("{t}={}", names[*l as usize]))).collect::<Vec<_>>().join(",");
    unsafe {
        for v in ["ZUBAN_LOG", "ZUBAN_LOG_FILE", "ZUBAN_PROFILE"] {
            std::env::remove_var(v);
        }
        if let Some(b) = &w.bad_filter {
            std::env::set_var("ZUBAN_LOG", b);
        } else if w.filter.is_some() {
            std::env::set_var("ZUBAN_LOG", spec(&filter));
        }
        if let Some(f) = &w.env_file {
            std::env::set_var("ZUBAN_LOG_FILE", f);
        }
        if let Some(p) = &w.profile {
            std::env::set_var("ZUBAN_PROFILE", p);
        }
    }
    // the variant without the flag takes its destination from the environment only
    let (r, dest) = if w.quiet_default {
        let dest = w.env_file.as_ref().map(|f| if f.starts_with('/') { f.clone() } else { format!("/w/{f}") });
        (logging_config::setup_logging_without_printing_errors_by_default(), dest)
    } else {
        (logging_config::setup_logging(w.flag_file.clone().map(Into::into)), dest)
    };
    if w.bad_filter.is_some() {
        check!(r.is_err(), "setup", "the log filter {:?} was accepted", w.bad_filter);
        filter = vec![];
    } else if let Err(e) = r {
        violation("setup", format!("logging with {:?} cannot be set up: {e:?}", spec(&filter)));
    }
    let filter = Arc::new(filter);
    let wants: Arc<Mutex<BTreeMap<usize, Vec<Want>>>> = Default::default();
    zsim_rt::faults(true);
    let hs: Vec<_> = w
        .threads
        .into_iter()
        .map(|acts| {
            let (filter, wants) = (filter.clone(), wants.clone());
            std::thread::spawn(move || {
                let mut t = Th { filter, want: vec![], boom: false };
                let r = catch_unwind(AssertUnwindSafe(|| exec(&mut t, &acts)));
                if r.is_err() {
                    let p = zsim_rt::panics().last().cloned().unwrap_or_default();
                    violation("panic", format!("logging panicked at {}: {}", p.2, p.1));
                }
                wants.lock().unwrap().insert(zsim_rt::current(), t.want);
            })
        })
        .collect();
    for h in hs {
        if h.join().is_err() {
            violation("panic", "a thread ended by a panic");
        }
    }
    zsim_rt::faults(false);
    let wants = wants.lock().unwrap().clone();
    let to_stderr = dest.is_none();
    let profile_on_stderr = to_stderr && w.profile.is_some();
    let parts = zsim_rt::written(dest.as_deref());
    let all: BTreeMap<u32, Want> = wants.values().flatten().map(|w| (w.id, w.clone())).collect();
    let kind = if to_stderr { "stderr" } else { "write" };
    let hard = zsim_rt::fault_count(&format!("{kind}_eio")) + zsim_rt::fault_count(&format!("{kind}_enospc"));
    let short = zsim_rt::fault_count(&format!("{kind}_short"));
    if profile_on_stderr {
        // the profile report shares the destination: only look for lost and unwanted records
        let text: String = String::from_utf8_lossy(&parts.iter().flat_map(|p| p.1.clone()).collect::<Vec<u8>>()).into();
        if hard == 0 {
            for a in all.values() {
                let n = text.matches(a.text.as_str()).count();
                check!(n == 1, "lost", "record {} was written {n} times", a.id);
            }
        }
        return;
    }
    if let Some(d) = &dest {
        let now = simfs().resolve(d.as_bytes(), true).ok().and_then(|i| match &simfs().inodes[i].node {
            zsim_rt::fs::Node::File(b) => Some(b.clone()),
            _ => None,
        });
        let mut expect = w.old.clone().unwrap_or_default().into_bytes();
        expect.extend(parts.iter().flat_map(|p| p.1.clone()));
        check!(w.bad_filter.is_some() || now.as_ref() == Some(&expect), "file", "the log file does not contain the earlier content and all that was written");
        check!(zsim_rt::written(None).is_empty() || w.profile.is_some(), "destination", "there is a log file, but something was written to standard error");
    }
    for (t, want) in &wants {
        let mine: Vec<u8> = parts.iter().filter(|p| p.0 == *t).flat_map(|p| p.1.clone()).collect();
        let ids: Vec<u32> = want.iter().map(|w| w.id).collect();
        if hard == 0 {
            match parse(&mine, &all) {
                Err(e) => violation("record", format!("thread t{t}: {e}")),
                Ok(got) => check!(got == ids, "record", "thread t{t} logged the enabled records {ids:?}, written were {got:?}"),
            }
        } else {
            // records whose write failed may be missing or cut, the others are there, in order
            let s = String::from_utf8_lossy(&mine).to_string();
            let mut at = 0;
            let mut lost = 0;
            for w in want {
                match s[at..].find(&format!("{}\n", w.text)) {
                    Some(k) => at += k + w.text.len(),
                    None => lost += 1,
                }
            }
            check!(lost <= hard, "lost", "{hard} writes failed, but {lost} records of thread t{t} are missing or out of order");
            let known: BTreeSet<u32> = ids.iter().copied().collect();
            for piece in s.split('m').skip(1) {
                if let Some((d, _)) = piece.split_once(';')
                    && let Ok(n) = d.parse::<u32>()
                {
                    check!(known.contains(&n), "record", "thread t{t} wrote record {n}, which is not enabled or not its own");
                }
            }
        }
    }
    for p in &parts {
        check!(wants.contains_key(&p.0), "record", "thread t{} wrote to the log", p.0);
    }
    if hard == 0 && (short == 0 || to_stderr) {
        let whole: Vec<u8> = parts.iter().flat_map(|p| p.1.clone()).collect();
        if let Err(e) = parse(&whole, &all) {
            violation("broken", format!("records of different threads are mixed: {e}"));
        }
    }
    zsim_rt::state(all.len() as u64);
    if !all.is_empty() {
        zsim_rt::probe(if to_stderr { "records on standard error" } else { "records in a file" });
    }
}
