//! C14: panic contexts of several threads against a per-thread stack model.
use crate::{Case, base_cfg};
use serde::{Deserialize, Serialize};
use std::panic::{AssertUnwindSafe, catch_unwind, panic_any, resume_unwind};
use std::sync::{Arc, Mutex};
use zsim_rt::rng::Rng;
use zsim_rt::{check, violation};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Act {
    /// enter a context, act, leave it
    Ctx(u32, Vec<Act>),
    /// act, surviving panics
    Catch(Vec<Act>),
    Panic,
    /// unwinding without the panic hook
    Resume,
    Work(u32),
    /// act in a new thread, inside nothing
    Spawn(Vec<Act>),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Work {
    pub threads: Vec<Vec<Act>>,
    /// text of the labels
    pub style: u8,
}
fn label(n: u32, style: u8) -> String {
    match style {
        0 => format!("c{n};"),
        1 => format!("/some/path/é日本 {{}} c{n}; x"),
        2 => format!("line one\nc{n};\nline > three"),
        _ => format!("{}c{n};{}", "a".repeat(300), "b".repeat(3000)),
    }
}
fn acts(r: &mut Rng, depth: usize, n: &mut u32) -> Vec<Act> {
    (0..1 + r.below(4))
        .map(|_| match r.below(if depth > 5 { 12 } else { 24 }) {
            0 | 1 => Act::Panic,
            2 => Act::Resume,
            3..=11 => Act::Work(r.below(6) as u32),
            12..=18 => {
                *n += 1;
                let k = *n;
                Act::Ctx(k, acts(r, depth + 1, n))
            }
            19 if depth < 3 => Act::Spawn(acts(r, depth + 2, n)),
            _ => Act::Catch(acts(r, depth + 1, n)),
        })
        .collect()
}
pub fn generate(seed: u64, r: &mut Rng, _deep: bool) -> Case {
    let mut n = 0;
    let threads = (0..1 + r.below(4))
        .map(|_| {
            let k = 1 + r.below(3);
            (0..k).map(|_| Act::Catch(acts(r, 0, &mut n))).collect()
        })
        .collect();
    let mut cfg = base_cfg(seed, r, true);
    cfg.mean = *r.pick(&[2, 5, 15, 50]);
    cfg.pct_span = *r.pick(&[50, 300, 1500]);
    for k in ["stderr_eintr", "stderr_short", "stderr_eio", "futex_spurious"] {
        if r.chance(1, 4) {
            cfg.faults.insert(k.into(), *r.pick(&[50u32, 300, 1000]));
            if k == "stderr_eintr" {
                cfg.faults.insert(k.into(), 300);
            }
        }
    }
    Case { scenario: "pctx".into(), cfg, work: serde_json::to_value(Work { threads, style: r.below(4) as u8 }).unwrap() }
}

struct Boom;
struct Th {
    id: usize,
    style: u8,
    stack: Vec<u32>,
    /// all panics, panics inside contexts
    n_panics: Arc<Mutex<(usize, usize)>>,
    /// expected tokens of this thread's standard error, one list per panic
    expect: Vec<Vec<u32>>,
}
fn me() -> usize {
    zsim_rt::current()
}
fn exec(t: &mut Th, list: &[Act]) {
    for a in list {
        match a {
            Act::Ctx(n, body) => {
                let depth = t.stack.len();
                let _c = utils::panic_context::enter(label(*n, t.style));
                t.stack.push(*n);
                exec(t, body);
                t.stack.truncate(depth);
            }
            Act::Catch(body) => {
                let saved = t.stack.clone();
                let r = catch_unwind(AssertUnwindSafe(|| exec(t, body)));
                if let Err(e) = r {
                    check!(e.is::<Boom>(), "other-panic", "a panic arrived with another payload: {}", last());
                }
                t.stack = saved;
            }
            Act::Panic => {
                t.expect.push(t.stack.clone());
                let mut g = t.n_panics.lock().unwrap();
                g.0 += 1;
                g.1 += !t.stack.is_empty() as usize;
                drop(g);
                zsim_rt::probe(if t.stack.is_empty() { "panic outside contexts" } else { "panic inside contexts" });
                panic_any(Boom);
            }
            Act::Resume => resume_unwind(Box::new(Boom)),
            Act::Work(k) => {
                for i in 0..*k {
                    std::hint::black_box(i);
                    zsim_rt::stamp();
                }
            }
            Act::Spawn(body) => {
                let (body, style, n_panics) = (body.clone(), t.style, t.n_panics.clone());
                let h = std::thread::spawn(move || {
                    let mut t = Th { id: me(), style, stack: vec![], n_panics, expect: vec![] };
                    exec_top(&mut t, &body);
                    finish(&t);
                });
                if h.join().is_err() {
                    violation("other-panic", format!("a thread ended by a panic of its own: {}", last()));
                }
            }
        }
    }
}
fn last() -> String {
    let p = zsim_rt::panics().last().cloned().unwrap_or_default();
    format!("{} at {}", p.1, p.2)
}
fn exec_top(t: &mut Th, list: &[Act]) {
    let r = catch_unwind(AssertUnwindSafe(|| exec(t, list)));
    if let Err(e) = r {
        check!(e.is::<Boom>(), "other-panic", "a panic arrived with another payload: {}", last());
    }
    t.stack.clear();
}
/// Compares what the thread printed with what its stack was.
fn finish(t: &Th) {
    let out = zsim_rt::stderr_of(t.id);
    let text = String::from_utf8_lossy(&out).to_string();
    let mut got = vec![];
    let b = text.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'c' && i + 1 < b.len() && b[i + 1].is_ascii_digit() {
            let mut j = i + 1;
            let mut n = 0u32;
            while j < b.len() && b[j].is_ascii_digit() {
                n = n * 10 + (b[j] - b'0') as u32;
                j += 1;
            }
            if j < b.len() && b[j] == b';' {
                got.push(n);
            }
            i = j;
        } else {
            i += 1;
        }
    }
    let want: Vec<u32> = t.expect.iter().flatten().copied().collect();
    if zsim_rt::hard_faults() == 0 {
        check!(got == want, "context", "thread t{} printed the contexts {got:?}, entered were {want:?}", t.id);
        for n in &want {
            check!(text.contains(&label(*n, t.style)), "context", "the context {n} is not printed completely");
        }
    } else {
        // lost output is fine, other output is not
        let mut w = want.iter();
        check!(got.iter().all(|g| w.any(|x| x == g)), "context", "thread t{} printed the contexts {got:?}, entered were {want:?}", t.id);
    }
    zsim_rt::state(zsim_rt::hash(format!("{got:?}").as_bytes()));
}

pub fn run(case: &Case) {
    let w: Work = crate::work(case);
    let n_panics: Arc<Mutex<(usize, usize)>> = Default::default();
    zsim_rt::faults(true);
    let hs: Vec<_> = w
        .threads
        .into_iter()
        .map(|acts| {
            let (style, n_panics) = (w.style, n_panics.clone());
            std::thread::spawn(move || {
                let mut t = Th { id: me(), style, stack: vec![], n_panics, expect: vec![] };
                for a in &acts {
                    exec_top(&mut t, std::slice::from_ref(a));
                }
                finish(&t);
            })
        })
        .collect();
    for h in hs {
        if h.join().is_err() {
            violation("other-panic", format!("a thread ended by a panic of its own: {}", last()));
        }
    }
    zsim_rt::faults(false);
    let (n, inside) = *n_panics.lock().unwrap();
    let ran = zsim_rt::panics().len();
    // while the hook is being installed, panics of threads without contexts go to the default hook
    check!(inside <= ran && ran <= n, "hook", "{n} panics, {inside} of them inside contexts, but the previous panic hook ran {ran} times");
}
