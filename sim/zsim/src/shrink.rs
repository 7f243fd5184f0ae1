//! Minimisation: first the workload (operations), then the recorded decisions.
use crate::forkrun::fork_run;
use crate::Replay;
use drive::Case;
use serde_json::Value;
use std::time::Instant;
use zsim_rt::{Outcome, Rec};

struct S {
    class: String,
    t0: Instant,
    limit: f64,
}
impl S {
    fn over(&self) -> bool {
        self.t0.elapsed().as_secs_f64() > self.limit
    }
    fn fails(&self, c: &Case, rec: Option<&Rec>) -> Option<Outcome> {
        let o = fork_run(c, rec.cloned(), false);
        (o.violation.as_ref().map(|v| &v.0) == Some(&self.class)).then_some(o)
    }
}

/// Removes chunks of a list while `ok` accepts the remainder.
fn ddmin<T: Clone>(s: &S, v: &[T], ok: &mut dyn FnMut(&[T]) -> bool) -> Vec<T> {
    let mut cur = v.to_vec();
    let mut size = cur.len().div_ceil(2).max(1);
    while !cur.is_empty() && !s.over() {
        let mut i = 0;
        let mut removed = false;
        while i < cur.len() && !s.over() {
            let mut cand = cur.clone();
            cand.drain(i..(i + size).min(cur.len()));
            if ok(&cand) {
                cur = cand;
                removed = true;
            } else {
                i += size;
            }
        }
        if size == 1 {
            if !removed {
                break;
            }
        } else {
            size = (size / 2).max(1);
        }
    }
    cur
}

/// JSON pointers of all lists, outer ones first.
fn arrays(v: &Value, at: String, depth: u32, out: &mut Vec<String>) {
    match v {
        Value::Array(a) => {
            out.push(at.clone());
            if depth > 1 {
                a.iter().enumerate().rev().for_each(|(i, x)| arrays(x, format!("{at}/{i}"), depth - 1, out));
            }
        }
        Value::Object(m) => m.iter().for_each(|(k, x)| arrays(x, format!("{at}/{k}"), depth, out)),
        _ => {}
    }
}

pub fn minimise(prop: &str, case: Case, o: Outcome, rec: Option<Rec>, limit: f64) -> Replay {
    let (class, message) = o.violation.clone().unwrap();
    let s = S { class: class.clone(), t0: Instant::now(), limit };
    let original_seed = case.cfg.seed;
    let mut best = (case, o);
    let seeded = rec.is_none();
    if seeded {
        // the same workload with calmer schedules is easier to read
        for strat in [0u8] {
            let mut c = best.0.clone();
            c.cfg.strategy = strat;
            if let Some(o) = s.fails(&c, None) {
                best = (c, o);
            }
        }
        let ks: Vec<String> = best.0.cfg.faults.keys().cloned().collect();
        for k in ks {
            let mut c = best.0.clone();
            c.cfg.faults.remove(&k);
            if let Some(o) = s.fails(&c, None) {
                best = (c, o);
            }
        }
        for round in 0..3 {
            // first the operations, then the lists inside them
            let mut ptrs = vec![];
            arrays(&best.0.work, String::new(), if round == 0 { 1 } else { 6 }, &mut ptrs);
            let mut shrunk = false;
            for k in &ptrs {
                let Some(v) = best.0.work.pointer(k).and_then(|v| v.as_array()).cloned() else { continue };
                let mut cur = best.clone();
                let base = best.0.clone();
                let n = v.len();
                let left = ddmin(&s, &v, &mut |cand: &[Value]| {
                    let mut c = base.clone();
                    *c.work.pointer_mut(k).unwrap() = Value::Array(cand.to_vec());
                    match s.fails(&c, None) {
                        Some(o) => {
                            cur = (c, o);
                            true
                        }
                        None => false,
                    }
                });
                shrunk |= left.len() < n;
                best = cur;
            }
            if round > 0 && !shrunk {
                break;
            }
        }
    }
    let mut rec = if seeded { Some(best.1.rec.clone()) } else { rec };
    // a crashed or hung process cannot hand over its decisions; its seed is the replay
    let crashed = class == "crash" || class == "hang";
    if crashed && seeded {
        rec = None;
    }
    if let Some(r0) = rec.clone() {
        match s.fails(&best.0, Some(&r0)) {
            None => rec = None,
            Some(o0) => {
                best.1 = o0;
                let mut r = r0;
                macro_rules! part {
                    ($f:ident) => {
                        if !r.$f.is_empty() {
                            let mut q = r.clone();
                            q.$f = vec![];
                            if let Some(o) = s.fails(&best.0, Some(&q)) {
                                best.1 = o;
                                r = q;
                            } else {
                                let v = r.$f.clone();
                                let base = r.clone();
                                let mut keep = r.clone();
                                ddmin(&s, &v, &mut |c: &[_]| {
                                    let mut q = base.clone();
                                    q.$f = c.to_vec();
                                    if let Some(o) = s.fails(&best.0, Some(&q)) {
                                        best.1 = o;
                                        keep = q;
                                        true
                                    } else {
                                        false
                                    }
                                });
                                r = keep;
                            }
                        }
                    };
                }
                part!(pre);
                part!(pts);
                part!(picks);
                part!(faults);
                part!(env);
                part!(pre);
                rec = Some(r);
            }
        }
    }
    let message = best.1.violation.as_ref().map(|v| v.1.clone()).unwrap_or(message);
    Replay { property: prop.into(), class, message, log_hash: best.1.log_hash, case: best.0, rec, original_seed }
}
