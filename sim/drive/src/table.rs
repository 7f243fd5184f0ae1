//! C08: the append-only table against a sequential list, by a linearizability search.
use crate::{Case, base_cfg};
use serde::{Deserialize, Serialize};
use std::collections::HashSet;
use std::sync::{Arc, Mutex};
use utils::InsertOnlyVec;
use zsim_rt::rng::Rng;
use zsim_rt::{check, stamp, violation};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum TOp {
    Push(u64),
    Get(usize),
    Index(usize),
    Len,
    Empty,
    Last,
    /// read again what an earlier operation of this thread returned
    Reread,
    /// copy the table
    Copy,
    /// format the table
    Show,
    /// index far outside: panics, and leaves the table usable
    Outside,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Work {
    /// elements present before the threads start
    initial: Vec<u64>,
    t0: Vec<TOp>,
    t1: Vec<TOp>,
    t2: Vec<TOp>,
    t3: Vec<TOp>,
}

pub fn generate(seed: u64, r: &mut Rng, deep: bool) -> Case {
    let n = 2 + r.below(3);
    let init = *r.pick(&[0usize, 0, 1, 3, 4, 7, 8, 15]);
    let mut val = 1000u64;
    let mut gen_ops = |r: &mut Rng, active: bool| -> Vec<TOp> {
        if !active {
            return vec![];
        }
        let k = 2 + r.below(if deep { 7 } else { 5 });
        (0..k)
            .map(|_| match r.below(10) {
                0..=4 => {
                    val += 1;
                    TOp::Push(val)
                }
                5 => TOp::Get(init + r.below(6)),
                6 => TOp::Len,
                7 => TOp::Last,
                8 => match r.below(6) {
                    0 | 1 => TOp::Empty,
                    2 | 3 => TOp::Reread,
                    4 => TOp::Copy,
                    _ => if r.chance(1, 2) { TOp::Show } else { TOp::Outside },
                },
                _ => TOp::Index(r.below(init + 6)),
            })
            .collect()
    };
    let w = Work {
        initial: (0..init as u64).collect(),
        t0: gen_ops(r, true),
        t1: gen_ops(r, true),
        t2: gen_ops(r, n > 2),
        t3: gen_ops(r, n > 3),
    };
    let mut cfg = base_cfg(seed, r, true);
    cfg.mean = *r.pick(&[2, 4, 8, 20, 60]);
    cfg.pct_span = *r.pick(&[50, 200, 800]);
    cfg.max_ticks = 2_000_000;
    if r.chance(1, 3) {
        cfg.faults.insert("futex_spurious".into(), 200);
    }
    Case { scenario: "table".into(), cfg, work: serde_json::to_value(w).unwrap() }
}

#[derive(Clone, Debug)]
enum Ret {
    Pushed(usize, u64),
    Elem(Option<u64>),
    Num(usize),
    Bool(bool),
    List(Vec<u64>),
    Skip,
}
#[derive(Clone, Debug)]
struct Ev {
    inv: u64,
    ret: u64,
    op: TOp,
    out: Ret,
}

pub fn run(case: &Case) {
    let w: Work = crate::work(case);
    let table: Arc<InsertOnlyVec<u64>> = Arc::new(InsertOnlyVec::default());
    for v in &w.initial {
        table.push(Box::pin(*v));
    }
    let base = w.initial.len();
    let refs: Arc<Mutex<Vec<(usize, usize, u64)>>> = Default::default(); // index, address, value
    let hist: Arc<Mutex<Vec<Vec<Ev>>>> = Default::default();
    zsim_rt::faults(true);
    let hs: Vec<_> = [w.t0, w.t1, w.t2, w.t3]
        .into_iter()
        .filter(|o| !o.is_empty())
        .map(|ops| {
            let (table, refs, hist) = (table.clone(), refs.clone(), hist.clone());
            std::thread::spawn(move || {
                let mut mine = vec![];
                let mut seen: Vec<(usize, &u64)> = vec![];
                let mut got: Vec<(usize, &u64)> = vec![];
                for op in ops {
                    let inv = stamp();
                    let out = match &op {
                        TOp::Push(v) => {
                            let (e, i) = table.push(Box::pin(*v));
                            seen.push((i, e));
                            Ret::Pushed(i, *e)
                        }
                        TOp::Get(i) => {
                            let e = table.get(*i);
                            if let Some(e) = e {
                                got.push((*i, e));
                            }
                            Ret::Elem(e.copied())
                        }
                        TOp::Index(i) => {
                            // indexing is only legal for indices known to exist
                            if *i < table.len() {
                                let e = &table[*i];
                                got.push((*i, e));
                                Ret::Elem(Some(*e))
                            } else {
                                Ret::Skip
                            }
                        }
                        TOp::Len => Ret::Num(table.len()),
                        TOp::Empty => Ret::Bool(table.is_empty()),
                        TOp::Last => Ret::Elem(table.last().copied()),
                        TOp::Copy => {
                            let c = (*table).clone();
                            Ret::List((0..c.len()).map(|i| *c.get(i).unwrap()).collect())
                        }
                        TOp::Show => {
                            let t = format!("{:?}", *table);
                            let l: Vec<u64> = t.trim_matches(['[', ']']).split(", ").filter(|x| !x.is_empty()).map(|x| x.parse().unwrap_or(u64::MAX)).collect();
                            Ret::List(l)
                        }
                        TOp::Outside => {
                            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| table[1_000_000]));
                            check!(r.is_err(), "phantom-element", "the table has an element 1000000");
                            Ret::Skip
                        }
                        TOp::Reread => {
                            for (i, e) in &seen {
                                let again = table.get(*i);
                                check!(again.is_some_and(|a| std::ptr::eq(a, *e)), "moved-element", "element {i} is at another address when read again");
                            }
                            Ret::Skip
                        }
                    };
                    let ret = stamp();
                    mine.push(Ev { inv, ret, op, out });
                }
                let mut g = refs.lock().unwrap();
                for (i, e) in seen.into_iter().chain(got) {
                    g.push((i, e as *const u64 as usize, *e));
                }
                drop(g);
                hist.lock().unwrap().push(mine);
            })
        })
        .collect();
    for h in hs {
        if h.join().is_err() {
            let p = zsim_rt::panics().last().cloned().unwrap_or_default();
            violation("panic", format!("a table operation panicked at {}: {}", p.2, p.1));
        }
    }
    zsim_rt::faults(false);
    for (i, addr, v) in refs.lock().unwrap().iter() {
        let now = table.get(*i);
        check!(now.is_some_and(|n| n as *const u64 as usize == *addr && n == v), "changed-element", "element {i} was {v} and is now {now:?} or moved");
    }
    let hist = hist.lock().unwrap().clone();
    // values by index, from the final table
    let fin: Vec<u64> = (0..table.len()).map(|i| *table.get(i).unwrap()).collect();
    let n_push: usize = hist.iter().flatten().filter(|e| matches!(e.op, TOp::Push(_))).count();
    check!(fin.len() == base + n_push, "lost-append", "{} appends on {base} elements gave a table of {}", n_push, fin.len());
    zsim_rt::state(zsim_rt::hash(format!("{fin:?}").as_bytes()));
    let mut memo = HashSet::new();
    if !search(&hist, &mut vec![0; hist.len()], w.initial.clone(), &mut memo) {
        violation("not-linearizable", format!("no sequential order explains the history {hist:?}"));
    }
    if zsim_rt::world().switches > 2 {
        zsim_rt::probe("operations overlapped");
    }
}

fn apply(list: &mut Vec<u64>, e: &Ev) -> bool {
    match (&e.op, &e.out) {
        (TOp::Push(v), Ret::Pushed(i, got)) => {
            list.push(*v);
            *i == list.len() - 1 && got == v
        }
        (TOp::Get(i), Ret::Elem(x)) => list.get(*i).copied() == *x,
        (TOp::Index(i), Ret::Elem(x)) => list.get(*i).copied() == *x,
        (TOp::Last, Ret::Elem(x)) => list.last().copied() == *x,
        (TOp::Len, Ret::Num(n)) => list.len() == *n,
        (TOp::Copy | TOp::Show, Ret::List(l)) => list == l,
        (TOp::Empty, Ret::Bool(b)) => list.is_empty() == *b,
        (_, Ret::Skip) => true,
        _ => false,
    }
}
fn search(h: &[Vec<Ev>], pos: &mut Vec<usize>, list: Vec<u64>, memo: &mut HashSet<Vec<u64>>) -> bool {
    if pos.iter().zip(h).all(|(p, t)| *p == t.len()) {
        return true;
    }
    let mut key: Vec<u64> = pos.iter().map(|p| *p as u64).collect();
    key.push(u64::MAX);
    key.extend(&list);
    if !memo.insert(key) {
        return false;
    }
    // an operation may be next only if no other pending operation returned before it was invoked
    let min_ret = (0..h.len()).filter(|t| pos[*t] < h[*t].len()).map(|t| h[t][pos[t]].ret).min().unwrap();
    for t in 0..h.len() {
        if pos[t] < h[t].len() && h[t][pos[t]].inv < min_ret {
            let mut l = list.clone();
            if apply(&mut l, &h[t][pos[t]]) {
                pos[t] += 1;
                if search(h, pos, l, memo) {
                    return true;
                }
                pos[t] -= 1;
            }
        }
    }
    false
}
