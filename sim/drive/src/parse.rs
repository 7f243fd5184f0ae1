//! C15: concurrent parses against parses alone in a fresh process, and trees against their sources.
use crate::{Case, base_cfg};
use parsa_python::PyTree;
use parsa_python_cst::Tree;
use serde::{Deserialize, Serialize};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::{Arc, Mutex};
use zsim_rt::rng::Rng;
use zsim_rt::{check, quiet, violation};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum POp {
    /// parse source n and compare
    Parse(usize),
    /// parse source n, hand the tree to the others
    Share(usize),
    /// look at all trees handed over so far
    Look,
    /// compare again the trees this thread keeps
    Again,
    Ident(String),
    Keyword(String),
    /// panic, survived, while holding a fresh tree of source n
    Panic(usize),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Work {
    pub sources: Vec<String>,
    /// parse something before the threads start
    pub warm: bool,
    pub threads: Vec<Vec<POp>>,
    /// do not set aside the known finding
    #[serde(default)]
    pub strict: bool,
}

const LINES: &[&str] = &[
    "x = 1", "def f(a, *b: int, c=3, **d) -> str: ...", "class C(A, metaclass=M): pass", "import os, sys as s", "from . import a", "from .b.c import (d as e,\n  f,)",
    "if x: pass\nelif y: pass\nelse: z", "for a, b in c:\n    pass\nelse:\n    x", "while 1:\n\tbreak", "try:\n    a\nexcept* (B, C) as d:\n    e\nfinally:\n    f",
    "with a as b, (c) as d: e", "async def f():\n    await g()\n    async for x in y: pass", "match x:\n    case [1, *_, {'a': b, **c}] if d: pass\n    case A.B(c, d=e) | None as z: pass",
    "type X[T: int, *Ts, **P] = list[T]", "lambda a, /, b=1, *, c: a if b else c", "[x async for x in y if x if y]", "{**a, 'b': c}", "{1, 2, *d}", "print(*a, b=c, **d)", "x[1:2, ::3, ...]",
    "f'a{b!r:>{c}}d' f\"{f'{x}'}\"", "rb'\\x00' b\"a\"", "'''doc\nstring'''", "f'''{\na\n}'''", "x: int = 3  # type: ignore", "# type: ignore[a, b]", "@dec(1)\n@dec2\ndef g(): return (yield)",
    "del a, (b, [c])", "assert a, b", "raise A from b", "global a, b", "nonlocal c", "a = b = yield from c", "x += 1; y **= 2;", "a if b else c", "not a in b is not c", "a @ b // c << d", "0x_ff + 1e5j + 0b1 + 1_0.0", "(a := 3)", "x = \\\n  3",
    "\u{e9}t\u{e9} = '\u{65e5}\u{672c}'", "def f(x,", "class", "if x", "foo(", ")", "]", "x = = 3", "'unterminated", "'''never closed", "f'{", "f'{x", "f'{x!}'", "    indented", "\tx", "\u{c}x = 1", "x = $", "?", "a\\b", "\0", "return", "lambda", "def def", "*a, b = c", "import", "from x import", "@", "else:", "except:", "for x y", "[1, 2", "{a: b", "print 'x'", "\u{feff}x", "match = 1", "case = match", "type = 3", "_ = type(x)", "async = 1", "x.", "a..b", "\\", "x \\", "if a:\n  b\n c\n", "if a:\n\tb\n        c\n", "if a:\n    if b:\n        c\nd", "def f():\n    '''d'''\n    def g(): ...\n    class D:\n        x: int\n        def h(self): return self.x",
];
fn source(r: &mut Rng) -> String {
    let mut s = String::new();
    if r.chance(1, 20) {
        s.push('\u{feff}');
    }
    let n = if r.chance(1, 3) { 12 + r.below(30) } else { r.below(7) };
    for _ in 0..n {
        let l = *r.pick(LINES);
        match r.below(8) {
            0 => {
                // inside a block
                s += "if a:\n";
                for x in l.split('\n') {
                    s += "    ";
                    s += x;
                    s.push('\n');
                }
                continue;
            }
            1 => {
                // cut somewhere
                let mut k = r.below(l.len() + 1);
                while !l.is_char_boundary(k) {
                    k += 1;
                }
                s += &l[..k];
            }
            2 => {
                s.push('(');
                s += l;
                s.push(')');
            }
            _ => s += l,
        }
        s += *r.pick(&["\n", "\n", "\n", "\n", "\n\n", "\r\n", "\r", "  # comment\n", ";", " ", "\n# c\n", "\\\n", "\n  "]);
    }
    if r.chance(1, 3) {
        while s.ends_with('\n') {
            s.pop();
        }
    }
    s
}
/// Texts that a careless cache would take for the same.
fn near(r: &mut Rng, s: &str) -> String {
    let cs: Vec<char> = s.chars().collect();
    if cs.is_empty() {
        return " ".into();
    }
    let k = r.below(cs.len());
    match r.below(5) {
        0 => cs.iter().enumerate().map(|(i, c)| if i == k { *r.pick(&['a', 'b', '1', '(', '"', ' ', '\n', ':']) } else { *c }).collect(),
        1 => cs.iter().enumerate().filter(|(i, _)| *i != k).map(|(_, c)| *c).collect(),
        2 => format!("{s}{}", *r.pick(&["x", "\n", " ", "#", "\\", "\u{e9}"])),
        3 => cs[..k].iter().collect(),
        _ => s.to_uppercase(),
    }
}
pub fn generate(seed: u64, r: &mut Rng, deep: bool) -> Case {
    let mut sources: Vec<String> = vec![];
    for _ in 0..2 + r.below(if deep { 6 } else { 4 }) {
        let s = if !sources.is_empty() && r.chance(1, 3) {
            let b = r.pick(&sources).clone();
            near(r, &b)
        } else {
            source(r)
        };
        sources.push(s);
    }
    let n = sources.len();
    let threads = (0..2 + r.below(3))
        .map(|_| {
            (0..1 + r.below(if deep { 8 } else { 5 }))
                .map(|_| match r.below(14) {
                    0..=5 => POp::Parse(r.below(n)),
                    6 | 7 => POp::Share(r.below(n)),
                    8 | 9 => POp::Look,
                    10 => POp::Again,
                    11 => POp::Ident(r.pick(&["a", "", "\u{e9}t\u{e9}", "1a", "a b", "match", "class", "_", "a\n", "\u{b2}"]).to_string()),
                    12 => POp::Keyword(r.pick(&["if", "match", "a", "", "class", "async", "print", "None", "_"]).to_string()),
                    _ => POp::Panic(r.below(n)),
                })
                .collect()
        })
        .collect();
    let warm = !r.chance(1, 10);
    let mut cfg = base_cfg(seed, r, true);
    cfg.mean = *r.pick(&[30, 300, 3000, 20_000]);
    cfg.pct_span = *r.pick(&[3000, 30_000, 300_000]);
    cfg.max_ticks = 200_000_000;
    cfg.rare = *r.pick(&[0u32, 10, 40, 150]);
    if r.chance(1, 3) {
        cfg.faults.insert("futex_spurious".into(), 200);
    }
    if r.chance(1, 10) {
        cfg.faults.insert("thread_eagain".into(), 100);
    }
    Case { scenario: "parse".into(), cfg, work: serde_json::to_value(Work { sources, warm, threads, strict: false }).unwrap() }
}


fn mix(h: u64, x: u64) -> u64 {
    zsim_rt::world::fnv(h, x)
}
/// Everything visible of a raw tree, as one number.
fn digest_raw(t: &PyTree) -> u64 {
    let mut h = zsim_rt::hash(t.as_code().as_bytes());
    for n in t.nodes() {
        h = mix(h, n.start() as u64);
        h = mix(h, n.length() as u64);
        h = mix(h, zsim_rt::hash(n.type_str().as_bytes()));
    }
    h
}
/// What the checker's view of the tree shows.
fn digest(t: &Tree) -> u64 {
    let mut h = zsim_rt::hash(t.code().as_bytes());
    for i in 0..t.length() as u32 {
        h = mix(h, t.node_start_position(i) as u64);
        h = mix(h, t.node_end_position(i) as u64);
    }
    for m in t.filter_all_names(None) {
        h = mix(h, m.start() as u64);
        h = mix(h, zsim_rt::hash(m.as_code().as_bytes()));
    }
    for (a, b) in t.folding_blocks() {
        h = mix(mix(h, a as u64), b as u64);
    }
    for (i, d) in t.mypy_inline_config_directives() {
        h = mix(mix(h, i as u64), zsim_rt::hash(d.as_bytes()));
    }
    mix(h, zsim_rt::hash(format!("{:?}", t.has_type_ignore_at_start()).as_bytes()))
}
/// The source as the parser has to keep it: only line ends at the very end may be added.
fn same_source(source: &str, code: &str) -> bool {
    code.strip_prefix(source).is_some_and(|rest| matches!(rest, "" | "\n" | "\n\n"))
}
/// The leaves cover the text in order, and only blanks, comments and joined lines lie between them.
fn faithful(source: &str, t: &PyTree, strict: bool) -> Result<(), String> {
    let code = t.as_code();
    if !same_source(source, code) {
        return Err(format!("the tree of {source:?} holds {code:?}"));
    }
    let mut at = 0usize;
    for n in t.nodes().filter(|n| n.is_leaf()) {
        let (a, b) = (n.start() as usize, n.end() as usize);
        if a < at || b < a || b > code.len() {
            return Err(format!("the leaf {a}..{b} of {source:?} does not follow the one that ended at {at}"));
        }
        gap(source, &code[at..a], known(t, at, strict))?;
        at = b;
    }
    gap(source, &code[at..], known(t, at, strict))
}
/// The known finding: a token that a negative lookahead rejects is dropped, where an error node ends.
fn known(t: &PyTree, at: usize, strict: bool) -> bool {
    !strict && t.nodes().any(|n| !n.is_leaf() && n.end() as usize == at && n.is_error_recovery_node())
}
const LOOKAHEADS: [&str; 9] = [":=", "=", "as", ",", ".", "_", ":", "[", "("];
fn gap(source: &str, g: &str, mut known: bool) -> Result<(), String> {
    let mut rest = g;
    while let Some(c) = rest.chars().next() {
        if known && let Some(l) = LOOKAHEADS.iter().find(|l| rest.starts_with(**l)) {
            known = false;
            rest = &rest[l.len()..];
            continue;
        }
        match c {
            ' ' | '\t' | '\u{c}' | '\n' | '\r' | '\\' | '\u{feff}' => rest = &rest[c.len_utf8()..],
            // to the end of the line
            '#' => rest = &rest[rest.find(['\n', '\r']).unwrap_or(rest.len())..],
            c => return Err(format!("no leaf of the tree of {source:?} covers {c:?} in {g:?}")),
        }
    }
    Ok(())
}
/// Makes the shared tables.
pub fn warm() {
    drop(parsa_python::parse("x\n".into()));
}
#[derive(Clone, Copy, PartialEq, Debug)]
struct Ref {
    raw: u64,
    tree: u64,
}
/// Parses every source alone in a fresh process; None where that panics.
fn reference(sources: &[String]) -> Vec<Option<Ref>> {
    unsafe {
        let len = (sources.len() * 3 * 8).max(8);
        let p = libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        if p == libc::MAP_FAILED {
            zsim_rt::fatal("harness", "mmap".into());
        }
        let out = p as *mut u64;
        let wait = |pid: i32| {
            let mut st = 0;
            libc::waitpid(pid, &mut st, 0);
        };
        let pid = libc::fork();
        if pid == 0 {
            warm();
            for (i, s) in sources.iter().enumerate() {
                let pid = libc::fork();
                if pid == 0 {
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        let raw = digest_raw(&parsa_python::parse(s.as_str().into()));
                        let tree = digest(&Tree::parse(s.as_str().into()));
                        *out.add(i * 3 + 1) = raw;
                        *out.add(i * 3 + 2) = tree;
                    }));
                    *out.add(i * 3) = r.is_ok() as u64;
                    libc::_exit(0);
                }
                wait(pid);
            }
            libc::_exit(0);
        }
        wait(pid);
        let v = (0..sources.len()).map(|i| (*out.add(i * 3) == 1).then(|| Ref { raw: *out.add(i * 3 + 1), tree: *out.add(i * 3 + 2) })).collect();
        libc::munmap(p, len);
        v
    }
}
pub fn run(case: &Case) {
    let w: Work = crate::work(case);
    let w = Arc::new(w);
    let refs = Arc::new(zsim_rt::frozen(|| reference(&w.sources)));
    if w.warm {
        zsim_rt::frozen(warm);
    }
    let shared: Arc<Mutex<Vec<(usize, Arc<Tree>)>>> = Default::default();
    zsim_rt::faults(true);
    let mut hs = vec![];
    for ops in w.threads.iter().cloned() {
        let (w, refs, shared) = (w.clone(), refs.clone(), shared.clone());
        let b = std::thread::Builder::new().spawn(move || {
            let mut kept: Vec<(usize, PyTree)> = vec![];
            let compare = |i: usize, t: &PyTree, what: &str| {
                quiet(|| {
                    let d = digest_raw(t);
                    check!(Some(d) == refs[i].map(|r| r.raw), "different-tree", "{what} the tree of {:?} differs from the one a fresh process makes", w.sources[i]);
                    if let Err(e) = faithful(&w.sources[i], t, w.strict) {
                        violation("unfaithful-tree", e);
                    }
                })
            };
            for op in &ops {
                match op {
                    POp::Parse(i) | POp::Share(i) | POp::Panic(i) if *i >= w.sources.len() || refs[*i].is_none() => {}
                    POp::Parse(i) => {
                        let t = parsa_python::parse(w.sources[*i].as_str().into());
                        compare(*i, &t, "after a concurrent parse");
                        kept.push((*i, t));
                    }
                    POp::Share(i) => {
                        let t = Arc::new(Tree::parse(w.sources[*i].as_str().into()));
                        shared.lock().unwrap().push((*i, t));
                    }
                    POp::Look => {
                        let l = shared.lock().unwrap().clone();
                        for (i, t) in l {
                            let d = digest(&t);
                            check!(Some(d) == refs[i].map(|r| r.tree), "different-view", "a shared tree of {:?} shows something else than in a fresh process", w.sources[i]);
                        }
                    }
                    POp::Again => kept.iter().for_each(|(i, t)| compare(*i, t, "some time after parsing,")),
                    POp::Ident(s) => {
                        let k = parsa_python::is_identifier(s);
                        let want = ["a", "_", "match"].contains(&s.as_str());
                        let never = ["", "1a", "a b"].contains(&s.as_str());
                        check!(!(want && !k) && !(never && k), "wrong-identifier", "is_identifier({s:?}) is {k}");
                    }
                    POp::Keyword(s) => {
                        let k = parsa_python::keywords_contain(s);
                        let want = ["if", "class", "async", "None"].contains(&s.as_str());
                        let never = ["a", "", "print"].contains(&s.as_str());
                        check!(!(want && !k) && !(never && k), "wrong-keyword", "keywords_contain({s:?}) is {k}");
                    }
                    POp::Panic(i) => {
                        let s: Box<str> = w.sources[*i].as_str().into();
                        let r = catch_unwind(AssertUnwindSafe(|| {
                            let _t = parsa_python::parse(s);
                            std::panic::panic_any(7u8);
                        }));
                        if r.is_err_and(|e| e.downcast_ref::<u8>().is_none()) {
                            let p = zsim_rt::panics().last().cloned().unwrap_or_default();
                            violation("panic", format!("parsing {:?} panicked at {}: {}", w.sources[*i], p.2, p.1));
                        }
                    }
                }
            }
            kept.iter().for_each(|(i, t)| compare(*i, t, "at the end"));
        });
        match b {
            Ok(h) => hs.push(h),
            Err(_) => zsim_rt::probe("thread not created"),
        }
    }
    for h in hs {
        if h.join().is_err() {
            let p = zsim_rt::panics().last().cloned().unwrap_or_default();
            violation("panic", format!("a parse that works alone panicked at {}: {}", p.2, p.1));
        }
    }
    zsim_rt::faults(false);
    let l = shared.lock().unwrap().clone();
    for (i, t) in &l {
        check!(Some(digest(t)) == refs[*i].map(|r| r.tree), "different-view", "a shared tree of {:?} shows something else than in a fresh process", w.sources[*i]);
    }
    zsim_rt::state(zsim_rt::hash(format!("{:?}", refs).as_bytes()));
}
