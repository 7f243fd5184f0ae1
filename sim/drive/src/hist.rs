//! Histories: editor messages, disk changes by other programs, notifications, crashes.
use crate::Case;
use crate::session::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::Ordering;
use zsim_rt::fs::Node as FsNode;
use zsim_rt::{EnvStep, check, quiet, simfs, violation};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Init {
    D,
    F(String),
    B(Vec<u8>),
    L(String),
    P,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Op {
    /// disk changes by another program; they happen inside the following operations or at the next Flush
    Env(Vec<EnvStep>),
    Flush,
    Open(String, String),
    Change(String, String),
    /// write the document's text to disk (editor save)
    Save(String),
    Close(String),
    Query(String),
    /// search a word in all files
    Grep(String),
    /// check a file or directory named by the user
    Given(String),
    /// requests served by several threads at the same time
    Par(Vec<Vec<crate::par::PQ>>),
    /// process the notifications that have arrived
    Pump,
    /// wait for all notifications, process them
    Settle,
    /// the next operation panics at its n-th panic point
    Crash(i64),
    /// end the project and start it again, documents stay open
    Restart,
    /// full comparison with a cold start
    Check,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Hist {
    pub roots: Vec<Root>,
    pub init: Vec<(String, Init)>,
    pub ops: Vec<Op>,
    /// which oracles decide (see `judge`)
    pub oracles: String,
    /// no tolerance for recorded findings (used by their replays)
    #[serde(default)]
    pub strict: bool,
    /// faults that last, or a hostile tree: only untouched paths must be exact
    #[serde(default)]
    pub hostile: bool,
}

pub fn put(init: &[(String, Init)]) {
    for (p, n) in init {
        let b = &zsim_rt::fs::pb(p)[..];
        if let Some(k) = b.iter().rposition(|c| *c == b'/')
            && k > 0
        {
            let _ = simfs().mkdir_p(&b[..k]);
        }
        let _ = match n {
            Init::D => simfs().mkdir_p(b),
            Init::F(c) => simfs().write_all(b, c.as_bytes()),
            Init::B(c) => simfs().write_all(b, c),
            Init::L(t) => simfs().symlink(t.as_bytes(), b),
            Init::P => simfs().mkfifo(b),
        };
    }
}

/// Files visible below a directory by the documented rules: no hidden names, no ignored folders, links followed.
pub fn disk_files(root: &str) -> BTreeMap<String, Vec<u8>> {
    let mut out = BTreeMap::new();
    for (p, i) in zsim_rt::snap::visible(simfs(), root) {
        if let (FsNode::File(b), Ok(p)) = (&simfs().inodes[i].node, String::from_utf8(p)) {
            out.insert(p, b.clone());
        }
    }
    out
}

/// Lets everything outside finish and all notifications be processed.
pub fn converge(s: &mut Session) {
    for round in 0.. {
        zsim_rt::env_flush();
        zsim_rt::settle();
        let any = s.pump();
        s.publish();
        if !any && zsim_rt::world().env_queue.is_empty() {
            break;
        }
        check!(round < 200, "no-quiescence", "notifications do not stop although the disk is quiet");
    }
}

/// An open document shows the editor's text, whatever happens on disk.
pub fn docs_hold(s: &mut Session) {
    quiet(|| {
        let docs = s.docs.clone();
        for (p, text) in docs {
            // ignore rules are no source file
            if crate::ignore::is_ignore(&p) {
                continue;
            }
            let pw = s.pws(&p);
            let Some(i) = s.vfs.in_memory_file(&pw) else { violation("open-document", format!("{p} is open but not known as open")) };
            match s.vfs.search_path(true, &pw) {
                Some(vfs::DirOrFile::File(f)) => {
                    check!(f.get_file_index() == Some(i), "open-document", "{p} is open as file {i:?}, but a lookup finds {:?}", f.get_file_index());
                }
                o => violation("open-document", format!("{p} is open, but a lookup gives {}", if o.is_some() { "a directory" } else { "nothing" })),
            }
            let got = s.load(i).map(|f| f.code.clone());
            check!(got.as_deref() == Some(text.as_str()), "open-document", "{p} is open with text {text:?}, but its content is {got:?}");
        }
        let ids: std::collections::BTreeSet<u32> = s.vfs.in_memory_file_ids().map(|i| i.0).collect();
        let want = s.docs.keys().filter(|p| !crate::ignore::is_ignore(p)).count();
        check!(ids.len() == want, "open-document", "{want} documents are open, {} are known as open", ids.len());
    })
}

/// Directories that do not exist but are left in the tree after closing documents in them (a recorded finding).
fn phantoms(s: &Session, strict: bool) -> Vec<String> {
    let mut v = vec![];
    if !strict {
        for d in &s.phantom {
            if simfs().resolve(d.as_bytes(), true).is_err() && !s.docs.keys().any(|p| p.starts_with(&format!("{d}/")) && !s.roots.iter().any(|r| r.path.starts_with(&format!("{d}/")) && p.starts_with(&format!("{}/", r.path)))) && s.dir_at(d).is_some() {
                v.push(d.clone());
            }
        }
    }
    v
}

pub fn judge(s: &mut Session, oracles: &str, strict: bool) {
    let docs = s.docs.clone();
    let roots = s.roots.clone();
    if oracles.contains('d') {
        docs_hold(s);
    }
    if oracles.contains('g') {
        crate::ignore::judge(s);
    }
    quiet(|| {
        let cold = {
            let mut c = Session::start(&roots, false);
            for d in phantoms(s, strict) {
                zsim_rt::probe("directory left behind by a closed document");
                let p = format!("{d}/left_behind.py");
                c.store(&p, "");
                let _ = c.close(&p);
            }
            for (p, t) in &docs {
                c.store(p, t);
            }
            c
        };
        // 1. what was last published for every open document
        if oracles.contains('p') {
            for p in docs.keys() {
                let fresh = cold.query(p).map(|x| x.to_string());
                let got = s.published.get(p).cloned();
                if got != fresh {
                    violation("unpublished", format!("open document {p}: last published {got:?}, a fresh start gives {fresh:?}"));
                }
            }
        }
        // 2. what the live instance has derived so far
        if oracles.contains('s') {
            let loaded: Vec<(u32, String)> = (0..s.vfs.files.len())
                .filter(|i| s.vfs.file(vfs::FileIndex(*i as u32)).is_some_and(|f| f.derived.read().unwrap().is_some()))
                .map(|i| (i as u32, Session::key(s.vfs.file_path(vfs::FileIndex(i as u32)))))
                .collect();
            for (i, p) in loaded {
                // only files that the tree still refers to count
                let live = match s.vfs.search_path(true, &s.pws(&p)) {
                    Some(vfs::DirOrFile::File(f)) => f.get_file_index(),
                    _ => None,
                };
                if live != Some(vfs::FileIndex(i)) {
                    continue;
                }
                let got = s.derived(vfs::FileIndex(i)).map(|x| x.to_string());
                let fresh = cold.query(&p).map(|x| x.to_string());
                check!(got == fresh, "stale", "derived results of {p} are {got:?}, a fresh start gives {fresh:?}");
            }
        }
        // 3. the view of the project
        if oracles.contains('v') {
            let mut want: BTreeMap<String, Option<Vec<u8>>> = BTreeMap::new();
            for r in &roots {
                for (p, c) in disk_files(&r.path) {
                    want.insert(p, Some(c));
                }
            }
            for (p, t) in &docs {
                if roots.iter().any(|r| p.starts_with(&format!("{}/", r.path))) {
                    want.insert(p.clone(), Some(t.clone().into_bytes()));
                }
            }
            for (p, c) in &want {
                let got = s.file_at(p).and_then(|i| s.load(i)).map(|f| f.code.clone().into_bytes());
                // undecodable text cannot be shown
                let c = c.clone().filter(|c| std::str::from_utf8(c).is_ok());
                check!(got == c, "view", "{p} is {:?} but is shown as {:?}", c.as_ref().map(|c| String::from_utf8_lossy(c).to_string()), got.as_ref().map(|c| String::from_utf8_lossy(c).to_string()));
            }
            // what the user named
            for p in s.given.clone() {
                let mut got = s.given(&p);
                let inside = |f: &str| f == p || f.starts_with(&format!("{p}/"));
                let mut exp: BTreeMap<String, Vec<u8>> = disk_files(&p);
                if let Some(Ok(b)) = (!simfs().resolve(p.as_bytes(), true).is_ok_and(|i| simfs().is_dir(i))).then(|| simfs().read_file(p.as_bytes())) {
                    exp.insert(p.clone(), b);
                }
                // without its directory on disk, an inner root is not part of the outer one
                let apart = |f: &str| roots.iter().any(|r| r.path.starts_with(&format!("{p}/")) && f.starts_with(&format!("{}/", r.path)) && simfs().resolve(r.path.as_bytes(), true).is_err());
                got.retain(|f, _| !apart(f) || !docs.contains_key(f));
                exp.extend(docs.iter().filter(|d| inside(d.0) && !apart(d.0)).map(|(p, t)| (p.clone(), t.clone().into_bytes())));
                exp.retain(|_, c| std::str::from_utf8(c).is_ok());
                let exp: BTreeMap<String, String> = exp.into_iter().map(|(p, c)| (p, String::from_utf8(c).unwrap())).collect();
                check!(got == exp, "view", "checking {p} gives {got:?}, on disk is {exp:?}");
            }
            // a file belongs to the innermost root around it
            for p in want.keys() {
                if let Some(vfs::DirOrFile::File(f)) = s.vfs.search_path(true, &s.pws(p)) {
                    let inner = roots.iter().map(|r| &r.path).filter(|r| p.starts_with(&format!("{r}/"))).max_by_key(|r| r.len());
                    let own = f.parent.workspace().root_path().to_string();
                    check!(inner == Some(&own), "root", "{p} belongs to root {own} instead of {inner:?}");
                    let rel = &p[own.len() + 1..];
                    let shown = f.relative_path(&*s.vfs.handler);
                    check!(shown == rel, "root", "{p} is {shown:?} within its root");
                    check!(f.parent.workspace_path().to_string() == own, "root", "{p} is said to lie in {}", f.parent.workspace_path());
                    let outer = f.parent.most_outer_dir().map(|d| d.name.to_string());
                    check!(outer.as_deref() == rel.split_once('/').map(|x| x.0), "root", "the outermost directory of {p} is said to be {outer:?}");
                    check!(f.parent.workspace().part_of_site_packages() == roots.iter().any(|r| r.path == own && r.kind == 's'), "root", "{p} has the wrong kind of root");
                }
            }
            let seen = s.visible();
            for p in &seen {
                check!(want.contains_key(p), "view", "{p} is shown in the project but does not exist");
            }
            for p in want.keys() {
                check!(seen.contains(p), "view", "{p} exists but walking the project does not show it");
            }
            zsim_rt::state(zsim_rt::hash(format!("{want:?}").as_bytes()));
        }
        // 4. after all loads, everything derived equals a fresh start
        if oracles.contains('s') {
            for r in &roots {
                for p in disk_files(&r.path).keys() {
                    if p.ends_with(".py") || p.ends_with(".pyi") {
                        let got = s.query(p).map(|x| x.to_string());
                        let fresh = cold.query(p).map(|x| x.to_string());
                        check!(got == fresh, "stale", "results of {p} are {got:?}, a fresh start gives {fresh:?}");
                    }
                }
            }
        }
        check!(!s.notify_error, "notify-error", "the watcher reported an error");
    });
}

/// Faults that a correct program must hide completely.
const HARMLESS: &[&str] = &["read_eintr", "read_short", "open_eintr", "dtype_unknown", "epoll_eintr", "futex_spurious"];

/// With faults and hostile trees: a path shows a text it really had or nothing; untouched paths are exact.
pub fn judge_hostile(s: &mut Session) {
    docs_hold(s);
    let roots = s.roots.clone();
    let docs = s.docs.clone();
    quiet(|| {
        let w = zsim_rt::world();
        let snaps = w.snaps.as_ref().unwrap();
        let mut touched: Vec<Vec<u8>> = vec![];
        let mut all = false;
        for (k, p) in &w.fault_paths {
            if !HARMLESS.contains(&k.as_str()) {
                all |= p.starts_with(b"<");
                touched.push(p.clone());
            }
        }
        if !touched.is_empty() {
            // a fault on the way to a link's target touches the link
            touched.extend(snaps.links.keys().cloned());
        }
        touched.extend(snaps.alias.iter().cloned());
        touched.extend(s.phantom.iter().map(|p| p.clone().into_bytes()));
        // a document below a link gives the link's target a second name, too
        for (l, t) in &snaps.targets {
            // (or an entry that used to be something else and is read through the link before the change is noticed)
            if snaps.plain.contains(l) || snaps.targets.iter().any(|(l2, t2)| l2 == l && t2 != t) || s.docs_ever.iter().any(|d| d.as_bytes().starts_with(l) && d.as_bytes().get(l.len()) == Some(&b'/')) {
                touched.push(l.clone());
                touched.push(t.clone());
            }
        }
        touched.extend(snaps.shifted.iter().cloned());
        let is_touched = |p: &str| {
            let p = p.as_bytes();
            all || touched.iter().any(|t| p == &t[..] || (p.starts_with(t) && p.get(t.len()) == Some(&b'/')))
        };
        let mut want: BTreeMap<String, Option<Vec<u8>>> = BTreeMap::new();
        for r in &roots {
            for (p, i) in zsim_rt::snap::visible(simfs(), &r.path) {
                if let (FsNode::File(b), Ok(p)) = (&simfs().inodes[i].node, String::from_utf8(p)) {
                    let readable = simfs().inodes[i].mode & 0o400 != 0 && std::str::from_utf8(b).is_ok();
                    want.insert(p, readable.then(|| b.clone()));
                }
            }
        }
        for (p, t) in &docs {
            // a document stands in the way of a file with the name of its directory
            want.retain(|f, _| !p.starts_with(&format!("{f}/")));
            want.insert(p.clone(), Some(t.clone().into_bytes()));
        }
        let mut exact = 0;
        for (p, c) in &want {
            let got = s.file_at(p).and_then(|i| s.load(i)).map(|f| f.code.clone().into_bytes());
            if docs.contains_key(p) || !is_touched(p) {
                exact += 1;
                check!(&got == c, "view", "{p} is {:?} but is shown as {:?}", c.as_ref().map(|c| String::from_utf8_lossy(c).to_string()), got.as_ref().map(|c| String::from_utf8_lossy(c).to_string()));
            }
        }
        // nothing that is shown was ever made up
        if w.env_inside == 0 {
            for i in 0..s.vfs.files.len() {
                let i = vfs::FileIndex(i as u32);
                let p = Session::key(s.vfs.file_path(i));
                if p.is_empty() || docs.contains_key(&p) || s.docs_ever.contains(&p) {
                    continue;
                }
                if let Some(f) = s.vfs.file(i) {
                    let h = zsim_rt::hash(f.code.as_bytes());
                    let linked = snaps.links.keys().any(|l| p.as_bytes().starts_with(l) && p.as_bytes().get(l.len()) == Some(&b'/'));
                    let ok = snaps.texts.contains(&(p.clone().into_bytes(), h)) || (linked && snaps.texts.iter().any(|t| t.1 == h));
                    check!(ok, "wrong-content", "{p} is shown as {:?}, which it never contained", f.code);
                }
            }
        }
        let seen = s.visible();
        for p in &seen {
            check!(want.contains_key(p) || is_touched(p), "view", "{p} is shown in the project but does not exist");
        }
        for (p, c) in &want {
            check!(c.is_none() || seen.contains(p) || is_touched(p) || !roots.iter().any(|r| p.starts_with(&format!("{}/", r.path))), "view", "{p} exists but walking the project does not show it");
        }
        if exact < want.len() {
            zsim_rt::probe("some paths touched by faults");
        }
        if exact > 0 {
            zsim_rt::probe("some paths untouched");
        }
        zsim_rt::state(zsim_rt::hash(format!("{want:?}").as_bytes()));
    });
}

fn exec(s: &mut Session, op: &Op) {
    match op {
        Op::Env(v) => zsim_rt::env_push(v.clone()),
        Op::Flush => zsim_rt::env_flush(),
        Op::Open(p, c) | Op::Change(p, c) => {
            s.docs.insert(p.clone(), c.clone());
            s.docs_ever.insert(p.clone());
            s.store(p, c);
        }
        Op::Save(p) => {
            if let Some(t) = s.docs.get(p).cloned().filter(|_| p.starts_with('/')) {
                zsim_rt::env_push(vec![EnvStep::WOpen(p.clone()), EnvStep::WAppend(t), EnvStep::WClose]);
            }
        }
        Op::Close(p) => {
            if s.docs.remove(p).is_some() {
                s.published.remove(p);
                let mut d = p.as_str();
                while let Some((up, _)) = d.rsplit_once('/')
                    && up.starts_with('/')
                {
                    d = up;
                    if !simfs().resolve(d.as_bytes(), true).is_ok_and(|i| simfs().is_dir(i)) {
                        s.phantom.insert(d.to_string());
                    }
                }
                if let Err(e) = s.close(p) {
                    violation("close", format!("closing {p}: {e}"));
                }
            }
        }
        Op::Query(p) => {
            s.query(p);
        }
        Op::Grep(w) => s.grep(w),
        Op::Given(p) => {
            s.given.insert(p.clone());
            s.given(p);
        }
        Op::Par(t) => crate::par::run(s, t),
        Op::Pump => {
            s.pump();
        }
        Op::Settle => {
            zsim_rt::settle();
            s.pump();
        }
        Op::Restart => s.restart(),
        Op::Crash(_) | Op::Check => {}
    }
    s.publish();
}

pub fn run(case: &Case) {
    let w: Hist = crate::work(case);
    put(&w.init);
    if w.hostile {
        zsim_rt::snapshots(w.roots.iter().map(|r| r.path.clone()).collect());
    }
    zsim_rt::faults(true);
    let mut s = Session::start(&w.roots, true);
    s.tolerant = !w.strict;
    zsim_rt::env_enable(true);
    let mut armed = -1i64;
    for op in &w.ops {
        zsim_rt::note(|| format!("OP {op:?}"));
        if let Op::Crash(n) = op {
            armed = *n;
            continue;
        }
        if matches!(op, Op::Check) {
            converge(&mut s);
            if w.hostile { judge_hostile(&mut s) } else { judge(&mut s, &w.oracles, w.strict) }
            continue;
        }
        if armed < 0 || matches!(op, Op::Par(_) | Op::Restart) {
            exec(&mut s, op);
        } else {
            PANIC_AT.store(armed, Ordering::Relaxed);
            armed = -1;
            let before = s.docs.clone();
            let r = catch_unwind(AssertUnwindSafe(|| exec(&mut s, op)));
            PANIC_AT.store(-1, Ordering::Relaxed);
            if r.is_err() {
                let (_, msg, loc) = zsim_rt::panics().pop().unwrap_or_default();
                check!(msg.starts_with("injected"), "panic", "panicked at {loc}: {msg}");
                zsim_rt::note(|| format!("CRASHED: {msg}"));
                // the document being processed may be lost, and its close may be incomplete
                let own = match op {
                    Op::Open(p, _) | Op::Change(p, _) | Op::Close(p) if !crate::ignore::is_ignore(p) => Some(p.clone()),
                    _ => None,
                };
                let in_own = msg.contains("of the document") || msg.contains("on close");
                s = s.recover();
                if let Some(p) = own {
                    let pw = s.pws(&p);
                    match s.vfs.in_memory_file(&pw) {
                        None => {
                            check!(in_own || !s.docs.contains_key(&p), "lost-document", "{p} is lost although the panic was {msg:?}");
                            s.docs.remove(&p);
                        }
                        Some(i) => {
                            if in_own {
                                let now = s.vfs.file(i).map(|f| f.code.clone());
                                let old = before.get(&p).cloned();
                                check!(now.is_some() && (now == old || now.as_ref() == s.docs.get(&p)), "lost-document", "{p} has text {now:?} after recovery");
                                s.docs.insert(p.clone(), now.unwrap());
                            } else if matches!(op, Op::Close(_)) && !s.docs.contains_key(&p) {
                                violation("lost-document", format!("{p} was closed but is open after recovery"));
                            }
                        }
                    }
                }
                // each open document is reported for re-checking
                let rep: Vec<String> = s.changed.lock().unwrap().iter().map(Session::key).collect();
                for p in s.docs.keys().filter(|p| !crate::ignore::is_ignore(p)) {
                    check!(rep.contains(p), "unreported", "{p} is open but not reported for re-checking after recovery ({rep:?})");
                }
                docs_hold(&mut s);
                s.publish();
            }
        }
        if w.oracles.contains('d') {
            docs_hold(&mut s);
        }
    }
    zsim_rt::faults(false);
    converge(&mut s);
    if w.hostile { judge_hostile(&mut s) } else { judge(&mut s, &w.oracles, w.strict) }
    zsim_rt::state(s.publications);
    if s.events > 0 {
        zsim_rt::probe("notifications processed");
    }
    if zsim_rt::world().env_inside > 0 {
        zsim_rt::probe("disk changed inside an operation");
    }
    end(s);
}

/// After a project is dropped nothing of it keeps running.
pub fn end(s: Session) {
    drop(s);
    zsim_rt::settle();
    let left = zsim_rt::other_threads();
    check!(left.is_empty(), "thread-left", "the project was dropped, but threads {left:?} still run");
}
