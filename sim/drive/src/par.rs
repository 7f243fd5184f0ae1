//! Requests served by several threads at once on one file system (checker threads).
use crate::files::ModelFile;
use crate::session::{Root, Session, kind_of};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};
use vfs::*;
use zsim_rt::{check, simfs, violation};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum PQ {
    /// look the path up
    Look(String),
    /// look up and load
    Load(String),
    /// everything derived from the file
    Query(String),
    /// resolve an import in the file
    Import(String, String),
    /// add a sub file to the file
    Sub(String, u32),
    /// all files
    Walk,
    /// register a root
    AddRoot(String, char),
    /// the registered roots
    List,
}

enum Seen {
    /// path, address of the entry (0: nothing), is a file
    Entry(String, usize, bool),
    File(String, FileIndex, usize, String),
    NoFile(String),
    Sub(FileIndex, FileIndex, u32),
    Added(String, bool),
}

fn roots_now(s: &Session) -> Vec<String> {
    let l = s.vfs.workspaces.load();
    l.iter().filter(|w| w.kind != WorkspaceKind::Fallback).map(|w| w.root_path().to_string()).collect()
}

fn serve(s: &Session, q: &PQ, known: &mut Vec<String>, out: &mut Vec<Seen>, before: &[String], disk_quiet: bool) {
    let look = |p: &str, out: &mut Vec<Seen>| -> Option<DirOrFile> {
        let e = s.vfs.search_path(true, &s.pws(p));
        out.push(match &e {
            Some(DirOrFile::File(f)) => Seen::Entry(p.into(), Arc::as_ptr(f) as usize, true),
            Some(DirOrFile::Dir(d)) => Seen::Entry(p.into(), Arc::as_ptr(d) as usize, false),
            None => Seen::Entry(p.into(), 0, false),
        });
        e
    };
    let load = |p: &str, out: &mut Vec<Seen>| -> Option<FileIndex> {
        let Some(DirOrFile::File(f)) = look(p, out) else { return None };
        let i = s.vfs.ensure_file_for_file_entry(f.clone(), false, |i, c| ModelFile::new(i, c.into()));
        match i {
            Some(i) => {
                let m = s.vfs.file(i).unwrap_or_else(|| violation("identity", format!("{p} was loaded as {i:?} but has no content")));
                check!(f.get_file_index() == Some(i), "identity", "{p} was loaded as {i:?} but its entry says {:?}", f.get_file_index());
                out.push(Seen::File(p.into(), i, m as *const ModelFile as usize, m.code.clone()));
            }
            None => out.push(Seen::NoFile(p.into())),
        }
        i
    };
    match q {
        PQ::Look(p) => drop(look(p, out)),
        PQ::Load(p) => drop(load(p, out)),
        PQ::Query(p) => {
            if let Some(i) = load(p, out) {
                s.derived(i);
            }
        }
        PQ::Import(p, n) => {
            if let Some(i) = load(p, out) {
                let r = s.resolve(i, n);
                if let crate::files::Res::File(t) = r {
                    let path = s.vfs.file_path(t).path().to_string();
                    if let Some(m) = s.load(t) {
                        out.push(Seen::File(path, t, m as *const ModelFile as usize, m.code.clone()));
                    }
                }
            }
        }
        PQ::Sub(p, n) => {
            if let Some(i) = load(p, out) {
                let sub = s.vfs.create_sub_file(i, |j| ModelFile::new(j, format!("sub {n}")));
                out.push(Seen::Sub(i, sub, *n));
            }
        }
        PQ::Walk => {
            for p in s.visible() {
                let Some(DirOrFile::File(_)) = look(&p, out) else { violation("identity", format!("{p} is shown when walking but is not found as a file")) };
            }
        }
        PQ::AddRoot(p, k) => {
            let ok = s.vfs.add_workspace_without_full_access(s.vfs.handler.normalize_unchecked_abs_path(p), kind_of(*k));
            out.push(Seen::Added(p.clone(), ok));
            let now = roots_now(s);
            check!(now.contains(p), "lost-root", "{p} was registered (success: {ok}) but is not listed: {now:?}");
            // what is below it can be found from now on
            let first: Option<String> = crate::hist::disk_files(p).keys().next().cloned();
            if let Some(f) = first
                && disk_quiet
                && !before.contains(p)
            {
                check!(matches!(s.vfs.search_path(true, &s.pws(&f)), Some(DirOrFile::File(_))), "lost-root", "{p} was registered but {f} is not found");
            }
        }
        PQ::List => {}
    }
    // the list only grows, in a stable order
    let now = roots_now(s);
    check!(now.starts_with(known), "lost-root", "roots were {known:?} and are now {now:?}");
    *known = now;
}

pub fn run(s: &mut Session, threads: &[Vec<PQ>]) {
    let disk_quiet = zsim_rt::world().env_queue.is_empty() && zsim_rt::world().snaps.is_none();
    let before = roots_now(s);
    let files_before = s.vfs.files.len();
    let all: Mutex<Vec<Seen>> = Default::default();
    let sr: &Session = s;
    std::thread::scope(|sc| {
        let hs: Vec<_> = threads
            .iter()
            .map(|qs| {
                let (all, before) = (&all, &before);
                sc.spawn(move || {
                    let mut out = vec![];
                    let mut known = before.clone();
                    for q in qs {
                        serve(sr, q, &mut known, &mut out, before, disk_quiet);
                    }
                    all.lock().unwrap().extend(out);
                })
            })
            .collect();
        for h in hs {
            if h.join().is_err() {
                let p = zsim_rt::panics().last().cloned().unwrap_or_default();
                violation("panic", format!("a request panicked at {}: {}", p.2, p.1));
            }
        }
    });
    if zsim_rt::world().switches > 4 {
        zsim_rt::probe("requests overlapped");
    }
    zsim_rt::quiet(|| audit(sr, &all.into_inner().unwrap(), &before, files_before, disk_quiet));
    let l = s.vfs.workspaces.load();
    s.roots = l
        .iter()
        .filter(|w| w.kind != WorkspaceKind::Fallback)
        .map(|w| Root {
            path: w.root_path().to_string(),
            kind: match w.kind {
                WorkspaceKind::TypeChecking => 't',
                WorkspaceKind::Typeshed => 'y',
                _ => 's',
            },
        })
        .collect();
}

fn audit(s: &Session, all: &[Seen], before: &[String], files_before: usize, disk_quiet: bool) {
    let mut entries: BTreeMap<&str, usize> = BTreeMap::new();
    let mut files: BTreeMap<&str, (FileIndex, usize)> = BTreeMap::new();
    let mut by_index: BTreeMap<u32, &str> = BTreeMap::new();
    let mut subs: BTreeSet<u32> = BTreeSet::new();
    let mut added: BTreeMap<&str, (u32, u32)> = BTreeMap::new();
    let some_added = all.iter().any(|x| matches!(x, Seen::Added(_, true)));
    for x in all {
        match x {
            Seen::Entry(p, a, _) => {
                // a root registered meanwhile may make more paths known
                if *a == 0 && some_added {
                    continue;
                }
                let old = *entries.entry(p).or_insert(*a);
                check!(old == *a, "identity", "{p} has two identities at the same time ({})", if old == 0 || *a == 0 { "missing and present" } else { "two entries" });
            }
            Seen::File(p, i, a, code) => {
                let old = *files.entry(p).or_insert((*i, *a));
                check!(old.0 == *i, "identity", "{p} is both file {:?} and file {i:?}", old.0);
                check!(old.1 == *a, "identity", "{p} was loaded twice: two threads see different objects");
                let q = *by_index.entry(i.0).or_insert(p);
                check!(q == p, "identity", "file {i:?} is both {q} and {p}");
                check!(s.vfs.file_path(*i).path().to_string() == *p, "identity", "file {i:?} of {p} has path {}", s.vfs.file_path(*i).path());
                if let Some(t) = s.docs.get(p) {
                    check!(t == code, "content", "{p} is open with {t:?} but a thread saw {code:?}");
                } else if disk_quiet && s.vfs.file(*i).is_some() && files_before <= i.0 as usize {
                    let want = simfs().read_file(p.as_bytes()).ok();
                    check!(want.as_deref() == Some(code.as_bytes()), "content", "{p} contains {:?} but a thread saw {code:?}", want.map(|w| String::from_utf8_lossy(&w).to_string()));
                }
            }
            Seen::NoFile(p) => {
                if disk_quiet
                    && files_before == 0
                    && let Ok(b) = simfs().read_file(p.as_bytes())
                {
                    check!(String::from_utf8(b).is_err(), "content", "{p} is readable but a thread could not load it");
                }
            }
            Seen::Sub(up, i, n) => {
                check!(subs.insert(i.0), "identity", "two sub files have the same number {i:?}");
                let got = s.vfs.file(*i).map(|f| f.code.clone());
                check!(got == Some(format!("sub {n}")), "content", "sub file {i:?} contains {got:?}, not {n}");
                check!(s.vfs.file(*i).unwrap().index == *i, "identity", "sub file {i:?} was told another number");
                check!(s.vfs.file_entry(*up).get_file_index() == Some(*up), "identity", "the sub file {i:?} took the place of {up:?}");
            }
            Seen::Added(p, ok) => {
                let e = added.entry(p).or_insert((0, 0));
                e.0 += 1;
                e.1 += *ok as u32;
            }
        }
    }
    for i in &subs {
        check!(!by_index.contains_key(i), "identity", "a sub file and a file share the number {i}");
    }
    // one state per path
    let mut paths: BTreeMap<String, usize> = BTreeMap::new();
    for i in files_before..s.vfs.files.len() {
        let i = FileIndex(i as u32);
        let p = s.vfs.file_path(i).path().to_string();
        if !p.is_empty() {
            if let Some(o) = paths.insert(p.clone(), i.0 as usize) {
                violation("identity", format!("{p} got two file states, {o} and {i:?}"));
            }
            check!(s.vfs.file_entry(i).get_file_index() == Some(i), "identity", "the state of {p} is {i:?}, its entry says {:?}", s.vfs.file_entry(i).get_file_index());
        }
    }
    let now = roots_now(s);
    for (p, (n, ok)) in &added {
        let was = before.iter().any(|b| b == p);
        check!(*ok == if was { 0 } else { 1 }, "lost-root", "{p} was registered by {n} threads and {ok} were told that they added it (known before: {was})");
        check!(now.iter().filter(|r| r == p).count() == 1, "lost-root", "{p} was registered but is listed {} times: {now:?}", now.iter().filter(|r| r == p).count());
    }
    let extra = added.keys().filter(|p| !before.iter().any(|b| b == **p)).count();
    check!(now.len() == before.len() + extra, "lost-root", "roots {before:?} and {added:?} gave {now:?}");
    if some_added {
        zsim_rt::probe("root registered while requests run");
    }
}
