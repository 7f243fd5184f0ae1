//! A client that uses the virtual file system the way the language server does.
use crate::files::{ModelFile, Res};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::{Arc, Mutex};
use vfs::*;

pub type Handler = LocalFS<Box<dyn Fn(PathWithScheme) + Sync + Send>>;

/// Counts down at every point where the client may be made to panic; -1 is off.
pub static PANIC_AT: AtomicI64 = AtomicI64::new(-1);
pub static PANIC_FIRED: AtomicI64 = AtomicI64::new(0);
pub fn panic_point(what: &str) {
    let v = PANIC_AT.load(Ordering::Relaxed);
    if v < 0 {
        return;
    }
    PANIC_AT.store(v - 1, Ordering::Relaxed);
    if v == 0 {
        PANIC_FIRED.fetch_add(1, Ordering::Relaxed);
        zsim_rt::probe(&format!("panic in {what}"));
        panic!("injected panic in {what}");
    }
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, PartialEq)]
pub struct Root {
    pub path: String,
    /// t: type checked, s: site packages, y: typeshed (whole database depends on it)
    pub kind: char,
}
pub fn kind_of(c: char) -> WorkspaceKind {
    match c {
        't' => WorkspaceKind::TypeChecking,
        's' => WorkspaceKind::SitePackages,
        'y' => WorkspaceKind::Typeshed,
        _ => WorkspaceKind::Fallback,
    }
}

pub struct Session {
    pub vfs: Vfs<ModelFile>,
    pub changed: Arc<Mutex<Vec<PathWithScheme>>>,
    pub published: BTreeMap<String, String>,
    pub publications: u64,
    pub roots: Vec<Root>,
    pub watch: bool,
    /// text last sent by the editor, per open document
    pub docs: BTreeMap<String, String>,
    pub db_resets: u64,
    pub events: u64,
    pub notify_error: bool,
    /// directories that did not exist when a document in them was closed
    pub phantom: BTreeSet<String>,
    /// every path that was open at some time
    pub docs_ever: BTreeSet<String>,
    /// keeps away from recorded findings
    pub tolerant: bool,
    /// what the user named to be checked
    pub given: BTreeSet<String>,
    /// the core stubs: every result depends on them, without being told so
    pub core: Option<FileIndex>,
}

fn make(roots: &[Root], watch: bool, changed: &Arc<Mutex<Vec<PathWithScheme>>>) -> Vfs<ModelFile> {
    let h: Box<dyn VfsHandler> = if watch {
        let c = changed.clone();
        let cb: Box<dyn Fn(PathWithScheme) + Sync + Send> = Box::new(move |p| {
            let mut g = c.lock().unwrap();
            if !g.contains(&p) {
                g.push(p);
            }
        });
        Box::new(LocalFS::with_watcher(cb))
    } else {
        Box::new(SimpleLocalFS::without_watcher())
    };
    let ws: Workspaces = {
        let mut b = WorkspacesBuilder::new(&*h);
        for r in roots {
            b.add(h.normalize_unchecked_abs_path(&r.path), kind_of(r.kind));
        }
        b.add(h.normalize_unchecked_abs_path(""), WorkspaceKind::Fallback);
        b.into()
    };
    Vfs::new(h, ws)
}

impl Session {
    pub fn start(roots: &[Root], watch: bool) -> Session {
        let changed: Arc<Mutex<Vec<PathWithScheme>>> = Default::default();
        let vfs = make(roots, watch, &changed);
        let mut s = Session { vfs, changed, published: Default::default(), publications: 0, roots: roots.to_vec(), watch, docs: Default::default(), db_resets: 0, events: 0, notify_error: false, phantom: Default::default(), docs_ever: Default::default(), given: Default::default(), tolerant: true, core: None };
        s.preload();
        s
    }
    /// Core stubs are loaded at start; everything depends on them.
    fn preload(&mut self) {
        self.core = None;
        let entries: Vec<Arc<FileEntry>> = {
            let l = self.vfs.workspaces.load();
            let mut v = vec![];
            for w in l.iter().filter(|w| w.kind == WorkspaceKind::Typeshed) {
                if let Some(e) = w.entries.search("builtins.pyi")
                    && let DirectoryEntry::File(f) = &*e
                {
                    v.push(f.clone());
                }
            }
            v
        };
        for f in entries {
            self.core = self.vfs.ensure_file_for_file_entry(f, true, |i, c| ModelFile::new(i, c.into())).or(self.core);
        }
    }
    /// A path, or `scheme:path` for documents that are no files (unsaved buffers, old versions).
    pub fn pws(&self, p: &str) -> PathWithScheme {
        if let Some((scheme, path)) = p.split_once(':')
            && !p.starts_with('/')
        {
            return PathWithScheme::new(Arc::new(scheme.into()), self.vfs.handler.normalize_unchecked_abs_path(path));
        }
        PathWithScheme::with_file_scheme(self.vfs.handler.normalize_unchecked_abs_path(p))
    }
    /// The reverse of `pws`.
    pub fn key(p: &PathWithScheme) -> String {
        let u = p.as_uri();
        match u.split_once("://") {
            Some(("file", r)) | Some(("", r)) => r.to_string(),
            Some((scheme, r)) => format!("{scheme}:{r}"),
            None => u,
        }
    }

    // ------------------------------------------------------------ imports
    fn load_init(&self, dir: &Arc<Directory>, from: FileIndex) -> Option<FileIndex> {
        let entries = Directory::entries(&self.vfs, dir);
        let mut missing = vec![];
        for n in ["__init__.pyi", "__init__.py"] {
            let f = match entries.search(n).as_deref() {
                Some(DirectoryEntry::File(f)) => Some(f.clone()),
                _ => None,
            };
            if let Some(f) = f {
                let idx = self.vfs.ensure_file_index(&f);
                f.add_invalidation(from);
                if !missing.is_empty() {
                    let mut add = entries.add_missing_entry_callback(from);
                    missing.iter().for_each(|m: &&str| add(m));
                }
                return Some(idx);
            }
            missing.push(n);
        }
        let mut add = entries.add_missing_entry_callback(from);
        missing.iter().for_each(|m| add(m));
        None
    }
    fn import_in<'x>(&self, dirs: impl Iterator<Item = &'x Entries>, from: FileIndex, name: &str) -> Option<Res> {
        let mut ns = vec![];
        for dir in dirs {
            let sub = match dir.search(name).as_deref() {
                Some(DirectoryEntry::Directory(d)) => Some(d.clone()),
                _ => None,
            };
            let mut missing: Vec<String> = vec![];
            if let Some(d) = &sub {
                if let Some(i) = self.load_init(d, from) {
                    return Some(Res::File(i));
                }
                ns.push(d.absolute_path(&*self.vfs.handler).path().to_string());
            } else {
                missing.push(name.to_string());
            }
            let mut found = None;
            for n in [format!("{name}.pyi"), format!("{name}.py")] {
                let f = match dir.search(&n).as_deref() {
                    Some(DirectoryEntry::File(f)) => Some(f.clone()),
                    _ => None,
                };
                if let Some(f) = f {
                    found = Some(f);
                    break;
                }
                missing.push(n);
            }
            if let Some(f) = &found {
                f.add_invalidation(from);
            }
            {
                let mut add = dir.add_missing_entry_callback(from);
                missing.iter().for_each(|m| add(m));
            }
            if let Some(f) = found {
                return Some(Res::File(self.vfs.ensure_file_index(&f)));
            }
        }
        if ns.is_empty() { None } else { Some(Res::Namespace(ns)) }
    }
    pub fn dir_at(&self, path: &str) -> Option<Arc<Directory>> {
        match self.vfs.search_path(true, &self.pws(path))? {
            DirOrFile::Dir(d) => Some(d),
            _ => None,
        }
    }
    pub fn resolve(&self, from: FileIndex, import: &str) -> Res {
        panic_point("import");
        let mut parts = import.split('.');
        let first = parts.next().unwrap();
        let mut cur = {
            let l = self.vfs.workspaces.load();
            let r = self.import_in(l.iter().filter(|w| w.kind != WorkspaceKind::Fallback).map(|w| &w.entries), from, first);
            match r {
                Some(r) => r,
                None => return Res::Missing,
            }
        };
        for p in parts {
            let next = match &cur {
                Res::File(i) => {
                    let e = self.vfs.file_entry(*i).clone();
                    if !e.name.starts_with("__init__.") {
                        return Res::Missing;
                    }
                    // the package's own directory
                    match e.parent.maybe_dir() {
                        Ok(d) => {
                            let en = Directory::entries(&self.vfs, &d);
                            self.import_in(std::iter::once(en), from, p)
                        }
                        Err(w) => {
                            let w = w.upgrade().unwrap();
                            self.import_in(std::iter::once(&w.entries), from, p)
                        }
                    }
                }
                Res::Namespace(ds) => {
                    let dirs: Vec<Arc<Directory>> = ds.iter().filter_map(|d| self.dir_at(d)).collect();
                    self.import_in(dirs.iter().map(|d| Directory::entries(&self.vfs, d)), from, p)
                }
                Res::Missing => None,
            };
            match next {
                Some(n) => cur = n,
                None => return Res::Missing,
            }
        }
        cur
    }
    pub fn load(&self, i: FileIndex) -> Option<&ModelFile> {
        self.vfs
            .ensure_file_for_file_index(i, |_, code| {
                panic_point("new file");
                ModelFile::new(i, code.into())
            })
            .ok()
    }
    pub fn direct(&self, f: &ModelFile) -> Arc<Vec<(String, Res)>> {
        if let Some(d) = f.direct.read().unwrap().as_ref() {
            return d.clone();
        }
        let v: Vec<(String, Res)> = f.imports.iter().map(|n| (n.clone(), self.resolve(f.index, n))).collect();
        let v = Arc::new(v);
        *f.direct.write().unwrap() = Some(v.clone());
        v
    }
    /// Everything a checker would derive from the file: texts and import targets, transitively.
    pub fn derived(&self, start: FileIndex) -> Option<Arc<String>> {
        let f = self.load(start)?;
        if let Some(d) = f.derived.read().unwrap().as_ref() {
            return Some(d.clone());
        }
        let mut out: BTreeMap<String, String> = BTreeMap::new();
        let mut todo = vec![start];
        let mut seen: BTreeSet<u32> = BTreeSet::new();
        while let Some(i) = todo.pop() {
            if !seen.insert(i.0) {
                continue;
            }
            let path = Self::key(self.vfs.file_path(i));
            let Some(f) = self.load(i) else {
                out.insert(path, "<unreadable>".into());
                continue;
            };
            let mut s = format!("{:?}", f.code);
            for (n, r) in self.direct(f).iter() {
                match r {
                    Res::File(t) => {
                        // a target that cannot be read counts as not found
                        if self.load(*t).is_some() {
                            s += &format!(" {n}->{}", self.vfs.file_path(*t).path().to_string());
                            todo.push(*t);
                        } else {
                            s += &format!(" {n}->?");
                        }
                    }
                    Res::Namespace(d) => s += &format!(" {n}->ns{d:?}"),
                    Res::Missing => s += &format!(" {n}->?"),
                }
            }
            out.insert(path, s);
        }
        let mut text = String::new();
        for (k, v) in out {
            text += &format!("{k}: {v}\n");
        }
        if let Some(c) = self.core.and_then(|c| self.load(c)) {
            text += &format!("with {:?}\n", c.code);
        }
        let text = Arc::new(text);
        *f.derived.write().unwrap() = Some(text.clone());
        Some(text)
    }

    // ------------------------------------------------------------ editor and server side
    fn invalidated(&mut self, r: InvalidationResult) {
        if r == InvalidationResult::InvalidatedDb {
            self.reset_db();
        }
    }
    fn reset_db(&mut self) {
        self.db_resets += 1;
        zsim_rt::probe("whole database invalidated");
        for f in self.vfs.files.iter_mut() {
            if let Some(m) = f.file_mut() {
                m.reset();
            }
        }
        self.preload();
    }
    pub fn store(&mut self, path: &str, code: &str) {
        let p = self.pws(path);
        let (_, r) = self.vfs.store_in_memory_file(true, p, code.into(), |i, _, c| {
            panic_point("new file of the document");
            ModelFile::new(i, c.into())
        });
        self.invalidated(r);
    }
    pub fn close(&mut self, path: &str) -> Result<(), &'static str> {
        let p = self.pws(path);
        let r = self.vfs.close_in_memory_file(true, &p, |_, i, c| {
            panic_point("new file on close");
            ModelFile::new(i, c.into())
        })?;
        self.invalidated(r);
        Ok(())
    }
    pub fn file_at(&self, path: &str) -> Option<FileIndex> {
        match self.vfs.search_path(true, &self.pws(path))? {
            DirOrFile::File(f) => self.vfs.ensure_file_for_file_entry(f, false, |i, c| {
                panic_point("new file");
                ModelFile::new(i, c.into())
            }),
            _ => None,
        }
    }
    pub fn query(&self, path: &str) -> Option<Arc<String>> {
        panic_point("query");
        let i = self.file_at(path)?;
        let d = self.derived(i);
        if let Some(f) = self.vfs.file(i)
            && f.imports.len() > 1
            && !f.sub.swap(true, Ordering::Relaxed)
        {
            // as for strings that contain code
            let t = self.vfs.create_sub_file(i, |j| ModelFile::new(j, "sub".into()));
            zsim_rt::check!(self.vfs.file(t).is_some_and(|f| f.code == "sub"), "sub-file", "a sub file of {path} has the text {:?}", self.vfs.file(t).map(|f| &f.code));
        }
        d
    }
    /// Files or directories named by the user, also outside of all roots: their texts.
    pub fn given(&self, path: &str) -> BTreeMap<String, String> {
        let p = self.pws(path);
        let mut v = vec![];
        let found = match self.vfs.search_path(true, &p) {
            Some(DirOrFile::Dir(d)) => Some(DirectoryEntry::Directory(d)),
            Some(DirOrFile::File(f)) => Some(DirectoryEntry::File(f)),
            None => {
                for w in self.vfs.workspaces.load().iter() {
                    if w.kind != WorkspaceKind::Fallback && w.root_path_starts_with(p.path()) {
                        w.entries.walk_entries(&self.vfs, &mut |_, e| {
                            if let DirectoryEntry::File(f) = e {
                                v.push(f.clone());
                            }
                            true
                        });
                    }
                }
                // (a path inside a root that is not known yet: a recorded finding)
                let inside = self.roots.iter().any(|r| path.starts_with(&format!("{}/", r.path)));
                if v.is_empty() && !(inside && self.tolerant) { self.vfs.ensure_fallback(p) } else { None }
            }
        };
        match found {
            Some(DirectoryEntry::File(f)) => v.push(f),
            Some(DirectoryEntry::Directory(d)) => Directory::entries(&self.vfs, &d).walk_entries(&self.vfs, &mut |_, e| {
                if let DirectoryEntry::File(f) = e {
                    v.push(f.clone());
                }
                true
            }),
            _ => {}
        }
        let mut out = BTreeMap::new();
        for f in v {
            let p = f.absolute_path(&*self.vfs.handler).path().to_string();
            if let Some(i) = self.vfs.ensure_file_for_file_entry(f, false, |i, c| ModelFile::new(i, c.into())) {
                out.insert(p, self.vfs.file(i).map(|f| f.code.clone()).unwrap_or_default());
            }
        }
        out
    }
    /// Searches a word in all files, loading those that contain it.
    pub fn grep(&self, word: &str) {
        let mut v = vec![];
        let l = self.vfs.workspaces.load();
        for w in l.iter().filter(|w| w.kind != WorkspaceKind::Fallback) {
            w.entries.walk_entries(&self.vfs, &mut |_, e| {
                if let DirectoryEntry::File(f) = e {
                    v.push(f.clone());
                }
                true
            });
        }
        for f in v {
            let loaded = f.get_file_index().is_some_and(|i| self.vfs.file(i).is_some());
            let r = self.vfs.ensure_file_for_file_entry_with_conditional(
                f.clone(),
                false,
                |c| c.contains(word),
                |i, c| {
                    panic_point("new file");
                    ModelFile::new(i, c.into())
                },
            );
            let now = f.get_file_index().and_then(|i| self.vfs.file(i));
            zsim_rt::check!(r.is_some() == now.is_some(), "grep", "a search says that {} was {}loaded", f.absolute_path(&*self.vfs.handler).path(), if r.is_some() { "" } else { "not " });
            zsim_rt::check!(loaded || now.is_none_or(|m| m.code.contains(word)), "grep", "{} was loaded although it does not contain {word:?}", f.absolute_path(&*self.vfs.handler).path());
        }
    }
    fn event(&mut self, ev: NotifyEvent) {
        match ev {
            Ok(ev) => {
                use notify::EventKind::*;
                if matches!(ev.kind, Create(_) | Modify(_) | Remove(_)) {
                    self.events += 1;
                    for p in ev.paths {
                        if let Some(p) = p.to_str() {
                            let a = self.vfs.handler.unchecked_abs_path(p);
                            zsim_rt::note(|| format!("EVENT {:?} {p}", ev.kind));
                            panic_point("event");
                            let r = self.vfs.invalidate_path(true, &a);
                            self.invalidated(r);
                        }
                    }
                }
            }
            Err(_) => self.notify_error = true,
        }
    }
    /// Processes what is in the notification queue right now; true if there was anything.
    pub fn pump(&mut self) -> bool {
        let Some(rx) = self.vfs.handler.notify_receiver().cloned() else { return false };
        let mut any = false;
        while let Ok(ev) = rx.try_recv() {
            any = true;
            self.event(ev);
        }
        any
    }
    pub fn publish(&mut self) {
        let files = std::mem::take(&mut *self.changed.lock().unwrap());
        for p in files {
            let path = Self::key(&p);
            if !self.docs.contains_key(&path) {
                continue;
            }
            if let Some(t) = self.query(&path) {
                self.publications += 1;
                self.published.insert(path, t.to_string());
            }
        }
    }
    /// What the server does after a panic: new file system, same documents.
    pub fn recover(mut self) -> Session {
        self.changed.lock().unwrap().clear();
        let Session { vfs, changed, published, publications, roots, watch, docs, db_resets, events, phantom, docs_ever, given, tolerant, .. } = self;
        let rec = vfs.into_panic_recovery();
        let mut vfs = make(&roots, watch, &changed);
        vfs.load_panic_recovery(true, rec, |i, _, code| ModelFile::new(i, code));
        let mut s = Session { vfs, changed, published, publications, roots, watch, docs, db_resets, events, notify_error: false, phantom, docs_ever, given, tolerant, core: None };
        s.preload();
        s
    }
    /// The editor restarts the server.
    pub fn restart(&mut self) {
        let mut n = Session::start(&self.roots, self.watch);
        n.docs = std::mem::take(&mut self.docs);
        n.docs_ever = std::mem::take(&mut self.docs_ever);
        n.tolerant = self.tolerant;
        n.given = std::mem::take(&mut self.given);
        let threads = zsim_rt::other_threads().len();
        let old = std::mem::replace(self, n);
        drop(old);
        zsim_rt::settle();
        let now = zsim_rt::other_threads().len();
        zsim_rt::check!(now <= threads.saturating_sub(1).max(1), "thread-left", "{threads} threads ran before the old project was dropped, {now} still run");
        for (p, c) in self.docs.clone() {
            self.store(&p, &c);
        }
    }
    /// All files the tree shows below the roots (loading directories as needed).
    pub fn visible(&self) -> BTreeSet<String> {
        let mut out = BTreeSet::new();
        let l = self.vfs.workspaces.load();
        for w in l.iter().filter(|w| w.kind != WorkspaceKind::Fallback) {
            w.entries.walk_entries(&self.vfs, &mut |_, e| {
                if let DirectoryEntry::File(f) = e {
                    out.insert(f.absolute_path(&*self.vfs.handler).path().to_string());
                }
                true
            });
        }
        out
    }
}
