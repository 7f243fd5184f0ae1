# prelude of the demonstrations that use the virtual file system
PRELUDE = r'''
#![allow(dead_code, unused_imports)]
use std::collections::BTreeSet;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use vfs::*;

struct F {
    code: String,
    stale: bool,
}
impl VfsFile for F {
    type Artifacts = String;
    fn code(&self) -> &str {
        &self.code
    }
    fn into_recoverable_artifacts(self) -> String {
        self.code
    }
    fn invalidate_references_to(&mut self, _: Option<FileIndex>) {
        self.stale = true
    }
}
fn f(c: impl Into<String>) -> F {
    F { code: c.into(), stale: false }
}
struct S {
    vfs: Vfs<F>,
    changed: Arc<Mutex<Vec<String>>>,
}
fn make(roots: &[(&str, WorkspaceKind)], changed: &Arc<Mutex<Vec<String>>>) -> Vfs<F> {
    let c = changed.clone();
    let cb: Box<dyn Fn(PathWithScheme) + Sync + Send> = Box::new(move |p| c.lock().unwrap().push(p.path().to_string()));
    let h: Box<dyn VfsHandler> = Box::new(LocalFS::with_watcher(cb));
    let ws: Workspaces = {
        let mut b = WorkspacesBuilder::new(&*h);
        for (r, k) in roots {
            b.add(h.normalize_unchecked_abs_path(r), *k);
        }
        b.add(h.normalize_unchecked_abs_path(""), WorkspaceKind::Fallback);
        b.into()
    };
    Vfs::new(h, ws)
}
impl S {
    fn new(roots: &[(&str, WorkspaceKind)]) -> S {
        let changed: Arc<Mutex<Vec<String>>> = Default::default();
        S { vfs: make(roots, &changed), changed }
    }
    fn pws(&self, p: &str) -> PathWithScheme {
        PathWithScheme::with_file_scheme(self.vfs.handler.normalize_unchecked_abs_path(p))
    }
    fn entry(&self, p: &str) -> Option<Arc<FileEntry>> {
        match self.vfs.search_path(true, &self.pws(p))? {
            DirOrFile::File(f) => Some(f),
            _ => None,
        }
    }
    fn index(&self, p: &str) -> Option<FileIndex> {
        self.vfs.ensure_file_for_file_entry(self.entry(p)?, false, |_, c| f(&*c))
    }
    fn text(&self, p: &str) -> Option<String> {
        Some(self.vfs.file(self.index(p)?)?.code.clone())
    }
    fn open(&mut self, p: &str, code: &str) {
        let p = self.pws(p);
        let _ = self.vfs.store_in_memory_file(true, p, code.into(), |_, _, c| f(&*c));
    }
    fn close(&mut self, p: &str) {
        let p = self.pws(p);
        let _ = self.vfs.close_in_memory_file(true, &p, |_, _, c| f(&*c)).unwrap();
    }
    /// processes notifications until none came for a while
    fn settle(&mut self) {
        let rx = self.vfs.handler.notify_receiver().unwrap().clone();
        while let Ok(ev) = rx.recv_timeout(Duration::from_millis(400)) {
            let Ok(ev) = ev else { continue };
            use notify::EventKind::*;
            if matches!(ev.kind, Create(_) | Modify(_) | Remove(_)) {
                for p in ev.paths {
                    let a = self.vfs.handler.unchecked_abs_path(p.to_str().unwrap());
                    let _ = self.vfs.invalidate_path(true, &a);
                }
            }
        }
    }
    fn reported(&self) -> Vec<String> {
        std::mem::take(&mut *self.changed.lock().unwrap())
    }
}
fn write(p: &str, c: &str) {
    let q = std::path::Path::new(p);
    std::fs::create_dir_all(q.parent().unwrap()).unwrap();
    std::fs::write(q, c).unwrap();
}
fn fail(m: &str) -> ! {
    println!("demo: {m}");
    std::process::exit(1)
}
fn scratch() -> String {
    let p = std::env::args().nth(1).unwrap();
    std::fs::canonicalize(p).unwrap().to_str().unwrap().to_string()
}
const T: WorkspaceKind = WorkspaceKind::TypeChecking;
'''
V = 'crates/vfs/src/vfs.rs'
TR = 'crates/vfs/src/tree.rs'
W = 'crates/vfs/src/workspaces.rs'
L = 'crates/vfs/src/local_fs.rs'
