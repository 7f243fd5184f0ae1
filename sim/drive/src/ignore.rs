//! Which files are selected for checking: ignore rules of `.gitignore` files, on disk or open in the editor.
use crate::session::{Root, Session};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use vfs::*;
use zsim_rt::rng::Rng;
use zsim_rt::{check, quiet, simfs};

pub fn is_ignore(p: &str) -> bool {
    p.ends_with("/.gitignore")
}

pub fn text(r: &mut Rng) -> String {
    let mut s = String::new();
    if r.chance(1, 12) {
        s.push('\u{feff}');
    }
    for _ in 0..r.below(4) {
        s += r.pick(&["a.py", "b.py", "*.pyi", "*.py", "p/", "q", "r/", "/a.py", "/p", "p/a.py", "/p/r/", "q/*", "__init__.*", "!a.py", "!p/", "!*.py", "# a.py", "", "c.*", "[a.py", "b.[py", "{a.py", "b}", "[z-a].py"]);
        s += r.pick(&["\n", "\n", "\n", "\r\n", "  \n"]);
    }
    s
}

/// The files the client would check, as the selection of files in the checker walks the tree.
/// `all`: of every root, otherwise only of those that are checked
pub fn selected(s: &Session, all: bool) -> BTreeSet<String> {
    fn entries(s: &Session, en: &Entries, stack: &mut Vec<Arc<GitignoreFile>>, out: &mut BTreeSet<String>) {
        let own = en.borrow().iter().find_map(|(_, e)| match e {
            DirectoryEntry::Gitignore(g) => Some(g.clone()),
            _ => None,
        });
        let n = stack.len();
        stack.extend(own);
        let all: Vec<DirectoryEntry> = en.borrow().iter().map(|(_, e)| e.clone()).collect();
        for e in all {
            match e {
                // what was opened or named outside of all roots is checked as well, but has no rules
                DirectoryEntry::File(f) if f.parent.workspace().kind == WorkspaceKind::Fallback => {}
                DirectoryEntry::File(f) => {
                    let p = f.absolute_path(&*s.vfs.handler);
                    if !stack.iter().any(|g| g.is_path_ignored(&p, false)) {
                        out.insert(p.path().to_string());
                    }
                }
                DirectoryEntry::Directory(d) => {
                    let p = d.absolute_path(&*s.vfs.handler);
                    if !stack.iter().any(|g| g.is_path_ignored(&p, true)) && !d.is_nested_workspace() {
                        entries(s, Directory::entries(&s.vfs, &d), stack, out);
                    }
                }
                _ => {}
            }
        }
        stack.truncate(n);
    }
    let mut out = BTreeSet::new();
    if all {
        for w in s.vfs.workspaces.load().iter().filter(|w| w.kind != WorkspaceKind::Fallback) {
            entries(s, &w.entries, &mut vec![], &mut out);
        }
    } else {
        for e in s.vfs.workspaces.load().entries_to_type_check() {
            entries(s, e, &mut vec![], &mut out);
        }
    }
    out
}

fn glob(p: &[u8], s: &[u8]) -> bool {
    match p.first() {
        None => s.is_empty(),
        Some(b'*') => (0..=s.len()).take_while(|k| *k == 0 || s[k - 1] != b'/').any(|k| glob(&p[1..], &s[k..])),
        Some(c) => s.first() == Some(c) && glob(&p[1..], &s[1..]),
    }
}
/// The rules of one file for a path relative to its directory: the last one that matches decides.
fn ignores(text: &str, rel: &str, is_dir: bool) -> bool {
    let mut r = false;
    for line in text.trim_start_matches('\u{feff}').lines() {
        let line = line.trim_end();
        // (a line that is not a valid pattern says nothing, the others hold)
        if line.starts_with('#') || line.is_empty() || line.contains(['[', '{', '}']) {
            continue;
        }
        let (neg, line) = line.strip_prefix('!').map_or((false, line), |l| (true, l));
        let (dir_only, line) = line.strip_suffix('/').map_or((false, line), |l| (true, l));
        let anchored = line.contains('/');
        let line = line.strip_prefix('/').unwrap_or(line);
        let subject = if anchored { rel } else { rel.rsplit('/').next().unwrap() };
        if (is_dir || !dir_only) && glob(line.as_bytes(), subject.as_bytes()) {
            r = !neg;
        }
    }
    r
}
/// Independent of the code under test: the disk, the open documents and the rules.
fn wanted(roots: &[Root], docs: &BTreeMap<String, String>) -> BTreeSet<String> {
    let mut all = BTreeSet::new();
    for r in roots {
        all.extend(crate::hist::disk_files(&r.path).into_keys());
    }
    all.extend(docs.keys().filter(|p| !is_ignore(p) && roots.iter().any(|r| p.starts_with(&format!("{}/", r.path)))).cloned());
    let rules = |d: &str| -> Option<String> {
        let p = format!("{d}/.gitignore");
        docs.get(&p).cloned().or_else(|| String::from_utf8(simfs().read_file(p.as_bytes()).ok()?).ok())
    };
    all.retain(|p| {
        let root = roots.iter().map(|r| &r.path).filter(|r| p.starts_with(&format!("{r}/"))).max_by_key(|r| r.len()).unwrap();
        let mut dir = root.clone();
        let mut stack: Vec<(String, String)> = vec![];
        let parts: Vec<&str> = p[root.len() + 1..].split('/').collect();
        for (k, part) in parts.iter().enumerate() {
            stack.extend(rules(&dir).map(|t| (dir.clone(), t)));
            dir = format!("{dir}/{part}");
            if stack.iter().any(|(d, t)| ignores(t, &dir[d.len() + 1..], k + 1 < parts.len())) {
                return false;
            }
        }
        true
    });
    all
}

pub fn judge(s: &mut Session) {
    quiet(|| {
        let want = wanted(&s.roots, &s.docs);
        let got = selected(s, true);
        for p in got.difference(&want) {
            zsim_rt::violation("ignore-rules", format!("{p} is selected for checking although it is ignored or gone (rules: {})", shown(s)));
        }
        for p in want.difference(&got) {
            zsim_rt::violation("ignore-rules", format!("{p} is not selected for checking although no rule ignores it (rules: {})", shown(s)));
        }
        // only the roots of the project are checked, not its libraries
        let mine: BTreeSet<String> = want.iter().filter(|p| s.roots.iter().filter(|r| p.starts_with(&format!("{}/", r.path))).max_by_key(|r| r.path.len()).unwrap().kind == 't').cloned().collect();
        let got_mine = selected(s, false);
        check!(got_mine == mine, "ignore-rules", "the files to check are {got_mine:?} instead of {mine:?}");
        let mut cold = Session::start(&s.roots, false);
        for (p, t) in &s.docs {
            cold.store(p, t);
        }
        check!(selected(&cold, true) == got, "ignore-rules", "a fresh start selects other files");
        if want.len() < s.visible().len() {
            zsim_rt::probe("some files ignored");
        }
        zsim_rt::state(zsim_rt::hash(format!("{want:?}").as_bytes()));
    })
}
fn shown(s: &Session) -> String {
    let mut v = vec![];
    for r in &s.roots {
        fn find(d: &str, v: &mut Vec<String>) {
            if let Ok(b) = simfs().read_file(format!("{d}/.gitignore").as_bytes()) {
                v.push(format!("{d}: {:?} on disk", String::from_utf8_lossy(&b)));
            }
            if let Ok(i) = simfs().resolve(d.as_bytes(), true)
                && let Some(e) = simfs().dir(i)
            {
                for (n, c) in e {
                    if simfs().is_dir(*c) {
                        find(&format!("{d}/{}", String::from_utf8_lossy(n)), v);
                    }
                }
            }
        }
        find(&r.path, &mut v);
    }
    v.extend(s.docs.iter().filter(|d| is_ignore(d.0)).map(|(p, t)| format!("{p}: {t:?} open")));
    v.join("; ")
}
