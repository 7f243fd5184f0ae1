//! Generates histories: editor, other programs on the same disk, notifications, crashes.
use crate::hist::{Hist, Init, Op};
use crate::par::PQ;
use crate::session::Root;
use crate::{Case, base_cfg};
use std::collections::BTreeMap;
use zsim_rt::EnvStep;
use zsim_rt::fs::{Fs, Node, pb};
use zsim_rt::rng::Rng;

pub const CORE: &str = "/ts/builtins.pyi";
const IMPORTS: [&str; 12] = ["a", "b", "c", "p", "q", "p.a", "p.b", "p.r", "p.r.a", "q.a", "q.b", "builtins"];
const FILES: [&str; 8] = ["a.py", "b.py", "c.py", "a.pyi", "b.pyi", "__init__.py", "__init__.pyi", "x.txt"];
const DIRS: [&str; 3] = ["p", "q", "r"];
/// not part of the project by their names
const SKIPPED: [&str; 4] = ["__pycache__", "node_modules", "site-packages", ".h"];

/// Apply an outside step to a file system (used for the shadow while generating).
pub struct Shadow {
    pub fs: Fs,
    cur: Option<(usize, usize, Vec<u8>)>,
}
impl Shadow {
    pub fn new() -> Self {
        Shadow { fs: Fs::new(), cur: None }
    }
    pub fn apply(&mut self, s: &EnvStep) {
        let f = &mut self.fs;
        match s {
            EnvStep::Mkdir(p) => drop(f.mkdir(&pb(p))),
            EnvStep::WOpen(p) => self.cur = f.create(&pb(p), true).ok(),
            EnvStep::WAppend(d) => {
                if let Some((i, p, n)) = &self.cur {
                    f.append(*i, *p, n, d.as_bytes())
                }
            }
            EnvStep::WBytes(d) => {
                if let Some((i, p, n)) = &self.cur {
                    f.append(*i, *p, n, d)
                }
            }
            EnvStep::WClose => self.cur = None,
            EnvStep::Unlink(p) => drop(f.unlink(&pb(p))),
            EnvStep::Rmdir(p) => drop(f.rmdir(&pb(p))),
            EnvStep::Rename(a, b) => drop(f.rename(&pb(a), &pb(b))),
            EnvStep::Symlink(t, p) => drop(f.symlink(&pb(t), &pb(p))),
            EnvStep::Fifo(p) => drop(f.mkfifo(&pb(p))),
            EnvStep::Chmod(p, m) => drop(f.chmod(&pb(p), *m)),
            EnvStep::Clock(_) | EnvStep::ClockTo(_) => {}
        }
    }
    fn list(&self, root: &str, dirs: bool, out: &mut Vec<String>) {
        let Ok(i) = self.fs.resolve(root.as_bytes(), false) else { return };
        let Some(d) = self.fs.dir(i) else { return };
        for (n, c) in d {
            let p = format!("{root}/{}", String::from_utf8_lossy(n));
            match self.fs.inodes[*c].node {
                Node::Dir(_) => {
                    if dirs {
                        out.push(p.clone())
                    }
                    self.list(&p, dirs, out);
                }
                _ => {
                    if !dirs {
                        out.push(p)
                    }
                }
            }
        }
    }
    pub fn files(&self, roots: &[Root]) -> Vec<String> {
        let mut v = vec![];
        roots.iter().for_each(|r| self.list(&r.path, false, &mut v));
        v
    }
    /// directories below the roots (roots excluded)
    pub fn dirs(&self, roots: &[Root]) -> Vec<String> {
        let mut v = vec![];
        roots.iter().for_each(|r| self.list(&r.path, true, &mut v));
        v
    }
    pub fn exists(&self, p: &str) -> bool {
        self.fs.resolve(p.as_bytes(), false).is_ok()
    }
    pub fn is_dir(&self, p: &str) -> bool {
        self.fs.resolve(p.as_bytes(), true).is_ok_and(|i| self.fs.is_dir(i))
    }
    pub fn rmtree(&self, p: &str) -> Vec<EnvStep> {
        let mut v = vec![];
        if let Ok(i) = self.fs.resolve(p.as_bytes(), false)
            && let Some(d) = self.fs.dir(i)
        {
            for (n, c) in d {
                let q = format!("{p}/{}", String::from_utf8_lossy(n));
                if self.fs.is_dir(*c) {
                    v.extend(self.rmtree(&q));
                } else {
                    v.push(EnvStep::Unlink(q));
                }
            }
        }
        v.push(EnvStep::Rmdir(p.into()));
        v
    }
}

pub struct G<'a> {
    pub r: &'a mut Rng,
    pub sh: Shadow,
    pub roots: Vec<Root>,
    pub counter: u32,
    pub texts: Vec<String>,
    pub docs: BTreeMap<String, String>,
    pub tmp: u32,
    pub names: Vec<&'static str>,
    /// directories that are roots or contain one: they stay in place
    pub fixed: Vec<String>,
    /// directories that may become roots
    pub extra: Vec<Root>,
    /// directories may have the name of a module (b.py)
    pub modlike: bool,
    pub skipped: bool,
    pub unreadable: bool,
    pub chmod: bool,
    pub hostile: bool,
    /// documents outside of all roots
    pub outside: bool,
    /// documents that are no files
    pub schemes: bool,
    /// files with ignore rules
    pub ignores: bool,
}
impl G<'_> {
    pub fn code(&mut self) -> String {
        if !self.texts.is_empty() && self.r.chance(1, 6) {
            let t = self.r.pick(&self.texts).clone();
            return self.variant(t);
        }
        self.counter += 1;
        let mut s = format!("v{}\n", self.counter);
        for _ in 0..*self.r.pick(&[0usize, 0, 1, 1, 1, 2]) {
            let i = if self.modlike && self.r.chance(1, 4) { "q" } else { *self.r.pick(&IMPORTS) };
            s += &format!("import {i}\n");
        }
        self.texts.push(s.clone());
        s
    }
    /// a text that is almost or exactly the same
    pub fn variant(&mut self, t: String) -> String {
        match self.r.below(9) {
            0 => t + "\n",
            1 => t + " ",
            2 => t.trim_end().to_string(),
            3 => t.replace('\n', "\r\n"),
            4 => t.to_uppercase(),
            5 => format!("\n{t}"),
            6 => format!("{t}#\u{e9}\n"),
            7 => String::new(),
            _ => t,
        }
    }
    pub fn dir(&mut self) -> String {
        let mut v: Vec<String> = self.sh.dirs(&self.roots);
        for r in &self.roots {
            v.push(r.path.clone());
            if r.kind == 't' {
                v.push(r.path.clone());
                v.push(r.path.clone());
            }
        }
        self.r.pick(&v).clone()
    }
    /// the name of a directory, rarely one that looks like a module
    fn dir_name(&mut self) -> String {
        if self.skipped && self.r.chance(1, 3) {
            return self.r.pick(&SKIPPED).to_string();
        }
        if self.modlike && self.r.chance(1, 4) { "b.py".into() } else { self.r.pick(&DIRS).to_string() }
    }
    /// the part of the path that the names of the project's own directories and files make up
    fn inside(&self, p: &str) -> String {
        let n = self.roots.iter().map(|r| r.path.len()).filter(|n| p.len() > *n && self.roots.iter().any(|r| r.path.len() == *n && p.starts_with(&format!("{}/", r.path)))).max();
        p[n.unwrap_or(0)..].to_string()
    }
    fn is_skipped(&self, p: &str) -> bool {
        self.inside(p).split('/').any(|c| (c.starts_with('.') && c != ".gitignore") || SKIPPED.contains(&c))
    }
    pub fn file_name(&mut self) -> String {
        if self.skipped && self.r.chance(1, 10) {
            return ".a.py".into();
        }
        let v = self.names.clone();
        self.r.pick(&v).to_string()
    }
    /// a path of a file, existing or not, in an existing directory
    pub fn file_path(&mut self, existing: u32) -> String {
        let v = self.sh.files(&self.roots);
        if !v.is_empty() && self.r.chance(existing, 100) {
            return self.r.pick(&v).clone();
        }
        let d = self.dir();
        if self.ignores && self.r.chance(1, 2) {
            return format!("{d}/.gitignore");
        }
        format!("{d}/{}", self.file_name())
    }
    fn movable(&self) -> Vec<String> {
        let mut v = self.sh.dirs(&self.roots);
        v.sort();
        v.dedup();
        v.retain(|d| !self.fixed.iter().any(|f| f == d || f.starts_with(&format!("{d}/"))));
        v
    }
    fn existing(&mut self) -> Option<String> {
        let v = self.sh.files(&self.roots);
        if v.is_empty() { None } else { Some(self.r.pick(&v).clone()) }
    }
    fn text_for(&mut self, p: &str) -> String {
        if p.ends_with(".gitignore") || p.contains(".gitignore.tmp") { crate::ignore::text(self.r) } else { self.code() }
    }
    fn write(&mut self, p: &str) -> Vec<EnvStep> {
        let c = self.text_for(p);
        let mut v = vec![EnvStep::WOpen(p.into())];
        if self.r.chance(1, 3) && c.len() > 4 {
            let mut k = 2 + self.r.below(c.len() - 3);
            while !c.is_char_boundary(k) {
                k += 1;
            }
            v.push(EnvStep::WAppend(c[..k].into()));
            v.push(EnvStep::WAppend(c[k..].into()));
        } else {
            v.push(EnvStep::WAppend(c));
        }
        v.push(EnvStep::WClose);
        v
    }
    fn new_dir(&mut self, p: &str) -> Vec<EnvStep> {
        let mut v = vec![EnvStep::Mkdir(p.into())];
        for _ in 0..self.r.below(3) {
            let n = if self.ignores && self.r.chance(1, 3) { ".gitignore".into() } else { self.file_name() };
            v.extend(self.write(&format!("{p}/{n}")));
        }
        if self.r.chance(1, 4) {
            let n = *self.r.pick(&DIRS);
            let q = format!("{p}/{n}");
            v.push(EnvStep::Mkdir(q.clone()));
            if self.r.chance(2, 3) {
                let n = self.file_name();
                v.extend(self.write(&format!("{q}/{n}")));
            }
        }
        v
    }
    /// paths where open documents (or their directories) live must not be replaced by the other kind
    fn blocked_dir(&self, p: &str) -> bool {
        self.docs.keys().any(|d| d == p)
    }
    pub fn env(&mut self) -> Vec<EnvStep> {
        let v = self.env_inner();
        // the core stubs are replaced, but never missing
        if v.iter().any(|s| matches!(s, EnvStep::Unlink(p) | EnvStep::Rename(p, _) if p == CORE)) {
            return vec![];
        }
        if self.unreadable && v.iter().any(|s| matches!(s, EnvStep::Rename(p, q) if q == CORE && !p.contains(".tmp"))) {
            return vec![];
        }
        v.iter().for_each(|s| self.sh.apply(s));
        v
    }
    /// links, special files, odd names and contents, permissions
    fn hostile_step(&mut self) -> Vec<EnvStep> {
        let d = self.dir();
        let file = format!("{d}/{}", self.file_name());
        let dir = format!("{d}/{}", self.r.pick(&DIRS));
        match self.r.below(14) {
            // links to directories: elsewhere in the project, outside, up, to itself, in circles, to nothing
            0..=4 => {
                if self.sh.exists(&dir) || dir.matches('/').count() > 4 {
                    return vec![];
                }
                let t = match self.r.below(10) {
                    0 => "/ext/lib".to_string(),
                    // a relative link somewhere else
                    8 => "/ext/k".into(),
                    9 => format!("{}ext/lib/k2", "../".repeat(d.matches('/').count())),
                    1 => "..".into(),
                    2 => ".".into(),
                    3 => dir.clone(),
                    4 => format!("{d}/{}", self.r.pick(&DIRS)),
                    5 => "../q".into(),
                    6 => self.dir(),
                    _ => "/ext/nothing".into(),
                };
                vec![EnvStep::Symlink(t, dir)]
            }
            // links to files
            5..=7 => {
                if self.sh.exists(&file) {
                    return vec![];
                }
                let t = match self.r.below(8) {
                    0 => "/ext/lib/a.py".to_string(),
                    6 => "/ext/lib/l.py".into(),
                    7 => format!("{}ext/m.py", "../".repeat(d.matches('/').count())),
                    1 => file.clone(),
                    2 => format!("{d}/{}", self.file_name()),
                    3 => self.file_name(),
                    4 => self.existing().filter(|f| f.contains('.')).unwrap_or("a.py".into()),
                    _ => "/ext/none.py".into(),
                };
                vec![EnvStep::Symlink(t, file)]
            }
            8 => if self.sh.exists(&file) { vec![] } else { vec![EnvStep::Fifo(file)] },
            9 => if self.sh.exists(&dir) { vec![] } else { vec![EnvStep::Fifo(dir)] },
            10 => vec![EnvStep::WOpen(file), EnvStep::WBytes(vec![b'v', 0xff, 0xfe, b'\n']), EnvStep::WClose],
            11 => {
                let n = *self.r.pick(&["\u{f8ff}.py", "x\u{f8ff}", "\u{f8ff}"]);
                let c = self.code();
                vec![EnvStep::WOpen(format!("{d}/{n}")), EnvStep::WAppend(c), EnvStep::WClose]
            }
            _ => {
                let mut v = self.movable();
                v.extend(self.sh.files(&self.roots));
                if v.is_empty() {
                    return vec![];
                }
                let p = self.r.pick(&v).clone();
                // the mode of a link's target stays
                if self.sh.fs.resolve(p.as_bytes(), false).ok() != self.sh.fs.resolve(p.as_bytes(), true).ok() {
                    return vec![];
                }
                vec![EnvStep::Chmod(p, *self.r.pick(&[0u32, 0o755, 0o755, 0o200]))]
            }
        }
    }
    fn env_inner(&mut self) -> Vec<EnvStep> {
        if self.hostile && self.r.chance(1, 16) {
            // the target of a link is outside of the project
            let p = *self.r.pick(&["/ext/lib/a.py", "/ext/lib/b.py", "/ext/lib/p/a.py", "/ext/lib/c.py", "/ext/lib/p/c.py"]);
            return self.write(p);
        }
        if self.hostile && self.r.chance(1, 3) {
            return self.hostile_step();
        }
        if self.chmod && self.r.chance(1, 10) {
            let d = self.sh.dirs(&self.roots);
            if !d.is_empty() {
                return vec![EnvStep::Chmod(self.r.pick(&d).clone(), 0o755)];
            }
        }
        if self.unreadable && self.r.chance(1, 8) {
            // a file that cannot be read for some time
            let mut v = self.sh.files(&self.roots);
            v.retain(|p| p != CORE);
            let shut: Vec<String> = v.iter().filter(|p| self.sh.fs.resolve(p.as_bytes(), true).is_ok_and(|i| self.sh.fs.inodes[i].mode & 0o400 == 0)).cloned().collect();
            if !shut.is_empty() && self.r.chance(2, 3) {
                return vec![EnvStep::Chmod(self.r.pick(&shut).clone(), 0o644)];
            }
            if !v.is_empty() {
                return vec![EnvStep::Chmod(self.r.pick(&v).clone(), 0o200)];
            }
        }
        if self.modlike && self.r.chance(1, 4) {
            // a module becomes a directory, or the other way round
            // (or a package a script of the same name)
            let script = self.r.chance(1, 2);
            let d = if script && self.r.chance(1, 2) { self.roots[0].path.clone() } else { self.dir() };
            let p = format!("{d}/{}", if script { "q" } else { "b.py" });
            if self.roots.iter().any(|r| r.path == p || r.path.starts_with(&format!("{p}/"))) {
                return vec![];
            }
            if self.sh.is_dir(&p) {
                let mut v = self.sh.rmtree(&p);
                if self.r.chance(3, 4) {
                    v.extend(self.write(&p));
                }
                return v;
            }
            if script && !self.sh.exists(&p) && self.r.chance(2, 3) {
                return self.write(&p);
            }
            let mut v = if self.sh.exists(&p) { vec![EnvStep::Unlink(p.clone())] } else { vec![] };
            v.push(EnvStep::Mkdir(p.clone()));
            if script && self.r.chance(1, 2) {
                v.extend(self.write(&format!("{p}/__init__.py")));
            }
            return v;
        }
        match self.r.below(24) {
            0..=5 => {
                let p = self.file_path(75);
                self.write(&p)
            }
            6..=7 => {
                // atomic save
                let p = self.file_path(75);
                self.tmp += 1;
                let t = format!("{}.tmp{}", p.rsplit_once('/').map(|(d, n)| format!("{d}/.{n}")).unwrap(), self.tmp);
                let mut v = self.write(&t);
                v.push(EnvStep::Rename(t, p));
                v
            }
            8..=10 => match self.existing() {
                Some(p) => vec![EnvStep::Unlink(p)],
                None => vec![],
            },
            11..=12 => match self.existing() {
                Some(p) => {
                    let q = self.file_path(30);
                    let link = self.sh.fs.resolve(p.as_bytes(), false).is_ok_and(|i| matches!(self.sh.fs.inodes[i].node, Node::Link(_)));
                    if p == q || self.sh.is_dir(&q) || link { vec![] } else { vec![EnvStep::Rename(p, q)] }
                }
                None => vec![],
            },
            13..=15 => {
                let d = self.dir();
                let n = self.dir_name();
                let p = format!("{d}/{n}");
                if self.sh.exists(&p) || p.matches('/').count() > 5 || self.blocked_dir(&p) { vec![] } else { self.new_dir(&p) }
            }
            16..=17 => {
                let v = self.movable();
                if v.is_empty() { vec![] } else { let p = self.r.pick(&v).clone(); self.sh.rmtree(&p) }
            }
            18..=20 => {
                let v = self.movable();
                if v.is_empty() {
                    return vec![];
                }
                let p = self.r.pick(&v).clone();
                let d = self.dir();
                let n = self.dir_name();
                let q = format!("{d}/{n}");
                if p == q || q.starts_with(&format!("{p}/")) || self.sh.exists(&q) || self.blocked_dir(&q) || q.matches('/').count() > 5 { vec![] } else { vec![EnvStep::Rename(p, q)] }
            }
            21 => {
                // delete and create again
                let v = self.movable();
                if v.is_empty() {
                    return vec![];
                }
                let p = self.r.pick(&v).clone();
                let mut s = self.sh.rmtree(&p);
                s.extend(self.new_dir(&p));
                s
            }
            22 => {
                // delete a file, write it again
                match self.existing() {
                    Some(p) => {
                        let mut v = vec![EnvStep::Unlink(p.clone())];
                        v.extend(self.write(&p));
                        v
                    }
                    None => vec![],
                }
            }
            _ => {
                // swap two directories
                let v = self.movable();
                if v.len() < 2 {
                    return vec![];
                }
                let p = self.r.pick(&v).clone();
                let q = self.r.pick(&v).clone();
                if p == q || q.starts_with(&format!("{p}/")) || p.starts_with(&format!("{q}/")) {
                    return vec![];
                }
                self.tmp += 1;
                let t = format!("/w/.swap{}", self.tmp);
                vec![EnvStep::Rename(p.clone(), t.clone()), EnvStep::Rename(q.clone(), p), EnvStep::Rename(t, q)]
            }
        }
    }
    /// what one thread asks for; threads prefer the same few files
    fn requests(&mut self, hot: &str) -> Vec<PQ> {
        let n = 1 + self.r.below(4);
        let mut v = vec![];
        for _ in 0..n {
            if !self.extra.is_empty() && self.r.chance(2, 5) {
                let p = if self.r.chance(1, 8) { "/w".to_string() } else { let e = self.extra.clone(); self.r.pick(&e).path.clone() };
                let kind = *self.r.pick(&['t', 's']);
                v.push(PQ::AddRoot(p, kind));
                continue;
            }
            let p = if self.r.chance(1, 2) { hot.to_string() } else { self.file_path(85) };
            let k = self.r.below(12);
            v.push(match k {
                0 => PQ::Look(p),
                1..=4 => PQ::Load(p),
                5..=7 => PQ::Query(p),
                8 | 9 => {
                    let i = self.r.pick(&IMPORTS).to_string();
                    PQ::Import(p, i)
                }
                10 => {
                    self.tmp += 1;
                    PQ::Sub(p, self.tmp)
                }
                _ => if self.r.chance(1, 2) { PQ::Walk } else { PQ::List },
            });
        }
        v
    }
    pub fn doc_path(&mut self) -> String {
        // an open document is a Python file; its place is an existing directory, or (rarely) a new one
        for _ in 0..20 {
            let mut p = self.file_path(60);
            if self.r.chance(1, 12) {
                let d = self.dir();
                p = format!("{d}/{}/{}", self.r.pick(&DIRS), self.file_name());
            }
            // a directory of a document never becomes a file, nor the document a directory
            if self.is_skipped(&p) || self.inside(&p).rsplit_once('/').is_some_and(|(d, n)| d.contains('.') || (self.modlike && (n == "b.py" || d.split('/').any(|x| x == "q")))) {
                continue;
            }
            if !(p.ends_with(".py") || p.ends_with(".pyi") || (self.ignores && p.ends_with("/.gitignore"))) || self.sh.is_dir(&p) {
                continue;
            }
            if self.roots.iter().any(|r| r.kind == 'y') && self.r.chance(1, 12) {
                return CORE.into();
            }
            if self.schemes && self.r.chance(1, 6) {
                return self.r.pick(&["untitled:/Untitled-1", "untitled:/Untitled-2", "git:/w/a.py?HEAD", "git:/w/p/a.py?HEAD"]).to_string();
            }
            if self.outside && self.r.chance(1, 8) {
                return format!("/o{}/{}", self.r.pick(&["", "/p"]), self.r.pick(&["a.py", "b.py", "x.pyi"]));
            }
            // nothing above it may be a file
            if p.starts_with("/ts/") || p.matches('/').count() > 6 {
                continue;
            }
            return p;
        }
        "/w/a.py".into()
    }
}

/// source roots inside one another, as `src` folders and path configuration files give them
fn nested_roots(r: &mut Rng) -> Vec<Root> {
    let mut v = vec![Root { path: "/w".into(), kind: 't' }];
    let inner = *r.pick(&["/w/p", "/w/p", "/w/q", "/w/p/r", "/w/q/r", "/w/.venv/s", "/w/site-packages"]);
    v.push(Root { path: inner.into(), kind: *r.pick(&['t', 't', 's']) });
    if r.chance(1, 3) {
        let more = *r.pick(&["/w/p/q", "/w/r", "/w/p/r"]);
        if !v.iter().any(|x| x.path == more) {
            v.push(Root { path: more.into(), kind: *r.pick(&['t', 's']) });
        }
    }
    r.shuffle(&mut v);
    v
}

fn roots(r: &mut Rng) -> Vec<Root> {
    let mut v = vec![Root { path: "/w".into(), kind: 't' }];
    if r.chance(1, 4) {
        v.push(Root { path: "/w2".into(), kind: *r.pick(&['t', 's', 's']) });
    }
    if r.chance(1, 3) {
        v.push(Root { path: "/ts".into(), kind: 'y' });
    }
    v
}

pub fn initial(g: &mut G) -> Vec<(String, Init)> {
    let mut init = vec![];
    for r in &g.roots {
        init.push((r.path.clone(), Init::D));
        let _ = g.sh.fs.mkdir_p(r.path.as_bytes());
    }
    for r in g.roots.clone() {
        if r.kind == 'y' {
            let c = "v0\n".to_string();
            let _ = g.sh.fs.write_all(b"/ts/builtins.pyi", c.as_bytes());
            init.push(("/ts/builtins.pyi".into(), Init::F(c)));
        }
        let n = if r.kind == 't' { 2 + g.r.below(5) } else { g.r.below(3) };
        for _ in 0..n {
            if g.r.chance(1, 3) {
                let d = g.dir();
                let p = format!("{d}/{}", if g.skipped && g.r.chance(1, 3) { *g.r.pick(&SKIPPED) } else { *g.r.pick(&DIRS) });
                if d.starts_with(&r.path) && !g.sh.exists(&p) && p.matches('/').count() <= 4 {
                    let _ = g.sh.fs.mkdir_p(p.as_bytes());
                    init.push((p, Init::D));
                    continue;
                }
            }
            let p = g.file_path(0);
            let c = g.text_for(&p);
            if p.starts_with(&r.path) && !g.sh.exists(&p) {
                let _ = g.sh.fs.write_all(p.as_bytes(), c.as_bytes());
                init.push((p, Init::F(c)));
            }
        }
    }
    if g.modlike && g.r.chance(1, 2) {
        // a script
        let p = format!("{}/q", g.roots[0].path);
        if !g.sh.exists(&p) {
            let c = g.text_for(&p);
            let _ = g.sh.fs.write_all(p.as_bytes(), c.as_bytes());
            init.push((p, Init::F(c)));
        }
    }
    init
}

pub fn generate(property: &str, seed: u64, r: &mut Rng, deep: bool) -> Case {
    let threads = matches!(property, "C07" | "C09" | "C17");
    let mut cfg = base_cfg(seed, r, threads);
    if threads {
        cfg.mean = *r.pick(&[3, 8, 25, 80, 300]);
    }
    // swarm: each run leans on a subset of names and operations
    let names: Vec<&'static str> = {
        let mut v: Vec<&'static str> = FILES.to_vec();
        r.shuffle(&mut v);
        v.truncate(3 + r.below(6));
        v
    };
    let mut rts = if property == "C16" || (property != "C09" && r.chance(1, 6)) { nested_roots(r) } else { roots(r) };
    let mut fixed: Vec<String> = rts.iter().map(|r| r.path.clone()).collect();
    if r.chance(1, 2) {
        // roots inside of another root may come and go
        fixed.retain(|f| f.contains(".venv") || !rts.iter().any(|r| f.starts_with(&format!("{}/", r.path))));
    }
    let mut extra = vec![];
    if property == "C09" {
        for p in ["/x1", "/x2", "/x3"] {
            extra.push(Root { path: p.into(), kind: *r.pick(&['t', 's', 's']) });
        }
        rts.extend(extra.iter().cloned());
    }
    let outside = r.chance(1, 4);
    let schemes = r.chance(1, 4);
    let modlike = r.chance(1, 5);
    let skipped = property != "C10" && r.chance(1, 5);
    let unreadable = matches!(property, "C04" | "C05") && r.chance(1, 3);
    let mut g = G { r, sh: Shadow::new(), roots: rts, counter: 0, texts: vec![], docs: BTreeMap::new(), tmp: 0, names, fixed, modlike, skipped, unreadable, extra: extra.clone(), chmod: property == "C16", hostile: property == "C10", outside, schemes, ignores: property == "C18" };
    let init = initial(&mut g);
    g.roots.retain(|r| !extra.contains(r));
    let start_roots = g.roots.clone();
    let mut init = init;
    if property == "C10" {
        for (p, c) in [("/ext/lib/a.py", "e1\n"), ("/ext/lib/b.py", "e2\nimport a\n"), ("/ext/lib/p/a.py", "e3\n")] {
            let _ = g.sh.fs.mkdir_p(p.rsplit_once('/').unwrap().0.as_bytes());
            let _ = g.sh.fs.write_all(p.as_bytes(), c.as_bytes());
            init.push((p.into(), Init::F(c.into())));
        }
        for (t, p) in [("b.py", "/ext/lib/l.py"), ("lib/l.py", "/ext/m.py"), ("lib/p", "/ext/k"), ("../k", "/ext/lib/k2")] {
            init.push((p.into(), Init::L(t.into())));
            g.sh.apply(&EnvStep::Symlink(t.into(), p.into()));
        }
        for _ in 0..g.r.below(4) {
            for s in g.hostile_step() {
                match &s {
                    EnvStep::Symlink(t, p) => init.push((p.clone(), Init::L(t.clone()))),
                    EnvStep::Fifo(p) => init.push((p.clone(), Init::P)),
                    _ => continue,
                }
                g.sh.apply(&s);
            }
        }
    }
    if property == "C03" {
        for (p, c) in [("/g/a.py", "g1\nimport a\n"), ("/g/p/b.py", "g2\n"), ("/g/p/r/a.pyi", "g3\n")] {
            init.push((p.into(), Init::F(c.into())));
        }
    }
    let n = if deep { 6 + g.r.below(26) } else { 4 + g.r.below(15) };
    let base: [u32; 10] = match property {
        //      env open change save close query pump settle crash
        "C01" => [30, 14, 14, 6, 4, 8, 10, 8, 0, 0],
        "C02" => [26, 14, 8, 6, 16, 10, 8, 8, 0, 0],
        "C03" => [50, 3, 2, 2, 3, 16, 12, 10, 0, 0],
        "C04" => [34, 8, 8, 3, 6, 24, 8, 8, 0, 0],
        "C05" => [34, 14, 8, 3, 5, 10, 10, 10, 0, 0],
        "C07" => [16, 3, 3, 1, 2, 4, 4, 8, 0, 40],
        "C09" => [12, 3, 3, 1, 2, 6, 4, 8, 0, 40],
        "C10" => [40, 8, 6, 3, 6, 20, 8, 10, 0, 6],
        "C17" => [36, 4, 6, 2, 3, 6, 6, 6, 6, 20],
        "C18" => [36, 10, 8, 5, 8, 8, 8, 10, 6, 4],
        "C16" => [34, 10, 8, 4, 8, 16, 8, 10, 0, 8],
        _ => [24, 12, 8, 4, 6, 10, 8, 8, 24, 0],
    };
    let mut w: Vec<u32> = base.iter().enumerate().map(|(k, x)| if k > 0 && g.r.chance(1, 5) { x / 3 } else { *x }).collect();
    if g.unreadable {
        // closing a document over a file that cannot be read is a recorded finding
        w[4] = 0;
    }
    let sum: u32 = w.iter().sum();
    let mut ops = vec![];
    while ops.len() < n {
        let mut k = g.r.below(sum as usize) as u32;
        let mut i = 0;
        while k >= w[i] {
            k -= w[i];
            i += 1;
        }
        match i {
            0 => {
                let v = g.env();
                if !v.is_empty() {
                    let mut v = v;
                    // bursts
                    if property == "C17" && g.r.chance(1, 3) {
                        for _ in 0..g.r.below(12) {
                            v.extend(g.env());
                        }
                    }
                    ops.push(Op::Env(v));
                    if g.r.chance(60, 100) {
                        ops.push(Op::Flush);
                        if g.r.chance(50, 100) {
                            ops.push(Op::Settle);
                        }
                    }
                }
            }
            1 => {
                let p = g.doc_path();
                // the text of a new buffer often is what is on disk
                let c = match g.sh.fs.read_file(p.as_bytes()) {
                    Ok(b) if g.r.chance(1, 2) => {
                        let t = String::from_utf8_lossy(&b).to_string();
                        if g.r.chance(1, 4) { g.variant(t) } else { t }
                    }
                    _ => g.text_for(&p),
                };
                g.docs.insert(p.clone(), c.clone());
                ops.push(Op::Open(p, c));
            }
            2 | 3 | 4 => {
                let v: Vec<String> = g.docs.keys().cloned().collect();
                if v.is_empty() {
                    continue;
                }
                let p = g.r.pick(&v).clone();
                match i {
                    2 => {
                        let c = g.text_for(&p);
                        g.docs.insert(p.clone(), c.clone());
                        ops.push(Op::Change(p, c));
                    }
                    3 if p.contains(':') => {}
                    3 => {
                        let _ = g.sh.fs.write_all(p.as_bytes(), g.docs[&p].as_bytes());
                        ops.push(Op::Save(p));
                        if g.r.chance(1, 2) {
                            ops.push(Op::Flush);
                        }
                    }
                    _ => {
                        g.docs.remove(&p);
                        ops.push(Op::Close(p));
                    }
                }
            }
            5 => {
                if g.r.chance(1, 12) {
                    let w = format!("{}{}", g.r.pick(&["import ", "v", "v1", "import q"]), g.r.pick(&["", "", "a", "p"]));
                    ops.push(Op::Grep(w));
                    continue;
                }
                if property == "C03" && g.r.chance(1, 5) {
                    let p = match g.r.below(3) {
                        0 => g.file_path(70),
                        1 => g.dir(),
                        // (one of them, or a file would be known by two names)
                        _ => "/g/p".into(),
                    };
                    // (a directory that contains a root without showing it)
                    let around = g.roots.iter().any(|r| r.path.starts_with(&format!("{p}/")) && (r.path.contains("/.venv") || r.path.contains("/site-packages")));
                    if g.is_skipped(&p) || around {
                        continue;
                    }
                    ops.push(Op::Given(p));
                    continue;
                }
                let p = g.file_path(85);
                ops.push(Op::Query(p));
            }
            6 => ops.push(Op::Pump),
            7 => {
                ops.push(Op::Flush);
                ops.push(Op::Settle);
                if g.r.chance(1, 3) {
                    ops.push(Op::Check);
                }
            }
            8 if property == "C17" && g.r.chance(1, 2) => ops.push(Op::Restart),
            8 => ops.push(Op::Crash(g.r.below(6) as i64)),
            _ => {
                if property == "C09" {
                    ops.push(Op::Flush);
                }
                let nt = 2 + g.r.below(3);
                let hot = g.file_path(95);
                let t: Vec<Vec<PQ>> = (0..nt).map(|_| g.requests(&hot)).collect();
                // what was registered is part of the project from now on
                for q in t.iter().flatten() {
                    if let PQ::AddRoot(p, _) = q
                        && !g.roots.iter().any(|r| r.path == *p)
                    {
                        let r = g.extra.iter().find(|x| x.path == *p).cloned().unwrap_or(Root { path: p.clone(), kind: 's' });
                        g.fixed.push(p.clone());
                        g.roots.push(r);
                    }
                }
                ops.push(Op::Par(t));
                if g.r.chance(1, 4) {
                    ops.push(Op::Check);
                }
            }
        }
    }
    if property == "C02" {
        for p in g.docs.keys() {
            if g.r.chance(2, 3) {
                ops.push(Op::Close(p.clone()));
            }
        }
    }
    let oracles = match property {
        "C01" => "dv",
        "C02" => "vs",
        "C03" => "v",
        "C04" => "s",
        "C05" => "p",
        "C07" => "vs",
        "C09" => "v",
        "C16" => "dvs",
        "C18" => "dg",
        "C10" => "d",
        "C17" => "dv",
        _ => "dvsp",
    };
    let w = Hist { roots: start_roots, init, ops, oracles: oracles.into(), strict: false, hostile: property == "C10" };
    match property {
        "C10" => {
            let kinds = [
                "open_eacces", "open_eio", "open_emfile", "open_eintr", "read_eintr", "read_eio", "read_short", "stat_eacces", "stat_eio", "readlink_eio",
                "opendir_eacces", "opendir_eio", "opendir_emfile", "readdir_eio", "dtype_unknown", "watch_enospc", "watch_enomem", "epoll_eintr", "futex_spurious",
            ];
            for _ in 0..g.r.below(4) {
                cfg.faults.insert(g.r.pick(&kinds).to_string(), *g.r.pick(&[4u32, 20, 20, 80, 300]));
            }
            if g.r.chance(1, 40) {
                cfg.faults.insert("inotify_init_emfile".into(), 1000);
            }
        }
        "C17" => {
            for (k, n) in [("futex_spurious", 3), ("epoll_eintr", 3), ("read_eintr", 6)] {
                if g.r.chance(1, n) {
                    cfg.faults.insert(k.into(), *g.r.pick(&[30u32, 200]));
                }
            }
        }
        _ => {}
    }
    cfg.max_ticks = 60_000_000;
    Case { scenario: "hist".into(), cfg, work: serde_json::to_value(w).unwrap() }
}
