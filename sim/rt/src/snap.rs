//! What the disk looked like over time (for checks that must know which contents a path ever had).
use crate::fs::{Fs, Ino, Node};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Default)]
pub struct Snaps {
    pub roots: Vec<String>,
    /// (path, hash of content) that existed at some time
    pub texts: BTreeSet<(Vec<u8>, u64)>,
    /// paths of directories and files that had a second name through a link
    pub alias: BTreeSet<Vec<u8>>,
    /// every link and the real path of what it led to
    pub targets: BTreeSet<(Vec<u8>, Vec<u8>)>,
    /// paths that were no links at some time
    pub plain: BTreeSet<Vec<u8>>,
    pub links: BTreeMap<Vec<u8>, (Ino, Option<Ino>)>,
    /// links whose meaning changed although they were not touched
    pub shifted: BTreeSet<Vec<u8>>,
}

/// All paths below a directory by the documented rules: no hidden names, no ignored folders, links followed, no cycles.
pub fn visible(fs: &Fs, root: &str) -> Vec<(Vec<u8>, Ino)> {
    let mut out = vec![];
    if let Ok(i) = fs.resolve(root.as_bytes(), true) {
        walk(fs, root.as_bytes(), i, &mut vec![], &mut out);
    }
    out
}
fn walk(fs: &Fs, path: &[u8], ino: Ino, anc: &mut Vec<Ino>, out: &mut Vec<(Vec<u8>, Ino)>) {
    let Some(d) = fs.dir(ino) else { return };
    // a directory that may not be read or entered shows nothing
    if fs.inodes[ino].mode & 0o500 != 0o500 || anc.len() > 12 {
        return;
    }
    anc.push(ino);
    for (n, c) in d {
        if std::str::from_utf8(n).is_err() || n.starts_with(b".") || [&b"site-packages"[..], b"node_modules", b"__pycache__"].contains(&&n[..]) {
            continue;
        }
        let p = [path, b"/", n].concat();
        let mut c = *c;
        if matches!(fs.inodes[c].node, Node::Link(_)) {
            match fs.resolve(&p, true) {
                Ok(t) if !(fs.is_dir(t) && anc.contains(&t)) => c = t,
                _ => continue,
            }
        }
        match &fs.inodes[c].node {
            Node::Dir(_) => {
                out.push((p.clone(), c));
                walk(fs, &p, c, anc, out)
            }
            Node::File(_) => out.push((p, c)),
            _ => {}
        }
    }
    anc.pop();
}

impl Snaps {
    pub fn take(&mut self, fs: &Fs) {
        let mut names: BTreeMap<Ino, Vec<Vec<u8>>> = BTreeMap::new();
        for r in &self.roots.clone() {
            for (p, i) in visible(fs, r) {
                if let Node::File(b) = &fs.inodes[i].node {
                    self.texts.insert((p.clone(), crate::hash(b)));
                }
                let v = names.entry(i).or_default();
                if !v.contains(&p) {
                    v.push(p);
                }
            }
            if let Ok(i) = fs.resolve(r.as_bytes(), true) {
                names.entry(i).or_default().push(r.clone().into_bytes());
            }
            self.links(fs, r.as_bytes());
        }
        for (_, mut v) in names {
            v.sort();
            v.dedup();
            if v.len() > 1 {
                self.alias.extend(v);
            }
        }
    }
    fn links(&mut self, fs: &Fs, path: &[u8]) {
        let Ok(i) = fs.resolve(path, false) else { return };
        let Some(d) = fs.dir(i) else { return };
        let d: Vec<(Vec<u8>, Ino)> = d.iter().map(|(n, c)| (n.clone(), *c)).collect();
        for (n, c) in d {
            let p = [path, b"/", &n].concat();
            match &fs.inodes[c].node {
                Node::Dir(_) => {
                    self.plain.insert(p.clone());
                    self.links(fs, &p)
                }
                Node::Link(_) => {
                    let t = fs.resolve(&p, true).ok();
                    if let Some(t) = t {
                        self.targets.insert((p.clone(), fs.canonical(t)));
                    }
                    if let Some((l, old)) = self.links.insert(p.clone(), (c, t)) {
                        if l == c && old != t {
                            self.shifted.insert(p);
                        }
                    }
                }
                _ => {
                    self.plain.insert(p);
                }
            }
        }
    }
}
