//! The simulated file system and inotify. Everything the code under test believes to be the disk.
use libc::*;
use std::collections::{BTreeMap, VecDeque};

pub type Ino = usize;
pub type Errno = i32;
pub const ROOT: Ino = 0;

/// Workloads are text; this character stands for a byte that is not valid in UTF-8.
pub fn pb(p: &str) -> Vec<u8> {
    if !p.contains('\u{f8ff}') {
        return p.as_bytes().to_vec();
    }
    let mut out = vec![];
    let mut buf = [0; 4];
    for c in p.chars() {
        if c == '\u{f8ff}' {
            out.push(0xff);
        } else {
            out.extend_from_slice(c.encode_utf8(&mut buf).as_bytes());
        }
    }
    out
}

#[derive(Clone, Debug)]
pub enum Node {
    Dir(BTreeMap<Vec<u8>, Ino>),
    File(Vec<u8>),
    Link(Vec<u8>),
    Fifo,
}

#[derive(Clone, Debug)]
pub struct Inode {
    pub node: Node,
    pub mode: u32,
    pub nlink: u32,
    pub opens: u32,
    pub gone_reported: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ev {
    pub wd: i32,
    pub mask: u32,
    pub cookie: u32,
    pub name: Option<Vec<u8>>,
}

#[derive(Clone, Debug)]
pub struct Inotify {
    pub alive: bool,
    pub watches: BTreeMap<Ino, (i32, u32)>,
    pub next_wd: i32,
    pub queue: VecDeque<Ev>,
    pub overflowed: u64,
    pub delivered: u64,
}

#[derive(Clone)]
pub struct Fs {
    pub inodes: Vec<Inode>,
    pub cwd: Ino,
    pub cwd_path: Vec<u8>,
    pub inst: Vec<Inotify>,
    pub next_cookie: u32,
    pub queue_limit: usize,
    /// instances that have got new events since last looked at
    pub dirty: Vec<usize>,
    pub mutations: u64,
}

const S_DIR: u32 = 0o755;
const S_FILE: u32 = 0o644;

impl Fs {
    pub fn new() -> Self {
        Fs {
            inodes: vec![Inode { node: Node::Dir(BTreeMap::new()), mode: S_DIR, nlink: 2, opens: 0, gone_reported: false }],
            cwd: ROOT,
            cwd_path: b"/".to_vec(),
            inst: vec![],
            next_cookie: 1,
            queue_limit: 16384,
            dirty: vec![],
            mutations: 0,
        }
    }
    pub fn alloc(&mut self, node: Node, mode: u32) -> Ino {
        let nlink = if matches!(node, Node::Dir(_)) { 2 } else { 1 };
        self.inodes.push(Inode { node, mode, nlink, opens: 0, gone_reported: false });
        self.inodes.len() - 1
    }
    pub fn dir(&self, i: Ino) -> Option<&BTreeMap<Vec<u8>, Ino>> {
        match &self.inodes[i].node {
            Node::Dir(d) => Some(d),
            _ => None,
        }
    }
    fn dir_mut(&mut self, i: Ino) -> &mut BTreeMap<Vec<u8>, Ino> {
        match &mut self.inodes[i].node {
            Node::Dir(d) => d,
            _ => unreachable!(),
        }
    }
    pub fn is_dir(&self, i: Ino) -> bool {
        matches!(self.inodes[i].node, Node::Dir(_))
    }

    /// Walks a path. Returns (parent inode, last name, resolved inode if it exists).
    fn walk(&self, base: Ino, path: &[u8], follow_last: bool, depth: &mut u32) -> Result<(Ino, Vec<u8>, Option<Ino>), Errno> {
        if path.is_empty() {
            return Err(ENOENT);
        }
        if path.len() >= 4096 {
            return Err(ENAMETOOLONG);
        }
        let mut stack: Vec<(Ino, Vec<u8>)> = vec![];
        // `base` is only used for relative paths; its ancestors are found by a search (rare).
        let mut cur = if path[0] == b'/' { ROOT } else { base };
        let comps: Vec<&[u8]> = path.split(|c| *c == b'/').filter(|c| !c.is_empty()).collect();
        let must_dir = path.last() == Some(&b'/');
        if comps.is_empty() {
            return Ok((ROOT, b"".to_vec(), Some(ROOT)));
        }
        let n = comps.len();
        for (k, c) in comps.iter().enumerate() {
            let last = k + 1 == n;
            if c.len() > 255 {
                return Err(ENAMETOOLONG);
            }
            let Some(d) = self.dir(cur) else { return Err(ENOTDIR) };
            if self.inodes[cur].mode & 0o100 == 0 {
                return Err(EACCES);
            }
            if *c == b"." {
                if last {
                    return Ok((cur, b".".to_vec(), Some(cur)));
                }
                continue;
            }
            if *c == b".." {
                cur = match stack.pop() {
                    Some((p, _)) => p,
                    None => self.parent_of(cur).unwrap_or(ROOT),
                };
                if last {
                    return Ok((cur, b"..".to_vec(), Some(cur)));
                }
                continue;
            }
            let Some(&next) = d.get(*c) else {
                return if last { Ok((cur, c.to_vec(), None)) } else { Err(ENOENT) };
            };
            if let Node::Link(t) = &self.inodes[next].node {
                if !last || follow_last || must_dir {
                    *depth += 1;
                    if *depth > 40 {
                        return Err(ELOOP);
                    }
                    let (p, nm, r) = self.walk(cur, &t.clone(), true, depth)?;
                    if last {
                        return Ok((p, nm, r));
                    }
                    let Some(r) = r else { return Err(ENOENT) };
                    stack.clear();
                    cur = r;
                    continue;
                }
            }
            if last {
                if must_dir && !self.is_dir(next) {
                    return Err(ENOTDIR);
                }
                return Ok((cur, c.to_vec(), Some(next)));
            }
            stack.push((cur, c.to_vec()));
            cur = next;
        }
        unreachable!()
    }
    pub fn parent_of(&self, i: Ino) -> Option<Ino> {
        for (k, n) in self.inodes.iter().enumerate() {
            if let Node::Dir(d) = &n.node {
                if n.nlink > 0 && d.values().any(|v| *v == i) {
                    return Some(k);
                }
            }
        }
        None
    }
    pub fn resolve(&self, path: &[u8], follow: bool) -> Result<Ino, Errno> {
        let mut d = 0;
        self.walk(self.cwd, path, follow, &mut d)?.2.ok_or(ENOENT)
    }
    pub fn resolve_at(&self, base: Ino, path: &[u8], follow: bool) -> Result<Ino, Errno> {
        let mut d = 0;
        self.walk(base, path, follow, &mut d)?.2.ok_or(ENOENT)
    }
    pub fn resolve_parent(&self, path: &[u8], follow: bool) -> Result<(Ino, Vec<u8>, Option<Ino>), Errno> {
        let mut d = 0;
        self.walk(self.cwd, path, follow, &mut d)
    }
    pub fn canonical(&self, i: Ino) -> Vec<u8> {
        if i == ROOT {
            return b"/".to_vec();
        }
        for (k, n) in self.inodes.iter().enumerate() {
            if let Node::Dir(d) = &n.node {
                if let Some((name, _)) = d.iter().find(|(_, v)| **v == i) {
                    let mut p = self.canonical(k);
                    if p.last() != Some(&b'/') {
                        p.push(b'/');
                    }
                    p.extend_from_slice(name);
                    return p;
                }
            }
        }
        b"/".to_vec()
    }

    // ---------------------------------------------------------------- inotify
    fn emit_to(&mut self, target: Ino, mask: u32, cookie: u32, name: Option<&[u8]>) {
        let limit = self.queue_limit;
        for (k, ins) in self.inst.iter_mut().enumerate() {
            if !ins.alive {
                continue;
            }
            let Some(&(wd, wmask)) = ins.watches.get(&target) else { continue };
            if mask & (wmask | IN_IGNORED | IN_UNMOUNT) & 0xffff == 0 {
                continue;
            }
            let ev = Ev { wd, mask, cookie, name: name.map(|n| n.to_vec()) };
            if ins.queue.back() == Some(&ev) {
                continue; // the kernel coalesces identical neighbours
            }
            if ins.queue.len() >= limit {
                if ins.queue.back().map(|e| e.mask) != Some(IN_Q_OVERFLOW) {
                    ins.queue.push_back(Ev { wd: -1, mask: IN_Q_OVERFLOW, cookie: 0, name: None });
                    ins.overflowed += 1;
                }
            } else {
                ins.queue.push_back(ev);
                ins.delivered += 1;
            }
            if !self.dirty.contains(&k) {
                self.dirty.push(k);
            }
        }
    }
    /// event on a child: parent's watch (with name) first, then the inode's own watch
    pub fn emit_child(&mut self, parent: Ino, name: &[u8], ino: Ino, mask: u32) {
        let isdir = if self.is_dir(ino) { IN_ISDIR } else { 0 };
        self.emit_to(parent, mask | isdir, 0, Some(name));
        self.emit_to(ino, mask | isdir, 0, None);
    }
    pub fn drop_watch(&mut self, ino: Ino) {
        for (k, ins) in self.inst.iter_mut().enumerate() {
            if let Some((wd, _)) = ins.watches.remove(&ino) {
                ins.queue.push_back(Ev { wd, mask: IN_IGNORED, cookie: 0, name: None });
                if !self.dirty.contains(&k) {
                    self.dirty.push(k);
                }
            }
        }
    }
    pub fn maybe_gone(&mut self, ino: Ino) {
        let n = &mut self.inodes[ino];
        if n.nlink == 0 && n.opens == 0 && !n.gone_reported {
            n.gone_reported = true;
            let isdir = if self.is_dir(ino) { IN_ISDIR } else { 0 };
            let _ = isdir; // DELETE_SELF carries no ISDIR in practice
            self.emit_to(ino, IN_DELETE_SELF, 0, None);
            self.drop_watch(ino);
        }
    }
    pub fn new_inotify(&mut self) -> usize {
        self.inst.push(Inotify { alive: true, watches: BTreeMap::new(), next_wd: 1, queue: VecDeque::new(), overflowed: 0, delivered: 0 });
        self.inst.len() - 1
    }
    pub fn add_watch(&mut self, inst: usize, path: &[u8], mask: u32) -> Result<i32, Errno> {
        let follow = mask & IN_DONT_FOLLOW == 0;
        let ino = self.resolve(path, follow)?;
        if self.inodes[ino].mode & 0o400 == 0 {
            return Err(EACCES);
        }
        let ins = &mut self.inst[inst];
        let m = mask & 0xfff;
        if let Some(w) = ins.watches.get_mut(&ino) {
            if mask & IN_MASK_ADD != 0 {
                w.1 |= m;
            } else {
                w.1 = m;
            }
            return Ok(w.0);
        }
        let wd = ins.next_wd;
        ins.next_wd += 1;
        ins.watches.insert(ino, (wd, m));
        Ok(wd)
    }
    pub fn rm_watch(&mut self, inst: usize, wd: i32) -> Result<(), Errno> {
        let ins = &mut self.inst[inst];
        let Some((&ino, _)) = ins.watches.iter().find(|(_, v)| v.0 == wd) else { return Err(EINVAL) };
        ins.watches.remove(&ino);
        ins.queue.push_back(Ev { wd, mask: IN_IGNORED, cookie: 0, name: None });
        if !self.dirty.contains(&inst) {
            self.dirty.push(inst);
        }
        Ok(())
    }

    // ---------------------------------------------------------------- mutations
    pub fn mkdir(&mut self, path: &[u8]) -> Result<Ino, Errno> {
        let (p, name, ex) = self.resolve_parent(path, false)?;
        if ex.is_some() {
            return Err(EEXIST);
        }
        self.mutations += 1;
        let i = self.alloc(Node::Dir(BTreeMap::new()), S_DIR);
        self.dir_mut(p).insert(name.clone(), i);
        self.emit_to(p, IN_CREATE | IN_ISDIR, 0, Some(&name));
        Ok(i)
    }
    pub fn mkdir_p(&mut self, path: &[u8]) -> Result<(), Errno> {
        let mut cur = Vec::new();
        for c in path.split(|c| *c == b'/').filter(|c| !c.is_empty()) {
            cur.push(b'/');
            cur.extend_from_slice(c);
            match self.mkdir(&cur) {
                Ok(_) | Err(EEXIST) => {}
                Err(e) => return Err(e),
            }
        }
        Ok(())
    }
    /// open for writing, creating if needed; emits CREATE. Returns (inode, parent, name)
    pub fn create(&mut self, path: &[u8], trunc: bool) -> Result<(Ino, Ino, Vec<u8>), Errno> {
        let (p, name, ex) = self.resolve_parent(path, true)?;
        let i = match ex {
            Some(i) => {
                match &self.inodes[i].node {
                    Node::File(_) => {}
                    Node::Dir(_) => return Err(EISDIR),
                    _ => return Err(ENXIO),
                }
                if trunc {
                    let had = match &mut self.inodes[i].node {
                        Node::File(d) => {
                            let had = !d.is_empty();
                            d.clear();
                            had
                        }
                        _ => false,
                    };
                    if had {
                        self.mutations += 1;
                    }
                    // O_TRUNC reports a modification even for empty files
                    self.emit_child(p, &name, i, IN_MODIFY);
                }
                i
            }
            None => {
                self.mutations += 1;
                let i = self.alloc(Node::File(vec![]), S_FILE);
                self.dir_mut(p).insert(name.clone(), i);
                self.emit_to(p, IN_CREATE, 0, Some(&name));
                i
            }
        };
        self.emit_child(p, &name, i, IN_OPEN);
        Ok((i, p, name))
    }
    pub fn append(&mut self, i: Ino, p: Ino, name: &[u8], data: &[u8]) {
        if data.is_empty() {
            return;
        }
        if let Node::File(d) = &mut self.inodes[i].node {
            d.extend_from_slice(data);
        }
        self.mutations += 1;
        self.emit_child(p, name, i, IN_MODIFY);
    }
    pub fn close_write(&mut self, i: Ino, p: Ino, name: &[u8]) {
        self.emit_child(p, name, i, IN_CLOSE_WRITE);
    }
    pub fn write_all(&mut self, path: &[u8], data: &[u8]) -> Result<(), Errno> {
        let (i, p, n) = self.create(path, true)?;
        self.append(i, p, &n, data);
        self.close_write(i, p, &n);
        Ok(())
    }
    pub fn symlink(&mut self, target: &[u8], path: &[u8]) -> Result<(), Errno> {
        let (p, name, ex) = self.resolve_parent(path, false)?;
        if ex.is_some() {
            return Err(EEXIST);
        }
        self.mutations += 1;
        let i = self.alloc(Node::Link(target.to_vec()), 0o777);
        self.dir_mut(p).insert(name.clone(), i);
        self.emit_to(p, IN_CREATE, 0, Some(&name));
        Ok(())
    }
    pub fn mkfifo(&mut self, path: &[u8]) -> Result<(), Errno> {
        let (p, name, ex) = self.resolve_parent(path, false)?;
        if ex.is_some() {
            return Err(EEXIST);
        }
        self.mutations += 1;
        let i = self.alloc(Node::Fifo, S_FILE);
        self.dir_mut(p).insert(name.clone(), i);
        self.emit_to(p, IN_CREATE, 0, Some(&name));
        Ok(())
    }
    pub fn unlink(&mut self, path: &[u8]) -> Result<(), Errno> {
        let (p, name, ex) = self.resolve_parent(path, false)?;
        let Some(i) = ex else { return Err(ENOENT) };
        if self.is_dir(i) {
            return Err(EISDIR);
        }
        self.mutations += 1;
        self.dir_mut(p).remove(&name);
        self.inodes[i].nlink -= 1;
        self.emit_to(i, IN_ATTRIB, 0, None);
        self.emit_to(p, IN_DELETE, 0, Some(&name));
        self.maybe_gone(i);
        Ok(())
    }
    pub fn rmdir(&mut self, path: &[u8]) -> Result<(), Errno> {
        let (p, name, ex) = self.resolve_parent(path, false)?;
        let Some(i) = ex else { return Err(ENOENT) };
        match self.dir(i) {
            None => return Err(ENOTDIR),
            Some(d) if !d.is_empty() => return Err(ENOTEMPTY),
            _ => {}
        }
        self.mutations += 1;
        self.dir_mut(p).remove(&name);
        self.inodes[i].nlink = 0;
        self.emit_to(p, IN_DELETE | IN_ISDIR, 0, Some(&name));
        self.maybe_gone(i);
        Ok(())
    }
    pub fn rename(&mut self, from: &[u8], to: &[u8]) -> Result<(), Errno> {
        let (fp, fname, fex) = self.resolve_parent(from, false)?;
        let Some(fi) = fex else { return Err(ENOENT) };
        let (tp, tname, tex) = self.resolve_parent(to, false)?;
        if fname == b"." || fname == b".." || tname == b"." || tname == b".." || tname.is_empty() || fname.is_empty() {
            return Err(EBUSY);
        }
        if let Some(ti) = tex {
            if ti == fi {
                return Ok(());
            }
            match (self.is_dir(fi), self.is_dir(ti)) {
                (true, false) => return Err(ENOTDIR),
                (false, true) => return Err(EISDIR),
                (true, true) if !self.dir(ti).unwrap().is_empty() => return Err(ENOTEMPTY),
                _ => {}
            }
        }
        // moving a directory below itself
        if self.is_dir(fi) {
            let mut a = Some(tp);
            while let Some(x) = a {
                if x == fi {
                    return Err(EINVAL);
                }
                a = if x == ROOT { None } else { self.parent_of(x) };
            }
        }
        self.mutations += 1;
        self.dir_mut(fp).remove(&fname);
        self.dir_mut(tp).insert(tname.clone(), fi);
        let cookie = self.next_cookie;
        self.next_cookie += 1;
        let isdir = if self.is_dir(fi) { IN_ISDIR } else { 0 };
        self.emit_to(fp, IN_MOVED_FROM | isdir, cookie, Some(&fname));
        self.emit_to(tp, IN_MOVED_TO | isdir, cookie, Some(&tname));
        if let Some(ti) = tex {
            if self.is_dir(ti) {
                self.inodes[ti].nlink = 0;
            } else {
                self.inodes[ti].nlink -= 1;
                self.emit_to(ti, IN_ATTRIB, 0, None);
            }
        }
        self.emit_to(fi, IN_MOVE_SELF, 0, None);
        if let Some(ti) = tex {
            self.maybe_gone(ti);
        }
        Ok(())
    }
    pub fn chmod(&mut self, path: &[u8], mode: u32) -> Result<(), Errno> {
        let (p, name, ex) = self.resolve_parent(path, true)?;
        let Some(i) = ex else { return Err(ENOENT) };
        self.mutations += 1;
        self.inodes[i].mode = mode;
        self.emit_child(p, &name, i, IN_ATTRIB);
        Ok(())
    }
    pub fn read_file(&self, path: &[u8]) -> Result<Vec<u8>, Errno> {
        let i = self.resolve(path, true)?;
        match &self.inodes[i].node {
            Node::File(d) => Ok(d.clone()),
            Node::Dir(_) => Err(EISDIR),
            _ => Err(ENXIO),
        }
    }
    pub fn stat_mode(&self, i: Ino) -> (u32, u64) {
        let n = &self.inodes[i];
        let (t, sz) = match &n.node {
            Node::Dir(_) => (S_IFDIR, 4096),
            Node::File(d) => (S_IFREG, d.len() as u64),
            Node::Link(t) => (S_IFLNK, t.len() as u64),
            Node::Fifo => (S_IFIFO, 0),
        };
        (t | n.mode, sz)
    }
    /// All paths below `path` (depth first, lstat semantics): (path, kind char, content)
    pub fn dump(&self, path: &[u8]) -> Vec<(Vec<u8>, char, Vec<u8>)> {
        let mut out = vec![];
        if let Ok(i) = self.resolve(path, true) {
            self.dump_in(path.to_vec(), i, &mut out);
        }
        out
    }
    fn dump_in(&self, path: Vec<u8>, i: Ino, out: &mut Vec<(Vec<u8>, char, Vec<u8>)>) {
        match &self.inodes[i].node {
            Node::Dir(d) => {
                out.push((path.clone(), 'd', vec![]));
                for (n, c) in d {
                    let mut p = path.clone();
                    p.push(b'/');
                    p.extend_from_slice(n);
                    self.dump_in(p, *c, out);
                }
            }
            Node::File(d) => out.push((path, 'f', d.clone())),
            Node::Link(t) => out.push((path, 'l', t.clone())),
            Node::Fifo => out.push((path, 'p', vec![])),
        }
    }
}
