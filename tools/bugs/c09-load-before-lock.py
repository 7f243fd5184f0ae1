PROPERTY = 'C09'
NEEDS = 'two threads that register different source roots at the same time, one of them waiting for the lock while the other stores its list'
BREAKS = 'the list of roots is read before the write lock is taken, so the later store drops the root registered in between'
EDITS = [(W, "        let _lock = self.items_write_lock.lock().unwrap();\n        let items = self.items.load();\n", "        let items = self.items.load();\n        let _lock = self.items_write_lock.lock().unwrap();\n")]
MAIN = PRELUDE + r'''
fn main() {
    let d = scratch();
    for t in 0..8 {
        for k in 0..12 {
            write(&format!("{d}/t{t}_{k}/a.py"), "x\n");
        }
    }
    write(&format!("{d}/main/a.py"), "x\n");
    for _ in 0..15 {
        let s = S::new(&[(&format!("{d}/main"), T)]);
        std::thread::scope(|sc| {
            for t in 0..8 {
                let (s, d) = (&s.vfs, &d);
                sc.spawn(move || {
                    for k in 0..12 {
                        let p = s.handler.normalize_unchecked_abs_path(&format!("{d}/t{t}_{k}"));
                        assert!(s.add_workspace_without_full_access(p, WorkspaceKind::SitePackages));
                    }
                });
            }
        });
        for t in 0..8 {
            for k in 0..12 {
                let r = format!("{d}/t{t}_{k}");
                let n = s.vfs.workspaces.load().iter().filter(|w| w.root_path().to_string() == r).count();
                if n != 1 {
                    fail(&format!("{r} is registered {n} times"));
                }
            }
        }
    }
}
'''
