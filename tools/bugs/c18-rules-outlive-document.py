PROPERTY = 'C18'
NEEDS = 'a .gitignore is open in the editor, its file is deleted (or was never saved), and the document is closed'
BREAKS = 'the rules of the closed document stay in force although there is no .gitignore anymore'
EDITS = [(V, """                        gitignore.parent.with_entries(self, |entries| {
                            entries.remove_name(".gitignore");
                        });
""", """                        // Not on disk, the watcher reports the removal.
                        tracing::debug!("Closed {:?} without a file", gitignore.parent);
""")]
MAIN = PRELUDE + r'''
fn ignored(s: &S, dir: &str, file: &str) -> bool {
    let p = s.pws(file);
    let w = s.vfs.workspaces.load();
    let w = w.iter().next().unwrap();
    let _ = dir;
    let e = w.entries.borrow();
    e.iter().any(|(_, e)| matches!(e, DirectoryEntry::Gitignore(g) if g.is_path_ignored(&p, false)))
}
fn main() {
    let d = scratch();
    let f = format!("{d}/a.py");
    let g = format!("{d}/.gitignore");
    write(&f, "x\n");
    write(&g, "a.py\n");
    let mut s = S::new(&[(&d, T)]);
    if !ignored(&s, &d, &f) {
        fail("the rules on disk are not followed");
    }
    s.open(&g, "a.py\nb.py\n");
    if !ignored(&s, &d, &f) {
        fail("the rules of the document are not followed");
    }
    std::fs::remove_file(&g).unwrap();
    s.settle();
    if !ignored(&s, &d, &f) {
        fail("the rules of the document are not followed although it is open");
    }
    s.close(&g);
    s.settle();
    if ignored(&s, &d, &f) {
        fail("there are no ignore rules, but the file is ignored");
    }
}
'''
