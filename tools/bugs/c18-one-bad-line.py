PROPERTY = 'C18'
NEEDS = 'a .gitignore with a line that is no valid pattern (an open brace), typed in the editor or on disk'
BREAKS = 'the rules after the broken line are dropped, so ignored files are checked'
EDITS = [(TR, """                        "Error when parsing .gitignore {path:?} on line {lineno}: {err}"
                    );
""", """                        "Error when parsing .gitignore {path:?} on line {lineno}: {err}"
                    );
                    break;
""")]
MAIN = PRELUDE + r'''
fn ignored(s: &S, file: &str) -> bool {
    let p = s.pws(file);
    let w = s.vfs.workspaces.load();
    let w = w.iter().next().unwrap();
    let e = w.entries.borrow();
    e.iter().any(|(_, e)| matches!(e, DirectoryEntry::Gitignore(g) if g.is_path_ignored(&p, false)))
}
fn main() {
    let d = scratch();
    let f = format!("{d}/a.py");
    let g = format!("{d}/.gitignore");
    write(&f, "x\n");
    write(&g, "b.py\n{x\na.py\n");
    let mut s = S::new(&[(&d, T)]);
    if !ignored(&s, &f) {
        fail("the rules on disk are not followed");
    }
    s.open(&g, "[z-a]\na.py\n");
    if !ignored(&s, &f) {
        fail("the rules of the document are not followed");
    }
}
'''
