PROPERTY = 'C04'
NEEDS = 'a file imports a package that does not exist; then a document is opened in the directory of that package'
BREAKS = 'files that failed to import the missing directory are not recomputed when a document creates it'
EDITS = [(W, """                    invs = missing.invalidations.take();
                    drop(x);
                    entries.remove_name(name);""", """                    drop(x);
                    entries.remove_name(name);""")]
MAIN = PRELUDE + r'''
fn main() {
    let d = scratch();
    let a = format!("{d}/a.py");
    write(&a, "import q\n");
    let mut s = S::new(&[(&d, T)]);
    let i = s.index(&a).unwrap();
    {
        // what import resolution does when nothing is found
        let e = s.entry(&a).unwrap();
        e.parent.with_entries(&s.vfs, |entries| {
            let mut add = entries.add_missing_entry_callback(i);
            for n in ["q", "q.py", "q.pyi"] {
                add(n);
            }
        });
    }
    s.open(&format!("{d}/q/__init__.py"), "x\n");
    if !s.vfs.file(i).unwrap().stale {
        fail("a.py still has the result of the failed import");
    }
}
'''
