PROPERTY = 'C04'
NEEDS = 'an import of a name for which there is a file without an extension (a script), which is then replaced by a package of that name'
BREAKS = 'the importing file is not recomputed and goes on reporting a missing module'
EDITS = [(TR, "                    DirectoryEntry::File(file) => file.invalidations.add(invalidates),\n", "                    DirectoryEntry::File(file) if file.name.ends_with(\".py\") => {\n                        file.invalidations.add(invalidates)\n                    }\n                    DirectoryEntry::File(_) => (),\n")]
MAIN = PRELUDE + r'''
fn main() {
    let d = scratch();
    let a = format!("{d}/a.py");
    write(&a, "import q\n");
    write(&format!("{d}/q"), "#!/bin/sh\n");
    let mut s = S::new(&[(&d, T)]);
    let i = s.index(&a).unwrap();
    {
        // a.py imports q, which is no module
        let w = s.vfs.workspaces.load();
        let w = w.iter().next().unwrap();
        let mut missing = w.entries.add_missing_entry_callback(i);
        for n in ["q.py", "q.pyi", "q"] {
            missing(n)
        }
    }
    std::fs::remove_file(format!("{d}/q")).unwrap();
    write(&format!("{d}/q/__init__.py"), "x\n");
    s.settle();
    if s.vfs.file(i).is_some_and(|f| !f.stale) {
        fail("the file that imports the new package was not told");
    }
}
'''
