PROPERTY = 'C16'
NEEDS = 'a root that is not type checked (a site-packages or stubs folder) below a root that is, walked through the outer one'
BREAKS = 'the inner root is read a second time as an ordinary directory, so that its files get two identities'
EDITS = [(L, """                    workspace.root_path.ends_with(&*dir.name) && {""", """                    workspace.is_type_checked() && workspace.root_path.ends_with(&*dir.name) && {""")]
MAIN = PRELUDE + r'''
fn main() {
    let d = scratch();
    let o = format!("{d}/outer");
    let i = format!("{o}/lib");
    write(&format!("{i}/a.py"), "1");
    let mut s = S::new(&[(&i, WorkspaceKind::SitePackages), (&o, T)]);
    // an import in the outer root leads to the file
    let dir = {
        let ws = s.vfs.workspaces.load();
        let ws = ws.iter().find(|w| **w.root_path() == *o).unwrap();
        let e = ws.entries.search("lib").unwrap();
        let DirectoryEntry::Directory(dir) = &*e else { fail("no directory") };
        dir.clone()
    };
    let through = |s: &S| {
        let inner = Directory::entries(&s.vfs, &dir);
        let e = inner.search("a.py").unwrap();
        let DirectoryEntry::File(f2) = &*e else { fail("no file") };
        s.vfs.ensure_file_for_file_entry(f2.clone(), false, |_, c| f(&*c)).unwrap()
    };
    let one = through(&s);
    if Some(one) != s.index(&format!("{i}/a.py")) {
        fail("the file has two identities");
    }
    write(&format!("{i}/a.py"), "2");
    s.settle();
    let two = through(&s);
    if s.vfs.file(two).map(|f| f.code.clone()).as_deref() != Some("2") {
        fail("the change is not seen");
    }
}
'''
