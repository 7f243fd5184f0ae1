PROPERTY = 'C06'
NEEDS = 'a panic, then a change of a file on which the whole project depends, which is also open in the editor'
BREAKS = 'after the recovery the file is no longer known to affect everything'
EDITS = [(V, "                        recoverable_file.invalidates_db,\n                        |file_index| new_file", "                        recoverable_file.invalidates_db && !recoverable_file.is_in_memory_file,\n                        |file_index| new_file")]
MAIN = PRELUDE + r'''
fn main() {
    let d = scratch();
    let b = format!("{d}/builtins.pyi");
    write(&b, "x\n");
    let mut s = S::new(&[(&d, WorkspaceKind::Typeshed)]);
    let e = s.entry(&b).unwrap();
    s.vfs.ensure_file_for_file_entry(e, true, |_, c| f(&*c)).unwrap();
    s.open(&b, "x\n");
    let changed = s.changed.clone();
    let rec = s.vfs.into_panic_recovery();
    let mut vfs = make(&[(&d, WorkspaceKind::Typeshed)], &changed);
    vfs.load_panic_recovery(true, rec, |_, _, c| f(c));
    let s = S { vfs, changed };
    let mut s = s;
    let p = s.pws(&b);
    let (_, r) = s.vfs.store_in_memory_file(true, p, "y\n".into(), |_, _, c| f(&*c));
    if r != InvalidationResult::InvalidatedDb {
        fail("a change of the core file no longer affects everything");
    }
}
'''
