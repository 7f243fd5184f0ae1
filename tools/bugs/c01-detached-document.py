PROPERTY = 'C01'
NEEDS = 'a directory with an open document and no other loaded file is removed and created again by another program'
BREAKS = 'open documents of a replaced directory are only attached again if some other file was unloaded'
EDITS = [(V, """        // After unloading in memory files (especially it they are within unloaded directories need
        // to be ensured).
""", """        // After unloading in memory files (especially it they are within unloaded directories need
        // to be ensured). Without any unloaded file no directory was replaced.
        if unload_len == 0 {
            ensure_unloaded_in_memory_paths.clear();
        }
""")]
MAIN = PRELUDE + r'''
fn main() {
    let d = scratch();
    let doc = format!("{d}/p/a.py");
    write(&doc, "disk\n");
    let mut s = S::new(&[(&d, T)]);
    s.open(&doc, "editor\n");
    if s.text(&doc).as_deref() != Some("editor\n") {
        fail("the document is not shown");
    }
    std::fs::remove_dir_all(format!("{d}/p")).unwrap();
    write(&doc, "disk 2\n");
    s.settle();
    if s.text(&doc).as_deref() != Some("editor\n") {
        fail(&format!("the open document shows {:?}", s.text(&doc)));
    }
}
'''
