PROPERTY = 'C16'
NEEDS = 'nested roots registered with the outer one first, a document below the inner one, closed after its file was deleted (or never saved)'
BREAKS = 'the closed document is only removed from the first root that contains its path, so the inner root goes on listing a file that does not exist'
EDITS = [(W, "                workspace.entries.unload_file(vfs, p);\n", "                workspace.entries.unload_file(vfs, p);\n                break;\n")]
MAIN = PRELUDE + r'''
fn main() {
    let d = scratch();
    let o = format!("{d}/outer");
    let i = format!("{o}/lib");
    write(&format!("{i}/a.py"), "1");
    for first in [&o, &i] {
        let second = if first == &o { &i } else { &o };
        let mut s = S::new(&[(first, T), (second, T)]);
        let n = format!("{i}/n.py");
        s.open(&n, "x");
        s.close(&n);
        s.settle();
        let ws = s.vfs.workspaces.load();
        let w = ws.iter().find(|w| **w.root_path() == *i).unwrap();
        if w.entries.search("a.py").is_none() {
            fail("the file is lost");
        }
        if let Some(e) = w.entries.search("n.py") {
            if matches!(&*e, DirectoryEntry::File(_)) {
                fail("a file that does not exist is listed");
            }
        }
    }
}
'''
