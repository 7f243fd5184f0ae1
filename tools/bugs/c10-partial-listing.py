PROPERTY = 'C10'
NEEDS = 'a link in a directory that cannot be followed (a cycle or a dangling one)'
BREAKS = 'one broken link makes the whole directory empty'
EDITS = [(L, """                                        tracing::warn!("Follow symlink error, path={p:?}: {err}");
                                        continue;""", """                                        tracing::warn!("Follow symlink error, path={p:?}: {err}");
                                        return Entries::default();""")]
MAIN = PRELUDE + r'''
fn main() {
    let d = scratch();
    write(&format!("{d}/a.py"), "x");
    std::os::unix::fs::symlink("loop.py", format!("{d}/loop.py")).unwrap();
    let s = S::new(&[(&d, T)]);
    if s.text(&format!("{d}/a.py")).as_deref() != Some("x") {
        fail("a.py is treated as absent");
    }
}
'''
