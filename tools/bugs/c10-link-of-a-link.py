PROPERTY = 'C10'
NEEDS = 'a chain of symbolic links where a later link is relative and lies in a different directory than the first one'
BREAKS = 'the target of the later link is looked up next to the first link, so a file that can be read is treated as absent'
EDITS = [(L, "        let target_path = resolve_link(path)?;\n", "        let target_path = resolve_link(path, origin_path)?;\n"),
(L, "fn resolve_link(path: &Path) -> Result<PathBuf, String> {", "fn resolve_link(path: &Path, origin_path: &Path) -> Result<PathBuf, String> {"),
(L, "        let Some(parent) = path.parent() else {\n            return Err(\"The link has no parent\"", "        let Some(parent) = origin_path.parent() else {\n            return Err(\"The link has no parent\""),
]
MAIN = PRELUDE + r'''
fn main() {
    let d = scratch();
    std::fs::create_dir_all(format!("{d}/w/p")).unwrap();
    std::fs::create_dir_all(format!("{d}/lib/q")).unwrap();
    write(&format!("{d}/lib/q/n.py"), "x");
    std::os::unix::fs::symlink("n.py", format!("{d}/lib/q/m.py")).unwrap();
    std::os::unix::fs::symlink("../../lib/q/m.py", format!("{d}/w/p/l.py")).unwrap();
    let s = S::new(&[(&format!("{d}/w"), T)]);
    let p = format!("{d}/w/p/l.py");
    if s.text(&p).as_deref() != Some("x") {
        fail(&format!("{p} is treated as absent"));
    }
}
'''
