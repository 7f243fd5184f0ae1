PROPERTY = 'C09'
NEEDS = 'the same directory registered twice with different kinds (a source root that is also listed in the search path)'
BREAKS = 'the directory becomes two roots with separate trees'
EDITS = [(W, "items.iter().any(|item| item.root_path == root)", "items.iter().any(|item| item.root_path == root && item.kind == kind)")]
MAIN = PRELUDE + r'''
fn main() {
    let d = scratch();
    write(&format!("{d}/main/a.py"), "x");
    write(&format!("{d}/lib/a.py"), "x");
    let s = S::new(&[(&format!("{d}/main"), T)]);
    let p = s.vfs.handler.normalize_unchecked_abs_path(&format!("{d}/lib"));
    let one = s.vfs.add_workspace_without_full_access(p.clone(), WorkspaceKind::SitePackages);
    let two = s.vfs.add_workspace_without_full_access(p, T);
    let n = s.vfs.workspaces.load().iter().filter(|w| w.root_path().to_string() == format!("{d}/lib")).count();
    if !one || two || n != 1 {
        fail(&format!("registered {n} times ({one}, {two})"));
    }
}
'''
