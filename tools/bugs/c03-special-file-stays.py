PROPERTY = 'C03'
NEEDS = 'a file is replaced by something of the same name that is no part of a project (a named pipe), before its removal was noticed'
BREAKS = 'the removed file is still shown with its old text'
EDITS = [(V, """                            tracing::debug!("Decided to remove {replace_name} from VFS");
""", """                            if std::fs::symlink_metadata(path).is_ok() {
                                tracing::debug!("{path} exists, its content will be reported");
                                return;
                            }
                            tracing::debug!("Decided to remove {replace_name} from VFS");
""")]
MAIN = PRELUDE + r'''
fn main() {
    let d = scratch();
    let f = format!("{d}/a.py");
    write(&f, "x\n");
    let mut s = S::new(&[(&d, T)]);
    if s.text(&f).as_deref() != Some("x\n") {
        fail("the file is not shown");
    }
    std::fs::remove_file(&f).unwrap();
    assert!(std::process::Command::new("mkfifo").arg(&f).status().unwrap().success());
    s.settle();
    if s.entry(&f).is_some() {
        fail("the file is shown although it does not exist anymore");
    }
}
'''
