PROPERTY = 'C02'
NEEDS = 'closing a document without saving whose text differs from the file only in trailing white space'
BREAKS = 'the closed text stays in place of the disk text'
EDITS = [(V, "if Some(on_file_system_code.as_str()) != file_state.code() {", "if Some(on_file_system_code.trim_end()) != file_state.code().map(str::trim_end) {")]
MAIN = PRELUDE + r'''
fn main() {
    let d = scratch();
    let doc = format!("{d}/a.py");
    write(&doc, "x = 1\n");
    let mut s = S::new(&[(&d, T)]);
    s.open(&doc, "x = 1\n\n\n");
    s.close(&doc);
    if s.text(&doc).as_deref() != Some("x = 1\n") {
        fail(&format!("the closed document shows {:?}", s.text(&doc)));
    }
}
'''
