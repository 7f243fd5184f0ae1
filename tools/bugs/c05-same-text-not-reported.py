PROPERTY = 'C05'
NEEDS = 'opening a document whose file was loaded before (by an import) and has the same text'
BREAKS = 'the newly opened document is not reported, so nothing is ever published for it'
EDITS = [(V, """        self.handler.on_invalidated_in_memory_file(path.clone());
        let mut result = InvalidationResult::InvalidatedFiles;
        if let Some""", """        let mut result = InvalidationResult::InvalidatedFiles;
        if let Some"""), (V, """            result |= self.invalidate_and_unload_file(file_index);
        }

        let file_index = if""", """            result |= self.invalidate_and_unload_file(file_index);
        }
        self.handler.on_invalidated_in_memory_file(path.clone());

        let file_index = if""")]
MAIN = PRELUDE + r'''
fn main() {
    let d = scratch();
    let a = format!("{d}/a.py");
    write(&a, "x\n");
    let mut s = S::new(&[(&d, T)]);
    s.index(&a).unwrap();
    s.open(&a, "x\n");
    if !s.reported().contains(&a) {
        fail("the opened document was not reported");
    }
}
'''
