PROPERTY = 'C04'
NEEDS = 'a chain of three files that build on each other, the middle one open in the editor, and a change of the last one'
BREAKS = 'the change is reported for the open document and not passed on to the files that build on it'
EDITS = [(V, "        if let InvalidationDetail::Some(invs) = &*new_invalidations.borrow() {\n            for invalidation in invs {\n                let p = &self.file_state(*invalidation)", "        let path = self.file_state(invalid_index).path.clone();\n        if self.in_memory_files.contains_key(&path) {\n            self.handler.on_invalidated_in_memory_file(path);\n            return InvalidationResult::InvalidatedFiles;\n        }\n        if let InvalidationDetail::Some(invs) = &*new_invalidations.borrow() {\n            for invalidation in invs {\n                let p = &self.file_state(*invalidation)")]
MAIN = PRELUDE + r'''
fn main() {
    let d = scratch();
    let [a, b, c] = ["a", "b", "c"].map(|n| format!("{d}/{n}.py"));
    write(&a, "import b");
    write(&b, "import c");
    write(&c, "1");
    let mut s = S::new(&[(&d, T)]);
    s.open(&b, "import c");
    let [ia, ib, _] = [&a, &b, &c].map(|p| s.index(p).unwrap());
    s.entry(&b).unwrap().add_invalidation(ia);
    s.entry(&c).unwrap().add_invalidation(ib);
    write(&c, "2");
    s.settle();
    if s.vfs.file(ia).is_some_and(|f| !f.stale) {
        fail("a file that depends on the changed one was not told");
    }
}
'''
