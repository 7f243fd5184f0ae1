//! The client's notion of a source file: text, imports, and results derived from imports.
use std::sync::{Arc, RwLock};
use vfs::{FileIndex, VfsFile};

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    File(FileIndex),
    Namespace(Vec<String>),
    Missing,
}

#[derive(Debug)]
pub struct ModelFile {
    pub index: FileIndex,
    pub code: String,
    pub imports: Vec<String>,
    /// what each import statement refers to, computed once until invalidated
    pub direct: RwLock<Option<Arc<Vec<(String, Res)>>>>,
    /// everything derived from this file and what it imports, transitively
    pub derived: RwLock<Option<Arc<String>>>,
    /// how often results were dropped
    pub invalidated: u32,
    /// has a sub file
    pub sub: std::sync::atomic::AtomicBool,
}
impl Clone for ModelFile {
    fn clone(&self) -> Self {
        ModelFile::new(self.index, self.code.clone())
    }
}

impl ModelFile {
    pub fn new(index: FileIndex, code: String) -> Self {
        let imports = code.lines().filter_map(|l| l.strip_prefix("import ")).map(|s| s.trim().to_string()).collect();
        ModelFile { index, code, imports, direct: RwLock::new(None), derived: RwLock::new(None), invalidated: 0, sub: Default::default() }
    }
    pub fn reset(&mut self) {
        *self.direct.get_mut().unwrap() = None;
        *self.derived.get_mut().unwrap() = None;
        self.invalidated += 1;
    }
}

impl VfsFile for ModelFile {
    type Artifacts = String;
    fn code(&self) -> &str {
        &self.code
    }
    fn into_recoverable_artifacts(self) -> String {
        self.code
    }
    fn invalidate_references_to(&mut self, _: Option<FileIndex>) {
        self.reset();
    }
}
