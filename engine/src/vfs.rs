//! In-memory files for code that reads and writes dictionaries.
use crate::state::Obj;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

#[derive(Clone, Default)]
pub struct Vfs {
    pub files: BTreeMap<String, Rc<Obj>>,
    pub dirs: BTreeSet<String>,
    pub fds: Vec<Option<Fd>>,
    /// what the standard streams are redirected to
    pub std: [Option<u64>; 3],
}
#[derive(Clone)]
pub struct Fd { pub path: String, pub pos: usize, pub dir: bool }

impl Vfs {
    pub fn norm(p: &str) -> String {
        let mut v: Vec<&str> = vec![];
        for c in p.split('/') { match c { "" | "." => {} ".." => { v.pop(); } c => v.push(c) } }
        format!("/{}", v.join("/"))
    }
    pub fn is_dir(&self, p: &str) -> bool { p == "/" || p == "/tmp" || self.dirs.contains(p) }
    pub fn exists(&self, p: &str) -> bool { self.is_dir(p) || self.files.contains_key(p) }
}
