//! Records what the database does to its files and rebuilds the files as a crash at any point would leave them.
use axmosdb::verif::tap::{set_sink, IoEvent};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::{Mutex, atomic::{AtomicUsize, Ordering}};

#[derive(Clone, Debug)]
pub enum Op { Create, Write(u64, Vec<u8>), Len(u64), Sync, Remove }
#[derive(Clone, Debug)]
pub struct Ev { pub file: String, pub op: Op }

static TAPES: Mutex<Vec<(PathBuf, Vec<Ev>)>> = Mutex::new(Vec::new());
static MAIN: AtomicUsize = AtomicUsize::new(0);
/// Events on the main tape so far.
pub fn now() -> usize { MAIN.load(Ordering::SeqCst) }

/// Starts recording the files of `dir`; the first tape is the main one.
pub fn record(dir: &Path) {
    let mut t = TAPES.lock().unwrap();
    if t.is_empty() { MAIN.store(0, Ordering::SeqCst); }
    t.push((dir.to_path_buf(), Vec::new()));
    drop(t);
    set_sink(Some(Box::new(|e| {
        let (path, op) = match e {
            IoEvent::Create { path } => (*path, Op::Create),
            IoEvent::Write { path, offset, data } => (*path, Op::Write(*offset, data.to_vec())),
            IoEvent::SetLen { path, len } => (*path, Op::Len(*len)),
            IoEvent::Sync { path } => (*path, Op::Sync),
            IoEvent::Remove { path } => (*path, Op::Remove),
        };
        let mut t = TAPES.lock().unwrap();
        if let Some(i) = t.iter().position(|(d, _)| path.parent() == Some(d.as_path())) {
            t[i].1.push(Ev { file: path.file_name().unwrap().to_string_lossy().into(), op });
            if i == 0 { MAIN.store(t[0].1.len(), Ordering::SeqCst); }
        }
    })));
}
/// Stops recording a folder and gives its tape.
pub fn take(dir: &Path) -> Vec<Ev> {
    let mut t = TAPES.lock().unwrap();
    let Some(i) = t.iter().position(|(d, _)| d == dir) else { return Vec::new() };
    let r = t.remove(i).1;
    if t.is_empty() { drop(t); set_sink(None); }
    r
}
pub fn peek(dir: &Path) -> Vec<Ev> { TAPES.lock().unwrap().iter().find(|(d, _)| d == dir).map(|x| x.1.clone()).unwrap_or_default() }
pub fn clear() { TAPES.lock().unwrap().clear(); set_sink(None); MAIN.store(0, Ordering::SeqCst); }

#[derive(Clone, Default, PartialEq)]
pub struct Image(pub BTreeMap<String, Vec<u8>>);
impl Image {
    pub fn apply(&mut self, e: &Ev) {
        match &e.op {
            Op::Create => { self.0.insert(e.file.clone(), Vec::new()); }
            Op::Write(at, d) => { let f = self.0.entry(e.file.clone()).or_default(); let end = *at as usize + d.len(); if f.len() < end { f.resize(end, 0); } f[*at as usize..end].copy_from_slice(d); }
            Op::Len(n) => { self.0.entry(e.file.clone()).or_default().resize(*n as usize, 0); }
            Op::Sync => {}
            Op::Remove => { self.0.remove(&e.file); }
        }
    }
    pub fn of(dir: &Path) -> std::io::Result<Image> {
        let mut m = BTreeMap::new();
        for f in std::fs::read_dir(dir)? { let f = f?; if f.file_type()?.is_file() { m.insert(f.file_name().to_string_lossy().into(), std::fs::read(f.path())?); } }
        Ok(Image(m))
    }
    pub fn write(&self, dir: &Path) -> std::io::Result<()> {
        let _ = std::fs::remove_dir_all(dir);
        std::fs::create_dir_all(dir)?;
        for (n, d) in &self.0 { std::fs::write(dir.join(n), d)?; }
        Ok(())
    }
    pub fn differs(&self, o: &Image) -> Option<String> {
        for n in self.0.keys().chain(o.0.keys()) { if self.0.get(n) != o.0.get(n) { return Some(n.clone()); } }
        None
    }
}
