//! Stands in for RocksDB: what was written is kept by path, calls are counted, and one of them can be made to fail or to
//! be the moment of a crash. A crash loses what was written without a log; a batch is applied as a whole.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};

pub type Map = BTreeMap<Vec<u8>, Vec<u8>>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Error(String);
impl Error {
    pub fn into_string(self) -> String {
        self.0
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
impl std::error::Error for Error {}
impl AsRef<str> for Error {
    fn as_ref(&self) -> &str {
        &self.0
    }
}
impl From<Error> for String {
    fn from(e: Error) -> String {
        e.0
    }
}

/// What a test does to the database.
pub mod sim {
    use super::*;

    #[derive(Clone, Copy, PartialEq, Debug)]
    pub enum Fault {
        Fails,
        Crash,
    }
    #[derive(Default)]
    pub struct State {
        pub disk: HashMap<PathBuf, Map>,
        pub calls: u64,
        pub fault: Option<(u64, Fault)>,
        pub crashed: bool,
    }
    thread_local! { pub static STATE: RefCell<State> = RefCell::new(State::default()); }

    pub struct Crashed;

    /// the next call with this number is struck
    pub fn arm(fault: Option<(u64, Fault)>) {
        STATE.with(|s| {
            let mut s = s.borrow_mut();
            s.calls = 0;
            s.fault = fault;
        })
    }
    /// whether the armed fault is still to come
    pub fn armed() -> bool {
        STATE.with(|s| s.borrow().fault.is_some())
    }
    pub fn disk(path: &Path) -> Map {
        STATE.with(|s| s.borrow().disk.get(path).cloned().unwrap_or_default())
    }
    pub fn set_disk(path: &Path, m: Map) {
        STATE.with(|s| s.borrow_mut().disk.insert(path.into(), m));
    }
    /// from now on nothing reaches the disk any more, until the next start
    pub fn pull_the_plug(off: bool) {
        STATE.with(|s| s.borrow_mut().crashed = off);
    }
    pub(crate) fn call() -> Result<(), Error> {
        let hit = STATE.with(|s| {
            let mut s = s.borrow_mut();
            let n = s.calls;
            s.calls += 1;
            match s.fault {
                Some((c, k)) if c == n => {
                    s.fault = None;
                    Some(k)
                }
                _ => None,
            }
        });
        match hit {
            None => Ok(()),
            Some(Fault::Fails) => Err(Error("injected".into())),
            Some(Fault::Crash) => {
                pull_the_plug(true);
                std::panic::panic_any(Crashed)
            }
        }
    }
}

#[derive(Clone, Default)]
pub struct WriteBatch {
    ops: Vec<(Vec<u8>, Option<Vec<u8>>)>,
}
impl WriteBatch {
    pub fn len(&self) -> usize {
        self.ops.len()
    }
    pub fn is_empty(&self) -> bool {
        self.ops.is_empty()
    }
    pub fn size_in_bytes(&self) -> usize {
        12 + self.ops.iter().map(|(k, v)| k.len() + v.as_ref().map_or(0, |v| v.len())).sum::<usize>()
    }
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&mut self, key: K, value: V) {
        self.ops.push((key.as_ref().into(), Some(value.as_ref().into())));
    }
    pub fn delete<K: AsRef<[u8]>>(&mut self, key: K) {
        self.ops.push((key.as_ref().into(), None));
    }
    pub fn clear(&mut self) {
        self.ops.clear();
    }
}

#[derive(Clone, Default)]
pub struct Options {
    _p: (),
}
impl Options {
    pub fn create_if_missing(&mut self, _: bool) {}
    pub fn set_use_fsync(&mut self, _: bool) {}
}
#[derive(Default)]
pub struct WriteOptions {
    no_log: bool,
}
impl WriteOptions {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn set_sync(&mut self, _: bool) {}
    pub fn disable_wal(&mut self, b: bool) {
        self.no_log = b;
    }
}
#[derive(Default)]
pub struct ReadOptions {
    _p: (),
}

pub struct DB {
    path: PathBuf,
    /// written without a log: lost in a crash
    loose: RefCell<BTreeMap<Vec<u8>, Option<Vec<u8>>>>,
}

impl DB {
    pub fn open_default<P: AsRef<Path>>(path: P) -> Result<DB, Error> {
        sim::call()?;
        Ok(DB { path: path.as_ref().into(), loose: RefCell::default() })
    }
    pub fn open<P: AsRef<Path>>(_: &Options, path: P) -> Result<DB, Error> {
        Self::open_default(path)
    }
    pub fn path(&self) -> &Path {
        &self.path
    }
    fn read(&self, key: &[u8]) -> Option<Vec<u8>> {
        if let Some(v) = self.loose.borrow().get(key) {
            return v.clone();
        }
        sim::STATE.with(|s| s.borrow().disk.get(&self.path).and_then(|m| m.get(key).cloned()))
    }
    fn change(&self, key: &[u8], value: Option<Vec<u8>>, no_log: bool) {
        if no_log {
            self.loose.borrow_mut().insert(key.into(), value);
            return;
        }
        self.loose.borrow_mut().remove(key);
        sim::STATE.with(|s| {
            let mut s = s.borrow_mut();
            if s.crashed {
                return;
            }
            let m = s.disk.entry(self.path.clone()).or_default();
            match value {
                Some(v) => m.insert(key.into(), v),
                None => m.remove(key),
            };
        })
    }
    pub fn get<K: AsRef<[u8]>>(&self, key: K) -> Result<Option<Vec<u8>>, Error> {
        sim::call()?;
        Ok(self.read(key.as_ref()))
    }
    pub fn get_pinned<K: AsRef<[u8]>>(&self, key: K) -> Result<Option<Vec<u8>>, Error> {
        self.get(key)
    }
    pub fn get_opt<K: AsRef<[u8]>>(&self, key: K, _: &ReadOptions) -> Result<Option<Vec<u8>>, Error> {
        self.get(key)
    }
    pub fn key_may_exist<K: AsRef<[u8]>>(&self, key: K) -> bool {
        self.read(key.as_ref()).is_some()
    }
    pub fn multi_get<K: AsRef<[u8]>, I: IntoIterator<Item = K>>(&self, keys: I) -> Vec<Result<Option<Vec<u8>>, Error>> {
        keys.into_iter().map(|k| self.get(k)).collect()
    }
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, key: K, value: V) -> Result<(), Error> {
        sim::call()?;
        self.change(key.as_ref(), Some(value.as_ref().into()), false);
        Ok(())
    }
    pub fn delete<K: AsRef<[u8]>>(&self, key: K) -> Result<(), Error> {
        sim::call()?;
        self.change(key.as_ref(), None, false);
        Ok(())
    }
    pub fn put_opt<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, key: K, value: V, o: &WriteOptions) -> Result<(), Error> {
        sim::call()?;
        self.change(key.as_ref(), Some(value.as_ref().into()), o.no_log);
        Ok(())
    }
    pub fn delete_opt<K: AsRef<[u8]>>(&self, key: K, o: &WriteOptions) -> Result<(), Error> {
        sim::call()?;
        self.change(key.as_ref(), None, o.no_log);
        Ok(())
    }
    pub fn write_opt(&self, batch: WriteBatch, o: &WriteOptions) -> Result<(), Error> {
        sim::call()?;
        for (k, v) in batch.ops {
            self.change(&k, v, o.no_log);
        }
        Ok(())
    }
    pub fn write(&self, batch: WriteBatch) -> Result<(), Error> {
        self.write_opt(batch, &WriteOptions::default())
    }
    pub fn write_without_wal(&self, batch: WriteBatch) -> Result<(), Error> {
        self.write_opt(batch, &WriteOptions { no_log: true })
    }
    pub fn flush(&self) -> Result<(), Error> {
        sim::call()?;
        for (k, v) in self.loose.take() {
            self.change(&k, v, false);
        }
        Ok(())
    }
}

impl Drop for DB {
    fn drop(&mut self) {
        // an orderly end leaves nothing behind
        for (k, v) in self.loose.take() {
            self.change(&k, v, false);
        }
    }
}
