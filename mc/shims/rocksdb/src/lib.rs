//! A key-value store that keeps everything in memory, under the directory it was opened in.
//!
//! The directory gets a marker file; a directory without it is a new store, so deleting the
//! directory deletes the data. A store that is open cannot be opened again. [`fake`] fails writes.
use std::{
    collections::{BTreeMap, HashMap},
    fmt, fs,
    path::{Path, PathBuf},
    sync::{
        atomic::{AtomicU64, Ordering::SeqCst},
        Mutex, OnceLock, RwLock,
    },
};

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Error {
    message: String,
}
impl Error {
    fn new(m: impl Into<String>) -> Self {
        Self { message: m.into() }
    }
    pub fn into_string(self) -> String {
        self.message
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.message)
    }
}
impl std::error::Error for Error {}

#[derive(Default)]
pub struct Options {
    create: bool,
}
impl Options {
    pub fn create_if_missing(&mut self, create: bool) {
        self.create = create;
    }
    pub fn set_write_buffer_size(&mut self, _: usize) {}
    pub fn set_block_based_table_factory(&mut self, _: &BlockBasedOptions) {}
    pub fn set_max_open_files(&mut self, _: i32) {}
}
#[derive(Default)]
pub struct BlockBasedOptions;
impl BlockBasedOptions {
    pub fn set_block_cache(&mut self, _: &Cache) {}
}
pub struct Cache;
impl Cache {
    pub fn new_lru_cache(_: usize) -> Self {
        Self
    }
}
#[derive(Default, Clone)]
pub struct WriteOptions;

type Data = BTreeMap<Vec<u8>, Vec<u8>>;
#[derive(Default)]
struct Store {
    open: bool,
    data: Data,
}
fn stores() -> &'static Mutex<HashMap<u64, Store>> {
    static STORES: OnceLock<Mutex<HashMap<u64, Store>>> = OnceLock::new();
    STORES.get_or_init(Default::default)
}
static NEXT: AtomicU64 = AtomicU64::new(1);

/// Makes writes fail, and gives stores back their memory.
pub mod fake {
    use std::cell::Cell;
    thread_local! { static LEFT: Cell<Option<u64>> = const { Cell::new(None) }; static DONE: Cell<u64> = const { Cell::new(0) }; }
    /// From now on only this many writes of this thread succeed.
    pub fn fail_after(n: Option<u64>) {
        LEFT.with(|l| l.set(n));
        DONE.with(|d| d.set(0));
    }
    /// The writes since the last `fail_after`.
    pub fn writes() -> u64 {
        DONE.with(|d| d.get())
    }
    pub(crate) fn write() -> Result<(), super::Error> {
        DONE.with(|d| d.set(d.get() + 1));
        LEFT.with(|l| match l.get() {
            Some(0) => Err(super::Error::new("IO error: No space left on device")),
            Some(n) => {
                l.set(Some(n - 1));
                Ok(())
            }
            None => Ok(()),
        })
    }
    thread_local! { static SEED: std::cell::RefCell<Option<super::Data>> = const { std::cell::RefCell::new(None) }; }
    /// New stores of this thread start with what is in the store of this directory.
    pub fn seed(dir: Option<&std::path::Path>) {
        let data = dir.map(|d| {
            let id = super::marker(d).expect("a store");
            super::stores().lock().unwrap()[&id].data.clone()
        });
        SEED.with(|s| *s.borrow_mut() = data);
    }
    pub(crate) fn seeded() -> super::Data {
        SEED.with(|s| s.borrow().clone().unwrap_or_default())
    }
    /// Forgets what is not open.
    pub fn forget() {
        super::stores().lock().unwrap().retain(|_, s| s.open);
    }
    /// Forgets the store of this directory.
    pub fn forget_at(dir: &std::path::Path) {
        if let Some(id) = super::marker(dir) {
            let mut s = super::stores().lock().unwrap();
            if s.get(&id).is_some_and(|s| !s.open) {
                s.remove(&id);
            }
        }
    }
}
fn marker(dir: &Path) -> Option<u64> {
    fs::read_to_string(dir.join("CURRENT")).ok()?.trim().parse().ok()
}

pub struct DB {
    id: u64,
    path: PathBuf,
    data: RwLock<Data>,
}
impl fmt::Debug for DB {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "RocksDB {{ path: {:?} }}", self.path)
    }
}
impl Drop for DB {
    fn drop(&mut self) {
        let data = std::mem::take(self.data.get_mut().unwrap_or_else(|e| e.into_inner()));
        let mut all = stores().lock().unwrap_or_else(|e| e.into_inner());
        if self.path.join("CURRENT").exists() {
            all.insert(self.id, Store { open: false, data });
        } else {
            all.remove(&self.id);
        }
    }
}
impl DB {
    pub fn open_default<P: AsRef<Path>>(path: P) -> Result<Self, Error> {
        let mut o = Options::default();
        o.create_if_missing(true);
        Self::open(&o, path)
    }
    pub fn open<P: AsRef<Path>>(opts: &Options, path: P) -> Result<Self, Error> {
        let path = path.as_ref().to_path_buf();
        let io = |e: std::io::Error| Error::new(format!("IO error: {e}: {}", path.display()));
        let mut new = Data::new();
        let id = match marker(&path) {
            Some(id) => id,
            None if opts.create => {
                fs::create_dir_all(&path).map_err(io)?;
                let id = NEXT.fetch_add(1, SeqCst);
                fs::write(path.join("CURRENT"), id.to_string()).map_err(io)?;
                new = fake::seeded();
                id
            }
            None => return Err(Error::new(format!("Invalid argument: {}: does not exist", path.display()))),
        };
        let mut all = stores().lock().unwrap();
        let s = all.entry(id).or_insert(Store { open: false, data: new });
        if s.open {
            return Err(Error::new(format!("IO error: lock hold by current process: {}/LOCK", path.display())));
        }
        s.open = true;
        let data = RwLock::new(std::mem::take(&mut s.data));
        drop(all);
        Ok(Self { id, path, data })
    }
    pub fn path(&self) -> &Path {
        &self.path
    }
    pub fn get<K: AsRef<[u8]>>(&self, key: K) -> Result<Option<Vec<u8>>, Error> {
        Ok(self.data.read().unwrap().get(key.as_ref()).cloned())
    }
    pub fn get_pinned<K: AsRef<[u8]>>(&self, key: K) -> Result<Option<Vec<u8>>, Error> {
        self.get(key)
    }
    pub fn multi_get<K: AsRef<[u8]>, I: IntoIterator<Item = K>>(&self, keys: I) -> Vec<Result<Option<Vec<u8>>, Error>> {
        keys.into_iter().map(|k| self.get(k)).collect()
    }
    pub fn key_may_exist<K: AsRef<[u8]>>(&self, key: K) -> bool {
        self.data.read().unwrap().contains_key(key.as_ref())
    }
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, key: K, value: V) -> Result<(), Error> {
        fake::write()?;
        self.data.write().unwrap().insert(key.as_ref().to_vec(), value.as_ref().to_vec());
        Ok(())
    }
    pub fn delete<K: AsRef<[u8]>>(&self, key: K) -> Result<(), Error> {
        fake::write()?;
        self.data.write().unwrap().remove(key.as_ref());
        Ok(())
    }
    pub fn write(&self, batch: WriteBatch) -> Result<(), Error> {
        fake::write()?;
        let mut data = self.data.write().unwrap();
        for (k, v) in batch.0 {
            match v {
                Some(v) => data.insert(k, v),
                None => data.remove(&k),
            };
        }
        Ok(())
    }
    pub fn flush(&self) -> Result<(), Error> {
        Ok(())
    }
    /// Everything in the store, in the order of the keys.
    pub fn iterator(&self, _: IteratorMode) -> std::vec::IntoIter<Result<(Box<[u8]>, Box<[u8]>), Error>> {
        let data = self.data.read().unwrap();
        let all: Vec<_> = data.iter().map(|(k, v)| Ok((k.clone().into(), v.clone().into()))).collect();
        all.into_iter()
    }
}
pub enum IteratorMode {
    Start,
}

#[derive(Default)]
pub struct WriteBatch(Vec<(Vec<u8>, Option<Vec<u8>>)>);
impl WriteBatch {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&mut self, key: K, value: V) {
        self.0.push((key.as_ref().to_vec(), Some(value.as_ref().to_vec())));
    }
    pub fn delete<K: AsRef<[u8]>>(&mut self, key: K) {
        self.0.push((key.as_ref().to_vec(), None));
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
}
