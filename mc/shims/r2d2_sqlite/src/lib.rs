pub use rusqlite;
use rusqlite::{Connection, Error};
use std::{
    fmt,
    path::{Path, PathBuf},
    sync::atomic::{AtomicU64, Ordering},
};
enum Source {
    File(PathBuf),
    Memory(u64),
}
type Init = dyn Fn(&mut Connection) -> Result<(), Error> + Send + Sync + 'static;
pub struct SqliteConnectionManager {
    src: Source,
    init: Option<Box<Init>>,
}
impl fmt::Debug for SqliteConnectionManager {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "SqliteConnectionManager")
    }
}
static N: AtomicU64 = AtomicU64::new(0);
impl SqliteConnectionManager {
    pub fn file<P: AsRef<Path>>(p: P) -> Self {
        Self { src: Source::File(p.as_ref().to_path_buf()), init: None }
    }
    /// All connections of one manager share one in-memory database (as upstream does).
    pub fn memory() -> Self {
        Self { src: Source::Memory(N.fetch_add(1, Ordering::Relaxed)), init: None }
    }
    pub fn with_init<F>(self, f: F) -> Self
    where
        F: Fn(&mut Connection) -> Result<(), Error> + Send + Sync + 'static,
    {
        Self { init: Some(Box::new(f)), ..self }
    }
}
impl r2d2::ManageConnection for SqliteConnectionManager {
    type Connection = Connection;
    type Error = Error;
    fn connect(&self) -> Result<Connection, Error> {
        let mut c = match &self.src {
            Source::File(p) => Connection::open(p)?,
            Source::Memory(n) => Connection::open(format!("file:/mem{n}?vfs=memdb"))?,
        };
        if let Some(i) = &self.init {
            i(&mut c)?;
        }
        Ok(c)
    }
    fn is_valid(&self, c: &mut Connection) -> Result<(), Error> {
        c.execute_batch("")
    }
    fn has_broken(&self, _: &mut Connection) -> bool {
        false
    }
}
