//! Minimal connection pool with r2d2's interface. Idle connections are reused;
//! new ones are opened on demand up to `max_size` (10 by default).
use parking_lot::{Condvar, Mutex};
use std::{
    fmt,
    ops::{Deref, DerefMut},
    sync::Arc,
    time::{Duration, Instant},
};

pub trait ManageConnection: Send + Sync + 'static {
    type Connection: Send + 'static;
    type Error: std::error::Error + 'static;
    fn connect(&self) -> Result<Self::Connection, Self::Error>;
    fn is_valid(&self, conn: &mut Self::Connection) -> Result<(), Self::Error>;
    fn has_broken(&self, conn: &mut Self::Connection) -> bool;
}
#[derive(Debug)]
pub struct Error(Option<String>);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "timed out waiting for connection")?;
        if let Some(e) = &self.0 {
            write!(f, ": {e}")?;
        }
        Ok(())
    }
}
impl std::error::Error for Error {}
struct Inner<C> {
    idle: Vec<C>,
    open: u32,
}
struct Shared<M: ManageConnection> {
    m: M,
    inner: Mutex<Inner<M::Connection>>,
    cv: Condvar,
    max: u32,
    timeout: Duration,
}
pub struct Pool<M: ManageConnection>(Arc<Shared<M>>);
impl<M: ManageConnection> Clone for Pool<M> {
    fn clone(&self) -> Self {
        Pool(self.0.clone())
    }
}
impl<M: ManageConnection> fmt::Debug for Pool<M> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Pool")
    }
}
pub struct Builder<M> {
    max: u32,
    timeout: Duration,
    _p: std::marker::PhantomData<M>,
}
impl<M: ManageConnection> Default for Builder<M> {
    fn default() -> Self {
        Self { max: 10, timeout: Duration::from_secs(30), _p: Default::default() }
    }
}
impl<M: ManageConnection> Builder<M> {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn max_size(mut self, n: u32) -> Self {
        self.max = n;
        self
    }
    pub fn min_idle(self, _n: Option<u32>) -> Self {
        self
    }
    pub fn connection_timeout(mut self, d: Duration) -> Self {
        self.timeout = d;
        self
    }
    pub fn build(self, m: M) -> Result<Pool<M>, Error> {
        let c = m.connect().map_err(|e| Error(Some(e.to_string())))?;
        Ok(Pool(Arc::new(Shared {
            m,
            inner: Mutex::new(Inner { idle: vec![c], open: 1 }),
            cv: Condvar::new(),
            max: self.max,
            timeout: self.timeout,
        })))
    }
    pub fn build_unchecked(self, m: M) -> Pool<M> {
        Pool(Arc::new(Shared { m, inner: Mutex::new(Inner { idle: vec![], open: 0 }), cv: Condvar::new(), max: self.max, timeout: self.timeout }))
    }
}
impl<M: ManageConnection> Pool<M> {
    pub fn new(m: M) -> Result<Self, Error> {
        Builder::new().build(m)
    }
    pub fn builder() -> Builder<M> {
        Builder::new()
    }
    pub fn get(&self) -> Result<PooledConnection<M>, Error> {
        self.get_timeout(self.0.timeout)
    }
    pub fn try_get(&self) -> Option<PooledConnection<M>> {
        self.get_timeout(Duration::ZERO).ok()
    }
    pub fn get_timeout(&self, t: Duration) -> Result<PooledConnection<M>, Error> {
        let end = Instant::now() + t;
        let mut g = self.0.inner.lock();
        loop {
            if let Some(c) = g.idle.pop() {
                return Ok(PooledConnection { pool: self.clone(), c: Some(c) });
            }
            if g.open < self.0.max {
                let c = self.0.m.connect().map_err(|e| Error(Some(e.to_string())))?;
                g.open += 1;
                return Ok(PooledConnection { pool: self.clone(), c: Some(c) });
            }
            if self.0.cv.wait_until(&mut g, end).timed_out() {
                return Err(Error(None));
            }
        }
    }
    pub fn max_size(&self) -> u32 {
        self.0.max
    }
}
pub struct PooledConnection<M: ManageConnection> {
    pool: Pool<M>,
    c: Option<M::Connection>,
}
impl<M: ManageConnection> Deref for PooledConnection<M> {
    type Target = M::Connection;
    fn deref(&self) -> &M::Connection {
        self.c.as_ref().unwrap()
    }
}
impl<M: ManageConnection> DerefMut for PooledConnection<M> {
    fn deref_mut(&mut self) -> &mut M::Connection {
        self.c.as_mut().unwrap()
    }
}
impl<M: ManageConnection> Drop for PooledConnection<M> {
    fn drop(&mut self) {
        let c = self.c.take().unwrap();
        self.pool.0.inner.lock().idle.push(c);
        self.pool.0.cv.notify_one();
    }
}
