use hashbrown::HashMap;
use parking_lot::RwLock;
use std::{convert::Infallible, error::Error};

pub trait DB: Send + Sync {
    type Error: Error;
    fn get(&self, key: &[u8]) -> Result<Option<Vec<u8>>, Self::Error>;
    fn insert(&self, key: &[u8], value: Vec<u8>) -> Result<(), Self::Error>;
    fn remove(&self, key: &[u8]) -> Result<(), Self::Error>;
    fn insert_batch(&self, keys: Vec<Vec<u8>>, values: Vec<Vec<u8>>) -> Result<(), Self::Error> {
        for (k, v) in keys.iter().zip(values) {
            self.insert(k, v)?;
        }
        Ok(())
    }
    fn remove_batch(&self, keys: &[Vec<u8>]) -> Result<(), Self::Error> {
        for k in keys {
            self.remove(k)?;
        }
        Ok(())
    }
    fn flush(&self) -> Result<(), Self::Error>;
}

#[derive(Default, Debug)]
pub struct MemoryDB {
    light: bool,
    storage: RwLock<HashMap<Vec<u8>, Vec<u8>>>,
}
impl MemoryDB {
    pub fn new(light: bool) -> Self {
        Self { light, storage: Default::default() }
    }
    pub fn len(&self) -> Result<usize, Infallible> {
        Ok(self.storage.read().len())
    }
    pub fn is_empty(&self) -> Result<bool, Infallible> {
        Ok(self.storage.read().is_empty())
    }
}
impl DB for MemoryDB {
    type Error = Infallible;
    fn get(&self, key: &[u8]) -> Result<Option<Vec<u8>>, Infallible> {
        Ok(self.storage.read().get(key).cloned())
    }
    fn insert(&self, key: &[u8], value: Vec<u8>) -> Result<(), Infallible> {
        self.storage.write().insert(key.to_vec(), value);
        Ok(())
    }
    fn remove(&self, key: &[u8]) -> Result<(), Infallible> {
        if self.light {
            self.storage.write().remove(key);
        }
        Ok(())
    }
    fn flush(&self) -> Result<(), Infallible> {
        Ok(())
    }
}
