//! `delay_map` interface on top of tokio-util's DelayQueue (the same engine upstream uses).
use futures::Stream;
use std::{
    borrow::Borrow,
    collections::HashMap,
    hash::Hash,
    pin::Pin,
    task::{Context, Poll},
    time::Duration,
};
use tokio_util::time::delay_queue::{self, DelayQueue};

#[derive(Debug)]
pub struct HashMapDelay<K, V>
where
    K: Eq + Hash + Clone + Unpin,
{
    default: Duration,
    map: HashMap<K, (delay_queue::Key, V)>,
    q: DelayQueue<K>,
}
impl<K: Eq + Hash + Clone + Unpin, V> Default for HashMapDelay<K, V> {
    fn default() -> Self {
        Self::new(Duration::from_secs(30))
    }
}
impl<K: Eq + Hash + Clone + Unpin, V> HashMapDelay<K, V> {
    pub fn new(default: Duration) -> Self {
        Self { default, map: HashMap::new(), q: DelayQueue::new() }
    }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        let d = self.default;
        self.insert_at(k, v, d)
    }
    pub fn insert_at(&mut self, k: K, v: V, d: Duration) -> Option<V> {
        if let Some((key, old)) = self.map.get_mut(&k) {
            self.q.reset(key, d);
            return Some(std::mem::replace(old, v));
        }
        let key = self.q.insert(k.clone(), d);
        self.map.insert(k, (key, v));
        None
    }
    pub fn get<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<&V> where K: Borrow<Q> {
        self.map.get(k).map(|(_, v)| v)
    }
    pub fn get_mut<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<&mut V> where K: Borrow<Q> {
        self.map.get_mut(k).map(|(_, v)| v)
    }
    pub fn contains_key<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> bool where K: Borrow<Q> {
        self.map.contains_key(k)
    }
    pub fn remove<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<V> where K: Borrow<Q> {
        let (key, v) = self.map.remove(k)?;
        self.q.remove(&key);
        Some(v)
    }
    pub fn update_timeout(&mut self, k: &K, d: Duration) -> bool {
        match self.map.get(k) {
            Some((key, _)) => {
                self.q.reset(key, d);
                true
            }
            None => false,
        }
    }
    pub fn len(&self) -> usize {
        self.map.len()
    }
    pub fn is_empty(&self) -> bool {
        self.map.is_empty()
    }
    pub fn clear(&mut self) {
        self.map.clear();
        self.q.clear();
    }
    pub fn keys(&self) -> impl Iterator<Item = &K> {
        self.map.keys()
    }
    pub fn iter(&self) -> impl Iterator<Item = (&K, &V)> {
        self.map.iter().map(|(k, (_, v))| (k, v))
    }
    pub fn iter_mut(&mut self) -> impl Iterator<Item = (&K, &mut V)> {
        self.map.iter_mut().map(|(k, (_, v))| (k, v))
    }
    pub fn retain(&mut self, mut f: impl FnMut(&K, &mut V) -> bool) {
        let gone: Vec<K> = self.map.iter_mut().filter_map(|(k, (_, v))| (!f(k, v)).then(|| k.clone())).collect();
        for k in gone {
            self.remove(&k);
        }
    }
    pub fn poll_expired(&mut self, cx: &mut Context<'_>) -> Poll<Option<Result<(K, V), String>>> {
        match self.q.poll_expired(cx) {
            Poll::Ready(Some(e)) => {
                let k = e.into_inner();
                match self.map.remove(&k) {
                    Some((_, v)) => Poll::Ready(Some(Ok((k, v)))),
                    None => Poll::Ready(Some(Err("Value no longer exists in expirations".into()))),
                }
            }
            Poll::Ready(None) => Poll::Ready(None),
            Poll::Pending => Poll::Pending,
        }
    }
}
impl<K: Eq + Hash + Clone + Unpin, V: Unpin> Stream for HashMapDelay<K, V> {
    type Item = Result<(K, V), String>;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        self.get_mut().poll_expired(cx)
    }
}

#[derive(Debug)]
pub struct HashSetDelay<K>
where
    K: Eq + Hash + Clone + Unpin,
{
    m: HashMapDelay<K, ()>,
}
impl<K: Eq + Hash + Clone + Unpin> Default for HashSetDelay<K> {
    fn default() -> Self {
        Self::new(Duration::from_secs(30))
    }
}
impl<K: Eq + Hash + Clone + Unpin> HashSetDelay<K> {
    pub fn new(d: Duration) -> Self {
        Self { m: HashMapDelay::new(d) }
    }
    pub fn insert(&mut self, k: K) {
        self.m.insert(k, ());
    }
    pub fn insert_at(&mut self, k: K, d: Duration) {
        self.m.insert_at(k, (), d);
    }
    pub fn get(&self, k: &K) -> Option<&K> {
        self.m.map.get_key_value(k).map(|(k, _)| k)
    }
    pub fn contains<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> bool where K: Borrow<Q> {
        self.m.contains_key(k)
    }
    pub fn contains_key<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> bool where K: Borrow<Q> {
        self.m.contains_key(k)
    }
    pub fn update_timeout(&mut self, k: &K, d: Duration) -> bool {
        self.m.update_timeout(k, d)
    }
    pub fn deadline(&self, k: &K) -> Option<tokio::time::Instant> {
        self.m.map.get(k).map(|(key, _)| self.m.q.deadline(key))
    }
    pub fn remove<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> bool where K: Borrow<Q> {
        self.m.remove(k).is_some()
    }
    pub fn retain(&mut self, mut f: impl FnMut(&K) -> bool) {
        self.m.retain(|k, _| f(k));
    }
    pub fn clear(&mut self) {
        self.m.clear();
    }
    pub fn len(&self) -> usize {
        self.m.len()
    }
    pub fn is_empty(&self) -> bool {
        self.m.is_empty()
    }
    pub fn iter(&self) -> impl Iterator<Item = &K> {
        self.m.keys()
    }
    pub fn keys(&self) -> impl Iterator<Item = &K> {
        self.m.keys()
    }
    pub fn poll_expired(&mut self, cx: &mut Context<'_>) -> Poll<Option<Result<K, String>>> {
        match self.m.poll_expired(cx) {
            Poll::Ready(Some(Ok((k, ())))) => Poll::Ready(Some(Ok(k))),
            Poll::Ready(Some(Err(e))) => Poll::Ready(Some(Err(e))),
            Poll::Ready(None) => Poll::Ready(None),
            Poll::Pending => Poll::Pending,
        }
    }
}
impl<K: Eq + Hash + Clone + Unpin> Stream for HashSetDelay<K> {
    type Item = Result<K, String>;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        self.get_mut().poll_expired(cx)
    }
}
