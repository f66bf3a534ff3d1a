//! Straightforward LRU cache (front = most recently used), O(n) operations.
use std::{borrow::Borrow, fmt, hash::Hash, num::NonZeroUsize};
pub struct LruCache<K, V> {
    cap: NonZeroUsize,
    items: Vec<(K, V)>,
}
impl<K: fmt::Debug, V: fmt::Debug> fmt::Debug for LruCache<K, V> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("LruCache").field("len", &self.items.len()).field("cap", &self.cap).finish()
    }
}
impl<K: Clone, V: Clone> Clone for LruCache<K, V> {
    fn clone(&self) -> Self {
        Self { cap: self.cap, items: self.items.clone() }
    }
}
impl<K: Hash + Eq, V> LruCache<K, V> {
    pub fn new(cap: NonZeroUsize) -> Self {
        Self { cap, items: vec![] }
    }
    pub fn unbounded() -> Self {
        Self { cap: NonZeroUsize::MAX, items: vec![] }
    }
    fn pos<Q: ?Sized + Eq>(&self, k: &Q) -> Option<usize> where K: Borrow<Q> {
        self.items.iter().position(|(x, _)| x.borrow() == k)
    }
    pub fn put(&mut self, k: K, v: V) -> Option<V> {
        if let Some(i) = self.pos(&k) {
            let (k0, old) = self.items.remove(i);
            self.items.insert(0, (k0, v));
            return Some(old);
        }
        if self.items.len() == self.cap.get() {
            self.items.pop();
        }
        self.items.insert(0, (k, v));
        None
    }
    pub fn push(&mut self, k: K, v: V) -> Option<(K, V)> {
        if let Some(i) = self.pos(&k) {
            let old = self.items.remove(i);
            self.items.insert(0, (k, v));
            return Some(old);
        }
        let ev = if self.items.len() == self.cap.get() { self.items.pop() } else { None };
        self.items.insert(0, (k, v));
        ev
    }
    pub fn get<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<&V> where K: Borrow<Q> {
        let i = self.pos(k)?;
        let e = self.items.remove(i);
        self.items.insert(0, e);
        Some(&self.items[0].1)
    }
    pub fn get_mut<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<&mut V> where K: Borrow<Q> {
        let i = self.pos(k)?;
        let e = self.items.remove(i);
        self.items.insert(0, e);
        Some(&mut self.items[0].1)
    }
    pub fn get_or_insert(&mut self, k: K, f: impl FnOnce() -> V) -> &V {
        if self.pos(&k).is_none() {
            self.put(k, f());
        } else {
            let i = self.pos(&k).unwrap();
            let e = self.items.remove(i);
            self.items.insert(0, e);
        }
        &self.items[0].1
    }
    pub fn peek<Q: ?Sized + Eq>(&self, k: &Q) -> Option<&V> where K: Borrow<Q> {
        self.pos(k).map(|i| &self.items[i].1)
    }
    pub fn peek_mut<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<&mut V> where K: Borrow<Q> {
        let i = self.pos(k)?;
        Some(&mut self.items[i].1)
    }
    pub fn peek_lru(&self) -> Option<(&K, &V)> {
        self.items.last().map(|(k, v)| (k, v))
    }
    pub fn contains<Q: ?Sized + Eq>(&self, k: &Q) -> bool where K: Borrow<Q> {
        self.pos(k).is_some()
    }
    pub fn pop<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<V> where K: Borrow<Q> {
        let i = self.pos(k)?;
        Some(self.items.remove(i).1)
    }
    pub fn pop_entry<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<(K, V)> where K: Borrow<Q> {
        let i = self.pos(k)?;
        Some(self.items.remove(i))
    }
    pub fn pop_lru(&mut self) -> Option<(K, V)> {
        self.items.pop()
    }
    pub fn promote<Q: ?Sized + Eq>(&mut self, k: &Q) where K: Borrow<Q> {
        self.get(k);
    }
    pub fn len(&self) -> usize {
        self.items.len()
    }
    pub fn is_empty(&self) -> bool {
        self.items.is_empty()
    }
    pub fn cap(&self) -> NonZeroUsize {
        self.cap
    }
    pub fn resize(&mut self, cap: NonZeroUsize) {
        self.cap = cap;
        self.items.truncate(cap.get());
    }
    pub fn clear(&mut self) {
        self.items.clear()
    }
    pub fn iter(&self) -> impl Iterator<Item = (&K, &V)> {
        self.items.iter().map(|(k, v)| (k, v))
    }
    pub fn iter_mut(&mut self) -> impl Iterator<Item = (&K, &mut V)> {
        self.items.iter_mut().map(|(k, v)| (&*k, v))
    }
}
