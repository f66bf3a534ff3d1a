use std::{borrow::Borrow, collections::HashMap, hash::Hash, sync::Arc};

#[derive(Clone, Debug)]
pub struct BiHashMap<L, R> {
    left: HashMap<Arc<L>, Arc<R>>,
    right: HashMap<Arc<R>, Arc<L>>,
}
impl<L: Eq + Hash, R: Eq + Hash> Default for BiHashMap<L, R> {
    fn default() -> Self {
        Self::new()
    }
}
impl<L: Eq + Hash, R: Eq + Hash> BiHashMap<L, R> {
    pub fn new() -> Self {
        Self { left: HashMap::new(), right: HashMap::new() }
    }
    pub fn len(&self) -> usize {
        self.left.len()
    }
    pub fn is_empty(&self) -> bool {
        self.left.is_empty()
    }
    pub fn insert(&mut self, l: L, r: R) {
        if let Some(old) = self.left.remove(&l) {
            self.right.remove(&old);
        }
        if let Some(old) = self.right.remove(&r) {
            self.left.remove(&old);
        }
        let (l, r) = (Arc::new(l), Arc::new(r));
        self.left.insert(l.clone(), r.clone());
        self.right.insert(r, l);
    }
    pub fn get_by_left<Q: ?Sized + Eq + Hash>(&self, l: &Q) -> Option<&R>
    where
        Arc<L>: Borrow<Q>,
    {
        self.left.get(l).map(|r| &**r)
    }
    pub fn get_by_right<Q: ?Sized + Eq + Hash>(&self, r: &Q) -> Option<&L>
    where
        R: Borrow<Q>,
    {
        self.right.iter().find(|(k, _)| (***k).borrow() == r).map(|(_, l)| &**l)
    }
    pub fn contains_right<Q: ?Sized + Eq + Hash>(&self, r: &Q) -> bool
    where
        R: Borrow<Q>,
    {
        self.get_by_right(r).is_some()
    }
    pub fn contains_left<Q: ?Sized + Eq + Hash>(&self, l: &Q) -> bool
    where
        Arc<L>: Borrow<Q>,
    {
        self.get_by_left(l).is_some()
    }
    pub fn iter(&self) -> impl Iterator<Item = (&L, &R)> {
        self.left.iter().map(|(l, r)| (&**l, &**r))
    }
}
