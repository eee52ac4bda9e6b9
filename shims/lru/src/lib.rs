//! LruCache with the interface and behaviour of lru 0.7 as far as used.
#[derive(Debug)]
pub struct LruCache<K, V> {
    /// most recently used first
    items: Vec<(K, V)>,
    cap: usize,
}
use std::borrow::Borrow;
impl<K: Eq, V> LruCache<K, V> {
    pub fn new(cap: usize) -> Self {
        LruCache { items: Vec::new(), cap }
    }
    pub fn unbounded() -> Self {
        LruCache { items: Vec::new(), cap: usize::MAX }
    }
    fn find<Q: ?Sized + Eq>(&self, k: &Q) -> Option<usize>
    where
        K: Borrow<Q>,
    {
        self.items.iter().position(|i| i.0.borrow() == k)
    }
    fn front(&mut self, i: usize) {
        let x = self.items.remove(i);
        self.items.insert(0, x);
    }
    pub fn get<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<&V>
    where
        K: Borrow<Q>,
    {
        let i = self.find(k)?;
        self.front(i);
        Some(&self.items[0].1)
    }
    pub fn get_mut<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<&mut V>
    where
        K: Borrow<Q>,
    {
        let i = self.find(k)?;
        self.front(i);
        Some(&mut self.items[0].1)
    }
    pub fn peek<Q: ?Sized + Eq>(&self, k: &Q) -> Option<&V>
    where
        K: Borrow<Q>,
    {
        let i = self.find(k)?;
        Some(&self.items[i].1)
    }
    pub fn contains<Q: ?Sized + Eq>(&self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.find(k).is_some()
    }
    pub fn put(&mut self, k: K, v: V) -> Option<V> {
        if let Some(i) = self.find(&k) {
            self.front(i);
            return Some(std::mem::replace(&mut self.items[0].1, v));
        }
        if self.cap == 0 {
            return None;
        }
        if self.items.len() == self.cap {
            self.items.pop();
        }
        self.items.insert(0, (k, v));
        None
    }
    pub fn pop<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<V>
    where
        K: Borrow<Q>,
    {
        let i = self.find(k)?;
        Some(self.items.remove(i).1)
    }
    pub fn pop_lru(&mut self) -> Option<(K, V)> {
        self.items.pop()
    }
    pub fn len(&self) -> usize {
        self.items.len()
    }
    pub fn is_empty(&self) -> bool {
        self.items.is_empty()
    }
    pub fn cap(&self) -> usize {
        self.cap
    }
    pub fn resize(&mut self, cap: usize) {
        self.items.truncate(cap);
        self.cap = cap;
    }
    pub fn clear(&mut self) {
        self.items.clear()
    }
    pub fn iter(&self) -> impl Iterator<Item = (&K, &V)> {
        self.items.iter().map(|x| (&x.0, &x.1))
    }
}
