//! Stand-in for lru: the same contract on a vector (front = most recently used).
use std::{borrow::Borrow, fmt, hash::Hash, num::NonZeroUsize};
pub struct LruCache<K, V> { cap: NonZeroUsize, v: Vec<(K, V)> }
impl<K: Hash + Eq, V> fmt::Debug for LruCache<K, V> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_struct("LruCache").field("len", &self.v.len()).field("cap", &self.cap).finish() } }
impl<K: Hash + Eq, V> LruCache<K, V> {
    pub fn new(cap: NonZeroUsize) -> Self { LruCache { cap, v: vec![] } }
    fn pos<Q: Eq + ?Sized>(&self, k: &Q) -> Option<usize> where K: Borrow<Q> { self.v.iter().position(|e| e.0.borrow() == k) }
    fn front(&mut self, i: usize) { let e = self.v.remove(i); self.v.insert(0, e); }
    pub fn put(&mut self, k: K, v: V) -> Option<V> {
        if let Some(i) = self.pos(&k) { self.front(i); return Some(std::mem::replace(&mut self.v[0].1, v)); }
        if self.v.len() == self.cap.get() { self.v.pop(); }
        self.v.insert(0, (k, v)); None
    }
    pub fn push(&mut self, k: K, v: V) -> Option<(K, V)> {
        if let Some(i) = self.pos(&k) { self.front(i); return Some(std::mem::replace(&mut self.v[0], (k, v))); }
        let r = if self.v.len() == self.cap.get() { self.v.pop() } else { None };
        self.v.insert(0, (k, v)); r
    }
    pub fn get<'a, Q: Hash + Eq + ?Sized>(&'a mut self, k: &Q) -> Option<&'a V> where K: Borrow<Q> { let i = self.pos(k)?; self.front(i); Some(&self.v[0].1) }
    pub fn get_mut<'a, Q: Hash + Eq + ?Sized>(&'a mut self, k: &Q) -> Option<&'a mut V> where K: Borrow<Q> { let i = self.pos(k)?; self.front(i); Some(&mut self.v[0].1) }
    pub fn peek<'a, Q: Hash + Eq + ?Sized>(&'a self, k: &Q) -> Option<&'a V> where K: Borrow<Q> { self.pos(k).map(|i| &self.v[i].1) }
    pub fn contains<Q: Hash + Eq + ?Sized>(&self, k: &Q) -> bool where K: Borrow<Q> { self.pos(k).is_some() }
    pub fn pop<Q: Hash + Eq + ?Sized>(&mut self, k: &Q) -> Option<V> where K: Borrow<Q> { self.pos(k).map(|i| self.v.remove(i).1) }
    pub fn len(&self) -> usize { self.v.len() }
    pub fn is_empty(&self) -> bool { self.v.is_empty() }
    pub fn cap(&self) -> NonZeroUsize { self.cap }
    pub fn clear(&mut self) { self.v.clear() }
    pub fn iter(&self) -> impl Iterator<Item = (&K, &V)> { self.v.iter().map(|e| (&e.0, &e.1)) }
}
