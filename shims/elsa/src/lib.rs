//! Stand-in for `elsa::FrozenMap`: an append-only map. Values are boxed and never replaced, so references stay valid.
use std::{cell::RefCell, collections::HashMap, hash::Hash, ops::Deref};
pub struct FrozenMap<K, V> { map: RefCell<HashMap<K, Box<V>>> }
impl<K, V> Default for FrozenMap<K, V> { fn default() -> Self { Self { map: RefCell::new(HashMap::new()) } } }
impl<K: Clone, V: Clone> Clone for FrozenMap<K, V> { fn clone(&self) -> Self { Self { map: RefCell::new(self.map.borrow().clone()) } } }
impl<K: Eq + Hash, V: Deref> FrozenMap<K, V> {
    pub fn new() -> Self { Self::default() }
    pub fn get(&self, k: &K) -> Option<&V::Target> {
        let m = self.map.borrow();
        let p: *const V = &**m.get(k)?;
        Some(unsafe { &**p })
    }
    pub fn map_get<T>(&self, k: &K, f: impl FnOnce(&V) -> T) -> Option<T> { self.map.borrow().get(k).map(|v| f(v)) }
    pub fn insert(&self, k: K, v: V) -> &V::Target {
        let mut m = self.map.borrow_mut();
        let p: *const V = &**m.entry(k).or_insert_with(|| Box::new(v));
        unsafe { &**p }
    }
    pub fn len(&self) -> usize { self.map.borrow().len() }
    pub fn into_map(self) -> HashMap<K, V> { self.map.into_inner().into_iter().map(|(k, v)| (k, *v)).collect() }
}
