//! Stand-in for `phf` in the symbolic build only: same observable map, looked up by comparing keys
//! one by one instead of hashing (hashing symbolic text would make every query unreadable to a solver).
//! Replays of counterexamples and samples run against the real `phf`.
use std::borrow::Borrow;

pub struct Map<K: 'static, V: 'static> {
    pub entries: &'static [(K, V)],
}
impl<K, V> Map<K, V> {
    pub fn get_entry<T: ?Sized + Eq>(&self, key: &T) -> Option<(&K, &V)>
    where
        K: Borrow<T>,
    {
        let mut i = 0;
        while i < self.entries.len() {
            if self.entries[i].0.borrow() == key {
                return Some((&self.entries[i].0, &self.entries[i].1));
            }
            i += 1;
        }
        None
    }
    pub fn get<T: ?Sized + Eq>(&self, key: &T) -> Option<&V>
    where
        K: Borrow<T>,
    {
        self.get_entry(key).map(|e| e.1)
    }
    pub fn get_key<T: ?Sized + Eq>(&self, key: &T) -> Option<&K>
    where
        K: Borrow<T>,
    {
        self.get_entry(key).map(|e| e.0)
    }
    pub fn contains_key<T: ?Sized + Eq>(&self, key: &T) -> bool
    where
        K: Borrow<T>,
    {
        self.get_entry(key).is_some()
    }
    pub fn len(&self) -> usize {
        self.entries.len()
    }
    pub fn is_empty(&self) -> bool {
        self.entries.is_empty()
    }
    pub fn entries(&self) -> impl Iterator<Item = (&K, &V)> {
        self.entries.iter().map(|e| (&e.0, &e.1))
    }
    pub fn keys(&self) -> impl Iterator<Item = &K> {
        self.entries.iter().map(|e| &e.0)
    }
    pub fn values(&self) -> impl Iterator<Item = &V> {
        self.entries.iter().map(|e| &e.1)
    }
}
pub struct Set<K: 'static> {
    pub entries: &'static [K],
}
impl<K> Set<K> {
    pub fn contains<T: ?Sized + Eq>(&self, key: &T) -> bool
    where
        K: Borrow<T>,
    {
        self.entries.iter().any(|e| e.borrow() == key)
    }
    pub fn len(&self) -> usize {
        self.entries.len()
    }
    pub fn iter(&self) -> impl Iterator<Item = &K> {
        self.entries.iter()
    }
}
#[macro_export]
macro_rules! phf_map {
    ($($k:expr => $v:expr),* $(,)?) => { $crate::Map { entries: &[$(($k, $v)),*] } };
}
#[macro_export]
macro_rules! phf_set {
    ($($k:expr),* $(,)?) => { $crate::Set { entries: &[$($k),*] } };
}
