//! Stand-in for the crate `integeriser` (github.com/tud-fop/rust-integeriser), which cannot be
//! fetched here.  It implements the documented contract of that crate: a bijection between the
//! values seen so far and the integers `0..size()`, where `integerise` is idempotent.
use fnv::FnvHashMap;
use serde::{Deserialize, Serialize};
use std::hash::Hash;

pub trait Integeriser {
    type Item;
    fn integerise(&mut self, value: Self::Item) -> usize;
    fn find_key(&self, value: &Self::Item) -> Option<usize>;
    fn find_value(&self, key: usize) -> Option<&Self::Item>;
    fn size(&self) -> usize;
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HashIntegeriser<T: Eq + Hash> {
    values: Vec<T>,
    keys: FnvHashMap<T, usize>,
}

impl<T: Eq + Hash> HashIntegeriser<T> {
    pub fn new() -> Self {
        HashIntegeriser {
            values: Vec::new(),
            keys: FnvHashMap::default(),
        }
    }

    pub fn values(&self) -> &Vec<T> {
        &self.values
    }
}

impl<T: Eq + Hash> Default for HashIntegeriser<T> {
    fn default() -> Self {
        Self::new()
    }
}

impl<T: Clone + Eq + Hash> Integeriser for HashIntegeriser<T> {
    type Item = T;

    fn integerise(&mut self, value: T) -> usize {
        if let Some(&key) = self.keys.get(&value) {
            return key;
        }
        let key = self.values.len();
        self.values.push(value.clone());
        self.keys.insert(value, key);
        key
    }

    fn find_key(&self, value: &T) -> Option<usize> {
        self.keys.get(value).cloned()
    }

    fn find_value(&self, key: usize) -> Option<&T> {
        self.values.get(key)
    }

    fn size(&self) -> usize {
        self.values.len()
    }
}
