//! A string interner with the interface of lasso2.
use std::{collections::HashMap, marker::PhantomData};

/// # Safety
/// As in lasso2.
pub unsafe trait Key: Copy + Eq {
    fn into_usize(self) -> usize;
    fn try_from_usize(int: usize) -> Option<Self>;
}

#[derive(Debug, Clone)]
pub struct Rodeo<K> {
    strings: Vec<String>,
    ids: HashMap<String, usize>,
    key: PhantomData<K>,
}

impl<K: Key> Default for Rodeo<K> {
    fn default() -> Self {
        Self::new()
    }
}

impl<K: Key> Rodeo<K> {
    pub fn new() -> Self {
        Rodeo { strings: vec![], ids: HashMap::new(), key: PhantomData }
    }
    pub fn get(&self, s: impl AsRef<str>) -> Option<K> {
        self.ids.get(s.as_ref()).and_then(|i| K::try_from_usize(*i))
    }
    pub fn contains(&self, s: impl AsRef<str>) -> bool {
        self.ids.contains_key(s.as_ref())
    }
    pub fn get_or_intern(&mut self, s: impl AsRef<str>) -> K {
        let s = s.as_ref();
        if let Some(k) = self.get(s) {
            return k;
        }
        let id = self.strings.len();
        let key = K::try_from_usize(id).expect("Failed to get or intern string: KeySpaceExhaustion");
        self.strings.push(s.to_owned());
        self.ids.insert(s.to_owned(), id);
        key
    }
    /// # Safety
    /// Checked here.
    pub unsafe fn resolve_unchecked<'a>(&'a self, key: &K) -> &'a str {
        &self.strings[key.into_usize()]
    }
}

impl<K> serde::Serialize for Rodeo<K> {
    fn serialize<S: serde::Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
        self.strings.serialize(serializer)
    }
}

impl<'de, K> serde::Deserialize<'de> for Rodeo<K> {
    fn deserialize<D: serde::Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
        let strings = Vec::<String>::deserialize(deserializer)?;
        let ids = strings.iter().enumerate().map(|(i, s)| (s.clone(), i)).collect();
        Ok(Rodeo { strings, ids, key: PhantomData })
    }
}
