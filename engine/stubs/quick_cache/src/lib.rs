//! A cache with the part of the interface of quick_cache that is used. Nothing is evicted.
pub mod sync {
    use std::{collections::HashMap, hash::Hash, sync::Mutex};

    pub struct Cache<K, V> {
        map: Mutex<HashMap<K, V>>,
    }

    pub struct PlaceholderGuard<'a, K, V> {
        cache: &'a Cache<K, V>,
        key: K,
    }

    impl<K: Hash + Eq + Clone, V: Clone> Cache<K, V> {
        pub fn new(_capacity: usize) -> Self {
            Cache { map: Mutex::new(HashMap::new()) }
        }
        pub async fn get_value_or_guard_async<'a, Q>(&'a self, key: &Q) -> Result<V, PlaceholderGuard<'a, K, V>>
        where
            Q: ToOwned<Owned = K> + ?Sized,
        {
            let key = key.to_owned();
            match self.map.lock().unwrap().get(&key) {
                Some(v) => Ok(v.clone()),
                None => Err(PlaceholderGuard { cache: self, key }),
            }
        }
    }

    impl<K: Hash + Eq + Clone, V: Clone> PlaceholderGuard<'_, K, V> {
        pub fn insert(self, value: V) -> Result<(), V> {
            self.cache.map.lock().unwrap().insert(self.key, value);
            Ok(())
        }
    }
}
