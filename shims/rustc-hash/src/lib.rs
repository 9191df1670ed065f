//! Stand-in for rustc-hash: a hasher that sends every key to the same bucket,
//! so that a set of symbolic paths is decided by `Eq` alone and not by the bits
//! of a multiplicative hash. Any hash function is a correct one for a hash set.
use std::collections::{HashMap, HashSet};
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct FxHasher;

impl Hasher for FxHasher {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, _: &[u8]) {}
}

pub type FxBuildHasher = BuildHasherDefault<FxHasher>;
pub type FxHashMap<K, V> = HashMap<K, V, FxBuildHasher>;
pub type FxHashSet<K> = HashSet<K, FxBuildHasher>;
