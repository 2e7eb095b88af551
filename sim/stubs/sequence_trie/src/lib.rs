//! Offline stand-in for `sequence_trie`. Children live in a hash map, as in the original, so that their iteration
//! order is a source of nondeterminism the simulator controls (through getrandom(2)).
use std::collections::HashMap;
use std::borrow::{Borrow, ToOwned};
use std::hash::Hash;

#[derive(Debug, Clone)]
pub struct SequenceTrie<K: Eq + Hash, V> {
    value: Option<V>,
    children: HashMap<K, SequenceTrie<K, V>>,
}

impl<K: Eq + Hash + Clone, V> Default for SequenceTrie<K, V> {
    fn default() -> Self {
        Self::new()
    }
}

impl<K: Eq + Hash + Clone, V> SequenceTrie<K, V> {
    pub fn new() -> Self {
        SequenceTrie { value: None, children: HashMap::new() }
    }

    pub fn value(&self) -> Option<&V> {
        self.value.as_ref()
    }

    pub fn insert<'key, I, Q>(&mut self, key: I, value: V) -> Option<V>
    where
        I: IntoIterator<Item = &'key Q>,
        Q: ToOwned<Owned = K> + 'key + ?Sized,
    {
        let mut node = self;
        for k in key {
            node = node.children.entry(k.to_owned()).or_insert_with(Self::new);
        }
        node.value.replace(value)
    }

    pub fn get_node<'key, I, Q>(&self, key: I) -> Option<&Self>
    where
        I: IntoIterator<Item = &'key Q>,
        K: Borrow<Q>,
        Q: Hash + Eq + 'key + ?Sized,
    {
        let mut node = self;
        for k in key {
            node = node.children.get(k)?;
        }
        Some(node)
    }

    pub fn get_node_mut<'key, I, Q>(&mut self, key: I) -> Option<&mut Self>
    where
        I: IntoIterator<Item = &'key Q>,
        K: Borrow<Q>,
        Q: Hash + Eq + 'key + ?Sized,
    {
        let mut node = self;
        for k in key {
            node = node.children.get_mut(k)?;
        }
        Some(node)
    }

    pub fn get<'key, I, Q>(&self, key: I) -> Option<&V>
    where
        I: IntoIterator<Item = &'key Q>,
        K: Borrow<Q>,
        Q: Hash + Eq + 'key + ?Sized,
    {
        self.get_node(key)?.value.as_ref()
    }

    pub fn get_mut<'key, I, Q>(&mut self, key: I) -> Option<&mut V>
    where
        I: IntoIterator<Item = &'key Q>,
        K: Borrow<Q>,
        Q: Hash + Eq + 'key + ?Sized,
    {
        self.get_node_mut(key)?.value.as_mut()
    }

    pub fn iter(&self) -> std::vec::IntoIter<(Vec<&K>, &V)> {
        let mut out = vec![];
        let mut prefix = vec![];
        self.walk(&mut prefix, &mut out);
        out.into_iter()
    }

    fn walk<'a>(&'a self, prefix: &mut Vec<&'a K>, out: &mut Vec<(Vec<&'a K>, &'a V)>) {
        if let Some(v) = &self.value {
            out.push((prefix.clone(), v));
        }
        for (k, c) in &self.children {
            prefix.push(k);
            c.walk(prefix, out);
            prefix.pop();
        }
    }
}
