//! Offline stand-in for `hamt-sync`: a persistent hash trie with the same interface (new, insert, find, remove).
//! Deterministic (a fixed hasher): the original hashes with a fixed hasher too, and redscript never iterates it.
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::sync::Arc;

#[derive(Debug)]
enum Node<K, V> {
    Leaf(u64, Vec<(K, V)>),
    Branch(Box<[Option<Arc<Node<K, V>>>; 16]>),
}

#[derive(Debug)]
pub struct Map<K, V> {
    root: Option<Arc<Node<K, V>>>,
    size: usize,
}

impl<K, V> Clone for Map<K, V> {
    fn clone(&self) -> Self {
        Map { root: self.root.clone(), size: self.size }
    }
}

impl<K, V> Default for Map<K, V> {
    fn default() -> Self {
        Map { root: None, size: 0 }
    }
}

fn hash<K: Hash>(k: &K) -> u64 {
    let mut h = DefaultHasher::new();
    k.hash(&mut h);
    h.finish()
}

impl<K: Eq + Hash + Clone, V: Clone> Map<K, V> {
    pub fn new() -> Self {
        Self::default()
    }

    pub fn size(&self) -> usize {
        self.size
    }

    pub fn find(&self, key: &K) -> Option<&V> {
        let h = hash(key);
        let mut node = self.root.as_deref()?;
        let mut shift = 0;
        loop {
            match node {
                Node::Leaf(_, kv) => return kv.iter().find(|(k, _)| k == key).map(|(_, v)| v),
                Node::Branch(ch) => {
                    node = ch[((h >> shift) & 15) as usize].as_deref()?;
                    shift += 4;
                }
            }
        }
    }

    pub fn insert(&self, key: K, value: V) -> Self {
        let h = hash(&key);
        let exists = self.find(&key).is_some();
        let root = Self::put(self.root.as_ref(), h, 0, key, value);
        Map { root: Some(root), size: self.size + usize::from(!exists) }
    }

    fn put(node: Option<&Arc<Node<K, V>>>, h: u64, shift: u32, key: K, value: V) -> Arc<Node<K, V>> {
        match node.map(|n| &**n) {
            None => Arc::new(Node::Leaf(h, vec![(key, value)])),
            Some(Node::Leaf(lh, kv)) if *lh == h || shift >= 60 => {
                let mut kv = kv.clone();
                match kv.iter_mut().find(|(k, _)| *k == key) {
                    Some(slot) => slot.1 = value,
                    None => kv.push((key, value)),
                }
                Arc::new(Node::Leaf(*lh, kv))
            }
            Some(Node::Leaf(lh, _)) => {
                let mut ch: [Option<Arc<Node<K, V>>>; 16] = Default::default();
                ch[((lh >> shift) & 15) as usize] = node.cloned();
                let i = ((h >> shift) & 15) as usize;
                ch[i] = Some(Self::put(ch[i].as_ref(), h, shift + 4, key, value));
                Arc::new(Node::Branch(Box::new(ch)))
            }
            Some(Node::Branch(ch)) => {
                let mut ch = ch.clone();
                let i = ((h >> shift) & 15) as usize;
                ch[i] = Some(Self::put(ch[i].as_ref(), h, shift + 4, key, value));
                Arc::new(Node::Branch(ch))
            }
        }
    }
}
