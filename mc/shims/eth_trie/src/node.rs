use crate::nibbles::Nibbles;
use alloy_primitives::B256;
use std::{
    array,
    sync::{Arc, RwLock},
};

#[derive(Debug, Clone)]
pub enum Node {
    Empty,
    Leaf(LeafNode),
    Extension(Arc<RwLock<ExtensionNode>>),
    Branch(Arc<RwLock<BranchNode>>),
    Hash(HashNode),
}
impl Node {
    pub fn from_leaf(key: Nibbles, value: Vec<u8>) -> Self {
        Node::Leaf(LeafNode { key, value })
    }
    pub fn from_branch(children: [Node; 16], value: Option<Vec<u8>>) -> Self {
        Node::Branch(Arc::new(RwLock::new(BranchNode { children, value })))
    }
    pub fn from_extension(prefix: Nibbles, node: Node) -> Self {
        Node::Extension(Arc::new(RwLock::new(ExtensionNode { prefix, node })))
    }
    pub fn from_hash(hash: B256) -> Self {
        Node::Hash(HashNode { hash })
    }
}
#[derive(Debug, Clone)]
pub struct LeafNode {
    pub key: Nibbles,
    pub value: Vec<u8>,
}
#[derive(Debug)]
pub struct BranchNode {
    pub children: [Node; 16],
    pub value: Option<Vec<u8>>,
}
impl BranchNode {
    pub fn insert(&mut self, i: usize, n: Node) {
        if i == 16 {
            match n {
                Node::Leaf(leaf) => self.value = Some(leaf.value),
                _ => panic!("The n must be leaf node"),
            }
        } else {
            self.children[i] = n
        }
    }
}
#[derive(Debug)]
pub struct ExtensionNode {
    pub prefix: Nibbles,
    pub node: Node,
}
#[derive(Debug, Clone)]
pub struct HashNode {
    pub hash: B256,
}
pub fn empty_children() -> [Node; 16] {
    array::from_fn(|_| Node::Empty)
}
