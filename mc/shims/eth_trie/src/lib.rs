//! Merkle Patricia Trie.
pub mod db;
pub mod nibbles;
pub mod node;
mod trie;

use alloy_primitives::B256;
pub use db::{MemoryDB, DB};
pub use trie::{decode_node, EthTrie, RootWithTrieDiff, Trie, TrieIterator, EMPTY_ROOT};

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum TrieError {
    DB(String),
    Decoder(alloy_rlp::Error),
    InvalidData,
    InvalidStateRoot,
    InvalidProof,
    MissingTrieNode {
        node_hash: B256,
        traversed: Option<nibbles::Nibbles>,
        root_hash: Option<B256>,
        err_key: Option<Vec<u8>>,
    },
}
impl std::fmt::Display for TrieError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Self::DB(e) => write!(f, "trie error: {e}"),
            Self::Decoder(e) => write!(f, "trie error: {e:?}"),
            Self::InvalidData => write!(f, "trie error: invalid data"),
            Self::InvalidStateRoot => write!(f, "trie error: invalid state root"),
            Self::InvalidProof => write!(f, "trie error: invalid proof"),
            Self::MissingTrieNode { node_hash, .. } => {
                write!(f, "trie error: missing node {node_hash:?}")
            }
        }
    }
}
impl std::error::Error for TrieError {}
impl From<alloy_rlp::Error> for TrieError {
    fn from(e: alloy_rlp::Error) -> Self {
        Self::Decoder(e)
    }
}
pub type TrieResult<T> = Result<T, TrieError>;
