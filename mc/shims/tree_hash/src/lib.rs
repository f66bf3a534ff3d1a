//! SSZ merkleization with the API of `tree_hash` 0.10.
use std::sync::Arc;

use alloy_primitives::{Address, FixedBytes, B256, U128, U256};
use ethereum_hashing::{hash32_concat, ZERO_HASHES};
use smallvec::SmallVec;
use typenum::Unsigned;

pub const BYTES_PER_CHUNK: usize = 32;
pub const HASHSIZE: usize = 32;
pub const MERKLE_HASH_CHUNK: usize = 2 * BYTES_PER_CHUNK;
pub const MAX_UNION_SELECTOR: u8 = 127;

pub type Hash256 = B256;
pub type PackedEncoding = SmallVec<[u8; BYTES_PER_CHUNK]>;

#[derive(Debug, PartialEq, Clone)]
pub enum TreeHashType {
    Basic,
    Vector,
    List,
    Container,
}

pub trait TreeHash {
    fn tree_hash_type() -> TreeHashType;
    fn tree_hash_packed_encoding(&self) -> PackedEncoding;
    fn tree_hash_packing_factor() -> usize;
    fn tree_hash_root(&self) -> Hash256;
}

impl<T: TreeHash> TreeHash for &T {
    fn tree_hash_type() -> TreeHashType {
        T::tree_hash_type()
    }
    fn tree_hash_packed_encoding(&self) -> PackedEncoding {
        T::tree_hash_packed_encoding(*self)
    }
    fn tree_hash_packing_factor() -> usize {
        T::tree_hash_packing_factor()
    }
    fn tree_hash_root(&self) -> Hash256 {
        T::tree_hash_root(*self)
    }
}
impl<T: TreeHash> TreeHash for Arc<T> {
    fn tree_hash_type() -> TreeHashType {
        T::tree_hash_type()
    }
    fn tree_hash_packed_encoding(&self) -> PackedEncoding {
        self.as_ref().tree_hash_packed_encoding()
    }
    fn tree_hash_packing_factor() -> usize {
        T::tree_hash_packing_factor()
    }
    fn tree_hash_root(&self) -> Hash256 {
        self.as_ref().tree_hash_root()
    }
}

/// Merkleizes a sequence of chunks as if zero-padded to `limit` leaves (rounded up to a power of two).
fn merkleize(mut layer: Vec<[u8; 32]>, limit: usize) -> Hash256 {
    let limit = std::cmp::max(limit, 1).next_power_of_two();
    let depth = limit.trailing_zeros() as usize;
    if layer.is_empty() {
        return Hash256::from(ZERO_HASHES[depth]);
    }
    for level in 0..depth {
        if layer.len() % 2 == 1 {
            layer.push(ZERO_HASHES[level]);
        }
        layer = layer.chunks(2).map(|p| hash32_concat(&p[0], &p[1])).collect();
    }
    debug_assert_eq!(layer.len(), 1);
    Hash256::from(layer[0])
}

#[derive(Clone, PartialEq, Debug)]
pub enum Error {
    MaximumLeavesExceeded { max_leaves: usize },
}

/// Streaming merkle hasher (buffered implementation).
pub struct MerkleHasher {
    bytes: Vec<u8>,
    leaves: usize,
}
impl MerkleHasher {
    pub fn with_leaves(num_leaves: usize) -> Self {
        Self { bytes: vec![], leaves: num_leaves }
    }
    pub fn with_depth(depth: usize) -> Self {
        Self::with_leaves(1 << depth.saturating_sub(1))
    }
    pub fn write(&mut self, bytes: &[u8]) -> Result<(), Error> {
        self.bytes.extend_from_slice(bytes);
        let max = std::cmp::max(self.leaves, 1).next_power_of_two();
        if self.bytes.len().div_ceil(BYTES_PER_CHUNK) > max {
            return Err(Error::MaximumLeavesExceeded { max_leaves: self.leaves });
        }
        Ok(())
    }
    pub fn finish(self) -> Result<Hash256, Error> {
        Ok(merkleize(chunks(&self.bytes), self.leaves))
    }
}

fn chunks(bytes: &[u8]) -> Vec<[u8; 32]> {
    bytes
        .chunks(BYTES_PER_CHUNK)
        .map(|c| {
            let mut chunk = [0; 32];
            chunk[..c.len()].copy_from_slice(c);
            chunk
        })
        .collect()
}

pub fn merkle_root(bytes: &[u8], minimum_leaf_count: usize) -> Hash256 {
    let leaves = std::cmp::max(bytes.len().div_ceil(BYTES_PER_CHUNK), minimum_leaf_count);
    merkleize(chunks(bytes), leaves)
}

pub fn mix_in_length(root: &Hash256, length: usize) -> Hash256 {
    let mut length_bytes = [0; BYTES_PER_CHUNK];
    length_bytes[0..8].copy_from_slice(&(length as u64).to_le_bytes());
    Hash256::from(hash32_concat(root.as_slice(), &length_bytes))
}

pub fn mix_in_selector(root: &Hash256, selector: u8) -> Option<Hash256> {
    if selector > MAX_UNION_SELECTOR {
        return None;
    }
    let mut chunk = [0; BYTES_PER_CHUNK];
    chunk[0] = selector;
    Some(Hash256::from(hash32_concat(root.as_slice(), &chunk)))
}

fn int_to_hash256(int: u64) -> Hash256 {
    let mut bytes = [0; 32];
    bytes[0..8].copy_from_slice(&int.to_le_bytes());
    Hash256::from(bytes)
}

macro_rules! uint {
    ($($t:ident),*) => {$(
        impl TreeHash for $t {
            fn tree_hash_type() -> TreeHashType { TreeHashType::Basic }
            fn tree_hash_packed_encoding(&self) -> PackedEncoding { PackedEncoding::from_slice(&self.to_le_bytes()) }
            fn tree_hash_packing_factor() -> usize { HASHSIZE / ($t::BITS as usize / 8) }
            fn tree_hash_root(&self) -> Hash256 { int_to_hash256(*self as u64) }
        }
    )*};
}
uint!(u8, u16, u32, u64, usize);

impl TreeHash for bool {
    fn tree_hash_type() -> TreeHashType {
        TreeHashType::Basic
    }
    fn tree_hash_packed_encoding(&self) -> PackedEncoding {
        (*self as u8).tree_hash_packed_encoding()
    }
    fn tree_hash_packing_factor() -> usize {
        u8::tree_hash_packing_factor()
    }
    fn tree_hash_root(&self) -> Hash256 {
        int_to_hash256(*self as u64)
    }
}
impl<const N: usize> TreeHash for [u8; N] {
    fn tree_hash_type() -> TreeHashType {
        TreeHashType::Vector
    }
    fn tree_hash_packed_encoding(&self) -> PackedEncoding {
        unreachable!("bytesN should never be packed.")
    }
    fn tree_hash_packing_factor() -> usize {
        unreachable!("bytesN should never be packed.")
    }
    fn tree_hash_root(&self) -> Hash256 {
        merkle_root(&self[..], 0)
    }
}
impl<const N: usize> TreeHash for FixedBytes<N> {
    fn tree_hash_type() -> TreeHashType {
        TreeHashType::Vector
    }
    fn tree_hash_packed_encoding(&self) -> PackedEncoding {
        PackedEncoding::from_slice(&self.0)
    }
    fn tree_hash_packing_factor() -> usize {
        1
    }
    fn tree_hash_root(&self) -> Hash256 {
        merkle_root(&self.0, 0)
    }
}
impl TreeHash for Address {
    fn tree_hash_type() -> TreeHashType {
        TreeHashType::Vector
    }
    fn tree_hash_packed_encoding(&self) -> PackedEncoding {
        let mut v = PackedEncoding::from_slice(self.as_slice());
        v.resize(32, 0);
        v
    }
    fn tree_hash_packing_factor() -> usize {
        1
    }
    fn tree_hash_root(&self) -> Hash256 {
        merkle_root(self.as_slice(), 0)
    }
}
impl TreeHash for U256 {
    fn tree_hash_type() -> TreeHashType {
        TreeHashType::Basic
    }
    fn tree_hash_packed_encoding(&self) -> PackedEncoding {
        PackedEncoding::from_slice(self.as_le_slice())
    }
    fn tree_hash_packing_factor() -> usize {
        1
    }
    fn tree_hash_root(&self) -> Hash256 {
        Hash256::from_slice(self.as_le_slice())
    }
}
impl TreeHash for U128 {
    fn tree_hash_type() -> TreeHashType {
        TreeHashType::Basic
    }
    fn tree_hash_packed_encoding(&self) -> PackedEncoding {
        PackedEncoding::from_slice(self.as_le_slice())
    }
    fn tree_hash_packing_factor() -> usize {
        2
    }
    fn tree_hash_root(&self) -> Hash256 {
        Hash256::right_padding_from(self.as_le_slice())
    }
}

impl<N: Unsigned + Clone> TreeHash for ssz::BitList<N> {
    fn tree_hash_type() -> TreeHashType {
        TreeHashType::List
    }
    fn tree_hash_packed_encoding(&self) -> PackedEncoding {
        unreachable!("List should never be packed.")
    }
    fn tree_hash_packing_factor() -> usize {
        unreachable!("List should never be packed.")
    }
    fn tree_hash_root(&self) -> Hash256 {
        let root = bitfield_bytes_tree_hash_root::<N>(self.as_slice(), self.len());
        mix_in_length(&root, self.len())
    }
}
impl<N: Unsigned + Clone> TreeHash for ssz::BitVector<N> {
    fn tree_hash_type() -> TreeHashType {
        TreeHashType::Vector
    }
    fn tree_hash_packed_encoding(&self) -> PackedEncoding {
        unreachable!("Vector should never be packed.")
    }
    fn tree_hash_packing_factor() -> usize {
        unreachable!("Vector should never be packed.")
    }
    fn tree_hash_root(&self) -> Hash256 {
        bitfield_bytes_tree_hash_root::<N>(self.as_slice(), self.len())
    }
}
fn bitfield_bytes_tree_hash_root<N: Unsigned>(bytes: &[u8], _len: usize) -> Hash256 {
    let leaf_count = N::to_usize().div_ceil(8).div_ceil(BYTES_PER_CHUNK);
    let mut hasher = MerkleHasher::with_leaves(leaf_count);
    hasher.write(bytes).expect("bitfield should not exceed tree hash leaf limit");
    hasher.finish().expect("bitfield tree hash buffer should not exceed leaf limit")
}
