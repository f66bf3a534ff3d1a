use std::{
    marker::PhantomData,
    ops::{Deref, DerefMut, Index, IndexMut},
    slice::SliceIndex,
};

use serde::{Deserialize, Deserializer, Serialize, Serializer};
use tree_hash::Hash256;
use typenum::Unsigned;

use crate::{tree::vec_tree_hash_root, Error};

pub struct FixedVector<T, N> {
    vec: Vec<T>,
    _phantom: PhantomData<N>,
}

impl<T: Clone, N> Clone for FixedVector<T, N> {
    fn clone(&self) -> Self {
        Self { vec: self.vec.clone(), _phantom: PhantomData }
    }
}
impl<T: std::fmt::Debug, N> std::fmt::Debug for FixedVector<T, N> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_struct("FixedVector").field("vec", &self.vec).finish()
    }
}
impl<T: PartialEq, N> PartialEq for FixedVector<T, N> {
    fn eq(&self, other: &Self) -> bool {
        self.vec == other.vec
    }
}
impl<T: Eq, N> Eq for FixedVector<T, N> {}
impl<T: std::hash::Hash, N> std::hash::Hash for FixedVector<T, N> {
    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
        self.vec.hash(state)
    }
}
impl<T: Serialize, N> Serialize for FixedVector<T, N> {
    fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
        self.vec.serialize(serializer)
    }
}
impl<'de, T: Deserialize<'de>, N: Unsigned> Deserialize<'de> for FixedVector<T, N> {
    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
        let vec = Vec::deserialize(deserializer)?;
        Self::new(vec).map_err(|e| serde::de::Error::custom(format!("{e:?}")))
    }
}

impl<T, N: Unsigned> FixedVector<T, N> {
    pub fn new(vec: Vec<T>) -> Result<Self, Error> {
        if vec.len() == Self::capacity() {
            Ok(Self { vec, _phantom: PhantomData })
        } else {
            Err(Error::OutOfBounds { i: vec.len(), len: Self::capacity() })
        }
    }
    pub fn from_elem(elem: T) -> Self
    where
        T: Clone,
    {
        Self { vec: vec![elem; N::to_usize()], _phantom: PhantomData }
    }
    pub fn len(&self) -> usize {
        self.vec.len()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn capacity() -> usize {
        N::to_usize()
    }
    pub fn to_vec(&self) -> Vec<T>
    where
        T: Clone,
    {
        self.vec.clone()
    }
}
impl<T: Default, N: Unsigned> From<Vec<T>> for FixedVector<T, N> {
    fn from(mut vec: Vec<T>) -> Self {
        vec.resize_with(Self::capacity(), Default::default);
        Self { vec, _phantom: PhantomData }
    }
}
impl<T, N: Unsigned> From<FixedVector<T, N>> for Vec<T> {
    fn from(v: FixedVector<T, N>) -> Vec<T> {
        v.vec
    }
}
impl<T: Default, N: Unsigned> Default for FixedVector<T, N> {
    fn default() -> Self {
        Self { vec: (0..N::to_usize()).map(|_| T::default()).collect(), _phantom: PhantomData }
    }
}
impl<T, N: Unsigned, I: SliceIndex<[T]>> Index<I> for FixedVector<T, N> {
    type Output = I::Output;
    fn index(&self, index: I) -> &Self::Output {
        Index::index(&self.vec, index)
    }
}
impl<T, N: Unsigned, I: SliceIndex<[T]>> IndexMut<I> for FixedVector<T, N> {
    fn index_mut(&mut self, index: I) -> &mut Self::Output {
        IndexMut::index_mut(&mut self.vec, index)
    }
}
impl<T, N: Unsigned> Deref for FixedVector<T, N> {
    type Target = [T];
    fn deref(&self) -> &[T] {
        &self.vec[..]
    }
}
impl<T, N: Unsigned> DerefMut for FixedVector<T, N> {
    fn deref_mut(&mut self) -> &mut [T] {
        &mut self.vec[..]
    }
}
impl<T, N: Unsigned> AsRef<[T]> for FixedVector<T, N> {
    fn as_ref(&self) -> &[T] {
        &self.vec
    }
}
impl<T, N: Unsigned> IntoIterator for FixedVector<T, N> {
    type Item = T;
    type IntoIter = std::vec::IntoIter<T>;
    fn into_iter(self) -> Self::IntoIter {
        self.vec.into_iter()
    }
}
impl<'a, T, N: Unsigned> IntoIterator for &'a FixedVector<T, N> {
    type Item = &'a T;
    type IntoIter = std::slice::Iter<'a, T>;
    fn into_iter(self) -> Self::IntoIter {
        self.vec.iter()
    }
}
impl<T: Default, N: Unsigned> FromIterator<T> for FixedVector<T, N> {
    fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
        Self::from(iter.into_iter().collect::<Vec<_>>())
    }
}

impl<T: tree_hash::TreeHash, N: Unsigned> tree_hash::TreeHash for FixedVector<T, N> {
    fn tree_hash_type() -> tree_hash::TreeHashType {
        tree_hash::TreeHashType::Vector
    }
    fn tree_hash_packed_encoding(&self) -> tree_hash::PackedEncoding {
        unreachable!("Vector should never be packed.")
    }
    fn tree_hash_packing_factor() -> usize {
        unreachable!("Vector should never be packed.")
    }
    fn tree_hash_root(&self) -> Hash256 {
        vec_tree_hash_root::<T, N>(&self.vec)
    }
}
impl<T: ssz::Encode, N: Unsigned> ssz::Encode for FixedVector<T, N> {
    fn is_ssz_fixed_len() -> bool {
        T::is_ssz_fixed_len()
    }
    fn ssz_fixed_len() -> usize {
        if <Self as ssz::Encode>::is_ssz_fixed_len() {
            T::ssz_fixed_len() * N::to_usize()
        } else {
            ssz::BYTES_PER_LENGTH_OFFSET
        }
    }
    fn ssz_bytes_len(&self) -> usize {
        self.vec.ssz_bytes_len()
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        self.vec.ssz_append(buf)
    }
}
impl<T: ssz::Decode, N: Unsigned> ssz::Decode for FixedVector<T, N> {
    fn is_ssz_fixed_len() -> bool {
        T::is_ssz_fixed_len()
    }
    fn ssz_fixed_len() -> usize {
        if <Self as ssz::Decode>::is_ssz_fixed_len() {
            T::ssz_fixed_len() * N::to_usize()
        } else {
            ssz::BYTES_PER_LENGTH_OFFSET
        }
    }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, ssz::DecodeError> {
        let fixed_len = N::to_usize();
        if bytes.is_empty() {
            Err(ssz::DecodeError::InvalidByteLength { len: 0, expected: 1 })
        } else if T::is_ssz_fixed_len() {
            let num_items =
                bytes.len().checked_div(T::ssz_fixed_len()).ok_or(ssz::DecodeError::ZeroLengthItem)?;
            if num_items != fixed_len {
                return Err(ssz::DecodeError::BytesInvalid(format!(
                    "FixedVector of {fixed_len} items has {num_items} items",
                )));
            }
            let vec = bytes
                .chunks(T::ssz_fixed_len())
                .map(T::from_ssz_bytes)
                .collect::<Result<Vec<T>, _>>()?;
            Self::new(vec).map_err(|e| ssz::DecodeError::BytesInvalid(format!("Wrong number of FixedVector elements: {e:?}")))
        } else {
            let vec: Vec<T> = ssz::decode_list_of_variable_length_items(bytes, Some(fixed_len))?;
            Self::new(vec).map_err(|e| ssz::DecodeError::BytesInvalid(format!("Wrong number of FixedVector elements: {e:?}")))
        }
    }
}
