use std::{
    marker::PhantomData,
    ops::{Deref, DerefMut, Index, IndexMut},
    slice::SliceIndex,
};

use serde::{Deserialize, Deserializer, Serialize, Serializer};
use tree_hash::Hash256;
use typenum::Unsigned;

use crate::{tree::vec_tree_hash_root, Error};

pub struct VariableList<T, N> {
    vec: Vec<T>,
    _phantom: PhantomData<N>,
}

impl<T: Clone, N> Clone for VariableList<T, N> {
    fn clone(&self) -> Self {
        Self { vec: self.vec.clone(), _phantom: PhantomData }
    }
}
impl<T: std::fmt::Debug, N> std::fmt::Debug for VariableList<T, N> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_struct("VariableList").field("vec", &self.vec).finish()
    }
}
impl<T: PartialEq, N> PartialEq for VariableList<T, N> {
    fn eq(&self, other: &Self) -> bool {
        self.vec == other.vec
    }
}
impl<T: Eq, N> Eq for VariableList<T, N> {}
impl<T: std::hash::Hash, N> std::hash::Hash for VariableList<T, N> {
    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
        self.vec.hash(state)
    }
}
impl<T: Serialize, N> Serialize for VariableList<T, N> {
    fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
        self.vec.serialize(serializer)
    }
}
impl<'de, T: Deserialize<'de>, N: Unsigned> Deserialize<'de> for VariableList<T, N> {
    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
        Vec::deserialize(deserializer).map(|vec| Self { vec, _phantom: PhantomData })
    }
}

impl<T, N: Unsigned> VariableList<T, N> {
    pub fn new(vec: Vec<T>) -> Result<Self, Error> {
        if vec.len() <= N::to_usize() {
            Ok(Self { vec, _phantom: PhantomData })
        } else {
            Err(Error::OutOfBounds { i: vec.len(), len: Self::max_len() })
        }
    }
    pub fn empty() -> Self {
        Self { vec: vec![], _phantom: PhantomData }
    }
    pub fn len(&self) -> usize {
        self.vec.len()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn max_len() -> usize {
        N::to_usize()
    }
    pub fn push(&mut self, value: T) -> Result<(), Error> {
        if self.vec.len() < Self::max_len() {
            self.vec.push(value);
            Ok(())
        } else {
            Err(Error::OutOfBounds { i: self.vec.len() + 1, len: Self::max_len() })
        }
    }
}

impl<T, N: Unsigned> From<Vec<T>> for VariableList<T, N> {
    fn from(mut vec: Vec<T>) -> Self {
        vec.truncate(N::to_usize());
        Self { vec, _phantom: PhantomData }
    }
}
impl<T, N: Unsigned> From<VariableList<T, N>> for Vec<T> {
    fn from(list: VariableList<T, N>) -> Vec<T> {
        list.vec
    }
}
impl<T, N: Unsigned> FromIterator<T> for VariableList<T, N> {
    fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
        Self { vec: iter.into_iter().take(N::to_usize()).collect(), _phantom: PhantomData }
    }
}
impl<T, N> Default for VariableList<T, N> {
    fn default() -> Self {
        Self { vec: vec![], _phantom: PhantomData }
    }
}
impl<T, N: Unsigned, I: SliceIndex<[T]>> Index<I> for VariableList<T, N> {
    type Output = I::Output;
    fn index(&self, index: I) -> &Self::Output {
        Index::index(&self.vec, index)
    }
}
impl<T, N: Unsigned, I: SliceIndex<[T]>> IndexMut<I> for VariableList<T, N> {
    fn index_mut(&mut self, index: I) -> &mut Self::Output {
        IndexMut::index_mut(&mut self.vec, index)
    }
}
impl<T, N: Unsigned> Deref for VariableList<T, N> {
    type Target = [T];
    fn deref(&self) -> &[T] {
        &self.vec[..]
    }
}
impl<T, N: Unsigned> DerefMut for VariableList<T, N> {
    fn deref_mut(&mut self) -> &mut [T] {
        &mut self.vec[..]
    }
}
impl<T, N: Unsigned> AsRef<[T]> for VariableList<T, N> {
    fn as_ref(&self) -> &[T] {
        &self.vec
    }
}
impl<'a, T, N: Unsigned> IntoIterator for &'a VariableList<T, N> {
    type Item = &'a T;
    type IntoIter = std::slice::Iter<'a, T>;
    fn into_iter(self) -> Self::IntoIter {
        self.vec.iter()
    }
}
impl<T, N: Unsigned> IntoIterator for VariableList<T, N> {
    type Item = T;
    type IntoIter = std::vec::IntoIter<T>;
    fn into_iter(self) -> Self::IntoIter {
        self.vec.into_iter()
    }
}
impl<T, N: Unsigned> PartialEq<Vec<T>> for VariableList<T, N>
where
    T: PartialEq,
{
    fn eq(&self, other: &Vec<T>) -> bool {
        &self.vec == other
    }
}

impl<T: tree_hash::TreeHash, N: Unsigned> tree_hash::TreeHash for VariableList<T, N> {
    fn tree_hash_type() -> tree_hash::TreeHashType {
        tree_hash::TreeHashType::List
    }
    fn tree_hash_packed_encoding(&self) -> tree_hash::PackedEncoding {
        unreachable!("List should never be packed.")
    }
    fn tree_hash_packing_factor() -> usize {
        unreachable!("List should never be packed.")
    }
    fn tree_hash_root(&self) -> Hash256 {
        let root = vec_tree_hash_root::<T, N>(&self.vec);
        tree_hash::mix_in_length(&root, self.len())
    }
}

impl<T: ssz::Encode, N: Unsigned> ssz::Encode for VariableList<T, N> {
    fn is_ssz_fixed_len() -> bool {
        <Vec<T>>::is_ssz_fixed_len()
    }
    fn ssz_bytes_len(&self) -> usize {
        self.vec.ssz_bytes_len()
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        self.vec.ssz_append(buf)
    }
}

impl<T: ssz::Decode, N: Unsigned> ssz::Decode for VariableList<T, N> {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, ssz::DecodeError> {
        let max_len = N::to_usize();
        if bytes.is_empty() {
            return Ok(Self::default());
        }
        if T::is_ssz_fixed_len() {
            let num_items =
                bytes.len().checked_div(T::ssz_fixed_len()).ok_or(ssz::DecodeError::ZeroLengthItem)?;
            if num_items > max_len {
                return Err(ssz::DecodeError::BytesInvalid(format!(
                    "VariableList of {num_items} items exceeds maximum of {max_len}"
                )));
            }
            let vec = bytes
                .chunks(T::ssz_fixed_len())
                .map(T::from_ssz_bytes)
                .collect::<Result<Vec<_>, _>>()?;
            Self::new(vec).map_err(|e| ssz::DecodeError::BytesInvalid(format!("{e:?}")))
        } else {
            let vec: Vec<T> = ssz::decode_list_of_variable_length_items(bytes, Some(max_len))?;
            Ok(Self { vec, _phantom: PhantomData })
        }
    }
}
