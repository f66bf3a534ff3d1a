use std::marker::PhantomData;

use serde::{Deserialize, Deserializer, Serialize, Serializer};
use serde_utils::hex::{encode as hex_encode, PrefixedHexVisitor};
use smallvec::{smallvec, SmallVec};
use typenum::Unsigned;

use crate::{BitfieldError as Error, Decode, DecodeError, Encode};

pub const SMALLVEC_LEN: usize = 32;

pub trait BitfieldBehaviour: Clone {}
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Variable<N> {
    _phantom: PhantomData<N>,
}
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Fixed<N> {
    _phantom: PhantomData<N>,
}
impl<N: Unsigned + Clone> BitfieldBehaviour for Variable<N> {}
impl<N: Unsigned + Clone> BitfieldBehaviour for Fixed<N> {}

pub type BitList<N> = Bitfield<Variable<N>>;
pub type BitVector<N> = Bitfield<Fixed<N>>;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Bitfield<T> {
    bytes: SmallVec<[u8; SMALLVEC_LEN]>,
    len: usize,
    _phantom: PhantomData<T>,
}

impl<N: Unsigned + Clone> Bitfield<Variable<N>> {
    pub fn with_capacity(num_bits: usize) -> Result<Self, Error> {
        if num_bits <= N::to_usize() {
            Ok(Self { bytes: smallvec![0; bytes_for_bit_len(num_bits)], len: num_bits, _phantom: PhantomData })
        } else {
            Err(Error::OutOfBounds { i: Self::max_len(), len: Self::max_len() })
        }
    }
    pub fn max_len() -> usize {
        N::to_usize()
    }
    pub fn into_bytes(self) -> SmallVec<[u8; SMALLVEC_LEN]> {
        let len = self.len();
        let mut bytes = self.bytes;
        bytes.resize(bytes_for_bit_len(len + 1), 0);
        let mut bitfield: Bitfield<Variable<N>> =
            Bitfield::from_raw_bytes(bytes, len + 1).expect("len + 1 bits fits");
        bitfield.set(len, true).expect("len is in bounds for bitfield.");
        bitfield.bytes
    }
    pub fn from_bytes(bytes: SmallVec<[u8; SMALLVEC_LEN]>) -> Result<Self, Error> {
        let bytes_len = bytes.len();
        let mut initial: Bitfield<Variable<N>> = {
            let num_bits = bytes.len() * 8;
            Bitfield::from_raw_bytes(bytes, num_bits)?
        };
        let len = initial.highest_set_bit().ok_or(Error::MissingLengthInformation)?;
        if len / 8 + 1 != bytes_len {
            return Err(Error::InvalidByteCount { given: bytes_len, expected: len / 8 + 1 });
        }
        if len <= Self::max_len() {
            initial.set(len, false).expect("Bit has been confirmed to exist");
            let mut bytes = initial.into_raw_bytes();
            bytes.truncate(bytes_for_bit_len(len));
            Self::from_raw_bytes(bytes, len)
        } else {
            Err(Error::OutOfBounds { i: Self::max_len(), len: Self::max_len() })
        }
    }
}

impl<N: Unsigned + Clone> Bitfield<Fixed<N>> {
    pub fn new() -> Self {
        Self { bytes: smallvec![0; bytes_for_bit_len(Self::capacity())], len: Self::capacity(), _phantom: PhantomData }
    }
    pub fn capacity() -> usize {
        N::to_usize()
    }
    pub fn into_bytes(self) -> SmallVec<[u8; SMALLVEC_LEN]> {
        self.into_raw_bytes()
    }
    pub fn from_bytes(bytes: SmallVec<[u8; SMALLVEC_LEN]>) -> Result<Self, Error> {
        Self::from_raw_bytes(bytes, Self::capacity())
    }
}
impl<N: Unsigned + Clone> Default for Bitfield<Fixed<N>> {
    fn default() -> Self {
        Self::new()
    }
}

impl<T: BitfieldBehaviour> Bitfield<T> {
    pub fn set(&mut self, i: usize, value: bool) -> Result<(), Error> {
        let len = self.len;
        if i < len {
            let byte = self.bytes.get_mut(i / 8).ok_or(Error::OutOfBounds { i, len })?;
            if value {
                *byte |= 1 << (i % 8)
            } else {
                *byte &= !(1 << (i % 8))
            }
            Ok(())
        } else {
            Err(Error::OutOfBounds { i, len: self.len })
        }
    }
    pub fn get(&self, i: usize) -> Result<bool, Error> {
        if i < self.len {
            let byte = self.bytes.get(i / 8).ok_or(Error::OutOfBounds { i, len: self.len })?;
            Ok(*byte & 1 << (i % 8) > 0)
        } else {
            Err(Error::OutOfBounds { i, len: self.len })
        }
    }
    pub fn len(&self) -> usize {
        self.len
    }
    pub fn is_empty(&self) -> bool {
        self.len == 0
    }
    pub fn into_raw_bytes(self) -> SmallVec<[u8; SMALLVEC_LEN]> {
        self.bytes
    }
    pub fn as_slice(&self) -> &[u8] {
        &self.bytes
    }
    pub fn from_raw_bytes(bytes: SmallVec<[u8; SMALLVEC_LEN]>, bit_len: usize) -> Result<Self, Error> {
        if bit_len == 0 {
            if bytes.len() == 1 && bytes[0] == 0 {
                Ok(Self { bytes, len: 0, _phantom: PhantomData })
            } else {
                Err(Error::ExcessBits)
            }
        } else if bytes.len() != bytes_for_bit_len(bit_len) {
            Err(Error::InvalidByteCount { given: bytes.len(), expected: bytes_for_bit_len(bit_len) })
        } else {
            let (mask, _) = u8::MAX.overflowing_shr(8 - (bit_len as u32 % 8));
            if (bytes.last().expect("Guarded against empty bytes") & !mask) == 0 || bit_len % 8 == 0 {
                Ok(Self { bytes, len: bit_len, _phantom: PhantomData })
            } else {
                Err(Error::ExcessBits)
            }
        }
    }
    pub fn highest_set_bit(&self) -> Option<usize> {
        self.bytes
            .iter()
            .enumerate()
            .rev()
            .find(|(_, byte)| **byte > 0)
            .map(|(i, byte)| i * 8 + 7 - byte.leading_zeros() as usize)
    }
    pub fn iter(&self) -> BitIter<'_, T> {
        BitIter { bitfield: self, i: 0 }
    }
    pub fn is_zero(&self) -> bool {
        self.bytes.iter().all(|byte| *byte == 0)
    }
    pub fn num_set_bits(&self) -> usize {
        self.bytes.iter().map(|byte| byte.count_ones() as usize).sum()
    }
}

fn bytes_for_bit_len(bit_len: usize) -> usize {
    std::cmp::max(1, bit_len.div_ceil(8))
}

pub struct BitIter<'a, T> {
    bitfield: &'a Bitfield<T>,
    i: usize,
}
impl<T: BitfieldBehaviour> Iterator for BitIter<'_, T> {
    type Item = bool;
    fn next(&mut self) -> Option<Self::Item> {
        let res = self.bitfield.get(self.i).ok()?;
        self.i += 1;
        Some(res)
    }
}

impl<N: Unsigned + Clone> Encode for Bitfield<Variable<N>> {
    fn is_ssz_fixed_len() -> bool { false }
    fn ssz_bytes_len(&self) -> usize { self.clone().into_bytes().len() }
    fn ssz_append(&self, buf: &mut Vec<u8>) { buf.extend_from_slice(&self.clone().into_bytes()) }
}
impl<N: Unsigned + Clone> Decode for Bitfield<Variable<N>> {
    fn is_ssz_fixed_len() -> bool { false }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
        Self::from_bytes(bytes.to_vec().into())
            .map_err(|e| DecodeError::BytesInvalid(format!("BitList failed to decode: {e:?}")))
    }
}
impl<N: Unsigned + Clone> Encode for Bitfield<Fixed<N>> {
    fn is_ssz_fixed_len() -> bool { true }
    fn ssz_fixed_len() -> usize { bytes_for_bit_len(N::to_usize()) }
    fn ssz_bytes_len(&self) -> usize { self.as_slice().len() }
    fn ssz_append(&self, buf: &mut Vec<u8>) { buf.extend_from_slice(self.as_slice()) }
}
impl<N: Unsigned + Clone> Decode for Bitfield<Fixed<N>> {
    fn is_ssz_fixed_len() -> bool { true }
    fn ssz_fixed_len() -> usize { bytes_for_bit_len(N::to_usize()) }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
        Self::from_bytes(bytes.to_vec().into())
            .map_err(|e| DecodeError::BytesInvalid(format!("BitVector failed to decode: {e:?}")))
    }
}
impl<N: Unsigned + Clone> Serialize for Bitfield<Variable<N>> {
    fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
        serializer.serialize_str(&hex_encode(self.as_ssz_bytes()))
    }
}
impl<'de, N: Unsigned + Clone> Deserialize<'de> for Bitfield<Variable<N>> {
    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
        let bytes = deserializer.deserialize_str(PrefixedHexVisitor)?;
        Self::from_ssz_bytes(&bytes).map_err(|e| serde::de::Error::custom(format!("Bitfield {e:?}")))
    }
}
impl<N: Unsigned + Clone> Serialize for Bitfield<Fixed<N>> {
    fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
        serializer.serialize_str(&hex_encode(self.as_ssz_bytes()))
    }
}
impl<'de, N: Unsigned + Clone> Deserialize<'de> for Bitfield<Fixed<N>> {
    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
        let bytes = deserializer.deserialize_str(PrefixedHexVisitor)?;
        Self::from_ssz_bytes(&bytes).map_err(|e| serde::de::Error::custom(format!("Bitfield {e:?}")))
    }
}
