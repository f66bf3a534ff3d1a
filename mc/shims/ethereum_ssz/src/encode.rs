use std::{num::NonZeroUsize, sync::Arc};

use alloy_primitives::{Address, Bloom, Bytes, FixedBytes, U128, U256};
use smallvec::SmallVec;

use crate::{BYTES_PER_LENGTH_OFFSET, MAX_LENGTH_VALUE};

pub trait Encode {
    fn is_ssz_fixed_len() -> bool;
    fn ssz_append(&self, buf: &mut Vec<u8>);
    fn ssz_fixed_len() -> usize {
        BYTES_PER_LENGTH_OFFSET
    }
    fn ssz_bytes_len(&self) -> usize;
    fn as_ssz_bytes(&self) -> Vec<u8> {
        let mut buf = vec![];
        self.ssz_append(&mut buf);
        buf
    }
}

pub struct SszEncoder<'a> {
    offset: usize,
    buf: &'a mut Vec<u8>,
    variable_bytes: Vec<u8>,
}

impl<'a> SszEncoder<'a> {
    pub fn container(buf: &'a mut Vec<u8>, num_fixed_bytes: usize) -> Self {
        buf.reserve(num_fixed_bytes);
        Self { offset: num_fixed_bytes, buf, variable_bytes: vec![] }
    }
    pub fn append<T: Encode>(&mut self, item: &T) {
        self.append_parameterized(T::is_ssz_fixed_len(), |buf| item.ssz_append(buf))
    }
    pub fn append_parameterized<F: Fn(&mut Vec<u8>)>(&mut self, is_ssz_fixed_len: bool, ssz_append: F) {
        if is_ssz_fixed_len {
            ssz_append(self.buf);
        } else {
            self.buf.extend_from_slice(&encode_length(self.offset + self.variable_bytes.len()));
            ssz_append(&mut self.variable_bytes);
        }
    }
    pub fn finalize(&mut self) -> &mut Vec<u8> {
        self.buf.append(&mut self.variable_bytes);
        self.buf
    }
}

pub fn encode_length(len: usize) -> [u8; BYTES_PER_LENGTH_OFFSET] {
    debug_assert!(len <= MAX_LENGTH_VALUE);
    (len as u32).to_le_bytes()
}

macro_rules! uint {
    ($($t:ident),*) => {$(
        impl Encode for $t {
            fn is_ssz_fixed_len() -> bool { true }
            fn ssz_fixed_len() -> usize { $t::BITS as usize / 8 }
            fn ssz_bytes_len(&self) -> usize { $t::BITS as usize / 8 }
            fn ssz_append(&self, buf: &mut Vec<u8>) { buf.extend_from_slice(&self.to_le_bytes()); }
        }
    )*};
}
uint!(u8, u16, u32, u64, u128, usize);

macro_rules! ruint {
    ($($t:ident, $n:expr);*) => {$(
        impl Encode for $t {
            fn is_ssz_fixed_len() -> bool { true }
            fn ssz_fixed_len() -> usize { $n }
            fn ssz_bytes_len(&self) -> usize { $n }
            fn ssz_append(&self, buf: &mut Vec<u8>) { buf.extend_from_slice(self.as_le_slice()); }
        }
    )*};
}
ruint!(U256, 32; U128, 16);

impl Encode for bool {
    fn is_ssz_fixed_len() -> bool { true }
    fn ssz_fixed_len() -> usize { 1 }
    fn ssz_bytes_len(&self) -> usize { 1 }
    fn ssz_append(&self, buf: &mut Vec<u8>) { buf.push(*self as u8); }
}
impl Encode for NonZeroUsize {
    fn is_ssz_fixed_len() -> bool { true }
    fn ssz_fixed_len() -> usize { 8 }
    fn ssz_bytes_len(&self) -> usize { 8 }
    fn ssz_append(&self, buf: &mut Vec<u8>) { self.get().ssz_append(buf) }
}
impl<const N: usize> Encode for FixedBytes<N> {
    fn is_ssz_fixed_len() -> bool { true }
    fn ssz_fixed_len() -> usize { N }
    fn ssz_bytes_len(&self) -> usize { N }
    fn ssz_append(&self, buf: &mut Vec<u8>) { buf.extend_from_slice(&self.0); }
}
impl<const N: usize> Encode for [u8; N] {
    fn is_ssz_fixed_len() -> bool { true }
    fn ssz_fixed_len() -> usize { N }
    fn ssz_bytes_len(&self) -> usize { N }
    fn ssz_append(&self, buf: &mut Vec<u8>) { buf.extend_from_slice(self); }
}
impl Encode for Address {
    fn is_ssz_fixed_len() -> bool { true }
    fn ssz_fixed_len() -> usize { 20 }
    fn ssz_bytes_len(&self) -> usize { 20 }
    fn ssz_append(&self, buf: &mut Vec<u8>) { buf.extend_from_slice(self.as_slice()); }
}
impl Encode for Bloom {
    fn is_ssz_fixed_len() -> bool { true }
    fn ssz_fixed_len() -> usize { 256 }
    fn ssz_bytes_len(&self) -> usize { 256 }
    fn ssz_append(&self, buf: &mut Vec<u8>) { buf.extend_from_slice(self.as_slice()); }
}
impl Encode for Bytes {
    fn is_ssz_fixed_len() -> bool { false }
    fn ssz_bytes_len(&self) -> usize { self.0.len() }
    fn ssz_append(&self, buf: &mut Vec<u8>) { buf.extend_from_slice(&self.0); }
}

impl<T: Encode> Encode for Option<T> {
    fn is_ssz_fixed_len() -> bool { false }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        match self {
            None => buf.push(0),
            Some(t) => {
                buf.push(1);
                t.ssz_append(buf)
            }
        }
    }
    fn ssz_bytes_len(&self) -> usize {
        1 + self.as_ref().map_or(0, |t| t.ssz_bytes_len())
    }
}
impl<T: Encode> Encode for Arc<T> {
    fn is_ssz_fixed_len() -> bool { T::is_ssz_fixed_len() }
    fn ssz_fixed_len() -> usize { T::ssz_fixed_len() }
    fn ssz_bytes_len(&self) -> usize { self.as_ref().ssz_bytes_len() }
    fn ssz_append(&self, buf: &mut Vec<u8>) { self.as_ref().ssz_append(buf) }
}
impl<T: Encode> Encode for &T {
    fn is_ssz_fixed_len() -> bool { T::is_ssz_fixed_len() }
    fn ssz_fixed_len() -> usize { T::ssz_fixed_len() }
    fn ssz_bytes_len(&self) -> usize { T::ssz_bytes_len(self) }
    fn ssz_append(&self, buf: &mut Vec<u8>) { T::ssz_append(self, buf) }
}

pub fn sequence_ssz_bytes_len<'a, T: Encode + 'a>(it: impl ExactSizeIterator<Item = &'a T>) -> usize {
    if T::is_ssz_fixed_len() {
        T::ssz_fixed_len() * it.len()
    } else {
        let n = it.len();
        it.map(|t| t.ssz_bytes_len()).sum::<usize>() + BYTES_PER_LENGTH_OFFSET * n
    }
}
pub fn sequence_ssz_append<'a, T: Encode + 'a>(it: impl ExactSizeIterator<Item = &'a T>, buf: &mut Vec<u8>) {
    if T::is_ssz_fixed_len() {
        for t in it {
            t.ssz_append(buf);
        }
    } else {
        let mut enc = SszEncoder::container(buf, it.len() * BYTES_PER_LENGTH_OFFSET);
        for t in it {
            enc.append(t);
        }
        enc.finalize();
    }
}
impl<T: Encode> Encode for Vec<T> {
    fn is_ssz_fixed_len() -> bool { false }
    fn ssz_bytes_len(&self) -> usize { sequence_ssz_bytes_len(self.iter()) }
    fn ssz_append(&self, buf: &mut Vec<u8>) { sequence_ssz_append(self.iter(), buf) }
}
impl<T: Encode, const N: usize> Encode for SmallVec<[T; N]>
where
    [T; N]: smallvec::Array<Item = T>,
{
    fn is_ssz_fixed_len() -> bool { false }
    fn ssz_bytes_len(&self) -> usize { sequence_ssz_bytes_len(self.iter()) }
    fn ssz_append(&self, buf: &mut Vec<u8>) { sequence_ssz_append(self.iter(), buf) }
}

macro_rules! tuple {
    ($($T:ident $i:tt),+) => {
        impl<$($T: Encode),+> Encode for ($($T,)+) {
            fn is_ssz_fixed_len() -> bool { $(<$T as Encode>::is_ssz_fixed_len() &&)+ true }
            fn ssz_fixed_len() -> usize {
                if <Self as Encode>::is_ssz_fixed_len() { $(<$T as Encode>::ssz_fixed_len() +)+ 0 } else { BYTES_PER_LENGTH_OFFSET }
            }
            fn ssz_bytes_len(&self) -> usize {
                if <Self as Encode>::is_ssz_fixed_len() {
                    <Self as Encode>::ssz_fixed_len()
                } else {
                    let mut len = 0;
                    $(len += if <$T as Encode>::is_ssz_fixed_len() { <$T as Encode>::ssz_fixed_len() } else { BYTES_PER_LENGTH_OFFSET + self.$i.ssz_bytes_len() };)+
                    len
                }
            }
            fn ssz_append(&self, buf: &mut Vec<u8>) {
                let offset = $(<$T as Encode>::ssz_fixed_len() +)+ 0;
                let mut encoder = SszEncoder::container(buf, offset);
                $(encoder.append(&self.$i);)+
                encoder.finalize();
            }
        }
    };
}
tuple!(A 0, B 1);
tuple!(A 0, B 1, C 2);
tuple!(A 0, B 1, C 2, D 3);
tuple!(A 0, B 1, C 2, D 3, E 4);
