use std::{collections::VecDeque, num::NonZeroUsize, sync::Arc};

use alloy_primitives::{Address, Bloom, Bytes, FixedBytes, U128, U256};
use smallvec::SmallVec;

use crate::{UnionSelector, BYTES_PER_LENGTH_OFFSET, BYTES_PER_UNION_SELECTOR};

#[derive(Debug, PartialEq, Clone)]
pub enum DecodeError {
    InvalidByteLength { len: usize, expected: usize },
    InvalidLengthPrefix { len: usize, expected: usize },
    OutOfBoundsByte { i: usize },
    OffsetIntoFixedPortion(usize),
    OffsetSkipsVariableBytes(usize),
    OffsetsAreDecreasing(usize),
    OffsetOutOfBounds(usize),
    InvalidListFixedBytesLen(usize),
    ZeroLengthItem,
    BytesInvalid(String),
    UnionSelectorInvalid(u8),
    NoMatchingVariant,
}
impl std::fmt::Display for DecodeError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for DecodeError {}

pub mod try_from_iter {
    use std::convert::Infallible;
    use std::fmt::Debug;

    pub trait TryFromIter<T>: Sized {
        type Error: Debug;
        fn try_from_iter<I: IntoIterator<Item = T>>(iter: I) -> Result<Self, Self::Error>;
    }
    impl<T> TryFromIter<T> for Vec<T> {
        type Error = Infallible;
        fn try_from_iter<I: IntoIterator<Item = T>>(iter: I) -> Result<Self, Self::Error> {
            Ok(iter.into_iter().collect())
        }
    }
}
use try_from_iter::TryFromIter;

pub fn sanitize_offset(
    offset: usize,
    previous_offset: Option<usize>,
    num_bytes: usize,
    num_fixed_bytes: Option<usize>,
) -> Result<usize, DecodeError> {
    if num_fixed_bytes.is_some_and(|fixed| offset < fixed) {
        Err(DecodeError::OffsetIntoFixedPortion(offset))
    } else if previous_offset.is_none() && num_fixed_bytes.is_some_and(|fixed| offset != fixed) {
        Err(DecodeError::OffsetSkipsVariableBytes(offset))
    } else if offset > num_bytes {
        Err(DecodeError::OffsetOutOfBounds(offset))
    } else if previous_offset.is_some_and(|prev| prev > offset) {
        Err(DecodeError::OffsetsAreDecreasing(offset))
    } else {
        Ok(offset)
    }
}

pub trait Decode: Sized {
    fn is_ssz_fixed_len() -> bool;
    fn ssz_fixed_len() -> usize {
        BYTES_PER_LENGTH_OFFSET
    }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError>;
}

#[derive(Copy, Clone, Debug)]
pub struct Offset {
    position: usize,
    offset: usize,
}

pub struct SszDecoderBuilder<'a> {
    bytes: &'a [u8],
    items: VecDeque<&'a [u8]>,
    offsets: Vec<Offset>,
    items_index: usize,
}

impl<'a> SszDecoderBuilder<'a> {
    pub fn new(bytes: &'a [u8]) -> Self {
        Self { bytes, items: VecDeque::new(), offsets: vec![], items_index: 0 }
    }
    pub fn register_anonymous_variable_length_item(&mut self) -> Result<(), DecodeError> {
        struct Anonymous;
        impl Decode for Anonymous {
            fn is_ssz_fixed_len() -> bool {
                false
            }
            fn from_ssz_bytes(_: &[u8]) -> Result<Self, DecodeError> {
                unreachable!("Anonymous should never be decoded")
            }
        }
        self.register_type::<Anonymous>()
    }
    pub fn register_type<T: Decode>(&mut self) -> Result<(), DecodeError> {
        self.register_type_parameterized(T::is_ssz_fixed_len(), T::ssz_fixed_len())
    }
    pub fn register_type_parameterized(&mut self, is_ssz_fixed_len: bool, ssz_fixed_len: usize) -> Result<(), DecodeError> {
        if is_ssz_fixed_len {
            let start = self.items_index;
            self.items_index += ssz_fixed_len;
            let slice = self.bytes.get(start..self.items_index).ok_or(DecodeError::InvalidByteLength {
                len: self.bytes.len(),
                expected: self.items_index,
            })?;
            self.items.push_back(slice);
        } else {
            self.offsets.push(Offset {
                position: self.items.len(),
                offset: sanitize_offset(
                    read_offset(&self.bytes[self.items_index..])?,
                    self.offsets.last().map(|o| o.offset),
                    self.bytes.len(),
                    None,
                )?,
            });
            self.items.push_back(&[]);
            self.items_index += BYTES_PER_LENGTH_OFFSET;
        }
        Ok(())
    }
    fn finalize(&mut self) -> Result<(), DecodeError> {
        if let Some(first_offset) = self.offsets.first().map(|o| o.offset) {
            match first_offset.cmp(&self.items_index) {
                std::cmp::Ordering::Less => return Err(DecodeError::OffsetIntoFixedPortion(first_offset)),
                std::cmp::Ordering::Greater => return Err(DecodeError::OffsetSkipsVariableBytes(first_offset)),
                std::cmp::Ordering::Equal => (),
            }
            for pair in self.offsets.windows(2) {
                self.items[pair[0].position] = &self.bytes[pair[0].offset..pair[1].offset];
            }
            if let Some(a) = self.offsets.last() {
                self.items[a.position] = &self.bytes[a.offset..];
            }
        } else if self.items_index != self.bytes.len() {
            return Err(DecodeError::InvalidByteLength { len: self.bytes.len(), expected: self.items_index });
        }
        Ok(())
    }
    pub fn build(mut self) -> Result<SszDecoder<'a>, DecodeError> {
        self.finalize()?;
        Ok(SszDecoder { items: self.items })
    }
}

pub struct SszDecoder<'a> {
    items: VecDeque<&'a [u8]>,
}
impl<'a> SszDecoder<'a> {
    pub fn decode_next<T: Decode>(&mut self) -> Result<T, DecodeError> {
        self.decode_next_with(|slice| T::from_ssz_bytes(slice))
    }
    pub fn decode_next_with<T, F>(&mut self, f: F) -> Result<T, DecodeError>
    where
        F: FnOnce(&'a [u8]) -> Result<T, DecodeError>,
    {
        f(self.items.pop_front().unwrap())
    }
}

pub fn split_union_bytes(bytes: &[u8]) -> Result<(UnionSelector, &[u8]), DecodeError> {
    let selector = bytes.first().copied().ok_or(DecodeError::OutOfBoundsByte { i: 0 }).and_then(UnionSelector::new)?;
    let body = bytes.get(BYTES_PER_UNION_SELECTOR..).ok_or(DecodeError::OutOfBoundsByte { i: 1 })?;
    Ok((selector, body))
}

pub fn read_offset(bytes: &[u8]) -> Result<usize, DecodeError> {
    decode_offset(bytes.get(0..BYTES_PER_LENGTH_OFFSET).ok_or(DecodeError::InvalidLengthPrefix {
        len: bytes.len(),
        expected: BYTES_PER_LENGTH_OFFSET,
    })?)
}
fn decode_offset(bytes: &[u8]) -> Result<usize, DecodeError> {
    Ok(u32::from_le_bytes(bytes.try_into().unwrap()) as usize)
}

pub fn decode_list_of_variable_length_items<T: Decode, Container: TryFromIter<T>>(
    bytes: &[u8],
    max_len: Option<usize>,
) -> Result<Container, DecodeError> {
    if bytes.is_empty() {
        return Container::try_from_iter(std::iter::empty())
            .map_err(|e| DecodeError::BytesInvalid(format!("Error trying to collect empty list: {e:?}")));
    }
    let first_offset = read_offset(bytes)?;
    sanitize_offset(first_offset, None, bytes.len(), Some(first_offset))?;
    if first_offset % BYTES_PER_LENGTH_OFFSET != 0 || first_offset < BYTES_PER_LENGTH_OFFSET {
        return Err(DecodeError::InvalidListFixedBytesLen(first_offset));
    }
    let num_items = first_offset / BYTES_PER_LENGTH_OFFSET;
    if max_len.is_some_and(|max| num_items > max) {
        return Err(DecodeError::BytesInvalid(format!(
            "Variable length list of {num_items} items exceeds maximum of {max_len:?}"
        )));
    }
    let mut offset = first_offset;
    let mut items = Vec::new();
    for i in 1..=num_items {
        let slice_option = if i == num_items {
            bytes.get(offset..)
        } else {
            let start = offset;
            let next_offset = read_offset(&bytes[(i * BYTES_PER_LENGTH_OFFSET)..])?;
            offset = sanitize_offset(next_offset, Some(offset), bytes.len(), Some(first_offset))?;
            bytes.get(start..offset)
        };
        let slice = slice_option.ok_or(DecodeError::OutOfBoundsByte { i: offset })?;
        items.push(T::from_ssz_bytes(slice)?);
    }
    Container::try_from_iter(items).map_err(|e| DecodeError::BytesInvalid(format!("Error collecting into container: {e:?}")))
}

macro_rules! uint {
    ($($t:ident),*) => {$(
        impl Decode for $t {
            fn is_ssz_fixed_len() -> bool { true }
            fn ssz_fixed_len() -> usize { $t::BITS as usize / 8 }
            fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
                let expected = $t::BITS as usize / 8;
                let arr = bytes.try_into().map_err(|_| DecodeError::InvalidByteLength { len: bytes.len(), expected })?;
                Ok($t::from_le_bytes(arr))
            }
        }
    )*};
}
uint!(u8, u16, u32, u64, u128, usize);

macro_rules! fixed {
    ($($t:ty, $n:expr, $f:expr);*) => {$(
        impl Decode for $t {
            fn is_ssz_fixed_len() -> bool { true }
            fn ssz_fixed_len() -> usize { $n }
            fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
                if bytes.len() != $n {
                    return Err(DecodeError::InvalidByteLength { len: bytes.len(), expected: $n });
                }
                Ok($f(bytes))
            }
        }
    )*};
}
fixed!(U256, 32, U256::from_le_slice; U128, 16, U128::from_le_slice; Address, 20, Address::from_slice; Bloom, 256, Bloom::from_slice);

impl Decode for bool {
    fn is_ssz_fixed_len() -> bool { true }
    fn ssz_fixed_len() -> usize { 1 }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
        if bytes.len() != 1 {
            return Err(DecodeError::InvalidByteLength { len: bytes.len(), expected: 1 });
        }
        match bytes[0] {
            0 => Ok(false),
            1 => Ok(true),
            _ => Err(DecodeError::BytesInvalid(format!("Out-of-range for boolean: {}", bytes[0]))),
        }
    }
}
impl Decode for NonZeroUsize {
    fn is_ssz_fixed_len() -> bool { true }
    fn ssz_fixed_len() -> usize { 8 }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
        NonZeroUsize::new(usize::from_ssz_bytes(bytes)?)
            .ok_or_else(|| DecodeError::BytesInvalid("NonZeroUsize cannot be zero.".to_string()))
    }
}
impl<const N: usize> Decode for FixedBytes<N> {
    fn is_ssz_fixed_len() -> bool { true }
    fn ssz_fixed_len() -> usize { N }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
        if bytes.len() != N {
            return Err(DecodeError::InvalidByteLength { len: bytes.len(), expected: N });
        }
        Ok(Self::from_slice(bytes))
    }
}
impl<const N: usize> Decode for [u8; N] {
    fn is_ssz_fixed_len() -> bool { true }
    fn ssz_fixed_len() -> usize { N }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
        bytes.try_into().map_err(|_| DecodeError::InvalidByteLength { len: bytes.len(), expected: N })
    }
}
impl Decode for Bytes {
    fn is_ssz_fixed_len() -> bool { false }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
        Ok(bytes.to_vec().into())
    }
}
impl<T: Decode> Decode for Option<T> {
    fn is_ssz_fixed_len() -> bool { false }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
        let (selector, body) = split_union_bytes(bytes)?;
        match selector.into() {
            0u8 => Ok(None),
            1u8 => T::from_ssz_bytes(body).map(Some),
            other => Err(DecodeError::UnionSelectorInvalid(other)),
        }
    }
}
impl<T: Decode> Decode for Arc<T> {
    fn is_ssz_fixed_len() -> bool { T::is_ssz_fixed_len() }
    fn ssz_fixed_len() -> usize { T::ssz_fixed_len() }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
        T::from_ssz_bytes(bytes).map(Arc::new)
    }
}
impl<T: Decode> Decode for Vec<T> {
    fn is_ssz_fixed_len() -> bool { false }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
        if bytes.is_empty() {
            Ok(vec![])
        } else if T::is_ssz_fixed_len() {
            bytes.chunks(T::ssz_fixed_len()).map(T::from_ssz_bytes).collect()
        } else {
            decode_list_of_variable_length_items(bytes, None)
        }
    }
}
impl<T: Decode, const N: usize> Decode for SmallVec<[T; N]>
where
    [T; N]: smallvec::Array<Item = T>,
{
    fn is_ssz_fixed_len() -> bool { false }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
        Vec::<T>::from_ssz_bytes(bytes).map(Into::into)
    }
}

macro_rules! tuple {
    ($($T:ident),+) => {
        impl<$($T: Decode),+> Decode for ($($T,)+) {
            fn is_ssz_fixed_len() -> bool { $(<$T as Decode>::is_ssz_fixed_len() &&)+ true }
            fn ssz_fixed_len() -> usize {
                if <Self as Decode>::is_ssz_fixed_len() { $(<$T as Decode>::ssz_fixed_len() +)+ 0 } else { BYTES_PER_LENGTH_OFFSET }
            }
            fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
                let mut builder = SszDecoderBuilder::new(bytes);
                $(builder.register_type::<$T>()?;)+
                let mut decoder = builder.build()?;
                Ok(($(decoder.decode_next::<$T>()?,)+))
            }
        }
    };
}
tuple!(A, B);
tuple!(A, B, C);
tuple!(A, B, C, D);
tuple!(A, B, C, D, E);
