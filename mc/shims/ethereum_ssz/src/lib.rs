//! SSZ codec with the API and strictness of `ethereum_ssz` 0.9.
mod bitfield;
mod decode;
mod encode;
mod union_selector;

pub use bitfield::{BitList, BitVector, Bitfield};
pub use decode::{
    decode_list_of_variable_length_items, read_offset, sanitize_offset, split_union_bytes,
    try_from_iter::TryFromIter, Decode, DecodeError, SszDecoder, SszDecoderBuilder,
};
pub use encode::{encode_length, Encode, SszEncoder};
pub use union_selector::UnionSelector;

pub const BYTES_PER_LENGTH_OFFSET: usize = 4;
pub const MAX_LENGTH_VALUE: usize = u32::MAX as usize;
pub const BYTES_PER_UNION_SELECTOR: usize = 1;
pub const MAX_UNION_SELECTOR: u8 = 127;

#[derive(Debug, PartialEq, Clone)]
pub enum BitfieldError {
    OutOfBounds { i: usize, len: usize },
    MissingLengthInformation,
    ExcessBits,
    InvalidByteCount { given: usize, expected: usize },
}

pub fn ssz_encode<T: Encode>(val: &T) -> Vec<u8> {
    val.as_ssz_bytes()
}
