//! Length-bounded SSZ collections with the API of `ssz_types` 0.11.
mod fixed_vector;
pub mod serde_utils;
mod tree;
mod variable_list;

pub use fixed_vector::FixedVector;
pub use ssz::{BitList, BitVector, Bitfield};
pub use typenum;
pub use variable_list::VariableList;

pub mod length {
    pub use ssz::Bitfield;
}

#[derive(PartialEq, Debug, Clone)]
pub enum Error {
    OutOfBounds { i: usize, len: usize },
    MissingLengthInformation,
    ExcessBits,
    InvalidByteCount { given: usize, expected: usize },
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}
