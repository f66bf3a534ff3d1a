pub use strum_macros::*;
#[derive(Debug, Clone, Copy, Eq, PartialEq, Hash)]
pub enum ParseError {
    VariantNotFound,
}
impl std::fmt::Display for ParseError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "Matching variant not found")
    }
}
impl std::error::Error for ParseError {}
pub trait IntoEnumIterator: Sized {
    type Iterator: Iterator<Item = Self> + Clone + DoubleEndedIterator + ExactSizeIterator;
    fn iter() -> Self::Iterator;
}
pub trait VariantNames {
    const VARIANTS: &'static [&'static str];
}
pub trait EnumCount {
    const COUNT: usize;
}
