use std::str::FromStr;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct HeaderValue(String);
#[derive(Debug)]
pub struct InvalidHeaderValue;
impl FromStr for HeaderValue {
    type Err = InvalidHeaderValue;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        if s.bytes().all(|b| b == b'\t' || (b >= 0x20 && b != 0x7f)) {
            Ok(Self(s.into()))
        } else {
            Err(InvalidHeaderValue)
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Method {
    GET,
    POST,
}
