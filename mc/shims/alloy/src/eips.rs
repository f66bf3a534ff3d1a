use alloy_rlp::{BufMut, Header, EMPTY_STRING_CODE};

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Eip2718Error {
    RlpError(alloy_rlp::Error),
    UnexpectedType(u8),
}
impl std::fmt::Display for Eip2718Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Self::RlpError(e) => write!(f, "{e}"),
            Self::UnexpectedType(t) => write!(f, "Unexpected type flag. Got {t}."),
        }
    }
}
impl std::error::Error for Eip2718Error {}
impl From<alloy_rlp::Error> for Eip2718Error {
    fn from(e: alloy_rlp::Error) -> Self {
        Self::RlpError(e)
    }
}
impl From<Eip2718Error> for alloy_rlp::Error {
    fn from(e: Eip2718Error) -> Self {
        match e {
            Eip2718Error::RlpError(e) => e,
            Eip2718Error::UnexpectedType(_) => alloy_rlp::Error::Custom("Unexpected type flag"),
        }
    }
}
pub type Eip2718Result<T> = Result<T, Eip2718Error>;

pub trait Decodable2718: Sized {
    fn typed_decode(ty: u8, buf: &mut &[u8]) -> Eip2718Result<Self>;
    fn fallback_decode(buf: &mut &[u8]) -> Eip2718Result<Self>;

    fn decode_2718(buf: &mut &[u8]) -> Eip2718Result<Self> {
        match buf.first() {
            Some(&ty) if ty <= 0x7f => {
                *buf = &buf[1..];
                Self::typed_decode(ty, buf)
            }
            _ => Self::fallback_decode(buf),
        }
    }
    fn decode_2718_exact(bytes: &[u8]) -> Eip2718Result<Self> {
        let mut buf = bytes;
        let out = Self::decode_2718(&mut buf)?;
        if !buf.is_empty() {
            return Err(alloy_rlp::Error::UnexpectedLength.into());
        }
        Ok(out)
    }
    fn network_decode(buf: &mut &[u8]) -> Eip2718Result<Self> {
        let mut h_decode = *buf;
        let h = Header::decode(&mut h_decode)?;
        if h.list {
            return Self::fallback_decode(buf);
        }
        let prefixed = *buf.first().unwrap_or(&0) >= EMPTY_STRING_CODE;
        *buf = h_decode;
        let remaining = buf.len();
        if remaining == 0 || remaining < h.payload_length {
            return Err(alloy_rlp::Error::InputTooShort.into());
        }
        let ty = buf[0];
        *buf = &buf[1..];
        let out = Self::typed_decode(ty, buf)?;
        let consumed = remaining - buf.len();
        if prefixed && consumed != h.payload_length {
            return Err(alloy_rlp::Error::UnexpectedLength.into());
        }
        Ok(out)
    }
}

pub trait Encodable2718 {
    fn type_flag(&self) -> Option<u8>;
    fn encode_2718(&self, out: &mut dyn BufMut);
    fn encode_2718_len(&self) -> usize {
        self.encoded_2718().len()
    }
    fn encoded_2718(&self) -> Vec<u8> {
        let mut out = vec![];
        self.encode_2718(&mut out);
        out
    }
    fn trie_hash(&self) -> alloy_primitives::B256 {
        alloy_primitives::keccak256(self.encoded_2718())
    }
    fn network_encode(&self, out: &mut dyn BufMut) {
        let inner = self.encoded_2718();
        if self.type_flag().is_some() {
            Header { list: false, payload_length: inner.len() }.encode(out);
        }
        out.put_slice(&inner);
    }
}

pub mod eip2718 {
    pub use super::{Decodable2718, Eip2718Error, Eip2718Result, Encodable2718};
}

pub mod eip2930 {
    use alloy_primitives::{Address, B256};
    use alloy_rlp::{RlpDecodable, RlpDecodableWrapper, RlpEncodable, RlpEncodableWrapper};
    use serde::{Deserialize, Serialize};

    #[derive(Clone, Debug, Default, PartialEq, Eq, Hash, RlpEncodable, RlpDecodable, Serialize, Deserialize)]
    #[serde(rename_all = "camelCase")]
    pub struct AccessListItem {
        pub address: Address,
        pub storage_keys: Vec<B256>,
    }
    #[derive(
        Clone, Debug, Default, PartialEq, Eq, Hash, RlpEncodableWrapper, RlpDecodableWrapper, Serialize, Deserialize,
    )]
    pub struct AccessList(pub Vec<AccessListItem>);
}

pub mod eip7702 {
    use alloy_primitives::{Address, U256};
    use alloy_rlp::{RlpDecodable, RlpEncodable};
    use serde::{Deserialize, Serialize};

    #[derive(Clone, Debug, PartialEq, Eq, Hash, RlpEncodable, RlpDecodable, Serialize, Deserialize)]
    #[serde(rename_all = "camelCase")]
    pub struct SignedAuthorization {
        pub chain_id: U256,
        pub address: Address,
        #[serde(with = "crate::eips::quantity")]
        pub nonce: u64,
        #[serde(with = "crate::eips::quantity")]
        pub y_parity: u8,
        pub r: U256,
        pub s: U256,
    }
}

pub mod eip4895 {
    use alloy_primitives::Address;
    use alloy_rlp::{RlpDecodable, RlpDecodableWrapper, RlpEncodable, RlpEncodableWrapper};
    use serde::{Deserialize, Serialize};

    #[derive(
        Clone, Copy, Debug, Default, PartialEq, Eq, Hash, RlpEncodable, RlpDecodable, Serialize, Deserialize,
    )]
    #[serde(rename_all = "camelCase")]
    pub struct Withdrawal {
        #[serde(with = "crate::eips::quantity")]
        pub index: u64,
        #[serde(with = "crate::eips::quantity")]
        pub validator_index: u64,
        pub address: Address,
        #[serde(with = "crate::eips::quantity")]
        pub amount: u64,
    }
    #[derive(
        Clone, Debug, Default, PartialEq, Eq, Hash, RlpEncodableWrapper, RlpDecodableWrapper, Serialize, Deserialize,
    )]
    pub struct Withdrawals(pub Vec<Withdrawal>);
    impl Withdrawals {
        pub const fn new(w: Vec<Withdrawal>) -> Self {
            Self(w)
        }
        pub fn into_inner(self) -> Vec<Withdrawal> {
            self.0
        }
    }
    impl std::ops::Deref for Withdrawals {
        type Target = Vec<Withdrawal>;
        fn deref(&self) -> &Vec<Withdrawal> {
            &self.0
        }
    }
    impl From<Vec<Withdrawal>> for Withdrawals {
        fn from(w: Vec<Withdrawal>) -> Self {
            Self(w)
        }
    }
    impl AsRef<[Withdrawal]> for Withdrawals {
        fn as_ref(&self) -> &[Withdrawal] {
            &self.0
        }
    }
    impl IntoIterator for Withdrawals {
        type Item = Withdrawal;
        type IntoIter = std::vec::IntoIter<Withdrawal>;
        fn into_iter(self) -> Self::IntoIter {
            self.0.into_iter()
        }
    }
    impl FromIterator<Withdrawal> for Withdrawals {
        fn from_iter<T: IntoIterator<Item = Withdrawal>>(iter: T) -> Self {
            Self(iter.into_iter().collect())
        }
    }
}

pub mod eip6110 {
    pub const DEPOSIT_REQUEST_TYPE: u8 = 0;
}
pub mod eip7002 {
    pub const WITHDRAWAL_REQUEST_TYPE: u8 = 1;
}
pub mod eip7251 {
    pub const CONSOLIDATION_REQUEST_TYPE: u8 = 2;
}
pub mod eip7685 {
    use alloy_primitives::{Bytes, B256};

    #[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
    pub struct Requests(Vec<Bytes>);
    impl Requests {
        pub const fn new(r: Vec<Bytes>) -> Self {
            Self(r)
        }
        pub fn with_capacity(n: usize) -> Self {
            Self(Vec::with_capacity(n))
        }
        pub fn len(&self) -> usize {
            self.0.len()
        }
        pub fn is_empty(&self) -> bool {
            self.0.is_empty()
        }
        pub fn take(self) -> Vec<Bytes> {
            self.0
        }
        pub fn iter(&self) -> std::slice::Iter<'_, Bytes> {
            self.0.iter()
        }
        pub fn push_request(&mut self, r: Bytes) {
            if r.len() > 1 {
                self.0.push(r);
            }
        }
        pub fn push_request_with_type(&mut self, ty: u8, data: impl IntoIterator<Item = u8>) {
            let mut data = data.into_iter().peekable();
            if data.peek().is_none() {
                return;
            }
            self.0.push(Bytes::from_iter(std::iter::once(ty).chain(data)));
        }
        pub fn requests_hash(&self) -> B256 {
            let mut outer = crate::eips::sha::Sha::default();
            for r in &self.0 {
                // empty requests do not contribute
                if r.len() > 1 {
                    outer.update(&crate::eips::sha::sha256(r));
                }
            }
            B256::from(outer.finish())
        }
    }
}
pub mod eip4788 {
    use alloy_primitives::{address, Address};
    pub const SYSTEM_ADDRESS: Address = address!("fffffffffffffffffffffffffffffffffffffffe");
    pub const BEACON_ROOTS_ADDRESS: Address = address!("000F3df6D732807Ef1319fB7B8bB8522d0Beac02");
}

pub(crate) mod sha {
    use sha2::{Digest, Sha256};
    #[derive(Default)]
    pub struct Sha(Sha256);
    impl Sha {
        pub fn update(&mut self, b: &[u8]) {
            self.0.update(b);
        }
        pub fn finish(self) -> [u8; 32] {
            self.0.finalize().into()
        }
    }
    pub fn sha256(b: &[u8]) -> [u8; 32] {
        Sha256::digest(b).into()
    }
}

/// Hex quantity (de)serialisation.
pub mod quantity {
    use serde::{de, Deserialize, Deserializer, Serialize, Serializer};
    pub fn serialize<T: Copy + TryInto<u128>, S: Serializer>(v: &T, s: S) -> Result<S::Ok, S::Error> {
        let v: u128 = (*v).try_into().map_err(|_| serde::ser::Error::custom("overflow"))?;
        format!("0x{v:x}").serialize(s)
    }
    fn parse<T: TryFrom<u128>, E: de::Error>(v: serde_json::Value) -> Result<T, E> {
        let n = match v {
            serde_json::Value::String(s) => match s.strip_prefix("0x") {
                Some(h) => u128::from_str_radix(h, 16).map_err(E::custom)?,
                None => s.parse().map_err(E::custom)?,
            },
            serde_json::Value::Number(n) => n.as_u64().ok_or_else(|| E::custom("bad number"))? as u128,
            _ => return Err(E::custom("invalid quantity")),
        };
        T::try_from(n).map_err(|_| E::custom("quantity out of range"))
    }
    pub fn deserialize<'de, T: TryFrom<u128>, D: Deserializer<'de>>(d: D) -> Result<T, D::Error> {
        parse(serde_json::Value::deserialize(d)?)
    }
    pub mod opt {
        use super::*;
        pub fn serialize<T: Copy + TryInto<u128>, S: Serializer>(
            v: &Option<T>,
            s: S,
        ) -> Result<S::Ok, S::Error> {
            match v {
                Some(v) => super::serialize(v, s),
                None => s.serialize_none(),
            }
        }
        pub fn deserialize<'de, T: TryFrom<u128>, D: Deserializer<'de>>(
            d: D,
        ) -> Result<Option<T>, D::Error> {
            match Option::<serde_json::Value>::deserialize(d)? {
                None | Some(serde_json::Value::Null) => Ok(None),
                Some(v) => parse(v).map(Some),
            }
        }
    }
}
