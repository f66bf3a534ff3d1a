use std::sync::OnceLock;

use alloy_primitives::{
    b256, keccak256, logs_bloom, Address, Bloom, Bytes, ChainId, Log, Signature, TxKind, B256, B64, U256,
};
use alloy_rlp::{BufMut, Decodable, Encodable, Header as RlpHeader, RlpDecodable, RlpEncodable};
use serde::{de, Deserialize, Deserializer, Serialize, Serializer};

use crate::eips::{
    eip2930::AccessList, eip4895::Withdrawals, eip7702::SignedAuthorization, quantity, Decodable2718,
    Eip2718Error, Eip2718Result, Encodable2718,
};

pub use crate::trie::EMPTY_ROOT_HASH;
pub const EMPTY_OMMER_ROOT_HASH: B256 =
    b256!("1dcc4de8dec75d7aab85b567b6ccd41ad312451b948a7413f0a142fd40d49347");

pub mod constants {
    use alloy_primitives::{b256, B256};
    pub use super::{EMPTY_OMMER_ROOT_HASH, EMPTY_ROOT_HASH};
    pub const KECCAK_EMPTY: B256 =
        b256!("c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470");
    pub const ETH_TO_WEI: u128 = 1_000_000_000_000_000_000;
    pub const GWEI_TO_WEI: u64 = 1_000_000_000;
    pub const EMPTY_RECEIPTS: B256 = EMPTY_ROOT_HASH;
    pub const EMPTY_TRANSACTIONS: B256 = EMPTY_ROOT_HASH;
    pub const EMPTY_WITHDRAWALS: B256 = EMPTY_ROOT_HASH;
}

pub mod proofs {
    use super::*;
    use crate::{eips::eip4895::Withdrawal, trie::ordered_trie_root};

    pub fn calculate_transaction_root<T: Encodable2718>(txs: &[T]) -> B256 {
        ordered_trie_root(txs, |tx, out| tx.encode_2718(out))
    }
    pub fn calculate_withdrawals_root(withdrawals: &[Withdrawal]) -> B256 {
        ordered_trie_root(withdrawals, |w, out| w.encode(out))
    }
    pub fn calculate_receipt_root<T: Encodable2718>(receipts: &[T]) -> B256 {
        ordered_trie_root(receipts, |r, out| r.encode_2718(out))
    }
    pub fn calculate_ommers_root<T: Encodable>(ommers: &[T]) -> B256 {
        if ommers.is_empty() {
            return EMPTY_OMMER_ROOT_HASH;
        }
        let mut out = vec![];
        alloy_rlp::encode_list(ommers, &mut out);
        keccak256(out)
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct Header {
    pub parent_hash: B256,
    #[serde(rename = "sha3Uncles")]
    pub ommers_hash: B256,
    #[serde(rename = "miner")]
    pub beneficiary: Address,
    pub state_root: B256,
    pub transactions_root: B256,
    pub receipts_root: B256,
    pub logs_bloom: Bloom,
    pub difficulty: U256,
    #[serde(with = "quantity")]
    pub number: u64,
    #[serde(with = "quantity")]
    pub gas_limit: u64,
    #[serde(with = "quantity")]
    pub gas_used: u64,
    #[serde(with = "quantity")]
    pub timestamp: u64,
    pub extra_data: Bytes,
    pub mix_hash: B256,
    pub nonce: B64,
    #[serde(default, with = "quantity::opt", skip_serializing_if = "Option::is_none")]
    pub base_fee_per_gas: Option<u64>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub withdrawals_root: Option<B256>,
    #[serde(default, with = "quantity::opt", skip_serializing_if = "Option::is_none")]
    pub blob_gas_used: Option<u64>,
    #[serde(default, with = "quantity::opt", skip_serializing_if = "Option::is_none")]
    pub excess_blob_gas: Option<u64>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub parent_beacon_block_root: Option<B256>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub requests_hash: Option<B256>,
}

impl Default for Header {
    fn default() -> Self {
        Self {
            parent_hash: B256::ZERO,
            ommers_hash: EMPTY_OMMER_ROOT_HASH,
            beneficiary: Address::ZERO,
            state_root: EMPTY_ROOT_HASH,
            transactions_root: EMPTY_ROOT_HASH,
            receipts_root: EMPTY_ROOT_HASH,
            logs_bloom: Bloom::ZERO,
            difficulty: U256::ZERO,
            number: 0,
            gas_limit: 0,
            gas_used: 0,
            timestamp: 0,
            extra_data: Bytes::new(),
            mix_hash: B256::ZERO,
            nonce: B64::ZERO,
            base_fee_per_gas: None,
            withdrawals_root: None,
            blob_gas_used: None,
            excess_blob_gas: None,
            parent_beacon_block_root: None,
            requests_hash: None,
        }
    }
}

impl Header {
    pub fn hash_slow(&self) -> B256 {
        keccak256(alloy_rlp::encode(self))
    }
    pub fn seal_slow(self) -> alloy_primitives::Sealed<Self> {
        let hash = self.hash_slow();
        alloy_primitives::Sealed::new_unchecked(self, hash)
    }
    fn payload(&self) -> Vec<u8> {
        let mut out = vec![];
        let o = &mut out as &mut dyn BufMut;
        self.parent_hash.encode(o);
        self.ommers_hash.encode(o);
        self.beneficiary.encode(o);
        self.state_root.encode(o);
        self.transactions_root.encode(o);
        self.receipts_root.encode(o);
        self.logs_bloom.encode(o);
        self.difficulty.encode(o);
        self.number.encode(o);
        self.gas_limit.encode(o);
        self.gas_used.encode(o);
        self.timestamp.encode(o);
        self.extra_data.encode(o);
        self.mix_hash.encode(o);
        self.nonce.encode(o);
        if let Some(v) = &self.base_fee_per_gas {
            v.encode(o);
        }
        if let Some(v) = &self.withdrawals_root {
            v.encode(o);
        }
        if let Some(v) = &self.blob_gas_used {
            v.encode(o);
        }
        if let Some(v) = &self.excess_blob_gas {
            v.encode(o);
        }
        if let Some(v) = &self.parent_beacon_block_root {
            v.encode(o);
        }
        if let Some(v) = &self.requests_hash {
            v.encode(o);
        }
        out
    }
}
impl alloy_primitives::Sealable for Header {
    fn hash_slow(&self) -> B256 {
        Header::hash_slow(self)
    }
}
impl Encodable for Header {
    fn encode(&self, out: &mut dyn BufMut) {
        let p = self.payload();
        RlpHeader { list: true, payload_length: p.len() }.encode(out);
        out.put_slice(&p);
    }
    fn length(&self) -> usize {
        let n = self.payload().len();
        n + alloy_rlp::length_of_length(n)
    }
}
impl Decodable for Header {
    fn decode(buf: &mut &[u8]) -> alloy_rlp::Result<Self> {
        let h = RlpHeader::decode(buf)?;
        if !h.list {
            return Err(alloy_rlp::Error::UnexpectedString);
        }
        let started = buf.len();
        if started < h.payload_length {
            return Err(alloy_rlp::Error::InputTooShort);
        }
        let mut this = Self {
            parent_hash: Decodable::decode(buf)?,
            ommers_hash: Decodable::decode(buf)?,
            beneficiary: Decodable::decode(buf)?,
            state_root: Decodable::decode(buf)?,
            transactions_root: Decodable::decode(buf)?,
            receipts_root: Decodable::decode(buf)?,
            logs_bloom: Decodable::decode(buf)?,
            difficulty: Decodable::decode(buf)?,
            number: Decodable::decode(buf)?,
            gas_limit: Decodable::decode(buf)?,
            gas_used: Decodable::decode(buf)?,
            timestamp: Decodable::decode(buf)?,
            extra_data: Decodable::decode(buf)?,
            mix_hash: Decodable::decode(buf)?,
            nonce: B64::decode(buf)?,
            base_fee_per_gas: None,
            withdrawals_root: None,
            blob_gas_used: None,
            excess_blob_gas: None,
            parent_beacon_block_root: None,
            requests_hash: None,
        };
        let more = |buf: &&[u8]| started - buf.len() < h.payload_length;
        if more(buf) {
            this.base_fee_per_gas = Some(u64::decode(buf)?);
        }
        if more(buf) {
            this.withdrawals_root = Some(Decodable::decode(buf)?);
        }
        if more(buf) {
            this.blob_gas_used = Some(u64::decode(buf)?);
        }
        if more(buf) {
            this.excess_blob_gas = Some(u64::decode(buf)?);
        }
        if more(buf) {
            this.parent_beacon_block_root = Some(B256::decode(buf)?);
        }
        if more(buf) {
            this.requests_hash = Some(B256::decode(buf)?);
        }
        let consumed = started - buf.len();
        if consumed != h.payload_length {
            return Err(alloy_rlp::Error::ListLengthMismatch {
                expected: h.payload_length,
                got: consumed,
            });
        }
        Ok(this)
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct BlockBody<T, H = Header> {
    pub transactions: Vec<T>,
    #[serde(default = "Vec::new")]
    pub ommers: Vec<H>,
    #[serde(default = "Option::default")]
    pub withdrawals: Option<Withdrawals>,
}
impl<T, H> Default for BlockBody<T, H> {
    fn default() -> Self {
        Self { transactions: vec![], ommers: vec![], withdrawals: None }
    }
}
impl<T, H> BlockBody<T, H> {
    pub fn transactions(&self) -> impl Iterator<Item = &T> + '_ {
        self.transactions.iter()
    }
    pub fn calculate_withdrawals_root(&self) -> Option<B256> {
        self.withdrawals.as_ref().map(|w| proofs::calculate_withdrawals_root(w))
    }
    pub fn into_block(self, header: H) -> Block<T, H> {
        Block { header, body: self }
    }
}
impl<T, H: Encodable> BlockBody<T, H> {
    pub fn calculate_ommers_root(&self) -> B256 {
        proofs::calculate_ommers_root(&self.ommers)
    }
}
impl<T: Encodable2718, H> BlockBody<T, H> {
    pub fn calculate_tx_root(&self) -> B256 {
        proofs::calculate_transaction_root(&self.transactions)
    }
}
impl<T: Encodable, H: Encodable> Encodable for BlockBody<T, H> {
    fn encode(&self, out: &mut dyn BufMut) {
        let mut p = vec![];
        self.transactions.encode(&mut p);
        self.ommers.encode(&mut p);
        if let Some(w) = &self.withdrawals {
            w.encode(&mut p);
        }
        RlpHeader { list: true, payload_length: p.len() }.encode(out);
        out.put_slice(&p);
    }
    fn length(&self) -> usize {
        let mut p = vec![];
        self.encode(&mut p);
        p.len()
    }
}
impl<T: Decodable, H: Decodable> Decodable for BlockBody<T, H> {
    fn decode(buf: &mut &[u8]) -> alloy_rlp::Result<Self> {
        let h = RlpHeader::decode(buf)?;
        if !h.list {
            return Err(alloy_rlp::Error::UnexpectedString);
        }
        if buf.len() < h.payload_length {
            return Err(alloy_rlp::Error::InputTooShort);
        }
        let mut p = &buf[..h.payload_length];
        *buf = &buf[h.payload_length..];
        let transactions = Vec::<T>::decode(&mut p)?;
        let ommers = Vec::<H>::decode(&mut p)?;
        let withdrawals = if p.is_empty() { None } else { Some(Withdrawals::decode(&mut p)?) };
        if !p.is_empty() {
            return Err(alloy_rlp::Error::UnexpectedLength);
        }
        Ok(Self { transactions, ommers, withdrawals })
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Block<T, H = Header> {
    pub header: H,
    pub body: BlockBody<T, H>,
}
impl<T: Encodable, H: Encodable> Block<T, H> {
    /// Length of the block as a list of the header and the lists of the body.
    pub fn rlp_length_for(header: &H, body: &BlockBody<T, H>) -> usize {
        let mut p = vec![];
        header.encode(&mut p);
        body.transactions.encode(&mut p);
        body.ommers.encode(&mut p);
        if let Some(w) = &body.withdrawals {
            w.encode(&mut p);
        }
        RlpHeader { list: true, payload_length: p.len() }.length() + p.len()
    }
}

// ---------------------------------------------------------------- transactions

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
#[repr(u8)]
pub enum TxType {
    Legacy = 0,
    Eip2930 = 1,
    Eip1559 = 2,
    Eip4844 = 3,
    Eip7702 = 4,
}
impl From<TxType> for u8 {
    fn from(t: TxType) -> u8 {
        t as u8
    }
}
impl Encodable for TxType {
    fn encode(&self, out: &mut dyn BufMut) {
        (*self as u8).encode(out)
    }
    fn length(&self) -> usize {
        1
    }
}
impl Decodable for TxType {
    fn decode(buf: &mut &[u8]) -> alloy_rlp::Result<Self> {
        u8::decode(buf)?
            .try_into()
            .map_err(|_| alloy_rlp::Error::Custom("invalid transaction type"))
    }
}
impl From<Receipt> for ReceiptWithBloom {
    fn from(r: Receipt) -> Self {
        r.with_bloom()
    }
}
impl TryFrom<u8> for TxType {
    type Error = Eip2718Error;
    fn try_from(v: u8) -> Result<Self, Eip2718Error> {
        Ok(match v {
            0 => TxType::Legacy,
            1 => TxType::Eip2930,
            2 => TxType::Eip1559,
            3 => TxType::Eip4844,
            4 => TxType::Eip7702,
            _ => return Err(Eip2718Error::UnexpectedType(v)),
        })
    }
}

pub trait Transaction {
    fn nonce(&self) -> u64;
    fn chain_id(&self) -> Option<ChainId>;
    fn gas_limit(&self) -> u64;
    fn value(&self) -> U256;
    fn input(&self) -> &Bytes;
    fn ty(&self) -> u8;
}

macro_rules! typed_tx {
    ($name:ident, $ty:expr, { $($f:ident : $t:ty),* $(,)? }) => {
        #[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
        pub struct $name { $(pub $f: $t),* }
        impl RlpTx for $name {
            const TYPE: TxType = $ty;
            fn encode_fields(&self, out: &mut dyn BufMut) { $( self.$f.encode(out); )* }
            fn decode_fields(buf: &mut &[u8]) -> alloy_rlp::Result<Self> {
                Ok(Self { $( $f: <$t as Decodable>::decode(buf)? ),* })
            }
        }
        impl Transaction for $name {
            fn nonce(&self) -> u64 { self.nonce }
            fn chain_id(&self) -> Option<ChainId> { Some(self.chain_id) }
            fn gas_limit(&self) -> u64 { self.gas_limit }
            fn value(&self) -> U256 { self.value }
            fn input(&self) -> &Bytes { &self.input }
            fn ty(&self) -> u8 { $ty as u8 }
        }
    };
}

pub trait RlpTx: Sized {
    const TYPE: TxType;
    fn encode_fields(&self, out: &mut dyn BufMut);
    fn decode_fields(buf: &mut &[u8]) -> alloy_rlp::Result<Self>;
}

typed_tx!(TxEip2930, TxType::Eip2930, {
    chain_id: ChainId, nonce: u64, gas_price: u128, gas_limit: u64, to: TxKind, value: U256,
    input: Bytes, access_list: AccessList,
});
typed_tx!(TxEip1559, TxType::Eip1559, {
    chain_id: ChainId, nonce: u64, max_priority_fee_per_gas: u128, max_fee_per_gas: u128,
    gas_limit: u64, to: TxKind, value: U256, input: Bytes, access_list: AccessList,
});
typed_tx!(TxEip4844, TxType::Eip4844, {
    chain_id: ChainId, nonce: u64, max_priority_fee_per_gas: u128, max_fee_per_gas: u128,
    gas_limit: u64, to: Address, value: U256, input: Bytes, access_list: AccessList,
    max_fee_per_blob_gas: u128, blob_versioned_hashes: Vec<B256>,
});
typed_tx!(TxEip7702, TxType::Eip7702, {
    chain_id: ChainId, nonce: u64, max_priority_fee_per_gas: u128, max_fee_per_gas: u128,
    gas_limit: u64, to: Address, value: U256, input: Bytes, access_list: AccessList,
    authorization_list: Vec<SignedAuthorization>,
});

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum TxEip4844Variant {
    TxEip4844(TxEip4844),
    TxEip4844WithSidecar(TxEip4844WithSidecar),
}
/// The blobs themselves are never looked at.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct TxEip4844WithSidecar {
    pub tx: TxEip4844,
}
impl From<TxEip4844> for TxEip4844Variant {
    fn from(t: TxEip4844) -> Self {
        Self::TxEip4844(t)
    }
}
impl TxEip4844Variant {
    pub fn tx(&self) -> &TxEip4844 {
        match self {
            Self::TxEip4844(t) => t,
            Self::TxEip4844WithSidecar(t) => &t.tx,
        }
    }
}
impl RlpTx for TxEip4844Variant {
    const TYPE: TxType = TxType::Eip4844;
    fn encode_fields(&self, out: &mut dyn BufMut) {
        self.tx().encode_fields(out)
    }
    fn decode_fields(buf: &mut &[u8]) -> alloy_rlp::Result<Self> {
        TxEip4844::decode_fields(buf).map(Self::TxEip4844)
    }
}
impl Transaction for TxEip4844Variant {
    fn nonce(&self) -> u64 {
        self.tx().nonce
    }
    fn chain_id(&self) -> Option<ChainId> {
        Some(self.tx().chain_id)
    }
    fn gas_limit(&self) -> u64 {
        self.tx().gas_limit
    }
    fn value(&self) -> U256 {
        self.tx().value
    }
    fn input(&self) -> &Bytes {
        &self.tx().input
    }
    fn ty(&self) -> u8 {
        3
    }
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct TxLegacy {
    pub chain_id: Option<ChainId>,
    pub nonce: u64,
    pub gas_price: u128,
    pub gas_limit: u64,
    pub to: TxKind,
    pub value: U256,
    pub input: Bytes,
}
impl Transaction for TxLegacy {
    fn nonce(&self) -> u64 {
        self.nonce
    }
    fn chain_id(&self) -> Option<ChainId> {
        self.chain_id
    }
    fn gas_limit(&self) -> u64 {
        self.gas_limit
    }
    fn value(&self) -> U256 {
        self.value
    }
    fn input(&self) -> &Bytes {
        &self.input
    }
    fn ty(&self) -> u8 {
        0
    }
}

#[derive(Clone, Debug)]
pub struct Signed<T> {
    tx: T,
    signature: Signature,
    hash: OnceLock<B256>,
}
impl<T: PartialEq> PartialEq for Signed<T> {
    fn eq(&self, o: &Self) -> bool {
        self.tx == o.tx && self.signature == o.signature
    }
}
impl<T: Eq> Eq for Signed<T> {}
impl<T> Signed<T> {
    pub fn new_unhashed(tx: T, signature: Signature) -> Self {
        Self { tx, signature, hash: OnceLock::new() }
    }
    pub fn new_unchecked(tx: T, signature: Signature, hash: B256) -> Self {
        let s = Self::new_unhashed(tx, signature);
        let _ = s.hash.set(hash);
        s
    }
    pub fn tx(&self) -> &T {
        &self.tx
    }
    pub fn signature(&self) -> &Signature {
        &self.signature
    }
    pub fn strip_signature(self) -> T {
        self.tx
    }
}
impl<T: RlpTx> Signed<T> {
    fn encode_signed(&self, out: &mut dyn BufMut) {
        let mut p = vec![];
        self.tx.encode_fields(&mut p);
        self.signature.write_rlp_vrs(&mut p, self.signature.v());
        RlpHeader { list: true, payload_length: p.len() }.encode(out);
        out.put_slice(&p);
    }
    fn decode_signed(buf: &mut &[u8]) -> alloy_rlp::Result<Self> {
        let h = RlpHeader::decode(buf)?;
        if !h.list {
            return Err(alloy_rlp::Error::UnexpectedString);
        }
        if h.payload_length > buf.len() {
            return Err(alloy_rlp::Error::InputTooShort);
        }
        let remaining = buf.len();
        let tx = T::decode_fields(buf)?;
        let signature = Signature::decode_rlp_vrs(buf, bool::decode)?;
        if buf.len() + h.payload_length != remaining {
            return Err(alloy_rlp::Error::ListLengthMismatch {
                expected: h.payload_length,
                got: remaining - buf.len(),
            });
        }
        Ok(Self::new_unhashed(tx, signature))
    }
}
impl Signed<TxLegacy> {
    fn v(&self) -> u128 {
        let parity = self.signature.v() as u128;
        match self.tx.chain_id {
            Some(id) => 35 + id as u128 * 2 + parity,
            None => 27 + parity,
        }
    }
    fn encode_legacy(&self, out: &mut dyn BufMut) {
        let mut p = vec![];
        let t = &self.tx;
        t.nonce.encode(&mut p);
        t.gas_price.encode(&mut p);
        t.gas_limit.encode(&mut p);
        t.to.encode(&mut p);
        t.value.encode(&mut p);
        t.input.encode(&mut p);
        self.signature.write_rlp_vrs(&mut p, self.v());
        RlpHeader { list: true, payload_length: p.len() }.encode(out);
        out.put_slice(&p);
    }
    fn decode_legacy(buf: &mut &[u8]) -> alloy_rlp::Result<Self> {
        let h = RlpHeader::decode(buf)?;
        if !h.list {
            return Err(alloy_rlp::Error::UnexpectedString);
        }
        let remaining = buf.len();
        if h.payload_length > remaining {
            return Err(alloy_rlp::Error::InputTooShort);
        }
        let mut tx = TxLegacy {
            chain_id: None,
            nonce: Decodable::decode(buf)?,
            gas_price: Decodable::decode(buf)?,
            gas_limit: Decodable::decode(buf)?,
            to: Decodable::decode(buf)?,
            value: Decodable::decode(buf)?,
            input: Decodable::decode(buf)?,
        };
        let mut chain_id = None;
        let signature = Signature::decode_rlp_vrs(buf, |buf| {
            let v = u128::decode(buf)?;
            let (parity, id) = match v {
                0 | 27 => (false, None),
                1 | 28 => (true, None),
                v if v >= 35 => ((v - 35) % 2 != 0, Some(((v - 35) / 2) as u64)),
                _ => return Err(alloy_rlp::Error::Custom("invalid parity value")),
            };
            chain_id = id;
            Ok(parity)
        })?;
        tx.chain_id = chain_id;
        if buf.len() + h.payload_length != remaining {
            return Err(alloy_rlp::Error::ListLengthMismatch {
                expected: h.payload_length,
                got: remaining - buf.len(),
            });
        }
        Ok(Self::new_unhashed(tx, signature))
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum TxEnvelope {
    Legacy(Signed<TxLegacy>),
    Eip2930(Signed<TxEip2930>),
    Eip1559(Signed<TxEip1559>),
    Eip4844(Signed<TxEip4844Variant>),
    Eip7702(Signed<TxEip7702>),
}
impl TxEnvelope {
    pub fn signature(&self) -> &Signature {
        match self {
            Self::Legacy(t) => t.signature(),
            Self::Eip2930(t) => t.signature(),
            Self::Eip1559(t) => t.signature(),
            Self::Eip4844(t) => t.signature(),
            Self::Eip7702(t) => t.signature(),
        }
    }
    pub fn tx_type(&self) -> TxType {
        match self {
            Self::Legacy(_) => TxType::Legacy,
            Self::Eip2930(_) => TxType::Eip2930,
            Self::Eip1559(_) => TxType::Eip1559,
            Self::Eip4844(_) => TxType::Eip4844,
            Self::Eip7702(_) => TxType::Eip7702,
        }
    }
    pub fn tx_hash(&self) -> B256 {
        keccak256(self.encoded_2718())
    }
    pub fn hash(&self) -> &B256 {
        let cell = match self {
            Self::Legacy(t) => &t.hash,
            Self::Eip2930(t) => &t.hash,
            Self::Eip1559(t) => &t.hash,
            Self::Eip4844(t) => &t.hash,
            Self::Eip7702(t) => &t.hash,
        };
        cell.get_or_init(|| self.tx_hash())
    }
    fn inner(&self) -> &dyn Transaction {
        match self {
            Self::Legacy(t) => t.tx(),
            Self::Eip2930(t) => t.tx(),
            Self::Eip1559(t) => t.tx(),
            Self::Eip4844(t) => t.tx(),
            Self::Eip7702(t) => t.tx(),
        }
    }
}
impl Transaction for TxEnvelope {
    fn nonce(&self) -> u64 {
        self.inner().nonce()
    }
    fn chain_id(&self) -> Option<ChainId> {
        self.inner().chain_id()
    }
    fn gas_limit(&self) -> u64 {
        self.inner().gas_limit()
    }
    fn value(&self) -> U256 {
        self.inner().value()
    }
    fn input(&self) -> &Bytes {
        self.inner().input()
    }
    fn ty(&self) -> u8 {
        self.inner().ty()
    }
}
macro_rules! from_signed {
    ($($v:ident : $t:ty),*) => { $( impl From<Signed<$t>> for TxEnvelope {
        fn from(s: Signed<$t>) -> Self { Self::$v(s) }
    } )* };
}
from_signed!(Legacy: TxLegacy, Eip2930: TxEip2930, Eip1559: TxEip1559, Eip4844: TxEip4844Variant, Eip7702: TxEip7702);

impl Encodable2718 for TxEnvelope {
    fn type_flag(&self) -> Option<u8> {
        match self.tx_type() {
            TxType::Legacy => None,
            t => Some(t as u8),
        }
    }
    fn encode_2718(&self, out: &mut dyn BufMut) {
        if let Some(t) = self.type_flag() {
            out.put_u8(t);
        }
        match self {
            Self::Legacy(t) => t.encode_legacy(out),
            Self::Eip2930(t) => t.encode_signed(out),
            Self::Eip1559(t) => t.encode_signed(out),
            Self::Eip4844(t) => t.encode_signed(out),
            Self::Eip7702(t) => t.encode_signed(out),
        }
    }
}
impl Decodable2718 for TxEnvelope {
    fn typed_decode(ty: u8, buf: &mut &[u8]) -> Eip2718Result<Self> {
        Ok(match TxType::try_from(ty).map_err(|_| alloy_rlp::Error::Custom("unexpected tx type"))? {
            TxType::Eip2930 => Self::Eip2930(Signed::decode_signed(buf)?),
            TxType::Eip1559 => Self::Eip1559(Signed::decode_signed(buf)?),
            TxType::Eip4844 => Self::Eip4844(Signed::decode_signed(buf)?),
            TxType::Eip7702 => Self::Eip7702(Signed::decode_signed(buf)?),
            TxType::Legacy => return Err(Eip2718Error::UnexpectedType(0)),
        })
    }
    fn fallback_decode(buf: &mut &[u8]) -> Eip2718Result<Self> {
        Ok(Self::Legacy(Signed::decode_legacy(buf)?))
    }
}
impl Encodable for TxEnvelope {
    fn encode(&self, out: &mut dyn BufMut) {
        self.network_encode(out)
    }
    fn length(&self) -> usize {
        let mut v = vec![];
        self.network_encode(&mut v);
        v.len()
    }
}
impl Decodable for TxEnvelope {
    fn decode(buf: &mut &[u8]) -> alloy_rlp::Result<Self> {
        Ok(Self::network_decode(buf)?)
    }
}

#[derive(Deserialize, Serialize)]
#[serde(rename_all = "camelCase")]
struct TxJson {
    #[serde(default, rename = "type", with = "quantity::opt", skip_serializing_if = "Option::is_none")]
    ty: Option<u8>,
    #[serde(default, with = "quantity::opt", skip_serializing_if = "Option::is_none")]
    chain_id: Option<u64>,
    #[serde(with = "quantity")]
    nonce: u64,
    #[serde(default, with = "quantity::opt", skip_serializing_if = "Option::is_none")]
    gas_price: Option<u128>,
    #[serde(default, with = "quantity::opt", skip_serializing_if = "Option::is_none")]
    max_fee_per_gas: Option<u128>,
    #[serde(default, with = "quantity::opt", skip_serializing_if = "Option::is_none")]
    max_priority_fee_per_gas: Option<u128>,
    #[serde(default, with = "quantity::opt", skip_serializing_if = "Option::is_none")]
    max_fee_per_blob_gas: Option<u128>,
    #[serde(with = "quantity")]
    gas: u64,
    #[serde(default)]
    to: Option<Address>,
    value: U256,
    input: Bytes,
    #[serde(default)]
    access_list: AccessList,
    #[serde(default)]
    blob_versioned_hashes: Vec<B256>,
    #[serde(default)]
    authorization_list: Vec<SignedAuthorization>,
    #[serde(with = "quantity")]
    v: u128,
    r: U256,
    s: U256,
}
impl TxEnvelope {
    /// Transactions of RPC blocks are not wrapped here.
    pub fn into_inner(self) -> Self {
        self
    }
}
impl<'de> Deserialize<'de> for TxEnvelope {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let j = TxJson::deserialize(d)?;
        let missing = |f: &'static str| <D::Error as de::Error>::missing_field(f);
        let to = j.to.map_or(TxKind::Create, TxKind::Call);
        let typed_sig = Signature::new(j.r, j.s, j.v == 1);
        Ok(match j.ty.unwrap_or(0) {
            0 => {
                let (parity, chain_id) = match j.v {
                    0 | 27 => (false, None),
                    1 | 28 => (true, None),
                    v if v >= 35 => ((v - 35) % 2 != 0, Some(((v - 35) / 2) as u64)),
                    _ => return Err(de::Error::custom("invalid v")),
                };
                Self::Legacy(Signed::new_unhashed(
                    TxLegacy {
                        chain_id,
                        nonce: j.nonce,
                        gas_price: j.gas_price.ok_or_else(|| missing("gasPrice"))?,
                        gas_limit: j.gas,
                        to,
                        value: j.value,
                        input: j.input,
                    },
                    Signature::new(j.r, j.s, parity),
                ))
            }
            1 => Self::Eip2930(Signed::new_unhashed(
                TxEip2930 {
                    chain_id: j.chain_id.ok_or_else(|| missing("chainId"))?,
                    nonce: j.nonce,
                    gas_price: j.gas_price.ok_or_else(|| missing("gasPrice"))?,
                    gas_limit: j.gas,
                    to,
                    value: j.value,
                    input: j.input,
                    access_list: j.access_list,
                },
                typed_sig,
            )),
            2 => Self::Eip1559(Signed::new_unhashed(
                TxEip1559 {
                    chain_id: j.chain_id.ok_or_else(|| missing("chainId"))?,
                    nonce: j.nonce,
                    max_priority_fee_per_gas: j
                        .max_priority_fee_per_gas
                        .ok_or_else(|| missing("maxPriorityFeePerGas"))?,
                    max_fee_per_gas: j.max_fee_per_gas.ok_or_else(|| missing("maxFeePerGas"))?,
                    gas_limit: j.gas,
                    to,
                    value: j.value,
                    input: j.input,
                    access_list: j.access_list,
                },
                typed_sig,
            )),
            3 => Self::Eip4844(Signed::new_unhashed(
                TxEip4844 {
                    chain_id: j.chain_id.ok_or_else(|| missing("chainId"))?,
                    nonce: j.nonce,
                    max_priority_fee_per_gas: j
                        .max_priority_fee_per_gas
                        .ok_or_else(|| missing("maxPriorityFeePerGas"))?,
                    max_fee_per_gas: j.max_fee_per_gas.ok_or_else(|| missing("maxFeePerGas"))?,
                    gas_limit: j.gas,
                    to: j.to.ok_or_else(|| missing("to"))?,
                    value: j.value,
                    input: j.input,
                    access_list: j.access_list,
                    max_fee_per_blob_gas: j
                        .max_fee_per_blob_gas
                        .ok_or_else(|| missing("maxFeePerBlobGas"))?,
                    blob_versioned_hashes: j.blob_versioned_hashes,
                }
                .into(),
                typed_sig,
            )),
            4 => Self::Eip7702(Signed::new_unhashed(
                TxEip7702 {
                    chain_id: j.chain_id.ok_or_else(|| missing("chainId"))?,
                    nonce: j.nonce,
                    max_priority_fee_per_gas: j
                        .max_priority_fee_per_gas
                        .ok_or_else(|| missing("maxPriorityFeePerGas"))?,
                    max_fee_per_gas: j.max_fee_per_gas.ok_or_else(|| missing("maxFeePerGas"))?,
                    gas_limit: j.gas,
                    to: j.to.ok_or_else(|| missing("to"))?,
                    value: j.value,
                    input: j.input,
                    access_list: j.access_list,
                    authorization_list: j.authorization_list,
                },
                typed_sig,
            )),
            t => return Err(de::Error::custom(format!("unknown tx type {t}"))),
        })
    }
}
impl Serialize for TxEnvelope {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        Bytes::from(self.encoded_2718()).serialize(s)
    }
}

pub mod transaction {
    pub use super::{Transaction, TxEnvelope};
    use alloy_primitives::{keccak256, Address};
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct RecoveryError;
    /// No curve here: the signer is a hash of the signature, and a signature of zeros has none.
    pub trait SignerRecoverable {
        fn recover_signer(&self) -> Result<Address, RecoveryError>;
        fn recover_signer_unchecked(&self) -> Result<Address, RecoveryError> {
            self.recover_signer()
        }
    }
    impl SignerRecoverable for super::TxEnvelope {
        fn recover_signer(&self) -> Result<Address, RecoveryError> {
            let s = self.signature();
            if s.r().is_zero() || s.s().is_zero() {
                return Err(RecoveryError);
            }
            let all = [&s.r().to_be_bytes::<32>()[..], &s.s().to_be_bytes::<32>()[..], &[s.v() as u8]].concat();
            Ok(Address::from_slice(&keccak256(all)[12..]))
        }
    }
}

// ---------------------------------------------------------------- receipts

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Eip658Value {
    Eip658(bool),
    PostState(B256),
}
impl Default for Eip658Value {
    fn default() -> Self {
        Self::Eip658(true)
    }
}
impl From<bool> for Eip658Value {
    fn from(b: bool) -> Self {
        Self::Eip658(b)
    }
}
impl Encodable for Eip658Value {
    fn encode(&self, out: &mut dyn BufMut) {
        match self {
            Self::Eip658(b) => b.encode(out),
            Self::PostState(s) => s.encode(out),
        }
    }
    fn length(&self) -> usize {
        match self {
            Self::Eip658(b) => b.length(),
            Self::PostState(s) => s.length(),
        }
    }
}
impl Decodable for Eip658Value {
    fn decode(buf: &mut &[u8]) -> alloy_rlp::Result<Self> {
        let h = RlpHeader::decode(buf)?;
        if h.list {
            return Err(alloy_rlp::Error::UnexpectedList);
        }
        if buf.len() < h.payload_length {
            return Err(alloy_rlp::Error::InputTooShort);
        }
        let (v, rest) = buf.split_at(h.payload_length);
        *buf = rest;
        match h.payload_length {
            0 => Ok(Self::Eip658(false)),
            1 => match v[0] {
                0x80 => Ok(Self::Eip658(false)),
                1 => Ok(Self::Eip658(true)),
                _ => Err(alloy_rlp::Error::Custom("invalid status")),
            },
            32 => Ok(Self::PostState(B256::from_slice(v))),
            _ => Err(alloy_rlp::Error::UnexpectedLength),
        }
    }
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Receipt<T = Log> {
    pub status: Eip658Value,
    pub cumulative_gas_used: u64,
    pub logs: Vec<T>,
}
impl Receipt {
    pub fn bloom_slow(&self) -> Bloom {
        logs_bloom(self.logs.iter())
    }
    pub fn with_bloom(self) -> ReceiptWithBloom {
        let logs_bloom = self.bloom_slow();
        ReceiptWithBloom { receipt: self, logs_bloom }
    }
}
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct ReceiptWithBloom<R = Receipt> {
    pub receipt: R,
    pub logs_bloom: Bloom,
}
#[derive(RlpEncodable, RlpDecodable)]
struct ReceiptRlp {
    status: Eip658Value,
    cumulative_gas_used: u64,
    logs_bloom: Bloom,
    logs: Vec<Log>,
}
impl ReceiptWithBloom {
    fn to_rlp(&self) -> ReceiptRlp {
        ReceiptRlp {
            status: self.receipt.status,
            cumulative_gas_used: self.receipt.cumulative_gas_used,
            logs_bloom: self.logs_bloom,
            logs: self.receipt.logs.clone(),
        }
    }
}
impl Encodable for ReceiptWithBloom {
    fn encode(&self, out: &mut dyn BufMut) {
        self.to_rlp().encode(out)
    }
    fn length(&self) -> usize {
        self.to_rlp().length()
    }
}
impl Decodable for ReceiptWithBloom {
    fn decode(buf: &mut &[u8]) -> alloy_rlp::Result<Self> {
        let r = ReceiptRlp::decode(buf)?;
        Ok(Self {
            receipt: Receipt {
                status: r.status,
                cumulative_gas_used: r.cumulative_gas_used,
                logs: r.logs,
            },
            logs_bloom: r.logs_bloom,
        })
    }
}

pub trait TxReceipt {
    fn status_or_post_state(&self) -> Eip658Value;
    fn status(&self) -> bool;
    fn bloom(&self) -> Bloom;
    fn cumulative_gas_used(&self) -> u64;
    fn logs(&self) -> &[Log];
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum ReceiptEnvelope {
    Legacy(ReceiptWithBloom),
    Eip2930(ReceiptWithBloom),
    Eip1559(ReceiptWithBloom),
    Eip4844(ReceiptWithBloom),
    Eip7702(ReceiptWithBloom),
}
impl ReceiptEnvelope {
    pub fn tx_type(&self) -> TxType {
        match self {
            Self::Legacy(_) => TxType::Legacy,
            Self::Eip2930(_) => TxType::Eip2930,
            Self::Eip1559(_) => TxType::Eip1559,
            Self::Eip4844(_) => TxType::Eip4844,
            Self::Eip7702(_) => TxType::Eip7702,
        }
    }
    pub fn as_receipt_with_bloom(&self) -> Option<&ReceiptWithBloom> {
        Some(self.inner())
    }
    fn inner(&self) -> &ReceiptWithBloom {
        match self {
            Self::Legacy(r) | Self::Eip2930(r) | Self::Eip1559(r) | Self::Eip4844(r) | Self::Eip7702(r) => r,
        }
    }
    pub fn from_typed(ty: TxType, r: impl Into<ReceiptWithBloom>) -> Self {
        let r = r.into();
        match ty {
            TxType::Legacy => Self::Legacy(r),
            TxType::Eip2930 => Self::Eip2930(r),
            TxType::Eip1559 => Self::Eip1559(r),
            TxType::Eip4844 => Self::Eip4844(r),
            TxType::Eip7702 => Self::Eip7702(r),
        }
    }
}
impl TxReceipt for ReceiptEnvelope {
    fn status_or_post_state(&self) -> Eip658Value {
        self.inner().receipt.status
    }
    fn status(&self) -> bool {
        matches!(self.inner().receipt.status, Eip658Value::Eip658(true) | Eip658Value::PostState(_))
    }
    fn bloom(&self) -> Bloom {
        self.inner().logs_bloom
    }
    fn cumulative_gas_used(&self) -> u64 {
        self.inner().receipt.cumulative_gas_used
    }
    fn logs(&self) -> &[Log] {
        &self.inner().receipt.logs
    }
}
impl TxReceipt for ReceiptWithBloom {
    fn status_or_post_state(&self) -> Eip658Value {
        self.receipt.status
    }
    fn status(&self) -> bool {
        matches!(self.receipt.status, Eip658Value::Eip658(true) | Eip658Value::PostState(_))
    }
    fn bloom(&self) -> Bloom {
        self.logs_bloom
    }
    fn cumulative_gas_used(&self) -> u64 {
        self.receipt.cumulative_gas_used
    }
    fn logs(&self) -> &[Log] {
        &self.receipt.logs
    }
}
impl TxReceipt for Receipt {
    fn status_or_post_state(&self) -> Eip658Value {
        self.status
    }
    fn status(&self) -> bool {
        matches!(self.status, Eip658Value::Eip658(true) | Eip658Value::PostState(_))
    }
    fn bloom(&self) -> Bloom {
        self.bloom_slow()
    }
    fn cumulative_gas_used(&self) -> u64 {
        self.cumulative_gas_used
    }
    fn logs(&self) -> &[Log] {
        &self.logs
    }
}
impl Encodable2718 for ReceiptEnvelope {
    fn type_flag(&self) -> Option<u8> {
        match self.tx_type() {
            TxType::Legacy => None,
            t => Some(t as u8),
        }
    }
    fn encode_2718(&self, out: &mut dyn BufMut) {
        if let Some(t) = self.type_flag() {
            out.put_u8(t);
        }
        self.inner().encode(out);
    }
}
impl Decodable2718 for ReceiptEnvelope {
    fn typed_decode(ty: u8, buf: &mut &[u8]) -> Eip2718Result<Self> {
        let ty = TxType::try_from(ty)?;
        if ty == TxType::Legacy {
            return Err(Eip2718Error::UnexpectedType(0));
        }
        Ok(Self::from_typed(ty, ReceiptWithBloom::decode(buf)?))
    }
    fn fallback_decode(buf: &mut &[u8]) -> Eip2718Result<Self> {
        Ok(Self::Legacy(Decodable::decode(buf)?))
    }
}
impl Encodable for ReceiptEnvelope {
    fn encode(&self, out: &mut dyn BufMut) {
        self.network_encode(out)
    }
    fn length(&self) -> usize {
        let mut v = vec![];
        self.network_encode(&mut v);
        v.len()
    }
}
impl Decodable for ReceiptEnvelope {
    fn decode(buf: &mut &[u8]) -> alloy_rlp::Result<Self> {
        Ok(Self::network_decode(buf)?)
    }
}
#[derive(Deserialize)]
#[serde(rename_all = "camelCase")]
struct ReceiptJson {
    #[serde(default, rename = "type", with = "quantity::opt")]
    ty: Option<u8>,
    #[serde(default, with = "quantity::opt")]
    status: Option<u8>,
    #[serde(default)]
    root: Option<B256>,
    #[serde(with = "quantity")]
    cumulative_gas_used: u64,
    logs_bloom: Bloom,
    logs: Vec<Log>,
}
impl<'de> Deserialize<'de> for ReceiptEnvelope {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let j = ReceiptJson::deserialize(d)?;
        let status = match (j.status, j.root) {
            (Some(s), _) => Eip658Value::Eip658(s != 0),
            (None, Some(root)) => Eip658Value::PostState(root),
            (None, None) => return Err(de::Error::missing_field("status")),
        };
        let ty = TxType::try_from(j.ty.unwrap_or(0)).map_err(de::Error::custom)?;
        Ok(Self::from_typed(
            ty,
            ReceiptWithBloom {
                receipt: Receipt { status, cumulative_gas_used: j.cumulative_gas_used, logs: j.logs },
                logs_bloom: j.logs_bloom,
            },
        ))
    }
}
impl Serialize for ReceiptEnvelope {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        Bytes::from(self.encoded_2718()).serialize(s)
    }
}
