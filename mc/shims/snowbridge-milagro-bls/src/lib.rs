//! Ideal BLS functionality: a signature verifies for exactly the (message, key multiset) it was
//! produced for. `fake::sign` plays the signers. Encodings keep BLS sizes (48/96 bytes).
use sha2::{Digest, Sha256};
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum AmclError {
    InvalidPoint,
    InvalidG1Size,
    InvalidG2Size,
    InvalidSecretKeySize,
}
pub type DecodeError = AmclError;
impl std::fmt::Display for AmclError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct PublicKey {
    bytes: [u8; 48],
}
impl PublicKey {
    pub fn from_bytes(b: &[u8]) -> Result<Self, AmclError> {
        Self::from_bytes_unchecked(b)
    }
    pub fn from_bytes_unchecked(b: &[u8]) -> Result<Self, AmclError> {
        let bytes: [u8; 48] = b.try_into().map_err(|_| AmclError::InvalidG1Size)?;
        if bytes[0] & 0x80 == 0 {
            return Err(AmclError::InvalidPoint);
        }
        Ok(Self { bytes })
    }
    pub fn as_bytes(&self) -> [u8; 48] {
        self.bytes
    }
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct AggregatePublicKey {
    keys: Vec<[u8; 48]>,
}
impl AggregatePublicKey {
    pub fn into_aggregate(keys: &[PublicKey]) -> Result<Self, AmclError> {
        Ok(Self { keys: keys.iter().map(|k| k.bytes).collect() })
    }
    pub fn aggregate(keys: &[&PublicKey]) -> Result<Self, AmclError> {
        Ok(Self { keys: keys.iter().map(|k| k.bytes).collect() })
    }
}
fn tag(msg: &[u8], mut keys: Vec<[u8; 48]>) -> [u8; 96] {
    keys.sort();
    let mut h = Sha256::new();
    h.update(b"ideal-bls");
    h.update((msg.len() as u64).to_le_bytes());
    h.update(msg);
    for k in &keys {
        h.update(k);
    }
    let d: [u8; 32] = h.finalize().into();
    let mut out = [0u8; 96];
    for i in 0..3 {
        out[i * 32..i * 32 + 32].copy_from_slice(&d);
    }
    out[0] |= 0x80;
    out
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct AggregateSignature {
    bytes: [u8; 96],
}
pub type Signature = AggregateSignature;
impl AggregateSignature {
    pub fn from_bytes(b: &[u8]) -> Result<Self, AmclError> {
        let bytes: [u8; 96] = b.try_into().map_err(|_| AmclError::InvalidG2Size)?;
        if bytes[0] & 0x80 == 0 {
            return Err(AmclError::InvalidPoint);
        }
        Ok(Self { bytes })
    }
    pub fn as_bytes(&self) -> [u8; 96] {
        self.bytes
    }
    pub fn fast_aggregate_verify(&self, msg: &[u8], keys: &[&PublicKey]) -> bool {
        !keys.is_empty() && self.bytes == tag(msg, keys.iter().map(|k| k.bytes).collect())
    }
    pub fn fast_aggregate_verify_pre_aggregated(&self, msg: &[u8], key: &AggregatePublicKey) -> bool {
        !key.keys.is_empty() && self.bytes == tag(msg, key.keys.clone())
    }
}
pub mod fake {
    pub fn key(n: u32) -> [u8; 48] {
        let mut b = [0u8; 48];
        b[0] = 0x80;
        b[1..5].copy_from_slice(&n.to_be_bytes());
        b
    }
    pub fn sign(msg: &[u8], keys: &[[u8; 48]]) -> [u8; 96] {
        super::tag(msg, keys.to_vec())
    }
}
