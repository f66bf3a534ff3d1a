#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct H256(pub [u8; 32]);
impl H256 {
    pub fn as_bytes(&self) -> &[u8] {
        &self.0
    }
    pub fn as_fixed_bytes(&self) -> &[u8; 32] {
        &self.0
    }
    pub fn to_fixed_bytes(self) -> [u8; 32] {
        self.0
    }
}
impl AsRef<[u8]> for H256 {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl From<H256> for [u8; 32] {
    fn from(h: H256) -> Self {
        h.0
    }
}
pub fn keccak<T: AsRef<[u8]>>(s: T) -> H256 {
    H256(alloy_primitives::keccak256(s).0)
}
