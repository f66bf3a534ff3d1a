//! A fixed population of nodes and a content key with a chosen id.

use std::{
    collections::HashMap,
    fmt,
    net::Ipv4Addr,
    sync::{Mutex, OnceLock},
};

use discv5::{
    enr::{CombinedKey, EnrKey, NodeId},
    Enr,
};
use ethportal_api::{types::content_key::error::ContentKeyError, OverlayContentKey, RawContentKey};

/// Secret key number `k`, which is also the id of the node: ids are spread over the whole space.
pub fn secret(k: u16) -> [u8; 32] {
    let mut s = [0u8; 32];
    let mut x = k as u64;
    for b in &mut s {
        x = (x ^ 0x5851).wrapping_mul(0x5851_f42d_4c95_7f2d).rotate_left(23) ^ 0x14057;
        *b = (x >> 40) as u8;
    }
    s
}

pub fn combined(k: u16) -> CombinedKey {
    CombinedKey::secp256k1_from_bytes(&mut secret(k)).expect("key")
}

/// Everything a record can differ in.
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Look {
    pub seq: u64,
    /// Bytes of padding, to make the record larger.
    pub pad: usize,
    /// Value of the "pv" (protocol versions) entry.
    pub versions: Option<Vec<u8>>,
}

/// The record of node `k` with the given sequence number.
pub fn record(k: u16, seq: u64) -> Enr {
    dressed(k, Look { seq, pad: 0, versions: None })
}

pub fn dressed(k: u16, look: Look) -> Enr {
    static MADE: OnceLock<Mutex<HashMap<(u16, Look), Enr>>> = OnceLock::new();
    let made = MADE.get_or_init(Default::default);
    if let Some(e) = made.lock().unwrap().get(&(k, look.clone())) {
        return e.clone();
    }
    let mut b = Enr::builder();
    b.seq(look.seq).ip4(Ipv4Addr::new(10, 0, (k >> 8) as u8, k as u8)).udp4(9000);
    if look.pad > 0 {
        b.add_value("zz", &vec![0x7au8; look.pad].as_slice());
    }
    if let Some(v) = &look.versions {
        b.add_value("pv", &v.as_slice());
    }
    let enr = b.build(&combined(k)).expect("record");
    made.lock().unwrap().insert((k, look), enr.clone());
    enr
}

pub fn id(k: u16) -> NodeId {
    static IDS: OnceLock<Mutex<HashMap<u16, NodeId>>> = OnceLock::new();
    let ids = IDS.get_or_init(Default::default);
    if let Some(i) = ids.lock().unwrap().get(&k) {
        return *i;
    }
    let i = combined(k).public().node_id();
    ids.lock().unwrap().insert(k, i);
    i
}

/// Position of the highest bit in which two ids differ, counted from 1; 0 for equal ids.
pub fn log_distance(a: &[u8; 32], b: &[u8; 32]) -> u16 {
    for i in 0..32 {
        let x = a[i] ^ b[i];
        if x != 0 {
            return (256 - 8 * i) as u16 - x.leading_zeros() as u16;
        }
    }
    0
}

pub fn xor(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
    std::array::from_fn(|i| a[i] ^ b[i])
}

/// The first `n` nodes after number 1 that lie at log distance `d` from node 1.
pub fn at_distance(d: u16, n: usize) -> Vec<u16> {
    let me = id(1).raw();
    (2u16..4000).filter(|k| log_distance(&me, &id(*k).raw()) == d).take(n).collect()
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct TestKey {
    pub id: [u8; 32],
    pub radius: bool,
}

impl fmt::Display for TestKey {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:02x}{:02x}", self.id[0], self.id[31])
    }
}

impl OverlayContentKey for TestKey {
    fn content_id(&self) -> [u8; 32] {
        self.id
    }
    fn affected_by_radius(&self) -> bool {
        self.radius
    }
    fn to_bytes(&self) -> RawContentKey {
        let mut b = vec![self.radius as u8];
        b.extend_from_slice(&self.id);
        RawContentKey::from(b)
    }
    fn try_from_bytes(bytes: impl AsRef<[u8]>) -> Result<Self, ContentKeyError> {
        let b = bytes.as_ref();
        if b.len() != 33 || b[0] > 1 {
            return Err(ContentKeyError::InvalidLength { received: b.len(), expected: 33 });
        }
        Ok(TestKey { id: b[1..].try_into().expect("32 bytes"), radius: b[0] == 1 })
    }
}
