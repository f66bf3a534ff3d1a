//! EIP-778 node records. Records signed by a key made here use an idealised signature scheme: the
//! public key *is* the node id (behind a marker byte) and the signature is a hash of the content.
//! Records with ordinary secp256k1 keys are parsed and their signatures really verified.
use std::{
    collections::BTreeMap,
    fmt,
    hash::{Hash, Hasher},
    marker::PhantomData,
    net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddrV4, SocketAddrV6},
    str::FromStr,
};

use alloy_rlp::{Decodable, Encodable, Header};
use base64::Engine;
use bytes::Bytes;
use serde::{de, Deserialize, Deserializer, Serialize, Serializer};
use sha2::{Digest, Sha256};

pub type Key = Vec<u8>;

const MAX_ENR_SIZE: usize = 300;
const FAKE_KEY_PREFIX: u8 = 0x05;

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct NodeId {
    raw: [u8; 32],
}

impl NodeId {
    pub const fn new(raw: &[u8; 32]) -> Self {
        Self { raw: *raw }
    }
    pub fn parse(raw: &[u8]) -> Result<Self, &'static str> {
        <[u8; 32]>::try_from(raw)
            .map(|raw| Self { raw })
            .map_err(|_| "Input is not 32 bytes")
    }
    pub fn random() -> Self {
        Self { raw: rand::random() }
    }
    pub const fn raw(&self) -> [u8; 32] {
        self.raw
    }
}

impl From<[u8; 32]> for NodeId {
    fn from(raw: [u8; 32]) -> Self {
        Self { raw }
    }
}
impl<K: EnrKey> From<Enr<K>> for NodeId {
    fn from(enr: Enr<K>) -> Self {
        enr.node_id()
    }
}
impl<K: EnrKey> From<&Enr<K>> for NodeId {
    fn from(enr: &Enr<K>) -> Self {
        enr.node_id()
    }
}
impl AsRef<[u8]> for NodeId {
    fn as_ref(&self) -> &[u8] {
        &self.raw
    }
}
impl PartialEq<[u8; 32]> for NodeId {
    fn eq(&self, other: &[u8; 32]) -> bool {
        self.raw == *other
    }
}
impl fmt::Display for NodeId {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let h = hex::encode(self.raw);
        write!(f, "0x{}..{}", &h[0..4], &h[h.len() - 4..])
    }
}
impl fmt::Debug for NodeId {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "0x{}", hex::encode(self.raw))
    }
}
impl Serialize for NodeId {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&format!("0x{}", hex::encode(self.raw)))
    }
}
impl<'de> Deserialize<'de> for NodeId {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        let raw = hex::decode(s.strip_prefix("0x").unwrap_or(&s)).map_err(de::Error::custom)?;
        Self::parse(&raw).map_err(de::Error::custom)
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Error {
    ExceedsMaxSize,
    SequenceNumberTooHigh,
    SigningError,
    UnsupportedIdentityScheme,
    InvalidRlpData(alloy_rlp::Error),
    InvalidReservedKeyData(Key),
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Error::ExceedsMaxSize => write!(f, "enr exceeds max size"),
            Error::SequenceNumberTooHigh => write!(f, "sequence number too large"),
            Error::SigningError => write!(f, "signing error"),
            Error::UnsupportedIdentityScheme => write!(f, "unsupported identity scheme"),
            Error::InvalidRlpData(e) => write!(f, "invalid rlp data: {e}"),
            Error::InvalidReservedKeyData(_) => write!(f, "invalid data for reserved key"),
        }
    }
}
impl std::error::Error for Error {}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct CombinedPublicKey(Vec<u8>);

impl CombinedPublicKey {
    pub fn encode(&self) -> Vec<u8> {
        self.0.clone()
    }
    pub fn node_id(&self) -> NodeId {
        node_id_of(&self.0).expect("public key was checked")
    }
}

pub trait EnrKey: Send + Sync + 'static {
    fn public(&self) -> CombinedPublicKey;
    fn sign_content(&self, content: &[u8]) -> Vec<u8>;
}

#[derive(Clone)]
pub enum CombinedKey {
    Secp256k1([u8; 32]),
}

impl CombinedKey {
    pub fn generate_secp256k1() -> Self {
        Self::Secp256k1(rand::random())
    }
    /// The node id of the resulting identity equals the given bytes.
    pub fn secp256k1_from_bytes(bytes: &mut [u8]) -> Result<Self, Error> {
        let raw: [u8; 32] = (&*bytes).try_into().map_err(|_| Error::SigningError)?;
        bytes.fill(0);
        Ok(Self::Secp256k1(raw))
    }
    pub fn encode(&self) -> Vec<u8> {
        match self {
            Self::Secp256k1(raw) => raw.to_vec(),
        }
    }
}

impl EnrKey for CombinedKey {
    fn public(&self) -> CombinedPublicKey {
        let Self::Secp256k1(raw) = self;
        let mut pk = vec![FAKE_KEY_PREFIX];
        pk.extend_from_slice(raw);
        CombinedPublicKey(pk)
    }
    fn sign_content(&self, content: &[u8]) -> Vec<u8> {
        fake_signature(&self.public().0, content)
    }
}

fn fake_signature(pk: &[u8], content: &[u8]) -> Vec<u8> {
    let one = |tag: u8| {
        let mut h = Sha256::new();
        h.update([tag]);
        h.update(pk);
        h.update(content);
        h.finalize().to_vec()
    };
    [one(1), one(2)].concat()
}

fn keccak(data: &[u8]) -> [u8; 32] {
    use tiny_keccak::Hasher as _;
    let mut out = [0; 32];
    let mut k = tiny_keccak::Keccak::v256();
    k.update(data);
    k.finalize(&mut out);
    out
}

fn node_id_of(pk: &[u8]) -> Option<NodeId> {
    if pk.len() == 33 && pk[0] == FAKE_KEY_PREFIX {
        return NodeId::parse(&pk[1..]).ok();
    }
    let (x, y) = crate::secp::decompress(pk)?;
    let mut raw = x.to_be_bytes::<32>().to_vec();
    raw.extend_from_slice(&y.to_be_bytes::<32>());
    Some(NodeId::from(keccak(&raw)))
}

pub struct Enr<K: EnrKey> {
    seq: u64,
    node_id: NodeId,
    content: BTreeMap<Key, Bytes>,
    signature: Vec<u8>,
    phantom: PhantomData<K>,
}

impl<K: EnrKey> Clone for Enr<K> {
    fn clone(&self) -> Self {
        Self {
            seq: self.seq,
            node_id: self.node_id,
            content: self.content.clone(),
            signature: self.signature.clone(),
            phantom: PhantomData,
        }
    }
}

fn rlp_of(v: &impl Encodable) -> Bytes {
    let mut out = vec![];
    v.encode(&mut out);
    out.into()
}

fn check_reserved(key: &[u8], value: &[u8]) -> Result<(), Error> {
    let bad = |e| Err(Error::InvalidRlpData(e));
    match key {
        b"tcp" | b"tcp6" | b"udp" | b"udp6" => {
            if let Err(e) = u16::decode(&mut &value[..]) {
                return bad(e);
            }
        }
        b"id" => match Bytes::decode(&mut &value[..]) {
            Ok(v) if v.as_ref() == b"v4" => {}
            Ok(_) => return Err(Error::UnsupportedIdentityScheme),
            Err(e) => return bad(e),
        },
        b"ip" => match Bytes::decode(&mut &value[..]) {
            Ok(v) if v.len() == 4 => {}
            Ok(_) => return Err(Error::InvalidReservedKeyData(key.to_vec())),
            Err(e) => return bad(e),
        },
        b"ip6" => match Bytes::decode(&mut &value[..]) {
            Ok(v) if v.len() == 16 => {}
            Ok(_) => return Err(Error::InvalidReservedKeyData(key.to_vec())),
            Err(e) => return bad(e),
        },
        _ => {}
    }
    Ok(())
}

impl<K: EnrKey> Enr<K> {
    pub fn builder() -> Builder<K> {
        Builder::default()
    }
    pub fn empty(key: &K) -> Result<Self, Error> {
        Self::builder().build(key)
    }
    pub const fn node_id(&self) -> NodeId {
        self.node_id
    }
    pub const fn seq(&self) -> u64 {
        self.seq
    }
    pub fn get_raw_rlp(&self, key: impl AsRef<[u8]>) -> Option<&[u8]> {
        self.content.get(key.as_ref()).map(AsRef::as_ref)
    }
    pub fn get_decodable<T: Decodable>(
        &self,
        key: impl AsRef<[u8]>,
    ) -> Option<Result<T, alloy_rlp::Error>> {
        self.get_raw_rlp(key).map(|mut raw| T::decode(&mut raw))
    }
    pub fn iter(&self) -> impl Iterator<Item = (&Key, &[u8])> {
        self.content.iter().map(|(k, v)| (k, v.as_ref()))
    }
    pub fn ip4(&self) -> Option<Ipv4Addr> {
        let b: Bytes = self.get_decodable("ip")?.ok()?;
        <[u8; 4]>::try_from(b.as_ref()).ok().map(Ipv4Addr::from)
    }
    pub fn ip6(&self) -> Option<Ipv6Addr> {
        let b: Bytes = self.get_decodable("ip6")?.ok()?;
        <[u8; 16]>::try_from(b.as_ref()).ok().map(Ipv6Addr::from)
    }
    pub fn udp4(&self) -> Option<u16> {
        self.get_decodable("udp")?.ok()
    }
    pub fn udp6(&self) -> Option<u16> {
        self.get_decodable("udp6")?.ok()
    }
    pub fn tcp4(&self) -> Option<u16> {
        self.get_decodable("tcp")?.ok()
    }
    pub fn udp4_socket(&self) -> Option<SocketAddrV4> {
        Some(SocketAddrV4::new(self.ip4()?, self.udp4()?))
    }
    pub fn udp6_socket(&self) -> Option<SocketAddrV6> {
        Some(SocketAddrV6::new(self.ip6()?, self.udp6()?, 0, 0))
    }
    pub fn signature(&self) -> &[u8] {
        &self.signature
    }
    pub fn public_key(&self) -> CombinedPublicKey {
        CombinedPublicKey(self.raw_public_key().expect("record has a key"))
    }
    fn raw_public_key(&self) -> Option<Vec<u8>> {
        self.get_decodable::<Bytes>("secp256k1")?.ok().map(|b| b.to_vec())
    }
    fn append_content(&self, out: &mut Vec<u8>) {
        self.seq.encode(out);
        for (k, v) in &self.content {
            k.as_slice().encode(out);
            out.extend_from_slice(v);
        }
    }
    fn rlp_content(&self) -> Vec<u8> {
        let mut stream = vec![];
        self.append_content(&mut stream);
        let mut out = vec![];
        Header { list: true, payload_length: stream.len() }.encode(&mut out);
        out.extend_from_slice(&stream);
        out
    }
    pub fn verify(&self) -> bool {
        let Some(pk) = self.raw_public_key() else { return false };
        let content = self.rlp_content();
        if pk.first() == Some(&FAKE_KEY_PREFIX) {
            return self.signature == fake_signature(&pk, &content);
        }
        crate::secp::verify(&pk, &keccak(&content), &self.signature)
    }
    pub fn size(&self) -> usize {
        rlp_of(self).len()
    }
    pub fn to_base64(&self) -> String {
        format!(
            "enr:{}",
            base64::engine::general_purpose::URL_SAFE_NO_PAD.encode(rlp_of(self))
        )
    }
    fn resign(&mut self, key: &K) -> Result<(), Error> {
        self.content.insert(b"id".to_vec(), rlp_of(&b"v4".as_slice()));
        self.content
            .insert(b"secp256k1".to_vec(), rlp_of(&key.public().0.as_slice()));
        self.signature = key.sign_content(&self.rlp_content());
        self.node_id = key.public().node_id();
        if self.size() > MAX_ENR_SIZE {
            return Err(Error::ExceedsMaxSize);
        }
        Ok(())
    }
    pub fn set_seq(&mut self, seq: u64, key: &K) -> Result<(), Error> {
        let mut new = self.clone();
        new.seq = seq;
        new.resign(key)?;
        *self = new;
        Ok(())
    }
    pub fn insert<T: Encodable>(
        &mut self,
        name: impl AsRef<[u8]>,
        value: &T,
        key: &K,
    ) -> Result<Option<Bytes>, Error> {
        self.insert_raw_rlp(name, rlp_of(value), key)
    }
    pub fn insert_raw_rlp(
        &mut self,
        name: impl AsRef<[u8]>,
        value: Bytes,
        key: &K,
    ) -> Result<Option<Bytes>, Error> {
        check_reserved(name.as_ref(), &value)?;
        let mut new = self.clone();
        let old = new.content.insert(name.as_ref().to_vec(), value);
        new.seq = new.seq.checked_add(1).ok_or(Error::SequenceNumberTooHigh)?;
        new.resign(key)?;
        *self = new;
        Ok(old)
    }
    pub fn set_ip(&mut self, ip: IpAddr, key: &K) -> Result<Option<IpAddr>, Error> {
        match ip {
            IpAddr::V4(a) => self.insert("ip", &a.octets().as_slice(), key)?,
            IpAddr::V6(a) => self.insert("ip6", &a.octets().as_slice(), key)?,
        };
        Ok(None)
    }
    pub fn set_udp4(&mut self, port: u16, key: &K) -> Result<Option<u16>, Error> {
        let old = self.udp4();
        self.insert("udp", &port, key)?;
        Ok(old)
    }
    pub fn set_tcp4(&mut self, port: u16, key: &K) -> Result<Option<u16>, Error> {
        let old = self.tcp4();
        self.insert("tcp", &port, key)?;
        Ok(old)
    }
}

impl<K: EnrKey> PartialEq for Enr<K> {
    fn eq(&self, o: &Self) -> bool {
        self.seq == o.seq && self.node_id == o.node_id && self.signature == o.signature
    }
}
impl<K: EnrKey> Eq for Enr<K> {}
impl<K: EnrKey> Hash for Enr<K> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.seq.hash(h);
        self.node_id.hash(h);
        self.signature.hash(h);
    }
}
impl<K: EnrKey> fmt::Display for Enr<K> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.to_base64())
    }
}
impl<K: EnrKey> fmt::Debug for Enr<K> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("Enr")
            .field("seq", &self.seq)
            .field("NodeId", &self.node_id)
            .field("signature", &hex::encode(&self.signature))
            .field("IpV4 UDP Socket", &self.udp4_socket())
            .finish()
    }
}
impl<K: EnrKey> FromStr for Enr<K> {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> {
        if s.len() < 4 {
            return Err("Invalid ENR string".into());
        }
        let s = s.strip_prefix("enr:").unwrap_or(s);
        let bytes = base64::engine::general_purpose::URL_SAFE_NO_PAD
            .decode(s)
            .map_err(|e| format!("Invalid base64 encoding: {e:?}"))?;
        Self::decode(&mut bytes.as_ref()).map_err(|e| format!("Invalid ENR: {e:?}"))
    }
}
impl<K: EnrKey> Serialize for Enr<K> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&self.to_base64())
    }
}
impl<'de, K: EnrKey> Deserialize<'de> for Enr<K> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Self::from_str(&String::deserialize(d)?).map_err(de::Error::custom)
    }
}
impl<K: EnrKey> Encodable for Enr<K> {
    fn encode(&self, out: &mut dyn alloy_rlp::BufMut) {
        let mut stream = vec![];
        self.signature.as_slice().encode(&mut stream);
        self.append_content(&mut stream);
        Header { list: true, payload_length: stream.len() }.encode(out);
        out.put_slice(&stream);
    }
    fn length(&self) -> usize {
        let mut out = vec![];
        self.encode(&mut out);
        out.len()
    }
}
impl<K: EnrKey> Decodable for Enr<K> {
    fn decode(buf: &mut &[u8]) -> alloy_rlp::Result<Self> {
        let start = buf.len();
        let h = Header::decode(buf)?;
        if !h.list {
            return Err(alloy_rlp::Error::UnexpectedString);
        }
        if h.payload_length > buf.len() {
            return Err(alloy_rlp::Error::InputTooShort);
        }
        if start - (buf.len() - h.payload_length) > MAX_ENR_SIZE {
            return Err(alloy_rlp::Error::Custom("enr exceeds max size"));
        }
        let mut payload = &buf[..h.payload_length];
        *buf = &buf[h.payload_length..];
        if payload.is_empty() {
            return Err(alloy_rlp::Error::Custom("Payload is empty"));
        }
        let signature = Bytes::decode(&mut payload)?.to_vec();
        if payload.is_empty() {
            return Err(alloy_rlp::Error::Custom("Seq is missing"));
        }
        let seq = u64::decode(&mut payload)?;
        let mut content = BTreeMap::new();
        let mut prev: Option<Vec<u8>> = None;
        while !payload.is_empty() {
            let key = Bytes::decode(&mut payload)?.to_vec();
            if payload.is_empty() {
                return Err(alloy_rlp::Error::Custom("Invalid key/value pair"));
            }
            let mut probe = payload;
            let vh = Header::decode(&mut probe)?;
            let used = payload.len() - probe.len() + vh.payload_length;
            if used > payload.len() {
                return Err(alloy_rlp::Error::InputTooShort);
            }
            let value = Bytes::copy_from_slice(&payload[..used]);
            payload = &payload[used..];
            if prev.as_ref().is_some_and(|p| p >= &key) {
                return Err(alloy_rlp::Error::Custom("Unsorted keys"));
            }
            check_reserved(&key, &value).map_err(|_| alloy_rlp::Error::Custom("Invalid reserved key"))?;
            prev = Some(key.clone());
            content.insert(key, value);
        }
        let mut enr = Self {
            seq,
            node_id: NodeId::from([0; 32]),
            content,
            signature,
            phantom: PhantomData,
        };
        let pk = enr
            .raw_public_key()
            .ok_or(alloy_rlp::Error::Custom("Invalid public key"))?;
        enr.node_id = node_id_of(&pk).ok_or(alloy_rlp::Error::Custom("Invalid public key"))?;
        if !enr.verify() {
            return Err(alloy_rlp::Error::Custom("Invalid Signature"));
        }
        Ok(enr)
    }
}

pub struct Builder<K: EnrKey> {
    seq: u64,
    content: BTreeMap<Key, Bytes>,
    phantom: PhantomData<K>,
}
impl<K: EnrKey> Default for Builder<K> {
    fn default() -> Self {
        Self { seq: 1, content: BTreeMap::new(), phantom: PhantomData }
    }
}
impl<K: EnrKey> Builder<K> {
    pub fn seq(&mut self, seq: u64) -> &mut Self {
        self.seq = seq;
        self
    }
    pub fn add_value<T: Encodable>(&mut self, key: impl AsRef<[u8]>, value: &T) -> &mut Self {
        self.content.insert(key.as_ref().to_vec(), rlp_of(value));
        self
    }
    pub fn ip(&mut self, ip: IpAddr) -> &mut Self {
        match ip {
            IpAddr::V4(a) => self.ip4(a),
            IpAddr::V6(a) => self.ip6(a),
        }
    }
    pub fn ip4(&mut self, ip: Ipv4Addr) -> &mut Self {
        self.add_value("ip", &ip.octets().as_slice())
    }
    pub fn ip6(&mut self, ip: Ipv6Addr) -> &mut Self {
        self.add_value("ip6", &ip.octets().as_slice())
    }
    pub fn udp4(&mut self, port: u16) -> &mut Self {
        self.add_value("udp", &port)
    }
    pub fn tcp4(&mut self, port: u16) -> &mut Self {
        self.add_value("tcp", &port)
    }
    pub fn udp6(&mut self, port: u16) -> &mut Self {
        self.add_value("udp6", &port)
    }
    pub fn build(&mut self, key: &K) -> Result<Enr<K>, Error> {
        for (k, v) in &self.content {
            check_reserved(k, v)?;
        }
        let mut enr = Enr {
            seq: self.seq,
            node_id: NodeId::from([0; 32]),
            content: self.content.clone(),
            signature: vec![],
            phantom: PhantomData,
        };
        enr.resign(key)?;
        Ok(enr)
    }
}
